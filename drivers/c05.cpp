// C05: write / read round trips of JSON documents.
#include "jsongen.hpp"
using namespace EdgeLearning;
using J::Node;

namespace {

void roundtrip(H::Case& c, const Node& n, const JsonItem& doc)
{
    J::compare(c, n, doc, "built-document");
    std::ostringstream o; o << doc;
    const std::string text = o.str();
    // The text is one document that an independent reader reads the same way.
    Node back;
    c.ok(J::Reader(text).document(back) && J::same(back, n), "written-text", [&] { return J::show(text); });
    JsonItem again; std::istringstream in(text);
    in >> again;
    J::compare(c, n, again, "re-read-document");
    c.ok(again == doc && !(again != doc), "re-read-equal", [&] { return J::show(text); });
    std::ostringstream o2; o2 << again;
    c.ok(o2.str() == text, "second-text", [&] { return J::show(text) + " became " + J::show(o2.str()); });
    if (n.kind == Node::LIST || n.kind == Node::DICT) c.ok(std::string(doc) == text, "string-conversion");
    // Whitespace between tokens is irrelevant.
    std::string spaced = J::write(n, &c.rng);
    JsonItem third; std::istringstream in3(spaced);
    in3 >> third;
    J::compare(c, n, third, "whitespace-document");
    c.ok(third == doc, "whitespace-equal", [&] { return J::show(spaced); });
    std::ostringstream o3; o3 << third;
    c.ok(o3.str() == text, "whitespace-text", [&] { return J::show(spaced); });
    c.tag("kind:" + std::to_string(n.kind));
    if (J::weight(n) > 1) c.nontrivial(J::hash(n));
}

} // namespace

int main(int argc, char** argv)
{
    return H::run(argc, argv, {
        { "documents", 20000, 400000, [](H::Case& c) {
            auto p = J::tree(c.rng, int(c.rng.range(1, 6)));
            roundtrip(c, p.first, p.second);
            c.sample(J::write(p.first)); } },
        { "wide", 100, 2000, [](H::Case& c) {
            Node n; JsonItem d; n.kind = c.rng.chance(.5) ? Node::LIST : Node::DICT;
            for (auto k = c.rng.size(50, 600); k; --k)
            {
                auto p = J::tree(c.rng, int(c.rng.below(3)), 3);
                if (n.kind == Node::LIST) { n.list.push_back(p.first); d.append(p.second); }
                else { auto ky = J::text(c.rng) + std::to_string(k); n.dict[ky] = p.first; d[ky] = p.second; }
            }
            roundtrip(c, n, d); } },
        { "large", 40, 600, [](H::Case& c) { auto p = J::large(c.rng, 600, 9000); roundtrip(c, p.first, p.second); c.tag("large"); } },
        { "huge", 2, 24, [](H::Case& c) {
            // Lists and objects of more elements than narrow counters hold.
            Node n; JsonItem d; n.kind = c.id % 2 ? Node::LIST : Node::DICT; JsonDict jd;
            auto k = c.rng.size(131500, 140000);
            for (std::size_t i = 0; i < k; ++i)
            {
                Node l; l.kind = Node::LEAF; l.text = std::to_string(i * 7 % 100003);
                if (n.kind == Node::LIST) { n.list.push_back(l); d.append(JsonItem(long(i * 7 % 100003))); } else { auto s = "k" + std::to_string(i); n.dict[s] = l; jd[s] = JsonItem(long(i * 7 % 100003)); }
            }
            if (n.kind == Node::DICT) d = JsonItem(jd);
            std::ostringstream o; o << d; c.ok(o.str() == J::write(n), "huge-text");
            JsonItem again; std::istringstream in(o.str()); in >> again; c.ok(again.size() == k && (n.kind == Node::DICT || again == d), "huge-equal");   // comparing objects takes quadratic time
            std::ostringstream o2; o2 << again; c.ok(o2.str() == o.str(), "huge-second-text");
            c.tag("huge"); c.nontrivial(k); } },
        { "repeated-keys", 1000, 20000, [](H::Case& c) {
            // The last value given to a key is its value, whole.
            Node n; n.kind = Node::DICT; std::string text = "{"; bool first = true; std::size_t repeated = 0;
            for (auto k = c.rng.size(2, 12); k; --k)
            {
                auto key = "k" + std::to_string(c.rng.below(5)); auto v = J::tree(c.rng, 3).first; repeated += n.dict.count(key);
                n.dict[key] = v; text += (first ? "\"" : ",\"") + key + "\":" + J::write(v, &c.rng); first = false;
            }
            JsonItem d; std::istringstream in(text + "}"); in >> d; J::compare(c, n, d, "repeated-keys");
            if (repeated) { c.tag("repeated-key"); c.nontrivial(H::hash_str(text)); } } },
        { "long-texts", 100, 1500, [](H::Case& c) {
            Node n; JsonItem d; n.kind = Node::DICT;
            for (auto k = c.rng.size(1, 3); k; --k)
            {
                std::string s, ky; auto len = (std::size_t(64) << c.rng.below(12)) + c.rng.below(9); while (s.size() < len) s += "x" + J::text(c.rng);
                auto kl = c.rng.chance(.5) ? 3 : c.rng.size(50, 9000); while (ky.size() < kl) ky += "k" + J::text(c.rng);
                Node l; l.kind = Node::LEAF; l.quoted = true; l.text = s; n.dict[ky] = l; d[ky] = JsonItem(s);
            }
            roundtrip(c, n, d); c.tag("long-text"); } },
        { "deep", 30, 400, [](H::Case& c) {
            auto p = J::tree(c.rng, 2);
            Node n = p.first; JsonItem d = p.second;
            auto levels = c.rng.size(100, 800);
            for (std::size_t i = 0; i < levels; ++i)
            {
                Node m; JsonItem e;
                if (c.rng.chance(.5)) { m.kind = Node::LIST; m.list.push_back(std::move(n)); e.append(d); }
                else { m.kind = Node::DICT; auto k = J::key(c.rng); m.dict[k] = std::move(n); JsonDict jd; jd[k] = d; e = JsonItem(jd); }
                n = std::move(m); d = e;
            }
            std::ostringstream o; o << d;
            { auto plain = [](std::string t) { t.erase(std::remove(t.begin(), t.end(), ' '), t.end()); return t; }; c.ok(plain(o.str()) == plain(J::write(n)), "deep-text"); }
            JsonItem again; std::istringstream in(o.str());
            in >> again;
            c.ok(again == d, "deep-equal", [&] { return H::str(levels, " levels"); });
            std::ostringstream o2; o2 << again;
            c.ok(o2.str() == o.str(), "deep-second-text");
            c.tag("deep"); c.nontrivial(H::hash_str(o.str())); } },
        { "numbers", 3000, 60000, [](H::Case& c) {
            std::vector<double> v; std::vector<long long> ll; std::vector<unsigned long long> ull; std::vector<bool> b;
            for (int i = 0; i < 12; ++i)
            {
                double x;
                switch (c.rng.below(8))
                {
                    case 0: x = c.rng.uni(-1, 1); break;
                    case 1: x = c.rng.uni(-1, 1) * std::pow(10., double(c.rng.range(-308, 308))); break;
                    case 2: x = double(c.rng.range(-100000, 100000)) / 1e6; break;
                    case 3: x = double(long(c.rng.next())); break;
                    case 4: x = c.rng.pick({ 0., -0., 1e-320, 4.9406564584124654e-324, 1.7976931348623157e308, -1.7976931348623157e308, 2.2250738585072014e-308, 0.1, 1. / 3, 1e22, 123456.789, 1e-7, 9007199254740993. }); break;
                    case 5: x = double(float(c.rng.uni(-1, 1) * std::pow(10., double(c.rng.range(-37, 37))))); c.tag("single-precision-value"); break;
                    default: do { auto q = c.rng.next(); std::memcpy(&x, &q, 8); } while (!std::isfinite(x));
                }
                v.push_back(x);
                ll.push_back((long long) (c.rng.next()) >> c.rng.below(63)); ull.push_back(c.rng.next() >> c.rng.below(63)); b.push_back(c.rng.chance(.5));
            }
            JsonDict d; d["v"] = JsonList(v); d["l"] = JsonList(ll); d["u"] = JsonList(ull); d["b"] = JsonList(b);
            std::stringstream s; s << JsonItem(d);
            std::string text = s.str();
            JsonItem r; s >> r;
            auto w = r.at("v").as_vec<double>();
            c.must(w.size() == v.size(), "number-count");
            for (std::size_t i = 0; i < v.size(); ++i)
            {
                c.ok(w[i] == v[i] && std::signbit(w[i]) == std::signbit(v[i]), "double-value", [&] { return H::str(v[i], " came back as ", w[i], " (", std::string(r.at("v").at(i)), ")"); });
                // The text itself denotes that number.
                c.ok(std::strtod(std::string(r.at("v").at(i)).c_str(), nullptr) == v[i], "double-text", [&] { return H::str(v[i], " written as ", std::string(r.at("v").at(i))); });
                JsonItem single(v[i]);
                c.ok(single.as<double>() == v[i] && double(single) == v[i], "leaf-value", [&] { return H::str(v[i]); });
                c.nontrivial(H::hash_bytes(&v[i], 8));
            }
            c.ok(r.at("l").as_vec<long long>() == ll, "integer-value", [&] { return text; });
            c.ok(r.at("u").as_vec<unsigned long long>() == ull, "unsigned-value", [&] { return text; });
            for (std::size_t i = 0; i < b.size(); ++i) c.ok(r.at("b").at(i).as<bool>() == b[i], "bool-value");
            c.tag("numbers"); } },
        { "strings", 4000, 80000, [](H::Case& c) {
            std::map<std::string, std::string> m;
            for (auto k = c.rng.size(1, 8); k; --k) m[J::text(c.rng)] = J::text(c.rng);
            JsonDict d; for (auto& e: m) d[e.first] = JsonItem(JsonLeaf(e.second, TypeChecker::Type::STRING));
            std::stringstream s; s << d; std::string text = s.str();
            JsonItem r; s >> r;
            auto back = r.as_map<std::string>();
            c.ok(back == m, "string-values", [&] { return J::show(text); });
            c.ok(r == JsonItem(d), "string-document-equal");
            c.tag("strings"); c.nontrivial(H::hash_str(text)); } },
        { "standalone", 3000, 60000, [](H::Case& c) {
            // Lists, objects and leaves read and written without a wrapping item.
            auto p = J::tree(c.rng, 4);
            if (p.first.kind == Node::LIST)
            {
                auto l = dynamic_cast<const JsonList&>(p.second.value());
                std::stringstream s; s << l; JsonList r; s >> r;
                c.ok(r == l && !(r != l), "list-roundtrip"); J::compare(c, p.first, JsonItem(r), "list-document"); c.tag("list");
            }
            else if (p.first.kind == Node::DICT)
            {
                auto l = dynamic_cast<const JsonDict&>(p.second.value());
                std::stringstream s; s << l; JsonDict r; s >> r;
                c.ok(r == l && !(r != l), "object-roundtrip"); J::compare(c, p.first, JsonItem(r), "object-document"); c.tag("object");
            }
            else
            {
                auto l = dynamic_cast<const JsonLeaf&>(p.second.value());
                std::stringstream s; s << l; JsonLeaf r; s >> r;
                c.ok(r == l && !(r != l) && r.value() == l.value(), "leaf-roundtrip"); c.tag("leaf");
            }
            c.nontrivial(J::hash(p.first)); } },
        { "read-into-used", 2000, 40000, [](H::Case& c) {
            // Reading replaces whatever the target held before.
            auto p = J::tree(c.rng, 4), q = J::tree(c.rng, 4);
            std::ostringstream o; o << q.second; std::istringstream in(o.str());
            JsonItem d = p.second; in >> d;
            J::compare(c, q.first, d, "read-into-used-item");
            std::ostringstream o2; o2 << d; c.ok(o2.str() == o.str(), "read-into-used-text");
            std::istringstream in2(o.str());
            if (q.first.kind == Node::LEAF)
            {
                JsonLeaf l("before", TypeChecker::Type::STRING); in2 >> l; std::ostringstream w; w << l;
                c.ok(w.str() == o.str() && l.value() == q.first.text, "read-into-used-leaf", [&] { return w.str() + " instead of " + o.str(); }); c.tag("used-leaf");
            }
            else if (q.first.kind == Node::LIST) { JsonList l(std::vector<int>{ 1, 2, 3 }); in2 >> l; std::ostringstream w; w << l; c.ok(w.str() == o.str(), "read-into-used-list"); c.tag("used-list"); }
            else { JsonDict l; l["x y"] = JsonItem(1); in2 >> l; std::ostringstream w; w << l; c.ok(w.str() == o.str(), "read-into-used-object"); c.tag("used-object"); }
            c.nontrivial(H::comb(J::hash(p.first), J::hash(q.first))); } },
        { "sequence-of-documents", 1000, 20000, [](H::Case& c) {
            // Each read consumes exactly one (bracketed) document of the stream.
            std::stringstream s; std::vector<Node> ns;
            for (auto k = c.rng.size(2, 5); k; --k)
            {
                Node n; JsonItem d; do { auto p = J::tree(c.rng, 3); n = p.first; d = p.second; } while (n.kind == Node::LEAF);
                ns.push_back(n); s << d; if (c.rng.chance(.5)) s << c.rng.pick({ "\n", " ", "\t\n " });
            }
            for (auto& n: ns) { JsonItem d; s >> d; J::compare(c, n, d, "document-of-stream"); c.nontrivial(J::hash(n)); } } },
    });
}
