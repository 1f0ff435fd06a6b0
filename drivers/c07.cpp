// C07: hostile bytes for every reader, under ASan/UBSan/LSan, a CPU-time
// watchdog and a memory limit.
#include <thread>
#include "jsongen.hpp"
#include "csvgen.hpp"
#include "parser/csv.hpp"
#include "parser/mnist.hpp"
#include "parser/cifar.hpp"
using namespace EdgeLearning;

namespace {

std::string bytes(H::Rng& r, std::size_t n) { std::string s(n, 0); for (auto& ch: s) ch = char(r.next()); return s; }

std::string mutate(H::Rng& r, std::string s, const std::string& alphabet)
{
    for (auto k = r.size(1, 6); k; --k)
    {
        auto p = r.below(s.size() + 1);
        char ch = r.chance(.6) ? alphabet[r.below(alphabet.size())] : char(r.next());
        switch (r.below(7))
        {
            case 0: s.insert(p, 1, ch); break;
            case 1: if (p < s.size()) s[p] = ch; break;
            case 2: if (p < s.size()) s.erase(p, r.size(1, 4)); break;
            case 3: s.resize(p); break;
            case 4: { auto l = r.below(20); auto q = r.below(s.size() + 1); s.insert(p, s.substr(q, l)); break; }
            case 5: s.insert(p, r.size(1, 40), ch); break;
            default: if (s.size() > 1) std::swap(s[r.below(s.size())], s[r.below(s.size())]);
        }
    }
    return s.substr(0, 8192);
}

// ---- JSON -----------------------------------------------------------------
void use(H::Case& c, const JsonItem& d, int depth = 0)
{
    (void) d.size(); JsonItem copy(d); (void) (copy == d);
    (void) H::throws([&] { (void) d.as<double>(); }); (void) H::throws([&] { (void) d.as<int>(); });
    (void) H::throws([&] { (void) d.as_vec<double>(); }); (void) H::throws([&] { (void) d.as_map<std::string>(); });
    (void) H::throws([&] { (void) d.at("a"); }); (void) H::throws([&] { (void) d.at(0); });
    (void) std::string(d);
    if (depth < 4 && d.json_type() == JsonObject::JsonType::LIST) for (std::size_t i = 0; i < d.size() && i < 5; ++i) use(c, d.at(i), depth + 1);
}
void json(H::Case& c, const std::string& s)
{
    std::istringstream in(s);
    JsonItem d;
    for (int k = 0; k < 3; ++k)
    {
        bool t = H::throws([&] { in >> d; });
        c.tag(t ? "json-rejected" : "json-read");
        use(c, d);
        std::ostringstream o; o << d;
        // Data that was accepted is usable data: memory in proportion to the input.
        c.ok(o.str().size() <= 8 * s.size() + 64, "json-size-in-proportion", [&] { return H::str(s.size(), " bytes gave ", o.str().size()); });
        if (!in.good()) break;
    }
    { std::istringstream i2(s); JsonList l; (void) H::throws([&] { i2 >> l; }); std::ostringstream o; o << l; }
    { std::istringstream i2(s); JsonDict l; (void) H::throws([&] { i2 >> l; }); std::ostringstream o; o << l; }
    { std::istringstream i2(s); JsonLeaf l; (void) H::throws([&] { i2 >> l; }); std::ostringstream o; o << l; }
    c.nontrivial(H::hash_str(s));
}
const std::string JA = "[]{}:,\" \n\t\\0123456789.-+eEtrufalsn";

// ---- CSV ------------------------------------------------------------------
void csv(H::Case& c, const std::string& s)
{
    H::TmpFile f(s, ".csv");
    std::vector<TypeChecker::Type> types;
    if (c.rng.chance(.5)) types = { TypeChecker::Type::AUTO };
    else for (auto k = c.rng.below(6); k; --k) types.push_back(c.rng.pick({ TypeChecker::Type::INT, TypeChecker::Type::FLOAT, TypeChecker::Type::STRING, TypeChecker::Type::AUTO, TypeChecker::Type::NONE }));
    char sep = c.rng.pick({ ',', ',', ';', '\t', '\0', '"' });
    std::set<SizeType> labels; if (c.rng.chance(.5)) labels.insert(0);
    try
    {
        CSV csv(f.path(), types, sep, labels);
        c.tag("csv-opened");
        for (int k = 0; k < 6; ++k)
        {
            std::size_t i = c.rng.chance(.2) ? c.rng.next() : c.rng.below(csv.rows_size() + 2);
            (void) H::throws([&] {
                auto row = csv[i];
                (void) std::vector<std::string>(row); (void) row.to_vec<double>(); (void) row.to_vec<int>();
                std::vector<CSVField> fs = row;
                for (std::size_t j = 0; j < std::min<std::size_t>(row.size() + 1, 20); ++j)
                    (void) H::throws([&] { auto x = row[j]; (void) x.as<double>(); (void) x.as<int>(); (void) x.as<std::string>(); (void) x.type(); }); });
            (void) H::throws([&] { auto e = csv.entry(i); c.ok(e.size() == csv.cols_size(), "csv-entry-size"); for (double v: e) c.ok(!std::isnan(v), "csv-entry-nan"); });
        }
        (void) H::throws([&] { (void) csv.to_mat<double>(); (void) csv.to_vec<double>(); (void) std::vector<std::string>(csv); (void) std::vector<CSVRow>(csv); });
        (void) H::throws([&] { std::size_t n = 0; for (auto it = csv.begin(); it != csv.end() && n < 5000; ++it, ++n) (void) it->line(); c.ok(n < csv.rows_size() || n == 0, "csv-iteration-bounded"); });
        (void) H::throws([&] { (void) csv.header().line(); (void) csv.header().types(); });
        if (csv.rows_size() < 300)
        {
            (void) H::throws([&] { (void) csv.unique(0); (void) csv.unique_map(csv.cols_size() - 1); });
            (void) H::throws([&] { (void) csv.data_to_encoding(DatasetParser::LabelEncoding::ONE_HOT_ENCODING); (void) csv.data_to_encoding(); });
        }
        CSV copy(csv); (void) H::throws([&] { (void) copy[1]; });
    }
    catch (const std::exception&) { c.tag("csv-rejected"); }
    c.nontrivial(H::hash_str(s));
}

// ---- binary ---------------------------------------------------------------
std::string be(std::uint32_t v) { return { char(v >> 24), char(v >> 16), char(v >> 8), char(v) }; }

void mnist(H::Case& c, const std::string& im, const std::string& lb, std::size_t whole_images = 0, std::size_t whole_labels = 0)
{
    H::TmpFile fi(im), fl(lb);
    try
    {
        Mnist m(fi.path(), fl.path());
        c.tag("mnist-opened");
        std::vector<std::size_t> order;
        for (int k = 0; k < 8; ++k) order.push_back(c.rng.chance(.3) ? c.rng.next() : c.rng.below(m.size() + 2));
        for (std::size_t k = 0; k < whole_images; ++k) order.push_back(k);
        c.rng.shuffle(order);
        for (auto i: order)
        {
            auto how = c.rng.below(3);
            (void) H::throws([&] {
                std::vector<std::uint8_t> px; int label = -1; std::size_t at = m.size() ? i % m.size() : 0;
                if (how == 0) { auto x = m.image(i); px = x.data(); (void) std::string(x); label = m.label(i).data(); }
                else if (how == 1) { auto x = m[i]; px = x.image.data(); label = x.label.data(); }
                else { auto e = m.entry(i); c.ok(e.size() == 785, "mnist-entry-size"); px.assign(e.begin(), e.end() - 1); label = int(e.back()); }
                c.ok(px.size() == 784, "mnist-image-size");
                // Entries that are present are right, whatever failed before.
                if (at < whole_images)
                {
                    c.ok(std::equal(px.begin(), px.end(), reinterpret_cast<const std::uint8_t*>(im.data()) + 16 + at * 784), "mnist-present-image", [&] { return H::str("image ", at); });
                    c.tag("present-image");
                }
                if (at < whole_labels) c.ok(label == int(std::uint8_t(lb[8 + at])), "mnist-present-label", [&] { return H::str("label ", at); }); });
        }
        if (m.size() && m.size() < 20) (void) H::throws([&] { (void) m.unique(784); });
    }
    catch (const std::exception&) { c.tag("mnist-rejected"); }
    c.nontrivial(H::comb(H::hash_str(im), H::hash_str(lb)));
}

void cifar(H::Case& c, const std::string& batch, const std::string& names, const std::string& fine)
{
    H::TmpFile fb(batch), fn(names), ff(fine);
    bool hundred = c.rng.chance(.5), order = c.rng.chance(.5);
    std::size_t off = hundred ? 2 : 1, rec = 3072 + off, whole = batch.size() / rec;
    try
    {
        auto o = order ? CifarShapeOrder::ROW_COL_CHN : CifarShapeOrder::CHN_ROW_COL;
        Cifar m = hundred ? Cifar(fb.path(), fn.path(), o, CifarDataset::CIFAR_100, ff.path()) : Cifar(fb.path(), fn.path(), o);
        c.tag("cifar-opened");
        std::vector<std::size_t> idx;
        for (int k = 0; k < 6; ++k) idx.push_back(c.rng.chance(.3) ? c.rng.next() : c.rng.below(12));
        for (std::size_t k = 0; k < whole && k < 12; ++k) idx.push_back(k);
        c.rng.shuffle(idx);
        for (auto i: idx) (void) H::throws([&] {
            auto at = i % m.size();
            if (c.rng.chance(.3)) { auto l = m.label(i); if (at < whole) { auto b = reinterpret_cast<const std::uint8_t*>(batch.data()) + at * rec; c.ok(l.coarse_label() == b[0] && (!hundred || l.fine_label() == b[1]), "cifar-present-label"); } return; }
            auto x = m.image(i); (void) std::string(x); auto l = m.label(i); (void) std::string(l);
            auto px = x.data(); c.ok(px.size() == 3072, "cifar-image-size");
            if (at < whole)
            {
                auto b = reinterpret_cast<const std::uint8_t*>(batch.data()) + at * rec;
                bool good = true;
                for (std::size_t q = 0; q < 3072; ++q) good = good && px[order ? (q % 1024) * 3 + q / 1024 : q] == b[off + q];
                c.ok(good, "cifar-present-image", [&] { return H::str("picture ", at); });
                c.ok(l.coarse_label() == b[0] && (!hundred || l.fine_label() == b[1]), "cifar-present-label");
                c.tag("present-picture");
            }
            auto e = m.entry(i); c.ok(e.size() == 3073, "cifar-entry-size"); });
        (void) m.label_names(); (void) m.fine_label_names();
    }
    catch (const std::exception&) { c.tag("cifar-rejected"); }
    c.nontrivial(H::comb(H::hash_str(batch), H::hash_str(names)));
}

} // namespace

int main(int argc, char** argv)
{
    return H::run(argc, argv, {
        { "json-random", 12000, 300000, [](H::Case& c) {
            std::string s;
            auto n = c.rng.chance(.05) ? c.rng.below(4000) : c.rng.below(60);
            for (H::u64 k = 0; k < n; ++k) s += c.rng.chance(.85) ? JA[c.rng.below(JA.size())] : char(c.rng.next());
            if (c.rng.chance(.6)) s = c.rng.pick({ "[", "{", "{\"a\":", "[[", "\"" }) + s;
            json(c, s); c.sample(s); } },
        { "json-mutated", 12000, 300000, [](H::Case& c) {
            auto n = J::tree(c.rng, int(c.rng.range(1, 5))).first;
            json(c, mutate(c.rng, J::write(n, c.rng.chance(.5) ? &c.rng : nullptr), JA)); } },
        { "json-truncated", 300, 6000, [](H::Case& c) {
            auto s = J::write(J::tree(c.rng, 4).first); if (s.size() > 400) s.resize(400);
            for (std::size_t k = 0; k <= s.size(); ++k) json(c, s.substr(0, k));
            c.tag("json-truncated"); } },
        { "json-deep", 40, 400, [](H::Case& c) {
            // Nesting far beyond what a stack holds.
            auto n = c.rng.size(500, 60000); std::string s, unit = c.rng.pick({ "[", "{\"a\":", "[[],", "{\"\":[" });
            for (std::size_t k = 0; k < n; ++k) s += unit;
            std::istringstream in(s); JsonItem d; bool t = H::throws([&] { in >> d; });
            c.ok(t, "json-unclosed-accepted"); c.tag("json-deep"); c.nontrivial(H::hash_str(s)); } },
        { "json-repeatable", 120, 2000, [](H::Case& c) {
            // What becomes of a text depends on the text alone, not on what
            // was read, or refused, before.
            std::vector<std::string> ts;
            for (int k = 0; k < 6; ++k) ts.push_back(mutate(c.rng, J::write(J::tree(c.rng, 3).first), JA));
            auto nest = [](std::size_t n, bool list) { std::string s, e; for (std::size_t k = 0; k < n; ++k) { s += list ? "[" : "{\"a\":"; e += list ? "]" : "}"; } return s + (list ? "" : "1") + e; };
            for (int k: { 100, 990, 998, 999, 1000, 1001, 1002, 1003, 1010 }) ts.push_back(nest(std::size_t(k), c.rng.chance(.5)));
            auto read = [&](const std::string& s) {
                std::istringstream in(s); JsonItem d; if (H::throws([&] { in >> d; })) return std::string("refused");
                std::ostringstream o; o << d; return o.str(); };
            // How deep a text may be, where there is a bound.
            auto bound = [&] { std::size_t lo = 1, hi = 3000; while (lo < hi) { auto m = (lo + hi + 1) / 2; if (read(nest(m, true)) == "refused") hi = m - 1; else lo = m; } return lo; };
            auto deepest = bound();
            std::vector<std::string> first;   // as read by a thread that has read nothing yet
            for (auto& s: ts) { std::string o; std::thread t([&] { o = read(s); }); t.join(); first.push_back(o); }
            auto bad = c.rng.below(4); auto n = c.rng.size(1, 30);
            for (std::size_t k = 0; k < n; ++k)
                (void) read(bad == 0 ? nest(1200 + c.rng.below(50), c.rng.chance(.5)) : bad == 1 ? nest(c.rng.size(1, 700), true).substr(0, 600) : bad == 2 ? nest(300, false).insert(1000, "x") : mutate(c.rng, ts[c.rng.below(ts.size())], JA));
            for (std::size_t i = ts.size(); i--; ) c.ok(read(ts[i]) == first[i], "outcome-depends-on-history", [&] { return H::str(ts[i].substr(0, 40), " (", ts[i].size(), " bytes): ", first[i].substr(0, 40), " became ", read(ts[i]).substr(0, 40)); });
            auto now = bound(); c.ok(now == deepest, "bound-depends-on-history", [&] { return H::str(deepest, " levels, then ", now); });
            c.tag("json-repeatable"); c.nontrivial(H::comb(H::hash_str(ts[0]), n)); } },
        { "csv-random", 6000, 150000, [](H::Case& c) {
            static const std::string A = ",;\n\n\t\"\r 0123456789.-+eabcNULLtruefalse";
            std::string s; auto n = c.rng.chance(.05) ? c.rng.below(6000) : c.rng.below(80);
            for (H::u64 k = 0; k < n; ++k) s += c.rng.chance(.9) ? A[c.rng.below(A.size())] : char(c.rng.next());
            csv(c, s); c.sample(s); } },
        { "csv-mutated", 6000, 150000, [](H::Case& c) {
            auto g = G::csv(c.rng, G::ANY, 12, 8, .5);
            csv(c, mutate(c.rng, g.text(), ",;\n\r\"0e.-")); } },
        { "csv-long-fields", 60, 1000, [](H::Case& c) {
            // Long fields and many columns; classification must not recurse.
            std::string s;
            switch (c.rng.below(4))
            {
                case 0: s = "a,b\n" + std::string(c.rng.size(10000, 300000), c.rng.pick({ '1', 'x', '"', '.' })) + ",1\n"; break;
                case 1: s = std::string(c.rng.size(1000, 20000), ',') + "\n1\n"; break;
                case 2: s = "a\n\"" + std::string(c.rng.size(10000, 200000), 'q') + "\"\n"; break;
                default: s = std::string(c.rng.size(100, 5000), '\n');
            }
            csv(c, s); c.tag("csv-long"); } },
        { "mnist-mutated", 2500, 50000, [](H::Case& c) {
            auto n = c.rng.size(0, 5);
            std::string im = be(0x803) + be(std::uint32_t(n)) + be(28) + be(28) + bytes(c.rng, n * 784), lb = be(0x801) + be(std::uint32_t(n)) + bytes(c.rng, n);
            auto& t = c.rng.chance(.5) ? im : lb;
            switch (c.rng.below(6))
            {
                case 0: t.resize(c.rng.below(t.size() + 1)); break;
                case 1: t[c.rng.below(std::min<std::size_t>(t.size(), 16))] = char(c.rng.next()); break;
                case 2: { auto m = be(std::uint32_t(c.rng.chance(.5) ? c.rng.next() : c.rng.below(100000))); im.replace(4, 4, m); lb.replace(4, 4, m); break; }
                case 3: im.resize(c.rng.below(im.size() + 1)); lb.resize(c.rng.below(lb.size() + 1)); break;
                case 4: im = bytes(c.rng, c.rng.below(2000)); break;
                default: t += bytes(c.rng, c.rng.below(500));
            }
            mnist(c, im, lb); } },
        { "mnist-truncated", 500, 10000, [](H::Case& c) {
            // The header announces more images than the file holds: the ones
            // that are there must stay readable, in any order, after failed reads.
            auto n = c.rng.size(2, 6);
            std::string im = be(0x803) + be(std::uint32_t(n)) + be(28) + be(28) + bytes(c.rng, n * 784), lb = be(0x801) + be(std::uint32_t(n)) + bytes(c.rng, n);
            im.resize(16 + c.rng.below(n * 784 + 1)); lb.resize(8 + c.rng.below(n + 1));
            mnist(c, im, lb, (im.size() - 16) / 784, lb.size() - 8); c.tag("mnist-truncated"); } },
        { "cifar-bytes", 1200, 25000, [](H::Case& c) {
            std::string b = bytes(c.rng, c.rng.chance(.3) ? c.rng.below(100) : c.rng.below(5 * 3074 + 7)), n, f;
            for (auto k = c.rng.below(12); k; --k) { n += J::text(c.rng) + (c.rng.chance(.9) ? "\n" : ""); f += bytes(c.rng, c.rng.below(9)) + "\n"; }
            cifar(c, b, n, f); } },
        { "missing-files", 40, 400, [](H::Case& c) {
            auto none = H::opt().scratch + "/none" + std::to_string(c.rng.below(1000));
            c.ok(H::throws([&] { CSV x(none); }), "csv-missing-accepted");
            c.ok(H::throws([&] { Mnist x(none, none); }), "mnist-missing-accepted");
            H::TmpFile f(be(0x803) + be(0) + be(28) + be(28));
            c.ok(H::throws([&] { Mnist x(f.path(), none); }), "mnist-missing-accepted");
            (void) H::throws([&] { Cifar x(none, none); (void) x.image(3).data(); (void) x.label(2); (void) x.entry(1); });
            (void) H::throws([&] { CSV x(H::opt().scratch); (void) x[0]; (void) x[1]; });
            (void) H::throws([&] { Mnist x(H::opt().scratch, H::opt().scratch); });
            c.tag("missing"); c.nontrivial(c.id); } },
        { "field-bytes", 4000, 80000, [](H::Case& c) {
            TypeChecker tc;
            for (int k = 0; k < 10; ++k)
            {
                auto s = c.rng.chance(.5) ? bytes(c.rng, c.rng.below(30)) : mutate(c.rng, G::number(c.rng), "0123456789+-.eE\"");
                (void) TypeChecker::parse(s); double d; int i; long l; float f; bool b; std::string t; unsigned u;
                (void) tc(s, d); (void) tc(s, i); (void) tc(s, l); (void) tc(s, f); (void) tc(s, b); (void) tc(s, t); (void) tc(s, u);
                c.nontrivial(H::hash_str(s));
            }
            c.tag("fields"); } },
    });
}
