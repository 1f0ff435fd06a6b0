// C06: operation histories over several live JSON trees against shadow trees.
#include "jsongen.hpp"
#include <memory>
using namespace EdgeLearning;
using J::Node;

namespace {

struct Live { std::unique_ptr<JsonItem> item; Node shadow; };

/// A random node of the tree, reached through the library and in the shadow.
struct Place { JsonItem* item; Node* node; std::string path; };
Place walk(H::Case& c, JsonItem& root, Node& shadow, double stop)
{
    Place p{ &root, &shadow, "$" };
    while (!c.rng.chance(stop))
    {
        if (p.node->kind == Node::LIST && !p.node->list.empty())
        {
            auto i = c.rng.below(p.node->list.size());
            p.item = c.rng.chance(.5) ? &(*p.item)[i] : &(*p.item)[int(i)];
            p.node = &p.node->list[i]; p.path += "[" + std::to_string(i) + "]";
        }
        else if (p.node->kind == Node::DICT && !p.node->dict.empty())
        {
            auto it = p.node->dict.begin(); std::advance(it, long(c.rng.below(p.node->dict.size())));
            p.item = c.rng.chance(.5) ? &(*p.item)[it->first] : &(*p.item)[it->first.c_str()];
            p.node = &it->second; p.path += "." + it->first;
        }
        else break;
    }
    return p;
}
std::pair<const JsonItem*, const Node*> cwalk(H::Case& c, const JsonItem& root, const Node& shadow)
{
    const JsonItem* i = &root; const Node* n = &shadow;
    while (c.rng.chance(.7))
    {
        if (n->kind == Node::LIST && !n->list.empty()) { auto k = c.rng.below(n->list.size()); i = &i->at(k); n = &n->list[k]; }
        else if (n->kind == Node::DICT && !n->dict.empty())
        { auto it = n->dict.begin(); std::advance(it, long(c.rng.below(n->dict.size()))); i = &i->at(it->first); n = &it->second; }
        else break;
    }
    return { i, n };
}
bool number_leaf(const Node& n)
{
    if (n.kind != Node::LEAF || n.text.empty() || n.text.size() > 15) return false;
    char* e; std::strtod(n.text.c_str(), &e);
    return *e == 0 && (std::isdigit((unsigned char) n.text.back())) && (n.text[0] == '-' || std::isdigit((unsigned char) n.text[0])) && n.text.find_first_not_of("0123456789-.e+") == std::string::npos;
}

void access(H::Case& c, const JsonItem& root, const Node& shadow)
{
    auto p = cwalk(c, root, shadow);
    auto& ji = *p.first; auto& n = *p.second;
    c.ok(ji.size() == n.size(), "size");
    // Missing elements and wrong kinds throw.
    auto must_throw = [&](bool missing, const std::function<void()>& f, const char* key) {
        bool t = H::throws(f);
        c.ok(t == missing, key, [&] { return H::str("node of kind ", int(n.kind), " size ", n.size(), t ? " threw" : " did not throw"); });
        c.tag(missing ? "checked-access-throws" : "checked-access-returns"); };
    std::string k = J::key(c.rng);
    std::size_t i = c.rng.chance(.3) ? n.size() + c.rng.below(3) : c.rng.below(n.size() + 3);
    if (c.rng.chance(.1)) i = std::size_t(-1);
    must_throw(!(n.kind == Node::DICT && n.dict.count(k)), [&] { (void) ji.at(k); }, "at-key");
    must_throw(!(n.kind == Node::LIST && i < n.list.size()), [&] { (void) ji.at(i); }, "at-index");
    must_throw(!(n.kind == Node::LIST && i < n.list.size()), [&] { (void) const_cast<JsonItem&>(ji)[i]; }, "subscript-index");
    must_throw(n.kind == Node::LEAF || n.kind == Node::LIST, [&] { if (n.kind == Node::LEAF || n.kind == Node::LIST) (void) const_cast<JsonItem&>(ji)[k]; }, "subscript-key-of-non-object");
    must_throw(n.kind == Node::NONE, [&] { (void) ji.value(); }, "value");
    must_throw(n.kind != Node::LEAF, [&] { (void) ji.as<std::string>(); }, "as-text");
    must_throw(n.kind != Node::LEAF, [&] { (void) ji.as<double>(); }, "as-number");
    must_throw(n.kind != Node::LIST, [&] { (void) ji.as_vec<JsonItem>(); }, "as-vector");
    must_throw(n.kind != Node::DICT, [&] { (void) ji.as_map<JsonItem>(); }, "as-map");
    if (n.kind == Node::LEAF)
    {
        c.ok(ji.as<std::string>() == n.text && std::string(ji) == n.text, "leaf-text");
        c.ok(ji.as<bool>() == (n.text == "true" || n.text == "1"), "leaf-bool");
        if (number_leaf(n))
        {
            double d = std::strtod(n.text.c_str(), nullptr);
            c.ok(ji.as<double>() == d && double(ji) == d, "leaf-number", [&] { return n.text; });
            double o = 0; ji.as(o); c.ok(o == d, "leaf-number-ref");
            if (n.text.find_first_of(".e") == std::string::npos && n.text.size() < 10) c.ok(ji.as<int>() == int(d) && long(ji) == long(d), "leaf-integer");
        }
    }
    if (n.kind == Node::LIST)
    {
        auto v = ji.as_vec<JsonItem>(); std::vector<JsonItem> v2; ji.as_vec(v2);
        c.ok(v.size() == n.list.size() && v2.size() == v.size(), "vector-size");
        for (std::size_t q = 0; q < v.size() && q < n.list.size(); ++q)
        { J::compare(c, n.list[q], v[q], "vector-element"); J::compare(c, n.list[q], v2[q], "vector-element"); }
        auto l = ji.as<JsonList>();
        c.ok(l.size() == n.list.size() && l.empty() == n.list.empty() && l.value().size() == n.list.size(), "list-size");
        bool all = true; for (auto& x: n.list) all = all && number_leaf(x);
        if (all) { auto d = ji.as_vec<double>(); for (std::size_t q = 0; q < d.size(); ++q) c.ok(d[q] == std::strtod(n.list[q].text.c_str(), nullptr), "number-vector"); c.tag("number-vector"); }
        must_throw(l.size() <= i, [&] { (void) l.at(i); }, "list-at");
        c.tag("as-vector");
    }
    if (n.kind == Node::DICT)
    {
        auto m = ji.as_map<JsonItem>(); std::map<std::string, JsonItem> m2; ji.as_map(m2);
        c.ok(m.size() == n.dict.size() && m2.size() == m.size(), "map-size");
        for (auto& e: n.dict)
        {
            auto it = m.find(e.first), it2 = m2.find(e.first);
            if (c.ok(it != m.end() && it2 != m2.end(), "map-key")) { J::compare(c, e.second, it->second, "map-element"); J::compare(c, e.second, it2->second, "map-element"); }
        }
        auto d = ji.as<JsonDict>();
        c.ok(d.size() == n.dict.size() && d.empty() == n.dict.empty(), "object-size");
        must_throw(!n.dict.count(k), [&] { (void) d.at(k); }, "object-at");
        c.tag("as-map");
    }
}

void history(H::Case& c, int steps, bool large = false)
{
    std::vector<Live> live(1);
    live[0].item = std::make_unique<JsonItem>();
    if (large)
    {
        auto p = J::large(c.rng, 100, 2500); *live[0].item = p.second; live[0].shadow = p.first; c.tag("large");
        for (int k = 0; k < 5; ++k) access(c, *live[0].item, live[0].shadow);
    }
    std::string log; H::u64 h = 3;
    auto all = [&](const char* key) {
        for (std::size_t i = 0; i < live.size(); ++i) J::compare(c, live[i].shadow, *live[i].item, key, H::str("tree", i, " after ", log.size() > 300 ? log.substr(log.size() - 300) : log));
        if (c.failed) throw H::Abandon{}; };
    for (int s = 0; s < steps; ++s)
    {
        auto k = c.rng.below(live.size());
        auto& L = live[k];
        auto op = c.rng.below(16);
        h = H::comb(h, op * 8 + k);
        switch (op)
        {
            case 0: case 1: // overwrite a place with a new value of any kind
            {
                auto p = walk(c, *L.item, L.shadow, .35); auto t = J::tree(c.rng, int(c.rng.below(3)), 4);
                *p.item = t.second; *p.node = t.first; log += H::str("t", k, p.path, "=new "); c.tag("overwrite"); break;
            }
            case 2: case 3: // key access creates in objects and unset items
            {
                auto p = walk(c, *L.item, L.shadow, .35);
                if (p.node->kind != Node::DICT && p.node->kind != Node::NONE) break;
                auto key = J::key(c.rng); auto t = J::tree(c.rng, int(c.rng.below(2)), 3);
                p.node->kind = Node::DICT; p.node->dict[key] = t.first;
                (*p.item)[key] = t.second; log += H::str("t", k, p.path, ".", key, "=new "); c.tag("set-key"); break;
            }
            case 4: case 5: // append
            {
                auto p = walk(c, *L.item, L.shadow, .35); auto t = J::tree(c.rng, int(c.rng.below(2)), 3);
                bool can = p.node->kind == Node::LIST || p.node->kind == Node::NONE;
                bool threw = H::throws([&] { p.item->append(t.second); });
                c.ok(threw != can, "append-kind");
                if (can) { p.node->kind = Node::LIST; p.node->list.push_back(t.first); }
                log += H::str("t", k, p.path, ".append "); c.tag("append"); break;
            }
            case 6: case 7: // copy a place of one tree over a place of another or the same tree
            {
                auto m = c.rng.below(live.size());
                auto from = walk(c, *live[m].item, live[m].shadow, .3);
                Node value = *from.node;
                if (J::weight(value) > (large ? 5000 : 400)) break;
                auto to = walk(c, *L.item, L.shadow, .3);
                *to.item = *from.item; *to.node = value;
                log += H::str("t", k, to.path, "=t", m, from.path, " "); c.tag(m == k ? "assign-within" : "assign-across"); break;
            }
            case 8: // append a place of a tree to a list, possibly its own ancestor
            {
                auto m = c.rng.below(live.size());
                auto from = walk(c, *live[m].item, live[m].shadow, .4);
                auto to = walk(c, *L.item, L.shadow, .4);
                if (J::weight(*from.node) > (large ? 5000 : 400) || to.node->kind != Node::LIST) break;
                Node value = *from.node; to.item->append(*from.item); to.node->list.push_back(value);
                log += H::str("t", k, to.path, ".append(t", m, from.path, ") "); c.tag("append-copy"); break;
            }
            case 9: case 10: // copy construct
                if (live.size() < 5) { Live n; n.item = std::make_unique<JsonItem>(*L.item); n.shadow = L.shadow; log += H::str("copy t", k, " "); live.push_back(std::move(n)); c.tag("copy"); }
                break;
            case 11: // destroy
                if (live.size() > 1) { live.erase(live.begin() + long(k)); log += H::str("destroy t", k, " "); c.tag("destroy"); }
                break;
            case 12: // move construct
                if (live.size() < 5) { Live n; n.item = std::make_unique<JsonItem>(std::move(*L.item)); n.shadow = L.shadow; L.shadow = Node(); log += H::str("move t", k, " "); live.push_back(std::move(n)); c.tag("move"); }
                break;
            case 13: // values taken out are copies
            {
                auto p = walk(c, *L.item, L.shadow, .4);
                if (p.node->kind == Node::LIST)
                {
                    auto l = p.item->as<JsonList>(); l.append(JsonItem(7));
                    if (l.size() > 1) l[0] = JsonItem("changed");
                    auto v = p.item->as_vec<JsonItem>(); for (auto& x: v) x = JsonItem("changed too");
                }
                else if (p.node->kind == Node::DICT)
                {
                    auto d = p.item->as<JsonDict>(); for (auto& e: p.node->dict) d[e.first] = JsonItem(1); d["zzz"] = JsonItem(2);
                    auto m = p.item->as_map<JsonItem>(); for (auto& e: m) e.second = JsonItem(3);
                }
                c.tag("extracted-changed"); break;
            }
            default: access(c, *L.item, L.shadow);
        }
        if (J::weight(live[std::min(k, live.size() - 1)].shadow) > (large ? 20000 : 3000)) { auto& x = live[std::min(k, live.size() - 1)]; *x.item = JsonItem(0); x.shadow = Node(); x.shadow.kind = Node::LEAF; x.shadow.text = "0"; }
        if (c.rng.chance(.3) || s + 1 == steps) all("tree-content");
        for (int q = 0; q < 2; ++q)
        {
            auto a = c.rng.below(live.size()), b = c.rng.below(live.size());
            bool e = J::same(live[a].shadow, live[b].shadow);
            c.ok((*live[a].item == *live[b].item) == e && (*live[a].item != *live[b].item) == !e, "equality", [&] { return H::str("trees ", a, " and ", b, ": ", log); });
            c.tag(e ? "equal-pair" : "different-pair");
            if (!J::has_none(live[a].shadow) && live[a].shadow.kind != Node::LEAF) c.ok(std::string(*live[a].item) == J::write(live[a].shadow), "text-of-tree");
        }
    }
    for (auto& l: live) h = H::comb(h, J::hash(l.shadow));
    c.nontrivial(h);
    c.sample(log);
}

/// A tree that differs from n in exactly one place.
Node mutate(H::Rng& r, Node n)
{
    if (n.kind == Node::LIST && !n.list.empty() && r.chance(.7)) { auto& x = n.list[r.below(n.list.size())]; x = mutate(r, x); return n; }
    if (n.kind == Node::DICT && !n.dict.empty() && r.chance(.7)) { auto it = n.dict.begin(); std::advance(it, long(r.below(n.dict.size()))); it->second = mutate(r, it->second); return n; }
    switch (n.kind)
    {
        case Node::LEAF: { Node l = n; if (r.chance(.3)) { Node d; d.kind = Node::LIST; d.list.push_back(n); return d; } l.text += "x"; l.quoted = true; return l; }
        case Node::LIST: if (!n.list.empty() && r.chance(.3)) { n.list.pop_back(); return n; }
            if (n.list.size() > 1 && !J::same(n.list[0], n.list[1]) && r.chance(.4)) { std::swap(n.list[0], n.list[1]); return n; }
            if (n.list.empty() && r.chance(.3)) { n.kind = Node::DICT; return n; }
            { Node l; l.kind = Node::LEAF; l.text = "9"; n.list.push_back(l); return n; }
        case Node::DICT: if (!n.dict.empty() && r.chance(.4)) { n.dict.erase(n.dict.begin()); return n; }
            if (!n.dict.empty() && r.chance(.5)) { auto e = *n.dict.begin(); n.dict.erase(n.dict.begin()); n.dict["renamed" + e.first] = e.second; return n; }
            { Node l; l.kind = Node::LEAF; l.text = "9"; n.dict["added-key"] = l; return n; }
        default: { Node l; l.kind = Node::LEAF; l.text = "1"; return l; }
    }
}
JsonItem build(const Node& n)
{
    switch (n.kind)
    {
        case Node::LEAF: return JsonItem(JsonLeaf(n.text, n.quoted ? TypeChecker::Type::STRING : TypeChecker::Type::AUTO));
        case Node::LIST: { JsonList l; for (auto& x: n.list) l.append(build(x)); return JsonItem(l); }
        case Node::DICT: { std::map<std::string, JsonItem> m; for (auto& e: n.dict) m[e.first] = build(e.second); return JsonItem(m); }
        default: return JsonItem();
    }
}

} // namespace

/// Lists and objects of more elements than a small counter holds, flat and cheap to build.
void lengthy(H::Case& c)
{
    auto& r = c.rng; std::size_t n = r.chance(.4) ? r.size(65537, 140000) : r.size(3000, 66000);
    std::vector<int> v(n); for (auto& x: v) x = int(r.range(-99999, 99999));
    JsonItem l(JsonList{v}); c.ok(l.size() == n, "long-size", [&] { return H::str(l.size(), " instead of ", n); }); if (n > 65536) c.tag("lengthy");
    auto somewhere = [&] { return r.chance(.3) ? n - 1 - r.below(3) : std::size_t(r.below(n)); };
    for (int k = 0; k < 40; ++k) { auto i = somewhere(); const JsonItem& q = l; c.ok(int(l[i]) == v[i] && q.at(i).as<int>() == v[i] && int(l[int(i)]) == v[i], "long-access", [&] { return H::str("element ", i, " of ", n); }); }
    c.ok(l.as_vec<int>() == v && l.as<JsonList>().as<int>() == v, "long-vector", [&] { return H::str(n, " elements"); });
    JsonItem m(l); c.ok(m == l && !(m != l), "long-equality");
    auto i = somewhere(); m[i] = JsonItem(v[i] + 1); c.ok(m != l && l != m && int(l[i]) == v[i], "long-near-equality", [&] { return H::str("element ", i, " of ", n, " differs"); });
    m[i] = JsonItem(v[i]); c.ok(m == l, "long-equality"); m.append(JsonItem(7)); c.ok(m != l && m.size() == n + 1 && l.size() == n && int(m[n]) == 7, "long-append");
    c.ok(H::throws([&] { (void) l[n]; }) && H::throws([&] { const JsonItem& q = l; (void) q.at(n); }) && H::throws([&] { (void) l[n + 65536]; }), "long-beyond");
    std::stringstream ss; ss << l; JsonItem back; ss >> back; c.ok(back.size() == n && back.as_vec<int>() == v, "long-round-trip", [&] { return H::str(n, " elements, read ", back.size()); });
    // Objects: comparing them takes quadratic time, so those compared are shorter.
    std::size_t w = c.id % 20 == 3 ? r.size(65537, 80000) : r.size(300, 3000); std::map<std::string, int> mp; for (std::size_t k = 0; k < w; ++k) mp[std::to_string(k * 7919 % 1000003) + (r.chance(.3) ? "k" : "")] = int(k);
    JsonItem d(JsonDict{mp}); c.ok(d.size() == mp.size() && d.as_map<int>() == mp, "long-object", [&] { return H::str(mp.size(), " keys"); }); if (w > 65536) c.tag("lengthy-object");
    std::vector<std::string> keys; for (auto& e: mp) keys.push_back(e.first);
    JsonItem e(d);
    for (int k = 0; k < 20; ++k)
    {
        auto& key = keys[r.chance(.3) ? keys.size() - 1 : r.below(keys.size())]; const JsonItem& q = d; c.ok(int(d[key]) == mp[key] && q.at(key).as<int>() == mp[key], "long-object-access", [&] { return H::str("key ", key, " of ", keys.size()); });
        e[key] = JsonItem(mp[key] + 1); c.ok(int(d[key]) == mp[key] && int(e[key]) == mp[key] + 1, "long-object-independent", [&] { return H::str("key ", key, " of ", keys.size()); });
        if (w <= 3000 && k < 3) c.ok(d != e && e != d, "long-object-near-equality", [&] { return H::str("key ", key, " of ", keys.size()); });
        e[key] = JsonItem(mp[key]);
    }
    if (w <= 3000) c.ok(d == e && e == d, "long-object-equality");
    c.ok(d.size() == mp.size() && e.size() == mp.size(), "long-object-size");
    std::stringstream sd; sd << d; JsonItem again; sd >> again; c.ok(again.as_map<int>() == mp, "long-object-round-trip");
    c.nontrivial(H::comb(H::hash_vec(v), w)); c.sample(H::str(n, " elements, ", w, " keys"));
}
int main(int argc, char** argv)
{
    return H::run(argc, argv, {
        { "histories", 6000, 120000, [](H::Case& c) { history(c, 60); } },
        { "large", 80, 1500, [](H::Case& c) { history(c, 14, true); } },
        { "lengthy", 60, 900, lengthy },
        { "near-equal", 8000, 160000, [](H::Case& c) {
            auto n = J::tree(c.rng, int(c.rng.range(1, 4))).first;
            auto m = c.rng.chance(.3) ? n : mutate(c.rng, n);
            auto a = build(n), b = build(m);
            bool e = J::same(n, m);
            c.ok((a == b) == e && (b == a) == e && (a != b) != e && (b != a) != e, "near-equality", [&] { return J::show(J::write(n)) + " / " + J::show(J::write(m)); });
            if (n.kind == Node::LIST && m.kind == Node::LIST) c.ok((a.as<JsonList>() == b.as<JsonList>()) == e && (a.as<JsonList>() != b.as<JsonList>()) != e, "list-equality");
            if (n.kind == Node::DICT && m.kind == Node::DICT) c.ok((a.as<JsonDict>() == b.as<JsonDict>()) == e && (a.as<JsonDict>() != b.as<JsonDict>()) != e, "object-equality");
            c.tag(e ? "near-equal" : "near-different"); c.nontrivial(H::comb(J::hash(n), J::hash(m))); } },
        { "typed-containers", 2000, 40000, [](H::Case& c) {
            auto n = c.rng.below(12);
            std::vector<double> d; std::vector<int> i; std::vector<long> l; std::vector<unsigned> u; std::vector<unsigned long long> q; std::vector<bool> b; std::vector<std::string> s;
            std::map<std::string, double> md; std::map<std::string, int> mi; std::map<std::string, bool> mb; std::map<std::string, std::string> ms; std::map<std::string, unsigned long> mu;
            for (H::u64 k = 0; k < n; ++k)
            {
                d.push_back(c.rng.uni(-9, 9)); i.push_back(int(c.rng.next())); l.push_back(long(c.rng.next())); u.push_back(unsigned(c.rng.next())); q.push_back(c.rng.next()); b.push_back(c.rng.chance(.5)); s.push_back(J::text(c.rng));
                auto key = J::key(c.rng) + std::to_string(k);
                md[key] = d.back(); mi[key] = i.back(); mb[key] = b.back(); ms[key] = s.back(); mu[key] = c.rng.next();
            }
            c.ok(JsonList(d).as<double>() == d, "vector-double"); c.ok(JsonList(i).as<int>() == i, "vector-int"); c.ok(JsonList(l).as<long>() == l, "vector-long");
            c.ok(JsonList(u).as<unsigned>() == u, "vector-unsigned"); c.ok(JsonList(q).as<unsigned long long>() == q, "vector-ull"); c.ok(JsonList(b).as<bool>() == b, "vector-bool"); c.ok(JsonList(s).as<std::string>() == s, "vector-string");
            c.ok(JsonDict(md).as<double>() == md, "map-double"); c.ok(JsonDict(mi).as<int>() == mi, "map-int"); c.ok(JsonDict(mb).as<bool>() == mb, "map-bool"); c.ok(JsonDict(ms).as<std::string>() == ms, "map-string"); c.ok(JsonDict(mu).as<unsigned long>() == mu, "map-ulong");
            JsonItem w(JsonList{d}); std::vector<double> out; w.as_vec(out); c.ok(out == d, "as-vec-ref"); c.ok(w.as_vec<double>() == d, "as-vec");
            JsonItem wm(JsonDict{md}); std::map<std::string, double> mout; wm.as_map(mout); c.ok(mout == md, "as-map-ref");
            JsonList copy{d}; for (auto& x: d) (void) x; if (n) { copy[0] = JsonItem("z"); c.ok(JsonList(d).as<double>() == d, "list-independent"); }
            // Leaf values overwritten in place.
            JsonLeaf leaf(1); long lv = long(c.rng.next()); leaf.value(lv); c.ok(leaf.as<long>() == lv && leaf.type() == TypeChecker::Type::INT, "leaf-set-long");
            bool bv = c.rng.chance(.5); leaf.value(bv); c.ok(leaf.as<bool>() == bv && leaf.type() == TypeChecker::Type::BOOL, "leaf-set-bool");
            double dv = c.rng.uni(-1, 1) * 1e-9; leaf.value(dv); c.ok(leaf.as<double>() == dv && leaf.type() == TypeChecker::Type::FLOAT, "leaf-set-double");
            c.nontrivial(H::hash_vec(d)); c.tag("typed"); } },
    });
}
