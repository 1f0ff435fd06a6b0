// Shadow documents for JSON: a plain value tree, generators, an independent
// writer (with optional whitespace) and an independent reader.
#ifndef VERIF_JSONGEN_HPP
#define VERIF_JSONGEN_HPP
#include "h.hpp"
#include "parser/json.hpp"

namespace J {
using namespace EdgeLearning;

struct Node
{
    enum Kind { NONE, LEAF, LIST, DICT } kind = NONE;
    std::string text;               ///< of a leaf
    bool quoted = false;            ///< leaf written between quotes
    std::vector<Node> list;
    std::map<std::string, Node> dict;
    std::size_t size() const { return kind == LIST ? list.size() : kind == DICT ? dict.size() : 0; }
};
inline bool same(const Node& a, const Node& b)
{
    if (a.kind != b.kind || a.text != b.text || a.list.size() != b.list.size() || a.dict.size() != b.dict.size()) return false;
    for (std::size_t i = 0; i < a.list.size(); ++i) if (!same(a.list[i], b.list[i])) return false;
    auto y = b.dict.begin();
    for (auto x = a.dict.begin(); x != a.dict.end(); ++x, ++y) if (x->first != y->first || !same(x->second, y->second)) return false;
    return true;
}
inline std::size_t weight(const Node& n)
{
    std::size_t w = 1;
    for (auto& x: n.list) w += weight(x);
    for (auto& x: n.dict) w += weight(x.second);
    return w;
}
inline bool has_none(const Node& n)
{
    if (n.kind == Node::NONE) return true;
    for (auto& x: n.list) if (has_none(x)) return true;
    for (auto& x: n.dict) if (has_none(x.second)) return true;
    return false;
}
/// Text of a tree; ws inserts whitespace between tokens.
inline std::string write(const Node& n, H::Rng* ws = nullptr)
{
    auto w = [&] { std::string s; if (ws) for (auto k = ws->below(3); k; --k) s += " \t\n\r"[ws->below(4)]; return s; };
    std::string o = w();
    switch (n.kind)
    {
        case Node::NONE: break;
        case Node::LEAF: o += n.quoted ? '"' + n.text + '"' : n.text; break;
        case Node::LIST:
            o += '[';
            for (std::size_t i = 0; i < n.list.size(); ++i) o += (i ? "," : "") + write(n.list[i], ws);
            if (n.list.empty()) o += w();
            o += ']'; break;
        case Node::DICT:
        {
            o += '{'; bool first = true;
            for (auto& e: n.dict) { o += std::string(first ? "" : ",") + w() + '"' + e.first + '"' + w() + ':' + write(e.second, ws); first = false; }
            if (n.dict.empty()) o += w();
            o += '}';
        }
    }
    return o + w();
}
/// Independent reader of the written form; false if the text is not one document.
struct Reader
{
    const std::string& s; std::size_t i = 0; bool good = true;
    explicit Reader(const std::string& t) : s(t) {}
    void ws() { while (i < s.size() && std::strchr(" \t\n\r", s[i])) ++i; }
    bool eat(char c) { ws(); if (i < s.size() && s[i] == c) { ++i; return true; } return false; }
    std::string quoted()
    {
        std::string r;
        if (!eat('"')) { good = false; return r; }
        while (i < s.size() && s[i] != '"') r += s[i++];
        if (i++ >= s.size()) good = false;
        return r;
    }
    Node value()
    {
        Node n; ws();
        if (i >= s.size() || !good) { good = false; return n; }
        if (s[i] == '[')
        {
            n.kind = Node::LIST; ++i;
            if (eat(']')) return n;
            do { n.list.push_back(value()); } while (good && eat(','));
            if (!eat(']')) good = false;
        }
        else if (s[i] == '{')
        {
            n.kind = Node::DICT; ++i;
            if (eat('}')) return n;
            do { auto k = quoted(); if (!eat(':')) good = false; if (n.dict.count(k)) good = false; n.dict[k] = value(); } while (good && eat(','));
            if (!eat('}')) good = false;
        }
        else if (s[i] == '"') { n.kind = Node::LEAF; n.quoted = true; n.text = quoted(); }
        else
        {
            n.kind = Node::LEAF;
            while (i < s.size() && !std::strchr(",]}: \t\n\r", s[i])) n.text += s[i++];
            if (n.text.empty()) good = false;
        }
        return n;
    }
    bool document(Node& n) { n = value(); ws(); return good && i == s.size(); }
};

inline std::string show(const std::string& s) { return s.size() > 700 ? s.substr(0, 700) + "..." : s; }

/// Compares the library's tree with the shadow; types too when asked.
inline void compare(H::Case& c, const Node& n, const JsonItem& ji, const char* key, const std::string& where = "")
{
    auto bad = [&](const std::string& m) { c.fail(key, where + ": " + m); };
    using JT = JsonObject::JsonType;
    static const JT jt[] = { JT::NONE, JT::LEAF, JT::LIST, JT::DICT };
    ++H::result().checks;
    if (ji.json_type() != jt[n.kind]) { bad(H::str("kind ", int(ji.json_type()), " instead of ", int(jt[n.kind]))); return; }
    if (ji.size() != n.size()) { bad(H::str("size ", ji.size(), " instead of ", n.size())); return; }
    switch (n.kind)
    {
        case Node::NONE: break;
        case Node::LEAF:
        {
            auto leaf = dynamic_cast<const JsonLeaf*>(&ji.value());
            if (!leaf) { bad("no leaf inside"); return; }
            if (leaf->value() != n.text) bad("text '" + show(leaf->value()) + "' instead of '" + show(n.text) + "'");
            if (std::string(ji) != n.text) bad("string conversion");
            if ((leaf->type() == TypeChecker::Type::STRING || n.text.empty()) != n.quoted) bad(H::str("leaf type ", int(leaf->type()), " of '", show(n.text), "'"));
            break;
        }
        case Node::LIST:
            for (std::size_t i = 0; i < n.list.size(); ++i) compare(c, n.list[i], ji.at(i), key, where + "[" + std::to_string(i) + "]");
            break;
        case Node::DICT:
        {
            auto d = dynamic_cast<const JsonDict*>(&ji.value());
            if (!d) { bad("no dictionary inside"); return; }
            auto& m = d->value();
            auto it = m.begin();
            for (auto& e: n.dict)
            {
                if (it == m.end() || it->first != e.first) { bad("keys differ at '" + e.first + "'"); return; }
                compare(c, e.second, it->second, key, where + "." + e.first); ++it;
            }
        }
    }
}

inline std::string text(H::Rng& r, bool structural = true)
{
    static const std::string plain = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_-+./'!?#%&()=<>@^~|$;*`";
    static const std::string st = "[]{}:, ";
    std::string s;
    for (auto n = r.chance(.001) ? r.size(1000, 20000) : r.chance(.05) ? r.below(200) : r.below(12); n; --n)
        s += structural && r.chance(.25) ? st[r.below(st.size())] : r.chance(.03) ? "\\\t\xc3\n\r\x7f\xff\x01"[r.below(8)] : plain[r.below(plain.size())];
    return s;
}
/// Leaf with the item that builds it.
inline std::pair<Node, JsonItem> leaf(H::Rng& r)
{
    Node n; n.kind = Node::LEAF;
    auto text_leaf = [&](const std::string& s, bool quoted) { n.text = s; n.quoted = quoted; };
    switch (r.below(12))
    {
        case 0: { int v = int(r.next()) >> r.below(31); text_leaf(std::to_string(v), false); return {n, JsonItem(v)}; }
        case 1: { long v = long(r.next()) >> r.below(63); text_leaf(std::to_string(v), false); return {n, JsonItem(v)}; }
        case 2: { unsigned long v = r.next() >> r.below(63); text_leaf(std::to_string(v), false); return {n, JsonItem(v)}; }
        case 3: { unsigned v = unsigned(r.next()); text_leaf(std::to_string(v), false); return {n, JsonItem(v)}; }
        case 4: { long long v = r.chance(.2) ? (r.chance(.5) ? std::numeric_limits<long long>::min() : std::numeric_limits<long long>::max()) : (long long)(r.next()); text_leaf(std::to_string(v), false); return {n, JsonItem(v)}; }
        case 5: { bool v = r.chance(.5); text_leaf(v ? "true" : "false", false); return {n, JsonItem(v)}; }
        case 6: case 7:
        {
            std::string s = text(r);
            // A text that reads as a number or boolean would become that.
            while (!s.empty() && (std::isdigit((unsigned char) s[0]) || std::strchr("+-.", s[0]))) s.erase(0, 1);
            if (s == "true" || s == "false") s += "_";
            text_leaf(s, true);
            return {n, r.chance(.5) ? JsonItem(s) : JsonItem(JsonLeaf(s))};
        }
        case 8: { std::string s = r.chance(.5) ? std::to_string(r.range(-50, 50)) : text(r); text_leaf(s, true); return {n, JsonItem(JsonLeaf(s, TypeChecker::Type::STRING))}; }
        case 9: { text_leaf("", true); return {n, JsonItem("")}; }
        default:
        {
            double v;
            switch (r.below(4))
            {
                case 0: v = r.uni(-1000, 1000); break;
                case 1: v = double(r.range(-1000000, 1000000)); break;
                case 2: v = r.uni(-1, 1) * std::pow(10., double(r.range(-300, 300))); break;
                default: do { auto b = r.next(); std::memcpy(&v, &b, 8); } while (!std::isfinite(v));
            }
            JsonItem ji(v);
            text_leaf(std::string(ji), false);   // its value is compared separately
            return {n, ji};
        }
    }
}
inline std::string key(H::Rng& r)
{ return r.chance(.7) ? std::string(1, char('a' + r.below(6))) : text(r); }

inline std::pair<Node, JsonItem> tree(H::Rng& r, int depth, std::size_t breadth = 5)
{
    if (depth == 0 || r.chance(.3)) return leaf(r);
    Node n;
    if (r.chance(.5))
    {
        n.kind = Node::LIST; JsonList l;
        for (auto k = r.below(breadth); k; --k) { auto p = tree(r, depth - 1, breadth); n.list.push_back(p.first); l.append(p.second); }
        return {n, JsonItem(l)};
    }
    n.kind = Node::DICT; JsonDict d;
    for (auto k = r.below(breadth); k; --k) { auto p = tree(r, depth - 1, breadth); auto ky = key(r); n.dict[ky] = p.first; d[ky] = p.second; }
    return {n, JsonItem(d)};
}
/// A list or object with many elements.
inline std::pair<Node, JsonItem> large(H::Rng& r, std::size_t from, std::size_t to)
{
    Node n;
    if (r.chance(.5))
    {
        n.kind = Node::LIST; JsonList l;
        for (auto k = r.size(from, to); k; --k) { auto p = tree(r, int(r.below(2)), 3); n.list.push_back(p.first); l.append(p.second); }
        return {n, JsonItem(l)};
    }
    n.kind = Node::DICT; JsonDict d;
    for (auto k = r.size(from, to); k; --k) { auto p = tree(r, int(r.below(2)), 3); auto ky = key(r) + std::to_string(k); n.dict[ky] = p.first; d[ky] = p.second; }
    return {n, JsonItem(d)};
}
inline H::u64 hash(const Node& n) { return H::hash_str(write(n)); }

} // namespace J
#endif
