// C01: field classification and conversion against a hand-written grammar.
#include "h.hpp"
#include "parser/type_checker.hpp"
using namespace EdgeLearning;
using T = TypeChecker::Type;

namespace {

bool dig(char c) { return c >= '0' && c <= '9'; }

bool is_int(const std::string& s)
{
    std::size_t i = 0;
    if (i < s.size() && (s[i] == '+' || s[i] == '-')) ++i;
    if (i >= s.size()) return false;
    if (s[i] == '0') return i + 1 == s.size();
    for (; i < s.size(); ++i) if (!dig(s[i])) return false;
    return true;
}
bool exp_part(const std::string& s, std::size_t i)
{
    if (i == s.size()) return true;
    if (s[i] != 'e' && s[i] != 'E') return false;
    ++i;
    if (i < s.size() && (s[i] == '+' || s[i] == '-')) ++i;
    if (i >= s.size()) return false;
    for (; i < s.size(); ++i) if (!dig(s[i])) return false;
    return true;
}
/// digits* [.] digits+ [exp]
bool is_float(const std::string& s)
{
    std::size_t i = 0;
    if (i < s.size() && (s[i] == '+' || s[i] == '-')) ++i;
    std::size_t a = i;
    while (i < s.size() && dig(s[i])) ++i;
    std::size_t before = i - a, after = 0;
    bool point = i < s.size() && s[i] == '.';
    if (point) { ++i; a = i; while (i < s.size() && dig(s[i])) ++i; after = i - a; }
    if (point ? after == 0 : before == 0) return false;
    return exp_part(s, i);
}
T classify(const std::string& s)
{
    if (s.empty()) return T::NONE;
    if (s == "true" || s == "false") return T::BOOL;
    if (is_int(s)) return T::INT;
    if (is_float(s)) return T::FLOAT;
    return T::STRING;
}
/// What extraction of a double accepts: also "5." and leading zeros.
bool reads_float(const std::string& s)
{
    std::size_t i = 0;
    if (i < s.size() && (s[i] == '+' || s[i] == '-')) ++i;
    std::size_t n = 0;
    while (i < s.size() && dig(s[i])) { ++i; ++n; }
    if (i < s.size() && s[i] == '.') { ++i; while (i < s.size() && dig(s[i])) { ++i; ++n; } }
    return n && exp_part(s, i);
}
bool reads_int(const std::string& s)
{
    std::size_t i = 0;
    if (i < s.size() && (s[i] == '+' || s[i] == '-')) ++i;
    if (i >= s.size()) return false;
    for (; i < s.size(); ++i) if (!dig(s[i])) return false;
    return true;
}
template<class I> bool fits(const std::string& s, I& out)
{
    errno = 0;
    long long v = std::strtoll(s.c_str(), nullptr, 10);
    if (errno == ERANGE || v < std::numeric_limits<I>::min() || v > std::numeric_limits<I>::max()) return false;
    out = I(v); return true;
}

std::string digits(H::Rng& r, std::size_t n, bool lead0)
{
    std::string s;
    for (std::size_t i = 0; i < n; ++i) s += char('0' + (i == 0 && !lead0 ? r.range(1, 9) : r.range(0, 9)));
    return s;
}
std::string gen(H::Rng& r)
{
    static const std::vector<std::string> frag = {
        "true", "false", "True", "TRUE", "0", "1", "-", "+", ".", "e", "E", "\"", "\"\"", "abc",
        "00", "10", "-0", "+0", "1e", "e5", "1.5", ".5", "5.", "nan", "inf", "0x1F", ",", " ", "\n",
        "\t", "1e10", "-7", "\r", "\\", "'", "1,000", "é", "null", "None", "--", "++", "1.2.3", "1e5.2" };
    std::string s;
    switch (r.below(11))
    {
        case 0: return r.pick(frag);
        case 1: { auto n = r.below(4); for (u_long i = 0; i <= n; ++i) s += r.pick(frag); return s; }
        case 2: // integer
            if (r.chance(.4)) s += r.pick({'+', '-'});
            s += digits(r, r.chance(.15) ? r.size(12, 40) : r.size(1, 11), r.chance(.15)); return s;
        case 3: // decimal
            if (r.chance(.4)) s += r.pick({'+', '-'});
            s += digits(r, r.size(0, 9), r.chance(.3));
            if (r.chance(.8)) s += '.';
            s += digits(r, r.size(0, 12), true);
            if (r.chance(.5)) { s += r.pick({'e', 'E'}); if (r.chance(.5)) s += r.pick({'+', '-'}); s += digits(r, r.size(0, 3), true); }
            return s;
        case 4: // quoted
            s = "\""; for (auto i = r.below(20); i; --i) s += char(r.range(32, 126)); s += "\""; return s;
        case 5: // random bytes
            for (auto i = r.below(12); i; --i) s += char(r.range(0, 255)); return s;
        case 6: // numeric alphabet
            for (auto i = r.below(9) + 1; i; --i) s += "+-0123456789.eE"[r.below(15)]; return s;
        case 7: // one mutation of a valid number
        {
            s = r.chance(.5) ? std::to_string(long(r.next()) >> r.below(62)) : H::str(r.uni(-1e6, 1e6));
            auto p = r.below(s.size() + 1); char c = "+-0123456789.eE \"xtf"[r.below(20)];
            switch (r.below(3)) { case 0: s.insert(p, 1, c); break; case 1: if (p < s.size()) s[p] = c; break; default: if (p < s.size()) s.erase(p, 1); }
            return s;
        }
        case 8: // boundary integers
        {
            static const std::vector<std::string> b = { "2147483647", "2147483648", "-2147483648", "-2147483649",
                "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809",
                "3.4028234e38", "3.5e38", "1.7976931348623157e308", "1.8e308", "1e400", "-1e400", "1e-400", "32767", "32768", "-32769" };
            return r.pick(b);
        }
        case 9: // numbers of many digits, alone or with something behind them
            if (r.chance(.3)) s += r.pick({'+', '-'});
            s += digits(r, r.size(1, 60), false); if (r.chance(.7)) s += '.' + digits(r, r.size(1, 220), true); if (r.chance(.3)) s += "e" + std::to_string(r.range(-250, 20));
            if (r.chance(.5)) s += r.pick({'x', ' ', '.', 'e', '-', '"', ',', '\n'});
            return s;
        default: // prefix/suffix around keywords
            s = r.pick(frag); s = (r.chance(.5) ? std::string(1, char(r.range(33, 126))) : "") + s + (r.chance(.5) ? std::string(1, char(r.range(33, 126))) : "");
            return s;
    }
}
std::string show(const std::string& s)
{
    std::string o = "'";
    for (unsigned char ch: s.substr(0, 120))
    { if (ch >= 32 && ch < 127) o += char(ch); else { char b[8]; std::snprintf(b, 8, "\\x%02x", ch); o += b; } }
    return o + "'(" + std::to_string(s.size()) + ")";
}

void one_type(H::Case& c, const std::string& s)
{
    TypeChecker tc;
    auto want = classify(s);
    auto got = TypeChecker::parse(s);
    c.ok(got == want, "classification", [&] { return H::str(show(s), " classified ", int(got), " instead of ", int(want)); });
    c.ok(tc(s) == got, "classification-call-form", [&] { return show(s); });
    c.ok(TypeChecker::is_int(s) == (want == T::INT) && TypeChecker::is_float(s) == (want == T::FLOAT)
         && TypeChecker::is_bool(s) == (want == T::BOOL) && TypeChecker::is_string(s) == (want == T::STRING),
         "is_predicates", [&] { return show(s); });
    c.tag("type:" + std::to_string(int(want)));
    if (want != T::NONE) c.nontrivial(H::hash_str(s));
}

template<class I> void int_conv(H::Case& c, const std::string& s, const char* key)
{
    TypeChecker tc; I got = 42, want = 0; bool g = tc(s, got);
    bool w = reads_int(s) && fits<I>(s, want);
    c.ok(g == w && (!w || got == want), key, [&] { return H::str(show(s), " ok=", g, " value=", got, " expected ok=", w, " value=", want); });
    if (w) c.tag("int-converted"); else c.tag("int-rejected");
}

void one_conv(H::Case& c, const std::string& s)
{
    TypeChecker tc;
    std::string str; bool ok = tc(s, str);
    c.ok(ok && str == s, "text-identity", [&] { return show(s); });
    bool b = s.size() % 2; ok = tc(s, b);
    c.ok(ok && b == (s == "true" || s == "1"), "bool-conversion", [&] { return show(s); });
    // Extraction skips leading blanks; a text with them is outside the statement's grammar.
    if (!s.empty() && std::isspace((unsigned char) s[0])) return;
    int_conv<int>(c, s, "int-conversion");
    int_conv<long>(c, s, "long-conversion");
    int_conv<short>(c, s, "short-conversion");
    double d = -1; bool g = tc(s, d);
    bool w = reads_float(s); double want = w ? std::strtod(s.c_str(), nullptr) : 0;
    if (std::isinf(want)) w = false;
    c.ok(g == w && (!w || H::same(d, want)), "double-conversion", [&] { return H::str(show(s), " ok=", g, " value=", d, " expected ok=", w, " value=", want); });
    float f = -1; g = tc(s, f); w = reads_float(s); float fw = w ? std::strtof(s.c_str(), nullptr) : 0;
    if (std::isinf(fw)) w = false;
    c.ok(g == w && (!w || f == fw), "float-conversion", [&] { return H::str(show(s), " ok=", g, " value=", f, " expected ok=", w, " value=", fw); });
    if (w) c.tag("float-converted");
}

} // namespace

int main(int argc, char** argv)
{
    return H::run(argc, argv, {
        { "fields", 60000, 1500000, [](H::Case& c) {
            for (int i = 0; i < 8; ++i) { auto s = gen(c.rng); one_type(c, s); one_conv(c, s); if (i == 0) c.sample(show(s)); } } },
        { "exhaustive-short", 15, 15, [](H::Case& c) {
            // All strings of length <= 4 over the numeric alphabet, by first letter.
            static const std::string al = "+-.0159eE\"tx ,a";
            std::string s(1, al[c.id % al.size()]);
            one_type(c, s); one_conv(c, s);
            for (char a: al) { auto s2 = s + a; one_type(c, s2); one_conv(c, s2);
                for (char b: al) { auto s3 = s2 + b; one_type(c, s3); one_conv(c, s3);
                    for (char d: al) { auto s4 = s3 + d; one_type(c, s4); if (c.rng.chance(.1)) one_conv(c, s4); } } } } },
        { "long-fields", 60, 600, [](H::Case& c) {
            auto n = c.rng.size(300, 6000);
            std::string s;
            switch (c.rng.below(5))
            {
                case 0: s = "\"" + std::string(n, 'q') + "\""; break;
                case 1: s = digits(c.rng, n, false); break;
                case 2: s = digits(c.rng, n / 2, false) + "." + digits(c.rng, n / 2, true) + "e5"; break;
                case 3: s = std::string(n, 'z'); break;
                default: s = digits(c.rng, n, false) + "x";
            }
            one_type(c, s); one_conv(c, s); } },
        { "lists", 200, 4000, [](H::Case& c) {
            std::vector<std::string> v(c.rng.chance(.1) ? c.rng.size(100, 5000) : c.rng.below(40));
            for (auto& s: v) s = gen(c.rng);
            if (v.size() > 100) c.tag("long-list");
            TypeChecker tc; auto t = TypeChecker::parse(v); auto t2 = tc(v);
            c.ok(t.size() == v.size() && t2 == t, "list-size");
            for (std::size_t i = 0; i < v.size() && i < t.size(); ++i)
                c.ok(t[i] == classify(v[i]), "list-classification", [&] { return show(v[i]); });
            c.nontrivial(H::comb(v.size(), v.empty() ? 0 : H::hash_str(v[0]))); } },
        { "type-lists", 4000, 40000, [](H::Case& c) {
            // Equality and printing of types and lists of types.
            static const std::vector<std::pair<T, std::string>> all = { { T::NONE, "NONE(-1)" }, { T::AUTO, "AUTO(0)" },
                { T::FLOAT, "FLOAT(1)" }, { T::INT, "INT(2)" }, { T::BOOL, "BOOL(3)" }, { T::STRING, "STRING(4)" }, { T::OBJECT, "OBJECT(5)" } };
            std::vector<T> a, b; std::string text = "{";
            for (auto k = c.rng.below(7); k; --k)
            {
                auto& p = c.rng.pick(all); a.push_back(p.first); text += p.second + ",";
                std::ostringstream o; o << p.first; c.ok(o.str() == p.second, "type-text", [&] { return o.str() + " instead of " + p.second; });
            }
            b = a;
            if (c.rng.chance(.7)) switch (c.rng.below(3))
            {
                case 0: b.push_back(c.rng.pick(all).first); break;
                case 1: if (!b.empty()) b.pop_back(); break;
                default: if (!b.empty()) b[c.rng.below(b.size())] = c.rng.pick(all).first;
            }
            bool same = a.size() == b.size(); for (std::size_t i = 0; same && i < a.size(); ++i) same = int(a[i]) == int(b[i]);
            c.ok(EdgeLearning::operator==(a, b) == same && EdgeLearning::operator!=(a, b) == !same && EdgeLearning::operator==(b, a) == same, "type-list-equality", [&] { return text; });
            std::ostringstream o; EdgeLearning::operator<<(o, a);
            c.ok(o.str() == text + "}", "type-list-text", [&] { return o.str() + " instead of " + text + "}"; });
            c.tag(same ? "equal-types" : "different-types");
            c.nontrivial(H::comb(H::hash_str(text), b.size())); } },
        { "value-text-roundtrip", 20000, 600000, [](H::Case& c) {
            TypeChecker tc;
            long l = long(c.rng.next()) >> c.rng.below(63); long l2 = 0;
            c.ok(tc(tc(l), l2) && l == l2, "long-roundtrip", [&] { return H::str(l); });
            int i = int(c.rng.next()) >> c.rng.below(31), i2 = 0;
            c.ok(tc(tc(i), i2) && i == i2, "int-roundtrip", [&] { return H::str(i); });
            unsigned long u = c.rng.next() >> c.rng.below(63), u2 = 0;
            c.ok(tc(tc(u), u2) && u == u2, "ulong-roundtrip", [&] { return H::str(u); });
            bool b = c.rng.chance(.5), b2 = !b;
            c.ok(tc(tc(b), b2) && b == b2, "bool-roundtrip");
            c.ok(tc(b) == (b ? "true" : "false") && TypeChecker::parse(tc(b)) == T::BOOL, "bool-text");
            c.ok(TypeChecker::parse(tc(l)) == T::INT, "integer-text-type", [&] { return tc(l); });
            double d = c.rng.uni(-1, 1) * std::pow(10., double(c.rng.range(-12, 12))), d2 = 0;
            c.ok(tc(tc(d), d2) && d == d2, "double-roundtrip", [&] { return H::str(d, " -> ", tc(d), " -> ", d2); });
            c.nontrivial(H::hash_bytes(&l, sizeof l)); } },
    });
}
