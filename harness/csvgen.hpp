// Generated CSV texts with their reference reading.
#ifndef VERIF_CSVGEN_HPP
#define VERIF_CSVGEN_HPP
#include "h.hpp"

namespace G {

struct Csv
{
    char sep = ',';
    std::vector<std::string> lines;                 ///< line 0 is the header
    std::vector<std::vector<std::string>> fields;   ///< every line split at the separator
    bool final_newline = true;
    std::size_t cols = 0;
    std::string text() const
    {
        std::string s;
        for (std::size_t i = 0; i < lines.size(); ++i)
        { s += lines[i]; if (i + 1 < lines.size() || final_newline) s += '\n'; }
        return s;
    }
    std::size_t rows() const { return lines.size(); }
};

inline std::vector<std::string> split(const std::string& s, char sep)
{
    std::vector<std::string> r(1);
    for (char c: s) if (c == sep) r.emplace_back(); else r.back() += c;
    return r;
}

/// A number in one of the forms users write; magnitude kept moderate.
inline std::string number(H::Rng& r)
{
    switch (r.below(7))
    {
        case 0: return std::to_string(r.range(-9, 9));
        case 1: return std::to_string(r.range(-99999, 99999));
        case 2: return std::to_string(r.range(0, 255));
        case 3: { std::ostringstream o; o.precision(int(r.range(1, 17))); o << r.uni(-1000, 1000); return o.str(); }
        case 4: { std::ostringstream o; o.precision(int(r.range(1, 12))); o << std::scientific << r.uni(-1, 1) * std::pow(10., double(r.range(-30, 30))); return o.str(); }
        case 5: { std::ostringstream o; o << (r.chance(.3) ? "+" : "") << "." << r.range(0, 99999); return o.str(); }
        default: { std::ostringstream o; o << std::fixed; o.precision(int(r.range(1, 4))); o << r.uni(-5, 5); return o.str(); }
    }
}
/// A text that holds no number (first character is no digit, sign or point).
inline std::string word(H::Rng& r, char sep)
{
    static const std::vector<std::string> w = { "true", "false", "\"quoted text\"", "\"\"", "NA", "x", "nan",
        "setosa", "Iris versicolor", "null", "\"1\"", "e5", "\xc3\xa9t\xc3\xa9", "a'b", "inf", "#", "%d%s", "\\n", "None" };
    std::string s = r.pick(w);
    if (r.chance(.2)) s += char('a' + r.below(26));
    std::string o; for (char c: s) if (c != sep) o += c;
    return o;
}
/// Arbitrary text.
inline std::string anytext(H::Rng& r, char sep)
{
    std::string s;
    for (auto n = r.below(14); n; --n)
    {
        char c = r.chance(.9) ? char(r.range(32, 126)) : char(r.range(0, 255));
        if (c != sep && c != '\n') s += c;
    }
    return s;
}

enum Kind { ANY, NUMERIC, MIXED };

inline std::string field(H::Rng& r, Kind k, char sep)
{
    if (k == NUMERIC) return number(r);
    if (k == MIXED) { auto u = r.uni(); return u < .65 ? number(r) : u < .8 ? std::string() : word(r, sep); }
    auto u = r.uni();
    return u < .3 ? number(r) : u < .45 ? std::string() : u < .6 ? word(r, sep) : anytext(r, sep);
}

inline Csv csv(H::Rng& r, Kind k, std::size_t max_rows, std::size_t max_cols, double irregular, std::size_t long_rows = 0)
{
    Csv c;
    c.sep = r.chance(.4) ? ',' : r.pick({ ';', '\t', '|', ' ', ':' });
    c.cols = r.chance(.5) ? r.size(1, std::min<std::size_t>(6, max_cols)) : r.size(1, max_cols);
    std::size_t rows = r.chance(.1) ? r.size(1, 2) : r.chance(.7) ? r.size(2, std::min<std::size_t>(20, max_rows)) : r.size(2, max_rows);
    c.final_newline = r.chance(.6);
    bool odd = r.chance(irregular);
    for (std::size_t i = 0; i < rows; ++i)
    {
        std::size_t n = c.cols;
        if (odd && i && r.chance(.3)) n = r.chance(.7) ? r.size(1, c.cols) : c.cols + r.size(1, 3);
        std::string l;
        for (std::size_t j = 0; j < n; ++j)
        {
            if (j) l += c.sep;
            if (long_rows && r.chance(1.5 / double(rows * c.cols)))
            {
                // A field whose row is about as long as a usual buffer, or longer.
                auto want = r.chance(.7) ? (std::size_t(64) << r.below(12)) + r.below(9) - 4 : r.size(1, long_rows);
                want = std::min(want, long_rows);
                if (want > l.size()) l += std::string(want - l.size(), char('a' + r.below(26)));
                continue;
            }
            l += i == 0 ? (r.chance(.8) ? "c" + std::to_string(j) : field(r, k == ANY ? ANY : MIXED, c.sep)) : field(r, k, c.sep);
        }
        c.lines.push_back(l);
    }
    // A last line without text and without newline is no line.
    if (c.lines.back().empty()) c.final_newline = true;
    for (auto& l: c.lines) c.fields.push_back(split(l, c.sep));
    return c;
}

/// The numeric reading of a generated number / word / empty field.
inline double num(const std::string& s)
{
    std::size_t i = 0;
    if (i < s.size() && (s[i] == '+' || s[i] == '-')) ++i;
    if (i < s.size() && s[i] == '.') ++i;
    if (i >= s.size() || s[i] < '0' || s[i] > '9') return 0;
    return std::strtod(s.c_str(), nullptr);
}
inline bool boolean(const std::string& s) { return s == "true" || s == "1"; }
inline const std::string& at(const Csv& c, std::size_t row, std::size_t col)
{ static const std::string none; return col < c.fields[row].size() ? c.fields[row][col] : none; }

/// Reference classification, as C01 decides it.
inline int type_of(const std::string& s)
{
    auto dig = [](char ch) { return ch >= '0' && ch <= '9'; };
    if (s.empty()) return -1;
    if (s == "true" || s == "false") return 3;
    std::size_t i = 0, b;
    if (s[i] == '+' || s[i] == '-') ++i;
    b = i; while (i < s.size() && dig(s[i])) ++i;
    if (i == s.size() && i > b && (s[b] != '0' || i == b + 1)) return 2;
    std::size_t n = i - b;
    if (i < s.size() && s[i] == '.') { b = ++i; while (i < s.size() && dig(s[i])) ++i; n = i - b; }
    if (!n) return 4;
    if (i == s.size()) return 1;
    if (s[i] != 'e' && s[i] != 'E') return 4;
    ++i; if (i < s.size() && (s[i] == '+' || s[i] == '-')) ++i;
    b = i; while (i < s.size() && dig(s[i])) ++i;
    return i > b && i == s.size() ? 1 : 4;
}

} // namespace G
#endif
