// Shadow of a Dataset: its rows, grouping and label columns, by definition.
#ifndef VERIF_TABLE_HPP
#define VERIF_TABLE_HPP
#include "h.hpp"
#include "data/dataset.hpp"

namespace T {
using EdgeLearning::Dataset;
using Set = std::set<std::size_t>;

template<class V> struct Shadow
{
    std::vector<std::vector<V>> rows;
    std::size_t fs = 0, seq = 0;
    Set labels;

    void group(std::size_t s)
    {
        seq = std::min(s, rows.size());
        rows.resize(seq ? rows.size() / seq * seq : 0);
    }
    void label(const Set& l) { labels.clear(); for (auto x: l) if (x < fs) labels.insert(x); }
    std::size_t sequences() const { return seq ? rows.size() / seq : 0; }
    std::vector<V> flat() const { std::vector<V> r; for (auto& x: rows) r.insert(r.end(), x.begin(), x.end()); return r; }
    std::vector<V> part(std::size_t i, bool lab) const
    {
        std::vector<V> r;
        for (std::size_t j = 0; j < fs; ++j) if (labels.count(j) == std::size_t(lab)) r.push_back(rows[i][j]);
        return r;
    }
    std::vector<V> seq_part(std::size_t s, int what) const
    {
        std::vector<V> r;
        for (std::size_t i = s * seq; i < (s + 1) * seq; ++i)
        { auto x = what == 2 ? rows[i] : part(i, what == 1); r.insert(r.end(), x.begin(), x.end()); }
        return r;
    }
    std::vector<V> all_part(bool lab) const
    { std::vector<V> r; for (std::size_t i = 0; i < rows.size(); ++i) { auto x = part(i, lab); r.insert(r.end(), x.begin(), x.end()); } return r; }
};

template<class V> std::string vs(const std::vector<V>& v) { return H::vstr(std::vector<double>(v.begin(), v.end())); }
inline std::vector<std::size_t> list(const Set& s) { return { s.begin(), s.end() }; }

/// Everything a dataset shows, against the shadow. Empty reports equal emptiness.
template<class V> bool agree(H::Case& c, const Dataset<V>& d, const Shadow<V>& w, const std::string& k, bool deep = true)
{
    auto K = [&](const char* x) { static std::string s; s = k + "-" + x; return s.c_str(); };
    bool ok = true;
    auto n = w.rows.size();
    ok &= c.ok(d.size() == n, K("rows"), [&] { return H::str(d.size(), " instead of ", n); });
    ok &= c.ok(d.data() == w.flat(), K("data"), [&] { return vs(d.data()) + " instead of " + vs(w.flat()); });
    ok &= c.ok(d.empty() == (n * w.fs == 0), K("empty"));
    if (n)
    {
        ok &= c.ok(d.feature_size() == w.fs, K("feature-size"), [&] { return H::str(d.feature_size(), " instead of ", w.fs); });
        ok &= c.ok(d.sequence_size() == w.seq, K("sequence-size"), [&] { return H::str(d.sequence_size(), " instead of ", w.seq); });
        ok &= c.ok(d.label_idx() == list(w.labels), K("label-columns"));
        Set in; for (std::size_t j = 0; j < w.fs; ++j) if (!w.labels.count(j)) in.insert(j);
        ok &= c.ok(d.input_idx() == list(in), K("input-columns"));
    }
    if (!ok || !deep) return ok;
    auto far = std::vector<std::size_t>{ n, n + 1, n + c.rng.size(2, 50), std::size_t(-1) };
    for (std::size_t i = 0; i < n; ++i)
    {
        if (n > 12 && i > 2 && i + 2 < n && !c.rng.chance(.2)) continue;
        ok &= c.ok(d.entry(i) == w.rows[i], K("entry"), [&] { return H::str("row ", i, " ", vs(d.entry(i)), " instead of ", vs(w.rows[i])); });
        ok &= c.ok(d.input(i) == w.part(i, false), K("input"), [&] { return H::str("row ", i, " ", vs(d.input(i)), " instead of ", vs(w.part(i, false))); });
        ok &= c.ok(d.label(i) == w.part(i, true), K("label"), [&] { return H::str("row ", i, " ", vs(d.label(i)), " instead of ", vs(w.part(i, true))); });
    }
    for (auto i: far) ok &= c.ok(d.entry(i).empty() && d.input(i).empty() && d.label(i).empty(), K("outside-row"), [&] { return H::str("row ", i, " of ", n); });
    auto m = w.sequences();
    for (std::size_t s = 0; s < m; ++s)
    {
        if (m > 8 && s > 1 && s + 2 < m && !c.rng.chance(.2)) continue;
        ok &= c.ok(d.entry_seq(s) == w.seq_part(s, 2), K("entry-sequence"), [&] { return H::str("sequence ", s, " ", vs(d.entry_seq(s)), " instead of ", vs(w.seq_part(s, 2))); });
        ok &= c.ok(d.inputs_seq(s) == w.seq_part(s, 0), K("input-sequence"), [&] { return H::str("sequence ", s, " ", vs(d.inputs_seq(s)), " instead of ", vs(w.seq_part(s, 0))); });
        ok &= c.ok(d.labels_seq(s) == w.seq_part(s, 1), K("label-sequence"), [&] { return H::str("sequence ", s, " ", vs(d.labels_seq(s)), " instead of ", vs(w.seq_part(s, 1))); });
    }
    for (auto s: { m, m + 1, m + c.rng.size(2, 40) })
        ok &= c.ok(d.entry_seq(s).empty() && d.inputs_seq(s).empty() && d.labels_seq(s).empty(), K("outside-sequence"), [&] { return H::str("sequence ", s, " of ", m); });
    for (bool lab: { false, true })
    {
        auto p = lab ? d.labels() : d.inputs(); auto want = w.all_part(lab);
        ok &= c.ok(p.data() == want, K(lab ? "labels" : "inputs"), [&] { return vs(p.data()) + " instead of " + vs(want); });
        auto width = lab ? w.labels.size() : w.fs - w.labels.size();
        if (n && width)
        {
            ok &= c.ok(p.size() == n && p.feature_size() == width && p.sequence_size() == w.seq && p.label_idx().empty(), K(lab ? "labels-shape" : "inputs-shape"));
            auto s = c.rng.below(m);
            ok &= c.ok(p.entry_seq(s) == w.seq_part(s, lab), K(lab ? "labels-sequences" : "inputs-sequences"));
        }
        else ok &= c.ok(p.empty(), K("part-empty"));
    }
    return ok;
}

inline Set label_set(H::Rng& r, std::size_t fs, bool beyond)
{
    Set s;
    int style = int(r.below(6));
    if (style == 0) return s;
    for (std::size_t j = 0; j < fs; ++j) if (style == 1 ? true : style == 2 ? j + 1 == fs : r.chance(.35)) s.insert(j);
    if (beyond && r.chance(.3)) for (int k = 0; k < 2; ++k) s.insert(fs + r.size(0, 4));
    if (beyond && r.chance(.05)) s.insert(std::size_t(-1));
    return s;
}

template<class V> V value(H::Rng& r, std::size_t k) { return r.chance(.7) ? V(k + 1) : V(r.range(-1000, 1000)) / V(r.chance(.5) ? 1 : 7); }

/// A dataset of any of the three sources with its shadow.
template<class V> Dataset<V> make(H::Case& c, Shadow<V>& w, std::size_t max_rows = 40, std::size_t max_fs = 9, std::size_t max_seq = 7, double far = .004)
{
    auto& r = c.rng;
    int kind = int(r.below(3));
    auto n = r.chance(.08) ? 0 : r.chance(.1) ? 1 : r.far(1, max_rows, max_rows * 50, far);
    auto fs = r.far(1, max_fs, n > max_rows ? 20 : 700, far), seq = r.chance(.4) ? 1 : r.far(1, max_seq, 300, far);
    if (n > max_rows || fs > max_fs) c.tag("large-dataset");
    if (r.chance(.05)) seq = r.size(1, 100);
    auto labels = label_set(r, fs, true);
    w = {}; w.fs = fs;
    std::size_t k = 0;
    if (kind == 0)
    {
        std::vector<V> v(n * fs + (fs > 1 && r.chance(.5) ? r.below(fs) : 0));
        for (auto& x: v) x = value<V>(r, k++);
        auto src = v;
        for (std::size_t i = 0; i < v.size() / fs; ++i) w.rows.emplace_back(v.begin() + long(i * fs), v.begin() + long(i * fs + fs));
        if (v.size() < fs) { w.fs = v.size(); w.rows.clear(); if (!v.empty()) w.rows.push_back(v); }
        w.group(seq); w.label(labels);
        c.tag("from-vector");
        if (labels.empty()) return seq != 1 ? Dataset<V>(v, fs, seq) : fs == 1 ? Dataset<V>(v) : Dataset<V>(v, fs);
        return Dataset<V>(v, fs, seq, labels);
    }
    if (kind == 1)
    {
        std::vector<std::vector<V>> m(n); bool ragged = r.chance(.3);
        auto least = fs + 9; std::size_t at = 0, one = ragged && n && r.chance(.4) ? r.below(n) : n;       // sometimes only one row is shorter
        for (auto& x: m) { auto l = fs + (!ragged ? 0 : one < n ? (at++ == one ? 0 : 2) : r.below(3)); least = std::min(least, l); x.resize(l); for (auto& y: x) y = value<V>(r, k++); }
        w.fs = n ? least : 0;
        for (auto x: m) { x.resize(least); w.rows.push_back(x); }
        w.group(seq); w.label(labels);
        c.tag("from-rows");
        if (ragged) c.tag("ragged-rows");
        if (labels.empty()) { c.tag("from-rows-defaults"); return seq == 1 ? Dataset<V>(m) : Dataset<V>(m, seq); }
        return Dataset<V>(m, seq, labels);
    }
    n = std::min<std::size_t>(n, 12); seq = std::min<std::size_t>(seq, 8);
    std::vector<std::vector<std::vector<V>>> q(n); bool ragged = r.chance(.3);
    auto ls = seq + 9, lf = fs + 9; std::size_t at = 0, one = ragged && n && r.chance(.4) ? r.below(n * seq) : n * seq;
    for (auto& m: q)
    {
        m.resize(seq + (!ragged ? 0 : one < n * seq ? (at / seq == one / seq ? 0 : 1) : r.below(3))); ls = std::min(ls, m.size());
        for (auto& x: m) { x.resize(fs + (!ragged ? 0 : one < n * seq ? (at++ == one ? 0 : 1) : r.below(3))); lf = std::min(lf, x.size()); for (auto& y: x) y = value<V>(r, k++); }
    }
    w.fs = n ? lf : 0; w.seq = n ? ls : 0;
    for (auto& m: q) for (std::size_t i = 0; i < ls; ++i) { auto x = m[i]; x.resize(lf); w.rows.push_back(x); }
    w.label(labels);
    c.tag("from-sequences");
    if (ragged) c.tag("ragged-sequences");
    return labels.empty() ? Dataset<V>(q) : Dataset<V>(q, labels);
}
} // namespace T
#endif
