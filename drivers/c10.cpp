// C10: everything a dataset shows against a shadow table, over random setter histories.
#include "table.hpp"
using namespace T;

namespace {
template<class V> void history(H::Case& c)
{
    Shadow<V> w;
    auto d = make<V>(c, w);
    if (!agree(c, d, w, "built")) return;
    H::u64 h = H::comb(w.rows.size() * 1000 + w.fs * 10 + w.seq, w.rows.empty() ? 0 : H::u64(w.rows[0].size()));
    std::string ops;
    std::vector<std::pair<Dataset<V>, Shadow<V>>> copies;
    for (auto k = c.rng.size(1, 8); k; --k)
    {
        auto op = c.rng.below(6);
        if (op == 0 || op == 1)
        {
            auto s = c.rng.chance(.1) ? w.rows.size() + c.rng.below(3) : c.rng.size(1, 9);
            d.sequence_size(s);
            if (s == 0 && !w.rows.empty()) w.rows.clear();
            w.group(s); ops += H::str("seq", s, " "); c.tag("regroup");
        }
        else if (op == 2)
        {
            auto l = label_set(c.rng, w.fs, true);
            d.label_idx(l); w.label(l); ops += H::str("lab", l.size(), " "); c.tag("relabel");
        }
        else if (op == 3 && !w.rows.empty())
        {
            auto i = c.rng.below(w.rows.size()), j = c.rng.below(w.fs); V v = V(c.rng.range(-99, 99));
            d.data()[i * w.fs + j] = v; w.rows[i][j] = v; ops += "set "; c.tag("write-through");
        }
        else if (op == 4) { copies.emplace_back(d, w); ops += "copy "; c.tag("copy"); }
        else if (op == 5 && !copies.empty())
        {
            auto i = c.rng.below(copies.size());
            std::swap(d, copies[i].first); std::swap(w, copies[i].second); ops += "swap "; c.tag("swap");
        }
        h = H::comb(h, H::hash_str(ops));
        if (!agree(c, d, w, "after-" + std::string(op < 2 ? "regroup" : op == 2 ? "relabel" : op == 3 ? "write" : op == 4 ? "copy" : "swap"))) { c.fail("history", ops); return; }
    }
    for (auto& p: copies) if (!agree(c, p.first, p.second, "copy")) return;
    c.nontrivial(H::comb(h, H::hash_str(ops)));
    c.sample(H::str("rows ", w.rows.size(), " width ", w.fs, " sequence ", w.seq, " labels ", w.labels.size(), ": ", ops));
}
/// Very many rows, one of them shorter than the others.
void tall_ragged(H::Case& c)
{
    auto& r = c.rng; Shadow<double> w; w.fs = r.size(1, 3); auto n = r.size(1500, 70000), at = r.chance(.3) ? n - 1 : r.below(n), seq = r.size(1, 40);
    std::vector<std::vector<double>> m(n, std::vector<double>(w.fs + 1)); double k = 0;
    for (std::size_t i = 0; i < n; ++i) { if (i == at) m[i].resize(w.fs); for (auto& x: m[i]) x = ++k; w.rows.emplace_back(m[i].begin(), m[i].begin() + long(w.fs)); }
    auto l = label_set(r, w.fs, true); w.group(seq); w.label(l);
    agree(c, Dataset<double>(m, seq, l), w, "tall-ragged"); c.tag("tall-ragged"); c.nontrivial(H::comb(n, at));
}
/// More elements than a 32-bit count holds.
void vast(H::Case& c)
{
    typedef std::int8_t V; auto& r = c.rng;
    { std::ifstream f("/proc/meminfo"); std::string k; long v = 0; while (f >> k) if (k == "MemAvailable:") { f >> v; break; } if (v < 14000000) { c.tag("too-little-memory"); return; } }
    std::size_t fs = r.size(900, 1100), seq = r.size(1, 9), n = ((std::size_t(1) << 32) / (fs * seq) + r.size(2, 40)) * seq;
    std::map<std::size_t, V> marks; auto get = [&](std::size_t i) { auto f = marks.find(i); return f == marks.end() ? V(0) : f->second; };
    std::vector<std::size_t> rows{ 0, 1, n / 2, n - 1, n - seq, (std::size_t(1) << 31) / fs + 1, (std::size_t(1) << 32) / fs };
    for (int k = 0; k < 8; ++k) rows.push_back(r.below(n));
    for (auto i: rows) for (int k = 0; k < 60; ++k) marks[i * fs + r.below(fs)] = V(r.range(1, 100));
    Set labels; for (int k = 0; k < 40; ++k) labels.insert(r.below(fs));
    auto make = [&] { std::vector<V> v(n * fs); for (auto& m: marks) v[m.first] = m.second; return Dataset<V>(std::move(v), fs, seq, labels); };
    Dataset<V> d(make());
    c.ok(d.size() == n && d.data().size() == n * fs && d.feature_size() == fs && d.sequence_size() == seq, "vast-shape", [&] { return H::str(d.size(), " instead of ", n); });
    for (auto i: rows)
    {
        std::vector<V> e, in, lab, se;
        for (std::size_t j = 0; j < fs; ++j) { e.push_back(get(i * fs + j)); (labels.count(j) ? lab : in).push_back(e.back()); }
        c.ok(d.entry(i) == e && d.input(i) == in && d.label(i) == lab, "vast-row", [&] { return H::str("row ", i, " of ", n); });
        auto s = i / seq; for (std::size_t k = s * seq * fs; k < (s + 1) * seq * fs; ++k) se.push_back(get(k));
        c.ok(d.entry_seq(s) == se && d.inputs_seq(s).size() == seq * in.size() && d.labels_seq(s).size() == seq * lab.size(), "vast-sequence", [&] { return H::str("sequence ", s); });
        if (i / seq * seq + seq > n) continue;
        auto sub = d.subdata(i / seq * seq, i / seq * seq + seq);
        c.ok(sub.data() == se && sub.size() == seq && sub.label_idx() == list(labels), "vast-part", [&] { return H::str("rows ", i, " on"); });
    }
    c.ok(d.entry(n).empty() && d.entry_seq(n / seq).empty(), "vast-outside");
    c.tag("over-32-bits"); c.nontrivial(H::comb(fs, n)); c.sample(H::str(n, " rows of ", fs));
}
}

int main(int argc, char** argv)
{
    return H::run(argc, argv, {
        { "double", 12000, 300000, history<double> },
        { "float", 2000, 50000, history<float> },
        { "int", 2000, 50000, history<int> },
        { "vast", 1, 1, vast },
        { "tall-ragged", 12, 200, tall_ragged },
        { "shapes", 60, 60, [](H::Case& c) {
            // All (elements, feature size, sequence size) with up to 59 elements.
            std::size_t e = c.id;
            for (std::size_t fs = 1; fs <= 9; ++fs) for (std::size_t s = 1; s <= 8; ++s)
            {
                std::vector<double> v(e); for (std::size_t i = 0; i < e; ++i) v[i] = double(i);
                Set l; for (std::size_t j = 0; j < fs; ++j) if ((e + s) >> j & 1) l.insert(j);
                Shadow<double> w; w.fs = std::min(fs, e);
                if (w.fs) for (std::size_t i = 0; i < e / w.fs; ++i) w.rows.emplace_back(v.begin() + long(i * w.fs), v.begin() + long(i * w.fs + w.fs));
                w.group(s); w.label(l);
                Dataset<double> d(v, fs, s, l);
                if (!agree(c, d, w, "shape")) { c.fail("shape", H::str(e, " elements, feature size ", fs, ", sequence size ", s)); return; }
                c.tag("shape"); c.nontrivial(H::mix(e * 1000 + fs * 10 + s));
            } } },
        { "empty", 1, 1, [](H::Case& c) {
            // No data at all, whatever the declared shape.
            for (std::size_t fs = 0; fs < 4; ++fs) for (std::size_t s = 0; s < 4; ++s)
            {
                Shadow<double> w;
                agree(c, Dataset<double>(std::vector<double>{}, fs, s, { 0, 2 }), w, "no-data");
                agree(c, Dataset<double>(std::vector<std::vector<double>>{}, s, { 1 }), w, "no-rows");
                agree(c, Dataset<double>(std::vector<std::vector<std::vector<double>>>{}, { 1 }), w, "no-sequences");
                agree(c, Dataset<double>(), w, "default");
                Dataset<double> d(std::vector<double>{ 1, 2, 3, 4, 5, 6 }, fs, s, { 0 });
                if (!fs || !s) agree(c, d, w, "zero-size", false);
                d.sequence_size(0); d.label_idx({ 0 }); d.inputs(); d.labels(); d.entry(0); d.entry_seq(0); d.labels_seq(1); d.inputs_seq(0);
                c.ok(d.empty() && d.size() == 0, "regroup-by-zero");
                c.tag("empty");
            } } },
    });
}
