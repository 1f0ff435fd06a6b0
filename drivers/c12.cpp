// C12: min-max normalisation against its definition.
#include "table.hpp"
using namespace T;

namespace {
template<class V> void run(H::Case& c, std::size_t n, std::size_t fs)
{
    auto& r = c.rng;
    double eps = sizeof(V) == 4 ? 4e-6 : 1e-14;
    std::size_t seq = r.chance(.5) ? 1 : r.size(1, n);
    Shadow<V> w; w.fs = fs;
    std::vector<int> style(fs);
    for (auto& s: style) s = int(r.below(8));
    for (std::size_t i = 0; i < n; ++i)
    {
        w.rows.emplace_back();
        for (std::size_t j = 0; j < fs; ++j)
        {
            double big = sizeof(V) == 4 ? 1e37 : 1e307, tiny = sizeof(V) == 4 ? 1e-30 : 1e-290;
            double x = 0;
            switch (style[j])
            {
                case 0: x = double(r.range(0, 255)); break;
                case 1: x = r.uni(-1, 1); break;
                case 2: x = i ? double(w.rows[0][j]) : r.uni(-100, 100); break;      // constant
                case 3: x = r.uni(-1, 1) * big; break;
                case 4: x = r.uni(-1, 1) * tiny; break;
                case 5: x = -r.uni(1, 50); break;
                case 6: x = 1000000 + r.uni(); break;
                case 7: x = r.chance(.5) ? 0. : double(r.range(-3, 3)); break;
            }
            w.rows.back().push_back(V(x));
        }
    }
    auto f = w.flat(); w.group(seq); w.label(label_set(r, fs, false));
    Dataset<V> d(f, fs, seq, w.labels), d0 = d;
    auto shape = [&] (const char* k) { c.ok(d.size() == w.rows.size() && d.feature_size() == fs && d.sequence_size() == w.seq && d.label_idx() == list(w.labels) && d.data().size() == w.rows.size() * fs, k); };
    std::vector<std::vector<V>> out; auto rows = [&] { for (std::size_t i = 0; i < w.rows.size(); ++i) { out.push_back(d.entry(i)); out.back().resize(fs); } };
    if (r.chance(.5))
    {
        auto& ret = d.min_max_normalization();
        c.ok(&ret == &d, "return"); shape("shape"); rows();
        for (std::size_t j = 0; j < fs; ++j)
        {
            long double lo = w.rows[0][j], hi = lo;
            for (auto& x: w.rows) { lo = std::min<long double>(lo, x[j]); hi = std::max<long double>(hi, x[j]); }
            for (std::size_t i = 0; i < w.rows.size(); ++i)
            {
                long double x = w.rows[i][j], want = hi == lo ? 0 : (x - lo) / (hi - lo);
                double got = out[i][j];
                bool exact = x == lo || x == hi;
                c.ok(std::fabs(got - double(want)) <= (exact ? eps / 8 : eps), exact ? "bound" : "proportion",
                    [&] { return H::str("column ", j, " [", double(lo), ",", double(hi), "] value ", double(x), " became ", got, " instead of ", double(want)); });
            }
            c.tag(hi == lo ? "constant-column" : style[j] == 3 ? "huge-column" : style[j] == 4 ? "tiny-column" : style[j] == 5 ? "negative-column" : "column");
        }
    }
    else
    {
        std::vector<std::size_t> cols;
        if (r.chance(.7)) { for (std::size_t j = 0; j < fs; ++j) if (r.chance(.4)) cols.push_back(j); r.shuffle(cols); }
        std::set<std::size_t> chosen(cols.begin(), cols.end());
        V lo = V(r.pick({ 0., -1., 5., double(r.range(-100, 100)), r.uni(-3, 3) })), hi = V(r.pick({ 255., 1., -7., double(r.range(-100, 100)), r.uni(-3, 3) }));
        if (r.chance(.1))
        {
            c.ok(H::throws([&] { d.min_max_normalization(lo, lo, cols); }), "equal-bounds-accepted");
            c.ok(d.data() == d0.data(), "rejected-but-changed"); c.tag("equal-bounds"); shape("shape"); return;
        }
        if (lo == hi) return;
        auto& ret = d.min_max_normalization(lo, hi, cols);
        c.ok(&ret == &d, "return"); shape("shape"); rows();
        for (std::size_t j = 0; j < fs; ++j)
        {
            bool sel = cols.empty() || chosen.count(j);
            for (std::size_t i = 0; i < w.rows.size(); ++i)
            {
                long double x = w.rows[i][j], range = (long double) hi - lo, want = (x - lo) / range;
                double got = out[i][j];
                // The difference is rounded in the value's own type before it is divided.
                double tol = eps * double(1 + std::fabs((double) want) + (std::fabs((double) x) + std::fabs((double) lo)) / std::fabs((double) range));
                bool over = std::fabs((double) want) > (sizeof(V) == 4 ? 3e38 : 1.7e308);
                if (!sel) c.ok(H::same(got, double(x)), "unselected-column", [&] { return H::str("column ", j, " value ", double(x), " became ", got); });
                else if (!over) c.ok(std::fabs(got - double(want)) <= tol, "position", [&] { return H::str("column ", j, " bounds ", lo, ",", hi, " value ", double(x), " became ", got, " instead of ", double(want)); });
            }
        }
        c.tag(cols.empty() ? "bounds-all" : "bounds-selection");
        if (lo > hi) c.tag("reversed-bounds");
    }
    if (n > 100 || fs > 20) c.tag("large-dataset");
    c.ok(d0.data() == w.flat(), "source-copy");
    c.nontrivial(H::hash_vec(f));
    c.sample(H::str("rows ", w.rows.size(), " columns ", fs, " sequence ", w.seq));
}

template<class V> void usual(H::Case& c)
{ std::size_t n = c.rng.chance(.1) ? 1 : c.rng.far(1, 40, 3000, .004); run<V>(c, n, c.rng.far(1, 8, n > 40 ? 20 : 500, .004)); }
template<class V> void extent(H::Case& c)
{
    if (c.rng.chance(.5)) { run<V>(c, c.rng.size(2, 5), c.rng.size(3000, 70000)); c.tag("wide"); }
    else { run<V>(c, c.rng.size(20000, 200000), c.rng.size(1, 2)); c.tag("tall"); }
}
}

int main(int argc, char** argv)
{
    return H::run(argc, argv, {
        { "double", 16000, 400000, usual<double> },
        { "float", 4000, 100000, usual<float> },
        { "extent", 14, 200, extent<double> },
        { "extent-float", 4, 60, extent<float> },
        { "pictures", 30, 400, [](H::Case& c) {
            // The usual history: bytes to [0,1] by explicit bounds, cut, split, then by column.
            std::size_t n = c.rng.size(2, 30), px = c.rng.size(4, 60);
            std::vector<double> f; for (std::size_t i = 0; i < n * (px + 1); ++i) f.push_back((i + 1) % (px + 1) ? double(c.rng.below(256)) : double(c.rng.below(10)));
            Dataset<double> d(f, px + 1, 1, { px });
            d.min_max_normalization(0, 255, d.input_idx());
            for (std::size_t i = 0; i < n; ++i)
            {
                auto e = d.entry(i);
                for (std::size_t j = 0; j < px; ++j) c.ok(std::fabs(e[j] - f[i * (px + 1) + j] / 255) < 1e-15, "picture-pixel");
                c.ok(e[px] == f[i * (px + 1) + px] && d.label(i) == std::vector<double>{ e[px] }, "picture-label");
            }
            auto s = d.split(.6); auto before = d.data();
            s.training_set.min_max_normalization();
            c.ok(d.data() == before, "split-normalised-source");
            for (auto x: s.training_set.data()) c.ok(x >= 0 && x <= 1, "outside-unit-interval");
            c.tag("picture"); c.nontrivial(H::hash_vec(f)); } },
        { "subnormal-bounds", 2000, 20000, [](H::Case& c) {
            // Bounds and values a few smallest numbers apart: differences are exact.
            const double u = 4.9406564584124654e-324; double lo = double(c.rng.range(-50, 50)) * u, hi = lo + double(c.rng.range(1, 3000)) * u;
            if (c.rng.chance(.3)) std::swap(lo, hi);
            std::size_t fs = c.rng.size(1, 3); std::vector<double> f(fs * c.rng.size(1, 8)); for (auto& x: f) x = double(c.rng.range(-3000, 3000)) * u;
            Dataset<double> d(f, fs, 1, {}); d.min_max_normalization(lo, hi);
            for (std::size_t i = 0; i < f.size(); ++i)
            {
                double want = double(((long double) f[i] - lo) / ((long double) hi - lo)), got = d.data()[i];
                c.ok(std::fabs(got - want) <= 1e-14 * (1 + std::fabs(want)), "subnormal-position", [&] { return H::str(f[i], " in [", lo, ",", hi, "] became ", got, " instead of ", want); });
            }
            Dataset<double> e(f, fs, 1, {}); e.min_max_normalization();
            for (auto x: e.data()) c.ok(x >= 0 && x <= 1, "outside-unit-interval");
            c.tag("subnormal"); c.nontrivial(H::hash_vec(f)); } },
        { "integers", 2000, 20000, [](H::Case& c) {
            // Whole-number datasets: the bounds become 0 and 1, positions are cut to whole numbers.
            std::size_t fs = c.rng.size(1, 4); int lo = int(c.rng.range(-300, 300)), hi = lo + int(c.rng.range(1, 300));
            std::vector<int> f(fs * c.rng.size(1, 12)); for (auto& x: f) x = c.rng.pick({ lo, hi, int(c.rng.range(-2000, 2000)), int(c.rng.range(lo, hi)) });
            Dataset<int> d(f, fs, 1, {}); d.min_max_normalization(lo, hi);
            for (std::size_t i = 0; i < f.size(); ++i)
            {
                double want = double(f[i] - lo) / double(hi - lo); int got = d.data()[i];
                c.ok(std::fabs(got - want) < 1 && (want != std::floor(want) || got == want), "whole-position", [&] { return H::str(f[i], " in [", lo, ",", hi, "] became ", got); });
            }
            Dataset<int> e(f, fs, 1, {}); e.min_max_normalization();
            for (std::size_t j = 0; j < fs; ++j)
            {
                int mn = f[j], mx = f[j]; for (std::size_t i = j; i < f.size(); i += fs) { mn = std::min(mn, f[i]); mx = std::max(mx, f[i]); }
                for (std::size_t i = j; i < f.size(); i += fs) c.ok(e.data()[i] == (mx > mn && f[i] == mx ? 1 : 0), "whole-column", [&] { return H::str(f[i], " in [", mn, ",", mx, "] became ", e.data()[i]); });
            }
            c.tag("whole-numbers"); c.nontrivial(H::hash_vec(f)); } },
        { "no-rows", 1, 1, [](H::Case& c) {
            Dataset<double> a; a.min_max_normalization(); a.min_max_normalization(0, 1);
            Dataset<double> b(std::vector<double>{ 1, 2, 3, 4 }, 2, 0, {}); b.min_max_normalization(); b.min_max_normalization(0, 1);
            Dataset<double> d(std::vector<double>{ 1, 2, 3, 4 }, 2, 1, { 1 }); auto s = d.split(0); s.training_set.min_max_normalization(); s.training_set.min_max_normalization(0, 5);
            c.ok(a.empty() && b.empty() && s.training_set.empty() && s.testing_set.size() == 2, "no-rows"); c.tag("no-rows"); } },
    });
}
