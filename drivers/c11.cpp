// C11: cuts, splits, shuffles and joins of datasets on shadow tables.
#include "table.hpp"
using namespace T;
using EdgeLearning::RneType;

namespace {
using D = Dataset<double>;
using S = Shadow<double>;

S cut(const S& w, std::size_t a, std::size_t b)
{
    S r; r.fs = w.fs; r.labels = w.labels;
    r.rows.assign(w.rows.begin() + long(a), w.rows.begin() + long(b));
    r.group(w.seq); return r;
}
bool joined(H::Case& c, const S& a, const S& b, std::size_t axis, S& r)
{
    r = {};
    if (axis != 2 && a.labels != b.labels) return false;
    auto na = a.sequences(), nb = b.sequences();
    if ((axis != 0 && na != nb) || (axis != 1 && a.seq != b.seq) || (axis != 2 && a.fs != b.fs)) return false;
    (void) c;
    if (axis == 0) { r = a; r.rows.insert(r.rows.end(), b.rows.begin(), b.rows.end()); }
    else if (axis == 1)
    {
        r.fs = a.fs; r.labels = a.labels; r.seq = a.seq + b.seq;
        for (std::size_t s = 0; s < na; ++s)
        {
            r.rows.insert(r.rows.end(), a.rows.begin() + long(s * a.seq), a.rows.begin() + long((s + 1) * a.seq));
            r.rows.insert(r.rows.end(), b.rows.begin() + long(s * b.seq), b.rows.begin() + long((s + 1) * b.seq));
        }
    }
    else
    {
        r.fs = a.fs + b.fs; r.seq = a.seq;
        for (std::size_t i = 0; i < a.rows.size(); ++i) { auto x = a.rows[i]; x.insert(x.end(), b.rows[i].begin(), b.rows[i].end()); r.rows.push_back(x); }
    }
    return true;
}
/// The exact share: the largest whole number of sequences not above it, leaving
/// either neighbour open only where the product of the doubles is within rounding.
bool share_ok(double p, std::size_t rows, std::size_t unit, std::size_t got)
{
    p = std::min(1., std::max(0., p));
    if (!unit) return got == 0;
    long double exact = (long double) p * rows / unit;
    auto lo = std::floor(exact - 1e-9L), hi = std::floor(exact + 1e-9L);
    return got % unit == 0 && (long double)(got / unit) >= lo && (long double)(got / unit) <= hi;
}

void chain(H::Case& c)
{
    S w; auto d = make<double>(c, w);
    auto d0 = d; auto w0 = w;
    std::string ops; H::u64 h = H::comb(w.rows.size() * 100 + w.fs, w.seq);
    for (auto k = c.rng.size(1, 6); k; --k)
    {
        auto op = c.rng.below(6); auto n = w.rows.size();
        auto before = d; auto wb = w;
        if (op == 0)
        {
            auto a = c.rng.size(0, n), b = c.rng.size(a, n);
            auto arg = b == n && c.rng.chance(.5) ? n + c.rng.below(20) : b;
            auto s = d.subdata(a, arg);
            c.tag("cut"); if (a == b) c.tag("empty-cut"); if (arg > n) c.tag("cut-beyond");
            auto ws = cut(w, a, b);
            if (!agree(c, s, ws, "cut")) { c.fail("cut", H::str(a, "..", arg, " of ", n, " rows in sequences of ", w.seq)); return; }
            if (!agree(c, d, wb, "cut-source", false)) return;
            if (!ws.rows.empty() || c.rng.chance(.2)) { d = s; w = ws; }
            ops += H::str("cut", a, "-", arg, " ");
            auto bad = c.rng.size(1, 5);
            c.ok(H::throws([&] { d.subdata(w.rows.size() + bad, w.rows.size() + bad + 1); }) && H::throws([&] { d.subdata(std::min<std::size_t>(1, w.rows.size()) + 1, 0); }), "backward-cut-accepted");
        }
        else if (op == 1)
        {
            double p = c.rng.chance(.3) ? c.rng.pick({ 0., 1., .5, .25, .75, -.3, 1.7, 1. / 3, 2. / 3, .1, .9 }) : c.rng.uni();
            auto s = d.subdata(p);
            c.tag("percentage-cut");
            // Rows are rounded down, and of those only whole sequences are kept.
            std::size_t m = s.size(); bool found = false; S ws;
            long double exact = (long double) std::min(1., std::max(0., p)) * n;
            for (auto e: { exact - 1e-9L, exact + 1e-9L })
            { auto t = e < 0 ? 0 : std::size_t(std::floor(e)); ws = cut(w, 0, std::min(t, n)); if (ws.rows.size() == m) { found = true; break; } }
            c.ok(found, "percentage-cut-size", [&] { return H::str(p, " of ", n, " rows in sequences of ", w.seq, " gave ", m); });
            if (!found || !agree(c, s, ws, "percentage-cut")) return;
            if (!agree(c, d, wb, "cut-source", false)) return;
            ops += H::str("share", p, " ");
        }
        else if (op == 2)
        {
            double p = c.rng.chance(.3) ? c.rng.pick({ 0., 1., .5, .25, .75, -.3, 1.7, 1. / 3, 2. / 3, .1, .9, .7, .8 }) : c.rng.uni();
            if (c.rng.chance(.3) && w.sequences()) p = double(c.rng.size(0, w.sequences())) / double(w.sequences());
            auto s = d.split(p);
            c.tag("split");
            auto m = s.training_set.size();
            if (!c.ok(share_ok(p, n, w.seq, m), "split-share", [&] { return H::str(p, " of ", n, " rows in sequences of ", w.seq, " gave ", m); })) return;
            auto wt = cut(w, 0, m), we = cut(w, m, n);
            if (!agree(c, s.training_set, wt, "training-part") || !agree(c, s.testing_set, we, "testing-part")) { c.fail("split", H::str(p, " of ", n, " rows in sequences of ", w.seq)); return; }
            if (!agree(c, d, wb, "split-source", false)) return;
            if (m && m < n)
            {
                c.tag("proper-split");
                c.ok(wt.rows.size() + we.rows.size() == n, "split-loses-rows", [&] { return H::str(wt.rows.size(), "+", we.rows.size(), " of ", n); });
                S all; bool fit = wt.seq == we.seq;
                if (fit) { auto j = D::concatenate(s.training_set, s.testing_set, 0); joined(c, wt, we, 0, all); if (!agree(c, j, wb, "split-joined")) return; c.tag("rejoined"); }
            }
            if (c.rng.chance(.4)) { bool t = c.rng.chance(.5); d = t ? s.training_set : s.testing_set; w = t ? wt : we; }
            ops += H::str("split", p, " ");
        }
        else if (op == 3)
        {
            auto seed = c.rng.next();
            auto e = d; e.shuffle(RneType(seed)); auto e2 = d; auto& ret = e2.shuffle(RneType(seed));
            c.tag("shuffle");
            c.ok(&ret == &e2, "shuffle-return");
            if (!c.ok(e.data() == e2.data(), "shuffle-not-reproducible")) return;
            if (!c.ok(e.size() == n && e.data().size() == n * w.fs, "shuffle-size")) return;
            S ws = w; for (std::size_t i = 0; i < n; ++i) ws.rows[i] = e.entry(i);
            auto x = ws.rows, y = w.rows; std::sort(x.begin(), x.end()); std::sort(y.begin(), y.end());
            if (!c.ok(x == y, "shuffle-rows", [&] { return "rows are not a permutation: " + vs(e.data()) + " from " + vs(d.data()); })) return;
            if (ws.rows != w.rows) c.tag("moved");
            if (!agree(c, e, ws, "shuffle") || !agree(c, d, wb, "shuffle-copy-source", false)) return;
            d = e; w = ws; ops += "shuffle ";
        }
        else
        {
            // Join with a dataset that fits one axis, or with any.
            auto axis = c.rng.chance(.03) ? 3 + c.rng.below(3) : c.rng.below(3);
            S v; D g;
            int how = int(c.rng.below(5));
            if (how == 0) g = make<double>(c, v, 12, 4, 3, 0);
            else if (how == 1) { g = d0; v = w0; }
            else
            {
                auto sq = axis == 0 ? c.rng.size(1, 5) : std::max<std::size_t>(1, w.sequences());
                v.seq = axis == 1 ? c.rng.size(1, 4) : std::max<std::size_t>(1, w.seq);
                v.fs = axis == 2 ? c.rng.size(1, 4) : std::max<std::size_t>(1, w.fs);
                if (how == 4) { auto& x = c.rng.chance(.5) ? v.seq : v.fs; x += 1; }
                v.labels = axis == 2 && c.rng.chance(.5) ? label_set(c.rng, v.fs, false) : w.labels;
                if (c.rng.chance(.1)) v.labels = label_set(c.rng, v.fs, false);
                Set l; for (auto x: v.labels) if (x < v.fs) l.insert(x);
                v.labels = l;
                std::size_t q = 5000;
                for (std::size_t i = 0; i < sq * v.seq; ++i) { v.rows.emplace_back(); for (std::size_t j = 0; j < v.fs; ++j) v.rows.back().push_back(double(q++)); }
                auto f = v.flat();
                g = D(f, v.fs, v.seq, v.labels);
            }
            bool left = c.rng.chance(.5);
            auto& wa = left ? v : w; auto& wz = left ? w : v; auto& da = left ? g : d; auto& dz = left ? d : g;
            S want; D got;
            if (da.empty() || dz.empty())
            {
                got = D::concatenate(da, dz, axis); want = da.empty() ? wz : wa;
                c.tag("join-empty");
                if (!agree(c, got, want, "join-empty")) return;
            }
            else if (axis > 2 || !joined(c, wa, wz, axis, want))
            {
                c.tag("join-rejected");
                c.ok(H::throws([&] { D::concatenate(da, dz, axis); }), "join-accepted", [&] { return H::str("axis ", axis, ": ", wa.sequences(), "x", wa.seq, "x", wa.fs, " and ", wz.sequences(), "x", wz.seq, "x", wz.fs); });
                if (!agree(c, d, wb, "join-source", false)) return;
                continue;
            }
            else
            {
                got = D::concatenate(da, dz, axis);
                c.tag(H::str("join-axis-", axis));
                if (!agree(c, got, want, H::str("join-", axis))) { c.fail("join", H::str("axis ", axis, ": ", wa.sequences(), "x", wa.seq, "x", wa.fs, " and ", wz.sequences(), "x", wz.seq, "x", wz.fs)); return; }
            }
            if (!agree(c, d, wb, "join-source", false) || !agree(c, g, v, "join-source", false)) return;
            if (want.rows.size() < 120 && want.fs < 12) { d = got; w = want; }
            ops += H::str("join", axis, " ");
        }
        h = H::comb(h, H::hash_str(ops));
        if (!agree(c, before, wb, "copy-taken-before", false)) return;
    }
    if (!agree(c, d0, w0, "first-source", false)) return;
    c.nontrivial(h);
    c.sample(H::str("rows ", w0.rows.size(), " width ", w0.fs, " sequence ", w0.seq, ": ", ops));
}
}

int main(int argc, char** argv)
{
    return H::run(argc, argv, {
        { "chains", 14000, 300000, chain },
        { "split-shares", 60, 400, [](H::Case& c) {
            // Every k/n share and every hundredth, for all row counts to 60.
            std::size_t n = c.id % 60 + 1, seq = c.id < 60 ? 1 : c.rng.size(1, n);
            S w; w.fs = 2; for (std::size_t i = 0; i < n; ++i) w.rows.push_back({ double(i), double(i) + .5 });
            auto f = w.flat(); w.group(seq); w.label({ 1 });
            D d(f, 2, seq, { 1 });
            std::vector<double> ps; for (int k = 0; k <= 100; ++k) ps.push_back(k / 100.);
            for (std::size_t k = 0; k <= n; ++k) ps.push_back(double(k) / double(n));
            for (auto p: ps)
            {
                auto s = d.split(p); auto m = s.training_set.size(), rows = w.rows.size();
                c.ok(share_ok(p, rows, seq, m) && m + s.testing_set.size() == rows, "split-share", [&] { return H::str(p, " of ", rows, " rows in sequences of ", seq, " gave ", m, "+", s.testing_set.size()); });
                auto a = s.training_set.data(); auto b = s.testing_set.data(); a.insert(a.end(), b.begin(), b.end());
                c.ok(a == w.flat(), "split-content", [&] { return H::str(p, " of ", rows, " rows in sequences of ", seq); });
                c.nontrivial(H::hash_str(H::str(n, " ", seq, " ", p)));
            }
            c.tag("shares"); } },
        { "arrangements", 12, 60, [](H::Case& c) {
            // Every arrangement of up to five rows occurs, and equally often.
            std::size_t n = c.id % 4 + 2, all = 1; for (std::size_t i = 2; i <= n; ++i) all *= i;
            std::map<std::vector<double>, std::size_t> seen;
            std::size_t runs = all * 60; std::vector<double> f; for (std::size_t i = 0; i < n; ++i) f.push_back(double(i));
            for (std::size_t i = 0; i < runs; ++i) { D d(f, 1); d.shuffle(RneType(c.rng.next())); ++seen[d.data()]; }
            c.ok(seen.size() == all, "arrangement-missing", [&] { return H::str(seen.size(), " of ", all, " arrangements of ", n, " rows in ", runs, " shuffles"); });
            double chi = 0; for (auto& s: seen) chi += std::pow(double(s.second) - 60, 2) / 60;
            // chi-square with all-1 degrees of freedom: mean + 8 sigma is far beyond 1e-9 for these sizes (2: bound on 1 dof).
            double df = double(all - 1); c.ok(chi < df + 9 * std::sqrt(2 * df) + 30, "arrangement-bias", [&] { return H::str("chi-square ", chi, " with ", df, " degrees of freedom"); });
            for (auto& s: seen) c.nontrivial(H::hash_vec(s.first));
            c.tag("arrangements"); } },
        { "far-arrangements", 40, 400, [](H::Case& c) {
            // With many rows: no place keeps its row, and no row its place, too often.
            std::size_t n = c.rng.far(20, 150, 700, .3), runs = 120; std::vector<double> f(n); for (std::size_t i = 0; i < n; ++i) f[i] = double(i);
            std::vector<std::vector<unsigned char>> at(n, std::vector<unsigned char>(n, 0)); unsigned most = 0; std::size_t gi = 0, gj = 0;
            for (std::size_t k = 0; k < runs; ++k)
            {
                D d(f, 1); d.shuffle(RneType(c.rng.next())); auto& v = d.data();
                c.must(v.size() == n, "shuffle-size");
                for (std::size_t i = 0; i < n; ++i) { auto j = std::size_t(v[i]); c.must(j < n, "shuffle-rows"); if (++at[i][j] > most) { most = at[i][j]; gi = i; gj = j; } }
            }
            c.ok(most < 40, "arrangement-fixed", [&] { return H::str("row ", gj, " at place ", gi, " in ", most, " of ", runs, " shuffles of ", n, " rows"); });
            c.nontrivial(H::comb(n, most)); c.tag("far-arrangements"); if (n > 255) c.tag("far-arrangements>255"); } },
        { "default-shuffle", 20, 100, [](H::Case& c) {
            S w; auto d = make<double>(c, w); auto e = d; e.shuffle();
            std::vector<std::vector<double>> x; for (std::size_t i = 0; i < e.size(); ++i) x.push_back(e.entry(i));
            auto y = w.rows; std::sort(x.begin(), x.end()); std::sort(y.begin(), y.end());
            c.ok(x == y, "default-shuffle"); } },
    });
}
