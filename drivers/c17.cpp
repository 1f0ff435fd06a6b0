// C17: threaded dense kernels against the definition, under perturbed schedules and concurrent callers.
#include "h.hpp"
#include "dnn/dlmath.hpp"
#include <atomic>
#include <mutex>
#include <thread>
using namespace EdgeLearning;
using M = DLMath;
typedef long double L;

namespace {
auto& pool() { return BetterThreads::TaskManager::instance(); }

template<class V> struct Job
{
    std::size_t in, out; double e;
    std::vector<V> x, w, b, g, wg, bg;
    std::vector<L> y, ygx, ygw, ygb; std::vector<double> my, mx, mw, mb;
    Job(H::Rng& r, std::size_t i, std::size_t o) : in(i), out(o), e(sizeof(V) == 4 ? 5e-6 : 1e-13)
    {
        auto v = [&](std::size_t n, double s) { std::vector<V> q(n); for (auto& z: q) z = V(r.uni(-s, s)); return q; };
        x = v(in, 2); w = v(in * out, 1); b = v(out, 1); g = v(out, 2); wg = v(in * out, 3); bg = v(out, 3);
        if (r.chance(.4))        // Operands of very different sizes, zeros included, and gradients that start from nothing.
        {
            auto odd = [&](std::vector<V>& q, double p) { for (auto& z: q) if (r.chance(p)) z = V(r.chance(.4) ? 0 : z * std::pow(10., r.uni(-15, 0))); };
            odd(x, r.uni()); odd(g, r.uni()); odd(w, .2); odd(b, .5);
            if (r.chance(.6)) { wg.assign(in * out, V(0)); bg.assign(out, V(0)); }
        }
        ygx.assign(in, 0); mx.assign(in, 0);
        for (std::size_t k = 0; k < out; ++k)
        {
            L s = b[k]; double m = std::fabs(double(b[k]));
            for (std::size_t j = 0; j < in; ++j)
            {
                L t = L(w[k * in + j]) * x[j]; s += t; m += std::fabs(double(t));
                L q = L(g[k]) * x[j]; ygw.push_back(L(wg[k * in + j]) + q); mw.push_back(std::fabs(double(wg[k * in + j])) + std::fabs(double(q)));
                L u = L(g[k]) * w[k * in + j]; ygx[j] += u; mx[j] += std::fabs(double(u));
            }
            y.push_back(s); my.push_back(m); ygb.push_back(L(bg[k]) + g[k]); mb.push_back(std::fabs(double(bg[k])) + std::fabs(double(g[k])));
        }
    }
    std::string near(const std::vector<V>& got, const std::vector<L>& want, const std::vector<double>& mag) const
    {
        for (std::size_t i = 0; i < want.size(); ++i)
            if (!(std::fabs(double(got[i]) - double(want[i])) <= e * (mag[i] + 1e-33))) return H::str(in, "->", out, " element ", i, ": ", double(got[i]), " instead of ", double(want[i]));
        return "";
    }
    /// Empty, or what went wrong; thread-safe (touches only its own buffers).
    std::pair<std::string, std::string> forward(int how) const
    {
        H::Guarded<V> d(out), gx(x), gw(w), gb(b);
        V* r = how == 0 ? M::dense<V>(d.data(), gx.data(), gw.data(), gb.data(), in, out) : M::dense_thread_opt<V>(d.data(), gx.data(), gw.data(), gb.data(), in, out);
        auto res = d.vec();
        auto m = near(res, y, my);
        std::string key = how == 0 ? "sequential-forward" : "threaded-forward";
        if (!m.empty()) return { key, m };
        if (r != d.data()) return { key + "-return", "" };
        if (!d.intact() || !gx.intact() || !gw.intact() || !gb.intact() || gx.vec() != x || gw.vec() != w || gb.vec() != b) return { key + "-writes-elsewhere", "" };
        if (how && d.vec() != res) return { key + "-still-running", "" };
        return {};
    }
    std::pair<std::string, std::string> backward(int how, int rounds) const
    {
        H::Guarded<V> di(in, V(7)), dw(wg), db(bg), gg(g), gx(x), gw(w);
        std::string key = how == 0 ? "sequential-backward" : "threaded-backward";
        for (int k = 0; k < rounds; ++k)
        {
            V* r = how == 0 ? M::dense_1<V>(di.data(), dw.data(), db.data(), gg.data(), gx.data(), gw.data(), in, out)
                            : M::dense_1_thread_opt<V>(di.data(), dw.data(), db.data(), gg.data(), gx.data(), gw.data(), in, out);
            auto ri = di.vec();
            if (r != di.data()) return { key + "-return", "" };
            auto m = near(ri, ygx, mx); if (!m.empty()) return { key + "-input-gradient", H::str("round ", k, " ", m) };
            std::vector<L> ww, bb; std::vector<double> m1, m2;
            for (std::size_t i = 0; i < wg.size(); ++i) { ww.push_back(ygw[i] + (ygw[i] - wg[i]) * k); m1.push_back(mw[i] * (k + 1)); }
            for (std::size_t i = 0; i < bg.size(); ++i) { bb.push_back(ygb[i] + (ygb[i] - bg[i]) * k); m2.push_back(mb[i] * (k + 1)); }
            m = near(dw.vec(), ww, m1); if (!m.empty()) return { key + "-weight-gradient", H::str("round ", k, " ", m) };
            m = near(db.vec(), bb, m2); if (!m.empty()) return { key + "-bias-gradient", H::str("round ", k, " ", m) };
            if (!di.intact() || !dw.intact() || !db.intact() || !gg.intact() || !gx.intact() || !gw.intact() || gg.vec() != g || gx.vec() != x || gw.vec() != w) return { key + "-writes-elsewhere", "" };
            if (how && di.vec() != ri) return { key + "-still-running", "" };
        }
        return {};
    }
};

std::size_t dim(H::Rng& r) { return r.chance(.1) ? 1 : r.chance(.6) ? r.size(1, 16) : r.far(1, 64, 600, .02); }
void schedule(H::Case& c, bool exact = true)
{
    if (exact) pool().verif_maximum(c.rng.size(1, 8));
    pool().verif_perturb(c.rng.chance(.75) ? c.rng.next() | 1 : 0);
}
void verdict(H::Case& c, const std::pair<std::string, std::string>& p)
{ c.ok(p.first.empty(), p.first.c_str(), [&] { return p.second; }); }

template<class V> void one(H::Case& c)
{
    Job<V> j(c.rng, dim(c.rng), dim(c.rng));
    schedule(c); pool().verif_order();
    verdict(c, j.forward(0)); verdict(c, j.forward(1)); verdict(c, j.backward(0, 2)); verdict(c, j.backward(1, int(c.rng.size(1, 3))));
    if (std::is_same<V, double>::value)
    {
        std::vector<double> d(j.out), x(j.x.begin(), j.x.end()), w(j.w.begin(), j.w.end()), b(j.b.begin(), j.b.end());
        M::dense_simd_opt(d.data(), x.data(), w.data(), b.data(), j.in, j.out);
        std::vector<V> dv(d.begin(), d.end()); auto m = j.near(dv, j.y, j.my);
        c.ok(m.empty(), "simd-forward", [&] { return m; });
    }
    c.nontrivial(pool().verif_order());      // distinct completion orders
    if (pool().verif_peak() > 1) c.tag("parallel");
    c.tag("single"); if (j.in == 1 || j.out == 1) c.tag("one-wide");
    c.sample(H::str(j.in, "->", j.out, ", tasks so far ", pool().verif_tasks(), ", peak parallelism ", pool().verif_peak()));
}
/// Layers of many weights: wide, tall, or both.
void big(H::Case& c)
{
    auto k = c.rng.below(3);
    auto in = k == 0 ? c.rng.size(1000, 5000) : k == 1 ? c.rng.size(1, 40) : c.rng.size(260, 520);
    auto out = k == 0 ? c.rng.size(2, 60) : k == 1 ? c.rng.size(1000, 5000) : c.rng.size(260, 520);
    Job<double> j(c.rng, in, out);
    schedule(c); pool().verif_order();
    verdict(c, j.forward(0)); verdict(c, j.forward(1)); verdict(c, j.backward(0, 2)); verdict(c, j.backward(1, 2));
    c.nontrivial(pool().verif_order()); c.tag("big"); if (in * out > 65536) c.tag("over-65536-weights");
    c.sample(H::str(in, "->", out));
}
/// Infinities and NaNs among the operands show up where the definition has them, and nowhere else.
template<class V> void special(H::Case& c)
{
    auto& r = c.rng;
    std::size_t in = r.size(1, 20), out = r.size(1, 20);
    auto v = [&](std::size_t n, double p) { std::vector<V> q(n); for (auto& z: q) z = r.chance(p) ? r.pick(std::vector<V>{ std::numeric_limits<V>::infinity(), -std::numeric_limits<V>::infinity(), std::numeric_limits<V>::quiet_NaN() }) : V(r.range(-2, 2)); return q; };
    double p = r.pick(std::vector<double>{ 0, .05 });
    auto x = v(in, .05), w = v(in * out, p), b = v(out, .1), g = v(out, .05), wg = v(in * out, 0), bg = v(out, 0);
    schedule(c); pool().verif_order();
    std::vector<V> y(out), gx(in, V(9)), gw(wg), gb(bg), wy(b), wx(in, V(0)), ww(wg), wb(bg);
    M::dense_thread_opt<V>(y.data(), x.data(), w.data(), b.data(), in, out);
    M::dense_1_thread_opt<V>(gx.data(), gw.data(), gb.data(), g.data(), x.data(), w.data(), in, out);
    for (std::size_t i = 0; i < out; ++i)
    {
        wb[i] += g[i];
        for (std::size_t k = 0; k < in; ++k) { wy[i] += w[i * in + k] * x[k]; ww[i * in + k] += g[i] * x[k]; wx[k] += g[i] * w[i * in + k]; }
    }
    // Small integers otherwise, so that every order of summation gives exactly this.
    auto same = [](const std::vector<V>& a, const std::vector<V>& d) { for (std::size_t i = 0; i < a.size(); ++i) if (!(a[i] == d[i] || (std::isnan(a[i]) && std::isnan(d[i])))) return false; return true; };
    c.ok(same(y, wy), "special-forward", [&] { return H::str(in, "->", out); });
    c.ok(same(gx, wx), "special-input-gradient", [&] { return H::str(in, "->", out); });
    c.ok(same(gw, ww), "special-weight-gradient", [&] { return H::str(in, "->", out); });
    c.ok(same(gb, wb), "special-bias-gradient", [&] { return H::str(in, "->", out); });
    c.nontrivial(pool().verif_order()); c.tag("special");
}
void concurrent(H::Case& c)
{
    auto n = c.rng.size(2, 4);
    schedule(c, false); pool().verif_order();
    std::vector<Job<double>> jobs; for (std::size_t i = 0; i < n; ++i) jobs.emplace_back(c.rng, c.rng.size(1, 20), c.rng.size(1, 20));
    std::vector<int> kind; for (std::size_t i = 0; i < n; ++i) kind.push_back(int(c.rng.below(3)));
    std::vector<std::vector<std::pair<std::string, std::string>>> res(n);
    std::atomic<int> gate{0};
    std::vector<std::thread> ts;
    for (std::size_t i = 0; i < n; ++i) ts.emplace_back([&, i] {
        ++gate; while (gate < int(n)) std::this_thread::yield();
        for (int k = 0; k < 3; ++k)
        {
            if (kind[i] != 1) res[i].push_back(jobs[i].forward(1));
            if (kind[i] != 0) res[i].push_back(jobs[i].backward(1, 2));
        } });
    for (auto& t: ts) t.join();
    for (auto& r: res) for (auto& p: r) { verdict(c, p); c.tag("concurrent-call"); }
    c.nontrivial(pool().verif_order());
}
/// Several callers sharing the operands (read only), each with its own results.
void shared(H::Case& c)
{
    schedule(c, false);
    Job<double> j(c.rng, c.rng.size(1, 24), c.rng.size(1, 24));
    std::vector<std::vector<double>> out(3, std::vector<double>(j.out));
    std::vector<std::thread> ts;
    for (auto& o: out) ts.emplace_back([&] { M::dense_thread_opt<double>(o.data(), j.x.data(), j.w.data(), j.b.data(), j.in, j.out); });
    for (auto& t: ts) t.join();
    for (auto& o: out) { auto m = j.near(o, j.y, j.my); c.ok(m.empty(), "shared-operands", [&] { return m; }); }
    c.nontrivial(pool().verif_order()); c.tag("shared-operands");
}
}

int main(int argc, char** argv)
{
    pool().set_maximum_concurrency();
#ifdef VERIF_FLAVOR_TSAN
    const H::u64 q = 1, t = 12;
#else
    const H::u64 q = 3, t = 40;
#endif
    return H::run(argc, argv, {
        { "double", 500 * q, 3000 * t, one<double> },
        { "float", 100 * q, 800 * t, one<float> },
        { "big", 8 * q, 60 * t, big },
        { "special", 100 * q, 800 * t, special<double> },
        { "special-float", 30 * q, 300 * t, special<float> },
        { "concurrent", 200 * q, 1500 * t, concurrent },
        { "shared", 100 * q, 600 * t, shared },
    });
}
