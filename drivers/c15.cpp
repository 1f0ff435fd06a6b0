// C15: convolution and pooling, kernels and layers, against direct sums over windows.
#include "h.hpp"
#include "dnn/dlmath.hpp"
#include "dnn/convolutional.hpp"
#include "dnn/max_pooling.hpp"
#include "dnn/avg_pooling.hpp"
using namespace EdgeLearning;
using M = DLMath;
typedef long double L;

namespace {
bool WIDE = false;      ///< Outputs of more than 65536 cells.

struct Geo
{
    std::size_t h, w, c, kh, kw, f, sh, sw, ph, pw;
    std::size_t oh() const { return (h + 2 * ph - kh) / sh + 1; }
    std::size_t ow() const { return (w + 2 * pw - kw) / sw + 1; }
    std::string str() const { return H::str(h, "x", w, "x", c, " kernel ", kh, "x", kw, " filters ", f, " stride ", sh, "x", sw, " padding ", ph, "x", pw); }
    H::u64 hash() const { return H::hash_str(str()); }
};
Geo geometry(H::Rng& r, bool pool)
{
    Geo g;
    // One in fifty is large; each extent may also be far larger than the others.
    bool big = r.chance(.02); double p = big ? .6 : .004;
    g.h = r.far(1, 9, 40, p); g.w = r.chance(.3) ? g.h : r.far(1, 9, 40, p); g.c = r.chance(.4) ? 1 : r.far(1, 4, big ? 12 : 40, p);
    g.ph = pool ? 0 : r.chance(.5) ? 0 : r.far(0, 3, 9, p); g.pw = pool ? 0 : r.chance(.4) ? g.ph : r.far(0, 3, 9, p);
    g.kh = r.size(1, std::min<std::size_t>(big ? 22 : 4, g.h + 2 * g.ph)); g.kw = r.size(1, std::min<std::size_t>(big ? 22 : 4, g.w + 2 * g.pw));
    g.sh = r.far(1, 3, 12, p); g.sw = r.chance(.5) ? g.sh : r.far(1, 3, 12, p);
    g.f = r.chance(.3) ? 1 : r.far(1, 5, big ? 12 : 40, p);
    if (WIDE) { g.sh = g.sw = 1; g.kh = r.size(1, 2); g.kw = r.size(1, 2); g.f = r.size(1, 5); g.c = r.size(1, 4); std::size_t side = 66000 / (pool ? g.c : g.f); g.h = r.chance(.2) ? r.size(2, 4) : r.size(100, 300); g.w = side / g.h + r.size(2, 60); }
    return g;
}
template<class V> std::vector<V> values(H::Rng& r, std::size_t n, bool small)
{
    std::vector<V> v(n);
    int style = int(r.below(4));
    for (auto& x: v) x = V(style == 0 ? double(r.range(-9, 9)) : style == 1 ? r.uni(-2, 2) : style == 2 ? -r.uni(1, 5) : r.uni(-1, 1) * (small ? 10 : 1e6));
    return v;
}
/// mode 0 convolution (k, bias), 1 max, 2 average. Scale of the terms in `mag`.
template<class V> std::vector<L> define(const Geo& g, int mode, const std::vector<V>& x, const std::vector<V>& k, const std::vector<V>& bias, std::vector<double>& mag)
{
    std::vector<L> out;
    auto ch = mode == 0 ? g.f : g.c;
    for (std::size_t r = 0; r < g.oh(); ++r) for (std::size_t q = 0; q < g.ow(); ++q) for (std::size_t o = 0; o < ch; ++o)
    {
        L s = 0, m = -INFINITY; double a = 0;
        for (std::size_t i = 0; i < g.kh; ++i) for (std::size_t j = 0; j < g.kw; ++j)
        {
            long y = long(r * g.sh + i) - long(g.ph), z = long(q * g.sw + j) - long(g.pw);
            bool in = y >= 0 && z >= 0 && y < long(g.h) && z < long(g.w);
            if (mode == 0)
            {
                if (in) for (std::size_t c = 0; c < g.c; ++c)
                { L t = L(x[(std::size_t(y) * g.w + std::size_t(z)) * g.c + c]) * k[((i * g.kw + j) * g.c + c) * g.f + o]; s += t; a += std::fabs(double(t)); }
            }
            else { L t = x[(std::size_t(y) * g.w + std::size_t(z)) * g.c + o]; s += t; m = std::max(m, t); a += std::fabs(double(t)); }
        }
        if (mode == 0) { if (!bias.empty()) { s += bias[o]; a += std::fabs(double(bias[o])); } }
        else if (mode == 1) s = m; else { s /= L(g.kh * g.kw); a /= double(g.kh * g.kw); }
        out.push_back(s); mag.push_back(mode == 1 ? 0 : a);
    }
    return out;
}
template<class V> bool equal(H::Case& c, const char* key, const Geo& g, const std::vector<V>& got, const std::vector<L>& want, const std::vector<double>& mag)
{
    double e = sizeof(V) == 4 ? 5e-6 : 1e-14;
    if (!c.ok(got.size() == want.size(), key, [&] { return g.str() + H::str(" has ", got.size(), " cells instead of ", want.size()); })) return false;
    for (std::size_t i = 0; i < want.size(); ++i)
        if (!c.ok((mag[i] == 0 && L(got[i]) == want[i]) || std::fabs(double(got[i]) - double(want[i])) <= e * mag[i], key, [&] { return g.str() + H::str(" cell ", i, ": ", double(got[i]), " instead of ", double(want[i])); })) return false;
    return true;
}

template<class V> void kernel(H::Case& c)
{
    int mode = int(c.rng.below(3));
    auto g = geometry(c.rng, mode != 0);
    auto x = values<V>(c.rng, g.h * g.w * g.c, sizeof(V) == 4), k = values<V>(c.rng, mode ? 0 : g.kh * g.kw * g.c * g.f, sizeof(V) == 4);
    if (mode == 1 && c.rng.chance(.05))
    {   // The largest and the infinite are values like any other.
        const V inf = std::numeric_limits<V>::infinity(), most = std::numeric_limits<V>::max();
        for (auto& v: x) if (c.rng.chance(.5)) v = c.rng.pick({ inf, -inf, most, -most, V(0), std::numeric_limits<V>::denorm_min() });
        c.tag("extreme-values");
    }
    if (mode == 2 && c.rng.chance(.05)) { for (auto& v: x) v = V(v * (sizeof(V) == 4 ? 1e20 : 1e290)); c.tag("huge-values"); }
    std::vector<double> mag; auto want = define<V>(g, mode, x, k, {}, mag);
    H::Guarded<V> src(x), ker(k), dst(want.size());
    M::Shape3d in(g.h, g.w, g.c); M::Shape2d ks(g.kh, g.kw), st(g.sh, g.sw), pd(g.ph, g.pw);
    bool unit = g.sh == 1 && g.sw == 1, bare = g.ph == 0 && g.pw == 0;
    V* ret;
    if (mode == 0)
    {
        if (g.c == 1 && g.f == 1 && c.rng.chance(.5)) ret = unit && bare && c.rng.chance(.5) ? M::cross_correlation<V>(dst.data(), src.data(), M::Shape2d(g.h, g.w), ker.data(), ks) : M::cross_correlation<V>(dst.data(), src.data(), M::Shape2d(g.h, g.w), ker.data(), ks, st, pd);
        else if (g.f == 1 && c.rng.chance(.5)) ret = M::cross_correlation<V>(dst.data(), src.data(), in, ker.data(), ks, st, pd);
        else ret = bare && c.rng.chance(.5) ? (unit ? M::cross_correlation<V>(dst.data(), src.data(), in, ker.data(), ks, g.f) : M::cross_correlation<V>(dst.data(), src.data(), in, ker.data(), ks, g.f, st)) : M::cross_correlation<V>(dst.data(), src.data(), in, ker.data(), ks, g.f, st, pd);
    }
    else if (mode == 1) ret = unit && c.rng.chance(.5) ? M::max_pool<V>(dst.data(), src.data(), in, ks) : M::max_pool<V>(dst.data(), src.data(), in, ks, st);
    else ret = unit && c.rng.chance(.5) ? M::avg_pool<V>(dst.data(), src.data(), in, ks) : M::avg_pool<V>(dst.data(), src.data(), in, ks, st);
    c.ok(ret == dst.data(), "return");
    equal(c, mode == 0 ? "convolution" : mode == 1 ? "max-pooling" : "average-pooling", g, dst.vec(), want, mag);
    c.ok(src.vec() == x && ker.vec() == k && src.intact() && ker.intact() && dst.intact(), "writes-elsewhere", [&] { return g.str(); });
    c.tag(mode == 0 ? "convolution" : mode == 1 ? "max-pooling" : "average-pooling");
    if (g.sh != g.sw) c.tag("unequal-strides");
    if (g.ph != g.pw) c.tag("unequal-paddings");
    if (g.ph >= g.kh || g.pw >= g.kw) c.tag("window-in-padding");
    if ((g.h + 2 * g.ph - g.kh) % g.sh || (g.w + 2 * g.pw - g.kw) % g.sw) c.tag("strides-leave-rest");
    c.nontrivial(H::comb(g.hash(), H::hash_vec(x)));
    if (g.h > 9 || g.w > 9 || g.c > 4 || g.f > 5 || g.sh > 3 || g.sw > 3) c.tag("large-geometry");
    c.sample(g.str());
}

void layer(H::Case& c)
{
    int mode = int(c.rng.below(3));
    auto g = geometry(c.rng, mode != 0);
    M::Shape2d ks(g.kh, g.kw), st(g.sh, g.sw), pd(g.ph, g.pw);
    std::shared_ptr<Layer> l;
    bool unit = g.sh == 1 && g.sw == 1, bare = g.ph == 0 && g.pw == 0;
    auto make = [&] (M::Shape3d in) -> std::shared_ptr<Layer> {
        if (mode == 0) return unit && bare && c.rng.chance(.5) ? std::make_shared<ConvolutionalLayer>("c", in, ks, g.f) : std::make_shared<ConvolutionalLayer>("", in, ks, g.f, st, pd);
        if (mode == 1) return unit && c.rng.chance(.5) ? std::make_shared<MaxPoolingLayer>("m", in, ks) : std::make_shared<MaxPoolingLayer>("", in, ks, st);
        return unit && c.rng.chance(.5) ? std::make_shared<AveragePoolingLayer>("a", in, ks) : std::make_shared<AveragePoolingLayer>("", in, ks, st); };
    l = make({ g.h, g.w, g.c });
    std::vector<double> k, bias; H::u64 h = g.hash();
    for (int round = 0; round < 3; ++round)
    {
        if (round && c.rng.chance(.5))
        {
            g.h = c.rng.size(std::max<std::size_t>(1, g.kh > 2 * g.ph ? g.kh - 2 * g.ph : 1), std::max<std::size_t>(9, g.kh)); g.w = c.rng.size(std::max<std::size_t>(1, g.kw > 2 * g.pw ? g.kw - 2 * g.pw : 1), std::max<std::size_t>(9, g.kw)); g.c = c.rng.size(1, 4);
            l->input_shape(LayerShape(M::Shape3d(g.h, g.w, g.c))); c.tag("resized");
        }
        auto ch = mode == 0 ? g.f : g.c;
        auto& os = l->output_shape().shape();
        c.ok(os.height() == g.oh() && os.width() == g.ow() && os.channels() == ch && l->output_size() == g.oh() * g.ow() * ch, "output-shape", [&] { return g.str() + H::str(": ", os.height(), "x", os.width(), "x", os.channels()); });
        auto& is = l->input_shape().shape();
        c.ok(is.height() == g.h && is.width() == g.w && is.channels() == g.c && l->input_size() == g.h * g.w * g.c, "input-shape");
        auto cs = mode == 0 ? ConvolutionalLayer::calculate_output_shape({ g.h, g.w, g.c }, ks, st, pd, g.f) : PoolingLayer::calculate_output_shape({ g.h, g.w, g.c }, ks, st);
        c.ok(cs.height() == g.oh() && cs.width() == g.ow() && cs.channels() == ch, "calculated-output-shape");
        auto np = mode == 0 ? g.kh * g.kw * g.c * g.f + g.f : 0;
        if (!c.ok(l->param_count() == np, "parameter-count", [&] { return g.str() + H::str(": ", l->param_count(), " instead of ", np); })) return;
        if (mode == 0)
        {
            k = values<double>(c.rng, np - g.f, true); bias = values<double>(c.rng, g.f, true);
            if (c.rng.chance(.2)) for (auto& b: bias) b = 0;
            for (std::size_t i = 0; i < k.size(); ++i) l->param(i) = k[i];
            for (std::size_t i = 0; i < g.f; ++i) l->param(k.size() + i) = bias[i];
            c.ok(H::throws([&] { l->param(np); }) && H::throws([&] { l->gradient(np); }), "parameter-outside");
        }
        else c.ok(H::throws([&] { l->param(0); }), "parameter-outside");
        auto x = values<double>(c.rng, g.h * g.w * g.c, true); auto x0 = x;
        std::vector<double> mag; auto want = define<double>(g, mode, x, k, bias, mag);
        bool train = c.rng.chance(.5);
        auto& out = train ? l->training_forward(x) : l->forward(x);
        if (!equal(c, mode == 0 ? "convolution-layer" : mode == 1 ? "max-pooling-layer" : "average-pooling-layer", g, out, want, mag)) return;
        auto first = out;
        c.ok(l->forward(x) == first, "not-repeatable");
        c.ok(x == x0 && l->last_output() == first, "inputs-changed");
        if (mode == 0) for (std::size_t i = 0; i < np; ++i) c.ok(l->param(i) == (i < k.size() ? k[i] : bias[i - k.size()]), "parameters-changed");
        h = H::comb(h, H::hash_vec(x));
        c.tag(mode == 0 ? "convolution-layer" : mode == 1 ? "max-pooling-layer" : "average-pooling-layer");
    }
    c.nontrivial(h);
}
}

int main(int argc, char** argv)
{
    return H::run(argc, argv, {
        { "kernels-double", 30000, 700000, kernel<double> },
        { "kernels-float", 6000, 150000, kernel<float> },
        { "layers", 16000, 400000, layer },
        { "wide", 60, 1500, [](H::Case& c) { WIDE = true; if (c.id % 2) kernel<double>(c); else layer(c); WIDE = false; c.tag("wide"); } },
        { "geometries", 81, 81, [](H::Case& c) {
            // Every small geometry once: the output shape and the window positions.
            Geo g; g.h = c.id / 9 + 1; g.w = c.id % 9 + 1; g.c = 1; g.f = 1;
            std::vector<double> x(g.h * g.w); for (std::size_t i = 0; i < x.size(); ++i) x[i] = double((i * 37) % 101) - 50;
            for (g.ph = 0; g.ph < 2; ++g.ph) for (g.pw = 0; g.pw < 2; ++g.pw)
            for (g.kh = 1; g.kh <= 3 && g.kh <= g.h + 2 * g.ph; ++g.kh) for (g.kw = 1; g.kw <= 3 && g.kw <= g.w + 2 * g.pw; ++g.kw)
            for (g.sh = 1; g.sh <= 3; ++g.sh) for (g.sw = 1; g.sw <= 3; ++g.sw)
            {
                std::vector<double> k(g.kh * g.kw); for (std::size_t i = 0; i < k.size(); ++i) k[i] = double(i) - 1.5;
                std::vector<double> mag; auto want = define<double>(g, 0, x, k, {}, mag);
                H::Guarded<double> dst(want.size());
                M::cross_correlation<double>(dst.data(), x.data(), M::Shape3d(g.h, g.w, 1), k.data(), M::Shape2d(g.kh, g.kw), 1, M::Shape2d(g.sh, g.sw), M::Shape2d(g.ph, g.pw));
                equal(c, "convolution", g, dst.vec(), want, mag); c.ok(dst.intact(), "writes-elsewhere", [&] { return g.str(); });
                if (!g.ph && !g.pw) for (int m: { 1, 2 })
                {
                    mag.clear(); want = define<double>(g, m, x, k, {}, mag); H::Guarded<double> d(want.size());
                    m == 1 ? M::max_pool<double>(d.data(), x.data(), M::Shape3d(g.h, g.w, 1), M::Shape2d(g.kh, g.kw), M::Shape2d(g.sh, g.sw)) : M::avg_pool<double>(d.data(), x.data(), M::Shape3d(g.h, g.w, 1), M::Shape2d(g.kh, g.kw), M::Shape2d(g.sh, g.sw));
                    equal(c, m == 1 ? "max-pooling" : "average-pooling", g, d.vec(), want, mag); c.ok(d.intact(), "writes-elsewhere", [&] { return g.str(); });
                }
                c.nontrivial(g.hash()); c.tag("geometry");
            } } },
    });
}
