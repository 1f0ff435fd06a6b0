// C13: activation kernels and layers against their definitions in long double.
#include "h.hpp"
#include "dnn/dlmath.hpp"
#include "dnn/activation.hpp"
using namespace EdgeLearning;
using M = DLMath;
typedef long double L;

namespace {

template<class V> std::vector<V> input(H::Rng& r, std::size_t n, bool any)
{
    std::vector<V> v(n);
    int style = int(r.below(any ? 8 : 4));
    for (auto& x: v)
    {
        double d = 0;
        switch (style)
        {
            case 0: d = r.uni(-1, 1); break;
            case 1: d = r.uni(-8, 8); break;
            case 2: d = r.chance(.3) ? 0. : r.chance(.2) ? -0. : double(r.range(-3, 3)); break;
            case 3: d = r.uni(-1, 1) * std::pow(10, -r.uni(0, sizeof(V) == 4 ? 30 : 290)); break;
            case 4: d = r.uni(-1, 1) * std::pow(10, r.uni(0, sizeof(V) == 4 ? 37 : 300)); break;
            case 5: d = r.pick({ 709.7, -745., 88., -103., 40., -40., 1e5, -1e5, 0., 1e-16, -1e-16 }); break;
            case 6: d = -r.uni(0, 50); break;
            case 7: d = r.chance(.5) ? r.uni(-2, 2) : r.uni(-1, 1) * 1000; break;
        }
        x = V(d);
    }
    return v;
}
L sigm(L x) { return x >= 0 ? 1 / (1 + std::exp(-x)) : std::exp(x) / (1 + std::exp(x)); }
template<class V> std::vector<L> soft(const std::vector<V>& x)
{
    L m = x[0]; for (auto v: x) m = std::max<L>(m, v);
    std::vector<L> r; L s = 0; for (auto v: x) { r.push_back(std::exp(L(v) - m)); s += r.back(); }
    for (auto& v: r) v /= s; return r;
}

template<class V> bool near(H::Case& c, const char* key, const V* got, const std::vector<L>& want, const std::vector<V>& in, double abs, double rel)
{
    for (std::size_t i = 0; i < want.size(); ++i)
    {
        double w = double(want[i]), g = double(got[i]);
        bool ok = std::isfinite(g) && std::fabs(g - w) <= abs + rel * std::fabs(w);
        if (!c.ok(ok, key, [&] { return H::str("element ", i, " of ", want.size(), " (input ", double(in[i]), ") is ", g, " instead of ", w); })) return false;
    }
    return true;
}

template<class V> struct Fn
{
    const char* name;
    std::function<V(V)> one; std::function<V*(V*, const V*, SizeType)> all;
    std::function<L(L)> def;
    bool of_output; std::function<L(L)> pre;       ///< The function whose output the optimised derivative takes.
    double lo, hi, abs;
};

template<class V> void kernels(H::Case& c)
{
    const double e = sizeof(V) == 4 ? 2e-6 : 1e-14;
    auto n = c.rng.chance(.1) ? 1 : c.rng.far(1, 200, 5000); if (n > 1000) c.tag("long-vector");
    V a = V(c.rng.chance(.3) ? 1. : c.rng.uni(.01, 3));
    auto x = input<V>(c.rng, n, true);
    const double inf = std::numeric_limits<double>::infinity(), least = 64. * double(std::numeric_limits<V>::min());      // below, 1/x may have overflowed
    std::vector<Fn<V>> fs {
        { "relu", [](V v) { return M::relu(v); }, [](V* d, const V* s, SizeType l) { return M::relu(d, s, l); }, [](L v) { return v > 0 ? v : L(0); }, false, {}, 0, inf, 0 },
        { "relu'", [](V v) { return M::relu_1(v); }, [](V* d, const V* s, SizeType l) { return M::relu_1(d, s, l); }, [](L v) { return v > 0 ? L(1) : L(0); }, false, {}, 0, 1, 0 },
        { "elu", [a](V v) { return M::elu(v, a); }, [a](V* d, const V* s, SizeType l) { return M::elu(d, s, l, a); }, [a](L v) { return v > 0 ? v : L(a) * std::expm1(v); }, false, {}, -double(a), inf, e * a },
        { "elu'", [a](V v) { return M::elu_1(v, a); }, [a](V* d, const V* s, SizeType l) { return M::elu_1(d, s, l, a); }, [a](L v) { return v > 0 ? L(1) : L(a) * std::exp(v); }, false, {}, 0, std::max(1., double(a)), least },
        { "elu'-of-output", [a](V v) { return M::elu_1_opt(v, a); }, [a](V* d, const V* s, SizeType l) { return M::elu_1_opt(d, s, l, a); }, [a](L v) { return v > 0 ? L(1) : L(a) * std::exp(v); }, true, [a](L v) { return v > 0 ? v : L(a) * std::expm1(v); }, 0, std::max(1., double(a)), e * a },
        { "tanh", [](V v) { return M::tanh(v); }, [](V* d, const V* s, SizeType l) { return M::tanh(d, s, l); }, [](L v) { return std::tanh(v); }, false, {}, -1, 1, least },
        { "tanh'", [](V v) { return M::tanh_1(v); }, [](V* d, const V* s, SizeType l) { return M::tanh_1(d, s, l); }, [](L v) { return 1 - std::tanh(v) * std::tanh(v); }, false, {}, 0, 1, e },
        { "tanh'-of-output", [](V v) { return M::tanh_1_opt(v); }, [](V* d, const V* s, SizeType l) { return M::tanh_1_opt(d, s, l); }, [](L v) { return 1 - std::tanh(v) * std::tanh(v); }, true, [](L v) { return std::tanh(v); }, 0, 1, e },
        { "sigmoid", [](V v) { return M::sigmoid(v); }, [](V* d, const V* s, SizeType l) { return M::sigmoid(d, s, l); }, sigm, false, {}, 0, 1, least },
        { "sigmoid'", [](V v) { return M::sigmoid_1(v); }, [](V* d, const V* s, SizeType l) { return M::sigmoid_1(d, s, l); }, [](L v) { return sigm(v) * sigm(-v); }, false, {}, 0, .25, e },
        { "sigmoid'-of-output", [](V v) { return M::sigmoid_1_opt(v); }, [](V* d, const V* s, SizeType l) { return M::sigmoid_1_opt(d, s, l); }, [](L v) { return sigm(v) * sigm(-v); }, true, sigm, 0, .25, e },
    };
    for (auto& f: fs)
    {
        std::vector<L> want; std::vector<V> in = x;
        for (std::size_t i = 0; i < n; ++i) { want.push_back(f.def(x[i])); if (f.of_output) in[i] = V(f.pre(x[i])); }
        H::Guarded<V> src(in), dst(n);
        auto* ret = f.all(dst.data(), src.data(), n);
        c.ok(ret == dst.data(), f.name);
        if (!near(c, f.name, dst.data(), want, in, f.abs, e)) return;
        for (std::size_t i = 0; i < n; ++i)
        {
            c.ok(double(dst[i]) >= f.lo - e && double(dst[i]) <= f.hi + e, "range", [&] { return H::str(f.name, " of ", double(in[i]), " is ", double(dst[i])); });
            c.ok(H::same(double(f.one(in[i])), double(dst[i])) || H::close(double(f.one(in[i])), double(dst[i]), e, 1), "scalar-and-vector-differ", [&] { return f.name; });
        }
        c.ok(src.vec() == in && src.intact() && dst.intact(), "writes-elsewhere", [&] { return f.name; });
        auto first = dst.vec();
        f.all(src.data(), src.data(), n);
        c.ok(src.vec() == first && src.intact(), "in-place", [&] { return f.name; });
        c.tag(f.name);
    }
    { // Softmax.
        auto s = soft(x);
        H::Guarded<V> src(x), dst(n);
        M::stable_softmax(dst.data(), src.data(), n);
        V big = 0; for (auto v: x) big = std::max<V>(big, std::fabs(v));
        near(c, "stable-softmax", dst.data(), s, x, e, e * double(n));
        double sum = 0; for (std::size_t i = 0; i < n; ++i) { sum += double(dst[i]); c.ok(dst[i] >= 0 && dst[i] <= 1 + e, "stable-softmax-range"); }
        c.ok(std::fabs(sum - 1) <= e * double(n), "stable-softmax-sum", [&] { return H::str(sum); });
        c.ok(src.vec() == x && src.intact() && dst.intact(), "writes-elsewhere", [&] { return "stable-softmax"; });
        M::stable_softmax_no_check(src.data(), src.data(), n);
        c.ok(src.vec() == dst.vec() && src.intact(), "in-place", [&] { return "stable-softmax"; });
        c.tag(big > 1e4 ? "stable-softmax-huge" : "stable-softmax");
        c.ok(H::throws([&] { M::stable_softmax<V>(dst.data(), nullptr, n); }), "stable-softmax-null");
    }
    {
        auto y = x; for (auto& v: y) v = std::max(V(-60), std::min(V(60), v));
        auto s = soft(y);
        H::Guarded<V> src(y), dst(n);
        M::softmax(dst.data(), src.data(), n);
        near(c, "softmax", dst.data(), s, y, e, e * double(n));
        c.ok(src.vec() == y && src.intact() && dst.intact(), "writes-elsewhere", [&] { return "softmax"; });
        M::softmax(src.data(), src.data(), n);
        c.ok(src.vec() == dst.vec() && src.intact(), "in-place", [&] { return "softmax"; });
        // Jacobian product.
        auto g = c.rng.vec(n, -3, 3); std::vector<V> gv(g.begin(), g.end());
        L dot = 0; for (std::size_t i = 0; i < n; ++i) dot += s[i] * L(gv[i]);
        std::vector<L> want; for (std::size_t i = 0; i < n; ++i) want.push_back(s[i] * (L(gv[i]) - dot));
        std::vector<V> sv; for (auto v: s) sv.push_back(V(v));
        H::Guarded<V> so(sv), gr(gv), d1(n), d2(n), y2(y);
        M::softmax_1_opt(d1.data(), so.data(), gr.data(), n);
        M::softmax_1(d2.data(), y2.data(), gr.data(), n);
        near(c, "softmax'-of-output", d1.data(), want, y, 8 * e, 8 * e);
        near(c, "softmax'", d2.data(), want, y, 8 * e, 8 * e);
        c.ok(so.vec() == sv && gr.vec() == gv && y2.vec() == y && so.intact() && gr.intact() && d1.intact() && d2.intact() && y2.intact(), "writes-elsewhere", [&] { return "softmax'"; });
        c.ok(H::throws([&] { M::softmax_1_opt(so.data(), so.data(), gr.data(), n); }) && so.vec() == sv, "softmax'-same-buffer-accepted");
        M::softmax_1(y2.data(), y2.data(), gr.data(), n);
        near(c, "softmax'-in-place", y2.data(), want, y, 8 * e, 8 * e);
        c.tag("softmax'");
    }
    c.nontrivial(H::hash_vec(x));
    c.sample("x = " + H::vstr(std::vector<double>(x.begin(), x.end()), 6));
}

std::shared_ptr<Layer> layer(H::Rng& r, int kind, std::size_t n, double a)
{
    (void) r;
    switch (kind)
    {
        case 0: return std::make_shared<ReluLayer>("", n);
        case 1: return std::make_shared<EluLayer>("e", n, a);
        case 2: return std::make_shared<SoftmaxLayer>("s", n);
        case 3: return std::make_shared<TanhLayer>("t", n);
        case 4: return std::make_shared<SigmoidLayer>("g", n);
    }
    return std::make_shared<LinearLayer>("l", n);
}

void layers(H::Case& c)
{
    int kind = int(c.rng.below(6));
    auto n = c.rng.chance(.1) ? 1 : c.rng.far(1, 40, 3000);
    double a = c.rng.chance(.3) ? 1. : c.rng.uni(.01, 3);
    auto l = layer(c.rng, kind, n, a);
    if (c.rng.chance(.3)) { auto m = c.rng.far(1, 50, 2000); l->input_shape(LayerShape(m)); n = m; c.tag("resized"); }
    c.ok(l->input_size() == n && l->output_size() == n, "layer-size");
    std::vector<double> x, out, kept; std::shared_ptr<Layer> twin; std::vector<double> twin_out;
    H::u64 h = H::u64(kind);
    auto expect = [&] (const std::vector<double>& v) {
        std::vector<L> w; auto s = soft(v);
        for (std::size_t i = 0; i < v.size(); ++i)
        {
            L z = v[i];
            w.push_back(kind == 0 ? (z > 0 ? z : 0) : kind == 1 ? (z > 0 ? z : L(a) * std::expm1(z)) : kind == 2 ? s[i] : kind == 3 ? std::tanh(z) : kind == 4 ? sigm(z) : z);
        }
        return w; };
    for (auto k = c.rng.size(1, 5); k; --k)
    {
        auto y = input<double>(c.rng, n, true); auto y0 = y;
        if (c.rng.chance(.3))
        {
            auto& o = l->forward(y);
            near(c, "layer-inference", o.data(), expect(y), y, 1e-13, 1e-12 * double(n));
            c.ok(o.size() == n && y == y0 && l->last_output() == o, "layer-inference-size");
            c.tag("layer-inference"); continue;
        }
        x = y;
        auto& o = l->training_forward(x);
        auto w = expect(x);
        near(c, "layer-output", o.data(), w, x, 1e-13, 1e-12 * double(n));
        c.ok(o.size() == n && l->last_output() == o && l->last_input() == y0, "layer-last-input-output");
        if (twin) c.ok(twin->last_output() == twin_out, "clone-output-changed");
        if (c.rng.chance(.2)) { twin = l->clone(); twin_out = twin->last_output(); c.tag("cloned"); }
        auto g = c.rng.vec(n, -2, 2); auto g0 = g; auto o0 = o;
        auto& d = l->backward(g);
        L dot = 0; auto s = soft(x); for (std::size_t i = 0; i < n; ++i) dot += s[i] * g[i];
        std::vector<L> dw;
        for (std::size_t i = 0; i < n; ++i)
        {
            L z = x[i];
            dw.push_back(kind == 2 ? s[i] * (g[i] - dot) : g[i] * (kind == 0 ? (z > 0 ? 1 : 0) : kind == 1 ? (z > 0 ? 1 : L(a) * std::exp(z)) : kind == 3 ? 1 - std::tanh(z) * std::tanh(z) : kind == 4 ? sigm(z) * sigm(-z) : L(1)));
        }
        near(c, "layer-gradient", d.data(), dw, x, 1e-12, 1e-11);
        c.ok(d.size() == n && l->last_input_gradient() == d, "layer-last-input-gradient");
        c.ok(g == g0 && x == y0 && l->last_output() == o0, "layer-backward-changes-operands");
        c.tag("layer-" + l->type());
        h = H::comb(h, H::hash_vec(x));
    }
    c.ok(l->param_count() == 0 && H::throws([&] { l->param(0); }) && H::throws([&] { l->gradient(0); }), "layer-without-parameters");
    c.nontrivial(h);
}
}

namespace {
/// Layers of more than 65536 values.
void lengthy(H::Case& c)
{
    auto& r = c.rng; int kind = int(c.id % 6); auto n = r.size(66000, 140000); double a = r.uni(.1, 2);
    auto l = layer(r, kind, n, a); auto x = r.vec(n, -5, 5), g = r.vec(n, -2, 2);
    std::vector<L> w, dw; auto s = soft(x);
    for (std::size_t i = 0; i < n; ++i)
    {
        L z = x[i];
        w.push_back(kind == 0 ? (z > 0 ? z : 0) : kind == 1 ? (z > 0 ? z : L(a) * std::expm1(z)) : kind == 2 ? s[i] : kind == 3 ? std::tanh(z) : kind == 4 ? sigm(z) : z);
        dw.push_back(g[i] * (kind == 0 ? (z > 0 ? 1 : 0) : kind == 1 ? (z > 0 ? 1 : L(a) * std::exp(z)) : kind == 3 ? 1 - std::tanh(z) * std::tanh(z) : kind == 4 ? sigm(z) * sigm(-z) : L(1)));
    }
    auto& o = r.chance(.5) || kind != 2 ? l->training_forward(x) : l->forward(x); c.must(o.size() == n, "layer-output-size");
    near(c, "layer-output", o.data(), w, x, 1e-13, 1e-10);
    if (kind != 2) { auto& d = l->backward(g); c.must(d.size() == n, "layer-gradient-size"); near(c, "layer-gradient", d.data(), dw, x, 1e-12, 1e-11); }
    c.tag("lengthy"); c.nontrivial(H::hash_vec(x));
}
/// The infinities have limits, the linear layer hands on everything, and an odd value stays in its place.
void special(H::Case& c)
{
    auto& r = c.rng; int kind = int(r.pick({ 0, 1, 3, 4, 5, 5, 2 })); auto n = r.size(2, 12); double a = r.uni(.1, 2);
    const double inf = std::numeric_limits<double>::infinity(), nan = std::numeric_limits<double>::quiet_NaN();
    auto l = layer(r, kind, n, a); auto x = r.vec(n, -3, 3);
    for (auto& v: x) if (r.chance(.3)) v = kind == 2 ? -inf : r.pick({ inf, -inf, nan });
    if (kind == 2) x[r.below(n)] = r.uni(-3, 3);
    auto& o = r.chance(.5) ? l->forward(x) : l->training_forward(x); c.must(o.size() == n, "layer-output-size");
    std::vector<L> s; if (kind == 2) s = soft(x);
    for (std::size_t i = 0; i < n; ++i)
    {
        double z = x[i], g = o[i], w = 0;
        if (kind == 5) { c.ok(H::same(g, z) || (g != g && z != z), "linear-not-identity", [&] { return H::str(z, " became ", g); }); c.tag("special-linear"); continue; }
        if (z != z) continue;
        switch (kind) { case 0: w = z > 0 ? z : 0; break; case 1: w = z > 0 ? z : a * std::expm1(z); break; case 2: w = double(s[i]); break; case 3: w = std::tanh(z); break; case 4: w = double(sigm(L(z))); if (z == inf) w = 1; if (z == -inf) w = 0; break; }
        c.ok(g == w || H::close(g, w, 1e-12, 1e-13), "limit", [&] { return H::str(l->type(), " of ", z, " is ", g, " instead of ", w); });
        if (std::isinf(z)) c.tag("special-infinite");
    }
    c.nontrivial(H::comb(H::hash_vec(x), unsigned(kind)));
}
}

int main(int argc, char** argv)
{
    return H::run(argc, argv, {
        { "kernels-double", 6000, 150000, kernels<double> },
        { "kernels-float", 2500, 60000, kernels<float> },
        { "layers", 16000, 400000, layers },
        { "lengthy", 30, 600, lengthy },
        { "special", 3000, 60000, special },
        { "grid", 40, 40, [](H::Case& c) {
            // A dense grid of single values, around zero and around the overflow edges.
            std::vector<double> v; double from = (double(c.id) - 20) * 40;
            for (int i = 0; i < 500; ++i) v.push_back(from + i * .08);
            for (auto x: v)
            {
                double y[9] = { M::relu(x), M::elu(x, 1.), M::tanh(x), M::sigmoid(x), M::relu_1(x), M::elu_1(x, 1.), M::tanh_1(x), M::sigmoid_1(x), 0 };
                L t = std::tanh(L(x)), s = sigm(x);
                L w[8] = { std::max<L>(0, x), x > 0 ? L(x) : std::expm1(L(x)), t, s, x > 0 ? L(1) : L(0), x > 0 ? L(1) : std::exp(L(x)), 1 - t * t, s * sigm(-x) };
                for (int k = 0; k < 8; ++k) c.ok(H::close(y[k], double(w[k]), 1e-13, 1), "grid", [&] { return H::str("function ", k, " of ", x, " is ", y[k], " instead of ", double(w[k])); });
                c.nontrivial(H::hash_bytes(&x, 8));
            }
            c.tag("grid"); } },
    });
}
