// Random layers and chain models, with the loss written out again.
#ifndef VERIF_NET_HPP
#define VERIF_NET_HPP

#include "h.hpp"
#include "dnn/activation.hpp"
#include "dnn/adam_optimizer.hpp"
#include "dnn/avg_pooling.hpp"
#include "dnn/cce_loss.hpp"
#include "dnn/convolutional.hpp"
#include "dnn/dense.hpp"
#include "dnn/dropout.hpp"
#include "dnn/gd_optimizer.hpp"
#include "dnn/max_pooling.hpp"
#include "dnn/model.hpp"
#include "dnn/mse_loss.hpp"
#include "dnn/recurrent.hpp"

namespace N {

using namespace EdgeLearning;
using Vec = std::vector<double>;
using P = Layer::SharedPtr;

struct Img { std::size_t h, w, c; std::size_t size() const { return h * w * c; } };

/// What one layer is, independent of the layer object.
struct Desc
{
    enum Kind { Dense, Relu, Elu, Softmax, Tanh, Sigmoid, Linear, Conv, MaxPool, AvgPool, Dropout } kind;
    Img in, out; double alpha = 1; std::size_t kh = 1, kw = 1, f = 1, sh = 1, sw = 1, ph = 0, pw = 0; double p = .5; unsigned seed = 1;
    std::string name;
    bool image() const { return kind == Conv || kind == MaxPool || kind == AvgPool; }
    std::string str() const
    {
        static const char* n[] = { "Dense", "Relu", "Elu", "Softmax", "Tanh", "Sigmoid", "Linear", "Conv", "MaxPool", "AvgPool", "Dropout" };
        std::string r = H::str(n[kind], "(", in.h, "x", in.w, "x", in.c, "->", out.h, "x", out.w, "x", out.c);
        if (image()) r += H::str(" k", kh, "x", kw, " s", sh, "x", sw, " p", ph, "x", pw);
        if (kind == Dropout) r += H::str(" p=", p);
        return r + ")";
    }
};

inline P make(const Desc& d)
{
    DLMath::Shape3d in(d.in.h, d.in.w, d.in.c);
    DLMath::Shape2d k(d.kh, d.kw), s(d.sh, d.sw), p(d.ph, d.pw);
    switch (d.kind)
    {
        case Desc::Dense: return std::make_shared<DenseLayer>(d.name, d.in.size(), d.out.size());
        case Desc::Relu: return std::make_shared<ReluLayer>(d.name, d.in.size());
        case Desc::Elu: return std::make_shared<EluLayer>(d.name, d.in.size(), d.alpha);
        case Desc::Softmax: return std::make_shared<SoftmaxLayer>(d.name, d.in.size());
        case Desc::Tanh: return std::make_shared<TanhLayer>(d.name, d.in.size());
        case Desc::Sigmoid: return std::make_shared<SigmoidLayer>(d.name, d.in.size());
        case Desc::Linear: return std::make_shared<LinearLayer>(d.name, d.in.size());
        case Desc::Conv: return std::make_shared<ConvolutionalLayer>(d.name, in, k, d.f, s, p);
        case Desc::MaxPool: return std::make_shared<MaxPoolingLayer>(d.name, in, k, s);
        case Desc::AvgPool: return std::make_shared<AveragePoolingLayer>(d.name, in, k, s);
        case Desc::Dropout: return std::make_shared<DropoutLayer>(d.name, d.in.size(), d.p, RneType(d.seed));
    }
    return nullptr;
}
inline P add(Model& m, const Desc& d)
{
    DLMath::Shape3d in(d.in.h, d.in.w, d.in.c);
    DLMath::Shape2d k(d.kh, d.kw), s(d.sh, d.sw), p(d.ph, d.pw);
    switch (d.kind)
    {
        case Desc::Dense: return m.add_layer<DenseLayer>(d.name, d.in.size(), d.out.size());
        case Desc::Relu: return m.add_layer<ReluLayer>(d.name, d.in.size());
        case Desc::Elu: return m.add_layer<EluLayer>(d.name, d.in.size(), d.alpha);
        case Desc::Softmax: return m.add_layer<SoftmaxLayer>(d.name, d.in.size());
        case Desc::Tanh: return m.add_layer<TanhLayer>(d.name, d.in.size());
        case Desc::Sigmoid: return m.add_layer<SigmoidLayer>(d.name, d.in.size());
        case Desc::Linear: return m.add_layer<LinearLayer>(d.name, d.in.size());
        case Desc::Conv: return m.add_layer<ConvolutionalLayer>(d.name, in, k, d.f, s, p);
        case Desc::MaxPool: return m.add_layer<MaxPoolingLayer>(d.name, in, k, s);
        case Desc::AvgPool: return m.add_layer<AveragePoolingLayer>(d.name, in, k, s);
        case Desc::Dropout: return m.add_layer<DropoutLayer>(d.name, d.in.size(), d.p, RneType(d.seed));
    }
    return nullptr;
}

/// A random layer taking an image (h x w x c); flat inputs are n x 1 x 1.
inline Desc random_layer(H::Rng& r, Img in, std::size_t max_out = 6, bool images = true, bool dense = true)
{
    Desc d; d.in = in; d.out = in;
    bool spatial = images && in.size() > 1 && r.chance(in.w > 1 || in.c > 1 ? .65 : .1);
    if (spatial)
    {
        d.kind = r.pick({ Desc::Conv, Desc::Conv, Desc::MaxPool, Desc::AvgPool });
        std::size_t kmax = in.h > 6 || in.w > 6 ? 6 : 3;
        d.kh = r.size(1, std::min(kmax, in.h)); d.kw = r.size(1, std::min(kmax, in.w));
        d.sh = r.far(1, 3, 6); d.sw = r.far(1, 3, 6);
        if (d.kind == Desc::Conv) { d.f = r.far(1, 3, 12); if (r.chance(.5)) { d.ph = r.size(0, 2); d.pw = r.size(0, 2); } }
        d.out.h = (in.h + 2 * d.ph - d.kh) / d.sh + 1; d.out.w = (in.w + 2 * d.pw - d.kw) / d.sw + 1;
        d.out.c = d.kind == Desc::Conv ? d.f : in.c;
        return d;
    }
    if (dense && r.chance(.45)) { d.kind = Desc::Dense; d.out = Img{ r.far(1, max_out, max_out * 10), 1, 1 }; return d; }
    d.kind = r.pick({ Desc::Relu, Desc::Elu, Desc::Softmax, Desc::Tanh, Desc::Sigmoid, Desc::Linear });
    d.alpha = r.pick({ 1., .5, 2., r.uni(.01, 3) });
    return d;
}
inline Img random_image(H::Rng& r)
{ return r.chance(.5) ? Img{ r.far(1, 8, 150), 1, 1 } : Img{ r.far(1, 5, 14), r.far(1, 5, 14), r.far(1, 3, 9) }; }

struct Chain
{
    Img in; std::vector<Desc> layers; bool cce = false; std::size_t batch = 1; double tolerance = .1;
    std::size_t out() const { return layers.empty() ? in.size() : layers.back().out.size(); }
    std::string str() const
    { std::string r; for (auto& d: layers) r += d.str() + " "; return r + (cce ? "CCE" : "MSE") + H::str("/", batch); }
    H::u64 hash() const { return H::hash_str(str()); }
};
struct Opts { std::size_t max_layers = 5; bool images = true; double dropout = 0; bool learnable = false; bool smooth = false; };
inline Chain random_chain(H::Rng& r, Opts o = {})
{
    Chain c; c.in = o.images ? random_image(r) : Img{ r.far(1, 8, 100), 1, 1 }; Img cur = c.in;
    auto n = r.far(1, o.max_layers, o.max_layers * 4);
    for (std::size_t i = 0; i < n; ++i)
    {
        Desc d;
        if (o.dropout > 0 && r.chance(o.dropout))
        { d.kind = Desc::Dropout; d.in = d.out = cur; d.p = r.uni(.1, .9); d.seed = unsigned(r.next() | 1); }
        else d = random_layer(r, cur, 6, o.images);
        if (o.smooth) while (d.kind == Desc::Relu || d.kind == Desc::Elu || d.kind == Desc::MaxPool) d = random_layer(r, cur, 6, o.images);
        d.name = H::str("l", i, "_", r.below(1000));
        cur = d.out; c.layers.push_back(d);
    }
    c.cce = r.chance(.4);
    if (c.cce && (c.layers.empty() || c.layers.back().kind != Desc::Softmax))
    { Desc d; d.kind = Desc::Softmax; d.in = d.out = cur; d.name = "out"; c.layers.push_back(d); }
    if (o.learnable && std::none_of(c.layers.begin(), c.layers.end(), [](const Desc& d) { return d.kind == Desc::Dense || d.kind == Desc::Conv; }))
    { Desc d; d.kind = Desc::Dense; d.in = c.in; d.out = c.in; d.name = "first"; c.layers.insert(c.layers.begin(), d); }
    c.batch = r.chance(.4) ? 1 : r.size(1, 8); c.tolerance = r.uni(.01, 1);
    return c;
}

/// The real model of a chain; layers in order, the loss last.
inline Model build(const Chain& c, const std::string& name = "m")
{
    Model m(name);
    std::vector<P> l;
    for (auto& d: c.layers) l.push_back(add(m, d));
    for (std::size_t i = 0; i + 1 < l.size(); ++i) m.create_edge(l[i], l[i + 1]);
    std::shared_ptr<LossLayer> loss;
    if (c.cce) loss = m.add_loss<CategoricalCrossEntropyLossLayer>("loss", c.out(), c.batch);
    else loss = m.add_loss<MeanSquaredLossLayer>("loss", c.out(), c.batch, c.tolerance);
    m.create_loss_edge(l.back(), loss);
    return m;
}

inline void randomize(Layer& l, H::Rng& r, double s = 1)
{ for (std::size_t i = 0; i < l.param_count(); ++i) l.param(i) = r.uni(-s, s); }
inline void randomize(Model& m, H::Rng& r, double s = 1) { for (auto& l: m.layers()) randomize(*l, r, s); }
inline Vec params(Layer& l) { Vec v; for (std::size_t i = 0; i < l.param_count(); ++i) v.push_back(l.param(i)); return v; }
inline Vec grads(Layer& l) { Vec v; for (std::size_t i = 0; i < l.param_count(); ++i) v.push_back(l.gradient(i)); return v; }
inline Vec params(const Model& m) { Vec v; for (auto& l: m.layers()) { auto p = params(*l); v.insert(v.end(), p.begin(), p.end()); } return v; }
inline Vec grads(const Model& m) { Vec v; for (auto& l: m.layers()) { auto p = grads(*l); v.insert(v.end(), p.begin(), p.end()); } return v; }

inline Vec target(H::Rng& r, const Chain& c)
{
    Vec t(c.out(), 0.);
    if (!c.cce) { for (auto& x: t) x = r.uni(-1.5, 1.5); return t; }
    if (r.chance(.7)) { t[r.below(t.size())] = 1; return t; }
    double s = 0; for (auto& x: t) s += x = r.uni(.01, 1);
    for (auto& x: t) x /= s;
    return t;
}
/// The function whose gradient one step produces: cross-entropy, or the sum of squares, over the batch size.
inline long double objective(const Chain& c, const Vec& y, const Vec& t)
{
    long double s = 0;
    for (std::size_t i = 0; i < y.size(); ++i)
    {
        if (c.cce) { if (t[i] != 0) s -= (long double) t[i] * std::log(std::max((long double) y[i], (long double) std::numeric_limits<double>::min())); }
        else { long double e = (long double) t[i] - y[i]; s += e * e; }
    }
    return s / (long double) c.batch;
}

/// Derivative of f at x by differences, or not available where f is not smooth enough.
struct Slope { bool ok; double d, err; };
template<class F> Slope slope(double& x, F&& f)
{
    const double x0 = x, h = 1e-4 * std::max(1., std::fabs(x0) * .1);
    auto at = [&](double dx) { x = x0 + dx; return f(); };
    long double f0 = at(0), p1 = at(h), m1 = at(-h), p2 = at(h / 2), m2 = at(-h / 2);
    x = x0; f();
    long double a = (p1 - m1) / (2 * h), b = (p2 - m2) / h;
    long double rp = (p2 - f0) / (h / 2), rm = (f0 - m2) / (h / 2);
    long double mag = std::max({ std::fabs(f0), std::fabs(p1), std::fabs(m1) });
    long double d = (4 * b - a) / 3;
    // Kinks between the points show as second differences that disagree.
    long double bend = std::fabs((p1 - 2 * f0 + m1) / h - (p2 - 2 * f0 + m2) * 4 / h);
    Slope s{ true, double(d), double(3 * std::fabs(a - b) + 2 * bend + 1e-11L * (1 + mag) + 1e-7L * std::fabs(d)) };
    if (!std::isfinite(s.d) || std::fabs(a - b) > 1e-4L * (1 + std::fabs(b)) || std::fabs(rp - rm) > 3e-2L * (.03L + std::fabs(b))) s.ok = false;
    return s;
}

} // namespace N

#endif
