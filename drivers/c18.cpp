// C18: gradients of layers and chains against finite differences of the real forward pass.
#include "net.hpp"
using namespace N;

namespace {
double slack = 1e-9;     // rounding of the forward pass shows in the quotients of large layers
/// Gradients got against slopes of f; kinks are skipped and counted.
template<class F> void compare(H::Case& c, const char* key, Vec& x, const Vec& got, F&& f, double scale = 1)
{
    for (auto i: H::some(c.rng, x.size(), 60))
    {
        auto s = slope(x[i], f);
        if (!s.ok) { c.tag("kink"); continue; }
        c.ok(std::fabs(s.d - got[i] / scale) <= s.err + slack, key, [&] { return H::str("element ", i, " of ", x.size(), ": gradient ", got[i] / scale, ", difference quotient ", s.d, " +- ", s.err); });
        c.tag(s.d == 0 ? "zero-slope" : "slope");
    }
}
/// As compare, but the variables are the layer's own parameters.
template<class F> void compare_params(H::Case& c, const char* key, Layer& l, const Vec& got, F&& f)
{
    for (auto i: H::some(c.rng, l.param_count(), l.input_size() > 80 ? 40 : 80))
    {
        auto s = slope(l.param(i), f);
        if (!s.ok) { c.tag("kink"); continue; }
        c.ok(std::fabs(s.d - got[i]) <= s.err + slack, key, [&] { return H::str(l.type(), " parameter ", i, " of ", l.param_count(), ": gradient ", got[i], ", difference quotient ", s.d, " +- ", s.err); });
        c.tag(s.d == 0 ? "zero-slope" : "slope");
    }
}
bool near(const Vec& a, const Vec& b) { if (a.size() != b.size()) return false; for (std::size_t i = 0; i < a.size(); ++i) if (!H::close(a[i], b[i], 1e-11, 1e-3)) return false; return true; }
const char* kind_tag(const Desc& d)
{
    static const char* n[] = { "Dense", "Relu", "Elu", "Softmax", "Tanh", "Sigmoid", "Linear", "Conv", "MaxPool", "AvgPool", "Dropout" };
    return n[d.kind];
}

/// One layer on its own, with an arbitrary gradient from behind.
void layer(H::Case& c)
{
    auto& r = c.rng;
    Desc d = random_layer(r, random_image(r)); P l;
    bool large = std::max(d.in.size(), d.out.size()) > 80; slack = large ? 1e-6 : 1e-9; if (large) c.tag("large-layer");
    if (r.chance(.3))       // built for another size, then set to this one
    {
        Desc o = d; if (!d.image()) o.in = Img{ r.size(1, 9), 1, 1 };
        else o.in = Img{ d.kh + r.size(0, 3), d.kw + r.size(0, 3), r.size(1, 3) };
        if (d.kind != Desc::Dense) o.out = o.in;
        l = make(o); l->input_shape(LayerShape(DLMath::Shape3d(d.in.h, d.in.w, d.in.c))); c.tag("resized");
    }
    else l = make(d);
    if (r.chance(.2)) { auto k = l->clone(); if (r.chance(.5)) l = k; c.tag("cloned"); }
    c.must(l->input_size() == d.in.size() && l->output_size() == d.out.size(), "sizes", [&] { return H::str(d.str(), " has sizes ", l->input_size(), " ", l->output_size()); });
    double s = r.pick({ .1, 1., 1., 4. });
    randomize(*l, r, s);
    Vec p0 = params(*l), sum(l->param_count(), 0.);
    auto steps = r.size(1, 3);
    for (std::size_t k = 0; k < steps; ++k)
    {
        Vec x = r.vec(d.in.size(), -s, s), g = r.vec(d.out.size(), -2, 2);
        if (k && r.chance(.3)) { Vec z = r.vec(d.in.size(), -1, 1); Vec gi = l->last_input_gradient(), pg = grads(*l); l->forward(z); c.ok(l->last_input_gradient() == gi && grads(*l) == pg, "inference-changes-gradients"); c.tag("inference-between"); }
        Vec x0 = x, g0 = g;
        l->training_forward(x);
        const Vec& ret = l->backward(g);
        c.must(ret.size() == x.size() && l->last_input_gradient() == ret, "input-gradient-size", [&] { return H::str(d.str(), ": ", ret.size(), " for ", x.size()); });
        c.ok(x == x0 && g == g0, "operands-changed"); c.ok(params(*l) == p0, "parameters-changed");
        Vec gi = ret, pg = grads(*l);
        auto f = [&] { const Vec& y = l->forward(x); long double v = 0; for (std::size_t i = 0; i < y.size(); ++i) v += (long double) y[i] * g[i]; return v; };
        std::string ki = H::str("layer-input-gradient:", kind_tag(d)), kp = H::str("layer-parameter-gradient:", kind_tag(d));
        compare(c, ki.c_str(), x, gi, f);
        // What this step added to the parameter gradients.
        Vec add(pg); for (std::size_t i = 0; i < add.size(); ++i) add[i] -= sum[i];
        compare_params(c, kp.c_str(), *l, add, f);
        c.ok(grads(*l) == pg && l->last_input_gradient() == gi, "inference-changes-gradients", [&] { return d.str(); });
        sum = pg;
        if (k) c.tag("accumulated");
        c.nontrivial(H::comb(H::hash_str(d.str()), H::hash_vec(x)));
        if (r.chance(.25) && l->param_count())
        {
            GradientDescentOptimizer o(1e-2); o.train(*l); sum.assign(sum.size(), 0.);
            c.ok(grads(*l) == sum, "consumed"); p0 = params(*l); c.tag("consumed");
        }
    }
    c.tag(std::string("layer-") + kind_tag(d));
    if (d.image() && d.sh != d.sw) c.tag("unequal-strides");
    if (d.kind == Desc::Conv && d.ph + d.pw) c.tag("padded");
    c.sample(H::str(d.str(), " ", steps, " steps"));
}

/// Gradients written out as sums over windows, for sizes and values where difference quotients say little.
void exact(H::Case& c)
{
    auto& r = c.rng; Desc d; d.kind = r.pick({ Desc::Dense, Desc::Conv, Desc::Conv, Desc::MaxPool, Desc::MaxPool, Desc::AvgPool });
    bool big = r.chance(.15);
    if (d.kind == Desc::Dense) { d.in = Img{ r.far(1, 12, 700, .1), 1, 1 }; d.out = Img{ r.far(1, 12, d.in.h > 200 ? 60 : 700, .1), 1, 1 }; }
    else
    {
        std::size_t z = big ? 24 : 6; d.in = Img{ r.size(1, z), r.size(1, z), r.far(1, 3, 40, .05) };
        d.kh = r.size(1, std::min<std::size_t>(d.in.h, big ? 20 : 4)); d.kw = r.size(1, std::min<std::size_t>(d.in.w, big ? 20 : 4)); d.sh = r.far(1, 3, 9, .05); d.sw = r.far(1, 3, 9, .05);
        if (d.kind == Desc::Conv) { d.f = r.far(1, 3, 48, .08); if (r.chance(.4)) { d.ph = r.far(0, 2, 6, .1); d.pw = r.far(0, 2, 6, .1); } }
        d.out = Img{ (d.in.h + 2 * d.ph - d.kh) / d.sh + 1, (d.in.w + 2 * d.pw - d.kw) / d.sw + 1, d.kind == Desc::Conv ? d.f : d.in.c };
        if (d.out.size() * d.kh * d.kw * (d.kind == Desc::Conv ? d.in.c : 1) > 400000) return;
    }
    if (r.chance(.005))
    {   // More than 65536 values in or out.
        if (d.kind == Desc::Dense) { d.in = Img{ r.size(1, 3), 1, 1 }; d.out = Img{ r.size(1, 3), 1, 1 }; (r.chance(.5) ? d.in.h : d.out.h) = r.size(66000, 90000); }
        else
        {
            d.in.c = r.size(1, 3); d.in.h = r.chance(.2) ? r.size(3, 9) : r.size(150, 350); d.in.w = 66000 / d.in.h / d.in.c + r.size(4, 40); d.kh = r.size(1, 2); d.kw = r.size(1, 2); d.sh = r.size(1, 2); d.sw = 1; if (d.kind == Desc::Conv) { d.f = r.size(1, 3); d.ph = r.size(0, 1); d.pw = r.size(0, 1); }
            d.out = Img{ (d.in.h + 2 * d.ph - d.kh) / d.sh + 1, (d.in.w + 2 * d.pw - d.kw) / d.sw + 1, d.kind == Desc::Conv ? d.f : d.in.c };
        }
        c.tag("giant-layer");
    }
    typedef long double L;
    d.name = "e"; P l = make(d); randomize(*l, r); if (r.chance(.2)) l = l->clone();
    std::size_t n = d.in.size(), o = d.out.size(), P0 = l->param_count(), steps = r.size(1, 3); Vec w = params(*l);
    std::vector<L> sum(P0, 0); Vec mag(P0, 0);
    for (std::size_t s = 0; s < steps; ++s)
    {
        Vec x = r.vec(n, -2, 2), g = r.vec(o, -2, 2);
        if (d.kind == Desc::MaxPool && r.chance(.5))       // all values one representable step apart
        {
            std::vector<std::size_t> k(n); for (std::size_t i = 0; i < n; ++i) k[i] = i; r.shuffle(k); double b = r.pick({ 1., 1024., 1e-3, -1.5 });
            for (std::size_t i = 0; i < n; ++i) { x[i] = b; std::uint64_t u; std::memcpy(&u, &x[i], 8); u += k[i]; std::memcpy(&x[i], &u, 8); } c.tag("close-values");
        }
        if (r.chance(.2)) for (auto& v: g) if (r.chance(.5)) v = 0;
        const Vec& y = l->training_forward(x); c.must(y.size() == o, "exact-output-size");
        if (d.kind == Desc::Dense) for (std::size_t q = 0; q < o; ++q)
        {
            L v = w[n * o + q], m = std::fabs(v); for (std::size_t i = 0; i < n; ++i) { L t = L(w[q * n + i]) * x[i]; v += t; m += std::fabs(t); }
            if (!c.ok(std::fabs(y[q] - v) <= 1e-12L * m, "exact-output", [&] { return H::str(d.str(), " output ", q, ": ", y[q], " instead of ", double(v)); })) break;
        }
        Vec gi = l->backward(g);
        std::vector<L> in(n, 0); Vec im(n, 0);
        auto put = [&](std::vector<L>& a, Vec& m, std::size_t i, L v) { a[i] += v; m[i] += std::fabs(double(v)); };
        if (d.kind == Desc::Dense)
            for (std::size_t q = 0; q < o; ++q) { for (std::size_t i = 0; i < n; ++i) { put(in, im, i, L(w[q * n + i]) * g[q]); put(sum, mag, q * n + i, L(x[i]) * g[q]); } put(sum, mag, o * n + q, g[q]); }
        else for (std::size_t a = 0; a < d.out.h; ++a) for (std::size_t b = 0; b < d.out.w; ++b) for (std::size_t q = 0; q < d.out.c; ++q)
        {
            L v = g[(a * d.out.w + b) * d.out.c + q]; std::size_t top = 0; bool any = false;
            for (std::size_t i = 0; i < d.kh; ++i) for (std::size_t j = 0; j < d.kw; ++j)
            {
                long y = long(a * d.sh + i) - long(d.ph), z = long(b * d.sw + j) - long(d.pw); if (y < 0 || z < 0 || y >= long(d.in.h) || z >= long(d.in.w)) continue;
                std::size_t cell = (std::size_t(y) * d.in.w + std::size_t(z)) * d.in.c;
                if (d.kind == Desc::Conv) for (std::size_t e = 0; e < d.in.c; ++e) { auto k = ((i * d.kw + j) * d.in.c + e) * d.f + q; put(in, im, cell + e, L(w[k]) * v); put(sum, mag, k, L(x[cell + e]) * v); }
                else if (d.kind == Desc::AvgPool) put(in, im, cell + q, v / L(d.kh * d.kw));
                else if (!any || x[cell + q] > x[top]) { top = cell + q; any = true; }
            }
            if (d.kind == Desc::MaxPool) put(in, im, top, v);
            if (d.kind == Desc::Conv) put(sum, mag, d.kh * d.kw * d.in.c * d.f + q, v);
        }
        c.must(gi.size() == n && l->last_input_gradient() == gi, "input-gradient-size", [&] { return d.str(); });
        std::string ki = H::str("exact-input-gradient:", kind_tag(d)), kp = H::str("exact-parameter-gradient:", kind_tag(d));
        for (std::size_t i = 0; i < n; ++i) if (!c.ok(std::fabs(gi[i] - in[i]) <= 1e-12L * im[i], ki.c_str(), [&] { return H::str(d.str(), " input ", i, ": ", gi[i], " instead of ", double(in[i])); })) break;
        for (std::size_t i = 0; i < P0; ++i) if (!c.ok(std::fabs(l->gradient(i) - sum[i]) <= 1e-12L * mag[i], kp.c_str(), [&] { return H::str(d.str(), " parameter ", i, " after ", s + 1, " steps: ", l->gradient(i), " instead of ", double(sum[i])); })) break;
        c.nontrivial(H::comb(H::hash_str(d.str()), H::hash_vec(x)));
    }
    c.tag(H::str("exact-", kind_tag(d))); if (d.kh * d.kw > 64) c.tag("large-window"); if (d.f > 16) c.tag("many-filters");
}
/// A whole chain ended by a loss, through Model::step.
void chain(H::Case& c)
{
    auto& r = c.rng;
    Opts o; o.max_layers = 4;
    Chain ch = random_chain(r, o);
    bool large = ch.layers.size() > 5 || ch.in.size() > 80; for (auto& d: ch.layers) large = large || d.out.size() > 80;
    slack = large ? 1e-6 : 1e-9; if (large) c.tag("large-chain"); if (ch.layers.size() > 10) c.tag("deep-chain");
    Model m = build(ch);
    double s = r.pick({ .3, 1., 2. });
    randomize(m, r, s);
    auto steps = r.size(1, 3);
    Vec sum(params(m).size(), 0.);
    std::string k = ch.layers.back().kind == Desc::Softmax && ch.cce ? "cce" : "mse";
    for (std::size_t q = 0; q < steps; ++q)
    {
        Vec x = r.vec(ch.in.size(), -s, s), t = target(r, ch), p0 = params(m);
        m.step(x, t);
        Vec pg = grads(m), gi = m.layers().front()->last_input_gradient();
        c.ok(params(m) == p0, "step-changes-parameters");
        auto f = [&] { return objective(ch, m.predict(x), t); };
        compare(c, ("chain-input-gradient:" + k).c_str(), x, gi, f);
        std::size_t off = 0;
        for (auto& l: m.layers())
        {
            Vec add(pg.begin() + long(off), pg.begin() + long(off + l->param_count()));
            for (std::size_t i = 0; i < add.size(); ++i) add[i] -= sum[off + i];
            compare_params(c, ("chain-parameter-gradient:" + k).c_str(), *l, add, f);
            off += l->param_count();
        }
        c.ok(grads(m) == pg && m.layers().front()->last_input_gradient() == gi, "prediction-changes-gradients", [&] { return ch.str(); });
        sum = pg; if (q) c.tag("accumulated-chain");
        c.nontrivial(H::comb(ch.hash(), H::hash_vec(x)));
        // An equal step adds the same amount again.
        if (r.chance(.3))
        {
            Vec before = grads(m); m.step(x, t); Vec after = grads(m), twice(before);
            Model one = build(ch); std::size_t i = 0; for (auto& l: one.layers()) for (std::size_t j = 0; j < l->param_count(); ++j) l->param(j) = p0[i++];
            one.step(x, t); Vec single = grads(one); for (i = 0; i < twice.size(); ++i) twice[i] = before[i] + single[i];
            c.ok(near(after, twice), "same-step-again", [&] { return ch.str(); });
            c.ok(one.layers().front()->last_input_gradient() == m.layers().front()->last_input_gradient(), "input-gradient-accumulates");
            sum = after; c.tag("same-step");
        }
        if (r.chance(.3))
        {
            AdamOptimizer ad(1e-3); GradientDescentOptimizer gd(1e-2);
            if (r.chance(.5)) m.train(ad); else m.train(gd);
            sum.assign(sum.size(), 0.); c.ok(grads(m) == sum, "train-leaves-gradients", [&] { return ch.str(); }); c.tag("consumed-chain");
        }
    }
    if (!ch.cce && r.chance(.15))         // nothing to learn from a target that is met
    {
        if (r.chance(.5)) m.reset_score();
        Vec before = grads(m), x = r.vec(ch.in.size(), -s, s), t = m.predict(x); m.step(x, t);
        auto& gi = m.layers().front()->last_input_gradient();
        c.ok(grads(m) == before && gi == Vec(gi.size(), 0.), "gradient-of-a-met-target", [&] { return ch.str(); }); c.tag("met-target");
    }
    c.tag(H::str("chain-of-", ch.layers.size())); c.tag(k);
    c.sample(ch.str());
}
}

int main(int argc, char** argv)
{
    return H::run(argc, argv, {
        { "layer", 16000, 400000, layer },
        { "chain", 8000, 250000, chain },
        { "exact", 5000, 150000, exact },
    });
}
