// C20: dropout masks, scaling, gradients and inference; statistics of the masks with 6-sigma bounds.
#include "net.hpp"
using namespace N;

namespace {
double random_p(H::Rng& r) { return r.pick({ .5, .1, .25, .9, r.uni(.02, .98), r.uni(.02, .98), 1 - std::pow(10., -r.uni(2, 6)), std::pow(10., -r.uni(2, 6)) }); }
Vec nonzero(H::Rng& r, std::size_t n) { Vec x = r.vec(n, .1, 3); double s = r.chance(.2) ? std::pow(10., r.uni(-8, 8)) : 1; for (auto& v: x) v *= s; for (auto& v: x) if (r.chance(.5)) v = -v; return x; }
/// The mask of a pass; every value is either dropped or scaled.
std::vector<bool> mask(H::Case& c, const Vec& x, const Vec& y, double p)
{
    c.must(x.size() == y.size(), "output-size");
    std::vector<bool> kept(x.size());
    double s = 1 / (1 - p);
    for (std::size_t i = 0; i < x.size(); ++i)
    {
        kept[i] = y[i] != 0;
        if (kept[i]) c.ok(H::close(y[i], x[i] * s, 1e-12, 1e-12), "scale", [&] { return H::str("p=", p, " element ", i, " of ", x.size(), ": ", x[i], " became ", y[i]); });
    }
    return kept;
}
void check_gradient(H::Case& c, Layer& l, H::Rng& r, const std::vector<bool>& kept, double p)
{
    Vec g = nonzero(r, kept.size()), g0 = g;
    const Vec& d = l.backward(g);
    c.must(d.size() == g.size() && l.last_input_gradient() == d, "gradient-size"); c.ok(g == g0, "gradient-operand-changed");
    for (std::size_t i = 0; i < g.size(); ++i)
        c.ok(kept[i] ? H::close(d[i], g[i] / (1 - p), 1e-12, 1e-12) : d[i] == 0, kept[i] ? "kept-gradient" : "dropped-gradient",
            [&] { return H::str("p=", p, " element ", i, " of ", g.size(), ": ", d[i], " for gradient ", g[i]); });
}
void history(H::Case& c)
{
    auto& r = c.rng; auto n = r.chance(.1) ? 1 : r.far(1, 40, 3000); if (n > 1000) c.tag("wide-layer"); double p = random_p(r); auto seed = unsigned(r.next());
    std::shared_ptr<Layer> l;
    auto make = [&]() -> std::shared_ptr<Layer> {
        auto k = std::make_shared<DropoutLayer>("d", n, p, RneType(seed)); return k; };
    auto other_size = r.chance(.2); auto m0 = r.far(1, 50, 2000);
    auto build = [&] { std::shared_ptr<Layer> k = other_size ? std::make_shared<DropoutLayer>("d", m0, p, RneType(seed)) : make(); if (other_size) { k->input_shape(LayerShape(n)); c.tag("resized"); } return k; };
    l = build(); auto twin = build();
    c.ok(l->param_count() == 0 && l->input_size() == n && l->output_size() == n, "sizes");
    auto steps = n < 50 ? r.far(2, 12, 300) : r.size(2, 12); std::vector<bool> kept; bool have = false;
    for (std::size_t k = 0; k < steps && !c.failed; ++k)
    {
        Vec x = nonzero(r, n), x0 = x;
        switch (r.below(7))
        {
            case 6: {                  // loaded from a layer with another probability, and perhaps size
                if (!r.chance(.4)) break;
                double q = random_p(r); auto m = r.chance(.5) ? n : r.size(1, 40); DropoutLayer from("from", m, q, RneType(unsigned(r.next()))); auto saved = from.dump();
                l->load(saved); twin->load(saved); p = q; n = m; have = false;
                c.ok(l->input_size() == n && l->output_size() == n, "loaded-sizes"); c.tag("loaded"); break; }
            case 0: case 1: {          // training
                Vec y = l->training_forward(x); c.ok(l->last_output() == y, "last-output"); kept = mask(c, x, y, p); have = true;
                Vec z = twin->training_forward(x); c.ok(y == z, "same-generator-other-mask", [&] { return H::str("pass ", k, " n=", n, " p=", p); });
                c.tag("training"); for (bool b: kept) c.tag(b ? "kept" : "dropped");
                c.nontrivial(H::hash_vec(y)); break; }
            case 2: {
                Vec y = l->forward(x); c.ok(y == x && l->last_output() == x, "inference-not-identity", [&] { return H::str(H::vstr(y), " for ", H::vstr(x)); });
                if (r.chance(.5)) twin->forward(x);
                c.tag("inference"); break; }
            case 3: if (have) { check_gradient(c, *l, r, kept, p); c.tag("gradient"); if (r.chance(.5)) check_gradient(c, *l, r, kept, p); } break;
            case 4: { auto q = l->clone(); Vec y = l->training_forward(x), z = q->training_forward(x); twin->training_forward(x);
                c.ok(y == z, "clone-other-mask"); kept = mask(c, x, y, p); have = true; if (r.chance(.5)) { l = q; } check_gradient(c, *l, r, kept, p); c.tag("clone"); break; }
            case 5: l->init(Layer::InitializationFunction::KAIMING, Layer::ProbabilityDensityFunction::NORMAL, RneType(unsigned(r.next()))); c.tag("init"); break;
        }
        c.ok(x == x0, "input-changed");
    }
    c.sample(H::str("n=", n, " p=", p, ", ", steps, " operations"));
}
/// Zero, one and beyond: never a non-finite value; nothing or everything is dropped.
void extreme(H::Case& c)
{
    auto& r = c.rng; auto n = r.size(1, 30);
    double p = r.pick({ 0., 1., -.5, 1.5, -3., 7., -1e-9, 1 + 1e-9, 1 - 1e-9, 1e-9 });
    DropoutLayer l("d", n, p, RneType(unsigned(r.next())));
    for (int k = 0; k < 4; ++k)
    {
        Vec x = nonzero(r, n), y = l.training_forward(x), g = nonzero(r, n), d = l.backward(g);
        for (std::size_t i = 0; i < n; ++i)
        {
            c.ok(std::isfinite(y[i]) && std::isfinite(d[i]), "non-finite", [&] { return H::str("p=", p, ": ", y[i], " ", d[i]); });
            if (p >= 1) c.ok(y[i] == 0 && d[i] == 0, "certain-drop-kept", [&] { return H::str("p=", p); });
            if (p <= 0) c.ok(y[i] != 0 && d[i] != 0, "impossible-drop", [&] { return H::str("p=", p); });
            if (p == 0) c.ok(y[i] == x[i] && d[i] == g[i], "zero-probability-not-identity");
        }
        Vec z = l.forward(x); c.ok(z == x, "inference-not-identity");
        c.nontrivial(H::comb(H::hash_vec(x), H::hash_bytes(&p, 8)));
    }
    c.tag(p == 0 ? "p-zero" : p == 1 ? "p-one" : p < 0 || p > 1 ? "p-outside" : "p-near");
}
/// Frequencies over many passes: overall, per position, neighbours, successive passes.
void statistics(H::Case& c)
{
    auto& r = c.rng; auto n = r.chance(.1) ? r.size(60, 400) : r.size(2, 24); double p = r.pick({ .5, .1, .9, .3, r.uni(.05, .95) });
    if (n > 128) c.tag("wide-statistics");
    DropoutLayer l("d", n, p, RneType(unsigned(r.next())));
    const std::size_t T = 400;
    std::vector<double> pos(n, 0), nb(n, 0), succ(n, 0); std::vector<bool> last; double all = 0;
    for (std::size_t t = 0; t < T; ++t)
    {
        Vec x = nonzero(r, n); auto k = mask(c, x, l.training_forward(x), p);
        for (std::size_t i = 0; i < n; ++i)
        {
            double d = !k[i]; pos[i] += d; all += d;
            nb[i] += d && !k[(i + 1) % n];
            if (t) succ[i] += d && !last[i];
        }
        last = k;
    }
    auto inside = [&](double got, double q, double m, const char* key, std::size_t i) {
        c.ok(std::fabs(got - q * m) <= 6.5 * std::sqrt(q * (1 - q) * m) + 4, key, [&] { return H::str("p=", p, " n=", n, " position ", i, ": ", got, " of ", m, ", expected ", q * m); }); };
    inside(all, p, double(n * T), "drop-rate", 0);
    for (std::size_t i = 0; i < n; ++i)
    {
        inside(pos[i], p, T, "drop-rate-of-position", i);
        if (n > 2) inside(nb[i], p * p, T, "neighbours-dependent", i);
        inside(succ[i], p * p, T - 1, "passes-dependent", i);
    }
    c.tag("statistics"); c.tag("draws", n * T); c.nontrivial(H::comb(n, H::hash_bytes(&p, 8)));
    c.sample(H::str("p=", p, " n=", n, ": ", all, " of ", n * T, " dropped"));
}
/// Layers of thousands of elements: frequencies at every distance of a power of two, within a pass and across passes.
void vast(H::Case& c)
{
    auto& r = c.rng; auto n = r.chance(.3) ? r.size(66000, 140000) : r.size(4000, 40000); double p = r.pick({ .5, .2, .8, r.uni(.1, .9) }); auto seed = unsigned(r.next());
    DropoutLayer l("d", n, p, RneType(seed)), twin("d", n, p, RneType(seed));
    std::vector<std::vector<bool>> masks;
    auto inside = [&](double got, double q, double m, const char* key, std::size_t i) {
        c.ok(std::fabs(got - q * m) <= 6.5 * std::sqrt(3 * q * (1 - q) * m) + 4, key, [&] { return H::str("p=", p, " n=", n, " distance ", i, ": ", got, " of ", m, ", expected ", q * m); }); };
    for (int t = 0; t < 3; ++t)
    {
        Vec x = nonzero(r, n); Vec y = l.training_forward(x); auto k = mask(c, x, y, p);
        c.ok(twin.training_forward(x) == y, "same-generator-other-mask");
        check_gradient(c, l, r, k, p);
        std::size_t all = 0; for (std::size_t i = 0; i < n; ++i) all += !k[i];
        inside(double(all), p, double(n), "drop-rate", 0);
        for (std::size_t d = 1; d < n; d *= 2) { double both = 0; for (std::size_t i = d; i < n; ++i) both += !k[i] && !k[i - d]; inside(both, p * p, double(n - d), "elements-dependent", d); }
        for (auto& o: masks) { double both = 0; for (std::size_t i = 0; i < n; ++i) both += !k[i] && !o[i]; inside(both, p * p, double(n), "passes-dependent", 0); }
        if (r.chance(.5)) { Vec z = l.forward(x); c.ok(z == x, "inference-not-identity"); }
        masks.push_back(std::move(k));
    }
    c.tag("vast-layer"); c.nontrivial(H::comb(n, H::hash_bytes(&p, 8)));
}
/// Infinities, NaN, zeros and subnormal numbers: what is dropped is zero whatever it was, what is kept is scaled.
void special(H::Case& c)
{
    auto& r = c.rng; auto n = r.size(1, 30); double p = r.chance(.1) ? 1. : random_p(r), s = p == 1 ? 1 : 1 / (1 - p); auto seed = unsigned(r.next());
    DropoutLayer l("d", n, p, RneType(seed)), twin("d", n, p, RneType(seed));
    const double inf = std::numeric_limits<double>::infinity(), nan = std::numeric_limits<double>::quiet_NaN();
    auto spoil = [&](Vec v) { for (auto& e: v) if (r.chance(.4)) e = r.pick({ inf, -inf, nan, 0., -0., 5e-324, 1e308, -1e308 }); return v; };
    auto same = [](double a, double b) { return (a != a && b != b) || a == b || H::close(a, b, 1e-12, 1e-320); };
    for (int k = 0; k < 3; ++k)
    {
        Vec plain = nonzero(r, n), x = spoil(plain); Vec m = twin.training_forward(plain), y = l.training_forward(x), g = spoil(nonzero(r, n)), d = l.backward(g);
        for (std::size_t i = 0; i < n; ++i)
        {
            bool kept = m[i] != 0;
            c.ok(kept ? same(y[i], x[i] * s) : y[i] == 0, kept ? "special-scale" : "special-dropped", [&] { return H::str("p=", p, ": ", x[i], " became ", y[i]); });
            c.ok(kept ? same(d[i], g[i] * s) : d[i] == 0, kept ? "special-gradient" : "special-dropped-gradient", [&] { return H::str("p=", p, ": gradient ", g[i], " became ", d[i]); });
            if (!kept && !std::isfinite(x[i])) c.tag("special-dropped"); if (kept && !std::isfinite(x[i])) c.tag("special-kept");
        }
        Vec z = l.forward(x); bool eq = true; for (std::size_t i = 0; i < n; ++i) eq = eq && ((z[i] != z[i] && x[i] != x[i]) || z[i] == x[i]); c.ok(eq, "inference-not-identity");
        c.nontrivial(H::comb(H::hash_vec(plain), H::hash_bytes(&p, 8)));
    }
}
/// In a model: predictions are those of the model without it, steps use the latest mask in both directions.
void model(H::Case& c)
{
    auto& r = c.rng; Opts o; o.dropout = .4; o.max_layers = 5;
    Chain ch = random_chain(r, o);
    if (std::none_of(ch.layers.begin(), ch.layers.end(), [](const Desc& d) { return d.kind == Desc::Dropout; }))
    { Desc d; d.kind = Desc::Dropout; d.in = d.out = ch.in; d.p = .5; d.seed = unsigned(r.next() | 1); d.name = "d"; ch.layers.insert(ch.layers.begin(), d); }
    Chain plain = ch; plain.layers.clear(); for (auto& d: ch.layers) if (d.kind != Desc::Dropout) plain.layers.push_back(d);
    if (plain.layers.empty()) { Desc d; d.kind = Desc::Linear; d.in = d.out = ch.in; d.name = "x"; plain.layers.push_back(d); }
    Model m = build(ch), q = build(plain);
    randomize(m, r); { Vec p = params(m); std::size_t i = 0; for (auto& l: q.layers()) for (std::size_t j = 0; j < l->param_count(); ++j) l->param(j) = p[i++]; }
    for (int k = 0; k < 4; ++k)
    {
        Vec x = r.vec(ch.in.size(), -2, 2), x0 = x;
        Vec y = m.predict(x), z = q.predict(x);
        c.ok(y == z, "model-inference", [&] { return H::str(ch.str(), ": ", H::vstr(y), " instead of ", H::vstr(z)); });
        Vec t = target(r, ch);
        m.step(x, t); c.ok(x == x0, "model-input-changed");
        auto& L = m.layers();
        for (std::size_t i = 0; i < ch.layers.size(); ++i)
        {
            if (ch.layers[i].kind != Desc::Dropout) continue;
            Vec in = i ? L[i - 1]->last_output() : x, out = L[i]->last_output(), g = L[i + 1]->last_input_gradient(), d = L[i]->last_input_gradient();
            double s = 1 / (1 - ch.layers[i].p);
            for (std::size_t e = 0; e < in.size(); ++e)
            {
                bool kept = in[e] != 0 ? out[e] != 0 : d[e] != 0;
                if (in[e] != 0 && kept) c.ok(H::close(out[e], in[e] * s, 1e-12, 1e-300), "model-scale");
                c.ok(kept ? H::close(d[e], g[e] * s, 1e-12, 1e-300) : d[e] == 0, "model-gradient", [&] { return H::str(ch.str(), " layer ", i, " element ", e); });
                c.tag(kept ? "model-kept" : "model-dropped");
            }
        }
        c.nontrivial(H::comb(ch.hash(), H::hash_vec(x)));
    }
    c.tag("model");
    c.sample(ch.str());
}
}

int main(int argc, char** argv)
{
    return H::run(argc, argv, {
        { "history", 16000, 400000, history },
        { "extreme", 3000, 60000, extreme },
        { "statistics", 600, 12000, statistics },
        { "vast", 40, 1500, vast },
        { "special", 3000, 60000, special },
        { "model", 6000, 150000, model },
    });
}
