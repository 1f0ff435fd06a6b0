// C19: recurrent layers against the written-out recurrence, over histories of sequences.
#include "net.hpp"
using namespace N;

namespace {
/// The recurrence, in long double, with parameters in the order W_ih, W_hh, b_h, W_ho, b_o.
struct Ref
{
    std::size_t I, H_, O; Vec p, h;
    std::vector<long double> last;      ///< State after the sequence last run.
    std::vector<long double> run(const Vec& x, std::size_t T)
    {
        std::vector<long double> s(h.begin(), h.end()), out;
        const double *wih = p.data(), *whh = wih + I * H_, *bh = whh + H_ * H_, *who = bh + H_, *bo = who + O * H_;
        for (std::size_t t = 0; t < T; ++t)
        {
            std::vector<long double> n(H_);
            for (std::size_t a = 0; a < H_; ++a)
            {
                long double v = bh[a];
                for (std::size_t b = 0; b < I; ++b) v += (long double) wih[a * I + b] * x[t * I + b];
                for (std::size_t b = 0; b < H_; ++b) v += whh[a * H_ + b] * s[b];
                n[a] = std::tanh(v);
            }
            s = n;
            for (std::size_t o = 0; o < O; ++o)
            {
                long double v = bo[o];
                for (std::size_t b = 0; b < H_; ++b) v += who[o * H_ + b] * s[b];
                out.push_back(v);
            }
        }
        last = s; return out;
    }
};
struct Sut
{
    std::shared_ptr<RecurrentLayer> l; Ref ref; std::size_t T; Vec sum;
};
bool near(const Vec& a, const std::vector<long double>& b) { if (a.size() != b.size()) return false; for (std::size_t i = 0; i < a.size(); ++i) if (!(std::fabs(a[i] - b[i]) <= 1e-11L * (1 + std::fabs(b[i])))) return false; return true; }
Vec dbl(const std::vector<long double>& v) { return Vec(v.begin(), v.end()); }

Sut fresh(H::Case& c)
{
    auto& r = c.rng; Sut s;
    bool large = r.chance(.01); double p = large ? .6 : 0;
    std::size_t I = r.far(1, 5, 25, p), Hs = r.far(1, 5, 25, p), O = r.far(1, 5, 25, p); s.T = r.chance(.25) ? 1 : r.far(1, 7, 90, p);
    if (!large && r.chance(.004)) { large = true; (r.chance(.6) ? Hs : r.chance(.5) ? I : O) = r.size(130, 300); s.T = r.size(1, 3); c.tag("very-large-layer"); }
    if (r.chance(.2)) { s.l = std::make_shared<RecurrentLayer>("r", r.size(1, 6), O, Hs, s.T); s.l->input_shape(LayerShape(I)); c.tag("resized"); }
    else s.l = std::make_shared<RecurrentLayer>("r", I, O, Hs, s.T);
    if (Hs + I + O < 130 && r.chance(.3)) { s.T = r.far(1, 7, 90, p); s.l->time_steps(s.T); }
    bool endless = !large && r.chance(.004); if (endless) { s.T = r.chance(.8) ? r.size(258, 420) : r.size(1000, 1100); s.l->time_steps(s.T); c.tag("very-long-sequence"); }
    if (large) c.tag(s.T > 20 ? "long-sequence" : "large-layer");
    c.must(s.l->param_count() == I * Hs + Hs * Hs + Hs + O * Hs + O, "param-count");
    randomize(*s.l, r, Hs + I + O >= 130 ? .08 : large ? .25 : endless ? .4 : r.pick({ .3, .8, 2. }));
    s.ref = Ref{ I, Hs, O, params(*s.l), Vec(Hs, 0.), {} };
    s.sum.assign(s.l->param_count(), 0.);
    return s;
}
void forward(H::Case& c, Sut& s, bool training)
{
    auto& r = c.rng; auto& l = *s.l;
    double sc = r.pick({ .5, 1., 3. });
    Vec x = r.vec(s.T * s.ref.I, -sc, sc), x0 = x, gi = l.last_input_gradient(), gp = grads(l);
    const Vec& y = training ? l.training_forward(x) : l.forward(x);
    auto want = s.ref.run(x, s.T);
    c.must(near(y, want) && near(l.last_output(), want), training ? "training-output" : "inference-output",
        [&] { return H::str("I=", s.ref.I, " H=", s.ref.H_, " O=", s.ref.O, " T=", s.T, ": ", H::vstr(y), " instead of ", H::vstr(dbl(want))); });
    c.ok(x == x0, "input-changed"); c.ok(params(l) == s.ref.p, "parameters-changed");
    c.ok(grads(l) == gp && l.last_input_gradient() == gi, "forward-changes-gradients");
    auto start = s.ref.h; auto after = dbl(s.ref.last);
    c.nontrivial(H::comb(H::hash_vec(x), H::hash_vec(s.ref.p)));
    c.tag(s.T == 1 ? "one-step" : "many-steps"); if (std::any_of(start.begin(), start.end(), [](double v) { return v != 0; })) c.tag("carried-state");
    if (training)
    {
        auto rounds = r.chance(.1) ? 2 : 1;      // the same step back-propagated again
        for (int k = 0; k < rounds; ++k)
        {
            Vec g = r.vec(s.T * s.ref.O, -2, 2), g0 = g;
            if (r.chance(.2)) std::fill(g.begin(), g.end() - long(s.ref.O), 0.), g0 = g;       // only the last time step counts
            const Vec& ret = l.backward(g);
            c.must(ret.size() == x.size() && l.last_input_gradient() == ret, "input-gradient-size");
            c.ok(g == g0 && x == x0, "operands-changed");
            Vec gi2 = ret, gp2 = grads(l);
            auto f = [&] { auto o = s.ref.run(x, s.T); long double v = 0; for (std::size_t i = 0; i < o.size(); ++i) v += o[i] * g[i]; return v; };
            for (auto i: H::some(r, x.size(), s.T > 20 ? 8 : 40))
            {
                auto q = slope(x[i], f); if (!q.ok) { c.tag("kink"); continue; }
                c.ok(std::fabs(q.d - gi2[i]) <= q.err + 1e-9, "input-gradient", [&] { return H::str("time step ", i / s.ref.I, " of ", s.T, " input ", i % s.ref.I, ": ", gi2[i], " instead of ", q.d); });
            }
            for (auto i: H::some(r, s.ref.p.size(), s.ref.p.size() < 110 && s.T < 8 ? 110 : 16))
            {
                auto q = slope(s.ref.p[i], f); if (!q.ok) { c.tag("kink"); continue; }
                c.ok(std::fabs(q.d - (gp2[i] - s.sum[i])) <= q.err + 1e-9, "parameter-gradient", [&] { return H::str("parameter ", i, " of ", s.ref.p.size(), " (I=", s.ref.I, " H=", s.ref.H_, " O=", s.ref.O, " T=", s.T, "): ", gp2[i] - s.sum[i], " instead of ", q.d); });
            }
            if (std::any_of(s.sum.begin(), s.sum.end(), [](double v) { return v != 0; })) c.tag("accumulated");
            s.sum = gp2;
            c.tag("backward");
        }
    }
    s.ref.h = after;
}
/// One random operation on a layer and its shadow.
void operate(H::Case& c, Sut& s)
{
    auto& r = c.rng;
    switch (r.below(10))
    {
        case 0: case 1: case 2: forward(c, s, true); break;
        case 3: case 4: case 5: forward(c, s, false); c.tag("inference"); break;
        case 6: { Vec h = r.vec(s.ref.H_, -.9, .9); s.l->hidden_state(h); s.ref.h = h; c.tag("set-state");
            if (r.chance(.2)) { c.ok(H::throws([&] { s.l->hidden_state(Vec(s.ref.H_ + r.size(1, 3), .5)); }), "oversized-state-accepted"); c.tag("oversized-state"); } break; }
        case 7: s.l->reset_hidden_state(); s.ref.h.assign(s.ref.H_, 0.); c.tag("reset"); break;
        case 8: s.T = r.size(1, 7); s.l->time_steps(s.T); c.ok(s.l->time_steps() == s.T, "time-steps"); c.tag("time-steps-changed"); break;
        case 9: {
            if (r.chance(.4))
            { s.l->init(Layer::InitializationFunction::XAVIER, Layer::ProbabilityDensityFunction::NORMAL, RneType(unsigned(r.next()))); s.ref.p = params(*s.l); s.ref.h.assign(s.ref.H_, 0.); c.tag("init"); }
            else
            { GradientDescentOptimizer o(1e-2); Vec want = s.ref.p; for (std::size_t i = 0; i < want.size(); ++i) want[i] -= 1e-2 * s.sum[i];
              o.train(*s.l); s.ref.p = params(*s.l); bool ok = true; for (std::size_t i = 0; i < want.size(); ++i) ok = ok && H::close(want[i], s.ref.p[i], 1e-12);
              c.ok(ok, "optimizer"); s.sum.assign(s.sum.size(), 0.); c.ok(grads(*s.l) == s.sum, "gradients-not-consumed"); c.tag("optimized"); }
            break; }
    }
}
void history(H::Case& c)
{
    Sut s = fresh(c); auto n = c.rng.size(3, 14);
    forward(c, s, true);
    for (std::size_t i = 0; i < n && !c.failed; ++i) operate(c, s);
    c.sample(H::str("I=", s.ref.I, " H=", s.ref.H_, " O=", s.ref.O, " T=", s.T, ", ", n, " operations"));
}
/// A clone has its own state and gradients and the same parameters.
void clones(H::Case& c)
{
    Sut a = fresh(c); forward(c, a, true); if (c.rng.chance(.5)) forward(c, a, false);
    Sut b = a; b.l = std::dynamic_pointer_cast<RecurrentLayer>(a.l->clone()); c.must(bool(b.l), "clone-type");
    b.sum = grads(*b.l);
    c.ok(params(*b.l) == a.ref.p && b.l->time_steps() == a.T, "clone-parameters");
    for (int i = 0; i < 5 && !c.failed; ++i)
    {
        Sut& s = c.rng.chance(.5) ? a : b; Sut& o = &s == &a ? b : a;
        Vec gi = o.l->last_input_gradient(), gp = grads(*o.l), y = o.l->last_output();
        forward(c, s, c.rng.chance(.5));
        c.ok(o.l->last_input_gradient() == gi && grads(*o.l) == gp && o.l->last_output() == y, "clone-not-separate");
    }
    Sut& gone = c.rng.chance(.5) ? a : b; Sut& stays = &gone == &a ? b : a;
    gone.l.reset(); forward(c, stays, true); c.tag("clone");
}
/// Inside a model: the loss sees the whole output sequence.
void model(H::Case& c)
{
    auto& r = c.rng;
    std::size_t I = r.size(1, 4), Hs = r.size(1, 4), O = r.size(1, 3), T = r.size(1, 5);
    Model m("rec"); auto l = m.add_layer<RecurrentLayer>("r", I, O, Hs, T);
    auto loss = m.add_loss<MeanSquaredLossLayer>("loss", O * T, 1, .1);
    m.create_loss_edge(l, loss);
    randomize(*l, r, .8);
    Ref ref{ I, Hs, O, params(*l), Vec(Hs, 0.), {} };
    Vec sum(l->param_count(), 0.);
    Chain obj; obj.batch = 1;
    for (int k = 0; k < 4; ++k)
    {
        Vec x = r.vec(I * T, -1, 1);
        if (r.chance(.4)) { auto y = m.predict(x); c.must(near(y, ref.run(x, T)), "model-prediction"); ref.h = dbl(ref.last); continue; }
        Vec t = r.vec(O * T, -1, 1);
        m.step(x, t);
        c.must(near(m.layers()[0]->last_output(), ref.run(x, T)), "model-step-output"); auto after = dbl(ref.last);
        Vec g = grads(*m.layers()[0]), gi = m.layers()[0]->last_input_gradient();
        auto f = [&] { auto o = ref.run(x, T); long double v = 0; for (std::size_t i = 0; i < o.size(); ++i) v += (o[i] - t[i]) * (o[i] - t[i]); return v; };
        for (std::size_t i = 0; i < g.size(); ++i) { auto q = slope(ref.p[i], f); if (q.ok) c.ok(std::fabs(q.d - (g[i] - sum[i])) <= q.err + 1e-9, "model-parameter-gradient", [&] { return H::str("parameter ", i, ": ", g[i] - sum[i], " instead of ", q.d); }); }
        for (std::size_t i = 0; i < x.size(); ++i) { auto q = slope(x[i], f); if (q.ok) c.ok(std::fabs(q.d - gi[i]) <= q.err + 1e-9, "model-input-gradient", [&] { return H::str("input ", i, ": ", gi[i], " instead of ", q.d); }); }
        sum = g; ref.h = after;
        if (r.chance(.4)) { GradientDescentOptimizer o(1e-2); m.train(o); ref.p = params(*l); sum.assign(sum.size(), 0.); }
        c.nontrivial(H::comb(H::hash_vec(x), T)); c.tag("model-step");
    }
}
}

int main(int argc, char** argv)
{
    return H::run(argc, argv, {
        { "history", 5000, 150000, history },
        { "clones", 1500, 40000, clones },
        { "model", 1500, 40000, model },
    });
}
