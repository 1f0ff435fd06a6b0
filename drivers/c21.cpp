// C21: optimizers against their written-out update rule, over histories on several layers and optimizers.
#include "net.hpp"
using namespace N;
typedef long double L;

namespace {
/// A layer of its own: parameters only, to see that nothing else is used.
class Bare : public Layer
{
public:
    Bare(std::size_t n) : Layer("bare", 1, 1), p(n), g(n) {}
    Vec p, g;
    void init(InitializationFunction, ProbabilityDensityFunction, RneType) override {}
    const std::vector<NumType>& last_input_gradient() override { return g; }
    const std::vector<NumType>& last_output() override { return p; }
    SizeType param_count() const noexcept override { return p.size(); }
    NumType& param(SizeType i) override { return p.at(i); }
    NumType& gradient(SizeType i) override { return g.at(i); }
    SharedPtr clone() const override { return std::make_shared<Bare>(*this); }
    void print() const override {}
};
struct Mom { std::vector<L> m, v, s, sv; std::size_t t = 0; };
struct Opt
{
    std::shared_ptr<Optimizer> o; bool adam; double eta, b1, b2, eps; std::map<int, Mom> mom;
};
/// A layer, or a group of clones with the same parameters.
struct Node { P l; int group; };

P random_params(H::Rng& r)
{
    switch (r.below(5))
    {
        case 0: return std::make_shared<RecurrentLayer>("r", r.size(1, 3), r.size(1, 3), r.size(1, 3), r.size(1, 3));
        case 1: return std::make_shared<ConvolutionalLayer>("c", DLMath::Shape3d(r.size(2, 4), r.size(2, 4), r.size(1, 2)), DLMath::Shape2d(r.size(1, 2), r.size(1, 2)), r.size(1, 3));
        case 2: return std::make_shared<Bare>(r.far(1, 12, 3000));
        case 3: if (r.chance(.2)) return std::make_shared<ReluLayer>("none", 3);
        default: return std::make_shared<DenseLayer>("d", r.size(1, 5), r.size(1, 5));
    }
}
void history(H::Case& c)
{
    auto& r = c.rng;
    std::vector<Node> nodes; std::map<int, Vec> par; int groups = 0;
    auto add = [&] { P l = random_params(r); randomize(*l, r, r.pick({ 1., 1., 100. })); nodes.push_back({ l, groups }); par[groups] = params(*l); ++groups; };
    auto k = r.size(1, 4); for (std::size_t i = 0; i < k; ++i) add();
    std::vector<Opt> opts;
    for (std::size_t i = 0, n = r.size(1, 2); i < n; ++i)
    {
        Opt o; o.adam = r.chance(.7); o.eta = r.pick({ .1, 1e-3, 1., r.uni(0, .5), 0. }); o.b1 = .9; o.b2 = .999; o.eps = 1e-8;
        if (!o.adam) o.o = std::make_shared<GradientDescentOptimizer>(o.eta);
        else if (r.chance(.4)) { o.o = std::make_shared<AdamOptimizer>(o.eta); c.tag("adam-defaults"); }
        else { o.b1 = r.pick({ 0., .5, .99, r.uni(0, .999) }); o.b2 = r.pick({ 0., .5, .9999, r.uni(0, .9999) }); o.eps = r.pick({ 1e-8, 1e-3, .1, 1e-30 }); o.o = std::make_shared<AdamOptimizer>(o.eta, o.b1, o.b2, o.eps); }
        opts.push_back(o);
    }
    auto gradients = [&](Layer& l) {
        double s = r.pick({ 1., 1., 1e-6, 1e4 }), z = r.chance(.3) ? .5 : 0; bool wild = r.chance(.08); if (wild) c.tag("extreme-gradients");
        for (std::size_t i = 0; i < l.param_count(); ++i) l.gradient(i) = r.chance(z) ? 0. : (wild ? std::pow(10., r.uni(-100, 100)) : s) * r.normal(); };
    // Every layer's values except those the call may change.
    auto others = [&](const Layer* from, int group) {
        Vec v; for (auto& n: nodes) { if (n.group != group) { auto p = params(*n.l); v.insert(v.end(), p.begin(), p.end()); } if (n.l.get() != from) { auto g = grads(*n.l); v.insert(v.end(), g.begin(), g.end()); } }
        return v; };
    std::size_t biggest = 0; for (auto& n: nodes) biggest = std::max<std::size_t>(biggest, n.l->param_count());
    auto steps = biggest < 60 ? r.far(3, 25, 2500, .008) : r.size(3, 25); if (steps > 500) c.tag("long-training"); if (biggest > 1000) c.tag("many-parameters");
    for (std::size_t s = 0; s < steps && !c.failed; ++s)
    {
        auto o_index = r.below(opts.size());
        // In a long history one layer and one optimizer get most of the steps.
        bool rare = steps > 100 && r.chance(.99); if (rare) o_index = 0;
        auto& o = opts[o_index]; auto op = rare ? 11 : r.below(12);
        if (op == 0) { o.o->reset(); o.mom.clear(); c.tag("reset"); continue; }
        if (op == 1 && nodes.size() < 6) { add(); c.tag("late-layer"); continue; }
        if (op == 2 && nodes.size() < 7)
        {
            auto i = r.below(nodes.size()); if (nodes[i].l->type() == "None") continue;     // Bare: clones do not share
            P q = nodes[i].l->clone(); nodes.push_back({ q, nodes[i].group }); c.tag("clone"); continue;
        }
        if (op == 3)
        {
            auto a = r.below(nodes.size()), b = r.below(nodes.size());
            if (nodes[a].l->param_count() == nodes[b].l->param_count()) continue;
            auto before = others(nullptr, -1); bool t = H::throws([&] { o.o->train_check(*nodes[a].l, *nodes[b].l); });
            c.ok(t && others(nullptr, -1) == before, "mismatch-accepted", [&] { return H::str(nodes[a].l->param_count(), " gradients for ", nodes[b].l->param_count(), " parameters"); }); c.tag("mismatch"); continue;
        }
        auto ti = rare && r.chance(.95) ? 0 : r.below(nodes.size()); Node to = nodes[ti], from = to;
        // Gradients taken from another layer of equal size.
        if (r.chance(.35)) { std::vector<std::size_t> eq; for (std::size_t i = 0; i < nodes.size(); ++i) if (i != ti && nodes[i].l->param_count() == to.l->param_count()) eq.push_back(i); if (!eq.empty()) { from = nodes[r.pick(eq)]; c.tag(from.group == to.group ? "from-clone" : "from-other"); } }
        if (r.chance(.3)) for (auto& n: nodes) gradients(*n.l); else gradients(*from.l);
        Vec g = grads(*from.l), rest = others(from.l.get(), to.group); auto& p = par[to.group];
        std::vector<L> want(p.begin(), p.end()), delta(p.size(), 0), slack(p.size(), 0);
        if (!p.empty())
        {
            auto& m = o.mom[to.group]; if (m.m.empty()) { m.m.assign(p.size(), 0); m.v.assign(p.size(), 0); m.s.assign(p.size(), 0); m.sv.assign(p.size(), 0); }
            ++m.t;
            for (std::size_t i = 0; i < p.size(); ++i)
            {
                if (!o.adam) delta[i] = L(o.eta) * g[i];
                else
                {
                    // Rounding errors of the two means may be as large as those of an update in which old and new values cancel.
                    m.s[i] = o.b1 * m.s[i] + std::fabs(m.m[i]) + std::fabs(g[i]); m.sv[i] = o.b2 * m.sv[i] + m.v[i] + L(g[i]) * g[i];
                    m.m[i] = o.b1 * m.m[i] + (1 - L(o.b1)) * g[i]; m.v[i] = o.b2 * m.v[i] + (1 - L(o.b2)) * g[i] * g[i];
                    L mh = m.m[i] / (1 - std::pow(L(o.b1), L(m.t))), vh = m.v[i] / (1 - std::pow(L(o.b2), L(m.t)));
                    delta[i] = o.eta * mh / (std::sqrt(vh) + o.eps);
                    slack[i] = 1e-15L * o.eta * m.s[i] / (1 - std::pow(L(o.b1), L(m.t))) / (std::sqrt(vh) + o.eps);
                    L rel = m.v[i] > 0 ? 1e-15L * m.sv[i] / m.v[i] : 0; if (rel > 1e-9L) { c.tag("cancelling-history"); slack[i] = rel > 1e-3L ? std::numeric_limits<L>::infinity() : slack[i] + rel * std::fabs(delta[i]); }
                }
                want[i] -= delta[i];
            }
            if (o.adam && m.t > 1) c.tag("later-step"); if (o.adam && m.t > 1000) c.tag("step-beyond-1000");
        }
        auto sizes = [&] { return H::str(to.l->input_size(), to.l->output_size(), to.l->name(), to.l->param_count()); }; auto z = sizes();
        if (from.l == to.l && r.chance(.6)) o.o->train(*to.l);
        else if (r.chance(.5)) o.o->train_check(*from.l, *to.l); else o.o->train(*from.l, *to.l);
        Vec got = params(*to.l);
        c.must(got.size() == p.size(), "param-count");
        for (std::size_t i = 0; i < p.size(); ++i)
            c.ok(std::fabs(got[i] - want[i]) <= 1e-8L * std::fabs(delta[i]) + slack[i] + 4e-16L * (std::fabs(want[i]) + std::fabs(p[i])), o.adam ? "adam-update" : "gd-update",
                [&] { return H::str("step ", s, " on ", to.l->type(), " parameter ", i, ": ", p[i], " became ", got[i], " instead of ", double(want[i]), " (gradient ", g[i], ")"); });
        c.ok(grads(*from.l) == Vec(from.l->param_count(), 0.), "gradient-not-cleared");
        c.ok(others(from.l.get(), to.group) == rest, "other-layer-changed");
        c.ok(sizes() == z, "shape-changed");
        for (auto& n: nodes) if (n.group == to.group) c.ok(params(*n.l) == got, "clone-parameters-apart");
        p = got;
        c.tag(o.adam ? "adam" : "gd"); if (p.empty()) c.tag("no-parameters");
        c.nontrivial(H::comb(H::hash_vec(got), s));
    }
    c.sample(H::str(nodes.size(), " layers, ", opts.size(), " optimizers, ", steps, " operations"));
}
/// Infinities and NaN reach their own parameter and no other; nothing of them stays in the gradients.
void special(H::Case& c)
{
    auto& r = c.rng; auto n = r.size(1, 6); Bare l(n); for (auto& v: l.p) v = r.normal();
    const double inf = std::numeric_limits<double>::infinity(), nan = std::numeric_limits<double>::quiet_NaN();
    double eta = r.pick({ .1, 1e-3, 1. }); bool adam = r.chance(.6); std::shared_ptr<Optimizer> o;
    if (adam) o = std::make_shared<AdamOptimizer>(eta); else o = std::make_shared<GradientDescentOptimizer>(eta);
    std::vector<L> M(n, 0), V(n, 0), S(n, 0); std::vector<bool> lost(n);
    for (std::size_t t = 1; t <= 5; ++t)
    {
        for (auto& v: l.g) v = r.chance(.2) ? r.pick({ inf, -inf, nan }) : r.normal();
        Vec p = l.p, g = l.g;
        if (r.chance(.5)) o->train(l); else o->train_check(l, l);
        for (std::size_t i = 0; i < n; ++i)
        {
            lost[i] = lost[i] || !std::isfinite(g[i]); L d = L(eta) * g[i];
            if (adam) { M[i] = .9L * M[i] + (1 - L(.9)) * g[i]; V[i] = .999L * V[i] + (1 - L(.999)) * g[i] * g[i]; S[i] = .9L * S[i] + .1L * std::fabs(g[i]);
                d = eta * (M[i] / (1 - std::pow(L(.9), L(t)))) / (std::sqrt(V[i] / (1 - std::pow(L(.999), L(t)))) + 1e-8); }
            L want = p[i] - d;
            if (lost[i]) { c.ok(std::isfinite(want) ? true : !std::isfinite(l.p[i]), "special-gradient-hidden", [&] { return H::str(p[i], " with gradient ", g[i], " became ", l.p[i]); }); c.tag("special-gradient"); }
            else c.ok(std::fabs(l.p[i] - want) <= 1e-8L * std::fabs(d) + 1e-13L * eta * S[i] + 4e-16L * (std::fabs(want) + std::fabs(p[i])), "beside-special", [&] { return H::str(p[i], " with gradient ", g[i], " became ", l.p[i], " instead of ", double(want)); });
            c.ok(l.g[i] == 0, "special-gradient-not-cleared");
        }
        c.nontrivial(H::comb(H::hash_vec(g), H::hash_vec(p)));
    }
}
/// Through a model: one rule application per layer and call, with the gradients of real steps.
void model(H::Case& c)
{
    auto& r = c.rng; Opts oo; oo.learnable = true; oo.max_layers = 4;
    Chain ch = random_chain(r, oo); Model m = build(ch); randomize(m, r);
    std::size_t n = params(m).size(); double eta = r.pick({ 1e-3, .01, .1 }); bool adam = r.chance(.7);
    AdamOptimizer ad(eta); GradientDescentOptimizer gd(eta); std::vector<L> M(n, 0), V(n, 0);
    auto calls = r.size(1, 8);
    for (std::size_t k = 1; k <= calls; ++k)
    {
        for (std::size_t i = 0, q = r.size(0, 3); i < q; ++i) m.step(r.vec(ch.in.size(), -1, 1), target(r, ch));
        Vec p = params(m), g = grads(m);
        if (std::any_of(g.begin(), g.end(), [](double v) { return !(std::fabs(v) < 1e8); })) return;      // diverging
        if (adam) m.train(ad); else m.train(gd);
        Vec a = params(m);
        for (std::size_t i = 0; i < n; ++i)
        {
            L d = L(eta) * g[i];
            if (adam) { M[i] = .9 * M[i] + (1 - L(.9)) * g[i]; V[i] = .999 * V[i] + (1 - L(.999)) * g[i] * g[i]; d = eta * (M[i] / (1 - std::pow(L(.9), L(k)))) / (std::sqrt(V[i] / (1 - std::pow(L(.999), L(k)))) + 1e-8); }
            c.ok(std::fabs(a[i] - (p[i] - d)) <= 1e-8L * std::fabs(d) + 4e-16L * (std::fabs(a[i]) + std::fabs(p[i])), adam ? "model-adam-update" : "model-gd-update",
                [&] { return H::str(ch.str(), " call ", k, " parameter ", i, ": ", p[i], " became ", a[i], " instead of ", double(p[i] - d)); });
        }
        c.ok(grads(m) == Vec(n, 0.), "model-gradients-not-cleared");
        c.nontrivial(H::hash_vec(a));
    }
    c.tag("model");
}
}

int main(int argc, char** argv)
{
    return H::run(argc, argv, {
        { "history", 16000, 500000, history },
        { "special", 3000, 60000, special },
        { "model", 6000, 150000, model },
    });
}
