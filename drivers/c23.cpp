// C23: event logs of probe layers against the chain's definition; families of model copies against shadows.
#include "net.hpp"
using namespace N;

namespace {
struct Event { char what; int id; int copy; Vec in; };
std::vector<Event> g_log;
int g_copies;

/// Writes down every call; its output and gradient depend on its identity and on its input.
class Probe : public Layer
{
public:
    Probe(std::string n, int id_, std::size_t in, std::size_t out_) : Layer(n, in, out_), id(id_), out(out_), gi(in), p(3, 1.), g(3, 0.) {}
    int id, copy = 0; Vec out, gi, p, g;
    static Vec f(int id, const Vec& x, std::size_t n) { Vec y(n); for (std::size_t i = 0; i < n; ++i) y[i] = id + .5 * x[i % x.size()] + .25 * double(i); return y; }
    void init(InitializationFunction, ProbabilityDensityFunction, RneType) override { g_log.push_back({ 'I', id, copy, {} }); }
    const std::vector<NumType>& forward(const std::vector<NumType>& x) override { g_log.push_back({ 'F', id, copy, x }); out = f(id, x, out.size()); return out; }
    const std::vector<NumType>& training_forward(const std::vector<NumType>& x) override { g_log.push_back({ 'T', id, copy, x }); out = f(id + 100, x, out.size()); return out; }
    const std::vector<NumType>& backward(const std::vector<NumType>& x) override { g_log.push_back({ 'B', id, copy, x }); gi = f(id + 200, x, gi.size()); g[1] += 1; return gi; }
    const std::vector<NumType>& last_input_gradient() override { return gi; }
    const std::vector<NumType>& last_output() override { return out; }
    SizeType param_count() const noexcept override { return p.size(); }
    NumType& param(SizeType i) override { return p[i]; }
    NumType& gradient(SizeType i) override { return g[i]; }
    SharedPtr clone() const override { auto q = std::make_shared<Probe>(*this); q->copy = ++g_copies; return q; }
    void print() const override {}
};
class ProbeLoss : public LossLayer
{
public:
    ProbeLoss(std::string n, int id_, std::size_t in) : LossLayer(in, 1, n, "x_"), id(id_) {}
    int id, copy = 0;
    const std::vector<NumType>& forward(const std::vector<NumType>& x) override { g_log.push_back({ 'f', id, copy, x }); g_log.push_back({ 't', id, copy, _target }); ++_correct; _cumulative_loss += 2; return x; }
    const std::vector<NumType>& backward(const std::vector<NumType>&) override { g_log.push_back({ 'b', id, copy, {} }); for (std::size_t i = 0; i < _gradients.size(); ++i) _gradients[i] = id + 7. * double(i) + _target[0]; return _gradients; }
    SharedPtr clone() const override { auto q = std::make_shared<ProbeLoss>(*this); q->copy = ++g_copies; return q; }
};
std::string show(const std::vector<Event>& l) { std::string s; for (auto& e: l) s += H::str(e.what, e.id, e.copy ? "'" : "", " "); return s; }

struct PM { Model m; std::vector<std::size_t> order; std::vector<std::size_t> sizes; std::vector<int> copy; };
/// The same chain, whatever the order of declaration.
void chain_events(H::Case& c)
{
    auto& r = c.rng; auto n = r.far(1, 7, 60); if (n > 20) c.tag("long-chain");
    std::vector<std::size_t> sz{ r.size(1, 4) }; for (std::size_t i = 0; i < n; ++i) sz.push_back(r.size(1, 4));
    Model m(H::str("probe"));
    // Layers are declared in random order, the loss anywhere among them, arcs in random order and in both ways.
    std::vector<std::size_t> decl(n + 1); for (std::size_t i = 0; i <= n; ++i) decl[i] = i;
    if (r.chance(.7)) r.shuffle(decl);
    std::vector<P> l(n); std::shared_ptr<ProbeLoss> loss;
    for (auto i: decl) if (i == n) loss = m.add_loss<ProbeLoss>("loss", 5000, sz[n]); else l[i] = m.add_layer<Probe>(H::str("p", i), int(i), sz[i], sz[i + 1]);
    c.must(m.layers().size() == n + 1 && bool(loss), "layers");
    std::vector<std::size_t> arcs(n); for (std::size_t i = 0; i < n; ++i) arcs[i] = i;
    if (r.chance(.7)) r.shuffle(arcs);
    for (auto i: arcs)
    {
        auto kind = r.below(3);
        if (i + 1 == n)
        {
            if (kind == 0) { m.create_front_arc(l[i], std::shared_ptr<LossLayer>(loss)); m.create_back_arc(l[i], loss); }
            else m.create_loss_edge(l[i], loss);
        }
        else if (kind == 0) { m.create_back_arc(l[i], l[i + 1]); m.create_front_arc(l[i], l[i + 1]); }
        else m.create_edge(l[i], l[i + 1]);
        if (r.chance(.1)) { if (i + 1 == n) m.create_loss_edge(l[i], loss); else m.create_edge(l[i], l[i + 1]); c.tag("edge-twice"); }
    }
    bool copied = r.chance(.4); Model other("other");
    if (copied) { if (r.chance(.5)) { Model k(m); swap(k, m); if (r.chance(.5)) other = k; } else { other = m; swap(other, m); } c.tag("copied-chain"); }
    std::map<int, int> ids; for (auto& q: m.layers()) if (auto p = std::dynamic_pointer_cast<Probe>(q)) ids[p->id] = p->copy; else ids[5000] = std::dynamic_pointer_cast<ProbeLoss>(q)->copy;
    c.must(ids.size() == n + 1, "layers-after-copy");
    c.ok(m.input_size() == sz[0] && m.output_size() == sz[n], "model-sizes", [&] { return H::str(m.input_size(), " ", m.output_size()); });
    c.must(m.input_layers().size() == 1 && m.output_layers().size() == 1 && m.loss_layers().size() == 1, "model-ends");
    auto same = [&](const std::vector<Event>& want, const char* key) {
        bool ok = g_log.size() == want.size();
        for (std::size_t i = 0; ok && i < want.size(); ++i) ok = g_log[i].what == want[i].what && g_log[i].id == want[i].id && g_log[i].copy == ids[want[i].id] && g_log[i].in == want[i].in;
        c.ok(ok, key, [&] { return H::str("observed ", show(g_log), "expected ", show(want)); }); c.tag("events", g_log.size()); };
    long steps = 0;
    for (std::size_t k = 0, e = r.size(1, 6); k < e; ++k)
    {
        Vec x = r.vec(sz[0], -2, 2), x0 = x; std::vector<Event> want; g_log.clear();
        if (r.chance(.5))
        {
            Vec y = m.predict(x), v = x; for (std::size_t i = 0; i < n; ++i) { want.push_back({ 'F', int(i), 0, v }); v = Probe::f(int(i), v, sz[i + 1]); }
            same(want, "prediction-events"); c.ok(y == v, "prediction-value"); c.tag("prediction");
        }
        else
        {
            Vec t = r.vec(sz[n], -1, 1), v = x; m.step(x, t); ++steps;
            for (std::size_t i = 0; i < n; ++i) { want.push_back({ 'T', int(i), 0, v }); v = Probe::f(int(i) + 100, v, sz[i + 1]); }
            want.push_back({ 'f', 5000, 0, v }); want.push_back({ 't', 5000, 0, t }); want.push_back({ 'b', 5000, 0, {} });
            Vec g(sz[n]); for (std::size_t i = 0; i < g.size(); ++i) g[i] = 5000 + 7. * double(i) + t[0];
            for (std::size_t i = n; i-- > 0;) { want.push_back({ 'B', int(i), 0, g }); g = Probe::f(int(i) + 200, g, sz[i]); }
            same(want, "step-events"); c.tag("step");
        }
        c.ok(x == x0, "input-changed");
        c.nontrivial(H::comb(H::hash_vec(x), n));
    }
    if (steps) c.ok(H::close(m.avg_loss(), 2) && m.accuracy() == 1, "model-score", [&] { return H::str(m.avg_loss(), " ", m.accuracy()); });
    c.tag(H::str("chain-", n)); c.sample(H::str(n, " layers, ", steps, " steps, last log ", show(g_log)));
}

/// Several chains side by side in one model: each is fed the input, and each loss the target.
void side_by_side(H::Case& c)
{
    auto& r = c.rng; auto k = r.far(2, 6, 20, .02), in = r.size(1, 4), out = r.size(1, 4); Model m("side"); struct One { std::vector<std::size_t> sz; std::vector<P> l; std::shared_ptr<ProbeLoss> loss; }; std::vector<One> f(k);
    std::vector<std::pair<std::size_t, std::size_t>> decl, arcs; std::set<int> entries, exits;
    for (std::size_t a = 0; a < k; ++a)
    {
        auto n = r.size(1, 4); f[a].l.resize(n); f[a].sz.push_back(in); for (std::size_t i = 0; i < n; ++i) f[a].sz.push_back(i + 1 == n ? out : r.size(1, 4));
        for (std::size_t i = 0; i <= n; ++i) decl.push_back({ a, i });
        for (std::size_t i = 0; i < n; ++i) arcs.push_back({ a, i });
    }
    r.shuffle(decl); r.shuffle(arcs);
    auto id = [](std::size_t a, std::size_t i) { return int(a * 10 + i); };
    for (auto& d: decl) { auto& o = f[d.first]; if (d.second == o.l.size()) o.loss = m.add_loss<ProbeLoss>(H::str("loss", d.first), 5000 + int(d.first), out); else o.l[d.second] = m.add_layer<Probe>(H::str("p", d.first, "_", d.second), id(d.first, d.second), o.sz[d.second], o.sz[d.second + 1]); }
    for (auto& d: arcs) { auto& o = f[d.first]; if (d.second + 1 == o.l.size()) m.create_loss_edge(o.l[d.second], o.loss); else m.create_edge(o.l[d.second], o.l[d.second + 1]); }
    if (r.chance(.4)) { Model q(m); swap(q, m); c.tag("copied-side-by-side"); }
    c.must(m.input_layers().size() == k && m.output_layers().size() == k && m.loss_layers().size() == k, "side-ends", [&] { return H::str(m.input_layers().size(), " ", m.output_layers().size(), " ", m.loss_layers().size(), " instead of ", k); });
    for (std::size_t a = 0; a < k + 1; ++a) c.ok(m.input_size(a) == (a < k ? in : 0) && m.output_size(a) == (a < k ? out : 0), "side-sizes");
    auto first = std::size_t(std::dynamic_pointer_cast<Probe>(m.output_layers().front())->id / 10);
    for (std::size_t e = 0, n = r.size(1, 4); e < n; ++e)
    {
        Vec x = r.vec(in, -2, 2), t = r.vec(out, -1, 1); bool step = r.chance(.5); g_log.clear(); Vec y;
        if (step) m.step(x, t); else y = m.predict(x);
        std::size_t total = 0;
        for (std::size_t a = 0; a < k; ++a)
        {
            auto& o = f[a]; auto len = o.l.size(); std::vector<Event> want, got; Vec v = x; int L = 5000 + int(a);
            for (std::size_t i = 0; i < len; ++i) { want.push_back({ step ? 'T' : 'F', id(a, i), 0, v }); v = Probe::f(id(a, i) + (step ? 100 : 0), v, o.sz[i + 1]); }
            if (step)
            {
                want.push_back({ 'f', L, 0, v }); want.push_back({ 't', L, 0, t }); want.push_back({ 'b', L, 0, {} });
                Vec g(out); for (std::size_t i = 0; i < out; ++i) g[i] = L + 7. * double(i) + t[0];
                for (std::size_t i = len; i-- > 0;) { want.push_back({ 'B', id(a, i), 0, g }); g = Probe::f(id(a, i) + 200, g, o.sz[i]); }
            }
            else if (a == first) c.ok(y == v, "side-prediction", [&] { return H::str(H::vstr(y), " instead of ", H::vstr(v)); });
            for (auto& q: g_log) if (q.id == L || (q.id < 5000 && std::size_t(q.id) / 10 == a)) got.push_back(q);
            bool ok = got.size() == want.size(); for (std::size_t i = 0; ok && i < want.size(); ++i) ok = got[i].what == want[i].what && got[i].id == want[i].id && got[i].in == want[i].in;
            c.ok(ok, step ? "side-step-events" : "side-prediction-events", [&] { return H::str("chain ", a, " of ", k, ": observed ", show(got), "expected ", show(want)); }); total += want.size();
        }
        c.ok(g_log.size() == total, "side-events"); c.nontrivial(H::comb(H::hash_vec(x), k)); c.tag("side-by-side-events", total);
    }
    c.tag("side-by-side");
}
/// What a model alone owns: gradients, activations, scores, structure.
struct Own
{
    Vec g, act, gin; double loss, acc; std::vector<const Layer*> layers; std::vector<std::string> names;
    bool operator==(const Own& o) const { return g == o.g && act == o.act && gin == o.gin && H::same(loss, o.loss) && H::same(acc, o.acc) && layers == o.layers && names == o.names; }
};
Own own(Model& m)
{
    Own o; o.g = grads(m); o.loss = m.avg_loss(); o.acc = m.accuracy();
    for (auto& l: m.layers())
    {
        if (!l->is_type<LossLayer>()) { auto& y = l->last_output(); o.act.insert(o.act.end(), y.begin(), y.end()); }
        auto& d = l->last_input_gradient(); o.gin.insert(o.gin.end(), d.begin(), d.end());
        o.layers.push_back(l.get()); o.names.push_back(l->name());
    }
    return o;
}
/// Several losses on one output: each counts on its own, the model reports their averages.
void losses(H::Case& c)
{
    auto& r = c.rng; auto in = r.size(1, 4), out = r.size(1, 4), k = r.far(1, 4, 40); Model m("losses");
    auto l = m.add_layer<DenseLayer>("d", in, out); auto last = m.add_layer<SoftmaxLayer>("s", out); m.create_edge(l, last); randomize(m, r);
    std::vector<Chain> spec; std::vector<std::shared_ptr<LossLayer>> ls;
    for (std::size_t i = 0; i < k; ++i)
    {
        Chain ch; ch.in = Img{ out, 1, 1 }; ch.cce = r.chance(.4); ch.tolerance = r.pick({ .01, .1, .3, .5 }); spec.push_back(ch); std::shared_ptr<LossLayer> q;
        if (ch.cce) q = m.add_loss<CategoricalCrossEntropyLossLayer>(H::str("q", i), out, 1); else q = m.add_loss<MeanSquaredLossLayer>(H::str("q", i), out, 1, ch.tolerance);
        m.create_loss_edge(last, q); ls.push_back(q);
    }
    std::vector<long double> sum(k, 0); std::vector<double> right(k, 0); std::size_t n = 0; bool open = false;
    for (std::size_t s = 0, e = r.size(1, 12); s < e; ++s)
    {
        if (n && r.chance(.1)) { m.reset_score(); sum.assign(k, 0); right.assign(k, 0); n = 0; open = false; c.tag("losses-reset"); continue; }
        Vec x = r.vec(in, -2, 2), y = m.predict(x), t(out, 0.); auto a = r.below(out); t[a] = 1; m.step(x, t); ++n;
        auto best = std::size_t(std::max_element(y.begin(), y.end()) - y.begin()); for (std::size_t i = 0; i < out; ++i) if (i != best && std::fabs(y[i] - y[best]) < 1e-9) open = true;
        for (std::size_t i = 0; i < k; ++i)
        {
            long double v = objective(spec[i], y, t); if (!spec[i].cce) v /= (long double) out; sum[i] += v;
            if (spec[i].cce) right[i] += best == a; else { right[i] += v <= spec[i].tolerance; if (std::fabs(double(v) - spec[i].tolerance) < 1e-9) open = true; }
        }
        long double L = 0; double A = 0; for (std::size_t i = 0; i < k; ++i) { L += sum[i] / (long double) n; A += right[i] / double(n); }
        c.ok(H::close(m.avg_loss(), double(L / (long double) k), 1e-9, 1e-12), "average-of-losses", [&] { return H::str(m.avg_loss(), " instead of ", double(L / (long double) k), " over ", k, " losses and ", n, " steps"); });
        if (!open) c.ok(H::close(m.accuracy(), A / double(k), 1e-9, 1e-12), "average-of-accuracies", [&] { return H::str(m.accuracy(), " instead of ", A / double(k)); });
        c.nontrivial(H::comb(H::hash_vec(x), k));
    }
    c.tag(k > 1 ? "several-losses" : "one-loss");
}
struct Member { std::unique_ptr<Model> m; double loss = 0; std::size_t seen = 0, right = 0; };

void family(H::Case& c)
{
    auto& r = c.rng; Opts oo; oo.learnable = true; oo.max_layers = 3; oo.dropout = r.chance(.2) ? .3 : 0;
    Chain ch = random_chain(r, oo); bool random = std::any_of(ch.layers.begin(), ch.layers.end(), [](const Desc& d) { return d.kind == Desc::Dropout; });
    std::vector<Member> f; f.push_back({ std::make_unique<Model>(build(ch)), 0, 0, 0 });
    randomize(*f[0].m, r, .8); Vec p = params(*f[0].m);
    auto fresh = [&] { Model q = build(ch); std::size_t i = 0; for (auto& l: q.layers()) for (std::size_t j = 0; j < l->param_count(); ++j) l->param(j) = p[i++]; return q; };
    auto near = [&](const Vec& a, const Vec& b) { bool ok = a.size() == b.size(); for (std::size_t i = 0; ok && i < a.size(); ++i) ok = H::close(a[i], b[i], 1e-10, 1e-2); return ok; };
    auto steps = r.far(4, 20, 150);
    for (std::size_t k = 0; k < steps && !c.failed; ++k)
    {
        auto i = r.below(f.size()); auto& m = *f[i].m;
        auto op = r.below(12);
        std::vector<Own> before; for (auto& x: f) before.push_back(own(*x.m));
        auto others = [&](const char* key, std::size_t skip2 = ~std::size_t(0)) { for (std::size_t j = 0; j < before.size() && j < f.size(); ++j) if (j != i && j != skip2) { c.ok(own(*f[j].m) == before[j], key, [&] { return H::str(ch.str(), ": member ", j, " changed by member ", i); }); c.tag("isolated"); } };
        if (op < 3)
        {
            Vec x = r.vec(ch.in.size(), -1, 1); Vec y = m.predict(x);
            c.ok(params(m) == p && own(m).g == before[i].g && own(m).gin == before[i].gin && H::same(m.avg_loss(), before[i].loss) && H::same(m.accuracy(), before[i].acc), "prediction-changes-model", [&] { return ch.str(); });
            others("prediction-reaches-a-copy");
            Model q = fresh(); c.ok(q.predict(x) == y, "prediction", [&] { return ch.str(); });
            for (std::size_t j = 0; j < f.size(); ++j) if (j != i) c.ok(f[j].m->predict(x) == y, "copies-predict-differently", [&] { return ch.str(); });
            c.nontrivial(H::hash_vec(y)); c.tag("predict");
        }
        else if (op < 6)
        {
            Vec x = r.vec(ch.in.size(), -1, 1), t = target(r, ch); m.step(x, t);
            c.ok(params(m) == p, "step-changes-parameters"); others("step-reaches-a-copy");
            if (!random)
            {
                Model q = fresh(); q.step(x, t); Vec want = grads(q); for (std::size_t e = 0; e < want.size(); ++e) want[e] += before[i].g[e];
                c.ok(near(grads(m), want), "step-gradients", [&] { return ch.str(); });
                f[i].loss += q.avg_loss(); f[i].right += q.accuracy() > .5; ++f[i].seen;
                c.ok(H::close(m.avg_loss(), f[i].loss / double(f[i].seen), 1e-9) && H::close(m.accuracy(), double(f[i].right) / double(f[i].seen), 1e-9), "score", [&] { return H::str(ch.str(), ": ", m.avg_loss(), " instead of ", f[i].loss / double(f[i].seen)); });
            }
            c.tag("step");
        }
        else if (op < 8)
        {
            auto j = r.below(f.size()); bool from = r.chance(.4);
            if (!from) j = i;
            Vec g = grads(*f[j].m); GradientDescentOptimizer o(.01);
            if (from) m.train(o, *f[j].m); else m.train(o);
            Vec want(p); for (std::size_t e = 0; e < p.size(); ++e) want[e] -= .01 * g[e];
            c.ok(near(params(m), want), "training", [&] { return ch.str(); });
            p = params(m);
            for (auto& x: f) { c.ok(params(*x.m) == p, "parameters-not-shared", [&] { return ch.str(); }); }
            c.ok(grads(*f[j].m) == Vec(g.size(), 0.), "gradients-not-consumed");
            if (from && j != i) { c.ok(own(m) == before[i], "training-from-a-copy-changes-more"); c.tag("train-from"); }
            for (std::size_t q = 0; q < f.size(); ++q) if (q != j && q != i) c.ok(own(*f[q].m) == before[q], "training-reaches-a-copy");
            c.tag("train");
        }
        else if (op == 8) { m.reset_score(); f[i].loss = 0; f[i].seen = f[i].right = 0; others("reset-reaches-a-copy"); c.ok(std::isnan(m.avg_loss()) || m.avg_loss() == 0, "reset"); c.tag("reset-score"); }
        else if (op == 9 && f.size() < 4)
        {
            Member n; n.loss = f[i].loss; n.seen = f[i].seen; n.right = f[i].right;
            switch (r.below(3))
            {
                case 0: n.m = std::make_unique<Model>(m); c.tag("copy"); break;
                case 1: n.m = std::make_unique<Model>("n"); *n.m = m; c.tag("assign"); break;
                case 2: { auto q = std::make_unique<Model>(m); n.m = std::make_unique<Model>("n"); if (r.chance(.5)) swap(*n.m, *q); else swap(*q, *n.m); c.tag("swap"); break; }
            }
            c.ok(own(m) == before[i], "copying-changes-the-original"); others("copying-changes-a-copy");
            auto a = own(*n.m); c.ok(a.g == before[i].g && a.names == before[i].names && H::same(a.loss, before[i].loss), "copy-state");
            for (std::size_t e = 0; e < a.layers.size(); ++e) c.ok(a.layers[e] != before[i].layers[e], "layers-not-cloned");
            c.ok(n.m->name() == m.name(), "copy-name");
            f.push_back(std::move(n));
        }
        else if (op == 10 && f.size() > 1) { f.erase(f.begin() + long(i)); c.tag("destroy"); }
        else if (op == 11 && f.size() > 1 && r.chance(.3))
        {
            // Another structure over one of the copies: it leaves the family, which stays as it was.
            auto extra = m.add_layer<DenseLayer>("extra", ch.out(), 2); auto last = m.output_layers().empty() ? nullptr : m.output_layers().front();
            m.create_edge(last, extra); others("structure-reaches-a-copy"); f.erase(f.begin() + long(i)); c.tag("restructured");
        }
    }
    c.sample(H::str(ch.str(), ", ", steps, " operations, ", f.size(), " models at the end"));
}
}

int main(int argc, char** argv)
{
    return H::run(argc, argv, {
        { "events", 16000, 400000, chain_events },
        { "family", 8000, 200000, family },
        { "side-by-side", 3000, 60000, side_by_side },
        { "losses", 3000, 60000, losses },
    });
}
