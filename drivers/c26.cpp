// C26: the sequential training loop against its definition: event logs, training by hand, and what it learns.
#include "fnn.hpp"
#include "probe.hpp"
using namespace F;
using PR::Event;

namespace {
using Seq = Training<PL::SEQUENTIAL, double>;

std::string show(const std::vector<Event>& l, std::size_t at)
{ std::string s; for (std::size_t i = at > 4 ? at - 4 : 0; i < l.size() && i < at + 6; ++i) s += H::str(l[i].what, l[i].id, H::vstr(l[i].in), H::vstr(l[i].t), " "); return s; }

/// Every call made on the layers and the optimizer during training.
void events_as(H::Case& c, int far)
{
    auto& r = c.rng; auto n = far ? r.size(1, 2) : r.far(1, 4, 25);
    std::vector<std::size_t> sz{ r.size(1, 4) }; for (std::size_t i = 0; i < n; ++i) sz.push_back(r.size(1, 4));
    Model m("m"); std::vector<P> l;
    for (std::size_t i = 0; i < n; ++i) { l.push_back(m.add_layer<PR::ProbeLayer>(H::str("p", i), int(i), sz[i], sz[i + 1])); if (i) m.create_edge(l[i - 1], l[i]); }
    auto loss = m.add_loss<PR::ProbeLoss>("loss", 50, sz[n]); m.create_loss_edge(l.back(), loss);
    Chain ch; ch.in = Img{ sz[0], 1, 1 }; Desc last; last.kind = Desc::Linear; last.out = Img{ sz[n], 1, 1 }; ch.layers.push_back(last);
    PR::ProbeOptimizer o; auto& log = PR::logs().mine();
    for (std::size_t k = 0, runs = far ? 1 : r.size(1, 3); k < runs; ++k)
    {
        auto rows = far == 1 ? r.size(1, 3) : far == 2 ? 65500 + r.size(1, 3000) : r.chance(.03) ? 0 : r.chance(.1) ? 1 : r.far(1, 40, 700), batch = r.chance(.1) && rows ? rows : r.chance(.2) ? 1 : r.far(1, 45, 1000), epochs = far == 1 ? r.size(200, 1500) : far == 2 ? 1 : r.chance(.05) ? 0 : r.far(1, 4, rows < 45 ? 80 : 5);
        if (far == 2) batch = r.pick({ std::size_t(1), r.size(2, 300), r.size(65530, 65540), rows }); if (far) c.tag(far == 1 ? "epochs>200" : "rows>65500");
        if (rows > 200) c.tag("many-rows"); if (epochs > 40) c.tag("many-epochs");
        Data d = random_rows(r, rows, sz[0], ch); auto ds = rows ? d.make() : Dataset<double>(); auto before = ds.data();
        std::vector<Event> want;
        for (std::size_t e = 0; e < epochs; ++e)
            for (std::size_t i = 0; i < rows;)
            {
                std::vector<Vec> g(n, Vec(3, 0.));
                for (std::size_t b = 0; b < batch && i < rows; ++b, ++i)
                {
                    Vec v = d.in[i];
                    for (std::size_t j = 0; j < n; ++j) { want.push_back({ 'T', int(j), v, {} }); v = PR::ProbeLayer::f(int(j), v, sz[j + 1]); }
                    want.push_back({ 'L', 50, v, d.lab[i] });
                    Vec q(sz[n]); for (std::size_t j = 0; j < q.size(); ++j) q[j] = double(j) + d.lab[i][0];
                    for (std::size_t j = n; j-- > 0;)
                    {
                        want.push_back({ 'B', int(j), q, {} }); for (std::size_t x = 0; x < 3; ++x) g[j][x] += q[x % q.size()];
                        Vec z(sz[j]); for (std::size_t x = 0; x < z.size(); ++x) z[x] = q[x % q.size()];
                        q = z;
                    }
                }
                for (std::size_t j = 0; j < n; ++j) want.push_back({ 'U', int(j), g[j], {} });
                want.push_back({ 'U', -1, {}, {} });
                c.tag("update");
            }
        log.clear();
        Seq::run(m, ds, o, epochs, batch);
        // The order in which one update visits the layers is not fixed; layers without parameters may be left out.
        auto order = [](std::vector<Event> v) {
            std::vector<Event> x; for (auto& e: v) if (e.what != 'U' || e.id != -1) x.push_back(e);
            for (std::size_t i = 0; i < x.size();) { std::size_t j = i; while (j < x.size() && x[j].what == 'U') ++j; if (j > i) std::sort(x.begin() + long(i), x.begin() + long(j), [](const Event& a, const Event& b) { return a.id < b.id; }); i = j > i ? j : i + 1; }
            return x; };
        auto a = order(log), b = order(want); std::size_t at = 0;
        auto eq = [](const Event& x, const Event& y) { if (x.what != y.what || x.id != y.id || x.t != y.t || x.in.size() != y.in.size()) return false; for (std::size_t i = 0; i < x.in.size(); ++i) if (!H::close(x.in[i], y.in[i], 1e-12)) return false; return true; };
        while (at < a.size() && at < b.size() && eq(a[at], b[at])) ++at;
        c.ok(at == a.size() && at == b.size(), "events", [&] { return H::str(rows, " rows, batch ", batch, ", ", epochs, " epochs: event ", at, " of ", b.size(), " (", a.size(), " seen): observed ", show(a, at), "expected ", show(b, at)); });
        c.ok(ds.data() == before && ds.size() == rows, "dataset-changed");
        c.tag("events", a.size()); if (rows % batch) c.tag("partial-batch"); if (batch > rows) c.tag("batch-larger-than-dataset"); if (!rows) c.tag("no-rows"); if (!epochs) c.tag("no-epochs");
        c.nontrivial(H::comb(H::comb(rows, batch), H::comb(epochs, H::hash_vec(before))));
    }
    c.sample(H::str(n, " layers, ", o.updates, " layer updates"));
}

void events(H::Case& c) { events_as(c, 0); }
void far_events(H::Case& c) { events_as(c, c.rng.chance(.7) ? 1 : 2); }

/// Many rows predicted at once, and a small network fitted for many epochs.
void far(H::Case& c)
{
    auto& r = c.rng; NetOpts no; no.dropout = 0; no.max_layers = 2; Net n; do n = random_net(r, no); while (n.in.size() > 12 || n.out() > 6);
    finish(n); auto e = make_edge<PL::SEQUENTIAL>(r, n); Model h = build(n.chain); auto seed = unsigned(r.next() | 1);
    auto epochs = r.size(200, 700), batch = r.size(1, 4); double eta = .003; auto type = r.chance(.5) ? OptimizerType::ADAM : OptimizerType::GRADIENT_DESCENT;
    Data d = random_rows(r, r.size(1, 4), n.in.size(), n.chain); auto ds = d.make();
    e->fit(ds, type, epochs, batch, eta, seed);
    h.init(init_function(n.init), Model::ProbabilityDensityFunction::NORMAL, seed); for (auto& l: h.loss_layers()) l->batch_size(batch);
    auto o = optimizer(type, eta); train_by_hand(h, n.chain, d, *o, epochs, batch, 0); if (!tame(params(h))) { c.tag("diverged"); return; }
    auto many = r.size(65600, 67000); auto q = random_rows(r, many, n.in.size(), n.chain); auto x = q.inputs(); auto y = e->predict(x);
    c.must(y.size() == many && y.feature_size() == n.out() && y.data().size() == many * n.out(), "prediction-size");
    for (std::size_t i = 0; i < many; ++i)
    {
        Vec want = h.predict(q.in[i]);
        c.must(near(y.entry(i), want), "trained-network", [&] { return H::str(n.str(), ", row ", i, " after ", epochs, " epochs: ", H::vstr(y.entry(i)), " instead of ", H::vstr(want)); });
    }
    c.tag("far-fit"); c.nontrivial(H::hash_vec(y.data())); c.sample(H::str(n.str(), " ", many, " rows, ", epochs, " epochs"));
}

/// Training a model directly, against the same steps and updates by hand.
void train_model(H::Case& c, const Chain& ch, std::size_t max_rows)
{
    auto& r = c.rng; Model m = build(ch), h = build(ch); randomize(m, r, .7);
    { auto p = params(m); std::size_t k = 0; for (auto& l: h.layers()) for (std::size_t i = 0; i < l->param_count(); ++i) l->param(i) = p[k++]; }
    auto type = r.chance(.5) ? OptimizerType::ADAM : OptimizerType::GRADIENT_DESCENT; double eta = r.pick({ .001, .03, r.uni(0, .1), r.uni(0, .1), r.uni(0, .1), r.pick({ 1.5, 3., 0., -.02, 1e-9 }) });
    auto o = optimizer(type, eta), ho = optimizer(type, eta);
    for (std::size_t k = 0, runs = r.size(1, 3); k < runs; ++k)
    {
        auto rows = max_rows < 20 ? r.size(1, max_rows) : r.far(1, 20, 400), batch = r.far(1, 24, 500), epochs = r.size(1, 3); Data d = random_rows(r, rows, ch.in.size(), ch); auto ds = d.make();
        Seq::run(m, ds, *o, epochs, batch); train_by_hand(h, ch, d, *ho, epochs, batch, 0);
        Vec p = params(m); if (!tame(p)) { c.tag("diverged"); return; }
        c.ok(near(p, params(h)), "parameters", [&] { return H::str(ch.str(), " ", rows, " rows, batch ", batch, ", ", epochs, " epochs"); });
        Vec g = grads(m); c.ok(g == Vec(g.size(), 0.), "gradient-left"); c.ok(ds.data() == d.make().data(), "dataset-changed");
        c.nontrivial(H::hash_vec(p)); c.tag("model");
    }
    c.sample(ch.str());
}

void model(H::Case& c) { Opts oo; oo.learnable = true; oo.max_layers = 4; train_model(c, random_chain(c.rng, oo), 20); }
/// A layer of very many parameters among the others.
void wide(H::Case& c)
{
    auto& r = c.rng; Chain ch; Img cur{ r.size(2, 500), 1, 1 }; ch.in = cur; auto n = r.size(1, 3), big = r.below(n);
    for (std::size_t i = 0; i < n; ++i)
    {
        Desc d; d.kind = Desc::Dense; d.in = cur; d.name = H::str("d", i); d.out = Img{ i == big ? r.size(66000, 140000) / cur.size() + 1 : r.size(2, 300), 1, 1 }; cur = d.out; ch.layers.push_back(d);
        Desc a; a.kind = r.pick({ Desc::Tanh, Desc::Sigmoid, Desc::Relu }); a.in = a.out = cur; a.name = H::str("a", i); ch.layers.push_back(a);
    }
    train_model(c, ch, 4); c.tag("over-65536-parameters");
}

/// Fitting a network built from descriptors, possibly again with other settings, against a model assembled and trained by hand.
void fit(H::Case& c)
{
    auto& r = c.rng; Net n = random_net(r);
    // The masks of a network come from generators of its own, so only dropout that drops nothing can be compared.
    for (auto& d: n.layers) if (d.kind == Desc::Dropout) d.p = 0;
    finish(n); auto e = make_edge<PL::SEQUENTIAL>(r, n), again = r.chance(.3) ? make_edge<PL::SEQUENTIAL>(r, n) : nullptr;
    bool random = std::any_of(n.layers.begin(), n.layers.end(), [](const Desc& d) { return d.kind == Desc::Dropout; });
    Model h = build(n.chain); unsigned last = unsigned(r.next() | 1);
    for (std::size_t k = 0, fits = r.size(1, 3); k < fits; ++k)
    {
        auto rows = r.far(1, 20, 400), batch = r.far(1, 24, 500), epochs = r.chance(.1) ? 0 : r.far(1, 3, 12); auto seed = k && r.chance(.4) ? last : unsigned(r.next() | 1);
        if (k && seed == last) c.tag("same-seed-again"); last = seed;
        auto type = r.chance(.5) ? OptimizerType::ADAM : OptimizerType::GRADIENT_DESCENT; double eta = r.pick({ .001, .03, r.uni(0, .1), r.uni(0, .1), r.uni(0, .1), r.pick({ 1.5, 3., 0., -.02, 1e-9 }) });
        Data d = random_rows(r, rows, n.in.size(), n.chain); auto ds = d.make(); auto x = d.inputs();
        e->fit(ds, type, epochs, batch, eta, seed);
        c.ok(ds.data() == d.make().data() && ds.label_idx() == d.make().label_idx(), "dataset-changed");
        h.init(init_function(n.init), Model::ProbabilityDensityFunction::NORMAL, seed); for (auto& l: h.loss_layers()) l->batch_size(batch);
        auto o = optimizer(type, eta); train_by_hand(h, n.chain, d, *o, epochs, batch, 0);
        if (!tame(params(h))) { c.tag("diverged"); return; }
        auto y = e->predict(x); c.must(y.size() == rows && y.feature_size() == n.out(), "prediction-size");
        for (std::size_t i = 0; i < rows; ++i)
        {
            Vec want = h.predict(d.in[i]);
            c.must(near(y.entry(i), want), "trained-network", [&] { return H::str(n.str(), ", fit ", k, ", ", rows, " rows, batch ", batch, ", ", epochs, " epochs: ", H::vstr(y.entry(i)), " instead of ", H::vstr(want)); });
        }
        if (again) { again->fit(ds, type, epochs, batch, eta, seed); c.ok(again->predict(x).data() == y.data(), "not-deterministic", [&] { return n.str(); }); c.tag("deterministic"); }
        c.nontrivial(H::hash_vec(y.data())); c.tag(k ? "fitted-again" : "fitted"); if (random) c.tag("dropout"); if (epochs == 0) c.tag("initialised-only");
    }
    c.tag(n.loss == LossType::CCE ? "cce" : "mse"); c.sample(n.str());
}

/// Linear problems are learnt.
void learn(H::Case& c)
{
    auto& r = c.rng; auto ins = r.size(1, 4), outs = r.size(1, 3), rows = r.size(20, 40); bool cce = r.chance(.4); if (cce) ++outs;
    std::vector<Vec> w(outs); Vec b = r.vec(outs, -.5, .5); for (auto& x: w) x = r.vec(ins, -1, 1);
    Data d; for (std::size_t i = 0; i < outs; ++i) d.cols.insert(ins + i);
    for (std::size_t i = 0; i < rows; ++i)
    {
        Vec x = r.vec(ins, -1, 1), t(outs); for (std::size_t j = 0; j < outs; ++j) { t[j] = b[j]; for (std::size_t k = 0; k < ins; ++k) t[j] += w[j][k] * x[k]; }
        if (cce) { auto best = std::max_element(t.begin(), t.end()) - t.begin(); std::fill(t.begin(), t.end(), 0.); t[std::size_t(best)] = 1; }
        d.in.push_back(x); d.lab.push_back(t); Vec row = x; row.insert(row.end(), t.begin(), t.end()); d.rows.push_back(row);
    }
    Net n; n.in = Img{ ins, 1, 1 }; n.flat_input = true; n.loss = cce ? LossType::CCE : LossType::MSE; n.init = r.pick({ InitType::HE_INIT, InitType::XAVIER_INIT, InitType::AUTO });
    Desc l; l.kind = Desc::Dense; l.in = n.in; l.out = Img{ outs, 1, 1 }; l.name = "l"; n.layers.push_back(l); n.acts.push_back(cce ? ActivationType::Softmax : ActivationType::Linear); finish(n);
    auto e = make_edge<PL::SEQUENTIAL>(r, n); auto ds = d.make(); auto seed = unsigned(r.next() | 1);
    auto type = r.chance(.5) ? OptimizerType::ADAM : OptimizerType::GRADIENT_DESCENT; auto batch = r.size(1, 8);
    e->fit(ds, type, 0, batch, .02, seed); auto start = e->evaluate(ds, n.loss);
    e->fit(ds, type, 300, batch, .02, seed); auto end = e->evaluate(ds, n.loss);
    double bound = cce ? .85 * double(start.loss) + .05 : .1 * double(start.loss) + .03;
    c.ok(double(end.loss) < bound, "not-learnt", [&] { return H::str(n.str(), " ", rows, " rows, batch ", batch, ", ", type == OptimizerType::ADAM ? "Adam" : "gradient descent", ": loss from ", start.loss, " to ", end.loss); });
    c.tag("learnt"); c.nontrivial(H::hash_vec(ds.data())); c.sample(H::str(n.str(), ": loss from ", start.loss, " to ", end.loss));
}
}

int main(int argc, char** argv)
{
    return H::run(argc, argv, {
        { "events", 6000, 200000, events },
        { "far-events", 24, 200, far_events },
        { "far", 6, 60, far },
        { "model", 4000, 120000, model },
        { "wide", 10, 200, wide },
        { "fit", 3000, 100000, fit },
        { "learn", 600, 10000, learn },
    });
}
