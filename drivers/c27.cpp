// C27: parallel training under perturbed schedules: event logs of every thread, training by hand, failing steps.
#include "fnn.hpp"
#include "probe.hpp"
#include <thread>
using namespace F;
using PR::Event;

namespace {
using Entry = Training<PL::THREAD_PARALLELISM_ON_DATA_ENTRY, double>;
using Batch = Training<PL::THREAD_PARALLELISM_ON_DATA_BATCH, double>;
BetterThreads::TaskManager& tm() { return BetterThreads::TaskManager::instance(); }

/// Another number of workers and another schedule.
std::size_t schedule(H::Case& c)
{
    std::size_t w = c.rng.size(1, 8); tm().verif_maximum(w); tm().set_maximum_concurrency();
    tm().verif_perturb(c.rng.chance(.7) ? c.rng.next() | 1 : 0); c.tag(H::str("workers-", w)); return w;
}
/// The order in which the tasks of a run ended.
void observed(H::Case& c, std::uint64_t tasks)
{ c.tag("tasks", tm().verif_tasks() - tasks); c.nontrivial(H::comb(tm().verif_order(), 17)); if (tm().verif_peak() > 1) c.tag("tasks-overlapped"); }

struct Probes
{
    Model m{ "m" }; std::vector<std::size_t> sz; Chain ch; std::size_t n;
    explicit Probes(H::Rng& r, double fail_at = 1e300)
    {
        n = r.size(1, 3); sz = { r.size(1, 3) }; for (std::size_t i = 0; i < n; ++i) sz.push_back(r.size(1, 3));
        std::vector<P> l;
        for (std::size_t i = 0; i < n; ++i) { l.push_back(m.add_layer<PR::ProbeLayer>(H::str("p", i), int(i), sz[i], sz[i + 1])); if (i) m.create_edge(l[i - 1], l[i]); }
        auto loss = m.add_loss<PR::ProbeLoss>("loss", 50, sz[n], fail_at); m.create_loss_edge(l.back(), loss);
        ch.in = Img{ sz[0], 1, 1 }; Desc last; last.kind = Desc::Linear; last.out = Img{ sz[n], 1, 1 }; ch.layers.push_back(last);
    }
};

std::string show(const std::vector<Event>& l) { std::string s; for (auto& e: l) s += H::str(e.id, H::vstr(e.in), " "); return s.substr(0, 500); }
void events_of(H::Case& c, bool far)
{
    auto& r = c.rng; Probes q(r); auto n = q.n; auto w = schedule(c); bool entry = far ? c.id % 2 : r.chance(.5);
    auto rows = r.chance(.03) ? 0 : r.far(1, 40, 300), batch = r.far(1, 20, 400), epochs = r.chance(.03) ? 0 : r.size(1, 3);
    if (far) { rows = r.size(65560, 66500); batch = r.size(300, 3000); epochs = 1; c.tag("far-rows"); }
    else if (r.chance(.02)) { rows = r.size(130, 600); batch = r.size(129, rows); c.tag("large-batch"); }
    Data d = random_rows(r, rows, q.sz[0], q.ch);
    auto ds = rows ? d.make() : Dataset<double>(); auto before = ds.data();
    PR::ProbeOptimizer o; auto tasks = tm().verif_tasks(); tm().verif_order(); PR::logs().clear();
    if (entry) Entry::run(q.m, ds, o, epochs, batch); else Batch::run(q.m, ds, o, epochs, batch);
    // What each entry's step has to look like, and its gradients.
    auto step = [&](std::size_t i, std::vector<Vec>& g) {
        std::vector<Event> e; Vec v = d.in[i];
        for (std::size_t j = 0; j < n; ++j) { e.push_back({ 'T', int(j), v, {} }); v = PR::ProbeLayer::f(int(j), v, q.sz[j + 1]); }
        e.push_back({ 'L', 50, v, d.lab[i] }); Vec y(q.sz[n]); for (std::size_t j = 0; j < y.size(); ++j) y[j] = double(j) + d.lab[i][0];
        for (std::size_t j = n; j-- > 0;) { e.push_back({ 'B', int(j), y, {} }); for (std::size_t x = 0; x < 3; ++x) g[j][x] += y[x % y.size()]; Vec z(q.sz[j]); for (std::size_t x = 0; x < z.size(); ++x) z[x] = y[x % y.size()]; y = z; }
        return e; };
    auto key = [](const std::vector<Event>& e) { H::u64 h = 1; for (auto& x: e) h = H::comb(H::comb(h, H::u64(x.what) * 1000 + H::u64(x.id)), H::comb(H::hash_vec(x.in), H::hash_vec(x.t))); return h; };
    std::map<H::u64, long> want; std::map<H::u64, std::size_t> which; std::vector<std::vector<Vec>> g(rows, std::vector<Vec>(n, Vec(3, 0.)));
    for (std::size_t i = 0; i < rows; ++i) { auto k = key(step(i, g[i])); want[k] += long(epochs); which[k] = i; }
    // Whole steps only, each in one thread.
    std::size_t threads = 0, seen = 0;
    for (auto& l: PR::logs().all)
    {
        bool any = false;
        for (std::size_t i = 0; i < l->size();)
        {
            if ((*l)[i].what == 'U') { ++i; continue; }
            std::vector<Event> e; for (std::size_t k = 0; k < 2 * n + 1 && i < l->size() && (*l)[i].what != 'U'; ++k, ++i) e.push_back((*l)[i]);
            c.ok(--want[key(e)] >= 0, "step-unknown-or-repeated", [&] { return H::str(entry ? "entry" : "batch", " level, ", rows, " rows, batch ", batch, ", ", epochs, " epochs, ", w, " workers: input ", H::vstr(e[0].in)); });
            any = true; ++seen;
        }
        threads += any;
    }
    for (auto& x: want) c.ok(x.second <= 0, "entry-not-used", [&] { return H::str(entry ? "entry" : "batch", " level, ", rows, " rows, batch ", batch, ", ", epochs, " epochs, ", w, " workers: entry ", which[x.first]); });
    c.tag("steps", seen); if (threads > 1) c.tag("several-threads");
    // The updates, in the order of the entries.
    std::vector<Event> u; for (std::size_t e = 0; e < epochs; ++e)
        for (std::size_t i = 0; i < rows;)
        {
            std::vector<Vec> s(n, Vec(3, 0.));
            for (std::size_t b = 0; b < (entry ? 1 : batch) && i < rows; ++b, ++i) for (std::size_t j = 0; j < n; ++j) for (std::size_t x = 0; x < 3; ++x) s[j][x] += g[i][j][x];
            for (std::size_t j = 0; j < n; ++j) u.push_back({ 'U', int(j), s[j], {} });
        }
    std::vector<Event> got; for (auto& e: o.log) if (e.id != -1) got.push_back(e);
    for (std::size_t i = 0; i + n <= got.size(); i += n) std::sort(got.begin() + long(i), got.begin() + long(i + n), [](const Event& a, const Event& b) { return a.id % 1000 < b.id % 1000; });
    bool same = got.size() == u.size();
    for (std::size_t i = 0; same && i < u.size(); ++i) { same = got[i].id % 1000 == u[i].id && got[i].in.size() == 3; for (std::size_t x = 0; same && x < 3; ++x) same = H::close(got[i].in[x], u[i].in[x], 1e-12); }
    c.ok(same, "updates", [&] { return H::str(entry ? "entry" : "batch", " level, ", rows, " rows, batch ", batch, ", ", epochs, " epochs, ", w, " workers: ", got.size() / n, " updates instead of ", u.size() / n, ", or with other gradients: ", show(got), "instead of ", show(u)); });
    c.ok(ds.data() == before && ds.size() == rows, "dataset-changed");
    c.tag(entry ? "entry-level" : "batch-level"); if (rows % batch) c.tag("partial-batch"); if (!rows) c.tag("no-rows"); observed(c, tasks);
    c.nontrivial(H::comb(H::hash_vec(before), H::comb(batch, epochs)));
    c.sample(H::str(entry ? "entry" : "batch", " level, ", rows, " rows, batch ", batch, ", ", epochs, " epochs, ", w, " workers, ", threads, " threads, ", seen, " steps"));
}

void events(H::Case& c) { events_of(c, false); }
void far_events(H::Case& c) { events_of(c, true); }

void model(H::Case& c)
{
    auto& r = c.rng; Opts oo; oo.learnable = true; oo.max_layers = 3; Chain ch = random_chain(r, oo); ch.batch = 1;
    bool entry = r.chance(.5); auto type = r.chance(.5) ? OptimizerType::ADAM : OptimizerType::GRADIENT_DESCENT; double eta = r.pick({ .001, .03, r.uni(0, .1), r.uni(0, .1), r.uni(0, .1), r.pick({ 1.5, 3., 0., -.02, 1e-9 }) });
    auto batch = r.far(1, 12, 200), rows = r.far(1, 30, 200), epochs = r.size(1, 2); if (r.chance(.02)) { rows = r.size(130, 400); batch = r.size(129, rows); c.tag("large-batch-model"); } Data d = random_rows(r, rows, ch.in.size(), ch); auto ds = d.make();
    Model start = build(ch); randomize(start, r, .7); Vec p0 = params(start);
    auto fresh = [&](Model& m) { for (auto& l: m.loss_layers()) l->batch_size(batch); std::size_t k = 0; for (auto& l: m.layers()) for (std::size_t i = 0; i < l->param_count(); ++i) l->param(i) = p0[k++]; };
    for (std::size_t k = 0, runs = r.size(1, 2); k < runs; ++k)
    {
        auto w = schedule(c); auto tasks = tm().verif_tasks(); tm().verif_order();
        Model m = build(ch), h = build(ch); fresh(m); fresh(h); auto o = optimizer(type, eta), ho = optimizer(type, eta);
        if (entry) Entry::run(m, ds, *o, epochs, batch); else Batch::run(m, ds, *o, epochs, batch);
        train_by_hand(h, ch, d, *ho, epochs, batch, entry ? 1 : 2, w);
        Vec p = params(m); if (!tame(p)) { c.tag("diverged"); return; }
        c.ok(near(p, params(h)), "parameters", [&] { return H::str(entry ? "entry" : "batch", " level, ", ch.str(), " ", rows, " rows, batch ", batch, ", ", epochs, " epochs, ", w, " workers"); });
        Vec g = grads(m); c.ok(g == Vec(g.size(), 0.), "gradient-left"); c.ok(ds.data() == d.make().data(), "dataset-changed");
        Model again = build(ch); fresh(again); auto ao = optimizer(type, eta);
        if (entry) { schedule(c); Entry::run(again, ds, *ao, epochs, batch); c.tag("other-workers"); } else Batch::run(again, ds, *ao, epochs, batch);
        c.ok(params(again) == p, "not-deterministic", [&] { return H::str(entry ? "entry" : "batch", " level, ", ch.str()); });
        observed(c, tasks); c.nontrivial(H::hash_vec(p)); c.tag(entry ? "entry-model" : "batch-model");
    }
    c.sample(ch.str());
}

template<PL L> void fit_as(H::Case& c, int mode)
{
    auto& r = c.rng; NetOpts no; no.dropout = 0; no.max_layers = 3; Net n = random_net(r, no); Any e;
    if (r.chance(.5)) e = make_static<L>(r, n);
    else { auto f = make_edge<L>(r, n); e = { [f](Dataset<double>& d) { return f->predict(d); }, [f](Dataset<double>& d, OptimizerType o, std::size_t ep, std::size_t b, double l, unsigned s) { f->fit(d, o, ep, b, l, s); }, {} }; }
    Model h = build(n.chain); unsigned last = 1;
    for (std::size_t k = 0, fits = r.size(1, 2); k < fits; ++k)
    {
        auto w = schedule(c); auto tasks = tm().verif_tasks(); tm().verif_order();
        auto rows = r.size(1, 20), batch = r.size(1, 10), epochs = r.far(1, 2, 8); auto seed = k && r.chance(.4) ? last : unsigned(r.next() | 1); last = seed;
        auto type = r.chance(.5) ? OptimizerType::ADAM : OptimizerType::GRADIENT_DESCENT; double eta = r.pick({ .001, .03, r.uni(0, .1), r.uni(0, .1), r.uni(0, .1), r.pick({ 1.5, 3., 0., -.02, 1e-9 }) });
        Data d = random_rows(r, rows, n.in.size(), n.chain); auto ds = d.make(); auto x = d.inputs();
        e.fit(ds, type, epochs, batch, eta, seed); c.ok(ds.data() == d.make().data(), "dataset-changed");
        h.init(init_function(n.init), Model::ProbabilityDensityFunction::NORMAL, seed); for (auto& l: h.loss_layers()) l->batch_size(batch);
        auto o = optimizer(type, eta); train_by_hand(h, n.chain, d, *o, epochs, batch, mode, w);
        if (!tame(params(h))) { c.tag("diverged"); return; }
        auto y = e.predict(x);
        for (std::size_t i = 0; i < rows; ++i) { Vec want = h.predict(d.in[i]); c.must(near(y.entry(i), want), "trained-network", [&] { return H::str(n.str(), ", fit ", k, ", ", rows, " rows, batch ", batch, ", ", epochs, " epochs, ", w, " workers: ", H::vstr(y.entry(i)), " instead of ", H::vstr(want)); }); }
        observed(c, tasks); c.nontrivial(H::hash_vec(y.data())); c.tag(H::str("fit-", mode));
    }
    c.sample(n.str());
}
void fit(H::Case& c) { if (c.rng.chance(.5)) fit_as<PL::THREAD_PARALLELISM_ON_DATA_ENTRY>(c, 1); else fit_as<PL::THREAD_PARALLELISM_ON_DATA_BATCH>(c, 2); }

/// A step that fails: the caller gets the exception when no task uses the model or the dataset anymore.
void failing(H::Case& c)
{
    auto& r = c.rng; schedule(c); bool entry = r.chance(.5); auto tasks = tm().verif_tasks(); tm().verif_order(); PR::logs().clear();
    auto rows = r.size(2, 30), batch = r.size(1, 12); std::size_t bad = r.below(rows); bool caught = false; std::string what;
    {
        auto q = std::make_unique<Probes>(r, 777.); Data d = random_rows(r, rows, q->sz[0], q->ch);
        std::size_t first = *d.cols.begin(); d.rows[bad][first] = 777.;
        auto ds = std::make_unique<Dataset<double>>(d.rows, 1, d.cols); auto o = std::make_unique<PR::ProbeOptimizer>();
        int kind = int(r.below(5)); dynamic_cast<PR::ProbeLoss&>(*q->m.loss_layers()[0]).kind = kind; c.tag(H::str("thrown-", kind));
        try { if (entry) Entry::run(q->m, *ds, *o, 2, batch); else Batch::run(q->m, *ds, *o, 2, batch); } catch (const std::out_of_range& e) { caught = kind == 1; what = e.what(); } catch (const std::runtime_error& e) { caught = kind == 0; what = e.what(); }
        catch (const std::logic_error& e) { caught = kind == 2; what = e.what(); } catch (const std::bad_alloc&) { caught = kind == 3; what = "step failed"; } catch (int i) { caught = kind == 4 && i == 42; what = "step failed"; }
        auto count = [&] { std::size_t k = 0; for (auto& l: PR::logs().all) k += l->size(); return k; };
#ifndef VERIF_FLAVOR_TSAN
        auto before = count(); std::this_thread::sleep_for(std::chrono::microseconds(r.size(0, 600)));
        c.ok(count() == before, "step-after-the-exception", [&] { return H::str(entry ? "entry" : "batch", " level, ", rows, " rows, batch ", batch, ", failing entry ", bad); });
#else
        (void) count;
#endif
    }
    c.ok(caught && what == "step failed", "exception-lost", [&] { return what; });
    // Wait for whatever is still running: it would use what is gone.
    std::vector<std::future<int>> f; for (int i = 0; i < 16; ++i) f.push_back(tm().enqueue([] { return 1; })); for (auto& x: f) x.get();
    observed(c, tasks); c.tag("step-failed"); c.nontrivial(H::comb(H::comb(rows, batch), H::comb(bad, entry)));
}

/// Independent models in several threads do what they do alone.
void independent(H::Case& c)
{
    auto& r = c.rng; auto n = r.size(2, 4); std::vector<H::u64> seeds; for (std::size_t i = 0; i < n; ++i) seeds.push_back(r.chance(.3) && i ? seeds[0] : r.next());
    auto work = [](H::u64 seed) {
        H::Rng r(seed); Opts oo; oo.learnable = true; oo.max_layers = 3; Chain ch = random_chain(r, oo); Model m = build(ch); Vec out;
        out.push_back(double(m.init(Model::InitializationFunction::AUTO, Model::ProbabilityDensityFunction::NORMAL, unsigned(seed | 1))));
        Data d = random_rows(r, r.size(1, 8), ch.in.size(), ch); auto ds = d.make(); auto o = optimizer(r.chance(.5) ? OptimizerType::ADAM : OptimizerType::GRADIENT_DESCENT, .01);
        Training<PL::SEQUENTIAL, double>::run(m, ds, *o, 2, r.size(1, 4));
        Model k(m); k.step(d.in[0], d.lab[0]); m.train(*o, k); Model a("a"); a = k; for (auto& l: a.layers()) { Json j = l->dump(); (void) j; }
        Vec p = params(a); out.insert(out.end(), p.begin(), p.end());
        for (auto& x: d.in) { Vec y = a.predict(x); out.insert(out.end(), y.begin(), y.end()); }
        RecurrentLayer l("r", 2, 3, 2, 2); for (std::size_t i = 0; i < l.param_count(); ++i) l.param(i) = r.uni(-1, 1);
        Vec y = l.forward(r.vec(4, -1, 1)); out.insert(out.end(), y.begin(), y.end());
        auto parts = ds.split(.5); for (auto x: parts.training_set.data()) out.push_back(x);
        return out; };
    std::vector<Vec> got(n); std::vector<std::thread> t;
    for (std::size_t i = 0; i < n; ++i) t.emplace_back([&, i] { got[i] = work(seeds[i]); });
    for (auto& x: t) x.join();
    for (std::size_t i = 0; i < n; ++i) { Vec w = work(seeds[i]); bool same = w.size() == got[i].size(); for (std::size_t k = 0; same && k < w.size(); ++k) same = H::same(w[k], got[i][k]); c.ok(same, "independent-models", [&] { return H::str(n, " threads"); }); c.nontrivial(H::hash_vec(w)); }
    c.tag("independent"); c.sample(H::str(n, " threads"));
}
}

int main(int argc, char** argv)
{
#ifdef VERIF_FLAVOR_TSAN
    return H::run(argc, argv, {
        { "events", 500, 15000, events },
        { "model", 400, 12000, model },
        { "fit", 250, 8000, fit },
        { "failing", 250, 8000, failing },
        { "independent", 250, 8000, independent },
    });
#else
    return H::run(argc, argv, {
        { "events", 3000, 80000, events },
        { "far", 2, 12, far_events },
        { "model", 2000, 60000, model },
        { "fit", 1500, 40000, fit },
        { "failing", 1200, 30000, failing },
        { "independent", 1000, 30000, independent },
    });
#endif
}
