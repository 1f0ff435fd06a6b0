// C28: networks built from layer descriptors against models assembled by hand, over histories of the three interfaces.
#include "fnn.hpp"
using namespace F;
using Result = NeuralNetwork<double>::EvaluationResult;

namespace {
/// The settings and descriptors themselves: what is put in is what comes out.
bool shows(const LayerDescriptor& l, const Desc& d, ActivationType a)
{
    auto& s = l.setting(); LayerType t = d.kind == Desc::Dense ? LayerType::Dense : d.kind == Desc::Conv ? LayerType::Conv : d.kind == Desc::MaxPool ? LayerType::MaxPool : d.kind == Desc::AvgPool ? LayerType::AvgPool : LayerType::Dropout;
    auto two = [](const DLMath::Shape2d& x, std::size_t h, std::size_t w) { return x.height() == h && x.width() == w; };
    return l.name() == d.name && l.type() == t && l.activation_type() == a && s.units().size() == (d.kind == Desc::Dense ? d.out.size() : 0)
        && s.n_filters() == (d.kind == Desc::Conv ? d.f : 0) && (d.image() ? two(s.kernel_shape(), d.kh, d.kw) && two(s.stride(), d.sh, d.sw) : s.kernel_shape().size() == 0)
        && (d.kind == Desc::Conv ? two(s.padding(), d.ph, d.pw) : s.padding().size() == 0) && s.drop_probability() == (d.kind == Desc::Dropout ? d.p : 0.);
}

/// The evaluation of predictions, written out.
struct Eval { double loss = 0, acc = 0; bool sure = true; };
Eval judge(const std::vector<Vec>& y, const std::vector<Vec>& t, LossType loss)
{
    Eval e;
    for (std::size_t i = 0; i < y.size(); ++i)
    {
        double l = 0; auto n = y[i].size();
        if (loss == LossType::MSE)
        {
            for (std::size_t k = 0; k < n; ++k) l += (t[i][k] - y[i][k]) * (t[i][k] - y[i][k]);
            l /= double(n); e.acc += l <= .1; if (std::fabs(l - .1) < 1e-9) e.sure = false;
        }
        else
        {
            for (std::size_t k = 0; k < n; ++k) l -= t[i][k] * std::log(std::max(y[i][k], std::numeric_limits<double>::epsilon()));
            auto best = std::size_t(std::max_element(y[i].begin(), y[i].end()) - y[i].begin()); e.acc += t[i][best] == 1;
            std::size_t ones = 0; for (auto v: t[i]) if (v == 1) ++ones; else if (v != 0) e.sure = false;
            if (ones != 1) e.sure = false;
            for (std::size_t k = 0; k < n; ++k) if (k != best && std::fabs(y[i][k] - y[i][best]) < 1e-9) e.sure = false;
        }
        e.loss += l;
    }
    e.loss /= double(y.size()); e.acc /= double(y.size()); return e;
}
void agree(H::Case& c, const Result& r, const std::vector<Vec>& y, const std::vector<Vec>& t, LossType loss, const std::string& who)
{
    Eval e = judge(y, t, loss);
    c.ok(H::close(double(r.loss), e.loss, 1e-8, 1e-3), "evaluated-loss", [&] { return H::str(who, ": ", r.loss, " instead of ", e.loss); });
    if (e.sure) { c.ok(H::close(double(r.accuracy), e.acc, 1e-9), "evaluated-accuracy", [&] { return H::str(who, ": ", r.accuracy, " instead of ", e.acc); }); c.tag("accuracy"); if (e.acc > 0 && e.acc < 1) c.tag("partly-correct"); }
    c.ok(H::close(double(r.accuracy_perc), 100 * double(r.accuracy)) && H::close(double(r.error_rate), 1 - double(r.accuracy), 1e-9, 1) && H::close(double(r.error_rate_perc), 100 - 100 * double(r.accuracy), 1e-9, 100), "evaluation-fields", [&] { return who; });
    c.tag(loss == LossType::CCE ? "evaluate-cce" : "evaluate-mse");
}
void check_rows(H::Case& c, Dataset<double> y, Model& h, const Data& d, const char* key, const std::string& who, std::vector<Vec>* out = nullptr)
{
    auto outs = h.output_size();
    c.must(y.size() == d.size() && (d.size() == 0 || y.feature_size() == outs) && y.data().size() == d.size() * outs, "prediction-size", [&] { return H::str(who, ": ", y.size(), "x", y.feature_size()); });
    for (std::size_t i = 0; i < d.size(); ++i)
    {
        Vec want = h.predict(d.in[i]), got = y.entry(i); if (out) out->push_back(got);
        c.must(near(got, want, 1e-8, 1e-3), key, [&] { return H::str(who, ", row ", i, " of ", d.size(), ": ", H::vstr(got), " instead of ", H::vstr(want)); });
    }
}

/// One network, its three forms, freshly initialised.
void described_as(H::Case& c, NetOpts no)
{
    auto& r = c.rng; Net n = random_net(r, no); for (std::size_t i = 0; i < n.layers.size(); ++i) { auto l = describe(r, n.layers[i], n.acts[i]); c.ok(shows(l, n.layers[i], n.acts[i]), "descriptor", [&] { return n.layers[i].str(); }); c.tag(n.layers[i].str().substr(0, n.layers[i].str().find('('))); c.tag(H::str("activation-", int(n.acts[i]))); }
    auto list = describe(r, n); std::shared_ptr<Static> e = n.loss == LossType::CCE ? make_edge_lt<PL::SEQUENTIAL, LossType::CCE>(n.init) : make_edge_lt<PL::SEQUENTIAL, LossType::MSE>(n.init);
    if (r.chance(.1)) { Data d = random_rows(r, 2, n.in.size(), n.chain); auto ds = d.make(); c.ok(H::throws([&] { e->fit(ds); }), "fit-without-layers"); c.tag("no-layers"); }
    for (std::size_t i = 0; i < list.size(); ++i)
    {
        e->add(list[i]);
        if (r.chance(.05)) { c.ok(H::throws([&] { e->add(Input("again", LayerShape(n.in.size()))); }), "second-input-accepted"); c.tag("second-input"); }
    }
    c.ok(e->input_size() == n.in.size() && e->output_size() == n.out(), "sizes", [&] { return H::str(n.str(), ": ", e->input_size(), " -> ", e->output_size()); });
    Data d = random_rows(r, r.size(1, 12), n.in.size(), n.chain); auto ds = d.make(); auto x = d.inputs(); auto seed = unsigned(r.next() | 1); auto batch = r.size(1, 6);
    Model h = build(n.chain); h.init(init_function(n.init), Model::ProbabilityDensityFunction::NORMAL, seed); std::string s = n.str();
    std::vector<Vec> y;
    e->fit(ds, OptimizerType::ADAM, 0, batch, .1, seed); check_rows(c, e->predict(x), h, d, "described-network", s, &y);
    auto both = r.chance(.5) ? n.loss : n.loss == LossType::CCE ? LossType::MSE : LossType::CCE;
    std::vector<Vec> t = d.lab;
    if (both == LossType::CCE && n.loss != LossType::CCE) { for (auto& v: t) { std::fill(v.begin(), v.end(), 0.); v[r.below(v.size())] = 1; } Data q = d; q.lab = t; for (std::size_t i = 0; i < q.size(); ++i) { std::size_t k = 0; for (auto j: q.cols) q.rows[i][j] = t[i][k++]; } ds = q.make(); c.tag("other-loss"); }
    auto before = ds.data(); auto res = e->evaluate(ds, both); agree(c, res, y, t, both, s); c.ok(ds.data() == before, "dataset-changed");
    check_rows(c, e->predict(x), h, d, "evaluation-changes-network", s); c.ok(x.data() == d.inputs().data(), "dataset-changed");
    auto f = make_static<PL::SEQUENTIAL>(r, n); f.fit(ds, OptimizerType::GRADIENT_DESCENT, 0, batch, .1, seed); check_rows(c, f.predict(x), h, d, "static-network", s);
    auto own = d.make(); agree(c, f.evaluate(own), y, d.lab, n.loss, s);
    DynamicFeedforwardNeuralNetwork<PL::SEQUENTIAL, double> dyn(describe(r, n), "net"); dyn.compile(n.loss, OptimizerType::ADAM, n.init); dyn.fit(own, 0, batch, .1, seed);
    auto all = dyn.predict(x); c.must(all.size() == 1 && all.count(Framework::EDGE_LEARNING), "frameworks"); check_rows(c, all[Framework::EDGE_LEARNING], h, d, "dynamic-network", s);
    c.nontrivial(H::comb(n.chain.hash(), seed)); if (d.seq > 1) c.tag("sequences"); c.sample(s);
}

void described(H::Case& c) { described_as(c, {}); }
/// Far more layers than usual.
void lengthy(H::Case& c) { NetOpts no; no.min_layers = 20; no.max_layers = c.rng.chance(.3) ? 160 : 45; no.images = c.rng.chance(.3); described_as(c, no); c.tag("lengthy"); }

/// A runtime-configured network and a statically configured one over a history, against a model by hand.
template<PL L> void history_as(H::Case& c, int mode)
{
    auto& r = c.rng; NetOpts no; no.dropout = mode ? 0 : .1; no.max_layers = 3; Net n = random_net(r, no);
    for (auto& d: n.layers) if (d.kind == Desc::Dropout) d.p = 0;
    n.acts.back() = ActivationType::Softmax; finish(n); std::string s = n.str();
    DynamicFeedforwardNeuralNetwork<L, double> dyn(describe(r, n), "net"); const auto E = Framework::EDGE_LEARNING;
    bool compiled = false; OptimizerType opt = OptimizerType::ADAM; Any f; std::unique_ptr<Model> h; bool known = false; unsigned last = 1;
    auto reset = [&](LossType l, OptimizerType o, InitType i) { n.loss = l; n.init = i; opt = o; finish(n); h = std::make_unique<Model>(build(n.chain)); f = make_static<L>(r, n); compiled = true; known = false; };
    for (std::size_t k = 0, ops = r.size(3, 9); k < ops && !c.failed; ++k)
    {
        Data d = random_rows(r, r.size(1, 10), n.in.size(), n.chain); auto ds = d.make(); auto x = d.inputs(); bool one = r.chance(.5);
        auto op = r.below(9);
        if (op < 2)
        {
            auto l = r.chance(.5) ? LossType::CCE : LossType::MSE; auto o = r.chance(.5) ? OptimizerType::ADAM : OptimizerType::GRADIENT_DESCENT; auto i = r.pick({ InitType::HE_INIT, InitType::XAVIER_INIT, InitType::AUTO });
            if (r.chance(.2)) { l = LossType::MSE; o = OptimizerType::ADAM; i = InitType::AUTO; if (one) dyn.compile(E); else dyn.compile(); c.tag("default-compile"); }
            else if (one) dyn.compile(E, l, o, i); else dyn.compile(l, o, i);
            if (compiled) c.tag("compiled-again");
            reset(l, o, i); c.tag("compile");
        }
        else if (op < 5)
        {
            auto batch = r.size(1, 6), epochs = r.far(0, 2, 6); double eta = r.pick({ .001, .03, .1, r.uni(0, .1), r.pick({ 1.5, 3., 0., -.02, 1e-9 }) }); auto seed = k && r.chance(.3) ? last : unsigned(r.next() | 1); last = seed;
            auto go = [&] { if (one) dyn.fit(E, ds, epochs, batch, eta, seed); else dyn.fit(ds, epochs, batch, eta, seed); };
            if (!compiled) { c.ok(H::throws(go), "fit-before-compile"); c.tag("fit-before-compile"); continue; }
            auto w = BetterThreads::TaskManager::instance().maximum_concurrency();
            go(); f.fit(ds, opt, epochs, batch, eta, seed);
            h->init(init_function(n.init), Model::ProbabilityDensityFunction::NORMAL, seed); for (auto& q: h->loss_layers()) q->batch_size(batch);
            auto o = optimizer(opt, eta); train_by_hand(*h, n.chain, d, *o, epochs, batch, mode, w); known = tame(params(*h)); if (!known) return;
            c.tag("fit");
        }
        else if (op < 7)
        {
            auto y = one ? dyn.predict(E, x) : dyn.predict(x)[E];
            if (!compiled) { reset(LossType::MSE, OptimizerType::ADAM, InitType::AUTO); c.tag("predict-before-compile"); }
            c.must(y.size() == d.size() && y.feature_size() == n.out(), "prediction-size");
            if (known) { check_rows(c, y, *h, d, "dynamic-history", s); auto z = f.predict(x); c.ok(z.data() == y.data(), "dynamic-differs-from-static", [&] { return s; }); c.tag("predict"); c.nontrivial(H::hash_vec(y.data())); }
        }
        else
        {
            auto go = [&] { return one ? dyn.evaluate(E, ds) : dyn.evaluate(ds)[E]; };
            if (!compiled) { c.ok(H::throws(go), "evaluate-before-compile"); c.tag("evaluate-before-compile"); continue; }
            auto before = ds.data(); auto y0 = dyn.predict(E, x); auto res = go(); std::vector<Vec> y; for (std::size_t i = 0; i < d.size(); ++i) y.push_back(y0.entry(i));
            agree(c, res, y, d.lab, n.loss, s); c.ok(ds.data() == before, "dataset-changed"); c.ok(dyn.predict(E, x).data() == y0.data(), "evaluation-changes-network", [&] { return s; });
            if (known) { auto e2 = f.evaluate(ds); c.ok(H::same(double(e2.loss), double(res.loss)) && H::same(double(e2.accuracy), double(res.accuracy)), "dynamic-differs-from-static", [&] { return s; }); }
        }
    }
    c.tag(H::str("mode-", mode)); c.sample(s);
}
void history(H::Case& c)
{
    switch (c.rng.below(4))
    {
        case 0: return history_as<PL::THREAD_PARALLELISM_ON_DATA_ENTRY>(c, 1);
        case 1: return history_as<PL::THREAD_PARALLELISM_ON_DATA_BATCH>(c, 2);
        default: return history_as<PL::SEQUENTIAL>(c, 0);
    }
}

/// A runtime-configured network asked for its sizes before anything else, then used without being compiled.
void sizes(H::Case& c)
{
    auto& r = c.rng; NetOpts no; no.dropout = 0; Net n = random_net(r, no); n.loss = LossType::MSE; n.init = InitType::AUTO; finish(n); std::string s = n.str();
    using Dyn = DynamicFeedforwardNeuralNetwork<PL::SEQUENTIAL, double>::SubModelType<Framework::EDGE_LEARNING>; Dyn dyn(describe(r, n), "net");
    Data d = random_rows(r, r.size(1, 6), n.in.size(), n.chain); auto ds = d.make(); auto x = d.inputs(); auto seed = unsigned(r.next() | 1);
    if (r.chance(.5)) { c.ok(H::throws([&] { dyn.fit(ds, 1, 1, .1, seed); }), "fit-before-compile"); c.ok(H::throws([&] { dyn.evaluate(ds); }), "evaluate-before-compile"); }
    switch (r.below(3))
    {
        case 0: c.ok(dyn.input_size() == n.in.size() && dyn.output_size() == n.out(), "sizes", [&] { return s; }); break;
        case 1: c.ok(dyn.output_size() == n.out() && dyn.input_size() == n.in.size(), "sizes", [&] { return s; }); break;
        default: { auto y = dyn.predict(x); c.ok(y.size() == d.size() && y.feature_size() == n.out() && dyn.output_size() == n.out(), "sizes", [&] { return s; }); }
    }
    auto epochs = r.size(0, 2), batch = r.size(1, 4); Model h = build(n.chain); h.init(init_function(n.init), Model::ProbabilityDensityFunction::NORMAL, seed); for (auto& l: h.loss_layers()) l->batch_size(batch);
    dyn.fit(ds, epochs, batch, .01, seed); auto o = optimizer(OptimizerType::ADAM, .01); train_by_hand(h, n.chain, d, *o, epochs, batch, 0); if (!tame(params(h))) return;
    std::vector<Vec> y; check_rows(c, dyn.predict(x), h, d, "dynamic-network", s, &y); agree(c, dyn.evaluate(ds), y, d.lab, LossType::MSE, s);
    c.tag("sizes-first"); c.nontrivial(H::comb(n.chain.hash(), seed));
    if (r.chance(.5)) { n.loss = LossType::CCE; if (n.acts.back() == ActivationType::Softmax) { finish(n); dyn.compile(LossType::CCE, OptimizerType::GRADIENT_DESCENT, InitType::HE_INIT); c.ok(dyn.input_size() == n.in.size() && dyn.output_size() == n.out(), "sizes", [&] { return s; }); } }
}

/// Evaluation and prediction of very many rows.
void many(H::Case& c)
{
    auto& r = c.rng; NetOpts no; no.dropout = 0; no.max_layers = 2; Net n; do n = random_net(r, no); while (n.in.size() > 10 || n.out() > 5 || n.out() < 2 || n.chain.layers.size() > 4); std::string s = n.str();
    auto f = make_static<PL::SEQUENTIAL>(r, n); auto seed = unsigned(r.next() | 1); Model h = build(n.chain); h.init(init_function(n.init), Model::ProbabilityDensityFunction::NORMAL, seed);
    Data d = random_rows(r, r.size(65600, 68000), n.in.size(), n.chain); auto ds = d.make(); auto x = d.inputs(); Data few = d; few.in.resize(1); few.lab.resize(1); few.rows.resize(1); few.seq = 1; auto one = few.make();
    f.fit(one, OptimizerType::GRADIENT_DESCENT, 0, 1, .1, seed);
    std::vector<Vec> y; check_rows(c, f.predict(x), h, d, "static-network", s, &y); agree(c, f.evaluate(ds), y, d.lab, n.loss, s);
    c.tag("rows>65500"); c.nontrivial(H::hash_vec(ds.data())); c.sample(H::str(s, " ", d.size(), " rows"));
}
}

int main(int argc, char** argv)
{
    return H::run(argc, argv, {
        { "described", 8000, 250000, described },
        { "history", 4000, 120000, history },
        { "sizes", 1000, 30000, sizes },
        { "many", 8, 80, many },
        { "lengthy", 250, 5000, lengthy },
    });
}
