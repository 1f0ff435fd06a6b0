// Workloads over every part of the library that end in one digest of everything they saw.
#ifndef VERIF_WORKS_HPP
#define VERIF_WORKS_HPP

#include "fnn.hpp"
#include "csvgen.hpp"
#include "jsongen.hpp"
#include "dnn/dlgraph.hpp"
#include "parser/cifar.hpp"
#include "parser/csv.hpp"
#include "parser/mnist.hpp"
#include "stopwatch.hpp"

namespace W {
using namespace F;

/// What a workload saw, as one number.
struct Seen
{
    H::u64 h = 1; std::size_t n = 0;
    void u(H::u64 x) { h = H::comb(h, x); ++n; }
    void d(double x) { H::u64 b; if (x == 0) x = 0; std::memcpy(&b, &x, 8); u(std::isnan(x) ? 7 : b); }
    void s(const std::string& x) { u(H::hash_str(x)); }
    template<class V> void v(const V& x) { u(x.size()); for (auto y: x) d(double(y)); }
};
typedef std::function<void(H::Rng&, Seen&)> Work;

inline void types(H::Rng& r, Seen& o)
{
    std::vector<std::string> f;
    for (int k = 0; k < 6; ++k) { f.push_back(r.chance(.5) ? G::number(r) : r.chance(.5) ? G::word(r, ',') : G::anytext(r, ',')); o.u(H::u64(TypeChecker::parse(f.back()))); }
    TypeChecker tc; for (auto& s: f) { double d = 0; o.u(tc(s, d)); o.d(d); int i = 0; o.u(tc(s, i)); o.u(H::u64(long(i))); bool b = false; o.u(tc(s, b)); o.u(b); }
    o.s(tc(r.uni(-9, 9))); o.s(tc(int(r.range(-99, 99)))); o.s(tc(r.chance(.5)));
}
inline void csv(H::Rng& r, Seen& o)
{
    auto g = G::csv(r, G::MIXED, 9, 5, 0); H::TmpFile f(g.text(), ".csv"); std::set<SizeType> l; if (r.chance(.7)) l.insert(r.below(g.cols));
    CSV c(f.path(), { TypeChecker::Type::AUTO }, g.sep, l);
    for (auto t: c.types()) o.u(H::u64(t));
    for (auto& row: c) { o.s(row.line()); o.u(row.idx()); for (auto& x: std::vector<std::string>(row)) o.s(x); }
    for (int k = 0; k < 4; ++k) { auto i = r.below(g.rows()); CSVRow row = c[i]; o.s(std::string(row)); o.u(row.size()); for (std::size_t j = 0; j < row.size(); ++j) o.s(row[j].as<std::string>()); }
    for (std::size_t i = 0; i + 1 < g.rows(); ++i) o.v(c.entry(i));
    if (g.rows() > 1) { o.v(c.unique(0)); auto ds = Dataset<double>::parse(c, r.chance(.5) ? DatasetParser::LabelEncoding::DEFAULT_ENCODING : DatasetParser::LabelEncoding::ONE_HOT_ENCODING); o.v(ds.data()); o.v(ds.label_idx()); CSV q(c); o.v(q.entry(0)); }
}
inline void json(H::Rng& r, Seen& o)
{
    auto p = J::tree(r, 3); std::string t = std::string(p.second); o.s(t);
    std::stringstream in(J::write(p.first)); Json q; in >> q; o.s(std::string(q)); std::ostringstream out; out << q; o.s(out.str());
    JsonItem a = p.second; o.u(a == p.second); o.u(a.size());
    std::stringstream bad(t + (r.chance(.5) ? "]" : "{")); try { Json x; bad >> x; o.s(std::string(x)); } catch (const std::bad_alloc&) { throw; } catch (const std::exception& e) { o.s(e.what()); }
}
inline std::string be(std::uint32_t v) { return { char(v >> 24), char(v >> 16), char(v >> 8), char(v) }; }
inline std::string bytes(H::Rng& r, std::size_t n) { std::string s(n, 0); for (auto& c: s) c = char(r.next()); return s; }
inline void mnist(H::Rng& r, Seen& o)
{
    auto n = r.size(1, 3); H::TmpFile im(be(0x803) + be(std::uint32_t(n)) + be(28) + be(28) + bytes(r, n * 784)), lb(be(0x801) + be(std::uint32_t(n)) + bytes(r, n));
    Mnist m(im.path(), lb.path());
    for (int k = 0; k < 3; ++k) { auto i = r.below(n); auto x = m[i]; o.v(x.image.data()); o.u(x.label.data()); o.s(std::string(x.image)); o.v(m.entry(i)); }
}
inline void cifar(H::Rng& r, Seen& o)
{
    bool h = r.chance(.5); auto n = r.size(1, 2); H::TmpFile b(bytes(r, n * (3072 + (h ? 2 : 1)))), names("a\nb\nc d\n"), fine("x\ny\n");
    auto order = r.chance(.5) ? CifarShapeOrder::ROW_COL_CHN : CifarShapeOrder::CHN_ROW_COL;
    auto c = h ? std::make_unique<Cifar>(b.path(), names.path(), order, CifarDataset::CIFAR_100, fine.path()) : std::make_unique<Cifar>(b.path(), names.path(), order, CifarDataset::CIFAR_10);
    for (int k = 0; k < 2; ++k) { auto i = r.below(n); auto x = (*c)[i]; o.v(x.image.data()); o.s(std::string(x.label)); o.s(std::string(x.image)); o.v(c->entry(i)); }
}
template<class S> void show(const Dataset<double>& d, S& o)
{
    o.v(d.data()); o.u(d.size()); o.u(d.feature_size()); o.u(d.sequence_size()); o.v(d.label_idx()); o.v(d.input_idx());
    for (std::size_t i = 0; i < d.size(); ++i) { o.v(d.entry(i)); o.v(d.input(i)); o.v(d.label(i)); }
    for (std::size_t i = 0; i < d.size() / std::max<std::size_t>(1, d.sequence_size()); ++i) { o.v(d.entry_seq(i)); o.v(d.inputs_seq(i)); o.v(d.labels_seq(i)); }
    o.v(d.inputs().data()); o.v(d.labels().data());
}
inline Dataset<double> dataset(H::Rng& r)
{
    auto n = r.size(2, 12), fs = r.size(2, 5); std::vector<Vec> rows; for (std::size_t i = 0; i < n; ++i) rows.push_back(r.vec(fs, -3, 3));
    return Dataset<double>(rows, r.chance(.7) ? 1 : 2, { r.below(fs) });
}
inline void tables(H::Rng& r, Seen& o)
{
    auto d = dataset(r); show(d, o); auto p = d.split(r.uni()); show(p.training_set, o); show(p.testing_set, o);
    RneType g(std::uint_fast32_t(r.next() | 1)); auto sh = d.shuffle(g); show(sh, o); show(d.subdata(0, d.size() / 2), o); show(d.min_max_normalization(0., 1.), o);
    Dataset<double> q(d); q.sequence_size(1); q.label_idx({ 0, 1 }); show(q, o); show(Dataset<double>::concatenate(d, d), o);
}
inline void kernels(H::Rng& r, Seen& o)
{
    using M = DLMath; auto n = r.size(2, 40); Vec x = r.vec(n, -3, 3), y(n), g = r.vec(n, -1, 1);
    M::relu(y.data(), x.data(), n); o.v(y); M::elu(y.data(), x.data(), n, .7); o.v(y); M::tanh(y.data(), x.data(), n); o.v(y); M::sigmoid(y.data(), x.data(), n); o.v(y);
    M::stable_softmax(y.data(), x.data(), n); o.v(y); M::softmax(y.data(), x.data(), n); o.v(y); Vec z(n); M::softmax_1_opt(z.data(), y.data(), g.data(), n); o.v(z); M::softmax_1(z.data(), x.data(), g.data(), n); o.v(z);
    o.d(M::cross_entropy(y.data(), z.data(), n)); o.d(M::mean_squared_error(x.data(), g.data(), n)); o.u(M::argmax(x.data(), n)); o.d(M::max(x.data(), n));
    auto h = r.size(2, 6), w = r.size(2, 6), c = r.size(1, 2), f = r.size(1, 3); Vec img = r.vec(h * w * c, -1, 1), ker = r.vec(4 * c * f, -1, 1), out((h - 1) * (w - 1) * std::max(f, c));
    M::cross_correlation<double>(out.data(), img.data(), M::Shape3d(h, w, c), ker.data(), M::Shape2d(2, 2), f, M::Shape2d(1, 1), M::Shape2d(0, 0)); o.v(out);
    M::max_pool<double>(out.data(), img.data(), M::Shape3d(h, w, c), M::Shape2d(2, 2), M::Shape2d(1, 1)); o.v(out); M::avg_pool<double>(out.data(), img.data(), M::Shape3d(h, w, c), M::Shape2d(2, 2), M::Shape2d(1, 1)); o.v(out);
    Vec mat = r.vec(n * 3, -1, 1), p(3); M::matarr_mul<double>(p.data(), mat.data(), x.data(), 3, n); o.v(p); M::matarr_mul_no_check<double>(p.data(), mat.data(), x.data(), 3, n); o.v(p);
    Vec both(2 * n); std::size_t axis = r.below(3); M::Shape3d s(n, 1, 1); M::concatenate<double>(both.data(), x.data(), s, g.data(), s, axis); o.v(both); M::separate<double>(y.data(), s, z.data(), s, both.data(), axis); o.v(y); o.v(z);
    RneType e(std::uint_fast32_t(r.next() | 1)); for (auto t: { M::ProbabilityDensityFunction::NORMAL, M::ProbabilityDensityFunction::UNIFORM }) { auto pdf = M::pdf<double>(1, .5, t); for (int k = 0; k < 5; ++k) o.d(pdf(e)); }
    for (auto i: M::unique_rand_sequence(2, 30, e)) o.u(i); for (int k = 0; k < 5; ++k) o.u(M::rand<std::size_t>(3, 90, e));
    try { M::concatenate<double>(both.data(), x.data(), s, g.data(), s, 5); } catch (const std::bad_alloc&) { throw; } catch (const std::exception& ex) { o.s(ex.what()); }
}
inline void layers(H::Rng& r, Seen& o)
{
    for (int k = 0; k < 2; ++k)
    {
        Img in = random_image(r); while (in.size() > 200) in = random_image(r);
        Desc d = random_layer(r, in); if (r.chance(.15)) { d = Desc(); d.kind = Desc::Dropout; d.in = d.out = in; d.p = .4; d.seed = unsigned(r.next() | 1); }
        d.name = H::str("l", k); P l = make(d); randomize(*l, r); Vec x = r.vec(d.in.size(), -1, 1), g = r.vec(d.out.size(), -1, 1);
        for (int t = 0; t < 2; ++t) { o.v(l->training_forward(x)); o.v(l->backward(g)); o.v(l->forward(x)); }
        o.v(grads(*l)); P q = l->clone(); o.v(q->forward(x)); Json j = l->dump(); o.s(std::string(j)); P z = make(d); z->load(j); o.v(params(*z)); o.s(z->name()); o.s(l->type());
    }
    RecurrentLayer l("r", 2, 3, 2, 3); for (std::size_t i = 0; i < l.param_count(); ++i) l.param(i) = r.uni(-1, 1);
    Vec x = r.vec(6, -1, 1); o.v(l.training_forward(x)); o.v(l.backward(r.vec(9, -1, 1))); o.v(grads(l)); o.v(l.forward(x)); o.s(std::string(l.dump()));
}
inline void losses(H::Rng& r, Seen& o)
{
    auto n = r.size(1, 9); Vec t(n), y = r.vec(n, .01, 1); t[r.below(n)] = 1; MeanSquaredLossLayer a("a", n, 2, .3); CategoricalCrossEntropyLossLayer b("b", n, 2);
    for (LossLayer* l: { (LossLayer*) &a, (LossLayer*) &b }) { l->set_target(t); l->training_forward(y); o.d(l->avg_loss()); o.d(l->accuracy()); o.v(l->backward(y)); P q = l->clone(); o.s(q->name()); o.s(std::string(l->dump())); l->reset_score(); }
}
inline void graphs(H::Rng& r, Seen& o)
{
    DLGraph g; auto n = r.size(2, 7); std::vector<P> l;
    for (std::size_t i = 0; i < n; ++i) { l.push_back(std::make_shared<LinearLayer>(H::str("n", i), 2)); g.add_node(l.back()); }
    for (std::size_t i = 1; i < n; ++i) g.add_edge(l[r.below(i)], l[i]);
    DLGraph q(g); for (auto* x: { &g, &q }) { for (auto& a: x->training_forward_run()) { o.u(H::u64(x->index_of(*a.from))); o.u(H::u64(x->index_of(*a.to))); } o.v(x->training_forward_adjacent_matrix()); o.v(x->input_layers_idx()); o.v(x->output_layers_idx()); for (std::size_t i = 0; i < n; ++i) o.v(x->forward_predecessors(i)); }
}
inline void models(H::Rng& r, Seen& o)
{
    Opts oo; oo.learnable = true; oo.max_layers = 3; Chain ch; do ch = random_chain(r, oo); while (ch.in.size() > 100 || ch.out() > 60 || ch.layers.size() > 6);
    Model m = build(ch); m.init(Model::InitializationFunction::AUTO, Model::ProbabilityDensityFunction::NORMAL, unsigned(r.next() | 1)); o.v(params(m));
    Data d = random_rows(r, r.size(1, 6), ch.in.size(), ch); auto ds = d.make(); auto op = optimizer(r.chance(.5) ? OptimizerType::ADAM : OptimizerType::GRADIENT_DESCENT, .01);
    Training<PL::SEQUENTIAL, double>::run(m, ds, *op, 2, r.size(1, 4)); o.v(params(m)); o.d(m.avg_loss()); o.d(m.accuracy());
    Model k(m); k.step(d.in[0], d.lab[0]); m.train(*op, k); Model a("a"); a = k; for (auto& x: d.in) { o.v(m.predict(x)); o.v(a.predict(x)); }
    H::TmpFile f("", ".json"); { std::ofstream s(f.path()); m.dump(s); } o.s(f.read()); Model z = build(ch); { std::ifstream s(f.path()); z.load(s); } o.v(params(z));
}
inline void networks(H::Rng& r, Seen& o)
{
    NetOpts no; no.dropout = 0; no.max_layers = 3; Net n; do n = random_net(r, no); while (n.in.size() > 60 || n.out() > 40 || n.layers.size() > 4);
    auto list = describe(r, n); Data d = random_rows(r, r.size(1, 5), n.in.size(), n.chain); auto ds = d.make(); auto x = d.inputs(); auto e = make_edge<PL::SEQUENTIAL>(r, n); auto seed = unsigned(r.next() | 1);
    e->fit(ds, r.chance(.5) ? OptimizerType::ADAM : OptimizerType::GRADIENT_DESCENT, 2, r.size(1, 3), .01, seed); o.v(e->predict(x).data()); auto v = e->evaluate(ds, n.loss); o.d(v.loss); o.d(v.accuracy); o.u(e->input_size()); o.u(e->output_size());
}
inline void watches(H::Rng& r, Seen& o)
{
    Stopwatch<std::chrono::microseconds> w; auto n = r.size(1, 6); for (std::size_t i = 0; i < n; ++i) { w.click(); if (r.chance(.3)) w.restart(); }
    H::TmpFile f("", ".txt"); w.dump(f.path(), "time"); std::string s = f.read(); o.u(H::u64(std::count(s.begin(), s.end(), '\n'))); o.u(w.mean() >= 0 && w.median() >= 0 && w.duration() >= 0);
    std::istringstream in(s); double x, n2 = 0, sum = 0, sq = 0; while (in >> x) { n2 += 1; sum += x; sq += x * x; }
    double mean = sum / n2, dev = std::sqrt(std::max(0., sq / n2 - mean * mean)); for (int k = 0; k < 20; ++k) { double e = w.std(); o.u(std::fabs(e - dev) <= 1e-3 * (1 + mean)); o.u(std::fabs(w.mean() - mean) <= 1e-6 * (1 + mean)); }
}
inline const std::vector<std::pair<const char*, Work>>& all()
{
    static const std::vector<std::pair<const char*, Work>> w = { { "types", types }, { "csv", csv }, { "json", json }, { "mnist", mnist }, { "cifar", cifar }, { "datasets", tables }, { "kernels", kernels },
        { "layers", layers }, { "losses", losses }, { "graphs", graphs }, { "models", models }, { "networks", networks }, { "stopwatches", watches } };
    return w;
}

} // namespace W

#endif
