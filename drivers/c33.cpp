// C33: values that are copied, moved, swapped, assigned and kept in growing containers.
#include "works.hpp"
#include <list>
using namespace W;

namespace {

typedef std::function<void(H::Rng&)> Act;
/// A pool of values of one type under random copying, moving and changing, and what each must show.
template<class T, class Make, class Change, class Look> void pool(H::Case& c, const char* name, Make make, Change change, Look look)
{
    auto& r = c.rng; std::vector<T> v; std::list<T> l; std::vector<H::u64> vw, lw; std::string did; std::vector<std::unique_ptr<T>> kept; std::vector<H::u64> kw;
    auto see = [&](T& x) { Seen o; look(x, o); return o.h; };
    auto check = [&](T& x, H::u64 w) { c.ok(see(x) == w, "value", [&] { return H::str(name, " after", did); }); };
    auto fresh = [&]() { T x = make(r); return x; };
    { T x = fresh(); vw.push_back(see(x)); v.push_back(x); check(x, vw[0]); check(v[0], vw[0]); }
    std::size_t steps = r.size(3, 25), moved = 0, changed = 0;
    for (std::size_t k = 0; k < steps && !c.failed; ++k)
    {
        std::size_t i = r.below(v.size()), j = r.below(v.size()); auto li = l.begin(); std::size_t ln = l.empty() ? 0 : r.below(l.size()); std::advance(li, long(ln));
        std::size_t what = r.below(17);
        did += H::str(" ", what, ":", i, ",", j);
        switch (what)
        {
        case 0: { T x = fresh(); auto w = see(x); v.push_back(x); vw.push_back(w); check(x, w); } break;
        case 1: { T x = fresh(); auto w = see(x); v.push_back(std::move(x)); vw.push_back(w); ++moved; } break;
        case 2: v.push_back(v[i]); vw.push_back(H::u64(vw[i])); break;                      // an element of the same vector, also when it grows
        case 3: v[i] = v[j]; vw[i] = vw[j]; break;                                          // also to itself
        case 4: { T x(std::move(v[i])); check(x, vw[i]); v[i] = fresh(); vw[i] = see(v[i]); ++moved; } break;
        case 5: { T x(v[i]); T y = fresh(); auto w = see(y); y = std::move(x); check(y, vw[i]); x = fresh(); (void) w; ++moved; } break;
        case 6: if (i != j) { using std::swap; swap(v[i], v[j]); std::swap(vw[i], vw[j]); ++moved; } break;
        case 7: if (v.size() > 1) { v.erase(v.begin() + long(i)); vw.erase(vw.begin() + long(i)); ++moved; } break;
        case 8: v.insert(v.begin() + long(i), v[j]); vw.insert(vw.begin() + long(i), H::u64(vw[j])); ++moved; break;
        case 9: case 10: case 11: change(v[i], r); vw[i] = see(v[i]); ++changed; break;     // nothing but this one changes
        case 12: l.push_back(v[i]); lw.push_back(vw[i]); break;
        case 13: if (!l.empty()) { l.splice(l.begin(), l, li); auto w = lw[ln]; lw.erase(lw.begin() + long(ln)); lw.insert(lw.begin(), w); change(l.front(), r); lw[0] = see(l.front()); } break;
        case 14: if (!l.empty()) { v[i] = *li; vw[i] = lw[ln]; l.erase(li); lw.erase(lw.begin() + long(ln)); } break;
        case 15: kept.push_back(std::make_unique<T>(v[i])); kw.push_back(vw[i]); break;     // outlives what it was copied from
        default: { std::vector<T> z(v); auto zw = vw; std::rotate(z.begin(), z.begin() + long(i), z.end()); std::rotate(zw.begin(), zw.begin() + long(i), zw.end()); z.shrink_to_fit(); v.swap(z); vw = zw; if (r.chance(.5)) v = z, std::rotate(vw.begin(), vw.begin() + long((vw.size() - i) % vw.size()), vw.end()); ++moved; }
        }
        if (v.size() > 12) { v.erase(v.begin() + 4, v.end()); vw.resize(4); }
        if (l.size() > 5) { l.pop_front(); lw.erase(lw.begin()); }
        if (kept.size() > 4) { kept.erase(kept.begin()); kw.erase(kw.begin()); }
        for (std::size_t a = 0; a < v.size(); ++a) if (a == i || a == j || r.chance(.3)) if (a < v.size()) check(v[a], vw[a]);
    }
    for (std::size_t a = 0; a < v.size(); ++a) check(v[a], vw[a]);
    std::size_t a = 0; for (auto& x: l) check(x, lw[a++]);
    v.clear(); l.clear(); for (std::size_t b = 0; b < kept.size(); ++b) check(*kept[b], kw[b]);
    c.tag(name); if (moved) c.tag("moved"); if (changed) c.tag("changed"); if (!kept.empty()) c.tag("outlived"); c.nontrivial(H::comb(H::hash_str(did), H::hash_str(name))); c.sample(H::str(name, ":", did));
}

std::string shape(const DLMath::Shape3d& s) { return H::str(s.height(), "x", s.width(), "x", s.channels()); }
std::string shape(const DLMath::Shape2d& s) { return H::str(s.height(), "x", s.width()); }
DLMath::Shape3d shape3(H::Rng& q) { return DLMath::Shape3d(q.size(1, 9), q.size(1, 9), q.size(1, 9)); }
Json some_json(H::Rng& q) { for (;;) { auto p = J::tree(q, 3); std::stringstream in(J::write(p.first)); try { Json j; in >> j; return j; } catch (const std::exception&) {} } }

void data(H::Case& c)
{
    auto& r = c.rng;
    auto alter = [](auto& j, H::Rng& q) {
        typedef std::decay_t<decltype(j)> X;
        if constexpr (std::is_same_v<X, JsonDict>) j[H::str("k", q.below(4))] = some_json(q);
        else if constexpr (std::is_same_v<X, JsonList>) { if (j.size() && q.chance(.5)) j[q.below(j.size())] = some_json(q); else j.append(some_json(q)); }
        else { if (j.json_type() == JsonObject::JsonType::DICT) j[H::str("k", q.below(4))] = some_json(q); else if (j.json_type() == JsonObject::JsonType::LIST) j.append(some_json(q)); else j = some_json(q); } };
    auto text = [](auto& j, Seen& o) { o.s(std::string(j)); o.u(j == j); };
    switch (r.below(8))
    {
    case 0: pool<Dataset<double>>(c, "dataset", [](H::Rng& q) { return dataset(q); }, [](Dataset<double>& d, H::Rng& q) {
        switch (q.below(4)) { case 0: d.label_idx({ q.below(d.feature_size()) }); break; case 1: d.sequence_size(q.size(1, 3)); break; case 2: { RneType e(std::uint_fast32_t(q.next() | 1)); d.shuffle(e); } break; default: d.min_max_normalization(-1., 2.); } },
        [](const Dataset<double>& d, Seen& o) { show(d, o); }); break;
    case 1: pool<Json>(c, "json-item", some_json, alter, text); break;
    case 2: pool<JsonDict>(c, "json-dict", [](H::Rng& q) { JsonDict d; for (std::size_t i = 0, n = q.below(4); i < n; ++i) d[H::str("k", i)] = some_json(q); return d; }, alter, text); break;
    case 3: pool<JsonList>(c, "json-list", [](H::Rng& q) { JsonList d; for (std::size_t i = 0, n = q.below(4); i < n; ++i) d.append(some_json(q)); return d; }, alter, text); break;
    case 4: pool<DLMath::Shape3d>(c, "shape", shape3, [](DLMath::Shape3d& s, H::Rng& q) { (q.chance(.5) ? s.height() : q.chance(.5) ? s.width() : s.channels()) = q.below(99); }, [](DLMath::Shape3d& s, Seen& o) { o.s(shape(s)); }); break;
    case 5: pool<LayerShape>(c, "layer-shape", [](H::Rng& q) { std::vector<DLMath::Shape3d> v; for (std::size_t i = 0, n = q.size(1, 3); i < n; ++i) v.push_back(shape3(q)); return LayerShape(v); }, [](LayerShape& s, H::Rng& q) { s = LayerShape(shape3(q)); },
        [](LayerShape& s, Seen& o) { o.u(s.amount_shapes()); for (std::size_t i = 0; i < s.amount_shapes(); ++i) { o.s(shape(s.shape(i))); o.u(s.size(i)); } }); break;
    case 6: pool<JsonLeaf>(c, "json-leaf", [](H::Rng& q) { return q.chance(.5) ? JsonLeaf(q.uni(-9, 9)) : JsonLeaf(H::str("text ", q.below(1000))); }, [](JsonLeaf& j, H::Rng& q) { j = JsonLeaf(H::str("other text that is longer ", q.below(1000))); }, [](JsonLeaf& j, Seen& o) { o.s(std::string(j)); }); break;
    default: pool<Stopwatch<std::chrono::microseconds>>(c, "stopwatch", [](H::Rng& q) { Stopwatch<std::chrono::microseconds> w; for (std::size_t i = q.size(1, 4); i--;) w.click(); return w; }, [](Stopwatch<std::chrono::microseconds>& w, H::Rng& q) { if (q.chance(.2)) w.reset(); w.click(); },
        [](Stopwatch<std::chrono::microseconds>& w, Seen& o) { o.d(w.duration()); o.d(w.mean()); o.d(w.median()); o.d(w.std()); });
    }
}

void readers(H::Case& c)
{
    auto& r = c.rng;
    auto g = G::csv(r, G::MIXED, 9, 5, 0), g2 = G::csv(r, G::MIXED, 9, 5, 0); H::TmpFile f(g.text(), ".csv"), f2(g2.text(), ".csv");
    auto open = [&](H::Rng& q) { bool b = q.chance(.5); std::set<SizeType> l; if (q.chance(.4)) l.insert(q.below(b ? g2.cols : g.cols)); return CSV((b ? f2 : f).path(), { TypeChecker::Type::AUTO }, (b ? g2 : g).sep, l); };
    auto row_look = [](CSVRow& x, Seen& o) { o.s(x.line()); o.u(x.idx()); o.u(x.size()); for (std::size_t j = 0; j < x.size(); ++j) { o.s(x[j].as<std::string>()); o.u(H::u64(x[j].type())); } };
    switch (r.below(8))
    {
    case 0: pool<CSV>(c, "csv", open, [](CSV& x, H::Rng& q) { for (std::size_t k = q.size(1, 3); k--;) (void) x[q.below(x.rows_size())]; },
        [&](CSV& x, Seen& o) { o.u(x.cols_size()); o.u(x.rows_size()); for (auto t: x.types()) o.u(H::u64(t)); for (auto l: x.labels_idx()) o.u(l); CSVRow h = x.header(); row_look(h, o); for (std::size_t i = 0; i < x.rows_size(); ++i) { CSVRow row = x[i]; row_look(row, o); } }); break;
    case 1: { CSV x = open(r); pool<CSVRow>(c, "csv-row", [&](H::Rng& q) { return x[q.below(x.rows_size())]; }, [&](CSVRow& y, H::Rng& q) { y = x[q.below(x.rows_size())]; }, row_look); } break;
    case 2: { CSV x = open(r); auto field = [&](H::Rng& q) { CSVRow row = x[q.below(x.rows_size())]; return row[q.below(row.size())]; };
        pool<CSVField>(c, "csv-field", field, [&](CSVField& y, H::Rng& q) { y = field(q); }, [](CSVField& y, Seen& o) { o.s(y.as<std::string>()); o.u(H::u64(y.type())); o.u(y.idx()); }); } break;
    case 3: { auto n = r.size(2, 4); H::TmpFile im(be(0x803) + be(std::uint32_t(n)) + be(28) + be(28) + bytes(r, n * 784)), lb(be(0x801) + be(std::uint32_t(n)) + bytes(r, n)); Mnist m(im.path(), lb.path());
        pool<MnistItem>(c, "mnist-item", [&](H::Rng& q) { return m[q.below(n)]; }, [&](MnistItem& y, H::Rng& q) { y = m[q.below(n)]; }, [](MnistItem& y, Seen& o) { o.v(y.image.data()); o.u(y.image.idx()); o.u(y.label.data()); o.s(std::string(y.image)); }); } break;
    case 4: { bool h = r.chance(.5); auto n = r.size(2, 3); H::TmpFile b(bytes(r, n * (3072 + (h ? 2 : 1)))), names("a\nb\nc d\n"), fine("x\ny\n"); auto order = r.chance(.5) ? CifarShapeOrder::ROW_COL_CHN : CifarShapeOrder::CHN_ROW_COL;
        auto load = [&](H::Rng&) { return h ? Cifar(b.path(), names.path(), order, CifarDataset::CIFAR_100, fine.path()) : Cifar(b.path(), names.path(), order, CifarDataset::CIFAR_10); }; Cifar m = load(r);
        auto item = [](CifarItem& y, Seen& o) { o.v(y.image.data()); o.s(std::string(y.label)); o.u(y.image.idx()); };
        pool<CifarItem>(c, "cifar-item", [&](H::Rng& q) { return m[q.below(n)]; }, [&](CifarItem& y, H::Rng& q) { y = m[q.below(n)]; }, item); } break;
    default: { NetOpts no; no.max_layers = 3; pool<NeuralNetworkDescriptor>(c, "description", [no](H::Rng& q) { Net n = random_net(q, no); return describe(q, n); },
        [](NeuralNetworkDescriptor& d, H::Rng& q) { auto& x = d[q.below(d.size())]; switch (q.below(3)) { case 0: x.name(H::str("another name ", q.below(99))); break; case 1: x.activation_type(ActivationType::TanH); break; default: { LayerSetting s(x.setting()); s.n_filters(q.below(99)); s.stride(DLMath::Shape2d(q.size(1, 9), 2)); x.setting(s); } } },
        [](NeuralNetworkDescriptor& d, Seen& o) { o.u(d.size()); for (auto& x: d) { o.s(x.name()); o.u(H::u64(x.type())); o.u(H::u64(x.activation_type())); auto& s = x.setting(); o.u(s.n_filters()); o.s(shape(s.kernel_shape())); o.s(shape(s.stride())); o.s(shape(s.padding())); o.d(s.drop_probability()); auto u = s.units(); o.u(u.amount_shapes()); for (auto& z: u.shapes()) o.s(shape(z)); } }); }
    }
}

// Layers, graphs and models: copies share learnt parameters, so changes are those that do not touch them.
template<class L> void layer(H::Case& c, const char* name, std::function<L(H::Rng&)> make)
{
    const std::size_t t = std::is_same_v<L, RecurrentLayer> ? 3 : 1;
    auto rest = [](L& l) { if constexpr (std::is_same_v<L, RecurrentLayer>) l.reset_hidden_state(); };
    pool<L>(c, name, [make](H::Rng& q) { L l = make(q); randomize(l, q); return l; },
        [t](L& l, H::Rng& q) { Vec x = q.vec(t * l.input_size(), -1, 1), g = q.vec(t * l.output_size(), -1, 1); l.training_forward(x); l.backward(g); if (q.chance(.5)) l.forward(x); },
        [t, rest](L& l, Seen& o) { rest(l); o.s(l.name()); o.s(l.type()); o.u(l.input_size()); o.u(l.output_size()); o.v(params(l)); H::Rng z(7); Vec x = z.vec(t * l.input_size(), -1, 1); o.v(l.forward(x)); rest(l); o.s(std::string(l.dump())); });
}
void stages(H::Case& c)
{
    auto& r = c.rng; auto name = [](H::Rng& q) { return H::str("layer ", q.below(100)); };
    auto in = [](H::Rng& q) { return DLMath::Shape3d(q.size(3, 5), q.size(3, 5), q.size(1, 2)); };
    switch (r.below(13))
    {
    case 0: layer<DenseLayer>(c, "dense", [=](H::Rng& q) { return DenseLayer(name(q), q.size(1, 9), q.size(1, 9)); }); break;
    case 1: layer<ConvolutionalLayer>(c, "conv", [=](H::Rng& q) { auto s = in(q); return ConvolutionalLayer(name(q), s, DLMath::Shape2d(2, 2), q.size(1, 3), DLMath::Shape2d(1, 1), DLMath::Shape2d(0, 0)); }); break;
    case 2: layer<MaxPoolingLayer>(c, "max-pool", [=](H::Rng& q) { auto s = in(q); return MaxPoolingLayer(name(q), s, DLMath::Shape2d(2, 2), DLMath::Shape2d(1, 1)); }); break;
    case 3: layer<AveragePoolingLayer>(c, "avg-pool", [=](H::Rng& q) { auto s = in(q); return AveragePoolingLayer(name(q), s, DLMath::Shape2d(2, 2), DLMath::Shape2d(1, 1)); }); break;
    case 4: layer<DropoutLayer>(c, "dropout", [=](H::Rng& q) { return DropoutLayer(name(q), q.size(1, 9), .4, RneType(q.next() | 1)); }); break;
    case 5: layer<ReluLayer>(c, "relu", [=](H::Rng& q) { return ReluLayer(name(q), q.size(1, 9)); }); break;
    case 6: layer<EluLayer>(c, "elu", [=](H::Rng& q) { return EluLayer(name(q), q.size(1, 9), q.uni(.1, 2)); }); break;
    case 7: layer<SoftmaxLayer>(c, "softmax", [=](H::Rng& q) { return SoftmaxLayer(name(q), q.size(1, 9)); }); break;
    case 8: layer<TanhLayer>(c, "tanh", [=](H::Rng& q) { return TanhLayer(name(q), q.size(1, 9)); }); break;
    case 9: layer<SigmoidLayer>(c, "sigmoid", [=](H::Rng& q) { return SigmoidLayer(name(q), q.size(1, 9)); }); break;
    case 10: layer<RecurrentLayer>(c, "recurrent", [=](H::Rng& q) { return RecurrentLayer(name(q), q.size(1, 3), q.size(1, 3), 2, 3); }); break;
    case 11: pool<MeanSquaredLossLayer>(c, "mse", [=](H::Rng& q) { MeanSquaredLossLayer l(name(q), q.size(1, 9), 2, .3); return l; },
        [](MeanSquaredLossLayer& l, H::Rng& q) { Vec t = q.vec(l.input_size(), -1, 1), y = q.vec(l.input_size(), -1, 1); if (q.chance(.2)) l.reset_score(); l.set_target(t); l.training_forward(y); }, [](MeanSquaredLossLayer& l, Seen& o) { o.s(l.name()); o.u(l.input_size()); o.d(l.avg_loss()); o.d(l.accuracy()); o.s(std::string(l.dump())); }); break;
    default: pool<CategoricalCrossEntropyLossLayer>(c, "cross-entropy", [=](H::Rng& q) { CategoricalCrossEntropyLossLayer l(name(q), q.size(1, 9), 2); return l; },
        [](CategoricalCrossEntropyLossLayer& l, H::Rng& q) { Vec t(l.input_size()), y = q.vec(l.input_size(), .01, 1); t[q.below(t.size())] = 1; if (q.chance(.2)) l.reset_score(); l.set_target(t); l.training_forward(y); }, [](CategoricalCrossEntropyLossLayer& l, Seen& o) { o.s(l.name()); o.u(l.input_size()); o.d(l.avg_loss()); o.d(l.accuracy()); o.s(std::string(l.dump())); });
    }
}
void whole(H::Case& c)
{
    auto& r = c.rng;
    auto chain = [](H::Rng& q) { Opts oo; oo.learnable = true; oo.max_layers = 3; Chain ch; do ch = random_chain(q, oo); while (ch.in.size() > 100 || ch.out() > 60 || ch.layers.size() > 6); return ch; };
    switch (r.below(2))
    {
    case 0: pool<DLGraph>(c, "graph", [](H::Rng& q) { DLGraph g; std::vector<P> l; for (std::size_t i = 0, n = q.size(1, 6); i < n; ++i) { l.push_back(std::make_shared<LinearLayer>(H::str("n", i), 2)); g.add_node(l.back()); if (i) g.add_edge(l[q.below(i)], l[i]); } return g; },
        [](DLGraph& g, H::Rng& q) { if (q.chance(.4)) { Vec x = q.vec(2, -1, 1); g.layer(q.below(g.size()))->forward(x); return; } auto l = std::make_shared<LinearLayer>(H::str("more ", q.below(99)), 2); g.add_node(l); if (q.chance(.8)) g.add_edge(g.layer(q.below(g.size() - 1)), l); },
        [](DLGraph& g, Seen& o) { o.u(g.size()); for (std::size_t i = 0; i < g.size(); ++i) { o.s(g.layer(i)->name()); o.v(g.layer(i)->last_output()); o.u(H::u64(g.index_of(*g.layer(i)))); } for (auto& a: g.training_forward_run()) { o.u(H::u64(g.index_of(*a.from))); o.u(H::u64(g.index_of(*a.to))); }
            o.v(g.training_forward_adjacent_matrix()); o.v(g.backward_adjacent_matrix()); o.v(g.input_layers_idx()); o.v(g.output_layers_idx()); }); break;
    default: pool<Model>(c, "model", [&](H::Rng& q) { Model m = build(chain(q)); m.init(Model::InitializationFunction::AUTO, Model::ProbabilityDensityFunction::NORMAL, unsigned(q.next() | 1)); return m; },
        [](Model& m, H::Rng& q) { m.predict(q.vec(m.input_size(), -1, 1)); }, [](Model& m, Seen& o) { o.s(m.name()); o.v(params(m)); H::Rng z(3); o.v(m.predict(z.vec(m.input_size(), -1, 1))); o.u(m.input_size()); }); break;
    }
}
}

int main(int argc, char** argv) { return H::run(argc, argv, { { "data", 8000, 120000, data }, { "readers", 4000, 60000, readers }, { "layers", 6000, 100000, stages }, { "networks", 4000, 60000, whole } }); }
