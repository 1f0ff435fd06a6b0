// C24: saving and loading models; text, shapes, settings, parameters and behaviour compared.
#include "net.hpp"
#include "jsongen.hpp"
using namespace N;

namespace {
std::string save(Model& m)
{
    H::TmpFile f("", ".json");
    { std::ofstream o(f.path(), std::ios::binary); m.dump(o); }
    return f.read();
}
void load(Model& m, const std::string& text)
{
    H::TmpFile f(text, ".json"); std::ifstream i(f.path(), std::ios::binary); m.load(i);
}
/// A chain plus, possibly, a recurrent layer alone.
struct Spec { Chain ch; bool rec = false; std::size_t I = 1, Hs = 1, O = 1, T = 1; std::string name; std::size_t in() const { return rec ? I * T : ch.in.size(); } std::size_t out() const { return rec ? O * T : ch.out(); }
    std::string str() const { return rec ? H::str("Recurrent(", I, ",", O, ",", Hs, ",", T, ")") : ch.str(); } };
Model make(const Spec& s)
{
    if (!s.rec) return build(s.ch, s.name);
    Model m(s.name); auto l = m.add_layer<RecurrentLayer>("rec" + s.name, s.I, s.O, s.Hs, s.T);
    auto loss = m.add_loss<MeanSquaredLossLayer>("loss", s.O * s.T, s.ch.batch, s.ch.tolerance); m.create_loss_edge(l, loss); return m;
}
Spec random_spec(H::Rng& r)
{
    Spec s; Opts o; o.dropout = .15; o.max_layers = 5; s.ch = random_chain(r, o);
    if (r.chance(.2)) { s.rec = true; s.I = r.far(1, 4, 40); s.Hs = r.far(1, 4, 40); s.O = r.far(1, 4, 40); s.T = r.far(1, 5, 60); }
    auto name = [&] { std::string n; do n = J::text(r); while (n.empty() || n.find_first_not_of(' ') == std::string::npos); return n; };
    s.name = r.chance(.5) ? H::str("model", r.below(100)) : name();
    if (r.chance(.5)) for (auto& d: s.ch.layers) d.name = name();
    return s;
}
/// The same kinds of layers with other sizes and settings.
Spec resized(H::Rng& r, const Spec& s)
{
    Spec q = s; q.name = "other";
    if (s.rec) { q.I = r.size(1, 5); q.Hs = r.size(1, 5); q.O = r.size(1, 5); q.T = r.size(1, 6); q.ch.tolerance = r.uni(0, 1); return q; }
    Img cur = Img{ r.size(3, 6), r.size(3, 6), r.size(1, 3) }; if (s.ch.in.w == 1) cur = Img{ r.size(1, 9), 1, 1 };
    q.ch.in = cur;
    for (auto& d: q.ch.layers)
    {
        d.in = cur; d.out = cur; d.name += "x"; d.alpha = r.uni(.1, 2); d.p = r.uni(.1, .9);
        if (d.kind == Desc::Dense) d.out = Img{ r.size(1, 8), 1, 1 };
        if (d.image())
        {
            d.kh = r.size(1, std::min<std::size_t>(3, cur.h)); d.kw = r.size(1, std::min<std::size_t>(3, cur.w)); d.sh = r.size(1, 2); d.sw = r.size(1, 2); d.ph = d.pw = 0;
            if (d.kind == Desc::Conv) { d.f = r.size(1, 4); d.ph = r.size(0, 2); d.pw = r.size(0, 2); }
            d.out = Img{ (cur.h + 2 * d.ph - d.kh) / d.sh + 1, (cur.w + 2 * d.pw - d.kw) / d.sw + 1, d.kind == Desc::Conv ? d.f : cur.c };
        }
        cur = d.out;
    }
    q.ch.tolerance = r.uni(0, 1); return q;
}
void weights(Model& m, H::Rng& r)
{
    for (auto& l: m.layers()) for (std::size_t i = 0; i < l->param_count(); ++i)
    {
        double v = r.uni(-1, 1);
        switch (r.below(8)) { case 0: v *= std::pow(10., double(r.range(-12, 12))); break; case 1: v = double(r.range(-20, 20)); break; case 2: v = r.pick({ 0., 1e12, -1e-12, .1, 1. / 3, 123456789.125, 1e5, 1e-5, 1e21 }); break; case 3: if (r.chance(.2)) v *= std::pow(10., double(r.range(-310, 300))); break; case 4: if (r.chance(.1)) v = r.pick({ -0., 5e-324, -5e-324, 2.2250738585072014e-308, 1.7976931348623157e308, -1.7976931348623157e308, 1e-200, 9007199254740993. }); break; default: break; }
        l->param(i) = v;
    }
}
void reset(Model& m) { for (auto& l: m.layers()) if (auto r = std::dynamic_pointer_cast<RecurrentLayer>(l)) r->reset_hidden_state(); }
std::string shapes(Model& m)
{
    std::string o; for (auto& l: m.layers()) { o += l->name() + "|" + l->type() + "|"; for (auto& s: l->input_shapes()) o += H::str(s.at(0), "x", s.at(1), "x", s.at(2), " "); o += ">"; for (auto& s: l->output_shapes()) o += H::str(s.at(0), "x", s.at(1), "x", s.at(2), " "); o += H::str(l->param_count(), ";"); }
    return o;
}
bool equal(const Vec& a, const Vec& b) { if (a.size() != b.size()) return false; for (std::size_t i = 0; i < a.size(); ++i) if (!H::same(a[i], b[i])) return false; return true; }
bool has_dropout(const Spec& s) { return !s.rec && std::any_of(s.ch.layers.begin(), s.ch.layers.end(), [](const Desc& d) { return d.kind == Desc::Dropout; }); }
Vec target_of(H::Rng& r, const Spec& s) { if (!s.rec) return target(r, s.ch); return r.vec(s.O * s.T, -1, 1); }

/// a and b behave the same: predictions, and one training step (loss settings included).
void behave(H::Case& c, const Spec& s, Model& a, Model& b, const char* what)
{
    auto& r = c.rng; reset(a); reset(b);
    for (int k = 0; k < 3; ++k)
    {
        Vec x = r.vec(s.in(), -2, 2), ya = a.predict(x), yb = b.predict(x);
        c.must(equal(ya, yb), (std::string("prediction-") + what).c_str(), [&] { return H::str(s.str(), ": ", H::vstr(yb), " instead of ", H::vstr(ya)); });
    }
    if (has_dropout(s)) return;
    a.reset_score(); b.reset_score();
    for (int k = 0; k < 2; ++k)
    {
        Vec x = r.vec(s.in(), -1, 1), t = target_of(r, s); if (r.chance(.5) && !s.ch.cce) { reset(a); reset(b); t = a.predict(x); for (auto& v: t) v += r.uni(-1, 1) * std::sqrt(s.ch.tolerance) * 1.5; reset(a); reset(b); }
        a.step(x, t); b.step(x, t);
        c.ok(H::same(a.avg_loss(), b.avg_loss()) && H::same(a.accuracy(), b.accuracy()), (std::string("score-") + what).c_str(), [&] { return H::str(s.str(), ": ", b.avg_loss(), " ", b.accuracy(), " instead of ", a.avg_loss(), " ", a.accuracy()); });
        c.ok(equal(a.layers().front()->last_input_gradient(), b.layers().front()->last_input_gradient()), (std::string("step-") + what).c_str());
    }
}
void round_trip(H::Case& c)
{
    auto& r = c.rng; Spec s = random_spec(r);
    Model a = make(s); weights(a, r); std::string sa = shapes(a); Vec pa = params(a);
    std::string t1 = save(a);
    c.ok(params(a) == pa && shapes(a) == sa && a.name() == s.name && save(a) == t1, "saving-changes-the-model");
    int how = int(r.below(3));
    Spec q = how == 2 ? resized(r, s) : s; if (how) q.name = "b";
    Model b = make(q);
    bool used = false; if (how) { weights(b, r); if (r.chance(.5)) { used = true; b.predict(r.vec(q.in(), -1, 1)); } }
    Model bystander = make(q); weights(bystander, r); std::string tb = save(bystander);
    std::unique_ptr<Model> twin; if (how < 2 && r.chance(.4)) { twin = std::make_unique<Model>(b); c.tag("copy-of-the-loading-model"); }
    load(b, t1);
    c.ok(b.name() == s.name, "model-name", [&] { return H::str("'", b.name(), "' instead of '", s.name, "'"); });
    c.must(shapes(b) == sa, "shapes-and-names", [&] { return H::str(shapes(b), " instead of ", sa); });
    Vec pb = params(b);
    for (std::size_t i = 0; i < pa.size(); ++i) c.must(pb[i] == pa[i] && std::signbit(pb[i]) == std::signbit(pa[i]), "parameter", [&] { return H::str(s.str(), " parameter ", i, ": ", pb[i], " instead of ", pa[i]); });
    std::string t2 = save(b);
    c.ok(t2 == t1, "saved-again", [&] { std::size_t i = 0; while (i < t1.size() && i < t2.size() && t1[i] == t2[i]) ++i; return H::str("at ", i, ": ...", t2.substr(i > 40 ? i - 40 : 0, 120), "... instead of ...", t1.substr(i > 40 ? i - 40 : 0, 120)); });
    c.ok(save(bystander) == tb && save(a) == t1, "loading-changes-another-model");
    // A model that was not used before behaves as an unused one, whatever sizes it had.
    if (!used && !twin) { Vec x = r.vec(s.in(), -1, 1); auto ya = a.predict(x), yb = b.predict(x); c.ok(equal(ya, yb), "first-prediction", [&] { return H::str(s.str(), ": ", H::vstr(yb), " instead of ", H::vstr(ya)); }); c.tag("first-prediction"); }
    if (how == 2) for (auto& l: b.layers()) for (std::size_t i = 0; i < l->param_count(); ++i) l->gradient(i) = 0;
    if (twin) { c.ok(params(*twin) == pa, "copy-parameters"); if (how == 0) behave(c, s, a, *twin, "of-copy"); }
    for (auto& l: a.layers()) for (std::size_t i = 0; i < l->param_count(); ++i) l->gradient(i) = 0;
    behave(c, s, a, b, how == 2 ? "other-sizes" : how ? "other-values" : "fresh");
    if (!has_dropout(s) && !twin) c.ok(equal(grads(a), grads(b)), "gradients-after-loading", [&] { return s.str(); });
    // Trained on, saved and loaded once more.
    GradientDescentOptimizer o(1e-3); b.train(o); Vec p2 = params(b);
    if (std::all_of(p2.begin(), p2.end(), [](double v) { return std::isfinite(v); })) { load(a, save(b)); c.ok(params(a) == p2, "second-generation"); c.tag("second-generation"); }
    c.tag(how == 2 ? "other-sizes" : how ? "other-values" : "fresh"); if (s.rec) c.tag("recurrent"); if (has_dropout(s)) c.tag("dropout");
    for (auto& l: b.layers()) c.tag("type-" + l->type());
    c.nontrivial(H::hash_str(t1)); c.sample(H::str(s.str(), " ", t1.size(), " bytes"));
}
/// More layers than a small counter holds.
void many(H::Case& c)
{
    auto& r = c.rng; auto n = r.chance(.5) ? r.size(257, 700) : r.size(20, 257); std::size_t w = r.size(1, 3); Model a("many"), b("b");
    for (std::size_t i = 0; i < n; ++i)
    {
        auto name = H::str("l", i);
        switch (r.below(5))
        {
            case 0: a.add_layer<ReluLayer>(name, w); b.add_layer<ReluLayer>(name + "b", w); break;
            case 1: a.add_layer<EluLayer>(name, w, double(i + 1)); b.add_layer<EluLayer>(name + "b", w, .5); break;
            default: a.add_layer<DenseLayer>(name, w, w); b.add_layer<DenseLayer>(name + "b", w, w); break;
        }
        if (i) { a.create_edge(a.layers()[i - 1], a.layers()[i]); b.create_edge(b.layers()[i - 1], b.layers()[i]); }
    }
    for (auto& l: a.layers()) for (std::size_t i = 0; i < l->param_count(); ++i) l->param(i) = r.uni(-1, 1);
    auto t = save(a); load(b, t); c.ok(shapes(a) == shapes(b), "shapes-and-names", [&] { return H::str(n, " layers"); });
    for (std::size_t i = 0; i < n; ++i) c.ok(params(*a.layers()[i]) == params(*b.layers()[i]), "parameter", [&] { return H::str("layer ", i, " of ", n); });
    c.ok(save(b) == t, "saved-again", [&] { return H::str(n, " layers"); });
    Vec x = r.vec(w, -1, 1); c.ok(equal(a.predict(x), b.predict(x)), "prediction-many");
    // With one layer less than the model has, the file is refused.
    Model f("few"); for (std::size_t i = 0; i + 1 < n; ++i) f.add_layer<ReluLayer>("", w); Model g("g"); for (std::size_t i = 0; i < n; ++i) g.add_layer<ReluLayer>("", w);
    auto few = save(f); c.ok(H::throws([&] { load(g, few); }), "accepted:fewer-layers", [&] { return H::str(n - 1, " instead of ", n); });
    c.tag("many-layers"); c.nontrivial(H::hash_str(t)); c.sample(H::str(n, " layers"));
}
/// Layers with several input or output shapes keep all of them.
void several_shapes(H::Case& c)
{
    auto& r = c.rng; auto n = r.size(2, 6); std::vector<DLMath::Shape3d> v; for (std::size_t i = 0; i < n; ++i) v.emplace_back(r.size(1, 9), r.size(1, 9), r.size(1, 9));
    LinearLayer a("a", 3), b("b", 5); a.input_shape(LayerShape(v)); Json j = a.dump(); b.load(j);
    auto same = [](const std::vector<DLMath::Shape3d>& x, const std::vector<DLMath::Shape3d>& y) { if (x.size() != y.size()) return false; for (std::size_t i = 0; i < x.size(); ++i) for (std::size_t k = 0; k < 3; ++k) if (x[i].at(k) != y[i].at(k)) return false; return true; };
    c.ok(same(b.input_shapes(), v) && same(b.output_shapes(), a.output_shapes()) && b.input_layers() == n, "several-shapes", [&] { return H::str(b.input_shapes().size(), " input shapes instead of ", n); });
    std::stringstream x, y; x << j; y << b.dump(); c.ok(x.str() == y.str(), "saved-again"); c.tag("several-shapes"); c.nontrivial(H::hash_str(x.str()));
}
/// Files that are not this model.
void reject(H::Case& c)
{
    auto& r = c.rng; Spec s = random_spec(r); Model a = make(s); weights(a, r); std::string t = save(a), bad = t; std::string what;
    Model m = make(s); weights(m, r); Model by = make(s); std::string tb = save(by);
    switch (r.below(6))
    {
        case 0: {   // one layer of another type
            if (s.rec) { Chain ch; ch.in = Img{ s.I, 1, 1 }; Desc d; d.kind = Desc::Dense; d.in = ch.in; d.out = Img{ s.O, 1, 1 }; d.name = "d"; ch.layers.push_back(d); Model o = build(ch, "o"); bad = save(o); }
            else
            {
                Chain ch = s.ch; auto i = r.below(ch.layers.size() + 1);
                if (i == ch.layers.size()) ch.cce = !ch.cce;
                else
                {
                    auto& d = ch.layers[i]; auto k = d.kind;
                    if (d.kind == Desc::MaxPool) d.kind = Desc::AvgPool; else if (d.kind == Desc::AvgPool) d.kind = Desc::MaxPool;
                    else if (d.kind == Desc::Dense || d.kind == Desc::Conv) { d.kind = Desc::Linear; }
                    else do d.kind = r.pick({ Desc::Relu, Desc::Elu, Desc::Softmax, Desc::Tanh, Desc::Sigmoid, Desc::Linear, Desc::Dropout }); while (d.kind == k);
                }
                Model o = build(ch, s.name); bad = save(o);
            }
            what = "other-type"; break; }
        case 1: {   // fewer layers
            Model o("few"); if (s.rec || s.ch.layers.size() == 1) { auto l = s.rec ? std::static_pointer_cast<Layer>(o.add_layer<RecurrentLayer>("r", s.I, s.O, s.Hs, s.T)) : add(o, s.ch.layers[0]); }
            else { std::vector<P> l; auto n = r.size(1, s.ch.layers.size()); for (std::size_t i = 0; i < n; ++i) l.push_back(add(o, s.ch.layers[i])); }
            bad = save(o); what = "fewer-layers"; break; }
        case 2: {   // not a saved model
            bad = r.pick(std::vector<std::string>{ "", " ", "{}", "[]", "1", "null", "hello", "{\"name\":\"x\"}", "{\"name\":\"x\",\"layers\":[]}", "{\"name\":\"x\",\"layers\":{}}", "{\"name\":\"x\",\"layers\":1}", "{\"layers\":" , "{\"name\":\"x\",\"layers\":[1]}", "{\"name\":\"x\",\"layers\":[{}]}", "{\"name\":\"x\",\"layers\":[[]]}", "[{\"name\":\"x\"}]", "a,b,c\n1,2,3\n" });
            what = "not-a-model"; break; }
        case 3: {   // cut off
            auto n = t.size(); while (n && std::strchr(" \n\r\t", t[n - 1])) --n;
            bad = t.substr(0, r.below(n)); what = "cut-off"; break; }
        case 4: {   // a needed entry has another key
            std::vector<std::size_t> at;
            for (auto k: { "\"type\"", "\"name\"", "\"input_shape\"", "\"output_shape\"", "\"weights\"", "\"biases\"", "\"others\"", "\"layers\"", "\"alpha\"", "\"drop_probability\"", "\"loss_tolerance\"", "\"kernel_size\"", "\"stride\"", "\"padding\"", "\"n_filters\"", "\"hidden_size\"", "\"time_steps\"" })
                for (auto p = t.find(k); p != std::string::npos; p = t.find(k, p + 1)) { auto q = p + std::strlen(k); while (q < t.size() && std::strchr(" \n\r\t", t[q])) ++q; if (t[q] == ':') at.push_back(p); }
            auto p = r.pick(at); bad = t; bad[p + 1] = 'Z'; what = "missing-entry"; break; }
        case 5: {   // a parameter is missing
            std::size_t p = 0; std::vector<std::size_t> at; for (auto k: { "\"weights\"", "\"biases\"" }) for (p = t.find(k); p != std::string::npos; p = t.find(k, p + 1)) at.push_back(p);
            if (at.empty()) return;
            p = t.find_first_of("0123456789-", r.pick(at) + 9); if (p == std::string::npos) return;
            auto e = t.find_first_not_of("0123456789-+.eE", p); auto f = e; while (f < t.size() && std::strchr(" \n\r\t", t[f])) ++f;
            if (f >= t.size() || t[f] != ',') return;
            bad = t.substr(0, p) + t.substr(f + 1); what = "missing-parameter"; break; }
    }
    bool threw = H::throws([&] { load(m, bad); });
    c.ok(threw, ("accepted:" + what).c_str(), [&] { return H::str(s.str(), ": ", bad.size() > 900 ? bad.substr(0, 900) + "..." : bad); });
    c.ok(save(by) == tb && save(a) == t, "failed-load-changes-another-model");
    // The model can be loaded properly afterwards.
    if (threw) { load(m, t); c.ok(params(m) == params(a) && save(m) == t, "load-after-failed-load", [&] { return s.str(); }); }
    c.tag(what); c.nontrivial(H::hash_str(bad));
}
void missing_file(H::Case& c)
{
    Spec s = random_spec(c.rng); Model m = make(s); weights(m, c.rng); std::string t = save(m);
    std::ifstream none(H::opt().scratch + "/does-not-exist"); c.ok(H::throws([&] { m.load(none); }), "accepted:missing-file"); c.tag("missing-file"); c.nontrivial(H::hash_str(t));
    load(m, t); c.ok(save(m) == t, "load-after-failed-load");
}
/// Loading other sizes into a model that has copies: they share the parameters and must stay usable.
void with_copy(H::Case& c)
{
    auto& r = c.rng; auto n = r.size(1, 4);
    Model a("a"), b("b"); a.add_layer<DenseLayer>("d", n + r.size(1, 4), n + r.size(1, 4)); auto l = b.add_layer<DenseLayer>("d", n, n);
    weights(a, r); weights(b, r); auto loss = a.add_loss<MeanSquaredLossLayer>("l", a.layers()[0]->output_size(), 1, .1); a.create_loss_edge(a.layers()[0], loss);
    auto loss2 = b.add_loss<MeanSquaredLossLayer>("l", n, 1, .1); b.create_loss_edge(l, loss2);
    Model copy(b); load(b, save(a)); c.ok(params(copy) == params(a), "copy-parameters");
    auto& k = copy.layers()[0]; c.nontrivial(H::hash_vec(params(a))); c.tag("copy-other-sizes");
    c.ok(k->last_output().size() == k->output_size() && k->last_input_gradient().size() == k->input_size(), "buffers-of-the-copy",
        [&] { return H::str("the copy reports ", k->input_size(), "->", k->output_size(), " but holds ", k->last_input_gradient().size(), "->", k->last_output().size(), ": its next prediction writes past the end"); });
}
}

int main(int argc, char** argv)
{
    return H::run(argc, argv, {
        { "round-trip", 8000, 200000, round_trip },
        { "reject", 6000, 150000, reject },
        { "missing-file", 100, 500, missing_file },
        { "many", 40, 600, many },
        { "several-shapes", 300, 5000, several_shapes },
        { "load-other-size-with-copy", 50, 500, with_copy },
    });
}
