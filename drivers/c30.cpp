// C30: what layers and models say about themselves: type, name, shapes, parameters, printed values.
#include "net.hpp"
#include "dnn/concatenate.hpp"
#include <sys/mman.h>
#include <thread>
using namespace N;

namespace {
/// What fn writes to the standard output.
template<class F> std::string printed(F&& fn)
{
    int m = ::memfd_create("out", 0), old = ::dup(1);
    std::cout.flush(); std::fflush(stdout); ::dup2(m, 1);
    fn();
    std::cout.flush(); std::fflush(stdout); ::dup2(old, 1); ::close(old);
    std::string r(std::size_t(::lseek(m, 0, SEEK_END)), 0); ssize_t n = ::pread(m, &r[0], r.size(), 0); (void) n; ::close(m);
    return r;
}
/// The numbers of a text that are not part of a word.
Vec numbers(const std::string& s)
{
    Vec v;
    for (std::size_t i = 0; i < s.size();)
    {
        bool word = i > 0 && (std::isalnum(static_cast<unsigned char>(s[i - 1])) || s[i - 1] == '_' || s[i - 1] == '.');
        std::size_t j = i + (s[i] == '-'); bool digit = j < s.size() && std::isdigit(static_cast<unsigned char>(s[j]));
        if (!word && digit) { char* e; v.push_back(std::strtod(s.c_str() + i, &e)); i = std::max(i + 1, std::size_t(e - s.c_str())); }
        else ++i;
    }
    return v;
}
/// Each value appears among the numbers, in order, to the digits streams print.
bool listed(const Vec& values, const Vec& nums, std::size_t& missing)
{
    std::size_t k = 0;
    for (missing = 0; missing < values.size(); ++missing)
    {
        while (k < nums.size() && !H::close(nums[k], values[missing], 2e-5, 1e-300)) ++k;
        if (k++ >= nums.size()) return false;
    }
    return true;
}
/// As listed, in any order.
bool present(Vec values, Vec nums, std::size_t& missing)
{
    std::sort(nums.begin(), nums.end()); std::sort(values.begin(), values.end());
    for (missing = 0; missing < values.size(); ++missing)
    {
        double v = values[missing], d = std::fabs(v) * 2e-5; auto it = std::lower_bound(nums.begin(), nums.end(), v - d);
        if (it == nums.end() || *it > v + d) return false;
        nums.erase(it);
    }
    return true;
}
template<class F> bool throws(F&& f) { try { f(); } catch (const std::exception&) { return true; } return false; }

struct Any
{
    P l; std::string kind, type; std::size_t in, out, count; bool image = false; Desc d{}; std::size_t hidden = 0, steps = 0;
};
std::size_t conv_out(std::size_t n, std::size_t k, std::size_t s, std::size_t p) { return (n + 2 * p - k) / s + 1; }
std::size_t expected_count(const Any& a)
{
    if (a.kind == "Dense") return (a.in + 1) * a.out;
    if (a.kind == "Conv") return (a.d.kh * a.d.kw * a.d.in.c + 1) * a.d.f;
    if (a.kind == "Recurrent") return (a.in + a.hidden + 1) * a.hidden + (a.hidden + 1) * a.out;
    return 0;
}
Any random_any(H::Rng& r, const std::string& name)
{
    Any a; auto k = r.below(12);
    if (k < 8)
    {
        bool far = r.chance(.01);
        Img in = r.chance(.4) ? Img{ far ? r.size(50, 400) : r.size(1, 12), 1, 1 } : far ? Img{ r.size(5, 20), r.size(5, 20), r.size(1, 8) } : Img{ r.size(1, 6), r.size(1, 6), r.size(1, 4) };
        bool wide = r.chance(.01); if (wide) in = Img{ r.size(1, 4), 1, 1 };
        a.d = random_layer(r, in, 8); if (wide) { a.d = Desc(); a.d.kind = Desc::Dense; a.d.in = in; a.d.out = Img{ r.size(200, 1500), 1, 1 }; }
        a.d.name = name; if (r.chance(.1)) { a.d.kind = Desc::Dropout; a.d.out = in; a.d.p = r.uni(.1, .9); a.d.kh = a.d.kw = 1; a.d.f = 1; }
        a.l = make(a.d); a.in = in.size(); a.out = a.d.out.size(); a.image = a.d.image();
        static const char* n[] = { "Dense", "Relu", "Elu", "Softmax", "Tanh", "Sigmoid", "Linear", "Conv", "MaxPool", "AvgPool", "Dropout" };
        a.kind = n[a.d.kind];
        a.type = std::vector<std::string>{ DenseLayer::TYPE, ReluLayer::TYPE, EluLayer::TYPE, SoftmaxLayer::TYPE, TanhLayer::TYPE, SigmoidLayer::TYPE,
            LinearLayer::TYPE, ConvolutionalLayer::TYPE, MaxPoolingLayer::TYPE, AveragePoolingLayer::TYPE, DropoutLayer::TYPE }[a.d.kind];
        a.l = make(a.d);
    }
    else if (k < 10)
    {
        a.kind = "Recurrent"; a.in = r.far(1, 6, 40); a.out = r.far(1, 6, 40); a.hidden = r.far(1, 6, 40); a.steps = r.size(1, 5);
        a.l = std::make_shared<RecurrentLayer>(name, a.in, a.out, a.hidden, a.steps); a.type = RecurrentLayer::TYPE;
    }
    else if (k == 10)
    {
        a.in = r.far(1, 10, 500); a.out = 0; bool cce = r.chance(.5); a.kind = cce ? "Cce" : "Mse";
        if (cce) a.l = std::make_shared<CategoricalCrossEntropyLossLayer>(name, a.in, r.size(1, 5));
        else a.l = std::make_shared<MeanSquaredLossLayer>(name, a.in, r.size(1, 5), r.uni(0, 1));
        a.type = cce ? CategoricalCrossEntropyLossLayer::TYPE : MeanSquaredLossLayer::TYPE;
    }
    else
    {
        // Only what it says about itself: its passes are unfinished.
        std::size_t axis = r.size(0, 2), n = r.size(1, 4); std::vector<DLMath::Shape3d> shapes; DLMath::Shape3d s(r.size(1, 4), r.size(1, 4), r.size(1, 4));
        std::size_t sum = 0, most = 0; for (std::size_t i = 0; i < n; ++i) { s[axis] = r.size(1, 5); sum += s[axis]; most = std::max<std::size_t>(most, s[axis]); shapes.push_back(s); }
        a.kind = "Concatenate"; auto rest = s.size() / s[axis]; a.in = rest * most; a.out = rest * sum;
        a.l = std::make_shared<ConcatenateLayer>(name, shapes, axis); a.type = ConcatenateLayer::TYPE;
    }
    a.count = expected_count(a);
    return a;
}
std::string describe(const Any& a)
{ return H::str(a.kind, " ", a.in, "->", a.out, a.image ? " " + a.d.str() : "", a.hidden ? H::str(" hidden ", a.hidden, " steps ", a.steps) : ""); }

void shapes(H::Case& c, const Any& a)
{
    auto& l = *a.l;
    c.ok(l.type() == a.type, "type", [&] { return H::str(describe(a), " says ", l.type()); });
    c.ok(l.input_size() == a.in && l.output_size() == a.out, "sizes", [&] { return H::str(describe(a), " says ", l.input_size(), "->", l.output_size()); });
    c.ok(l.input_layers() == 1 && l.output_layers() == 1 && l.input_shapes().size() == 1 && l.output_shapes().size() == 1, "shape-count");
    c.ok(l.input_shape().size() == a.in && l.output_shape().size() == a.out && l.input_shapes()[0].size() == a.in && l.output_shapes()[0].size() == a.out, "shapes");
    if (a.image)
    {
        auto i = l.input_shape().shape(), o = l.output_shape().shape();
        c.ok(i.height() == a.d.in.h && i.width() == a.d.in.w && i.channels() == a.d.in.c, "input-shape", [&] { return describe(a); });
        c.ok(o.height() == a.d.out.h && o.width() == a.d.out.w && o.channels() == a.d.out.c, "output-shape",
            [&] { return H::str(describe(a), " says ", o.height(), "x", o.width(), "x", o.channels()); });
    }
    c.ok(throws([&] { (void) l.input_size(1); }) && throws([&] { (void) l.output_size(1); }), "second-shape");
    c.ok(l.param_count() == a.count, "param-count", [&] { return H::str(describe(a), " says ", l.param_count(), ", has ", a.count); });
}
/// Parameters and gradients are separate numbers, reached by the indices below the count and by no others.
void parameters(H::Case& c, const Any& a)
{
    auto& l = *a.l; auto& r = c.rng;
    std::unordered_set<const double*> seen;
    for (std::size_t i = 0; i < a.count; ++i) { seen.insert(&l.param(i)); seen.insert(&l.gradient(i)); }
    c.ok(seen.size() == 2 * a.count, "shared-parameter", [&] { return H::str(describe(a), ": ", seen.size(), " numbers for ", a.count, " parameters"); });
    Vec p, g;
    for (std::size_t i = 0; i < a.count; ++i) { double v = r.uni(-2, 2) * r.pick({ 1., 1., 1e-3, 1e4 }); l.param(i) = v; p.push_back(v); l.gradient(i) = -v; g.push_back(-v); }
    for (std::size_t i = 0; i < a.count; ++i) c.ok(l.param(i) == p[i] && l.gradient(i) == g[i], "parameter-lost", [&] { return H::str(describe(a), " parameter ", i); });
    for (std::size_t i: { a.count, a.count + 1, a.count + 1 + r.below(50), std::size_t(-1), std::size_t(-1) - r.below(9) })
    {
        c.ok(throws([&] { (void) l.param(i); }), "parameter-beyond", [&] { return H::str(describe(a), " gives parameter ", i, " of ", a.count); });
        c.ok(throws([&] { (void) l.gradient(i); }), "gradient-beyond", [&] { return H::str(describe(a), " gives gradient ", i, " of ", a.count); });
    }
    if (a.count) c.tag("parameters"); else c.tag("no-parameters");

    std::string t = printed([&] { l.print(); });
    std::size_t miss = 0;
    bool loss = a.kind == "Cce" || a.kind == "Mse";
    if (!loss) c.ok(t.find(l.name()) != std::string::npos, "printed-name", [&] { return H::str(describe(a), " printed ", t.substr(0, 200)); });
    c.ok(a.kind == "Recurrent" ? present(p, numbers(t), miss) : listed(p, numbers(t), miss), "printed-parameters", [&] { return H::str(describe(a), ": parameter ", miss, " = ", miss < p.size() ? p[miss] : 0., " is not printed"); });
    for (std::size_t i = 0; i < a.count; ++i) c.ok(l.param(i) == p[i] && l.gradient(i) == g[i], "printing-changes");
    if (a.count) c.tag("printed");
}
/// Passes of the announced sizes, and what is kept of them.
void passes(H::Case& c, const Any& a)
{
    auto& l = *a.l; auto& r = c.rng; bool loss = a.kind == "Cce" || a.kind == "Mse", rec = a.kind == "Recurrent";
    if (a.kind == "Concatenate") return;
    std::size_t t = rec ? a.steps : 1;
    Vec x = r.vec(a.in * t, .05, 1); if (rec) for (std::size_t i = 0; i < a.count; ++i) l.param(i) = r.uni(-.5, .5);
    if (loss)
    {
        Vec y(a.in, 0.); y[r.below(a.in)] = 1; auto& q = dynamic_cast<LossLayer&>(l); q.set_target(y); auto before = x;
        l.training_forward(x); c.ok(x == before && l.last_input() == x, "last-input");
        c.ok(l.backward(x).size() == a.in && l.last_input_gradient().size() == a.in, "gradient-size");
        c.ok(throws([&] { (void) l.last_output(); }), "loss-output");
        std::string s = printed([&] { l.print(); }); std::size_t miss;
        c.ok(listed({ q.avg_loss(), q.accuracy() * 100 }, numbers(s), miss) , "printed-scores", [&] { return H::str("loss ", q.avg_loss(), " accuracy ", q.accuracy(), " printed as ", s); });
        c.tag("scores"); return;
    }
    Vec y = l.training_forward(x);
    c.ok(y.size() == a.out * t && l.last_output() == y, "output-size", [&] { return H::str(describe(a), ": ", y.size()); });
    Vec want(x.begin(), x.begin() + long(a.in)); c.ok(l.last_input() == want, "last-input", [&] { return describe(a); });
    Vec g = l.backward(r.vec(a.out * t, -1, 1));
    c.ok(g.size() == a.in * t && l.last_input_gradient() == g, "gradient-size", [&] { return H::str(describe(a), ": ", g.size()); });
    Vec z = l.forward(x); c.ok(z.size() == a.out * t && l.last_output() == z, "inference-size");
    c.tag("pass");
}
std::unordered_set<std::string>& names() { static std::unordered_set<std::string> n; return n; }
void layer(H::Case& c)
{
    auto& r = c.rng; bool unnamed = r.chance(.3); std::string name = unnamed ? "" : r.pick({ std::string("layer"), std::string("a b"), std::string("x_1"), std::string("7"), std::string("relu.out") });
    Any a = random_any(r, name); c.tag("kind-" + a.kind); c.sample(describe(a)); if (a.in > 100) c.tag("large");
    if (unnamed) c.ok(!a.l->name().empty() && names().insert(a.l->name()).second, "name-not-unique", [&] { return a.l->name(); });
    else c.ok(a.l->name() == name, "name", [&] { return H::str(a.l->name(), " instead of ", name); });
    if (unnamed) c.tag("unnamed");
    shapes(c, a); parameters(c, a); passes(c, a);
    // A clone says and holds the same; it has gradients of its own.
    {
        Any b = a; b.l = a.l->clone(); c.must(bool(b.l) && b.l != a.l, "clone"); shapes(c, b); c.ok(b.l->name() == a.l->name(), "clone-name");
        for (std::size_t i = 0; i < a.count; ++i) c.ok(&b.l->param(i) == &a.l->param(i) && &b.l->gradient(i) != &a.l->gradient(i), "clone-parameters");
        if (r.chance(.5)) passes(c, b);
        c.ok(b.l->clone()->type() == a.type, "clone-of-clone");
    }
    c.nontrivial(H::hash_str(describe(a)));
    // Another input shape, given the same settings.
    for (int k = int(r.below(3)); k > 0 && !c.failed; --k)
    {
        c.tag("reshaped");
        if (a.image)
        {
            auto least = [](std::size_t kk, std::size_t p) { return kk > 2 * p ? kk - 2 * p : 1; };
            Img n{ std::max(least(a.d.kh, a.d.ph), a.d.kind == Desc::Conv ? std::size_t(1) : a.d.kh) + r.size(0, 6), std::max(least(a.d.kw, a.d.pw), a.d.kind == Desc::Conv ? std::size_t(1) : a.d.kw) + r.size(0, 6), r.size(1, 4) };
            if (r.chance(.5)) n.c = a.d.in.c;
            if (a.d.kind == Desc::Conv && (n.h < a.d.kh || n.w < a.d.kw)) { n.h = std::max(n.h, a.d.kh); n.w = std::max(n.w, a.d.kw); }
            a.d.in = n; a.d.out.h = conv_out(n.h, a.d.kh, a.d.sh, a.d.ph); a.d.out.w = conv_out(n.w, a.d.kw, a.d.sw, a.d.pw); if (a.d.kind != Desc::Conv) a.d.out.c = n.c;
            a.in = n.size(); a.out = a.d.out.size();
            // The same number of parameters, hence the same parameters: half the time the channels stay.
            for (std::size_t i = 0; i < a.count; ++i) a.l->param(i) = r.uni(-1, 1);
            Vec p; for (std::size_t i = 0; i < a.count; ++i) p.push_back(a.l->param(i));
            a.l->input_shape(LayerShape(DLMath::Shape3d(n.h, n.w, n.c)));
            if (!p.empty() && expected_count(a) == p.size())
            {
                c.tag("same-parameters-reshaped");
                for (std::size_t i = 0; i < p.size(); ++i) c.ok(a.l->param(i) == p[i], "reshape-changes-parameters", [&] { return H::str(describe(a), ": ", i, " was ", p[i], ", is ", a.l->param(i)); });
            }
        }
        else
        {
            bool same = r.chance(.2); auto n = same ? a.in : r.far(1, 12, 300);
            Vec p; if (same) for (std::size_t i = 0; i < a.count; ++i) p.push_back(a.l->param(i));
            bool loss = a.kind == "Cce" || a.kind == "Mse", fix = a.kind == "Dense" || a.kind == "Recurrent" || a.kind == "Concatenate" || loss;
            if (a.kind != "Recurrent" && a.kind != "Concatenate" && !same && r.chance(.3)) { Img i{ r.size(1, 5), r.size(1, 5), r.size(1, 4) }; n = i.size(); a.l->input_shape(LayerShape(DLMath::Shape3d(i.h, i.w, i.c))); c.tag("image-shape"); }
            else a.l->input_shape(LayerShape(n));
            a.in = n; if (!fix) a.out = n;
            if (same) for (std::size_t i = 0; i < a.count; ++i) c.ok(a.l->param(i) == p[i], "same-shape-changes", [&] { return describe(a); });
        }
        a.count = expected_count(a);
        shapes(c, a); parameters(c, a); passes(c, a);
    }
}
/// Layers made without any setting are empty.
void empty(H::Case& c)
{
    std::vector<P> ls = { std::make_shared<DenseLayer>(), std::make_shared<ReluLayer>(), std::make_shared<EluLayer>(), std::make_shared<LinearLayer>(), std::make_shared<SoftmaxLayer>(),
        std::make_shared<TanhLayer>(), std::make_shared<SigmoidLayer>(), std::make_shared<RecurrentLayer>(), std::make_shared<DropoutLayer>(), std::make_shared<CategoricalCrossEntropyLossLayer>(), std::make_shared<MeanSquaredLossLayer>() };
    std::set<std::string> types, nm;
    for (auto& l: ls)
    {
        c.ok(types.insert(l->type()).second, "types-equal", [&] { return l->type(); }); c.ok(!l->name().empty() && nm.insert(l->name()).second, "name-not-unique", [&] { return l->name(); });
        c.ok(l->param_count() == 0 && throws([&] { (void) l->param(0); }) && throws([&] { (void) l->gradient(0); }), "empty-parameters", [&] { return l->type(); });
        c.ok(l->input_size() == 0 && l->output_size() == 0 && l->last_input().empty(), "empty-sizes", [&] { return l->type(); });
        printed([&] { l->print(); }); l->clone();
    }
    for (auto& t: { ConvolutionalLayer::TYPE, MaxPoolingLayer::TYPE, AveragePoolingLayer::TYPE, ConcatenateLayer::TYPE }) c.ok(types.insert(t).second, "types-equal", [&] { return t; });
    // A layer is of its class and of those it derives from.
    Layer& d = *ls[0]; Layer& e = *ls[9];
    c.ok(d.is_type<DenseLayer>() && d.is_type<FeedforwardLayer>() && d.is_type<Layer>() && !d.is_type<ReluLayer>() && !d.is_type<LossLayer>(), "is-type");
    c.ok(e.is_type<LossLayer>() && e.is_type<CategoricalCrossEntropyLossLayer>() && !e.is_type<MeanSquaredLossLayer>() && !e.is_type<FeedforwardLayer>(), "is-type");
    // Probability of a dropout layer made without one.
    {
        DropoutLayer q("q", 4000); Vec x(4000, 1.), y = q.training_forward(x); std::size_t z = 0; for (double v: y) z += v == 0;
        c.ok(z > 250 && z < 560, "default-drop-probability", [&] { return H::str(z, " of 4000 dropped"); });
    }
    c.tag("defaults"); c.nontrivial(c.id);
}
/// Concatenation refuses shapes that do not fit and axes that do not exist.
void rejected(H::Case& c)
{
    auto& r = c.rng; DLMath::Shape3d s(r.size(1, 5), r.size(1, 5), r.size(1, 5)), t = s; std::size_t axis = r.below(3), other = (axis + 1 + r.below(2)) % 3; t[other] = s[other] + 1 + r.below(3);
    if (r.chance(.3)) { auto third = 3 - axis - other; s[other] += s[other] == s[third]; t = s; std::swap(t[other], t[third]); c.tag("misfit-of-equal-size"); }       // as many values, arranged otherwise
    std::vector<DLMath::Shape3d> v(r.far(1, 3, 12, .3), s); v.insert(v.begin() + long(r.below(v.size() + 1)), t);
    c.ok(throws([&] { ConcatenateLayer("c", v, axis); }), "misfit-accepted"); c.ok(throws([&] { ConcatenateLayer("c", { s, s }, 3 + r.below(5)); }), "axis-accepted");
    c.ok(throws([&] { ConcatenateLayer("c", {}, axis); }), "no-shapes-accepted");
    c.tag("misfit"); c.nontrivial(r.next());
}
/// A model lists its layers, sizes and printed values.
void model(H::Case& c)
{
    auto& r = c.rng; bool unnamed = r.chance(.3); std::string name = r.pick({ std::string("net"), std::string("a b"), std::string("m_2") });
    Model m = unnamed ? Model() : Model(name);
    if (unnamed) c.ok(!m.name().empty() && names().insert(m.name()).second, "model-name-not-unique", [&] { return m.name(); }); else c.ok(m.name() == name, "model-name");
    c.ok(m.layers().empty() && m.input_layers().empty() && m.output_layers().empty() && m.loss_layers().empty(), "empty-model");
    Chain ch = random_chain(r, {}); std::vector<P> ls; P prev; std::string names_in_order;
    for (auto& d: ch.layers)
    {
        P l = add(m, d); ls.push_back(l); c.ok(m.layers().size() == ls.size() && m.layers().back() == l, "added-layer");
        if (prev) m.create_edge(prev, l); prev = l;
    }
    std::shared_ptr<LossLayer> loss;
    if (ch.layers.size() == 1 || r.chance(.7))    // a layer without any edge is not part of a run
    {
        if (ch.cce) loss = m.add_loss<CategoricalCrossEntropyLossLayer>("loss", ch.out(), ch.batch); else loss = m.add_loss<MeanSquaredLossLayer>("loss", ch.out(), ch.batch, ch.tolerance);
        m.create_loss_edge(prev, loss); ls.push_back(loss); c.ok(m.loss_layers().size() == 1 && m.loss_layers()[0] == loss, "loss-layers"); c.tag("with-loss");
    }
    c.ok(m.layers() == ls, "layers"); 
    c.ok(m.input_layers().size() == 1 && m.input_layers()[0] == ls[0], "input-layers"); c.ok(m.output_layers().size() == 1 && m.output_layers()[0] == prev, "output-layers");
    c.ok(m.input_size() == ch.in.size() && m.output_size() == ch.out(), "model-sizes", [&] { return H::str(ch.str(), ": ", m.input_size(), "->", m.output_size()); });
    Vec p; for (auto& l: ls) for (std::size_t i = 0; i < l->param_count(); ++i) { l->param(i) = r.uni(-3, 3); p.push_back(l->param(i)); }
    std::string t = printed([&] { m.print(); }); std::size_t miss, at = 0;
    c.ok(listed(p, numbers(t), miss), "printed-model", [&] { return H::str(ch.str(), ": parameter ", miss, " of ", p.size(), " is not printed"); });
    for (auto& l: ls) if (l != loss) { at = t.find(l->name(), at); c.must(at != std::string::npos, "printed-layer", [&] { return H::str(l->name(), " of ", ch.str()); }); ++at; }
    std::size_t k = 0; for (auto& l: ls) for (std::size_t i = 0; i < l->param_count(); ++i) c.ok(l->param(i) == p[k++], "printing-changes");
    if (!p.empty()) c.tag("printed-model");
    c.nontrivial(ch.hash()); c.sample(ch.str());
}
/// A model of separate branches, each with sizes of its own.
void branches(H::Case& c)
{
    auto& r = c.rng; Model m("branches"); auto k = r.far(1, 9, 90, .05); std::vector<std::size_t> in(k), out(k), steps(k); std::vector<P> first, last, all;
    for (std::size_t i = 0; i < k; ++i)
    {
        in[i] = r.size(1, 30); out[i] = r.size(1, 30); P a = m.add_layer<DenseLayer>(H::str("d", i), in[i], out[i]), b = m.add_layer<ReluLayer>(H::str("r", i), out[i]); first.push_back(a); last.push_back(b); all.push_back(a); all.push_back(b);
        if (r.chance(.5)) m.create_edge(a, b); else { m.create_front_arc(a, b); m.create_back_arc(b, a); }
    }
    c.ok(m.layers() == all, "layers"); c.ok(m.input_layers() == first, "input-layers", [&] { return H::str(m.input_layers().size(), " of ", k); }); c.ok(m.output_layers() == last, "output-layers", [&] { return H::str(m.output_layers().size(), " of ", k); });
    c.ok(m.input_size() == in[0] && m.output_size() == out[0], "model-sizes");
    for (std::size_t i = 0; i < k + 3; ++i)
        c.ok(m.input_size(i) == (i < k ? in[i] : 0) && m.output_size(i) == (i < k ? out[i] : 0), "branch-sizes", [&] { return H::str("branch ", i, " of ", k, ": ", m.input_size(i), "->", m.output_size(i)); });
    for (std::size_t i = 0; i < all.size(); ++i) for (std::size_t j = 0; j < all[i]->param_count(); ++j) all[i]->param(j) = r.uni(-2, 2);
    Vec p; for (auto& l: all) for (std::size_t j = 0; j < l->param_count(); ++j) p.push_back(l->param(j));
    std::size_t miss; std::string t = printed([&] { m.print(); }); c.ok(listed(p, numbers(t), miss), "printed-model", [&] { return H::str("parameter ", miss, " of ", p.size()); });
    c.tag("branches"); if (k > 9) c.tag("many-branches"); c.nontrivial(H::comb(k, p.size()));
}
/// Names stay unique when layers and models are made in several threads.
void threads(H::Case& c)
{
    auto& r = c.rng; std::size_t n = r.size(2, 8), each = r.size(5, 60); std::vector<std::vector<std::string>> got(n); std::vector<std::thread> ts;
    for (std::size_t i = 0; i < n; ++i) ts.emplace_back([&, i] { for (std::size_t k = 0; k < each; ++k) got[i].push_back(k % 3 == 0 ? Model().name() : k % 3 == 1 ? ReluLayer().name() : DenseLayer("", 1, 1).name()); });
    for (auto& t: ts) t.join();
    for (auto& g: got) for (auto& s: g) c.ok(names().insert(s).second, "name-not-unique", [&] { return s; });
    c.tag("threads"); c.nontrivial(c.id);
}
/// Names stay unique over many unnamed layers.
void many(H::Case& c)
{
    std::set<std::string> got; auto n = 70000 + c.rng.below(5000);
    for (std::size_t k = 0; k < n; ++k) { auto s = k % 2 ? ReluLayer().name() : TanhLayer().name(); if (!c.ok(got.insert(s).second, "name-not-unique", [&] { return H::str(s, " after ", k, " layers"); })) return; }
    c.tag("many-names"); c.nontrivial(n);
}
}
int main(int argc, char** argv)
{
    return H::run(argc, argv, { { "layer", 40000, 400000, layer }, { "empty", 20, 200, empty }, { "rejected", 300, 5000, rejected }, { "model", 10000, 100000, model }, { "branches", 1500, 20000, branches }, { "threads", 100, 3000, threads }, { "many", 1, 8, many } });
}
