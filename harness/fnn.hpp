// Random networks of layer descriptors, the same networks assembled by hand, and training written out again.
#ifndef VERIF_FNN_HPP
#define VERIF_FNN_HPP

#include "net.hpp"
#include "table.hpp"
#include "middleware/fnn.hpp"

namespace F {

using namespace EdgeLearning;
using namespace N;
using PL = ParallelizationLevel;
using Static = StaticNeuralNetwork<double>;

inline bool is_activation(Desc::Kind k)
{ return k == Desc::Relu || k == Desc::Elu || k == Desc::Softmax || k == Desc::Tanh || k == Desc::Sigmoid || k == Desc::Linear; }
inline Desc::Kind kind_of(ActivationType a)
{
    switch (a)
    {
        case ActivationType::ReLU: return Desc::Relu;
        case ActivationType::ELU: return Desc::Elu;
        case ActivationType::Softmax: return Desc::Softmax;
        case ActivationType::TanH: return Desc::Tanh;
        case ActivationType::Sigmoid: return Desc::Sigmoid;
        default: return Desc::Linear;
    }
}

/// A description: pairs of layer and activation, and the chain of layers it stands for.
struct Net
{
    Img in; bool flat_input = false;
    std::vector<Desc> layers; std::vector<ActivationType> acts;
    Chain chain;
    LossType loss = LossType::MSE; InitType init = InitType::AUTO;
    std::size_t out() const { return chain.out(); }
    std::string str() const { return chain.str() + H::str(" init ", int(init)); }
};
struct NetOpts { std::size_t min_layers = 1, max_layers = 4; bool images = true; double dropout = .15; bool plain = false; };

inline void finish(Net& n)
{
    n.chain = Chain(); n.chain.in = n.in; n.chain.cce = n.loss == LossType::CCE;
    for (std::size_t i = 0; i < n.layers.size(); ++i)
    {
        n.chain.layers.push_back(n.layers[i]);
        Desc a; a.kind = kind_of(n.acts[i]); a.in = a.out = n.layers[i].out; a.name = n.layers[i].name;
        n.chain.layers.push_back(a);
    }
}
inline Net random_net(H::Rng& r, NetOpts o = {})
{
    Net n; n.in = o.images ? random_image(r) : Img{ r.far(1, 8, 100), 1, 1 };
    if (n.in.w == 1 && n.in.c == 1) n.flat_input = r.chance(.6);
    Img cur = n.in;
    for (std::size_t i = 0, k = o.min_layers > 1 ? r.size(o.min_layers, o.max_layers) : r.far(1, o.max_layers, o.max_layers * 5); i < k; ++i)
    {
        Desc d;
        if (o.dropout > 0 && r.chance(o.dropout)) { d.kind = Desc::Dropout; d.in = d.out = cur; d.p = r.pick({ .5, .1, r.uni(0, .9), 0. }); }
        else do d = random_layer(r, cur, 6, o.images); while (is_activation(d.kind));
        d.name = r.chance(.8) ? H::str("l", i) : "same";
        cur = d.out; n.layers.push_back(d);
        n.acts.push_back(r.pick({ ActivationType::ReLU, ActivationType::ELU, ActivationType::Softmax, ActivationType::TanH, ActivationType::Sigmoid, ActivationType::Linear, ActivationType::None }));
    }
    n.loss = r.chance(.5) ? LossType::CCE : LossType::MSE;
    if (n.loss == LossType::CCE) n.acts.back() = ActivationType::Softmax;
    n.init = r.pick({ InitType::HE_INIT, InitType::XAVIER_INIT, InitType::AUTO });
    finish(n); return n;
}

/// The description, given by the classes per layer or piece by piece.
inline LayerDescriptor describe(H::Rng& r, const Desc& d, ActivationType a)
{
    DLMath::Shape2d k(d.kh, d.kw), s(d.sh, d.sw), p(d.ph, d.pw);
    if (r.chance(.3))
    {
        LayerDescriptor l("other", LayerType::Input); LayerSetting t;
        if (r.chance(.5))
        {
            // One that described something else before.
            l = r.chance(.3) ? LayerDescriptor(Conv("conv", { 3, { 2, 3 }, { 1, 2 }, { 1, 0 } }, ActivationType::ELU)) : r.chance(.5) ? LayerDescriptor(Dense("dense", 5, ActivationType::TanH)) : LayerDescriptor(Dropout("drop", Dropout::DropoutSetting(.25), ActivationType::ReLU));
            t = l.setting(); t.units(LayerShape(0)); t.n_filters(0); t.kernel_shape(DLMath::Shape2d(0)); t.stride(DLMath::Shape2d(0)); t.padding(DLMath::Shape2d(0)); t.drop_probability(0);
        }
        if (r.chance(.5)) { l.name(d.name); l.activation_type(a); } else { l.activation_type(a); l.name("between"); l.name(d.name); }
        switch (d.kind)
        {
            case Desc::Dense: l.type(LayerType::Dense); t.units(LayerShape(d.out.size())); break;
            case Desc::Conv: l.type(LayerType::Conv); t.n_filters(d.f); t.kernel_shape(k); t.stride(s); t.padding(p); break;
            case Desc::MaxPool: l.type(LayerType::MaxPool); t.kernel_shape(k); t.stride(s); break;
            case Desc::AvgPool: l.type(LayerType::AvgPool); t.kernel_shape(k); t.stride(s); break;
            default: l.type(LayerType::Dropout); t.drop_probability(d.p); break;
        }
        l.setting(t); return l;
    }
    switch (d.kind)
    {
        case Desc::Dense: return Dense(d.name, d.out.size(), a);
        case Desc::Conv: return d.sh == 1 && d.sw == 1 && d.ph == 0 && d.pw == 0 && r.chance(.5) ? Conv(d.name, { d.f, k }, a) : Conv(d.name, { d.f, k, s, p }, a);
        case Desc::MaxPool: return d.sh == 1 && d.sw == 1 && r.chance(.5) ? MaxPool(d.name, MaxPool::MaxPoolSetting(k), a) : MaxPool(d.name, { k, s }, a);
        case Desc::AvgPool: return d.sh == 1 && d.sw == 1 && r.chance(.5) ? AvgPool(d.name, AvgPool::AvgPoolSetting(k), a) : AvgPool(d.name, { k, s }, a);
        default: return Dropout(d.name, Dropout::DropoutSetting(d.p), a);
    }
}
inline NeuralNetworkDescriptor describe(H::Rng& r, const Net& n)
{
    NeuralNetworkDescriptor v;
    v.push_back(n.flat_input ? Input("in", LayerShape(n.in.size())) : Input("in", LayerShape(DLMath::Shape3d(n.in.h, n.in.w, n.in.c))));
    for (std::size_t i = 0; i < n.layers.size(); ++i) v.push_back(describe(r, n.layers[i], n.acts[i]));
    return v;
}

template<PL P, LossType LT> std::shared_ptr<Static> make_edge_lt(InitType i)
{
    switch (i)
    {
        case InitType::HE_INIT: return std::make_shared<EdgeFeedforwardNeuralNetwork<LT, InitType::HE_INIT, P, double>>("net");
        case InitType::XAVIER_INIT: return std::make_shared<EdgeFeedforwardNeuralNetwork<LT, InitType::XAVIER_INIT, P, double>>("net");
        default: return std::make_shared<EdgeFeedforwardNeuralNetwork<LT, InitType::AUTO, P, double>>("net");
    }
}
template<PL P> std::shared_ptr<Static> make_edge(H::Rng& r, const Net& n)
{
    auto e = n.loss == LossType::CCE ? make_edge_lt<P, LossType::CCE>(n.init) : make_edge_lt<P, LossType::MSE>(n.init);
    for (auto& d: describe(r, n)) e->add(d);
    return e;
}

/// The statically configured network behind one interface.
struct Any
{
    std::function<Dataset<double>(Dataset<double>&)> predict;
    std::function<void(Dataset<double>&, OptimizerType, std::size_t, std::size_t, double, unsigned)> fit;
    std::function<NeuralNetwork<double>::EvaluationResult(Dataset<double>&)> evaluate;
};
template<PL P, LossType LT, InitType IT> Any make_static_as(H::Rng& r, const Net& n)
{
    auto f = std::make_shared<FeedforwardNeuralNetwork<Framework::EDGE_LEARNING, LT, IT, P, double>>(describe(r, n), "net");
    return { [f](Dataset<double>& d) { return f->predict(d); },
             [f](Dataset<double>& d, OptimizerType o, std::size_t e, std::size_t b, double l, unsigned s) { f->fit(d, o, e, b, l, s); },
             [f](Dataset<double>& d) { return f->evaluate(d); } };
}
template<PL P> Any make_static(H::Rng& r, const Net& n)
{
    if (n.loss == LossType::CCE) switch (n.init)
    {
        case InitType::HE_INIT: return make_static_as<P, LossType::CCE, InitType::HE_INIT>(r, n);
        case InitType::XAVIER_INIT: return make_static_as<P, LossType::CCE, InitType::XAVIER_INIT>(r, n);
        default: return make_static_as<P, LossType::CCE, InitType::AUTO>(r, n);
    }
    switch (n.init)
    {
        case InitType::HE_INIT: return make_static_as<P, LossType::MSE, InitType::HE_INIT>(r, n);
        case InitType::XAVIER_INIT: return make_static_as<P, LossType::MSE, InitType::XAVIER_INIT>(r, n);
        default: return make_static_as<P, LossType::MSE, InitType::AUTO>(r, n);
    }
}

inline Model::InitializationFunction init_function(InitType i)
{
    switch (i)
    {
        case InitType::HE_INIT: return Model::InitializationFunction::KAIMING;
        case InitType::XAVIER_INIT: return Model::InitializationFunction::XAVIER;
        default: return Model::InitializationFunction::AUTO;
    }
}

/// Rows of inputs and labels; labels are in random columns, in increasing order.
struct Data
{
    std::vector<Vec> in, lab, rows; T::Set cols; std::size_t seq = 1;
    std::size_t size() const { return rows.size(); }
    Dataset<double> make() const { return Dataset<double>(rows, seq, cols); }
    Dataset<double> inputs() const { return Dataset<double>(in, seq, {}); }
};
inline Data random_rows(H::Rng& r, std::size_t n, std::size_t ins, const Chain& ch)
{
    Data d; auto outs = ch.out(); std::vector<std::size_t> c(ins + outs);
    for (std::size_t i = 0; i < c.size(); ++i) c[i] = i;
    if (r.chance(.6)) r.shuffle(c); else if (r.chance(.7)) std::reverse(c.begin(), c.end());
    for (std::size_t i = 0; i < outs; ++i) d.cols.insert(c[i]);
    double sparse = r.chance(.3) ? .4 : 0;
    for (std::size_t i = 0; i < n; ++i)
    {
        Vec x = r.vec(ins, -1, 1), t = target(r, ch), row;
        for (auto& v: x) if (r.chance(sparse)) v = 0;
        if (i && r.chance(.05)) { x = d.in[i - 1]; if (r.chance(.5)) t = d.lab[i - 1]; }
        std::size_t a = 0, b = 0;
        for (std::size_t k = 0; k < ins + outs; ++k) row.push_back(d.cols.count(k) ? t[b++] : x[a++]);
        d.in.push_back(x); d.lab.push_back(t); d.rows.push_back(row);
    }
    for (std::size_t s: { 2, 3, 5 }) if (n && n % s == 0 && r.chance(.1)) d.seq = s;
    return d;
}

/// Training on one thread with one model, without copies: mode 0 one update per batch, 1 one update per entry with
/// the parameters of the group's start, 2 one update per batch with the parameters of the start of `workers` batches.
inline std::size_t train_by_hand(Model& m, const Chain& ch, const Data& d, Optimizer& o, std::size_t epochs, std::size_t batch, int mode, std::size_t workers = 1)
{
    std::size_t updates = 0, n = d.size();
    auto set_gradients = [&](const Vec& g) { std::size_t k = 0; for (auto& l: m.layers()) for (std::size_t i = 0; i < l->param_count(); ++i) l->gradient(i) = g[k++]; };
    auto update = [&] { for (auto& l: m.layers()) o.train(*l); ++updates; };
    auto at = [&](Model& q, const Vec& p) { std::size_t k = 0; for (auto& l: q.layers()) for (std::size_t i = 0; i < l->param_count(); ++i) { l->param(i) = p[k++]; l->gradient(i) = 0; } };
    for (std::size_t e = 0; e < epochs; ++e)
        for (std::size_t i = 0; i < n;)
        {
            std::size_t group = mode == 2 ? batch * workers : batch, end = std::min(n, i + group), unit = mode == 1 ? 1 : batch;
            if (mode == 0) { for (; i < end; ++i) m.step(d.in[i], d.lab[i]); update(); continue; }
            std::vector<Vec> g; Vec p = params(m);
            for (; i < end;)
            {
                Model q = build(ch); for (auto& l: q.loss_layers()) l->batch_size(batch);
                at(q, p);
                for (std::size_t j = 0; j < unit && i < end; ++j, ++i) q.step(d.in[i], d.lab[i]);
                g.push_back(grads(q));
            }
            for (auto& x: g) { set_gradients(x); update(); }
        }
    return updates;
}
inline bool near(const Vec& a, const Vec& b, double rel = 1e-8, double floor_ = 1e-2)
{
    if (a.size() != b.size()) return false;
    for (std::size_t i = 0; i < a.size(); ++i) if (!H::close(a[i], b[i], rel, floor_)) return false;
    return true;
}
inline bool tame(const Vec& a, double max = 1e4) { for (auto x: a) if (!(std::fabs(x) < max)) return false; return true; }
inline std::shared_ptr<Optimizer> optimizer(OptimizerType t, double eta)
{ return t == OptimizerType::ADAM ? std::shared_ptr<Optimizer>(std::make_shared<AdamOptimizer>(eta)) : std::make_shared<GradientDescentOptimizer>(eta); }

} // namespace F

#endif
