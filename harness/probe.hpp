// Layers, losses and optimizers that write down every call, on any thread.
#ifndef VERIF_PROBE_HPP
#define VERIF_PROBE_HPP

#include "net.hpp"
#include <mutex>

namespace PR {

using namespace EdgeLearning;
using Vec = std::vector<double>;

/// T forward, F prediction, B backward, L loss (target in `t`), U update of a layer.
struct Event { char what; int id; Vec in, t; };

/// One log per thread, so that logging does not order the threads.
struct Logs
{
    std::mutex m; std::vector<std::shared_ptr<std::vector<Event>>> all;
    std::vector<Event>& mine()
    {
        static thread_local std::shared_ptr<std::vector<Event>> l;
        if (!l) { l = std::make_shared<std::vector<Event>>(); std::lock_guard<std::mutex> g(m); all.push_back(l); }
        return *l;
    }
    void clear() { std::lock_guard<std::mutex> g(m); for (auto& l: all) l->clear(); }
};
inline Logs& logs() { static Logs l; return l; }
inline void put(Event e) { logs().mine().push_back(std::move(e)); }

class ProbeLayer : public Layer
{
public:
    ProbeLayer(std::string n, int id_, std::size_t in, std::size_t out_) : Layer(n, in, out_), id(id_), out(out_), gi(in), p(3, 1.), g(3, 0.) {}
    int id; Vec out, gi, p, g;
    static Vec f(int id, const Vec& x, std::size_t n) { Vec y(n); for (std::size_t i = 0; i < n; ++i) y[i] = id + .5 * x[i % x.size()] + .25 * double(i); return y; }
    void init(InitializationFunction, ProbabilityDensityFunction, RneType) override { put({ 'I', id, {}, {} }); }
    const std::vector<NumType>& forward(const std::vector<NumType>& x) override { put({ 'F', id, x, {} }); out = f(id, x, out.size()); return out; }
    const std::vector<NumType>& training_forward(const std::vector<NumType>& x) override { put({ 'T', id, x, {} }); out = f(id, x, out.size()); return out; }
    const std::vector<NumType>& backward(const std::vector<NumType>& x) override { put({ 'B', id, x, {} }); for (std::size_t i = 0; i < gi.size(); ++i) gi[i] = x[i % x.size()]; for (std::size_t i = 0; i < 3; ++i) g[i] += x[i % x.size()]; return gi; }
    const std::vector<NumType>& last_input_gradient() override { return gi; }
    const std::vector<NumType>& last_output() override { return out; }
    SizeType param_count() const noexcept override { return p.size(); }
    NumType& param(SizeType i) override { return p[i]; }
    NumType& gradient(SizeType i) override { return g[i]; }
    SharedPtr clone() const override { return std::make_shared<ProbeLayer>(*this); }
    void print() const override {}
};
class ProbeLoss : public LossLayer
{
public:
    ProbeLoss(std::string n, int id_, std::size_t in, double fail_at_ = 1e300) : LossLayer(in, 1, n, "x_"), id(id_), fail_at(fail_at_) {}
    int id; double fail_at; int kind = 0;      ///< what is thrown when it fails
    const std::vector<NumType>& forward(const std::vector<NumType>& x) override
    {
        put({ 'L', id, x, _target });
        if (_target[0] == fail_at)
        {
            switch (kind) { case 1: throw std::out_of_range("step failed"); case 2: throw std::logic_error("step failed"); case 3: throw std::bad_alloc(); case 4: throw 42; default: throw std::runtime_error("step failed"); }
        }
        ++_correct; _cumulative_loss += 2; return x;
    }
    const std::vector<NumType>& backward(const std::vector<NumType>&) override { for (std::size_t i = 0; i < _gradients.size(); ++i) _gradients[i] = double(i) + _target[0]; return _gradients; }
    SharedPtr clone() const override { return std::make_shared<ProbeLoss>(*this); }
};
/// Writes down the gradients it is given, and consumes them.
class ProbeOptimizer : public Optimizer
{
public:
    std::vector<Event> log; std::size_t updates = 0;
protected:
    void _train(Layer& from, Layer& to) override
    {
        auto* p = dynamic_cast<ProbeLayer*>(&from); int id = p ? p->id : dynamic_cast<ProbeLoss*>(&from) ? -1 : -2;
        if (&from != &to && from.param_count()) id += 1000;
        Vec g; for (std::size_t i = 0; i < from.param_count(); ++i) { g.push_back(from.gradient(i)); from.gradient(i) = 0; }
        log.push_back({ 'U', id, g, {} }); put(log.back()); ++updates;
    }
};

} // namespace PR

#endif
