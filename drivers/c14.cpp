// C14: losses, their gradients, running averages and accuracy.
#include "h.hpp"
#include "dnn/dlmath.hpp"
#include "dnn/cce_loss.hpp"
#include "dnn/mse_loss.hpp"
using namespace EdgeLearning;
using M = DLMath;
typedef long double L;

namespace {

std::vector<double> prediction(H::Rng& r, std::size_t n, bool prob)
{
    auto v = r.vec(n, prob ? 0 : -3, prob ? 1 : 3);
    int style = int(r.below(6));
    if (prob)
    {
        if (style == 0) { double s = 0; for (auto& x: v) { x = std::exp(x * 8); s += x; } for (auto& x: v) x /= s; }
        else if (style == 1) for (auto& x: v) x = r.chance(.4) ? 0. : r.chance(.4) ? 1. : x;
        else if (style == 2) for (auto& x: v) x = std::pow(10, -r.uni(0, 14));
        else if (style == 3) { for (auto& x: v) x = 0; v[r.below(n)] = 1; }
    }
    else
    {
        if (style == 0) for (auto& x: v) x = double(r.range(-4, 4));
        else if (style == 1) for (auto& x: v) x *= std::pow(10, r.uni(-8, 8));
    }
    return v;
}
std::vector<double> one_hot(H::Rng& r, std::size_t n)
{ std::vector<double> y(n, 0.); y[r.below(n)] = r.chance(.9) ? 1. : r.uni(.1, 1); if (r.chance(.1)) for (auto& x: y) if (r.chance(.3)) x = r.uni(); return y; }

const double EPS = std::numeric_limits<double>::epsilon();
L cce(const std::vector<double>& y, const std::vector<double>& p) { L s = 0; for (std::size_t i = 0; i < y.size(); ++i) if (y[i] != 0) s -= L(y[i]) * std::log(std::max<L>(p[i], EPS)); return s; }
L mse(const std::vector<double>& y, const std::vector<double>& p) { L s = 0; for (std::size_t i = 0; i < y.size(); ++i) s += (L(y[i]) - p[i]) * (L(y[i]) - p[i]); return s / L(y.size()); }

void gradient(H::Case& c, bool cross, const std::vector<double>& y, const std::vector<double>& p, double norm, const double* got, const char* key)
{
    for (std::size_t i = 0; i < y.size(); ++i)
    {
        if (cross && p[i] < 1e-14)
        {   // The loss is cut off there: the derivative only has to stay finite and point downwards.
            c.ok(std::isfinite(got[i]) && (y[i] > 0 ? got[i] < 0 : got[i] == 0), "gradient-at-zero", [&] { return H::str("y ", y[i], " prediction ", p[i], " gradient ", got[i]); });
            continue;
        }
        double w = double(cross ? -L(y[i]) / p[i] * norm : -2 * (L(y[i]) - p[i]) * norm);
        c.ok(std::fabs(got[i] - w) <= 1e-13 * (std::fabs(w) + (cross ? 0 : norm * (std::fabs(y[i]) + std::fabs(p[i])))), key, [&] { return H::str("element ", i, " y ", y[i], " prediction ", p[i], " norm ", norm, ": ", got[i], " instead of ", w); });
    }
}

void kernels(H::Case& c)
{
    auto n = c.rng.far(1, 40, 3000); if (n > 1000) c.tag("many-classes");
    bool cross = c.rng.chance(.5);
    auto p = prediction(c.rng, n, cross);
    auto y = cross ? one_hot(c.rng, n) : prediction(c.rng, n, false);
    if (c.rng.chance(.1)) y = p;
    double norm = 1. / double(c.rng.size(1, 64));
    H::Guarded<double> gy(y), gp(p), d(n);
    if (cross)
    {
        double l = M::cross_entropy(gy.data(), gp.data(), n), w = double(cce(y, p));
        c.ok(std::isfinite(l) && H::close(l, w, 1e-12, 1), "cross-entropy", [&] { return H::str(l, " instead of ", w, " for ", H::vstr(y), " ", H::vstr(p)); });
        M::cross_entropy_1(d.data(), gy.data(), gp.data(), norm, n);
        gradient(c, true, y, p, norm, d.data(), "cross-entropy-gradient");
        for (std::size_t i = 0; i < n; ++i) { double one = M::cross_entropy(y[i], p[i]); c.ok(H::close(one, y[i] == 0 ? 0 : -y[i] * std::log(std::max(p[i], EPS)), 1e-12, 1), "cross-entropy-scalar"); }
        c.tag("cross-entropy");
    }
    else
    {
        double l = M::mean_squared_error(gy.data(), gp.data(), n), w = double(mse(y, p));
        c.ok(H::close(l, w, 1e-12, 1e-300), "squared-error", [&] { return H::str(l, " instead of ", w, " for ", H::vstr(y), " ", H::vstr(p)); });
        M::mean_squared_error_1(d.data(), gy.data(), gp.data(), norm, n);
        gradient(c, false, y, p, norm, d.data(), "squared-error-gradient");
        for (std::size_t i = 0; i < n; ++i)
        {
            c.ok(H::close(M::squared_error(y[i], p[i]), (y[i] - p[i]) * (y[i] - p[i]), 1e-12, 1e-300), "squared-error-scalar");
            double one = M::squared_error_1(y[i], p[i], norm); gradient(c, false, { y[i] }, { p[i] }, norm, &one, "squared-error-gradient-scalar");
        }
        c.tag("squared-error");
    }
    c.ok(gy.vec() == y && gp.vec() == p && gy.intact() && gp.intact() && d.intact(), "writes-elsewhere");
    // The derivative against differences of the definition itself.
    auto i = c.rng.below(n);
    if (!cross || p[i] > 1e-3)
    {
        L h = cross ? 1e-4L * p[i] : .1L * std::max<L>(std::max<L>(std::fabs(p[i]), std::fabs(y[i])), 1e-3L); auto at = [&](L x) { L s = 0; return cross ? (y[i] == 0 ? s : -L(y[i]) * std::log(x)) : (L(y[i]) - x) * (L(y[i]) - x); };
        double fd = double((at(p[i] + h) - at(p[i] - h)) / (2 * h)) * norm;
        c.ok(H::close(d[i], fd, 1e-5, 1e-6 * (1 + std::fabs(y[i]) + std::fabs(p[i]))), "finite-difference", [&] { return H::str(d[i], " instead of ", fd); });
        c.tag("finite-difference");
    }
    c.nontrivial(H::comb(H::hash_vec(y), H::hash_vec(p)));
}

void layers(H::Case& c)
{
    bool cross = c.rng.chance(.5);
    auto n = c.rng.far(1, 40, 1500), batch = c.rng.chance(.3) ? 1 : c.rng.far(1, 64, 100000);
    double tol = c.rng.pick({ 0., .1, .5, 1., 4., c.rng.uni(0, 3) });
    std::shared_ptr<LossLayer> l;
    if (cross) l = std::make_shared<CategoricalCrossEntropyLossLayer>(c.rng.chance(.5) ? "cce" : "", n, batch);
    else l = std::make_shared<MeanSquaredLossLayer>("", n, batch, tol);
    { auto q = c.rng.vec(n, 0, 1); c.ok(H::throws([&] { l->forward(q); }), "no-target-accepted"); }
    L sum = 0; std::size_t good = 0, all = 0; double norm = 1. / double(batch);
    std::vector<double> p, y; std::string ops; bool open_tie = false;
    std::shared_ptr<LossLayer> twin; double twin_loss = 0, twin_acc = 0; H::u64 h = H::comb(n, cross);
    auto len = n < 50 ? c.rng.far(1, 30, 3000, .005) : c.rng.size(1, 30); if (len > 1000) c.tag("long-history");
    for (auto k = len; k; --k)
    {
        auto op = c.rng.below(10);
        if (op == 0 && (len < 100 || c.rng.chance(.01))) { l->reset_score(); sum = 0; good = all = 0; open_tie = false; ops += "r"; c.tag("reset"); continue; }
        if (op == 1) { batch = c.rng.far(1, 64, 100000); norm = 1. / double(batch); l->batch_size(batch); ops += "b"; c.tag("batch-size"); continue; }
        if (op == 2 && all) { twin = std::dynamic_pointer_cast<LossLayer>(l->clone()); twin_loss = twin->avg_loss(); twin_acc = twin->accuracy(); c.ok(H::same(twin_loss, l->avg_loss()) && H::same(twin_acc, l->accuracy()), "clone-score"); c.tag("clone"); continue; }
        if (op == 3 && c.rng.chance(.3)) { n = c.rng.far(1, 40, 1500); l->input_shape(LayerShape(n)); c.tag("resized"); }
        if (op == 4 && c.rng.chance(.2))
        {
            // Refused targets: the score stays what it was.
            bool zeros = cross && c.rng.chance(.5); p = prediction(c.rng, n, cross);
            l->set_target(zeros ? std::vector<double>(n, 0.) : std::vector<double>{}); double was = l->avg_loss();
            c.ok(H::throws([&] { if (c.rng.chance(.5)) l->forward(p); else l->training_forward(p); }), zeros ? "zero-target-accepted" : "empty-target-accepted");
            c.ok(H::same(was, l->avg_loss()), "refused-target-scored", [&] { return H::str(was, " became ", l->avg_loss()); });
            ops += "e"; c.tag(zeros ? "zero-target" : "empty-target"); continue;
        }
        p = prediction(c.rng, n, cross); y = cross ? one_hot(c.rng, n) : prediction(c.rng, n, false);
        if (c.rng.chance(.15)) p = y;
        if (cross && c.rng.chance(.4)) { std::size_t a = 0; while (y[a] == 0) ++a; p[a] = 1.5; }
        if (!cross && c.rng.chance(.3)) { p = y; p[c.rng.below(n)] += c.rng.pick({ 0., .5, 1., 2. }); }
        if (!cross && c.rng.chance(.2)) { for (auto& x: y) x = double(c.rng.range(-9, 9)); p = y; for (auto& x: p) x += c.rng.chance(.5) ? 2 : -2; }  // loss exactly 4
        if (cross && n > 1 && c.rng.chance(.1)) { double v = c.rng.uni(1.5, 2); p[c.rng.below(n)] = v; p[c.rng.below(n)] = v; std::size_t a = 0; while (y[a] == 0) ++a; if (c.rng.chance(.5)) p[a] = v; }
        else if (cross && n > 1 && c.rng.chance(.2))       // the best prediction is one representable step ahead
        {
            std::size_t a = 0; while (y[a] == 0) ++a;
            auto b = c.rng.below(n - 1); if (b >= a) ++b;
            auto v = c.rng.uni(1.5, 2); p[a] = v; p[b] = std::nextafter(v, c.rng.chance(.5) ? 0. : 9.); c.tag("close-prediction");
        }
        auto y0 = y, p0 = p;
        l->set_target(y); { std::vector<double> other(n, 9.); std::swap(y, other); }   // the target is the layer's own copy
        y = y0;
        bool train = c.rng.chance(.6);
        auto& out = train ? l->training_forward(p) : l->forward(p);
        c.ok(out == p0 && p == p0, "inputs-changed");
        L loss = cross ? cce(y, p) : mse(y, p); sum += loss; ++all;
        if (cross)
        {
            std::size_t a = 0; while (y[a] == 0) ++a;
            std::size_t m = 0; bool tie = false;
            for (std::size_t i = 1; i < n; ++i) if (p[i] > p[m]) { m = i; tie = false; } else if (p[i] == p[m]) tie = true;
            std::size_t above = 0; for (auto x: y) above += x != 0;
            if (above > 1) open_tie = true;      // the class of a mixed target is not specified
            else { good += m == a; if (tie && p[a] == p[m]) c.tag("tied-prediction"); }   // of equal predictions the first counts
        }
        else
        {
            bool exact = loss == tol && (loss == 0 || (n & (n - 1)) == 0);     // no order of the operations rounds
            if (std::fabs(double(loss) - tol) < 1e-12 * (1 + tol) && !exact) open_tie = true;
            else { good += loss <= tol; if (loss == tol) c.tag("at-tolerance"); }
        }
        c.ok(H::close(l->avg_loss(), double(sum / L(all)), 1e-11, 1e-12), "average-loss", [&] { return H::str(l->avg_loss(), " instead of ", double(sum / L(all)), " after ", all, " evaluations"); });
        if (!open_tie) { c.ok(H::close(l->accuracy(), double(good) / double(all), 1e-12, 1e-12), cross ? "accuracy-class" : "accuracy-tolerance", [&] { return H::str(l->accuracy(), " instead of ", good, "/", all, " tolerance ", tol, " last ", H::vstr(y), " ", H::vstr(p)); }); c.tag(cross ? "accuracy-class" : "accuracy-tolerance"); }
        if (train)
        {
            std::vector<double> none;
            auto& g = l->backward(c.rng.chance(.5) ? p : none);
            if (!c.ok(g.size() == n && g == l->last_input_gradient(), "gradient-size", [&] { return H::str(g.size(), " instead of ", n); })) return;
            gradient(c, cross, y, p, norm, g.data(), cross ? "cross-entropy-layer-gradient" : "squared-error-layer-gradient");
            c.ok(H::close(l->avg_loss(), double(sum / L(all)), 1e-11, 1e-12) && p == p0, "backward-changes-score");
            c.tag("gradient");
        }
        if (twin) c.ok(H::same(twin->avg_loss(), twin_loss) && H::same(twin->accuracy(), twin_acc), "clone-shares-score");
        if (ops.size() < 100) ops += train ? "t" : "f"; h = H::comb(h, H::comb(H::hash_vec(p), H::hash_str(ops)));
    }
    c.ok(l->param_count() == 0 && H::throws([&] { l->last_output(); }), "loss-without-parameters");
    c.nontrivial(h);
    c.sample(H::str(cross ? "cce" : "mse", " size ", n, " batch ", batch, " ops ", ops));
}
/// Very many evaluations between two resets.
void many(H::Case& c)
{
    auto& r = c.rng; bool cross = c.id % 2; auto n = r.size(1, 3), count = r.size(66000, 140000);
    std::shared_ptr<LossLayer> l; if (cross) l = std::make_shared<CategoricalCrossEntropyLossLayer>("", n, 1); else l = std::make_shared<MeanSquaredLossLayer>("", n, 1, .5);
    L sum = 0; std::size_t good = 0; double often = r.pick({ 0., 1., .97, .5 });
    for (std::size_t k = 0; k < count; ++k)
    {
        std::vector<double> y(n, 0.), p(n, .25); auto a = r.below(n); bool hit = r.chance(often) || (cross && n == 1);
        if (cross) { y[a] = 1; p[hit ? a : (a + 1) % n] = .5; } else { p = y; p[a] += hit ? .25 : 4; }
        l->set_target(y); l->forward(p); good += hit;
        if (cross) sum += cce(y, p); else sum += mse(y, p);
    }
    c.ok(H::close(l->avg_loss(), double(sum / L(count)), 1e-9, 1e-12), "average-loss", [&] { return H::str(l->avg_loss(), " instead of ", double(sum / L(count)), " after ", count, " evaluations"); });
    c.ok(H::close(l->accuracy(), double(good) / double(count), 1e-12, 1e-12), "accuracy-count", [&] { return H::str(l->accuracy(), " instead of ", good, "/", count); });
    c.tag("many-evaluations"); c.nontrivial(H::comb(count, good));
}
}

int main(int argc, char** argv)
{
    return H::run(argc, argv, { { "kernels", 40000, 900000, kernels }, { "histories", 14000, 350000, layers }, { "many", 8, 60, many } });
}
