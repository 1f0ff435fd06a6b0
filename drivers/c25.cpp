// C25: initialisation and random draws; reproducibility exactly, distributions with bounds far out in the tail.
#include "net.hpp"
using namespace N;
using Init = Model::InitializationFunction;
using Pdf = Model::ProbabilityDensityFunction;

namespace {
Model random_model(H::Rng& r, Chain& ch, bool& rec)
{
    Opts o; o.max_layers = 6; o.dropout = .1; o.learnable = true; ch = random_chain(r, o);
    rec = r.chance(.2);
    if (!rec) return build(ch);
    Model m("rec"); auto l = m.add_layer<RecurrentLayer>("r", r.size(1, 5), r.size(1, 5), r.size(1, 5), r.size(1, 3));
    auto s = m.add_loss<MeanSquaredLossLayer>("loss", l->output_size() * l->time_steps(), 1, .1); m.create_loss_edge(l, s); return m;
}
unsigned seed_of(H::Rng& r) { return r.chance(.1) ? 1u : r.chance(.1) ? 4294967295u : unsigned(r.next() | 1); }
Init init_of(H::Rng& r) { return r.pick({ Init::KAIMING, Init::XAVIER, Init::AUTO }); }
Pdf pdf_of(H::Rng& r) { return r.pick({ Pdf::NORMAL, Pdf::UNIFORM }); }

void reproducible(H::Case& c)
{
    auto& r = c.rng; Chain ch; bool rec; Model a = random_model(r, ch, rec);
    Model b = rec ? Model(a) : build(ch);
    auto init = init_of(r); auto pdf = pdf_of(r); auto s = seed_of(r);
    randomize(a, r);
    auto ret = a.init(init, pdf, s); c.ok(ret == s, "reported-seed", [&] { return H::str(ret, " instead of ", s); });
    Vec p = params(a);
    if (!rec) { randomize(b, r); b.init(init, pdf, s); c.ok(params(b) == p, "same-seed-other-parameters", [&] { return ch.str(); }); }
    a.predict(r.vec(rec ? a.input_size() * 3 : ch.in.size(), -1, 1)); a.init(init, pdf, s);
    c.ok(params(a) == p, "initialised-again", [&] { return ch.str(); });
    auto s2 = seed_of(r); if (s2 != s) { a.init(init, pdf, s2); c.ok(params(a) != p, "other-seed-same-parameters", [&] { return H::str(ch.str(), " seeds ", s, " ", s2); }); c.tag("other-seed"); }
    // A seed that differs in one place.
    if (p.size() > 3) { auto s3 = s ^ (1u << r.below(32)); if (s3) { a.init(init, pdf, s3); bool other = false; Vec x = params(a); for (std::size_t i = 0; i < p.size(); ++i) other |= x[i] != p[i]; c.ok(other, "near-seed-same-parameters", [&] { return H::str(ch.str(), " seeds ", s, " ", s3); }); c.tag("near-seed"); } }
    auto z = a.init(init, pdf, 0); Vec q = params(a); c.ok(q != p, "fresh-seed-same-parameters");
    if (z != 0) { auto w = a.init(init, pdf, z); c.ok(w == z && params(a) == q, "fresh-seed-not-reproducible", [&] { return H::str("reported ", z); }); }
    auto z2 = a.init(init, pdf, 0); c.ok(z2 != z, "fresh-seed-repeated", [&] { return H::str(z); }); c.tag("fresh-seed");
    // Defaults: automatic selection, normal distribution.
    Model d = rec ? Model(a) : build(ch); d.init(Init::AUTO, Pdf::NORMAL, s); Vec e = params(d);
    auto z3 = d.init(); if (z3) { Vec f = params(d); d.init(Init::AUTO, Pdf::NORMAL, z3); c.ok(params(d) == f, "defaults"); }
    c.tag(rec ? "recurrent" : "chain"); c.nontrivial(H::hash_vec(p)); c.sample(H::str(rec ? "recurrent" : ch.str(), " seed ", s));
}

/// Automatic selection: per layer the parameters of one or the other method.
void automatic(H::Case& c)
{
    auto& r = c.rng; auto pdf = pdf_of(r); auto s = seed_of(r);
    Model m("auto"); std::vector<P> l; std::vector<bool> relu; std::size_t w = r.size(1, 4);
    auto n = r.far(2, 9, 330); if (n > 64) c.tag("many-layers");
    for (std::size_t i = 0; i < n; ++i)
    {
        switch (r.below(8))
        {
            case 0: case 1: l.push_back(m.add_layer<ReluLayer>("", w)); break;
            case 2: l.push_back(m.add_layer<EluLayer>("", w)); break;
            case 3: l.push_back(m.add_layer<TanhLayer>("", w)); break;
            case 4: l.push_back(m.add_layer<ConvolutionalLayer>("", DLMath::Shape3d(w, 1, 1), DLMath::Shape2d(1, 1), 1)); break;
            case 5: l.push_back(m.add_layer<DropoutLayer>("", w, .5)); break;
            default: l.push_back(m.add_layer<DenseLayer>("", w, w)); break;
        }
    }
    // A random tree: every layer but the first has one predecessor (often the previous one).
    std::vector<std::set<std::size_t>> next(n);
    for (std::size_t i = 1; i < n; ++i) { auto p = r.chance(.7) ? i - 1 : r.below(i); m.create_edge(l[p], l[i]); next[p].insert(i); }
    auto loss = m.add_loss<MeanSquaredLossLayer>("loss", w, 1, .1); m.create_loss_edge(l[n - 1], loss);
    auto all = [&](Init i) { m.init(i, pdf, s); std::vector<Vec> v; for (auto& x: l) v.push_back(params(*x)); return v; };
    auto k = all(Init::KAIMING), x = all(Init::XAVIER), a = all(Init::AUTO);
    for (std::size_t i = 0; i < n; ++i)
    {
        if (k[i].empty()) continue;
        bool before = std::any_of(next[i].begin(), next[i].end(), [&](std::size_t j) { return l[j]->is_type<ReluLayer>(); });
        c.ok(k[i] != x[i], "methods-equal");
        c.ok(a[i] == (before ? k[i] : x[i]), before ? "not-kaiming-before-relu" : "not-xavier", [&] { return H::str(l[i]->type(), " ", i, " with ", next[i].size(), " successors"); });
        c.tag(before ? "before-relu" : "not-before-relu"); if (next[i].size() > 1) c.tag(before ? "branch-with-relu" : "branch");
        c.nontrivial(H::hash_vec(a[i]));
    }
}

double normal_cdf(double x) { return .5 * std::erfc(-x / std::sqrt(2.)); }
/// Sample against a distribution function, mean and spread.
void judge(H::Case& c, Vec v, bool normal, double mean, double spread, const char* what)
{
    auto n = double(v.size()); std::sort(v.begin(), v.end());
    double d = 0; for (std::size_t i = 0; i < v.size(); ++i)
    {
        double z = (v[i] - mean) / spread, f = normal ? normal_cdf(z) : std::min(1., std::max(0., z + .5));
        d = std::max(d, std::max(std::fabs(f - double(i) / n), std::fabs(f - double(i + 1) / n)));
    }
    std::string w(what);
    c.ok(d <= 3.3 / std::sqrt(n), ("distribution:" + w).c_str(), [&] { return H::str(n, " values, Kolmogorov distance ", d, " from ", normal ? "normal" : "uniform", " around ", mean, " with ", spread); });
    double m = 0; for (double x: v) m += x / n;
    double var = 0; for (double x: v) var += (x - m) * (x - m) / n;
    double sd = normal ? spread : spread / std::sqrt(12.);
    c.ok(std::fabs(m - mean) <= 6.5 * sd / std::sqrt(n), ("mean:" + w).c_str(), [&] { return H::str(m, " instead of ", mean); });
    c.ok(std::fabs(std::sqrt(var) / sd - 1) <= 6.5 * (normal ? .71 : .45) / std::sqrt(n), ("spread:" + w).c_str(), [&] { return H::str(std::sqrt(var), " instead of ", sd, " (", n, " values)"); });
    if (!normal) c.ok(v.front() >= mean - spread / 2 * (1 + 1e-12) && v.back() <= mean + spread / 2 * (1 + 1e-12), ("range:" + w).c_str(), [&] { return H::str(v.front(), "..", v.back()); });
    c.tag(normal ? "normal" : "uniform"); c.tag("values", H::u64(n));
}
void layers(H::Case& c)
{
    auto& r = c.rng; auto init = r.pick({ Init::KAIMING, Init::XAVIER, Init::AUTO }); auto pdf = pdf_of(r); auto s = seed_of(r); bool normal = pdf == Pdf::NORMAL;
    Model m("x"); bool relu = r.chance(.5);
    auto spread = [&](std::size_t n) { return std::sqrt((init == Init::KAIMING || (init == Init::AUTO && relu) ? 2. : 1.) / double(n)); };
    auto finish = [&](P l) { P a; if (relu) a = m.add_layer<ReluLayer>("", l->output_size()); else a = m.add_layer<TanhLayer>("", l->output_size()); m.create_edge(l, a); m.init(init, pdf, s); };
    auto bias = [&](Layer& l, std::size_t from, std::size_t to) { for (auto i = from; i < to; ++i) c.ok(l.param(i) == .01, "bias", [&] { return H::str(l.type(), " bias ", i - from, " is ", l.param(i)); }); };
    auto part = [&](Layer& l, std::size_t from, std::size_t n) { Vec v; for (std::size_t i = from; i < from + n; ++i) v.push_back(l.param(i)); return v; };
    std::string how = H::str(normal ? "normal" : "uniform", " ", init == Init::KAIMING ? "kaiming" : init == Init::XAVIER ? "xavier" : "auto");
    switch (r.below(3))
    {
        case 0: { auto in = r.size(1, 60), out = 3000 / in + 1; auto l = m.add_layer<DenseLayer>("", in, out); finish(l);
            judge(c, part(*l, 0, in * out), normal, 0, spread(in), "dense"); bias(*l, in * out, l->param_count()); c.tag("dense " + how); break; }
        case 1: { Img in{ r.size(2, 6), r.size(2, 6), r.size(1, 3) }; auto k = r.size(1, 2); std::size_t f = 3000 / (k * k * in.c) + 1;
            auto l = m.add_layer<ConvolutionalLayer>("", DLMath::Shape3d(in.h, in.w, in.c), DLMath::Shape2d(k, k), f); finish(l);
            judge(c, part(*l, 0, k * k * in.c * f), normal, 0, spread(in.size()), "convolution"); bias(*l, k * k * in.c * f, l->param_count()); c.tag("convolution " + how); break; }
        case 2: { std::size_t I = r.size(20, 60), Hs = r.size(40, 60), O = r.size(30, 60), T = r.size(1, 2); auto l = m.add_layer<RecurrentLayer>("", I, O, Hs, T); finish(l);
            judge(c, part(*l, 0, I * Hs), normal, 0, spread(I), "recurrent-input"); judge(c, part(*l, I * Hs, Hs * Hs), normal, 0, spread(Hs), "recurrent-hidden");
            judge(c, part(*l, I * Hs + Hs * Hs + Hs, O * Hs), normal, 0, spread(Hs), "recurrent-output");
            bias(*l, I * Hs + Hs * Hs, I * Hs + Hs * Hs + Hs); bias(*l, I * Hs + Hs * Hs + Hs + O * Hs, l->param_count()); c.tag("recurrent " + how); break; }
    }
    c.nontrivial(H::comb(s, H::hash_str(how)));
}
/// Functions drawing values directly.
void draws(H::Case& c)
{
    auto& r = c.rng; RneType g(seed_of(r)); std::size_t n = 3000; Vec v;
    double a = r.uni(-50, 50), b = r.uni(.01, 20);
    switch (r.below(3))
    {
        case 0: { auto f = DLMath::normal_pdf<double>(a, b); for (std::size_t i = 0; i < n; ++i) v.push_back(f(g)); judge(c, v, true, a, b, "normal"); break; }
        case 1: { auto f = DLMath::uniform_pdf<double>(a, b); for (std::size_t i = 0; i < n; ++i) v.push_back(f(g)); judge(c, v, false, a, b, "uniform"); break; }
        case 2: { for (std::size_t i = 0; i < n; ++i) v.push_back(DLMath::rand<double>(a, a + b, g)); judge(c, v, false, a + b / 2, b, "between"); break; }
    }
    c.nontrivial(H::hash_vec(v)); c.tag("draws");
}
/// Index sequences: complete, distinct, in range; uniform over positions and over permutations.
void sequences(H::Case& c)
{
    auto& r = c.rng; RneType g(seed_of(r));
    for (int k = 0; k < 20; ++k)
    {
        SizeType from = r.chance(.4) ? 0 : r.size(0, 1000), n = r.chance(.1) ? r.size(0, 1) : r.size(0, 200);
        auto s = DLMath::unique_rand_sequence(from, from + n, g);
        c.must(s.size() == n, "sequence-length", [&] { return H::str(s.size(), " instead of ", n); });
        auto t = s; std::sort(t.begin(), t.end()); for (std::size_t i = 0; i < n; ++i) c.must(t[i] == from + i, "sequence-not-a-permutation", [&] { return H::str("from ", from, " length ", n); });
        c.nontrivial(H::hash_vec(s));
    }
    std::size_t n = r.size(2, 7); const double T = 1500; std::vector<std::vector<double>> at(n, std::vector<double>(n, 0)), succ = at;
    for (int k = 0; k < T; ++k) { auto s = DLMath::unique_rand_sequence(3, 3 + n, g); for (std::size_t i = 0; i < n; ++i) { at[i][s[i] - 3] += 1; if (i) succ[s[i - 1] - 3][s[i] - 3] += 1; } }
    for (std::size_t i = 0; i < n; ++i) for (std::size_t j = 0; j < n; ++j)
    {
        double q = 1. / double(n); c.ok(std::fabs(at[i][j] - q * T) <= 6.5 * std::sqrt(q * (1 - q) * T) + 2, "sequence-position-bias", [&] { return H::str("value ", j, " at position ", i, ": ", at[i][j], " of ", T, ", n=", n); });
        double p = 1. / double(n); if (i != j) c.ok(std::fabs(succ[i][j] - p * T) <= 6.5 * std::sqrt(p * T) + 2, "sequence-order-bias", [&] { return H::str(i, " before ", j, ": ", succ[i][j], " of ", T, ", n=", n); });
    }
    {
        // Longer ones: no position keeps its value, and no value its position, too often.
        std::size_t n = r.far(20, 150, 700, .2), T = 120; std::vector<std::vector<unsigned char>> at(n, std::vector<unsigned char>(n, 0)); std::vector<std::size_t> kept(n, 0);
        unsigned most = 0; std::size_t gi = 0, gj = 0;
        for (std::size_t k = 0; k < T; ++k) { auto s = DLMath::unique_rand_sequence(3, 3 + n, g); for (std::size_t i = 0; i < n; ++i) if (++at[i][s[i] - 3] > most) { most = at[i][s[i] - 3]; gi = i; gj = s[i] - 3; } }
        c.ok(most < 40, "sequence-position-fixed", [&] { return H::str("value ", gj, " at position ", gi, " in ", most, " of ", T, " sequences of ", n); });
        if (n > 255) c.tag("long-sequence-positions");
    }
    c.tag("sequences");
}
}

int main(int argc, char** argv)
{
    return H::run(argc, argv, {
        { "reproducible", 4000, 100000, reproducible },
        { "automatic", 6000, 150000, automatic },
        { "layers", 1500, 40000, layers },
        { "draws", 800, 20000, draws },
        { "sequences", 800, 20000, sequences },
    });
}
