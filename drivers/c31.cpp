// C31: objects that share nothing used in several threads at once, and shared ones that are only read.
#include "works.hpp"
#include <thread>
using namespace W;

// The narrowing cache of the C++ library's character facet is written by every thread that builds a regular expression
// (always with the same bytes); this is the library's business.
extern "C" const char* __tsan_default_suppressions() { return "race:std::ctype<char>::narrow\n"; }

namespace {
/// Runs the jobs of every thread at once, then alone; the digests must agree.
struct Job { std::size_t kind; H::u64 seed; };
typedef std::function<Seen(const Job&, std::size_t)> Run;
std::size_t together(H::Case& c, const std::vector<std::vector<Job>>& jobs, const Run& run, const char* key, const std::function<std::string(std::size_t)>& name)
{
    auto n = jobs.size(); std::vector<std::vector<Seen>> got(n); std::vector<std::string> died(n); std::atomic<std::size_t> ready{0}; std::atomic<std::size_t> inside{0}, most{0}; std::vector<std::thread> t; std::vector<std::vector<std::string>> names(n);
    for (std::size_t i = 0; i < n; ++i) t.emplace_back([&, i] {
        ++ready; while (ready.load(std::memory_order_relaxed) < n) std::this_thread::yield();
        for (auto& j: jobs[i])
        {
            auto k = inside.fetch_add(1, std::memory_order_relaxed) + 1; auto m = most.load(std::memory_order_relaxed); while (m < k && !most.compare_exchange_weak(m, k, std::memory_order_relaxed)) {}
            try { got[i].push_back(run(j, i)); } catch (const std::exception& e) { if (died[i].empty()) died[i] = H::str(name(j.kind), ": ", e.what()); got[i].push_back({}); }
            inside.fetch_sub(1, std::memory_order_relaxed);
            // Layers without a name, copied shapes and all: every one gets its own.
            for (int k = 0; k < 6; ++k) { if (k % 2) names[i].push_back(LinearLayer("", 2).name()); else names[i].push_back(MeanSquaredLossLayer("", 1, 1, .1).name()); }
        } });
    for (auto& x: t) x.join();
    { std::set<std::string> d; std::size_t m = 0; for (auto& v: names) { d.insert(v.begin(), v.end()); m += v.size(); } c.ok(d.size() == m, "names-repeat", [&] { return H::str(m - d.size(), " of ", m, " unnamed layers got the name of another"); }); c.tag("unnamed"); }
    for (std::size_t i = 0; i < n; ++i)
    {
        for (std::size_t k = 0; k < jobs[i].size(); ++k)
        {
            Seen alone; try { alone = run(jobs[i][k], i); } catch (const std::exception& e) { c.fail("workload", H::str(name(jobs[i][k].kind), " alone: ", e.what())); continue; }
            c.ok(alone.h == got[i][k].h && alone.n == got[i][k].n, key, [&] { return H::str(name(jobs[i][k].kind), " in thread ", i, " of ", n, " differs from the same calls alone", died[i].empty() ? "" : " (", died[i], died[i].empty() ? "" : ")"); });
            c.tag(name(jobs[i][k].kind)); c.nontrivial(H::comb(alone.h, alone.n));
        }
    }
    if (most > 1) c.tag("overlapped"); if (most > 2) c.tag("three-at-once");
    return most;
}

void apart(H::Case& c)
{
    auto& r = c.rng; auto n = r.size(2, 6); bool same = r.chance(.6); auto kind = r.below(all().size()); std::vector<std::vector<Job>> jobs(n); H::u64 seed = r.next(); bool twins = r.chance(.2);
    for (auto& j: jobs) for (std::size_t k = r.size(2, 5); k; --k) j.push_back({ same || (k == 1 && r.chance(.5)) ? kind : r.below(all().size()), twins && same ? seed + k : r.next() });
    auto most = together(c, jobs, [](const Job& j, std::size_t) { H::Rng q(j.seed); Seen o; all()[j.kind].second(q, o); return o; }, "separate-objects", [](std::size_t k) { return std::string(all()[k].first); });
    if (twins && same) c.tag("twins"); c.tag(same ? "one-kind" : "many-kinds"); c.sample(H::str(n, " threads, ", same ? all()[kind].first : "mixed", ", ", most, " at once"));
}

/// One object, used only through calls that do not change it.
void readers(H::Case& c)
{
    auto& r = c.rng; auto n = r.size(2, 6); std::vector<std::vector<Job>> jobs(n);
    // What is read.
    const Dataset<double> ds = dataset(r);
    auto tree = J::tree(r, 3, 6); const JsonItem item = tree.second; const JsonItem equal(item);
    auto g = G::csv(r, G::MIXED, 9, 5, 0); H::TmpFile file(g.text(), ".csv"); CSV reader(file.path(), { TypeChecker::Type::AUTO }, g.sep); const CSVRow row = reader[r.below(g.rows())]; const CSV& table = reader;
    Opts oo; oo.learnable = true; oo.max_layers = 4; Chain ch; do ch = random_chain(r, oo); while (ch.in.size() > 100 || ch.out() > 60 || ch.layers.size() > 6);
    Model model = build(ch); randomize(model, r, .5); const Model& m = model; Vec x = r.vec(ch.in.size(), -1, 1), t = target(r, ch);
    Img in = random_image(r); while (in.size() > 100) in = random_image(r); Desc desc = random_layer(r, in); desc.name = "shared"; P owner = make(desc); randomize(*owner, r); const Layer& layer = *owner;
    Vec lx = r.vec(in.size(), -1, 1);
    DLGraph graph; std::vector<P> nodes; for (std::size_t i = 0; i < 5; ++i) { nodes.push_back(std::make_shared<LinearLayer>(H::str("n", i), 2)); graph.add_node(nodes.back()); if (i) graph.add_edge(nodes[r.below(i)], nodes[i]); } const DLGraph& cg = graph;
    NetOpts no; no.dropout = 0; no.max_layers = 3; Net net; do net = random_net(r, no); while (net.in.size() > 60 || net.out() > 40 || net.layers.size() > 4); const NeuralNetworkDescriptor list = describe(r, net);
    Data rows = random_rows(r, 4, net.in.size(), net.chain);
    std::string save; { H::TmpFile f("", ".json"); { std::ofstream s(f.path()); model.dump(s); } save = f.read(); } Json saved; { std::stringstream s(save); s >> saved; }
    static const char* kinds[] = { "shared-dataset", "shared-json", "shared-row", "shared-model", "shared-layer", "shared-graph", "shared-description", "shared-training-data" };
    Data td = random_rows(r, 5, ch.in.size(), ch); auto train = td.make();
    bool one = r.chance(.6); auto kind = r.below(8); for (auto& j: jobs) for (std::size_t k = r.size(2, 5); k; --k) j.push_back({ one ? kind : r.below(8), r.next() });
    auto run = [&](const Job& j, std::size_t) {
        Seen o; H::Rng q(j.seed);
        switch (j.kind)
        {
            case 0: { show(ds, o); RneType e(std::uint_fast32_t(j.seed | 1)); Dataset<double> copy(ds); show(copy.shuffle(e), o); show(ds.subdata(0, 1), o); o.u(ds.empty()); break; }
            case 1: { std::function<void(const JsonItem&)> walk = [&](const JsonItem& i) { o.u(H::u64(i.json_type())); o.u(i.size()); if (i.json_type() == JsonObject::JsonType::LIST) for (std::size_t k = 0; k < i.size(); ++k) walk(i.at(k)); else if (auto* d = dynamic_cast<const JsonDict*>(&i.value())) for (auto& e: d->value()) { o.s(e.first); walk(i.at(e.first)); } };
                      walk(item); o.s(std::string(item)); o.u(item == equal); JsonItem copy(item); o.u(copy == item); break; }
            case 2: { o.s(row.line()); o.u(row.size()); o.u(row.idx()); for (std::size_t k = 0; k < row.size(); ++k) { auto f = row[k]; o.s(f.as<std::string>()); o.u(H::u64(f.type())); } for (auto& s: std::vector<std::string>(row)) o.s(s); CSVRow copy(row); o.u(copy == row);
                      o.u(table.rows_size()); o.u(table.cols_size()); o.u(table.feature_size()); o.u(table.entries_amount()); o.s(table.header().line()); for (auto t: table.types()) o.u(H::u64(t)); break; }
            case 3: { Model k(m); o.v(k.predict(x)); k.step(x, t); o.v(grads(k)); Model a("a"); a = m; o.v(a.predict(x)); o.v(params(m)); o.s(m.name()); o.u(m.layers().size()); o.u(m.input_layers().size()); o.u(m.output_layers().size()); break; }
            case 4: { P q2 = layer.clone(); o.v(q2->training_forward(lx)); o.v(q2->backward(Vec(desc.out.size(), .5))); o.s(std::string(layer.dump())); o.s(layer.name()); o.s(layer.type()); o.u(layer.param_count()); o.u(layer.input_shape().size()); o.u(layer.output_shape().size()); Vec p; for (std::size_t k = 0; k < layer.param_count(); ++k) p.push_back(static_cast<Layer&>(*q2).param(k)); o.v(p); P z = make(desc); z->load(layer.dump()); o.v(params(*z)); break; }
            case 5: { for (auto& a: cg.training_forward_run()) { o.u(H::u64(cg.index_of(*a.from))); o.u(H::u64(cg.index_of(*a.to))); } for (auto& a: cg.backward_run()) o.u(H::u64(cg.index_of(*a.from))); o.v(cg.forward_adjacent_matrix()); o.v(cg.input_layers_idx()); o.v(cg.output_layers_idx()); o.v(cg.layers_idx()); for (std::size_t i = 0; i < 6; ++i) { o.v(cg.forward(i)); o.v(cg.backward_predecessors(i)); } DLGraph copy(cg); o.v(copy.backward_adjacent_matrix()); break; }
            case 6: { std::shared_ptr<Static> e = net.loss == LossType::CCE ? make_edge_lt<PL::SEQUENTIAL, LossType::CCE>(net.init) : make_edge_lt<PL::SEQUENTIAL, LossType::MSE>(net.init); for (auto& d: list) e->add(d); auto data = rows.make(); auto in2 = rows.inputs(); e->fit(data, OptimizerType::ADAM, 1, 2, .01, unsigned(j.seed | 1)); o.v(e->predict(in2).data()); for (auto& d: list) { o.s(d.name()); o.u(d.setting().units().size()); } break; }
            default: { Model k = build(ch); { std::stringstream s(save); H::TmpFile f(save, ".json"); std::ifstream i(f.path()); k.load(i); } GradientDescentOptimizer gd(.01); Training<PL::SEQUENTIAL, double>::run(k, train, gd, 2, 2); o.v(params(k)); auto& ls = k.layers(); for (std::size_t i = 0; i < ls.size(); ++i) ls[i]->load(Json(std::as_const(saved).at("layers").at(i))); o.v(params(k)); }
        }
        return o; };
    auto most = together(c, jobs, run, "shared-reading", [&](std::size_t k) { return std::string(kinds[k]); });
    c.sample(H::str(n, " threads, ", one ? kinds[kind] : "mixed", ", ", most, " at once"));
}
}

int main(int argc, char** argv)
{
#ifdef VERIF_FLAVOR_TSAN
    return H::run(argc, argv, { { "apart", 500, 12000, apart }, { "readers", 250, 6000, readers } });
#else
    return H::run(argc, argv, { { "apart", 2500, 60000, apart }, { "readers", 1200, 30000, readers } });
#endif
}
