// C22: graph queries and run lists against a shadow graph, over histories of declarations and copies.
#include "net.hpp"
#include "dnn/dlgraph.hpp"
using namespace N;
using Set = std::set<std::size_t>;
using LP = std::shared_ptr<LossLayer>;

namespace {
struct Shadow
{
    std::vector<std::string> names; std::vector<std::size_t> losses;
    std::set<std::pair<std::size_t, std::size_t>> f, t, b;
};
struct G { std::unique_ptr<DLGraph> g; Shadow s; };
typedef std::map<std::string, std::string> Snap;

template<class V> std::string list(const V& v) { std::string r; for (auto& x: v) r += H::str(x, " "); return r; }
/// Everything a graph reports, by index.
Snap snap(DLGraph& g)
{
    Snap o; auto n = g.size();
    auto idx = [&](const P& l) { return g.index_of(*l); };
    std::string names; for (auto& l: g.layers()) names += l->name() + " "; o["layers"] = names;
    o["layers-idx"] = list(g.layers_idx()); o["training-layers-idx"] = list(g.training_forward_layers_idx()); o["backward-layers-idx"] = list(g.backward_layers_idx());
    o["forward-layers-idx"] = list(g.forward_layers_idx()); o["loss-layers-idx"] = list(g.loss_layers_idx());
    auto ptrs = [&](const std::vector<P>& v) { std::string r; for (auto& l: v) r += H::str(idx(l), " "); return r; };
    o["training-layers"] = ptrs(g.training_forward_layers()); o["backward-layers"] = ptrs(g.backward_layers()); o["forward-layers"] = ptrs(g.forward_layers());
    { std::string r; for (auto& l: g.loss_layers()) r += l ? H::str(g.index_of(*l), " ") : "null "; o["loss-layers"] = r; }
    o["input-layers-idx"] = list(g.input_layers_idx()); o["input-layers"] = ptrs(g.input_layers());
    o["output-layers-idx"] = list(g.output_layers_idx()); o["output-layers"] = ptrs(g.output_layers());
    o["training-matrix"] = list(g.training_forward_adjacent_matrix()); o["forward-matrix"] = list(g.forward_adjacent_matrix()); o["backward-matrix"] = list(g.backward_adjacent_matrix());
    std::string q;
    for (std::size_t i = 0; i < n + 2; ++i)
        q += H::str(i, ":", g.has_training_forward(i), g.has_training_forward_predecessors(i), g.has_forward(i), g.has_forward_predecessors(i), g.has_backward(i), g.has_backward_predecessors(i),
            " ", list(g.training_forward(i)), "/", list(g.training_forward_predecessors(i)), "/", list(g.forward(i)), "/", list(g.forward_predecessors(i)), "/", list(g.backward(i)), "/", list(g.backward_predecessors(i)), ";");
    o["neighbours"] = q;
    auto run = [&](const std::vector<DLGraph::Arc>& a) { std::string r; for (auto& x: a) r += H::str(idx(x.from), ">", idx(x.to), " "); return r; };
    o["training-run"] = run(g.training_forward_run()); o["forward-run"] = run(g.forward_run()); o["backward-run"] = run(g.backward_run());
    return o;
}
typedef std::set<std::pair<std::size_t, std::size_t>> Arcs;
Set next(const Arcs& a, std::size_t i) { Set r; for (auto& e: a) if (e.first == i) r.insert(e.second); return r; }
Set prev(const Arcs& a, std::size_t i) { Set r; for (auto& e: a) if (e.second == i) r.insert(e.first); return r; }

void run_list(H::Case& c, const char* key, const std::vector<DLGraph::Arc>& got, DLGraph& g, const Arcs& a, const std::vector<std::size_t>& start)
{
    Set seen(start.begin(), start.end()), todo = seen; Arcs want;
    while (!todo.empty()) { auto i = *todo.begin(); todo.erase(todo.begin()); for (auto j: next(a, i)) { want.insert({ i, j }); if (seen.insert(j).second) todo.insert(j); } }
    std::vector<std::pair<std::size_t, std::size_t>> arcs; for (auto& x: got) { auto i = g.index_of(*x.from), j = g.index_of(*x.to); c.must(i >= 0 && j >= 0, key); arcs.push_back({ std::size_t(i), std::size_t(j) }); }
    c.ok(arcs.size() == want.size() && Arcs(arcs.begin(), arcs.end()) == want, key, [&] { std::string s; for (auto& x: arcs) s += H::str(x.first, ">", x.second, " "); s += " instead of "; for (auto& x: want) s += H::str(x.first, ">", x.second, " "); return s; });
    bool forest = true; Set starts(start.begin(), start.end());
    for (std::size_t i = 0; i < g.size(); ++i) { auto p = prev(a, i); if (p.size() > 1 || (p.size() == 1 && starts.count(i))) forest = false; }
    if (!forest) { c.tag("not-a-tree"); return; }
    Set fed = starts;
    for (auto& x: arcs) { c.ok(fed.count(x.first) > 0, (std::string(key) + "-order").c_str(), [&] { return H::str(x.first, ">", x.second, " before its source was fed"); }); fed.insert(x.second); }
    c.tag("ordered-run"); if (arcs.size() > 3) c.tag("long-ordered-run");
}
void check(H::Case& c, G& x)
{
    auto& g = *x.g; auto& s = x.s; auto n = s.names.size();
    c.must(g.size() == n && g.layers().size() == n, "size", [&] { return H::str(g.size(), " instead of ", n); });
    auto o = snap(g);
    auto eq = [&](const char* k, const std::string& w) { c.ok(o[k] == w, k, [&] { return H::str("got ", o[k], " expected ", w); }); };
    std::vector<std::size_t> all, fwd; for (std::size_t i = 0; i < n; ++i) { all.push_back(i); if (std::find(s.losses.begin(), s.losses.end(), i) == s.losses.end()) fwd.push_back(i); }
    eq("layers", list(s.names));
    for (auto k: { "layers-idx", "training-layers-idx", "backward-layers-idx", "training-layers", "backward-layers" }) eq(k, list(all));
    for (auto k: { "forward-layers-idx", "forward-layers" }) eq(k, list(fwd));
    for (auto k: { "loss-layers-idx", "loss-layers" }) eq(k, list(s.losses));
    for (std::size_t i = 0; i < n; ++i) c.ok(g.layer(i) == g.layers()[i] && g[i] == g.layers()[i] && (g.as<LossLayer>(i) != nullptr) == (s.names[i].compare(0, 4, "loss") == 0), "layer-access");
    auto mat = [&](const Arcs& a) { std::vector<int> m(n * n); for (auto& e: a) m[e.first * n + e.second] = 1; return list(m); };
    eq("training-matrix", mat(s.t)); eq("forward-matrix", mat(s.f)); eq("backward-matrix", mat(s.b));
    std::string q;
    for (std::size_t i = 0; i < n + 2; ++i)
        q += H::str(i, ":", !next(s.t, i).empty(), !prev(s.t, i).empty(), !next(s.f, i).empty(), !prev(s.f, i).empty(), !next(s.b, i).empty(), !prev(s.b, i).empty(),
            " ", list(next(s.t, i)), "/", list(prev(s.t, i)), "/", list(next(s.f, i)), "/", list(prev(s.f, i)), "/", list(next(s.b, i)), "/", list(prev(s.b, i)), ";");
    eq("neighbours", q);
    // Input and output layers among the connected ones (a layer without any arc is not placed yet).
    std::vector<std::size_t> in, out, gin, gout;
    auto placed = [&](std::size_t i) { return !next(s.t, i).empty() || !prev(s.t, i).empty(); };
    for (auto i: fwd) { if (!placed(i)) continue; if (prev(s.f, i).empty()) in.push_back(i); if (next(s.f, i).empty()) out.push_back(i); }
    for (auto i: g.input_layers_idx()) if (i >= n || placed(i)) gin.push_back(i);
    for (auto i: g.output_layers_idx()) if (i >= n || placed(i)) gout.push_back(i);
    c.ok(gin == in, "input-layers", [&] { return H::str(list(gin), " instead of ", list(in)); });
    c.ok(gout == out, "output-layers", [&] { return H::str(list(gout), " instead of ", list(out)); });
    c.ok(o["input-layers"] == o["input-layers-idx"] && o["output-layers"] == o["output-layers-idx"], "input-output-layers-and-indices");
    run_list(c, "training-run", g.training_forward_run(), g, s.t, in);
    run_list(c, "forward-run", g.forward_run(), g, s.f, in);
    run_list(c, "backward-run", g.backward_run(), g, s.b, s.losses);
}
P fresh(H::Rng& r, int id, bool loss)
{
    std::string n = H::str(loss ? "loss" : "l", id);
    if (loss) { if (r.chance(.5)) return std::make_shared<MeanSquaredLossLayer>(n, 2, 1, .1); return std::make_shared<CategoricalCrossEntropyLossLayer>(n, 2, 1); }
    if (r.chance(.5)) return std::make_shared<LinearLayer>(n, 2);
    return std::make_shared<DenseLayer>(n, 2, 2);
}
std::size_t cap = 9;     ///< Layers of a graph of this case.
void operate(H::Case& c, G& x, int& ids)
{
    auto& r = c.rng; auto& g = *x.g; auto& s = x.s; auto n = s.names.size();
    auto is_loss = [&](std::size_t i) { return std::find(s.losses.begin(), s.losses.end(), i) != s.losses.end(); };
    auto any = [&](bool loss) { std::vector<std::size_t> v; for (std::size_t i = 0; i < n; ++i) if (is_loss(i) == loss) v.push_back(i); return v.empty() ? n : r.pick(v); };
    auto at = [&](std::size_t i) { return g.layers()[i]; };
    auto op = r.below(16);
    if (n < 3 || op == 0 || (cap > 9 && n < cap && r.chance(.25)))
    {
        if (n >= cap) return;
        bool loss = r.chance(.2); P l = fresh(r, ids++, loss);
        if (loss) { g.add_loss(std::dynamic_pointer_cast<LossLayer>(l)); s.losses.push_back(n); c.tag("add-loss"); } else { g.add_node(l); c.tag("add-layer"); }
        s.names.push_back(l->name()); return;
    }
    if (op == 1)
    {
        auto i = r.below(n);
        if (is_loss(i) && r.chance(.7)) g.add_loss(std::dynamic_pointer_cast<LossLayer>(at(i))); else g.add_node(at(i));
        c.tag("add-twice"); return;
    }
    if (op == 2)        // an unknown layer on either side, alone or first in a list
    {
        P u = fresh(r, 9999, false), k = at(any(false) == n ? 0 : any(false)); LP ul = std::make_shared<MeanSquaredLossLayer>("foreign", 2, 1, .1);
        bool t = false; auto before = snap(g);
        switch (r.below(8))
        {
            case 0: t = H::throws([&] { g.add_edge(u, k); }); break;
            case 1: t = H::throws([&] { g.add_edge(k, u); }); break;
            case 2: t = H::throws([&] { g.add_arc_forward(k, u); }); break;
            case 3: t = H::throws([&] { g.add_arc_backward(u, k); }); break;
            case 4: t = H::throws([&] { g.add_edge(k, ul); }); break;
            case 5: t = H::throws([&] { g.add_edge(std::vector<P>{ u, k }, k); }); break;
            case 6: t = H::throws([&] { g.add_edge(u, std::vector<P>{ k }); }); break;
            case 7: t = H::throws([&] { g.add_arc_forward(k, std::vector<P>{ u }); }); break;
        }
        c.ok(t, "unknown-accepted"); c.ok(snap(g) == before, "unknown-changed-graph"); c.tag("unknown-layer"); return;
    }
    std::size_t a = any(false), b = any(false), l = any(true);
    if (a == n || b == n) return;
    auto fwd = [&](std::size_t i, std::size_t j) { s.f.insert({ i, j }); s.t.insert({ i, j }); };
    std::size_t a2 = any(false);
    // A list of one to four layers, in any order, possibly named twice.
    auto some = [&](std::size_t first) { std::vector<std::size_t> v{ first }; while (v.size() < 4 && r.chance(.5)) v.push_back(any(false)); r.shuffle(v); return v; };
    auto ptrs = [&](const std::vector<std::size_t>& v) { std::vector<P> o; for (auto i: v) o.push_back(at(i)); return o; };
    // Half of the arcs keep to chains and trees: from an earlier layer to one without a predecessor yet.
    if (r.chance(.6)) { std::vector<std::size_t> v; for (std::size_t i = 1; i < n; ++i) if (!is_loss(i) && prev(s.f, i).empty()) v.push_back(i); if (v.empty()) return; b = r.pick(v); a = r.below(b); if (is_loss(a)) return; }
    switch (op)
    {
        case 3: g.add_edge(at(a), at(b)); fwd(a, b); s.b.insert({ b, a }); c.tag("edge"); break;
        case 4: case 11: g.add_arc_forward(at(a), at(b)); fwd(a, b); if (op == 11) { g.add_arc_backward(at(b), at(a)); s.b.insert({ b, a }); } c.tag("arc"); break;
        case 5: g.add_arc_backward(at(b), at(a)); s.b.insert({ b, a }); c.tag("back-arc"); break;
        case 6: case 12: case 13: if (l == n) return; { LP q = g.as<LossLayer>(l); g.add_edge(at(a), q); } s.t.insert({ a, l }); s.b.insert({ l, a }); c.tag("loss-edge"); break;
        case 7: if (l == n) return; { LP q = g.as<LossLayer>(l); g.add_arc_forward(at(a), q); } s.t.insert({ a, l }); c.tag("loss-arc"); break;
        case 8: { auto i = some(a); if (r.chance(.5)) { g.add_edge(ptrs(i), at(b)); for (auto k: i) s.b.insert({ b, k }); } else g.add_arc_forward(ptrs(i), at(b)); for (auto k: i) fwd(k, b); c.tag("many-to-one"); break; }
        case 9: { auto i = some(b); if (r.chance(.5)) { g.add_edge(at(a), ptrs(i)); for (auto k: i) s.b.insert({ k, a }); } else g.add_arc_forward(at(a), ptrs(i)); for (auto k: i) fwd(a, k); c.tag("one-to-many"); break; }
        case 14: { if (l == n) return; auto i = some(a); LP q = g.as<LossLayer>(l); if (r.chance(.5)) { g.add_edge(ptrs(i), q); for (auto k: i) s.b.insert({ l, k }); } else g.add_arc_forward(ptrs(i), q); for (auto k: i) s.t.insert({ k, l }); c.tag("many-to-loss"); break; }
        case 15: if (l == n || r.chance(.7)) return; g.add_arc_forward(at(l), at(b)); fwd(l, b); c.tag("beyond-a-loss"); break;
        case 10: { std::vector<P> v{ at(b), at(a2) }; if (r.chance(.5)) { g.add_arc_backward(v, at(a)); s.b.insert({ b, a }); s.b.insert({ a2, a }); } else { g.add_arc_backward(at(a), v); s.b.insert({ a, b }); s.b.insert({ a, a2 }); } c.tag("back-lists"); break; }
    }
}
void history(H::Case& c)
{
    auto& r = c.rng; int ids = 0;
    std::vector<G> gs; gs.push_back({ std::make_unique<DLGraph>(), {} });
    cap = r.far(9, 9, 90, .004); auto steps = cap > 9 ? 4 * cap : r.size(5, 40); if (cap > 20) c.tag("large-graph");
    for (std::size_t k = 0; k < steps && !c.failed; ++k)
    {
        auto i = r.below(gs.size());
        if (r.chance(.08) && gs.size() < 3)
        {
            auto before = snap(*gs[i].g); auto ptrs = gs[i].g->layers();
            G n; n.s = gs[i].s;
            if (r.chance(.5)) n.g = std::make_unique<DLGraph>(*gs[i].g);
            else { n.g = std::make_unique<DLGraph>(); if (r.chance(.5)) { Shadow z; G h{ std::move(n.g), z }; int q = 500; for (int e = 0; e < 8; ++e) operate(c, h, q); n.g = std::move(h.g); } *n.g = *gs[i].g; c.tag("assigned"); }
            c.ok(snap(*n.g) == before, "copy-differs"); c.ok(snap(*gs[i].g) == before && gs[i].g->layers() == ptrs, "copying-changed-the-original");
            for (std::size_t j = 0; j < ptrs.size(); ++j) c.ok(n.g->layers()[j] != ptrs[j] && n.g->layers()[j]->type() == ptrs[j]->type(), "layers-not-cloned");
            gs.push_back(std::move(n)); c.tag("copied");
        }
        if (r.chance(.02)) { auto before = snap(*gs[i].g); auto& g = *gs[i].g; auto& same = g; g = same; c.ok(snap(g) == before, "self-assignment"); c.tag("self-assigned"); }
        if (r.chance(.03) && gs.size() > 1) { gs.erase(gs.begin() + long(r.below(gs.size()))); c.tag("destroyed"); i = r.below(gs.size()); }
        bool compare = cap == 9 || r.chance(.02); std::vector<Snap> others; if (compare) for (std::size_t j = 0; j < gs.size(); ++j) others.push_back(j == i ? Snap() : snap(*gs[j].g));
        operate(c, gs[i], ids);
        if (cap == 9 || r.chance(.03)) check(c, gs[i]);
        if (compare) for (std::size_t j = 0; j < gs.size(); ++j) if (j != i) { c.ok(snap(*gs[j].g) == others[j], "change-reaches-a-copy"); c.tag("separate"); }
    }
    for (auto& x: gs) { check(c, x); std::string s; for (auto& o: snap(*x.g)) s += o.second + "|"; c.nontrivial(H::hash_str(s)); }
    c.sample(H::str(gs[0].s.names.size(), " layers, ", gs[0].s.t.size(), " arcs, ", steps, " operations"));
}
/// A large tree, declared in random order, with a loss behind its leaves.
void large(H::Case& c)
{
    auto& r = c.rng; auto n = r.size(70, 300); G x{ std::make_unique<DLGraph>(), {} }; auto& g = *x.g; auto& s = x.s;
    auto last = r.below(n / 4);         // where the loss is declared
    std::vector<P> l; std::shared_ptr<LossLayer> loss; std::size_t at_loss = 0; std::vector<std::size_t> idx;
    for (std::size_t i = 0; i < n; ++i)
    {
        if (i == last) { P q = fresh(r, int(i), true); loss = std::dynamic_pointer_cast<LossLayer>(q); g.add_loss(loss); at_loss = s.names.size(); s.losses.push_back(at_loss); s.names.push_back(q->name()); }
        P q = fresh(r, int(i), false); g.add_node(q); l.push_back(q); idx.push_back(s.names.size()); s.names.push_back(q->name());
    }
    // Node i hangs on one before it: close for a long chain, anywhere for a bushy tree.
    bool bushy = r.chance(.4); std::vector<std::pair<std::size_t, std::size_t>> e;
    for (std::size_t i = 1; i < n; ++i) e.push_back({ bushy ? r.below(i) : i - 1, i });
    r.shuffle(e);
    for (auto& q: e) { g.add_edge(l[q.first], l[q.second]); auto a = idx[q.first], b = idx[q.second]; s.f.insert({ a, b }); s.t.insert({ a, b }); s.b.insert({ b, a }); }
    g.add_edge(l[n - 1], loss); s.t.insert({ idx[n - 1], at_loss }); s.b.insert({ at_loss, idx[n - 1] });
    check(c, x); DLGraph copy(g); c.ok(snap(copy) == snap(g), "copy-differs");
    c.tag(bushy ? "large-tree" : "large-chain"); c.nontrivial(H::comb(n, last)); c.tag("large-run", n);
}
}

int main(int argc, char** argv)
{
    return H::run(argc, argv, { { "history", 8000, 250000, history }, { "large", 24, 300, large } });
}
