// C32: an allocation that fails at any point of any use of the library.
#include "works.hpp"
#include <cstdlib>
#include <dlfcn.h>
#include <execinfo.h>
#include <new>
using namespace W;

extern "C" int __lsan_do_recoverable_leak_check();

// The allocation functions of this program: the one chosen by a workload fails.
static thread_local long long g_left = -1, g_count = 0; static thread_local bool g_after = false, g_failed = false;
/// Standard streams keep exceptions of their reading and writing to themselves; the library never sees those.
static bool swallowed()
{
    void* f[40]; int n = backtrace(f, 40);
    for (int i = 0; i < n; ++i)
    {
        Dl_info d; if (!dladdr(f[i], &d) || !d.dli_sname || !d.dli_fname || !std::strstr(d.dli_fname, "libstdc++")) continue;
        for (auto w: { "getline", "_ZNSi", "_ZNSo", "_ZStls", "_ZStrs", "ostream_insert", "basic_istream", "basic_ostream" }) if (std::strstr(d.dli_sname, w)) return true;
    }
    return false;
}
static void* take(std::size_t n, std::size_t align)
{
    ++g_count;
    if (g_left >= 0 && g_left-- == 0)
    {
        g_left = -1; bool skip = swallowed(); if (skip || g_after) g_left = 0;
        if (!skip) { g_failed = true; throw std::bad_alloc(); }
    }
    void* p = align > 16 ? std::aligned_alloc(align, (n + align - 1) / align * align) : std::malloc(n ? n : 1);
    if (!p) throw std::bad_alloc(); return p;
}
void* operator new(std::size_t n) { return take(n, 0); }
void* operator new[](std::size_t n) { return take(n, 0); }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { try { return take(n, 0); } catch (...) { return nullptr; } }
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept { try { return take(n, 0); } catch (...) { return nullptr; } }
void* operator new(std::size_t n, std::align_val_t a) { return take(n, std::size_t(a)); }
void* operator new[](std::size_t n, std::align_val_t a) { return take(n, std::size_t(a)); }
void operator delete(void* p) noexcept { std::free(p); }
void operator delete[](void* p) noexcept { std::free(p); }
void operator delete(void* p, std::size_t) noexcept { std::free(p); }
void operator delete[](void* p, std::size_t) noexcept { std::free(p); }
void operator delete(void* p, std::align_val_t) noexcept { std::free(p); }
void operator delete[](void* p, std::align_val_t) noexcept { std::free(p); }
void operator delete(void* p, std::size_t, std::align_val_t) noexcept { std::free(p); }
void operator delete[](void* p, std::size_t, std::align_val_t) noexcept { std::free(p); }

namespace {
Seen once(std::size_t kind, H::u64 seed) { H::Rng q(seed); Seen o; all()[kind].second(q, o); return o; }

void one(H::Case& c)
{
    auto& r = c.rng; auto kind = r.below(all().size()); H::u64 seed = r.next(); Seen want = once(kind, seed);
    g_count = 0; (void) once(kind, seed); long long n = g_count; std::size_t thrown = 0, through = 0;
    for (int k = 0; k < 12; ++k)
    {
        long long at = k == 0 ? 0 : k == 1 ? n - 1 : (long long) r.below(std::size_t(n)); bool after = r.chance(.1); Seen got; bool out = false, other = false; std::string what;
        g_failed = false; g_after = after; g_left = at;
        try { got = once(kind, seed); } catch (const std::bad_alloc&) { out = true; } catch (const std::exception& e) { g_left = -1; other = true; what = e.what(); }
        g_left = -1; g_after = false;
        if (!g_failed) { c.tag("not-reached"); continue; }
        (out || other ? thrown : through) += 1;
        if (!out && !other) c.ok(got.h == want.h && got.n == want.n, "silently-different", [&] { return H::str(all()[kind].first, " with a failed allocation (", at, " of ", n, ")"); }); if (other) c.tag("other-exception"); if (after) c.tag("all-later-ones-fail-too");
        c.nontrivial(H::comb(H::comb(seed, kind), H::u64(at)));
        Seen again = once(kind, seed);
        c.ok(again.h == want.h && again.n == want.n, "lasting-damage", [&] { return H::str(all()[kind].first, " after a failed allocation (", at, " of ", n, ")"); });
    }
    if (r.chance(.05)) { c.ok(__lsan_do_recoverable_leak_check() == 0, "leak", [&] { return H::str(all()[kind].first); }); c.tag("leaks-counted"); }
    if (thrown) c.tag("reported"); if (through) c.tag("absorbed"); c.tag(all()[kind].first); c.sample(H::str(all()[kind].first, ": ", n, " allocations, ", thrown, " failures reported"));
}

/// An object that a failing call has left behind is destroyed, or assigned a new value that it then shows.
template<class T, class Make, class Change, class Look> void survive(H::Case& c, const char* name, Make make, Change change, Look look)
{
    auto& r = c.rng; H::u64 s1 = r.next(), s2 = r.next(), s3 = r.next(); long long n;
    { H::Rng q(s1), k(s2); T x = make(q); g_count = 0; change(x, k); n = g_count; }
    if (n == 0) { c.tag("nothing-allocated"); return; }
    Seen want; { H::Rng q(s3); T y = make(q); look(y, want); }
    for (int t = 0; t < 6; ++t)
    {
        H::Rng q(s1), k(s2), q3(s3); T x = make(q); T y = make(q3); bool thrown = false; long long at = (long long) r.below(std::size_t(n));
        g_failed = false; g_left = at; try { change(x, k); } catch (const std::exception&) { thrown = true; } g_left = -1;
        if (!g_failed) { c.tag("not-reached"); continue; }
        c.nontrivial(H::comb(H::comb(s1, s2), H::comb(H::u64(at), H::hash_str(name)))); if (thrown) c.tag(H::str("left-behind:", name));
        if (r.chance(.3)) continue;
        x = y; Seen got; look(x, got); c.ok(got.h == want.h && got.n == want.n, "assigned-anew", [&] { return H::str(name, " after a failed allocation (", at, " of ", n, ")"); });
    }
}
Json some_json(H::Rng& q) { for (;;) { auto p = J::tree(q, 3); std::stringstream in(J::write(p.first)); try { Json j; in >> j; return j; } catch (const std::exception&) {} } }
Model some_model(H::Rng& q)
{
    Opts oo; oo.learnable = true; oo.max_layers = 3; Chain ch; do ch = random_chain(q, oo); while (ch.in.size() > 100 || ch.out() > 60 || ch.layers.size() > 6);
    Model m = build(ch); m.init(Model::InitializationFunction::AUTO, Model::ProbabilityDensityFunction::NORMAL, unsigned(q.next() | 1)); return m;
}

void left(H::Case& c)
{
    auto& r = c.rng;
    switch (r.below(6))
    {
    case 0: survive<Dataset<double>>(c, "dataset", [](H::Rng& q) { return dataset(q); }, [](Dataset<double>& d, H::Rng& k) {
        switch (k.below(5)) { case 0: d.label_idx({ 0 }); break; case 1: d.sequence_size(2); break; case 2: { RneType e(std::uint_fast32_t(k.next() | 1)); d.shuffle(e); } break; case 3: d = dataset(k); break; default: { Dataset<double> z(Dataset<double>::concatenate(d, d)); d = z; } } },
        [](const Dataset<double>& d, Seen& o) { show(d, o); }); break;
    case 1: survive<Json>(c, "json", some_json, [](Json& j, H::Rng& k) {
        switch (k.below(3)) { case 0: j = some_json(k); break; case 1: { std::stringstream in("{\"a long enough key\": [1, 2, {\"another key, also long\": [\"a string that is no short one\"]}]}"); in >> j; } break; default: { Json b(j); j = b; } } },
        [](const Json& j, Seen& o) { o.s(std::string(j)); }); break;
    case 2: survive<DLGraph>(c, "graph", [](H::Rng& q) { DLGraph g; std::vector<P> l; for (std::size_t i = 0, n = q.size(2, 6); i < n; ++i) { l.push_back(std::make_shared<LinearLayer>(H::str("n", i), 2)); g.add_node(l.back()); if (i) g.add_edge(l[q.below(i)], l[i]); } return g; },
        [](DLGraph& g, H::Rng& k) { auto l = std::make_shared<LinearLayer>("another layer with a long name", 2); if (k.chance(.3)) { DLGraph z(g); z.add_node(l); g = z; } else { g.add_node(l); g.add_edge(g.layer(0), l); } },
        [](const DLGraph& g, Seen& o) { for (auto* f: { &g }) { for (auto& a: f->training_forward_run()) { o.u(H::u64(f->index_of(*a.from))); o.u(H::u64(f->index_of(*a.to))); } o.v(f->training_forward_adjacent_matrix()); o.v(f->input_layers_idx()); o.v(f->output_layers_idx()); } }); break;
    case 3: survive<Model>(c, "model", some_model, [](Model& m, H::Rng& k) {
        switch (k.below(4)) { case 0: m = some_model(k); break; case 1: m.init(Model::InitializationFunction::XAVIER, Model::ProbabilityDensityFunction::UNIFORM, 3); break;
            case 2: { H::TmpFile f("", ".json"); { std::ofstream s(f.path()); m.dump(s); } std::ifstream s(f.path()); m.load(s); } break; default: m.predict(k.vec(m.input_size(), -1, 1)); } },
        [](Model& m, Seen& o) { o.v(params(m)); H::Rng z(3); o.v(m.predict(z.vec(m.input_size(), -1, 1))); }); break;
    case 4: survive<DenseLayer>(c, "layer", [](H::Rng& q) { DenseLayer l("the name of a dense layer", q.size(1, 9), q.size(1, 9)); for (std::size_t i = 0; i < l.param_count(); ++i) l.param(i) = q.uni(-1, 1); return l; },
        [](DenseLayer& l, H::Rng& k) { switch (k.below(4)) { case 0: l = DenseLayer("another dense layer's name", k.size(1, 9), k.size(1, 9)); break; case 1: l.load(Json(l.dump())); break; case 2: { auto x = k.vec(l.input_size(), -1, 1); l.forward(x); } break; default: l.input_shape(DLMath::Shape3d(k.size(1, 9), 1, 1)); } },
        [](DenseLayer& l, Seen& o) { o.v(params(l)); H::Rng z(5); auto x = z.vec(l.input_size(), -1, 1); o.v(l.forward(x)); o.s(std::string(l.dump())); }); break;
    default:
        {
            auto g = G::csv(r, G::MIXED, 9, 5, 0); H::TmpFile f(g.text(), ".csv"); H::TmpFile f2(g.text(), ".csv"); bool second = r.chance(.5);
            survive<CSV>(c, "reader", [&](H::Rng& q) { return CSV((second && q.chance(.5) ? f2 : f).path(), { TypeChecker::Type::AUTO }, g.sep, {}); },
                [&](CSV& x, H::Rng& k) { switch (k.below(3)) { case 0: x = CSV(f2.path(), { TypeChecker::Type::AUTO }, g.sep, {}); break; case 1: for (std::size_t i = 0; i < g.rows(); ++i) { CSVRow row = x[i]; (void) row.line(); } break; default: for (auto& row: x) (void) std::vector<std::string>(row); } },
                [&](CSV& x, Seen& o) { for (auto t: x.types()) o.u(H::u64(t)); for (std::size_t i = 0; i < g.rows(); ++i) { CSVRow row = x[i]; o.s(row.line()); } });
        }
    }
}
}

int main(int argc, char** argv) { void* f[4]; (void) backtrace(f, 4); return H::run(argc, argv, { { "one", 2000, 40000, one }, { "left", 4000, 80000, left } }); }
