// C16: tensor helpers against element-wise definitions, with inverses.
#include "h.hpp"
#include "dnn/dlmath.hpp"
using namespace EdgeLearning;
using M = DLMath;
typedef long double L;

namespace {
using Sz = std::vector<std::size_t>;

template<class V> std::vector<V> fresh(std::size_t n, std::size_t from) { std::vector<V> v(n); for (std::size_t i = 0; i < n; ++i) v[i] = V(from + i); return v; }
std::size_t prod(const Sz& s) { std::size_t p = 1; for (auto x: s) p *= x; return p; }
std::string sstr(const Sz& s) { std::string r; for (auto x: s) r += H::str(r.empty() ? "" : "x", x); return r; }
template<class V> std::string vs(const std::vector<V>& v) { return H::vstr(std::vector<double>(v.begin(), v.end())); }
/// Flat index of the coordinates of element i of `part` placed at `off` on `axis` in `whole`.
std::size_t place(std::size_t i, const Sz& part, const Sz& whole, std::size_t axis, std::size_t off)
{
    Sz co(part.size());
    for (std::size_t d = part.size(); d-- > 0; ) { co[d] = i % part[d]; i /= part[d]; }
    co[axis] += off;
    std::size_t r = 0; for (std::size_t d = 0; d < whole.size(); ++d) r = r * whole[d] + co[d];
    return r;
}

template<class V> void blocks(H::Case& c)
{
    auto k = c.rng.far(2, 5, 40), axis = c.rng.below(3); bool big = c.rng.chance(.01); if (big || k > 5) c.tag("large-blocks");
    Sz base { c.rng.far(1, 5, 40, big ? .5 : .005), c.rng.far(1, 5, 40, big ? .5 : .005), c.rng.far(1, 5, 40, big ? .5 : .005) };
    std::vector<Sz> shapes; std::vector<M::Shape3d> sh; std::vector<std::vector<V>> parts; std::size_t total = 0;
    Sz whole = base; whole[axis] = 0;
    for (std::size_t b = 0; b < k; ++b)
    {
        auto s = base; s[axis] = c.rng.far(1, 5, 30, big ? .5 : .005); whole[axis] += s[axis];
        shapes.push_back(s); sh.emplace_back(s[0], s[1], s[2]); parts.push_back(fresh<V>(prod(s), 1 + total)); total += prod(s);
    }
    std::string what = H::str("axis ", axis, ":"); for (auto& s: shapes) what += " " + sstr(s);
    std::vector<V> want(total), flat;
    std::size_t off = 0;
    for (std::size_t b = 0; b < k; ++b) { for (std::size_t i = 0; i < parts[b].size(); ++i) want[place(i, shapes[b], whole, axis, off)] = parts[b][i]; off += shapes[b][axis]; flat.insert(flat.end(), parts[b].begin(), parts[b].end()); }
    auto bad_axis = 3 + c.rng.below(4);
    {
        H::Guarded<V> dst(total), src(flat), back(total);
        auto* r = M::concatenate<V>(dst.data(), src.data(), sh, axis);
        c.ok(r == dst.data() && dst.vec() == want, "concatenate-many", [&] { return what + " " + vs(dst.vec()) + " instead of " + vs(want); });
        auto* q = M::separate<V>(back.data(), sh, dst.data(), axis);
        c.ok(q == back.data() && back.vec() == flat, "separate-many", [&] { return what + " " + vs(back.vec()); });
        c.ok(dst.intact() && src.intact() && back.intact() && src.vec() == flat && dst.vec() == want, "writes-elsewhere", [&] { return what; });
        c.ok(H::throws([&] { M::concatenate<V>(dst.data(), src.data(), sh, bad_axis); }) && H::throws([&] { M::separate<V>(back.data(), sh, dst.data(), bad_axis); }), "axis-accepted");
        auto wrong = sh; auto which = c.rng.below(k); auto ax = (axis + 1 + c.rng.below(2)) % 3; 
        if (auto third = 3 - axis - ax; wrong[which][ax] != wrong[which][third] && c.rng.chance(.5)) { std::swap(wrong[which][ax], wrong[which][third]); c.tag("misfit-of-equal-size"); } else wrong[which][ax] += 1;
        c.ok(H::throws([&] { M::concatenate<V>(dst.data(), src.data(), wrong, axis); }) && H::throws([&] { M::separate<V>(back.data(), wrong, dst.data(), axis); }), "shape-accepted", [&] { return what + H::str(" with block ", which, " changed along ", ax); });
        c.ok(dst.vec() == want && back.vec() == flat, "rejected-but-written");
        c.tag(H::str("many-axis-", axis));
    }
    {
        auto w2 = base; w2[axis] = shapes[0][axis] + shapes[1][axis]; std::vector<V> want2(parts[0].size() + parts[1].size());
        for (std::size_t b = 0; b < 2; ++b) for (std::size_t i = 0; i < parts[b].size(); ++i) want2[place(i, shapes[b], w2, axis, b ? shapes[0][axis] : 0)] = parts[b][i];
        H::Guarded<V> dst(want2.size()), a(parts[0]), b(parts[1]), x(parts[0].size()), y(parts[1].size());
        auto* r = M::concatenate<V>(dst.data(), a.data(), sh[0], b.data(), sh[1], axis);
        c.ok(r == dst.data() && dst.vec() == want2, "concatenate-two", [&] { return what + " " + vs(dst.vec()) + " instead of " + vs(want2); });
        M::separate<V>(x.data(), sh[0], y.data(), sh[1], dst.data(), axis);
        c.ok(x.vec() == parts[0] && y.vec() == parts[1], "separate-two", [&] { return what + " " + vs(x.vec()) + vs(y.vec()); });
        c.ok(dst.intact() && a.intact() && b.intact() && x.intact() && y.intact() && a.vec() == parts[0] && b.vec() == parts[1], "writes-elsewhere", [&] { return what; });
        auto wrong = sh[1]; auto ax = (axis + 1 + c.rng.below(2)) % 3; wrong[ax] += 1;
        c.ok(H::throws([&] { M::concatenate<V>(dst.data(), a.data(), sh[0], b.data(), wrong, axis); }) && H::throws([&] { M::separate<V>(x.data(), sh[0], y.data(), wrong, dst.data(), axis); })
            && H::throws([&] { M::concatenate<V>(dst.data(), a.data(), sh[0], b.data(), sh[1], bad_axis); }) && H::throws([&] { M::separate<V>(x.data(), sh[0], y.data(), sh[1], dst.data(), bad_axis); }), "shape-accepted", [&] { return what; });
        c.tag("two");
    }
    c.nontrivial(H::hash_str(what));
    c.sample(what);
}

template<class V> void slices(H::Case& c)
{
    Sz whole; auto rank = c.rng.far(1, 5, 9, .02); for (auto d = rank; d; --d) whole.push_back(rank > 5 ? c.rng.size(1, 3) : rank > 3 ? c.rng.size(1, 5) : c.rng.far(1, 5, 300, .01));
    if (rank > 5) c.tag("high-rank");
    auto axis = c.rng.below(whole.size());
    auto part = whole; part[axis] = c.rng.size(1, whole[axis]); auto off = c.rng.size(0, whole[axis] - part[axis]);
    auto w = fresh<V>(prod(whole), 1000), p = fresh<V>(prod(part), 1);
    auto want = w; for (std::size_t i = 0; i < p.size(); ++i) want[place(i, part, whole, axis, off)] = p[i];
    std::string what = H::str(sstr(part), " at ", off, " of axis ", axis, " in ", sstr(whole));
    H::Guarded<V> dst(w), src(p), back(p.size());
    // A slice put into a tensor: dst_shape is the tensor's; taken out: it is the slice's.
    bool chk = c.rng.chance(.5);
    auto* r = chk ? M::append_check<V>(dst.data(), whole, src.data(), part[axis], axis, off) : M::append<V>(dst.data(), whole, src.data(), part[axis], axis, off);
    c.ok(r == dst.data() && dst.vec() == want, "append", [&] { return what + ": " + vs(dst.vec()) + " instead of " + vs(want); });
    auto* q = chk ? M::extract_check<V>(back.data(), part, dst.data(), whole[axis], axis, off) : M::extract<V>(back.data(), part, dst.data(), whole[axis], axis, off);
    c.ok(q == back.data() && back.vec() == p, "extract", [&] { return what + ": " + vs(back.vec()) + " instead of " + vs(p); });
    // And from the untouched tensor.
    H::Guarded<V> orig(w), out(p.size()); std::vector<V> cutout(p.size());
    for (std::size_t i = 0; i < p.size(); ++i) cutout[i] = w[place(i, part, whole, axis, off)];
    M::extract<V>(out.data(), part, orig.data(), whole[axis], axis, off);
    c.ok(out.vec() == cutout, "extract", [&] { return what + ": " + vs(out.vec()) + " instead of " + vs(cutout); });
    M::append<V>(orig.data(), whole, out.data(), part[axis], axis, off);
    c.ok(orig.vec() == w, "append-of-extract");
    c.ok(dst.intact() && src.intact() && back.intact() && orig.intact() && out.intact() && src.vec() == p, "writes-elsewhere", [&] { return what; });
    auto far = whole.size() + c.rng.below(3);
    c.ok(H::throws([&] { M::append_check<V>(dst.data(), whole, src.data(), 1, far, 0); }) && H::throws([&] { M::extract_check<V>(back.data(), part, dst.data(), 1, far, 0); }) && dst.vec() == want, "slice-axis-accepted");
    c.tag("slice"); c.nontrivial(H::hash_str(what));
}

template<class V> std::vector<V> vals(H::Rng& r, std::size_t n)
{
    std::vector<V> v(n); int style = int(r.below(6));
    for (auto& x: v) x = V(style == 0 ? double(r.range(-3, 3)) : style == 1 ? -r.uni(1, 9) : style == 2 ? r.uni(-1, 1) : style == 3 ? -double(r.range(1, 4)) : style == 4 ? r.uni(-1, 1) * 1e6 : r.chance(.7) ? 0. : r.uni(-1, 1));
    return v;
}
template<class V> void vectors(H::Case& c)
{
    const double e = std::is_integral<V>::value ? 0 : sizeof(V) == 4 ? 1e-5 : 1e-14;
    auto n = c.rng.far(1, 100, 5000); if (n > 1000) c.tag("long-vector");
    auto a = vals<V>(c.rng, n), b = vals<V>(c.rng, n); V s = vals<V>(c.rng, 1)[0];
    auto all = [&] (const char* key, const std::vector<V>& got, std::function<L(std::size_t)> f) {
        for (std::size_t i = 0; i < n; ++i)
            if (!c.ok(std::fabs(double(got[i]) - double(f(i))) <= e * std::fabs(double(f(i))), key, [&] { return H::str("element ", i, " ", double(a[i]), " ", double(b[i]), ": ", double(got[i])); })) return; };
    auto ops = [&] (const char* key, auto op, std::function<L(std::size_t)> f, bool two) {
        H::Guarded<V> x(a), y(b), d(n);
        c.ok(op(d.data(), x.data(), y.data()) == d.data(), key);
        all(key, d.vec(), f);
        c.ok(x.vec() == a && y.vec() == b && x.intact() && y.intact() && d.intact(), "writes-elsewhere", [&] { return key; });
        op(x.data(), x.data(), y.data()); all(key, x.vec(), f); c.ok(x.intact() && y.vec() == b, "writes-elsewhere", [&] { return key; });
        if (two) { H::Guarded<V> z(a); op(y.data(), z.data(), y.data()); all(key, y.vec(), f); c.ok(y.intact() && z.vec() == a, "writes-elsewhere", [&] { return key; }); }
        c.tag(key); };
    ops("product", [&](V* d, const V* x, const V* y) { return M::arr_mul(d, x, y, n); }, [&](std::size_t i) { return L(a[i]) * b[i]; }, true);
    ops("sum", [&](V* d, const V* x, const V* y) { return M::arr_sum(d, x, y, n); }, [&](std::size_t i) { return L(V(a[i] + b[i])); }, true);
    ops("scaled", [&](V* d, const V* x, const V*) { return M::arr_mul(d, x, s, n); }, [&](std::size_t i) { return L(a[i]) * s; }, false);
    ops("shifted", [&](V* d, const V* x, const V*) { return M::arr_sum(d, x, s, n); }, [&](std::size_t i) { return L(V(a[i] + s)); }, false);
    {
        // Sometimes the largest value has close rivals, one representable step away.
        if (!std::is_integral<V>::value && n > 1 && c.rng.chance(.3))
        {
            std::size_t t = 0; for (std::size_t i = 1; i < n; ++i) if (a[i] > a[t]) t = i;
            for (auto k = c.rng.size(1, 3); k; --k) { auto i = c.rng.below(n); if (i != t) a[i] = V(std::nextafter(a[t], c.rng.chance(.5) ? V(-1e30) : V(1e30))); }
            c.tag("close-maxima");
        }
        H::Guarded<V> x(a); std::size_t m = 0; for (std::size_t i = 1; i < n; ++i) if (a[i] > a[m]) m = i;
        auto am = M::argmax(x.data(), n); auto both = M::max_and_argmax(x.data(), n);
        c.ok(M::max(x.data(), n) == a[m] && std::get<0>(both) == a[m], "maximum", [&] { return vs(a); });
        c.ok(am < n && a[am] == a[m] && std::get<1>(both) == am, "position-of-maximum", [&] { return H::str(am, " ", std::get<1>(both), " in ", vs(a)); });
        c.ok(am == m, "first-position-of-maximum", [&] { return H::str(am, " instead of ", m, " in ", vs(a)); });
        c.ok(x.vec() == a, "writes-elsewhere"); c.tag("maximum");
        std::size_t ties = 0; for (auto v: a) ties += v == a[m]; if (ties > 1) c.tag("ties");
        if (a[m] < 0) c.tag("negative-maximum");
        V want = c.rng.chance(.7) ? a[c.rng.below(n)] : V(12345); std::int64_t pos = -1;
        for (std::size_t i = 0; i < n; ++i) if (a[i] == want) { pos = std::int64_t(i); break; }
        c.ok(M::index_of(a, want) == pos, "index", [&] { return H::str(M::index_of(a, want), " instead of ", pos); });
        c.ok(M::index_of(std::vector<V>{}, want) == -1, "index-empty");
        c.tag(pos < 0 ? "index-missing" : "index");
    }
    {
        auto rows = c.rng.far(1, 12, 400), cols = c.rng.far(1, 12, 400);
        auto m = vals<V>(c.rng, rows * cols), v = vals<V>(c.rng, cols);
        H::Guarded<V> gm(m), gv(v), d(rows);
        auto* r = c.rng.chance(.5) ? M::matarr_mul(d.data(), gm.data(), gv.data(), rows, cols) : M::matarr_mul_no_check(d.data(), gm.data(), gv.data(), rows, cols);
        for (std::size_t i = 0; i < rows; ++i)
        {
            L t = 0; double mag = 0; for (std::size_t j = 0; j < cols; ++j) { t += L(m[i * cols + j]) * v[j]; mag += std::fabs(double(m[i * cols + j]) * double(v[j])); }
            c.ok(std::fabs(double(d[i]) - double(t)) <= e * mag, "matrix-vector", [&] { return H::str(rows, "x", cols, " row ", i, ": ", double(d[i]), " instead of ", double(t)); });
        }
        c.ok(r == d.data() && gm.vec() == m && gv.vec() == v && gm.intact() && gv.intact() && d.intact(), "writes-elsewhere");
        c.ok(H::throws([&] { M::matarr_mul(gv.data(), gm.data(), gv.data(), std::min(rows, cols), cols); }) && gv.vec() == v, "matrix-vector-same-buffer-accepted");
        c.tag("matrix-vector");
    }
    c.nontrivial(H::comb(H::hash_vec(a), H::hash_vec(b)));
}
}

int main(int argc, char** argv)
{
    return H::run(argc, argv, {
        { "blocks-double", 12000, 300000, blocks<double> },
        { "blocks-int", 2000, 50000, blocks<int> },
        { "slices-double", 12000, 300000, slices<double> },
        { "slices-int", 2000, 50000, slices<long> },
        { "vectors-double", 10000, 250000, vectors<double> },
        { "vectors-float", 3000, 80000, vectors<float> },
        { "shapes", 125, 125, [](H::Case& c) {
            // Sizes and accessors of every small shape, and each axis of concatenation of all pairs along it.
            std::size_t h = c.id / 25 + 1, w = c.id / 5 % 5 + 1, ch = c.id % 5 + 1;
            M::Shape3d s(h, w, ch); M::Shape2d t(h, w);
            c.ok(s.size() == h * w * ch && t.size() == h * w && s.height() == h && s.width() == w && s.channels() == ch && t.height() == h && t.width() == w && s.at(2) == ch && s[0] == h, "shape");
            M::Shape3d u(t); c.ok(u.height() == h && u.width() == w && u.channels() == 1, "shape-from-2d"); M::Shape2d q(h); c.ok(q.height() == h && q.width() == h, "square-shape");
            for (std::size_t axis = 0; axis < 3; ++axis) for (std::size_t n = 1; n <= 4; ++n)
            {
                Sz a { h, w, ch }, b = a; b[axis] = n; auto whole = a; whole[axis] += n;
                auto x = fresh<double>(prod(a), 1), y = fresh<double>(prod(b), 500); std::vector<double> want(x.size() + y.size()), got(want.size());
                for (std::size_t i = 0; i < x.size(); ++i) want[place(i, a, whole, axis, 0)] = x[i];
                for (std::size_t i = 0; i < y.size(); ++i) want[place(i, b, whole, axis, a[axis])] = y[i];
                M::concatenate<double>(got.data(), x.data(), s, y.data(), M::Shape3d(b[0], b[1], b[2]), axis);
                c.ok(got == want, "concatenate-two", [&] { return sstr(a) + " and " + sstr(b); });
                c.nontrivial(H::hash_str(sstr(a) + sstr(b))); c.tag("shape");
            } } },
    });
}
