// C08: MNIST readers against the generated bytes.
#include "h.hpp"
#include "parser/mnist.hpp"
#include <memory>
using namespace EdgeLearning;

namespace {

std::string be(std::uint32_t v) { return { char(v >> 24), char(v >> 16), char(v >> 8), char(v) }; }
struct Files
{
    std::size_t n; std::string im, lb; std::unique_ptr<H::TmpFile> fi, fl;
    Files(H::Rng& r, std::size_t count) : n(count)
    {
        im = be(0x803) + be(std::uint32_t(n)) + be(28) + be(28); lb = be(0x801) + be(std::uint32_t(n));
        for (std::size_t i = 0; i < n; ++i)
        {
            int style = int(r.below(3));
            for (int k = 0; k < 784; ++k) im += char(style == 0 ? r.next() : style == 1 ? (r.chance(.2) ? r.next() : 0) : H::u64(k + i));
            lb += char(r.chance(.9) ? r.below(10) : r.next());
        }
        fi = std::make_unique<H::TmpFile>(im); fl = std::make_unique<H::TmpFile>(lb);
    }
    const std::uint8_t* px(std::size_t i) const { return reinterpret_cast<const std::uint8_t*>(im.data()) + 16 + i * 784; }
    std::uint8_t label(std::size_t i) const { return std::uint8_t(lb[8 + i]); }
};

void rendering(H::Case& c, const MnistImage& im)
{
    std::string s = im; std::ostringstream o; o << im;
    c.ok(o.str() == s && std::string(im) == s, "rendering-deterministic");
    // Exactly 28 lines of picture, one cell (of equal width) per pixel.
    std::vector<std::string> lines; std::string l;
    for (char ch: s) if (ch == '\n') { if (!l.empty()) lines.push_back(l); l.clear(); } else l += ch;
    if (!l.empty()) lines.push_back(l);
    c.must(lines.size() == 28, "rendering-lines", [&] { return H::str(lines.size()); });
    std::size_t w = lines[0].size() / 28;
    // Cells of equal pixels are equal, cells are ordered as the pixel values:
    // each rendering covers one contiguous range of values.
    std::map<std::string, std::pair<int, int>> range;
    for (int y = 0; y < 28; ++y)
    {
        c.must(lines[y].size() == 28 * w && w > 0, "rendering-width", [&] { return lines[y]; });
        for (int x = 0; x < 28; ++x)
        {
            int v = im.data()[y * 28 + x]; auto cell = lines[y].substr(x * w, w);
            auto it = range.find(cell);
            if (it == range.end()) range[cell] = { v, v };
            else { it->second.first = std::min(it->second.first, v); it->second.second = std::max(it->second.second, v); }
        }
    }
    for (auto& a: range) for (char ch: a.first) c.ok(ch >= 32 && ch < 127, "rendering-printable", [&] { return H::str("pixel ", a.second.first, " drawn as character ", int(ch)); });
    if (*std::max_element(im.data().begin(), im.data().end()) - *std::min_element(im.data().begin(), im.data().end()) > 200) c.ok(range.size() > 1, "rendering-flat");
    for (auto& a: range) for (auto& b: range)
        if (a.first != b.first)
            c.ok(a.second.second < b.second.first || b.second.second < a.second.first, "rendering-order",
                [&] { return H::str("cells '", a.first, "' [", a.second.first, ",", a.second.second, "] and '", b.first, "' [", b.second.first, ",", b.second.second, "]"); });
    c.tag("rendered");
}

void check(H::Case& c, const Files& f, Mnist& m, std::size_t i)
{
    std::size_t at = i % f.n;
    auto image = [&](const MnistImage& x) {
        c.ok(x.data().size() == 784 && std::equal(x.data().begin(), x.data().end(), f.px(at)), "image-bytes", [&] { return H::str("image ", i, " of ", f.n); });
        c.ok(x.idx() == at, "image-index", [&] { return H::str(x.idx(), " instead of ", at); }); };
    auto label = [&](const MnistLabel& x) {
        c.ok(x.data() == f.label(at), "label-byte", [&] { return H::str("label ", i, ": ", int(x.data()), " instead of ", int(f.label(at))); });
        c.ok(x.idx() == at && std::string(x) == std::to_string(int(f.label(at))), "label-text"); };
    switch (c.rng.below(4))
    {
        case 0: image(m.image(i)); c.tag("image"); break;
        case 1: label(m.label(i)); c.tag("label"); break;
        case 2: { auto x = m[i]; image(x.image); label(x.label); c.tag("item"); break; }
        default:
        {
            auto e = m.entry(i);
            bool good = e.size() == 785;
            for (std::size_t k = 0; good && k < 784; ++k) good = e[k] == f.px(at)[k];
            c.ok(good && e[784] == f.label(at), "entry", [&] { return H::str("entry ", i); });
            c.tag("entry");
        }
    }
    if (i >= f.n) c.tag("wrapped");
}

} // namespace

int main(int argc, char** argv)
{
    return H::run(argc, argv, {
        { "access", 500, 10000, [](H::Case& c) {
            std::vector<std::unique_ptr<Files>> fs; std::vector<std::unique_ptr<Mnist>> ms;
            for (int k = 0; k < 2; ++k)
            {
                fs.push_back(std::make_unique<Files>(c.rng, c.rng.chance(.8) ? c.rng.size(1, 12) : c.rng.size(1, 60)));
                ms.push_back(std::make_unique<Mnist>(fs[k]->fi->path(), fs[k]->fl->path()));
            }
            ms.push_back(std::make_unique<Mnist>(fs[0]->fi->path(), fs[0]->fl->path()));
            H::u64 h = H::hash_str(fs[0]->im);
            for (int s = 0; s < 50; ++s)
            {
                auto k = c.rng.below(3); auto& f = *fs[k % 2];
                auto i = c.rng.chance(.2) ? c.rng.below(f.n * 4) : c.rng.below(f.n);
                check(c, f, *ms[k], i); h = H::comb(h, i * 4 + k);
            }
            for (int k = 0; k < 3; ++k)
            {
                auto& f = *fs[k % 2]; auto& m = *ms[k];
                c.ok(m.size() == f.n && m.entries_amount() == f.n, "size");
                c.ok(m.feature_size() == 785 && m.labels_idx() == std::set<SizeType>{784} && m.height() == 28 && m.width() == 28 && m.side() == 28 && m.shape() == std::make_tuple(std::size_t(28), std::size_t(28)), "shape");
            }
            c.nontrivial(h); c.sample(H::str(fs[0]->n, " and ", fs[1]->n, " images")); } },
        { "large-sets", 12, 200, [](H::Case& c) {
            Files f(c.rng, c.id == 0 ? 66000 : c.rng.size(257, 1500)); Mnist m(f.fi->path(), f.fl->path());
            H::u64 h = H::hash_str(f.lb);
            for (int s = 0; s < 400; ++s)
            {
                auto i = c.rng.chance(.1) ? c.rng.below(f.n * 4) : c.rng.chance(.2) ? f.n - 1 - c.rng.below(10) : c.rng.below(f.n);
                check(c, f, m, i); h = H::comb(h, i);
            }
            c.ok(m.size() == f.n && m.entries_amount() == f.n, "size");
            c.tag("large-set"); c.nontrivial(h); } },
        { "huge-sets", 2, 12, [](H::Case& c) {
            // Files beyond the reach of 31 and 32 bit offsets (sparse: few images are written).
            const std::size_t n = 5500000 + c.rng.below(100000);
            H::TmpFile fi(be(0x803) + be(std::uint32_t(n)) + be(28) + be(28)), fl(be(0x801) + be(std::uint32_t(n)));
            std::map<std::size_t, std::string> px;
            for (auto b: { std::size_t(0), std::size_t(2739138), std::size_t(5478275), n - 1 }) for (int k = 0; k < 4; ++k) px[std::min(n - 1, (b > 2 ? b - 2 : b) + c.rng.below(4))];
            for (int k = 0; k < 12; ++k) px[c.rng.below(n)];
            px[n - 1];
            {
                std::fstream f(fi.path(), std::ios::in | std::ios::out | std::ios::binary);
                for (auto& p: px) { for (int q = 0; q < 784; ++q) p.second += char(c.rng.next()); f.seekp(std::streamoff(16 + p.first * 784)); f.write(p.second.data(), 784); }
                std::ofstream l(fl.path(), std::ios::app | std::ios::binary); std::string s(n, 0); for (std::size_t i = 0; i < n; ++i) s[i] = char(H::mix(i)); l << s;
                if (!f.good() || !l.good()) return;   // no room for such files here
            }
            Mnist m(fi.path(), fl.path()); c.ok(m.size() == n && m.entries_amount() == n, "size");
            std::vector<std::size_t> order; for (auto& p: px) order.push_back(p.first); c.rng.shuffle(order);
            for (auto i: order)
            {
                auto x = m.image(c.rng.chance(.2) ? i + n * c.rng.below(3) : i); auto l = m.label(i); auto e = m.entry(i); auto& p = px[i];
                c.ok(x.idx() == i && std::equal(x.data().begin(), x.data().end(), reinterpret_cast<const std::uint8_t*>(p.data())), "image-bytes", [&] { return H::str("image ", i, " of ", n); });
                c.ok(l.idx() == i && l.data() == std::uint8_t(H::mix(i)), "label-byte", [&] { return H::str("label ", i); });
                c.ok(e.size() == 785 && std::equal(x.data().begin(), x.data().end(), e.begin()) && e[784] == std::uint8_t(H::mix(i)), "entry", [&] { return H::str("entry ", i); });
                c.tag(i >= 2739138 ? "beyond-31-bits" : "huge-set"); c.nontrivial(i);
            } } },
        { "whole-dataset", 60, 1200, [](H::Case& c) {
            Files f(c.rng, c.rng.size(1, 25)); Mnist m(f.fi->path(), f.fl->path());
            auto d = m.data_to_encoding();
            c.must(d.size() == f.n * 785, "dataset-size");
            bool good = true;
            for (std::size_t i = 0; i < f.n; ++i) { for (std::size_t k = 0; k < 784; ++k) good = good && d[i * 785 + k] == f.px(i)[k]; good = good && d[i * 785 + 784] == f.label(i); }
            c.ok(good, "dataset-content");
            std::set<double> u; for (std::size_t i = 0; i < f.n; ++i) u.insert(f.label(i));
            c.ok(m.unique(784) == u, "label-values");
            auto hot = m.data_to_encoding(DatasetParser::LabelEncoding::ONE_HOT_ENCODING);
            c.ok(hot.size() == f.n * (784 + u.size()), "one-hot-size");
            c.tag("dataset"); c.nontrivial(H::hash_str(f.im)); } },
        { "rendering", 400, 6000, [](H::Case& c) {
            Files f(c.rng, 1); Mnist m(f.fi->path(), f.fl->path()); auto im = m.image(0);
            rendering(c, im);
            // Changing a pixel through the accessor changes only its cell.
            auto k = c.rng.below(784); im.data()[k] = std::uint8_t(im.data()[k] + 128); rendering(c, im);
            im.data()[c.rng.below(784)] = 255; im.data()[c.rng.below(784)] = 0; rendering(c, im);
            c.nontrivial(H::hash_str(f.im)); } },
        { "corrupted-headers", 1500, 20000, [](H::Case& c) {
            Files f(c.rng, c.rng.size(1, 4));
            auto im = f.im; auto lb = f.lb;
            switch (c.rng.below(5))
            {
                case 0: { auto p = c.rng.below(4); im[p] = char(im[p] + 1 + c.rng.below(255)); c.tag("image-magic"); break; }
                case 1: { auto p = c.rng.below(4); lb[p] = char(lb[p] + 1 + c.rng.below(255)); c.tag("label-magic"); break; }
                case 2: { auto p = 4 + c.rng.below(4); (c.rng.chance(.5) ? im : lb)[p] ^= char(1 + c.rng.below(255)); c.tag("counts"); break; }
                case 3: if (c.rng.chance(.3))
                    {
                        // Another shape of as many pixels.
                        std::uint32_t h; do h = c.rng.pick<std::uint32_t>({ 1, 2, 4, 7, 8, 14, 16, 49, 56, 98, 112, 196, 392, 784 }); while (h == 28);
                        im.replace(8, 4, be(h)); im.replace(12, 4, be(784 / h)); c.tag("dimensions"); break;
                    }
                    { auto p = 8 + c.rng.below(8); im[p] = char(im[p] + 1 + c.rng.below(255)); c.tag("dimensions"); break; }
                default: if (c.rng.chance(.5)) im.resize(c.rng.below(16)); else lb.resize(c.rng.below(8)); c.tag("short-header");
            }
            if (im == f.im && lb == f.lb) return;
            H::TmpFile fi(im), fl(lb);
            c.ok(H::throws([&] { Mnist m(fi.path(), fl.path()); }), "corrupted-accepted", [&] { return H::str("bytes ", im.substr(0, 16), " / ", lb.substr(0, 8)); });
            Mnist good(f.fi->path(), f.fl->path()); check(c, f, good, c.rng.below(f.n));
            c.nontrivial(H::comb(H::hash_str(im.substr(0, 16)), H::hash_str(lb.substr(0, 8)))); } },
        { "endian", 500, 5000, [](H::Case& c) {
            std::uint32_t v = std::uint32_t(c.rng.next()); auto s = be(v);
            H::TmpFile f(s); std::ifstream in(f.path(), std::ios::binary);
            c.ok(read_uint32_endian_order(in) == v, "big-endian"); c.nontrivial(v); } },
    });
}
