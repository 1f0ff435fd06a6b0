// C09: CIFAR readers against the generated bytes.
#include "h.hpp"
#include "parser/cifar.hpp"
#include <memory>
using namespace EdgeLearning;

namespace {

struct Files
{
    bool hundred; std::size_t rec, n; std::string batch, names, fine; std::vector<std::string> wn, wf;
    std::unique_ptr<H::TmpFile> fb, fn, ff;
    Files(H::Rng& r, bool h, std::size_t records) : hundred(h), rec(3072 + (h ? 2 : 1)), n(records)
    {
        batch.resize(n * rec);
        H::u64 x = r.next();
        for (std::size_t i = 0; i < batch.size(); i += 8) { x = H::mix(x); std::memcpy(&batch[i], &x, std::min<std::size_t>(8, batch.size() - i)); }
        auto gen = [&](std::vector<std::string>& w, std::string& t) {
            for (auto k = r.size(1, 20); k; --k)
            {
                std::string s; for (auto q = r.below(12); q; --q) s += char(r.range(32, 126));
                if (!s.empty()) w.push_back(s);
                t += s + "\n";
            }
            if (r.chance(.3) && !t.empty()) t.pop_back(); };
        gen(wn, names); gen(wf, fine);
        fb = std::make_unique<H::TmpFile>(batch); fn = std::make_unique<H::TmpFile>(names); ff = std::make_unique<H::TmpFile>(fine);
    }
    std::unique_ptr<Cifar> open(bool order) const
    {
        auto o = order ? CifarShapeOrder::ROW_COL_CHN : CifarShapeOrder::CHN_ROW_COL;
        return hundred ? std::make_unique<Cifar>(fb->path(), fn->path(), o, CifarDataset::CIFAR_100, ff->path())
                       : std::make_unique<Cifar>(fb->path(), fn->path(), o, CifarDataset::CIFAR_10);
    }
    const std::uint8_t* at(std::size_t i) const { return reinterpret_cast<const std::uint8_t*>(batch.data()) + i * rec; }
    const std::uint8_t* px(std::size_t i) const { return at(i) + (hundred ? 2 : 1); }
};

void check(H::Case& c, const Files& f, Cifar& m, bool order, std::size_t i)
{
    std::size_t a = i % 10000;
    std::vector<std::uint8_t> want(3072);
    for (std::size_t q = 0; q < 3072; ++q) want[order ? (q % 1024) * 3 + q / 1024 : q] = f.px(a)[q];
    auto image = [&](const CifarImage& x) {
        c.ok(x.data() == want, "picture-bytes", [&] { return H::str("picture ", i, f.hundred ? " of CIFAR-100" : " of CIFAR-10", order ? " row-column-channel" : " channel-major"); });
        c.ok(x.idx() == a, "picture-index"); };
    auto label = [&](const CifarLabel& x) {
        c.ok(x.data() == f.at(a)[0] && x.coarse_label() == f.at(a)[0], "coarse-label", [&] { return H::str("label ", i); });
        c.ok(x.fine_label() == (f.hundred ? f.at(a)[1] : 0), "fine-label", [&] { return H::str("label ", i); });
        auto t = f.hundred ? "(" + std::to_string(int(f.at(a)[0])) + "," + std::to_string(int(f.at(a)[1])) + ")" : std::to_string(int(f.at(a)[0]));
        std::ostringstream o; o << x;
        c.ok(x.idx() == a && std::string(x) == t && o.str() == t, "label-text"); };
    switch (c.rng.below(4))
    {
        case 0: image(m.image(i)); c.tag("picture"); break;
        case 1: label(m.label(i)); c.tag("label"); break;
        case 2: { auto x = m[i]; image(x.image); label(x.label); c.tag("item"); break; }
        default:
        {
            auto e = m.entry(i); bool good = e.size() == 3073;
            for (std::size_t k = 0; good && k < 3072; ++k) good = e[k] == want[k];
            c.ok(good && e[3072] == f.at(a)[f.hundred ? 1 : 0], "entry", [&] { return H::str("entry ", i); }); c.tag("entry");
        }
    }
    if (i >= 10000) c.tag("wrapped");
    if (a >= 9990) c.tag("last-records");
    c.tag(order ? "row-column-channel" : "channel-major");
}

/// Brightness of a pixel as the mean of its channels weighted .21/.72/.07.
int grey(int r, int g, int b) { return int(r * 0.21 + g * 0.72 + b * 0.07); }

} // namespace

int main(int argc, char** argv)
{
    return H::run(argc, argv, {
        { "full-batches", 16, 160, [](H::Case& c) {
            Files f(c.rng, c.id % 2, 10000);
            auto m0 = f.open(false), m1 = f.open(true);
            H::u64 h = H::hash_str(f.batch.substr(0, 4096));
            for (int s = 0; s < 300; ++s)
            {
                bool order = c.rng.chance(.5);
                std::size_t i = c.rng.chance(.1) ? c.rng.below(50000) : c.rng.chance(.1) ? 9990 + c.rng.below(10) : c.rng.below(10000);
                check(c, f, order ? *m1 : *m0, order, i); h = H::comb(h, i);
                if (s % 20 == 0) c.nontrivial(h);
            } } },
        { "short-batches", 600, 12000, [](H::Case& c) {
            Files f(c.rng, c.rng.chance(.5), c.rng.size(1, 6));
            auto m0 = f.open(false), m1 = f.open(true);
            H::u64 h = H::hash_str(f.batch.substr(0, 4096));
            for (int s = 0; s < 16; ++s) { bool order = c.rng.chance(.5); auto i = c.rng.below(f.n); if (c.rng.chance(.2)) i += 10000 * c.rng.below(4); check(c, f, order ? *m1 : *m0, order, i); h = H::comb(h, i * 2 + order); }
            for (auto* m: { m0.get(), m1.get() })
            {
                c.ok(m->label_names() == f.wn && m->coarse_label_names() == f.wn, "names", [&] { return f.names; });
                c.ok(m->fine_label_names() == (f.hundred ? f.wf : std::vector<std::string>{}), "fine-names");
                c.ok(m->size() == 10000 && m->entries_amount() == 10000 && m->feature_size() == 3073 && m->labels_idx() == std::set<SizeType>{3072}, "sizes");
                c.ok(m->height() == 32 && m->width() == 32 && m->side() == 32 && m->channels() == 3, "dimensions");
            }
            c.ok(m0->shape() == std::make_tuple(std::size_t(3), std::size_t(32), std::size_t(32)) && m1->shape() == std::make_tuple(std::size_t(32), std::size_t(32), std::size_t(3)), "shape");
            c.tag(f.hundred ? "cifar-100" : "cifar-10"); c.tag("names");
            c.nontrivial(h); c.sample(H::str(f.n, " records, names: ", f.names.substr(0, 60))); } },
        { "brightness", 800, 12000, [](H::Case& c) {
            for (int k = 0; k < 200; ++k)
            {
                int r = int(c.rng.below(256)), g = int(c.rng.below(256)), b = int(c.rng.below(256));
                if (c.rng.chance(.2)) r = g = b = int(c.rng.below(256));
                int v = perception_brightness(std::uint8_t(r), std::uint8_t(g), std::uint8_t(b));
                c.ok(std::abs(v - grey(r, g, b)) <= 1, "brightness-value", [&] { return H::str(r, ",", g, ",", b, " -> ", v); });
                c.ok(v >= std::min({r, g, b}) - 1 && v <= std::max({r, g, b}) + 1, "brightness-range");
                c.nontrivial(H::u64(r << 16 | g << 8 | b));
            }
            c.tag("brightness"); } },
        { "rendering", 200, 4000, [](H::Case& c) {
            Files f(c.rng, c.rng.chance(.5), 1);
            // Grey ramps, flat extremes and saturated pixels among the random ones.
            auto* q = reinterpret_cast<std::uint8_t*>(&f.batch[f.hundred ? 2 : 1]);
            int style = int(c.rng.below(4));
            for (int k = 0; k < 1024; ++k)
            {
                if (style == 1) q[k] = q[k + 1024] = q[k + 2048] = std::uint8_t(k / 4);
                else if (style == 2) for (int ch = 0; ch < 3; ++ch) q[k + 1024 * ch] = c.rng.chance(.5) ? 255 : c.rng.chance(.5) ? 0 : std::uint8_t(c.rng.below(256));
                else if (style == 3) q[k] = q[k + 1024] = q[k + 2048] = std::uint8_t(c.rng.chance(.5) ? 250 + c.rng.below(6) : c.rng.below(6));
            }
            f.fb->write(f.batch);
            std::string s0 = f.open(false)->image(0), s1 = f.open(true)->image(0);
            c.ok(s0 == s1, "rendering-order-independent");
            std::vector<std::string> lines; std::string l;
            for (char ch: s0) if (ch == '\n') { if (!l.empty()) lines.push_back(l); l.clear(); } else l += ch;
            c.must(lines.size() == 32, "rendering-lines", [&] { return H::str(lines.size()); });
            std::size_t w = lines[0].size() / 32;
            std::map<std::string, std::pair<int, int>> range;
            for (std::size_t y = 0; y < 32; ++y)
            {
                c.must(lines[y].size() == 32 * w && w > 0, "rendering-width");
                for (std::size_t x = 0; x < 32; ++x)
                {
                    auto p = f.px(0) + y * 32 + x; int v = grey(p[0], p[1024], p[2048]); auto cell = lines[y].substr(x * w, w);
                    auto it = range.find(cell); if (it == range.end()) range[cell] = { v, v };
                    else { it->second.first = std::min(it->second.first, v); it->second.second = std::max(it->second.second, v); }
                }
            }
            int dark = 255, bright = 0;
            for (auto& a: range)
            {
                dark = std::min(dark, a.second.first); bright = std::max(bright, a.second.second);
                for (char ch: a.first) c.ok(ch >= 32 && ch < 127, "rendering-printable", [&] { return H::str("brightness ", a.second.first, " drawn as character ", int(ch)); });
            }
            if (bright - dark > 200) c.ok(range.size() > 1, "rendering-flat");
            for (auto& a: range) for (auto& b: range) if (a.first != b.first)
                c.ok(a.second.second <= b.second.first + 1 || b.second.second <= a.second.first + 1, "rendering-order", [&] { return a.first + " / " + b.first; });
            c.tag("rendered"); c.nontrivial(H::hash_str(f.batch.substr(0, 64))); } },
    });
}
