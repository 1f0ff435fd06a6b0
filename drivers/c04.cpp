// C04: one-hot and default encodings of random tables against a direct construction.
#include "csvgen.hpp"
#include "parser/csv.hpp"
#include "data/dataset.hpp"
using namespace EdgeLearning;
using LE = DatasetParser::LabelEncoding;

namespace {

/// Any finite double, often one that narrower types do not hold.
double extreme(H::Rng& r)
{
    double v = r.pick({ 9007199254740991., 4503599627370497., 1e300, 5e-324, 2.2250738585072014e-308, 1e-310, 16777217., 4294967297., .1, 1e15 + .125, 1.7976931348623157e308, r.uni(1, 2) * std::pow(10., double(r.range(-307, 307))) });
    return r.chance(.5) ? v : -v;
}

struct Table : public DatasetParser
{
    std::vector<std::vector<double>> rows; std::set<SizeType> labels; SizeType cols = 0;
    std::vector<NumType> entry(SizeType i) override { return rows.at(i); }
    SizeType entries_amount() const override { return rows.size(); }
    SizeType feature_size() const override { return cols; }
    std::set<SizeType> labels_idx() const override { return labels; }
};

void check(H::Case& c, DatasetParser& p, const std::vector<std::vector<double>>& rows, SizeType cols, const std::set<SizeType>& labels)
{
    // Reference layout.
    std::map<SizeType, std::vector<double>> values;
    SizeType width = cols - labels.size(), offset = width;
    for (auto l: labels)
    {
        std::set<double> s; for (auto& r: rows) s.insert(r[l]);
        values[l] = { s.begin(), s.end() };
        width += s.size();
    }
    std::vector<double> want, plain;
    for (auto& r: rows)
    {
        plain.insert(plain.end(), r.begin(), r.end());
        for (SizeType j = 0; j < cols; ++j) if (!labels.count(j)) want.push_back(r[j]);
        for (auto l: labels) for (double v: values[l]) want.push_back(v == r[l] ? 1 : 0);
    }
    std::set<SizeType> pos; for (SizeType j = offset; j < width; ++j) pos.insert(j);

    c.ok(p.encoding_feature_size(LE::ONE_HOT_ENCODING) == width, "one-hot-width", [&] { return H::str(p.encoding_feature_size(LE::ONE_HOT_ENCODING), " instead of ", width); });
    c.ok(p.encoding_labels_idx(LE::ONE_HOT_ENCODING) == pos, "one-hot-label-positions");
    auto d = p.data_to_encoding(LE::ONE_HOT_ENCODING);
    c.ok(d == want, "one-hot-content", [&] { return H::str("rows ", rows.size(), " cols ", cols, " labels ", labels.size(), ": ", H::vstr(d), " instead of ", H::vstr(want)); });
    c.ok(p.encoding_feature_size(LE::DEFAULT_ENCODING) == cols && p.encoding_feature_size() == cols, "default-width");
    c.ok(p.encoding_labels_idx(LE::DEFAULT_ENCODING) == labels && p.encoding_labels_idx() == labels, "default-label-positions");
    c.ok(p.data_to_encoding(LE::DEFAULT_ENCODING) == plain && p.data_to_encoding() == plain, "default-content");

    for (auto enc: { LE::ONE_HOT_ENCODING, LE::DEFAULT_ENCODING })
    {
        bool hot = enc == LE::ONE_HOT_ENCODING;
        auto& w = hot ? want : plain; SizeType wd = hot ? width : cols;
        SizeType seq = c.rng.chance(.6) ? 1 : c.rng.size(1, rows.size());
        auto ds = Dataset<double>::parse(p, enc, seq);
        SizeType n = rows.size() - rows.size() % seq;
        std::vector<double> cut(w.begin(), w.begin() + long(n * wd));
        c.ok(ds.data() == cut, hot ? "dataset-one-hot-content" : "dataset-default-content", [&] { return H::vstr(ds.data()) + " instead of " + H::vstr(cut); });
        c.ok(ds.feature_size() == wd && ds.size() == n && ds.sequence_size() == seq, "dataset-shape");
        { auto li = ds.label_idx(); c.ok(std::set<SizeType>(li.begin(), li.end()) == (hot ? pos : labels) && li.size() == (hot ? pos : labels).size(), "dataset-labels"); }
        for (SizeType k = 0; k < 2; ++k)
        {
            SizeType i = c.rng.below(n);
            std::vector<double> in, lb;
            auto& lp = hot ? pos : labels;
            for (SizeType j = 0; j < wd; ++j) (lp.count(j) ? lb : in).push_back(w[i * wd + j]);
            c.ok(ds.input(i) == in && ds.label(i) == lb, "dataset-input-label");
        }
        c.tag(hot ? "one-hot" : "default");
    }
    if (!labels.empty() && *labels.begin() + labels.size() < cols) c.tag("label-before-input");
    if (labels.size() > 1) c.tag("several-labels");
    c.nontrivial(H::comb(H::hash_vec(plain), labels.size() * 64 + (labels.empty() ? 0 : *labels.begin())));
}

} // namespace

int main(int argc, char** argv)
{
    return H::run(argc, argv, {
        { "tables", 4000, 80000, [](H::Case& c) {
            Table t; t.cols = c.rng.size(1, 12);
            auto n = c.rng.size(1, c.rng.chance(.8) ? 15 : 60);
            for (SizeType j = 0; j < t.cols; ++j) if (c.rng.chance(.35)) t.labels.insert(j);
            if (c.rng.chance(.05)) for (SizeType j = 0; j < t.cols; ++j) t.labels.insert(j);
            std::vector<std::vector<double>> pool(t.cols);
            for (auto& p: pool)
            {
                int style = int(c.rng.below(5));
                for (auto k = c.rng.size(1, 8); k; --k)
                    p.push_back(style == 0 ? double(c.rng.range(0, 9)) : style == 1 ? double(c.rng.range(-20, 20)) : style == 2 ? c.rng.uni(-1, 1) : style == 3 ? c.rng.uni(-1, 1) * 1e9 : extreme(c.rng));
            }
            bool wide = c.rng.chance(.1);
            for (SizeType i = 0; i < n; ++i)
            {
                std::vector<double> r;
                for (SizeType j = 0; j < t.cols; ++j) r.push_back(t.labels.count(j) && !wide ? c.rng.pick(pool[j]) : c.rng.chance(.5) ? c.rng.pick(pool[j]) : c.rng.uni(-5, 5));
                t.rows.push_back(r);
            }
            check(c, t, t.rows, t.cols, t.labels);
            c.sample(H::str("rows ", n, " cols ", t.cols, " label columns ", t.labels.size())); } },
        { "long-tables", 60, 1500, [](H::Case& c) {
            // Hundreds of entries, classes that occur once, late or after long equal runs.
            Table t; t.cols = c.rng.size(1, 4); auto n = c.rng.size(200, 2500);
            for (SizeType j = 0; j < t.cols; ++j) if (c.rng.chance(.6)) t.labels.insert(j);
            if (t.labels.empty()) t.labels.insert(c.rng.below(t.cols));
            for (SizeType i = 0; i < n; ++i)
            {
                t.rows.emplace_back();
                for (SizeType j = 0; j < t.cols; ++j) t.rows.back().push_back(t.labels.count(j) ? double(i * 4 / n) : c.rng.uni(-1, 1));
            }
            for (auto k = c.rng.below(6); k; --k)
                for (auto l: t.labels) t.rows[c.rng.chance(.5) ? n - 1 - c.rng.below(std::min<SizeType>(n, 20)) : c.rng.below(n)][l] = double(c.rng.range(-9, 9)) / 2;
            c.tag("long-table");
            check(c, t, t.rows, t.cols, t.labels); } },
        { "wide-tables", 40, 800, [](H::Case& c) {
            // Hundreds of columns, and label columns with hundreds of classes.
            Table t; t.cols = c.rng.size(20, 300); auto n = c.rng.size(1, 12); double p = c.rng.pick({ .02, .3, .9 });
            for (SizeType j = 0; j < t.cols; ++j) if (c.rng.chance(p)) t.labels.insert(j);
            for (SizeType i = 0; i < n; ++i) { t.rows.emplace_back(); for (SizeType j = 0; j < t.cols; ++j) t.rows.back().push_back(c.rng.chance(.7) ? double(c.rng.range(0, 3)) : c.rng.uni(-9, 9)); }
            c.tag("wide-table"); check(c, t, t.rows, t.cols, t.labels); } },
        { "many-classes", 30, 600, [](H::Case& c) {
            Table t; t.cols = c.rng.size(1, 3); auto n = c.rng.size(200, 700); t.labels.insert(c.rng.below(t.cols)); if (c.rng.chance(.3)) t.labels.insert(c.rng.below(t.cols));
            std::vector<double> cl(c.rng.size(200, n)); for (SizeType i = 0; i < cl.size(); ++i) cl[i] = double(i) * c.rng.pick({ 1., .5 }) - 100; c.rng.shuffle(cl);
            for (SizeType i = 0; i < n; ++i) { t.rows.emplace_back(); for (SizeType j = 0; j < t.cols; ++j) t.rows.back().push_back(t.labels.count(j) ? (i < cl.size() ? cl[i] : c.rng.pick(cl)) : c.rng.uni(-1, 1)); }
            c.tag("many-classes"); check(c, t, t.rows, t.cols, t.labels); } },
        { "huge-tables", 3, 40, [](H::Case& c) {
            // More entries than 16 bits count.
            Table t; t.cols = c.rng.size(2, 3); auto n = c.rng.size(65600, 70000); t.labels.insert(c.rng.below(t.cols));
            for (SizeType i = 0; i < n; ++i) { t.rows.emplace_back(); for (SizeType j = 0; j < t.cols; ++j) t.rows.back().push_back(t.labels.count(j) ? double(c.rng.below(3)) : c.rng.uni(-1, 1)); }
            t.rows[c.rng.chance(.5) ? n - 1 : c.rng.below(n)][*t.labels.begin()] = 7;
            c.tag("huge-table"); check(c, t, t.rows, t.cols, t.labels); } },
        { "thousands-of-classes", 3, 40, [](H::Case& c) {
            Table t; t.cols = c.rng.size(1, 2); auto n = c.rng.size(1100, 1800); t.labels.insert(c.rng.below(t.cols));
            std::vector<double> cl(n - c.rng.below(40)); for (SizeType i = 0; i < cl.size(); ++i) cl[i] = double(i) - 300; c.rng.shuffle(cl);
            for (SizeType i = 0; i < n; ++i) { t.rows.emplace_back(); for (SizeType j = 0; j < t.cols; ++j) t.rows.back().push_back(t.labels.count(j) ? (i < cl.size() ? cl[i] : c.rng.pick(cl)) : c.rng.uni(-1, 1)); }
            c.tag("thousands-of-classes"); check(c, t, t.rows, t.cols, t.labels); } },
        { "csv-files", 600, 12000, [](H::Case& c) {
            auto g = G::csv(c.rng, c.rng.chance(.5) ? G::NUMERIC : G::MIXED, 25, 8, .2);
            if (g.rows() < 2) { g.lines.push_back(g.lines[0]); g.fields.push_back(g.fields[0]); g.final_newline = true; }
            H::TmpFile f(g.text(), ".csv");
            std::set<SizeType> labels; for (SizeType j = 0; j < g.cols; ++j) if (c.rng.chance(.4)) labels.insert(j);
            CSV csv(f.path(), { TypeChecker::Type::AUTO }, g.sep, labels);
            std::vector<std::vector<double>> rows;
            for (SizeType i = 1; i < g.rows(); ++i) { rows.emplace_back(); for (SizeType j = 0; j < g.cols; ++j) rows.back().push_back(G::num(G::at(g, i, j))); }
            check(c, csv, rows, g.cols, labels); } },
        { "exhaustive-label-sets", 5, 5, [](H::Case& c) {
            // Every subset of label columns of every width up to 5, two-valued cells.
            SizeType cols = c.id + 1;
            for (unsigned m = 0; m < (1u << cols); ++m)
            {
                Table t; t.cols = cols;
                for (SizeType j = 0; j < cols; ++j) if (m >> j & 1) t.labels.insert(j);
                for (unsigned i = 0; i < 4; ++i) { t.rows.emplace_back(); for (SizeType j = 0; j < cols; ++j) t.rows.back().push_back(double((i * (j + 1)) % 3) - 1); }
                check(c, t, t.rows, cols, t.labels);
                c.tag("label-set");
            } } },
    });
}
