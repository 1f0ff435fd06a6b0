// C03: iteration, column types, dataset entries and distinct values of a CSV.
#include "csvgen.hpp"
#include "parser/csv.hpp"
#include <memory>
using namespace EdgeLearning;
using T = TypeChecker::Type;

namespace {

std::vector<T> inferred(const G::Csv& g)
{
    std::vector<T> r;
    for (std::size_t j = 0; j < g.cols; ++j) r.push_back(g.rows() > 1 ? T(G::type_of(G::at(g, 1, j))) : T::NONE);
    return r;
}
std::string tstr(const std::vector<T>& v) { std::string s; for (auto t: v) s += std::to_string(int(t)) + " "; return s; }

void same_types(H::Case& c, CSV& csv, const std::vector<T>& want, const char* key)
{ c.ok(csv.types() == want, key, [&] { return tstr(csv.types()) + " instead of " + tstr(want); }); }

void walk(H::Case& c, const G::Csv& g, CSV& csv)
{
    // Forward traversals with every form of increment.
    for (int form = 0; form < 3; ++form)
    {
        std::size_t i = 1;
        auto e = csv.end();
        for (auto it = csv.begin(); it != e; )
        {
            if (i >= g.rows()) { c.fail("visits-too-many", H::str("position ", i, " of ", g.rows())); break; }
            auto& row = *it;
            c.ok(row.line() == g.lines[i] && row.idx() == i, "traversal-row",
                [&] { return H::str("position ", i, " shows row ", row.idx(), " '", row.line(), "'"); });
            c.ok(it->size() == g.cols, "traversal-row-size");
            if (form == 0) ++it; else if (form == 1) it++; else { CSVIterator k(it); c.ok((*k).line() == g.lines[i], "copied-position"); ++it; }
            ++i; c.tag("visited");
        }
        c.ok(i == std::max<std::size_t>(g.rows(), 1), "visits-all", [&] { return H::str("stopped at ", i, " of ", g.rows()); });
    }
    std::size_t n = 0;
    for (auto& row: csv) { ++n; c.ok(n < g.rows() && row.line() == g.lines[n], "range-for", [&] { return H::str(n); }); if (n >= g.rows()) break; }
    c.ok(n + 1 == std::max<std::size_t>(g.rows(), 1), "range-for-count");
    // Backward traversal.
    if (g.rows() > 1)
    {
        auto it = csv.end();
        for (std::size_t i = g.rows() - 1; ; --i)
        {
            if (c.rng.chance(.5)) --it; else it--;
            c.ok((*it).line() == g.lines[i] && it->idx() == i, "backward-row", [&] { return H::str("position ", i); });
            if (i == 1) break;
        }
        c.ok(it == csv.begin(), "backward-reaches-begin");
    }
}

void random_walk(H::Case& c, const G::Csv& g, CSV& csv)
{
    struct I { std::unique_ptr<CSVIterator> it; std::size_t pos; };
    std::vector<I> its;
    its.push_back({std::make_unique<CSVIterator>(csv.begin()), 1});
    H::u64 h = 5;
    for (int s = 0; s < 60; ++s)
    {
        auto k = c.rng.below(its.size());
        auto op = c.rng.below(9);
        if (op < 3 && its[k].pos < g.rows()) { for (auto n = c.rng.below(4) + 1; n && its[k].pos < g.rows(); --n) { ++*its[k].it; ++its[k].pos; } }
        else if (op < 6 && its[k].pos > 0) { for (auto n = c.rng.below(4) + 1; n && its[k].pos > 0; --n) { --*its[k].it; --its[k].pos; } }
        else if (op == 6 && its.size() < 4) { its.push_back({std::make_unique<CSVIterator>(*its[k].it), its[k].pos}); c.tag("iterator-copy"); }
        else if (op == 7 && its[k].pos < g.rows())
        { auto old = (*its[k].it)++; ++its[k].pos; if (its[k].pos - 1 < g.rows()) c.ok((*old).line() == g.lines[its[k].pos - 1], "post-increment"); }
        else if (op == 8 && its[k].pos > 0)
        { auto old = (*its[k].it)--; --its[k].pos; if (its[k].pos + 1 < g.rows()) c.ok((*old).line() == g.lines[its[k].pos + 1], "post-decrement"); }
        auto& x = its[k];
        if (x.pos < g.rows())
        {
            if (c.rng.chance(.5)) c.ok((*x.it)->idx() == x.pos && (*x.it)->line() == g.lines[x.pos], "moved-row-member",
                [&] { return H::str("position ", x.pos, " shows ", (*x.it)->idx()); });
            c.ok((**x.it).line() == g.lines[x.pos] && (*x.it)->idx() == x.pos, "moved-row",
                [&] { return H::str("position ", x.pos, " shows ", (*x.it)->idx(), " '", (**x.it).line(), "'"); });
            auto& row = **x.it; auto j = c.rng.below(std::min(g.cols, g.fields[x.pos].size()));
            c.ok(row.size() == g.cols && row[j].as<std::string>() == g.fields[x.pos][j], "moved-field", [&] { return H::str("position ", x.pos, " column ", j, " shows '", row[j].as<std::string>(), "'"); });
            c.tag("moved");
        }
        auto& y = its[c.rng.below(its.size())];
        c.ok((*x.it == *y.it) == (x.pos == y.pos) && (*x.it != *y.it) == (x.pos != y.pos), "iterator-equality");
        h = H::comb(h, x.pos * 16 + op);
    }
    c.nontrivial(H::comb(h, H::hash_str(g.text())));
}

void entries(H::Case& c, const G::Csv& g, CSV& csv)
{
    std::size_t n = g.rows() - 1;
    c.ok(csv.entries_amount() == n, "entries-amount", [&] { return H::str(csv.entries_amount(), " instead of ", n); });
    c.ok(csv.feature_size() == g.cols, "feature-size");
    std::vector<std::size_t> order(n);
    for (std::size_t i = 0; i < n; ++i) order[i] = i;
    c.rng.shuffle(order);
    if (n) for (int k = 0; k < 5; ++k) order.push_back(c.rng.below(n));
    for (auto i: order)
    {
        auto e = csv.entry(i);
        c.must(e.size() == g.cols, "entry-size", [&] { return H::str(e.size()); });
        for (std::size_t j = 0; j < g.cols; ++j)
            c.ok(e[j] == G::num(G::at(g, i + 1, j)), "entry-value",
                [&] { return H::str("entry ", i, " column ", j, " '", G::at(g, i + 1, j), "' read as ", e[j]); });
        c.tag("entry");
    }
    for (int k = 0; k < 2 && n; ++k)
    {
        auto j = c.rng.below(g.cols);
        std::set<double> want;
        for (std::size_t i = 1; i <= n; ++i) want.insert(G::num(G::at(g, i, j)));
        auto u = csv.unique(j);
        c.ok(u == want, "unique", [&] { return H::str("column ", j, ": ", u.size(), " instead of ", want.size()); });
        auto m = csv.unique_map(j);
        std::size_t rank = 0; bool good = m.size() == want.size();
        for (double w: want) { auto it = m.find(w); good = good && it != m.end() && it->second == rank++; }
        c.ok(good, "unique-map", [&] { return H::str("column ", j); });
        c.tag("unique");
    }
}

} // namespace

int main(int argc, char** argv)
{
    return H::run(argc, argv, {
        { "iteration", 4000, 60000, [](H::Case& c) {
            auto g = G::csv(c.rng, c.rng.chance(.5) ? G::ANY : G::MIXED, 50, 20, .5);
            H::TmpFile f(g.text(), ".csv");
            CSV csv(f.path(), { T::AUTO }, g.sep);
            walk(c, g, csv); random_walk(c, g, csv);
            c.sample(H::str("rows=", g.rows(), " cols=", g.cols)); } },
        { "types", 12000, 200000, [](H::Case& c) {
            auto g = G::csv(c.rng, c.rng.chance(.5) ? G::ANY : G::MIXED, 25, 20, .5);
            H::TmpFile f(g.text(), ".csv");
            static const std::vector<T> all = { T::FLOAT, T::INT, T::BOOL, T::STRING };
            std::vector<T> decl, want = inferred(g);
            switch (c.rng.below(5))
            {
                case 0: decl = { T::AUTO }; break;
                case 1: break;
                case 2: for (std::size_t j = 0; j < g.cols; ++j) decl.push_back(c.rng.pick(all)); want = decl; c.tag("declared"); break;
                case 3: for (std::size_t j = 0; j < g.cols; ++j) decl.push_back(c.rng.pick(all)); decl[c.rng.below(g.cols)] = T::AUTO; c.tag("partly-declared"); break;
                default: for (std::size_t j = 0, n = g.cols + (c.rng.chance(.5) ? 1 : g.cols > 1 ? std::size_t(-1) : 2); j < n; ++j) decl.push_back(c.rng.pick(all)); c.tag("wrong-count");
            }
            CSV csv(f.path(), decl, g.sep);
            same_types(c, csv, want, "types-at-open");
            std::unique_ptr<CSV> copy;
            if (c.rng.chance(.5)) copy = std::make_unique<CSV>(csv);
            for (int k = 0; k < 8; ++k)
            {
                auto i = c.rng.below(g.rows());
                CSVRow row = csv[i];
                c.ok(row.types() == want, "row-types", [&] { return H::str("row ", i, ": ", tstr(row.types()), " instead of ", tstr(want)); });
                auto j = c.rng.below(std::min(g.cols, g.fields[i].size()));
                c.ok(row[j].type() == want[j], "field-type");
                if (c.rng.chance(.3)) (void) csv.to_mat<std::string>();
                if (c.rng.chance(.2) && g.rows() > 1) { auto it = csv.begin(); (void) *it; c.ok(it->types() == want, "iterator-types"); }
                if (c.rng.chance(.2) && g.rows() > 1) (void) csv.unique(0);
                same_types(c, csv, want, "types-after-read");
            }
            c.ok(csv.header().types() == want, "header-types");
            if (copy) { same_types(c, *copy, want, "types-of-copy"); c.ok((*copy)[0].types() == want, "row-types-of-copy"); }
            c.nontrivial(H::comb(H::hash_str(g.text()), decl.size())); } },
        { "entries", 8000, 150000, [](H::Case& c) {
            auto g = G::csv(c.rng, c.rng.chance(.4) ? G::NUMERIC : G::MIXED, 50, 20, .4);
            if (c.rng.chance(.3) && g.rows() > 2)   // few distinct values
                for (std::size_t i = 1; i < g.rows(); ++i)
                {
                    g.lines[i].clear(); g.fields[i].assign(g.cols, "");
                    for (std::size_t j = 0; j < g.cols; ++j)
                    { g.fields[i][j] = c.rng.pick({ "1", "1.0", "2", "-3", "0", "-0", "2e0" }); g.lines[i] += (j ? std::string(1, g.sep) : "") + g.fields[i][j]; }
                }
            H::TmpFile f(g.text(), ".csv");
            std::set<SizeType> labels; for (std::size_t j = 0; j < g.cols; ++j) if (c.rng.chance(.3)) labels.insert(j);
            CSV csv(f.path(), { T::AUTO }, g.sep, labels);
            c.ok(csv.labels_idx() == labels, "labels");
            entries(c, g, csv);
            CSV copy(csv); c.ok(copy.labels_idx() == labels, "labels-of-copy"); entries(c, g, copy);
            if (c.rng.chance(.4))
            {
                // A reader of another file, used before it is assigned.
                auto o = G::csv(c.rng, G::NUMERIC, 50, 20, .2); H::TmpFile of(o.text(), ".csv");
                std::set<SizeType> ol; for (std::size_t j = 0; j < o.cols; ++j) if (c.rng.chance(.3)) ol.insert(j);
                CSV other(of.path(), { T::AUTO }, o.sep, ol);
                auto i = c.rng.below(std::min(o.rows(), g.rows())); (void) other[i]; (void) csv[i];
                other = csv; c.ok(other[i].line() == g.lines[i], "row-of-assigned", [&] { return H::str("row ", i, " '", other[i].line(), "'"); });
                c.ok(other.labels_idx() == labels && other.types() == csv.types(), "labels-of-assigned"); entries(c, g, other); c.tag("assigned-reader");
            }
            c.nontrivial(H::hash_str(g.text()));
            c.sample(g.text()); } },
        { "wide", 60, 800, [](H::Case& c) {
            auto g = G::csv(c.rng, G::MIXED, 8, 3000, .3);
            H::TmpFile f(g.text(), ".csv");
            CSV csv(f.path(), { T::AUTO }, g.sep);
            same_types(c, csv, inferred(g), "types-at-open"); walk(c, g, csv); entries(c, g, csv); same_types(c, csv, inferred(g), "types-after-read");
            c.tag("wide"); c.nontrivial(H::hash_str(g.text())); } },
        { "tall", 2, 20, [](H::Case& c) {
            G::Csv g; g.sep = ','; g.cols = 2; auto n = 66000 + c.rng.below(3000);
            for (std::size_t i = 0; i < n; ++i) { std::string l = i ? H::str(i * 7 % 100003, ",", i) : "a,b"; g.lines.push_back(l); g.fields.push_back(G::split(l, ',')); }
            H::TmpFile f(g.text(), ".csv"); CSV csv(f.path());
            std::size_t i = 0; for (auto& row: csv) { ++i; if (!c.ok(i < n && row.line() == g.lines[i] && row.idx() == i, "range-for", [&] { return H::str(i); })) return; }
            c.ok(i + 1 == n && csv.entries_amount() == n - 1, "visits-all", [&] { return H::str("stopped at ", i, " of ", n); });
            auto it = csv.begin(), far = csv.begin(); for (std::size_t k = 1; k < 65537; ++k) ++far;
            c.ok(it != far && !(it == far) && (*far).line() == g.lines[65537], "far-iterator"); (void) *it; for (std::size_t k = 1; k < 65537; ++k) ++it; c.ok(it == far && (*it).line() == g.lines[65537], "far-iterator");
            for (int k = 0; k < 8; ++k) { auto e = c.rng.below(n - 1); if (k % 2) e %= 65536, e = e + 65536 < n - 1 ? e + 65536 : e; auto v = csv.entry(e); c.ok(v.size() == 2 && v[0] == double((e + 1) * 7 % 100003) && v[1] == double(e + 1), "entry-value", [&] { return H::str("entry ", e); });
                if (e >= 65536) { v = csv.entry(e - 65536); c.ok(v.size() == 2 && v[1] == double(e - 65535), "entry-value"); } }
            c.tag("tall"); c.nontrivial(n); } },
        { "long-files", 60, 1500, [](H::Case& c) {
            auto g = G::csv(c.rng, G::MIXED, 800, 8, .2);
            H::TmpFile f(g.text(), ".csv");
            CSV csv(f.path(), { T::AUTO }, g.sep);
            walk(c, g, csv); entries(c, g, csv);
            c.nontrivial(H::hash_str(g.text())); } },
    });
}
