// C02: rows and fields of CSV readers against the text of the file, under
// random access histories over several readers of the same and other files.
#include "csvgen.hpp"
#include "parser/csv.hpp"
#include <memory>
using namespace EdgeLearning;

namespace {

void check_row(H::Case& c, const G::Csv& g, const CSVRow& row, std::size_t i)
{
    c.ok(row.line() == g.lines[i] && std::string(row) == g.lines[i], "row-text",
        [&] { return H::str("row ", i, " is '", row.line(), "' instead of '", g.lines[i], "'"); });
    c.ok(row.idx() == i, "row-index", [&] { return H::str("row ", i, " has index ", row.idx()); });
    c.ok(row.size() == g.cols && !row.empty(), "row-size", [&] { return H::str(row.size(), " instead of ", g.cols); });
    auto want = [&](std::size_t j) { return G::at(g, i, j); };
    for (int k = 0; k < 3; ++k)
    {
        std::size_t j = c.rng.below(g.cols + 2);
        if (j < g.cols && j < g.fields[i].size())
        {
            auto f = row[j];
            c.ok(f.as<std::string>() == want(j), "field-text", [&] { return H::str("row ", i, " col ", j, ": '", f.as<std::string>(), "' instead of '", want(j), "'"); });
            c.ok(f.idx() == j, "field-index");
            c.tag("field");
        }
        else
        {
            c.ok(H::throws([&] { (void) row[j]; }), "missing-column-returned", [&] { return H::str("row ", i, " col ", j, " of ", g.fields[i].size(), "/", g.cols); });
            c.tag(j < g.cols ? "missing-column" : "column-out-of-range");
        }
    }
    if (c.rng.chance(.3))
    {
        std::vector<std::string> v = row;
        std::vector<CSVField> fs = row;
        c.ok(v.size() == g.cols && fs.size() == g.cols, "row-vector-size");
        for (std::size_t j = 0; j < g.cols && j < v.size() && j < fs.size(); ++j)
        {
            c.ok(v[j] == want(j), "row-vector", [&] { return H::str("row ", i, " col ", j, ": '", v[j], "'"); });
            c.ok(fs[j].as<std::string>() == want(j) && fs[j].idx() == j, "row-fields");
        }
        std::ostringstream o; o << row;
        c.ok(o.str() == g.lines[i], "row-stream");
    }
}

void views(H::Case& c, const G::Csv& g, CSV& csv)
{
    c.ok(csv.rows_size() == g.rows(), "row-count", [&] { return H::str(csv.rows_size(), " instead of ", g.rows()); });
    c.ok(csv.cols_size() == g.cols, "column-count", [&] { return H::str(csv.cols_size(), " instead of ", g.cols); });
    check_row(c, g, csv.header(), 0);
    std::vector<std::string> lines = csv;
    c.ok(lines == g.lines, "lines-view");
    std::vector<CSVRow> rows = csv;
    c.ok(rows.size() == g.rows(), "rows-view-size");
    for (std::size_t i = 0; i < rows.size() && i < g.rows(); ++i)
        c.ok(rows[i].line() == g.lines[i] && rows[i].idx() == i, "rows-view", [&] { return H::str(i); });
    auto m = csv.to_mat<std::string>();
    c.ok(m.size() == g.rows(), "matrix-view-size");
    for (std::size_t i = 0; i < m.size() && i < g.rows(); ++i)
        for (std::size_t j = 0; j < g.cols; ++j)
            c.ok(m[i].size() == g.cols && m[i][j] == G::at(g, i, j), "text-matrix", [&] { return H::str(i, ",", j); });
}

void numeric_views(H::Case& c, const G::Csv& g, CSV& csv)
{
    auto m = csv.to_mat<double>();
    auto v = csv.to_vec<double>();
    c.must(m.size() == g.rows() && v.size() == g.rows() * g.cols, "numeric-view-size");
    for (std::size_t i = 0; i < g.rows(); ++i)
    {
        c.must(m[i].size() == g.cols, "numeric-view-size");
        for (std::size_t j = 0; j < g.cols; ++j)
        {
            double w = G::num(G::at(g, i, j));
            c.ok(m[i][j] == w, "numeric-matrix", [&] { return H::str(i, ",", j, " '", G::at(g, i, j), "' read as ", m[i][j]); });
            c.ok(v[i * g.cols + j] == w, "numeric-vector", [&] { return H::str(i, ",", j); });
        }
    }
    auto b = csv.to_mat<bool>();
    for (std::size_t i = 0; i < g.rows(); ++i)
        for (std::size_t j = 0; j < g.cols; ++j)
            c.ok(b[i][j] == G::boolean(G::at(g, i, j)), "bool-matrix", [&] { return H::str(i, ",", j); });
    auto i0 = c.rng.below(g.rows());
    auto rd = csv[i0].to_vec<double>();
    for (std::size_t j = 0; j < g.cols && j < g.fields[i0].size(); ++j)
    {
        c.ok(rd[j] == G::num(G::at(g, i0, j)), "row-numeric-vector");
        if (G::type_of(G::at(g, i0, j)) == 1 || G::type_of(G::at(g, i0, j)) == 2)
            c.ok(csv[i0][j].as<double>() == G::num(G::at(g, i0, j)), "field-number");
    }
    c.tag("numeric-views");
}

/// Types as declared by nobody: those of the first data row.
void types(H::Case& c, const G::Csv& g, const CSV& csv)
{
    auto t = csv.types(); bool good = t.size() == g.cols;
    for (std::size_t j = 0; good && j < g.cols; ++j) good = int(t[j]) == (g.rows() > 1 ? G::type_of(G::at(g, 1, j)) : -1);
    c.ok(good, "types");
}

void history(H::Case& c, int steps, std::size_t max_rows, std::size_t long_rows = 0, std::size_t wide = 0)
{
    struct Reader { std::unique_ptr<CSV> csv; std::size_t file; };
    struct Held { std::unique_ptr<CSVRow> row; std::size_t reader_uid, file, i; };
    std::vector<G::Csv> g;
    std::vector<std::unique_ptr<H::TmpFile>> files;
    for (int i = 0; i < 2; ++i)
    {
        g.push_back(G::csv(c.rng, c.rng.chance(.5) ? G::ANY : G::MIXED, max_rows, wide ? wide : long_rows ? 8 : 40, .5, long_rows));
        files.push_back(std::make_unique<H::TmpFile>(g.back().text(), ".csv"));
    }
    std::vector<Reader> rd;
    auto open = [&](std::size_t f) {
        return std::make_unique<CSV>(files[f]->path(), std::vector<TypeChecker::Type>{TypeChecker::Type::AUTO}, g[f].sep); };
    rd.push_back({open(0), 0});
    H::u64 hist = H::hash_str(g[0].text());
    std::string log;
    for (int s = 0; s < steps; ++s)
    {
        std::size_t k = c.rng.below(rd.size());
        auto& r = rd[k];
        auto& gg = g[r.file];
        auto op = c.rng.below(20);
        if (op < 11)
        {
            std::size_t i = c.rng.chance(.15) ? c.rng.below(gg.rows() * 4 + 3) : c.rng.below(gg.rows());
            if (c.rng.chance(.05)) i += gg.rows() * 1000003;
            check_row(c, gg, (*r.csv)[i], i % gg.rows());
            if (i >= gg.rows()) c.tag("wrapped");
            hist = H::comb(hist, i * 8 + k);
            log += H::str("r", k, "[", i, "] ");
        }
        else if (op == 11 && rd.size() < 5)
        { rd.push_back({std::make_unique<CSV>(*r.csv), r.file}); c.tag("copy"); log += H::str("copy", k, " "); }
        else if (op == 12 && rd.size() < 5)
        { auto f = c.rng.below(2); rd.push_back({open(f), f}); log += "open "; }
        else if (op == 13 && rd.size() > 1)
        {
            std::size_t d = c.rng.below(rd.size());
            auto i = c.rng.below(std::min(g[rd[d].file].rows(), gg.rows())); bool both = c.rng.chance(.5); auto from = rd[k].file;
            if (both) { check_row(c, g[rd[d].file], (*rd[d].csv)[i], i); check_row(c, gg, (*r.csv)[i], i); }
            *rd[d].csv = *rd[k].csv; if (both) check_row(c, g[from], (*rd[d].csv)[i], i);
            rd[d].file = rd[k].file; c.tag("assign"); types(c, g[rd[d].file], *rd[d].csv); log += H::str("assign", d, "=", k, " ");
        }
        else if (op == 14 && rd.size() > 1)
        { rd.erase(rd.begin() + long(k)); c.tag("destroy"); log += H::str("destroy", k, " "); }
        else if (op == 15) { views(c, gg, *r.csv); log += "views "; }
        else if (op == 16)
        {
            // Rows stay what they were when the reader moves on.
            auto i = c.rng.below(gg.rows()), j = c.rng.below(gg.rows());
            CSVRow a = (*r.csv)[i]; CSVRow b = (*r.csv)[j];
            check_row(c, gg, a, i); check_row(c, gg, b, j);
            c.ok((a == b) == (gg.lines[i] == gg.lines[j]) && (a != b) == (gg.lines[i] != gg.lines[j]), "row-equality");
            a = b; check_row(c, gg, a, j);
        }
        else { check_row(c, gg, r.csv->header(), 0); }
    }
    for (auto& r: rd) { views(c, g[r.file], *r.csv); }
    c.nontrivial(hist);
    c.sample(H::str("rows=", g[0].rows(), " cols=", g[0].cols, " history: ", log));
}

} // namespace

int main(int argc, char** argv)
{
    return H::run(argc, argv, {
        { "access-histories", 8000, 150000, [](H::Case& c) { history(c, 30, 60); } },
        { "long-files", 400, 6000, [](H::Case& c) { history(c, 30, 400); } },
        { "long-rows", 600, 8000, [](H::Case& c) {
            history(c, 12, 12, 200000);
            c.tag("long-row"); } },
        { "wide", 60, 1000, [](H::Case& c) { history(c, 12, 8, 0, 3000); c.tag("wide"); } },
        { "tall", 3, 40, [](H::Case& c) {
            // More rows than a narrow counter holds; rows a power of two apart one after the other.
            G::Csv g; g.sep = ';'; g.cols = c.rng.size(1, 3); auto n = 132000 + c.rng.below(3000);
            for (std::size_t i = 0; i < n; ++i) { std::string l = i ? H::str(i * 7 % 100003) : "head"; for (std::size_t j = 1; j < g.cols; ++j) l += H::str(";", j + i); g.lines.push_back(l); g.fields.push_back(G::split(l, ';')); }
            H::TmpFile f(g.text(), ".csv"); CSV csv(f.path(), { TypeChecker::Type::AUTO }, g.sep);
            auto i = c.rng.below(n);
            for (int k = 0; k < 14; ++k) { check_row(c, g, csv[i], i % n); auto d = std::size_t(1) << (k < 4 ? 16 : k < 6 ? 15 : c.rng.range(5, 17)); i = c.rng.chance(.5) && i >= d ? i - d : i + d < n ? i + d : c.rng.below(2 * n); }
            if (c.id == 0) { views(c, g, csv); numeric_views(c, g, csv); } else { c.ok(csv.rows_size() == n, "row-count"); std::vector<std::string> lines = csv; c.ok(lines == g.lines, "lines-view"); }
            c.nontrivial(i); c.tag("tall"); } },
        { "numeric-views", 5000, 80000, [](H::Case& c) {
            auto g = G::csv(c.rng, c.rng.chance(.3) ? G::NUMERIC : G::MIXED, 60, 30, .4);
            H::TmpFile f(g.text(), ".csv");
            CSV csv(f.path(), { TypeChecker::Type::AUTO }, g.sep);
            views(c, g, csv); numeric_views(c, g, csv);
            c.nontrivial(H::hash_str(g.text()));
            c.sample(g.text()); } },
        { "standalone-rows", 10000, 100000, [](H::Case& c) {
            auto g = G::csv(c.rng, G::ANY, 3, 20, .0);
            std::size_t i = c.rng.below(g.rows());
            std::vector<TypeChecker::Type> types;
            CSVRow row(g.lines[i], i, types, g.sep);
            c.ok(row.size() == g.fields[i].size(), "standalone-size");
            check_row(c, g, row, i);
            c.must(types.size() == g.cols, "standalone-types-size");
            for (std::size_t j = 0; j < g.cols; ++j)
            {
                c.ok(int(types[j]) == G::type_of(g.fields[i][j]), "standalone-type", [&] { return g.fields[i][j]; });
                c.ok(row[j].type() == types[j], "field-type");
            }
            c.nontrivial(H::hash_str(g.lines[i])); } },
        { "exhaustive-small-files", 64, 64, [](H::Case& c) {
            // All files of up to 5 characters over {a, separator, newline} (and every access to them).
            static const char al[] = "a,\n1";
            for (int len = 1; len <= 5; ++len)
            {
                int total = 1; for (int k = 0; k < len; ++k) total *= 4;
                for (int n = int(c.id); n < total; n += 64)
                {
                    std::string t; for (int k = 0, m = n; k < len; ++k, m /= 4) t += al[m % 4];
                    G::Csv g; g.sep = ',';
                    std::string l; for (char ch: t) if (ch == '\n') { g.lines.push_back(l); l.clear(); } else l += ch;
                    g.final_newline = l.empty(); if (!l.empty()) g.lines.push_back(l);
                    for (auto& x: g.lines) g.fields.push_back(G::split(x, ','));
                    g.cols = g.fields[0].size();
                    H::TmpFile f(t); CSV csv(f.path());
                    views(c, g, csv);
                    for (std::size_t i = 0; i < 2 * g.rows() + 1; ++i) check_row(c, g, csv[2 * g.rows() - i], (2 * g.rows() - i) % g.rows());
                    c.nontrivial(H::hash_str(t)); c.tag("small-file");
                }
            } } },
    });
}
