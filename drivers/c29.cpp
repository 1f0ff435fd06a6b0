// C29: stopwatch, profiler and profile datasets under a clock whose every advance is known.
#include "h.hpp"
#include "profile_dataset.hpp"
#include <chrono>
#include <unistd.h>
#include <sys/stat.h>

// The clock of this program: time passes only when a workload says so.
static thread_local long long g_now = 1000000000000LL;
namespace std { namespace chrono { inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept { return time_point(duration(nanoseconds(g_now))); }
steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(nanoseconds(g_now))); }
} } }

namespace {
namespace sfs = std::filesystem;

struct Muted
{
    std::ostringstream out, err; std::streambuf *a, *b;
    Muted() : a(std::cout.rdbuf(out.rdbuf())), b(std::cerr.rdbuf(err.rdbuf())) {}
    ~Muted() { std::cout.rdbuf(a); std::cerr.rdbuf(b); }
};
std::vector<std::string> lines(const sfs::path& p)
{
    std::ifstream f(p); std::vector<std::string> r; std::string l;
    while (std::getline(f, l)) r.push_back(l);
    return r;
}
bool near(double a, double b, double rel) { return a == b || std::fabs(a - b) <= rel * std::max(std::fabs(a), std::fabs(b)) + 1e-9; }
/// A number as the stream wrote it: at least six significant digits.
bool written(const std::string& s, double v)
{
    char* e = nullptr; double x = std::strtod(s.c_str(), &e);
    return !s.empty() && !*e && std::fabs(x - v) <= 5.001e-6 * std::fabs(v) + 1e-12;
}
long long advance(H::Rng& r)
{
    static const long long scale[] = { 900, 50000, 3000000, 900000000, 5000000000LL, 4000000000000LL };
    long long d = r.chance(.05) ? 0 : r.chance(.2) ? r.pick({ 1LL, 999LL, 1000LL, 1001LL, 999999LL, 1000000LL, 999999999LL, 1000000000LL }) : (long long) (r.uni() * double(scale[r.below(6)]));
    g_now += d; return d;
}

struct Stats { double mean, median, dev; };
Stats stats(std::vector<double> d)
{
    long double s = 0; for (auto x: d) s += x;
    long double m = s / d.size(), q = 0; for (auto x: d) q += (x - m) * (x - m);
    std::sort(d.begin(), d.end());
    return { double(m), d[(d.size() - 1) / 2], double(std::sqrt(q / d.size())) };
}

template<class D> void stopwatch(H::Case& c)
{
    auto& r = c.rng;
    const long long unit = std::chrono::duration_cast<std::chrono::nanoseconds>(D(1)).count();
    advance(r); EdgeLearning::Stopwatch<D> sw; long long origin = g_now; std::vector<double> d;
    std::string log; H::u64 h = H::u64(unit);
    sfs::path file = "watch.txt"; sfs::remove(file); std::vector<std::string> expect_head; std::vector<double> dumped; std::string head; bool exists = false;
    for (std::size_t k = 0, n = r.far(1, 40, 1500); k < n; ++k)
    {
        auto op = r.below(12);
        if (op < 6)
        {
            advance(r); auto& ret = sw.click(); c.ok(&ret == &sw, "click-return");
            d.push_back(double((g_now - origin) / unit)); log += "click "; c.tag("click");
            c.ok(sw.duration() == d.back(), "duration", [&] { return H::str(sw.duration(), " instead of ", d.back(), " after ", log); });
            h = H::comb(h, H::u64(d.back()));
        }
        else if (op < 8) { advance(r); auto& ret = sw.restart(); c.ok(&ret == &sw, "restart-return"); origin = g_now; log += "restart "; c.tag("restart"); }
        else if (op == 8 && r.chance(.5)) { advance(r); sw.reset(); origin = g_now; d.clear(); log += "reset "; c.tag("reset"); }
        else if (op == 9)
        {
            std::string hd = r.pick({ "time", "data", "a,b" }); sw.dump(file, hd); if (!exists) head = hd; exists = true;
            dumped.insert(dumped.end(), d.begin(), d.end()); log += "dump "; c.tag("dump");
            auto l = lines(file);
            c.ok(l.size() == dumped.size() + 1 && !l.empty() && l[0] == head, "dump-lines", [&] { return H::str(l.size(), " lines instead of ", dumped.size() + 1, " after ", log); });
            for (std::size_t i = 0; i < dumped.size() && i + 1 < l.size(); ++i) c.ok(written(l[i + 1], dumped[i]), "dump-value", [&] { return H::str("line ", i, " '", l[i + 1], "' instead of ", dumped[i]); });
        }
        else if (op == 10 && r.chance(.3)) { c.ok(H::throws([&] { sw.dump("no/such/directory/f.txt"); }) && H::throws([&] { sw.dump("."); }), "dump-to-nowhere"); c.tag("dump-rejected"); }
        if (d.empty()) c.ok(sw.duration() < 0, "no-duration", [&] { return H::str(sw.duration()); });
        else
        {
            auto s = stats(d);
            c.ok(near(sw.mean(), s.mean, 1e-12), "mean", [&] { return H::str(sw.mean(), " instead of ", s.mean, " after ", log); });
            c.ok(sw.median() == s.median, "median", [&] { return H::str(sw.median(), " instead of ", s.median, " after ", log); });
            c.ok(std::fabs(sw.std() - s.dev) <= 1e-9 * (s.dev + s.mean) + 1e-9, "deviation", [&] { return H::str(sw.std(), " instead of ", s.dev, " after ", log); });
            c.ok(sw.duration() == d.back(), "duration-changed", [&] { return log; });
            if (d.size() > 1) c.tag(d.size() % 2 ? "odd-count" : "even-count");
        }
    }
    sfs::remove(file); c.nontrivial(h); c.sample(log);
}

/// Hundreds or thousands of clicks, looked at afterwards only.
void clicks(H::Case& c)
{
    auto& r = c.rng; EdgeLearning::Stopwatch<std::chrono::nanoseconds> sw; std::vector<double> d; auto n = r.chance(.05) ? r.size(65600, 66000) : r.size(400, 4000); auto base = r.chance(.4) ? (long long) (r.uni() * 4e12) : 0LL;
    for (std::size_t i = 0; i < n; ++i) { sw.restart(); auto t = (long long) (r.uni() * 5000); g_now += base + t; sw.click(); d.push_back(double(base + t)); }
    auto s = stats(d); long double q = 0; for (auto x: d) q += x - d[0]; double m = double(q / d.size()) + d[0];
    c.ok(near(sw.mean(), m, 1e-11), "mean", [&] { return H::str(sw.mean(), " instead of ", m); });
    c.ok(sw.median() == s.median, "median", [&] { return H::str(sw.median(), " instead of ", s.median, " of ", n); });
    c.ok(std::fabs(sw.std() - s.dev) <= 1e-6 * s.dev + 1e-14 * s.mean * std::sqrt(double(n)), "deviation", [&] { return H::str(sw.std(), " instead of ", s.dev, " with mean ", s.mean); });
    sfs::path file = "clicks.txt"; sfs::remove(file); sw.dump(file, "time"); auto l = lines(file);
    c.ok(l.size() == n + 1, "dump-lines", [&] { return H::str(l.size(), " lines for ", n, " durations"); });
    for (std::size_t i = 0; i + 1 < l.size() && i < n; ++i) c.ok(written(l[i + 1], d[i]), "dump-value", [&] { return H::str("line ", i, " '", l[i + 1], "' instead of ", d[i]); });
    sfs::remove(file); c.tag("many-clicks"); c.nontrivial(H::hash_vec(d));
}

/// "12.5 us" as nanoseconds.
double pretty(const std::string& n, const std::string& u)
{
    double x = std::strtod(n.c_str(), nullptr);
    return u == "ns" ? x : u == "us" ? x * 1e3 : u == "ms" ? x * 1e6 : u == "sec" ? x * 1e9 : u == "min" ? x * 6e10 : -1;
}

void profiler(H::Case& c)
{
    auto& r = c.rng; std::string log; H::u64 h = 11;
    std::string dir = r.pick({ "prof", "a/b/prof", "" }), real = dir.empty() ? "profiler" : dir;
    sfs::remove_all(real); SizeType tries = r.chance(.003) ? r.size(1000, 5000) : r.far(1, 12, 300);
    if (r.chance(.1)) { { std::ofstream f("plain-file"); } c.ok(H::throws([&] { Profile p(1, "plain-file"); }), "file-as-directory"); sfs::remove("plain-file"); c.tag("not-a-directory"); }
    if (r.chance(.3)) sfs::create_directories(real);
    Profile p(tries, dir);
    c.ok(p.num_tries() == tries && sfs::is_directory(real), "directory", [&] { return real; });
    std::map<std::string, std::vector<double>> want;
    for (std::size_t k = 0, n = r.size(1, 6); k < n; ++k)
    {
        std::string name = r.pick({ "x", "y", "long_name_1x2" }); bool own = r.chance(.5); SizeType m = own ? r.chance(.003) ? r.size(1000, 5000) : r.far(1, 15, 400) : tries; if (m >= 1000) c.tag("thousand-tries");
        std::vector<SizeType> calls; std::vector<double> took; SizeType fail = r.chance(.25) ? r.below(m) : m; std::string out;
        auto f = [&](SizeType i) { calls.push_back(i); if (i == fail) { advance(r); throw std::runtime_error("planned"); } took.push_back(double(advance(r))); };
        bool threw = false;
        {
            Muted mute; advance(r);
            try { if (own) p.profile("message of " + name, f, m, name); else p.profile("message of " + name, f, name); } catch (const std::runtime_error&) { threw = true; }
            out = mute.out.str();
        }
        bool order = calls.size() == std::min(fail + 1, m); for (std::size_t i = 0; i < calls.size(); ++i) order = order && calls[i] == i;
        c.ok(order, "calls", [&] { return H::str(calls.size(), " of ", m, log); });
        c.ok(threw == (fail < m), "exception", [&] { return log; });
        c.ok(out.find("message of " + name) != std::string::npos, "message", [&] { return out; });
        log += H::str(" ", name, "*", m, fail < m ? "!" : "");
        if (fail < m) { c.tag("failed-run"); continue; }
        auto& w = want[name]; w.insert(w.end(), took.begin(), took.end()); c.tag(own ? "own-count" : "default-count");
        auto s = stats(took); std::istringstream in(out.substr(out.find("completed") == std::string::npos ? out.size() : out.find("completed")));
        std::string w0, w1, mn, mu, w2, dn, du, w3, sn, su; in >> w0 >> w1 >> mn >> mu >> w2 >> dn >> du >> w3 >> sn >> su;
        c.ok(w1 == "mean:" && near(pretty(mn, mu), s.mean, 1e-5 + 1.01 / std::max(1., s.mean)) && w2 == "median:" && near(pretty(dn, du), s.median, 1e-5 + 1.01 / std::max(1., s.median)) && w3 == "std:" && near(pretty(sn, su), s.dev, 1e-5 + 1.01 / std::max(1., s.dev)),
            "report", [&] { return H::str(out, " instead of mean ", s.mean, " median ", s.median, " std ", s.dev); });
        h = H::comb(h, H::hash_vec(took));
    }
    std::size_t files = 0;
    for (auto& e: sfs::directory_iterator(real)) { ++files; auto stem = e.path().stem().string(); c.ok(want.count(stem) && e.path().extension() == ".csv", "foreign-file", [&] { return e.path().string() + " after" + log; }); }
    c.ok(files == want.size(), "files", [&] { return log; });
    for (auto& e: want)
    {
        auto l = lines(sfs::path(real) / (e.first + ".csv"));
        bool good = l.size() == e.second.size() + 1 && l[0] == "time"; for (std::size_t i = 0; good && i < e.second.size(); ++i) good = written(l[i + 1], e.second[i]);
        c.ok(good, "file-content", [&] { return H::str(e.first, ": ", l.size(), " lines for ", e.second.size(), " runs after", log); });
    }
    sfs::remove_all(dir == "a/b/prof" ? "a" : real);
    double lo = r.uni(-100, 100), hi = lo + r.uni(0, 50); for (int i = 0; i < 20; ++i) { auto x = p.rnd().get(lo, hi); c.ok(x >= lo - 1e-12 * 200 && x <= hi + 1e-12 * 200, "random-range", [&] { return H::str(x, " outside ", lo, ",", hi); }); }
    c.nontrivial(h); c.sample(real + log);
}

/// What a profiled network was asked to do.
struct Call { char what; std::size_t model; std::vector<double> data; OptimizerType o; SizeType e, b; double lr; std::size_t layers; };
std::vector<Call> g_calls; std::size_t g_models; H::Rng* g_rng; std::vector<double> g_took;
struct Fake
{
    struct Result { double loss = 1, accuracy = .25, accuracy_perc = 25, error_rate = .75, error_rate_perc = 75; };
    std::size_t id, layers;
    Fake(const NeuralNetworkDescriptor& l, std::string) : id(g_models++), layers(l.size()) {}
    void fit(Dataset<NumType>& d, OptimizerType o, SizeType e, SizeType b, NumType lr, RneType::result_type = 0) { advance(*g_rng); g_calls.push_back({ 'f', id, d.data(), o, e, b, lr, layers }); }
    Result evaluate(Dataset<NumType>& d) { advance(*g_rng); g_calls.push_back({ 'e', id, d.data(), {}, 0, 0, 0, layers }); return {}; }
    Dataset<NumType> predict(Dataset<NumType>& d) { advance(*g_rng); g_calls.push_back({ 'p', id, d.data(), {}, 0, 0, 0, layers }); return d; }
};

void networks(H::Case& c)
{
    auto& r = c.rng; sfs::remove_all("nn"); ProfileNN p(3, "nn"); g_rng = &r; H::u64 h = 7; std::map<std::string, std::size_t> want;
    for (std::size_t k = 0, n = r.size(1, 6); k < n; ++k)
    {
        g_calls.clear(); g_models = 0;
        auto data = [&] { std::vector<double> f(3 * r.size(1, 6)); for (auto& x: f) x = r.uni(-1, 1); return Dataset<NumType>(f, 3, 1, { 2 }); };
        auto a = data(), b = data(), d = data(); NeuralNetworkDescriptor l{ Input{ "in", 2 }, Dense{ "out", 1, ActivationType::Linear } };
        auto o = r.chance(.5) ? OptimizerType::ADAM : OptimizerType::GRADIENT_DESCENT; SizeType e = r.below(9), bs = r.size(1, 9), it = r.size(1, 7); double lr = r.uni();
        std::string name = r.pick({ "t1", "t2", "t3" }), shape; int kind = int(r.below(4));
        auto a0 = a.data(), b0 = b.data(), d0 = d.data();
        {
            Muted mute;
            if (kind == 0) { p.training<Fake>("i", name, it, a, b, l, o, e, bs, lr); c.tag("training"); }
            else if (kind == 1) { p.predict<Fake>("i", name, it, a, l, o, e, bs, lr); c.tag("prediction"); }
            else if (kind == 2) { p.testing<Fake>("i", name, it, a, b, l, o, e, bs, lr); c.tag("testing"); }
            else { p.training_testing<Fake>("i", name, it, a, b, d, l, o, e, bs, lr); c.tag("training-testing"); }
        }
        want[name] += it;
        std::vector<std::pair<char, const std::vector<double>*>> expect; auto x = a.inputs().data();
        if (kind == 1 || kind == 2) expect.push_back({ 'f', &a0 });
        for (SizeType i = 0; i < it; ++i)
        {
            if (kind == 0 || kind == 3) expect.push_back({ 'f', &a0 });
            if (kind == 1) expect.push_back({ 'p', &x }); else expect.push_back({ 'e', &b0 });
            if (kind == 3) expect.push_back({ 'e', &d0 });
        }
        bool good = expect.size() == g_calls.size(); std::size_t model = std::size_t(-1);
        for (std::size_t i = 0; good && i < expect.size(); ++i)
        {
            auto& q = g_calls[i]; good = q.what == expect[i].first && q.data == *expect[i].second && q.layers == l.size();
            if (q.what == 'f') { good = good && q.model != model && q.o == o && q.e == e && q.b == bs && q.lr == lr; model = q.model; }
            good = good && q.model == model;
        }
        c.ok(good, "network-calls", [&] { std::string s; for (auto& q: g_calls) s += q.what; return H::str("kind ", kind, " iterations ", it, ": ", s); });
        h = H::comb(h, H::hash_vec(a0)); h = H::comb(h, H::u64(kind * 100 + it));
    }
    for (auto& e: want) c.ok(lines(sfs::path("nn") / (e.first + ".csv")).size() == e.second + 1, "network-file");
    sfs::remove_all("nn"); c.nontrivial(h);
}

std::string be(std::uint32_t v) { return { char(v >> 24), char(v >> 16), char(v >> 8), char(v) }; }
void put(const std::string& f, const std::string& s) { std::ofstream o("datadir/data/" + f, std::ios::binary); o << s; }

/// Profile datasets: __FILE__ of the profile headers is mapped to datadir/profile in the scratch directory.
void datasets(H::Case& c)
{
    auto& r = c.rng; sfs::remove_all("datadir"); sfs::create_directories("datadir/profile"); sfs::create_directories("datadir/data");
    auto check_eval = [&](const ProfileDataset::Info& i) {
        auto n = SizeType(double(i.train.size()) * .1);
        c.ok((i.evaluation.size() == n || i.evaluation.size() == n + 1) && std::equal(i.evaluation.data().begin(), i.evaluation.data().end(), i.train.data().begin()), "evaluation-part", [&] { return H::str(i.evaluation.size(), " of ", i.train.size()); }); };
    if (r.chance(.6))
    {
        auto n = r.size(10, 300); std::string t = "integration_step,coord0,coord1,coord2,coord3,exec_time\n"; std::vector<std::vector<double>> rows;
        for (std::size_t i = 0; i < n; ++i) { rows.emplace_back(); for (int j = 0; j < 6; ++j) { rows.back().push_back(double(r.range(-90, 90000))); t += std::to_string(long(rows.back().back())) + (j < 5 ? "," : "\n"); } }
        put("execution-time.csv", t); Muted m; ProfileDataset pd(ProfileDataset::Type::CSV_EXECUTION_TIME); auto i = pd.load_dataset();
        std::vector<double> all; for (auto& q: rows) all.insert(all.end(), q.begin(), q.end());
        auto got = i.train.data(); got.insert(got.end(), i.test.data().begin(), i.test.data().end());
        auto share = SizeType(double(n) * .8);
        c.ok(got == all && (i.train.size() == share || i.train.size() + 1 == share || i.train.size() == share + 1), "csv-parts", [&] { return H::str(i.train.size(), "+", i.test.size(), " of ", n); });
        c.ok(i.train.label_idx() == std::vector<SizeType>{ 4 } && i.input_shape.shapes()[0].size() == 5, "csv-labels"); check_eval(i); c.ok(std::string(pd) == "execution_time", "dataset-name");
        c.tag("csv-dataset"); c.nontrivial(H::hash_vec(all));
    }
    else
    {
        std::vector<std::vector<double>> px[2]; std::vector<int> lab[2];
        for (int s = 0; s < 2; ++s)
        {
            auto n = r.size(10, 25); std::string im = be(0x803) + be(std::uint32_t(n)) + be(28) + be(28), lb = be(0x801) + be(std::uint32_t(n));
            for (std::size_t i = 0; i < n; ++i) { px[s].emplace_back(); for (int k = 0; k < 784; ++k) { auto v = std::uint8_t(r.next()); im += char(v); px[s].back().push_back(v); } auto l = i < 10 ? int(i) : int(r.below(10)); lab[s].push_back(l); lb += char(l); }
            put(s ? "t10k-images.idx3-ubyte" : "train-images.idx3-ubyte", im); put(s ? "t10k-labels.idx1-ubyte" : "train-labels.idx1-ubyte", lb);
        }
        Muted m; ProfileDataset pd(ProfileDataset::Type::MNIST); auto i = pd.load_dataset();
        for (int s = 0; s < 2; ++s)
        {
            auto& d = s ? i.test : i.train; bool good = d.size() == px[s].size() && d.feature_size() == 794;
            for (std::size_t k = 0; good && k < px[s].size(); ++k) { auto e = d.entry(k); for (int q = 0; good && q < 784; ++q) good = std::fabs(e[q] - px[s][k][q] / 255) < 1e-15; for (int q = 0; good && q < 10; ++q) good = e[784 + q] == (lab[s][k] == q); }
            c.ok(good, s ? "mnist-test" : "mnist-train", [&] { return H::str(d.size(), " of ", px[s].size()); });
            c.ok(d.label_idx().size() == 10, "mnist-labels");
        }
        check_eval(i); c.ok(i.input_shape.size() == 784 && std::string(pd) == "mnist", "mnist-shape"); c.tag("mnist-dataset"); c.nontrivial(H::hash_vec(px[0][0]));
    }
    sfs::remove_all("datadir");
}
}

int main(int argc, char** argv)
{
    return H::run(argc, argv, {
        { "stopwatch-ns", 3000, 60000, stopwatch<EdgeLearning::Nanoseconds> },
        { "stopwatch-us", 1500, 30000, stopwatch<EdgeLearning::Microseconds> },
        { "stopwatch-ms", 1500, 30000, stopwatch<EdgeLearning::Milliseconds> },
        { "stopwatch-s", 1000, 20000, stopwatch<EdgeLearning::Seconds> },
        { "clicks", 60, 1500, clicks },
        { "profiler", 3000, 60000, profiler },
        { "networks", 1500, 30000, networks },
        { "datasets", 300, 6000, datasets },
    });
}
