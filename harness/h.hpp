// Common part of all monitors: seeded cases, verdict recording, evidence.
//
// A driver is a list of scenarios; a scenario is a function run for a number
// of cases, each with its own generator derived from (seed, scenario, case).
// Violations, observed events and distinct non-trivial cases are written to a
// result file that check.py reads. A case that dies (sanitizer report, abort,
// CPU-time overrun) is attributed through the status file, and check.py
// restarts the driver behind it.
#ifndef VERIF_H_HPP
#define VERIF_H_HPP

#include <atomic>
#include <algorithm>
#include <cmath>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cxxabi.h>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <sys/stat.h>
#include <sys/time.h>
#include <typeinfo>
#include <unistd.h>
#include <unordered_set>
#include <vector>

#if defined(__SANITIZE_ADDRESS__) || defined(__SANITIZE_THREAD__)
extern "C" void __sanitizer_set_death_callback(void (*)(void));
#define VERIF_SAN 1
#endif

namespace H {

using u64 = std::uint64_t;

inline u64 mix(u64 x)
{
    x += 0x9E3779B97F4A7C15ULL;
    x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ULL;
    x = (x ^ (x >> 27)) * 0x94D049BB133111EBULL;
    return x ^ (x >> 31);
}
inline u64 hash_bytes(const void* p, std::size_t n, u64 h = 1469598103934665603ULL)
{
    auto c = static_cast<const unsigned char*>(p);
    for (std::size_t i = 0; i < n; ++i) h = (h ^ c[i]) * 1099511628211ULL;
    return mix(h);
}
inline u64 hash_str(const std::string& s) { return hash_bytes(s.data(), s.size()); }
template<class T> u64 hash_vec(const std::vector<T>& v)
{ return hash_bytes(v.data(), v.size() * sizeof(T), 77 + v.size()); }
inline u64 comb(u64 a, u64 b) { return mix(a * 31 + b); }

class Rng
{
public:
    explicit Rng(u64 seed = 1) : _s(mix(seed)) {}
    u64 next() { return mix(_s++); }
    /// In [0, n).
    u64 below(u64 n) { return n ? next() % n : 0; }
    /// In [a, b].
    long range(long a, long b) { return a + long(below(u64(b - a + 1))); }
    std::size_t size(std::size_t a, std::size_t b) { return std::size_t(range(long(a), long(b))); }
    /// Mostly in [a, b]; now and then far above, up to z.
    std::size_t far(std::size_t a, std::size_t b, std::size_t z, double p = .01) { return chance(p) ? size(b, z) : size(a, b); }
    double uni() { return double(next() >> 11) * (1.0 / 9007199254740992.0); }
    double uni(double a, double b) { return a + (b - a) * uni(); }
    bool chance(double p) { return uni() < p; }
    double normal()
    {
        double u = uni(), v = uni();
        if (u < 1e-300) u = 1e-300;
        return std::sqrt(-2 * std::log(u)) * std::cos(6.283185307179586 * v);
    }
    template<class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
    template<class T> T pick(std::initializer_list<T> v) { return *(v.begin() + long(below(v.size()))); }
    std::vector<double> vec(std::size_t n, double a, double b)
    { std::vector<double> r(n); for (auto& x: r) x = uni(a, b); return r; }
    template<class T> void shuffle(std::vector<T>& v)
    { for (std::size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[below(i)]); }
private:
    u64 _s;
};

/// All of 0..n-1, or `most` of them with the first and the last.
inline std::vector<std::size_t> some(Rng& r, std::size_t n, std::size_t most)
{
    std::vector<std::size_t> v;
    if (n <= most) { for (std::size_t i = 0; i < n; ++i) v.push_back(i); return v; }
    v = { 0, n - 1 }; while (v.size() < most) v.push_back(std::size_t(r.below(n)));
    return v;
}

struct Result
{
    std::map<std::string, u64> tags;
    std::unordered_set<u64> distinct;
    std::vector<std::string> samples;
    u64 evals = 0, viols = 0, checks = 0;
};
inline Result& result() { static Result r; return r; }

inline std::string jesc(const std::string& s)
{
    std::string o;
    for (unsigned char c: s)
    {
        if (c == '"' || c == '\\') { o += '\\'; o += char(c); }
        else if (c < 32 || c > 126)
        { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += char(c);
    }
    return o;
}

struct Options
{
    u64 seed = 1; std::string out, status, scratch = "/tmp", only, tier = "quick";
    u64 shard = 0, shards = 1, start = 0; double scale = 1;
    std::string hashes() const { return out + ".hashes"; }
};
inline Options& opt() { static Options o; return o; }
inline FILE*& outf() { static FILE* f = nullptr; return f; }

struct Abandon {};

/// One executed case: the generator, and where verdicts and coverage go.
class Case
{
public:
    Case(std::string sc, u64 id, u64 seed) : rng(seed), scenario(std::move(sc)), id(id) {}
    Rng rng;
    std::string scenario;
    u64 id;
    bool failed = false;

    void fail(const std::string& key, const std::string& msg)
    {
        failed = true;
        auto& r = result();
        if (++r.viols <= 200 && outf())
        {
            std::fprintf(outf(), "{\"t\":\"viol\",\"scenario\":\"%s\",\"case\":%llu,"
                "\"key\":\"%s\",\"msg\":\"%s\"}\n", jesc(scenario).c_str(),
                (unsigned long long) id, jesc(key).c_str(),
                jesc(msg.substr(0, 1500)).c_str());
            std::fflush(outf());
        }
    }
    /// The oracle's comparison: counts, and records a violation if false.
    template<class F> bool ok(bool cond, const char* key, F&& msg)
    {
        ++result().checks;
        if (!cond) fail(key, msg());
        return cond;
    }
    bool ok(bool cond, const char* key)
    { return ok(cond, key, [] { return std::string(); }); }
    /// As ok, but gives the case up at the first violation.
    template<class F> void must(bool cond, const char* key, F&& msg)
    { if (!ok(cond, key, msg)) throw Abandon{}; }
    void must(bool cond, const char* key) { if (!ok(cond, key)) throw Abandon{}; }

    void nontrivial(u64 h) { result().distinct.insert(comb(h, hash_str(scenario))); }
    void tag(const std::string& t, u64 n = 1) { result().tags[t] += n; }
    void sample(const std::string& s)
    { if (result().samples.size() < 4 && !_sampled) { _sampled = true; result().samples.push_back(scenario + "#" + std::to_string(id) + ": " + s.substr(0, 400)); } }
private:
    bool _sampled = false;
};

struct Scenario
{
    std::string name;
    u64 quick, thorough;           ///< Numbers of cases.
    std::function<void(Case&)> run;
};

inline void flush_result()
{
    static bool done = false;
    if (done || !outf()) return;
    done = true;
    auto& r = result();
    std::fprintf(outf(), "{\"t\":\"sum\",\"evals\":%llu,\"checks\":%llu,\"viols\":%llu,\"tags\":{",
        (unsigned long long) r.evals, (unsigned long long) r.checks, (unsigned long long) r.viols);
    bool first = true;
    for (auto& t: r.tags)
    {
        std::fprintf(outf(), "%s\"%s\":%llu", first ? "" : ",", jesc(t.first).c_str(),
            (unsigned long long) t.second);
        first = false;
    }
    std::fprintf(outf(), "},\"samples\":[");
    first = true;
    for (auto& s: r.samples)
    { std::fprintf(outf(), "%s\"%s\"", first ? "" : ",", jesc(s).c_str()); first = false; }
    std::fprintf(outf(), "]}\n");
    std::fflush(outf());
    if (FILE* f = std::fopen(opt().hashes().c_str(), "ab"))
    {
        for (u64 h: r.distinct) std::fwrite(&h, 8, 1, f);
        std::fclose(f);
    }
}

inline double cpu_limit = 60;   ///< CPU seconds one case may use.
inline void on_cpu(int)
{
    static const char m[] = "{\"t\":\"hang\"}\n";
    if (outf()) { ssize_t n = ::write(fileno(outf()), m, sizeof m - 1); (void) n; }
    _exit(97);
}

inline std::string demangle(const char* n)
{
    int st = 0; char* d = abi::__cxa_demangle(n, nullptr, nullptr, &st);
    std::string r = d ? d : n; std::free(d); return r;
}

inline int run(int argc, char** argv, const std::vector<Scenario>& scenarios)
{
    auto& o = opt();
    for (int i = 1; i + 1 < argc; i += 2)
    {
        std::string k = argv[i], v = argv[i + 1];
        if (k == "--seed") o.seed = std::strtoull(v.c_str(), nullptr, 10);
        else if (k == "--out") o.out = v;
        else if (k == "--status") o.status = v;
        else if (k == "--scratch") o.scratch = v;
        else if (k == "--only") o.only = v;
        else if (k == "--tier") o.tier = v;
        else if (k == "--shard") o.shard = std::strtoull(v.c_str(), nullptr, 10);
        else if (k == "--shards") o.shards = std::strtoull(v.c_str(), nullptr, 10);
        else if (k == "--start") o.start = std::strtoull(v.c_str(), nullptr, 10);
        else if (k == "--scale") o.scale = std::atof(v.c_str());
    }
    if (o.out.empty()) { outf() = fdopen(dup(1), "w"); }
    else outf() = std::fopen(o.out.c_str(), "a");
    // The code under test prints; its output is not part of the verdict.
    int null = ::open("/dev/null", O_WRONLY); ::dup2(null, 1);
    int st = o.status.empty() ? -1 : ::open(o.status.c_str(), O_WRONLY | O_CREAT, 0600);
#ifdef VERIF_SAN
    __sanitizer_set_death_callback(flush_result);
#endif
    std::signal(SIGVTALRM, on_cpu);

    std::string only_sc; u64 only_case = 0; bool only_all = false;
    if (!o.only.empty())
    {
        auto p = o.only.rfind(':');
        only_sc = o.only.substr(0, p);
        only_case = std::strtoull(o.only.c_str() + p + 1, nullptr, 10); only_all = o.only.substr(p + 1) == "all";
    }
    u64 g = 0;
    for (auto& s: scenarios)
    {
        u64 n = o.tier == "thorough" ? s.thorough : s.quick;
        n = n && o.scale != 1 ? std::max<u64>(1, u64(double(n) * o.scale)) : n;
        for (u64 j = 0; j < n; ++j)
        {
            u64 me = g++;
            if (!only_sc.empty()) { if (s.name != only_sc || (only_all ? false : j != only_case)) continue; }
            else if (me % o.shards != o.shard || me < o.start) continue;
            if (st >= 0)
            {
                char b[128]; std::memset(b, ' ', sizeof b);
                std::snprintf(b, sizeof b, "%llu %s %llu", (unsigned long long) me,
                    s.name.c_str(), (unsigned long long) j);
                ssize_t w = ::pwrite(st, b, sizeof b, 0); (void) w;
            }
            itimerval tv{}; tv.it_value.tv_sec = long(cpu_limit);
            setitimer(ITIMER_VIRTUAL, &tv, nullptr);
            ++result().evals;
            Case c(s.name, j, comb(o.seed, comb(hash_str(s.name), j)));
            try { s.run(c); }
            catch (const Abandon&) {}
            catch (const std::exception& e)
            {
                c.fail(std::string("unexpected-exception:") + demangle(typeid(e).name()),
                    e.what());
            }
            catch (...) { c.fail("unexpected-exception:unknown", ""); }
            result().tags["case:" + s.name]++;
        }
    }
    itimerval off{}; setitimer(ITIMER_VIRTUAL, &off, nullptr);
    flush_result();
    std::fflush(outf());
    return 0;
}

// ---- helpers for oracles --------------------------------------------------

template<class... A> std::string str(A&&... a)
{ std::ostringstream o; o.precision(17); (void) std::initializer_list<int>{((o << a), 0)...}; return o.str(); }

inline std::string vstr(const std::vector<double>& v, std::size_t max = 24)
{
    std::ostringstream o; o.precision(17); o << "[";
    for (std::size_t i = 0; i < v.size() && i < max; ++i) o << (i ? "," : "") << v[i];
    if (v.size() > max) o << ",...(" << v.size() << ")";
    o << "]"; return o.str();
}

/// |a-b| within rel*max(|a|,|b|,floor); equal infinities and NaN==NaN accepted.
inline bool close(double a, double b, double rel = 1e-9, double floor_ = 1e-6)
{
    if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
    if (a == b) return true;
    if (std::isinf(a) || std::isinf(b)) return false;
    return std::fabs(a - b) <= rel * std::max(std::max(std::fabs(a), std::fabs(b)), floor_);
}
/// Identical value (bitwise except for the sign of zero).
inline bool same(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); }

/// A buffer between two zones of canaries (writes outside are seen even when
/// they are not adjacent, which red zones miss).
template<class T> class Guarded
{
public:
    Guarded(std::size_t n, T fill = T(-12345.5)) : _n(n), _v(n + 2 * Z, T(77.25))
    { for (std::size_t i = 0; i < n; ++i) _v[Z + i] = fill; }
    Guarded(const std::vector<T>& s) : Guarded(s.size())
    { std::copy(s.begin(), s.end(), _v.begin() + Z); }
    T* data() { return _v.data() + Z; }
    T& operator[](std::size_t i) { return _v[Z + i]; }
    std::vector<T> vec() const { return std::vector<T>(_v.begin() + Z, _v.begin() + long(Z + _n)); }
    bool intact() const
    {
        for (std::size_t i = 0; i < Z; ++i)
            if (_v[i] != T(77.25) || _v[Z + _n + i] != T(77.25)) return false;
        return true;
    }
private:
    static const std::size_t Z = 512;
    std::size_t _n;
    std::vector<T> _v;
};

/// Unique file in the scratch directory, removed at the end of the scope.
class TmpFile
{
public:
    TmpFile(const std::string& content, const std::string& suffix = "")
    {
        static std::atomic<u64> n{0};
        _p = opt().scratch + "/f" + std::to_string(getpid()) + "_" + std::to_string(n++) + suffix;
        write(content);
    }
    void write(const std::string& content)
    {
        FILE* f = std::fopen(_p.c_str(), "wb");
        if (!f) { std::perror("scratch"); _exit(96); }
        if (!content.empty() && std::fwrite(content.data(), 1, content.size(), f) != content.size()) _exit(96);
        std::fclose(f);
    }
    ~TmpFile() { ::unlink(_p.c_str()); }
    const std::string& path() const { return _p; }
    std::string read() const
    { std::ifstream f(_p, std::ios::binary); std::stringstream s; s << f.rdbuf(); return s.str(); }
private:
    std::string _p;
};

template<class F> bool throws(F&& f)
{ try { f(); } catch (const std::exception&) { return true; } return false; }

} // namespace H

#endif
