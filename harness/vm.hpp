// Runtime-monitoring support for the drivers in this directory.
//
// A driver defines suites with VM_SUITE(name, quick_cases, thorough_cases) { ... } ; the body runs once per case with a
// generator `r` that depends only on (seed, suite, case index). Oracles call vm::require / vm::violate, which record and
// keep going; what was observed is reported through vm::count / vm::distinct / vm::sample. Every line of the report goes
// to the file given by --out, which run.py merges. Sanitizer reports, aborts and hangs end the process; the case that was
// running is written out first.
#pragma once
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <map>
#include <mutex>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>
#include <sys/time.h>
#include <unistd.h>
#if defined(__SANITIZE_ADDRESS__) || defined(__SANITIZE_THREAD__)
#include <sanitizer/common_interface_defs.h>
#endif
namespace vm
{
inline uint64_t mix(uint64_t x)
{
    x += 0x9e3779b97f4a7c15ull;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
    return x ^ (x >> 31);
}
inline uint64_t fnv(const std::string& s, uint64_t h = 0xcbf29ce484222325ull)
{
    for (unsigned char c : s)
    {
        h = (h ^ c) * 0x100000001b3ull;
    }
    return h;
}
struct rng
{
    uint64_t s;
    using result_type = uint64_t;
    explicit rng(uint64_t x) : s(x) {}
    static constexpr uint64_t min() { return 0; }
    static constexpr uint64_t max() { return ~0ull; }
    uint64_t operator()()
    {
        s += 0x9e3779b97f4a7c15ull;
        uint64_t x = s;
        x          = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
        x          = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
        return x ^ (x >> 31);
    }
    // uniform in [0, n)
    uint64_t below(uint64_t n) { return n == 0 ? 0 : (*this)() % n; }
    // uniform in [lo, hi]
    int64_t range(int64_t lo, int64_t hi)
    {
        return static_cast<int64_t>(static_cast<uint64_t>(lo) + below(static_cast<uint64_t>(hi) - static_cast<uint64_t>(lo) + 1));
    }
    double unit() { return static_cast<double>((*this)() >> 11) * 0x1.0p-53; }
    double real(double lo, double hi) { return lo + (hi - lo) * unit(); }
    bool   chance(unsigned pct) { return below(100) < pct; }
    template <typename C>
    auto& pick(C& c)
    {
        return c[below(c.size())];
    }
    template <typename T>
    T one_of(std::initializer_list<T> l)
    {
        return *(l.begin() + below(l.size()));
    }
    // integers with a bias to boundaries of the type's range
    template <typename T>
    T boundary(T lo, T hi)
    {
        switch (below(6))
        {
            case 0: return lo;
            case 1: return hi;
            case 2: return static_cast<T>(range(static_cast<int64_t>(lo), std::min<int64_t>(static_cast<int64_t>(hi), static_cast<int64_t>(lo) + 3)));
            case 3: return static_cast<T>(range(std::max<int64_t>(static_cast<int64_t>(lo), static_cast<int64_t>(hi) - 3), static_cast<int64_t>(hi)));
            default: return static_cast<T>(range(static_cast<int64_t>(lo), static_cast<int64_t>(hi)));
        }
    }
};
struct suite
{
    const char*               name;
    long                      quick, thorough;
    std::function<void(rng&)> fn;
    long                      cpu_limit;
};
inline std::vector<suite>& suites()
{
    static std::vector<suite> s;
    return s;
}
struct reg
{
    reg(const char* n, long q, long t, std::function<void(rng&)> f, long cpu = 40)
    {
        suites().push_back({n, q, t, std::move(f), cpu});
    }
};
struct state
{
    std::mutex                                mx;
    FILE*                                     out{stdout};
    std::map<std::string, long>               counts;
    std::map<std::string, std::unordered_set<uint64_t>> seen;
    std::map<std::string, int>                viol;
    int                                       samples{0};
    const char*                               cur_suite{""};
    long                                      cur_case{-1};
    uint64_t                                  seed{1};
    bool                                      thorough{false};
    bool                                      verbose{false};
    char                                      note[4000]{};
};
inline state& st()
{
    static state* s = new state;
    return *s;
}
inline bool thorough() { return st().thorough; }
inline void count(const std::string& n, long k = 1)
{
    std::lock_guard g(st().mx);
    st().counts[n] += k;
}
// records that a distinct, non-trivial behaviour (identified by h) was observed
inline void distinct(uint64_t h)
{
    std::lock_guard g(st().mx);
    auto&           s = st().seen[st().cur_suite];
    if (s.size() < 400000)
    {
        s.insert(h);
    }
}
inline void distinct(const std::string& s) { distinct(fnv(s)); }
inline std::string oneline(const std::string& s)
{
    std::string r;
    for (char c : s)
    {
        if (c == '\n')
        {
            r += "\\n";
        }
        else if (c == '\t')
        {
            r += "\\t";
        }
        else
        {
            r += c;
        }
        if (r.size() > 3000)
        {
            break;
        }
    }
    return r;
}
inline void sample(const std::string& s)
{
    std::lock_guard g(st().mx);
    if (st().samples < 3)
    {
        ++st().samples;
        fprintf(st().out, "SAMPLE\t%s#%ld: %s\n", st().cur_suite, st().cur_case, oneline(s).substr(0, 400).c_str());
    }
}
// what the current case is doing; printed if the process dies in it
inline void note(const std::string& s)
{
    std::strncpy(st().note, oneline(s).c_str(), sizeof(st().note) - 1);
    if (st().verbose)
    {
        fprintf(stderr, "[%s#%ld] %s\n", st().cur_suite, st().cur_case, st().note);
    }
}
// key: stable class of the violation (used for deduplication and for the known-findings file)
inline void violate(const std::string& key, const std::string& detail)
{
    std::lock_guard g(st().mx);
    if (++st().viol[key] <= 3)
    {
        fprintf(st().out, "VIOL\t%s\t%s\t%ld\t%s\n", key.c_str(), st().cur_suite, st().cur_case, oneline(detail).c_str());
        fflush(st().out);
    }
}
template <typename F>
inline bool require(bool ok, const char* key, F&& detail)
{
    if (!ok)
    {
        if constexpr (std::is_invocable_v<F>)
        {
            violate(key, detail());
        }
        else
        {
            violate(key, detail);
        }
    }
    return ok;
}
template <typename... A>
std::string cat(const A&... a)
{
    std::ostringstream o;
    o.precision(17);
    (o << ... << a);
    return o.str();
}
template <typename C>
std::string list(const C& c)
{
    std::ostringstream o;
    o.precision(17);
    o << "[";
    bool f = true;
    for (const auto& x : c)
    {
        o << (f ? "" : ",") << +x;
        f = false;
    }
    o << "]";
    return o.str();
}
inline void die(const char* why)
{
    auto& s = st();
    if (s.out != nullptr)
    {
        char b[5000];
        int  n = snprintf(b, sizeof b, "DIED\t%s\t%s\t%ld\t%s\n", why, s.cur_suite, s.cur_case, s.note);
        fflush(s.out);
        if (n > 0)
        {
            [[maybe_unused]] auto w = write(fileno(s.out), b, static_cast<size_t>(n < static_cast<int>(sizeof b) ? n : static_cast<int>(sizeof b) - 1));
        }
    }
}
inline void on_sanitizer_death() { die("sanitizer"); }
inline void on_signal(int sig)
{
    die(sig == SIGVTALRM ? "hang" : sig == SIGABRT ? "abort" : "signal");
    _exit(sig == SIGVTALRM ? 78 : 79);
}
inline int run_main(int argc, char** argv)
{
    std::string out, only;
    long        from = 0, step = 1, one = -1;
    double      scale = 1.0;
    bool        listing = false;
    for (int i = 1; i < argc; ++i)
    {
        const std::string a = argv[i];
        auto              v = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--out") out = v();
        else if (a == "--seed") st().seed = std::stoull(v());
        else if (a == "--from") from = std::stol(v());
        else if (a == "--step") step = std::stol(v());
        else if (a == "--suite") only = v();
        else if (a == "--case") one = std::stol(v());
        else if (a == "--scale") scale = std::stod(v());
        else if (a == "--thorough") st().thorough = true;
        else if (a == "--verbose") st().verbose = true;
        else if (a == "--list") listing = true;
    }
    if (listing)
    {
        for (auto& s : suites())
        {
            printf("%s %ld %ld\n", s.name, s.quick, s.thorough);
        }
        return 0;
    }
    if (!out.empty())
    {
        st().out = fopen(out.c_str(), "a");
        if (st().out == nullptr)
        {
            return 3;
        }
    }
#if defined(__SANITIZE_ADDRESS__) || defined(__SANITIZE_THREAD__)
    __sanitizer_set_death_callback(on_sanitizer_death);
#endif
    signal(SIGVTALRM, on_signal);
    signal(SIGABRT, on_signal);
#if !defined(__SANITIZE_ADDRESS__)
    signal(SIGSEGV, on_signal);
    signal(SIGFPE, on_signal);
#endif
    for (auto& s : suites())
    {
        if (!only.empty() && only != s.name)
        {
            continue;
        }
        st().cur_suite = s.name;
        const long n   = static_cast<long>(static_cast<double>(st().thorough ? s.thorough : s.quick) * scale + 0.999);
        long       ran = 0;
        for (long i = one >= 0 ? one : from; one >= 0 ? i == one : i < n; i += step)
        {
            st().cur_case = i;
            st().note[0]  = 0;
            itimerval t{};
            t.it_value.tv_sec = s.cpu_limit * (st().thorough ? 6 : 1);
            setitimer(ITIMER_VIRTUAL, &t, nullptr);
            rng r(mix(st().seed ^ mix(fnv(s.name) + static_cast<uint64_t>(i))));
            try
            {
                s.fn(r);
            }
            catch (const std::exception& e)
            {
                violate(std::string("unexpected-exception:") + s.name, cat(e.what(), " | ", st().note));
            }
            ++ran;
        }
        itimerval t{};
        setitimer(ITIMER_VIRTUAL, &t, nullptr);
        count(std::string("cases.") + s.name, ran);
    }
    for (auto& [k, v] : st().counts)
    {
        fprintf(st().out, "COUNT\t%s\t%ld\n", k.c_str(), v);
    }
    for (auto& [k, v] : st().seen)
    {
        for (auto h : v)
        {
            fprintf(st().out, "D\t%s\t%llx\n", k.c_str(), static_cast<unsigned long long>(h));
        }
    }
    for (auto& [k, v] : st().viol)
    {
        fprintf(st().out, "VCOUNT\t%s\t%d\n", k.c_str(), v);
    }
    fprintf(st().out, "DONE\n");
    fclose(st().out);
    return 0;
}
}  // namespace vm
#define VM_CAT2(a, b) a##b
#define VM_CAT(a, b) VM_CAT2(a, b)
#define VM_SUITE(name, quick, thorough_n)                                                     \
    static void VM_CAT(vm_suite_, name)(vm::rng & r);                                         \
    static vm::reg VM_CAT(vm_reg_, name)(#name, quick, thorough_n, VM_CAT(vm_suite_, name)); \
    static void VM_CAT(vm_suite_, name)([[maybe_unused]] vm::rng & r)
#define VM_MAIN                                \
    int main(int argc, char** argv)            \
    {                                          \
        return vm::run_main(argc, argv);       \
    }
