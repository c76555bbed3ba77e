#include "vm.hpp"

#include <fiction/algorithms/optimization/simulated_annealing.hpp>

#include <atomic>
#include <cmath>
#include <limits>
#include <map>
#include <mutex>
#include <set>
#include <thread>
#include <vector>

using namespace fiction;

namespace
{
// a state that knows whether it has been moved from and that no two states share
struct board
{
    std::vector<int> v{};
    board() = default;
    explicit board(std::vector<int> x) : v{std::move(x)} {}
    bool operator==(const board&) const = default;
    bool operator<(const board& o) const { return v < o.v; }
};
std::string str(const board& b) { return vm::list(b.v); }

struct landscape
{
    int  n;
    int  kind;
    bool integral;
    double scale = 1;
    double operator()(const board& b) const
    {
        double c = 0;
        for (std::size_t i = 0; i < b.v.size(); ++i)
        {
            const double x = b.v[i];
            switch (kind)
            {
                case 0: c += x * x; break;
                case 1: c += std::abs(x - 3) - 7; break;
                case 2: c += static_cast<double>(vm::mix(static_cast<uint64_t>(b.v[i] * 31 + static_cast<int>(i))) % 41) - 20; break;  // rugged
                default: c += (b.v[i] % 2 != 0) ? 5 : -5; break;                                                               // plateaus
            }
        }
        return (integral ? c : c * 0.37) * scale;
    }
};
struct event
{
    char  what;  // 'c'ost, 'n'ext, 't'emperature
    board in, out;
    double x;
};

template <typename Cost>
void run_logged(vm::rng& r)
{
    const landscape L{static_cast<int>(r.range(1, 4)), static_cast<int>(r.range(0, 3)), std::is_integral_v<Cost>, r.chance(25) ? r.one_of<double>({100.0, 1000.0, 100000.0}) : 1.0};
    board           init{};
    for (int i = 0; i < L.n; ++i) init.v.push_back(static_cast<int>(r.range(-20, 20)));
    const bool        hot    = L.scale > 1 && r.chance(80);
    const double      t0     = r.one_of<double>({0.0, 1.0, 10.0, 50.0, 100.0, 37.5}) * (hot ? L.scale : 1);
    const double      t1     = r.chance(70) ? 0.0 : r.one_of<double>({0.5, 1.0, 20.0, 60.0}) * (hot ? L.scale : 1);
    const std::size_t cycles = r.range(0, 12);
    const int         sched  = hot ? r.one_of<int>({2, 4, 5}) : static_cast<int>(r.range(0, 5));
    int               rounds = 0;
    std::vector<event> log;
    const auto cost = [&](const board& b) -> Cost
    {
        const auto c = static_cast<Cost>(L(b));
        log.push_back({'c', b, {}, static_cast<double>(c)});
        return c;
    };
    const auto temp = [&](const double t) -> double
    {
        double n = 0;
        switch (sched)
        {
            case 0: n = linear_temperature_schedule(t); break;
            case 1: n = t < 0.05 ? 0.0 : geometric_temperature_schedule(t); break;
            case 2: n = t / 2 < 0.2 ? -1 : t / 2; break;
            case 5: n = ++rounds > 9 ? -1 : rounds % 2 ? t * 4 : t / 3; break;  // reheats
            case 3: n = t - 3; break;
            default: n = -100; break;
        }
        log.push_back({'t', {}, {}, t});
        return n;
    };
    auto       g    = r;
    const auto next = [&](const board& b) -> board
    {
        board c = b;
        if (!c.v.empty()) c.v[g.below(c.v.size())] += static_cast<int>(g.range(-3, 3)) * (g.chance(10) ? 10 : 1);
        log.push_back({'n', b, c, 0});
        return c;
    };
    const auto d = [&] { return vm::cat("kind ", L.kind, " init ", str(init), " t0 ", t0, " t1 ", t1, " cycles ", cycles, " schedule ", sched); };
    vm::note(d());
    const auto [best, best_cost] = simulated_annealing(init, t0, t1, cycles, cost, temp, next);

    // offline: replay the log against the algorithm's rules
    double          lowest  = L(init);
    if constexpr (std::is_integral_v<Cost>) lowest = static_cast<double>(static_cast<Cost>(lowest));
    bool            visited = best == init;
    board           cur     = init;
    double          cur_c = lowest, t = t0;
    std::size_t     in_temp = 0;
    rounds                  = 0;
    std::vector<std::pair<board, double>> may{{init, lowest}};  // states the search may be in
    std::size_t steps = 0, forced_up = 0, forced_down = 0;
    const auto  val = [&](const board& b) { return static_cast<double>(static_cast<Cost>(L(b))); };
    for (const auto& e : log)
    {
        if (e.what == 'n')
        {
            ++steps;
            ++in_temp;
            bool allowed = false;
            for (const auto& [b, c] : may) allowed = allowed || b == e.in;
            if (!vm::require(allowed, "annealing:next-from-current", [&] { return d() + vm::cat(" step ", steps, " moved from ", str(e.in), " which is not a state the search can be in"); }))
            {
                return;
            }
            cur            = e.in;
            cur_c          = val(cur);
            const auto nc  = val(e.out);
            visited        = visited || best == e.out;
            may.clear();
            const bool better_than_best = nc < lowest;
            lowest                      = std::min(lowest, nc);
            if (better_than_best || nc - cur_c <= 0)
            {
                may.emplace_back(e.out, nc);  // improvements and plateaus are always taken
                ++forced_up;
            }
            else if (nc - cur_c > 10.0 * t * 3 + 1e-9)
            {
                may.emplace_back(cur, cur_c);  // probability below exp(-30)
                ++forced_down;
            }
            else
            {
                may.emplace_back(cur, cur_c);
                may.emplace_back(e.out, nc);
            }
        }
        else if (e.what == 't')
        {
            vm::require(in_temp == cycles, "annealing:cycles-per-temperature", [&] { return d() + vm::cat(" ran ", in_temp); });
            vm::require(e.x == t, "annealing:temperature-chain", [&] { return d() + vm::cat(" got ", e.x, " expected ", t); });
            in_temp  = 0;
            double n = 0;
            switch (sched)
            {
                case 0: n = e.x - 10.0; break;
                case 1: n = e.x < 0.05 ? 0.0 : e.x * 0.99; break;
                case 2: n = e.x / 2 < 0.2 ? -1 : e.x / 2; break;
                case 5: n = ++rounds > 9 ? -1 : rounds % 2 ? e.x * 4 : e.x / 3; break;
                case 3: n = e.x - 3; break;
                default: n = -100; break;
            }
            t = std::min(std::max(n, t1), std::max(t0, t1));
        }
    }
    vm::require(t <= t1 || t0 <= t1, "annealing:stops-at-final-temperature", [&] { return d() + vm::cat(" stopped at ", t); });
    vm::require(t0 > t1 || steps == 0, "annealing:no-steps-when-cold", d);
    vm::require(visited, "annealing:result-was-visited", [&] { return d() + " returned " + str(best); });
    vm::require(static_cast<double>(best_cost) == val(best), "annealing:cost-belongs-to-state", [&] { return d() + vm::cat(" returned ", str(best), " with ", best_cost, " but it costs ", val(best)); });
    vm::require(static_cast<double>(best_cost) == lowest, "annealing:result-is-best-visited", [&] { return d() + vm::cat(" returned cost ", best_cost, " although ", lowest, " was visited"); });
    vm::count("annealing steps", static_cast<long>(steps));
    vm::count("improvements taken", static_cast<long>(forced_up));
    vm::count("hopeless moves rejected", static_cast<long>(forced_down));
    if (steps > 0) vm::distinct(vm::cat(d(), steps, best_cost));
    vm::sample(d() + vm::cat(" -> ", str(best), " cost ", best_cost, " after ", steps, " steps"));
}
}  // namespace

VM_SUITE(single_double, 1500, 30000) { run_logged<double>(r); }
VM_SUITE(single_int, 1500, 30000) { run_logged<int>(r); }
VM_SUITE(single_int64, 500, 10000) { run_logged<int64_t>(r); }

// uphill moves are taken with probability exp(-delta / t)
VM_SUITE(acceptance, 16, 160)
{
    const double t     = r.one_of<double>({1.0, 5.0, 20.0});
    const double ratio = r.one_of<double>({0.25, 0.5, 1.0, 2.0});
    // two states: 0 costs 0, 1 costs ratio*t; 1 always goes back to 0
    const std::size_t n    = 40000;
    long              up   = 0, tries = 0;
    int               last = 0;
    const auto next = [&](const int s) -> int
    {
        if (last == 2)  // the previous proposal was 0 -> 1: where are we now
        {
            ++tries;
            up += s == 1;
        }
        last = s == 0 ? 2 : 0;
        return s == 0 ? 1 : 0;
    };
    [[maybe_unused]] const auto res = simulated_annealing(0, t, t / 2, n, [&](const int s) { return s == 0 ? 0.0 : ratio * t; },
                                                          [&](const double) { return 0.0; }, next);
    const double p = std::exp(-ratio), sd = std::sqrt(p * (1 - p) / static_cast<double>(tries));
    const double f = static_cast<double>(up) / static_cast<double>(tries);
    vm::require(std::abs(f - p) < 7 * sd, "annealing:acceptance-rate", vm::cat("delta/t ", ratio, " accepted ", f, " expected ", p));
    vm::distinct(vm::cat(t, ratio, up));
    vm::sample(vm::cat("delta/t ", ratio, ": ", up, " of ", tries, " uphill moves taken, exp(-delta/t)=", p));
}

VM_SUITE(schedules, 200, 2000)
{
    const double t = r.real(-1000, 1000);
    vm::require(linear_temperature_schedule(t) == t - 10, "schedule:linear", vm::cat(t));
    vm::require(geometric_temperature_schedule(t) == t * 0.99, "schedule:geometric", vm::cat(t));
    vm::distinct(vm::cat(t));
}

// parallel instances: the overall result is the best of everything any instance visited, every instance starts once
template <typename Cost>
void multi(vm::rng& r, const std::size_t most = 12)
{
    const std::size_t instances = r.range(most > 12 ? most / 2 : 1, most), cycles = r.range(0, most > 12 ? 3 : 15);
    const landscape   L{static_cast<int>(r.range(1, 3)), static_cast<int>(r.range(0, 3)), std::is_integral_v<Cost>};
    const uint64_t    seed = r();
    std::atomic<uint64_t> starts{0};
    std::mutex            mx;
    double                lowest = std::numeric_limits<double>::infinity();
    std::set<board>       seen;
    const auto rand_state = [&]
    {
        board b{};
        vm::rng g{vm::mix(seed + ++starts)};
        for (int i = 0; i < L.n; ++i) b.v.push_back(static_cast<int>(g.range(-20, 20)));
        return b;
    };
    const auto cost = [&](const board& b) -> Cost
    {
        const auto      c = static_cast<Cost>(L(b));
        std::lock_guard g(mx);
        lowest = std::min(lowest, static_cast<double>(c));
        seen.insert(b);
        return c;
    };
    std::atomic<uint64_t> ticks{0};
    const auto next = [&](const board& b) -> board
    {
        board   c = b;
        vm::rng g{vm::mix(seed ^ ++ticks)};
        c.v[g.below(c.v.size())] += static_cast<int>(g.range(-4, 4));
        if (g.chance(3)) std::this_thread::yield();
        return c;
    };
    const auto t0 = r.one_of<double>({0.0, 20.0, 60.0});
    const auto d  = [&] { return vm::cat("instances ", instances, " cycles ", cycles, " kind ", L.kind, " t0 ", t0); };
    vm::note(d());
    const auto [best, c] = multi_simulated_annealing(t0, 0.0, cycles, instances, rand_state, cost, linear_temperature_schedule, next);
    vm::require(starts == instances, "multi:one-start-per-instance", [&] { return d() + vm::cat(" started ", starts.load()); });
    vm::require(seen.count(best) == 1, "multi:result-was-visited", [&] { return d() + str(best); });
    vm::require(static_cast<double>(c) == static_cast<double>(static_cast<Cost>(L(best))), "multi:cost-belongs-to-state", [&] { return d() + str(best) + vm::cat(" ", c); });
    vm::require(static_cast<double>(c) == lowest, "multi:result-is-best-visited", [&] { return d() + vm::cat(" returned ", c, " although ", lowest, " was visited"); });
    vm::distinct(vm::cat(d(), str(best), seen.size()));
    vm::count("states visited by parallel instances", static_cast<long>(seen.size()));
    vm::sample(d() + vm::cat(" -> ", str(best), " cost ", c));
}
// exactly one of the instances starts from an outstanding state: whichever it is, its result is the overall one
VM_SUITE(parallel_pick, 400, 6000)
{
    const std::size_t     instances = r.range(1, 70), pick = r.chance(40) ? r.one_of<std::size_t>({1, instances}) : r.range(1, instances);
    std::atomic<uint64_t> starts{0};
    const auto [best, c] = multi_simulated_annealing(r.one_of<double>({0.0, 1.0}), 0.0, r.range(0, 1), instances, [&] { return static_cast<int>(++starts); },
                                                     [&](const int s) { return s == static_cast<int>(pick) ? -5.5 : 1.0 + s; }, linear_temperature_schedule, [](const int s) { return s; });
    vm::require(best == static_cast<int>(pick) && c == -5.5, "multi:outstanding-instance", [&] { return vm::cat("instance ", pick, " of ", instances, " was the best one, but ", best, " with ", c, " has been returned"); });
    vm::count("instances compared", static_cast<long>(instances));
    vm::distinct(vm::cat(instances, ",", pick));
}
VM_SUITE(parallel_double, 150, 3000) { multi<double>(r); }
VM_SUITE(parallel_int, 150, 3000) { multi<int64_t>(r); }
VM_SUITE(parallel_many, 6, 60) { multi<int64_t>(r, 700); }
VM_MAIN
