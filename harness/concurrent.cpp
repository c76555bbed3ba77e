// C06: concurrent use. Built with ThreadSanitizer (the race oracle) and with ASan; the online/offline monitors check the
// recorded histories. Only per-thread logs are used while the threads run, so that the monitor itself adds no
// happens-before edges that could hide a race.
#include "vm.hpp"

#include <fiction/algorithms/iter/aspect_ratio_iterator.hpp>
#include <fiction/algorithms/iter/gray_code_iterator.hpp>
#include <fiction/algorithms/optimization/simulated_annealing.hpp>
#include <fiction/algorithms/simulation/sidb/potential_to_distance_conversion.hpp>
#include <fiction/algorithms/simulation/sidb/sidb_simulation_domain.hpp>
#include <fiction/layouts/coordinates.hpp>
#include <fiction/technology/cell_ports.hpp>
#include <fiction/technology/cell_technologies.hpp>
#include <fiction/technology/sidb_charge_state.hpp>
#include <fiction/technology/sidb_defects.hpp>
#include <fiction/technology/technology_mapping_library.hpp>
#include <fiction/utils/array_utils.hpp>
#include <fiction/utils/combination_utils.hpp>
#include <fiction/utils/execution_utils.hpp>
#include <fiction/utils/hash.hpp>
#include <fiction/utils/math_utils.hpp>
#include <fiction/utils/phmap_utils.hpp>
#include <fiction/utils/stl_utils.hpp>

#include <algorithm>
#include <atomic>
#include <numeric>
#include <sched.h>
#include <thread>

using namespace fiction;

namespace
{
std::atomic<unsigned> ready{0};
// starts n threads at once
template <typename F>
void crew(const unsigned n, F&& f)
{
    ready = 0;
    std::vector<std::thread> ts;
    for (unsigned t = 0; t < n; ++t)
    {
        ts.emplace_back(
            [&, t]
            {
                ready.fetch_add(1, std::memory_order_relaxed);
                while (ready.load(std::memory_order_relaxed) < n)
                {
                    sched_yield();
                }
                f(t);
            });
    }
    for (auto& t : ts)
    {
        t.join();
    }
}
void jitter(vm::rng& g)
{
    if (g.chance(20)) sched_yield();
}
inline uint64_t now()
{
    return static_cast<uint64_t>(std::chrono::steady_clock::now().time_since_epoch().count());
}
}  // namespace

// several user threads anneal at once, directly and through multi_simulated_annealing; no shared state in the callbacks
VM_SUITE(annealing_from_threads, 60, 1200)
{
    const unsigned n = 2 + static_cast<unsigned>(r.below(6));
    struct result
    {
        int    state{};
        double cost{}, lowest{1e300};
        long   steps{};
    };
    std::vector<result> res(n);
    const uint64_t      seed  = r();
    const bool          multi = r.chance(50);
    const auto          cyc   = 5 + r.below(40);
    crew(n,
         [&](const unsigned t)
         {
             auto&   me = res[t];
             if (multi)
             {
                 // the callbacks are shared by the instances: they only use thread-private state
                 const auto next = [](const int s) -> int
                 {
                     thread_local vm::rng g{static_cast<uint64_t>(reinterpret_cast<uintptr_t>(&g))};
                     return s + static_cast<int>(g.range(-3, 3));
                 };
                 const auto [st, c] = multi_simulated_annealing(40.0, 0.0, cyc, 3, []() -> int { return 50; }, [](const int s) -> double { return std::abs(s - 7) * 1.0; }, linear_temperature_schedule, next);
                 me.state  = st;
                 me.cost   = c;
                 me.lowest = c;
                 me.steps  = 1;
             }
             else
             {
                 vm::rng    g{vm::mix(seed + t)};
                 const auto next = [&](const int s) -> int { jitter(g); ++me.steps; return s + static_cast<int>(g.range(-3, 3)); };
                 const auto cost = [&](const int s) -> double
                 {
                     const double c = std::abs(s - 7) * 1.0;
                     me.lowest      = std::min(me.lowest, c);
                     return c;
                 };
                 const auto [st, c] = simulated_annealing(50, 40.0, 0.0, cyc, cost, linear_temperature_schedule, next);
                 me.state = st;
                 me.cost  = c;
             }
         });
    long steps = 0;
    for (const auto& x : res)
    {
        vm::require(x.cost == std::abs(x.state - 7) * 1.0, "concurrent-annealing:cost-belongs-to-state", [&] { return vm::cat(x.state, " ", x.cost); });
        vm::require(x.cost == x.lowest, "concurrent-annealing:best-visited", [&] { return vm::cat(x.cost, " visited ", x.lowest); });
        steps += x.steps;
    }
    vm::count("annealing steps", steps);
    vm::distinct(vm::cat(n, multi, cyc, steps, res[0].state, res[1].state));
}

// sidb_simulation_domain: write-once register per key, linearizable; nothing lost, nothing invented
namespace
{
struct ev
{
    uint64_t t0, t1;
    int      kind;  // 0 add, 1 hit, 2 miss, 3 size
    int      key, val;
};
template <typename Key, typename MakeKey>
void domain_history(vm::rng& r, MakeKey mk)
{
    sidb_simulation_domain<Key, int, double> dom{};
    const unsigned                           n    = 2 + static_cast<unsigned>(r.below(6));
    const int                                keys = 1 + static_cast<int>(r.below(r.chance(50) ? 4 : 60));
    const int                                ops  = 10 + static_cast<int>(r.below(60));
    const uint64_t                           seed = r();
    std::vector<std::vector<ev>>             log(n);
    vm::require(dom.empty() && dom.size() == 0, "domain:fresh-domain-not-empty", "");
    crew(n,
         [&](const unsigned t)
         {
             vm::rng g{vm::mix(seed + t)};
             auto&   me = log[t];
             me.reserve(static_cast<size_t>(ops));
             for (int i = 0; i < ops; ++i)
             {
                 const int k  = static_cast<int>(g.below(static_cast<uint64_t>(keys)));
                 const int op = static_cast<int>(g.below(10));
                 ev        e{now(), 0, 0, k, 0};
                 if (op < 5)
                 {
                     e.val = static_cast<int>(t) * 1000 + i;
                     dom.add_value(mk(k), std::make_tuple(e.val, e.val * 0.5));
                 }
                 else if (op < 9)
                 {
                     const auto v = dom.contains(mk(k));
                     e.kind       = v ? 1 : 2;
                     if (v)
                     {
                         e.val = std::get<0>(*v);
                         if (std::get<1>(*v) != e.val * 0.5) e.val = -1;
                     }
                 }
                 else
                 {
                     e.kind = 3;
                     e.val  = static_cast<int>(dom.size());
                     if (e.val > 0 && dom.empty()) e.val = -1;
                 }
                 e.t1 = now();
                 me.push_back(e);
                 jitter(g);
             }
         });
    std::vector<ev> all;
    for (auto& l : log) all.insert(all.end(), l.begin(), l.end());
    std::map<int, std::vector<ev>> per;
    std::map<int, uint64_t>        first_add_done;
    for (auto& e : all)
    {
        if (e.kind != 3) per[e.key].push_back(e);
        if (e.kind == 0)
        {
            auto [it, fresh] = first_add_done.emplace(e.key, e.t1);
            it->second       = std::min(it->second, e.t1);
        }
    }
    std::map<int, int> final_val;
    std::size_t        enumerated = 0;
    dom.for_each(
        [&](const Key& k, const std::tuple<int, double>& v)
        {
            ++enumerated;
            for (int i = 0; i < keys; ++i)
            {
                if (mk(i) == k)
                {
                    vm::require(final_val.emplace(i, std::get<0>(v)).second, "domain:key-enumerated-twice", vm::cat(i));
                }
            }
        });
    vm::require(enumerated == dom.size() && enumerated == final_val.size(), "domain:enumeration-size", [&] { return vm::cat(enumerated, " ", dom.size(), " ", final_val.size()); });
    vm::require(dom.empty() == (enumerated == 0), "domain:empty", "");
    for (auto& [k, es] : per)
    {
        const bool added = first_add_done.count(k) == 1;
        vm::require(added == (final_val.count(k) == 1), added ? "domain:added-key-lost" : "domain:key-invented", vm::cat(k));
        if (!added) continue;
        const int v    = final_val[k];
        uint64_t  win0 = 0, win1 = ~0ull, others = ~0ull, hit = ~0ull, miss = 0;
        bool      known = false;
        for (auto& e : es)
        {
            if (e.kind == 0 && e.val == v) { known = true; win0 = e.t0; win1 = e.t1; }
            if (e.kind == 0 && e.val != v) others = std::min(others, e.t1);
            if (e.kind == 1)
            {
                vm::require(e.val == v, "domain:value-changed-after-being-read", [&] { return vm::cat("key ", k, " read ", e.val, " finally ", v); });
                hit = std::min(hit, e.t1);
            }
            if (e.kind == 2) miss = std::max(miss, e.t0);
        }
        vm::require(known, "domain:value-never-written", [&] { return vm::cat("key ", k, " value ", v); });
        // the winning add takes effect before any other add or any hit returns, and no miss starts after it was effective
        vm::require(win0 <= others, "domain:later-add-overwrote-an-earlier-one", [&] { return vm::cat("key ", k, " value ", v); });
        vm::require(win0 <= hit, "domain:read-before-written", vm::cat(k));
        const uint64_t eff = std::min(win1, std::min(others, hit));
        vm::require(miss <= eff, "domain:miss-after-the-key-was-present", vm::cat(k));
        vm::count("reads that hit", std::count_if(es.begin(), es.end(), [](const ev& e) { return e.kind == 1; }));
        vm::count("contended keys", std::count_if(es.begin(), es.end(), [](const ev& e) { return e.kind == 0; }) > 1);
        const auto c = dom.contains(mk(k));
        vm::require(c.has_value() && std::get<0>(*c) == v, "domain:contains-after-join", vm::cat(k));
    }
    for (auto& e : all)
    {
        if (e.kind == 3)
        {
            std::size_t lo = 0;
            for (auto& [k, t] : first_add_done) lo += t < e.t0;
            vm::require(e.val >= static_cast<int>(lo) && e.val <= static_cast<int>(first_add_done.size()), "domain:size", [&] { return vm::cat(e.val, " at least ", lo); });
        }
    }
    std::sort(all.begin(), all.end(), [](const ev& a, const ev& b) { return a.t0 < b.t0; });
    std::string h;
    for (auto& e : all) h += vm::cat(e.kind, ":", e.key, ":", e.val, " ");
    vm::distinct(h);
    vm::sample(h);
    vm::count("domain operations", static_cast<long>(all.size()));
}
}  // namespace
VM_SUITE(domain_int, 250, 5000) { domain_history<int>(r, [](int i) { return i * 16; }); }
VM_SUITE(domain_coord, 150, 3000) { domain_history<offset::ucoord_t>(r, [](int i) { return offset::ucoord_t{i % 7, i / 7, i % 2}; }); }

// the locked map: per-key counters incremented under its own lock are exact
VM_SUITE(locked_map, 200, 4000)
{
    locked_parallel_flat_hash_map<int, long> m{};
    const unsigned                           n    = 2 + static_cast<unsigned>(r.below(6));
    const int                                keys = 1 + static_cast<int>(r.below(40)), ops = 50 + static_cast<int>(r.below(150));
    const uint64_t                           seed = r();
    std::vector<std::map<int, long>>         local(n);
    crew(n,
         [&](const unsigned t)
         {
             vm::rng g{vm::mix(seed + t)};
             for (int i = 0; i < ops; ++i)
             {
                 const int k = static_cast<int>(g.below(static_cast<uint64_t>(keys)));
                 m.lazy_emplace_l(k, [](auto& kv) { ++kv.second; }, [k](const auto& c) { c(k, 1); });
                 ++local[t][k];
                 jitter(g);
             }
         });
    std::map<int, long> want;
    for (auto& l : local)
        for (auto& [k, v] : l) want[k] += v;
    std::map<int, long> got;
    for (const auto& [k, v] : m) got[k] = v;
    vm::require(got == want, "locked-map:lost-updates", "");
    vm::distinct(vm::cat(n, keys, ops, seed));
    vm::count("map updates", static_cast<long>(n) * ops);
}

// read-only library functions may be called from any number of threads and give the answers they give to a single one
VM_SUITE(pure_functions, 80, 1600)
{
    const unsigned n    = 2 + static_cast<unsigned>(r.below(6));
    const uint64_t seed = r();
    const auto work = [&](const uint64_t s, const bool jit)
    {
        vm::rng     g{s};
        uint64_t    h = 0;
        auto        add = [&](const auto& x) { h = vm::mix(h ^ vm::fnv(vm::cat(x))); };
        for (int i = 0; i < 6; ++i)
        {
            const auto nn = 2 + g.below(20);
            add(binomial_coefficient(nn, g.below(nn)));
            add(round_to_n_decimal_places(g.real(-100, 100), 3));
            for (const auto& v : determine_all_combinations_of_distributing_k_entities_on_n_positions(1 + g.below(3), 3 + g.below(3))) add(vm::list(v));
            for (const auto& v : cartesian_combinations(std::vector<std::vector<int>>{{1, 2}, {3, 4, static_cast<int>(g.below(9))}})) add(vm::list(v));
            add(potential_to_distance_conversion(g.real(0.01, 0.3), sidb_simulation_parameters{}, 1));
            std::vector<sidb_charge_state> cs;
            for (int k = 0; k < 5; ++k) cs.push_back(g.one_of({sidb_charge_state::NEGATIVE, sidb_charge_state::NEUTRAL, sidb_charge_state::POSITIVE}));
            add(charge_configuration_to_string(cs));
            const offset::ucoord_t c{static_cast<int>(g.below(100)), static_cast<int>(g.below(100)), static_cast<int>(g.below(2))};
            add(c.str());
            add(std::hash<offset::ucoord_t>{}(c));
            const siqad::coord_t q{static_cast<int>(g.below(100)), static_cast<int>(g.below(100)), static_cast<int>(g.below(2))};
            add(q.str());
            add(std::hash<siqad::coord_t>{}(q));
            add(std::string(GATE_MAJ3).size());
            gray_code_iterator gc{0};
            for (int k = 0; k < 10; ++k, ++gc) add(*gc);
            aspect_ratio_iterator<offset::ucoord_t> ar{4 + g.below(30)};
            for (int k = 0; k < 5; ++k, ++ar) add((*ar).str());
            const auto tm = fiction::safe_localtime(static_cast<std::time_t>(g.below(2000000000)));
            add(vm::cat(tm.tm_year, "-", tm.tm_mon, "-", tm.tm_mday, " ", tm.tm_hour, ":", tm.tm_min, ":", tm.tm_sec));
            const auto sp = sidb_defect{sidb_defect_type::SI_VACANCY, -1.0, 10.6, 5.9};
            add(is_charged_defect_type(sp));
            add(defect_extent(sp).first);
            if (jit && ((h >> i) & 3) == 0) sched_yield();
        }
        return h;
    };
    std::vector<uint64_t> got(n), want(n);
    crew(n, [&](const unsigned t) { got[t] = work(seed + t % 3, true); });
    for (unsigned t = 0; t < n; ++t)
    {
        want[t] = work(seed + t % 3, false);

    }
    for (unsigned t = 0; t < n; ++t)
    {
        vm::require(got[t] == want[t], "concurrent-calls-disagree", vm::cat("seed ", seed));
    }
    vm::distinct(vm::cat(got[0]));
    vm::count("concurrent workloads", n);
}
VM_MAIN
