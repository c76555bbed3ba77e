// Monitors the analysis of SiDB layouts as logic gates against an independent electrostatic model.
#include "sidb_gates.hpp"

#if PART == 1
#include <fiction/algorithms/simulation/sidb/can_positive_charges_occur.hpp>
#include <fiction/algorithms/simulation/sidb/energy_distribution.hpp>
#include <fiction/algorithms/simulation/sidb/equivalence_check_for_simulation_results.hpp>
#include <fiction/algorithms/simulation/sidb/exhaustive_ground_state_simulation.hpp>
#include <fiction/algorithms/simulation/sidb/is_ground_state.hpp>
#include <fiction/algorithms/simulation/sidb/minimum_energy.hpp>
#include <fiction/algorithms/simulation/sidb/occupation_probability_of_excited_states.hpp>
#include <fiction/algorithms/simulation/sidb/physical_population_stability.hpp>
#include <fiction/algorithms/simulation/sidb/potential_to_distance_conversion.hpp>
#include <fiction/algorithms/simulation/sidb/time_to_solution.hpp>
#endif
#if PART == 4
#include <fiction/algorithms/simulation/sidb/defect_clearance.hpp>
#include <fiction/algorithms/simulation/sidb/defect_influence.hpp>
#include <fiction/algorithms/simulation/sidb/displacement_robustness_domain.hpp>
#endif
#if PART == 5
#include <fiction/algorithms/physical_design/design_sidb_gates.hpp>
#include <fiction/algorithms/simulation/sidb/can_positive_charges_occur.hpp>
#include <fiction/algorithms/simulation/sidb/random_sidb_layout_generator.hpp>
#endif
#if PART == 2 || PART == 3
#include <fiction/algorithms/simulation/sidb/band_bending_resilience.hpp>
#include <fiction/algorithms/simulation/sidb/operational_domain.hpp>
#include <fiction/algorithms/simulation/sidb/operational_domain_ratio.hpp>
#include <fiction/algorithms/simulation/sidb/physically_valid_parameters.hpp>
#include <fiction/algorithms/simulation/sidb/verify_logic_match.hpp>
#endif
#include <fiction/algorithms/simulation/sidb/critical_temperature.hpp>

using namespace fiction;
using namespace sg;
using Lyt = sidb_100_cell_clk_lyt_siqad;

namespace
{
bool near(const double a, const double b, const double t = 1e-6) { return a == b || std::abs(a - b) <= t * (1.0 + std::abs(a) + std::abs(b)); }
template <typename L> std::map<site, int> cells_of(const L& l)
{
    std::map<site, int> r;
    l.foreach_cell([&](const auto& c) { r[sm::site_of<L>(c)] = static_cast<int>(l.get_cell_type(c)); });
    return r;
}
std::string str(const std::map<site, int>& m) { std::string s; for (const auto& [x, t] : m) s += " (" + std::to_string(x.n) + "," + std::to_string(x.m) + "," + std::to_string(x.l) + ")" + static_cast<char>(t); return s; }

#if PART == 1
VM_SUITE(bdl_pairs_of_arbitrary_layouts, 400, 4000)
{
    // any layout: pairs are disjoint, of one type, within the distances, and chosen closest first
    Lyt l{};
    using t        = Lyt::technology::cell_type;
    const auto n   = static_cast<std::size_t>(r.range(0, 14));
    auto all = n == 0 ? std::vector<site>{} : sm::random_sites(r, n, true);
    all.erase(std::unique(all.begin(), all.end(), [](const auto& a, const auto& b) { return a.n == b.n && a.m == b.m; }), all.end());  // one dot per dimer
    std::map<site, t> type;
    const bool plain = r.chance(50);
    for (const auto& s : all) l.assign_cell_type(sm::cell_of<Lyt>(s), type[s] = plain ? t::NORMAL : r.one_of({t::NORMAL, t::NORMAL, t::INPUT, t::OUTPUT, t::LOGIC}));
    detect_bdl_pairs_params ps{};
    if (r.chance(60)) { ps.minimum_distance = r.real(0.2, 1.2); ps.maximum_distance = ps.minimum_distance + r.real(0, 2.0); }
    std::string what = "min " + std::to_string(ps.minimum_distance) + " max " + std::to_string(ps.maximum_distance) + " dots" + str(cells_of(l));
    const auto judge_pairs = [&](const std::vector<bdl_pair<cell<Lyt>>>& got, const t ty)
    {
        std::map<site, double> partner;
        for (const auto& p : got)
        {
            const auto a = sm::site_of<Lyt>(p.upper), b = sm::site_of<Lyt>(p.lower);
            const auto d = nm(a, b);
            vm::require(type.contains(a) && type.contains(b) && type[a] == ty && type[b] == ty && p.type == ty, "bdl-pairs:type", [&] { return "pair of the wrong type, " + what; });
            vm::require(std::tuple{a.m, a.l, a.n} < std::tuple{b.m, b.l, b.n}, "bdl-pairs:upper", [&] { return "upper dot is not above the lower one, " + what; });
            vm::require(d >= ps.minimum_distance - 1e-9 && d <= ps.maximum_distance + 1e-9, "bdl-pairs:distance", [&] { return "distance " + std::to_string(d) + ", " + what; });
            vm::require(!partner.contains(a) && !partner.contains(b), "bdl-pairs:disjoint", [&] { return "dot in two pairs, " + what; });
            partner[a] = partner[b] = d;
        }
        for (const auto& [a, ta] : type)
            for (const auto& [b, tb] : type)
            {
                if (!(a < b) || ta != ty || tb != ty) continue;
                const auto d = nm(a, b);
                if (d < ps.minimum_distance + 1e-9 || d > ps.maximum_distance - 1e-9) continue;
                const bool taken = (partner.contains(a) && partner[a] <= d + 1e-9) || (partner.contains(b) && partner[b] <= d + 1e-9);
                vm::require(taken, "bdl-pairs:closest", [&] { return "two dots at " + std::to_string(d) + " nm were not paired although neither has a closer partner, " + what; });
            }
        for (std::size_t i = 1; i < got.size(); ++i) vm::require(got[i - 1] < got[i] && !(got[i] < got[i - 1]), "bdl-pairs:sorted", [&] { return "pairs are not sorted, " + what; });
        vm::count("pairs found", static_cast<long>(got.size()));
    };
    const auto in = detect_bdl_pairs(l, std::make_optional(t::INPUT), ps), out = detect_bdl_pairs(l, std::make_optional(t::OUTPUT), ps), no = detect_bdl_pairs(l, std::make_optional(t::NORMAL), ps);
    judge_pairs(in, t::INPUT);
    judge_pairs(out, t::OUTPUT);
    judge_pairs(no, t::NORMAL);
    judge_pairs(detect_bdl_pairs(l, std::make_optional(t::LOGIC), ps), t::LOGIC);
    auto expected = in;
    expected.insert(expected.end(), out.begin(), out.end());
    expected.insert(expected.end(), no.begin(), no.end());
    vm::require(detect_bdl_pairs(l, std::optional<t>{}, ps) == expected, "bdl-pairs:all", [&] { return "pairs of all types, " + what; });
    // wires partition the pairs; wires of a selection contain a pair of that type
    detect_bdl_wires_params wp{};
    wp.bdl_pairs_params            = ps;
    wp.threshold_bdl_interdistance = r.chance(50) ? 2.0 : r.real(0.5, 4.0);
    const auto wires               = detect_bdl_wires(l, wp);
    std::vector<bdl_pair<cell<Lyt>>> flat;
    for (const auto& w : wires) flat.insert(flat.end(), w.pairs.begin(), w.pairs.end());
    std::sort(flat.begin(), flat.end());
    std::sort(expected.begin(), expected.end());
    vm::require(flat == expected, "bdl-wires:partition", [&] { return "the wires do not consist of the pairs, " + what; });
    vm::distinct(what);
}
template <typename L> void wires_of_gate(vm::rng& r)
{
    const auto g = random_gate(r, 3, false);
    const auto l = g.layout<L>();
    const auto expected_pair = [&](const bpair& p) { const auto [u, d] = p.sorted(); return std::tuple{sm::cell_of<L>(u), sm::cell_of<L>(d), p.k == IN ? L::technology::cell_type::INPUT : p.k == OUT ? L::technology::cell_type::OUTPUT : L::technology::cell_type::NORMAL}; };
    using tup = decltype(expected_pair(g.wires[0].pairs[0]));
    const auto compare = [&](const std::vector<bdl_wire<L>>& got, const int sel)
    {
        std::vector<std::pair<std::vector<tup>, int>> e, a;
        for (const auto& w : g.wires)
        {
            if ((sel == 1 && !w.has(IN)) || (sel == 2 && !w.has(OUT))) continue;
            std::vector<tup> v;
            for (const auto& p : w.pairs) if (!((sel == 1 && p.k == OUT) || (sel == 2 && p.k == IN))) v.push_back(expected_pair(p));
            std::sort(v.begin(), v.end());
            e.emplace_back(v, static_cast<int>(w.dir));
        }
        for (const auto& w : got)
        {
            std::vector<tup> v;
            for (const auto& p : w.pairs) v.emplace_back(p.upper, p.lower, p.type);
            std::sort(v.begin(), v.end());
            a.emplace_back(v, static_cast<int>(w.port.dir));
        }
        const auto by = [](const auto& x, const auto& y) { return x.first < y.first; };
        std::sort(e.begin(), e.end(), by);
        std::sort(a.begin(), a.end(), by);
        bool pairs = e.size() == a.size(), dirs = pairs;
        for (std::size_t i = 0; i < e.size() && pairs; ++i) { pairs = pairs && e[i].first == a[i].first; dirs = dirs && e[i].second == a[i].second; }
        vm::require(pairs, "bdl-wires:pairs", [&] { return "wires of selection " + std::to_string(sel) + " of " + g.str(); });
        if (pairs) vm::require(dirs, "bdl-wires:direction", [&] { std::string s; for (const auto& x : a) s += " " + std::to_string(x.second); return "directions" + s + " of the wires of selection " + std::to_string(sel) + " of " + g.str(); });
    };
    compare(detect_bdl_wires(l), 0);
    compare(detect_bdl_wires(l, {}, bdl_wire_selection::INPUT), 1);
    compare(detect_bdl_wires(l, {}, bdl_wire_selection::OUTPUT), 2);
    for (const auto& w : detect_bdl_wires(l))
    {
        for (const auto t : {L::technology::cell_type::INPUT, L::technology::cell_type::OUTPUT, L::technology::cell_type::NORMAL})
        {
            const auto f = w.find_bdl_pair_by_type(t);
            const bool e = std::any_of(w.pairs.begin(), w.pairs.end(), [&](const auto& p) { return p.type == t; });
            vm::require(f.has_value() == e && (!f || f->type == t), "bdl-wires:find", [&] { return "find_bdl_pair_by_type in " + g.str(); });
        }
    }
    // input patterns
    bdl_input_iterator_params ip{};
    const bool absence = r.chance(40);
    if (absence) ip.input_bdl_config = bdl_input_iterator_params::input_bdl_configuration::PERTURBER_ABSENCE_ENCODED;
    const auto n = g.inputs();
    const auto sites_of = [&](const L& x) { std::vector<site> s; for (const auto& [k, t] : cells_of(x)) s.push_back(k); return s; };
    bdl_input_iterator<L> it = r.chance(50) ? bdl_input_iterator<L>{l, ip} : bdl_input_iterator<L>{l, ip, detect_bdl_wires(l, ip.bdl_wire_params, bdl_wire_selection::INPUT)};
    vm::require(it.num_input_pairs() == n, "bdl-input:number", [&] { return "number of input pairs of " + g.str(); });
    uint64_t k = 0;
    const auto max = (uint64_t{1} << n);
    for (int step = 0; step < 12; ++step)
    {
        const auto e = g.world(k, absence, g.p).sites;
        vm::require(it.get_current_input_index() == k && it == k && !(it != k) && it <= k && it >= k && !(it < k) && !(it > k), "bdl-input:index", [&] { return "index of the iterator on " + g.str(); });
        vm::require(sites_of(*it) == e, "bdl-input:pattern", [&] { return std::string{absence ? "absence-encoded" : "distance-encoded"} + " pattern " + std::to_string(k) + " gives" + str(cells_of(*it)) + " on " + g.str(); });
        switch (r.below(8))
        {
            case 0: if (k + 1 < max) { ++it; ++k; } break;
            case 1: if (k > 0) { --it; --k; } break;
            case 2: { const auto t = r.below(max); it = t; k = t; break; }
            case 3: { const auto t = r.below(max); it += static_cast<int>(t) - static_cast<int>(k); k = t; break; }
            case 4: { const auto t = r.below(max); it -= static_cast<int>(k) - static_cast<int>(t); k = t; break; }
            case 5: { if (k + 1 < max) { auto old = it++; vm::require(old == k && sites_of(*old) == e, "bdl-input:post-increment", [&] { return "it++ on " + g.str(); }); ++k; } else { auto old = it--; vm::require(old == k && sites_of(*old) == e, "bdl-input:post-decrement", [&] { return "it-- on " + g.str(); }); --k; } break; }
            case 6: { const auto t = r.below(max); const auto o = it[static_cast<int>(t) - static_cast<int>(k)]; vm::require(o == t && sites_of(*o) == g.world(t, absence, g.p).sites && o - it == static_cast<int64_t>(t) - static_cast<int64_t>(k), "bdl-input:subscript", [&] { return "it[] on " + g.str(); }); break; }
            default: { const auto t = r.below(max); const auto o = it - (static_cast<int>(k) - static_cast<int>(t)); vm::require(o == t && sites_of(*o) == g.world(t, absence, g.p).sites, "bdl-input:minus", [&] { return "it - n on " + g.str(); }); }
        }
    }
    const auto all = r.chance(50) ? generate_bdl_input_pattern_layouts(l, ip) : generate_bdl_input_pattern_layouts(l, ip, detect_bdl_wires(l, ip.bdl_wire_params, bdl_wire_selection::INPUT));
    vm::require(all.size() == max, "bdl-input:layouts", [&] { return "number of pattern layouts of " + g.str(); });
    for (std::size_t i = 0; i < all.size(); ++i) vm::require(sites_of(all[i]) == g.world(i, absence, g.p).sites, "bdl-input:layouts", [&] { return "pattern layout " + std::to_string(i) + " of " + g.str(); });
    vm::distinct(g.str());
    vm::count("gates with " + std::to_string(n) + " inputs");
}
VM_SUITE(wires_and_patterns, 500, 5000) { wires_of_gate<sidb_100_cell_clk_lyt_siqad>(r); }
VM_SUITE(wires_and_patterns_defect_surface, 60, 600) { wires_of_gate<sidb_defect_surface<sidb_100_cell_clk_lyt_siqad>>(r); }

VM_SUITE(energy_statistics, 400, 4000)
{
    auto w = sm::random_world<Lyt>(r, 7, false);
    if (r.chance(60)) { const auto g = random_gate(r, 2, false); w = g.world(r.below(uint64_t{1} << g.inputs()), r.chance(50), g.p); }
    w.p.base = r.chance(60) || w.sites.size() > 8 ? 2 : 3;
    w.prepare();
    Lyt l{};
    for (const auto& s : w.sites) l.assign_cell_type(sm::cell_of<Lyt>(s), Lyt::technology::cell_type::NORMAL);
    const auto valid = w.all_valid(w.p.base);
    std::vector<std::pair<double, std::vector<int>>> st;
    bool clear = true;
    for (const auto& [q, ok] : valid) { if (ok < 0) clear = false; st.emplace_back(w.energy(q), q); }
    std::sort(st.begin(), st.end());
    for (std::size_t i = 1; i < st.size(); ++i) { const auto d = st[i].first - st[i - 1].first; if (d > 1e-9 && d < 2e-5) clear = false; }
    std::vector<int> neg(w.sites.size(), -1);
    bool positive = false;
    for (std::size_t i = 0; i < w.sites.size(); ++i) { const auto m = -w.internal(neg, i) - (0.59 - w.p.mu); if (std::abs(m) < 1e-5) clear = false; if (m > 0) positive = true; }
    if (!clear) { vm::count("too close to call"); return; }
    const auto params = sm::params_of(w.p);
    const auto ctx    = [&](const std::string& s) { return s + " in " + w.str(); };
    vm::require(can_positive_charges_occur(l, params) == positive, "positive-charges", [&] { return ctx("can_positive_charges_occur is wrong"); });
    auto res = exhaustive_ground_state_simulation(l, params);
    if (res.charge_distributions.size() != st.size()) { vm::violate("simulation", ctx("number of states")); return; }
    vm::count("states", static_cast<long>(st.size()));
    // energy distribution
    std::vector<std::pair<double, uint64_t>> levels;
    for (const auto& [e, q] : st) if (levels.empty() || e - levels.back().first > 1e-6) levels.emplace_back(e, 1); else ++levels.back().second;
    auto shuffled = res.charge_distributions;
    for (std::size_t i = 0; i + 1 < shuffled.size(); ++i) std::swap(shuffled[i], shuffled[i + r.below(shuffled.size() - i)]);
    if (!shuffled.empty() && r.chance(30)) shuffled.push_back(shuffled[r.below(shuffled.size())]);  // reported twice
    const auto d = calculate_energy_distribution(shuffled);
    bool same = d.size() == levels.size() && d.empty() == levels.empty();
    std::size_t i = 0;
    d.for_each([&](const double e, const uint64_t n) { if (i < levels.size()) same = same && near(e, levels[i].first) && n == levels[i].second; ++i; });
    vm::require(same, "energy-distribution", [&] { return ctx("energy distribution of " + std::to_string(d.size()) + " levels instead of " + std::to_string(levels.size())); });
    for (std::size_t k = 0; same && k < levels.size(); ++k)
    {
        const auto s = d.get_nth_state(k);
        vm::require(s.has_value() && near(s->electrostatic_potential_energy, levels[k].first) && s->degeneracy == levels[k].second, "energy-distribution:nth", [&] { return ctx("get_nth_state"); });
        const auto g = d.degeneracy(s->electrostatic_potential_energy);
        vm::require(g.has_value() && *g == levels[k].second, "energy-distribution:degeneracy", [&] { return ctx("degeneracy of level " + std::to_string(k) + " is " + (g ? std::to_string(*g) : "none") + " instead of " + std::to_string(levels[k].second)); });
    }
    vm::require(!d.get_nth_state(levels.size()).has_value() && !d.degeneracy(1e9).has_value(), "energy-distribution:none", [&] { return ctx("levels that do not exist"); });
    if (!levels.empty()) vm::require(near(d.min_energy(), levels.front().first) && near(d.max_energy(), levels.back().first), "energy-distribution:range", [&] { return ctx("range"); });
    vm::require(st.empty() ? std::isinf(minimum_energy(shuffled.cbegin(), shuffled.cend())) : near(minimum_energy(shuffled.cbegin(), shuffled.cend()), st[0].first), "minimum-energy", [&] { return ctx("minimum energy"); });
    // ground states
    std::size_t ng = 0;
    while (ng < st.size() && st[ng].first - st[0].first < 1e-8) ++ng;
    const auto charges = [&](const auto& c) { std::vector<int> q; for (const auto& s : w.sites) q.push_back(sm::charge(c.get_charge_state(sm::cell_of<Lyt>(s)))); return q; };
    {
        auto twice                  = res;
        twice.charge_distributions = shuffled;
        std::multiset<std::vector<int>> a, e;
        for (const auto& c : twice.groundstates()) a.insert(charges(c));
        for (std::size_t k = 0; k < ng; ++k) e.insert(st[k].second);
        vm::require(a == e, "ground-states", [&] { return ctx("ground states: " + std::to_string(a.size()) + " instead of " + std::to_string(e.size())); });
    }
    // Boltzmann
    if (!levels.empty())
    {
        const auto T = r.chance(20) ? r.real(0.01, 2.0) : r.real(2.0, 500.0);
        sidb_energy_and_state_type es;
        double z = 0, x = 0, bad = 0;
        for (const auto& [e, q] : st)
        {
            const auto f = std::exp(-(e - st[0].first) * 1000 / (8.617333262145e-2 * T));
            const bool rej = r.chance(40);
            es.emplace_back(e, rej ? state_type::REJECTED : state_type::ACCEPTED);
            z += f;
            if (e - st[0].first > 1e-6) x += f;
            if (rej) bad += f;
        }
        if (r.chance(50)) std::reverse(es.begin(), es.end());
        vm::require(near(occupation_probability_non_gate_based(d, T), x / z, 1e-4), "occupation:excited", [&] { return ctx("probability of excited states at " + std::to_string(T) + " K: " + std::to_string(occupation_probability_non_gate_based(d, T)) + " instead of " + std::to_string(x / z)); });
        vm::require(near(occupation_probability_gate_based(es, T), bad / z, 1e-4), "occupation:erroneous", [&] { return ctx("probability of erroneous states at " + std::to_string(T) + " K: " + std::to_string(occupation_probability_gate_based(es, T)) + " instead of " + std::to_string(bad / z)); });
    }
    // equivalence of results, ground state found or not
    if (!st.empty())
    {
        auto a = res, b = res;
        b.charge_distributions = {};
        std::set<std::size_t> kept;
        const bool complete = r.chance(40);
        for (std::size_t k = 0; k < res.charge_distributions.size(); ++k) if (complete || r.chance(70)) { b.charge_distributions.push_back(res.charge_distributions[k]); kept.insert(k); }
        if (r.chance(50)) std::reverse(b.charge_distributions.begin(), b.charge_distributions.end());
        std::multiset<std::vector<int>> left;
        std::set<std::vector<int>>      all_g;
        double lowest = 1e300;
        for (const auto& c : b.charge_distributions) lowest = std::min(lowest, w.energy(charges(c)));
        for (const auto& c : b.charge_distributions) if (w.energy(charges(c)) - lowest < 1e-8) left.insert(charges(c));
        for (std::size_t k = 0; k < ng; ++k) all_g.insert(st[k].second);
        const bool found = std::set<std::vector<int>>(left.begin(), left.end()) == all_g;
        vm::require(is_ground_state(b, a) == found, "is-ground-state", [&] { return ctx(found ? "ground states found but denied" : "ground states claimed though not found"); });
        const bool eq = kept.size() == res.charge_distributions.size();
        auto a1 = a, b1 = b;
        vm::require(check_simulation_results_for_equivalence(a1, b1) == eq, "results-equivalent", [&] { return ctx(eq ? "equal results called different" : "different results called equal"); });
        if (eq && !b.charge_distributions.empty())
        {
            auto c = b;
            // one state counted twice, another one missing
            if (c.charge_distributions.size() > 1) { c.charge_distributions[0] = c.charge_distributions[1]; vm::require(!check_simulation_results_for_equivalence(a1, c), "results-equivalent:duplicate", [&] { return ctx("results with a duplicate called equal"); }); }
            Lyt moved{};
            for (const auto& s : w.sites) { auto y = s; y.n += 1; moved.assign_cell_type(sm::cell_of<Lyt>(y), Lyt::technology::cell_type::NORMAL); }
        }
        vm::require(!is_ground_state(a, sidb_simulation_result<Lyt>{}), "is-ground-state:no-exact", [&] { return ctx("no exact result"); });
        // time to solution
        std::vector<sidb_simulation_result<Lyt>> runs;
        const auto reps = static_cast<std::size_t>(r.range(1, 8));
        std::size_t good = 0;
        double total = 0;
        for (std::size_t k = 0; k < reps; ++k)
        {
            auto x               = r.chance(50) ? a : r.chance(20) ? sidb_simulation_result<Lyt>{} : b;
            const bool ok        = x.charge_distributions.size() == a.charge_distributions.size() || (!x.charge_distributions.empty() && found);
            const auto t         = r.real(0.001, 2.0);
            x.simulation_runtime = std::chrono::duration<double>{t};
            total += t;
            if (ok) ++good;
            runs.push_back(x);
        }
        const auto conf = r.real(0.5, 0.999);
        time_to_solution_stats ts{};
        ts.algorithm = "x";
        a.simulation_runtime = std::chrono::duration<double>{0.25};
        time_to_solution_for_given_simulation_results(a, runs, conf, &ts);
        const auto acc = static_cast<double>(good) / static_cast<double>(reps), mean = total / static_cast<double>(reps);
        const auto e = good == 0 ? std::numeric_limits<double>::infinity() : good == reps ? mean : mean * std::log(1 - conf) / std::log(1 - acc);
        vm::require(near(ts.acc, acc * 100) && near(ts.mean_single_runtime, mean) && (ts.time_to_solution == e || near(ts.time_to_solution, e)) && near(ts.single_runtime_exact, 0.25) && ts.algorithm == "x", "time-to-solution", [&] { return ctx("time to solution " + std::to_string(ts.time_to_solution) + " acc " + std::to_string(ts.acc) + " instead of " + std::to_string(e) + " acc " + std::to_string(acc * 100)); });
    }
    // critical temperature of a layout without logic
    if (!levels.empty())
    {
        critical_temperature_params cp{};
        cp.operational_params.simulation_parameters = params;
        cp.confidence_level                         = r.one_of({0.99, 0.9, 0.6, 0.999});
        cp.max_temperature                          = r.one_of({400.0, 77.0, 10.5});
        critical_temperature_stats cs{};
        const auto got = critical_temperature_non_gate_based(l, cp, &cs);
        const auto pr  = [&](const double T) { double z = 0, x = 0; for (const auto& [e, q] : st) { const auto f = std::exp(-(e - st[0].first) * 1000 / (8.617333262145e-2 * T)); z += f; if (e - st[0].first > 1e-6) x += f; } return x / z; };
        const auto lim = 1 - cp.confidence_level;
        // the probability grows with the temperature
        const bool ok = got >= cp.max_temperature - 1e-9 ? pr(cp.max_temperature - 0.02) < lim * (1 + 1e-3) + 1e-9 : (pr(got + 0.011) > lim * (1 - 1e-3) && (got < 0.0201 || pr(got - 0.02) < lim * (1 + 1e-3)));
        vm::require(got <= cp.max_temperature + 1e-9 && got > 0 && ok, "critical-temperature:non-gate", [&] { return ctx("critical temperature " + std::to_string(got) + " confidence " + std::to_string(cp.confidence_level) + " max " + std::to_string(cp.max_temperature) + ": P(" + std::to_string(got - 0.01) + ") " + std::to_string(got > 0.02 ? pr(got - 0.01) : 0) + " P " + std::to_string(pr(got))); });
        vm::require(cs.num_valid_lyt == st.size() && (levels.size() > 1 ? near(cs.energy_between_ground_state_and_first_erroneous, (levels[1].first - levels[0].first) * 1000, 1e-5) : std::isinf(cs.energy_between_ground_state_and_first_erroneous)), "critical-temperature:stats", [&] { return ctx("statistics of the critical temperature"); });
    }
    // potentials needed to change a charge
    {
        auto w3 = w;
        w3.p.base = positive ? 3 : 2;
        std::vector<std::pair<double, std::vector<int>>> s3;
        bool c3 = true;
        for (const auto& [q, ok] : w3.all_valid(w3.p.base)) { if (ok < 0) c3 = false; s3.emplace_back(w3.energy(q), q); }
        std::sort(s3.begin(), s3.end());
        for (std::size_t k = 1; k < s3.size(); ++k) if (s3[k].first - s3[k - 1].first < 2e-9) c3 = false;
        if (c3)
        {
            const auto precision = static_cast<uint64_t>(r.range(1, 3));
            const auto info = physical_population_stability(l, physical_population_stability_params{params, precision});
            vm::require(info.size() == s3.size(), "population-stability:size", [&] { return ctx(std::to_string(info.size()) + " instead of " + std::to_string(s3.size())); });
            for (std::size_t k = 0; k < std::min(info.size(), s3.size()); ++k)
            {
                constexpr auto inf = std::numeric_limits<double>::infinity();
                double nn = inf, zn = inf, zp = inf, pn = inf, zn_any = inf;
                for (std::size_t j = 0; j < w3.sites.size(); ++j)
                {
                    const auto v = w3.internal(s3[k].second, j), a = std::abs(v - w3.p.mu), b = std::abs(v - (w3.p.mu - 0.59));
                    switch (s3[k].second[j]) { case -1: nn = std::min(nn, a); break; case 0: zn_any = std::min(zn_any, a); if (a < b) zn = std::min(zn, a); zp = std::min(zp, b); break; default: pn = std::min(pn, b); }
                }
                const auto& t   = info[k].transition_potentials;
                const auto  is  = [&](const transition_type x, const double e) { const auto g = t.at(x).second; return g == e || near(g, e); };
                const auto  gzn = t.at(transition_type::NEUTRAL_TO_NEGATIVE).second;
                vm::require(near(info[k].system_energy, s3[k].first) && is(transition_type::NEGATIVE_TO_NEUTRAL, nn) && is(transition_type::NEUTRAL_TO_POSITIVE, zp) && is(transition_type::POSITIVE_TO_NEUTRAL, pn) && (gzn == zn || near(gzn, zn) || near(gzn, zn_any)), "population-stability",
                            [&] { return ctx("state " + std::to_string(k) + " " + sm::str(s3[k].second) + ": " + std::to_string(t.at(transition_type::NEGATIVE_TO_NEUTRAL).second) + " " + std::to_string(gzn) + " " + std::to_string(t.at(transition_type::NEUTRAL_TO_POSITIVE).second) + " " + std::to_string(t.at(transition_type::POSITIVE_TO_NEUTRAL).second) + " instead of " + std::to_string(nn) + " " + std::to_string(zn) + " " + std::to_string(zp) + " " + std::to_string(pn)); });
                const auto lowest = std::min({t.at(transition_type::NEGATIVE_TO_NEUTRAL).second, gzn, t.at(transition_type::NEUTRAL_TO_POSITIVE).second, t.at(transition_type::POSITIVE_TO_NEUTRAL).second});
                bool critical = false;
                for (const auto& [x, cp] : t)
                {
                    if (cp.second == lowest && cp.first == info[k].critical_cell) critical = true;
                    if (std::isinf(cp.second)) continue;
                    const auto dist = info[k].distance_corresponding_to_potential.at(x), step = std::pow(10.0, -static_cast<double>(precision));
                    vm::require(sm::coulomb(dist, w.p.eps, w.p.lambda) <= cp.second * (1 + 1e-4) + 1e-9 && (dist <= step * 1.001 || sm::coulomb(dist - step, w.p.eps, w.p.lambda) >= cp.second * (1 - 1e-4) - 1e-9), "potential-distance", [&] { return ctx("distance " + std::to_string(dist) + " for potential " + std::to_string(cp.second)); });
                }
                vm::require(critical, "population-stability:critical", [&] { return ctx("critical cell"); });
            }
            vm::count("population stabilities", static_cast<long>(info.size()));
        }
    }
    vm::distinct(w.str());
}
#endif

#if PART >= 2
using TT = kitty::dynamic_truth_table;
struct expectation
{
    bool                  clear = true, operational = true, singles_negative = true;
    std::size_t           simulations = 0;
    std::vector<verdict>  worst;  // of the ground states of each pattern; WRONG if there are none
    std::vector<pattern_facts> f;
};
expectation expect(const gate& g, const std::vector<TT>& spec, const bool absence, const sm::phys& ph, const bool reject)
{
    expectation x;
    for (uint64_t i = 0; i < spec[0].num_bits(); ++i)
    {
        x.f.push_back(facts(g, i, absence, ph));
        const auto& f = x.f.back();
        if (!f.clear) x.clear = false;
        verdict w = GOOD;
        if (f.states.empty() || (ph.base == 2 && f.positive)) w = WRONG;
        else
            for (std::size_t k = 0; k < f.grounds(); ++k)
            {
                w = std::max(w, judge(g, f, k, i, spec));
                for (const auto& s : g.singles) if (f.charge(k, s) >= 0) x.singles_negative = false;
                const auto in = g.of(IN);
                for (std::size_t j = 0; j < in.size(); ++j) { const bool bit = in_bit(g, i, j); if (!bit && absence) continue; if (f.charge(k, bit ? in[j]->end : in[j]->start) >= 0) x.singles_negative = false; }
            }
        x.worst.push_back(w);
        const bool bad = w == WRONG || (w == KINK && reject);
        if (x.operational && !(ph.base == 2 && f.positive)) ++x.simulations;
        if (bad) x.operational = false;
    }
    return x;
}
#if PART == 2 || PART == 3
double crit(const std::vector<std::vector<std::pair<double, bool>>>& patterns, const double conf, const double max, double& margin)
{
    // the first temperature (in steps of 0.01 K) at which a wrong state is too likely
    double best = max;
    margin      = 1.0;
    for (const auto& st : patterns)
    {
        for (auto k = 1; k <= static_cast<int>(max * 100); ++k)
        {
            const auto T = k / 100.0;
            if (T >= best) break;
            double z = 0, b = 0;
            for (const auto& [e, good] : st) { const auto f = std::exp(-(e - st[0].first) * 1000 / (8.617333262145e-2 * T)); z += f; if (!good) b += f; }
            if (b / z > 1 - conf) { best = T; break; }
        }
    }
    return best;
}
#endif
#if PART == 2
template <typename L> void verdicts(vm::rng& r, const bool defects)
{
    const auto g       = random_gate(r, 3, defects);
    const bool absence = r.chance(35), reject = r.chance(50);
    auto       ph      = g.p;
    if (r.chance(15) && g.dots(0, false).size() <= 8) ph.base = 3;
    const auto spec = random_spec(r, g, absence, ph);
    const auto l    = g.layout<L>();
    is_operational_params ps{};
    ps.simulation_parameters = sm::params_of(ph);
    ps.sim_engine            = r.one_of({sidb_simulation_engine::QUICKEXACT, sidb_simulation_engine::EXGS, sidb_simulation_engine::CLUSTERCOMPLETE});
    if (absence) ps.input_bdl_iterator_params.input_bdl_config = bdl_input_iterator_params::input_bdl_configuration::PERTURBER_ABSENCE_ENCODED;
    ps.op_condition = reject ? is_operational_params::operational_condition::REJECT_KINKS : is_operational_params::operational_condition::TOLERATE_KINKS;
    const auto x    = expect(g, spec, absence, ph, reject);
    const auto ctx  = [&](const std::string& s) { return s + " for function " + hex(spec) + (absence ? " absence" : " distance") + "-encoded, kinks " + (reject ? "rejected" : "tolerated") + ", engine " + std::to_string(static_cast<int>(ps.sim_engine)) + " on " + g.str() + " base " + std::to_string(ph.base); };
    if (!x.clear) { vm::count("too close to call"); return; }
    vm::note(ctx(""));
    vm::count(x.operational ? "operational gates" : "non-operational gates");
    vm::distinct(g.str() + hex(spec));
    const auto in = detect_bdl_wires(l, ps.input_bdl_iterator_params.bdl_wire_params, bdl_wire_selection::INPUT), out = detect_bdl_wires(l, ps.input_bdl_iterator_params.bdl_wire_params, bdl_wire_selection::OUTPUT);
    const auto layouts = generate_bdl_input_pattern_layouts(l, ps.input_bdl_iterator_params);
    L canvas{};
    for (const auto& c : g.canvas) canvas.assign_cell_type(sm::cell_of<L>(c), L::technology::cell_type::LOGIC);
    const auto run = [&](const int way)
    {
        switch (way)
        {
            case 0: return is_operational(l, spec, ps);
            case 1: return is_operational(l, spec, ps, in, out);
            case 2: return is_operational(l, spec, ps, in, out, std::optional<L>{canvas});
            case 3: return is_operational(layouts, spec, ps, in, out);
            default: return is_operational(layouts, spec, ps, in, out, std::optional<L>{canvas});
        }
    };
    for (int way = 0; way < 5; ++way)
    {
        const auto [st, n] = run(way);
        vm::require((st == operational_status::OPERATIONAL) == x.operational, "operational", [&] { return ctx(std::string{x.operational ? "operational gate called non-operational" : "non-operational gate called operational"} + " (way " + std::to_string(way) + ")"); });
        vm::require(n == x.simulations, "operational:simulations", [&] { return ctx(std::to_string(n) + " simulations instead of " + std::to_string(x.simulations) + " (way " + std::to_string(way) + ")"); });
    }
    // patterns
    std::set<uint64_t> good, kinked;
    bool only_kinks = false, wrong = false;
    for (uint64_t i = 0; i < x.worst.size(); ++i)
    {
        if (x.worst[i] == GOOD || (!reject && x.worst[i] == KINK)) good.insert(i);
        if (x.worst[i] == KINK) { kinked.insert(i); only_kinks = true; }
        if (x.worst[i] == WRONG) wrong = true;
    }
    const auto sets = [](const std::set<uint64_t>& s) { std::string q; for (const auto i : s) q += " " + std::to_string(i); return q; };
    for (const auto& got : {operational_input_patterns(l, spec, ps), operational_input_patterns(l, spec, ps, in, out), operational_input_patterns(l, spec, ps, in, out, std::optional<L>{canvas})})
        vm::require(got == good, "operational-patterns", [&] { return ctx("operational patterns" + sets(got) + " instead of" + sets(good)); });
    for (const auto& got : {kink_induced_non_operational_input_patterns(l, spec, ps), kink_induced_non_operational_input_patterns(l, spec, ps, in, out), kink_induced_non_operational_input_patterns(l, spec, ps, in, out, std::optional<L>{canvas})})
        vm::require(got == kinked, "kink-patterns", [&] { return ctx("patterns that fail because of kinks" + sets(got) + " instead of" + sets(kinked)); });
    for (const auto got : {is_kink_induced_non_operational(l, spec, ps), is_kink_induced_non_operational(l, spec, ps, in, out), is_kink_induced_non_operational(l, spec, ps, in, out, std::optional<L>{canvas})})
        vm::require(got == (only_kinks && !wrong), "kink-induced", [&] { return ctx(got ? "said to fail because of kinks only" : "said not to fail because of kinks only"); });
    if (only_kinks) vm::count("gates with kinks");
    // single charge configurations
    for (uint64_t i = 0; i < x.f.size(); ++i)
        for (std::size_t k = 0; k < x.f[i].states.size() && k < 4; ++k)
        {
            charge_distribution_surface<L> c{layouts[i], sm::params_of(ph)};
            bool pos = false;
            for (std::size_t j = 0; j < x.f[i].sites.size(); ++j) { c.assign_charge_state(sm::cell_of<charge_distribution_surface<L>>(x.f[i].sites[j]), sm::state(x.f[i].states[k].second[j])); if (x.f[i].states[k].second[j] > 0) pos = true; }
            c.update_after_charge_change();
            const auto v = judge(g, x.f[i], k, i, spec);
            if (ph.base == 2 && x.f[i].positive) continue;
            const bool e = v == GOOD || (v == KINK && !reject);
            vm::require((verify_logic_match(c, ps, spec, i, in, out) == operational_status::OPERATIONAL) == e, "logic-match", [&] { return ctx(std::string{e ? "matching" : "wrong"} + " state " + sm::str(x.f[i].states[k].second) + " of pattern " + std::to_string(i) + " judged otherwise"); });
            (void)pos;
        }
    // pruning must not change the verdict
    if (reject && !g.canvas.empty() && ph.base == 2)
    {
        ps.strategy_to_analyze_operational_status = is_operational_params::operational_analysis_strategy::FILTER_THEN_SIMULATION;
        if (x.singles_negative)
        {
            for (int way = 0; way < 5; ++way)
            {
                const auto [st, n] = run(way);
                vm::require((st == operational_status::OPERATIONAL) == x.operational, "operational:pruning", [&] { return ctx(std::string{x.operational ? "operational gate pruned" : "non-operational gate called operational"} + " (way " + std::to_string(way) + ")"); });
                vm::require(n <= x.simulations, "operational:pruning-simulations", [&] { return ctx("pruning needs more simulations"); });
            }
            ps.strategy_to_analyze_operational_status = is_operational_params::operational_analysis_strategy::FILTER_ONLY;
            for (int way = 0; way < 5; ++way)
            {
                const auto [st, n] = run(way);
                vm::require(!(x.operational && st == operational_status::NON_OPERATIONAL) && n == 0, "operational:filter", [&] { return ctx("operational gate removed by the filter (way " + std::to_string(way) + ")"); });
                if (!x.operational) vm::count(st == operational_status::NON_OPERATIONAL ? "filtered" : "not filtered");
            }
        }
        else vm::count("perturbers not negative");
        ps.strategy_to_analyze_operational_status = is_operational_params::operational_analysis_strategy::SIMULATION_ONLY;
    }
    // critical temperature
    if constexpr (!is_sidb_defect_surface_v<L>)
    {
        critical_temperature_params cp{};
        cp.operational_params = ps;
        cp.confidence_level   = r.one_of({0.99, 0.9, 0.7});
        cp.max_temperature    = r.one_of({400.0, 77.0, 20.5});
        double e = cp.max_temperature, gap = std::numeric_limits<double>::infinity(), margin = 1;
        bool   zero = false;
        // known finding: with kinks rejected, every rejected state is counted as an accepted one, too, and states
        // behind the first rejected one of an energy level are dropped
        bool   kzero = false, rejected = false;
        double kgap = std::numeric_limits<double>::infinity();
        std::vector<std::vector<std::pair<double, bool>>> ok_patterns, kfew, kmany;
        for (uint64_t i = 0; i < x.f.size(); ++i)
        {
            const auto& f = x.f[i];
            if (f.positive || f.states.empty()) { zero = kzero = true; break; }
            std::vector<std::pair<double, bool>> st;
            bool transparent = false;
            for (std::size_t k = 0; k < f.states.size(); ++k)
            {
                bool good_state = true;
                if (reject) good_state = judge(g, f, k, i, spec) == GOOD;
                else { const auto o = g.of(OUT); for (std::size_t j = 0; j < o.size(); ++j) if ((f.charge(k, o[j]->end) < 0) != static_cast<bool>(kitty::get_bit(spec[j], i))) good_state = false; }
                st.emplace_back(f.states[k].first, good_state);
                if (k < f.grounds() && good_state) transparent = true;
            }
            {
                std::vector<std::pair<double, bool>> few, many;
                for (std::size_t a = 0, b = 0; a < st.size(); a = b)
                {
                    while (b < st.size() && st[b].first - st[a].first < 1e-6) ++b;
                    const auto good_ones = std::count_if(st.begin() + a, st.begin() + b, [](const auto& y) { return y.second; });
                    const bool any_bad   = good_ones != static_cast<int64_t>(b - a);
                    for (int64_t k = 0; k < (any_bad ? 1 : good_ones); ++k) few.emplace_back(st[a].first, true);
                    for (int64_t k = 0; k < good_ones + any_bad; ++k) many.emplace_back(st[a].first, true);
                    if (any_bad) few.emplace_back(st[a].first, false), many.emplace_back(st[a].first, false), rejected = true;
                    if (any_bad && a != 0 && std::isinf(kgap) | (st[a].first - st[0].first) * 1000 < kgap) kgap = (st[a].first - st[0].first) * 1000;
                }
                kfew.push_back(few);
                kmany.push_back(many);
            }
            if (!transparent) zero = true;
            else
            {
                ok_patterns.push_back(st);
                for (std::size_t k = f.grounds(); k < st.size(); ++k) if (!st[k].second) { gap = std::min(gap, (st[k].first - st[0].first) * 1000); break; }
            }
        }
        e = zero ? 0.0 : crit(ok_patterns, cp.confidence_level, cp.max_temperature, margin);
        for (int way = 0; way < 2; ++way)
        {
            critical_temperature_stats cs{};
            const auto got = way == 0 ? critical_temperature_gate_based(l, spec, cp, &cs) : critical_temperature_gate_based(layouts, spec, cp, detect_bdl_pairs(l, std::make_optional(L::technology::cell_type::OUTPUT)), in, out, &cs);
            double km = 1;
            const auto slack = [](const double y) { return 0.0101 + 1e-4 * y; };
            const auto klow = kzero ? 0.0 : crit(kfew, cp.confidence_level, cp.max_temperature, km), khigh = kzero ? 0.0 : crit(kmany, cp.confidence_level, cp.max_temperature, km);
            const bool known = reject && rejected && klow - slack(klow) <= got && got <= khigh + slack(khigh);
            vm::require(std::abs(got - e) <= slack(e), known ? "critical-temperature:rejected-states-accepted-too" : "critical-temperature", [&] { return ctx("critical temperature " + std::to_string(got) + " instead of " + std::to_string(e) + " (confidence " + std::to_string(cp.confidence_level) + ", at most " + std::to_string(cp.max_temperature) + ", way " + std::to_string(way) + ")"); });
            vm::require(cs.energy_between_ground_state_and_first_erroneous == gap || near(cs.energy_between_ground_state_and_first_erroneous, gap, 1e-5), reject && rejected && near(cs.energy_between_ground_state_and_first_erroneous, kgap, 1e-5) ? "critical-temperature:rejected-states-accepted-too" : "critical-temperature:gap", [&] { return ctx("energy gap " + std::to_string(cs.energy_between_ground_state_and_first_erroneous) + " instead of " + std::to_string(gap)); });
        }
        vm::count(e == 0.0 ? "critical temperatures of 0" : e < cp.max_temperature ? "critical temperatures in between" : "critical temperatures at the limit");
        // band bending
        if (ph.base == 2)
        {
            const auto lowest = [&](const bool patterns, const std::optional<transition_type>& t, double& alt) -> std::optional<double>
            {
                double best = std::numeric_limits<double>::infinity();
                alt         = best;
                for (uint64_t i = 0; i < x.f.size(); ++i)
                {
                    auto f = x.f[i];
                    auto p3 = ph;
                    gate whole = g;
                    sm::world w;
                    if (patterns) { p3.base = f.positive ? 3 : 2; if (p3.base == 3) { if (f.sites.size() > 9) return std::nullopt; f = facts(g, i, absence, p3); } w = g.world(i, absence, p3); }
                    else
                    {
                        w = g.world(0, false, ph);
                        std::set<site> s(w.sites.begin(), w.sites.end());
                        for (const auto* q : g.of(IN)) { s.insert(q->start); s.insert(q->end); }
                        w.sites.assign(s.begin(), s.end());
                        w.prepare();
                        std::vector<int> neg(w.sites.size(), -1);
                        bool pos = false;
                        for (std::size_t j = 0; j < w.sites.size(); ++j) { const auto m = -w.internal(neg, j) - (0.59 - ph.mu); if (std::abs(m) < 1e-5) return std::nullopt; if (m > 0) pos = true; }
                        if (pos && w.sites.size() > 9) return std::nullopt;
                        f = {};
                        f.sites = w.sites;
                        for (const auto& [q, ok] : w.all_valid(pos ? 3 : 2)) { if (ok < 0) return std::nullopt; f.states.emplace_back(w.energy(q), q); }
                        std::sort(f.states.begin(), f.states.end());
                    }
                    if (f.states.empty()) continue;
                    if (f.states.size() > 1 && f.states[1].first - f.states[0].first < 1e-8) return std::nullopt;
                    for (std::size_t j = 0; j < w.sites.size(); ++j)
                    {
                        const auto v = w.internal(f.states[0].second, j), a = std::abs(v - ph.mu), b = std::abs(v - (ph.mu - 0.59));
                        const auto use = [&](const transition_type k, const double val, double& to) { if (!t || *t == k) to = std::min(to, val); };
                        switch (f.states[0].second[j])
                        {
                            case -1: use(transition_type::NEGATIVE_TO_NEUTRAL, a, best); use(transition_type::NEGATIVE_TO_NEUTRAL, a, alt); break;
                            case 0: if (a < b) use(transition_type::NEUTRAL_TO_NEGATIVE, a, best); use(transition_type::NEUTRAL_TO_NEGATIVE, a, alt); use(transition_type::NEUTRAL_TO_POSITIVE, b, best); use(transition_type::NEUTRAL_TO_POSITIVE, b, alt); break;
                            default: use(transition_type::POSITIVE_TO_NEUTRAL, b, best); use(transition_type::POSITIVE_TO_NEUTRAL, b, alt);
                        }
                    }
                    if (!patterns) break;
                }
                return best;
            };
            band_bending_resilience_params bp{};
            bp.assess_population_stability_params.simulation_parameters = sm::params_of(ph);
            bp.bdl_iterator_params                                      = ps.input_bdl_iterator_params;
            const auto t = r.chance(40) ? std::optional<transition_type>{} : std::make_optional(r.one_of({transition_type::NEUTRAL_TO_NEGATIVE, transition_type::NEGATIVE_TO_NEUTRAL, transition_type::NEUTRAL_TO_POSITIVE, transition_type::POSITIVE_TO_NEUTRAL}));
            double alt = 0, alt2 = 0;
            const auto right = lowest(true, t, alt), without = lowest(false, t, alt2);
            if (right && without)
            {
                const auto got = band_bending_resilience(l, spec, bp, t);
                const auto is  = [&](const double v) { return got == v || near(got, v, 1e-5); };
                vm::count("band bending resiliences");
                if (!is(*right) && !is(alt))
                    vm::violate(is(*without) || is(alt2) ? "band-bending:input-patterns-ignored" : "band-bending", ctx("resilience " + std::to_string(got) + " instead of " + std::to_string(*right) + " (without input patterns " + std::to_string(*without) + ")"));
            }
        }
    }
}
VM_SUITE(verdicts_siqad, 260, 2600) { verdicts<sidb_100_cell_clk_lyt_siqad>(r, false); }
VM_SUITE(verdicts_cube, 60, 600) { verdicts<sidb_100_cell_clk_lyt_cube>(r, false); }
VM_SUITE(verdicts_with_defects, 60, 600) { verdicts<sidb_defect_surface<sidb_100_cell_clk_lyt_siqad>>(r, true); }

#endif
#if PART == 3
struct grid
{
    std::vector<sweep_parameter>     dims;
    std::vector<std::vector<double>> values;
};
grid random_grid(vm::rng& r, operational_domain_params& op, const std::size_t nd, const bool small)
{
    grid g;
    std::vector<sweep_parameter> all{sweep_parameter::EPSILON_R, sweep_parameter::LAMBDA_TF, sweep_parameter::MU_MINUS};
    op.sweep_dimensions.clear();
    for (std::size_t d = 0; d < nd; ++d)
    {
        const auto k = r.below(all.size());
        const auto s = all[k];
        all.erase(all.begin() + static_cast<std::ptrdiff_t>(k));
        const auto n    = static_cast<int>(r.range(1, small ? 3 : r.chance(15) ? 9 : 5));
        const auto step = s == sweep_parameter::MU_MINUS ? r.real(0.005, 0.04) : r.real(0.2, 0.9);
        const auto min  = s == sweep_parameter::MU_MINUS ? r.real(-0.36, -0.26) : r.real(3.5, 5.5);
        const auto over = r.chance(50) ? 0.0 : step * r.real(0.05, 0.45) + (r.chance(50) ? 0.0 : step * 0.5 - step * 0.01);  // the last step does not fit
        op.sweep_dimensions.push_back({s, min, min + (n - 1) * step + std::min(over, step * 0.95), step});
        g.dims.push_back(s);
        g.values.emplace_back();
        for (int i = 0; i < n; ++i) g.values.back().push_back(min + i * step);
    }
    return g;
}
sm::phys at(const grid& g, const std::vector<std::size_t>& i, sm::phys p)
{
    for (std::size_t d = 0; d < i.size(); ++d) (g.dims[d] == sweep_parameter::EPSILON_R ? p.eps : g.dims[d] == sweep_parameter::LAMBDA_TF ? p.lambda : p.mu) = g.values[d][i[d]];
    return p;
}
std::vector<std::vector<std::size_t>> indices(const grid& g)
{
    std::vector<std::vector<std::size_t>> r{{}};
    for (const auto& v : g.values) { std::vector<std::vector<std::size_t>> n; for (const auto& x : r) for (std::size_t i = 0; i < v.size(); ++i) { auto y = x; y.push_back(i); n.push_back(y); } r = n; }
    return r;
}
VM_SUITE(domains, 60, 500)
{
    const auto g       = random_gate(r, 1, false, r.chance(50) ? 0 : static_cast<int>(r.below(5)));
    const bool absence = r.chance(30), reject = r.chance(50);
    const auto spec = random_spec(r, g, absence, g.p);
    const auto l    = g.layout<Lyt>();
    operational_domain_params op{};
    op.operational_params.simulation_parameters = sm::params_of(g.p);
    op.operational_params.sim_engine            = r.one_of({sidb_simulation_engine::QUICKEXACT, sidb_simulation_engine::EXGS});
    if (absence) op.operational_params.input_bdl_iterator_params.input_bdl_config = bdl_input_iterator_params::input_bdl_configuration::PERTURBER_ABSENCE_ENCODED;
    op.operational_params.op_condition = reject ? is_operational_params::operational_condition::REJECT_KINKS : is_operational_params::operational_condition::TOLERATE_KINKS;
    op.number_of_threads               = static_cast<std::size_t>(r.range(1, 4));
    const auto nd = static_cast<std::size_t>(r.range(1, 3));
    const auto gr = random_grid(r, op, nd, nd == 3);
    std::map<std::vector<std::size_t>, expectation> facts_at;
    for (const auto& i : indices(gr)) facts_at[i] = expect(g, spec, absence, at(gr, i, g.p), reject);
    std::size_t total = facts_at.size();
    std::string dims;
    for (std::size_t d = 0; d < nd; ++d) dims += " dim " + std::to_string(static_cast<int>(gr.dims[d])) + " " + std::to_string(op.sweep_dimensions[d].min) + ".." + std::to_string(op.sweep_dimensions[d].max) + " step " + std::to_string(op.sweep_dimensions[d].step);
    const auto ctx = [&](const std::string& s) { return s + " for function " + hex(spec) + (absence ? " absence" : " distance") + "-encoded, kinks " + (reject ? "rejected" : "tolerated") + ", threads " + std::to_string(op.number_of_threads) + dims + " on " + g.str(); };
    vm::note(ctx(""));
    const auto index_of = [&](const parameter_point& p) -> std::optional<std::vector<std::size_t>>
    {
        std::vector<std::size_t> i;
        if (p.get_parameters().size() != nd) return std::nullopt;
        for (std::size_t d = 0; d < nd; ++d)
        {
            std::optional<std::size_t> k;
            for (std::size_t j = 0; j < gr.values[d].size(); ++j) if (std::abs(gr.values[d][j] - p.get_parameters()[d]) < 1e-9) k = j;
            if (!k) return std::nullopt;
            i.push_back(*k);
        }
        return i;
    };
    const auto judge_domain = [&](const auto& dom, const std::string& how, const operational_domain_stats& st)
    {
        std::set<std::vector<std::size_t>> seen, op_points;
        std::size_t n_op = 0, n_non = 0;
        dom.for_each([&](const parameter_point& p, const auto& v)
        {
            const auto i = index_of(p);
            if (!i) { vm::violate("domain:point", ctx(how + ": a point that is not on the grid")); return; }
            vm::require(seen.insert(*i).second, "domain:duplicate", [&] { return ctx(how + ": point listed twice"); });
            const auto& e = facts_at[*i];
            const bool  o = std::get<0>(v) == operational_status::OPERATIONAL;
            (o ? n_op : n_non)++;
            if (o) op_points.insert(*i);
            if (e.clear) vm::require(o == e.operational, "domain:status", [&] { return ctx(how + ": point called " + (o ? "operational" : "non-operational") + " at eps " + std::to_string(at(gr, *i, g.p).eps) + " lambda " + std::to_string(at(gr, *i, g.p).lambda) + " mu " + std::to_string(at(gr, *i, g.p).mu)); });
            const auto c = dom.contains(p);
            vm::require(c.has_value() && std::get<0>(*c) == std::get<0>(v), "domain:contains", [&] { return ctx(how + ": contains"); });
        });
        vm::require(st.num_operational_parameter_combinations == n_op && st.num_non_operational_parameter_combinations == n_non && st.num_total_parameter_points == total && st.num_evaluated_parameter_combinations == dom.size(), "domain:stats",
                    [&] { return ctx(how + ": statistics " + std::to_string(st.num_operational_parameter_combinations) + "+" + std::to_string(st.num_non_operational_parameter_combinations) + " of " + std::to_string(st.num_total_parameter_points) + ", " + std::to_string(st.num_evaluated_parameter_combinations) + " evaluated instead of " + std::to_string(n_op) + "+" + std::to_string(n_non) + " of " + std::to_string(total)); });
        for (std::size_t d = 0; d < nd; ++d) vm::require(dom.get_number_of_dimensions() == nd && dom.get_dimension(d) == gr.dims[d], "domain:dimensions", [&] { return ctx(how + ": dimensions"); });
        vm::count("points in domains", static_cast<long>(seen.size()));
        vm::count("operational points in domains", static_cast<long>(n_op));
        return std::pair{seen, op_points};
    };
    const auto closed = [&](const std::pair<std::set<std::vector<std::size_t>>, std::set<std::vector<std::size_t>>>& d, const std::string& how)
    {
        for (const auto& p : d.second)
            for (const auto& [q, e] : facts_at)
            {
                bool neighbour = true;
                for (std::size_t k = 0; k < nd; ++k) if (std::llabs(static_cast<long long>(p[k]) - static_cast<long long>(q[k])) > 1) neighbour = false;
                if (neighbour) vm::require(d.first.contains(q), "domain:flood", [&] { return ctx(how + ": a neighbour of an operational point was not looked at"); });
            }
    };
    {
        operational_domain_stats st{};
        const auto d = operational_domain_grid_search(l, spec, op, &st);
        const auto x = judge_domain(d, "grid search", st);
        vm::require(x.first.size() == total, "domain:grid", [&] { return ctx("grid search looked at " + std::to_string(x.first.size()) + " of " + std::to_string(total) + " points"); });
        std::size_t sims = 0;
        bool clear = true;
        for (const auto& [i, e] : facts_at) { sims += e.simulations; clear = clear && e.clear; }
        if (clear) vm::require(st.num_simulator_invocations == sims, "domain:simulations", [&] { return ctx(std::to_string(st.num_simulator_invocations) + " simulations instead of " + std::to_string(sims)); });
    }
    const auto samples = static_cast<std::size_t>(r.range(1, 12));
    { operational_domain_stats st{}; const auto x = judge_domain(operational_domain_random_sampling(l, spec, samples, op, &st), "random sampling", st); vm::require(!x.first.empty() && x.first.size() <= samples, "domain:samples", [&] { return ctx("number of samples"); }); }
    if (nd >= 2)
    {
        { operational_domain_stats st{}; closed(judge_domain(operational_domain_flood_fill(l, spec, samples, op, &st), "flood fill", st), "flood fill"); }
        { operational_domain_stats st{}; judge_domain(operational_domain_contour_tracing(l, spec, samples, op, &st), "contour tracing", st); }
        // ratio: the share of the points connected to a given operational one
        const auto all   = indices(gr);
        const auto start = all[r.below(all.size())];
        bool clear = true;
        for (const auto& [i, e] : facts_at) clear = clear && e.clear;
        if (clear)
        {
            std::set<std::vector<std::size_t>> reach;
            if (facts_at[start].operational) reach.insert(start);
            for (bool more = true; more;)
            {
                more = false;
                for (const auto& q : all)
                {
                    if (reach.contains(q) || !facts_at[q].operational) continue;
                    for (const auto& p : reach)
                    {
                        bool nb = true;
                        for (std::size_t k = 0; k < nd; ++k) if (std::llabs(static_cast<long long>(p[k]) - static_cast<long long>(q[k])) > 1) nb = false;
                        if (nb) { reach.insert(q); more = true; break; }
                    }
                }
            }
            std::vector<double> v;
            for (std::size_t k = 0; k < nd; ++k) v.push_back(gr.values[k][start[k]]);
            const auto got = operational_domain_ratio(l, spec, parameter_point{v}, operational_domain_ratio_params{op});
            const auto e   = static_cast<double>(reach.size()) / static_cast<double>(total);
            vm::require(near(got, e), "domain:ratio", [&] { return ctx("ratio " + std::to_string(got) + " instead of " + std::to_string(e)); });
        }
    }
    if (r.chance(50) && total <= 9)
    {
        const auto judge_ct = [&](const critical_temperature_domain& d, const std::string& how, const operational_domain_stats& st)
        {
            const auto x = judge_domain(d, how, st);
            double lo = std::numeric_limits<double>::infinity(), hi = 0;
            d.for_each([&](const parameter_point& p, const auto& v)
            {
                const auto i = index_of(p);
                if (!i || !facts_at[*i].clear) return;
                auto q = at(gr, *i, g.p);
                critical_temperature_params cp{};
                cp.operational_params                       = op.operational_params;
                cp.operational_params.simulation_parameters = sm::params_of(q);
                const auto e = facts_at[*i].operational ? critical_temperature_gate_based(l, spec, cp) : 0.0;
                vm::require(near(std::get<1>(v), e), "ct-domain:value", [&] { return ctx(how + ": critical temperature " + std::to_string(std::get<1>(v)) + " instead of " + std::to_string(e)); });
            });
            d.for_each([&](const parameter_point&, const auto& v) { if (std::get<0>(v) == operational_status::OPERATIONAL) { lo = std::min(lo, std::get<1>(v)); hi = std::max(hi, std::get<1>(v)); } });
            vm::require(d.minimum_ct() == lo && d.maximum_ct() == hi, "ct-domain:range", [&] { return ctx(how + ": range of critical temperatures"); });
            return x;
        };
        { operational_domain_stats st{}; const auto x = judge_ct(critical_temperature_domain_grid_search(l, spec, op, &st), "critical temperature grid search", st); vm::require(x.first.size() == total, "ct-domain:grid", [&] { return ctx("critical temperature grid search left points out"); }); }
        { operational_domain_stats st{}; judge_ct(critical_temperature_domain_random_sampling(l, spec, samples, op, &st), "critical temperature random sampling", st); }
        if (nd >= 2)
        {
            { operational_domain_stats st{}; closed(judge_ct(critical_temperature_domain_flood_fill(l, spec, samples, op, &st), "critical temperature flood fill", st), "critical temperature flood fill"); }
            { operational_domain_stats st{}; judge_ct(critical_temperature_domain_contour_tracing(l, spec, samples, op, &st), "critical temperature contour tracing", st); }
        }
    }
    // parameters for which a given charge configuration is valid
    {
        sm::phys p = g.p;
        auto w = g.world(0, absence, p);
        if (w.sites.size() <= 9)
        {
            const auto f = facts(g, 0, absence, p);
            std::vector<int> q = f.states.empty() ? std::vector<int>(w.sites.size(), -1) : f.states[r.below(f.states.size())].second;
            if (r.chance(20)) q[r.below(q.size())] = static_cast<int>(r.range(-1, 0));
            charge_distribution_surface<Lyt> c{generate_bdl_input_pattern_layouts(l, op.operational_params.input_bdl_iterator_params)[0], sm::params_of(p)};
            for (std::size_t j = 0; j < q.size(); ++j) c.assign_charge_state(sm::cell_of<charge_distribution_surface<Lyt>>(w.sites[j]), sm::state(q[j]));
            c.update_after_charge_change();
            const auto dom = physically_valid_parameters(c, op);
            std::map<std::vector<std::size_t>, uint64_t> got;
            dom.for_each([&](const parameter_point& pp, const auto& v) { const auto i = index_of(pp); if (i) got[*i] = std::get<0>(v); else vm::violate("valid-parameters:point", ctx("point off the grid")); });
            for (const auto& i : indices(gr))
            {
                const auto ff = facts(g, 0, absence, at(gr, i, p));
                if (!ff.clear) continue;
                std::optional<uint64_t> level;
                uint64_t n = 0;
                for (std::size_t k = 0; k < ff.states.size(); ++k) { if (k > 0 && ff.states[k].first - ff.states[k - 1].first > 1e-6) ++n; if (ff.states[k].second == q) level = n; }
                vm::require(got.contains(i) == level.has_value() && (!level || got[i] == *level), "valid-parameters", [&] { return ctx("charges " + sm::str(q) + " at eps " + std::to_string(at(gr, i, p).eps) + " lambda " + std::to_string(at(gr, i, p).lambda) + " mu " + std::to_string(at(gr, i, p).mu) + ": " + (got.contains(i) ? "excited state " + std::to_string(got[i]) : "invalid") + " instead of " + (level ? "excited state " + std::to_string(*level) : "invalid")); });
                vm::count(level ? "valid parameter points" : "invalid parameter points");
            }
        }
    }
    vm::distinct(g.str() + dims);
}
VM_SUITE(refused_domains, 20, 60)
{
    const auto g    = random_gate(r, 0, false, 0);
    const auto l    = g.layout<Lyt>();
    const auto spec = random_spec(r, g, false, g.p);
    const auto throws = [&](const operational_domain_params& op, const bool flood) { try { if (flood) (void)operational_domain_flood_fill(l, spec, 1, op); else (void)operational_domain_grid_search(l, spec, op); } catch (const std::invalid_argument&) { return true; } return false; };
    operational_domain_params op{};
    op.sweep_dimensions = {{sweep_parameter::EPSILON_R, 5.0, 5.5, 0.5}};
    vm::require(throws(op, true), "domain:refuse", [&] { return std::string{"flood fill in one dimension"}; });
    op.sweep_dimensions = {{sweep_parameter::EPSILON_R, 5.0, 4.5, 0.5}};
    vm::require(throws(op, false), "domain:refuse", [&] { return std::string{"empty range"}; });
    op.sweep_dimensions = {{sweep_parameter::EPSILON_R, 5.0, 5.5, r.chance(50) ? 0.0 : -0.1}};
    vm::require(throws(op, false), "domain:refuse", [&] { return std::string{"step that is not positive"}; });
    op.sweep_dimensions = {};
    vm::require(throws(op, false), "domain:refuse", [&] { return std::string{"no dimension"}; });
    op.sweep_dimensions = {{sweep_parameter::EPSILON_R, 5.0, 5.5, 0.5}};
    op.operational_params.strategy_to_analyze_operational_status = is_operational_params::operational_analysis_strategy::FILTER_ONLY;
    vm::require(throws(op, false), "domain:refuse", [&] { return std::string{"filter without a canvas"}; });
    vm::distinct(g.str());
    vm::count("refused parameter sets", 5);
}
#endif
#endif
#if PART == 4
using CLyt = sidb_100_cell_clk_lyt_cube;
double nm_between(const site& a, const site& b) { return sm::dist(false, a, b); }
VM_SUITE(defect_influence, 24, 200)
{
    using params_t     = defect_influence_params<cell<CLyt>>;
    auto       g       = random_gate(r, 1, false, r.chance(60) ? 0 : static_cast<int>(r.below(5)));
    const bool absence = r.chance(30), reject = r.chance(50);
    const auto spec    = random_spec(r, g, absence, g.p);
    const auto l       = g.layout<CLyt>();
    params_t   dp{};
    dp.defect = sidb_defect{sidb_defect_type::SI_VACANCY, static_cast<int64_t>(r.one_of({-1, -1, 1, 0})), r.real(4, 10), r.real(1, 6)};
    dp.operational_params.simulation_parameters = sm::params_of(g.p);
    dp.operational_params.sim_engine            = r.one_of({sidb_simulation_engine::QUICKEXACT, sidb_simulation_engine::CLUSTERCOMPLETE});
    if (absence) dp.operational_params.input_bdl_iterator_params.input_bdl_config = bdl_input_iterator_params::input_bdl_configuration::PERTURBER_ABSENCE_ENCODED;
    dp.operational_params.op_condition = reject ? is_operational_params::operational_condition::REJECT_KINKS : is_operational_params::operational_condition::TOLERATE_KINKS;
    dp.number_of_threads               = static_cast<std::size_t>(r.range(0, 4));
    const bool ground = r.chance(50), with_spec = !ground || r.chance(50);
    dp.influence_def  = ground ? params_t::influence_definition::GROUND_STATE_CHANGE : params_t::influence_definition::OPERATIONALITY_CHANGE;
    const auto step   = static_cast<std::size_t>(r.range(1, 4));
    dp.additional_scanning_area = {static_cast<int>(r.range(1, 6)), static_cast<int>(r.range(1, 6))};
    const auto ctx = [&](const std::string& s) { return s + " for function " + hex(spec) + (absence ? " absence" : " distance") + "-encoded, kinks " + (reject ? "rejected" : "tolerated") + (ground ? with_spec ? ", ground states of all patterns" : ", ground states" : ", operation") + ", defect q " + std::to_string(dp.defect.charge) + " eps " + std::to_string(dp.defect.epsilon_r) + " lambda " + std::to_string(dp.defect.lambda_tf) + " on " + g.str(); };
    vm::note(ctx(""));
    // the area
    int64_t x0 = 1 << 20, x1 = -x0, y0 = x0, y1 = -x0;
    std::set<std::pair<int64_t, int64_t>> dots;
    l.foreach_cell([&](const auto& c) { x0 = std::min<int64_t>(x0, c.x); x1 = std::max<int64_t>(x1, c.x); y0 = std::min<int64_t>(y0, c.y); y1 = std::max<int64_t>(y1, c.y); dots.insert({c.x, c.y}); });
    x0 -= dp.additional_scanning_area.x; x1 += dp.additional_scanning_area.x; y0 -= dp.additional_scanning_area.y; y1 += dp.additional_scanning_area.y;
    // the truth, on demand
    std::map<std::pair<int64_t, int64_t>, std::pair<bool, bool>> known;  // influential, clear
    std::vector<pattern_facts> before;
    const auto patterns = with_spec ? spec[0].num_bits() : uint64_t{1};
    const auto look     = [&](const gate& y, const uint64_t i)
    {
        if (with_spec) return facts(y, i, absence, y.p);
        // all perturbers are present
        gate z = y;
        for (auto& w : z.wires) for (auto& q : w.pairs) if (q.k == IN) q.k = MID;
        return facts(z, 0, absence, y.p);
    };
    if (ground) for (uint64_t i = 0; i < patterns; ++i) before.push_back(look(g, i));
    const auto truth = [&](const std::pair<int64_t, int64_t>& p) -> std::pair<bool, bool>
    {
        if (const auto it = known.find(p); it != known.end()) return it->second;
        std::pair<bool, bool> res{false, true};
        if (!dots.contains(p))
        {
            auto y = g;
            y.defects.push_back({sm::site_of<CLyt>(cell<CLyt>{static_cast<int>(p.first), static_cast<int>(p.second)}), static_cast<double>(dp.defect.charge), dp.defect.epsilon_r, dp.defect.lambda_tf});
            if (!ground) { const auto e = expect(y, spec, absence, y.p, reject); res = {!e.operational, e.clear}; }
            else
                for (uint64_t i = 0; i < patterns; ++i)
                {
                    const auto a = look(y, i);
                    if (!a.clear || !before[i].clear) res.second = false;
                    if (a.positive) { res.first = true; continue; }
                    if (before[i].positive) res.second = false;  // the configurations without positive charges are not all there are
                    std::set<std::vector<int>> gs, gd;
                    for (std::size_t k = 0; k < before[i].grounds(); ++k) gs.insert(before[i].states[k].second);
                    for (std::size_t k = 0; k < a.grounds(); ++k) gd.insert(a.states[k].second);
                    if (gs != gd) res.first = true;
                }
        }
        return known[p] = res;
    };
    const auto judge_domain = [&](const auto& dom, const std::string& how, const defect_influence_stats* st)
    {
        std::set<std::pair<int64_t, int64_t>> seen;
        std::size_t yes = 0, no = 0;
        double      clearance = 0;
        dom.for_each([&](const auto& c, const auto& v)
        {
            const std::pair<int64_t, int64_t> p{c.x, c.y};
            vm::require(seen.insert(p).second && c.x >= x0 && c.x <= x1 && c.y >= y0 && c.y <= y1, "influence:area", [&] { return ctx(how + ": position (" + std::to_string(c.x) + "," + std::to_string(c.y) + ")"); });
            const bool i = std::get<0>(v) == defect_influence_status::INFLUENTIAL;
            (i ? yes : no)++;
            const auto [e, clear] = truth(p);
            if (clear) vm::require(i == e, "influence:status", [&] { return ctx(how + ": position (" + std::to_string(c.x) + "," + std::to_string(c.y) + ") called " + (i ? "influential" : "not influential")); });
            if (i)
            {
                double d = 1e300;
                l.foreach_cell([&](const auto& q) { d = std::min(d, nm_between(sm::site_of<CLyt>(q), sm::site_of<CLyt>(c))); });
                clearance = std::max(clearance, d);
            }
        });
        if (st) vm::require(st->num_influencing_defect_positions == yes && st->num_non_influencing_defect_positions == no && st->num_evaluated_defect_positions >= yes + no, "influence:stats", [&] { return ctx(how + ": statistics " + std::to_string(st->num_influencing_defect_positions) + "+" + std::to_string(st->num_non_influencing_defect_positions) + " instead of " + std::to_string(yes) + "+" + std::to_string(no)); });
        const auto cl = calculate_defect_clearance(l, dom);
        double     d  = 1e300;
        if (yes != 0) l.foreach_cell([&](const auto& q) { d = std::min(d, nm_between(sm::site_of<CLyt>(q), sm::site_of<CLyt>(cl.defect_position))); });
        vm::require(near(cl.defect_clearance_distance, clearance) && (yes == 0 || near(d, clearance)), "influence:clearance", [&] { return ctx(how + ": clearance " + std::to_string(cl.defect_clearance_distance) + " instead of " + std::to_string(clearance)); });
        vm::count("influential positions", static_cast<long>(yes));
        vm::count("positions without influence", static_cast<long>(no));
        return seen;
    };
    {
        defect_influence_stats st{};
        const auto d = with_spec ? defect_influence_grid_search(l, spec, dp, step, &st) : defect_influence_grid_search(l, dp, step, &st);
        const auto s = judge_domain(d, "grid search with step " + std::to_string(step), &st);
        std::size_t n = 0;
        for (auto x = x0; x <= x1; ++x) for (auto y = y0; y <= y1; ++y) if (x % static_cast<int64_t>(step) == 0 && y % static_cast<int64_t>(step) == 0) { ++n; vm::require(s.contains({x, y}), "influence:grid", [&] { return ctx("grid search left out (" + std::to_string(x) + "," + std::to_string(y) + ")"); }); }
        vm::require(n == s.size(), "influence:grid", [&] { return ctx("grid search looked at positions between its steps"); });
    }
    {
        defect_influence_stats st{};
        const auto n = static_cast<std::size_t>(r.chance(10) ? 0 : r.range(1, 60));
        const auto d = with_spec ? defect_influence_random_sampling(l, spec, n, dp, &st) : defect_influence_random_sampling(l, n, dp, &st);
        const auto s = judge_domain(d, "random sampling", &st);
        vm::require(s.size() == std::min<std::size_t>(n, static_cast<std::size_t>((x1 - x0 + 1) * (y1 - y0 + 1))), "influence:random", [&] { return ctx("random sampling looked at " + std::to_string(s.size()) + " positions instead of " + std::to_string(n)); });
    }
    {
        defect_influence_stats st{};
        const auto n = static_cast<std::size_t>(r.range(1, 3));
        const auto d = with_spec ? defect_influence_quicktrace(l, spec, n, dp, &st) : defect_influence_quicktrace(l, n, dp, &st);
        judge_domain(d, "quicktrace", &st);
    }
    vm::distinct(ctx(""));
}

template <typename L> void displacement(vm::rng& r)
{
    using params_t = displacement_robustness_domain_params<cell<L>>;
    auto       g   = random_gate(r, 0, false, r.chance(70) ? 0 : 4);
    const bool absence = r.chance(30);
    int64_t nmin = 1 << 20, mmin = nmin;
    for (const auto& w : g.wires) for (const auto& q : w.pairs) for (const auto& s : {q.start, q.end}) nmin = std::min(nmin, s.n), mmin = std::min(mmin, s.m);
    for (const auto& s : g.singles) nmin = std::min(nmin, s.n), mmin = std::min(mmin, s.m);
    const auto shift = [&](site& s) { s.n -= nmin; s.m -= mmin; };
    if constexpr (!has_siqad_coord_v<L>)
        if (r.chance(50)) { for (auto& w : g.wires) for (auto& q : w.pairs) shift(q.start), shift(q.end); for (auto& s : g.singles) shift(s); }
    const auto spec = random_spec(r, g, absence, g.p);
    const auto e    = expect(g, spec, absence, g.p, false);
    if (!e.clear || !e.operational) { vm::count("gates that do not operate"); return; }
    const auto l = g.layout<L>();
    params_t   dp{};
    dp.operational_params.simulation_parameters = sm::params_of(g.p);
    dp.operational_params.sim_engine            = sidb_simulation_engine::QUICKEXACT;
    if (absence) dp.operational_params.input_bdl_iterator_params.input_bdl_config = bdl_input_iterator_params::input_bdl_configuration::PERTURBER_ABSENCE_ENCODED;
    dp.number_of_threads = static_cast<std::size_t>(r.range(0, 4));
    dp.dimer_policy      = r.chance(50) ? params_t::dimer_displacement_policy::STAY_ON_ORIGINAL_DIMER : params_t::dimer_displacement_policy::ALLOW_OTHER_DIMER;
    const bool stay      = dp.dimer_policy == params_t::dimer_displacement_policy::STAY_ON_ORIGINAL_DIMER;
    do dp.displacement_variations = {r.below(3), r.below(3)};
    while (dp.displacement_variations.first * dp.displacement_variations.second > (stay ? 0 : 1));
    const auto vx = static_cast<int64_t>(dp.displacement_variations.first), vy = static_cast<int64_t>(dp.displacement_variations.second);
    std::vector<std::pair<site, int>> dots;
    for (const auto& [s, t] : cells_of(l)) dots.emplace_back(s, t);
    const auto targets = [&](const site& s)
    {
        std::vector<site> v;
        if (stay && vy > 0) { v = {{s.n, s.m, 0}, {s.n, s.m, 1}}; return v; }
        for (auto dx = -vx; dx <= vx; ++dx)
            for (auto dy = -vy; dy <= vy; ++dy)
            {
                const auto y = 2 * s.m + s.l + dy, x = s.n + dx;
                if constexpr (has_offset_ucoord_v<L>) if (x < 0 || y < 0) continue;
                v.push_back({x, y >= 0 ? y / 2 : -((1 - y) / 2), ((y % 2) + 2) % 2});
            }
        return v;
    };
    // not more than some hundred displaced layouts
    std::set<site> free;
    std::size_t    total = 1;
    std::vector<std::size_t> order(dots.size());
    for (std::size_t i = 0; i < order.size(); ++i) order[i] = i;
    for (std::size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[r.below(i)]);
    for (const auto i : order) if (const auto n = targets(dots[i].first).size(); total * n <= 130) { total *= n; free.insert(dots[i].first); }
    for (const auto& [s, t] : dots) if (!free.contains(s)) dp.fixed_sidbs.insert(sm::cell_of<L>(s));
    const auto all_of = [&](const std::set<site>& f)
    {
        std::map<std::map<site, int>, std::size_t> res;
        std::vector<std::map<site, int>> cur{{}};
        for (const auto& [s, t] : dots)
        {
            std::vector<std::map<site, int>> next;
            for (const auto& c : cur)
                for (const auto& x : f.contains(s) ? targets(s) : std::vector<site>{s}) { auto d = c; if (d.emplace(x, t).second) next.push_back(d); }
            cur = next;
        }
        for (const auto& c : cur) ++res[c];
        return res;
    };
    std::string fr;
    for (const auto& s : free) fr += " (" + std::to_string(s.n) + "," + std::to_string(s.m) + "," + std::to_string(s.l) + ")";
    const auto ctx = [&](const std::string& s) { return s + " for function " + hex(spec) + (absence ? " absence" : " distance") + "-encoded, displacements " + std::to_string(vx) + "," + std::to_string(vy) + (stay ? " on the dimer" : "") + " of" + fr + " on " + g.str(); };
    vm::note(ctx(""));
    const auto all = all_of(free);
    dp.analysis_mode = r.chance(60) ? params_t::displacement_analysis_mode::EXHAUSTIVE : params_t::displacement_analysis_mode::RANDOM;
    const bool random = dp.analysis_mode == params_t::displacement_analysis_mode::RANDOM;
    dp.percentage_of_analyzed_displaced_layouts = random ? r.one_of({0.0, 0.1, 0.5, 1.0}) : 1.0;
    displacement_robustness_domain_stats st{};
    const auto d = determine_displacement_robustness_domain(l, spec, dp, &st);
    std::map<std::map<site, int>, std::size_t> seen;
    std::map<std::map<site, int>, bool>        status;
    // BDL pairs are ambiguous if a dot has several closest partners; such layouts depend on the order of their dots
    const auto tied = [](const std::map<site, int>& c)
    {
        for (const auto& [s, t] : c)
        {
            std::vector<double> ds;
            for (const auto& [q, u] : c) if (u == t && !(q == s)) if (const auto x = sm::dist(false, s, q); x < 2.0) ds.push_back(x);
            std::sort(ds.begin(), ds.end());
            for (std::size_t i = 1; i < ds.size(); ++i) if (ds[i] - ds[i - 1] < 1e-6) return true;
        }
        return false;
    };
    std::size_t yes = 0, no = 0;
    for (const auto& [y, s] : d.operational_values)
    {
        const auto c = cells_of(y);
        ++seen[c];
        const auto it = all.find(c);
        if (it == all.end()) { vm::violate("displacement:layout", ctx("displaced layout" + str(c) + " is not possible")); continue; }
        const bool o = s == operational_status::OPERATIONAL;
        (o ? yes : no)++;
        if (tied(c)) continue;
        if (!status.contains(c)) status[c] = is_operational(y, spec, dp.operational_params).first == operational_status::OPERATIONAL;
        vm::require(o == status[c], "displacement:status", [&] { return ctx("status of" + str(c)); });
    }
    std::size_t possible = 0;
    for (const auto& [c, k] : all) { possible += k; vm::require(seen[c] <= k && (random || seen[c] == k), "displacement:complete", [&] { return ctx("displaced layout" + str(c) + " considered " + std::to_string(seen[c]) + " times instead of " + std::to_string(k)); }); }
    std::size_t tried = 1;
    for (const auto& [s, t] : dots) tried *= free.contains(s) ? targets(s).size() : 1;
    if (random)
    {
        const auto goal = std::max<std::size_t>(1, static_cast<std::size_t>(static_cast<double>(tried) * dp.percentage_of_analyzed_displaced_layouts));
        vm::require(yes + no <= goal && yes + no + (tried - possible) >= goal, "displacement:random", [&] { return ctx(std::to_string(yes + no) + " random displacements instead of " + std::to_string(goal) + " of " + std::to_string(tried)); });
    }
    vm::require(st.num_operational_sidb_displacements == yes && st.num_non_operational_sidb_displacements == no, "displacement:stats", [&] { return ctx("statistics"); });
    vm::count("displaced layouts that operate", static_cast<long>(yes));
    vm::count("displaced layouts that fail", static_cast<long>(no));
    vm::require(near(determine_probability_of_fabricating_operational_gate(l, spec, dp, 0.0), 1.0), "displacement:no-error", [&] { return ctx("probability without errors"); });
    // every choice of k displaced dots
    if (const auto k = 1 + r.below(2); targets(dots[0].first).size() <= (k == 2 ? 3u : 5u) && dots.size() <= 8)
    {
        dp.fixed_sidbs.clear();
        dp.analysis_mode                            = params_t::displacement_analysis_mode::EXHAUSTIVE;
        dp.percentage_of_analyzed_displaced_layouts = 1.0;
        std::size_t good = 0, bad = 0;
        bool        ties = false;
        for (uint64_t m = 0; m < (uint64_t{1} << dots.size()); ++m)
        {
            if (static_cast<uint64_t>(__builtin_popcountll(m)) != k) continue;
            std::set<site> f;
            for (std::size_t i = 0; i < dots.size(); ++i) if ((m >> i) & 1u) f.insert(dots[i].first);
            for (const auto& [c, n] : all_of(f))
            {
                if (tied(c)) { ties = true; break; }
                if (!status.contains(c))
                {
                    L y{};
                    for (const auto& [s, t] : c) y.assign_cell_type(sm::cell_of<L>(s), static_cast<typename L::technology::cell_type>(t));
                    status[c] = is_operational(y, spec, dp.operational_params).first == operational_status::OPERATIONAL;
                }
                (status[c] ? good : bad) += n;
            }
        }
        const auto p    = determine_probability_of_fabricating_operational_gate(l, spec, dp, (static_cast<double>(k) + 0.3) / static_cast<double>(dots.size()));
        const auto want = static_cast<double>(good) / static_cast<double>(good + bad);
        if (!ties) vm::require(near(p, want), "displacement:probability", [&] { return ctx("probability " + std::to_string(p) + " instead of " + std::to_string(want) + " with " + std::to_string(k) + " displaced dots"); });
        vm::count(ties ? "probabilities not judged because of ambiguous pairs" : "probabilities");
    }
    vm::distinct(ctx(""));
}
VM_SUITE(displacement_siqad, 40, 300) { displacement<sidb_100_cell_clk_lyt_siqad>(r); }
VM_SUITE(displacement_cube, 30, 200) { displacement<sidb_100_cell_clk_lyt_cube>(r); }
#endif
#if PART == 5
template <typename L> void designs(vm::rng& r, const bool defects)
{
    using params_t     = design_sidb_gates_params<cell<L>>;
    auto       g       = random_gate(r, 0, defects, r.chance(60) ? 3 : static_cast<int>(r.below(5)));
    if (defects)
    {
        const auto used = cells_of(g.template layout<L>());
        for (auto n = r.range(0, 3); n > 0; --n)
        {
            const site s{r.range(-6, 30), r.range(-4, 14), r.range(0, 1)};
            if (!used.contains(s) && std::none_of(g.defects.begin(), g.defects.end(), [&](const auto& d) { return d.s == s; })) g.defects.push_back({s, 0.0, 5.6, 5.0});
        }
    }
    const bool absence = r.chance(30), reject = r.chance(50);
    // canvas
    int64_t n0 = r.range(0, 24), m0 = r.range(0, 5);
    if (g.family == "and") n0 = r.range(6, 12), m0 = r.range(3, 4);
    if (g.family == "gap" && r.chance(80) && g.wires.size() == 2)
    {
        const auto& a = g.wires[0].pairs.back().end;
        const auto& b = g.wires[1].pairs.front().start;
        n0 = (a.n + b.n) / 2 - r.range(0, 3);
        m0 = a.m - r.range(0, 2);
    }
    const auto k  = static_cast<std::size_t>(r.range(1, 2));
    const int64_t w = r.range(1, k == 1 ? 5 : 4), h = r.range(0, 1);
    std::vector<site> area;
    int64_t y0 = 2 * m0 + r.range(0, 1), y1 = y0 + h + r.range(0, 1);
    for (auto y = y0; y <= y1; ++y) for (auto n = n0; n < n0 + w; ++n) area.push_back({n, y >= 0 ? y / 2 : -((1 - y) / 2), ((y % 2) + 2) % 2});
    if (area.size() < k) return;
    params_t dp{};
    dp.canvas                 = {sm::cell_of<L>(area.front()), sm::cell_of<L>(area.back())};
    dp.number_of_canvas_sidbs = k;
    auto& ps                  = dp.operational_params;
    ps.simulation_parameters  = sm::params_of(g.p);
    ps.sim_engine             = r.one_of({sidb_simulation_engine::QUICKEXACT, sidb_simulation_engine::CLUSTERCOMPLETE});
    if (absence) ps.input_bdl_iterator_params.input_bdl_config = bdl_input_iterator_params::input_bdl_configuration::PERTURBER_ABSENCE_ENCODED;
    ps.op_condition = reject ? is_operational_params::operational_condition::REJECT_KINKS : is_operational_params::operational_condition::TOLERATE_KINKS;
    auto seed = g;
    for (std::size_t i = 0; i < k; ++i) if (r.chance(70)) seed.canvas.push_back(area[r.below(area.size())]);
    std::sort(seed.canvas.begin(), seed.canvas.end());
    seed.canvas.erase(std::unique(seed.canvas.begin(), seed.canvas.end()), seed.canvas.end());
    const auto l = g.layout<L>();
    const auto taken = cells_of(l);
    std::erase_if(seed.canvas, [&](const auto& s) { return taken.contains(s); });
    const auto spec = random_spec(r, seed, absence, g.p);
    const auto ctx  = [&](const std::string& s) { return s + " for function " + hex(spec) + (absence ? " absence" : " distance") + "-encoded, kinks " + (reject ? "rejected" : "tolerated") + ", engine " + std::to_string(static_cast<int>(ps.sim_engine)) + ", " + std::to_string(k) + " dots in " + std::to_string(w) + "x" + std::to_string(y1 - y0 + 1) + " at (" + std::to_string(n0) + ",row " + std::to_string(y0) + ") on " + g.str(); };
    vm::note(ctx(""));
    const auto defect_at = [&](const site& s) { if (defects) for (const auto& d : g.defects) if (d.s == s) return true; return false; };
    // what can be designed
    struct fact { bool operational, clear, kept, full, blocked; };
    std::map<std::set<site>, fact> all;
    std::size_t combinations = 0, blocked = 0;
    for (uint64_t m = 0; m < (uint64_t{1} << area.size()); ++m)
    {
        if (static_cast<std::size_t>(__builtin_popcountll(m)) != k) continue;
        ++combinations;
        std::set<site> c;
        bool full = true, def = false;
        for (std::size_t i = 0; i < area.size(); ++i) if ((m >> i) & 1u) { if (defect_at(area[i])) def = true, full = false; else if (taken.contains(area[i])) full = false; else c.insert(area[i]); }
        if (def) ++blocked;
        if (const auto it = all.find(c); it != all.end()) { it->second.full |= full; it->second.blocked &= def; continue; }
        auto y   = g;
        y.canvas = {c.begin(), c.end()};
        const auto e = expect(y, spec, absence, g.p, reject);
        // pruning assumes negative perturbers and wires without kinks
        const bool kept = e.singles_negative && !c.empty() && std::all_of(e.worst.begin(), e.worst.end(), [](const auto v) { return v == GOOD; });
        all[c]          = {e.operational, e.clear, kept, full, def};
    }
    std::size_t good = 0;
    for (const auto& [c, f] : all) if (f.operational && f.clear && f.full) ++good;
    const auto run = [&](const typename params_t::design_sidb_gates_mode mode, const bool first, const std::string& how)
    {
        dp.design_mode      = mode;
        dp.termination_cond = first ? params_t::termination_condition::AFTER_FIRST_SOLUTION : params_t::termination_condition::ALL_COMBINATIONS_ENUMERATED;
        design_sidb_gates_stats st{};
        const auto before = cells_of(l);
        const auto res    = design_sidb_gates(l, spec, dp, &st);
        vm::require(cells_of(l) == before, "design:input-changed", [&] { return ctx(how + ": the skeleton was changed"); });
        std::set<std::set<site>> got;
        for (const auto& y : res)
        {
            auto           c = cells_of(y);
            std::set<site> canvas;
            for (const auto& [s, t] : c) if (!taken.contains(s)) { canvas.insert(s); vm::require(t == static_cast<int>(L::technology::cell_type::LOGIC), "design:type", [&] { return ctx(how + ": type of a canvas dot"); }); }
            for (const auto& s : canvas) c.erase(s);
            vm::require(c == taken, "design:skeleton", [&] { return ctx(how + ": the skeleton became" + str(c)); });
            if constexpr (is_sidb_defect_surface_v<L>)
            {
                std::map<site, int64_t> d, e;
                y.foreach_sidb_defect([&](const auto& x) { d[sm::site_of<L>(x.first)] = x.second.charge; });
                for (const auto& x : g.defects) e[x.s] = static_cast<int64_t>(x.q);
                vm::require(d == e, "design:defects", [&] { return ctx(how + ": the defects of the skeleton were lost"); });
            }
            got.insert(canvas);
            const auto it = all.find(canvas);
            if (it == all.end()) { vm::violate("design:canvas", ctx(how + ": dots outside of the canvas or of another number")); continue; }
            if (it->second.clear && mode != params_t::design_sidb_gates_mode::PRUNING_ONLY) vm::require(it->second.operational, "design:operational", [&] { return ctx(how + ": the designed gate" + str(cells_of(y)) + " does not operate"); });
        }
        const bool prunes = mode == params_t::design_sidb_gates_mode::QUICKCELL || mode == params_t::design_sidb_gates_mode::PRUNING_ONLY;
        if (!first)
            for (const auto& [c, f] : all)
                if (f.operational && f.clear && !(prunes && (!f.kept || f.blocked))) vm::require(got.contains(c), "design:complete", [&] { std::string s; for (const auto& x : c) s += " (" + std::to_string(x.n) + "," + std::to_string(x.m) + "," + std::to_string(x.l) + ")"; return ctx(how + ": the operational gate with canvas" + s + " was not found"); });
        if (first && mode != params_t::design_sidb_gates_mode::PRUNING_ONLY)
        {
            std::size_t some = 0;
            for (const auto& [c, f] : all) if (f.operational && f.clear && !(prunes && (!f.kept || f.blocked))) ++some;
            vm::require(some == 0 || !res.empty(), "design:first", [&] { return ctx(how + ": none of " + std::to_string(some) + " operational gates was found"); });
        }
        if (prunes)
        {
            vm::require(st.number_of_layouts == combinations - blocked, "design:stats", [&] { return ctx(how + ": " + std::to_string(st.number_of_layouts) + " layouts instead of " + std::to_string(combinations - blocked)); });
            vm::require(st.number_of_layouts >= st.number_of_layouts_after_first_pruning && st.number_of_layouts_after_first_pruning >= st.number_of_layouts_after_second_pruning && st.number_of_layouts_after_second_pruning >= st.number_of_layouts_after_third_pruning && (mode != params_t::design_sidb_gates_mode::PRUNING_ONLY || all.contains({}) || st.number_of_layouts_after_third_pruning == res.size()), "design:stats", [&] { return ctx(how + ": statistics of pruning"); });
        }
        vm::count("designed gates", static_cast<long>(res.size()));
        return got;
    };
    using mode_t = typename params_t::design_sidb_gates_mode;
    run(mode_t::AUTOMATIC_EXHAUSTIVE_GATE_DESIGNER, false, "exhaustive");
    run(mode_t::AUTOMATIC_EXHAUSTIVE_GATE_DESIGNER, true, "exhaustive, first");
    run(mode_t::QUICKCELL, false, "quickcell");
    run(mode_t::QUICKCELL, true, "quickcell, first");
    run(mode_t::PRUNING_ONLY, false, "pruning");
    // a random search for something that does not exist does not end
    std::set<site> affected;
    if constexpr (is_sidb_defect_surface_v<L>) for (const auto& c : l.all_affected_sidbs(std::make_pair(0, 0))) affected.insert(sm::site_of<L>(c));
    bool reachable = false;
    for (const auto& [c, f] : all) if (f.operational && f.clear && f.full && std::none_of(c.begin(), c.end(), [&](const auto& s) { return affected.contains(s) || defect_at(s); })) reachable = true;
    if (reachable) { run(mode_t::RANDOM, true, "random"); vm::count(defects && !g.defects.empty() ? "random designs with defects" : "random designs"); }
    vm::count("operational canvases", static_cast<long>(good));
    vm::count("canvases", static_cast<long>(all.size()));
    vm::distinct(ctx(""));
}
VM_SUITE(designs_siqad, 60, 500) { designs<sidb_100_cell_clk_lyt_siqad>(r, false); }
VM_SUITE(designs_cube, 20, 200) { designs<sidb_100_cell_clk_lyt_cube>(r, false); }
VM_SUITE(designs_with_defects, 20, 200) { designs<sidb_defect_surface<sidb_100_cell_clk_lyt_siqad>>(r, true); }

template <typename L> void random_layouts(vm::rng& r)
{
    using params_t = generate_random_sidb_layout_params<coordinate<L>>;
    params_t   p{};
    const auto ph = sm::random_phys(r);
    p.simulation_parameters = sm::params_of(ph);
    const bool neg = !has_offset_ucoord_v<L>;
    const site a{r.range(neg ? -10 : 0, 10), r.range(neg ? -5 : 0, 5), r.range(0, 1)}, b{a.n + r.range(0, 12), a.m + r.range(1, 5), r.range(0, 1)};
    p.coordinate_pair   = {sm::cell_of<L>(a), sm::cell_of<L>(b)};
    if (r.chance(50)) std::swap(p.coordinate_pair.first, p.coordinate_pair.second);
    p.number_of_sidbs   = static_cast<uint64_t>(r.range(0, 6));
    p.maximal_attempts  = static_cast<uint64_t>(r.one_of({5, 300, 5000}));
    const int mode      = static_cast<int>(r.below(5));
    p.positive_sidbs    = mode < 2 ? params_t::positive_charges::ALLOWED : mode < 4 ? params_t::positive_charges::FORBIDDEN : params_t::positive_charges::MAY_OCCUR;
    if (mode == 4 && p.number_of_sidbs < 5) p.number_of_sidbs = 5;
    std::optional<L> skeleton;
    std::map<site, int> taken;
    if (r.chance(60))
    {
        skeleton = L{};
        using t  = typename L::technology::cell_type;
        for (auto n = r.range(0, 5); n > 0; --n) skeleton->assign_cell_type(sm::cell_of<L>(site{r.range(a.n, b.n), r.range(a.m, b.m), r.range(0, 1)}), r.one_of({t::NORMAL, t::INPUT, t::OUTPUT}));
        if constexpr (is_sidb_defect_surface_v<L>)
            for (auto n = r.range(0, 2); n > 0; --n)
            {
                const site s{r.range(a.n, b.n), r.range(a.m, b.m), r.range(0, 1)};
                if (skeleton->get_cell_type(sm::cell_of<L>(s)) != t::EMPTY) continue;
                if (r.chance(50)) skeleton->assign_sidb_defect(sm::cell_of<L>(s), sidb_defect{sidb_defect_type::DB, r.one_of({-1, 1}), 5.6, 5.0});
                else skeleton->assign_sidb_defect(sm::cell_of<L>(s), sidb_defect{sidb_defect_type::SILOXANE});
            }
        taken = cells_of(*skeleton);
    }
    // positive charges must be possible for MAY_OCCUR
    if (mode == 4 && !(ph.mu < -0.05 && ph.eps < 8)) p.positive_sidbs = params_t::positive_charges::ALLOWED;
    if (p.positive_sidbs == params_t::positive_charges::MAY_OCCUR && (b.n - a.n) * (b.m - a.m) > 6) p.positive_sidbs = params_t::positive_charges::ALLOWED;
    if (p.positive_sidbs == params_t::positive_charges::MAY_OCCUR && (p.maximal_attempts < 300 || (b.n - a.n) * (b.m - a.m) < 4)) p.positive_sidbs = params_t::positive_charges::ALLOWED;
    std::string sk;
    if (skeleton) sk = " into" + str(taken);
    const auto ctx = [&](const std::string& s) { return s + ": " + std::to_string(p.number_of_sidbs) + " dots from (" + std::to_string(a.n) + "," + std::to_string(a.m) + "," + std::to_string(a.l) + ") to (" + std::to_string(b.n) + "," + std::to_string(b.m) + "," + std::to_string(b.l) + ") mode " + std::to_string(static_cast<int>(p.positive_sidbs)) + sk + " mu " + std::to_string(ph.mu) + " eps " + std::to_string(ph.eps) + " lambda " + std::to_string(ph.lambda); };
    vm::note(ctx(""));
    const auto judge_layout = [&](const L& y)
    {
        const auto  c   = cells_of(y);
        std::size_t add = 0;
        for (const auto& [s, t] : taken) { const auto it = c.find(s); vm::require(it != c.end() && it->second == t, "random:skeleton", [&] { return ctx("a dot of the skeleton was replaced, now" + str(c)); }); }
        sm::world w;
        w.p = ph;
        for (const auto& [s, t] : c)
        {
            w.sites.push_back(s);
            if (taken.contains(s)) continue;
            ++add;
            const auto row = 2 * s.m + s.l;
            vm::require(s.n >= a.n && s.n <= b.n && row >= 2 * a.m + a.l && row <= 2 * b.m + b.l, "random:area", [&] { return ctx("dot outside of the area, now" + str(c)); });
            if constexpr (is_sidb_defect_surface_v<L>)
                vm::require(y.get_sidb_defect(sm::cell_of<L>(s)).type == sidb_defect_type::NONE && (!skeleton || !skeleton->all_affected_sidbs(std::make_pair(0, 0)).contains(sm::cell_of<L>(s))), "random:defect", [&] { return ctx("dot at a defect, now" + str(c)); });
        }
        vm::require(add == p.number_of_sidbs, "random:number", [&] { return ctx(std::to_string(add) + " dots were added"); });
        if constexpr (is_sidb_defect_surface_v<L>)
            if (skeleton) skeleton->foreach_sidb_defect([&](const auto& d) { if (d.second.charge != 0) w.defects.push_back({sm::site_of<L>(d.first), static_cast<double>(d.second.charge), d.second.epsilon_r, d.second.lambda_tf}); });
        if (!w.sites.empty())
        {
            w.prepare();
            std::vector<int> q(w.sites.size(), -1);
            double worst = -1e300;
            for (std::size_t i = 0; i < w.sites.size(); ++i) worst = std::max(worst, -(w.internal(q, i) + w.ext[i]) - (0.59 - ph.mu));
            if (std::abs(worst) > 1e-5)
            {
                if (add != 0 && p.positive_sidbs == params_t::positive_charges::FORBIDDEN) vm::require(worst < 0, "random:positive", [&] { return ctx("positive charges possible in" + str(c)); });
                if (p.positive_sidbs == params_t::positive_charges::MAY_OCCUR) vm::require(worst > 0, "random:no-positive", [&] { return ctx("no positive charges in" + str(c)); });
            }
        }
        return c;
    };
    const auto one = generate_random_sidb_layout<L>(p, skeleton);
    if (one) judge_layout(*one), vm::count("random layouts"); else vm::count("refused");
    if (!one && p.maximal_attempts == 5000 && mode < 2)
    {
        // there is room, and 5000 attempts find it
        std::size_t room = 0;
        for (auto n = a.n; n <= b.n; ++n) for (auto y = 2 * a.m + a.l; y <= 2 * b.m + b.l; ++y) { const site s{n, y >= 0 ? y / 2 : -((1 - y) / 2), ((y % 2) + 2) % 2}; bool ok = !taken.contains(s); if constexpr (is_sidb_defect_surface_v<L>) if (skeleton && (skeleton->get_sidb_defect(sm::cell_of<L>(s)).type != sidb_defect_type::NONE || skeleton->all_affected_sidbs(std::make_pair(0, 0)).contains(sm::cell_of<L>(s)))) ok = false; if (ok) ++room; }
        vm::require(room < p.number_of_sidbs || room < 3, "random:refused", [&] { return ctx("nothing found although there are " + std::to_string(room) + " free positions"); });
    }
    p.number_of_unique_generated_layouts     = static_cast<uint64_t>(r.range(0, 6));
    p.maximal_attempts_for_multiple_layouts  = 20;
    p.maximal_attempts                       = std::min<uint64_t>(p.maximal_attempts, 300);
    if (p.positive_sidbs != params_t::positive_charges::MAY_OCCUR)
    {
        const auto many = generate_multiple_random_sidb_layouts<L>(p, skeleton);
        if (many)
        {
            std::set<std::map<site, int>> seen;
            for (const auto& y : *many) vm::require(seen.insert(judge_layout(y)).second, "random:unique", [&] { return ctx("the same layout twice"); });
            vm::require(!many->empty() && many->size() <= p.number_of_unique_generated_layouts, "random:many", [&] { return ctx(std::to_string(many->size()) + " layouts instead of " + std::to_string(p.number_of_unique_generated_layouts)); });
            vm::count("random layouts", static_cast<long>(many->size()));
        }
        else vm::count("refused");
    }
    vm::distinct(ctx(""));
}
VM_SUITE(random_layouts_siqad, 300, 2000) { random_layouts<sidb_100_cell_clk_lyt_siqad>(r); }
VM_SUITE(random_layouts_cube, 300, 2000) { random_layouts<sidb_100_cell_clk_lyt_cube>(r); }
VM_SUITE(random_layouts_offset, 300, 2000) { random_layouts<sidb_100_cell_clk_lyt>(r); }
VM_SUITE(random_layouts_defects, 300, 2000) { random_layouts<sidb_defect_surface<sidb_100_cell_clk_lyt_siqad>>(r); }
#endif
}  // namespace
VM_MAIN
