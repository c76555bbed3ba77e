// Monitors charge distribution surfaces and the ground state simulators against an independent electrostatic model.
#include "sidb_model.hpp"

#include <fiction/algorithms/simulation/sidb/clustercomplete.hpp>
#include <fiction/algorithms/simulation/sidb/energy_distribution.hpp>
#include <fiction/algorithms/simulation/sidb/exhaustive_ground_state_simulation.hpp>
#include <fiction/algorithms/simulation/sidb/minimum_energy.hpp>
#include <fiction/algorithms/simulation/sidb/quickexact.hpp>
#include <fiction/algorithms/simulation/sidb/quicksim.hpp>

using namespace fiction;
using namespace sm;

namespace
{
constexpr double tol = 1e-9;
bool near(const double a, const double b, const double t = tol) { return std::abs(a - b) <= t * (1.0 + std::abs(a) + std::abs(b)); }

template <typename Lyt> Lyt layout_of(const world& w)
{
    Lyt l{};
    if constexpr (!has_siqad_coord_v<Lyt> && !has_cube_coord_v<Lyt>) l.resize(aspect_ratio<Lyt>{100, 100});
    for (const auto& s : w.sites) l.assign_cell_type(cell_of<Lyt>(s), Lyt::technology::cell_type::NORMAL);
    if constexpr (is_sidb_defect_surface_v<Lyt>)
        for (const auto& d : w.defects) l.assign_sidb_defect(cell_of<Lyt>(d.s), sidb_defect{sidb_defect_type::SI_VACANCY, static_cast<int64_t>(d.q), d.eps, d.lambda});
    return l;
}
void add_defects(world& w, vm::rng& r, const bool negative)
{
    const std::set<site> taken(w.sites.begin(), w.sites.end());
    for (auto n = r.range(0, 3); n > 0; --n)
    {
        const auto s = random_sites(r, 1, negative)[0];
        if (taken.contains(s) || std::any_of(w.defects.begin(), w.defects.end(), [&](const auto& d) { return d.s == s; })) continue;
        const bool q = r.chance(80);
        w.defects.push_back({s, q ? static_cast<double>(r.chance(60) ? -1 : r.chance(70) ? 1 : -2) : 0.0, r.real(2.0, 12.0), r.real(0.8, 10.0)});
    }
    w.prepare();
}

template <typename Cds>
void compare(const Cds& c, const world& w, const std::vector<int>& q, const bool fresh, const std::string& what)
{
    using Lyt = Cds;
    const auto ctx = [&](const std::string& s) { return s + " in " + w.str() + " charges " + str(q) + " after " + what; };
    int neg = 0, pos = 0, neu = 0;
    for (const auto x : q) (x < 0 ? neg : x > 0 ? pos : neu)++;
    vm::require(c.num_cells() == w.sites.size(), "surface:cells", [&] { return ctx("number of cells " + std::to_string(c.num_cells())); });
    vm::require(c.num_negative_sidbs() == static_cast<std::size_t>(neg) && c.num_positive_sidbs() == static_cast<std::size_t>(pos) && c.num_neutral_sidbs() == static_cast<std::size_t>(neu), "surface:counts", [&] { return ctx("charge counts"); });
    vm::require(c.charge_exists(sidb_charge_state::NEGATIVE) == (neg > 0) && c.charge_exists(sidb_charge_state::POSITIVE) == (pos > 0) && c.charge_exists(sidb_charge_state::NEUTRAL) == (neu > 0), "surface:exists", [&] { return ctx("charge_exists"); });
    for (std::size_t i = 0; i < q.size(); ++i)
    {
        const auto k = cell_of<Lyt>(w.sites[i]);
        const auto x = c.cell_to_index(k);
        vm::require(x >= 0 && x < static_cast<int64_t>(q.size()) && c.index_to_cell(static_cast<uint64_t>(x)) == k, "surface:index-of-cell", [&] { return ctx("cell_to_index"); });
        const auto u = static_cast<uint64_t>(x);
        vm::require(c.get_charge_state(k) == state(q[i]) && c.get_charge_state_by_index(u) == state(q[i]) && c.get_all_sidb_charges()[u] == state(q[i]), "surface:charge", [&] { return ctx("charge of SiDB " + std::to_string(i)); });
        for (std::size_t j = 0; j < q.size(); ++j)
        {
            const auto kj = cell_of<Lyt>(w.sites[j]);
            vm::require(near(c.get_nm_distance_between_sidbs(k, kj), dist(w.o111, w.sites[i], w.sites[j])), "surface:distance", [&] { return ctx("distance"); });
            vm::require(near(c.get_chargeless_potential_between_sidbs(k, kj), w.v[i][j]) && near(c.calculate_chargeless_potential_between_sidbs(k, kj), w.v[i][j]), "surface:pair-potential", [&] { return ctx("potential between two SiDBs"); });
            vm::require(near(c.get_potential_between_sidbs(k, kj), w.v[i][j] * q[j]), "surface:signed-potential", [&] { return ctx("signed potential"); });
        }
        if (!fresh) continue;
        const auto in = w.internal(q, i);
        vm::require(near(c.get_local_internal_potential(k).value(), in) && near(c.get_local_internal_potential_by_index(u).value(), in), "surface:internal-potential", [&] { return ctx("internal potential " + std::to_string(*c.get_local_internal_potential(k)) + " instead of " + std::to_string(in)); });
        vm::require(near(c.get_local_external_potential(k).value(), w.ext[i]) && near(c.get_local_external_potential_by_index(u).value(), w.ext[i]), "surface:external-potential", [&] { return ctx("external potential"); });
        vm::require(near(c.get_local_potential(k).value(), in + w.ext[i]) && near(c.get_local_potential_by_index(u).value(), in + w.ext[i]), "surface:local-potential", [&] { return ctx("local potential"); });
        vm::require(near(c.get_local_potential_caused_by_defects(k).value(), w.vd[i]) && near(c.get_local_potential_caused_by_defects_by_index(u).value(), w.vd[i]), "surface:defect-potential", [&] { return ctx("potential of defects"); });
    }
    if (!fresh) return;
    const auto e = w.energy(q);
    vm::require(near(c.get_electrostatic_potential_energy(), e), "surface:energy", [&] { return ctx("energy " + std::to_string(c.get_electrostatic_potential_energy()) + " instead of " + std::to_string(e)); });
    const auto v = w.valid(q);
    if (v >= 0) vm::require(c.is_physically_valid() == (v == 1), "surface:validity", [&] { return ctx(v == 1 ? "valid configuration called invalid" : "invalid configuration called valid"); });
    if (const auto h = w.hops(q); h >= 0)
    {
        vm::require(c.is_configuration_stable() == (h == 1), "surface:configuration-stability", [&] { return ctx(h == 1 ? "stable configuration called unstable" : "unstable configuration called stable"); });
        vm::count(h == 1 ? "stable against hops" : "unstable against hops");
    }
    vm::count(v == 1 ? "valid configurations" : v == 0 ? "invalid configurations" : "borderline configurations");
    if (v >= 0) vm::distinct(w.str() + str(q));
}
template <typename Cds> void check_index(const Cds& c, const world& w, const std::vector<int>& q, const std::string& what)
{
    // the first SiDB in the order of the surface is the most significant digit
    std::map<std::size_t, int> by;
    for (std::size_t i = 0; i < q.size(); ++i) by[static_cast<std::size_t>(c.cell_to_index(cell_of<Cds>(w.sites[i])))] = q[i];
    uint64_t x = 0;
    for (const auto& [i, s] : by) x = x * static_cast<uint64_t>(w.p.base) + static_cast<uint64_t>(s + 1);
    const auto [got, base] = c.get_charge_index_and_base();
    vm::require(got == x && base == w.p.base, "surface:charge-index", [&] { return "charge index " + std::to_string(got) + " base " + std::to_string(base) + " instead of " + std::to_string(x) + " for " + str(q) + " in " + w.str() + " after " + what; });
}

template <typename Lyt> void surface(vm::rng& r, const int histories)
{
    for (int h = 0; h < histories; ++h)
    {
        auto w = random_world<Lyt>(r, 7, false);
        constexpr bool neg = has_siqad_coord_v<Lyt> || has_cube_coord_v<Lyt>;
        if constexpr (is_sidb_defect_surface_v<Lyt>) add_defects(w, r, neg);
        const auto from_layout = w.defects;
        std::vector<int> q(w.sites.size(), r.chance(60) ? -1 : r.chance(50) || w.p.base == 2 ? 0 : 1);
        charge_distribution_surface<Lyt> c{layout_of<Lyt>(w), params_of(w.p), state(q[0])};
        std::erase_if(w.defects, [](const auto& d) { return d.q == 0.0; });
        w.ext_d.clear();
        w.prepare();
        std::string what = "construction";
        compare(c, w, q, true, what);
        bool fresh = true;
        for (auto steps = r.range(3, 14); steps > 0; --steps)
        {
            const auto n = q.size();
            const auto i = static_cast<std::size_t>(r.below(n));
            const auto k = cell_of<charge_distribution_surface<Lyt>>(w.sites[i]);
            const int  s = w.p.base == 2 ? static_cast<int>(r.range(-1, 0)) : static_cast<int>(r.range(-1, 1));
            switch (r.below(14))
            {
                case 0: c.assign_charge_state(k, state(s)); q[i] = s; what += ";assign " + std::to_string(i); fresh = false; check_index(c, w, q, what); break;
                case 1: c.assign_charge_state_by_index(static_cast<uint64_t>(c.cell_to_index(k)), state(s)); q[i] = s; what += ";by index " + std::to_string(i); fresh = false; check_index(c, w, q, what); break;
                case 2: c.assign_all_charge_states(state(s)); std::fill(q.begin(), q.end(), s); what += ";all"; fresh = false; check_index(c, w, q, what); break;
                case 3:
                case 4: c.update_after_charge_change(); fresh = true; what += ";update"; break;
                case 5:
                {
                    const auto max = c.get_max_charge_index();
                    uint64_t   lim = 1;
                    for (std::size_t z = 0; z < n; ++z) lim *= static_cast<uint64_t>(w.p.base);
                    vm::require(max == lim - 1, "surface:max-index", [&] { return std::to_string(max) + " in " + w.str(); });
                    const auto x = r.below(lim);
                    c.assign_charge_index(x);
                    auto rest = x;
                    for (std::size_t z = n; z-- > 0;)
                    {
                        const auto at = c.index_to_cell(z);
                        for (std::size_t a = 0; a < n; ++a)
                            if (cell_of<charge_distribution_surface<Lyt>>(w.sites[a]) == at) q[a] = static_cast<int>(rest % static_cast<uint64_t>(w.p.base)) - 1;
                        rest /= static_cast<uint64_t>(w.p.base);
                    }
                    what += ";index " + std::to_string(x);
                    fresh = false;
                    check_index(c, w, q, what);
                    if (x < max && r.chance(50))
                    {
                        c.increase_charge_index_by_one();
                        rest = x + 1;
                        for (std::size_t z = n; z-- > 0;)
                        {
                            const auto at = c.index_to_cell(z);
                            for (std::size_t a = 0; a < n; ++a)
                                if (cell_of<charge_distribution_surface<Lyt>>(w.sites[a]) == at) q[a] = static_cast<int>(rest % static_cast<uint64_t>(w.p.base)) - 1;
                            rest /= static_cast<uint64_t>(w.p.base);
                        }
                        what += ";next";
                        fresh = true;
                        check_index(c, w, q, what);
                    }
                    break;
                }
                case 6:
                {
                    const auto d = random_sites(r, 1, neg)[0];
                    if (std::find(w.sites.begin(), w.sites.end(), d) != w.sites.end()) break;
                    const double dq = r.chance(60) ? -1 : 1;
                    const defect_at at{d, dq, r.real(2.0, 12.0), r.real(0.8, 10.0)};
                    c.add_sidb_defect_to_potential_landscape(cell_of<charge_distribution_surface<Lyt>>(d), sidb_defect{sidb_defect_type::UNKNOWN, static_cast<int64_t>(dq), at.eps, at.lambda});
                    bool there = false;
                    for (auto& o : w.defects)
                        if (o.s == d) { o = at; there = true; }
                    if (!there) { w.defects.push_back(at); w.ext_d.push_back(0.0); }
                    w.prepare();
                    c.update_after_charge_change();
                    fresh = true;
                    what += ";defect(" + std::to_string(d.n) + "," + std::to_string(d.m) + "," + std::to_string(d.l) + ")";
                    break;
                }
                case 7:
                {
                    if (w.defects.empty()) break;
                    const auto x = static_cast<std::ptrdiff_t>(r.below(w.defects.size()));
                    c.erase_defect(cell_of<charge_distribution_surface<Lyt>>(w.defects[static_cast<std::size_t>(x)].s));
                    w.defects.erase(w.defects.begin() + x);
                    w.ext_d.erase(w.ext_d.begin() + x);
                    w.prepare();
                    c.update_after_charge_change();
                    fresh = true;
                    what += ";erase defect";
                    break;
                }
                case 8:
                {
                    std::unordered_map<cell<Lyt>, double> m;
                    for (std::size_t a = 0; a < n; ++a)
                        if (r.chance(40)) { const auto p = r.real(-0.3, 0.3); m[cell_of<Lyt>(w.sites[a])] = p; w.ext[a] += p; }
                    for (std::size_t a = 0; a < w.defects.size(); ++a)
                        if (r.chance(30)) { const auto p = r.real(-0.3, 0.3); m[cell_of<Lyt>(w.defects[a].s)] = p; w.ext_d[a] += p; }
                    c.assign_local_external_potential(m);
                    c.update_after_charge_change();
                    fresh = true;
                    what += ";local potentials";
                    break;
                }
                case 9:
                {
                    const auto p = r.real(-0.3, 0.3);
                    c.assign_global_external_potential(p);
                    for (auto& e : w.ext) e += p;
                    c.update_after_charge_change();
                    fresh = true;
                    what += ";global potential";
                    break;
                }
                case 10:
                {
                    c.reset_local_external_potentials();
                    std::fill(w.ext.begin(), w.ext.end(), 0.0);
                    std::fill(w.ext_d.begin(), w.ext_d.end(), 0.0);
                    c.update_after_charge_change();
                    fresh = true;
                    what += ";reset potentials";
                    break;
                }
                case 11:
                {
                    auto p = random_phys(r);
                    if (std::find(q.begin(), q.end(), 1) != q.end()) p.base = 3;
                    w.p = p;
                    w.prepare();
                    c.assign_physical_parameters(params_of(p));
                    fresh = true;
                    what += ";parameters";
                    break;
                }
                case 12:
                {
                    // copies are equal and live on their own
                    auto d = r.chance(50) ? charge_distribution_surface<Lyt>{c} : c.clone();
                    compare(d, w, q, fresh, what + ";copy");
                    d.assign_all_charge_states(sidb_charge_state::NEUTRAL);
                    d.update_after_charge_change();
                    d.assign_global_external_potential(0.1);
                    compare(c, w, q, fresh, what + ";change of a copy");
                    break;
                }
                default:
                {
                    // assignment replaces everything, the SiDBs included
                    const auto o = random_world<Lyt>(r, 5, false);
                    charge_distribution_surface<Lyt> d{layout_of<Lyt>(o), params_of(o.p)};
                    d = c;
                    compare(d, w, q, fresh, what + ";assigned to another surface");
                    d.assign_all_charge_states(sidb_charge_state::NEUTRAL);
                    compare(c, w, q, fresh, what + ";change of an assigned surface");
                    what += ";assignment";
                    break;
                }
            }
            vm::count("operations on charge distribution surfaces");
            compare(c, w, q, fresh, what);
        }
    }
}

template <typename Lyt>
void judge(const std::string& engine, const sidb_simulation_result<Lyt>& res, const world& w, const std::map<std::vector<int>, int>& expect, const bool exact, const bool energy_ok = true)
{
    std::map<std::vector<int>, int> got;
    for (const auto& c : res.charge_distributions)
    {
        std::vector<int> q;
        for (const auto& s : w.sites) q.push_back(charge(c.get_charge_state(cell_of<Lyt>(s))));
        ++got[q];
        vm::require(c.num_cells() == w.sites.size(), (engine + ":cells").c_str(), [&] { return "result with " + std::to_string(c.num_cells()) + " SiDBs for " + w.str(); });
        vm::require(expect.contains(q), (engine + ":invalid").c_str(), [&] { return "reports " + str(q) + ", which is not physically valid, for " + w.str(); });
        vm::require(c.is_physically_valid() || expect.at(q) < 0, (engine + ":flag").c_str(), [&] { return "the result " + str(q) + " is not marked physically valid, for " + w.str(); });
        if (energy_ok)
            vm::require(near(c.get_electrostatic_potential_energy(), w.energy(q), 1e-7), (engine + ":energy").c_str(), [&] { return "energy " + std::to_string(c.get_electrostatic_potential_energy()) + " instead of " + std::to_string(w.energy(q)) + " of " + str(q) + " in " + w.str(); });
    }
    if (!exact) return;
    for (const auto& [q, ok] : expect)
        if (ok > 0) vm::require(got.contains(q), (engine + ":missing").c_str(), [&] { return "misses " + str(q) + " of " + std::to_string(expect.size()) + " valid configurations of " + w.str(); });
    for (const auto& [q, n] : got) vm::require(n == 1, (engine + ":twice").c_str(), [&] { return "reports " + str(q) + " " + std::to_string(n) + " times for " + w.str(); });
    // the ground states are the configurations of the least energy
    if (expect.empty() || got.empty()) return;
    double min = 1e9;
    bool   close = false;
    for (const auto& [q, ok] : expect) { min = std::min(min, w.energy(q)); close = close || ok < 0; }
    if (close || !energy_ok) return;
    vm::require(near(minimum_energy(res.charge_distributions.cbegin(), res.charge_distributions.cend()), min, 1e-7), (engine + ":minimum-energy").c_str(), [&] { return "minimum energy of " + w.str(); });
    std::set<std::vector<int>> gs;
    const auto ground = res.groundstates();
    for (const auto& c : ground)
    {
        std::vector<int> q;
        for (const auto& s : w.sites) q.push_back(charge(c.get_charge_state(cell_of<Lyt>(s))));
        vm::require(gs.insert(q).second && w.energy(q) < min + 2e-6, (engine + ":groundstates").c_str(), [&] { return "ground state " + str(q) + " of " + w.str(); });
    }
    for (const auto& [q, ok] : expect)
        if (w.energy(q) < min + 5e-7) vm::require(gs.contains(q), (engine + ":groundstates").c_str(), [&] { return "ground state " + str(q) + " of " + w.str() + " not reported"; });
    vm::count("ground states", gs.size());
}

template <typename Lyt> void engines(vm::rng& r, const int worlds, const std::size_t max)
{
    constexpr bool neg = has_siqad_coord_v<Lyt> || has_cube_coord_v<Lyt>;
    for (int k = 0; k < worlds; ++k)
    {
        auto w = random_world<Lyt>(r, max, true);
        if constexpr (is_sidb_defect_surface_v<Lyt>) add_defects(w, r, neg);
        const auto with_defects = w;
        const auto l            = layout_of<Lyt>(w);
        std::erase_if(w.defects, [](const auto& d) { return d.q == 0.0; });
        w.ext_d.clear();
        w.prepare();
        std::unordered_map<cell<Lyt>, double> local;
        double                                global = 0.0;
        if (r.chance(50)) { global = w.ext[0]; }
        for (std::size_t i = 0; i < w.sites.size(); ++i)
            if (w.ext[i] != global) local[cell_of<Lyt>(w.sites[i])] = w.ext[i] - global;
        const auto two   = w.all_valid(2);
        const auto three = w.all_valid(3);
        bool       pos   = false;
        for (const auto& [q, ok] : three) pos = pos || std::find(q.begin(), q.end(), 1) != q.end();
        vm::count("valid configurations", three.size());
        if (pos) vm::count("layouts with positive charges");
        if (three.size() > 1) vm::count("layouts with several valid configurations");
        if (!local.empty() || global != 0) vm::count("layouts under external potentials");
        if (!w.defects.empty()) vm::count("layouts with charged defects");
        vm::distinct(w.str());

        quickexact_params<cell<Lyt>> qp{};
        qp.simulation_parameters    = params_of(w.p);
        qp.base_number_detection    = quickexact_params<cell<Lyt>>::automatic_base_number_detection::ON;
        qp.local_external_potential = local;
        qp.global_potential         = global;
        judge("quickexact", quickexact(l, qp), w, three, true);
        qp.base_number_detection = quickexact_params<cell<Lyt>>::automatic_base_number_detection::OFF;
        judge("quickexact-fixed-base", quickexact(l, qp), w, w.p.base == 2 ? two : three, true);

        clustercomplete_params<cell<Lyt>> cp{};
        cp.simulation_parameters    = params_of(w.p);
        cp.local_external_potential = local;
        cp.global_potential         = global;
        cp.available_threads        = r.chance(60) ? 1 : static_cast<uint64_t>(r.range(2, 4));
        cp.validity_witness_partitioning_max_cluster_size_gss = static_cast<uint64_t>(r.range(0, 8));
        cp.num_overlapping_witnesses_limit_gss = static_cast<uint64_t>(r.range(0, 7));
        judge("clustercomplete", clustercomplete(l, cp), w, w.p.base == 2 ? two : three, true);

        if (local.empty() && global == 0.0)
        {
            judge("exhaustive", exhaustive_ground_state_simulation(l, params_of(w.p)), w, w.p.base == 2 ? two : three, true);
            if constexpr (!is_sidb_defect_surface_v<Lyt>)
            {
                quicksim_params sp{};
                sp.simulation_parameters = params_of(w.p);
                sp.iteration_steps       = static_cast<uint64_t>(r.range(1, 60));
                sp.alpha                 = r.unit();
                sp.number_threads        = static_cast<uint64_t>(r.range(0, 4));
                if (const auto res = quicksim(l, sp)) { judge("quicksim", *res, w, two, false); vm::count("heuristic results", res->charge_distributions.size()); }
            }
        }
    }
}
}  // namespace

#if PART == 1
VM_SUITE(surfaces, 1, 30)
{
    surface<sidb_100_cell_clk_lyt_siqad>(r, 40);
    surface<sidb_111_cell_clk_lyt_siqad>(r, 15);
    surface<sidb_100_cell_clk_lyt_cube>(r, 15);
    surface<sidb_100_cell_clk_lyt>(r, 15);
    surface<sidb_defect_surface<sidb_100_cell_clk_lyt_siqad>>(r, 20);
}
#elif PART == 2
VM_SUITE(engines, 1, 30)
{
    engines<sidb_100_cell_clk_lyt_siqad>(r, 40, 7);
    engines<sidb_111_cell_clk_lyt_siqad>(r, 15, 6);
    engines<sidb_100_cell_clk_lyt_cube>(r, 15, 6);
    engines<sidb_defect_surface<sidb_100_cell_clk_lyt_siqad>>(r, 20, 6);
}
#endif
VM_MAIN
