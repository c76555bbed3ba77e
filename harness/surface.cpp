// Monitors the analysis of defective surfaces: which gates fit where, and which skeletons can become gates at all.
#include "sidb_gates.hpp"

#include <fiction/technology/fcn_gate_library.hpp>
#include <fiction/technology/is_sidb_gate_design_impossible.hpp>
#include <fiction/technology/sidb_defect_surface.hpp>
#include <fiction/technology/sidb_surface_analysis.hpp>
#include <fiction/types.hpp>
#include <fiction/utils/truth_table_utils.hpp>

using namespace fiction;
using vm::cat;

namespace
{
constexpr int W = 5, H = 4;
// a library whose gates are drawn for every case
class drawn_library : public fcn_gate_library<sidb_technology, W, H>
{
  public:
    drawn_library() = delete;
    static gate_functions get_functional_implementations() { return functions(); }
    static gate_ports<port_position> get_gate_ports() { return ports(); }
    static gate_functions& functions() { thread_local gate_functions f; return f; }
    static gate_ports<port_position>& ports() { thread_local gate_ports<port_position> p; return p; }
};
using clyt = sidb_100_cell_clk_lyt;
using pos  = std::pair<int64_t, int64_t>;

std::string str(const port_list<port_position>& p)
{
    std::set<std::string> i, o;
    for (const auto& x : p.inp) i.insert(cat(x.x, ".", x.y));
    for (const auto& x : p.out) o.insert(cat(x.x, ".", x.y));
    std::string s;
    for (const auto& x : i) s += x + ",";
    s += ">";
    for (const auto& x : o) s += x + ",";
    return s;
}
// where tiles lie
template <typename Lyt> pos corner(const tile<Lyt>& t)
{
    int64_t x = static_cast<int64_t>(t.x) * W, y = static_cast<int64_t>(t.y) * H;
    if constexpr (std::is_same_v<Lyt, hex_even_row_gate_clk_lyt>) { y = static_cast<int64_t>(t.y) * (H * 3 / 4); if (t.y % 2 == 0) x += W / 2; }
    if constexpr (std::is_same_v<Lyt, cart_odd_col_gate_clk_lyt>) { if (t.x % 2 == 1) y += H / 2; }
    return {x, y};
}
template <typename Lyt>
void analysis(vm::rng& r, const char* topology)
{
    using cells = std::set<pos>;
    auto& functions = drawn_library::functions();
    auto& ports     = drawn_library::ports();
    functions.clear(), ports.clear();
    std::vector<std::pair<kitty::dynamic_truth_table, std::vector<std::pair<cells, std::vector<std::string>>>>> lib;
    std::string what = topology;
    const auto draw_port = [&]
    {
        port_list<port_position> p{};
        for (auto k = r.range(0, 2); k > 0; --k) p.inp.emplace(static_cast<uint16_t>(r.below(W)), static_cast<uint16_t>(r.below(H)));
        for (auto k = r.range(0, 2); k > 0; --k) p.out.emplace(static_cast<uint16_t>(r.below(W)), static_cast<uint16_t>(r.below(H)));
        return p;
    };
    for (const auto& f : {create_id_tt(), create_not_tt(), create_and_tt(), create_or_tt()})
    {
        if (r.chance(30)) continue;
        lib.emplace_back(f, decltype(lib)::value_type::second_type{});
        what += cat(" ", kitty::to_hex(f), "/", f.num_vars());
        for (auto k = r.range(1, 3); k > 0; --k)
        {
            drawn_library::fcn_gate g{};
            for (auto& row : g) row.fill(sidb_technology::cell_type::EMPTY);
            cells c;
            for (auto n = r.range(r.chance(10) ? 0 : 1, 5); n > 0; --n)
            {
                const auto x = r.below(W), y = r.below(H);
                g[y][x] = r.one_of({sidb_technology::cell_type::NORMAL, sidb_technology::cell_type::INPUT, sidb_technology::cell_type::OUTPUT, sidb_technology::cell_type::LOGIC});
                c.insert({static_cast<int64_t>(x), static_cast<int64_t>(y)});
            }
            if (ports.contains(g)) continue;
            std::vector<std::string> names;
            for (auto n = r.range(1, 3); n > 0; --n)
            {
                const auto p = draw_port();
                ports[g].push_back(p);
                names.push_back(str(p));
            }
            functions[f].push_back(g);
            what += "[";
            for (const auto& [x, y] : c) what += cat(x, ".", y, " ");
            what += cat(names.size(), "]");
            lib.back().second.emplace_back(c, names);
        }
    }
    const Lyt gl{{static_cast<uint64_t>(r.below(7)), static_cast<uint64_t>(r.below(7))}};
    // the surface may end before the tiles do
    const int64_t bx = r.chance(80) ? 60 : r.range(1, 30), by = r.chance(80) ? 50 : r.range(1, 25);
    sidb_defect_surface<clyt> s{clyt{{bx, by}}};
    struct spot { pos at; bool charged; };
    std::vector<spot> spots;
    for (auto k = r.range(0, 5); k > 0; --k)
    {
        const pos p{r.range(0, bx), r.range(0, by)};
        if (std::any_of(spots.begin(), spots.end(), [&](const auto& q) { return q.at == p; })) continue;
        const auto type = r.one_of({sidb_defect_type::DB, sidb_defect_type::SI_VACANCY, sidb_defect_type::ARSENIC, sidb_defect_type::SILOXANE, sidb_defect_type::RAISED_SI, sidb_defect_type::ETCH_PIT, sidb_defect_type::MISSING_DIMER, sidb_defect_type::UNKNOWN});
        const int  q    = r.chance(70) ? 0 : r.chance(50) ? 1 : -1;
        s.assign_sidb_defect({p.first, p.second}, sidb_defect{type, q, 5.6, 5.0});
        spots.push_back({p, q != 0 || type == sidb_defect_type::DB || type == sidb_defect_type::SI_VACANCY || type == sidb_defect_type::ARSENIC});
        what += cat(" ", static_cast<int>(type), ":", q, "@", p.first, ".", p.second);
    }
    std::optional<std::pair<uint64_t, uint64_t>> charged, neutral;
    if (r.chance(75)) charged = {{r.below(9), r.below(6)}};
    if (r.chance(50)) neutral = {{r.below(5), r.below(5)}};
    if (charged) what += cat(" charged ", charged->first, ".", charged->second);
    if (neutral) what += cat(" neutral ", neutral->first, ".", neutral->second);
    what += cat(" tiles ", gl.x() + 1, "x", gl.y() + 1, " surface ", bx + 1, "x", by + 1);
    vm::note(what);
    const auto list = sidb_surface_analysis<drawn_library>(gl, s, charged, neutral);
    const auto hit  = [&](const pos& c)
    {
        if (c.first > bx || c.second > by) return false;
        for (const auto& d : spots)
        {
            const int64_t h = d.charged ? (charged ? static_cast<int64_t>(charged->first) : 26) : neutral ? static_cast<int64_t>(neutral->first) : 1;
            const int64_t v = d.charged ? (charged ? static_cast<int64_t>(charged->second) : 13) : neutral ? static_cast<int64_t>(neutral->second) : 0;
            if (std::abs(c.first - d.at.first) <= h && std::abs(c.second - d.at.second) <= v) return true;
        }
        return false;
    };
    std::size_t tiles = 0, bans = 0;
    for (uint64_t y = 0; y <= gl.y(); ++y)
        for (uint64_t x = 0; x <= gl.x(); ++x)
        {
            const tile<Lyt> t{x, y};
            const auto [cx, cy] = corner<Lyt>(t);
            const auto it = list.find(t);
            std::size_t fs = 0;
            for (const auto& [f, impls] : lib)
            {
                std::multiset<std::string> want, got;
                for (const auto& [c, names] : impls)
                    if (std::any_of(c.begin(), c.end(), [&, cx = cx, cy = cy](const auto& q) { return hit({cx + q.first, cy + q.second}); })) want.insert(names.begin(), names.end());
                fs += !want.empty();
                bans += want.size();
                if (it != list.end())
                    if (const auto ft = it->second.find(f); ft != it->second.end()) for (const auto& p : ft->second) got.insert(str(p));
                vm::require(want == got, want.size() > got.size() ? "black-list:missing" : "black-list:spurious", [&] { return cat(what, ": tile ", x, ",", y, " ", got.size(), " port lists, not ", want.size()); });
            }
            vm::require(fs == (it == list.end() ? 0 : it->second.size()), "black-list:functions", [&] { return cat(what, ": tile ", x, ",", y); });
            tiles += fs > 0;
        }
    vm::require(list.size() == tiles, "black-list:tiles", [&] { return cat(what, ": ", list.size(), " not ", tiles); });
    vm::count("port lists banned", static_cast<long>(bans));
    vm::count("tiles with bans", static_cast<long>(tiles));
    vm::distinct(what);
}
template <typename Base> void impossible(vm::rng& r)
{
    using L = sidb_defect_surface<Base>;
    auto g = sg::random_gate(r, 0, false);
    if (!sg::unambiguous(g) || g.of(sg::OUT).empty() || g.of(sg::IN).empty()) return;
    // defects around the outputs
    std::set<sm::site> taken;
    L l0 = g.template layout<L>();
    l0.foreach_cell([&](const auto& c) { taken.insert(sm::site_of<L>(c)); });
    const auto outs = g.of(sg::OUT);
    for (auto k = r.range(0, 3); k > 0; --k)
    {
        const auto& b = *outs[r.below(outs.size())];
        const auto& o = r.chance(50) ? b.start : b.end;
        const sm::site s{o.n + r.range(-12, 12), o.m + r.range(-4, 4), r.range(0, 1)};
        if (!taken.insert(s).second) continue;
        g.defects.push_back({s, static_cast<double>(r.one_of({-1, -1, -1, 1, 0, -2})), 3.0 + r.unit() * 6, 2.0 + r.unit() * 6});
    }
    const auto lay = g.template layout<L>();
    is_sidb_gate_design_impossible_params ps{};
    ps.simulation_params = sm::params_of(g.p);
    if (r.chance(40)) ps.bdl_iterator_params.input_bdl_config = bdl_input_iterator_params::input_bdl_configuration::PERTURBER_ABSENCE_ENCODED;
    double worst = -1e9;
    for (const auto* p : outs)
        for (const auto& o : {p->start, p->end})
        {
            double v = 0;
            for (const auto& d : g.defects) v -= d.q * sm::coulomb(sm::dist(false, o, d.s), d.eps, d.lambda);
            worst = std::max(worst, v + g.p.mu);
        }
    std::string what = cat(g.family, " mu ", g.p.mu, " margin ", worst);
    for (const auto& d : g.defects) what += cat(" ", d.q, "@", d.s.n, ".", d.s.m, ".", d.s.l, " eps ", d.eps, " lambda ", d.lambda);
    vm::note(what);
    if (std::abs(worst) < 1e-3) { vm::count("too close"); return; }
    kitty::dynamic_truth_table t(static_cast<uint32_t>(g.inputs()));
    const std::vector<kitty::dynamic_truth_table> spec(outs.size(), t);
    const bool is = is_sidb_gate_design_impossible(lay, spec, ps);
    vm::require(is == (worst > 0), is ? "impossible:although-possible" : "impossible:missed", what);
    vm::count(is ? "impossible skeletons" : "possible skeletons");
    vm::distinct(what);
}
}  // namespace
VM_SUITE(analysis_cartesian, 600, 6000) { analysis<cart_gate_clk_lyt>(r, "cartesian"); }
VM_SUITE(analysis_shifted, 300, 3000) { analysis<cart_odd_col_gate_clk_lyt>(r, "shifted"); }
VM_SUITE(analysis_hexagonal, 600, 6000) { analysis<hex_even_row_gate_clk_lyt>(r, "hexagonal"); }
VM_SUITE(impossible_siqad, 600, 6000) { impossible<sidb_100_cell_clk_lyt_siqad>(r); }
VM_SUITE(impossible_cube, 300, 3000) { impossible<sidb_100_cell_clk_lyt_cube>(r); }
VM_MAIN
