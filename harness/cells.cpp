// Monitors cell-level layouts, defect surfaces and the utilities on them against a map from positions to what was
// assigned there.
#include "vm.hpp"

#include <fiction/layouts/bounding_box.hpp>
#include <fiction/technology/area.hpp>
#include <fiction/technology/magcad_magnet_count.hpp>
#include <fiction/technology/sidb_nm_distance.hpp>
#include <fiction/technology/sidb_nm_position.hpp>
#include <fiction/types.hpp>
#include <fiction/utils/layout_utils.hpp>

#include <cmath>
#include <map>
#include <set>

using namespace fiction;

namespace
{
using key = std::array<int64_t, 3>;
template <typename C> key k_of(const C& c) { return {static_cast<int64_t>(c.x), static_cast<int64_t>(c.y), static_cast<int64_t>(c.z)}; }
std::string str(const key& k) { return "(" + std::to_string(k[0]) + "," + std::to_string(k[1]) + "," + std::to_string(k[2]) + ")"; }

template <typename T> std::vector<typename T::cell_type> types()
{
    using t = typename T::cell_type;
    if constexpr (std::is_same_v<T, qca_technology>) return {t::EMPTY, t::NORMAL, t::INPUT, t::OUTPUT, t::CONST_0, t::CONST_1};
    else if constexpr (std::is_same_v<T, mol_qca_technology>) return {t::EMPTY, t::NORMAL1, t::NORMAL2, t::NORMAL3, t::NORMAL4, t::INPUT, t::OUTPUT, t::CONST_0, t::CONST_1};
    else if constexpr (std::is_same_v<T, inml_technology>) return {t::EMPTY, t::NORMAL, t::INPUT, t::OUTPUT, t::SLANTED_EDGE_UP_MAGNET, t::SLANTED_EDGE_DOWN_MAGNET, t::INVERTER_MAGNET, t::CROSSWIRE_MAGNET, t::FANOUT_COUPLER_MAGNET};
    else return {t::EMPTY, t::NORMAL, t::INPUT, t::OUTPUT, t::LOGIC};
}
template <typename T> constexpr bool moded = std::is_same_v<T, qca_technology> || std::is_same_v<T, mol_qca_technology>;

template <typename Lyt> struct model
{
    using T = technology<Lyt>;
    std::map<key, typename T::cell_type>      type;
    std::map<key, int>                        mode;
    std::map<key, std::string>                name;
    std::map<key, int>                        zone;
    std::string                               lname;
    int                                       tx = 1, ty = 1;
    std::map<key, sidb_defect>                defect;
};

template <typename Lyt> struct area_of
{
    int64_t x0, y0, z0, x1, y1, z1;
};
template <typename Lyt> area_of<Lyt> span(const int64_t w, const int64_t h, const bool negative)
{
    if constexpr (has_siqad_coord_v<Lyt>) return {negative ? -w : 0, negative ? -h : 0, 0, w, h, 1};
    else if constexpr (has_cube_coord_v<Lyt>) return {negative ? -w : 0, negative ? -h : 0, 0, w, h, has_sidb_technology_v<Lyt> ? 0 : 1};
    else return {0, 0, 0, w, h, has_sidb_technology_v<Lyt> ? 0 : 1};
}
template <typename Lyt> cell<Lyt> some(vm::rng& r, const area_of<Lyt>& a)
{
    return cell<Lyt>{static_cast<decltype(cell<Lyt>::x)>(r.range(a.x0, a.x1)), static_cast<decltype(cell<Lyt>::y)>(r.range(a.y0, a.y1)), static_cast<decltype(cell<Lyt>::z)>(r.range(a.z0, a.z1))};
}
template <typename Lyt> Lyt fresh(vm::rng& r, const int64_t w, const int64_t h, model<Lyt>& m)
{
    if constexpr (requires { Lyt{aspect_ratio<Lyt>{}, std::string{}, uint16_t{1}, uint16_t{1}}; })
    {
        m.lname = (r.below(2) == 1) ? "top" : "";
        m.tx    = static_cast<int>(r.range(1, 5));
        m.ty    = static_cast<int>(r.range(1, 5));
        return Lyt{aspect_ratio<Lyt>{w, h, 1}, twoddwave_clocking<Lyt>(), m.lname, static_cast<uint16_t>(m.tx), static_cast<uint16_t>(m.ty)};
    }
    else { return Lyt{aspect_ratio<Lyt>{w, h, 1}}; }
}

template <typename Lyt>
void compare(const Lyt& l, const model<Lyt>& m, const area_of<Lyt>& a, const char* when, const std::string& history, vm::rng& r)
{
    using T = technology<Lyt>;
    const auto ctx = [&](const std::string& s) { return std::string{when} + " " + s + " after " + history; };
    std::map<typename T::cell_type, uint64_t> per;
    uint64_t                                  pis = 0, pos = 0;
    for (const auto& [c, t] : m.type) { ++per[t]; pis += T::is_input_cell(t); pos += T::is_output_cell(t); }
    vm::require(l.num_cells() == m.type.size(), "cells:number", [&] { return ctx(std::to_string(l.num_cells()) + " cells"); });
    vm::require(l.is_empty() == m.type.empty(), "cells:empty", [&] { return ctx("is_empty"); });
    vm::require(l.num_pis() == pis && l.num_pos() == pos, "cells:pins", [&] { return ctx("numbers of pins"); });
    vm::require(l.get_layout_name() == m.lname, "cells:layout-name", [&] { return ctx(l.get_layout_name()); });
    vm::require(l.get_tile_size_x() == m.tx && l.get_tile_size_y() == m.ty, "cells:tile-size", [&] { return ctx("tile size"); });
    std::map<key, int> seen, ins, outs;
    l.foreach_cell([&](const auto& c) { ++seen[k_of(c)]; });
    l.foreach_pi([&](const auto& c) { ++ins[k_of(c)]; });
    l.foreach_po([&](const auto& c) { ++outs[k_of(c)]; });
    bool ok = seen.size() == m.type.size() && ins.size() == pis && outs.size() == pos;
    for (const auto& [c, n] : seen) ok = ok && n == 1 && m.type.contains(c);
    for (const auto& [c, n] : ins) ok = ok && n == 1 && m.type.contains(c) && T::is_input_cell(m.type.at(c));
    for (const auto& [c, n] : outs) ok = ok && n == 1 && m.type.contains(c) && T::is_output_cell(m.type.at(c));
    vm::require(ok, "cells:iteration", [&] { return ctx("iterating cells or pins"); });
    for (int64_t z = a.z0; z <= a.z1; ++z)
        for (int64_t y = a.y0; y <= a.y1; ++y)
            for (int64_t x = a.x0; x <= a.x1; ++x)
            {
                const key  k{x, y, z};
                const auto c = cell<Lyt>{static_cast<decltype(cell<Lyt>::x)>(x), static_cast<decltype(cell<Lyt>::y)>(y), static_cast<decltype(cell<Lyt>::z)>(z)};
                const auto t = m.type.contains(k) ? m.type.at(k) : T::cell_type::EMPTY;
                vm::require(l.get_cell_type(c) == t, "cells:type", [&] { return ctx(str(k)); });
                vm::require(l.is_empty_cell(c) == T::is_empty_cell(t), "cells:empty-cell", [&] { return ctx(str(k)); });
                vm::require(l.is_pi(c) == T::is_input_cell(t) && l.is_po(c) == T::is_output_cell(t), "cells:is-pin", [&] { return ctx(str(k)); });
                vm::require(l.get_cell_name(c) == (m.name.contains(k) ? m.name.at(k) : ""), "cells:name", [&] { return ctx(str(k)); });
                if constexpr (moded<T>)
                    vm::require(static_cast<int>(l.get_cell_mode(c)) == (m.mode.contains(k) ? m.mode.at(k) : 0), "cells:mode", [&] { return ctx(str(k)); });
                if constexpr (!has_siqad_coord_v<Lyt> && requires { Lyt{aspect_ratio<Lyt>{}, std::string{}, uint16_t{1}, uint16_t{1}}; })
                {
                    if (x < 0 || y < 0) continue;
                    const key zone{x / m.tx, y / m.ty, z};
                    const int n = m.zone.contains(zone) ? m.zone.at(zone) : static_cast<int>((zone[0] + zone[1]) % 4);
                    vm::require(l.get_clock_number(c) == n, "cells:clock", [&] { return ctx(str(k) + " is in zone " + std::to_string(l.get_clock_number(c)) + " instead of " + std::to_string(n)); });
                }
            }
    for (const auto t : types<T>())
    {
        if (T::is_empty_cell(t)) continue;
        std::map<key, int> s;
        for (const auto& c : l.get_cells_by_type(t)) ++s[k_of(c)];
        bool fine = s.size() == per[t];
        for (const auto& [c, n] : s) fine = fine && n == 1 && m.type.contains(c) && m.type.at(c) == t;
        vm::require(fine && l.num_cells_of_given_type(t) == per[t], "cells:by-type", [&] { return ctx("cells by type"); });
    }
    if (!m.type.empty())
    {
        const auto stop = r.below(m.type.size()) + 1;
        uint64_t   n    = 0;
        l.foreach_cell([&](const auto&) { return ++n < stop; });
        vm::require(n == stop, "cells:abort", [&] { return ctx("iteration went on"); });
    }
    if constexpr (is_sidb_defect_surface_v<Lyt>)
    {
        uint64_t pos_d = 0, neg_d = 0, neutral = 0;
        for (const auto& [c, d] : m.defect)
        {
            pos_d += d.charge > 0;
            neg_d += d.charge < 0;
            neutral += d.charge == 0 && d.type != sidb_defect_type::DB && d.type != sidb_defect_type::SI_VACANCY && d.type != sidb_defect_type::ARSENIC;
        }
        vm::require(l.num_defects() == m.defect.size(), "defects:number", [&] { return ctx(std::to_string(l.num_defects()) + " defects"); });
        vm::require(l.num_positively_charged_defects() == pos_d && l.num_negatively_charged_defects() == neg_d && l.num_charged_defects() == pos_d + neg_d, "defects:charged", [&] { return ctx("charged defects"); });
        vm::require(l.num_neutral_defects() == neutral, "defects:neutral", [&] { return ctx("neutral defects"); });
        std::map<key, int> ds;
        bool               same = true;
        l.foreach_sidb_defect([&](const auto& d) { ++ds[k_of(d.first)]; same = same && m.defect.contains(k_of(d.first)) && m.defect.at(k_of(d.first)) == d.second; });
        vm::require(same && ds.size() == m.defect.size(), "defects:iteration", [&] { return ctx("iterating defects"); });
        for (int i = 0; i < 8; ++i)
        {
            const auto c = some<Lyt>(r, a);
            const auto d = l.get_sidb_defect(c);
            const auto k = k_of(c);
            vm::require(m.defect.contains(k) ? d == m.defect.at(k) : d.type == sidb_defect_type::NONE, "defects:get", [&] { return ctx(str(k)); });
        }
    }
}

template <typename Lyt> void history(vm::rng& r, const char* what)
{
    using T            = technology<Lyt>;
    const auto w       = r.range(0, 7), h = r.range(0, 7);
    const bool neg     = r.chance(40);
    auto       m       = model<Lyt>{};
    auto       l       = fresh<Lyt>(r, w, h, m);
    const auto a       = span<Lyt>(w, h, neg);
    const auto ts      = types<T>();
    sidb_defect_surface_params ps{};
    std::set<sidb_defect_type> ignored;
    if constexpr (is_sidb_defect_surface_v<Lyt>)
    {
        if ((r.below(2) == 1)) { ps.ignore = {sidb_defect_type::GUNK, sidb_defect_type::ARSENIC}; ignored = {sidb_defect_type::GUNK, sidb_defect_type::ARSENIC}; }
        l = Lyt{aspect_ratio<Lyt>{w, h}, ps};
    }
    std::string hist;
    struct shelf { Lyt l; model<Lyt> m; };
    std::vector<shelf> put_aside;
    const auto n = r.range(5, vm::thorough() ? 120 : 60);
    for (int64_t i = 0; i < n; ++i)
    {
        const auto c = some<Lyt>(r, a);
        const auto k = k_of(c);
        switch (r.below(is_sidb_defect_surface_v<Lyt> ? 15 : 11))
        {
            case 0: case 1: case 2: case 3:
            {
                const auto t = r.pick(ts);
                l.assign_cell_type(c, t);
                if (T::is_empty_cell(t)) { m.type.erase(k); m.mode.erase(k); }
                else m.type[k] = t;
                hist += " t" + str(k) + static_cast<char>(t);
                break;
            }
            case 4: case 5:
            {
                if constexpr (moded<T>)
                {
                    const auto md = static_cast<int>(r.below(4));
                    l.assign_cell_mode(c, static_cast<typename T::cell_mode>(md));
                    if (md == 0) m.mode.erase(k); else m.mode[k] = md;
                    hist += " m" + str(k) + std::to_string(md);
                }
                break;
            }
            case 6:
            {
                const std::string s = r.chance(30) ? "" : std::string(1 + r.below(20), static_cast<char>('a' + r.below(26)));
                l.assign_cell_name(c, s);
                if (s.empty()) m.name.erase(k); else m.name[k] = s;
                hist += " n" + str(k) + s;
                break;
            }
            case 7:
            {
                if ((r.below(2) == 1)) { m.lname = std::string(r.below(5), 'q'); l.set_layout_name(m.lname); }
                else if ((r.below(2) == 1)) { m.tx = static_cast<int>(r.range(1, 6)); l.set_tile_size_x(static_cast<uint16_t>(m.tx)); }
                else { m.ty = static_cast<int>(r.range(1, 6)); l.set_tile_size_y(static_cast<uint16_t>(m.ty)); }
                hist += " props";
                break;
            }
            case 8:
            {
                put_aside.push_back({l.clone(), m});
                hist += " clone";
                break;
            }
            case 9:
            {
                if ((r.below(2) == 1) && !put_aside.empty())
                {
                    auto& s = put_aside[r.below(put_aside.size())];
                    std::swap(s.l, l);
                    std::swap(s.m, m);
                    hist += " swap";
                }
                else
                {
                    Lyt other{l};  // a copy shares what is stored
                    const auto t = r.pick(ts);
                    other.assign_cell_type(c, t);
                    if (T::is_empty_cell(t)) { m.type.erase(k); m.mode.erase(k); }
                    else m.type[k] = t;
                    hist += " copy:t" + str(k) + static_cast<char>(t);
                }
                break;
            }
            case 10:
            {
                if constexpr (!has_siqad_coord_v<Lyt> && requires { Lyt{aspect_ratio<Lyt>{}, std::string{}, uint16_t{1}, uint16_t{1}}; })
                {
                    if (k[0] < 0 || k[1] < 0) break;
                    const auto z = static_cast<uint8_t>(r.below(4));
                    l.assign_clock_number(c, z);
                    m.zone[k] = z;
                    hist += " z" + str(k) + std::to_string(z);
                }
                break;
            }
            default:
            {
                if constexpr (is_sidb_defect_surface_v<Lyt>)
                {
                    if (r.chance(70))
                    {
                        const auto        ty = static_cast<sidb_defect_type>(r.below(static_cast<uint64_t>(sidb_defect_type::UNKNOWN) + 1));
                        const sidb_defect d{ty, r.range(-2, 2), static_cast<double>(r.below(12)), static_cast<double>(r.below(8))};
                        l.assign_sidb_defect(c, d);
                        m.defect.erase(k);
                        if (ty != sidb_defect_type::NONE && !ignored.contains(ty)) m.defect.insert({k, d});
                        hist += " d" + str(k) + std::to_string(static_cast<int>(ty));
                    }
                    else
                    {
                        auto to = some<Lyt>(r, a), from = c;
                        if (!m.defect.empty() && r.chance(70))
                        {
                            auto it = m.defect.begin();
                            std::advance(it, static_cast<long>(r.below(m.defect.size())));
                            from = cell<Lyt>{static_cast<decltype(cell<Lyt>::x)>(it->first[0]), static_cast<decltype(cell<Lyt>::y)>(it->first[1]), static_cast<decltype(cell<Lyt>::z)>(it->first[2])};
                            if (r.chance(30)) { it = m.defect.begin(); to = cell<Lyt>{static_cast<decltype(cell<Lyt>::x)>(it->first[0]), static_cast<decltype(cell<Lyt>::y)>(it->first[1]), static_cast<decltype(cell<Lyt>::z)>(it->first[2])}; }
                        }
                        l.move_sidb_defect(from, to);
                        if (m.defect.contains(k_of(from)))
                        {
                            const auto d = m.defect.at(k_of(from));
                            m.defect.erase(k_of(from));
                            m.defect.erase(k_of(to));
                            m.defect.insert({k_of(to), d});
                        }
                        hist += " mv" + str(k_of(from)) + str(k_of(to));
                    }
                }
            }
        }
        if (r.chance(8) || i + 1 == n) compare(l, m, a, what, hist, r);
    }
    for (auto& s : put_aside) compare(s.l, s.m, a, what, "put aside;" + hist, r);
    vm::count("operations", n);
    vm::distinct(std::string{what} + hist);
    if (r.below(500) == 0) vm::sample(std::string{what} + hist.substr(0, 300));
}

#if PART == 1
VM_SUITE(qca_cells, 300, 6000) { history<qca_cell_clk_lyt>(r, "qca"); }
VM_SUITE(stacked_qca_cells, 300, 6000) { history<stacked_qca_cell_clk_lyt>(r, "stacked-qca"); }
VM_SUITE(mol_qca_cells, 300, 6000) { history<mol_qca_cell_clk_lyt>(r, "mol-qca"); }
VM_SUITE(inml_cells, 300, 6000) { history<inml_cell_clk_lyt>(r, "inml"); }
VM_SUITE(sidb_cells, 300, 6000) { history<sidb_cell_clk_lyt>(r, "sidb"); }
VM_SUITE(sidb_cube_cells, 300, 6000) { history<sidb_cell_clk_lyt_cube>(r, "sidb-cube"); }
VM_SUITE(sidb_siqad_cells, 300, 6000) { history<sidb_100_cell_clk_lyt_siqad>(r, "sidb-siqad"); }
VM_SUITE(defects, 400, 8000) { history<sidb_defect_surface<sidb_100_cell_clk_lyt>>(r, "defects"); }
VM_SUITE(defects_cube, 400, 8000) { history<sidb_defect_surface<sidb_cell_clk_lyt_cube>>(r, "defects-cube"); }
VM_SUITE(defects_siqad, 400, 8000) { history<sidb_defect_surface<sidb_111_cell_clk_lyt_siqad>>(r, "defects-siqad"); }

// positions a defect affects
template <typename Lyt> void affected(vm::rng& r)
{
    const auto w = r.range(0, 30), h = r.range(0, 30);
    Lyt        l{aspect_ratio<Lyt>{w, h}};
    const auto a = area_of<Lyt>{0, 0, 0, w, h, 0};
    std::set<key> all;
    std::optional<std::pair<uint16_t, uint16_t>> co, no;
    if ((r.below(2) == 1)) co = {static_cast<uint16_t>(r.below(6)), static_cast<uint16_t>(r.below(6))};
    if ((r.below(2) == 1)) no = {static_cast<uint16_t>(r.below(6)), static_cast<uint16_t>(r.below(6))};
    const auto n = r.below(4);
    for (uint64_t i = 0; i < n; ++i)
    {
        const auto        c  = some<Lyt>(r, a);
        const auto        ty = static_cast<sidb_defect_type>(1 + r.below(static_cast<uint64_t>(sidb_defect_type::UNKNOWN)));
        const sidb_defect d{ty, r.range(-1, 1), 5.6, 5.0};
        if (l.get_sidb_defect(c).type != sidb_defect_type::NONE) continue;
        l.assign_sidb_defect(c, d);
        const bool charged = d.charge != 0 || ty == sidb_defect_type::DB || ty == sidb_defect_type::SI_VACANCY || ty == sidb_defect_type::ARSENIC;
        const std::pair<int64_t, int64_t> e = charged ? (co ? std::pair<int64_t, int64_t>{co->first, co->second} : std::pair<int64_t, int64_t>{26, 13})
                                                      : (no ? std::pair<int64_t, int64_t>{no->first, no->second} : std::pair<int64_t, int64_t>{1, 0});
        std::set<key> mine, got;
        const int64_t low = has_cube_coord_v<Lyt> ? -40 : 0;  // coordinates that can be negative have no lower bound
        for (int64_t y = low; y <= h; ++y)
            for (int64_t x = low; x <= w; ++x)
                if (std::abs(x - static_cast<int64_t>(c.x)) <= e.first && std::abs(y - static_cast<int64_t>(c.y)) <= e.second) mine.insert({x, y, 0});
        for (const auto& s : l.affected_sidbs(c, co, no)) got.insert(k_of(s));
        vm::require(got == mine, "defects:affected", [&] { return "a defect at " + str(k_of(c)) + " affects " + std::to_string(got.size()) + " positions instead of " + std::to_string(mine.size()); });
        all.merge(mine);
    }
    std::optional<std::pair<uint64_t, uint64_t>> co2, no2;
    if (co) co2 = {co->first, co->second};
    if (no) no2 = {no->first, no->second};
    std::set<key> got;
    for (const auto& s : l.all_affected_sidbs(co2, no2)) got.insert(k_of(s));
    vm::require(got == all, "defects:all-affected", [&] { return std::to_string(got.size()) + " positions instead of " + std::to_string(all.size()); });
    const auto nowhere = some<Lyt>(r, a);
    if (l.get_sidb_defect(nowhere).type == sidb_defect_type::NONE) vm::require(l.affected_sidbs(nowhere).empty(), "defects:nowhere", [&] { return str(k_of(nowhere)); });
    vm::count("surfaces");
    vm::distinct("a" + std::to_string(w) + "," + std::to_string(h) + "," + std::to_string(all.size()));
}
VM_SUITE(affected_offset, 300, 8000) { affected<sidb_defect_surface<sidb_cell_clk_lyt>>(r); }
VM_SUITE(affected_cube, 300, 8000) { affected<sidb_defect_surface<sidb_100_cell_clk_lyt_cube>>(r); }
#endif

#if PART == 2
// ---- utilities
template <typename Lyt> void populate(vm::rng& r, Lyt& l, const area_of<Lyt>& a, const uint64_t n, std::map<key, char>* out = nullptr)
{
    const auto ts = types<technology<Lyt>>();
    for (uint64_t i = 0; i < n; ++i)
    {
        const auto c = some<Lyt>(r, a);
        const auto t = r.pick(ts);
        l.assign_cell_type(c, t);
        if (out)
        {
            if (technology<Lyt>::is_empty_cell(t)) out->erase(k_of(c));
            else (*out)[k_of(c)] = static_cast<char>(t);
        }
        if (r.chance(30)) l.assign_cell_name(c, "n" + std::to_string(i));
    }
}
// rows of dots: SiQAD rows are pairs of them
template <typename Lyt> key dot(const key& k) { return has_siqad_coord_v<Lyt> ? key{k[0], 2 * k[1] + k[2], 0} : key{k[0], k[1], 0}; }

template <typename Lyt> void box(vm::rng& r, const char* what)
{
    const auto w = r.range(0, 12), h = r.range(0, 12);
    Lyt        l{aspect_ratio<Lyt>{w, h, 1}};
    const auto a = span<Lyt>(w, h, (r.below(2) == 1));
    std::map<key, char> cells;
    populate<Lyt>(r, l, a, r.below(6), &cells);
    std::vector<key> all;
    for (const auto& [c, t] : cells) all.push_back(dot<Lyt>(c));
    if constexpr (is_sidb_defect_surface_v<Lyt>)
    {
        const auto n = r.below(4);
        for (uint64_t i = 0; i < n; ++i)
        {
            const auto c = some<Lyt>(r, a);
            l.assign_sidb_defect(c, sidb_defect{sidb_defect_type::SI_VACANCY, -1, 10.6, 5.9});
            all.push_back(dot<Lyt>(k_of(c)));
        }
    }
    bounding_box_2d<Lyt> bb{l};
    const auto judge = [&]
    {
        key lo{0, 0, 0}, hi{0, 0, 0};
        if (!all.empty())
        {
            lo = hi = all.front();
            for (const auto& k : all)
                for (int i = 0; i < 2; ++i) { lo[i] = std::min(lo[i], k[i]); hi[i] = std::max(hi[i], k[i]); }
        }
        const auto gl = dot<Lyt>(k_of(bb.get_min())), gh = dot<Lyt>(k_of(bb.get_max()));
        std::string s;
        for (const auto& k : all) s += str(k);
        vm::require(gl == lo && gh == hi, "box:corners", [&] { return std::string{what} + ": from " + str(gl) + " to " + str(gh) + " instead of " + str(lo) + " to " + str(hi) + " around rows " + s; });
        vm::require(static_cast<int64_t>(bb.get_x_size()) == k_of(bb.get_max())[0] - k_of(bb.get_min())[0] && static_cast<int64_t>(bb.get_y_size()) == k_of(bb.get_max())[1] - k_of(bb.get_min())[1], "box:size",
                    [&] { return std::string{what} + " sizes " + s; });
        vm::distinct(std::string{what} + s);
    };
    judge();
    // recomputed after a change
    const auto c = some<Lyt>(r, a);
    l.assign_cell_type(c, technology<Lyt>::cell_type::INPUT);
    all.push_back(dot<Lyt>(k_of(c)));
    bb.update_bounding_box();
    judge();
    // areas follow from the box
    const area_params<technology<Lyt>> ps{static_cast<double>(r.below(9)), static_cast<double>(r.below(9)), static_cast<double>(r.below(4)), static_cast<double>(r.below(4))};
    area_stats st{};
    if constexpr (!has_siqad_coord_v<Lyt>)
    {
        const auto dx = static_cast<double>(bb.get_x_size()), dy = static_cast<double>(bb.get_y_size());
        const auto v  = area(bb, ps, &st);
        const auto ew = (dx + 1) * ps.width + dx * ps.hspace, eh = (dy + 1) * ps.height + dy * ps.vspace;
        vm::require(st.width == ew && st.height == eh && v == ew * eh && st.area == v, "area:box", [&] { return std::string{what} + " area of the box " + std::to_string(v); });
        area_stats s2{};
        const auto u  = area(l, ps, &s2);
        const auto lw = static_cast<double>(w + 1) * ps.width + static_cast<double>(w) * ps.hspace, lh = static_cast<double>(h + 1) * ps.height + static_cast<double>(h) * ps.vspace;
        vm::require(s2.width == lw && s2.height == lh && u == lw * lh && s2.area == u, "area:layout", [&] { return std::string{what} + " area " + std::to_string(u); });
    }
    vm::count("boxes", 2);
}
VM_SUITE(box_qca, 200, 8000) { box<qca_cell_clk_lyt>(r, "qca"); }
VM_SUITE(box_inml, 200, 8000) { box<inml_cell_clk_lyt>(r, "inml"); }
VM_SUITE(box_stacked, 200, 8000) { box<stacked_qca_cell_clk_lyt>(r, "stacked"); }
VM_SUITE(box_sidb, 200, 8000) { box<sidb_100_cell_clk_lyt>(r, "sidb"); }
VM_SUITE(box_sidb_cube, 200, 8000) { box<sidb_cell_clk_lyt_cube>(r, "sidb-cube"); }
VM_SUITE(box_siqad, 300, 9000) { box<sidb_100_cell_clk_lyt_siqad>(r, "siqad"); }
VM_SUITE(box_defects, 300, 9000) { box<sidb_defect_surface<sidb_cell_clk_lyt>>(r, "defects"); }
VM_SUITE(box_defects_cube, 300, 9000) { box<sidb_defect_surface<sidb_111_cell_clk_lyt_cube>>(r, "defects-cube"); }
VM_SUITE(box_defects_siqad, 400, 9000) { box<sidb_defect_surface<sidb_100_cell_clk_lyt_siqad>>(r, "defects-siqad"); }

template <typename Lyt> void gate_box(vm::rng& r, const char* what)
{
    const auto w = r.range(1, 9), h = r.range(1, 9);
    Lyt        l{aspect_ratio<Lyt>{w, h, 1}};
    std::vector<key> all;
    const auto n = r.below(5);
    for (uint64_t i = 0; i < n; ++i)
    {
        const tile<Lyt> t{static_cast<uint64_t>(r.range(0, w)), static_cast<uint64_t>(r.range(0, h)), r.below(2)};
        if (!l.is_empty_tile(t)) continue;
        l.create_pi("i" + std::to_string(i), t);
        all.push_back({static_cast<int64_t>(t.x), static_cast<int64_t>(t.y), 0});
    }
    const bounding_box_2d<Lyt> bb{l};
    key                        lo{0, 0, 0}, hi{0, 0, 0};
    if (!all.empty())
    {
        lo = hi = all.front();
        for (const auto& k : all)
            for (int i = 0; i < 2; ++i) { lo[i] = std::min(lo[i], k[i]); hi[i] = std::max(hi[i], k[i]); }
    }
    const auto gl = k_of(bb.get_min()), gh = k_of(bb.get_max());
    vm::require(gl == lo && gh == hi && static_cast<int64_t>(bb.get_x_size()) == hi[0] - lo[0] && static_cast<int64_t>(bb.get_y_size()) == hi[1] - lo[1], "box:tiles",
                [&] { return std::string{what} + " from " + str(gl) + " to " + str(gh) + " instead of " + str(lo) + " to " + str(hi); });
    vm::count("boxes");
    vm::distinct(std::string{what} + str(lo) + str(hi));
}
VM_SUITE(box_gates, 200, 6000) { gate_box<cart_gate_clk_lyt>(r, "cartesian"); }
VM_SUITE(box_hexagons, 200, 6000) { gate_box<hex_even_row_gate_clk_lyt>(r, "hexagonal"); }

// all positions between two corners, a random one between two corners
template <typename C> void spanned(vm::rng& r, const char* what, const bool negative)
{
    const auto one = [&]
    {
        const auto x = r.range(negative ? -6 : 0, 6), y = r.range(negative ? -6 : 0, 6);
        if constexpr (std::is_same_v<C, siqad::coord_t>) return C{x, y, r.range(0, 1)};
        else return C{x, y};
    };
    const auto row = [](const C& c) -> int64_t
    {
        if constexpr (std::is_same_v<C, siqad::coord_t>) return 2 * static_cast<int64_t>(c.y) + c.z;
        else return static_cast<int64_t>(c.y);
    };
    const auto a = one(), b = one();
    const auto x0 = std::min<int64_t>(a.x, b.x), x1 = std::max<int64_t>(a.x, b.x), y0 = std::min(row(a), row(b)), y1 = std::max(row(a), row(b));
    std::vector<std::pair<int64_t, int64_t>> want, got;
    for (auto y = y0; y <= y1; ++y)
        for (auto x = x0; x <= x1; ++x) want.push_back({x, y});
    for (const auto& c : all_coordinates_in_spanned_area(a, b)) got.push_back({static_cast<int64_t>(c.x), row(c)});
    const auto ctx = [&] { return std::string{what} + " " + str(k_of(a)) + str(k_of(b)) + ": " + std::to_string(got.size()) + " positions"; };
    vm::require(got == want, "spanned:all", ctx);
    if (a.x <= b.x && row(a) <= row(b))  // the corners as documented
    {
        const bool flip = (r.below(2) == 1);
        for (int i = 0; i < 20; ++i)
        {
            const auto c = flip ? random_coordinate(b, a) : random_coordinate(a, b);
            vm::require(static_cast<int64_t>(c.x) >= x0 && static_cast<int64_t>(c.x) <= x1 && row(c) >= y0 && row(c) <= y1, "spanned:random", [&] { return ctx() + ", random " + str(k_of(c)); });
        }
    }
    vm::count("areas");
    vm::distinct(std::string{what} + str(k_of(a)) + str(k_of(b)));
}
VM_SUITE(spanned_areas, 1500, 40000)
{
    spanned<offset::ucoord_t>(r, "offset", false);
    spanned<cube::coord_t>(r, "cube", true);
    spanned<siqad::coord_t>(r, "siqad", true);
}

// positions in nanometers
template <typename Lyt> std::pair<double, double> nm(const key& k)
{
    bool one_one_one = false;
    if constexpr (is_sidb_lattice_v<Lyt>) one_one_one = is_sidb_lattice_111_v<Lyt>;
    const int64_t row = has_siqad_coord_v<Lyt> ? 2 * k[1] + k[2] : k[1];
    const auto    d   = row >= 0 ? row / 2 : -((-row + 1) / 2);
    const auto    o   = row - 2 * d;
    if (one_one_one) return {0.665 * static_cast<double>(k[0]) + 0.33255 * static_cast<double>(o), 0.384 * static_cast<double>(d) + 0.192 * static_cast<double>(o)};
    return {0.384 * static_cast<double>(k[0]), 0.768 * static_cast<double>(d) + 0.225 * static_cast<double>(o)};
}
template <typename Lyt> void positions(vm::rng& r, const char* what)
{
    const Lyt  l{};
    const auto a = span<Lyt>(1 << r.below(16), 1 << r.below(16), true);
    const auto c = some<Lyt>(r, a), d = r.chance(10) ? c : some<Lyt>(r, a);
    const auto p = nm<Lyt>(k_of(c)), q = nm<Lyt>(k_of(d)), g = sidb_nm_position<Lyt>(l, c);
    const auto near = [](const double u, const double v) { return std::abs(u - v) <= 1e-9 * (1 + std::abs(u)); };
    vm::require(near(g.first, p.first) && near(g.second, p.second), "nm:position", [&] { return std::string{what} + str(k_of(c)) + " is at " + std::to_string(g.first) + "," + std::to_string(g.second) + " instead of " + std::to_string(p.first) + "," + std::to_string(p.second); });
    const auto dist = sidb_nm_distance<Lyt>(l, c, d);
    vm::require(near(dist, std::hypot(p.first - q.first, p.second - q.second)) && dist == sidb_nm_distance<Lyt>(l, d, c), "nm:distance", [&] { return std::string{what} + str(k_of(c)) + str(k_of(d)) + std::to_string(dist); });
    vm::count("positions");
    vm::distinct(std::string{what} + str(k_of(c)) + str(k_of(d)));
}
VM_SUITE(nm_positions, 1500, 60000)
{
    positions<sidb_cell_clk_lyt>(r, "offset");
    positions<sidb_111_cell_clk_lyt>(r, "offset111");
    positions<sidb_100_cell_clk_lyt_cube>(r, "cube100");
    positions<sidb_111_cell_clk_lyt_cube>(r, "cube111");
    positions<sidb_cell_clk_lyt_siqad>(r, "siqad");
    positions<sidb_111_cell_clk_lyt_siqad>(r, "siqad111");
}

// layouts that are the same, and layouts that are not
template <typename Lyt> void identical(vm::rng& r, const char* what)
{
    const auto w = r.range(1, 6), h = r.range(1, 6);
    const auto a = span<Lyt>(w, h, (r.below(2) == 1));
    struct item { cell<Lyt> c; typename technology<Lyt>::cell_type t; };
    const auto        ts = types<technology<Lyt>>();
    std::vector<item> items;
    std::map<key, typename technology<Lyt>::cell_type> m;
    const auto n = r.below(8);
    for (uint64_t i = 0; i < n; ++i)
    {
        const auto c = some<Lyt>(r, a);
        if (m.contains(k_of(c))) continue;
        const auto t = ts[1 + r.below(ts.size() - 1)];
        items.push_back({c, t});
        m[k_of(c)] = t;
    }
    std::vector<std::pair<cell<Lyt>, sidb_defect>> ds;
    std::set<key> dk;
    if constexpr (is_sidb_defect_surface_v<Lyt>)
        for (uint64_t i = 0; i < 3; ++i)
            if (const auto c = some<Lyt>(r, a); (r.below(2) == 1) && dk.insert(k_of(c)).second) ds.push_back({c, sidb_defect{sidb_defect_type::GUNK, r.range(-1, 1), 5.6, static_cast<double>(r.below(3))}});
    const auto build = [&](const auto& its, const auto& defects)
    {
        Lyt l{aspect_ratio<Lyt>{w + static_cast<int64_t>(r.below(3)), h + static_cast<int64_t>(r.below(3)), 1}};
        for (const auto& i : its) l.assign_cell_type(i.c, i.t);
        if constexpr (is_sidb_defect_surface_v<Lyt>)
            for (const auto& [c, d] : defects) l.assign_sidb_defect(c, d);
        return l;
    };
    const auto first = build(items, ds);
    auto       items2 = items;
    auto       ds2 = ds;
    std::shuffle(items2.begin(), items2.end(), r);
    std::shuffle(ds2.begin(), ds2.end(), r);
    const auto second = build(items2, ds2);
    vm::require(are_cell_layouts_identical(first, second) && are_cell_layouts_identical(second, first), "identical:same", [&] { return std::string{what} + " same contents in another order"; });
    vm::require(cell_layout_digest(first) == cell_layout_digest(second), "identical:digest", [&] { return std::string{what} + " digests of the same contents differ"; });
    // one thing changed
    bool changed = false;
    const auto mode = r.below(4);
    std::string did;
    if (mode == 0 && !items2.empty())
    {
        auto& i = r.pick(items2);
        for (const auto t : ts) if (t != i.t && !technology<Lyt>::is_empty_cell(t)) { i.t = t; changed = true; did = "type"; break; }
    }
    else if (mode == 1 && !items2.empty())
    {
        auto& i = r.pick(items2);
        if (const auto c = some<Lyt>(r, a); !m.contains(k_of(c))) { i.c = c; changed = true; did = "moved"; }
    }
    else if (mode == 2)
    {
        if (const auto c = some<Lyt>(r, a); !m.contains(k_of(c))) { items2.push_back({c, ts[1]}); changed = true; did = "added"; }
    }
    else if (mode == 3 && !ds2.empty())
    {
        auto& d = r.pick(ds2);
        switch (r.below(4))
        {
            case 0: d.second.charge += 1; did = "charge"; break;
            case 1: d.second.lambda_tf += 0.5; did = "lambda"; break;
            case 2: d.second.epsilon_r += 0.5; did = "epsilon"; break;
            default: d.second.type = sidb_defect_type::SILOXANE; did = "defect type"; break;
        }
        changed = true;
    }
    if (changed)
    {
        const auto third = build(items2, ds2);
        vm::require(!are_cell_layouts_identical(first, third) && !are_cell_layouts_identical(third, first), "identical:different", [&] { return std::string{what} + " one difference (" + did + ") goes unnoticed"; });
    }
    vm::count("comparisons");
    std::string s{what};
    for (const auto& i : items2) s += str(k_of(i.c)) + static_cast<char>(i.t);
    vm::distinct(s + did);
}
VM_SUITE(identical_layouts, 400, 10000)
{
    identical<qca_cell_clk_lyt>(r, "qca");
    identical<inml_cell_clk_lyt>(r, "inml");
    identical<sidb_cell_clk_lyt_siqad>(r, "siqad");
    identical<sidb_defect_surface<sidb_100_cell_clk_lyt_siqad>>(r, "siqad-defects");
    identical<sidb_defect_surface<sidb_cell_clk_lyt_cube>>(r, "cube-defects");
}

VM_SUITE(magnets, 200, 5000)
{
    inml_cell_clk_lyt   l{aspect_ratio<inml_cell_clk_lyt>{12, 12}};
    std::map<key, char> cells;
    populate<inml_cell_clk_lyt>(r, l, {0, 0, 0, 12, 12, 0}, r.below(60), &cells);
    uint64_t inv = 0;
    for (const auto& [c, t] : cells) inv += t == 'n';
    vm::require(magcad_magnet_count(l) == cells.size() - 3 * (inv / 4), "magnets", [&] { return std::to_string(magcad_magnet_count(l)) + " magnets for " + std::to_string(cells.size()) + " cells, " + std::to_string(inv) + " of inverters"; });
    vm::count("layouts");
    vm::distinct("m" + std::to_string(cells.size()) + "," + std::to_string(inv));
}

// cells of a tile: the tiles of a layout are laid side by side, shifted rows or columns by half a tile
template <uint16_t W, uint16_t H, typename G> void absolute(vm::rng& r, const char* what)
{
    using cl = sidb_cell_clk_lyt;
    const G    g{aspect_ratio<G>{20, 20, 1}};
    const tile<G> t{r.below(20), r.below(20), r.below(2)};
    const cell<cl> rel{r.below(W), r.below(H), 0};
    const auto c = relative_to_absolute_cell_position<W, H, G, cl>(g, t, rel);
    int64_t x = static_cast<int64_t>(t.x) * W, y = static_cast<int64_t>(t.y) * H;
    const std::string n{what};
    if (n.find("pointy") != std::string::npos) y = static_cast<int64_t>(t.y) * (H * 3 / 4);
    if (n.find("flat") != std::string::npos) x = static_cast<int64_t>(t.x) * (W * 3 / 4);
    if (n.find("odd_row") != std::string::npos && t.y % 2 == 1) x += W / 2;
    if (n.find("even_row") != std::string::npos && t.y % 2 == 0) x += W / 2;
    if (n.find("odd_col") != std::string::npos && t.x % 2 == 1) y += H / 2;
    if (n.find("even_col") != std::string::npos && t.x % 2 == 0) y += H / 2;
    x += static_cast<int64_t>(rel.x);
    y += static_cast<int64_t>(rel.y);
    vm::require(k_of(c) == key{x, y, static_cast<int64_t>(t.z)}, "tiles:absolute", [&] { return n + ": cell " + str(k_of(rel)) + " of tile " + str(k_of(t)) + " is at " + str(k_of(c)) + " instead of " + str({x, y, static_cast<int64_t>(t.z)}); });
    // what lies in which direction
    const auto port = static_cast<port_direction::cardinal>(r.below(8));
    const int64_t w = 20, h = 20;
    const auto p = port_direction_to_coordinate(g, t, port_direction{port});
    if (n == "cartesian")
    {
        const bool N = port == port_direction::NORTH || port == port_direction::NORTH_EAST || port == port_direction::NORTH_WEST, S = port == port_direction::SOUTH || port == port_direction::SOUTH_EAST || port == port_direction::SOUTH_WEST;
        const bool E = port == port_direction::EAST || port == port_direction::NORTH_EAST || port == port_direction::SOUTH_EAST, Wt = port == port_direction::WEST || port == port_direction::NORTH_WEST || port == port_direction::SOUTH_WEST;
        const int64_t ex = static_cast<int64_t>(t.x) + E - Wt, ey = static_cast<int64_t>(t.y) + S - N;
        if (ex >= 0 && ey >= 0 && ex <= w && ey <= h) vm::require(k_of(p) == key{ex, ey, static_cast<int64_t>(t.z)}, "tiles:direction", [&] { return str(k_of(t)) + " direction " + std::to_string(static_cast<int>(port)) + " leads to " + str(k_of(p)); });
    }
    std::set<key> adj;
    for (const auto& q : g.adjacent_coordinates(t)) adj.insert(k_of(q));
    vm::require(num_adjacent_coordinates(g, t) == adj.size(), "tiles:adjacent", [&] { return n + str(k_of(t)); });
    vm::count("tiles");
    vm::distinct(n + str(k_of(t)) + str(k_of(rel)));
}
VM_SUITE(tile_cells, 1000, 30000)
{
    absolute<5, 5, cart_gate_clk_lyt>(r, "cartesian");
    absolute<10, 12, cart_odd_row_gate_clk_lyt>(r, "odd_row");
    absolute<7, 4, cart_even_row_gate_clk_lyt>(r, "even_row");
    absolute<4, 9, cart_odd_col_gate_clk_lyt>(r, "odd_col");
    absolute<4, 6, cart_even_col_gate_clk_lyt>(r, "even_col");
    absolute<60, 46, hex_odd_row_gate_clk_lyt>(r, "pointy odd_row");
    absolute<60, 46, hex_even_row_gate_clk_lyt>(r, "pointy even_row");
    absolute<11, 8, hex_odd_col_gate_clk_lyt>(r, "flat odd_col");
    absolute<46, 60, hex_even_col_gate_clk_lyt>(r, "flat even_col");
}
#endif

#if PART == 3
// conversions between coordinate systems: the same dots at the same places, with all that is known about them
template <typename Lyt> key row_of(const key& k) { return has_siqad_coord_v<Lyt> ? key{k[0], 2 * k[1] + k[2], 0} : key{k[0], k[1], 0}; }
struct contents
{
    std::map<key, std::string>             cells;  // type, name, charge state
    std::map<key, std::array<double, 4>>   defects;
    std::string                            name;
    int                                    tx, ty;
    bool operator==(const contents&) const = default;
};
template <typename Lyt> contents read(const Lyt& l)
{
    contents m{{}, {}, l.get_layout_name(), static_cast<int>(l.get_tile_size_x()), static_cast<int>(l.get_tile_size_y())};
    l.foreach_cell([&](const auto& c)
    {
        auto& s = m.cells[row_of<Lyt>(k_of(c))];
        s += static_cast<char>(l.get_cell_type(c));
        s += l.get_cell_name(c);
        if constexpr (is_charge_distribution_surface_v<Lyt>) s += "|" + std::to_string(static_cast<int>(l.get_charge_state(c)));
    });
    if constexpr (is_sidb_defect_surface_v<Lyt>)
        l.foreach_sidb_defect([&](const auto& d) { m.defects[row_of<Lyt>(k_of(d.first))] = {static_cast<double>(d.second.type), static_cast<double>(d.second.charge), d.second.epsilon_r, d.second.lambda_tf}; });
    return m;
}
void shift(contents& m)
{
    // first dot (or defect) at the origin of the dimer lattice
    int64_t x = INT64_MAX, y = INT64_MAX;
    for (const auto& [k, s] : m.cells) { x = std::min(x, k[0]); y = std::min(y, k[1]); }
    for (const auto& [k, s] : m.defects) { x = std::min(x, k[0]); y = std::min(y, k[1]); }
    if (x >= 0 && y >= 0) { return; }
    const auto ry = y >= 0 ? y / 2 : -((-y + 1) / 2);
    contents out{{}, {}, m.name, m.tx, m.ty};
    for (const auto& [k, s] : m.cells) out.cells[{k[0] - x, k[1] - 2 * ry, 0}] = s;
    for (const auto& [k, s] : m.defects) out.defects[{k[0] - x, k[1] - 2 * ry, 0}] = s;
    m = out;
}
std::string str(const contents& m)
{
    std::string s;
    for (const auto& [k, t] : m.cells) s += " " + str(k) + t;
    for (const auto& [k, d] : m.defects) s += " defect" + str(k) + std::to_string(d[0]);
    return s + " '" + m.name + "' " + std::to_string(m.tx) + "x" + std::to_string(m.ty);
}
template <typename Base> Base dots(vm::rng& r, const bool negative)
{
    const auto w = r.range(0, 8), h = r.range(0, 8);
    Base       l{aspect_ratio<Base>{w, h, has_siqad_coord_v<Base> ? 1 : 0}};
    l.set_layout_name((r.below(2) == 1) ? "lyt" : "");
    if ((r.below(2) == 1)) l.set_tile_size_x(static_cast<uint16_t>(r.range(1, 60)));
    if ((r.below(2) == 1)) l.set_tile_size_y(static_cast<uint16_t>(r.range(1, 46)));
    const auto a = span<Base>(w, h, negative);
    const auto ts = types<sidb_technology>();
    const auto n = r.below(9);
    for (uint64_t i = 0; i < n; ++i)
    {
        const auto c = some<Base>(r, a);
        l.assign_cell_type(c, ts[1 + r.below(ts.size() - 1)]);
        l.assign_cell_name(c, (r.below(2) == 1) ? "n" + std::to_string(i) : "");
    }
    return l;
}
template <typename Lyt> void defects_on(vm::rng& r, Lyt& l, const bool negative)
{
    const auto a = span<Lyt>(static_cast<int64_t>(l.x()), static_cast<int64_t>(l.y()), negative);
    const auto n = r.below(4);
    for (uint64_t i = 0; i < n; ++i)
    {
        const auto c = some<Lyt>(r, a);
        if (!l.is_empty_cell(c)) continue;
        l.assign_sidb_defect(c, sidb_defect{static_cast<sidb_defect_type>(1 + r.below(5)), r.range(-1, 1), 1 + static_cast<double>(r.below(9)), 1 + static_cast<double>(r.below(9))});
    }
}
template <typename Lyt> void charges_on(vm::rng& r, Lyt& l)
{
    l.foreach_cell([&](const auto& c) { l.assign_charge_state(c, static_cast<sidb_charge_state>(r.range(-1, 1)), charge_index_mode::KEEP_CHARGE_INDEX); });
}
template <typename To, typename From> void to_fiction(vm::rng& r, const From& l, const char* what)
{
    auto       want = read(l);
    if constexpr (has_offset_ucoord_v<To>) shift(want);
    const auto got = read(convert_layout_to_fiction_coordinates<To>(l));
    vm::require(got == want, "convert:fiction", [&] { return std::string{what} + ":" + str(read(l)) + " became" + str(got) + " instead of" + str(want); });
    vm::count("conversions");
    vm::distinct(std::string{what} + str(want));
    if (r.below(500) == 0) vm::sample(std::string{what} + str(got));
}
template <typename From> void to_siqad(vm::rng& r, const From& l, const char* what)
{
    const auto want = read(l);
    const auto got  = read(convert_layout_to_siqad_coordinates(l));
    vm::require(got == want, "convert:siqad", [&] { return std::string{what} + ":" + str(want) + " became" + str(got); });
    vm::count("conversions");
    vm::distinct(std::string{what} + str(want));
    if (r.below(500) == 0) vm::sample(std::string{what} + str(got));
}
VM_SUITE(convert_plain, 400, 10000)
{
    const auto neg = r.chance(40);
    to_siqad(r, dots<sidb_cell_clk_lyt>(r, false), "offset");
    to_siqad(r, dots<sidb_cell_clk_lyt_cube>(r, neg), "cube");
    to_siqad(r, dots<sidb_100_cell_clk_lyt>(r, false), "offset100");
    to_siqad(r, dots<sidb_111_cell_clk_lyt_cube>(r, neg), "cube111");
    to_fiction<sidb_100_cell_clk_lyt>(r, dots<sidb_100_cell_clk_lyt_siqad>(r, neg), "siqad100>offset");
    to_fiction<sidb_111_cell_clk_lyt_cube>(r, dots<sidb_111_cell_clk_lyt_siqad>(r, neg), "siqad111>cube");
    to_fiction<sidb_100_cell_clk_lyt>(r, dots<sidb_cell_clk_lyt_siqad>(r, neg), "siqad>offset");
    to_fiction<sidb_cell_clk_lyt_cube>(r, dots<sidb_cell_clk_lyt_siqad>(r, neg), "siqad>cube");
}
VM_SUITE(convert_defects, 400, 10000)
{
    const auto neg = r.chance(40);
    {
        sidb_defect_surface<sidb_cell_clk_lyt> l{dots<sidb_cell_clk_lyt>(r, false)};
        defects_on(r, l, false);
        to_siqad(r, l, "offset-defects");
    }
    {
        sidb_defect_surface<sidb_100_cell_clk_lyt_cube> l{dots<sidb_100_cell_clk_lyt_cube>(r, neg)};
        defects_on(r, l, neg);
        to_siqad(r, l, "cube100-defects");
    }
    {
        sidb_defect_surface<sidb_100_cell_clk_lyt_siqad> l{dots<sidb_100_cell_clk_lyt_siqad>(r, neg)};
        defects_on(r, l, neg);
        to_fiction<sidb_defect_surface<sidb_100_cell_clk_lyt>>(r, l, "siqad100-defects>offset");
        to_fiction<sidb_defect_surface<sidb_100_cell_clk_lyt_cube>>(r, l, "siqad100-defects>cube");
    }
}
VM_SUITE(convert_charges, 300, 8000)
{
    const auto neg = r.chance(40);
    {
        charge_distribution_surface<sidb_100_cell_clk_lyt> l{dots<sidb_100_cell_clk_lyt>(r, false)};
        charges_on(r, l);
        to_siqad(r, l, "offset100-charges");
    }
    {
        charge_distribution_surface<sidb_111_cell_clk_lyt_cube> l{dots<sidb_111_cell_clk_lyt_cube>(r, neg)};
        charges_on(r, l);
        to_siqad(r, l, "cube111-charges");
    }
    {
        charge_distribution_surface<sidb_100_cell_clk_lyt_siqad> l{dots<sidb_100_cell_clk_lyt_siqad>(r, neg)};
        charges_on(r, l);
        to_fiction<cds_sidb_100_cell_clk_lyt>(r, l, "siqad100-charges>offset");
        to_fiction<cds_sidb_100_cell_clk_lyt_cube>(r, l, "siqad100-charges>cube");
    }
    {
        sidb_defect_surface<sidb_100_cell_clk_lyt_siqad> d{dots<sidb_100_cell_clk_lyt_siqad>(r, neg)};
        defects_on(r, d, neg);
        cds_sidb_defect_100_cell_clk_lyt_siqad l{d};
        charges_on(r, l);
        to_fiction<cds_sidb_defect_100_cell_clk_lyt>(r, l, "siqad100-both>offset");
        to_fiction<cds_sidb_defect_100_cell_clk_lyt_cube>(r, l, "siqad100-both>cube");
    }
    {
        sidb_defect_surface<sidb_100_cell_clk_lyt> d{dots<sidb_100_cell_clk_lyt>(r, false)};
        defects_on(r, d, false);
        cds_sidb_defect_100_cell_clk_lyt l{d};
        charges_on(r, l);
        to_siqad(r, l, "offset100-both");
    }
}
// the type names say what they are
VM_SUITE(type_names, 1, 1)
{
    const auto same = [&](const bool ok, const char* n) { vm::require(ok, "types:alias", [&] { return std::string{n}; }); vm::count("names"); vm::distinct(n); };
#define SAME(a, ...) same(std::is_same_v<a, __VA_ARGS__>, #a)
#define PTR(a) same(std::is_same_v<a##_ptr, std::shared_ptr<a>>, #a "_ptr")
    SAME(cds_sidb_cell_clk_lyt_cube, charge_distribution_surface<sidb_cell_clk_lyt_cube>);
    SAME(cds_sidb_cell_clk_lyt_siqad, charge_distribution_surface<sidb_cell_clk_lyt_siqad>);
    SAME(cds_sidb_cell_clk_lyt, charge_distribution_surface<sidb_cell_clk_lyt>);
    PTR(qca_cell_clk_lyt); PTR(stacked_qca_cell_clk_lyt); PTR(mol_qca_cell_clk_lyt); PTR(inml_cell_clk_lyt); PTR(sidb_cell_clk_lyt); PTR(sidb_cell_clk_lyt_siqad); PTR(sidb_cell_clk_lyt_cube);
    PTR(sidb_100_cell_clk_lyt); PTR(sidb_100_cell_clk_lyt_siqad); PTR(sidb_100_cell_clk_lyt_cube); PTR(sidb_111_cell_clk_lyt); PTR(sidb_111_cell_clk_lyt_siqad); PTR(sidb_111_cell_clk_lyt_cube);
    PTR(cds_sidb_100_cell_clk_lyt); PTR(cds_sidb_100_cell_clk_lyt_siqad); PTR(cds_sidb_100_cell_clk_lyt_cube); PTR(cds_sidb_111_cell_clk_lyt); PTR(cds_sidb_111_cell_clk_lyt_siqad); PTR(cds_sidb_111_cell_clk_lyt_cube);
    PTR(cds_sidb_cell_clk_lyt); PTR(cds_sidb_cell_clk_lyt_siqad); PTR(cds_sidb_cell_clk_lyt_cube);
    PTR(sidb_defect_cell_clk_lyt); PTR(sidb_defect_cell_clk_lyt_siqad); PTR(sidb_defect_cell_clk_lyt_cube); PTR(sidb_defect_100_cell_clk_lyt); PTR(sidb_defect_100_cell_clk_lyt_siqad); PTR(sidb_defect_100_cell_clk_lyt_cube);
    PTR(cds_sidb_defect_100_cell_clk_lyt); PTR(cds_sidb_defect_100_cell_clk_lyt_siqad); PTR(cds_sidb_defect_100_cell_clk_lyt_cube);
}
#endif
}  // namespace
VM_MAIN
