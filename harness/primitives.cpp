#include "vm.hpp"

#include <fiction/technology/cell_ports.hpp>
#include <fiction/technology/cell_technologies.hpp>
#include <fiction/technology/constants.hpp>
#include <fiction/technology/sidb_charge_state.hpp>
#include <fiction/technology/sidb_defects.hpp>
#include <fiction/technology/sidb_lattice_orientations.hpp>

#include <algorithm>
#include <cmath>
#include <unordered_set>

using namespace fiction;

// ---- charge states
VM_SUITE(charge_states, 512, 512)
{
    static int next = 0;
    const auto sg   = static_cast<int8_t>(static_cast<int>(r.below(256)) - 128);
    const auto cs   = sign_to_charge_state(sg);
    const auto want = sg == -1 ? sidb_charge_state::NEGATIVE : sg == 0 ? sidb_charge_state::NEUTRAL : sg == 1 ? sidb_charge_state::POSITIVE : sidb_charge_state::NONE;
    vm::require(cs == want, "charge:from-sign", vm::cat(+sg));
    for (const auto c : {sidb_charge_state::NEGATIVE, sidb_charge_state::NEUTRAL, sidb_charge_state::POSITIVE})
    {
        vm::require(sign_to_charge_state(charge_state_to_sign(c)) == c, "charge:roundtrip", vm::cat(static_cast<int>(c)));
        vm::require(charge_state_to_sign(c) == static_cast<int8_t>(c), "charge:sign", vm::cat(static_cast<int>(c)));
    }
    vm::require(charge_state_to_sign(sidb_charge_state::NONE) == 0, "charge:none-sign", "");
    std::vector<sidb_charge_state> v;
    std::string                    s;
    for (auto n = r.range(0, 60); n > 0; --n)
    {
        switch (r.below(4))
        {
            case 0: v.push_back(sidb_charge_state::NEGATIVE); s += '-'; break;
            case 1: v.push_back(sidb_charge_state::NEUTRAL); s += '0'; break;
            case 2: v.push_back(sidb_charge_state::POSITIVE); s += '+'; break;
            default: v.push_back(sidb_charge_state::NONE); break;
        }
    }
    vm::require(charge_configuration_to_string(v) == s, "charge:configuration-string", [&] { return s + " vs " + charge_configuration_to_string(v); });
    const auto b2 = sidb_charge_states_for_base_number(2), b3 = sidb_charge_states_for_base_number(3);
    vm::require(b2 == std::vector{sidb_charge_state::NEGATIVE, sidb_charge_state::NEUTRAL}, "charge:base-2", "");
    vm::require(b3 == std::vector{sidb_charge_state::NEGATIVE, sidb_charge_state::NEUTRAL, sidb_charge_state::POSITIVE}, "charge:base-3", "");
    vm::distinct(s + vm::cat(+sg));
}

// ---- defects
namespace
{
sidb_defect rnd_defect(vm::rng& r)
{
    return sidb_defect{static_cast<sidb_defect_type>(r.below(15)), r.chance(40) ? 0 : r.boundary<int64_t>(-3, 3), r.chance(30) ? 0.0 : r.below(4) * 1.5, r.chance(30) ? 0.0 : r.below(4) * 2.0};
}
}  // namespace
VM_SUITE(defects, 8000, 100000)
{
    const auto d = rnd_defect(r), e = r.chance(30) ? d : rnd_defect(r);
    const auto w = [&] { return vm::cat("type ", static_cast<int>(d.type), " charge ", d.charge, " eps ", d.epsilon_r, " lambda ", d.lambda_tf); };
    const bool always = d.type == sidb_defect_type::DB || d.type == sidb_defect_type::SI_VACANCY || d.type == sidb_defect_type::ARSENIC;
    const bool charged = d.charge != 0 || always;
    vm::require(is_charged_defect_type(d) == charged, "defect:charged-type", w);
    vm::require(is_neutral_defect_type(d) == (!charged && d.type != sidb_defect_type::NONE), "defect:neutral-type", w);
    vm::require(is_positively_charged_defect(d) == (d.charge > 0) && is_negatively_charged_defect(d) == (d.charge < 0) && is_neutrally_charged_defect(d) == (d.charge == 0), "defect:charge-sign", w);
    vm::require(static_cast<int>(is_positively_charged_defect(d)) + is_negatively_charged_defect(d) + is_neutrally_charged_defect(d) == 1, "defect:charge-trichotomy", w);
    const std::pair<uint16_t, uint16_t> oc{r.below(100), r.below(100)}, on{r.below(100), r.below(100)};
    const auto has_c = r.chance(50), has_n = r.chance(50);
    const auto ext = defect_extent(d, has_c ? std::optional{oc} : std::nullopt, has_n ? std::optional{on} : std::nullopt);
    std::pair<uint16_t, uint16_t> want{0, 0};
    if (charged) want = has_c ? oc : std::pair<uint16_t, uint16_t>{26, 13};
    else if (d.type != sidb_defect_type::NONE) want = has_n ? on : std::pair<uint16_t, uint16_t>{1, 0};
    vm::require(ext == want, "defect:extent", [&] { return w() + vm::cat(" extent ", ext.first, ",", ext.second); });
    vm::require(has_c || has_n || defect_extent(d) == want, "defect:extent-defaults", w);
    const bool eq = d.type == e.type && d.charge == e.charge && d.epsilon_r == e.epsilon_r && d.lambda_tf == e.lambda_tf;
    vm::require((d == e) == eq && (d != e) == !eq, "defect:equality", w);
    if (eq) vm::require(std::hash<sidb_defect>{}(d) == std::hash<sidb_defect>{}(e), "defect:hash", w);
    const sidb_defect def{};
    vm::require(def.type == sidb_defect_type::UNKNOWN && def.charge == 0 && def.epsilon_r == 0 && def.lambda_tf == 0, "defect:defaults", "");
    vm::distinct(w());
    vm::sample(w());
}

// ---- cell technologies: every cell type satisfies exactly the predicates that name it
namespace
{
using preds = std::vector<std::pair<const char*, bool>>;
void exactly(const preds& p, const std::set<std::string>& want, const std::string& t)
{
    for (const auto& [n, v] : p)
    {
        vm::require(v == (want.count(n) == 1), "technology:predicate", [&] { return t + " " + n + vm::cat(" is ", v); });
        vm::distinct(t + n);
    }
}
}  // namespace
VM_SUITE(cell_types, 256, 256)
{
    // every character, not only the ones with a name
    const auto i = static_cast<uint8_t>(vm::st().cur_case);
    {
        using t      = qca_technology;
        const auto c = static_cast<t::cell_type>(i);
        std::set<std::string> w;
        if (i == ' ') w = {"empty"};
        if (i == 'x') w = {"normal"};
        if (i == 'i') w = {"input"};
        if (i == 'o') w = {"output"};
        if (i == '0') w = {"const0", "const"};
        if (i == '1') w = {"const1", "const"};
        exactly({{"empty", t::is_empty_cell(c)}, {"normal", t::is_normal_cell(c)}, {"input", t::is_input_cell(c)}, {"output", t::is_output_cell(c)}, {"const0", t::is_const_0_cell(c)}, {"const1", t::is_const_1_cell(c)}, {"const", t::is_constant_cell(c)}}, w, vm::cat("qca ", +i));
    }
    {
        using t      = mol_qca_technology;
        const auto c = static_cast<t::cell_type>(i);
        std::set<std::string> w;
        if (i == ' ') w = {"empty"};
        if (i == 'a') w = {"normal", "n1"};
        if (i == 'b') w = {"normal", "n2"};
        if (i == 'c') w = {"normal", "n3"};
        if (i == 'd') w = {"normal", "n4"};
        if (i == 'i') w = {"input"};
        if (i == 'o') w = {"output"};
        if (i == '0') w = {"const0", "const"};
        if (i == '1') w = {"const1", "const"};
        exactly({{"empty", t::is_empty_cell(c)}, {"normal", t::is_normal_cell(c)}, {"n1", t::is_normal_cell1(c)}, {"n2", t::is_normal_cell2(c)}, {"n3", t::is_normal_cell3(c)}, {"n4", t::is_normal_cell4(c)}, {"input", t::is_input_cell(c)}, {"output", t::is_output_cell(c)}, {"const0", t::is_const_0_cell(c)}, {"const1", t::is_const_1_cell(c)}, {"const", t::is_constant_cell(c)}}, w, vm::cat("mol_qca ", +i));
        vm::require(t::cell_clock_number(c) == (i >= 'b' && i <= 'd' ? i - 'a' : 0u), "technology:clock-number", vm::cat(+i));
    }
    {
        using t      = inml_technology;
        const auto c = static_cast<t::cell_type>(i);
        std::set<std::string> w;
        if (i == ' ') w = {"empty"};
        if (i == 'x') w = {"normal"};
        if (i == 'i') w = {"input"};
        if (i == 'o') w = {"output"};
        if (i == 'u') w = {"up", "slanted"};
        if (i == 'd') w = {"down", "slanted"};
        if (i == 'n') w = {"inv"};
        if (i == 'c') w = {"cross"};
        if (i == 'f') w = {"fan"};
        exactly({{"empty", t::is_empty_cell(c)}, {"normal", t::is_normal_cell(c)}, {"input", t::is_input_cell(c)}, {"output", t::is_output_cell(c)}, {"up", t::is_slanted_edge_up_magnet(c)}, {"down", t::is_slanted_edge_down_magnet(c)}, {"slanted", t::is_slanted_edge_magnet(c)}, {"inv", t::is_inverter_magnet(c)}, {"cross", t::is_crosswire_magnet(c)}, {"fan", t::is_fanout_coupler_magnet(c)}}, w, vm::cat("inml ", +i));
    }
    {
        using t      = sidb_technology;
        const auto c = static_cast<t::cell_type>(i);
        std::set<std::string> w;
        if (i == ' ') w = {"empty"};
        if (i == 'x') w = {"normal"};
        if (i == 'i') w = {"input"};
        if (i == 'o') w = {"output"};
        if (i == 'l') w = {"logic"};
        exactly({{"empty", t::is_empty_cell(c)}, {"normal", t::is_normal_cell(c)}, {"input", t::is_input_cell(c)}, {"output", t::is_output_cell(c)}, {"logic", t::is_logic_cell(c)}}, w, vm::cat("sidb ", +i));
    }
    if (i < 4)
    {
        using q = qca_technology;
        using m = mol_qca_technology;
        const auto a = static_cast<q::cell_mode>(i);
        const auto b = static_cast<m::cell_mode>(i);
        const bool qa[] = {q::is_normal_cell_mode(a), q::is_rotated_cell_mode(a), q::is_vertical_cell_mode(a), q::is_crossover_cell_mode(a)};
        const bool mb[] = {m::is_normal_cell_mode(b), m::is_rotated_cell_mode(b), m::is_vertical_cell_mode(b), m::is_crossover_cell_mode(b)};
        for (int k = 0; k < 4; ++k) vm::require(qa[k] == (k == i) && mb[k] == (k == i), "technology:mode", vm::cat(+i, " ", k));
        vm::require(q::cell_mode::NORMAL == static_cast<q::cell_mode>(0) && q::cell_mode::CROSSOVER == static_cast<q::cell_mode>(3), "technology:mode-values", "");
    }
    vm::require(inml_technology::is_normal_cell_mode({}) && sidb_technology::is_normal_cell_mode({}), "technology:mode", "modeless");
    vm::require(qca_technology::CELL_WIDTH == 18 && qca_technology::CELL_HEIGHT == 18 && qca_technology::CELL_HSPACE == 2 && qca_technology::CELL_VSPACE == 2, "technology:qca-geometry", "");
    vm::require(mol_qca_technology::CELL_WIDTH == 2 && mol_qca_technology::CELL_HEIGHT == 2 && mol_qca_technology::CELL_HSPACE == 0 && mol_qca_technology::CELL_VSPACE == 0, "technology:mol-geometry", "");
    vm::require(inml_technology::CELL_WIDTH == 50 && inml_technology::CELL_HEIGHT == 100 && inml_technology::CELL_HSPACE == 10 && inml_technology::CELL_VSPACE == 25, "technology:inml-geometry", "");
    vm::require(sidb_technology::CELL_WIDTH == 0 && sidb_technology::CELL_HEIGHT == 0 && sidb_technology::CELL_HSPACE == 0.384 && sidb_technology::CELL_VSPACE == 0.384, "technology:sidb-geometry", "");
}

// ---- physical constants and lattices
VM_SUITE(constants, 4, 4)
{
    namespace c = fiction::constants;
    const auto close = [](double a, double b) { return std::abs(a - b) <= 1e-6 * std::abs(b); };
    vm::require(close(c::PI, std::acos(-1.0)), "constants:pi", "");
    vm::require(c::ERROR_MARGIN == 1e-6, "constants:error-margin", "");
    vm::require(close(c::physical::EPSILON, 8.8541878128e-12), "constants:epsilon", "");
    vm::require(close(c::physical::ELEMENTARY_CHARGE, 1.602176634e-19), "constants:e", "");
    vm::require(close(c::physical::K_E, 8.9875517923e9), "constants:k", "");
    vm::require(close(c::physical::K_E, 1 / (4 * std::acos(-1.0) * 8.8541878128e-12)), "constants:k-epsilon", "");
    vm::require(std::abs(c::physical::BOLTZMANN_CONSTANT - 1.380649e-23) < 1e-28, "constants:boltzmann", "");
    vm::require(c::physical::EV_TO_JOULE == c::physical::ELEMENTARY_CHARGE, "constants:ev", "");
    vm::require(sidb_100_lattice::LAT_A == 3.84 && sidb_100_lattice::LAT_B == 7.68 && sidb_100_lattice::LAT_C.first == 0 && sidb_100_lattice::LAT_C.second == 2.25, "constants:lattice-100", "");
    vm::require(sidb_111_lattice::LAT_A == 6.65 && sidb_111_lattice::LAT_B == 3.84 && sidb_111_lattice::LAT_C.first == 3.3255 && sidb_111_lattice::LAT_C.second == 1.92, "constants:lattice-111", "");
    vm::distinct(vm::st().cur_case);
}

// ---- ports
namespace
{
port_position rnd_pos(vm::rng& r, bool small = true)
{
    return small ? port_position(r.below(4), r.below(4), r.chance(50), r.chance(50)) : port_position(r.boundary<int64_t>(0, 65535), r.boundary<int64_t>(0, 65535), r.chance(50), r.chance(50));
}
port_direction rnd_dir(vm::rng& r)
{
    return port_direction(static_cast<port_direction::cardinal>(r.below(9)), r.chance(50), r.chance(50));
}
template <typename P, typename G, typename K>
void lists(vm::rng& r, G gen, K key)
{
    port_list<P> a, b;
    std::set<decltype(key(gen(r)))> ai, ao, bi, bo;
    const auto fill = [&](auto& s, auto& m) { for (auto n = r.range(0, 5); n > 0; --n) { const auto p = gen(r); s.insert(p); m.insert(key(p)); } };
    std::set<P> i1, o1, i2, o2;
    fill(i1, ai); fill(o1, ao); fill(i2, bi); fill(o2, bo);
    a = port_list<P>{i1, o1};
    if (r.chance(25)) { i2 = i1; bi = ai; if (r.chance(70)) { o2 = o1; bo = ao; } }
    b = port_list<P>{i2, o2};
    const auto keys = [&](const std::set<P>& s) { std::set<decltype(key(gen(r)))> k; for (const auto& p : s) k.insert(key(p)); return k; };
    vm::require(keys(a.inp) == ai && keys(a.out) == ao, "ports:list-construct", "");
    vm::require((a == b) == (ai == bi && ao == bo), "ports:list-equality", "");
    if (a == b) { vm::require(std::hash<port_list<P>>{}(a) == std::hash<port_list<P>>{}(b), "ports:list-hash", ""); vm::count("equal port lists"); }
    auto  c  = a;
    vm::require(c == a && std::hash<port_list<P>>{}(c) == std::hash<port_list<P>>{}(a), "ports:list-copy", "");
    // += is the union, per direction; nothing is lost
    auto& rr = (c += b);
    auto ui = ai, uo = ao;
    ui.insert(bi.begin(), bi.end());
    uo.insert(bo.begin(), bo.end());
    vm::require(&rr == &c && keys(c.inp) == ui && keys(c.out) == uo, "ports:list-merge", "");
    for (const auto& k : bi) vm::require(keys(c.inp).count(k) == 1, "ports:list-merge-loses", "");
    vm::require(fmt::format("{}", a).rfind("inp: ", 0) == 0 && fmt::format("{}", a).find(", out: ") != std::string::npos, "ports:list-text", "");
}
}  // namespace
VM_SUITE(ports, 6000, 100000)
{
    const auto a = rnd_pos(r, r.chance(70)), b = r.chance(20) ? port_position(a.x, a.y, !a.pi, !a.po) : rnd_pos(r, r.chance(70));
    const auto w = [&] { return vm::cat(a.x, ",", a.y, " ", b.x, ",", b.y); };
    const auto ka = std::pair(a.x, a.y), kb = std::pair(b.x, b.y);
    vm::require((a < b) == (ka < kb) && (b < a) == (kb < ka), "ports:position-order", w);
    vm::require((a == b) == (ka == kb), "ports:position-equality", w);
    if (ka == kb) { vm::require(std::hash<port_position>{}(a) == std::hash<port_position>{}(b), "ports:position-hash", w); vm::count("equal ports"); }
    vm::require(fmt::format("{}", a) == vm::cat("(", a.x, ",", a.y, ")"), "ports:position-text", w);
    const auto d = rnd_dir(r), e = rnd_dir(r);
    vm::require((d < e) == (d.dir < e.dir) && (d == e) == (d.dir == e.dir), "ports:direction-order", vm::cat(+d.dir, +e.dir));
    if (d == e) vm::require(std::hash<port_direction>{}(d) == std::hash<port_direction>{}(e), "ports:direction-hash", vm::cat(+d.dir));
    static const char* names[] = {"N", "NE", "E", "SE", "S", "SW", "W", "NW", "?"};
    vm::require(fmt::format("{}", d) == names[d.dir], "ports:direction-text", vm::cat(+d.dir));
    const port_position dp{};
    vm::require(dp.x == 0 && dp.y == 0 && !dp.pi && !dp.po, "ports:defaults", "");
    const port_position io{3, 4, true, false};
    vm::require(io.pi && !io.po && port_position(3, 4, false, true).po && !port_position(3, 4, false, true).pi, "ports:flags", "");
    const port_direction di{port_direction::SOUTH, true, false};
    vm::require(di.pi && !di.po && di.dir == 4, "ports:direction-flags", "");
    const bool fi = r.chance(50), fo = r.chance(50);
    const port_direction  fd{e.dir == 8 ? port_direction::NORTH : static_cast<port_direction::cardinal>(e.dir), fi, fo};
    const port_position   fp{a.x, a.y, fi, fo};
    vm::require(fd.pi == fi && fd.po == fo && fp.pi == fi && fp.po == fo && fp.x == a.x && fp.y == a.y, "ports:both-flags", w);
    lists<port_position>(r, [](vm::rng& g) { return rnd_pos(g); }, [](const port_position& p) { return std::pair<int, int>(p.x, p.y); });
    lists<port_direction>(r, rnd_dir, [](const port_direction& p) { return std::pair<int, int>(p.dir, 0); });
    vm::distinct(w());
}
VM_MAIN
