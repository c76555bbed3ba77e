// Monitors the Bestagon gate library: tiles of layouts are cut out and simulated with driven inputs.
#include "grow.hpp"

#include <fiction/algorithms/physical_design/apply_gate_library.hpp>
#include <fiction/algorithms/simulation/sidb/is_operational.hpp>
#include <fiction/technology/sidb_bestagon_library.hpp>
#include <fiction/types.hpp>

#include <map>
#include <set>

using namespace fiction;

namespace
{
using vm::cat;
using glyt = hex_even_row_gate_clk_lyt;
using clyt = sidb_100_cell_clk_lyt;
using slyt = sidb_100_cell_clk_lyt_siqad;
using lib  = sidb_bestagon_library;
using xy   = std::pair<int, int>;
std::string art(const std::set<xy>& s) { std::string m; for (const auto& [x, y] : s) m += cat("(", x, ",", y, ")"); return m; }
using tl   = tile<glyt>;
using word = kitty::dynamic_truth_table;
word table(const unsigned n, const uint64_t f)
{
    word t{n};
    for (unsigned i = 0; i < t.num_bits(); ++i) if ((f >> i) & 1) kitty::set_bit(t, i);
    return t;
}
struct config
{
    int  kind;
    bool west, out_west, swapped;  // input and output sides of gates with a choice; which of two wires is above
};
const char* const NAMES[] = {"wire", "not", "and", "or", "nand", "nor", "xor", "xnor", "fanout", "cross", "parallel"};
const uint64_t    TABLES[] = {2, 1, 8, 14, 7, 1, 6, 9, 2};
bool two(const config& c) { return c.kind >= 2 && c.kind != 8; }
bool west_in(const config& c) { return two(c) || c.west; }
bool east_in(const config& c) { return two(c) || !c.west; }
bool west_out(const config& c) { return c.kind >= 8 || c.out_west; }
bool east_out(const config& c) { return c.kind >= 8 || !c.out_west; }
std::string text(const config& c) { return cat(NAMES[c.kind], " from", west_in(c) ? " west" : "", east_in(c) ? " east" : "", " to", west_out(c) ? " west" : "", east_out(c) ? " east" : "", c.kind > 8 && c.swapped ? " other wire above" : ""); }
// the cells of the middle tile of a layout with the gate there, without the wires that belong to its neighbours
template <typename Lyt>
std::set<xy> cells_of(const config& c, const tl& m, const std::string& what)
{
    Lyt        l{{4, 4, 1}, row_clocking<Lyt>(num_clks::FOUR), "one"};
    const auto nw = l.north_west(m), ne = l.north_east(m), sw = l.south_west(m), se = l.south_east(m);
    std::vector<mockturtle::signal<Lyt>> in;
    if (west_in(c)) in.push_back(l.create_pi("a", nw));
    if (east_in(c)) in.push_back(l.create_pi("b", ne));
    const auto out = [&](const mockturtle::signal<Lyt>& g, const bool w) { l.create_po(g, w ? "w" : "e", w ? sw : se); };
    switch (c.kind)
    {
        case 0: out(l.create_buf(in[0], m), c.out_west); break;
        case 1: out(l.create_not(in[0], m), c.out_west); break;
        case 2: out(l.create_and(in[0], in[1], m), c.out_west); break;
        case 3: out(l.create_or(in[0], in[1], m), c.out_west); break;
        case 4: out(l.create_nand(in[0], in[1], m), c.out_west); break;
        case 5: out(l.create_nor(in[0], in[1], m), c.out_west); break;
        case 6: out(l.create_xor(in[0], in[1], m), c.out_west); break;
        case 7: out(l.create_xnor(in[0], in[1], m), c.out_west); break;
        case 8: { const auto g = l.create_buf(in[0], m); out(g, true), out(g, false); break; }
        default:
        {
            const auto g = l.create_buf(in[c.swapped ? 1 : 0], m), h = l.create_buf(in[c.swapped ? 0 : 1], l.above(m));
            out(g, c.swapped == (c.kind == 9)), out(h, c.swapped != (c.kind == 9));
            break;
        }
    }
    std::set<xy> cells;
    clyt         made{};
    try { made = apply_gate_library<clyt, lib>(l); }
    catch (const std::exception& e) { vm::violate("bestagon:refused", what + ": " + e.what()); return cells; }
    const auto at = relative_to_absolute_cell_position<lib::gate_x_size(), lib::gate_y_size(), Lyt, clyt>(l, m, cell<clyt>{0, 0});
    std::size_t inputs = 0, outputs = 0;
    made.foreach_cell([&](const auto& p)
    {
        const int x = static_cast<int>(p.x) - static_cast<int>(at.x), y = static_cast<int>(p.y) - static_cast<int>(at.y);
        if (x >= 0 && x < 60 && y >= 6 && y < 39) cells.insert({x, y});
        vm::count("cells");
    });
    made.foreach_pi([&](const auto&) { ++inputs; });
    made.foreach_po([&](const auto&) { ++outputs; });
    vm::require(made.get_layout_name() == "one" && made.is_clocking_scheme(clock_name::ROW), "bestagon:layout", what);
    return cells;
}
}  // namespace
VM_SUITE(tiles, 150, 3000)
{
    static std::set<std::string> simulated;
    const config c{static_cast<int>(r.below(11)), r.chance(50), r.chance(50), r.chance(50)};
    const auto   d = text(c);
    vm::note(d);
    const tl     m{r.range(1, 3), r.range(1, 3), 0};
    const auto   cells = r.chance(50) ? cells_of<hex_even_row_gate_clk_lyt>(c, m, d) : cells_of<hex_odd_row_gate_clk_lyt>(c, m, d);
    if (cells.empty()) return;
    vm::count(NAMES[c.kind]);
    vm::distinct(d + nets::str(m));
    // one design per gate and orientation, wherever it is
    const auto there = cells_of<hex_even_row_gate_clk_lyt>(c, {1, 1, 0}, d);
    vm::require(there == cells, "bestagon:position", [&] { return cat(d, " at ", nets::str(m), ": ", art(cells), " instead of ", art(there)); });
    const auto key = cat(NAMES[c.kind], c.kind < 2 || c.kind == 8 ? c.west : 0, c.kind < 8 ? c.out_west : 0);
    // mirrored gates are mirrored designs
    const config o{c.kind, !c.west, !c.out_west, !c.swapped};
    std::set<xy> mirrored;
    for (const auto& [x, y] : cells) mirrored.insert({58 - x, y});
    if (c.kind < 9) { const auto other = cells_of<hex_even_row_gate_clk_lyt>(o, m, text(o)); vm::require(other == mirrored, "bestagon:mirror", [&] { return cat(d, ": ", art(cells), " versus ", text(o), ": ", art(other)); }); }
    if (c.kind > 5 || !simulated.insert(key).second) return;
    // physics
    slyt s{};
    const auto put = [&](const int x, const int y, const sidb_technology::cell_type t) { s.assign_cell_type({x, y / 2, y % 2}, t); };
    using type     = sidb_technology::cell_type;
    for (const auto& [x, y] : cells) put(x, y, (y == 36 || y == 38) && (((x == 40 || x == 42) && east_out(c)) || ((x == 18 || x == 16) && west_out(c))) ? type::OUTPUT : type::NORMAL);
    if (west_in(c)) put(10, 2, type::INPUT), put(12, 4, type::INPUT);
    if (east_in(c)) put(48, 2, type::INPUT), put(46, 4, type::INPUT);
    if (east_out(c)) put(46, 40, type::NORMAL);
    if (west_out(c)) put(12, 40, type::NORMAL);
    is_operational_params p{};
    p.simulation_parameters = sidb_simulation_parameters{2, -0.32};
    p.sim_engine            = sidb_simulation_engine::QUICKEXACT;
    const auto spec = std::vector<word>{table(two(c) ? 2 : 1, TABLES[c.kind])};
    vm::require(is_operational(s, spec, p).first == operational_status::OPERATIONAL, "bestagon:function", [&] { return cat(d, ": ", art(cells)); });
    vm::count("simulated designs");
    vm::sample(d + ": operational");
}
VM_MAIN
