// Monitors the exact physical design: the layouts are legal, implement the network, keep to the parameters, and none that
// is known to exist is missed.
#include "grow.hpp"

#include <fiction/algorithms/network_transformation/fanout_substitution.hpp>
#include <fiction/algorithms/physical_design/exact.hpp>
#include <fiction/algorithms/physical_design/graph_oriented_layout_design.hpp>
#include <fiction/algorithms/properties/critical_path_length_and_throughput.hpp>
#include <fiction/types.hpp>

using namespace fiction;
using vm::cat;

namespace
{
std::string text(const exact_physical_design_params& p)
{
    return cat(p.scheme, p.crossings ? " crossings" : "", p.border_io ? " border" : "", p.desynchronize ? " desynchronized" : "", p.straight_inverters ? " straight" : "", p.minimize_wires ? " min-wires" : "", p.minimize_crossings ? " min-crossings" : "", p.fixed_size ? " fixed" : "", " ", p.upper_bound_area, ":", p.upper_bound_x, "x", p.upper_bound_y, " ");
}
template <typename Lyt>
bool border(const Lyt& l, const tile<Lyt>& c) { return c.x == 0 || c.y == 0 || c.x == l.x() || c.y == l.y(); }
template <typename Lyt>
uint64_t tiles(const Lyt& l) { return (static_cast<uint64_t>(l.x()) + 1) * (static_cast<uint64_t>(l.y()) + 1); }
template <typename Lyt>
void judge(const Lyt& l, const nets::truth& t, const exact_physical_design_params& p, const exact_physical_design_stats& st, const std::string& what)
{
    nets::implements(l, t, "exact", what);
    vm::count("layouts");
    const auto s = get_clocking_scheme<Lyt>(p.scheme);
    vm::require(l.is_clocking_scheme(s->name) && l.num_clocks() == s->num_clocks, "exact:clocking", what);
    vm::require(tiles(l) <= p.upper_bound_area && l.x() + 1 <= p.upper_bound_x && l.y() + 1 <= p.upper_bound_y, "exact:bounds", [&] { return cat(what, ": ", l.x() + 1, "x", l.y() + 1); });
    if (p.fixed_size) vm::require(tiles(l) == p.upper_bound_area, "exact:fixed-size", [&] { return cat(what, ": ", l.x() + 1, "x", l.y() + 1); });
    vm::require(p.crossings || l.num_crossings() == 0, "exact:crossings", what);
    vm::require(st.x_size == l.x() + 1 && st.y_size == l.y() + 1 && st.num_gates == l.num_gates() && st.num_wires == l.num_wires() && st.num_crossings == l.num_crossings(), "exact:stats", what);
    if (p.border_io)
    {
        l.foreach_pi([&](const auto& n) { vm::require(border(l, l.get_tile(n)), "exact:border-input", [&] { return what + " " + nets::str(l.get_tile(n)); }); });
        l.foreach_po([&](const auto& f) { vm::require(border(l, tile<Lyt>{f}), "exact:border-output", [&] { return what + " " + nets::str(tile<Lyt>{f}); }); });
    }
    if (!p.desynchronize)
    {
        const auto cp = critical_path_length_and_throughput(l);
        vm::require(cp.throughput == 1, "exact:throughput", [&] { return cat(what, ": 1/", cp.throughput); });
        vm::count("balanced layouts");
    }
    if (p.straight_inverters)
        l.foreach_gate([&](const auto& g)
        {
            if (!l.is_inv(g)) return;
            tile<Lyt> in{}, out{};
            const auto c = l.get_tile(g);
            const auto fi = [&](const auto& f) { in = static_cast<tile<Lyt>>(f); };
            const auto fo = [&](const auto& m) { out = l.get_tile(m); };
            l.foreach_fanin(g, fi), l.foreach_fanout(g, fo);
            vm::require((in.x == c.x && out.x == c.x) || (in.y == c.y && out.y == c.y), "exact:straight-inverter", [&] { return what + " at " + nets::str(c); });
            vm::count("straight inverters");
        });
}
// the network a layout implements, without its wires
template <typename Lyt>
std::pair<tec_nt, nets::truth> network_of(const Lyt& l)
{
    tec_nt      n{};
    nets::truth t;
    std::map<uint32_t, tec_nt::signal> m;
    l.foreach_pi([&](const auto& p) { m[p] = n.create_pi(); ++t.npi; t.pi_names.push_back(""); });
    const std::function<tec_nt::signal(uint32_t)> get = [&](const uint32_t x) -> tec_nt::signal
    {
        if (const auto it = m.find(x); it != m.end()) return it->second;
        std::vector<tec_nt::signal> in;
        const auto f = [&](const auto& q) { in.push_back(get(l.get_node(q))); };
        l.foreach_fanin(x, f);
        if (l.is_wire(x)) return m[x] = in[0];
        ++t.gates;
        return m[x] = l.is_inv(x) ? n.create_not(in[0]) : n.create_node(in, l.node_function(x));
    };
    l.foreach_po([&](const auto& f) { n.create_po(get(l.get_node(f))); t.po_names.push_back(""); });
    t.out = *nets::evaluate(l);
    return {n, t};
}
template <typename Lyt>
void witness(vm::rng& r, const char* kind, const std::vector<const char*>& schemes, const uint64_t area)
{
    grow::options o{};
    o.functions = o.three = o.override_zones = false, o.fanout = 2, o.width = r.chance(50) ? 4 : 3, o.height = 4;
    o.crossings   = r.chance(50);
    o.only_scheme = schemes[r.below(schemes.size())];
    for (int tries = 0; tries < 3000; ++tries)
    {
        const auto l = grow::layout<Lyt>(r, o, "w");
        if (tiles(l) > area || l.num_pos() == 0 || l.num_pis() == 0 || l.num_gates() == 0 || !nets::legal(l).empty()) continue;
        bool odd = false;  // both operands the same signal, an input straight to an output
        auto [n, t] = network_of(l);
        n.foreach_gate([&](const auto& g) { std::set<uint32_t> in; unsigned k = 0; n.foreach_fanin(g, [&](const auto& f) { in.insert(static_cast<uint32_t>(n.get_node(f))); ++k; }); odd |= in.size() != k; });
        n.foreach_po([&](const auto& f) { odd |= n.is_pi(n.get_node(f)); });
        if (odd || t.gates == 0) continue;
        exact_physical_design_params p{};
        p.scheme           = o.only_scheme;
        p.crossings        = l.num_crossings() > 0 || r.chance(30);
        p.desynchronize    = true;
        bool at_border     = true;
        l.foreach_pi([&](const auto& q) { at_border &= border(l, l.get_tile(q)); });
        l.foreach_po([&](const auto& f) { at_border &= border(l, tile<Lyt>{f}); });
        p.border_io        = at_border && r.chance(50);
        p.upper_bound_area = static_cast<uint16_t>(tiles(l));
        if (r.chance(30)) p.upper_bound_x = static_cast<uint16_t>(l.x() + 1), p.upper_bound_y = static_cast<uint16_t>(l.y() + 1);
        p.fixed_size       = r.chance(20);
        p.minimize_wires   = r.chance(20);
        p.minimize_crossings = r.chance(20);
        p.timeout          = 60000;
        const auto what    = cat(kind, " ", text(p), grow::describe(l));
        vm::note(what);
        if (getenv("TRACE")) std::fprintf(stderr, "%s\n", what.c_str());
        exact_physical_design_stats st{};
        const auto e = exact<Lyt>(n, p, &st);
        if (!e && mockturtle::to_seconds(st.time_total) > 20) { vm::count("timeouts"); return; }
        vm::count("known layouts");
        vm::distinct(what);
        vm::sample(what);
        if (!vm::require(e.has_value(), "exact:missed", [&] { return what + ": no layout found"; })) return;
        judge(*e, t, p, st, what);
        vm::require(tiles(*e) <= tiles(l), "exact:larger", [&] { return cat(what, ": ", tiles(*e), " tiles"); });
        return;
    }
    vm::count("no layout to compare with");
}
}  // namespace
VM_SUITE(cartesian_known, 30, 500) { witness<cart_gate_clk_lyt>(r, "cartesian", {"2DDWAVE3", "2DDWAVE4", "USE", "RES", "ESR", "CFE", "RIPPLE", "SRS", "BANCS", "COLUMNAR3", "COLUMNAR4", "ROW3", "ROW4"}, 12); }
VM_SUITE(hexagonal_known, 16, 300) { witness<hex_even_row_gate_clk_lyt>(r, "hexagonal", {"ROW3", "ROW4", "2DDWAVEHEX4"}, 12); }
VM_SUITE(shifted_known, 10, 200) { witness<cart_odd_col_gate_clk_lyt>(r, "shifted", {"COLUMNAR3", "COLUMNAR4"}, 12); }
// relaxing what is asked for does not cost area
VM_SUITE(relaxations, 16, 300)
{
    nets::shape s;
    s.max_pi = 3, s.max_gates = 3, s.max_po = 2, s.all_used = true, s.max_fanout = 2;
    auto [n, t] = nets::random_network(r, s);
    exact_physical_design_params p{};
    p.scheme           = r.one_of<const char*>({"2DDWave", "USE", "RES", "ESR", "2DDWave"});
    p.crossings        = r.chance(50);
    p.border_io        = r.chance(50);
    p.desynchronize    = r.chance(50);
    p.straight_inverters = r.chance(30);
    p.upper_bound_area = 15;
    p.timeout          = 10000;
    const auto what    = text(p) + t.text;
    vm::note(what);
    if (getenv("TRACE")) std::fprintf(stderr, "%s\n", what.c_str());
    exact_physical_design_stats st{};
    const auto l = exact<cart_gate_clk_lyt>(n, p, &st);
    vm::distinct(what);
    if (!l) { vm::count("no layout in the bounds"); return; }
    judge(*l, t, p, st, what);
    auto q = p;
    switch (r.below(4))
    {
        case 0: q.crossings = true; break;
        case 1: q.border_io = false; break;
        case 2: q.desynchronize = true; break;
        default: q.straight_inverters = false;
    }
    q.timeout = 60000;
    exact_physical_design_stats su{};
    const auto m = exact<cart_gate_clk_lyt>(n, q, &su);
    if (!m && mockturtle::to_seconds(su.time_total) > 20) { vm::count("timeouts"); return; }
    if (!vm::require(m.has_value(), "exact:relaxed-missed", [&] { return what + " versus " + text(q); })) return;
    judge(*m, t, q, su, text(q) + t.text);
    vm::require(tiles(*m) <= tiles(*l), "exact:relaxed-larger", [&] { return cat(what, " versus ", text(q), ": ", tiles(*m), " instead of ", tiles(*l)); });
    vm::count("relaxations compared");
}
VM_MAIN
