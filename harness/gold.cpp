// Monitors the graph-oriented physical design.
#include "nets.hpp"

#include <fiction/algorithms/physical_design/graph_oriented_layout_design.hpp>
#include <fiction/types.hpp>

#include <chrono>
#include <thread>

using namespace fiction;
using vm::cat;
using params = graph_oriented_layout_design_params;
using lyt    = cart_gate_clk_lyt;

namespace
{
params draw(vm::rng& r)
{
    params ps{};
    ps.mode                                = static_cast<params::effort_mode>(r.below(r.chance(10) ? 4 : 2));
    ps.planar                              = r.chance(20);
    ps.cost                                = static_cast<params::cost_objective>(r.below(4));
    ps.return_first                        = r.chance(40);
    ps.num_vertex_expansions               = r.range(1, 5);
    ps.straight_inverters                  = r.chance(20);
    ps.tiles_to_skip_between_pis           = r.below(4);
    ps.randomize_tiles_to_skip_between_pis = r.chance(40);
    if (r.chance(50)) ps.seed = static_cast<uint32_t>(r());
    ps.enable_multithreading = r.chance(30);
    ps.timeout               = 3000;
    return ps;
}
std::string text(const params& ps)
{
    return cat(to_string(ps.mode), " ", to_string(ps.cost), ps.planar ? " planar" : "", ps.return_first ? " first" : "", ps.straight_inverters ? " straight" : "", ps.enable_multithreading ? " threads" : "", " skip ", ps.tiles_to_skip_between_pis, ps.randomize_tiles_to_skip_between_pis ? " random " : " ", "expand ", ps.num_vertex_expansions, " ");
}
void judge(const lyt& l, const nets::truth& t, const params& ps, const graph_oriented_layout_design_stats& st, const std::string& what)
{
    nets::implements(l, t, "graph-oriented", what);
    vm::require(l.is_clocking_scheme(clock_name::TWODDWAVE), "graph-oriented:clocking", what);
    vm::require(st.x_size == l.x() + 1 && st.y_size == l.y() + 1 && st.num_gates == l.num_gates() && st.num_wires == l.num_wires() && st.num_crossings == l.num_crossings(), "graph-oriented:stats", [&] { return cat(what, ": ", st.x_size, "x", st.y_size, " ", st.num_gates, " gates ", st.num_wires, " wires ", st.num_crossings, " crossings, not ", l.x() + 1, "x", l.y() + 1, " ", l.num_gates(), " ", l.num_wires(), " ", l.num_crossings()); });
    vm::require(!ps.planar || l.num_crossings() == 0, "graph-oriented:planar", what);
    l.foreach_pi([&](const auto& p) { const auto c = l.get_tile(p); vm::require(c.z == 0 && (c.x == 0 || c.y == 0), "graph-oriented:input-border", [&] { return what + " " + nets::str(c); }); });
    // no row or column is empty at the far side
    uint64_t x = 0, y = 0;
    l.foreach_tile([&](const auto& c) { if (!l.is_empty_tile(c)) x = std::max<uint64_t>(x, c.x), y = std::max<uint64_t>(y, c.y); });
    vm::require(x == l.x() && y == l.y(), "graph-oriented:extent", what);
    if (ps.straight_inverters)
        l.foreach_gate([&](const auto& g)
        {
            if (!l.is_inv(g)) return;
            tile<lyt> in{}, out{};
            const auto c = l.get_tile(g);
            const auto fi = [&](const auto& f) { in = static_cast<tile<lyt>>(f); };
            const auto fo = [&](const auto& m) { out = l.get_tile(m); };
            l.foreach_fanin(g, fi), l.foreach_fanout(g, fo);
            vm::require((in.x == c.x && out.x == c.x) || (in.y == c.y && out.y == c.y), "graph-oriented:straight-inverter", [&] { return what + " at " + nets::str(c); });
        });
}
std::string text(const lyt& l)
{
    std::vector<std::string> v;
    l.foreach_node([&](const auto& n)
    {
        if (l.is_constant(n)) return;
        std::string s = nets::str(l.get_tile(n)) + (l.is_pi(n) ? "i" : l.is_po(n) ? "o" : kitty::to_hex(l.node_function(n)));
        const auto  f = [&](const auto& x) { s += nets::str(static_cast<tile<lyt>>(x)); };
        l.foreach_fanin(n, f);
        v.push_back(s);
    });
    std::sort(v.begin(), v.end());
    std::string s;
    for (const auto& x : v) s += x + " ";
    return s;
}
nets::shape shape()
{
    nets::shape s;
    s.max_pi = 4, s.max_gates = 8, s.max_po = 3, s.all_used = true, s.min_pi = 1;
    return s;
}
}  // namespace
VM_SUITE(search, 40, 800)
{
    auto [n, t] = nets::random_network(r, shape());
    const auto ps = draw(r);
    const auto what = text(ps) + t.text;
    vm::note(what);
    graph_oriented_layout_design_stats st{};
    const auto l = graph_oriented_layout_design<lyt, tec_nt>(n, ps, &st);
    vm::distinct(what);
    if (!l) { vm::count("no layout"); return; }
    vm::count("layouts");
    vm::sample(what);
    judge(*l, t, ps, st, what);
}
// the layout only depends on the network, the parameters, and the seed
VM_SUITE(reproducible, 30, 500)
{
    auto [n, t] = nets::random_network(r, shape());
    auto ps = draw(r);
    ps.mode = params::effort_mode::HIGH_EFFICIENCY, ps.return_first = true, ps.enable_multithreading = false, ps.seed = static_cast<uint32_t>(r()), ps.timeout = 5000;
    const auto what = text(ps) + t.text;
    vm::note(what);
    std::string a, b;
    const auto  once = [&](std::string& s)
    {
        graph_oriented_layout_design_stats st{};
        const auto l = graph_oriented_layout_design<lyt, tec_nt>(n, ps, &st);
        s = l ? text(*l) : "none";
        if (l) judge(*l, t, ps, st, what);
    };
    const auto begin = std::chrono::steady_clock::now();
    once(a);                       // in a thread that ran other searches before
    // a search that ran into its limit returns what it has by then, which no seed determines
    if (std::chrono::steady_clock::now() - begin >= std::chrono::milliseconds(4500)) { vm::count("searches too long"); return; }
    ps.timeout = 60000;
    std::thread([&] { once(b); }).join();  // in a thread that did not
    vm::require(a == b, "graph-oriented:reproducible", [&] { return cat(what, ": ", a, " versus ", b); });
    vm::distinct(what);
}
// of the layouts of several objectives, each is the best of its own; the first layout is not better than the last
VM_SUITE(objectives, 8, 150)
{
    auto sh = shape();
    sh.max_gates = 4;
    auto [n, t] = nets::random_network(r, sh);
    auto ps = draw(r);
    ps.mode = params::effort_mode::HIGH_EFFICIENCY, ps.enable_multithreading = false, ps.seed = static_cast<uint32_t>(r()), ps.timeout = 2000, ps.return_first = true;
    const auto cost = [&](const lyt& l) -> uint64_t
    {
        switch (ps.cost)
        {
            case params::cost_objective::AREA: return (l.x() + 1) * (l.y() + 1);
            case params::cost_objective::WIRES: return l.num_wires();
            case params::cost_objective::CROSSINGS: return l.num_crossings();
            default: return (l.x() + 1) * (l.y() + 1) * (l.num_crossings() + 1);
        }
    };
    const auto what = text(ps) + t.text;
    vm::note(what);
    graph_oriented_layout_design_stats st{};
    const auto f = graph_oriented_layout_design<lyt, tec_nt>(n, ps, &st);
    ps.return_first = false;
    const auto l = graph_oriented_layout_design<lyt, tec_nt>(n, ps, &st);
    if (l) judge(*l, t, ps, st, what);
    if (f && l) vm::require(cost(*l) <= cost(*f), "graph-oriented:improves", [&] { return cat(what, ": first ", cost(*f), ", finally ", cost(*l)); }), vm::count("improvements compared");
    vm::distinct(what);
}
VM_SUITE(refused, 20, 200)
{
    nets::shape s;
    s.min_pi = 3;
    s.maj    = true;
    s.max_gates = 4;
    auto [n, t] = nets::random_network(r, s);
    const bool has = t.text.find("maj") != std::string::npos;
    bool       threw = false;
    params     ps{};
    ps.return_first = true, ps.timeout = 200;
    try { (void)graph_oriented_layout_design<lyt, tec_nt>(n, ps); } catch (const high_degree_fanin_exception&) { threw = true; }
    vm::require(has == threw, "graph-oriented:high-degree-fanin", t.text);
    ps.cost = params::cost_objective::CUSTOM;
    threw = false;
    if (!has) { try { (void)graph_oriented_layout_design<lyt, tec_nt>(n, ps); } catch (const std::invalid_argument&) { threw = true; } vm::require(threw, "graph-oriented:no-objective", t.text); }
    vm::distinct(t.text);
}
VM_MAIN
