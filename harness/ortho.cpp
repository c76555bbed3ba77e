// Monitors the scalable physical design: whatever network goes in, the layout that comes out is legal and implements it.
#include "nets.hpp"

#include <fiction/algorithms/physical_design/orthogonal.hpp>
#include <fiction/types.hpp>

using namespace fiction;

namespace
{
template <typename Lyt>
void run(vm::rng& r, const char* type)
{
    nets::shape s;
    s.max_pi    = 5;
    s.max_gates = vm::thorough() ? 40 : 16;
    s.max_po    = 5;
    s.functions = r.chance(30);
    s.same_po   = r.chance(30);
    s.pi_po     = r.chance(20);
    s.all_used  = true;
    s.repeated  = false;
    auto [n, t] = nets::random_network(r, s);
    const auto what = vm::cat(type, " ", t.text);
    vm::note(what);
    orthogonal_physical_design_params ps{};
    const bool                        three = r.chance(30);
    if (three) ps.number_of_clock_phases = num_clks::THREE;
    orthogonal_physical_design_stats st{};
    const auto                       l = orthogonal<Lyt>(n, ps, &st);
    nets::rules                      q;
    q.dangling = !s.all_used;
    nets::implements(l, t, "orthogonal", what, q);
    vm::require(l.is_clocking_scheme(clock_name::TWODDWAVE) && l.num_clocks() == (three ? 3 : 4), "orthogonal:clocking", what);
    vm::require(st.x_size == l.x() + 1 && st.y_size == l.y() + 1 && st.num_gates == l.num_gates() && st.num_wires == l.num_wires() && st.num_crossings == l.num_crossings(), "orthogonal:stats", what);
    // pins lie on the border
    l.foreach_pi([&](const auto& p) { const auto c = l.get_tile(p); vm::require(c.x == 0 || c.y == 0, "orthogonal:input-border", what + " " + nets::str(c)); });
    l.foreach_po([&](const auto& p) { const tile<Lyt> c{p}; vm::require(c.x == l.x() || c.y == l.y(), "orthogonal:output-border", what + " " + nets::str(c)); });
    vm::distinct(what);
    vm::sample(what);
}
}  // namespace

VM_SUITE(cartesian, 260, 8000) { run<cart_gate_clk_lyt>(r, "cartesian"); }
// both operands of a gate are the same signal
VM_SUITE(repeated_operand, 1, 1)
{
    (void)r;
    tec_nt     n{};
    const auto a = n.create_pi();
    n.create_po(n.create_nand(a, a));
    nets::truth t;
    t.npi      = 1;
    t.out      = {1};
    t.pi_names = {""};
    t.po_names = {""};
    const auto l = orthogonal<cart_gate_clk_lyt>(n);
    nets::implements(l, t, "orthogonal:repeated-operand", "nand(a,a)");
}
// networks with gates of three inputs are refused
VM_SUITE(refused, 20, 200)
{
    nets::shape s;
    s.min_pi = 3;
    s.maj    = true;
    auto [n, t] = nets::random_network(r, s);
    const bool has = t.text.find("maj") != std::string::npos;
    bool       threw = false;
    try { (void)orthogonal<cart_gate_clk_lyt>(n); } catch (const high_degree_fanin_exception&) { threw = true; }
    vm::require(has == threw, "orthogonal:high-degree-fanin", t.text);
    vm::distinct(t.text);
}
VM_MAIN
