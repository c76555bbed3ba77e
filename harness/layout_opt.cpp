// Monitors the algorithms that rework a finished layout: whatever they move, the result is legal, has the same pins and
// computes the same function.
#include "nets.hpp"

#include <fiction/algorithms/physical_design/hexagonalization.hpp>
#include <fiction/algorithms/physical_design/orthogonal.hpp>
#include <fiction/algorithms/physical_design/post_layout_optimization.hpp>
#include <fiction/algorithms/physical_design/wiring_reduction.hpp>
#include <fiction/types.hpp>

using namespace fiction;

namespace
{
using glyt = cart_gate_clk_lyt;
using hlyt = hex_even_row_gate_clk_lyt;
struct made { glyt l; nets::truth t; std::string what; bool ordered; };
// ordered: gates whose operands cannot be swapped
made make(vm::rng& r, bool ordered)
{
    nets::shape s;
    s.max_pi     = 4;
    s.max_gates  = vm::thorough() ? 14 : 8;
    s.max_po     = 3;
    s.repeated   = false;
    s.same_root  = false;
    s.comparison = ordered;
    s.functions  = ordered && r.chance(30);
    s.same_po    = r.chance(20);
    s.pi_po      = r.chance(15);
    auto [n, t]  = nets::random_network(r, s);
    vm::note(t.text);
    auto l = orthogonal<glyt>(n);
    return {l, t, t.text, ordered};
}
template <typename Lyt>
void borders(const Lyt& l, const char* key, const std::string& what)
{
    l.foreach_pi([&](const auto& p) { const auto c = l.get_tile(p); vm::require(c.x == 0 || c.y == 0, vm::cat(key, ":input-border").c_str(), [&] { return what + " " + nets::str(c); }); });
    l.foreach_po([&](const auto& p) { const tile<Lyt> c{p}; vm::require(c.x == l.x() || c.y == l.y(), vm::cat(key, ":output-border").c_str(), [&] { return what + " " + nets::str(c); }); });
}
void reduce(vm::rng& r, bool ordered)
{
    const auto            m = make(r, ordered);
    wiring_reduction_params p{};
    if (r.chance(10)) p.timeout = static_cast<uint64_t>(r.range(0, 3));
    wiring_reduction_stats st{};
    const auto x = m.l.x(), y = m.l.y();
    const auto w = m.l.num_wires();
    const auto pins = m.l.num_pis() + m.l.num_pos();
    const auto g = m.l.num_gates();
    wiring_reduction(m.l, p, &st);
    const auto key = ordered ? "wiring-reduction-ordered" : "wiring-reduction";
    nets::implements(m.l, m.t, key, m.what);
    borders(m.l, key, m.what);
    vm::require(m.l.num_wires() <= w && m.l.num_gates() == g && m.l.x() <= x && m.l.y() <= y, vm::cat(key, ":larger").c_str(), m.what);
    vm::require(st.x_size_before == x + 1 && st.y_size_before == y + 1 && st.num_wires_before == w - pins && st.x_size_after == m.l.x() + 1 && st.y_size_after == m.l.y() + 1 && st.num_wires_after == m.l.num_wires() - pins, vm::cat(key, ":stats").c_str(), m.what);
    vm::count("wires removed", static_cast<long>(w - m.l.num_wires()));
    vm::distinct(m.what);
    vm::sample(m.what);
}
void optimize(vm::rng& r, bool ordered)
{
    const auto                      m = make(r, ordered);
    post_layout_optimization_params p{};
    if (r.chance(40)) p.max_gate_relocations = static_cast<uint64_t>(r.range(0, 20));
    p.optimize_pos_only   = r.chance(15);
    p.planar_optimization = r.chance(30);
    if (r.chance(10)) p.timeout = static_cast<uint64_t>(r.range(0, 20));
    post_layout_optimization_stats st{};
    const auto                     x = m.l.x(), y = m.l.y();
    const auto w = m.l.num_wires(), g = m.l.num_gates(), c = m.l.num_crossings();
    const auto pins = m.l.num_pis() + m.l.num_pos();
    const auto what = vm::cat(m.what, " relocations ", p.max_gate_relocations ? vm::cat(*p.max_gate_relocations) : "all", p.optimize_pos_only ? " outputs only" : "", p.planar_optimization ? " planar" : "");
    vm::note(what);
    post_layout_optimization(m.l, p, &st);
    const auto key = ordered ? "optimization-ordered" : "optimization";
    nets::implements(m.l, m.t, key, what);
    vm::require(m.l.num_gates() == g, vm::cat(key, ":gates").c_str(), what);
    vm::require((m.l.x() + 1) * (m.l.y() + 1) <= (x + 1) * (y + 1), vm::cat(key, ":area").c_str(), [&] { return vm::cat(what, ": ", x + 1, "x", y + 1, " became ", m.l.x() + 1, "x", m.l.y() + 1); });
    if (p.planar_optimization) vm::require(m.l.num_crossings() <= c, vm::cat(key, ":planar").c_str(), what);
    vm::require(st.x_size_before == x + 1 && st.y_size_before == y + 1 && st.num_wires_before == w - pins && st.x_size_after == m.l.x() + 1 && st.y_size_after == m.l.y() + 1 && st.num_wires_after == m.l.num_wires() - pins && st.num_crossings_before == c && st.num_crossings_after == m.l.num_crossings(),
                vm::cat(key, ":stats").c_str(), what);
    vm::count("tiles saved", static_cast<long>((x + 1) * (y + 1)) - static_cast<long>((m.l.x() + 1) * (m.l.y() + 1)));
    vm::distinct(what);
    vm::sample(what);
}
void hexagonal(vm::rng& r, bool ordered)
{
    auto m = make(r, ordered);
    if (r.chance(40)) post_layout_optimization(m.l);
    if (!nets::legal(m.l).empty() || nets::evaluate(m.l) != m.t.out) return;  // judged above
    hexagonalization_params p{};
    using mode             = hexagonalization_params::io_pin_extension_mode;
    const mode modes[]     = {mode::NONE, mode::EXTEND, mode::EXTEND_PLANAR};
    p.input_pin_extension  = modes[r.below(3)];
    p.output_pin_extension = modes[r.below(3)];
    const auto what        = vm::cat(m.what, " pins ", static_cast<int>(p.input_pin_extension), " ", static_cast<int>(p.output_pin_extension));
    vm::note(what);
    const bool plain = p.input_pin_extension == mode::NONE && p.output_pin_extension == mode::NONE;
    const auto key   = vm::cat("hexagonalization", ordered ? "-ordered" : "", plain ? "" : "-extended");
    hexagonalization_stats st{};
    const auto             w = m.l.num_wires();
    try
    {
        const auto h = hexagonalization<hlyt>(m.l, p, &st);
        nets::implements(h, m.t, key, what);
        vm::require(h.num_gates() == m.l.num_gates(), (key + ":gates").c_str(), what);
        if (plain) vm::require(h.num_wires() == w && h.num_crossings() == m.l.num_crossings(), (key + ":wires").c_str(), what);
        vm::require(h.is_clocking_scheme(clock_name::ROW), (key + ":clocking").c_str(), what);
        vm::require(st.x_size == h.x() + 1 && st.y_size == h.y() + 1 && st.num_gates == h.num_gates() && st.num_wires == h.num_wires() && st.num_crossings == h.num_crossings(), (key + ":stats").c_str(), what);
        if (p.input_pin_extension != mode::NONE)
            h.foreach_pi([&](const auto& n) { vm::require(h.get_tile(n).y == 0, (key + ":input-row").c_str(), [&] { return vm::cat(what, " ", nets::str(h.get_tile(n))); }); });
        if (p.output_pin_extension != mode::NONE)
            h.foreach_po([&](const auto& s) { vm::require(tile<hlyt>{s}.y == h.y(), (key + ":output-row").c_str(), [&] { return vm::cat(what, " ", nets::str(tile<hlyt>{s})); }); });
        if (p.input_pin_extension != mode::EXTEND && p.output_pin_extension != mode::EXTEND) vm::require(h.num_crossings() <= m.l.num_crossings(), (key + ":planar").c_str(), what);
        vm::count(vm::cat("hexagonal layouts ", static_cast<int>(p.input_pin_extension), " ", static_cast<int>(p.output_pin_extension)));
    }
    catch (const hexagonalization_io_pin_routing_error&)
    {
        vm::require(!plain, (key + ":refused").c_str(), what);
        vm::count("pins that cannot be routed");
    }
    vm::distinct(what);
    vm::sample(what);
}
}  // namespace

VM_SUITE(wiring, 60, 3000) { reduce(r, false); }
VM_SUITE(wiring_ordered, 40, 2000) { reduce(r, true); }
VM_SUITE(optimization, 40, 2000) { optimize(r, false); }
VM_SUITE(optimization_ordered, 30, 1000) { optimize(r, true); }
VM_SUITE(hexagonal_plain, 60, 3000) { hexagonal(r, false); }
VM_SUITE(hexagonal_ordered, 40, 2000) { hexagonal(r, true); }
// known finding: a gate whose operands are the same signal, one of them through a buffer
VM_SUITE(same_signal, 1, 1)
{
    tec_nt     n{};
    const auto a = n.create_pi(), b = n.create_buf(a);
    n.create_po(n.create_not(n.create_nand(b, a)));
    nets::truth t;
    t.npi      = 1;
    t.out      = {2};
    t.pi_names = {""};
    t.po_names = {""};
    auto l     = orthogonal<glyt>(n);
    nets::implements(l, t, "optimization:same-signal-before", "not(nand(buf(a),a))");
    post_layout_optimization(l);
    nets::implements(l, t, "optimization:same-signal", "not(nand(buf(a),a))");
}
VM_MAIN
