// Monitors the judges the library offers itself: design rule checks, equivalence checks, path analysis and gate counts are
// compared with recounts on the model from which the examined layout was built.
#include "gate_model.hpp"
#include "nets.hpp"

#include <fiction/algorithms/physical_design/orthogonal.hpp>
#include <fiction/algorithms/properties/count_gate_types.hpp>
#include <fiction/algorithms/properties/critical_path_length_and_throughput.hpp>
#include <fiction/algorithms/verification/design_rule_violations.hpp>
#include <fiction/algorithms/verification/equivalence_checking.hpp>
#include <fiction/algorithms/verification/virtual_miter.hpp>
#include <fiction/types.hpp>

#include <sstream>

using namespace gm;

namespace
{
// ---- design rules ----
struct range { std::size_t lo{0}, hi{0}; void add(bool sure = true) { lo += sure; ++hi; } };
constexpr int CHECKS = 10;
const char*   NAMES[CHECKS]{"unplaced", "dead", "non-adjacent", "missing", "crossing", "clocking", "has-io", "empty-io", "io-pins", "border-io"};
const bool    WARN[CHECKS]{true, true, false, false, false, false, false, false, true, true};
gate_level_drv_params only(unsigned mask, std::ostream& o)
{
    gate_level_drv_params p{};
    p.unplaced_nodes           = mask & 1;
    p.placed_dead_nodes        = mask & 2;
    p.non_adjacent_connections = mask & 4;
    p.missing_connections      = mask & 8;
    p.crossing_gates           = mask & 16;
    p.clocked_data_flow        = mask & 32;
    p.has_io                   = mask & 64;
    p.empty_io                 = mask & 128;
    p.io_pins                  = mask & 256;
    p.border_io                = mask & 512;
    p.out                      = &o;
    return p;
}
// recount on the model
template <typename Lyt>
std::array<range, CHECKS> recount(const Lyt& l, const model& m)
{
    std::array<range, CHECKS> c{};
    if (m.at.empty()) return c;
    const auto border = [&](const off& t) { return t.x == 0 || t.y == 0 || t.x == l.x() || t.y == l.y(); };
    for (const auto& [n, d] : m.nodes)
        if (!d.dead && !d.tile) c[0].add();
    for (const auto& [t, n] : m.at)
    {
        const auto& d = m.nodes.at(n);
        std::size_t in = 0, out = 0;
        for (const auto k : d.kids)
        {
            const auto ct  = static_cast<off>(k);
            const bool has = m.at.contains(ct);
            const auto adj = has && l.is_adjacent_elevation_of(t, ct);
            const auto clk = has && (l.get_clock_number(ct) + 1) % l.num_clocks() == l.get_clock_number(t) && ct != t;
            if (!adj) c[2].add();
            if (!clk) c[5].add(has);  // the clock zone of a signal that comes from nowhere is unspecified
            if (adj && clk) ++in;
        }
        std::set<uint32_t> seen;
        for (const auto& [t2, n2] : m.at)
            if (t2 != t && l.is_adjacent_elevation_of(t, t2) && (l.get_clock_number(t) + 1) % l.num_clocks() == l.get_clock_number(t2) &&
                std::find(m.nodes.at(n2).kids.begin(), m.nodes.at(n2).kids.end(), S(t)) != m.nodes.at(n2).kids.end())
                ++out;
        const bool po = std::find(m.pos.begin(), m.pos.end(), t) != m.pos.end();
        if ((in == 0 && !d.pi) || (out == 0 && !po)) c[3].add();
        if (t.z > 0 && m.wire(n))
        {
            const auto b = m.at.find(off{t.x, t.y, t.z - 1});
            if (b == m.at.end() || !m.wire(b->second)) c[4].add();
        }
    }
    if (m.pis.empty()) c[6].add();
    if (m.pos.empty()) c[6].add();
    const auto io = [&](uint32_t n)
    {
        const auto& d = m.nodes.at(n);
        if (!d.tile) c[7].add();
        if (!m.wire(n)) c[8].add();
        if (!d.tile || !border(*d.tile)) c[9].add(d.tile.has_value());
    };
    for (const auto n : m.pis) io(n);
    for (const auto& t : m.pos) io(m.at.at(t));
    return c;
}
template <typename Lyt>
void judge(vm::rng& r, const Lyt& l, const std::array<range, CHECKS>& c, const std::string& what)
{
    std::ostringstream   o;
    gate_level_drv_stats st{};
    range                drv, warn;
    for (int i = 0; i < CHECKS; ++i)
    {
        std::ostringstream   s;
        gate_level_drv_stats q{};
        gate_level_drvs(l, only(1u << i, s), &q);
        const auto got = WARN[i] ? q.warnings : q.drvs, other = WARN[i] ? q.drvs : q.warnings;
        vm::require(got >= c[i].lo && got <= c[i].hi && other == 0, vm::cat("drv:", NAMES[i]).c_str(), [&] { return vm::cat(what, ": ", got, " instead of ", c[i].lo, "..", c[i].hi, " (and ", other, " of the other sort)"); });
        vm::require((s.str().find("not ") != std::string::npos) == (got > 0), vm::cat("drv:summary-", NAMES[i]).c_str(), [&] { return what + ": " + s.str(); });
        vm::require(q.report["DRVs"] == q.drvs && q.report["Warnings"] == q.warnings, "drv:report", what);
        auto& x = WARN[i] ? warn : drv;
        x.lo += c[i].lo, x.hi += c[i].hi;
        vm::count(vm::cat(NAMES[i], " findings"), static_cast<long>(got));
    }
    gate_level_drvs(l, only(~0u, o), &st);
    vm::require(st.drvs >= drv.lo && st.drvs <= drv.hi && st.warnings >= warn.lo && st.warnings <= warn.hi, "drv:total", [&] { return vm::cat(what, ": ", st.drvs, " violations, ", st.warnings, " warnings"); });
    // any selection of the checks
    const auto mask = static_cast<unsigned>(r.below(1u << CHECKS));
    range      d2, w2;
    for (int i = 0; i < CHECKS; ++i)
        if ((mask >> i) & 1) (WARN[i] ? w2 : d2).lo += c[i].lo, (WARN[i] ? w2 : d2).hi += c[i].hi;
    gate_level_drvs(l, only(mask, o), &st);
    vm::require(st.drvs >= d2.lo && st.drvs <= d2.hi && st.warnings >= w2.lo && st.warnings <= w2.hi, "drv:selection", [&] { return vm::cat(what, " checks ", mask, ": ", st.drvs, " violations, ", st.warnings, " warnings"); });
}
template <typename Lyt>
void drvs(vm::rng& r, const char* type)
{
    const auto f = [&](const Lyt& l, const model& m, const std::string& what)
    {
        judge(r, l, recount(l, m), what);
        vm::distinct(what);
        vm::sample(what);
    };
    history<Lyt>(r, type, false, f);
}
// ---- layouts of networks ----
using glyt = cart_gate_clk_lyt;
nets::shape small(vm::rng& r)
{
    nets::shape s;
    s.max_pi    = 4;
    s.max_gates = vm::thorough() ? 16 : 8;
    s.max_po    = 3;
    s.functions = r.chance(30);
    s.repeated  = false;
    return s;
}
// longest paths to every node, and the largest difference of the longest paths that meet in a gate
template <typename Lyt>
std::pair<uint64_t, uint64_t> paths(const Lyt& l)
{
    struct path { uint64_t len, delay; };
    std::map<uint32_t, path> memo;
    uint64_t                 diff = 0;
    const std::function<path(uint32_t)> go = [&](uint32_t n) -> path
    {
        if (const auto it = memo.find(n); it != memo.end()) return it->second;
        std::vector<path> in;
        const auto        fn = [&](const auto& s) { in.push_back(go(l.get_node(s))); };
        l.foreach_fanin(n, fn);
        path p{1, static_cast<uint64_t>(l.get_clock_number(l.get_tile(n)))};
        if (!in.empty())
        {
            uint64_t lo = in[0].delay, hi = in[0].delay, len = 0;
            for (const auto& i : in) lo = std::min(lo, i.delay), hi = std::max(hi, i.delay), len = std::max(len, i.len);
            if (!l.is_wire(n)) diff = std::max(diff, hi - lo);
            p = {len + 1, hi + 1};
        }
        return memo[n] = p;
    };
    uint64_t cp = 0;
    l.foreach_po([&](const auto& s) { cp = std::max(cp, go(l.get_node(s)).len); });
    return {cp, 1 + diff / l.num_clocks()};
}
}  // namespace

VM_SUITE(drvs_cartesian, 100, 6000) { drvs<cart>(r, "cartesian"); }
VM_SUITE(drvs_hexagonal, 60, 3000) { drvs<hex<odd_row_hex>>(r, "odd row"); }
VM_SUITE(drvs_columns, 40, 3000) { drvs<hex<even_column_hex>>(r, "even column"); }
VM_SUITE(drvs_shifted, 40, 3000) { drvs<shift>(r, "shifted"); }
// finished layouts are free of violations until somebody breaks them
VM_SUITE(broken_layout, 60, 4000)
{
    auto [n, t]     = nets::random_network(r, small(r));
    auto       l    = orthogonal<glyt>(n);
    const auto what = t.text;
    vm::note(what);
    std::ostringstream   o;
    gate_level_drv_stats st{};
    gate_level_drvs(l, only(~0u, o), &st);
    vm::require(st.drvs == 0 && st.warnings == 0, "drv:false-alarm", [&] { return vm::cat(what, ": ", st.drvs, " violations and ", st.warnings, " warnings in a legal layout: ", o.str()); });
    std::vector<uint32_t> nodes;
    l.foreach_node([&](const auto& x) { if (!l.is_constant(x)) nodes.push_back(x); });
    const auto                         x = r.pick(nodes);
    const auto                         at = l.get_tile(x);
    std::vector<mockturtle::signal<glyt>> in;
    const auto                         fn = [&](const auto& s) { in.push_back(s); };
    l.foreach_fanin(x, fn);
    std::string how;
    switch (r.below(4))
    {
        case 0: l.clear_tile(at); how = "cleared"; break;
        case 1:
            if (l.is_pi(x)) return;
            l.move_node(x, at, {}); how = "disconnected"; break;
        case 2:
            l.assign_clock_number(at, static_cast<glyt::clock_number_t>((l.get_clock_number(at) + 1 + r.below(3)) % 4)); how = "reclocked";
            if (in.empty() && l.fanout_size(x) == 0) return;
            break;
        default:
        {
            // a gate far away, still connected to its old neighbours
            tile<glyt> far{};
            bool       found = false;
            l.foreach_ground_tile([&](const auto& q) { if (!found && l.is_empty_tile(q) && q.x + 3 < at.x + 0u) far = q, found = true; });
            if (!found) return;
            l.move_node(x, far, in);
            how = "moved";
        }
    }
    gate_level_drvs(l, only(~0u, o), &st);
    vm::require(st.drvs > 0, "drv:missed", [&] { return vm::cat(what, ": node ", x, " at ", nets::str(at), " ", how, " without a violation"); });
    // a layout with violations is not equivalent to anything
    equivalence_checking_stats es{};
    vm::require(equivalence_checking(n, l, &es) == eq_type::NO && es.impl_drv_stats.drvs == st.drvs && equivalence_checking(l, n, &es) == eq_type::NO && es.spec_drv_stats.drvs == st.drvs, "equivalence:broken-layout", [&] { return what + " " + how; });
    vm::count(vm::cat("layouts ", how));
    vm::distinct(vm::cat(what, how, x));
    vm::sample(vm::cat(what, " ", how, " ", x));
}
VM_SUITE(equivalence, 260, 12000)
{
    auto  s         = small(r);
    s.min_pi        = s.max_pi = static_cast<unsigned>(r.range(2, 6));  // from 5 inputs on, layouts with a throughput below 1 come up
    auto [a, ta]    = nets::random_network(r, s);
    // the other design: the same network, or one that computes something else (sometimes only at one output)
    const bool same = r.chance(35);
    auto       tb   = ta;
    auto       b    = a;
    if (!same)
    {
        auto p = nets::random_network(r, s);
        for (int i = 0; i < 30 && p.second.out.size() != ta.out.size() && !r.chance(5); ++i) p = nets::random_network(r, s);
        b = p.first, tb = p.second;
    }
    const auto what = vm::cat(ta.text, " / ", same ? "same" : tb.text);
    vm::note(what);
    const bool eq   = ta.npi == tb.npi && ta.out == tb.out;
    const auto pins = ta.npi == tb.npi && ta.out.size() == tb.out.size();
    const auto chk  = [&](const auto& x, const auto& y, const char* how, const eq_type want)
    {
        equivalence_checking_stats st{};
        const auto                 got = equivalence_checking(x, y, &st);
        vm::require(got == want, "equivalence:verdict", [&] { return vm::cat(what, " (", how, "): verdict ", static_cast<int>(got), " instead of ", static_cast<int>(want)); });
        vm::require(st.eq == got || !pins, "equivalence:stats", what);
        if (got == eq_type::NO && pins && !eq)
        {
            bool ok = st.counter_example.size() == ta.npi;
            if (ok)
            {
                uint64_t idx = 0;
                for (std::size_t i = 0; i < ta.npi; ++i) idx |= static_cast<uint64_t>(st.counter_example[i]) << i;
                bool differs = false;
                for (std::size_t i = 0; i < ta.out.size(); ++i) differs |= ((ta.out[i] ^ tb.out[i]) >> idx) & 1;
                ok = differs;
            }
            vm::require(ok, "equivalence:counterexample", [&] { return vm::cat(what, " (", how, ")"); });
        }
        if (got != eq_type::NO) vm::require(st.tp_diff == std::abs(st.tp_spec - st.tp_impl) && (st.tp_diff == 0) == (got == eq_type::STRONG), "equivalence:throughput-difference", what);
        vm::count(got == eq_type::NO ? "verdicts NO" : got == eq_type::WEAK ? "verdicts WEAK" : "verdicts STRONG");
        return st;
    };
    chk(a, b, "networks", eq ? eq_type::STRONG : eq_type::NO);
    chk(b, a, "networks", eq ? eq_type::STRONG : eq_type::NO);
    const auto la = orthogonal<glyt>(a), lb = orthogonal<glyt>(b);
    const auto [cpa, tpa] = paths(la);
    const auto [cpb, tpb] = paths(lb);
    const auto ca = critical_path_length_and_throughput(la), cb = critical_path_length_and_throughput(lb);
    vm::require(ca.critical_path_length == cpa && cb.critical_path_length == cpb, "paths:critical", [&, cpa = cpa] { return vm::cat(ta.text, ": ", ca.critical_path_length, " instead of ", cpa); });
    vm::require(ca.throughput == tpa && cb.throughput == tpb, "paths:throughput", [&, tpa = tpa] { return vm::cat(ta.text, ": ", ca.throughput, " instead of ", tpa); });
    chk(a, lb, "network, layout", !eq ? eq_type::NO : tpb == 1 ? eq_type::STRONG : eq_type::WEAK);
    chk(la, b, "layout, network", !eq ? eq_type::NO : tpa == 1 ? eq_type::STRONG : eq_type::WEAK);
    const auto st = chk(la, lb, "layouts", !eq ? eq_type::NO : tpa == tpb ? eq_type::STRONG : eq_type::WEAK);
    if (eq) vm::require(st.tp_spec == static_cast<int64_t>(tpa) && st.tp_impl == static_cast<int64_t>(tpb), "equivalence:throughput", what);
    // the miter is 1 exactly where the designs differ
    const auto m = virtual_miter<tec_nt>(a, b);
    vm::require(m.has_value() == pins, "miter:pins", what);
    if (m)
    {
        uint64_t d = 0;
        for (std::size_t i = 0; i < ta.out.size(); ++i) d |= ta.out[i] ^ tb.out[i];
        const auto f = nets::simulate(*m);
        vm::require(f && f->size() == 1 && (*f)[0] == d && m->num_pis() == ta.npi, "miter:function", what);
    }
    vm::distinct(what);
    vm::sample(what);
}
VM_SUITE(counts, 200, 8000)
{
    nets::shape s;
    s.max_pi = 4, s.max_gates = 14, s.max_po = 4, s.maj = r.chance(50), s.functions = r.chance(50), s.same_po = true, s.repeated = false;
    auto [n, t] = nets::random_network(r, s);
    vm::note(t.text);
    const auto one = [&](const auto& x, const char* what)
    {
        count_gate_types_stats st{};
        count_gate_types(x, &st);
        std::map<std::string, uint64_t> c;
        x.foreach_node(
            [&](const auto& v)
            {
                if (x.is_constant(v)) return;
                const bool pi = x.is_pi(v);
                uint64_t   succ = 0;
                x.foreach_node([&](const auto& u) { if (!x.is_constant(u)) { const auto fn = [&](const auto& f) { succ += x.get_node(f) == v; }; x.foreach_fanin(u, fn); } });
                if constexpr (!is_gate_level_layout_v<std::decay_t<decltype(x)>>)
                {
                    if (pi) return;
                    x.foreach_po([&](const auto& f) { succ += x.get_node(f) == v; });
                }
                const auto f  = x.node_function(v);
                const auto tt = word(f);
                std::string k = "other";
                if (f.num_vars() == 1) k = tt == 1 ? "inv" : tt == 2 ? "buf" : k;
                if (f.num_vars() == 2)
                    k = tt == 8 ? "and" : tt == 0xe ? "or" : tt == 7 ? "nand" : tt == 1 ? "nor" : tt == 6 ? "xor" : tt == 9 ? "xnor" : tt == 2 ? "gt" : tt == 4 ? "lt" : tt == 0xd ? "le" : tt == 0xb ? "ge" : k;
                if (f.num_vars() == 3) k = tt == 0xe8 ? "maj" : k;
                if (k == "buf" && succ > 1) k = "fanout";
                c[k]++;
            });
        std::map<std::string, uint64_t> g{{"fanout", st.num_fanout}, {"buf", st.num_buf}, {"inv", st.num_inv}, {"and", st.num_and2}, {"or", st.num_or2}, {"nand", st.num_nand2}, {"nor", st.num_nor2}, {"xor", st.num_xor2}, {"xnor", st.num_xnor2}, {"maj", st.num_maj3},
                                         {"comparison", st.num_lt2 + st.num_gt2 + st.num_le2 + st.num_ge2}, {"other", st.num_other + st.num_and3 + st.num_xor_and + st.num_or_and + st.num_onehot + st.num_gamble + st.num_dot + st.num_mux + st.num_and_xor}};
        c["comparison"] = c["lt"] + c["gt"] + c["le"] + c["ge"];
        for (const auto& [k, v] : g) vm::require(v == c[k], vm::cat("counts:", k).c_str(), [&, k = k, v = v] { return vm::cat(what, " ", t.text, ": ", v, " ", k, " instead of ", c[k]); });
        std::ostringstream o;
        st.report(o, true);
        uint64_t total = 0;
        for (const auto& [k, v] : g) total += v;
        vm::require(o.str().find(vm::cat("total  = ", total, "\n")) != std::string::npos, "counts:total", [&] { return o.str(); });
    };
    one(n, "network");
    if (t.text.find("maj") == std::string::npos)
    {
        const auto l = orthogonal<glyt>(n);
        one(l, "layout");
    }
    vm::distinct(t.text);
    vm::sample(t.text);
}
VM_MAIN
