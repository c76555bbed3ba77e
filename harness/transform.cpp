// Monitors the transformations of logic networks: the function stays, the advertised structure is reached.
#include "nets.hpp"

#include <fiction/algorithms/network_transformation/delete_virtual_pis.hpp>
#include <fiction/algorithms/network_transformation/fanout_substitution.hpp>
#include <fiction/algorithms/network_transformation/network_balancing.hpp>
#include <fiction/algorithms/network_transformation/network_conversion.hpp>
#include <fiction/algorithms/network_transformation/technology_mapping.hpp>
#include <fiction/algorithms/verification/virtual_miter.hpp>
#include <fiction/networks/views/bfs_topo_view.hpp>
#include <fiction/networks/views/edge_color_view.hpp>
#include <fiction/networks/views/mutable_rank_view.hpp>
#include <fiction/networks/views/static_depth_view.hpp>
#include <fiction/networks/virtual_pi_network.hpp>
#include <fiction/utils/network_utils.hpp>
#include <mockturtle/views/fanout_view.hpp>

using namespace fiction;

namespace
{
template <typename Ntk>
bool same(const Ntk& n, const nets::truth& t, const char* key, const std::string& what, bool names = true)
{
    const std::string k = key;
    if (!vm::require(n.num_pis() == t.npi && n.num_pos() == t.out.size(), (k + ":pins").c_str(), [&] { return vm::cat(what, ": ", n.num_pis(), " inputs, ", n.num_pos(), " outputs"); })) return false;
    const auto f = nets::simulate(n);
    vm::require(f && *f == t.out, (k + ":function").c_str(), [&] { return vm::cat(what, ": computes ", f ? nets::hex(*f) : "nothing", " instead of ", nets::hex(t.out)); });
    if (names)
    {
        n.foreach_pi([&](const auto& p, auto i) { if (!t.pi_names[i].empty()) vm::require(n.has_name(n.make_signal(p)) && n.get_name(n.make_signal(p)) == t.pi_names[i], (k + ":input-name").c_str(), [&] { return vm::cat(what, ": input ", i); }); });
        for (uint32_t i = 0; i < t.out.size(); ++i)
            if (!t.po_names[i].empty()) vm::require(n.has_output_name(i) && n.get_output_name(i) == t.po_names[i], (k + ":output-name").c_str(), [&] { return vm::cat(what, ": output ", i); });
    }
    vm::count("nodes compared", static_cast<long>(n.size()));
    return true;
}
nets::shape big(vm::rng& r, bool complemented = false)
{
    nets::shape s;
    s.max_pi    = 5;
    s.max_gates = vm::thorough() ? 40 : 18;
    s.max_po    = 5;
    s.functions = !complemented && r.chance(30);
    s.maj       = r.chance(40);
    s.same_po   = r.chance(40);
    s.pi_po     = r.chance(30);
    s.repeated  = !complemented && r.chance(30);
    return s;
}
// successors of every node, counted over fanins and outputs
template <typename Ntk>
std::map<uint64_t, unsigned> successors(const Ntk& n)
{
    std::map<uint64_t, unsigned> c;
    n.foreach_node([&](const auto& x) { n.foreach_fanin(x, [&](const auto& f) { ++c[n.get_node(f)]; }); });
    n.foreach_po([&](const auto& f) { ++c[n.get_node(f)]; });
    return c;
}
template <typename Ntk>
std::map<uint64_t, unsigned> levels(const Ntk& n)
{
    std::map<uint64_t, unsigned>                                l;
    const std::function<unsigned(const typename Ntk::node&)> go = [&](const typename Ntk::node& x) -> unsigned
    {
        if (const auto it = l.find(x); it != l.end()) return it->second;
        unsigned m = 0;
        bool     any = false;
        n.foreach_fanin(x, [&](const auto& f) { any = true; m = std::max(m, go(n.get_node(f))); });
        return l[x] = any ? m + 1 : 0;
    };
    n.foreach_node([&](const auto& x) { go(x); });
    return l;
}
template <typename Src>
void conversion(vm::rng& r, const char* nm)
{
    auto [n, t] = nets::random_network<Src>(r, big(r, true));
    n.set_network_name("nw");
    const auto what = vm::cat(nm, " ", t.text);
    vm::note(what);
    const auto x = convert_network<tec_nt>(n);
    same(x, t, "convert:technology", what);
    vm::require(x.get_network_name() == "nw", "convert:network-name", what);
    // conversions into the same type clean the network, i.e., inputs without any use disappear
    const auto to = [&]<typename Dst>(const char* key)
    {
        const auto c = convert_network<Dst>(n);
        if (std::is_same_v<Src, Dst> && c.num_pis() < t.npi) vm::count("networks that lost unused inputs");
        else same(c, t, key, what);
    };
    to.template operator()<aig_nt>("convert:aig");
    to.template operator()<xag_nt>("convert:xag");
    to.template operator()<mig_nt>("convert:mig");
    same(convert_network<tec_nt>(convert_network<mig_nt>(x)), t, "convert:chain", what);
    vm::distinct(what);
    vm::sample(what);
}
}  // namespace

VM_SUITE(convert, 400, 12000)
{
    switch (r.below(4))
    {
        case 0: conversion<aig_nt>(r, "aig"); break;
        case 1: conversion<xag_nt>(r, "xag"); break;
        case 2: conversion<mig_nt>(r, "mig"); break;
        default:
        {
            auto [n, t] = nets::random_network(r, big(r));
            n.set_network_name("nw");
            vm::note(t.text);
            same(convert_network<tec_nt>(n), t, "convert:same-type", t.text);
            same(convert_network<aig_nt>(n), t, "convert:technology-to-aig", t.text);
            same(convert_network<xag_nt>(n), t, "convert:technology-to-xag", t.text);
            same(convert_network<mig_nt>(n), t, "convert:technology-to-mig", t.text);
            vm::distinct(t.text);
        }
    }
}
VM_SUITE(fanout, 400, 12000)
{
    auto [n, t] = nets::random_network(r, big(r));
    fanout_substitution_params ps{};
    const auto                 st = r.below(3);
    ps.strategy  = st == 0 ? fanout_substitution_params::substitution_strategy::BREADTH : st == 1 ? fanout_substitution_params::substitution_strategy::DEPTH : fanout_substitution_params::substitution_strategy::RANDOM;
    ps.degree    = static_cast<uint32_t>(2 + r.below(3));
    ps.threshold = r.chance(60) ? 1u : static_cast<uint32_t>(1 + r.below(ps.degree));
    if (st == 2 && r.chance(70)) ps.seed = static_cast<uint32_t>(r.below(1000));
    const auto what = vm::cat("strategy ", st, " degree ", ps.degree, " threshold ", ps.threshold, " ", t.text);
    vm::note(what);
    n.set_network_name("nw");
    const auto sub = fanout_substitution<tec_nt>(n, ps);
    same(sub, t, "fanout", what);
    vm::require(sub.get_network_name() == "nw", "fanout:network-name", what);
    const auto s = successors(sub);
    bool       ok = true;
    sub.foreach_node(
        [&](const auto& x)
        {
            if (sub.is_constant(x)) return;
            const auto c   = s.contains(x) ? s.at(x) : 0u;
            const auto max = sub.is_buf(x) && c > 1 ? ps.degree : ps.threshold;
            ok &= vm::require(c <= max, "fanout:degree", [&] { return vm::cat(what, ": node ", x, " has ", c, " successors"); });
            vm::require(sub.fanout_size(x) == c, "fanout:fanout-size", what);
        });
    vm::require(is_fanout_substituted(sub, ps) == ok, "fanout:predicate", what);
    // the predicate on the original network
    bool       was = true;
    const auto so  = successors(n);
    n.foreach_node([&](const auto& x) { if (!n.is_constant(x)) { const auto c = so.contains(x) ? so.at(x) : 0u; if (c > (n.is_buf(x) && c > 1 ? ps.degree : ps.threshold)) was = false; } });
    vm::require(is_fanout_substituted(n, ps) == was, "fanout:predicate-original", what);
    if (ps.seed)
    {
        const auto again = fanout_substitution<tec_nt>(n, ps);
        bool       eq    = again.size() == sub.size();
        for (uint64_t i = 0; eq && i < sub.size(); ++i)
        {
            std::vector<uint64_t> a, b;
            sub.foreach_fanin(i, [&](const auto& f) { a.push_back(f); });
            again.foreach_fanin(i, [&](const auto& f) { b.push_back(f); });
            eq = a == b;
        }
        vm::require(eq, "fanout:seed", what);
    }
    // balancing a fanout-substituted network
    network_balancing_params bp{};
    bp.unify_outputs = r.chance(50);
    const auto bal = network_balancing<tec_nt>(sub, bp);
    same(bal, t, "fanout-balancing", what);
    vm::require(is_balanced(bal, bp), "fanout-balancing:predicate", what);
    vm::distinct(what);
    vm::sample(what);
}
VM_SUITE(balancing, 400, 12000)
{
    auto [n, t] = nets::random_network(r, big(r));
    network_balancing_params ps{};
    ps.unify_outputs = r.chance(50);
    const auto what = vm::cat(ps.unify_outputs ? "unified " : "", t.text);
    vm::note(what);
    n.set_network_name("nw");
    const auto b = network_balancing<tec_nt>(n, ps);
    same(b, t, "balancing", what);
    const auto judge = [&](const auto& x)
    {
        const auto lv = levels(x);
        bool       ok = true;
        x.foreach_node([&](const auto& m) { x.foreach_fanin(m, [&](const auto& f) { if (!x.is_constant(x.get_node(f)) && lv.at(x.get_node(f)) + 1 != lv.at(m)) ok = false; }); });
        std::set<unsigned> po;
        x.foreach_po([&](const auto& f) { po.insert(lv.at(x.get_node(f))); });
        if (ps.unify_outputs && po.size() > 1) ok = false;
        return std::make_pair(ok, *po.rbegin());
    };
    const auto [ok, depth]   = judge(b);
    const auto [was, depth0] = judge(n);
    vm::require(ok, "balancing:levels", what);
    vm::require(depth == depth0, "balancing:depth", [&] { return vm::cat(what, ": ", depth0, " -> ", depth); });
    vm::require(is_balanced(b, ps), "balancing:predicate", what);
    vm::require(is_balanced(n, ps) == was, "balancing:predicate-original", what);
    if (was) vm::require(b.size() == n.size(), "balancing:idempotent", what);
    vm::distinct(what);
}
// logic functions a technology network reports and the functions asked for
VM_SUITE(mapping, 300, 9000)
{
    const auto go = [&]<typename Ntk>(const char* type, bool and2, bool xor2, bool maj3)
    {
        auto [n, t] = nets::random_network<Ntk>(r, big(r, true));
        technology_mapping_params ps{};
        bool* const flags[] = {&ps.inv, &ps.and2, &ps.nand2, &ps.or2, &ps.nor2, &ps.xor2, &ps.xnor2, &ps.lt2, &ps.gt2, &ps.le2, &ps.ge2, &ps.and3, &ps.xor_and, &ps.or_and, &ps.onehot, &ps.maj3, &ps.gamble, &ps.dot, &ps.mux, &ps.and_xor};
        const char* const names[] = {"inv", "and2", "nand2", "or2", "nor2", "xor2", "xnor2", "lt2", "gt2", "le2", "ge2", "and3", "xor_and", "or_and", "onehot", "maj3", "gamble", "dot", "mux", "and_xor"};
        // functions of the gates over (a, b[, c]) with a as the least significant bit
        const unsigned fn[] = {0x1, 0x8, 0x7, 0xe, 0x1, 0x6, 0x9, 0, 0, 0, 0, 0x80, 0, 0, 0x16, 0xe8, 0x81, 0, 0, 0};
        (void)fn;
        const auto how = r.below(8);
        if (how == 0) ps = and_or_not();
        else if (how == 1) ps = and_or_not_maj();
        else if (how == 2) ps = all_2_input_functions();
        else if (how == 3) ps = all_standard_3_input_functions();
        else if (how == 4) ps = all_supported_functions();
        else if (how == 5) ps = all_standard_2_input_functions();
        else
            for (auto* f : flags) *f = r.chance(how == 6 ? 80 : 45);
        if (how == 7 || r.chance(50)) { ps.inv = true; if (and2) ps.and2 = true; if (xor2) ps.xor2 = true; if (maj3) ps.maj3 = true; }
        ps.decay = r.chance(20);
        std::string lib;
        for (std::size_t i = 0; i < 20; ++i)
            if (*flags[i]) lib += vm::cat(" ", names[i]);
        const auto what = vm::cat(type, lib, ps.decay ? " decay | " : " | ", t.text);
        vm::note(what);
        const bool missing = !ps.inv || (and2 && !ps.and2) || (xor2 && !ps.xor2) || (maj3 && !ps.maj3);
        bool       threw   = false;
        tec_nt     m{};
        technology_mapping_stats st{};
        try { m = technology_mapping(n, ps, &st); } catch (const missing_required_gates_exception&) { threw = true; }
        vm::require(threw == missing, "mapping:required-gates", what);
        if (threw) { vm::count("refused libraries"); return; }
        if (st.mapper_stats.mapping_error)
        {
            vm::count("mapping errors");
            return;
        }
        same(m, t, "mapping", what);
        m.foreach_gate(
            [&](const auto& g)
            {
                // every gate of the result is one of those asked for
                unsigned   tt = 0, live = 0;
                const auto f  = m.node_function(g);
                for (unsigned b = 0; b < f.num_bits(); ++b) tt |= static_cast<unsigned>(kitty::get_bit(f, b)) << b;
                m.foreach_fanin(g, [&](const auto& x) { live += m.is_constant(m.get_node(x)) ? 0 : 1; });
                const auto k  = f.num_vars();
                bool       ok = false;
                const auto is = [&](bool flag, unsigned want, unsigned vars) { ok = ok || (flag && k == vars && tt == want); };
                const auto perms = [&](bool flag, auto&& g3)   // any operand order
                {
                    if (!flag || k != 3) return;
                    int p[3] = {0, 1, 2};
                    do
                    {
                        unsigned w = 0;
                        for (unsigned b = 0; b < 8; ++b) w |= static_cast<unsigned>(g3((b >> p[0]) & 1, (b >> p[1]) & 1, (b >> p[2]) & 1)) << b;
                        ok = ok || w == tt;
                    } while (std::next_permutation(p, p + 3));
                };
                is(true, 0x2, 1);
                is(ps.inv, 0x1, 1);
                is(ps.and2, 0x8, 2), is(ps.nand2, 0x7, 2), is(ps.or2, 0xe, 2), is(ps.nor2, 0x1, 2), is(ps.xor2, 0x6, 2), is(ps.xnor2, 0x9, 2);
                is(ps.lt2 || ps.gt2, 0x4, 2), is(ps.lt2 || ps.gt2, 0x2, 2), is(ps.le2 || ps.ge2, 0xd, 2), is(ps.le2 || ps.ge2, 0xb, 2);
                perms(ps.and3, [](bool a, bool b, bool c) { return a && b && c; });
                perms(ps.xor_and, [](bool a, bool b, bool c) { return a && (b != c); });
                perms(ps.or_and, [](bool a, bool b, bool c) { return a && (b || c); });
                perms(ps.onehot, [](bool a, bool b, bool c) { return a + b + c == 1; });
                perms(ps.maj3, [](bool a, bool b, bool c) { return a + b + c >= 2; });
                perms(ps.gamble, [](bool a, bool b, bool c) { return a == b && b == c; });
                perms(ps.dot, [](bool a, bool b, bool c) { return a != (c || (a && b)); });
                perms(ps.mux, [](bool a, bool b, bool c) { return a ? b : c; });
                perms(ps.and_xor, [](bool a, bool b, bool c) { return a != (b && c); });
                (void)live;
                // decayed gates: a three-input gate with a constant operand is mapped as a function of the others
                if (!ok && k <= 2)
                {
                    const auto decay = [&](bool flag, auto&& g3)
                    {
                        if (!flag) return;
                        for (unsigned pos = 0; pos < 3; ++pos)
                            for (int c = 0; c < 2; ++c)
                                for (int sw = 0; sw < 2; ++sw)
                                {
                                    unsigned w2 = 0;
                                    for (unsigned b = 0; b < 4; ++b)
                                    {
                                        bool v[3];
                                        int  q = sw ? 1 : 0;
                                        for (unsigned i = 0; i < 3; ++i)
                                            if (i == pos) v[i] = c; else { v[i] = (b >> q) & 1; q ^= 1; }
                                        w2 |= static_cast<unsigned>(g3(v[0], v[1], v[2])) << b;
                                    }
                                    if (k == 2 && w2 == tt) ok = true;
                                    if (k == 1)   // two constants
                                        for (int i = 0; i < 2; ++i)
                                        {
                                            const unsigned lo = i ? ((w2 >> 1) & 1) | ((w2 >> 2) & 2) : (w2 & 1) | ((w2 >> 1) & 2);
                                            const unsigned hi = i ? 0 : 0; (void)hi;
                                            if (lo == tt) ok = true;
                                        }
                                }
                    };
                    decay(ps.and3, [](bool a, bool b, bool c) { return a && b && c; });
                    decay(ps.xor_and, [](bool a, bool b, bool c) { return a && (b != c); });
                    decay(ps.or_and, [](bool a, bool b, bool c) { return a && (b || c); });
                    decay(ps.onehot, [](bool a, bool b, bool c) { return a + b + c == 1; });
                    decay(ps.maj3, [](bool a, bool b, bool c) { return a + b + c >= 2; });
                    decay(ps.gamble, [](bool a, bool b, bool c) { return a == b && b == c; });
                    decay(ps.dot, [](bool a, bool b, bool c) { return a != (c || (a && b)); });
                    decay(ps.mux, [](bool a, bool b, bool c) { return a ? b : c; });
                    decay(ps.and_xor, [](bool a, bool b, bool c) { return a != (b && c); });
                }
                vm::require(ok, "mapping:gate-not-asked-for", [&] { return vm::cat(what, ": function ", tt, " of ", k); });
            });
        vm::distinct(what);
        vm::sample(what);
    };
    switch (r.below(4))
    {
        case 0: go.template operator()<aig_nt>("aig", true, false, false); break;
        case 1: go.template operator()<xag_nt>("xag", true, true, false); break;
        case 2: go.template operator()<mig_nt>("mig", false, false, true); break;
        default: go.template operator()<aig_nt>("aig", true, false, false);
    }
}
// inputs that stand for other inputs
VM_SUITE(virtual_pis, 300, 9000)
{
    using vnet = virtual_pi_network<technology_network>;
    const auto k = 1 + r.below(3);
    vnet       n{};
    std::vector<vnet::signal> sg;
    std::vector<uint64_t>     w;
    std::vector<std::size_t>  real;
    std::vector<bool>         is_real;
    std::string               text;
    unsigned                  np = 0;
    std::vector<vnet::signal> pis;
    for (std::size_t i = 0; i < k; ++i) { pis.push_back(n.create_pi()); sg.push_back(pis.back()); ++np; }
    const auto v = r.below(5);
    std::vector<std::size_t> of;
    for (std::size_t i = 0; i < v; ++i)
    {
        const auto a = r.below(pis.size());
        of.push_back(a);
        sg.push_back(n.create_virtual_pi(pis[a]));
        text += vm::cat(" v", a);
        if (r.chance(20) && pis.size() < 5) { /* further real inputs after virtual ones */ }
    }
    for (std::size_t i = 0; i < k; ++i) w.push_back(nets::input(static_cast<unsigned>(i), static_cast<unsigned>(k)));
    for (const auto a : of) w.push_back(w[a]);
    const auto m = nets::mask(static_cast<unsigned>(k));
    for (std::size_t g = 0; g < 1 + r.below(8); ++g)
    {
        const auto a = r.below(sg.size()), b = r.below(sg.size());
        const auto x = r.below(6);
        switch (x)
        {
            case 0: sg.push_back(n.create_and(sg[a], sg[b])), w.push_back(w[a] & w[b]); break;
            case 1: sg.push_back(n.create_xor(sg[a], sg[b])), w.push_back(w[a] ^ w[b]); break;
            case 2: sg.push_back(n.create_not(sg[a])), w.push_back(~w[a] & m); break;
            case 3: sg.push_back(n.create_lt(sg[a], sg[b])), w.push_back(~w[a] & w[b]); break;
            case 4: sg.push_back(n.create_buf(sg[a])), w.push_back(w[a]); break;
            default: sg.push_back(n.create_or(sg[a], sg[b])), w.push_back(w[a] | w[b]); break;
        }
        text += vm::cat(" ", x, "(", a, ",", b, ")");
    }
    std::vector<uint64_t> out;
    text += " out";
    for (std::size_t i = 0; i < 1 + r.below(3); ++i)
    {
        const auto a = r.below(sg.size());
        n.create_po(sg[a]);
        out.push_back(w[a]);
        text += vm::cat(" ", a);
    }
    const auto what = vm::cat(k, " inputs", text);
    vm::note(what);
    // bookkeeping
    vm::require(n.num_virtual_pis() == v && n.num_real_pis() == k && n.num_pis() == k + v && n.num_virtual_cis() == v && n.num_real_cis() == k && n.real_size() == n.size() - v, "virtual:counts", what);
    for (std::size_t i = 0; i < k + v; ++i)
    {
        const auto x = n.get_node(sg[i]);
        vm::require(n.is_virtual_pi(x) == (i >= k) && n.is_real_pi(x) == (i < k) && n.is_virtual_ci(x) == (i >= k) && n.is_real_ci(x) == (i < k), "virtual:kind", what);
        if (i >= k) vm::require(n.get_real_pi(x) == n.get_node(pis[of[i - k]]), "virtual:real-pi", what);
    }
    std::vector<uint64_t> a, b, c, d;
    n.foreach_real_pi([&](const auto& x) { a.push_back(x); });
    n.foreach_virtual_pi([&](const auto& x) { b.push_back(x); });
    n.foreach_real_ci([&](const auto& x) { c.push_back(x); });
    n.foreach_virtual_ci([&](const auto& x) { d.push_back(x); });
    vm::require(a.size() == k && b.size() == v && a == c && b == d, "virtual:iteration", what);
    auto cl = n.clone();
    const auto del = delete_virtual_pis(n);
    vm::require(del.num_pis() == k && del.num_pos() == out.size() && del.num_virtual_pis() == 0, "virtual:deleted-pins", what);
    const auto f = nets::simulate(del);
    vm::require(f && *f == out, "virtual:function", [&] { return vm::cat(what, ": computes ", f ? nets::hex(*f) : "nothing", " instead of ", nets::hex(out)); });
    (void)cl.create_virtual_pi(pis[0]);
    vm::require(n.num_virtual_pis() == v && cl.num_virtual_pis() == v + 1, "virtual:clone", what);
    vm::distinct(what);
    vm::sample(what);
}
// the technology network itself: kinds, functions, evaluation, own outputs
VM_SUITE(technology, 400, 12000)
{
    auto [n, t] = nets::random_network(r, big(r));
    vm::note(t.text);
    same(n, t, "network", t.text);
    n.foreach_gate(
        [&](const auto& g)
        {
            unsigned   tt = 0;
            const auto f  = n.node_function(g);
            const auto k  = f.num_vars();
            for (unsigned b = 0; b < f.num_bits(); ++b) tt |= static_cast<unsigned>(kitty::get_bit(f, b)) << b;
            const auto q = [&](bool is, unsigned vars, unsigned want, const char* nm) { vm::require(is == (k == vars && tt == want), "network:kind", [&] { return vm::cat(t.text, ": node ", g, " as ", nm); }); };
            q(n.is_buf(g), 1, 2, "buf"), q(n.is_inv(g), 1, 1, "inv");
            q(n.is_and(g), 2, 8, "and"), q(n.is_or(g), 2, 0xe, "or"), q(n.is_nand(g), 2, 7, "nand"), q(n.is_nor(g), 2, 1, "nor"), q(n.is_xor(g), 2, 6, "xor"), q(n.is_xnor(g), 2, 9, "xnor");
            q(n.is_lt(g), 2, 4, "lt"), q(n.is_gt(g), 2, 2, "gt"), q(n.is_le(g), 2, 0xd, "le"), q(n.is_ge(g), 2, 0xb, "ge");
            q(n.is_maj(g), 3, 0xe8, "maj"), q(n.is_ite(g), 3, 0xd8, "ite"), q(n.is_xor3(g), 3, 0x96, "xor3"), q(n.is_and3(g), 3, 0x80, "and3"), q(n.is_onehot(g), 3, 0x16, "onehot"), q(n.is_gamble(g), 3, 0x81, "gamble");
            q(n.is_dot(g), 3, 0x52, "dot"), q(n.is_xor_and(g), 3, 0x28, "xor_and"), q(n.is_or_and(g), 3, 0xa8, "or_and"), q(n.is_and_xor(g), 3, 0x6a, "and_xor");
        });
    const auto s = successors(n);
    std::set<uint64_t> po;
    n.foreach_po([&](const auto& f) { po.insert(n.get_node(f)); });
    n.foreach_node(
        [&](const auto& x)
        {
            vm::require(n.is_po(x) == po.contains(x), "network:is-po", t.text);
            if (!n.is_constant(x)) vm::require(n.fanout_size(x) == (s.contains(x) ? s.at(x) : 0), "network:fanout-size", t.text);
            vm::require(n.is_fanout(x) == (n.is_buf(x) && s.contains(x) && s.at(x) > 1), "network:is-fanout", t.text);
        });
    auto       c = n.clone();
    const auto before = n.size();
    c.substitute_po_signals();
    vm::require(n.size() == before, "network:clone-independent", t.text);
    const auto f = nets::simulate(c);
    vm::require(f && *f == t.out, "network:substitute-po-function", t.text);
    const auto sc = successors(c);
    c.foreach_po([&](const auto& x) { vm::require(c.is_buf(c.get_node(x)), "network:substitute-po", t.text); });
    c.foreach_node([&](const auto& x) { if (!c.is_constant(x)) vm::require(c.fanout_size(x) == (sc.contains(x) ? sc.at(x) : 0), "network:substitute-po-fanout-size", t.text); });
    vm::distinct(t.text);
}
// helpers over edges, levels and paths
VM_SUITE(structure, 400, 12000)
{
    auto [n0, t] = nets::random_network(r, big(r));
    vm::note(t.text);
    using fo = mockturtle::fanout_view<tec_nt>;
    const fo   n{n0};
    const auto lv = levels(n0);
    std::vector<std::pair<uint64_t, uint64_t>> want, got;
    n0.foreach_node([&](const auto& x) { n0.foreach_fanin(x, [&](const auto& f) { want.emplace_back(n0.get_node(f), x); }); });
    foreach_edge(n, [&](const auto& e) { got.emplace_back(e.source, e.target); });
    vm::require(got == want, "structure:edges", t.text);
    // longest way to an output
    std::map<uint64_t, std::vector<uint64_t>> out;
    for (const auto& [a, b] : want) out[a].push_back(b);
    std::map<uint64_t, uint64_t>                        paths;
    std::map<uint64_t, unsigned>                        inv;
    const std::function<unsigned(uint64_t)>             il = [&](uint64_t x) -> unsigned
    {
        if (const auto it = inv.find(x); it != inv.end()) return it->second;
        unsigned m = 0;
        for (const auto y : out[x]) m = std::max(m, il(y) + 1);
        return inv[x] = m;
    };
    const std::function<uint64_t(uint64_t)> np = [&](uint64_t x) -> uint64_t
    {
        if (const auto it = paths.find(x); it != paths.end()) return it->second;
        uint64_t c = 0;
        bool     any = false;
        n0.foreach_fanin(x, [&](const auto& f) { any = true; if (!n0.is_constant(n0.get_node(f))) c += np(n0.get_node(f)); });
        return paths[x] = any ? c : 1;
    };
    const auto levs = inverse_levels(n);
    n.foreach_node(
        [&](const auto& x)
        {
            if (n.is_constant(x)) return;
            vm::require(levs.at(n.node_to_index(x)) == il(x), "structure:inverse-level", [&] { return vm::cat(t.text, ": node ", x, " at ", levs.at(n.node_to_index(x)), " instead of ", il(x)); });
            std::vector<uint64_t> in, fi;
            unsigned              cst = 0;
            bool                  pi  = false;
            n.foreach_fanin(x, [&](const auto& f) { if (n.is_constant(n.get_node(f))) ++cst; else { in.push_back(n.get_node(f)); pi |= n.is_pi(n.get_node(f)); } });
            const auto fc = fanins(n, x);
            fi.assign(fc.fanin_nodes.begin(), fc.fanin_nodes.end());
            vm::require(fi == in && fc.constant_fanin.has_value() == (cst > 0) && num_constant_fanins(n, x) == cst, "structure:fanins", t.text);
            vm::require(has_incoming_primary_input(n, x) == pi, "structure:incoming-pi", t.text);
            std::vector<std::pair<uint64_t, uint64_t>> ie, oe, fe;
            foreach_incoming_edge(n, x, [&](const auto& e) { ie.emplace_back(e.source, e.target); });
            foreach_outgoing_edge(n, x, [&](const auto& e) { oe.emplace_back(e.source, e.target); });
            for (const auto& e : fanin_edges(n, x).fanin_edges) fe.emplace_back(e.source, e.target);
            std::vector<std::pair<uint64_t, uint64_t>> wi;
            for (const auto& w : want) if (w.second == x) wi.push_back(w);
            vm::require(ie == wi && fe == wi, "structure:incoming-edges", t.text);
            std::set<std::pair<uint64_t, uint64_t>> ws, os(oe.begin(), oe.end());
            for (const auto& w : want) if (w.first == x) ws.insert(w);
            vm::require(os == ws, "structure:outgoing-edges", t.text);
            std::set<uint64_t> fs;
            for (const auto y : fanouts(n, x)) fs.insert(y);
            vm::require(fs.size() == ws.size(), "structure:fanouts", t.text);
            if (np(x) <= 200)
            {
                const auto ps = all_incoming_edge_paths(n, x);
                bool       ok = ps.size() == np(x);
                for (const auto& p : ps)
                {
                    uint64_t at = 0;
                    for (std::size_t i = 0; i < p.size(); ++i)
                    {
                        ok &= i == 0 ? n.is_pi(p[i].source) : p[i].source == at;
                        at = p[i].target;
                    }
                    ok &= p.empty() ? n.is_pi(x) : at == x;
                }
                vm::require(ok, "structure:paths", [&] { return vm::cat(t.text, ": node ", x, ": ", ps.size(), " paths instead of ", np(x)); });
                vm::count("paths checked", static_cast<long>(ps.size()));
            }
        });
    for (unsigned k = 0; k < 4; ++k)
    {
        bool hi = false;
        n.foreach_gate([&](const auto& g) { hi |= n.fanin_size(g) > k; });
        vm::require(has_high_degree_fanin_nodes(n, k) == hi, "structure:high-degree", t.text);
    }
    vm::distinct(t.text);
    (void)lv;
}
// views: breadth-first order, levels, ranks, edge colours
VM_SUITE(views, 400, 12000)
{
    auto [n, t] = nets::random_network(r, big(r));
    vm::note(t.text);
    const auto lv = levels(n);
    {
        const bfs_topo_view b{n};
        std::map<uint64_t, std::size_t> pos;
        std::vector<uint64_t>           order;
        b.foreach_node([&](const auto& x) { pos[x] = order.size(); order.push_back(x); });
        vm::require(order.size() == n.size() && b.size() == n.size() && pos.size() == n.size(), "bfs:complete", t.text);
        bool ok = true;
        for (const auto x : order) n.foreach_fanin(x, [&](const auto& f) { ok &= pos.at(n.get_node(f)) < pos.at(x); });
        vm::require(ok, "bfs:topological", t.text);
        for (std::size_t i = 0; i < order.size(); ++i) vm::require(b.index_to_node(static_cast<uint32_t>(i)) == order[i] && b.node_to_index(order[i]) == i, "bfs:index", t.text);
        std::vector<uint64_t> rev, g, gr;
        b.foreach_node_reverse([&](const auto& x) { rev.push_back(x); });
        b.foreach_gate([&](const auto& x) { g.push_back(x); });
        b.foreach_gate_reverse([&](const auto& x) { gr.push_back(x); });
        std::reverse(rev.begin(), rev.end());
        std::reverse(gr.begin(), gr.end());
        std::vector<uint64_t> want;
        for (const auto x : order) if (!n.is_constant(x) && !n.is_pi(x)) want.push_back(x);
        vm::require(rev == order && g == want && gr == want && b.num_gates() == want.size(), "bfs:iteration", t.text);
    }
    using dv = static_depth_view<tec_nt>;
    dv       d{n};
    unsigned depth = 0;
    n.foreach_po([&](const auto& f) { depth = std::max(depth, lv.at(n.get_node(f))); });
    vm::require(d.depth() == depth, "depth:depth", t.text);
    std::set<uint64_t>                       crit;
    const std::function<void(uint64_t)>      mark = [&](uint64_t x)
    {
        if (!crit.insert(x).second) return;
        n.foreach_fanin(x, [&](const auto& f) { if (lv.at(n.get_node(f)) + 1 == lv.at(x)) mark(n.get_node(f)); });
    };
    n.foreach_po([&](const auto& f) { if (lv.at(n.get_node(f)) == depth) mark(n.get_node(f)); });
    n.foreach_node(
        [&](const auto& x)
        {
            if (n.is_constant(x)) return;
            vm::require(d.level(x) == lv.at(x), "depth:level", t.text);
            vm::require(d.is_on_critical_path(x) == crit.contains(x), "depth:critical-path", [&] { return vm::cat(t.text, ": node ", x); });
        });
    // ranks under a history of swaps, sorts and assignments
    mutable_rank_view<tec_nt> m{n};
    std::vector<std::vector<uint64_t>> rk(depth + 1);
    n.foreach_node([&](const auto& x) { if (!n.is_constant(x)) rk[lv.at(x)].push_back(x); });
    std::string hist;
    for (int step = 0; step < 12; ++step)
    {
        const auto l = r.below(rk.size());
        auto&      v = rk[l];
        switch (step == 0 ? 9 : r.below(5))
        {
            case 0: case 1:
            {
                const auto a = r.below(v.size()), b = r.below(v.size());
                if (a == b) break;
                m.swap(v[a], v[b]);
                std::swap(v[a], v[b]);
                hist += vm::cat(" swap ", l, ":", a, ",", b);
                break;
            }
            case 2:
                m.sort_rank(static_cast<uint32_t>(l), [](auto a, auto b) { return a > b; });
                std::sort(v.begin(), v.end(), std::greater<>{});
                hist += vm::cat(" sort ", l);
                break;
            case 3:
                for (std::size_t i = v.size() - 1; i > 0; --i) std::swap(v[i], v[r.below(i + 1)]);
                m.set_ranks(static_cast<uint32_t>(l), std::vector<tec_nt::node>(v.begin(), v.end()));
                hist += vm::cat(" set ", l);
                break;
            case 4:
            {
                const mutable_rank_view<tec_nt> c{m};
                m    = c;
                hist += " copy";
                break;
            }
            default: break;
        }
        std::size_t w = 0;
        bool        ok = m.check_validity();
        std::vector<uint64_t> all, want, pis, gates, wg;
        for (std::size_t i = 0; i < rk.size(); ++i)
        {
            w = std::max(w, rk[i].size());
            std::vector<uint64_t> in;
            m.foreach_node_in_rank(static_cast<uint32_t>(i), [&](const auto& x) { in.push_back(x); });
            ok &= in == rk[i] && m.rank_width(static_cast<uint32_t>(i)) == rk[i].size();
            for (std::size_t j = 0; j < rk[i].size(); ++j)
            {
                ok &= m.rank_position(rk[i][j]) == j && m.at_rank_position(static_cast<uint32_t>(i), static_cast<uint32_t>(j)) == rk[i][j];
                want.push_back(rk[i][j]);
                if (n.is_pi(rk[i][j])) pis.push_back(rk[i][j]); else wg.push_back(rk[i][j]);
            }
        }
        m.foreach_node([&](const auto& x) { all.push_back(x); });
        m.foreach_gate([&](const auto& x) { gates.push_back(x); });
        std::vector<uint64_t> mp;
        m.foreach_pi([&](const auto& x) { mp.push_back(x); });
        vm::require(ok && all == want && gates == wg && mp == pis && m.width() == w, "ranks:state", [&] { return vm::cat(t.text, " after", hist); });
        vm::count("rank states compared");
    }
    // edge colours
    out_of_place_edge_color_view<tec_nt> ec{n};
    std::map<std::pair<uint64_t, uint64_t>, uint32_t> model;
    std::vector<mockturtle::edge<out_of_place_edge_color_view<tec_nt>>> es;
    foreach_edge(ec, [&](const auto& e) { es.push_back({e.source, e.target}); });
    for (int step = 0; step < 15 && !es.empty(); ++step)
    {
        const auto& e = es[r.below(es.size())];
        const auto& o = es[r.below(es.size())];
        const auto  c = static_cast<uint32_t>(r.below(5));
        const auto  k = std::make_pair(e.source, e.target);
        switch (r.below(6))
        {
            case 0: case 1: case 2: ec.paint_edge(e, c); model[k] = c; break;
            case 3: { const auto x = model[{o.source, o.target}]; ec.paint_edge(e, o); model[k] = x; break; }
            case 4: (void)ec.new_color(); ec.paint_edge(e); model[k] = ec.current_color(); break;
            default: if (r.chance(20)) { ec.out_of_place_edge_color_view<tec_nt>::clear_colors(); model.clear(); }
        }
        for (const auto& x : es) vm::require(ec.edge_color(x) == model[{x.source, x.target}], "edge-colors", t.text);
    }
    vm::distinct(t.text);
    vm::sample(t.text);
}
VM_MAIN
