// Random logic networks together with their truth tables, and an independent evaluation of gate-level layouts.
#pragma once
#include "vm.hpp"

#include <fiction/networks/technology_network.hpp>
#include <fiction/types.hpp>
#include <fiction/utils/name_utils.hpp>

#include <mockturtle/networks/aig.hpp>
#include <mockturtle/networks/mig.hpp>
#include <mockturtle/networks/xag.hpp>
#include <mockturtle/views/names_view.hpp>

#include <algorithm>
#include <map>
#include <optional>
#include <string>
#include <vector>

namespace nets
{
// function of every output over all input combinations (up to 6 inputs), bit i of the index is input i
struct truth
{
    unsigned                 npi{0};
    std::vector<uint64_t>    out;
    std::vector<std::string> pi_names, po_names;
    std::string              text;   // how the network was built
    int                      gates{0};
};
inline uint64_t mask(unsigned npi) { return npi >= 6 ? ~0ull : (1ull << (1u << npi)) - 1; }
inline uint64_t input(unsigned i, unsigned npi)
{
    uint64_t w = 0;
    for (unsigned b = 0; b < (1u << npi); ++b)
        if ((b >> i) & 1) w |= 1ull << b;
    return w;
}
inline uint64_t apply(uint64_t tt, const std::vector<uint64_t>& in, unsigned npi)
{
    uint64_t w = 0;
    for (unsigned b = 0; b < (1u << npi); ++b)
    {
        uint64_t idx = 0;
        for (std::size_t i = 0; i < in.size(); ++i) idx |= ((in[i] >> b) & 1) << i;
        w |= ((tt >> idx) & 1) << b;
    }
    return w;
}
struct shape
{
    unsigned min_pi{1}, max_pi{4}, max_gates{8}, max_po{3};
    bool     comparison{true};    // lt, le, gt, ge
    bool     maj{false};          // three-input gates
    bool     andor{false};        // of the gates with two operands, AND and OR only
    bool     functions{false};    // arbitrary two-input functions
    bool     all_used{true};      // every input and gate reaches an output
    bool     pi_po{false};        // an output may be an input
    bool     same_po{false};      // outputs may share a driver
    bool     bufs{true};
    bool     inv{true};
    bool     names{true};
    bool     repeated{false};     // both operands may be the same signal
    bool     same_root{true};     // both operands may come from the same signal through buffers
    unsigned max_fanout{1000};
};
// builds a technology network gate by gate and keeps the truth table of every signal
template <typename Ntk = fiction::tec_nt>
std::pair<Ntk, truth> random_network(vm::rng& r, const shape& s)
{
    for (;;)
    {
        Ntk   n{};
        truth t;
        using sig   = typename Ntk::signal;
        t.npi       = static_cast<unsigned>(r.range(s.min_pi, s.max_pi));
        const auto k = static_cast<unsigned>(r.range(s.pi_po ? 0 : 1, s.max_gates));
        std::vector<sig>      sg;
        std::vector<uint64_t> w;
        std::vector<unsigned> uses;
        std::vector<std::size_t> root;
        const bool            named = s.names && r.chance(60);
        for (unsigned i = 0; i < t.npi; ++i)
        {
            const auto nm = named ? vm::cat("in", static_cast<char>('a' + i)) : std::string{};
            sg.push_back(n.create_pi(nm));
            if (named) n.set_name(sg.back(), nm);
            t.pi_names.push_back(nm);
            w.push_back(input(i, t.npi));
            uses.push_back(0);
            root.push_back(i);
        }
        bool dead = false;
        for (unsigned g = 0; g < k; ++g)
        {
            const auto recent = r.chance(55);
            auto       op     = [&]
            {
                std::vector<std::size_t> c;
                for (std::size_t i = 0; i < sg.size(); ++i)
                    if (uses[i] < s.max_fanout && (!recent || uses[i] == 0)) c.push_back(i);
                if (c.empty())
                    for (std::size_t i = 0; i < sg.size(); ++i)
                        if (uses[i] < s.max_fanout) c.push_back(i);
                return c.empty() ? r.below(sg.size()) : c[r.below(c.size())];
            };
            const auto a = op();
            auto       b = op(), c = op();
            for (int tries = 0; !s.repeated && b == a && tries < 20; ++tries) b = r.below(sg.size());
            for (int tries = 0; !s.repeated && (c == a || c == b) && tries < 40; ++tries) c = r.below(sg.size());
            const bool one = (!s.repeated && a == b) || (!s.same_root && root[a] == root[b]), two = !s.repeated && (c == a || c == b);
            sig        q{};
            uint64_t   f = 0;
            const auto A = w[a], B = w[b], C = w[c];
            int        ar = 2;
            const auto x = static_cast<int>(r.below(100));
            const char* nm = "";
            if (one || x < 22)
            {
                ar = 1;
                if (s.inv && (x % 3 != 0 || !s.bufs)) q = n.create_not(sg[a]), f = ~A, nm = "not";
                else if (s.bufs) { if constexpr (requires { n.create_buf(sg[a]); }) q = n.create_buf(sg[a]), f = A, nm = "buf"; }
                if (nm[0] == 0) continue;
            }
            else if (s.maj && !two && x < 35)
            {
                ar = 3;
                q  = n.create_maj(sg[a], sg[b], sg[c]), f = (A & B) | (A & C) | (B & C), nm = "maj";
            }
            else if (s.functions && x < 45)
            {
                if constexpr (requires { n.create_node(std::vector<sig>{}, kitty::dynamic_truth_table{}); })
                {
                    const auto m = 1 + r.below(14);
                    kitty::dynamic_truth_table tt{2};
                    for (unsigned i = 0; i < 4; ++i)
                        if ((m >> i) & 1) kitty::set_bit(tt, i);
                    q  = n.create_node({sg[a], sg[b]}, tt);
                    f  = apply(m, {A, B}, t.npi);
                    nm = "fn";
                }
            }
            if (nm[0] == 0)
            {
                if constexpr (requires { n.create_ge(sg[a], sg[b]); n.create_xnor(sg[a], sg[b]); })
                {
                    switch (r.below(s.andor ? 2 : s.comparison ? 10 : 6))
                    {
                        case 0: q = n.create_and(sg[a], sg[b]), f = A & B, nm = "and"; break;
                        case 1: q = n.create_or(sg[a], sg[b]), f = A | B, nm = "or"; break;
                        case 2: q = n.create_nand(sg[a], sg[b]), f = ~(A & B), nm = "nand"; break;
                        case 3: q = n.create_nor(sg[a], sg[b]), f = ~(A | B), nm = "nor"; break;
                        case 4: q = n.create_xor(sg[a], sg[b]), f = A ^ B, nm = "xor"; break;
                        case 5: q = n.create_xnor(sg[a], sg[b]), f = ~(A ^ B), nm = "xnor"; break;
                        case 6: q = n.create_lt(sg[a], sg[b]), f = ~A & B, nm = "lt"; break;
                        case 7: q = n.create_ge(sg[a], sg[b]), f = ~(~A & B), nm = "ge"; break;
                        case 8: q = n.create_gt(sg[a], sg[b]), f = A & ~B, nm = "gt"; break;
                        default: q = n.create_le(sg[a], sg[b]), f = ~(A & ~B), nm = "le"; break;
                    }
                }
                else
                {
                    switch (r.below(3))
                    {
                        case 0: q = n.create_and(sg[a], sg[b]), f = A & B, nm = "and"; break;
                        case 1: q = n.create_or(sg[a], sg[b]), f = A | B, nm = "or"; break;
                        default: q = n.create_xor(sg[a], sg[b]), f = A ^ B, nm = "xor";
                    }
                }
            }
            uses[a]++;
            if (ar > 1) uses[b]++;
            if (ar > 2) uses[c]++;
            t.text += vm::cat(" ", sg.size(), "=", nm, "(", a, ar > 1 ? vm::cat(",", b) : "", ar > 2 ? vm::cat(",", c) : "", ")");
            root.push_back(nm[0] == 'b' ? root[a] : sg.size());
            sg.push_back(q);
            w.push_back(f & mask(t.npi));
            uses.push_back(0);
            ++t.gates;
        }
        std::vector<std::size_t> po;
        if (s.all_used)
            for (std::size_t i = 0; i < sg.size(); ++i)
                if (uses[i] == 0)
                {
                    if (i < t.npi && !s.pi_po) dead = true;
                    po.push_back(i);
                }
        if (dead) continue;
        for (int tries = 0; tries < 10 && po.size() < (s.all_used ? (r.chance(30) ? s.max_po : 1) : static_cast<unsigned>(r.range(1, s.max_po))); ++tries)
        {
            const auto i = r.below(sg.size());
            if (i < t.npi && !s.pi_po) continue;
            if (!s.same_po && std::find(po.begin(), po.end(), i) != po.end()) continue;
            if (uses[i] + 1 > s.max_fanout) continue;
            po.push_back(i);
        }
        if (po.empty() || po.size() > s.max_po) continue;
        for (std::size_t i = po.size() - 1; i > 0; --i) std::swap(po[i], po[r.below(i + 1)]);
        t.text += " out";
        for (std::size_t i = 0; i < po.size(); ++i)
        {
            const auto nm = named ? vm::cat("out", static_cast<char>('a' + i)) : std::string{};
            n.create_po(sg[po[i]], nm);
            if (named) n.set_output_name(static_cast<uint32_t>(i), nm);
            t.po_names.push_back(nm);
            t.out.push_back(w[po[i]]);
            t.text += vm::cat(" ", po[i]);
        }
        t.text = vm::cat(t.npi, " inputs:", t.text, named ? " (named)" : "");
        return {n, t};
    }
}
// evaluates a network without complemented edges that has node functions
template <typename Ntk>
std::optional<std::vector<uint64_t>> simulate(const Ntk& n)
{
    const auto npi = static_cast<unsigned>(n.num_pis());
    if (npi > 6) return std::nullopt;
    std::map<uint64_t, uint64_t> v;
    n.foreach_pi([&, i = 0u](const auto& p) mutable { v[n.node_to_index(p)] = input(i++, npi); });
    const std::function<uint64_t(const typename Ntk::node&)> ev = [&](const typename Ntk::node& x) -> uint64_t
    {
        const auto id = n.node_to_index(x);
        if (const auto it = v.find(id); it != v.end()) return it->second;
        if (n.is_constant(x)) return n.constant_value(x) ? mask(npi) : 0;
        std::vector<uint64_t> in;
        n.foreach_fanin(x, [&](const auto& f) { const auto q = ev(n.get_node(f)); in.push_back(n.is_complemented(f) ? ~q & mask(npi) : q); });
        uint64_t   tt = 0;
        const auto fn = n.node_function(x);
        for (uint64_t b = 0; b < fn.num_bits(); ++b) tt |= static_cast<uint64_t>(kitty::get_bit(fn, b)) << b;
        return v[id] = apply(tt, in, npi);
    };
    std::vector<uint64_t> out;
    n.foreach_po([&](const auto& f) { const auto q = ev(n.get_node(f)); out.push_back((n.is_complemented(f) ? ~q : q) & mask(npi)); });
    return out;
}
template <typename C>
std::string str(const C& t) { return vm::cat("(", static_cast<uint64_t>(t.x), ",", static_cast<uint64_t>(t.y), ",", static_cast<uint64_t>(t.z), ")"); }
struct rules
{
    bool clocked{true};      // signals only flow to the next clock zone
    bool dangling{false};    // nodes without successors are fine
    unsigned wire_fanout{2};
    bool crossing_layer_wires{true};
};
// judges a finished layout: every signal connected, no cycle, planar except for crossings; "" if fine
template <typename Lyt>
std::string legal(const Lyt& l, const rules& q = {})
{
    std::string bad;
    std::set<uint64_t> pos;
    l.foreach_po([&](const auto& s) { const fiction::tile<Lyt> t{s}; pos.insert(static_cast<uint64_t>(t)); if (l.is_empty_tile(t)) bad = "output without a node at " + str(t); });
    std::map<uint32_t, int> succ;
    const auto              fan = [&](uint32_t n)
    {
        std::vector<fiction::tile<Lyt>> v;
        const auto fn = [&](const auto& f) { v.push_back(static_cast<fiction::tile<Lyt>>(f)); };
        l.foreach_fanin(n, fn);
        return v;
    };
    l.foreach_node(
        [&](const auto& n)
        {
            if (l.is_constant(n) || !bad.empty()) return;
            const auto t = l.get_tile(n);
            if (t.is_dead() || !l.is_within_bounds(t)) { bad = "node outside the layout at " + str(t); return; }
            const auto in   = fan(n);
            const auto want = l.is_pi(n) ? 0u : static_cast<unsigned>(l.node_function(n).num_vars());
            if (in.size() != want) { bad = vm::cat(in.size(), " of ", want, " connected fanins at ", str(t)); return; }
            std::set<fiction::tile<Lyt>> dist(in.begin(), in.end());
            if (dist.size() != in.size()) { bad = "two fanins from the same tile at " + str(t); return; }
            for (const auto& i : in)
            {
                succ[l.get_node(i)]++;
                if ((l.get_clock_number(i) + 1) % l.num_clocks() != l.get_clock_number(t)) bad = vm::cat("clock zones at ", str(t));
            }
            if (q.crossing_layer_wires && t.z > 0 && (!l.is_wire(n) || l.is_pi(n) || l.is_po(n))) bad = "gate or pin in the crossing layer at " + str(t);
            if (t.z > 0)
            {
                const auto b = l.below(t);
                if (l.is_empty_tile(b)) bad = "crossing wire above an empty tile at " + str(t);
                else if (!l.is_wire_tile(b) || l.is_pi_tile(b) || l.is_po_tile(b)) bad = "crossing wire above a gate or pin at " + str(t);
            }
        });
    if (!bad.empty()) return bad;
    l.foreach_node(
        [&](const auto& n)
        {
            if (l.is_constant(n) || !bad.empty()) return;
            const auto t  = l.get_tile(n);
            const bool po = pos.contains(static_cast<uint64_t>(t));
            const auto k  = succ[n];
            if (po && k > 0) bad = "output pin with successors at " + str(t);
            if (!po && k == 0 && !q.dangling) bad = "dangling node at " + str(t);
            if (k > (l.is_wire(n) && !l.is_pi(n) ? static_cast<int>(q.wire_fanout) : 1)) bad = vm::cat(k, " successors at ", str(t));
        });
    return bad;
}
// evaluates a layout along its clocked connections; nullopt on a cycle or a missing fanin
template <typename Lyt>
std::optional<std::vector<uint64_t>> evaluate(const Lyt& l)
{
    const auto npi = static_cast<unsigned>(l.num_pis());
    if (npi > 6) return std::nullopt;
    std::map<uint32_t, uint64_t> v;
    std::map<uint32_t, int>      state;
    bool                         ok = true;
    l.foreach_pi([&, i = 0u](const auto& p) mutable { v[p] = input(i++, npi); });
    const std::function<uint64_t(uint32_t)> ev = [&](uint32_t n) -> uint64_t
    {
        if (const auto it = v.find(n); it != v.end()) return it->second;
        if (!ok || state[n]++ || l.is_constant(n)) { ok = false; return 0; }
        std::vector<uint64_t> in;
        const auto            fn = [&](const auto& f) { in.push_back(ev(l.get_node(f))); };
        l.foreach_fanin(n, fn);
        const auto f = l.node_function(n);
        if (in.size() != f.num_vars()) { ok = false; return 0; }
        uint64_t tt = 0;
        for (uint64_t b = 0; b < f.num_bits(); ++b) tt |= static_cast<uint64_t>(kitty::get_bit(f, b)) << b;
        return v[n] = apply(tt, in, npi);
    };
    std::vector<uint64_t> out;
    l.foreach_po([&](const auto& s) { out.push_back(ev(l.get_node(s))); });
    if (!ok) return std::nullopt;
    return out;
}
inline std::string hex(const std::vector<uint64_t>& v)
{
    std::string s;
    for (const auto x : v) { char b[20]; std::snprintf(b, sizeof b, "%s%llx", s.empty() ? "" : ",", static_cast<unsigned long long>(x)); s += b; }
    return s;
}
// the layout is legal and implements the network, with the same pins in the same order
template <typename Lyt>
bool implements(const Lyt& l, const truth& t, const std::string& key, const std::string& what, const rules& q = {}, bool names = true)
{
    const auto bad = legal(l, q);
    bool       ok  = vm::require(bad.empty(), (key + ":illegal").c_str(), [&] { return vm::cat(what, ": ", bad); });
    ok &= vm::require(l.num_pis() == t.npi && l.num_pos() == t.out.size(), (key + ":pins").c_str(), [&] { return vm::cat(what, ": ", l.num_pis(), " inputs, ", l.num_pos(), " outputs"); });
    if (!ok) return false;
    const auto e = evaluate(l);
    ok &= vm::require(e.has_value() && *e == t.out, (key + ":function").c_str(), [&] { return vm::cat(what, ": computes ", e ? hex(*e) : "nothing", " instead of ", hex(t.out)); });
    if (names)
    {
        for (uint32_t i = 0; i < t.npi; ++i)
            if (!t.pi_names[i].empty()) ok &= vm::require(l.get_input_name(i) == t.pi_names[i], (key + ":input-name").c_str(), [&] { return vm::cat(what, ": input ", i, " is ", l.get_input_name(i)); });
        for (uint32_t i = 0; i < t.out.size(); ++i)
            if (!t.po_names[i].empty()) ok &= vm::require(l.get_output_name(i) == t.po_names[i], (key + ":output-name").c_str(), [&] { return vm::cat(what, ": output ", i, " is ", l.get_output_name(i)); });
    }
    vm::count("tiles judged", static_cast<long>(l.num_gates() + l.num_wires()));
    return ok;
}
}  // namespace nets
