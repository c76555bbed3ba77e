// Gate-level layouts with a model: every sequence of placing, moving, connecting and clearing is replayed on a plain model of
// tiles and nodes, and everything the layout reports is compared with what follows from the model.
#pragma once
#include "vm.hpp"

#include <fiction/layouts/cartesian_layout.hpp>
#include <fiction/layouts/clocked_layout.hpp>
#include <fiction/layouts/clocking_scheme.hpp>
#include <fiction/layouts/coordinates.hpp>
#include <fiction/layouts/gate_level_layout.hpp>
#include <fiction/layouts/hexagonal_layout.hpp>
#include <fiction/layouts/shifted_cartesian_layout.hpp>
#include <fiction/layouts/tile_based_layout.hpp>

#include <algorithm>
#include <map>
#include <optional>

using namespace fiction;

namespace gm
{
using off  = offset::ucoord_t;
using sig  = uint64_t;
using cart = gate_level_layout<clocked_layout<tile_based_layout<cartesian_layout<off>>>>;
template <typename A>
using hex   = gate_level_layout<clocked_layout<tile_based_layout<hexagonal_layout<off, A>>>>;
using shift = gate_level_layout<clocked_layout<tile_based_layout<shifted_cartesian_layout<off, odd_column_cartesian>>>>;

sig S(const off& c) { return static_cast<sig>(c); }
struct mnode
{
    std::vector<sig>   kids;
    int                lit{2};  // kind: literal of a standard gate, or -1
    unsigned           nv{1};
    uint64_t           tt{2};
    std::optional<off> tile;
    bool               dead{false}, pi{false};
    std::string        name;
    uint32_t           val{0}, vis{0};
};
struct model
{
    std::map<uint32_t, mnode> nodes;
    std::map<off, uint32_t>   at;
    std::vector<off>          pos;
    std::vector<uint32_t>     pis;
    std::string               name;

    [[nodiscard]] bool wire(uint32_t n) const { return nodes.at(n).nv == 1 && nodes.at(n).tt == 2; }
    void clear(const off& t)
    {
        const auto it = at.find(t);
        if (it == at.end()) return;
        auto& n = nodes[it->second];
        n.dead  = true;
        n.tile.reset();
        at.erase(it);
        const auto p = std::find(pos.begin(), pos.end(), t);
        if (p != pos.end()) pos.erase(p);
    }
    void assign(const off& t, uint32_t n)
    {
        clear(t);
        at[t]         = n;
        nodes[n].tile = t;
        nodes[n].dead = false;
    }
};
struct kind
{
    int         lit;
    unsigned    nv;
    uint64_t    tt;
    const char* n;
};
// the functions in the layout's own reading of the operands of comparison gates (see its tests): lt = 0x2, le = 0xb
const std::vector<kind> KINDS{{2, 1, 0x2, "buf"}, {3, 1, 0x1, "not"}, {4, 2, 0x8, "and"}, {5, 2, 0x7, "nand"}, {6, 2, 0xe, "or"}, {7, 2, 0x1, "nor"}, {8, 2, 0x2, "lt"},
                              {9, 2, 0xd, "ge"}, {10, 2, 0x4, "gt"}, {11, 2, 0xb, "le"}, {12, 2, 0x6, "xor"}, {13, 2, 0x9, "xnor"}, {14, 3, 0xe8, "maj"}};

uint64_t word(const kitty::dynamic_truth_table& t)
{
    uint64_t w = 0;
    for (uint64_t i = 0; i < t.num_bits(); ++i) w |= static_cast<uint64_t>(kitty::get_bit(t, i)) << i;
    return w;
}
kitty::dynamic_truth_table table(unsigned nv, uint64_t w)
{
    kitty::dynamic_truth_table t(nv);
    for (uint64_t i = 0; i < t.num_bits(); ++i)
        if ((w >> i) & 1) kitty::set_bit(t, i);
    return t;
}
template <typename Lyt>
void check(const Lyt& l, const model& m, const std::string& what)
{
    const auto S3 = [](const off& t) { return vm::cat("(", static_cast<uint64_t>(t.x), ",", static_cast<uint64_t>(t.y), ",", static_cast<uint64_t>(t.z), ")"); };
    // counts
    uint32_t wires = 0, gates = 0, cross = 0;
    for (const auto& [t, n] : m.at)
    {
        (m.wire(n) ? wires : gates)++;
        if (t.z == 0)
        {
            const auto up = m.at.find(off{t.x, t.y, 1});
            if (up != m.at.end() && (m.wire(n) || m.wire(up->second))) ++cross;
        }
    }
    vm::require(l.num_gates() == gates && l.num_wires() == wires, "gates:counts", [&] { return vm::cat(what, ": ", l.num_gates(), " gates, ", l.num_wires(), " wires instead of ", gates, ", ", wires); });
    vm::require(l.num_crossings() == cross, "gates:crossings", [&] { return vm::cat(what, ": ", l.num_crossings(), " crossings instead of ", cross); });
    vm::require(l.is_empty() == m.at.empty(), "gates:empty", what);
    vm::require(l.size() == m.nodes.size() + 2, "gates:size", [&] { return vm::cat(what, ": size ", l.size()); });
    vm::require(l.num_pis() == m.pis.size() && l.num_cis() == m.pis.size() && l.num_pos() == m.pos.size() && l.num_cos() == m.pos.size(), "gates:io-counts",
                [&] { return vm::cat(what, ": ", l.num_pis(), " inputs, ", l.num_pos(), " outputs instead of ", m.pis.size(), ", ", m.pos.size()); });
    vm::require(l.get_layout_name() == m.name, "gates:layout-name", what);
    if (l.num_pis() != m.pis.size() || l.num_pos() != m.pos.size() || l.size() != m.nodes.size() + 2) return;
    // inputs and outputs
    std::vector<uint32_t> ids;
    l.foreach_pi([&](const auto& n) { ids.push_back(n); });
    vm::require(ids == m.pis, "gates:inputs", what);
    ids.clear();
    l.foreach_ci([&](const auto& n) { ids.push_back(n); return ids.size() < 2; });
    vm::require(ids == std::vector<uint32_t>(m.pis.begin(), m.pis.begin() + std::min<int64_t>(2, static_cast<int64_t>(m.pis.size()))), "gates:inputs-abort", what);
    std::vector<off> ps;
    l.foreach_po([&](const auto& s) { ps.push_back(static_cast<off>(s)); });
    vm::require(ps == m.pos, "gates:outputs", [&] { std::string s; for (const auto& p : ps) s += S3(p); s += " instead of "; for (const auto& p : m.pos) s += S3(p); return vm::cat(what, ": outputs ", s); });
    for (uint32_t i = 0; i < m.pis.size(); ++i)
    {
        vm::require(l.pi_at(i) == m.pis[i] && l.is_pi(m.pis[i]) && l.is_ci(m.pis[i]), "gates:input", what);
        vm::require(l.get_input_name(i) == m.nodes.at(m.pis[i]).name && l.has_input_name(i) == !m.nodes.at(m.pis[i]).name.empty(), "gates:input-name", what);
    }
    for (uint32_t i = 0; i < m.pos.size(); ++i)
    {
        const auto n = m.at.at(m.pos[i]);
        vm::require(l.po_at(i) == S(m.pos[i]) && l.is_po(n) && l.is_co(n) && l.is_po_tile(m.pos[i]), "gates:output", what);
        vm::require(l.get_output_name(i) == m.nodes.at(n).name && l.has_output_name(i) == !m.nodes.at(n).name.empty(), "gates:output-name", what);
    }
    vm::require(l.get_input_name(static_cast<uint32_t>(m.pis.size())).empty() && !l.has_output_name(static_cast<uint32_t>(m.pos.size())), "gates:name-out-of-range", what);
    // nodes
    std::vector<uint32_t> nodes{0, 1}, gatel, wirel;
    for (const auto& [n, d] : m.nodes)
    {
        const auto D = [&, n = n] { return vm::cat(what, " node ", n); };
        if (!d.dead)
        {
            nodes.push_back(n);
            if (!d.pi) gatel.push_back(n);
            if (m.wire(n)) wirel.push_back(n);
        }
        vm::require(l.is_dead(n) == d.dead, "gates:dead", [&] { return D() + (d.dead ? " is alive" : " is dead"); });
        vm::require(!l.is_constant(n) && l.is_function(n) && l.is_pi(n) == d.pi, "gates:node-kind", D);
        vm::require(l.get_name(n) == d.name && l.has_name(n) == !d.name.empty(), "gates:name", D);
        const auto f = l.node_function(n);
        vm::require(f.num_vars() == d.nv && word(f) == d.tt, "gates:function", [&] { return vm::cat(D(), " function ", word(f), " instead of ", d.tt); });
        for (const auto& k : KINDS)
        {
            bool is = k.nv == d.nv && k.tt == d.tt, got = false;
            switch (k.lit)
            {
                case 2: got = l.is_buf(n); vm::require(l.is_wire(n) == got, "gates:is-wire", D); break;
                case 3: got = l.is_inv(n); break;
                case 4: got = l.is_and(n); break;
                case 5: got = l.is_nand(n); break;
                case 6: got = l.is_or(n); break;
                case 7: got = l.is_nor(n); break;
                case 8: got = l.is_lt(n); break;
                case 9: got = l.is_ge(n); break;
                case 10: got = l.is_gt(n); break;
                case 11: got = l.is_le(n); break;
                case 12: got = l.is_xor(n); break;
                case 13: got = l.is_xnor(n); break;
                default: got = l.is_maj(n);
            }
            vm::require(got == is, vm::cat("gates:is-", k.n).c_str(), D);
        }
        vm::require(l.is_gate(n) == !d.pi, "gates:is-gate", D);
        vm::require(l.value(n) == d.val && l.visited(n) == d.vis, "gates:scratch-values", D);
        vm::require(l.node_to_index(n) == n && l.index_to_node(n) == n, "gates:index", D);
        if (!d.tile)
        {
            vm::require(l.get_tile(n).is_dead(), "gates:tile-of-dead", D);
            continue;
        }
        vm::require(l.get_tile(n) == *d.tile && l.make_signal(n) == S(*d.tile) && l.get_node(*d.tile) == n && l.get_node(S(*d.tile)) == n, "gates:tile", D);
        const auto& t = *d.tile;
        // fanin: children that still live next to the node in a zone that clocks into it, in order
        const auto fanin = [&](bool clk)
        {
            std::vector<sig> v;
            for (const auto& k : d.kids)
            {
                const auto c = static_cast<off>(k);
                if (m.at.contains(c) && l.is_adjacent_elevation_of(t, c) && (!clk || l.is_incoming_clocked(t, c))) v.push_back(k);
            }
            return v;
        };
        const auto fanout = [&](bool clk)
        {
            std::multiset<uint32_t> v;
            for (const auto& a : l.adjacent_coordinates(t))
                if (!clk || l.is_outgoing_clocked(t, a))
                    for (uint64_t z = a.z == 0 ? 0 : a.z - 1; z <= std::min<uint64_t>(a.z + 1, l.z()); ++z)
                    {
                        const auto it = m.at.find(off{a.x, a.y, z});
                        if (it != m.at.end() && std::find(m.nodes.at(it->second).kids.begin(), m.nodes.at(it->second).kids.end(), S(t)) != m.nodes.at(it->second).kids.end()) v.insert(it->second);
                    }
            return v;
        };
        const auto clocked = [&]<bool CLK>(std::bool_constant<CLK>)
        {
            const auto       in = fanin(CLK);
            const auto       out = fanout(CLK);
            std::vector<sig> got;
            auto             fn = [&](const auto& s) { got.push_back(s); };
            l.template foreach_fanin<decltype(fn)&, CLK>(n, fn);
            vm::require(got == in && l.template fanin_size<CLK>(n) == in.size(), "gates:fanin", [&] { return vm::cat(D(), " at ", S3(t), (CLK ? " (clocked)" : ""), ": ", got.size(), " fanins instead of ", in.size()); });
            std::vector<off> flow;
            for (const auto s : in) flow.push_back(static_cast<off>(s));
            vm::require(l.template incoming_data_flow<CLK>(t) == flow, "gates:incoming-flow", D);
            vm::require(l.template has_no_incoming_signal<CLK>(t) == in.empty(), "gates:no-incoming", D);
            std::multiset<uint32_t> g;
            auto                    fo = [&](const auto& x) { g.insert(x); };
            l.template foreach_fanout<decltype(fo)&, CLK>(n, fo);
            vm::require(g == out && l.template fanout_size<CLK>(n) == out.size(), "gates:fanout", [&] { return vm::cat(D(), " at ", S3(t), (CLK ? " (clocked)" : ""), ": ", g.size(), " fanouts instead of ", out.size()); });
            std::multiset<off> of, wf;
            for (const auto& x : l.template outgoing_data_flow<CLK>(t)) of.insert(x);
            for (const auto x : out) wf.insert(*m.nodes.at(x).tile);
            vm::require(of == wf, "gates:outgoing-flow", D);
            vm::require(l.template has_no_outgoing_signal<CLK>(t) == out.empty(), "gates:no-outgoing", D);
            if (CLK) vm::require(l.is_fanout(n) == (m.wire(n) && out.size() > 1), "gates:is-fanout", D);
            // directions
            const auto has_in = [&](const off& q)
            { return std::any_of(flow.begin(), flow.end(), [&](const off& f) { return f == q || (f.x == q.x && f.y == q.y && (f.z == q.z + 1 || q.z == f.z + 1)); }); };
            const auto has_out = [&](const off& q)
            { return std::any_of(wf.begin(), wf.end(), [&](const off& f) { return f == q || (f.x == q.x && f.y == q.y && (f.z == q.z + 1 || q.z == f.z + 1)); }); };
            const std::array<off, 8>  q{l.north(t), l.north_east(t), l.east(t), l.south_east(t), l.south(t), l.south_west(t), l.west(t), l.north_west(t)};
            const std::array<bool, 8> gi{l.template has_northern_incoming_signal<CLK>(t), l.template has_north_eastern_incoming_signal<CLK>(t), l.template has_eastern_incoming_signal<CLK>(t),
                                         l.template has_south_eastern_incoming_signal<CLK>(t), l.template has_southern_incoming_signal<CLK>(t), l.template has_south_western_incoming_signal<CLK>(t),
                                         l.template has_western_incoming_signal<CLK>(t), l.template has_north_western_incoming_signal<CLK>(t)};
            const std::array<bool, 8> go{l.template has_northern_outgoing_signal<CLK>(t), l.template has_north_eastern_outgoing_signal<CLK>(t), l.template has_eastern_outgoing_signal<CLK>(t),
                                         l.template has_south_eastern_outgoing_signal<CLK>(t), l.template has_southern_outgoing_signal<CLK>(t), l.template has_south_western_outgoing_signal<CLK>(t),
                                         l.template has_western_outgoing_signal<CLK>(t), l.template has_north_western_outgoing_signal<CLK>(t)};
            for (std::size_t i = 0; i < 8; ++i)
            {
                vm::require(gi[i] == has_in(q[i]), "gates:incoming-direction", [&] { return vm::cat(D(), " at ", S3(t), " direction ", i); });
                vm::require(go[i] == has_out(q[i]), "gates:outgoing-direction", [&] { return vm::cat(D(), " at ", S3(t), " direction ", i); });
            }
            bool opp = false;
            for (const auto& [a, b] : l.adjacent_opposite_coordinates(t)) opp |= (has_in(a) && has_out(b)) || (has_in(b) && has_out(a));
            vm::require(l.template has_opposite_incoming_and_outgoing_signals<CLK>(t) == opp, "gates:opposite-signals", D);
            vm::count("fanins seen", static_cast<long>(in.size()));
            vm::count("fanouts seen", static_cast<long>(out.size()));
            // evaluation
            if (CLK && in.size() == d.nv && d.kids.size() == d.nv)
            {
                std::vector<kitty::dynamic_truth_table> tts;
                uint64_t                                seed = vm::mix(n + 77);
                for (unsigned i = 0; i < d.nv; ++i) tts.push_back(table(4, seed = vm::mix(seed)));
                const auto res = l.compute(n, tts.begin(), tts.end());
                for (uint64_t b = 0; b < 16; ++b)
                {
                    std::vector<bool> bits;
                    uint64_t          idx = 0;
                    for (unsigned i = 0; i < d.nv; ++i)
                    {
                        bits.push_back(kitty::get_bit(tts[i], b));
                        idx |= static_cast<uint64_t>(bits.back()) << i;
                    }
                    const bool want = (d.tt >> idx) & 1;
                    vm::require(kitty::get_bit(res, b) == want && l.compute(n, bits.begin(), bits.end()) == want, "gates:compute", D);
                }
                vm::count("evaluations");
            }
        };
        clocked(std::true_type{});
        clocked(std::false_type{});
    }
    std::vector<uint32_t> g;
    l.foreach_node([&](const auto& n) { g.push_back(n); });
    vm::require(g == nodes, "gates:foreach-node", what);
    g.clear();
    l.foreach_gate([&](const auto& n) { g.push_back(n); });
    vm::require(g == gatel, "gates:foreach-gate", what);
    g.clear();
    l.foreach_wire([&](const auto& n) { g.push_back(n); });
    vm::require(g == wirel, "gates:foreach-wire", what);
    // tiles
    l.foreach_tile(
        [&](const off& t)
        {
            const auto it  = m.at.find(t);
            const auto D   = [&] { return what + " tile " + S3(t); };
            vm::require(l.is_empty_tile(t) == (it == m.at.end()), "gates:is-empty-tile", D);
            const bool wire = it != m.at.end() && m.wire(it->second);
            vm::require(l.is_wire_tile(t) == wire, "gates:is-wire-tile", D);
            vm::require(l.is_gate_tile(t) == (it != m.at.end() && !m.nodes.at(it->second).pi), "gates:is-gate-tile", D);
            vm::require(l.is_pi_tile(t) == (it != m.at.end() && m.nodes.at(it->second).pi), "gates:is-pi-tile", D);
            vm::require(l.is_po_tile(t) == (std::find(m.pos.begin(), m.pos.end(), t) != m.pos.end()), "gates:is-po-tile", D);
            if (it == m.at.end()) vm::require(l.get_node(t) == 0, "gates:node-of-empty-tile", D);
            vm::count("tiles checked");
        });
}
// judge: compare everything with the model after some operations and at the end; otherwise the result is handed to f
template <typename Lyt, typename F>
void history(vm::rng& r, const char* type, bool judge, const F& f)
{
    const auto    scheme = r.pick(*new std::vector<std::string>{"OPEN", "COLUMNAR", "ROW", "2DDWAVE", "USE", "RES", "ESR", "CFE", "2DDWAVE3", "BANCS"});
    const int64_t w = r.range(0, 4), h = r.range(0, 4), z = r.chance(75) ? 1 : 0;
    const auto    cs = get_clocking_scheme<Lyt>(scheme);
    if (!cs) return;
    const auto what = vm::cat(type, " ", scheme, " ", w, "x", h, "x", z);
    model      m;
    m.name = r.chance(50) ? "lay" : "";
    Lyt l  = [&]
    {
        if (r.chance(20))  // out of a clocked layout
        {
            clocked_layout<tile_based_layout<std::conditional_t<std::is_same_v<Lyt, cart>, cartesian_layout<off>, hexagonal_layout<off, odd_row_hex>>>> x{};
            if constexpr (std::is_constructible_v<Lyt, decltype(x)>)
            {
                decltype(x) y{off{w, h, z}, *get_clocking_scheme<decltype(x)>(scheme)};
                Lyt         q{y};
                q.set_layout_name(m.name);
                return q;
            }
        }
        return Lyt{off{w, h, z}, *cs, m.name};
    }();
    if (!cs->is_regular())
        for (int64_t x = 0; x <= w; ++x)
            for (int64_t y = 0; y <= h; ++y)
            {
                const auto k = static_cast<uint8_t>(r.below(4));
                for (int64_t zz = 0; zz <= z; ++zz) l.assign_clock_number(off{x, y, zz}, k);
            }
    std::string log;
    const auto  rt = [&] { return off{r.range(0, w), r.range(0, h), r.range(0, z)}; };
    const auto  neighbour = [&](const off& t)
    {
        const auto a = l.adjacent_coordinates(t);
        if (a.empty() || r.chance(10)) return rt();
        std::vector<off> in;
        for (const auto& q : a)
            if (l.is_incoming_clocked(t, q)) in.push_back(q);
        auto q = (in.empty() || r.chance(15)) ? a[r.below(a.size())] : in[r.below(in.size())];
        if (r.chance(30)) q.z = static_cast<uint64_t>(r.range(0, z));
        return q;
    };
    const auto apply = [&](Lyt& x, model& mm)
    {
        const auto t = rt();
        const auto alive = [&]() -> std::optional<uint32_t>
        {
            if (mm.nodes.empty()) return std::nullopt;
            auto it = mm.nodes.begin();
            std::advance(it, static_cast<int64_t>(r.below(mm.nodes.size())));
            return it->second.dead && r.chance(70) ? std::optional<uint32_t>{} : it->first;
        };
        const auto next = static_cast<uint32_t>(mm.nodes.size() + 2);
        const auto o    = r.below(100);
        log += vm::cat(" ", o < 15 ? "pi" : o < 28 ? "po" : o < 65 ? "gate" : o < 75 ? "connect" : o < 88 ? "move" : o < 95 ? "clear" : "name");
        if (o < 15)
        {
            const auto nm = r.chance(50) ? vm::cat("in", next) : std::string{};
            const auto s  = x.create_pi(nm, t);
            vm::require(s == S(t), "gates:create-signal", what);
            mm.pis.push_back(next);
            mm.nodes[next].pi   = true;
            mm.nodes[next].name = nm.empty() ? vm::cat("pi", mm.pis.size()) : nm;
            mm.assign(t, next);
        }
        else if (o < 28)
        {
            const auto nm = r.chance(50) ? vm::cat("out", next) : std::string{};
            const auto k  = neighbour(t);
            if (k == t) return;
            vm::require(x.create_po(S(k), nm, t) == S(t), "gates:create-signal", what);
            mm.nodes[next].kids = {S(k)};
            mm.assign(t, next);
            mm.pos.push_back(t);
            mm.nodes[next].name = nm.empty() ? vm::cat("po", mm.pos.size()) : nm;
        }
        else if (o < 65)
        {
            auto             k = KINDS[r.below(KINDS.size())];
            bool             any = r.chance(20);
            if (any)
            {
                k.nv = static_cast<unsigned>(r.range(1, 4));
                k.tt = r() & ((1ull << (1u << k.nv)) - 1);
                if (k.nv == 1 && r.chance(50)) k.tt = 2;
            }
            std::vector<off> ch;
            for (unsigned i = 0; i < k.nv; ++i) ch.push_back(neighbour(t));
            if (std::find(ch.begin(), ch.end(), t) != ch.end()) return;
            std::vector<sig> cs2;
            for (const auto& c : ch) cs2.push_back(S(c));
            if (r.chance(5)) cs2[0] = x.get_constant(r.chance(50));
            sig s = 0;
            if (any) s = x.create_node(cs2, table(k.nv, k.tt), t);
            else switch (k.lit)
            {
                case 2: s = x.create_buf(cs2[0], t); break;
                case 3: s = x.create_not(cs2[0], t); break;
                case 4: s = x.create_and(cs2[0], cs2[1], t); break;
                case 5: s = x.create_nand(cs2[0], cs2[1], t); break;
                case 6: s = x.create_or(cs2[0], cs2[1], t); break;
                case 7: s = x.create_nor(cs2[0], cs2[1], t); break;
                case 8: s = x.create_lt(cs2[0], cs2[1], t); break;
                case 9: s = x.create_ge(cs2[0], cs2[1], t); break;
                case 10: s = x.create_gt(cs2[0], cs2[1], t); break;
                case 11: s = x.create_le(cs2[0], cs2[1], t); break;
                case 12: s = x.create_xor(cs2[0], cs2[1], t); break;
                case 13: s = x.create_xnor(cs2[0], cs2[1], t); break;
                default: s = x.create_maj(cs2[0], cs2[1], cs2[2], t);
            }
            vm::require(s == S(t), "gates:create-signal", what);
            auto& n = mm.nodes[next];
            n.kids = cs2;
            n.nv   = k.nv;
            n.tt   = k.tt;
            mm.assign(t, next);
        }
        else if (o < 75)
        {
            const auto n = alive();
            if (!n || !mm.nodes[*n].tile) return;
            const auto k = neighbour(*mm.nodes[*n].tile);
            if (k == *mm.nodes[*n].tile || mm.nodes[*n].kids.size() > 5) return;
            vm::require(x.connect(S(k), *n) == S(*mm.nodes[*n].tile), "gates:connect-signal", what);
            mm.nodes[*n].kids.push_back(S(k));
        }
        else if (o < 88)
        {
            const auto n = alive();
            if (!n) return;
            std::vector<sig> kids;
            for (uint64_t i = r.below(3); i > 0; --i)
            {
                const auto k = neighbour(t);
                if (k != t) kids.push_back(S(k));
            }
            if (mm.nodes[*n].pi) kids.clear();
            auto& nd = mm.nodes[*n];
            vm::require(x.move_node(*n, t, kids) == S(t), "gates:move-signal", what);
            if (!(nd.tile && *nd.tile == t))
            {
                mm.clear(t);
                if (nd.tile)
                {
                    for (auto& p : mm.pos)
                        if (p == *nd.tile) p = t;
                    mm.at.erase(*nd.tile);
                    nd.tile.reset();
                }
                mm.assign(t, *n);
            }
            nd.kids = kids;
        }
        else if (o < 95)
        {
            x.clear_tile(t);
            mm.clear(t);
        }
        else
        {
            const auto n = alive();
            if (!n) return;
            const auto nm = vm::cat("n", r.below(1000));
            switch (r.below(5))
            {
                case 0: x.set_name(*n, nm); mm.nodes[*n].name = nm; break;
                case 1: if (mm.nodes[*n].tile) { x.set_name(S(*mm.nodes[*n].tile), nm); mm.nodes[*n].name = nm; } break;
                case 2:
                {
                    const auto i = static_cast<uint32_t>(r.below(mm.pis.size() + 1));
                    x.set_input_name(i, nm);
                    if (i < mm.pis.size()) mm.nodes[mm.pis[i]].name = nm;
                    break;
                }
                case 3:
                {
                    const auto i = static_cast<uint32_t>(r.below(mm.pos.size() + 1));
                    x.set_output_name(i, nm);
                    if (i < mm.pos.size()) mm.nodes[mm.at[mm.pos[i]]].name = nm;
                    break;
                }
                default: x.set_layout_name(nm); mm.name = nm;
            }
            if (r.chance(40))
            {
                const auto v = static_cast<uint32_t>(r.below(1000));
                x.set_value(*n, v);
                mm.nodes[*n].val = v;
                vm::require(x.incr_value(*n) == v && x.decr_value(*n) == v, "gates:value-steps", what);
                x.set_visited(*n, v + 1);
                mm.nodes[*n].vis = v + 1;
            }
            else if (r.chance(20))
            {
                x.clear_values();
                x.clear_visited();
                for (auto& [i, d] : mm.nodes) d.val = d.vis = 0;
            }
        }
    };
    const auto steps = r.range(1, vm::thorough() ? 120 : 40);
    for (int64_t i = 0; i < steps; ++i)
    {
        vm::note(what + log);
        apply(l, m);
        if (judge && r.chance(15)) check(l, m, what + log);
    }
    if (!judge) return f(l, m, what + log);
    check(l, m, what + log);
    vm::require(l.is_constant(0) && l.is_constant(1) && !l.constant_value(0) && l.constant_value(1) && l.get_node(l.get_constant(false)) == 0 && l.get_node(l.get_constant(true)) == 1 && l.is_combinational(),
                "gates:constants", what);
    // clones are independent, copies are handles
    auto  c  = l.clone();
    model mc = m;
    for (int i = 0; i < 6; ++i)
    {
        apply(c, mc);
        auto copy = l;
        apply(copy, m);
    }
    check(l, m, what + log + " (original)");
    check(c, mc, what + log + " (clone)");
    vm::distinct(what + log);
    vm::sample(what + log);
}
}  // namespace gm
