// Random legal gate-level layouts of any topology and clocking scheme: gates are attached to the free tiles next to what
// is already there, as the clocking allows.
#pragma once
#include "nets.hpp"

#include <fiction/layouts/bounding_box.hpp>
#include <fiction/layouts/clocking_scheme.hpp>
#include <fiction/types.hpp>

namespace grow
{
struct options
{
    int  width{6}, height{6};
    bool crossings{true}, functions{true}, three{true}, names{false}, override_zones{true};
    int  fanout{3};  // at most this many successors of any node
    const char* only_scheme{nullptr};
    bool andor{false};  // of the gates with two operands, AND and OR only
};
inline std::string some_name(vm::rng& r, const bool odd)
{
    static const char* const plain = "abcxyz_019[]";
    static const char* const wild  = "a<>&\"'b;/\\ .-";
    std::string s;
    for (auto n = r.range(1, 5); n > 0; --n) { const char* const t = odd && r.chance(40) ? wild : plain; s += t[r.below(std::strlen(t))]; }
    while (!s.empty() && s.front() == ' ') s.front() = 'q';
    while (!s.empty() && s.back() == ' ') s.back() = 'q';
    return s;
}
template <typename Lyt>
Lyt layout(vm::rng& r, const options& o, const std::string& name = {})
{
    using namespace fiction;
    using tile_t = tile<Lyt>;
    static const std::vector<const char*> all{"OPEN3", "OPEN4", "COLUMNAR3", "COLUMNAR4", "ROW3", "ROW4", "2DDWAVE3", "2DDWAVE4", "USE", "RES", "ESR", "CFE", "RIPPLE", "SRS", "BANCS", "2DDWAVEHEX3", "2DDWAVEHEX4"};
    std::string scheme;
    if (o.only_scheme) scheme = o.only_scheme;
    else
        do scheme = all[r.below(all.size())];
        while ((scheme.find("HEX") != std::string::npos) != is_hexagonal_layout_v<Lyt> && scheme.find("HEX") != std::string::npos);
    const auto w = r.range(1, o.width), h = r.range(1, o.height);
    Lyt l{{w - 1, h - 1, 1}, *get_clocking_scheme<Lyt>(scheme), name};
    const auto clocks = l.num_clocks();
    if (scheme[0] == 'O' || (o.override_zones && r.chance(25)))
        for (auto n = scheme[0] == 'O' ? w * h * 2 : r.range(1, 6); n > 0; --n) l.assign_clock_number({r.range(0, w - 1), r.range(0, h - 1)}, static_cast<uint8_t>(r.below(clocks)));
    std::vector<tile_t> nodes;
    const auto succ = [&](const tile_t& t) { std::size_t k = 0; for (const auto& u : nodes) { if (l.is_empty_tile(u)) continue; const auto fn = [&](const auto& f) { if (static_cast<tile_t>(f) == t) ++k; }; l.foreach_fanin(l.get_node(u), fn); } return k; };
    const auto free_tile = [&] { return tile_t{r.range(0, w - 1), r.range(0, h - 1), 0}; };
    const auto pis = r.range(1, 4);
    const auto pin = [&](const tile_t& t) { l.create_pi(o.names || r.chance(50) ? some_name(r, o.names) : std::string{}, t); nodes.push_back(t); };
    for (auto i = 0; i < pis; ++i) if (const auto t = free_tile(); l.is_empty_tile(t)) pin(t);
    const auto sources = [&](const tile_t& t)
    {
        std::vector<tile_t> v;
        for (const auto& u : nodes)
        {
            if (u == t || l.is_empty_tile(u) || l.is_po_tile(u) || !l.is_incoming_clocked(t, u)) continue;
            if (!l.is_adjacent_elevation_of(t, u)) continue;
            if (static_cast<int>(succ(u)) >= o.fanout) continue;
            v.push_back(u);
        }
        // not two from above each other
        std::vector<tile_t> q;
        for (std::size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[r.below(i)]);
        for (const auto& u : v) if (std::none_of(q.begin(), q.end(), [&](const auto& x) { return x.x == u.x && x.y == u.y; })) q.push_back(u);
        return q;
    };
    const auto steps = w * h * 4;
    for (auto k = 0; k < steps; ++k)
    {
        auto t = free_tile();
        if (!l.is_empty_tile(t))
        {
            // a crossing
            if (!o.crossings || !l.is_wire_tile(t) || l.is_pi_tile(t) || l.is_po_tile(t)) continue;
            t.z = 1;
            if (!l.is_empty_tile(t)) continue;
            const auto s = sources(t);
            if (!s.empty()) { l.create_buf(static_cast<mockturtle::signal<Lyt>>(s[0]), t); nodes.push_back(t); }
            continue;
        }
        auto s = sources(t);
        if (s.empty()) { if (r.chance(5)) pin(t); continue; }
        const auto n = std::min<std::size_t>({s.size(), static_cast<std::size_t>(r.range(1, 4)), o.three ? 4u : 2u});
        std::vector<mockturtle::signal<Lyt>> c;
        for (std::size_t i = 0; i < n; ++i) c.push_back(static_cast<mockturtle::signal<Lyt>>(s[i]));
        const auto any = [&]
        {
            kitty::dynamic_truth_table tt(static_cast<uint32_t>(n));
            for (uint64_t b = 0; b < tt.num_bits(); ++b) if (r.chance(50)) kitty::set_bit(tt, b);
            l.create_node(c, tt, t);
        };
        if (o.functions && n > 1 && r.chance(30)) any();
        else if (n == 1) { if (r.chance(25)) l.create_not(c[0], t); else if (o.functions && r.chance(8)) any(); else l.create_buf(c[0], t); }
        else if (n == 2)
            switch (o.andor ? 2 * r.below(2) : r.below(10))
            {
                case 0: l.create_and(c[0], c[1], t); break;
                case 1: l.create_nand(c[0], c[1], t); break;
                case 2: l.create_or(c[0], c[1], t); break;
                case 3: l.create_nor(c[0], c[1], t); break;
                case 4: l.create_xor(c[0], c[1], t); break;
                case 5: l.create_xnor(c[0], c[1], t); break;
                case 6: l.create_lt(c[0], c[1], t); break;
                case 7: l.create_gt(c[0], c[1], t); break;
                case 8: l.create_le(c[0], c[1], t); break;
                default: l.create_ge(c[0], c[1], t);
            }
        else if (n == 3) { if (r.chance(60)) l.create_maj(c[0], c[1], c[2], t); else if (o.functions) any(); else continue; }
        else any();
        nodes.push_back(t);
    }
    // outputs for what is not used, or away with it
    for (bool again = true; again;)
    {
        again = false;
        for (std::size_t i = 0; i < nodes.size(); ++i)
        {
            const auto t = nodes[i];
            if (l.is_empty_tile(t) || l.is_po_tile(t) || succ(t) != 0) continue;
            bool done = false;
            for (auto x = 0; x < w && !done; ++x)
                for (auto y = 0; y < h && !done; ++y)
                {
                    const tile_t u{x, y, 0};
                    if (!l.is_empty_tile(u) || !l.is_adjacent_elevation_of(u, t) || !l.is_incoming_clocked(u, t)) continue;
                    l.create_po(static_cast<mockturtle::signal<Lyt>>(t), o.names || r.chance(50) ? some_name(r, o.names) : std::string{}, u);
                    nodes.push_back(u);
                    done = true;
                }
            if (done) continue;
            if (l.is_wire_tile(t) && !l.is_pi_tile(t) && t.z == 0 && r.chance(60))
            {
                // make it the output
                std::vector<tile_t> f;
                const auto fn = [&](const auto& q) { f.push_back(static_cast<tile_t>(q)); };
                l.foreach_fanin(l.get_node(t), fn);
                l.clear_tile(t);
                l.create_po(static_cast<mockturtle::signal<Lyt>>(f[0]), o.names || r.chance(50) ? some_name(r, o.names) : std::string{}, t);
                continue;
            }
            if (l.is_pi_tile(t)) continue;  // an unused input
            l.clear_tile(t);
            again = true;
        }
    }
    return l;
}
template <typename Lyt>
std::string describe(const Lyt& l)
{
    std::string s = vm::cat(l.x(), "x", l.y(), "x", l.z(), " ", std::string{l.get_clocking_scheme().name}, static_cast<int>(l.num_clocks()));
    l.foreach_node([&](const auto& n)
    {
        if (l.is_constant(n)) return;
        s += " " + nets::str(l.get_tile(n)) + (l.is_pi(n) ? "i" : l.is_po(n) ? "o" : "") + kitty::to_hex(l.node_function(n)) + "<";
        const auto fn = [&](const auto& f) { s += nets::str(static_cast<fiction::tile<Lyt>>(f)); };
        l.foreach_fanin(n, fn);
    });
    return s;
}
}  // namespace grow
