// Random SiDB gates with a known structure (BDL wires, their directions, canvas, perturbers) and their ideal behaviour.
#pragma once
#include "sidb_model.hpp"

#include <fiction/algorithms/iter/bdl_input_iterator.hpp>
#include <fiction/algorithms/simulation/sidb/detect_bdl_pairs.hpp>
#include <fiction/algorithms/simulation/sidb/detect_bdl_wires.hpp>
#include <fiction/algorithms/simulation/sidb/is_operational.hpp>
#include <fiction/types.hpp>

#include <kitty/dynamic_truth_table.hpp>

#include <algorithm>
#include <optional>

namespace sg
{
using namespace fiction;
using sm::site;
enum kind { IN, OUT, MID };
struct bpair
{
    site start, end;  // bit 1: the electron sits at `end`, the dot towards the output
    kind k;
    [[nodiscard]] std::pair<site, site> sorted() const { auto a = std::tuple{start.m, start.l, start.n}, b = std::tuple{end.m, end.l, end.n}; return a < b ? std::pair{start, end} : std::pair{end, start}; }
};
struct bwire
{
    std::vector<bpair> pairs;  // from the input (or the canvas) to the output (or the canvas)
    port_direction::cardinal dir;    // direction of the signal
    [[nodiscard]] bool has(const kind k) const { return std::any_of(pairs.begin(), pairs.end(), [&](const auto& p) { return p.k == k; }); }
};
struct gate
{
    std::vector<bwire>         wires;
    std::vector<site>          singles;  // unpaired normal dots
    std::vector<site>          canvas;   // logic dots
    std::vector<sm::defect_at> defects;
    sm::phys                   p;
    std::string                family;

    [[nodiscard]] std::vector<const bpair*> of(const kind k) const
    {
        std::vector<const bpair*> r;
        for (const auto& w : wires) for (const auto& q : w.pairs) if (q.k == k) r.push_back(&q);
        std::sort(r.begin(), r.end(), [](const auto* a, const auto* b) { const auto x = a->sorted(), y = b->sorted(); return std::tuple{x.first.m, x.first.l, x.first.n} < std::tuple{y.first.m, y.first.l, y.first.n}; });
        return r;
    }
    // wires in the order of their input or output pairs
    [[nodiscard]] std::vector<const bwire*> wires_of(const kind k) const
    {
        std::vector<const bwire*> r;
        for (const auto* p0 : of(k)) for (const auto& w : wires) for (const auto& q : w.pairs) if (&q == p0) r.push_back(&w);
        return r;
    }
    [[nodiscard]] std::size_t inputs() const { return of(IN).size(); }
    template <typename Lyt> [[nodiscard]] Lyt layout() const
    {
        Lyt l{};
        using t = typename Lyt::technology::cell_type;
        for (const auto& w : wires)
            for (const auto& q : w.pairs)
            {
                const auto ty = q.k == IN ? t::INPUT : q.k == OUT ? t::OUTPUT : t::NORMAL;
                l.assign_cell_type(sm::cell_of<Lyt>(q.start), ty);
                l.assign_cell_type(sm::cell_of<Lyt>(q.end), ty);
            }
        for (const auto& s : singles) l.assign_cell_type(sm::cell_of<Lyt>(s), t::NORMAL);
        for (const auto& s : canvas) l.assign_cell_type(sm::cell_of<Lyt>(s), t::LOGIC);
        if constexpr (is_sidb_defect_surface_v<Lyt>)
            for (const auto& d : defects) l.assign_sidb_defect(sm::cell_of<Lyt>(d.s), sidb_defect{sidb_defect_type::SI_VACANCY, static_cast<int64_t>(d.q), d.eps, d.lambda});
        return l;
    }
    // what is present on the surface for an input pattern
    [[nodiscard]] std::vector<std::pair<site, kind>> dots(const uint64_t pattern, const bool absence) const
    {
        std::vector<std::pair<site, kind>> r;
        const auto in = of(IN);
        for (std::size_t i = 0; i < in.size(); ++i)
        {
            const bool bit = ((pattern >> (in.size() - 1 - i)) & 1u) != 0;
            if (bit) r.emplace_back(in[i]->end, IN);
            else if (!absence) r.emplace_back(in[i]->start, IN);
        }
        for (const auto& w : wires) for (const auto& q : w.pairs) if (q.k != IN) { r.emplace_back(q.start, q.k); r.emplace_back(q.end, q.k); }
        for (const auto& s : singles) r.emplace_back(s, MID);
        for (const auto& s : canvas) r.emplace_back(s, MID);
        return r;
    }
    [[nodiscard]] sm::world world(const uint64_t pattern, const bool absence, const sm::phys& ph) const
    {
        sm::world w;
        w.p = ph;
        for (const auto& [s, k] : dots(pattern, absence)) w.sites.push_back(s);
        std::sort(w.sites.begin(), w.sites.end());
        w.defects = defects;
        w.prepare();
        return w;
    }
    [[nodiscard]] std::string str() const
    {
        std::string s = family;
        const auto  d = [&](const site& x) { s += "(" + std::to_string(x.n) + "," + std::to_string(x.m) + "," + std::to_string(x.l) + ")"; };
        for (const auto& w : wires) { s += " wire" + std::to_string(static_cast<int>(w.dir)); for (const auto& q : w.pairs) { s += q.k == IN ? " i" : q.k == OUT ? " o" : " n"; d(q.start); d(q.end); } }
        s += " singles"; for (const auto& x : singles) d(x);
        s += " canvas"; for (const auto& x : canvas) d(x);
        for (const auto& x : defects) { s += " defect q" + std::to_string(static_cast<int>(x.q)); d(x.s); }
        return s + " mu " + std::to_string(p.mu) + " eps " + std::to_string(p.eps) + " lambda " + std::to_string(p.lambda) + " base " + std::to_string(p.base);
    }
};
inline double nm(const site& a, const site& b) { return sm::dist(false, a, b); }
// is the structure the one that the detection of pairs and wires must find (with default parameters)?
inline bool unambiguous(const gate& g)
{
    std::vector<std::pair<site, kind>> all;
    std::vector<const bpair*>          ps;
    std::map<site, const bpair*>       own;
    for (const auto& w : g.wires) for (const auto& q : w.pairs) { ps.push_back(&q); own[q.start] = own[q.end] = &q; all.emplace_back(q.start, q.k); all.emplace_back(q.end, q.k); if (nm(q.start, q.end) < 0.76 || nm(q.start, q.end) > 1.49) return false; }
    for (const auto& s : g.singles) all.emplace_back(s, MID);
    std::set<site> seen;
    for (const auto& [s, k] : all) if (!seen.insert(s).second) return false;
    for (const auto& s : g.canvas) if (!seen.insert(s).second) return false;
    for (const auto& d : g.defects) if (!seen.insert(d.s).second) return false;
    for (std::size_t i = 0; i < all.size(); ++i)
        for (std::size_t j = 0; j < i; ++j)
        {
            if (all[i].second != all[j].second) continue;
            const auto a = own.find(all[i].first), b = own.find(all[j].first);
            if (a != own.end() && b != own.end() && a->second == b->second) continue;
            if (nm(all[i].first, all[j].first) < 1.51) return false;
        }
    const auto closest = [](const bpair& a, const bpair& b) { return std::min({nm(a.start, b.start), nm(a.start, b.end), nm(a.end, b.start), nm(a.end, b.end)}); };
    for (const auto& w : g.wires)
        for (std::size_t i = 0; i < w.pairs.size(); ++i)
            for (const auto& x : g.wires)
                for (std::size_t j = 0; j < x.pairs.size(); ++j)
                {
                    if (&w == &x && (i == j)) continue;
                    if (&w == &x && j == i + 1) { if (nm(w.pairs[i].end, x.pairs[j].start) > 1.95) return false; }
                    else if (!(&w == &x && i == j + 1)) { if (closest(w.pairs[i], x.pairs[j]) < 2.05) return false; }
                }
    return true;
}
struct shape { int64_t n, m; int mirror; };  // offset; bit 0: mirror columns, bit 1: mirror rows
inline site place(const shape& s, const int64_t n, const int64_t m, const int64_t l)
{
    site x{n, m, l};
    if (s.mirror & 1) x.n = 20 - x.n;
    if (s.mirror & 2) { x.m = 9 - x.m; x.l = 1 - x.l; }
    x.n += s.n;
    x.m += s.m;
    return x;
}
inline gate random_gate(vm::rng& r, const int max_canvas, const bool defects, const int only = -1)
{
    for (;;)
    {
        gate g;
        g.p        = {-0.32, 5.6, 5.0, 2};
        if (r.chance(50)) g.p.mu = r.real(-0.34, -0.2);
        if (r.chance(40)) { g.p.eps = r.real(4.0, 8.0); g.p.lambda = r.real(3.0, 7.0); }
        shape      s{r.chance(30) ? 0 : r.range(-30, 30), r.chance(30) ? 0 : r.range(-20, 20), static_cast<int>(r.below(4))};
        const auto at  = [&](const int64_t n, const int64_t m, const int64_t l) { return place(s, n, m, l); };
        const auto fam = only >= 0 ? only : static_cast<int>(r.below(5));
        const auto v   = [&] { return (s.mirror & 2) ? port_direction::NORTH : port_direction::SOUTH; };
        const auto h   = [&] { return (s.mirror & 1) ? port_direction::WEST : port_direction::EAST; };
        const auto row = [&](const int64_t n0, const int64_t m, const int64_t l, const std::vector<kind>& ks, const int64_t w, const int64_t gap)
        {
            bwire b{{}, h()};
            auto  n = n0;
            for (const auto k : ks) { b.pairs.push_back({at(n, m, l), at(n + w, m, l), k}); n += w + gap; }
            if (ks.size() < 2) b.dir = port_direction::NONE;
            return std::pair{b, n};
        };
        const auto w = r.range(2, 3), gap = r.range(4, 5);
        switch (fam)
        {
            case 0:  // one wire from input to output
            {
                g.family = "row";
                std::vector<kind> ks{IN};
                for (auto n = r.range(1, 3); n > 0; --n) ks.push_back(MID);
                ks.push_back(OUT);
                auto [b, n] = row(0, 2, r.range(0, 1), ks, w, gap);
                g.wires.push_back(b);
                if (r.chance(70)) { const auto e = b.pairs.back().end; auto x = e; x.n += (s.mirror & 1) ? -(gap) : gap; g.singles.push_back(x); }
                break;
            }
            case 1:  // two wires to one output, as in the AND gate of SiQAD
            {
                g.family = "and";
                const auto mids = r.chance(80);
                bwire      a{{{at(0, 0, 1), at(2, 1, 1), IN}}, v()}, b{{{at(20, 0, 1), at(18, 1, 1), IN}}, v()}, o{{{at(10, 6, 0), at(10, 7, 0), OUT}}, port_direction::NONE};
                if (mids) { a.pairs.push_back({at(4, 2, 1), at(6, 3, 1), MID}); b.pairs.push_back({at(16, 2, 1), at(14, 3, 1), MID}); }
                else a.dir = b.dir = port_direction::NONE;
                if (!mids && r.chance(50)) continue;
                g.wires = {a, b, o};
                if (r.chance(85)) g.singles.push_back(at(10, 9, 1));
                break;
            }
            case 2:  // two rows
            {
                g.family = "rows";
                const auto d = r.range(3, 5);
                for (const auto y : {static_cast<int64_t>(0), d})
                {
                    std::vector<kind> ks{IN, MID, OUT};
                    auto [b, n] = row(0, 1 + y, 0, ks, w, gap);
                    g.wires.push_back(b);
                }
                break;
            }
            case 3:  // input wire, canvas, output wire
            {
                g.family = "gap";
                std::vector<kind> ks{IN};
                for (auto n = r.range(1, 2); n > 0; --n) ks.push_back(MID);
                auto [b, n] = row(0, 2, 0, ks, w, gap);
                g.wires.push_back(b);
                std::vector<kind> os;
                if (r.chance(50)) os.push_back(MID);
                os.push_back(OUT);
                auto [c, n2] = row(n + r.range(3, 6), 2, 0, os, w, gap);
                g.wires.push_back(c);
                if (r.chance(70)) { auto x = c.pairs.back().end; x.n += (s.mirror & 1) ? -gap : gap; g.singles.push_back(x); }
                break;
            }
            default:  // a vertical wire
            {
                g.family = "column";
                const auto step = r.range(3, 3), len = r.range(1, 2);
                bwire      b{{}, v()};
                std::vector<kind> ks{IN};
                for (auto n = r.range(1, 2); n > 0; --n) ks.push_back(MID);
                ks.push_back(OUT);
                int64_t m = 0;
                for (const auto k : ks) { b.pairs.push_back({at(5, m, 0), at(5, m + 1, 0), k}); m += step; }
                if (len == 2) g.singles.push_back(at(5, m, 0));
                g.wires.push_back(b);
            }
        }
        for (auto n = r.range(0, max_canvas); n > 0; --n)
        {
            if (g.family == "and") g.canvas.push_back(at(r.range(6, 14), r.range(3, 5), r.range(0, 1)));
            else g.canvas.push_back(at(r.range(0, 24), r.range(-1, 8), r.range(0, 1)));
        }
        if (r.chance(15)) g.singles.push_back(at(r.range(-6, 30), r.range(-4, 14), r.range(0, 1)));
        if (defects)
            for (auto n = r.range(0, 2); n > 0; --n) g.defects.push_back({at(r.range(-6, 30), r.range(-4, 14), r.range(0, 1)), static_cast<double>(r.chance(60) ? -1 : 1), r.real(4, 10), r.real(1, 6)});
        for (std::size_t i = 0; i < g.canvas.size(); ++i)  // canvas dots keep away from everything else
            for (std::size_t j = 0; j < i; ++j) if (g.canvas[i] == g.canvas[j]) { g.canvas.clear(); break; }
        // a pair on its own has no direction: its lower dot counts as 1, as does the upper perturber
        for (auto& b : g.wires)
            if (b.dir == port_direction::NONE)
                for (auto& q : b.pairs) { const auto [u, l] = q.sorted(); if (q.k == IN) { q.end = u; q.start = l; } else { q.end = l; q.start = u; } }
        if (unambiguous(g)) return g;
    }
}

// what the physics says about one input pattern
struct pattern_facts
{
    bool                                                       clear = true;  // nothing hinges on rounding
    bool                                                       positive = false;
    std::vector<site>                                          sites;
    std::vector<std::pair<double, std::vector<int>>>           states;  // all valid states, by energy
    [[nodiscard]] std::size_t grounds() const { std::size_t n = 0; while (n < states.size() && states[n].first - states[0].first < 1e-8) ++n; return n; }
    [[nodiscard]] int charge(const std::size_t st, const site& s) const { return states[st].second[static_cast<std::size_t>(std::lower_bound(sites.begin(), sites.end(), s) - sites.begin())]; }
};
inline pattern_facts facts(const gate& g, const uint64_t pattern, const bool absence, const sm::phys& ph)
{
    pattern_facts f;
    const auto    w = g.world(pattern, absence, ph);
    f.sites         = w.sites;
    std::vector<int> neg(w.sites.size(), -1);
    for (std::size_t i = 0; i < w.sites.size(); ++i)
    {
        const auto margin = -w.internal(neg, i) - (0.59 - ph.mu);
        if (std::abs(margin) < 1e-5) f.clear = false;
        if (margin > 0) f.positive = true;
    }
    for (const auto& [q, ok] : w.all_valid(ph.base)) { if (ok < 0) f.clear = false; f.states.emplace_back(w.energy(q), q); }
    std::sort(f.states.begin(), f.states.end());
    for (std::size_t i = 1; i < f.states.size(); ++i) { const auto d = f.states[i].first - f.states[i - 1].first; if (d > 1e-9 && d < 1e-5) f.clear = false; }
    return f;
}
inline bool in_bit(const gate& g, const uint64_t pattern, const std::size_t i) { return ((pattern >> (g.inputs() - 1 - i)) & 1u) != 0; }
enum verdict { GOOD, KINK, WRONG };
// judges one charge configuration
inline verdict judge(const gate& g, const pattern_facts& f, const std::size_t st, const uint64_t pattern, const std::vector<kitty::dynamic_truth_table>& spec)
{
    const auto encodes = [&](const bpair& p, const bool bit) { const int e = f.charge(st, p.end), s = f.charge(st, p.start); return bit ? (e < 0 && s == 0) : (s < 0 && e == 0); };
    const auto outs = g.of(OUT);
    for (std::size_t o = 0; o < outs.size(); ++o) if (!encodes(*outs[o], kitty::get_bit(spec[o], pattern))) return WRONG;
    const auto iw = g.wires_of(IN), ow = g.wires_of(OUT);
    for (std::size_t i = 0; i < iw.size(); ++i) for (const auto& p : iw[i]->pairs) if (p.k == MID && !encodes(p, in_bit(g, pattern, i))) return KINK;
    for (std::size_t o = 0; o < ow.size(); ++o) for (const auto& p : ow[o]->pairs) if (p.k == MID && !encodes(p, kitty::get_bit(spec[o], pattern))) return KINK;
    return GOOD;
}
inline std::string hex(const std::vector<kitty::dynamic_truth_table>& spec) { std::string s; for (const auto& t : spec) for (uint64_t i = 0; i < t.num_bits(); ++i) s += kitty::get_bit(t, i) ? '1' : '0'; return s; }
// a function that the gate computes for many patterns (according to its first ground states), or a random one
inline std::vector<kitty::dynamic_truth_table> random_spec(vm::rng& r, const gate& g, const bool absence, const sm::phys& ph)
{
    const auto n = static_cast<unsigned>(g.inputs());
    std::vector<kitty::dynamic_truth_table> spec(g.of(OUT).size(), kitty::dynamic_truth_table{n});
    const bool natural = r.chance(80);
    for (uint64_t i = 0; i < (uint64_t{1} << n); ++i)
    {
        const auto f = facts(g, i, absence, ph);
        for (std::size_t o = 0; o < spec.size(); ++o)
        {
            bool bit = r.chance(50);
            if (natural && !f.states.empty()) bit = f.charge(0, g.of(OUT)[o]->end) < 0;
            if (bit) kitty::set_bit(spec[o], i);
        }
    }
    return spec;
}
}  // namespace sg
