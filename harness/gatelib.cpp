// Monitors the application of gate libraries: what the cells of every tile do, observed by an independent simulation of their
// physics, is what the gate of the tile is to do, and the tiles are joined where signals pass.
#include "grow.hpp"

#include <fiction/algorithms/physical_design/apply_gate_library.hpp>
#include <fiction/algorithms/physical_design/orthogonal.hpp>
#include <fiction/technology/qca_one_library.hpp>
#include <fiction/types.hpp>

#include <cmath>
#include <map>
#include <set>

using namespace fiction;

namespace
{
using vm::cat;
using xy = std::pair<int, int>;
using glyt = cart_gate_clk_lyt;
using clyt = qca_cell_clk_lyt;
// electrostatic energy of two QCA cells with equal minus unequal polarization, in arbitrary units; distances in cells
double coupling(const int dx, const int dy)
{
    static std::map<xy, double> memo;
    const auto k = xy{std::abs(dx), std::abs(dy)};
    if (const auto it = memo.find(k); it != memo.end()) return it->second;
    // four dots per cell of 18 nm, 9 nm apart, cells 20 nm apart; polarization 1: charges at the upper right and the lower left dot
    static const double d[4][2] = {{4.5, 4.5}, {-4.5, -4.5}, {4.5, -4.5}, {-4.5, 4.5}};
    double e = 0;
    for (int i = 0; i < 4; ++i)
        for (int j = 0; j < 4; ++j)
        {
            const double x = 20.0 * k.first + d[j][0] - d[i][0], y = 20.0 * k.second + d[j][1] - d[i][1];
            e += ((i < 2) == (j < 2) ? 1 : -1) / std::sqrt(x * x + y * y);
        }
    return memo[k] = e;
}
struct driven { xy at; bool value; };
// the polarizations with the lowest energy; cells of fixed polarization act on the others
std::optional<std::map<xy, bool>> relax(const std::vector<xy>& free, const std::vector<driven>& fixed)
{
    const auto          n = free.size();
    std::vector<double> h(n, 0);
    std::vector<std::vector<double>> j(n, std::vector<double>(n, 0));
    for (std::size_t a = 0; a < n; ++a)
    {
        for (const auto& f : fixed) h[a] += (f.value ? 1 : -1) * coupling(free[a].first - f.at.first, free[a].second - f.at.second);
        for (std::size_t b = 0; b < n; ++b) if (a != b) j[a][b] = coupling(free[a].first - free[b].first, free[a].second - free[b].second);
    }
    double   best = 1e300, second = 1e300, e = 0;
    uint64_t state = 0, arg = 0;
    std::vector<int> s(n, -1);
    for (std::size_t a = 0; a < n; ++a) { e -= h[a]; for (std::size_t b = 0; b < a; ++b) e += j[a][b]; }
    for (uint64_t c = 0;; )
    {
        if (e < best - 1e-9) second = best, best = e, arg = state;
        else second = std::min(second, e);
        if (++c == 1ull << n) break;
        const auto a = static_cast<std::size_t>(__builtin_ctzll(c));  // one cell flips
        double     f = h[a];
        for (std::size_t b = 0; b < n; ++b) f += j[a][b] * s[b];
        e -= 2 * s[a] * f;
        s[a] = -s[a];
        state ^= 1ull << a;
    }
    if (second - best < 1e-6) return std::nullopt;  // nothing decides
    std::map<xy, bool> r;
    for (std::size_t a = 0; a < n; ++a) r[free[a]] = (arg >> a) & 1;
    return r;
}
const xy PORT[4] = {{2, 0}, {4, 2}, {2, 4}, {0, 2}}, STEP[4] = {{0, -1}, {1, 0}, {0, 1}, {-1, 0}};
int direction(const tile<glyt>& from, const tile<glyt>& to)
{
    const int dx = static_cast<int>(to.x) - static_cast<int>(from.x), dy = static_cast<int>(to.y) - static_cast<int>(from.y);
    for (int k = 0; k < 4; ++k) if (STEP[k] == xy{dx, dy}) return k;
    return -1;
}
struct site
{
    tile<glyt>                    t;
    std::vector<tile<glyt>>       in, out;
    mockturtle::node<glyt>        n;
};
std::vector<site> sites(const glyt& l)
{
    std::map<std::tuple<uint64_t, uint64_t, uint64_t>, site> m;
    const auto key = [](const tile<glyt>& t) { return std::tuple<uint64_t, uint64_t, uint64_t>{t.x, t.y, t.z}; };
    l.foreach_tile([&](const auto& t) { if (!l.is_empty_tile(t)) m[key(t)] = {t, {}, {}, l.get_node(t)}; });
    for (auto& [k, s] : m) l.foreach_fanin(s.n, [&](const auto& f) { const auto u = static_cast<tile<glyt>>(f); s.in.push_back(u); if (const auto it = m.find(key(u)); it != m.end()) it->second.out.push_back(s.t); });
    std::vector<site> v;
    for (auto& [k, s] : m) v.push_back(s);
    return v;
}
enum class gate { wire, fanout, inverter, conjunction, disjunction, majority, other };
gate kind_of(const glyt& l, const site& s)
{
    if (l.is_inv(s.n)) return gate::inverter;
    if (l.is_and(s.n)) return gate::conjunction;
    if (l.is_or(s.n)) return gate::disjunction;
    if (l.is_maj(s.n)) return gate::majority;
    if (l.is_pi(s.n) || l.is_buf(s.n)) return s.out.size() > 1 ? gate::fanout : gate::wire;
    return gate::other;
}
bool supported(const glyt& l, const site& s)
{
    const auto k = kind_of(l, s);
    const auto i = s.in.size(), o = s.out.size();
    switch (k)
    {
        case gate::wire: return i + o >= 1 && i <= 1 && o <= 1;
        case gate::fanout: return i == 1 && (o == 2 || o == 3) && s.t.z == 0;
        case gate::inverter: return i + o >= 1 && i <= 1 && o <= 1;
        case gate::conjunction:
        case gate::disjunction: return i == 2 && o == 1;
        case gate::majority: return i == 3 && o <= 1;
        default: return false;
    }
}
void judge(const glyt& l, const std::string& what)
{
    const auto        ss = sites(l);
    std::set<tile<glyt>> bad, doubtful;
    std::map<std::tuple<uint64_t, uint64_t, uint64_t>, const site*> at;
    for (const auto& s : ss)
    {
        at[{s.t.x, s.t.y, s.t.z}] = &s;
        if (!supported(l, s)) bad.insert(s.t);
        // a signal that leaves to the same side twice, on the ground and above, is not told apart by the library
        std::set<int> sides;
        for (const auto* u : {&s.in, &s.out}) for (const auto& v : *u) if (!sides.insert(direction(s.t, v)).second) { vm::count("layouts with two signals at a side"); return; }
    }
    // nor can two signals pass the same border if one of them changes the layer there: its via would touch the other
    std::map<std::tuple<uint64_t, uint64_t, int>, std::pair<int, bool>> borders;
    for (const auto& s : ss)
        for (const auto* u : {&s.in, &s.out}) for (const auto& v : *u) { auto& b = borders[{s.t.x, s.t.y, direction(s.t, v)}]; ++b.first, b.second |= v.z != s.t.z; }
    for (const auto& [p, b] : borders) if (b.first > 1 && b.second) { vm::count("layouts with layers exchanged at a side"); return; }
    std::optional<clyt> made;
    const auto          refused = [&](const tile<glyt>& t, const bool type)
    {
        vm::count("refused layouts");
        if (!vm::require(bad.contains(t), "library:refused", [&] { return what + ": refused at " + nets::str(t); })) return;
        vm::require(!type || kind_of(l, *at[{t.x, t.y, t.z}]) == gate::other, "library:refused-type", [&] { return what + ": type refused at " + nets::str(t); });
    };
    try { made = apply_gate_library<clyt, qca_one_library>(l); }
    catch (const unsupported_gate_type_exception<tile<glyt>>& e) { refused(e.where(), true); return; }
    catch (const unsupported_gate_orientation_exception<tile<glyt>, port_position>& e) { refused(e.where(), false); return; }
    for (const auto& t : bad)
        vm::require(kind_of(l, *at[{t.x, t.y, t.z}]) == gate::majority || kind_of(l, *at[{t.x, t.y, t.z}]) == gate::conjunction || kind_of(l, *at[{t.x, t.y, t.z}]) == gate::disjunction || kind_of(l, *at[{t.x, t.y, t.z}]) == gate::fanout, "library:accepted", [&] { return what + ": accepted " + nets::str(t); });
    if (!bad.empty()) return;
    const auto& c = *made;
    vm::require(c.get_tile_size_x() == 5 && c.get_tile_size_y() == 5 && c.x() == l.x() * 5 + 4 && c.y() == l.y() * 5 + 4, "library:size", [&] { return cat(what, ": ", static_cast<uint64_t>(c.x()), "x", static_cast<uint64_t>(c.y())); });
    vm::require(c.get_layout_name() == l.get_layout_name(), "library:name", what);
    vm::require(c.is_clocking_scheme(l.get_clocking_scheme().name) && c.num_clocks() == l.num_clocks(), "library:clocking", what);
    // by tile
    std::map<std::tuple<uint64_t, uint64_t, uint64_t>, std::map<xy, char>> cells;
    std::size_t seen = 0;
    c.foreach_cell([&](const auto& x)
    {
        ++seen;
        cells[{x.x / 5, x.y / 5, x.z}][{static_cast<int>(x.x % 5), static_cast<int>(x.y % 5)}] = static_cast<char>(c.get_cell_type(x));
        vm::require(c.get_clock_number(x) == l.get_clock_number({x.x / 5, x.y / 5, x.z}), "library:zone", [&] { return what + ": " + nets::str(x); });
    });
    std::size_t accounted = 0;
    for (const auto& s : ss)
    {
        const auto d = [&](const std::string& why) { std::string m = "\n"; for (int z = 0; z < 2; ++z) { const auto& g = cells[{s.t.x, s.t.y, z}]; for (int y = 0; y < 5; ++y) { for (int x = 0; x < 5; ++x) m += g.contains({x, y}) ? g.at({x, y}) : '.'; m += '\n'; } } return cat(what, ": tile ", nets::str(s.t), " ", why, m); };
        const auto k = kind_of(l, s);
        std::set<int> din, dout;
        for (const auto& u : s.in) din.insert(direction(s.t, u));
        for (const auto& u : s.out) dout.insert(direction(s.t, u));
        if (din.contains(-1) || dout.contains(-1)) return;  // not next to each other: no legal layout
        auto mine = cells[{s.t.x, s.t.y, s.t.z}];
        // the ground cells below the ends of a crossing wire belong to that wire
        if (s.t.z == 0)
            if (const auto up = at.find({s.t.x, s.t.y, 1}); up != at.end())
                for (const auto& u : {up->second->in, up->second->out})
                    for (const auto& v : u)
                        if (v.z == 0)
                        {
                            const auto p = PORT[direction(s.t, v)];
                            if (mine.contains(p) && !din.contains(direction(s.t, v)) && !dout.contains(direction(s.t, v))) { mine.erase(p); ++accounted; }
                        }
        accounted += mine.size();
        // ports
        for (int q = 0; q < 4; ++q)
        {
            const bool used = din.contains(q) || dout.contains(q);
            const auto it   = mine.find(PORT[q]);
            if (used) vm::require(it != mine.end() && it->second == 'x', "library:port-missing", [&] { return d(cat("has no cell at port ", q)); });
            else vm::require(it == mine.end() || it->second != 'x' || (k == gate::inverter && (din.empty() || dout.empty())), "library:port-spurious", [&] { return d(cat("has a cell at unused port ", q)); });
        }
        for (const auto& [p, t] : mine) vm::require((p.first != 0 && p.first != 4 && p.second != 0 && p.second != 4) || std::find(PORT, PORT + 4, p) != PORT + 4, "library:border-cell", [&] { return d(cat("has a cell on its border at ", p.first, ",", p.second)); });
        // vias where the layer changes
        if (s.t.z == 1)
            for (int q = 0; q < 4; ++q)
            {
                bool ground = false, any = false;
                for (const auto* u : {&s.in, &s.out}) for (const auto& v : *u) if (direction(s.t, v) == q) any = true, ground = v.z == 0;
                if (!any) continue;
                const cell<clyt> top{s.t.x * 5 + PORT[q].first, s.t.y * 5 + PORT[q].second, 1}, low{top.x, top.y, 0};
                if (ground && !at.contains({s.t.x, s.t.y, 0})) ++accounted;
                const bool via = c.get_cell_mode(top) == qca_technology::cell_mode::VERTICAL;
                vm::require(via == ground, "library:via", [&] { return d(cat("port ", q, via ? " is a via" : " is no via")); });
                if (ground) vm::require(c.get_cell_type(low) == qca_technology::cell_type::NORMAL && c.get_cell_mode(low) == qca_technology::cell_mode::VERTICAL, "library:via-ground", [&] { return d(cat("port ", q, " has no via in the ground layer")); });
                vm::count("layer changes");
            }
        // I/O cells
        std::vector<xy> free, inputs, outputs;
        std::vector<driven> fixed;
        for (const auto& [p, t] : mine)
        {
            if (t == 'i') inputs.push_back(p);
            else if (t == 'o') { outputs.push_back(p); free.push_back(p); }
            else if (t == '0' || t == '1') fixed.push_back({p, t == '1'});
            else free.push_back(p);
        }
        vm::require(inputs.size() == static_cast<std::size_t>(l.is_pi(s.n)) && outputs.size() == static_cast<std::size_t>(l.is_po(s.n)), "library:pins", [&] { return d(cat("has ", inputs.size(), " inputs, ", outputs.size(), " outputs")); });
        for (const auto* v : {&inputs, &outputs}) for (const auto& p : *v) vm::require(c.get_cell_name({s.t.x * 5 + static_cast<uint64_t>(p.first), s.t.y * 5 + static_cast<uint64_t>(p.second), s.t.z}) == l.get_name(s.n), "library:pin-name", [&] { return d("has a misnamed pin"); });
        if (inputs.size() > 1) return;
        if (s.in.empty() && !l.is_pi(s.n)) continue;
        // what it does: for every input, the cells behind the ports are driven
        static std::set<std::string> known;
        std::string key = cat(static_cast<int>(k));
        for (const auto& u : s.in) key += cat("<", direction(s.t, u));
        for (const auto& q : dout) key += cat(">", q);
        for (const auto& [p, t] : mine) key += cat(" ", p.first, p.second, t);
        vm::count(cat("kind ", static_cast<int>(k)).c_str());
        if (!known.insert(key).second) continue;
        vm::distinct(key);
        const auto n = inputs.size() + s.in.size();
        for (uint64_t b = 0; b < 1ull << n; ++b)
        {
            auto f = fixed;
            std::vector<bool> v;
            for (std::size_t i = 0; i < n; ++i)
            {
                v.push_back((b >> i) & 1);
                if (i < inputs.size()) f.push_back({inputs[i], v.back()});
                else { const auto q = direction(s.t, s.in[i - inputs.size()]); f.push_back({{PORT[q].first + STEP[q].first, PORT[q].second + STEP[q].second}, v.back()}); }
            }
            bool want = v[0];
            switch (k)
            {
                case gate::inverter: want = !v[0]; break;
                case gate::conjunction: want = v[0] && v[1]; break;
                case gate::disjunction: want = v[0] || v[1]; break;
                case gate::majority: want = v[0] + v[1] + v[2] > 1; break;
                default: break;
            }
            const auto g = relax(free, f);
            if (!vm::require(g.has_value(), "library:undecided", [&] { return d(cat("is undecided for inputs ", b)); })) break;
            for (const auto& q : dout) vm::require(g->at(PORT[q]) == want, "library:function", [&] { return d(cat("gives ", g->at(PORT[q]), " at port ", q, " for inputs ", b)); });
            for (const auto& p : outputs) vm::require(g->at(p) == want, "library:output", [&] { return d(cat("gives ", g->at(p), " for inputs ", b)); });
            vm::count("relaxations");
        }
    }
    vm::require(accounted == seen, "library:stray-cells", [&] { return cat(what, ": ", seen, " cells, ", accounted, " of which belong to gates"); });
    vm::count("layouts");
    vm::count("tiles", static_cast<long>(ss.size()));
}
}  // namespace
VM_SUITE(random_layouts, 1500, 20000)
{
    grow::options o{};
    o.width = 7, o.height = 7, o.functions = false, o.three = r.chance(25), o.andor = r.chance(97), o.fanout = static_cast<int>(r.range(2, 3)), o.names = true, o.override_zones = false;
    o.only_scheme = r.one_of<const char*>({"COLUMNAR3", "COLUMNAR4", "ROW3", "ROW4", "2DDWAVE3", "2DDWAVE4", "USE", "RES", "ESR", "CFE", "RIPPLE", "SRS", "BANCS"});
    const auto l = grow::layout<glyt>(r, o, "lib");
    const auto what = grow::describe(l);
    vm::note(what);
    judge(l, what);
}
VM_SUITE(synthesized_layouts, 150, 2000)
{
    nets::shape q{};
    q.andor = true, q.max_gates = 9;
    const auto [n, t] = nets::random_network<tec_nt>(r, q);
    vm::note(t.text);
    judge(orthogonal<glyt>(n), t.text);
}
// every gate with every assignment of its signals to sides
VM_SUITE(single_gates, 1500, 20000)
{
    glyt l{{2, 2, 1}, open_clocking<glyt>(num_clks::FOUR), "one"};
    using tl = tile<glyt>;
    const auto zone = [&](const tl& t, const uint8_t z) { l.assign_clock_number({t.x, t.y, 0}, z), l.assign_clock_number({t.x, t.y, 1}, z); };
    std::vector<int> side{0, 1, 2, 3};
    for (int k = 3; k > 0; --k) std::swap(side[k], side[r.below(static_cast<uint64_t>(k) + 1)]);
    const int  kind = static_cast<int>(r.below(9));
    const bool above = kind == 0 && r.chance(50);
    const tl   mid{1, 1, above ? 1 : 0};
    zone(mid, 1);
    const auto at = [&](const int q) { return tl{1 + STEP[q].first, 1 + STEP[q].second, 0}; };
    const int ins = kind == 6 ? 0 : kind < 2 || kind == 3 || kind == 7 || kind == 8 ? 1 : kind == 5 ? 3 : 2, outs = kind == 7 ? 0 : kind == 3 ? 2 : kind == 8 ? 3 : 1;
    std::vector<mockturtle::signal<glyt>> in;
    for (int i = 0; i < ins; ++i) { zone(at(side[i]), 0); in.push_back(l.create_pi(cat("in", i), at(side[i]))); }
    if (above && r.chance(70))
    {
        // something passes below
        for (int i = 2; i < 4; ++i) zone(at(side[i]), i == 2 ? 0 : 2);
        const auto p = l.create_pi("below", at(side[2]));
        const auto w = r.chance(70) ? l.create_buf(p, tl{1, 1, 0}) : l.create_not(p, tl{1, 1, 0});
        l.create_po(w, "below_out", at(side[3]));
    }
    mockturtle::signal<glyt> g{};
    switch (kind)
    {
        case 0: case 3: case 8: g = l.create_buf(in[0], mid); break;
        case 1: g = l.create_not(in[0], mid); break;
        case 2: g = l.create_and(in[0], in[1], mid); break;
        case 4: g = l.create_or(in[0], in[1], mid); break;
        case 5: g = l.create_maj(in[0], in[1], in[2], mid); break;
        case 6: g = l.create_pi("mid", mid); break;
        default: g = l.create_po(in[0], "mid", mid); break;
    }
    if (kind == 7) g = in[0];
    if (kind == 8) { for (int i = 0; i < 3; ++i) { zone(at(side[1 + i]), 2); l.create_po(g, cat("out", i), at(side[1 + i])); } }
    else if (kind != 7) for (int i = 0; i < outs; ++i)
    {
        const auto t = at(side[ins + i]);
        zone(t, 2);
        l.create_po(g, cat("out", i), t);
    }
    const auto what = grow::describe(l);
    vm::note(what);
    judge(l, what);
}
VM_MAIN
