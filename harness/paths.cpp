// Monitors path finding and routing helpers: every path is judged step by step against the rules of the layout, and its
// cost against an exhaustive search over the same rules.
#include "nets.hpp"

#include <fiction/algorithms/path_finding/a_star.hpp>
#include <fiction/algorithms/path_finding/cost.hpp>
#include <fiction/algorithms/path_finding/distance.hpp>
#include <fiction/algorithms/path_finding/distance_map.hpp>
#include <fiction/algorithms/path_finding/enumerate_all_paths.hpp>
#include <fiction/algorithms/path_finding/k_shortest_paths.hpp>
#include <fiction/algorithms/physical_design/orthogonal.hpp>
#include <fiction/layouts/obstruction_layout.hpp>
#include <fiction/types.hpp>
#include <fiction/utils/routing_utils.hpp>

#include <cmath>
#include <queue>

using namespace fiction;

namespace
{
template <typename Lyt> using path = layout_coordinate_path<Lyt>;
template <typename Lyt> using C    = coordinate<Lyt>;

// the steps a path may take from c on its way to t
template <typename Lyt>
std::vector<C<Lyt>> steps(const Lyt& l, const C<Lyt>& c, const C<Lyt>& t, const bool crossings)
{
    std::vector<C<Lyt>> out;
    for (auto n : l.adjacent_coordinates(c))
    {
        if constexpr (is_clocked_layout_v<Lyt>)
        {
            const auto z = [&](const auto& p) { return l.get_clock_number(p); };
            if ((z(c) + 1) % l.num_clocks() != z(n) % l.num_clocks()) continue;
        }
        n.z = 0;
        if constexpr (requires { l.is_obstructed_coordinate(n); })
        {
            if (l.is_obstructed_coordinate(n) && !(n == t))
            {
                if constexpr (is_gate_level_layout_v<Lyt>)
                {
                    // over a wire that is connected at both ends, not along it, if there is room above
                    if (!crossings || l.z() == 0) continue;
                    const auto w = l.get_node(n);
                    if (w <= 1 || !l.is_wire(w) || l.is_pi(w) || l.is_po(w)) continue;
                    if (l.incoming_data_flow(n).empty() || l.outgoing_data_flow(n).empty()) continue;
                    if (c.z != 0)
                    {
                        auto       g   = c;
                        g.z            = 0;
                        const auto in  = l.incoming_data_flow(n);
                        if (std::find(in.begin(), in.end(), g) != in.end()) continue;
                    }
                    n.z = 1;
                    if (l.is_obstructed_coordinate(n)) continue;
                }
                else
                    continue;
            }
        }
        if constexpr (requires { l.is_obstructed_connection(c, n); })
            if (l.is_obstructed_connection(c, n)) continue;
        out.push_back(n);
    }
    return out;
}
using costs = std::function<double(int, int, int, int)>;
template <typename Lyt>
double length(const Lyt& l, const C<Lyt>& s, const C<Lyt>& t, bool crossings, const costs& w)  // < 0: no path
{
    std::map<std::tuple<int, int, int>, double> best;
    auto                                        key = [](const C<Lyt>& c) { return std::tuple<int, int, int>(c.x, c.y, c.z); };
    using item                                      = std::pair<double, C<Lyt>>;
    auto                                                                  cmp = [](const item& a, const item& b) { return a.first > b.first; };
    std::priority_queue<item, std::vector<item>, decltype(cmp)> q(cmp);
    q.push({0, s});
    best[key(s)] = 0;
    while (!q.empty())
    {
        const auto [d, c] = q.top();
        q.pop();
        if (c == t) return d;
        if (d > best[key(c)] + 1e-12) continue;
        for (const auto& n : steps(l, c, t, crossings))
        {
            const auto nd = d + w(c.x, c.y, n.x, n.y);
            auto       it = best.find(key(n));
            if (it == best.end() || nd < it->second - 1e-12) best[key(n)] = nd, q.push({nd, n});
        }
    }
    return -1;
}
template <typename Lyt>
void all(const Lyt& l, const C<Lyt>& c, const C<Lyt>& t, bool crossings, path<Lyt>& p, std::vector<path<Lyt>>& out)
{
    p.push_back(c);
    if (c == t) out.push_back(p);
    else
        for (const auto& n : steps(l, c, t, crossings))
            if (std::find(p.begin(), p.end(), n) == p.end()) all(l, n, t, crossings, p, out);
    p.pop_back();
}
template <typename P>
std::string show(const P& p)
{
    std::string s;
    for (const auto& c : p) s += nets::str(c);
    return s;
}
template <typename Lyt>
void judge(const Lyt& l, const path<Lyt>& p, const C<Lyt>& s, const C<Lyt>& t, bool crossings, const std::string& key, const std::string& what)
{
    if (p.empty()) return;
    vm::require(p.front() == s && p.back() == t, (key + ":ends").c_str(), [&] { return what + " " + show(p); });
    for (std::size_t i = 0; i + 1 < p.size(); ++i)
    {
        const auto n = steps(l, p[i], t, crossings);
        vm::require(std::find(n.begin(), n.end(), p[i + 1]) != n.end(), (key + ":step").c_str(), [&] { return vm::cat(what, " ", show(p), " step ", i); });
        vm::count("path steps judged");
    }
    auto q = p;
    std::sort(q.begin(), q.end());
    vm::require(std::adjacent_find(q.begin(), q.end()) == q.end(), (key + ":loop").c_str(), [&] { return what + " " + show(p); });
}
template <typename Lyt, typename D, typename W>
void astar(const Lyt& l, const C<Lyt>& s, const C<Lyt>& t, bool crossings, const distance_functor<Lyt, D>& d, const cost_functor<Lyt, W>& w, const costs& cw, bool minimal, const std::string& key, const std::string& what)
{
    const auto p   = a_star<path<Lyt>>(l, {s, t}, d, w, {crossings});
    const auto ref = length(l, s, t, crossings, cw);
    vm::require(p.empty() == (ref < 0), (key + ":existence").c_str(), [&] { return vm::cat(what, " ", nets::str(s), " to ", nets::str(t), ": ", show(p)); });
    judge(l, p, s, t, crossings, key, what);
    if (p.empty() || ref < 0) return vm::count("unreachable targets");
    double len = 0;
    for (std::size_t i = 0; i + 1 < p.size(); ++i) len += cw(p[i].x, p[i].y, p[i + 1].x, p[i + 1].y);
    if (minimal) vm::require(std::abs(len - ref) < 1e-6, (key + ":minimal").c_str(), [&] { return vm::cat(what, " ", nets::str(s), " to ", nets::str(t), ": ", show(p), " costs ", len, ", minimum ", ref); });
    vm::count("paths found");
}
const costs ones = [](int, int, int, int) { return 1.0; };
template <typename Lyt>
void enumerate(const Lyt& l, const C<Lyt>& s, const C<Lyt>& t, bool crossings, bool minimal, vm::rng& r, const std::string& key, const std::string& what)
{
    std::vector<path<Lyt>> ref;
    path<Lyt>              p;
    all(l, s, t, crossings, p, ref);
    if (ref.size() > 4000) return vm::count("too many paths");
    auto got = enumerate_all_paths<path<Lyt>>(l, {s, t}, {crossings});
    std::sort(ref.begin(), ref.end());
    auto g = got;
    std::sort(g.begin(), g.end());
    vm::require(std::equal(g.begin(), g.end(), ref.begin(), ref.end()), (key + ":all-paths").c_str(), [&] { return vm::cat(what, " ", nets::str(s), " to ", nets::str(t), ": ", g.size(), " paths instead of ", ref.size()); });
    vm::count("paths enumerated", static_cast<long>(ref.size()));
    const auto k = static_cast<uint32_t>(r.range(1, 12));
    const auto y = yen_k_shortest_paths<path<Lyt>>(l, {s, t}, k, {{crossings}});
    vm::require(y.size() == std::min<std::size_t>(k, ref.size()), (key + ":k-shortest:number").c_str(), [&] { return vm::cat(what, " ", nets::str(s), " to ", nets::str(t), " k ", k, ": ", y.size(), " of ", ref.size()); });
    std::vector<std::size_t> lens;
    for (const auto& q : ref) lens.push_back(q.size());
    std::sort(lens.begin(), lens.end());
    for (std::size_t i = 0; i < y.size(); ++i)
    {
        judge(l, y[i], s, t, crossings, key + ":k-shortest", what);
        if (minimal && i < lens.size())
            vm::require(y[i].size() == lens[i], (key + ":k-shortest:length").c_str(), [&] { return vm::cat(what, " ", nets::str(s), " to ", nets::str(t), " path ", i, " ", show(y[i]), " instead of length ", lens[i]); });
        for (std::size_t j = 0; j < i; ++j) vm::require(y[i] != y[j], (key + ":k-shortest:duplicate").c_str(), what);
    }
    vm::require(path_collection<path<Lyt>>(y).contains(y.empty() ? path<Lyt>{} : y.back()) == !y.empty(), (key + ":contains").c_str(), what);
}
template <typename Lyt>
struct table_distance : distance_functor<Lyt, double>
{
    explicit table_distance(double f) : distance_functor<Lyt, double>([f](const Lyt&, const C<Lyt>& a, const C<Lyt>& b) { return f * std::max(std::abs(static_cast<int>(a.x) - static_cast<int>(b.x)), std::abs(static_cast<int>(a.y) - static_cast<int>(b.y))); }) {}
};
// all the ways of searching one layout
template <typename Lyt>
void search(const Lyt& l, vm::rng& r, const C<Lyt>& s, const C<Lyt>& t, bool crossings, bool manhattan, bool wave, bool few, const std::string& key, const std::string& what)
{
    using uc = unit_cost_functor<Lyt, uint8_t>;
    vm::note(vm::cat(what, " ", nets::str(s), " to ", nets::str(t)));
    switch (r.below(7))
    {
        case 0: astar(l, s, t, crossings, manhattan_distance_functor<Lyt, uint64_t>{}, uc{}, ones, manhattan, key, what + " manhattan"); break;
        case 1: astar(l, s, t, crossings, chebyshev_distance_functor<Lyt, uint64_t>{}, uc{}, ones, true, key, what + " chebyshev"); break;
        case 2: astar(l, s, t, crossings, euclidean_distance_functor<Lyt, double>{}, uc{}, ones, manhattan, key, what + " euclidean"); break;
        case 3:
        {
            const auto m = initialize_distance_map<Lyt, uint64_t>(l, chebyshev_distance_functor<Lyt, uint64_t>{});
            astar(l, s, t, crossings, distance_map_functor<Lyt, uint64_t>{m}, uc{}, ones, true, key, what + " map");
            break;
        }
        case 4:
        {
            const auto m = initialize_sparse_distance_map<Lyt, uint64_t>(l, chebyshev_distance_functor<Lyt, uint64_t>{});
            astar(l, s, t, crossings, sparse_distance_map_functor<Lyt, uint64_t>{m}, uc{}, ones, true, key, what + " sparse map");
            break;
        }
        case 5:
        {
            const smart_distance_cache_functor<Lyt, uint64_t> f{l, [](const auto& y, const auto& a, const auto& b) { return chebyshev_distance<Lyt, uint64_t>(y, a, b); }};
            astar(l, s, t, crossings, f, uc{}, ones, true, key, what + " cache");
            astar(l, t, s, crossings, f, uc{}, ones, true, key, what + " cache");
            astar(l, s, t, crossings, f, uc{}, ones, true, key, what + " cache");
            break;
        }
        default:
        {
            const auto  a = r.range(0, 9), b = r.range(0, 9);
            const costs w = [a, b](int x1, int y1, int x2, int y2) { return 1.0 + static_cast<double>((x1 * a + y1 * b + x2 * 3 + y2 * 5) % 7); };
            const cost_functor<Lyt, double> f{[&w](const C<Lyt>& p, const C<Lyt>& q) { return w(p.x, p.y, q.x, q.y); }};
            astar(l, s, t, crossings, table_distance<Lyt>{r.chance(50) ? 1.0 : 0.0}, f, w, true, key, what + " weighted");
            astar(l, s, t, crossings, manhattan_distance_functor<Lyt, uint64_t>{}, random_cost_functor<Lyt, double>{}, ones, false, key, what + " random");
        }
    }
    if (wave) astar(l, s, t, crossings, twoddwave_distance_functor<Lyt, uint64_t>{}, uc{}, ones, true, key, what + " wave");
    if (!crossings && manhattan)
    {
        const auto ref = length(l, s, t, false, ones);
        vm::require(a_star_distance<Lyt, uint64_t>(l, s, t) == (ref < 0 ? std::numeric_limits<uint64_t>::max() : static_cast<uint64_t>(ref)), (key + ":distance").c_str(), what);
        const auto d = a_star_distance_functor<Lyt, double>{}(l, s, t);
        vm::require(ref < 0 ? std::isinf(d) : d == ref, (key + ":distance").c_str(), what);
    }
    if (few) enumerate(l, s, t, crossings, manhattan, r, key, what);
}
template <typename Lyt>
C<Lyt> any(const Lyt& l, vm::rng& r, int z = 0) { return C<Lyt>{r.below(l.x() + 1), r.below(l.y() + 1), r.below(static_cast<uint64_t>(z) + 1)}; }
template <typename Lyt>
void block(obstruction_layout<Lyt>& l, vm::rng& r, std::string& what)
{
    const auto n = r.below((l.x() + 1) * (l.y() + 1) / 2 + 1);
    for (uint64_t i = 0; i < n; ++i)
    {
        const auto c = any(l, r);
        if (r.chance(60)) l.obstruct_coordinate(c), what += " -" + nets::str(c);
        else
        {
            const auto a = l.adjacent_coordinates(c);
            if (a.empty()) continue;
            auto it = a.begin();
            std::advance(it, r.below(a.size()));
            l.obstruct_connection(c, *it);
            what += vm::cat(" -", nets::str(c), nets::str(*it));
        }
        if (r.chance(15))
        {
            const auto d = any(l, r);
            l.clear_obstructed_coordinate(d);
            what += " +" + nets::str(d);
        }
    }
}
template <typename Lyt>
std::vector<bool> blocked(const obstruction_layout<Lyt>& l)
{
    std::vector<bool> b;
    l.foreach_coordinate([&](const auto& c) {
        b.push_back(l.is_obstructed_coordinate(c));
        for (const auto& n : l.adjacent_coordinates(c)) b.push_back(l.is_obstructed_connection(c, n));
    });
    return b;
}
template <typename Lyt>
void plain(vm::rng& r, const char* type, bool manhattan)
{
    const bool              few = r.chance(60);
    const auto              lim = few ? 3 : 7;
    Lyt                     l{{r.below(lim + 1), r.below(lim + 1), r.below(2)}};
    obstruction_layout<Lyt> o{l};
    auto                    what = vm::cat(type, " ", l.x() + 1, "x", l.y() + 1, "x", l.z() + 1);
    if (r.chance(80)) block(o, r, what);
    const auto before = blocked(o);
    for (int i = 0; i < 3; ++i) search(o, r, any(o, r), any(o, r), false, manhattan, false, few, "plain", what);
    vm::require(blocked(o) == before, "obstructions-changed", what);
    if constexpr (std::is_same_v<Lyt, cartesian_layout<>>)
        if (r.chance(20)) search(l, r, any(l, r), any(l, r), false, manhattan, false, few, "bare", what);
    vm::distinct(what);
    vm::sample(what);
}
template <typename Lyt>
void clocked(vm::rng& r, const char* type, bool manhattan)
{
    const bool few = r.chance(60);
    const auto lim = few ? 4 : 8;
    const char* names[] = {clock_name::TWODDWAVE, clock_name::USE, clock_name::RES, clock_name::ESR, clock_name::ROW, clock_name::COLUMNAR, clock_name::CFE, clock_name::SRS, clock_name::BANCS};
    const bool hex = !manhattan;
    const auto nm  = names[r.below(9)];
    Lyt        l{{r.below(lim + 1), r.below(lim + 1), r.below(2)}};
    if (r.chance(80)) { if (const auto s = get_clocking_scheme<Lyt>(nm)) l.replace_clocking_scheme(*s); }
    else
        for (uint64_t x = 0; x <= l.x(); ++x)
            for (uint64_t y = 0; y <= l.y(); ++y) l.assign_clock_number({x, y}, static_cast<typename Lyt::clock_number_t>(r.below(4)));
    obstruction_layout<Lyt> o{l};
    auto                    what = vm::cat(type, " ", l.x() + 1, "x", l.y() + 1, " ", l.get_clocking_scheme().name);
    if (r.chance(60)) block(o, r, what);
    const auto before = blocked(o);
    const bool wave = l.is_clocking_scheme(clock_name::TWODDWAVE) && !hex;
    for (int i = 0; i < 3; ++i) search(o, r, any(o, r), any(o, r), false, manhattan, wave, few, "clocked", what);
    vm::require(blocked(o) == before, "obstructions-changed", what);
    vm::distinct(what);
}
}  // namespace

#if PART == 1
VM_SUITE(cartesian, 60, 3000) { plain<cartesian_layout<>>(r, "cartesian", true); }
VM_SUITE(cartesian_cube, 20, 1000) { plain<cartesian_layout<cube::coord_t>>(r, "cartesian-cube", true); }
VM_SUITE(hexagonal, 30, 1500) { plain<hexagonal_layout<offset::ucoord_t, even_row_hex>>(r, "hexagonal", false); }
VM_SUITE(shifted, 30, 1500) { plain<shifted_cartesian_layout<offset::ucoord_t, odd_column_cartesian>>(r, "shifted", false); }
#elif PART == 2
VM_SUITE(clocked_cartesian, 60, 3000) { clocked<clocked_layout<cartesian_layout<>>>(r, "clocked", true); }
VM_SUITE(clocked_hexagonal, 30, 1500) { clocked<clocked_layout<hexagonal_layout<offset::ucoord_t, even_row_hex>>>(r, "clocked-hexagonal", false); }
#else
// finished gate-level layouts with room around them
VM_SUITE(gate_level, 60, 3000)
{
    using lyt = cart_gate_clk_lyt;
    nets::shape sh;
    sh.max_pi    = 3;
    sh.max_gates = 5;
    auto [n, t]  = nets::random_network(r, sh);
    auto l       = orthogonal<lyt>(n);
    l.resize({l.x() + r.below(3), l.y() + r.below(3), 1});
    obstruction_layout<lyt> o{l};
    auto                    what = t.text;
    if (r.chance(40)) block(o, r, what);
    const auto before = blocked(o);
    for (int i = 0; i < 4; ++i) search(o, r, any(o, r, 0), any(o, r), r.chance(70), true, true, r.chance(50), "gate-level", what);
    vm::require(blocked(o) == before, "obstructions-changed", what);
    vm::distinct(what);
    vm::sample(what);
}
// routing objectives are the connections between gates; clearing the routing leaves the gates alone
VM_SUITE(routing, 60, 3000)
{
    using lyt = cart_gate_clk_lyt;
    nets::shape sh;
    sh.max_pi    = 4;
    sh.max_gates = 8;
    sh.repeated  = false;
    auto [n, t]  = nets::random_network(r, sh);
    auto l       = orthogonal<lyt>(n);
    vm::note(t.text);
    const auto wire = [&](const auto& c) { const auto w = l.get_node(c); return l.is_wire(w) && !l.is_pi(w) && !l.is_po(w) && l.outgoing_data_flow(c).size() < 2; };
    using tl = tile<lyt>;
    std::vector<std::pair<tl, tl>> ref;
    std::vector<tl>                kept, wires;
    l.foreach_node([&](const auto& v) {
        if (l.is_constant(v)) return;
        const auto c = l.get_tile(v);
        if (wire(c)) return wires.push_back(c);
        kept.push_back(c);
        for (auto in : l.incoming_data_flow(c))
        {
            while (wire(in)) in = l.incoming_data_flow(in).at(0);
            ref.push_back({in, c});
        }
    });
    std::vector<std::pair<tl, tl>> got;
    for (const auto& o : extract_routing_objectives(l)) got.push_back({o.source, o.target});
    std::sort(ref.begin(), ref.end());
    std::sort(got.begin(), got.end());
    vm::require(ref == got, "routing-objectives", [&] { std::string s = t.text + " got"; for (auto& [a, b] : got) s += " " + nets::str(a) + nets::str(b); s += " expected"; for (auto& [a, b] : ref) s += " " + nets::str(a) + nets::str(b); return s; });
    vm::count("routing objectives", static_cast<long>(got.size()));
    std::map<tl, kitty::dynamic_truth_table> f;
    for (const auto& c : kept) f[c] = l.node_function(l.get_node(c));
    const std::size_t pis = l.num_pis(), pos = l.num_pos(), gates = l.num_gates();
    clear_routing(l);
    for (const auto& c : wires) vm::require(l.is_empty_tile(c), "clear-routing:wire-left", [&] { return t.text + nets::str(c); });
    for (const auto& c : kept)
        vm::require(!l.is_empty_tile(c) && l.incoming_data_flow(c).empty() && l.outgoing_data_flow(c).empty() && l.node_function(l.get_node(c)) == f[c], "clear-routing:gate", [&] { return vm::cat(t.text, nets::str(c), l.is_empty_tile(c), l.incoming_data_flow(c).size(), l.outgoing_data_flow(c).size(), kitty::to_hex(l.node_function(l.get_node(c))), " ", kitty::to_hex(f[c])); });
    vm::require(l.num_pis() == pis && l.num_pos() == pos && l.num_gates() == gates && l.num_crossings() == 0, "clear-routing:counts", t.text);
    // one of the connections again, by hand
    if (!ref.empty())
    {
        const auto [a, b] = ref[r.below(ref.size())];
        const obstruction_layout<lyt> o{l};
        const auto                    p = a_star<path<obstruction_layout<lyt>>>(o, {a, b});
        if (!p.empty())
        {
            route_path(l, p);
            auto c = b;
            for (std::size_t i = p.size(); i-- > 1;)
            {
                const auto in = l.incoming_data_flow(c);
                if (!vm::require(in.size() == 1 && in[0] == p[i - 1], "route-path:connection", [&] { return t.text + " " + show(p); })) break;
                if (i < p.size() - 1) vm::require(l.is_wire_tile(p[i]), "route-path:wire", t.text);
                c = in[0];
            }
            vm::require(l.num_wires() == (p.size() - 2) + [&] { std::size_t k = 0; for (const auto& q : kept) k += l.is_wire(l.get_node(q)); return k; }(), "route-path:wires", t.text);
            vm::count("connections routed again");
        }
    }
    vm::distinct(t.text);
}
VM_SUITE(distances, 400, 20000)
{
    using lyt = cartesian_layout<cube::coord_t>;
    const lyt  l{{1, 1, 0}};
    const auto big = r.chance(20);
    auto       v   = [&] { return big ? static_cast<int32_t>(r.range(-2000000, 2000000)) : static_cast<int32_t>(r.range(-9, 9)); };
    const cube::coord_t a{v(), v(), static_cast<int32_t>(r.range(-1, 1))}, b{v(), v(), static_cast<int32_t>(r.range(-1, 1))};
    const int64_t dx = std::abs(static_cast<int64_t>(a.x) - b.x), dy = std::abs(static_cast<int64_t>(a.y) - b.y);
    const auto    what = vm::cat("(", a.x, ",", a.y, ")(", b.x, ",", b.y, ")");
    vm::require(manhattan_distance<lyt, int64_t>(l, a, b) == dx + dy, "manhattan-distance", what);
    vm::require(chebyshev_distance<lyt, int64_t>(l, a, b) == std::max(dx, dy), "chebyshev-distance", what);
    vm::require(squared_euclidean_distance<lyt, int64_t>(l, a, b) == dx * dx + dy * dy, "squared-distance", what);
    vm::require(std::abs(euclidean_distance<lyt, double>(l, a, b) - std::sqrt(static_cast<double>(dx * dx + dy * dy))) < 1e-6, "euclidean-distance", what);
    vm::require(twoddwave_distance<lyt, int64_t>(l, a, b) == (a.x <= b.x && a.y <= b.y ? dx + dy : static_cast<int64_t>(std::numeric_limits<uint32_t>::max())), "wave-distance", what);
    vm::distinct(what);
}
#endif
VM_MAIN
