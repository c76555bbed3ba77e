// Monitors the coordinate topologies (Cartesian, hexagonal, shifted Cartesian) against plain plane geometry.
#include "vm.hpp"

#include <fiction/layouts/cartesian_layout.hpp>
#include <fiction/layouts/coordinates.hpp>
#include <fiction/layouts/hexagonal_layout.hpp>
#include <fiction/layouts/shifted_cartesian_layout.hpp>
#include <fiction/layouts/tile_based_layout.hpp>
#include <fiction/layouts/clocked_layout.hpp>

#include <algorithm>
#include <array>
#include <set>

using namespace fiction;

namespace
{
struct pt
{
    int64_t x, y, z;
    bool    operator==(const pt&) const = default;
    auto    operator<=>(const pt&) const = default;
};
template <typename C>
pt P(const C& c)
{
    return {static_cast<int64_t>(c.x), static_cast<int64_t>(c.y), static_cast<int64_t>(c.z)};
}
std::string S(const pt& p) { return vm::cat("(", p.x, ",", p.y, ",", p.z, ")"); }
enum dirs { N, NE, E, SE, Sd, SW, W, NW };
constexpr std::array<const char*, 8> names{"north", "north_east", "east", "south_east", "south", "south_west", "west", "north_west"};
enum kind { cart, odd_row, even_row, odd_col, even_col };
bool inside(const pt& p, const pt& d) { return p.x >= 0 && p.y >= 0 && p.z >= 0 && p.x <= d.x && p.y <= d.y && p.z <= d.z; }
// the position reached from p in direction k, or p itself if there is none
pt step(kind t, const pt& p, int k, const pt& dim)
{
    static constexpr std::array<int, 8> DX{0, 1, 1, 1, 0, -1, -1, -1}, DY{-1, -1, 0, 1, 1, 1, 0, -1};
    pt q = p;
    if (t == cart || k % 2 == 0)
    {
        q.x += DX[k];
        q.y += DY[k];
    }
    else if (t == odd_row || t == even_row)
    {
        const auto shifted = [&](int64_t y) { return ((y & 1) == 1) == (t == odd_row) ? 1 : 0; };
        // centres lie at 2x + shift; a diagonal neighbour's centre is one half tile to the side
        q.y += DY[k];
        const int64_t cx = 2 * p.x + shifted(p.y) + DX[k];
        q.x = (cx - shifted(q.y)) < 0 ? -1 : (cx - shifted(q.y)) / 2;
    }
    else
    {
        const auto shifted = [&](int64_t x) { return ((x & 1) == 1) == (t == odd_col) ? 1 : 0; };
        q.x += DX[k];
        if (q.x < 0) return p;
        const int64_t cy = 2 * p.y + shifted(p.x) + DY[k];
        q.y = (cy - shifted(q.x)) < 0 ? -1 : (cy - shifted(q.x)) / 2;
    }
    return inside(q, dim) ? q : p;
}
template <typename L, typename C>
C move(const L& l, const C& c, int k)
{
    switch (k)
    {
        case N: return l.north(c);
        case NE: return l.north_east(c);
        case E: return l.east(c);
        case SE: return l.south_east(c);
        case Sd: return l.south(c);
        case SW: return l.south_west(c);
        case W: return l.west(c);
        default: return l.north_west(c);
    }
}
// everything the interface says about one position
template <typename L>
void position(const L& l, kind t, const pt& dim, const pt& p, const std::string& what, const std::vector<pt>& others)
{
    using C       = typename L::coordinate;
    const auto mk = [](const pt& q) { return C{q.x, q.y, q.z}; };
    const auto c  = mk(p);
    const auto D  = [&](const std::string& m) { return vm::cat(what, " at ", S(p), ": ", m); };
    std::array<pt, 8> to{};
    for (int k = 0; k < 8; ++k)
    {
        const auto got = move(l, c, k);
        to[k]          = step(t, p, k, dim);
        vm::require(P(got) == to[k] && !got.is_dead(), "topology:cardinal", [&] { return D(vm::cat(names[k], " is ", S(P(got)), " instead of ", S(to[k]), got.is_dead() ? " (dead)" : "")); });
    }
    const pt up{p.x, p.y, std::min(p.z + 1, dim.z)}, dn{p.x, p.y, std::max<int64_t>(p.z - 1, 0)};
    vm::require(P(l.above(c)) == up && !l.above(c).is_dead() && P(l.below(c)) == dn, "topology:above-below", [&] { return D("above/below"); });
    // borders
    vm::require(l.is_at_northern_border(c) == (p.y == 0) && l.is_at_southern_border(c) == (p.y == dim.y) && l.is_at_western_border(c) == (p.x == 0) &&
                    l.is_at_eastern_border(c) == (p.x == dim.x) && l.is_at_any_border(c) == (p.x == 0 || p.y == 0 || p.x == dim.x || p.y == dim.y),
                "topology:border-test", [&] { return D("border tests"); });
    vm::require(P(l.northern_border_of(c)) == pt{p.x, 0, p.z} && P(l.southern_border_of(c)) == pt{p.x, dim.y, p.z} && P(l.western_border_of(c)) == pt{0, p.y, p.z} &&
                    P(l.eastern_border_of(c)) == pt{dim.x, p.y, p.z},
                "topology:border-of", [&] { return D("border projections"); });
    vm::require(l.is_ground_layer(c) == (p.z == 0) && l.is_crossing_layer(c) == (p.z > 0) && l.is_within_bounds(c), "topology:layer", [&] { return D("layer tests"); });
    // adjacency
    std::set<pt> want, got;
    for (int k = 0; k < 8; ++k)
    {
        const bool face = t == cart ? k % 2 == 0 : (t == odd_row || t == even_row) ? (k != N && k != Sd) : (k != E && k != W);
        if (face && to[k] != p) want.insert(to[k]);
    }
    const auto adj = l.adjacent_coordinates(c);
    for (const auto& a : adj) got.insert(P(a));
    std::set<pt> each;
    std::size_t  n = 0;
    l.foreach_adjacent_coordinate(c, [&](const auto& a) { each.insert(P(a)); ++n; });
    vm::require(got == want && adj.size() == want.size() && each == want && n == want.size(), "topology:adjacent", [&] { return D(vm::cat("adjacent coordinates: ", adj.size(), " instead of ", want.size())); });
    for (const auto& a : adj)
    {
        const auto back = l.adjacent_coordinates(a);
        vm::require(std::find(back.begin(), back.end(), c) != back.end(), "topology:adjacency-symmetric", [&] { return D(vm::cat("not adjacent to ", S(P(a)), " from there")); });
    }
    // opposite pairs
    std::set<std::set<pt>> wantp, gotp;
    const auto             pair = [&](int a, int b) { if (to[a] != p && to[b] != p) wantp.insert(std::set<pt>{to[a], to[b]}); };
    if (t == cart) { pair(N, Sd); pair(E, W); }
    else
    {
        if (t == odd_row || t == even_row) pair(E, W); else pair(N, Sd);
        pair(NE, SW);
        pair(NW, SE);
    }
    const auto opp = l.adjacent_opposite_coordinates(c);
    for (const auto& [a, b] : opp) gotp.insert(std::set<pt>{P(a), P(b)});
    vm::require(gotp == wantp && opp.size() == wantp.size(), "topology:opposite", [&] { return D(vm::cat("opposite pairs: ", opp.size(), " instead of ", wantp.size())); });
    // relations to other positions
    for (const auto& q : others)
    {
        const auto e  = mk(q);
        const auto is = [&](int k) { return q != p && to[k] == q; };
        vm::require(l.is_north_of(c, e) == is(N) && l.is_east_of(c, e) == is(E) && l.is_south_of(c, e) == is(Sd) && l.is_west_of(c, e) == is(W), "topology:is-direction-of", [&] { return D("direction of " + S(q)); });
        vm::require(l.is_adjacent_of(c, e) == want.contains(q), "topology:is-adjacent-of", [&] { return D("adjacency of " + S(q)); });
        vm::require(l.is_above(c, e) == (q != p && q == up) && l.is_below(c, e) == (q != p && q == dn), "topology:is-above-below", [&] { return D("elevation of " + S(q)); });
        const bool col = q.z == p.z && q.x == p.x, row = q.z == p.z && q.y == p.y;
        vm::require(l.is_northwards_of(c, e) == (col && q.y < p.y) && l.is_southwards_of(c, e) == (col && q.y > p.y) && l.is_eastwards_of(c, e) == (row && q.x > p.x) && l.is_westwards_of(c, e) == (row && q.x < p.x),
                    "topology:wards", [&] { return D("direction towards " + S(q)); });
        bool elev = want.contains(q);
        for (const auto& z : {up, dn})
        {
            for (int k = 0; k < 8; ++k)
            {
                const bool face = t == cart ? k % 2 == 0 : (t == odd_row || t == even_row) ? (k != N && k != Sd) : (k != E && k != W);
                const auto s    = step(t, z, k, dim);
                if (face && s != z && s == q) elev = true;
            }
        }
        vm::require(l.is_adjacent_elevation_of(c, e) == elev, "topology:adjacent-elevation", [&] { return D("adjacency across layers of " + S(q)); });
        vm::count("relations checked");
    }
    vm::count("positions checked");
}
template <typename L>
void iterate(const L& l, const pt& dim, const std::string& what, bool siqad)
{
    using C = typename L::coordinate;
    std::vector<pt> want, ground;
    if (siqad)
    {
        for (int64_t y = 0; y <= dim.y; ++y)
            for (int64_t z = 0; z <= dim.z; ++z)
                for (int64_t x = 0; x <= dim.x; ++x) want.push_back({x, y, z});
    }
    else
    {
        for (int64_t z = 0; z <= dim.z; ++z)
            for (int64_t y = 0; y <= dim.y; ++y)
                for (int64_t x = 0; x <= dim.x; ++x) want.push_back({x, y, z});
    }
    std::vector<pt> a, b, g, h;
    for (const auto& c : l.coordinates())
    {
        a.push_back(P(c));
        if (a.size() > want.size() + 2) break;
    }
    l.foreach_coordinate([&](const auto& c) { b.push_back(P(c)); });
    for (const auto& p : want) if (p.z == 0) ground.push_back(p);
    vm::require(a == want && b == want, "topology:coordinates", [&] { return vm::cat(what, ": ", a.size(), "/", b.size(), " coordinates instead of ", want.size()); });
    if (!siqad)
    {
        for (const auto& c : l.ground_coordinates()) g.push_back(P(c));
        l.foreach_ground_coordinate([&](const auto& c) { h.push_back(P(c)); });
        vm::require(g == ground && h == ground, "topology:ground-coordinates", [&] { return vm::cat(what, ": ", g.size(), "/", h.size(), " ground coordinates instead of ", ground.size()); });
        // sub-ranges
        if (want.size() > 3)
        {
            const auto i = want.size() / 3, j = want.size() - 1;
            std::vector<pt> s;
            l.foreach_coordinate([&](const auto& c) { s.push_back(P(c)); }, C{want[i].x, want[i].y, want[i].z}, C{want[j].x, want[j].y, want[j].z});
            vm::require(s == std::vector<pt>(want.begin() + static_cast<int64_t>(i), want.begin() + static_cast<int64_t>(j)), "topology:sub-range", what);
        }
        const auto i = ground.size() / 2;
        std::vector<pt> s;
        for (const auto& c : l.ground_coordinates(C{ground[i].x, ground[i].y, ground[i].z})) s.push_back(P(c));
        vm::require(s == std::vector<pt>(ground.begin() + static_cast<int64_t>(i), ground.end()), "topology:ground-sub-range", what);
    }
}
template <typename L>
void run(vm::rng& r, kind t, const char* name, bool siqad = false)
{
    using C = typename L::coordinate;
    pt d{r.range(0, 9), r.range(0, 9), siqad ? 1 : r.range(0, 1)};
    if (r.chance(10)) d.x = 0;
    if (r.chance(10)) d.y = 0;
    L          l{C{d.x, d.y, d.z}};
    const auto what = vm::cat(name, " ", S(d));
    vm::note(what);
    vm::require(pt{static_cast<int64_t>(l.x()), static_cast<int64_t>(l.y()), static_cast<int64_t>(l.z())} == d, "topology:dimension", what);
    vm::require(static_cast<int64_t>(l.area()) == (d.x + 1) * (d.y + 1) * (siqad ? 2 : 1), "topology:area", [&] { return vm::cat(what, " area ", l.area()); });
    iterate(l, d, what, siqad);
    std::vector<pt> all;
    for (int64_t z = 0; z <= d.z; ++z)
        for (int64_t y = 0; y <= d.y; ++y)
            for (int64_t x = 0; x <= d.x; ++x) all.push_back({x, y, z});
    for (const auto& p : all)
    {
        std::vector<pt> o;
        for (const auto& q : all)
            if (std::abs(q.x - p.x) <= 2 && std::abs(q.y - p.y) <= 2) o.push_back(q);
        o.push_back(all[r.below(all.size())]);
        position(l, t, d, p, what, o);
    }
    // copies share, clones do not
    auto shared = l;
    auto clone  = l.clone();
    const pt e{r.range(0, 9), r.range(0, 9), siqad ? 1 : r.range(0, 1)};
    shared.resize(C{e.x, e.y, e.z});
    vm::require(static_cast<int64_t>(l.x()) == e.x && static_cast<int64_t>(l.y()) == e.y, "topology:copy-shares", what);
    vm::require(static_cast<int64_t>(clone.x()) == d.x && static_cast<int64_t>(clone.y()) == d.y && static_cast<int64_t>(clone.z()) == d.z, "topology:clone-independent", what);
    iterate(l, e, vm::cat(what, " resized to ", S(e)), siqad);
    clone.resize(C{d.x + 1, d.y, d.z});
    vm::require(static_cast<int64_t>(l.x()) == e.x, "topology:clone-independent", what);
    // far away from the origin: only the neighbourhood of a few positions
    const pt big{r.range(1000, (1 << 30) - 2), r.range(1000, (1 << 30) - 2), siqad ? 1 : r.range(0, 1)};
    L        far{C{big.x, big.y, big.z}};
    for (int i = 0; i < 6; ++i)
    {
        pt p{r.one_of<int64_t>({0, 1, big.x, big.x - 1, r.range(0, big.x)}), r.one_of<int64_t>({0, 1, big.y, big.y - 1, r.range(0, big.y)}), r.range(0, big.z)};
        std::vector<pt> o;
        for (int64_t dy = -2; dy <= 2; ++dy)
            for (int64_t dx = -2; dx <= 2; ++dx)
                for (int64_t z = 0; z <= big.z; ++z)
                    if (inside({p.x + dx, p.y + dy, z}, big)) o.push_back({p.x + dx, p.y + dy, z});
        position(far, t, big, p, vm::cat(name, " ", S(big)), o);
        // just outside of the layout
        const pt x1{big.x + 1 + static_cast<int64_t>(r.below(3)), p.y, p.z}, y1{p.x, big.y + 1, p.z};
        vm::require(!far.is_within_bounds(C{x1.x, x1.y, x1.z}) && !far.is_within_bounds(C{y1.x, y1.y, y1.z}), "topology:outside", [&] { return vm::cat(name, " ", S(big), " contains ", S(x1), " or ", S(y1)); });
    }
    vm::distinct(what + S(e) + S(big));
    vm::sample(what);
}
template <typename Lyt>
using tiles = tile_based_layout<Lyt>;
}  // namespace

VM_SUITE(cartesian, 20, 400)
{
    run<cartesian_layout<offset::ucoord_t>>(r, cart, "cartesian");
    run<cartesian_layout<cube::coord_t>>(r, cart, "cartesian/cube");
    run<cartesian_layout<siqad::coord_t>>(r, cart, "cartesian/siqad", true);
    run<clocked_layout<cartesian_layout<offset::ucoord_t>>>(r, cart, "clocked cartesian");
}
VM_SUITE(hexagonal, 20, 400)
{
    run<hexagonal_layout<offset::ucoord_t, odd_row_hex>>(r, odd_row, "odd row hex");
    run<hexagonal_layout<offset::ucoord_t, even_row_hex>>(r, even_row, "even row hex");
    run<hexagonal_layout<offset::ucoord_t, odd_column_hex>>(r, odd_col, "odd column hex");
    run<hexagonal_layout<offset::ucoord_t, even_column_hex>>(r, even_col, "even column hex");
}
VM_SUITE(shifted, 20, 400)
{
    run<shifted_cartesian_layout<offset::ucoord_t, odd_row_cartesian>>(r, odd_row, "odd row shifted");
    run<shifted_cartesian_layout<offset::ucoord_t, even_row_cartesian>>(r, even_row, "even row shifted");
    run<shifted_cartesian_layout<offset::ucoord_t, odd_column_cartesian>>(r, odd_col, "odd column shifted");
    run<shifted_cartesian_layout<offset::ucoord_t, even_column_cartesian>>(r, even_col, "even column shifted");
}
// cube coordinates of hexagonal tiles: both conversions are inverse, and neighbours differ by a unit step
template <typename A>
void cubes(vm::rng& r, kind t, const char* name)
{
    using L = hexagonal_layout<offset::ucoord_t, A>;
    const L l{offset::ucoord_t{(1 << 30), (1 << 30)}};
    for (int i = 0; i < 40; ++i)
    {
        const pt p{r.chance(50) ? r.range(0, 12) : r.range(0, 1 << 29), r.chance(50) ? r.range(0, 12) : r.range(0, 1 << 29), 0};
        const offset::ucoord_t c{p.x, p.y};
        const auto             q = l.to_cube_coordinate(c);
        const auto d = [&] { return vm::cat(name, " ", S(p), " -> ", q.x, ",", q.y, ",", q.z); };
        vm::require(static_cast<int64_t>(q.x) + q.y + q.z == 0, "topology:cube-plane", d);
        vm::require(l.to_offset_coordinate(q) == c, "topology:cube-round-trip", d);
        for (int k = 0; k < 8; ++k)
        {
            const bool face = (t == odd_row || t == even_row) ? (k != N && k != Sd) : (k != E && k != W);
            const auto s    = step(t, p, k, {1 << 30, 1 << 30, 0});
            if (!face || s == p) continue;
            const auto w    = l.to_cube_coordinate(offset::ucoord_t{s.x, s.y});
            const auto dist = (std::abs(w.x - q.x) + std::abs(w.y - q.y) + std::abs(w.z - q.z)) / 2;
            vm::require(dist == 1, "topology:cube-distance", d);
        }
        vm::distinct(vm::cat(name, S(p)));
        vm::count("cube conversions");
    }
}
VM_SUITE(cube_coordinates, 40, 2000)
{
    cubes<odd_row_hex>(r, odd_row, "odd row");
    cubes<even_row_hex>(r, even_row, "even row");
    cubes<odd_column_hex>(r, odd_col, "odd column");
    cubes<even_column_hex>(r, even_col, "even column");
}
VM_MAIN
