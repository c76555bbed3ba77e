#include "vm.hpp"

#include <fiction/layouts/coordinates.hpp>

#include <algorithm>
#include <tuple>
#include <unordered_set>

using namespace fiction;
using off = offset::ucoord_t;
using cub = cube::coord_t;
using siq = siqad::coord_t;

namespace
{
constexpr int64_t M31 = 2147483647;

off rnd_off(vm::rng& r)
{
    return off{r.boundary<int64_t>(0, M31), r.boundary<int64_t>(0, M31), r.below(2)};
}
// small values collide often, which is what ordering and hashing need
off small_off(vm::rng& r)
{
    return off{r.below(4), r.below(4), r.below(2)};
}
cub rnd_cub(vm::rng& r, int64_t lim = M31)
{
    return cub{r.boundary<int64_t>(-lim, lim), r.boundary<int64_t>(-lim, lim), r.boundary<int64_t>(-lim, lim)};
}
cub small_cub(vm::rng& r)
{
    return cub{r.range(-2, 2), r.range(-2, 2), r.range(-2, 2)};
}
siq rnd_siq(vm::rng& r, int64_t lim = (int64_t{1} << 30) - 1)
{
    return siq{r.boundary<int64_t>(-lim, lim), r.boundary<int64_t>(-lim, lim), r.below(2)};
}
siq small_siq(vm::rng& r)
{
    return siq{r.range(-2, 2), r.range(-2, 2), r.below(2)};
}
using key = std::tuple<int64_t, int64_t, int64_t>;
key ref_key(const off& c) { return {c.z, c.y, c.x}; }
key ref_key(const cub& c) { return {c.z, c.y, c.x}; }
key ref_key(const siq& c) { return {c.y, c.z, c.x}; }

template <typename C>
std::string s(const C& c)
{
    return vm::cat(+c.d, "|", static_cast<int64_t>(c.x), ",", static_cast<int64_t>(c.y), ",", static_cast<int64_t>(c.z));
}

template <typename C>
void check_order(const C& a, const C& b, const char* t)
{
    const auto ka = ref_key(a), kb = ref_key(b);
    const auto d  = [&] { return vm::cat(t, " a=", s(a), " b=", s(b)); };
    vm::require((a < b) == (ka < kb), "order:less", d);
    vm::require((a > b) == (ka > kb), "order:greater", d);
    vm::require((a <= b) == (ka <= kb), "order:less-equal", d);
    vm::require((a >= b) == (ka >= kb), "order:greater-equal", d);
    vm::require((a == b) == (ka == kb && a.d == b.d), "order:equal", d);
    vm::require((a != b) == !(ka == kb && a.d == b.d), "order:not-equal", d);
    if (a == b)
    {
        vm::require(std::hash<C>{}(a) == std::hash<C>{}(b), "hash:equal-values", d);
        vm::count("equal pairs");
    }
    vm::count("ordered pairs");
}

template <typename C, typename G>
void containers(vm::rng& r, G gen, const char* t)
{
    std::vector<C>        v;
    std::unordered_set<C> h;
    std::set<C>           o;
    std::set<key>         ref;
    const auto            n = r.range(2, 30);
    for (int64_t i = 0; i < n; ++i)
    {
        v.push_back(gen(r));
        h.insert(v.back());
        o.insert(v.back());
        ref.insert(ref_key(v.back()));
    }
    vm::require(h.size() == ref.size(), "containers:hash-set-size", t);
    vm::require(o.size() == ref.size(), "containers:ordered-set-size", t);
    for (const auto& c : v)
    {
        vm::require(h.count(c) == 1 && o.count(c) == 1, "containers:lookup", [&] { return vm::cat(t, s(c)); });
    }
    std::sort(v.begin(), v.end());
    for (std::size_t i = 1; i < v.size(); ++i)
    {
        vm::require(ref_key(v[i - 1]) <= ref_key(v[i]), "containers:sorted", t);
    }
    // same coordinate, dead and alive, are different members of a hash set
    const auto c = v.front();
    h.clear();
    h.insert(c);
    vm::require(h.count(c.get_dead()) == 0, "containers:dead-differs", [&] { return s(c); });
}
}  // namespace

VM_SUITE(packing, 20000, 400000)
{
    const auto x = r.boundary<int64_t>(0, M31), y = r.boundary<int64_t>(0, M31), z = r.boundary<int64_t>(0, 1);
    const off  c{x, y, z};
    const auto d = [&] { return vm::cat(x, ",", y, ",", z); };
    vm::require(c.x == x && c.y == y && c.z == z && !c.is_dead(), "packing:construct", d);
    const auto u = static_cast<uint64_t>(c);
    vm::require(u == ((static_cast<uint64_t>(z) << 62) | (static_cast<uint64_t>(y) << 31) | static_cast<uint64_t>(x)), "packing:encode", d);
    vm::require(off{u} == c, "packing:roundtrip", d);
    vm::require(c == u, "packing:compare-with-integer", d);
    const uint64_t t = r.chance(20) ? (uint64_t{1} << r.below(64)) : r();
    const off      q{t};
    vm::require(static_cast<uint64_t>(q) == t, "packing:integer-roundtrip", [&] { return vm::cat(t); });
    vm::require(q.x == (t & 0x7fffffff) && q.y == ((t >> 31) & 0x7fffffff) && q.z == ((t >> 62) & 1) && q.is_dead() == (t >> 63 == 1),
                "packing:decode", [&] { return vm::cat(t); });
    vm::require((q == (t ^ (uint64_t{1} << r.below(64)))) == false, "packing:compare-with-other-integer", [&] { return vm::cat(t); });
    const auto dd = c.get_dead();
    vm::require(dd.is_dead() && dd.x == x && dd.y == y && dd.z == z && !c.is_dead(), "packing:get-dead", d);
    vm::require(off{}.is_dead() && cub{}.is_dead() && siq{}.is_dead(), "packing:default-is-dead", "");
    const off two{x, y};
    vm::require(two.x == x && two.y == y && two.z == 0 && !two.is_dead(), "packing:two-arguments", d);
    const auto k = rnd_cub(r);
    vm::require(!k.is_dead() && k.get_dead().is_dead() && k.get_dead().x == k.x && k.get_dead().y == k.y && k.get_dead().z == k.z,
                "packing:get-dead-cube", [&] { return s(k); });
    const auto q2 = rnd_siq(r);
    vm::require(!q2.is_dead() && q2.get_dead().is_dead() && q2.get_dead().x == q2.x && q2.get_dead().y == q2.y && q2.get_dead().z == q2.z,
                "packing:get-dead-siqad", [&] { return s(q2); });
    const cub k2{x - 5, y - 7};
    vm::require(k2.x == x - 5 && k2.y == y - 7 && k2.z == 0 && !k2.is_dead(), "packing:two-arguments-cube", d);
    vm::distinct(u);
    vm::sample(vm::cat("(", x, ",", y, ",", z, ") <-> ", u));
}

VM_SUITE(order, 20000, 400000)
{
    const bool small = r.chance(70);
    auto       o1 = small ? small_off(r) : rnd_off(r), o2 = small ? small_off(r) : rnd_off(r);
    auto       c1 = small ? small_cub(r) : rnd_cub(r), c2 = small ? small_cub(r) : rnd_cub(r);
    auto       s1 = small ? small_siq(r) : rnd_siq(r, M31), s2 = small ? small_siq(r) : rnd_siq(r, M31);
    if (r.chance(10))
    {
        o1 = o1.get_dead();
        c1 = c1.get_dead();
        s1 = s1.get_dead();
    }
    check_order(o1, o2, "offset");
    check_order(c1, c2, "cube");
    check_order(s1, s2, "siqad");
    check_order(o1, o1, "offset");
    check_order(c1, c1, "cube");
    check_order(s1, s1, "siqad");
    vm::distinct(vm::cat(s(o1), s(o2), s(c1), s(c2)));
}

VM_SUITE(containers, 2000, 40000)
{
    const bool small = r.chance(60);
    containers<off>(r, small ? small_off : rnd_off, "offset");
    containers<cub>(r, [&](vm::rng& g) { return small ? small_cub(g) : rnd_cub(g); }, "cube");
    containers<siq>(r, [&](vm::rng& g) { return small ? small_siq(g) : rnd_siq(g); }, "siqad");
    vm::distinct(r.s);
}

VM_SUITE(conversion, 20000, 400000)
{
    // SiQAD -> fiction -> SiQAD is the identity wherever the row fits
    const auto q = rnd_siq(r);
    const auto f = siqad::to_fiction_coord<cub>(q);
    const auto d = [&] { return vm::cat("siqad ", s(q), " cube ", s(f)); };
    vm::require(!f.is_dead() && f.x == q.x && f.y == 2 * q.y + q.z && f.z == 0, "conversion:to-fiction", d);
    vm::require(siqad::to_siqad_coord(f) == q, "conversion:siqad-roundtrip", d);
    // fiction -> SiQAD -> fiction is the identity on every planar coordinate
    const cub  p{r.boundary<int64_t>(-M31, M31), r.boundary<int64_t>(-M31, M31)};
    const auto g = siqad::to_siqad_coord(p);
    vm::require(!g.is_dead() && siqad::to_fiction_coord<cub>(g) == p, "conversion:cube-roundtrip", [&] { return vm::cat("cube ", s(p), " siqad ", s(g)); });
    const off  o{r.boundary<int64_t>(0, M31), r.boundary<int64_t>(0, M31)};
    const auto go = siqad::to_siqad_coord(o);
    vm::require(!go.is_dead() && siqad::to_fiction_coord<off>(go) == o, "conversion:offset-roundtrip", [&] { return vm::cat("offset ", s(o), " siqad ", s(go)); });
    // it preserves the order of positions (rows first)
    const cub  p2 = r.chance(50) ? cub{p.x + (p.x < M31 ? 1 : 0), p.y} : cub{r.range(-3, 3), r.boundary<int64_t>(-M31, M31)};
    const auto g2 = siqad::to_siqad_coord(p2);
    vm::require((p < p2) == (g < g2), "conversion:order", [&] { return vm::cat(s(p), s(p2)); });
    // rows that do not fit saturate
    const siq  hi{r.range(-5, 5), r.range(1073741824, M31), r.below(2)};
    const siq  lo{r.range(-5, 5), r.range(-M31, -1073741826), r.below(2)};
    const auto fh = siqad::to_fiction_coord<cub>(hi), fl = siqad::to_fiction_coord<cub>(lo);
    vm::require(fh.x == hi.x && fh.y == M31, "conversion:saturate-high", [&] { return s(hi) + s(fh); });
    vm::require(fl.x == lo.x && fl.y == -M31 - 1, "conversion:saturate-low", [&] { return s(lo) + s(fl); });
    vm::require(siqad::to_fiction_coord<cub>(q.get_dead()).is_dead() && siqad::to_fiction_coord<off>(siq{}).is_dead(), "conversion:dead", d);
    // offset -> cube
    const auto oc = rnd_off(r);
    const auto cc = offset_to_cube_coord(oc);
    vm::require(!cc.is_dead() && cc.x == oc.x && cc.y == oc.y && cc.z == oc.z, "conversion:offset-to-cube", [&] { return s(oc) + s(cc); });
    vm::require(offset_to_cube_coord(oc.get_dead()).is_dead(), "conversion:offset-to-cube-dead", [&] { return s(oc); });
    vm::distinct(vm::cat(s(q), s(p)));
    vm::sample(vm::cat("siqad ", s(q), " -> ", s(f)));
}

VM_SUITE(arithmetic, 20000, 400000)
{
    const bool small = r.chance(50);
    const auto lim   = small ? 3 : 1000000000;
    const auto a = rnd_cub(r, lim), b = rnd_cub(r, lim);
    const auto p = a + b, m = a - b;
    const auto d = [&] { return vm::cat("cube ", s(a), " ", s(b)); };
    vm::require(!p.is_dead() && int64_t{p.x} == int64_t{a.x} + b.x && int64_t{p.y} == int64_t{a.y} + b.y && int64_t{p.z} == int64_t{a.z} + b.z, "arithmetic:cube-plus", d);
    vm::require(!m.is_dead() && int64_t{m.x} == int64_t{a.x} - b.x && int64_t{m.y} == int64_t{a.y} - b.y && int64_t{m.z} == int64_t{a.z} - b.z, "arithmetic:cube-minus", d);
    const auto u = rnd_siq(r, small ? 3 : 500000000), v = rnd_siq(r, small ? 3 : 500000000);
    const auto sp = u + v, sm = u - v;
    const auto row = [](const siq& c) { return 2 * int64_t{c.y} + int64_t{c.z}; };
    const auto e   = [&] { return vm::cat("siqad ", s(u), " ", s(v), " + ", s(sp), " - ", s(sm)); };
    vm::require(!sp.is_dead() && sp.x == u.x + v.x && row(sp) == row(u) + row(v), "arithmetic:siqad-plus", e);
    vm::require(!sm.is_dead() && sm.x == u.x - v.x && row(sm) == row(u) - row(v), "arithmetic:siqad-minus", e);
    vm::require((u + v) - v == u && (u - v) + v == u, "arithmetic:siqad-inverse", e);
    vm::require(u + v == v + u, "arithmetic:siqad-commutes", e);
    vm::distinct(vm::cat(s(a), s(b), s(u), s(v)));
}

VM_SUITE(extent, 5000, 100000)
{
    const auto o = off{r.boundary<int64_t>(0, M31), r.boundary<int64_t>(0, 1000000), r.below(2)};
    vm::require(area(o) == (uint64_t{o.x} + 1) * (uint64_t{o.y} + 1), "extent:area-offset", [&] { return s(o); });
    vm::require(volume(o) == (uint64_t{o.x} + 1) * (uint64_t{o.y} + 1) * (uint64_t{o.z} + 1), "extent:volume-offset", [&] { return s(o); });
    const auto c  = rnd_cub(r, 1000000);
    const auto ab = [](int64_t v) { return static_cast<uint64_t>(v < 0 ? -v : v); };
    vm::require(area(c) == (ab(c.x) + 1) * (ab(c.y) + 1), "extent:area-cube", [&] { return s(c); });
    vm::require(volume(c) == (ab(c.x) + 1) * (ab(c.y) + 1) * (ab(c.z) + 1), "extent:volume-cube", [&] { return s(c); });
    const auto q = rnd_siq(r, 1000000);
    vm::require(area(q) == (ab(q.x) + 1) * (2 * ab(q.y) + ab(q.z) + 1), "extent:area-siqad", [&] { return s(q); });
    vm::require(volume(q) == area(q), "extent:volume-siqad", [&] { return s(q); });
    vm::distinct(vm::cat(s(o), s(c), s(q)));
}

VM_SUITE(text, 2000, 40000)
{
    const auto check = [&](const auto& c)
    {
        const auto want = vm::cat("(", static_cast<int64_t>(c.x), ",", static_cast<int64_t>(c.y), ",", static_cast<int64_t>(c.z), ")");
        vm::require(c.str() == want, "text:str", [&] { return want + " vs " + c.str(); });
        vm::require(fmt::format("{}", c) == want, "text:fmt", [&] { return want; });
        std::ostringstream os;
        os << off{c.x < 0 ? 0 : c.x, 3, 1};
        vm::require(os.str() == off{c.x < 0 ? 0 : c.x, 3, 1}.str(), "text:stream", [&] { return os.str(); });
        vm::distinct(want);
    };
    check(rnd_off(r));
    check(rnd_cub(r));
    check(rnd_siq(r, M31));
}

// one step of wrap() against the documented rule, for positions at most one step outside of the aspect ratio
VM_SUITE(wrap, 20000, 400000)
{
    const auto ax = r.range(0, 5), ay = r.range(0, 5), az = r.range(0, 1);
    {
        const off ar{ax, ay, az};
        const auto x = r.range(0, ax + 2), y = r.range(0, ay + 2);
        const auto z = static_cast<int64_t>(r.below(2));
        off        c{x, y, z};
        c.wrap(ar);
        int64_t ex = x, ey = y, ez = z;
        if (ex > ax) { ex = 0; ++ey; }
        if (ey > ay) { ey = 0; ++ez; }
        const off want = ez > az ? ar.get_dead() : off{ex, ey, ez};
        vm::require(c == want, "wrap:offset", [&] { return vm::cat("(", x, ",", y, ",", z, ") in ", s(ar), " gives ", s(c), " want ", s(want)); });
    }
    {
        const auto cz = r.range(0, 3);
        const cub  ar{ax, ay, cz};
        const auto x = r.range(-2, ax + 2), y = r.range(-2, ay + 2), z = r.range(-2, cz + 2);
        cub        c{x, y, z};
        c.wrap(ar);
        int64_t ex = x, ey = y, ez = z;
        if (ex > ax) { ex = 0; ++ey; }
        if (ey > ay) { ey = 0; ++ez; }
        const cub want = ez > cz ? ar.get_dead() : cub{ex, ey, ez};
        vm::require(c == want, "wrap:cube", [&] { return vm::cat("(", x, ",", y, ",", z, ") in ", s(ar), " gives ", s(c), " want ", s(want)); });
    }
    {
        const siq  ar{ax, ay, 1};
        const auto x = r.range(-2, ax + 2), y = r.range(-2, ay + 2);
        const auto z = static_cast<int64_t>(r.below(2));
        siq        c{x, y, z};
        c.wrap(ar);
        int64_t ex = x, row = 2 * y + z;
        if (ex > ax) { ex = 0; ++row; }
        const int64_t ey = row >= 0 ? row / 2 : (row - 1) / 2;
        const siq     want = ey > ay ? ar.get_dead() : siq{ex, ey, row - 2 * ey};
        vm::require(c == want, "wrap:siqad", [&] { return vm::cat("(", x, ",", y, ",", z, ") in ", s(ar), " gives ", s(c), " want ", s(want)); });
    }
    vm::distinct(vm::cat(ax, ay, az, r.s % 64));
}

VM_MAIN
