#include "vm.hpp"

#include <fiction/layouts/coordinates.hpp>

#include <algorithm>
#include <iterator>
#include <ranges>

using namespace fiction;
using off = offset::ucoord_t;
using cub = cube::coord_t;
using siq = siqad::coord_t;

namespace
{
template <typename C>
std::string s(const C& c)
{
    return vm::cat(+c.d, "|", static_cast<int64_t>(c.x), ",", static_cast<int64_t>(c.y), ",", static_cast<int64_t>(c.z));
}
// the positions of [0..dim] in the order the documentation gives
template <typename C>
std::vector<C> reference(const C& dim)
{
    std::vector<C> v;
    if constexpr (std::is_same_v<C, siq>)
    {
        for (int64_t y = 0; y <= dim.y; ++y)
            for (int64_t z = 0; z <= dim.z; ++z)
                for (int64_t x = 0; x <= dim.x; ++x) v.emplace_back(x, y, z);
    }
    else
    {
        for (int64_t z = 0; z <= dim.z; ++z)
            for (int64_t y = 0; y <= dim.y; ++y)
                for (int64_t x = 0; x <= dim.x; ++x) v.emplace_back(x, y, z);
    }
    return v;
}
template <typename C>
void walk(vm::rng& r, const C& dim, const C& start, const std::vector<C>& want, const std::string& t)
{
    coord_iterator<C>       it{dim, start};
    coord_iterator<C>       cp{it};
    const coord_iterator<C> end{dim, dim.get_dead()};
    std::size_t             i = 0;
    for (; i <= want.size() + 2 && !(*it).is_dead(); ++i)
    {
        const auto d = [&] { return vm::cat(t, " step ", i, " got ", s(*it), i < want.size() ? " want " + s(want[i]) : " want the end"); };
        if (!vm::require(i < want.size() && *it == want[i], "iteration:sequence", d))
        {
            return;
        }
        vm::require(it == cp && !(it != cp) && !(it < cp) && it <= cp, "iteration:equal-iterators", d);
        if (r.chance(50))
        {
            const auto old = it++;
            vm::require(*old == want[i], "iteration:post-increment", d);
            vm::require(old != it && !(old == it), "iteration:advanced-differs", d);
            if (i + 1 < want.size())
            {
                vm::require(old < it && old <= it && !(it < old) && !(it <= old), "iteration:order", d);
            }
        }
        else
        {
            auto& ref = ++it;
            vm::require(&ref == &it, "iteration:pre-increment-reference", d);
        }
        ++cp;
        vm::count("positions visited");
    }
    vm::require(i == want.size(), "iteration:count", [&] { return vm::cat(t, " visited ", i, " of ", want.size()); });
    vm::require(*it == dim.get_dead(), "iteration:end-is-dead-aspect-ratio", [&] { return vm::cat(t, " ended at ", s(*it)); });
    // as a range
    const auto v = std::ranges::subrange(coord_iterator<C>{dim, start}, coord_iterator<C>{it});
    std::size_t n = 0;
    for (const auto& c : v)
    {
        if (n >= want.size() || c != want[n])
        {
            vm::violate("iteration:range", t);
            break;
        }
        ++n;
    }
    vm::require(n == want.size(), "iteration:range-length", t);
}
template <typename C>
void one(vm::rng& r, const C& dim, const char* type)
{
    const auto all = reference(dim);
    const auto t   = vm::cat(type, " ", s(dim));
    walk(r, dim, C{0, 0, 0}, all, t);
    if constexpr (!std::is_same_v<C, siq>)
    {
        vm::require(all.size() == volume(dim), "iteration:volume", t);
    }
    // from any position inside: exactly the suffix
    const auto k = r.below(all.size());
    walk(r, dim, all[k], std::vector<C>(all.begin() + static_cast<int64_t>(k), all.end()), t + " from " + s(all[k]));
    // negative starts are clamped into the layout
    if constexpr (!std::is_same_v<C, off>)
    {
        C st = all[k];
        if (r.chance(50)) st.x = -static_cast<int32_t>(r.range(1, 5));
        if (r.chance(50)) st.y = -static_cast<int32_t>(r.range(1, 5));
        if (r.chance(30)) st.z = -static_cast<int32_t>(r.range(1, 5));
        const C cl{std::max(static_cast<int64_t>(st.x), int64_t{0}), std::max(static_cast<int64_t>(st.y), int64_t{0}), std::max(static_cast<int64_t>(st.z), int64_t{0})};
        const auto at = std::find(all.begin(), all.end(), cl);
        walk(r, dim, st, std::vector<C>(at, all.end()), t + " from " + s(st));
    }
    // a start beyond the boundary continues with the next row or layer, or is past the end
    if constexpr (!std::is_same_v<C, siq>)
    {
        C st = all[k];
        if (r.chance(60)) st.x = static_cast<int32_t>(dim.x) + r.range(1, 4);
        if (r.chance(60)) st.y = static_cast<int32_t>(dim.y) + r.range(1, 4);
        int64_t x = st.x, y = st.y, z = st.z;
        if (x > static_cast<int64_t>(dim.x)) { x = 0; ++y; }
        if (y > static_cast<int64_t>(dim.y)) { y = 0; ++z; }
        const auto at = z > static_cast<int64_t>(dim.z) ? all.end() : std::find(all.begin(), all.end(), C{x, y, z});
        walk(r, dim, st, std::vector<C>(at, all.end()), t + " from " + s(st));
    }
    vm::distinct(t);
    vm::sample(vm::cat(t, ": ", all.size(), " positions"));
}
}  // namespace

VM_SUITE(offset_coordinates, 1500, 30000)
{
    const bool thin = r.chance(30);
    one(r, off{r.range(0, thin ? 60 : 9), r.range(0, thin ? 1 : 9), r.below(2)}, "offset");
}
VM_SUITE(cube_coordinates, 1500, 30000)
{
    one(r, cub{r.range(0, 8), r.range(0, 8), r.range(0, 3)}, "cube");
}
VM_SUITE(siqad_coordinates, 1500, 30000)
{
    one(r, siq{r.range(0, 8), r.range(0, 8), 1}, "siqad");
    one(r, siq{r.range(0, 20), 0, r.below(2)}, "siqad");
}
// the finding listed for aspect ratios whose last row has no lower dot: only the first row is enumerated
VM_SUITE(siqad_single_dot_last_row, 8, 8)
{
    const siq   dim{3, 2, 0};
    std::size_t n = 0;
    for (coord_iterator<siq> it{dim, siq{0, 0, 0}}; !(*it).is_dead() && n < 100; ++it)
    {
        ++n;
    }
    if (n != area(dim))
    {
        vm::violate(n == 4 ? "siqad-iteration:aspect-ratio-(3,2,0)-visits-first-row-only" : "siqad-iteration:aspect-ratio-(3,2,0)", vm::cat(n, " of ", area(dim)));
    }
}
VM_MAIN
