#include "vm.hpp"

#include <fiction/algorithms/iter/aspect_ratio_iterator.hpp>
#include <fiction/layouts/coordinates.hpp>

#include <memory>
#include <set>

using namespace fiction;
using off = offset::ucoord_t;
using cub = cube::coord_t;

namespace
{
// all (w-1, h-1) with w*h = n
std::set<std::pair<uint64_t, uint64_t>> factors(uint64_t n)
{
    std::set<std::pair<uint64_t, uint64_t>> f;
    for (uint64_t i = 1; i * i <= n; ++i)
    {
        if (n % i == 0)
        {
            f.emplace(i - 1, n / i - 1);
            f.emplace(n / i - 1, i - 1);
        }
    }
    return f;
}
template <typename C>
void walk(vm::rng& r, const uint64_t start, const int areas, const char* t)
{
    aspect_ratio_iterator<C> it{start};
    uint64_t                 n = start == 0 ? 1 : start;
    for (int a = 0; a < areas; ++a, ++n)
    {
        auto       todo = factors(n);
        const auto d    = [&] { return vm::cat(t, " start ", start, " area ", n); };
        while (!todo.empty())
        {
            const auto c = *it;
            if (!vm::require(todo.erase({c.x, c.y}) == 1, "factorization:each-once", [&] { return d() + vm::cat(" got ", c.x, ",", c.y); }))
            {
                return;
            }
            vm::require(c.z == 0 && !c.is_dead(), "factorization:planar", d);
            vm::require(area(c) == n, "factorization:area", d);
            vm::require(it == n && !(it != n) && !(it == n + 1) && it != n + 1 && !(it < n) && it < n + 1 && it <= n && !(it <= n - 1), "factorization:compare-with-area", d);
            // copies and the iterator they come from do not influence each other
            auto       cp  = it;
            const auto old = r.chance(50) ? it++ : [&] { auto o = it; ++it; return o; }();
            vm::require(*cp == c && *old == c && cp == old, "factorization:copy-keeps-value", d);
            vm::require(cp != it && !(cp == it), "factorization:advanced-differs", d);
            vm::require((cp < it) || (it == n), "factorization:order", d);
            ++cp;
            vm::require(*cp == *it && cp == it && cp <= it && it <= cp && !(cp < it), "factorization:copy-advances-alike", d);
            if (r.chance(10))
            {
                auto heap = std::make_unique<aspect_ratio_iterator<C>>(it);
                auto kept = *heap;
                ++*heap;
                heap.reset();
                vm::require(kept == it && *kept == *it, "factorization:copy-outlives-source", d);
                aspect_ratio_iterator<C> other{r.range(1, 50)};
                other = kept;
                vm::require(other == it, "factorization:assignment", d);
            }
            vm::count("aspect ratios");
        }
        vm::require(it != n, "factorization:no-extra", d);
        vm::require(it == n + 1, "factorization:next-area", d);
    }
}
}  // namespace

VM_SUITE(small_areas, 600, 8000)
{
    const auto st = r.range(0, 400);
    walk<off>(r, st, static_cast<int>(r.range(1, 30)), "offset");
    walk<cub>(r, st, 3, "cube");
    vm::distinct(st);
    vm::sample(vm::cat("from area ", st));
}
VM_SUITE(large_areas, 200, 4000)
{
    uint64_t st = r.chance(80) ? r.range(400, 3000000) : r.range(3000000, 2147483646);
    if (r.chance(40))
    {
        const auto q = r.range(20, r.chance(50) ? 4000 : 46340);  // perfect squares
        st           = q * q;
    }
    else if (r.chance(40))
    {
        st = r.one_of<uint64_t>({2147483647ull, 2147483648ull, 4294967295ull, 4294967296ull, 720720, 1073741824ull, 999983ull * 2});
    }
    if (st > 2147483647ull)
    {
        st = 2147483647ull;
    }
    vm::note(vm::cat("area ", st));
    walk<off>(r, st, 2, "offset");
    vm::distinct(st);
}
// loops as exact physical design writes them: up to an area bound, every shape once
VM_SUITE(bounded_loop, 200, 4000)
{
    const uint64_t lo = r.range(1, 60), hi = lo + r.range(0, 60);
    std::set<std::pair<uint64_t, uint64_t>> seen, want;
    for (uint64_t n = lo; n <= hi; ++n)
    {
        want.merge(factors(n));
    }
    uint64_t last = 0;
    for (aspect_ratio_iterator<off> it{lo}; it <= hi; ++it)
    {
        const auto c = *it;
        vm::require(seen.emplace(c.x, c.y).second, "bounded:duplicate", [&] { return c.str(); });
        vm::require(area(c) >= last, "bounded:ascending", [&] { return c.str(); });
        last = area(c);
    }
    vm::require(seen == want, "bounded:complete", [&] { return vm::cat(lo, "..", hi, " saw ", seen.size(), " of ", want.size()); });
    vm::distinct(lo * 1000 + hi);
}
VM_MAIN
