#include "vm.hpp"

#include <fiction/algorithms/iter/gray_code_iterator.hpp>

#include <bit>
#include <set>

using namespace fiction;

namespace
{
uint64_t gray(uint64_t i) { return i ^ (i >> 1); }
}  // namespace

VM_SUITE(sequence, 400, 8000)
{
    const auto             bits = r.range(1, 10);
    const uint64_t         n    = uint64_t{1} << bits;
    std::set<uint64_t>     seen;
    uint64_t               last = 0;
    gray_code_iterator     it{0};
    for (uint64_t i = 0; i < n; ++i)
    {
        const auto d = [&] { return vm::cat("position ", i, " code ", *it); };
        vm::require(*it == gray(i), "sequence:code", d);
        vm::require(i == 0 || std::popcount(*it ^ last) == 1, "sequence:one-bit", d);
        vm::require(*it < n, "sequence:range", d);
        vm::require(seen.insert(*it).second, "sequence:duplicate", d);
        last = *it;
        if (r.chance(50)) ++it; else
        {
            const auto o = it++;
            vm::require(*o == last && o == i, "sequence:post-increment", d);
        }
        vm::count("codes");
    }
    vm::require(seen.size() == n && it == n, "sequence:complete", vm::cat(bits));
    // loops bounded by a number, as written by the callers
    std::set<uint64_t> s2;
    const uint64_t     a = r.below(n);
    for (gray_code_iterator g{a}; g < n; ++g) s2.insert(*g);
    vm::require(s2.size() == n - a, "sequence:bounded-loop", vm::cat(a, " ", n));
    s2.clear();
    for (gray_code_iterator g{a}; g <= n - 1; ++g) s2.insert(*g);
    vm::require(s2.size() == n - a, "sequence:bounded-loop-inclusive", vm::cat(a, " ", n));
    vm::distinct(bits * 100000 + a);
}
VM_SUITE(arithmetic, 4000, 80000)
{
    const uint64_t     top = r.chance(50) ? 4096 : (uint64_t{1} << r.range(3, 62));
    uint64_t           pos = r.below(top);
    const uint64_t     st  = pos;
    gray_code_iterator it{pos};
    std::string        trace = vm::cat(pos);
    for (int k = 0; k < 20; ++k)
    {
        const int m = static_cast<int>(r.range(0, r.chance(80) ? 20 : 2147483647)) * (r.chance(25) ? -1 : 1);  // offsets of both signs
        switch (r.below(10))
        {
            case 0: ++it; ++pos; trace += " ++"; break;
            case 1: if (pos > 0) { --it; --pos; trace += " --"; } break;
            case 2: { const auto o = it++; vm::require(o == pos && *o == gray(pos), "arithmetic:post-increment", trace); ++pos; trace += " p++"; break; }
            case 3: if (pos > 0) { const auto o = it--; vm::require(o == pos && *o == gray(pos), "arithmetic:post-decrement", trace); --pos; trace += " p--"; } break;
            case 4: if (m >= 0 || pos >= static_cast<uint64_t>(-int64_t{m})) { auto& x = (it += m); vm::require(&x == &it, "arithmetic:reference", trace); pos += m; trace += vm::cat(" +=", m); break; }
            case 5: if (m < 0 || pos >= static_cast<uint64_t>(m)) { it -= m; pos -= m; trace += vm::cat(" -=", m); } break;
            case 6: if (m >= 0 || pos >= static_cast<uint64_t>(-int64_t{m})) { const auto o = it + m; vm::require(o == pos + m && *o == gray(pos + m), "arithmetic:plus", vm::cat(trace, " +", m)); vm::require(it == pos, "arithmetic:plus-leaves-operand", trace); vm::require(o - it == m && it - o == -int64_t{m}, "arithmetic:difference", trace); break; }
            case 7: if (m < 0 || pos >= static_cast<uint64_t>(m)) { const auto o = it - m; vm::require(o == pos - m && *o == gray(pos - m), "arithmetic:minus", vm::cat(trace, " -", m)); vm::require(it == pos, "arithmetic:minus-leaves-operand", trace); } break;
            case 8: { const uint64_t v = r.below(top); it = v; pos = v; trace += vm::cat(" =", v); break; }
            case 9: { const auto i = r.below(1000); vm::require(it[i] == gray(st + i), "arithmetic:subscript", vm::cat(trace, " [", i, "]")); break; }
        }
        vm::require(*it == gray(pos), "arithmetic:code", [&] { return vm::cat(trace, " at ", pos, " code ", *it); });
        const uint64_t     q = r.chance(60) ? pos + r.below(5) - std::min<uint64_t>(2, pos) : r.below(top);
        gray_code_iterator o{q};
        const auto         d = [&] { return vm::cat(trace, " at ", pos, " against ", q); };
        vm::require((it == q) == (pos == q) && (it != q) == (pos != q) && (it < q) == (pos < q) && (it <= q) == (pos <= q) && (it > q) == (pos > q) && (it >= q) == (pos >= q), "arithmetic:compare-number", d);
        vm::require((it == o) == (pos == q) && (it != o) == (pos != q), "arithmetic:equal", d);
        vm::require((it < o) == (pos < q) && (it <= o) == (pos <= q), "arithmetic:less", d);
        vm::require(it - o == static_cast<int64_t>(pos) - static_cast<int64_t>(q), "arithmetic:distance", d);
    }
    vm::distinct(trace);
    vm::sample(trace);
}
VM_MAIN
