#include "vm.hpp"

#include <fiction/utils/combination_utils.hpp>
#include <fiction/utils/math_utils.hpp>

#include <algorithm>
#include <cmath>
#include <limits>
#include <numeric>
#include <optional>
#include <set>

#include <combinations.h>

using namespace fiction;
using u128 = unsigned __int128;

namespace
{
// exact value or "too large"
std::optional<uint64_t> binom(uint64_t n, uint64_t k)
{
    if (k > n) return 0;
    k = std::min(k, n - k);
    u128 r = 1;
    for (uint64_t i = 1; i <= k; ++i)
    {
        const auto g = std::gcd(static_cast<uint64_t>(r % i), i);
        r = (r / g) * ((n + 1 - i) / (i / g));
        if (r > std::numeric_limits<uint64_t>::max()) return std::nullopt;
    }
    return static_cast<uint64_t>(r);
}
}  // namespace

VM_SUITE(binomial, 20000, 400000)
{
    uint64_t n = 0, k = 0;
    switch (r.below(4))
    {
        case 0: n = r.range(0, 70); k = r.range(0, 72); break;
        case 1: n = r.range(0, 5000); k = r.chance(50) ? r.range(0, 7) : n - std::min<uint64_t>(n, r.below(8)); break;
        case 2: n = r.range(0, 4000000000ll); k = r.below(3); break;
        default: n = r() >> r.below(40); k = r.chance(50) ? r.below(2) : n - std::min<uint64_t>(n, r.below(2)); break;
    }
    const auto want = binom(n, k);
    if (!want) { vm::count("results beyond 64 bits skipped"); return; }
    vm::require(binomial_coefficient(n, k) == *want, "binomial:value", [&] { return vm::cat("C(", n, ",", k, ") = ", binomial_coefficient(n, k), " instead of ", *want); });
    if (k <= n) vm::require(binomial_coefficient(n, n - k) == *want, "binomial:symmetry", [&] { return vm::cat(n, " ", k); });
    vm::distinct(vm::cat(n, ",", k));
    vm::sample(vm::cat("C(", n, ",", k, ")=", *want));
}
VM_SUITE(distributions, 300, 4000)
{
    const std::size_t n = r.range(0, 12), k = r.range(0, 14);
    const auto        c = determine_all_combinations_of_distributing_k_entities_on_n_positions(k, n);
    const auto        d = [&] { return vm::cat("k=", k, " n=", n); };
    const auto        want = k == 0 || k > n ? 0 : *binom(n, k);
    vm::require(c.size() == want, "distribution:count", [&] { return d() + vm::cat(" gives ", c.size(), " instead of ", want); });
    std::set<std::vector<std::size_t>> seen;
    for (const auto& x : c)
    {
        vm::require(x.size() == k && std::is_sorted(x.begin(), x.end()) && std::adjacent_find(x.begin(), x.end()) == x.end() && (x.empty() || x.back() < n), "distribution:valid", [&] { return d() + vm::list(x); });
        vm::require(seen.insert(x).second, "distribution:duplicate", [&] { return d() + vm::list(x); });
        vm::count("combinations");
    }
    vm::distinct(vm::cat(k, ",", n));
    vm::sample(d() + vm::cat(": ", c.size()));
}
VM_SUITE(cartesian, 2000, 40000)
{
    std::vector<std::vector<int>> sets(r.range(0, 5));
    std::size_t                   total = 1;
    int                           next  = 0;
    for (auto& s : sets)
    {
        for (auto n = r.range(r.chance(5) ? 0 : 1, 5); n > 0; --n) s.push_back(next++);  // every value unique
        total *= s.size();
    }
    const auto c = cartesian_combinations(sets);
    vm::require(c.size() == total, "cartesian:count", [&] { return vm::cat(c.size(), " instead of ", total); });
    std::set<std::vector<int>> seen;
    for (const auto& x : c)
    {
        bool ok = x.size() == sets.size();
        for (std::size_t i = 0; ok && i < x.size(); ++i) ok = std::find(sets[i].begin(), sets[i].end(), x[i]) != sets[i].end();
        vm::require(ok, "cartesian:member", [&] { return vm::list(x); });
        vm::require(seen.insert(x).second, "cartesian:duplicate", [&] { return vm::list(x); });
        vm::count("tuples");
    }
    vm::distinct(r.s);
}
VM_SUITE(rounding, 20000, 400000)
{
    const uint64_t n = r.range(0, 6);
    const double   f = std::pow(10.0, static_cast<double>(n));
    double         x = r.real(-1e6, 1e6) * std::pow(10.0, -static_cast<double>(r.range(0, 6)));
    if (r.chance(10)) x = static_cast<double>(r.range(-1000, 1000));
    if (r.chance(15)) x = (static_cast<double>(r.range(-4000, 4000)) * 2 + 1) / static_cast<double>(2 << n) * (n == 0 ? 1.0 : r.one_of<double>({1.0, 2.0, 4.0}));  // exactly half way for some n
    const double y = round_to_n_decimal_places(x, n);
    const auto   d = [&] { return vm::cat("round(", x, ",", n, ")=", y); };
    const double eps = 1e-9 * std::max(1.0, std::abs(x)) + 1e-15;
    vm::require(std::abs(y - x) <= 0.5 / f + eps / 1e3, "rounding:nearest", d);
    vm::require(std::abs(y * f - std::round(y * f)) <= 1e-15 * 8 * std::abs(y * f) + 1e-12, "rounding:grid", d);
    vm::require(std::abs(round_to_n_decimal_places(y, n) - y) <= 1e-15 * std::abs(y), "rounding:idempotent", d);
    vm::require(round_to_n_decimal_places(-x, n) == -y, "rounding:odd", d);
    const double x2 = x + r.real(0, 2 / f);
    vm::require(round_to_n_decimal_places(x2, n) >= y, "rounding:monotone", [&] { return d() + vm::cat(" vs ", x2); });
    const auto xf = static_cast<float>(x);
    vm::require(std::abs(static_cast<double>(round_to_n_decimal_places(xf, n)) - static_cast<double>(xf)) <= 0.5 / f + 1e-6 * (1 + std::abs(x)), "rounding:float", d);
    const auto i64 = static_cast<int64_t>(r());
    vm::require(round_to_n_decimal_places(i64, n) == i64, "rounding:integral-identity", [&] { return vm::cat(i64, " ", n); });
    const auto u64 = r();
    vm::require(round_to_n_decimal_places(u64, n) == u64, "rounding:integral-identity", [&] { return vm::cat(u64, " ", n); });
    const auto i8 = static_cast<int8_t>(r());
    vm::require(round_to_n_decimal_places(i8, n) == i8, "rounding:integral-identity", [&] { return vm::cat(+i8, " ", n); });
    vm::distinct(vm::cat(x, n));
}
VM_SUITE(absolute, 20000, 400000)
{
    const auto a = static_cast<int64_t>(r() >> r.below(60)) * (r.chance(50) ? 1 : -1);
    const auto check = [&](auto v)
    {
        using T = decltype(v);
        if constexpr (std::is_signed_v<T>) { if (v == std::numeric_limits<T>::min()) return; }
        const T want = v < 0 ? static_cast<T>(-v) : v;
        vm::require(integral_abs(v) == want, "absolute:value", [&] { return vm::cat(+v, " of ", sizeof(T), " bytes gives ", +integral_abs(v)); });
        static_assert(std::is_same_v<decltype(integral_abs(v)), T>);
    };
    check(a);
    check(static_cast<int32_t>(a));
    check(static_cast<int16_t>(a));
    check(static_cast<int8_t>(a));
    check(static_cast<uint64_t>(r()));
    check(static_cast<uint32_t>(r()));
    check(static_cast<uint16_t>(r()));
    check(static_cast<uint8_t>(r()));
    vm::distinct(static_cast<uint64_t>(a));
}
VM_SUITE(chi, 4000, 80000)
{
    std::vector<double> c(r.below(8)), w(r.chance(70) ? c.size() : r.below(8));
    for (auto& x : c) x = r.real(-10, 10);
    for (auto& x : w) x = r.real(-10, 10);
    long double want = 0;
    for (std::size_t i = 0; i < std::min(c.size(), w.size()); ++i) want += static_cast<long double>(c[i]) * w[i];
    const auto d = [&] { return vm::list(c) + vm::list(w); };
    try
    {
        const auto v = cost_function_chi(c, w);
        vm::require(c.size() == w.size(), "chi:size-mismatch-accepted", d);
        vm::require(std::abs(v - static_cast<double>(want)) <= 1e-9, "chi:value", [&] { return d() + vm::cat(" gives ", v); });
    }
    catch (const std::invalid_argument&)
    {
        vm::require(c.size() != w.size(), "chi:match-rejected", d);
        vm::count("size mismatches rejected");
    }
    vm::distinct(vm::cat(static_cast<double>(want)));
}
// the vendored enumeration algorithms
VM_SUITE(enumeration, 250, 3000)
{
    const int n = static_cast<int>(r.range(1, 6)), k = static_cast<int>(r.range(0, n));
    std::vector<int> v(static_cast<std::size_t>(n));
    std::iota(v.begin(), v.end(), 0);
    const auto orig = v;
    const auto fact = [](int x) { uint64_t f = 1; for (int i = 2; i <= x; ++i) f *= static_cast<uint64_t>(i); return f; };
    const auto d = [&] { return vm::cat("n=", n, " k=", k); };
    const auto collect = [&](auto alg, const char* key, uint64_t want, auto canon, int stop_after)
    {
        std::set<std::vector<int>> seen;
        uint64_t                   calls = 0;
        alg(v.begin(), v.begin() + k, v.end(), [&](auto b, auto e)
            {
                ++calls;
                std::vector<int> x(b, e);
                vm::require(static_cast<int>(x.size()) == k, key, [&] { return d() + " length " + vm::list(x); });
                vm::require(seen.insert(canon(x)).second, key, [&] { return d() + " duplicate " + vm::list(x); });
                return stop_after > 0 && calls == static_cast<uint64_t>(stop_after);
            });
        if (stop_after == 0)
        {
            vm::require(calls == want, key, [&] { return d() + vm::cat(" ", calls, " instead of ", want); });
            vm::require(v == orig, key, [&] { return d() + " the sequence is not restored"; });
        }
        else
        {
            vm::require(calls == std::min<uint64_t>(want, static_cast<uint64_t>(stop_after)), key, [&] { return d() + vm::cat(" stopped after ", calls); });
            v = orig;
        }
        vm::count("enumerated", static_cast<long>(calls));
    };
    const auto stop = r.chance(30) ? static_cast<int>(r.range(1, 5)) : 0;
    const auto same = [](std::vector<int> x) { return x; };
    const auto sorted = [](std::vector<int> x) { std::sort(x.begin(), x.end()); return x; };
    const auto c = *binom(static_cast<uint64_t>(n), static_cast<uint64_t>(k));
    collect([](auto a, auto b, auto e, auto f) { combinations::for_each_combination(a, b, e, f); }, "enumeration:combination", c, sorted, stop);
    collect([](auto a, auto b, auto e, auto f) { combinations::for_each_permutation(a, b, e, f); }, "enumeration:permutation", c * fact(k), same, stop);
    if (k >= 1)
    {
        const auto rot = [](std::vector<int> x) { std::rotate(x.begin(), std::min_element(x.begin(), x.end()), x.end()); return x; };
        collect([](auto a, auto b, auto e, auto f) { combinations::for_each_circular_permutation(a, b, e, f); }, "enumeration:circular", c * fact(k - 1), rot, stop);
        const auto rev = [](std::vector<int> x) { auto y = x; std::reverse(y.begin(), y.end()); return std::min(x, y); };
        collect([](auto a, auto b, auto e, auto f) { combinations::for_each_reversible_permutation(a, b, e, f); }, "enumeration:reversible", k <= 1 ? c : c * fact(k) / 2, rev, stop);
        const auto rr = [&](std::vector<int> x) { auto y = x; std::reverse(y.begin(), y.end()); return std::min(rot(x), rot(y)); };
        collect([](auto a, auto b, auto e, auto f) { combinations::for_each_reversible_circular_permutation(a, b, e, f); }, "enumeration:reversible-circular", k <= 2 ? c : c * fact(k - 1) / 2, rr, stop);
    }
    vm::distinct(d() + vm::cat(stop));
}
VM_MAIN
