#include "vm.hpp"

#include <fiction/algorithms/simulation/sidb/potential_to_distance_conversion.hpp>
#include <fiction/algorithms/simulation/sidb/sidb_simulation_parameters.hpp>

#include <cmath>

using namespace fiction;

namespace
{
const long double KE = 8.987552e9L, E = 1.6021766e-19L;
// screened Coulomb potential (V) as the code base defines it for this conversion
long double potential(const sidb_simulation_parameters& p, long double d)
{
    return KE / p.epsilon_r / p.epsilon_r * p.epsilon_r / (d * 1e-9L) * expl(-d / p.lambda_tf) * E;
}
}  // namespace

VM_SUITE(parameters, 4000, 80000)
{
    const sidb_simulation_parameters def{};
    vm::require(def.base == 3 && def.mu_minus == -0.32 && def.epsilon_r == 5.6 && def.lambda_tf == 5.0, "parameters:defaults", "");
    const uint8_t base = r.chance(50) ? 2 : 3;
    const double  mu = r.real(-1, 1), eps = r.real(0.5, 20), lam = r.real(0.5, 20);
    const sidb_simulation_parameters p{base, mu, eps, lam};
    vm::require(p.base == base && p.mu_minus == mu && p.epsilon_r == eps && p.lambda_tf == lam, "parameters:members", vm::cat(mu, eps, lam));
    vm::require(std::abs(p.k() - static_cast<double>(KE / eps)) <= 1e-12 * p.k(), "parameters:k", [&] { return vm::cat(eps, " ", p.k()); });
    vm::require(std::abs(p.mu_plus() - (mu - 0.59)) < 1e-15, "parameters:mu-plus", [&] { return vm::cat(mu, " ", p.mu_plus()); });
    vm::require(p.mu_plus() < p.mu_minus, "parameters:level-order", vm::cat(mu));
    // derived values follow later changes of the members
    auto q      = p;
    q.epsilon_r = eps * 2;
    q.mu_minus  = mu + 0.1;
    vm::require(std::abs(q.k() - p.k() / 2) <= 1e-12 * p.k() && std::abs(q.mu_plus() - (mu + 0.1 - 0.59)) < 1e-12, "parameters:derived", vm::cat(eps));
    vm::distinct(vm::cat(base, mu, eps, lam));
}
VM_SUITE(conversion, 3000, 60000)
{
    const sidb_simulation_parameters p{static_cast<uint8_t>(r.chance(50) ? 2 : 3), -0.32, r.real(1.0, 12), r.real(0.5, 12)};
    const uint64_t                   prec = r.range(0, 3);
    const long double                step = powl(10.0L, -static_cast<long double>(prec));
    // choose the distance the answer should have, from sub-step to tens of nm
    const long double target = r.chance(10) ? step * 0.3L : static_cast<long double>(r.real(0.01, prec == 3 ? 8 : 30));
    const auto        v      = static_cast<double>(potential(p, target));
    const auto        d      = [&] { return vm::cat("V=", v, " eps=", p.epsilon_r, " lambda=", p.lambda_tf, " precision=", prec); };
    vm::note(d());
    const double dist = potential_to_distance_conversion(v, p, prec);
    const long double n = roundl(dist / step);
    vm::require(n >= 1 && fabsl(dist - n * step) <= 1e-7L * fabsl(dist) + 1e-9L, "conversion:grid", [&] { return d() + vm::cat(" gives ", dist); });
    vm::require(potential(p, n * step) <= v * (1 + 1e-6L), "conversion:low-enough", [&] { return d() + vm::cat(" gives ", dist, " where the potential is ", static_cast<double>(potential(p, dist))); });
    vm::require(n == 1 || potential(p, (n - 1) * step) >= v * (1 - 1e-6L), "conversion:first", [&] { return d() + vm::cat(" gives ", dist, " although one step less suffices"); });
    // larger potentials are closer
    const double v2 = v * r.real(1.0, 3.0);
    vm::require(potential_to_distance_conversion(v2, p, prec) <= dist, "conversion:monotone", [&] { return d() + vm::cat(" versus ", v2); });
    // finer grids refine coarser ones
    if (prec > 0)
    {
        const double c = potential_to_distance_conversion(v, p, prec - 1);
        vm::require(c >= dist - 1e-6 && c - dist <= static_cast<double>(10 * step) + 1e-6, "conversion:refines", [&] { return d() + vm::cat(" coarse ", c, " fine ", dist); });
    }
    // potentials that the first positions of the finest grids meet
    {
        const uint64_t    fine = r.range(3, 8);
        const long double st   = powl(10.0L, -static_cast<long double>(fine));
        const auto        k    = static_cast<long double>(r.range(1, 40));
        const auto        vf   = static_cast<double>(potential(p, (k - static_cast<long double>(r.real(0.2, 0.8))) * st));
        const double      df   = potential_to_distance_conversion(vf, p, fine);
        vm::require(fabsl(df - k * st) < 1e-3L * st, "conversion:close", [&] { return vm::cat("V=", vf, " precision=", fine, " gives ", df, ", not ", static_cast<double>(k * st)); });
    }
    vm::distinct(vm::cat(v, prec, p.epsilon_r));
    vm::sample(d() + vm::cat(" -> ", dist, " nm"));
}
VM_SUITE(default_arguments, 500, 8000)
{
    const sidb_simulation_parameters p{};
    const auto v = static_cast<double>(potential(p, r.real(0.05, 20)));
    vm::require(potential_to_distance_conversion(v) == potential_to_distance_conversion(v, p, 2), "conversion:defaults", vm::cat(v));
    vm::distinct(vm::cat(v));
}
VM_MAIN
