// Stand-in for mockturtle/algorithms/equivalence_checking.hpp: decided by exhaustive simulation instead of SAT.
#pragma once
#include <optional>
#include <vector>
#include "../traits.hpp"
#include "cleanup.hpp"
#include "../utils/stopwatch.hpp"
#include "simulation.hpp"
namespace mockturtle
{
struct equivalence_checking_params
{
    bool functional_reduction{true};
    uint32_t conflict_limit{0};
    bool verbose{false};
};
struct equivalence_checking_stats
{
    stopwatch<>::duration time_total{};
    std::vector<bool>     counter_example;
};
template <class Ntk>
std::optional<bool> equivalence_checking(Ntk const& miter, equivalence_checking_params const& = {},
                                         equivalence_checking_stats* pst = nullptr)
{
    const auto n = miter.num_pis();
    if (n > 18)
    {
        return std::nullopt;
    }
    default_simulator<kitty::dynamic_truth_table> sim(n);
    const auto r = simulate<kitty::dynamic_truth_table>(miter, sim);
    for (uint64_t i = 0; i < r.at(0).num_bits(); ++i)
    {
        if (kitty::get_bit(r[0], i) != 0)
        {
            if (pst != nullptr)
            {
                pst->counter_example.clear();
                for (auto k = 0u; k < n; ++k)
                {
                    pst->counter_example.push_back(((i >> k) & 1) != 0);
                }
            }
            return false;
        }
    }
    return true;
}
}  // namespace mockturtle
