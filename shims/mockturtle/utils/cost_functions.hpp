// Stand-in for mockturtle/utils/cost_functions.hpp.
#pragma once
#include <cstdint>
#include "../traits.hpp"
namespace mockturtle
{
template <class Ntk>
struct unit_cost
{
    uint32_t operator()(Ntk const&, node<Ntk> const&) const { return 1u; }
};
template <class Ntk>
struct mc_cost
{
    uint32_t operator()(Ntk const& ntk, node<Ntk> const& n) const
    {
        if constexpr (has_is_xor_v<Ntk>)
        {
            if (ntk.is_xor(n))
            {
                return 0u;
            }
        }
        return 1u;
    }
};
}  // namespace mockturtle
