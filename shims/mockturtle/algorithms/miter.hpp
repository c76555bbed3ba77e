// Stand-in for mockturtle/algorithms/miter.hpp.
#pragma once
#include <optional>
#include <vector>
#include "../traits.hpp"
#include "cleanup.hpp"
namespace mockturtle
{
template <class NtkDest, class NtkSource1, class NtkSource2>
std::optional<NtkDest> miter(NtkSource1 const& ntk1, NtkSource2 const& ntk2)
{
    if (ntk1.num_pis() != ntk2.num_pis() || ntk1.num_pos() != ntk2.num_pos())
    {
        return std::nullopt;
    }
    NtkDest                      dest;
    std::vector<signal<NtkDest>> pis;
    for (auto i = 0u; i < ntk1.num_pis(); ++i)
    {
        pis.push_back(dest.create_pi());
    }
    const auto p1 = cleanup_dangling(ntk1, dest, pis.begin(), pis.end());
    const auto p2 = cleanup_dangling(ntk2, dest, pis.begin(), pis.end());
    std::vector<signal<NtkDest>> x;
    for (std::size_t i = 0; i < p1.size(); ++i)
    {
        x.push_back(dest.create_xor(p1[i], p2[i]));
    }
    dest.create_po(dest.create_nary_or(x));
    return dest;
}
}  // namespace mockturtle
