// Stand-in for mockturtle/algorithms/cleanup.hpp.
#pragma once
#include <utility>
#include <vector>
#include "../traits.hpp"
#include "../utils/node_map.hpp"
#include "../views/topo_view.hpp"
namespace mockturtle
{
template <typename NtkDest, typename NtkSrc>
std::pair<NtkDest, node_map<signal<NtkDest>, NtkSrc>> initialize_copy_network(NtkSrc const& src)
{
    node_map<signal<NtkDest>, NtkSrc> old2new(src);
    NtkDest                           dest;
    old2new[src.get_node(src.get_constant(false))] = dest.get_constant(false);
    if (src.get_node(src.get_constant(true)) != src.get_node(src.get_constant(false)))
    {
        old2new[src.get_node(src.get_constant(true))] = dest.get_constant(true);
    }
    src.foreach_pi([&](auto const& n) { old2new[n] = dest.create_pi(); });
    return {dest, old2new};
}
namespace detail
{
template <typename NtkSrc, typename NtkDest, typename Map>
void clone_gates(NtkSrc const& ntk, NtkDest& dest, Map& m)
{
    topo_view<NtkSrc> topo{ntk};
    topo.foreach_node(
        [&](auto const& n)
        {
            if (ntk.is_constant(n) || ntk.is_ci(n))
            {
                return;
            }
            std::vector<signal<NtkDest>> ch;
            ntk.foreach_fanin(n,
                              [&](auto const& f)
                              {
                                  const auto s = m[ntk.get_node(f)];
                                  ch.push_back(ntk.is_complemented(f) ? dest.create_not(s) : s);
                              });
            if constexpr (std::is_same_v<typename NtkSrc::base_type, typename NtkDest::base_type>)
            {
                m[n] = dest.clone_node(ntk, n, ch);
                return;
            }
            else
            {
                if constexpr (has_is_and_v<NtkSrc>)
                {
                    if (ntk.is_and(n))
                    {
                        m[n] = dest.create_and(ch[0], ch[1]);
                        return;
                    }
                }
                if constexpr (has_is_or_v<NtkSrc>)
                {
                    if (ntk.is_or(n))
                    {
                        m[n] = dest.create_or(ch[0], ch[1]);
                        return;
                    }
                }
                if constexpr (has_is_xor_v<NtkSrc>)
                {
                    if (ntk.is_xor(n))
                    {
                        m[n] = dest.create_xor(ch[0], ch[1]);
                        return;
                    }
                }
                if constexpr (has_is_maj_v<NtkSrc>)
                {
                    if (ntk.is_maj(n))
                    {
                        m[n] = dest.create_maj(ch[0], ch[1], ch[2]);
                        return;
                    }
                }
                if constexpr (has_is_ite_v<NtkSrc>)
                {
                    if (ntk.is_ite(n))
                    {
                        m[n] = dest.create_ite(ch[0], ch[1], ch[2]);
                        return;
                    }
                }
                if constexpr (has_is_xor3_v<NtkSrc>)
                {
                    if (ntk.is_xor3(n))
                    {
                        m[n] = dest.create_xor3(ch[0], ch[1], ch[2]);
                        return;
                    }
                }
                if constexpr (has_create_node_v<NtkDest> && has_node_function_v<NtkSrc>)
                {
                    m[n] = dest.create_node(ch, ntk.node_function(n));
                }
                else
                {
                    assert(false && "cannot clone node");
                }
            }
        });
}
}  // namespace detail
template <typename NtkSrc, typename NtkDest, typename LeavesIt>
std::vector<signal<NtkDest>> cleanup_dangling(NtkSrc const& ntk, NtkDest& dest, LeavesIt begin, LeavesIt end)
{
    (void)end;
    std::unordered_map<uint64_t, signal<NtkDest>> m;
    m[ntk.get_node(ntk.get_constant(false))] = dest.get_constant(false);
    if (ntk.get_node(ntk.get_constant(true)) != ntk.get_node(ntk.get_constant(false)))
    {
        m[ntk.get_node(ntk.get_constant(true))] = dest.get_constant(true);
    }
    auto it = begin;
    ntk.foreach_pi([&](auto const& n) { m[n] = *it++; });
    detail::clone_gates(ntk, dest, m);
    std::vector<signal<NtkDest>> fs;
    ntk.foreach_po(
        [&](auto const& po)
        {
            const auto f = m[ntk.get_node(po)];
            fs.push_back(ntk.is_complemented(po) ? dest.create_not(f) : f);
        });
    return fs;
}
template <class NtkSrc, class NtkDest = NtkSrc>
[[nodiscard]] NtkDest cleanup_dangling(NtkSrc const& ntk, bool remove_dangling_PIs = false,
                                       bool remove_redundant_POs = false)
{
    NtkDest                      dest;
    std::vector<signal<NtkDest>> pis;
    if constexpr (has_get_network_name_v<NtkSrc> && has_set_network_name_v<NtkDest>)
    {
        dest.set_network_name(ntk.get_network_name());
    }
    ntk.foreach_pi(
        [&](auto const& n)
        {
            if (remove_dangling_PIs && ntk.fanout_size(n) == 0)
            {
                pis.push_back(dest.get_constant(false));
                return;
            }
            pis.push_back(dest.create_pi());
            if constexpr (has_has_name_v<NtkSrc> && has_get_name_v<NtkSrc> && has_set_name_v<NtkDest>)
            {
                const auto s = ntk.make_signal(n);
                if (ntk.has_name(s))
                {
                    dest.set_name(pis.back(), ntk.get_name(s));
                }
            }
        });
    const auto fs = cleanup_dangling(ntk, dest, pis.begin(), pis.end());
    uint32_t   i  = 0, j = 0;
    for (const auto& f : fs)
    {
        if (!(remove_redundant_POs && (dest.is_constant(dest.get_node(f)) || dest.is_ci(dest.get_node(f)))))
        {
            dest.create_po(f);
            if constexpr (has_has_output_name_v<NtkSrc> && has_get_output_name_v<NtkSrc> && has_set_output_name_v<NtkDest>)
            {
                if (ntk.has_output_name(i))
                {
                    dest.set_output_name(j, ntk.get_output_name(i));
                }
            }
            ++j;
        }
        ++i;
    }
    return dest;
}
}  // namespace mockturtle
