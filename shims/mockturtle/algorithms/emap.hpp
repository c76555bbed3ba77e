// Stand-in for mockturtle's mapper: covers every node with a cut of at most three leaves and a library gate that computes
// the cut's function under some input permutation/phase (inverters from the library). The choice among the matching gates
// is spread pseudo-randomly so that every gate of the library gets used sooner or later.
#pragma once
#include <algorithm>
#include <array>
#include <map>
#include <numeric>
#include <optional>
#include <set>
#include <utility>
#include <vector>
#include "../networks/klut.hpp"
#include "../traits.hpp"
#include "../utils/tech_library.hpp"
#include "../views/names_view.hpp"
namespace mockturtle
{
struct emap_params
{
    bool verbose{false};
};
struct emap_stats
{
    bool mapping_error{false};
    void report() const {}
};
namespace shim
{
template <typename Ntk, typename Lib>
class mapper
{
    using node = typename Ntk::node;
    using tt   = kitty::dynamic_truth_table;
    const Ntk&                             ntk;
    const Lib&                             lib;
    klut_network&                          out;
    std::map<std::pair<uint64_t, bool>, klut_network::signal> done{};
    const mockturtle::gate*                            inv{nullptr};
    uint64_t                               rnd{0x9e3779b97f4a7c15ull};

    uint64_t next()
    {
        rnd ^= rnd << 13;
        rnd ^= rnd >> 7;
        rnd ^= rnd << 17;
        return rnd;
    }
    // value of n when the leaves take the bits of `m`
    bool eval(node n, const std::vector<node>& leaves, unsigned m)
    {
        for (std::size_t i = 0; i < leaves.size(); ++i)
        {
            if (leaves[i] == n)
            {
                return (m >> i) & 1;
            }
        }
        if (ntk.is_constant(n))
        {
            return ntk.constant_value(n);
        }
        const auto f   = ntk.node_function(n);
        unsigned   idx = 0, k = 0;
        ntk.foreach_fanin(n,
                          [&](auto const& s)
                          {
                              const bool v = eval(ntk.get_node(s), leaves, m) ^ compl_(s);
                              idx |= static_cast<unsigned>(v) << k++;
                          });
        return kitty::get_bit(f, idx);
    }
    template <typename S>
    bool compl_(const S& s)
    {
        if constexpr (has_is_complemented_v<Ntk>)
        {
            return ntk.is_complemented(s);
        }
        return false;
    }
    std::vector<node> fanins(node n)
    {
        std::vector<node> r;
        ntk.foreach_fanin(n,
                          [&](auto const& s)
                          {
                              const auto m = ntk.get_node(s);
                              if (!ntk.is_constant(m) && std::find(r.begin(), r.end(), m) == r.end())
                              {
                                  r.push_back(m);
                              }
                          });
        return r;
    }
    struct match
    {
        const mockturtle::gate*         g;
        std::vector<int>    perm;   // gate input i <- leaf perm[i]
        unsigned            phase;  // inverted gate inputs
        bool                outinv;
        std::vector<node>   leaves;
    };
    void matches(const std::vector<node>& leaves, const std::vector<bool>& f, std::vector<match>& ms)
    {
        for (const auto& g : lib.get_gates())
        {
            if (g.num_vars != leaves.size())
            {
                continue;
            }
            std::vector<int> perm(leaves.size());
            std::iota(perm.begin(), perm.end(), 0);
            do
            {
                for (unsigned ph = 0; ph < (inv != nullptr ? (1u << leaves.size()) : 1u); ++ph)
                {
                    bool eq = true, ne = true;
                    for (unsigned m = 0; m < f.size(); ++m)
                    {
                        unsigned idx = 0;
                        for (std::size_t i = 0; i < perm.size(); ++i)
                        {
                            idx |= (((m >> perm[i]) & 1u) ^ ((ph >> i) & 1u)) << i;
                        }
                        (kitty::get_bit(g.function, idx) == f[m] ? ne : eq) = false;
                    }
                    if (eq || (ne && inv != nullptr))
                    {
                        ms.push_back({&g, perm, ph, !eq, leaves});
                    }
                }
            } while (std::next_permutation(perm.begin(), perm.end()));
        }
    }

  public:
    bool error{false};
    mapper(const Ntk& n, const Lib& l, klut_network& o) : ntk(n), lib(l), out(o)
    {
        for (const auto& g : lib.get_gates())
        {
            if (g.num_vars == 1 && !kitty::get_bit(g.function, 1) && kitty::get_bit(g.function, 0) && inv == nullptr)
            {
                inv = &g;
            }
        }
    }
    void set(node n, klut_network::signal s) { done[{ntk.node_to_index(n), false}] = s; }
    klut_network::signal map(node n, bool neg)
    {
        const auto key = std::make_pair(static_cast<uint64_t>(ntk.node_to_index(n)), neg);
        if (auto it = done.find(key); it != done.end())
        {
            return it->second;
        }
        if (ntk.is_constant(n))
        {
            return done[key] = out.get_constant(ntk.constant_value(n) != neg);
        }
        if (neg)
        {
            const auto s = map(n, false);
            if (inv == nullptr)
            {
                error = true;
                return s;
            }
            return done[key] = out.create_node({s}, inv->function);
        }
        // candidate cuts: the fanins, and the fanins with one of them replaced by its own fanins
        std::vector<std::vector<node>> cuts;
        const auto                     fi = fanins(n);
        cuts.push_back(fi);
        for (const auto x : fi)
        {
            if (ntk.is_pi(x) || ntk.is_constant(x))
            {
                continue;
            }
            std::vector<node> c;
            for (const auto y : fi)
            {
                if (y != x)
                {
                    c.push_back(y);
                }
            }
            for (const auto y : fanins(x))
            {
                if (std::find(c.begin(), c.end(), y) == c.end())
                {
                    c.push_back(y);
                }
            }
            if (c.size() <= 3)
            {
                cuts.push_back(c);
            }
        }
        std::vector<match> ms;
        for (const auto& c : cuts)
        {
            if (c.empty() || c.size() > 3)
            {
                continue;
            }
            std::vector<bool> f;
            for (unsigned m = 0; m < (1u << c.size()); ++m)
            {
                f.push_back(eval(n, c, m));
            }
            matches(c, f, ms);
        }
        if (ms.empty())
        {
            error = true;
            return out.get_constant(false);
        }
        const auto&                       m = ms[next() % ms.size()];
        std::vector<klut_network::signal> ch;
        for (std::size_t i = 0; i < m.perm.size(); ++i)
        {
            ch.push_back(map(m.leaves[static_cast<std::size_t>(m.perm[i])], ((m.phase >> i) & 1u) != 0));
        }
        auto s = out.create_node(ch, m.g->function);
        if (m.outinv)
        {
            s = out.create_node({s}, inv->function);
        }
        return done[key] = s;
    }
};
}  // namespace shim
template <typename Ntk, typename Lib>
klut_network emap(const Ntk& ntk, const Lib& lib, const emap_params& = {}, emap_stats* st = nullptr)
{
    klut_network           out;
    shim::mapper<Ntk, Lib> m(ntk, lib, out);
    ntk.foreach_pi([&](auto const& n) { m.set(n, out.create_pi()); });
    std::vector<klut_network::signal> pos;
    ntk.foreach_po(
        [&](auto const& s)
        {
            bool c = false;
            if constexpr (has_is_complemented_v<Ntk>)
            {
                c = ntk.is_complemented(s);
            }
            pos.push_back(m.map(ntk.get_node(s), c));
        });
    for (auto s : pos)
    {
        out.create_po(s);
    }
    if (st != nullptr)
    {
        st->mapping_error = m.error;
    }
    return out;
}
}  // namespace mockturtle
