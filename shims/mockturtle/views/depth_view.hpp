// Stand-in for mockturtle/views/depth_view.hpp.
#pragma once
#include <algorithm>
#include <unordered_map>
#include <vector>
#include "../networks/detail/foreach.hpp"
#include "../traits.hpp"
#include "../utils/cost_functions.hpp"
#include "immutable_view.hpp"
namespace mockturtle
{
struct depth_view_params
{
    bool count_complements{false};
    bool pi_cost{false};
};
template <class Ntk, class NodeCostFn = unit_cost<Ntk>,
          bool has_depth_interface = has_depth_v<Ntk> && has_level_v<Ntk> && has_update_levels_v<Ntk>>
class depth_view
{};
template <class Ntk, class NodeCostFn>
class depth_view<Ntk, NodeCostFn, true> : public Ntk
{
  public:
    depth_view(Ntk const& ntk, depth_view_params const& = {}) : Ntk(ntk) {}
};
template <class Ntk, class NodeCostFn>
class depth_view<Ntk, NodeCostFn, false> : public Ntk
{
  public:
    using storage = typename Ntk::storage;
    using node    = typename Ntk::node;
    using signal  = typename Ntk::signal;
    explicit depth_view(NodeCostFn const& c = {}, depth_view_params const& p = {}) : Ntk(), ps(p), cost(c) {}
    explicit depth_view(Ntk const& ntk, NodeCostFn const& c = {}, depth_view_params const& p = {}) :
            Ntk(ntk),
            ps(p),
            cost(c)
    {
        update_levels();
    }
    uint32_t depth() const { return _depth; }
    uint32_t level(node const& n) const
    {
        const auto it = _levels.find(n);
        return it == _levels.end() ? 0 : it->second;
    }
    bool is_on_critical_path(node const& n) const { return _crit.count(n) != 0; }
    void set_level(node const& n, uint32_t l) { _levels[n] = l; }
    void set_depth(uint32_t l) { _depth = l; }
    void update_levels()
    {
        _levels.clear();
        _crit.clear();
        _depth = 0;
        this->foreach_co(
            [this](auto const& f)
            {
                auto l = compute(this->get_node(f));
                if (ps.count_complements && this->is_complemented(f))
                {
                    ++l;
                }
                _depth = std::max(_depth, l);
            });
        this->foreach_co(
            [this](auto const& f)
            {
                const auto n = this->get_node(f);
                if (_levels[n] == _depth)
                {
                    crit(n);
                }
            });
    }

  private:
    uint32_t compute(node const& n)
    {
        if (const auto it = _levels.find(n); it != _levels.end())
        {
            return it->second;
        }
        if (this->is_constant(n))
        {
            return _levels[n] = 0;
        }
        if (this->is_ci(n))
        {
            return _levels[n] = ps.pi_cost ? cost(*this, n) - 1 : 0;
        }
        uint32_t l = 0;
        this->foreach_fanin(n,
                            [this, &l](auto const& f)
                            {
                                auto c = compute(this->get_node(f));
                                if (ps.count_complements && this->is_complemented(f))
                                {
                                    ++c;
                                }
                                l = std::max(l, c);
                            });
        return _levels[n] = l + cost(*this, n);
    }
    void crit(node const& n)
    {
        _crit[n] = true;
        if (!this->is_constant(n) && !this->is_ci(n))
        {
            this->foreach_fanin(n,
                                [this, &n](auto const& f)
                                {
                                    const auto cn = this->get_node(f);
                                    if (_levels[cn] + cost(*this, n) == _levels[n] && !is_on_critical_path(cn))
                                    {
                                        crit(cn);
                                    }
                                });
        }
    }
    depth_view_params                      ps;
    NodeCostFn                             cost;
    std::unordered_map<uint64_t, uint32_t> _levels;
    std::unordered_map<uint64_t, bool>     _crit;
    uint32_t                               _depth{0};
};
template <class T>
depth_view(T const&) -> depth_view<T>;
}  // namespace mockturtle
