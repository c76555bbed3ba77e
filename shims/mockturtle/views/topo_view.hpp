// Stand-in for mockturtle/views/topo_view.hpp: DFS topological order from the COs, constants and CIs first.
#pragma once
#include <cassert>
#include <optional>
#include <unordered_map>
#include <vector>
#include "../networks/detail/foreach.hpp"
#include "../traits.hpp"
#include "immutable_view.hpp"
namespace mockturtle
{
template <class Ntk, bool sorted = is_topologically_sorted_v<Ntk>>
class topo_view
{};
template <typename Ntk>
class topo_view<Ntk, false> : public immutable_view<Ntk>
{
  public:
    using storage                                 = typename Ntk::storage;
    using node                                    = typename Ntk::node;
    using signal                                  = typename Ntk::signal;
    static constexpr bool is_topologically_sorted = true;

    topo_view(Ntk const& ntk) : immutable_view<Ntk>(ntk) { update_topo(); }
    topo_view(Ntk const& ntk, typename Ntk::signal const& start) : immutable_view<Ntk>(ntk), start_signal(start)
    {
        update_topo();
    }
    [[nodiscard]] auto size() const { return static_cast<uint32_t>(topo_order.size()); }
    [[nodiscard]] auto num_gates() const { return static_cast<uint32_t>(topo_order.size() - offset()); }
    uint32_t           node_to_index(node const& n) const { return index.at(n); }
    node               index_to_node(uint32_t i) const { return topo_order.at(i); }
    template <typename Fn>
    void foreach_node(Fn&& fn) const
    {
        detail::foreach_element(topo_order.begin(), topo_order.end(), fn);
    }
    template <typename Fn>
    void foreach_node_reverse(Fn&& fn) const
    {
        detail::foreach_element(topo_order.rbegin(), topo_order.rend(), fn);
    }
    template <typename Fn>
    void foreach_gate(Fn&& fn) const
    {
        detail::foreach_element(topo_order.begin() + offset(), topo_order.end(), fn);
    }
    template <typename Fn>
    void foreach_gate_reverse(Fn&& fn) const
    {
        detail::foreach_element(topo_order.rbegin(), topo_order.rend() - offset(), fn);
    }
    template <typename Fn>
    void foreach_po(Fn&& fn) const
    {
        if (start_signal)
        {
            std::vector<signal> s{*start_signal};
            detail::foreach_element(s.begin(), s.end(), fn);
        }
        else
        {
            Ntk::foreach_po(fn);
        }
    }
    auto num_pos() const { return start_signal ? 1 : static_cast<uint32_t>(Ntk::num_pos()); }
    void update_topo()
    {
        this->incr_trav_id();
        this->incr_trav_id();
        topo_order.clear();
        index.clear();
        const auto c0 = this->get_node(this->get_constant(false));
        add(c0);
        this->set_visited(c0, this->trav_id());
        if (const auto c1 = this->get_node(this->get_constant(true)); this->visited(c1) != this->trav_id())
        {
            add(c1);
            this->set_visited(c1, this->trav_id());
        }
        this->foreach_ci(
            [this](auto n)
            {
                if (this->visited(n) != this->trav_id())
                {
                    add(n);
                    this->set_visited(n, this->trav_id());
                }
            });
        if (start_signal)
        {
            if (this->visited(this->get_node(*start_signal)) != this->trav_id())
            {
                rec(this->get_node(*start_signal));
            }
        }
        else
        {
            Ntk::foreach_co(
                [this](auto f)
                {
                    if (this->visited(this->get_node(f)) != this->trav_id())
                    {
                        rec(this->get_node(f));
                    }
                });
        }
    }

  private:
    [[nodiscard]] uint32_t offset() const
    {
        return 1u + static_cast<uint32_t>(this->num_cis()) +
               (this->get_node(this->get_constant(true)) != this->get_node(this->get_constant(false)) ? 1u : 0u);
    }
    void add(node const& n)
    {
        index[n] = static_cast<uint32_t>(topo_order.size());
        topo_order.push_back(n);
    }
    void rec(node const& n)
    {
        assert(this->visited(n) != this->trav_id());
        assert(this->visited(n) != this->trav_id() - 1);  // cycle
        this->set_visited(n, this->trav_id() - 1);
        this->foreach_fanin(n,
                            [this](auto f)
                            {
                                if (this->visited(this->get_node(f)) != this->trav_id())
                                {
                                    rec(this->get_node(f));
                                }
                            });
        this->set_visited(n, this->trav_id());
        add(n);
    }
    std::vector<node>                      topo_order;
    std::unordered_map<uint64_t, uint32_t> index;
    std::optional<signal>                  start_signal;
};
template <typename Ntk>
class topo_view<Ntk, true> : public Ntk
{
  public:
    topo_view(Ntk const& ntk) : Ntk(ntk) {}
};
template <class T>
topo_view(T const&) -> topo_view<T>;
template <class T>
topo_view(T const&, typename T::signal const&) -> topo_view<T>;
}  // namespace mockturtle
