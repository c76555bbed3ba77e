// Stand-in for mockturtle/utils/node_map.hpp: vector-indexed map from nodes to values; copies share their data.
#pragma once
#include <cassert>
#include <memory>
#include <type_traits>
#include <unordered_map>
#include <vector>
#include "../traits.hpp"
namespace mockturtle
{
template <class T, class Ntk, class Impl = std::vector<T>>
class node_map
{
  public:
    using node           = typename Ntk::node;
    using signal         = typename Ntk::signal;
    using container_type = Impl;
    using reference       = typename Impl::reference;
    using const_reference = typename Impl::const_reference;

    explicit node_map(Ntk const& n) : ntk(&n), data(std::make_shared<Impl>(n.size())) {}
    node_map(Ntk const& n, T const& init) : ntk(&n), data(std::make_shared<Impl>(n.size(), init)) {}

    [[nodiscard]] auto size() const { return data->size(); }
    reference          operator[](node const& n) { return data->at(ntk->node_to_index(n)); }
    const_reference    operator[](node const& n) const { return static_cast<const Impl&>(*data).at(ntk->node_to_index(n)); }
    template <typename S, typename = std::enable_if_t<std::is_same_v<S, signal> && !std::is_same_v<signal, node>>>
    reference operator[](S const& f)
    {
        return data->at(ntk->node_to_index(ntk->get_node(f)));
    }
    template <typename S, typename = std::enable_if_t<std::is_same_v<S, signal> && !std::is_same_v<signal, node>>>
    const_reference operator[](S const& f) const
    {
        return static_cast<const Impl&>(*data).at(ntk->node_to_index(ntk->get_node(f)));
    }
    void reset(T const& init = T{})
    {
        data->clear();
        data->resize(ntk->size(), init);
    }
    void resize(T const& init = T{})
    {
        if (ntk->size() > data->size())
        {
            data->resize(ntk->size(), init);
        }
    }

  private:
    Ntk const*            ntk;
    std::shared_ptr<Impl> data;
};
template <class T, class Ntk>
class unordered_node_map
{
  public:
    using node   = typename Ntk::node;
    using signal = typename Ntk::signal;
    explicit unordered_node_map(Ntk const& n) : ntk(&n), data(std::make_shared<std::unordered_map<uint64_t, T>>()) {}
    [[nodiscard]] bool has(node const& n) const { return data->count(ntk->node_to_index(n)) != 0; }
    T&                 operator[](node const& n) { return (*data)[ntk->node_to_index(n)]; }
    const T&           operator[](node const& n) const { return data->at(ntk->node_to_index(n)); }
    template <typename S, typename = std::enable_if_t<std::is_same_v<S, signal> && !std::is_same_v<signal, node>>>
    T& operator[](S const& f)
    {
        return (*data)[ntk->node_to_index(ntk->get_node(f))];
    }
    void reset() { data->clear(); }

  private:
    Ntk const*                                       ntk;
    std::shared_ptr<std::unordered_map<uint64_t, T>> data;
};
}  // namespace mockturtle
