// Stand-in for mockturtle/views/color_view.hpp.
#pragma once
#include <algorithm>
#include <vector>
#include "../traits.hpp"
namespace mockturtle
{
template <typename Ntk>
class out_of_place_color_view : public Ntk
{
  public:
    using storage = typename Ntk::storage;
    using node    = typename Ntk::node;
    using signal  = typename Ntk::signal;
    explicit out_of_place_color_view(Ntk const& ntk) : Ntk(ntk), values(ntk.size()) {}
    uint32_t new_color() const { return ++value; }
    uint32_t current_color() const { return value; }
    void     clear_colors(uint32_t c = 0) const
    {
        values.clear();
        values.resize(this->size());
        std::fill(values.begin(), values.end(), c);
    }
    auto color(node const& n) const { return values.at(this->node_to_index(n)); }
    template <typename S, typename = std::enable_if_t<std::is_same_v<S, signal> && !std::is_same_v<signal, node>>>
    auto color(S const& f) const
    {
        return color(this->get_node(f));
    }
    void paint(node const& n) const { values.at(this->node_to_index(n)) = value; }
    void paint(node const& n, uint32_t c) const { values.at(this->node_to_index(n)) = c; }
    template <typename Pred>
    bool eval_color(node const& n, Pred&& pred) const
    {
        return pred(color(n));
    }
    template <typename Pred>
    bool eval_color(node const& a, node const& b, Pred&& pred) const
    {
        return pred(color(a), color(b));
    }
    void paint(node const& n, node const& other) const { values.at(this->node_to_index(n)) = values.at(this->node_to_index(other)); }
    template <typename Pred>
    bool eval_fanins_color(node const& n, Pred&& pred) const
    {
        bool r = true;
        this->foreach_fanin(n,
                            [&](auto const& f)
                            {
                                if (!pred(color(this->get_node(f))))
                                {
                                    r = false;
                                }
                                return r;
                            });
        return r;
    }

  protected:
    mutable std::vector<uint32_t> values;
    mutable uint32_t              value{0};
};
template <class T>
out_of_place_color_view(T const&) -> out_of_place_color_view<T>;
}  // namespace mockturtle
