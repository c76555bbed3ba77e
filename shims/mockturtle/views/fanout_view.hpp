// Stand-in for mockturtle/views/fanout_view.hpp.
#pragma once
#include <algorithm>
#include <functional>
#include <memory>
#include <unordered_map>
#include <vector>
#include "../networks/detail/foreach.hpp"
#include "../networks/events.hpp"
#include "../traits.hpp"
#include "immutable_view.hpp"
namespace mockturtle
{
template <typename Ntk, bool has_fanout_interface = has_foreach_fanout_v<Ntk>>
class fanout_view
{};
template <typename Ntk>
class fanout_view<Ntk, true> : public Ntk
{
  public:
    fanout_view(Ntk const& ntk) : Ntk(ntk) {}
};
template <typename Ntk>
class fanout_view<Ntk, false> : public Ntk
{
  public:
    using storage = typename Ntk::storage;
    using node    = typename Ntk::node;
    using signal  = typename Ntk::signal;
    explicit fanout_view() : Ntk() { reg(); }
    explicit fanout_view(Ntk const& ntk) : Ntk(ntk)
    {
        update_fanout();
        reg();
    }
    fanout_view(fanout_view const& o) : Ntk(o)
    {
        update_fanout();
        reg();
    }
    fanout_view& operator=(fanout_view const& o)
    {
        if (this != &o)
        {
            unreg();
            Ntk::operator=(o);
            update_fanout();
            reg();
        }
        return *this;
    }
    ~fanout_view() { unreg(); }
    template <typename Fn>
    void foreach_fanout(node const& n, Fn&& fn) const
    {
        const auto it = _fanout.find(n);
        if (it != _fanout.end())
        {
            mockturtle::detail::foreach_element(it->second.begin(), it->second.end(), fn);
        }
    }
    void update_fanout()
    {
        _fanout.clear();
        this->foreach_gate([this](auto const& n) { add(n); });
    }
    std::vector<node> fanout(node const& n) const
    {
        const auto it = _fanout.find(n);
        return it == _fanout.end() ? std::vector<node>{} : it->second;
    }

  private:
    void add(node const& n)
    {
        this->foreach_fanin(n,
                            [this, &n](auto const& f)
                            {
                                auto& v = _fanout[this->get_node(f)];
                                if (std::find(v.begin(), v.end(), n) == v.end())
                                {
                                    v.push_back(n);
                                }
                            });
    }
    void reg() { ev = Ntk::events().register_add_event([this](const auto& n) { add(n); }); }
    void unreg()
    {
        if (ev)
        {
            Ntk::events().release_add_event(ev);
        }
    }
    std::unordered_map<uint64_t, std::vector<node>> _fanout;
    decltype(std::declval<Ntk&>().events().register_add_event(nullptr)) ev;
};
template <class T>
fanout_view(T const&) -> fanout_view<T>;
}  // namespace mockturtle
