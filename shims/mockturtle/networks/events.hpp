// Stand-in for mockturtle/networks/events.hpp.
#pragma once
#include <functional>
#include <memory>
#include <vector>
#include "../traits.hpp"
namespace mockturtle
{
template <class Ntk>
class network_events
{
  public:
    using add_event_type      = void(node<Ntk> const&);
    using modified_event_type = void(node<Ntk> const&, std::vector<signal<Ntk>> const&);
    using delete_event_type   = void(node<Ntk> const&);

    std::shared_ptr<std::function<add_event_type>> register_add_event(std::function<add_event_type> const& fn)
    {
        auto p = std::make_shared<std::function<add_event_type>>(fn);
        on_add.emplace_back(p);
        return p;
    }
    std::shared_ptr<std::function<modified_event_type>> register_modified_event(std::function<modified_event_type> const& fn)
    {
        auto p = std::make_shared<std::function<modified_event_type>>(fn);
        on_modified.emplace_back(p);
        return p;
    }
    std::shared_ptr<std::function<delete_event_type>> register_delete_event(std::function<delete_event_type> const& fn)
    {
        auto p = std::make_shared<std::function<delete_event_type>>(fn);
        on_delete.emplace_back(p);
        return p;
    }
    void release_add_event(std::shared_ptr<std::function<add_event_type>>& p)
    {
        std::erase(on_add, p);
        p = nullptr;
    }
    void release_modified_event(std::shared_ptr<std::function<modified_event_type>>& p)
    {
        std::erase(on_modified, p);
        p = nullptr;
    }
    void release_delete_event(std::shared_ptr<std::function<delete_event_type>>& p)
    {
        std::erase(on_delete, p);
        p = nullptr;
    }
    std::vector<std::shared_ptr<std::function<add_event_type>>>      on_add;
    std::vector<std::shared_ptr<std::function<modified_event_type>>> on_modified;
    std::vector<std::shared_ptr<std::function<delete_event_type>>>   on_delete;
};
}  // namespace mockturtle
