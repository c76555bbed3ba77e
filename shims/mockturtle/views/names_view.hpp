// Stand-in for mockturtle/views/names_view.hpp.
#pragma once
#include <map>
#include <string>
#include "../traits.hpp"
namespace mockturtle
{
template <class Ntk>
class names_view : public Ntk
{
  public:
    using storage = typename Ntk::storage;
    using node    = typename Ntk::node;
    using signal  = typename Ntk::signal;
    names_view(Ntk const& ntk = Ntk(), std::string name = {}) : Ntk(ntk), _network_name{std::move(name)} {}
    names_view(names_view<Ntk> const&) = default;
    names_view(names_view<Ntk>&&)      = default;
    names_view& operator=(names_view<Ntk> const& o) = default;
    names_view& operator=(names_view<Ntk>&&)        = default;
    signal      create_pi(std::string const& name = {})
    {
        const auto s = Ntk::create_pi();
        if (!name.empty())
        {
            set_name(s, name);
        }
        return s;
    }
    void create_po(signal const& f, std::string const& name = {})
    {
        const auto index = this->num_pos();
        Ntk::create_po(f);
        if (!name.empty())
        {
            set_output_name(index, name);
        }
    }
    void               set_network_name(std::string const& n) noexcept { _network_name = n; }
    [[nodiscard]] std::string get_network_name() const noexcept { return _network_name; }
    bool               has_name(signal const& s) const { return _signal_names.find(s) != _signal_names.end(); }
    void               set_name(signal const& s, std::string const& n) { _signal_names[s] = n; }
    std::string        get_name(signal const& s) const { return _signal_names.at(s); }
    [[nodiscard]] bool has_output_name(uint32_t i) const { return _output_names.find(i) != _output_names.end(); }
    void               set_output_name(uint32_t i, std::string const& n) { _output_names[i] = n; }
    [[nodiscard]] std::string get_output_name(uint32_t i) const { return _output_names.at(i); }

  private:
    std::string                     _network_name;
    std::map<signal, std::string>   _signal_names;
    std::map<uint32_t, std::string> _output_names;
};
template <class T>
names_view(T const&) -> names_view<T>;
}  // namespace mockturtle
