// Stand-in for mockturtle/algorithms/simulation.hpp.
#pragma once
#include <unordered_map>
#include <vector>
#include <kitty/constructors.hpp>
#include "../traits.hpp"
#include "../views/topo_view.hpp"
namespace mockturtle
{
template <class T>
class default_simulator;
template <>
class default_simulator<bool>
{
  public:
    explicit default_simulator(std::vector<bool> a) : as(std::move(a)) {}
    [[nodiscard]] bool compute_constant(bool v) const { return v; }
    [[nodiscard]] bool compute_pi(uint32_t i) const { return as.at(i); }
    [[nodiscard]] bool compute_not(bool v) const { return !v; }

  private:
    std::vector<bool> as;
};
template <>
class default_simulator<kitty::dynamic_truth_table>
{
  public:
    explicit default_simulator(unsigned n = 0) : n(n) {}
    [[nodiscard]] kitty::dynamic_truth_table compute_constant(bool v) const
    {
        kitty::dynamic_truth_table t(n);
        return v ? ~t : t;
    }
    [[nodiscard]] kitty::dynamic_truth_table compute_pi(uint32_t i) const
    {
        kitty::dynamic_truth_table t(n);
        kitty::create_nth_var(t, static_cast<uint8_t>(i));
        return t;
    }
    [[nodiscard]] kitty::dynamic_truth_table compute_not(kitty::dynamic_truth_table const& v) const { return ~v; }

  private:
    unsigned n;
};
template <class T, class Ntk, class Sim = default_simulator<T>>
std::unordered_map<uint64_t, T> simulate_nodes(Ntk const& ntk, Sim const& sim = Sim())
{
    std::unordered_map<uint64_t, T> v;
    v.insert_or_assign(ntk.get_node(ntk.get_constant(false)), sim.compute_constant(false));
    if (ntk.get_node(ntk.get_constant(true)) != ntk.get_node(ntk.get_constant(false)))
    {
        v.insert_or_assign(ntk.get_node(ntk.get_constant(true)), sim.compute_constant(true));
    }
    ntk.foreach_ci([&](auto const& n, auto i) { v.insert_or_assign(n, sim.compute_pi(i)); });
    topo_view<Ntk> topo{ntk};
    topo.foreach_node(
        [&](auto const& n)
        {
            if (ntk.is_constant(n) || ntk.is_ci(n))
            {
                return;
            }
            std::vector<T> fi;
            ntk.foreach_fanin(n, [&](auto const& f) { fi.push_back(v.at(ntk.get_node(f))); });
            v.insert_or_assign(n, ntk.compute(n, fi.begin(), fi.end()));
        });
    return v;
}
template <class T, class Ntk, class Sim = default_simulator<T>>
std::vector<T> simulate(Ntk const& ntk, Sim const& sim = Sim())
{
    const auto     v = simulate_nodes<T, Ntk, Sim>(ntk, sim);
    std::vector<T> r;
    ntk.foreach_co(
        [&](auto const& f)
        {
            const auto& x = v.at(ntk.get_node(f));
            r.push_back(ntk.is_complemented(f) ? sim.compute_not(x) : x);
        });
    return r;
}
}  // namespace mockturtle
