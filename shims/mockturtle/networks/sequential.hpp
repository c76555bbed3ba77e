// Stand-in for mockturtle/networks/sequential.hpp (registers at the end of the CI / CO lists).
#pragma once
#include <vector>
#include "../traits.hpp"
namespace mockturtle
{
struct register_t
{};
template <typename Ntk>
class sequential : public Ntk
{
  public:
    using node   = typename Ntk::node;
    using signal = typename Ntk::signal;
    sequential() = default;
    signal create_pi() { return Ntk::create_pi(); }
    signal create_ro()
    {
        ++nregs;
        return Ntk::create_pi();
    }
    uint32_t create_ri(signal const& f) { return Ntk::create_po(f); }
    auto     num_pis() const { return static_cast<uint32_t>(Ntk::num_cis() - nregs); }
    auto     num_pos() const { return static_cast<uint32_t>(Ntk::num_cos() - nregs); }
    auto     num_registers() const { return nregs; }
    bool     is_combinational() const { return nregs == 0; }
    bool     is_pi(node const& n) const
    {
        bool r = false;
        foreach_pi([&](auto m) { r |= m == n; });
        return r;
    }
    template <typename Fn>
    void foreach_pi(Fn&& fn) const
    {
        Ntk::foreach_pi([&](auto n, auto i) { if (i < num_pis()) { detail::call_fn<node>(fn, n, i); } });
    }
    template <typename Fn>
    void foreach_po(Fn&& fn) const
    {
        Ntk::foreach_po([&](auto n, auto i) { if (i < num_pos()) { detail::call_fn<signal>(fn, n, i); } });
    }
    template <typename Fn>
    void foreach_ro(Fn&& fn) const
    {
        Ntk::foreach_pi([&](auto n, auto i) { if (i >= num_pis()) { detail::call_fn<node>(fn, n, i - num_pis()); } });
    }
    template <typename Fn>
    void foreach_ri(Fn&& fn) const
    {
        Ntk::foreach_po([&](auto n, auto i) { if (i >= num_pos()) { detail::call_fn<signal>(fn, n, i - num_pos()); } });
    }

  private:
    uint32_t nregs{0};
};
}  // namespace mockturtle
