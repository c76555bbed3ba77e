// Stand-in for mockturtle/views/immutable_view.hpp.
#pragma once
#include <string>
#include <vector>
#include "../traits.hpp"
namespace mockturtle
{
template <typename Ntk>
class immutable_view : public Ntk
{
  public:
    using storage = typename Ntk::storage;
    using node    = typename Ntk::node;
    using signal  = typename Ntk::signal;
    immutable_view(Ntk const& ntk) : Ntk(ntk) {}
    signal create_pi(std::string const& = {})                                           = delete;
    void   create_po(signal const&, std::string const& = {})                            = delete;
    signal create_buf(signal const&)                                                    = delete;
    signal create_not(signal const&)                                                    = delete;
    signal create_and(signal const&, signal const&)                                     = delete;
    signal create_nand(signal const&, signal const&)                                    = delete;
    signal create_or(signal const&, signal const&)                                      = delete;
    signal create_nor(signal const&, signal const&)                                     = delete;
    signal create_lt(signal const&, signal const&)                                      = delete;
    signal create_le(signal const&, signal const&)                                      = delete;
    signal create_xor(signal const&, signal const&)                                     = delete;
    signal create_maj(signal const&, signal const&, signal const&)                      = delete;
    signal create_ite(signal const&, signal const&, signal const&)                      = delete;
    signal create_node(std::vector<signal> const&, kitty::dynamic_truth_table const&)   = delete;
    signal clone_node(immutable_view<Ntk> const&, node const&, std::vector<signal> const&) = delete;
    void   substitute_node(node const&, node const&)                                    = delete;
};
}  // namespace mockturtle
