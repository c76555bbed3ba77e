// Stand-in for mockturtle/io/write_dot.hpp.
#pragma once
#include <cstdint>
#include <fstream>
#include <ostream>
#include <string>
#include <vector>
#include <fmt/format.h>
#include <kitty/print.hpp>
#include "../traits.hpp"
#include "../views/depth_view.hpp"
namespace mockturtle
{
template <class Ntk>
class default_dot_drawer
{
  public:
    virtual ~default_dot_drawer() = default;
    virtual std::string node_label(Ntk const& ntk, node<Ntk> const& n) const { return std::to_string(ntk.node_to_index(n)); }
    virtual std::string node_shape(Ntk const& ntk, node<Ntk> const& n) const
    {
        return ntk.is_constant(n) ? "box" : (ntk.is_ci(n) ? "triangle" : "ellipse");
    }
    virtual uint32_t    node_level(Ntk const&, node<Ntk> const&) const { return 0; }
    virtual std::string node_fillcolor(Ntk const& ntk, node<Ntk> const& n) const
    {
        return ntk.is_constant(n) || ntk.is_ci(n) ? "snow2" : "white";
    }
    virtual std::string po_shape(Ntk const&, uint32_t) const { return "invtriangle"; }
    virtual std::string po_fillcolor(Ntk const&, uint32_t) const { return "snow2"; }
    virtual bool        draw_signal(Ntk const&, node<Ntk> const&, signal<Ntk> const&) const { return true; }
    virtual std::string signal_style(Ntk const& ntk, signal<Ntk> const& f) const
    {
        return ntk.is_complemented(f) ? "dashed" : "solid";
    }
};
template <class Ntk>
class gate_dot_drawer : public default_dot_drawer<Ntk>
{};
template <class Ntk, class Drawer = default_dot_drawer<Ntk>>
void write_dot(Ntk const& ntk, std::ostream& os, Drawer const& drawer = {})
{
    os << "digraph {\nrankdir=BT;\n";
    ntk.foreach_node(
        [&](auto const& n)
        {
            os << fmt::format("{} [label=\"{}\",shape={},style=filled,fillcolor={}]\n", ntk.node_to_index(n),
                              drawer.node_label(ntk, n), drawer.node_shape(ntk, n), drawer.node_fillcolor(ntk, n));
            if (!ntk.is_constant(n) && !ntk.is_ci(n))
            {
                ntk.foreach_fanin(n,
                                  [&](auto const& f)
                                  {
                                      if (drawer.draw_signal(ntk, n, f))
                                      {
                                          os << fmt::format("{} -> {} [style={}]\n", ntk.node_to_index(ntk.get_node(f)),
                                                            ntk.node_to_index(n), drawer.signal_style(ntk, f));
                                      }
                                  });
            }
        });
    os << "}\n";
}
template <class Ntk, class Drawer = default_dot_drawer<Ntk>>
void write_dot(Ntk const& ntk, std::string const& filename, Drawer const& drawer = {})
{
    std::ofstream os(filename);
    write_dot(ntk, os, drawer);
}
}  // namespace mockturtle
