// Stand-in: only the plain forwarding part of mockturtle's dont_care_view.
#pragma once
namespace mockturtle
{
template <class Ntk, bool hasEXCDC, bool hasEXODC>
class dont_care_view : public Ntk
{
  public:
    explicit dont_care_view(const Ntk& n) : Ntk(n) {}
};
}  // namespace mockturtle
