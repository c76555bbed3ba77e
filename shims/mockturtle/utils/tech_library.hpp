// Stand-in for mockturtle/utils/tech_library.hpp: keeps the gates with at most NumInp inputs.
#pragma once
#include <vector>
#include "../io/genlib_reader.hpp"
namespace mockturtle
{
template <unsigned NumInp>
class tech_library
{
    std::vector<gate> gs{};

  public:
    explicit tech_library(const std::vector<gate>& g)
    {
        for (const auto& x : g)
        {
            if (x.num_vars <= NumInp)
            {
                gs.push_back(x);
            }
        }
    }
    [[nodiscard]] const std::vector<gate>& get_gates() const { return gs; }
};
}  // namespace mockturtle
