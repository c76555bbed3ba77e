// Stand-in for mockturtle/utils/progress_bar.hpp (prints nothing).
#pragma once
#include <cstdint>
#include <iostream>
#include <string>
#include <string_view>
namespace mockturtle
{
class progress_bar
{
  public:
    progress_bar(std::string const&, bool = false, std::ostream& = std::cout) {}
    progress_bar(uint32_t, std::string const&, bool = false, std::ostream& = std::cout) {}
    template <typename First, typename... A>
    void operator()(First, A&&...)
    {}
    void done() {}
};
}  // namespace mockturtle
