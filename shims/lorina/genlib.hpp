// Stand-in for lorina/genlib.hpp: reads the GATE lines of a genlib library (expressions over ! * + ^ and parentheses).
#pragma once
#include <cctype>
#include <istream>
#include <string>
#include <vector>
namespace lorina
{
enum class return_code
{
    success,
    parse_error
};
class genlib_reader
{};
struct genlib_gate_desc
{
    std::string name, expression, output_name;
    double      area{0};
};
template <typename Reader>
[[nodiscard]] return_code read_genlib(std::istream& in, const Reader& r)
{
    std::string line;
    while (std::getline(in, line))
    {
        std::size_t p = 0;
        auto        word = [&]
        {
            while (p < line.size() && std::isspace(static_cast<unsigned char>(line[p])) != 0)
            {
                ++p;
            }
            std::string w;
            while (p < line.size() && std::isspace(static_cast<unsigned char>(line[p])) == 0)
            {
                w += line[p++];
            }
            return w;
        };
        const auto kw = word();
        if (kw.empty())
        {
            continue;
        }
        if (kw != "GATE")
        {
            return return_code::parse_error;
        }
        genlib_gate_desc d;
        d.name = word();
        try
        {
            d.area = std::stod(word());
        }
        catch (...)
        {
            return return_code::parse_error;
        }
        const auto e = line.find(';', p);
        if (e == std::string::npos)
        {
            return return_code::parse_error;
        }
        const auto f  = line.substr(p, e - p);
        const auto eq = f.find('=');
        if (eq == std::string::npos)
        {
            return return_code::parse_error;
        }
        for (auto c : f.substr(0, eq))
        {
            if (std::isspace(static_cast<unsigned char>(c)) == 0)
            {
                d.output_name += c;
            }
        }
        for (auto c : f.substr(eq + 1))
        {
            if (std::isspace(static_cast<unsigned char>(c)) == 0)
            {
                d.expression += c;
            }
        }
        if (!r.on_gate_desc(d))
        {
            return return_code::parse_error;
        }
    }
    return return_code::success;
}
}  // namespace lorina
