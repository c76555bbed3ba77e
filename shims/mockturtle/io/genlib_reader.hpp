// Stand-in for mockturtle/io/genlib_reader.hpp.
#pragma once
#include <algorithm>
#include <cctype>
#include <string>
#include <vector>
#include <kitty/dynamic_truth_table.hpp>
#include <lorina/genlib.hpp>
namespace mockturtle
{
struct gate
{
    unsigned                   id{};
    std::string                name{};
    std::string                expression{};
    uint32_t                   num_vars{};
    kitty::dynamic_truth_table function{};
    double                     area{};
    std::string                output_name{};
};
namespace shim
{
// precedence: ! > * > ^ > +
class genlib_expr
{
    const std::string&        s;
    const std::vector<char>&  vars;
    std::size_t               p{0};
    using tt = kitty::dynamic_truth_table;
    tt prim()
    {
        if (p < s.size() && s[p] == '!')
        {
            ++p;
            return ~prim();
        }
        if (p < s.size() && s[p] == '(')
        {
            ++p;
            auto r = sum();
            if (p >= s.size() || s[p] != ')')
            {
                ok = false;
                return r;
            }
            ++p;
            return r;
        }
        if (s.compare(p, 6, "CONST0") == 0)
        {
            p += 6;
            return tt(static_cast<uint32_t>(vars.size()));
        }
        if (s.compare(p, 6, "CONST1") == 0)
        {
            p += 6;
            return ~tt(static_cast<uint32_t>(vars.size()));
        }
        tt r(static_cast<uint32_t>(vars.size()));
        if (p >= s.size() || std::isalpha(static_cast<unsigned char>(s[p])) == 0)
        {
            ok = false;
            return r;
        }
        const auto i = std::find(vars.begin(), vars.end(), s[p++]) - vars.begin();
        kitty::create_nth_var(r, static_cast<uint8_t>(i));
        return r;
    }
    tt prod()
    {
        auto r = prim();
        while (ok && p < s.size() && s[p] == '*')
        {
            ++p;
            r = r & prim();
        }
        return r;
    }
    tt xr()
    {
        auto r = prod();
        while (ok && p < s.size() && s[p] == '^')
        {
            ++p;
            r = r ^ prod();
        }
        return r;
    }
    tt sum()
    {
        auto r = xr();
        while (ok && p < s.size() && s[p] == '+')
        {
            ++p;
            r = r | xr();
        }
        return r;
    }

  public:
    bool ok{true};
    genlib_expr(const std::string& e, const std::vector<char>& v) : s(e), vars(v) {}
    tt operator()()
    {
        auto r = sum();
        ok     = ok && p == s.size();
        return r;
    }
};
}  // namespace shim
class genlib_reader : public lorina::genlib_reader
{
    std::vector<gate>& gates;

  public:
    explicit genlib_reader(std::vector<gate>& g) : gates(g) {}
    bool on_gate_desc(const lorina::genlib_gate_desc& d) const
    {
        std::vector<char> vars;
        if (d.expression.rfind("CONST", 0) != 0)
        {
            for (auto c : d.expression)
            {
                if (std::isalpha(static_cast<unsigned char>(c)) != 0 &&
                    std::find(vars.begin(), vars.end(), c) == vars.end())
                {
                    vars.push_back(c);
                }
            }
        }
        shim::genlib_expr e(d.expression, vars);
        auto              f = e();
        if (!e.ok)
        {
            return false;
        }
        gates.push_back(gate{static_cast<unsigned>(gates.size()), d.name, d.expression,
                             static_cast<uint32_t>(vars.size()), f, d.area, d.output_name});
        return true;
    }
};
}  // namespace mockturtle
