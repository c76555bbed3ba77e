// Stand-in for bill's SAT interface (not installed in this sandbox): a small conflict-driven solver behind bill's API.
#pragma once
#include <algorithm>
#include <cassert>
#include <cstdint>
#include <optional>
#include <utility>
#include <variant>
#include <vector>
namespace bill
{
enum class solvers
{
    glucose_41,
    ghack,
    bsat2,
    maple,
    bmcg,
    z3
};
using var_type = uint32_t;
enum class lbool_type : uint8_t
{
    false_ = 0,
    true_,
    undef_
};
enum class polarities
{
    positive = 0,
    negative = 1
};
static constexpr auto positive_polarity = polarities::positive;
static constexpr auto negative_polarity = polarities::negative;
class lit_type
{
  public:
    lit_type() = default;
    lit_type(var_type v, polarities p = positive_polarity) : d((v << 1) | static_cast<uint32_t>(p)) {}
    [[nodiscard]] var_type variable() const { return d >> 1; }
    [[nodiscard]] bool     is_complemented() const { return (d & 1) != 0; }
    lit_type               operator~() const
    {
        lit_type l;
        l.d = d ^ 1;
        return l;
    }
    operator uint32_t() const { return d; }
    bool     operator==(const lit_type& o) const { return d == o.d; }
    uint32_t d{~0u};
};
class result
{
  public:
    using model_type  = std::vector<lbool_type>;
    using clause_type = std::vector<lit_type>;
    enum class states : uint8_t
    {
        satisfiable,
        unsatisfiable,
        undefined,
        timeout,
        dirty
    };
    result(states s = states::undefined) : st(s) {}
    explicit result(model_type m) : st(states::satisfiable), m(std::move(m)) {}
    [[nodiscard]] model_type model() const { return m; }
    [[nodiscard]] states     state() const { return st; }

  private:
    states     st;
    model_type m{};
};
// two-watched-literal CDCL (first UIP, no restarts needed for the tiny instances used here)
template <solvers S>
class solver
{
  public:
    var_type add_variable()
    {
        const auto v = static_cast<var_type>(val.size());
        val.push_back(-1);
        level.push_back(0);
        reason.push_back(-1);
        act.push_back(0.0);
        watches.emplace_back();
        watches.emplace_back();
        return v;
    }
    void add_variables(uint32_t n)
    {
        for (uint32_t i = 0; i < n; ++i)
        {
            add_variable();
        }
    }
    [[nodiscard]] uint32_t num_variables() const { return static_cast<uint32_t>(val.size()); }
    [[nodiscard]] uint32_t num_clauses() const { return static_cast<uint32_t>(clauses.size()); }
    auto                   add_clause(std::vector<lit_type> c) { return add(std::move(c)); }
    auto                   add_clause(lit_type l) { return add({l}); }
    auto                   add_clause(std::initializer_list<lit_type> l) { return add(std::vector<lit_type>(l)); }
    result::states         solve(std::vector<lit_type> const& assumptions = {}, uint32_t = 0)
    {
        for (auto a : assumptions)
        {
            add({a});
        }
        st = run();
        return st;
    }
    [[nodiscard]] result get_model() const
    {
        result::model_type m;
        for (auto v : val)
        {
            m.push_back(v == 1 ? lbool_type::true_ : lbool_type::false_);
        }
        return result(m);
    }
    [[nodiscard]] result get_result() const { return st == result::states::satisfiable ? get_model() : result(st); }

  private:
    result::states add(std::vector<lit_type> c)
    {
        std::sort(c.begin(), c.end(), [](auto a, auto b) { return a.d < b.d; });
        c.erase(std::unique(c.begin(), c.end()), c.end());
        for (std::size_t i = 0; i + 1 < c.size(); ++i)
        {
            if (c[i].d == (c[i + 1].d ^ 1))
            {
                return result::states::dirty;
            }
        }
        clauses.push_back(c);
        return result::states::dirty;
    }
    [[nodiscard]] int lv(lit_type l) const { return val[l.variable()] < 0 ? -1 : (val[l.variable()] ^ (l.is_complemented() ? 1 : 0)); }
    void              assign(lit_type l, int r)
    {
        val[l.variable()]    = l.is_complemented() ? 0 : 1;
        level[l.variable()]  = static_cast<int>(lims.size());
        reason[l.variable()] = r;
        trail.push_back(l);
    }
    int propagate()
    {
        while (qh < trail.size())
        {
            const lit_type f = ~trail[qh++];  // f became false
            auto&          w = watches[f.d];
            std::size_t    k = 0;
            for (std::size_t i = 0; i < w.size(); ++i)
            {
                const int ci = w[i];
                auto&     c  = clauses[static_cast<std::size_t>(ci)];
                if (c[0] == f)
                {
                    std::swap(c[0], c[1]);
                }
                if (lv(c[0]) == 1)
                {
                    w[k++] = ci;
                    continue;
                }
                bool moved = false;
                for (std::size_t j = 2; j < c.size(); ++j)
                {
                    if (lv(c[j]) != 0)
                    {
                        std::swap(c[1], c[j]);
                        watches[c[1].d].push_back(ci);
                        moved = true;
                        break;
                    }
                }
                if (moved)
                {
                    continue;
                }
                w[k++] = ci;
                if (lv(c[0]) == 0)
                {
                    for (++i; i < w.size(); ++i)
                    {
                        w[k++] = w[i];
                    }
                    w.resize(k);
                    return ci;
                }
                assign(c[0], ci);
            }
            w.resize(k);
        }
        return -1;
    }
    void backtrack(std::size_t l)
    {
        if (lims.size() <= l)
        {
            return;
        }
        const auto t = lims[l];
        while (trail.size() > t)
        {
            val[trail.back().variable()] = -1;
            trail.pop_back();
        }
        lims.resize(l);
        qh = trail.size();
    }
    result::states run()
    {
        std::fill(val.begin(), val.end(), -1);
        for (auto& w : watches)
        {
            w.clear();
        }
        trail.clear();
        lims.clear();
        qh = 0;
        for (std::size_t i = 0; i < clauses.size(); ++i)
        {
            auto& c = clauses[i];
            if (c.empty())
            {
                return result::states::unsatisfiable;
            }
            if (c.size() == 1)
            {
                if (lv(c[0]) == 0)
                {
                    return result::states::unsatisfiable;
                }
                if (lv(c[0]) < 0)
                {
                    assign(c[0], -1);
                }
                continue;
            }
            watches[c[0].d].push_back(static_cast<int>(i));
            watches[c[1].d].push_back(static_cast<int>(i));
        }
        for (;;)
        {
            const int confl = propagate();
            if (confl >= 0)
            {
                if (lims.empty())
                {
                    return result::states::unsatisfiable;
                }
                // first UIP
                std::vector<lit_type> learnt{lit_type{}};
                std::vector<char>     seen(val.size(), 0);
                int                   cnt = 0, r = confl;
                std::size_t           idx   = trail.size();
                lit_type              p{};
                bool                  first = true;
                do
                {
                    for (auto q : clauses[static_cast<std::size_t>(r)])
                    {
                        if (!first && q == p)
                        {
                            continue;
                        }
                        const auto v = q.variable();
                        if (!seen[v] && level[v] > 0)
                        {
                            seen[v] = 1;
                            act[v] += inc;
                            if (level[v] == static_cast<int>(lims.size()))
                            {
                                ++cnt;
                            }
                            else
                            {
                                learnt.push_back(q);
                            }
                        }
                    }
                    first = false;
                    do
                    {
                        --idx;
                    } while (!seen[trail[idx].variable()]);
                    p = trail[idx];
                    r = reason[p.variable()];
                    --cnt;
                } while (cnt > 0);
                learnt[0] = ~p;
                inc *= 1.05;
                if (inc > 1e100)
                {
                    for (auto& a : act)
                    {
                        a *= 1e-100;
                    }
                    inc *= 1e-100;
                }
                std::size_t bl = 0;
                for (std::size_t i = 1; i < learnt.size(); ++i)
                {
                    if (static_cast<std::size_t>(level[learnt[i].variable()]) > bl)
                    {
                        bl = static_cast<std::size_t>(level[learnt[i].variable()]);
                        std::swap(learnt[1], learnt[i]);
                    }
                }
                backtrack(bl);
                if (learnt.size() == 1)
                {
                    assign(learnt[0], -1);
                }
                else
                {
                    clauses.push_back(learnt);
                    const int ci = static_cast<int>(clauses.size() - 1);
                    watches[learnt[0].d].push_back(ci);
                    watches[learnt[1].d].push_back(ci);
                    assign(learnt[0], ci);
                }
                continue;
            }
            int    best = -1;
            double ba   = -1;
            for (std::size_t v = 0; v < val.size(); ++v)
            {
                if (val[v] < 0 && act[v] > ba)
                {
                    ba   = act[v];
                    best = static_cast<int>(v);
                }
            }
            if (best < 0)
            {
                return result::states::satisfiable;
            }
            lims.push_back(trail.size());
            assign(lit_type(static_cast<var_type>(best), negative_polarity), -1);
        }
    }
    std::vector<std::vector<lit_type>> clauses{};
    std::vector<int>                   val{}, level{}, reason{};
    std::vector<double>                act{};
    std::vector<std::vector<int>>      watches{};
    std::vector<lit_type>              trail{};
    std::vector<std::size_t>           lims{};
    std::size_t                        qh{0};
    double                             inc{1.0};
    result::states                     st{result::states::undefined};
};
template <typename Solver>
inline void at_least_one(std::vector<var_type> const& vars, Solver& s)
{
    std::vector<lit_type> c;
    for (auto v : vars)
    {
        c.emplace_back(v, positive_polarity);
    }
    s.add_clause(c);
}
template <typename Solver>
inline void at_most_one_pairwise(std::vector<var_type> const& vars, Solver& s)
{
    for (std::size_t i = 0; i < vars.size(); ++i)
    {
        for (std::size_t j = i + 1; j < vars.size(); ++j)
        {
            s.add_clause({lit_type(vars[i], negative_polarity), lit_type(vars[j], negative_polarity)});
        }
    }
}
template <typename Solver>
lit_type add_tseytin_or(Solver& s, std::vector<lit_type> const& ls)
{
    const lit_type        r(s.add_variable(), positive_polarity);
    std::vector<lit_type> c{~r};
    for (auto l : ls)
    {
        c.push_back(l);
        s.add_clause({~l, r});
    }
    s.add_clause(c);
    return r;
}
template <typename Solver>
lit_type add_tseytin_and(Solver& s, std::vector<lit_type> const& ls)
{
    const lit_type        r(s.add_variable(), positive_polarity);
    std::vector<lit_type> c{r};
    for (auto l : ls)
    {
        c.push_back(~l);
        s.add_clause({l, ~r});
    }
    s.add_clause(c);
    return r;
}
template <typename Solver>
lit_type add_tseytin_equals(Solver& s, lit_type const& a, lit_type const& b)
{
    const lit_type r(s.add_variable(), positive_polarity);
    s.add_clause({~r, ~a, b});
    s.add_clause({~r, a, ~b});
    s.add_clause({r, a, b});
    s.add_clause({r, ~a, ~b});
    return r;
}
}  // namespace bill
