// Stand-in for ALGLIB's ap.h / dataanalysis.h: agglomerative hierarchical clustering (complete, single, average, Ward).
#pragma once
#include <algorithm>
#include <cmath>
#include <cstddef>
#include <limits>
#include <map>
#include <vector>
namespace alglib
{
using ae_int_t = std::ptrdiff_t;
template <typename T>
struct shim_2d
{
    std::vector<T> v{};
    ae_int_t       r{0}, c{0};
    void           setlength(ae_int_t a, ae_int_t b)
    {
        r = a;
        c = b;
        v.assign(static_cast<std::size_t>(a * b), T{});
    }
    T&       operator()(ae_int_t i, ae_int_t j) { return v.at(static_cast<std::size_t>(i * c + j)); }
    const T& operator()(ae_int_t i, ae_int_t j) const { return v.at(static_cast<std::size_t>(i * c + j)); }
    [[nodiscard]] ae_int_t rows() const { return r; }
    [[nodiscard]] ae_int_t cols() const { return c; }
};
using real_2d_array    = shim_2d<double>;
using integer_2d_array = shim_2d<ae_int_t>;
struct clusterizerstate
{
    real_2d_array p{};
    int           algo{0};
};
struct ahcreport
{
    ae_int_t         npoints{0};
    integer_2d_array z{};
};
inline void clusterizercreate(clusterizerstate&) {}
inline void clusterizersetpoints(clusterizerstate& s, const real_2d_array& d, ae_int_t) { s.p = d; }
inline void clusterizersetahcalgo(clusterizerstate& s, ae_int_t a) { s.algo = static_cast<int>(a); }
inline void clusterizerrunahc(clusterizerstate& s, ahcreport& rep)
{
    const auto n = s.p.r;
    rep.npoints  = n;
    rep.z.setlength(n > 0 ? n - 1 : 0, 2);
    struct cl
    {
        std::vector<ae_int_t> m;
        ae_int_t              id;
    };
    std::vector<cl> cs;
    for (ae_int_t i = 0; i < n; ++i)
    {
        cs.push_back({{i}, i});
    }
    const auto d2 = [&](ae_int_t a, ae_int_t b)
    {
        double x = 0;
        for (ae_int_t k = 0; k < s.p.c; ++k)
        {
            x += (s.p(a, k) - s.p(b, k)) * (s.p(a, k) - s.p(b, k));
        }
        return x;
    };
    const auto dist = [&](const cl& a, const cl& b)
    {
        double mx = 0, mn = std::numeric_limits<double>::max(), sum = 0;
        for (auto i : a.m)
        {
            for (auto j : b.m)
            {
                const auto d = std::sqrt(d2(i, j));
                mx           = std::max(mx, d);
                mn           = std::min(mn, d);
                sum += d;
            }
        }
        switch (s.algo)
        {
            case 0: return mx;
            case 1: return mn;
            case 2: return sum / static_cast<double>(a.m.size() * b.m.size());
            case 3: return sum / static_cast<double>(a.m.size() * b.m.size());
            default:
            {
                double dd = 0;
                for (ae_int_t k = 0; k < s.p.c; ++k)
                {
                    double ma = 0, mb = 0;
                    for (auto i : a.m) { ma += s.p(i, k); }
                    for (auto j : b.m) { mb += s.p(j, k); }
                    ma /= static_cast<double>(a.m.size());
                    mb /= static_cast<double>(b.m.size());
                    dd += (ma - mb) * (ma - mb);
                }
                const auto na = static_cast<double>(a.m.size()), nb = static_cast<double>(b.m.size());
                return dd * 2.0 * na * nb / (na + nb);
            }
        }
    };
    for (ae_int_t step = 0; step + 1 < n; ++step)
    {
        std::size_t bi = 0, bj = 1;
        double      best = std::numeric_limits<double>::max();
        for (std::size_t i = 0; i < cs.size(); ++i)
        {
            for (std::size_t j = i + 1; j < cs.size(); ++j)
            {
                const auto d = dist(cs[i], cs[j]);
                if (d < best)
                {
                    best = d;
                    bi   = i;
                    bj   = j;
                }
            }
        }
        rep.z(step, 0) = std::min(cs[bi].id, cs[bj].id);
        rep.z(step, 1) = std::max(cs[bi].id, cs[bj].id);
        cl m{cs[bi].m, n + step};
        m.m.insert(m.m.end(), cs[bj].m.begin(), cs[bj].m.end());
        cs.erase(cs.begin() + static_cast<std::ptrdiff_t>(bj));
        cs.erase(cs.begin() + static_cast<std::ptrdiff_t>(bi));
        cs.push_back(std::move(m));
    }
}
}  // namespace alglib
