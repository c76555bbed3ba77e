// An independent model of SiDB electrostatics: screened Coulomb potentials, population and configuration stability, and
// every charge configuration by enumeration.
#pragma once
#include "vm.hpp"

#include <fiction/technology/charge_distribution_surface.hpp>
#include <fiction/types.hpp>

#include <array>
#include <cmath>
#include <map>
#include <set>
#include <vector>

namespace sm
{
using namespace fiction;
struct site { int64_t n, m, l; auto operator<=>(const site&) const = default; };  // dimer column, dimer row, dimer atom
struct defect_at { site s; double q, eps, lambda; };

struct phys { double mu = -0.32, eps = 5.6, lambda = 5.0; int base = 3; };

template <typename Lyt> site site_of(const cell<Lyt>& c)
{
    if constexpr (has_siqad_coord_v<Lyt>) return {c.x, c.y, c.z};
    else { const int64_t y = c.y; const int64_t m = y >= 0 ? y / 2 : -((-y + 1) / 2); return {static_cast<int64_t>(c.x), m, y - 2 * m}; }
}
template <typename Lyt> cell<Lyt> cell_of(const site& s)
{
    if constexpr (has_siqad_coord_v<Lyt>) return cell<Lyt>(static_cast<int32_t>(s.n), static_cast<int32_t>(s.m), static_cast<int32_t>(s.l));
    else return cell<Lyt>(static_cast<int32_t>(s.n), static_cast<int32_t>(2 * s.m + s.l));
}
inline double dist(const bool o111, const site& a, const site& b)  // nm
{
    const double A = o111 ? 0.665 : 0.384, B = o111 ? 0.384 : 0.768, cx = o111 ? 0.33255 : 0.0, cy = o111 ? 0.192 : 0.225;
    const double dx = A * static_cast<double>(a.n - b.n) + cx * static_cast<double>(a.l - b.l);
    const double dy = B * static_cast<double>(a.m - b.m) + cy * static_cast<double>(a.l - b.l);
    return std::sqrt(dx * dx + dy * dy);
}
inline double coulomb(const double d, const double eps, const double lambda)  // volts caused by one elementary charge
{
    if (d == 0.0) return 0.0;
    return 8.987552e9 / eps * 1.6021766e-19 / (d * 1e-9) * std::exp(-d / lambda);
}

struct world
{
    bool                   o111 = false;
    std::vector<site>      sites;
    std::vector<defect_at> defects;
    std::vector<double>    ext;           // at the sites
    std::vector<double>    ext_d;         // at the defects
    phys                   p;
    std::vector<std::vector<double>> v;   // between sites
    std::vector<double>              vd;  // of all defects at the sites

    void prepare()
    {
        const auto n = sites.size();
        v.assign(n, std::vector<double>(n, 0.0));
        vd.assign(n, 0.0);
        ext.resize(n, 0.0);
        ext_d.resize(defects.size(), 0.0);
        for (std::size_t i = 0; i < n; ++i)
        {
            for (std::size_t j = 0; j < n; ++j) v[i][j] = coulomb(dist(o111, sites[i], sites[j]), p.eps, p.lambda);
            for (const auto& d : defects) vd[i] += d.q * coulomb(dist(o111, sites[i], d.s), d.eps, d.lambda);
        }
    }
    [[nodiscard]] double internal(const std::vector<int>& q, const std::size_t i) const
    {
        double s = vd[i];
        for (std::size_t j = 0; j < sites.size(); ++j) s += v[i][j] * q[j];
        return s;
    }
    [[nodiscard]] double energy(const std::vector<int>& q) const
    {
        double e = 0.0;
        for (std::size_t i = 0; i < sites.size(); ++i) e += q[i] * (ext[i] + 0.5 * internal(q, i));
        for (std::size_t d = 0; d < defects.size(); ++d)
        {
            double at = 0.0;
            for (const auto& o : defects) at += o.q * coulomb(dist(o111, defects[d].s, o.s), o.eps, o.lambda);
            for (std::size_t i = 0; i < sites.size(); ++i) at += q[i] * coulomb(dist(o111, defects[d].s, sites[i]), p.eps, p.lambda);
            e += defects[d].q * (ext_d[d] + 0.5 * at);
        }
        return e;
    }
    // 1: physically valid, 0: not, -1: too close to a threshold to say
    [[nodiscard]] int valid(const std::vector<int>& q) const
    {
        constexpr double slack = 5e-6;
        bool             close = false;
        const auto       need  = [&](const double margin) { if (std::abs(margin) < slack) close = true; return margin > 0; };
        std::vector<double> pot(sites.size());
        bool                ok = true;
        for (std::size_t i = 0; i < sites.size(); ++i)
        {
            pot[i]           = internal(q, i) + ext[i];
            const double mum = p.mu, mup = p.mu - 0.59;
            // the level of a charge state below the Fermi level: negative if V > mu-, neutral if between, positive if V < mu+
            if (q[i] < 0) { if (!need(pot[i] - mum)) ok = false; }
            else if (q[i] > 0) { if (!need(mup - pot[i])) ok = false; }
            else { if (!need(mum - pot[i])) ok = false; if (!need(pot[i] - mup)) ok = false; }
            if (!ok && !close) return 0;
        }
        for (std::size_t i = 0; i < sites.size(); ++i)
            for (std::size_t j = 0; j < sites.size(); ++j)
            {
                if (q[i] > 0 || q[j] <= q[i]) continue;
                if (!need(pot[i] - pot[j] - v[i][j] + 1e-6)) ok = false;  // an electron hops from i to j for free
                if (!ok && !close) return 0;
            }
        return close ? -1 : (ok ? 1 : 0);
    }
    // 1: no electron hops from one SiDB to another for free, 0: one does, -1: too close to say
    [[nodiscard]] int hops(const std::vector<int>& q) const
    {
        bool                close = false;
        std::vector<double> pot(sites.size());
        for (std::size_t i = 0; i < sites.size(); ++i) pot[i] = internal(q, i) + ext[i];
        for (std::size_t i = 0; i < sites.size(); ++i)
            for (std::size_t j = 0; j < sites.size(); ++j)
            {
                if (q[i] > 0 || q[j] <= q[i]) continue;
                const auto margin = pot[i] - pot[j] - v[i][j] + 1e-6;
                if (margin < -5e-6) return 0;
                if (margin < 5e-6) close = true;
            }
        return close ? -1 : 1;
    }
    [[nodiscard]] std::map<std::vector<int>, int> all_valid(const int base) const
    {
        std::map<std::vector<int>, int> r;
        std::vector<int>                q(sites.size(), -1);
        for (;;)
        {
            if (const auto ok = valid(q); ok != 0) r[q] = ok;
            std::size_t i = 0;
            while (i < q.size() && q[i] == base - 2) q[i++] = -1;
            if (i == q.size()) break;
            ++q[i];
        }
        return r;
    }
    [[nodiscard]] std::string str() const
    {
        std::string s = std::string{o111 ? "111" : "100"} + " mu " + std::to_string(p.mu) + " eps " + std::to_string(p.eps) + " lambda " + std::to_string(p.lambda) + " base " + std::to_string(p.base) + ":";
        for (std::size_t i = 0; i < sites.size(); ++i)
        {
            s += " (" + std::to_string(sites[i].n) + "," + std::to_string(sites[i].m) + "," + std::to_string(sites[i].l) + ")";
            if (i < ext.size() && ext[i] != 0) s += "@" + std::to_string(ext[i]);
        }
        for (const auto& d : defects)
            s += " d(" + std::to_string(d.s.n) + "," + std::to_string(d.s.m) + "," + std::to_string(d.s.l) + ")q" + std::to_string(static_cast<int>(d.q)) + "e" + std::to_string(d.eps) + "l" + std::to_string(d.lambda);
        return s;
    }
};
inline std::string str(const std::vector<int>& q)
{
    std::string s;
    for (const auto x : q) s += x < 0 ? '-' : x > 0 ? '+' : '0';
    return s;
}
inline sidb_simulation_parameters params_of(const phys& p) { return sidb_simulation_parameters{static_cast<uint8_t>(p.base), p.mu, p.eps, p.lambda}; }
inline phys random_phys(vm::rng& r)
{
    phys p;
    p.mu     = r.chance(30) ? -0.32 : r.chance(50) ? r.real(-0.4, -0.05) : r.real(-0.3, -0.2);
    p.eps    = r.chance(30) ? 5.6 : r.real(2.0, 12.0);
    p.lambda = r.chance(30) ? 5.0 : r.real(0.8, 12.0);
    p.base   = r.chance(50) ? 2 : 3;
    return p;
}
inline std::vector<site> random_sites(vm::rng& r, const std::size_t n, const bool negative)
{
    // pairs and clusters within a small area, so that they interact
    const int64_t  w = r.range(3, 20), h = r.range(1, 10);
    const unsigned near = static_cast<unsigned>(r.range(0, 95));
    std::set<site> s;
    while (s.size() < n)
    {
        site x{r.range(negative ? -w : 0, w), r.range(negative ? -h : 0, h), r.range(0, 1)};
        if (!s.empty() && r.chance(near))
        {
            auto y = *std::next(s.begin(), static_cast<std::ptrdiff_t>(r.below(s.size())));
            y.n += r.range(-3, 3); y.m += r.range(-1, 1); y.l = r.range(0, 1);
            if (negative || (y.n >= 0 && y.m >= 0)) x = y;
        }
        s.insert(x);
    }
    return {s.begin(), s.end()};
}
template <typename Lyt> world random_world(vm::rng& r, const std::size_t max, const bool potentials)
{
    world w;
    w.o111  = std::is_same_v<typename Lyt::orientation, sidb_111_lattice>;
    w.p     = random_phys(r);
    w.sites = random_sites(r, static_cast<std::size_t>(r.range(1, static_cast<int64_t>(max))), has_siqad_coord_v<Lyt> || has_cube_coord_v<Lyt>);
    w.ext.assign(w.sites.size(), 0.0);
    if (potentials)
    {
        if (r.chance(35)) for (auto& e : w.ext) if (r.chance(40)) e = r.real(-0.4, 0.4);
        if (r.chance(25)) { const auto g = r.real(-0.4, 0.4); for (auto& e : w.ext) e += g; }
    }
    w.prepare();
    return w;
}
inline int charge(const sidb_charge_state s) { return s == sidb_charge_state::NEGATIVE ? -1 : s == sidb_charge_state::POSITIVE ? 1 : 0; }
inline sidb_charge_state state(const int q) { return q < 0 ? sidb_charge_state::NEGATIVE : q > 0 ? sidb_charge_state::POSITIVE : sidb_charge_state::NEUTRAL; }
}  // namespace sm
