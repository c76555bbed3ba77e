// C13: graph colouring. Oracle: exhaustive chromatic number on the same graph, adjacency test on every returned colouring.
#include "vm.hpp"
#include <coloring_algorithm.hpp>
#include <dsatur.hpp>
#include <hybrid_dsatur.hpp>
#include <hybrid_lmxrlf.hpp>
#include <lmxrlf.hpp>
#include <mcs.hpp>
#include <tabucol.hpp>

#include <algorithm>
#include <map>
#include <set>
#include <string>
#include <vector>
namespace
{
using names = std::vector<std::string>;
struct graph
{
    int                            n{};
    std::vector<uint32_t>          adj;
    names                          nm;
    std::string                    kind;
    std::map<std::string, names>   bc(vm::rng& r, bool dup) const
    {
        std::map<std::string, names> g;
        for (int i = 0; i < n; ++i)
        {
            auto& v = g[nm[static_cast<size_t>(i)]];
            for (int j = 0; j < n; ++j)
            {
                if (adj[static_cast<size_t>(i)] >> j & 1)
                {
                    v.push_back(nm[static_cast<size_t>(j)]);
                    if (dup)
                    {
                        v.push_back(nm[static_cast<size_t>(j)]);
                    }
                }
            }
            for (size_t k = v.size(); k > 1; --k)
            {
                std::swap(v[k - 1], v[r.below(k)]);
            }
        }
        return g;
    }
    int maxdeg() const
    {
        int d = 0;
        for (auto a : adj)
        {
            d = std::max(d, __builtin_popcount(a));
        }
        return d;
    }
    bool try_k(int k, std::vector<int>& c, int v, int used) const
    {
        if (v == n)
        {
            return true;
        }
        for (int x = 0; x < std::min(k, used + 1); ++x)
        {
            bool ok = true;
            for (int j = 0; j < v && ok; ++j)
            {
                ok = !((adj[static_cast<size_t>(v)] >> j & 1) && c[static_cast<size_t>(j)] == x);
            }
            if (ok)
            {
                c[static_cast<size_t>(v)] = x;
                if (try_k(k, c, v + 1, std::max(used, x + 1)))
                {
                    return true;
                }
            }
        }
        return false;
    }
    int chi() const
    {
        for (int k = 1;; ++k)
        {
            std::vector<int> c(static_cast<size_t>(n), -1);
            if (try_k(k, c, 0, 0))
            {
                return k;
            }
        }
    }
    bool bipartite() const
    {
        return chi() <= 2;
    }
    // chordal iff a perfect elimination ordering exists (greedy removal of simplicial vertices)
    bool chordal() const
    {
        uint32_t left = n == 32 ? ~0u : (1u << n) - 1;
        while (left)
        {
            bool found = false;
            for (int v = 0; v < n && !found; ++v)
            {
                if (!(left >> v & 1))
                {
                    continue;
                }
                const uint32_t nb = adj[static_cast<size_t>(v)] & left;
                bool           clique = true;
                for (int a = 0; a < n && clique; ++a)
                {
                    if (nb >> a & 1)
                    {
                        clique = ((adj[static_cast<size_t>(a)] | (1u << a)) & nb) == nb;
                    }
                }
                if (clique)
                {
                    left &= ~(1u << v);
                    found = true;
                }
            }
            if (!found)
            {
                return false;
            }
        }
        return true;
    }
    void edge(int a, int b)
    {
        if (a != b)
        {
            adj[static_cast<size_t>(a)] |= 1u << b;
            adj[static_cast<size_t>(b)] |= 1u << a;
        }
    }
    std::string str() const
    {
        std::string s = vm::cat(kind, " n=", n, ":");
        for (int i = 0; i < n; ++i)
        {
            for (int j = i + 1; j < n; ++j)
            {
                if (adj[static_cast<size_t>(i)] >> j & 1)
                {
                    s += vm::cat(" ", nm[static_cast<size_t>(i)], "-", nm[static_cast<size_t>(j)]);
                }
            }
        }
        return s;
    }
};
graph draw(vm::rng& r, int maxn)
{
    graph g;
    g.n = 1 + static_cast<int>(r.below(static_cast<uint64_t>(maxn)));
    g.adj.assign(static_cast<size_t>(g.n), 0);
    const int style = static_cast<int>(r.below(3));
    std::vector<std::string> pool;
    for (int i = 0; i < g.n; ++i)
    {
        pool.push_back(style == 0 ? std::to_string(i) : style == 1 ? vm::cat("v", (i * 7) % 13, "_", i) : std::string(1, static_cast<char>('a' + i)) + " x");
    }
    for (size_t k = pool.size(); k > 1; --k)
    {
        std::swap(pool[k - 1], pool[r.below(k)]);
    }
    g.nm = pool;
    switch (r.below(10))
    {
        case 0:
            g.kind = "complete";
            for (int i = 0; i < g.n; ++i)
                for (int j = 0; j < i; ++j) g.edge(i, j);
            break;
        case 1:
            g.kind = "cycle";
            for (int i = 0; i < g.n; ++i) g.edge(i, (i + 1) % g.n);
            break;
        case 2: g.kind = "edgeless"; break;
        case 3:
            g.kind = "bipartite";
            for (int i = 0; i < g.n; ++i)
                for (int j = 0; j < i; ++j)
                    if ((i + j) % 2 && r.chance(60)) g.edge(i, j);
            break;
        case 4:
            g.kind = "crown";
            for (int i = 0; i < g.n / 2; ++i)
                for (int j = 0; j < g.n / 2; ++j)
                    if (i != j) g.edge(2 * i, 2 * j + 1);
            break;
        case 5:  // interval graphs are chordal
        {
            g.kind = "interval";
            std::vector<std::pair<int, int>> iv;
            for (int i = 0; i < g.n; ++i)
            {
                const int a = static_cast<int>(r.below(12));
                iv.emplace_back(a, a + static_cast<int>(r.below(5)));
            }
            for (int i = 0; i < g.n; ++i)
                for (int j = 0; j < i; ++j)
                    if (iv[static_cast<size_t>(i)].first <= iv[static_cast<size_t>(j)].second && iv[static_cast<size_t>(j)].first <= iv[static_cast<size_t>(i)].second) g.edge(i, j);
            break;
        }
        case 6:
            g.kind = "wheel";
            for (int i = 1; i < g.n; ++i)
            {
                g.edge(0, i);
                if (g.n > 2) g.edge(i, 1 + i % (g.n - 1));
            }
            break;
        case 7:
            g.kind = "star";
            for (int i = 1; i < g.n; ++i) g.edge(0, i);
            break;
        default:
        {
            const unsigned p = static_cast<unsigned>(r.range(10, 95));
            g.kind           = "random";
            for (int i = 0; i < g.n; ++i)
                for (int j = 0; j < i; ++j)
                    if (r.chance(p)) g.edge(i, j);
        }
    }
    vm::note(g.str());
    return g;
}
// checks a returned colouring; returns the number of distinct colours or -1
int proper(const graph& g, const std::map<std::string, int>& c, const char* alg)
{
    std::set<int> used;
    bool          ok = c.size() == static_cast<size_t>(g.n);
    for (const auto& s : g.nm)
    {
        ok = ok && c.count(s) == 1 && c.at(s) >= 0;
    }
    if (!vm::require(ok, (std::string(alg) + ":not-every-vertex-coloured").c_str(), [&] { return g.str(); }))
    {
        return -1;
    }
    for (int i = 0; i < g.n; ++i)
    {
        used.insert(c.at(g.nm[static_cast<size_t>(i)]));
        for (int j = 0; j < i; ++j)
        {
            if ((g.adj[static_cast<size_t>(i)] >> j & 1) && c.at(g.nm[static_cast<size_t>(i)]) == c.at(g.nm[static_cast<size_t>(j)]))
            {
                vm::violate(std::string(alg) + ":adjacent-vertices-share-a-colour",
                            vm::cat(g.str(), " | ", g.nm[static_cast<size_t>(i)], " and ", g.nm[static_cast<size_t>(j)], " both ", c.at(g.nm[static_cast<size_t>(i)])));
                return -1;
            }
        }
    }
    vm::count(std::string("colourings.") + alg);
    return static_cast<int>(used.size());
}
template <typename A>
void accessors(const graph& g, A& a, const std::map<std::string, int>& c, const char* alg, bool contiguous)
{
    const auto key = [&](const char* s) { return std::string(alg) + s; };
    if (a.get_coloring() != c) vm::violate(key(":get_coloring-differs-from-result"), g.str());
    if (!a.is_colored()) vm::violate(key(":is_colored-false-after-colouring"), g.str());
    if (!a.is_valid()) vm::violate(key(":is_valid-false-for-a-proper-colouring"), g.str());
    int mx = 0;
    for (const auto& [v, x] : c)
    {
        mx = std::max(mx, x);
        if (a.get_color(v) != x) vm::violate(key(":get_color"), vm::cat(g.str(), " | ", v));
    }
    if (a.get_color("no such vertex") != -1) vm::violate(key(":get_color-of-unknown-vertex"), g.str());
    if (a.size() != static_cast<size_t>(g.n)) vm::violate(key(":size"), g.str());
    std::set<int> used;
    for (const auto& [v, x] : c) used.insert(x);
    if (a.get_num_colors() != mx + 1) vm::violate(key(":get_num_colors"), vm::cat(g.str(), " | ", a.get_num_colors(), " max ", mx));
    if (contiguous && static_cast<int>(used.size()) != a.get_num_colors())
        vm::violate(key(":colours-not-contiguous"), vm::cat(g.str(), " | ", used.size(), " used, ", a.get_num_colors(), " reported"));
}
}  // namespace

VM_SUITE(greedy, 4000, 40000)
{
    const auto g  = draw(r, vm::thorough() ? 12 : 10);
    const auto bc = g.bc(r, r.chance(30));
    const int  x  = g.chi();
    vm::distinct(g.str());
    vm::sample(vm::cat(g.str(), " chi=", x));
    {
        GraphColoring::Mcs m{bc};
        const auto         c = m.color();
        const int          k = proper(g, c, "MCS");
        if (k >= 0)
        {
            accessors(g, m, c, "MCS", true);
            vm::require(k <= g.maxdeg() + 1, "MCS:more-than-maxdegree+1-colours", [&] { return vm::cat(g.str(), " ", k); });
            if (g.chordal())
            {
                vm::count("chordal graphs");
                vm::require(k == x, "MCS:not-optimal-on-chordal-graph", [&] { return vm::cat(g.str(), " chi ", x, " used ", k); });
            }
        }
    }
    {
        GraphColoring::Dsatur m{bc};
        const auto            c = m.color();
        const int             k = proper(g, c, "DSATUR");
        if (k >= 0)
        {
            accessors(g, m, c, "DSATUR", true);
            vm::require(k <= g.maxdeg() + 1, "DSATUR:more-than-maxdegree+1-colours", [&] { return vm::cat(g.str(), " ", k); });
            if (x <= 2)
            {
                vm::count("bipartite graphs");
                vm::require(k == x, "DSATUR:not-exact-on-bipartite-graph", [&] { return vm::cat(g.str(), " chi ", x, " used ", k); });
            }
        }
        // colouring again, and after the graph was replaced, gives the colouring of the graph now stored
        const auto again = m.color();
        vm::require(again == c, "DSATUR:second-run-differs", [&] { return g.str(); });
        const auto g2 = draw(r, 8);
        GraphColoring::Dsatur m2{g2.bc(r, false)};
        proper(g2, m2.color(), "DSATUR");
    }
}
// graphs too large for exhaustive oracles: properness, the degree bound, and families whose chromatic number is known
VM_SUITE(large, 60, 600)
{
    const int   n    = static_cast<int>(r.range(12, vm::thorough() ? 140 : 90));
    const int   kind = static_cast<int>(r.below(6));
    int         chi  = 0;  // 0: unknown
    std::vector<std::set<int>> adj(static_cast<size_t>(n));
    const auto edge = [&](int a, int b) { if (a != b) { adj[static_cast<size_t>(a)].insert(b); adj[static_cast<size_t>(b)].insert(a); } };
    if (kind == 0) { for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) if ((i + j) % 2 && r.chance(70)) edge(i, j); }
    else if (kind == 1)  // interval graph: the chromatic number is the largest overlap
    {
        std::vector<std::pair<int, int>> iv;
        for (int i = 0; i < n; ++i) { const int a = static_cast<int>(r.below(60)); iv.emplace_back(a, a + static_cast<int>(r.below(40))); }
        for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) if (iv[static_cast<size_t>(i)].first <= iv[static_cast<size_t>(j)].second && iv[static_cast<size_t>(j)].first <= iv[static_cast<size_t>(i)].second) edge(i, j);
        for (int x = 0; x < 100; ++x) { int c = 0; for (auto& [a, b] : iv) c += a <= x && x <= b; chi = std::max(chi, c); }
    }
    else if (kind == 2) { for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) edge(i, j); chi = n; }
    else if (kind == 3)  // complete multipartite
    {
        const int k = static_cast<int>(r.range(2, 12));
        for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) if (i % k != j % k) edge(i, j);
        chi = k;
    }
    else { const auto p = static_cast<unsigned>(r.range(5, 95)); for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) if (r.chance(p)) edge(i, j); }
    std::map<std::string, names> bc;
    const auto                   nm = [&](int i) { return kind % 2 ? std::to_string(i) : vm::cat("v", (i * 31) % 97, "_", i); };
    size_t                       maxdeg = 0, edges = 0;
    for (int i = 0; i < n; ++i)
    {
        auto& v = bc[nm(i)];
        for (int j : adj[static_cast<size_t>(i)]) v.push_back(nm(j));
        for (size_t k = v.size(); k > 1; --k) std::swap(v[k - 1], v[r.below(k)]);
        maxdeg = std::max(maxdeg, adj[static_cast<size_t>(i)].size());
        edges += adj[static_cast<size_t>(i)].size();
    }
    const auto d = vm::cat("large kind ", kind, " n=", n, " edges=", edges / 2, " maxdeg=", maxdeg);
    vm::note(d);
    vm::distinct(d);
    const auto judge = [&](const std::map<std::string, int>& c, const char* alg, bool bounded, bool exact)
    {
        std::set<int> used;
        bool          ok = c.size() == static_cast<size_t>(n);
        for (int i = 0; i < n && ok; ++i) ok = c.count(nm(i)) == 1 && c.at(nm(i)) >= 0;
        if (!vm::require(ok, (std::string(alg) + ":not-every-vertex-coloured").c_str(), d)) return;
        for (auto& [v, x] : c) used.insert(x);
        for (auto& [v, ns] : bc) for (auto& u : ns) if (c.at(u) == c.at(v)) { vm::violate(std::string(alg) + ":adjacent-vertices-share-a-colour", vm::cat(d, " | ", u, " and ", v)); return; }
        if (bounded) vm::require(used.size() <= maxdeg + 1, (std::string(alg) + ":more-than-maxdegree+1-colours").c_str(), d);
        if (exact) vm::require(used.size() == static_cast<size_t>(chi), (std::string(alg) + ":colour-count").c_str(), [&] { return vm::cat(d, " chi ", chi, " used ", used.size()); });
        vm::count(std::string("large colourings.") + alg);
    };
    GraphColoring::Mcs m{bc};
    judge(m.color(), "MCS", true, chi != 0 && kind != 3);
    vm::require(m.is_valid(), "MCS:is_valid-false-for-a-proper-colouring", d);
    GraphColoring::Dsatur s{bc};
    judge(s.color(), "DSATUR", true, kind == 2);
    vm::require(s.is_valid(), "DSATUR:is_valid-false-for-a-proper-colouring", d);
    if (n <= 40)
    {
        GraphColoring::Tabucol t{bc, static_cast<int>(maxdeg) + 2, 25, 20, 2000};
        const auto             c = t.color();
        if (!c.empty()) judge(c, "TABUCOL", false, false);
    }
    if (n <= 24 && edges > 2 * static_cast<size_t>(n))
    {
        GraphColoring::Lmxrlf l{bc};
        judge(l.color(), "LMXRLF", false, false);
    }
}
VM_SUITE(lmxrlf, 1200, 8000)
{
    const auto g  = draw(r, 7);
    const auto bc = g.bc(r, false);
    vm::distinct(g.str());
    GraphColoring::Lmxrlf m{bc};
    const auto            c = m.color();
    const int             k = proper(g, c, "LMXRLF");
    if (k >= 0)
    {
        accessors(g, m, c, "LMXRLF", true);
    }
}
VM_SUITE(tabucol, 900, 8000)
{
    const auto g  = draw(r, 6);
    const auto bc = g.bc(r, r.chance(30));
    const int  x  = g.chi();
    vm::distinct(g.str());
    const int             k = 1 + static_cast<int>(r.below(static_cast<uint64_t>(g.n) + 2));
    GraphColoring::Tabucol t{bc, k, 1 + static_cast<int>(r.below(25)), 20, k < x ? 30 : 1000};
    const auto            c = t.color();
    vm::note(vm::cat(g.str(), " k=", k));
    if (c.empty())
    {
        vm::count("tabucol.gave-up");
        vm::require(!t.is_valid() && !t.is_colored(), "TABUCOL:valid-without-a-colouring", [&] { return g.str(); });
        // with as many colours as vertices every conflict has an improving move: 1000 rounds of 20 draws do not all miss it
        vm::require(k < g.n, "TABUCOL:no-colouring-with-n-colours", [&] { return vm::cat(g.str(), " k=", k); });
        return;
    }
    const int used = proper(g, c, "TABUCOL");
    if (used >= 0)
    {
        vm::require(used <= k, "TABUCOL:more-than-k-colours", [&] { return vm::cat(g.str(), " k=", k, " used ", used); });
        vm::require(k >= x, "TABUCOL:coloured-below-the-chromatic-number", [&] { return vm::cat(g.str(), " k=", k, " chi ", x); });
        accessors(g, t, c, "TABUCOL", true);
    }
}
VM_SUITE(hybrids, 24, 160)
{
    const auto g  = draw(r, 5);
    const auto bc = g.bc(r, false);
    const int  x  = g.chi();
    vm::distinct(g.str());
    if (vm::st().cur_case % 2)
    {
        GraphColoring::HybridDsatur h{bc};
        const auto                  c = h.color();
        const int                   k = proper(g, c, "HYBRID-DSATUR");
        if (k >= 0)
        {
            accessors(g, h, c, "HYBRID-DSATUR", true);
            vm::require(k >= x && k <= g.maxdeg() + 1, "HYBRID-DSATUR:colour-count", [&] { return vm::cat(g.str(), " ", k, " chi ", x); });
        }
    }
    else
    {
        GraphColoring::HybridLmxrlf h{bc};
        const auto                  c = h.color();
        const int                   k = proper(g, c, "HYBRID-LMXRLF");
        if (k >= 0)
        {
            accessors(g, h, c, "HYBRID-LMXRLF", true);
        }
    }
}
// the base class's own validity monitor agrees with the definition on arbitrary (also improper) colourings
VM_SUITE(validity, 3000, 30000)
{
    const auto             g  = draw(r, 9);
    const auto             bc = g.bc(r, false);
    GraphColoring::Tabucol t{bc, 1};
    std::map<std::string, int> c;
    const int              k = 1 + static_cast<int>(r.below(5));
    for (const auto& s : g.nm)
    {
        c[s] = static_cast<int>(r.below(static_cast<uint64_t>(k)));
    }
    const bool drop = r.chance(10);
    if (drop)
    {
        c.erase(g.nm[r.below(g.nm.size())]);
    }
    bool ok = !drop && !c.empty();
    for (int i = 0; i < g.n && ok; ++i)
    {
        for (int j = 0; j < i && ok; ++j)
        {
            ok = !((g.adj[static_cast<size_t>(i)] >> j & 1) && c.at(g.nm[static_cast<size_t>(i)]) == c.at(g.nm[static_cast<size_t>(j)]));
        }
    }
    t.set_coloring(c);
    vm::count(ok ? "proper" : "improper");
    vm::distinct(vm::cat(g.str(), vm::cat(c.size(), ok)));
    vm::require(t.is_valid() == ok, "is_valid-disagrees-with-the-definition", [&] { return vm::cat(g.str(), " expected ", ok); });
    const auto cont = t.make_colors_contiguous(c);
    std::set<int> u0, u1;
    bool          same = cont.size() == c.size();
    for (const auto& [v, a] : c)
    {
        u0.insert(a);
        u1.insert(cont.at(v));
        for (const auto& [w, b] : c)
        {
            same = same && ((a == b) == (cont.at(v) == cont.at(w)));
        }
    }
    vm::require(same && u0.size() == u1.size() && (u1.empty() || (*u1.begin() == 0 && *u1.rbegin() == static_cast<int>(u1.size()) - 1)),
                "make_colors_contiguous", [&] { return g.str(); });
}
VM_MAIN
