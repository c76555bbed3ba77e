// C14: undirected_graph against a set-based model; traversals visit exactly the component of their start once.
#include "vm.hpp"
#include <undirected_graph.h>
#include <undirected_pair.h>
#include <graph_search_iterator.h>
#include <map>
#include <set>
#include <queue>
#include <string>
namespace
{
template <typename V>
struct model
{
    std::map<V, int>                      vs;
    std::map<std::pair<V, V>, int>        es;
    static std::pair<V, V> key(V a, V b) { return a < b ? std::make_pair(a, b) : std::make_pair(b, a); }
};
template <typename V>
V vertex(uint64_t i);
template <>
int64_t vertex<int64_t>(uint64_t i)
{
    return static_cast<int64_t>(i * 16);  // collides in small hash tables
}
template <>
std::string vertex<std::string>(uint64_t i)
{
    return i == 0 ? std::string() : std::string(i % 3 + 1, static_cast<char>('a' + i));
}
std::string show(int64_t v) { return std::to_string(v); }
std::string show(const std::string& v) { return "\"" + v + "\""; }

template <typename V>
void run(vm::rng& r)
{
    using G = undirected_graph<V, int, undirected_pair<V>, int>;
    G            g;
    model<V>     m;
    std::string  h;
    const auto   n     = 2 + r.below(7);
    const auto   steps = r.below(vm::thorough() ? 120 : 60);
    auto         rnd   = [&] { return vertex<V>(r.below(n)); };
    auto         fail  = [&](const char* k, const std::string& d = "") { vm::violate(k, vm::cat(d, " | ", h)); };
    auto         check = [&](const G& c)
    {
        if (c.size_vertices() != m.vs.size() || c.empty() != m.vs.empty()) fail("vertex-count");
        if (c.size_edges() != m.es.size()) fail("edge-count", vm::cat(c.size_edges(), " vs ", m.es.size()));
        std::map<V, int> seen;
        for (auto it = c.begin_vertices(); it != c.end_vertices(); ++it)
        {
            if (!seen.emplace(it->first, it->second).second) fail("vertex-enumerated-twice");
        }
        if (seen != m.vs) fail("vertex-enumeration");
        std::map<std::pair<V, V>, int> eseen;
        for (auto it = c.begin_edges(); it != c.end_edges(); ++it)
        {
            if (!eseen.emplace(model<V>::key(it->first.a, it->first.b), it->second).second) fail("edge-enumerated-twice");
        }
        if (eseen != m.es) fail("edge-enumeration");
        for (const auto& [v, d] : m.vs)
        {
            std::multiset<V> adj, want;
            for (auto it = c.begin_adjacent(v); it != c.end_adjacent(v); ++it) adj.insert(*it);
            for (const auto& [e, x] : m.es)
            {
                if (e.first == v) want.insert(e.second);
                else if (e.second == v) want.insert(e.first);
            }
            if (adj != want) fail("adjacency-of-a-vertex", show(v));
            if (c.at_vertex(v) != d || c.find_vertex(v) == c.end_vertices()) fail("vertex-data");
        }
    };
    for (uint64_t s = 0; s < steps; ++s)
    {
        const auto a = rnd(), b = rnd();
        const int  d = static_cast<int>(r.below(1000));
        switch (r.below(12))
        {
            case 0:
            case 1:
            case 2:
            {
                h += "+v" + show(a) + " ";
                const auto [it, fresh] = g.insert_vertex(a, d);
                const bool want        = m.vs.emplace(a, d).second;
                if (fresh != want || it->first != a || it->second != m.vs.at(a)) fail("insert_vertex-result");
                break;
            }
            case 3:
            {
                h += "-v" + show(a) + " ";
                const bool ok   = g.erase_vertex(a);
                const bool want = m.vs.erase(a) == 1;
                for (auto it = m.es.begin(); it != m.es.end();) it = want && (it->first.first == a || it->first.second == a) ? m.es.erase(it) : std::next(it);
                if (ok != want) fail("erase_vertex-result");
                break;
            }
            case 4:
            {
                h += "-e" + show(a) + "," + show(b) + " ";
                const bool ok   = g.erase_edge(G::make_edge_id(a, b));
                const bool want = m.es.erase(model<V>::key(a, b)) == 1;
                if (ok != want) fail("erase_edge-result");
                break;
            }
            case 5:
                if (r.chance(4))
                {
                    h += "clear ";
                    g.clear();
                    m = {};
                }
                break;
            case 6:
            {
                const auto id = G::make_edge_id(a, b);
                const bool want = m.es.count(model<V>::key(a, b)) == 1;
                if ((g.find_edge(id) != g.end_edges()) != want) fail("find_edge");
                try
                {
                    if (g.at_edge(id) != m.es.at(model<V>::key(a, b))) fail("edge-data");
                    if (!want) fail("at_edge-without-edge");
                }
                catch (const std::out_of_range&)
                {
                    if (want) fail("at_edge-threw");
                }
                try
                {
                    (void)g.at_vertex(a);
                    if (!m.vs.count(a)) fail("at_vertex-without-vertex");
                }
                catch (const std::out_of_range&)
                {
                    if (m.vs.count(a)) fail("at_vertex-threw");
                }
                break;
            }
            default:
            {
                h += "+e" + show(a) + "," + show(b) + " ";
                const auto [it, fresh] = g.insert_edge(a, b, d);
                const bool can         = m.vs.count(a) && m.vs.count(b);
                const bool want        = can && m.es.emplace(model<V>::key(a, b), d).second;
                if (fresh != want) fail("insert_edge-result");
                if (can != (it != g.end_edges())) fail("insert_edge-iterator");
                if (can && it->second != m.es.at(model<V>::key(a, b))) fail("insert_edge-data");
                break;
            }
        }
        vm::note(h);
        if (r.chance(50))
        {
            check(g);
        }
    }
    check(g);
    const G copy = g;
    check(copy);
    vm::distinct(h);
    vm::sample(h);
    vm::count("edges", static_cast<long>(m.es.size()));
    // traversals
    for (const auto& [start, d] : m.vs)
    {
        std::map<V, int> dist;
        std::queue<V>    q;
        dist[start] = 0;
        q.push(start);
        while (!q.empty())
        {
            const auto u = q.front();
            q.pop();
            for (const auto& [e, x] : m.es)
            {
                for (const auto& [p, w] : {e, std::make_pair(e.second, e.first)})
                {
                    if (p == u && dist.emplace(w, dist[u] + 1).second) q.push(w);
                }
            }
        }
        auto walk = [&](auto it, bool bfs, const char* name)
        {
            std::set<V> visited;
            int         last = 0;
            bool        first = true;
            while (!it.end())
            {
                const auto v = it.next();
                if (first && v->first != start) fail(name, "does not begin at its start");
                first = false;
                if (!visited.insert(v->first).second) fail(name, "visits a vertex twice");
                if (!dist.count(v->first))
                {
                    fail(name, "leaves the component");
                    break;
                }
                if (bfs && dist.at(v->first) < last) fail(name, "not in order of distance");
                last = dist.at(v->first);
                if (v->second != m.vs.at(v->first)) fail(name, "wrong data");
                if (visited.size() > m.vs.size()) break;
            }
            if (visited.size() != dist.size() || it.discovered() != dist.size()) fail(name, "misses a reachable vertex");
            vm::count("traversal-steps", static_cast<long>(visited.size()));
        };
        walk(breadth_first_iterator<G>(g, static_cast<const G&>(g).find_vertex(start)), true, "breadth-first");
        walk(depth_first_iterator<G>(g, static_cast<const G&>(g).find_vertex(start)), false, "depth-first");
    }
}
}  // namespace
VM_SUITE(ops_int, 5000, 60000) { run<int64_t>(r); }
VM_SUITE(ops_string, 2500, 30000) { run<std::string>(r); }
VM_SUITE(pairs, 20000, 200000)
{
    const int64_t lo = r.chance(50) ? -2 : -1000000, hi = -lo;
    auto p = [&] { return undirected_pair<int64_t>(r.range(lo, hi), r.range(lo, hi)); };
    auto x = p(), y = r.chance(30) ? undirected_pair<int64_t>(x.b, x.a) : p(), z = p();
    auto k = [](const auto& q) { return std::make_pair(std::min(q.a, q.b), std::max(q.a, q.b)); };
    auto s = [&] { return vm::cat("{", x.a, ",", x.b, "} {", y.a, ",", y.b, "}"); };
    vm::distinct(s());
    vm::require((x == y) == (k(x) == k(y)) && (x != y) == (k(x) != k(y)), "pair-equality", s);
    vm::require((x < y) == (k(x) < k(y)) && (x > y) == (k(x) > k(y)) && (x <= y) == (k(x) <= k(y)) && (x >= y) == (k(x) >= k(y)), "pair-order", s);
    if (x == y)
    {
        vm::count("equal pairs");
        vm::require(std::hash<undirected_pair<int64_t>>{}(x) == std::hash<undirected_pair<int64_t>>{}(y), "equal-pairs-hash-differently", s);
    }
    const auto& cx = x;
    vm::require(cx.smaller_element() == k(x).first && cx.bigger_element() == k(x).second && x.smaller_element() == k(x).first && x.bigger_element() == k(x).second, "pair-min-max", s);
    vm::require(x.other_element(x.a) == x.b && cx.other_element(x.b) == x.a, "pair-other", s);
    if (z.a != x.a && z.a != x.b)
    {
        bool threw = false;
        try { (void)x.other_element(z.a); } catch (const std::invalid_argument&) { threw = true; }
        vm::require(threw, "pair-other-of-a-stranger", s);
    }
}
VM_MAIN
