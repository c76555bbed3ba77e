// C13: determine_vertex_coloring with every engine, SAT solver and search tactic against the exhaustive chromatic number.
#include "vm.hpp"
#include <fiction/algorithms/graph/graph_coloring.hpp>
#include <undirected_graph.h>
#include <undirected_pair.h>

using namespace fiction;
using G = undirected_graph<std::size_t, int, undirected_pair<std::size_t>, int>;
namespace
{
int chromatic(const std::vector<uint32_t>& adj)
{
    const int        n = static_cast<int>(adj.size());
    std::vector<int> c(adj.size());
    std::function<bool(int, int, int)> go = [&](int v, int used, int k) -> bool
    {
        if (v == n) return true;
        for (int x = 0; x < std::min(k, used + 1); ++x)
        {
            bool ok = true;
            for (int j = 0; j < v && ok; ++j) ok = !((adj[static_cast<size_t>(v)] >> j & 1) && c[static_cast<size_t>(j)] == x);
            if (!ok) continue;
            c[static_cast<size_t>(v)] = x;
            if (go(v + 1, std::max(used, x + 1), k)) return true;
        }
        return false;
    };
    for (int k = 1;; ++k)
        if (go(0, 0, k)) return k;
}
template <typename Color>
void run(vm::rng& r, bool sat)
{
    const int                n = 1 + static_cast<int>(r.below(sat ? 8 : 9));
    std::vector<uint32_t>    adj(static_cast<size_t>(n), 0);
    const unsigned           p = r.one_of<unsigned>({0u, 20u, 40u, 60u, 80u, 100u});
    std::vector<std::size_t> id;
    G                        g;
    std::string              d = vm::cat("n=", n, ":");
    for (int i = 0; i < n; ++i) id.push_back(r.chance(50) ? static_cast<size_t>(i) : static_cast<size_t>(100 + 17 * i));
    for (int i = 0; i < n; ++i) g.insert_vertex(id[static_cast<size_t>(i)], 0);
    for (int i = 0; i < n; ++i)
        for (int j = 0; j < i; ++j)
            if (r.chance(p))
            {
                adj[static_cast<size_t>(i)] |= 1u << j;
                adj[static_cast<size_t>(j)] |= 1u << i;
                g.insert_edge(id[static_cast<size_t>(i)], id[static_cast<size_t>(j)], 0);
                d += vm::cat(" ", i, "-", j);
            }
    const int chi = chromatic(adj);
    determine_vertex_coloring_params<G>    ps{};
    determine_vertex_coloring_stats<Color> st{};
    ps.verify_coloring_after_computation = true;
    const char* eng = "?";
    bool        fallback = false;
    if (sat)
    {
        ps.engine                       = graph_coloring_engine::SAT;
        ps.sat_params.sat_engine        = r.one_of({bill::solvers::ghack, bill::solvers::glucose_41, bill::solvers::maple, bill::solvers::bmcg});
        ps.sat_params.sat_search_tactic = r.one_of({graph_coloring_sat_search_tactic::LINEARLY_ASCENDING, graph_coloring_sat_search_tactic::LINEARLY_DESCENDING, graph_coloring_sat_search_tactic::BINARY_SEARCH});
        eng = "SAT";
        if (r.chance(50))
        {
            // some cliques, greedily grown; possibly overlapping
            const auto k = 1 + r.below(3);
            for (uint64_t c = 0; c < k; ++c)
            {
                std::vector<std::size_t> cl;
                uint32_t                 cand = (1u << n) - 1;
                while (cand && !(cl.size() > 0 && r.chance(15)))
                {
                    int v = static_cast<int>(r.below(static_cast<uint64_t>(n)));
                    while (!(cand >> v & 1)) v = (v + 1) % n;
                    cl.push_back(id[static_cast<size_t>(v)]);
                    cand &= adj[static_cast<size_t>(v)];
                }
                ps.sat_params.cliques.push_back(cl);
            }
            ps.sat_params.clique_size_color_frequency = r.chance(30);
            fallback                                  = ps.sat_params.clique_size_color_frequency;
        }
        d += vm::cat(" tactic ", static_cast<int>(ps.sat_params.sat_search_tactic), " cliques ", ps.sat_params.cliques.size(), " freq ", fallback);
    }
    else
    {
        ps.engine = r.one_of({graph_coloring_engine::MCS, graph_coloring_engine::DSATUR, graph_coloring_engine::LMXRLF, graph_coloring_engine::TABUCOL});
        eng       = ps.engine == graph_coloring_engine::MCS ? "MCS" : ps.engine == graph_coloring_engine::DSATUR ? "DSATUR" : ps.engine == graph_coloring_engine::LMXRLF ? "LMXRLF" : "TABUCOL";
        ps.heuristic_params.k_color_value = static_cast<size_t>(n);
    }
    d = vm::cat(eng, " ", d);
    vm::note(d);
    const auto c = determine_vertex_coloring<G, Color>(g, ps, &st);
    vm::distinct(d);
    vm::sample(vm::cat(d, " chi=", chi));
    vm::count(std::string("colourings.") + eng);
    bool ok = c.size() == static_cast<size_t>(n);
    for (auto v : id) ok = ok && c.count(v) == 1;
    if (!vm::require(ok, "engine:not-every-vertex-coloured", d)) return;
    std::map<Color, std::size_t> freq;
    for (int i = 0; i < n; ++i)
    {
        ++freq[c.at(id[static_cast<size_t>(i)])];
        for (int j = 0; j < i; ++j)
            vm::require(!(adj[static_cast<size_t>(i)] >> j & 1) || c.at(id[static_cast<size_t>(i)]) != c.at(id[static_cast<size_t>(j)]), "engine:adjacent-vertices-share-a-colour", d);
    }
    vm::require(st.coloring_verified.has_value() && *st.coloring_verified, "engine:verification-result", d);
    const auto used = freq.size();
    if (sat && !fallback)
    {
        vm::require(st.chromatic_number == static_cast<size_t>(chi), "engine:SAT-chromatic-number", [&] { return vm::cat(d, " reported ", st.chromatic_number, " chi ", chi); });
        vm::require(used == static_cast<size_t>(chi), "engine:SAT-colours-used", [&] { return vm::cat(d, " used ", used, " chi ", chi); });
    }
    vm::require(used <= st.chromatic_number && st.chromatic_number >= static_cast<size_t>(chi), "engine:reported-chromatic-number", [&] { return vm::cat(d, " reported ", st.chromatic_number, " used ", used); });
    std::size_t mx = 0;
    for (auto& [k, f] : freq) mx = std::max(mx, f);
    vm::require(st.color_frequency == mx, "engine:color-frequency", [&] { return vm::cat(d, " reported ", st.color_frequency, " is ", mx); });
    vm::require(freq[st.most_frequent_color] == mx, "engine:most-frequent-color", [&] { return vm::cat(d, " reported ", +st.most_frequent_color); });
}
}  // namespace
VM_SUITE(sat, 700, 10000) { run<std::size_t>(r, true); }
VM_SUITE(heuristics, 600, 8000) { run<std::size_t>(r, false); }
VM_MAIN
