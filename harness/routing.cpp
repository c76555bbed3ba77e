// Monitors the wiring of placed gates: edge intersection graphs, colour-based routing, and clock number assignment.
#include "grow.hpp"

#include <fiction/algorithms/graph/generate_edge_intersection_graph.hpp>
#include <fiction/algorithms/physical_design/color_routing.hpp>
#include <fiction/algorithms/physical_design/determine_clocking.hpp>
#include <fiction/utils/routing_utils.hpp>

using namespace fiction;
using vm::cat;

namespace
{
using at = std::array<int, 3>;
template <typename T>
at key(const T& t) { return {static_cast<int>(t.x), static_cast<int>(t.y), static_cast<int>(t.z)}; }
std::string str(const at& a) { return cat("(", a[0], ",", a[1], ",", a[2], ")"); }
struct element
{
    std::string     what;
    std::vector<at> in;  // whatever the clocking
    bool operator==(const element&) const = default;
};
template <typename Lyt>
std::map<at, element> elements(const Lyt& l)
{
    std::map<at, element> m;
    l.foreach_node([&](const auto& n)
    {
        if (l.is_constant(n)) return;
        element e{cat(l.is_pi(n) ? "i" : l.is_po(n) ? "o" : "", kitty::to_hex(l.node_function(n)), " ", l.get_name(n)), {}};
        for (const auto& t : l.template incoming_data_flow<false>(l.get_tile(n))) e.in.push_back(key(t));
        m[key(l.get_tile(n))] = e;
    });
    return m;
}
std::string text(const std::map<at, element>& m)
{
    std::string s;
    for (const auto& [t, e] : m) { s += cat(" ", str(t), e.what, "<"); for (const auto& i : e.in) s += str(i); }
    return s;
}

// ---- clock numbers ----
// a layout whose connections know no clocking
template <typename Lyt>
Lyt sketch(vm::rng& r)
{
    const char* const schemes[] = {"OPEN3", "OPEN4", "ROW3", "ROW4", "COLUMNAR3", "COLUMNAR4"};
    const int         w = r.range(1, 6), h = r.range(1, 6);
    Lyt               l{{w - 1, h - 1, 1}, *get_clocking_scheme<Lyt>(schemes[r.below(6)])};
    if (r.chance(50)) for (int k = 0; k < w * h; ++k) l.assign_clock_number({r.range(0, w - 1), r.range(0, h - 1), r.range(0, 1)}, static_cast<uint8_t>(r.below(l.num_clocks())));
    std::vector<tile<Lyt>> nodes;
    const bool             lone = r.chance(15), sparse = r.chance(50);
    const auto             steps = r.range(1, w * h * 2);
    for (int k = 0; k < steps; ++k)
    {
        tile<Lyt> t{r.range(0, w - 1), r.range(0, h - 1), 0};
        bool      above = false;
        if (!l.is_empty_tile(t))
        {
            if (!l.is_wire_tile(t) || l.is_pi_tile(t) || l.is_po_tile(t)) continue;
            above = true;
        }
        else if (lone && r.chance(20)) above = true;
        if (above) t = l.above(t);
        if (!l.is_empty_tile(t)) continue;
        std::vector<mockturtle::signal<Lyt>> c;
        for (const auto& u : nodes)
            if (!l.is_po_tile(u) && l.is_adjacent_elevation_of(t, u) && !(u.x == t.x && u.y == t.y)) c.push_back(static_cast<mockturtle::signal<Lyt>>(u));
        for (std::size_t i = c.size(); i > 1; --i) std::swap(c[i - 1], c[r.below(i)]);
        if (c.empty() || (!above && r.chance(10))) { if (!above) l.create_pi("", t), nodes.push_back(t); continue; }
        if (above || c.size() < 2 || r.chance(sparse ? 85 : 40)) { if (!above && r.chance(15)) l.create_po(c[0], "", t); else l.create_buf(c[0], t); }
        else if (c.size() > 2 && r.chance(30)) l.create_maj(c[0], c[1], c[2], t);
        else l.create_lt(c[0], c[1], t);
        nodes.push_back(t);
    }
    return l;
}
// whether numbers exist: every connection adds one, stacked wires share theirs
struct potentials
{
    std::map<at, std::pair<at, int>> up;
    int                              n;
    std::pair<at, int> find(const at& a)
    {
        auto it = up.find(a);
        if (it == up.end()) { up[a] = {a, 0}; return {a, 0}; }
        if (it->second.first == a) return {a, 0};
        auto [root, d] = find(it->second.first);
        return {root, (it->second.second + d) % n};
    }
    bool join(const at& a, const at& b, const int d)  // number(a) = number(b) + d
    {
        const auto [ra, da] = find(a);
        const auto [rb, db] = find(b);
        if (ra == rb) return (da - db - d) % n == 0;
        up[ra] = {rb, ((d + db - da) % n + n) % n};
        return true;
    }
};
template <typename Lyt>
void clocking(vm::rng& r, const char* topology, const bool grown)
{
    Lyt l = [&]
    {
        if (!grown) return sketch<Lyt>(r);
        grow::options o;
        auto          g = grow::layout<Lyt>(r, o);
        if (r.chance(60))  // a clocking that has nothing to do with it
        {
            const bool three = g.num_clocks() == 3;
            g.replace_clocking_scheme(*get_clocking_scheme<Lyt>(three ? "OPEN3" : "OPEN4"));
            if (r.chance(50)) for (int k = 0; k < 20; ++k) g.assign_clock_number({r.range(0, static_cast<int>(g.x())), r.range(0, static_cast<int>(g.y())), r.range(0, 1)}, static_cast<uint8_t>(r.below(g.num_clocks())));
        }
        return g;
    }();
    const auto before = elements(l);
    const auto what   = cat(topology, " ", static_cast<int>(l.num_clocks()), " clocks ", std::string{l.get_clocking_scheme().name}, text(before));
    vm::note(what);
    const auto numbers = [&] { std::map<at, int> m; l.foreach_coordinate([&](const auto& c) { m[key(c)] = l.get_clock_number(c); }); return m; };
    const auto old     = numbers();
    potentials p{{}, static_cast<int>(l.num_clocks())};
    bool       possible = true;
    for (const auto& [t, e] : before)
    {
        for (const auto& i : e.in) possible &= p.join(t, i, 1);
        if (t[2] > 0 && before.contains({t[0], t[1], 0})) possible &= p.join(t, {t[0], t[1], 0}, 0);
    }
    determine_clocking_params ps{};
    ps.sat_engine = r.chance(50) ? bill::solvers::bsat2 : bill::solvers::ghack;
    determine_clocking_stats st{};
    const bool found = determine_clocking(l, ps, &st);
    vm::require(found == possible, "clocking:verdict", [&] { return cat(what, possible ? ": can be clocked" : ": cannot be clocked"); });
    vm::require(elements(l) == before, "clocking:elements", [&] { return what + " became" + text(elements(l)); });
    vm::require(static_cast<int>(l.num_clocks()) == p.n, "clocking:clocks", what);
    if (!found) vm::require(numbers() == old, "clocking:changed", what);
    else
        for (const auto& [t, e] : before)
        {
            const auto z = [&](const at& a) { return static_cast<int>(l.get_clock_number({a[0], a[1], a[2]})); };
            for (const auto& i : e.in) vm::require((z(i) + 1) % p.n == z(t), "clocking:flow", [&] { return cat(what, ": ", str(i), " ", z(i), " to ", str(t), " ", z(t)); });
            vm::require(z({t[0], t[1], 0}) == z({t[0], t[1], 1}), "clocking:layers", [&] { return what + " at " + str(t); });
        }
    vm::count(possible ? "clocked" : "not clockable");
    vm::distinct(what);
}

// ---- routing ----
template <typename Lyt>
struct problem
{
    Lyt                                 l;
    std::vector<routing_objective<Lyt>> objectives;
    std::map<at, element>               whole;
    std::optional<std::vector<uint64_t>> function;
    bool                                planar{true}, repeated{false};
    std::string                         what;
};
template <typename Lyt>
std::optional<problem<Lyt>> take_apart(vm::rng& r, const char* topology)
{
    grow::options o;
    o.width = o.height = 5;
    o.functions = o.names = o.override_zones = false;
    o.andor = true, o.fanout = 2, o.crossings = r.chance(40);
    static const char* const cart[] = {"2DDWAVE3", "2DDWAVE4", "USE", "RES", "ESR", "ROW4", "COLUMNAR3"};
    static const char* const hex[]  = {"ROW4", "ROW3", "2DDWAVEHEX4"};
    o.only_scheme = is_hexagonal_layout_v<Lyt> ? hex[r.below(3)] : cart[r.below(7)];
    problem<Lyt> p{grow::layout<Lyt>(r, o), {}, {}, {}, true, false, {}};
    auto&        l = p.l;
    p.whole        = elements(l);
    p.function     = nets::evaluate(l);
    for (const auto& [t, e] : p.whole) p.planar &= t[2] == 0;
    p.what       = cat(topology, " ", o.only_scheme, " ", l.x() + 1, "x", l.y() + 1, text(p.whole));
    const auto found = extract_routing_objectives(l);
    std::vector<std::size_t> order(found.size());
    for (std::size_t i = 0; i < order.size(); ++i) order[i] = i;
    for (std::size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[r.below(i)]);
    for (const auto i : order) p.objectives.push_back({found[i].source, found[i].target});
    clear_routing(l);
    std::set<std::pair<at, at>> seen;
    for (const auto& q : p.objectives)
    {
        if (!seen.insert({key(q.source), key(q.target)}).second) p.repeated = true;
        if (l.is_empty_tile(q.source) || l.is_empty_tile(q.target) || q.source.z != 0 || q.target.z != 0) return std::nullopt;
    }
    return p;
}
using path_t = std::vector<at>;
// all simple paths over empty tiles
template <typename Lyt>
std::vector<path_t> paths(const Lyt& l, const routing_objective<Lyt>& o, const std::size_t limit)
{
    std::vector<path_t> v;
    path_t              p{key(o.source)};
    const std::function<void(const tile<Lyt>&)> go = [&](const tile<Lyt>& t)
    {
        if (v.size() > limit) return;
        if (t == o.target) { v.push_back(p); return; }
        for (uint64_t x = t.x > 0 ? t.x - 1 : 0; x <= std::min<uint64_t>(t.x + 1, l.x()); ++x)
            for (uint64_t y = t.y > 0 ? t.y - 1 : 0; y <= std::min<uint64_t>(t.y + 1, l.y()); ++y)
            {
                const tile<Lyt> u{x, y, 0};
                if (u == t || !l.is_adjacent_of(t, u) || (l.get_clock_number(t) + 1) % l.num_clocks() != l.get_clock_number(u)) continue;
                if (u != o.target && !l.is_empty_tile(u)) continue;
                if (std::find(p.begin(), p.end(), key(u)) != p.end()) continue;
                p.push_back(key(u));
                go(u);
                p.pop_back();
            }
    };
    go(o.source);
    return v;
}
std::string text(const path_t& p) { std::string s; for (const auto& a : p) s += str(a); return s; }
bool conflict(const path_t& a, const path_t& b, const bool crossings)
{
    if (a.front() == b.front() && a.back() == b.back()) return true;
    if (crossings)
    {
        for (std::size_t i = 0; i + 1 < a.size(); ++i)
            for (std::size_t j = 0; j + 1 < b.size(); ++j) if (a[i] == b[j] && a[i + 1] == b[j + 1]) return true;
        return false;
    }
    for (std::size_t i = 1; i + 1 < a.size(); ++i) if (std::find(b.begin() + 1, b.end() - 1, a[i]) != b.end() - 1) return true;
    return false;
}
template <typename Lyt>
void intersection_graph(vm::rng& r, const char* topology)
{
    auto taken = take_apart<Lyt>(r, topology);
    if (!taken) return;
    auto& p = *taken;
    generate_edge_intersection_graph_params ps{};
    ps.crossings = r.chance(50);
    if (r.chance(40)) ps.path_limit = static_cast<uint32_t>(r.range(1, 6));
    if (r.chance(30) && !p.objectives.empty()) p.objectives.push_back({p.objectives[r.below(p.objectives.size())].target, p.objectives[r.below(p.objectives.size())].source});
    const auto what = cat(p.what, ps.crossings ? " crossings" : "", ps.path_limit ? cat(" limit ", *ps.path_limit) : "");
    vm::note(what);
    std::vector<std::vector<path_t>> expect;
    std::size_t                      total = 0, none = 0;
    for (const auto& o : p.objectives)
    {
        if (o.source == o.target) return;
        expect.push_back(paths(p.l, o, 300));
        total += expect.back().size();
        if (total > 300) { vm::count("too many paths"); return; }
        none += expect.back().empty();
    }
    generate_edge_intersection_graph_stats st{};
    const auto g = generate_edge_intersection_graph(p.l, p.objectives, ps, &st);
    vm::require(st.number_of_unroutable_objectives == none, "intersection-graph:unroutable", [&] { return cat(what, ": ", st.number_of_unroutable_objectives, ", not ", none); });
    vm::require(st.num_vertices == g.size_vertices() && st.num_edges == g.size_edges(), "intersection-graph:stats", what);
    std::map<std::size_t, path_t> label;
    for (auto it = g.begin_vertices(); it != g.end_vertices(); ++it) { path_t q; for (const auto& c : it->second) q.push_back(key(c)); label[it->first] = q; }
    std::map<std::size_t, std::size_t> objective;
    std::size_t clique = 0, next = 0;
    for (std::size_t i = 0; i < expect.size(); ++i)
    {
        if (expect[i].empty()) continue;
        if (!vm::require(clique < st.cliques.size(), "intersection-graph:cliques", what)) return;
        const auto& ids = st.cliques[clique++];
        const auto  want = ps.path_limit ? std::min<std::size_t>(*ps.path_limit, expect[i].size()) : expect[i].size();
        vm::require(ids.size() == want, "intersection-graph:paths", [&] { return cat(what, ": ", ids.size(), " paths from ", nets::str(p.objectives[i].source), " to ", nets::str(p.objectives[i].target), ", not ", want); });
        std::set<path_t> got;
        std::size_t      longest = 0;
        for (const auto id : ids)
        {
            vm::require(id == next++ && label.contains(id), "intersection-graph:label", what);
            objective[id] = i;
            const auto& q = label[id];
            vm::require(std::find(expect[i].begin(), expect[i].end(), q) != expect[i].end(), "intersection-graph:path", [&] { return what + ": " + text(q); });
            vm::require(got.insert(q).second, "intersection-graph:twice", [&] { return what + ": " + text(q); });
            longest = std::max(longest, q.size());
        }
        if (ps.path_limit) for (const auto& q : expect[i]) vm::require(got.contains(q) || q.size() >= longest, "intersection-graph:shorter", [&] { return what + ": " + text(q); });
    }
    vm::require(clique == st.cliques.size() && objective.size() == label.size(), "intersection-graph:cliques", what);
    std::set<std::pair<std::size_t, std::size_t>> edges;
    for (auto it = g.begin_edges(); it != g.end_edges(); ++it) edges.insert({std::min(it->first.a, it->first.b), std::max(it->first.a, it->first.b)});
    std::size_t n = 0;
    for (const auto& [a, i] : objective)
        for (const auto& [b, j] : objective)
            if (a < b)
            {
                const bool want = i == j || conflict(label[a], label[b], ps.crossings);
                n += want;
                vm::require(edges.contains({a, b}) == want, want ? "intersection-graph:edge-missing" : "intersection-graph:edge-spurious", [&] { return cat(what, ": ", text(label[a]), " and ", text(label[b])); });
            }
    vm::require(edges.size() == n, "intersection-graph:edges", what);
    vm::count("intersection graph edges", static_cast<long>(n));
    vm::count("intersection graph paths", static_cast<long>(label.size()));
    vm::distinct(what);
}
template <typename Lyt>
void routing(vm::rng& r, const char* topology)
{
    auto taken = take_apart<Lyt>(r, topology);
    if (!taken || taken->objectives.empty()) return;
    auto& p = *taken;
    std::size_t total = 0;
    for (const auto& o : p.objectives) total += paths(p.l, o, 120).size();
    color_routing_params ps{};
    ps.crossings = r.chance(50);
    if (total > 120 || r.chance(25)) ps.path_limit = static_cast<uint32_t>(r.range(1, 4));
    ps.conduct_partial_routing = r.chance(30);
    ps.partial_sat             = r.chance(25);
    static const graph_coloring_engine engines[] = {graph_coloring_engine::SAT, graph_coloring_engine::SAT, graph_coloring_engine::MCS, graph_coloring_engine::DSATUR, graph_coloring_engine::LMXRLF};
    ps.engine = engines[r.below(total > 60 ? 5 : 5)];
    if (ps.engine == graph_coloring_engine::SAT && total > 60) ps.path_limit = 3;
    bool extra = false;
    if (r.chance(15))
    {
        // what cannot be done
        const auto& a = p.objectives[r.below(p.objectives.size())];
        p.objectives.push_back({a.target, a.source});
        extra = true;
    }
    if (extra && paths(p.l, p.objectives.back(), 1).size() > 0) return;
    const auto what = cat(p.what, ps.crossings ? " crossings" : "", ps.path_limit ? cat(" limit ", *ps.path_limit) : "", ps.conduct_partial_routing ? " partial" : "", ps.partial_sat ? " partial-sat" : "", " engine ", static_cast<int>(ps.engine), extra ? " impossible" : "");
    vm::note(what);
    bool any = false;
    for (const auto& o : p.objectives) any |= !paths(p.l, o, 1).empty();
    if (!any) return;
    auto& l = p.l;
    const auto before = elements(l);
    color_routing_stats st{};
    const bool ok = color_routing(l, p.objectives, ps, &st);
    const auto after = elements(l);
    vm::distinct(what);
    vm::require(!ps.conduct_partial_routing || ok, "routing:partial", what);
    if (!ok)
    {
        vm::require(after == before, "routing:changed", [&] { return what + " became" + text(after); });
        vm::count("not routed");
        vm::require(extra || p.repeated || !p.planar || ps.engine != graph_coloring_engine::SAT || ps.path_limit || ps.partial_sat, "routing:incomplete", what);
        return;
    }
    // every connection leads back over wires of its own to the source of an objective
    std::multiset<std::pair<at, at>> done, want;
    for (const auto& o : p.objectives) want.insert({key(o.source), key(o.target)});
    std::set<at> used;
    for (const auto& [t, e] : before)
    {
        const auto it = after.find(t);
        if (!vm::require(it != after.end() && it->second.what == e.what, "routing:gate", [&] { return what + ": " + str(t) + " is gone, now" + text(after); })) return;
        for (auto i : it->second.in)
        {
            while (!before.contains(i))
            {
                const auto w = after.find(i);
                if (!vm::require(w != after.end() && w->second.in.size() == 1 && used.insert(i).second, "routing:wire", [&] { return cat(what, ": ", str(i), " on the way to ", str(t), ", now", text(after)); })) return;
                const tile<Lyt> x{i[0], i[1], i[2]};
                vm::require(l.is_wire_tile(x) && !l.is_pi_tile(x) && !l.is_po_tile(x), "routing:no-wire", [&] { return what + ": " + str(i); });
                vm::require(i[2] == 0 || (ps.crossings && after.contains({i[0], i[1], 0}) && !before.contains({i[0], i[1], 0})), "routing:crossing", [&] { return what + ": " + str(i) + ", now" + text(after); });
                vm::require((l.get_clock_number({w->second.in[0][0], w->second.in[0][1], 0}) + 1) % l.num_clocks() == l.get_clock_number(x), "routing:clocking", [&] { return what + ": " + str(i); });
                i = w->second.in[0];
            }
            done.insert({i, t});
        }
    }
    vm::require(used.size() + before.size() == after.size(), "routing:stray", [&] { return what + ", now" + text(after); });
    for (const auto& d : done) vm::require(want.count(d) >= done.count(d), "routing:unwanted", [&] { return what + ": " + str(d.first) + str(d.second); });
    vm::require(st.number_of_unsatisfied_objectives == want.size() - done.size(), "routing:unsatisfied", [&] { return cat(what, ": ", st.number_of_unsatisfied_objectives, ", not ", want.size() - done.size()); });
    if (!ps.conduct_partial_routing)
    {
        vm::require(done == want, "routing:missing", [&] { return what + ", now" + text(after); });
        vm::require(!extra, "routing:impossible", what);
    }
    else vm::require(!done.empty(), "routing:none", what);
    if (done == want && p.function) vm::require(nets::evaluate(l) == p.function, "routing:function", [&] { return what + ", now" + text(after); });
    vm::count(done == want ? "routed" : "partially routed");
    vm::count("wires", static_cast<long>(used.size()));
}
}  // namespace
VM_SUITE(clocking_cartesian, 200, 4000) { clocking<cart_gate_clk_lyt>(r, "cartesian", r.chance(40)); }
VM_SUITE(clocking_hexagonal, 100, 2000) { clocking<hex_even_row_gate_clk_lyt>(r, "hexagonal", r.chance(40)); }
VM_SUITE(clocking_shifted, 60, 1000) { clocking<cart_odd_col_gate_clk_lyt>(r, "shifted", r.chance(40)); }
VM_SUITE(graph_cartesian, 300, 6000) { intersection_graph<cart_gate_clk_lyt>(r, "cartesian"); }
VM_SUITE(graph_hexagonal, 100, 2000) { intersection_graph<hex_even_row_gate_clk_lyt>(r, "hexagonal"); }
VM_SUITE(routing_cartesian, 300, 6000) { routing<cart_gate_clk_lyt>(r, "cartesian"); }
VM_SUITE(routing_hexagonal, 100, 2000) { routing<hex_even_row_gate_clk_lyt>(r, "hexagonal"); }
VM_MAIN
