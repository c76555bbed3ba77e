// Monitors crossing minimization on ranked networks, truth tables by name and the truth table reader.
#include "nets.hpp"

#include <fiction/algorithms/graph/mincross.hpp>
#include <fiction/algorithms/network_transformation/network_balancing.hpp>
#include <fiction/io/tt_reader.hpp>
#include <fiction/networks/views/mutable_rank_view.hpp>
#include <fiction/utils/truth_table_utils.hpp>

#include <filesystem>
#include <fstream>
#include <set>
#include <sstream>

using namespace fiction;

namespace
{
using ntk_t  = technology_network;
using view_t = mutable_rank_view<ntk_t>;
using node_t = ntk_t::node;

// every edge leads from one level to the next
ntk_t layered(vm::rng& r, std::string& text)
{
    ntk_t n{};
    std::vector<ntk_t::signal> prev;
    for (auto k = r.range(1, 7); k > 0; --k) prev.push_back(n.create_pi());
    text = vm::cat(prev.size(), " inputs");
    std::set<node_t> outs;
    for (auto d = r.range(1, 6); d > 0; --d)
    {
        std::vector<ntk_t::signal> cur;
        std::set<node_t>           used, seen;
        text += " |";
        for (auto k = r.range(1, 8); k > 0; --k)
        {
            const auto take = std::min<std::size_t>(prev.size(), r.one_of<std::size_t>({1, 2, 2, 2, 3}));
            std::set<std::size_t> p;
            while (p.size() < take) p.insert(r.below(prev.size()));
            std::vector<ntk_t::signal> c;
            for (const auto i : p) c.push_back(prev[i]);
            for (std::size_t i = c.size(); i > 1; --i) std::swap(c[i - 1], c[r.below(i)]);
            ntk_t::signal s{};
            if (take == 1) s = r.chance(50) ? n.create_buf(c[0]) : n.create_not(c[0]);
            else if (take == 2) s = r.chance(40) ? n.create_and(c[0], c[1]) : r.chance(50) ? n.create_or(c[0], c[1]) : n.create_xor(c[0], c[1]);
            else s = n.create_maj(c[0], c[1], c[2]);
            if (!seen.insert(n.get_node(s)).second) continue;
            for (const auto& x : c) used.insert(n.get_node(x));
            cur.push_back(s);
            text += " (";
            for (const auto& x : c) text += vm::cat(n.get_node(x), ",");
            text += vm::cat(")=", n.get_node(s));
        }
        for (const auto& x : prev) if (!used.contains(n.get_node(x))) outs.insert(n.get_node(x));
        prev = cur;
        // outputs only at the end: whatever ends earlier stays without
    }
    for (const auto x : outs) n.create_po(n.make_signal(x));
    for (const auto& x : prev) n.create_po(x);
    return n;
}
uint64_t brute(const ntk_t& n, const std::vector<std::vector<node_t>>& rk)
{
    std::map<node_t, std::pair<std::size_t, std::size_t>> at;
    for (std::size_t l = 0; l < rk.size(); ++l) for (std::size_t i = 0; i < rk[l].size(); ++i) at[rk[l][i]] = {l, i};
    uint64_t c = 0;
    for (std::size_t l = 1; l < rk.size(); ++l)
    {
        std::vector<std::pair<std::size_t, std::size_t>> e;
        for (std::size_t i = 0; i < rk[l].size(); ++i) n.foreach_fanin(rk[l][i], [&](const auto& f) { const auto a = at.find(n.get_node(f)); if (a != at.end()) e.emplace_back(a->second.second, i); });
        for (std::size_t i = 0; i < e.size(); ++i)
            for (std::size_t j = 0; j < e.size(); ++j) c += e[i].first < e[j].first && e[i].second > e[j].second;
    }
    return c;
}
std::vector<std::vector<node_t>> ranks_of(const view_t& v)
{
    std::vector<std::vector<node_t>> k(v.depth() + 1);
    for (uint32_t l = 0; l < k.size(); ++l) v.foreach_node_in_rank(l, [&](const auto& n) { k[l].push_back(n); });
    return k;
}
}  // namespace

VM_SUITE(crossings, 500, 5000)
{
    std::string text;
    const auto  n = layered(r, text);
    if (!is_balanced(n)) { vm::count("networks not balanced"); return; }
    view_t v{n};
    for (uint32_t l = 0; l <= v.depth(); ++l)
    {
        auto k = v.get_ranks(l);
        for (std::size_t i = k.size(); i > 1; --i) std::swap(k[i - 1], k[r.below(i)]);
        v.set_ranks(l, k);
    }
    const auto before  = ranks_of(v);
    const auto initial = brute(n, before);
    mincross_params p{};
    p.fixed_pis = r.chance(40);
    p.optimize  = r.chance(75);
    if (r.chance(30)) p.max_iter = static_cast<uint64_t>(r.range(0, 40));
    if (r.chance(30)) p.min_quit = static_cast<uint64_t>(r.range(0, 12));
    if (r.chance(30)) p.convergence = r.unit();
    if (r.chance(30)) p.init_refine_max_iters = static_cast<uint64_t>(r.range(0, 30));
    const auto what = [&] { return vm::cat(text, p.fixed_pis ? " fixed" : "", p.optimize ? "" : " count only", " initially ", initial); };
    mincross_stats st{};
    const auto  res   = mincross(v, p, &st);
    const auto  after = ranks_of(res);
    vm::require(ranks_of(v) == before && v.check_validity(), "crossings:network-given", what);
    vm::require(st.num_crossings == brute(n, after), "crossings:number", [&] { return vm::cat("reported ", st.num_crossings, " are ", brute(n, after), " ", what()); });
    vm::require(st.num_crossings <= initial, "crossings:more-than-before", [&] { return vm::cat(st.num_crossings, " ", what()); });
    bool same = after.size() == before.size() && res.check_validity();
    for (std::size_t l = 0; same && l < after.size(); ++l)
    {
        auto a = after[l], b = before[l];
        if (!p.optimize || (l == 0 && p.fixed_pis)) vm::require(a == b, "crossings:rank-to-keep", [&] { return vm::cat("rank ", l, " ", what()); });
        for (std::size_t i = 0; i < a.size(); ++i) vm::require(res.rank_position(a[i]) == i, "crossings:position", what);
        std::sort(a.begin(), a.end());
        std::sort(b.begin(), b.end());
        same &= a == b;
    }
    vm::require(same, "crossings:ranks", what);
    // the network is the same
    bool net = res.size() == n.size() && res.num_pis() == n.num_pis() && res.num_pos() == n.num_pos();
    n.foreach_node([&](const auto& x) {
        std::vector<uint64_t> a, b;
        n.foreach_fanin(x, [&](const auto& f) { a.push_back(f); });
        res.foreach_fanin(x, [&](const auto& f) { b.push_back(f); });
        net &= a == b && n.node_function(x) == res.node_function(x);
    });
    std::vector<uint64_t> pa, pb;
    n.foreach_po([&](const auto& f) { pa.push_back(f); });
    res.foreach_po([&](const auto& f) { pb.push_back(f); });
    vm::require(net && pa == pb, "crossings:network", what);
    // again, and from what was reached
    mincross_stats again{};
    vm::require(ranks_of(mincross(v, p, &again)) == after && again.num_crossings == st.num_crossings, "crossings:reproducible", what);
    const view_t reached{res};
    mincross_stats more{};
    mincross(reached, p, &more);
    vm::require(more.num_crossings <= st.num_crossings, "crossings:from-there", what);
    // a chain, a tree of one-operand gates: nothing crosses when sorted top-down from a single input
    if (p.optimize && n.num_pis() == 1 && std::all_of(before.begin(), before.end(), [](const auto& k) { return k.size() == 1; })) vm::require(st.num_crossings == 0, "crossings:chain", what);
    vm::count("networks");
    vm::count("crossings initially", static_cast<long>(initial));
    vm::count("crossings left", static_cast<long>(st.num_crossings));
    vm::distinct(text);
}
VM_SUITE(tables_by_name, 1, 1)
{
    using f = bool (*)(bool, bool, bool);
    struct entry { const char* name; unsigned k; kitty::dynamic_truth_table tt; f fn; };
    const std::vector<entry> all{
        {"id", 1, create_id_tt(), [](bool a, bool, bool) { return a; }},
        {"not", 1, create_not_tt(), [](bool a, bool, bool) { return !a; }},
        {"and", 2, create_and_tt(), [](bool a, bool b, bool) { return a && b; }},
        {"or", 2, create_or_tt(), [](bool a, bool b, bool) { return a || b; }},
        {"nand", 2, create_nand_tt(), [](bool a, bool b, bool) { return !(a && b); }},
        {"nor", 2, create_nor_tt(), [](bool a, bool b, bool) { return !(a || b); }},
        {"xor", 2, create_xor_tt(), [](bool a, bool b, bool) { return a != b; }},
        {"xnor", 2, create_xnor_tt(), [](bool a, bool b, bool) { return a == b; }},
        {"lt", 2, create_lt_tt(), [](bool a, bool b, bool) { return !a && b; }},
        {"gt", 2, create_gt_tt(), [](bool a, bool b, bool) { return a && !b; }},
        {"le", 2, create_le_tt(), [](bool a, bool b, bool) { return !a || b; }},
        {"ge", 2, create_ge_tt(), [](bool a, bool b, bool) { return a || !b; }},
        {"and3", 3, create_and3_tt(), [](bool a, bool b, bool c) { return a && b && c; }},
        {"xor_and", 3, create_xor_and_tt(), [](bool a, bool b, bool c) { return a && (b != c); }},
        {"or_and", 3, create_or_and_tt(), [](bool a, bool b, bool c) { return a && (b || c); }},
        {"onehot", 3, create_onehot_tt(), [](bool a, bool b, bool c) { return a + b + c == 1; }},
        {"maj", 3, create_maj_tt(), [](bool a, bool b, bool c) { return a + b + c >= 2; }},
        {"gamble", 3, create_gamble_tt(), [](bool a, bool b, bool c) { return a == b && b == c; }},
        {"dot", 3, create_dot_tt(), [](bool a, bool b, bool c) { return a != (c || (a && b)); }},
        {"ite", 3, create_ite_tt(), [](bool a, bool b, bool c) { return a ? b : c; }},
        {"and_xor", 3, create_and_xor_tt(), [](bool a, bool b, bool c) { return a != (b && c); }},
        {"xor3", 3, create_xor3_tt(), [](bool a, bool b, bool c) { return (a + b + c) % 2 == 1; }}};
    for (const auto& e : all)
    {
        vm::require(e.tt.num_vars() == e.k, "table:arity", e.name);
        if (e.tt.num_vars() != e.k) continue;
        for (unsigned b = 0; b < (1u << e.k); ++b)
        {
            const bool x = b & 1, y = b & 2, z = b & 4;
            // the first of two operands is the highest variable, the first of three the lowest
            const bool low = e.fn(x, y, z), high = e.k == 1 ? low : e.k == 2 ? e.fn(y, x, z) : low;
            const bool bit = kitty::get_bit(e.tt, b);
            const std::string nm = e.name;
            vm::require(bit == high, "table:function", [&] { return vm::cat(nm, " at ", b, " is ", bit, " low ", low, " high ", high, " ", kitty::to_hex(e.tt)); });
        }
        vm::count("functions");
        vm::distinct(std::string{e.name});
    }
    const auto multi = [&](const char* name, const std::vector<kitty::dynamic_truth_table>& t, const unsigned k, const std::vector<f>& fs)
    {
        vm::require(t.size() == fs.size(), "table:outputs", name);
        if (t.size() != fs.size()) return;
        for (unsigned b = 0; b < (1u << k); ++b)
        {
            uint64_t w = 0;
            for (std::size_t i = 0; i < t.size(); ++i)
            {
                vm::require(t[i].num_vars() == k && kitty::get_bit(t[i], b) == (k == 1 ? fs[i](b & 1, false, false) : fs[i](b & 2, b & 1, false)), "table:multi-output", [&] { return vm::cat(name, " output ", i, " at ", b, " ", kitty::to_hex(t[i])); });
                w |= static_cast<uint64_t>(kitty::get_bit(t[i], b)) << i;
            }
            vm::require(evaluate_output(t, b) == w, "table:evaluate_output", [&] { return vm::cat(name, " at ", b, " is ", evaluate_output(t, b)); });
        }
    };
    multi("double wire", create_double_wire_tt(), 2, {[](bool a, bool, bool) { return a; }, [](bool, bool b, bool) { return b; }});
    multi("crossing wire", create_crossing_wire_tt(), 2, {[](bool, bool b, bool) { return b; }, [](bool a, bool, bool) { return a; }});
    multi("fanout", create_fan_out_tt(), 1, {[](bool a, bool, bool) { return a; }, [](bool a, bool, bool) { return a; }});
    multi("half adder", create_half_adder_tt(), 2, {[](bool a, bool b, bool) { return a != b; }, [](bool a, bool b, bool) { return a && b; }});
}
VM_SUITE(tables_from_files, 600, 4000)
{
    std::string text, log;
    std::vector<kitty::dynamic_truth_table> want;
    const auto lines = r.chance(15) ? 0 : r.range(1, 12);
    for (auto i = 0; i < lines; ++i)
    {
        kitty::dynamic_truth_table t(static_cast<uint32_t>(r.range(2, 8)));
        for (uint64_t b = 0; b < t.num_bits(); ++b) if (r.chance(50)) kitty::set_bit(t, b);
        want.push_back(t);
        text += (r.chance(10) ? " \n" : "") + ("0x" + kitty::to_hex(t)) + (r.chance(80) ? " " : " \t ") + r.one_of<const char*>({"(ab)", "!(a!b)", "<abc>", "[ab]"});
        if (i + 1 < lines || r.chance(80)) text += "\n";
    }
    const auto read = [&](auto& reader, const char* how)
    {
        for (std::size_t i = 0; i < want.size(); ++i)
        {
            const auto t = reader.next();
            vm::require(t.has_value() && *t == want[i], "reader:table", [&] { return vm::cat(how, " ", i, " of\n", text); });
        }
        for (int i = 0; i < 3; ++i) vm::require(!reader.next().has_value(), "reader:end", [&] { return vm::cat(how, "\n", text); });
    };
    std::istringstream is{text};
    tt_reader<> a{is};
    read(a, "stream");
    char n[] = "/tmp/vm_tt_XXXXXX";
    const std::filesystem::path d = ::mkdtemp(n);
    { std::ofstream o{d / "t"}; o << text; }
    tt_reader<> b{(d / "t").string()};
    read(b, "file");
    want.clear();
    tt_reader<> c{(d / "absent").string()};
    read(c, "absent file");
    std::filesystem::remove_all(d);
    vm::count("tables read", lines);
    vm::distinct(text);
}
VM_MAIN
