// Monitors FGL files: what is written is read back as the same layout; what is malformed is refused.
#include "grow.hpp"

#include <fiction/algorithms/physical_design/hexagonalization.hpp>
#include <fiction/algorithms/physical_design/orthogonal.hpp>
#include <fiction/io/read_fgl_layout.hpp>
#include <fiction/io/write_fgl_layout.hpp>
#include <fiction/utils/name_utils.hpp>

#include <filesystem>

using namespace fiction;

namespace
{
// everything that makes up a layout
template <typename Lyt>
std::vector<std::string> fingerprint(const Lyt& l)
{
    std::vector<std::string> v;
    v.push_back(vm::cat("size ", static_cast<uint64_t>(l.x()), " ", static_cast<uint64_t>(l.y()), " ", static_cast<uint64_t>(l.z())));
    v.push_back("name " + get_name(l));
    v.push_back(vm::cat("clocking ", std::string{l.get_clocking_scheme().name}, " ", static_cast<int>(l.num_clocks())));
    std::string z = "zones";
    for (uint64_t y = 0; y <= l.y(); ++y) for (uint64_t x = 0; x <= l.x(); ++x) z += vm::cat(" ", static_cast<int>(l.get_clock_number({x, y})));
    v.push_back(z);
    std::map<std::string, std::string> g;
    l.foreach_node([&](const auto& n)
    {
        if (l.is_constant(n)) return;
        const auto t = l.get_tile(n);
        if (t.is_dead()) return;
        auto& s = g["node " + nets::str(t)];
        s += l.is_pi(n) ? " PI " : l.is_po(n) ? " PO " : " ";
        if (l.is_pi(n) || l.is_po(n)) s += l.get_name(n) + " ";
        s += vm::cat(l.node_function(n).num_vars(), ":", kitty::to_hex(l.node_function(n)));
        const auto fn = [&](const auto& f) { s += " " + nets::str(static_cast<tile<Lyt>>(f)); };
        l.foreach_fanin(n, fn);
    });
    for (const auto& [a, b] : g) v.push_back(a + b);
    uint32_t i = 0;
    l.foreach_pi([&](const auto& p) { v.push_back(vm::cat("input ", i, " ", nets::str(l.get_tile(p)), " ", l.get_input_name(i))); ++i; });
    i = 0;
    l.foreach_po([&](const auto& p) { v.push_back(vm::cat("output ", i, " ", nets::str(static_cast<tile<Lyt>>(p)), " ", l.get_output_name(i))); ++i; });
    v.push_back(vm::cat("counts ", l.num_gates(), " ", l.num_wires(), " ", l.num_pis(), " ", l.num_pos(), " ", l.num_crossings()));
    return v;
}
std::string first_difference(const std::vector<std::string>& a, const std::vector<std::string>& b)
{
    for (std::size_t i = 0; i < std::max(a.size(), b.size()); ++i)
        if (i >= a.size() || i >= b.size() || a[i] != b[i]) return (i < b.size() ? b[i] : std::string{"nothing"}) + " instead of " + (i < a.size() ? a[i] : std::string{"nothing"});
    return {};
}
std::string without_date(std::string s)
{
    const auto a = s.find("<date>"), b = s.find("</date>");
    return a == std::string::npos || b == std::string::npos ? s : s.substr(0, a) + s.substr(b);
}
template <typename Lyt>
void round_trip(const Lyt& l, const std::string& what, const char* key, const bool judge_size = true)
{
    std::stringstream s;
    const auto before = fingerprint(l);
    write_fgl_layout(l, s);
    const auto text = s.str();
    vm::require(fingerprint(l) == before, vm::cat(key, ":writing-changes").c_str(), what);
    try
    {
        const auto q = read_fgl_layout<Lyt>(s);
        auto       a = before;
        auto       b = fingerprint(q);
        if (!judge_size) a.erase(a.begin()), b.erase(b.begin());
        const auto d = first_difference(a, b);
        if (!vm::require(d.empty(), vm::cat(key, ":round-trip:", d.substr(0, d.find(' '))).c_str(), [&] { return what + ": read " + d; })) return;
        // in place, into a layout that is in use
        Lyt               old{{3, 3, 1}, *get_clocking_scheme<Lyt>("2DDWAVE"), "old"};
        std::stringstream s2{text};
        read_fgl_layout(old, s2);
        auto c = fingerprint(old);
        if (!judge_size) c.erase(c.begin());
        if (get_name(l).empty()) c[judge_size ? 1 : 0] = a[judge_size ? 1 : 0];  // an empty name does not replace the old one
        const auto e = first_difference(a, c);
        vm::require(e.empty(), vm::cat(key, ":in-place").c_str(), [&] { return what + ": read " + e; });
        std::stringstream again;
        write_fgl_layout(q, again);
        // gates without an order among each other may appear in another one
        std::multiset<char> x, y;
        for (const auto ch : without_date(text)) x.insert(ch);
        for (const auto ch : without_date(again.str())) y.insert(ch);
        vm::require(x == y, vm::cat(key, ":rewritten").c_str(), what);
    }
    catch (const std::exception& e) { vm::violate(vm::cat(key, ":refused").c_str(), what + ": " + e.what()); }
    vm::count("layouts written and read");
    vm::count("tiles written and read", static_cast<long>(l.num_gates() + l.num_wires()));
    vm::distinct(what);
    vm::sample(what);
}
template <typename Lyt>
void random_files(vm::rng& r, const bool odd_names)
{
    grow::options o;
    o.names     = odd_names;
    o.width     = vm::thorough() ? 10 : 7;
    o.height    = o.width;
    const auto name = odd_names ? grow::some_name(r, true) : r.chance(50) ? std::string{} : grow::some_name(r, false);
    const auto l    = grow::layout<Lyt>(r, o, name);
    if (l.num_pos() == 0) { vm::count("layouts without outputs"); return; }
    const auto what = grow::describe(l) + (odd_names ? [&] { std::string s = " layout name " + name + " names"; l.foreach_pi([&](const auto& p) { s += " [" + l.get_name(p) + "]"; }); l.foreach_po([&](const auto& p) { s += " [" + l.get_name(p) + "]"; }); return s; }() : std::string{});
    vm::note(what);
    round_trip(l, what, odd_names ? "fgl-names" : "fgl");
}
VM_SUITE(cartesian, 300, 3000) { random_files<cart_gate_clk_lyt>(r, false); }
VM_SUITE(cartesian_names, 150, 1500) { random_files<cart_gate_clk_lyt>(r, true); }
VM_SUITE(shifted_odd_row, 60, 600) { random_files<gate_level_layout<clocked_layout<tile_based_layout<shifted_cartesian_layout<offset::ucoord_t, odd_row_cartesian>>>>>(r, false); }
VM_SUITE(shifted_even_row, 60, 600) { random_files<gate_level_layout<clocked_layout<tile_based_layout<shifted_cartesian_layout<offset::ucoord_t, even_row_cartesian>>>>>(r, false); }
VM_SUITE(shifted_odd_column, 60, 600) { random_files<gate_level_layout<clocked_layout<tile_based_layout<shifted_cartesian_layout<offset::ucoord_t, odd_column_cartesian>>>>>(r, false); }
VM_SUITE(shifted_even_column, 60, 600) { random_files<gate_level_layout<clocked_layout<tile_based_layout<shifted_cartesian_layout<offset::ucoord_t, even_column_cartesian>>>>>(r, false); }
VM_SUITE(hex_odd_row, 60, 600) { random_files<hex_odd_row_gate_clk_lyt>(r, false); }
VM_SUITE(hex_even_row, 60, 600) { random_files<hex_even_row_gate_clk_lyt>(r, false); }
VM_SUITE(hex_odd_column, 60, 600) { random_files<gate_level_layout<clocked_layout<tile_based_layout<hexagonal_layout<offset::ucoord_t, odd_column_hex>>>>>(r, false); }
VM_SUITE(hex_even_column, 60, 600) { random_files<gate_level_layout<clocked_layout<tile_based_layout<hexagonal_layout<offset::ucoord_t, even_column_hex>>>>>(r, false); }
VM_SUITE(placed_and_routed, 60, 600)
{
    nets::shape s;
    s.max_pi = 4, s.max_gates = vm::thorough() ? 30 : 15, s.max_po = 3;
    s.repeated = false, s.same_root = false, s.comparison = true;
    auto [n, t] = nets::random_network(r, s);
    const auto l = orthogonal<cart_gate_clk_lyt>(n);
    vm::note(t.text);
    round_trip(l, t.text, "fgl");
    std::stringstream f;
    write_fgl_layout(l, f);
    const auto q = read_fgl_layout<cart_gate_clk_lyt>(f);
    nets::implements(q, t, "fgl", t.text);
    if (r.chance(50)) round_trip(hexagonalization<hex_even_row_gate_clk_lyt>(l), "hexagonal " + t.text, "fgl");
}
// what is malformed is refused, and nothing else happens
VM_SUITE(malformed, 300, 3000)
{
    grow::options o;
    o.width = 4, o.height = 4;
    const auto l = grow::layout<cart_gate_clk_lyt>(r, o, "m");
    std::stringstream s;
    write_fgl_layout(l, s);
    auto text = s.str();
    // the elements of the file
    struct elem { std::size_t open, inner, close, end; std::string name; };
    std::vector<elem> es;
    {
        std::vector<elem> st;
        for (std::size_t i = text.find("<fgl>"); i < text.size();)
        {
            i = text.find('<', i);
            if (i == std::string::npos) break;
            const auto e = text.find('>', i);
            if (text[i + 1] == '/') { auto x = st.back(); st.pop_back(); x.close = i; x.end = e + 1; es.push_back(x); }
            else st.push_back({i, e + 1, 0, 0, text.substr(i + 1, e - i - 1)});
            i = e + 1;
        }
    }
    std::erase_if(es, [&](const auto& e) { const auto a = text.find("<fiction>"), b = text.find("</fiction>"); return e.open >= a && e.open <= b; });
    const auto of = [&](const std::set<std::string>& names) { std::vector<elem> v; for (const auto& e : es) if (names.contains(e.name)) v.push_back(e); return v; };
    std::string what;
    const auto  kind   = r.below(6);
    const auto  number = [](const std::string& n) { return n == "x" || n == "y" || n == "z" || n == "id" || n == "clock"; };
    if (kind == 0)
    {
        // a required element is missing
        auto v = of({"layout", "topology", "size", "x", "y", "z", "clocking", "id", "type", "loc", "clock"});
        const auto e = v[r.below(v.size())];
        what = "without " + e.name;
        text.erase(e.open, e.end - e.open);
    }
    else if (kind == 1)
    {
        // a number is none
        auto v = of({"x", "y", "z", "id", "clock"});
        const auto e = v[r.below(v.size())];
        const std::string bad = r.one_of({std::string{"abc"}, std::string{""}, std::string{"--1"}, std::string{"99999999999999999999999999"}, std::string{"x1"}});
        what = e.name + " is '" + bad + "'";
        text.replace(e.inner, e.close - e.inner, bad);
    }
    else if (kind == 2)
    {
        auto v = of({"topology", "type"});
        const auto e = v[r.below(v.size())];
        const std::string bad = r.one_of({std::string{"none"}, std::string{"odd_row_cartesian"}, std::string{"even_column_hex"}, std::string{"XYZ"}, std::string{"and"}});
        what = e.name + " is '" + bad + "'";
        text.replace(e.inner, e.close - e.inner, bad);
    }
    else if (kind == 3)
    {
        const auto a = text.find("<clocking>"), b = text.find("<name>", a);
        what = "unknown clocking";
        text.replace(b + 6, text.find("</name>", b) - b - 6, r.one_of({std::string{"NOTHING"}, std::string{"USE2"}, std::string{""}}));
    }
    else if (kind == 4)
    {
        // cut off
        const auto a = text.find("<fgl>"), b = text.find("</fgl>");
        const auto n = a + 2 + r.below(b - a);
        what = vm::cat("only ", n, " characters");
        text.resize(n);
    }
    else
    {
        text = r.one_of({std::string{""}, std::string{"garbage"}, std::string{"<gfl></gfl>"}, std::string{"<fgl></fgl>"}, std::string{"<fgl><layout></layout></fgl>"}, std::string{"<fgl><layout><topology></topology></layout></fgl>"}, std::string{"<"}, std::string{"<fgl>"}});
        what = "'" + text + "'";
    }
    (void)number;
    vm::note(what + " of " + grow::describe(l));
    std::stringstream in{text};
    try
    {
        const auto q = read_fgl_layout<cart_gate_clk_lyt>(in);
        vm::violate("fgl:malformed-accepted", what + " accepted: " + grow::describe(l));
    }
    catch (const fgl_parsing_error&) { vm::count("malformed files refused"); }
    catch (const std::exception& e) { vm::violate("fgl:malformed-exception", what + ": another exception than fgl_parsing_error: " + e.what()); }
    // a layout of another topology
    if (r.chance(10))
    {
        std::stringstream in2{s.str()};
        bool refused = false;
        try { const auto q = read_fgl_layout<hex_even_row_gate_clk_lyt>(in2); } catch (const fgl_parsing_error&) { refused = true; }
        vm::require(refused, "fgl:topology", "a cartesian layout was read as hexagonal one");
    }
    vm::distinct(what + grow::describe(l));
}
// any file at all is either read or refused
VM_SUITE(mutated, 300, 3000)
{
    grow::options o;
    o.width = 4, o.height = 4;
    const auto l = grow::layout<cart_gate_clk_lyt>(r, o, "m");
    std::stringstream s;
    write_fgl_layout(l, s);
    auto text = s.str();
    for (auto k = r.range(1, 4); k > 0; --k)
    {
        const auto i = r.below(text.size());
        switch (r.below(4))
        {
            case 0: text[i] = static_cast<char>(r.below(256)); break;
            case 1: text.erase(i, r.below(40)); break;
            case 2: text.insert(i, text.substr(r.below(text.size()), r.below(60))); break;
            default: if (const auto e = text.find('>', i), f = e == std::string::npos ? e : text.find('<', e); f != std::string::npos) text.replace(e + 1, f - e - 1, r.one_of({std::string{""}, std::string{"-5"}, std::string{"x"}, std::string{"0"}, std::string{"3"}, std::string{"AND"}, std::string{"e8"}, std::string{"4294967296"}, std::string{"9223372036854775807"}})); break;
        }
    }
    vm::note(text);
    std::stringstream in{text};
    try { const auto q = read_fgl_layout<cart_gate_clk_lyt>(in); vm::count("mutated files read"); }
    catch (const fgl_parsing_error&) { vm::count("mutated files refused"); }
    catch (const std::exception& e) { vm::violate("fgl:exception", vm::cat(e.what(), " while reading ", text)); }
    vm::distinct(text);
}
// gates in any order of the file are connected by their ids; comments, further elements and whitespace do not matter
VM_SUITE(equivalent_files, 100, 1000)
{
    grow::options o;
    const auto l = grow::layout<cart_gate_clk_lyt>(r, o, "e");
    if (l.num_pos() == 0) return;
    std::stringstream s;
    write_fgl_layout(l, s);
    auto text = s.str();
    const auto a = text.find("<gates>") + 7, b = text.find("</gates>");
    std::vector<std::string> g;
    for (auto i = text.find("<gate>", a); i < b && i != std::string::npos; i = text.find("<gate>", i + 1)) g.push_back(text.substr(i, text.find("</gate>", i) + 7 - i));
    for (std::size_t i = g.size(); i > 1; --i) std::swap(g[i - 1], g[r.below(i)]);
    std::string inner;
    for (const auto& x : g) inner += (r.chance(20) ? "<!-- gate -->" : "") + x + (r.chance(50) ? "\n\n  " : "");
    text = text.substr(0, a) + inner + text.substr(b);
    vm::note(grow::describe(l));
    std::stringstream in{text};
    try
    {
        const auto q = read_fgl_layout<cart_gate_clk_lyt>(in);
        const auto d = first_difference(fingerprint(l), fingerprint(q));
        vm::require(d.empty(), "fgl:gate-order", [&] { return grow::describe(l) + ": read " + d; });
    }
    catch (const std::exception& e) { vm::violate("fgl:gate-order", grow::describe(l) + ": " + e.what()); }
    vm::distinct(grow::describe(l));
}
VM_SUITE(files, 10, 30)
{
    grow::options o;
    const auto l = grow::layout<cart_gate_clk_lyt>(r, o, "f");
    if (l.num_pos() == 0) return;
    char dir[] = "/tmp/vm_fgl_XXXXXX";
    if (!mkdtemp(dir)) return;
    const std::string f = std::string{dir} + "/a.fgl";
    write_fgl_layout(l, std::string_view{f});
    const auto q = read_fgl_layout<cart_gate_clk_lyt>(std::string_view{f});
    const auto d = first_difference(fingerprint(l), fingerprint(q));
    vm::require(d.empty(), "fgl:file", [&] { return grow::describe(l) + ": read " + d; });
    cart_gate_clk_lyt y{};
    read_fgl_layout(y, std::string_view{f});
    vm::require(first_difference(fingerprint(l), fingerprint(y)).empty(), "fgl:file", [&] { return grow::describe(l); });
    bool refused = false;
    try { const auto z = read_fgl_layout<cart_gate_clk_lyt>(std::string_view{std::string{dir} + "/none.fgl"}); } catch (const std::ios_base::failure&) { refused = true; }
    vm::require(refused, "fgl:missing-file", "a file that does not exist");
    refused = false;
    try { write_fgl_layout(l, std::string_view{std::string{dir} + "/none/a.fgl"}); } catch (const std::ios_base::failure&) { refused = true; }
    vm::require(refused, "fgl:unwritable-file", "a file in a folder that does not exist");
    std::filesystem::remove(f);
    std::filesystem::remove(dir);
    vm::distinct(grow::describe(l));
}
}  // namespace
VM_MAIN
