// Monitors what is printed and drawn of layouts: texts are parsed back and compared with the layout.
#include "grow.hpp"

#include <fiction/io/dot_drawers.hpp>
#include <fiction/io/print_layout.hpp>
#include <fiction/layouts/bounding_box.hpp>
#include <fiction/technology/charge_distribution_surface.hpp>
#include <fiction/technology/sidb_defect_surface.hpp>
#include <fiction/types.hpp>

#include <filesystem>
#include <fstream>
#include <map>
#include <set>
#include <sstream>

using namespace fiction;

namespace
{
// one character of the text together with the colours it is printed in
struct glyph { std::string ch, fg, bg; };
std::vector<std::vector<glyph>> parse(const std::string& s)
{
    std::vector<std::vector<glyph>> lines(1);
    std::string fg, bg;
    for (std::size_t i = 0; i < s.size();)
    {
        const auto c = static_cast<unsigned char>(s[i]);
        if (c == 0x1b)
        {
            const auto e = s.find('m', i);
            if (e == std::string::npos || s[i + 1] != '[') { vm::violate("text:escape", s.substr(i, 20)); break; }
            const auto code = s.substr(i + 2, e - i - 2);
            const auto rgb = [&] { int a = 0, b = 0, d = 0; return std::sscanf(code.c_str() + 5, "%d;%d;%d", &a, &b, &d) == 3 ? vm::cat(a, ";", b, ";", d) : std::string{"?"}; };
            if (code == "0") fg = bg = "";
            else if (code.starts_with("38;2;")) fg = rgb();
            else if (code.starts_with("48;2;")) bg = rgb();
            else vm::violate("text:escape", code);
            i = e + 1;
            continue;
        }
        if (c == '\n') { lines.emplace_back(); ++i; continue; }
        const std::size_t n = c < 0x80 ? 1 : c >= 0xf0 ? 4 : c >= 0xe0 ? 3 : 2;
        lines.back().push_back({s.substr(i, n), fg, bg});
        i += n;
    }
    vm::require(fg.empty() && bg.empty(), "text:colour-left-on", s.substr(0, 400));
    return lines;
}
std::string plain(const std::vector<std::vector<glyph>>& l)
{
    std::string s;
    for (const auto& x : l) { for (const auto& g : x) s += g.ch; s += '\n'; }
    return s;
}
// crossings only where every layer has the same clock zones
void some_scheme(vm::rng& r, grow::options& o, const bool hex)
{
    o.crossings = r.chance(60);
    if (!o.crossings) return;
    o.override_zones = false;
    o.only_scheme = hex ? r.one_of({"ROW3", "ROW4", "COLUMNAR4", "2DDWAVE3", "2DDWAVE4", "ESR", "2DDWAVEHEX4"}) : r.one_of({"ROW3", "COLUMNAR4", "2DDWAVE3", "2DDWAVE4", "USE", "RES", "ESR", "CFE", "BANCS", "SRS", "RIPPLE"});
}
bool decimal(const std::string& c) { int a = 0, b = 0, d = 0; return std::sscanf(c.c_str(), "%d;%d;%d", &a, &b, &d) == 3 && a >= 0 && a < 256 && b >= 0 && b < 256 && d >= 0 && d < 256; }
const std::string green = "0;128;0", red = "255;0;0";

struct node_info { std::vector<tile<cart_gate_clk_lyt>> fi; };
template <typename Lyt> std::string function_of(const Lyt& l, const tile<Lyt>& t) { return kitty::to_hex(l.node_function(l.get_node(t))) + "/" + std::to_string(l.node_function(l.get_node(t)).num_vars()); }
template <typename Lyt> std::vector<tile<Lyt>> occupied(const Lyt& l)
{
    std::vector<tile<Lyt>> v;
    for (uint64_t z = 0; z <= l.z(); ++z)
        for (uint64_t y = 0; y <= l.y(); ++y)
            for (uint64_t x = 0; x <= l.x(); ++x)
                if (const tile<Lyt> t{x, y, z}; !l.is_empty_tile(t)) v.push_back(t);
    return v;
}
template <typename Lyt> std::vector<tile<Lyt>> fanins_of(const Lyt& l, const tile<Lyt>& t)
{
    std::vector<tile<Lyt>> v;
    l.foreach_fanin(l.get_node(t), [&](const auto& f) { v.push_back(static_cast<tile<Lyt>>(f)); });
    return v;
}
template <typename Lyt> std::map<tile<Lyt>, int> successors(const Lyt& l)
{
    std::map<tile<Lyt>, int> m;
    for (const auto& t : occupied(l)) for (const auto& f : fanins_of(l, t)) ++m[f];
    return m;
}

// ---- gate-level layouts as text
void text_of_gates(vm::rng& r)
{
    using Lyt = cart_gate_clk_lyt;
    grow::options o{};
    o.width = 8; o.height = 7;
    some_scheme(r, o, false);
    const auto l = grow::layout<Lyt>(r, o);
    std::string what = vm::cat(l.x() + 1, "x", l.y() + 1, " ", l.get_clocking_scheme().name);
    const auto  occ = occupied(l);
    const bool  io = r.chance(50), clk = r.chance(40);
    std::ostringstream os, base;
    print_gate_level_layout(os, l, io, clk);
    print_gate_level_layout(base, l, false, false);
    const auto g = parse(os.str());
    vm::require(plain(g) == plain(parse(base.str())) && base.str().find('\x1b') == std::string::npos, "gates:text-with-colours", [&] { return what + "\n" + os.str(); });
    if (!io && !clk) { std::ostringstream d; print_layout(l, d); vm::require(plain(parse(d.str())) == base.str() + "\n", "gates:print_layout", what); }
    if (occ.empty()) { vm::require(base.str() == "[i] empty layout\n", "gates:empty", base.str()); vm::count("empty layouts"); return; }
    const auto succ = successors(l);
    const auto outs = [&](const tile<Lyt>& t) { const auto i = succ.find(t); return i == succ.end() ? 0 : i->second; };
    const auto W = static_cast<int64_t>(l.x()) + 1, H = static_cast<int64_t>(l.y()) + 1;
    // what should be where
    std::map<std::pair<int64_t, int64_t>, std::string> east, south;  // border east or south of a tile
    for (const auto& t : occ)
        for (const auto& f : fanins_of(l, t))
        {
            const int64_t dx = static_cast<int64_t>(t.x) - static_cast<int64_t>(f.x), dy = static_cast<int64_t>(t.y) - static_cast<int64_t>(f.y);
            if (dx == 1) east[{f.x, f.y}] = "→";
            if (dx == -1) east[{t.x, t.y}] = "←";
            if (dy == 1) south[{f.x, f.y}] = "↓";
            if (dy == -1) south[{t.x, t.y}] = "↑";
        }
    const auto ctx = [&](const int64_t x, const int64_t y) { return vm::cat(what, " at ", x, ",", y, "\n", base.str()); };
    vm::require(static_cast<int64_t>(g.size()) == 2 * H + 2 && g[2 * H].empty() && g[2 * H + 1].empty(), "gates:lines", [&] { return ctx(0, 0); });
    if (static_cast<int64_t>(g.size()) < 2 * H) return;
    std::map<int, std::string> zone_colour;
    for (int64_t y = 0; y < H; ++y)
    {
        const auto& dir = g[2 * y]; const auto& row = g[2 * y + 1];
        if (static_cast<int64_t>(dir.size()) != 2 * W || static_cast<int64_t>(row.size()) != 2 * W) { vm::violate("gates:columns", ctx(0, y)); return; }
        for (int64_t x = 0; x < W; ++x)
        {
            const auto up = south.find({x, y - 1});
            vm::require(dir[2 * x].ch == (up == south.end() ? " " : up->second) && dir[2 * x + 1].ch == " ", "gates:vertical-connection", [&] { return ctx(x, y); });
            const auto ea = east.find({x, y});
            vm::require(row[2 * x + 1].ch == (ea == east.end() ? " " : ea->second), "gates:horizontal-connection", [&] { return ctx(x, y); });
            const tile<Lyt> t{x, y, 0}, a{x, y, 1};
            std::string want;
            if (l.is_empty_tile(t)) want = "▢";
            else
            {
                const auto f = function_of(l, t);
                const bool wire = fanins_of(l, t).size() <= 1 && f == "2/1";
                if (f == "8/2") want = "&";
                else if (f == "e/2") want = "|";
                else if (f == "1/1") want = "¬";
                else if (f == "e8/3") want = "M";
                else if (f == "6/2") want = "X";
                else if (wire && outs(t) > 1) want = "F";
                else if (wire && !l.is_empty_tile(a)) want = "+";
                else if (l.is_pi_tile(t)) want = "I";
                else if (l.is_po_tile(t)) want = "O";
                else if (wire) want = "=";
                else want = "?";
            }
            const auto& c = row[2 * x];
            vm::require(c.ch == want, "gates:symbol", [&] { return ctx(x, y) + " shows " + c.ch + " instead of " + want; });
            if (io && !clk) vm::require(c.fg == (l.is_pi_tile(t) ? green : l.is_po_tile(t) ? red : ""), "gates:input-output-colour", [&] { return ctx(x, y) + c.fg; });
            if (!clk) { vm::require(c.bg.empty(), "gates:background", [&] { return ctx(x, y); }); continue; }
            const auto [i, fresh] = zone_colour.emplace(static_cast<int>(l.get_clock_number(t)), c.bg);
            vm::require(i->second == c.bg && decimal(c.bg), "gates:zone-colour", [&] { return ctx(x, y); });
            vm::count("tiles printed");
        }
    }
    std::set<std::string> distinct;
    for (const auto& [z, c] : zone_colour) distinct.insert(c);
    vm::require(distinct.size() == zone_colour.size(), "gates:zones-of-one-colour", what);
    vm::count("tiles printed", W * H);
    vm::distinct(base.str());
}
// ---- cells as text
template <typename Lyt> void text_of_cells(vm::rng& r)
{
    using T = technology<Lyt>;
    using ct = typename T::cell_type;
    std::vector<ct> types;
    if constexpr (std::is_same_v<T, qca_technology>) types = {ct::NORMAL, ct::INPUT, ct::OUTPUT, ct::CONST_0, ct::CONST_1};
    else if constexpr (std::is_same_v<T, inml_technology>) types = {ct::NORMAL, ct::INPUT, ct::OUTPUT, ct::SLANTED_EDGE_UP_MAGNET, ct::SLANTED_EDGE_DOWN_MAGNET, ct::INVERTER_MAGNET, ct::CROSSWIRE_MAGNET, ct::FANOUT_COUPLER_MAGNET};
    else types = {ct::NORMAL1, ct::NORMAL2, ct::NORMAL3, ct::NORMAL4, ct::INPUT, ct::OUTPUT, ct::CONST_0, ct::CONST_1};
    const auto W = r.range(1, 12), H = r.range(1, 10), Z = r.range(1, 2);
    Lyt l{{W - 1, H - 1, Z - 1}, twoddwave_clocking<Lyt>(), "t", static_cast<uint16_t>(r.range(1, 4)), static_cast<uint16_t>(r.range(1, 4))};
    std::map<std::array<int64_t, 3>, ct> m;
    for (auto n = r.range(0, W * H); n > 0; --n)
    {
        const std::array<int64_t, 3> k{r.range(0, W - 1), r.range(0, H - 1), r.chance(75) ? 0 : r.range(0, Z - 1)};
        m[k] = types[r.below(types.size())];
        l.assign_cell_type({k[0], k[1], k[2]}, m[k]);
    }
    const bool io = r.chance(50), clk = r.chance(40);
    std::ostringstream os;
    print_cell_level_layout(os, l, io, clk);
    const auto ctx = [&] { return vm::cat(W, "x", H, "x", Z, "\n", os.str()); };
    if (m.empty()) { vm::require(os.str() == "[i] empty layout\n", "cells:empty", os.str()); return; }
    const auto g = parse(os.str());
    vm::require(static_cast<int64_t>(g.size()) == H + 2, "cells:lines", ctx);
    if (static_cast<int64_t>(g.size()) < H) return;
    std::map<int, std::string> zone_colour;
    for (int64_t y = 0; y < H; ++y)
    {
        if (static_cast<int64_t>(g[y].size()) != W) { vm::violate("cells:columns", ctx()); return; }
        for (int64_t x = 0; x < W; ++x)
        {
            bool above = false;
            for (int64_t z = 1; z < Z; ++z) above |= m.contains({x, y, z});
            const auto i = m.find({x, y, 0});
            const auto t = i == m.end() ? ct::EMPTY : i->second;
            const auto& c = g[y][x];
            vm::require(c.ch == (above ? "x" : T::is_normal_cell(t) ? "▢" : std::string(1, static_cast<char>(t))), "cells:symbol", [&] { return vm::cat(x, ",", y, " ", above, " type ", static_cast<int>(t), " shows ", c.ch, " ", ctx()); });
            if (io && !clk && !above) vm::require(c.fg == (t == ct::INPUT ? green : t == ct::OUTPUT ? red : ""), "cells:input-output-colour", [&] { return vm::cat(x, ",", y, " ", ctx()); });
            if (!clk) { vm::require(c.bg.empty(), "cells:background", ctx); continue; }
            const auto [j, fresh] = zone_colour.emplace(static_cast<int>(l.get_clock_number({x, y, 0})), c.bg);
            vm::require(j->second == c.bg && decimal(c.bg), "cells:zone-colour", ctx);
        }
    }
    std::set<std::string> distinct;
    for (const auto& [z, c] : zone_colour) distinct.insert(c);
    vm::require(distinct.size() == zone_colour.size(), "cells:zones-of-one-colour", ctx);
    vm::count("cells printed", static_cast<long>(m.size()));
    vm::distinct(os.str());
}
// ---- dots, charges and defects as text
enum class content { CELLS, CHARGES, DEFECTS, BOTH };
template <typename Lyt, content K> void text_of_dots(vm::rng& r)
{
    using T = sidb_technology;
    Lyt l{};
    if constexpr (has_offset_ucoord_v<Lyt>) l.resize(aspect_ratio<Lyt>{40, 40});
    struct dot { T::cell_type t; sidb_charge_state q; sidb_defect d; };
    std::map<std::array<int64_t, 3>, dot> m;  // row, atom, column
    const auto at = [&](const int64_t n, const int64_t y, const int64_t z)
    {
        if constexpr (has_siqad_coord_v<Lyt>) return cell<Lyt>{n, y, z};
        else return cell<Lyt>{n, 2 * y + z};
    };
    const bool neg = !has_offset_ucoord_v<Lyt> && r.chance(50);
    const auto span = r.range(0, 9);
    const auto some = [&] { return std::array<int64_t, 3>{r.range(neg ? -span : 0, span), r.range(0, 1), r.range(neg ? -span : 0, span)}; };
    for (auto n = r.range(0, 8); n > 0; --n)
    {
        const auto k = some();
        const auto t = r.one_of({T::cell_type::NORMAL, T::cell_type::INPUT, T::cell_type::OUTPUT});
        m[k] = {t, sidb_charge_state::NONE, sidb_defect{sidb_defect_type::NONE}};
        l.assign_cell_type(at(k[2], k[0], k[1]), t);
    }
    if constexpr (K == content::DEFECTS || K == content::BOTH)
        for (auto n = r.range(0, 4); n > 0; --n)
        {
            const auto k = some();
            if (m.contains(k)) continue;
            const sidb_defect d{r.one_of({sidb_defect_type::SI_VACANCY, sidb_defect_type::ARSENIC, sidb_defect_type::DB, sidb_defect_type::UNKNOWN}), r.range(-2, 2), 5.0, 5.0};
            m[k] = {T::cell_type::EMPTY, sidb_charge_state::NONE, d};
            l.assign_sidb_defect(at(k[2], k[0], k[1]), d);
        }
    const bool colour = r.chance(50), crop = r.chance(50), lattice = r.chance(70);
    std::ostringstream os;
    if constexpr (K == content::CHARGES || K == content::BOTH)
    {
        charge_distribution_surface<Lyt> c{l};
        for (auto& [k, d] : m)
            if (d.t != T::cell_type::EMPTY) { d.q = r.one_of({sidb_charge_state::NEGATIVE, sidb_charge_state::NEUTRAL, sidb_charge_state::POSITIVE}); c.assign_charge_state(at(k[2], k[0], k[1]), d.q); }
        print_sidb_layout(os, c, colour, crop, lattice);
    }
    else print_sidb_layout(os, l, colour, crop, lattice);
    const auto ctx = [&] { std::string s; for (const auto& [k, d] : m) s += vm::cat(" (", k[2], ",", k[0], ",", k[1], ")"); return vm::cat(s, colour ? " colour" : "", crop ? " crop" : "", lattice ? " lattice" : "", "\n", os.str()); };
    if (m.empty()) { vm::require(os.str().starts_with("[i] empty layout"), "dots:empty", ctx); return; }
    // rows of the text that hold something are rows of the lattice, in order
    auto g = parse(os.str());
    std::vector<std::vector<glyph>> rows;
    std::vector<std::pair<int, std::string>> found;  // column of the text, symbol
    constexpr bool o111 = is_sidb_lattice_111_v<Lyt>;
    for (auto& x : g) if (!x.empty()) rows.push_back(x);
    int64_t minx = 1000, maxx = -1000, r0 = 1000, r1 = -1000;
    for (const auto& [k, d] : m) { minx = std::min(minx, k[2]); maxx = std::max(maxx, k[2]); r0 = std::min(r0, 2 * k[0] + k[1]); r1 = std::max(r1, 2 * k[0] + k[1]); }
    const auto cols = maxx - minx + 1 + (crop ? 4 : 0);
    if (!lattice) { vm::count("dots without lattice"); }
    std::vector<std::vector<glyph>> cells;  // one symbol per position; "" for nothing
    for (auto& x : rows)
    {
        std::vector<glyph> c;
        std::size_t i = 0;
        if (!lattice)
        {
            for (const auto& q : x) if (q.ch != " ") c.push_back(q);
        }
        else
        {
            if (x.size() % 3 == 1) { i = 1; vm::require(o111, "dots:indent", ctx); }
            for (; i + 2 < x.size(); i += 3)
            {
                vm::require(x[i].ch == " " && x[i + 2].ch == " ", "dots:columns", ctx);
                c.push_back(x[i + 1].ch == "·" ? glyph{"", "", ""} : x[i + 1]);
            }
            vm::require(static_cast<int64_t>(c.size()) == cols, "dots:width", [&] { return vm::cat(c.size(), " instead of ", cols, ctx()); });
        }
        cells.push_back(c);
    }
    const auto want_of = [&](const dot& d) -> glyph
    {
        const auto col = [&](const char* s) { return colour ? std::string{s} : std::string{}; };
        switch (d.q)
        {
            case sidb_charge_state::NEGATIVE: return {"●", col("0;255;255"), ""};
            case sidb_charge_state::POSITIVE: return {"●", col("255;0;0"), ""};
            case sidb_charge_state::NEUTRAL: return {"◯", col("255;255;255"), ""};
            default: break;
        }
        if (d.d.type != sidb_defect_type::NONE) return d.d.charge < 0 ? glyph{"⊟", col("0;0;255"), ""} : d.d.charge > 0 ? glyph{"⊞", col("255;0;0"), ""} : glyph{"⊡", col("255;255;0"), ""};
        return {"◯", col(d.t == T::cell_type::INPUT ? "0;128;0" : d.t == T::cell_type::OUTPUT ? "255;0;0" : "255;255;0"), ""};
    };
    if (!lattice)
    {
        // symbols in the order of the rows
        std::vector<std::string> a, b;
        for (const auto& x : cells) for (const auto& c : x) if (!c.ch.empty()) a.push_back(c.ch + c.fg);
        for (const auto& [k, d] : m) { const auto w = want_of(d); b.push_back(w.ch + w.fg); }
        vm::require(a == b, "dots:symbols", ctx);
    }
    else
    {
        // the first row of the text is the first of the bounding box
        const auto top = crop ? ((r0 >> 1) - 1) * 2 : static_cast<int64_t>(INT64_MAX);
        std::vector<int64_t> tops;
        if (crop) tops = {top}; else tops = {r0, r0 - 1};
        bool good = false;
        for (const auto t : tops)
        {
            bool ok = t + static_cast<int64_t>(cells.size()) > r1;
            std::size_t seen = 0, all = 0;
            for (const auto& x : cells) for (const auto& c : x) all += !c.ch.empty();
            for (const auto& [k, d] : m)
            {
                const auto y = 2 * k[0] + k[1] - t, x = k[2] - minx + (crop ? 2 : 0);
                if (y < 0 || y >= static_cast<int64_t>(cells.size()) || x >= static_cast<int64_t>(cells[y].size())) { ok = false; continue; }
                const auto& c = cells[y][x];
                const auto  w = want_of(d);
                ok &= c.ch == w.ch && c.fg == w.fg;
                ++seen;
            }
            ok &= seen == all && all == m.size();
            good |= ok;
        }
        vm::require(good, "dots:picture", ctx);
        if (crop) vm::require(static_cast<int64_t>(cells.size()) == ((r1 >> 1) - (r0 >> 1) + 3) * 2, "dots:height", ctx);
        // dimers are set apart
        std::size_t gaps = 0;
        for (std::size_t i = 0; i + 1 < g.size(); ++i) if (g[i].empty() && i > 0 && !g[i - 1].empty() && !g[i + 1].empty()) ++gaps;
        if (!o111 && crop) vm::require(gaps + 1 == cells.size() / 2, "dots:gaps", ctx);
    }
    vm::count("dots and defects printed", static_cast<long>(m.size()));
    vm::distinct(os.str());
}
// ---- drawings of gate-level layouts
struct scratch
{
    std::filesystem::path p;
    scratch() { char n[] = "/tmp/vm_pic_XXXXXX"; p = ::mkdtemp(n); }
    ~scratch() { std::error_code e; std::filesystem::remove_all(p, e); }
};
template <typename Lyt, typename Drawer, bool Clock, bool Index> void drawing(vm::rng& r)
{
    grow::options o{};
    o.width = 6; o.height = 6;
    some_scheme(r, o, is_hexagonal_layout_v<Lyt>);
    const auto l = grow::layout<Lyt>(r, o);
    const Drawer dr{};
    std::ostringstream os;
    write_dot_layout<Lyt, Drawer>(l, os, dr);
    const auto what = [&] { return vm::cat(l.x() + 1, "x", l.y() + 1, " ", l.get_clocking_scheme().name, "\n", os.str().substr(0, 3000)); };
    if (r.chance(15))
    {
        const scratch d;
        const auto f = (d.p / "l.dot").string();
        write_dot_layout<Lyt, Drawer>(l, std::string_view{f}, dr);
        std::ifstream is{f};
        std::stringstream ss;
        ss << is.rdbuf();
        vm::require(ss.str() == os.str(), "drawing:file", what);
        bool refused = false;
        const auto bad = (d.p / "no" / "l.dot").string();
        try { write_dot_layout<Lyt, Drawer>(l, std::string_view{bad}, dr); } catch (const std::ofstream::failure&) { refused = true; }
        vm::require(refused, "drawing:unopened-file", what);
    }
    std::istringstream is{os.str()};
    std::string line;
    int section = 0;  // 0 head, 1 nodes, 2 edges, 3 topology
    std::map<std::string, std::pair<std::string, std::string>> nodes;
    std::multiset<std::pair<std::string, std::string>> edges;
    std::map<std::pair<std::string, std::string>, int> topo;
    std::multiset<std::vector<std::string>> ranks;
    const auto split = [](const std::string& s) { std::vector<std::string> v; std::size_t i = 0; for (;;) { const auto e = s.find(" -> ", i); v.push_back(s.substr(i, e == std::string::npos ? e : e - i)); if (e == std::string::npos) return v; i = e + 4; } };
    bool closed = false;
    std::getline(is, line);
    vm::require(line.starts_with("digraph layout {"), "drawing:head", what);
    while (std::getline(is, line))
    {
        if (line.empty()) continue;
        if (line == "}") { closed = true; continue; }
        if (line.starts_with("node [") && section == 0) { section = 1; continue; }
        if (line == "edge [constraint=false];") { section = 2; continue; }
        if (line == "edge [constraint=true, style=invis];") { section = 3; continue; }
        if (section == 1)
        {
            const auto a = line.find(" [label=\""), b = line.find("\", fillcolor=");
            if (a == std::string::npos || b == std::string::npos || !line.ends_with("];")) { vm::violate("drawing:tile-line", line); continue; }
            vm::require(nodes.emplace(line.substr(0, a), std::pair{line.substr(a + 9, b - a - 9), line.substr(b + 13, line.size() - b - 15)}).second, "drawing:tile-twice", [&] { return line + what(); });
        }
        else if (section == 2)
        {
            const auto a = line.find(" -> "), b = line.find(" [style=solid];");
            if (a == std::string::npos || b == std::string::npos) { vm::violate("drawing:connection-line", line); continue; }
            edges.insert({line.substr(0, a), line.substr(a + 4, b - a - 4)});
        }
        else if (section == 3 && !line.starts_with("node ["))
        {
            if (line.starts_with("rank = same { ") && line.ends_with(" };")) ranks.insert(split(line.substr(14, line.size() - 17)));
            else if (line.ends_with(";")) { const auto v = split(line.substr(0, line.size() - 1)); for (std::size_t i = 0; i + 1 < v.size(); ++i) ++topo[{v[i], v[i + 1]}]; }
            else vm::violate("drawing:topology-line", line);
        }
    }
    vm::require(closed, "drawing:end", what);
    const auto id = [](const auto& t) { return vm::cat("x", t.x, "y", t.y); };
    vm::require(nodes.size() == (l.x() + 1) * (l.y() + 1), "drawing:tiles", what);
    const auto succ = successors(l);
    std::map<std::string, std::string> label_of, colour_of, kind_of_label, zone_colour;
    for (uint64_t x = 0; x <= l.x(); ++x)
        for (uint64_t y = 0; y <= l.y(); ++y)
        {
            const tile<Lyt> t{x, y, 0};
            const auto i = nodes.find(id(t));
            if (i == nodes.end()) { vm::violate("drawing:tile-missing", vm::cat(id(t), " ", what())); continue; }
            auto label = i->second.first, colour = i->second.second;
            const auto where = [&] { return vm::cat(id(t), " is ", label, " in ", colour, " ", what()); };
            if (Clock)
            {
                const auto z = vm::cat(static_cast<int>(l.get_clock_number(t)));
                vm::require(zone_colour.emplace(z, colour).first->second == colour, "drawing:zone-colour", where);
            }
            else if (l.is_empty_tile(t)) vm::require(colour == "white", "drawing:empty-colour", where);
            else if (l.is_pi_tile(t) || l.is_po_tile(t)) vm::require(colour == "snow2", "drawing:input-output-colour", where);
            if (l.is_empty_tile(t)) { vm::require(label.empty(), "drawing:empty-label", where); continue; }
            if (l.is_pi_tile(t) || l.is_po_tile(t))
            {
                if (const auto n = l.get_node(t); l.has_name(n)) { vm::require(label == l.get_name(n), "drawing:name", where); continue; }
                continue;
            }
            const bool wire = function_of(l, t) == "2/1";
            const bool crossed = wire && !l.is_empty_tile({x, y, 1});
            if (Index && !crossed) { const auto pre = vm::cat(l.node_to_index(l.get_node(t)), ": "); vm::require(label.starts_with(pre), "drawing:index", where); if (label.size() > pre.size()) label = label.substr(pre.size()); }
            const auto so = succ.find(t);
            const auto kind = crossed ? "crossing" : wire && so != succ.end() && so->second > 1 ? "fanout" : function_of(l, t);
            vm::require(label_of.emplace(kind, label).first->second == label && !label.empty(), "drawing:label", where);
            const auto k4 = l.node_function(l.get_node(t)).num_vars();
            if (k4 <= 4) { const auto q = kind_of_label.emplace(label, kind); vm::require(q.first->second == kind, "drawing:ambiguous-label", [&] { return vm::cat(q.first->second, " and ", kind, " ", where()); }); }
            static const std::map<std::string, std::string> names{{"crossing", "+"}, {"fanout", "F"}, {"2/1", "BUF"}, {"1/1", "INV"}};
            if (const auto n = names.find(kind); n != names.end()) vm::require(label == n->second, "drawing:symbol", where);
            if (!Clock && kind != "crossing") { vm::require(colour_of.emplace(kind, colour).first->second == colour, "drawing:gate-colour", where); }
        }
    std::set<std::string> zc;
    for (const auto& [z, c] : zone_colour) zc.insert(c);
    vm::require(zc.size() == zone_colour.size(), "drawing:zones-of-one-colour", what);
    std::multiset<std::pair<std::string, std::string>> want;
    for (const auto& t : occupied(l)) for (const auto& f : fanins_of(l, t)) want.insert({id(f), id(t)});
    vm::require(want == edges, "drawing:connections", [&] { return vm::cat(edges.size(), " instead of ", want.size(), " ", what()); });
    // invisible edges keep neighbours together; each pair once
    std::multiset<std::vector<std::string>> want_ranks;
    std::map<std::pair<std::string, std::string>, int> want_topo;
    const auto line_of = [&](const bool row, const uint64_t k) { std::vector<std::string> v; for (uint64_t i = 0; i <= (row ? l.x() : l.y()); ++i) v.push_back(row ? vm::cat("x", i, "y", k) : vm::cat("x", k, "y", i)); return v; };
    bool rows = true;
    if constexpr (is_hexagonal_layout_v<Lyt>) rows = has_pointy_top_hex_orientation_v<Lyt>;
    else if constexpr (is_shifted_cartesian_layout_v<Lyt>) rows = has_horizontally_shifted_cartesian_orientation_v<Lyt>;
    for (uint64_t k = 0; k <= (rows ? l.y() : l.x()); ++k) want_ranks.insert(line_of(rows, k));
    std::set<std::string> invis;
    if constexpr (is_hexagonal_layout_v<Lyt> || is_shifted_cartesian_layout_v<Lyt>)
    {
        for (uint64_t x = 0; x <= l.x(); ++x)
            for (uint64_t y = 0; y <= l.y(); ++y)
                l.foreach_adjacent_tile(tile<Lyt>{x, y, 0}, [&](const auto& b) { const tile<Lyt> a{x, y, 0}; if (rows ? a.y == b.y : a.x == b.x) return; if (a < b) want_topo[{id(a), id(b)}] = 1; });
        // every second row or column begins with an invisible node
        std::set<uint64_t> shifted;
        for (auto it = ranks.begin(); it != ranks.end();)
        {
            if (it->size() == 2 && (*it)[0].starts_with("invis"))
            {
                const auto k = std::stoull((*it)[0].substr(5));
                shifted.insert(k);
                vm::require((*it)[1] == (rows ? vm::cat("x0y", k) : vm::cat("x", k, "y0")), "drawing:shift", what);
                it = ranks.erase(it);
            }
            else ++it;
        }
        constexpr bool odd = [] { if constexpr (is_hexagonal_layout_v<Lyt>) return has_odd_row_hex_arrangement_v<Lyt> || has_odd_column_hex_arrangement_v<Lyt>; else return has_odd_row_cartesian_arrangement_v<Lyt> || has_odd_column_cartesian_arrangement_v<Lyt>; }();
        std::set<uint64_t> want_shift;
        const auto last = rows ? l.y() : l.x();
        for (uint64_t k = odd ? 1 : 0; k <= last; k += 2) want_shift.insert(k);
        vm::require(shifted == want_shift, "drawing:shifted-lines", what);
        for (const auto k : want_shift)
        {
            const auto n = vm::cat("invis", k);
            if (k > 0) want_topo[{n, rows ? vm::cat("x0y", k - 1) : vm::cat("x", k - 1, "y0")}] = 1;
            if (k < last) want_topo[{n, rows ? vm::cat("x0y", k + 1) : vm::cat("x", k + 1, "y0")}] = 1;
        }
    }
    else
        for (uint64_t k = 0; k <= l.x(); ++k) { const auto v = line_of(false, k); for (std::size_t i = 0; i + 1 < v.size(); ++i) want_topo[{v[i], v[i + 1]}] = 1; }
    vm::require(ranks == want_ranks, "drawing:rows", what);
    vm::require(topo == want_topo, "drawing:neighbours", [&] { std::string s; for (const auto& [e, n] : topo) if (!want_topo.contains(e)) s += " extra " + e.first + "->" + e.second; for (const auto& [e, n] : want_topo) if (!topo.contains(e)) s += " missing " + e.first + "->" + e.second; else if (topo[e] != 1) s += " twice " + e.first + "->" + e.second; return s + what(); });
    vm::count("tiles drawn", static_cast<long>(nodes.size()));
    vm::count("connections drawn", static_cast<long>(edges.size()));
    vm::distinct(os.str());
}
template <typename Lyt, template <typename, bool, bool> typename D> void drawings(vm::rng& r)
{
    switch (r.below(3))
    {
        case 0: drawing<Lyt, D<Lyt, false, false>, false, false>(r); break;
        case 1: drawing<Lyt, D<Lyt, true, false>, true, false>(r); break;
        default: drawing<Lyt, D<Lyt, false, true>, false, true>(r);
    }
}
template <typename B> using gl = gate_level_layout<clocked_layout<tile_based_layout<B>>>;
using co = offset::ucoord_t;
}  // namespace

VM_SUITE(gates_as_text, 500, 3000) { text_of_gates(r); }
VM_SUITE(cells_as_text, 300, 2000)
{
    switch (r.below(3))
    {
        case 0: text_of_cells<qca_cell_clk_lyt>(r); break;
        case 1: text_of_cells<mol_qca_cell_clk_lyt>(r); break;
        default: text_of_cells<inml_cell_clk_lyt>(r);
    }
}
VM_SUITE(dots_as_text, 600, 3000)
{
    switch (r.below(9))
    {
        case 0: text_of_dots<sidb_100_cell_clk_lyt_siqad, content::CELLS>(r); break;
        case 1: text_of_dots<sidb_111_cell_clk_lyt_siqad, content::CELLS>(r); break;
        case 2: text_of_dots<sidb_cell_clk_lyt_siqad, content::CELLS>(r); break;
        case 3: text_of_dots<sidb_100_cell_clk_lyt, content::CELLS>(r); break;
        case 4: text_of_dots<sidb_100_cell_clk_lyt_siqad, content::CHARGES>(r); break;
        case 5: text_of_dots<sidb_111_cell_clk_lyt_siqad, content::CHARGES>(r); break;
        case 6: text_of_dots<sidb_defect_surface<sidb_100_cell_clk_lyt_siqad>, content::DEFECTS>(r); break;
        case 7: text_of_dots<sidb_defect_surface<sidb_100_cell_clk_lyt_siqad>, content::BOTH>(r); break;
        default: text_of_dots<sidb_100_cell_clk_lyt_cube, content::CELLS>(r);
    }
}
VM_SUITE(drawings_cartesian, 250, 1500) { drawings<gl<cartesian_layout<co>>, gate_layout_cartesian_drawer>(r); }
VM_SUITE(drawings_shifted, 250, 1500)
{
    switch (r.below(4))
    {
        case 0: drawings<gl<shifted_cartesian_layout<co, odd_row_cartesian>>, gate_layout_shifted_cartesian_drawer>(r); break;
        case 1: drawings<gl<shifted_cartesian_layout<co, even_row_cartesian>>, gate_layout_shifted_cartesian_drawer>(r); break;
        case 2: drawings<gl<shifted_cartesian_layout<co, odd_column_cartesian>>, gate_layout_shifted_cartesian_drawer>(r); break;
        default: drawings<gl<shifted_cartesian_layout<co, even_column_cartesian>>, gate_layout_shifted_cartesian_drawer>(r);
    }
}
VM_SUITE(drawings_hexagonal, 250, 1500)
{
    switch (r.below(4))
    {
        case 0: drawings<gl<hexagonal_layout<co, odd_row_hex>>, gate_layout_hexagonal_drawer>(r); break;
        case 1: drawings<gl<hexagonal_layout<co, even_row_hex>>, gate_layout_hexagonal_drawer>(r); break;
        case 2: drawings<gl<hexagonal_layout<co, odd_column_hex>>, gate_layout_hexagonal_drawer>(r); break;
        default: drawings<gl<hexagonal_layout<co, even_column_hex>>, gate_layout_hexagonal_drawer>(r);
    }
}
VM_MAIN
