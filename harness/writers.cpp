// Monitors the files that other tools read: every cell of a layout appears exactly once, where it is and as what it is.
#include "vm.hpp"

#include <fiction/io/write_qca_layout.hpp>
#include <fiction/io/write_qcc_layout.hpp>
#include <fiction/io/write_qll_layout.hpp>
#include <fiction/io/write_sqd_layout.hpp>
#include <fiction/io/write_svg_layout.hpp>
#include <fiction/layouts/synchronization_element_layout.hpp>
#include <fiction/technology/charge_distribution_surface.hpp>
#include <fiction/types.hpp>

#include <tinyxml2.h>

#include <filesystem>
#include <regex>
#include <unistd.h>

using namespace fiction;

namespace
{
using vm::cat;
using P = std::array<int, 3>;
std::string label(vm::rng& r, const bool xml)
{
    static const char* const plain = "abcxyz_019[] .:-=$()";
    static const char* const full  = "abcxyz_019[] <>&\"';:.-=$";
    const auto*              t     = xml ? full : plain;
    std::string s;
    for (auto n = r.range(1, 8); n > 0; --n) s += t[r.below(std::strlen(t))];
    return s;
}
template <typename T>
struct info { typename T::cell_type t; int clk; int mode; std::string name; int latch; };
template <typename Lyt>
using cells_of = std::map<P, info<technology<Lyt>>>;
// a random clocked layout of QCA or molQCA cells
template <typename Lyt>
cells_of<Lyt> grow(vm::rng& r, Lyt& l, const bool stacked_cells, const bool xml, std::string& what)
{
    using T = technology<Lyt>;
    using C = typename T::cell_type;
    cells_of<Lyt> cs;
    const auto w = static_cast<uint64_t>(l.x()) + 1, h = static_cast<uint64_t>(l.y()) + 1, d = static_cast<uint64_t>(l.z()) + 1;
    for (auto k = r.range(0, static_cast<int64_t>(std::min<uint64_t>(w * h * d, 60))); k > 0; --k)
    {
        const P p{static_cast<int>(r.below(w)), static_cast<int>(r.below(h)), static_cast<int>(r.below(d))};
        if (cs.contains(p)) continue;
        if (!stacked_cells && d > 1 && cs.contains({p[0], p[1], 1 - p[2]})) continue;
        info<T> c{};
        const cell<Lyt> x{p[0], p[1], p[2]};
        if constexpr (std::is_same_v<T, mol_qca_technology>) c.t = r.chance(70) ? r.one_of({C::NORMAL1, C::NORMAL2, C::NORMAL3, C::NORMAL4}) : r.one_of({C::CONST_0, C::CONST_1, C::INPUT, C::OUTPUT});
        else c.t = r.chance(60) ? C::NORMAL : r.one_of({C::CONST_0, C::CONST_1, C::INPUT, C::OUTPUT});
        l.assign_cell_type(x, c.t);
        if (r.chance(T::is_input_cell(c.t) || T::is_output_cell(c.t) ? 80 : 8)) { c.name = label(r, xml); l.assign_cell_name(x, c.name); }
        if (l.get_clocking_scheme().name == clock_name::OPEN || r.chance(10)) 
        {
            const auto n = static_cast<typename Lyt::clock_number_t>(r.below(l.num_clocks()));
            for (auto z = 0; z <= static_cast<int>(l.z()); ++z) l.assign_clock_number({x.x / l.get_tile_size_x(), x.y / l.get_tile_size_y(), z}, n);  // of the cell's tile
        }
        if (r.chance(25)) { c.mode = static_cast<int>(r.below(4)); l.assign_cell_mode(x, static_cast<typename T::cell_mode>(c.mode)); }
        cs[p] = c;
    }
    for (auto& [p, c] : cs)
    {
        c.clk = static_cast<int>(l.get_clock_number(cell<Lyt>{p[0], p[1], p[2]}));
        what += cat(" (", p[0], ",", p[1], ",", p[2], ")", static_cast<char>(c.t), "@", c.clk, c.mode ? cat("m", c.mode) : "", c.name.empty() ? "" : "[" + c.name + "]");
    }
    return cs;
}
template <typename Lyt>
Lyt some_layout(vm::rng& r, const std::string& name, const bool xml_size = false)
{
    const auto w = static_cast<int>(r.range(1, xml_size ? 8 : 15)), h = static_cast<int>(r.range(1, xml_size ? 8 : 15)), d = static_cast<int>(r.range(1, 2));
    const auto phases = r.chance(25) ? num_clks::THREE : num_clks::FOUR;
    return Lyt{{w - 1, h - 1, d - 1}, r.chance(50) ? open_clocking<Lyt>(phases) : r.chance(50) ? twoddwave_clocking<Lyt>(phases) : columnar_clocking<Lyt>(phases), name};
}
// ---- QCADesigner: nested sections of key=value lines
struct section
{
    std::string                                      type;
    std::vector<std::pair<std::string, std::string>> kv;
    std::vector<section>                             sub;
    [[nodiscard]] const std::string& at(const std::string& k) const
    {
        const std::string* v = nullptr;
        for (const auto& [a, b] : kv) if (a == k) { if (v) throw std::runtime_error(k + " given twice in " + type); v = &b; }
        if (!v) throw std::runtime_error("no " + k + " in " + type);
        return *v;
    }
    [[nodiscard]] bool has(const std::string& k) const { return std::ranges::any_of(kv, [&](const auto& x) { return x.first == k; }); }
    [[nodiscard]] std::vector<const section*> all(const std::string& t) const { std::vector<const section*> v; for (const auto& s : sub) if (s.type == t) v.push_back(&s); return v; }
    [[nodiscard]] const section& one(const std::string& t) const { const auto v = all(t); if (v.size() != 1) throw std::runtime_error(cat(v.size(), " ", t, " in ", type)); return *v[0]; }
};
section parse(std::istream& is)
{
    std::vector<section> st(1);
    st[0].type = "file";
    std::string line;
    while (std::getline(is, line))
    {
        if (line.size() > 3 && line[0] == '[' && line[1] == '#')
        {
            const auto t = line.substr(2, line.size() - 3);
            if (st.size() < 2 || st.back().type != t) throw std::runtime_error("closing " + t);
            auto s = std::move(st.back());
            st.pop_back();
            st.back().sub.push_back(std::move(s));
        }
        else if (line.size() > 2 && line[0] == '[' && line.back() == ']') st.emplace_back().type = line.substr(1, line.size() - 2);
        else if (const auto e = line.find('='); e != std::string::npos) st.back().kv.emplace_back(line.substr(0, e), line.substr(e + 1));
        else throw std::runtime_error("stray line " + line);
    }
    if (st.size() != 1) throw std::runtime_error(st.back().type + " not closed");
    return std::move(st[0]);
}
bool num(const std::string& s, const double v) { char* e = nullptr; const auto x = std::strtod(s.c_str(), &e); return e && !*e && !s.empty() && std::abs(x - v) < 1e-6 * std::max(1.0, std::abs(v)); }
template <typename Lyt>
void qcad(vm::rng& r, const char* kind)
{
    const auto  name = r.chance(30) ? std::string{} : label(r, false);
    auto        l    = some_layout<Lyt>(r, name);
    std::string what = cat(kind, " ", static_cast<int>(l.x()) + 1, "x", static_cast<int>(l.y()) + 1, "x", static_cast<int>(l.z()) + 1, ":");
    const auto  cs   = grow(r, l, true, false, what);
    vm::note(what);
    std::stringstream       s;
    write_qca_layout_params ps{};
    ps.create_inter_layer_via_cells = r.chance(50);
    write_qca_layout(l, s, ps);
    using T = qca_technology;
    try
    {
        const auto f = parse(s);
        (void)f.one("VERSION");
        const auto& lay = f.one("LAYOUT");
        vm::require(lay.has("name") == !name.empty() && (name.empty() || lay.at("name") == name), "qcad:name", what);
        const auto& d = f.one("TYPE:DESIGN");
        // the layers: drawing layer, substrate, then ground, vias and crossing layers alternating
        std::vector<std::pair<P, const section*>> found, vias;
        int  ground = -1, via = 0;
        bool order = true;
        for (const auto* y : d.all("TYPE:QCADLayer"))
        {
            const auto& n = y->at("pszDescription");
            const auto  c = y->all("TYPE:QCADCell");
            auto*       to = &found;
            if (n == "Drawing Layer" || n == "Substrate") { vm::require(c.empty(), "qcad:layer", n); continue; }
            if (n == cat("Via Layer ", via + 1)) { ++via; to = &vias; }
            else if (n == (ground < 0 ? std::string{"Ground Layer"} : cat("Crossing Layer ", ground + 1))) ++ground;
            else order = false;
            vm::require(y->at("type") == "1" && y->at("status") == "0", "qcad:layer-kind", what);
            for (const auto* q : c) to->push_back({{0, 0, ground}, q});
        }
        vm::require(order && ground == static_cast<int>(l.z()), "qcad:layers", [&] { return cat(what, ": last layer ", ground); });
        const auto judge = [&](std::vector<std::pair<P, const section*>>& v, const bool vias_only)
        {
            std::set<P> seen;
            for (auto& [p, q] : v)
            {
                const auto& o = q->one("TYPE:QCADDesignObject");
                const auto  x = std::strtod(o.at("x").c_str(), nullptr), y = std::strtod(o.at("y").c_str(), nullptr);
                p[0] = static_cast<int>(std::lround((x - 100) / 20)), p[1] = static_cast<int>(std::lround((y - 100) / 20));
                vm::require(num(o.at("x"), 20 * p[0] + 100) && num(o.at("y"), 20 * p[1] + 100), "qcad:grid", what);
                const auto it = cs.find(p);
                vm::require(it != cs.end() && seen.insert(p).second, "qcad:cell", [&] { return cat(what, ": cell at (", p[0], ",", p[1], ",", p[2], ")"); });
                if (it == cs.end()) continue;
                const auto& c  = it->second;
                const auto  at = cat("(", p[0], ",", p[1], ",", p[2], ")");
                vm::require(num(o.at("bounding_box.xWorld"), x - 9) && num(o.at("bounding_box.yWorld"), y - 9) && num(o.at("bounding_box.cxWorld"), 18) && num(o.at("bounding_box.cyWorld"), 18), "qcad:box", [&] { return what + at; });
                vm::require(q->at("cell_options.clock") == std::to_string(c.clk), "qcad:clock", [&] { return cat(what, " ", at, ": ", q->at("cell_options.clock")); });
                const std::string mode = c.mode == static_cast<int>(T::cell_mode::VERTICAL) ? "VERTICAL" : p[2] > 0 ? "CROSSOVER" : c.mode == static_cast<int>(T::cell_mode::ROTATED) ? "ROTATED" : "NORMAL";
                vm::require(q->at("cell_options.mode") == "QCAD_CELL_MODE_" + mode, "qcad:mode", [&] { return cat(what, " ", at, ": ", q->at("cell_options.mode")); });
                const std::string fn = T::is_input_cell(c.t) ? "INPUT" : T::is_output_cell(c.t) ? "OUTPUT" : T::is_constant_cell(c.t) ? "FIXED" : "NORMAL";
                vm::require(q->at("cell_function") == "QCAD_CELL_" + fn, "qcad:function", [&] { return cat(what, " ", at, ": ", q->at("cell_function")); });
                // four dots in the corners; only constants are polarized
                const auto dots = q->all("TYPE:CELL_DOT");
                std::set<std::pair<int, int>> corners;
                for (const auto* t : dots)
                {
                    const auto dx = std::strtod(t->at("x").c_str(), nullptr) - x, dy = std::strtod(t->at("y").c_str(), nullptr) - y;
                    corners.insert({dx < 0 ? -1 : 1, dy < 0 ? -1 : 1});
                    vm::require(std::abs(std::abs(dx) - 4.5) < 1e-3 && std::abs(std::abs(dy) - 4.5) < 1e-3, "qcad:dot", [&] { return what + at; });
                    const auto diagonal = (dx < 0) == (dy < 0);
                    const auto charge   = !T::is_constant_cell(c.t) ? "8.010882e-20" : diagonal == T::is_const_0_cell(c.t) ? "1.602176e-19" : "0.000000e+00";
                    vm::require(t->at("charge") == charge, "qcad:charge", [&] { return cat(what, " ", at, ": ", t->at("charge"), " at (", dx, ",", dy, ")"); });
                }
                vm::require(dots.size() == 4 && corners.size() == 4 && q->at("number_of_dots") == "4", "qcad:dots", [&] { return what + at; });
                const auto        labels = q->all("TYPE:QCADLabel");
                const std::string lab    = T::is_const_0_cell(c.t) ? "-1.00" : T::is_const_1_cell(c.t) ? "1.00" : c.name;
                vm::require(labels.size() == (lab.empty() ? 0u : 1u) && (lab.empty() || labels[0]->at("psz") == lab), "qcad:label", [&] { return cat(what, " ", at, ": ", labels.size(), " labels", labels.empty() ? "" : labels[0]->at("psz")); });
                if (!labels.empty())
                {
                    const auto& lo = labels[0]->one("TYPE:QCADStretchyObject").one("TYPE:QCADDesignObject");
                    vm::require(num(lo.at("x"), x) && num(lo.at("y"), y - 21.5) && num(lo.at("bounding_box.cxWorld"), 10.0 * static_cast<double>(lab.size()) + 4), "qcad:label-place", [&] { return what + at; });
                }
                vm::count(vias_only ? "via cells" : "cells");
            }
            std::size_t n = 0;
            for (const auto& [p, c] : cs) n += !vias_only || (ps.create_inter_layer_via_cells && c.mode == static_cast<int>(T::cell_mode::VERTICAL) && p[2] < static_cast<int>(l.z()));
            vm::require(seen.size() == n, vias_only ? "qcad:vias" : "qcad:number-of-cells", [&] { return cat(what, ": ", seen.size(), " instead of ", n); });
            if (vias_only) for (const auto& p : seen) vm::require(cs.at(p).mode == static_cast<int>(T::cell_mode::VERTICAL), "qcad:via", what);
        };
        judge(found, false);
        judge(vias, true);
    }
    catch (const std::exception& e) { vm::violate("qcad:structure", what + ": " + e.what()); }
    vm::distinct(what);
}
// ---- XML
using E = tinyxml2::XMLElement;
std::vector<const E*> children(const E* e, const char* n = nullptr) { std::vector<const E*> v; if (e) for (const auto* c = e->FirstChildElement(n); c; c = c->NextSiblingElement(n)) v.push_back(c); return v; }
const E* child(const E* e, const char* n) { const auto v = children(e, n); if (v.size() != 1) throw std::runtime_error(cat(v.size(), " times ", n)); return v[0]; }
std::string attr(const E* e, const char* n) { const auto* a = e->Attribute(n); if (!a) throw std::runtime_error(cat("no attribute ", n)); return a; }
int         inum(const E* e, const char* n) { const auto s = attr(e, n); std::size_t k = 0; const auto v = std::stoi(s, &k); if (k != s.size()) throw std::runtime_error(cat(n, "=", s)); return v; }
std::string property(const E* item, const char* n) { std::string v; int k = 0; for (const auto* p : children(item, "property")) if (attr(p, "name") == n) v = attr(p, "value"), ++k; if (k > 1) throw std::runtime_error(cat(k, " properties ", n)); return k ? v : "-"; }
// a random iNML layout of complete components; returns component -> position
struct part { int comp, clk; };
struct inml_case { std::map<std::pair<int, int>, part> parts; std::map<std::pair<int, int>, std::string> in, out; int cells = 0, inverters = 0; std::string what; };
const std::vector<std::vector<std::pair<int, int>>> footprints{{{0, 0}}, {{0, 0}, {0, 1}, {0, 2}, {1, 0}, {1, 2}}, {{0, 0}, {2, 0}, {0, 2}, {1, 1}, {2, 2}}, {{0, 0}, {0, 1}, {0, 2}}, {{0, 0}, {1, 0}, {2, 0}, {3, 0}}, {{0, 0}, {0, 1}, {0, 2}}};
template <typename Lyt>
inml_case inml(vm::rng& r, Lyt& l, const int x0, const int y0, const int w, const int h, const bool xml)
{
    using C = inml_technology::cell_type;
    static const C comp[] = {C::NORMAL, C::FANOUT_COUPLER_MAGNET, C::CROSSWIRE_MAGNET, C::SLANTED_EDGE_DOWN_MAGNET, C::INVERTER_MAGNET, C::SLANTED_EDGE_UP_MAGNET};
    inml_case k;
    std::set<std::pair<int, int>> used;
    const auto put = [&](const int c, const int x, const int y, const C t)
    {
        for (const auto& [dx, dy] : footprints[static_cast<std::size_t>(c)]) if (x + dx >= x0 + w || y + dy >= y0 + h || used.contains({x + dx, y + dy})) return false;
        for (const auto& [dx, dy] : footprints[static_cast<std::size_t>(c)]) { used.insert({x + dx, y + dy}); l.assign_cell_type({x + dx, y + dy}, t); ++k.cells; k.inverters += c == 4; }
        k.parts[{x, y}].comp = c;
        return true;
    };
    const auto pin = [&](const int x, const int y, const C t, auto& io)
    {
        if (used.contains({x, y})) return;
        put(0, x, y, t);
        const auto n = r.chance(85) ? label(r, xml) : std::string{};
        if (!n.empty()) l.assign_cell_name({x, y}, n);
        io[{x, y}] = n;
    };
    pin(x0, y0 + static_cast<int>(r.below(static_cast<uint64_t>(h))), C::INPUT, k.in);
    pin(x0 + w - 1, y0 + static_cast<int>(r.below(static_cast<uint64_t>(h))), C::OUTPUT, k.out);
    while (r.chance(50)) r.chance(50) ? pin(x0, y0 + static_cast<int>(r.below(static_cast<uint64_t>(h))), C::INPUT, k.in) : pin(x0 + w - 1, y0 + static_cast<int>(r.below(static_cast<uint64_t>(h))), C::OUTPUT, k.out);
    for (auto n = r.range(0, 25); n > 0; --n) { const auto c = static_cast<int>(r.below(6)); put(c, x0 + static_cast<int>(r.below(static_cast<uint64_t>(w))), y0 + static_cast<int>(r.below(static_cast<uint64_t>(h))), comp[c]); }
    for (auto& [p, q] : k.parts)
    {
        const cell<Lyt> x{p.first, p.second};
        if (l.get_clocking_scheme().name == clock_name::OPEN || r.chance(10)) l.assign_clock_number(x, static_cast<typename Lyt::clock_number_t>(r.below(l.num_clocks())));
        q.clk = static_cast<int>(l.get_clock_number(x));
        k.what += cat(" ", q.comp, "(", p.first, ",", p.second, ")@", q.clk);
    }
    for (const auto& [p, n] : k.in) k.what += cat(" in(", p.first, ",", p.second, ")", n);
    for (const auto& [p, n] : k.out) k.what += cat(" out(", p.first, ",", p.second, ")", n);
    return k;
}
template <typename Pins>
void judge_pins(const std::vector<const E*>& pins, const Pins& in, const Pins& out, const int mx, const int my, const char* tech, const std::string& what, const std::function<int(const std::pair<int, int>&)>& layer = {})
{
    std::multiset<std::tuple<int, int, int, int, std::string>> got, want;
    int last = -1, dir = 0;
    for (const auto* p : pins)
    {
        got.insert({inum(p, "direction"), inum(p, "x"), inum(p, "y"), layer ? inum(p, "layer") : 0, attr(p, "name")});
        vm::require(attr(p, "tech") == tech, "pins:technology", what);
        if (inum(p, "direction") != dir) { vm::require(dir == 0, "pins:order", what); dir = 1, last = -1; }
        vm::require(inum(p, "y") >= last, "pins:order", what);
        last = inum(p, "y");
    }
    for (const auto& [p, n] : in) want.insert({0, p.first - mx, p.second - my, layer ? layer(p) : 0, n});
    for (const auto& [p, n] : out) want.insert({1, p.first - mx, p.second - my, layer ? layer(p) : 0, n});
    vm::require(got == want, "pins", [&] { std::string t = what + ":"; for (const auto& [d, x, y, z, n] : got) t += cat(" ", d ? "out" : "in", "(", x, ",", y, ",", z, ")[", n, "]"); return t; });
    vm::count("pins", static_cast<long>(want.size()));
}
void judge_items(const E* layout, const inml_case& k, const int mx, const int my)
{
    std::set<std::pair<int, int>> seen;
    for (const auto* i : children(layout, "item"))
    {
        const std::pair<int, int> p{inum(i, "x") + mx, inum(i, "y") + my};
        const auto it = k.parts.find(p);
        vm::require(it != k.parts.end() && seen.insert(p).second, "inml:item", [&] { return cat(k.what, ": item at (", p.first, ",", p.second, ")"); });
        if (it == k.parts.end()) continue;
        vm::require(inum(i, "comp") == it->second.comp, "inml:component", [&] { return cat(k.what, ": ", inum(i, "comp"), " at (", p.first, ",", p.second, ")"); });
        vm::require(property(i, "phase") == std::to_string(it->second.clk), "inml:phase", [&] { return cat(k.what, ": ", property(i, "phase"), " at (", p.first, ",", p.second, ")"); });
        vm::require(property(i, "length") == (it->second.comp == 4 ? "4" : "-"), "inml:length", k.what);
    }
    vm::require(seen.size() == k.parts.size(), "inml:number-of-items", [&] { return cat(k.what, ": ", seen.size()); });
    vm::count("components", static_cast<long>(k.parts.size()));
}
void inml_files(vm::rng& r, const bool qcc)
{
    using Lyt = inml_cell_clk_lyt;
    const auto x0 = r.chance(30) ? static_cast<int>(r.below(4)) : 0, y0 = r.chance(30) ? static_cast<int>(r.below(4)) : 0;
    const auto w = static_cast<int>(r.range(2, 16)), h = static_cast<int>(r.range(1, 14));
    const auto name = label(r, true);
    Lyt        l{{x0 + w - 1, y0 + h - 1 + (r.chance(20) ? 2 : 0)}, r.chance(50) ? open_clocking<Lyt>() : columnar_clocking<Lyt>(r.chance(50) ? num_clks::THREE : num_clks::FOUR), name};
    auto       k = inml(r, l, x0, y0, w, h, true);
    vm::note(k.what);
    int  mx = 1 << 20, my = 1 << 20, ux = 0, uy = 0;
    l.foreach_cell([&](const auto& c) { mx = std::min(mx, static_cast<int>(c.x)), my = std::min(my, static_cast<int>(c.y)), ux = std::max(ux, static_cast<int>(c.x)), uy = std::max(uy, static_cast<int>(c.y)); });
    std::stringstream s;
    try
    {
        if (qcc) write_qcc_layout(l, s);
        else write_qll_layout(l, s);
        const auto            text = s.str();
        tinyxml2::XMLDocument d;
        if (d.Parse(text.c_str()) != tinyxml2::XML_SUCCESS) { vm::violate("inml:xml", k.what + "\n" + text.substr(0, 800)); return; }
        const auto* root = d.FirstChildElement(qcc ? "qcacomponent" : "qcalayout");
        vm::require(root != nullptr, "inml:root", "");
        std::vector<std::string> comps;
        for (const auto* i : children(child(root, "components"), "item")) comps.push_back(attr(i, "name"));
        vm::require(comps == std::vector<std::string>{"Magnet", "Coupler", "Cross Wire", "And", "Inverter", "Or"}, "inml:components", "");
        const auto* lay = child(root, "layout");
        judge_items(lay, k, mx, my);
        if (qcc)
        {
            vm::require(attr(root, "name") == name, "qcc:name", [&] { return cat("[", name, "] became [", attr(root, "name"), "]"); });
            vm::require(inum(root, "maxX") == ux - mx && inum(root, "maxY") == uy - my, "qcc:size", [&] { return k.what + " " + attr(root, "maxX") + " " + attr(root, "maxY"); });
            vm::require(inum(root, "MagnetsCount") == k.cells - 3 * (k.inverters / 4), "qcc:magnets", [&] { return cat(k.what, ": ", inum(root, "MagnetsCount"), " magnets, ", k.cells, " cells, ", k.inverters, " of inverters"); });
            judge_pins(children(child(root, "entity"), "pin"), k.in, k.out, mx, my, "iNML", k.what);
            // the identifier depends on nothing but the layout
            std::stringstream s2;
            write_qcc_layout(l, s2);
            vm::require(s2.str() == text, "qcc:reproducible", k.what);
            write_qcc_layout_params ps{};
            ps.use_filename_as_component_name = true;
            ps.filename                       = "/some/where/na-me.x.qcc";
            std::stringstream s3;
            write_qcc_layout(l, s3, ps);
            const auto            t3 = s3.str();
            tinyxml2::XMLDocument d3;
            vm::require(d3.Parse(t3.c_str()) == tinyxml2::XML_SUCCESS && attr(d3.FirstChildElement("qcacomponent"), "name") == "na-me.x", "qcc:file-name", "");
        }
        else
        {
            const auto* set = child(child(root, "technologies"), "settings");
            vm::require(attr(set, "tech") == "iNML" && property(set, "Layoutwidth") == std::to_string(static_cast<int>(l.x())) && property(set, "Layoutheight") == std::to_string(static_cast<int>(l.y())) && property(set, "PhaseNumber") == std::to_string(l.num_clocks()) && property(set, "layersEnabled") == "false", "qll:settings", k.what);
            judge_pins(children(lay, "pin"), k.in, k.out, mx, my, "iNML", k.what, [](const auto&) { return 0; });
            std::set<int> ids;
            for (const auto* i : children(lay)) ids.insert(inum(i, "id"));
            vm::require(ids.size() == children(lay).size() && *ids.begin() == 1 && *ids.rbegin() == static_cast<int>(ids.size()), "qll:ids", k.what);
        }
    }
    catch (const std::exception& e) { vm::violate("inml:refused", k.what + ": " + e.what()); }
    // a pin off its border is refused
    if (!k.in.empty() && w > 2)
    {
        const auto x = mx + 1 + static_cast<int>(r.below(static_cast<uint64_t>(w - 2))), y = y0 + static_cast<int>(r.below(static_cast<uint64_t>(h)));
        if (l.is_empty_cell({x, y}) && !k.out.empty() && x < ux)
        {
            l.assign_cell_type({x, y}, r.chance(50) ? inml_technology::cell_type::INPUT : inml_technology::cell_type::OUTPUT);
            std::stringstream t;
            bool refused = false;
            try { if (qcc) write_qcc_layout(l, t); else write_qll_layout(l, t); } catch (const std::invalid_argument&) { refused = true; }
            vm::require(refused, "inml:pin-off-border", [&] { return cat(k.what, " and a pin at (", x, ",", y, ")"); });
        }
    }
    vm::distinct(k.what);
}
template <typename Lyt>
void qll(vm::rng& r, const char* kind)
{
    using T = technology<Lyt>;
    auto        l    = some_layout<Lyt>(r, label(r, true));
    std::string what = cat(kind, " ", static_cast<int>(l.x()) + 1, "x", static_cast<int>(l.y()) + 1, "x", static_cast<int>(l.z()) + 1, ":");
    const auto  cs   = grow(r, l, true, true, what);
    vm::note(what);
    if (cs.empty()) return;
    int mx = 1 << 20, my = 1 << 20;
    for (const auto& [p, c] : cs) mx = std::min(mx, p[0]), my = std::min(my, p[1]);
    std::stringstream s;
    try
    {
        write_qll_layout(l, s);
        const auto            text = s.str();
        tinyxml2::XMLDocument d;
        if (d.Parse(text.c_str()) != tinyxml2::XML_SUCCESS) { vm::violate("qll:xml", what + "\n" + text.substr(0, 800)); return; }
        const auto* root = d.FirstChildElement("qcalayout");
        vm::require(root != nullptr, "qll:root", "");
        const auto* set = child(child(root, "technologies"), "settings");
        vm::require(attr(set, "tech") == "MolFCN" && property(set, "Layoutwidth") == std::to_string(static_cast<int>(l.x())) && property(set, "Layoutheight") == std::to_string(static_cast<int>(l.y())) && property(set, "PhaseNumber") == std::to_string(l.num_clocks()) && property(set, "layersEnabled") == (l.z() > 0 ? "true" : "false"), "qll:settings", what);
        const auto* lay = child(root, "layout");
        // what is expected: (kind, x, y, layer, phase, name)
        std::multiset<std::tuple<std::string, int, int, int, std::string, std::string>> got, want;
        std::set<int> ids;
        for (const auto* i : children(lay))
        {
            ids.insert(inum(i, "id"));
            if (std::string{i->Name()} == "pin") { got.insert({"pin" + attr(i, "direction"), inum(i, "x"), inum(i, "y"), inum(i, "layer"), "-", attr(i, "name")}); vm::require(attr(i, "tech") == "MolFCN", "qll:pin-technology", what); }
            else got.insert({i->Name(), inum(i, "x"), inum(i, "y"), inum(i, "layer"), property(i, "phase"), attr(i, "comp")});
        }
        for (const auto& [p, c] : cs)
        {
            const auto x = p[0] - mx, y = p[1] - my;
            auto phase = c.clk;
            if constexpr (std::is_same_v<T, mol_qca_technology>) phase = static_cast<int>(T::cell_clock_number(c.t));
            if (T::is_normal_cell(c.t)) want.insert({"item", x, y, 2 * p[2], std::to_string(phase), "0"});
            else if (T::is_constant_cell(c.t)) want.insert({"pin0", x, y, 2 * p[2], "-", T::is_const_0_cell(c.t) ? "const0" : "const1"});
            else want.insert({T::is_input_cell(c.t) ? "pin0" : "pin1", x, y, 2 * p[2], "-", c.name});
            const auto vertical = c.mode == static_cast<int>(T::cell_mode::VERTICAL) && p[2] < static_cast<int>(l.z()) && (std::is_same_v<T, qca_technology> || T::is_normal_cell(c.t));
            if (vertical) want.insert({"item", x, y, 2 * p[2] + 1, std::to_string(phase), "0"});
        }
        vm::require(got == want, "qll:cells", [&] { std::string t = what + " written, without what is right:"; for (const auto& g : got) if (!want.contains(g)) t += cat(" ", std::get<0>(g), "(", std::get<1>(g), ",", std::get<2>(g), ",", std::get<3>(g), ")@", std::get<4>(g), "[", std::get<5>(g), "]"); return t; });
        vm::require(ids.size() == children(lay).size() && *ids.begin() == 1 && *ids.rbegin() == static_cast<int>(ids.size()), "qll:ids", what);
        vm::count("cells", static_cast<long>(want.size()));
    }
    catch (const std::exception& e) { vm::violate("qll:refused", what + ": " + e.what()); }
    vm::distinct(what);
}
// ---- SiQAD files of QCA layouts: a cell is four dots, a constant the two of its polarization
void qca_sqd(vm::rng& r)
{
    using Lyt        = qca_cell_clk_lyt;
    auto        l    = some_layout<Lyt>(r, label(r, true));
    std::string what = "sqd:";
    std::map<P, info<qca_technology>> cs = grow(r, l, false, true, what);
    vm::note(what);
    std::stringstream s;
    write_sqd_layout(l, s);
    const auto            text = s.str();
    tinyxml2::XMLDocument d;
    if (d.Parse(text.c_str()) != tinyxml2::XML_SUCCESS) { vm::violate("sqd:xml", what + "\n" + text.substr(0, 800)); return; }
    std::map<std::tuple<int, int, int>, std::string> want;
    std::set<std::string> colors;
    std::map<int, std::set<std::string>> by_kind;
    for (const auto& [p, c] : cs)
    {
        const auto kind = qca_technology::is_input_cell(c.t) ? 1 : qca_technology::is_output_cell(c.t) ? 2 : qca_technology::is_constant_cell(c.t) ? 3 : 0;
        if (!qca_technology::is_const_1_cell(c.t)) want[{14 * p[0], 7 * p[1], 0}] = want[{14 * p[0] + 6, 7 * p[1] + 3, 0}] = std::to_string(kind);
        if (!qca_technology::is_const_0_cell(c.t)) want[{14 * p[0] + 6, 7 * p[1], 0}] = want[{14 * p[0], 7 * p[1] + 3, 0}] = std::to_string(kind);
    }
    std::size_t n = 0;
    const std::function<void(const E*)> walk = [&](const E* e)
    {
        for (const auto* c : children(e))
        {
            if (std::string{c->Name()} == "dbdot")
            {
                const auto* q = child(c, "latcoord");
                const std::tuple<int, int, int> t{inum(q, "n"), inum(q, "m"), inum(q, "l")};
                ++n;
                const auto it = want.find(t);
                vm::require(it != want.end(), "qca-sqd:dot", [&] { return cat(what, ": dot at (", std::get<0>(t), ",", std::get<1>(t), ")"); });
                if (it != want.end()) by_kind[std::stoi(it->second)].insert(child(c, "color")->GetText() ? child(c, "color")->GetText() : "");
            }
            else walk(c);
        }
    };
    try { walk(d.FirstChildElement()); } catch (const std::exception& e) { vm::violate("qca-sqd:structure", what + e.what()); }
    vm::require(n == want.size(), "qca-sqd:number-of-dots", [&] { return cat(what, ": ", n, " dots instead of ", want.size()); });
    for (const auto& [k, v] : by_kind) { vm::require(v.size() == 1 && colors.insert(*v.begin()).second, "qca-sqd:colour", [&] { return cat(what, ": ", v.size(), " colours for kind ", k); }); }
    vm::count("dots", static_cast<long>(n));
    vm::distinct(what);
}
// ---- drawings
struct glyph { std::string kind, color; double x, y; bool operator==(const glyph&) const = default; bool operator<(const glyph& o) const { return std::tie(x, y, kind, color) < std::tie(o.x, o.y, o.kind, o.color); } };
std::pair<double, double> translation(const E* g)
{
    const auto t = attr(g, "transform");
    double     x = 0, y = 0;
    if (std::sscanf(t.c_str(), "translate(%lf,%lf)", &x, &y) != 2) throw std::runtime_error(t);
    return {x, y};
}
std::size_t deep(const E* e, const std::string& n) { std::size_t k = 0; for (const auto* c : children(e)) k += (c->Name() == n) + deep(c, n); return k; }
const E*    first(const E* e, const std::string& n) { for (const auto* c : children(e)) { if (c->Name() == n) return c; if (const auto* q = first(c, n)) return q; } return nullptr; }
std::string fill(const E* e) { static const std::regex f{"(?:^|;)fill:#([0-9a-fA-F]{6})"}; const auto s = attr(e, "style"); std::smatch m; if (!std::regex_search(s, m, f)) throw std::runtime_error("no colour: " + s); return m[1]; }
// what a cell looks like: simple (rectangle only), plain (4 dots), via (ring), crossing (cross), constant (2 dots)
glyph classify(const E* g)
{
    const auto [x, y] = translation(g);
    const auto circles = deep(g, "circle"), paths = deep(g, "path"), texts = deep(g, "text"), lines = deep(g, "line");
    const auto* rect = first(g, "rect");
    if (!rect || deep(g, "rect") != 1) throw std::runtime_error("rectangles");
    std::string kind = paths == 2 ? "cross" : lines == 2 && circles == 6 ? "cell" : circles == 4 ? "cell" : circles == 1 ? "via" : circles == 2 ? "const" : texts == 1 ? "const" : circles == 0 && paths == 0 ? "simple" : "?";
    if (circles == 2)
    {
        std::vector<std::pair<double, double>> c;
        const std::function<void(const E*)> walk = [&](const E* e) { for (const auto* q : children(e)) { if (std::string{q->Name()} == "circle") c.emplace_back(std::stod(attr(q, "cx")), std::stod(attr(q, "cy"))); walk(q); } };
        walk(g);
        kind += (c[0].first < c[1].first) == (c[0].second < c[1].second) ? "0" : "1";
    }
    if (texts == 1) { const std::string t = first(g, "text")->GetText() ? first(g, "text")->GetText() : ""; kind += t.find("C0") != std::string::npos ? "0" : t.find("C1") != std::string::npos ? "1" : "?"; }
    return {kind, fill(rect), std::round(x * 1000) / 1000, std::round(y * 1000) / 1000};
}
std::string show(const std::multiset<glyph>& a, const std::multiset<glyph>& b) { std::string t; for (const auto& g : a) if (a.count(g) != b.count(g)) t += cat(" ", g.kind, "#", g.color, "(", g.x, ",", g.y, ")"); return t; }
template <typename Lyt>
void svg_qca(vm::rng& r, const char* kind, const bool tiles, const bool sync = false)
{
    constexpr auto mol = has_mol_qca_technology_v<Lyt>;
    using T            = technology<Lyt>;
    const auto  tw = tiles ? static_cast<int>(r.range(2, 5)) : 1, th = tiles ? static_cast<int>(r.range(tw == 1 ? 2 : 1, 5)) : 1;
    const auto  nx = static_cast<int>(r.range(1, tiles ? 4 : 12)), ny = static_cast<int>(r.range(1, tiles ? 4 : 12));
    const auto  phases = r.chance(25) ? num_clks::THREE : num_clks::FOUR;
    Lyt         l{{nx * tw - 1, ny * th - 1, r.chance(50) ? 1 : 0}, r.chance(50) ? open_clocking<Lyt>(phases) : twoddwave_clocking<Lyt>(phases), "svg", static_cast<uint16_t>(tw), static_cast<uint16_t>(th)};
    std::string what = cat(kind, " ", nx, "x", ny, " tiles of ", tw, "x", th, ", ", static_cast<int>(l.z()) + 1, " layers:");
    auto        cs   = grow(r, l, !mol, true, what);
    // whole tiles with synchronization elements
    if constexpr (has_synchronization_elements_v<Lyt>)
        for (auto k = sync ? r.range(0, 3) : 0; k > 0; --k)
        {
            const auto tx = static_cast<int>(r.below(static_cast<uint64_t>(nx))), ty = static_cast<int>(r.below(static_cast<uint64_t>(ny)));
            const auto delay = static_cast<int>(r.range(1, 5));
            what += cat(" SE(", tx, ",", ty, ")=", delay);
            for (auto x = 0; x < tw; ++x) for (auto y = 0; y < th; ++y) for (auto z = 0; z <= static_cast<int>(l.z()); ++z) l.assign_synchronization_element(cell<Lyt>{tx * tw + x, ty * th + y, z}, static_cast<typename Lyt::sync_elem_t>(delay));
        }
    for (auto& [p, c] : cs)
    {
        const cell<Lyt> x{p[0], p[1], p[2]};
        c.clk = static_cast<int>(l.get_clock_number(x));
        if constexpr (has_synchronization_elements_v<Lyt>) c.latch = static_cast<int>(l.get_synchronization_element(x));
    }
    vm::note(what);
    write_qca_layout_svg_params ps{};
    ps.simple = r.chance(30);
    what += ps.simple ? " simple" : "";
    std::multiset<glyph> want;
    static const std::string normal[] = {"86e291", "ffa5fa", "00c8bc", "ffffff"}, mnormal[] = {"ffe700", "65ff00", "0071ff", "f800ff"}, tile[] = {"ffffff", "bfbfbf", "7f7f7f", "3f3f3f"};
    const auto vertical = [&](const auto& c) { return c.mode == static_cast<int>(T::cell_mode::VERTICAL); };
    std::set<std::pair<int, int>> used_tiles;
    for (const auto& [p, c] : cs)
    {
        glyph g{};
        used_tiles.insert({p[0] / tw, p[1] / th});
        const auto stacked = cs.contains({p[0], p[1], 1 - p[2]});
        if (T::is_input_cell(c.t)) g = {ps.simple ? "simple" : "cell", mol ? "cccccc" : "008dc8", 0, 0};
        else if (T::is_output_cell(c.t)) g = {ps.simple ? "simple" : "cell", mol ? "4a4a4a" : "e28686", 0, 0};
        else if (T::is_constant_cell(c.t)) g = {ps.simple ? "simple" : T::is_const_0_cell(c.t) ? "const0" : "const1", "000000", 0, 0};
        else
        {
            if constexpr (mol) g.color = mnormal[T::cell_clock_number(c.t)];
            else g.color = c.latch > 0 ? "ffe33a" : normal[c.clk];
            if (ps.simple && !mol) g.kind = "simple";
            else if (p[2] > 0 && vertical(c)) g.kind = "via";
            else if (!mol && p[2] == 0 && stacked) g.kind = "cross";
            else if (!mol && p[2] > 0 && !stacked) g.kind = "cross";
            else if (p[2] > 0) continue;  // drawn by the crossing below
            else g.kind = ps.simple ? "simple" : "cell";
        }
        const auto latch = c.latch > 0;
        if (tiles)
        {
            g.x = (latch ? 312 : 3.5) + 23 * (p[0] % tw), g.y = (latch ? -41 : -40.25) + 23 * (p[1] % th);
            g.x += (latch ? -483.5 : -175) + 119 * (p[0] / tw), g.y += (latch ? -57 : -58) + 119 * (p[1] / th);
        }
        else if (mol) g.x = -175 + 3.5 + 92.93404 + 11.5 * p[0], g.y = -58 - 40.25 + 56.46016 + 11.5 * p[1];
        else g.x = -175 + (latch ? 312 : 3.5) + 23 * p[0], g.y = -58 + (latch ? -41 : -40.25) + 23 * p[1];
        g.x = std::round(g.x * 1000) / 1000, g.y = std::round(g.y * 1000) / 1000;
        want.insert(g);
    }
    std::stringstream s;
    try
    {
        if constexpr (mol) write_mol_qca_layout_svg(l, s, ps);
        else write_qca_layout_svg(l, s, ps);
        const auto            text = s.str();
        tinyxml2::XMLDocument d;
        if (d.Parse(text.c_str()) != tinyxml2::XML_SUCCESS) { vm::violate("svg:xml", what + "\n" + text.substr(0, 1500)); return; }
        const auto* root = d.FirstChildElement("svg");
        vm::require(root != nullptr, "svg:root", "");
        std::multiset<glyph> got;
        std::multiset<std::tuple<double, double, std::string, std::string>> gtiles, wtiles;
        // groups with a translation: tiles on the first level, cells below or directly
        const std::function<void(const E*, double, double, bool)> walk = [&](const E* e, const double ox, const double oy, const bool in_tile)
        {
            for (const auto* g : children(e, "g"))
            {
                const auto* t = g->Attribute("transform");
                if (!t) { walk(g, ox, oy, in_tile); continue; }
                if (tiles && !in_tile)
                {
                    const auto [x, y] = translation(g);
                    const auto gs = children(g, "g");
                    if (gs.size() != 2) throw std::runtime_error("tile");
                    std::string label;
                    for (const auto* q : children(gs[0], "text")) { const auto* ts = child(q, "tspan"); label += cat("|", ts->GetText() ? ts->GetText() : ""); }
                    std::string col;
                    if (deep(gs[0], "path") == 2) { for (const auto* q : children(gs[0])) if (std::string{q->Name()} == "g") for (const auto* w : children(q)) if (std::string{w->Name()} == "g") for (const auto* pp : children(w, "path")) col += fill(pp) + " "; }
                    else col = fill(first(gs[0], "rect"));
                    gtiles.insert({x, y, col, label});
                    walk(gs[1], x, y, true);
                    continue;
                }
                auto q = classify(g);
                q.x = std::round((q.x + ox) * 1000) / 1000, q.y = std::round((q.y + oy) * 1000) / 1000;
                got.insert(q);
            }
        };
        walk(root, 0, 0, false);
        vm::require(got == want, "svg:cells", [&] { return cat(what, ": drawn ", got.size(), " instead of ", want.size(), ":", show(got, want), " instead of", show(want, got)); });
        if (tiles)
        {
            for (auto tx = 0; tx < nx; ++tx)
                for (auto ty = 0; ty < ny; ++ty)
                {
                    const cell<Lyt> x{tx * tw, ty * th};
                    auto            latch = 0;
                    if constexpr (has_synchronization_elements_v<Lyt>) latch = static_cast<int>(l.get_synchronization_element(x));
                    if (ps.simple && !used_tiles.contains({tx, ty})) continue;
                    const auto zone = static_cast<int>(l.get_clock_number(x));
                    if (latch)
                    {
                        const auto lo = (zone + latch) % static_cast<int>(l.num_clocks());
                        wtiles.insert({-483.5 + 119 * tx, -57 + 119 * ty, tile[lo] + " " + tile[zone] + " ", ps.simple ? "||" : cat("|", zone + 1, "|", lo + 1)});
                    }
                    else wtiles.insert({-175 + 119 * tx, -58 + 119 * ty, tile[zone], ps.simple ? "|" : cat("|", zone + 1)});
                }
            vm::require(gtiles == wtiles, "svg:tiles", [&] { std::string t = what + ": tiles"; for (const auto& g : gtiles) if (!wtiles.contains(g)) t += cat(" (", std::get<0>(g), ",", std::get<1>(g), ")", std::get<2>(g), std::get<3>(g)); t += " instead of"; for (const auto& g : wtiles) if (!gtiles.contains(g)) t += cat(" (", std::get<0>(g), ",", std::get<1>(g), ")", std::get<2>(g), std::get<3>(g)); return t; });
            vm::count("tiles", static_cast<long>(wtiles.size()));
        }
        vm::count("cells drawn", static_cast<long>(want.size()));
    }
    catch (const std::exception& e) { vm::violate("svg:refused", what + ": " + e.what()); }
    vm::distinct(what);
}
template <typename Lyt>
void svg_sidb(vm::rng& r, const char* kind)
{
    constexpr auto sq = has_siqad_coord_v<Lyt>;
    constexpr auto offset = has_offset_ucoord_v<Lyt>;
    std::set<std::pair<int, int>> dots;  // column, dot row
    const auto lo = offset || r.chance(60) ? 0 : -15;
    for (auto n = r.range(1, 12); n > 0; --n) dots.insert({static_cast<int>(r.range(lo, 15)), static_cast<int>(r.range(lo, 15))});
    Lyt l{};
    l.resize(aspect_ratio<Lyt>{20, 40});
    std::string what = cat(kind, ":");
    const auto  at   = [&](const int x, const int row) { if constexpr (sq) return cell<Lyt>{x, (row - (row & 1)) / 2, row & 1}; else return cell<Lyt>{x, row}; };
    for (const auto& [x, y] : dots) { l.assign_cell_type(at(x, y), sidb_technology::cell_type::NORMAL); what += cat(" (", x, ",", y, ")"); }
    vm::note(what);
    write_sidb_layout_svg_params ps{};
    ps.color_background = r.chance(50) ? write_sidb_layout_svg_params::color_mode::DARK : write_sidb_layout_svg_params::color_mode::LIGHT;
    ps.lattice_mode     = r.chance(50) ? write_sidb_layout_svg_params::sidb_lattice_mode::HIDE_LATTICE : write_sidb_layout_svg_params::sidb_lattice_mode::SHOW_LATTICE;
    const auto dark = ps.color_background == write_sidb_layout_svg_params::color_mode::DARK, lattice = ps.lattice_mode == write_sidb_layout_svg_params::sidb_lattice_mode::SHOW_LATTICE;
    std::map<std::pair<int, int>, sidb_charge_state> charges;
    std::stringstream s;
    const auto charged = r.chance(50);
    if (charged)
    {
        charge_distribution_surface<Lyt> q{l};
        for (const auto& [x, y] : dots) { const auto c = r.one_of({sidb_charge_state::NEGATIVE, sidb_charge_state::NEUTRAL, sidb_charge_state::POSITIVE}); charges[{x, y}] = c; q.assign_charge_state(at(x, y), c); }
        write_sidb_layout_svg(q, s, ps);
    }
    else write_sidb_layout_svg(l, s, ps);
    const auto            text = s.str();
    tinyxml2::XMLDocument d;
    if (d.Parse(text.c_str()) != tinyxml2::XML_SUCCESS) { vm::violate("svg-sidb:xml", what + "\n" + text.substr(0, 1500)); return; }
    const auto* root = d.FirstChildElement("svg");
    // the lattice in Angstrom, one column and two dot rows away from the border
    const auto place = [](const int x, const int row) { const auto m = (row - (row & 1)) / 2, k = row & 1; if constexpr (is_sidb_lattice_111_v<Lyt>) return std::pair{6.65 * x + k * 3.3255, 3.84 * m + k * 1.92}; else return std::pair{3.84 * x, 7.68 * m + k * 2.25}; };
    const auto near = [](const double a, const double b) { return std::abs(a - b) < 1e-6 * std::max(1.0, std::abs(a)); };
    int mx = 1 << 20, my = 1 << 20, ux = -(1 << 20), uy = ux;
    for (const auto& [x, y] : dots) mx = std::min(mx, x), my = std::min(my, y), ux = std::max(ux, x), uy = std::max(uy, y);
    std::vector<std::pair<double, double>> want_lattice, got_lattice, got_dots;
    try
    {
        std::size_t k = 0;
        std::vector<std::pair<int, int>> sorted(dots.begin(), dots.end());
        std::set<std::pair<int, int>>    seen;
        const std::function<void(const E*)> walk = [&](const E* e)
        {
            for (const auto* u : children(e))
            {
                if (std::string{u->Name()} == "use")
                {
                    const auto x = std::stod(attr(u, "x")), y = std::stod(attr(u, "y"));
                    if (attr(u, "xlink:href") == "#lattice_point") { got_lattice.emplace_back(x, y); continue; }
                    ++k;
                    const auto it = std::ranges::find_if(dots, [&](const auto& p) { const auto [a, b] = place(p.first + 1, p.second + 2); return near(a, x) && near(b, y); });
                    vm::require(it != dots.end() && seen.insert(*it).second, "svg-sidb:dot", [&] { return cat(what, ": dot drawn at (", x, ",", y, ")"); });
                    if (it == dots.end()) continue;
                    const auto st = attr(u, "style");
                    const std::string col = !charged ? (dark ? "fill:#C8C8C8; fill-opacity:1;" : "fill:#ffffff; fill-opacity:1;") : charges[*it] == sidb_charge_state::NEGATIVE ? "fill:#00ADAE; fill-opacity:1;" : charges[*it] == sidb_charge_state::POSITIVE ? "fill:#E34857; fill-opacity:1;" : "fill-opacity:0;";
                    vm::require(st.find(col) != std::string::npos, "svg-sidb:colour", [&] { return cat(what, ": ", st, " for charge ", charged ? static_cast<int>(charges[*it]) : 9); });
                }
                else walk(u);
            }
        };
        walk(root);
        vm::require(k == dots.size(), "svg-sidb:number-of-dots", [&] { return cat(what, ": ", k); });
        if (lattice) for (auto x = mx; x <= ux; ++x) for (auto y = my; y <= uy; ++y) want_lattice.push_back(place(x + 1, y + 2));
        std::ranges::sort(want_lattice);
        std::ranges::sort(got_lattice);
        vm::require(std::ranges::equal(want_lattice, got_lattice, [&](const auto& a, const auto& b) { return std::abs(a.first - b.first) < 1e-4 && std::abs(a.second - b.second) < 1e-4; }) , "svg-sidb:lattice", [&] { return cat(what, ": ", got_lattice.size(), " lattice points instead of ", want_lattice.size()); });
        std::istringstream vb{attr(root, "viewBox")};
        double a = 0, b = 0, w = 0, h = 0;
        vb >> a >> b >> w >> h;
        const auto p0 = place(mx, my), p1 = place(ux + 2, uy + 3);
        vm::require(near(a, p0.first) && near(b, p0.second) && std::abs(w - (p1.first - p0.first)) < 1e-6 && std::abs(h - (p1.second - p0.second)) < 1e-6, "svg-sidb:view", [&] { return cat(what, ": view ", a, " ", b, " ", w, " ", h); });
        vm::count("dots drawn", static_cast<long>(k));
        vm::count("lattice points", static_cast<long>(got_lattice.size()));
    }
    catch (const std::exception& e) { vm::violate("svg-sidb:structure", what + ": " + e.what()); }
    vm::distinct(what);
}
}  // namespace

#if !defined(PART) || PART == 1
VM_SUITE(qcadesigner, 300, 3000) { qcad<qca_cell_clk_lyt>(r, "offset"); }
VM_SUITE(qcadesigner_stacked, 300, 3000) { qcad<stacked_qca_cell_clk_lyt>(r, "stacked"); }
VM_SUITE(qcc, 400, 4000) { inml_files(r, true); }
VM_SUITE(qll_inml, 400, 4000) { inml_files(r, false); }
VM_SUITE(qll_qca, 400, 4000) { qll<qca_cell_clk_lyt>(r, "qca"); }
VM_SUITE(qll_mol_qca, 400, 4000) { qll<mol_qca_cell_clk_lyt>(r, "mol-qca"); }
VM_SUITE(sqd_of_qca, 200, 2000) { qca_sqd(r); }
#endif
#if !defined(PART) || PART == 2
VM_SUITE(svg_cells, 300, 3000) { svg_qca<qca_cell_clk_lyt>(r, "cells", false); }
VM_SUITE(svg_tiles, 300, 3000) { svg_qca<qca_cell_clk_lyt>(r, "tiles", true); }
VM_SUITE(svg_synchronized_cells, 200, 2000) { svg_qca<qca_cell_clk_lyt>(r, "synchronized cells", false, true); }
VM_SUITE(svg_synchronized_tiles, 300, 3000) { svg_qca<qca_cell_clk_lyt>(r, "synchronized tiles", true, true); }
VM_SUITE(svg_molecules, 300, 3000) { svg_qca<mol_qca_cell_clk_lyt>(r, "molecules", false); }
VM_SUITE(svg_sidb, 250, 2500) { svg_sidb<sidb_cell_clk_lyt_siqad>(r, "siqad"); svg_sidb<sidb_cell_clk_lyt_cube>(r, "cube"); svg_sidb<sidb_cell_clk_lyt>(r, "offset"); }
VM_SUITE(svg_sidb_lattice, 250, 2500) { svg_sidb<sidb_100_cell_clk_lyt_siqad>(r, "100"); svg_sidb<sidb_111_cell_clk_lyt_siqad>(r, "111"); }
VM_SUITE(writer_files, 5, 40)
{
    const auto dir = std::filesystem::temp_directory_path() / cat("writers-", getpid(), "-", r.below(1u << 30));
    std::filesystem::create_directories(dir);
    const auto file  = [&](const char* n) { return (dir / n).string(); };
    const auto bytes = [](const std::string& f) { std::ifstream i{f}; return std::string{std::istreambuf_iterator<char>{i}, {}}; };
    const auto compare = [&](const char* n, const auto& to_file, const auto& to_stream)
    {
        to_file(std::string_view{file(n)});
        std::stringstream s;
        to_stream(s);
        vm::require(bytes(file(n)) == s.str() && !s.str().empty(), "writers:file", n);
        bool refused = false;
        try { to_file(std::string_view{"/nonexistent/dir/file"}); } catch (const std::ofstream::failure&) { refused = true; }
        vm::require(refused, "writers:unwritable", n);
    };
    std::string what;
    auto        q = some_layout<qca_cell_clk_lyt>(r, "q");
    (void)grow(r, q, true, false, what);
    q.assign_cell_type({0, 0}, qca_technology::cell_type::NORMAL);
    compare("a.qca", [&](const auto f) { write_qca_layout(q, f); }, [&](auto& s) { write_qca_layout(q, s); });
    compare("a.qll", [&](const auto f) { write_qll_layout(q, f); }, [&](auto& s) { write_qll_layout(q, s); });
    compare("a.svg", [&](const auto f) { write_qca_layout_svg(q, f); }, [&](auto& s) { write_qca_layout_svg(q, s); });
    mol_qca_cell_clk_lyt m{{5, 5}, open_clocking<mol_qca_cell_clk_lyt>()};
    m.assign_cell_type({1, 1}, mol_qca_technology::cell_type::NORMAL2);
    compare("m.svg", [&](const auto f) { write_mol_qca_layout_svg(m, f); }, [&](auto& s) { write_mol_qca_layout_svg(m, s); });
    sidb_cell_clk_lyt_siqad b{{5, 5}};
    b.assign_cell_type({1, 1, 1}, sidb_technology::cell_type::NORMAL);
    compare("b.svg", [&](const auto f) { write_sidb_layout_svg(b, f); }, [&](auto& s) { write_sidb_layout_svg(b, s); });
    inml_cell_clk_lyt n{{9, 5}, open_clocking<inml_cell_clk_lyt>(), "n"};
    (void)inml(r, n, 0, 0, 10, 6, false);
    compare("n.qcc", [&](const auto f) { write_qcc_layout(n, f); }, [&](auto& s) { write_qcc_layout(n, s); });
    std::filesystem::remove_all(dir);
    vm::distinct(what);
}
#endif

VM_MAIN
