// Monitors cell-level files: what is written is read back as the same layout; what is malformed is refused.
#include "vm.hpp"

#include <fiction/io/read_fqca_layout.hpp>
#include <fiction/io/read_sidb_surface_defects.hpp>
#include <fiction/io/read_sqd_layout.hpp>
#include <fiction/io/write_fqca_layout.hpp>
#include <fiction/io/write_sqd_layout.hpp>
#include <fiction/technology/sidb_defect_surface.hpp>
#include <fiction/types.hpp>

#include <filesystem>

using namespace fiction;

namespace
{
using vm::cat;
std::string label(vm::rng& r)
{
    static const char* const t = "abcxyz_019[] <>&\"';:.-=$";
    std::string s;
    for (auto n = r.range(1, 6); n > 0; --n) s += t[r.below(std::strlen(t))];
    return s;
}
// ---- SiQAD files
struct dot { int32_t n, m, l; bool operator<(const dot& o) const { return std::tie(n, m, l) < std::tie(o.n, o.m, o.l); } };
template <typename Lyt>
cell<Lyt> at(const dot& d)
{
    if constexpr (has_siqad_coord_v<Lyt>) return {d.n, d.m, d.l};
    else return {d.n, d.m * 2 + d.l};
}
const std::vector<sidb_defect_type> defect_types{sidb_defect_type::DB, sidb_defect_type::SI_VACANCY, sidb_defect_type::SINGLE_DIHYDRIDE, sidb_defect_type::DIHYDRIDE_PAIR, sidb_defect_type::ONE_BY_ONE, sidb_defect_type::THREE_BY_ONE, sidb_defect_type::SILOXANE, sidb_defect_type::RAISED_SI, sidb_defect_type::MISSING_DIMER, sidb_defect_type::ETCH_PIT, sidb_defect_type::STEP_EDGE, sidb_defect_type::GUNK, sidb_defect_type::ARSENIC, sidb_defect_type::UNKNOWN};
double coulomb(vm::rng& r) { return r.chance(30) ? 5.6 : r.chance(30) ? 0.0 : static_cast<double>(r.below(1u << 30)) / 1e7; }
template <typename Lyt>
void sqd_round_trip(vm::rng& r, const char* kind)
{
    using surface = sidb_defect_surface<Lyt>;
    std::map<dot, sidb_technology::cell_type> dots;
    std::map<dot, sidb_defect>                defects;
    const auto negative = has_siqad_coord_v<Lyt> && r.chance(30);
    const auto wide     = r.chance(20) ? 4000 : 25;
    const auto some     = [&] { return dot{static_cast<int32_t>(r.range(negative ? -wide : 0, wide)), static_cast<int32_t>(r.range(negative ? -wide : 0, wide)), static_cast<int32_t>(r.below(2))}; };
    for (auto n = r.range(0, 30); n > 0; --n)
        dots[some()] = r.one_of({sidb_technology::cell_type::NORMAL, sidb_technology::cell_type::NORMAL, sidb_technology::cell_type::INPUT, sidb_technology::cell_type::OUTPUT, sidb_technology::cell_type::LOGIC});
    for (auto n = r.range(0, 12); n > 0; --n)
        if (const auto d = some(); !dots.contains(d))
        {
            sidb_defect x{defect_types[r.below(defect_types.size())], static_cast<int64_t>(r.range(-2, 2))};
            if (is_charged_defect_type(x)) x = sidb_defect{x.type, x.charge, coulomb(r), coulomb(r)};
            defects.insert_or_assign(d, x);
        }
    std::string what = cat(kind, ":");
    for (const auto& [d, t] : dots) what += cat(" (", d.n, ",", d.m, ",", d.l, ")", sidb_technology::is_input_cell(t) ? "i" : sidb_technology::is_output_cell(t) ? "o" : sidb_technology::is_logic_cell(t) ? "l" : "");
    for (const auto& [d, x] : defects) what += cat(" defect ", static_cast<int>(x.type), " (", d.n, ",", d.m, ",", d.l, ") charge ", x.charge, " ", x.epsilon_r, " ", x.lambda_tf);
    vm::note(what);
    surface l{Lyt{{2 * wide, 4 * wide, has_siqad_coord_v<Lyt> ? 1 : 0}, "sqd"}};
    for (const auto& [d, t] : dots) l.assign_cell_type(at<Lyt>(d), t);
    for (const auto& [d, x] : defects) l.assign_sidb_defect(at<Lyt>(d), x);
    std::stringstream s;
    write_sqd_layout(l, s);
    const auto text = s.str();
    const auto name = label(r);
    const auto judge = [&](const auto& q, const bool with_defects)
    {
        using Q = std::decay_t<decltype(q)>;
        vm::require(q.num_cells() == dots.size(), "sqd:number-of-dots", [&] { return cat(what, ": ", q.num_cells(), " dots read"); });
        int64_t mx = 0, my = 0;
        for (const auto& [d, t] : dots)
        {
            const auto c = at<Q>(d);
            mx = std::max<int64_t>(mx, c.x), my = std::max<int64_t>(my, c.y);
            vm::require(q.get_cell_type(c) == t, "sqd:dot", [&] { return cat(what, ": dot (", d.n, ",", d.m, ",", d.l, ") read as type ", static_cast<int>(q.get_cell_type(c))); });
        }
        if constexpr (has_get_sidb_defect_v<Q>)
        {
            if (with_defects)
            {
                std::size_t k = 0;
                q.foreach_sidb_defect([&](const auto&) { ++k; });
                vm::require(k == defects.size(), "sqd:number-of-defects", [&] { return cat(what, ": ", k, " defects read"); });
                for (const auto& [d, x] : defects)
                {
                    const auto c = at<Q>(d);
                    mx = std::max<int64_t>(mx, c.x), my = std::max<int64_t>(my, c.y);
                    const auto y = q.get_sidb_defect(c);
                    vm::require(y == x, "sqd:defect", [&] { return cat(what, ": defect (", d.n, ",", d.m, ",", d.l, ") read as type ", static_cast<int>(y.type), " charge ", y.charge, " ", y.epsilon_r, " ", y.lambda_tf); });
                }
            }
        }
        else for (const auto& [d, x] : defects) (void)x, (void)d;
        if (with_defects || defects.empty()) vm::require(static_cast<int64_t>(q.x()) == mx && static_cast<int64_t>(q.y()) == my, "sqd:size", [&] { return cat(what, ": size ", static_cast<int64_t>(q.x()), "x", static_cast<int64_t>(q.y())); });
    };
    try
    {
        const auto padded = name + "behind";
        const auto q      = read_sqd_layout<surface>(s, std::string_view{padded}.substr(0, name.size()));
        judge(q, true);
        vm::require(q.get_layout_name() == name, "sqd:name", [&] { return cat("[", name, "] became [", q.get_layout_name(), "]"); });
        std::stringstream s2{text};
        judge(read_sqd_layout<Lyt>(s2), false);
        surface           t{};
        std::stringstream s3{text};
        read_sqd_layout(t, s3);
        judge(t, true);
        // and once more
        std::stringstream s4;
        write_sqd_layout(q, s4);
        judge(read_sqd_layout<surface>(s4), true);
        // without the defects
        std::stringstream s5;
        Lyt               p{{2 * wide, 4 * wide, has_siqad_coord_v<Lyt> ? 1 : 0}};
        for (const auto& [d, y] : dots) p.assign_cell_type(at<Lyt>(d), y);
        write_sqd_layout(p, s5);
        defects.clear();
        judge(read_sqd_layout<surface>(s5), true);
    }
    catch (const std::exception& e) { vm::violate("sqd:refused", what + ": " + e.what()); }
    vm::count("dots written and read", static_cast<long>(dots.size()));
    vm::distinct(what);
    vm::sample(what);
}
#if PART == 1
VM_SUITE(sqd_100_siqad, 60, 600) { sqd_round_trip<sidb_100_cell_clk_lyt_siqad>(r, "Si(100) siqad"); }
VM_SUITE(sqd_111_siqad, 60, 600) { sqd_round_trip<sidb_111_cell_clk_lyt_siqad>(r, "Si(111) siqad"); }
VM_SUITE(sqd_100_cube, 60, 600) { sqd_round_trip<sidb_100_cell_clk_lyt_cube>(r, "Si(100) cube"); }
VM_SUITE(sqd_111_cube, 60, 600) { sqd_round_trip<sidb_111_cell_clk_lyt_cube>(r, "Si(111) cube"); }
VM_SUITE(sqd_100_offset, 60, 600) { sqd_round_trip<sidb_100_cell_clk_lyt>(r, "Si(100) offset"); }
VM_SUITE(sqd_111_offset, 60, 600) { sqd_round_trip<sidb_111_cell_clk_lyt>(r, "Si(111) offset"); }
// malformed files are refused by the documented exception
template <typename Q>
void refuse(const std::string& text, const std::string& what)
{
    std::stringstream in{text};
    try { const auto q = read_sqd_layout<Q>(in); vm::violate("sqd:malformed-accepted", what); }
    catch (const sqd_parsing_error&) { vm::count("malformed files refused"); }
    catch (const std::exception& e) { vm::violate("sqd:malformed-exception", what + ": another exception than sqd_parsing_error: " + e.what()); }
}
std::string some_sqd(vm::rng& r)
{
    sidb_defect_surface<sidb_100_cell_clk_lyt_siqad> l{sidb_100_cell_clk_lyt_siqad{{20, 20, 1}}};
    for (auto n = r.range(1, 5); n > 0; --n) l.assign_cell_type({r.range(0, 9), r.range(0, 9), static_cast<int>(r.below(2))}, r.one_of({sidb_technology::cell_type::NORMAL, sidb_technology::cell_type::INPUT, sidb_technology::cell_type::OUTPUT, sidb_technology::cell_type::LOGIC}));
    for (auto n = r.range(1, 4); n > 0; --n) l.assign_sidb_defect({r.range(10, 19), r.range(10, 19), static_cast<int>(r.below(2))}, sidb_defect{defect_types[r.below(defect_types.size())], -1, 5.6, 5.0});
    std::stringstream s;
    write_sqd_layout(l, s);
    return s.str();
}
std::vector<std::size_t> all(const std::string& text, const std::string& of) { std::vector<std::size_t> v; for (auto i = text.find(of); i != std::string::npos; i = text.find(of, i + 1)) v.push_back(i); return v; }
VM_SUITE(sqd_malformed, 200, 2000)
{
    auto        text = some_sqd(r);
    std::string what;
    const auto  change_attribute = [&](const std::string& a, const std::string& to) -> bool
    {
        const auto v = all(text, " " + a + "=\"");
        if (v.empty()) return false;
        const auto i = v[r.below(v.size())] + a.size() + 3, e = text.find('"', i);
        if (to == "remove") text.erase(i - a.size() - 3, e + 1 - (i - a.size() - 3));
        else text.replace(i, e - i, to);
        what = cat("attribute ", a, ": ", to);
        return true;
    };
    const auto bad = r.one_of({std::string{"abc"}, std::string{""}, std::string{"--1"}, std::string{"99999999999999999999999999"}, std::string{"remove"}});
    switch (r.below(7))
    {
        case 0: if (!change_attribute(r.one_of({std::string{"n"}, std::string{"m"}, std::string{"l"}}), bad)) return; break;
        case 1: if (!change_attribute(r.one_of({std::string{"charge"}, std::string{"eps_r"}, std::string{"lambda_tf"}}), bad == "99999999999999999999999999" ? "x" : bad)) return; break;
        case 2: if (!change_attribute(r.one_of({std::string{"eps_r"}, std::string{"lambda_tf"}}), r.one_of({std::string{"-1"}, std::string{"-0.5"}, std::string{"nan"}}))) return; break;
        case 3:
        {
            const std::string e = r.one_of({std::string{"siqad"}, std::string{"layers"}, std::string{"design"}, std::string{"lat_vec"}, std::string{"layer_prop"}, std::string{"latcoord"}});
            for (const auto& x : {"<" + e, "</" + e})
                for (auto i = text.find(x); i != std::string::npos; i = text.find(x, i + x.size() + 1)) if (!std::isalnum(static_cast<unsigned char>(text[i + x.size()])) && text[i + x.size()] != '_') text.insert(i + x.size(), "q");
            what = "no element " + e;
            break;
        }
        case 4:
        {
            const auto n = r.below(text.find("</siqad>"));
            text.resize(n);
            what = cat("cut off behind ", n, " characters");
            break;
        }
        case 5:
        {
            const auto v = all(text, "<type>"), d = all(text, "<dbdot>");
            std::vector<std::size_t> w;
            for (const auto i : v) if (!d.empty() && i > d[0]) w.push_back(i);
            if (w.empty()) return;
            const auto i = w[r.below(w.size())] + 6, e = text.find("</type>", i);
            const auto to = r.one_of({std::string{"none"}, std::string{""}, std::string{"Input"}});
            text.replace(i, e - i, to);
            what = "dot type '" + to + "'";
            break;
        }
        default:
        {
            const auto i = text.find("<lat_vec>"), a = text.find("<name>", i) + 6, e = text.find("</name>", a);
            const auto to = r.one_of({std::string{"Si(111) 1x1"}, std::string{"Si(100)"}, std::string{"graphene"}});
            text.replace(a, e - a, to);
            what = "lattice '" + to + "'";
        }
    }
    vm::note(what);
    refuse<sidb_defect_surface<sidb_100_cell_clk_lyt_siqad>>(text, what);
    vm::distinct(what);
    // where dimers must not be negative nor have more than two dots
    if (r.chance(30))
    {
        text = some_sqd(r);
        if (!change_attribute(r.one_of({std::string{"n"}, std::string{"m"}}), "-3")) return;
        refuse<sidb_defect_surface<sidb_100_cell_clk_lyt_cube>>(text, what);
        text = some_sqd(r);
        if (change_attribute("l", r.one_of({std::string{"2"}, std::string{"-1"}}))) refuse<sidb_defect_surface<sidb_100_cell_clk_lyt>>(text, what);
    }
}
// any file at all is either read or refused
VM_SUITE(sqd_mutated, 300, 3000)
{
    auto text = some_sqd(r);
    for (auto k = r.range(1, 4); k > 0; --k)
    {
        const auto i = r.below(text.size());
        switch (r.below(5))
        {
            case 0: text[i] = static_cast<char>(r.below(256)); break;
            case 1: text.erase(i, r.below(40)); break;
            case 2: text.insert(i, text.substr(r.below(text.size()), r.below(60))); break;
            case 3: if (const auto e = text.find('>', i), f = e == std::string::npos ? e : text.find('<', e); f != std::string::npos) text.replace(e + 1, f - e - 1, r.one_of({std::string{""}, std::string{"-5"}, std::string{"x"}})); break;
            default: if (const auto e = text.find('"', i), f = e == std::string::npos ? e : text.find('"', e + 1); f != std::string::npos) text.replace(e + 1, f - e - 1, r.one_of({std::string{""}, std::string{"-5"}, std::string{"x"}, std::string{"4294967296"}, std::string{"9223372036854775807"}})); break;
        }
    }
    vm::note(text);
    const auto read = [&](auto tag)
    {
        std::stringstream in{text};
        try { const auto q = read_sqd_layout<typename decltype(tag)::type>(in); vm::count("mutated files read"); }
        catch (const sqd_parsing_error&) { vm::count("mutated files refused"); }
        catch (const std::exception& e) { vm::violate("sqd:exception", cat(e.what(), " while reading ", text)); }
    };
    read(std::type_identity<sidb_defect_surface<sidb_100_cell_clk_lyt_siqad>>{});
    read(std::type_identity<sidb_defect_surface<sidb_100_cell_clk_lyt_cube>>{});
    read(std::type_identity<sidb_defect_surface<sidb_100_cell_clk_lyt>>{});
    vm::distinct(text);
}
#endif
#if PART == 2
// ---- QCA-STACK files
template <typename Lyt>
void fqca_round_trip(vm::rng& r, const bool stacked, const char* kind)
{
    const auto w = static_cast<int>(r.range(1, 14)), h = static_cast<int>(r.range(1, 14));
    const auto via = stacked && r.chance(50);
    const auto layers = via ? static_cast<int>(r.range(1, 3)) : stacked ? static_cast<int>(r.range(1, 5)) : static_cast<int>(r.range(1, 2));
    const auto name = r.chance(30) ? std::string{} : label(r);
    const auto phases = r.chance(25) ? num_clks::THREE : num_clks::FOUR;
    Lyt l{{w - 1, h - 1, layers - 1}, r.chance(50) ? open_clocking<Lyt>(phases) : r.chance(50) ? twoddwave_clocking<Lyt>(phases) : columnar_clocking<Lyt>(phases), name};
    struct cellinfo { qca_technology::cell_type t; int clk; bool vertical; std::string name; };
    std::map<std::array<int, 3>, cellinfo> cs, expected;
    int named = 0;
    for (auto k = r.range(1, w * h * layers); k > 0; --k)
    {
        const std::array<int, 3> p{static_cast<int>(r.below(static_cast<uint64_t>(w))), static_cast<int>(r.below(static_cast<uint64_t>(h))), static_cast<int>(r.below(static_cast<uint64_t>(layers)))};
        if (cs.contains(p)) continue;
        cellinfo c{};
        c.t = r.chance(70) ? qca_technology::cell_type::NORMAL : r.one_of({qca_technology::cell_type::CONST_0, qca_technology::cell_type::CONST_1, qca_technology::cell_type::INPUT, qca_technology::cell_type::OUTPUT});
        const cell<Lyt> x{p[0], p[1], p[2]};
        const auto io = qca_technology::is_input_cell(c.t) || qca_technology::is_output_cell(c.t);
        const auto konst = qca_technology::is_constant_cell(c.t);
        const auto n = !konst && (io ? r.chance(80) : r.chance(5));
        if (io || n) { if (named == 52) continue; ++named; }
        l.assign_cell_type(x, c.t);
        if (n) { c.name = label(r); l.assign_cell_name(x, c.name); }
        if (l.get_clocking_scheme().name == clock_name::OPEN || r.chance(5)) l.assign_clock_number(x, static_cast<typename Lyt::clock_number_t>(r.below(l.num_clocks())));
        if (via && r.chance(25)) { l.assign_cell_mode(x, qca_technology::cell_mode::VERTICAL); c.vertical = true; }
        c.clk = static_cast<int>(l.get_clock_number(x));
        cs[p] = c;
    }
    // the clock numbers belong to the position in the plane for this layout, so read them last
    std::string what = cat(kind, " ", w, "x", h, "x", layers, via ? " with vias" : "", ":");
    for (auto& [p, c] : cs)
    {
        c.clk = static_cast<int>(l.get_clock_number(cell<Lyt>{p[0], p[1], p[2]}));
        what += cat(" (", p[0], ",", p[1], ",", p[2], ")", static_cast<int>(c.t), "@", c.clk, c.vertical ? "v" : "", c.name.empty() ? "" : "[" + c.name + "]");
    }
    vm::note(what);
    for (const auto& [p, c] : cs)
    {
        expected[{p[0], p[1], via ? 2 * p[2] : p[2]}] = c;
        if (via && c.vertical && p[2] != layers - 1) expected[{p[0], p[1], 2 * p[2] + 1}] = {qca_technology::cell_type::NORMAL, c.clk, true, {}};
    }
    std::stringstream        s;
    write_fqca_layout_params ps{};
    ps.create_inter_layer_via_cells = via;
    write_fqca_layout(l, s, ps);
    const auto text = s.str();
    try
    {
        const auto padded = name + "behind";
        const auto q      = read_fqca_layout<Lyt>(s, std::string_view{padded}.substr(0, name.size()));
        vm::require(q.get_layout_name() == name, "fqca:name", [&] { return cat("[", name, "] became [", q.get_layout_name(), "]"); });
        vm::require(q.num_cells() == expected.size(), "fqca:number-of-cells", [&] { return cat(what, ": ", q.num_cells(), " cells instead of ", expected.size()); });
        int mx = 0, my = 0, mz = 0;
        for (const auto& [p, c] : expected)
        {
            const cell<Lyt> x{p[0], p[1], p[2]};
            mx = std::max(mx, p[0]), my = std::max(my, p[1]), mz = std::max(mz, p[2]);
            const auto info = [&] { return cat(what, ": cell (", p[0], ",", p[1], ",", p[2], ") read with type ", static_cast<int>(q.get_cell_type(x)), ", clock ", static_cast<int>(q.get_clock_number(x)), ", name [", q.get_cell_name(x), "]"); };
            vm::require(q.get_cell_type(x) == c.t, "fqca:type", info);
            vm::require(q.get_cell_name(x) == c.name, "fqca:label", info);
            // constants come without clocks, and what is in another layer above or below them defines the one of their position
            if (!qca_technology::is_constant_cell(c.t)) vm::require(static_cast<int>(q.get_clock_number(x)) == c.clk, "fqca:clock", info);
            const auto mode = q.get_cell_mode(x);
            vm::require(p[2] == 0 ? qca_technology::is_normal_cell_mode(mode) : p[2] % 2 == 0 ? qca_technology::is_crossover_cell_mode(mode) : qca_technology::is_vertical_cell_mode(mode), "fqca:mode", info);
        }
        vm::require(static_cast<int>(q.x()) == mx && static_cast<int>(q.y()) == my && static_cast<int>(q.z()) == mz, "fqca:size", [&] { return cat(what, ": size ", static_cast<int>(q.x()), "x", static_cast<int>(q.y()), "x", static_cast<int>(q.z())); });
        int pis = 0, pos = 0, epis = 0, epos = 0;
        q.foreach_pi([&](const auto&) { ++pis; });
        q.foreach_po([&](const auto&) { ++pos; });
        for (const auto& [p, c] : expected) epis += qca_technology::is_input_cell(c.t), epos += qca_technology::is_output_cell(c.t);
        vm::require(pis == epis && pos == epos, "fqca:inputs-and-outputs", what);
    }
    catch (const unsupported_character_exception& e) { vm::violate("fqca:refused", cat(what, ": character ", e.which())); }
    catch (const undefined_cell_label_exception& e) { vm::violate("fqca:refused", cat(what, ": label ", e.which())); }
    catch (const unrecognized_cell_definition_exception& e) { vm::violate("fqca:refused", cat(what, ": line ", e.where())); }
    vm::count("cells written and read", static_cast<long>(expected.size()));
    vm::distinct(what);
    vm::sample(what);
}
VM_SUITE(fqca_offset, 100, 1000) { fqca_round_trip<qca_cell_clk_lyt>(r, false, "offset"); }
VM_SUITE(fqca_stacked, 150, 1500) { fqca_round_trip<stacked_qca_cell_clk_lyt>(r, true, "stacked"); }
VM_SUITE(fqca_too_many_names, 10, 20)
{
    const auto       n = static_cast<int>(r.range(50, 56));
    qca_cell_clk_lyt l{{n, 0}, open_clocking<qca_cell_clk_lyt>()};
    for (auto i = 0; i < n; ++i) l.assign_cell_type({i, 0}, r.one_of({qca_technology::cell_type::INPUT, qca_technology::cell_type::OUTPUT}));
    bool refused = false;
    std::stringstream s;
    try { write_fqca_layout(l, s); } catch (const out_of_cell_names_exception&) { refused = true; }
    vm::require(refused == (n > 52), "fqca:too-many-names", cat(n, " inputs and outputs"));
    vm::distinct(n);
}
VM_SUITE(fqca_malformed, 200, 2000)
{
    qca_cell_clk_lyt l{{5, 5}, open_clocking<qca_cell_clk_lyt>()};
    for (auto k = r.range(1, 20); k > 0; --k) l.assign_cell_type({static_cast<int>(r.below(6)), static_cast<int>(r.below(6))}, qca_technology::cell_type::NORMAL);
    l.assign_cell_type({0, 0}, qca_technology::cell_type::INPUT);
    l.assign_cell_name({0, 0}, "in");
    std::stringstream s;
    write_fqca_layout(l, s);
    auto       text = s.str();
    const auto first = text.find("= "), dollar = text.find('$'), def = text.find("a:", dollar);
    const auto kind = r.below(4);
    std::string what;
    int expect = 0;
    char offender = 0;
    if (kind == 0)
    {
        // an unknown character in the place of a cell
        const auto row = text.find('\n', first) + 1;
        offender = r.one_of({'_', '#', '?', '*', '.', '"'});
        text[row + 2 * r.below(6)] = offender;
        what = cat("cell ", offender), expect = 1;
    }
    else if (kind == 1)
    {
        offender = r.one_of({'b', 'Z', 'q'});
        text[def] = offender;
        what = cat("label ", offender), expect = 2;
    }
    else if (kind == 2)
    {
        const auto line = r.one_of({std::string{"- nothing"}, std::string{"label = \"x\""}, std::string{"- clock = x"}, std::string{"- clock = 12"}, std::string{"ab:"}, std::string{"- number = 1x"}, std::string{"- offset = (1,2)"}, std::string{"input"}});
        text.insert(text.find('\n', def) + 1, line + "\n");
        what = "definition " + line, expect = 3;
    }
    else
    {
        // what is known but has no meaning here
        const auto line = r.one_of({std::string{"- propagate"}, std::string{"- number = 12"}, std::string{"- offset = (1,-2.5,.5)"}, std::string{"  -  input "}, std::string{"\t- clock = 2"}, std::string{" "}, std::string{""}});
        text.insert(text.find('\n', def) + 1, line + "\n");
        what = "definition " + line;
    }
    vm::note(what);
    int got = 0;
    std::stringstream in{text};
    try { const auto q = read_fqca_layout<qca_cell_clk_lyt>(in); vm::require(expect != 0 || q.num_cells() == l.num_cells(), "fqca:equivalent", what); }
    catch (const unsupported_character_exception& e) { got = 1; vm::require(e.which() == offender || expect != 1, "fqca:which", what); }
    catch (const undefined_cell_label_exception& e) { got = 2; vm::require(e.which() == offender || expect != 2, "fqca:which", what); }
    catch (const unrecognized_cell_definition_exception& e) { got = 3; const auto at = static_cast<uint64_t>(std::count(text.begin(), text.begin() + static_cast<long>(text.find('\n', def)) + 1, '\n')) + 1; vm::require(e.where() == at || expect != 3, "fqca:where", [&] { return cat(what, ": line ", e.where(), " instead of ", at); }); }
    catch (const std::exception& e) { vm::violate("fqca:exception", cat(what, ": ", e.what())); return; }
    vm::require(got == expect, "fqca:malformed", [&] { return cat(what, ": ", got, " instead of ", expect); });
    // any file at all is either read or refused
    text = s.str();
    for (auto k = r.range(1, 5); k > 0; --k)
    {
        const auto i = r.below(text.size());
        if (r.chance(50)) text[i] = static_cast<char>(r.below(128)); else if (r.chance(50)) text.erase(i, r.below(9)); else text.insert(i, text.substr(r.below(text.size()), r.below(30)));
    }
    vm::note(text);
    std::stringstream in2{text};
    try { const auto q = read_fqca_layout<stacked_qca_cell_clk_lyt>(in2); vm::count("mutated files read"); }
    catch (const unsupported_character_exception&) { vm::count("mutated files refused"); }
    catch (const undefined_cell_label_exception&) { vm::count("mutated files refused"); }
    catch (const unrecognized_cell_definition_exception&) { vm::count("mutated files refused"); }
    catch (const std::exception& e) { vm::violate("fqca:exception", cat(e.what(), " while reading ", text)); }
    vm::distinct(text);
}
// ---- defective surfaces
VM_SUITE(surfaces, 100, 1000)
{
    // the documented order of the indices
    static const std::vector<sidb_defect_type> index{sidb_defect_type::NONE, sidb_defect_type::DB, sidb_defect_type::SI_VACANCY, sidb_defect_type::DIHYDRIDE_PAIR, sidb_defect_type::SINGLE_DIHYDRIDE, sidb_defect_type::ONE_BY_ONE, sidb_defect_type::THREE_BY_ONE, sidb_defect_type::SILOXANE, sidb_defect_type::RAISED_SI, sidb_defect_type::ETCH_PIT, sidb_defect_type::MISSING_DIMER};
    const auto w = r.chance(10) ? static_cast<std::size_t>(r.range(5000, 60000)) : static_cast<std::size_t>(r.range(1, 40));
    const auto h = static_cast<std::size_t>(r.range(1, w > 100 ? 2 : 30));
    std::vector<std::vector<int>> m(h, std::vector<int>(w));
    for (auto& row : m) for (auto& x : row) x = r.chance(25) ? static_cast<int>(r.below(index.size())) : 0;
    const auto kind  = r.below(5);  // 0: fine, 1: an index too large, 2: a row too short, 3: cut off, 4: fine
    std::size_t by = 0;
    if (kind == 1) { by = r.below(h); m[by][r.below(w)] = static_cast<int>(r.one_of({11, 12, 99, 2147483647})); }
    if (kind == 2) { if (h < 2 || w < 2) return; by = static_cast<std::size_t>(r.range(1, static_cast<int64_t>(h) - 1)); m[by].resize(w - 1 - r.below(w - 1)); for (auto i = by + 1; i < h; ++i) m[i].resize(m[by].size()); }
    std::string text = r.chance(50) ? "[" : r.chance(50) ? "# surface\n[" : "";
    for (std::size_t y = 0; y < h; ++y)
    {
        text += (y ? " [" : "[");
        if (r.chance(20)) text += ' ';
        for (std::size_t x = 0; x < m[y].size(); ++x) text += (x ? (r.chance(5) ? "\n  " : r.chance(10) ? "  " : " ") : "") + std::to_string(m[y][x]);
        text += "]\n";
    }
    if (text[0] != ' ' && r.chance(50)) text += "]\n";
    if (kind == 1 && r.chance(30)) if (const auto i = text.find("2147483647"); i != std::string::npos) text.insert(i, "99");
    if (kind == 3) { const auto last = text.rfind('['); text.resize(last + 1 + r.below(text.size() - last - 1)); while (!text.empty() && (text.back() == ']' || text.back() == '\n')) text.pop_back(); m.pop_back(); }
    const auto what = cat(w, "x", h, " kind ", kind, " ", text.substr(0, 2000));
    vm::note(what);
    std::stringstream s{text};
    try
    {
        const auto q = read_sidb_surface_defects<sidb_100_cell_clk_lyt>(s, std::string_view{"name and more"}.substr(0, 4));
        if (kind == 1) { vm::violate("surface:index-accepted", what); return; }
        if (kind == 2) { vm::violate("surface:short-row-accepted", what); return; }
        vm::require(q.get_layout_name() == "name", "surface:name", q.get_layout_name());
        std::size_t k = 0, e = 0;
        q.foreach_sidb_defect([&](const auto&) { ++k; });
        for (std::size_t y = 0; y < m.size(); ++y)
            for (std::size_t x = 0; x < m[y].size(); ++x)
            {
                e += m[y][x] != 0;
                vm::require(q.get_sidb_defect({x, y}).type == index[static_cast<std::size_t>(m[y][x])], "surface:defect", [&] { return cat(what, ": (", x, ",", y, ")"); });
            }
        vm::require(k == e, "surface:number-of-defects", what);
        if (!m.empty()) vm::require(static_cast<std::size_t>(q.x()) == w - 1 && static_cast<std::size_t>(q.y()) == m.size() - 1, "surface:size", what);
        vm::count("defects read", static_cast<long>(e));
    }
    catch (const unsupported_defect_index_exception& e) { vm::require(kind == 1 && e.which() > 10, "surface:index", what); vm::count("malformed files refused"); }
    catch (const missing_sidb_position_exception& e) { vm::require(kind == 2 && e.where() == by, "surface:short-row", what); vm::count("malformed files refused"); }
    catch (const std::exception& e) { vm::violate("surface:exception", cat(e.what(), ": ", what)); }
    vm::distinct(what);
}
VM_SUITE(files, 10, 30)
{
    char dir[] = "/tmp/vm_cellio_XXXXXX";
    if (!mkdtemp(dir)) return;
    const std::string f = std::string{dir} + "/a";
    sidb_100_cell_clk_lyt_siqad l{{9, 9, 1}};
    qca_cell_clk_lyt            c{{9, 9}, open_clocking<qca_cell_clk_lyt>()};
    for (auto k = r.range(1, 9); k > 0; --k) { l.assign_cell_type({static_cast<int>(r.below(9)), static_cast<int>(r.below(9)), 0}, sidb_technology::cell_type::NORMAL); c.assign_cell_type({static_cast<int>(r.below(9)), static_cast<int>(r.below(9))}, qca_technology::cell_type::NORMAL); }
    write_sqd_layout(l, std::string_view{f});
    const auto a = read_sqd_layout<sidb_100_cell_clk_lyt_siqad>(std::string_view{f}, "n");
    vm::require(a.num_cells() == l.num_cells() && a.get_layout_name() == "n", "cellio:file", "sqd");
    write_fqca_layout(c, std::string_view{f});
    vm::require(read_fqca_layout<qca_cell_clk_lyt>(std::string_view{f}, "n").num_cells() == c.num_cells(), "cellio:file", "fqca");
    { std::ofstream o{f}; o << "[[0 1]\n [2 0]]"; }
    std::size_t k = 0;
    read_sidb_surface_defects<sidb_100_cell_clk_lyt>(std::string_view{f}).foreach_sidb_defect([&](const auto&) { ++k; });
    vm::require(k == 2, "cellio:file", "surface");
    std::filesystem::remove(f);
    const auto fails = [&](auto&& fn, const char* what) { bool refused = false; try { fn(); } catch (const std::ios_base::failure&) { refused = true; } vm::require(refused, "cellio:missing-file", what); };
    fails([&] { (void)read_sqd_layout<sidb_100_cell_clk_lyt_siqad>(std::string_view{f}); }, "sqd");
    fails([&] { (void)read_fqca_layout<qca_cell_clk_lyt>(std::string_view{f}); }, "fqca");
    fails([&] { (void)read_sidb_surface_defects<sidb_100_cell_clk_lyt>(std::string_view{f}); }, "surface");
    fails([&] { write_sqd_layout(l, std::string_view{f + "/x/y"}); }, "sqd");
    fails([&] { write_fqca_layout(c, std::string_view{f + "/x/y"}); }, "fqca");
    std::filesystem::remove(dir);
    vm::distinct(l.num_cells());
}
#endif
}  // namespace
VM_MAIN
