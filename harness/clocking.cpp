// Monitors clocking schemes and clocked layouts against the published clock patterns and a plain model of overriding.
#include "vm.hpp"

#include <fiction/layouts/cartesian_layout.hpp>
#include <fiction/layouts/clocked_layout.hpp>
#include <fiction/layouts/clocking_scheme.hpp>
#include <fiction/layouts/coordinates.hpp>
#include <fiction/layouts/hexagonal_layout.hpp>
#include <fiction/layouts/shifted_cartesian_layout.hpp>
#include <fiction/layouts/synchronization_element_layout.hpp>
#include <fiction/layouts/tile_based_layout.hpp>

#include <algorithm>
#include <map>
#include <optional>

using namespace fiction;

namespace
{
using off   = offset::ucoord_t;
using cartl = clocked_layout<tile_based_layout<cartesian_layout<off>>>;
template <typename A>
using hexl = clocked_layout<tile_based_layout<hexagonal_layout<off, A>>>;
using shiftl = clocked_layout<tile_based_layout<shifted_cartesian_layout<off, odd_column_cartesian>>>;

struct spec
{
    std::string      name;    // under which the scheme is looked up
    std::string      proper;  // its own name
    int              clocks;
    int              in, out;
    bool             regular, linear;
    std::function<int(int64_t, int64_t)> f;
};
std::function<int(int64_t, int64_t)> pattern(std::vector<std::string> rows)
{
    return [rows](int64_t x, int64_t y) { const auto& s = rows[static_cast<std::size_t>(y) % rows.size()]; return s[static_cast<std::size_t>(x) % s.size()] - '0'; };
}
enum hexkind { none, orow, erow, ocol, ecol };
// the schemes as published
std::vector<spec> specs(int fanin, hexkind h)
{
    std::vector<spec> v;
    const auto        both = [&](const std::string& n, int in, int out, bool reg, bool lin, auto mkf)
    {
        for (const auto& [suffix, k] : std::vector<std::pair<std::string, int>>{{"", 4}, {"3", 3}, {"4", 4}}) v.push_back({n + suffix, n, k, std::min(in, fanin), out, reg, lin, mkf(k)});
    };
    v.reserve(32);
    for (const auto& [suffix, k] : std::vector<std::pair<std::string, int>>{{"", 4}, {"3", 3}, {"4", 4}}) v.push_back({"OPEN" + suffix, "OPEN", k, fanin, fanin, false, false, [](int64_t, int64_t) { return 0; }});
    both("COLUMNAR", 3, 2, true, true, [](int k) { return [k](int64_t x, int64_t) { return static_cast<int>(x % k); }; });
    both("ROW", 3, 2, true, true, [](int k) { return [k](int64_t, int64_t y) { return static_cast<int>(y % k); }; });
    both("2DDWAVE", 2, 2, true, true, [](int k) { return [k](int64_t x, int64_t y) { return static_cast<int>((x + y) % k); }; });
    // diagonal wave over hexagons: the number grows by one towards the east (south) and towards both following diagonals
    const auto hex = [h](int k)
    {
        return [k, h](int64_t x, int64_t y)
        {
            switch (h)
            {
                case orow: return static_cast<int>((x + (y + 1) / 2) % k);
                case erow: return static_cast<int>((x + y / 2) % k);
                case ocol: return static_cast<int>((y + (x + 1) / 2) % k);
                case ecol: return static_cast<int>((y + x / 2) % k);
                default: return static_cast<int>((x + y) % k);
            }
        };
    };
    for (const auto& [suffix, k] : std::vector<std::pair<std::string, int>>{{"", 4}, {"3", 3}, {"4", 4}}) v.push_back({"2DDWAVEHEX" + suffix, h == none ? "2DDWAVE" : "2DDWAVEHEX", k, std::min(2, fanin), 2, true, true, hex(k)});
    v.push_back({"USE", "USE", 4, std::min(2, fanin), 2, true, false, pattern({"0123", "3210", "2301", "1032"})});
    v.push_back({"RES", "RES", 4, std::min(3, fanin), 3, true, false, pattern({"3012", "0103", "1230", "0321"})});
    v.push_back({"ESR", "ESR", 4, std::min(3, fanin), 3, true, false, pattern({"3012", "0123", "1230", "0321"})});
    v.push_back({"CFE", "CFE", 4, std::min(3, fanin), 3, true, false, pattern({"01", "32"})});
    v.push_back({"RIPPLE", "RIPPLE", 4, std::min(3, fanin), 3, true, false, pattern({"0123", "3210"})});
    v.push_back({"SRS", "SRS", 4, std::min(3, fanin), 3, true, false, pattern({"1032", "2301", "3230", "0121"})});
    v.push_back({"BANCS", "BANCS", 3, std::min(2, fanin), 2, true, false, pattern({"012", "210", "201", "102", "120", "021"})});
    return v;
}
std::string mixed_case(vm::rng& r, std::string s)
{
    for (auto& c : s)
        if (r.chance(50)) c = static_cast<char>(std::tolower(c));
    return s;
}
template <typename Lyt>
void lookup(vm::rng& r, hexkind h, const char* type)
{
    for (const auto& s : specs(static_cast<int>(Lyt::max_fanin_size), h))
    {
        const auto  name = mixed_case(r, s.name);
        const auto  c    = get_clocking_scheme<Lyt>(name);
        const auto  what = vm::cat(type, " ", name);
        vm::note(what);
        if (!vm::require(c.has_value(), "clocking:unknown-name", what)) continue;
        vm::require(*c == s.proper && c->name == s.proper && !(*c == s.proper + "x"), "clocking:name", [&] { return vm::cat(what, " is ", c->name); });
        vm::require(c->num_clocks == s.clocks, "clocking:num-clocks", [&] { return vm::cat(what, " has ", +c->num_clocks, " clocks instead of ", s.clocks); });
        vm::require(c->max_in_degree == s.in && c->max_out_degree == s.out, "clocking:degrees", [&] { return vm::cat(what, " degrees ", +c->max_in_degree, "/", +c->max_out_degree); });
        vm::require(c->is_regular() == s.regular, "clocking:regular", what);
        vm::require(is_linear_scheme<Lyt>(*c) == s.linear, "clocking:linear", what);
        for (int i = 0; i < 60; ++i)
        {
            const int64_t lim = r.one_of<int64_t>({4, 25, 1000, (1ll << 31) - 1});
            const int64_t x = r.range(0, lim), y = r.range(0, lim), z = r.range(0, 1);
            const auto    got = (*c)(off{x, y, z});
            vm::require(got == s.f(x, y), "clocking:pattern", [&] { return vm::cat(what, " at ", x, ",", y, ",", z, " is ", +got, " instead of ", s.f(x, y)); });
            vm::count("clock numbers checked");
        }
        // overriding makes a scheme irregular, and only changes the zones named; copies are independent
        auto                    d = *c;
        std::map<std::pair<int64_t, int64_t>, int> ov;
        const auto              n = r.range(1, 12);
        for (int i = 0; i < n; ++i)
        {
            const int64_t x = r.range(0, 3), y = r.range(0, 3);
            const int     k = static_cast<int>(r.range(0, 255));
            d.override_clock_number(off{x, y}, static_cast<uint8_t>(k));
            ov[{x, y}] = k % s.clocks;
        }
        vm::require(!d.is_regular() && c->is_regular() == s.regular, "clocking:override-irregular", what);
        for (int64_t y = 0; y < 5; ++y)
            for (int64_t x = 0; x < 5; ++x)
            {
                const auto it = ov.find({x, y});
                vm::require(d(off{x, y}) == (it == ov.end() ? s.f(x, y) : it->second), "clocking:override", [&] { return vm::cat(what, " overridden at ", x, ",", y); });
                vm::require((*c)(off{x, y}) == s.f(x, y), "clocking:copy-independent", what);
            }
        vm::distinct(what + vm::cat(n, ov.size()));
    }
    for (const auto* n : {"", "US", "USEE", "2DDWAVE5", "OPEN ", "ROW2", "COLUMNAR34", "3"}) vm::require(!get_clocking_scheme<Lyt>(n).has_value(), "clocking:invented-name", [&] { return vm::cat(type, " knows ", n); });
}
// direct calls with a number of clocks
template <typename Lyt>
void factories(hexkind h, const char* type)
{
    const auto all = specs(static_cast<int>(Lyt::max_fanin_size), h);
    const auto cmp = [&](const auto& c, const std::string& n)
    {
        const auto& s = *std::find_if(all.begin(), all.end(), [&](const auto& x) { return x.name == n; });
        vm::require(c.name == s.proper && c.num_clocks == s.clocks && c.max_in_degree == s.in && c.max_out_degree == s.out && c.is_regular() == s.regular, "clocking:factory", [&] { return vm::cat(type, " ", n, ": ", c.name, " with ", +c.num_clocks, " clocks"); });
        for (int64_t y = 0; y < 13; ++y)
            for (int64_t x = 0; x < 13; ++x) vm::require(c(off{x, y}) == s.f(x, y), "clocking:factory-pattern", [&] { return vm::cat(type, " ", n, " at ", x, ",", y); });
        vm::distinct(vm::cat(type, n));
    };
    cmp(open_clocking<Lyt>(), "OPEN");
    cmp(open_clocking<Lyt>(num_clks::THREE), "OPEN3");
    cmp(columnar_clocking<Lyt>(), "COLUMNAR");
    cmp(columnar_clocking<Lyt>(num_clks::THREE), "COLUMNAR3");
    cmp(row_clocking<Lyt>(), "ROW");
    cmp(row_clocking<Lyt>(num_clks::THREE), "ROW3");
    cmp(twoddwave_clocking<Lyt>(), "2DDWAVE");
    cmp(twoddwave_clocking<Lyt>(num_clks::THREE), "2DDWAVE3");
    cmp(twoddwave_hex_clocking<Lyt>(), "2DDWAVEHEX");
    cmp(twoddwave_hex_clocking<Lyt>(num_clks::THREE), "2DDWAVEHEX3");
    cmp(use_clocking<Lyt>(), "USE");
    cmp(res_clocking<Lyt>(), "RES");
    cmp(esr_clocking<Lyt>(), "ESR");
    cmp(cfe_clocking<Lyt>(), "CFE");
    cmp(ripple_clocking<Lyt>(), "RIPPLE");
    cmp(srs_clocking<Lyt>(), "SRS");
    cmp(bancs_clocking<Lyt>(), "BANCS");
    cmp(*ptr<Lyt>(use_clocking<Lyt>()), "USE");
}
template <typename C>
std::set<C> as_set(const std::vector<C>& v) { return {v.begin(), v.end()}; }
// a clocked layout follows its scheme and its overrides; zones are incoming/outgoing by consecutive clock numbers
template <typename Lyt, bool SE>
void layout(vm::rng& r, hexkind h, const char* type)
{
    const auto all  = specs(static_cast<int>(Lyt::max_fanin_size), h);
    const auto& s   = all[r.below(all.size())];
    const int64_t w = r.range(0, 7), hh = r.range(0, 7), z = r.range(0, 1);
    const auto what = vm::cat(type, " ", s.name, " ", w, "x", hh, "x", z);
    vm::note(what);
    Lyt l = [&]
    {
        const off ar{w, hh, z};
        if (r.chance(50)) return Lyt{ar, *get_clocking_scheme<Lyt>(s.name)};
        Lyt t{ar};
        vm::require(t.is_clocking_scheme(clock_name::OPEN) && !t.is_regularly_clocked() && t.num_clocks() == 4 && t.get_clock_number(off{0, 0}) == 0, "clocking:default-open", what);
        t.replace_clocking_scheme(*get_clocking_scheme<Lyt>(s.name));
        return t;
    }();
    vm::require(l.num_clocks() == s.clocks && l.is_regularly_clocked() == s.regular && l.is_clocking_scheme(s.proper) && l.get_clocking_scheme() == s.proper, "clocking:layout-scheme", what);
    struct model
    {
        std::map<off, int> ov;
        std::map<off, int> se;
    };
    model      m;
    const auto num   = [&](const model& mm, const off& c) { const auto it = mm.ov.find(c); return it == mm.ov.end() ? s.f(c.x, c.y) : it->second; };
    const auto check = [&](const Lyt& lyt, const model& mm, const char* when)
    {
        lyt.foreach_coordinate(
            [&](const off& c)
            {
                const auto d = [&] { return vm::cat(what, " ", when, " at ", static_cast<uint64_t>(c.x), ",", static_cast<uint64_t>(c.y), ",", static_cast<uint64_t>(c.z)); };
                vm::require(lyt.get_clock_number(c) == num(mm, c), "clocking:layout-number", d);
                std::set<off> in, out;
                bool          anyse = false;
                for (const auto& a : lyt.adjacent_coordinates(c))
                {
                    bool i = (num(mm, a) + 1) % s.clocks == num(mm, c), o = (num(mm, c) + 1) % s.clocks == num(mm, a);
                    if constexpr (SE)
                    {
                        if (mm.se.contains(a) || mm.se.contains(c)) i = o = anyse = true;
                    }
                    if (i) in.insert(a);
                    if (o) out.insert(a);
                    vm::require(lyt.is_incoming_clocked(c, a) == i && lyt.is_outgoing_clocked(c, a) == o && lyt.is_incoming_clocked(a, c) == o && lyt.is_outgoing_clocked(a, c) == i, "clocking:direction", d);
                }
                vm::require(!lyt.is_incoming_clocked(c, c) && !lyt.is_outgoing_clocked(c, c), "clocking:self", d);
                const auto iv = lyt.incoming_clocked_zones(c);
                const auto ov = lyt.outgoing_clocked_zones(c);
                vm::require(as_set(iv) == in && iv.size() == in.size(), "clocking:incoming", d);
                vm::require(as_set(ov) == out && ov.size() == out.size(), "clocking:outgoing", d);
                vm::require(lyt.in_degree(c) == in.size() && lyt.out_degree(c) == out.size(), "clocking:degree", d);
                if (!anyse) vm::require(lyt.degree(c) == in.size() + out.size(), "clocking:total-degree", d);
                if constexpr (SE)
                {
                    const auto it = mm.se.find(c);
                    vm::require(lyt.is_synchronization_element(c) == (it != mm.se.end()) && lyt.get_synchronization_element(c) == (it == mm.se.end() ? 0 : it->second), "clocking:sync-element", d);
                }
                vm::count("zones checked");
            });
        if constexpr (SE) vm::require(lyt.num_se() == mm.se.size(), "clocking:num-se", what);
        vm::require(lyt.is_regularly_clocked() == (s.regular && mm.ov.empty()), "clocking:regularity", what);
    };
    check(l, m, "fresh");
    const auto edit = [&](Lyt& lyt, model& mm)
    {
        const off c{r.range(0, w), r.range(0, hh), r.range(0, z)};
        if (SE && r.chance(50))
        {
            if constexpr (SE)
            {
                const auto k = r.chance(30) ? 0 : r.range(1, 255);
                lyt.assign_synchronization_element(c, static_cast<uint8_t>(k));
                if (k == 0) mm.se.erase(c); else mm.se[c] = static_cast<int>(k);
            }
        }
        else
        {
            const auto k = r.range(0, 255);
            lyt.assign_clock_number(c, static_cast<uint8_t>(k));
            mm.ov[c] = static_cast<int>(k) % s.clocks;
        }
    };
    for (int i = 0; i < 5; ++i) edit(l, m);
    check(l, m, "edited");
    // a clone goes its own way, whichever of the two is edited
    auto  c  = l.clone();
    model mc = m;
    check(c, mc, "clone");
    edit(c, mc);
    edit(c, mc);
    check(l, m, "original after its clone was edited");
    edit(l, m);
    check(c, mc, "clone after the original was edited");
    check(l, m, "original");
    // copies are handles to the same layout
    auto copy = l;
    edit(copy, m);
    check(l, m, "through a copy");
    // replacing the scheme drops overrides
    const auto back = *get_clocking_scheme<Lyt>(s.name);
    c.replace_clocking_scheme(back);
    mc.ov.clear();
    check(c, mc, "scheme replaced");
    check(l, m, "original after its clone's scheme was replaced");
    vm::distinct(what + vm::cat(m.ov.size(), m.se.size()));
    vm::sample(what);
}
template <typename Lyt>
using se = synchronization_element_layout<Lyt>;
}  // namespace

VM_SUITE(schemes, 40, 1500)
{
    lookup<cartl>(r, none, "cartesian");
    lookup<hexl<odd_row_hex>>(r, orow, "odd row");
    lookup<hexl<even_row_hex>>(r, erow, "even row");
    lookup<hexl<odd_column_hex>>(r, ocol, "odd column");
    lookup<hexl<even_column_hex>>(r, ecol, "even column");
}
VM_SUITE(scheme_factories, 1, 1)
{
    factories<cartl>(none, "cartesian");
    factories<hexl<odd_row_hex>>(orow, "odd row");
    factories<hexl<even_row_hex>>(erow, "even row");
    factories<hexl<odd_column_hex>>(ocol, "odd column");
    factories<hexl<even_column_hex>>(ecol, "even column");
}
VM_SUITE(clocked_layouts, 60, 3000)
{
    layout<cartl, false>(r, none, "cartesian");
    layout<hexl<odd_row_hex>, false>(r, orow, "odd row");
    layout<hexl<even_column_hex>, false>(r, ecol, "even column");
}
VM_SUITE(synchronization_elements, 60, 3000)
{
    layout<se<cartl>, true>(r, none, "cartesian+se");
    layout<se<hexl<even_row_hex>>, true>(r, erow, "even row+se");
}
VM_MAIN
