// Monitors the files that report results: one row or entry per result, holding exactly what the result object says.
#include "sidb_model.hpp"

#include <fiction/algorithms/simulation/sidb/defect_influence.hpp>
#include <fiction/algorithms/simulation/sidb/operational_domain.hpp>
#include <fiction/algorithms/simulation/sidb/sidb_simulation_result.hpp>
#include <fiction/io/write_defect_influence_domain.hpp>
#include <fiction/io/write_location_and_ground_state.hpp>
#include <fiction/io/write_operational_domain.hpp>
#include <fiction/io/write_sqd_sim_result.hpp>

#include <tinyxml2.h>

#include <filesystem>
#include <iterator>
#include <sstream>
#include <unistd.h>

using namespace fiction;

namespace
{
using vm::cat;
std::vector<std::string> split(const std::string& s, const char sep)
{
    std::vector<std::string> v{""};
    for (const auto c : s)
        if (c == sep) v.emplace_back();
        else v.back() += c;
    return v;
}
std::vector<std::vector<std::string>> table(const std::string& text, const char sep = ',')
{
    std::vector<std::vector<std::string>> t;
    for (auto& l : split(text, '\n')) t.push_back(split(l, sep));
    if (t.empty() || t.back() != std::vector<std::string>{""}) return {{"the last line is not terminated"}};
    t.pop_back();
    return t;
}
std::string show(double x) { std::ostringstream s; s << x; return s.str(); }

// the directory is removed again
struct scratch
{
    std::filesystem::path dir;
    scratch() : dir{std::filesystem::temp_directory_path() / cat("vp_results_", ::getpid())} { std::filesystem::create_directories(dir); }
    ~scratch() { std::error_code e; std::filesystem::remove_all(dir, e); }
};
std::string slurp(const std::filesystem::path& p) { std::ifstream f{p}; return {std::istreambuf_iterator<char>{f}, {}}; }

template <typename Domain>
void domain_files(vm::rng& r)
{
    constexpr auto    temp = std::is_same_v<Domain, critical_temperature_domain>;
    Domain            d;
    const auto        dims = r.chance(8) ? r.one_of<std::size_t>({0, 4}) : static_cast<std::size_t>(r.range(1, 3));
    std::vector<std::string> head;
    for (std::size_t i = 0; i < dims; ++i)
    {
        const auto p = r.one_of({sweep_parameter::EPSILON_R, sweep_parameter::LAMBDA_TF, sweep_parameter::MU_MINUS});
        d.add_dimension(p);
        head.push_back(p == sweep_parameter::EPSILON_R ? "epsilon_r" : p == sweep_parameter::LAMBDA_TF ? "lambda_tf" : "mu_minus");
    }
    head.emplace_back("operational status");
    if (temp) head.emplace_back("critical temperature");
    write_operational_domain_params ps{};
    static const std::string_view tags[] = {"1", "0", "operational", "non-operational", "x y", ""};
    const bool                    own    = r.chance(60);
    if (own) ps.operational_tag = tags[r.below(6)], ps.non_operational_tag = tags[r.below(6)];
    const bool only = r.chance(40);
    if (only) ps.writing_mode = write_operational_domain_params::sample_writing_mode::OPERATIONAL_ONLY;
    std::map<std::vector<double>, std::pair<bool, double>> model;
    for (auto k = r.range(0, 60); k > 0; --k)
    {
        std::vector<double> p;
        for (std::size_t i = 0; i < dims; ++i) p.push_back(r.chance(50) ? static_cast<double>(r.range(-200, 200)) / 100.0 : r.real(-1, 20));
        // different points do not share their printed form
        for (auto& x : p) x = std::stod(show(x));
        if (model.contains(p)) continue;
        const std::pair<bool, double> v{r.chance(50), r.chance(30) ? static_cast<double>(r.range(0, 400)) : r.real(0, 400)};
        model[p] = v;
        const auto st = v.first ? operational_status::OPERATIONAL : operational_status::NON_OPERATIONAL;
        if constexpr (temp) d.add_value(parameter_point{p}, std::tuple{st, v.second});
        else d.add_value(parameter_point{p}, std::tuple{st});
    }
    const auto what = cat(temp ? "critical temperature" : "operational", " domain of ", dims, " dimensions, ", model.size(), " points, tags ", std::string{ps.operational_tag}, "/", std::string{ps.non_operational_tag}, only ? ", operational only" : "");
    vm::note(what);
    std::ostringstream s;
    try
    {
        write_operational_domain(d, s, ps);
    }
    catch (const std::invalid_argument&)
    {
        vm::require(dims == 0 || dims > 3, "domain:refused", what);
        vm::require(s.str().empty(), "domain:refused-after-writing", what);
        vm::count("refused domains");
        return;
    }
    vm::require(dims > 0 && dims < 4, "domain:dimensions-accepted", what);
    auto got = table(s.str());
    vm::require(!got.empty() && got[0] == head, "domain:header", [&] { return what + ": " + s.str().substr(0, 200); });
    std::multiset<std::vector<std::string>> want, have;
    for (const auto& [p, v] : model)
    {
        if (only && !v.first) continue;
        std::vector<std::string> l;
        for (const auto x : p) l.push_back(show(x));
        l.emplace_back(v.first ? ps.operational_tag : ps.non_operational_tag);
        if (temp) l.push_back(show(v.second));
        want.insert(l);
    }
    for (std::size_t i = 1; i < got.size(); ++i) have.insert(got[i]);
    vm::require(have == want, "domain:rows", [&] {
        std::string t = cat(what, ": ", have.size(), " rows instead of ", want.size(), ", e.g.");
        for (const auto& x : have) if (!want.contains(x)) { { t += " has"; for (const auto& y : x) t += " " + y; }; break; }
        for (const auto& x : want) if (!have.contains(x)) { { t += " lacks"; for (const auto& y : x) t += " " + y; }; break; }
        return t; });
    if (r.chance(5))
    {
        const scratch    dir;
        const auto       f = (dir.dir / "domain.csv").string();
        write_operational_domain(d, std::string_view{f}, ps);
        vm::require(slurp(f) == s.str(), "domain:file", what);
        bool refused = false;
        try { const auto g = (dir.dir / "none" / "domain.csv").string(); write_operational_domain(d, std::string_view{g}, ps); }
        catch (const std::ofstream::failure&) { refused = true; }
        vm::require(refused, "domain:unopenable", what);
        vm::count("files");
    }
    vm::count("domain points written", static_cast<long>(want.size()));
    vm::distinct(what);
}
template <typename Lyt>
void influence_files(vm::rng& r)
{
    defect_influence_domain<Lyt> d;
    write_defect_influence_domain_params ps{};
    if (r.chance(60)) ps.influential_tag = "1", ps.non_influential_tag = "0";
    std::map<std::pair<int, int>, bool> model;
    for (auto k = r.range(0, 50); k > 0; --k)
    {
        const std::pair<int, int> p{static_cast<int>(r.range(has_offset_ucoord_v<Lyt> ? 0 : -30, 30)), static_cast<int>(r.range(has_offset_ucoord_v<Lyt> ? 0 : -30, 30))};
        if (model.contains(p)) continue;
        model[p] = r.chance(50);
        d.add_value(cell<Lyt>{p.first, p.second}, std::tuple{model[p] ? defect_influence_status::INFLUENTIAL : defect_influence_status::NON_INFLUENTIAL});
    }
    const auto what = cat("defect influence domain of ", model.size(), " positions");
    std::ostringstream s;
    write_defect_influence_domain(d, s, ps);
    const auto got = table(s.str());
    vm::require(!got.empty() && got[0] == std::vector<std::string>{"x", "y", "operational status"}, "influence:header", what);
    std::multiset<std::vector<std::string>> want, have;
    for (const auto& [p, v] : model) want.insert({std::to_string(p.first), std::to_string(p.second), std::string{v ? ps.influential_tag : ps.non_influential_tag}});
    for (std::size_t i = 1; i < got.size(); ++i) have.insert(got[i]);
    vm::require(have == want, "influence:rows", [&] { return cat(what, ": ", have.size(), " rows:\n", s.str()); });
    if (r.chance(5))
    {
        const scratch dir;
        const auto    f = (dir.dir / "influence.csv").string();
        write_defect_influence_domain(d, std::string_view{f}, ps);
        vm::require(slurp(f) == s.str(), "influence:file", what);
        vm::count("files");
    }
    vm::count("positions written", static_cast<long>(want.size()));
    vm::distinct(vm::mix(r()));
}
// a result of a few charge configurations of random dots; the energies are those of an independent model
template <typename Lyt>
struct outcome
{
    sidb_simulation_result<Lyt>   res{};
    sm::world                     w;
    std::vector<std::vector<int>> q;
    std::string                   what;
    outcome(vm::rng& r, const bool empty)
    {
        w = sm::random_world<Lyt>(r, 9, false);
        Lyt l{};
        for (const auto& s : w.sites) l.assign_cell_type(sm::cell_of<Lyt>(s), sidb_technology::cell_type::NORMAL);
        what = w.str();
        res.simulation_parameters = sm::params_of(w.p);
        for (auto k = r.range(empty ? 0 : 1, 7); k > 0; --k)
        {
            if (!q.empty() && r.chance(20)) q.push_back(q[r.below(q.size())]);
            else
            {
                std::vector<int> c;
                for (std::size_t i = 0; i < w.sites.size(); ++i) c.push_back(static_cast<int>(r.range(-1, w.p.base == 3 ? 1 : 0)));
                q.push_back(c);
            }
            charge_distribution_surface<Lyt> cds{l, sm::params_of(w.p)};
            for (std::size_t i = 0; i < w.sites.size(); ++i) cds.assign_charge_state(sm::cell_of<Lyt>(w.sites[i]), sm::state(q.back()[i]), charge_index_mode::KEEP_CHARGE_INDEX);
            cds.update_after_charge_change();
            res.charge_distributions.push_back(cds);
            what += " " + sm::str(q.back());
        }
    }
    [[nodiscard]] std::pair<double, double> at(const sm::site& s) const  // nm
    {
        const double A = w.o111 ? 0.665 : 0.384, B = w.o111 ? 0.384 : 0.768, cx = w.o111 ? 0.33255 : 0.0, cy = w.o111 ? 0.192 : 0.225;
        return {A * static_cast<double>(s.n) + cx * static_cast<double>(s.l), B * static_cast<double>(s.m) + cy * static_cast<double>(s.l)};
    }
};
template <typename Lyt>
void locations(vm::rng& r)
{
    outcome<Lyt> o{r, true};
    vm::note(o.what);
    std::ostringstream s;
    write_location_and_ground_state(o.res, s);
    if (o.q.empty()) { vm::require(s.str().empty(), "locations:nothing", s.str()); vm::count("empty results"); return; }
    double low = std::numeric_limits<double>::infinity();
    std::vector<double> e;
    for (const auto& q : o.q) { e.push_back(o.w.energy(q)); low = std::min(low, e.back()); }
    std::vector<std::size_t> ground;
    for (std::size_t i = 0; i < e.size(); ++i)
    {
        if (e[i] - low < 0.4e-6) ground.push_back(i);
        else if (e[i] - low < 2e-6) { vm::count("energies too close to tell"); return; }
    }
    const auto got = table(s.str(), ';');
    const auto d   = [&] { return o.what + "\n" + s.str(); };
    std::vector<std::string> head{"x [nm]", " y [nm]"};
    for (std::size_t i = 0; i < ground.size(); ++i) head.push_back(cat("GS_", i));
    head.emplace_back();
    if (!vm::require(got.size() == o.w.sites.size() + 1 && got[0] == head, "locations:size", d)) return;
    std::multiset<std::vector<std::string>> want, have(got.begin() + 1, got.end());
    std::vector<std::vector<double>>        columns;
    for (std::size_t i = 0; i < o.w.sites.size(); ++i)
    {
        const auto [x, y] = o.at(o.w.sites[i]);
        bool found = false;
        for (auto it = have.begin(); it != have.end(); ++it)
        {
            if (it->size() != ground.size() + 3) continue;
            try { if (std::abs(std::stod((*it)[0]) - x) > 0.00051 || std::abs(std::stod((*it)[1]) - y) > 0.00051) continue; } catch (...) { vm::violate("locations:number", d()); return; }
            std::string signs, expect;
            for (std::size_t k = 0; k < ground.size(); ++k) { signs += (*it)[k + 2] + ";"; expect += std::string{o.q[ground[k]][i] < 0 ? "-1" : o.q[ground[k]][i] > 0 ? "1" : "0"} + ";"; }
            const auto plain = [](std::string t) { std::string u; for (std::size_t k = 0; k < t.size(); ++k) { if (t[k] == '1' && k > 0 && t[k - 1] == '-') continue; u += t[k] == '1' ? '+' : t[k]; } return u; };
            vm::require(plain(signs) == plain(expect), "locations:states", [&] { return cat("dot ", i, " has ", signs, " instead of ", expect, ": ", d()); });
            have.erase(it);
            found = true;
            break;
        }
        vm::require(found, "locations:position", [&] { return cat("dot ", i, " at ", x, ",", y, ": ", d()); });
    }
    vm::count("dots located", static_cast<long>(o.w.sites.size()));
    vm::count("ground states", static_cast<long>(ground.size()));
    if (r.chance(3))
    {
        const scratch dir;
        const auto    f = (dir.dir / "locations.csv").string();
        write_location_and_ground_state(o.res, std::string_view{f});
        vm::require(slurp(f) == s.str(), "locations:file", o.what);
        vm::count("files");
    }
    vm::distinct(o.what);
}
using E = tinyxml2::XMLElement;
std::string text(const E* e, const char* n) { const auto* c = e ? e->FirstChildElement(n) : nullptr; return c && c->GetText() ? c->GetText() : ""; }
template <typename Lyt>
void sim_out(vm::rng& r)
{
    outcome<Lyt> o{r, true};
    o.res.algorithm_name     = r.one_of<std::string>({"QuickExact", "QuickSim", "ExGS"});
    o.res.simulation_runtime = std::chrono::duration<double>{static_cast<double>(r.range(0, 1000)) / 8};
    std::map<std::string, std::string> extra;
    static const char* const           names[] = {"iteration_steps", "alpha", "global_potential", "engine_x", "flag"};
    for (auto k = r.range(0, 4); k > 0; --k)
    {
        const std::string n = names[r.below(5)];
        switch (r.below(6))
        {
            case 0: { const auto v = static_cast<uint64_t>(r()); o.res.additional_simulation_parameters[n] = v; extra[n] = std::to_string(v); break; }
            case 1: { const auto v = r.real(-5, 5); o.res.additional_simulation_parameters[n] = v; extra[n] = std::to_string(v); break; }
            case 2: { const auto v = static_cast<int8_t>(r.range(-100, 100)); o.res.additional_simulation_parameters[n] = v; extra[n] = std::to_string(v); break; }
            case 3: { const std::string v = cat("v", r.below(100)); o.res.additional_simulation_parameters[n] = v; extra[n] = v; break; }
            case 4: { const auto v = static_cast<int64_t>(r()); o.res.additional_simulation_parameters[n] = v; extra[n] = std::to_string(v); break; }
            default: o.res.additional_simulation_parameters[n] = std::any{}; extra.erase(n); break;
        }
    }
    vm::note(o.what);
    std::ostringstream s;
    const auto         before = std::time(nullptr);
    write_sqd_sim_result(o.res, s);
    const auto after = std::time(nullptr);
    const auto t = s.str();
    const auto d = [&] { return o.what + "\n" + t.substr(0, 3000); };
    tinyxml2::XMLDocument doc;
    if (doc.Parse(t.c_str()) != tinyxml2::XML_SUCCESS) { vm::violate("sim:xml", d()); return; }
    const auto* root = doc.FirstChildElement("sim_out");
    if (!vm::require(root != nullptr, "sim:root", d)) return;
    const auto* info = root->FirstChildElement("eng_info");
    vm::require(text(info, "engine") == o.res.algorithm_name && text(info, "return_code") == "0", "sim:engine", d);
    vm::require(text(info, "time_elapsed_s") == fmt::format("{}", o.res.simulation_runtime.count()), "sim:runtime", d);
    bool stamp = false;
    for (auto k = before; k <= after; ++k) { std::tm m{}; localtime_r(&k, &m); char b[32]; std::strftime(b, sizeof b, "%Y-%m-%d %H:%M:%S", &m); stamp = stamp || text(info, "timestamp") == b; }
    vm::require(stamp, "sim:timestamp", d);
    const auto* ps = root->FirstChildElement("sim_params");
    const auto  num = [&](const char* n) { try { return std::stod(text(ps, n)); } catch (...) { return std::nan(""); } };
    vm::require(num("debye_length") == o.w.p.lambda && num("eps_r") == o.w.p.eps && num("muzm") == o.w.p.mu, "sim:parameters", d);
    std::size_t n = 0;
    for (const auto* e = ps ? ps->FirstChildElement() : nullptr; e; e = e->NextSiblingElement()) ++n;
    vm::require(n == 3 + extra.size(), "sim:parameter-count", [&] { return cat(n, " parameters instead of ", 3 + extra.size(), ": ", d()); });
    for (const auto& [k, v] : extra) vm::require(text(ps, k.c_str()) == v, "sim:additional", [&] { return cat(k, "=", text(ps, k.c_str()), " instead of ", v, ": ", d()); });
    // positions, in Angstrom
    std::vector<std::size_t> order;  // which dot is listed at which position
    for (const auto* e = root->FirstChildElement("physloc") ? root->FirstChildElement("physloc")->FirstChildElement("dbdot") : nullptr; e; e = e->NextSiblingElement("dbdot"))
    {
        const auto x = std::stod(e->Attribute("x")), y = std::stod(e->Attribute("y"));
        std::size_t k = 0;
        for (; k < o.w.sites.size(); ++k) { const auto [px, py] = o.at(o.w.sites[k]); if (std::abs(px * 10 - x) < 2e-6 && std::abs(py * 10 - y) < 2e-6) break; }
        if (!vm::require(k < o.w.sites.size() && std::find(order.begin(), order.end(), k) == order.end(), "sim:position", [&] { return cat("dot at ", x, ",", y, ": ", d()); })) return;
        order.push_back(k);
    }
    vm::require(order.size() == (o.q.empty() ? 0 : o.w.sites.size()), "sim:dots", d);
    // distributions: each once, by energy
    std::vector<std::pair<std::string, std::pair<double, int>>> got;
    double last = -std::numeric_limits<double>::infinity();
    for (const auto* e = root->FirstChildElement("elec_dist") ? root->FirstChildElement("elec_dist")->FirstChildElement("dist") : nullptr; e; e = e->NextSiblingElement("dist"))
    {
        const auto en = std::stod(e->Attribute("energy"));
        vm::require(en >= last, "sim:energy-order", d);
        last = en;
        vm::require(std::string{e->Attribute("count")} == "1" && std::string{e->Attribute("state_count")} == "3", "sim:counts", d);
        got.push_back({e->GetText() ? e->GetText() : "", {en, std::stoi(e->Attribute("physically_valid"))}});
    }
    vm::require(got.size() == o.q.size(), "sim:distributions", [&] { return cat(got.size(), " distributions instead of ", o.q.size(), ": ", d()); });
    for (const auto& q : o.q)
    {
        std::string c;
        for (const auto k : order) c += q[k] < 0 ? '-' : q[k] > 0 ? '+' : '0';
        const auto en = o.w.energy(q);
        const auto ok = o.w.valid(q);
        const auto it = std::find_if(got.begin(), got.end(), [&](const auto& g) { return g.first == c; });
        if (!vm::require(it != got.end(), "sim:states", [&] { return c + ": " + d(); })) return;
        vm::require(std::abs(it->second.first - en) < 2e-5 + 1e-5 * std::abs(en), "sim:energy", [&] { return cat(c, " has ", it->second.first, " instead of ", en, ": ", d()); });
        vm::require(ok < 0 || it->second.second == ok, "sim:validity", [&] { return cat(c, " is ", it->second.second, " instead of ", ok, ": ", d()); });
        got.erase(it);
    }
    if (r.chance(3))
    {
        const scratch dir;
        const auto    f = (dir.dir / "sim.xml").string();
        write_sqd_sim_result(o.res, std::string_view{f});
        const auto strip = [](std::string x) { const auto a = x.find("<timestamp>"), b = x.find("</timestamp>"); return a == std::string::npos || b == std::string::npos ? x : x.substr(0, a) + x.substr(b); };
        vm::require(strip(slurp(f)) == strip(t), "sim:file", d);
        bool refused = false;
        try { const auto g = (dir.dir / "none" / "sim.xml").string(); write_sqd_sim_result(o.res, std::string_view{g}); } catch (const std::ofstream::failure&) { refused = true; }
        vm::require(refused, "sim:unopenable", "");
        vm::count("files");
    }
    vm::count("distributions written", static_cast<long>(o.q.size()));
    vm::distinct(o.what);
}
}  // namespace
VM_SUITE(operational_domains, 600, 8000) { domain_files<operational_domain>(r); }
VM_SUITE(temperature_domains, 600, 8000) { domain_files<critical_temperature_domain>(r); }
VM_SUITE(influence_domains, 300, 4000) { influence_files<sidb_cell_clk_lyt_siqad>(r); influence_files<sidb_cell_clk_lyt>(r); influence_files<sidb_100_cell_clk_lyt_cube>(r); }
VM_SUITE(ground_state_locations, 300, 4000) { locations<sidb_100_cell_clk_lyt_siqad>(r); locations<sidb_111_cell_clk_lyt_siqad>(r); locations<sidb_100_cell_clk_lyt>(r); locations<sidb_100_cell_clk_lyt_cube>(r); }
VM_SUITE(simulation_results, 300, 4000) { sim_out<sidb_100_cell_clk_lyt_siqad>(r); sim_out<sidb_111_cell_clk_lyt_siqad>(r); sim_out<sidb_100_cell_clk_lyt>(r); sim_out<sidb_100_cell_clk_lyt_cube>(r); }
VM_MAIN
