import os, runpy
_a = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'plants_a.py'))
INC, H = _a['INC'], _a['H']
SHIMS = sorted(os.listdir('/verif/shims'))
BUGS = []
def B(id, prop, edits, needs, breaks, demo, **kw):
    kw.setdefault('shims', SHIMS)
    kw.setdefault('flags', '-DFICTION_ALGLIB_ENABLED=1')
    BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=INC + demo, **kw))

B('opdom-temperature-3d', 'C34', [(H + 'io/write_operational_domain.hpp',
   'writer.write_line(pp.at(0), pp.at(1), pp.at(2), tag, std::get<1>(op_val));',
   'writer.write_line(pp.at(0), pp.at(2), pp.at(1), tag, std::get<1>(op_val));')],
  'a critical temperature domain with three dimensions', 'the second and third coordinate of every point are exchanged',
  '''#include <fiction/io/write_operational_domain.hpp>
using namespace fiction;
int main() { critical_temperature_domain d; d.add_dimension(sweep_parameter::EPSILON_R); d.add_dimension(sweep_parameter::LAMBDA_TF); d.add_dimension(sweep_parameter::MU_MINUS);
  d.add_value(parameter_point{{1.5, 2.5, -3.5}}, std::tuple{operational_status::OPERATIONAL, 7.0});
  std::ostringstream o; write_operational_domain(d, o); CHECK(o.str().find("1.5,2.5,-3.5,") != std::string::npos); }
''')
B('opdom-skip-flag', 'C34', [(H + 'io/write_operational_domain.hpp',
   '''                const auto  tag = std::get<0>(op_val) == operational_status::OPERATIONAL ? params.operational_tag :
                                                                                           params.non_operational_tag;
                const auto& pp  = sim_param.get_parameters();
''', '''                const auto& pp  = sim_param.get_parameters();
                const auto  tag = std::get<0>(op_val) == operational_status::OPERATIONAL && std::get<1>(op_val) > 0.0 ?
                                      params.operational_tag :
                                      params.non_operational_tag;
''')],
  'an operational point with a critical temperature of zero', 'operational points of critical temperature zero are tagged as non-operational',
  '''#include <fiction/io/write_operational_domain.hpp>
using namespace fiction;
int main() { critical_temperature_domain d; d.add_dimension(sweep_parameter::EPSILON_R);
  d.add_value(parameter_point{{1.5}}, std::tuple{operational_status::OPERATIONAL, 0.0});
  std::ostringstream o; write_operational_domain_params p{}; p.operational_tag = "yes"; p.non_operational_tag = "no"; write_operational_domain(d, o, p); CHECK(o.str().find("yes") != std::string::npos); }
''')
B('ground-state-order', 'C34', [(H + 'io/write_location_and_ground_state.hpp',
   '            std::ranges::sort(sidbs);\n', ''),
   (H + 'io/write_location_and_ground_state.hpp',
   'os << fmt::format("{};", charge_state_to_sign(valid_layout.get_charge_state(sidb)));',
   'os << fmt::format("{};", charge_state_to_sign(ground_state.get_charge_state(sidb)));')],
  'a layout with several ground states', 'every ground state is written as the first one',
  '''#include <fiction/io/write_location_and_ground_state.hpp>
#include <fiction/algorithms/simulation/sidb/exhaustive_ground_state_simulation.hpp>
#include <fiction/types.hpp>
using namespace fiction;
int main() { using L = sidb_100_cell_clk_lyt_siqad; L l{}; for (auto c : {cell<L>{0, 0, 0}, cell<L>{1, 0, 0}}) l.assign_cell_type(c, sidb_technology::cell_type::NORMAL);
  auto res = exhaustive_ground_state_simulation(l, sidb_simulation_parameters{2, -0.32}); CHECK(res.charge_distributions.size() == 2);
  std::ostringstream o; write_location_and_ground_state(res, o); auto t = o.str(); CHECK(t.find("-1;0;") != std::string::npos); CHECK(t.find("0;-1;") != std::string::npos); }
''')
B('paths-connection-direction', 'C23', [(H + 'algorithms/path_finding/enumerate_all_paths.hpp',
   'if (layout.is_obstructed_connection(src, successor))', 'if (layout.is_obstructed_connection(successor, src))')],
  'a connection that is obstructed in one direction', 'paths lead over obstructed connections',
  '''#include <fiction/algorithms/path_finding/enumerate_all_paths.hpp>
#include <fiction/layouts/obstruction_layout.hpp>
#include <fiction/types.hpp>
#include <fiction/utils/routing_utils.hpp>
using namespace fiction;
int main() { using L = obstruction_layout<cartesian_layout<offset::ucoord_t>>; cartesian_layout<offset::ucoord_t> base{{2, 1}}; L l{base}; l.obstruct_connection({0, 0}, {1, 0});
  auto c = enumerate_all_paths<layout_coordinate_path<L>>(l, {{0, 0}, {2, 0}}); CHECK(!c.empty());
  for (auto& p : c) for (std::size_t i = 1; i < p.size(); ++i) CHECK(!(p[i - 1] == coordinate<L>(0, 0) && p[i] == coordinate<L>(1, 0))); }
''')
B('clocking-every-input', 'C37', [(H + 'algorithms/physical_design/determine_clocking.hpp',
   '''            [&recurse](const auto& pi)
            {
                recurse(pi);

                return false;  // terminate after one iteration''',
   '''            [this, &recurse](const auto& pi)
            {
                recurse(pi);

                return layout.num_pis() == 2u;''')],
  'exactly two inputs whose zones do not follow from each other', 'layouts with clock numbers are refused',
  '''#include <fiction/algorithms/physical_design/determine_clocking.hpp>
#include <fiction/types.hpp>
using namespace fiction;
int main() { using L = cart_gate_clk_lyt; L l{{4, 4, 0}, open_clocking<L>(num_clks::FOUR)};
  auto a = l.create_pi("a", {0, 0}); auto b = l.create_pi("b", {2, 2}); auto v = l.create_buf(b, {2, 1}); auto w = l.create_buf(a, {1, 0}); auto g = l.create_and(w, v, {2, 0}); l.create_po(g, "f", {3, 0});
  CHECK(determine_clocking(l)); CHECK((l.get_clock_number({2, 1}) + 1) % 4 == l.get_clock_number({2, 0})); }
''')
B('mincross-fixed-inputs', 'C39', [(H + 'algorithms/graph/mincross.hpp',
   '''            for (auto r = max_rank - 1; r != static_cast<uint32_t>(-1); --r)
            {
                if (r == 0 && ps.fixed_pis)''',
   '''            for (auto r = max_rank - 1; r != static_cast<uint32_t>(-1); --r)
            {
                if (r == 0 && ps.fixed_pis && pass < 2)''')],
  'fixed inputs and crossings that take more than two iterations', 'the order of the inputs changes although it is fixed',
  '''#include <fiction/algorithms/network_transformation/network_balancing.hpp>
#include <fiction/algorithms/graph/mincross.hpp>
#include <fiction/networks/technology_network.hpp>
#include <fiction/networks/views/mutable_rank_view.hpp>
#include <random>
using namespace fiction;
int main() { std::mt19937 g{7}; for (int k = 0; k < 200; ++k) { technology_network n; std::vector<technology_network::signal> in, mid;
  for (int i = 0; i < 6; ++i) in.push_back(n.create_pi());
  for (int i = 0; i < 6; ++i) { auto x = g() % 6, y = g() % 6; if (x == y) y = (y + 1) % 6; mid.push_back(n.create_and(in[x], in[y])); }
  std::set<uint64_t> used; for (auto m : mid) n.foreach_fanin(n.get_node(m), [&](auto f) { used.insert(n.get_node(f)); });
  if (used.size() != 6) continue;
  std::set<uint64_t> outs; for (auto m : mid) if (outs.insert(m).second) n.create_po(m);
  mutable_rank_view<technology_network> v{n}; mincross_params p{}; p.fixed_pis = true;
  auto before = v.get_ranks(0); auto res = mincross(v, p); CHECK(res.get_ranks(0) == before); } }
''')
B('black-list-first-ports', 'C40', [(H + 'technology/sidb_surface_analysis.hpp',
   '''                            for (const auto& port : gate_ports.at(gate))
                            {
                                black_list[t][fun].push_back(port);
                            }
''', '''                            for (const auto& port : gate_ports.at(gate))
                            {
                                auto& banned = black_list[t][fun];
                                if (banned.empty() || banned.back().inp != port.inp)
                                {
                                    banned.push_back(port);
                                }
                            }
''')],
  'a gate with several lists of ports that share their inputs', 'gates that do not fit are not banned for all of their ports',
  '''#include <fiction/technology/sidb_surface_analysis.hpp>
#include <fiction/technology/fcn_gate_library.hpp>
#include <fiction/types.hpp>
#include <fiction/utils/truth_table_utils.hpp>
using namespace fiction;
struct lib : fcn_gate_library<sidb_technology, 3, 3> {
  static constexpr const fcn_gate LINE{cell_list_to_gate<char>({{{' ', 'x', ' '}, {' ', 'x', ' '}, {' ', 'x', ' '}}})};
  static gate_functions get_functional_implementations() noexcept { return {{{create_id_tt(), {LINE}}}}; }
  static gate_ports<port_position> get_gate_ports() noexcept { return {{{LINE, {{{port_position(0, 1)}, {port_position(2, 1)}}, {{port_position(0, 1)}, {port_position(2, 2)}}}}}}; } };
int main() { cart_gate_clk_lyt g{{1, 1}}; sidb_defect_surface<sidb_100_cell_clk_lyt> s{sidb_100_cell_clk_lyt{{5, 5}}}; s.assign_sidb_defect({1, 1}, sidb_defect{sidb_defect_type::SILOXANE});
  auto b = sidb_surface_analysis<lib>(g, s); CHECK(b.at({0, 0}).at(create_id_tt()).size() == 2); }
''')
B('impossible-upper-only', 'C40', [(H + 'technology/is_sidb_gate_design_impossible.hpp',
   '            const int64_t ix_lower = charge_lyt.cell_to_index(bdl.lower);\n', '            const int64_t ix_lower = charge_lyt.cell_to_index(bdl.upper);\n')],
  'a defect that disturbs only the lower dot of an output pair', 'skeletons whose lower output dots are always neutral count as possible',
  '''#include <fiction/technology/is_sidb_gate_design_impossible.hpp>
#include <fiction/types.hpp>
#include <fiction/utils/truth_table_utils.hpp>
using namespace fiction;
int main() { using L = sidb_defect_surface<sidb_100_cell_clk_lyt_siqad>; using t = sidb_technology::cell_type; L l{};
  l.assign_cell_type({0, 0, 0}, t::INPUT); l.assign_cell_type({2, 1, 0}, t::INPUT); l.assign_cell_type({6, 2, 0}, t::NORMAL); l.assign_cell_type({8, 3, 0}, t::NORMAL);
  l.assign_cell_type({12, 4, 0}, t::OUTPUT); l.assign_cell_type({14, 5, 0}, t::OUTPUT); l.assign_cell_type({20, 7, 0}, t::NORMAL);
  CHECK(!is_sidb_gate_design_impossible(l, std::vector<tt>{create_id_tt()}));
  auto up = l.clone(), low = l.clone(); up.assign_sidb_defect({11, 4, 0}, sidb_defect{sidb_defect_type::UNKNOWN, -1, 5.6, 5.0}); low.assign_sidb_defect({15, 5, 0}, sidb_defect{sidb_defect_type::UNKNOWN, -1, 5.6, 5.0});
  CHECK(is_sidb_gate_design_impossible(up, std::vector<tt>{create_id_tt()})); CHECK(is_sidb_gate_design_impossible(low, std::vector<tt>{create_id_tt()})); }
''')
