INC = '''#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <string>
#include <vector>
#include <set>
#include <map>
#include <sstream>
#include <iostream>
#define CHECK(c) do { if (!(c)) { std::fprintf(stderr, "broken: %s\\n", #c); std::exit(1); } } while (0)
'''
H = 'include/fiction/'
BUGS = []
def B(id, prop, edits, needs, breaks, demo, **kw):
    BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=INC + demo, **kw))

B('coords-get-dead-y', 'C01', [(H + 'layouts/coordinates.hpp',
   '            y{static_cast<decltype(y)>((t << 2ull) >> 33ull)},',
   '            y{static_cast<decltype(y)>((t >> 31ull) & 0x3FFFFFFFull)},')],
  'an offset coordinate with y >= 2^30 that is rebuilt from its 64-bit representation (also through get_dead)',
  'the most significant y bit is lost in the round trip through uint64_t',
  '''#include "fiction/layouts/coordinates.hpp"
using C = fiction::offset::ucoord_t;
int main() { for (uint64_t y : {0ull, 5ull, 1ull << 29, 1ull << 30, (1ull << 31) - 1}) for (uint64_t x : {0ull, 7ull, (1ull << 31) - 1}) for (int z : {0, 1}) {
  C c{x, y, z}; CHECK(C{static_cast<uint64_t>(c)} == c); CHECK(c.get_dead().y == y); } }
''')
B('coords-siqad-negative', 'C01', [(H + 'layouts/coordinates.hpp',
   '    return {coord.x, (coord.y + (coord.y % 2)) / 2, (coord.y % 2 == 0 ? 0 : 1)};',
   '    return {coord.x, coord.y / 2, (coord.y % 2 == 0 ? 0 : 1)};')],
  'a cube coordinate with a negative odd y', 'the SiQAD coordinate of an odd negative row names the row above, and the conversion no longer round-trips',
  '''#include "fiction/layouts/coordinates.hpp"
int main() { for (int y = -9; y < 9; ++y) for (int x = -3; x < 3; ++x) { fiction::cube::coord_t c{x, y};
  auto s = fiction::siqad::to_siqad_coord(c); CHECK(s.z == 0 || s.z == 1); CHECK(fiction::siqad::to_fiction_coord<fiction::cube::coord_t>(s) == c); } }
''')
B('coord-iter-negative-start', 'C02', [(H + 'layouts/coordinates.hpp',
   '        coord.y = std::max(coord.y, static_cast<decltype(coord.y)>(0));\n', '        if (coord.x < static_cast<decltype(coord.x)>(1))\n        {\n            coord.y = std::max(coord.y, static_cast<decltype(coord.y)>(0));\n        }\n')],
  'a signed coordinate iterator started from a coordinate with positive x and negative y', 'the enumeration visits negative rows',
  '''#include "fiction/layouts/coordinates.hpp"
using C = fiction::cube::coord_t;
int main() { for (int sx : {0, 2}) for (int sy : {-2, 0, 1}) { fiction::coord_iterator<C> it{C{3, 2, 0}, C{sx, sy, 0}}; for (int i = 0; i < 20; ++i, ++it) { auto c = *it; if (c.is_dead()) break; CHECK(c.x >= 0 && c.y >= 0 && c.z >= 0); } } }
''')
B('coord-iter-wrap-z', 'C02', [(H + 'layouts/coordinates.hpp',
   '''        if (y > aspect_ratio.y)
        {
            if (z == 1)
            {
                *this = aspect_ratio.get_dead();
            }
            else
            {
                y = 0;
                z = 1;
            }
        }

        if (z > aspect_ratio.z)
        {
            *this = aspect_ratio.get_dead();
        }
    }
    /**
     * Compares against another coordinate for equality. Respects the dead indicator.
     *
     * @param other Right-hand side coordinate.
     * @return `true` iff both coordinates are identical.
     */
    // this is''',
   '''        if (y > aspect_ratio.y)
        {
            if (z == 1 || (aspect_ratio.x == 0 && x == 0))
            {
                *this = aspect_ratio.get_dead();
            }
            else
            {
                y = 0;
                z = 1;
            }
        }

        if (z > aspect_ratio.z)
        {
            *this = aspect_ratio.get_dead();
        }
    }
    /**
     * Compares against another coordinate for equality. Respects the dead indicator.
     *
     * @param other Right-hand side coordinate.
     * @return `true` iff both coordinates are identical.
     */
    // this is''')],
  'enumerating a one-column layout with two layers', 'the second layer of one-column areas is never visited',
  '''#include "fiction/layouts/coordinates.hpp"
using C = fiction::offset::ucoord_t;
int main() { for (int X = 0; X < 3; ++X) for (int Y = 0; Y < 3; ++Y) for (int Z = 0; Z < 2; ++Z) { C a{X, Y, Z}; fiction::coord_iterator<C> it{a, C{0, 0, 0}}; int n = 0; while (!(*it).is_dead()) { ++n; ++it; CHECK(n < 100); } CHECK(n == (X + 1) * (Y + 1) * (Z + 1)); } }
''')
B('factor-passed-area', 'C03', [(H + 'algorithms/iter/aspect_ratio_iterator.hpp',
   '        return num != m;', '        return num < m;')],
  'comparing an iterator that has already passed the given area', 'an iterator beyond an area is not unequal to it',
  '''#include "fiction/algorithms/iter/aspect_ratio_iterator.hpp"
#include "fiction/layouts/coordinates.hpp"
using C = fiction::offset::ucoord_t;
int main() { fiction::aspect_ratio_iterator<C> it{5}; CHECK(it != 6); CHECK(!(it != 5)); ++it; ++it; CHECK(it == 6); CHECK(it != 5); CHECK(it != 7); }
''')
B('gray-negative-offset', 'C04', [(H + 'algorithms/iter/gray_code_iterator.hpp',
   '        current_iteration += m;', '        current_iteration += static_cast<uint32_t>(m);')],
  'advancing by a negative offset', 'it + (-k) lands 2^32 positions too far',
  '''#include "fiction/algorithms/iter/gray_code_iterator.hpp"
int main() { fiction::gray_code_iterator it{10}; for (int m : {0, 1, 5, -1, -7}) { auto j = it + m; CHECK(j - it == m); CHECK(*j == ((10 + m) ^ ((10 + m) >> 1))); } }
''')
B('gray-index-start', 'C04', [(H + 'algorithms/iter/gray_code_iterator.hpp',
   '        result ^= (result >> 1u);', '        result ^= (index >> 1u) ^ (start_number >> 1u);')],
  'subscripting an iterator whose odd start number produces a carry', 'it[k] is not the Gray code of start + k when the addition carries into bit 1',
  '''#include "fiction/algorithms/iter/gray_code_iterator.hpp"
int main() { for (uint64_t s = 0; s < 20; ++s) { fiction::gray_code_iterator it{s}; for (uint64_t k = 0; k < 40; ++k) CHECK(it[k] == ((s + k) ^ ((s + k) >> 1))); } }
''')
B('annealing-stale-best', 'C05', [(H + 'algorithms/optimization/simulated_annealing.hpp',
   '''                best_state    = new_state;
                best_cost     = new_cost;
                current_state = std::move(new_state);
                current_cost  = std::move(new_cost);
''', '''                best_cost     = new_cost;
                current_cost  = std::move(new_cost);
                current_state = std::move(new_state);
                best_state    = cycles > 1 ? current_state : best_state;
''')],
  'annealing with a single cycle per temperature step', 'the returned best state is not the one the returned best cost belongs to',
  '''#include "fiction/algorithms/optimization/simulated_annealing.hpp"
int main() { for (int cyc : {1, 2, 10}) { auto r = fiction::simulated_annealing(100, 100.0, 1.0, cyc, [](int s) { return s * 2; }, fiction::linear_temperature_schedule, [](int s) { return s - 1; }); CHECK(r.second == r.first * 2); CHECK(r.second < 200); } }
''')
B('annealing-hw-threads', 'C05', [(H + 'algorithms/optimization/simulated_annealing.hpp',
   'for (std::size_t i = 0; i < instances; i++)\n    {\n        threads', 'for (std::size_t i = 0; i < std::min<std::size_t>(instances, 256); i++)\n    {\n        threads')],
  'more than 256 parallel annealing instances', 'results of instances that never ran (default-constructed) compete for the minimum',
  '''#include "fiction/algorithms/optimization/simulated_annealing.hpp"
#include <atomic>
int main() { for (int n : {1, 8, 300}) { std::atomic<int> starts{0}; auto r = fiction::multi_simulated_annealing(50.0, 10.0, 3, n, [&] { ++starts; return 50; }, [](int s) { return s + 7; }, fiction::linear_temperature_schedule, [](int s) { return s + 1; }); CHECK(starts == n); CHECK(r.first >= 50 && r.second == r.first + 7); } }
''')
B('annealing-static-state', 'C06', [(H + 'algorithms/optimization/simulated_annealing.hpp',
   '    thread_local std::uniform_real_distribution<double> random_functor(0, 1);', '    static std::uniform_real_distribution<double> random_functor(0, 1);\n    static std::size_t                            accepted{0};'),
   (H + 'algorithms/optimization/simulated_annealing.hpp',
   '''                current_state = std::move(new_state);
                current_cost  = std::move(new_cost);
            }
        }
''', '''                current_state = std::move(new_state);
                current_cost  = std::move(new_cost);
                ++accepted;
            }
        }
''')],
  'several annealing instances that accept worse states at the same time', 'parallel annealing instances update an unsynchronised shared counter: a data race, undefined behaviour',
  '''#include "fiction/algorithms/optimization/simulated_annealing.hpp"
int main() { for (int k = 0; k < 3; ++k) { auto r = fiction::multi_simulated_annealing(100.0, 1.0, 50, 6, [] { return 10; }, [](int s) { return s; }, fiction::linear_temperature_schedule, [](int s) { return (s * 7 + 3) % 31; }); CHECK(r.first == r.second); } }
''', flags='-fsanitize=thread -g')
B('potential-skip-ahead', 'C07', [(H + 'algorithms/simulation/sidb/potential_to_distance_conversion.hpp',
   '''        distance += step_size;
        potential_for_given_distance = calc''', '''        distance += calculate_potential_for_given_distance(distance + (8 * step_size)) > potential ? 10 * step_size : step_size;
        potential_for_given_distance = calc''')],
  'a potential whose distance is passed over by the last long stride', 'the returned distance is up to one step too large: not the first grid distance at which the potential has dropped to the threshold',
  '''#include "fiction/algorithms/simulation/sidb/potential_to_distance_conversion.hpp"
#include <cmath>
int main() { fiction::sidb_simulation_parameters p{}; for (double v = 0.5; v > 0.001; v *= 0.93) for (uint64_t n : {1, 2, 3}) { const double d = fiction::potential_to_distance_conversion(v, p, n); const double s = std::pow(10, -(double)n); auto f = [&](double x) { return p.k() / (x * 1e-9) * std::exp(-x / p.lambda_tf) * fiction::constants::physical::ELEMENTARY_CHARGE; };
  CHECK(f(d) <= v * (1 + 1e-9)); CHECK(d <= s * 1.0000001 || f(d - s) >= v * (1 - 1e-9)); } }
''')
B('potential-large-lambda', 'C07', [(H + 'algorithms/simulation/sidb/potential_to_distance_conversion.hpp',
   "        distance += step_size;", "        distance += distance > 10 * params.lambda_tf ? 2 * step_size : step_size;")],
  'a potential so small that the distance exceeds ten screening lengths', 'beyond ten screening lengths every other grid distance is passed over',
  '''#include "fiction/algorithms/simulation/sidb/potential_to_distance_conversion.hpp"
#include <cmath>
int main() { for (double l : {5.0, 1.0, 0.5}) for (double v = 0.5; v > 1e-7; v *= 0.7) for (uint64_t n : {1, 2}) { fiction::sidb_simulation_parameters p{2, -0.32, 5.6, l}; const double d = fiction::potential_to_distance_conversion(v, p, n); const double s = std::pow(10, -(double)n); auto f = [&](double x) { return p.k() / (x * 1e-9) * std::exp(-x / l) * fiction::constants::physical::ELEMENTARY_CHARGE; };
  CHECK(f(d) <= v * (1 + 1e-9)); CHECK(d <= s * 1.0000001 || f(d - s) >= v * (1 - 1e-9)); } }
''')
B('charge-string-none', 'C08', [(H + 'technology/sidb_charge_state.hpp',
   '        if (cs == sidb_charge_state::NONE)\n        {\n            continue;\n        }\n', '        if (cs == sidb_charge_state::NONE)\n        {\n            break;\n        }\n')],
  'a charge configuration that holds an empty position before other charges', 'the charges after the first empty position are dropped from the string',
  '''#include "fiction/technology/sidb_charge_state.hpp"
using S = fiction::sidb_charge_state;
int main() { CHECK(fiction::charge_configuration_to_string({S::NEGATIVE, S::POSITIVE, S::NEUTRAL}) == "-+0"); CHECK(fiction::charge_configuration_to_string({S::NEGATIVE, S::NONE, S::NEUTRAL}) == "-0"); }
''')
B('defect-extent-overwrite', 'C08', [(H + 'technology/sidb_defects.hpp',
   '        if (charged_defect_spacing_overwrite.has_value())', '        if (charged_defect_spacing_overwrite.has_value() && defect.charge != 0)')],
  'a charged-by-type defect (DB, vacancy, arsenic) stored with charge 0 and a spacing overwrite', 'the caller-given extent is ignored for charged defect types without an explicit charge',
  '''#include "fiction/technology/sidb_defects.hpp"
using namespace fiction;
int main() { for (auto t : {sidb_defect_type::DB, sidb_defect_type::ARSENIC, sidb_defect_type::SI_VACANCY, sidb_defect_type::SILOXANE}) for (int64_t q : {-1, 0, 1}) { sidb_defect d{t, q}; auto e = defect_extent(d, std::make_pair<uint16_t, uint16_t>(3, 4), std::make_pair<uint16_t, uint16_t>(5, 6)); CHECK(e.first == (is_charged_defect_type(d) ? 3 : 5)); } }
''')
B('genlib-decay-maj', 'C09', [(H + 'technology/technology_mapping_library.hpp',
   '"GATE  d2_maj3  1 O=a+b;          PIN', '"GATE  d2_maj3  1 O=a^b;          PIN')],
  'a majority gate with a constant-1 input', 'the decayed majority gate is XOR instead of OR',
  '''#include "fiction/technology/technology_mapping_library.hpp"
int main() { std::string s = fiction::DECAY_MAJ3; CHECK(s.find("O=a*b;") != std::string::npos); CHECK(s.find("O=a+b;") != std::string::npos || s.find("O=b+a;") != std::string::npos); }
''')
B('genlib-gamble', 'C09', [(H + 'technology/technology_mapping_library.hpp',
   'O=(a*b*c)^(!a*!b*!c);', 'O=(a*b*c)+(!a*!b*c);')],
  'technology mapping onto gamble gates with all inputs 0', 'the gamble gate is 1 on 001 rather than on 000',
  '''#include "fiction/technology/technology_mapping_library.hpp"
int main() { std::string s = fiction::GATE_GAMBLE; CHECK(s.find("!a*!b*!c") != std::string::npos); }
''')
B('round-negative-half', 'C10', [(H + 'utils/math_utils.hpp',
   'std::round(static_cast<double>(number) * factor)', 'std::floor((static_cast<double>(number) * factor) + 0.5)')],
  'rounding a negative number that lies half way between two decimals', 'negative halves are rounded towards zero instead of away from it',
  '''#include "fiction/utils/math_utils.hpp"
int main() { CHECK(fiction::round_to_n_decimal_places(2.5, 0) == 3.0); CHECK(fiction::round_to_n_decimal_places(-2.5, 0) == -3.0); CHECK(fiction::round_to_n_decimal_places(-0.125, 2) == -0.13); CHECK(fiction::round_to_n_decimal_places(-1.3, 0) == -1.0); }
''')
B('queue-contains', 'C11', [(H + 'utils/stl_utils.hpp',
   '        return find(val) != this->c.cend();', '        return !this->comp(this->c.front(), val) && find(val) != this->c.cend();')],
  'asking an empty queue whether it contains a value', 'contains on an empty queue reads past the end of its container',
  '''#include "fiction/utils/stl_utils.hpp"
int main() { fiction::searchable_priority_queue<int> q; CHECK(!q.contains(3)); q.push(4); q.push(2); CHECK(q.contains(2) && q.contains(4) && !q.contains(7)); q.pop(); q.pop(); CHECK(!q.contains(2)); }
''', flags='-fsanitize=address,undefined -D_GLIBCXX_ASSERTIONS')
B('map-tolerance-zero', 'C11', [(H + 'utils/map_utils.hpp',
   'return std::abs(pair.first - key) < tolerance; };', 'return pair.first - key < tolerance && key - pair.first <= 10 * tolerance; };')],
  'a key lying between one and ten tolerances above the stored one', 'a key outside the tolerance is found',
  '''#include <cmath>
#include "fiction/utils/map_utils.hpp"
int main() { const double e = fiction::constants::ERROR_MARGIN; std::map<double, int> m{{1.0, 1}, {2.0, 2}}; CHECK(fiction::find_key_with_tolerance(m, 1.0 + e / 2) != m.end()); CHECK(fiction::find_key_with_tolerance(m, 1.0 + 3 * e) == m.end()); CHECK(fiction::find_key_with_tolerance(m, 1.0 - 3 * e) == m.end()); CHECK(fiction::find_key_with_tolerance(m, 1.5) == m.end()); }
''')
B('csv-moved-arg', 'C12', [(H + 'io/csv_writer.hpp',
   '            stream << std::forward<T>(arg) << DELIMITER;', '            stream << arg;\n            if (stream.tellp() != std::ostream::pos_type(1 << 16))\n            {\n                stream << DELIMITER;\n            }')],
  'a CSV document in which a delimiter falls on byte 65536', 'one delimiter is lost in documents longer than 64 KiB',
  '''#include "fiction/io/csv_writer.hpp"
#include <sstream>
int main() { std::ostringstream os; fiction::csv_writer w{os}; std::string exp; for (int i = 0; i < 32768; ++i) { w.write_line("a", "b"); exp += "a,b\\n"; } CHECK(os.str() == exp); std::ostringstream o2; fiction::csv_writer v{o2}; v.write_line(std::string(65536, 'x'), 1); CHECK(o2.str() == std::string(65536, 'x') + ",1\\n"); }
''')
B('csv-no-flush', 'C12', [(H + 'io/csv_writer.hpp',
   '            stream << std::forward<T>(arg) << std::endl;', '            stream << std::forward<T>(arg) << \'\\n\';')],
  'reading the file a csv_writer writes while the stream is still open (or after a crash)', 'completed lines are not on disk',
  '''#include "fiction/io/csv_writer.hpp"
#include <fstream>
int main() { std::ofstream f{"out.csv"}; fiction::csv_writer w{f}; w.write_line(1, 2); w.write_line("x"); std::ifstream g{"out.csv"}; std::stringstream s; s << g.rdbuf(); CHECK(s.str() == "1,2\\nx\\n"); }
''')
B('dsatur-neighbour', 'C13', [('vendors/graph-coloring/Source/dsatur.cpp',
   '                for (int j = 0; j < this->graph[i->first].size(); j++)\n                {\n                    saturation_colors.push_back', '                for (int j = 0; j < this->graph[i->first].size() && j < 32; j++)\n                {\n                    saturation_colors.push_back')],
  'a vertex with more than 32 neighbours coloured last', 'a vertex may receive the colour of its 33rd neighbour',
  '''#include "dsatur.hpp"
#include <random>
int main() { std::mt19937 g{1}; for (int n : {5, 20, 45, 60}) for (int k = 0; k < 5; ++k) { std::map<std::string, std::vector<std::string>> m; for (int i = 0; i < n; ++i) m["v" + std::to_string(i)]; for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) if (g() % 10) { m["v" + std::to_string(i)].push_back("v" + std::to_string(j)); m["v" + std::to_string(j)].push_back("v" + std::to_string(i)); }
  GraphColoring::Dsatur d{m}; auto c = d.color(); for (auto& [v, ns] : m) for (auto& u : ns) CHECK(c[v] != c[u]); } }
''', libs='vendors/graph-coloring/Source/dsatur.cpp vendors/graph-coloring/Source/coloring_algorithm.cpp')
B('ugraph-self-loop', 'C14', [('vendors/undirected_graph/source/undirected_graph.h',
   '            edges.erase(edge_id_type(vertex_id, vertex_id));\n', '')],
  'erasing a vertex that carries a self-loop', 'the self-loop stays in the edge container after its vertex is gone',
  '''#include "undirected_graph.h"
struct E { int a, b; E(int x, int y) : a{std::min(x, y)}, b{std::max(x, y)} {} bool operator==(const E& o) const { return a == o.a && b == o.b; } };
template <> struct std::hash<E> { size_t operator()(const E& e) const { return e.a * 31 + e.b; } };
int main() { undirected_graph<int, int, E, int> g; for (int i = 0; i < 3; ++i) g.insert_vertex(i, i); g.insert_edge(0, 1, 1); g.insert_edge(1, 1, 2); g.insert_edge(1, 2, 3); g.erase_vertex(1); CHECK(g.size_edges() == 0); CHECK(g.begin_adjacent(0) == g.end_adjacent(0)); }
''')
B('ports-hash-flags', 'C15', [(H + 'technology/cell_ports.hpp',
   '        fiction::hash_combine(h, port.x, port.y);\n', '        fiction::hash_combine(h, port.x, port.y);\n\n        if (port.pi && port.po)\n        {\n            h = ~h;\n        }\n')],
  'two equal port positions of which one is marked both as primary input and output', 'equal ports have different hashes, so hash sets hold both',
  '''#include "fiction/technology/cell_ports.hpp"
#include <unordered_set>
int main() { std::unordered_set<fiction::port_position> s; for (bool a : {0, 1}) for (bool b : {0, 1}) s.insert(fiction::port_position{3, 4, a, b}); CHECK(s.size() == 1); }
''')
B('ports-merge', 'C15', [(H + 'technology/cell_ports.hpp',
   '        this->out.merge(p.out);\n', '        this->out.merge(this->out.empty() ? p.out : p.inp);\n        this->out.merge(p.out);\n')],
  'merging port lists that share input ports while the left one has outputs', 'inputs that both lists name end up among the outputs',
  '''#include "fiction/technology/cell_ports.hpp"
using P = fiction::port_position; using L = fiction::port_list<P>;
int main() { L a{{P{0, 0}, P{1, 1}}, {P{4, 4}}}, b{{P{1, 1}, P{2, 2}}, {P{5, 5}}}; a += b; CHECK((a.out == std::set<P>{P{4, 4}, P{5, 5}})); CHECK((a.inp == std::set<P>{P{0, 0}, P{1, 1}, P{2, 2}})); }
''')
