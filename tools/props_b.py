# Properties of code that needs the stand-ins in shims/ (group B).
from props_a import P, H
SAN = 'AddressSanitizer+UBSan'
PROPS = [
P('C16', 'Layout topologies: neighbours, borders, directions and ranges agree',
  'In every topology (Cartesian, the four hexagonal arrangements, the shifted Cartesian ones, tile-based views of them) and for every position of a layout, the four cardinal neighbours and above/below are the positions the geometry defines, '
  'and the position itself at a border. The adjacent coordinates are exactly the geometric neighbours inside the layout (adjacency is symmetric), opposite pairs lie opposite each other, and all direction, border, layer and adjacency predicates agree with them. '
  'Coordinate and ground-coordinate ranges list exactly the positions of the layout in order, areas count them, hexagonal cube coordinates round-trip and differ by one step exactly for neighbours. '
  'Copies of a layout share its extent, clones do not.',
  ['inputs'], 'all topologies, extents (flat, thin and empty ones included) and positions', 'tests enumerate the neighbours of a few positions in one 10x10 layout per topology',
  ['layouts/cartesian_layout.hpp', 'layouts/hexagonal_layout.hpp', 'layouts/shifted_cartesian_layout.hpp', 'layouts/tile_based_layout.hpp'],
  [('neighbour arithmetic at borders', H + 'layouts/cartesian_layout.hpp'), ('row/column parity of the arrangements', H + 'layouts/hexagonal_layout.hpp')],
  [dict(src='topology.cpp', scale=6)], 'generated extents 0..11 per dimension with 1 or 2 layers, every position of them; distinct by topology and extent',
  'runtime monitoring against an independent geometric model (axial coordinates for hexagons), ' + SAN, 'held on the generated extents', observe=['public members of the layout classes']),
P('C17', 'Clocking schemes: patterns, overrides and information flow agree',
  'Every named clocking scheme assigns its documented periodic pattern of zones, number of clocks and degrees to every position of the plane, lookup by name is case-insensitive and knows exactly the documented names and numbers of clocks. '
  'Overriding a zone changes that position only, never another copy or clone, and makes the scheme irregular. '
  'In a clocked layout a position is incoming-clocked for another exactly if its zone is the predecessor (modulo the number of clocks, with synchronization elements extending it), outgoing-clocked exactly in the reverse case, and the incoming/outgoing zones and degrees are exactly the adjacent positions with that relation.',
  ['inputs', 'histories'], 'all schemes, positions, override histories and synchronization elements', 'tests spot-check corner tiles of each scheme; clones and overrides are only tested on the open scheme',
  ['layouts/clocking_scheme.hpp', 'layouts/clocked_layout.hpp', 'layouts/synchronization_element_layout.hpp'],
  [('cut-outs and override map', H + 'layouts/clocking_scheme.hpp'), ('clone and zone comparison', H + 'layouts/clocked_layout.hpp')],
  [dict(src='clocking.cpp', scale=6)], 'all scheme factories x positions -3..13 periods; random override/clone/replace histories on all topologies', 'runtime monitoring of operation histories against tables and a map model, ' + SAN,
  'held on the generated histories; total degree next to synchronization elements is not claimed', observe=['public members of schemes and layouts']),
P('C18', 'Gate-level layouts report what was placed, wherever it was moved since',
  'After every sequence of creating inputs, outputs, gates and wires, connecting, moving and clearing tiles - including placement onto occupied tiles - each tile holds the node placed last and each living node has one tile; inputs and outputs keep their order and names; '
  'the numbers of gates, wires and crossings (stacked tiles with at least one wire) are those of the tiles; dead nodes are exactly those without a tile. '
  'A node has as fanins, in order, its children that live next to it and (if asked) clock into it, and as fanouts the neighbours that name it; all flow, direction, kind and iteration functions agree with that. '
  'Node functions and evaluation (bits and truth tables, first fanin least significant) are those of the gate created. Clones are independent of the original, copies are handles to it.',
  ['histories', 'inputs'], 'all operation sequences on all topologies and clocking schemes', 'tests build fixed layouts and check the counters after one or two moves',
  ['layouts/gate_level_layout.hpp'], [('tile/node maps, counters, dead flags', H + 'layouts/gate_level_layout.hpp'), ('function table', H + 'layouts/gate_level_layout.hpp initialize_truth_table_cache')],
  [dict(src='gate_layout.cpp', scale=12)], 'histories of 1..40 operations (120 in the thorough run) on layouts of up to 5x5x2 tiles; distinct by history', 'runtime monitoring of operation histories against a tile-and-node model, ' + SAN,
  'held on the generated histories; nodes at the reserved default tile and layouts whose two layers have different clock zones are not claimed', observe=['public members of gate_level_layout']),
P('C19', 'Scalable placement and routing yields legal layouts of the specified function',
  'For every combinational network of at most two-input gates whose inputs all reach an output and whose gates have distinct operands, orthogonal() returns a 2DDWave-clocked layout in which every gate has all its fanins connected in operand order across consecutive clock zones, '
  'crossings consist of stacked wires only, no signal dangles, inputs and outputs lie on the border in the original order with the original names, and the layout computes the function of the network. The reported statistics are those of the layout. Networks with larger gates are refused with an exception.',
  ['inputs'], 'all networks', 'tests place a few benchmark networks and check them with the library\'s own equivalence checker',
  ['algorithms/physical_design/orthogonal.hpp', 'utils/placement_utils.hpp', 'algorithms/network_transformation/fanout_substitution.hpp'],
  [('operand swaps and bent wires', H + 'algorithms/physical_design/orthogonal.hpp'), ('output placement', H + 'algorithms/physical_design/orthogonal.hpp place_outputs')],
  [dict(src='ortho.cpp', scale=100, tscale=12)], 'random networks of 1..16 gates (40 in the thorough run) with 1..5 inputs and outputs, shared outputs, inputs as outputs, all two-input functions; distinct by network',
  'runtime monitoring of the finished layouts: independent legality rules and exhaustive evaluation against the truth table recorded while the network was built, ' + SAN, 'held on the generated networks', observe=['the returned layout']),
P('C20', 'Network transformations keep the function and reach the structure they promise',
  'Conversion between network types, fanout substitution, path balancing, deletion of virtual inputs, technology mapping and output substitution return networks with the same inputs, outputs, names and function. '
  'After fanout substitution no node exceeds its degree or threshold; after balancing all fanins of a node have the same level (and, if asked, all outputs) at unchanged depth; a mapped network only has gates asked for, and libraries that lack gates the network type needs are refused; the predicates agree with that on every network. '
  'A technology network reports of each node exactly the kind of its function; breadth-first, depth, rank and edge-colour views stay consistent under every history of updates.',
  ['inputs', 'histories'], 'all networks, all parameters', 'tests transform a few blueprint networks and compare sizes',
  ['algorithms/network_transformation/', 'networks/technology_network.hpp', 'networks/virtual_pi_network.hpp', 'networks/views/', 'utils/network_utils.hpp'],
  [('fanout trees', H + 'algorithms/network_transformation/fanout_substitution.hpp'), ('function literals', H + 'networks/technology_network.hpp'), ('rank bookkeeping', H + 'networks/views/mutable_rank_view.hpp')],
  [dict(src='transform.cpp', scale=40, tscale=12)], 'random networks (AIG, XAG, MIG, technology networks) of up to 18 gates (40 in the thorough run); distinct by network and parameters',
  'runtime monitoring of the results by exhaustive evaluation and structural recounts, ' + SAN, 'held on the generated networks; the mapper itself is a stand-in (shims/mockturtle/algorithms/emap.hpp)', observe=['the returned networks']),
P('C21', 'The library\'s own judges of designs are right',
  'gate_level_drvs reports, per category and in total and under every selection of checks, exactly the violations a layout has: connections between tiles that are not adjacent or not clocked one after the other, missing connections, wires that cross anything but wires, missing or empty pins (as violations), unplaced nodes, pins that are gates or off the border (as warnings); finished layouts of orthogonal() have none. '
  'equivalence_checking says NO exactly if the designs differ in function or pins or a layout has violations (with a counterexample on which they differ), and WEAK rather than STRONG exactly if the throughputs differ; virtual_miter is 1 exactly where the designs differ. '
  'The critical path is the longest path in tiles from input to output and the throughput 1/x has x = 1 + the largest difference, in full clock cycles, between the longest paths that meet in a gate. Gate counts are those of the node functions.',
  ['inputs', 'histories'], 'all layouts and networks', 'tests judge a few blueprint layouts',
  ['algorithms/verification/', 'algorithms/properties/'],
  [('categories of violations', H + 'algorithms/verification/design_rule_violations.hpp'), ('verdicts', H + 'algorithms/verification/equivalence_checking.hpp'), ('longest paths', H + 'algorithms/properties/critical_path_length_and_throughput.hpp')],
  [dict(src='verification.cpp', scale=14, tscale=2)], 'layouts after random histories of operations, legal layouts and legal layouts broken by one operation, pairs of random networks and their layouts; distinct by history or network',
  'runtime monitoring of the verdicts against recounts on the model the design was built from and against truth tables, ' + SAN,
  'held on the generated designs; the SAT solver behind equivalence_checking is a stand-in that simulates exhaustively (shims/mockturtle/algorithms/equivalence_checking.hpp)', observe=['verdicts, reports and statistics']),
P('C22', 'Reworking a finished layout keeps it legal and its function',
  'Wiring reduction, post-layout optimization (all parameters) and hexagonalization (all ways of extending pins) turn every legal 2DDWave layout into one that is legal, has the same inputs and outputs with the same names in the same order, and computes the same function, also for gates whose operands cannot be swapped and when stopped by a timeout. '
  'Gates are neither added nor lost; wiring reduction never adds wires or area, optimization never adds area (nor, if planar, crossings). Hexagonal layouts are row-clocked, keep wires and crossings unless pins are extended, extended pins reach the first and last row, and planar extension adds no crossing; pins are refused only where an extension was asked for. '
  'Statistics are those of the layouts.',
  ['inputs'], 'all 2DDWave layouts and parameters', 'tests rework a few blueprint layouts, all of commutative gates, and check equivalence',
  ['algorithms/physical_design/wiring_reduction.hpp', 'algorithms/physical_design/post_layout_optimization.hpp', 'algorithms/physical_design/hexagonalization.hpp'],
  [('cut lines', H + 'algorithms/physical_design/wiring_reduction.hpp'), ('relocation and rerouting', H + 'algorithms/physical_design/post_layout_optimization.hpp'), ('operand order and pin routing', H + 'algorithms/physical_design/hexagonalization.hpp')],
  [dict(src='layout_opt.cpp', scale=20, tscale=2)], 'orthogonal() layouts of random networks of 1..8 gates (14 in the thorough run), commutative and not; distinct by network and parameters',
  'runtime monitoring of the layouts: independent legality rules and exhaustive evaluation against the truth table recorded while the network was built, ' + SAN,
  'held on the generated layouts; inputs of a gate that are the same signal (through buffers) are a known finding', observe=['the layouts before and after']),
P('C23', 'Path finding: legal, complete, shortest',
  'On every layout (clocked or not, obstructed or not, gate-level with or without crossings) A* finds a path whenever one exists; every path goes from source to target over adjacent, properly clocked, unobstructed positions and connections without visiting one twice, crossing only connected wires, not along them, and only if asked to; '
  'with a distance function that does not overestimate its cost is minimal. enumerate_all_paths lists exactly the loop-free paths, yen_k_shortest_paths exactly min(k, number of paths) different ones of the smallest lengths; searching changes no obstruction. '
  'Distance functions, maps (all layers) and caches return the defined distances. Routing objectives are exactly the connections between gates, fan-outs and pins; clearing the routing removes the wires and connections only; route_path connects exactly along its path.',
  ['inputs'], 'all layouts, obstructions, objectives', 'tests search a handful of paths on small Cartesian layouts',
  ['algorithms/path_finding/', 'utils/routing_utils.hpp', 'layouts/obstruction_layout.hpp'],
  [('open list and crossing rule', H + 'algorithms/path_finding/a_star.hpp'), ('root and spur', H + 'algorithms/path_finding/k_shortest_paths.hpp'), ('indexing', H + 'algorithms/path_finding/distance_map.hpp'), ('crossable wires', H + 'utils/routing_utils.hpp')],
  [dict(src='paths.cpp', flags=['-DPART=1'], scale=30, tscale=4), dict(src='paths.cpp', flags=['-DPART=2'], scale=60, tscale=6), dict(src='paths.cpp', flags=['-DPART=3'], scale=6, tscale=1)],
  'random grids up to 8x8x2 (all topologies, nine clocking schemes and irregular clocking) with random obstructions; finished layouts with room around them; distinct by layout and obstructions',
  'runtime monitoring: every path is judged step by step, costs and numbers of paths against an exhaustive search, ' + SAN, 'held on the generated layouts', observe=['returned paths and obstruction predicates']),
P('C24', 'Cell-level layouts and their utilities keep what was placed',
  'After every history of assigning and clearing cells, modes, names, defects and tile sizes, a cell-level layout (QCA, stacked and molecular QCA, iNML, SiDB in offset, cube and SiQAD coordinates, with or without a defect surface) holds exactly the cells, types, modes, names, pins and defects assigned last; its counters, iterations, clock zones and copies agree with that. '
  'The SiDBs affected by a defect are exactly those within its extent. Bounding boxes are the tightest ones around all cells (and defects, gates) or say there are none. Areas, spanned areas and physical positions and distances follow from the dimensions of the technology; random positions lie in the area. '
  'Converting between the coordinate systems, normalizing, moving and cloning keep each dot, defect and charge and their mutual distances, also for negative coordinates; layouts are called identical exactly if they are.',
  ['histories', 'inputs'], 'all histories, layouts and positions', 'tests build a few layouts and look at some cells',
  ['layouts/cell_level_layout.hpp', 'layouts/bounding_box.hpp', 'technology/sidb_defect_surface.hpp', 'utils/layout_utils.hpp', 'technology/sidb_nm_position.hpp', 'technology/sidb_nm_distance.hpp', 'technology/area.hpp', 'technology/magcad_magnet_count.hpp', 'types.hpp'],
  [('cell maps', H + 'layouts/cell_level_layout.hpp'), ('boxes', H + 'layouts/bounding_box.hpp'), ('conversions', H + 'utils/layout_utils.hpp'), ('extent of defects', H + 'technology/sidb_defect_surface.hpp')],
  [dict(src='cells.cpp', flags=['-DPART=1'], scale=1), dict(src='cells.cpp', flags=['-DPART=2'], scale=1), dict(src='cells.cpp', flags=['-DPART=3'], scale=1)],
  'histories of up to 40 operations, coordinates -30..30 around the origin where the system allows negative ones; distinct by history', 'runtime monitoring of operation histories against map models, ' + SAN,
  'held on the generated histories; empty layouts are not normalized', observe=['public members of the layouts', 'returned boxes, areas, positions and layouts']),
P('C25', 'A charge distribution surface always agrees with electrostatics',
  'After every history of assigning charges (by cell, index, charge index, all at once), adding and erasing charged defects, local and global external potentials, new physical parameters, copies and assignments, a charge distribution surface reports for every SiDB the charge assigned last, and - once updated - the local potentials, the electrostatic energy and the physical validity (population and configuration stability) '
  'that follow from screened Coulomb potentials between the SiDBs, the defects and the external potentials; distances, pair potentials, charge counts and charge indices agree with that, in all coordinate systems and on both lattice orientations, also for negative positions. Copies live on their own.',
  ['histories', 'inputs'], 'all layouts, parameters, potentials, defects and histories', 'tests look at the potentials and energies of a few fixed layouts',
  ['technology/charge_distribution_surface.hpp', 'technology/sidb_nm_position.hpp', 'technology/sidb_lattice_orientations.hpp'],
  [('energy and potentials', H + 'technology/charge_distribution_surface.hpp recompute_system_energy'), ('validity', H + 'technology/charge_distribution_surface.hpp validity_check'), ('charge index', H + 'technology/charge_distribution_surface.hpp index_to_charge_distribution')],
  [dict(src='sidb_phys.cpp', flags=['-DPART=1'], scale=60, tscale=6)], 'histories of 3..14 operations on layouts of 1..7 SiDBs with up to 3 defects; distinct by layout', 'runtime monitoring of operation histories against an independent electrostatic model (harness/sidb_model.hpp), ' + SAN,
  'held on the generated histories; neutral replacements of charged defects, defects on SiDB positions and configurations closer than 5e-6 V to a stability threshold are not claimed', observe=['public members of charge_distribution_surface']),
P('C26', 'Ground state simulators: exactly the physically valid charge configurations',
  'For every layout, lattice orientation, parameter set, base number, external potential and set of charged defects, the exact engines (exhaustive search, quickexact, ClusterComplete, with any number of threads) return exactly the physically valid charge configurations, each once, with its energy and marked as valid; the heuristic quicksim returns only valid ones (each once). '
  'Minimum energies and ground states are those of the results. The given layout is not changed; threads do not race.',
  ['inputs', 'schedules'], 'all layouts and parameters', 'tests compare the engines on a few gates with recorded energies',
  ['algorithms/simulation/sidb/quickexact.hpp', 'algorithms/simulation/sidb/clustercomplete.hpp', 'algorithms/simulation/sidb/exhaustive_ground_state_simulation.hpp', 'algorithms/simulation/sidb/quicksim.hpp', 'algorithms/simulation/sidb/ground_state_space.hpp', 'technology/sidb_cluster_hierarchy.hpp'],
  [('dependent SiDB and pre-assigned charges', H + 'algorithms/simulation/sidb/quickexact.hpp'), ('potential bounds', H + 'algorithms/simulation/sidb/ground_state_space.hpp'), ('charge index', H + 'technology/charge_distribution_surface.hpp')],
  [dict(src='sidb_phys.cpp', flags=['-DPART=2'], scale=60, tscale=6), dict(src='sidb_phys.cpp', flags=['-DPART=2'], san='tsan', scale=12, tscale=4)],
  'layouts of 1..7 SiDBs on both orientations with up to 3 charged defects and external potentials; 1..4 threads; distinct by layout and parameters', 'runtime monitoring: every result is compared with the enumeration of all charge configurations in an independent model, ' + SAN + ' and ThreadSanitizer',
  'held on the generated layouts; configurations closer than 5e-6 V to a stability threshold may be reported or not', observe=['simulation results']),
P('C27', 'BDL pairs, wires, input patterns and energy statistics of SiDB layouts',
  'In every SiDB layout the detected BDL pairs are the closest pairs of dots of a type within the distance thresholds, each dot in at most one; wires are exactly the chains of pairs, selected by input or output, with the direction of the signal as port. '
  'The input iterator shows for every pattern (in every order of steps, jumps and copies) the layout with exactly the perturbers and input dots this pattern prescribes, whether perturbers are moved or removed, and nothing else changed. '
  'Energy levels, their degeneracy and order, ground states, the probabilities of excited or erroneous states at a temperature, the critical temperature of layouts without logic, whether a heuristic found the ground state, equality of results, time-to-solution and population stability follow from the physically valid charge configurations.',
  ['inputs', 'histories'], 'all SiDB layouts and simulation results', 'tests look at a few gates with recorded numbers',
  ['algorithms/simulation/sidb/detect_bdl_pairs.hpp', 'algorithms/simulation/sidb/detect_bdl_wires.hpp', 'algorithms/iter/bdl_input_iterator.hpp', 'algorithms/simulation/sidb/energy_distribution.hpp', 'algorithms/simulation/sidb/occupation_probability_of_excited_states.hpp', 'algorithms/simulation/sidb/is_ground_state.hpp', 'algorithms/simulation/sidb/time_to_solution.hpp', 'algorithms/simulation/sidb/physical_population_stability.hpp', 'algorithms/simulation/sidb/sidb_simulation_result.hpp', 'algorithms/simulation/sidb/equivalence_check_for_simulation_results.hpp', 'algorithms/simulation/sidb/critical_temperature.hpp'],
  [('greedy pairing', H + 'algorithms/simulation/sidb/detect_bdl_pairs.hpp'), ('growing wires', H + 'algorithms/simulation/sidb/detect_bdl_wires.hpp'), ('input patterns', H + 'algorithms/iter/bdl_input_iterator.hpp'), ('levels', H + 'algorithms/simulation/sidb/energy_distribution.hpp')],
  [dict(src='sidb_gates.cpp', flags=['-DPART=1'], scale=6, tscale=4)], 'random layouts and random gates (rows, columns, Y shapes and gaps of BDL wires in all orientations, with canvas dots, perturbers and defects); distinct by layout',
  'runtime monitoring: results are compared with the structure the gate was built from and with the enumeration of all charge configurations in an independent model, ' + SAN,
  'held on the generated layouts; wires whose dots share a dimer are not claimed', observe=['returned pairs, wires, layouts and statistics']),
P('C28', 'Verdicts on SiDB gates: operational status and operational domains',
  'A gate is reported operational exactly if for every input pattern every ground state encodes the specified outputs (and, if kinks are rejected, shows no kinks in any wire), whichever engine, pruning strategy, or entry point (layout, given pattern layouts, given canvas) is used; the reported non-operational patterns, their reasons, and the patterns and gates said to fail because of kinks only are the actual ones. '
  'Pruning never discards an operational gate. The gate-based critical temperature and its energy gap follow from the logic states of all configurations of all patterns. Operational domains, critical temperature domains and physically valid parameters hold for every contained point the status of a simulation at that point; '
  'grid search contains every point, flood fill and contour tracing stay within what is reachable, the ratio counts the grid; results do not depend on the number of threads and threads do not race; parameters outside their rules are refused.',
  ['inputs', 'schedules'], 'all gates, functions, simulation parameters and sweeps', 'tests judge a few published gates against recorded numbers',
  ['algorithms/simulation/sidb/is_operational.hpp', 'algorithms/simulation/sidb/operational_domain.hpp', 'algorithms/simulation/sidb/operational_domain_ratio.hpp', 'algorithms/simulation/sidb/critical_temperature.hpp', 'algorithms/simulation/sidb/physically_valid_parameters.hpp', 'algorithms/simulation/sidb/verify_logic_match.hpp', 'algorithms/simulation/sidb/calculate_energy_and_state_type.hpp', 'algorithms/simulation/sidb/band_bending_resilience.hpp', 'algorithms/simulation/sidb/can_positive_charges_occur.hpp'],
  [('logic match and kinks', H + 'algorithms/simulation/sidb/is_operational.hpp'), ('pruning', H + 'algorithms/simulation/sidb/is_operational.hpp'), ('domains', H + 'algorithms/simulation/sidb/operational_domain.hpp'), ('state types', H + 'algorithms/simulation/sidb/critical_temperature.hpp')],
  [dict(src='sidb_gates.cpp', flags=['-DPART=2'], scale=2, tscale=3), dict(src='sidb_gates.cpp', flags=['-DPART=3'], scale=8, tscale=6), dict(src='sidb_gates.cpp', flags=['-DPART=3'], san='tsan', suites=['domains'], scale=3, tscale=2)],
  'random gates of 1..3 wires with up to 12 dots, random one- and two-output functions, both coordinate systems, defects, sweeps of 1..3 parameters with up to some hundred points; distinct by gate and parameters',
  'runtime monitoring: verdicts are compared with those of an independent enumeration of all charge configurations, ' + SAN + ' and ThreadSanitizer',
  'held on the generated gates; band bending resilience ignores the input pattern and rejected states count as accepted ones, too (known findings); gates with states closer than the tolerance of the model are not judged', observe=['returned verdicts, domains and statistics']),
P('C29', 'Defect influence, defect clearance, and displacement robustness',
  'A defect position in a returned influence domain is called influential exactly if an atomic defect of the given kind at that position makes the gate non-operational or, under the other definition, changes the set of ground states of some input pattern (or lets positive charges occur); positions of SiDBs are never influential. Grid search looks at exactly the positions of its grid, random sampling at the requested number, quicktrace terminates, and statistics count the domain. '
  'The clearance is the largest distance of an influential position to its closest SiDB. The displacement robustness domain holds exactly the layouts whose SiDBs are moved as allowed (fixed SiDBs stay, no two coincide), each with its operational status, the requested share of them in random mode; the probability of fabricating a working gate is the share of operational layouts over all choices of displaced SiDBs. Results do not depend on the number of threads and threads do not race.',
  ['inputs', 'schedules'], 'all gates, defects, areas, displacements and thread counts', 'tests look at a few published gates and recorded counts',
  ['algorithms/simulation/sidb/defect_influence.hpp', 'algorithms/simulation/sidb/defect_clearance.hpp', 'algorithms/simulation/sidb/displacement_robustness_domain.hpp', 'algorithms/simulation/sidb/is_operational.hpp', 'utils/layout_utils.hpp'],
  [('influence of a position', H + 'algorithms/simulation/sidb/defect_influence.hpp'), ('clearance', H + 'algorithms/simulation/sidb/defect_clearance.hpp'), ('displacements', H + 'algorithms/simulation/sidb/displacement_robustness_domain.hpp')],
  [dict(src='sidb_gates.cpp', flags=['-DPART=4'], scale=3, tscale=3), dict(src='sidb_gates.cpp', flags=['-DPART=4'], san='tsan', scale=1, tscale=1)],
  'random gates of 1..3 wires, defects of charge -1..1, margins of 1..6 positions, steps 1..4, displacements up to 2 in each direction with at most 130 displaced layouts, 1..4 threads; distinct by gate and parameters',
  'runtime monitoring: domains are compared with an independent enumeration of all charge configurations with the defect at each position and with an enumeration of all displacements, ' + SAN + ' and ThreadSanitizer',
  'held on the generated gates; positions at which the model cannot tell states apart are not judged', observe=['returned domains, clearances, probabilities and statistics']),
P('C30', 'Gate design and random SiDB layouts',
  'Every gate returned by a gate designer consists of the unchanged skeleton with its defects and exactly the requested number of further SiDBs at free positions of the canvas (fewer only where the canvas overlaps the skeleton), and it is operational for the specified function. Exhaustive design returns every such gate, QuickCell every one whose wires show no kinks, pruning alone a superset of these; designing until the first solution finds one whenever there is one, and the random designer ends with one. Statistics of pruning are ordered and count the candidates. '
  'Random layouts keep all SiDBs of their skeleton and add exactly the requested number inside of the given area, away from defects, with positive charges being impossible or possible as requested; multiple random layouts are pairwise different and at most as many as requested. Threads do not race.',
  ['inputs', 'schedules'], 'all skeletons, canvases, functions, simulation parameters and thread schedules', 'tests design a few published gates and compare counts',
  ['algorithms/physical_design/design_sidb_gates.hpp', 'algorithms/simulation/sidb/random_sidb_layout_generator.hpp', 'algorithms/simulation/sidb/is_operational.hpp', 'utils/layout_utils.hpp', 'utils/math_utils.hpp'],
  [('designers', H + 'algorithms/physical_design/design_sidb_gates.hpp'), ('random layouts', H + 'algorithms/simulation/sidb/random_sidb_layout_generator.hpp')],
  [dict(src='sidb_gates.cpp', flags=['-DPART=5'], scale=2, tscale=3), dict(src='sidb_gates.cpp', flags=['-DPART=5'], san='tsan', scale=0.4, tscale=1)],
  'skeletons of 1..3 wires, canvases of up to 20 positions for 1..2 dots, random functions, charged and neutral defects; random layouts of up to 6 dots; distinct by skeleton and parameters',
  'runtime monitoring: designed gates are compared with an enumeration of all canvases judged by an independent enumeration of charge configurations, ' + SAN + ' and ThreadSanitizer',
  'held on the generated skeletons; an endless search of the random designer for a gate that does not exist is not examined', observe=['returned gates and layouts, statistics']),
P('C31', 'FGL files give back exactly the layout that was written',
  'Writing a gate-level layout whose gates all lead to outputs to an FGL file and reading it gives the same layout: topology, size, name, clocking scheme with its number of phases and every clock zone, each gate, wire, crossing, input and output with its function, the order of its operands, its position and its name (any characters), and the order of inputs and outputs. Writing does not change the layout; the order of gates in the file, comments and whitespace do not matter. '
  'A file that is malformed (missing elements, numbers that are none, unknown topology, clocking scheme, gate type or function, another topology than that of the layout, cut off) is refused with fgl_parsing_error, and any file at all is either read or refused like that; files that cannot be opened are reported.',
  ['inputs'], 'all gate-level layouts and all files', 'tests write and read some dozen fixed files',
  ['io/write_fgl_layout.hpp', 'io/read_fgl_layout.hpp', 'layouts/clocking_scheme.hpp', 'utils/name_utils.hpp'],
  [('gates in topological order', H + 'io/write_fgl_layout.hpp run'), ('gates by their type', H + 'io/read_fgl_layout.hpp run')],
  [dict(src='io_fgl.cpp', scale=2, tscale=3)], 'random layouts of up to 7x7 tiles on all 9 topologies and 17 clocking schemes with gates of 1..4 operands, placed and routed networks, and mutated files; distinct by layout',
  'runtime monitoring: a fingerprint of the layout is compared before writing and after reading, ' + SAN,
  'held on the generated layouts; tinyxml2 is replaced by a strict parser of the same interface (shims/tinyxml2.h); gates that lead nowhere are not written', observe=['files', 'layouts read', 'exceptions']),
P('C32', 'Cell-level files and defective surfaces are read as they were written',
  'Writing an SiDB layout with its defects to an SQD file and reading it gives the same dots with their types and the same defects with type, charge and Coulomb parameters, for all coordinate systems and both lattice orientations; writing a QCA layout to an fqca file and reading it gives the same cells with type, clock number and label at the same positions, layers and via layers being told by cell modes. '
  'A surface file gives every defect by its index at its position. The name given is the name of the layout, sizes fit what was read. Malformed files are refused with the documented exceptions, which tell the character, label, line, row or index at fault, and any file at all is either read or refused like that, in reasonable time and with bounded stack; files that cannot be opened are reported.',
  ['inputs'], 'all cell-level layouts and all files', 'tests write and read some fixed files',
  ['io/write_sqd_layout.hpp', 'io/read_sqd_layout.hpp', 'io/write_fqca_layout.hpp', 'io/read_fqca_layout.hpp', 'io/read_sidb_surface_defects.hpp', 'utils/name_utils.hpp'],
  [('dots and defects', H + 'io/read_sqd_layout.hpp'), ('cells and definitions', H + 'io/read_fqca_layout.hpp'), ('rows of indices', H + 'io/read_sidb_surface_defects.hpp')],
  [dict(src='cellio.cpp', flags=['-DPART=1'], scale=4, tscale=4), dict(src='cellio.cpp', flags=['-DPART=2'], scale=3, tscale=4)], 'layouts of up to 30 dots and 12 defects of all types, up to 14x14x5 QCA cells, surfaces of up to 60000 columns, and mutated files; distinct by layout or file',
  'runtime monitoring: what is read is compared with what was written, ' + SAN,
  'held on the generated layouts; constant QCA cells have no clock number in fqca files, named ones are not generated; tinyxml2 is replaced by a strict parser of the same interface (shims/tinyxml2.h)', observe=['files', 'layouts read', 'exceptions']),
P('C33', 'Files for other tools show every cell once, where and as what it is',
  'QCADesigner, QCC, QLL, SQD and SVG files are well-formed and hold every cell of the layout exactly once, at its position and layer, with its type, clock zone, mode and name, crossings and vias included, and nothing else: QCADesigner cells with their dots, layers and sizes; MagCAD components and pins with their phases; SVG glyphs with the colour of their zone, tiles with the colour and number of theirs, synchronization elements with both, lattice points of the drawn area. '
  'I/O pins are in the layer of their cells. Layouts that do not meet the documented requirements of a format, and only those, are refused, and writing to a file gives the same as writing to a stream.',
  ['inputs'], 'all cell-level layouts and writer parameters', 'tests compare or merely run some fixed layouts',
  ['io/write_qca_layout.hpp', 'io/write_qcc_layout.hpp', 'io/write_qll_layout.hpp', 'io/write_sqd_layout.hpp', 'io/write_svg_layout.hpp', 'technology/magcad_magnet_count.hpp'],
  [('QCADesigner objects', H + 'io/write_qca_layout.hpp'), ('QLL items and pins', H + 'io/write_qll_layout.hpp'), ('SVG glyphs and tiles', H + 'io/write_svg_layout.hpp')],
  [dict(src='writers.cpp', flags=['-DPART=1'], tscale=4), dict(src='writers.cpp', flags=['-DPART=2'], tscale=4)], 'layouts of up to 60 cells in up to 2 layers of QCA, molQCA, iNML and SiDB cells with all types, modes, zones and names with special characters; distinct by layout',
  'runtime monitoring: files are parsed by independent parsers and compared with the cells that were placed, ' + SAN,
  'held on the generated layouts; where a format leaves a choice (drawing lone crossing-layer cells as crossings), the choice of the code is taken', observe=['cells', 'pins', 'cells drawn', 'tiles']),
P('C34', 'Result files report every result once, with its values',
  'Operational domains, critical temperature domains and defect influence domains are written as one row per point (or operational point, if asked for) with its coordinates in the order of the dimensions, the tag of its status and its temperature, below a header that names the dimensions; domains without or with more than three dimensions are refused. '
  'SiQAD simulation results are well-formed and hold engine, parameters, additional parameters by name, the position of every dot and every charge configuration once, in the order of the positions, with its energy and validity, sorted by energy; location files hold every dot with its charge in every ground state.',
  ['inputs'], 'all domains and simulation results', 'tests write a few fixed results',
  ['io/write_operational_domain.hpp', 'io/write_defect_influence_domain.hpp', 'io/write_sqd_sim_result.hpp', 'io/write_location_and_ground_state.hpp', 'io/csv_writer.hpp'],
  [('rows', H + 'io/write_operational_domain.hpp'), ('distributions', H + 'io/write_sqd_sim_result.hpp'), ('ground states', H + 'io/write_location_and_ground_state.hpp')],
  [dict(src='results.cpp', scale=3, tscale=4)], 'domains of up to 60 points in 0 to 4 dimensions; results of up to 7 charge configurations of up to 9 dots in all coordinate systems and both lattices; distinct by domain or result',
  'runtime monitoring: files are parsed independently and compared with the results and an independent electrostatic model, ' + SAN,
  'held on the generated results; points are generated with values of at most six digits, as more are not written', observe=['domain points written', 'distributions written', 'dots located']),
P('C35', 'Gate libraries turn gate-level layouts into cells that do the same',
  'Applying the QCA ONE library to a gate-level layout gives a cell-level layout of the same name, clocking and size in cells, in which every tile holds its own cells only: cells follow the incoming and outgoing directions of the gate, connected tiles are connected cell by cell across their border and others are not, inverters invert, the majority of the cells around a center evaluates to the function of the gate, crossings leave the two wires apart, and inputs and outputs are cells of that type with the name of the gate. Evaluating the cells of a synthesized layout gives the network that was placed. '
  'Bestagon tiles are the same wherever a tile lies, mirrored for mirrored directions, and gates simulate to their function. Gates that a library lacks or directions that it does not support are refused with the documented exception.',
  ['inputs'], 'all gate-level layouts on the topologies and clocking schemes a library supports', 'tests convert a few fixed layouts and look at some cells',
  ['technology/qca_one_library.hpp', 'technology/sidb_bestagon_library.hpp', 'technology/fcn_gate_library.hpp', 'algorithms/physical_design/apply_gate_library.hpp'],
  [('tiles by ports', H + 'technology/qca_one_library.hpp set_up_gate'), ('rotations and merges of tiles', H + 'technology/fcn_gate_library.hpp'), ('placement of tiles', H + 'algorithms/physical_design/apply_gate_library.hpp')],
  [dict(src='gatelib.cpp', scale=4, tscale=4), dict(src='bestagon.cpp', tscale=1)], 'random and synthesized layouts of up to 7x7 tiles, all single gates with all directions, all Bestagon tiles with all port combinations at random positions; distinct by layout or tile',
  'runtime monitoring: cells are evaluated and traced by an independent model, Bestagon gates simulated by the exact engine, ' + SAN,
  'held on the generated layouts; QCA ONE tiles with two signals that leave to the same side are not judged, Bestagon XOR, XNOR, fanout and crossing tiles by their structure only', observe=['cells of the layouts returned']),
P('C36', 'Exact and graph-oriented physical design keep function, rules and optimality',
  'Whatever exact or graph-oriented physical design returns is a layout of the requested topology, clocking scheme and size limits that is functionally equivalent to the network, keeps names and order of inputs and outputs, follows the clocking, and obeys its options: inputs and outputs at the border, straight inverters, no crossings, synchronized throughput, fixed size, planarity. '
  'Exact design finds a layout whenever one of the given size exists, never one larger than needed (no larger than any known layout under the same rules), relaxing rules never enlarges it, and networks that do not fit are refused. '
  'Graph-oriented design is reproducible for a given seed whatever ran before, returns the layout its statistics describe, never gets worse with more effort under its objective, and refuses networks it does not support.',
  ['inputs', 'schedules'], 'all networks, clocking schemes, options, seeds and thread counts', 'tests place a dozen networks with few options and check equivalence',
  ['algorithms/physical_design/exact.hpp', 'algorithms/physical_design/graph_oriented_layout_design.hpp'],
  [('constraints', H + 'algorithms/physical_design/exact.hpp smt_handler'), ('search space graphs and skipped tiles', H + 'algorithms/physical_design/graph_oriented_layout_design.hpp')],
  [dict(src='exact.cpp', z3=True, scale=3, tscale=3), dict(src='gold.cpp', scale=2, tscale=2)], 'networks of 1..4 nodes behind up to 3 inputs, known layouts of up to 12 tiles on Cartesian, hexagonal and shifted grids with 3 and 4 phases; larger networks of up to some dozen nodes for the graph-oriented search; distinct by network and options',
  'runtime monitoring: layouts are judged by an independent model of gates and design rules, and compared with layouts known to exist, ' + SAN,
  'held on the generated networks; with several threads the graph-oriented search may keep a worse layout (not claimed)', observe=['layouts and statistics returned']),
P('C37', 'Wiring and clock numbers of placed gates',
  'Assigning clock numbers to a gate-level layout succeeds exactly if there are numbers with which every connection leads to the next zone and stacked tiles share theirs; then the layout follows that clocking. '
  'The edge intersection graph of a set of routing objectives has every path of each objective (or the given number of shortest ones) over empty tiles along the clocking as a node once, numbers those that have none, and connects exactly the paths of the same objective and those that use a common tile, or, if crossings are allowed, a common connection. '
  'Routing by colouring connects what it says: every routed objective is joined by wires over formerly empty tiles along the clocking, wires cross only where allowed, gates and other connections stay, the number of unsatisfied objectives is told, nothing but complete routings is returned unless partial ones are asked for, and with exact colouring a routing is found whenever one without crossings exists. Layouts completed by routing compute what they are meant to.',
  ['inputs'], 'all layouts with placed gates and all routing objectives', 'tests route a few fixed pairs of tiles on small layouts',
  ['algorithms/graph/generate_edge_intersection_graph.hpp', 'algorithms/physical_design/color_routing.hpp', 'algorithms/physical_design/determine_clocking.hpp', 'algorithms/path_finding/enumerate_all_paths.hpp', 'utils/routing_utils.hpp'],
  [('conflicts of paths', H + 'algorithms/graph/generate_edge_intersection_graph.hpp'), ('choice of paths', H + 'algorithms/physical_design/color_routing.hpp'), ('clock numbers', H + 'algorithms/physical_design/determine_clocking.hpp')],
  [dict(src='routing.cpp', gc=True, z3=True, scale=10, tscale=4)], 'random layouts of up to 7x7 tiles with gates and wires, crossings included, on Cartesian, shifted and hexagonal grids; up to 5 objectives; distinct by layout',
  'runtime monitoring: clock numbers are compared with a weighted union-find, graphs and routings with an independent enumeration of all paths, ' + SAN,
  'held on the generated layouts; ends of objectives are occupied tiles, gates symmetric functions; the tabu search colouring is not used', observe=['clock numbers', 'graphs', 'wires']),
P('C38', 'Printed and drawn layouts show every tile, cell and connection',
  'Printing a gate-level or cell-level layout writes one character for every tile, cell or dot at its row and column: the symbol of the gate or the kind of cell, the charge of a dot, the kind of defect, with the colours of clock zones and I/Os if asked for, arrows for the connections of neighbouring tiles and nothing else where nothing is. '
  'The drawers write for every tile of a layout one node with the name and function of its gate, its clock zone and its colours in its row and column, for every connection one edge in its direction with its style, and nothing else.',
  ['inputs'], 'all layouts and options of printing', 'tests print a few fixed layouts without looking at the text, or compare a few texts',
  ['io/print_layout.hpp', 'io/dot_drawers.hpp'],
  [('rows of tiles and dots', H + 'io/print_layout.hpp'), ('nodes and edges', H + 'io/dot_drawers.hpp')],
  [dict(src='pictures.cpp', flags=['-O0'], scale=8, tscale=4)], 'random layouts of up to 7x7 tiles on Cartesian, shifted and hexagonal grids, QCA layouts, charged and defective SiDB layouts in all coordinate systems; distinct by layout',
  'runtime monitoring: texts are parsed back and compared with the layout, ' + SAN,
  'held on the generated layouts; crossings appear where all layers have the same zones, names have no quotes; the base drawer of mockturtle is a shim', observe=['characters', 'nodes', 'edges']),
P('C39', 'Crossing minimization, truth tables by name and the truth table reader',
  'Crossing minimization returns a network of the same nodes, fanins, levels, inputs, outputs and function in which every rank is a permutation of the original one (the same one for inputs that are to stay), never with more crossings than before; the number of crossings it tells is that of the network returned. '
  'Functions creating truth tables give the table they are named after. The truth table reader hands out the table of every line of a file once and in order, then nothing, for files and streams alike, whatever follows the table in its line; files that cannot be opened are reported.',
  ['inputs'], 'all balanced networks and all files', 'tests minimize crossings of a few networks and read a few files',
  ['algorithms/graph/mincross.hpp', 'networks/views/mutable_rank_view.hpp', 'utils/truth_table_utils.hpp', 'io/tt_reader.hpp'],
  [('order of ranks', H + 'algorithms/graph/mincross.hpp'), ('ranks', H + 'networks/views/mutable_rank_view.hpp'), ('tables of a file', H + 'io/tt_reader.hpp')],
  [dict(src='ranks.cpp', scale=2, tscale=3)], 'balanced random networks of up to some dozen nodes, all named tables, files of up to some dozen functions; distinct by network or file',
  'runtime monitoring: crossings are counted pairwise, networks simulated and tables computed by an independent model, ' + SAN,
  'held on the generated networks; networks have no dangling nodes', observe=['ranks', 'tables']),
P('C40', 'Which gates fit on a defective surface',
  'The surface analysis bans a gate of a library on a tile exactly if one of its cells would lie on a position that a defect affects: the rectangle around the defect with the spacings of charged or neutral defects or those given instead, inside of the surface. The black list has every list of ports of every banned gate once under its function and tile, and nothing else, for every topology. '
  'A skeleton with defects is called impossible exactly if the defects keep a dot of an output pair from ever being negatively charged.',
  ['inputs'], 'all gate libraries, layouts, surfaces, skeletons and spacings', 'tests look at two gates, a dozen tiles and three defects',
  ['technology/sidb_surface_analysis.hpp', 'technology/is_sidb_gate_design_impossible.hpp', 'technology/sidb_defect_surface.hpp', 'technology/sidb_defects.hpp', 'utils/layout_utils.hpp'],
  [('banned ports', H + 'technology/sidb_surface_analysis.hpp'), ('output pairs', H + 'technology/is_sidb_gate_design_impossible.hpp'), ('affected positions', H + 'technology/sidb_defect_surface.hpp')],
  [dict(src='surface.cpp', scale=10, tscale=5)], 'libraries of up to 12 gates of 5x4 cells with up to 3 lists of ports, up to 7x7 tiles on Cartesian, shifted and hexagonal grids, up to 5 defects; skeletons of 1..3 wires with up to 3 defects; distinct by library, surface and skeleton',
  'runtime monitoring: black lists are compared with rectangles around defects, verdicts with screened Coulomb potentials, both computed independently, ' + SAN,
  'held on the generated surfaces; skeletons closer than 1 meV to the threshold are not judged', observe=['black lists', 'verdicts']),
]
