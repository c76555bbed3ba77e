# Properties whose code builds with what the sandbox has (group A).
H = 'include/fiction/'
def P(id, title, statement, over, text, why, files, mech, jobs, rule, technique, note, assumptions=(), observe=(), min_distinct=50):
    return dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=[f if f.startswith(('include', 'vendors')) else H + f for f in files],
                mech=mech, jobs=jobs, rule=rule, technique=technique, note=note, assumptions=list(assumptions), observe=list(observe), min_distinct=min_distinct)
SAN = 'AddressSanitizer+UBSan'
PROPS = [
P('C01', 'Coordinates are totally ordered, hashable values with exact conversions',
  'Every coordinate of the three coordinate systems (offset, cube, SiQAD) keeps the components it was given (within their documented ranges), compares, hashes and prints consistently with them (z before y before x, equal iff same components and same dead flag), and its arithmetic is componentwise (SiQAD: in dot rows). '
  'Conversions between the systems are inverse to each other on the range both can express, saturate instead of wrapping when they cannot, and keep dead coordinates dead. '
  'Area and volume of an aspect ratio equal the number of positions it spans, and wrapping a coordinate at the border of an aspect ratio moves it to the next position in that order.',
  ['inputs'], 'all component values of the documented widths (31/31/1 bit; 32-bit signed), including both ends, and all pairs and triples of coordinates',
  'the test file samples a handful of small coordinates; the ends of the packed bit fields, negative SiQAD rows and consistency between order, equality and hash hold for all values or not at all',
  ['layouts/coordinates.hpp'],
  [('packed 64-bit encoding of offset coordinates', H + 'layouts/coordinates.hpp offset::ucoord_t'), ('dot-row arithmetic', H + 'layouts/coordinates.hpp siqad::coord_t'), ('conversions, area, volume', H + 'layouts/coordinates.hpp')],
  [dict(src='coords.cpp', scale=4)], 'generated coordinate tuples biased to the ends of every component range; a case counts as distinct by the components drawn',
  'runtime monitoring against an independent wide-integer model, ' + SAN,
  'held on the generated coordinates; ranges where the component type itself would overflow (INT_MAX neighbours) are outside the statement', observe=['public members and functions of coordinates']),
P('C02', 'Coordinate ranges enumerate every position of an aspect ratio once, in order',
  'Iterating the coordinates of an aspect ratio (optionally from a start coordinate to a stop coordinate) yields every position exactly once in ascending coordinate order, starts at the start, ends at the stop, and takes as many steps as the aspect ratio spans. '
  'Copies of an iterator advance independently and yield the same rest, and pre- and post-increment yield the values their names promise.',
  ['inputs'], 'all aspect ratios and start/stop pairs of the three coordinate systems',
  'tests iterate a few fixed layouts and compare counts', ['layouts/coordinates.hpp', 'layouts/cartesian_layout.hpp'],
  [('coord_iterator and wrap-around at row, plane and volume ends', H + 'layouts/coordinates.hpp coord_iterator')],
  [dict(src='coord_iter.cpp', scale=8)], 'generated aspect ratios (0..14 per dimension, thin and flat ones included) and start/stop positions',
  'runtime monitoring of iterator traces against an enumerated model, ' + SAN, 'held on generated extents; one known finding: SiQAD aspect ratios whose last row is a single dot', observe=['sequence of coordinates an iterator yields']),
P('C03', 'Factorization iteration: every aspect ratio of every area, once, in area order',
  'Starting from n, the aspect-ratio iterator yields, for n, n+1, n+2, ..., every pair of side lengths whose product is exactly that area, in both orientations, each exactly once and before any pair of a larger area. '
  'Copies, assigned iterators and post-incremented temporaries keep their value and continue with the same sequence independently of the iterator they came from, even after it is gone; comparisons with numbers refer to the current area.',
  ['inputs', 'histories'], 'all start values and all interleavings of increments, copies, assignments and comparisons',
  'tests compare the first few values of three start values and never use a copy', ['algorithms/iter/aspect_ratio_iterator.hpp'],
  [('factor cache and position in it', H + 'algorithms/iter/aspect_ratio_iterator.hpp')],
  [dict(src='factor_iter.cpp', scale=6)], 'start areas 0..20000 and beyond, walks over many areas, random copy/assign/compare histories',
  'runtime monitoring of iterator traces against trial division, ' + SAN, 'held on the generated walks', observe=['dereferenced aspect ratios']),
P('C04', 'Gray code iteration visits every number once and flips one bit per step',
  'For a bound of n bits the iterator visits each of the 2^n codes exactly once, two consecutive codes differ in exactly one bit, and the code at position i is i xor (i/2). '
  'Increments, decrements, +=, -=, +, -, [] and difference act on the position exactly like on a number and never change other iterators; iterators and numbers compare by position.',
  ['inputs', 'histories'], 'all positions up to 2^63 and all sequences of iterator operations',
  'tests walk a few short ranges', ['algorithms/iter/gray_code_iterator.hpp'], [('position to code conversion', H + 'algorithms/iter/gray_code_iterator.hpp')],
  [dict(src='gray.cpp', scale=4)], 'complete sequences of up to 2^16 codes from random starts; random operation sequences at positions up to 2^63',
  'runtime monitoring of operation traces against an integer model, ' + SAN, 'held on the generated traces', observe=['dereferenced codes, comparison results']),
P('C05', 'Simulated annealing returns the best state it visited, with its cost',
  'For every cost function, schedule and neighbour function, simulated annealing evaluates exactly the configured number of cycles per temperature, follows the schedule clamped to [final, initial] until the final temperature is reached, moves to improving neighbours always, never to hopeless ones, and to worse ones with probability exp(-delta/T). '
  'The pair it returns is a state that it visited, with that state\'s cost, and no visited state (the initial one included) is cheaper. '
  'The multi-instance variant starts one annealing per instance and returns the best over all of them.',
  ['inputs', 'histories', 'schedules'], 'all cost landscapes, schedules, temperatures, cycle counts and instance counts',
  'tests check that one toy function is roughly minimised; they cannot see whether the best visited state was the one returned', ['algorithms/optimization/simulated_annealing.hpp'],
  [('best/current state bookkeeping and Metropolis acceptance', H + 'algorithms/optimization/simulated_annealing.hpp')],
  [dict(src='annealing.cpp', scale=4)], 'random landscapes (integral and floating costs), schedules that jump below and above the limits, 0..n cycles; every callback invocation is logged and the log is checked offline',
  'offline checking of callback histories against the Metropolis specification, ' + SAN, 'held on the recorded histories; the acceptance probability is a 7-sigma test over 40,000 moves with a generator the library seeds itself',
  observe=['calls of cost, next and schedule; the returned pair']),
P('C06', 'Concurrent use is race-free and the simulation domain is a write-once map',
  'Annealing from several threads at once and calling the library\'s stateless functions from several threads is free of data races and gives the results a single thread gets. '
  'A simulation domain shared between threads behaves like an atomic write-once map: of several concurrent additions for a key the first takes effect and is never replaced, no addition is lost or invented, a lookup sees the value once an addition completed, and after the threads finished the enumeration lists every key exactly once. '
  'A locked hash map loses no update made under its lock.',
  ['schedules', 'histories'], 'all interleavings of adding, looking up, counting and annealing threads',
  'the tests run single-threaded or only compare results that tolerate races', ['algorithms/optimization/simulated_annealing.hpp', 'algorithms/simulation/sidb/sidb_simulation_domain.hpp', 'utils/phmap_utils.hpp', 'utils/stl_utils.hpp'],
  [('per-thread generator', H + 'algorithms/optimization/simulated_annealing.hpp'), ('try_emplace / if_contains under the map\'s lock', H + 'algorithms/simulation/sidb/sidb_simulation_domain.hpp')],
  [dict(src='concurrent.cpp', san='tsan', shards=4), dict(src='concurrent.cpp', shards=4), dict(src='annealing.cpp', san='tsan', suites=['parallel_double', 'parallel_int'], shards=4)],
  'histories of 2..7 threads; an execution is distinct by its recorded interleaving', 'ThreadSanitizer plus linearizability checking of recorded histories',
  'no race and no violation in the recorded histories; parallel-hashmap is not installed, a stand-in with the same locking contract is used',
  ['the hash map stand-in implements parallel-hashmap\'s documented per-call locking', 'enumerating a domain while other threads add to it is not exercised: parallel-hashmap\'s copy takes no lock that this sandbox could confirm']),
P('C07', 'Potential-to-distance conversion finds the first grid distance that suffices',
  'For every positive potential the conversion returns the smallest multiple of the step 10^-precision (at least one step) at which the screened Coulomb potential has dropped to that value, so larger potentials never give larger distances and finer precision only refines the answer. '
  'Simulation parameters keep what they are constructed with; Coulomb\'s constant of the material and the (+/0) transition level always follow the current permittivity and (0/-) level.',
  ['inputs'], 'all potentials, precisions and material parameters', 'tests compare three values with the default parameters',
  ['algorithms/simulation/sidb/potential_to_distance_conversion.hpp', 'algorithms/simulation/sidb/sidb_simulation_parameters.hpp'],
  [('stepping search', H + 'algorithms/simulation/sidb/potential_to_distance_conversion.hpp')], [dict(src='potential.cpp', scale=4)],
  'potentials derived from target distances of 0.01..30 nm, random material parameters, precision 0..3', 'runtime monitoring against extended-precision physics, ' + SAN,
  'held on generated parameters up to a relative tolerance of 1e-6; non-positive potentials are outside the statement'),
P('C08', 'Technology primitives: charge states, defects, constants and cell types agree',
  'Charge states convert to numbers and back without loss, base-2 and base-3 configurations and their textual form contain exactly the given charges in order. '
  'Defects are classified as charged or neutral by their type, equal and hash equal iff their parameters agree, and their extent is the configured spacing for their class. '
  'Cell types of a technology, their predicates and modes are consistent with each other, and the lattice constants, physical constants and technology geometries have their documented values.',
  ['inputs'], 'all charge configurations, all defect types and parameters, all cell types and modes of all technologies', 'tests look at individual values',
  ['technology/sidb_charge_state.hpp', 'technology/sidb_defects.hpp', 'technology/sidb_lattice_orientations.hpp', 'technology/cell_technologies.hpp', 'technology/constants.hpp'],
  [('enumerations and conversions', H + 'technology/')], [dict(src='primitives.cpp', suites=['charge_states', 'defects', 'cell_types', 'constants'])],
  'every enumeration value, generated configurations and defect parameters', 'runtime monitoring against tables and an integer model, ' + SAN, 'held on generated values, all enumerators covered'),
P('C09', 'Technology-mapping gates are the functions their names say',
  'Every gate of the mapping library has exactly the Boolean function, arity and name it is declared for. '
  'Every decayed variant of a three-input gate is the function the original gate computes with at least one input fixed to a constant.',
  ['inputs'], 'all input assignments of all gates', 'tests never evaluate the expressions; a wrong expression silently corrupts mapped networks',
  ['technology/technology_mapping_library.hpp'], [('GENLIB text', H + 'technology/technology_mapping_library.hpp')], [dict(src='genlib.cpp', shards=1)],
  'all gates, all assignments, all ways to fix inputs', 'exhaustive evaluation of the real gate text by an independent expression evaluator, ' + SAN, 'exhaustive over the gate texts', min_distinct=2),
P('C10', 'Combinatorics and rounding helpers are exact',
  'Binomial coefficients are exact whenever the result fits 64 bits; the enumerations of distributions of k entities on n positions, of cartesian products and of combinations contain every element exactly once and nothing else, and stop when the callback asks to. '
  'Rounding to n decimals gives the nearest such value, is monotone and idempotent, and is the identity on integers; absolute values and the chi-square comparison of distributions are exact.',
  ['inputs'], 'all arguments whose result is representable', 'tests compare a dozen values each', ['utils/math_utils.hpp', 'utils/combination_utils.hpp', 'vendors/combinations/combinations.h'],
  [('combination enumeration', 'vendors/combinations/combinations.h'), ('math helpers', H + 'utils/math_utils.hpp')], [dict(src='combi.cpp', scale=4)],
  'arguments biased to the representable limits', 'runtime monitoring against 128-bit and brute-force models, ' + SAN, 'held on generated arguments'),
P('C11', 'Container, array, hash and map helpers keep their contracts',
  'The search for a common two-element subsequence returns the first match or the end on every pair of ranges, the searchable priority queue always pops a greatest element and finds exactly what it holds, array conversions keep every element, hashes of equal containers are equal and do not depend on the order of unordered ones, tolerant map lookup finds a key within the tolerance iff there is one, and the broken-down local time is the system\'s. '
  'Algorithms run with the library\'s execution policies compute what the sequential algorithm computes.',
  ['inputs', 'histories'], 'all element sequences and operation histories', 'tests sample a few sequences; empty ranges, duplicates and hash collisions are not covered',
  ['utils/stl_utils.hpp', 'utils/array_utils.hpp', 'utils/hash.hpp', 'utils/map_utils.hpp', 'utils/execution_utils.hpp'], [('helpers', H + 'utils/')],
  [dict(src='containers.cpp', scale=4)], 'random sequences over tiny alphabets, operation histories, hash spread over coordinate grids', 'model-based runtime monitoring, ' + SAN, 'held on generated histories'),
P('C12', 'CSV and debug printers write every argument exactly once, in order',
  'A CSV line contains exactly the given values in order, separated by the separator, ends with one line break, is flushed, and honours stream formatting and manipulators. '
  'The layout printers list every tile or cell of the layout once with what is on it.',
  ['inputs', 'histories'], 'all value sequences and stream states', 'tests compare one line', ['io/csv_writer.hpp', 'utils/debug/layout_printer.hpp'],
  [('write_line', H + 'io/csv_writer.hpp'), ('recording printers', H + 'utils/debug/layout_printer.hpp')], [dict(src='text_out.cpp', scale=4)],
  'random sequences of typed values and stream states; layout doubles with random contents', 'runtime monitoring of written text against a model, ' + SAN, 'held on generated lines'),
P('C13', 'Graph colouring: proper, complete, and optimal where promised',
  'Every colouring engine terminates and colours every vertex of a non-empty graph with non-negative contiguous colours such that adjacent vertices differ (the k-colouring engine: or reports none), and the validity, colour and colour-count accessors describe that colouring. '
  'The greedy engines use at most maximum degree + 1 colours and are optimal on chordal (MCS) and bipartite (DSATUR) graphs; the SAT engine with any solver, search tactic and clique hints finds exactly the chromatic number; the k-colouring engine never uses more than k colours. '
  'The reported chromatic number, most frequent colour and its frequency belong to the returned colouring.',
  ['inputs', 'configurations'], 'all graphs, engines, solvers, tactics and clique hints', 'tests colour five fixed graphs', ['algorithms/graph/graph_coloring.hpp', 'vendors/graph-coloring/Source/mcs.cpp', 'vendors/graph-coloring/Source/dsatur.cpp', 'vendors/graph-coloring/Source/lmxrlf.cpp', 'vendors/graph-coloring/Source/tabucol.cpp', 'vendors/graph-coloring/Source/hybrid_dsatur.cpp', 'vendors/graph-coloring/Source/hybrid_lmxrlf.cpp', 'vendors/graph-coloring/Source/coloring_algorithm.cpp'],
  [('heuristic engines', 'vendors/graph-coloring/Source'), ('SAT encoding and search tactics', H + 'algorithms/graph/graph_coloring.hpp')],
  [dict(src='colouring.cpp', gc=True), dict(src='colouring_engines.cpp', gc=True, z3=True)], 'random, structured (complete, cycle, crown, wheel, star, interval, bipartite, edgeless) graphs of 1..12 vertices',
  'runtime monitoring against an exhaustive chromatic-number oracle, ' + SAN, 'held on generated graphs of at most 12 vertices; bill\'s SAT solvers are replaced by a Z3-backed stand-in',
  ['tabu search with n colours for n vertices succeeds within 1000 rounds (failure probability negligible)']),
P('C14', 'Undirected graph: symmetric adjacency, exact bookkeeping, full traversals',
  'After every history of inserting and erasing vertices and edges (self-loops included) the vertices, edges, data and adjacency lists are exactly those of the history\'s mathematical graph, every insertion and erasure reports whether it changed the graph, and lookups of missing elements fail as documented. '
  'Breadth- and depth-first traversals visit exactly the vertices reachable from their start, each once, breadth-first by distance. '
  'Unordered pairs are equal, ordered and hashed independently of their element order.',
  ['histories'], 'all operation histories', 'the library\'s own container has no tests here at all', ['vendors/undirected_graph/source/undirected_graph.h', 'vendors/undirected_graph/source/undirected_pair.h', 'vendors/undirected_graph/source/graph_search_iterator.h'],
  [('adjacency maintenance', 'vendors/undirected_graph/source/undirected_graph.h')], [dict(src='ugraph.cpp', scale=3)], 'random operation histories over up to 8 integer or string vertices', 'model-based runtime monitoring, ' + SAN, 'held on generated histories'),
P('C15', 'Port lists and directions are values: ordered, hashable, loss-free to merge',
  'Port positions are equal iff their coordinates are, port directions iff their directions are, port lists iff their inputs and outputs are; the input/output flags are carried along but are not part of the identity. All of them hash equal when equal and are strictly ordered; flags are reported as given, and merging two port lists keeps every port of both.',
  ['inputs'], 'all positions, directions, flags and lists', 'tests do not touch them directly', ['technology/cell_ports.hpp'], [('port value types', H + 'technology/cell_ports.hpp')],
  [dict(src='primitives.cpp', suites=['ports'])], 'generated ports and lists with small coordinates so that equal ones are frequent', 'model-based runtime monitoring, ' + SAN, 'held on generated values'),
]
