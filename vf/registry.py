"""What each check is: sources, build variant, and what its evidence says."""
CHECKS = {}
NOT_APPLICABLE = {}
def check(id, **kw):
    kw.setdefault("level", "model_checking")
    kw.setdefault("src", [f"checks/{id}.cpp"])
    CHECKS[id] = kw

SCHED = dict(variant="dpor", plain=["vf/sched.cpp"])
RULE_SCHED = ("every schedule of the synchronisation events of the named operations within 'bounds' is executed once on the real code by a controlled scheduler (depth-first over the scheduling choices), with every memory access checked for races by "
              "vector clocks; states = complete schedules executed, transitions = scheduling points passed, traces = explored configurations")
SYM = ["pointsymmetry", "pointgroup", "symmetry", "spg_database", "hall_symbol", "bravais"]
RULE_ENUM = ("every element of the bounded space named in 'bounds' is executed once on the real code; states = distinct inputs/configurations reached, "
             "transitions = calls of the code under test, traces = executions compared step by step with the reference")

check("A01", lib=["debug", "process_id"], rule=RULE_ENUM, technique="exhaustive enumeration of shapes against a reference odometer",
      bounds={"quick": "1..4 dims, extents 0..3, every fixed-dimension vector; every pair of shapes of 1..3 dims with extents 0..3 and 4 dims with extents 0..2",
              "thorough": "as quick with extents 0..4, broadcast pairs to 4 dims with extents 0..3"},
      note="complete within the bounds; trusts the recursive reference enumeration")

check("A02", lib=["debug", "process_id"], variant="asan", rule=RULE_ENUM, technique="stateless exploration of all operation histories to a depth on the real arrays (ASan) against a cell model",
      bounds={"quick": "2 array variables, 6 starting layouts; Array2: every sequence of 2 from ~150 operations, and of 3 (4 for the row-ordered start) from ~45 core operations; N-d Array: every sequence of 2 from ~150, 3 from ~45",
              "thorough": "every start: full alphabet depth 3, core depth 5 (Array2) / 4 (Array)"},
      note="complete within the bounds; storage errors are observed by AddressSanitizer and a count of live array allocations")

check("A03", src=["checks/A03.cpp", "checks/A03b.cpp", "checks/A03c.cpp", "checks/A03d.cpp"], lib=["debug", "process_id", "comparisons"], variant="asan", rule=RULE_ENUM, technique="exhaustive enumeration of operand contents, shapes and memory layouts on the real arrays (ASan) against element-by-element rules",
      bounds={"quick": "Array2<int>, Array2<double>, N-d Array: every content over 2-3 values of 12 (2-d) and 7 (N-d) shapes with up to 8 elements, in 7 memory layouts, for every unary operation; every pair of contents of shapes up to 2x2 (and selected up to 3x2) in every pair of layouts for every binary operation, int/int, int/double, double/double",
              "thorough": "3-value alphabets throughout, all pairs of shapes up to 3x2"},
      note="complete within the bounds; operands and the storage around views are checked unchanged; row products only on compact row-ordered operands (asserted precondition)")

check("N01", lib=["debug", "process_id", "comparisons"], rule=RULE_ENUM, technique="exhaustive enumeration of value pairs on both sides of every decision boundary, for all type mixtures, against the relation in extended precision",
      bounds={"quick": "22 ordered type pairs; per pair 16 tolerance settings; values 0, subnormal and 1e-300..1e300 in both signs plus 16 points around the decision boundary of each; vectors of up to 4 elements over {equal, within tolerance, greater, less}, strides 1..3",
              "thorough": "as quick"},
      note="pairs within 1e-4 (relative) of a decision boundary are left undecided; complex numbers are not comparable with this version of the code")

check("N02", lib=["debug", "process_id", "comparisons"], rule=RULE_ENUM, technique="exhaustive enumeration of small matrices, vectors and integers against exact integer / extended-precision arithmetic",
      bounds={"quick": "all 1x1 (7 values), 2x2 (-2..2) and 3x3 (-1..1) matrices, 24,576 4x4 matrices; 2x2 products over half of all pairs, 3x3 products of all 19,683 matrices with 18 others each; all pairs of 3-vectors over -2..2; all pairs of complex 2-vectors over 6 values; gcd of all pairs below 256 (3 scales), binomial coefficients C(n,k) below 2^64 for n<=300; angles -720..720 degrees in quarter steps, +-0.001",
              "thorough": "all 65,536 4x4 matrices, all 2x2 products, 3x3 products with 95 others"},
      note="floating results are compared to 1e-12 relative (1e-7 for angles, which are ill-conditioned near 0 and pi)")

check("A04", lib=["debug", "process_id"], rule=RULE_SCHED, technique="stateless exploration of thread interleavings of the real arrays under a controlled scheduler, with happens-before race detection and tracked storage",
      bounds={"quick": "two threads, every pair of programs of up to 2 of 8 operations (copy, view, read, drop, assign, resize, decouple, move), 2 preemptions (4 for single operations); three threads with programs of up to 1 operation, 1 preemption; the caller keeping or dropping its own handle; handles that are copies or views; scheduling points at every atomic operation",
              "thorough": "3 preemptions (6 for single operations); three threads, 2 preemptions"},
      note="sequentially consistent interleavings; blocks freed in a run are not reused before its end, so that a use after release or a second release is always seen", **SCHED)

check("M01", lib=["debug", "process_id", "comparisons"], case_limit={"quick": 60, "thorough": 900}, rule=RULE_ENUM, technique="exhaustive enumeration of small cost matrices and preference profiles on the real solvers against the optimum over all permutations",
      bounds={"quick": "all n x n matrices over small alphabets: n=1,2 (5-6 values), n=3 (3-4 values, also tiny, huge, nearly equal and negative ones), n=4 (2 values), 4x4 over 3 values with the last row tied to the others; every preference profile for n=3 and n=4; double, float, int costs; int, long, unsigned indices; data-driven permutations of 2-3 objects over 2-4 values with every neighbour permutation",
              "thorough": "n=3 over 5 values, all 4x4 over 3 values, all 5x5 binary matrices"},
      note="complete within the bounds; Jonker-Volgenant is allowed its built-in slack of 1e-4 of the summed cost per row")

check("M02", lib=["debug", "process_id", "comparisons"], rule=RULE_ENUM, technique="stateless exploration of all operation histories to a depth on the real table against a plain map",
      bounds={"quick": "tables of 1..3 points and 1..3 modes, with and without prepared keys; every sequence of 3 to 5 operations from set, overwrite (by permutation and by index), refresh to another size, insert_keys; all permutations of up to 5 modes in one table",
              "thorough": "sequences of 4 to 6 operations"},
      note="complete within the bounds; recording for a point with itself is outside the property")

check("M04", lib=[], rule=RULE_ENUM, technique="explicit-state exploration of the real status word: every operation from every flag combination and count class, and every sequence of 4",
      bounds={"quick": "31 operations; 16 flag combinations x 11 counts up to the largest; every sequence of 4 operations from a new status",
              "thorough": "every sequence of 5 operations"},
      note="complete within the bounds")

check("M03", lib=["debug", "process_id", "comparisons"] + SYM, rule=RULE_ENUM, technique="exhaustive enumeration of permutations, list contents and memory layouts on the real code against the definition",
      bounds={"quick": "every permutation of up to 6 items, six item types and five index types, with repeated contents up to 4 items; every pair of lists of up to 4 rows (1-3 columns) over 2-3 values in 3 memory layouts, exact and perturbed within the tolerance; index-list helpers over all small lists",
              "thorough": "permutations of up to 8 items (first fixed beyond 6), 3x2 rows over 3 values, 4x2 over 2"},
      note="complete within the bounds")

check("S01", lib=["debug", "process_id", "comparisons"] + SYM, rule=RULE_ENUM, technique="exhaustive enumeration of crystallographic operations, pairs and triples on the real code against exact integer arithmetic",
      bounds={"quick": "the 48 cubic and 24 hexagonal point operations; single operations with translations in 24ths (all multiples of 1/12 and a 1/29 subset of the rest), pairs with 18 translations each (a third of them), all triples of point operations with one assignment of translations; text of all operations with translations in 24ths (multiples with two equal components and a seventh of the rest), five written forms, shifted and computed translations",
              "thorough": "all translations in 24ths, all pairs"},
      note="translations are compared modulo the lattice to 1e-9")

check("S02", lib=["debug", "process_id", "comparisons"] + SYM, rule=RULE_ENUM, technique="exhaustive enumeration of generating sets on the real code against an exact closure, and of index-operation histories against plain lists",
      bounds={"quick": "every sequence of one and two and a third of those of three operations of m-3m, every sequence of up to three of 6/mmm; the generators of all point-group settings in every order and in three other bases, whole groups in every rotation; for all 530 space-group settings the whole group in two orders and up to 64 pairs; all triples of 12 operations of ten space groups; histories of 4 of 17 index operations (point operations), 5 of 9 (motions)",
              "thorough": "all triples of m-3m, up to 48x48 pairs per space group, triples of 24 operations, histories one step longer"},
      note="complete within the bounds; sets that generate an infinite group are outside the property")

check("S03", lib=["debug", "process_id", "comparisons"] + SYM, rule=RULE_ENUM, technique="exhaustive enumeration of the 530 tabulated settings and of a grammar of Hall symbols on the real decoder against the spglib operations and an independent decoder",
      bounds={"quick": "all 530 settings: operations, sizes, centring, inversion, point group, every lookup route, written and equivalent symbols; all Hall symbols of one part (10 rotations x axes x 25 translations, 7 lattices, with and without inversion, 3 notations, 4 origin shifts), every pair of parts, a quarter of the triples",
              "thorough": "all triples"},
      note="expected operations come from the spglib database (checks/spgdata.hpp) and from the rules of the Hall notation")

check("S04", lib=["debug", "process_id", "comparisons"] + SYM, rule=RULE_ENUM, technique="exhaustive enumeration of point groups in all tabulated settings, orders of listing and unimodular bases on the real code against exact integer arithmetic",
      bounds={"quick": "every distinct set of point operations of the 530 settings: every cyclic shift, reversal and exchange of two operations; a seventh of the unimodular bases with entries -1..1 and 27 wider ones; all pairs of vectors over -1..1 for the linking operations; all triples without the identity",
              "thorough": "all unimodular bases with entries -1..1"},
      note="complete within the bounds; the order reported for a rotoinversion is that of its rotation part")

check("L01", lib=["debug", "process_id", "comparisons"] + SYM, rule=RULE_ENUM, technique="exhaustive enumeration of centrings, cells, orientations and vectors on the real transformations against Cartesian values and the lattice points of the centring",
      bounds={"quick": "7 centrings x 10 cells x 2 orientations x built in real or reciprocal space; all vectors with components in sixths up to 1.5 and 180 wider ones, real and reciprocal, double and int, serial and 1-5 threads; all 530 settings with their pure translations",
              "thorough": "components in sixths up to 2.5"},
      note="complete within the bounds; lattices are built without snapping so that every centring is tried with every cell")

check("L02", lib=["debug", "process_id", "comparisons"] + SYM, rule=RULE_ENUM, technique="exhaustive enumeration of cells and of the ways to give them on the real lattice against the metric computed from lengths and angles",
      bounds={"quick": "every combination of 7 values for each angle and 3 for each length, in real and in reciprocal space, in degrees, radians, units of pi and unspecified units; basis vectors of the same cells in a fifth of 26 orientations, by rows and by columns, right- and left-handed; impossible angles",
              "thorough": "14 values for each angle, all orientations"},
      note="cells with a squared unit volume below 0.01 are too nearly flat to be compared and are left out")

check("L03", lib=["debug", "process_id", "comparisons"] + SYM, rule=RULE_ENUM, technique="exhaustive enumeration of lattices and vectors on the real lattice-vector operations against Cartesian arithmetic",
      bounds={"quick": "50 lattices (10 cells given by parameters, reciprocal parameters, turned, left-handed and primitive basis vectors), both spaces; all vectors with half-integer components up to 1.5 and integer components up to 2; every unary operation; pairs N with N, 1 with N, N with 1 for all integer and a fifth of the other vectors, double and int; every pair of unrelated lattices",
              "thorough": "every vector as the single one"},
      note="complete within the bounds")

check("L04", lib=["debug", "process_id", "comparisons"] + SYM, rule=RULE_ENUM, technique="exhaustive enumeration of tabulated settings, crystals, displacements and orientations on the real code against exact site maps and invariant metrics",
      bounds={"quick": "all 530 settings: up to 7 crystals of up to 100 atoms on general and special positions in five ways of writing coordinates; all operations, products of operations; 6 displacement patterns of fixed sites, every single displacement of others; 2 cells x real/reciprocal x 10 displacements of lengths and angles, x 9 orientations x 4 displacements of basis vectors",
              "thorough": "crystals of up to 400 atoms, 27 orientations"},
      note="complete within the bounds; a site that its own symmetry does not fix cannot be restored alone, and is only required to be reported truthfully")
check("B01", lib=True, tetgen=True, rule=RULE_ENUM, technique="exhaustive enumeration of lattices, centrings, options and points on the real zone construction against the half-space definition",
      bounds={"quick": "22 cells of all kinds x 7 centrings x 6 construction options and a turned frame; vertices, faces, edges, normals in three coordinate systems; points on, just inside and just outside every vertex, edge and face, and two grids",
              "thorough": "finer grids"},
      note="complete within the bounds; points outside but within 1e-5 of the surface are not judged, 1e-3 for a lattice with sliver faces")
check("B03", lib=True, tetgen=True, rule=RULE_ENUM, technique="exhaustive enumeration of lattices, options and points on the real reduction against the half-space definition of the zone",
      bounds={"quick": "20 cells x 7 centrings x up to 4 options; a grid over seven zones and every vertex, edge and face point of the zone, just inside, on and just outside, shifted by every face vector, its double and two far translations; 1-4 threads, reversed and single requests, primitive coordinates",
              "thorough": "every grid point and every shift of every special point"},
      note="complete within the bounds")
check("B02", lib=True, tetgen=True, rule=RULE_ENUM, technique="exhaustive enumeration of settings, shapes and options on the real wedge search against images of grid points under the point group",
      bounds={"quick": "every distinct combination of point operations and centring among the 530 settings, 2 shapes compatible with it, with and without time reversal, 3 options; points of a generic grid of 11^3",
              "thorough": "all 530 settings, 5 shapes, a grid of 19^3"},
      note="complete within the bounds; grid points within 1e-6 of the surface of the zone or of an image are not judged")
check("B04", lib=True, tetgen=True, rule=RULE_ENUM, technique="exhaustive enumeration of settings, shapes and points on the real reduction to the irreducible zone, undone with exact operations",
      bounds={"quick": "every distinct combination of point operations and centring among the 530 settings, 2 shapes, with and without time reversal; special and interior points of the irreducible zone, their images under every operation and face translation (a subset), and a grid over three zones; zone and wedge; one to several threads",
              "thorough": "all 530 settings, 5 shapes, all images"},
      note="complete within the bounds")

check("M05", lib=True, tetgen=True, rule=RULE_ENUM, technique="exhaustive enumeration of cells, of their division between tables and of the order of merging on the real tables, against the list of recorded vertices",
      bounds={"quick": "36 sets of 1 to 3 known and 0 to 3 other vertices (and the origin, repeated and nearly equal ones); every pair of cells of 1 or 2 corners, every triple for sets of up to 4 vertices and a 35th of the others, a share of quadruples; every division between up to 4 tables; sequential, pairwise-parallel (1 to 3 threads) and every two-at-a-time merge; 5 to 7 workers' tables (odd and even, 3 to 6 cells)",
              "thorough": "every triple for sets of up to 6 vertices, a sixth of the others, more quadruples"},
      note="workers' tables are filled one after another here; interleavings of filling them are C01's subject")
check("G01", lib=True, tetgen=True, rule=RULE_ENUM, technique="exhaustive enumeration of cut sequences, pairs and operations on real polyhedra against half-space geometry computed independently",
      bounds={"quick": "2 starting boxes, 122 planes (normals with components -2..2), sequences of 2 cuts (a fifth of the second cuts), with and without tolerances, Cartesian and 3 oblique lattices; pairs of cut boxes at 5 offsets; all 48 and 24 operations; equality under all pair swaps, rotations and the reversal of the corner list, and of bodies with one corner or face changed",
              "thorough": "sequences of up to 3 cuts and all pairs"},
      note="complete within the bounds")

check("G02", lib=True, tetgen=True, rule=RULE_ENUM, technique="exhaustive enumeration of domains, size limits, layer counts and points on the real triangulations, with pairwise separation of all cells",
      bounds={"quick": "21 bodies with the origin inside, on a face, edge or corner, or outside and the irreducible (and a third of the first) zones of 42 settings; 5 size limits, 0 to 5 layers, nests of 1 to 5 branchings; every pair of cells, and all points of a grid over each domain",
              "thorough": "3 shapes of every setting, first and irreducible zones, finer limits and grids"},
      note="complete within the bounds")
check("G03", lib=True, tetgen=True, rule=RULE_ENUM, technique="exhaustive enumeration of grids and of points in, on the faces, edges and corners of every cell, over the surface and outside, on the real point location",
      bounds={"quick": "21 bodies and the irreducible (and a third of the first) zones of 42 settings; hybrid grids, meshes of 0 to 3 layers and nests at 2 to 3 sizes; 14 points of every tetrahedron, over 200 of every cuboid, every face, edge and corner of the volume, and 4 distances outside each, infinities and NaN",
              "thorough": "3 shapes of every setting, first and irreducible zones, more sizes, 39 points of every tetrahedron"},
      note="complete within the bounds")
check("G04", lib=True, tetgen=True, rule=RULE_ENUM, technique="exhaustive enumeration of grids, data layouts, requests and thread counts on the real interpolation, against linear fields evaluated directly",
      bounds={"quick": "21 bodies and the irreducible zones of 42 settings; hybrid grid, mesh and nest; real, complex and mixed data in 6 layouts, before and after sorting; up to 120 points at once, reversed and alone, serial and with 1 to 3 threads; points outside at 3 places of a request; the meaning of 400 array shapes with every count of elements, stated or left open",
              "thorough": "3 shapes of every setting, every layout and option, 400 points"},
      note="complete within the bounds; interleavings are C01's subject")
check("G06", lib=True, tetgen=True, rule=RULE_ENUM, technique="exhaustive enumeration of domains, cell sizes, options and thread counts on the real grid builder, with every cell compared with its bin and the volume",
      bounds={"quick": "21 bodies and the irreducible (one size: first) zones of 42 settings, as bare and lattice vectors; 4 cell sizes, both triangulation options, 1 to 3 threads; every cell, every pair of its tetrahedra, every pair of vertices",
              "thorough": "3 shapes of every setting, 7 cell sizes, 1 to 4 threads"},
      note="complete within the bounds; real threads run under the system's scheduler here, interleavings are C01's subject")


check("I01", lib=True, tetgen=True, rule=RULE_ENUM, technique="exhaustive enumeration of operations, pairs of operations, data layouts, frames and requests on the real rotation of interpolated data, against the explicit physical transformation",
      bounds={"quick": "530 settings; every operation and every pair of the point group (with and without time reversal), 3 frames, 6 layouts of scalars, vectors, matrices and branches; phonon eigenvectors and dynamical matrices of up to 12 atoms",
              "thorough": "3 shapes of every setting, all layouts, up to 24 atoms, 3 crystals for each"},
      note="complete within the bounds; real threads run under the system's scheduler here")
check("G05", lib=True, tetgen=True, rule=RULE_ENUM, technique="exhaustive enumeration of zones, grid types, points under every operation and data kinds on the real interpolation through the irreducible zone, against the set of results that symmetry allows",
      bounds={"quick": "42 settings, with and without time reversal, and with atoms; 3 grid types; points inside, on faces, edges and corners under every operation, shifted by lattice vectors, and a grid over several zones; 3 frames and phonons; 1 to 3 threads",
              "thorough": "3 shapes of every setting, more points, every point also on its own"},
      note="complete within the bounds; where a point has several sources on the surface of the irreducible zone any of them may be used")
check("I02", lib=True, tetgen=True, rule=RULE_ENUM, technique="exhaustive enumeration of mode orders, phases, cost functions and data on the real mode matching and interpolation, against brute-force assignment and the common-order truth",
      bounds={"quick": "costs and pairing of up to 4 modes at 3 points for 5 cost functions, 5 element layouts and 4 weights; every order of 2 modes at the corners of a cell (a third of those of 3 modes, 1500 for a cube) with varied phases; trellis, mesh and nest grids of 21 bodies",
              "thorough": "up to 5 modes, every order of 3 modes at up to 4 corners (20000 for a cube)"},
      note="real threads run under the system's scheduler here; interleavings of sorting are C01's subject")
check("H01", lib=True, tetgen=True, rule=RULE_ENUM, technique="exhaustive enumeration of stored objects, of write and overwrite histories up to depth 3, and of every point at which a write can be interrupted, on the real (de)serialisation over an in-memory HDF store",
      bounds={"quick": "about 2000 objects of every storable type; every history of 3 writes of 6 items to 3 entries in 3 modes; interruptions at the first 40 and at about 60 later creations of each object",
              "thorough": "about 10000 objects; every interruption point of each object (up to 20000)"},
      note="HDF5 is not installed here: an in-memory stand-in with HDF5's rules (shim/highfive) stores the real library's calls; the binary file format is not exercised",
      assumptions=["HDF5 stores what it is given, as the in-memory stand-in does"])

check("C01", lib=True, tetgen=True, tetvariant="dpor", case_limit={"quick": 300, "thorough": 900}, rule=RULE_SCHED, technique="stateless exploration of thread interleavings of the real parallel operations under a controlled scheduler, with happens-before race detection, against the single-threaded result",
      bounds={"quick": "98 operations: zones of 5 families, 3 grid types in 2 crystals with 4 data kinds, mode sorting, grid building, merging of 2 to 5 tables, sums; 2 threads with up to 5 preemptions, 3 threads with up to 3, 4 threads for short operations, and 1 preemption at atomic operations",
              "thorough": "8 families, 4 crystals, up to 6 tables, one more preemption each, cut at 45 s for each operation and number of threads"},
      note="sequentially consistent interleavings of synchronisation events; a data race is reported whatever its outcome", **SCHED)

check("C02", lib=True, tetgen=True, tetvariant="dpor", case_limit={"quick": 300, "thorough": 900}, rule=RULE_SCHED, technique="stateless exploration of thread interleavings and fault injection: every subset of failing items and every refused allocation, on the real parallel operations under a controlled scheduler",
      bounds={"quick": "every assignment of 6 kinds of failure to 1 to 3 items on 2 and 3 threads; every subset of 3 points outside 3 grid types; every refused allocation of 98 operations on 2 threads (above 1200: the first and last of each caller) with 1 preemption, and up to 40 failing triangulations of each",
              "thorough": "4 items, 4 points, 4 threads; up to 6000 allocations of each operation, every triangulation, 3 threads"},
      note="a refused allocation which the operation recovers from must leave the result of an undisturbed run", **SCHED)
