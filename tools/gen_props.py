#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/gen_props.py)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

# ---------------------------------------------------------------- arrays
prop("A01", "Subscript and broadcast iteration visits every element exactly once",
 "Iterating the subscripts of an array of any shape, optionally with some dimensions held fixed, visits every matching subscript exactly once, in row-major order, and never one outside the shape. "
 "Iterating two shapes that can be broadcast together visits every element of the common shape once, with subscripts of the two inputs that select the elements the broadcasting rules name; shapes that cannot be broadcast are refused. "
 "Converting a subscript to a linear index and back returns the subscript.",
 ["inputs"], "every shape of 1 to 4 dimensions with small extents, every combination of fixed dimensions, and every pair of broadcastable or non-broadcastable shapes",
 "the unit tests iterate a handful of shapes; a wrong carry or stride shows only for particular mixes of extents, fixed dimensions and singleton dimensions",
 ["src/subscript.hpp", "src/array.hpp", "src/array2.hpp", "src/utilities.tpp"],
 [("subscript odometer SubIt / SubIt2", "src/subscript.hpp"), ("broadcast odometer BroadcastIt / BroadcastIt2", "src/subscript.hpp"), ("sub2lin / lin2sub", "src/subscript.hpp")])

prop("A02", "Array views, copies and in-place edits obey value and aliasing rules",
 "After any sequence of taking views, slicing, extracting, copying, assigning, decoupling, resizing, appending, reshaping and modifying elements, every live array shows exactly the values that sequence implies: views of one array see each other's element writes, independent copies never do. "
 "No operation of such a sequence reads or writes outside the storage it belongs to, and storage stays valid for as long as any array that refers to it lives.",
 ["histories"], "every sequence of array operations up to a small depth over a small pool of arrays that can share storage",
 "the tests take one view and make one copy; aliasing and lifetime errors need a particular order of view, copy, edit, resize and destruction",
 ["src/array.hpp", "src/array.tpp", "src/array2.hpp", "src/array2.tpp"],
 [("shared storage with shift/stride views", "src/array2.hpp"), ("decouple, resize, append, extract, set", "src/array2.tpp"), ("N-dimensional counterpart", "src/array.tpp")],
 state=[("storage owner and reference token", "who frees the data", "src/array2.hpp")])

prop("A03", "Array arithmetic, comparison and reduction agree with element-by-element rules",
 "Adding, subtracting, multiplying and dividing arrays by arrays or scalars, comparing them, and reducing them (sum, product, norm, minimum, maximum, unique rows, cumulative forms) gives the result of applying the operation to each element under the broadcasting rules. "
 "The result does not depend on how the operands are laid out in memory: a whole array, a row or column view, a strided view and a dense copy with the same elements give the same answer, and the operands are left unchanged.",
 ["inputs", "configurations"], "every small shape pair, element values from a small signed alphabet, and every memory layout (dense, row range, row list, column view, column-ordered) of each operand",
 "the tests use one or two dense operands; layout-dependent errors appear only for views and for operand shapes that broadcast",
 ["src/array_functions.hpp", "src/array2.tpp", "src/array.tpp", "src/array_.hpp"],
 [("broadcasting operators", "src/array_functions.hpp"), ("member reductions", "src/array2.tpp")])

prop("A04", "Array storage is released exactly once when threads drop copies concurrently",
 "When several threads copy, view and destroy arrays that share storage, the storage is released exactly once, after the last of them is gone, whatever the interleaving. "
 "No thread reads storage that has been released.",
 ["schedules"], "every interleaving of two or three threads each copying, viewing and destroying arrays that share one block of storage",
 "a test runs one schedule, and the window between reading and dropping the reference count is a few instructions wide",
 ["src/array.hpp", "src/array2.hpp"],
 [("reference token and destructor", "src/array2.hpp"), ("reference token and destructor", "src/array.hpp")])

# ---------------------------------------------------------------- numbers
prop("N01", "Approximate comparison is a consistent tolerance relation",
 "Two numbers compare approximately equal exactly when their difference is within the absolute tolerance or within the relative tolerance of their size (|a-b| <= abs + rel |a+b|, with the tolerances of the first floating-point argument), in either argument order when both have the same tolerances, for every mixture of integer and floating-point types that can represent both; integers are compared exactly, and a finite value is always equal to itself. "
 "Vector, matrix and array comparisons hold exactly when every corresponding element pair does. "
 "The ordered comparisons (less, less-or-equal, greater, greater-or-equal, not equal) are consistent with equality under the same tolerances, so exactly one of less, equal and greater holds.",
 ["inputs", "configurations"], "all pairs from a value lattice that brackets every tolerance boundary, all numeric type pairs, all tolerance settings of a small set",
 "the tests compare a few values far from the tolerance boundary",
 ["src/approx_float.hpp", "src/approx_config.hpp", "src/comparisons.hpp", "src/comparisons.cpp"],
 [("scalar / vector / matrix approximate equality", "src/approx_float.hpp"), ("comparison objects", "src/comparisons.hpp")])

prop("N02", "Small-matrix and number-theory helpers agree with exact arithmetic",
 "Determinant, inverse, transpose, products, cross and dot products, norms, angles, greatest common divisors and binomial coefficients agree with their mathematical definition for every input that the result type can represent. "
 "Inverting a matrix and multiplying back gives the identity, a singular matrix is reported as not invertible, and determinants multiply.",
 ["inputs"], "all 3x3 matrices with entries in {-1,0,1} and products of pairs from a generating subset, all small 2x2 and 4x4 cases, all small integer arguments",
 "the tests evaluate single matrices; sign and index slips in one cofactor affect only matrices in which that cofactor matters",
 ["src/utilities.hpp", "src/utilities.tpp", "src/linear_algebra.hpp", "src/math.hpp"],
 [("matrix helpers", "src/utilities.tpp"), ("gcd, binomial", "src/utilities.hpp"), ("linear algebra on std::array", "src/linear_algebra.hpp")])

# ---------------------------------------------------------------- combinatorics
prop("M01", "Assignment solvers return a valid, minimum-cost assignment",
 "For every square cost matrix each assignment solver returns a one-to-one assignment of rows to columns, its row and column views are inverse to each other, and its total cost equals the least over all assignments. "
 "The stable-matching solver returns a one-to-one matching in which no row and column both prefer each other to their partners.",
 ["inputs"], "all cost matrices up to 3x3 (and symmetric or structured 4x4, 5x5) over a small cost alphabet that includes ties, zeros and negative costs",
 "two or three cost matrices are tested; augmenting-path and tie-handling errors need particular cost patterns",
 ["src/munkres.hpp", "src/lapjv.hpp", "src/smp.hpp", "src/permutation.hpp"],
 [("Munkres state machine", "src/munkres.hpp"), ("Jonker-Volgenant solver", "src/lapjv.hpp"), ("stable matching", "src/smp.hpp"), ("permutation wrappers", "src/permutation.hpp")])

prop("M02", "Stored mode permutations are returned exactly as recorded",
 "The table of mode permutations between grid points returns, for every ordered pair of points, exactly the permutation last recorded for that pair, the identity for a point with itself and for a pair without a record, and always a valid permutation. (Setting never replaces a permutation already recorded for the pair, overwriting always does.) "
 "Refreshing the table for a changed number of points or modes leaves no stale permutation reachable, and equal permutations recorded for different pairs never interfere.",
 ["histories"], "every sequence of record, overwrite, look-up, add-keys, refresh and copy operations up to a small depth on a table for 2 or 3 points and 1 to 3 modes",
 "no unit test exercises the table; its de-duplication and refresh only misbehave for particular histories",
 ["src/permutation_table.hpp", "src/permutation.hpp"],
 [("pair-to-permutation map", "src/permutation_table.hpp")],
 state=[("pair index map", "which stored permutation belongs to a pair", "src/permutation_table.hpp")])

prop("M03", "Permuting and un-permuting stored items are exact inverses",
 "Applying a permutation to a list rearranges its items as the permutation says, and applying the inverse operation with the same permutation restores the original list, for every permutation and list content. "
 "The permutation found between two lists that hold the same rows in different order maps one onto the other, and lists that are not rearrangements of one another are never reported as such. Inverting a list of lists, comparing cyclic rearrangements, reversing and removing repeats agree with their definitions.",
 ["inputs"], "all permutations of up to 5 items and all small lists with repeated items",
 "the tests use one permutation; cycle-following slips show only for particular cycle structures",
 ["src/permutation.hpp", "src/array2.tpp", "src/utilities.tpp"],
 [("apply_permutation / apply_inverse_permutation", "src/permutation.hpp"), ("is_permutation / permutation_vector", "src/array2.tpp")])

prop("M04", "Sorting-status flags record exactly what was set",
 "After any sequence of status updates, the sorted and locked flags and the visit count each report exactly the value last given to them; setting one never changes another. "
 "Recording a visit raises the count by one without disturbing the flags.",
 ["histories"], "every sequence of status operations up to a small depth, breadth-first over all reachable status values",
 "the flags and the count share one word, so interference needs a particular previous value",
 ["src/sorting_status.hpp"], [("packed status word", "src/sorting_status.hpp")],
 state=[("status word", "flags and visit count", "src/sorting_status.hpp")])

prop("M05", "Merging per-thread vertex tables loses, duplicates and misnumbers nothing",
 "When the vertices of grid cells are collected in separate tables and the tables are merged, every distinct vertex that any cell refers to appears exactly once in the merged list, and the merged index of every (cell, corner) pair selects the vertex that was recorded for it. "
 "This holds for every way of dividing the cells between tables and every order of merging, so the set of vertices and what each cell corner resolves to do not depend on the division.",
 ["schedules", "histories"], "every assignment of a small set of cells (with shared, repeated and previously known vertices) to one to four tables, for the sequential and the pairwise-parallel merge",
 "the tests merge one division into tables; a lost re-numbering needs the same vertex to be added by two tables in a particular order",
 ["src/vertex_map_set.h", "src/vertex_map_set.cpp", "src/vertex_index_map.h", "src/vertex_map_knit.h"],
 [("known/added vertex set", "src/vertex_map_set.h"), ("cell corner index map", "src/vertex_index_map.h"), ("knit, reduce, parallel_reduce, consolidate", "src/vertex_map_knit.h")])

# ---------------------------------------------------------------- symmetry
prop("S01", "Symmetry operations compose, invert, act and print consistently",
 "Composing two symmetry operations and applying the result to a position, vector, pseudo-vector or atom site gives the same as applying them in turn, inverses undo their operation, composition is associative, and the order of an operation is the smallest power that is the identity (translations taken modulo the lattice). "
 "Writing an operation as text in x,y,z notation and reading it back gives the same operation.",
 ["inputs"], "all operations that occur in any of the 530 tabulated space-group settings, all pairs drawn from representative groups, and a grid of positions",
 "the tests use a few operations; a sign or order error affects only operations with translations or with non-symmetric matrices",
 ["src/motion.hpp", "src/symmetry.hpp", "src/symmetry.cpp", "src/utilities.tpp"],
 [("motion algebra", "src/motion.hpp"), ("text form", "src/symmetry.cpp")])

prop("S02", "Generating a symmetry group yields its closure, and only that",
 "Generating a group from any set of operations yields a set that contains the given operations and the identity, is closed under composition and inversion, has no repeated operation, and is no larger than the group those operations generate. "
 "Finding generators of a complete group and generating from them again reproduces the group, no generator found is generated by the others, and adding, popping, erasing, looking up and inverting operations by index keep every reported index valid.",
 ["inputs", "histories"], "all subsets of up to 3 generators drawn from each of the 32 crystal classes and from representative space groups, in every order, and short edit histories",
 "a test generates two groups; an incomplete product loop still closes for most generator sets",
 ["src/symmetry.hpp", "src/symmetry.cpp", "src/pointsymmetry.hpp", "src/pointsymmetry.cpp"],
 [("generate / generators / is_complete", "src/symmetry.cpp"), ("point-group counterpart", "src/pointsymmetry.cpp")])

prop("S03", "Every tabulated space-group setting decodes to its true symmetry group",
 "Every tabulated space-group setting can be found by its Hall number, Hall symbol, and Hermann-Mauguin or international name with setting choice, and all routes that name one setting return it. "
 "Decoding its Hall symbol yields operations that form a complete group whose size, centring translations, inversion content and point group are those of the tabulated space group, and re-encoding or re-decoding equivalent symbol text gives the same group.",
 ["inputs"], "all 530 tabulated settings and all look-up routes to each",
 "the tests decode a few symbols, and compare counts only",
 ["src/hall_symbol.hpp", "src/hall_symbol.cpp", "src/spg_database.hpp", "src/spg_database.cpp", "src/pointgroup.cpp", "src/symmetry.cpp"],
 [("Hall symbol parser and generators", "src/hall_symbol.cpp"), ("space-group table and look-up", "src/spg_database.cpp")])

prop("S04", "Point-group classification depends only on the group",
 "The crystallographic point group, Laue class, crystal system family and type of every rotation reported for a set of operations are those of the group the set forms. "
 "They do not depend on the order in which the operations are listed or on the integer-unimodular basis in which they are written, and each single operation's order (that of its rotation part), determinant class and rotation axis satisfy their defining equations.",
 ["inputs"], "the point group of each tabulated setting, under cyclic shifts, reversals and swaps of the operation order and under every axis permutation and a set of unimodular basis changes",
 "the tests classify groups in their standard listing only",
 ["src/pointgroup.hpp", "src/pointgroup.cpp", "src/pointsymmetry.hpp", "src/pointsymmetry.cpp"],
 [("rotation-count look-up", "src/pointgroup.cpp"), ("isometry type, order and axis", "src/pointsymmetry.cpp")])

# ---------------------------------------------------------------- lattices
prop("L01", "Primitive and conventional descriptions name the same vectors",
 "For every centring, transforming a real- or reciprocal-space vector between the conventional and the primitive lattice keeps its Cartesian value, transforming there and back returns the same components, and integer lattice vectors of the primitive lattice are exactly the lattice points the centring defines. "
 "The primitive cell volume is the conventional volume divided by the number of lattice points per cell, and the forward and inverse transformation matrices multiply to the identity.",
 ["inputs", "configurations"], "every centring type, a catalogue of lattices of every crystal system, all integer and half-integer vectors in a box, real and reciprocal space, serial and multi-threaded",
 "the tests transform a few vectors for two centrings",
 ["src/primitive.hpp", "src/transform.hpp", "src/bravais.hpp", "src/bravais.cpp", "src/lattice_dual.hpp"],
 [("centring matrices", "src/primitive.hpp"), ("vector transforms", "src/transform.hpp")])

prop("L02", "A lattice's real, reciprocal and metric descriptions agree",
 "For every non-degenerate cell, given by lengths and angles in degrees or radians or by row or column basis vectors, in real or in reciprocal space, the lengths, angles, volume, metric tensors and basis vectors of both spaces are mutually consistent, and real and reciprocal basis vectors are dual up to 2 pi. "
 "Building a lattice from its own reported parameters, or from its dual's, gives an equivalent lattice; swapping the roles of space twice changes nothing.",
 ["inputs", "configurations"], "a catalogue of cells covering all crystal systems and strongly skewed cells, every constructor route and unit convention",
 "the tests construct mostly orthogonal or hexagonal cells, where several of the formulas coincide",
 ["src/lattice_dual.hpp", "src/lattice_dual.cpp", "src/enums.hpp"],
 [("lattice constructors, metrics and inverses", "src/lattice_dual.hpp")])

prop("L03", "Lattice-vector algebra equals Cartesian vector algebra",
 "Dot products, norms, cross products, angles, conversion to and from Cartesian or the dual space, sums, differences and scaling of lattice vectors equal the same operations on their Cartesian values, with the result in the right space and units. "
 "Operations between vectors of unrelated lattices are refused.",
 ["inputs", "configurations"], "a catalogue of cells, all pairs of small-integer and fractional vectors in a box, both spaces",
 "the tests use orthogonal lattices or a few vectors, where metric errors cancel",
 ["src/array_lvec.hpp", "src/array_lvec_methods.tpp", "src/array_functions.hpp", "src/transform.hpp"],
 [("lattice-vector products and star", "src/array_functions.hpp"), ("conversion to Cartesian", "src/array_lvec.hpp")])

prop("L04", "Atom-site equivalence and snapping respect the symmetry",
 "For a crystal whose atoms obey its space group, every operation maps every atom to the reported equivalent atom of the same type, to within a lattice translation, and each operation's atom map is a permutation that composes like the operations. "
 "Snapping slightly displaced lengths, angles or basis vectors to the symmetry, when asked to, gives values that obey it, that differ little from those given (basis vectors keep their orientation) and that are unchanged when already exact. "
 "Sites slightly displaced from a position that their own site symmetry fixes are returned to it; for other displaced sites snapping reports truthfully whether the result obeys the symmetry.",
 ["inputs"], "one special and one general orbit of atoms for each of a representative set of space-group settings (all settings in the thorough tier), every operation and every atom, with and without small displacements",
 "the tests hold one or two crystals",
 ["src/basis.hpp", "src/lattice_dual.hpp", "src/symmetry.cpp"],
 [("equivalent_after_operation and snapping", "src/basis.hpp"), ("lattice snapping", "src/lattice_dual.hpp")])

# ---------------------------------------------------------------- Brillouin zones
prop("B01", "The first Brillouin zone is the set of points closest to the origin",
 "For every lattice the constructed first Brillouin zone contains exactly the reciprocal-space points that are at least as close to the origin as to any other reciprocal lattice point, to within tolerance. "
 "It is a convex, inversion-symmetric polyhedron with outward-facing planar faces whose volume is that of the primitive reciprocal cell, and its vertices, face centres and normals as reported in every coordinate system describe that same polyhedron.",
 ["inputs", "configurations"], "a catalogue of cells of all crystal systems and centrings including strongly skewed cells, and all points of a reciprocal-space grid around the zone",
 "the tests compare a few zones of symmetric lattices with tabulated vertices",
 ["src/bz.hpp", "src/bz.cpp", "src/bz_wedge.cpp", "src/polyhedron_flex.hpp", "src/polyhedron_faces.hpp", "src/geometry.hpp"],
 [("successive cutting by Bragg planes", "src/bz.cpp"), ("point-inside test", "src/bz.hpp")])

prop("B02", "The irreducible Brillouin zone tiles the first zone under the point group",
 "The irreducible zone lies inside the first zone, its volume is the first zone's divided by the number of point-group operations in use (including inversion when time reversal is requested), and its images under those operations cover the first zone without overlapping in volume. "
 "A zone for which no irreducible part could be found is reported as an error rather than returned wrong.",
 ["inputs", "configurations"], "every tabulated space-group setting (a representative of each in the quick tier) with compatible lattice parameters, with and without time reversal, and all points of a grid in the zone",
 "the tests check volumes for a list of lattices but not the tiling, and not the other options",
 ["src/bz.hpp", "src/bz.cpp", "src/bz_wedge.cpp", "src/polyhedron_flex.hpp", "src/geometry.hpp"],
 [("wedge search", "src/bz_wedge.cpp"), ("irreducible polyhedron check", "src/bz.hpp")])

prop("B03", "Reducing a point to the first zone is exact and canonical",
 "For any reciprocal-space point the reported reduced point lies in the first Brillouin zone and the reported translation is a reciprocal lattice vector such that their sum is the input. "
 "Points inside the zone are returned unchanged with zero translation, and neither the position of a point in the request nor the number of threads changes its result.",
 ["inputs", "configurations"], "all points of a grid reaching several zones out, zone-boundary points included, for a catalogue of lattices and centrings, one to several threads",
 "the tests move random points in a few lattices and do not check canonical form or boundary points",
 ["src/bz_move.cpp", "src/bz.hpp", "src/transform.hpp"], [("iterative face-vector subtraction", "src/bz_move.cpp")])

prop("B04", "Reducing a point to the irreducible zone reports the operation that undoes it",
 "For any reciprocal-space point the reported irreducible point lies in the irreducible zone, and applying the reported point-group operation and adding the reported reciprocal lattice vector gives back the input; the reported inverse operation is the group inverse of the reported one. "
 "Points equivalent under the point group and lattice translations and interior to their irreducible images reduce to the same irreducible point; the number of threads changes nothing.",
 ["inputs", "configurations"], "all points of a grid reaching several zones out for representative lattices of every point group, with and without time reversal, zone and wedge variants, one to several threads",
 "the tests use random points for a few groups and mostly check that no error is thrown",
 ["src/bz_move.cpp", "src/bz.hpp", "src/pointsymmetry.cpp"], [("ir_moveinto and ir_moveinto_wedge", "src/bz_move.cpp"), ("inside-wedge test", "src/bz.hpp")])

# ---------------------------------------------------------------- geometry and grids
prop("G01", "Polyhedron cutting and intersection agree with half-space geometry",
 "Cutting a convex polyhedron by any planes yields the polyhedron of exactly those of its points that lie behind all the planes, and intersecting two convex polyhedra yields exactly their common points, with the intersects test true exactly when the common part has volume. "
 "Volume, centroid, containment, inversion, translation, rotation and convex-hull results agree with the point set they describe, and the two parts of a cut have volumes that add up to the whole. "
 "Two polyhedra compare equal exactly when they have the same corners and the same outward faces, in whatever order those are listed.",
 ["inputs"], "all sequences of up to 3 cutting planes from a finite plane alphabet applied to cubes, tetrahedra, boxes and prisms, against an exact half-space reference evaluated on all points of a fine grid; all pairs of shifted copies",
 "a few cuts are tested; planes through existing vertices, edges and faces are where plane/vertex classification fails",
 ["src/polyhedron_flex.hpp", "src/polyhedron_faces.hpp", "src/polyhedron_faces.cpp", "src/geometry.hpp"],
 [("one_cut / cut", "src/polyhedron_faces.hpp"), ("geometric predicates", "src/geometry.hpp")])

prop("G02", "Tetrahedral meshes partition the volume they fill",
 "Triangulating a polyhedron yields tetrahedra that lie inside it, overlap nowhere, and have volumes that add up to its volume, with the corners of the polyhedron among their vertices and the origin too where it was asked for. A requested cell size is a target which the cells do not greatly exceed on average. "
 "Refinement layers and nested refinements partition the same volume, and each point of the volume lies in a cell of every layer.",
 ["inputs", "configurations"], "a catalogue of first and irreducible zones and simple polyhedra, a set of size limits and refinement levels, and all points of a grid",
 "a test checks one or two zones for total volume",
 ["src/triangulation_simple.hpp", "src/triangulation_layers.hpp", "src/triangulation_poly.hpp", "src/nest.hpp", "src/nest.tpp", "src/mesh.hpp"],
 [("tetgen driver and layer connections", "src/triangulation_layers.hpp"), ("nested subdivision", "src/nest.tpp")])

prop("G03", "Locating a point returns weights that reproduce it",
 "For every point of the gridded volume each grid type returns one cell's vertices with weights that are non-negative (to tolerance), sum to one and reproduce the point, for points in cell interiors and on faces, edges, vertices and the outer surface alike. "
 "Points outside the gridded volume are reported, not interpolated.",
 ["inputs", "configurations"], "all points of a grid over each zone, all vertices, edge mid-points and cell centroids of each constructed mesh, nest and hybrid grid, for a catalogue of lattices and resolutions",
 "tests interpolate random points; boundary points of cells have measure zero in random sampling",
 ["src/mesh.hpp", "src/nest.hpp", "src/trellis_node.hpp", "src/trellis_poly.hpp", "src/triangulation_layers.hpp", "src/triangulation_poly.hpp"],
 [("tetrahedron and cuboid weights", "src/trellis_node.hpp"), ("tree and layer descent", "src/nest.hpp"), ("node look-up", "src/trellis_poly.hpp")])

prop("G04", "Interpolation reproduces any linear field, serially and in parallel",
 "When values that vary linearly over reciprocal space are stored at the grid's points, interpolating at any point of the gridded volume returns the linear field's value there, for real and complex data, any number of modes and elements, and at stored points the stored value itself. "
 "The result does not depend on the number of threads, on the position of a point in the request, or on whether one point or many are asked for. "
 "The shape of the stored data says how many modes it has and which scalar, vector or matrix parts each holds, and data that does not fit the parts stated for it is refused.",
 ["inputs", "configurations"], "all basis linear fields, all grid types, a catalogue of lattices and resolutions, all points of a grid, one to several threads",
 "tests interpolate random points of one lattice with loose tolerance",
 ["src/interpolator_at.tpp", "src/interpolatordual.hpp", "src/mesh.hpp", "src/nest.hpp", "src/trellis_poly.hpp", "src/bz_mesh.hpp", "src/bz_nest.hpp", "src/bz_trellis.hpp"],
 [("weighted combination", "src/interpolator_at.tpp"), ("serial and parallel drivers", "src/trellis_poly.hpp")])

prop("G05", "Interpolation through the irreducible zone respects the crystal symmetry",
 "Interpolating through the irreducible zone at any reciprocal-space point gives scalars equal to the value at the equivalent irreducible point, and vectors and tensors equal to that value transformed by the operation and translation that relate the two points; so a field that is symmetric and linear on cells is reproduced at every equivalent point. "
 "Shifting the requested point by a reciprocal lattice vector changes nothing.",
 ["inputs", "configurations"], "all points of a grid over several zones for representative lattices of many point groups, all grid types, scalar, vector and tensor data",
 "tests compare against one model with loose tolerance",
 ["src/bz_trellis.hpp", "src/bz_mesh.hpp", "src/bz_nest.hpp", "src/interpolator.hpp", "src/bz_move.cpp"],
 [("ir_interpolate_at", "src/bz_trellis.hpp"), ("rotate_in_place", "src/interpolator.hpp")])

prop("G06", "Hybrid grid cells tile the zone and share vertices",
 "The cells of the hybrid grid (cuboids inside, polyhedra at the surface) lie in the gridded polyhedron, have volumes that add up to its volume, and share one stored vertex wherever corners coincide, whatever resolution or triangulation option is chosen. "
 "The grid built does not depend on the number of threads available.",
 ["configurations", "schedules"], "a catalogue of lattices, a range of resolutions, both triangulation options and one to four threads",
 "tests build one or two grids on one thread count",
 ["src/trellis_poly.hpp", "src/trellis_poly_parallel.tpp", "src/trellis_node.hpp", "src/vertex_map_knit.h"],
 [("parallel node construction and merge", "src/trellis_poly_parallel.tpp")])

# ---------------------------------------------------------------- interpolation data
prop("I01", "Data transforms under symmetry operations as a group action",
 "Transforming interpolated data by a symmetry operation leaves scalars alone and turns each real-space, reciprocal-space or axial vector and each tensor element into the components of the physically rotated quantity; phonon eigenvectors are also moved to the equivalent atoms with the corresponding phase. "
 "Transforming by one operation and then by another equals transforming by their product, the inverse undoes it, the identity changes nothing, and the number of threads and other points in the request have no effect.",
 ["inputs", "configurations"], "all pairs of operations of representative point groups, all basis vectors and tensors, every mixture of scalars, vectors and matrices per mode, one to several threads",
 "tests rotate one kind of data for a few operations; order and transpose errors vanish for symmetric or order-two operations",
 ["src/interpolator.hpp", "src/interpolator_real.tpp", "src/interpolator_recip.tpp", "src/interpolator_axial.tpp", "src/interpolator_gamma.tpp", "src/phonon.hpp"],
 [("rip_real / rip_recip / rip_axial / rip_gamma", "src/interpolator.hpp"), ("atom map and phase table", "src/phonon.hpp")])

prop("I02", "Mode matching pairs modes at minimum cost and undoes arbitrary labels",
 "Sorting the stored modes records for each pair of connected points a mode permutation of minimum total cost under the chosen cost weights, and its inverse for the reversed pair. "
 "When the modes at each point are distinguishable and stored in any order and with any complex phase, interpolation after sorting gives every mode the value it would have if all points listed their modes in one common order and phase, up to the mode order and phase of the reference point.",
 ["inputs", "schedules"], "all mode orders at the corners of a cell for up to 3 modes, a set of phases, each cost function, one to several threads and every order of parallel table updates",
 "tests sort one data set and check that it runs",
 ["src/interpolatordual.hpp", "src/interpolator_cost.tpp", "src/interpolator_at.tpp", "src/permutation_table.hpp", "src/lapjv.hpp", "src/permutation.hpp", "src/utilities.tpp"],
 [("sort and cost matrix", "src/interpolatordual.hpp"), ("phase alignment", "src/utilities.tpp")])

prop("H01", "Saved objects load back equal and equivalent",
 "Writing a lattice, symmetry, Brillouin zone, polyhedron, array, interpolation data set, permutation table or whole grid to a file and reading it back yields an object that compares equal, answers every query as the original does, and keeps the options it was made with. "
 "Overwriting an existing entry leaves no trace of the old contents, and other entries of the file are untouched.",
 ["histories", "configurations"], "every storable type over a catalogue of contents and options, and every history of up to three writes and overwrites to two entries of a file",
 "tests round-trip one instance of some types with default options",
 ["src/hdf_interface.hpp", "src/hdf_interface.cpp", "src/interpolator.hpp", "src/interpolatordual.hpp", "src/bz.hpp", "src/bz_trellis.hpp", "src/bz_mesh.hpp", "src/bz_nest.hpp", "src/lattice_dual.hpp", "src/array2.hpp"],
 [("to_hdf / from_hdf of each type", "src/*.hpp")])

# ---------------------------------------------------------------- concurrency
prop("C01", "Parallel operations are race-free and give the serial result",
 "Every multi-threaded operation (moving points, transforming vectors, interpolating, rotating results, sorting modes, merging vertex tables, building the hybrid grid) is free of data races and deadlock and returns the result of its single-threaded run, for every interleaving of its threads and every division of the work between them. "
 "The state of the objects it is called on is unchanged by a query.",
 ["schedules"], "every interleaving of lock, atomic, work-distribution and barrier events of two or three worker threads on small inputs, with every memory access checked for races",
 "a test runs whichever schedule the machine produces; lost updates and unprotected shared writes need a particular one",
 ["src/bz_move.cpp", "src/transform.hpp", "src/mesh.hpp", "src/nest.hpp", "src/trellis_poly.hpp", "src/trellis_poly_parallel.tpp", "src/interpolatordual.hpp", "src/interpolator_real.tpp", "src/vertex_map_knit.h"],
 [("OpenMP parallel regions, mutex and critical sections", "src/*")])

prop("C02", "An error in a worker thread always reaches the caller",
 "If processing any point fails inside a multi-threaded operation, the operation reports an error to its caller carrying every distinct failure's message, whichever points fail and however threads interleave; it never ends the program, hangs, or returns as if it had succeeded. "
 "If no point fails no error is reported.",
 ["schedules", "fault_sequences"], "every subset of failing items of a small batch and every interleaving of two or three workers, for the error collector itself and for each multi-threaded operation given points outside its domain",
 "tests never make a worker fail",
 ["src/thread_exception.h", "src/trellis_poly.hpp", "src/nest.hpp", "src/mesh.hpp", "src/bz_move.cpp"],
 [("exception collector", "src/thread_exception.h"), ("unfound counters", "src/nest.hpp")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
