"""The properties (source of properties.jsonl) and what the manifest says about their checks."""

P = []


def prop(id, title, statement, over, text, why, files, mechanism, note, state=(), observe=(),
         technique=None, na=None):
    P.append(dict(
        rec={'id': id, 'title': title, 'statement': statement,
             'quantifier': {'over': over, 'text': text},
             'why_tests_cant': why,
             'anchors': {'files': files,
                         'state': [dict(zip(('name', 'meaning', 'where'), s)) for s in state],
                         'mechanism': [dict(zip(('name', 'where'), m)) for m in mechanism],
                         'observe_at': list(observe), 'hook_needed': None}},
        note=note, technique=technique, na=na))


GRID = 'crysgsu/gsu/grid.py'
BFS = 'bounded exhaustive exploration of the real code (explicit-state model checking)'

prop('C01', 'Loading a grid file yields exactly the described mesh',
     'Loading a .dat surface grid gives exactly the zones (order, names), faces (order, corner '
     'order, zone, data values under their variable names), node coordinates and title the file '
     'describes; nodes that different zones repeat at the same coordinates become one node exactly '
     'when merging is on, and nodes/edges/faces/zones refer to each other consistently.  What a '
     'Grid object held before does not matter, and a file whose structure is damaged (missing, '
     'duplicated or cut section, wrong counts, an edge with three faces) raises an error instead of '
     'giving a wrong mesh.',
     ['inputs', 'histories'],
     'every well-formed .dat file (any connectivity, zones, order, variables, names, comments), both '
     'merge modes, fresh or reused Grid, and every single structural damage of such a file',
     'The tests load four fixed wing/bunny files and compare nothing but GloId permutations; zone '
     'interfaces, several variables, repeated coordinates, reuse and damaged input are never varied.',
     [GRID, 'crysgsu/gsu/node.py', 'crysgsu/gsu/edge.py', 'crysgsu/gsu/face.py',
      'crysgsu/gsu/zone.py'],
     [('Grid.load', GRID), ('Grid.add_node / find_near_node (rounded coordinates map)', GRID),
      ('Grid.complex_link_face_node_node_edge', GRID)],
     'Complete for every file of the bounded family (all small triangle complexes, zonings, node '
     'sharing patterns, variants, single-line damages); trusts the generator and the comparison, '
     'which are independent of the code under test.')
prop('C02', 'Storing a grid and loading it back preserves the grid',
     'For any grid state reachable by loading, decomposing and editing, the stored .dat file is '
     'well formed and describes exactly the grid in memory, and loading it gives back the same '
     'title, zones, faces with their corner order and data, and node coordinates without loss of '
     'precision; storing changes nothing in memory, and storing the loaded grid again gives the '
     'same file.',
     ['histories', 'inputs'],
     'every grid reachable through load, decomposition and edit histories, any face data, titles '
     'and zone names',
     'The tests store four fixed grids once and never look at the result.',
     [GRID], [('Grid.store', GRID), ('Grid.load', GRID)],
     'Exhaustive over the bounded histories; an own strict parser is the oracle for the format.')
prop('C03', 'Decomposition partitions faces as promised and keeps fixed zones',
     'After any decomposition (mono, random, linear, hierarchical, Farhat) every face belongs to '
     'exactly one zone, zones have consecutive numbers and distinct names, and nothing but the '
     'zones changed; fixed zones keep exactly their faces.  The number of new zones is the '
     'requested one (hierarchical: at most 2^(levels-1)), linear and Farhat zones differ by at most '
     'one face, and hierarchical splits follow coordinate medians with the fewest cut edges.',
     ['inputs', 'histories', 'configurations'],
     'every grid, strategy, number of parts, set of fixed zones and earlier decomposition; for the '
     'random strategy every outcome of the random source',
     'The tests run a few decompositions of two wings and only store the result.',
     [GRID], [('Grid.decompose_*', GRID), ('Grid.split_zone, split_zone_metric', GRID),
              ('Grid.post_decompose, link_nodes_and_edges_to_zones', GRID)],
     'Exhaustive over all bounded meshes, menus of strategies and histories of depth 2 (small '
     'meshes) or 1; choices of the random source are enumerated, not sampled.')
prop('C04', 'Exported solver files agree with the grid and with each other',
     'The .cry files written for the parallel solver contain, for every zone, exactly its nodes, '
     'inner/border/cross edges and faces with local numbering, data and links that agree with the '
     'grid, and for each pair of neighbouring zones both files list the same shared edges in the '
     'same order, so that the exchange buffers of both sides match.  Exporting does not change the '
     'grid.',
     ['inputs', 'histories'],
     'every grid and every decomposition into zones, also after edits',
     'The test writes the files for one wing and never opens them.',
     [GRID], [('Grid.store_mpi', GRID), ('Zone.get_*_slice_str', GRID)],
     'Exhaustive over bounded meshes, zonings, decompositions and edits; an independent parser and '
     'a cross-rank consistency oracle decide.')
prop('C05', 'Atomic edits keep the mesh valid after any history',
     'After any sequence of atomic edits (divide a face, cut an edge by one node or two, swap the '
     'diagonal of two faces, collapse an edge) all links between nodes, edges, faces and zones '
     'agree, every edge has one or two faces, no two edges or faces are the same, global '
     'identifiers are 0..n-1 without gaps, the Euler characteristic is unchanged and nodes are '
     'found by their coordinates.  An edit that would break this (wrong kind of edge, no second '
     'face, result already present, a new point on a node that is joined already) returns False and '
     'leaves the grid as it was.',
     ['histories', 'inputs'],
     'every edge-manifold triangle mesh with any zones, and every history of edits on it',
     'The tests make one edit on a fresh wing and check that GloIds are a permutation.',
     [GRID], [('Grid.divide_face, cut_edge, cut_single_edge, cut_edge_with_two_nodes', GRID),
              ('Grid.collapse_face, collapse_edge', GRID), ('Grid.del_face, del_edge, del_node', GRID)],
     'Breadth-first search of the real Grid over all bounded histories, every state fully checked.')
prop('C06', 'Atomic edits preserve surface, data, zones and orientation',
     'Each edit replaces exactly the faces it is about: dividing and cutting keep the surface and '
     'its orientation, the pieces inherit zone and data of the face they came from, swapping a '
     'diagonal puts the other diagonal into the same quadrilateral and keeps both zones and both '
     'data sets, collapsing removes the two faces at the edge and moves both its ends to the '
     'middle.  All other faces keep nodes, orientation, data, zone and (while still valid) '
     'identifier.',
     ['histories', 'inputs'],
     'every mesh, zoning, data and history of edits',
     'The tests never look at geometry, data, zones or orientation after an edit.',
     [GRID], [('Grid.divide_face, cut_edge, cut_single_edge, cut_edge_with_two_nodes', GRID),
              ('Grid.collapse_face, collapse_edge', GRID)],
     'Breadth-first search of the real Grid against a reference model of every edit (lock step '
     'comparison of the complete face multiset).')
prop('C07', 'Edge kinds, zone adjacency and statistics count correctly',
     'Each edge is classified as exactly one of border, inner, cross according to its faces and '
     'their zones; the zones adjacency matrix counts inner edges of a zone, shared edges of two '
     'zones (symmetric) and border edges; numbers of border nodes and all printed statistics '
     '(faces and edges per zone, cross edges, distribution indicators) agree with a direct count.',
     ['inputs', 'configurations'],
     'every mesh and zoning, before and after decomposition',
     'No test looks at the statistics at all.',
     [GRID, 'crysgsu/gsu/zones_adjacency_matrix.py'],
     [('Edge.is_border / is_inner / is_cross', 'crysgsu/gsu/edge.py'),
      ('ZonesAdjacencyMatrix', 'crysgsu/gsu/zones_adjacency_matrix.py'),
      ('Grid.print_info', GRID)],
     'Exhaustive over bounded meshes, all assignments to at most 4 zones and all decompositions, '
     'against brute force counting.')
prop('C08', 'Breadth-first walk visits each admitted face once, by distance',
     'The walk over faces from a start face lists every admitted face exactly once; connected '
     'parts come one after another, the part of the start face first, and inside a part faces come '
     'in order of their distance from its first face.',
     ['inputs'], 'every mesh, start face and set of admitted faces',
     'The walk is only used inside decompositions of two wings; no test looks at the order.',
     [GRID], [('Grid.bfs_path, bfs_path_connectivity_component', GRID)],
     'Exhaustive over bounded meshes, all start faces and all subsets of admitted faces.')
prop('C09', 'Merging result files writes every value to its own face only',
     'Merging a directory of solver result files produces one grid file per time stamp, in which '
     'every face carries, under the right variable name, the value its result row gives and nothing '
     'else of the grid differs from the original; the order of files, the distribution of faces '
     'over files and foreign files in the directory do not matter.  Summary reports of the parts '
     'are added up per time.',
     ['inputs', 'configurations'],
     'every grid, distribution of faces over result files, set of time stamps, variables, listing '
     'order of the directory and foreign files in it',
     'No test runs a merge.',
     ['crysgsu/merge.py', GRID, 'crysgsu/utils.py'],
     [('merge', 'crysgsu/merge.py'), ('Grid.load_faces_calc_data', GRID)],
     'Exhaustive over the bounded directories, independent parser of the written grids.')
prop('C10', 'Splitting a grid does what the request says or refuses it',
     'split() writes for a request (grid, strategy, fixed zones, recovery factor, kind of output) '
     'exactly the files asked for, with every face of the input in exactly one part, fixed zones '
     'kept, the requested number of parts, data unchanged and the recovery factor added where it '
     'is missing; malformed strategies, unknown files or zones are refused with an error and leave '
     'no files behind.  The command line passes its parameters on as given.',
     ['inputs', 'configurations'],
     'every grid, split strategy, set of fixed zones, recovery factor and output option',
     'No test calls split or its command line.',
     ['crysgsu/split.py', GRID],
     [('split', 'crysgsu/split.py'), ('Grid.decompose_*', GRID), ('Grid.store_mpi', GRID)],
     'Exhaustive over the bounded requests, independent parsers for both written formats.')
prop('C11', 'Split, parallel solver and merge give the same as a serial run',
     'For any surface and any way to split it, a solver that knows of every part only its exported '
     'file and receives from neighbours only the values along the listed shared edges, followed by '
     'merging its result files, gives exactly the fields of the same computation on the undivided '
     'surface.',
     ['inputs', 'configurations'],
     'every surface, zoning, split strategy and set of fixed zones',
     'No test goes through the chain; each side of an interface alone looks right when both are '
     'wrong in different ways.',
     [GRID, 'crysgsu/split.py', 'crysgsu/merge.py'],
     [('split -> Grid.store_mpi', GRID), ('merge -> Grid.load_faces_calc_data', GRID)],
     'Exhaustive over bounded surfaces and splits; bit-exact integer model of the solver.')
prop('C12', 'Exchange between processes is right under every schedule',
     'Under every interleaving of processes and every order of message completion, each exchange '
     'gives every border face copy the values its owner had when it entered the same exchange, for '
     'each variable, touches no other face, never reads or overwrites a buffer that is still in '
     'use by a transfer, and always ends.',
     ['schedules', 'configurations'],
     'every decomposition into neighbouring zones, number of exchanges in a row, schedule of '
     'processes and completion order of messages',
     'The exchange needs MPI and is never run by the tests; one real run would show one schedule.',
     ['crysgsu/crys.py', 'crysgsu/gsu/zone.py', GRID],
     [('get_mpi_borders, exchange and superbuffers', 'crysgsu/crys.py'),
      ('Zone / border lists', 'crysgsu/gsu/zone.py')],
     'All schedules of the emulated MPI up to commuting steps (complete state space for small '
     'systems); trusts the emulation of point to point semantics.',
     technique='stateless exploration of all schedules of the real code under an emulated MPI '
               '(partial-order reduction, explicit-state search)')
prop('C13', 'The parallel program gives the root what each process computed',
     'Run on any number of processes, the main program computes on every zone with the values of '
     'the right faces, gathers at the root for every face of the whole grid the ice height '
     'computed by the process that owns its zone, hands exactly that to the remesher, and stores '
     'the result; the outcome does not depend on the number of processes or their schedule.',
     ['schedules', 'configurations', 'inputs'],
     'every grid, number of processes (also zones of different size or without neighbours) and '
     'order of messages',
     'The main program needs MPI and a native kernel; no test runs it.',
     ['crysgsu/crys.py', 'crysgsu/swim.py', 'crysgsu/cpp'],
     [('__main__ of crys.py', 'crysgsu/crys.py'), ('swim wrapper and kernel', 'crysgsu/cpp')],
     'Whole program with the compiled kernel on an emulated MPI, all bounded meshes, process counts '
     'and send-completion races.',
     technique='exploration of the real program under an emulated MPI with branching on '
               'completion races')

prop('C14', 'The remesher grows the surface by exactly the given ice and changes nothing else',
     'For any surface, field of ice and set of options, the remesher moves every node along its '
     'direction of growth so that the layers of ice over all steps (the largest number within '
     'the limits that a face of the part to be ignored needs, otherwise the limit) have the volumes which '
     'the ice heights require (including smoothing, redistribution of the rest and null-space steps when '
     'asked for); topology, zones, marks, other values and nodes without ice stay as they were, '
     'ice heights become zero; in pseudo 2d mode columns of nodes stay columns and z is kept.  The '
     'command line stores the same result for each file; options that contradict each other or, in '
     'pseudo 2d mode, the columns of the surface are refused.',
     ['inputs', 'configurations'],
     'every surface, ice field, combination of options',
     'The tests never run the remesher; options interact over many steps.',
     ['crysgsu/remeshing.py', 'crysgsu/smoothing.py', 'crysgsu/remesh.py'],
     [('TongRemesher', 'crysgsu/remeshing.py'), ('NullSpaceSmoothing', 'crysgsu/smoothing.py')],
     'Exhaustive over bounded surfaces, ice fields and options; an independent model of the whole '
     'algorithm; comparison within 1e-7.',
     technique='explicit enumeration of inputs and options; the trace of a reference model is '
               'compared with the run of the real code')
prop('C15', 'Volume formulas of growing ice are exact',
     'For every triangle, position in space and directions of growth, the coefficients of the volume '
     'as a polynomial of the height are those of the body bounded by the face and its offset layers, '
     'and the volume swept by a moved triangle is that of the body between its two positions.',
     ['inputs'],
     'every triangle and every three displacements or directions of its corners',
     'Tests evaluate a few bodies; errors show only for oblique directions or certain orders of corners.',
     ['crysgsu/geom/utils.py'],
     [('prizmatoid_volume_coefs', 'crysgsu/geom/utils.py'),
      ('displaced_triangle_volume', 'crysgsu/geom/utils.py')],
     'Exhaustive over lattices; exact rational oracle.',
     technique='explicit enumeration of all lattice configurations against exact rational arithmetic')
prop('C16', 'Null-space smoothing moves nodes along the surface only',
     'For any surface, each smoothing step moves every node by st times the part of the vector to the '
     'mean of the centres of its faces that lies in the null space of the normals of these faces '
     '(with threshold epsilon): inside a plane, along a crease, not at all at a corner; border nodes '
     'stay when they are fixed; the result scales with the units of coordinates; the shifts of a step '
     'are all computed before any node moves.',
     ['inputs', 'configurations'],
     'every surface, scale, threshold, count of steps',
     'The tests never run the smoothing.',
     ['crysgsu/smoothing.py', GRID],
     [('NullSpaceSmoothing', 'crysgsu/smoothing.py'), ('mark_all_fixed_nodes', GRID)],
     'Exhaustive over bounded surfaces and options; an independent model.',
     technique='explicit enumeration of inputs and options; the trace of a reference model is '
               'compared with the run of the real code')
TRI = 'crysgsu/geom/triangle.py'
ENUM = 'explicit enumeration of all bounded configurations run through the real code; exact rational oracle'
prop('C17', 'A triangle classifies points and meets segments exactly where it should',
     'For every triangle (any position, orientation, order of corners, size) and point of its plane, '
     'the class of the point (outside, inside, on which side, at which corner) is the geometric one; '
     'for every segment the result of the intersection is the empty set, the single common point or, '
     'in one plane, the ends of the common part.  Results do not depend on units of coordinates.',
     ['inputs'],
     'every triangle, point, segment, order of corners and scale',
     'Tests evaluate a few points of one triangle; degenerate meetings (through corners, along sides, '
     'in plane) are a thin set which samples miss.',
     [TRI, 'crysgsu/geom/segment.py', 'crysgsu/geom/vect.py'],
     [('Triangle.intersection_with_segment', TRI), ('Triangle.point_in_triangle', TRI)],
     'All triangles, points and segments of the 3x3x3 lattice (classes under symmetry when quick), in '
     'several rational frames and units.', technique=ENUM)
prop('C18', 'The common part of two triangles is found exactly',
     'For any two triangles the points returned by their intersection are exactly the corners of the '
     'common part of both (none, a point, the ends of a segment, the corners of a polygon), each once '
     'up to tolerance, the same set whichever triangle is asked and whatever the order of corners.',
     ['inputs'],
     'every pair of triangles in space, also in one plane or with common corners',
     'Tests look at a few pairs; errors live in the degenerate positions.',
     [TRI, 'crysgsu/geom/segment.py', 'crysgsu/geom/vect.py'],
     [('Triangle.intersection_with_triangle', TRI), ('order of vectors', 'crysgsu/geom/vect.py')],
     'All pairs of lattice triangles up to symmetry of the first, exact rational clipping as oracle.',
     technique=ENUM)
CLOUD = 'crysgsu/geom/triangles_cloud.py'
prop('C19', 'A cloud of triangles answers as its triangles one by one',
     'For every set of triangles the tree of boxes returns for a segment the triangles it meets and '
     'the first one on its way, for two clouds the pairs of triangles that meet, and for the cloud '
     'itself its self-intersections, exactly as testing all triangles one by one does, whatever the '
     'size of the leaves; nothing is lost when boxes only touch or are flat.',
     ['inputs'],
     'every set of triangles, segment and depth of the tree',
     'Tests build one cloud and compare a few answers; a wrong box or branch hides single triangles.',
     [CLOUD, 'crysgsu/geom/box.py', TRI],
     [('TrianglesCloud', CLOUD), ('Box', 'crysgsu/geom/box.py')],
     'Exhaustive over pairs of clouds of lattice triangles, windows of sizes 1 to 8, closed surfaces.',
     technique=ENUM)
DROPS = 'crysgsu/drops.py'
prop('C20', 'Drops fly by the law of drag up to the first thing that ends the flight',
     'A drop takes the air velocity from the nearest node of the air grid, moves by the drag law '
     'step by step and stops at the first of: leaving the box of the air grid, crossing a face of the '
     'surface (then that face and not a further one is reported), or the limit of steps; the law of a '
     'step is finite for all diameters and velocities, also when the drop moves with the air.',
     ['inputs', 'configurations'],
     'every field of air velocities, surface, start, velocity, diameter, time step and limit',
     'No test flies a drop; the ends of a flight compete and depend on all inputs together.',
     [DROPS, CLOUD],
     [('Space.fly', DROPS), ('Space.fly_step, find_nearest', DROPS)],
     'Exhaustive over bounded fields, surfaces and starts; an independent model of the flight.',
     technique='explicit enumeration of flights; the trace of a reference model is compared with the '
               'run of the real code')
prop('C21', 'Water that leaves faces lands on the faces which the drops hit',
     'For every surface and air file the program starts a drop from each face whose Stall exceeds the '
     'threshold, above its centre with its stall velocity and diameter, and sets MImp2 of each face that '
     'drops hit to the sum of their water over its area.  Faces that are not hit keep MImp2, all other '
     'fields except T, Hw, Hi (zeroed) and Stall* (dropped) stay as they were, the result is stored as a '
     'grid and each trajectory as a zone of the trajectories file; missing files are refused.',
     ['inputs', 'configurations'],
     'every surface, zoning, field of stall data, air file layout and set of options',
     'No test runs the program; the sum over faces shows only when several drops meet.',
     [DROPS, GRID],
     [('drops', DROPS), ('read_vel_field_from_file', DROPS)],
     'Exhaustive over bounded surfaces and sets of wet faces, air fields and file layouts; an '
     'independent model.',
     technique='explicit enumeration of inputs and options; the trace of a reference model is '
               'compared with the run of the real code')
CONV = 'crysgsu/convert/'
prop('C22', 'Interpolation gives each face the values of the nearest face',
     'For any two surfaces each face of the second gets T and Hw (Beta for the Lazurit tool) of that '
     'face of the first whose centre is nearest to its centre; all other data, faces, zones, names of '
     'the second and both input files stay as they were, and the result is stored where asked for.  '
     'Missing or misnamed files are refused and leave nothing behind.',
     ['inputs', 'configurations'],
     'every pair of surfaces in any relative position, zoning and set of variables',
     'No test interpolates; a wrong nearest face shows only for some relative positions.',
     [CONV + 'interpolate.py', CONV + 'lazurit_add_beta_from_ansys.py'],
     [('face_centered_interpolation', CONV + 'interpolate.py'),
      ('main', CONV + 'lazurit_add_beta_from_ansys.py')],
     'Exhaustive over pairs of bounded surfaces, positions, zonings, variables; exhaustive search of '
     'the nearest centre as oracle.',
     technique='explicit enumeration of inputs and options; brute-force reference model')
prop('C23', 'The Ansys converter builds the grid with means of nodal data and heat transfer',
     'From the three Ansys files (flow, droplets, adiabatic flow) the converter makes two triangles of '
     'each quadrilateral of the wanted zones (one of a degenerate one), keeps these zones and their order, '
     'and gives each face the means over its nodes of Beta, shear stresses, the heat transfer '
     'coefficient -flux/(T - Tadiabatic) and the recovery factor (Tadiabatic - Tair) 2cp/v^2, whatever '
     'other columns the files have; normals are turned over unless the original ones are asked for.  '
     'Missing files or zones are refused, input files are not changed.',
     ['inputs', 'configurations'],
     'every set of zones, cells, columns, separators, normals option and air parameters',
     'No test runs the converter.',
     [CONV + 'ansys_to_crystal.py'],
     [('ansys_to_crystal', CONV + 'ansys_to_crystal.py')],
     'Exhaustive over bounded files and options; an independent model of the conversion.',
     technique='explicit enumeration of input files and options; the result of a reference model is '
               'compared with the run of the real code')
prop('C24', 'The Lazurit converter gives each triangle the data of its cell',
     'From the grid and solution files of structured blocks of any number, sizes and line breaks the '
     'converter makes a zone of each block and two triangles of each of its cells, joins nodes that '
     'blocks share, and gives both triangles the values of exactly this cell for each variable (shear '
     'stresses with the opposite sign); files that are missing or do not fit together are refused.',
     ['inputs', 'configurations'],
     'every number and sizes of blocks, numbering, line breaks and shapes',
     'No test runs the converter; transposed orders look right for square or uniform blocks.',
     [CONV + 'lazurit_to_crystal.py'],
     [('lazurit_to_crystal', CONV + 'lazurit_to_crystal.py')],
     'Exhaustive over bounded sets of blocks; an independent model of the conversion.',
     technique='explicit enumeration of input files and options; the result of a reference model is '
               'compared with the run of the real code')
prop('C27', 'Refining divides faces where the surface meets itself and nothing else',
     'For every surface the refining tool divides faces only at points where the surface meets itself: the '
     'pieces of a face cover exactly this face, keep its orientation, zone and data, and a face with one '
     'such point (or two on one side) is divided exactly there unless the point is a node already joined.  '
     'Faces that meet nothing, title, variables and zones stay as they were; the result is a valid grid that '
     'does not depend on where objects lie in memory, and the source file is not changed.',
     ['inputs', 'configurations'],
     'every surface with self-intersections, zoning and order of faces',
     'No test runs the tool.',
     ['crysgsu/refine.py', GRID],
     [('refine_grid', 'crysgsu/refine.py'), ('Grid.cut_edge, cut_single_edge, divide_face', GRID)],
     'Exhaustive over bounded lattice surfaces and orders of faces; exact rational arithmetic as oracle.',
     technique='explicit enumeration of inputs; the real program is judged in exact arithmetic')
prop('C25', 'Names of files tell the grid, the process and the time without mistakes',
     'A file counts as a .cry / .txt file of a stem exactly when its name is stem_PPPPP_TTTTTTTTTTTT.cry / '
     '.txt with 5 and 12 decimal digits; splitting such a name gives back stem, numbers and extension, a name '
     'has a time stamp exactly when it ends with _ and 12 digits, and names are grouped by time completely and in '
     'order.  Merging takes no other file of a directory into account.',
     ['inputs', 'configurations'],
     'every file name and stem',
     'Tests look at a handful of names, none of them nearly right.',
     ['crysgsu/utils.py', 'crysgsu/merge.py'],
     [('is_filename_correct_crys_*_file, dummy_split_filename', 'crysgsu/utils.py'), ('merge', 'crysgsu/merge.py')],
     'Exhaustive over all changes of one character (two at separators) and all short names.',
     technique='explicit enumeration of inputs; a reference recognizer as oracle')
prop('C26', 'Explosion shifts each zone as a whole by k times its distance from the mean',
     'For every grid loaded without merging of nodes and every coefficient k the explosion moves all nodes of a '
     'zone by one vector: k times the vector from the mean of all nodes to the mean of nodes of this zone (both '
     'before the move; 0.1 if no k is given).  Faces, links, data, zones, names stay as they were, the stored file '
     'has the moved coordinates, and explosions can be repeated.',
     ['inputs', 'histories'],
     'every grid, zoning, order of nodes and sequence of explosions',
     'The test only runs it.',
     [GRID], [('Grid.move_from_mean_point', GRID), ('Grid.load (is_merge_same_nodes=False)', GRID)],
     'Exhaustive over bounded grids, zonings and histories of explosions; rational model.',
     technique=BFS)
prop('C28', 'Laws of physical values follow their tables',
     'A linear law gives the values of its table at its arguments, is linear between neighbouring ones, and goes '
     'on along the first and the last segment outside; a fitted law is the least squares fit of its function, a '
     'constant law is constant.  Arrays of arguments give arrays of values in the same order, tables are not '
     'changed; the tables of the module are well formed (as many values as arguments, arguments ascend).',
     ['inputs'],
     'every table and argument',
     'No test calls the laws.',
     ['crysgsu/phys/laws.py'], [('LinearLaw, FuncLaw, ConstLaw', 'crysgsu/phys/laws.py')],
     'Exhaustive over bounded tables and arguments; exact rational oracle.',
     technique='explicit enumeration of inputs; exact reference model')
prop('C29', 'Vectors, boxes and triangles obey geometry',
     'For all vectors sums, products, lengths, distances, angles (finite, also for parallel vectors), order, '
     'equality, rounding and nearness are the mathematical ones and operands stay as they were; the product of two '
     'vectors with * is the dot product.  A box is the smallest one around its points, holds exactly the points in '
     'it, and never denies a meeting with a box or segment; area, normal, centre, shortest side, largest angle, '
     'equality and sorting of triangles are right for any order of corners, place and unit.',
     ['inputs'],
     'every vector, box and triangle',
     'Tests add two pairs of vectors.',
     ['crysgsu/geom/vect.py', 'crysgsu/geom/box.py', 'crysgsu/geom/triangle.py'],
     [('Vect', 'crysgsu/geom/vect.py'), ('Box', 'crysgsu/geom/box.py'), ('Triangle', 'crysgsu/geom/triangle.py')],
     'Exhaustive over pairs of lattice vectors, boxes, triangles; exact oracle.',
     technique='explicit enumeration of inputs; exact arithmetic as oracle')
prop('C30', 'Arrays, result files and queries of a grid agree with it after any history',
     'After any history of edits the numpy arrays of a zone (coordinates, variables, links, single variable) list '
     'exactly its nodes and faces in order, triangles, centres, longest edges, nearest nodes, edges between nodes, '
     'border marks and counts of fixed faces are those of the grid, and arrays and triangles are copies.  Result '
     'files list each face under its identifier, and loading one gives each listed face exactly the values of its '
     'row and no other face anything; cleaning and conversion change the named fields only.',
     ['inputs', 'histories'],
     'every grid, zoning, history of edits and result file',
     'Tests store and load results without looking at them.',
     ['crysgsu/gsu/zone.py', 'crysgsu/gsu/face.py', GRID],
     [('Zone.*_np_array, connectivity_list_faces_nodes, get_variable', 'crysgsu/gsu/zone.py'),
      ('Grid.store_faces_calc_data, load_faces_calc_data', GRID), ('Face', 'crysgsu/gsu/face.py')],
     'Exhaustive over bounded grids, zonings and edits; every value compared.',
     technique=BFS)
prop('C31', 'The native kernel adds to each element of its arrays once and nothing else',
     'For arrays of any sizes and places in memory each call of swim.hi adds 1, 2 and 3 to every element of the '
     'first, the second and the third array, and writes nowhere else, also when sizes differ.  Arguments that '
     'cannot be used in place (other types, strides, dimensions) are refused and nothing is changed.',
     ['inputs'],
     'all sizes, alignments and kinds of arguments',
     'No test calls the kernel.',
     ['crysgsu/cpp/src/swim.cpp', 'crysgsu/cpp/src/swim.i'],
     [('hi', 'crysgsu/cpp/src/swim.cpp'), ('typemaps', 'crysgsu/cpp/src/swim.i')],
     'Exhaustive over bounded sizes and places; memory around arrays is compared.',
     technique='explicit enumeration of inputs of the built native code')
