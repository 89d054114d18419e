"""The properties and their checks, in one place; `python3 lib/spec.py` writes properties.jsonl and MANIFEST.json."""
import json, os, sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe='', tech='', level='model_checking', note='', na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  state=list(state), observe=observe, tech=tech, level=level, note=note, na=na))


S, B, M, G, E_, T_, I_, U = ('traceon/solver.py', 'traceon/backend/__init__.py', 'traceon/mesher.py', 'traceon/geometry.py',
                            'traceon/excitation.py', 'traceon/tracing.py', 'traceon/interpolation.py', 'traceon/util.py')
RC, TC, DC, TRI, KC, ZC, RR, U3 = ['traceon/backend/' + f for f in ('radial.c', 'tracing.c', 'three_d.c', 'triangle.c', 'kronrod.c',
                                  'elliptic.c', 'radial_ring.c', 'utilities_3d.c')]

prop('C01', 'Parallel computation gives the result of the sequential one under every schedule',
     'A field computed by the solver, and the axial interpolation derived from it, is the same for every number of worker threads and for every interleaving of those threads, up to floating point rounding. '
     'Every row of the system and every sample on the axis is computed exactly once, whatever the number of elements is relative to the number of threads.',
     ['schedules', 'configurations'], 'all interleavings of the worker threads (to a preemption bound), all thread counts 1..N+2 for problems of N elements, radial and 3D, including one-element and no-element problems',
     'The test environment pins the number of threads to one; a run of the tests meets one schedule only.',
     [U, S, B, RC, DC], [('split_collect', U), ('Solver.get_matrix / fill_matrix_rows', S), ('fill_matrix_radial', RC), ('fill_matrix_3d', DC), ('_get_interpolation_coefficients', I_)],
     [('system matrix', 'shared numpy array, each worker fills the rows of its chunk', 'Solver.get_matrix'), ('results list', 'one slot per worker', 'util.split_collect')],
     'the charges/potentials/fields of the solved field for TRACEON_THREADS=k under a controlled scheduler',
     tech='stateless model checking of the real worker threads: controlled scheduler with scheduling points at every Python line of the workers and every native call, preemption-bounded exhaustive search, plus native access-set (DPOR) independence check on an instrumented build',
     note='Exhaustive over thread counts and, within the preemption bound, over schedules at Python-line granularity for the listed small problems; native code is checked at memory-access granularity for conflicts between workers. Assumes CPython bytecode of one line is not the place of a race.')

prop('C02', 'A failing worker is never turned into a silently wrong result',
     'If any part of a computation that is distributed over worker threads fails, the caller gets an exception; a field, a set of charges or an interpolation is only returned when every part of it was computed.',
     ['fault_sequences', 'schedules'], 'every single failing native or Python call of a worker, every pair of failures, for every thread count 1..N+1, radial and 3D',
     'No test makes a worker fail, and a failure in a thread only prints a traceback.',
     [U, S, I_], [('split_collect', U), ('Solver.get_matrix', S), ('_get_interpolation_coefficients', I_)],
     [('results list', 'preset slots that a failed worker leaves as they were', 'util.split_collect')],
     'exception versus return of the solver and of the axial interpolation when the k-th call of a worker raises',
     tech='exhaustive fault enumeration on the real code: every worker call (and every pair) is made to fail, for every thread count', level='fault_enumeration',
     note='All single faults and all pairs of faults at the seam between Python and the native library and at the Python level callbacks, for the listed small problems and all thread counts.')

prop('C03', 'The solved electrostatic field honours every excitation that was applied',
     'In the field returned by the solver every surface with a fixed voltage or a voltage function is at its voltage, and the normal component of the displacement is continuous over every dielectric surface with its relative permittivity; a boundary has no normal field. '
     'This holds for every combination of excitations over the groups of the mesh, in radial and in 3D geometries, and does not depend on the order in which groups are named, meshed or excited.',
     ['inputs', 'configurations'], 'all assignments of excitation kinds and small value alphabets to the groups of small geometries, all group orders, radial and 3D',
     'Tests solve a handful of geometries with one excitation layout each; mixtures and orders are not met.',
     [S, E_, RC, DC, TRI], [('Solver.__init__ (types/values per element)', S), ('ElectrostaticSolver.get_right_hand_side', S), ('fill_matrix_radial', RC), ('fill_matrix_3d', DC), ('flux_density_to_charge_factor', RR)],
     [('excitation_types/values', 'per element kind and value', 'Solver.__init__')],
     'potential and field at points off the surfaces; charges at the collocation points through an independent reference kernel',
     tech='exhaustive enumeration of excitation assignments on the real solver against analytic solutions and independent reference kernels',
     note='All assignments over the alphabets for the listed geometries; tolerance is the discretisation error measured analytically, so a defect smaller than that is out of reach.')

prop('C04', 'The solved magnetostatic field honours coils, potentials and magnetic materials',
     'In the magnetic field returned by the solver, coils carry exactly the applied total current, surfaces with a magnetostatic potential are at that potential, and the normal flux is continuous over every magnetizable surface with its relative permeability, the field of the coils included. '
     'A problem with both electric and magnetic excitations gives exactly the electric and the magnetic field of the two problems on their own.',
     ['inputs', 'configurations'], 'all assignments of magnetic excitation kinds and small value alphabets to the groups of small geometries, alone and mixed with electric ones',
     'Tests contain two magnetic lenses; no mixed problem is solved.',
     [S, E_, RC, RR], [('MagnetostaticSolver.get_current_charges', S), ('MagnetostaticSolver.get_right_hand_side', S), ('current_field', RC), ('solve_direct', S)],
     observe='magnetostatic field/potential at points off the surfaces and on the axis',
     tech='exhaustive enumeration of magnetic excitation assignments on the real solver against Biot-Savart and analytic references',
     note='All assignments over the alphabets for the listed geometries, to discretisation accuracy.')

prop('C05', 'Superposition fields recombine to the directly solved field',
     'The superposition solver returns exactly one field for every group with a non-zero fixed voltage, magnetostatic potential or current: the field of that group at unit excitation with all other fixed excitations at zero. '
     'For every choice of the applied values the sum of these fields, weighted with the values, equals the field solved directly.',
     ['inputs', 'configurations'], 'all assignments of voltages/potentials/currents (zero, positive, negative) and dielectrics/magnetizables to up to five groups, radial and 3D',
     'The tests that exist use one einzel lens.',
     [S, E_], [('solve_direct_superposition', S), ('_split_for_superposition', E_)],
     observe='keys of the returned dict; fields and potentials at probe points',
     tech='exhaustive enumeration of excitation assignments; differential against the direct solver on the real code',
     note='Exact to rounding (linear algebra), over all assignments of the alphabet.')

prop('C06', 'Field arithmetic is pointwise arithmetic of the fields',
     'Adding, subtracting, negating and scaling fields gives a field whose electric and magnetic potential and field at every point are the same combination of those of the operands, for boundary-element and for axially interpolated fields; operands are left unchanged. '
     'Operations that have no meaning are rejected rather than giving a wrong field.',
     ['programs', 'inputs'], 'all expression trees over +, -, unary -, scalar * up to a depth, over a pool of electric, magnetic, current and mixed fields, radial, 3D and axial',
     'No test uses an operator other than what the mixed solver needs; programs of operators are unbounded.',
     [S, I_], [('FieldBEM operators', S), ('EffectivePointCharges operators', S), ('FieldAxial operators', I_)],
     observe='electrostatic/magnetostatic potential and field at probe points, traced trajectory',
     tech='explicit-state exploration of all operator expressions up to a depth on the real classes against a pointwise reference model',
     note='All expressions to the stated depth over the pool; compared at probe points to rounding.')

prop('C07', 'Fields are minus the gradient of their potential, with the right symmetry',
     'At every point off the sources the electric field and the magnetic field of magnetic charges equal minus the gradient of the corresponding potential and are free of divergence and curl. '
     'A radial field rotates with the point around the axis, has no azimuthal component, and stays finite and continuous down to and on the axis.',
     ['inputs'], 'all points of a lattice that includes every stratum (on the axis, next to it at every decade, in the plane of an element, at element ends, far away, in every octant), for every field kind',
     'Tests compare single points; the special branches near the axis and in element planes depend on the point.',
     [RC, RR, DC, ZC, 'traceon/backend/three_d_point.c'], [('field_radial / potential_radial', RC), ('ring kernels', RR), ('field_3d / potential_3d', DC), ('current_field', RC), ('elliptic integrals', ZC)],
     observe='*_field_at_point and *_potential_at_point',
     tech='exhaustive evaluation over a stratified finite lattice on the real code against high-order finite differences and independent reference kernels',
     note='Every lattice point for every field kind; between lattice points nothing is claimed.')

prop('C08', 'Axial interpolation reproduces the field over its range and is zero outside',
     'An axially interpolated field agrees with the field it was made from at and near every point of the optical axis between the two ends, both ends included, for every number of samples; its field is minus the gradient of its potential and both are exactly zero beyond the ends. '
     'Potential and field are continuous over the sample positions.',
     ['inputs', 'configurations'], 'every interval and every sample position (and the floating point neighbours of each) for every small number of samples and thread count, electric, magnetic and coil fields',
     'Tests probe the interior of one interpolation; the ends, the nodes and small sample counts are not met.',
     [I_, RC, RR], [('_quintic_spline_coefficients', I_), ('FieldRadialAxial', I_), ('potential_radial_derivs / field_radial_derivs', RC), ('axial_derivatives_radial_ring', RR)],
     [('coefficients', 'one polynomial per interval, one fewer than samples', I_)],
     'potential/field of the axial field at z on, next to and between all samples, and outside',
     tech='exhaustive enumeration of intervals, nodes and floating-point neighbours for all small sample counts on the real code, against the boundary-element field',
     note='All nodes/intervals for all sample counts of the bound.')

prop('C09', 'A traced trajectory is complete and well formed',
     'A trajectory starts with the given position and the given velocity in SI units, has strictly increasing times, and all its samples except the last lie inside the bounds while the last lies outside. '
     'No sample is lost, repeated or altered however long the trajectory is, and every field class can be traced.',
     ['inputs', 'histories'], 'start points inside, on and outside every face of the bounds, directions through every face/edge/corner, every field kind, and trajectories whose number of samples is on either side of every internal storage boundary',
     'Tests trace a few hundred samples in one direction; storage block boundaries are never reached.',
     [T_, B, TC], [('trace_particle_wrapper', B), ('trace_particle', TC), ('Tracer classes', T_)],
     [('block of samples', 'fixed size buffer that is filled and continued', 'trace_particle_wrapper')],
     'times and positions arrays returned by a tracer',
     tech='exhaustive enumeration of start/exit configurations and of trajectory lengths around storage block boundaries on the real tracer, with well-formedness invariants checked on every sample',
     note='All listed configurations; block boundaries exercised at lengths B-2..B+2 and 2B.')

prop('C10', 'Traced electrons obey the Lorentz force in the field that the object reports',
     'Along every trajectory the acceleration is the electron charge over mass times E + v x B, with E and B = mu0 H the values that the same field object returns at that point; the kinetic plus potential energy is conserved in static fields. '
     'The result does not depend on how the field is represented, and tightening the tolerance only makes it more accurate.',
     ['inputs', 'configurations'], 'every field kind (electric, magnetic, coil, mixed; boundary element radial/3D, axial) times a lattice of start positions, directions and energies',
     'Tests compare single trajectories in one or two fields.',
     [T_, B, TC, U3], [('trace_particle', TC), ('*_traceable', TC), ('combine_elec_magnetic_field', U3)],
     observe='(times, positions) of tracers against an independent integration of the reported field',
     tech='exhaustive enumeration of field kinds x launch lattice on the real tracer against an independent high-order integrator',
     note='All launches of the lattice; agreement to the integration tolerance.')

prop('C11', 'Field bounds cut off the field, and nothing else',
     'After bounds are set on a field, it reports no field and a traced electron feels no field at points outside those bounds (any coordinate); inside, both see the full field. '
     'Setting bounds changes no value inside, accepts integers as well as floats, and has no effect on other fields.',
     ['inputs', 'configurations'], 'every combination of below/inside/above in x, y and z, for radial and 3D, electric and magnetic fields, with and without bounds, bounds as ints/floats/lists',
     'No test sets field bounds.',
     [S, T_, B, TC], [('set_bounds', S), ('field_radial_traceable / field_3d_traceable', TC), ('Tracer3D_BEM', T_)],
     observe='traced trajectories, *_field_at_point',
     tech='exhaustive enumeration of the 27 box octants x field kinds on the real code',
     note='All cells of the enumeration.')

prop('C12', 'Plane intersections are found exactly when the trajectory meets the plane',
     'The intersection of a trajectory with a plane is the point (and velocity), linearly interpolated between the two samples around it, of the last place where the trajectory meets the plane; an error is raised if and only if it does not meet the plane. '
     'The result depends on the plane only, not on the length or the sign of its normal or on which of its points is given.',
     ['inputs', 'histories'], 'every assignment of below/on/above to trajectories of up to six samples, a crossing at every place of a long trajectory, axis and oblique planes, normals of both signs and several lengths',
     'Two trajectories are tested; none touches a plane, and none misses it.',
     [T_, B, TC], [('plane_intersection', TC), ('*_plane_intersection', T_)],
     observe='returned 6-vector or ValueError',
     tech='exhaustive enumeration of all sign/zero patterns to a bounded length on the real code against a reference polyline model',
     note='Complete over the alphabet of signed distances to the stated length.')

prop('C13', 'Geometric transformations act pointwise and exactly, on every kind of object',
     'Moving, rotating, mirroring and mapping a path, surface, collection or mesh gives the object whose every point is the transformed point; lengths of parametrisations, breakpoints, names, groups and connectivity are kept and the original is unchanged. '
     'Sequences of transformations compose like the affine maps they stand for, and a transformation by nothing is the identity.',
     ['programs', 'inputs'], 'all sequences of transformations up to a depth over an alphabet with every axis, sign, origin and a zero argument, on every kind of object',
     'Tests apply single transformations to single paths.',
     [M, G], [('GeometricObject.move/rotate/mirror_*', M), ('map_points of Path/Surface/collections/Mesh', G)],
     observe='points, names and groups of the transformed object',
     tech='explicit-state breadth-first exploration of transformation sequences on real objects against a 4x4 affine-matrix reference model',
     note='All sequences to the depth bound; states deduplicated by affine map.')

prop('C14', 'Path construction and path algebra follow the curve they denote',
     'Every point of a constructed path lies at the given distance along the intended curve from the intended start: lines, arcs, circles, rectangles, extensions, concatenations, closings, cuts and phase shifts, in any combination. '
     'Corners stay breakpoints, the total length is the sum of the parts, cutting and rejoining is the identity, and operands are unchanged.',
     ['programs', 'inputs'], 'all programs of path operations up to a depth over lattice points and arc angles in every quadrant and both directions',
     'Tests check one arc, one spline and path length; compositions are untested.',
     [G], [('Path.__rshift__, cut, add_phase, line_to, arc, arc_to, close', G), ('Path.from_irregular_function', G)],
     observe='p(t) over all t, path_length, breakpoints',
     tech='explicit-state exploration of programs of path operations on the real class against an arc-length polyline/arc reference model',
     note='All programs to the depth bound.')

prop('C15', 'Meshing a path keeps its corners, its order and its size limit',
     'The mesh of a path is one chain of line elements from its start to its end (closed if the path is closed) whose vertices are points of the path in order, that has a vertex at every breakpoint and no element longer than the mesh size. '
     'With higher order elements the extra points lie on the path between the ends of their element, and all elements belong to the group of the path name.',
     ['inputs', 'configurations'], 'all combinations of small paths (every kind, open/closed, breakpoint layout), mesh sizes/factors around every rounding boundary, element order, name handling and orientation option',
     'Tests mesh a few shapes; rounding boundaries and breakpoint layouts are not enumerated.',
     [G, M], [('discretize_path', G), ('Path.mesh', G), ('PathCollection.mesh', G)],
     observe='points, lines and groups of the mesh',
     tech='exhaustive enumeration of path x size x order configurations on the real mesher with geometric invariants checked on every element',
     note='All configurations of the bound.')

prop('C16', 'Meshing a surface covers it exactly once, without holes, overlaps or cracks',
     'The triangles of a surface mesh have their vertices on the surface, cover its parameter domain exactly once and fit together edge to edge, also across its sections and where neighbouring parts are refined differently. '
     'Elements respect the mesh size, closed surfaces give closed meshes, and all triangles belong to the group of the surface name.',
     ['inputs', 'configurations'], 'all refinement patterns that a small alphabet of mesh size functions produces, all breakpoint layouts in both directions, all surface constructors',
     'Tests mesh a sphere and a rectangle and look at degenerate triangles only.',
     [M, G], [('_subdivide_quads', M), ('PointsWithQuads.to_triangles', M), ('_mesh / _copy_over_edge', M), ('Surface._sections', G)],
     [('quads', 'refinement tree of a section', '_subdivide_quads')],
     'triangles and points of Surface.mesh',
     tech='exhaustive enumeration of refinement patterns/breakpoint layouts/constructors on the real mesher with exact tiling and conformity invariants',
     note='All configurations of the bound; tiling checked exactly in the parameter plane for planar patches.')

prop('C17', 'Combining and dissecting meshes preserves every element and its group',
     'Adding meshes, extracting a group, removing lines or triangles, mapping points, flipping normals and raising the order keep exactly the elements, coordinates and group memberships that the operation denotes, in any sequence. '
     'Groups with the same name merge, other groups and the operands are untouched, and indices always refer to existing elements and points.',
     ['programs', 'histories'], 'all sequences of mesh operations up to a depth over a pool of small meshes with overlapping points and equal and different names, lines, triangles, both, or none',
     'Tests use meshes built in one step.',
     [M], [('Mesh.__add__, extract_physical_group, remove_*, flip_normals, _to_higher_order_mesh', M), ('_merge_dicts, _concat_arrays', M), ('_remove_degenerate_triangles', M)],
     [('physical_to_lines/triangles', 'group name to element indices', M)],
     'multiset of (group, element coordinates) of the mesh',
     tech='explicit-state breadth-first exploration of mesh operation sequences on the real class against a multiset-of-named-elements reference model',
     note='All sequences to the depth bound, states deduplicated by canonical content.')

prop('C18', 'Normals of a connected group can always be made to point outward or inward',
     'Whatever the initial orientation and order of the elements of a closed connected surface or closed contour, asking for outward (inward) normals makes all of them point outward (inward), changes nothing but orientations, and asking again changes nothing. '
     'Groups by default get outward normals when meshed, and several separate bodies in one group are all oriented.',
     ['inputs'], 'all 2^n initial orientations and all element orders (or all rotations) of small closed bodies and contours, both dimensions, both element orders, several bodies in one group',
     'Tests orient pairs of triangles or lines.',
     [M, TRI], [('_ensure_triangle_orientation / _reorient_triangles', M), ('_ensure_line_orientation', M), ('triangle_orientation_is_equal', TRI), ('_get_connected_elements', M)],
     observe='element orientations after ensure_outward/inward_normals and mesh construction',
     tech='exhaustive enumeration of all 2^n orientation patterns on the real code against geometric inside/outside',
     note='Complete for the listed bodies.')

prop('C19', 'Merging duplicate points changes no element and loses no point',
     'When a mesh is constructed, equal points become one, points that differ beyond the documented rounding stay apart, and every line and triangle still has the same vertex coordinates in the same order; degenerate triangles are removed from the mesh and from their groups, and nothing else is.',
     ['inputs'], 'all small point lists over an alphabet with duplicates, negative zeros, near-duplicates and sign changes, in every order, with all small element lists over them',
     'Tests have a handful of point lists.',
     [M], [('_deduplicate_points', M), ('_remove_degenerate_triangles', M)],
     observe='points, lines, triangles, groups of a constructed Mesh',
     tech='exhaustive enumeration of point/element lists over a small alphabet on the real constructor against a naive reference',
     note='Complete over the alphabet and sizes.')

prop('C20', 'What is written to disk reads back the same',
     'A mesh written to a file reads back with the same points and elements, and the way to name everything in a read mesh names every element; saved objects read back equal to what was saved. '
     'A failing read or write raises an error instead of returning a different object.',
     ['inputs', 'histories'], 'all small meshes (lines/triangles, both orders, empty parts) times file formats, sequences of write/read, fields and interpolations saved and restored',
     'One test loads one mesh.',
     [M, U], [('read_file/write_file, to_meshio/from_meshio', M), ('Saveable', U)],
     observe='content of the re-read object',
     tech='exhaustive enumeration of small meshes x formats x write/read sequences on the real code against the in-memory object',
     note='Complete over the listed meshes and formats.')

prop('C21', 'An excitation records exactly what was applied, to exactly the right elements',
     'After any sequence of calls the excitation of a group is the last one applied to it, calls for unknown groups or unusable values are rejected, and the active elements of either kind are exactly the elements of the groups with such an excitation. '
     'The index of a group points at that group\'s own elements in the returned list, for every layout of groups over the mesh; the electric, magnetic and current queries agree with what was applied.',
     ['programs', 'histories', 'configurations'], 'all sequences of excitation calls up to a depth over every group of meshes with every interleaving of groups, unnamed elements and element kinds',
     'Tests apply each excitation once on meshes with groups in order.',
     [E_], [('Excitation.add_*', E_), ('_get_active_elements', E_), ('_split_for_superposition', E_)],
     [('excitation_types', 'group name to (kind, value)', E_)],
     'str/queries of the excitation, get_*_active_elements',
     tech='explicit-state breadth-first exploration of excitation call sequences x group layouts on the real class against a dictionary reference model',
     note='All sequences to the depth bound, states deduplicated.')

prop('C22', 'Solutions follow symmetries of the problem',
     'Translating along the axis, mirroring, rotating (in 3D), scaling the geometry, scaling the voltages, reordering elements and choosing the other of two equivalent meshes changes the solved fields exactly as it should: values move with the points.',
     ['inputs', 'configurations'], 'all elements of finite symmetry groups (translations, mirror, axis permutations and 90 degree rotations, scale factors, element and vertex orders) applied to small mixed problems, radial and 3D',
     'Tests check absolute numbers for one position, orientation and scale.',
     [S, RC, DC, TRI, RR], [('fill_matrix_*', RC), ('potential_triangle/flux_triangle', TRI), ('Solver', S)],
     observe='potentials and fields at probe points moved along',
     tech='exhaustive enumeration of symmetry-group elements on the real solver, differential between images',
     note='All listed group elements; compared far tighter than discretisation error.')

prop('C23', 'Charges and currents add up',
     'The charge reported for a set of elements is the flux of the computed field through any closed surface around just those elements; the circulation of the computed magnetic field around a coil is the applied current, shared over the cross-section in proportion to area. '
     'Capacitances obtained from charges agree with the known ones for spheres and concentric spheres.',
     ['inputs', 'configurations'], 'all subsets of the groups of small geometries, all values of an alphabet, radial and 3D; coils of several shapes and meshes, alone and together',
     'Validation scripts check one capacitor and are not part of the tests.',
     [S, E_, RC], [('charge_on_elements / area_of_element', S), ('get_current_charges', S), ('current_field', RC)],
     observe='charge_on_elements, fields on enclosing surfaces and loops',
     tech='exhaustive enumeration of group subsets and coil layouts on the real code against Gauss and Ampere integrals',
     note='All subsets; accuracy of the surface quadrature.')

prop('C24', 'Initial velocity vectors have the requested energy and direction',
     'A velocity vector made for an energy and a direction, for spherical angles, or for an angle in the xz plane has exactly that energy and that direction whatever the length of the given direction; non-positive energies and malformed directions are rejected and arguments are not modified.',
     ['inputs'], 'all combinations of an energy alphabet and all directions/angles of a lattice covering every octant, axis and quadrant boundary, as lists/tuples/arrays of ints or floats',
     'Velocity vectors are only used indirectly by tests.',
     [T_], [('velocity_vec, velocity_vec_spherical, velocity_vec_xz_plane', T_), ('_convert_velocity_to_SI', T_)],
     observe='returned vectors; first sample of a traced trajectory',
     tech='exhaustive enumeration of an energy x direction lattice on the real code against a closed-form reference',
     note='Complete over the lattice.')

prop('C25', 'The focus is the point closest to all final rays',
     'The focus of a set of trajectories is the point through which the lines extending their final positions and velocities pass, and if there is no such point the least-squares best in the planes of constant z; it depends only on those lines and not on the order, the number of samples or the speeds, and moves with the beam.',
     ['inputs'], 'all small bundles of rays over a lattice of positions and slopes with a common point, all orders, sample counts and speed scalings, and bundles without a common point',
     'Two focuses are tested.',
     ['traceon/focus.py'], [('focus_position', 'traceon/focus.py')],
     observe='returned 3-vector',
     tech='exhaustive enumeration of ray bundles over a lattice on the real code against exact common points and a brute-force least-squares reference',
     note='Complete over the lattice of bundles.')

prop('C26', 'Logging obeys the log level and changes no result',
     'Whatever the sequence of level changes, a message is printed if and only if its severity is at least the current level, nothing at all is printed at the silent level by any operation of the package, and results do not depend on the level. '
     'The level in the environment is honoured for every spelling and ignored when it is unknown.',
     ['programs', 'configurations'], 'all sequences of level changes and messages to a depth; every public operation at every level; every environment value of an alphabet in a fresh process',
     'No test looks at logging.',
     ['traceon/logging.py', E_, S, M], [('set_log_level, log_*', 'traceon/logging.py')],
     observe='standard output and standard error',
     tech='explicit-state exploration of level/message sequences and enumeration of operations x levels on the real code',
     note='Complete over the alphabet.')

prop('C27', 'Results depend on the arguments only; no operation changes its inputs',
     'Calling operations of the package in any order, repeatedly or interleaved on several objects, gives the same results as calling each in a fresh process; meshes, excitations, paths, fields and arrays that were passed in are not modified, except that marking a boundary may turn the normals of the mesh it is applied to.',
     ['histories', 'programs'], 'all sequences of operations up to a depth over an alphabet covering geometry, meshing, excitation, solving, interpolation and tracing, with arguments forced to be shared',
     'Every test runs its operations once, in one order.',
     [G, M, E_, S, I_, T_, B], [('default arguments', G), ('shared mesh of excitations', E_), ('_excitation_to_higher_order', S)],
     [('module level state and default arguments', 'would leak between calls', 'whole package')],
     'results and arguments before/after',
     tech='explicit-state exploration of operation sequences on the real code, differential between histories',
     note='All sequences to the depth bound over the alphabet.')

prop('C28', 'Collections of paths and surfaces behave as the union of their members',
     'Adding paths, surfaces and collections in any association, with + or +=, gives a collection with exactly the members of the operands in order; naming, transforming, revolving, extruding and meshing a collection does so for every member. '
     'Operands of + are unchanged.',
     ['programs'], 'all expressions of + and += up to a size over members and collections of both kinds, followed by every collection operation',
     'Tests use at most one + of two members.',
     [G], [('Path/Surface/collection __add__, __iadd__', G), ('_map_to_surfaces', G), ('name setters', G)],
     observe='members, their points and names, mesh of the collection',
     tech='exhaustive enumeration of all sum expressions to a size on the real classes against a list reference model',
     note='Complete to the expression size.')

prop('C29', 'Revolved, extruded and spanned surfaces are the surfaces they denote',
     'Revolving a curve around an axis, extruding it along a vector or path, spanning curves, and closing a surface into a body give surfaces whose points are those of the construction, for every angle, sign and start position; rotation is anti-clockwise for positive angles and agrees with rotating the object. '
     'A body made by extruding or revolving a boundary, with its end caps, is closed.',
     ['inputs', 'programs'], 'all constructors times axes, signed angles, start azimuths, vectors and profile curves from finite alphabets',
     'Tests check two surfaces at a few points.',
     [G], [('revolve_x/y/z, extrude, extrude_by_path', G), ('extrude_boundary*, revolve_boundary_*', G), ('spanned_by_paths, from_boundary_paths, box, sphere, disks', G)],
     observe='surface points; closedness of the meshed body',
     tech='exhaustive enumeration of constructor x parameter alphabets on the real code against reference point constructions and closedness of the mesh',
     note='Complete over the alphabets.')

prop('C30', 'The native code never reads or writes outside its arrays',
     'No call of the public interface with valid arguments makes the native code read or write memory outside the arrays that belong to the call, whatever the number of elements, samples or points, including none, one and the largest index.',
     ['inputs', 'configurations'], 'all small sizes (0, 1, 2, ...) of every array argument and all boundary positions for every public operation that reaches native code',
     'Out-of-bounds accesses usually go unnoticed in a test: one is present in the existing suite.',
     [B, RC, DC, TC, TRI], [('all exported functions', RC), ('trace_particle', TC), ('plane_intersection', TC), ('*_derivs', RC)],
     observe='address sanitizer report',
     tech='exhaustive enumeration of sizes and boundary positions on an address-sanitized build of the real native code',
     note='Complete over the listed sizes; heap and stack accesses checked by the sanitizer with guard zones.')

prop('C31', 'Element integrals are right and symmetric for every relative position',
     'The potential and flux of a flat triangle and of a ring do not depend on which vertex is listed first or on rigid motions, are even under mirroring, and equal the true integral for every position of the observation point: near, far, in the plane, above an edge or a vertex. '
     'The elliptic integrals underneath are right over their whole range.',
     ['inputs'], 'all vertex orders, all positions of a lattice with every stratum relative to the triangle, a family of triangle shapes and scales; all ring positions of a lattice; integrands with every endpoint behaviour of an alphabet',
     'Tests check quadrants and some random points.',
     [TRI, KC, RR, ZC], [('potential_triangle, flux_triangle, self_potential_triangle', TRI), ('kronrod_adaptive', KC), ('ring kernels', RR), ('elliptic integrals', ZC)],
     observe='values returned by the element integrals; 3D fields of one element',
     tech='exhaustive evaluation over shape x position-stratum lattice on the real code against closed-form and high-precision references',
     note='Every lattice point.')

prop('C32', 'Meshes of different element order solve the same problem',
     'Raising a two dimensional mesh to higher order keeps every element, its orientation, its group and its shape, and solving a problem on a straight-line mesh gives the same field as solving it on the higher order mesh of the same straight geometry, for every kind of excitation including boundaries.',
     ['inputs', 'configurations'], 'all excitation assignments over small straight geometries, meshed with straight and with higher order elements of the same size, both initial orientations',
     'Tests use either kind but never compare them.',
     [M, S, E_], [('_to_higher_order_mesh', M), ('_excitation_to_higher_order', S), ('ensure_inward_normals', M)],
     observe='fields at probe points',
     tech='exhaustive enumeration of excitation assignments; differential between two equivalent meshes on the real solver',
     note='Exact to rounding.')


def built(p):
    return p['na'] is None and os.path.exists(os.path.join(V, 'checks', p['id'].lower() + '.py'))


def main():
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in P:
            anchors = dict(files=sorted(set(p['files'])), mechanism=[dict(name=n, where=w) for n, w in p['mech']])
            if p['state']:
                anchors['state'] = [dict(name=a, meaning=b, where=c) for a, b, c in p['state']]
            if p['observe']:
                anchors['observe_at'] = [p['observe']]
            anchors['hook_needed'] = None
            if len(p['title']) > 80: print('LONG', len(p['title']), p['title'])
            f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['text']),
                                    why_tests_cant=p['why'], anchors=anchors)) + '\n')
    man = dict(version=1, setup_cmd='bash setup.sh', checks=[], not_applicable=[])
    for p in P:
        if built(p):
            man['checks'].append(dict(property=p['id'], quick_cmd=f'bash check.sh {p["id"]} --tier quick',
                                      thorough_cmd=f'bash check.sh {p["id"]} --tier thorough',
                                      technique=p['tech'], level=p['level'], level_note=p['note']))
        else:
            man['not_applicable'].append(dict(property=p['id'], reason=p['na'] or 'the check of this property is not built yet'))
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')
    print(len(man['checks']), 'checks,', len(man['not_applicable']), 'not applicable')


if __name__ == '__main__':
    main()
