#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json (run after editing)."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
from registry import PROPS

E = 'products/ellipy/elltool/core/ellipsoid/Ellipsoid.py'
AE = 'products/ellipy/elltool/core/aellipsoid/AEllipsoid.py'
AB = 'products/ellipy/elltool/core/abasicellipsoid/ABasicEllipsoid.py'
HP = 'products/ellipy/elltool/core/hyperplane/Hyperplane.py'
CORE = 'products/ellipy/elltool/core/core.py'
PR = 'products/ellipy/elltool/conf/properties/Properties.py'
PP = 'products/ellipy/elltool/conf/properties/_ParseProp.py'
CM = 'products/ellipy/gen/common/common.py'
DC = 'products/ellipy/gen/dict/dict.py'
GG = 'products/ellipy/gras/gen/gen.py'
LA = 'products/ellipy/gras/la/la.py'
SY = 'products/ellipy/gras/sym/sym.py'
SU = 'products/ellipy/gras/geom/sup/sup.py'
GE = 'products/ellipy/gras/geom/geom.py'
EL = 'products/ellipy/gras/geom/ell/ell.py'
TR = 'products/ellipy/gras/geom/tri/tri.py'

P = []


def p(pid, title, st, over, text, why, files, mech, state=None, obs=None):
    d = dict(id=pid, title=title, statement=st, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                          observe_at=obs or [], hook_needed=None))
    if state:
        d['anchors']['state'] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    P.append(d)


p('P01', 'Global defaults are live and every object keeps the values it was built with',
  'At any moment the getters of the global configuration, and the dictionary of all settings (an independent copy), return what the most recent setter put there, or the built-in defaults after an initialisation. An object built without an explicit setting takes the default current at that moment, an explicit setting overrides it, and later changes of the defaults or of other objects never change the settings an existing object reports.',
  ['histories'], 'every interleaving of setting defaults, re-initialising, constructing objects with and without explicit settings, operating on them and reading their settings',
  'The tests set a few defaults once; they never mix constructions with later changes, nor check settings of derived objects, so stale or shared defaults pass.',
  [PR, PP, AB, E, HP], [('registry of defaults', PR + ': Properties'), ('snapshot at construction', E + ', ' + HP + ': __init__'), ('getter of settings', AB + ': get_property')],
  [('defaults', 'the current global values', PR), ('settings of an object', 'abs_tol, rel_tol, n_plot_2d_points, n_plot_3d_points', AB)], ['getters of the configuration', 'get_abs_tol / get_rel_tol / get_n_plot_*'])
p('P02', 'Keyword settings are parsed completely and refused when invalid',
  'For every list of requested setting names and every set of supplied keyword settings, the parser returns, in the requested order, the supplied value where one was given and the current default otherwise, and reports the keywords nobody asked for. A value that is not a valid setting (wrong type, not positive where positivity is required, not scalar) is refused with a library error and never silently accepted.',
  ['inputs', 'configurations'], 'every combination of requested names, supplied names, valid and invalid values, and current defaults',
  'The tests parse a handful of argument lists; the space of names by values by defaults is never enumerated.',
  [PP, PR, E, HP], [('parser', PP + ': parse_prop'), ('validators', PR)], None, ['result of the parser', 'refusal'])
p('P03', 'Objects are values: no aliasing, only the in-place projection changes an object',
  'No operation changes the observable value of its operands or of any other object, except the in-place projection, which replaces exactly the objects in the array it was given. Arrays handed to a constructor or handed out by an accessor are independent: writing into them never changes any object, and two objects never share state.',
  ['histories'], 'every sequence of constructions, copies, operations, in-place projections and writes into arrays passed in or handed out, over any number of live objects',
  'No test writes into an array after passing it or after receiving it, and none checks that operands are unchanged after an operation.',
  [E, AE, AB, HP], [('defensive copies', AE + ', ' + E + ', ' + HP + ': property setters'), ('copying', AB + ': get_copy, rep_mat'), ('in-place projection', AE + ': projection')],
  [('value of an object', 'centre and shape, or normal and shift', AE)], ['double / parameters / get_center_vec / get_shape_mat'])
p('P04', 'Copies and conversions round-trip',
  'A copy, a replica array, and an object rebuilt from its dictionary or matrix form are equal to the original (same value, same array shape, same settings where these are carried over) and are independent of it. A replica array has the requested shape with an object of its own at every index, and the dictionary of a hyperplane describes the same plane (its normal form).',
  ['inputs', 'histories'], 'every object (including empty and degenerate ones), every array shape, every setting, and every later modification of either side',
  'The dictionary forms are not tested at all, and array construction only for a few shapes.',
  [AB, AE, E, HP], [('copy', AB + ': get_copy'), ('replicate', AB + ': rep_mat'), ('dictionary', E + ', ' + HP + ': to_dict, from_dict'), ('matrix form', AE + ', ' + HP + ': from_rep_mat')], None, ['is_equal, double, get_property, shape'])
p('P05', 'Only valid objects can be constructed',
  'A constructor succeeds exactly when its arguments describe an object of the documented kind: a symmetric positive semidefinite matrix (up to the tolerance) with a matching real finite centre for an ellipsoid, a real finite normal vector with a real finite scalar shift for a hyperplane; everything else raises an error and yields nothing. The object holds exactly the centre and shape (normal and shift) it was given.',
  ['inputs'], 'every argument count, type, shape, finiteness, symmetry and definiteness combination',
  'The wrong-input tests try about a dozen literals and accept any exception.',
  [E, HP, AE], [('constructor checks', E + ': __init__, _shape_mat'), ('constructor checks', HP + ': __init__')], None, ['constructed object or error'])
p('P06', 'Characteristics of an ellipsoid agree with its matrix',
  'Dimension and rank, degeneracy, volume, trace and extreme eigenvalues reported for every element of an array are those of its shape matrix: zero volume and degenerate exactly when the matrix is singular, volume of the unit ball times the root of the determinant otherwise. Empty ellipsoids have no trace, volume or eigenvalues and asking for them is refused.',
  ['inputs'], 'every shape matrix (full, flat, zero, badly scaled), dimension and array shape',
  'Tests use few diagonal matrices and one-sided comparisons (volume), so a wrong constant in another dimension or scale passes.',
  [E, AE, EL], [('characteristics', AE + ': is_degenerate, volume, dimension, min_eig, max_eig, trace'), ('unit ball volume', EL + ': ell_volume')], None, ['returned characteristics'])
p('P07', 'Equality of objects is tolerant, symmetric and explained',
  'Two ellipsoids (hyperplanes) are reported equal exactly when their dimensions agree and their values agree within the tolerance of the arrays, with array operands compared element by element, a single object broadcast against an array and mismatched array shapes refused. The answer does not depend on the order of the operands, the report is empty exactly when everything is equal, a hyperplane equals every positive multiple of its representation (and every negative one when the shift is not zero), and with settings included also the settings decide.',
  ['inputs'], 'every pair of objects and arrays, every perturbation below and above the tolerance, every setting',
  'Half of the equality tests assert a tuple (always true) and none perturbs around the tolerance.',
  [AB, E, HP, CM, DC], [('comparison', AB + ': _is_equal_internal, is_equal'), ('operator', E + ', ' + HP + ': eq'), ('normal form', HP + ': to_dict')], None, ['is_equal, =='])
p('P08', 'Absolute and relative comparison of arrays',
  'Comparing two numeric arrays reports equality exactly when the shapes agree and every pair of entries is within the absolute tolerance or, where a relative tolerance is given, within the relative one, two not-a-number entries counting as equal as documented. The reported absolute difference is the greatest of all, the relative one the greatest over the entries that failed the absolute test, the other absolute one the greatest among the entries attaining it, and the report text is empty exactly on equality.',
  ['inputs'], 'every pair of arrays, shapes, signs, tolerances (with and without a relative one), including not-a-number, infinite and zero entries',
  'The tests compare a fixed list of small arrays.',
  [CM], [('comparison', CM + ': abs_rel_compare')], None, ['returned flags, differences, report'])
p('P09', 'Dictionary comparison is structural and tolerant',
  'Two nested dictionaries compare equal exactly when they have the same keys at every level and corresponding leaves agree: numbers within the tolerances, everything else by equality; lists of dictionaries are compared element by element and lists of different length are different. A missing key, a changed leaf or a changed type anywhere in the nesting is reported as a difference, whichever operand it is in. Operands that are not dictionaries or collections of dictionaries are refused.',
  ['inputs'], 'every pair of nested dictionaries with numeric, text, array, list and dictionary leaves, and every single mutation of one of them',
  'Tests mutate a few fixed dictionaries at chosen places.',
  [DC], [('comparison', DC + ': dict_compare, dict_compare_vec')], None, ['returned flag and report'])
p('P10', 'Support values and boundary points are exact',
  'For every ellipsoid and direction the reported support value is the maximum of the scalar product with that direction over the ellipsoid, and the reported boundary point lies in the ellipsoid and attains it. This holds for every pairing of arrays of ellipsoids and directions, in the documented result shape.',
  ['inputs'], 'every centre, shape (also degenerate), direction, and pairing of one or many ellipsoids with one or many directions',
  'Array pairings are tested only with identical ellipsoids or directions, so a transposed or mispaired result passes.',
  [E, EL], [('support', E + ': rho'), ('kernel', EL + ': rho_mat')], None, ['rho'])
p('P11', 'External approximations of a Minkowski sum contain it and touch it',
  'For every list of ellipsoids and every non-zero direction the external approximation is an ellipsoid centred at the sum of centres that contains the Minkowski sum and has the same support value as the sum in that direction. A single summand is returned unchanged.',
  ['inputs'], 'every number of summands, dimension, degenerate summands, and direction, for every other direction of comparison',
  'Tests use diagonal matrices and coordinate directions, where most wrong formulas coincide with the right one.',
  [E], [('external sum', E + ': minksum_ea')], None, ['minksum_ea'])
p('P12', 'Internal approximations of a Minkowski sum are contained in it and touch it',
  'For every list of ellipsoids and every non-zero direction the internal approximation is an ellipsoid centred at the sum of centres that is contained in the Minkowski sum and has the same support value as the sum in that direction.',
  ['inputs'], 'every number of summands, dimension, degenerate summands, and direction, for every other direction of comparison',
  'Tests use diagonal matrices and coordinate directions, where the rotations involved are the identity.',
  [E, LA, CORE], [('internal sum', E + ': minksum_ia'), ('rotation', LA + ': ml_orth_transl')], None, ['minksum_ia'])
p('P13', 'Point membership in unions and intersections',
  'A point is reported inside an array of ellipsoids exactly when it lies in at least one of them (union mode) or in all of them (intersection mode), up to the tolerance of the ellipsoid; a degenerate ellipsoid contains exactly the points of its flat, thickened by the tolerance. Every point of a batch is decided independently of the others.',
  ['inputs'], 'every array of ellipsoids of any shape, every batch of points inside, outside and near the boundary, both modes',
  'Tests check a few points against balls and axis-parallel sets.',
  [E], [('membership', E + ': is_internal')], None, ['is_internal'])
p('P14', 'Inclusion of centred ellipsoids',
  'The first ellipsoid is reported to contain the second one (centres ignored) exactly when every support value of the second, shifted to the origin, is at most that of the first; this includes degenerate ellipsoids, and ellipsoids of different dimension are refused. Inclusion is reflexive and transitive.',
  ['inputs'], 'every pair and chain of shape matrices of the same dimension, including degenerate ones',
  'Inclusion has no test at all.',
  [E, CORE], [('inclusion', E + ': is_bigger'), ('simultaneous diagonalisation', CORE + ': ell_sim_diag')], None, ['is_bigger'])
p('P15', 'The polar set is the polar set',
  'For an ellipsoid with the origin strictly inside, the polar ellipsoid is exactly the set of directions whose scalar product with every point of the ellipsoid is at most one, so taking the polar twice returns the original. Degenerate ellipsoids and ellipsoids without the origin inside are refused.',
  ['inputs'], 'every non-degenerate ellipsoid (off-centre, ill-conditioned) and every array of them',
  'The assertions of the polar tests are tuples and always true.',
  [E, AE], [('polar', E + ': polar, _get_scalar_polar_internal')], None, ['polar'])
p('P16', 'Projection onto a subspace is the image of the set',
  'Projection onto an orthogonal basis, in place or as a copy, gives for every element of an array the ellipsoid of the coordinates of the original points in the normalised basis, so that its support function is that of the original restricted to the subspace. A basis that is not orthogonal, has more vectors than coordinates, or does not match the dimension of an ellipsoid is refused and nothing is changed.',
  ['inputs'], 'every ellipsoid, orthogonal or skew basis, column scaling, and array shape',
  'Tests use integer data and coordinate bases.',
  [AE, E], [('projection', AE + ': projection, get_projection'), ('kernel', E + ': _projection_single_internal')], None, ['projection, get_projection'])
p('P17', 'Sampled boundaries lie on the boundary and cover it',
  'Every sampled boundary point of a two- or three-dimensional ellipsoid lies on its boundary, the number of points follows the requested count or factor, and the faces form a closed surface (curve) around the centre. Sampling with support values returns directions, values and points consistent with each other.',
  ['inputs', 'configurations'], 'every centre, shape, requested count, factor and plotting setting in dimensions 2 and 3',
  'Tests check point counts and one stored grid.',
  [E, TR, GE], [('sampling', E + ': get_boundary, get_boundary_by_factor, get_rho_boundary, get_rho_boundary_by_factor'), ('grid', TR + ': ell_tube_2_tri, ell_tube_discr_tri')], None, ['sampled points, grid, support values'])
p('P18', 'Mesh refinement keeps a conforming triangulation',
  'Refining a conforming triangulation never moves an existing vertex, splits exactly at edge midpoints (then mapped by the supplied function), leaves no edge longer than the bound unless the step limit is hit, and the result is again a conforming triangulation: every face with an over-long edge becomes four, a neighbour that is kept is closed by a flat triangle on the halved edge, and the boundary stays the same. The edge tables and the statistics returned describe the refined mesh, at every step, and do not depend on whether they are asked for.',
  ['inputs', 'histories'], 'every conforming triangle mesh, edge-length bound, step limit and vertex map, at every intermediate step',
  'Tests refine two or three meshes and check counts and area.',
  [TR], [('refinement', TR + ': shrink_face_tri'), ('edges', TR + ': map_face_2_edge, get_face_edge_info')], None, ['vertices, faces, statistics, history'])
p('P19', 'Mesh incidence tables and mesh equality',
  'The edge tables list every edge of the mesh exactly once with each face mapped to its three edges in a consistent direction, and a set of vertices is reported as a face exactly when the mesh implies it. Two meshes of distinct, well separated vertices and distinct faces are reported equal when a matching of vertices well within the tolerance maps faces onto faces, whatever the order of vertices, of faces and of corners, and unequal when no matching within the tolerance does.',
  ['inputs'], 'every triangle mesh, every permutation of vertices, faces and face corners, every perturbation below and above the tolerance, and every changed face',
  'Tests use one mesh and one perturbation each.',
  [TR], [('incidence', TR + ': map_face_2_edge, get_face_edge_info'), ('face test', TR + ': is_face'), ('equality', TR + ': is_tri_equal')], None, ['edge tables, boolean answers, report'])
p('P20', 'Sphere and circle partitions are regular',
  'The sphere triangulation of every depth is a closed surface of unit vertices, that of a repeatedly quartered icosahedron with edges of nearly equal length, and the extended version has at least the requested number of points. The partition of the circle into n points consists of n evenly spaced unit vectors, and that of the sphere of n unit vectors of which no two are equal or opposite.',
  ['inputs'], 'every depth and every number of points',
  'Tests look at one depth (asserting a tuple) and at counts.',
  [TR, GE], [('sphere', TR + ': sphere_tri, sphere_tri_ext, icosahedron'), ('partition', GE + ': circle_part, sphere_part')], None, ['vertices, faces, points'])
p('P21', 'Boundaries from support functions and geometric differences',
  'Points reconstructed from the support function of a convex body on a grid of directions lie on the supporting lines or planes that define them. The support function computed for a geometric difference is that of the largest convex body contained in the pointwise difference, and never exceeds the pointwise difference on the grid.',
  ['inputs'], 'every pair of convex bodies in two and three dimensions and every grid of directions around the origin (in order in the plane)',
  'Tests compare one pair of ellipses to a formula and count points.',
  [SU], [('boundary', SU + ': sup_2_boundary_2, sup_2_boundary_3'), ('difference', SU + ': sup_geom_diff_2d, sup_geom_diff_3d')], None, ['points, support values'])
p('P22', 'Page-wise matrix algebra is ordinary algebra on every page',
  'Every operation on a stack of matrices (products, congruences, transposition, inverse, pseudo-inverse, square root, symmetrisation, repairs of definiteness, quadratic forms and quotients) equals, on every page, the ordinary operation applied to that page, in the documented result shape. A single matrix given as the multiplier acts on every page, inputs are not modified, and pages do not influence each other.',
  ['inputs'], 'every stack size (including one), rectangular shape, and pairing of stacked and single operands',
  'Tests use stored data with symmetric eigenvectors and square pages, where transposition errors cancel.',
  [GG], [('stacked algebra', GG + ': MatVector, SquareMatVector, SymmetricMatVector')], None, ['results and shapes'])
p('P23', 'Time-varying matrices are evaluated at every time point',
  'A matrix given by formulas, by a textual expression or by a function is evaluated to the stack whose page k is the value at the k-th time point, for every number of time points and every mixture of constant and time-dependent entries. Batch evaluation of a function over a stack agrees with evaluating each page separately.',
  ['inputs', 'programs'], 'every matrix of formulas over the documented grammar, every time vector including a single point, every function',
  'Tests evaluate three expressions at a few time points.',
  [GG], [('construction', GG + ': from_formula_mat, from_func, from_expression, eval_func')], None, ['resulting stack'])
p('P24', 'Orthogonal transport matrices',
  'Every orthogonal transport returns an orthogonal matrix that maps the direction of the source vector onto the direction of the destination vector, for all non-zero vectors including parallel and opposite ones; the variants that maximise a criterion attain at least the value of every other such matrix. Orthogonalisation of a matrix returns an orthogonal matrix whose leading columns span the given columns in turn.',
  ['inputs'], 'every dimension, pair of vectors (also nearly parallel and opposite), maximisation direction and matrix',
  'Tests use random vectors, for which the special branches never run.',
  [LA], [('transport', LA + ': orth_transl, orth_transl_qr, orth_transl_haus, orth_transl_max_dir, orth_transl_max_tr, ml_orth_transl'), ('orthogonalisation', LA + ': mat_orth, math_orth_col')], None, ['returned matrices'])
p('P25', 'Matrix predicates, roots, repair and simultaneous diagonalisation',
  'The predicates for symmetry, definiteness and degeneracy hold exactly when the matrix has the property beyond the tolerance; square roots square back, repaired matrices are symmetric, dominate the requested level and leave good matrices unchanged; quadratic forms and inverses of a matrix agree with the definition. Simultaneous diagonalisation returns a transformation taking the first matrix to the identity and the second to a diagonal one, and vector alignment an orthogonal matrix that turns the second vector onto the direction of the first.',
  ['inputs'], 'every symmetric, asymmetric, definite, indefinite and singular matrix and every vector',
  'Tests use a handful of matrices; simultaneous diagonalisation is not tested.',
  [LA, EL, CORE], [('predicates', LA + ': is_mat_symm, is_mat_pos_def, is_mat_not_deg'), ('roots and repair', LA + ': sqrtm_pos, reg_mat, reg_pos_def_mat, try_treat_as_real'), ('forms', EL + ': quad_mat, inv_mat'), ('diagonalisation', CORE + ': ell_sim_diag, ell_valign, ell_fusion_lambda, ell_unitball')], None, ['returned matrices and answers'])
p('P26', 'Tolerant row sorting is a stable sort up to the tolerance',
  'Sorting rows with a tolerance returns a permutation of the rows together with the permutation and its inverse, ordered lexicographically when entries of a column that form a chain of gaps below the tolerance count as equal. The output values are rows of the input, never altered.',
  ['inputs'], 'every matrix and tolerance, in particular entries that differ by less than the tolerance and rows equal up to it',
  'Tests use three matrices.',
  [GG], [('sort', GG + ': sort_rows_tol'), ('helpers', GG + ': mat_dot, sqrt_pos')], None, ['sorted rows and indices'])
p('P27', 'Symbolic text: dependence and substitution respect names',
  'A matrix of expressions is reported time-dependent exactly when the time variable occurs in it as a name of its own, not as part of another name. Substituting a variable drops the blanks, replaces exactly the occurrences of the whole name by the replacement in parentheses and changes no other character, so that evaluating the result equals evaluating the original with the substituted value.',
  ['inputs', 'programs'], 'every matrix of expressions, numbers and text, variable name and replacement text',
  'Tests check four expressions.',
  [SY], [('text', SY + ': is_dependent, var_replace')], None, ['resulting texts, boolean'])
p('P28', 'Hyperplane geometry',
  'A point is reported on a hyperplane exactly when its scalar product with the normal equals the shift within the tolerance, two hyperplanes are reported parallel exactly when their normals are collinear, and negation, dimension and stored parameters describe the same plane as the arguments; a representation scaled by any non-zero number contains the same points. All array pairings are decided element by element.',
  ['inputs'], 'every normal, shift, point, scale and pairing of arrays',
  'Tests use stored data with all-or-nothing answers and integer normals.',
  [HP], [('geometry', HP + ': contains, is_parallel, dimension, uminus, to_dict, double, parameters')], None, ['answers and parameters'])
p('P29', 'Element lookup, errors and numeric classification',
  'Membership lookup reports for every element whether it occurs in the other collection and at which first position. Library errors carry the tag, the formatted text and the name of the code that raised them; numeric classification accepts exactly numeric data.',
  ['inputs'], 'every pair of collections with repetitions, every tag and text, every nesting of callers, every kind of value',
  'Tests check a few literals.',
  [CM], [('lookup and errors', CM + ': is_member, throw_error, get_caller_name, get_caller_name_ext, is_numeric')], None, ['returned values, message text'])
p('P30', 'Tube grids and circular triangulations are well formed',
  'The triangulation of a tube of any number of points per section and any number of sections uses every grid point, joins only neighbouring points of the same or the next section, and forms a consistently oriented surface in which every inner edge is shared by exactly two triangles. The discrete grid lists for every section its own points in order, closed by the first one.',
  ['inputs'], 'every number of points and sections',
  'Tests compare one stored grid.',
  [TR, GE], [('tube', TR + ': ell_tube_2_tri, ell_tube_discr_tri'), ('circle', GE + ': circle_part')], None, ['faces'])
p('P31', 'Reflection of sets',
  'Negating an ellipsoid, or every element of an array, gives the set of opposite points: the centre changes sign and the shape stays the same. Negating twice returns the original.',
  ['inputs'], 'every ellipsoid and array shape',
  'Tests negate one integer ellipsoid.',
  [E], [('negation', E + ': uminus')], None, ['uminus'])
p('P32', 'Arguments outside the documented domain are refused',
  'Every operation accepts the arguments of its documented domain and answers all others - wrong shapes or sizes, text, asymmetric or indefinite matrices, negative tolerances, unknown modes, foreign objects in a collection - with a library error instead of a wrong answer or an accidental failure. No call changes the arguments it was given.',
  ['inputs'], 'every combination of argument kinds, shapes and values for every operation',
  'Tests try a few improper calls of a few operations.',
  [LA, GG, GE, TR, SU, EL, CORE, CM, DC, AB, E, HP],
  [('checks of arguments', LA + ': is_mat_symm .. reg_mat; ' + GG + ': sort_rows_tol, sqrt_pos, SquareMatVector; ' + CORE + ': ell_sim_diag, ell_valign; ' + AB + ': rep_mat; ' + E + ', ' + HP + ': _check_is_me and its callers')], None, ['errors raised'])

TECH = 'TLA+ specification model checked with TLC; recorded steps of the real library validated by TLC against it'
from covers import COVERS
with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for d in P:
        assert len(d['title']) <= 80, d['id']
        f.write(json.dumps(d) + '\n')
checks, na = [], []
for d in P:
    i = d['id']
    if i in PROPS:
        checks.append(dict(property=i, quick_cmd='VERIF_TIER=quick python3 check.py ' + i,
                           thorough_cmd='VERIF_TIER=thorough python3 check.py ' + i,
                           technique=PROPS[i].get('technique', TECH), level='model_checking',
                           level_note=('Model (exhaustive in its small scope): %(model)s. Decided by TLC on recorded steps of the real library: %(bound)s. '
                                       'Oracle: %(oracle)s. Limits: %(limits)s; inputs are a sample of the quantified space. '
                                       'Trusted: TLC, the recording harness, twelve-decimal fixed point.') % COVERS[i]))
    else:
        na.append(dict(property=i, reason='check under construction'))
man = dict(version=1, setup_cmd='python3 check.py --setup', checks=checks, not_applicable=na,
           notes='The verdict of every check is TLC\'s; see DESIGN.md. No hooks in /repo: the public interface exposes the abstract state.')
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')
print(len(P), 'properties,', len(checks), 'checks')
