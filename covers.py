"""What decides each property: model (small scope, exhaustive), bound steps of the library, oracle, limits.
Used for the evidence files, the level notes of the manifest and DESIGN.md."""
SAMPLED = 'the driven inputs are a sample of the quantified space (every run draws the same ones for the same VERIF_SEED)'
NEAR = 'answers inside a narrow band around a tolerance are left open'


def c(model, bound, oracle, limits, *assume):
    return dict(model=model, bound=bound, oracle=oracle, limits=limits, assumptions=list(assume) or [SAMPLED])


COVERS = {
 'P01': c('Library.tla explored exhaustively in a small scope (objects, user arrays, settings); simulated behaviours written out',
          'every simulated behaviour replayed into the library, and long random histories of setters, initialisations, a repository of settings, constructions with and without settings, derived objects and reads; the full state is compared after every step',
          'the abstract state: cfg, and the settings stored in every object', 'histories of up to some dozens of steps; valid and invalid default values', SAMPLED),
 'P02': c('MC_Args: all argument lists over every name, a pool of valid and invalid values and one or two supplied keywords (7 laws)',
          'every generated list tried on the real parser; random lists under changing, also invalid, defaults',
          'Args!ParseResult, ParseRest, ParseRefused', 'asking twice for one name and bools as counts are not decided', SAMPLED),
 'P03': c('Library.tla: value semantics over heaps of objects and user arrays; three deliberately broken variants (aliasing on the way in, out, between objects) must be rejected by TLC',
          'replayed behaviours and random histories that write into every array handed in or out, run every pure operation of the calculus, and project in place; the value of every live object is read back after every step',
          'frame condition of every transition', 'an array holding one object twice is not projected in place', SAMPLED),
 'P04': c('Library.tla (copy, replicate, dictionary transitions)', 'replay and random histories of copies, replicas of any shape, dictionaries with and without settings, matrix forms',
          'value, settings, array shape and independence of every new object', 'zero normals are excluded from the dictionary form', SAMPLED),
 'P05': c('MC_Args part ctor: all small constructor argument lists (759: sizes, shapes, non-finite, complex, text, asymmetry and indefiniteness above and below the tolerance); invariance under layout, transposition, reordering, and agreement with the quadratic form',
          'every generated list tried on the constructors; random arguments of dimension 1..4 with every defect', 'Args!CtorVerdict (three-valued)',
          'extra positional arguments are not decided', SAMPLED, NEAR),
 'P06': c('MC_EllCalc part chars: integer matrices, laws of determinant, scaling and projection', 'replay of the cases; random, flat, badly scaled and empty ellipsoids in arrays of any shape',
          'determinants, exact rank by minors, extreme eigenvalues as singular semidefinite shifts, volume squared times ball constant', 'arrays are flattened by some getters: only scalars and their order are decided', SAMPLED, NEAR),
 'P07': c('MC_Compare part objects: all pairs of small ellipsoids and hyperplanes with perturbations around the tolerance (symmetry, reflexivity, decidedness)',
          'replay of all pairs in both orders; arrays of any shape, settings, exact dyadic perturbations', 'Compare!ObjEqual with tolerance of the arrays',
          'zero shift with opposite normals is not decided', SAMPLED, NEAR),
 'P08': c('MC_Compare part arrays: all pairs of arrays with up to three entries from a pool with not-a-number, infinities, zero and signs', 'replay; random arrays of any shape with exactly representable entries',
          'Compare!ArrVerdict: flags, the three differences, emptiness of the report', 'exactly representable data, so that thresholds are decided exactly', SAMPLED),
 'P09': c('MC_Compare part trees: all pairs of small nested dictionaries (symmetry, reflexivity, mutation)', 'replay; random nested dictionaries and every kind of single mutation on either side',
          'structural recursion over tagged trees', 'reports are only checked for emptiness', SAMPLED),
 'P10': c('MC_EllCalc part support: all 2-D integer ellipsoids of a pool (laws of support functions)', 'replay of every case one-one, one-many, many-one and many-many; random arrays in dimensions 1..5, degenerate, nearly flat and badly scaled shapes',
          'value = <c,l> + sqrt(l\'Ql), the point attains it and lies in the set (bordered determinant / collinearity)', 'directions whose width lies between rounding level and 1e-9 are not decided', SAMPLED),
 'P11': c('MC_EllCalc part ext: formula of the external ellipsoid is shown to contain and touch the sum on integer data', 'replay; random lists of 1..5 summands, any layout, repeated objects, flat summands',
          'tightness along the direction and containment along generated test directions, centres exactly', 'containment is tested along finitely many directions (the touching direction, its neighbours, axes, random)', SAMPLED),
 'P12': c('MC_EllCalc part int', 'as P11 with the internal approximation', 'as P11 with the inclusion reversed', 'as P11; directions in the null space of a flat first ellipsoid are not decided', SAMPLED),
 'P13': c('MC_EllCalc part member: lattice points against integer ellipsoids (symmetry, convexity, agreement with the support function)', 'replay; random arrays, batches of points at fixed ellipsoidal radii around one, both modes, individual tolerances',
          'exact bordered determinant; thickened flats on coordinate axes exactly, others three-valued', 'points within the tolerance band are left open', SAMPLED, NEAR),
 'P14': c('MC_EllCalc part bigger: all pairs of integer matrices (reflexive, transitive, agrees with support functions)', 'replay; random pairs and chains touching in one direction, degenerate, different scale',
          'principal minors of the difference', 'pairs within the tolerance band are left open', SAMPLED, NEAR),
 'P15': c('MC_EllCalc part polar: integer ellipsoids with the origin inside (bipolar theorem, support inversion)', 'replay; arrays with any mixture of good, off-centre, ill-conditioned and degenerate elements',
          'M p = -c and M P = (1 + c\'M^-1c) I for M = Q - cc\'', 'origins too close to the boundary are left open', SAMPLED, NEAR),
 'P16': c('MC_EllCalc part proj: integer ellipsoids and lattice bases (orthogonal and skew)', 'replay in place and as copy; arrays, scaled and rotated bases, unsuitable bases with a check that nothing changed',
          'B\'c and B\'QB with normalised columns; frame condition after a refusal', 'bases within the orthogonality tolerance band are left open', SAMPLED),
 'P17': c('MC_EllCalc part bound: count functions and circle/sphere laws', 'replay; random centres, shapes, counts, factors, settings; every sampled point of small samples, a subset of large ones',
          'bordered determinant vanishes, point counts, closed oriented surface (half edges, Euler)', 'n <= 0 is not decided', SAMPLED),
 'P18': c('MC_Mesh part refinement: all sets of long edges on all base meshes of a pool, two steps (closed under conformity, Euler number, boundary)', 'generated cases realised geometrically; random meshes in 2 and 3 dimensions refined step by step with every vertex map, and to the end',
          'Mesh!Refined as the one allowed successor at every step; statistics and edge tables recomputed', 'edges within 1e-9 of the bound are not decided', SAMPLED),
 'P19': c('MC_Mesh part incidence: all face lists over four vertices and pairs of meshes under permutations', 'replay; random meshes, permutations, perturbations, changed faces', 'edge tables as sets; equality as existence of a matching', 'duplicate vertices or faces are not decided', SAMPLED, NEAR),
 'P20': c('MC_Surface part partitions: the combinatorial refinement of the icosahedron and the arc partition laws', 'every depth up to 3 (quick) / 5, every number of points of a range', 'counts, degrees, closed surface, unit vertices, edge lengths within a factor, even arc by exact trigonometric series', 'distribution and order of sphere_part are not specified', SAMPLED),
 'P21': c('MC_SupGeom: all right-hand sides on four grids of directions (support of the intersection: below data, idempotent, monotone)', 'replay; random bodies on random grids in 2 and 3 dimensions', 'vertex enumeration on small grids; feasible point and conic combination certificates on large ones',
          '3-D differences to 3e-5 relative; grids that surround the origin, ordered in the plane', SAMPLED),
 'P22': c('MC_Pages part algebra: integer stacks of all small sizes (distributive laws, page independence)', 'replay through every class and pairing; random stacks, one or several pages, rectangular', 'the ordinary operation on every page (products, Penrose conditions, roots, quotient by bordered determinants)',
          'documented result shapes only; see the list of unspecified forms', SAMPLED),
 'P23': c('MC_Pages part formulas: all formula trees of depth two (constant iff independent of t)', 'replay; random matrices of formulas over the grammar, printed with random spacing, evaluated as text, sympy and function', 'exact evaluation of the tree by fixed-point series', 'the grammar is the common one of both evaluators (+ - * / ** sin cos exp abs sqrt)', SAMPLED),
 'P24': c('MC_LinAlg part transport: lattice vectors (reflections as witnesses: the optimum is attained and an upper bound)', 'replay; random, nearly parallel and opposite vectors in dimensions 1..6, stacks, rank-deficient matrices', 'orthogonality, mapping, closed-form optimum for directions, symmetric-semidefinite certificate for the trace', 'vectors with a zero projection are kept out where the maximiser is not unique only if the contract would not be decidable', SAMPLED),
 'P25': c('MC_LinAlg part matrices: all small integer matrices (predicates against quadratic forms on a lattice)', 'replay; random matrices of every kind with eigenvalues placed around the tolerance', 'minors and Gram determinants (three-valued), algebraic contracts for roots, repairs and diagonalisations', 'non-square reg_mat and singular inv_mat are not decided', SAMPLED, NEAR),
 'P26': c('MC_LinAlg part sorting: all small integer matrices and tolerances (permutation, idempotence, refinement)', 'replay; random matrices with chains of near-equal entries', 'class numbers of chains, lexicographic and stable', 'zero columns and not-a-number are not decided', SAMPLED),
 'P27': c('MC_SymText: all short texts over an alphabet of names, blanks and operators', 'replay; random expressions; composition checked by value through P23', 'names as maximal runs of word characters', 'numbers keep 15 decimals', SAMPLED),
 'P28': c('MC_Hyper: lattice planes and points (scaling, negation, normal form)', 'replay; random planes, infinite points, arrays and pairings', 'exact scalar products, collinearity of unit normals', 'zero normals in dimension two and above have no normal form', SAMPLED, NEAR),
 'P29': c('MC_Common: all pairs of lists of length up to four over three values', 'replay; generated modules with every nesting of functions, methods and callers; every kind of value', 'first position, composed message text', 'callers at module level are not decided', SAMPLED),
 'P30': c('MC_Surface part tubes: grids of every size in a range with every choice of diagonals satisfy the laws, every damaged one (face lost, turned, doubled, corner moved) is rejected', 'every size in a range, both grids', 'neighbourhood, two triangles at every inner edge, consistent orientation', 'sections with fewer than three points are not decided', SAMPLED),
 'P31': c('MC_EllCalc part neg', 'replay; arrays of any shape', 'centre negated, shape kept, position kept, involution', 'settings of the result are left open', SAMPLED),
 'P32': c('MC_Domain: every operation with every combination of argument descriptions (size, shape, definiteness, symmetry, text, sign of tolerances, modes, kinds of objects), about 25000 cases; laws about tolerances, text, symmetry of the arguments and strength of predicates',
          'every enumerated combination realised as real arguments and tried on the real operation', 'Domain!Allowed (three-valued): proper arguments return, improper ones raise a library error, none changes its arguments',
          'descriptions the documents leave open are only watched for changed arguments', SAMPLED),
}
