"""source of properties.jsonl: python3 tools/props_src.py > properties.jsonl"""
import json
P = []
B = 'products/ellipy/'
ELL = B + 'elltool/core/ellipsoid/Ellipsoid.py'
AELL = B + 'elltool/core/aellipsoid/AEllipsoid.py'
ABAS = B + 'elltool/core/abasicellipsoid/ABasicEllipsoid.py'
HYP = B + 'elltool/core/hyperplane/Hyperplane.py'
CORE = B + 'elltool/core/core.py'
PROP = B + 'elltool/conf/properties/Properties.py'
PARSE = B + 'elltool/conf/properties/_ParseProp.py'
LA = B + 'gras/la/la.py'
GEN = B + 'gras/gen/gen.py'
GEOM = B + 'gras/geom/geom.py'
GELL = B + 'gras/geom/ell/ell.py'
SUP = B + 'gras/geom/sup/sup.py'
TRI = B + 'gras/geom/tri/tri.py'
SYM = B + 'gras/sym/sym.py'
COM = B + 'gen/common/common.py'
DICT = B + 'gen/dict/dict.py'
LOG = B + 'gen/logging/logging.py'


def p(id, title, statement, over, text, why, files, mech):
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
              'anchors': {'files': files, 'mechanism': [{'name': a, 'where': b} for a, b in mech]}})


p('C01', 'Only valid ellipsoids can be constructed, and exactly as given',
  'Constructing an ellipsoid from a centre and a shape matrix succeeds exactly when the matrix is square, finite, '
  'symmetric and non-negative definite up to the absolute tolerance in force and the centre is a finite vector of the '
  'same dimension; otherwise it raises an input error. A constructed ellipsoid reports back exactly the centre and '
  'matrix it was given (a missing centre means the origin, no arguments mean the empty ellipsoid), and the tolerances '
  'it was given or the current defaults.',
  ['inputs', 'configurations'], 'all matrices and centres of dimension 1-4 and all tolerances in range',
  'tests construct a few dozen literal ellipsoids; validity is a predicate over all real matrices',
  [ELL, AELL, LA], [('constructor', ELL), ('validating property setters', ELL + ', ' + AELL),
                    ('symmetry / definiteness predicates', LA)])
p('C02', 'Ellipsoids and hyperplanes own their data',
  'Changing an array that was passed to a constructor, or an array returned by any accessor, never changes the object. '
  'No query or set operation changes its operands or the arrays passed to it, except the explicitly in-place '
  'projection, which changes only the ellipsoids it is called on.',
  ['histories', 'inputs'], 'all sequences construct / read / write argument or result / read again',
  'aliasing shows only for particular sequences of writes, which no test performs',
  [ELL, AELL, HYP, ABAS], [('copying getters and setters', ELL + ', ' + AELL + ', ' + HYP)])
p('C03', 'Copies, replication and dictionary round trips preserve objects',
  'Copying an array of ellipsoids or hyperplanes, replicating one object over a shape, and converting to dictionaries '
  'and back yield independent objects with the same centre, matrix, normal, shift, tolerances and plotting '
  'properties, arranged in an array of the requested or original shape.',
  ['inputs', 'configurations'], 'all objects, all shapes of up to three axes, all property values',
  'tests copy default-property objects in one or two shapes',
  [ABAS, ELL, HYP], [('single-object copy', ELL + ', ' + HYP), ('get_copy / rep_mat', ABAS),
                     ('to_dict / from_dict', ELL + ', ' + HYP)])
p('C04', 'Support function and its maximiser are exact',
  'For every ellipsoid and non-zero direction the reported support value is the maximum of the scalar product of the '
  'direction with the points of the ellipsoid, and the reported boundary point belongs to the ellipsoid and attains '
  'it. This holds for any admissible combination of one or many ellipsoids with one or many directions, each result '
  'standing at the position of its ellipsoid and direction.',
  ['inputs'], 'all ellipsoids of dimension 1-3 (degenerate included), all directions',
  'tests compare a few stored values; maximality over all points is never tested',
  [ELL, GELL], [('rho', ELL), ('rho_mat', GELL)])
p('C05', 'Equality of ellipsoids and hyperplanes means equality as sets',
  'Two ellipsoids or hyperplanes compare equal when they describe the same set (in particular a hyperplane and its '
  'positively or negatively rescaled copies), and unequal when their data differ by clearly more than the tolerances '
  'in force, whatever the data; the relation is reflexive and symmetric and is evaluated element by element for '
  'arrays, one-to-many operands being broadcast.',
  ['inputs', 'configurations'], 'all pairs of objects and tolerances',
  'tests compare fixed pairs; reflexivity and symmetry quantify over all objects',
  [ABAS, ELL, HYP, DICT, COM], [('element-wise comparison', ABAS), ('abs_rel_compare', COM),
                               ('dict_compare', DICT)])
p('C06', 'Membership is decided correctly',
  'Asking whether points are inside the intersection or the union of an array of ellipsoids returns true exactly for '
  'the points satisfying all, respectively any, of the ellipsoid inequalities, degenerate ellipsoids included, with '
  'one answer per point in the order of the points.',
  ['inputs'], 'all points and ellipsoids of dimension 1-3, up to the tolerance band at the boundary',
  'tests use a few grid points; membership quantifies over the whole space',
  [ELL], [('is_internal', ELL)])
p('C07', 'The polar ellipsoid is the polar set',
  'For a non-degenerate ellipsoid with the origin in its interior, the polar is the set of directions whose support '
  'value is at most one, by either computation method and for arrays of any shape; polarity is an involution. An '
  'ellipsoid that does not contain the origin in its interior, or is degenerate, is rejected with an error.',
  ['inputs'], 'all ellipsoids of dimension 1-3',
  'tests compute the polar of a few hand-picked ellipsoids and compare with stored matrices',
  [ELL, AELL, GELL], [('polar', ELL), ('quad_mat', GELL)])
p('C08', 'External approximations contain the geometric sum and are tight',
  'The external ellipsoidal approximation of the geometric sum contains the sum: its support function is nowhere less '
  'than the sum of the support functions, its centre is the sum of the centres, and along each given direction the '
  'support functions coincide.',
  ['inputs'], 'all pairs (and lists) of ellipsoids and directions of dimension 1-3',
  'tests compare stored matrices; containment quantifies over all directions',
  [ELL, AELL], [('minksum_ea', ELL)])
p('C09', 'Internal approximations are contained in the geometric sum and are tight',
  'The internal ellipsoidal approximation of the geometric sum is contained in the sum: its support function is '
  'nowhere more than the sum of the support functions, its centre is the sum of the centres, and along each given '
  'direction the support functions coincide.',
  ['inputs'], 'all pairs (and lists) of ellipsoids and directions of dimension 1-3',
  'tests compare stored matrices; containment quantifies over all directions',
  [ELL, LA], [('minksum_ia', ELL), ('orthogonal translations', LA)])
p('C10', 'Projection onto a subspace is the image under orthogonal projection',
  'Projecting ellipsoids onto the span of given orthogonal vectors yields the ellipsoids whose support function in '
  'the coordinates of the normalised vectors is that of the original along those vectors; the in-place form modifies '
  'its operands, the other form leaves them intact, tolerances are kept, and non-orthogonal or mis-sized bases are '
  'rejected.',
  ['inputs'], 'all ellipsoids of dimension 1-3 and all orthogonal bases',
  'tests project onto coordinate axes only',
  [ELL, AELL], [('projection', AELL), ('shape projection', ELL)])
p('C11', 'Scalar invariants of ellipsoids agree with linear algebra',
  'Dimension, rank, emptiness and degeneracy tests, trace, maximal and minimal eigenvalue and volume of every '
  'ellipsoid of an array are those of its shape matrix, each at the position of its ellipsoid; a degenerate ellipsoid '
  'has zero volume and an empty ellipsoid is rejected where the quantity is undefined.',
  ['inputs'], 'all ellipsoids of dimension 0-4 and ranks, all array shapes',
  'tests evaluate a handful of diagonal matrices',
  [ELL, AELL, ABAS, GELL], [('invariant queries', ELL + ', ' + AELL)])
p('C12', 'Comparison of ellipsoids by inclusion and simultaneous diagonalisation',
  'Comparing two centred ellipsoids says the first is bigger exactly when it contains the second, degenerate second '
  'operands included. The simultaneous diagonaliser maps the first matrix to the identity and the second to a '
  'diagonal matrix.',
  ['inputs'], 'all pairs of positive (semi)definite matrices of dimension 1-3 outside the tolerance band',
  'tests use diagonal pairs',
  [CORE], [('is_bigger', CORE), ('ell_sim_diag', CORE)])
p('C13', 'Negation is point reflection',
  'Negating an ellipsoid negates its centre and keeps its matrix; negating a hyperplane flips the sign of its normal '
  'and shift; properties are preserved, operands are unchanged, arrays keep their shape and double negation is the '
  'identity.',
  ['inputs'], 'all objects, all array shapes', 'tests negate a few objects',
  [ELL, HYP], [('uminus', ELL + ', ' + HYP)])
p('C14', 'Boundary grids consist of boundary points',
  'The boundary functions of a two- or three-dimensional ellipsoid return, in the order of the sampling directions, the '
  'centre plus the square root of the matrix times each direction (boundary points when the ellipsoid is non-degenerate); the '
  'support variants return the support point and support value of each direction, the first repeated at the end. The number of '
  'points is the one asked for or configured, multiplied by the factor of that dimension and rounded down (in space the least '
  'refinement of the sphere with so many), asking for the faces changes nothing else, faces form a closed line or surface of '
  'existing points, and other dimensions, arrays and a count of zero are rejected.',
  ['inputs', 'configurations'], 'all ellipsoids of dimension 2-3, point counts and factors in range',
  'tests check stored grids of a few ellipsoids',
  [ELL, AELL, TRI, GEOM], [('get_boundary / rho_boundary', ELL), ('sphere triangulation', TRI)])
p('C15', 'Hyperplanes are constructed as given and contain exactly their points',
  'A hyperplane, or an array of replicas of it, built from a normal and a shift holds exactly those values, invalid input being '
  'rejected; containment holds for a point exactly when the scalar product with the normal equals the shift up to '
  'the tolerance, element by element over arrays, and parameters are returned as given.',
  ['inputs'], 'all normals, shifts and points of dimension 1-4',
  'tests use a few literal hyperplanes', [HYP], [('constructor', HYP), ('contains', HYP)])
p('C16', 'Parallelism of hyperplanes is collinearity of normals',
  'Two hyperplanes are reported parallel exactly when their normals are collinear (up to the tolerance), regardless '
  'of sign, length and shift, symmetric in the operands and evaluated element by element with broadcasting of a '
  'single operand; the dimension of a hyperplane is that of its normal.',
  ['inputs'], 'all pairs of normals of dimension 1-4 outside the tolerance band',
  'tests use a few literal pairs', [HYP], [('is_parallel', HYP), ('dimension', HYP)])
p('C17', 'Matrix predicates, regularisation and square root are correct',
  'The symmetry and definiteness predicates agree with the spectral definition outside the tolerance band; the matrix '
  'square root of a non-negative definite matrix is symmetric, non-negative definite and squares to it; '
  'regularisation returns a matrix with the same eigenvectors whose eigenvalues are raised to the requested floor, '
  'leaving already regular matrices unchanged; treating nearly real input as real keeps the real part and rejects a '
  'significant imaginary part.',
  ['inputs', 'configurations'], 'all symmetric matrices of dimension 1-3 and tolerances',
  'tests use fixed matrices', [LA], [('la predicates and regularisation', LA)])
p('C18', 'Orthogonal translation matrices translate and are orthogonal',
  'Every orthogonal-translation constructor returns an orthogonal matrix carrying the direction of the source vector '
  'onto the direction of the target vector, for all non-zero vectors given flat or as columns; the maximising '
  'variants attain the largest trace or scalar product among such matrices. The orthogonal completion of a matrix is '
  'orthogonal and spans its columns first.',
  ['inputs'], 'all pairs of non-zero vectors of dimension 1-3',
  'tests use fixed vectors', [LA], [('orth_transl, orth_transl_qr, hausholder, mat_orth', LA)])
p('C19', 'Arrays of matrices are operated on slice by slice',
  'Every operation on a time-indexed array of matrices (transpose, upper triangle, symmetric part, product, two-sided '
  'product, multiplication and division by vectors, inverse, pseudo-inverse, square root, definiteness repair, direct '
  'and inverse quadratic forms, evaluation of functions and formulas, normalised product) returns, for each time '
  'index, the result of the corresponding matrix operation on that slice, accepts a single matrix in place of an '
  'array where documented, does not change its arguments and keeps the time axis last.',
  ['inputs'], 'all matrix arrays with sides 1-3 and 1-3 time slices',
  'tests use a few stored arrays', [GEN], [('MatVector families', GEN)])
p('C20', 'Tolerant sorting, square roots and products of arrays',
  'Tolerant row sorting returns a permutation of the rows in lexicographic order up to the tolerance together with '
  'that permutation; the tolerant square root is the square root of non-negative input, zero for input within the '
  'tolerance below zero and an error further below.',
  ['inputs'], 'all arrays up to 3x3', 'tests use fixed arrays', [GEN], [('sort_rows_tol, sqrt_pos', GEN)])
p('C21', 'Quadratic form, inverse, volume and support helpers',
  'The quadratic-form helper returns the form of the shifted vector with the matrix or with its inverse, for row, '
  'column and flat vectors alike; the refined inverse is an inverse; the volume helper is the volume of the '
  'ellipsoid; mis-shaped input is rejected.',
  ['inputs'], 'all matrices and vectors of dimension 1-3', 'tests use fixed values', [GELL],
  [('quad_mat, inv_mat, ell_volume, rho_mat', GELL)])
p('C22', 'Support functions and boundaries convert into each other',
  'The boundary rebuilt from support values consists, direction by direction in the plane (the last with the first) and face by '
  'face in space, of the points that lie on the supporting lines or planes of those directions. The geometric difference returns for every '
  'direction the support value of the set bounded by the differences of the two supports, which is the largest convex set within: '
  'never more than the difference itself and equal to it where that is convex, for directions listed by angle either way round from any '
  'start and for sets of any size; differences that are not positive and disagreeing sizes are rejected, arguments are left alone.',
  ['inputs'], 'all support values on the tested direction families', 'tests use fixed sets', [SUP],
  [('sup_2_boundary, sup_geom_diff', SUP)])
p('C23', 'Discretised circles, spheres and tubes lie on their surfaces',
  'A circle partition returns the requested number of equally spaced unit vectors of the angle range, its end excluded. One '
  'refinement step of a triangulation keeps the given vertices first, adds the middle of every edge of a split face exactly once '
  '(passed through the adjusting function, which leaves the given vertices alone), splits each face that has an edge longer than '
  'the limit into the four faces of its corners and middles with the same orientation, keeps every other face, closes each edge that is split '
  'on one side only by a zero-area face, and returns consistent edges, face-to-edge maps, directions and counts; it stops after '
  'the given number of steps or when no edge is longer than the limit. Sphere functions return the requested depth or at least '
  'the requested number of points on the unit sphere with faces of existing vertices; tube triangulations tile the strips between '
  'consecutive rings.',
  ['inputs', 'configurations'], 'all counts, depths and input triangulations within bounds',
  'tests check two depths', [TRI, GEOM], [('sphere_tri, shrink_face_tri, ell_tube_tri', TRI),
                                          ('circle_part', GEOM)])
p('C24', 'Face and edge maps of triangulations are consistent',
  'For any faces over any integer vertex numbers the edge map lists every undirected edge exactly once with its smaller number '
  'first and no other edge, maps each face to its edges between vertices 1-2, 2-3 and 1-3 in that order, and flags an edge '
  'as directed exactly when the face runs it in the stored order; faces that are not triples are rejected. A face is a member '
  'of a list exactly when a face with the same three vertices is listed. Two triangulations are equal exactly when vertices '
  'agree within the tolerance and the faces are the same, whatever the order of vertices within a face, of faces and of '
  'vertices. Inputs stay unchanged.',
  ['inputs'], 'all triangulations of up to 4 faces over 5 vertices', 'tests use a tetrahedron and a cube', [TRI],
  [('map_face_2_edge, is_face, is_tri_equal', TRI)])
p('C25', 'Absolute/relative comparison of arrays is a correct tolerance test',
  'Comparing two numeric arrays of the same shape reports equality exactly when every pair of elements differs by no '
  'more than the absolute tolerance or, where a relative tolerance is given and the values exceed the absolute '
  'tolerance, by no more than the relative tolerance; the reported differences are the actual maximal differences. NaN '
  'and infinite elements match only themselves. Other arguments are rejected.',
  ['inputs', 'configurations'], 'all arrays up to 2x2 and tolerances, special values included',
  'tests use fixed arrays', [COM], [('abs_rel_compare', COM)])
p('C26', 'Comparison of nested dictionaries is structural',
  'Two nested dictionaries compare equal exactly when they have the same keys and every leaf is equal up to the '
  'tolerances, at any nesting depth, in arrays and lists of any length; the report names a differing path; the '
  'relation is reflexive and symmetric.',
  ['inputs'], 'all nestings to depth 3 with numeric, string, list and array leaves',
  'tests use a few dictionaries', [DICT], [('dict_compare, dict_compare_vec', DICT)])
p('C27', 'Configuration properties validate and round trip',
  'After any sequence of setting properties, exchanging the configuration and restoring the defaults, every way of reading a '
  'property gives the last value and every newly created object takes it, while earlier objects keep theirs; changing a returned '
  'dictionary changes nothing. Parsing keyword properties returns, in the order asked (the fixed order when no names are given), the '
  'given value or the one in force, and the remaining arguments; unknown names and values (given or in force) of a wrong kind or '
  'non-positive tolerances are rejected. Neither the arguments nor the configuration change.',
  ['histories', 'configurations'], 'all sequences of set / parse / read operations to depth 3',
  'tests set a few values once', [PROP, PARSE], [('property setters', PROP), ('parse_prop', PARSE)])
p('C28', 'Membership, numeric tests and error reporting are exact',
  'The membership helper answers, for each element of the first array in order, whether it occurs in the second, and returns for '
  'each element that does, in order, the place of its first occurrence there. The numeric test accepts exactly boolean, integer, real and '
  'complex data. Errors and warnings raised through the error helpers read, in this order and separated by colons, the upper-case '
  'module, class (for methods) and function of the caller the given number of frames up, the given kind and the message.',
  ['inputs'], 'all arrays up to 3 elements', 'tests use fixed arrays', [COM], [('is_member, is_numeric, throw_error', COM)])
p('C29', 'Symbolic variable replacement touches whole identifiers only',
  'Replacing a variable name in an array of expressions changes exactly the whole-identifier occurrences of that name '
  'and nothing else; an expression depends on a variable exactly when such an occurrence exists.',
  ['inputs'], 'all expressions over a small alphabet up to length 5', 'tests use a few strings', [SYM],
  [('var_replace, is_dependent', SYM)])
p('C30', 'Unit balls, fusion parameter and vector alignment',
  'The unit ball of a dimension is centred at the origin with the identity matrix; the alignment matrix is orthogonal '
  'and carries the second vector into the direction of the first. The fusion condition is the derivative of '
  'log(k^n / det X) along the parameter, times -k det(X)^2, for the combined matrix X and scale k of the pair.',
  ['inputs'], 'dimensions 1-5, all non-zero vectors of dimension 1-3', 'tests use fixed vectors', [CORE],
  [('ell_unitball, ell_valign, ell_fusion_lambda', CORE)])
p('C31', 'Loggers report the requesting module',
  'A logger obtained by any module carries the name of the module that asked for it.',
  ['programs'], 'all calling modules', 'tests check one caller', [LOG], [('get_logger', LOG)])

if __name__ == '__main__':
    for x in P:
        assert len(x['title']) <= 80, x['id']
        print(json.dumps(x))
