E_ = 'elltool/core/ellipsoid/Ellipsoid.py'
A_ = 'elltool/core/aellipsoid/AEllipsoid.py'
B_ = 'elltool/core/abasicellipsoid/ABasicEllipsoid.py'
H_ = 'elltool/core/hyperplane/Hyperplane.py'
C_ = 'elltool/core/core.py'
L_ = 'gras/la/la.py'
G_ = 'gras/gen/gen.py'
EL = 'gras/geom/ell/ell.py'
CM = 'gen/common/common.py'
D_ = 'gen/dict/dict.py'
IMP = 'from ellipy.elltool.core.ellipsoid.Ellipsoid import Ellipsoid\n'
IMH = 'from ellipy.elltool.core.hyperplane.Hyperplane import Hyperplane\n'
SEEDS = [
 dict(id='c01_relative_definiteness', property='C01', file=L_,
      edits=[('if min_eig < -abs_tol:', 'if min_eig < -abs_tol * max(1., np.max(np.abs(eig_vec))):')],
      needs='a matrix with a large norm and a negative eigenvalue small relative to it',
      what_it_breaks='the definiteness tolerance becomes relative to the norm, so indefinite shape matrices are accepted',
      demo=IMP + '''
try:
    Ellipsoid(np.array([0., 0.]), np.diag([1.e6, -0.5]))
except ValueError:
    sys.exit(0)
sys.exit('indefinite shape matrix accepted')
'''),
 dict(id='c02_normal_aliased', property='C02', file=H_,
      edits=[('''        return np.copy(self.__normal_vec)''', '''        return self.__normal_vec''')],
      needs='the parallelism query (or a caller) changing the array returned by the accessor',
      what_it_breaks='the accessor of the normal hands out internal storage, which is_parallel then normalises in place',
      demo=IMH + '''
a, b = Hyperplane(np.array([3., 4.]), 5.), Hyperplane(np.array([0., 2.]), 1.)
Hyperplane.is_parallel([a], [b])
v, s = a.parameters()
assert np.array_equal(v, [3., 4.]) and s == 5., 'hyperplane changed by a query: %s' % v
v[0] = 7.
assert np.array_equal(a.parameters()[0], [3., 4.])
'''),
 dict(id='c03_copy_shared', property='C03', file=B_,
      edits=[('''        for i_elem in range(n_elems):
            # noinspection PyProtectedMember
            copy_ell_arr[i_elem] = ell_arr[i_elem]._get_single_copy()
''', '''        copies_dict = dict()
        for i_elem in range(n_elems):
            # noinspection PyProtectedMember
            if id(ell_arr[i_elem]) not in copies_dict:
                copies_dict[id(ell_arr[i_elem])] = ell_arr[i_elem]._get_single_copy()
            copy_ell_arr[i_elem] = copies_dict[id(ell_arr[i_elem])]
''')],
      needs='an array holding the same object more than once',
      what_it_breaks='copies of a repeated object are one shared object instead of independent ones',
      demo=IMP + '''
e = Ellipsoid(np.array([1., 2.]), np.diag([1., 4.]))
c = Ellipsoid.get_copy([e, e])
assert c[0] is not c[1], 'copies are not independent'
'''),
 dict(id='c04_order_of_grid', property='C04', file=E_,
      edits=[('''            res_c_arr, x_c_arr = zip(*map(lambda ell_obj: f_rho_for_dir(ell_obj, dirs_arr),
                                          ell_arr.flatten()))''',
              '''            res_c_arr, x_c_arr = zip(*map(lambda ell_obj: f_rho_for_dir(ell_obj, dirs_arr),
                                          ell_arr.flatten('K')))''')],
      needs='a two-dimensional array of ellipsoids stored in column order (a transposed array) with one direction',
      what_it_breaks='support values of a transposed array of ellipsoids stand at wrong positions',
      demo=IMP + '''
a = np.array([[Ellipsoid(np.array([float(10 * i + j)]), np.eye(1)) for j in range(3)] for i in range(2)]).T
s, _ = Ellipsoid.rho(a, np.array([[1.]]))
for i in range(3):
    for j in range(2):
        assert abs(s[i, j] - (10 * j + i + 1)) < 1e-9, (i, j, s[i, j])
'''),
 dict(id='c05_broadcast_length', property='C05', file=H_,
      edits=[('hp_scal = hp_scal * norm_mult', 'hp_scal = hp_scal * (norm_mult if norm_mult <= 1. else 1.)')],
      needs='hyperplanes whose normals are shorter than one',
      what_it_breaks='the shift is not rescaled with a short normal, so rescaled copies of a hyperplane compare unequal and others equal',
      demo=IMH + '''
a = Hyperplane(np.array([1., 0.]), 2.)
assert a == Hyperplane(np.array([2., 0.]), 4.)
assert a == Hyperplane(np.array([0.5, 0.]), 1.), 'the same hyperplane'
assert not a == Hyperplane(np.array([0.5, 0.]), 2.), 'another hyperplane'
'''),
 dict(id='c06_common_centre', property='C06', file=E_,
      edits=[('c_vec = (x_vec - np.array([sing_ell.get_center_vec().T])).T', 'c_vec = (x_vec - np.array([cen_vec if is_same_cen else sing_ell.get_center_vec()])).T'),
             ('''            abs_tol_arr = cls.get_abs_tol(ell_arr_in, f_prop_fun=None)
            is_pos_arr = np''', '''            abs_tol_arr = cls.get_abs_tol(ell_arr_in, f_prop_fun=None)
            cen_vec = ell_arr_in[0].get_center_vec()
            is_same_cen = np.array_equal(cen_vec, ell_arr_in[-1].get_center_vec())
            is_pos_arr = np''')],
      needs='at least three ellipsoids, the first and last with the same centre and one between them with another',
      what_it_breaks='a shortcut for concentric ellipsoids looks at the outer ones only, so membership in the middle one is decided about the wrong centre',
      demo=IMP + '''
a = Ellipsoid(np.array([0., 0.]), np.eye(2))
b = Ellipsoid(np.array([9., 0.]), np.eye(2))
r = Ellipsoid.is_internal([a, b, a], np.array([[9., 0.], [0., 0.]]), 'u')
assert list(np.ravel(r)) == [True, True], r
r = Ellipsoid.is_internal([a, b, a], np.array([[9., 0.], [0., 0.]]), 'i')
assert list(np.ravel(r)) == [False, False], r
'''),
 dict(id='c07_polar_centre_scale', property='C07', file=E_,
      edits=[("norm_const = quad_mat(sh_mat, c_vec, 0, 'inv')", "norm_const = quad_mat(inv_sh_mat, c_vec, c_vec if c_vec.size == 1 else 0, 'plain')")],
      needs='a one-dimensional ellipsoid off the origin',
      what_it_breaks='the form of the centre is taken about the centre itself in dimension one, so the polar interval is wrong',
      demo=IMP + '''
e = Ellipsoid(np.array([0.5]), np.array([[1.]]))
p = Ellipsoid.polar([e]).flatten()[0]
c, q = p.double()
# e = [-1/2, 3/2], polar = [-2, 2/3]
assert abs(c[0] + 2. / 3) < 1e-9 and abs(np.sqrt(q[0, 0]) - 4. / 3) < 1e-9, (c, q)
'''),
 dict(id='c10_adjacent_columns', property='C10', file=A_,
      edits=[('is_orthogonal_mat = np.abs(sc_prod_mat - np.diag(norm_sq_vec)) > abs_tol', 'is_orthogonal_mat = np.abs(np.diag(sc_prod_mat, 1)) > abs_tol')],
      needs='three basis vectors, the first and third not orthogonal',
      what_it_breaks='only neighbouring basis vectors are tested for orthogonality',
      demo=IMP + '''
e = Ellipsoid(np.zeros(3), np.diag([1., 2., 3.]))
try:
    Ellipsoid.projection([e], np.array([[1., 0., 1.], [0., 1., 0.], [0., 0., 1.]]))
except ValueError:
    sys.exit(0)
sys.exit('skew basis accepted')
'''),
 dict(id='c11_volume_by_det', property='C11', file=A_,
      edits=[('            if cls.is_degenerate(ell_obj):\n                return 0.0', '            if np.linalg.det(ell_obj.get_shape_mat()) <= ell_obj._abs_tol:\n                return 0.0')],
      needs='a non-degenerate ellipsoid whose determinant is below the tolerance while its eigenvalues are above it',
      what_it_breaks='volume of small non-degenerate ellipsoids is reported as zero',
      demo=IMP + '''
e = Ellipsoid(np.zeros(2), np.diag([1.e-4, 1.e-3]))
v = np.ravel(Ellipsoid.volume([e]))[0]
assert abs(v - np.pi * np.sqrt(1.e-7)) < 1e-9, v
'''),
 dict(id='c12_rank_order', property='C12', file=E_,
      edits=[('if n_rank_vec[0] < n_rank_vec[1]:\n            return False', 'if n_rank_vec[0] < n_dim_vec[0] and n_rank_vec[0] <= n_rank_vec[1]:\n            return False')],
      needs='two degenerate ellipsoids of equal rank, the first containing the second',
      what_it_breaks='a degenerate ellipsoid is never bigger than another of the same rank',
      demo=IMP + '''
a = Ellipsoid(np.zeros(2), np.diag([4., 0.]))
b = Ellipsoid(np.zeros(2), np.diag([1., 0.]))
assert a.is_bigger(b), 'the longer segment does not contain the shorter one'
'''),
 dict(id='c13_negation_props', property='C13', file=E_,
      edits=[('res_ell = ell_obj._get_single_copy()\n', 'res_ell = ell_obj.__class__(*ell_obj.double(), abs_tol=ell_obj._abs_tol, rel_tol=ell_obj._rel_tol)\n')],
      needs='an ellipsoid with its own number of plotting points',
      what_it_breaks='negation resets the plotting properties to the defaults',
      demo=IMP + '''
e = Ellipsoid(np.zeros(2), np.eye(2), n_plot_2d_points=17, n_plot_3d_points=19)
m = -e
assert Ellipsoid.get_n_plot_2d_points([m])[0] == 17 and Ellipsoid.get_n_plot_3d_points([m])[0] == 19
'''),
 dict(id='c15_least_tolerance', property='C15', file=H_,
      edits=[('abs_tol = cls.get_abs_tol(hyp, f_prop_fun=None).flat[0]', 'abs_tol = cls.get_abs_tol(hyp_arr, f_prop_fun=None).flat[0]')],
      needs='an array of hyperplanes with different tolerances',
      what_it_breaks='containment in every hyperplane of an array is decided with the tolerance of the first',
      demo=IMH + '''
a = Hyperplane(np.array([1., 0.]), 0.)
b = Hyperplane(np.array([1., 0.]), 0., abs_tol=0.5)
x = np.array([[0.1], [0.]])
assert list(np.ravel(Hyperplane.contains([a, b], x))) == [False, True]
assert list(np.ravel(Hyperplane.contains([b, a], x))) == [True, False]
'''),
 dict(id='c16_parallel_abs', property='C16', file=H_,
      edits=[('''                if np.max(np.abs(first_hyp_norm_vec - sec_hyp_norm_vec)) < first_hyp_abs_tol:
                    is_pos = True
                elif np.max(np.abs(first_hyp_norm_vec + sec_hyp_norm_vec)) < first_hyp_abs_tol:
                    is_pos = True
''', '''                if np.max(np.abs(np.abs(first_hyp_norm_vec) - np.abs(sec_hyp_norm_vec))) < first_hyp_abs_tol:
                    is_pos = True
''')],
      needs='normals that agree up to signs of some of the coordinates',
      what_it_breaks='mirrored, non-collinear normals are reported parallel',
      demo=IMH + '''
a, b = Hyperplane(np.array([1., 2.]), 0.), Hyperplane(np.array([1., -2.]), 0.)
assert not np.any(Hyperplane.is_parallel([a], [b])), 'not collinear'
assert np.all(Hyperplane.is_parallel([a], [Hyperplane(np.array([-2., -4.]), 1.)]))
'''),
 dict(id='c17_regularise_mean', property='C17', file=L_,
      edits=[('m_mat = np.diag(np.maximum(0.0, reg_tol-d_mat))', 'm_mat = np.diag(np.where(d_mat < reg_tol, np.maximum(reg_tol, np.min(d_mat)) - np.min(d_mat), 0.0))')],
      needs='two different eigenvalues below the requested floor',
      what_it_breaks='every eigenvalue below the floor is raised by the same amount, so the larger of them end above the floor',
      demo='''
from ellipy.gras.la.la import reg_pos_def_mat
r = reg_pos_def_mat(np.diag([-1., 0.25, 3.]), 0.5)
assert np.max(np.abs(r - np.diag([0.5, 0.5, 3.]))) < 1e-9, r
'''),
 dict(id='c18_max_dir_sign', property='C18', file=L_,
      edits=[('if np.logical_xor(r1_src_mat[0, 0] > 0, r1_dst_mat[0, 0] > 0):', 'if r1_src_mat[0, 0] > 0 and not r1_dst_mat[0, 0] > 0:')],
      needs='auxiliary vectors whose leading coordinates in the two complements have opposite signs, one way round',
      what_it_breaks='the variant maximising a scalar product minimises it for half of the sign combinations',
      demo='''
from ellipy.gras.la.la import orth_transl_max_dir
for a in ([1., 2., 3.], [1., -2., 3.]):
    for b in ([1., 2., 3.], [1., -2., 3.]):
        e, a1, b1 = np.array([1., 0., 0.]), np.array(a), np.array(b)
        o = orth_transl_max_dir(e, e, a1, b1)
        best = 1. + 13.
        assert abs(b1 @ o @ a1 - best) < 1e-8, (a, b, b1 @ o @ a1)
'''),
 dict(id='c19_time_invariant_scalar', property='C19', file=G_,
      edits=[('''                    for i_time_point in range(n_time_points):
                        res_mat[:, :, i_time_point] = mult_func(a_arr[:, :, i_time_point], b_arr[:, :, 0])
''', '''                    res_mat[:, :, :] = mult_func(a_arr[:, :, 0], b_arr[:, :, 0])[:, :, np.newaxis] if is_a_scalar else \\
                        np.stack([mult_func(a_arr[:, :, i], b_arr[:, :, 0]) for i in range(n_time_points)], axis=2)
''')],
      needs='a time-dependent scalar times a constant matrix',
      what_it_breaks='a time-dependent scalar is replaced by its first value',
      demo='''
from ellipy.gras.gen.gen import MatVector
a = np.array([[[2., 3., 5.]]])
b = np.array([[1., 2.], [3., 4.]])
r = MatVector.r_multiply(a, b)
for t in range(3):
    assert np.allclose(r[:, :, t], a[0, 0, t] * b), t
'''),
 dict(id='c20_rounded_rows', property='C20', file=G_,
      edits=[('''            is_less_vec = np.abs(col_diff_vec) <= tol
            col_diff_vec[is_less_vec] = 0.
            col_vec = np.cumsum(np.hstack((col_vec[0], col_diff_vec)))
''', '''            if tol > 0.:
                col_vec = np.round((col_vec - col_vec[0]) / tol)
''')],
      needs='values within the tolerance of each other on different sides of a rounding boundary',
      what_it_breaks='rows equal up to the tolerance are ordered by noise in an early column',
      demo='''
from ellipy.gras.gen.gen import sort_rows_tol
m = np.array([[0., 9.], [1.04, 1.], [1.06, 0.]])
r, i, _ = sort_rows_tol(m, 0.1)
assert list(i) == [0, 2, 1], i
'''),
 dict(id='c21_scalar_centre', property='C21', file=EL,
      edits=[('if c_vec.size == 1 and np.all(c_vec.flatten()[0] == 0.):', 'if c_vec.size == 1:')],
      needs='a one-dimensional form about a non-zero centre',
      what_it_breaks='the centre of a one-dimensional quadratic form is ignored',
      demo='''
from ellipy.gras.geom.ell.ell import quad_mat
v = np.ravel(quad_mat(np.array([[2.]]), np.array([5.]), np.array([3.])))[0]
assert abs(v - 8.) < 1e-12, v
'''),
 dict(id='c25_norm_wise', property='C25', file=CM,
      edits=[('''                        2. * diff_arr[is_rel_diff_triggered_arr] / \\
                        arg_sum_norm_arr[is_rel_diff_triggered_arr]''', '''                        2. * diff_arr[is_rel_diff_triggered_arr] / \\
                        np.amax(arg_sum_norm_arr[is_rel_diff_triggered_arr])''')],
      needs='an array mixing large and small elements, both differing by more than the absolute tolerance',
      what_it_breaks='relative differences of small elements are divided by the largest element',
      demo='''
from ellipy.gen.common.common import abs_rel_compare
x, y = np.array([1000., 1.]), np.array([1000.5, 1.5])
r = abs_rel_compare(x, y, 1e-3, 1e-2, lambda z: np.abs(z))
assert not r[0] and abs(r[3] - 0.4) < 1e-12, r
'''),
 dict(id='c26_last_element', property='C26', file=D_,
      edits=[('''                                comp_report_str = '{' + str(i_comp_elem) + '}' + comp_report_str
                                break
''', '''                                comp_report_str = '{' + str(i_comp_elem) + '}' + comp_report_str
''')],
      needs='a list leaf whose elements differ before the last one',
      what_it_breaks='only the last element of a list decides its equality',
      demo='''
from ellipy.gen.dict.dict import dict_compare
r, s = dict_compare({'a': ['x', 'y', 'z']}, {'a': ['x', 'q', 'z']}, 0., None)
assert not r, 'lists differ'
'''),
 dict(id='c30_align_column', property='C30', file=C_,
      edits=[('    u2_mat, _, v2_mat = svd(np.expand_dims(x, axis=1), full_matrices=True)', '''    u2_mat, _, v2_mat = svd(np.expand_dims(x, axis=1), full_matrices=True)
    if v.shape[0] > 1 and np.sum(v * x) < 0.:
        u2_mat[:, 0] = -u2_mat[:, 0]''')],
      needs='vectors at an obtuse angle',
      what_it_breaks='for vectors at an obtuse angle the second is carried into the direction opposite to the first',
      demo='''
from ellipy.elltool.core.core import ell_valign
for v in ([1., 2., 3.], [-1., 2., 0.], [0., 0., -1.]):
    for x in ([1., 2., 3.], [-1., -2., 0.], [0., 0., 1.], [-1., 0., 0.]):
        v1, x1 = np.array(v), np.array(x)
        t = ell_valign(v1, x1)
        assert np.allclose(t @ x1 / np.linalg.norm(x1), v1 / np.linalg.norm(v1)), (v, x)
'''),
]
