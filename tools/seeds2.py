E_ = 'elltool/core/ellipsoid/Ellipsoid.py'
A_ = 'elltool/core/aellipsoid/AEllipsoid.py'
B_ = 'elltool/core/abasicellipsoid/ABasicEllipsoid.py'
H_ = 'elltool/core/hyperplane/Hyperplane.py'
C_ = 'elltool/core/core.py'
L_ = 'gras/la/la.py'
G_ = 'gras/gen/gen.py'
EL = 'gras/geom/ell/ell.py'
GM = 'gras/geom/geom.py'
SU = 'gras/geom/sup/sup.py'
T_ = 'gras/geom/tri/tri.py'
SY = 'gras/sym/sym.py'
CM = 'gen/common/common.py'
D_ = 'gen/dict/dict.py'
PP = 'elltool/conf/properties/_ParseProp.py'
PR = 'elltool/conf/properties/Properties.py'
IMP = 'from ellipy.elltool.core.ellipsoid.Ellipsoid import Ellipsoid\n'
IMH = 'from ellipy.elltool.core.hyperplane.Hyperplane import Hyperplane\n'
SEEDS = [
 dict(id='c01_centre_dim_broadcast', property='C01', file=E_,
      edits=[('if self._center_vec.size != self._shape_mat.shape[0]:', 'if self._center_vec.size > self._shape_mat.shape[0]:')],
      needs='a centre with fewer components than the matrix has rows',
      what_it_breaks='a centre of too small a dimension is accepted',
      demo=IMP + '''
try:
    Ellipsoid(np.array([1.]), np.eye(2))
except ValueError:
    sys.exit(0)
sys.exit('accepted')
'''),
 dict(id='c03_rep_keeps_self', property='C03', file=B_,
      edits=[('''        for i_elem in range(n_elems):
            ell_arr[i_elem] = self._get_single_copy()
        ell_arr = np.reshape(ell_arr, shape_vec)''', '''        for i_elem in range(n_elems):
            ell_arr[i_elem] = self if i_elem == n_elems - 1 else self._get_single_copy()
        ell_arr = np.reshape(ell_arr, shape_vec)''')],
      needs='replicating an object and then changing the last replica in place',
      what_it_breaks='the last replica is the original object itself, so an in-place projection of the replicas changes the original',
      demo=IMP + '''
e = Ellipsoid(np.array([1., 2.]), np.diag([1., 4.]))
a = e.rep_mat([2])
Ellipsoid.projection(a, np.array([[1.], [0.]]))
assert e.dimension([e])[0] == 2, 'the original changed with its replicas'
'''),
 dict(id='c03_plot_points_lost', property='C03', file=E_,
      edits=[('''                              n_plot_2d_points=self._n_plot_2d_points,
                              n_plot_3d_points=self._n_plot_3d_points)''', '''                              n_plot_2d_points=self._n_plot_2d_points,
                              n_plot_3d_points=max(self._n_plot_3d_points, self._n_plot_2d_points))''')],
      needs='an ellipsoid with fewer three-dimensional than two-dimensional plot points',
      what_it_breaks='the copy has other plotting properties',
      demo=IMP + '''
e = Ellipsoid(np.array([1., 2.]), np.diag([1., 4.]), n_plot_2d_points=90, n_plot_3d_points=20)
c = Ellipsoid.get_copy([e])[0]
assert c._n_plot_3d_points == 20, c._n_plot_3d_points
'''),
 dict(id='c04_zero_direction_band', property='C04', file=EL,
      edits=[('        bp_mat = ell_shape_mat @ dirs_mat / np.tile(temp_mat, (m, 1))', '        bp_mat = ell_shape_mat @ dirs_mat / np.tile(np.maximum(temp_mat, 10. * np.sqrt(abs_tol)), (m, 1))')],
      needs='several directions, one of them with a small support radius (a thin ellipsoid)',
      what_it_breaks='along directions in which the ellipsoid is thin the boundary point is drawn to the centre',
      demo=IMP + '''
e = Ellipsoid(np.array([0., 0.]), np.diag([1., 2.5e-5]))
s, b = Ellipsoid.rho([e], np.array([[1., 0.], [0., 1.]]))
assert abs(b[1, 1] - 0.005) < 1e-6, b
'''),
 dict(id='c05_first_wins_tol', property='C05', file=B_,
      edits=[('            inp_arr = np.hstack((inp_first_arr.flatten(), inp_sec_arr.flatten()))', '            inp_arr = inp_first_arr.flatten()')],
      needs='two objects with different tolerances',
      what_it_breaks='only the tolerance of the first operand counts, so equality is not symmetric',
      demo=IMP + '''
a = Ellipsoid(np.array([0.]), np.eye(1), abs_tol=1e-2)
b = Ellipsoid(np.array([5e-3]), np.eye(1), abs_tol=1e-6)
assert (a == b) == (b == a), 'not symmetric'
'''),
 dict(id='c06_union_last', property='C06', file=E_,
      edits=[('                if np.any(np.ravel(is_pos_arr)):', '                if np.any(np.ravel(is_pos_arr)[:np.size(mat_of_vec_mat, 0) + 1]):')],
      needs='the union of more ellipsoids than the dimension plus one, the point in a later one only',
      what_it_breaks='ellipsoids beyond the first n + 1 are ignored in unions',
      demo=IMP + '''
es = [Ellipsoid(np.array([10. * i]), np.eye(1)) for i in range(4)]
assert Ellipsoid.is_internal(es, np.array([[30.]]), 'u').flatten()[0]
'''),
 dict(id='c07_reject_by_volume', property='C07', file=E_,
      edits=[("            if is_zero_in_ell < 1:\n                aux_mat", "            if abs(is_zero_in_ell) != 1:\n                aux_mat")],
      needs='the second method on an ellipsoid that does not contain the origin',
      what_it_breaks='the second method goes on for ellipsoids that do not contain the origin',
      demo=IMP + '''
e = Ellipsoid(np.array([3., 0.]), np.eye(2))
try:
    e._get_scalar_polar_internal(False)
except ValueError as x:
    assert 'DEGENERATEELLIPSOID' in str(x).upper(), x
    sys.exit(0)
sys.exit('accepted')
'''),
 dict(id='c08_many_directions', property='C08', file=E_,
      edits=[('                dir_vec = dir_mat[:, dir_ind]', '                dir_vec = dir_mat[:, dir_ind if n_cols <= n_dims + 1 else dir_ind - dir_ind % 2]')],
      needs='more directions than the dimension plus one',
      what_it_breaks='with many directions every second approximation belongs to the preceding direction',
      demo=IMP + '''
a, b = Ellipsoid(np.array([0., 0.]), np.diag([1., 9.])), Ellipsoid(np.array([0., 0.]), np.diag([4., 1.]))
d = np.array([[1., 1., 1., 1.], [0., 1., 2., 3.]])
r = Ellipsoid.minksum_ea([a, b], d)
for i in range(4):
    l = d[:, i]
    s = sum(np.sqrt(l @ x.get_shape_mat() @ l) for x in (a, b))
    assert abs(np.sqrt(l @ r[i].get_shape_mat() @ l) - s) < 1e-9, i
'''),
 dict(id='c08_unregularised_weight', property='C08', file=E_,
      edits=[('                fst_coef = np.sqrt(quad_mat(sh_mat, dir_vec))', '                fst_coef = np.sqrt(max(quad_mat(sh_mat, dir_vec), 1.e-3))')],
      needs='an ellipsoid that is thin along the direction',
      what_it_breaks='along directions in which an operand is thin the approximation is not tight',
      demo=IMP + '''
a, b = Ellipsoid(np.array([0., 0.]), np.diag([1., 9.e-4])), Ellipsoid(np.array([0., 0.]), np.diag([4., 1.]))
l = np.array([0., 1.])
r = Ellipsoid.minksum_ea([a, b], l.reshape(2, 1))[0]
assert abs(np.sqrt(l @ r.get_shape_mat() @ l) - 1.03) < 1e-6
'''),
 dict(id='c09_only_two', property='C09', file=E_,
      edits=[('            sub_sh_mat = sub_sh_mat[-1, :, :]', '            sub_sh_mat = sub_sh_mat[min(n_ell, 4) - 1, :, :]')],
      needs='the sum of five or more ellipsoids',
      what_it_breaks='only the first four ellipsoids contribute to the shape',
      demo=IMP + '''
es = [Ellipsoid(np.array([0., 0.]), np.diag([1. + i, 2.])) for i in range(5)]
l = np.array([1., 0.])
r = Ellipsoid.minksum_ia(es, l.reshape(2, 1))[0]
assert abs(np.sqrt(l @ r.get_shape_mat() @ l) - sum(np.sqrt(1. + i) for i in range(5))) < 1e-9
'''),
 dict(id='c10_short_vectors', property='C10', file=A_,
      edits=[('            norm_mat = ml.repmat(np.sqrt(norm_sq_vec.T), n_dim, 1)', '            norm_mat = ml.repmat(np.sqrt(np.maximum(norm_sq_vec.T, 1.)), n_dim, 1)')],
      needs='a basis vector shorter than one',
      what_it_breaks='basis vectors shorter than one are not normalised',
      demo=IMP + '''
e = Ellipsoid(np.array([1., 2.]), np.diag([1., 4.]))
p = Ellipsoid.get_projection([e], np.array([[0.], [0.5]]))[0]
assert abs(p.get_shape_mat()[0, 0] - 4.) < 1e-9, p.get_shape_mat()
'''),
 dict(id='c11_volume_of_odd', property='C11', file=A_,
      edits=[('                    k = (n_dim - 1)*0.5', '                    k = (min(n_dim, 3) - 1)*0.5')],
      needs='an ellipsoid of dimension five or more, odd',
      what_it_breaks='the volume in odd dimensions above three uses the constant of dimension three',
      demo=IMP + '''
v = Ellipsoid.volume([Ellipsoid(np.eye(5))])[0]
assert abs(v - 8 * np.pi ** 2 / 15) < 1e-9, v
'''),
 dict(id='c12_first_tolerance', property='C12', file=E_,
      edits=[('return np.max(np.abs(np.diag(t_mat @ sec_shape_mat @ t_mat.T))) < (1 + self._abs_tol)', 'return np.mean(np.abs(np.diag(t_mat @ sec_shape_mat @ t_mat.T))) < (1 + self._abs_tol) and '
              'np.trace(sec_shape_mat) <= np.trace(first_shape_mat) + n_dim_vec[0] * self._abs_tol')],
      needs='a second ellipsoid that sticks out in one direction and is much smaller in the others',
      what_it_breaks='an ellipsoid that sticks out in one direction is called contained if it is small enough in the others',
      demo=IMP + '''
a, b = Ellipsoid(np.diag([4., 4.])), Ellipsoid(np.diag([5., 1.]))
assert not a.is_bigger(b)
assert a.is_bigger(Ellipsoid(np.diag([3.9, 1.])))
'''),
 dict(id='c13_negated_in_column_order', property='C13', file=E_,
      edits=[('            ell_flat_arr = ell_arr.flatten()\n\n            def f_single_uminus', "            ell_flat_arr = ell_arr.flatten('A')\n\n            def f_single_uminus")],
      needs='a two-dimensional array of ellipsoids stored in column order (a transposed array)',
      what_it_breaks='negated ellipsoids of a transposed array stand at wrong positions',
      demo=IMP + '''
a = np.array([[Ellipsoid(np.array([float(10 * i + j)]), np.eye(1)) for j in range(3)] for i in range(2)]).T
n = Ellipsoid.uminus(a)
for i in range(3):
    for j in range(2):
        assert n[i, j].get_center_vec()[0] == -(10. * j + i)
'''),
 dict(id='c14_nearest_count', property='C14', file=E_,
      edits=[('''        factor = np.float64(factor)
        if n_dim == 2:
            n_plot_points = self._n_plot_2d_points
            if factor != 1.0:
                n_plot_points = int(np.floor(n_plot_points * factor))
        elif n_dim == 3:''', '''        factor = np.float64(factor)
        if n_dim == 2:
            n_plot_points = self._n_plot_2d_points
            if factor != 1.0:
                n_plot_points = int(np.round(n_plot_points * factor))
        elif n_dim == 3:''')],
      needs='a factor whose product with the number of points has a fractional part above one half',
      what_it_breaks='the number of support points is rounded to the nearest instead of down',
      demo=IMP + '''
e = Ellipsoid(np.array([0., 0.]), np.eye(2), n_plot_2d_points=7)
b, f, s, l = e.get_rho_boundary_by_factor(1.25)
assert b.shape[0] == 9, b.shape
'''),
 dict(id='c15_contains_norm', property='C15', file=H_,
      edits=[('                if np.abs((hyp_norm_vec.T @ x_vec) - hyp_const) < abs_tol:', '                if np.abs((hyp_norm_vec.T @ x_vec) - hyp_const) < abs_tol * np.maximum(1., np.max(np.abs(x_vec), initial=0.)):')],
      needs='a point with large coordinates off the hyperplane by more than the tolerance',
      what_it_breaks='the tolerance of containment grows with the coordinates of the point',
      demo=IMH + '''
h = Hyperplane(np.array([1., 0.]), 0.)
assert not Hyperplane.contains([h], np.array([[1e-3], [1e5]])).flatten()[0]
'''),
 dict(id='c17_sqrt_floor', property='C17', file=L_,
      edits=[('    d_vec[d_vec < 0.] = 0.\n    d_mat = np.diag(np.sqrt(d_vec))', '    d_vec[d_vec < abs_tol] = 0.\n    d_mat = np.diag(np.sqrt(d_vec))')],
      needs='an eigenvalue positive but below the tolerance',
      what_it_breaks='eigenvalues below the tolerance are dropped from the root, which errs by the root of the tolerance',
      demo='''
from ellipy.gras.la.la import sqrtm_pos
r = sqrtm_pos(np.diag([1., 0.04]), 0.05)
assert abs(r[1, 1] - 0.2) < 1e-9, r
'''),
 dict(id='c18_nearly_parallel', property='C18', file=L_,
      edits=[('    __ABS_TOL = 1e-7\n', '    __ABS_TOL = 1e-2\n')],
      needs='source and target nearly but not exactly parallel',
      what_it_breaks='nearly parallel vectors are treated as parallel, the matrix does not carry one into the other',
      demo='''
from ellipy.gras.la.la import orth_transl
o = orth_transl(np.array([1., 0.]), np.array([1., 5e-3]))
v = o @ np.array([1., 0.])
assert abs(v[1] - 5e-3) < 1e-5, v
'''),
 dict(id='c18_haus_nearly_equal', property='C18', file=L_,
      edits=[('    __MAX_TOL = 1e-14\n', '    __MAX_TOL = 1e-4\n')],
      needs='source and target nearly but not exactly parallel',
      what_it_breaks='nearly equal directions are not reflected into each other',
      demo='''
from ellipy.gras.la.la import orth_transl_haus
v = orth_transl_haus(np.array([1., 0.]), np.array([1., 5e-3])) @ np.array([1., 0.])
assert abs(v[1] - 5e-3) < 1e-5, v
'''),
 dict(id='c19_lr_first_slice', property='C19', file=G_,
      edits=[('                        out_array[:, :, t] = inp_a_arr[:, :, t] @ inp_b_arr[:, :, t] @ inp_a_arr[:, :, t].T', '                        out_array[:, :, t] = inp_a_arr[:, :, t] @ inp_b_arr[:, :, t] @ inp_a_arr[:, :, min(t, 2)].T')],
      needs='four or more time slices with the left product',
      what_it_breaks='from the fourth time index on the second factor is that of the third',
      demo='''
from ellipy.gras.gen.gen import SquareMatVector
b = np.array([[[1., 1., 1., 1.]]]); a = np.array([[[1., 2., 3., 4.]]])
assert np.allclose(SquareMatVector.lr_multiply(b, a, 'L').flatten(), [1., 4., 9., 16.])
'''),
 dict(id='c19_divide_symmetric', property='C19', file=G_,
      edits=[('                    out_vec[t] = inp_a_arr[:, t].T @ np.linalg.lstsq(inp_b_arr[:, :, t], inp_a_arr[:, t], -1)[0]', '                    out_vec[t] = inp_a_arr[:, t].T @ np.linalg.pinv(np.tril(inp_b_arr[:, :, t]) + np.tril(inp_b_arr[:, :, t], -1).T) @ inp_a_arr[:, t]')],
      needs='matrices that are not symmetric',
      what_it_breaks='the upper triangle of the matrices is ignored in the inverse quadratic form',
      demo='''
from ellipy.gras.gen.gen import SquareMatVector
b = np.zeros((2, 2, 2)); b[:, :, 0] = [[2., 1.], [0., 1.]]; b[:, :, 1] = [[1., 3.], [0.5, 4.]]
a = np.array([[1., 2.], [3., 1.]])
r = SquareMatVector.lr_divide_vec(b, a)
for t in range(2):
    assert abs(r[t] - a[:, t] @ np.linalg.inv(b[:, :, t]) @ a[:, t]) < 1e-9
'''),
 dict(id='c20_in_place', property='C20', file=G_,
      edits=[('        inp_arr_new = np.array(inp_arr, copy=True, dtype=np.float64)', '        inp_arr_new = np.array(inp_arr, copy=False, dtype=np.float64)')],
      needs='an array with values within the tolerance below zero',
      what_it_breaks='the argument of the tolerant root is changed',
      demo='''
from ellipy.gras.gen.gen import sqrt_pos
a = np.array([1., -1e-9])
sqrt_pos(a, 1e-6)
assert a[1] == -1e-9, 'argument changed'
'''),
 dict(id='c20_last_column', property='C20', file=G_,
      edits=[('            is_less_vec = np.abs(col_diff_vec) <= tol', '            is_less_vec = np.abs(col_diff_vec) <= (tol if i_col < n_cols - 1 else 0.)')],
      needs='rows equal up to the tolerance in all columns, the order of rows being then that of the input',
      what_it_breaks='the last column is compared exactly, so equivalent rows may be exchanged',
      demo='''
from ellipy.gras.gen.gen import sort_rows_tol
m = np.array([[1., 2.0000001], [1., 2.]])
r, i, j = sort_rows_tol(m, 1e-3)
assert list(i) == [0, 1], i
'''),
 dict(id='c21_column_shift', property='C21', file=EL,
      edits=[('        res = np.dot(x_vec - c_vec, inv_mat(q_mat) @ (x_vec - c_vec).T)', '        res = np.dot(x_vec, inv_mat(q_mat) @ x_vec.T) - 2 * np.dot(x_vec, inv_mat(q_mat).T @ c_vec.T) + np.dot(c_vec, inv_mat(q_mat) @ c_vec.T)')],
      needs="the mode 'invadv' with a matrix that is not symmetric and a centre",
      what_it_breaks='the inverse form is expanded as if the matrix were symmetric',
      demo='''
from ellipy.gras.geom.ell.ell import quad_mat
q = np.array([[2., 1.], [0., 1.]]); x = np.array([1., 2.]); c = np.array([3., -1.])
r = np.array(quad_mat(q, x, c, 'invadv')).flatten()[0]
assert abs(r - (x - c) @ np.linalg.inv(q) @ (x - c)) < 1e-9, r
'''),
 dict(id='c22_last_pair', property='C22', file=SU,
      edits=[('    x_bound_mat[:, -1] = np.linalg.lstsq(np.vstack((dir_mat[n_dirs - 1, :], dir_mat[0, :])),\n                                         np.hstack((sup_vec[n_dirs - 1], sup_vec[0])), -1)[0]',
              '    if not np.array_equal(dir_mat[-1], -dir_mat[0]):\n        x_bound_mat[:, -1] = np.linalg.lstsq(np.vstack((dir_mat[n_dirs - 1, :], dir_mat[0, :] / np.linalg.norm(dir_mat[0, :]))),\n'
              '                                             np.hstack((sup_vec[n_dirs - 1], sup_vec[0])), -1)[0]')],
      needs='a first direction that is not of unit length',
      what_it_breaks='the closing vertex is wrong for directions of other lengths than one',
      demo='''
from ellipy.gras.geom.sup.sup import sup_2_boundary_2
d = np.array([[2., 0.], [0., 2.], [-2., 0.], [0., -2.]])
x = sup_2_boundary_2(d, np.array([2., 2., 2., 2.]))
assert np.allclose(x[-1], [1., -1.]), x
'''),
 dict(id='c22_every_face', property='C22', file=SU,
      edits=[('                            dist_vec[i_dist] = t_dist', '                            dist_vec[i_dist] = min(t_dist, 2.)')],
      needs='a difference of support values that exceeds the largest convex set more than twice',
      what_it_breaks='support values far above the largest convex set are reduced at most to one half',
      demo='''
from ellipy.gras.geom.sup.sup import sup_geom_diff_3d
l = np.array([[1., 0, 0], [-1, 0, 0], [0, 1, 0], [0, -1, 0], [0, 0, 1], [0, 0, -1], [1, 1, 1]]).T
r = sup_geom_diff_3d(np.array([2., 2, 2, 2, 2, 2, 10.]), np.array([1., 1, 1, 1, 1, 1, 1.]), l)
assert abs(r[6] - 3.) < 1e-6, r
'''),
 dict(id='c23_gap_face_directions', property='C23', file=T_,
      edits=[('            f2e3_is_dir_new_mat = np.ones(shape=np.shape(f2e3_new_mat), dtype=bool)', '            f2e3_is_dir_new_mat = np.tile(np.array([True, True, False]), (f2e3_new_mat.shape[0], 1))')],
      needs='an edge split on one side only, and the directions asked for or one more step',
      what_it_breaks='the direction of the long edge of a zero-area face is wrong',
      demo='''
from ellipy.gras.geom.tri.tri import shrink_face_tri
v = np.array([[0., 0., 0.], [1., 0., 0.], [0., 1., 0.], [9., 1., 0.]])
v2, f2, st, e, f2e, d = shrink_face_tri(v, np.array([[0, 1, 2], [1, 3, 2]]), 2., 1, is_stat_collected=True)
for f, es, ds in zip(f2, f2e, d):
    for k, (a, b) in enumerate(((0, 1), (1, 2), (0, 2))):
        assert ds[k] == (e[es[k]][0] == f[a] and e[es[k]][1] == f[b]), (f, e[es[k]], ds)
'''),
 dict(id='c23_range_start', property='C23', file=GM,
      edits=[('np.linspace(angle_range_vec[0], angle_range_vec[1], n_points, endpoint=False)', 'np.linspace(min(angle_range_vec[0], angle_range_vec[1]), max(angle_range_vec[0], angle_range_vec[1]), n_points, endpoint=False)')],
      needs='a range given from the larger to the smaller angle',
      what_it_breaks='a decreasing range is traversed upwards, with the wrong end excluded',
      demo='''
from ellipy.gras.geom.geom import circle_part
m = circle_part(4, angle_range_vec=np.array([np.pi, 0.]))
assert np.allclose(m[0], [-1., 0.]), m
'''),
 dict(id='c24_member_of_sorted', property='C24', file=T_,
      edits=[('    pos_edges = np.sort(np.reshape(f_mat[:, ind_2_check], newshape=(-1, 2)))', '    pos_edges = np.reshape(f_mat[:, ind_2_check], newshape=(-1, 2))\n    pos_edges = np.where(pos_edges[:, :1] % 1000 <= pos_edges[:, 1:] % 1000, pos_edges, pos_edges[:, ::-1])')],
      needs='vertex numbers of a thousand and more',
      what_it_breaks='edges between vertices with numbers above a thousand are ordered by their last three digits',
      demo='''
from ellipy.gras.geom.tri.tri import map_face_2_edge
e, f2e, d = map_face_2_edge(np.array([[999, 1000, 1001]]))
assert np.all(e[:, 0] < e[:, 1]), e
'''),
 dict(id='c24_vertex_tolerance', property='C24', file=T_,
      edits=[('            real_tol = np.max(np.max(np.abs(v1_mat - v2_mat)))', '            real_tol = np.max(np.mean(np.abs(v1_mat - v2_mat), 1))')],
      needs='vertices that differ in one coordinate by more than the tolerance but not on average',
      what_it_breaks='vertices are compared by the mean difference of the coordinates',
      demo='''
from ellipy.gras.geom.tri.tri import is_tri_equal
v = np.array([[0., 0., 0.], [1., 0., 0.], [0., 1., 0.]]); w = v + np.array([0., 0., 2e-3])
f = np.array([[0, 1, 2]])
assert not is_tri_equal(v, f, w, f, 1e-3)[0]
'''),
 dict(id='c25_relative_sum', property='C25', file=CM,
      edits=[('                    rel_diff = np.amax(temp_arr)', '                    rel_diff = np.amax(temp_arr) if rel_tol < 1. else np.mean(temp_arr)')],
      needs='a relative tolerance of one or more and several differing elements',
      what_it_breaks='for large relative tolerances the mean instead of the largest relative difference counts',
      demo='''
from ellipy.gen.common.common import abs_rel_compare
r = abs_rel_compare(np.array([1., 1., 1.]), np.array([-0.9, 1.1, 1.1]), 1e-3, 1.5, np.abs)
assert not r[0], r
'''),
 dict(id='c26_nan_string', property='C26', file=D_,
      edits=[("                elif x != y:\n                    return False, 'values are different'", "                elif str(x).strip() != str(y).strip():\n                    return False, 'values are different'")],
      needs='strings that differ in surrounding blanks',
      what_it_breaks='strings that differ in surrounding blanks compare equal',
      demo='''
from ellipy.gen.dict.dict import dict_compare
assert not dict_compare({'a': 'x '}, {'a': 'x'})[0]
'''),
 dict(id='c26_nested_tolerance', property='C26', file=D_,
      edits=[('dict_compare(x, y, comp_abs_tol, comp_rel_tol)', 'dict_compare(x, y, comp_abs_tol)')],
      needs='nested dictionaries that differ within the relative but not within the absolute tolerance',
      what_it_breaks='the relative tolerance is lost in nested dictionaries',
      demo='''
from ellipy.gen.dict.dict import dict_compare
assert dict_compare({'a': {'b': 100.}}, {'a': {'b': 100.1}}, 1e-3, 1e-2)[0]
'''),
 dict(id='c27_false_default', property='C27', file=PP,
      edits=[('            if prop_name in args:\n                prop_val = args[prop_name]', '            if prop_name in args:\n                prop_val = args[prop_name] or pre_prop[prop_name]')],
      needs='a given value that counts as false while the value in force does not',
      what_it_breaks='a given False or 0 is replaced by the value in force',
      demo='''
from ellipy.elltool.conf.properties.Properties import Properties
v, _ = Properties.parse_prop({'is_ode_norm_control': False}, ['is_ode_norm_control'])
assert v == [False], v
'''),
 dict(id='c27_zero_tolerance', property='C27', file=PP,
      edits=[('        lambda x: isinstance(x, float) and x > 0,  # relTol', '        lambda x: isinstance(x, float) and x >= 0,  # relTol')],
      needs='a relative tolerance of zero',
      what_it_breaks='a zero relative tolerance is accepted',
      demo='''
from ellipy.elltool.conf.properties.Properties import Properties
try:
    Properties.parse_prop({'rel_tol': 0.}, ['rel_tol'])
except ValueError:
    sys.exit(0)
sys.exit('accepted')
'''),
 dict(id='c28_complex', property='C28', file=CM,
      edits=[("    _NUMERIC_KINDS = set('buifc')\n    return np.asarray(array).dtype.kind in _NUMERIC_KINDS", "    _NUMERIC_KINDS = set('buif')\n    return np.asarray(array).dtype.kind in _NUMERIC_KINDS or \\\n        np.all(np.isreal(array)) and np.asarray(array).dtype.kind == 'c'")],
      needs='a complex value with an imaginary part',
      what_it_breaks='complex data with non-zero imaginary parts are not called numeric',
      demo='''
from ellipy.gen.common.common import is_numeric
assert is_numeric(np.array([1. + 2j]))
'''),
 dict(id='c28_sorted_places', property='C28', file=CM,
      edits=[('    return bool_ind_vec, common_ind_vec[common_inv_vec]', '    return bool_ind_vec, common_ind_vec[common_inv_vec] if common_vec.size <= 3 else common_ind_vec[np.sort(common_inv_vec)]')],
      needs='four or more common elements not in increasing order',
      what_it_breaks='places of four and more members come in the order of the values',
      demo='''
from ellipy.gen.common.common import is_member
_, i = is_member([4, 3, 2, 1], [1, 2, 3, 4])
assert list(i) == [3, 2, 1, 0], i
'''),
 dict(id='c29_digits', property='C29', file=SY,
      edits=[("    m_mat = np.vectorize(re.sub)(r'\\b' + from_var_name + r'\\b', to_var_name, m_mat)", "    m_mat = np.vectorize(re.sub)(r'(?<![A-Za-z_])' + from_var_name + r'\\b', to_var_name, m_mat)")],
      needs='an identifier that continues a digit before the name',
      what_it_breaks='the name is replaced inside identifiers where it follows a digit',
      demo='''
from ellipy.gras.sym.sym import var_replace
r = var_replace(np.array(['x1t']), 't', 'a')
assert r[0] == 'x1t', r
'''),
 dict(id='c29_dependent_first', property='C29', file=SY,
      edits=[("            r'\\W' + 't' + r'$' + r'|' + r'^' + 't' + r'$', m_mat)", "            r'[^\\w.]' + 't' + r'$' + r'|' + r'^' + 't' + r'$', m_mat)")],
      needs='the variable at the end of the expression after a full stop (2.t is no number but e.g. 3.*a.t)',
      what_it_breaks='an occurrence after a full stop at the end is not seen',
      demo='''
from ellipy.gras.sym.sym import is_dependent
assert is_dependent(np.array(['1.*a.t']))
'''),
 dict(id='c30_fusion_n', property='C30', file=C_,
      edits=[('    k = 1 - a * (1 - a) * (q2 - q1).T @ q2_mat @ y_mat @ q1_mat @ (q2 - q1)', '    k = max(1 - a * (1 - a) * (q2 - q1).T @ q2_mat @ y_mat @ q1_mat @ (q2 - q1), 0.)')],
      needs='centres so far apart that the scale is negative',
      what_it_breaks='a negative scale is cut at zero, so the condition is not the derivative',
      demo='''
from ellipy.elltool.core.core import ell_fusion_lambda
f = np.array(ell_fusion_lambda(0.5, np.array([0., 0.]), np.eye(2), np.array([4., 0.]), np.diag([2., 1.]), 2)).flatten()[0]
a = 0.5; x = np.diag([1.5, 1.]); 
q1, q2, Q1, Q2 = np.zeros(2), np.array([4., 0.]), np.eye(2), np.diag([2., 1.])
y = np.linalg.inv(x); k = 1 - a * (1 - a) * (q2 - q1) @ Q2 @ y @ Q1 @ (q2 - q1); q = y @ (a * Q1 @ q1 + (1 - a) * Q2 @ q2); d = np.linalg.det(x)
e = k * d * np.trace(d * y @ (Q1 - Q2)) - 2 * d ** 2 * (2 * q @ Q1 @ q1 - 2 * q @ Q2 @ q2 + q @ (Q2 - Q1) @ q - q1 @ Q1 @ q1 + q2 @ Q2 @ q2)
assert k < 0 and abs(f - e) < 1e-6, (f, e)
'''),
]
