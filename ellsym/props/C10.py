"""C10 projection onto a subspace"""
from ..harness import harness, product
from .util import Kept, mk_ell, prod, shape_of

MODULES = ['Ellipsoid', 'AEllipsoid', 'ABasicEllipsoid']
BOUNDS = ('dimensions 1-3, all ranks, subspaces of dimension 1 to n spanned by orthogonal vectors of symbolic lengths (columns of '
          'symbolic rotations or of fixed rational bases, in any cyclic order), symbolic centres and eigenvalues; arrays of up to '
          '4 ellipsoids; orthogonality tolerance symbolic')


def basis(env, n, m, ukind, off=0):
    U = env.basis('u', n, ukind)
    k = [env.real('k%d' % j, env.frac(1, 2), 3, 1.5 + j * 0.25) for j in range(m)]
    cols = [(off + j) % n for j in range(m)]
    Un = [[U[i][c] for c in cols] for i in range(n)]
    return Un, [[Un[i][j] * k[j] for j in range(m)] for i in range(n)], k


def judge(env, e, d, Un, label):
    c, Q = d[0], d[1]
    P = env.mm(env.T(Un), env.mm(Q, Un))
    if env.check(label + ': shapes', env.shape(e.get_shape_mat()) == (len(P), len(P)) and env.shape(e.get_center_vec()) == (len(P),)):
        env.eqs(label + ': matrix', e.get_shape_mat(), P)
        env.eqs(label + ': centre', e.get_center_vec(), env.mv(env.T(Un), c))


def keep(env, e, d, label):
    if env.check(label + ': dimension', env.shape(e.get_shape_mat()) == (len(d[0]),) * 2):
        env.eqs(label + ': matrix', e.get_shape_mat(), d[1])
        env.eqs(label + ': centre', e.get_center_vec(), d[0])


def grid(kinds, ukinds, ns=(1, 2, 3)):
    return [dict(n=n, m=m, kind=k, ukind=u, rank=r, off=o, inplace=i)
            for n in ns for m in range(1, n + 1) for k in kinds for u in ukinds for r in (range(0, n + 1)) for o in range(n if m < n else 1)
            for i in (0, 1) if (r == n or (o == 0 and i == 0)) and not (m == 3 and u == 'rot') and (n > 1 or k == u)]


QUICK = [g for g in grid(['id', 'fix'], ['id', 'fix', 'rot']) if not (g['kind'] == 'fix' and g['ukind'] == 'id')] + \
    [g for g in grid(['rot'], ['fix'], ns=(2,)) if g['rank'] == 2]


@harness('C10', QUICK, thorough=grid(['id', 'fix', 'rot'], ['id', 'fix', 'rot', 'perm']))
def one(env, n, m, kind, ukind, rank, off, inplace):
    """matrix and centre are those of the image under the orthogonal projection, in the coordinates of the normalised vectors"""
    e, d = mk_ell(env, 0, n, kind, rank)
    Un, B, k = basis(env, n, m, ukind, off)
    if m == n:
        env.register(env.mm(env.T(Un), d[2]))
    elif m == 2:
        # by Cauchy-Binet the determinant of the projected matrix is a sum of squares: no negative eigenvalue
        P = env.mm(env.T(Un), env.mm(d[1], Un))
        h, g = (P[0][0] - P[1][1]) / 2, (P[0][0] + P[1][1]) / 2
        env.lemma(g - env.sqrt(h * h + P[1][0] * P[1][0]), '>=')
    if n == 3 and rank < n:
        for j in range(m):
            env.psd_form(d[2], d[3], [r[j] for r in Un], False)
    MB = env.arr(B)
    keepb = Kept(env, B=MB)
    r = (env.code.Ellipsoid.projection if inplace else env.code.Ellipsoid.get_projection)([e], MB)
    keepb.check()
    if env.check('array of one', env.shape(r) == (1,)):
        g = env.np.array(r).flat[0]
        judge(env, g, d, Un, 'projection')
        if inplace:
            env.check('in place', g is e)
        else:
            env.check('other object', g is not e)
            keep(env, e, d, 'operand')


SH = [(1,), (2,), (3,), (1, 1), (2, 1), (1, 2), (2, 2), (1, 2, 1)]


@harness('C10', product(n=[2, 3], m=[1, 2], sh=SH, inplace=[0, 1]), thorough=product(n=[1, 2, 3], m=[1, 2, 3], sh=SH + [(2, 1, 2), (4,)], inplace=[0, 1]))
def arrays(env, n, m, sh, inplace):
    """each ellipsoid of an array is projected, tolerances and plotting properties are kept"""
    if m > n:
        return
    sh = tuple(sh)
    es, ds, ts = [], [], []
    for i in range(prod(sh)):
        Q, V, a = env.spd('q%d' % i, n, 'id', [n, n - 1][i % 2])
        c = env.vec('c%d_' % i, n, -2, 2)
        t = env.real('t%d' % i, env.frac(1, 1000000), env.frac(1, 1000), 0.0001)
        ts.append(t)
        es.append(env.code.Ellipsoid(env.arr(c), env.arr(Q), abs_tol=t, rel_tol=t * 2, n_plot_2d_points=10 + i, n_plot_3d_points=20 + i))
        ds.append((c, Q, V, a))
    Un, B, k = basis(env, n, m, 'fix')
    A = shape_of(env, es, sh)
    f = env.code.Ellipsoid.projection if inplace else env.code.Ellipsoid.get_projection
    r = f(A if len(sh) > 1 else list(es), env.arr(B))
    if not env.check('shape', env.shape(r) == sh):
        return
    for i, g in enumerate(env.np.array(r).flatten()):
        judge(env, g, ds[i], Un, 'projection')
        env.eq('abs_tol', env.flat(env.code.Ellipsoid.get_abs_tol([g])[0])[0], ts[i])
        env.eq('rel_tol', env.flat(env.code.Ellipsoid.get_rel_tol([g])[0])[0], ts[i] * 2)
        env.eq('2d points', env.flat(env.code.Ellipsoid.get_n_plot_2d_points([g])[0])[0], 10 + i)
        env.eq('3d points', env.flat(env.code.Ellipsoid.get_n_plot_3d_points([g])[0])[0], 20 + i)
        if inplace:
            env.check('in place', g is es[i])
        else:
            keep(env, es[i], ds[i], 'operand')


@harness('C10', product(n=[2, 3], m=[2, 3], i=[0, 1], j=[1, 2], sg=[1, -1], cfg=[0, 1]))
def oblique(env, n, m, i, j, sg, cfg):
    """vectors that are not orthogonal by more than the tolerance are rejected and the operands stay as they were"""
    if m > n or i >= m or j >= m or i == j:
        return
    t = env.real('t', env.frac(1, 100000), env.frac(1, 10), 0.01)
    es = []
    for k in range(2):
        Q = env.spd('q%d' % k, n, 'id')[0]
        es.append((env.code.Ellipsoid(env.arr(Q), abs_tol=t * (1 + abs(k - cfg)) / 2), ([env.const(0, 1)] * n, Q)))
    Un, B, k = basis(env, n, m, 'fix')
    x = env.real('x', env.frac(1, 1), 4, 1.5)
    # column i gets a part along column j: scalar product sg * x * t
    for r in range(n):
        B[r][i] = B[r][i] + sg * x * t * Un[r][j] / k[j]
    env.assume(x > 1)
    env.must_raise('oblique', env.code.Ellipsoid.projection, [e for e, _ in es], env.arr(B))
    for e, d in es:
        keep(env, e, d, 'operand')


@harness('C10', product(n=[2, 3], m=[2], sg=[1, -1]))
def almost(env, n, m, sg):
    """vectors orthogonal within the tolerance are accepted"""
    t = env.real('t', env.frac(1, 100000), env.frac(1, 10), 0.01)
    Q = env.spd('q', n, 'id')[0]
    e = env.code.Ellipsoid(env.arr(Q), abs_tol=t)
    Un, B, k = basis(env, n, m, 'id')
    x = env.real('x', 0, 1, 0.5)
    env.assume(x < 1)
    B[1][0] = B[1][0] + sg * x * t / k[1]
    r = env.code.Ellipsoid.get_projection([e], env.arr(B))
    env.check('dimension', env.shape(r[0].get_shape_mat()) == (m, m))


@harness('C10', product(n=[1, 2, 3], case=['too many', 'rows fewer', 'rows more', 'mixed', 'text', 'zero', 'type', 'skew']))
def rejected(env, n, case):
    """mis-sized, empty and degenerate bases are rejected and the operands stay as they were"""
    e, d = mk_ell(env, 0, n, 'id')
    f, d2 = mk_ell(env, 1, n, 'id')
    P = env.code.Ellipsoid.projection
    k = env.real('k', env.frac(1, 2), 3, 1.5)
    I = lambda r, c: env.arr([[k if i == j else env.const(0, 1) for j in range(c)] for i in range(r)])
    if case == 'too many':
        env.must_raise(case, P, [e, f], I(n, n + 1))
    elif case == 'rows fewer':
        if n > 1:
            env.must_raise(case, P, [e, f], I(n - 1, 1))
    elif case == 'rows more':
        env.must_raise(case, P, [e, f], I(n + 1, 1))
    elif case == 'mixed':
        g, _ = mk_ell(env, 2, n + 1, 'id')
        env.must_raise(case, P, [e, f, g], I(n, 1))
    elif case == 'text':
        env.must_raise(case, P, [e, f], env.np.array([['a']]))
    elif case == 'zero':
        env.must_raise(case, P, [e, f], env.arr([[env.const(0, 1)]] * n))
    elif case == 'type':
        env.must_raise(case, P, [e, 1], I(n, 1))
    else:
        if n > 1:
            env.must_raise(case, P, [e, f], env.arr([[k, k * 2]] + [[env.const(0, 1), k]] * (n - 1)))
    keep(env, e, d, 'operand')
    keep(env, f, d2, 'operand')


@harness('C10', product(ukind=['fix', 'perm'], inplace=[0, 1]))
def nearly_symmetric(env, ukind, inplace):
    """matrices symmetric up to the tolerance stay valid"""
    t = env.real('t', env.frac(1, 100000), env.frac(1, 10), 0.01)
    v = env.real('a', 1, 3, 2)
    x = [env.real('x%d' % i, -1, 1, 0.9 * (-1) ** i) for i in range(3)]
    for y in x:
        env.assume(env.and_(y < 1, y > -1))
    Q = [[v, x[0] * t, x[1] * t], [env.const(0, 1), v, x[2] * t], [env.const(0, 1), env.const(0, 1), v]]
    c = env.vec('c', 3, -2, 2)
    e = env.code.Ellipsoid(env.arr(c), env.arr(Q), abs_tol=t)
    Un, B, k = basis(env, 3, 2, ukind)
    r = (env.code.Ellipsoid.projection if inplace else env.code.Ellipsoid.get_projection)([e], env.arr(B))
    P = env.mm(env.T(Un), env.mm(Q, Un))
    G = env.rows(r[0].get_shape_mat())
    for i in range(2):
        for j in range(2):
            env.eq('matrix', G[i][j] + G[j][i], P[i][j] + P[j][i])
    env.eqs('centre', r[0].get_center_vec(), env.mv(env.T(Un), c))
