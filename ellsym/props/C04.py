"""C04 support function and boundary points"""
from ..harness import harness, product
from .util import Kept, direction, mk_ell, prod, shape_of

MODULES = ['Ellipsoid', 'ell', 'gen', 'ABasicEllipsoid']
BOUNDS = ('dimensions 1-3, ranks 0-n, symbolic centres, eigenvalues, rotations (a free rotation in dimension 2, one free '
          'plane angle or a fixed rational basis in dimension 3) and directions; arrays of up to 4 ellipsoids in shapes (k,), '
          '(k,1), (1,k), (2,2), (2,1,2) and up to 4 directions')


def width(env, l, V, a):
    """l'Ql as a sum of squares, and the terms"""
    W = env.T(V)
    p = [a[k] * env.dot(W[k], l) for k in range(len(l))]
    return env.dot(p, p), p


def judge(env, d, l, r, b, rank=None):
    """r is the support value and b a maximiser of direction l over the ellipsoid d"""
    c, Q, V, a = d
    n = len(c)
    s = r - env.dot(c, l)
    w, p = width(env, l, V, a)
    env.eq('squared width', s * s, w)
    env.le('non-negative width', 0, s)
    env.eq('boundary point attains the support value', env.dot(b, l), r)
    # membership: b - c = V y, y_k = a_k u_k with |u| <= 1
    W = env.T(V)
    y = env.mv(W, env.sub(b, c))
    zero = list(range(0 if rank is None else n - rank))
    for k in zero:
        env.eq('boundary point in the affine hull', y[k], 0)
    full = [k for k in range(n) if k not in zero]
    # sum (y_k / a_k)^2 <= 1, multiplied by w: y_k s = a_k p_k gives sum p_k^2 = w
    if rank is None:
        for k in full:
            env.eq('boundary point', s * y[k], a[k] * p[k])
    else:
        q = 0
        for k in full:
            m = 1
            for j in full:
                if j != k:
                    m = m * a[j] * a[j]
            q = q + m * y[k] * y[k]
        m = 1
        for j in full:
            m = m * a[j] * a[j]
        if full:
            env.le('boundary point in the ellipsoid', q, m)


@harness('C04', product(n=[1, 2, 3], kind=['id', 'fix', 'rot'], dsh=[(1,), (2,), (3,), (1, 1), (2, 2), (1, 2)]) +
         product(n=[2], kind=['rot'], dsh=[(2, 1, 2)]),
         thorough=product(n=[1, 2, 3], kind=['id', 'fix', 'rot', 'perm'], dsh=[(1,), (2,), (3,), (4,), (1, 1), (2, 2), (1, 2), (2, 1, 2), (3, 2)]))
def one_ellipsoid(env, n, kind, dsh):
    """one non-degenerate ellipsoid, any arrangement of directions"""
    dsh = tuple(dsh)
    ell, d = mk_ell(env, 0, n, kind)
    m = prod(dsh)
    L = [direction(env, 'l%d_' % j, n, 'free' if j < 2 else j) for j in range(m)]
    for l in L:
        env.psd_form(d[2], d[3], l, True)
    form = env.choice('form', ['list', 'arr1', 'arr2', 'arr0'] if kind == 'fix' else ['list'])
    arg = {'list': lambda: [ell], 'arr1': lambda: shape_of(env, [ell], (1,)), 'arr2': lambda: shape_of(env, [ell], (1, 1)),
           'arr0': lambda: [[ell]]}[form]()
    dirs = env.lay(env.arr(env.T(L)).reshape((n,) + dsh))
    keep = Kept(env, dirs=dirs)
    rho, bp = env.code.Ellipsoid.rho(arg, dirs)
    keep.check()
    env.observe('rho', rho)
    env.observe('bp', bp)
    r = env.flat(rho)
    env.check('one value for each direction', len(r) == m)
    env.check('boundary points arranged as the directions', env.shape(bp) == (n,) + dsh)
    if len(dsh) > 1:
        env.check('values arranged as the directions', env.shape(rho) == dsh)
    if len(r) == m and len(env.flat(bp)) == n * m:
        f = env.flat(bp)
        for j in range(m):
            judge(env, d, L[j], r[j], [f[i * m + j] for i in range(n)])


@harness('C04', product(n=[1, 2], rank=[0, 1], kind=['id', 'rot'], m=[1, 2]) + product(n=[3], rank=[1, 2], kind=['id', 'fix'], m=[1]) +
         product(n=[3], rank=[0], kind=['id'], m=[1, 2]) + product(n=[3], rank=[2], kind=['id', 'fix'], m=[2]),
         thorough=product(n=[1, 2, 3], rank=[0, 1, 2], kind=['id', 'fix', 'rot'], m=[1, 2, 3]))
def degenerate(env, n, rank, kind, m):
    """degenerate ellipsoids, directions of zero width included"""
    if rank > n:
        return
    ell, d = mk_ell(env, 0, n, kind, rank)
    L = [direction(env, 'l%d_' % j, n) for j in range(m)]
    if env.choice('orthogonal', [0, 1]) and rank < n:
        k = env.real('k', env.frac(1, 2), 2, 1.25)
        L[0] = [k * d[2][i][0] for i in range(n)]
    for l in L:
        env.psd_form(d[2], d[3], l, False)
    rho, bp = env.code.Ellipsoid.rho([ell], env.arr(env.T(L)))
    r = env.flat(rho)
    env.check('one value for each direction', len(r) == m)
    env.check('boundary points arranged as the directions', env.shape(bp) == (n, m))
    if len(r) == m and len(env.flat(bp)) == n * m:
        B = env.T(env.rows(bp))
        for j in range(m):
            judge(env, d, L[j], r[j], B[j], rank)


@harness('C04', product(n=[1, 2], kind=['id', 'rot']) + product(n=[3], kind=['id', 'fix', 'rot']),
         thorough=product(n=[1, 2, 3], kind=['id', 'fix', 'rot', 'perm']))
def maximality(env, n, kind):
    """no point of the ellipsoid exceeds the support value"""
    ell, (c, Q, V, a) = mk_ell(env, 0, n, kind)
    l = direction(env, 'l', n)
    env.psd_form(V, a, l, True)
    u = env.vec('u', n, -1, 1)
    env.assume(env.dot(u, u) <= 1)
    rho, bp = env.code.Ellipsoid.rho([ell], env.arr(l).reshape(n, 1))
    r = env.flat(rho)[0]
    x = env.add(c, env.mv(V, [a[k] * u[k] for k in range(n)]))
    p = [a[k] * env.dot([V[i][k] for i in range(n)], l) for k in range(n)]
    # Lagrange identity: |p|^2 |u|^2 - (p.u)^2 is a sum of squares
    g = 0
    for i in range(n):
        for j in range(i):
            t = p[i] * u[j] - p[j] * u[i]
            g = g + t * t
    env.lemma(g, '>=')
    s = r - env.dot(c, l)
    pu = env.dot(p, u)
    env.eq('width of the point', env.dot(x, l) - env.dot(c, l), pu)
    env.eq('square', s * s * env.dot(u, u), g + pu * pu)
    env.le('non-negative width', 0, s)


def many(env, n, k, kinds, centre=True):
    return [mk_ell(env, i, n, kinds[i % len(kinds)], centre=centre) for i in range(k)]


@harness('C04', product(n=[2], sh=[(2,), (3,), (2, 1), (1, 2), (2, 2), (2, 1, 2), (1, 2, 2)]) + product(n=[1, 3], sh=[(2,), (2, 2)]),
         thorough=product(n=[1, 2, 3], sh=[(2,), (3,), (2, 1), (1, 3), (2, 2), (3, 2), (2, 1, 2), (1, 2, 2)]))
def one_direction(env, n, sh):
    """many ellipsoids, one direction"""
    sh = tuple(sh)
    k = prod(sh)
    ed = many(env, n, k, ['rot', 'id', 'fix', 'id'])
    l = direction(env, 'l', n)
    for e, d in ed:
        env.psd_form(d[2], d[3], l, True)
    arg = shape_of(env, [e for e, d in ed], sh)
    if len(sh) == 1 and env.choice('form', ['array', 'list']) == 'list':
        arg = [e for e, d in ed]
    rho, bp = env.code.Ellipsoid.rho(arg, env.arr(l).reshape(n, 1))
    env.check('values arranged as the ellipsoids', env.shape(rho) == sh)
    env.check('one boundary point for each ellipsoid', len(env.flat(bp)) == n * k and env.shape(bp)[0] == n)
    r, f = env.flat(rho), env.flat(bp)
    if len(r) == k and len(f) == n * k:
        for j in range(k):
            judge(env, ed[j][1], l, r[j], [f[i * k + j] for i in range(n)])


@harness('C04', product(n=[2], sh=[(2,), (3,), (2, 1), (1, 2), (3, 1)], flat=[True]) + product(n=[2], sh=[(2, 2), (1, 2), (2, 1, 2)], flat=[False]) +
         product(n=[1, 3], sh=[(2,), (1, 2)], flat=[True]) + product(n=[3], sh=[(2, 1)], flat=[False]),
         thorough=product(n=[1, 2, 3], sh=[(2,), (3,), (2, 1), (1, 2), (3, 1), (1, 3)], flat=[True]) +
         product(n=[1, 2, 3], sh=[(2, 2), (1, 2), (2, 1), (3, 2), (2, 1, 2)], flat=[False]))
def pairwise(env, n, sh, flat):
    """as many ellipsoids as directions"""
    sh = tuple(sh)
    k = prod(sh)
    ed = many(env, n, k, ['rot', 'id', 'fix', 'id'])
    L = [direction(env, 'l%d_' % j, n, 'free' if j < 2 else j) for j in range(k)]
    for (e, d), l in zip(ed, L):
        env.psd_form(d[2], d[3], l, True)
    arg = shape_of(env, [e for e, d in ed], sh)
    dirs = env.lay(env.arr(env.T(L)).reshape((n, k) if flat else (n,) + sh))
    rho, bp = env.code.Ellipsoid.rho(arg, dirs)
    env.check('one value for each pair', len(env.flat(rho)) == k)
    env.check('boundary points arranged as the directions', env.shape(bp) == env.shape(dirs))
    r, f = env.flat(rho), env.flat(bp)
    if len(r) == k and len(f) == n * k:
        for j in range(k):
            judge(env, ed[j][1], L[j], r[j], [f[i * k + j] for i in range(n)])


@harness('C04', [dict(case=c) for c in ('sizes', 'sizes2', 'dims', 'mixed', 'type', 'cells')])
def rejected(env, case):
    """combinations that are not admissible"""
    E = env.code.Ellipsoid
    if case == 'sizes':
        e = [x[0] for x in many(env, 2, 2, ['id'])]
        env.must_raise(case, E.rho, e, env.arr(env.mat('l', 2, 3, -2, 2)))
    elif case == 'sizes2':
        e = [x[0] for x in many(env, 2, 4, ['id'])]
        env.must_raise(case, E.rho, shape_of(env, e, (2, 2)), env.arr(env.mat('l', 2, 4, -2, 2)))
    elif case == 'dims':
        e = [x[0] for x in many(env, 2, 1, ['id'])]
        env.must_raise(case, E.rho, e, env.arr(env.mat('l', 3, 2, -2, 2)))
    elif case == 'mixed':
        e = [mk_ell(env, 0, 2, 'id')[0], mk_ell(env, 1, 3, 'id')[0]]
        env.must_raise(case, E.rho, e, env.arr(env.mat('l', 2, 2, -2, 2)))
    elif case == 'type':
        e = [x[0] for x in many(env, 2, 1, ['id'])]
        env.must_raise(case, E.rho, e, env.np.array([['a'], ['b']]))
    else:
        env.must_raise(case, E.rho, [1, 2], env.arr(env.mat('l', 2, 1, -2, 2)))
