"""C09 internal approximations of the geometric sum"""
from ..harness import harness, product
from .util import Kept, direction, mk_ell, shape_of

MODULES = ['Ellipsoid', 'AEllipsoid', 'ell', 'la']
BOUNDS = ('sums of 1-3 ellipsoids of dimensions 1-3 (eigenvalues and centres symbolic; rotations free or from a fixed rational basis '
          'in dimension 2, axis-parallel or from a fixed basis in dimension 3), up to 3 directions, flat or as columns, images of the '
          'direction under the square roots at an angle of sine above 1/1000 or exactly parallel; degenerate terms regularised by the '
          'tolerance')


def sqrt_mat(env, d):
    V, a = d[2], d[3]
    n = len(a)
    return [[sum((V[i][k] * V[j][k] * a[k] for k in range(n)), env.const(0, 1)) for j in range(n)] for i in range(n)]


def support(env, d, l):
    return env.sqrt(env.psd_form(d[2], d[3], l, True))


def rotation(env, x, y, par):
    """rotation in the plane of x and y that takes the direction of x to the direction of y"""
    n = len(x)
    if par:
        return env.eye(n)
    xn, yn = env.sqrt(env.dot(x, x)), env.sqrt(env.dot(y, y))
    w, u = [t / xn for t in x], [t / yn for t in y]
    c = env.dot(w, u)
    if n == 1:
        return [[c]]
    # the images are not nearly parallel
    env.assume(1 - c * c >= env.frac(1, 1000000))
    s = env.sqrt(1 - c * c)
    env.lemma(s, '>')
    env.lemma(s - env.frac(1, 10000000), '>')
    p = [(w[i] - c * u[i]) / s for i in range(n)]
    O = [[(1 if i == j else 0) + (c - 1) * (u[i] * u[j] + p[i] * p[j]) + s * (u[i] * p[j] - p[i] * u[j]) for j in range(n)] for i in range(n)]
    return O


def reference(env, ds, l, par=False):
    """a sum of rotated square roots; facts about its square used to answer definiteness queries"""
    n = len(l)
    S = [sqrt_mat(env, d) for d in ds]
    y = env.mv(S[0], l)
    N = S[0]
    for s in S[1:]:
        R = env.mm(rotation(env, env.mv(s, l), y, par), s)
        N = [[N[i][j] + R[i][j] for j in range(n)] for i in range(n)]
    M = env.mm(env.T(N), N)
    if n > 1:
        for i in range(n):
            for j in range(i):
                if n > 2 and not env.is_real(M[i][j]) and M[i][j] == 0:
                    continue
                h, g = (M[i][i] - M[j][j]) / 2, (M[i][i] + M[j][j]) / 2
                env.lemma(h * h + M[i][j] * M[i][j], '>=')
                if True:
                    env.lemma(g - env.sqrt(h * h + M[i][j] * M[i][j]), '>=')
    return M


def judge(env, e, ds, l, M0):
    n = len(l)
    c, M = e.get_center_vec(), e.get_shape_mat()
    if not env.check('shapes', env.shape(c) == (n,) and env.shape(M) == (n, n)):
        return
    M = env.rows(M)
    tot = ds[0][0]
    for d in ds[1:]:
        tot = env.add(tot, d[0])
    env.eqs('centre', c, tot)
    s = [support(env, d, l) for d in ds]
    k = sum(s[1:], s[0])
    env.eq('tight', env.quad(M, l), k * k)
    # any other direction: |sum O_i S_i m| <= sum |S_i m|
    m = env.vec('m', n, -2, 2)
    env.assume(env.dot(m, m) >= env.frac(1, 4))
    r = [support(env, d, m) for d in ds]
    t = sum(r[1:], r[0])
    env.lemma(t * t - env.quad(M0, m), '>=')
    env.le('contained', env.quad(M, m), t * t)


def fixed_ell(env, i, n, which):
    """axis-parallel ellipsoid with given semi-axes"""
    a = [env.const(*x) for x in {'c0': [(2, 1), (1, 1), (3, 2)], 'c1': [(1, 1), (1, 1), (1, 1)], 'c2': [(1, 2), (3, 1), (1, 1)]}[which][:n]]
    Q = [[a[j] * a[j] if j == k else env.const(0, 1) for k in range(n)] for j in range(n)]
    c = env.vec('c%d_' % i, n, -2, 2)
    return env.code.Ellipsoid(env.arr(c), env.arr(Q)), (c, Q, env.eye(n), a)


def terms(env, n, kinds, centre=True):
    out = [fixed_ell(env, i, n, k) if k[0] == 'c' else mk_ell(env, i, n, k, centre=centre) for i, k in enumerate(kinds)]
    return [x for x, _ in out], [d for _, d in out]


PAIRS = ([(3, ['c1', 'c0'], 2)] + [(1, k, 'free') for k in (['id', 'id'], ['id', 'id', 'id'])] +
         [(2, k, d) for k in (['id', 'id'], ['id', 'fix'], ['fix', 'id']) for d in (0, 3)] +
         [(2, ['fix', 'fix'], 3), (2, ['fix', 'fix'], 0), (2, ['id', 'rot'], 1), (2, ['c0', 'c1', 'id'], 1), (3, ['id', 'id'], 1)])
N3 = [dict(n=3, kinds=k, dk=2) for k in (['c0', 'id'], ['id', 'id'])]
QUICK = [dict(n=n, kinds=k, dk=d) for n, k, d in PAIRS] + [dict(n=2, kinds=k, dk=d) for d in ('ray', 'ray2', 'free') for k in (['c0', 'id'], ['id', 'c0'], ['c0', 'c2'])]


def line(env, n, dk):
    if dk in ('ray', 'ray2'):
        l = [env.const(1, 1), env.real('t', env.frac(1, 4), 2, 0.75)]
        return l if dk == 'ray' else l[::-1]
    return direction(env, 'l', n, dk)


def is_axis(n, kinds, dk):
    """the direction is a common eigenvector, so that its images are parallel"""
    return n > 1 and ((kinds[0], kinds[1], dk) in (('id', 'id', 3), ('fix', 'fix', 0)) or n == 3 and dk in (1, 3))


@harness('C09', QUICK, thorough=QUICK + N3 + [dict(n=2, kinds=['id', 'id'], dk='ray'), dict(n=2, kinds=['c0', 'c1', 'id'], dk=0)])
def one(env, n, kinds, dk):
    es, ds = terms(env, n, kinds, not str(dk).startswith('ray'))
    l = line(env, n, dk)
    M0 = reference(env, ds, l, is_axis(n, kinds, dk))
    L = env.arr(l) if dk != 'free' else env.arr([[x] for x in l])
    keep = Kept(env, dirs=L)
    r, x = env.attempt(env.code.Ellipsoid.minksum_ia, es, L)
    keep.check()
    if env.check('returns', x is None) and env.check('one result', env.shape(r) == (1,)):
        judge(env, env.np.array(r).flatten()[0], ds, l, M0)
        for e, d in zip(es, ds):
            env.eqs('operand: matrix', e.get_shape_mat(), d[1])
            env.eqs('operand: centre', e.get_center_vec(), d[0])


@harness('C09', product(n=[2], kinds=[['c0', 'id'], ['id', 'fix']], ks=[2, 3]) + [dict(n=3, kinds=['c1', 'c0'], ks=2), dict(n=1, kinds=['id', 'id', 'id'], ks=2)])
def several(env, n, kinds, ks):
    """one approximation for each direction, in their order, whatever the container of the ellipsoids"""
    es, ds = terms(env, n, kinds)
    ls = [direction(env, 'l%d' % i, n, (i if n < 3 else 2 - i)) for i in range(ks)]
    refs = [reference(env, ds, l, n > 1 and (kinds[0][0] == 'c' or n == 3) and (i if n < 3 else 2 - i) in (1, 3)) for i, l in enumerate(ls)]
    L = env.arr(env.T(ls))
    r, x = env.attempt(env.code.Ellipsoid.minksum_ia, shape_of(env, es, (1, len(es)) if ks == 2 else (len(es), 1)), L)
    if env.check('returns', x is None) and env.check('one for each direction', env.shape(r) == (ks,)):
        for e, l, M0 in zip(env.np.array(r).flatten(), ls, refs):
            judge(env, e, ds, l, M0)


@harness('C09', product(n=[1, 2, 3], ks=[2, 3]))
def single(env, n, ks):
    """the sum of one ellipsoid is the ellipsoid"""
    e, d = mk_ell(env, 0, n, 'rot' if n > 1 else 'id')
    ls = [direction(env, 'l%d' % i, n, i) for i in range(ks)]
    r, x = env.attempt(env.code.Ellipsoid.minksum_ia, [e], env.arr(env.T(ls)))
    if env.check('returns', x is None) and env.check('one for each direction', env.shape(r) == (ks,)):
        for p in env.np.array(r).flatten():
            env.check('independent object', p is not e)
            env.eqs('matrix', p.get_shape_mat(), d[1])
            env.eqs('centre', p.get_center_vec(), d[0])


@harness('C09', [dict(n=n, ranks=r, dk=k) for n, rs in ((1, [[0, 1], [1, 0], [0, 0]]), (2, [[1, 2], [2, 1], [1, 1], [0, 2]])) for r in rs
                 for k in ([0] if n == 1 else [0, 1, 3])])
def degenerate(env, n, ranks, dk):
    """degenerate terms are regularised by their own tolerance: the sum of the regularised ellipsoids is approximated"""
    es, ds = [], []
    for i, rk in enumerate(ranks):
        tol = env.const(1, 100 + 44 * i)
        a = env.roots('a%d_' % i, n, rk)
        if n == 2 and rk == 2:
            a = [env.const(3, 2), a[1]] if dk == 0 else a
        v = [x * x for x in a]
        # a null eigenvalue becomes the tolerance
        w = [tol] * (n - rk) + v[n - rk:]
        c = env.vec('c%d_' % i, n, -2, 2)
        es.append(env.code.Ellipsoid(env.arr(c), env.arr(diag(env, v)), abs_tol=tol))
        ds.append((c, diag(env, w), env.eye(n), [env.sqrt(x) for x in w]))
    l = direction(env, 'l', n, dk)
    M0 = reference(env, ds, l, n > 1 and dk in (1, 3))
    r, x = env.attempt(env.code.Ellipsoid.minksum_ia, es, env.arr(l))
    if env.check('returns', x is None) and env.check('one result', env.shape(r) == (1,)):
        judge(env, env.np.array(r).flatten()[0], ds, l, M0)


def diag(env, v):
    return [[x if i == j else env.const(0, 1) for j in range(len(v))] for i, x in enumerate(v)]


@harness('C09', product(case=['dims', 'direction', 'empty', 'none', 'type', 'single direction']))
def rejected(env, case):
    f = env.code.Ellipsoid.minksum_ia
    e, d = mk_ell(env, 0, 2, 'rot')
    g, d2 = mk_ell(env, 1, 1, 'id')
    h, d3 = mk_ell(env, 2, 2, 'id')
    l2, l1, l3 = (env.arr([[x] for x in direction(env, 'l%d' % n, n, 0)]) for n in (2, 1, 3))
    if case == 'dims':
        env.must_raise(case, f, [e, g], l2, _tag='wrongSizes')
        env.must_raise(case, f, [e, g], l1, _tag='wrongSizes')
    elif case == 'direction':
        env.must_raise(case, f, [e, h], l1, _tag='wrongSizes')
        env.must_raise(case, f, [e, h], l3, _tag='wrongSizes')
    elif case == 'single direction':
        env.must_raise(case, f, [e], l3, _tag='wrongSizes')
    elif case == 'empty':
        env.must_raise(case, f, [e, env.code.Ellipsoid()], l2)
        env.must_raise(case, f, [env.code.Ellipsoid(), h], l2)
    elif case == 'none':
        env.must_raise(case, f, [], l2)
    else:
        env.must_raise(case, f, [e, 1.], l2)
