"""C08 external approximations of the geometric sum"""
from ..harness import harness, product
from .util import Kept, direction, mk_ell, prod, shape_of

MODULES = ['Ellipsoid', 'AEllipsoid', 'ell']
BOUNDS = ('sums of 1-3 ellipsoids of dimensions 1-3 (eigenvalues and centres symbolic; rotations free in dimension 2, from a fixed '
          'rational basis or about one axis in dimension 3), up to 3 directions, flat or as columns; degenerate terms regularised '
          'by the tolerance')


def support(env, d, l):
    """width of the ellipsoid along l (without the centre)"""
    return env.sqrt(env.psd_form(d[2], d[3], l, True))


def diag(env, v):
    return [[x if i == j else env.const(0, 1) for j in range(len(v))] for i, x in enumerate(v)]


def lemmas(env, ds, l):
    """facts about the tight external ellipsoid used to answer definiteness queries: its matrix is non-negative"""
    n = len(l)
    s = [support(env, d, l) for d in ds]
    k = sum(s[1:], s[0])
    M = [[k * sum((d[1][i][j] / x for d, x in zip(ds[1:], s[1:])), ds[0][1][i][j] / s[0]) for j in range(n)] for i in range(n)]
    blocks = []
    if n == 2:
        blocks = [(M[0][0], M[1][1], M[1][0])]
    elif n == 3:
        V = env.basis('base', 3, 'fix')
        for U in ([], V) if env.is_real(M[0][0]) else ([],):
            N = M if not U else env.mm(env.T(U), env.mm(M, U))
            blocks += [(N[i][i], N[j][j], N[j][i]) for i in range(3) for j in range(i)]
    for p, q, b in blocks:
        h, g = (p - q) / 2, (p + q) / 2
        env.lemma(h * h + b * b, '>=')
        env.lemma(g - env.sqrt(h * h + b * b), '>=')
    return M


def judge(env, e, ds, l, exact=True):
    n = len(l)
    c, M = e.get_center_vec(), e.get_shape_mat()
    if not env.check('shapes', env.shape(c) == (n,) and env.shape(M) == (n, n)):
        return
    M = env.rows(M)
    tot = ds[0][0]
    for d in ds[1:]:
        tot = env.add(tot, d[0])
    env.eqs('centre', c, tot)
    s = [support(env, d, l) for d in ds]
    k = sum(s[1:], s[0])
    env.eq('tight', env.quad(M, l), k * k)
    # any other direction
    m = env.vec('m', n, -2, 2)
    env.assume(env.dot(m, m) >= env.frac(1, 4))
    r = [support(env, d, m) for d in ds]
    t = sum(r[1:], r[0])
    g = 0
    for i in range(len(ds)):
        for j in range(i):
            # (s_i r_j - s_j r_i)^2 / (s_i s_j)
            g = g + s[j] / s[i] * r[i] * r[i] + s[i] / s[j] * r[j] * r[j] - 2 * r[i] * r[j]
    if len(ds) > 1:
        env.lemma(g, '>=')
    env.le('contains', t * t, env.quad(M, m))


def terms(env, n, kinds, centre=True):
    out = [mk_ell(env, i, n, k, centre=centre) for i, k in enumerate(kinds)]
    return [x for x, _ in out], [d for _, d in out]


PAIRS = ([(1, k) for k in (['id', 'id'], ['id', 'id', 'id'])] +
         [(2, k) for k in (['id', 'id'], ['id', 'fix'], ['rot', 'fix'], ['rot', 'rot'], ['id', 'rot', 'fix'])] +
         [(3, k) for k in (['id', 'id'],)])
QUICK = [dict(n=n, kinds=k, dk='free') for n, k in PAIRS] + [dict(n=n, kinds=k, dk=1) for n, k in PAIRS + [(3, ['fix', 'fix'])] if n > 1]
DEEP = [dict(n=3, kinds=k, dk=d) for k in (['fix', 'fix'], ['rot', 'fix'], ['id', 'id', 'id']) for d in ('free', 0)]


@harness('C08', QUICK, thorough=QUICK + DEEP)
def one(env, n, kinds, dk):
    es, ds = terms(env, n, kinds)
    l = direction(env, 'l', n, dk)
    lemmas(env, ds, l)
    flat = dk != 'free'
    L = env.arr(l) if flat else env.arr([[x] for x in l])
    keep = Kept(env, dirs=L)
    r, x = env.attempt(env.code.Ellipsoid.minksum_ea, es, L)
    keep.check()
    if env.check('returns', x is None) and env.check('one result', env.shape(r) == (1,)):
        judge(env, env.np.array(r).flatten()[0], ds, l)
        for e, d in zip(es, ds):
            env.eqs('operand: matrix', e.get_shape_mat(), d[1])
            env.eqs('operand: centre', e.get_center_vec(), d[0])


@harness('C08', product(n=[2], kinds=[['id', 'id'], ['id', 'fix']], ks=[2, 3]) + [dict(n=3, kinds=['id', 'id'], ks=2), dict(n=1, kinds=['id', 'id', 'id'], ks=2)])
def several(env, n, kinds, ks):
    """one approximation for each direction, in their order, whatever the container of the ellipsoids"""
    es, ds = terms(env, n, kinds)
    ls = [direction(env, 'l%d' % i, n, i) for i in range(ks)]
    for l in ls:
        lemmas(env, ds, l)
    L = env.arr(env.T(ls))
    r, x = env.attempt(env.code.Ellipsoid.minksum_ea, shape_of(env, es, (1, len(es)) if ks == 2 else (len(es), 1)), L)
    if env.check('returns', x is None) and env.check('one for each direction', env.shape(r) == (ks,)):
        for e, l in zip(env.np.array(r).flatten(), ls):
            judge(env, e, ds, l)


@harness('C08', product(n=[1, 2, 3], ks=[2, 3]))
def single(env, n, ks):
    """the sum of one ellipsoid is the ellipsoid"""
    e, d = mk_ell(env, 0, n, 'rot' if n > 1 else 'id')
    ls = [direction(env, 'l%d' % i, n, i) for i in range(ks)]
    r, x = env.attempt(env.code.Ellipsoid.minksum_ea, [e], env.arr(env.T(ls)))
    if env.check('returns', x is None) and env.check('one for each direction', env.shape(r) == (ks,)):
        for p in env.np.array(r).flatten():
            env.check('independent object', p is not e)
            env.eqs('matrix', p.get_shape_mat(), d[1])
            env.eqs('centre', p.get_center_vec(), d[0])


@harness('C08', [dict(n=n, ranks=r) for n, rs in ((1, [[0, 1], [1, 0], [0, 0]]), (2, [[1, 2], [2, 1], [1, 1], [0, 2], [0, 0]]), (3, [[2, 3], [3, 1]])) for r in rs])
def degenerate(env, n, ranks):
    """degenerate terms are regularised by their own tolerance: the sum of the regularised ellipsoids is approximated"""
    es, ds = [], []
    for i, rk in enumerate(ranks):
        tol = env.real('tol%d' % i, env.frac(1, 1000), env.frac(1, 100), 0.0078125)
        a = env.roots('a%d_' % i, n, rk)
        v = [x * x for x in a]
        # a null eigenvalue becomes the tolerance
        w = [tol] * (n - rk) + v[n - rk:]
        if i % 2 and n == 2:
            v, w = v[::-1], w[::-1]
        c = env.vec('c%d_' % i, n, -2, 2)
        es.append(env.code.Ellipsoid(env.arr(c), env.arr(diag(env, v)), abs_tol=tol))
        for x in w:
            env.lemma(x, '>')
        ds.append((c, diag(env, w), env.eye(n), [env.sqrt(x) for x in w]))
    l = direction(env, 'l', n, 0)
    M = lemmas(env, ds, l)
    if n == 3:
        for j in range(2):
            env.lemma(M[j + 1][j + 1] - M[j][j], '>=')
    r, x = env.attempt(env.code.Ellipsoid.minksum_ea, es, env.arr(l))
    if env.check('returns', x is None) and env.check('one result', env.shape(r) == (1,)):
        judge(env, env.np.array(r).flatten()[0], ds, l)


@harness('C08', product(case=['dims', 'direction', 'empty', 'none', 'type', 'single direction']))
def rejected(env, case):
    f = env.code.Ellipsoid.minksum_ea
    e, d = mk_ell(env, 0, 2, 'rot')
    g, d2 = mk_ell(env, 1, 1, 'id')
    h, d3 = mk_ell(env, 2, 2, 'id')
    l2, l1, l3 = (env.arr([[x] for x in direction(env, 'l%d' % n, n, 0)]) for n in (2, 1, 3))
    if case == 'dims':
        env.must_raise(case, f, [e, g], l2, _tag='wrongSizes')
        env.must_raise(case, f, [e, g], l1, _tag='wrongSizes')
    elif case == 'direction':
        env.must_raise(case, f, [e, h], l1, _tag='wrongSizes')
        env.must_raise(case, f, [e, h], l3, _tag='wrongSizes')
    elif case == 'single direction':
        env.must_raise(case, f, [e], l3, _tag='wrongSizes')
    elif case == 'empty':
        env.must_raise(case, f, [e, env.code.Ellipsoid()], l2)
        env.must_raise(case, f, [env.code.Ellipsoid(), h], l2)
    elif case == 'none':
        env.must_raise(case, f, [], l2)
    else:
        env.must_raise(case, f, [e, 1.], l2)
