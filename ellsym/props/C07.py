"""C07 polars"""
from ..harness import harness, product
from .util import direction, mk_ell, prod, shape_of

MODULES = ['Ellipsoid', 'AEllipsoid', 'ell']
BOUNDS = ('dimensions 1-3, symbolic eigenvalues, centres and rotations (dimension 3: rotations about an axis or fixed rational bases); '
          'both methods; arrays of up to 4 ellipsoids in up to three axes; origin at distance of at least 1/1000 (in the ellipsoid '
          'norm, squared) from the boundary')


def inside(env, n, kind, name='0', off=None, least=None, a=None):
    """ellipsoid with the origin inside: centre = V diag(a) w with |w| < 1, along the given axes"""
    if a is None:
        Q, V, a = env.spd('q' + name, n, kind)
    else:
        V = env.eye(n)
        Q = [[a[i] * a[i] if i == j else env.const(0, 1) for j in range(n)] for i in range(n)]
    if off is None:
        off = list(range(n)) if n < 3 else [0, 1]
    w = [env.real('w%s_%d' % (name, i), -1, 1) if i in off else env.const(0, 1) for i in range(n)]
    k = env.dot(w, w)
    c = env.mv(V, [a[i] * w[i] for i in range(n)])
    if least is not None:
        env.assume(k <= 1 - least)
        if len(off) == 2:
            # the polar matrix diag(1/a^2)/(1-k) + pp', p = -(w/a)/(1-k), has no negative eigenvalue
            s = 1 - k
            p = [w[i] / (a[i] * s) for i in range(n)]
            P = [[p[i] * p[j] + (1 / (a[i] * a[i] * s) if i == j else 0) for j in range(n)] for i in range(n)]
            if n == 2:
                P = env.mm(V, env.mm(P, env.T(V)))
                i, j = 0, 1
            else:
                i, j = off
            h, g = (P[i][i] - P[j][j]) / 2, (P[i][i] + P[j][j]) / 2
            env.lemma(g - env.sqrt(h * h + P[j][i] * P[j][i]), '>=')
    return Q, V, a, c, k


def band(env):
    return env.frac(1, 1000)


def judge(env, p, d, label=''):
    """the polar set is {l : l'(Q - cc')l + 2c'l <= 1}: compare the quadratic forms up to a positive factor"""
    Q, V, a, c, k = d
    n = len(c)
    P, q = p.get_shape_mat(), p.get_center_vec()
    if not env.check(label + 'shapes', env.shape(P) == (n, n) and env.shape(q) == (n,)):
        return
    P, q = env.rows(P), env.flat(q)
    # M q = -c and M P = (1 - c'q) I  with M = Q - cc'
    M = [[Q[i][j] - c[i] * c[j] for j in range(n)] for i in range(n)]
    env.eqs(label + 'centre', env.mv(M, q), [-x for x in c])
    s = 1 - env.dot(c, q)
    env.eqs(label + 'matrix', env.mm(M, P), [[s if i == j else 0 for j in range(n)] for i in range(n)])


QUICK = (product(n=[1], kind=['id'], robust=[True, False], off=[None]) +
         product(n=[2], kind=['id', 'fix', 'rot'], robust=[True], off=[None]) +
         product(n=[2], kind=['id', 'fix', 'rot'], robust=[False], off=[[0], [1]]) +
         product(n=[3], kind=['id', 'fix', 'rot'], robust=[True, False], off=[[0], [2]]))
DEEP = (product(n=[2], kind=['id', 'fix', 'rot'], robust=[False], off=[None]) +
        product(n=[3], kind=['id', 'fix', 'rot'], robust=[True, False], off=[[1], [0, 1], [0, 2], [1, 2]]))


@harness('C07', QUICK, thorough=QUICK + DEEP)
def one(env, n, kind, robust, off):
    d = inside(env, n, kind, '0', off, band(env))
    e = env.code.Ellipsoid(env.arr(d[3]), env.arr(d[0]))
    p, x = env.attempt(e._get_scalar_polar_internal, robust)
    if env.check('returns', x is None):
        judge(env, p, d)
        env.eqs('operand: matrix', e.get_shape_mat(), d[0])
        env.eqs('operand: centre', e.get_center_vec(), d[3])


@harness('C07', product(n=[1, 2, 3], kind=['id', 'fix'], robust=[True, False]))
def outside(env, n, kind, robust):
    """ellipsoids without the origin inside are rejected"""
    Q, V, a, c, k = inside(env, n, kind)
    f = env.real('f', 1, 3, 2)
    # push the centre outside along w
    env.assume(k >= env.frac(1, 10))
    env.assume(f * f * k >= 1 + band(env))
    e = env.code.Ellipsoid(env.arr([f * x for x in c]), env.arr(Q))
    env.must_raise('origin outside', e._get_scalar_polar_internal, robust, _tag='degenerateEllipsoid')
    if robust:
        env.must_raise('origin outside', env.code.Ellipsoid.polar, [e], _tag='degenerateEllipsoid')


@harness('C07', product(n=[1, 2, 3], robust=[True, False]))
def boundary(env, n, robust):
    """origin on the boundary"""
    a = env.roots('a', n)
    c = [a[0]] + [env.const(0, 1)] * (n - 1)
    e = env.code.Ellipsoid(env.arr(c), env.arr([[a[i] * a[i] if i == j else env.const(0, 1) for j in range(n)] for i in range(n)]))
    x = env.raises(e._get_scalar_polar_internal, robust)
    if env.symbolic:
        env.check('origin on the boundary: rejected', x is not None)


@harness('C07', [dict(n=n, kind=k, rank=r) for n in (1, 2, 3) for k in ('id', 'fix') for r in range(n)])
def degenerate(env, n, kind, rank):
    e, d = mk_ell(env, 0, n, kind, rank, centre=False)
    f, d2 = mk_ell(env, 1, n, 'id', centre=False)
    env.must_raise('degenerate', env.code.Ellipsoid.polar, [e], _tag='degenerateEllipsoid')
    env.must_raise('degenerate in array', env.code.Ellipsoid.polar, [f, e], _tag='degenerateEllipsoid')


@harness('C07', [dict(n=n, kind=k, robust=r, ax=x) for n in (1, 2, 3) for k in ('id', 'fix', 'rot') for r in (0, 1) for x in range(n) if n > 1 or k == 'id'])
def involution(env, n, kind, robust, ax):
    """the polar of the polar is the ellipsoid"""
    Q, V, a, c, k = inside(env, n, kind, '0', [ax])
    env.assume(k <= env.frac(1, 2))
    for x in a:
        env.assume(env.and_(x >= env.frac(1, 2), x <= 2))
    e = env.code.Ellipsoid(env.arr(c), env.arr(Q))
    p, x = env.attempt(e._get_scalar_polar_internal, bool(robust))
    if not env.check('polar', x is None):
        return
    r, x = env.attempt(p._get_scalar_polar_internal, bool(robust))
    if env.check('polar of the polar', x is None):
        env.eqs('matrix', r.get_shape_mat(), Q)
        env.eqs('centre', r.get_center_vec(), c)


@harness('C07', product(sh=[(1,), (2,), (3,), (1, 1), (2, 2), (1, 2), (2, 1), (1, 2, 2), (4,)], n=[1, 2]))
def arrays(env, sh, n):
    """each polar stands at the position of its ellipsoid"""
    sh = tuple(sh)
    es, ds = [], []
    for i in range(prod(sh)):
        a = [env.const(2 + i, 3), env.const(1, 1 + i)][:n] if n > 1 else None
        d = inside(env, n, 'id', str(i), [i % n], band(env), a)
        ds.append(d)
        es.append(env.code.Ellipsoid(env.arr(d[3]), env.arr(d[0])))
    A = shape_of(env, es, sh) if len(sh) > 1 or sh[0] % 2 else list(es)
    r, x = env.attempt(env.code.Ellipsoid.polar, A)
    if env.check('returns', x is None) and env.check('shape', env.shape(r) == sh):
        for p, d in zip(env.np.array(r).flatten(), ds):
            judge(env, p, d)
        for e, d in zip(es, ds):
            env.eqs('operand: matrix', e.get_shape_mat(), d[0])
            env.eqs('operand: centre', e.get_center_vec(), d[3])


@harness('C07', product(case=['type', 'method', 'empty']))
def rejected(env, case):
    e, d = mk_ell(env, 0, 2, 'id', centre=False)
    if case == 'type':
        env.must_raise(case, env.code.Ellipsoid.polar, [e, 1])
    elif case == 'method':
        env.must_raise(case, e._get_scalar_polar_internal, 1)
        env.must_raise(case, e._get_scalar_polar_internal, 'robust')
    else:
        env.must_raise(case, env.code.Ellipsoid.polar, [env.code.Ellipsoid()])
