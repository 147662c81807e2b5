"""C06 membership in intersections and unions of ellipsoids"""
from ..harness import harness, product
from .util import Kept, mk_ell, prod, shape_of

MODULES = ['Ellipsoid', 'ell', 'la', 'ABasicEllipsoid', 'AEllipsoid']
BOUNDS = ('dimensions 1-3, ranks 0-n; up to 3 ellipsoids in shapes (), (k,), (k,1), (1,k), (2,2) and up to 3 points, '
          'symbolic coordinates, eigenvalues, angles and tolerance; boundary band (1, (1+2 tol)^2) of the quadratic form left open')


def regions(env, d, x, t, rank=None):
    """(x certainly belongs, x certainly does not) for one ellipsoid"""
    c, Q, V, a = d
    n = len(c)
    y = env.mv(env.T(V), env.sub(x, c))
    nz = 0 if rank is None else n - rank
    full = range(nz, n)
    q, m = 0, 1
    for k in full:
        e = y[k] * y[k]
        for j in full:
            if j != k:
                e = e * a[j] * a[j]
        q = q + e
        m = m * a[k] * a[k]
    off = [y[k] for k in range(nz)]
    band = (1 + 2 * t) * (1 + 2 * t)
    ins = [q <= m] if n > nz else []
    out = [q >= m * band] if n > nz else []
    ins += [o == 0 for o in off]
    out += [env.dot(off, off) >= t * band] if off else []
    return env.and_(*ins), env.or_(*out)


def verdict(env, label, got, mode, regs):
    ins = [r[0] for r in regs]
    out = [r[1] for r in regs]
    f = env.and_ if mode == 'i' else env.or_
    g = env.or_ if mode == 'i' else env.and_
    got = bool(got)
    if got:
        env.check(label + ': reported inside', env.not_(g(*out)))
    else:
        env.check(label + ': reported outside', env.not_(f(*ins)))


@harness('C06', product(n=[1, 2, 3], kind=['id', 'fix'], mode=['u', 'i']) + product(n=[2], kind=['rot'], mode=['u']),
         thorough=product(n=[1, 2, 3], kind=['id', 'fix', 'rot', 'perm'], mode=['u', 'i']))
def one(env, n, kind, mode):
    """one ellipsoid, one point"""
    t = env.real('t', env.frac(1, 10000), env.frac(1, 20), 0.01)
    e, d = mk_ell(env, 0, n, kind, tol=t)
    x = env.vec('x', n, -4, 4)
    pts = env.lay(env.arr(x).reshape(n, 1))
    keep = Kept(env, pts=pts)
    r = env.code.Ellipsoid.is_internal([e], pts, mode)
    keep.check()
    env.check('one answer', len(env.flat(r)) == 1)
    verdict(env, 'point', env.flat(r)[0], mode, [regions(env, d, x, t)])


@harness('C06', product(n=[1, 2, 3], rank=[0, 1, 2], kind=['id', 'fix'], where=['free', 'hull', 'near']) +
         product(n=[2], rank=[1], kind=['rot'], where=['hull']),
         thorough=product(n=[1, 2, 3], rank=[0, 1, 2], kind=['id', 'fix', 'rot'], where=['free', 'hull', 'near']))
def degenerate(env, n, rank, kind, where):
    """degenerate ellipsoids: only points of the affine hull (up to the tolerance)"""
    if rank >= n:
        return
    t = env.real('t', env.frac(1, 10000), env.frac(1, 100), 0.002)
    e, d = mk_ell(env, 0, n, kind, rank, tol=t)
    c, Q, V, a = d
    y = env.vec('y', n, -4, 4)
    if where == 'hull':
        y = [env.const(0, 1)] * (n - rank) + y[n - rank:]
    elif where == 'near':
        y = y[:n - rank] + [env.const(1, 2) * a[k] for k in range(n - rank, n)]
    x = env.add(c, env.mv(V, y))
    r = env.code.Ellipsoid.is_internal([e], env.arr(x).reshape(n, 1), 'i')
    verdict(env, 'point', env.flat(r)[0], 'i', [regions(env, d, x, t, rank)])


@harness('C06', product(n=[2], k=[2, 3], m=[1], mode=['u', 'i']) + product(n=[1], k=[2], m=[2], mode=['u', 'i']) +
         product(n=[3], k=[2], m=[1], mode=['u', 'i']) + product(n=[2], k=[1], m=[2, 3], mode=['u', 'i']),
         thorough=product(n=[1, 2, 3], k=[1, 2, 3], m=[1, 2], mode=['u', 'i']))
def several(env, n, k, m, mode):
    """intersection and union of several ellipsoids, several points"""
    t = [env.real('t%d' % i, env.frac(1, 10000), env.frac(1, 20), 0.01 + i * 0.01) for i in range(k)]
    ed = [mk_ell(env, i, n, 'id', tol=t[i], centre=i > 0) for i in range(k)]
    X = [env.vec('x%d_' % j, n, -4, 4) for j in range(m)]
    r = env.code.Ellipsoid.is_internal([e for e, d in ed], env.arr(env.T(X)), mode)
    f = env.flat(r)
    env.check('one answer for each point', len(f) == m)
    if len(f) == m:
        for j in range(m):
            verdict(env, 'point', f[j], mode, [regions(env, ed[i][1], X[j], t[i]) for i in range(k)])


@harness('C06', product(sh=[(), (2,), (3,), (2, 1), (1, 2), (2, 2), (1, 2, 1)], mode=['u', 'i'], form=['array']) +
         product(sh=[(2,)], mode=['u', 'i'], form=['list', 'tuple']))
def shapes(env, sh, mode, form):
    """every ellipsoid of the array counts, at every position"""
    sh = tuple(sh)
    k = prod(sh)
    E = env.code.Ellipsoid
    odd = env.choice('odd', list(range(k)))
    h = env.real('h', env.frac(1, 2), 2, 1.)
    g = env.real('g', env.frac(1, 10), env.frac(9, 10), 0.5)
    # the odd ellipsoid is centred at 10, the others at the origin, all of radius h
    objs = [E(env.arr([env.const(10 if i == odd else 0, 1), env.const(0, 1)]), env.arr([[h * h, 0], [0, h * h]])) for i in range(k)]
    arg = {'array': lambda: shape_of(env, objs, sh), 'list': lambda: list(objs), 'tuple': lambda: tuple(objs)}[form]()
    pts = env.arr([[0, 10 + h * g, 5], [h * g, 0, 0]])
    f = env.flat(E.is_internal(arg, pts, mode))
    env.check('one answer for each point', len(f) == 3)
    if len(f) == 3:
        env.check('point of the others', bool(f[0]) == (mode == 'u' and k > 1))
        env.check('point of the odd one', bool(f[1]) == (mode == 'u' or k == 1))
        env.check('point of none', not bool(f[2]))


@harness('C06', [dict(case=c) for c in ('dims', 'mode', 'empty', 'type', 'numeric', 'none', 'mixed')])
def rejected(env, case):
    """inadmissible arguments"""
    E = env.code.Ellipsoid
    e = mk_ell(env, 0, 2, 'id')[0]
    x = env.arr(env.mat('x', 2, 1, -2, 2))
    args = {'dims': lambda: ([e], env.arr(env.mat('z', 3, 1, -2, 2)), 'i'), 'mode': lambda: ([e], x, 's'),
            'empty': lambda: ([E(), e], x, 'i'), 'type': lambda: ([1], x, 'i'), 'numeric': lambda: ([e], env.np.array([['a'], ['b']]), 'i'),
            'none': lambda: ([], x, 'u'), 'mixed': lambda: ([e, mk_ell(env, 1, 1, 'id')[0]], x, 'u')}[case]()
    env.must_raise(case, E.is_internal, *args)
