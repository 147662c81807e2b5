"""C14 boundary grids"""
import math

from ..harness import harness, product
from .util import mk_ell

MODULES = ['Ellipsoid', 'AEllipsoid', 'tri', 'geom', 'ell']
BOUNDS = ('dimensions 2 and 3, symbolic centres and eigenvalues in general or fixed bases, 1-6 points in the plane, 42 (and in the '
          'thorough tier 162) points in space; factors are symbolic numbers, so every count between the bounds is a path')


def plane(N):
    return [[math.cos(2 * math.pi * i / N), math.sin(2 * math.pi * i / N)] for i in range(N)]


def dirs_of(env, n, N):
    """sampling directions: an own circle, the code's sphere (judged in C23)"""
    if n == 2:
        return plane(N)
    return env.rows(env.code.tri.sphere_tri_ext(3, N, True)[0])


def size(n, N):
    if n == 2:
        return N
    k = 42
    while k < N:
        k = 4 * k - 6
    return k


def faces(env, n, f, k):
    f = [[int(x) for x in r] for r in env.rows(f)]
    if n == 2:
        env.check('faces: closed line', f == [[i, (i + 1) % k] for i in range(k)])
    else:
        if env.check('faces: triangles', len(f) == 2 * k - 4 and all(len(r) == 3 for r in f)):
            env.check('faces: existing points', sorted(set(x for r in f for x in r)) == list(range(k)))
            E = set((r[j], r[(j + 1) % 3]) for r in f for j in range(3))
            env.check('faces: closed surface', len(E) == 3 * len(f) and all((b, a) in E for a, b in E))


def root(env, V, a):
    """symmetric square root of the matrix"""
    n = len(a)
    return env.mm(V, env.mm([[a[i] if i == j else env.const(0, 1) for j in range(n)] for i in range(n)], env.T(V)))


def judge_points(env, r, c, Q, V, a, n, N, regular=True):
    """centre plus square root of the matrix times each direction, in order"""
    k = size(n, N)
    if not env.check('points: number', env.shape(r) == (k, n)):
        return
    R = env.rows(r)
    D = dirs_of(env, n, N)
    W = root(env, V, a)
    for p, d in zip(R, D):
        env.eqs('point of the direction', p, env.add(c, env.mv(W, d)))
    if n == 2 and regular:
        for p in R:
            z = env.mv(env.T(V), env.sub(p, c))
            env.eq('on the boundary', sum(z[i] * z[i] / (a[i] * a[i]) for i in range(n)), 1)


def judge_support(env, r, c, Q, V, a, n, N):
    """support points and values along the directions, the first direction repeated at the end"""
    bp, f, sup, l = r
    k = size(n, N)
    if not env.check('support: number', env.shape(bp) == (k + 1, n) and env.shape(l) == (k + 1, n) and len(env.flat(sup)) == k + 1):
        return
    D = dirs_of(env, n, N)
    D = D + D[:1]
    L, P, s = env.rows(l), env.rows(bp), env.flat(sup)
    for i, d in enumerate(D):
        env.eqs('direction', L[i], d)
        d = L[i]
        v = env.mv(Q, d)
        h = env.sqrt(env.dot(d, v))
        env.eq('support value', s[i], env.dot(d, c) + h)
        env.eqs('support point', P[i], [c[j] + v[j] / h for j in range(n)])
    faces(env, n, f, k)


Q2 = (product(n=[2], kind=['id', 'fix', 'rot'], N=[1, 2, 3, 5], what=['grid', 'no grid', 'configured', 'rho', 'rho configured'], rank=[None]) +
      product(n=[2], kind=['fix', 'rot'], N=[4], what=['grid', 'rho'], rank=[None]) +
      product(n=[2], kind=['id', 'fix'], N=[3], what=['grid', 'no grid'], rank=[0, 1]))
Q3 = product(n=[3], kind=['id', 'fix'], N=[1, 42], what=['grid', 'no grid', 'configured'], rank=[None])
Q3R = product(n=[3], kind=['scaled'], N=[5, 42], what=['rho', 'rho configured'], rank=[None])


@harness('C14', Q2 + Q3 + Q3R,
         thorough=Q2 + Q3 + Q3R + product(n=[2], kind=['id', 'fix', 'rot'], N=[6, 7, 8, 12], what=['grid', 'no grid', 'configured', 'rho'], rank=[None]) +
         product(n=[3], kind=['id', 'fix', 'rot'], N=[43, 162], what=['grid', 'no grid', 'configured'], rank=[None]) +
         product(n=[3], kind=['scaled'], N=[43, 162], what=['rho'], rank=[None]))
def boundary(env, n, kind, N, what, rank):
    """points asked for by number, or configured in the ellipsoid"""
    kw = {'n_plot_%dd_points' % n: N} if 'configured' in what else {}
    if kind == 'scaled':       # one free size of a fixed shape
        t = env.real('s', env.frac(1, 4), 4, 1.3)
        V = env.basis('q', n, 'fix')
        a = [t / 2, t, t * 2]
        Q = env.from_eig(V, [x * x for x in a])
    else:
        Q, V, a = env.spd('q', n, kind, rank)
    c = env.vec('c', n, -2, 2)
    e = env.code.Ellipsoid(env.arr(c), env.arr(Q), **kw)
    arg = () if kw else (N,)
    if 'rho' in what:
        if kind == 'rot':
            for d in env.rows(env.code.tri.sphere_tri_ext(n, N, True)[0]):
                env.lemma(env.quad(Q, d), '>')
        r, x = env.attempt(e.get_rho_boundary, *arg)
    elif what == 'no grid':
        r, x = env.attempt(e.get_boundary, *arg)
    else:
        r, x = env.attempt(e.get_boundary, *arg, return_grid=True)
    if not env.check('returns', x is None):
        return
    if 'rho' in what:
        return judge_support(env, r, c, Q, V, a, n, N)
    if what != 'no grid':
        if not env.check('two results', isinstance(r, tuple) and len(r) == 2):
            return
        r, f = r
        faces(env, n, f, size(n, N))
    judge_points(env, r, c, Q, V, a, n, N, rank is None)


COUNT = product(n=[2], how=['scalar', 'array', 'list', 'none'], what=['grid', 'no grid', 'rho'], base=[4]) + \
    product(n=[3], how=['scalar', 'array', 'none'], what=['grid', 'no grid', 'rho'], base=[30])


@harness('C14', COUNT)
def by_factor(env, n, how, what, base):
    """the configured number times the factor, rounded down"""
    kw = {'n_plot_2d_points': base if n == 2 else 7, 'n_plot_3d_points': base if n == 3 else 9}
    a = env.real('s', env.frac(1, 2), 2, 1.2)
    Q = [[a * a if i == j else env.const(0, 1) for j in range(n)] for i in range(n)]
    c = [env.real('c', -2, 2, 0.4)] + [env.const(1, 2)] * (n - 1)
    e = env.code.Ellipsoid(env.arr(c), env.arr(Q), **kw)
    if how == 'none':
        arg, k = (), base
    else:
        f = env.real('f', *((env.frac(1, 10), env.frac(3, 2), 0.8) if n == 2 else (env.frac(13, 10), env.frac(3, 2), 1.38)))
        other = env.real('g', env.frac(1, 4), 3, 2.2)
        k = math.floor(f * base)
        if how == 'scalar':
            arg = (f,)
        else:
            arg = ([f, other] if n == 2 else [other, f],)
            if how == 'array':
                arg = (env.arr(arg[0]),)
    if not env.symbolic and how != 'none':
        env.assume(abs(float(f) * base - round(float(f) * base)) > 1e-9)
    V = env.eye(n)
    if what == 'rho':
        r, x = env.attempt(e.get_rho_boundary_by_factor, *arg)
    elif what == 'grid':
        r, x = env.attempt(e.get_boundary_by_factor, *arg, return_grid=True)
    else:
        r, x = env.attempt(e.get_boundary_by_factor, *arg)
    if k == 0:
        env.check('no points: rejected', x is not None)
        return
    if not env.check('returns', x is None):
        return
    if what == 'rho':
        return judge_support(env, r, c, Q, V, [a] * n, n, k)
    if what == 'grid':
        if not env.check('two results', isinstance(r, tuple) and len(r) == 2):
            return
        faces(env, n, r[1], size(n, k))
        r = r[0]
    judge_points(env, r, c, Q, V, [a] * n, n, k)


@harness('C14', product(n=[2], how=['scalar', 'array', 'none'], base=[4]) + product(n=[3], how=['scalar', 'array', 'none'], base=[30]))
def grid_by_factor(env, n, how, base):
    kw = {'n_plot_2d_points': base if n == 2 else 7, 'n_plot_3d_points': base if n == 3 else 9}
    e = env.code.Ellipsoid(env.arr([[env.const(2 if i == j else 0, 1) for j in range(n)] for i in range(n)]), **kw)
    if how == 'none':
        arg, k = (), base
    else:
        f = env.real('f', *((env.frac(1, 10), env.frac(3, 2), 0.8) if n == 2 else (env.frac(13, 10), env.frac(3, 2), 1.38)))
        other = env.real('g', env.frac(1, 4), 3, 2.2)
        k = math.floor(f * base)
        arg = (env.np.array(f),) if how == 'scalar' else (env.arr([f, other] if n == 2 else [other, f]),)
    if not env.symbolic and how != 'none':
        env.assume(abs(float(f) * base - round(float(f) * base)) > 1e-9)
    r, x = env.attempt(e._get_grid_by_factor, *arg)
    if k == 0:
        env.check('no points: rejected', x is not None)
        return
    if not env.check('returns', x is None and isinstance(r, tuple) and len(r) == 2):
        return
    m = size(n, k)
    if env.check('number', env.shape(r[0]) == (m, n)):
        D = dirs_of(env, n, k)
        for p, d in zip(env.rows(r[0]), D):
            env.eqs('direction', p, d)
        faces(env, n, r[1], m)


@harness('C14', product(n=[1, 4, 5], how=['', '_by_factor'], what=['get_boundary', 'get_rho_boundary', '_get_grid_by_factor']))
def bad_dimension(env, n, how, what):
    if what == '_get_grid_by_factor' and how:
        return
    Q, V, a = env.spd('q', n, 'id')
    e = env.code.Ellipsoid(env.arr(env.vec('c', n, -2, 2)), env.arr(Q))
    f = getattr(e, what + how)
    env.must_raise('dimension', f)


@harness('C14', product(how=['', '_by_factor'], what=['get_boundary', 'get_rho_boundary']))
def bad_array(env, how, what):
    a, _ = mk_ell(env, 0, 2, 'id')
    b, _ = mk_ell(env, 1, 2, 'id')
    env.must_raise('array', getattr(env.code.Ellipsoid, what + how), env.np.array([a, b]))
