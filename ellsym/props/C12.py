"""C12 comparison by inclusion and simultaneous diagonalisation"""
from ..harness import harness, product
from .util import Kept

MODULES = ['Ellipsoid', 'core', 'la', 'AEllipsoid', 'ABasicEllipsoid']
BOUNDS = ('dimension 1-3: pairs with common axes (any rank of the second, symbolic eigenvalues, rotations), planar pairs with '
          'independent axes, spatial pairs with fixed rational relative rotation; symbolic tolerances')


def tol(env):
    return env.real('t', env.frac(1, 100000), env.frac(1, 20), 0.01)


def ell(env, c, Q, t):
    return env.code.Ellipsoid(env.arr(c), env.arr(Q), abs_tol=t)


def same_axes(env, n, kind, ra, rb, order):
    V = env.basis('q', n, kind)
    a = [env.const(0, 1)] * (n - ra) + [env.real('a%d' % i, env.frac(1, 2), 3, 1. + i * 0.5) for i in range(ra)]
    b = [env.const(0, 1)] * (n - rb) + [env.real('b%d' % i, env.frac(1, 2), 3, 1.25 + i * 0.25) for i in range(rb)]
    b = [b[i] for i in order[:n]] if n == 3 else (b[::-1] if order[0] else b)
    return V, a, b


@harness('C12', product(n=[1, 2, 3], kind=['id', 'fix'], rb=[0, 1, 2], order=[(0, 1, 2)]) +
         product(n=[3], kind=['id', 'fix'], rb=[3], order=[(0, 1, 2)], srt=[1]) +
         product(n=[2, 3], kind=['id'], rb=[1, 2], order=[(2, 1, 0)]) + product(n=[2], kind=['rot'], rb=[1, 2], order=[(0, 1, 2)]),
         thorough=product(n=[1, 2, 3], kind=['id', 'fix', 'rot'], rb=[0, 1, 2, 3], order=[(0, 1, 2), (2, 1, 0), (1, 2, 0)]))
def common_axes(env, n, kind, rb, order, srt=0):
    """ellipsoids with common axes: bigger exactly when no semi-axis of the second is longer"""
    if rb > n:
        return
    t = tol(env)
    V, a, b = same_axes(env, n, kind, n, rb, order)
    if srt:
        for i in range(n - 1):
            env.assume(env.and_(a[i] < a[i + 1], b[i] * a[i + 1] < b[i + 1] * a[i]))
    z = [env.const(0, 1)] * n
    e, g = ell(env, z, env.from_eig(V, [x * x for x in a]), t), ell(env, z, env.from_eig(V, [x * x for x in b]), t)
    r = bool(e.is_bigger(g))
    if r:
        for x, y in zip(a, b):
            env.le('reported bigger', y * y, (1 + 2 * t) * x * x)
    else:
        env.check('reported not bigger', env.or_(*[y * y >= x * x for x, y in zip(a, b)]))


@harness('C12', product(ra=[1, 2], rb=[1, 2, 3], n=[2, 3], kind=['id', 'fix']),
         thorough=product(ra=[1, 2], rb=[0, 1, 2, 3], n=[2, 3], kind=['id', 'fix', 'rot']))
def degenerate_first(env, ra, rb, n, kind):
    """a degenerate ellipsoid is bigger only than degenerate ones in the same subspace"""
    if ra >= n or rb > n:
        return
    t = env.real('t', env.frac(1, 100000), env.frac(1, 100), 0.001)
    V, a, b = same_axes(env, n, kind, ra, rb, (0, 1, 2))
    z = [env.const(0, 1)] * n
    e, g = ell(env, z, env.from_eig(V, [x * x for x in a]), t), ell(env, z, env.from_eig(V, [x * x for x in b]), t)
    r = bool(e.is_bigger(g))
    if rb > ra:
        env.check('bigger rank', not r)
    elif r:
        for x, y in zip(a[n - ra:], b[n - ra:]):
            env.le('reported bigger', y * y, (1 + 2 * t) * x * x)
    else:
        env.check('reported not bigger', env.or_(*[y * y >= x * x for x, y in zip(a, b)][n - ra:]))


@harness('C12', product(kind=['id', 'fix'], rel=['fix'], rb=[1]),
         thorough=product(kind=['id', 'fix', 'rot'], rel=['rot', 'fix'], rb=[0, 1, 2]))
def planar(env, kind, rel, rb):
    """independent axes in the plane: bigger exactly when the difference of the matrices is definite"""
    t = tol(env)
    A, V, a = env.spd('a', 2, kind)
    B, W, b = env.spd('b', 2, rel, rb)
    z = [env.const(0, 1)] * 2
    e, g = ell(env, z, A, t), ell(env, z, B, t)
    r = bool(e.is_bigger(g))
    m = (1 + 2 * t) if r else 1
    D = [[m * A[i][j] - B[i][j] for j in range(2)] for i in range(2)]
    det = D[0][0] * D[1][1] - D[0][1] * D[1][0]
    if r:
        env.le('reported bigger: determinant', 0, det)
        env.le('reported bigger: trace', 0, D[0][0] + D[1][1])
    else:
        env.check('reported not bigger', env.or_(det <= 0, D[0][0] + D[1][1] <= 0))


def rel_pair(env, n, kind, rel, rb):
    """A = W W', B = W R diag(b^2) R' W' with W = V diag(a)"""
    V = env.basis('q', n, kind)
    a = env.roots('a', n)
    R = env.basis('r', n, rel)
    b = [env.const(0, 1)] * (n - rb) + [env.real('b%d' % i, env.frac(1, 4), 2, 0.5 + i * 0.25) for i in range(rb)]
    W = [[V[i][k] * a[k] for k in range(n)] for i in range(n)]
    C = env.from_eig(R, [x * x for x in b])
    B = env.mm(env.mm(W, C), env.T(W))
    B = [[B[min(i, j)][max(i, j)] for j in range(n)] for i in range(n)]
    return env.from_eig(V, [x * x for x in a]), B, b


@harness('C12', product(n=[2], kind=['id', 'fix'], rel=['fix'], rb=[1, 2]) ,
         thorough=product(n=[2], kind=['id', 'fix', 'rot'], rel=['fix', 'rot'], rb=[1, 2]))
def relative(env, n, kind, rel, rb):
    """pairs built from their relative axes: the verdict depends on the relative eigenvalues only"""
    t = tol(env)
    A, B, b = rel_pair(env, n, kind, rel, rb)
    z = [env.const(0, 1)] * n
    r = bool(ell(env, z, A, t).is_bigger(ell(env, z, B, t)))
    if r:
        for x in b:
            env.le('reported bigger', x * x, 1 + 2 * t)
    else:
        env.check('reported not bigger', env.or_(*[x * x >= 1 for x in b]))


@harness('C12', product(n=[1], ka=['id'], kb=['id']) + product(n=[2], ka=['id', 'fix'], kb=['id', 'fix']) +
         [{'n': 2, 'ka': 'id', 'kb': 'rot'}, {'n': 2, 'ka': 'rot', 'kb': 'id'}] + product(n=[3], ka=['id', 'fix'], kb=['same']),
         thorough=product(n=[1, 2], ka=['id', 'fix', 'rot'], kb=['id', 'fix', 'rot']) + product(n=[3], ka=['id', 'fix', 'rot', 'perm'], kb=['same', 'id']))
def diagonaliser(env, n, ka, kb):
    """the first matrix becomes the identity, the second diagonal"""
    A, V, a = env.spd('a', n, ka)
    if kb == 'same':
        B = env.from_eig(V, env.vec('b', n, -3, 3))
    else:
        B = env.spectral('b', n, kb)[0]
    t = tol(env)
    MA, MB = env.arr(A), env.arr(B)
    keep = Kept(env, A=MA, B=MB)
    T = env.code.core.ell_sim_diag(MA, MB, t)
    keep.check()
    env.check('shape', env.shape(T) == (n, n))
    T = env.rows(T)
    I = env.mm(env.mm(T, A), env.T(T))
    D = env.mm(env.mm(T, B), env.T(T))
    env.eqs('first becomes the identity', I, env.eye(n))
    for i in range(n):
        for j in range(n):
            if i != j:
                env.eq('second becomes diagonal', D[i][j], 0)


@harness('C12', [{'n': 2, 'k': 0}, {'n': 2, 'k': 1}, {'n': 3, 'k': 0}])
def nearly_symmetric(env, n, k):
    """matrices symmetric up to the tolerance are accepted"""
    t = tol(env)
    d = env.real('d', -1, 1, 0.5) * t
    A, V, a = env.spd('a', n, 'id')
    B = env.from_eig(V, [env.const(1, 4)] * n)
    B[0][1] = B[0][1] + d
    z = [env.const(0, 1)] * n
    e, g = ell(env, z, [[9 * x for x in r] for r in A], t), ell(env, z, B, t)
    env.check('bigger', bool(e.is_bigger(g)) if k else True)
    if not k:
        env.code.core.ell_sim_diag(env.arr(A), env.arr(B), t)


@harness('C12', product(case=['dims', 'array', 'type', 'sd first', 'sd indefinite', 'sd asymmetric', 'sd sizes', 'sd text', 'sd second asymmetric']))
def rejected(env, case):
    t = env.real('t', env.frac(1, 100000), env.frac(1, 100), 0.001)
    mk = lambda i, n: ell(env, env.vec('c%d_' % i, n, -2, 2), env.spd('q%d' % i, n, 'id')[0], t)
    P = env.spd('p', 2, 'rot')[0]
    f = env.code.core.ell_sim_diag
    if case == 'dims':
        env.must_raise(case, mk(0, 2).is_bigger, mk(1, 3))
    elif case == 'array':
        env.must_raise(case, mk(0, 2).is_bigger, [mk(1, 2), mk(2, 2)])
    elif case == 'type':
        env.must_raise(case, mk(0, 2).is_bigger, 1)
    elif case == 'sd first':
        env.must_raise(case, f, env.arr(env.spd('s', 2, 'rot', 1)[0]), env.arr(P), t)
    elif case == 'sd indefinite':
        env.must_raise(case, f, env.arr([[1., 0.], [0., env.real('m', -2, -1)]]), env.arr(P), t)
    elif case == 'sd asymmetric':
        env.must_raise(case, f, env.arr([[4., env.real('m', 1, 2)], [0., 4.]]), env.arr(P), t)
    elif case == 'sd second asymmetric':
        env.must_raise(case, f, env.arr(P), env.arr([[4., env.real('m', 1, 2)], [0., 4.]]), t)
    elif case == 'sd sizes':
        env.must_raise(case, f, env.arr(P), env.arr(env.eye(3)), t)
    else:
        env.must_raise(case, f, env.np.array([['a']]), env.arr(P), t)
