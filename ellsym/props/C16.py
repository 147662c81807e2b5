"""C16 parallelism and dimension of hyperplanes"""
from ..harness import harness, product
from .util import direction, prod, shape_of

MODULES = ['Hyperplane', 'ABasicEllipsoid']
BOUNDS = ('normals of dimension 1-4 of any length and sign, symbolic shifts, tolerances and differences; arrays of up to 4 '
          'hyperplanes in shapes (), (k,), (k,1), (1,k), (2,2), (1,2,1)')


def ask(env, x, y):
    r = env.flat(env.code.Hyperplane.is_parallel([x], [y]))
    env.check('one verdict', len(r) == 1)
    return bool(r[0])


def normal(env, name, n, v):
    if n == 4:
        k = env.real(name + 'k', env.frac(1, 2), 2, 1.25)
        return [k * env.const(x, 2) for x in ((1, 1, -1, 1), (1, -1, 1, 1), (0, 2, 0, 0), (-1, 1, 1, 1))[v]]
    if v == 'free':
        w = env.vec(name, n, -2, 2)
        env.assume(env.dot(w, w) >= env.const(1, 4))
        return w
    return direction(env, name, n, v)


@harness('C16', product(n=[1, 2, 3], v=['free', 0, 1, 2, 3]) + product(n=[4], v=[0, 1, 2]))
def collinear(env, n, v):
    """rescaled normals of either sign are parallel, whatever the shifts"""
    H = env.code.Hyperplane
    w = normal(env, 'v', n, v)
    sg = env.choice('sign', [1, -1])
    k = sg * env.real('k', env.frac(1, 4), 4, 1.5)
    t = env.real('t', env.frac(1, 100000), env.frac(1, 20), 0.01)
    h = H(env.arr(w), env.real('s', -2, 2), abs_tol=t)
    g = H(env.arr([k * x for x in w]), env.real('z', -2, 2))
    env.check('parallel', ask(env, h, g) and ask(env, g, h))
    env.check('to itself', ask(env, h, h))


@harness('C16', product(v=[0, 1, 2, 3]), thorough=product(v=['rot', 0, 1, 2, 3]))
def angle(env, v):
    """planar normals at any angle: parallel only when the angle vanishes up to the tolerance"""
    H = env.code.Hyperplane
    V = env.basis('p', 2, 'rot')
    k = env.real('k', env.frac(1, 4), 4, 1.5) * env.choice('sign', [1, -1])
    x = [k * V[0][0], k * V[1][0]]
    if v == 'rot':
        U = env.basis('q', 2, 'rot')
        w = [U[0][0], U[1][0]]
    else:
        w = [env.const(*y) for y in (((3, 5), (4, 5)), ((0, 1), (-1, 1)), ((-4, 5), (3, 5)), ((1, 1), (0, 1)))[v]]
    t = env.real('t', env.frac(1, 100000), env.frac(1, 20), 0.01)
    h, g = H(env.arr(w), env.real('s', -2, 2), abs_tol=t), H(env.arr(x), env.real('z', -2, 2), abs_tol=t)
    sn = w[0] * V[1][0] - w[1] * V[0][0]
    for p, q in ((h, g), (g, h)):
        if ask(env, p, q):
            env.le('small angle', sn * sn, 16 * t * t)
        else:
            env.le('angle not zero', t * t / 4, sn * sn)


@harness('C16', product(n=[2, 3], v=[0, 1, 2, 3], u=[0, 1, 2, 3]) + product(n=[4], v=[0, 1, 2, 3], u=[0, 1, 2, 3]))
def not_collinear(env, n, v, u):
    """normals that are clearly not collinear are not parallel"""
    if v == u:
        return
    H = env.code.Hyperplane
    w, x = normal(env, 'v', n, v), normal(env, 'u', n, u)
    t = env.real('t', env.frac(1, 100000), env.frac(1, 20), 0.01)
    h, g = H(env.arr(w), env.real('s', -2, 2), abs_tol=t), H(env.arr(x), env.real('z', -2, 2), abs_tol=t)
    env.check('not parallel', not ask(env, h, g))
    env.check('not parallel, exchanged', not ask(env, g, h))


@harness('C16', product(n=[2, 3], k=[0, 1, 2]))
def one_component(env, n, k):
    """a change in a single direction is noticed"""
    if k >= n:
        return
    H = env.code.Hyperplane
    e = env.real('e', env.frac(1, 4), 1, 0.5)
    sg = env.choice('sign', [1, -1])
    w = [env.const(int(i == k), 1) for i in range(n)]
    x = [sg * y for y in w]
    j = env.choice('j', [i for i in range(n) if i != k])
    x[j] = e
    h, g = H(env.arr(w), 1.), H(env.arr(x), 1.)
    env.check('not parallel', not ask(env, h, g) and not ask(env, g, h))


@harness('C16', product(n=[1, 2, 3], m=[1, 2, 3]))
def dimensions(env, n, m):
    """normals of different dimension are not parallel; the dimension is that of the normal"""
    H = env.code.Hyperplane
    w, x = normal(env, 'v', n, 0), normal(env, 'u', m, 0)
    h, g = H(env.arr(w), env.real('s', -2, 2)), H(env.arr(x), env.real('z', -2, 2))
    env.check('verdict', ask(env, h, g) == (n == m))
    env.check('dimension', [int(x) for x in env.flat(H.dimension([h, g]))] == [n, m])


def obj(env, i, odd, name='v'):
    k = env.real('%s%d' % (name, i), env.frac(1, 2), 2, 1. + i / 8.)
    b = [(4, 5), (3, 5)] if odd else [(3, 5), (-4, 5)]
    return env.code.Hyperplane(env.arr([k * env.const(*x) for x in b]), env.real('%ss%d' % (name, i), -2, 2))


SH = [(), (1,), (2,), (3,), (2, 1), (1, 2), (1, 1), (2, 2), (1, 2, 1)]


@harness('C16', product(sh=SH))
def arrays(env, sh):
    """element by element"""
    sh = tuple(sh)
    k = prod(sh)
    H = env.code.Hyperplane
    odd = env.choice('odd', [-1] + list(range(k)))
    A = [obj(env, i, False) for i in range(k)]
    B = [obj(env, i, i == odd, 'u') for i in range(k)]
    r = H.is_parallel(shape_of(env, A, sh), shape_of(env, B, sh))
    env.check('arrangement', env.shape(r) == sh)
    env.check('element by element', [bool(x) for x in env.flat(r)] == [i != odd for i in range(k)])
    if len(sh) == 1:
        env.check('lists', [bool(x) for x in env.flat(H.is_parallel(A, B))] == [i != odd for i in range(k)])


@harness('C16', product(sh=SH[1:], one=['single', (1,), (1, 1)], first=[False, True]))
def broadcast(env, sh, one, first):
    """one hyperplane against an array"""
    sh = tuple(sh)
    k = prod(sh)
    H = env.code.Hyperplane
    odd = env.choice('odd', list(range(k)))
    x = obj(env, 9, False)
    A = shape_of(env, [obj(env, i, i == odd, 'u') for i in range(k)], sh)
    X = x if one == 'single' else shape_of(env, [x], tuple(one))
    r = H.is_parallel(X, A) if first else H.is_parallel(A, X)
    env.check('element by element', [bool(v) for v in env.flat(r)] == [i != odd for i in range(k)])
    if k > 1:
        env.check('arrangement', env.shape(r) == sh)


@harness('C16', product(sh=SH))
def dimension_arrays(env, sh):
    """dimensions stand at the positions of the hyperplanes"""
    sh = tuple(sh)
    k = prod(sh)
    L = [env.code.Hyperplane(env.arr(env.vec('v%d_' % i, 1 + i % 3 if i % 3 else 2, env.frac(1, 2), 2)), env.real('s%d' % i, 1, 2)) for i in range(k)]
    r = env.code.Hyperplane.dimension(shape_of(env, L, sh))
    env.check('arrangement', env.shape(r) == sh)
    env.check('dimensions', [int(x) for x in env.flat(r)] == [1 + i % 3 if i % 3 else 2 for i in range(k)])


@harness('C16', product(case=['sizes', 'shapes', 'type', 'second type', 'dimension type']))
def arguments(env, case):
    H = env.code.Hyperplane
    L = [obj(env, i, False) for i in range(4)]
    if case == 'dimension type':
        env.must_raise(case, H.dimension, [1])
        return
    args = {'sizes': (L, L[:3]), 'shapes': (shape_of(env, L, (2, 2)), shape_of(env, L, (4,))), 'type': ([1], L), 'second type': (L, [1])}[case]
    env.must_raise(case, H.is_parallel, *args)
