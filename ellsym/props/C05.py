"""C05 equality of ellipsoids and hyperplanes"""
from ..harness import harness, product
from .util import direction, mk_ell, prod, shape_of

MODULES = ['Ellipsoid', 'Hyperplane', 'ABasicEllipsoid', 'dict', 'common', 'la']
BOUNDS = ('dimensions 0-3; arrays of up to 4 objects with up to three axes; symbolic centres, eigenvalues, angles, normals, '
          'shifts, scale factors and tolerances (1e-5 to 1/50)')


def tols(env, i=''):
    return dict(abs_tol=env.real('t%s' % i, env.frac(1, 100000), env.frac(1, 50), 0.01),
                rel_tol=env.real('r%s' % i, env.frac(1, 100000), env.frac(1, 50), 0.012))


def ask(env, x, y, how):
    """the verdict by one of the entry points"""
    C = type(x)
    if how == 'op':
        return x == y
    r, rep = (C.is_equal if how == 'is_equal' else C.eq)([x], [y])
    f = env.flat(r)
    env.check('one verdict', len(f) == 1)
    env.check('report', (rep == '') == bool(f[0]))
    return f[0]


def far(env, p, q, kw, kw2=None):
    """clearly more than the tolerances apart"""
    t, r = kw['abs_tol'], kw['rel_tol']
    if kw2:
        t, r = env.max(t, kw2['abs_tol']), env.max(r, kw2['rel_tol'])
    e = env.max(p - q, q - p)
    return env.and_(e >= 2 * t, e >= r * (env.max(p, -p) + env.max(q, -q)))


HOW = ['op', 'is_equal', 'eq']


@harness('C05', product(n=[1, 2, 3], kind=['id', 'fix'], rank=[0, 1, 2, 3]) + product(n=[2], kind=['rot'], rank=[1, 2]) + [dict(n=0, kind='id', rank=0)],
         thorough=product(n=[1, 2, 3], kind=['id', 'fix', 'rot', 'perm'], rank=[0, 1, 2, 3]) + [dict(n=0, kind='id', rank=0)])
def ell_reflexive(env, n, kind, rank):
    """an ellipsoid equals itself, a copy and another one built from the same data, whatever the tolerances"""
    if rank > n:
        return
    E = env.code.Ellipsoid
    kw = tols(env)
    if n == 0:
        e, g = E(**kw), E()
    else:
        Q, V, a = env.spd('q', n, kind, rank)
        c = env.vec('c', n, -2, 2)
        e = E(env.arr(c), env.arr(Q), **kw)
        g = E(env.arr(c), env.arr(Q))
    for how in HOW:
        env.check('equal to itself', bool(ask(env, e, e, how)))
        env.check('equal to a copy', bool(ask(env, e, E.get_copy(e).flat[0], how)))
        env.check('equal to the same data', bool(ask(env, e, g, how)) and bool(ask(env, g, e, how)))
    if n:
        env.check('not empty', not bool(ask(env, e, E(), 'op')) and not bool(ask(env, E(), e, 'op')))


@harness('C05', product(n=[1, 2, 3], what=['centre', 'matrix']),
         thorough=product(n=[1, 2, 3], what=['centre', 'matrix', 'rotation']))
def ell_different(env, n, what):
    """clearly different centres or matrices: unequal, both ways round"""
    E = env.code.Ellipsoid
    kw, kw2 = tols(env), tols(env, '2')
    Q, V, a = env.spd('q', n, 'id')
    c = env.vec('c', n, -2, 2)
    k = env.choice('k', list(range(n)))
    R, b, d = Q, a, list(c)
    if what == 'centre':
        d[k] = env.real('d', -2, 2)
        env.assume(far(env, c[k], d[k], kw, kw2))
    elif what == 'matrix':
        b = list(a)
        b[k] = env.real('b', env.frac(1, 2), 3, 2.)
        env.assume(far(env, a[k], b[k], kw, kw2))
        R = env.from_eig(V, [x * x for x in b])
    e, g = E(env.arr(c), env.arr(Q), **kw), E(env.arr(d), env.arr(R), **kw2)
    for how in HOW[:2]:
        env.check('unequal', not bool(ask(env, e, g, how)))
        env.check('unequal, exchanged', not bool(ask(env, g, e, how)))


@harness('C05', product(n=[2], what=['centre', 'matrix', 'dim']))
def ell_symmetric(env, n, what):
    """the verdict does not depend on the order of the operands"""
    E = env.code.Ellipsoid
    kw, kw2 = tols(env), tols(env, '2')
    Q, V, a = env.spd('q', n, 'id')
    c = env.vec('c', n, -2, 2)
    R, d = Q, list(c)
    if what == 'centre':
        d[0] = env.real('d', -2, 2)
    elif what == 'matrix':
        R = env.from_eig(V, [env.real('b', 0, 2, 1.) ** 2, a[1] * a[1]])
    else:
        R, d = [[Q[0][0]]], c[:1]
    e, g = E(env.arr(c), env.arr(Q), **kw), E(env.arr(d), env.arr(R), **kw2)
    x, y = bool(ask(env, e, g, 'op')), bool(ask(env, g, e, 'op'))
    env.check('symmetric', x == y)
    if what == 'dim':
        env.check('unequal', not x)


@harness('C05', product(n=[1, 2, 3], v=['free'], zero=[False, True]) + product(n=[1, 2, 3], v=[0, 1, 2, 3], zero=[False, True]))
def hyp_same(env, n, v, zero):
    """a hyperplane equals its rescaled copies"""
    H = env.code.Hyperplane
    kw = tols(env)
    if v == 'free':
        w = env.vec('v', n, -2, 2)
        env.assume(env.dot(w, w) >= env.const(1, 4))
    else:
        w = direction(env, 'v', n, v)
    s = env.const(0, 1) if zero else env.real('s', -2, 2)
    sg = env.choice('sign', [1, -1])
    k = sg * env.real('k', env.frac(1, 4), 4, 1.5)
    h, g = H(env.arr(w), s, **kw), H(env.arr([k * x for x in w]), k * s)
    for how in HOW:
        env.check('equal to itself', bool(ask(env, h, h, how)))
        env.check('equal to a rescaled copy', bool(ask(env, h, g, how)) and bool(ask(env, g, h, how)))


@harness('C05', product(n=[1, 2, 3], what=['shift', 'normal', 'sign', 'dim'], v=[0, 1]))
def hyp_different(env, n, what, v):
    """clearly different hyperplanes are unequal"""
    H = env.code.Hyperplane
    kw = tols(env)
    w = direction(env, 'v', n, v)
    nv = w[0] * 0 + env.real('nv', env.frac(1, 2), 2, 1.)
    u = [x for x in w]
    s = env.real('s', -2, 2)
    k2 = env.dot(w, w)
    z = s
    if what == 'shift':
        # equal normals, shifts apart: compare the normalised shifts
        k = env.sqrt(k2)
        z = env.real('z', -2, 2)
        e = env.max(z - s, s - z)
        env.assume(env.and_(e >= 2 * kw['abs_tol'] * k, e >= 2 * kw['rel_tol'] * 4))
    elif what == 'normal':
        if n == 1:
            return
        u = direction(env, 'u', n, v + 2)
    elif what == 'sign':
        env.assume(env.max(s, -s) >= env.frac(1, 4))
        u = [-x for x in w]
    else:
        u = [env.const(1, 1)] * (n + 1)
    h, g = H(env.arr(w), s, **kw), H(env.arr(u), z, **kw)
    env.check('unequal', not bool(ask(env, h, g, 'op')))
    env.check('unequal, exchanged', not bool(ask(env, g, h, 'is_equal')))


SH = [(2,), (3,), (1,), (2, 1), (1, 2), (1, 1), (2, 2), (1, 2, 1)]
ONE = ['single', (1,), (1, 1), (1, 1, 1)]


@harness('C05', product(cls=['Ellipsoid', 'Hyperplane'], sh=SH))
def arrays(env, cls, sh):
    """arrays of the same shape, element by element"""
    sh = tuple(sh)
    k = prod(sh)
    C = getattr(env.code, cls)
    A, B, want = parts(env, cls, k)
    r, rep = C.is_equal(shape_of(env, A, sh), shape_of(env, B, sh))
    env.check('arrangement', env.shape(r) == sh)
    env.check('element by element', [bool(x) for x in env.flat(r)] == want)
    if len(sh) == 1:
        r = C.eq(A, B)[0]
        env.check('lists', [bool(x) for x in env.flat(r)] == want)


def obj(env, cls, i, p, q):
    if cls == 'Ellipsoid':
        return env.code.Ellipsoid(env.arr([p, q]), env.arr([[4, 0], [0, 1]]))
    return env.code.Hyperplane(env.arr([env.const(3, 5), env.const(-4, 5)]), p + q + 5)


def parts(env, cls, k):
    """pairs of objects, equal except at one chosen position"""
    odd = env.choice('odd', [-1] + list(range(k)))
    A, B = [], []
    e = env.real('e', env.frac(1, 10), 1, 0.5)
    for i in range(k):
        p = env.real('p%d' % i, 0, 1, 0.25 + i * 0.125)
        A.append(obj(env, cls, i, p, env.const(1, 4)))
        B.append(obj(env, cls, i, p + e if i == odd else p, env.const(1, 4)))
    return A, B, [i != odd for i in range(k)]


@harness('C05', product(cls=['Ellipsoid', 'Hyperplane'], sh=SH, one=ONE[:3], first=[False, True]),
         thorough=product(cls=['Ellipsoid', 'Hyperplane'], sh=SH, one=ONE, first=[False, True]))
def broadcast(env, cls, sh, one, first):
    """a single object against an array"""
    sh = tuple(sh)
    k = prod(sh)
    C = getattr(env.code, cls)
    odd = env.choice('odd', list(range(k)))
    p = env.real('p', 0, 1)
    e = env.real('e', env.frac(1, 10), 1, 0.5)
    x = obj(env, cls, 0, p, env.const(1, 4))
    A = shape_of(env, [obj(env, cls, i, p + e if i == odd else p, env.const(1, 4)) for i in range(k)], sh)
    X = x if one == 'single' else shape_of(env, [x], tuple(one))
    r, rep = C.is_equal(X, A) if first else C.is_equal(A, X)
    env.check('element by element', [bool(v) for v in env.flat(r)] == [i != odd for i in range(k)])
    if k > 1:
        env.check('arrangement', env.shape(r) == sh)


@harness('C05', product(cls=['Ellipsoid', 'Hyperplane'], case=['shapes', 'sizes', 'type', 'second type', 'class', 'one empty', 'empty']))
def arguments(env, cls, case):
    C = getattr(env.code, cls)
    D = env.code.Hyperplane if cls == 'Ellipsoid' else env.code.Ellipsoid
    x = [obj(env, cls, i, env.real('p%d' % i, 0, 1), env.const(1, 4)) for i in range(4)]
    if case == 'empty':
        env.check('empty arrays', bool(env.flat(C.is_equal([], [])[0])[0]))
        return
    args = {'shapes': (shape_of(env, x, (2, 2)), shape_of(env, x, (4,))), 'sizes': (x, x[:3]), 'type': ([1, 2], x),
            'second type': (x, ['a']), 'class': (x[:1], [obj(env, 'Hyperplane' if cls == 'Ellipsoid' else 'Ellipsoid', 9, 0, 0)]),
            'one empty': (x, [])}[case]
    env.must_raise(case, C.is_equal, *args)


@harness('C05', product(prop=['abs_tol', 'rel_tol', 'n_plot_2d_points', 'n_plot_3d_points', 'none'], cls=['Ellipsoid', 'Hyperplane']))
def properties(env, prop, cls):
    """properties count only on request"""
    if cls == 'Hyperplane' and prop.startswith('n_'):
        return
    C = getattr(env.code, cls)
    t = env.real('t', env.frac(1, 1000), env.frac(1, 100), 0.002)
    kw = dict(abs_tol=t, rel_tol=t)
    if cls == 'Ellipsoid':
        kw.update(n_plot_2d_points=100, n_plot_3d_points=100)
    kw2 = dict(kw)
    if prop != 'none':
        kw2[prop] = 150 if prop.startswith('n_') else 4 * t
    p = env.real('p', 0, 1)
    if cls == 'Ellipsoid':
        args = (env.arr([p]), env.arr([[4]]))
    else:
        args = (env.arr([1, 0]), p)
    a, b = C(*args, **kw), C(*args, **kw2)
    env.check('not counted', bool(env.flat(C.is_equal([a], [b])[0])[0]))
    r = bool(env.flat(C.is_equal([a], [b], True)[0])[0])
    env.check('counted on request', r == (prop == 'none'))
