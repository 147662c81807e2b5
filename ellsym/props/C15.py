"""C15 construction of hyperplanes and containment"""
from ..harness import harness, product
from .util import Kept, prod, shape_of

MODULES = ['Hyperplane', 'ABasicEllipsoid', 'la', 'common']
BOUNDS = ('normals of dimension 1-4, symbolic normals, shifts, points and tolerances; up to 4 hyperplanes in shapes (), (k,), '
          '(k,1), (1,k), (2,2), (1,2,1) and up to 4 points; infinite coordinates at every position')
INF, NAN = float('inf'), float('nan')


@harness('C15', product(n=[1, 2, 3, 4], form=['flat', 'column', 'row', 'int', 'complex'], shift=['num', 'arr0', 'arr1', 'int', 'none', 'complex']))
def construction(env, n, form, shift):
    """the object holds exactly the given values"""
    H = env.code.Hyperplane
    v = [2 * i - 3 for i in range(n)] if form == 'int' else env.vec('v', n, -2, 2)
    s = 7 if shift == 'int' else env.real('s', -2, 2)
    V = {'flat': lambda: env.arr(v), 'column': lambda: env.arr(v).reshape(n, 1), 'row': lambda: env.arr(v).reshape(1, n),
         'int': lambda: env.np.array(v), 'complex': lambda: env.carr(v, [0] * n, (n,))}[form]()
    S = {'num': lambda: s, 'arr0': lambda: env.arr([s])[0], 'arr1': lambda: env.arr([s]), 'int': lambda: s, 'none': lambda: 0.,
         'complex': lambda: env.carr([s], [0], ())}[shift]()
    if shift == 'none':
        s = 0.
    kw = {}
    want = (1e-7, 1e-5)
    if env.choice('tolerances', [0, 1]):
        kw = dict(abs_tol=env.real('t', env.frac(1, 1000), 1, 0.01), rel_tol=env.real('r', env.frac(1, 1000), 1, 0.02))
        want = (kw['abs_tol'], kw['rel_tol'])
    h = H(V, **kw) if shift == 'none' else H(V, S, **kw)
    for nm, f in (('parameters', h.parameters), ('double', h.double)):
        a, b = f()
        env.check(nm + ': flat normal', env.shape(a) == (n,))
        env.eqs(nm + ': normal', env.flat(a), v)
        env.eqs(nm + ': shift', env.flat(b), [s])
    if kw:
        env.eqs('tolerances', [env.flat(H.get_abs_tol([h], None))[0], env.flat(H.get_rel_tol([h], None))[0]], list(want))


@harness('C15', product(what=['normal', 'shift'], bad=['nan', 'inf', 'minf', 'string', 'matrix', 'list', 'vector', 'complex', 'none'], n=[2, 3]))
def rejected(env, what, bad, n):
    """invalid normals and shifts are rejected"""
    H = env.code.Hyperplane
    v, s = env.vec('v', n, -2, 2), env.real('s', -2, 2)
    k = env.choice('k', list(range(n))) if what == 'normal' and bad in ('nan', 'inf', 'minf', 'complex') else 0
    sp = {'nan': NAN, 'inf': INF, 'minf': -INF}.get(bad)
    if what == 'normal':
        if sp is not None:
            V = env.arr([sp if i == k else x for i, x in enumerate(v)])
        elif bad == 'string':
            V = env.np.array(['a'] * n)
        elif bad == 'matrix':
            V = env.arr(env.mat('m', 2, n, -2, 2))
        elif bad == 'list':
            V = [1., 2.]
        elif bad == 'complex':
            im = env.real('im', env.frac(1, 100), 1, 0.5)
            V = env.carr(v, [im if i == k else 0 for i in range(n)], (n,))
        elif bad == 'none':
            V = None
        else:
            return
        env.must_raise(bad, H, V, s)
    else:
        if sp is not None:
            S = sp
        elif bad == 'string':
            S = 'a'
        elif bad == 'matrix':
            S = env.arr(env.mat('m', 2, 2, -2, 2))
        elif bad in ('vector', 'list'):
            S = env.arr(v)
        elif bad == 'complex':
            S = env.carr([s], [env.real('im', env.frac(1, 100), 1, 0.5)], ())
        else:
            return
        env.must_raise(bad, H, env.arr(v), S)


SH = [(1,), (2,), (3,), (2, 1), (1, 2), (2, 2), (1, 2, 1)]


@harness('C15', product(n=[1, 2, 3], sh=SH))
def array_construction(env, n, sh):
    """arrays of hyperplanes hold the given values at every position"""
    sh = tuple(sh)
    H = env.code.Hyperplane
    v, s = env.vec('v', n, -2, 2), env.real('s', -2, 2)
    r = H.from_rep_mat(env.arr(v), s, list(sh))
    env.check('arrangement', env.shape(r) == sh)
    for h in r.flatten():
        a, b = h.parameters()
        env.eqs('normal', env.flat(a), v)
        env.eq('shift', b, s)


def verdict(env, got, v, s, x, t):
    e = env.dot(v, x) - s
    e = env.max(e, -e)
    if bool(got):
        env.le('reported inside', e, t)
    else:
        env.le('reported outside', t, e)


@harness('C15', product(n=[1, 2, 3, 4], form=['column', 'flat']))
def contains_point(env, n, form):
    """one hyperplane, one point"""
    H = env.code.Hyperplane
    v, s = env.vec('v', n, -2, 2), env.real('s', 1, 2)
    t = env.real('t', env.frac(1, 100000), env.frac(1, 10), 0.01)
    x = env.vec('x', n, -2, 2)
    X = env.arr(x).reshape(n, 1) if form == 'column' else env.arr(x)
    keep = Kept(env, X=X)
    h = H(env.arr(v), s, abs_tol=t)
    r = env.flat(H.contains([h], X))
    env.check('one answer', len(r) == 1)
    keep.check()
    verdict(env, r[0], v, s, x, t)
    # a point constructed to lie on the hyperplane
    env.assume(env.dot(v, v) >= env.const(1, 4))
    k = s / env.dot(v, v)
    env.check('foot point', bool(env.flat(H.contains(h, env.arr([k * y for y in v]).reshape(n, 1)))[0]))


@harness('C15', product(n=[2], sh=[(2,), (3,), (2, 2), (1, 2), (2, 1), (1, 1), (1, 3)]) + product(n=[1, 3], sh=[(2,), (1, 2)]))
def many_points(env, n, sh):
    """one hyperplane, an array of points"""
    sh = tuple(sh)
    k = prod(sh)
    H = env.code.Hyperplane
    v, s = [env.real('v', env.frac(1, 2), 2, 1.)] + [1] * (n - 1), env.real('s', 1, 2)
    t = env.real('t', env.frac(1, 100000), env.frac(1, 10), 0.01)
    P = [[env.real('x%d' % i, -2, 2)] + [i] * (n - 1) for i in range(k)]
    X = env.lay(env.arr(env.T(P)).reshape((n,) + sh))
    h = H(env.arr(v), s, abs_tol=t)
    r = H.contains(h if env.choice('single', [0, 1]) else [h], X)
    env.check('arranged as the points', env.shape(r) == sh or k == 1)
    f = env.flat(r)
    env.check('one answer for each', len(f) == k)
    if len(f) == k:
        for g, x in zip(f, P):
            verdict(env, g, v, s, x, t)


@harness('C15', product(n=[2], sh=[(2,), (3,), (2, 2), (1, 2), (2, 1), (1, 1), (1, 2, 1)]) + product(n=[1, 3], sh=[(2,), (2, 1)]))
def many_hyperplanes(env, n, sh):
    """an array of hyperplanes, one point; each with its own tolerance"""
    sh = tuple(sh)
    k = prod(sh)
    H = env.code.Hyperplane
    V = [[env.real('v%d' % i, env.frac(1, 2), 2, 1.)] + [1] * (n - 1) for i in range(k)]
    S = [env.real('s%d' % i, 1, 2) for i in range(k)]
    t = [env.real('t%d' % i, env.frac(1, 100000), env.frac(1, 10), 0.01 + i / 100.) for i in range(k)]
    x = [env.real('x', -2, 2)] + [1] * (n - 1)
    A = shape_of(env, [H(env.arr(v), s, abs_tol=u) for v, s, u in zip(V, S, t)], sh)
    r = H.contains(A, env.arr(x).reshape(n, 1))
    env.check('arranged as the hyperplanes', env.shape(r) == sh)
    f = env.flat(r)
    if len(f) == k:
        for i in range(k):
            verdict(env, f[i], V[i], S[i], x, t[i])


@harness('C15', product(n=[2], sh=[(2,), (3,), (2, 2), (1, 2), (2, 1)], flat=[False, True]) + product(n=[1, 3], sh=[(2,), (2, 1)], flat=[False]))
def pairwise(env, n, sh, flat):
    """as many points as hyperplanes"""
    sh = tuple(sh)
    k = prod(sh)
    H = env.code.Hyperplane
    V = [[env.real('v%d' % i, env.frac(1, 2), 2, 1.)] + [1] * (n - 1) for i in range(k)]
    S = [env.real('s%d' % i, 1, 2) for i in range(k)]
    t = [env.real('t%d' % i, env.frac(1, 100000), env.frac(1, 10), 0.01 + i / 100.) for i in range(k)]
    P = [[env.real('x%d' % i, -2, 2)] + [i] * (n - 1) for i in range(k)]
    A = shape_of(env, [H(env.arr(v), s, abs_tol=u) for v, s, u in zip(V, S, t)], sh)
    X = env.lay(env.arr(env.T(P)).reshape((n, k) if flat else (n,) + sh))
    r = H.contains(A, X)
    env.check('arranged as the points', env.shape(r) == ((k,) if flat else sh))
    f = env.flat(r)
    if len(f) == k:
        for i in range(k):
            verdict(env, f[i], V[i], S[i], P[i], t[i])


@harness('C15', product(n=[2, 3], k=[0, 1, 2], sp=['inf', 'minf'], zero=[False, True]))
def infinite(env, n, k, sp, zero):
    """infinite coordinates count only where the normal does not vanish"""
    if k >= n:
        return
    H = env.code.Hyperplane
    v = env.vec('v', n, env.frac(1, 2), 2)
    if zero:
        v[k] = env.const(0, 1)
    s = env.real('s', 1, 2)
    t = env.real('t', env.frac(1, 100000), env.frac(1, 10), 0.01)
    x = env.vec('x', n, -2, 2)
    X = [(INF if sp == 'inf' else -INF) if i == k else y for i, y in enumerate(x)]
    r = env.flat(H.contains([H(env.arr(v), s, abs_tol=t)], env.arr(X).reshape(n, 1)))
    if not zero:
        env.check('outside', not bool(r[0]))
    else:
        x[k] = env.const(0, 1)
        verdict(env, r[0], v, s, x, t)


@harness('C15', product(case=['dims', 'mixed', 'nan', 'numeric', 'sizes', 'sizes2', 'type']))
def arguments(env, case):
    H = env.code.Hyperplane
    mk = lambda n, i=0: H(env.arr(env.vec('v%d_' % i, n, env.frac(1, 2), 2)), env.real('s%d' % i, 1, 2))
    x = env.arr(env.mat('x', 2, 1, -2, 2))
    args = {'dims': lambda: ([mk(3)], x), 'mixed': lambda: ([mk(2), mk(3, 1)], x), 'nan': lambda: ([mk(2)], env.arr([[1.], [NAN]])),
            'numeric': lambda: ([mk(2)], env.np.array([['a'], ['b']])), 'sizes': lambda: ([mk(2), mk(2, 1)], env.arr(env.mat('y', 2, 3, -2, 2))),
            'sizes2': lambda: ([mk(2), mk(2, 1), mk(2, 2)], env.arr(env.mat('y', 2, 2, -2, 2))), 'type': lambda: ([1], x)}[case]()
    env.must_raise(case, H.contains, *args)
