"""C25 absolute / relative comparison of arrays"""
from ..harness import harness, product
from .util import Kept, prod

MODULES = ['common']
BOUNDS = ('arrays of shapes (), (k,), (k,m), (0,) with up to 4 elements, each a symbolic real (or complex) number, NaN or an '
          'infinity; symbolic absolute and relative tolerances')
NAN, INF = float('nan'), float('inf')
SPEC = {'n': NAN, '+': INF, '-': -INF}


def fabs(env, x):
    return env.max(x, -x)


def near(env, p, q):
    e = env.frac(1, 10 ** 9)
    return env.and_(p - q <= e, q - p <= e)


def call(env, x, y, a, r):
    return env.code.common.abs_rel_compare(x, y, a, r, lambda z: env.np.abs(z))


def tolerances(env, rel):
    a = env.real('abs', 0, 2, 0.1)
    return a, (env.real('rel', 0, 3, 0.2) if rel else None)


@harness('C25', product(sh=[(), (1,), (2,), (1, 2), (2, 1)], rel=[False, True]) + product(sh=[(3,), (2, 2)], rel=[False]),
         thorough=product(sh=[(), (1,), (2,), (3,), (1, 2), (2, 1), (2, 2), (1, 3)], rel=[False, True]))
def verdict(env, sh, rel):
    """the verdict is the conjunction of the element tests and the reported differences are the maxima"""
    sh = tuple(sh)
    k = prod(sh)
    x = env.vec('x', k, -4, 4)
    y = env.vec('y', k, -4, 4)
    a, r = tolerances(env, rel)
    X, Y = env.lay(env.arr(x).reshape(sh)), env.lay(env.arr(y).reshape(sh))
    keep = Kept(env, X=X, Y=Y)
    eq, ad, trig, rd, amr, rep = call(env, X, Y, a, r)
    keep.check()
    d = [fabs(env, p - q) for p, q in zip(x, y)]
    s = [fabs(env, p) + fabs(env, q) for p, q in zip(x, y)]
    if not rel:
        ok = env.and_(*[e <= a for e in d])
        env.check('no relative test', not bool(trig))
    else:
        hit = [bool(env.and_(e > a, f > a)) for e, f in zip(d, s)]
        ok = env.and_(*[(2 * e <= r * f) if h else (e <= a) for e, f, h in zip(d, s, hit)])
        env.check('relative test applied', bool(trig) == any(hit))
        if any(hit):
            m = env.flat(rd)[0]
            for e, f, h in zip(d, s, hit):
                if h:
                    env.le('relative difference bounds', 2 * e, m * f)
            env.check('relative difference attained', env.or_(*[near(env, 2 * e, m * f) for e, f, h in zip(d, s, hit) if h]))
            g = env.flat(amr)[0]
            env.check('absolute difference there', env.or_(*[env.and_(near(env, g, e), near(env, 2 * e, m * f))
                                                             for e, f, h in zip(d, s, hit) if h]))
    env.check('equal exactly when all elements pass', env.iff(bool(eq), ok))
    env.check('report', (rep == '') == bool(eq))
    m = env.flat(ad)[0]
    for e in d:
        env.le('absolute difference bounds', e, m)
    env.check('absolute difference attained', env.or_(*[near(env, m, e) for e in d]))


def specials(k, both):
    import itertools
    out = []
    for l in itertools.product('xn+-', repeat=k):
        for r in itertools.product('xn+-', repeat=k):
            if set(l + r) != {'x'}:
                out.append((''.join(l), ''.join(r)))
    return out


S1 = [dict(l=l, r=r, rel=rel) for l, r in specials(1, True) for rel in (False, True)]
S2 = [dict(l=l, r=r, rel=(i % 2 == 0)) for i, (l, r) in enumerate(specials(2, True)) if i % 4 == 0 or l == r]
S2A = [dict(l=l, r=r, rel=rel) for l, r in specials(2, True) for rel in (False, True)]
S3 = [dict(l=l, r=r, rel=True) for l, r in (('nx+', 'nx+'), ('-xn', '-xn'), ('x-x', 'x-x'), ('x+x', 'x-x'), ('nxx', 'xnx'), ('nnx', 'nnx'))]


@harness('C25', S1 + S2 + S3, thorough=S1 + S2A + S3)
def special(env, l, r, rel):
    """NaN and infinite elements match only themselves, finite elements are still compared"""
    x = [env.real('x%d' % i, -4, 4) if c == 'x' else SPEC[c] for i, c in enumerate(l)]
    y = [env.real('y%d' % i, -4, 4) if c == 'x' else SPEC[c] for i, c in enumerate(r)]
    a, t = tolerances(env, rel)
    X, Y = env.arr(x), env.arr(y)
    eq, ad, trig, rd, amr, rep = call(env, X, Y, a, t)
    if l != r:
        env.check('special values at different places', not bool(eq))
        env.check('report', rep != '')
        return
    ok, m = True, 0
    for p, q, c in zip(x, y, l):
        if c != 'x':
            continue
        e, f = fabs(env, p - q), fabs(env, p) + fabs(env, q)
        ok = env.and_(ok, env.or_(e <= a, env.and_(f > a, 2 * e <= t * f)) if rel else e <= a)
        env.le('absolute difference bounds', e, env.flat(ad)[0])
    env.check('equal exactly when the finite elements pass', env.iff(bool(eq), ok))
    for i, c in enumerate(l):
        v = env.flat(X)[i]
        if c == 'x':
            env.eq('argument kept', v, x[i])
        else:
            env.check('argument kept', (v != v) if c == 'n' else v == SPEC[c])


@harness('C25', product(sh=[(0,), (0, 2), (2, 0)], rel=[False, True]))
def empty(env, sh, rel):
    """empty arrays are equal"""
    a, t = tolerances(env, rel)
    eq, ad, trig, rd, amr, rep = call(env, env.np.zeros(tuple(sh)), env.np.zeros(tuple(sh)), a, t)
    env.check('equal', bool(eq) and rep == '')


@harness('C25', product(case=['shape', 'shape2', 'left', 'right', 'abs', 'abs_none', 'abs_vec', 'rel', 'rel_vec', 'norm', 'size0']))
def rejected(env, case):
    x = env.arr(env.vec('x', 2, -2, 2))
    a = env.real('a', 0, 1, 0.5)
    neg = env.real('neg', -1, -env.frac(1, 100), -0.5)
    s = env.np.array(['a', 'b'])
    f = env.np.abs
    args = {'shape': (x, env.arr(env.vec('z', 3, -2, 2)), a, None, f), 'shape2': (x, x.reshape(2, 1), a, None, f),
            'left': (s, x, a, None, f), 'right': (x, s, a, None, f), 'abs': (x, x, neg, None, f), 'abs_none': (x, x, None, None, f),
            'abs_vec': (x, x, env.np.array([.1, .1]), None, f), 'rel': (x, x, a, neg, f), 'rel_vec': (x, x, a, env.np.array([.1, .1]), f),
            'norm': (x, x, a, None, 1), 'size0': (x, env.np.zeros((0,)), a, None, f)}[case]
    env.must_raise(case, env.code.common.abs_rel_compare, *args)


@harness('C25', product(k=[1, 2], sp=['', 'n', '+']))
def complex_elements(env, k, sp):
    """complex elements are compared by modulus, next to special values too"""
    re = [env.vec('p', k, -2, 2), env.vec('q', k, -2, 2)]
    im = [env.vec('u', k, -2, 2), env.vec('v', k, -2, 2)]
    a = env.real('abs', env.frac(1, 100), 2, 0.1)
    s = [SPEC[c] for c in sp]
    X = env.carr(s + re[0], [0] * len(s) + im[0], (k + len(s),))
    Y = env.carr(s + re[1], [0] * len(s) + im[1], (k + len(s),))
    eq = call(env, X, Y, a, None)[0]
    ok = True
    for i in range(k):
        dr, di = re[0][i] - re[1][i], im[0][i] - im[1][i]
        ok = env.and_(ok, dr * dr + di * di <= a * a)
    env.check('equal exactly when all elements pass', env.iff(bool(eq), ok))
