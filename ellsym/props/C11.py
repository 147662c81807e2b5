"""C11 scalar invariants"""
import math
from ..harness import harness, product
from .util import mk_ell, prod, shape_of

MODULES = ['Ellipsoid', 'AEllipsoid', 'ABasicEllipsoid']
BOUNDS = ('dimensions 0-4, all ranks, symbolic eigenvalues, centres and (dimension 2 and 3) rotations; arrays of up to 4 '
          'ellipsoids of mixed dimension and rank in shapes with one to three axes; degeneracy tolerance symbolic')
BALL = [1., 2., math.pi, 4. * math.pi / 3., math.pi ** 2 / 2.]


def same_num(env, label, x, y, scale):
    """equal up to the rounding of the constants of the volume formula"""
    env.le(label, x, y + scale * env.frac(1, 10 ** 9))
    env.le(label, y, x + scale * env.frac(1, 10 ** 9))


def rank_full(n, rank):
    return n if rank is None else rank


def judge(env, E, objs, datas, ranks, sh, arg):
    N = len(objs)
    dims = [len(d[0]) for d in datas]
    r, e = env.attempt(E.dimension, arg)
    if env.check('dimension', e is None and env.shape(r) == sh):
        env.check('dimension', [int(x) for x in env.flat(r)] == dims)
    r, e = env.attempt(E.dimension, arg, return_rank=True)
    if env.check('dimension and rank', e is None and env.shape(r[0]) == sh and env.shape(r[1]) == sh):
        env.check('dimension', [int(x) for x in env.flat(r[0])] == dims)
        env.check('rank', [int(x) for x in env.flat(r[1])] == ranks)
    r, e = env.attempt(E.is_empty, arg)
    if env.check('is_empty', e is None and env.shape(r) == sh):
        env.check('is_empty', [bool(x) for x in env.flat(r)] == [n == 0 for n in dims])
    fs = [E.is_degenerate, E.trace, E.max_eig, E.min_eig, E.volume]
    if any(n == 0 for n in dims):
        for f in fs:
            env.must_raise('empty', f, arg, _tag='wrongInput:emptyEllipsoid')
        return
    res = []
    for f in fs:
        r, e = env.attempt(f, arg)
        if not env.check('%s returns' % f.__name__, e is None and (env.shape(r) == sh if f == E.is_degenerate else env.shape(r) in (sh, (N,)))):
            return
        res.append(env.flat(r))
    for i, (c, Q, V, a) in enumerate(datas):
        n = dims[i]
        env.check('is_degenerate', bool(res[0][i]) == (ranks[i] < n))
        env.eq('trace', res[1][i], sum(Q[k][k] for k in range(n)))
        d = [x * x for x in a]
        for x in d:
            env.le('max_eig', x, res[2][i])
            env.le('min_eig', res[3][i], x)
        env.check('max_eig', env.or_(*[env.abs(x - res[2][i]) <= env.frac(1, 10 ** 9) for x in d]))
        env.check('min_eig', env.or_(*[env.abs(x - res[3][i]) <= env.frac(1, 10 ** 9) for x in d]))
        p = 1
        for x in a:
            p = p * x
        if ranks[i] < n:
            env.eq('volume of a degenerate ellipsoid', res[4][i], 0)
        else:
            same_num(env, 'volume', res[4][i], p * BALL[n], p)


@harness('C11', [dict(n=n, kind=k, rank=r) for n in (1, 2, 3) for k in ('id', 'fix', 'rot') for r in range(n + 1) if not (n == 1 and k != 'id')] +
         [dict(n=4, kind='id', rank=r) for r in range(5)],
         thorough=[dict(n=n, kind=k, rank=r) for n in (1, 2, 3, 4) for k in ('id', 'fix', 'rot', 'perm') for r in range(n + 1) if n < 4 or k == 'id'])
def one(env, n, kind, rank):
    e, d = mk_ell(env, 0, n, kind, rank)
    judge(env, env.code.Ellipsoid, [e], [d], [rank], (1,), [e])


MIX = [[(2, 2), (0, 0)], [(1, 1), (2, 1), (3, 3)], [(3, 2), (2, 2), (2, 0), (1, 1)], [(0, 0)], [(2, 1), (1, 1)], [(0, 0), (1, 0), (3, 3), (0, 0)],
       [(3, 3), (3, 1), (2, 2), (3, 0)], [(2, 2), (2, 2), (2, 1)]]
SHAPES = {1: [(1,), (1, 1)], 2: [(2,), (1, 2), (2, 1)], 3: [(3,), (3, 1), (1, 3)], 4: [(4,), (2, 2), (2, 1, 2), (1, 4)]}


@harness('C11', [dict(mix=i, sh=s) for i, m in enumerate(MIX) for s in SHAPES[len(m)]])
def arrays(env, mix, sh):
    """each invariant stands at the position of its ellipsoid"""
    sh = tuple(sh)
    objs, datas, ranks = [], [], []
    for i, (n, r) in enumerate(MIX[mix]):
        if n == 0:
            objs.append(env.code.Ellipsoid())
            datas.append(([], [], [], []))
        else:
            e, d = mk_ell(env, i, n, 'id', r)
            for j in range(n - 1):
                env.assume(d[3][j] <= d[3][j + 1])
            objs.append(e)
            datas.append(d)
        ranks.append(r)
    judge(env, env.code.Ellipsoid, objs, datas, ranks, sh, shape_of(env, objs, sh) if len(sh) > 1 else objs)


@harness('C11', product(n=[1, 2, 3], kind=['id', 'fix'], scale=[1, 8]))
def threshold(env, n, kind, scale):
    """degenerate means the least eigenvalue is within the tolerance of the ellipsoid"""
    t = env.real('t', env.frac(1, 1000000), env.frac(1, 8), 0.01)
    V = env.basis('q', n, kind)
    d = [env.real('d0', 0, env.frac(1, 4), 0.02)] + [env.real('d%d' % i, 1, 3, 1 + i * 0.5) for i in range(1, n)]
    e = env.code.Ellipsoid(env.arr(env.from_eig(V, d)), abs_tol=t)
    r = env.code.Ellipsoid.is_degenerate([e])
    x = bool(env.flat(r)[0])
    v = env.flat(env.code.Ellipsoid.volume([e]))[0]
    if x:
        env.le('degenerate', d[0], t)
        env.eq('volume', v, 0)
    else:
        env.le('not degenerate', t, d[0])
        p = d[0]
        for y in d[1:]:
            p = p * y
        env.le('volume', 0, v)
        same_num(env, "volume", v * v, env.const(1, 1) * BALL[n] * BALL[n] * p, 10 * p)


@harness('C11', product(case=['type', 'list', 'no ellipsoids']))
def other_arguments(env, case):
    E = env.code.Ellipsoid
    e, d = mk_ell(env, 0, 2, 'id')
    if case == 'type':
        for f in (E.dimension, E.is_empty, E.is_degenerate, E.trace, E.max_eig, E.min_eig, E.volume):
            env.must_raise(f.__name__, f, [e, 1])
            env.must_raise(f.__name__, f, env.np.eye(2))
    elif case == 'list':
        env.eqs('nested list', env.flat(E.trace([[e, e], [e, e]])), [d[1][0][0] + d[1][1][1]] * 4)
        env.check('nested list', env.shape(E.dimension([[e, e], [e, e]])) == (2, 2))
    else:
        a = env.np.array([], dtype=object)
        for f in (E.dimension, E.is_empty, E.is_degenerate, E.trace, E.max_eig, E.min_eig, E.volume):
            r, x = env.attempt(f, a)
            env.check('no ellipsoids: ' + f.__name__, x is None and env.shape(r) == (0,))
        r, x = env.attempt(E.dimension, a, return_rank=True)
        env.check('no ellipsoids: rank', x is None and env.shape(r[0]) == (0,) and env.shape(r[1]) == (0,))
