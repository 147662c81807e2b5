"""C22 support functions and boundaries"""
import itertools
from fractions import Fraction

from ..harness import harness, product
from .util import Kept

MODULES = ['sup']
BOUNDS = ('plane: 3-6 directions (rational, of any length, in order of the angle either way round, and some with a symbolic direction), all '
          'support values symbolic for up to 4 directions and one to three of them for more; space: 4-8 directions, up to four support '
          'values symbolic, no four of the reduced directions in one plane; qhull is replaced by a model that returns any documented '
          'result, replays use the real one')

PLANE = {3: [(1, 0), (-1, 2), (-1, -1)], 4: [(1, 0), (0, 1), (-1, 0), (0, -1)], 5: [(2, 1), (0, 1), (-2, 1), (-1, -1), (1, -2)],
         6: [(3, 4), (-1, 1), (-2, 0), (-1, -1), (0, -3), (4, -3)], 7: [(1, 0), (1, 1), (0, 1), (-1, 1), (-1, 0), (-1, -1), (1, -1)],
         8: [(1, 0), (1, 1), (0, 1), (-1, 1), (-1, 0), (-1, -1), (0, -1), (1, -1)]}
TURN = {0: [[1, 0], [0, 1]], 1: [[Fraction(3, 5), Fraction(-4, 5)], [Fraction(4, 5), Fraction(3, 5)]]}
SPACE = {'tet': [(1, 1, 1), (-1, -1, 1), (1, -1, -1), (-1, 1, -1)],
         'oct': [(2, 0, 0), (-1, 0, 0), (0, 1, 0), (0, -1, 0), (0, 0, 1), (0, 0, -2)],
         'oct7': [(1, 0, 0), (-1, 0, 0), (0, 1, 0), (0, -1, 0), (0, 0, 1), (0, 0, -1), (1, 2, 2)],
         'tet5': [(1, 1, 1), (1, 2, 0), (-1, -1, 1), (1, -1, -1), (-1, 1, -1)],
         'tet6': [(1, 1, 1), (-1, -1, 1), (1, 2, -1), (1, -1, -1), (-2, -1, 0), (-1, 1, -1)],
         'tet8': [(1, 1, 1), (-1, -1, 1), (1, 2, -1), (1, -1, -1), (-2, -1, 0), (-1, 1, -1), (0, 1, 3), (2, -1, 1)]}


def frac(env, x):
    x = Fraction(x)
    return env.const(x.numerator, x.denominator)


def solve(M, b):
    """rational square system; None when singular"""
    n = len(M)
    A = [list(map(Fraction, r)) + [Fraction(y)] for r, y in zip(M, b)]
    for i in range(n):
        p = next((r for r in range(i, n) if A[r][i]), None)
        if p is None:
            return None
        A[i], A[p] = A[p], A[i]
        A[i] = [x / A[i][i] for x in A[i]]
        for r in range(n):
            if r != i and A[r][i]:
                A[r] = [x - A[r][i] * y for x, y in zip(A[r], A[i])]
    return [r[-1] for r in A]


def forms(L, i):
    """the non-negative combinations of linearly independent directions that give direction i"""
    n = len(L[0])
    out = []
    for k in range(1, n + 1):
        for J in itertools.combinations(range(len(L)), k):
            if k < n:
                if k == 1 and J == (i,):
                    out.append({i: Fraction(1)})
                continue
            M = [[L[j][c] for j in J] for c in range(n)]
            x = solve(M, L[i])
            if x is not None and all(v >= 0 for v in x):
                f = {j: v for j, v in zip(J, x) if v}
                if f not in out:
                    out.append(f)
    return out


def want(env, L, d, i):
    """support value of the set with l_j'x <= d_j for all j, along direction i (duality of linear programming)"""
    return env.min(*[sum(frac(env, v) * d[j] for j, v in f.items()) for f in forms(L, i)])


def vector(env, v, sh):
    if sh == 'row':
        return env.arr([v])
    if sh == 'col':
        return env.arr([[x] for x in v])
    return env.arr(v)


def reduced(env, L, free):
    """differences of the support values and the two families of values"""
    d = [env.real('d%d' % i, env.frac(1, 2), 2, 0.7 + 0.29 * i % 1.1) if i in free else env.const(4 + i % 3, 4) for i in range(len(L))]
    r2 = [env.real('r%d' % i, env.frac(1, 4), 2, 0.5 + 0.1 * i) if i < 2 else env.const(1 + i % 2, 2) for i in range(len(L))]
    return d, r2, [x + y for x, y in zip(d, r2)]


def judge(env, L, d, g):
    if not env.check('one value for each direction', env.shape(g) == (len(L),)):
        return
    for i, x in enumerate(env.flat(g)):
        w = want(env, L, d, i)
        env.le('not above the difference', x, d[i])
        env.eq('support value', x, w)


PQ = (product(n=[3], turn=[0, 1], first=[0, 1, 2], free=[[0, 1, 2]], back=[False]) +
      product(n=[4], turn=[0, 1], first=[0, 1, 3], free=[[0, 1, 2, 3]], back=[False]) +
      product(n=[5], turn=[0], first=[0, 2, 4], free=[[0, 1], [1, 3], [0, 4]], back=[False]) +
      product(n=[6], turn=[0], first=[0, 2, 5], free=[[0], [2], [5]], back=[False]) +
      product(n=[3, 4], turn=[1], first=[0, 2], free=[[0, 1]], back=[True]))
PD = (product(n=[5], turn=[0, 1], first=range(5), free=[[0, 1, 2], [0, 2, 4], [1, 3, 4]], back=[False, True]) +
      product(n=[6], turn=[0, 1], first=range(6), free=[[0, 1], [0, 3], [4, 5], [0, 5]], back=[False]) +
      product(n=[7, 8], turn=[0, 1], first=[0, 3, 6], free=[[0], [1], [6], [0, 1]], back=[False]))


@harness('C22', PQ, thorough=PQ + PD)
def planar_difference(env, n, turn, first, free, back):
    """largest convex set within the difference of the support values"""
    t = TURN[turn]
    L = PLANE[n]
    L = L[first:] + L[:first]
    if back:
        L = L[::-1]
    L = [[t[0][0] * x + t[0][1] * y, t[1][0] * x + t[1][1] * y] for x, y in L]
    d, r2, r1 = reduced(env, L, free)
    sh = ['flat', 'row', 'col'][(n + first + turn) % 3]
    l = env.arr([[frac(env, v[c]) for v in L] for c in range(2)])
    a, b = vector(env, r1, sh), vector(env, r2, 'flat' if first % 2 else sh)
    k = Kept(env, rho1_vec=a, rho2_vec=b, l_mat=l)
    g, x = env.attempt(env.code.sup.sup_geom_diff_2d, a, b, l)
    if env.check('returns', x is None):
        judge(env, L, d, g)
        k.check()


@harness('C22', product(turn=[0, 1], first=[0, 1, 3]))
def planar_free_direction(env, turn, first):
    """a direction anywhere between two others"""
    u = env.real('u', env.frac(1, 4), 3, 0.8)
    L = [[env.const(1), env.const(0)], [env.const(1), u], [env.const(0), env.const(1)], [env.const(-1), env.const(-1)]]
    d, r2, r1 = reduced(env, L, [0, 1])
    # (1, u) = 1 (1, 0) + u (0, 1);  (0, 1) = ((1, u) + (-1, -1)) / (u - 1) for u > 1;  (1, 0) = ((1, u) + u (-1, -1)) / (1 - u) for u < 1
    env.assume(env.or_(u >= env.frac(9, 8), u <= env.frac(7, 8)))
    w = [d[0], env.min(d[1], d[0] + u * d[2]), d[2], d[3]]
    if env.fork(u > 1):
        w[2] = env.min(d[2], (d[1] + d[3]) / (u - 1))
    else:
        w[0] = env.min(d[0], (d[1] + u * d[3]) / (1 - u))
    ix = list(range(4))
    ix = ix[first:] + ix[:first]
    t = TURN[turn]
    R = [[frac(env, t[i][0]) * v[0] + frac(env, t[i][1]) * v[1] for i in range(2)] for v in L]
    l = env.arr([[R[j][c] for j in ix] for c in range(2)])
    g, x = env.attempt(env.code.sup.sup_geom_diff_2d, env.arr([r1[j] for j in ix]), env.arr([r2[j] for j in ix]), l)
    if env.check('returns', x is None and env.shape(g) == (4,)):
        for p, j in enumerate(ix):
            env.eq('support value', env.flat(g)[p], w[j])


SQ = (product(name=['tet'], free=[[0, 1, 2, 3]], size=['one']) + product(name=['oct'], free=[[0, 1, 2, 3, 4, 5]], size=['one']) +
      product(name=['tet5'], free=[[0], [1], [0, 1]], size=['one']) + product(name=['oct7'], free=[[6], [0]], size=['one']) +
      product(name=['tet6'], free=[[2], [4]], size=['one']) + product(name=['tet5'], free=[[1]], size=['small', 'large']))
SD = product(name=['oct7', 'tet6', 'tet8'], free=[[0], [1], [2]], size=['one', 'large']) + product(name=['oct7', 'tet6'], free=[[0, 1], [2, 4]], size=['one'])


@harness('C22', SQ, thorough=SQ + SD)
def spatial_difference(env, name, free, size):
    L = SPACE[name]
    d, r2, r1 = reduced(env, L, free)
    k = {'one': env.const(1), 'small': env.const(1, 50), 'large': env.const(1000)}[size]
    if size != 'one':
        d = [k * x for x in d]
        r1 = [x + y for x, y in zip(d, r2)]
    # away from four reduced directions in one plane and from rays through the edges
    for J in itertools.combinations(range(len(L)), 4):
        for i in J:
            M = [[L[j][c] for j in J if j != i] for c in range(3)]
            x = solve(M, L[i])
            if x is not None:
                z = d[i] - sum(frac(env, v) * d[j] for j, v in zip([j for j in J if j != i], x))
                env.assume(env.or_(z >= k / 50, -z >= k / 50))
                break
    l = env.arr([[frac(env, v[c]) for v in L] for c in range(3)])
    sh = ['flat', 'row', 'col'][len(free) % 3]
    a, b = vector(env, r1, sh), vector(env, r2, sh)
    kk = Kept(env, rho1_vec=a, rho2_vec=b, l_mat=l)
    g, x = env.attempt(env.code.sup.sup_geom_diff_3d, a, b, l)
    if env.check('returns', x is None):
        judge(env, L, d, g)
        kk.check()


@harness('C22', product(dim=[2, 3], what=['empty', 'touching', 'columns', 'lengths', 'matrix1', 'matrix2', 'dimension', 'directions']))
def bad_difference(env, dim, what):
    c = env.code.sup
    f = c.sup_geom_diff_2d if dim == 2 else c.sup_geom_diff_3d
    L = PLANE[4] if dim == 2 else SPACE['tet']
    d, r2, r1 = reduced(env, L, [0, 1])
    l = [[frac(env, v[i]) for v in L] for i in range(dim)]
    if what == 'empty':
        z = env.real('z', -1, 0, -0.4)
        r1[2] = r2[2] + z
    elif what == 'touching':
        r1[3] = r2[3]
    elif what == 'columns':
        l = [r[:3] for r in l]
    elif what == 'lengths':
        r2 = r2[:3]
    elif what == 'dimension':
        l = l[:2] if dim == 3 else l + [l[0]]
    r1, r2, l = env.arr(r1), env.arr(r2), env.arr(l)
    if what == 'matrix1':
        r1 = env.arr([env.flat(r1), env.flat(r1)])
    if what == 'matrix2':
        r2 = env.arr([env.flat(r2), env.flat(r2)])
    if what == 'directions':
        l = env.arr([env.flat(l)[0]])
    env.must_raise(what, f, r1, r2, l)


@harness('C22', product(n=[3, 4, 5, 6], first=[0, 2], what=['fixed', 'first', 'last']))
def planar_boundary(env, n, first, what):
    """crossing points of adjacent supporting lines"""
    L = [[env.const(x), env.const(y)] for x, y in PLANE[n][first:] + PLANE[n][:first]]
    if what != 'fixed':
        i = 0 if what == 'first' else n - 1
        p = L[i - 1]
        s, t = env.real('s', env.frac(1, 2), 2, 0.6), env.real('t', env.frac(3, 4), env.frac(5, 4), 1.1)
        L[i] = [s * x + (t - 1) * y / 8 for x, y in zip(L[i], p)]
    h = env.vec('h', n, -3, 3)
    l, v = env.arr(L), env.arr(h)
    k = Kept(env, dir_mat=l, sup_vec=v)
    r, x = env.attempt(env.code.sup.sup_2_boundary_2, l, v)
    if env.check('returns', x is None and env.shape(r) == (n, 2)):
        for i, p in enumerate(env.rows(r)):
            env.eq('on the line of its direction', env.dot(L[i], p), h[i])
            env.eq('on the line of the next direction', env.dot(L[(i + 1) % n], p), h[(i + 1) % n])
        k.check()


FACES = {'tet': [[0, 1, 2], [3, 1, 0], [2, 0, 3], [1, 2, 3]], 'oct': [[0, 2, 4], [2, 1, 4], [1, 3, 4], [3, 0, 4], [2, 0, 5], [5, 2, 1], [1, 3, 5], [0, 5, 3]],
         'tet6': [[0, 2, 3], [1, 4, 3]]}


@harness('C22', product(name=['tet', 'oct', 'tet6'], what=['fixed', 'free'], part=[0, 1]))
def spatial_boundary(env, name, what, part):
    """crossing points of the supporting planes of each face"""
    L = [[env.const(x) for x in v] for v in SPACE[name]]
    F = FACES[name]
    if part:
        F = F[::-2]
    if what == 'free':
        L[0] = [x * env.real('s', env.frac(1, 2), 2, 0.7) + y for x, y in zip(L[0], [env.const(1, 5), env.const(-1, 7), env.real('t', env.frac(-1, 9), env.frac(1, 9), 0.05)])]
    h = env.vec('h', len(L), -3, 3)
    l, v, f = env.arr(L), env.arr(h), env.np.array(F)
    k = Kept(env, dir_mat=l, sup_vec=v)
    r, x = env.attempt(env.code.sup.sup_2_boundary_3, l, v, f)
    if env.check('returns', x is None and env.shape(r) == (len(F), 3)):
        for p, t in zip(env.rows(r), F):
            for j in t:
                env.eq('on the plane of each direction', env.dot(L[j], p), h[j])
        k.check()
