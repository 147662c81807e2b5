"""C24 face and edge maps"""
import itertools

import numpy as np

from ..harness import harness, product
from .util import Kept

MODULES = ['tri', 'gen']
BOUNDS = ('1-3 faces over up to 6 vertex numbers; the numbers themselves are symbolic integers below 1000 (every order of the labels is '
          'a path), for 1 and 2 faces without any prescribed sharing, for more with every listed sharing pattern; triangulation equality '
          'for 3-4 symbolic vertices apart in their first coordinate by more than twice the tolerance')

MESH = {'one': [[0, 1, 2]], 'edge': [[0, 1, 2], [1, 3, 2]], 'edge2': [[0, 1, 2], [0, 1, 3]], 'point': [[0, 1, 2], [2, 3, 4]],
        'twin': [[0, 1, 2], [2, 1, 0]], 'apart': [[0, 1, 2], [3, 4, 5]], 'fan': [[0, 1, 2], [0, 2, 3], [0, 3, 1]],
        'book': [[0, 1, 2], [0, 1, 3], [1, 0, 4]], 'strip': [[0, 1, 2], [1, 2, 3], [2, 3, 4]], 'tet': [[0, 1, 2], [0, 3, 1], [1, 3, 2], [0, 2, 3]]}
PERM = [(0, 1, 2), (0, 2, 1), (1, 0, 2), (1, 2, 0), (2, 0, 1), (2, 1, 0)]
COLS = [(0, 1), (1, 2), (0, 2)]


ORDERS = {k: list(itertools.permutations(range(k))) for k in range(3, 7)}


def ordered(env, k, o, name='v'):
    """distinct vertex numbers in the order number o"""
    p, x = [], env.integer(name + 's', 0, 100, 1)
    for i in range(k):
        p.append(x)
        x = x + env.integer('%sg%d' % (name, i), 1, 50, 1 + i % 2)
    q = ORDERS[k][o % len(ORDERS[k])]
    return [p[i] for i in q]


def labels(env, k, name='v', hint=0):
    """distinct vertex numbers, in any order"""
    v = [env.integer('%s%d' % (name, i), 0, 1000, (7 * i + 3) % 11 + hint) for i in range(k)]
    for i in range(k):
        for j in range(i):
            env.assume(env.or_(v[i] >= v[j] + 1, v[j] >= v[i] + 1))
    return v


def related(env, v, w):
    """two lots of vertex numbers: each pair equal or different"""
    for x in v:
        for y in w:
            env.assume(env.or_(x == y, x >= y + 1, y >= x + 1))


def count(mesh):
    return max(max(f) for f in mesh) + 1


def same_pair(env, a, b, c, d):
    return env.or_(env.and_(a == c, b == d), env.and_(a == d, b == c))


def judge(env, F, r, flat_ok=True, ordered=True):
    e, f2e, d = r
    n = len(F)
    if n == 1 and flat_ok:
        ok = env.shape(f2e) in ((3,), (1, 3)) and env.shape(d) == env.shape(f2e)
    else:
        ok = env.shape(f2e) == (n, 3) and env.shape(d) == (n, 3)
    if not env.check('map shapes', ok) or not env.check('edge shape', len(env.shape(e)) == 2 and env.shape(e)[1] == 2):
        return
    E = env.rows(e)
    m = [[int(x) for x in env.flat(f2e)[3 * i:3 * i + 3]] for i in range(n)]
    D = [env.flat(d)[3 * i:3 * i + 3] for i in range(n)]
    env.check('edges refer to entries', all(0 <= x < len(E) for r in m for x in r))
    used = set(x for r in m for x in r)
    env.check('no other edges', len(used) == len(E))
    if all(isinstance(x, (int, float, np.integer)) for r in E for x in r) and all(isinstance(x, int) for f in F for x in f):
        E = [[int(x) for x in r] for r in E]
        for i, f in enumerate(F):
            w = [[f[a], f[b]] for a, b in COLS]
            g = [E[x] for x in m[i]]
            env.check('edges of the face', [sorted(x) for x in w] == [sorted(x) for x in g])
            env.check('directions', [bool(x) for x in D[i]] == [x == y for x, y in zip(w, g)])
        env.check('two ends in order', all(x[0] < x[1] if ordered else x[0] != x[1] for x in E))
        env.check('listed once', len(set(frozenset(x) for x in E)) == len(E))
        return
    for i, f in enumerate(F):
        for j, (a, b) in enumerate(COLS):
            x = E[m[i][j]]
            fwd = env.and_(x[0] == f[a], x[1] == f[b])
            bwd = env.and_(x[0] == f[b], x[1] == f[a])
            env.check('edge of the face', env.or_(fwd, bwd))
            env.check('direction', env.iff(bool(D[i][j]), fwd))
    for i, x in enumerate(E):
        if ordered:
            env.check('two ends in order', x[0] < x[1])
        for y in E[:i]:
            env.check('listed once', env.not_(same_pair(env, x[0], x[1], y[0], y[1])))


def faces(env, M, v, perms):
    return [[v[f[p]] for p in PERM[q]] for f, q in zip(M, perms)]


def fmat(env, F):
    return env.intarr(F)


@harness('C24', product(mesh=['one'], p=range(6)) + product(mesh=['edge', 'edge2', 'twin'], p=[0, 3, 4]),
         thorough=product(mesh=['one', 'edge', 'edge2', 'twin'], p=range(6)))
def edges(env, mesh, p):
    """any order of the numbers"""
    M = MESH[mesh]
    edge_case(env, M, labels(env, count(M)), p)


@harness('C24', product(mesh=['point', 'fan', 'book', 'strip', 'apart', 'tet'], p=range(6), o=[0]) +
         product(mesh=['point', 'fan', 'book', 'strip', 'tet'], p=[4], o=[5, 17, 23, 58, 101, 119]),
         thorough=product(mesh=['fan', 'tet'], p=range(6), o=range(24)) + product(mesh=['point', 'book', 'strip'], p=range(6), o=range(120)) +
         product(mesh=['apart'], p=[0, 3, 5], o=range(0, 720, 7)))
def edges_ordered(env, mesh, p, o):
    """numbers of a given order, any gaps"""
    M = MESH[mesh]
    edge_case(env, M, ordered(env, count(M), o), p)


def edge_case(env, M, v, p):
    F = faces(env, M, v, [p] + [(5 * p + i) % 6 for i in range(len(M) - 1)])
    A = fmat(env, F)
    keep = Kept(env, faces=A)
    r, x = env.attempt(env.code.tri.map_face_2_edge, A)
    keep.check()
    if env.check('returns', x is None):
        judge(env, F, r)


@harness('C24', product(flat=[0, 1]))
def one_face(env, flat):
    v = labels(env, 3)
    A = env.intarr(v) if flat else env.intarr([v])
    r, x = env.attempt(env.code.tri.map_face_2_edge, A)
    if env.check('returns', x is None):
        judge(env, [v], r)


@harness('C24', product(sh=[(2, 2), (2, 4), (3, 2), (2,), (4,), (6,)]))
def rejected(env, sh):
    sh = tuple(sh)
    n = sh[0] * (sh[1] if len(sh) > 1 else 1)
    A = env.np.array(range(n)).reshape(sh)
    env.must_raise('three vertices for each face', env.code.tri.map_face_2_edge, A)
    env.must_raise('three vertices for each face', env.code.tri.get_face_edge_info, A)


@harness('C24', product(mesh=['one'], p=[0, 3, 4], o=[0, 3]) + product(mesh=['edge', 'twin'], p=[0, 3], o=[0, 9]),
         thorough=product(mesh=['one'], p=range(6), o=range(6)) + product(mesh=['edge', 'twin', 'point'], p=[0, 1, 3, 5], o=[0, 4, 9, 13, 22]))
def member(env, mesh, p, o):
    """is_face: exactly the faces with the same three vertices"""
    M = MESH[mesh]
    v = ordered(env, count(M), o)
    F = faces(env, M, v, [p] + [(5 * p + i) % 6 for i in range(len(M) - 1)])
    if len(M) == 1:
        w = labels(env, 3, 'w', 2)
    else:
        w = labels(env, 2, 'w', 2) + [v[1]]
        env.assume(env.and_(*[env.or_(x >= v[1] + 1, v[1] >= x + 1) for x in w[:2]]))
    related(env, v, w[:2] if len(M) > 1 else w)
    member_case(env, F, [w])


@harness('C24', product(mesh=['fan', 'book', 'strip', 'tet'], p=[0, 2, 3, 5], o=[0, 11, 50]))
def members(env, mesh, p, o):
    """several queries: the faces themselves and faces made of their edges"""
    M = MESH[mesh]
    v = ordered(env, count(M), o)
    F = faces(env, M, v, [p] + [(5 * p + i) % 6 for i in range(len(M) - 1)])
    k = count(M)
    G = [[v[i] for i in c] for c in itertools.combinations(range(k), 3)]
    G = [[g[i] for i in PERM[(p + n) % 6]] for n, g in enumerate(G)]
    member_case(env, F, G + G[:1] + [[v[0], v[1], v[2] + 1000]])


def member_case(env, F, G):
    A, B = fmat(env, F), fmat(env, G)
    keep = Kept(env, faces=A, query=B)
    r, x = env.attempt(env.code.tri.is_face, A, B)
    keep.check()
    if env.check('returns', x is None) and env.check('one answer for each', env.shape(r) == (len(G),)):
        for g, y in zip(G, env.flat(r)):
            want = env.or_(*[env.and_(*[env.or_(*[a == b for b in f]) for a in g]) for f in F])
            env.check('member', env.iff(bool(y), want))


def triangulation(env, k, o, kind):
    """vertices whose first coordinates are more than twice the tolerance apart, given in the order number o"""
    tol = env.real('tol', env.frac(1, 100), env.frac(1, 4), 0.1)
    xs, x = [], env.real('x', -2, 2, -1)
    for i in range(k):
        xs.append(x)
        x = x + 2 * tol + env.real('g%d' % i, env.frac(1, 50), 2, 0.5 + i)
    F = env.const
    y = env.vec('y', k, -2, 2) if kind == 'free' else [F(1, 2), F(-3, 4), F(1, 2), F(5, 4)][:k]
    z = [F(0), F(-1), F(3, 2), F(1, 4)][:k]
    V = [[xs[i], y[i], z[i]] for i in ORDERS[k][o % len(ORDERS[k])]]
    return tol, V


SOLID = {3: [[0, 1, 2]], 4: [[0, 1, 2], [1, 3, 2], [0, 3, 1]]}


def renumbered(V, F, k, q):
    """the same triangulation with other numbers, faces in another order"""
    p = ORDERS[k][q % len(ORDERS[k])]
    V2 = [V[i] for i in p]
    inv = [p.index(i) for i in range(k)]
    F2 = [[inv[f[i]] for i in PERM[(q + n) % 6]] for n, f in enumerate(F)]
    return V2, F2[q % len(F2):] + F2[:q % len(F2)]


def tri_case(env, a, fa, b, fb, tol, want):
    A, B = env.arr(a), env.arr(b)
    fA, fB = [env.lay(env.np.array(f)) for f in (fa, fb)]
    keep = Kept(env, v1=A, f1=fA, v2=B, f2=fB)
    for args in ((A, fA, B, fB), (B, fB, A, fA)):
        r, x = env.attempt(env.code.tri.is_tri_equal, *(args + (tol,)))
        if env.check('returns', x is None):
            env.check('a verdict and a report', len(r) == 2 and isinstance(r[1], str))
            env.check('verdict', bool(r[0]) == want)
            env.check('report when different', (r[1] == '') == want)
    keep.check()


@harness('C24', product(k=[3], o=[0, 4], q=[0, 3], what=['same', 'moved'], kind=['free']) +
         product(k=[4], o=[0, 17], q=[0, 5, 23], what=['same', 'near', 'moved', 'face', 'count', 'vertex'], kind=['const']),
         thorough=product(k=[3], o=range(6), q=range(6), what=['same', 'near', 'moved'], kind=['free']) +
         product(k=[4], o=range(0, 24, 2), q=range(24), what=['same', 'near', 'moved', 'face', 'count', 'vertex'], kind=['const']))
def tri_equal(env, k, o, q, what, kind):
    tol, V = triangulation(env, k, o, kind)
    F = SOLID[k]
    W, G = renumbered(V, F, k, q)
    if what == 'near':
        d = env.real('d', -1, 1, 0.7)
        e = env.real('e', -1, 1, -0.6)
        W = [list(r) for r in W]
        for c in range(3):
            W[0][c] = W[0][c] + d * tol / 2
            W[k - 1][c] = W[k - 1][c] + e * tol / 2
    elif what == 'moved':
        s = env.real('s', env.frac(1, 100), 1, 0.3)
        W = [list(r) for r in W]
        j = q % k
        W[j][1] = W[j][1] + (tol + s if o % 2 else -tol - s)
    elif what == 'face':
        have = [sorted(f) for f in G]
        other = [list(c) for c in itertools.combinations(range(k), 3) if list(c) not in have][0]
        G = [other if n == q % len(G) else f for n, f in enumerate(G)]
    elif what == 'count':
        G = G[:-1]
    elif what == 'vertex':
        W = W + [[env.const(9), env.const(9), env.const(9)]]
    tri_case(env, V, F, W, G, tol, what in ('same', 'near'))
