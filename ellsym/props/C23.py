"""C23 refinement of triangulations, circles, spheres, tubes"""
import itertools

from ..harness import harness, product
from .util import Kept
from .C24 import judge as judge_maps, PERM, COLS

MODULES = ['tri', 'geom', 'gen']
BOUNDS = ('refinement of 1-4 faces over 3-6 vertices with symbolic coordinates (one free coordinate per vertex in meshes of several faces, '
          'two or three for a single face) for a symbolic edge length limit, 1-2 steps and up to termination; circle partitions with up to 7 '
          'points over a symbolic angle range; the sphere and tube functions take only counts and are evaluated for listed counts '
          '(their outputs are constants, no free input)')

MESH = {'one': [[0, 1, 2]], 'edge': [[0, 1, 2], [1, 3, 2]], 'edge2': [[0, 1, 2], [1, 2, 3]], 'sep': [[0, 1, 2], [3, 4, 5]],
        'point': [[0, 1, 2], [2, 3, 4]], 'fan': [[0, 1, 2], [0, 2, 3], [0, 3, 4]], 'book': [[0, 1, 2], [0, 1, 3], [1, 0, 4]],
        'tet': [[0, 1, 2], [0, 3, 1], [1, 3, 2], [0, 2, 3]]}


def count(M):
    return max(max(f) for f in M) + 1


def same(env, x, y):
    d = x - y
    if env.symbolic:
        from ..core import S
        return S(d).r.is_zero()
    return abs(float(d)) < 1e-9


def same_row(env, x, y):
    return len(x) == len(y) and all(same(env, a, b) for a, b in zip(x, y))


def points(env, k, kind):
    """vertices of the mesh; kind is the set of free coordinates"""
    F = env.const
    if kind == 'line':            # on a line of a general direction: lengths are distances along it
        u = [F(2, 3), F(-1, 3), F(2, 3)]
        p = [F(1, 4), F(1), F(-1, 2)]
        t = env.vec('t', k, -2, 2, [[0., 1.5, -0.7, 0.6, -1.6, 1.1][i] for i in range(k)])
        for i in range(k):
            for j in range(i):
                env.assume(env.or_(t[i] - t[j] >= env.frac(1, 16), t[j] - t[i] >= env.frac(1, 16)))
        return [[p[c] + t[i] * u[c] for c in range(3)] for i in range(k)]
    base = [[0, 0, 0], [2, 0, 0], [0, 1, 0], [2, 2, 0], [1, 3, 0], [-1, 2, 0]][:k]
    if kind == 'plane':           # one vertex free in a plane
        a, b = env.real('a', -2, 2, 0.8), env.real('b', -2, 2, 1.3)
        return [[F(x), F(y)] for x, y, _ in base[:k - 1]] + [[a, b]]
    if kind == 'space':           # one vertex free
        a, b, c = env.real('a', -2, 2, 0.8), env.real('b', -2, 2, 1.3), env.real('c', -1, 1, 0.4)
        return [[F(x), F(y), F(z)] for x, y, z in base[:k - 1]] + [[a, b, c]]
    # 'size': a fixed shape with few edge lengths, of any size
    h = env.real('h', env.frac(1, 4), 2, 0.9)
    pts = [[0, 0, 0], [3, 0, 0], [0, 4, 0], [0, 0, 4], [6, 0, 4], [3, 8, 0]][:k]
    B = [[F(2, 9), F(1, 9), F(2, 9)], [F(-2, 9), F(2, 9), F(1, 9)], [F(-1, 9), F(-2, 9), F(2, 9)]]
    return [[h * env.dot(p, [b[c] for b in B]) for c in range(3)] for p in pts]


def edge_of(f, j):
    a, b = COLS[j]
    return frozenset((f[a], f[b]))


def rot(f):
    i = f.index(min(f, key=repr))
    return tuple(f[i:] + f[:i])


class Mesh(object):
    """reference refinement over named vertices"""

    def __init__(self, env, V, F, adjust):
        self.env = env
        self.P = {i: p for i, p in enumerate(V)}
        self.F = [list(f) for f in F]
        self.flat = [False] * len(F)      # zero-area faces that close a one-sided split
        self.adjust = adjust
        self.step = 0
        self.stats = [(len(V), len(self.edges()), len(F))]
        self.shrunk = []
        self.longest = []
        self.new_rows = []

    def edges(self):
        return set(edge_of(f, j) for f in self.F for j in range(3))

    def length(self, e):
        a, b = [self.P[i] for i in e]
        d = self.env.sub(a, b)
        return self.env.sqrt(self.env.dot(d, d))

    def refine(self, lim):
        env = self.env
        E = sorted(self.edges(), key=repr)
        long_ = set(e for e in E if env.fork(self.length(e) > lim))
        if not long_:
            return False
        self.step += 1
        self.longest.append([self.length(e) for e in E])
        split = [any(edge_of(f, j) in long_ for j in range(3)) for f in self.F]
        cut = set(edge_of(f, j) for f, s in zip(self.F, split) if s for j in range(3))
        kept = set(edge_of(f, j) for f, s in zip(self.F, split) if not s for j in range(3))
        mid = {}
        for e in sorted(cut, key=repr):
            a, b = [self.P[i] for i in e]
            m = ('m', self.step) + tuple(sorted(e, key=repr))
            mid[e] = m
            self.P[m] = self.adjust([(x + y) / 2 for x, y in zip(a, b)])
        self.shrunk.append(len(cut))
        F, fl = [], []
        for f, s, z in zip(self.F, split, self.flat):
            if not s:
                F.append(f)
                fl.append(z)
                continue
            m12, m23, m13 = [mid[edge_of(f, j)] for j in range(3)]
            F += [[f[0], m12, m13], [f[1], m23, m12], [f[2], m13, m23], [m12, m23, m13]]
            fl += [z] * 4
        for e in cut & kept:
            a, b = sorted(e, key=repr)
            F.append([a, mid[e], b])
            fl.append(True)
        self.F, self.flat = F, fl
        self.stats.append((len(self.P), len(self.edges()), len(F)))
        return True


def judge(env, V, R, r, steps_done, lim, full, maps=True):
    """r: result of the refinement; R: reference"""
    v, f = r[0], r[1]
    k = len(V)
    new = [R.P[n] for n in R.P if not isinstance(n, int)]
    if not env.symbolic:          # vertices are told apart by their coordinates
        env.assume(not any(same_row(env, p, q) for i, p in enumerate(new) for q in new[:i]))
    if not env.check('number of vertices', env.shape(v) == (len(R.P), len(V[0]))):
        return
    rows = env.rows(v)
    for i in range(k):
        env.eqs('given vertices first', rows[i], V[i])
    names, left = dict(enumerate(range(k))), [n for n in R.P if not isinstance(n, int)]
    for i in range(k, len(rows)):
        n = next((n for n in left if same_row(env, rows[i], R.P[n])), None)
        if not env.check('new vertices are middles of split edges, each once', n is not None):
            return
        left.remove(n)
        names[i] = n
    if not env.check('number of faces', env.shape(f) == (len(R.F), 3)):
        return
    FF = [[int(x) for x in g] for g in env.rows(f)]
    if not env.check('faces refer to vertices', all(0 <= x < len(rows) for g in FF for x in g)):
        return
    got = sorted((rot([names[x] for x in g]) for g in FF), key=repr)
    want = [rot(g) for g in R.F]
    thin = set(frozenset(g) for g, z in zip(R.F, R.flat) if z)
    got = sorted((tuple(sorted(g, key=repr)) if frozenset(g) in thin else g for g in got), key=repr)
    want = sorted((tuple(sorted(g, key=repr)) if frozenset(g) in thin else g for g in want), key=repr)
    env.check('faces kept, or split in four, or closing a split', got == want)
    if not full:
        return
    st, e, f2e, d = r[2:]
    env.check('steps', int(st['n_steps']) == steps_done)
    for nm, j in (('n_vert_vec', 0), ('n_edge_vec', 1), ('n_face_vec', 2)):
        env.check('statistics', [int(x) for x in env.flat(st[nm])] == [s[j] for s in R.stats])
    env.check('split edges counted', [int(x) for x in env.flat(st['n_edges_to_shrink_vec'])] == R.shrunk)
    ml = env.flat(st['max_edge_length_vec'])
    if env.check('longest edges listed', len(ml) == len(R.longest)):
        for x, ls in zip(ml, R.longest):
            env.eq('longest edge', x, env.max(*ls))
    judge_maps(env, FF, (e, f2e, d), ordered=False)


ADJ = {'none': None, 'shift': [1, -2, 4], 'half': 'half'}


def adjuster(env, adj, d):
    """(reference on one row, function handed to the code)"""
    if adj == 'none':
        return (lambda p: p), None
    if adj == 'half':
        return (lambda p: [x * 3 / 2 for x in p]), (lambda m: m * 1.5)
    s = [env.const(x, 8) for x in (1, -2, 4)[:d]]
    return (lambda p: env.add(p, s)), (lambda m: m + env.arr([list(map(lambda x: x, s))]))


def run(env, M, V, F, lim, steps, adj, full, flat=False):
    ref, fun = adjuster(env, adj, len(V[0]))
    A = env.arr(V)
    B = env.np.array(F[0] if flat else F)
    B = env.lay(B)
    keep = Kept(env, vertices=A, faces=B)
    args = [A, B, lim]
    kw = {}
    if steps is not None:
        kw['n_max_steps'] = steps
    if fun is not None:
        kw['f_vert_adjust_func'] = fun
    if full:
        kw['is_stat_collected'] = True
    r, x = env.attempt(env.code.tri.shrink_face_tri, *args, **kw)
    keep.check()
    if x is not None and env.symbolic:
        import traceback, os; os.environ.get('ELLSYM_TB') and traceback.print_exception(type(x), x, x.__traceback__)
    if not env.check('returns', x is None) or not env.check('results', isinstance(r, tuple) and len(r) == (6 if full else 2)):
        return
    R = Mesh(env, V, F, ref)
    n = 0
    while steps is None or n < steps:
        if not R.refine(lim):
            break
        n += 1
    if flat and n == 0:
        # nothing to refine: the faces come back
        env.check('faces', [int(x) for x in env.flat(r[1])] == list(F[0]))
        return
    judge(env, V, R, r, n, lim, full)
    if steps is None:
        rows = env.rows(r[0])
        for g in env.rows(r[1]):
            for a, b in COLS:
                d = env.sub(rows[int(g[a])], rows[int(g[b])])
                env.le('no edge longer than the limit', env.dot(d, d), lim * lim)


def faces(M, p):
    return [[f[c] for c in PERM[(p + 5 * n * p) % 6]] for n, f in enumerate(M)]


@harness('C23', product(mesh=['one'], p=range(6), kind=['line'], steps=[1], adj=['none']) + product(mesh=['one'], p=[2, 3], kind=['line'], steps=[2], adj=['none']) +
         product(mesh=['edge'], p=[5], kind=['line'], steps=[1], adj=['none']) +
         product(mesh=['edge2'], p=[2], kind=['line'], steps=[1], adj=['none']) +
                  product(mesh=['one'], p=[1], kind=['plane', 'space'], steps=[1], adj=['none', 'shift']) +
         product(mesh=['fan', 'book', 'tet', 'edge', 'sep', 'point'], p=[0, 4], kind=['size'], steps=[1, 2], adj=['none']) +
         product(mesh=['edge', 'fan', 'tet', 'one'], p=[0, 3], kind=['size'], steps=[1], adj=['shift', 'half']),
         thorough=product(mesh=['one', 'edge', 'edge2', 'sep', 'point'], p=range(6), kind=['line'], steps=[1, 2], adj=['none']) +
         product(mesh=['fan', 'book', 'tet'], p=[0, 1], kind=['line'], steps=[1], adj=['none']) +
         product(mesh=['one', 'edge'], p=range(6), kind=['plane', 'space'], steps=[1], adj=['none', 'shift', 'half']) +
         product(mesh=['fan', 'book', 'tet', 'edge', 'sep', 'point'], p=range(6), kind=['size'], steps=[1, 2, 3], adj=['none']) +
         product(mesh=['edge', 'fan', 'tet', 'one', 'book'], p=range(6), kind=['size'], steps=[1], adj=['shift', 'half']))
def refine(env, mesh, p, kind, steps, adj):
    """given numbers of steps, statistics and maps"""
    M = MESH[mesh]
    V = points(env, count(M), kind)
    lim = env.real('lim', env.frac(1, 10) if adj == 'none' else env.frac(1, 2), 5, 1.0)
    run(env, M, V, faces(M, p), lim, steps, adj, True)


@harness('C23', product(mesh=['one'], kind=['line'], adj=['none'], flat=[0, 1], full=[0, 1]) +
         product(mesh=['edge', 'tet'], kind=['size'], adj=['none'], flat=[0], full=[0, 1]) + product(mesh=['book'], kind=['size'], adj=['none'], flat=[0], full=[0]),
         thorough=product(mesh=['one', 'edge', 'edge2'], kind=['line'], adj=['none'], flat=[0], full=[0, 1]) +
         product(mesh=['edge', 'tet', 'fan', 'book', 'sep', 'point'], kind=['size'], adj=['none'], flat=[0], full=[0, 1]))
def refine_all(env, mesh, kind, adj, flat, full):
    """until no edge is longer than the limit"""
    M = MESH[mesh]
    V = points(env, count(M), kind)
    lim = env.real('lim', env.frac(11, 10) if kind == 'line' else env.frac(5, 4), 5, 2.0)
    run(env, M, V, faces(M, 1), lim, None, adj, bool(full), bool(flat))


@harness('C23', product(mesh=['one', 'edge'], steps=[0]))
def no_steps(env, mesh, steps):
    M = MESH[mesh]
    V = points(env, count(M), 'line')
    run(env, M, V, faces(M, 0), env.real('lim', env.frac(1, 10), 5, 1.0), 0, 'none', True)


@harness('C23', product(n=[1, 2, 3, 5, 7], rng=['default', 'free'], apart=[0, 1]))
def circle(env, n, rng, apart):
    """equally spaced directions of the range, its end excluded"""
    pi2 = 2 * env.np.pi
    if rng == 'free':
        a = env.real('a', -7, 7, 0.5)
        b = env.real('b', -7, 7, 2.5)
        kw = {'angle_range_vec': env.arr([a, b])}
    else:
        a, b, kw = 0., pi2, {}
    r = env.code.geom.circle_part(n, bool(apart), **kw) if apart else env.code.geom.circle_part(n, **kw)
    if apart:
        env.check('two columns', isinstance(r, tuple) and env.shape(r[0]) == (n, 1) and env.shape(r[1]) == (n, 1))
        xs, ys = env.flat(r[0]), env.flat(r[1])
    else:
        if not env.check('rows', env.shape(r) == (n, 2)):
            return
        xs, ys = [list(c) for c in zip(*env.rows(r))]
    cos, sin = env.np.cos, env.np.sin
    for i in range(n):
        t = a + (b - a) * env.frac(i, n) if rng == 'free' else float(pi2) * i / n
        t = env.arr([t])
        env.eq('cosine', xs[i], env.flat(cos(t))[0])
        env.eq('sine', ys[i], env.flat(sin(t))[0])
        env.eq('unit', xs[i] * xs[i] + ys[i] * ys[i], 1)


@harness('C23', product(n_e=[1, 2, 3, 5], n_t=[2, 3, 4, 6]))
def tube(env, n_e, n_t):
    """constant: two triangles for each cell of a closed strip, indices of existing vertices"""
    f = env.code.tri.ell_tube_2_tri(n_e, n_t)
    if not env.check('shape', env.shape(f) == (2 * n_e * (n_t - 1), 3)):
        return
    got = sorted(sorted(int(x) for x in r) for r in env.rows(f))
    want = []
    for i in range(n_t - 1):
        for j in range(n_e):
            a, b = i * n_e + j, i * n_e + (j + 1) % n_e
            c, d = a + n_e, b + n_e
            want += [sorted([a, b, d]), sorted([d, c, a])]
    env.check('triangles', got == sorted(want))
    env.check('whole numbers', all(float(x) == int(x) for x in env.flat(f)))


@harness('C23', product(n=[1, 2, 3, 5], m=[1, 2, 4]))
def tube_rings(env, n, m):
    """constant: each ring of vertices, closed"""
    f = env.code.tri.ell_tube_discr_tri(n, m)
    if env.check('shape', env.shape(f) == (m, n + 1)):
        for i, r in enumerate(env.rows(f)):
            env.check('ring', [int(x) for x in r] == [i * n + j for j in range(n)] + [i * n])


@harness('C23', product(depth=[0, 1, 2]))
def sphere(env, depth):
    """constant: triangulated unit sphere"""
    v, f = env.code.tri.sphere_tri(depth)
    nv, nf = 10 * 4 ** depth + 2, 20 * 4 ** depth
    if not env.check('sizes', env.shape(v) == (nv, 3) and env.shape(f) == (nf, 3)):
        return
    V = env.rows(v)
    for p in V:
        env.eq('unit', env.dot(p, p), 1)
    F = [[int(x) for x in r] for r in env.rows(f)]
    env.check('existing vertices', all(0 <= x < nv for r in F for x in r))
    env.check('distinct vertices', len(set(tuple(round(float(x), 6) for x in p) for p in V)) == nv)
    E = {}
    for r in F:
        for j in range(3):
            E.setdefault((r[j], r[(j + 1) % 3]), []).append(r)
    env.check('each edge once in each direction', all(len(c) == 1 and (b, a) in E for (a, b), c in E.items()))


@harness('C23', product(dim=[2, 3], n=[1, 5, 12, 42, 43], grid=[0, 1]))
def sphere_ext(env, dim, n, grid):
    """constant: points and faces of the unit circle or sphere"""
    if dim == 2 and not grid:
        v, f = env.code.tri.sphere_tri_ext(2, n), None
    else:
        v, f = env.code.tri.sphere_tri_ext(dim, n, bool(grid)) if grid else env.code.tri.sphere_tri_ext(dim, n)
    k = n
    if dim == 3:
        k = 42
        while k < n:
            k = 4 * k - 6
    if not env.check('count', env.shape(v) == (k, dim)):
        return
    for p in env.rows(v):
        env.eq('unit', env.dot(p, p), 1)
        env.check('no exact zero', all(x != 0 for x in p))
    if f is not None:
        F = [[int(x) for x in r] for r in env.rows(f)]
        env.check('existing vertices', all(0 <= x < k for r in F for x in r))
        if dim == 2:
            env.check('closed line', F == [[i, (i + 1) % k] for i in range(k)])
        else:
            env.check('faces', env.shape(f) == (2 * k - 4, 3))


@harness('C23', product(n=[1, 2, 3, 4, 20, 21, 22, 81, 82]))
def sphere_directions(env, n):
    """constant: n unit directions of one half of the sphere"""
    r = env.code.geom.sphere_part(n)
    if env.check('count', env.shape(r) == (n, 3)):
        R = env.rows(r)
        for p in R:
            env.eq('unit', env.dot(p, p), 1)
        for i, p in enumerate(R):
            for q in R[:i]:
                env.check('no opposite directions', env.dot(p, q) > -1 + 1e-9)


@harness('C23', product(what=['depth', 'fraction', 'part', 'ext', 'ext0']))
def bad_counts(env, what):
    c = env.code
    x = env.real('x', -4, env.frac(-1, 10), -1.)
    if what == 'depth':
        env.must_raise('depth', c.tri.sphere_tri, x)
    elif what == 'fraction':
        env.must_raise('depth', c.tri.sphere_tri, 0.5)
        env.must_raise('number', c.tri.sphere_tri_ext, 2, 2.5, True)
    elif what == 'part':
        env.must_raise('number', c.geom.sphere_part, x)
        env.must_raise('number', c.geom.sphere_part, 0)
    elif what == 'ext':
        env.must_raise('number', c.tri.sphere_tri_ext, 3, x, True)
    else:
        env.must_raise('number', c.tri.sphere_tri_ext, 2, 0)
