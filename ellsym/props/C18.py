"""C18 orthogonal translations"""
from ..harness import harness, product
from .util import Kept

MODULES = ['la']
BOUNDS = ('dimensions 1-3; source and target with free components (or one free and one a free multiple of a fixed rational vector, '
          'or both such), flat or column, parallel and antiparallel pairs included, non-parallel pairs at an angle with sine above '
          '1/1000; matrices up to 3x3 for the orthogonal completion, trace maximisation against all rotations and reflections '
          'about the source for fixed rational matrices, direction maximisation for free vectors')

FIX = {1: [[1], [-1]], 2: [[(3, 5), (4, 5)], [0, -1], [(-4, 5), (3, 5)], [-1, 0], [1, 0]],
       3: [[(2, 3), (1, 3), (-2, 3)], [0, 1, 0], [(3, 5), 0, (4, 5)], [0, 0, -1], [-1, 0, 0], [1, 0, 0]]}


def fixed(env, n, i):
    return [env.const(*x) if isinstance(x, tuple) else env.const(x, 1) for x in FIX[n][i % len(FIX[n])]]


def vector(env, name, n, kind):
    """free vector or free multiple of a fixed unit vector, away from zero"""
    if kind == 'free':
        l = env.vec(name, n, -2, 2)
        env.assume(env.dot(l, l) >= env.const(1, 4))
        return l
    k = env.real(name + 'k', env.frac(1, 2), 2, 1.25)
    return [k * x for x in fixed(env, n, kind)]


def shaped(env, v, sh):
    return env.arr(v) if sh == 'flat' else env.arr([[x] for x in v])


def norm(env, v):
    return env.sqrt(env.dot(v, v))


def judge(env, O, s, d, n):
    if not env.check('shape', env.shape(O) == (n, n)):
        return None
    R = env.rows(O)
    env.eqs('orthogonal', env.mm(R, env.T(R)), env.eye(n))
    # |s| d = |d| O s
    ns, nd = norm(env, s), norm(env, d)
    Os = env.mv(R, s)
    env.eqs('translates', [nd * x for x in Os], [ns * x for x in d])
    return R


def apart(env, s, d):
    """not within the tolerance band around parallel: squared sine above 1e-6"""
    c, n = env.dot(s, d), env.dot(s, s) * env.dot(d, d)
    if env.is_real(c):
        env.assume(n - c * c >= n * env.frac(1, 1000000))
        q = norm(env, s) * norm(env, d)
        k = env.const(1, 1) - env.frac(1, 10000000)
        w = env.sub([x / norm(env, s) for x in s], [x / norm(env, d) for x in d])
        env.assume(env.and_(c <= k * q, c >= -k * q))       # these follow from the above
        x = env.dot([y / norm(env, s) for y in s], [y / norm(env, d) for y in d])
        env.lemma(1 - x * x - env.frac(1, 10000000), '>')
        env.lemma(env.dot(w, w) - env.frac(1, 10000000), '>')


def fun(env, f):
    la = env.code.la
    return {'plain': la.orth_transl, 'haus': la.orth_transl_haus, 'qr': la.orth_transl_qr}[f]


def far_grid(deep):
    g = product(f=['plain', 'haus', 'qr'], n=[2], sk=['free', 0, 1], dk=['free', 0, 2], sh=['flat', 'col', 'mixed', 'mixed2'])
    g += product(f=['plain', 'haus', 'qr'], n=[3], sk=[0, 1, 2, 5] if deep else [0, 5], dk=['free', 0, 1, 2, 3], sh=['flat'] + (['col', 'mixed'] if deep else []))
    g += product(f=['plain', 'haus', 'qr'], n=[3], sk=['free'], dk=[0, 1, 5], sh=['col'])
    g += product(f=['haus'], n=[3], sk=['free'], dk=['free'], sh=['flat'])
    if deep:
        g += product(f=['plain', 'qr'], n=[3], sk=['free'], dk=['free'], sh=['flat', 'col'])
    return [x for x in g if not (x['sk'] == x['dk'] != 'free') and not (x['f'] == 'qr' and x['sh'] not in ('flat', 'col')) and
            (deep or not (x['sk'] == x['dk'] == 'free' and (x['sh'] != 'flat' or x['f'] == 'qr')) and
             not (x['f'] == 'qr' and x['n'] == 3 and 'free' in (x['sk'], x['dk'])))]


@harness('C18', far_grid(False), thorough=far_grid(True))
def far(env, f, n, sk, dk, sh):
    """pairs that are not nearly parallel"""
    s, d = vector(env, 's', n, sk), vector(env, 'd', n, dk)
    apart(env, s, d)
    S = shaped(env, s, 'flat' if sh in ('flat', 'mixed') else 'col')
    D = shaped(env, d, 'flat' if sh in ('flat', 'mixed2') else 'col')
    keep = Kept(env, s=S, d=D)
    O = fun(env, f)(S, D)
    keep.check()
    judge(env, O, s, d, n)


@harness('C18', product(f=['plain', 'haus', 'qr'], n=[1, 2, 3], sk=['free', 0, 3], sg=[1, -1], sh=['flat', 'col']))
def parallel(env, f, n, sk, sg, sh):
    """target a positive or negative multiple of the source"""
    if f == 'qr' and sk == 'free' and n == 3 and sh == 'col':
        return
    s = vector(env, 's', n, sk)
    m = env.real('m', env.frac(1, 3), 3, 0.75) * sg
    d = [m * x for x in s]
    O = fun(env, f)(shaped(env, s, sh), shaped(env, d, sh))
    judge(env, O, s, d, n)


@harness('C18', product(n=[1, 2, 3], nv=[1, 2], ne=[1, 2], kinds=[0, 1]))
def many(env, n, nv, ne, kinds):
    """one translation per vector and target, in order"""
    s = [vector(env, 's%d' % v, n, [0, 2][v] if n > 1 else 'free') for v in range(nv)]
    d = [[vector(env, 'd%d_%d' % (v, e), n, ([1, 3], [0, 4])[v][e] if kinds == 0 or n == 3 or v != e else 'free') for e in range(ne)] for v in range(nv)]
    for v in range(nv):
        for e in range(ne):
            apart(env, s[v], d[v][e]) if n > 1 and kinds == 1 and v == e else None
    S = env.arr([[s[v][i] for v in range(nv)] for i in range(n)])
    if ne == 1 and kinds == 1:
        D = env.arr([[d[v][0][i] for v in range(nv)] for i in range(n)])
    else:
        D = env.arr([[[d[v][e][i] for e in range(ne)] for v in range(nv)] for i in range(n)])
    keep = Kept(env, s=S, d=D)
    O = env.code.la.ml_orth_transl(S, D)
    keep.check()
    if env.check('shape', env.shape(O) == (n, n, ne, nv)):
        x = env.flat(O)
        for v in range(nv):
            for e in range(ne):
                R = [[x[((i * n + j) * ne + e) * nv + v] for j in range(n)] for i in range(n)]
                judge(env, env.arr(R), s[v], d[v][e], n)


@harness('C18', product(n=[1, 2], sk=[0, 1, 2], dk=[0, 1, 3], sh=['flat', 'col'], free=[0, 1]) + product(n=[3], sk=[0, 1], dk=[0, 3], sh=['flat', 'col'], free=[0]) ,
         thorough=product(n=[1, 2, 3], sk=[0, 1, 2], dk=[0, 1, 3], sh=['flat', 'col'], free=[0, 1]))
def max_dir(env, n, sk, dk, sh, free):
    """translation that carries one further vector as close to another as possible"""
    if free and (n != 2 or sh == 'col'):
        return
    s, d = vector(env, 's', n, 'free' if free and sk < 2 else sk), vector(env, 'd', n, dk)
    if free and sk < 2:
        apart(env, s, d)
        apart(env, s, [env.const(1, 1)] + [env.const(0, 1)] * (n - 1))
    sm, dm = (env.vec('sm', n, -2, 2), env.vec('dm', n, -2, 2)) if not free else ([env.const(1, 1), env.const(2, 1)], [env.const(-1, 1), env.const(1, 1)])
    args = [shaped(env, x, sh) for x in (s, d, sm, dm)]
    keep = Kept(env, a=args[0], b=args[1], c=args[2], d=args[3])
    O = env.code.la.orth_transl_max_dir(*args)
    keep.check()
    R = judge(env, O, s, d, n)
    if R is None or n == 1:
        return
    ns, nd = norm(env, s), norm(env, d)
    su, du = [x / ns for x in s], [x / nd for x in d]
    p, q = env.dot(su, sm), env.dot(du, dm)
    got = env.dot(dm, env.mv(R, sm)) - p * q
    env.eq('largest scalar product', got * got, (env.dot(sm, sm) - p * p) * (env.dot(dm, dm) - q * q))
    env.le('largest scalar product', 0, got)


MATS = {2: [[[1, 0], [0, 1]], [[2, -1], [3, 1]], [[-1, 0], [0, -2]]],
        3: [[[1, 0, 0], [0, 1, 0], [0, 0, 1]], [[2, 1, 0], [1, 3, 0], [0, 0, 1]], [[0, 1, 0], [0, 0, -2], [1, 0, 0]]]}


@harness('C18', product(n=[1, 2], sk=[0, 1, 2], dk=[0, 1, 3], mk=[0, 1], sh=['flat', 'col']) + product(n=[3], sk=[0, 1, 2], dk=[0, 3], mk=[0, 1], sh=['flat']),
         thorough=product(n=[1, 2, 3], sk=[0, 1, 2], dk=[0, 1, 3], mk=[0, 1, 2], sh=['flat', 'col']))
def max_trace(env, n, sk, dk, mk, sh):
    """translation of the largest trace of its product with a matrix"""
    if sh == 'col' and (n > 2 or mk > 0):
        return
    s, d = vector(env, 's', n, sk), vector(env, 'd', n, dk)
    if n == 1:
        M = [[env.real('m', -2, 2)]]
    elif n == 2:
        M = env.mat('m', 2, 2, -2, 2) if mk == 0 else [[env.const(x, 1) for x in r] for r in MATS[2][mk]]
    else:
        M = [[env.const(x, 1) for x in r] for r in MATS[3][mk]]
    args = [shaped(env, s, sh), shaped(env, d, sh), env.arr(M)]
    keep = Kept(env, a=args[0], b=args[1], c=args[2])
    O = env.code.la.orth_transl_max_tr(*args)
    keep.check()
    R = judge(env, O, s, d, n)
    if R is None or n == 1:
        return
    # any other translation is O G with G orthogonal and G s = s
    su = fixed(env, n, sk)
    if n == 2:
        w = [[-su[1]], [su[0]]]
        Gs = [[[-1]]]
    else:
        h = {0: [[(1, 3), (2, 3), (2, 3)], [(2, 3), (-2, 3), (1, 3)]], 1: [[1, 0, 0], [0, 0, 1]], 2: [[(-4, 5), 0, (3, 5)], [0, 1, 0]]}[sk]
        h = [[env.const(*x) if isinstance(x, tuple) else env.const(x, 1) for x in v] for v in h]
        w = env.T(h)
        c = env.real('c', -1, 1, 0.6)
        q = env.sqrt(1 - c * c)
        Gs = [[[c, -q], [q, c]], [[c, q], [q, -c]], [[c, q], [-q, c]]]
    for W in Gs:
        G = env.mm(env.mm(w, [[env.const(x, 1) if isinstance(x, int) else x for x in r] for r in W]), env.T(w))
        G = [[G[i][j] + su[i] * su[j] for j in range(n)] for i in range(n)]
        a, b = env.mm(R, M), env.mm(env.mm(R, G), M)
        env.le('largest trace', sum(b[i][i] for i in range(n)), sum(a[i][i] for i in range(n)))


@harness('C18', product(r=[1, 2, 3], c=[1, 2, 3], kind=['free', 'tri', 'fix', 'zero']))
def completion(env, r, c, kind):
    """orthogonal matrix whose first columns span the columns of the matrix, in order, with positive coefficients"""
    if kind == 'free':
        if r * c > 4:
            return
        A = env.mat('a', r, c, -2, 2)
    elif kind == 'tri':
        V = env.basis('q', r, 'fix')
        T = [[env.real('t%d_%d' % (i, j), env.frac(1, 2), 2, 1) if i == j else (env.real('t%d_%d' % (i, j), -2, 2) if i < j else env.const(0, 1))
              for j in range(c)] for i in range(r)]
        A = env.mm(V, T)
    elif kind == 'fix':
        A = [[env.const([3, 1, -2, 0, 4, 1, 2, 2, -1][3 * i + j], 1) for j in range(c)] for i in range(r)]
    else:
        A = [[env.const(0, 1)] * c for i in range(r)]
    MA = env.arr(A)
    keep = Kept(env, a=MA)
    Q = env.code.la.mat_orth(MA)
    C = env.code.la.math_orth_col(MA)
    keep.check()
    if env.check('shape', env.shape(Q) == (r, r)):
        Q = env.rows(Q)
        env.eqs('orthogonal', env.mm(env.T(Q), Q), env.eye(r))
        X = env.mm(env.T(Q), A)
        for i in range(r):
            for j in range(c):
                if i > j:
                    env.eq('spans the first columns', X[i][j], 0)
                elif i == j:
                    env.le('orientation', 0, X[i][j])
        if env.check('columns: shape', env.shape(C) == (r, min(r, c))):
            env.eqs('columns', C, [q[:c] for q in Q])


@harness('C18', product(f=['plain', 'qr'], n=[1, 2, 3], which=['s', 'd'], sh=['flat', 'col']))
def zero(env, f, n, which, sh):
    """zero vectors have no direction"""
    z = shaped(env, [env.const(0, 1)] * n, sh)
    v = shaped(env, vector(env, 'v', n, 'free'), sh)
    env.must_raise('zero vector', fun(env, f), *((z, v) if which == 's' else (v, z)))
