"""C19 arrays of matrices are operated on slice by slice"""
from ..harness import harness, product
from .util import slices, stack, same_slices, unstack, col, Kept

MODULES = ['gen']
BOUNDS = ('matrix arrays with sides 1-3 and 1-2 time slices (1-3 in the thorough tier), entries in [-2,2]; inverses of '
          'general matrices up to 2x2 and of symmetric ones up to 3x3 given by spectrum and eigenbasis')

SH = product(sh=[(1, 1), (2, 2), (2, 3), (3, 1)], T=[1, 2])
SHT = product(sh=[(i, j) for i in (1, 2, 3) for j in (1, 2, 3)], T=[1, 2, 3])
SQ = product(n=[1, 2, 3], T=[1, 2])
SQT = product(n=[1, 2, 3], T=[1, 2, 3])


def maybe2d(env, mats, flat):
    return env.arr(mats[0]) if flat else stack(env, mats)


@harness('C19', product(f=['triu', 'transpose', 'make_symmetric'], n=[1, 2, 3], T=[0, 1, 2]) +
         product(f=['triu', 'transpose'], n=[2], m=[3], T=[0, 2]) +
         product(f=['triu', 'transpose'], n=[3], m=[1], T=[2]))
def simple(env, f, n, T, m=None):
    """triangle, transpose, symmetric part (T = 0: a plain matrix is one slice)"""
    m = m or n
    X = slices(env, 'x', n, m, max(T, 1))
    a = maybe2d(env, X, T == 0)
    k = Kept(env, a=a)
    r = getattr(env.code.gen.MatVector, f)(a)
    exp = []
    for x in X:
        if f == 'triu':
            exp.append([[x[i][j] if j >= i else 0. for j in range(m)] for i in range(n)])
        elif f == 'transpose':
            exp.append(env.T(x))
        else:
            exp.append([[(x[i][j] + x[j][i]) / 2 for j in range(n)] for i in range(n)])
    env.observe('r', r)
    same_slices(env, f, r, exp)
    k.check()
    r[0, 0, 0] = 77.
    k.check()


def spd_slices(env, n, T, rank=None):
    out = []
    for t in range(T):
        out.append(env.spd('s%d' % t, n, ['rot', 'fix', 'id'][t % 3] if n == 2 else ['fix', 'rot', 'id'][t % 3], rank))
    return out


@harness('C19', product(f=['inv', 'pinv'], n=[1, 2], T=[0, 1, 2]))
def inverse_general(env, f, n, T):
    """inverse and pseudo-inverse of invertible matrices"""
    X = slices(env, 'x', n, n, max(T, 1))
    for x in X:
        d = x[0][0] if n == 1 else x[0][0] * x[1][1] - x[0][1] * x[1][0]
        env.assume(env.or_(d >= env.const(1, 4), d <= -env.const(1, 4)))
    a = maybe2d(env, X, T == 0)
    k = Kept(env, a=a)
    r = getattr(env.code.gen.SquareMatVector, f)(a)
    if f == 'inv' and T == 0:
        env.check('matrix stays a matrix', env.shape(r) == (n, n))
        got = [env.rows(r)]
    else:
        got = unstack(env, f, r, n, n, len(X))
    if got:
        for x, g in zip(X, got):
            env.eqs('inverse', env.mm(x, g), env.eye(n))
    k.check()


@harness('C19', product(f=['inv', 'pinv', 'sqrtm_pos'], n=[1, 2, 3], T=[0, 1, 2]) +
         product(f=['sqrtm_pos'], n=[1, 2, 3], T=[1, 2], rank=[0, 1]))
def spectral_ops(env, f, n, T, rank=None):
    """inverse, pseudo-inverse and root of symmetric positive (semi)definite slices"""
    if rank is not None and rank >= n:
        return
    X = spd_slices(env, n, max(T, 1), rank)
    a = maybe2d(env, [x[0] for x in X], T == 0)
    k = Kept(env, a=a)
    r, e = env.attempt(getattr(env.code.gen.SquareMatVector, f), a)
    if rank is not None and not env.symbolic and e is not None:
        return
    env.check('accepted', e is None)
    if e is not None:
        return
    if T == 0 and f != 'pinv':
        env.check('matrix stays a matrix', env.shape(r) == (n, n))
        got = [env.rows(r)]
    else:
        got = unstack(env, f, r, n, n, len(X))
    if got:
        for (x, V, ev), g in zip(X, got):
            d = [y if f == 'sqrtm_pos' else 1 / (y * y) for y in ev]
            env.eqs(f, g, env.from_eig(V, d))
    k.check()


@harness('C19', product(sa=[(2, 2), (2, 3), (1, 2), (3, 1), (1, 1)], q=[1, 2], T=[1, 2], b=['arr', 'mat', 'one'],
                        sparse=[False, True]))
def product2(env, sa, q, T, b, sparse):
    """product of two arrays; a plain matrix (or a single slice) as second operand applies to every slice"""
    p, m = sa
    A = slices(env, 'a', p, m, T)
    B = slices(env, 'b', m, q, T if b == 'arr' else 1)
    aa = stack(env, A)
    ba = env.arr(B[0]) if b == 'mat' else stack(env, B)
    k = Kept(env, a=aa, b=ba)
    r = env.code.gen.MatVector.r_multiply(aa, ba, use_sparse_matrix=sparse)
    same_slices(env, 'product', r, [env.mm(A[t], B[t if b == 'arr' else 0]) for t in range(T)])
    k.check()


@harness('C19', product(sa=[(1, 1), (2, 3)], sb=[(1, 1), (2, 2), (2, 1), (3, 2)], T=[1, 2], sparse=[False, True]))
def product_scalar(env, sa, sb, T, sparse):
    """a 1x1 operand scales the other"""
    if sa != (1, 1) and sb != (1, 1):
        return
    A = slices(env, 'a', sa[0], sa[1], T)
    B = slices(env, 'b', sb[0], sb[1], T)
    r = env.code.gen.MatVector.r_multiply(stack(env, A), stack(env, B), use_sparse_matrix=sparse)
    exp = []
    for x, y in zip(A, B):
        s, o = (x[0][0], y) if sa == (1, 1) else (y[0][0], x)
        exp.append([[s * z for z in row] for row in o])
    same_slices(env, 'scaled', r, exp)


@harness('C19', product(d=[(2, 2, 2, 2), (1, 2, 3, 2), (2, 1, 2, 1)], T=[1, 2], sparse=[False, True]))
def product3(env, d, T, sparse):
    """product of three arrays"""
    A = slices(env, 'a', d[0], d[1], T)
    B = slices(env, 'b', d[1], d[2], T)
    C = slices(env, 'c', d[2], d[3], T)
    r = env.code.gen.MatVector.r_multiply(stack(env, A), stack(env, B), stack(env, C), use_sparse_matrix=sparse)
    same_slices(env, 'product', r, [env.mm(env.mm(A[t], B[t]), C[t]) for t in range(T)])


@harness('C19', product(n=[1, 2], sparse=[False]))
def product_bad(env, n, sparse):
    """different numbers of slices are rejected"""
    A = slices(env, 'a', 2, 2, 3)
    B = slices(env, 'b', 2, 2, 2)
    env.must_raise('slices', env.code.gen.MatVector.r_multiply, stack(env, A), stack(env, B), _tag='wrongInput')
    env.must_raise('vectors', env.code.gen.MatVector.r_multiply_by_vec, stack(env, A), env.np_vec('v', 2, -1, 1),
                   _tag='wrongInput')


@harness('C19', product(sh=[(1, 1), (2, 2), (2, 3), (3, 2)], T=[1, 2, 3], sparse=[False, True, None]))
def by_vec(env, sh, T, sparse):
    """product with one vector per slice"""
    A = slices(env, 'a', sh[0], sh[1], T)
    v = env.mat('v', sh[1], T, -2, 2)
    aa, va = stack(env, A), env.arr(v)
    k = Kept(env, a=aa, v=va)
    args = () if sparse is None else (sparse,)
    r = env.code.gen.MatVector.r_multiply_by_vec(aa, va, *args)
    env.check('shape', env.shape(r) == (sh[0], T))
    exp = env.T([env.mv(A[t], col(v, t)) for t in range(T)])
    env.eqs('product', r, exp)
    k.check()


@harness('C19', product(n=[1, 2, 3], m=[1, 2], T=[1, 2], kind=['mm', 'bm', 'bb', 'm1'], flag=['R', 'L', None]))
def two_sided(env, n, m, T, kind, flag):
    """a'ba (flag R, default) and aba' (flag L)"""
    tb = T if kind[0] == 'b' else 1
    ta = T if kind[1] == 'b' else 1
    if kind in ('mm', 'm1') and T > 1:
        return
    B = slices(env, 'b', n, n, tb)
    A = slices(env, 'a', n, m, ta) if flag != 'L' else slices(env, 'a', m, n, ta)
    ba = env.arr(B[0]) if kind[0] == 'm' else stack(env, B)
    aa = env.arr(A[0]) if kind[1] == 'm' else stack(env, A)
    k = Kept(env, a=aa, b=ba)
    r = env.code.gen.SquareMatVector.lr_multiply(ba, aa, *(() if flag is None else (flag,)))
    exp = []
    for t in range(max(ta, tb)):
        a, b = A[t if ta > 1 else 0], B[t if tb > 1 else 0]
        exp.append(env.mm(env.T(a), env.mm(b, a)) if flag != 'L' else env.mm(a, env.mm(b, env.T(a))))
    if kind[0] == 'm':
        env.check('shape', env.shape(r) == (m, m))
        env.eqs('two-sided product', r, exp[0])
    else:
        same_slices(env, 'two-sided product', r, exp)
    k.check()


@harness('C19', product(bd=[2, 3], ad=[2, 3]))
def two_sided_bad(env, bd, ad):
    """unknown side flag is rejected"""
    B = slices(env, 'b', 2, 2, 2)
    A = slices(env, 'a', 2, 2, 2)
    ba = env.arr(B[0]) if bd == 2 else stack(env, B)
    aa = env.arr(A[0]) if ad == 2 else stack(env, A)
    for g in ('X', 'r', ''):
        env.must_raise('flag', env.code.gen.SquareMatVector.lr_multiply, ba, aa, g)


@harness('C19', product(n=[1, 2, 3], T=[1, 2], kind=['mat', 'arr', 'flat']))
def quad_vec(env, n, T, kind):
    """quadratic forms of vectors: one matrix for all, or one per vector; a flat vector is one column"""
    B = slices(env, 'b', n, n, T if kind == 'arr' else 1)
    if kind == 'flat' and T > 1:
        return
    v = env.mat('v', n, T, -2, 2)
    ba = stack(env, B) if kind == 'arr' else env.arr(B[0])
    va = env.arr([r[0] for r in v]) if kind == 'flat' else env.arr(v)
    k = Kept(env, b=ba, v=va)
    r = env.code.gen.SquareMatVector.lr_multiply_by_vec(ba, va)
    env.check('shape', env.shape(r) == (1, T))
    env.eqs('form', r, [env.quad(B[t if kind == 'arr' else 0], col(v, t)) for t in range(T)])
    k.check()


@harness('C19', product(n=[1, 2, 3], T=[1, 2], kind=['mat', 'arr', 'arr1', 'flat']))
def inverse_quad_vec(env, n, T, kind):
    """forms with the inverse matrix"""
    tb = 1 if kind in ('mat', 'flat') else T
    nv = 1 if kind in ('arr1', 'flat', 'mat') else T
    if kind in ('mat', 'flat') and T > 1:
        return
    S = spd_slices(env, n, tb)
    v = env.mat('v', n, nv, -2, 2)
    ba = env.arr(S[0][0]) if kind in ('mat', 'flat') else stack(env, [s[0] for s in S])
    va = env.arr([r[0] for r in v]) if kind == 'flat' else env.arr(v)
    k = Kept(env, b=ba, v=va)
    r = env.code.gen.SquareMatVector.lr_divide_vec(ba, va)
    exp = []
    for t in range(tb):
        _, V, a = S[t]
        exp.append(env.quad(env.from_eig(V, [1 / (x * x) for x in a]), col(v, t if nv > 1 else 0)))
    env.eqs('form', r, exp)
    k.check()


def sym_slices(env, n, T):
    """symmetric slices with separated eigenvalues of any sign"""
    out = []
    for t in range(T):
        V = env.basis('s%d' % t, n, ['fix', 'rot', 'perm'][t % 3])
        d = [env.real('s%dd0' % t, -3, 3, -0.5)]
        for i in range(1, n):
            d.append(d[-1] + env.real('s%dd%d' % (t, i), env.frac(1, 4), 3, 0.7))
        out.append((env.from_eig(V, d), V, d))
    return out


@harness('C19', product(f=['lr_svd_multiply', 'lr_svd_multiply_L', 'r_svd_multiply_by_vec', 'lr_svd_multiply_by_vec',
                           'lr_svd_divide_vec'], n=[1, 2, 3], T=[1, 2]))
def svd_family(env, f, n, T):
    """operations through the eigendecomposition agree with the direct ones"""
    S = sym_slices(env, n, T)
    B = [s[0] for s in S]
    if f == 'lr_svd_divide_vec':
        for _, _, d in S:
            for x in d:
                env.assume(env.or_(x >= env.const(1, 4), x <= -env.const(1, 4)))
    ba = stack(env, B)
    G = env.code.gen.SymmetricMatVector
    if f.startswith('lr_svd_multiply') and not f.endswith('vec'):
        A = slices(env, 'a', n, n, T)
        aa = stack(env, A)
        k = Kept(env, a=aa, b=ba)
        r = G.lr_svd_multiply(ba, aa, *(('L',) if f.endswith('L') else ()))
        if f.endswith('L'):
            exp = [env.mm(a, env.mm(b, env.T(a))) for a, b in zip(A, B)]
        else:
            exp = [env.mm(env.T(a), env.mm(b, a)) for a, b in zip(A, B)]
        same_slices(env, f, r, exp)
    else:
        v = env.mat('v', n, T, -2, 2)
        va = env.arr(v)
        k = Kept(env, v=va, b=ba)
        r = getattr(G, f)(ba, va)
        if f == 'r_svd_multiply_by_vec':
            env.check('shape', env.shape(r) == (n, T))
            env.eqs(f, r, env.T([env.mv(B[t], col(v, t)) for t in range(T)]))
        elif f == 'lr_svd_multiply_by_vec':
            env.eqs(f, r, [env.quad(B[t], col(v, t)) for t in range(T)])
        else:
            env.eqs(f, r, [env.quad(env.from_eig(S[t][1], [1 / x for x in S[t][2]]), col(v, t)) for t in range(T)])
    k.check()


@harness('C19', product(n=[1, 2, 3], m=[1, 2, 3]))
def svd_divide_many(env, n, m):
    """one matrix, several vectors"""
    B, V, d = sym_slices(env, n, 1)[0]
    for x in d:
        env.assume(env.or_(x >= env.const(1, 4), x <= -env.const(1, 4)))
    v = env.mat('v', n, m, -2, 2)
    r = env.code.gen.SymmetricMatVector.lr_svd_divide_vec(stack(env, [B]), env.arr(v))
    Bi = env.from_eig(V, [1 / x for x in d])
    env.eqs('forms', r, [env.quad(Bi, col(v, j)) for j in range(m)])


@harness('C19', product(n=[1, 2, 3]))
def root_nan(env, n):
    """a slice with a NaN gives a NaN slice and leaves the others alone"""
    x, V, a = env.spd('s', n, 'fix' if n == 3 else 'rot')
    nan = float('nan')
    bad = [[nan if (i, j) == (0, 0) else 1. for j in range(n)] for i in range(n)]
    r = env.code.gen.SquareMatVector.sqrtm_pos(stack(env, [x, bad, x]))
    R = env.from_eig(V, a)
    same_slices(env, 'root', r, [R, [[nan] * n] * n, R])


@harness('C19', product(n=[1, 2, 3], T=[0, 1, 2]))
def repair_eig(env, n, T):
    """negative eigenvalues are replaced by the given value, the others kept"""
    S = [env.spectral('s%d' % t, n, ['fix', 'rot'][t % 2]) for t in range(max(T, 1))]
    val = env.real('val', 0, 1, 0.1)
    for s in S:
        for x in s[2]:
            env.assume(env.or_(x >= 1e-7, x <= -1e-7))
    a = maybe2d(env, [s[0] for s in S], T == 0)
    k = Kept(env, a=a)
    r = env.code.gen.SquareMatVector.make_pos_definite_by_eig(a, val)
    exp = []
    for _, V, d in S:
        exp.append(env.from_eig(V, [val if env.fork(x < 0) else x for x in d]))
    if T == 0:
        env.eqs('repaired', r, exp[0])
    else:
        same_slices(env, 'repaired', r, exp)
    k.check()


@harness('C19', product(n=[1, 2, 3], T=[1, 2]))
def repair_nan(env, n, T):
    """slices with a negative eigenvalue become NaN, the others are kept"""
    S = [env.spectral('s%d' % t, n, ['fix', 'rot'][t % 2]) for t in range(T)]
    for s in S:
        env.assume(env.or_(s[2][0] >= 1e-7, s[2][0] <= -1e-7))
    a = stack(env, [s[0] for s in S])
    k = Kept(env, a=a)
    r = env.code.gen.SquareMatVector.make_pos_definite_or_nan(a)
    nan = float('nan')
    exp = [[[nan] * n] * n if env.fork(d[0] < 0) else x for x, _, d in S]
    same_slices(env, 'kept or NaN', r, exp)
    k.check()


@harness('C19', product(n=[1, 2], m=[1, 2], T=[0, 1, 3]))
def evaluate(env, n, m, T):
    """a function is applied to every slice"""
    X = slices(env, 'x', n, m, max(T, 1))
    a = maybe2d(env, X, T == 0)
    k = Kept(env, a=a)
    G = env.code.gen.MatVector
    sums = [sum(sum(r) for r in x) for x in X]
    r = G.eval_func(lambda s: env.np.sum(s), a)
    env.check('count', len(env.flat(r)) == len(X))
    env.eqs('values', r, sums)
    r = G.eval_func(lambda s: 2. * s, a, True, True)
    same_slices(env, 'same size', r, [[[2 * y for y in row] for row in x] for x in X])
    r = G.eval_func(lambda s: s.T, a, False)
    env.check('list', isinstance(r, list) and len(r) == len(X))
    for x, y in zip(X, r):
        env.check('list shape', env.shape(y) == (m, n))
        env.eqs('list values', y, env.T(x))
    k.check()


@harness('C19', product(T=[1, 2, 3], kind=['mat', 'vec', 'num']))
def from_function(env, T, kind):
    """an array sampled from a function of time"""
    t = env.vec('t', T, -2, 2)
    c = env.vec('c', 3, -2, 2)
    G = env.code.gen.MatVector
    if kind == 'mat':
        def f(x):
            return env.np.array([[x, c[0]], [c[1] * x, x * x], [c[2], 1.]])
        exp = [[[x, c[0]], [c[1] * x, x * x], [c[2], 1.]] for x in t]
    elif kind == 'vec':
        def f(x):
            return env.np.array([x, c[0] * x])
        exp = [[[x], [c[0] * x]] for x in t]
    else:
        def f(x):
            return c[0] * x
        exp = [[[c[0] * x]] for x in t]
    r = G.from_func(f, env.arr(t))
    same_slices(env, 'samples', r, exp)


@harness('C19', product(T=[1, 2, 3], f=[0, 1, 2, 3, 4]))
def from_text(env, T, f):
    """an array sampled from a formula of time"""
    t = env.vec('t', T, -2, 2)
    src, fn = [('t', lambda x: [[x]]), ('[t, 1.5]', lambda x: [[x, 1.5]]), ('[[t, 2*t], [1, t**2]]',
               lambda x: [[x, 2 * x], [1., x * x]]), ('t*(t-1)', lambda x: [[x * (x - 1)]]),
               ('[[3], [t], [t+1]]', lambda x: [[3.], [x], [x + 1]])][f]
    r = env.code.gen.MatVector.from_expression(src, env.arr(t))
    same_slices(env, 'samples', r, [fn(x) for x in t])


@harness('C19', product(T=[1, 2, 3]))
def from_formulas(env, T):
    """an array sampled from a matrix of formulas"""
    t = env.vec('t', T, -2, 2)
    m = env.np.array([['t', '1'], ['t**2', '2*t']], dtype=object)
    r = env.code.gen.MatVector.from_formula_mat(m, env.arr(t))
    same_slices(env, 'samples', r, [[[x, 1.], [x * x, 2 * x]] for x in t])


@harness('C19', product(n=[1, 2, 3], T=[0, 1, 2]))
def mean_product(env, n, T):
    """mat_dot: trace of a'b over n, per slice"""
    A = slices(env, 'a', n, n, max(T, 1))
    B = slices(env, 'b', n, n, max(T, 1))
    aa, ba = maybe2d(env, A, T == 0), maybe2d(env, B, T == 0)
    k = Kept(env, a=aa, b=ba)
    r = env.code.gen.mat_dot(aa, ba)
    env.check('shape', env.shape(r) == ((1, 1) if T == 0 else (1, 1, T)))
    env.eqs('dot', r, [sum(x * y for p, q in zip(a, b) for x, y in zip(p, q)) / n for a, b in zip(A, B)])
    k.check()
