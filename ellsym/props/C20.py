"""C20 tolerant sorting and square roots"""
from ..harness import harness, product
from .util import Kept, prod

MODULES = ['gen']
BOUNDS = ('row sorting of matrices with up to 4 rows and 3 columns (rows x columns up to 6) of symbolic elements in [-2, 2] with a '
          'symbolic tolerance in [0, 1], integer matrices included; square roots of symbolic scalars and arrays of up to three axes '
          'with a symbolic tolerance')


def classes(env, v, tol):
    """indices of v grouped by chains of differences within tol: class label per index"""
    idx = list(range(len(v)))
    lab = list(idx)
    for i in idx:
        for j in idx:
            if i < j and env.fork(env.abs(v[i] - v[j]) <= tol):
                a, b = lab[i], lab[j]
                lab = [a if x == b else x for x in lab]
    return lab


SIZES = [(1, 1), (2, 1), (3, 1), (1, 2), (2, 2), (2, 3), (1, 3), (0, 2)]


def judge_sort(env, X, tol, out, label=''):
    r, c = len(X), len(X[0]) if X else 0
    res, ind, rev = out
    if not env.check('shapes', env.shape(res)[0] == r and env.shape(ind) == (r,) and env.shape(rev) == (r,)):
        return
    p, q = [int(i) for i in env.flat(ind)], [int(i) for i in env.flat(rev)]
    env.check('permutation', sorted(p) == list(range(r)))
    env.check('inverse permutation', [q[p[i]] for i in range(r)] == list(range(r)))
    if r == 0:
        return
    env.eqs('rows', res, [X[i] for i in p])
    lab = [classes(env, [x[j] for x in X], tol) for j in range(c)]
    for k in range(r - 1):
        a, b = p[k], p[k + 1]
        for j in range(c):
            if lab[j][a] != lab[j][b]:
                env.le('lexicographic order', X[a][j], X[b][j])
                break


@harness('C20', [dict(r=r, c=c, tk=t) for r, c in SIZES for t in ('free', 'zero')],
         thorough=[dict(r=r, c=c, tk=t) for r, c in SIZES + [(3, 2), (4, 1), (2, 4)] for t in ('free', 'zero')])
def sort_rows(env, r, c, tk):
    """rows in lexicographic order up to the tolerance, with the permutation and its inverse"""
    X = env.mat('x', r, c, -2, 2)
    tol = env.real('t', 0, 1, 0.25) if tk == 'free' else 0.
    A = env.arr(X) if r else env.np.zeros((0, c))
    keep = Kept(env, x=A)
    judge_sort(env, X, tol, env.code.gen.sort_rows_tol(A, tol))
    keep.check()


@harness('C20', product(j=[0, 1, 2], first=[0, 1]))
def sort_rows_mixed(env, j, first):
    """symbolic column next to fixed ones, three rows"""
    x = env.vec('x', 3, -2, 2)
    tol = env.real('t', 0, env.frac(1, 2), 0.25)
    other = [[1, 1, 3], [2, 1, 0], [1, 2, 1]][j]
    X = [[env.const(o, 1), y] if first else [y, env.const(o, 1)] for o, y in zip(other, x)]
    A = env.arr(X)
    judge_sort(env, X, tol, env.code.gen.sort_rows_tol(A, tol))


@harness('C20', product(case=['negative tolerance', 'vector', 'text', 'three axes', 'integer']))
def sort_rows_other(env, case):
    f = env.code.gen.sort_rows_tol
    if case == 'negative tolerance':
        env.must_raise(case, f, env.arr(env.mat('x', 2, 2, -1, 1)), env.real('t', -2, env.frac(-1, 100)))
    elif case == 'vector':
        env.must_raise(case, f, env.arr(env.vec('x', 3, -1, 1)), 0.)
    elif case == 'text':
        env.must_raise(case, f, env.np.array([['a', 'b']]), 0.)
    elif case == 'three axes':
        env.must_raise(case, f, env.arr([env.mat('x', 2, 2, -1, 1)]), 0.)
    else:
        for M in ([[3, 1], [1, 2], [1, 1]], [[0, 5], [0, 4], [-1, 9], [0, 4]]):
            for t in (0., 1., 2.):
                judge_sort(env, M, t, f(env.np.array(M), t))


@harness('C20', product(sh=['scalar', (), (1,), (3,), (2, 2), (1, 2), (2, 1, 2), (0,), (0, 2)], sign=['any', 'band', 'below']))
def square_root(env, sh, sign):
    """square root, zero within the tolerance below zero, error further below"""
    sh = sh if sh == 'scalar' else tuple(sh)
    n = 1 if sh == 'scalar' else prod(sh)
    t = env.real('t', 0, 1, 0.25)
    if n == 0:
        out = env.code.gen.sqrt_pos(env.np.zeros(sh), t)
        env.check('shape', env.shape(out) == sh)
        return
    x = [env.real('x%d' % i, -2, 2) for i in range(n)]
    if sign != 'any':
        for i, y in enumerate(x):
            env.assume(y >= -t)
        if sign == 'band':
            env.assume(x[-1] <= 0)
        else:
            x[-1] = -t - env.real('d', env.frac(1, 1000), 1, 0.5)
    if sh == 'scalar':
        A, keep = x[0], None
    elif sh == ():
        A, keep = env.arr(x).reshape(()), None
    else:
        A = env.lay(env.arr(x).reshape(sh))
        keep = Kept(env, x=A)
    out, e = env.attempt(env.code.gen.sqrt_pos, A, t)
    if keep is not None:
        keep.check()
    if e is not None:
        env.check('rejected', env.or_(*[y < -t for y in x]))
        return
    env.check('accepted', env.and_(*[y >= -t for y in x]))
    if sh != 'scalar':
        env.check('shape', env.shape(out) == sh)
    for y, z in zip(x, env.flat(out)):
        env.le('non-negative', 0, z)
        env.eq('square', z * z, env.max(y, 0))


@harness('C20', product(case=['default', 'negative tolerance', 'integer', 'list']))
def square_root_other(env, case):
    f = env.code.gen.sqrt_pos
    if case == 'default':
        x = env.real('x', -1, 1)
        r, e = env.attempt(f, x)
        env.check('rejected', env.iff(x < 0, e is not None))
    elif case == 'negative tolerance':
        env.must_raise(case, f, env.real('x', 0, 1), env.real('t', -1, env.frac(-1, 100)))
        env.must_raise(case, f, env.arr(env.vec('x', 2, 0, 1)), env.real('t', -1, env.frac(-1, 100)))
    elif case == 'integer':
        env.eqs('integers', f(env.np.array([4, 0, 9])), [2, 0, 3])
        env.eq('integer', f(16), 4)
    else:
        x = env.vec('x', 2, 0, 1)
        out = env.flat(f(list(x)))
        env.eqs('list', [y * y for y in out], x)
