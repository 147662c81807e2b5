"""C17 matrix predicates, regularisation, square root"""
from ..harness import harness, product

MODULES = ['la']
BOUNDS = ('symmetric matrices of dimension 1-3 given by spectrum (entries in [-3,3]) and eigenbasis (identity, fixed '
          'rational, all plane rotations); general matrices up to 3x3 for symmetry; tolerances 0, 1e-7, 0.01, 0.5 and '
          'symbolic in [1/100, 2]')
TOLS = [0., 1e-7, 0.01, 0.5]


def tol_of(env, t):
    return env.real('tol', env.frac(1, 100), 2, 0.3) if t == 'sym' else t


def band(env, x, t, what):
    """keep away from the decision boundary x == t"""
    b = 1e-9
    env.assume(env.or_(x <= t - b, x >= t + b))


@harness('C17', product(n=[1, 2, 3], t=[0., 0.01, 'sym']) + product(n=[2], t=[1e-7, 0.5]))
def symmetry(env, n, t):
    """is_mat_symm <=> all |a_ij - a_ji| <= tol"""
    la = env.code.la
    tol = tol_of(env, t)
    M = env.mat('m', n, n, -2, 2)
    for i in range(n):
        for j in range(i):
            e = env.real('e%d%d' % (i, j), -1, 1, 0.0)
            k = env.choice('k%d%d' % (i, j), [0, 1])
            M[i][j] = M[j][i] + (e if k else 0)
            if k:
                band(env, env.abs(e), tol, 'symm')
    r = la.is_mat_symm(env.arr(M), tol)
    exp = env.and_(*[env.abs(M[i][j] - M[j][i]) <= tol for i in range(n) for j in range(i)])
    env.check('symmetry predicate', env.iff(r, exp))


@harness('C17', [{'sh': s} for s in ((2, 3), (3, 1), (3,), (2, 2, 2))])
def symmetry_shape(env, sh):
    """non-square input is rejected"""
    la = env.code.la
    k = 1
    for x in sh:
        k *= x
    a = env.lay(env.np_vec('m', k, -2, 2).reshape(sh))
    env.must_raise('non-square', la.is_mat_symm, a, _tag='wrongInput')


@harness('C17', product(n=[1, 2, 3], kind=['id', 'rot'], semi=[False, True], t=[0., 0.01, 'sym']) +
         product(n=[2, 3], kind=['fix', 'perm'], semi=[False, True], t=[1e-7, 0.5]))
def pos_def(env, n, kind, semi, t):
    """is_mat_pos_def agrees with the smallest eigenvalue"""
    la = env.code.la
    tol = tol_of(env, t)
    A, V, d = env.spectral('a', n, kind)
    lim = -tol if semi else tol
    env.assume(env.or_(d[0] <= lim - 1e-8, d[0] >= lim + 1e-8))
    args = (env.arr(A), tol, semi)
    r = la.is_mat_pos_def(*args)
    env.check('definiteness', env.iff(r, d[0] > lim))


@harness('C17', product(n=[2, 3], semi=[False, True]))
def pos_def_defaults(env, n, semi):
    """default arguments: strict definiteness with zero tolerance; negative tolerance and asymmetry are rejected"""
    la = env.code.la
    A, V, d = env.spectral('a', n, 'rot' if n == 2 else 'fix')
    env.assume(env.or_(d[0] <= -1e-8, d[0] >= 1e-8))
    env.check('default', env.iff(la.is_mat_pos_def(env.arr(A)), d[0] > 0))
    t = env.real('neg', -1, -env.frac(1, 1000), -0.5)
    env.must_raise('negative tolerance', la.is_mat_pos_def, env.arr(A), t, semi, _tag='wrongInput')
    env.must_raise('negative tolerance', la.is_mat_not_deg, env.arr(A), t, _tag='wrongInput')
    env.must_raise('negative tolerance', la.sqrtm_pos, env.arr(A), t, _tag='wrongInput')
    B = [list(r) for r in A]
    e = env.real('e', env.frac(1, 100), 1, 0.5)
    B[0][n - 1] = B[0][n - 1] + e
    env.must_raise('asymmetric', la.is_mat_pos_def, env.arr(B), 1e-3, semi, _tag='wrongInput')
    env.must_raise('asymmetric', la.sqrtm_pos, env.arr(B), 1e-3, _tag='wrongInput')
    env.must_raise('asymmetric', la.reg_pos_def_mat, env.arr(B), 1e-3, _tag='wrongInput')


@harness('C17', product(n=[1, 2, 3], kind=['id', 'rot'], t=[0., 0.01, 'sym']))
def not_deg(env, n, kind, t):
    """is_mat_not_deg agrees with the smallest singular value"""
    la = env.code.la
    tol = tol_of(env, t)
    A, V, d = env.spectral('a', n, kind, ordered=False)
    for x in d:
        env.assume(env.or_(env.abs(x) <= tol - 1e-8, env.abs(x) >= tol + 1e-8))
    r = la.is_mat_not_deg(env.arr(A), tol)
    if t == 0.:
        env.check('zero tolerance', env.iff(r, True))
    else:
        env.check('non-degenerate', env.iff(r, env.and_(*[env.abs(x) > tol for x in d])))


@harness('C17', product(n=[1, 2, 3], kind=['id', 'fix', 'rot'], rank=[0, 1, 2, 3], t=[0., 1e-7, 'sym']))
def sqrtm(env, n, kind, rank, t):
    """sqrtm_pos: symmetric, non-negative definite, squares to the argument"""
    if rank > n:
        return
    la = env.code.la
    tol = tol_of(env, t)
    A, V, a = env.spd('a', n, kind, rank)
    if not env.symbolic and t == 0. and rank < n:
        tol = 1e-12      # rounding of a singular matrix
    arg = env.arr(A)
    R = env.rows(la.sqrtm_pos(arg, tol))
    env.observe('root', R)
    env.eqs('argument kept', arg, A)
    env.eqs('square', env.mm(R, R), A)
    env.eqs('symmetric', R, env.T(R))
    D = env.mm(env.T(V), env.mm(R, V))
    env.eqs('spectrum', D, [[a[i] if i == j else 0. for j in range(n)] for i in range(n)])


@harness('C17', product(n=[1, 2, 3], kind=['id', 'rot']))
def sqrtm_reject(env, n, kind):
    """sqrtm_pos: eigenvalues slightly below zero count as zero, further below are an error"""
    la = env.code.la
    tol = env.real('tol', env.frac(1, 100), 1, 0.3)
    V = env.basis('a', n, kind)
    neg = env.real('neg', env.frac(1, 1000), 2, 0.2)
    d = [-neg] + [env.real('d%d' % i, 0, 3, 1.0) for i in range(1, n)]
    A = env.from_eig(V, d)
    env.assume(env.or_(neg <= tol - 1e-8, neg >= tol + 1e-8))
    r, e = env.attempt(la.sqrtm_pos, env.arr(A), tol)
    env.check('rejected iff clearly negative', env.iff(e is not None, neg > tol))
    if e is None:
        R = env.rows(r)
        env.eqs('square', env.mm(R, R), env.from_eig(V, [0.] + d[1:]))


@harness('C17', product(n=[1, 2, 3], kind=['id', 'fix', 'rot', 'perm']))
def regularise(env, n, kind):
    """reg_pos_def_mat raises the eigenvalues to the floor and keeps the eigenvectors"""
    la = env.code.la
    tol = env.real('tol', env.frac(1, 100), 2, 0.7)
    A, V, d = env.spectral('a', n, kind, ordered=(n == 3))
    arg = env.arr(A)
    R = la.reg_pos_def_mat(arg, tol)
    env.eqs('argument kept', arg, A)
    exp = [env.max(x, tol) for x in d]
    env.eqs('regularised', R, env.from_eig(V, exp))
    env.eqs('symmetric', R, R.T)


@harness('C17', product(n=[2, 3], kind=['fix', 'rot'], mult=['low', 'high']))
def regularise_repeated(env, n, kind, mult):
    """the same with a repeated eigenvalue"""
    la = env.code.la
    tol = env.real('tol', env.frac(1, 2), 2, 0.7)
    V = env.basis('a', n, kind)
    x = env.real('x', -2, 0, -0.5)
    y = env.real('y', 2, 4, 3.0)
    d = [x] * (n - 1) + [y] if mult == 'low' else [x] + [y] * (n - 1)
    R = la.reg_pos_def_mat(env.arr(A_sym(env, env.from_eig(V, d))), tol)
    env.eqs('regularised', R, env.from_eig(V, [env.max(t, tol) for t in d]))


def A_sym(env, A):
    n = len(A)
    return [[A[max(i, j)][min(i, j)] for j in range(n)] for i in range(n)]


@harness('C17', product(f=['reg_pos_def_mat', 'reg_mat', 'try_treat_as_real']))
def bad_tol(env, f):
    """non-positive or non-scalar tolerances are rejected"""
    la = env.code.la
    t = env.real('t', -2, 0, -0.5)
    A = env.arr([[2., 1.], [1., 2.]])
    g = getattr(la, f)
    env.must_raise('non-positive tolerance', g, A, t, _tag='wrongInput')
    env.must_raise('vector tolerance', g, A, env.arr([1., 2.]), _tag='wrongInput')


@harness('C17', product(n=[1, 2, 3], kind=['id', 'rot']))
def reg_mat_spectrum(env, n, kind):
    """reg_mat raises the singular values to the floor"""
    la = env.code.la
    tol = env.real('tol', env.frac(1, 100), 2, 0.7)
    V = env.basis('a', n, kind)
    d = [env.real('d%d' % i, env.frac(1, 100), 3, 0.5 + i) for i in range(n)]
    sg = [env.choice('s%d' % i, [1, -1]) for i in range(n)]
    d = [x * s for x, s in zip(d, sg)]
    A = env.from_eig(V, d)
    R = la.reg_mat(env.arr(A), tol)
    env.eqs('regularised', R, env.from_eig(V, [s * env.max(env.abs(x), tol) for x, s in zip(d, sg)]))


@harness('C17', product(sh=[(), (1,), (3,), (2, 2)], cplx=[False, True]))
def as_real(env, sh, cplx):
    """try_treat_as_real keeps the real part, rejects a significant imaginary part"""
    la = env.code.la
    k = 1
    for x in sh:
        k *= x
    re = env.vec('re', k, -2, 2)
    tol = env.real('tol', env.frac(1, 100), 1, 0.3)
    if not cplx:
        a = env.arr(re).reshape(sh) if sh else re[0]
        r = la.try_treat_as_real(a, tol)
        env.eqs('unchanged', r, re)
        env.check('shape', env.shape(r) == sh)
        env.eqs('unchanged', la.try_treat_as_real(a), re)
        return
    im = env.vec('im', k, -1, 1, [0.1] * k)
    # norm of the imaginary part: sum over rows, maximal
    if len(sh) == 2:
        nrm = env.max(*[env.abs(im[i * sh[1]]) + env.abs(im[i * sh[1] + 1]) for i in range(sh[0])])
    else:
        nrm = env.max(*[env.abs(x) for x in im])
    env.assume(env.or_(nrm <= tol - 1e-8, nrm >= tol + 1e-8))
    a = env.carr(re, im, sh)
    r, e = env.attempt(la.try_treat_as_real, a, tol)
    env.check('rejected iff significantly complex', env.iff(e is not None, nrm > tol))
    if e is None:
        env.eqs('real part', r, re)
        if env.fork(env.or_(*[x != 0 for x in im])):
            env.check('real type', env.is_real(r))
