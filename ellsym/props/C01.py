"""C01 construction of ellipsoids"""
from ..harness import harness, product

MODULES = ['Ellipsoid', 'AEllipsoid', 'ABasicEllipsoid', 'la', 'common', '_ParseProp', 'Properties']
BOUNDS = ('dimensions 0-4; shape matrices given by spectrum (eigenvalues in [-3,9]) and eigenbasis (identity, fixed '
          'rational, all plane rotations, permutation), every rank; centres in [-5,5]^n; tolerances default, configured '
          'and given, symbolic in [1/1000, 2]; one perturbed, NaN, infinite or complex entry per object at every '
          'position; inputs within 1e-8 of the tolerance boundary excluded')
NAN, INF = float('nan'), float('inf')


def band(env, x, t):
    env.assume(env.or_(x <= t - 1e-8, x >= t + 1e-8))


def as_given(env, ell, c, Q):
    n = len(c)
    for what, (a, b) in (('parameters', ell.parameters()), ('double', ell.double()),
                         ('accessors', (ell.get_center_vec(), ell.get_shape_mat()))):
        env.check(what + ': centre is a vector', env.shape(a) == (n,))
        env.eqs(what + ': centre', a, c)
        env.check(what + ': matrix shape', env.shape(b) == (n, n))
        env.eqs(what + ': matrix', b, Q)


def props(env, ell, **want):
    E = env.code.Ellipsoid
    for k, v in want.items():
        g = {'abs_tol': lambda: E.get_abs_tol([ell], None), 'rel_tol': lambda: E.get_rel_tol([ell], None),
             'n2': lambda: E.get_n_plot_2d_points([ell]), 'n3': lambda: E.get_n_plot_3d_points([ell])}[k]()
        env.eqs(k, g, [v])


@harness('C01', product(n=[1, 2, 3], kind=['id', 'fix', 'rot'], rank=[0, 1, 2, 3], cen=['vec', 'none']) +
         product(n=[2, 3], kind=['perm'], rank=[2, 3], cen=['row', 'col']) +
         product(n=[4], kind=['id'], rank=[2, 4], cen=['vec']),
         thorough=product(n=[1, 2, 3], kind=['id', 'fix', 'rot', 'perm'], rank=[0, 1, 2, 3],
                          cen=['vec', 'none', 'row', 'col']) + product(n=[4], kind=['id', 'fix'], rank=[0, 1, 2, 3, 4],
                                                                       cen=['vec', 'none']))
def valid(env, n, kind, rank, cen):
    """a valid matrix and centre are accepted and reported back exactly"""
    if rank > n:
        return
    E = env.code.Ellipsoid
    Q, V, a = env.spd('q', n, kind, rank)
    c = env.vec('c', n, -5, 5) if cen != 'none' else [0.] * n
    Qa = env.arr(Q)
    if cen == 'none':
        ell = E(Qa)
    else:
        ca = env.arr(c)
        if cen == 'row':
            ca = ca.reshape(1, n)
        elif cen == 'col':
            ca = ca.reshape(n, 1)
        ell = E(ca, Qa)
    as_given(env, ell, c, Q)
    props(env, ell, abs_tol=1e-6, rel_tol=1e-5, n2=200, n3=200)
    env.check('dimension', env.flat(E.dimension([ell]))[0] == n)
    env.check('not empty', not env.flat(E.is_empty([ell]))[0])


@harness('C01', [{}])
def empty(env):
    """no arguments: the empty ellipsoid"""
    E = env.code.Ellipsoid
    for ell in (E(), E(env.np.zeros((0,)), env.np.zeros((0, 0)))):
        as_given(env, ell, [], [])
        env.check('empty', env.flat(E.is_empty([ell]))[0])
        env.check('dimension', env.flat(E.dimension([ell]))[0] == 0)
        props(env, ell, abs_tol=1e-6, rel_tol=1e-5, n2=200, n3=200)


@harness('C01', product(n=[1, 2, 3], kind=['id', 'rot', 'fix'], how=['default', 'given', 'config'], cen=[True, False]))
def definite(env, n, kind, how, cen):
    """accepted exactly when the smallest eigenvalue is not below minus the tolerance in force"""
    E, P = env.code.Ellipsoid, env.code.Properties
    A, V, d = env.spectral('q', n, kind)
    t = env.const(1, 1000000) if how == 'default' else env.real('tol', env.frac(1, 1000), 2, 0.3)
    band(env, d[0], -t)
    args = (env.arr(env.vec('c', n, -5, 5)), env.arr(A)) if cen else (env.arr(A),)
    kw = {'abs_tol': t} if how == 'given' else {}
    try:
        if how == 'config':
            P.set_abs_tol(t)
        ell, e = env.attempt(E, *args, **kw)
    finally:
        P.set_abs_tol(1e-6)
    env.check('accepted iff non-negative definite', env.iff(e is None, d[0] > -t))
    if e is None:
        props(env, ell, abs_tol=t)
        env.eqs('matrix', ell.get_shape_mat(), A)
    else:
        env.check('input error', isinstance(e, ValueError) and 'wrongInput' in str(e))


@harness('C01', product(n=[2, 3], how=['default', 'given'], pos=[0, 1, 2]))
def symmetric(env, n, how, pos):
    """accepted exactly when opposite entries differ by no more than the tolerance"""
    if n == 2 and pos:
        return
    E = env.code.Ellipsoid
    Q, V, a = env.spd('q', n, 'rot', n)
    t = env.const(1, 1000000) if how == 'default' else env.real('tol', env.frac(1, 1000), 2, 0.3)
    e = env.real('e', -3, 3, 0.1)
    band(env, env.abs(e), t)
    M = [list(r) for r in Q]
    i, j = [(0, 1), (0, 2), (1, 2)][pos]
    M[i][j] = M[i][j] + e
    kw = {'abs_tol': t} if how == 'given' else {}
    ell, ex = env.attempt(E, env.arr([0.] * n), env.arr(M), **kw)
    env.check('accepted iff symmetric', env.iff(ex is None, env.abs(e) <= t))
    if ex is None:
        env.eqs('matrix', ell.get_shape_mat(), M)
    else:
        env.check('input error', isinstance(ex, ValueError) and 'wrongInput' in str(ex))


@harness('C01', product(n=[1, 2, 3], what=['nan', 'inf', '-inf']))
def finite(env, n, what):
    """non-finite entries are rejected, wherever they are"""
    E = env.code.Ellipsoid
    v = {'nan': NAN, 'inf': INF, '-inf': -INF}[what]
    Q, V, a = env.spd('q', n, 'rot', n)
    c = env.vec('c', n, -5, 5)
    k = env.choice('pos', list(range(n + n * n)))
    sym = env.choice('sym', [0, 1])
    M = [list(r) for r in Q]
    if k < n:
        c[k] = v
    else:
        i, j = (k - n) // n, (k - n) % n
        M[i][j] = v
        if sym:
            M[j][i] = v
    env.must_raise('non-finite entry', E, env.arr(c), env.arr(M), _tag='wrongInput')
    if k >= n:
        env.must_raise('non-finite entry', E, env.arr(M), _tag='wrongInput')


@harness('C01', product(n=[1, 2, 3], what=['short', 'long', 'matrix', 'list', 'str', 'strs']))
def bad_centre(env, n, what):
    """a centre of another dimension or which is no numeric vector is rejected"""
    E = env.code.Ellipsoid
    Q, V, a = env.spd('q', n, 'rot', n)
    c = env.vec('c', 2 * n + 2, -5, 5)
    ca = {'short': lambda: env.arr(c[:n - 1]), 'long': lambda: env.arr(c[:n + 1]),
          'matrix': lambda: env.arr([c[:n + 1], c[n + 1:]]), 'list': lambda: [1.0] * n, 'str': lambda: 'abc'[:n],
          'strs': lambda: env.np.array(['a'] * n)}[what]()
    env.must_raise('centre', E, ca, env.arr(Q), _tag='wrongInput')


@harness('C01', [{'sh': s, 'cen': c} for s in ((1, 2), (2, 1), (2, 3), (3, 2), (4,), (2, 2, 1), (1, 2, 2), (0, 2))
                 for c in (0, 1)])
def bad_shape(env, sh, cen):
    """a shape matrix which is no square matrix is rejected"""
    E = env.code.Ellipsoid
    k = 1
    for x in sh:
        k *= x
    m = env.np_vec('m', k, -3, 3).reshape(sh)
    args = (env.arr(env.vec('c', sh[0], -1, 1)), m) if cen else (m,)
    env.must_raise('shape matrix', E, *args, _tag='wrongInput')


@harness('C01', product(n=[1, 2], part=['centre', 'matrix'], how=['default', 'given']))
def complex_input(env, n, part, how):
    """a negligible imaginary part is dropped, a significant one rejected"""
    E = env.code.Ellipsoid
    Q, V, a = env.spd('q', n, 'rot', n)
    c = env.vec('c', n, -5, 5)
    t = env.const(1, 1000000) if how == 'default' else env.real('tol', env.frac(1, 1000), 2, 0.3)
    kw = {'abs_tol': t} if how == 'given' else {}
    m = n if part == 'centre' else n * n
    k = env.choice('pos', list(range(m)))
    e = env.real('e', -3, 3, 0.1)
    band(env, env.abs(e), t)
    im = [e if i == k else 0. for i in range(m)]
    if part == 'centre':
        args = (env.carr(c, im, (n,)), env.arr(Q))
    else:
        args = (env.arr(c), env.carr(env.flat(Q), im, (n, n)))
    ell, ex = env.attempt(E, *args, **kw)
    env.check('accepted iff nearly real', env.iff(ex is None, env.abs(e) <= t))
    if ex is None:
        as_given(env, ell, c, Q)
        env.check('real centre', env.is_real(ell.get_center_vec()))
        env.check('real matrix', env.is_real(ell.get_shape_mat()))


@harness('C01', product(n=[0, 1, 2]))
def properties(env, n):
    """given tolerances and point counts, or the current defaults, are kept"""
    E, P = env.code.Ellipsoid, env.code.Properties
    Q, V, a = env.spd('q', n, 'rot', n) if n else ([], [], [])
    vals = {'abs_tol': env.real('abs_tol', env.frac(1, 1000), 2), 'rel_tol': env.real('rel_tol', env.frac(1, 1000), 2),
            'n2': 17, 'n3': 23}
    dfl = {'abs_tol': env.real('dabs', env.frac(1, 1000), 2), 'rel_tol': env.real('drel', env.frac(1, 1000), 2),
           'n2': 31, 'n3': 43}
    kn = {'abs_tol': 'abs_tol', 'rel_tol': 'rel_tol', 'n2': 'n_plot_2d_points', 'n3': 'n_plot_3d_points'}
    given = [k for k in vals if env.choice('given_' + k, [0, 1])]
    kw = {kn[k]: vals[k] for k in given}
    args = () if n == 0 else ((env.arr(Q),) if n == 1 else (env.arr([0.] * n), env.arr(Q)))
    try:
        P.set_abs_tol(dfl['abs_tol'])
        P.set_rel_tol(dfl['rel_tol'])
        P.set_n_plot_2d_points(dfl['n2'])
        P.set_n_plot_3d_points(dfl['n3'])
        ell = E(*args, **kw)
    finally:
        P.init()
    want = {k: (vals[k] if k in given else dfl[k]) for k in vals}
    props(env, ell, **want)
