"""helpers shared by harness modules"""


def slices(env, name, r, c, T, lo=-2, hi=2):
    return [env.mat('%s%d_' % (name, t), r, c, lo, hi) for t in range(T)]


def stack(env, mats):
    """list of T matrices -> array (r, c, T)"""
    r, c = len(mats[0]), len(mats[0][0])
    return env.arr([[[m[i][j] for m in mats] for j in range(c)] for i in range(r)])


def unstack(env, label, a, r, c, T):
    """array of the expected shape -> list of slices; None (and a failed check) otherwise"""
    if not env.check(label + ': shape', env.shape(a) == (r, c, T)):
        return None
    f = env.flat(a)
    return [[[f[(i * c + j) * T + t] for j in range(c)] for i in range(r)] for t in range(T)]


def same_slices(env, label, a, mats):
    """a has exactly the slices mats"""
    r, c, T = len(mats[0]), len(mats[0][0]), len(mats)
    got = unstack(env, label, a, r, c, T)
    if got is not None:
        for t in range(T):
            env.eqs(label, got[t], mats[t])
    return got


def col(m, j):
    return [r[j] for r in m]


class Kept(object):
    """arguments must be left as they were"""

    def __init__(self, env, **arrs):
        self.env = env
        self.a = {k: (v, env.shape(v), env.flat(v)) for k, v in arrs.items()}

    def check(self):
        for k, (v, s, f) in self.a.items():
            if self.env.check('argument %s keeps its shape' % k, self.env.shape(v) == s):
                self.env.eqs('argument %s unchanged' % k, v, f)


def mk_ell(env, i, n, kind='rot', rank=None, centre=True, tol=None, cls=None):
    """a symbolic ellipsoid: object and its data (centre, matrix rows, eigenvectors, square roots of eigenvalues)"""
    Q, V, a = env.spd('q%s' % i, n, kind, rank)
    c = env.vec('c%s_' % i, n, -2, 2) if centre else [env.const(0, 1)] * n
    kw = {} if tol is None else {'abs_tol': tol}
    return (cls or env.code.Ellipsoid)(env.arr(c), env.arr(Q), **kw), (c, Q, V, a)


def shape_of(env, objs, sh):
    return env.lay(env.np.array(objs).reshape(sh))


def prod(sh):
    k = 1
    for x in sh:
        k *= x
    return k


def direction(env, name, n, kind='free', nz=True):
    """a direction: free components, or a free multiple of a fixed rational vector"""
    if kind == 'free':
        l = env.vec(name, n, -2, 2)
        if nz:
            env.assume(env.dot(l, l) >= env.const(1, 4))
        return l
    k = env.real(name + 'k', env.frac(1, 2), 2, 1.25)
    base = {1: [[1], [-1]], 2: [[(3, 5), (4, 5)], [0, -1], [(-4, 5), (3, 5)], [1, 0]],
            3: [[(2, 3), (1, 3), (-2, 3)], [0, 1, 0], [(3, 5), 0, (4, 5)], [0, 0, -1]]}[n]
    return [k * (env.const(*x) if isinstance(x, tuple) else env.const(x, 1)) for x in base[kind % len(base)]]
