"""C30 unit balls, fusion parameter, alignment"""
from ..harness import harness, product
from .util import Kept

MODULES = ['core', 'Ellipsoid']
BOUNDS = ('unit balls of dimension 1-5; alignment of free vectors of dimension 1-3 (zero vectors included for orthogonality), flat, '
          'row and column; fusion condition for free symmetric matrices, centres and parameter in dimensions 1-2, diagonal in 3')


@harness('C30', product(n=[1, 2, 3, 4, 5]))
def unit_ball(env, n):
    e = env.code.core.ell_unitball(n)
    env.check('ellipsoid', type(e) is env.code.Ellipsoid or isinstance(e, env.code.Ellipsoid))
    if env.check('shapes', env.shape(e.get_shape_mat()) == (n, n) and env.shape(e.get_center_vec()) == (n,)):
        env.eqs('identity', e.get_shape_mat(), env.eye(n))
        env.eqs('origin', e.get_center_vec(), [0] * n)
    p, q = env.code.core.ell_unitball(n), env.code.core.ell_unitball(n)
    env.check('new object', p is not q)


def shaped(env, v, sh):
    return env.arr(v) if sh == 'flat' else env.arr([v]) if sh == 'row' else env.arr([[x] for x in v])


def vector(env, name, n, kind):
    if kind == 'zero':
        return [env.const(0, 1)] * n
    if kind == 'free':
        v = env.vec(name, n, -2, 2)
        env.assume(env.dot(v, v) >= env.const(1, 100))
        return v
    k = env.real(name + 'k', -2, 2, 1)
    env.assume(env.abs(k) >= env.frac(1, 10))
    i = int(kind)
    if i < n:
        return [k if j == i else env.const(0, 1) for j in range(n)]
    return [k * x for x in ([env.const(1, 3), env.const(-2, 3), env.const(2, 3)] if n == 3 else [env.const(-3, 5), env.const(4, 5)] if n == 2 else [env.const(1, 1)])]


@harness('C30', product(n=[1, 2, 3], vk=['free', '0', '3'], xk=['free', '1', '3'], sh=['flat', 'mixed']) + product(n=[2], vk=['free'], xk=['free'], sh=['row', 'col', 'mixed2']) +
         product(n=[1, 2, 3], vk=['zero', '3'], xk=['zero', '0'], sh=['flat', 'col']),
         thorough=product(n=[1, 2, 3], vk=['free', '0', '1', '2', '3', 'zero'], xk=['free', '0', '1', '3', 'zero'], sh=['flat', 'row', 'col', 'mixed', 'mixed2']))
def align(env, n, vk, xk, sh):
    """orthogonal matrix that carries the second vector into the direction of the first"""
    v, x = vector(env, 'v', n, vk), vector(env, 'x', n, xk)
    a, b = {'mixed': ('flat', 'col'), 'mixed2': ('row', 'flat')}.get(sh, (sh, sh))
    A, B = shaped(env, v, a), shaped(env, x, b)
    keep = Kept(env, v=A, x=B)
    T = env.code.core.ell_valign(A, B)
    keep.check()
    if not env.check('shape', env.shape(T) == (n, n)):
        return
    T = env.rows(T)
    env.eqs('orthogonal', env.mm(T, env.T(T)), env.eye(n))
    if 'zero' not in (vk, xk):
        p, q = env.sqrt(env.dot(v, v)), env.sqrt(env.dot(x, x))
        env.eqs('aligned', [p * y for y in env.mv(T, x)], [q * y for y in v])


@harness('C30', product(case=['sizes', 'matrix', 'matrix 2', 'text', 'text 2']))
def align_rejected(env, case):
    f = env.code.core.ell_valign
    v = env.arr(env.vec('v', 2, 1, 2))
    if case == 'sizes':
        env.must_raise(case, f, v, env.arr(env.vec('x', 3, 1, 2)))
    elif case == 'matrix':
        env.must_raise(case, f, env.arr(env.mat('x', 2, 2, 1, 2)), v)
    elif case == 'matrix 2':
        env.must_raise(case, f, v, env.arr(env.mat('x', 2, 2, 1, 2)))
    elif case == 'text':
        env.must_raise(case, f, env.np.array(['a', 'b']), v)
    else:
        env.must_raise(case, f, v, env.np.array(['a', 'b']))


class Dual(object):
    """value and derivative along the parameter"""

    def __init__(self, v, d=0):
        self.v, self.d = v, d

    def __add__(self, o):
        return Dual(self.v + o.v, self.d + o.d) if isinstance(o, Dual) else Dual(self.v + o, self.d)
    __radd__ = __add__

    def __mul__(self, o):
        return Dual(self.v * o.v, self.v * o.d + self.d * o.v) if isinstance(o, Dual) else Dual(self.v * o, self.d * o)
    __rmul__ = __mul__

    def __neg__(self):
        return Dual(-self.v, -self.d)

    def __sub__(self, o):
        return self + (-o)

    def __rsub__(self, o):
        return (-self) + o

    def inv(self):
        return Dual(1 / self.v, -self.d / (self.v * self.v))


def det(m):
    if len(m) == 1:
        return m[0][0]
    s = 0
    for j in range(len(m)):
        t = m[0][j] * det([[r[c] for c in range(len(m)) if c != j] for r in m[1:]])
        s = s + (t if j % 2 == 0 else -t)
    return s


def adj(m):
    n = len(m)
    if n == 1:
        return [[1]]
    out = [[None] * n for _ in range(n)]
    for i in range(n):
        for j in range(n):
            x = det([[m[r][c] for c in range(n) if c != j] for r in range(n) if r != i])
            out[j][i] = x if (i + j) % 2 == 0 else -x
    return out


@harness('C30', product(n=[1, 2], sh=['flat', 'col'], mult=[None, 1]) + product(n=[3], sh=['flat'], mult=[None]),
         thorough=product(n=[1, 2, 3], sh=['flat', 'col'], mult=[None, 1, 2, 5]))
def fusion(env, n, sh, mult):
    """the fusion condition is the derivative of the logarithm of k^n / det X, times -k det^2 X"""
    a = env.real('a', 0, 1, 0.25)
    if n < 3:
        S = []
        for k in range(2):
            d = [env.real('s%d_%d' % (k, i), 1, 3, 1.5 + i) for i in range(n)]
            o = env.real('o%d' % k, env.frac(-1, 2), env.frac(1, 2), 0.25) if n == 2 else 0
            S.append([[d[i] if i == j else o for j in range(n)] for i in range(n)])
    else:
        S = [[[env.real('s%d_%d' % (k, i), 1, 3, 1.5 + i) if i == j else env.const(0, 1) for j in range(n)] for i in range(n)] for k in range(2)]
    q1, q2 = env.vec('p', n, -1, 1), env.vec('r', n, -1, 1)
    m = n if mult is None else mult
    args = [shaped(env, q1, sh), env.arr(S[0]), shaped(env, q2, sh), env.arr(S[1])]
    keep = Kept(env, a=args[0], b=args[1], c=args[2], d=args[3])
    f = env.code.core.ell_fusion_lambda(a, *args, m)
    keep.check()
    f = env.flat(f)
    if not env.check('one number', len(f) == 1):
        return
    A = Dual(a, 1)
    B = Dual(1 - a, -1)
    X = [[A * S[0][i][j] + B * S[1][i][j] for j in range(n)] for i in range(n)]
    D = det(X)
    Y = adj(X)
    w = env.sub(q2, q1)
    l, r = [sum(w[i] * S[1][i][j] for i in range(n)) for j in range(n)], [sum(S[0][i][j] * w[j] for j in range(n)) for i in range(n)]
    s = 0
    for i in range(n):
        for j in range(n):
            s = s + (Y[i][j] * l[i] * r[j])
    if not isinstance(s, Dual):
        s = Dual(s, 0)
    K = 1 - A * B * s * D.inv()
    env.eq('fusion condition', f[0], K.v * D.v * D.d - m * D.v * D.v * K.d)
