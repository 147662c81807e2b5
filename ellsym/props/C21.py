"""C21 quadratic forms, inverses, volume and support helpers"""
import math
from ..harness import harness, product
from .util import Kept, direction, mk_ell
from .C11 import BALL, same_num

MODULES = ['ell']
BOUNDS = ('dimensions 1-3: symbolic full matrices for the plain form and the inverse (dimension 3: triangular times fixed basis), '
          'symbolic spectra and rotations for the inverse forms, volumes to dimension 4, up to 3 directions for the support helper')


def shaped(env, v, sh):
    if sh == 'flat':
        return env.arr(v)
    if sh == 'row':
        return env.arr([v])
    if sh == 'col':
        return env.arr([[x] for x in v])
    if sh == 'list':
        return list(v)
    raise ValueError(sh)


def form(env, out, label):
    f = env.flat(out)
    return f[0] if env.check(label + ': one number', len(f) == 1) else None


SHAPES = ['flat', 'row', 'col']


@harness('C21', product(n=[1, 2, 3], xs=SHAPES, cs=SHAPES + ['none', 'zero', 'zerof', 'scalar', 'list'], mode=['plain', 'Plain', None]))
def plain(env, n, xs, cs, mode):
    """(x-c)'Q(x-c) for any matrix Q"""
    if mode == 'Plain' and (xs != 'flat' or cs != 'row') or mode is None and cs != 'flat':
        return
    if cs == 'scalar' and n > 1:
        return
    Q, x = env.mat('q', n, n, -2, 2), env.vec('x', n, -2, 2)
    c = env.vec('c', n, -2, 2)
    MQ, X = env.arr(Q), shaped(env, x, xs)
    if cs in ('none', 'zero', 'zerof'):
        c = [env.const(0, 1)] * n
        args = {'none': [], 'zero': [0], 'zerof': [0.]}[cs]
    else:
        args = [c[0] if cs == 'scalar' else shaped(env, c, cs)]
    keep = Kept(env, q=MQ, x=X)
    kw = {} if mode is None else {'mode': mode}
    v = form(env, env.code.ell.quad_mat(MQ, X, *args, **kw), 'plain')
    keep.check()
    if v is not None:
        d = env.sub(x, c)
        env.eq('form', v, env.dot(d, env.mv(Q, d)))


INV = product(n=[1, 2, 3], kind=['id', 'fix', 'rot'], xs=SHAPES, cs=['flat', 'col', 'zero'], mode=['inv', 'invadv']) + \
    product(n=[2], kind=['fix'], xs=['flat'], cs=['row'], mode=['INV', 'InvAdv'])


@harness('C21', [g for g in INV if g['kind'] == 'fix' or (g['n'] > 1 and (g['xs'], g['cs']) in (('flat', 'flat'), ('col', 'zero')))], thorough=INV)
def inverse(env, n, kind, xs, cs, mode):
    """(x-c)'Q^-1(x-c)"""
    Q, V, a = env.spd('q', n, kind)
    x, c = env.vec('x', n, -2, 2), env.vec('c', n, -2, 2)
    if cs == 'zero':
        c, C = [env.const(0, 1)] * n, 0
    else:
        C = shaped(env, c, cs)
    MQ, X = env.arr(Q), shaped(env, x, xs)
    keep = Kept(env, q=MQ, x=X)
    v = form(env, env.code.ell.quad_mat(MQ, X, C, mode), mode)
    keep.check()
    if v is not None:
        y = env.mv(env.T(V), env.sub(x, c))
        env.eq('form', v, sum((y[k] / a[k]) * (y[k] / a[k]) for k in range(n)))


@harness('C21', product(n=[1, 2, 3], mode=['inv', 'invadv']))
def inverse_full(env, n, mode):
    """matrices that are not symmetric"""
    V = env.basis('b', n, 'fix')
    U = [[env.real('u%d_%d' % (i, j), 1, 2, 1.5) if i == j else (env.real('u%d_%d' % (i, j), -1, 1, 0.5) if i < j and n < 3 or (i, j) == (0, 1) else env.const(0, 1))
          for j in range(n)] for i in range(n)]
    Q = U if n == 2 else env.mm(V, U)
    x = env.vec('x', n, -2, 2)
    y = env.mv(Q, x)
    v = form(env, env.code.ell.quad_mat(env.arr(Q), env.arr(y), 0., mode), mode)
    if v is not None:
        env.eq('form', v, env.dot(y, x))


@harness('C21', product(case=['not square', 'not matrix', 'x size', 'x matrix', 'x axes', 'c size', 'c matrix', 'c scalar', 'mode', 'text q', 'text x', 'text c'],
                        mode=['plain', 'inv', 'invadv']))
def rejected(env, case, mode):
    f = env.code.ell.quad_mat
    Q, x, c = env.arr(env.spd('q', 2, 'id')[0]), env.arr(env.vec('x', 2, -1, 1)), env.arr(env.vec('c', 2, -1, 1))
    if case == 'not square':
        env.must_raise(case, f, env.arr(env.mat('m', 2, 3, -1, 1)), x, c, mode)
        env.must_raise(case, f, env.arr(env.mat('m', 3, 2, -1, 1)), x, c, mode)
    elif case == 'not matrix':
        env.must_raise(case, f, x, x, c, mode)
    elif case == 'x size':
        env.must_raise(case, f, Q, env.arr(env.vec('y', 3, -1, 1)), c, mode)
        env.must_raise(case, f, Q, env.arr(env.vec('y', 1, -1, 1)), c, mode)
    elif case == 'x matrix':
        env.must_raise(case, f, Q, env.arr(env.mat('y', 2, 2, -1, 1)), c, mode)
    elif case == 'x axes':
        env.must_raise(case, f, Q, env.arr([env.mat('y', 1, 2, -1, 1)]), c, mode)
    elif case == 'c size':
        env.must_raise(case, f, Q, x, env.arr(env.vec('d', 3, -1, 1)), mode)
        env.must_raise(case, f, Q, x, env.arr(env.vec('d', 1, 1, 2)), mode)
    elif case == 'c matrix':
        env.must_raise(case, f, Q, x, env.arr(env.mat('d', 2, 2, 1, 2)), mode)
    elif case == 'c scalar':
        env.must_raise(case, f, Q, x, env.real('d', 1, 2), mode)
    elif case == 'mode':
        env.must_raise(case, f, Q, x, c, 'inverse' + mode)
    elif case == 'text q':
        env.must_raise(case, f, env.np.array([['a', 'b'], ['c', 'd']]), x, c, mode)
    elif case == 'text x':
        env.must_raise(case, f, Q, env.np.array(['a', 'b']), c, mode)
    else:
        env.must_raise(case, f, Q, x, env.np.array(['a', 'b']), mode)


@harness('C21', product(n=[1, 2, 3], kind=['full', 'id', 'fix', 'rot']))
def inv_mat(env, n, kind):
    """the refined inverse is the inverse"""
    if kind == 'full':
        if n == 3:
            Q = [[env.real('q%d_%d' % (i, j), -1, 1, 0.5) + (3 if i == j else 0) if i == j or (i, j) in ((0, 1), (1, 2), (2, 0)) else env.const(i - j, 4) for j in range(3)] for i in range(3)]
        else:
            Q = env.mat('q', n, n, -2, 2)
            det = Q[0][0] if n == 1 else Q[0][0] * Q[1][1] - Q[0][1] * Q[1][0]
            env.assume(env.abs(det) >= env.frac(1, 10))
    else:
        Q = env.spd('q', n, kind)[0]
    MQ = env.arr(Q)
    keep = Kept(env, q=MQ)
    R = env.code.ell.inv_mat(MQ)
    keep.check()
    if env.check('shape', env.shape(R) == (n, n)):
        R = env.rows(R)
        env.eqs('right inverse', env.mm(Q, R), env.eye(n))
        env.eqs('left inverse', env.mm(R, Q), env.eye(n))


@harness('C21', product(case=[0, 1, 2, 3]))
def inv_mat_rejected(env, case):
    f = env.code.ell.inv_mat
    env.must_raise('not square', f, [env.arr(env.mat('m', 2, 3, -1, 1)), env.arr(env.mat('m', 1, 2, -1, 1)), env.arr(env.vec('m', 2, 1, 2)),
                                     env.arr([env.mat('m', 2, 2, 1, 2)])][case])


@harness('C21', [dict(n=n, kind=k) for n in (1, 2, 3, 4) for k in ('id', 'fix', 'rot') if n < 4 or k == 'id'])
def volume(env, n, kind):
    Q, V, a = env.spd('q', n, kind)
    p = 1
    for x in a:
        p = p * x
    MQ = env.arr(Q)
    v = env.code.ell.ell_volume(MQ)
    env.eqs('argument kept', MQ, Q)
    same_num(env, 'volume', env.flat(v)[0], p * BALL[n], p)


@harness('C21', [dict(n=n, kind=k, nd=d, centre=c, tolk=t) for n in (1, 2, 3) for k in ('fix', 'rot') for d in (1, 2, 3) for c in ('none', 'col')
                 for t in ('none', 'given') if (c, t) != ('none', 'given') or d == 1])
def support(env, n, kind, nd, centre, tolk):
    """support values as a row and boundary points as columns, in the order of the directions"""
    Q, V, a = env.spd('q', n, kind)
    c = env.vec('c', n, -2, 2) if centre != 'none' else [env.const(0, 1)] * n
    ls = [direction(env, 'l%d' % j, n, 'free' if j == 0 and n < 3 else j) for j in range(nd)]
    for l in ls:
        env.psd_form(V, a, l, True)
    MQ, D = env.arr(Q), env.arr([[l[i] for l in ls] for i in range(n)])
    keep = Kept(env, q=MQ, d=D)
    args = []
    if tolk == 'given' or centre != 'none':
        args.append(env.real('t', env.frac(1, 1000000), env.frac(1, 100), 0.001) if tolk == 'given' else None)
    if centre != 'none':
        args.append(env.arr([[x] for x in c]))
    s, b = env.code.ell.rho_mat(MQ, D, *args)
    keep.check()
    if not env.check('shapes', env.shape(s) == (1, nd) and env.shape(b) == (n, nd)):
        return
    s, b = env.flat(s), env.rows(b)
    W = env.T(V)
    for j, l in enumerate(ls):
        w = s[j] - env.dot(c, l)
        p = [a[k] * env.dot(W[k], l) for k in range(n)]
        env.eq('squared width', w * w, env.dot(p, p))
        env.le('width', 0, w)
        y = env.mv(W, env.sub([r[j] for r in b], c))
        for k in range(n):
            env.eq('boundary point', w * y[k], a[k] * p[k])
