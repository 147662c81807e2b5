"""C02 objects own their data"""
from ..harness import harness, product

MODULES = ['Ellipsoid', 'AEllipsoid', 'Hyperplane', 'ABasicEllipsoid', 'core']
BOUNDS = ('dimensions 1-3, one or two objects; sequences construct, write an argument, write up to two accessor '
          'results, read again, with symbolic written values at every position; every public query and operation on '
          'symbolic operands')


def state(env, o):
    """everything an object reports"""
    a, b = o.parameters()
    r = env.flat(a) + env.flat(b)
    cls = o.__class__
    r += env.flat(cls.get_abs_tol([o], None)) + env.flat(cls.get_rel_tol([o], None))
    return r


def keep(env, objs, arrs):
    return ([(o, state(env, o)) for o in objs], [(a, env.shape(a), env.flat(a)) for a in arrs])


def kept(env, label, k):
    for o, s in k[0]:
        env.eqs(label + ': operand', state(env, o), s)
    for a, sh, f in k[1]:
        env.check(label + ': argument shape', env.shape(a) == sh)
        env.eqs(label + ': argument', a, f)


def scribble(env, a, v):
    """overwrite every element of an array in place"""
    a[...] = v


def mk_ell(env, name, n, kind='rot', lo=0.5, **kw):
    Q, V, a = env.spd(name, n, kind)
    c = env.vec(name + 'c', n, -2, 2)
    return env.code.Ellipsoid(env.arr(c), env.arr(Q), **kw), c, Q, V, a


@harness('C02', product(n=[1, 2, 3], form=['flat', 'row', 'col', 'noc']))
def ell_args(env, n, form):
    """overwriting the arrays given to the constructor does not change the ellipsoid"""
    E = env.code.Ellipsoid
    Q, V, a = env.spd('q', n, 'rot')
    c = env.vec('c', n, -2, 2) if form != 'noc' else [0.] * n
    ca = env.arr(c)
    ca = {'flat': lambda: ca, 'noc': lambda: None, 'row': lambda: ca.reshape(1, n),
          'col': lambda: ca.reshape(n, 1)}[form]()
    Qa = env.arr(Q)
    ell = E(Qa) if ca is None else E(ca, Qa)
    w = env.real('w', -9, 9)
    if ca is not None:
        scribble(env, ca, w)
    scribble(env, Qa, w)
    env.eqs('centre', ell.get_center_vec(), c)
    env.eqs('matrix', ell.get_shape_mat(), Q)


ACC = ['params0', 'params1', 'double0', 'double1', 'center', 'shape', 'dict0', 'dict1', 'priv0', 'priv1']


def acc(env, ell, k):
    if k == 'params0':
        return ell.parameters()[0]
    if k == 'params1':
        return ell.parameters()[1]
    if k == 'double0':
        return ell.double()[0]
    if k == 'double1':
        return ell.double()[1]
    if k == 'center':
        return ell.get_center_vec()
    if k == 'shape':
        return ell.get_shape_mat()
    if k in ('dict0', 'dict1'):
        d = ell.to_dict([ell])[0].flatten()[0]
        return d['center_vec' if k == 'dict0' else 'shape_mat']
    if k == 'copy0':
        return ell.get_copy([ell]).flatten()[0].get_center_vec()


@harness('C02', product(n=[1, 2], first=ACC[:8]))
def ell_results(env, n, first):
    """overwriting what the accessors return does not change the ellipsoid (sequences of two writes)"""
    ell, c, Q, V, a = mk_ell(env, 'q', n)
    second = env.choice('second', ACC[:8])
    w1, w2 = env.real('w1', -9, 9), env.real('w2', -9, 9)
    r1 = acc(env, ell, first)
    r2 = acc(env, ell, second)
    scribble(env, r1, w1)
    env.eqs('centre', ell.get_center_vec(), c)
    env.eqs('matrix', ell.get_shape_mat(), Q)
    scribble(env, r2, w2)
    env.eqs('centre', ell.parameters()[0], c)
    env.eqs('matrix', ell.parameters()[1], Q)


@harness('C02', product(n=[1, 2, 3], form=['flat', 'row', 'col']))
def hyp_args(env, n, form):
    """the same for hyperplanes"""
    H = env.code.Hyperplane
    v = env.vec('v', n, -2, 2)
    s = env.real('s', -2, 2)
    va = env.arr(v)
    va = {'flat': lambda: va, 'row': lambda: va.reshape(1, n), 'col': lambda: va.reshape(n, 1)}[form]()
    sa = env.arr([s])
    as_arr = env.choice('shift', [0, 1])
    h = H(va, sa if as_arr else s)
    w = env.real('w', -9, 9)
    scribble(env, va, w)
    scribble(env, sa, w)
    env.eqs('normal', h.parameters()[0], v)
    env.eqs('shift', [h.parameters()[1]], [s])
    for k in range(2):
        scribble(env, h.parameters()[0], w)
        scribble(env, h.double()[0], w)
        env.eqs('normal', h.parameters()[0], v)
        env.eqs('shift', [h.double()[1]], [s])
    env.assume(env.dot(v, v) >= env.const(1, 4))
    d = h.to_dict([h])[0].flatten()[0]
    scribble(env, d['normal_vec'], w)
    env.eqs('normal', h.parameters()[0], v)


OPS = ['rho1', 'rho2', 'rhoN', 'internal_i', 'internal_u', 'bigger', 'ea', 'ia', 'proj', 'uminus', 'neg', 'copy', 'eq', 'eqop',
       'dict', 'volume', 'trace', 'eigs', 'dim', 'degen', 'empty', 'props', 'str', 'rep', 'polar', 'boundary', 'rho_boundary']


@harness('C02', product(n=[1, 2], op=OPS))
def ell_ops(env, n, op):
    """queries and set operations on ellipsoids leave operands and arguments alone"""
    E = env.code.Ellipsoid
    if op in ('boundary', 'rho_boundary') and n == 1:
        return
    kind = 'rot'
    if op in ('str', 'eq', 'eqop', 'bigger', 'ia', 'ea', 'polar', 'rho_boundary', 'internal_i', 'internal_u'):
        kind = 'id'
    e1, c1, Q1, V1, a1 = mk_ell(env, 'p', n, kind)
    if op in ('eq', 'eqop'):     # one symbolic difference, otherwise the comparison branches too often
        d = env.real('d', -1, 1, 0.0)
        c2, Q2, V2, a2 = [c1[0] + d] + c1[1:], Q1, V1, a1
        e2 = E(env.arr(c2), env.arr(Q2))
    else:
        e2, c2, Q2, V2, a2 = mk_ell(env, 'r', n, 'id')
    L = env.vec('l', n, -2, 2, [1.0] + [0.5] * (n - 1))
    if op in ('internal_i', 'internal_u'):
        L = [env.const(1), env.const(1, 2)][:n]
    if op == 'ia':
        L = L[:1] + [0.] * (n - 1)
    env.assume(env.dot(L, L) >= env.const(1, 4))
    for V, a in ((V1, a1), (V2, a2)):
        env.psd_form(V, a, L, True)
    L2 = [[x, 2 * x] for x in L]
    one = env.arr([[x] for x in L])
    two = env.arr(L2)
    arr = env.np.array([e1, e2])
    if op == 'polar':
        env.assume(env.and_(*[env.abs(x) <= env.const(1, 100) for x in c1]))
    k = keep(env, [e1, e2], [one, two])
    if op == 'rho1':
        E.rho([e1], one)
    elif op == 'rho2':
        E.rho([e1], two)
    elif op == 'rhoN':
        E.rho(arr, one)
    elif op in ('internal_i', 'internal_u'):
        E.is_internal(arr, one, op[-1])
    elif op == 'bigger':
        e1.is_bigger(e2)
    elif op == 'ea':
        E.minksum_ea(arr, two)
    elif op == 'ia':
        E.minksum_ia(arr, two)
    elif op == 'proj':
        B = env.arr(env.rows(env.np.eye(n)))
        B0 = env.flat(B)
        E.get_projection(arr, B[:, :1])
        E.get_projection([e1], B)
        env.eqs('basis', B, B0)
    elif op == 'uminus':
        E.uminus(arr)
        E.uminus([e1])
    elif op == 'neg':
        -e1
    elif op == 'copy':
        E.get_copy(arr)
        E.get_copy([e1])
    elif op == 'eq':
        E.eq(arr, [e1])
    elif op == 'eqop':
        e1 == e2
    elif op == 'dict':
        ds = E.to_dict(arr, True)[0]
        d0 = [dict(x) for x in ds]
        E.from_dict(ds)
        for x, y in zip(ds, d0):
            env.check('dictionary keys', sorted(x) == sorted(y))
            for kk in y:
                env.eqs('dictionary', x[kk], y[kk])
    elif op == 'volume':
        E.volume(arr)
    elif op == 'trace':
        E.trace(arr)
    elif op == 'eigs':
        E.min_eig(arr)
        E.max_eig(arr)
    elif op == 'dim':
        E.dimension(arr)
        E.dimension(arr, return_rank=True)
    elif op == 'degen':
        E.is_degenerate(arr)
    elif op == 'empty':
        E.is_empty(arr)
    elif op == 'props':
        t, _ = E.get_abs_tol(arr)
        scribble(env, t, 5.)
        t = E.get_rel_tol(arr, None)
        scribble(env, t, 5.)
        t = E.get_n_plot_2d_points(arr)
        scribble(env, t, 5.)
    elif op == 'str':
        str(e1)
    elif op == 'rep':
        r = e1.rep_mat([2, 1])
        E.projection(r, env.arr(env.rows(env.np.eye(n))))
    elif op == 'polar':
        E.polar(env.np.array([e1]))
    elif op == 'boundary':
        e1.get_boundary(4)
    elif op == 'rho_boundary':
        e1.get_rho_boundary(4)
    kept(env, op, k)
    env.check('array elements', arr[0] is e1 and arr[1] is e2)


HOPS = ['contains', 'containsN', 'parallel', 'uminus', 'neg', 'eq', 'eqop', 'dict', 'dim', 'copy', 'rep', 'str', 'props']


@harness('C02', product(n=[1, 2, 3], op=HOPS))
def hyp_ops(env, n, op):
    """queries and operations on hyperplanes leave operands and arguments alone"""
    H = env.code.Hyperplane
    hs = []
    for i in range(2):
        if op in ('eq', 'eqop'):
            k = env.real('k%d' % i, env.frac(1, 2), 2)
            v = [k * x for x in ([1], [env.const(3, 5), env.const(4, 5)],
                                 [env.const(2, 3), env.const(1, 3), env.const(-2, 3)])[n - 1]]
        else:
            v = env.vec('v%d' % i, n, -2, 2)
        env.assume(env.dot(v, v) >= env.const(1, 4))
        hs.append(H(env.arr(v), env.real('s%d' % i, -2, 2)))
    h1, h2 = hs
    arr = env.np.array(hs)
    x1 = env.np_vec('x', n, -2, 2).reshape(n, 1)
    x2 = env.np_vec('y', 2 * n, -2, 2).reshape(n, 2)
    k = keep(env, hs, [x1, x2])
    if op == 'contains':
        H.contains([h1], x1)
    elif op == 'containsN':
        H.contains(arr, x2)
        H.contains(arr, x1)
    elif op == 'parallel':
        H.is_parallel([h1], [h2])
        H.is_parallel(arr, arr)
    elif op == 'uminus':
        H.uminus(arr)
    elif op == 'neg':
        -h1
    elif op == 'eq':
        H.eq(arr, [h1])
    elif op == 'eqop':
        h1 == h2
    elif op == 'dict':
        ds = H.to_dict(arr, True)[0]
        d0 = [dict(x) for x in ds]
        H.from_dict(ds)
        for x, y in zip(ds, d0):
            env.check('dictionary keys', sorted(x) == sorted(y))
            for kk in y:
                env.eqs('dictionary', x[kk], y[kk])
    elif op == 'dim':
        H.dimension(arr)
    elif op == 'copy':
        H.get_copy(arr)
    elif op == 'rep':
        h1.rep_mat([1, 2])
    elif op == 'str':
        str(h1)
    elif op == 'props':
        t, _ = H.get_abs_tol(arr)
        scribble(env, t, 5.)
    kept(env, op, k)
    env.check('array elements', arr[0] is h1 and arr[1] is h2)


@harness('C02', product(n=[1, 2, 3], many=[False, True]))
def projection_in_place(env, n, many):
    """the in-place projection changes the ellipsoids it is called on and nothing else"""
    E = env.code.Ellipsoid
    e1, c1, Q1, V1, a1 = mk_ell(env, 'p', n, 'rot')
    e2, c2, Q2, V2, a2 = mk_ell(env, 'r', n, 'rot')
    e3, c3, Q3, V3, a3 = mk_ell(env, 's', n, 'rot')
    B = env.arr(env.rows(env.np.eye(n)))[:, :1]
    B0 = env.flat(B)
    k = keep(env, [e3] if many else [e2, e3], [])
    r = E.projection(env.np.array([e1, e2]) if many else [e1], B)
    kept(env, 'projection', k)
    env.eqs('basis', B, B0)
    for e, c, Q in ((e1, c1, Q1),) + (((e2, c2, Q2),) if many else ()):
        env.eqs('projected centre', e.get_center_vec(), c[:1])
        env.eqs('projected matrix', e.get_shape_mat(), [[Q[0][0]]])
    env.check('returned objects', r.flatten()[0] is e1 and (not many or r.flatten()[1] is e2))
