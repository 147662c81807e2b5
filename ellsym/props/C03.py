"""C03 copies, replication, dictionary round trips"""
from ..harness import harness, product

MODULES = ['Ellipsoid', 'AEllipsoid', 'Hyperplane', 'ABasicEllipsoid']
BOUNDS = ('dimensions 0-3; arrays of shapes (), (1,), (2,), (3,), (2,1), (1,2), (2,2), (1,2,1), (2,1,2), (0,), (2,0); symbolic '
          'centres, roots, normals, shifts and tolerances; integer plotting properties')
SH = [(), (1,), (2,), (3,), (2, 1), (1, 2), (1, 1), (2, 2), (1, 2, 1), (2, 1, 2)]


S1 = [(), (1,), (2, 1)]
BIG = SH[1:] + [(0,), (2, 0)]


def size(sh):
    k = 1
    for x in sh:
        k *= x
    return k


def mk(env, cls, i, n):
    """object number i and what it must report"""
    t = env.real('t%d' % i, env.frac(1, 1000), env.frac(1, 10), 0.01 + 0.001 * i)
    r = env.real('r%d' % i, env.frac(1, 1000), env.frac(1, 10), 0.02 + 0.001 * i)
    if cls == 'Ellipsoid':
        kw = dict(abs_tol=t, rel_tol=r, n_plot_2d_points=10 + i, n_plot_3d_points=20 + i)
        if n == 0:
            return env.code.Ellipsoid(**kw), ([], [], t, r, 10 + i, 20 + i)
        Q, V, a = env.spd('q%d' % i, n, 'rot' if n < 3 and i < 2 else 'id')
        c = env.vec('c%d_' % i, n, -2, 2)
        return env.code.Ellipsoid(env.arr(c), env.arr(Q), **kw), (c, env.flat(Q), t, r, 10 + i, 20 + i)
    v = env.vec('v%d_' % i, n, -2, 2)
    s = env.real('s%d' % i, -2, 2)
    return env.code.Hyperplane(env.arr(v), s, abs_tol=t, rel_tol=r), (v, [s], t, r)


def report(env, o):
    cls = o.__class__
    a, b = o.parameters()
    r = [env.flat(a), env.flat(b), env.flat(cls.get_abs_tol([o], None))[0], env.flat(cls.get_rel_tol([o], None))[0]]
    if hasattr(cls, 'get_shape_mat'):
        r += [env.flat(cls.get_n_plot_2d_points([o]))[0], env.flat(cls.get_n_plot_3d_points([o]))[0]]
    return r


NAMES = ['first parameter', 'second parameter', 'abs_tol', 'rel_tol', 'n_plot_2d_points', 'n_plot_3d_points']


def same(env, label, o, want, props=True):
    got = report(env, o)
    for nm, g, w in list(zip(NAMES, got, want))[:None if props else 2]:
        env.eqs('%s: %s' % (label, nm), [g], [w])


def objs(a):
    return list(a.flatten())


def independent(env, label, new, old, wold):
    """writing into one object does not show in another"""
    for i, o in enumerate(new):
        env.check(label + ': new object', all(o is not x for x in old) and all(o is not x for x in new[:i]))


@harness('C03', product(cls=['Ellipsoid', 'Hyperplane'], n=[2], sh=SH) +
         product(cls=['Ellipsoid', 'Hyperplane'], n=[1, 3], sh=S1) + product(cls=['Ellipsoid'], n=[0], sh=SH[:4]),
         thorough=product(cls=['Ellipsoid', 'Hyperplane'], n=[1, 2, 3], sh=SH) +
         product(cls=['Ellipsoid'], n=[0], sh=SH))
def copies(env, cls, n, sh):
    """get_copy: equal independent objects in the same arrangement"""
    C = getattr(env.code, cls)
    ow = [mk(env, cls, i, n) for i in range(size(sh))]
    old = [x[0] for x in ow]
    a = env.lay(env.np.array(old).reshape(sh))
    r = C.get_copy(a)
    env.check('arrangement', env.shape(r) == sh)
    if len(objs(r)) != len(old):
        return
    for o, w in zip(objs(r), ow):
        same(env, 'copy', o, w[1])
    independent(env, 'copy', objs(r), old, None)
    if cls == 'Ellipsoid' and n:
        k = env.choice('changed', list(range(len(old))))
        B = env.np.eye(n)[:, :1]
        C.projection([objs(r)[k]], B)
        for i, w in enumerate(ow):
            same(env, 'original', old[i], w[1])
            if i != k:
                same(env, 'other copy', objs(r)[i], w[1])


@harness('C03', product(cls=['Ellipsoid', 'Hyperplane'], form=['single', 'list', 'empty', 'empty2']))
def copies_forms(env, cls, form):
    """single objects, lists and empty arrays"""
    C = getattr(env.code, cls)
    if form.startswith('empty'):
        sh = (0,) if form == 'empty' else (2, 0)
        env.check('empty', env.shape(C.get_copy(env.np.empty(sh, dtype=object))) == sh)
        return
    ow = [mk(env, cls, i, 2) for i in range(1 if form == 'single' else 3)]
    r = C.get_copy(ow[0][0] if form == 'single' else [x[0] for x in ow])
    env.check('arrangement', env.shape(r) == (() if form == 'single' else (3,)))
    for o, w in zip(objs(r), ow):
        same(env, 'copy', o, w[1])
    independent(env, 'copy', objs(r), [x[0] for x in ow], None)


@harness('C03', product(cls=['Ellipsoid', 'Hyperplane'], n=[2], sh=BIG, how=['rep_mat', 'from_rep_mat']) +
         product(cls=['Ellipsoid', 'Hyperplane'], n=[1, 3], sh=[(2,), (1, 2)], how=['rep_mat', 'from_rep_mat']) +
         product(cls=['Ellipsoid'], n=[0], sh=[(2,), (1, 2)], how=['rep_mat', 'from_rep_mat']),
         thorough=product(cls=['Ellipsoid', 'Hyperplane'], n=[1, 2, 3], sh=BIG, how=['rep_mat', 'from_rep_mat']) +
         product(cls=['Ellipsoid'], n=[0], sh=[(2,), (1, 2)], how=['rep_mat', 'from_rep_mat']))
def replicate(env, cls, n, sh, how):
    """rep_mat / from_rep_mat: the requested arrangement of independent equal objects"""
    C = getattr(env.code, cls)
    o, w = mk(env, cls, 0, n)
    form = env.choice('form', ['list', 'tuple', 'array'])
    sv = {'list': list(sh), 'tuple': tuple(sh), 'array': env.np.array(sh)}[form]
    if how == 'rep_mat':
        r = o.rep_mat(sv)
    else:
        kw = dict(abs_tol=w[2], rel_tol=w[3])
        if cls == 'Ellipsoid':
            kw.update(n_plot_2d_points=w[4], n_plot_3d_points=w[5])
        args = () if n == 0 else tuple(env.arr(x) if not isinstance(x, list) else x for x in (env.arr(w[0]), w[1]))
        if n and cls == 'Ellipsoid':
            args = (args[0], env.arr(w[1]).reshape(n, n))
        elif n:
            args = (args[0], w[1][0])
        r = C.from_rep_mat(*(args + (sv,)), **kw)
    env.check('arrangement', env.shape(r) == tuple(sh))
    for x in objs(r):
        same(env, 'replica', x, w)
    independent(env, 'replica', objs(r), [o], None)
    if cls == 'Ellipsoid' and n and size(sh) > 1:
        k = env.choice('changed', list(range(size(sh))))
        C.projection([objs(r)[k]], env.np.eye(n)[:, :1])
        same(env, 'original', o, w)
        for i, x in enumerate(objs(r)):
            if i != k:
                same(env, 'other replica', x, w)


@harness('C03', product(cls=['Ellipsoid', 'Hyperplane'], sv=[[-1], [2, -1], [1.5], [[1, 2], [2, 1]], [], 'ab', ['a']]))
def replicate_bad(env, cls, sv):
    """an inadmissible shape is rejected"""
    o, w = mk(env, cls, 0, 2)
    env.must_raise('shape', o.rep_mat, sv)


@harness('C03', product(n=[2], sh=SH, props=[False, True]) + product(n=[1, 3], sh=S1, props=[False, True]) +
         product(n=[0], sh=SH[1:3], props=[False, True]),
         thorough=product(n=[1, 2, 3], sh=SH, props=[False, True]) + product(n=[0], sh=SH[1:3], props=[False, True]))
def ell_dict(env, n, sh, props):
    """to_dict reports centre and matrix, from_dict rebuilds the objects"""
    E = env.code.Ellipsoid
    ow = [mk(env, 'Ellipsoid', i, n) for i in range(size(sh))]
    a = env.lay(env.np.array([x[0] for x in ow]).reshape(sh))
    d, names, descr, funcs = E.to_dict(a, props)
    env.check('arrangement', env.shape(d) == sh)
    keys = ['center_vec', 'shape_mat'] + (['abs_tol', 'rel_tol', 'n_plot_2d_points', 'n_plot_3d_points'] if props else [])
    env.check('names', sorted(names) == sorted(keys) and sorted(descr) == sorted(keys))
    for x, w in zip(objs(d), ow):
        env.check('keys', sorted(x) == sorted(keys))
        for k, v in zip(keys, w[1]):
            env.eqs('dictionary ' + k, [x[k]], [v])
        env.check('matrix shape', env.shape(x['shape_mat']) == (n, n) and env.shape(x['center_vec']) == (n,))
    form = env.choice('form', ['array', 'list']) if len(sh) == 1 else 'array'
    b = E.from_dict(d if form == 'array' else list(d))
    env.check('arrangement', env.shape(b) == sh)
    for o, w in zip(objs(b), ow):
        if props:
            same(env, 'round trip', o, w[1])
        else:
            same(env, 'round trip', o, tuple(w[1][:2]) + (1e-6, 1e-5, 200, 200))
    independent(env, 'round trip', objs(b), [x[0] for x in ow], None)


@harness('C03', product(n=[2], sh=SH, props=[True]) + product(n=[1, 3], sh=S1, props=[False, True]) +
         product(n=[2], sh=S1, props=[False]),
         thorough=product(n=[1, 2, 3], sh=SH, props=[False, True]))
def hyp_dict(env, n, sh, props):
    """hyperplanes: the dictionary holds a unit normal with non-negative shift describing the same set"""
    H = env.code.Hyperplane
    ow = []
    for i in range(size(sh)):
        k = env.real('k%d' % i, env.frac(1, 2), 2, 1.25)
        sg = env.choice('sg%d' % i, [1, -1]) if i < 2 else (-1) ** i
        v = [k * sg * x for x in ([1], [env.const(3, 5), env.const(4, 5)],
                                  [env.const(2, 3), env.const(1, 3), env.const(-2, 3)])[n - 1]]
        s = env.real('s%d' % i, -2, 2) if i < 2 else env.real('s%d' % i, -2, -env.frac(1, 10), -1.)
        t = env.real('t%d' % i, env.frac(1, 1000), env.frac(1, 10), 0.01 + 0.001 * i)
        r = env.real('r%d' % i, env.frac(1, 1000), env.frac(1, 10), 0.02 + 0.001 * i)
        ow.append((H(env.arr(v), s, abs_tol=t, rel_tol=r), (v, s, t, r, k)))
    a = env.lay(env.np.array([x[0] for x in ow]).reshape(sh))
    d, names, descr, funcs = H.to_dict(a, props)
    env.check('arrangement', env.shape(d) == sh)
    keys = ['normal_vec', 'shift'] + (['abs_tol', 'rel_tol'] if props else [])
    env.check('names', sorted(names) == sorted(keys) and sorted(descr) == sorted(keys))
    b = H.from_dict(d)
    env.check('arrangement', env.shape(b) == sh)

    def check(label, nv, sh_, w):
        v, s, t, r, k = w
        env.check(label + ': dimension', env.shape(nv) == (n,))
        f = env.flat(nv)
        env.eq(label + ': unit normal', env.dot(f, f), 1)
        env.le(label + ': non-negative shift', 0, sh_)
        # same set: (nv, shift) = +-(v, s) / k
        sgn = env.dot(f, v) / k
        env.eq(label + ': collinear', sgn * sgn, 1)
        env.eq(label + ': shift', sh_, sgn * s / k)
    for x, o, w in zip(objs(d), objs(b), ow):
        env.check('keys', sorted(x) == sorted(keys))
        check('dictionary', x['normal_vec'], env.flat([x['shift']])[0], w[1])
        nv, s = o.parameters()
        check('round trip', nv, s, w[1])
        if props:
            env.eqs('dictionary tolerances', [x['abs_tol'], x['rel_tol']], w[1][2:4])
        want = w[1][2:4] if props else (1e-6, 1e-5)
        env.eqs('round trip tolerances', report(env, o)[2:], list(want))
    independent(env, 'round trip', objs(b), [x[0] for x in ow], None)


@harness('C03', product(cls=['Ellipsoid', 'Hyperplane'], pat=[[0, 0], [0, 1, 0], [1, 0, 0], [0, 1, 1, 0]], sq=[0, 1]))
def repeated(env, cls, pat, sq):
    """an array that holds one object at several positions: every position gets a copy of its own"""
    C = getattr(env.code, cls)
    ow = [mk(env, cls, i, 2) for i in range(max(pat) + 1)]
    a = env.np.array([ow[i][0] for i in pat])
    if sq:
        a = a.reshape((len(pat), 1) if len(pat) < 4 else (2, 2))
    r = C.get_copy(a)
    if not env.check('arrangement', env.shape(r) == env.shape(a)):
        return
    for o, i in zip(objs(r), pat):
        same(env, 'copy', o, ow[i][1])
    independent(env, 'copy', objs(r), [x[0] for x in ow], None)
    if cls == 'Ellipsoid':
        k = env.choice('changed', list(range(len(pat))))
        C.projection([objs(r)[k]], env.np.eye(2)[:, :1])
        for i, o in enumerate(objs(r)):
            if i != k:
                same(env, 'other copy', o, ow[pat[i]][1])
        d = C.to_dict(a, True)[0]
        b = objs(C.from_dict(d))
        for i, o in enumerate(b):
            same(env, 'round trip', o, ow[pat[i]][1])
        independent(env, 'round trip', b, [x[0] for x in ow], None)


@harness('C03', product(cls=['Ellipsoid', 'Hyperplane'], n=[1, 2, 3], what=['copy', 'rep_mat', 'from_rep_mat', 'from_dict']))
def storage(env, cls, n, what):
    """objects do not share their data: writing into the arrays held by one shows in no other"""
    C = getattr(env.code, cls)
    o, w = mk(env, cls, 0, n)
    if what == 'copy':
        others = objs(C.get_copy([o, o]))
    elif what == 'rep_mat':
        others = objs(o.rep_mat([3]))
    elif what == 'from_rep_mat':
        x, y = o.parameters()
        others = objs(C.from_rep_mat(x, y, [3], abs_tol=w[2], rel_tol=w[3], **(dict(n_plot_2d_points=w[4], n_plot_3d_points=w[5]) if cls == 'Ellipsoid' else {})))
    elif cls == 'Hyperplane':
        return
    else:
        d = C.to_dict([o], True)[0]
        others = objs(C.from_dict([d[0], d[0]]))
    k = env.choice('changed', list(range(len(others) + 1)))
    every = [o] + others
    names = ['_center_vec', '_shape_mat'] if cls == 'Ellipsoid' else ['_normal_vec', '_shift']
    for nm in names:
        for a in [x for q, x in vars(every[k]).items() if q.endswith(nm)]:
            if hasattr(a, 'flat') and env.shape(a):
                a[...] = 7.
    for i, x in enumerate(every):
        if i != k:
            same(env, 'other object', x, w)
