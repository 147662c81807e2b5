"""C13 negation is point reflection"""
from ..harness import harness, product
from .C03 import mk, same, objs, size

MODULES = ['Ellipsoid', 'Hyperplane', 'AEllipsoid', 'ABasicEllipsoid']
BOUNDS = ('dimensions 0-3; arrays of shapes (), (k,), (k,m), (k,m,l), empty arrays, single objects and lists; symbolic centres, '
          'roots, normals, shifts and tolerances, integer plotting properties')
SH = [(), (1,), (2,), (3,), (2, 1), (1, 2), (1, 1), (2, 2), (1, 2, 1), (2, 1, 2)]


def neg(w, cls):
    w = list(w)
    w[0] = [-x for x in w[0]]
    if cls == 'Hyperplane':
        w[1] = [-x for x in w[1]]
    return w


@harness('C13', product(cls=['Ellipsoid', 'Hyperplane'], n=[2], sh=SH) + product(cls=['Ellipsoid', 'Hyperplane'], n=[1, 3], sh=[(), (2,), (2, 1)]) +
         product(cls=['Ellipsoid'], n=[0], sh=[(), (2,), (1, 2)]),
         thorough=product(cls=['Ellipsoid', 'Hyperplane'], n=[1, 2, 3], sh=SH) + product(cls=['Ellipsoid'], n=[0], sh=SH))
def arrays(env, cls, n, sh):
    """every object of the array is reflected, arrangement and operands kept"""
    sh = tuple(sh)
    C = getattr(env.code, cls)
    ow = [mk(env, cls, i, n) for i in range(size(sh))]
    a = env.lay(env.np.array([x[0] for x in ow]).reshape(sh))
    r = C.uminus(a)
    env.check('arrangement', env.shape(r) == sh)
    if len(objs(r)) != len(ow):
        return
    for o, (x, w) in zip(objs(r), ow):
        same(env, 'negated', o, neg(w, cls))
        same(env, 'operand', x, w)
        env.check('new object', o is not x)
        env.check('class', type(o) is type(x))
    b = C.uminus(r)
    env.check('arrangement', env.shape(b) == sh)
    for o, (x, w) in zip(objs(b), ow):
        same(env, 'negated twice', o, w)


@harness('C13', product(cls=['Ellipsoid', 'Hyperplane'], n=[0, 1, 2, 3], form=['op', 'single', 'list', 'tuple']))
def forms(env, cls, n, form):
    """unary minus, single objects, lists"""
    if cls == 'Hyperplane' and n == 0:
        return
    C = getattr(env.code, cls)
    ow = [mk(env, cls, i, n) for i in range(1 if form in ('op', 'single') else 3)]
    r = {'op': lambda: [-ow[0][0]], 'single': lambda: objs(C.uminus(ow[0][0])),
         'list': lambda: objs(C.uminus([x[0] for x in ow])), 'tuple': lambda: objs(C.uminus(tuple(x[0] for x in ow)))}[form]()
    env.check('one result for each', len(r) == len(ow))
    for o, (x, w) in zip(r, ow):
        same(env, 'negated', o, neg(w, cls))
        same(env, 'operand', x, w)
    if form == 'op':
        same(env, 'negated twice', -r[0], ow[0][1])


@harness('C13', product(n=[1, 2, 3], kind=['id', 'fix', 'rot']))
def reflection(env, n, kind):
    """a point belongs to the ellipsoid exactly when its reflection belongs to the negated one"""
    Q, V, a = env.spd('q', n, kind)
    c = env.vec('c', n, -2, 2)
    e = env.code.Ellipsoid(env.arr(c), env.arr(Q))
    g = -e
    l = env.vec('l', n, -2, 2)
    env.assume(env.dot(l, l) >= env.const(1, 4))
    env.psd_form(V, a, l, True)
    r1 = env.flat(env.code.Ellipsoid.rho([e], env.arr([-x for x in l]).reshape(n, 1))[0])[0]
    r2 = env.flat(env.code.Ellipsoid.rho([g], env.arr(l).reshape(n, 1))[0])[0]
    env.eq('support of the reflection', r1, r2)


@harness('C13', product(n=[1, 2, 3]))
def hyperplane_points(env, n):
    """negating a hyperplane does not change the set"""
    v, s = env.vec('v', n, -2, 2), env.real('s', -2, 2)
    env.assume(env.dot(v, v) >= env.const(1, 4))
    h = env.code.Hyperplane(env.arr(v), s)
    x = env.vec('x', n, -2, 2)
    X = env.lay(env.arr(x).reshape(n, 1))
    H = env.code.Hyperplane
    env.check('same points', bool(env.flat(H.contains([h], X))[0]) == bool(env.flat(H.contains([-h], X))[0]))


@harness('C13', product(cls=['Ellipsoid', 'Hyperplane'], case=['empty', 'empty2', 'type', 'class']))
def arguments(env, cls, case):
    C = getattr(env.code, cls)
    if case.startswith('empty'):
        sh = (0,) if case == 'empty' else (2, 0)
        env.check('empty', env.shape(C.uminus(env.np.empty(sh, dtype=object))) == sh)
        return
    o = mk(env, 'Hyperplane' if cls == 'Ellipsoid' else 'Ellipsoid', 0, 2)[0]
    env.must_raise(case, C.uminus, [1] if case == 'type' else [o])
