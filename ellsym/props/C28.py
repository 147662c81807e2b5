"""C28 membership, numeric test, error reports"""
import sys
import types
import warnings

from ..harness import harness, product
from .util import Kept

MODULES = ['common']
BOUNDS = ('membership of up to 4 symbolic numbers among up to 4 symbolic or fixed ones (pairs equal or apart is a solver branch), strings '
          'fixed; numeric test of symbolic scalars and arrays of every layout and of fixed other kinds; errors raised from functions, nested '
          'functions, methods and static methods of a module with a dotted name, 0-3 frames up')


def judge(env, A, B, r, same=None):
    same = same or (lambda x, y: x == y)
    if not env.check('two arrays', isinstance(r, tuple) and len(r) == 2):
        return
    yes, ind = r
    if not env.check('one answer for each', env.shape(yes) == (len(A),)):
        return
    inside = []
    for a, y in zip(A, env.flat(yes)):
        w = env.or_(*[same(a, b) for b in B]) if B else False
        env.check('member', env.iff(env.fork(y) if env.symbolic else bool(y), w))
        if env.fork(w):
            inside.append(a)
    I = env.flat(ind)
    if not env.check('one place for each member', env.shape(ind) == (len(inside),)):
        return
    for a, i in zip(inside, I):
        i = int(i)
        if env.check('place', 0 <= i < len(B)):
            env.check('equal element', same(B[i], a))
            env.check('first of the equal ones', env.not_(env.or_(*[same(b, a) for b in B[:i]])) if i else True)


@harness('C28', product(n=[1, 2], m=[1, 2], how=['array', 'list']) + product(n=[3], m=[1], how=['array']) + product(n=[3], m=[2], how=['array']) + product(n=[1], m=[3], how=['array']),
         thorough=product(n=[1, 2, 3], m=[1, 2, 3], how=['array', 'list', 'blist']))
def member(env, n, m, how):
    A, B = env.vec('a', n, -2, 2, [0.5, -1., 1.5]), env.vec('b', m, -2, 2, [1.5, 0.5, 0.25])
    for x in A:
        for y in B:
            env.assume(env.or_(x == y, x - y >= env.frac(1, 100), y - x >= env.frac(1, 100)))
    a = env.arr(A) if how != 'list' else list(A)
    b = env.arr(B) if how != 'blist' else list(B)
    keep = Kept(env, a=env.np.array(A) if how == 'list' else a, b=env.np.array(B) if how == 'blist' else b)
    r, x = env.attempt(env.code.common.is_member, a, b)
    keep.check()
    if env.check('returns', x is None):
        judge(env, A, B, r)


@harness('C28', product(n=[1, 2], b=[[3., 1., 2.], [2., 2., 1.], [-1., 5., 0., 5., 1.], [4.], []]) + [dict(n=1, b=[7., 6., 5., 4., 3., 2., 1., 0., -1., -2., -3., -4.])])
def member_fixed(env, n, b):
    """symbolic numbers among fixed ones, repeated or in any order"""
    A = env.vec('a', n, -5, 8, [2., 1., 5.])
    for i, x in enumerate(A):
        if i:
            env.assume(env.or_(x == 1, x == 5, x - 5 >= env.frac(1, 10)))
        for y in set(b):
            env.assume(env.or_(x == y, x - y >= env.frac(1, 100), y - x >= env.frac(1, 100)))
    r, x = env.attempt(env.code.common.is_member, env.arr(A), env.np.array(b))
    if env.check('returns', x is None):
        judge(env, A, list(b), r)


@harness('C28', product(a=[['x', 'abs', 'y', 'abs'], ['q'], [], ['rel', 'abs'], ['abs', 'q', 'rel', 'a']],
                        b=[['rel', 'abs', 'x'], ['abs'], ['abs', 'z', 'abs', 'rel', 'a'], ['A', 'Abs']], how=[0, 1]))
def member_strings(env, a, b, how):
    """names (fixed data)"""
    np = env.np
    r, x = env.attempt(env.code.common.is_member, np.array(a) if how else list(a), np.array(b) if how else list(b))
    if env.check('returns', x is None):
        judge(env, list(a), list(b), r)


@harness('C28', product(sh=[(), (1,), (3,), (2, 2), (0,), (1, 2, 2)], what=['real', 'int', 'bool', 'complex', 'list']))
def numeric(env, sh, what):
    sh = tuple(sh)
    n = 1
    for k in sh:
        n *= k
    np, f = env.np, env.code.common.is_numeric
    if what == 'real':
        v = env.vec('x', n, -3, 3)
        a = env.arr(v).reshape(sh) if sh else v[0]
    elif what == 'complex':
        a = env.carr(env.vec('x', n, -3, 3), env.vec('y', n, -3, 3), sh)
    elif what == 'list':
        a = env.vec('x', max(n, 1), -3, 3)
    else:
        a = np.zeros(sh, dtype=int) if what == 'int' else np.zeros(sh) > 1
    env.check('numeric', bool(f(a)))
    if sh:
        env.check('numeric', bool(f(a[:0])))


class Thing(object):
    pass


OTHER = {'string': 'x', 'none': None, 'object': Thing(), 'dict': {'a': 1}, 'strings': ['1', '2'], 'mixed': ['a', 1.], 'nones': [None, 1.],
         'class': int, 'function': len}


@harness('C28', product(what=sorted(OTHER)))
def not_numeric(env, what):
    """fixed data of other kinds"""
    np, f = env.np, env.code.common.is_numeric
    env.check('not numeric', not f(OTHER[what]))
    if isinstance(OTHER[what], list):
        env.check('not numeric', not f(np.array(OTHER[what], dtype=object if what == 'nones' else None)))
    else:
        env.check('not numeric', not f(np.array([OTHER[what]], dtype=object)))


SOURCE = '''
def plain(f, *a, **k):
    return f(*a, **k)


def outer(f, *a, **k):
    def inner():
        return f(*a, **k)
    return inner()


def chain(f, *a, **k):
    return plain(f, *a, **k)


class Holder(object):
    def method(self, f, *a, **k):
        return f(*a, **k)

    @staticmethod
    def static(f, *a, **k):
        return f(*a, **k)

    @classmethod
    def klass(cls, f, *a, **k):
        return f(*a, **k)

    def deep(self, f, *a, **k):
        return self.method(f, *a, **k)


class Derived(Holder):
    pass
'''
NAME = 'some_pkg.sub.Mod'
FRAMES = {'plain': ['plain'], 'outer': ['inner', 'outer'], 'chain': ['plain', 'chain'], 'method': ['Holder.method'], 'static': ['static'],
          'klass': ['klass'], 'deep': ['Holder.method', 'Holder.deep'], 'derived': ['Derived.method'], 'derived deep': ['Derived.method', 'Derived.deep']}


def module():
    m = types.ModuleType(NAME)
    m.__file__ = '/nonexistent/some_pkg/sub/Mod.py'
    sys.modules[NAME] = m
    exec(compile(SOURCE, m.__file__, 'exec'), m.__dict__)
    return m


def entry(m, where):
    h = m.Holder()
    return {'plain': m.plain, 'outer': m.outer, 'chain': m.chain, 'method': h.method, 'static': m.Holder.static, 'klass': m.Holder.klass,
            'deep': h.deep, 'derived': m.Derived().method, 'derived deep': m.Derived().deep}[where]


TAGS = [('wrongInput', 'a message'), ('wrongInput:kind.of', 'x = 3.5'), ('t', '')]


@harness('C28', product(where=sorted(FRAMES), i=range(len(TAGS)), how=['throw', 'return', 'warn', 'name', 'class', 'ext'], up=[1, 2]))
def report(env, where, i, how, up):
    """tag of the caller, kind and text, letter by letter"""
    c = env.code.common
    if up > len(FRAMES[where]) or (i and how in ('name', 'class', 'ext')):
        return
    tag, text = TAGS[i]
    m = module()
    try:
        f = entry(m, where)
        full = NAME + '.' + FRAMES[where][up - 1]
        want = full.replace('.', ':').upper() + ':' + tag + ':' + text
        if how == 'throw':
            args = (tag, text) if up == 1 else (tag, text, up)
            x = env.raises(f, c.throw_error, *args)
            env.check('an input error', type(x) is ValueError and str(x) == want)
        elif how == 'return':
            x, e = env.attempt(f, c.throw_error, tag, text, up, False)
            env.check('the error is returned', e is None and type(x) is ValueError and str(x) == want)
        elif how == 'warn':
            if up == 1:
                with warnings.catch_warnings(record=True) as ws:
                    warnings.simplefilter('always')
                    f(c.throw_warn, tag, text)
                env.check('one warning', [(w.category, str(w.message)) for w in ws] == [(RuntimeWarning, want)])
        elif how == 'name':
            env.check('full name', f(c.get_caller_name, up, 'full') == full)
        elif how == 'class':
            env.check('name without the function', f(c.get_caller_name, up) == full.rpartition('.')[0])
            env.check('unknown mode', env.raises(f, c.get_caller_name, up, 'x') is not None)
        else:
            env.check('names', tuple(f(c.get_caller_name_ext, up)) == (full.rpartition('.')[2], full.rpartition('.')[0]))
            env.check('beyond the stack', tuple(f(c.get_caller_name_ext, 10 ** 6)) == ('', ''))
    finally:
        sys.modules.pop(NAME, None)


M = 'ELLIPY:ELLTOOL:CORE:'
CALLS = [
    ('ELLIPY:GRAS:GEN:GEN:SQRT_POS', 'wrongInput:abs_tolNegative', lambda e, c, x: c.gen.sqrt_pos(1., x)),
    ('ELLIPY:GRAS:GEN:GEN:SQRT_POS', 'wrongInput:negativeInput', lambda e, c, x: c.gen.sqrt_pos(x, 0.)),
    ('ELLIPY:GRAS:GEN:GEN:SORT_ROWS_TOL', 'wrongInput:tol', lambda e, c, x: c.gen.sort_rows_tol(e.np.eye(2), x)),
    ('ELLIPY:ELLTOOL:CONF:PROPERTIES:_PARSEPROP:PARSE_PROP', 'wrongInput', lambda e, c, x: c.Properties.parse_prop({'abs_tol': x}, ['abs_tol'])),
    ('ELLIPY:GRAS:GEOM:TRI:TRI:SPHERE_TRI', 'wrong_input', lambda e, c, x: c.tri.sphere_tri(x)),
    ('ELLIPY:GRAS:GEOM:TRI:TRI:SPHERE_TRI_EXT', 'wrong_input', lambda e, c, x: c.tri.sphere_tri_ext(2, x)),
    ('ELLIPY:GRAS:GEOM:GEOM:SPHERE_PART', 'wrongInput:n_points', lambda e, c, x: c.geom.sphere_part(x)),
    (M + 'ELLIPSOID:ELLIPSOID:ELLIPSOID:_SHAPE_MAT', 'wrongInput:shape_mat', lambda e, c, x: c.Ellipsoid(e.arr([[1., 0.], [0., x]]))),
    (M + 'ELLIPSOID:ELLIPSOID:ELLIPSOID:_SHAPE_MAT', 'wrongInput:shape_mat', lambda e, c, x: c.Ellipsoid(e.arr([[1., x], [0., 1.]]))),
    (M + 'ELLIPSOID:ELLIPSOID:ELLIPSOID:__INIT__', 'wrongInput', lambda e, c, x: c.Ellipsoid(e.arr([x, 1.]), e.np.eye(3))),
    (M + 'HYPERPLANE:HYPERPLANE:HYPERPLANE:_NORMAL_VEC', 'wrongInput:normal_vec', lambda e, c, x: c.Hyperplane(e.arr([[x, 1.], [1., 2.]]), 1.)),
    ('ELLIPY:GRAS:LA:LA:IS_MAT_SYMM', 'wrongInput:nonSquareMat', lambda e, c, x: c.la.is_mat_symm(e.arr([[1., x], [x, 1.], [x, x]]), 1.)),
    ('ELLIPY:GEN:COMMON:COMMON:ABS_REL_COMPARE', 'wrongInput:wrongAbsTol',
     lambda e, c, x: c.common.abs_rel_compare(e.arr([1.]), e.arr([1.]), x, 1., e.np.abs)),
    ('ELLIPY:GEN:COMMON:COMMON:ABS_REL_COMPARE', 'wrongInput:wrongArgs',
     lambda e, c, x: c.common.abs_rel_compare(e.arr([x]), e.arr([1., x]), 1., 1., e.np.abs))]


@harness('C28', product(i=range(len(CALLS))))
def tags(env, i):
    """input errors of the library for any value of the wrong sign"""
    who, kind, f = CALLS[i]
    x = env.real('x', -3, env.frac(-1, 10), -0.5)
    e = env.raises(f, env, env.code, x)
    if env.check('rejected', isinstance(e, ValueError)):
        env.check('tag of the failing function and the kind', str(e).startswith(who + ':' + kind + ':'))
