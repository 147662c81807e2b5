"""C26 comparison of nested dictionaries"""
from ..harness import harness, product

MODULES = ['dict', 'common']
BOUNDS = ('nestings to depth 4; leaves are symbolic real numbers, arrays and lists of them, strings, booleans, integers, None, '
          'NaN, arrays of strings and of dictionaries; symbolic tolerances; up to 4 symbolic leaves on each side')
NAN, INF = float('nan'), float('inf')


def f(n):
    return ('f', n)


def a(n, *sh):
    return ('a', n, sh)


def l(*x):
    return ('l', list(x))


def d(**k):
    return ('d', k)


def c(v):
    return ('c', v)


def da(*x):
    return ('da', list(x))


def sa(sh, *x):
    return ('sa', sh, list(x))


# pairs of structures; equal structures leave the verdict to the numbers
CASES = [
    ('scalar', d(a=f('p')), d(a=f('p'))),
    ('two', d(a=f('p'), b=f('q')), d(b=f('q'), a=f('p'))),
    ('nested', d(a=d(b=f('p'), c=f('q')), e=f('r')), d(a=d(b=f('p'), c=f('q')), e=f('r'))),
    ('deep', d(a=d(b=d(g=d(h=f('p'))))), d(a=d(b=d(g=d(h=f('p')))))),
    ('array', d(a=a('p', 2)), d(a=a('p', 2))),
    ('array0', d(a=a('p')), d(a=a('p'))),
    ('array2', d(a=a('p', 1, 2), b=f('q')), d(a=a('p', 1, 2), b=f('q'))),
    ('list', d(a=l(f('p'), f('q'))), d(a=l(f('p'), f('q')))),
    ('list1', d(a=l(f('p'))), d(a=l(f('p')))),
    ('list in list', d(a=l(l(f('p')), l(f('q'), f('r')))), d(a=l(l(f('p')), l(f('q'), f('r'))))),
    ('list of dicts', d(a=l(d(b=f('p')), d(b=f('q')))), d(a=l(d(b=f('p')), d(b=f('q'))))),
    ('array of dicts', d(a=da(d(b=f('p')), d(g=f('q')))), d(a=da(d(b=f('p')), d(g=f('q'))))),
    ('list of arrays', d(a=l(a('p', 2), c('s'))), d(a=l(a('p', 2), c('s')))),
    ('dict of list of dict', d(a=d(b=l(d(h=f('p')), d(h=f('q'))))), d(a=d(b=l(d(h=f('p')), d(h=f('q')))))),
    ('strings', d(a=c('s'), b=f('p')), d(a=c('s'), b=f('p'))),
    ('strings differ', d(a=c('s'), b=f('p')), d(a=c('t'), b=f('p'))),
    ('empty string', d(a=c('')), d(a=c('s'))),
    ('bools', d(a=c(True), b=f('p')), d(a=c(True), b=f('p'))),
    ('bools differ', d(a=c(True)), d(a=c(False))),
    ('ints', d(a=c(7), b=f('p')), d(a=c(7), b=f('p'))),
    ('ints differ', d(a=c(7)), d(a=c(12))),
    ('none', d(a=c(None), b=f('p')), d(a=c(None), b=f('p'))),
    ('none differs', d(a=c(None)), d(a=c('s'))),
    ('nan', d(a=c(NAN), b=f('p')), d(a=c(NAN), b=f('p'))),
    ('nan differs', d(a=c(NAN)), d(a=c(1.5))),
    ('inf differs', d(a=c(INF)), d(a=c(-INF))),
    ('string list', d(a=l(c('s'), c('t'))), d(a=l(c('s'), c('t')))),
    ('string list differs', d(a=l(c('s'), c('t'))), d(a=l(c('s'), c('u')))),
    ('string list order', d(a=l(c('s'), c('t'))), d(a=l(c('t'), c('s')))),
    ('string array', d(a=sa((2,), 's', 't'), b=f('p')), d(a=sa((2,), 's', 't'), b=f('p'))),
    ('string array differs', d(a=sa((1, 2), 's', 't')), d(a=sa((1, 2), 's', 'u'))),
    ('string array longer', d(a=sa((2,), 's', 't')), d(a=sa((3,), 's', 't', 'u'))),
    ('string array shape', d(a=sa((2,), 's', 't')), d(a=sa((2, 1), 's', 't'))),
    ('missing key', d(a=f('p'), b=f('q')), d(a=f('p'))),
    ('extra nested key', d(a=d(b=f('p'))), d(a=d(b=f('p'), g=f('q')))),
    ('renamed key', d(a=f('p')), d(b=f('p'))),
    ('empty', d(), d()),
    ('empty against key', d(), d(a=f('p'))),
    ('nested empty', d(a=d(), b=f('p')), d(a=d(), b=f('p'))),
    ('nested empty differs', d(a=d()), d(a=d(b=f('p')))),
    ('list longer', d(a=l(f('p'))), d(a=l(f('p'), f('q')))),
    ('list prefix', d(a=d(b=l(f('p'), f('q')))), d(a=d(b=l(f('p'))))),
    ('empty list', d(a=l(), b=f('p')), d(a=l(), b=f('p'))),
    ('empty list differs', d(a=l()), d(a=l(f('p')))),
    ('inner list longer', d(a=l(l(f('p')), l(f('q')))), d(a=l(l(f('p')), l(f('q'), f('r'))))),
    ('dicts longer', d(a=da(d(b=f('p')))), d(a=da(d(b=f('p')), d(b=f('q'))))),
    ('dict list longer', d(a=l(d(b=f('p')))), d(a=l(d(b=f('p')), d(b=f('q'))))),
    ('array size', d(a=a('p', 2)), d(a=a('p', 3))),
    ('array shape', d(a=a('p', 2)), d(a=a('p', 1, 2))),
    ('empty array', d(a=a('p', 0), b=f('q')), d(a=a('p', 0), b=f('q'))),
    ('empty array differs', d(a=a('p', 0)), d(a=a('p', 1))),
    ('number against string', d(a=f('p')), d(a=c('s'))),
    ('number against dict', d(a=f('p')), d(a=d(b=f('p')))),
    ('list against string', d(a=l(c('s'))), d(a=c('s'))),
    ('list against array', d(a=l(f('p'))), d(a=a('p', 1))),
    ('dict against list', d(a=d(b=f('p'))), d(a=l(d(b=f('p'))))),
    ('mixed list', d(a=l(f('p'), c('s'), d(b=f('q')))), d(a=l(f('p'), c('s'), d(b=f('q'))))),
    ('mixed list differs', d(a=l(f('p'), c('s'), d(b=f('q')))), d(a=l(f('p'), c('t'), d(b=f('q'))))),
    ('later key differs', d(a=f('p'), b=c('s'), g=f('q')), d(a=f('p'), b=c('t'), g=f('q'))),
    ('earlier key differs', d(a=c('s'), b=f('p')), d(a=c('t'), b=f('p'))),
]
TABLE = {n: (x, y) for n, x, y in CASES}


def build(env, side, s):
    k = s[0]
    if k == 'f':
        return env.real(side + s[1], -2, 2)
    if k == 'a':
        n = 1
        for q in s[2]:
            n *= q
        return env.arr([env.real('%s%s%d' % (side, s[1], i), -2, 2) for i in range(n)]).reshape(s[2])
    if k == 'l':
        return [build(env, side, x) for x in s[1]]
    if k == 'd':
        return {n: build(env, side, x) for n, x in s[1].items()}
    if k == 'c':
        return s[1]
    if k == 'sa':
        return env.np.array(s[2]).reshape(s[1])
    r = env.np.empty((len(s[1]),), dtype=object)
    for i, x in enumerate(s[1]):
        r[i] = build(env, side, x)
    return r


def dup(env, x):
    if isinstance(x, dict):
        return {k: dup(env, v) for k, v in x.items()}
    if isinstance(x, list):
        return [dup(env, v) for v in x]
    return x.copy() if hasattr(x, 'copy') else x


def num(env, x, y, t, r):
    e = env.max(x - y, y - x)
    g = env.max(x, -x) + env.max(y, -y)
    return e <= t if r is None else env.or_(e <= t, env.and_(g > t, 2 * e <= r * g))


def leaves(env, s, u, x, y, t, r, path=()):
    """[(path, equal?)] of two values of structures s and u"""
    if s[0] != u[0]:
        return [(path, False)]
    k = s[0]
    if k == 'f':
        return [(path, num(env, x, y, t, r))]
    if k == 'a':
        if s[2] != u[2]:
            return [(path, False)]
        return [(path, num(env, p, q, t, r)) for p, q in zip(env.flat(x), env.flat(y))]
    if k == 'c':
        if s[1] != s[1] or type(s[1]) not in (int, float, bool) or type(u[1]) != type(s[1]) or s[1] in (INF, -INF):
            return [(path, s[1] == u[1] or s[1] != s[1] and u[1] != u[1])]
        return [(path, num(env, env.const(s[1], 1), env.const(u[1], 1), t, r) if u[1] == u[1] else False)]
    if k == 'sa':
        return [(path, s[1:] == u[1:])]
    if k == 'd':
        if set(s[1]) != set(u[1]):
            return [(path, False)]
        return sum([leaves(env, s[1][n], u[1][n], x[n], y[n], t, r, path + (n,)) for n in s[1]], [])
    if len(s[1]) != len(u[1]):
        return [(path, False)]
    return sum([leaves(env, p, q, x[i], y[i], t, r, path) for i, (p, q) in enumerate(zip(s[1], u[1]))], [])


def tolerances(env, rel):
    t = env.real('abs', 0, 1, 0.1)
    return t, (env.real('rel', 0, 1, 0.2) if rel else None)


@harness('C26', product(case=[x[0] for x in CASES], rel=[False, True]))
def structure(env, case, rel):
    """equal exactly when the structures and all leaves agree; symmetric; the report names a differing path"""
    s, u = TABLE[case]
    t, r = tolerances(env, rel)
    x, y = build(env, 'x', s), build(env, 'y', u)
    cmp = env.code.dict.dict_compare
    eq, rep = cmp(x, y, t, r)
    lv = leaves(env, s, u, x, y, t, r)
    eq = bool(eq)
    env.check('equal exactly when structures and leaves agree', env.iff(eq, env.and_(*[q for p, q in lv])))
    env.check('report exactly when different', (rep == '') == eq)
    if not eq:
        named = [q for p, q in lv if all('.' + n in rep for n in p)]
        env.check('report names a differing path', env.not_(env.and_(*named)) if named else False)
    eq2, rep2 = cmp(y, x, t, r)
    env.check('symmetric', bool(eq2) == eq)


@harness('C26', product(case=[x[0] for x in CASES]))
def reflexive(env, case):
    """equal to itself and to an equal copy, at any tolerance"""
    s, u = TABLE[case]
    t, r = tolerances(env, env.choice('rel', [0, 1]))
    for q in (s, u):
        x = build(env, 'x%d' % (q is u), q)
        y = dup(env, x)
        env.check('equal to itself', env.code.dict.dict_compare(x, x, t, r) == (True, ''))
        env.check('equal to a copy', env.code.dict.dict_compare(x, y, t, r) == (True, ''))


@harness('C26', product(sh=[(1,), (2,), (3,), (2, 1), (1, 2), (2, 2)], rel=[False, True]))
def vector(env, sh, rel):
    """arrays of dictionaries, element by element"""
    sh = tuple(sh)
    n = 1
    for q in sh:
        n *= q
    t, r = tolerances(env, rel)
    X, Y, lv = [], [], []
    mark = env.choice('mark', list(range(n)))
    for i in range(n):
        if i == mark:
            X.append({'a': env.real('x', -2, 2)})
            Y.append({'a': env.real('y', -2, 2)})
            lv.append(num(env, X[-1]['a'], Y[-1]['a'], t, r))
        else:
            X.append({'a': 's', 'b': {'g': 1.}})
            Y.append({'a': 's', 'b': {'g': 1.}} if i % 2 == 0 else {'a': 'u', 'b': {'g': 1.}})
            lv.append(i % 2 == 0)
    A, B = env.lay(env.np.array(X).reshape(sh)), env.lay(env.np.array(Y).reshape(sh))
    v, rep = env.code.dict.dict_compare_vec(A, B, t, r)
    f = env.flat(v)
    env.check('one verdict for each', len(f) == n)
    if len(f) == n:
        for i in range(n):
            env.check('verdict', env.iff(bool(f[i]), lv[i]))
            env.check('report names the element', any(q.startswith('(%d)' % i) for q in rep.split('\n')) == (not bool(f[i])))
    form = env.choice('form', ['array', 'list']) if len(sh) == 1 else 'array'
    eq, rep = env.code.dict.dict_compare(A if form == 'array' else X, B if form == 'array' else Y, t, r)
    env.check('all', env.iff(bool(eq), env.and_(*lv)))


@harness('C26', product(case=['sizes', 'sizes2', 'dict against array', 'dict against array of one', 'empty', 'left', 'right', 'left list', 'right list']))
def arguments(env, case):
    """sizes, single dictionaries, bad arguments"""
    t, r = tolerances(env, True)
    cmp = env.code.dict.dict_compare
    q = env.real('x', -2, 2)
    D = lambda: {'a': q}
    if case == 'sizes':
        env.check(case, not cmp([D(), D()], [D()], t, r)[0])
    elif case == 'sizes2':
        env.check(case, not cmp(env.np.array([D(), D()]), env.np.array([[D()], [D()]]), t, r)[0])
    elif case == 'dict against array':
        env.check(case, not cmp(D(), [D(), D()], t, r)[0])
    elif case == 'dict against array of one':
        env.check(case, bool(cmp(D(), [D()], t, r)[0]))
    elif case == 'empty':
        env.check(case, bool(cmp([], [], t, r)[0]))
        env.check('empty against one', not cmp([], [D()], t, r)[0])
    else:
        bad = [1, 2] if 'list' in case else 'abc'
        args = (bad, D()) if 'left' in case else (D(), bad)
        env.must_raise(case, cmp, *args)
