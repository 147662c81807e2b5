"""C29 symbolic variable replacement and dependence"""
from ..harness import harness, product

MODULES = ['sym']
ALPHA = ['t+k 1_', 'tk(a.', 't *é2', 'kt^\n']
BOUNDS = ('expressions of up to 4 symbolic characters (thorough: 5) over alphabets of 5-6 characters (letters in and out of the name, digits, underscore, '
          'operators, brackets, blanks, a newline, a letter outside ASCII), around fixed text as well; fixed identifiers to replace and '
          'replacement texts, and identifiers of one or two symbolic characters; arrays of up to four elements of several shapes')


def word(c):
    return c.isalnum() or c == '_'


def runs(env, ch):
    """maximal runs of identifier characters and the other characters in order"""
    out = []
    for c in ch:
        if env.fork(env.isin(c, word)):
            if out and out[-1][0]:
                out[-1][1].append(c)
            else:
                out.append((True, [c]))
        else:
            out.append((False, [c]))
    return out


def equal(env, a, b):
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if isinstance(y, str):
            c = env.isin(x, lambda z: z == y)
        elif isinstance(x, str):
            c = env.isin(y, lambda z: z == x)
        else:
            from .. import symstr
            c = symstr.same(x, y)
        if not env.fork(c):
            return False
    return True


def want_replace(env, s, name, to):
    ch = [c for c in env.chars(s) if not env.fork(env.isin(c, lambda z: z == ' '))]
    out = []
    for w, r in runs(env, ch):
        out += list('(' + to + ')') if w and equal(env, r, name) else r
    return out


def want_depends(env, s, name):
    return any(w and equal(env, r, name) for w, r in runs(env, env.chars(s)))


NAMES = ['t', 'k', 'tk', 't1', '_t']


@harness('C29', product(n=[0, 1, 2, 3], alpha=[0], name=['t', 'tk'], to=['15 - t']) + product(n=[3], alpha=[1, 2, 3], name=['t', 'k', 't1'], to=['k']) +
         product(n=[2], alpha=[0, 2], name=['t', '_t', 'x'], to=['', 'a*t+1.5', 'tt']),
         thorough=product(n=[0, 1, 2, 3, 4], alpha=[0, 1, 2, 3], name=['t', 'k', 'tk', 't1'], to=['15 - t', 'k']) +
         product(n=[5], alpha=[0, 1, 2, 3], name=['t', 'tk'], to=['15 - t']))
def replace(env, n, alpha, name, to):
    """one element of free characters"""
    s = env.text('s', n, ALPHA[alpha], 't+tk t')
    a = env.strarr([s], (1,))
    r, x = env.attempt(env.code.sym.var_replace, a, name, to)
    if env.check('returns', x is None and env.shape(r) == (1,)):
        env.same_str('replaced', r.flat[0], want_replace(env, s, list(name), to))
        env.same_str('argument unchanged', a.flat[0], env.chars(s))


@harness('C29', product(pos=[0, 1, 2], sh=[(1, 3)], name=['t', 'att']) + product(pos=[1], sh=[(3,), (3, 1)], name=['t']) + product(pos=[3], sh=[(2, 2), (4,), (1, 2, 2), (2, 1, 2)], name=['t']))
def replace_array(env, pos, sh, name):
    """elements of an array, one with free characters; numbers keep their value"""
    sh = tuple(sh)
    k = 1
    for x in sh:
        k *= x
    s = 'a' + env.text('s', 1, ALPHA[0], 't') + 't' + env.text('u', 2, ALPHA[1], '.t') + 'exp(t'
    rest = ['sin(t)+ att', '1.5', 'temp^tt']
    L = [rest[i % 3] for i in range(k)]
    L[pos % k] = s
    a = env.strarr(L, sh)
    r, x = env.attempt(env.code.sym.var_replace, a, name, 'k-1')
    if env.check('returns', x is None and env.shape(r) == sh):
        for p, v in zip(r.flat, L):
            env.same_str('replaced', p, want_replace(env, v, list(name), 'k-1'))


@harness('C29', product(alpha=['tk1_', 'ka2'], n=[1, 2]))
def replace_name(env, alpha, n):
    """any identifier"""
    name = env.text('n', n, alpha, 'tk')
    if env.fork(env.isin(env.chars(name)[0], str.isdigit)):
        return
    s = env.text('s', n + 1, 'tka+', '+tk')
    a = env.strarr([s, 'k+tk'], (2,))
    r, x = env.attempt(env.code.sym.var_replace, a, name, 'z')
    if env.check('returns', x is None and env.shape(r) == (2,)):
        env.same_str('replaced', r.flat[0], want_replace(env, s, env.chars(name), 'z'))
        env.same_str('other element', r.flat[1], want_replace(env, 'k+tk', env.chars(name), 'z'))


@harness('C29', product(n=[0, 1, 2, 3], alpha=[0], disc=[0, 1]) + product(n=[3], alpha=[1, 2, 3], disc=[0, 1, None]),
         thorough=product(n=[0, 1, 2, 3, 4, 5], alpha=[0, 1, 2, 3], disc=[0, 1, None]))
def dependent(env, n, alpha, disc):
    """one expression of free characters"""
    s = env.text('s', n, ALPHA[alpha], '1+tkt')
    a = env.strarr([s], (1,))
    kw = {} if disc is None else {'is_discrete': bool(disc)}
    r, x = env.attempt(env.code.sym.is_dependent, a, **kw)
    if env.check('returns', x is None):
        env.check('truth value', isinstance(r, (bool, env.np.bool_)))
        env.check('dependent', bool(r) == want_depends(env, s, ['k' if disc else 't']))


@harness('C29', product(pos=[0, 3], sh=[(2, 2)], other=['none', 'some'], disc=[0, 1]) + product(pos=[1], sh=[(4,), (1, 4, 1)], other=['none', 'some'], disc=[0, 1]))
def dependent_array(env, pos, sh, other, disc):
    """an array depends when one of its elements does"""
    sh = tuple(sh)
    s = '(' + env.text('s', 2, ALPHA[0], 't+') + env.text('u', 1, ALPHA[1], '.') + ')'
    L = ['3', 'cost(y)', 'kt', '5.9+_t']
    if other == 'some':
        L[(pos + 1) % 4] = 'sin(t)' if pos % 2 else 'k'
    L[pos] = s
    r, x = env.attempt(env.code.sym.is_dependent, env.strarr(L, sh), bool(disc))
    name = ['k' if disc else 't']
    if env.check('returns', x is None):
        env.check('dependent', bool(r) == any(want_depends(env, v, name) for v in L))


@harness('C29', product(what=['from', 'to', 'empty', 'from none']))
def bad_arguments(env, what):
    f = env.code.sym.var_replace
    s = env.text('s', 2, ALPHA[0])
    a = env.strarr([s, 't'], (2,))
    if what == 'from':
        env.must_raise('name', f, a, 1, 'k')
    elif what == 'from none':
        env.must_raise('name', f, a, None, 'k')
    elif what == 'to':
        env.must_raise('text', f, a, 't', 2.)
    else:
        env.must_raise('empty', f, env.strarr([], (0,)), 't', 'k')


@harness('C29', product(v=[3, -2, 5.25, 0.1, 100.0, 1e-3], name=['t']))
def numbers(env, v, name):
    """numbers (constants: no free input but the neighbouring text) become their decimal text"""
    s = env.text('s', 2, ALPHA[0], 't1')
    r, x = env.attempt(env.code.sym.var_replace, env.strarr([v, s], (2,)), name, 'k')
    if env.check('returns', x is None and env.shape(r) == (2,)):
        env.check('value', abs(float(r.flat[0]) - v) < 1e-14)
        env.same_str('replaced', r.flat[1], want_replace(env, s, list(name), 'k'))
