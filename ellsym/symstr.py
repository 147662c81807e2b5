"""Strings with symbolic characters, and the part of the re module that works on them.

A symbolic character is a variable over the positions of a finite alphabet.  A string holding some is a str whose symbolic
characters are stand-ins from the private use area, so that code which only moves characters about works unchanged; code
that looks at them through a method of str gets them decided one by one on the path."""
import re as real_re
import sre_parse
import sre_constants as C

from . import core
from .core import S, Sym, cor, NeedConcrete

BASE = 0xE000


class SymChar(object):
    def __init__(self, v, alphabet, mark):
        self.v, self.alphabet, self.mark = v, alphabet, mark

    def isin(self, pred):
        """condition: the character satisfies the predicate"""
        ix = [i for i, a in enumerate(self.alphabet) if pred(a)]
        if not ix:
            return False
        if len(ix) == len(self.alphabet):
            return True
        return cor(*[S(self.v) == S(i) for i in ix]) if len(ix) > 1 else (S(self.v) == S(ix[0]))


def chars_of_ctx():
    c = core.CTX
    if c is None:
        return []
    if not hasattr(c, 'symchars'):
        c.symchars = []
    return c.symchars


def new_char(v, alphabet):
    L = chars_of_ctx()
    ch = SymChar(v, alphabet, chr(BASE + len(L)))
    L.append(ch)
    return ch


def decode(s):
    """list of one-letter strings and symbolic characters"""
    L = chars_of_ctx() if core.CTX is not None else []
    out = []
    for c in str.__str__(s):
        k = ord(c) - BASE
        out.append(L[k] if 0 <= k < len(L) else c)
    return out


def has_sym(s):
    if not isinstance(s, str) or core.CTX is None:
        return False
    n = len(getattr(core.CTX, 'symchars', ()))
    return n > 0 and any(BASE <= ord(c) < BASE + n for c in str.__str__(s))


def encode(items):
    t = ''.join([c.mark if isinstance(c, SymChar) else c for c in items])
    return SymStr(t) if has_sym(t) else t


def truth(c):
    return c if c is True or c is False else bool(c)


def char_in(c, pred):
    return truth(c.isin(pred)) if isinstance(c, SymChar) else bool(pred(c))


def same(a, b):
    """condition: two characters agree"""
    if isinstance(a, SymChar):
        if isinstance(b, SymChar):
            if a is b:
                return True
            if a.alphabet == b.alphabet:
                return S(a.v) == S(b.v)
            return char_eq_pairs(a, b)
        return a.isin(lambda x: x == b)
    if isinstance(b, SymChar):
        return b.isin(lambda x: x == a)
    return a == b


def char_eq_pairs(a, b):
    from .core import cand
    cs = [cand(a.isin(lambda x, y=y: x == y), b.isin(lambda x, y=y: x == y)) for y in a.alphabet if y in b.alphabet]
    return cor(*cs) if cs else False


def concretise(s):
    """decide every symbolic character on the path"""
    out = []
    for c in decode(s):
        if isinstance(c, SymChar):
            for a in c.alphabet:
                if char_in(c, lambda x: x == a):
                    c = a
                    break
            else:
                raise core.AssumeFailed()
        out.append(c)
    return ''.join(out)


class SymStr(str):
    def replace(self, old, new, count=-1):
        o = decode(old)
        it = decode(self)
        if not o:
            return SymStr.wrap(concretise(self).replace(concretise(old), concretise(new), count))
        nw = decode(new)
        out = []
        i = 0
        n = 0
        while i < len(it):
            if i + len(o) <= len(it) and n != count and all(truth(same(x, y)) for x, y in zip(it[i:i + len(o)], o)):
                out += nw
                i += len(o)
                n += 1
            else:
                out.append(it[i])
                i += 1
        return encode(out)

    @staticmethod
    def wrap(s):
        return s

    def __add__(self, o):
        return encode(decode(self) + decode(o)) if isinstance(o, str) else NotImplemented

    def __radd__(self, o):
        return encode(decode(o) + decode(self)) if isinstance(o, str) else NotImplemented

    def __mul__(self, n):
        return encode(decode(self) * n)

    __rmul__ = __mul__

    def __getitem__(self, k):
        r = decode(self)[k]
        return encode(r if isinstance(k, slice) else [r])

    def __iter__(self):
        return iter([encode([c]) for c in decode(self)])

    def __str__(self):
        return self

    def __eq__(self, o):
        if not isinstance(o, str):
            return False
        a, b = decode(self), decode(o)
        return len(a) == len(b) and all(truth(same(x, y)) for x, y in zip(a, b))

    def __ne__(self, o):
        return not self.__eq__(o)

    def __hash__(self):
        return hash(concretise(self))

    def __contains__(self, o):
        a, b = decode(self), decode(o)
        return any(all(truth(same(x, y)) for x, y in zip(a[i:i + len(b)], b)) for i in range(len(a) - len(b) + 1))

    def _all(self, f):
        it = decode(self)
        return bool(it) and all(char_in(c, f) for c in it)

    def isalnum(self):
        return self._all(str.isalnum)

    def isalpha(self):
        return self._all(str.isalpha)

    def isdigit(self):
        return self._all(str.isdigit)

    def isspace(self):
        return self._all(str.isspace)


def _by_value(name):
    f = getattr(str, name)

    def g(self, *a, **k):
        return f(concretise(self), *[concretise(x) if isinstance(x, str) else x for x in a], **k)
    g.__name__ = name
    return g


for _n in ('capitalize', 'casefold', 'center', 'count', 'encode', 'endswith', 'expandtabs', 'find', 'format', 'index', 'isdecimal', 'isidentifier',
           'islower', 'isnumeric', 'isprintable', 'istitle', 'isupper', 'join', 'ljust', 'lower', 'lstrip', 'partition', 'rfind', 'rindex', 'rjust',
           'rpartition', 'rsplit', 'rstrip', 'split', 'splitlines', 'startswith', 'strip', 'swapcase', 'title', 'translate', 'upper', 'zfill',
           'isascii', '__lt__', '__le__', '__gt__', '__ge__', '__format__', '__mod__', '__repr__'):
    setattr(SymStr, _n, _by_value(_n))


# ------------------------------------------------------------------------------------------------ regular expressions
def is_word(c):
    return c.isalnum() or c == '_'


CATS = {C.CATEGORY_DIGIT: str.isdigit, C.CATEGORY_NOT_DIGIT: lambda c: not c.isdigit(), C.CATEGORY_SPACE: str.isspace,
        C.CATEGORY_NOT_SPACE: lambda c: not c.isspace(), C.CATEGORY_WORD: is_word, C.CATEGORY_NOT_WORD: lambda c: not is_word(c)}


def set_pred(av):
    neg = False
    fs = []
    for op, a in av:
        if op is C.NEGATE:
            neg = True
        elif op is C.LITERAL:
            fs.append(lambda c, a=a: ord(c) == a)
        elif op is C.RANGE:
            fs.append(lambda c, a=a: a[0] <= ord(c) <= a[1])
        elif op is C.CATEGORY:
            fs.append(CATS[a])
        else:
            raise NeedConcrete('regular expression set %s' % op)
    return lambda c: any(f(c) for f in fs) != neg


class Machine(object):
    def __init__(self, pattern, flags=0):
        if isinstance(pattern, real_re.Pattern):
            flags |= pattern.flags
            pattern = pattern.pattern
        pattern = concretise(pattern)
        self.rx = real_re.compile(pattern, flags)
        self.flags = self.rx.flags
        if self.flags & (real_re.IGNORECASE | real_re.ASCII | real_re.LOCALE):
            raise NeedConcrete('regular expression flags')
        self.prog = list(sre_parse.parse(pattern, flags & ~real_re.UNICODE if isinstance(pattern, str) else flags))
        self.groups = self.rx.groups

    def at(self, code, s, i):
        n = len(s)
        if code in (C.AT_BEGINNING, C.AT_BEGINNING_STRING):
            if i == 0:
                return True
            return code is C.AT_BEGINNING and bool(self.flags & real_re.MULTILINE) and char_in(s[i - 1], lambda c: c == '\n')
        if code is C.AT_END_STRING:
            return i == n
        if code is C.AT_END:
            if i == n:
                return True
            if i == n - 1 or self.flags & real_re.MULTILINE:
                return char_in(s[i], lambda c: c == '\n')
            return False
        if code in (C.AT_BOUNDARY, C.AT_NON_BOUNDARY):
            a = i > 0 and char_in(s[i - 1], is_word)
            b = i < n and char_in(s[i], is_word)
            return (a != b) == (code is C.AT_BOUNDARY) if n else False
        raise NeedConcrete('regular expression position %s' % code)

    def run(self, ops, k, s, i, g):
        """ends and groups of matches of ops[k:] at i, in order of preference"""
        if k == len(ops):
            yield i, g
            return
        op, av = ops[k]
        n = len(s)
        if op in (C.LITERAL, C.NOT_LITERAL, C.ANY, C.IN):
            if i >= n:
                return
            if op is C.LITERAL:
                f = lambda c: ord(c) == av
            elif op is C.NOT_LITERAL:
                f = lambda c: ord(c) != av
            elif op is C.ANY:
                f = (lambda c: True) if self.flags & real_re.DOTALL else (lambda c: c != '\n')
            else:
                f = set_pred(av)
            if char_in(s[i], f):
                for r in self.run(ops, k + 1, s, i + 1, g):
                    yield r
        elif op is C.AT:
            if self.at(av, s, i):
                for r in self.run(ops, k + 1, s, i, g):
                    yield r
        elif op is C.BRANCH:
            for alt in av[1]:
                for j, h in self.run(list(alt), 0, s, i, g):
                    for r in self.run(ops, k + 1, s, j, h):
                        yield r
        elif op is C.SUBPATTERN:
            gr, add, rem, p = av
            if add or rem:
                raise NeedConcrete('regular expression inline flags')
            for j, h in self.run(list(p), 0, s, i, g):
                if gr is not None:
                    h = dict(h)
                    h[gr] = (i, j)
                for r in self.run(ops, k + 1, s, j, h):
                    yield r
        elif op in (C.MAX_REPEAT, C.MIN_REPEAT):
            lo, hi, p = av
            for r in self.repeat(ops, k, s, i, g, lo, hi, list(p), 0, op is C.MAX_REPEAT):
                yield r
        elif op in (C.ASSERT, C.ASSERT_NOT):
            d, p = av
            p = list(p)
            if d < 0:
                w = p_width(p)
                st = i - w
                m = next(self.run(p, 0, s, st, g), None) if st >= 0 else None
                if m is not None and m[0] != i:
                    m = None
            else:
                m = next(self.run(p, 0, s, i, g), None)
            if (m is not None) == (op is C.ASSERT):
                for r in self.run(ops, k + 1, s, i, m[1] if op is C.ASSERT else g):
                    yield r
        elif op is C.GROUPREF:
            if av in g:
                a, b = g[av]
                t = s[a:b]
                if i + len(t) <= n and all(truth(same(x, y)) for x, y in zip(t, s[i:i + len(t)])):
                    for r in self.run(ops, k + 1, s, i + len(t), g):
                        yield r
        else:
            raise NeedConcrete('regular expression operation %s' % op)

    def repeat(self, ops, k, s, i, g, lo, hi, p, cnt, greedy):
        def more():
            if hi is C.MAXREPEAT or cnt < hi:
                for j, h in self.run(p, 0, s, i, g):
                    if j == i and cnt >= lo:
                        continue
                    for r in self.repeat(ops, k, s, j, h, lo, hi, p, cnt + 1, greedy):
                        yield r

        def done():
            if cnt >= lo:
                for r in self.run(ops, k + 1, s, i, g):
                    yield r
        for part in ((more, done) if greedy else (done, more)):
            for r in part():
                yield r

    def match_at(self, s, i, empty=True, full=False):
        for j, g in self.run(self.prog, 0, s, i, {}):
            if (empty or j > i) and (not full or j == len(s)):
                return Match(self, s, i, j, g)
        return None

    def search(self, s, i=0, empty=True):
        for p in range(i, len(s) + 1):
            m = self.match_at(s, p, empty or p > i)
            if m is not None:
                return m
        return None

    def all(self, s):
        i, empty = 0, True
        while i <= len(s):
            m = self.search(s, i, empty)
            if m is None:
                return
            yield m
            i = m.j
            empty = m.j > m.i


def p_width(p):
    w = 0
    for op, av in p:
        if op in (C.LITERAL, C.NOT_LITERAL, C.ANY, C.IN):
            w += 1
        elif op in (C.AT, C.ASSERT, C.ASSERT_NOT):
            pass
        elif op is C.SUBPATTERN:
            w += p_width(list(av[3]))
        elif op is C.BRANCH:
            ws = set(p_width(list(a)) for a in av[1])
            if len(ws) > 1:
                raise NeedConcrete('look-behind')
            w += ws.pop()
        elif op in (C.MAX_REPEAT, C.MIN_REPEAT) and av[0] == av[1]:
            w += av[0] * p_width(list(av[2]))
        else:
            raise NeedConcrete('look-behind')
    return w


class Match(object):
    def __init__(self, m, s, i, j, g):
        self.m, self.s, self.i, self.j, self.g = m, s, i, j, g
        self.re = m.rx
        self.string = encode(s)

    def span(self, k=0):
        if k == 0:
            return self.i, self.j
        if isinstance(k, str):
            k = self.m.rx.groupindex[k]
        return self.g.get(k, (-1, -1))

    def start(self, k=0):
        return self.span(k)[0]

    def end(self, k=0):
        return self.span(k)[1]

    def _g(self, k):
        a, b = self.span(k)
        return None if a < 0 else encode(self.s[a:b])

    def group(self, *ks):
        if len(ks) < 2:
            return self._g(ks[0] if ks else 0)
        return tuple(self._g(k) for k in ks)

    __getitem__ = _g

    def groups(self, default=None):
        return tuple(default if self._g(k) is None else self._g(k) for k in range(1, self.m.groups + 1))

    def __bool__(self):
        return True


def _expand(m, tmpl, repl):
    if tmpl is None:
        r = repl(m)
        return decode(r)
    if isinstance(tmpl, list):
        return tmpl
    groups, lits = tmpl
    out = list(lits)
    for i, k in groups:
        out[i] = m._g(k) or ''
    return [c for x in out for c in decode(x)]


def _sub(pattern, repl, string, count=0, flags=0):
    M = Machine(pattern, flags)
    s = decode(string)
    if callable(repl):
        tmpl = None
    elif has_sym(repl):
        tmpl = decode(repl)
        if any(char_in(c, lambda x: x == '\\') for c in tmpl):
            raise NeedConcrete('escape in a symbolic replacement')
    else:
        repl = str.__str__(repl)
        tmpl = sre_parse.parse_template(repl, M.rx) if '\\' in repl else list(repl)
    out = []
    last = n = 0
    for m in M.all(s):
        if count and n >= count:
            break
        out += s[last:m.i] + _expand(m, tmpl, repl)
        last = m.j
        n += 1
    return encode(out + s[last:]), n


def _sym(*a):
    return any(has_sym(x) or (isinstance(x, Pat)) for x in a)


class Pat(object):
    """compiled expression"""

    def __init__(self, rx):
        self.rx = rx
        self.pattern, self.flags, self.groups, self.groupindex = rx.pattern, rx.flags, rx.groups, rx.groupindex

    def search(self, s):
        return search(self.rx, s)

    def match(self, s):
        return match(self.rx, s)

    def fullmatch(self, s):
        return fullmatch(self.rx, s)

    def sub(self, repl, s, count=0):
        return sub(self.rx, repl, s, count)

    def subn(self, repl, s, count=0):
        return subn(self.rx, repl, s, count)

    def findall(self, s):
        return findall(self.rx, s)

    def finditer(self, s):
        return finditer(self.rx, s)

    def split(self, s, maxsplit=0):
        return split(self.rx, s, maxsplit)


def _p(p):
    return p.rx if isinstance(p, Pat) else p


def _one(name):
    real = getattr(real_re, name)

    def f(pattern, string, flags=0):
        pattern = _p(pattern)
        if not has_sym(string) and not has_sym(pattern):
            return real(pattern, string, flags)
        M = Machine(pattern, flags)
        s = decode(string)
        if name == 'search':
            return M.search(s)
        return M.match_at(s, 0, True, name == 'fullmatch')
    f.__name__ = name
    return f


search, match, fullmatch = _one('search'), _one('match'), _one('fullmatch')


def subn(pattern, repl, string, count=0, flags=0):
    pattern = _p(pattern)
    if not has_sym(string) and not has_sym(pattern) and not has_sym(repl):
        return real_re.subn(pattern, repl, string, count, flags)
    return _sub(pattern, repl, string, count, flags)


def sub(pattern, repl, string, count=0, flags=0):
    return subn(pattern, repl, string, count, flags)[0]


def finditer(pattern, string, flags=0):
    pattern = _p(pattern)
    if not has_sym(string) and not has_sym(pattern):
        return real_re.finditer(pattern, string, flags)
    return Machine(pattern, flags).all(decode(string))


def findall(pattern, string, flags=0):
    pattern = _p(pattern)
    if not has_sym(string) and not has_sym(pattern):
        return real_re.findall(pattern, string, flags)
    out = []
    for m in Machine(pattern, flags).all(decode(string)):
        g = m.groups('')
        out.append(m.group() if not g else (g[0] if len(g) == 1 else g))
    return out


def split(pattern, string, maxsplit=0, flags=0):
    pattern = _p(pattern)
    if not has_sym(string) and not has_sym(pattern):
        return real_re.split(pattern, string, maxsplit, flags)
    s = decode(string)
    out = []
    last = 0
    for m in Machine(pattern, flags).all(s):
        if maxsplit and len(out) >= maxsplit:
            break
        out.append(encode(s[last:m.i]))
        out += list(m.groups())
        last = m.j
    return out + [encode(s[last:])]


def compile(pattern, flags=0):
    pattern = _p(pattern)
    return Pat(real_re.compile(concretise(pattern) if isinstance(pattern, str) else pattern, flags))


def escape(s):
    return real_re.escape(concretise(s) if has_sym(s) else s)


NAMES = dict(search=search, match=match, fullmatch=fullmatch, sub=sub, subn=subn, finditer=finditer, findall=findall, split=split,
             compile=compile, escape=escape)
