"""Exact arithmetic kernel of the symbolic executor.

Values are rational functions num / prod(f_i^k_i) over Q in the variables of one
symbolic run.  Variables created for square roots, absolute values and signs carry
a rewriting rule v^2 -> polynomial, which is applied eagerly, so two expressions
that are equal modulo those definitions have the same (zero) difference.
"""
from fractions import Fraction
import math


class Poly(object):
    __slots__ = ('t', '_h', '_v', '_z', '_iv')

    def __init__(self, t):
        self.t = t
        self._h = None
        self._v = None
        self._z = None
        self._iv = None

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def __eq__(self, o):
        return self.t == o.t

    def __ne__(self, o):
        return self.t != o.t

    def vars(self):
        if self._v is None:
            s = set()
            for m in self.t:
                for v, _ in m:
                    s.add(v)
            self._v = frozenset(s)
        return self._v

    def is_const(self):
        t = self.t
        return not t or (len(t) == 1 and () in t)

    def const(self):
        return self.t.get((), 0)

    def __repr__(self):
        return ' + '.join('%s*%s' % (c, m) for m, c in sorted(self.t.items())) or '0'


def norm_num(c):
    """ints stay ints; Fractions with denominator 1 become ints"""
    if type(c) is Fraction and c.denominator == 1:
        return c.numerator
    return c


ZERO = Poly({})
ONE = Poly({(): 1})


def pconst(c):
    c = norm_num(c)
    return Poly({(): c}) if c != 0 else ZERO


def pvar(v):
    return Poly({((v, 1),): 1})


def padd(p, q):
    if not p.t:
        return q
    if not q.t:
        return p
    if len(p.t) < len(q.t):
        p, q = q, p
    r = dict(p.t)
    for m, c in q.t.items():
        x = r.get(m)
        if x is None:
            r[m] = c
        else:
            x = x + c
            if x == 0:
                del r[m]
            else:
                r[m] = norm_num(x)
    return Poly(r)


def pscale(p, c):
    c = norm_num(c)
    if c == 1:
        return p
    if c == 0:
        return ZERO
    return Poly({m: norm_num(x * c) for m, x in p.t.items()})


def pneg(p):
    return Poly({m: -x for m, x in p.t.items()})


def psub(p, q):
    return padd(p, pneg(q))


def mono_mul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    i = j = 0
    n1 = len(m1)
    n2 = len(m2)
    out = []
    while i < n1 and j < n2:
        a = m1[i]
        b = m2[j]
        if a[0] == b[0]:
            out.append((a[0], a[1] + b[1]))
            i += 1
            j += 1
        elif a[0] < b[0]:
            out.append(a)
            i += 1
        else:
            out.append(b)
            j += 1
    if i < n1:
        out.extend(m1[i:])
    if j < n2:
        out.extend(m2[j:])
    return tuple(out)


def mono_div(m1, m2):
    """m1 / m2 or None"""
    d = dict(m1)
    for v, e in m2:
        x = d.get(v, 0) - e
        if x < 0:
            return None
        if x == 0:
            del d[v]
        else:
            d[v] = x
    return tuple(sorted(d.items()))


class TooBig(Exception):
    pass


MAX_TERMS = 60000


class Kernel(object):
    """Polynomial multiplication modulo the square rules of one run."""

    def __init__(self):
        self.rules = {}      # var -> Poly  (v^2 == Poly)

    def reduce(self, p):
        rules = self.rules
        if not rules:
            return p
        todo = None
        for m in p.t:
            for v, e in m:
                if e >= 2 and v in rules:
                    todo = True
                    break
            if todo:
                break
        if not todo:
            return p
        keep = {}
        acc = ZERO
        for m, c in p.t.items():
            hit = None
            for v, e in m:
                if e >= 2 and v in rules:
                    hit = (v, e)
                    break
            if hit is None:
                x = keep.get(m, 0) + c
                if x == 0:
                    keep.pop(m, None)
                else:
                    keep[m] = norm_num(x)
            else:
                v, e = hit
                rest = tuple((w, k) for w, k in m if w != v)
                if e % 2:
                    rest = mono_mul(rest, ((v, 1),))
                q = Poly({rest: c})
                f = rules[v]
                for _ in range(e // 2):
                    q = self.mul(q, f)
                acc = padd(acc, q)
        return padd(Poly(keep), acc)

    def mul(self, p, q):
        if not p.t or not q.t:
            return ZERO
        if p.is_const():
            return pscale(q, p.const())
        if q.is_const():
            return pscale(p, q.const())
        if len(p.t) * len(q.t) > 4000000:
            raise TooBig()
        r = {}
        get = r.get
        for m1, c1 in p.t.items():
            for m2, c2 in q.t.items():
                m = mono_mul(m1, m2)
                x = get(m)
                if x is None:
                    r[m] = c1 * c2
                else:
                    r[m] = x + c1 * c2
        if len(r) > MAX_TERMS:
            raise TooBig()
        res = Poly({m: norm_num(c) for m, c in r.items() if c != 0})
        return self.reduce(res)

    def pow(self, p, k):
        r = ONE
        b = p
        while k:
            if k & 1:
                r = self.mul(r, b)
            k >>= 1
            if k:
                b = self.mul(b, b)
        return r

    # ------------------------------------------------------------------ division
    def divide(self, p, f):
        """exact quotient p / f, or None"""
        if not p.t:
            return ZERO
        if f.is_const():
            return pscale(p, Fraction(1) / f.const())
        if not (f.vars() <= p.vars()):
            return None
        if len(p.t) < len(f.t) and len(p.t) == 1:
            return None
        if len(f.t) * len(p.t) > 400000:
            return None
        nv = {v: i for i, v in enumerate(sorted(p.vars()))}
        n = len(nv)

        def tov(m):
            x = [0] * n
            for v, e in m:
                x[nv[v]] = e
            return tuple(x)
        fl = [(tov(m), c) for m, c in f.t.items()]
        lm, lc = max(fl)
        rem = {tov(m): c for m, c in p.t.items()}
        quo = {}
        steps = 0
        # cheap necessary test on total degrees
        import heapq
        heap = [tuple(-e for e in m) for m in rem]
        heapq.heapify(heap)
        while rem:
            while heap:
                top = tuple(-e for e in heap[0])
                if top in rem:
                    break
                heapq.heappop(heap)
            m = top
            c = rem[m]
            d = tuple(a - b for a, b in zip(m, lm))
            if min(d) < 0:
                return None
            qc = norm_num(Fraction(c) / lc)
            quo[d] = qc
            for fm, fc in fl:
                k = tuple(a + b for a, b in zip(d, fm))
                x = rem.get(k)
                if x is None:
                    rem[k] = -qc * fc
                    heapq.heappush(heap, tuple(-e for e in k))
                else:
                    x = x - qc * fc
                    if x == 0:
                        del rem[k]
                    else:
                        rem[k] = norm_num(x)
            steps += 1
            if steps > 3000:
                return None
        inv = sorted(nv)
        q = Poly({tuple((inv[i], e) for i, e in enumerate(m) if e): c for m, c in quo.items()})
        return q

    # ------------------------------------------------------------------ square root of a polynomial
    def poly_sqrt(self, p):
        """r with r*r == p as a polynomial (before rules), or None"""
        if not p.t:
            return ZERO
        nv = {v: i for i, v in enumerate(sorted(p.vars()))}
        n = len(nv)

        def tov(m):
            x = [0] * n
            for v, e in m:
                x[nv[v]] = e
            return tuple(x)
        rem = {tov(m): c for m, c in p.t.items()}
        lm = max(rem)
        if any(e % 2 for e in lm):
            return None
        s = frac_sqrt(rem[lm])
        if s is None:
            return None
        root = {tuple(e // 2 for e in lm): s}
        lr = tuple(e // 2 for e in lm)
        del rem[lm]
        for _ in range(400):
            if not rem:
                inv = sorted(nv)
                return Poly({tuple((inv[i], e) for i, e in enumerate(m) if e): norm_num(c)
                             for m, c in root.items()})
            m = max(rem)
            d = tuple(a - b for a, b in zip(m, lr))
            if min(d) < 0 or d >= lr or d in root:
                return None
            c = Fraction(rem[m]) / (2 * s)
            # rem -= 2*c*d*root + (c*d)^2
            for rm, rc in root.items():
                k = tuple(a + b for a, b in zip(d, rm))
                x = rem.get(k, 0) - 2 * c * rc
                if x == 0:
                    rem.pop(k, None)
                else:
                    rem[k] = x
            k = tuple(2 * a for a in d)
            x = rem.get(k, 0) - c * c
            if x == 0:
                rem.pop(k, None)
            else:
                rem[k] = x
            root[d] = c
        return None


def isqrt_exact(n):
    if n < 0:
        return None
    r = math.isqrt(n)
    return r if r * r == n else None


def frac_sqrt(c):
    c = Fraction(c)
    a = isqrt_exact(c.numerator)
    if a is None:
        return None
    b = isqrt_exact(c.denominator)
    if b is None:
        return None
    return Fraction(a, b)


def lead(p):
    return max(p.t)   # any fixed total order will do


def content(p):
    """positive rational content and primitive part with positive leading coefficient; returns (c, prim)
    with p = c * prim (c carries the sign)"""
    num = 0
    den = 1
    for c in p.t.values():
        if type(c) is Fraction:
            num = math.gcd(num, c.numerator)
            den = den * c.denominator // math.gcd(den, c.denominator)
        else:
            num = math.gcd(num, c)
    g = Fraction(num, den)
    if p.t[lead(p)] < 0:
        g = -g
    if g == 1:
        return 1, p
    inv = 1 / g
    return norm_num(g), pscale(p, inv)


def square_part(n):
    """n = k*k*m with m (nearly) squarefree, n a positive int"""
    k = 1
    f = 2
    while f * f <= n and f < 2000:
        while n % (f * f) == 0:
            n //= f * f
            k *= f
        f += 1
    r = isqrt_exact(n)
    if r is not None and r > 1:
        k *= r
        n = 1
    return k, n


class Rat(object):
    """num / prod(f^k); den is a tuple of (Poly, k) with primitive f"""
    __slots__ = ('n', 'd', '_h')

    def __init__(self, n, d=()):
        self.n = n
        self.d = d
        self._h = None

    def is_zero(self):
        return not self.n.t

    def is_const(self):
        return not self.d and self.n.is_const()

    def const(self):
        return self.n.const()

    def vars(self):
        v = self.n.vars()
        for f, _ in self.d:
            v = v | f.vars()
        return v

    def key(self):
        return (self.n, frozenset(self.d))

    def __repr__(self):
        return '(%r)/(%r)' % (self.n, self.d)


def dmap(d):
    return dict(d)


class RatOps(object):
    def __init__(self):
        self.k = Kernel()

    def _cancel(self, n, d):
        """cancel exact common factors; d: dict Poly->k"""
        if not n.t:
            return Rat(ZERO)
        out = []
        for f, k in d.items():
            while k > 0:
                q = self.k.divide(n, f) if len(n.t) <= 1500 else None
                if q is None:
                    break
                n = q
                k -= 1
            if k:
                out.append((f, k))
        return Rat(n, tuple(sorted(out, key=lambda x: hash(x[0]))))

    def const(self, c):
        return Rat(pconst(c))

    def var(self, v):
        return Rat(pvar(v))

    def add(self, a, b):
        if not a.n.t:
            return b
        if not b.n.t:
            return a
        if a.d == b.d:
            n = padd(a.n, b.n)
            if not a.d:
                return Rat(n)
            return self._cancel(n, dict(a.d))
        da = dict(a.d)
        db = dict(b.d)
        na, nb = a.n, b.n
        l = dict(da)
        for f, k in db.items():
            if l.get(f, 0) < k:
                l[f] = k
        for f, k in l.items():
            e = k - da.get(f, 0)
            if e:
                na = self.k.mul(na, self.k.pow(f, e))
            e = k - db.get(f, 0)
            if e:
                nb = self.k.mul(nb, self.k.pow(f, e))
        return self._cancel(padd(na, nb), l)

    def neg(self, a):
        return Rat(pneg(a.n), a.d)

    def sub(self, a, b):
        return self.add(a, self.neg(b))

    def mul(self, a, b):
        if not a.n.t or not b.n.t:
            return Rat(ZERO)
        if not a.d and not b.d:
            return Rat(self.k.mul(a.n, b.n))
        na, nb = a.n, b.n
        da = dict(a.d)
        db = dict(b.d)
        # cross-cancel before multiplying
        for d, which in ((db, 0), (da, 1)):
            for f in list(d):
                while d[f] > 0:
                    x = na if which == 0 else nb
                    q = self.k.divide(x, f) if len(x.t) <= 1500 else None
                    if q is None:
                        break
                    if which == 0:
                        na = q
                    else:
                        nb = q
                    d[f] -= 1
                if d[f] == 0:
                    del d[f]
        for f, k in db.items():
            da[f] = da.get(f, 0) + k
        return self._cancel(self.k.mul(na, nb), da)

    def inv(self, a):
        """1/a; a must be known non-zero"""
        c, prim = content(a.n)
        # pull out monomial factors of the numerator
        d = {}
        if prim.is_const():
            pass
        elif len(prim.t) == 1:
            (m, cc), = prim.t.items()
            for v, e in m:
                d[pvar(v)] = e
        else:
            com = None
            for m in prim.t:
                dm = dict(m)
                if com is None:
                    com = dm
                else:
                    com = {v: min(e, dm[v]) for v, e in com.items() if v in dm}
                if not com:
                    break
            if com:
                mm = tuple(sorted(com.items()))
                prim = Poly({mono_div(m, mm): cc for m, cc in prim.t.items()})
                for v, e in com.items():
                    d[pvar(v)] = e
            d[prim] = d.get(prim, 0) + 1
        n = pconst(Fraction(1) / c)
        for f, k in a.d:
            n = self.k.mul(n, self.k.pow(f, k))
        return self._cancel(n, d)

    def div(self, a, b):
        return self.mul(a, self.inv(b))
