"""Symbolic values, path exploration and solver access."""
import math
import os
import opcode
import random
import sys
import time
from fractions import Fraction

import numpy as np

from .z3load import z3
from .cas import (Poly, Rat, RatOps, ZERO, ONE, pconst, pvar, padd, pneg, psub, pscale, content, square_part,
                  frac_sqrt, lead, mono_div, TooBig, norm_num)


class NeedConcrete(BaseException):
    """the executor cannot represent this operation symbolically on the current path"""


class PathInfeasible(BaseException):
    pass


class AssumeFailed(BaseException):
    pass


class Deadline(BaseException):
    pass


CTX = None
_MODULO = tuple(opcode.opmap[k] for k in ('BINARY_MODULO', 'INPLACE_MODULO') if k in opcode.opmap)


def ctx():
    return CTX


def set_ctx(c):
    global CTX
    CTX = c


# --------------------------------------------------------------------------- conditions
class Cond(object):
    """boolean formula; op in '>', '>=', '==', '!=' (poly vs 0), 'and', 'or', 'not', 'raw'"""
    __slots__ = ('op', 'a', '_z', '_vars')
    __array_priority__ = 2000

    def __init__(self, op, a):
        self.op = op
        self.a = a
        self._z = None
        self._vars = None

    # structure -----------------------------------------------------------
    def vars(self):
        if self._vars is None:
            if self.op in ('>', '>=', '==', '!='):
                self._vars = self.a.vars()
            elif self.op == 'raw':
                self._vars = self.a[1]
            else:
                s = frozenset()
                for x in self.a:
                    s = s | x.vars()
                self._vars = s
        return self._vars

    def z(self):
        if self._z is None:
            c = CTX
            if self.op == '>':
                self._z = c.pz(self.a) > 0
            elif self.op == '>=':
                self._z = c.pz(self.a) >= 0
            elif self.op == '==':
                self._z = c.pz(self.a) == 0
            elif self.op == '!=':
                self._z = c.pz(self.a) != 0
            elif self.op == 'and':
                self._z = z3.And(*[x.z() for x in self.a])
            elif self.op == 'or':
                self._z = z3.Or(*[x.z() for x in self.a])
            elif self.op == 'not':
                self._z = z3.Not(self.a[0].z())
            else:
                self._z = self.a[0]
        return self._z

    def ev(self, pt):
        """truth at a float point; None when it cannot be evaluated"""
        op = self.op
        if op in ('>', '>=', '==', '!='):
            v = CTX.peval(self.a, pt)
            if v is None:
                return None
            if op == '>':
                return v > 0
            if op == '>=':
                return v >= 0
            if op == '==':
                return v == 0
            return v != 0
        if op == 'raw':
            return self.a[2](pt) if self.a[2] is not None else None
        vals = [x.ev(pt) for x in self.a]
        if op == 'not':
            return None if vals[0] is None else not vals[0]
        if op == 'and':
            if any(v is False for v in vals):
                return False
            return None if any(v is None for v in vals) else True
        if any(v is True for v in vals):
            return True
        return None if any(v is None for v in vals) else False

    # python protocol -----------------------------------------------------
    def __bool__(self):
        return CTX.branch(self)

    def __and__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        return cand(self, o)
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        return cor(self, o)
    __ror__ = __or__

    def __invert__(self):
        return cnot(self)

    def __xor__(self, o):
        return bool(self) != bool(o)
    __rxor__ = __xor__

    def __eq__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        return bool(self) == o

    def __ne__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        return bool(self) != o

    def __hash__(self):
        return id(self)

    def _num(self):
        return int(bool(self))

    def __int__(self):
        return self._num()

    def __index__(self):
        return self._num()

    def __float__(self):
        return float(self._num())

    def __add__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        return self._num() + o
    __radd__ = __add__

    def __mul__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        return self._num() * o
    __rmul__ = __mul__

    def __sub__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        return self._num() - o

    def __rsub__(self, o):
        return o - self._num()

    def __array_ufunc__(self, uf, method, *args, **kw):
        from . import symnp
        return symnp.ufunc_handler(uf, method, *args, **kw)

    # ndarray-like surface of np.bool_
    dtype = np.dtype(bool)
    shape = ()
    ndim = 0
    size = 1

    def any(self, *a, **k):
        return self

    def all(self, *a, **k):
        return self

    def item(self):
        return self

    def flatten(self):
        from . import symnp
        return symnp.mk([self])

    ravel = flatten

    def __getitem__(self, k):
        if isinstance(k, tuple) and k == ():
            return self
        if isinstance(k, (bool, np.bool_, Cond)):
            from . import symnp
            return symnp.mk([self] if bool(k) else [])
        raise IndexError('invalid index to scalar variable.')

    def __repr__(self):
        return '<Cond %s>' % self.op


def is_bool(x):
    return isinstance(x, (bool, np.bool_))


def cnot(c):
    if is_bool(c):
        return not c
    if c.op == '>':
        return Cond('>=', pneg(c.a))
    if c.op == '>=':
        return Cond('>', pneg(c.a))
    if c.op == '==':
        return Cond('!=', c.a)
    if c.op == '!=':
        return Cond('==', c.a)
    if c.op == 'not':
        return c.a[0]
    if c.op == 'and':
        return cor(*[cnot(x) for x in c.a])
    if c.op == 'or':
        return cand(*[cnot(x) for x in c.a])
    return Cond('not', (c,))


def truthy(x):
    """value -> python bool or Cond, without forking"""
    if isinstance(x, Cond):
        return x
    if isinstance(x, Sym):
        return x != 0
    return bool(x)


def cand(*cs):
    out = []
    for c in cs:
        c = truthy(c)
        if is_bool(c):
            if not c:
                return False
            continue
        if c.op == 'and':
            out.extend(c.a)
        else:
            out.append(c)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return Cond('and', tuple(out))


def cor(*cs):
    out = []
    for c in cs:
        c = truthy(c)
        if is_bool(c):
            if c:
                return True
            continue
        if c.op == 'or':
            out.extend(c.a)
        else:
            out.append(c)
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return Cond('or', tuple(out))


def implies(a, b):
    return cor(cnot(truthy(a)), b)


# --------------------------------------------------------------------------- symbolic reals
_BAD = object()


def to_rat(x):
    """number -> Rat, or _BAD for nan/inf, or None when it is not a real number"""
    if isinstance(x, Sym):
        return x.r
    if isinstance(x, Cond):
        return Rat(pconst(int(bool(x))))
    if isinstance(x, (bool, np.bool_)):
        return Rat(pconst(int(x)))
    if isinstance(x, (int, np.integer)):
        return Rat(pconst(int(x)))
    if isinstance(x, Fraction):
        return Rat(pconst(x))
    if isinstance(x, (float, np.floating)):
        x = float(x)
        if x != x or x in (math.inf, -math.inf):
            return _BAD
        if x == int(x) and abs(x) < 1e15:
            return Rat(pconst(int(x)))
        return Rat(pconst(Fraction(repr(x))))
    if isinstance(x, (complex, np.complexfloating)):
        if x.imag == 0:
            return to_rat(float(x.real))
        raise NeedConcrete('complex')
    return None


class Sym(object):
    __slots__ = ('r',)
    __array_priority__ = 2000

    def __init__(self, r):
        self.r = r

    # numpy scalar surface -------------------------------------------------
    dtype = np.dtype('float64')
    shape = ()
    ndim = 0
    size = 1

    @property
    def T(self):
        return self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return np.float64(0.)

    @property
    def flat(self):
        from . import symnp
        return symnp.mk([self]).flat

    def flatten(self):
        from . import symnp
        return symnp.mk([self])

    ravel = flatten

    def reshape(self, *shape):
        from . import symnp
        return symnp.mk([self]).reshape(*shape)

    def item(self, *a):
        return self

    def copy(self):
        return self

    def astype(self, *a, **k):
        return self

    def conj(self):
        return self

    conjugate = conj

    def sum(self, *a, **k):
        return self

    min = max = sum

    def all(self, *a, **k):
        return truthy(self)

    any = all

    def squeeze(self, *a):
        return self

    def tolist(self):
        return self

    def dot(self, o):
        return self * o

    def __getitem__(self, k):
        if isinstance(k, tuple) and k == () or k is Ellipsis:
            return self
        if isinstance(k, (bool, np.bool_, Cond)):
            from . import symnp
            return symnp.mk([self] if bool(k) else [])
        raise IndexError('invalid index to scalar variable.')

    def __array_ufunc__(self, uf, method, *args, **kw):
        from . import symnp
        return symnp.ufunc_handler(uf, method, *args, **kw)

    # conversions ----------------------------------------------------------
    def is_const(self):
        return self.r.is_const()

    def __float__(self):
        if self.r.is_const():
            return float(self.r.const())
        f = sys._getframe(1)
        if 0 <= f.f_lasti < len(f.f_code.co_code) and f.f_code.co_code[f.f_lasti] in _MODULO:
            # '%e' % value: numbers inside messages are not modelled
            CTX.notes.add('numbers printed inside messages are not modelled')
            for pt in CTX.points:
                x = CTX.reval(self.r, pt)
                if x is not None:
                    return x
            return 0.0
        raise NeedConcrete('float() of a symbolic value')

    def __int__(self):
        if self.r.is_const():
            return int(self.r.const())
        return int(trunc_sym(self))

    def __index__(self):
        raise TypeError('only integers can be used as an index')

    def __trunc__(self):
        return int(self)

    def __floor__(self):
        return int(floor_sym(self))

    def __ceil__(self):
        return int(-floor_sym(-self))

    def __round__(self, n=None):
        raise NeedConcrete('round')

    def __bool__(self):
        return bool(self != 0)

    def __hash__(self):
        if self.r.is_const():
            return hash(self.r.const())
        return hash(self.r.n)

    def __repr__(self):
        if self.r.is_const():
            return 'S(%s)' % self.r.const()
        return 'S<%d terms>' % len(self.r.n.t)

    def __format__(self, spec):
        return repr(self)

    # arithmetic -----------------------------------------------------------
    def _bin(self, o, f, inf_case):
        if isinstance(o, np.ndarray):
            return NotImplemented
        b = to_rat(o)
        if b is None:
            return NotImplemented
        if b is _BAD:
            return inf_case(float(o))
        try:
            return Sym(f(self.r, b))
        except TooBig:
            raise NeedConcrete('expression too large')

    def __add__(self, o):
        return self._bin(o, CTX.ops.add, lambda x: np.float64(x))
    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, CTX.ops.sub, lambda x: np.float64(-x))

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: CTX.ops.sub(b, a), lambda x: np.float64(x))

    def __mul__(self, o):
        return self._bin(o, CTX.ops.mul, lambda x: mul_inf(self, x))
    __rmul__ = __mul__

    def __neg__(self):
        return Sym(CTX.ops.neg(self.r))

    def __pos__(self):
        return self

    def __truediv__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        return sdiv(self, o)

    def __rtruediv__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        return sdiv(o, self)

    def __pow__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        return spow(self, o)

    def __rpow__(self, o):
        if self.is_const():
            return np.float64(o) ** float(self)
        raise NeedConcrete('symbolic exponent')

    def __mod__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        return self - floor_sym(self / o) * o

    def __rmod__(self, o):
        return o - floor_sym(sdiv(o, self)) * self

    def __floordiv__(self, o):
        return floor_sym(self / o)

    def __abs__(self):
        return sabs(self)

    def sqrt(self):
        return ssqrt(self)

    # comparison -----------------------------------------------------------
    def _cmp(self, o, op):
        if isinstance(o, np.ndarray):
            return NotImplemented
        b = to_rat(o)
        if b is None:
            return NotImplemented
        if b is _BAD:
            x = float(o)
            if x != x:
                return op == '!='
            big = x > 0
            return {'<': big, '<=': big, '>': not big, '>=': not big, '==': False, '!=': True}[op]
        return compare(self.r, b, op)

    def __lt__(self, o):
        return self._cmp(o, '<')

    def __le__(self, o):
        return self._cmp(o, '<=')

    def __gt__(self, o):
        return self._cmp(o, '>')

    def __ge__(self, o):
        return self._cmp(o, '>=')

    def __eq__(self, o):
        r = self._cmp(o, '==')
        return r

    def __ne__(self, o):
        return self._cmp(o, '!=')


def S(x):
    """number -> Sym"""
    if isinstance(x, Sym):
        return x
    r = to_rat(x)
    if r is None or r is _BAD:
        raise TypeError('not a finite number: %r' % (x,))
    return Sym(r)


def is_num(x):
    return isinstance(x, (int, float, np.number, np.bool_, Fraction)) and not isinstance(x, complex)


def is_fin(x):
    return isinstance(x, Sym) or math.isfinite(float(x))


def mul_inf(s, x):
    if x != x:
        return np.float64(x)
    if bool(s > 0):
        return np.float64(x)
    if bool(s < 0):
        return np.float64(-x)
    return np.float64('nan')


def sdiv(a, b):
    """numpy true division of scalars"""
    for x in (a, b):
        if not isinstance(x, (Sym, Cond)) and not is_num(x):
            return NotImplemented
    fa = isinstance(a, (Sym, Cond)) or math.isfinite(float(a))
    fb = isinstance(b, (Sym, Cond)) or math.isfinite(float(b))
    if not fb:
        if float(b) != float(b) or not fa:
            return np.float64('nan')
        return np.float64(0.)
    b = S(b)
    if not fa:
        x = float(a)
        if x != x:
            return np.float64(x)
        return np.float64(x) if bool(b >= 0) else np.float64(-x)
    a = S(a)
    if bool(b == 0):
        if bool(a == 0):
            return np.float64('nan')
        return np.float64('inf') if bool(a > 0) else np.float64('-inf')
    try:
        return Sym(CTX.ops.div(a.r, b.r))
    except TooBig:
        raise NeedConcrete('expression too large')


def spow(a, k):
    if isinstance(k, Sym):
        if not k.is_const():
            raise NeedConcrete('symbolic exponent')
        k = k.r.const()
    if isinstance(k, (float, np.floating)):
        if float(k) == int(k):
            k = int(k)
        else:
            k = Fraction(float(k))
    if isinstance(k, Fraction):
        if k.denominator == 1:
            k = int(k)
        elif k.denominator == 2:
            s = ssqrt(a)
            return spow(S(s), int(k.numerator)) if isinstance(s, Sym) else s
        else:
            raise NeedConcrete('fractional power')
    k = int(k)
    if k < 0:
        return sdiv(1, spow(a, -k))
    r = S(1)
    for _ in range(k):
        r = r * a
    return r


# --------------------------------------------------------------------------- comparisons
def compare(a, b, op):
    """Rat op Rat -> bool or Cond"""
    c = CTX
    if op in ('<', '<='):
        return compare(b, a, {'<': '>', '<=': '>='}[op])
    try:
        d = c.ops.sub(a, b)
    except TooBig:
        raise NeedConcrete('expression too large')
    return sign_cond(d, op)


DEBUG = bool(os.environ.get('ELLSYM_FORKS'))
TOLERANCES = (Fraction(1, 10**6), Fraction(1, 10**5), Fraction(1, 2 * 10**6), Fraction(1, 10**7))


def sign_cond(d, op):
    """Rat op 0 with op in > >= == !="""
    c = CTX
    if d.is_zero():
        return op in ('>=', '==')
    n = d.n
    if op in ('>', '>='):
        flip = False
        known = bool(d.d) and bool(c.lemmas)
        for f, k in d.d:
            if k % 2:
                s = c.sign_fact(f)
                if s in ('+', '>='):
                    continue
                if s in ('-', '<='):
                    n = pneg(n)
                    flip = not flip
                    continue
                known = False
                try:
                    n = c.ops.k.mul(n, f)
                except TooBig:
                    raise NeedConcrete('expression too large')
        if known:
            # a known sign of the quotient up to one of the tolerances
            try:
                D = c._pos_den(d.d)
                if flip:
                    D = pneg(D)
                for t in TOLERANCES:
                    for sg in (1, -1):
                        r = padd(n, pscale(D, -sg * t))
                        f = c._fact2(r) if r.t else '0'
                        if sg > 0 and f in ('+', '>=', '0'):
                            return True
                        if sg < 0 and f in ('-', '<=', '0'):
                            return False
            except TooBig:
                pass
    _, pr = content(n)
    if n.t[lead(n)] < 0:
        pr = pneg(pr)
    n = pr
    if n.is_const():
        x = n.const()
        return {'>': x > 0, '>=': x >= 0, '==': x == 0, '!=': x != 0}[op]
    iv = c.interval(n)
    lo, hi = iv
    if op == '>':
        if lo == 'p':
            return True
        if hi in ('z', 'n'):
            return False
    elif op == '>=':
        if lo in ('p', 'z'):
            return True
        if hi == 'n':
            return False
    elif op == '==':
        if lo == 'p' or hi == 'n':
            return False
    elif op == '!=':
        if lo == 'p' or hi == 'n':
            return True
    return Cond(op, n)


# --------------------------------------------------------------------------- non-polynomial operations
def ssqrt(x):
    if not isinstance(x, Sym):
        return np.sqrt(np.float64(x))
    if x.r.is_zero():
        return S(0)
    if x.is_const():
        cval = x.r.const()
        if cval < 0:
            return np.float64('nan')
        q = frac_sqrt(cval)
        if q is not None:
            return Sym(Rat(pconst(q)))
    if bool(x < 0):
        return np.float64('nan')
    return Sym(CTX.sqrt_rat(x.r))


def sabs(x):
    if not isinstance(x, Sym):
        return abs(x)
    return Sym(CTX.abs_rat(x.r))


def smax(xs):
    """maximum of a non-empty list of finite/infinite values (numpy semantics: nan propagates)"""
    return _extremum(xs, 1)


def smin(xs):
    return _extremum(xs, -1)


def _extremum(xs, sg):
    num = []
    best_inf = None
    for x in xs:
        if isinstance(x, Cond):
            x = int(bool(x))
        if not isinstance(x, Sym):
            f = float(x)
            if f != f:
                return np.float64('nan')
            if math.isinf(f):
                if (f > 0) == (sg > 0):
                    return np.float64(f)
                best_inf = np.float64(f)
                continue
        num.append(x)
    if not num:
        return best_inf
    if all(not isinstance(x, Sym) or x.is_const() for x in num):
        v = num[0]
        for x in num[1:]:
            if (S(x).r.const() > S(v).r.const()) == (sg > 0):
                v = x
        return v
    ss = []
    seen = set()
    for x in num:
        s = S(x)
        k = s.r.key()
        if k not in seen:
            seen.add(k)
            ss.append(s)
    # drop dominated elements
    keep = []
    for s in ss:
        dom = False
        for t in keep:
            d = (t - s) if sg > 0 else (s - t)
            if sign_cond(d.r, '>=') is True:
                dom = True
                break
        if not dom:
            k2 = []
            for t in keep:
                d = (s - t) if sg > 0 else (t - s)
                if sign_cond(d.r, '>=') is not True:
                    k2.append(t)
            keep = k2 + [s]
    if len(keep) == 1:
        return keep[0]
    return Sym(CTX.ext_rat([s.r for s in keep], sg))


def floor_sym(x):
    if not isinstance(x, Sym):
        return np.floor(x)
    if x.is_const():
        return S(math.floor(x.r.const()))
    lo, hi = CTX.numeric_interval(x)
    if lo is None or hi is None or hi - lo > 600:
        raise NeedConcrete('floor of an unbounded value')
    a = math.floor(lo)
    b = math.floor(hi)
    while a < b:      # binary search keeps the number of forks logarithmic per path
        m = (a + b) // 2
        if bool(x < m + 1):
            b = m
        else:
            a = m + 1
    return S(a)


def trunc_sym(x):
    if not isinstance(x, Sym):
        return np.trunc(x)
    if bool(x >= 0):
        return floor_sym(x)
    return -floor_sym(-x)


def ssign(x):
    if not isinstance(x, Sym):
        return np.sign(x)
    if bool(x > 0):
        return np.float64(1.)
    if bool(x < 0):
        return np.float64(-1.)
    return np.float64(0.)


def strig(x, which):
    if not isinstance(x, Sym):
        return getattr(np, which)(x)
    if x.is_const():
        return getattr(np, which)(float(x))
    return Sym(CTX.trig_rat(x.r, which))


# --------------------------------------------------------------------------- the path context
class VarInfo(object):
    __slots__ = ('name', 'lo', 'hi', 'kind', 'ev', 'z', 'defs', 'deps')


class Stats(object):
    def __init__(self):
        self.queries = 0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.time = 0.0

    def add(self, o):
        for k in ('queries', 'unsat', 'sat', 'unknown', 'time'):
            setattr(self, k, getattr(self, k) + getattr(o, k))

    def dict(self):
        return {k: getattr(self, k) for k in ('queries', 'unsat', 'sat', 'unknown', 'time')}


class Ctx(object):
    """state of one symbolic run along one path"""

    def __init__(self, prefix=(), seed=1, opts=None, stats=None, deadline=None):
        self.ops = RatOps()
        self.vars = []
        self.by_name = {}
        self.prefix = list(prefix)
        self.trace = []
        self.alts = []           # alternative prefixes discovered on this path
        self.pc = []             # list of Cond
        self.facts = {}          # primitive Poly -> sign fact
        self.memo = {}           # comparison -> decision on this path
        self.atoms = {}          # memo for sqrt/abs/ext atoms
        self.choices = {}
        self.opts = opts or {}
        self.stats = stats if stats is not None else Stats()
        self.deadline = deadline
        self.rng = random.Random(seed)
        self.points = [dict() for _ in range(self.opts.get('npoints', 24))]
        self._pz = {}
        self.inputs = []
        self.hints = {}
        self.bases = {}          # registered orthonormal eigenbases by dimension
        self.unknown_branches = 0
        self.nforks = 0
        self.in_oracle = 0
        self.notes = set()
        self.lemmas = []
        self._sup = {}
        self._csup = {}

    # ---------------------------------------------------------------- variables
    def new_var(self, name, kind, lo=None, hi=None, ev=None, deps=()):
        vi = VarInfo()
        base = name
        i = 1
        while name in self.by_name:
            i += 1
            name = '%s_%d' % (base, i)
        vi.name = name
        vi.lo = lo
        vi.hi = hi
        vi.kind = kind
        vi.ev = ev
        vi.z = z3.Real(name)
        vi.defs = []
        vi.deps = deps
        idx = len(self.vars)
        self.vars.append(vi)
        self.by_name[name] = idx
        return idx

    def input(self, name, lo, hi, hint=None):
        lo = Fraction(lo) if lo is not None else None
        hi = Fraction(hi) if hi is not None else None
        idx = self.new_var(name, 'in', lo, hi)
        vi = self.vars[idx]
        if lo is not None:
            vi.defs.append(Cond('raw', (vi.z >= z3.Q(lo.numerator, lo.denominator), frozenset([idx]), None)))
        if hi is not None:
            vi.defs.append(Cond('raw', (vi.z <= z3.Q(hi.numerator, hi.denominator), frozenset([idx]), None)))
        self.inputs.append(idx)
        l = float(lo) if lo is not None else -8.
        h = float(hi) if hi is not None else 8.
        for k, pt in enumerate(self.points):
            if hint is not None and k % 4 == 0:
                pt[idx] = float(hint)
                self.rng.random()
            elif k % 4 == 1 and h - l > 4:
                a = max(l, -2.)
                b = min(h, 2.)
                if a >= b:
                    a, b = l, h
                pt[idx] = a + (b - a) * self.rng.random()
            else:
                pt[idx] = l + (h - l) * self.rng.random()
        return Sym(self.ops.var(idx))

    def val(self, v, pt):
        x = pt.get(v)
        if x is None:
            if v in pt:
                return None
            ev = self.vars[v].ev
            try:
                x = ev(pt) if ev is not None else None
                if x is not None and (x != x or abs(x) == math.inf):
                    x = None
            except (ValueError, ZeroDivisionError, OverflowError, TypeError):
                x = None
            pt[v] = x
        return x

    def peval(self, p, pt):
        s = 0.
        for m, c in p.t.items():
            x = float(c)
            for v, e in m:
                y = self.val(v, pt)
                if y is None:
                    return None
                x *= y ** e
            s += x
        return s

    def reval(self, r, pt):
        x = self.peval(r.n, pt)
        if x is None:
            return None
        for f, k in r.d:
            y = self.peval(f, pt)
            if y is None or y == 0:
                return None
            x /= y ** k
        return x

    # ---------------------------------------------------------------- intervals and sign facts
    def _iv_num(self, p):
        """float interval of a polynomial from variable bounds; returns (lo, hi, mag, allnn, allnp)"""
        lo = hi = 0.
        mag = 0.
        for m, c in p.t.items():
            a = b = float(c)
            for v, e in m:
                vi = self.vars[v]
                l = float(vi.lo) if vi.lo is not None else -math.inf
                h = float(vi.hi) if vi.hi is not None else math.inf
                if e % 2 == 0:
                    if l >= 0:
                        l, h = l ** e, h ** e
                    elif h <= 0:
                        l, h = h ** e, l ** e
                    else:
                        l, h = 0., max(-l, h) ** e
                else:
                    l, h = _ipow(l, e), _ipow(h, e)
                prods = [_imul(a, l), _imul(a, h), _imul(b, l), _imul(b, h)]
                a, b = min(prods), max(prods)
            lo += a
            hi += b
            mag += max(abs(a), abs(b))
        return lo, hi, mag

    def interval(self, p):
        """(lo class, hi class) with classes p(os) z(ero) n(eg) or '?'"""
        lo, hi, mag = self._iv_num(p)
        if mag == math.inf:
            # use only sign information of the terms
            tol = 0.
        else:
            tol = 1e-11 * mag
        lc = hc = '?'
        if lo != lo or hi != hi:
            pass
        else:
            if lo > tol and (mag != math.inf or lo > 1e-11):
                lc = 'p'
            elif lo >= 0:
                lc = 'z'
            if hi < -tol and (mag != math.inf or hi < -1e-11):
                hc = 'n'
            elif hi <= 0:
                hc = 'z'
        f = self.facts.get(p)
        if f is None:
            f2 = self.facts.get(pneg(p))
            if f2 is not None:
                f = {'+': '-', '-': '+', '>=': '<=', '<=': '>='}.get(f2, f2)
        if f == '+':
            lc = 'p'
        elif f == '-':
            hc = 'n'
        elif f == '>=' and lc == '?':
            lc = 'z'
        elif f == '<=' and hc == '?':
            hc = 'z'
        if lc == '?' and hc == '?' and () in p.t and len(p.t) > 1:
            k = p.t[()]
            rest = Poly({m: c for m, c in p.t.items() if m != ()})
            f = self._fact2(rest)
            if f in ('+', '>=') and k > 0:
                lc = 'p'
            elif f in ('-', '<=') and k < 0:
                hc = 'n'
        if lc == '?' and hc == '?' and len(p.t) == 1:
            (m, c), = p.t.items()
            s = 1 if c > 0 else -1
            strict = True
            for v, e in m:
                vi = self.vars[v]
                vf = self.facts.get(pvar(v))
                if e % 2 == 0:
                    if not (vf in ('+', '-', '!=') or (vi.lo is not None and vi.lo > 0)
                            or (vi.hi is not None and vi.hi < 0)):
                        strict = False
                    continue
                if vf == '+' or (vi.lo is not None and vi.lo > 0):
                    continue
                if vf == '-' or (vi.hi is not None and vi.hi < 0):
                    s = -s
                    continue
                if vf == '>=' or (vi.lo is not None and vi.lo >= 0):
                    strict = False
                    continue
                if vf == '<=' or (vi.hi is not None and vi.hi <= 0):
                    strict = False
                    s = -s
                    continue
                return '?', '?'
            if s > 0:
                return ('p' if strict else 'z'), '?'
            return '?', ('n' if strict else 'z')
        return lc, hc

    def _fact2(self, p):
        c, pr = content(p)
        f = self.facts.get(pr)
        if f is not None and c < 0:
            f = {'+': '-', '-': '+', '>=': '<=', '<=': '>='}.get(f, f)
        return f

    def lemma(self, s, op):
        """a fact that holds by construction (s op 0)"""
        c = sign_cond(s.r, op)
        if is_bool(c):
            return
        self._learn(c)
        self.lemmas.append(c)

    def numeric_interval(self, s):
        r = s.r
        if r.d:
            return None, None
        lo, hi, mag = self._iv_num(r.n)
        if math.isinf(lo) or math.isinf(hi) or lo != lo:
            return None, None
        e = 1e-9 * (1 + mag)
        return lo - e, hi + e

    def sign_fact(self, p):
        lo, hi = self.interval(p)
        if lo == 'p':
            return '+'
        if hi == 'n':
            return '-'
        if lo == 'z':
            return '>='
        if hi == 'z':
            return '<='
        return None

    def _learn(self, cond):
        if cond.op in ('>', '>=', '==', '!='):
            p = cond.a
            c, pr = content(p)
            neg = c < 0
            op = cond.op
            if op == '>':
                f = '-' if neg else '+'
            elif op == '>=':
                f = '<=' if neg else '>='
            elif op == '==':
                f = '0'
            else:
                f = '!='
            old = self.facts.get(pr)
            if old in ('+', '-', '0'):
                return
            if old == '>=' and f == '!=' or old == '!=' and f == '>=':
                f = '+'
            elif old == '<=' and f == '!=' or old == '!=' and f == '<=':
                f = '-'
            self.facts[pr] = f
            if len(pr.t) == 1 and f in ('+', '-', '!='):
                (m, cc), = pr.t.items()
                if len(m) > 1 or m[0][1] > 1:
                    for v, e in m:
                        if self.facts.get(pvar(v)) not in ('+', '-'):
                            w = self.vars[v]
                            nf = '!='
                            if w.lo is not None and w.lo >= 0 or self.facts.get(pvar(v)) == '>=':
                                nf = '+'
                            elif w.hi is not None and w.hi <= 0 or self.facts.get(pvar(v)) == '<=':
                                nf = '-'
                            self.facts[pvar(v)] = nf
        elif cond.op == 'and':
            for x in cond.a:
                self._learn(x)

    # ---------------------------------------------------------------- z3 translation
    def pz(self, p):
        e = self._pz.get(p)
        if e is not None:
            return e
        terms = []
        for m, c in p.t.items():
            fs = []
            if c != 1 or not m:
                if type(c) is Fraction:
                    fs.append(z3.RealVal('%d/%d' % (c.numerator, c.denominator)))
                else:
                    fs.append(z3.RealVal(c))
            for v, k in m:
                z = self.vars[v].z
                for _ in range(k):
                    fs.append(z)
            t = fs[0]
            for f in fs[1:]:
                t = t * f
            terms.append(t)
        if not terms:
            e = z3.RealVal(0)
        elif len(terms) == 1:
            e = terms[0]
        else:
            e = z3.Sum(terms)
        self._pz[p] = e
        return e

    # ---------------------------------------------------------------- atoms
    def _pos_den(self, d):
        """sign-adjust: product of f^k over d, as Poly, assuming each f != 0"""
        p = ONE
        for f, k in d:
            p = self.ops.k.mul(p, self.ops.k.pow(f, k))
        return p

    def sqrt_rat(self, r):
        """square root of a non-negative Rat"""
        try:
            return self._sqrt_rat(r)
        except TooBig:
            raise NeedConcrete('expression too large')

    def _sqrt_rat(self, r):
        key = ('sqrt', r.key())
        if key in self.atoms:
            return self.atoms[key]
        # num / prod f^k  ->  sqrt(num * prod_{k odd} f) / prod f^ceil(k/2)
        n = r.n
        outd = Rat(ONE)
        for f, k in r.d:
            e = (k + 1) // 2
            if k % 2:
                n = self.ops.k.mul(n, f)
            fr = Rat(f)
            s = self.sign_fact(f)
            if e % 2:
                if s not in ('+', '>='):
                    fr = self.abs_rat(fr)
            for _ in range(e):
                outd = self.ops.mul(outd, fr)
        root = self._sqrt_poly(n)
        res = self.ops.div(root, outd) if not outd.is_const() or outd.const() != 1 else root
        self.atoms[key] = res
        return res

    def _sqrt_poly(self, n):
        if not n.t:
            return Rat(ZERO)
        q = self.ops.k.poly_sqrt(n)
        if q is not None and self.ops.k.reduce(psub(Poly_mul_raw(q, q), n)).t == {}:
            return self.abs_rat(Rat(q))
        c, pr = content(n)
        out = Rat(ONE)
        if c < 0:
            pr = pneg(pr)
            c = -c
        # monomial squares
        com = None
        for m in pr.t:
            d = dict(m)
            com = d if com is None else {v: min(e, d[v]) for v, e in com.items() if v in d}
            if not com:
                break
        if com:
            for v, e in sorted(com.items()):
                if e >= 2:
                    h = e // 2
                    mm = ((v, 2 * h),)
                    pr = Poly({mono_div(m, mm): x for m, x in pr.t.items()})
                    a = self.abs_rat(Rat(pvar(v)))
                    for _ in range(h):
                        out = self.ops.mul(out, a)
        c = Fraction(c)
        kn, mn = square_part(c.numerator * c.denominator)
        out = self.ops.mul(out, Rat(pconst(Fraction(kn, c.denominator))))
        rad = pscale(pr, mn)
        q = self.ops.k.poly_sqrt(rad)
        if q is not None and self.ops.k.reduce(psub(Poly_mul_raw(q, q), rad)).t == {}:
            return self.ops.mul(out, self.abs_rat(Rat(q)))
        key = ('sq', rad)
        v = self.atoms.get(key)
        if v is None:
            lo, hi, mag = self._iv_num(rad)
            lo = Fraction(math.sqrt(lo) * (1 - 1e-9)) if lo > 1e-9 * mag and lo < 1e300 else Fraction(0)
            v = self.new_var('sq%d' % len(self.vars), 'sqrt', lo, None,
                             ev=lambda pt, rad=rad: _fsqrt(self.peval(rad, pt)), deps=rad.vars())
            vi = self.vars[v]
            vi.defs.append(Cond('raw', (z3.And(vi.z >= 0, vi.z * vi.z == self.pz(rad)),
                                        frozenset([v]) | rad.vars(), None)))
            self.ops.k.rules[v] = rad
            self.atoms[key] = v
            if self.sign_fact(rad) == '+':
                self.facts[pvar(v)] = '+'
        return self.ops.mul(out, Rat(pvar(v)))

    def abs_rat(self, r):
        if r.is_zero():
            return r
        s = None
        c1 = sign_cond(r, '>=')
        if c1 is True:
            return r
        c2 = sign_cond(r, '>')
        if c2 is False:
            return self.ops.neg(r)
        # sign unknown: fresh atom for the primitive numerator, known-sign denominator
        den = Rat(ONE)
        for f, k in r.d:
            fr = Rat(f)
            if k % 2 and self.sign_fact(f) not in ('+', '>='):
                fr = Rat(self._abs_poly(f))
            for _ in range(k):
                den = self.ops.mul(den, fr)
        c, pr = content(r.n)
        if c < 0:
            c = -c
        num = Rat(pscale(self._abs_poly(pr), c))
        if den.is_const():
            return self.ops.mul(num, Rat(pconst(Fraction(1) / Fraction(den.const()))))
        return self.ops.div(num, den)

    def _abs_poly(self, p):
        if p.is_const():
            return pconst(abs(p.const()))
        c, pr = content(p)
        s = self.sign_fact(pr)
        if s in ('+', '>='):
            return pscale(pr, abs(c))
        if s in ('-', '<='):
            return pscale(pneg(pr), abs(c))
        key = ('abs', pr)
        v = self.atoms.get(key)
        if v is None:
            v = self.new_var('ab%d' % len(self.vars), 'abs', Fraction(0), None,
                             ev=lambda pt, pr=pr: _fabs(self.peval(pr, pt)), deps=pr.vars())
            vi = self.vars[v]
            e = self.pz(pr)
            vi.defs.append(Cond('raw', (z3.And(vi.z >= 0, z3.Or(vi.z == e, vi.z == -e)),
                                        frozenset([v]) | pr.vars(), None)))
            self.ops.k.rules[v] = self.ops.k.mul(pr, pr)
            self.atoms[key] = v
            if self.facts.get(pr) in ('!=', '+', '-'):
                self.facts[pvar(v)] = '+'
        return pscale(pvar(v), abs(c))

    def ext_rat(self, rs, sg):
        key = ('ext', sg, frozenset(r.key() for r in rs))
        v = self.atoms.get(key)
        if v is None:
            los = [self._iv_num(r.n) if not r.d else (-math.inf, math.inf, math.inf) for r in rs]
            lo = hi = None
            f = max if sg > 0 else min
            l = f(x[0] for x in los)
            h = f(x[1] for x in los)
            if abs(l) < 1e300 and l == l:
                lo = Fraction(l) - Fraction(1, 10 ** 9) * Fraction(1 + abs(l)) if l != 0 else Fraction(0)
            if abs(h) < 1e300 and h == h:
                hi = Fraction(h) + Fraction(1, 10 ** 9) * Fraction(1 + abs(h)) if h != 0 else Fraction(0)

            def ev(pt, rs=rs, f=f):
                vals = [self.reval(r, pt) for r in rs]
                return None if any(x is None for x in vals) else f(vals)
            deps = frozenset()
            for r in rs:
                deps = deps | r.vars()
            v = self.new_var(('mx%d' if sg > 0 else 'mn%d') % len(self.vars), 'ext', lo, hi, ev=ev, deps=deps)
            vi = self.vars[v]
            me = Rat(pvar(v))
            self.atoms[key] = v
            dom = []
            eqs = []
            for r in rs:
                dom.append(compare(me, r, '>=' if sg > 0 else '<='))
                eqs.append(compare(me, r, '=='))
            vi.defs.append(cand(*dom))
            vi.defs.append(cor(*eqs))
            vi.defs = [d for d in vi.defs if isinstance(d, Cond)]
        return Rat(pvar(v))

    def trig_rat(self, r, which):
        key = ('trig', r.key())
        pair = self.atoms.get(key)
        if pair is None:
            c = self.new_var('co%d' % len(self.vars), 'trig', Fraction(-1), Fraction(1),
                             ev=lambda pt: math.cos(self.reval(r, pt)), deps=r.vars())
            s = self.new_var('si%d' % len(self.vars), 'trig', Fraction(-1), Fraction(1),
                             ev=lambda pt: math.sin(self.reval(r, pt)), deps=r.vars())
            zc, zs = self.vars[c].z, self.vars[s].z
            for v in (c, s):
                self.vars[v].defs.append(Cond('raw', (z3.And(zc * zc + zs * zs == 1, zc <= 1, zc >= -1,
                                                             zs <= 1, zs >= -1), frozenset([c, s]), None)))
            self.ops.k.rules[s] = psub(ONE, Poly({((c, 2),): 1}))
            pair = (c, s)
            self.atoms[key] = pair
            self.notes.add('cos/sin of a symbolic angle are an arbitrary point of the unit circle')
        return Rat(pvar(pair[0] if which == 'cos' else pair[1]))

    def fresh(self, name, lo=None, hi=None, ev=None, conds=()):
        """contract variable"""
        v = self.new_var(name, 'fresh', lo, hi, ev=ev)
        vi = self.vars[v]
        if lo is not None:
            vi.defs.append(Cond('raw', (vi.z >= z3.RealVal(str(Fraction(lo))), frozenset([v]), None)))
        if hi is not None:
            vi.defs.append(Cond('raw', (vi.z <= z3.RealVal(str(Fraction(hi))), frozenset([v]), None)))
        return Sym(Rat(pvar(v)))

    def sign_atom(self, name):
        """arbitrary element of {-1, 1}"""
        v = self.new_var(name, 'sign', Fraction(-1), Fraction(1))
        k = self.rng.random()
        for pt in self.points:
            pt[v] = 1.0 if self.rng.random() < 0.5 else -1.0
        vi = self.vars[v]
        vi.defs.append(Cond('raw', (z3.Or(vi.z == 1, vi.z == -1), frozenset([v]), None)))
        self.ops.k.rules[v] = ONE
        self.facts[pvar(v)] = '!='
        return Sym(Rat(pvar(v)))

    # ---------------------------------------------------------------- solver
    def support(self, vs):
        """vs together with every variable their definitions mention, transitively"""
        seen = set()
        todo = list(vs)
        while todo:
            v = todo.pop()
            if v in seen:
                continue
            seen.add(v)
            s = self._sup.get(v)
            if s is None:
                s = frozenset(w for d in self.vars[v].defs for w in d.vars())
                if self.vars[v].kind != 'fresh':
                    self._sup[v] = s
            todo.extend(w for w in s if w not in seen)
        return seen

    def closure(self, vs):
        """variables connected to vs through definitions and path conditions, and those conditions"""
        seen = self.support(vs)
        rest = []
        for c in self.pc:
            s = self._csup.get(id(c))
            if s is None:
                s = self._csup[id(c)] = (c, self.support(c.vars()))
            rest.append((c, s[1]))
        used = []
        again = True
        while again:
            again = False
            left = []
            for c, s in rest:
                if s & seen:
                    seen |= s
                    used.append(c)
                    again = True
                else:
                    left.append((c, s))
            rest = left
        return seen, used

    def assertions(self, extra):
        vs = set()
        for e in extra:
            vs |= set(e.vars())
        seen, pcs = self.closure(vs)
        out = []
        for v in sorted(seen):
            for d in self.vars[v].defs:
                out.append(d.z())
        for c in pcs:
            out.append(c.z())
        for c in self.lemmas:
            if c.vars() <= seen:
                out.append(c.z())
        for e in extra:
            out.append(e.z())
        return out, seen

    def query(self, extra, timeout=None, full=False):
        """check sat of path condition and extra; returns (status, z3 model or None)"""
        if full:
            extra = list(extra)
            asr = []
            for vi in self.vars:
                for d in vi.defs:
                    asr.append(d.z())
            for c in self.pc:
                asr.append(c.z())
            for e in extra:
                asr.append(e.z())
        else:
            asr, _ = self.assertions(extra)
        t = timeout if timeout is not None else self.opts.get('timeout', 4.0)
        if self.deadline is not None:
            left = self.deadline - time.time()
            if left <= 0.05:
                raise Deadline()
            t = min(t, left + 0.5)
        t0 = time.time()
        s = z3.SolverFor('QF_NRA')
        s.set('timeout', max(1, int(t * 1000)))
        s.add(*asr)
        try:
            r = str(s.check())
        except z3.Z3Exception:
            r = 'unknown'
        self.stats.time += time.time() - t0
        self.stats.queries += 1
        if r == 'sat':
            self.stats.sat += 1
            try:
                return 'sat', s.model()
            except z3.Z3Exception:
                return 'unknown', None
        if r == 'unsat':
            self.stats.unsat += 1
            return 'unsat', None
        self.stats.unknown += 1
        return 'unknown', None

    def model_inputs(self, m):
        """input values (exact when rational) of a z3 model; unconstrained inputs get a default"""
        out = {}
        for v in self.inputs:
            vi = self.vars[v]
            x = m.eval(vi.z, model_completion=False) if m is not None else None
            val = None
            if x is not None:
                if z3.is_rational_value(x):
                    val = Fraction(x.numerator_as_long(), x.denominator_as_long())
                elif z3.is_algebraic_value(x):
                    a = x.approx(30)
                    val = Fraction(a.numerator_as_long(), a.denominator_as_long())
            if val is None:
                val = self.default_value(v)
            out[vi.name] = val
        return out

    def default_value(self, v):
        vi = self.vars[v]
        lo, hi = vi.lo, vi.hi
        for c in (Fraction(1), Fraction(1, 2), Fraction(0), Fraction(2)):
            if (lo is None or c >= lo) and (hi is None or c <= hi):
                return c
        if lo is not None and hi is not None:
            return (lo + hi) / 2
        return lo if lo is not None else hi

    # ---------------------------------------------------------------- branching
    def alive_points(self):
        return self.points

    def _filter_points(self, cond):
        keep = []
        for pt in self.points:
            if cond.ev(pt) is not False:
                keep.append(pt)
        self.points = keep

    def assume(self, cond):
        cond = truthy(cond)
        if is_bool(cond):
            if not cond:
                raise PathInfeasible()
            return
        self.pc.append(cond)
        self._learn(cond)
        self._filter_points(cond)

    def branch(self, cond):
        """decide a condition on this path, recording the alternative when both sides are possible"""
        key = (cond.op, cond.a) if cond.op in ('>', '>=', '==', '!=') else None
        if key is not None:
            r = self.memo.get(key)
            if r is None:
                r = self.memo[key] = self._branch(cond)
            return r
        return self._branch(cond)

    def _branch(self, cond):
        c2 = cond
        if cond.op in ('>', '>=', '==', '!='):
            c2 = sign_cond(Rat(cond.a), cond.op)
            if is_bool(c2):
                return bool(c2)
            f = self.facts.get(content(c2.a)[1])
            if f == '0':
                return c2.op in ('>=', '==')
            if f in ('+', '-', '!=') and c2.op in ('==', '!='):
                return c2.op == '!='
        i = len(self.trace)
        if i < len(self.prefix):
            d = self.prefix[i]
            self.trace.append(d)
            if d in (2, 3):      # forced by the solver when first explored
                self._learn(c2 if d == 3 else cnot(c2))
                return d == 3
            self._take(c2, d == 1)
            return d == 1
        if self.deadline is not None and time.time() > self.deadline:
            raise Deadline()
        can_t = can_f = None
        for pt in self.points:
            e = c2.ev(pt)
            if e is True:
                can_t = True
            elif e is False:
                can_f = True
            if can_t and can_f:
                break
        if not can_t:
            st, m = self.query([c2], timeout=self.opts.get('branch_timeout', 2.0))
            can_t = st != 'unsat'
            if st == 'unknown':
                self.unknown_branches += 1
            if m is not None:
                self._add_point(m)
        if not can_f:
            if not can_t:
                can_f = True
            else:
                st, m = self.query([cnot(c2)], timeout=self.opts.get('branch_timeout', 2.0))
                can_f = st != 'unsat'
                if st == 'unknown':
                    self.unknown_branches += 1
                if m is not None:
                    self._add_point(m)
        if can_t and can_f:
            if DEBUG:
                import sys
                import traceback
                sys.stderr.write('FORK terms=%d op=%s degree=%d\n' % (len(getattr(c2.a, 't', ())), c2.op,
                                 max([sum(e for _, e in m) for m in getattr(c2.a, 't', ())] or [0])))
                for f in traceback.extract_stack()[-14:-1]:
                    sys.stderr.write('   %s:%d %s\n' % (f.filename[-30:], f.lineno, (f.line or '')[:90]))
            self.nforks += 1
            self.alts.append(self.trace + [0])
            self.trace.append(1)
            self._take(c2, True)
            return True
        # only one side possible: an implied fact, remember it without forking
        self.trace.append(3 if can_t else 2)
        self._learn(c2 if can_t else cnot(c2))
        return bool(can_t)

    def _take(self, c, val):
        cc = c if val else cnot(c)
        self.pc.append(cc)
        self._learn(cc)
        self._filter_points(cc)

    def _model_float(self, m, z):
        x = m.eval(z, model_completion=False)
        if z3.is_rational_value(x):
            return float(Fraction(x.numerator_as_long(), x.denominator_as_long()))
        if z3.is_algebraic_value(x):
            a = x.approx(20)
            return float(Fraction(a.numerator_as_long(), a.denominator_as_long()))
        return None

    def _add_point(self, m):
        """guide point from a model; variables outside the sliced query keep the value of a known point"""
        base = self.points[0] if self.points else {}
        pt = {}
        for v in self.inputs:
            x = self._model_float(m, self.vars[v].z)
            if x is None:
                x = base.get(v)
            pt[v] = x if x is not None else float(self.default_value(v))
        for i, vi in enumerate(self.vars):
            if vi.kind in ('sign', 'fresh'):
                x = self._model_float(m, vi.z)
                if x is None:
                    x = base.get(i)
                if x is None and vi.kind == 'sign':
                    x = 1.0
                if x is not None:
                    pt[i] = x
        if all(c.ev(pt) is not False for c in self.pc):
            self.points.append(pt)

    def choose(self, name, n):
        """structural choice 0..n-1, enumerated"""
        i = len(self.trace)
        if i < len(self.prefix):
            k = self.prefix[i] - 10
        else:
            k = 0
            for j in range(n - 1, 0, -1):
                self.alts.append(self.trace + [10 + j])
        self.trace.append(10 + k)
        self.choices[name] = k
        return k


def _ipow(x, e):
    if x in (math.inf, -math.inf):
        return x
    try:
        return x ** e
    except OverflowError:
        return math.inf if x > 0 else -math.inf


def _imul(a, b):
    if a == 0 or b == 0:
        return 0.
    return a * b


def _fsqrt(x):
    if x is None:
        return None
    if x < 0:
        return 0. if x > -1e-9 else None
    return math.sqrt(x)


def _fabs(x):
    return None if x is None else abs(x)


def Poly_mul_raw(p, q):
    from .cas import mono_mul
    r = {}
    for m1, c1 in p.t.items():
        for m2, c2 in q.t.items():
            m = mono_mul(m1, m2)
            r[m] = r.get(m, 0) + c1 * c2
    return Poly({m: norm_num(c) for m, c in r.items() if c != 0})
