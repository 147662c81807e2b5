"""Harness environment, path exploration and counterexample replay.

A harness is a Python function h(env, **params).  It builds inputs through env, calls the code under test and
states its property through env.check / env.eq / env.le.  The same function runs in two modes:

  symbolic   env.code is the symbolic copy of ellipy, inputs are solver variables, every check becomes an
             obligation decided on every feasible path;
  concrete   env.code is the real ellipy, inputs are floats taken from a solver model; used to replay
             counterexamples and to validate the executor on every explored path.
"""
import math
import os
import sys
import time
import traceback
from fractions import Fraction

import numpy as np

from . import core, world
from .core import (Ctx, Sym, Cond, NeedConcrete, PathInfeasible, AssumeFailed, Deadline, S, cand, cor, cnot, truthy,
                   is_bool, implies)


class StopPath(BaseException):
    pass


REGISTRY = {}
LAYOUT_EVERY = 5


class Harness(object):
    def __init__(self, prop, name, fn, grid, thorough, doc, weight):
        self.prop = prop
        self.name = name
        self.fn = fn
        self.grid = grid
        self.thorough = thorough
        self.doc = doc
        self.weight = weight

    def tasks(self, tier):
        g = self.grid
        if tier == 'thorough' and self.thorough is not None:
            g = self.thorough
        g = list(g() if callable(g) else g)
        # the same inputs in arrays that are not C-contiguous
        return g + [dict(p, _lay='F') for p in g[::2 if tier == 'thorough' else LAYOUT_EVERY]]

    def call(self, env, params):
        env.layout = params.get('_lay', 'C')
        return self.fn(env, **{k: v for k, v in params.items() if k != '_lay'})


def harness(prop, grid=None, thorough=None, weight=1.0, name=None):
    """register a harness; grid is a list of parameter dicts, one task each"""
    def deco(fn):
        h = Harness(prop, name or fn.__name__, fn, grid if grid is not None else [{}], thorough,
                    (fn.__doc__ or '').strip(), weight)
        REGISTRY.setdefault(prop, {})[h.name] = h
        return fn
    return deco


def product(**kw):
    out = [{}]
    for k, vs in kw.items():
        out = [dict(d, **{k: v}) for d in out for v in vs]
    return out


# ------------------------------------------------------------------------------------------------ environments
class EnvBase(object):
    symbolic = False

    @staticmethod
    def frac(p, q):
        return Fraction(p, q)

    layout = 'C'

    def lay(self, a):
        """the same array in another memory layout, when the task asks for it"""
        if self.layout == 'C' or not isinstance(a, np.ndarray) or a.ndim == 0:
            return a
        return a[::-1].copy()[::-1] if a.ndim == 1 else a.T.copy().T

    # helpers common to both modes -------------------------------------------------------------
    def vec(self, name, n, lo, hi, hints=None):
        return [self.real('%s%d' % (name, i), lo, hi, None if hints is None else hints[i]) for i in range(n)]

    def np_vec(self, name, n, lo, hi, hints=None):
        return self.arr(self.vec(name, n, lo, hi, hints))

    def mat(self, name, n, m, lo, hi):
        return [[self.real('%s%d_%d' % (name, i, j), lo, hi) for j in range(m)] for i in range(n)]

    def rot2(self, name):
        """orthonormal 2x2 basis (columns), covers every eigenbasis up to sign"""
        c = self.real(name + 'c', -1, 1, 0.6)
        s = self.sqrt(1 - c * c)
        return [[c, -s], [s, c]]

    def basis(self, name, n, kind):
        """orthonormal basis with columns as eigenvectors; kind: 'id', 'fix', 'rot', 'perm'"""
        I = [[1. if i == j else 0. for j in range(n)] for i in range(n)]
        if kind == 'id' or n == 1:
            return I
        F = self.const
        if kind == 'perm':
            V = [[I[i][(j + 1) % n] for j in range(n)] for i in range(n)]
            return V
        if kind == 'fix':
            if n == 2:
                V = [[F(3, 5), F(-4, 5)], [F(4, 5), F(3, 5)]]
            elif n == 3:
                V = [[F(2, 3), F(-2, 3), F(1, 3)], [F(1, 3), F(2, 3), F(2, 3)], [F(2, 3), F(1, 3), F(-2, 3)]]
            else:
                # Householder I - 2 w w'/w'w with w = 1..1 (+1)
                w = [F(1, 1)] * n
                w[0] = F(2, 1)
                q = sum((2 if i == 0 else 1) ** 2 for i in range(n))
                V = [[(1 if i == j else 0) - w[i] * w[j] * F(2, q) for j in range(n)] for i in range(n)]
        elif kind == 'rot':
            if n == 2:
                V = self.rot2(name)
            else:
                B = self.basis(name, n, 'fix')
                R = self.rot2(name)
                # rotate within the plane of the first and last basis vectors
                V = [list(r) for r in B]
                for i in range(n):
                    V[i][0] = B[i][0] * R[0][0] + B[i][n - 1] * R[1][0]
                    V[i][n - 1] = B[i][0] * R[0][1] + B[i][n - 1] * R[1][1]
        else:
            raise ValueError(kind)
        self.register(V)
        return V

    def from_eig(self, V, d):
        n = len(d)
        R = [[None] * n for _ in range(n)]
        for i in range(n):
            for j in range(i, n):
                x = 0
                for k in range(n):
                    x = x + V[i][k] * V[j][k] * d[k]
                R[i][j] = R[j][i] = x
        return R

    def roots(self, name, n, rank=None, lo=Fraction(1, 2), hi=3, ordered=True):
        """square roots of eigenvalues, ascending; the first n-rank are zero"""
        rank = n if rank is None else rank
        out = [self.const(0, 1)] * (n - rank)
        prev = None
        for i in range(rank):
            if prev is None or not ordered:
                prev = self.real('%sa%d' % (name, i), lo, hi, 1.0 + i * 0.5)
            else:
                prev = prev + self.real('%sa%d' % (name, i), 0, Fraction(3, 2), 0.5)
            out.append(prev)
        return out

    def spd(self, name, n, kind='rot', rank=None, lo=Fraction(1, 2), hi=3, ordered=True):
        """(matrix rows, V, roots) of a symmetric non-negative definite matrix"""
        V = self.basis(name, n, kind)
        a = self.roots(name, n, rank, lo, hi, ordered)
        return self.from_eig(V, [x * x for x in a]), V, a

    def spectral(self, name, n, kind, lo=-3, hi=3, ordered=True):
        """(rows, V, d) of a symmetric matrix with eigenvalues of any sign (ascending when ordered)"""
        V = self.basis(name, n, kind)
        d = []
        for i in range(n):
            if i == 0 or not ordered:
                d.append(self.real('%sd%d' % (name, i), lo, hi, 0.5 * i - 0.3))
            else:
                d.append(d[-1] + self.real('%sd%d' % (name, i), 0, hi, 0.7))
        return self.from_eig(V, d), V, d

    # scalar-list linear algebra for oracles
    @staticmethod
    def T(m):
        return [list(c) for c in zip(*m)]

    @staticmethod
    def dot(x, y):
        s = 0
        for a, b in zip(x, y):
            s = s + a * b
        return s

    def mv(self, m, v):
        return [self.dot(r, v) for r in m]

    def mm(self, a, b):
        bt = self.T(b)
        return [[self.dot(r, c) for c in bt] for r in a]

    def quad(self, m, v):
        return self.dot(v, self.mv(m, v))

    def add(self, x, y):
        return [a + b for a, b in zip(x, y)]

    def sub(self, x, y):
        return [a - b for a, b in zip(x, y)]

    def scale(self, k, x):
        return [k * a for a in x]

    def eye(self, n):
        return [[1. if i == j else 0. for j in range(n)] for i in range(n)]

    def psd_form(self, V, a, l, positive=False):
        """l' Q l for Q = V diag(a^2) V', known to be a sum of squares"""
        n = len(l)
        W = self.T(V)
        s = 0
        for k in range(n):
            p = a[k] * self.dot(W[k], l)
            s = s + p * p
        self.lemma(s, '>' if positive else '>=')
        return s

    # results
    def flat(self, x):
        """array-like -> list of scalars"""
        if isinstance(x, np.ndarray):
            if self.symbolic:
                from . import symnp
                return symnp.elems(symnp.arr(x))
            return [v for v in np.asarray(x).flatten()]
        if isinstance(x, (list, tuple)):
            out = []
            for e in x:
                out.extend(self.flat(e))
            return out
        return [x]

    def rows(self, x):
        s = self.shape(x)
        f = self.flat(x)
        if len(s) == 1:
            return f
        m = s[1]
        return [f[i * m:(i + 1) * m] for i in range(s[0])]

    @staticmethod
    def shape(x):
        return tuple(np.shape(x)) if isinstance(x, np.ndarray) else tuple(getattr(x, 'shape', ()))

    def eqs(self, label, xs, ys, tol=None):
        """element-wise equality of array-likes (sizes must agree)"""
        fx, fy = self.flat(xs), self.flat(ys)
        if not self.check(label + ': size', len(fx) == len(fy)):
            return False
        ok = True
        for x, y in zip(fx, fy):
            ok = self.eq(label, x, y, tol) and ok
        return ok

    def raises(self, f, *a, **k):
        """exception of a call to the code under test (None when it returns)"""
        try:
            f(*a, **k)
        except Exception as e:     # noqa
            return e
        return None

    def attempt(self, f, *a, **k):
        """(result, exception)"""
        try:
            return f(*a, **k), None
        except Exception as e:     # noqa
            return None, e

    def must_raise(self, label, f, *a, **k):
        tag = k.pop('_tag', None)
        e = self.raises(f, *a, **k)
        self.check(label + ': rejected', e is not None)
        if e is not None and tag is not None:
            self.check(label + ': error kind', tag in str(e))
        return e


class ConcreteEnv(EnvBase):
    """runs the harness on the real code"""

    def __init__(self, values, choices, tol_factor=0.5):
        self.values = values
        self.choices = choices
        self.code = world.Code(False)
        self.failed = []
        self.obs = []
        self.np = np
        self.tf = tol_factor
        self.nchecks = 0
        self.info = {}

    def real(self, name, lo, hi, hint=None):
        v = self.values.get(name)
        if v is None:
            v = hint if hint is not None else max(float(lo), min(float(hi), 1.0))
        v = float(Fraction(v)) if isinstance(v, str) else float(v)
        if v < float(lo) - 1e-9 or v > float(hi) + 1e-9:
            raise AssumeFailed()
        return np.float64(v)

    def integer(self, name, lo, hi, hint=None):
        return int(math.floor(float(self.real(name, lo, hi, hint)) + 1e-9))

    def intarr(self, x):
        return self.lay(np.array(x, dtype=np.int64))

    # strings over a finite alphabet
    def text(self, name, n, alphabet, hint=''):
        out = ''
        for i in range(n):
            h = alphabet.index(hint[i]) if i < len(hint) and hint[i] in alphabet else (3 * i + 1) % len(alphabet)
            out += alphabet[min(int(math.floor(float(self.real('%s%d' % (name, i), 0, len(alphabet) - 1, h)) + 1e-9)), len(alphabet) - 1)]
        return out

    def chars(self, s):
        return list(s)

    def isin(self, ch, pred):
        return bool(pred(ch))

    def strarr(self, x, shape):
        o = np.empty(len(x), dtype=object)
        for i, v in enumerate(x):
            o[i] = v
        if all(isinstance(v, str) for v in x):
            o = np.array(o.tolist(), dtype=str)
        return o.reshape(shape)

    def same_str(self, label, got, want):
        return self.check(label, isinstance(got, str) and list(got) == list(want))

    def const(self, p, q=1):
        return np.float64(p) / np.float64(q)

    def choice(self, name, options):
        options = list(options)
        return options[self.choices.get(name, 0)]

    def register(self, V):
        pass

    def arr(self, x):
        return self.lay(np.array(x, dtype=np.float64))

    def sqrt(self, x):
        x = np.float64(x)
        if x < 0 and x > -1e-9:
            x = np.float64(0.)
        return np.sqrt(x)

    def abs(self, x):
        return abs(x)

    def max(self, *xs):
        return max(xs)

    def min(self, *xs):
        return min(xs)

    def iff(self, a, b):
        return bool(a) == bool(b)

    def carr(self, re, im, sh):
        a = np.array([complex(float(x), float(y)) for x, y in zip(re, im)])
        return self.lay(a.reshape(sh)) if sh else np.complex128(a[0])

    def is_real(self, x):
        return not np.iscomplexobj(x)

    def and_(self, *c):
        return all(bool(x) for x in c)

    def or_(self, *c):
        return any(bool(x) for x in c)

    def not_(self, c):
        return not bool(c)

    def implies(self, a, b):
        return (not bool(a)) or bool(b)

    def assume(self, c):
        if not bool(c):
            raise AssumeFailed()

    def lemma(self, s, op):
        if not (s >= -1e-9 if op != '==' else abs(s) < 1e-9):
            sys.stderr.write('LEMMA FALSE %r %s\n' % (s, op))
            raise AssumeFailed()

    def fork(self, c):
        return bool(c)

    def observe(self, name, x):
        self.obs.append((name, [float(v) if not isinstance(v, (complex, np.complexfloating)) else float('nan')
                                for v in self.flat(x)]))

    def check(self, label, c):
        self.nchecks += 1
        if not bool(c):
            self.failed.append(label)
            return False
        return True

    def eq(self, label, x, y, tol=None):
        tol = 1e-6 if tol is None else tol
        if isinstance(x, (complex, np.complexfloating)):
            if abs(x.imag) > tol:
                return self.check(label, False)
            x = x.real
        try:
            x = float(x)
            y = float(y)
        except (TypeError, ValueError):
            return self.check(label, False)
        if math.isinf(x) or math.isinf(y):
            return self.check(label, x == y)
        if x != x and y != y:
            return self.check(label, True)
        return self.check(label, abs(x - y) <= tol * self.tf + 1e-8 * (abs(x) + abs(y)))

    def le(self, label, x, y, tol=None):
        tol = 1e-6 if tol is None else tol
        return self.check(label, float(x) <= float(y) + tol * self.tf + 1e-8 * (abs(float(x)) + abs(float(y))))

    def gt_region(self, x, y, margin):
        """x > y by a margin, as an assumption (robust to rounding)"""
        return x >= y + margin


class SymEnv(EnvBase):
    symbolic = True

    def __init__(self, run):
        self.run = run
        self.ctx = run.ctx
        self.code = world.Code(True)
        self.np = world.sym_world().proxy['numpy']
        self.obs = []
        self.pending = 0

    def real(self, name, lo, hi, hint=None):
        return self.ctx.input(name, Fraction(lo) if not isinstance(lo, float) else Fraction(repr(lo)),
                              Fraction(hi) if not isinstance(hi, float) else Fraction(repr(hi)), hint)

    def const(self, p, q=1):
        return S(Fraction(p) / Fraction(q)) if q != 1 else S(Fraction(p))

    def choice(self, name, options):
        options = list(options)
        if len(options) == 1:
            self.ctx.choices[name] = 0
            return options[0]
        return options[self.ctx.choose(name, len(options))]

    def register(self, V):
        self.ctx.bases.setdefault(len(V), []).append([[S(x) for x in r] for r in V])

    def text(self, name, n, alphabet, hint=''):
        from . import symstr
        out = []
        for i in range(n):
            h = alphabet.index(hint[i]) if i < len(hint) and hint[i] in alphabet else (3 * i + 1) % len(alphabet)
            v = self.real('%s%d' % (name, i), 0, len(alphabet) - 1, h)
            self.assume(self.or_(*[v == k for k in range(len(alphabet))]))
            out.append(symstr.new_char(v, alphabet))
        return symstr.encode(out)

    def chars(self, s):
        from . import symstr
        return symstr.decode(s)

    def isin(self, ch, pred):
        from . import symstr
        return ch.isin(pred) if isinstance(ch, symstr.SymChar) else bool(pred(ch))

    def strarr(self, x, shape):
        from . import symnp
        o = np.empty(len(x), dtype=object)
        for i, v in enumerate(x):
            o[i] = v
        return symnp.wrap_sym(o.reshape(shape))

    def same_str(self, label, got, want):
        from . import symstr
        if not isinstance(got, str):
            return self.check(label, False)
        a = symstr.decode(got)
        if len(a) != len(want):
            return self.check(label, False)
        return self.check(label, self.and_(True, *[symstr.same(x, y) for x, y in zip(a, want)]))

    integer = real          # the harness assumes values apart by 1 or equal; replays use the integer parts

    def arr(self, x):
        from . import symnp
        return self.lay(symnp.c_array(x, dtype=np.float64))

    intarr = arr

    def sqrt(self, x):
        return core.ssqrt(S(x))

    def abs(self, x):
        return core.sabs(S(x))

    def max(self, *xs):
        return core.smax(list(xs))

    def min(self, *xs):
        return core.smin(list(xs))

    def iff(self, a, b):
        a, b = truthy(a), truthy(b)
        if is_bool(a):
            a, b = b, a
        if is_bool(b):
            return a if b else cnot(a)
        return cand(implies(a, b), implies(b, a))

    def carr(self, re, im, sh):
        from . import symnp
        l = [symnp.SymC(x, y) if isinstance(x, Sym) or isinstance(y, Sym) else np.complex128(complex(x, y))
             for x, y in zip(re, im)]
        if not sh:
            return l[0]
        return self.lay(symnp.mkshape(l, sh, 'c'))

    def is_real(self, x):
        from . import symnp
        return not any(isinstance(v, (symnp.SymC, complex, np.complexfloating)) for v in self.flat(x))

    def and_(self, *c):
        return cand(*c)

    def or_(self, *c):
        return cor(*c)

    def not_(self, c):
        return cnot(truthy(c))

    def implies(self, a, b):
        return implies(a, b)

    def assume(self, c):
        self.ctx.assume(c)
        if isinstance(c, Cond):
            self.pending += 1

    def lemma(self, s, op):
        if isinstance(s, Sym):
            self.ctx.lemma(s, op)

    def fork(self, c):
        return bool(truthy(c))

    def observe(self, name, x):
        self.obs.append((name, self.flat(x)))

    def gt_region(self, x, y, margin):
        return S(x) >= S(y) + S(margin)

    def check(self, label, c):
        return self.run.obligation(label, truthy(c))

    def eq(self, label, x, y, tol=None):
        tol = 1e-6 if tol is None else tol
        from . import symnp
        for v in (x, y):
            if isinstance(v, symnp.SymC):
                w = y if v is x else x
                if isinstance(w, (symnp.SymC, complex, np.complexfloating)):
                    return self.eq(label, v.re, w.real, tol) and self.eq(label, v.im, w.imag, tol)
                return self.eq(label, v.im, 0., tol) and self.eq(label, v.re, w, tol)
            if isinstance(v, (complex, np.complexfloating)) and v.imag != 0:
                return self.check(label, False)
        x = _real(x)
        y = _real(y)
        if x is None or y is None:
            return self.check(label, False)
        if not isinstance(x, Sym) and not isinstance(y, Sym):
            x, y = float(x), float(y)
            if math.isinf(x) or math.isinf(y):
                return self.check(label, x == y)
            if x != x and y != y:
                return self.check(label, True)
            return self.check(label, abs(x - y) <= tol)
        if (not isinstance(x, Sym) and not math.isfinite(float(x))) or \
                (not isinstance(y, Sym) and not math.isfinite(float(y))):
            return self.check(label, False)
        d = S(x) - y
        if d.r.is_zero():
            return self.run.trivial(label)
        t = S(tol)
        return self.run.obligation(label, cand(d <= t, d >= -t), strong=lambda m: cor(d > S(m), d < S(-m)))

    def le(self, label, x, y, tol=None):
        tol = 1e-6 if tol is None else tol
        x = _real(x)
        y = _real(y)
        if x is None or y is None:
            return self.check(label, False)
        if not isinstance(x, Sym) and not isinstance(y, Sym):
            return self.check(label, float(x) <= float(y) + tol)
        for v, w in ((x, 1), (y, -1)):
            if not isinstance(v, Sym) and not math.isfinite(float(v)):
                return self.check(label, float(v) == -math.inf if w == 1 else float(v) == math.inf)
        d = S(x) - y
        c0 = d <= S(0)
        if is_bool(c0) and c0:
            return self.run.trivial(label)
        return self.run.obligation(label, d <= S(tol), strong=lambda m: d > S(m))


def _real(x):
    if isinstance(x, Cond):
        return S(int(bool(x)))
    if isinstance(x, Sym):
        return x
    if isinstance(x, (complex, np.complexfloating)):
        return float(x.real)
    if isinstance(x, np.ndarray) and x.size == 1:
        from . import symnp
        return _real(symnp.elems(symnp.arr(x))[0])
    try:
        return float(x)
    except (TypeError, ValueError):
        return None


# ------------------------------------------------------------------------------------------------ one task
class TaskResult(object):
    def __init__(self):
        self.d = {
            'paths': 0, 'paths_infeasible': 0, 'paths_concretised': 0, 'paths_unexplored': 0, 'forks': 0,
            'decisions': 0, 'obligations': 0, 'by_normal_form': 0, 'by_solver': 0, 'by_slice': 0, 'undecided': 0,
            'traces_validated': 0, 'divergences': 0, 'unreplayed': 0, 'concrete_runs': 0,
            'queries': 0, 'unsat': 0, 'sat': 0, 'unknown': 0, 'solver_time': 0.0, 'reached': 0}
        self.violations = []
        self.samples = []
        self.notes = set()
        self.need = {}
        self.undecided_labels = {}
        self.diverge_notes = []
        self.functions = set()
        self.complete = False


class TaskRun(object):
    def __init__(self, h, params, opts, budget, seed, emit=None):
        self.h = h
        self.params = params
        self.opts = opts
        self.budget = budget
        self.seed = seed
        self.res = TaskResult()
        self.stats = core.Stats()
        self.ctx = None
        self.emit = emit or (lambda r: None)

    # obligations -------------------------------------------------------------------------------
    def trivial(self, label):
        self.res.d['obligations'] += 1
        self.res.d['by_normal_form'] += 1
        return True

    def obligation(self, label, cond, strong=None):
        if isinstance(cond, Cond) and cond.op == 'and' and strong is None:
            ok = True
            for c in cond.a:
                ok = self.obligation(label, c) and ok
            return ok
        d = self.res.d
        d['obligations'] += 1
        if is_bool(cond):
            if cond:
                d['by_normal_form'] += 1
                return True
            self.candidate(label, None)
            return False
        neg = cnot(cond)
        c = self.ctx
        # numeric guide points first: a cheap way to a counterexample
        tried = 0
        for pt in list(c.points):
            e = neg.ev(pt)
            if e is True:
                tried += 1
                if self.try_values(label, self.point_values(pt)):
                    return False
                if tried >= 2:
                    break
        st, m = c.query([neg])
        if st == 'unsat':
            d['by_solver'] += 1
            return True
        if st == 'sat':
            self.candidate(label, m, neg, strong)
            c.assume(cond)
            return False
        # undecided over the whole path region: decide it on slices where all but two inputs are fixed
        r = self.slices(label, neg)
        if r == 'violated':
            return False
        if r:
            d['by_slice'] += 1
            self.res.undecided_labels.setdefault(label, [0, 0])[1] += 1
        else:
            d['undecided'] += 1
            self.res.undecided_labels.setdefault(label, [0, 0])[0] += 1
        return True

    def slices(self, label, neg):
        c = self.ctx
        asr, seen = c.assertions([neg])
        ins = [v for v in c.inputs if v in seen]
        if len(ins) < 2:
            return False
        ok = 0
        n = 0
        rng = c.rng
        for trial in range(self.opts.get('slices', 3)):
            pts = c.points[:6]
            if not pts:
                st, m = c.query([], timeout=1.0)
                if m is None:
                    return False
                c._add_point(m)
                pts = c.points[-1:]
            if not pts:
                return False
            pt = pts[trial % len(pts)]
            free = set(rng.sample(ins, min(len(ins), 1 + trial % 2)))
            eqs = []
            for v in ins:
                if v in free:
                    continue
                x = Fraction(pt[v]).limit_denominator(64)
                vi = c.vars[v]
                if vi.lo is not None and x < vi.lo:
                    x = vi.lo
                if vi.hi is not None and x > vi.hi:
                    x = vi.hi
                z = vi.z
                eqs.append(Cond('raw', (z == core.z3.Q(x.numerator, x.denominator), frozenset([v]), None)))
            st, m = c.query([neg] + eqs, timeout=self.opts.get('slice_timeout', 1.5))
            if st == 'sat':
                if self.try_model(label, m):
                    return 'violated'
                continue
            if st == 'unsat' and c.query(eqs, timeout=1.0)[0] == 'sat':
                ok += 1
        return ok > 0

    # counterexamples ---------------------------------------------------------------------------
    def point_values(self, pt):
        return {self.ctx.vars[v].name: pt[v] for v in self.ctx.inputs if pt.get(v) is not None}

    def try_values(self, label, values):
        """run the real code at these inputs; True when a check fails there"""
        c = self.ctx
        out = self.concrete(values, dict(c.choices))
        if out['status'] == 'fail':
            self.report(label, values, out)
            return True
        return False

    def polish(self, vals):
        """variants of a model with short binary expansions (exact in floating point)"""
        yield vals
        for den in (4, 64, 4096):
            out = {}
            for k, v in vals.items():
                x = Fraction(round(v * den), den)
                vi = self.ctx.vars[self.ctx.by_name[k]]
                if vi.lo is not None and x < vi.lo:
                    x = vi.lo
                if vi.hi is not None and x > vi.hi:
                    x = vi.hi
                out[k] = x
            yield out

    def try_model(self, label, m):
        vals = self.ctx.model_inputs(m)
        for v in self.polish(vals):
            if self.try_values(label, v):
                return True
        return False

    def candidate(self, label, m, neg=None, strong=None):
        """the solver says the check can fail on this path: replay it on the real code"""
        c = self.ctx
        if strong is not None:
            for mg in (Fraction(1, 10), Fraction(1, 1000)):
                st, m2 = c.query([strong(mg)])
                if st == 'sat':
                    if self.try_model(label, m2):
                        return True
                    break
        if m is None:
            st, m = c.query([neg] if neg is not None else [], full=True)
        if m is not None and self.try_model(label, m):
            return True
        n = 0
        for pt in c.points:
            if neg is None or neg.ev(pt) is True:
                n += 1
                if self.try_values(label, self.point_values(pt)):
                    return True
                if n > 4:
                    break
        self.res.d['unreplayed'] += 1
        self.res.diverge_notes.append('unreplayed: %s' % label)
        return False

    def report(self, label, values, out):
        v = {'property': self.h.prop, 'harness': self.h.name, 'params': self.params, 'label': label,
             'choices': dict(self.ctx.choices), 'values': {k: _exact(x) for k, x in values.items()},
             'failed': out['failed'][:6], 'error': out.get('error')}
        self.res.violations.append(v)
        self.emit(self.res)
        if len(self.res.violations) >= self.opts.get('max_violations', 1):
            raise StopPath()

    def concrete(self, values, choices):
        self.res.d['concrete_runs'] += 1
        saved = core.ctx()
        core.set_ctx(None)
        try:
            return run_concrete(self.h, self.params, values, choices)
        finally:
            core.set_ctx(saved)

    # exploration -------------------------------------------------------------------------------
    def run(self):
        t0 = time.time()
        end = t0 + self.budget
        stack = [[]]
        first = True
        d = self.res.d
        stop = False
        while stack and not stop:
            if time.time() > end:
                break
            prefix = stack.pop()
            self.ctx = Ctx(prefix, seed=self.seed, opts=self.opts, stats=self.stats, deadline=end)
            core.set_ctx(self.ctx)
            env = SymEnv(self)
            status = 'ok'
            if first:
                self.start_profile()
            try:
                self.h.call(env, self.params)
            except PathInfeasible:
                status = 'infeasible'
            except NeedConcrete as e:
                status = 'need'
                k = str(e)[:80]
                self.res.need[k] = self.res.need.get(k, 0) + 1
                if os.environ.get('ELLSYM_TB'):
                    traceback.print_exc()
            except Deadline:
                status = 'deadline'
            except StopPath:
                status = 'stop'
                stop = True
            except (RecursionError, MemoryError):
                status = 'need'
                self.res.need['resources'] = self.res.need.get('resources', 0) + 1
            except Exception as e:    # noqa  unexpected exception of the code (or of the executor)
                status = 'raised'
                if os.environ.get('ELLSYM_TB'):
                    traceback.print_exc()
                try:
                    self.path_exception(e)
                except StopPath:
                    stop = True
                except Deadline:
                    status = 'deadline'
            finally:
                if first:
                    self.stop_profile()
                first = False
            c = self.ctx
            try:
                stack.extend(c.alts)
                d['forks'] += c.nforks
                d['decisions'] += len(c.trace)
                self.res.notes |= c.notes
                if status == 'ok':
                    d['paths'] += 1
                    self.validate(env)
                elif status == 'need':
                    self.concretise()
                elif status == 'infeasible':
                    d['paths_infeasible'] += 1
                elif status == 'deadline':
                    d['paths_unexplored'] += 1
                elif status == 'raised':
                    d['paths'] += 1
            except StopPath:
                stop = True
            except Deadline:
                pass
            self.sync()
            self.emit(self.res)
            if d['paths'] + d['paths_infeasible'] + d['paths_concretised'] >= self.opts.get('max_paths', 4000):
                break
        d['paths_unexplored'] += len(stack)
        self.res.complete = not stack and not stop and d['paths_unexplored'] == 0
        self.sync()
        core.set_ctx(None)
        return self.res

    def sync(self):
        d = self.res.d
        s = self.stats
        d['queries'], d['unsat'], d['sat'], d['unknown'], d['solver_time'] = s.queries, s.unsat, s.sat, s.unknown, s.time

    def start_profile(self):
        src = world.SRC
        fs = self.res.functions

        def prof(frame, event, arg):
            if event == 'call':
                co = frame.f_code
                fn = co.co_filename
                if fn.startswith(src) and co.co_name[0] != '<':
                    fs.add(fn[len(src) + 1:] + ':' + co.co_name)
        sys.setprofile(prof)

    def stop_profile(self):
        sys.setprofile(None)

    def path_model(self):
        """input values satisfying the current path condition"""
        c = self.ctx
        for pt in c.points:
            if all(x.ev(pt) is True for x in c.pc):
                return self.point_values(pt)
        st, m = c.query([], full=True, timeout=3.0)
        if m is None:
            return None
        return c.model_inputs(m)

    def path_exception(self, e):
        """the code raised where the harness expects none: replay"""
        label = 'unexpected exception %s: %s' % (type(e).__name__, str(e)[:120])
        vals = self.path_model()
        if vals is not None:
            for v in ([vals] if not any(isinstance(x, Fraction) for x in vals.values()) else list(self.polish(vals))):
                if self.try_values(label, v):
                    return
        self.res.d['unreplayed'] += 1
        self.res.diverge_notes.append(label)

    def validate(self, env):
        """compare the executor with the real code at a model of this path"""
        d = self.res.d
        vals = self.path_model()
        if vals is None:
            return
        d['reached'] += 1
        c = self.ctx
        out = self.concrete(vals, dict(c.choices))
        if out['status'] == 'fail':
            # the real code fails a check at an input of this path
            self.report(out['failed'][0], vals, out)
            return
        if out['status'] != 'ok':
            return
        agree = True
        if env.obs:
            pt = {c.by_name[k]: float(v) for k, v in vals.items()}
            a = env.obs
            b = out['obs']
            if [n for n, _ in a] != [n for n, _ in b]:
                agree = False
            else:
                for (n, xs), (_, ys) in zip(a, b):
                    if len(xs) != len(ys):
                        agree = False
                        break
                    for x, y in zip(xs, ys):
                        if isinstance(x, Sym):
                            if any(c.vars[v].kind in ('sign', 'fresh') for v in x.r.vars()):
                                continue
                            x = c.reval(x.r, pt)
                        elif isinstance(x, Cond):
                            x = x.ev(pt)
                        if x is None:
                            continue
                        x = float(x)
                        if x != x and y != y or x == y:
                            continue
                        if not abs(x - y) <= 1e-5 * (1 + abs(x) + abs(y)):
                            agree = False
                            if len(self.res.diverge_notes) < 8:
                                self.res.diverge_notes.append('%s: executor %r real %r' % (n, x, y))
        if agree:
            d['traces_validated'] += 1
            if len(self.res.samples) < 2:
                self.res.samples.append({'harness': self.h.name, 'params': self.params, 'choices': dict(c.choices),
                                         'inputs': {k: float(v) for k, v in vals.items()},
                                         'path_conditions': len(c.pc), 'real_checks_passed': out['nchecks']})
        else:
            d['divergences'] += 1

    def concretise(self):
        """the path left the encodable fragment: run the real code at solver models of the path so far"""
        d = self.res.d
        c = self.ctx
        d['paths_concretised'] += 1
        done = 0
        for pt in c.points:
            if all(x.ev(pt) is True for x in c.pc):
                self.concretise_at(self.point_values(pt))
                done += 1
                if done >= 3:
                    break
        if not done:
            vals = self.path_model()
            if vals is not None:
                self.concretise_at(vals)

    def concretise_at(self, vals):
        out = self.concrete(vals, dict(self.ctx.choices))
        if out['status'] == 'fail':
            self.report(out['failed'][0], vals, out)


def _exact(x):
    if isinstance(x, Fraction):
        x = float(x)
    return repr(float(x))


def run_concrete(h, params, values, choices):
    env = ConcreteEnv({k: float(v) for k, v in values.items()}, choices)
    import warnings
    with warnings.catch_warnings(), np.errstate(all='ignore'):
        warnings.simplefilter('ignore')
        try:
            h.call(env, params)
        except AssumeFailed:
            return {'status': 'assume', 'failed': env.failed, 'obs': env.obs, 'nchecks': env.nchecks,
                    **({'status': 'fail'} if env.failed else {})}
        except Exception as e:    # noqa
            tb = traceback.extract_tb(sys.exc_info()[2])
            where = [f for f in tb if f.filename.startswith(world.SRC)]
            if not where and not getattr(e, '_from_code', False):
                # the harness itself failed (e.g. indexing an unexpected shape): still a failure of the code's
                # observable behaviour only when the code was reached; treat as failure of the check
                pass
            return {'status': 'fail', 'failed': env.failed + ['exception %s: %s' % (type(e).__name__, str(e)[:160])],
                    'obs': env.obs, 'nchecks': env.nchecks,
                    'error': '%s at %s' % (type(e).__name__, ['%s:%d' % (f.filename, f.lineno) for f in where][-1:])}
    return {'status': 'fail' if env.failed else 'ok', 'failed': env.failed, 'obs': env.obs, 'nchecks': env.nchecks}
