"""A stand-in for numpy inside the symbolically executed copy of the code.

Float arrays are object arrays (SymArray) whose elements are Python numbers or symbolic
reals; they report dtype float64.  A call without symbolic elements is passed to the real
numpy; a call with symbolic elements is interpreted here, or, when numpy's own
implementation works through the elements' Python operators, by numpy itself.  Anything
else raises NeedConcrete.
"""
import builtins
import math
import types
from fractions import Fraction

import numpy as np

from . import core
from .core import (Sym, Cond, NeedConcrete, cand, cor, cnot, truthy, is_bool, ssqrt, sabs, smax, smin, ssign, sdiv,
                   spow, floor_sym, trunc_sym, strig, is_num, S)

F8 = np.dtype('float64')
B1 = np.dtype(bool)
C16 = np.dtype('complex128')
OBJ = np.dtype(object)
_real_dtype = np.ndarray.dtype.__get__
_nd_getitem = np.ndarray.__getitem__
_nd_setitem = np.ndarray.__setitem__


class SymC(object):
    """symbolic complex number (only what reading its parts needs)"""
    __slots__ = ('re', 'im')
    dtype = C16
    shape = ()
    ndim = 0
    size = 1

    def __init__(self, re, im):
        self.re = re
        self.im = im

    @property
    def real(self):
        return self.re

    @property
    def imag(self):
        return self.im

    def __complex__(self):
        return complex(float(self.re), float(self.im))

    def __array_ufunc__(self, uf, method, *args, **kw):
        return ufunc_handler(uf, method, *args, **kw)

    def __abs__(self):
        return ssqrt(S(self.re) * self.re + S(self.im) * self.im)

    def _no(self, *a):
        raise NeedConcrete('complex arithmetic')
    __truediv__ = __rtruediv__ = _no

    @staticmethod
    def parts(o):
        if isinstance(o, (SymC, complex, np.complexfloating)):
            return o.real, o.imag
        if isinstance(o, (Sym, int, float, np.generic, Fraction)):
            return o, 0.
        return None

    def __add__(self, o):
        p = self.parts(o)
        return NotImplemented if p is None else SymC(S(self.re) + p[0], S(self.im) + p[1])
    __radd__ = __add__

    def __neg__(self):
        return SymC(-S(self.re), -S(self.im))

    def __sub__(self, o):
        p = self.parts(o)
        return NotImplemented if p is None else SymC(S(self.re) - p[0], S(self.im) - p[1])

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        p = self.parts(o)
        return NotImplemented if p is None else SymC(S(self.re) * p[0] - S(self.im) * p[1],
                                                     S(self.re) * p[1] + S(self.im) * p[0])
    __rmul__ = __mul__
    __lt__ = __gt__ = __le__ = __ge__ = _no


class SymArray(np.ndarray):
    _k = None
    _ord = None

    def __array_finalize__(self, obj):
        self._k = getattr(obj, '_k', None)

    @property
    def dtype(self):
        d = _real_dtype(self)
        if d is OBJ or d == OBJ:
            k = self._k
            if k == 'f' or k is None:
                return F8
            if k == 'b':
                return B1
            if k == 'c':
                return C16
        return d

    def __array_ufunc__(self, uf, method, *args, **kw):
        return ufunc_handler(uf, method, *args, **kw)

    def __array_function__(self, func, tps, args, kwargs):
        return call(func, args, kwargs)

    def __getitem__(self, k):
        k = fix_index(k)
        r = _nd_getitem(self, k)
        if isinstance(r, np.ndarray):
            if r.ndim == 0 and not isinstance(r, SymArray):
                return r
            return r
        return box(r, self._k)

    def __setitem__(self, k, v):
        k = fix_index(k)
        if _real_dtype(self) == OBJ:
            if isinstance(v, SymArray):
                v = np.asarray(v.view(np.ndarray))
            elif isinstance(v, (list, tuple)):
                v = objarr(v)
            elif isinstance(v, (Sym, Cond, SymC)):
                x = np.empty((), dtype=object)
                x[()] = v
                v = x
            if self._k == 'f' and isinstance(v, np.ndarray) and v.dtype == OBJ and v.size:
                v = np.frompyfunc(as_float_elem, 1, 1)(v)
            if self._k == 'f' and not isinstance(v, np.ndarray) and not isinstance(v, Sym):
                if v is None:
                    v = np.nan
                v = np.float64(v)
            if self._k == 'f' and isinstance(v, np.ndarray) and v.size == 1:
                t = k if isinstance(k, tuple) else (k,)
                if len(t) == self.ndim and all(isinstance(i, (int, np.integer)) for i in t):
                    v = v.reshape(-1)[0]          # one number, not an array in its place
            _nd_setitem(self, k, v)
            return
        # native arrays
        if isinstance(v, SymArray) or isinstance(v, (Sym, Cond, list, tuple)):
            v = native(v)
        _nd_setitem(self, k, v)

    def __iter__(self):
        if self.ndim == 0:
            raise TypeError('iteration over a 0-d array')
        for i in range(self.shape[0]):
            yield self[i]

    def __bool__(self):
        if self.size == 0:
            return False
        if self.size > 1:
            raise ValueError('The truth value of an array with more than one element is ambiguous. '
                             'Use a.any() or a.all()')
        return bool(truthy(_nd_getitem(self.reshape(-1), 0)))

    def __float__(self):
        if self.size != 1:
            raise TypeError('only size-1 arrays can be converted to Python scalars')
        return float(self.reshape(-1)[0])

    def __int__(self):
        if self.size != 1:
            raise TypeError('only size-1 arrays can be converted to Python scalars')
        return int(self.reshape(-1)[0])

    def __index__(self):
        if _real_dtype(self) == OBJ:
            raise TypeError('only integer scalar arrays can be converted to a scalar index')
        return int(np.ndarray.__index__(self))

    def __contains__(self, x):
        return bool(cor(*[e == x for e in self.reshape(-1)]))

    def __pow__(self, o):
        return ufunc_handler(np.power, '__call__', self, o)

    def __divmod__(self, o):
        return self // o, self % o

    @property
    def flat(self):
        return Flat(self)

    @property
    def real(self):
        if self._k == 'c':
            return mkshape([x.real for x in elems(self)], self.shape)
        return self

    @property
    def imag(self):
        if self._k == 'c':
            return mkshape([x.imag for x in elems(self)], self.shape)
        return zeros(self.shape)

    def item(self, *a):
        if a:
            if len(a) == 1 and isinstance(a[0], int):
                return self.reshape(-1)[a[0]]
            return self[a if len(a) > 1 else a[0]]
        if self.size != 1:
            raise ValueError('can only convert an array of size 1 to a Python scalar')
        return self.reshape(-1)[0]

    def astype(self, dt=None, *a, **kw):
        if _real_dtype(self) == OBJ:
            k = kind_of(dt)
            if k == 'f':
                if self._k in ('f', None):
                    return mkshape([e.re if isinstance(e, SymC) else e for e in elems(self)], self.shape)
                return mkshape([as_float_elem(x) for x in elems(self)], self.shape)
            if k == 'o':
                r = np.array(self.view(np.ndarray), dtype=object).view(SymArray)
                r._k = 'o'
                return r
            if k == 'c':
                return self.copy()
            if k == 'b':
                return lift([truthy(x) for x in elems(self)], self.shape)
            if k == 'i':
                out = np.array([int(x) for x in elems(self)], dtype=real_dt(dt)).reshape(self.shape)
                return out.view(SymArray)
            return wrap(native(self).astype(real_dt(dt)))
        return wrap(np.ndarray.astype(self.view(np.ndarray), real_dt(dt)))

    def copy(self, order='C'):
        r = np.array(self.view(np.ndarray), copy=True).view(SymArray)
        r._k = self._k
        return r

    def tolist(self):
        if _real_dtype(self) == OBJ and self._k != 'o':
            if self.ndim == 0:
                return self[()]
            return [x.tolist() if isinstance(x, np.ndarray) else x for x in self]
        return np.ndarray.tolist(self)

    def flatten(self, order='C'):
        r = np.ndarray.flatten(self.view(np.ndarray), order).view(SymArray)
        r._k = self._k
        return r

    def sum(self, *a, **kw):
        return call(np.sum, (self,) + a, kw)

    def prod(self, *a, **kw):
        return call(np.prod, (self,) + a, kw)

    def mean(self, *a, **kw):
        return call(np.mean, (self,) + a, kw)

    def max(self, *a, **kw):
        return call(np.max, (self,) + a, kw)

    def min(self, *a, **kw):
        return call(np.min, (self,) + a, kw)

    def any(self, *a, **kw):
        return call(np.any, (self,) + a, kw)

    def all(self, *a, **kw):
        return call(np.all, (self,) + a, kw)

    def argmax(self, *a, **kw):
        return call(np.argmax, (self,) + a, kw)

    def argmin(self, *a, **kw):
        return call(np.argmin, (self,) + a, kw)

    def argsort(self, *a, **kw):
        return call(np.argsort, (self,) + a, kw)

    def sort(self, axis=-1, **kw):
        self[...] = call(np.sort, (self, axis), kw)

    def dot(self, o):
        return call(np.dot, (self, o), {})

    def trace(self, *a, **kw):
        return call(np.trace, (self,) + a, kw)

    def diagonal(self, *a, **kw):
        return call(np.diagonal, (self,) + a, kw)

    def cumsum(self, *a, **kw):
        return call(np.cumsum, (self,) + a, kw)

    def clip(self, *a, **kw):
        return call(np.clip, (self,) + a, kw)

    def round(self, *a, **kw):
        return call(np.round, (self,) + a, kw)

    def nonzero(self):
        return call(np.nonzero, (self,), {})

    def conj(self):
        if self._k == 'c':
            raise NeedConcrete('complex')
        return self

    conjugate = conj

    def fill(self, v):
        self[...] = v

    def std(self, *a, **kw):
        raise NeedConcrete('std')

    var = std

    def __repr__(self):
        return 'SymArray(%r)' % (np.ndarray.tolist(self.view(np.ndarray)),)

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    def __deepcopy__(self, memo):
        return self.copy()


class Flat(object):
    def __init__(self, a):
        self.a = a
        self.it = np.ndarray.flat.__get__(a)

    def __getitem__(self, k):
        r = self.it[fix_index(k)]
        if isinstance(r, np.ndarray):
            r = r.view(SymArray)
            r._k = self.a._k
            return r
        return box(r, self.a._k)

    def __setitem__(self, k, v):
        if isinstance(v, (Sym, Cond)):
            x = np.empty((), dtype=object)
            x[()] = v
            v = x
        self.it[fix_index(k)] = v

    def __iter__(self):
        for i in range(self.a.size):
            yield self[i]

    def __len__(self):
        return self.a.size


# --------------------------------------------------------------------------- construction helpers
def box(x, k=None):
    if k == 'f' or k is None:
        if type(x) is float or type(x) is int or type(x) is Fraction:
            return np.float64(x)
    elif k == 'b':
        if type(x) is bool:
            return np.bool_(x)
    return x


def as_float_elem(x):
    if isinstance(x, Sym):
        return x
    if isinstance(x, SymC):
        return x.re
    if isinstance(x, Cond):
        return np.float64(int(bool(x)))
    if isinstance(x, (complex, np.complexfloating)):
        if x.imag == 0:
            return np.float64(x.real)
        raise TypeError("can't convert complex to float")
    if x is None:
        return np.float64('nan')
    return np.float64(x)


def objarr(lst):
    """nested list/tuple/arrays -> object ndarray (numpy's own shape rules)"""
    def conv(x):
        if isinstance(x, SymArray):
            return np.asarray(x.view(np.ndarray)).tolist() if _real_dtype(x) == OBJ and x.ndim else \
                (x.view(np.ndarray)[()] if x.ndim == 0 else x.view(np.ndarray).tolist())
        if isinstance(x, np.ndarray):
            return x.tolist()
        if isinstance(x, (list, tuple)):
            return [conv(e) for e in x]
        return x
    c = conv(lst)
    if not isinstance(c, list):
        r = np.empty((), dtype=object)
        r[()] = c
        return r
    return np.array(c, dtype=object)


def mk(lst, k='f'):
    """list of scalars -> 1-D SymArray"""
    r = np.empty((len(lst),), dtype=object)
    for i, x in enumerate(lst):
        r[i] = x
    r = r.view(SymArray)
    r._k = k
    return r


def mkshape(lst, shape, k='f'):
    r = mk(lst, k)
    r2 = r.reshape(shape)
    r2._k = k
    return r2


def lift(lst, shape):
    """list of bool/Cond -> native bool array when all are decided, else a condition array"""
    if all(is_bool(x) for x in lst):
        return np.array([bool(x) for x in lst], dtype=bool).reshape(shape).view(SymArray)
    return mkshape(lst, shape, 'b')


def elems(a):
    return [box(x, getattr(a, '_k', None)) for x in np.ndarray.flatten(a.view(np.ndarray))]


def zeros(shape):
    r = np.empty(shape, dtype=object).view(SymArray)
    r._k = 'f'
    r.view(np.ndarray).fill(0.0)
    return r


def has_sym(x, depth=0):
    if isinstance(x, (Sym, SymC)):
        return not isinstance(x, Sym) or not x.is_const() or True
    if isinstance(x, Cond):
        return True
    if isinstance(x, np.ndarray):
        if _real_dtype(x) != OBJ:
            return False
        if getattr(x, '_k', None) == 'o':
            return False
        for e in x.view(np.ndarray).flat:
            if isinstance(e, (Sym, Cond, SymC)):
                return True
        return False
    if isinstance(x, (list, tuple)) and depth < 6:
        return any(has_sym(e, depth + 1) for e in x)
    if isinstance(x, SymSparse):
        return True
    return False


def all_const(x):
    """no non-constant symbolic value inside"""
    if isinstance(x, Sym):
        return x.is_const()
    if isinstance(x, (Cond, SymC)):
        return False
    if isinstance(x, np.ndarray):
        if _real_dtype(x) != OBJ or getattr(x, '_k', None) == 'o':
            return True
        return all(all_const(e) for e in x.view(np.ndarray).flat)
    if isinstance(x, (list, tuple)):
        return all(all_const(e) for e in x)
    return True


def native(x):
    """strip to real numpy values; NeedConcrete when symbolic"""
    if isinstance(x, np.ndarray):
        d = _real_dtype(x)
        if d == OBJ:
            k = getattr(x, '_k', None)
            if k == 'o':
                return x.view(np.ndarray)
            if k is None and not isinstance(x, SymArray):
                return x
            b = x.view(np.ndarray)
            if k == 'b':
                return np.array([bool(e) for e in b.flat], dtype=bool).reshape(x.shape)
            if k == 'c':
                return np.array([complex(e) for e in b.flat], dtype=complex).reshape(x.shape)
            return np.array([float(e) for e in b.flat], dtype=np.float64).reshape(x.shape)
        return x.view(np.ndarray)
    if isinstance(x, Sym):
        return np.float64(float(x))
    if isinstance(x, Cond):
        return bool(x)
    if isinstance(x, list):
        return [native(e) for e in x]
    if type(x) is tuple:
        return tuple(native(e) for e in x)
    if isinstance(x, dict):
        return {k: native(v) for k, v in x.items()}
    if x is F64:
        return np.float64
    if x is ND:
        return np.ndarray
    if x is BUILTIN_FLOAT:
        return float
    if isinstance(x, slice):
        return x
    return x


def obj(x):
    """strip to plain object/native ndarrays, keeping symbolic elements"""
    if isinstance(x, np.ndarray):
        return x.view(np.ndarray)
    if isinstance(x, list):
        return [obj(e) for e in x]
    if type(x) is tuple:
        return tuple(obj(e) for e in x)
    if x is F64 or x is BUILTIN_FLOAT:
        return np.float64
    return x


def wrap(x):
    """real numpy result -> what the code under execution sees"""
    if isinstance(x, np.ndarray):
        if isinstance(x, SymArray):
            return x
        if x.dtype.kind == 'f':
            r = x.astype(object).view(SymArray)
            r._k = 'f'
            return r
        if x.dtype.kind == 'c':
            r = x.view(SymArray)
            return r
        if x.dtype == OBJ:
            r = x.view(SymArray)
            if r._k is None:
                r._k = guess_kind(x)
            return r
        return x.view(SymArray)
    if type(x) is tuple:
        return tuple(wrap(e) for e in x)
    if isinstance(x, list):
        return [wrap(e) for e in x]
    if isinstance(x, tuple) and hasattr(x, '_fields'):
        return type(x)(*[wrap(e) for e in x])
    return x


def guess_kind(x):
    k = None
    for e in x.flat:
        if isinstance(e, Cond) or is_bool(e):
            kk = 'b'
        elif isinstance(e, (SymC, complex, np.complexfloating)):
            kk = 'c'
        elif isinstance(e, Sym) or is_num(e):
            kk = 'f'
        else:
            return 'o'
        if k is None:
            k = kk
        elif k != kk:
            if 'c' in (k, kk):
                k = 'c'
            else:
                k = 'f'
    return k or 'f'


def wrap_sym(x):
    """result of numpy working on object arrays"""
    if isinstance(x, np.ndarray):
        if x.dtype == OBJ:
            r = x.view(SymArray)
            r._k = guess_kind(x)
            return r
        return wrap(x)
    if type(x) is tuple:
        return tuple(wrap_sym(e) for e in x)
    if isinstance(x, list):
        return [wrap_sym(e) for e in x]
    if type(x) is float:
        return np.float64(x)
    return x


def kind_of(dt):
    if dt is None:
        return 'f'
    if dt is F64 or dt is BUILTIN_FLOAT or dt is float:
        return 'f'
    try:
        k = np.dtype(dt).kind
    except TypeError:
        return 'o'
    return {'f': 'f', 'i': 'i', 'u': 'i', 'b': 'b', 'O': 'o', 'c': 'c'}.get(k, 'x')


def real_dt(dt):
    if dt is F64 or dt is BUILTIN_FLOAT:
        return np.float64
    return dt


def fix_index(k):
    if isinstance(k, tuple):
        return tuple(fix_index(e) for e in k)
    if isinstance(k, Cond):
        return bool(k)
    if isinstance(k, Sym):
        raise IndexError('only integers, slices, ellipsis, newaxis and integer or boolean arrays are valid indices')
    if isinstance(k, SymArray):
        if _real_dtype(k) == OBJ:
            if k._k == 'b':
                return native(k)
            if k.size == 0:
                raise IndexError('arrays used as indices must be of integer (or boolean) type')
            raise IndexError('arrays used as indices must be of integer (or boolean) type')
        return k.view(np.ndarray)
    if isinstance(k, list):
        if any(isinstance(e, (Cond,)) for e in k):
            return [bool(e) for e in k]
        return [fix_index(e) for e in k]
    return k


# --------------------------------------------------------------------------- ufuncs
def _isnan(x):
    if isinstance(x, (Sym, Cond, SymC)):
        return False
    return bool(np.isnan(x))


def _isfinite(x):
    if isinstance(x, (Sym, Cond, SymC)):
        return True
    return bool(np.isfinite(x))


def _isinf(x):
    if isinstance(x, (Sym, Cond, SymC)):
        return False
    return bool(np.isinf(x))


def _num(x):
    if isinstance(x, Cond):
        return np.float64(int(bool(x)))
    if isinstance(x, (bool, np.bool_, int, float, Fraction)):
        return np.float64(x)
    return x


def _pair(a, b):
    """operands whose operator dispatch reaches Sym / SymC (a numpy scalar would bounce back to the ufunc)"""
    a = _num(a)
    b = _num(b)
    if isinstance(a, (Sym, SymC)):
        return a, (float(b) if isinstance(b, np.floating) else b)
    if isinstance(b, (Sym, SymC)):
        return (float(a) if isinstance(a, np.floating) else a), b
    return a, b


def _sub(a, b):
    a, b = _pair(a, b)
    return a - b


def _add(a, b):
    if (isinstance(a, Cond) or is_bool(a)) and (isinstance(b, Cond) or is_bool(b)):
        return cor(a, b)
    a, b = _pair(a, b)
    return a + b


def _mulf(a, b):
    if (isinstance(a, Cond) or is_bool(a)) and (isinstance(b, Cond) or is_bool(b)):
        return cand(a, b)
    a, b = _pair(a, b)
    return a * b


def _div(a, b):
    a = _num(a)
    b = _num(b)
    if isinstance(a, Sym) or isinstance(b, Sym):
        return sdiv(a, b)
    with np.errstate(all='ignore'):
        return np.float64(a) / np.float64(b)


def _cmpf(op):
    def f(a, b):
        if isinstance(a, SymC) or isinstance(b, SymC):
            raise NeedConcrete('complex comparison')
        a, b = _pair(a, b)
        r = {'<': lambda: a < b, '<=': lambda: a <= b, '>': lambda: a > b, '>=': lambda: a >= b,
             '==': lambda: a == b, '!=': lambda: a != b}[op]()
        return r if isinstance(r, Cond) else bool(r)
    return f


def _maximum(a, b):
    a, b = _pair(a, b)
    if not isinstance(a, Sym) and float(a) != float(a):
        return a
    if not isinstance(b, Sym) and float(b) != float(b):
        return b
    return a if bool(a >= b) else b


def _minimum(a, b):
    a, b = _pair(a, b)
    if not isinstance(a, Sym) and float(a) != float(a):
        return a
    if not isinstance(b, Sym) and float(b) != float(b):
        return b
    return a if bool(a <= b) else b


def _fmod_py(a, b):
    a = _num(a)
    b = _num(b)
    if isinstance(a, Sym) or isinstance(b, Sym):
        return S(a) % b
    with np.errstate(all='ignore'):
        return np.float64(a) % np.float64(b)


def _xor(a, b):
    return bool(truthy(a)) != bool(truthy(b))


def _conj(x):
    if isinstance(x, SymC):
        raise NeedConcrete('complex')
    return x


def _un(np_f, sym_f):
    def f(x):
        x = _num(x)
        if isinstance(x, Sym):
            return sym_f(x)
        with np.errstate(all='ignore'):
            return np_f(x)
    return f


def _arctan2(a, b):
    raise NeedConcrete('arctan2')


ELEM = {
    'add': _add, 'subtract': _sub, 'multiply': _mulf, 'true_divide': _div, 'divide': _div,
    'negative': lambda a: -_num(a), 'positive': lambda a: a,
    'power': lambda a, b: spow(_num(a), b) if isinstance(a, Sym) or isinstance(b, Sym) else
    np.float64(a) ** np.float64(b),
    'float_power': lambda a, b: spow(_num(a), b) if isinstance(a, Sym) else np.float64(a) ** np.float64(b),
    'square': lambda a: _num(a) * _num(a), 'reciprocal': lambda a: _div(1., a),
    'sqrt': _un(np.sqrt, ssqrt), 'absolute': lambda x: abs(x) if isinstance(x, SymC) else sabs(_num(x)),
    'fabs': lambda x: sabs(_num(x)), 'sign': lambda x: ssign(_num(x)),
    'less': _cmpf('<'), 'less_equal': _cmpf('<='), 'greater': _cmpf('>'), 'greater_equal': _cmpf('>='),
    'equal': _cmpf('=='), 'not_equal': _cmpf('!='),
    'logical_and': cand, 'logical_or': cor, 'logical_not': lambda a: cnot(truthy(a)), 'logical_xor': _xor,
    'bitwise_and': cand, 'bitwise_or': cor, 'bitwise_xor': _xor, 'invert': lambda a: cnot(truthy(a)),
    'isnan': _isnan, 'isfinite': _isfinite, 'isinf': _isinf,
    'maximum': _maximum, 'minimum': _minimum, 'fmax': _maximum, 'fmin': _minimum,
    'remainder': _fmod_py, 'fmod': _fmod_py,
    'floor_divide': lambda a, b: floor_sym(_div(a, b)),
    'floor': lambda x: floor_sym(_num(x)), 'ceil': lambda x: -floor_sym(-S(x)), 'trunc': lambda x: trunc_sym(_num(x)),
    'cos': lambda x: strig(_num(x), 'cos'), 'sin': lambda x: strig(_num(x), 'sin'),
    'conjugate': _conj, 'signbit': lambda x: x < 0, 'hypot': lambda a, b: ssqrt(S(a) * a + S(b) * b),
    'rint': lambda x: floor_sym(S(x) + Fraction(1, 2)),
}
BOOLRES = {'less', 'less_equal', 'greater', 'greater_equal', 'equal', 'not_equal', 'logical_and', 'logical_or',
           'logical_not', 'logical_xor', 'isnan', 'isfinite', 'isinf', 'invert', 'bitwise_and', 'bitwise_or',
           'bitwise_xor', 'signbit'}


def to_obj_arr(x):
    if isinstance(x, np.ndarray):
        b = x.view(np.ndarray)
        return b if b.dtype == OBJ else b.astype(object)
    if isinstance(x, (list, tuple)):
        return objarr(x)
    r = np.empty((), dtype=object)
    r[()] = x
    return r


def is_objo(x):
    return isinstance(x, SymArray) and _real_dtype(x) == OBJ and x._k == 'o'


def ufunc_handler(uf, method, *args, **kw):
    out = kw.pop('out', None)
    name = uf.__name__
    if any(isinstance(a, (SymSparse,)) for a in args):
        return NotImplemented
    if method != '__call__':
        if method == 'reduce':
            return _store(reduce_handler(name, uf, args, kw), out)
        if method in ('accumulate', 'outer'):
            if not has_sym(args):
                return _store(wrap(getattr(uf, method)(*native(list(args)), **native(kw))), out)
            kw.pop('dtype', None)
            if method == 'outer':
                a, b = args
                a = arr(a)
                b = arr(b)
                a = a.reshape(a.shape + (1,) * b.ndim)
                return _store(ufunc_handler(uf, '__call__', a, b), out)
            return _store(wrap_sym(getattr(uf, method)(*[to_obj_arr(args[0])] + list(args[1:]), **kw)), out)
        if method == 'at':
            a = args[0]
            if _real_dtype(a) == OBJ:
                getattr(uf, 'at')(a.view(np.ndarray), *[obj(x) for x in args[1:]])
            else:
                getattr(uf, 'at')(a.view(np.ndarray), *[native(x) for x in args[1:]])
            return None
        raise NeedConcrete('ufunc method %s' % method)
    if any(is_objo(a) for a in args):
        r = getattr(uf, method)(*[obj(a) for a in args], **kw)
        return _store(wrap_sym(r), out)
    if not has_sym(list(args)):
        with np.errstate(all='ignore'):
            r = wrap(getattr(uf, method)(*native(list(args)), **native(kw)))
        return _store(r, out)
    kw.pop('dtype', None)
    kw.pop('casting', None)
    where = kw.pop('where', True)
    if where is not True:
        raise NeedConcrete('ufunc where=')
    if name == 'matmul':
        a, b = [to_obj_arr(a) for a in args]
        return _store(matmul(a, b), out)
    f = ELEM.get(name)
    if f is None:
        if all_const(list(args)):
            with np.errstate(all='ignore'):
                return _store(wrap(getattr(uf, method)(*native(list(args)))), out)
        raise NeedConcrete('ufunc %s' % name)
    oa = [to_obj_arr(a) for a in args]
    if all(a.ndim == 0 for a in oa):
        r = f(*[a[()] for a in oa])
        if name in BOOLRES:
            r = r if isinstance(r, Cond) else np.bool_(r)
        elif type(r) is float:
            r = np.float64(r)
        if out is None:
            return r
        x = np.empty((), dtype=object)
        x[()] = r
        return _store(x, out)
    b = np.broadcast(*oa) if len(oa) > 1 else oa[0]
    shape = b.shape
    if len(oa) > 1:
        oa = [np.broadcast_to(a, shape) for a in oa]
    ls = [list(a.reshape(-1)) for a in oa]
    res = [f(*t) for t in zip(*ls)]
    if name in BOOLRES:
        r = lift(res, shape)
    else:
        r = mkshape(res, shape, 'f')
        if all(isinstance(x, Cond) or is_bool(x) for x in res) and res:
            r = lift(res, shape)
    return _store(r, out)


def matmul(a, b):
    if a.ndim == 0 or b.ndim == 0:
        raise ValueError('matmul: Input operand does not have enough dimensions')
    if a.ndim == 1 and b.ndim == 1:
        if a.shape != b.shape:
            raise ValueError('matmul: mismatch in its core dimension 0')
        return _dotl(list(a), list(b))
    if a.ndim <= 2 and b.ndim <= 2:
        a2 = a.reshape(1, -1) if a.ndim == 1 else a
        b2 = b.reshape(-1, 1) if b.ndim == 1 else b
        if a2.shape[1] != b2.shape[0]:
            raise ValueError('matmul: Input operand 1 has a mismatch in its core dimension 0, with gufunc signature '
                             '(n?,k),(k,m?)->(n?,m?) (size %d is different from %d)' % (b2.shape[0], a2.shape[1]))
        rows = [list(r) for r in a2]
        cols = [list(c) for c in b2.T]
        r = mkshape([_dotl(x, y) for x in rows for y in cols], (a2.shape[0], b2.shape[1]))
        if a.ndim == 1 and b.ndim == 1:
            return r[0, 0]
        if a.ndim == 1:
            return r.reshape(b2.shape[1])
        if b.ndim == 1:
            return r.reshape(a2.shape[0])
        return r
    # stacked
    nb = np.broadcast_shapes(a.shape[:-2] if a.ndim > 1 else (), b.shape[:-2] if b.ndim > 1 else ())
    a3 = np.broadcast_to(a, nb + a.shape[-2:]) if a.ndim > 1 else a
    b3 = np.broadcast_to(b, nb + b.shape[-2:]) if b.ndim > 1 else b
    outs = []
    for idx in np.ndindex(*nb):
        outs.append(matmul(a3[idx] if a.ndim > 1 else a3, b3[idx] if b.ndim > 1 else b3))
    sh = outs[0].shape
    lst = []
    for o in outs:
        lst.extend(elems(o))
    return mkshape(lst, nb + sh)


def _dotl(x, y):
    s = 0
    for a, b in zip(x, y):
        if (not isinstance(a, (Sym, Cond)) and a == 0 and core.is_fin(b) if not isinstance(b, Cond) else False):
            continue
        if (not isinstance(b, (Sym, Cond)) and b == 0 and core.is_fin(a) if not isinstance(a, Cond) else False):
            continue
        s = s + _num(a) * _num(b)
    return np.float64(s) if not isinstance(s, Sym) else s


def _store(r, out):
    if out is None:
        return r
    o = out[0] if isinstance(out, tuple) else out
    if isinstance(o, SymArray):
        rv = r
        if _real_dtype(o) == OBJ:
            o[...] = rv if isinstance(rv, np.ndarray) else rv
        else:
            if has_sym(rv):
                rv = native(rv)
            elif isinstance(rv, np.ndarray):
                rv = native(rv)
            nr = np.asarray(rv)
            if nr.dtype.kind == 'f' and o.view(np.ndarray).dtype.kind in 'iub':
                raise TypeError("Cannot cast ufunc output from dtype('float64') to dtype('%s') with casting rule "
                                "'same_kind'" % o.view(np.ndarray).dtype)
            _nd_setitem(o, Ellipsis, nr)
        return o
    o[...] = native(r)
    return o


def _axes_apply(a, axis, keepdims, f):
    """reduce SymArray a over axis with f(list)->scalar"""
    if axis is None:
        r = f(elems(a))
        if keepdims:
            return mkshape([r], (1,) * a.ndim, 'b' if isinstance(r, Cond) or is_bool(r) else 'f')
        return r
    axes = axis if isinstance(axis, tuple) else (axis,)
    axes = sorted(int(x) % a.ndim if a.ndim else 0 for x in axes)
    for x in (axis if isinstance(axis, tuple) else (axis,)):
        if not -a.ndim <= int(x) < a.ndim:
            raise np.AxisError(int(x), a.ndim)
    rest = [i for i in range(a.ndim) if i not in axes]
    t = np.transpose(a.view(np.ndarray), rest + axes)
    rs = tuple(a.shape[i] for i in rest)
    n = 1
    for i in axes:
        n *= a.shape[i]
    m = 1
    for x in rs:
        m *= x
    flat = t.reshape(m, n)
    vals = [f([box(e, a._k) for e in flat[i]]) for i in range(m)]
    if vals and all(isinstance(v, Cond) or is_bool(v) for v in vals):
        r = lift(vals, rs)
    else:
        r = mkshape(vals, rs)
    if keepdims:
        r = r.reshape(tuple(1 if i in axes else a.shape[i] for i in range(a.ndim)))
    elif r.ndim == 0:
        return r[()]
    return r


def _sum(xs):
    s = 0
    for x in xs:
        s = s + _num(x)
    return s if isinstance(s, Sym) else np.float64(s)


def _prod(xs):
    s = 1
    for x in xs:
        s = s * _num(x)
    return s if isinstance(s, Sym) else np.float64(s)


def _cand_l(xs):
    r = cand(*xs)
    return r if isinstance(r, Cond) else np.bool_(r)


def _cor_l(xs):
    r = cor(*xs)
    return r if isinstance(r, Cond) else np.bool_(r)


def _maxl(xs):
    if not xs:
        raise ValueError('zero-size array to reduction operation maximum which has no identity')
    return smax(xs)


def _minl(xs):
    if not xs:
        raise ValueError('zero-size array to reduction operation minimum which has no identity')
    return smin(xs)


RED = {'add': _sum, 'multiply': _prod, 'maximum': _maxl, 'minimum': _minl, 'logical_and': _cand_l,
       'logical_or': _cor_l, 'bitwise_and': _cand_l, 'bitwise_or': _cor_l}


def reduce_handler(name, uf, args, kw):
    a = args[0]
    if is_objo(a):
        return wrap_sym(uf.reduce(obj(a), *args[1:], **kw))
    if not has_sym(a):
        return wrap(uf.reduce(native(a), *native(list(args[1:])), **native(kw)))
    f = RED.get(name)
    if f is None:
        raise NeedConcrete('reduce %s' % name)
    axis = kw.get('axis', args[1] if len(args) > 1 else 0)
    return _axes_apply(arr(a), axis, kw.get('keepdims', False), f)


def arr(x):
    """anything -> SymArray (np.asarray)"""
    if isinstance(x, SymArray):
        return x
    if isinstance(x, np.ndarray):
        return wrap(x)
    if isinstance(x, (Sym, SymC)):
        return mkshape([x], (), 'c' if isinstance(x, SymC) else 'f')
    if isinstance(x, Cond):
        return mkshape([x], (), 'b')
    if isinstance(x, SymSparse):
        raise NeedConcrete('sparse')
    if isinstance(x, (list, tuple)) and has_sym(x):
        o = objarr(x)
        r = o.view(SymArray)
        r._k = guess_kind(o)
        return r
    if isinstance(x, (list, tuple)):
        return wrap(np.asarray(native(x)))
    return wrap(np.asarray(x))


# --------------------------------------------------------------------------- numpy functions
H = {}


def handles(*names):
    def deco(f):
        for n in names:
            H[n] = f
        return f
    return deco


STRUCT_ONLY = set()


def call(func, args, kw):
    """numpy function call on possibly symbolic arguments"""
    name = getattr(func, '__name__', str(func))
    mod = getattr(func, '__module__', '') or ''
    key = name
    if 'linalg' in mod:
        key = 'linalg.' + name
    if isinstance(func, np.ufunc):
        return ufunc_handler(func, '__call__', *args, **kw)
    if key in CREATE:
        return CREATE[key](*args, **kw)
    if not has_sym(list(args)) and not has_sym(list(kw.values())):
        if any(is_objo(a) for a in args) or any(is_objo(b) for a in args if isinstance(a, (list, tuple)) for b in a):
            return wrap_sym(func(*[obj(a) for a in args], **{k: obj(v) for k, v in kw.items()}))
        with np.errstate(all='ignore'):
            return wrap(func(*native(list(args)), **native(kw)))
    h = H.get(key)
    if h is not None:
        return h(*args, **kw)
    if 'linalg' in mod or name in NO_OBJECT:
        if all_const(list(args)) and all_const(list(kw.values())):
            return wrap(func(*native(list(args)), **native(kw)))
        raise NeedConcrete('numpy function %s' % key)
    kw = dict(kw)
    kw.pop('dtype', None)
    try:
        return wrap_sym(func(*[prep(a) for a in args], **{k: prep(v) for k, v in kw.items()}))
    except (TypeError, AttributeError, NotImplementedError, RecursionError) as e:
        if all_const(list(args)) and all_const(list(kw.values())):
            return wrap(func(*native(list(args)), **native(kw)))
        raise NeedConcrete('numpy function %s on symbolic values: %s' % (key, e))


def prep(x):
    if isinstance(x, (list, tuple)):
        return type(x)(prep(e) for e in x) if type(x) in (list, tuple) else x
    if isinstance(x, (Sym, Cond)):
        return to_obj_arr(x)
    return obj(x)


NO_OBJECT = {'interp', 'histogram', 'polyfit', 'fft', 'around', 'round_', 'nan_to_num', 'quantile', 'percentile',
             'corrcoef', 'cov', 'median', 'searchsorted', 'digitize', 'vectorize', 'array2string', 'array_repr',
             'array_str', 'format_float_positional', 'savetxt', 'linspace', 'logspace', 'geomspace'}


# creation
def _shape(s):
    if isinstance(s, (np.ndarray,)):
        return tuple(int(x) for x in s.view(np.ndarray).reshape(-1)) if s.ndim else int(s)
    if isinstance(s, (list, tuple)):
        return tuple(int(x) for x in s)
    return int(s) if not isinstance(s, (float, np.floating, Sym)) else _bad_shape()


def _bad_shape():
    raise TypeError("'float' object cannot be interpreted as an integer")


def _chk_shape(s):
    if isinstance(s, (list, tuple)):
        for x in s:
            if isinstance(x, (float, np.floating, Sym)):
                _bad_shape()
    return _shape(s)


def c_full(shape, v, dtype=None, order='C'):
    k = kind_of(dtype) if dtype is not None else None
    sh = _chk_shape(shape)
    if k is None:
        if isinstance(v, np.ndarray):
            k = 'f' if v.dtype.kind == 'f' else ('b' if v.dtype.kind == 'b' else 'i')
        elif isinstance(v, (Sym, float)) and not isinstance(v, (bool, np.bool_)):
            k = 'f'
        elif isinstance(v, (Cond,)) or is_bool(v):
            k = 'b'
        elif isinstance(v, (int, np.integer)):
            k = 'i'
            dtype = int
        else:
            k = 'o'
    if k == 'f':
        r = zeros(sh)
        r[...] = v
        return r
    if k == 'o':
        r = np.empty(sh, dtype=object)
        r[...] = v
        r = r.view(SymArray)
        r._k = 'o'
        return r
    if k == 'b':
        return np.full(sh, bool(v), dtype=bool).view(SymArray)
    return np.full(sh, native(v), dtype=real_dt(dtype)).view(SymArray)


def c_zeros(shape, dtype=None, order='C', **kw):
    k = kind_of(dtype)
    sh = _chk_shape(shape)
    if k == 'f':
        return zeros(sh)
    r = np.zeros(sh, dtype=real_dt(dtype)).view(SymArray)
    if k == 'o':
        r._k = 'o'
    return r


def c_ones(shape, dtype=None, order='C', **kw):
    k = kind_of(dtype)
    sh = _chk_shape(shape)
    if k == 'f':
        r = zeros(sh)
        r[...] = 1.0
        return r
    return np.ones(sh, dtype=real_dt(dtype)).view(SymArray)


def c_empty(shape, dtype=None, order='C', **kw):
    k = kind_of(dtype)
    sh = _chk_shape(shape)
    if k == 'f':
        return zeros(sh)
    r = np.empty(sh, dtype=real_dt(dtype) if k != 'o' else object).view(SymArray)
    if k == 'o':
        r._k = 'o'
    return r


def c_like(fill):
    def f(a, *args, **kw):
        dtype = kw.get('dtype')
        a = arr(a)
        sh = kw.get('shape', None) or a.shape
        dt = dtype if dtype is not None else a.dtype
        if fill == 'full':
            return c_full(sh, args[0], dt)
        return {'zeros': c_zeros, 'ones': c_ones, 'empty': c_empty}[fill](sh, dt)
    return f


def c_eye(n, m=None, k=0, dtype=None, **kw):
    kd = kind_of(dtype)
    r = np.eye(int(n), None if m is None else int(m), int(k), dtype=float if kd == 'f' else real_dt(dtype))
    return wrap(r)


def c_identity(n, dtype=None, **kw):
    return c_eye(n, dtype=dtype)


def c_array(x, dtype=None, copy=True, order='K', subok=False, ndmin=0):
    k = kind_of(dtype) if dtype is not None else None
    if isinstance(x, np.ndarray):
        a = arr(x)
        if k is None:
            r = a.copy() if copy else a
        elif k == 'f' and _real_dtype(a) == OBJ and a._k == 'f' and not copy:
            r = a
        elif k == 'f' and _real_dtype(a) == OBJ and a._k == 'o':
            r = mkshape([as_float_elem(e) for e in elems(a)], a.shape)
        else:
            r = a.astype(dtype)
    elif has_sym(x):
        a = arr(x)
        if k is None or k == 'f' and a._k == 'f':
            r = a.copy()
        elif k == 'o':
            r = a.copy()
            r._k = 'o'
        else:
            r = a.astype(dtype)
    else:
        n = x if isinstance(x, dict) or isinstance(x, (list, tuple)) and _has_dicts(x) else native(x)
        if isinstance(n, (list, tuple)) and _has_objects(n):
            r = np.array(n, dtype=object if k in (None, 'o') else real_dt(dtype))
            r = r.view(SymArray)
            r._k = 'o' if _real_dtype(r) == OBJ else None
        elif k == 'o':
            r = np.array(n, dtype=object).view(SymArray)
            r._k = 'o'
        else:
            r = np.array(n) if dtype is None else np.array(n, dtype=real_dt(dtype))
            if r.dtype == OBJ:
                r = r.view(SymArray)
                r._k = 'o'
            else:
                r = wrap(r)
    while r.ndim < ndmin:
        r = r.reshape((1,) + r.shape)
    return r


def _has_dicts(x):
    return any(_has_dicts(e) if isinstance(e, (list, tuple)) else isinstance(e, dict) for e in x)


def _has_objects(x):
    if isinstance(x, (list, tuple)):
        return any(_has_objects(e) for e in x)
    if isinstance(x, np.ndarray):
        return x.dtype == OBJ
    return not isinstance(x, (int, float, complex, str, bytes, np.generic, bool, Fraction))


def c_asarray(x, dtype=None, order=None, **kw):
    if isinstance(x, SymArray) and (dtype is None or (kind_of(dtype) == 'f' and x._k == 'f'
                                                       and _real_dtype(x) == OBJ)):
        return x
    if isinstance(x, SymArray) and kind_of(dtype) == {'b': 'b', 'i': 'i'}.get(x.dtype.kind):
        return x
    return c_array(x, dtype)


def c_copy(a, order='K', subok=False):
    return arr(a).copy() if isinstance(a, np.ndarray) else c_array(a)


def c_arange(*a, **kw):
    dt = kw.pop('dtype', None)
    r = np.arange(*[native(x) for x in a], **({} if dt is None else {'dtype': real_dt(dt)}))
    return wrap(r)


def c_linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    num = int(num) if not isinstance(num, (float, np.floating, Sym)) else _bad_shape()
    if not has_sym([start, stop]):
        return wrap(np.linspace(native(start), native(stop), num, endpoint, retstep, real_dt(dtype), axis))
    div = (num - 1) if endpoint else num
    step = (stop - start) / div if div > 0 else np.float64('nan')
    ls = [start + (S(stop) - start) * Fraction(i, div) if div > 0 else S(start) for i in range(num)]
    r = mk([S(x) for x in ls])
    return (r, step) if retstep else r


CREATE = {'zeros': c_zeros, 'ones': c_ones, 'empty': c_empty, 'full': c_full, 'zeros_like': c_like('zeros'),
          'ones_like': c_like('ones'), 'empty_like': c_like('empty'), 'full_like': c_like('full'), 'eye': c_eye,
          'identity': c_identity, 'array': c_array, 'asarray': c_asarray, 'asanyarray': c_asarray,
          'ascontiguousarray': c_asarray, 'asfortranarray': c_asarray, 'copy': c_copy, 'arange': c_arange,
          'linspace': c_linspace}


def _ax(kw, args, pos, default=None):
    if len(args) > pos:
        return args[pos]
    return kw.get('axis', default)


def _red(f):
    def h(a, *args, **kw):
        a = arr(a)
        axis = _ax(kw, args, 0)
        keep = kw.get('keepdims', False)
        if keep is np._NoValue:
            keep = False
        r = _axes_apply(a, axis, bool(keep), f)
        return _store(r, kw.get('out')) if kw.get('out') is not None else r
    return h


def decided(a):
    """boolean array with every element decided on this path"""
    return np.array([bool(x) for x in elems(a)], dtype=bool).reshape(a.shape)


def _count(f, g):
    def h(a, *args, **kw):
        a = arr(a)
        if isinstance(a, SymArray) and a._k == 'b' and not args[1:] and not set(kw) - {'axis', 'keepdims'}:
            return wrap(g(decided(a), *args, **kw))
        return f(a, *args, **kw)
    return h


H['sum'] = _count(_red(_sum), np.sum)
H['prod'] = H['product'] = _count(_red(_prod), np.prod)
H['amax'] = H['max'] = _red(_maxl)
H['amin'] = H['min'] = _red(_minl)
H['all'] = H['alltrue'] = _red(_cand_l)
H['any'] = H['sometrue'] = _red(_cor_l)
H['mean'] = H['average'] = _red(lambda xs: _sum(xs) / len(xs))
H['ptp'] = _red(lambda xs: _maxl(xs) - _minl(xs))
H['nanmax'] = _red(lambda xs: _maxl([x for x in xs if isinstance(x, Sym) or x == x]))
H['nanmin'] = _red(lambda xs: _minl([x for x in xs if isinstance(x, Sym) or x == x]))
H['nansum'] = _red(lambda xs: _sum([x for x in xs if isinstance(x, Sym) or x == x]))
H['count_nonzero'] = _red(lambda xs: builtins.sum(1 for x in xs if bool(truthy(x))))


def _arg(best):
    def h(a, axis=None, **kw):
        a = arr(a)

        def f(xs):
            if not xs:
                raise ValueError('attempt to get argmax of an empty sequence')
            bi = 0
            for i in range(1, len(xs)):
                c = (xs[i] > xs[bi]) if best > 0 else (xs[i] < xs[bi])
                if bool(c):
                    bi = i
            return bi
        if axis is None:
            return np.int64(f(elems(a)))
        r = _axes_apply(a, axis, False, f)
        return native(r).astype(int).view(SymArray) if isinstance(r, np.ndarray) else np.int64(int(r))
    return h


H['argmax'] = _arg(1)
H['argmin'] = _arg(-1)


def merge_sort(idx, lt):
    """stable insertion sort by comparisons (few forks on small inputs)"""
    out = []
    for i in idx:
        j = len(out)
        while j > 0 and bool(lt(i, out[j - 1])):
            j -= 1
        out.insert(j, i)
    return out


@handles('argsort')
def h_argsort(a, axis=-1, kind=None, order=None):
    a = arr(a)
    if axis is None:
        a = a.flatten()
        axis = 0
    v = np.moveaxis(a.view(np.ndarray), axis, -1)
    out = np.empty(v.shape, dtype=np.int64)
    for ix in np.ndindex(*v.shape[:-1]):
        row = [box(x, 'f') for x in v[ix]]
        out[ix] = merge_sort(range(len(row)), lambda i, j: row[i] < row[j])
    return np.moveaxis(out, -1, axis).view(SymArray)


@handles('sort', 'msort')
def h_sort(a, axis=-1, kind=None, order=None):
    a = arr(a)
    if axis is None:
        a = a.flatten()
        axis = 0
    v = np.moveaxis(a.view(np.ndarray), axis, -1)
    out = np.empty(v.shape, dtype=object)
    for ix in np.ndindex(*v.shape[:-1]):
        row = [box(x, 'f') for x in v[ix]]
        o = merge_sort(range(len(row)), lambda i, j: row[i] < row[j])
        for k, i in enumerate(o):
            out[ix + (k,)] = row[i]
    r = np.moveaxis(out, -1, axis).view(SymArray)
    r._k = a._k
    return r


@handles('lexsort')
def h_lexsort(keys, axis=-1):
    ks = [elems(arr(k)) for k in keys]
    n = len(ks[0])

    def lt(i, j):
        for k in reversed(ks):
            if bool(k[i] < k[j]):
                return True
            if bool(k[j] < k[i]):
                return False
        return False
    return np.array(merge_sort(range(n), lt), dtype=np.int64).view(SymArray)


@handles('unique')
def h_unique(a, return_index=False, return_inverse=False, return_counts=False, axis=None):
    a = arr(a)
    if axis is None:
        rows = [[x] for x in elems(a)]
    elif axis == 0:
        rows = [elems(a[i].flatten() if a.ndim > 1 else mk([a[i]])) for i in range(a.shape[0])]
    else:
        raise NeedConcrete('unique axis')

    def lt(i, j):
        for x, y in zip(rows[i], rows[j]):
            if bool(x < y):
                return True
            if bool(y < x):
                return False
        return False
    o = merge_sort(range(len(rows)), lt)
    reps = []
    inv = [0] * len(rows)
    for i in o:
        if not reps or lt(reps[-1], i):
            reps.append(i)
        inv[i] = len(reps) - 1
    if axis is None:
        u = mk([rows[i][0] for i in reps])
    else:
        u = a[np.array(reps, dtype=int)]
    res = (u,)
    if return_index:
        res += (np.array(reps, dtype=np.int64).view(SymArray),)
    if return_inverse:
        res += (np.array(inv, dtype=np.int64).view(SymArray),)
    if return_counts:
        res += (np.array([inv.count(i) for i in range(len(reps))], dtype=np.int64).view(SymArray),)
    return res[0] if len(res) == 1 else res


@handles('isin', 'in1d')
def h_isin(a, b, assume_unique=False, invert=False):
    a = arr(a)
    bl = elems(arr(b))
    r = lift([cor(*[x == y for y in bl]) for x in elems(a)], a.shape)
    return ~r if invert else r


@handles('array_equal')
def h_array_equal(a, b, equal_nan=False):
    a = arr(a)
    b = arr(b)
    if a.shape != b.shape:
        return False
    r = cand(*[x == y for x, y in zip(elems(a), elems(b))])
    return r if isinstance(r, Cond) else bool(r)


@handles('array_equiv')
def h_array_equiv(a, b):
    return _cand_l(elems(arr(arr(a) == arr(b))))


@handles('isclose')
def h_isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    a = arr(a)
    b = arr(b)
    return abs(a - b) <= atol + rtol * abs(b)


@handles('allclose')
def h_allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    r = h_isclose(a, b, rtol, atol)
    return _cand_l(elems(arr(r)))


@handles('isreal')
def h_isreal(a):
    a = arr(a)
    out = []
    for x in elems(a):
        if isinstance(x, SymC):
            out.append(x.im == 0 if not isinstance(x.im, Sym) else (x.im == 0))
        else:
            out.append(bool(np.isreal(x)) if not isinstance(x, (Sym, Cond)) else True)
    if a.ndim == 0:
        return out[0]
    return lift(out, a.shape)


@handles('iscomplexobj')
def h_iscomplexobj(a):
    return arr(a)._k == 'c'


@handles('isrealobj')
def h_isrealobj(a):
    return arr(a)._k != 'c'


@handles('real')
def h_real(a):
    return a.real if hasattr(a, 'real') else arr(a).real


@handles('imag')
def h_imag(a):
    return a.imag if hasattr(a, 'imag') else arr(a).imag


@handles('isscalar')
def h_isscalar(a):
    return isinstance(a, (Sym, Cond, SymC)) or (not isinstance(a, np.ndarray) and np.isscalar(a))


@handles('fix')
def h_fix(a, out=None):
    if isinstance(a, Sym):
        return trunc_sym(a)
    a = arr(a)
    return mkshape([trunc_sym(x) for x in elems(a)], a.shape)


@handles('where')
def h_where(c, *xy):
    c = arr(c)
    if not xy:
        return h_nonzero(c)
    m = native(c) if _real_dtype(c) == OBJ else c.view(np.ndarray)
    x, y = [to_obj_arr(arr(v)) for v in xy]
    r = np.where(m, x, y)
    if r.ndim == 0:
        return wrap_sym(r)
    return wrap_sym(r)


@handles('nonzero', 'flatnonzero', 'argwhere')
def h_nonzero(a):
    a = arr(a)
    m = np.array([bool(truthy(x)) for x in elems(a)], dtype=bool).reshape(a.shape)
    return wrap(np.nonzero(m))


H['flatnonzero'] = lambda a: h_nonzero(arr(a).flatten())[0]
H['argwhere'] = lambda a: wrap(np.transpose([x.view(np.ndarray) for x in h_nonzero(a)]))


@handles('triu', 'tril')
def h_triu(m, k=0):
    raise NeedConcrete('triu')


def _tri(keep):
    def h(m, k=0):
        a = arr(m)
        r = a.copy()
        for ix in np.ndindex(*a.shape):
            if not keep(ix[-2], ix[-1], k):
                r.view(np.ndarray)[ix] = 0.0
        return r
    return h


H['triu'] = _tri(lambda i, j, k: j - i >= k)
H['tril'] = _tri(lambda i, j, k: j - i <= k)


@handles('dot', 'inner', 'vdot')
def h_dot(a, b, out=None):
    a = arr(a)
    b = arr(b)
    if a.ndim == 0 or b.ndim == 0:
        return a * b if a.ndim or b.ndim else a[()] * b[()]
    if a.ndim <= 2 and b.ndim <= 2:
        r = matmul(to_obj_arr(a), to_obj_arr(b))
        return _store(r, out)
    return wrap_sym(np.dot(to_obj_arr(a), to_obj_arr(b)))


def h_inner(a, b):
    a = arr(a)
    b = arr(b)
    if a.ndim == 0 or b.ndim == 0:
        return h_dot(a, b)
    return h_dot(a, b.T if b.ndim == 2 else b)


H['inner'] = h_inner
H['vdot'] = lambda a, b: h_dot(arr(a).flatten(), arr(b).flatten())


@handles('outer')
def h_outer(a, b, out=None):
    a = arr(a).flatten()
    b = arr(b).flatten()
    return a.reshape(-1, 1) * b.reshape(1, -1)


@handles('cross')
def h_cross(a, b, axisa=-1, axisb=-1, axisc=-1, axis=None):
    a = arr(a)
    b = arr(b)
    if a.ndim == 1 and b.ndim == 1 and a.size == 3 and b.size == 3:
        return mk([a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]])
    if a.ndim == 1 and b.ndim == 1 and a.size == 2 and b.size == 2:
        return a[0] * b[1] - a[1] * b[0]
    if axis is None and axisa == -1 and axisb == -1 and a.ndim == 2 and b.ndim == 2 and a.shape == b.shape:
        return c_array([h_cross(x, y) for x, y in zip(a, b)])
    raise NeedConcrete('cross')


@handles('einsum')
def h_einsum(*a, **kw):
    kw.pop('optimize', None)
    try:
        sub = a[0]
        if not isinstance(sub, str):
            raise NeedConcrete('einsum')
        return _einsum(sub, [arr(x) for x in a[1:]])
    except KeyError:
        raise NeedConcrete('einsum')


def _einsum(sub, ops):
    sub = sub.replace(' ', '')
    if '.' in sub:
        raise NeedConcrete('einsum ellipsis')
    if '->' in sub:
        ins, out = sub.split('->')
    else:
        ins = sub
        letters = ''.join(sorted(set(ins.replace(',', ''))))
        out = ''.join(c for c in letters if ins.count(c) == 1)
    ins = ins.split(',')
    dim = {}
    for s, o in zip(ins, ops):
        if len(s) != o.ndim:
            raise ValueError('einsum: operand has wrong number of dimensions')
        for c, n in zip(s, o.shape):
            if dim.setdefault(c, n) != n:
                raise ValueError('einsum: operands could not be broadcast')
    letters = sorted(dim)
    acc = {}
    for ix in np.ndindex(*[dim[c] for c in letters]):
        d = dict(zip(letters, ix))
        p = 1
        for s, o in zip(ins, ops):
            p = p * box(o.view(np.ndarray)[tuple(d[c] for c in s)], 'f')
        k = tuple(d[c] for c in out)
        acc[k] = acc.get(k, 0) + p
    shape = tuple(dim[c] for c in out)
    return mkshape([acc[ix] for ix in np.ndindex(*shape)], shape) if shape else acc[()]


@handles('trace')
def h_trace(a, offset=0, axis1=0, axis2=1, dtype=None, out=None):
    a = arr(a)
    if a.ndim != 2 or offset:
        raise NeedConcrete('trace')
    return _sum([a[i, i] for i in range(builtins.min(a.shape))])


@handles('diag')
def h_diag(v, k=0):
    a = arr(v)
    if a.ndim == 1:
        n = a.size + abs(k)
        r = zeros((n, n))
        for i, x in enumerate(elems(a)):
            r.view(np.ndarray)[(i, i + k) if k >= 0 else (i - k, i)] = x
        return r
    if a.ndim != 2:
        raise ValueError('Input must be 1- or 2-d.')
    return h_diagonal(a, k).copy()


@handles('diagonal')
def h_diagonal(a, offset=0, axis1=0, axis2=1):
    a = arr(a)
    r = np.ndarray.diagonal(a.view(np.ndarray), offset, axis1, axis2).view(SymArray)
    r._k = a._k
    return r


@handles('clip')
def h_clip(a, a_min, a_max, out=None, **kw):
    r = arr(a)
    if a_min is not None:
        r = ufunc_handler(np.maximum, '__call__', r, a_min)
    if a_max is not None:
        r = ufunc_handler(np.minimum, '__call__', r, a_max)
    return _store(r, out)


@handles('around', 'round_', 'round')
def h_round(a, decimals=0, out=None):
    if all_const(a):
        return wrap(np.around(native(a), decimals))
    raise NeedConcrete('round')


@handles('cumsum')
def h_cumsum(a, axis=None, dtype=None, out=None):
    a = arr(a)
    if isinstance(a, SymArray) and a._k == 'b' and dtype is None:
        return wrap(np.cumsum(decided(a), axis=axis))
    if axis is None:
        xs = elems(a)
        r = []
        s = 0
        for x in xs:
            s = s + _num(x)
            r.append(s)
        return mk(r)
    return wrap_sym(np.cumsum(to_obj_arr(a), axis=axis))


@handles('vander', 'gradient')
def h_no(*a, **k):
    raise NeedConcrete('numpy function')


@handles('nan_to_num')
def h_nan_to_num(a, *args, **kw):
    a = arr(a)
    return mkshape([x if isinstance(x, Sym) else np.nan_to_num(x) for x in elems(a)], a.shape)


@handles('may_share_memory', 'shares_memory')
def h_share(a, b, *x):
    return np.may_share_memory(a.view(np.ndarray), b.view(np.ndarray))


@handles('shape')
def h_shape(a):
    return arr(a).shape


@handles('ndim')
def h_ndim(a):
    return arr(a).ndim


@handles('size')
def h_size(a, axis=None):
    a = arr(a)
    return a.size if axis is None else a.shape[axis]


def _linalg():
    from . import symlinalg
    return symlinalg


# --------------------------------------------------------------------------- type-like objects
class _F64Meta(type):
    def __call__(cls, x=0.):
        if isinstance(x, Sym):
            return x
        if isinstance(x, SymArray):
            if x.size == 1 and has_sym(x):
                return x.reshape(-1)[0] if x.ndim == 0 else x
            x = native(x)
            r = np.float64(x)
            return wrap(r) if isinstance(r, np.ndarray) else r
        if isinstance(x, Cond):
            return np.float64(int(bool(x)))
        return np.float64(x)

    def __instancecheck__(cls, x):
        return isinstance(x, (np.float64, Sym))

    def __eq__(cls, o):
        return o is cls or o is np.float64 or (isinstance(o, np.dtype) and o == np.float64)

    def __hash__(cls):
        return hash(np.float64)


class F64(metaclass=_F64Meta):
    """np.float64"""


class _NDMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, np.ndarray)

    def __eq__(cls, o):
        return o is cls or o is SymArray or o is np.ndarray

    def __hash__(cls):
        return hash(np.ndarray)

    def __getattr__(cls, n):
        return getattr(SymArray, n)

    def __call__(cls, *a, **k):
        return SymArray(*a, **k)


class ND(metaclass=_NDMeta):
    """np.ndarray"""


class _BF(type):
    def __call__(cls, x=0.):
        if isinstance(x, Sym):
            return x
        if isinstance(x, SymArray):
            return cls(x.item())
        return float(x)

    def __instancecheck__(cls, x):
        return isinstance(x, (float, Sym))

    def __eq__(cls, o):
        return o is cls or o is float

    def __hash__(cls):
        return hash(float)

    def __getattr__(cls, n):
        return getattr(float, n)


class BUILTIN_FLOAT(metaclass=_BF):
    """float"""


class SymSparse(object):
    """dense stand-in for a scipy.sparse matrix"""
    __array_ufunc__ = None
    __array_priority__ = 3000

    def __init__(self, a):
        self.a = a

    @property
    def shape(self):
        return self.a.shape

    ndim = 2

    @property
    def T(self):
        return SymSparse(self.a.T)

    def transpose(self):
        return self.T

    def toarray(self):
        return self.a.copy()

    todense = toarray

    def tocsc(self):
        return self

    tocsr = tocoo = tolil = tocsc

    def __matmul__(self, o):
        if isinstance(o, SymSparse):
            return SymSparse(self.a @ o.a)
        return self.a @ o

    def __rmatmul__(self, o):
        return arr(o) @ self.a

    dot = __matmul__
    __mul__ = __matmul__
    __rmul__ = __rmatmul__

    def __add__(self, o):
        return SymSparse(self.a + o.a)


def sparse_ctor(real):
    def f(arg, shape=None, dtype=None, copy=False):
        if isinstance(arg, SymSparse):
            return SymSparse(arg.a)
        if isinstance(arg, tuple) and len(arg) == 2 and isinstance(arg[1], (tuple, list)):
            data, (i, j) = arg
            data = elems(arr(data).flatten())
            i = [int(x) for x in arr(i).flatten()]
            j = [int(x) for x in arr(j).flatten()]
            if shape is None:
                shape = (builtins.max(i) + 1, builtins.max(j) + 1)
            if not (len(data) == len(i) == len(j)):
                raise ValueError('row, column, and data array must all be the same length')
            if i and (builtins.max(i) >= shape[0] or builtins.max(j) >= shape[1] or builtins.min(i) < 0 or
                      builtins.min(j) < 0):
                raise ValueError('index exceeds matrix dimensions')
            r = zeros(tuple(int(x) for x in shape))
            for x, a, b in zip(data, i, j):
                r.view(np.ndarray)[a, b] = r.view(np.ndarray)[a, b] + _num(x)
            return SymSparse(r)
        if isinstance(arg, tuple):
            if len(arg) == 2:
                return SymSparse(zeros(tuple(int(x) for x in arg)))
            raise NeedConcrete('sparse constructor form')
        a = arr(arg)
        return SymSparse(a.astype(np.float64) if a.ndim == 2 else a.reshape(1, -1))
    f.__name__ = getattr(real, '__name__', 'sparse')
    return f


# --------------------------------------------------------------------------- module proxies
class Wrapped(object):
    def __init__(self, f):
        self.f = f
        self.__name__ = getattr(f, '__name__', 'f')
        self.__doc__ = None

    def __call__(self, *a, **k):
        return call(self.f, a, k)

    def __getattr__(self, n):
        return getattr(self.f, n)


class WrappedU(Wrapped):
    def __call__(self, *a, **k):
        return ufunc_handler(self.f, '__call__', *a, **k)

    def reduce(self, *a, **k):
        return ufunc_handler(self.f, 'reduce', *a, **k)

    def outer(self, *a, **k):
        return ufunc_handler(self.f, 'outer', *a, **k)

    def accumulate(self, *a, **k):
        return ufunc_handler(self.f, 'accumulate', *a, **k)

    def at(self, *a, **k):
        return ufunc_handler(self.f, 'at', *a, **k)


class ModProxy(types.ModuleType):
    def __init__(self, real, over=None, name=None):
        types.ModuleType.__init__(self, name or real.__name__)
        d = self.__dict__
        d['_real'] = real
        d['_over'] = over or {}
        d['_cache'] = {}
        d['__path__'] = []
        if hasattr(real, '__all__'):
            d['__all__'] = list(real.__all__)

    def __getattr__(self, n):
        if n in self._over:
            return self._over[n]
        c = self._cache.get(n)
        if c is not None:
            return c
        v = getattr(self._real, n)
        if isinstance(v, np.ufunc):
            v = WrappedU(v)
        elif isinstance(v, type):
            pass
        elif isinstance(v, types.ModuleType):
            v = ModProxy(v)
        elif callable(v):
            v = Wrapped(v)
        self._cache[n] = v
        return v


from .symstr import has_sym as has_symchars   # noqa


def np_vectorize(f, *a, **k):
    """np.vectorize as a loop"""
    def g(*args):
        ns = [to_obj_arr(arr(x) if not isinstance(x, str) else x) if not isinstance(x, str) else _ostr(x)
              for x in args]
        if not any(isinstance(x, (Sym, Cond)) or has_symchars(x) for n in ns for x in n.reshape(-1)):
            return wrap(np.vectorize(f, *a, **k)(*[native(x) for x in args]))
        shape = np.broadcast_shapes(*[n.shape for n in ns])
        ns = [np.broadcast_to(n, shape) for n in ns]
        res = [f(*[n[ix] for n in ns]) for ix in np.ndindex(*shape)]
        if res and all(isinstance(x, Cond) or is_bool(x) for x in res):
            return lift(res, shape)
        o = np.empty(len(res), dtype=object)
        for i, x in enumerate(res):
            o[i] = x
        return wrap_sym(o.reshape(shape))
    return g


def _ostr(x):
    r = np.empty((), dtype=object)
    r[()] = x
    return r


def np_apply_along_axis(f, axis, a, *args, **kw):
    a = arr(a)
    v = np.moveaxis(a.view(np.ndarray), axis, -1)
    outs = []
    for ix in np.ndindex(*v.shape[:-1]):
        row = v[ix].view(SymArray)
        row._k = a._k
        outs.append(f(row, *args, **kw))
    first = arr(outs[0])
    if first.ndim == 0:
        return c_array([arr(o)[()] for o in outs]).reshape(v.shape[:-1])
    r = c_array([list(elems(arr(o))) for o in outs]).reshape(v.shape[:-1] + (first.size,))
    return wrap_sym(np.moveaxis(r.view(np.ndarray), -1, axis))


def np_vstack(tup, **k):
    return _stack_like(np.vstack, tup)


def _stack_like(real, tup, **kw):
    tup = list(tup)
    if not has_sym(tup):
        return wrap(real([native(x) for x in tup], **kw)) if not any(is_objo(x) for x in tup) else \
            wrap_sym(real([obj(x) for x in tup], **kw))
    return wrap_sym(real([to_obj_arr(arr(x)) for x in tup], **kw))


def np_isscalar(a):
    if isinstance(a, (Sym, Cond, SymC)):
        return True
    return np.isscalar(a)


def np_matrix_rank(a, *x, **k):
    return _linalg().matrix_rank(a, *x, **k)


def np_fromiter(it, *a, **k):
    return c_array(list(it))


def np_result_type(*a):
    return np.result_type(*[native(x) if not has_sym(x) else np.float64 for x in a])


def np_errstate(**k):
    return np.errstate(**k)


def build():
    from . import symlinalg
    lin = {k: v for k, v in symlinalg.EXPORT.items()}
    linalg = ModProxy(np.linalg, lin)

    def lin_norm_axis(*a, **k):
        return symlinalg.norm(*a, **k)
    import numpy.matlib as real_matlib

    def repmat(a, m, n):
        a = arr(a)
        if a.ndim == 0:
            a = a.reshape(1, 1)
        elif a.ndim == 1:
            a = a.reshape(1, -1)
        return _stack_tile(a, (int(m), int(n)))
    matlib = ModProxy(real_matlib, {'repmat': repmat})
    over = {
        'ndarray': ND, 'float64': F64, 'float_': F64, 'double': F64, 'linalg': linalg, 'matlib': matlib,
        'vectorize': np_vectorize, 'apply_along_axis': np_apply_along_axis, 'isscalar': np_isscalar,
        'float': BUILTIN_FLOAT, 'fromiter': np_fromiter, 'result_type': np_result_type,
        'finfo': lambda dt=None: np.finfo(np.float64 if dt in (F64, BUILTIN_FLOAT, Sym) else native(dt)),
        'dtype': lambda d, *a: np.dtype(real_dt(d), *a),
        'issubdtype': lambda a, b: np.issubdtype(real_dt(a), real_dt(b)),
        'errstate': np.errstate, 'math': MathProxy(math), 'nditer': _no_nditer,
        'asscalar': lambda a: arr(a).item(), 'round': Wrapped(np.round_),
        'r_': _no_attr('r_'), 'c_': _no_attr('c_'), 'iterable': np.iterable,
        'ndindex': np.ndindex, 'newaxis': None, 'seterr': lambda **k: {},
    }
    for n in CREATE:
        over[n] = _named(CREATE[n], n)
    npx = ModProxy(np, over)
    import re as _re_mod
    from . import symstr
    import scipy
    import scipy.sparse as sps
    import scipy.special as spspec
    import scipy.spatial as spat
    import scipy.linalg as spla
    sp_over = {}
    for n in ('csc_matrix', 'csr_matrix', 'coo_matrix', 'lil_matrix', 'csc_array', 'csr_array', 'coo_array'):
        if hasattr(sps, n):
            sp_over[n] = sparse_ctor(getattr(sps, n))

    def block_diag(mats, format=None, dtype=None):
        ms = [arr(m.a if isinstance(m, SymSparse) else m) for m in mats]
        ms = [m.reshape(1, -1) if m.ndim == 1 else m for m in ms]
        r = zeros((sum(m.shape[0] for m in ms), sum(m.shape[1] for m in ms)))
        i = j = 0
        for m in ms:
            r[i:i + m.shape[0], j:j + m.shape[1]] = m
            i += m.shape[0]
            j += m.shape[1]
        return SymSparse(r)
    sp_over['block_diag'] = block_diag
    sp_over['issparse'] = lambda x: isinstance(x, SymSparse)
    sparse = ModProxy(sps, sp_over)
    sla = ModProxy(spla, {k: v for k, v in symlinalg.EXPORT_SCIPY.items()})
    special = ModProxy(spspec, {})
    spatial = ModProxy(spat, {'ConvexHull': _conv_hull(spat.ConvexHull)})
    scipyx = ModProxy(scipy, {'sparse': sparse, 'special': special, 'spatial': spatial, 'linalg': sla})
    mathx = MathProxy(math)
    return {'numpy': npx, 'numpy.linalg': linalg, 'numpy.matlib': matlib, 'scipy': scipyx, 'scipy.sparse': sparse,
            're': ModProxy(_re_mod, dict(symstr.NAMES)), 'scipy.special': special, 'scipy.spatial': spatial, 'scipy.linalg': sla, 'math': mathx,
            'numpy.core': npx, 'inspect': InspectProxy()}


def _named(f, n):
    def g(*a, **k):
        return f(*a, **k)
    g.__name__ = n
    return g


def _stack_tile(a, reps):
    if _real_dtype(a) == OBJ:
        r = np.tile(a.view(np.ndarray), reps).view(SymArray)
        r._k = a._k
        return r
    return wrap(np.tile(a.view(np.ndarray), reps))


class _no_attr(object):
    def __init__(self, n):
        self.n = n

    def __getitem__(self, k):
        if not has_sym(list(k) if isinstance(k, tuple) else [k]):
            return wrap(getattr(np, self.n)[native(k)])
        try:
            return wrap_sym(getattr(np, self.n)[prep(k)])
        except TypeError:
            raise NeedConcrete(self.n)


def _no_nditer(*a, **k):
    raise NeedConcrete('nditer')


def _conv_hull(real):
    def f(pts, *a, **k):
        if all_const(pts):
            return HullProxy(real(native(pts), *a, **k))
        if not a and not k:
            p = arr(pts)
            if p.ndim == 2 and p.shape[1] in (2, 3) and p.shape[0] > p.shape[1]:
                return SymHull(p)
        raise NeedConcrete('ConvexHull of symbolic points')
    return f


class SymHull(object):
    """convex hull of symbolic points in the plane or in space, with the content scipy documents: the facets in no
    particular orientation or order, in the plane the vertices counterclockwise from any of them.  Each side of a line or
    plane on which a point lies is decided on the path; in space no four points of one plane are considered"""

    def __init__(self, p):
        n, d = p.shape
        self.P = [[p[i, j] for j in range(d)] for i in range(n)]
        self.n, self.ndim, self.points, self.npoints = n, d, p, n
        self._s = {}
        (self._plane if d == 2 else self._space)()

    def _side(self, idx):
        """orientation of the points of increasing numbers idx"""
        if idx not in self._s:
            q = self.P[idx[0]]
            m = [[S(x) - S(y) for x, y in zip(self.P[i], q)] for i in idx[1:]]
            if self.ndim == 2:
                v = m[0][0] * m[1][1] - m[0][1] * m[1][0]
            else:
                v = (m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0]) +
                     m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0]))
            v = S(v)
            self._s[idx] = 1 if bool(v > 0) else (-1 if bool(v < 0) else 0)
        return self._s[idx]

    def side(self, idx):
        o = tuple(sorted(idx))
        sg = 1
        for i in range(len(idx)):
            for j in range(i):
                if idx[j] > idx[i]:
                    sg = -sg
        return sg * self._side(o)

    def between(self, i, j, k):
        """k lies on the segment from i to j, given that the three are on one line"""
        a, b, c = self.P[i], self.P[j], self.P[k]
        v = S(0)
        for x, y, z in zip(a, b, c):
            v = v + (S(z) - S(x)) * (S(z) - S(y))
        return bool(S(v) <= 0)

    def _plane(self):
        nxt = {}
        for i in range(self.n):
            for j in range(self.n):
                if i == j or i in nxt:
                    continue
                ok = True
                for k in range(self.n):
                    if k != i and k != j:
                        t = self.side((i, j, k))
                        if t < 0 or (t == 0 and not self.between(i, j, k)):
                            ok = False
                            break
                if ok:
                    nxt[i] = j
        if not nxt:
            raise NeedConcrete('flat set of points')
        v = [max(nxt)]
        while nxt.get(v[-1], v[0]) != v[0]:
            v.append(nxt[v[-1]])
            if len(v) > self.n:
                raise NeedConcrete('hull of repeated points')
        if len(v) < 3:
            raise NeedConcrete('flat set of points')
        f = [[v[i], v[(i + 1) % len(v)]][::1 if (i + v[0]) % 2 else -1] for i in range(len(v))]
        self._out(v, f)

    def _space(self):
        n = self.n
        f = []
        for i in range(n):
            for j in range(i + 1, n):
                for k in range(j + 1, n):
                    t = set()
                    for m in range(n):
                        if m not in (i, j, k):
                            t.add(self.side((i, j, k, m)))
                            if len(t - {0}) > 1:
                                break
                    if len(t - {0}) > 1:
                        continue
                    if 0 in t:
                        raise core.AssumeFailed()
                    f.append([[i, j, k], [k, i, j], [k, j, i], [j, i, k]][(i + j + 2 * k) % 4])
        f = f[1::2] + f[0::2]
        self._out(sorted(set(x for r in f for x in r)), f)

    def _out(self, v, f):
        self.nsimplex = len(f)
        self._v, self._f = v, f

    @property
    def vertices(self):
        return wrap(np.array(self._v, dtype=np.int32))

    @property
    def simplices(self):
        return wrap(np.array(self._f, dtype=np.int32))

    def __getattr__(self, n):
        raise NeedConcrete('attribute %s of a hull of symbolic points' % n)


class HullProxy(object):
    def __init__(self, h):
        self.h = h

    def __getattr__(self, n):
        return wrap(getattr(self.h, n))


class MathProxy(types.ModuleType):
    def __init__(self, real):
        types.ModuleType.__init__(self, 'math')
        self.__dict__['_real'] = real
        self.__dict__['_over'] = {
            'sqrt': self._m('sqrt', ssqrt), 'fabs': self._m('fabs', sabs), 'ceil': self._m('ceil', lambda x: int(
                -floor_sym(-x))), 'floor': self._m('floor', lambda x: int(floor_sym(x))),
            'cos': self._m('cos', lambda x: strig(x, 'cos')), 'sin': self._m('sin', lambda x: strig(x, 'sin')),
            'isnan': self._m('isnan', lambda x: False), 'isinf': self._m('isinf', lambda x: False),
            'isfinite': self._m('isfinite', lambda x: True), 'trunc': self._m('trunc', lambda x: int(trunc_sym(x))),
            'pow': lambda a, b: spow(a, b) if isinstance(a, Sym) else real.pow(a, b),
            'isclose': self._isclose, 'fsum': lambda xs: builtins.sum(xs) if has_sym(list(xs)) else real.fsum(xs),
            'hypot': lambda *a: ssqrt(builtins.sum(S(x) * x for x in a)) if has_sym(list(a)) else real.hypot(*a),
            'copysign': lambda a, b: (sabs(a) if bool(b >= 0) else -sabs(a)) if has_sym([a, b]) else
            real.copysign(a, b),
        }

    def _isclose(self, a, b, rel_tol=1e-9, abs_tol=0.0):
        if not has_sym([a, b]):
            return self._real.isclose(native(a), native(b), rel_tol=rel_tol, abs_tol=abs_tol)
        return sabs(S(a) - b) <= smax([sabs(S(a)) * rel_tol, sabs(S(b)) * rel_tol, abs_tol])

    def _m(self, n, f):
        real = getattr(self._real if '_real' in self.__dict__ else math, n)

        def g(x):
            if isinstance(x, SymArray) and x.size == 1:
                x = x.item()
            if isinstance(x, Sym):
                r = f(x)
                if n == 'sqrt' and not isinstance(r, Sym) and float(r) != float(r):
                    raise ValueError('math domain error')
                return r
            return real(x)
        return g

    def __getattr__(self, n):
        if n in self._over:
            return self._over[n]
        v = getattr(self._real, n)
        if callable(v):
            def g(*a):
                return v(*[native(x) if not isinstance(x, Cond) else x for x in a])
            return g
        return v


class InspectProxy(types.ModuleType):
    """inspect with a cheaper stack() (no source context); the frames are the same"""
    def __init__(self):
        import inspect
        types.ModuleType.__init__(self, 'inspect')
        self.__dict__['_real'] = inspect

    def stack(self, context=0):
        return self._real.stack(0)[1:]

    def getmodule(self, obj, *a):
        # the symbolic copy of a module answers for its own frames
        g = getattr(obj, 'f_globals', None)
        if g is not None and g.get('__symworld__'):
            from .world import sym_world
            m = sym_world().mods.get(g['__name__'])
            if m is not None:
                return m
        return self._real.getmodule(obj, *a)

    def __getattr__(self, n):
        return getattr(self._real, n)
