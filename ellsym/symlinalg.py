"""numpy.linalg / scipy.linalg for symbolic matrices.

Exact-real semantics.  Eigen-decompositions use closed forms (n <= 2, diagonal matrices) or the orthonormal
eigenbases the harness registered when it built its symbolic matrices (verified in normal form on every use).
Everything else raises NeedConcrete.
"""
import numpy as np

from . import core
from .core import Sym, Cond, NeedConcrete, S, ssqrt, sabs, smax, smin, sdiv, cand, cor, is_num
from .symnp import (arr, native, wrap, has_sym, all_const, mkshape, zeros, elems, merge_sort, _num, _sum, _dotl,
                    _real_dtype, OBJ, SymSparse, matmul)

LinAlgError = np.linalg.LinAlgError
EPS = float(np.finfo(float).eps)
EXPORT = {}
EXPORT_SCIPY = {}


def M(a):
    """array -> list of rows of scalars"""
    a = arr(a)
    return [[_num(x) for x in r] for r in a.view(np.ndarray)]


def A(rows, shape=None):
    n = len(rows)
    m = len(rows[0]) if n else 0
    return mkshape([x for r in rows for x in r], (n, m) if shape is None else shape)


def iszero(x):
    if isinstance(x, Sym):
        return x.r.is_zero()
    return x == 0


def tr(m):
    return [list(c) for c in zip(*m)]


def mm(a, b):
    bt = tr(b)
    return [[_dotl(r, c) for c in bt] for r in a]


def sq2(a, name):
    if a.ndim < 2:
        raise LinAlgError('%d-dimensional array given. Array must be at least two-dimensional' % a.ndim)
    if a.shape[-1] != a.shape[-2]:
        raise LinAlgError('Last 2 dimensions of the array must be square')


def stacked(f):
    """apply f to each trailing matrix, stacking array results"""
    def g(a, *args, **kw):
        a = arr(a)
        if a.ndim <= 2:
            return f(a, *args, **kw)
        outs = [g(a[i], *args, **kw) for i in range(a.shape[0])]
        from .symnp import c_array
        if isinstance(outs[0], tuple):
            return tuple(c_array([o[k] for o in outs]) for k in range(len(outs[0])))
        return c_array(outs)
    return g


def export(*names, **kw):
    def deco(f):
        for n in names:
            real = getattr(np.linalg, n)

            def g(*a, _f=f, _real=real, **k):
                if not has_sym(list(a)) and not has_sym(list(k.values())):
                    return wrap(_real(*native(list(a)), **native(k)))
                if all_const(list(a)) and n not in ('norm',):
                    return wrap(_real(*native(list(a)), **native(k)))
                return _f(*a, **k)
            g.__name__ = n
            EXPORT[n] = g
            from . import symnp
            symnp.H['linalg.' + n] = g
        return f
    return deco


def minor(m, i, j):
    return [[x for c, x in enumerate(r) if c != j] for k, r in enumerate(m) if k != i]


def det_rows(m):
    n = len(m)
    if n == 0:
        return np.float64(1.)
    if n == 1:
        return m[0][0]
    if n == 2:
        return m[0][0] * m[1][1] - m[0][1] * m[1][0]
    # expand along the sparsest row
    best = max(range(n), key=lambda i: sum(1 for x in m[i] if iszero(x)))
    s = 0
    for j in range(n):
        x = m[best][j]
        if iszero(x):
            continue
        d = det_rows(minor(m, best, j))
        s = s + x * d * (1 if (best + j) % 2 == 0 else -1)
    return s


def diag_info(m):
    """(D, V) with m = V diag(D) V', from a registered basis / diagonal shape / n<=1; else None.
    V is None for the standard basis"""
    n = len(m)
    if all(iszero(m[i][j]) for i in range(n) for j in range(n) if i > j):
        return [m[i][i] for i in range(n)], None
    c = core.CTX
    for V in c.bases.get(n, ()):
        try:
            D = mm(tr(V), mm(m, V))
        except NeedConcrete:
            continue
        if all(iszero(D[i][j]) for i in range(n) for j in range(n) if i > j):
            return [D[i][i] for i in range(n)], V
    return None


def sym_lower(m):
    n = len(m)
    return [[m[max(i, j)][min(i, j)] for j in range(n)] for i in range(n)]


def is_symm(m):
    n = len(m)
    return all(iszero(S(m[i][j]) - m[j][i]) if not (m[i][j] is m[j][i]) else True for i in range(n) for j in range(i))


def eig2(m):
    """closed form for symmetric 2x2 with non-zero off-diagonal; returns ascending D and V"""
    a, b, c = S(m[0][0]), S(m[1][0]), S(m[1][1])
    h = (a - c) / 2
    r = ssqrt(h * h + b * b)
    mid = (a + c) / 2
    l1, l2 = mid - r, mid + r
    return l1, l2, r, h, b


def block_eig(m):
    """(D, V) of a symmetric 3x3 matrix that splits into blocks of sizes 1 and 2; else None"""
    for k in range(3):
        o = [i for i in range(3) if i != k]
        if all(iszero(m[max(k, j)][min(k, j)]) for j in o):
            d2, v2 = symm_eig([[m[max(i, j)][min(i, j)] for j in o] for i in o], True)
            D = [None] * 3
            V = [[S(0)] * 3 for _ in range(3)]
            for a, i in enumerate(o):
                D[i] = d2[a]
                for b, j in enumerate(o):
                    V[i][j] = v2[a][b]
            D[k], V[k][k] = m[k][k], S(1)
            return D, V
    return None


def symm_eig(m, vectors):
    """ascending eigenvalues (list) and eigenvectors (rows list) of a symmetric matrix"""
    n = len(m)
    info = diag_info(m)
    if info is None and n == 2:
        l1, l2, r, h, b = eig2(m)
        if not vectors:
            return [l1, l2], None
        if bool(b == 0):
            info = ([m[0][0], m[1][1]], None)
        else:
            # (b, l2 - a) = (b, r - h)
            y = S(r) - h
            nn = ssqrt(S(b) * b + y * y)
            u = [b / nn, y / nn]
            s1 = core.CTX.sign_atom('sg')
            s2 = core.CTX.sign_atom('sg')
            return [l1, l2], [[-(u[1]) * s1, u[0] * s2], [u[0] * s1, u[1] * s2]]
    if info is None and n == 3:
        info = block_eig(m)
    if info is None and n == 3:
        for B in core.CTX.bases.get(n, ()):
            try:
                r = block_eig(mm(tr(B), mm(m, B)))
            except NeedConcrete:
                continue
            if r is not None:
                info = r[0], mm(B, r[1])
                break
    if info is None:
        raise NeedConcrete('eigen-decomposition n=%d' % n)
    D, V = info
    idx = merge_sort(list(range(n)), lambda i, j: bool(D[i] < D[j]))
    vals = [D[i] for i in idx]
    if not vectors:
        return vals, None
    if V is None:
        V = [[np.float64(1. if i == j else 0.) for j in range(n)] for i in range(n)]
        if n == 1:
            return vals, V
        return vals, [[V[i][k] for k in idx] for i in range(n)]
    sg = [core.CTX.sign_atom('sg') for _ in range(n)]
    return vals, [[V[i][k] * sg[k] for k in idx] for i in range(n)]


@export('eigvalsh')
@stacked
def eigvalsh(a, UPLO='L'):
    sq2(a, 'eigvalsh')
    m = sym_lower(M(a))
    if not m:
        return zeros((0,))
    return mkshape(symm_eig(m, False)[0], (len(m),))


@export('eigh')
@stacked
def eigh(a, UPLO='L'):
    sq2(a, 'eigh')
    m = M(a)
    if str(UPLO).upper() == 'U':
        m = [list(r) for r in zip(*m)]
    m = sym_lower(m)
    d, v = symm_eig(m, True)
    return mkshape(d, (len(m),)), A(v)


@export('eigvals')
@stacked
def eigvals(a):
    sq2(a, 'eigvals')
    m = M(a)
    if not is_symm(m):
        raise NeedConcrete('eigenvalues of a non-symmetric matrix')
    return mkshape(symm_eig(m, False)[0], (len(m),))


@export('eig')
@stacked
def eig(a):
    sq2(a, 'eig')
    m = M(a)
    if not is_symm(m):
        raise NeedConcrete('eigenvalues of a non-symmetric matrix')
    n = len(m)
    info = diag_info(m)
    if info is not None and info[1] is not None:
        # repeated eigenvalues: LAPACK's general solver need not return an orthogonal basis
        D = info[0]
        for i in range(n):
            for j in range(i):
                if bool(S(D[i]) == D[j]):
                    raise NeedConcrete('eig with repeated eigenvalues')
    d, v = symm_eig(m, True)
    return mkshape(d, (len(m),)), A(v)


@export('det')
@stacked
def det(a):
    sq2(a, 'det')
    m = M(a)
    info = diag_info(m) if len(m) > 1 and is_symm(m) else None
    if info is not None:
        r = 1
        for x in info[0]:
            r = r * x
        return r if isinstance(r, Sym) else np.float64(r)
    if len(m) > 5:
        raise NeedConcrete('determinant n=%d' % len(m))
    r = det_rows(m)
    return r if isinstance(r, Sym) else np.float64(r)


@export('slogdet')
def slogdet(a):
    raise NeedConcrete('slogdet')


def inv_rows(m):
    n = len(m)
    if n == 0:
        return m
    info = diag_info(m) if n > 1 and is_symm(m) else None
    if info is not None:
        D, V = info
        for x in D:
            if bool(S(x) == 0):
                raise LinAlgError('Singular matrix')
        inv = [S(1) / x for x in D]
        return from_basis(inv, V)
    # orthogonal matrices
    if n > 1:
        P = mm(tr(m), m)
        if all(iszero(S(P[i][j]) - (1 if i == j else 0)) for i in range(n) for j in range(n)):
            return tr(m)
    if n > 4:
        raise NeedConcrete('inverse n=%d' % n)
    d = det_rows(m)
    if bool(S(d) == 0):
        raise LinAlgError('Singular matrix')
    if n == 1:
        return [[S(1) / m[0][0]]]
    return [[S(det_rows(minor(m, j, i))) * (1 if (i + j) % 2 == 0 else -1) / d for j in range(n)] for i in range(n)]


def from_basis(d, V):
    n = len(d)
    if V is None:
        return [[d[i] if i == j else np.float64(0.) for j in range(n)] for i in range(n)]
    W = [[V[i][k] * d[k] for k in range(n)] for i in range(n)]
    return mm(W, tr(V))


@export('inv')
@stacked
def inv(a):
    sq2(a, 'inv')
    return A(inv_rows(M(a)), a.shape)


@export('solve')
def solve(a, b):
    a, b = arr(a), arr(b)
    if a.ndim > 2:
        raise NeedConcrete('stacked solve')
    sq2(a, 'solve')
    i = A(inv_rows(M(a)), a.shape)
    return i @ b


def pinv_rows(m, rcond):
    """pseudo-inverse with relative cutoff rcond; also the rank and singular values if known"""
    nr, nc = len(m), len(m[0]) if m else 0
    if nr == 0 or nc == 0:
        return [[np.float64(0.)] * nr for _ in range(nc)], 0, []
    if nr == nc and is_symm(m):
        info = diag_info(m)
        if info is None and nr == 2:
            d, v = symm_eig(m, True)
            info = (d, v)
        if info is not None:
            D, V = info
            ab = [sabs(S(x)) for x in D]
            mx = smax(ab)
            keep = [bool(S(x) > S(mx) * rcond) for x in ab]
            d = [S(1) / x if k else np.float64(0.) for x, k in zip(D, keep)]
            return from_basis(d, V), sum(keep), ab
    if nc == 1 or nr == 1:
        v = [r[0] for r in m] if nc == 1 else m[0]
        q = S(_sum([S(x) * x for x in v]))
        if bool(q == 0):
            return [[np.float64(0.)] * nr for _ in range(nc)], 0, [np.float64(0.)]
        r = [S(x) / q for x in v]
        return ([r] if nc == 1 else [[x] for x in r]), 1, [ssqrt(q)]
    if nr == nc:
        P = mm(tr(m), m)
        if all(iszero(S(P[i][j]) - (1 if i == j else 0)) for i in range(nr) for j in range(nr)):
            return tr(m), nr, [np.float64(1.)] * nr
        if nr <= 4:
            d = det_rows(m)
            if bool(S(d) != 0):
                return inv_rows(m), nr, None
        raise NeedConcrete('pseudo-inverse of a singular matrix')
    if nr > nc:
        G = mm(tr(m), m)
        return mm(inv_or_need(G), tr(m)), nc, None
    G = mm(m, tr(m))
    return mm(tr(m), inv_or_need(G)), nr, None


def inv_or_need(G):
    try:
        return inv_rows(G)
    except LinAlgError:
        raise NeedConcrete('rank-deficient least squares')


@export('lstsq')
def lstsq(a, b, rcond='warn'):
    a, b = arr(a), arr(b)
    if a.ndim != 2:
        raise LinAlgError('%d-dimensional array given. Array must be two-dimensional' % a.ndim)
    if b.ndim not in (1, 2):
        raise LinAlgError('%d-dimensional array given. Array must be two-dimensional' % b.ndim)
    if a.shape[0] != b.shape[0]:
        raise LinAlgError('Incompatible dimensions')
    if rcond is None or rcond == 'warn':
        rc = EPS * max(a.shape)
        if rcond == 'warn':
            rc = EPS
    elif rcond == -1:
        rc = EPS
    else:
        rc = float(rcond)
    p, rank, sv = pinv_rows(M(a), rc)
    x = A(p, (a.shape[1], a.shape[0])) @ b
    s = mkshape(sorted_desc(sv), (len(sv),)) if sv is not None else zeros((min(a.shape),))
    return x, zeros((0,)), rank, s


def sorted_desc(v):
    idx = merge_sort(list(range(len(v))), lambda i, j: bool(v[i] > v[j]))
    return [v[i] for i in idx]


@export('pinv')
@stacked
def pinv(a, rcond=1e-15, hermitian=False):
    if a.ndim < 2:
        raise LinAlgError('%d-dimensional array given. Array must be at least two-dimensional' % a.ndim)
    p, _, _ = pinv_rows(M(a), rcond)
    return A(p, (a.shape[1], a.shape[0]))


def householder(x):
    """dlarfg on the list x: (H rows, beta) with H x = beta e1"""
    n = len(x)
    ident = [[np.float64(1. if i == j else 0.) for j in range(n)] for i in range(n)]
    if n <= 1:
        return ident, x[0]
    rest = S(_sum([S(t) * t for t in x[1:]]))
    if bool(rest == 0):
        return ident, x[0]
    nrm = ssqrt(rest + S(x[0]) * x[0])
    beta = -nrm if bool(S(x[0]) >= 0) else nrm
    tau = (S(beta) - x[0]) / beta
    sc = S(x[0]) - beta
    v = [np.float64(1.)] + [S(t) / sc for t in x[1:]]
    H = [[(1 if i == j else 0) - tau * v[i] * v[j] for j in range(n)] for i in range(n)]
    return H, beta


@export('qr')
def qr(a, mode='reduced'):
    a = arr(a)
    if a.ndim != 2:
        raise LinAlgError('%d-dimensional array given. Array must be two-dimensional' % a.ndim)
    nr, nc = a.shape
    R = M(a)
    Q = [[np.float64(1. if i == j else 0.) for j in range(nr)] for i in range(nr)]
    for k in range(min(nr, nc)):
        x = [R[i][k] for i in range(k, nr)]
        H, beta = householder(x)
        if len(x) > 1:
            sub = mm(H, [R[i][k:] for i in range(k, nr)])
            for i in range(k, nr):
                R[i] = [np.float64(0.)] * k + sub[i - k]
                if i > k:
                    R[i][k] = np.float64(0.)
            R[k][k] = beta
            qs = mm([r[k:] for r in Q], H)
            for i in range(nr):
                Q[i] = Q[i][:k] + qs[i]
    if mode in ('reduced', 'economic'):
        K = min(nr, nc)
        return A([r[:K] for r in Q]), A([R[i] for i in range(K)])
    if mode == 'complete':
        return A(Q), A(R)
    if mode == 'r':
        return A([R[i] for i in range(min(nr, nc))])
    raise NeedConcrete('qr mode')


@export('svd')
@stacked
def svd(a, full_matrices=True, compute_uv=True, hermitian=False):
    if a.ndim < 2:
        raise LinAlgError('%d-dimensional array given. Array must be at least two-dimensional' % a.ndim)
    m = M(a)
    nr, nc = a.shape
    if nc == 1 or nr == 1:
        v = [r[0] for r in m] if nc == 1 else list(m[0])
        H, beta = householder(v)
        neg = bool(S(beta) < 0)
        s = -beta if neg else beta
        if not compute_uv:
            return mkshape([s], (1,))
        one = np.float64(-1. if neg else 1.)
        if not full_matrices:
            H = [[r[0]] for r in H]
        if nc == 1:
            return A(H), mkshape([s], (1,)), mkshape([one], (1, 1))
        return mkshape([one], (1, 1)), mkshape([s], (1,)), A(tr(H))
    if nr == nc and is_symm(m):
        info = diag_info(m)
        if info is None and nr == 2:
            info = symm_eig(m, True)
        if info is not None:
            D, V = info
            if V is None:
                V = [[np.float64(1. if i == j else 0.) for j in range(nr)] for i in range(nr)]
            ab = [sabs(S(x)) for x in D]
            idx = merge_sort(list(range(nr)), lambda i, j: bool(ab[i] > ab[j]))
            s = mkshape([ab[i] for i in idx], (nr,))
            if not compute_uv:
                return s
            sg = [core.CTX.sign_atom('sg') for _ in range(nr)]
            U = [[V[i][k] * sg[k] for k in idx] for i in range(nr)]
            W = [[V[i][k] * sg[k] * (1 if bool(S(D[k]) >= 0) else -1) for i in range(nr)] for k in idx]
            return A(U), s, A(W)
    if nr >= nc:
        G = mm(tr(m), m)
        vals, V = symm_eig(G, True)
        vals = vals[::-1]
        V = [r[::-1] for r in V]
        sv = [ssqrt(x) for x in vals]
        if not compute_uv:
            return mkshape(sv, (nc,))
        if nr != nc and full_matrices:
            raise NeedConcrete('full svd of a rectangular matrix')
        cols = []
        AV = tr(mm(m, V))
        for k in range(nc):
            if bool(S(sv[k]) == 0):
                raise NeedConcrete('svd of a singular matrix')
            cols.append([x / sv[k] for x in AV[k]])
        return A(tr(cols)), mkshape(sv, (nc,)), A(tr(V))
    u, s, vh = svd(a.T, full_matrices, True)
    if not compute_uv:
        return s
    return vh.T, s, u.T


@export('norm')
def norm(x, ord=None, axis=None, keepdims=False):
    from .symnp import _axes_apply
    x = arr(x)
    if ord is None or (ord == 2 and (x.ndim == 1 or axis is not None and not isinstance(axis, tuple))) or \
            ord == 'fro':
        if axis is None and ord is None:
            r = ssqrt(_sum([_num(e) * _num(e) for e in elems(x)]))
            return mkshape([r], (1,) * x.ndim) if keepdims else r
        return _axes_apply(x, axis, keepdims, lambda l: ssqrt(_sum([_num(e) * _num(e) for e in l])))
    if x.ndim == 1 or (axis is not None and not isinstance(axis, tuple)):
        f = {1: lambda l: _sum([sabs(_num(e)) for e in l]), np.inf: lambda l: smax([sabs(_num(e)) for e in l]),
             -np.inf: lambda l: smin([sabs(_num(e)) for e in l])}.get(ord)
        if f is None:
            raise NeedConcrete('norm order')
        return _axes_apply(x, axis, keepdims, f)
    if x.ndim == 2:
        m = M(x)
        if ord == 2:
            return svd(x, compute_uv=False)[0]
        if ord in (1, np.inf):
            rows = tr(m) if ord == 1 else m
            return smax([_sum([sabs(_num(e)) for e in r]) for r in rows])
    raise NeedConcrete('norm')


@export('matrix_rank')
def matrix_rank(a, tol=None, hermitian=False):
    a = arr(a)
    if a.ndim < 2:
        return int(not bool(cand(*[_num(x) == 0 for x in elems(a)])))
    if a.ndim > 2:
        raise NeedConcrete('stacked rank')
    m = M(a)
    nr, nc = a.shape
    if nr == nc and is_symm(m):
        d, _ = symm_eig(m, False)
        sv = [sabs(S(x)) for x in d]
    else:
        sv = elems(svd(a, compute_uv=False))
    mx = smax(sv)
    t = S(mx) * (max(nr, nc) * EPS) if tol is None else S(tol)
    return int(sum(1 for x in sv if bool(S(x) > t)))


@export('matrix_power')
def matrix_power(a, n):
    a = arr(a)
    sq2(a, 'matrix_power')
    n = int(n)
    if n < 0:
        a = EXPORT['inv'](a)
        n = -n
    r = A([[np.float64(1. if i == j else 0.) for j in range(a.shape[0])] for i in range(a.shape[0])])
    for _ in range(n):
        r = r @ a
    return r


@export('cond')
def cond(a, p=None):
    s = svd(arr(a), compute_uv=False)
    return sdiv(s[0], s[-1])


@export('cholesky')
@stacked
def cholesky(a):
    sq2(a, 'cholesky')
    m = M(a)
    n = len(m)
    L = [[np.float64(0.)] * n for _ in range(n)]
    for j in range(n):
        s = S(m[j][j]) - _sum([S(L[j][k]) * L[j][k] for k in range(j)])
        if not bool(s > 0):
            raise LinAlgError('Matrix is not positive definite')
        L[j][j] = ssqrt(s)
        for i in range(j + 1, n):
            L[i][j] = (S(m[i][j]) - _sum([S(L[i][k]) * L[j][k] for k in range(j)])) / L[j][j]
    return A(L)


@export('multi_dot')
def multi_dot(arrays, **k):
    r = arr(arrays[0])
    for x in arrays[1:]:
        r = r @ x
    return r


EXPORT['LinAlgError'] = LinAlgError


def sc(name):
    import scipy.linalg as spla
    real = getattr(spla, name)

    def deco(f):
        def g(*a, **k):
            if not has_sym(list(a)) or all_const(list(a)):
                return wrap(real(*native(list(a)), **native(k)))
            return f(*a, **k)
        g.__name__ = name
        EXPORT_SCIPY[name] = g
        return g
    return deco


@sc('sqrtm')
def sp_sqrtm(a, disp=True, blocksize=64):
    a = arr(a)
    m = M(a)
    if not is_symm(m):
        raise NeedConcrete('sqrtm of a non-symmetric matrix')
    d, v = symm_eig(m, True)
    for x in d:
        if bool(S(x) < 0):
            raise NeedConcrete('complex square root')
    return A(from_basis([ssqrt(x) for x in d], v))


def _same(n):
    f = EXPORT[n]

    def g(a, *args, **kw):
        for k in ('check_finite', 'overwrite_a', 'overwrite_b'):
            kw.pop(k, None)
        return f(a, *args, **kw)
    return g


for _n in ('norm', 'det', 'eigh', 'eigvalsh', 'inv', 'solve', 'pinv'):
    EXPORT_SCIPY[_n] = _same(_n)


@sc('svd')
def sp_svd(a, full_matrices=True, compute_uv=True, **kw):
    return EXPORT['svd'](a, full_matrices, compute_uv)


@sc('qr')
def sp_qr(a, overwrite_a=False, lwork=None, mode='full', pivoting=False, check_finite=True):
    if pivoting:
        raise NeedConcrete('pivoted qr')
    return EXPORT['qr'](a, {'full': 'complete', 'economic': 'reduced'}.get(mode, mode))


@sc('block_diag')
def sp_block_diag(*ms):
    ms = [arr(m) for m in ms]
    ms = [m.reshape(1, -1) if m.ndim < 2 else m for m in ms]
    r = zeros((sum(m.shape[0] for m in ms), sum(m.shape[1] for m in ms)))
    i = j = 0
    for m in ms:
        r[i:i + m.shape[0], j:j + m.shape[1]] = m
        i += m.shape[0]
        j += m.shape[1]
    return r
