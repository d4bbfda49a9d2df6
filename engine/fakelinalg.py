"""Exact linear algebra on object arrays of Sym."""
from __future__ import annotations
import numpy as _np
from . import sym as S
from .sym import Sym, lift, EngineError
from . import fakenp as F
from .nan import NAN

LinAlgError = _np.linalg.LinAlgError

WATCH = []          # harness hook: called with (A) for every matrix a solve is attempted on


def _rows(A):
    A = F.asarray(A)
    return [list(r) for r in _np.ndarray.tolist(A)]


def _pivot(col, start):
    """index of an entry that is provably nonzero, preferring constants; decides when needed"""
    cand = []
    for i in range(start, len(col)):
        x = col[i]
        if type(x) is Sym and not x.num:
            continue
        if type(x) is Sym and x.is_const:
            return i
        cand.append((len(x.num), i))
    cand.sort()
    for _, i in cand:
        if S.p_sign(col[i].num) in ('pos', 'neg'):
            return i
    for _, i in cand:
        if bool(S.mkcond(col[i], '!=')):
            return i
    return None


def _elim(M, n, ncols):
    """Gauss-Jordan on rows M (n rows); returns (rank==n, det)"""
    det = S.ONE_S
    for k in range(n):
        p = _pivot([M[i][k] for i in range(n)], k)
        if p is None:
            return False, S.ZERO
        if p != k:
            M[k], M[p] = M[p], M[k]
            det = -det
        piv = M[k][k]
        det = det * piv
        inv = S.ONE_S / piv if not piv.is_const or True else None
        rk = M[k]
        for j in range(k, ncols):
            if rk[j].num:
                rk[j] = rk[j] * inv
        nz = [j for j in range(k, ncols) if rk[j].num]
        for i in range(n):
            if i == k:
                continue
            f = M[i][k]
            if not f.num:
                continue
            ri = M[i]
            for j in nz:
                ri[j] = ri[j] - f * rk[j]
    return True, det


def _check_sq(A):
    if A.ndim != 2 or A.shape[0] != A.shape[1]:
        raise LinAlgError('Last 2 dimensions of the array must be square')


def det(A):
    A = F.asarray(A)
    _check_sq(A)
    n = A.shape[0]
    if n == 0:
        return S.ONE_S
    if n == 1:
        return A[0, 0]
    if n == 2:
        return A[0, 0] * A[1, 1] - A[0, 1] * A[1, 0]
    if n == 3:
        a = A
        return (a[0, 0] * (a[1, 1] * a[2, 2] - a[1, 2] * a[2, 1]) - a[0, 1] * (a[1, 0] * a[2, 2] - a[1, 2] * a[2, 0])
                + a[0, 2] * (a[1, 0] * a[2, 1] - a[1, 1] * a[2, 0]))
    ok, d = _elim(_rows(A), n, n)
    return d if ok else S.ZERO


def _blocks(A):
    """connected components of the sparsity pattern of a square matrix (rows/cols together)"""
    n = len(A)
    par = list(range(n))

    def find(i):
        while par[i] != i:
            par[i] = par[par[i]]
            i = par[i]
        return i
    for i in range(n):
        for j in range(n):
            if A[i][j].num:
                a, b = find(i), find(j)
                if a != b:
                    par[a] = b
    comp = {}
    for i in range(n):
        comp.setdefault(find(i), []).append(i)
    return list(comp.values())


def _solve(A, B):
    """A (rows), B (rows) -> X rows, or None when singular"""
    n = len(A)
    m = len(B[0]) if n else 0
    X = [None] * n
    for blk in _blocks(A):
        M = [[A[i][j] for j in blk] + list(B[i]) for i in blk]
        ok, _ = _elim(M, len(blk), len(blk) + m)
        if not ok:
            return None
        for r, i in enumerate(blk):
            X[i] = M[r][len(blk):]
    return X


def inv(A):
    A = F.asarray(A)
    _check_sq(A)
    n = A.shape[0]
    if n == 0:
        return F.zeros((0, 0))
    I = [[S.ONE_S if i == j else S.ZERO for j in range(n)] for i in range(n)]
    X = _solve(_rows(A), I)
    if X is None:
        raise LinAlgError('Singular matrix')
    return F.array(X)


def solve(A, b):
    if isinstance(A, F.SpBase):
        A = A.toarray()
    A, b = F.asarray(A), F.asarray(b)
    _check_sq(A)
    one = b.ndim == 1
    n = A.shape[0]
    if b.shape[0] != n:
        raise ValueError('solve: Input operand 1 has a mismatch in its core dimension 0')
    for w in WATCH:
        w(A)
    B = _rows(b.reshape(n, -1))
    if n == 0:
        return b.copy()
    X = _solve(_rows(A), B)
    if X is None:
        raise LinAlgError('Singular matrix')
    X = F.array(X)
    return X[:, 0] if one else X


def spsolve_exact(A, b):
    for w in WATCH:
        w(A)
    n = A.shape[0]
    B = _rows(b.reshape(n, -1))
    X = _solve(_rows(A), B)
    if X is None:
        r = F.full((n, len(B[0])), S.ZERO)
        for i in _np.ndindex(r.shape):
            _np.ndarray.__setitem__(r, i, NAN)
        return r
    return F.array(X)


def norm(a, ord=None, axis=None, **k):
    a = F.asarray(a)
    if axis is not None:
        return F._reduce(a, axis, lambda l: S.sqrt(F._sum([x * x for x in l])))
    if ord in (None, 2, 'fro'):
        if ord == 2 and a.ndim == 2:
            raise EngineError('spectral norm')
        t = S.ZERO
        for x in a.ravel():
            t = t + x * x
        return S.sqrt(t)
    if ord == F.inf:
        return F.amax(F.abs(a))
    if ord == 1:
        return F.sum(F.abs(a))
    raise EngineError('norm ord=%r' % (ord,))


def matrix_rank(A, *_, **k):
    return len(_rref(_rows(A))[1])


def _rref(M):
    n = len(M)
    m = len(M[0]) if n else 0
    piv = []
    r = 0
    for c in range(m):
        p = _pivot([row[c] for row in M], r)
        if p is None:
            continue
        M[r], M[p] = M[p], M[r]
        inv_ = S.ONE_S / M[r][c]
        M[r] = [x * inv_ for x in M[r]]
        for i in range(n):
            if i != r and M[i][c].num:
                f = M[i][c]
                M[i] = [x - f * y for x, y in zip(M[i], M[r])]
        piv.append(c)
        r += 1
        if r == n:
            break
    return M, piv


def pinv(A, *_, **k):
    """Moore-Penrose inverse by full-rank factorisation A = C R"""
    A = F.asarray(A)
    n, m = A.shape
    M, piv = _rref(_rows(A))
    r = len(piv)
    if r == 0:
        return F.zeros((m, n))
    if r == n == m:
        return inv(A)
    C = A[:, piv]
    R = F.array(M[:r])
    return F.matmul(F.matmul(R.T, inv(F.matmul(F.matmul(C.T, A), R.T))), C.T)


def lstsq(A, b, *_, **k):
    return F.matmul(pinv(A), b), None, matrix_rank(A), None


def cond(A, *_):
    raise EngineError('condition number')


def matrix_power(A, n):
    r = F.eye(F.asarray(A).shape[0])
    for _ in range(n):
        r = F.matmul(r, A)
    return r


def __getattr__(name):
    if name.startswith('__'):
        raise AttributeError(name)
    raise EngineError('numpy.linalg.%s is not modelled' % name)
