"""scipy.sparse on exact values (dense storage behind the sparse interface)."""
from __future__ import annotations
import numpy as _np
from . import sym as S
from .sym import Sym, lift, EngineError
from . import fakenp as F


class SpMat(F.SpBase):
    __array_priority__ = 3000
    __array_ufunc__ = None
    format = 'csr'

    def __init__(self, arg=None, shape=None, dtype=None, copy=False, **k):
        if isinstance(arg, SpMat):
            self.d = arg.d.copy()
        elif isinstance(arg, tuple) and len(arg) == 2 and isinstance(arg[1], tuple):
            data, (row, col) = arg
            data, row, col = list(data), [int(x) for x in row], [int(x) for x in col]
            if shape is None:
                shape = (max(row) + 1 if row else 0, max(col) + 1 if col else 0)
            self.d = F.zeros(shape)
            for v, i, j in zip(data, row, col):
                if i >= shape[0] or j >= shape[1] or i < 0 or j < 0:
                    raise ValueError('row or column index exceeds matrix dimensions')
                self.d[i, j] = self.d[i, j] + v
        elif isinstance(arg, tuple) and len(arg) == 2 and all(isinstance(q, (int, _np.integer)) for q in arg):
            self.d = F.zeros(arg)
        elif isinstance(arg, tuple) and len(arg) == 3:
            data, ind, ptr = arg
            n = len(ptr) - 1
            self.d = F.zeros(shape)
            for i in range(n):
                for q in range(int(ptr[i]), int(ptr[i + 1])):
                    self.d[i, int(ind[q])] = self.d[i, int(ind[q])] + data[q]
        else:
            a = F.asarray(arg)
            if a.ndim == 1:
                a = a.reshape(1, -1)
            self.d = a.copy()

    @classmethod
    def _of(cls, d):
        r = cls.__new__(cls)
        r.d = d if d.ndim == 2 else d.reshape(1, -1)
        return r

    @property
    def shape(self):
        return self.d.shape

    @property
    def ndim(self):
        return 2

    @property
    def dtype(self):
        return _np.dtype(object)

    @property
    def nnz(self):
        return sum(1 for x in self.d.ravel() if x.num)

    @property
    def T(self):
        return type(self)._of(self.d.T.copy())

    def transpose(self, *a, **k):
        return self.T

    def toarray(self, *a, **k):
        return self.d.copy()

    def todense(self, *a, **k):
        return self.d.copy()

    @property
    def A(self):
        return self.d.copy()

    def copy(self):
        return type(self)._of(self.d.copy())

    def astype(self, *a, **k):
        return self.copy()

    def tolil(self, *a, **k):
        return lil_matrix._of(self.d.copy())

    def tocsr(self, *a, **k):
        return csr_matrix._of(self.d.copy())

    def tocsc(self, *a, **k):
        return csc_matrix._of(self.d.copy())

    def tocoo(self, *a, **k):
        return coo_matrix._of(self.d.copy())

    def todok(self, *a, **k):
        return dok_matrix._of(self.d.copy())

    def sum_duplicates(self):
        pass

    def eliminate_zeros(self):
        pass

    def diagonal(self, k=0):
        return F.array([self.d[i, i] for i in range(min(self.d.shape))])

    def sum(self, axis=None, **k):
        return F.sum(self.d, axis)

    def max(self, axis=None, **k):
        return F.amax(self.d, axis)

    def __len__(self):
        raise TypeError('sparse array length is ambiguous; use getnnz()')

    def _idx(self, k):
        if isinstance(k, tuple):
            k = tuple(self._i1(z) for z in k)
            if len(k) == 2 and all(isinstance(z, (list, _np.ndarray)) for z in k):
                return tuple(_np.asarray(z, dtype=int) for z in k)
            return k
        return self._i1(k)

    @staticmethod
    def _i1(z):
        if isinstance(z, Sym):
            return int(z)
        if isinstance(z, list):
            return _np.array([int(q) for q in z], dtype=int)
        return z

    def __getitem__(self, k):
        if isinstance(self, coo_matrix):
            raise TypeError("'coo_matrix' object is not subscriptable")
        k2 = self._idx(k)
        if isinstance(k2, tuple) and all(isinstance(z, (int, _np.integer)) for z in k2):
            return self.d[k2]
        r = self.d[k2]
        if r.ndim == 1:
            if isinstance(k2, tuple) and isinstance(k2[1], (int, _np.integer)):
                r = r.reshape(-1, 1)
            else:
                r = r.reshape(1, -1)
        return type(self)._of(r.copy())

    def __setitem__(self, k, v):
        if isinstance(self, coo_matrix):
            raise TypeError("'coo_matrix' object does not support item assignment")
        if isinstance(v, SpMat):
            v = v.d
        self.d[self._idx(k)] = v

    def _arr(self, o):
        return o.d if isinstance(o, SpMat) else F.asarray(o)

    def __add__(self, o):
        if isinstance(o, SpMat):
            if o.shape != self.shape:
                raise ValueError('inconsistent shapes')
            return csr_matrix._of(self.d + o.d)
        if isinstance(o, (int, float, Sym)):
            if not bool(lift(o) == 0):
                raise NotImplementedError('adding a nonzero scalar to a sparse array is not supported')
            return self.copy()
        return F.asarray(self.d + F.asarray(o))

    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, SpMat):
            if o.shape != self.shape:
                raise ValueError('inconsistent shapes')
            return csr_matrix._of(self.d - o.d)
        return self.d - F.asarray(o)

    def __neg__(self):
        return type(self)._of(-self.d)

    def __matmul__(self, o):
        if isinstance(o, SpMat):
            return csr_matrix._of(F.matmul(self.d, o.d))
        return F.matmul(self.d, o)

    def __rmatmul__(self, o):
        return F.matmul(o, self.d)

    def dot(self, o):
        return self @ o

    def __mul__(self, o):
        if isinstance(o, (int, float, Sym)):
            return type(self)._of(self.d * lift(o))
        return self @ o

    def __rmul__(self, o):
        if isinstance(o, (int, float, Sym)):
            return type(self)._of(self.d * lift(o))
        return F.matmul(o, self.d)

    def multiply(self, o):
        return type(self)._of(self.d * self._arr(o))

    def __truediv__(self, o):
        return type(self)._of(self.d / lift(o))


class lil_matrix(SpMat):
    format = 'lil'


class csr_matrix(SpMat):
    format = 'csr'


class csc_matrix(SpMat):
    format = 'csc'


class coo_matrix(SpMat):
    format = 'coo'


class dok_matrix(SpMat):
    format = 'dok'


lil_array, csr_array, csc_array, coo_array, dok_array = lil_matrix, csr_matrix, csc_matrix, coo_matrix, dok_matrix
spmatrix = sparray = SpMat


def issparse(x):
    return isinstance(x, SpMat)


isspmatrix = issparse


def eye(n, m=None, **k):
    return csr_matrix(F.eye(n, m))


def diags(v, k=0, **kw):
    return csr_matrix(F.diag(v))


def vstack(xs, **k):
    return csr_matrix(F.vstack([x.toarray() if issparse(x) else x for x in xs]))


def hstack(xs, **k):
    return csr_matrix(F.hstack([x.toarray() if issparse(x) else x for x in xs]))


def __getattr__(name):
    if name == 'linalg':
        from . import fakesplinalg
        return fakesplinalg
    if name.startswith('__'):
        raise AttributeError(name)
    raise EngineError('scipy.sparse.%s is not modelled' % name)
