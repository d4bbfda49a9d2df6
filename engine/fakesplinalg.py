from . import fakenp as F
from . import fakelinalg as L
from .fakesp import SpMat
from .sym import EngineError


class MatrixRankWarning(UserWarning):
    pass


def spsolve(A, b, *a, **k):
    if isinstance(A, SpMat):
        A = A.toarray()
    if isinstance(b, SpMat):
        b = b.toarray()
    A, b = F.asarray(A), F.asarray(b)
    if A.ndim != 2 or A.shape[0] != A.shape[1]:
        raise ValueError('matrix must be square (has shape %s)' % (A.shape,))
    if A.shape[0] != b.shape[0]:
        raise ValueError('matrix - rhs dimension mismatch')
    X = L.spsolve_exact(A, b)
    if b.ndim == 1 or b.shape[1] == 1:
        return X[:, 0]
    return X


class _LU:
    def __init__(self, A):
        self.A = A

    def solve(self, b):
        b = F.asarray(b)
        r = spsolve(self.A, b)
        return r.reshape(b.shape)


def splu(A, *a, **k):
    return _LU(A)


factorized = lambda A: _LU(A).solve


def __getattr__(name):
    if name.startswith('__'):
        raise AttributeError(name)
    raise EngineError('scipy.sparse.linalg.%s is not modelled' % name)
