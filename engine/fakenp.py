"""numpy on exact symbolic reals: object arrays of Sym, exact linear algebra."""
from __future__ import annotations
import numpy as _np
from . import sym as S
from .sym import Sym, lift, Cond, EngineError
from .nan import NaN, NAN
from .fakemath import pi, isclose as _misclose, close_sym as _close_sym

_KEEP = (bool, int, str, _np.bool_, _np.integer)


def _is_num_obj(x):
    return isinstance(x, (Sym, NaN))


def _keep_dtype(dt):
    """dtypes that stay native (indices, masks, strings)"""
    if dt is None:
        return None
    try:
        d = _np.dtype(dt)
    except TypeError:
        return None
    if d.kind in 'biuSU':
        return d
    return None


class SArr(_np.ndarray):
    __array_priority__ = 2000

    def astype(self, dtype, *a, **k):
        d = _keep_dtype(dtype)
        if d is None:
            return self.copy()
        if self.dtype == object:
            flat = [int(x) if d.kind in 'iu' else bool(x) for x in self.ravel().tolist()]
            return _np.array(flat, dtype=d).reshape(self.shape)
        return _np.ndarray.astype(self, d)

    def __matmul__(self, o):
        return matmul(self, o)

    def __rmatmul__(self, o):
        return matmul(o, self)

    def dot(self, o, out=None):
        return dot(self, o)

    def round(self, decimals=0, out=None):
        return self.copy()

    def _key(self, k):
        def one(z):
            if isinstance(z, Sym):
                return z.__index__()
            if isinstance(z, _np.ndarray) and z.dtype == object:
                l = z.ravel().tolist()
                if l and all(isinstance(q, (Cond, bool, _np.bool_)) for q in l):
                    return _np.array([bool(q) for q in l]).reshape(z.shape)
                return _np.array([int(q) for q in l], dtype=int).reshape(z.shape)
            return z
        if isinstance(k, tuple):
            return tuple(one(z) for z in k)
        return one(k)

    def __getitem__(self, k):
        return _np.ndarray.__getitem__(self, self._key(k))

    def __setitem__(self, k, v):
        if self.dtype == object:
            if isinstance(v, (int, float, _np.integer, _np.floating)) and not isinstance(v, bool):
                v = lift(v)
            elif isinstance(v, _np.ndarray) or isinstance(v, (list, tuple)):
                v = asarray(v)
        _np.ndarray.__setitem__(self, self._key(k), v)

    def max(self, axis=None, **k):
        return amax(self, axis)

    def min(self, axis=None, **k):
        return amin(self, axis)

    def any(self, axis=None, **k):
        return any(self, axis)

    def all(self, axis=None, **k):
        return all(self, axis)

    def argmax(self, axis=None, **k):
        return argmax(self, axis)

    def argmin(self, axis=None, **k):
        return argmin(self, axis)

    def mean(self, axis=None, **k):
        return mean(self, axis)

    def toarray(self):
        return self

    def __float__(self):
        raise EngineError('float() of an array outside the shim')


def _wrap(a):
    if isinstance(a, _np.ndarray):
        if a.dtype.kind in 'fc':
            b = _np.empty(a.shape, dtype=object)
            for i in _np.ndindex(a.shape):
                b[i] = lift(float(a[i]))
            a = b
        return a.view(SArr)
    return a


def _lift_obj(a):
    """make every numeric entry of an object array a Sym"""
    if a.dtype == object:
        f = a.reshape(-1)
        for i in range(f.size):
            x = _np.ndarray.__getitem__(f, i)
            if type(x) is not Sym:
                y = lift(x) if not isinstance(x, (Cond,)) else x
                if y is not NotImplemented and y is not x:
                    _np.ndarray.__setitem__(f, i, y)
        return f.reshape(a.shape)
    return a


def _flat_is_native(x):
    """True for (nested) sequences holding only bool/str/None or native int index arrays"""
    return False


def array(x, dtype=None, copy=True, **k):
    d = _keep_dtype(dtype)
    if d is not None:
        if isinstance(x, _np.ndarray) and x.dtype == object:
            return x.view(SArr).astype(d)
        def conv(z):
            if isinstance(z, (list, tuple)):
                return [conv(q) for q in z]
            if isinstance(z, (Sym, Cond)):
                return int(z) if d.kind in 'iu' else bool(z)
            return z
        return _np.array(conv(x), dtype=d)
    if isinstance(x, SpBase):
        return x.toarray()
    if isinstance(x, _np.ndarray):
        if x.dtype.kind in 'bSU':
            return x.copy()
        r = _np.array(x, dtype=object)
    else:
        if not isinstance(x, (list, tuple)) and hasattr(x, '__iter__') and not isinstance(x, str):
            x = list(x)
        # sequences of pure bools / strings stay native
        flat = []
        def walk(z):
            if isinstance(z, (list, tuple)):
                for q in z:
                    walk(q)
            elif isinstance(z, _np.ndarray):
                flat.extend(z.ravel().tolist())
            else:
                flat.append(z)
        walk(x)
        if flat and builtin_all(isinstance(z, (bool, _np.bool_, Cond)) for z in flat):
            def cb(z):
                if isinstance(z, (list, tuple)):
                    return [cb(q) for q in z]
                return bool(z) if isinstance(z, Cond) else z
            return _np.array(cb(x))
        if flat and builtin_all(isinstance(z, str) for z in flat):
            return _np.array(x)
        r = _np.array(x, dtype=object)
    if k.get('ndmin'):
        r = _np.array(r, ndmin=int(k['ndmin']), dtype=object)
    return _lift_obj(r).view(SArr)


builtin_all = __builtins__['all'] if isinstance(__builtins__, dict) else __builtins__.all
builtin_any = __builtins__['any'] if isinstance(__builtins__, dict) else __builtins__.any


def asarray(x, dtype=None, **k):
    if isinstance(x, SArr) and x.dtype == object and _keep_dtype(dtype) is None:
        return x
    return array(x, dtype)


asanyarray = ascontiguousarray = asarray
matrix = array


def _shape(shape):
    if isinstance(shape, (int, _np.integer, Sym)):
        return (int(shape),)
    return tuple(int(s) for s in shape)


def full(shape, fill_value, dtype=None, **k):
    d = _keep_dtype(dtype)
    if d is not None:
        return _np.full(_shape(shape), fill_value, dtype=d)
    if isinstance(fill_value, _np.ndarray):
        r = _np.empty(_shape(shape), dtype=object)
        r[...] = asarray(fill_value)
        return r.view(SArr)
    v = lift(fill_value)
    if v is NotImplemented:
        v = fill_value
    a = _np.empty(_shape(shape), dtype=object)
    a.fill(v)
    return a.view(SArr)


def zeros(shape, dtype=None, *a, **k):
    d = _keep_dtype(dtype)
    if d is not None and d.kind != 'i':
        return _np.zeros(_shape(shape), dtype=d)
    if d is not None and d.kind == 'i':
        return _np.zeros(_shape(shape), dtype=d)
    return full(shape, S.ZERO)


def ones(shape, dtype=None, *a, **k):
    d = _keep_dtype(dtype)
    if d is not None:
        return _np.ones(_shape(shape), dtype=d)
    return full(shape, S.ONE_S)


def empty(shape, dtype=None, *a, **k):
    return zeros(shape, dtype)


def zeros_like(a, dtype=None, **k):
    return zeros(_np.shape(a), dtype)


def ones_like(a, dtype=None, **k):
    return ones(_np.shape(a), dtype)


def empty_like(a, dtype=None, **k):
    return zeros(_np.shape(a), dtype)


def full_like(a, v, dtype=None, **k):
    return full(_np.shape(a), v, dtype)


def eye(n, m=None, k=0, dtype=None, **kw):
    m = n if m is None else m
    r = zeros((n, m))
    for i in range(int(n)):
        if 0 <= i + k < m:
            r[i, i + k] = S.ONE_S
    return r


def identity(n, dtype=None, **k):
    return eye(n)


def diag(v, k=0):
    v = asarray(v)
    if v.ndim == 1:
        r = zeros((len(v), len(v)))
        for i, x in enumerate(v):
            r[i, i] = x
        return r
    return _np.diag(v, k)


def linspace(a, b, num=50, endpoint=True, **k):
    a, b = lift(a), lift(b)
    num = int(num)
    n = num - 1 if endpoint else num
    return array([a + (b - a) * i / n if n else a for i in range(num)]) if num else zeros(0)


def arange(*a, **k):
    if builtin_all(isinstance(x, (int, _np.integer)) for x in a):
        return _np.arange(*a)
    start, stop, step = S.ZERO, None, S.ONE_S
    if len(a) == 1:
        stop = lift(a[0])
    elif len(a) == 2:
        start, stop = map(lift, a)
    else:
        start, stop, step = map(lift, a)
    out = []
    x = start
    while x < stop:
        out.append(x)
        x = x + step
    return array(out)


def _dotprod(ra, cb):
    t = S.ZERO
    for x, y in zip(ra, cb):
        if type(x) is Sym and not x.num:
            continue
        if type(y) is Sym and not y.num:
            continue
        t = t + x * y
    return t


def matmul(a, b, out=None, **k):
    if isinstance(a, SpBase):
        a = a.toarray()
    if isinstance(b, SpBase):
        b = b.toarray()
    a, b = asarray(a), asarray(b)
    if a.ndim > 2 or b.ndim > 2:
        raise EngineError('matmul of >2 dims')
    if a.ndim == 0 or b.ndim == 0:
        raise ValueError('matmul: Input operand does not have enough dimensions')
    a1, b1 = a.ndim == 1, b.ndim == 1
    A = a.reshape(1, -1) if a1 else a
    B = b.reshape(-1, 1) if b1 else b
    if A.shape[1] != B.shape[0]:
        raise ValueError('matmul: Input operand 1 has a mismatch in its core dimension 0')
    n, p = A.shape[0], B.shape[1]
    rows = _np.ndarray.tolist(A)
    cols = _np.ndarray.tolist(B.T)
    nz = [[j for j, y in enumerate(c) if not (type(y) is Sym and not y.num)] for c in cols]
    R = _np.empty((n, p), dtype=object)
    for i, r in enumerate(rows):
        rz = [not (type(x) is Sym and not x.num) for x in r]
        for j, c in enumerate(cols):
            t = S.ZERO
            for q in nz[j]:
                if rz[q]:
                    t = t + r[q] * c[q]
            R[i, j] = t
    R = R.view(SArr)
    if a1 and b1:
        return R[0, 0]
    if a1:
        return R[0]
    if b1:
        return R[:, 0]
    return R


def dot(a, b, out=None):
    if _np.ndim(a) == 0 or _np.ndim(b) == 0:
        return asarray(a) * asarray(b) if (_np.ndim(a) or _np.ndim(b)) else lift(a) * lift(b)
    return matmul(a, b)


inner = dot
vdot = dot


def cross(a, b, *args, **k):
    a, b = asarray(a), asarray(b)
    if a.ndim != 1 or b.ndim != 1:
        raise EngineError('cross of stacked vectors')
    if len(a) == 2:
        a = array(list(a) + [0])
    if len(b) == 2:
        b = array(list(b) + [0])
    return array([a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]])


def outer(a, b, out=None):
    a, b = asarray(a).ravel(), asarray(b).ravel()
    return array([[x * y for y in b] for x in a])


def _ew(f):
    def g(a, b, *args, **k):
        a, b = asarray(a), asarray(b)
        return _wrap(f(a, b))
    return g


def _un(x):
    """0-d results come back as scalars"""
    if isinstance(x, _np.ndarray) and x.ndim == 0:
        return x[()]
    return x


def add(a, b, *_, **k):
    return _un(asarray(a) + asarray(b))


def subtract(a, b, *_, **k):
    return _un(asarray(a) - asarray(b))


def multiply(a, b, *_, **k):
    return _un(asarray(a) * asarray(b))


def divide(a, b, *_, **k):
    return _un(asarray(a) / asarray(b))


true_divide = divide


def negative(a, *_, **k):
    return _un(-asarray(a))


def power(a, b, *_, **k):
    return _un(asarray(a) ** asarray(b))


def square(a, *_, **k):
    return _un(asarray(a) * asarray(a))


def _map(f, a):
    if not isinstance(a, (_np.ndarray, list, tuple)):
        return f(lift(a))
    a = asarray(a)
    r = _np.empty(a.shape, dtype=object)
    for i in _np.ndindex(a.shape):
        r[i] = f(a[i])
    return _un(r.view(SArr))


def abs(a, *_, **k):
    return _map(lambda x: x.__abs__(), a)


absolute = fabs = abs


def sqrt(a, *_, **k):
    return _map(S.sqrt, a)


def sin(a, *_, **k):
    from . import fakemath
    return _map(fakemath.sin, a)


def cos(a, *_, **k):
    from . import fakemath
    return _map(fakemath.cos, a)


def tan(a, *_, **k):
    from . import fakemath
    return _map(fakemath.tan, a)


def arccos(a, *_, **k):
    from . import fakemath
    return _map(fakemath.acos, a)


def arctan2(a, b, *_, **k):
    from . import fakemath
    return fakemath.atan2(a, b)


def sign(a, *_, **k):
    return _map(lambda x: S.ONE_S if x > 0 else (-S.ONE_S if x < 0 else S.ZERO), a)


def around(a, decimals=0, out=None):
    return _map(lambda x: x, a)


round = round_ = around


def clip(a, lo, hi, *_, **k):
    def f(x):
        if lo is not None and x < lo:
            return lift(lo)
        if hi is not None and x > hi:
            return lift(hi)
        return x
    return _map(f, a)


def hypot(a, b, *_):
    return sqrt(square(a) + square(b))


def _reduce(a, axis, f):
    a = asarray(a)
    if axis is None:
        return f(list(_np.ndarray.tolist(a.ravel())))
    axis = int(axis) % a.ndim
    m = _np.moveaxis(a, axis, -1)
    r = _np.empty(m.shape[:-1], dtype=object)
    for i in _np.ndindex(r.shape):
        r[i] = f(list(_np.ndarray.tolist(m[i])))
    return r.view(SArr)


def _bmax(l):
    if not l:
        raise ValueError('zero-size array to reduction operation maximum which has no identity')
    m = l[0]
    for x in l[1:]:
        if x > m:
            m = x
    return m


def _bmin(l):
    if not l:
        raise ValueError('zero-size array to reduction operation minimum which has no identity')
    m = l[0]
    for x in l[1:]:
        if x < m:
            m = x
    return m


def amax(a, axis=None, *_, **k):
    return _reduce(a, axis, _bmax)


def amin(a, axis=None, *_, **k):
    return _reduce(a, axis, _bmin)


max = nanmax = amax
min = nanmin = amin


def argmax(a, axis=None, *_, **k):
    l = list(asarray(a).ravel())
    m = 0
    for i in range(1, len(l)):
        if l[i] > l[m]:
            m = i
    return m


def argmin(a, axis=None, *_, **k):
    l = list(asarray(a).ravel())
    m = 0
    for i in range(1, len(l)):
        if l[i] < l[m]:
            m = i
    return m


def maximum(a, b, *_, **k):
    a, b = _np.broadcast_arrays(asarray(a), asarray(b))
    r = _np.empty(a.shape, dtype=object)
    for i in _np.ndindex(a.shape):
        r[i] = a[i] if a[i] >= b[i] else b[i]
    return _un(r.view(SArr))


def minimum(a, b, *_, **k):
    a, b = _np.broadcast_arrays(asarray(a), asarray(b))
    r = _np.empty(a.shape, dtype=object)
    for i in _np.ndindex(a.shape):
        r[i] = a[i] if a[i] <= b[i] else b[i]
    return _un(r.view(SArr))


def _sum(l):
    t = S.ZERO
    for x in l:
        t = t + x
    return t


def sum(a, axis=None, *_, **k):
    if not isinstance(a, (_np.ndarray, list, tuple)) and hasattr(a, '__iter__'):
        a = list(a)
    return _reduce(a, axis, _sum)


nansum = sum


def mean(a, axis=None, *_, **k):
    a = asarray(a)
    n = a.size if axis is None else a.shape[axis]
    return sum(a, axis) / n


average = mean


def prod(a, axis=None, *_, **k):
    def f(l):
        t = S.ONE_S
        for x in l:
            t = t * x
        return t
    return _reduce(a, axis, f)


def cumsum(a, axis=None, *_, **k):
    l = []
    t = S.ZERO
    for x in asarray(a).ravel():
        t = t + x
        l.append(t)
    return array(l)


def trapezoid(y, x=None, dx=1, axis=-1):
    y = list(asarray(y))
    t = S.ZERO
    for i in range(len(y) - 1):
        h = (lift(x[i + 1]) - lift(x[i])) if x is not None else lift(dx)
        t = t + (y[i] + y[i + 1]) * h / 2
    return t


trapz = trapezoid


def _blist(a):
    if isinstance(a, _np.ndarray):
        return [bool(x) for x in a.ravel().tolist()]
    if isinstance(a, (list, tuple)):
        out = []
        for x in a:
            out += _blist(x)
        return out
    if hasattr(a, '__iter__') and not isinstance(a, str):
        return _blist(list(a))
    return [bool(a)]


def any(a, axis=None, *_, **k):
    if axis is not None:
        return _np.any(_np.vectorize(bool, otypes=[bool])(a), axis)
    return builtin_any(_blist(a))


def all(a, axis=None, *_, **k):
    if axis is not None:
        return _np.all(_np.vectorize(bool, otypes=[bool])(a), axis)
    return builtin_all(_blist(a))


def isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    def f(x, y):
        if isinstance(x, NaN) or isinstance(y, NaN):
            return False
        d = x - y
        if d.is_const and x.is_const and y.is_const:
            from fractions import Fraction as F
            return builtins_abs(F(d.cval)) <= F(lift(atol).cval) + F(lift(rtol).cval) * builtins_abs(F(y.cval))
        from fractions import Fraction as F
        return _close_sym(x, y, d, rtol, atol, F(1, 10**8), 1)
    if not isinstance(a, (_np.ndarray, list, tuple)) and not isinstance(b, (_np.ndarray, list, tuple)):
        return f(lift(a), lift(b))
    a, b = _np.broadcast_arrays(asarray(a), asarray(b))
    r = _np.empty(a.shape, dtype=bool)
    for i in _np.ndindex(a.shape):
        r[i] = f(a[i], b[i])
    return r


import builtins as _bi
builtins_abs = _bi.abs


def allclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    return bool(_np.all(isclose(a, b, rtol, atol)))


def array_equal(a, b, **k):
    a, b = asarray(a), asarray(b)
    return a.shape == b.shape and builtin_all(bool(x == y) for x, y in zip(a.ravel(), b.ravel()))


def isnan(a, *_, **k):
    if isinstance(a, (_np.ndarray, list)):
        a = asarray(a)
        r = _np.empty(a.shape, dtype=bool)
        for i in _np.ndindex(a.shape):
            r[i] = isinstance(a[i], NaN)
        return r
    return isinstance(a, NaN)


def isfinite(a, *_, **k):
    return _np.logical_not(isnan(a)) if isinstance(a, (_np.ndarray, list)) else not isnan(a)


def isinf(a, *_, **k):
    return _np.zeros(_np.shape(a), dtype=bool) if isinstance(a, (_np.ndarray, list)) else False


def nan_to_num(a, *_, **k):
    return _map(lambda x: S.ZERO if isinstance(x, NaN) else x, a)


def where(c, *xy):
    if isinstance(c, _np.ndarray) and c.dtype == object:
        c = _np.array(_blist(c)).reshape(c.shape)
    elif isinstance(c, Cond):
        c = bool(c)
    if not xy:
        return _np.where(c)
    x, y = (asarray(z) for z in xy)
    c, x, y = _np.broadcast_arrays(c, x, y)
    r = _np.empty(c.shape, dtype=object)
    for i in _np.ndindex(c.shape):
        r[i] = x[i] if c[i] else y[i]
    return _un(r.view(SArr))


def insert(a, i, v, axis=None):
    if isinstance(v, (_np.ndarray, list, tuple)):
        v = asarray(v)
    else:
        v = lift(v)
    if isinstance(i, Sym):
        i = int(i)
    return _wrap(_np.insert(asarray(a), i, v, axis))


def append(a, v, axis=None):
    return _wrap(_np.append(asarray(a), asarray(v), axis))


def atleast_1d(a):
    return _wrap(_np.atleast_1d(asarray(a)))


def atleast_2d(a):
    return _wrap(_np.atleast_2d(asarray(a)))


def _stk(f):
    def g(xs, *a, **k):
        return _wrap(f([asarray(x) for x in xs], *a, **k))
    return g


hstack = _stk(_np.hstack)
vstack = _stk(_np.vstack)
row_stack = vstack
column_stack = _stk(_np.column_stack)
concatenate = _stk(_np.concatenate)
stack = _stk(_np.stack)


def block(xs):
    return _wrap(_np.block([[asarray(y) for y in x] if isinstance(x, (list, tuple)) else asarray(x) for x in xs]))


def transpose(a, *k):
    return _np.transpose(asarray(a), *k)


def searchsorted(a, v, side='left', **k):
    l = list(asarray(a))
    n = 0
    for x in l:
        if (x < v) if side == 'left' else (x <= v):
            n += 1
        else:
            break
    return n


def interp(x, xp, fp, *_, **k):
    def one(x):
        X, F = list(asarray(xp)), list(asarray(fp))
        if x <= X[0]:
            return F[0]
        for i in range(len(X) - 1):
            if x <= X[i + 1]:
                return F[i] + (F[i + 1] - F[i]) * (x - X[i]) / (X[i + 1] - X[i])
        return F[-1]
    return _map(one, x)


def polyval(p, x):
    t = S.ZERO
    for c in p:
        t = t * x + c
    return t


def sort(a, **k):
    return array(sorted(list(asarray(a))))


def unique(a, **k):
    a = asarray(a)
    if a.dtype != object:
        return _np.unique(a, **k)
    out = []
    for x in sorted(list(a.ravel())):
        if not out or not bool(out[-1] == x):
            out.append(x)
    return array(out)


def trace(a, *_, **k):
    a = asarray(a)
    return _sum([a[i, i] for i in range(builtin_min(a.shape))])


builtin_min = _bi.min


def einsum(spec, *ops, **k):
    return _wrap(_np.einsum(spec, *[asarray(o) for o in ops], optimize=False))


def vectorize(f, *a, **k):
    def g(*xs):
        r = _np.broadcast(*[_np.asarray(x, dtype=object) for x in xs])
        out = [f(*t) for t in r]
        return array(out).reshape(r.shape) if r.shape else out[0]
    return g


def float64(x=0):
    return fl(x)


float32 = float_ = double = longdouble = float64


def fl(x):
    from .loader import Float
    return Float(x)


def seterr(**k):
    return {}


class errstate:
    def __init__(self, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def set_printoptions(**k):
    pass


nan = NAN
NaN_ = NAN
inf = float('inf')
ndarray = _np.ndarray
newaxis = None
int64 = _np.int64
int32 = _np.int32
bool_ = _np.bool_
generic = _np.generic
number = Sym


class SpBase:
    """marker base of the fake sparse matrices (see fakesp)"""


def __getattr__(name):
    if name.startswith('__'):
        raise AttributeError(name)
    if name == 'linalg':
        from . import fakelinalg
        return fakelinalg
    return getattr(_np, name)
