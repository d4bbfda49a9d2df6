"""math on exact symbolic reals."""
from fractions import Fraction
import math as _m
from . import sym as S
from .sym import Sym, lift, const, EngineError, VT

pi = S.var('pi', 'pos')
_PI = next(iter(p for p in S.p_vars(pi.num)))
VT.facts[_PI] = [S.as_cond(pi > Fraction(3141592653589793, 10**15)), S.as_cond(pi < Fraction(3141592653589794, 10**15))]
tau = pi * 2
inf = _m.inf
nan = _m.nan
floor = _m.floor
ceil = _m.ceil
trunc = _m.trunc
gcd = _m.gcd
prod = _m.prod
comb = _m.comb
factorial = _m.factorial


def _e(x):
    r = lift(x)
    if r is NotImplemented:
        if hasattr(x, 'item'):
            return lift(x.item())
        raise TypeError('must be real number, not ' + type(x).__name__)
    return r


def isclose(a, b, *, rel_tol=1e-09, abs_tol=0.0):
    a, b = _e(a), _e(b)
    d = a - b
    if d.is_const and a.is_const and b.is_const:
        rt, at = _e(rel_tol), _e(abs_tol)
        m = max(abs(Fraction(a.cval)), abs(Fraction(b.cval)))
        return abs(Fraction(d.cval)) <= max(Fraction(rt.cval) * m, Fraction(at.cval))
    return close_sym(a, b, d, rel_tol, abs_tol, Fraction(1, 10**8), 0)


def close_sym(a, b, d, rel, ab, tiny, scale):
    """closeness of symbolic values: tolerances at the level of rounding are exact equality, larger ones are taken as they are"""
    rel, ab = _e(rel), _e(ab)
    if rel.is_const and Fraction(rel.cval) <= (tiny if scale == 0 else Fraction(1, 10**5)) or b.is_const and b.cval == 0 and (scale or rel.is_const and rel.cval < 1):
        rel = None
    if ab.is_const and Fraction(ab.cval) <= tiny:
        ab = None
    if rel is None and ab is None:
        return bool(S.mkcond(d, '=='))
    m = abs(d)
    if scale:
        return bool(m <= (ab if ab is not None else 0) + (rel * abs(b) if rel is not None else 0))
    if ab is not None and bool(m <= ab):
        return True
    if rel is None:
        return bool(S.mkcond(d, '=='))
    return bool(m <= rel * abs(a)) or bool(m <= rel * abs(b))


def sqrt(x):
    return S.sqrt(_e(x))


def hypot(*xs):
    t = S.ZERO
    for x in xs:
        t = t + _e(x) * _e(x)
    return S.sqrt(t)


def dist(p, q):
    return hypot(*[_e(a) - _e(b) for a, b in zip(p, q)])


def fabs(x):
    return abs(_e(x))


def pow(a, b):
    return S.power(_e(a), _e(b))


def fsum(xs):
    t = S.ZERO
    for x in xs:
        t = t + _e(x)
    return t


def copysign(x, y):
    x = abs(_e(x))
    return x if _e(y) >= 0 else -x


def isnan(x):
    from .nan import NaN
    if isinstance(x, NaN):
        return True
    if isinstance(x, float):
        return _m.isnan(x)
    return False


def isinf(x):
    if isinstance(x, float):
        return _m.isinf(x)
    return False


def isfinite(x):
    return not (isnan(x) or isinf(x))


def degrees(x):
    return _e(x) * 180 / pi


def radians(x):
    return _e(x) * pi / 180


# ---- trigonometry
_angle_param = {}      # key(angle sym) -> (cos Sym, sin Sym)


def _akey(a):
    return (frozenset(a.num.items()), a.den)


def register_angle(a, c, s):
    _angle_param[_akey(a)] = (c, s)


def _half(v):
    return v / 2


def _pi_multiple(a):
    """Fraction r when a == r*pi, else None"""
    if not a.num:
        return Fraction(0)
    if a.den:
        return None
    if len(a.num) == 1:
        (m, c), = a.num.items()
        if m == ((_PI, 1),):
            return Fraction(c)
    return None


def _exact(r):
    """cos, sin of r*pi for r multiple of 1/12, else None"""
    r = r % 2
    k = r * 12
    if k.denominator != 1:
        return None
    k = int(k)
    s2, s3 = S.sqrt_frac(Fraction(2)), S.sqrt_frac(Fraction(3))
    s6 = s2 * s3
    tab = {0: (S.ONE_S, S.ZERO), 1: ((s6 + s2) / 4, (s6 - s2) / 4), 2: (s3 / 2, const(Fraction(1, 2))),
           3: (s2 / 2, s2 / 2), 4: (const(Fraction(1, 2)), s3 / 2), 5: ((s6 - s2) / 4, (s6 + s2) / 4)}
    q, j = divmod(k, 6)
    c, s = tab[j]
    for _ in range(q):
        c, s = -s, c
    return c, s


def _cs(a):
    a = _e(a)
    r = _pi_multiple(a)
    if r is not None:
        e = _exact(r)
        if e is not None:
            return e
        r = r % 2
        # reduce to the first octant-free form: use symmetry so that equal angles share symbols
        if r > 1:
            c, s = _cs(pi * (2 - r))
            return c, -s
        if r > Fraction(1, 2):
            c, s = _cs(pi * (1 - r))
            return -c, s
        if r > Fraction(1, 4):
            c, s = _cs(pi * (Fraction(1, 2) - r))
            return s, c
        # 0 < r < 1/4: c > s > 0.   uninterpreted, c^2 = 1 - s^2
        i = VT.var('sinpi_%d_%d' % (r.numerator, r.denominator), 'pos')
        s = Sym({((i, 1),): 1})
        f = Fraction(_m.sin(_m.pi * float(r))).limit_denominator(10**9)
        if i not in VT.facts:
            VT.facts[i] = [S.as_cond(s > f - Fraction(1, 10**7)), S.as_cond(s < f + Fraction(1, 10**7))]
        c = S.alg_root(S.p_add({S.ONE: 1}, {((i, 2),): -1}))
        return c, s
    k = _akey(a)
    if k in _angle_param:
        return _angle_param[k]
    n = _akey(-a)
    if n in _angle_param:
        c, s = _angle_param[n]
        return c, -s
    raise EngineError('trigonometry of an unregistered symbolic angle')


def cos(a):
    return _cs(a)[0]


def sin(a):
    return _cs(a)[1]


def tan(a):
    c, s = _cs(a)
    return s / c


_acos = {}


def acos(x):
    x = _e(x)
    if bool(x == 1):
        return S.ZERO
    if bool(x == -1):
        return pi
    if bool(S.cor(S.as_cond(x > 1), S.as_cond(x < -1))):
        raise ValueError('math domain error')
    k = _akey(x)
    v = _acos.get(k)
    if v is None:
        i = VT.var('acos_%d' % len(_acos), 'pos')
        v = Sym({((i, 1),): 1})
        VT.facts[i] = [S.as_cond(v < pi)]
        _acos[k] = v
    s = S.sqrt(1 - x * x)
    register_angle(v, x, s)
    return v


def atan2(y, x):
    y, x = _e(y), _e(x)
    r = hypot(x, y)
    a = acos(x / r)
    return a if y >= 0 else -a


def asin(x):
    return pi / 2 - acos(x)


def atan(x):
    return atan2(x, S.ONE_S)


def __getattr__(name):
    raise AttributeError('math.%s is not modelled' % name)


class _Log10:
    """log10(x), of which only the integer part is decided"""
    def __init__(self, x):
        self.x = x

    def __floor__(self):
        for k in [v for n in range(13) for v in ((n, -n) if n else (0,))]:
            t = const(Fraction(10) ** k)
            if bool(self.x >= t) and bool(self.x < t * 10):
                return k
        raise EngineError('log10 outside the modelled range')


def log10(x):
    x = _e(x)
    if not bool(x > 0):
        raise ValueError('math domain error')
    return _Log10(x)
