"""Exact symbolic real numbers.

A `Sym` is a rational function  num / (f1^e1 * f2^e2 * ...)  over Q in named variables, where some
variables are algebraic (v*v == poly, v >= 0: square roots).  Numerators are kept expanded and
reduced, so a Sym is identically zero iff its numerator dict is empty.  Comparisons build `Cond`
objects; using a Cond as a Python bool asks the current path context (paths.py) to decide it, which
forks the execution.
"""
from __future__ import annotations
from fractions import Fraction
from math import isqrt
import re


FATAL = []        # engine-level exceptions raised on this path (bare excepts in the code may swallow them)


class EngineError(Exception):
    """The engine cannot represent something the code did (never reported as a violation)."""

    def __init__(self, *a):
        super().__init__(*a)
        FATAL.append(self)


# ----------------------------------------------------------------------------- variables
class VarTable:
    def __init__(self):
        self.names = []          # index -> name
        self.index = {}          # name -> index
        self.sign = {}           # index -> 'pos' | 'nonneg' | None
        self.alg = {}            # index -> poly dict (v*v == poly)
        self.algkey = {}         # key -> index
        self.float_def = {}      # index -> callable(env)->float, for replay of derived symbols
        self.facts = {}          # index -> list of Cond facts that always hold for it

    def var(self, name, sign=None):
        i = self.index.get(name)
        if i is None:
            i = len(self.names)
            self.names.append(name)
            self.index[name] = i
            self.sign[i] = sign
        else:
            if self.sign.get(i) != sign:
                raise EngineError('variable %s redeclared with another sign' % name)
        return i


VT = VarTable()

ONE = ()            # the empty monomial


def mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    res = []
    i = j = 0
    la, lb = len(a), len(b)
    while i < la and j < lb:
        va, ea = a[i]
        vb, eb = b[j]
        if va < vb:
            res.append(a[i]); i += 1
        elif vb < va:
            res.append(b[j]); j += 1
        else:
            res.append((va, ea + eb)); i += 1; j += 1
    if i < la:
        res.extend(a[i:])
    if j < lb:
        res.extend(b[j:])
    return tuple(res)


def mono_div(a, b):
    """a / b, or None if not divisible."""
    if not b:
        return a
    d = dict(a)
    for v, e in b:
        x = d.get(v, 0) - e
        if x < 0:
            return None
        if x == 0:
            del d[v]
        else:
            d[v] = x
    return tuple(sorted(d.items()))


def norm_c(c):
    if type(c) is Fraction and c.denominator == 1:
        return c.numerator
    return c


def cdiv(a, b):
    """Exact quotient of two coefficients (int or Fraction)."""
    if type(a) is int and type(b) is int:
        if a % b == 0:
            return a // b
        return Fraction(a, b)
    return norm_c(Fraction(a) / b)


def p_const(c):
    return {ONE: c} if c != 0 else {}


def p_add(a, b):
    if not a:
        return b
    if not b:
        return a
    if len(a) < len(b):
        a, b = b, a
    r = dict(a)
    for m, c in b.items():
        x = r.get(m)
        if x is None:
            r[m] = c
        else:
            x = norm_c(x + c)
            if x == 0:
                del r[m]
            else:
                r[m] = x
    return r


def p_neg(a):
    return {m: -c for m, c in a.items()}


def p_scale(a, k):
    if k == 0:
        return {}
    if k == 1:
        return a
    return {m: norm_c(c * k) for m, c in a.items()}


def _needs_reduce(m):
    alg = VT.alg
    for v, e in m:
        if e > 1 and v in alg:
            return True
    return False


_pow_cache = {}


def _reduce_mono(m):
    """poly equal to monomial m with algebraic squares replaced."""
    r = _pow_cache.get(m)
    if r is not None:
        return r
    out = {ONE: 1}
    keep = []
    for v, e in m:
        if e > 1 and v in VT.alg:
            q, rem = divmod(e, 2)
            base = VT.alg[v]
            for _ in range(q):
                out = p_mul(out, base)
            if rem:
                keep.append((v, 1))
        else:
            keep.append((v, e))
    if keep:
        out = p_mul(out, {tuple(keep): 1})
    _pow_cache[m] = out
    return out


MAX_TERMS = 60000


def p_mul(a, b):
    if not a or not b:
        return {}
    if len(a) < len(b):
        a, b = b, a
    if len(b) == 1:
        (mb, cb), = b.items()
        if not mb:
            return p_scale(a, cb)
    r = {}
    red = {}
    has_alg = bool(VT.alg)
    for mb, cb in b.items():
        for ma, ca in a.items():
            m = mono_mul(ma, mb)
            c = ca * cb
            if has_alg and _needs_reduce(m):
                red[m] = red.get(m, 0) + c
            else:
                x = r.get(m)
                r[m] = c if x is None else x + c
    if len(r) > MAX_TERMS:
        raise EngineError('polynomial too large (%d terms)' % len(r))
    r = {m: norm_c(c) for m, c in r.items() if c != 0}
    for m, c in red.items():
        if c != 0:
            r = p_add(r, p_scale(_reduce_mono(m), norm_c(c)))
    return r


def p_pow(a, n):
    r = {ONE: 1}
    for _ in range(n):
        r = p_mul(r, a)
    return r


def _lexkey(m):
    # graded lexicographic order is fine for exact division
    return (sum(e for _, e in m), tuple((-v, e) for v, e in m))


def p_divexact(a, b):
    """Exact quotient a/b (b has no algebraic variables), or None."""
    if not a:
        return {}
    lb = max(b, key=_mkey)
    tb = min(b, key=_mkey)
    la = max(a, key=_mkey)
    ta = min(a, key=_mkey)
    if mono_div(la, lb) is None or mono_div(ta, tb) is None:
        return None
    cb = b[lb]
    rem = dict(a)
    q = {}
    steps = 0
    while rem:
        lr = max(rem, key=_mkey)
        m = mono_div(lr, lb)
        if m is None:
            return None
        c = cdiv(rem[lr], cb)
        q[m] = c
        for mb, x in b.items():
            mm = mono_mul(m, mb)
            y = norm_c(rem.get(mm, 0) - c * x)
            if y == 0:
                rem.pop(mm, None)
            else:
                rem[mm] = y
        steps += 1
        if steps > 20000:
            raise EngineError('division too large')
    return q


def _mkey(m):
    """Monomial order key: graded, then lexicographic on (var, exp)."""
    # dense comparison through tuple of (-var, exp) is a valid lex order: smaller var index wins
    return (sum(e for _, e in m), [(-v, e) for v, e in m])


# ----------------------------------------------------------------------------- denominators
FACTORS = []            # id -> poly dict (primitive, leading coeff 1)
FACTOR_ID = {}          # frozenset(items) -> id
_FSIGN = {}


def factor_id(p):
    key = frozenset(p.items())
    i = FACTOR_ID.get(key)
    if i is None:
        i = len(FACTORS)
        FACTORS.append(p)
        FACTOR_ID[key] = i
    return i


_inv_cache = {}


def _mono_content(p):
    it = iter(p)
    first = dict(next(it))
    for m in it:
        d = dict(m)
        for v in list(first):
            e = min(first[v], d.get(v, 0))
            if e:
                first[v] = e
            else:
                del first[v]
        if not first:
            break
    return tuple(sorted(first.items()))


def p_vars(p):
    s = set()
    for m in p:
        for v, _ in m:
            s.add(v)
    return s


def _sympy_factor(p):
    """factor a polynomial over Q with sympy -> [(poly, exp)]"""
    import sympy
    vs = sorted(p_vars(p))
    from sympy import QQ
    from sympy.polys.rings import ring
    R, *gens = ring(['v%d' % v for v in vs], QQ)
    pos = {v: i for i, v in enumerate(vs)}
    d = {}
    for m, c in p.items():
        ex = [0] * len(vs)
        for v, e in m:
            ex[pos[v]] = e
        f = Fraction(c)
        d[tuple(ex)] = QQ(f.numerator, f.denominator)
    el = R.from_dict(d)
    _, fl = el.factor_list()
    out = []
    for f, e in fl:
        q = {}
        for ex, c in f.terms():
            m = tuple((vs[i], int(k)) for i, k in enumerate(ex) if k)
            q[m] = norm_c(Fraction(int(c.numerator), int(c.denominator)))
        out.append((q, int(e)))
    return out


def factor_poly(p):
    """p (no algebraic variables, nonzero) -> (const, [(factor_id, exp)])"""
    key = frozenset(p.items())
    r = _inv_cache.get(key)
    if r is not None:
        return r
    facs = {}
    cont = _mono_content(p)
    if cont:
        p = {mono_div(m, cont): c for m, c in p.items()}
        for v, e in cont:
            facs[factor_id({((v, 1),): 1})] = e
    const = 1
    if len(p) == 1:
        const = p[ONE]
    else:
        # known multi-term factors first
        for i, f in enumerate(list(FACTORS)):
            if len(f) < 2:
                continue
            while len(p) >= 2:
                q = p_divexact(p, f)
                if q is None:
                    break
                p = q
                facs[i] = facs.get(i, 0) + 1
        if len(p) == 1:
            (m, c), = p.items()
            const = c
            for v, e in m:
                k = factor_id({((v, 1),): 1})
                facs[k] = facs.get(k, 0) + e
        else:
            if len(p) <= 400:
                fl = _sympy_factor(p)
            else:
                fl = [(p, 1)]
            prod_lead = 1
            lead = p[max(p, key=_mkey)]
            for q, e in fl:
                lc = q[max(q, key=_mkey)]
                q = p_scale(q, cdiv(1, lc))
                facs_i = factor_id(q)
                facs[facs_i] = facs.get(facs_i, 0) + e
            const = lead
    r = (const, tuple(sorted(facs.items())))
    _inv_cache[key] = r
    return r


def den_poly(den):
    r = {ONE: 1}
    for i, e in den:
        for _ in range(e):
            r = p_mul(r, FACTORS[i])
    return r


def _cancel(num, den):
    if not num:
        return num, ()
    if not den:
        return num, den
    out = []
    for i, e in den:
        f = FACTORS[i]
        if len(f) == 1:
            # a bare variable
            (m, c), = f.items()
            v = m[0][0]
            k = e
            for mm in num:
                ee = 0
                for vv, x in mm:
                    if vv == v:
                        ee = x
                        break
                if ee < k:
                    k = ee
                    if k == 0:
                        break
            if k:
                d = ((v, k),)
                num = {mono_div(mm, d): cc for mm, cc in num.items()}
                e -= k
        else:
            while e > 0:
                q = p_divexact(num, f)
                if q is None:
                    break
                num = q
                e -= 1
        if e:
            out.append((i, e))
    return num, tuple(out)


# ----------------------------------------------------------------------------- the number class
def _seq(o):
    """list op scalar: numpy scalars (which scalars of the code under test mostly are) turn lists into arrays"""
    from . import fakenp
    return fakenp.array(list(o))


class Sym:
    __slots__ = ('num', 'den', '_h')
    __array_priority__ = 1000

    def __init__(self, num, den=()):
        self.num = num
        self.den = den
        self._h = None

    # ---- inspection
    @property
    def is_const(self):
        n = self.num
        return not self.den and (not n or (len(n) == 1 and ONE in n))

    @property
    def cval(self):
        return self.num.get(ONE, 0) if self.num else 0

    def vars(self):
        s = p_vars(self.num)
        for i, _ in self.den:
            s |= p_vars(FACTORS[i])
        return s

    # ---- arithmetic
    def __add__(self, o):
        if type(o) in (list, tuple):
            return _seq(o).__radd__(self)
        o = lift(o)
        if o is NotImplemented:
            return NotImplemented
        if not o.num:
            return self
        if not self.num:
            return o
        if self.den == o.den:
            n = p_add(self.num, o.num)
            if self.den:
                n, d = _cancel(n, self.den)
                return Sym(n, d)
            return Sym(n)
        da, db = dict(self.den), dict(o.den)
        lcm = dict(da)
        for i, e in db.items():
            if lcm.get(i, 0) < e:
                lcm[i] = e
        na, nb = self.num, o.num
        for i, e in lcm.items():
            for _ in range(e - da.get(i, 0)):
                na = p_mul(na, FACTORS[i])
            for _ in range(e - db.get(i, 0)):
                nb = p_mul(nb, FACTORS[i])
        n = p_add(na, nb)
        n, d = _cancel(n, tuple(sorted(lcm.items())))
        return Sym(n, d)

    __radd__ = __add__

    def __neg__(self):
        return Sym(p_neg(self.num), self.den)

    def __pos__(self):
        return self

    def __sub__(self, o):
        if type(o) in (list, tuple):
            return _seq(o).__rsub__(self)
        o = lift(o)
        if o is NotImplemented:
            return NotImplemented
        return self + (-o)

    def __rsub__(self, o):
        if type(o) in (list, tuple):
            return _seq(o).__sub__(self)
        o = lift(o)
        if o is NotImplemented:
            return NotImplemented
        return o + (-self)

    def __mul__(self, o):
        if type(o) in (list, tuple):
            return _seq(o).__rmul__(self)
        o = lift(o)
        if o is NotImplemented:
            return NotImplemented
        if not self.num or not o.num:
            return ZERO
        if not self.den and not o.den:
            return Sym(p_mul(self.num, o.num))
        na, da = self.num, self.den
        nb, db = o.num, o.den
        if db:
            na, db = _cancel(na, db)
        if da:
            nb, da = _cancel(nb, da)
        n = p_mul(na, nb)
        d = dict(da)
        for i, e in db:
            d[i] = d.get(i, 0) + e
        d = tuple(sorted(d.items()))
        if d and VT.alg:
            n, d = _cancel(n, d)     # algebraic reduction can create common factors
        return Sym(n, d)

    __rmul__ = __mul__

    def inverse(self):
        """1/self; self is known nonzero on the current path."""
        num = self.num
        extra = {ONE: 1}
        # rationalise algebraic variables out of the denominator
        while True:
            av = [v for v in p_vars(num) if v in VT.alg]
            if not av:
                break
            v = max(av)
            a, b = {}, {}
            for m, c in num.items():
                d = dict(m)
                if v in d:
                    del d[v]
                    b[tuple(sorted(d.items()))] = c
                else:
                    a[m] = c
            conj = p_add(a, p_neg(p_mul(b, {((v, 1),): 1})))
            extra = p_mul(extra, conj)
            num = p_mul(num, conj)
            if not num:
                raise EngineError('conjugate vanished')
        const, facs = factor_poly(num)
        n = p_mul(den_poly(self.den), extra) if (self.den or extra != {ONE: 1}) else {ONE: 1}
        n = p_scale(n, cdiv(1, const))
        n, d = _cancel(n, facs)
        return Sym(n, d)

    def __truediv__(self, o):
        if type(o) in (list, tuple):
            return _seq(o).__rtruediv__(self)
        o = lift(o)
        if o is NotImplemented:
            return NotImplemented
        return divide(self, o)

    def __rtruediv__(self, o):
        if type(o) in (list, tuple):
            return _seq(o).__truediv__(self)
        o = lift(o)
        if o is NotImplemented:
            return NotImplemented
        return divide(o, self)

    def __pow__(self, o):
        return power(self, o)

    def __rpow__(self, o):
        return power(lift(o), self)

    def __floordiv__(self, o):
        o = lift(o)
        return Sym_floor(self / o)

    def __mod__(self, o):
        o = lift(o)
        return self - o * Sym_floor(self / o)

    def __rmod__(self, o):
        return lift(o) % self

    def __rfloordiv__(self, o):
        return lift(o) // self

    def __abs__(self):
        if (self >= 0):
            return self
        return -self

    # ---- comparisons
    def __eq__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return False
        return mkcond(self - o, '==')

    def __ne__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return True
        return mkcond(self - o, '!=')

    def __lt__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return NotImplemented
        return mkcond(self - o, '<')

    def __le__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return NotImplemented
        return mkcond(self - o, '<=')

    def __gt__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return NotImplemented
        return mkcond(o - self, '<')

    def __ge__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return NotImplemented
        return mkcond(o - self, '<=')

    def __hash__(self):
        # one bucket: set/dict membership then goes through ==, which is decided per path
        return 7

    def __bool__(self):
        return bool(mkcond(self, '!='))

    # ---- conversions
    def __float__(self):
        if self.is_const:
            raise EngineError('float() of an exact value outside the shim')
        raise EngineError('float() of a symbolic value outside the shim')

    def __index__(self):
        if self.is_const and Fraction(self.cval).denominator == 1:
            return int(self.cval)
        raise TypeError('symbolic value used as an index')

    def __int__(self):
        if self.is_const:
            return int(Fraction(self.cval))
        return sym_int(self)

    def __trunc__(self):
        return int(self)

    def __round__(self, nd=None):
        if nd is None:
            if self.is_const:
                return round(Fraction(self.cval))
            return int(_round_half_even(self))
        if nd <= 0:
            t = const(Fraction(10) ** (-nd))
            return lift(_round_half_even(self / t)) * t
        return self

    def __floor__(self):
        if self.is_const:
            f = Fraction(self.cval)
            return f.numerator // f.denominator
        return sym_floor_int(self)

    def __ceil__(self):
        if self.is_const:
            f = Fraction(self.cval)
            return -((-f.numerator) // f.denominator)
        return -sym_floor_int(-self)

    def __str__(self):
        return token(self)

    def __repr__(self):
        return 'Sym(%s)' % show(self)

    def __format__(self, spec):
        return token(self)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    # ---- numpy object-ufunc hooks
    def sqrt(self):
        return sqrt(self)

    def conjugate(self):
        return self

    def conj(self):
        return self

    def item(self):
        return self

    def is_integer(self):
        return self.is_const and Fraction(self.cval).denominator == 1

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return ZERO

    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0

    @property
    def size(self):
        return 1

    @property
    def dtype(self):
        import numpy
        return numpy.dtype(object)

    def rint(self):
        return self

    def square(self):
        return self * self

    def reciprocal(self):
        return ONE_S / self

    def fabs(self):
        return abs(self)

    def absolute(self):
        return abs(self)

    def sin(self):
        from . import fakemath
        return fakemath.sin(self)

    def cos(self):
        from . import fakemath
        return fakemath.cos(self)

    def arccos(self):
        from . import fakemath
        return fakemath.acos(self)


ZERO = Sym({})
ONE_S = Sym({ONE: 1})
_small = {}


def const(c):
    if type(c) is Fraction and c.denominator == 1:
        c = c.numerator
    if c == 0:
        return ZERO
    if type(c) is int and -8 <= c <= 8:
        s = _small.get(c)
        if s is None:
            s = _small[c] = Sym({ONE: c})
        return s
    return Sym({ONE: c})


def lift(x):
    t = type(x)
    if t is Sym:
        return x
    if t is int or t is Fraction:
        return const(x)
    if t is bool:
        return const(int(x))
    if t is float:
        return const(float_to_exact(x))
    try:
        import numpy
        if isinstance(x, numpy.bool_):
            return const(int(x))
        if isinstance(x, numpy.integer):
            return const(int(x))
        if isinstance(x, numpy.floating):
            return const(float_to_exact(float(x)))
    except ImportError:
        pass
    return NotImplemented


def float_to_exact(x):
    """A float that reached the engine: read it as the decimal it prints as."""
    if x != x or x in (float('inf'), float('-inf')):
        raise EngineError('non-finite float reached the exact layer')
    return Fraction(repr(x))


def var(name, sign=None):
    i = VT.var(name, sign)
    return Sym({((i, 1),): 1})


# hooks installed by paths.py
class _Hooks:
    decide = None           # Cond -> bool
    choose_int = None       # Sym -> int (concretise by forking)


HOOKS = _Hooks()


def divide(a, b):
    if b.is_const:
        if not b.num:
            raise ZeroDivisionError('division by zero')
        c = b.cval
        return Sym(p_scale(a.num, cdiv(1, c)), a.den)
    if bool(mkcond(b, '==')):
        raise ZeroDivisionError('division by zero')
    return a * b.inverse()


def power(a, o):
    a = lift(a)
    o = lift(o)
    if not o.is_const:
        raise EngineError('symbolic exponent')
    e = Fraction(o.cval)
    if e.denominator == 1:
        n = e.numerator
        if n >= 0:
            r = ONE_S
            for _ in range(n):
                r = r * a
            return r
        inv = divide(ONE_S, a)
        r = ONE_S
        for _ in range(-n):
            r = r * inv
        return r
    if e.denominator == 2:
        s = sqrt(a)
        n = e.numerator
        if n >= 0:
            r = ONE_S
            for _ in range(n):
                r = r * s
            return r
        return divide(ONE_S, power(s, -n))
    raise EngineError('exponent %s' % e)


# ----------------------------------------------------------------------------- square roots
def _sqfree(n):
    """n = s^2 * product(primes)"""
    s = 1
    primes = []
    d = 2
    while d * d <= n:
        k = 0
        while n % d == 0:
            n //= d
            k += 1
        s *= d ** (k // 2)
        if k % 2:
            primes.append(d)
        d += 1
        if d > 200000:
            r = isqrt(n)
            if r * r == n:
                return s * r, primes
            break
    if n > 1:
        primes.append(n)
    return s, primes


def alg_prime(p):
    key = ('prime', p)
    i = VT.algkey.get(key)
    if i is None:
        i = VT.var('sqrt_%d' % p, 'pos')
        VT.alg[i] = {ONE: p}
        VT.algkey[key] = i
    return Sym({((i, 1),): 1})


def sqrt_frac(f):
    f = Fraction(f)
    n, d = f.numerator, f.denominator
    # sqrt(n/d) = sqrt(n*d)/d
    s, primes = _sqfree(n * d)
    r = const(Fraction(s, d))
    for p in primes:
        r = r * alg_prime(p)
    return r


def _poly_sqrt(p):
    """polynomial square root of p (no algebraic vars) or None"""
    const_, facs = factor_poly(p)
    c = Fraction(const_)
    for i, e in facs:
        if e % 2:
            return None
    if c < 0:
        return None
    r = sqrt_frac(c)
    for i, e in facs:
        for _ in range(e // 2):
            r = r * Sym(FACTORS[i])
    return r


def sqrt(x):
    x = lift(x)
    if x.is_const:
        if x.cval < 0:
            raise ValueError('math domain error')
        if x.cval == 0:
            return ZERO
        return sqrt_frac(x.cval)
    if bool(mkcond(x, '<')):
        raise ValueError('math domain error')
    if bool(mkcond(x, '==')):
        return ZERO
    has_alg = any(v in VT.alg for v in p_vars(x.num))
    # sqrt(num/den) = sqrt(num*den)/den, den made square
    num = x.num
    den = Sym({ONE: 1})
    for i, e in x.den:
        f = FACTORS[i]
        for _ in range((e + 1) // 2):
            den = den * Sym(f)
        if e % 2:
            num = p_mul(num, f)
    r = None
    if not has_alg:
        # strip square factors
        c, facs = factor_poly(num)
        out = ONE_S
        rad = {ONE: 1}
        for i, e in facs:
            for _ in range(e // 2):
                out = out * Sym(FACTORS[i])
            if e % 2:
                rad = p_mul(rad, FACTORS[i])
        cc = Fraction(c)
        if rad == {ONE: 1}:
            if cc < 0:
                raise EngineError('sqrt sign')
            r = out * sqrt_frac(cc)
        else:
            s = 1 if cc > 0 else -1
            rad = p_scale(rad, s)
            r = out * sqrt_frac(abs(cc)) * alg_root(rad)
    else:
        r = alg_root(num)
    r = r / den
    if bool(mkcond(r, '<')):
        r = -r
    return r


def alg_root(p):
    key = ('root', frozenset(p.items()))
    i = VT.algkey.get(key)
    if i is None:
        i = VT.var('root_%d' % len(VT.alg), 'pos')
        VT.alg[i] = p
        VT.algkey[key] = i
    return Sym({((i, 1),): 1})


# ----------------------------------------------------------------------------- int concretisation
def sym_int(x):
    """int() truncation of a symbolic value: fork over the possible integers."""
    return HOOKS.choose_int(x, 'trunc')


def sym_floor_int(x):
    return HOOKS.choose_int(x, 'floor')


def Sym_floor(x):
    x = lift(x)
    return const(x.__floor__())


# ----------------------------------------------------------------------------- sign analysis
def p_sign(p):
    """Syntactic sign of a polynomial: 'pos','neg','nonneg','nonpos','zero' or None."""
    if not p:
        return 'zero'
    strict = False
    s = 0
    for m, c in p.items():
        pos = True
        for v, e in m:
            sg = VT.sign.get(v)
            if sg == 'pos':
                continue
            if e % 2 == 0 or sg == 'nonneg':
                pos = False
            else:
                return None
        cs = 1 if c > 0 else -1
        if s == 0:
            s = cs
        elif s != cs:
            return _const_alg_sign(p)
        if pos:
            strict = True
    if s > 0:
        return 'pos' if strict else 'nonneg'
    return 'neg' if strict else 'nonpos'


def _const_alg_sign(p):
    """sign of an element of Q(sqrt p1, ...) by exact interval refinement; None if not constant."""
    for v in p_vars(p):
        a = VT.alg.get(v)
        if a is None or len(a) != 1 or ONE not in a:
            return None
    digits = 30
    while digits < 2000:
        scale = 10 ** digits
        lo = hi = Fraction(0)
        for m, c in p.items():
            l = h = Fraction(1)
            for v, e in m:
                n = VT.alg[v][ONE]
                r = isqrt(n * scale * scale)
                l *= Fraction(r, scale)
                h *= Fraction(r + 1, scale)
            if c > 0:
                lo += c * l; hi += c * h
            else:
                lo += c * h; hi += c * l
        if lo > 0:
            return 'pos'
        if hi < 0:
            return 'neg'
        digits *= 3
    raise EngineError('cannot sign algebraic constant')


def den_sign(den):
    """(+1/-1, list of factor ids with unknown sign and odd exponent); den is nonzero."""
    s = 1
    unk = []
    for i, e in den:
        if e % 2 == 0:
            continue
        sg = p_sign(FACTORS[i])
        if sg in ('pos', 'nonneg'):
            continue
        if sg in ('neg', 'nonpos'):
            s = -s
            continue
        unk.append(i)
    return s, unk


class Cond:
    """Boolean combination of atoms  poly OP 0  (OP in ==,!=,<,<=)."""
    __slots__ = ('op', 'args')

    def __init__(self, op, args):
        self.op = op
        self.args = args

    def __bool__(self):
        if self.op == 'const':
            return self.args
        return HOOKS.decide(self)

    def __invert__(self):
        return cnot(self)

    def __and__(self, o):
        return cand(self, o)

    __rand__ = __and__

    def __or__(self, o):
        return cor(self, o)

    __ror__ = __or__

    def __eq__(self, o):
        return bool(self) == bool(o)

    def __ne__(self, o):
        return bool(self) != bool(o)

    def __hash__(self):
        return hash(self.key())

    # arithmetic on booleans (numpy style sums) decides them
    def __add__(self, o):
        return int(bool(self)) + o

    __radd__ = __add__

    def __mul__(self, o):
        return (o if bool(self) else o * 0)

    __rmul__ = __mul__

    def __int__(self):
        return int(bool(self))

    def __index__(self):
        return int(bool(self))

    def logical_not(self):
        return cnot(self)

    def logical_and(self, o):
        return cand(self, o)

    def logical_or(self, o):
        return cor(self, o)

    def key(self):
        if self.op == 'atom':
            p, o = self.args
            return ('atom', frozenset(p.items()), o)
        if self.op == 'const':
            return ('const', self.args)
        return (self.op, tuple(a.key() for a in self.args))

    def __repr__(self):
        if self.op == 'atom':
            return '(%s %s 0)' % (show(Sym(self.args[0])), self.args[1])
        if self.op == 'const':
            return str(self.args)
        return '%s%r' % (self.op, self.args)


TRUE = Cond('const', True)
FALSE = Cond('const', False)
NEG = {'==': '!=', '!=': '==', '<': '>=', '<=': '>'}


def as_cond(x):
    if isinstance(x, Cond):
        return x
    return TRUE if x else FALSE


def _norm_atom(p):
    """divide by positive content: positive variables and the size of the leading coefficient"""
    if not p:
        return p
    cont = _mono_content(p)
    d = tuple((v, e) for v, e in cont if VT.sign.get(v) == 'pos')
    if d:
        p = {mono_div(m, d): c for m, c in p.items()}
    lc = p[max(p, key=_mkey)]
    if lc < 0:
        lc = -lc
    if lc != 1:
        p = p_scale(p, cdiv(1, lc))
    return p


def atom(p, op):
    s = p_sign(p)
    if op == '==':
        if s == 'zero':
            return TRUE
        if s in ('pos', 'neg'):
            return FALSE
    elif op == '!=':
        if s == 'zero':
            return FALSE
        if s in ('pos', 'neg'):
            return TRUE
    elif op == '<':
        if s == 'neg':
            return TRUE
        if s in ('zero', 'pos', 'nonneg'):
            return FALSE
    elif op == '<=':
        if s in ('zero', 'neg', 'nonpos'):
            return TRUE
        if s == 'pos':
            return FALSE
    p = _norm_atom(p)
    if op in ('==', '!='):
        if p[max(p, key=_mkey)] < 0:
            p = p_neg(p)
    return Cond('atom', (p, op))


def mkcond(x, op):
    """condition  x OP 0  for a Sym x (denominator nonzero on the path)."""
    if op in ('==', '!='):
        return atom(x.num, op)
    s, unk = den_sign(x.den)
    p = x.num
    for i in unk:
        p = p_mul(p, FACTORS[i])
    if s < 0:
        p = p_neg(p)
    return atom(p, op)


def cnot(a):
    a = as_cond(a)
    if a.op == 'const':
        return FALSE if a.args else TRUE
    if a.op == 'atom':
        p, o = a.args
        if o == '==':
            return atom(p, '!=')
        if o == '!=':
            return atom(p, '==')
        if o == '<':
            return atom(p_neg(p), '<=')
        return atom(p_neg(p), '<')
    if a.op == 'and':
        return cor(*[cnot(x) for x in a.args])
    return cand(*[cnot(x) for x in a.args])


def cand(*xs):
    out = []
    for x in xs:
        x = as_cond(x)
        if x.op == 'const':
            if not x.args:
                return FALSE
            continue
        out.append(x)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return Cond('and', tuple(out))


def cor(*xs):
    out = []
    for x in xs:
        x = as_cond(x)
        if x.op == 'const':
            if x.args:
                return TRUE
            continue
        out.append(x)
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return Cond('or', tuple(out))


def implies(a, b):
    return cor(cnot(a), b)


# ----------------------------------------------------------------------------- text tokens
_tokens = {}
_TOK = re.compile(r'^\s*([+-]?)\s*<<sym(\d+)>>\s*$')


def _round_half_even(x):
    k = int(Sym_floor(x + Fraction(1, 2))) if x.is_const else sym_floor_int(x + Fraction(1, 2))
    if k % 2 and bool(x + Fraction(1, 2) == k):
        k -= 1
    return k


def token(s):
    if s.is_const:
        f = Fraction(s.cval)
        if f.denominator == 1:
            return str(f.numerator)
        # exact decimal when it terminates, otherwise a token
        d = f.denominator
        while d % 2 == 0:
            d //= 2
        while d % 5 == 0:
            d //= 5
        if d == 1:
            from decimal import Decimal, getcontext
            getcontext().prec = 60
            return format(Decimal(f.numerator) / Decimal(f.denominator), 'f')
    for k, v in _tokens.items():
        if v.num == s.num and v.den == s.den:
            return '<<sym%d>>' % k
    k = len(_tokens)
    _tokens[k] = s
    return '<<sym%d>>' % k


def parse_number(text):
    m = _TOK.match(text)
    if m:
        s = _tokens[int(m.group(2))]
        return -s if m.group(1) == '-' else s
    t = text.strip()
    if t.lower() in ('nan', 'inf', '-inf', 'infinity', '+inf'):
        raise EngineError('non-finite literal')
    return const(Fraction(t))


def show(s, limit=300):
    def poly(p):
        if not p:
            return '0'
        parts = []
        for m, c in sorted(p.items(), key=lambda kv: str(kv[0]))[:12]:
            t = '*'.join(VT.names[v] + ('^%d' % e if e > 1 else '') for v, e in m)
            parts.append(('%s*%s' % (c, t)) if t else str(c))
        if len(p) > 12:
            parts.append('...(%d terms)' % len(p))
        return ' + '.join(parts)
    t = poly(s.num)
    if s.den:
        t = '(%s)/(%s)' % (t, '*'.join('(%s)^%d' % (poly(FACTORS[i]), e) for i, e in s.den))
    return t[:limit]


def to_exact(x):
    """harness helper: anything numeric -> Sym"""
    r = lift(x)
    if r is NotImplemented:
        raise EngineError('not a number: %r' % (x,))
    return r


# ----------------------------------------------------------------------------- evaluation
def eval_poly(p, env):
    """env: var index -> Fraction/float"""
    t = 0
    for m, c in p.items():
        x = c
        for v, e in m:
            x = x * env[v] ** e
        t = t + x
    return t


def eval_sym(s, env):
    n = eval_poly(s.num, env)
    for i, e in s.den:
        n = n / (Fraction(1) * eval_poly(FACTORS[i], env) ** e)
    return n
