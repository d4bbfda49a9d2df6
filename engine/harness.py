"""The harness API.  One harness body runs in two modes:

  symbolic  HSym    inputs are solver variables, assertions become solver queries
  concrete  HFloat  inputs are floats from a counterexample (or a reachability witness), the code is
                    the unmodified /repo package on real numpy/scipy, assertions use a tolerance
"""
from __future__ import annotations
from fractions import Fraction
import io
import sys
import time

REGISTRY = {}       # property -> list of Task descriptions


def harness(prop, params=({},), tier='quick', name=None, timeout=300, max_paths=4000, qtimeout=20000):
    def deco(f):
        REGISTRY.setdefault(prop, []).append(dict(
            fn=f, name=name or f.__name__, params=list(params), tier=tier, timeout=timeout,
            max_paths=max_paths, qtimeout=qtimeout))
        return f
    return deco


class ReplayMismatch(Exception):
    pass


class HBase:
    exact = False

    def pos(self, name):
        raise NotImplementedError

    # ----- conveniences shared by both modes
    def scenes(self):
        """the list that collects the PyVista plotters created from now on"""
        from . import fakevista
        return fakevista.install()

    def reports(self):
        """the Reporting module and the list that collects the reports it creates from now on"""
        from . import fakereport
        return fakereport.install(self.exact)

    def viewers(self):
        """the list that collects the VTK renderers created from now on"""
        from . import fakevtk
        return fakevtk.install()

    def figures(self):
        """the list that collects the figures plotted through matplotlib from now on"""
        from . import fakeplot
        return fakeplot.install()

    def vec(self, prefix, n):
        return [self.real('%s%d' % (prefix, i)) for i in range(n)]

    def col(self, M):
        """flatten any array / sparse matrix / list to a list of scalars"""
        if hasattr(M, 'toarray'):
            M = M.toarray()
        if hasattr(M, 'ravel'):
            return list(M.ravel().tolist()) if not self.exact else [x for x in M.ravel()]
        out = []
        for x in M:
            if hasattr(x, 'ravel') or isinstance(x, (list, tuple)):
                out.extend(self.col(x))
            else:
                out.append(x)
        return out

    def mat(self, M):
        if hasattr(M, 'toarray'):
            M = M.toarray()
        return M

    def matvec(self, M, v):
        M = self.mat(M)
        n, m = M.shape
        out = []
        for i in range(n):
            t = self.q(0)
            for j in range(m):
                t = t + M[i, j] * v[j]
            out.append(t)
        return out

    def array(self, xs):
        if self.exact:
            from . import fakenp
            return fakenp.array(list(xs))
        import numpy
        return numpy.array([float(x) for x in xs])

    def matvec_rows(self, rows, v):
        return [self.dot(r, v) for r in rows]

    def dot(self, a, b):
        t = self.q(0)
        for x, y in zip(a, b):
            t = t + x * y
        return t

    def cross(self, a, b):
        return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]

    def zero(self, a, label, scale=None):
        for k, x in enumerate(self.col(a) if not self._scalar(a) else [a]):
            self.eq(x, self.q(0), '%s[%d]' % (label, k) if not self._scalar(a) else label, scale)

    def alleq(self, a, b, label, scale=None):
        a, b = self.col(a), self.col(b)
        if len(a) != len(b):
            raise AssertionError('%s: lengths %d and %d' % (label, len(a), len(b)))
        for k, (x, y) in enumerate(zip(a, b)):
            self.eq(x, y, '%s[%d]' % (label, k), scale)

    def _scalar(self, a):
        return not (hasattr(a, 'ravel') and getattr(a, 'ndim', 0) > 0 or isinstance(a, (list, tuple)) or hasattr(a, 'toarray'))

    def same_cond(self, a, b):
        """condition: two discrete values agree"""
        return self.And() if a == b else self.Or()


# =============================================================================== symbolic
class HSym(HBase):
    exact = True

    def __init__(self, ex, collector):
        from . import sym as S
        self.S = S
        self.ex = ex
        self.c = collector
        self.inputs = {}          # name -> var index
        self.values = []          # (label, lhs Sym, rhs Sym) seen on this path

    # ----- inputs
    def real(self, name, lo=None, hi=None):
        return self._in(name, None, lo, hi)

    def pos(self, name, lo=None, hi=None):
        return self._in(name, 'pos', lo, hi)

    def nonneg(self, name, lo=None, hi=None):
        return self._in(name, 'nonneg', lo, hi)

    def _in(self, name, sign, lo, hi):
        v = self.S.var(name, sign)
        i = self.S.VT.index[name]
        self.c.inputs[name] = i
        if name not in self.inputs:
            self.inputs[name] = i
            if lo is not None:
                self.assume(v >= self.q(lo))
            if hi is not None:
                self.assume(v <= self.q(hi))
        return v

    def flag(self, name):
        """a symbolic boolean (forks when the code branches on it)"""
        v = self._in(name, None, None, None)
        c = self.S.as_cond(v > 0)
        return bool(c)

    def choice(self, name, options):
        v = self._in(name, None, None, None)
        n = len(options)
        for k in range(n - 1):
            if bool(v < k + 1):
                return options[k]
        return options[n - 1]

    def angle(self, name):
        """an angle in (-pi, pi) given by its half-angle tangent"""
        from . import fakemath
        t = self._in(name, None, None, None)
        a = self.S.var('angle_' + name, None)
        c = (1 - t * t) / (1 + t * t)
        s = 2 * t / (1 + t * t)
        fakemath.register_angle(a, c, s)
        return a, c, s

    def q(self, x):
        if isinstance(x, str):
            return self.S.const(Fraction(x))
        return self.S.to_exact(x)

    def sqrt(self, x):
        return self.S.sqrt(self.S.to_exact(x))

    def abs(self, x):
        return abs(self.S.to_exact(x))

    def number(self, text):
        """a number printed by the code"""
        return self.S.parse_number(text) if isinstance(text, str) else self.S.to_exact(text)

    def tables(self):
        """the list that collects the PrettyTables created from now on"""
        from . import fakeprettytable
        del fakeprettytable.LAST[:]
        return fakeprettytable.LAST

    def close(self, a, b, label, rel=0.006):
        """equality of values of which one was printed with few digits (exact in symbolic mode)"""
        self._oblig(self.S.as_cond(self.S.to_exact(a) == self.S.to_exact(b)), label, (self.S.to_exact(a), self.S.to_exact(b)))

    # ----- logic
    def assume(self, c):
        self.ex.assume(c)

    def And(self, *cs):
        return self.S.cand(*cs)

    def Or(self, *cs):
        return self.S.cor(*cs)

    def Not(self, c):
        return self.S.cnot(c)

    def near(self, a, b):
        return self.S.as_cond(self.S.to_exact(a) == self.S.to_exact(b))

    def leq(self, a, b):
        return self.S.as_cond(self.S.to_exact(a) <= self.S.to_exact(b))

    def Implies(self, a, b):
        return self.S.implies(a, b)

    def known(self, c):
        """Python bool of a condition (forks)"""
        return bool(c)

    def known_nonzero(self, x):
        """used by oracles to pick pivots: exact test, decided by forking only when undetermined"""
        x = self.S.to_exact(x)
        return bool(x.num) and bool(self.S.mkcond(x, '!='))

    # ----- assertions
    def eq(self, a, b, label, scale=None):
        from .nan import NaN
        if isinstance(a, NaN) or isinstance(b, NaN):
            self._fail_now(label, 'not a number')
            return
        a, b = self.S.to_exact(a), self.S.to_exact(b)
        self.values.append((label, a, b))
        self._oblig(S_eq(self.S, a, b), label, (a, b))

    def le(self, a, b, label, scale=None):
        a, b = self.S.to_exact(a), self.S.to_exact(b)
        self._oblig(self.S.as_cond(a <= b), label, None)

    def lt(self, a, b, label):
        a, b = self.S.to_exact(a), self.S.to_exact(b)
        self._oblig(self.S.as_cond(a < b), label, None)

    def true(self, c, label):
        self._oblig(self.S.as_cond(c), label, None)

    def cond(self, c, label):
        """c: a (possibly symbolic) condition; not decided by forking"""
        self._oblig(self.S.as_cond(c), label, None)

    def same(self, a, b, label):
        """discrete equality (names, booleans, sets)"""
        self._oblig(self.S.TRUE if a == b else self.S.FALSE, label, None)

    def raises(self, fn, excs, label):
        try:
            fn()
        except excs:
            self._oblig(self.S.TRUE, label, None)
            return
        self._oblig(self.S.FALSE, label, None)

    def _oblig(self, goal, label, pair):
        self.pending.append((goal, label, pair))
        if len(self.pending) >= 400:
            self.flush()

    def _fail_now(self, label, why):
        self._oblig(self.S.FALSE, label, None)

    pending = None

    def begin(self):
        self.pending = []
        self.inputs = {}
        self.values = []

    def flush(self):
        """one solver query for all pending obligations of this path; split on failure"""
        pend, self.pending = self.pending, []
        if not pend:
            return
        st = self.ex.stats
        st.obligations += len(pend)
        self.c.reached += len(pend)
        S = self.S
        neg = S.Cond('or', tuple(zneg(S, g) for g, _, _ in pend))
        r = self.ex.solve(neg, timeout=None)
        if r == 'unsat':
            self.c.discharged += len(pend)
            return
        for g, label, pair in pend:
            if label in self.c.failed_labels:
                continue
            if self.c.enough():
                from .paths import Budget
                raise Budget('enough counterexamples')
            n = zneg(S, g)
            r, m = self.ex.solve(n, want_model=True)
            if r == 'unsat':
                self.c.discharged += 1
            elif r == 'sat':
                self.c.failed_labels.add(label)
                self.c.add_cex(label, self._candidates(n, m, pair))
            else:
                self.c.unknown.append(label)

    def _candidates(self, neg, model, pair):
        """solver models of path AND not goal, friendlier ones first"""
        S, ex = self.S, self.ex
        out = []
        ins = self.inputs
        box = []
        for name, i in ins.items():
            v = S.Sym({((i, 1),): 1})
            if S.VT.sign.get(i) == 'pos':
                box.append(S.cand(S.as_cond(v >= Fraction(1, 4)), S.as_cond(v <= 16)))
            else:
                box.append(S.cand(S.as_cond(v >= -16), S.as_cond(v <= 16)))
        far = []
        if pair is not None:
            d = pair[0] - pair[1]
            far = [S.cor(S.as_cond(d >= Fraction(1, 8)), S.as_cond(d <= -Fraction(1, 8)))]
        for extra in ([*box, *far], box, far):
            if extra and ex.stats is not None:
                try:
                    r, m = ex.solve(S.cand(neg, *extra), want_model=True, timeout=8000)
                except S.EngineError:
                    continue
                if r == 'sat' and m is not None:
                    out.append(self._vals(m))
                    break
        if model is not None:
            out.append(self._vals(model))
        # nearby generic points of the same violation (chosen only for numerical convenience)
        import random
        rnd = random.Random(1)
        for _ in range(60):
            env = {i: (Fraction(rnd.randint(2, 40), 8) if S.VT.sign.get(i) in ('pos', 'nonneg') else Fraction(rnd.randint(-40, 40), 8))
                   for i in range(len(S.VT.names))}
            if all(ex.eval_cond(c, env) is True for c in ex.path) and ex.eval_cond(neg, env) is True:
                out.insert(0, self._vals(env))
                break
        return out

    def _vals(self, env):
        return {n: str(Fraction(env.get(i, 1))) for n, i in self.inputs.items()}


def S_eq(S, a, b):
    """a == b as a goal, kept two-sided so that the solver compares the two expressions"""
    d = a - b
    c = S.mkcond(d, '==')
    if c.op != 'const':
        return c
    if c.args and len(a.num) + len(b.num) <= 200 and a.den == b.den and a.num:
        return S.Cond('eq2', (a.num, b.num))
    return c


def zneg(S, g):
    if g.op == 'eq2':
        return S.Cond('ne2', g.args)
    return S.cnot(g)


class Collector:
    def __init__(self):
        self.inputs = {}
        self.reached = 0
        self.discharged = 0
        self.failed_labels = set()
        self.cex = []
        self.unknown = []
        self.errors = []
        self.witness = None
        self.patience = None
        self.first = None

    def enough(self):
        return bool(self.patience and self.first and len(self.cex) >= 5 and time.time() - self.first > self.patience)

    def add_cex(self, label, candidates, kind='assert', info=''):
        self.first = self.first or time.time()
        self.cex.append(dict(label=label, kind=kind, info=info, candidates=candidates))


# =============================================================================== concrete
class HFloat(HBase):
    exact = False

    def __init__(self, values, tol=1e-6):
        self.v = values
        self.tol = tol
        self.failures = []
        self.checked = 0
        self.trace = []

    def _get(self, name):
        if name not in self.v:
            raise ReplayMismatch('no value for %s' % name)
        return float(Fraction(self.v[name]))

    def real(self, name, lo=None, hi=None):
        return self._get(name)

    pos = nonneg = real

    def flag(self, name):
        return self._get(name) > 0

    def choice(self, name, options):
        x = self._get(name)
        for k in range(len(options) - 1):
            if x < k + 1:
                return options[k]
        return options[-1]

    def angle(self, name):
        import math
        a = 2 * math.atan(self._get(name))
        return a, math.cos(a), math.sin(a)

    def q(self, x):
        if isinstance(x, str):
            return float(Fraction(x))
        return float(x) if not isinstance(x, bool) else x

    def sqrt(self, x):
        import math
        return math.sqrt(x)

    def abs(self, x):
        return abs(x)

    def number(self, text):
        return float(text)

    def tables(self):
        import prettytable
        from . import fakeprettytable
        prettytable.PrettyTable = fakeprettytable.PrettyTable
        del fakeprettytable.LAST[:]
        return fakeprettytable.LAST

    def close(self, a, b, label, rel=0.006):
        self.checked += 1
        a, b = float(a), float(b)
        if not abs(a - b) <= rel * max(abs(a), abs(b), 1e-3):
            self.failures.append((label, '%r != %r' % (a, b)))

    def assume(self, c):
        pass

    def And(self, *cs):
        return all(bool(c) for c in cs)

    def Or(self, *cs):
        return any(bool(c) for c in cs)

    def Not(self, c):
        return not bool(c)

    def near(self, a, b):
        return abs(a - b) <= self.tol * max(abs(a), abs(b), 1e-3)

    def leq(self, a, b):
        return a - b <= self.tol * max(abs(a), abs(b), 1e-3)

    def Implies(self, a, b):
        return (not bool(a)) or bool(b)

    def known(self, c):
        return bool(c)

    def known_nonzero(self, x):
        return abs(x) > 1e-12

    def eq(self, a, b, label, scale=None):
        a, b = float(a), float(b)
        self.checked += 1
        self.trace.append((label, a, b))
        s = max(abs(a), abs(b), 1e-3 if scale is None else abs(float(scale)))
        if not abs(a - b) <= self.tol * s:
            self.failures.append((label, '%r != %r' % (a, b)))

    def le(self, a, b, label, scale=None):
        a, b = float(a), float(b)
        self.checked += 1
        s = max(abs(a), abs(b), 1e-3 if scale is None else abs(float(scale)))
        if not a - b <= self.tol * s:
            self.failures.append((label, '%r > %r' % (a, b)))

    def lt(self, a, b, label):
        self.le(a, b, label)

    def true(self, c, label):
        self.checked += 1
        if not bool(c):
            self.failures.append((label, 'false'))

    cond = true

    def same(self, a, b, label):
        self.checked += 1
        if not (a == b):
            self.failures.append((label, '%r != %r' % (a, b)))

    def raises(self, fn, excs, label):
        self.checked += 1
        try:
            fn()
        except excs:
            return
        except Exception as e:
            self.failures.append((label, 'raised %r' % (e,)))
            return
        self.failures.append((label, 'did not raise'))
