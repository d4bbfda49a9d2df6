"""Path exploration by re-execution, with z3 as the deciding solver."""
from __future__ import annotations
import os
import signal
import time
from fractions import Fraction
import z3
from . import sym as S
from .sym import VT, Cond, EngineError, FACTORS


class PathAbort(BaseException):
    """The current path is infeasible."""

    def __init__(self, *a):
        super().__init__(*a)
        S.FATAL.append(self)


class Budget(Exception):
    def __init__(self, *a):
        super().__init__(*a)
        S.FATAL.append(self)


class Stats:
    def __init__(self):
        self.queries = 0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.time = 0.0
        self.paths = 0
        self.forks = 0
        self.obligations = 0


class Hang(BaseException):
    """no decision and no query for a long stretch of processor time: the code under test may not terminate"""


class Watchdog:
    """raises Hang in the main thread after `limit` seconds of processor time without a call of `alive`"""

    def __init__(self):
        self.limit = 0

    def start(self, limit):
        def fire(*_):
            raise Hang()
        signal.signal(signal.SIGPROF, fire)
        self.limit = limit
        self.alive()

    def alive(self):
        if self.limit:
            signal.setitimer(signal.ITIMER_PROF, self.limit, 5)

    def pause(self):
        if self.limit:
            signal.setitimer(signal.ITIMER_PROF, 0)

    def stop(self):
        self.pause()
        self.limit = 0


DOG = Watchdog()


class Explorer:
    """Runs fn() once per feasible path."""

    def __init__(self, timeout_ms=20000, max_paths=4000, deadline=None):
        self.timeout_ms = timeout_ms
        self.max_paths = max_paths
        self.deadline = deadline
        self.stats = Stats()
        self.z3vars = {}
        self.z3facts = {}
        self.pending = []
        self.cfg_prefix = None

    # ------------------------------------------------------------- z3 translation
    def zvar(self, i):
        v = self.z3vars.get(i)
        if v is None:
            v = z3.Real(VT.names[i])
            self.z3vars[i] = v
        return v

    def zpoly(self, p):
        if not p:
            return z3.RealVal(0)
        terms = []
        for m, c in p.items():
            f = []
            if c != 1 or not m:
                f.append(z3.RealVal(str(c)))
            for v, e in m:
                zv = self.zvar(v)
                for _ in range(e):
                    f.append(zv)
            terms.append(f[0] if len(f) == 1 else z3.Product(f))
        return terms[0] if len(terms) == 1 else z3.Sum(terms)

    def zcond(self, c):
        if c.op == 'const':
            return z3.BoolVal(c.args)
        if c.op == 'atom':
            p, o = c.args
            e = self.zpoly(p)
            if o == '==':
                return e == 0
            if o == '!=':
                return e != 0
            if o == '<':
                return e < 0
            return e <= 0
        if c.op == 'eq2':
            a, b = c.args
            return self.zpoly(a) == self.zpoly(b)
        if c.op == 'ne2':
            a, b = c.args
            return self.zpoly(a) != self.zpoly(b)
        xs = [self.zcond(x) for x in c.args]
        return z3.And(*xs) if c.op == 'and' else z3.Or(*xs)

    @staticmethod
    def cond_vars(c, out):
        if c.op == 'atom':
            out |= S.p_vars(c.args[0])
        elif c.op in ('eq2', 'ne2'):
            out |= S.p_vars(c.args[0])
            out |= S.p_vars(c.args[1])
        elif c.op in ('and', 'or'):
            for x in c.args:
                Explorer.cond_vars(x, out)

    def declare(self, vs):
        """assert sign facts and algebraic definitions of the variables (transitively)"""
        todo = [v for v in vs if v not in self.declared]
        while todo:
            v = todo.pop()
            if v in self.declared:
                continue
            self.declared.add(v)
            z = self.zvar(v)
            sg = VT.sign.get(v)
            if sg == 'pos':
                self.solver.add(z > 0)
            elif sg == 'nonneg':
                self.solver.add(z >= 0)
            if v in VT.alg:
                p = VT.alg[v]
                self.solver.add(z * z == self.zpoly(p))
                todo.extend(x for x in S.p_vars(p) if x not in self.declared)
            for f in VT.facts.get(v, ()):
                fv = set()
                self.cond_vars(f, fv)
                todo.extend(x for x in fv if x not in self.declared)
                self.solver.add(self.zcond(f))

    # ------------------------------------------------------------- run
    def run(self, fn):
        work = [[]]
        while work:
            if self.stats.paths >= self.max_paths:
                raise Budget('more than %d paths' % self.max_paths)
            prefix = work.pop()
            self._start(prefix, work)
            try:
                fn()
                self.stats.paths += 1
            except PathAbort:
                pass

    def _start(self, prefix, work):
        self.prefix = prefix
        self.pos = 0
        self.decisions = []
        self.work = work
        self.path = []
        self.known = {}
        self.declared = set()
        self.solver = z3.Solver()
        self.solver.set('timeout', self.timeout_ms)
        self.model_env = None
        S.HOOKS.decide = self.decide
        S.HOOKS.choose_int = self.choose_int

    def _add(self, c):
        DOG.alive()
        vs = set()
        self.cond_vars(c, vs)
        self.declare(vs)
        self.solver.add(self.zcond(c))
        self.path.append(c)
        if c.op in ('atom',):
            self.known[c.key()] = True
            n = S.cnot(c)
            if n.op == 'atom':
                self.known[n.key()] = False

    def check_time(self):
        if self.deadline is not None and time.time() > self.deadline:
            raise Budget('time budget exceeded')

    def solve(self, extra=None, want_model=False, timeout=None):
        """sat / unsat / unknown of path AND extra"""
        self.check_time()
        DOG.pause()
        try:
            return self._solve(extra, want_model, timeout)
        finally:
            DOG.alive()

    def _solve(self, extra, want_model, timeout):
        t0 = time.time()
        st = self.stats
        st.queries += 1
        if extra is not None:
            vs = set()
            self.cond_vars(extra, vs)
            self.declare(vs)
            self.solver.push()
            self.solver.add(self.zcond(extra))
        if timeout:
            self.solver.set('timeout', timeout)
        r = self.solver.check()
        model = None
        if r == z3.unknown and not timeout:
            # a second engine: nlsat through the qfnra tactic
            s2 = z3.Then('simplify', 'propagate-values', 'solve-eqs', 'qfnra-nlsat').solver()
            s2.set('timeout', self.timeout_ms)
            s2.add(*self.solver.assertions())
            r2 = s2.check()
            if r2 != z3.unknown:
                r = r2
                if r == z3.sat and want_model:
                    model = self._env(s2.model())
        if r == z3.sat and want_model and model is None:
            model = self._env(self.solver.model())
        if timeout:
            self.solver.set('timeout', self.timeout_ms)
        if extra is not None:
            self.solver.pop()
        st.time += time.time() - t0
        if r == z3.sat:
            st.sat += 1
            return ('sat', model) if want_model else 'sat'
        if r == z3.unsat:
            st.unsat += 1
            return ('unsat', None) if want_model else 'unsat'
        st.unknown += 1; (os.environ.get('VDEBUG') and print('UNKNOWN', extra, self.path))
        return ('unknown', None) if want_model else 'unknown'

    def _env(self, m):
        env = {}
        for i, z in list(self.z3vars.items()):
            v = m.eval(z, model_completion=True)
            if z3.is_rational_value(v):
                env[i] = Fraction(v.numerator_as_long(), v.denominator_as_long())
            elif z3.is_algebraic_value(v):
                a = v.approx(30)
                env[i] = Fraction(a.numerator_as_long(), a.denominator_as_long())
            else:
                env[i] = Fraction(0)
        return env

    def eval_cond(self, c, env):
        """exact evaluation; None when a variable is missing or algebraic approximations are in play"""
        try:
            if c.op == 'const':
                return c.args
            if c.op == 'atom':
                p, o = c.args
                vs = S.p_vars(p)
                if any(v in VT.alg for v in vs):
                    return None
                x = S.eval_poly(p, env)
                return {'==': x == 0, '!=': x != 0, '<': x < 0, '<=': x <= 0}[o]
            if c.op == 'eq2':
                a, b = c.args
                if any(v in VT.alg for v in S.p_vars(a) | S.p_vars(b)):
                    return None
                return S.eval_poly(a, env) == S.eval_poly(b, env)
            if c.op == 'ne2':
                a, b = c.args
                return S.eval_poly(a, env) != S.eval_poly(b, env)
            rs = [self.eval_cond(x, env) for x in c.args]
            if c.op == 'and':
                if any(r is False for r in rs):
                    return False
                return None if any(r is None for r in rs) else True
            if any(r is True for r in rs):
                return True
            return None if any(r is None for r in rs) else False
        except KeyError:
            return None

    def feasible(self, c):
        if self.model_env is not None and self.eval_cond(c, self.model_env) is True:
            return True
        r, m = self.solve(c, want_model=True)
        if r == 'sat' and m is not None:
            for i in range(len(VT.names)):
                if i not in m and i not in VT.facts:
                    m[i] = Fraction(1)
            for i, fs in VT.facts.items():
                # a variable the query did not constrain has an arbitrary value in the model
                if i in m and not all(self.eval_cond(f, m) is True for f in fs):
                    del m[i]
            if self.eval_cond(c, m) is True and all(self.eval_cond(x, m) is True for x in self.path):
                self._alt = m
        return r != 'unsat'

    def decide(self, cond):
        if cond.op == 'const':
            return cond.args
        k = cond.key() if cond.op == 'atom' else None
        if k is not None and k in self.known:
            return self.known[k]
        if self.pos < len(self.prefix):
            v = self.prefix[self.pos]
            self.pos += 1
            self.decisions.append(v)
            self._add(cond if v else S.cnot(cond))
            return v
        self.check_time()
        neg = S.cnot(cond)
        self._alt = None
        t = self.feasible(cond)
        alt_t = self._alt
        self._alt = None
        f = self.feasible(neg)
        alt_f = self._alt
        self.pos += 1
        if t and f:
            self.stats.forks += 1
            self.work.append(self.decisions + [False])
            v = True
        elif t:
            v = True
        elif f:
            v = False
        else:
            raise PathAbort()
        self.decisions.append(v)
        self._add(cond if v else neg)
        if self.model_env is None or self.eval_cond(cond if v else neg, self.model_env) is not True:
            self.model_env = alt_t if v else alt_f
        return v

    def choose_int(self, x, kind):
        """fork over floor/trunc values of x; the caller's assumptions must bound x"""
        x = S.lift(x)
        if kind == 'trunc':
            if x >= 0:
                return self.choose_int(x, 'floor')
            return -self.choose_int(-x, 'floor')
        # find the range by model search
        for k in range(0, 200):
            lo = k // 2 if k % 2 == 0 else -(k + 1) // 2
            c = S.cand(S.as_cond(x >= lo), S.as_cond(x < lo + 1))
            if c.op == 'const':
                if c.args:
                    return lo
                continue
            # one recorded decision per candidate, so that a replayed prefix takes the same way whatever the solver answers
            if self.pos >= len(self.prefix) and not (c.op == 'atom' and c.key() in self.known) and self.solve(c) == 'unsat':
                self.pos += 1
                self.decisions.append(False)
                self._add(S.cnot(c))
            elif self.decide(c):
                return lo
        raise EngineError('integer range too wide')

    def assume(self, c):
        c = S.as_cond(c)
        if c.op == 'const':
            if not c.args:
                raise PathAbort()
            return
        self._add(c)
        if self.model_env is not None and self.eval_cond(c, self.model_env) is not True:
            self.model_env = None
        if self.pos >= len(self.prefix):
            if self.solve() == 'unsat':
                raise PathAbort()
