"""Loads the PyNite package from /repo through a small AST transform so that it computes on exact
symbolic reals.  The transform changes no control flow and no expression structure:

  * float literals become the exact decimal they spell,
  * a / b and a ** b go through helpers that keep int/int and int**negative exact,
  * numpy, scipy.sparse, math and prettytable imports are redirected to the exact shims,
  * the builtin `float` is replaced by an exact converter.
"""
from __future__ import annotations
import ast
import importlib.abc
import importlib.machinery
import os
import sys
from fractions import Fraction
from . import sym as S
from .sym import Sym, lift, const, EngineError
from . import fakenp, fakelinalg, fakesp, fakesplinalg, fakescipy, fakemath, fakeprettytable

import warnings
warnings.filterwarnings('ignore', category=SyntaxWarning)
REPO = os.environ.get('VERIF_REPO', '/repo')

MODMAP = {
    'numpy': fakenp, 'numpy.linalg': fakelinalg, 'math': fakemath, 'scipy': fakescipy,
    'scipy.sparse': fakesp, 'scipy.sparse.linalg': fakesplinalg, 'scipy.linalg': fakelinalg,
    'prettytable': fakeprettytable,
}


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (float, Sym)) and not isinstance(x, bool)


class Float(metaclass=_FloatMeta):
    def __new__(cls, x=0):
        if isinstance(x, str):
            return S.parse_number(x)
        if isinstance(x, fakenp._np.ndarray):
            if x.size != 1:
                raise TypeError('only length-1 arrays can be converted to Python scalars')
            x = x.ravel()[0]
        from .nan import NaN
        if isinstance(x, NaN):
            return x
        r = lift(x)
        if r is NotImplemented:
            raise TypeError('float() argument must be a string or a real number, not %r' % type(x).__name__)
        return r


def _div(a, b):
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return lift(a) / lift(b)
    return a / b


def _pow(a, b):
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        if isinstance(a, int) and isinstance(b, int) and b >= 0:
            return a ** b
        return S.power(lift(a), lift(b))
    return a ** b


def _round(x, nd=None):
    if isinstance(x, fakenp._np.ndarray):
        return x.copy()
    if nd is None:
        return round(x)
    if isinstance(x, (int,)) and not isinstance(x, bool):
        return round(x, nd)
    return round(lift(x) if isinstance(x, float) else x, nd)


def _sum(xs, start=0):
    t = start
    for x in xs:
        t = t + x
    return t


class _SetMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, set)


class Set(metaclass=_SetMeta):
    """set(): numbers are lifted when symbolic ones are present, so equality is decided per path"""
    def __new__(cls, xs=()):
        xs = list(xs)
        if any(type(x) is Sym for x in xs):
            xs = [lift(x) if isinstance(x, (int, float)) and not isinstance(x, bool) else x for x in xs]
        return set(xs)


class Xform(ast.NodeTransformer):
    def __init__(self):
        self.consts = {}

    def visit_Constant(self, n):
        if type(n.value) is float:
            k = '_vK%d_' % len(self.consts)
            self.consts[k] = const(Fraction(repr(n.value)))
            return ast.copy_location(ast.Name(k, ast.Load()), n)
        return n

    def visit_JoinedStr(self, n):
        # leave format specs alone, transform the embedded expressions
        for v in n.values:
            if isinstance(v, ast.FormattedValue):
                v.value = self.visit(v.value)
        return n

    def visit_Set(self, n):
        self.generic_visit(n)
        return ast.copy_location(ast.Call(ast.Name('set', ast.Load()), [ast.Tuple(n.elts, ast.Load())], []), n)

    def visit_SetComp(self, n):
        self.generic_visit(n)
        return ast.copy_location(ast.Call(ast.Name('set', ast.Load()), [ast.ListComp(n.elt, n.generators)], []), n)

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Div):
            return ast.copy_location(ast.Call(ast.Name('_vdiv_', ast.Load()), [n.left, n.right], []), n)
        if isinstance(n.op, ast.Pow):
            return ast.copy_location(ast.Call(ast.Name('_vpow_', ast.Load()), [n.left, n.right], []), n)
        return n

    def visit_AugAssign(self, n):
        self.generic_visit(n)
        if isinstance(n.op, (ast.Div, ast.Pow)) and isinstance(n.target, ast.Name):
            fn = '_vdiv_' if isinstance(n.op, ast.Div) else '_vpow_'
            return ast.copy_location(ast.Assign([n.target], ast.Call(
                ast.Name(fn, ast.Load()), [ast.Name(n.target.id, ast.Load()), n.value], [])), n)
        return n

    def visit_Import(self, n):
        out = []
        for a in n.names:
            if a.name in MODMAP or a.name.split('.')[0] in ('numpy', 'scipy', 'math'):
                base = a.name if a.asname else a.name.split('.')[0]
                out.append(ast.copy_location(ast.Assign(
                    [ast.Name(a.asname or a.name.split('.')[0], ast.Store())],
                    ast.Call(ast.Name('_vmod_', ast.Load()), [ast.Constant(base)], [])), n))
            else:
                out.append(ast.copy_location(ast.Import([a]), n))
        return out

    def visit_ImportFrom(self, n):
        if n.level == 0 and n.module and (n.module in MODMAP or n.module.split('.')[0] in ('numpy', 'scipy', 'math')):
            out = []
            for a in n.names:
                if a.name == '*':
                    out.append(ast.copy_location(ast.Expr(ast.Call(
                        ast.Name('_vstar_', ast.Load()), [ast.Call(ast.Name('globals', ast.Load()), [], []), ast.Constant(n.module)], [])), n))
                else:
                    out.append(ast.copy_location(ast.Assign(
                        [ast.Name(a.asname or a.name, ast.Store())],
                        ast.Call(ast.Name('_vfrom_', ast.Load()), [ast.Constant(n.module), ast.Constant(a.name)], [])), n))
            return out
        return n


def _mod(name):
    m = MODMAP.get(name)
    if m is None:
        raise EngineError('module %s is not modelled' % name)
    return m


def _from(mod, name):
    if mod + '.' + name in MODMAP:
        return MODMAP[mod + '.' + name]
    return getattr(_mod(mod), name)


def _star(g, mod):
    m = _mod(mod)
    for k in dir(m):
        if not k.startswith('_'):
            g[k] = getattr(m, k)


_shift_future = ('__future__',)


def transform(src, filename):
    tree = ast.parse(src, filename)
    x = Xform()
    tree = x.visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, 'exec'), x.consts


_CODE = {}       # per process; every check run starts from the files


class Loader(importlib.abc.Loader):
    def __init__(self, path, is_pkg):
        self.path = path
        self.is_pkg = is_pkg

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        if self.path not in _CODE:
            with open(self.path) as f:
                src = f.read()
            _CODE[self.path] = transform(src, self.path)
        code, consts = _CODE[self.path]
        d = module.__dict__
        d.update(consts)
        d['__file__'] = self.path
        d['_vdiv_'] = _div
        d['_vpow_'] = _pow
        d['_vmod_'] = _mod
        d['_vfrom_'] = _from
        d['_vstar_'] = _star
        d['float'] = Float
        d['round'] = _round
        d['set'] = Set
        LOADED[module.__name__] = self.path
        exec(code, d)


LOADED = {}


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path, target=None):
        if fullname != 'PyNite' and not fullname.startswith('PyNite.'):
            return None
        base = os.path.join(REPO, *fullname.split('.'))
        if os.path.isdir(base) and os.path.exists(os.path.join(base, '__init__.py')):
            f = os.path.join(base, '__init__.py')
            spec = importlib.machinery.ModuleSpec(fullname, Loader(f, True), origin=f, is_package=True)
            spec.submodule_search_locations = [base]
            return spec
        f = base + '.py'
        if os.path.exists(f):
            return importlib.machinery.ModuleSpec(fullname, Loader(f, False), origin=f)
        return None


def install():
    if not any(isinstance(f, Finder) for f in sys.meta_path):
        sys.meta_path.insert(0, Finder())
    sys.setrecursionlimit(10000)


def uninstall():
    sys.meta_path[:] = [f for f in sys.meta_path if not isinstance(f, Finder)]
    for k in [k for k in sys.modules if k == 'PyNite' or k.startswith('PyNite.')]:
        del sys.modules[k]
