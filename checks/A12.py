"""Unstable models are reported, stable ones are not."""
import contextlib
import io
from engine.harness import harness
from checks.models import *

BOUNDS = ('Models of one to four nodes: isolated nodes and member ends whose six directions are each free, supported, sprung or held by an enforced '
          'displacement (single directions and pairs), released member ends, spring-only nodes, mechanisms without a zero diagonal '
          'term, braces lost to unilateral action, single plates and quads; symbolic sections, stiffnesses and loads; all solvers.')
ASSUMPTIONS = ['Exact arithmetic: a stiffness that should be zero is exactly zero (rounding residue of oblique elements is not modelled).']

WORDS = ('translation in the global X', 'translation in the global Y', 'translation in the global Z',
         'rotation about the global X', 'rotation about the global Y', 'rotation about the global Z')
ALL = ('gen', 'gen-d', 'lin', 'lin-d', 'pd', 'pd-d')


def outcome(h, m, how, **kw):
    """(raised, printed text)"""
    buf = io.StringIO()
    try:
        with contextlib.redirect_stdout(buf):
            run(m, how, **kw)
    except Exception as e:
        if type(e).__module__.startswith('engine'):
            raise
        return True, buf.getvalue()
    return False, buf.getvalue()


def restrain(h, d, n, modes):
    """modes: six of 'f' free, 's' support, 'k' spring, 'e' enforced"""
    d.support(n, ''.join(c for c, m in zip('XYZxyz', modes) if m == 's'))
    for k, m in enumerate(modes):
        if m == 'k':
            d.support_spring(n, DOFS[k], h.pos('ks%d' % k))
        if m == 'e':
            d.disp(n, DOFS[k], h.real('u%d' % k))


def base(h):
    d = Desc(h)
    d.mat('S', h.q(100), h.q(40))
    d.node('A', 0, 0, 0)
    d.node('B', 4, 0, 0)
    d.member('M1', 'A', 'B')
    d.support('A')
    d.load('B', 'FY', h.real('P'))
    return d


@harness('A12', params=[{'dof': k, 'how': w, 'first': f} for k in range(6) for w, f in (('gen', False), ('lin-d', True), ('pd', False))], timeout=300)
def isolated(h, dof, how, first):
    """a node with nothing attached: every direction must be held; the message names the node and the direction"""
    for mode in 'fske':
        d = Desc(h)
        if first:
            d.node('Lone', 1, 1, 1)
        b = base(h)
        d.m, d.sup = b.m, b.sup
        d.X = b.X
        d.node('Lone', 1, 1, 1)
        modes = ['s'] * 6
        modes[dof] = mode
        restrain(h, d, 'Lone', modes)
        bad, text = outcome(h, d.m, how)
        h.same(bad, mode == 'f', 'raised for ' + mode)
        if mode == 'f':
            h.same('Lone' in text and WORDS[dof] in text, True, 'message')
            h.same(sum(w in text for w in WORDS), 1, 'one direction')
            h.same('node A ' in text or 'node B ' in text, False, 'no other node')


@harness('A12', params=[{'modes': m, 'how': w} for m, w in (('ffssss', 'gen'), ('sffffs', 'gen-d'), ('kkkkkk', 'lin'), ('eeeeee', 'gen'), ('kfkkkk', 'lin-d'),
                                                             ('ekskes', 'gen-d'), ('kkkkke', 'pd'), ('kkkkkf', 'pd-d'), ('ffffff', 'lin'))], timeout=300)
def mixed(h, modes, how):
    d = base(h)
    d.node('Lone', 1, 1, 1)
    restrain(h, d, 'Lone', modes)
    bad, text = outcome(h, d.m, how)
    h.same(bad, 'f' in modes, 'raised')
    for m, w in zip(modes, WORDS):
        h.same(w in text, m == 'f', 'message ' + w)


@harness('A12', params=[{'rel': r, 'dof': k, 'how': w} for r, k in ((9, 3), (10, 4), (11, 5), (7, 1), (8, 2)) for w in ('gen', 'gen-d')], timeout=300)
def released_end(h, rel, dof, how):
    """free end of a cantilever behind a release: unstable unless held"""
    for mode in 'fske':
        d, L = cantilever(h)
        d.m.def_releases('M1', *[k == rel for k in range(12)])
        modes = ['f'] * 6
        modes[dof] = mode
        # the remaining directions of B are held by springs
        for k in range(6):
            if k != dof:
                d.support_spring('B', DOFS[k], h.q(3))
        if mode == 's':
            d.support('B', 'XYZxyz'[dof])
        elif mode == 'k':
            d.support_spring('B', DOFS[dof], h.pos('k'))
        elif mode == 'e':
            d.disp('B', DOFS[dof], h.real('u'))
        d.load('B', 'FY', h.real('P'))
        bad, text = outcome(h, d.m, how)
        h.same(bad, mode == 'f', 'raised for ' + mode)
        h.same(WORDS[dof] in text, mode == 'f', 'message')


MECH = {'slide': ('YZxyz', 'YZ'), 'spin': ('XYZ', 'YZ'), 'roll': ('XZx', 'YZ'), 'swing': ('XYZx', 'Z'), 'none': ('', ''), 'one': ('XYZ', '')}
STABLE = {'beam': ('XYZx', 'YZ'), 'cant': ('XYZxyz', ''), 'split': ('XYx', 'YZ z'), 'far': ('', 'XYZxyz')}


@harness('A12', params=[{'name': n, 'how': w, 'chk': c} for n in sorted(MECH) for w, c in (('gen', True), ('gen-d', False), ('lin', False), ('lin-d', True), ('pd', True), ('pd-d', False))], timeout=300)
def mechanism(h, name, how, chk):
    """every diagonal term is there, but the structure can move: no results, whatever solver, checked or not"""
    d, L = cantilever(h, fixed=None)
    d.support('A', MECH[name][0])
    d.support('B', MECH[name][1])
    d.load('B', 'FY', h.real('P'))
    d.load('B', 'MX', h.real('T'))
    h.same(outcome(h, d.m, how, check_stability=chk)[0], True, 'raised')


@harness('A12', params=[{'name': n, 'how': w} for n in sorted(STABLE) for w in SOLVERS], timeout=300)
def stable(h, name, how):
    d, L = cantilever(h)
    a, b = STABLE[name]
    if name == 'split':
        a, b = 'XYZx', 'YZz'
    d.support('A', a)
    d.support('B', b)
    d.load('B', 'FY', h.real('P'))
    d.load('A', 'MZ', h.real('T'))
    h.same(outcome(h, d.m, how)[0], False, 'raised')
    d.check_equilibrium()


@harness('A12', params=[{'how': w, 'chk': c} for w in ALL for c in (True, False)], timeout=300)
def unchecked_zero(h, how, chk):
    """a zero diagonal term is fatal with and without the check"""
    d = base(h)
    d.node('Lone', 1, 1, 1)
    restrain(h, d, 'Lone', 'ssfsss')
    h.same(outcome(h, d.m, how, check_stability=chk)[0], True, 'raised')


@harness('A12', params=[{'how': w} for w in SOLVERS], timeout=300)
def spring_node(h, how):
    """a node on a spring: stiff only along the spring"""
    for hold, ok in (('YZxyz', True), ('Yxyz', False), ('XYZxyz', True), ('Zxyz', False)):
        d = base(h)
        d.node('C', 7, 0, 0)
        d.spring('S1', 'B', 'C', h.pos('k'))
        d.support('C', hold)
        h.same(outcome(h, d.m, how)[0], not ok, 'raised ' + hold)


@harness('A12', params=[{'kind': k, 'how': w} for k in ('member', 'spring', 'support') for w in ('gen', 'gen-d')], timeout=300)
def lost_brace(h, kind, how):
    """a frame that needs its one-way brace: the load that takes the brace away is refused, the other is answered"""
    d, L = cantilever(h, L=h.q(3), fixed=dict(E=h.q(10), G=h.q(4), Iy=h.q(2), Iz=h.q(3), J=h.q(1), A=h.q(1)))
    d.support('A', 'XYZxy')
    P = h.real('P')
    h.assume(h.Not(P == 0))
    if kind == 'support':
        d.support_spring('B', 'DY', h.q(5), '+')
    else:
        d.node('C', 3, 4, 0)
        d.support('C')
        if kind == 'member':
            d.member('B1', 'B', 'C', kind='up', rel=(), tension_only=True)
            d.m.def_releases('B1', Rzi=True, Ryi=True)
        else:
            d.spring('B1', 'B', 'C', h.q(5), tension_only=True)
    d.load('B', 'FY', P)
    bad = outcome(h, d.m, how)[0]
    up = h.known(P > 0)
    h.same(bad, up if kind != 'support' else not up, 'raised')


@harness('A12', params=[{'el': e, 'how': w} for e in ('plate', 'quad') for w in ('gen', 'lin-d')], timeout=300)
def surfaces(h, el, how):
    """a plate or quad carries all directions of its corners; unsupported it is refused"""
    for sup, ok in ((('XYZz', 'YZ', '', 'Zx'), True), (('XYZz', 'YZ', 'Z', 'XZ'), True), (('Zz', 'Z', 'Z', 'Z'), False), (('XYz', 'XY', '', ''), False)):
        d = Desc(h)
        d.mat('S', h.q(100), h.q(40))
        for (n, x, y), s in zip((('A', 0, 0), ('B', 4, 0), ('C', 4, 3), ('D', 0, 3)), sup):
            d.node(n, x, y, 0)
            d.support(n, s)
        (d.m.add_plate if el == 'plate' else d.m.add_quad)('P1', 'A', 'B', 'C', 'D', h.q('1/2'), 'S')
        d.load('C', 'FZ', h.real('P'))
        h.same(outcome(h, d.m, how)[0], not ok, 'raised %s' % (sup,))
