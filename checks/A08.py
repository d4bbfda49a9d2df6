"""Tension/compression-only members obey their unilateral law."""
from engine.harness import harness
from checks.models import *

BOUNDS = ('Portal frame with one or two braces (tension-only, compression-only, both kinds), braces with intermediate nodes and axial loads, an '
          'oblique space brace; one or two symbolic lateral loads of either sign, symbolic brace area; two or three load combinations per '
          'analysis; sparse and dense general analysis; one-way members together with one-way springs and spring supports; axial force checked at both ends and a symbolic position. P-Delta: braced plane column, lateral load within [-2, 2] (below buckling).')


def law(h, d, name, combo, at=()):
    """unilateral law, and consistency of flag and forces; returns the Python bool of the active flag"""
    M = d.m.members[name]
    act = M.active[combo] == True
    d_ = d.mem[name]
    q = h.q
    _, L = d.geometry(name)
    if act:
        for x in (q(0), L) + tuple(L * a for a in at):
            v = M.axial(x, combo)
            if M.tension_only:
                h.le(v, q(0), '%s %s no compression' % (combo, name))
            if M.comp_only:
                h.le(q(0), v, '%s %s no tension' % (combo, name))
    else:
        h.same(bool(M.tension_only or M.comp_only), True, '%s %s only one-way members are switched off' % (combo, name))
        if not any(nm == name for nm, l, c in d.ml):
            h.zero(M.f(combo), '%s %s inactive end forces' % (combo, name))
        for x in (q(0), L / 3, L):
            h.eq(M.axial(x, combo), q(0), '%s %s inactive axial' % (combo, name))
            for f in ('Fy', 'Fz'):
                h.eq(M.shear(f, x, combo), q(0), '%s %s inactive shear' % (combo, name))
            for f in ('My', 'Mz'):
                h.eq(M.moment(f, x, combo), q(0), '%s %s inactive moment' % (combo, name))
    return act


def twin_allows(h, d, t, combo):
    """condition: in the same frame with ordinary braces no brace would violate its law"""
    cs = []
    for name in d.mem:
        M = d.m.members[name]
        if not (M.tension_only or M.comp_only):
            continue
        _, L = d.geometry(name)
        for x in (h.q(0), L):
            v = t.m.members[name].axial(x, combo)
            cs.append(v <= 0 if M.tension_only else v >= 0)
    return h.And(*cs)


def frame(h, kinds, A=1, ordinary=False, mid=False):
    d = portal(h)
    if mid:
        d.node('K', 2, '3/2', 0)
        d.support('K', 'Zxyz')
        d.support_spring('K', 'DX', h.q(1))
        d.support_spring('K', 'DY', h.q(2))
    for k, (name, i, j) in zip(kinds, (('B1', 'A', 'C'), ('B2', 'D', 'B'))):
        kw = {} if ordinary else {'t': dict(tension_only=True), 'c': dict(comp_only=True)}[k]
        d.member(name, i, j, A=A, Iy=1, Iz=1, J=1, **kw)
    return d


def combos(d, names):
    q = d.q
    for n in names:
        d.m.add_load_combo(n, {'U': {'Case 1': 1}, 'V': {'Case 1': q(-2), 'L': q('3/2')}, 'W': {'L': q(1)}}[n])


FS = {'U': {'Case 1': 1}, 'V': {'Case 1': -2, 'L': '3/2'}, 'W': {'L': 1}}


def fac(h, n):
    return {k: h.q(v) for k, v in FS[n].items()}


@harness('A08', params=[{'kinds': k, 'how': w} for k in ('t', 'c', 'tt', 'cc', 'tc') for w in ('gen', 'gen-d')], timeout=500)
def braces(h, kinds, how):
    """laws, equilibrium with exactly the active members, ordinary behaviour when the law is met anyway"""
    out = []
    for ordinary in (False, True):
        d = frame(h, kinds, ordinary=ordinary)
        d.load('B', 'FX', h.real('F'))
        d.load('C', 'FX', h.real('G'), 'L')
        d.load('C', 'FZ', h.q(2))
        combos(d, 'UVW')
        (run if not ordinary else lambda m, w: m.analyze_linear())(d.m, how)
        out.append(d)
    d, t = out
    for n in 'UVW':
        act = {b: law(h, d, b, n) for b in d.mem}
        off = [b for b in act if not act[b]]
        d.check_equilibrium(n, fac(h, n), inactive=off, tag=n + ' ')
        if off:
            h.cond(h.Not(twin_allows(h, d, t, n)), n + ' no brace is switched off without need')
        if len(kinds) == 1:
            h.same(len(off) <= 1, True, 'one')
            if not off:
                h.cond(twin_allows(h, d, t, n), n + ' a single brace acts when the law allows it')


@harness('A08', params=[{'kind': 't'}, {'kind': 'c'}], timeout=500)
def symbolic_area(h, kind):
    """brace of any cross-section"""
    d = frame(h, kind, A=h.pos('A'))
    d.load('B', 'FX', h.real('F'))
    d.m.analyze()
    off = [b for b in d.mem if not law(h, d, b, 'Combo 1')]
    # the sway direction decides: tension-only A-C acts for sway to the right
    F = h.real('F')
    h.cond(h.Implies(F > 0, h.same_cond(not off, kind == 't')), 'sway right')
    h.cond(h.Implies(F < 0, h.same_cond(not off, kind == 'c')), 'sway left')
    d.check_equilibrium('Combo 1', inactive=off)


@harness('A08', params=[{'kind': 't', 'mid': m} for m in (False, True)] + [{'kind': 'c', 'mid': False}, {'kind': 'c', 'mid': True}], timeout=500)
def loaded_brace(h, kind, mid):
    """axial loads along the brace: the law holds over its whole length, and its loads are never lost"""
    d = frame(h, kind, mid=mid)
    q = h.q
    d.load('B', 'FX', h.real('F'))
    d.mload('B1', ('dist', 'Fx', q(3), q(3), q(0), q(5)))
    d.mload('B1', ('pt', 'Fx', q(-11), q(2)))
    d.m.analyze()
    off = [b for b in d.mem if not law(h, d, b, 'Combo 1', at=(q('2/5'), q('1/5'), q('3/4')))]
    if not mid:
        d.check_equilibrium('Combo 1', inactive=off)
    F, M = d.applied({'Case 1': q(1)})
    Rx = d.rxns()
    for k in range(3):
        t = F[k]
        for n in d.X:
            t = t + Rx[(n, k)]
        h.eq(t, q(0), 'total force %d' % k)


@harness('A08', params=[{'kind': 't'}, {'kind': 'c'}], timeout=500)
def space_brace(h, kind):
    """oblique brace on a column top, symbolic load in two directions"""
    d = Desc(h)
    d.mat('S', h.q(100), h.q(40))
    d.node('A', 0, 0, 0)
    d.node('B', 0, 6, 0)
    d.node('C', 2, 0, 3)
    d.member('M1', 'A', 'B', kind='up')
    d.member('X1', 'C', 'B', A=1, Iy=1, Iz=1, J=1, **({'tension_only': True} if kind == 't' else {'comp_only': True}))
    d.support('A')
    d.support('C')
    d.load('B', 'FX', h.real('F'))
    d.load('B', 'FZ', h.real('G'))
    d.m.analyze()
    off = [b for b in d.mem if not law(h, d, b, 'Combo 1')]
    d.check_equilibrium('Combo 1', inactive=off)


@harness('A08', params=[{'how': 'gen'}, {'how': 'gen-d'}], timeout=500)
def ordinary_never_off(h, how):
    """members without a law stay active whatever they carry; a linear-only analysis keeps every member"""
    d = frame(h, 'tc')
    d.load('B', 'FX', h.real('F'))
    d.load('C', 'FY', h.real('G'))
    if how == 'gen':
        d.m.analyze_linear()
    else:
        d.m.analyze_linear(sparse=False)
    for M in d.m.members.values():
        h.same(M.active['Combo 1'], True, 'linear analysis keeps ' + M.name)
    d.check_equilibrium('Combo 1')


@harness('A08', params=[{'tol': t} for t in (False, True)], timeout=500)
def tolerance(h, tol):
    """with a member tolerance, forbidden forces up to the tolerance (and no more) are kept"""
    d = frame(h, 't')
    F = h.real('F')
    d.load('B', 'FX', F)
    T = h.pos('T') if tol else h.q(0)
    d.m.analyze(member_tolerance=T)
    M = d.m.members['B1']
    t = frame(h, 't', ordinary=True)
    t.load('B', 'FX', F)
    t.m.analyze_linear()
    v = t.m.members['B1'].axial(h.q(0), 'Combo 1')
    if M.active['Combo 1']:
        h.le(v, T, 'kept within the tolerance')
        h.le(M.axial(h.q(0), 'Combo 1'), T, 'force within the tolerance')
    else:
        h.lt(T, v, 'switched off beyond the tolerance')


@harness('A08', params=[{'kind': k, 'how': w} for k, w in (('t', 'pd'), ('c', 'pd-d'))], timeout=400)
def p_delta(h, kind, how):
    """second-order analysis of a braced plane column: law, flags"""
    d = Desc(h)
    d.mat('S', h.q(100), h.q(40))
    d.node('A', 0, 0, 0)
    d.node('B', 0, 3, 0)
    d.node('C', 4, 0, 0)
    d.member('M1', 'A', 'B', kind='up')
    d.member('B1', 'B', 'C', A=1, Iy=1, Iz=1, J=1, **({'tension_only': True} if kind == 't' else {'comp_only': True}))
    d.support('A')
    d.support('B', 'Zxy')
    d.support('C')
    d.load('B', 'FX', h.real('F', lo=-2, hi=2))
    run(d.m, how)
    M = d.m.members['B1']
    if M.active['Combo 1']:
        for x in (h.q(0), h.q(5)):
            v = M.axial(x, 'Combo 1')
            (h.le(v, h.q(0), 'no compression') if kind == 't' else h.le(h.q(0), v, 'no tension'))
    else:
        h.zero(M.f('Combo 1'), 'inactive end forces')


MIX = {'t-spring': ('t', 'c', None), 'c-spring': ('c', 't', None), 't-support': ('t', None, '-'), 'c-support': ('c', None, '+'),
       'all': ('t', 'c', '+'), 'all2': ('c', 'c', '-')}


@harness('A08', params=[{'mix': m, 'how': w} for m in sorted(MIX) for w in ('gen', 'gen-d')], timeout=500)
def mixed(h, mix, how):
    """one-way members next to one-way springs and one-way spring supports: each obeys its own law, and the structure is balanced"""
    from checks import A09, A10
    b, s, r = MIX[mix]
    d = frame(h, b)
    if s:
        d.spring('S1', 'D', 'B', h.q(30), **A09.KW[s])
    if r:
        d.support_spring('C', 'DX', h.q(10), r)
    d.load('B', 'FX', h.real('F'))
    d.load('C', 'FX', h.real('G'), 'L')
    combos(d, 'UV')
    run(d.m, how)
    for n in 'UV':
        off = [x for x in d.mem if not law(h, d, x, n)]
        off += [x for x in d.spr if not A09.law(h, d, x, n)]
        d.check_equilibrium(n, fac(h, n), inactive=off, off=A10.law(h, d, n), tag=n + ' ')
