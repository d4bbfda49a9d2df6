"""Tension/compression-only springs obey their unilateral law."""
from engine.harness import harness
from checks.models import *
from checks.A08 import combos, fac

BOUNDS = ('Portal frame and a guyed column with one to three one-way springs (tension-only, compression-only, mixed, horizontal, vertical and '
          'oblique); one or two symbolic loads of either sign, symbolic spring stiffness; up to three combinations per analysis; sparse and dense '
          'general analysis; spring force against stiffness times elongation; P-Delta with a small braced column.')


def elongation(h, d, name, D):
    i, j, ks = d.spr[name]
    e, L = d.unit(i, j)
    return h.dot(e, [D[(j, k)] - D[(i, k)] for k in range(3)])


def law(h, d, name, combo):
    S = d.m.springs[name]
    D = d.disps(combo)
    i, j, ks = d.spr[name]
    act = S.active[combo] == True
    tag = '%s %s ' % (combo, name)
    if act:
        s = elongation(h, d, name, D)
        h.eq(S.axial(combo), -ks * s, tag + 'axial force')
        if S.tension_only:
            h.le(h.q(0), s, tag + 'not compressed')
        if S.comp_only:
            h.le(s, h.q(0), tag + 'not stretched')
    else:
        h.same(bool(S.tension_only or S.comp_only), True, tag + 'only one-way springs are switched off')
        h.eq(S.axial(combo), h.q(0), tag + 'inactive axial')
        h.zero(S.f(combo), tag + 'inactive local forces')
        h.zero(S.F(combo), tag + 'inactive global forces')
    return act


def twin_allows(h, d, t, combo):
    D = t.disps(combo)
    cs = []
    for n in d.spr:
        S = d.m.springs[n]
        s = elongation(h, d, n, D)
        if S.tension_only:
            cs.append(s >= 0)
        if S.comp_only:
            cs.append(s <= 0)
    return h.And(*cs)


KW = {'t': dict(tension_only=True), 'c': dict(comp_only=True), 'o': {}}


def frame(h, kinds, ordinary=False, k=None):
    d = portal(h)
    for c, (n, i, j, ks) in zip(kinds, (('S1', 'A', 'C', 20), ('S2', 'D', 'B', 30), ('S3', 'A', 'B', 5))):
        d.spring(n, i, j, h.q(ks) if k is None else k, **({} if ordinary else KW[c]))
    return d


@harness('A09', params=[{'kinds': k, 'how': w} for k in ('t', 'c', 'tt', 'tc', 'oc') for w in ('gen', 'gen-d')] + [{'kinds': 'cct', 'how': 'gen'}], timeout=500)
def braces(h, kinds, how):
    out = []
    for ordinary in (False, True):
        d = frame(h, kinds, ordinary)
        d.load('B', 'FX', h.real('F'))
        d.load('C', 'FX', h.real('G'), 'L')
        d.load('C', 'FY', h.q(-2))
        combos(d, 'UVW')
        (run if not ordinary else lambda m, w: m.analyze_linear())(d.m, how)
        out.append(d)
    d, t = out
    for n in 'UVW':
        off = [s for s in d.spr if not law(h, d, s, n)]
        d.check_equilibrium(n, fac(h, n), inactive=off, tag=n + ' ')
        if off:
            h.cond(h.Not(twin_allows(h, d, t, n)), n + ' no spring is switched off without need')
        elif len(kinds) == 1:
            h.cond(twin_allows(h, d, t, n), n + ' a single spring acts when the law allows it')


@harness('A09', params=[{'kind': k} for k in 'tco'], timeout=500)
def stiffness(h, kind):
    """any spring stiffness"""
    d = frame(h, kind, k=h.pos('k'))
    F = h.real('F')
    d.load('B', 'FX', F)
    d.m.analyze()
    off = [s for s in d.spr if not law(h, d, s, 'Combo 1')]
    if kind == 'o':
        h.same(off, [], 'ordinary spring stays')
    else:
        h.cond(h.Implies(F > 0, h.same_cond(not off, kind == 't')), 'sway right')
        h.cond(h.Implies(F < 0, h.same_cond(not off, kind == 'c')), 'sway left')
    d.check_equilibrium('Combo 1', inactive=off)


@harness('A09', params=[{'kinds': k} for k in ('ttt', 'ccc', 'tct')], timeout=500)
def guyed(h, kinds):
    """column top held by three springs in space (vertical, oblique), load in two directions"""
    d = Desc(h)
    d.mat('S', h.q(100), h.q(40))
    d.node('A', 0, 0, 0)
    d.node('B', 0, 6, 0)
    for n, p in (('C', (2, 3, 6)), ('D', (-2, 0, 3)), ('E', (0, 9, 0))):
        d.node(n, *p)
        d.support(n)
    d.member('M1', 'A', 'B', kind='up')
    d.support('A')
    for c, (n, i, j) in zip(kinds, (('S1', 'B', 'C'), ('S2', 'D', 'B'), ('S3', 'B', 'E'))):
        d.spring(n, i, j, h.q(7), **KW[c])
    d.load('B', 'FX', h.real('F'))
    d.load('B', 'FZ', h.real('G'))
    d.load('B', 'FY', h.q(1))
    d.m.analyze()
    off = [s for s in d.spr if not law(h, d, s, 'Combo 1')]
    d.check_equilibrium('Combo 1', inactive=off)


@harness('A09', params=[{'how': w} for w in ('lin', 'lin-d')], timeout=500)
def linear_only(h, how):
    """the linear-only analysis treats every spring as an ordinary one"""
    d = frame(h, 'tc')
    d.load('B', 'FX', h.real('F'))
    d.load('C', 'FY', h.real('G'))
    run(d.m, how)
    for S in d.m.springs.values():
        h.same(S.active['Combo 1'], True, 'linear analysis keeps ' + S.name)
    d.check_equilibrium('Combo 1')


@harness('A09', timeout=500)
def tolerance(h):
    """forces within the spring tolerance are kept, larger ones are not"""
    T, F = h.pos('T'), h.real('F')
    d = frame(h, 't')
    d.load('B', 'FX', F)
    d.m.analyze(spring_tolerance=T)
    t = frame(h, 't', True)
    t.load('B', 'FX', F)
    t.m.analyze_linear()
    v = t.m.springs['S1'].axial('Combo 1')
    if d.m.springs['S1'].active['Combo 1']:
        h.le(v, T, 'kept within the tolerance')
    else:
        h.lt(T, v, 'switched off beyond the tolerance')


@harness('A09', params=[{'kind': k, 'how': w} for k, w in (('t', 'pd'), ('c', 'pd-d'))], timeout=400)
def p_delta(h, kind, how):
    d = Desc(h)
    d.mat('S', h.q(100), h.q(40))
    d.node('A', 0, 0, 0)
    d.node('B', 0, 3, 0)
    d.node('C', 4, 0, 0)
    d.member('M1', 'A', 'B', kind='up')
    d.spring('S1', 'B', 'C', h.q(20), **KW[kind])
    d.support('A')
    d.support('B', 'Zxy')
    d.support('C')
    d.load('B', 'FX', h.real('F', lo=-2, hi=2))
    run(d.m, how)
    law(h, d, 'S1', 'Combo 1')
