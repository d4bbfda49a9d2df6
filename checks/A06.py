"""Combination tags select exactly the tagged combinations."""
from engine.harness import harness
from checks.models import *

BOUNDS = ('Four combinations, of which the tags (subsets of two tags, or none) and the requested tags are all symbolic (decided by case '
          'splitting over every assignment); cantilever with symbolic load; general, linear-only and P-Delta analysis.')


def model(h, L=None):
    d, _ = cantilever(h, L=h.q(3), fixed=dict(E=h.q(10), G=h.q(4), Iy=h.q(2), Iz=h.q(3), J=h.q(1), A=h.q(1)))
    d.load('B', 'FZ', h.real('P'))
    return d


@harness('A06', params=[{'how': s} for s in ('gen', 'lin', 'pd', 'gen-d')], timeout=600, max_paths=9000)
def selection(h, how):
    d = model(h)
    tags = {}
    for n in ('U', 'V', 'W'):
        t = h.choice('tag' + n, [None, ['a'], ['b'], ['a', 'b'], []])
        tags[n] = t
        d.m.add_load_combo(n, {'Case 1': {'U': 1, 'V': 2, 'W': 3}[n]}, t)
    want = h.choice('want', [None, ['a'], ['b'], ['b', 'a'], ['c'], []])
    run(d.m, how, combo_tags=want)
    B = d.m.nodes['B']
    for k, n in enumerate(('U', 'V', 'W')):
        sel = want is None or (tags[n] is not None and bool(set(tags[n]) & set(want)))
        h.same(n in B.DX, sel, n + ' displacements')
        h.same(n in d.m.nodes['A'].RxnFX, sel, n + ' reactions')
        h.same(n in d.m._D, sel, n + ' solved')
        if sel:
            h.eq(d.m.nodes['A'].RxnFZ[n], -(k + 1) * h.real('P'), n + ' value')
    h.same(sorted(d.m.load_combos), ['U', 'V', 'W'], 'combinations stay')


@harness('A06', params=[{'how': s} for s in ('gen', 'lin', 'pd')])
def default(h, how):
    """without combinations a default one of Case 1 is used; loads in other cases are not in it"""
    d = model(h)
    d.load('B', 'FX', h.real('other'), 'Case 2')
    run(d.m, how)
    h.same(list(d.m.load_combos), ['Combo 1'], 'default combination')
    c = d.m.load_combos['Combo 1']
    h.same(list(c.factors), ['Case 1'], 'default case')
    h.eq(c.factors['Case 1'], 1, 'default factor')
    h.eq(d.m.nodes['A'].RxnFZ['Combo 1'], -h.real('P'), 'reaction FZ')
    h.eq(d.m.nodes['A'].RxnFX['Combo 1'], 0, 'reaction FX')


@harness('A06', params=[{'how': s} for s in ('gen', 'lin', 'pd')])
def unilateral(h, how):
    """only the requested combinations are iterated: an unrequested one with no solution does not disturb"""
    d = model(h)
    d.support_spring('B', 'DY', h.q(5), '+')
    d.load('B', 'FY', h.pos('Q'))
    d.m.add_load_combo('U', {'Case 1': 1}, ['a'])
    d.m.add_load_combo('V', {'Case 1': -1}, ['b'])
    run(d.m, how, combo_tags=['b'])
    h.same(sorted(d.m._D), ['V'], 'solved')
    h.same(sorted(d.m.nodes['B'].DY), ['V'], 'stored')
