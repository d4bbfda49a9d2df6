"""Load combinations contain exactly what was put in them."""
from engine.harness import harness
from checks.models import *
from checks.A03 import results

BOUNDS = ('Up to three combinations with symbolic factors built from given and shared dictionaries, AddLoadCase and DeleteLoadCase in sequences of up to four steps '
          'chosen by the solver; loads of every kind in up to five cases; portal frame and plates analysed with the combinations that result.')
ASSUMPTIONS = ('Load combinations are found under the name they were added with; a second one of the same name replaces the first.',)


def combo(n, f=None, tags=None):
    from PyNite.LoadCombo import LoadCombo
    return LoadCombo(n, tags, f) if f is not None else LoadCombo(n, tags)


def content(h, c, want, lab):
    h.same(sorted(c.factors), sorted(want), lab + ' cases')
    for k in want:
        h.eq(c.factors[k], want[k], lab + ' factor')


@harness('E05', params=[{'how': k} for k in ('given', 'shared', 'none', 'model', 'model-shared', 'models')], timeout=300, max_paths=6000)
def sequences(h, how):
    """any sequence of edits changes one combination and nothing else"""
    m, m2 = FE(), FE()
    a, b = h.real('a'), h.real('b')
    given = {'D': a, 'L': b}
    other = given if 'shared' in how or how == 'models' else {'D': b, 'W': h.q(3)}
    if how in ('given', 'shared'):
        C = [combo('X', given), combo('Y', other, ['t'])]
    elif how == 'none':
        C, given, other = [combo('X'), combo('Y', None, ['t'])], {}, {}
    else:
        m.add_load_combo('X', given)
        (m2 if how == 'models' else m).add_load_combo('Y', other, ['t'])
        C = [m.load_combos['X'], (m2 if how == 'models' else m).load_combos['Y']]
    h.same([c.name for c in C], ['X', 'Y'], 'names')
    h.same([c.combo_tags for c in C], [None, ['t']], 'tags')
    want = [dict(given), dict(other)]
    keep = dict(given)
    for k in range(3):
        i, op, case = h.choice('combo%d' % k, [0, 1]), h.choice('op%d' % k, ['add', 'delete']), h.choice('case%d' % k, ['D', 'W'])
        if op == 'add':
            f = h.real('f%d' % k)
            C[i].AddLoadCase(case, f)
            want[i][case] = f
        else:
            if case not in want[i]:
                h.raises(lambda: C[i].DeleteLoadCase(case), (KeyError,), 'no such case')
            else:
                C[i].DeleteLoadCase(case)
                del want[i][case]
        for j in range(2):
            content(h, C[j], want[j], 'combination')
    h.same(sorted(given), sorted(keep), 'the given dictionary is not changed')


@harness('E05', timeout=100)
def caller_changes(h):
    """changing the dictionary later does not change the combination"""
    m = FE()
    f = {'D': h.real('a')}
    m.add_load_combo('X', f)
    c = combo('Y', f)
    a = f['D']
    f['D'] = h.real('b')
    f['L'] = h.q(1)
    content(h, m.load_combos['X'], {'D': a}, 'model')
    content(h, c, {'D': a}, 'class')


def loaded(h, cases, names):
    m = FE()
    q = h.q
    m.add_material('S', q(200), q(80), q('0.25'), q('0.1'))
    for k, X in enumerate(((0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0))):
        m.add_node('n%d' % k, *[q(c) for c in X])
    m.add_member('m', 'n0', 'n1', 'S', q(1), q(1), q(1), q(1))
    m.add_plate('p', 'n0', 'n1', 'n2', 'n3', q(1), 'S')
    m.add_quad('q', 'n0', 'n1', 'n2', 'n3', q(1), 'S')
    f = {'node': lambda c: m.add_node_load('n3', 'FX', h.real('P'), c),
         'moment': lambda c: m.add_node_load('n0', 'MZ', h.real('M'), c),
         'point': lambda c: m.add_member_pt_load('m', 'Fy', h.real('p'), q('1/2'), c),
         'line': lambda c: m.add_member_dist_load('m', 'FY', h.real('w'), q(1), q(0), q(1), c),
         'weight': lambda c: m.add_member_self_weight('FY', h.real('f'), c),
         'plate': lambda c: m.add_plate_surface_pressure('p', h.real('pp'), c),
         'quad': lambda c: m.add_quad_surface_pressure('q', h.real('pq'), c)}
    used = []
    for k, n in enumerate(names):
        c = h.choice('case%d' % k, cases)
        if c is None:
            continue
        f[n](c)
        used.append(c)
    return m, used


@harness('E05', params=[{'names': n} for n in (('node', 'point', 'line'), ('moment', 'weight', 'plate'), ('plate', 'quad', 'node'), ('line', 'line', 'quad'), ('point', 'plate'))] +
         [{'names': n, '_tier': 'thorough'} for n in (('node', 'point', 'line', 'plate', 'quad'), ('moment', 'weight', 'weight', 'quad', 'plate'))], timeout=300, max_paths=6000)
def cases_found(h, names):
    m, used = loaded(h, ['b', 'A', 'a', None, 'Case 1'], names)
    h.same(list(m.load_cases), sorted(set(used)), 'all load cases, once, in alphabetical order')


@harness('E05', params=[{'names': n, 'how': a} for n in (('node', 'point'), ('moment', 'line'), ('weight', 'plate'), ('quad', 'node')) for a in ('lin', 'gen')], timeout=300)
def only_its_cases(h, names, how):
    """a combination responds to exactly its own cases"""
    out = []
    for solo in (False, True):
        m, used = loaded(h, ['A', 'B', 'C'], names)
        a, b = h.real('a'), h.real('b')
        if solo:
            m.add_load_combo('X', {'A': a, 'C': h.q(0), 'unused': h.q(4)})
        else:
            m.add_load_combo('W', {'C': h.q(1)})
            m.add_load_combo('X', {'B': h.q(5)})
            m.add_load_combo('Y', {'A': b, 'B': a})
            m.load_combos['X'].AddLoadCase('A', a)
            m.load_combos['X'].DeleteLoadCase('B')
            m.load_combos['Y'].DeleteLoadCase('A')
        for n in ('n0', 'n3'):
            m.def_support(n, True, True, True, True, True, True)
        run(m, how)
        out.append([getattr(n, k)['X'] for n in m.nodes.values() for k in DOFS] + [getattr(n, 'Rxn' + k)['X'] for n in m.nodes.values() for k in FDIR])
        if not solo:
            h.same(sorted(m.nodes['n1'].DX), ['W', 'X', 'Y'], 'results of every combination')
    h.alleq(out[0], out[1], 'results')


@harness('E05', params=[{'how': a} for a in ('gen', 'lin')], timeout=300)
def default(h, how):
    """without combinations: one that contains case 'Case 1' once"""
    m, used = loaded(h, ['Case 1', 'Z'], ('node', 'line'))
    n, u2 = loaded(h, ['Case 1', 'Z'], ('node', 'line'))
    n.add_load_combo('Combo 1', {'Case 1': h.q(1)})
    for x in (m, n):
        for k in ('n0', 'n3'):
            x.def_support(k, True, True, True, True, True, True)
        run(x, how)
    h.same(list(m.load_combos), ['Combo 1'], 'one combination')
    content(h, m.load_combos['Combo 1'], {'Case 1': h.q(1)}, 'default')
    for k in DOFS:
        h.alleq([getattr(x, k)['Combo 1'] for x in m.nodes.values()], [getattr(x, k)['Combo 1'] for x in n.nodes.values()], 'displacements')
