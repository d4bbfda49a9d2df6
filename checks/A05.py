"""Results depend only on the current model, not on history."""
from engine.harness import harness
from checks.whole import *
from checks.A03 import results

BOUNDS = ('Portal frame with one-way springs, supports and members; histories of two to four steps (analyses of every kind, edits of loads, '
          'supports, releases, materials, sections, nodes, combinations, result queries); results of the last analysis against a '
          'freshly built model; combinations in both orders and alone. Symbolic loads on linear models, symbolic lateral load on one-way models.')


def compare(h, d1, d2, combos, c='3/2', defl=True, tag=''):
    for n in combos:
        for (l, u), (_, v) in zip(results(h, d1, n, h.q(c), defl), results(h, d2, n, h.q(c), defl)):
            h.eq(u, v, '%s%s %s' % (tag, n, l))


def base(h):
    d = portal(h)
    d.load('B', 'FX', h.real('F'))
    d.load('C', 'FZ', h.real('Fz'), 'L')
    d.mload('M2', ('dist', 'FY', h.real('w1'), h.real('w2'), h.q(1), h.q(3)))
    d.support_spring('C', 'DZ', h.q(6))
    return d


def combos(d, names='UV'):
    for n in names:
        d.m.add_load_combo(n, {'U': {'Case 1': 1}, 'V': {'Case 1': d.q('1/2'), 'L': d.q('3/2')}, 'W': {'L': 2}}[n])


# edits: applied to an analysed model, or to a fresh one before its first analysis
def e_load(h, d):
    d.load('C', 'MZ', h.real('mz'))
    d.mload('M1', ('pt', 'FX', h.real('p'), h.q(1)))


def e_support(h, d):
    d.support('C', 'Z')
    d.support('D', 'XYZxyz')


def e_unsupport(h, d):
    d.support('D', 'YZ')


def e_release(h, d):
    d.m.def_releases('M2', Rzi=True)


def e_unrelease(h, d):
    d.m.def_releases('M3', Rzi=True)
    d.m.def_releases('M3')


def e_material(h, d):
    d.m.materials['S'].E = h.q(300)
    for M in d.m.members.values():
        M.E = h.q(300)


def e_section(h, d):
    d.m.members['M2'].Iz = h.q(7)
    d.m.members['M2'].A = h.q(1)


def e_spring(h, d):
    d.m.def_support_spring('C', 'DZ', h.q(60), None)
    d.m.def_support_spring('B', 'DX', h.q(5), None)


def e_node(h, d):
    d.m.add_node('Q', 2, 3, 0)
    d.m.add_node_load('Q', 'FY', h.real('q'))


def e_member(h, d):
    d.m.add_node('E', 4, 3, 5)
    d.m.def_support('E', True, True, True, True, True, True)
    d.m.add_member('M9', 'E', 'C', 'S', h.q(1), h.q(1), h.q(1), h.q(1))


def e_move(h, d):
    d.m.nodes['D'].Y = h.q(-1)


def e_disp(h, d):
    d.m.def_node_disp('D', 'DX', h.real('u'))


def e_clear(h, d):
    d.m.nodes['B'].NodeLoads.clear()
    d.m.members['M2'].DistLoads.clear()


def e_case(h, d):
    d.m.add_load_combo('V', {'L': h.q(3)})


EDITS = {f.__name__[2:]: f for f in (e_load, e_support, e_unsupport, e_release, e_unrelease, e_material, e_section, e_spring, e_node,
                                     e_member, e_move, e_disp, e_clear, e_case)}


@harness('A05', params=[{'edit': e} for e in sorted(EDITS)] + [{'edit': e, 'first': 'pd', '_tier': 'thorough'} for e in sorted(EDITS)] +
         [{'edit': e, 'first': 'lin', 'last': 'lin-d', '_tier': 'thorough'} for e in sorted(EDITS)], timeout=500)
def edit(h, edit, first='gen', last='gen'):
    """analyse, query, edit, analyse: as if the edited model had been built at once"""
    out = []
    for hist in (True, False):
        d = base(h)
        if first == 'pd':
            d.m.nodes['B'].NodeLoads.clear()
            d.m.members['M2'].DistLoads.clear()
            d.m.add_node_load('B', 'FY', h.q(-5))
        combos(d)
        if hist:
            run(d.m, first)
            for n in 'UV':
                results(h, d, n, h.q('1/2'), False)
        EDITS[edit](h, d)
        run(d.m, last)
        out.append(d)
    compare(h, out[0], out[1], 'UV')


@harness('A05', params=[{'seq': s} for s in (['gen', 'gen'], ['lin', 'gen'], ['gen', 'lin'], ['pd', 'gen'], ['pd', 'lin'], ['gen-d', 'gen'], ['gen', 'pd'],
                                             ['pd', 'pd'], ['pd', 'gen', 'pd'], ['lin', 'pd-d', 'lin-d'])], timeout=500)
def again(h, seq):
    """any sequence of analyses ends with the results of the last one alone"""
    out = []
    for s in (seq, seq[-1:]):
        d = portal(h)
        d.load('C', 'FZ', h.real('Fz'), 'L')
        d.load('B', 'FY', h.q(-30))
        d.load('C', 'FY', h.q(-20))
        d.mload('M1', ('dist', 'FZ', h.real('w1'), h.real('w2'), h.q(1), h.q(3)))
        d.support_spring('C', 'DZ', h.q(6))
        combos(d)
        for a in s:
            run(d.m, a)
            if a != s[-1]:
                results(h, d, 'U', h.q('1/2'), False)
        out.append(d)
    compare(h, out[0], out[1], 'UV', defl=False)
    h.same(out[0].m.solution, out[1].m.solution, 'solution flag')


def unilateral(h, kind):
    d = portal(h)
    if kind == 'member':
        d.member('B1', 'A', 'C', A=1, Iy=1, Iz=1, J=1, tension_only=True)
        d.member('B2', 'B', 'D', A=1, Iy=1, Iz=1, J=1, comp_only=True)
    elif kind == 'spring':
        d.spring('S1', 'A', 'C', h.q(20), tension_only=True)
        d.spring('S2', 'B', 'D', h.q(30), comp_only=True)
    else:
        d.support_spring('B', 'DX', h.q(20), '+')
        d.support_spring('C', 'DX', h.q(10), '-')
        d.support_spring('C', 'RZ', h.q(10), '-')
    d.load('B', 'FX', h.real('F'))
    d.load('C', 'FX', h.real('G'), 'L')
    return d


@harness('A05', params=[{'kind': k, 'how': a} for k in ('member', 'spring', 'support') for a in ('gen', 'gen-d')] +
         [{'kind': k, 'how': 'pd', '_tier': 'thorough'} for k in ('member', 'spring', 'support')], timeout=500)
def combo_independent(h, kind, how):
    """each combination alone, first, last: same results, same active states"""
    out = {}
    for names in ('UV', 'VU', 'U', 'V', 'WUV'):
        d = unilateral(h, kind)
        combos(d, names)
        run(d.m, how)
        out[names] = d
    for a, b, c in (('UV', 'U', 'U'), ('UV', 'V', 'V'), ('UV', 'VU', 'UV'), ('UV', 'WUV', 'UV')):
        compare(h, out[a], out[b], c, defl=False, tag='%s/%s ' % (a, b))


@harness('A05', params=[{'kind': k} for k in ('member', 'spring', 'support')], timeout=500)
def reactivated(h, kind):
    """a second analysis after reversing the load starts with every one-way element active again"""
    out = []
    for hist in (True, False):
        d = unilateral(h, kind)
        combos(d)
        if hist:
            d.m.analyze()
            results(h, d, 'U', h.q('1/2'), False)
        d.m.nodes['B'].NodeLoads.clear()
        d.m.add_node_load('B', 'FX', h.real('H'))
        d.m.nodes['C'].NodeLoads.clear()
        d.m.analyze()
        out.append(d)
    compare(h, out[0], out[1], 'UV', defl=False)


@harness('A05', timeout=500)
def tags_then_all(h):
    """analysing some combinations first changes nothing later; results of combinations are not mixed up by queries"""
    out = []
    for hist in (True, False):
        d = base(h)
        d.m.add_load_combo('U', {'Case 1': 1}, ['a'])
        d.m.add_load_combo('V', {'Case 1': h.q('1/2'), 'L': h.q('3/2')}, ['b'])
        if hist:
            d.m.analyze(combo_tags=['b'])
            results(h, d, 'V', h.q('1/2'), False)
            d.m.analyze(combo_tags=['a'])
        d.m.analyze()
        out.append(d)
    compare(h, out[0], out[1], 'UV')


@harness('A05', timeout=500)
def interleaved_queries(h):
    """asking for results in any order returns the same values"""
    d = base(h)
    combos(d)
    d.m.analyze()
    c = h.q('3/2')
    M = d.m.members['M2']
    first = {n: (point_results(M, c, n), M.deflection('dy', c, n), M.deflection('dz', c, n)) for n in 'UV'}
    for n in 'VU':
        M.rel_deflection('dy', c, n)
    for n in 'VUUV':
        r = point_results(M, c, n)
        for k in r:
            h.eq(r[k], first[n][0][k], '%s %s' % (n, k))
        h.eq(M.deflection('dz', c, n), first[n][2], n + ' dz')
        h.eq(M.deflection('dy', c, n), first[n][1], n + ' dy')


@harness('A05', timeout=300)
def independent_models(h):
    """two models in one process do not influence each other"""
    a = base(h)
    combos(a)
    b = portal(h)
    b.load('B', 'FY', h.real('other'))
    b.m.add_load_combo('U', {'Case 1': h.q(5)})
    b.m.analyze()
    a.m.analyze()
    b.m.analyze()
    c = base(h)
    combos(c)
    c.m.analyze()
    compare(h, a, c, 'UV')


@harness('A05', params=[{'kinds': k, 'seq': s, 'shift': i} for k, s, i in (('ms', ('gen', 'gen'), 0), ('ms', ('lin-d', 'gen'), 0), ('ms', ('pd', 'lin'), 0), ('spq', ('gen', 'gen'), 1), ('spq', ('gen-d', 'lin'), 2))], timeout=500)
def every_element(h, kinds, seq, shift):
    """everything prescribed, analysed, freed onto spring supports, all loads deleted and applied again, analysed: as a fresh model"""
    m = structure(h, kinds, shift=shift)
    at = hold(h, m, 'held')
    cs = {c: {k: h.q(v) for k, v in f.items()} for c, f in COMBOS.items()}
    for c, f in cs.items():
        m.add_load_combo(c, dict(f))
    if seq[0] == 'pd':
        for k, (n, dof) in enumerate(at):       # the axial forces enter nonlinearly: no movement, no axial loads in the first analysis
            m.def_node_disp(n, DOFS[dof], h.q(k % 3))
    run(m, seq[0])
    m.delete_loads()
    for n in m.nodes:
        m.def_support(n)
        for f in DOFS:
            m.def_node_disp(n, f, None)
    hold(h, m, 'springs')
    load_all(h, m)
    run(m, seq[1])
    m2, _, _, _ = solved(h, 'springs', seq[1], kinds=kinds, shift=shift)
    for c in cs:
        for (l, u), (_, v) in zip(state(h, m, c), state(h, m2, c)):
            h.eq(u, v, '%s %s' % (c, l))
