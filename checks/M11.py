"""Member self-weight is volume times density in the chosen direction."""
from engine.harness import harness
from checks.common import *

BOUNDS = ('Models with two members of symbolic area, density, inertia and position, one of them sloping (symbolic or rational direction) and one '
          'defined by a section, every global direction, symbolic factor and load case; also members with intermediate nodes.')


@harness('M11', params=[{'g': g, 'kind': k} for g in ('FX', 'FY', 'FZ') for k in ('x', '2-1-2', 'up')] + [{'g': 'FY', 'kind': 'xz'}], timeout=300)
def total(h, g, kind):
    m = FE()
    from PyNite.Section import Section
    X1, X2 = coords_of(h, kind)
    r1, r2, A1, A2, f = h.pos('r1'), h.pos('r2'), h.pos('A1'), h.pos('A2'), h.real('f')
    m.add_material('S', h.q(7), h.q(3), h.q('0.3'), r1)
    m.add_material('C', h.q(2), h.q(1), h.q('0.2'), r2)
    m.add_node('N1', *X1)
    m.add_node('N2', *X2)
    d3 = (0, 5, 0) if kind == 'xz' else (3, 4, -12)
    L2 = 5 if kind == 'xz' else 13
    m.add_node('N3', *[a + b for a, b in zip(X2, d3)])
    m.add_member('M1', 'N1', 'N2', 'S', h.q(1), h.q(2), h.q(3), A1)
    m.add_section('Sec', Section(m, 'Sec', A2, h.q(1), h.q(1), h.q(1), 'C'))
    m.add_member('M2', 'N2', 'N3', 'C', section_name='Sec')
    fix(m, 'N1', 'N2', 'N3')
    m.add_member_self_weight(g, f, 'SW')
    m.add_load_combo('W', {'SW': h.q(1)})
    m.add_load_combo('V', {'SW': h.q('3/2'), 'Case 1': h.q(1)})
    m.add_load_combo('O', {'Case 1': h.q(1)})
    m.analyze(check_stability=False)
    L1 = h.sqrt(sum((b - a) * (b - a) for a, b in zip(X1, X2)))
    w1, w2 = f * r1 * A1 * L1, f * r2 * A2 * L2
    for name, k in (('W', h.q(1)), ('V', h.q('3/2')), ('O', h.q(0))):
        for d in ('FX', 'FY', 'FZ'):
            R = [getattr(m.nodes[n], 'Rxn' + d)[name] for n in ('N1', 'N2', 'N3')]
            e = [w1 / 2, w1 / 2 + w2 / 2, w2 / 2] if d == g else [h.q(0)] * 3
            for n in range(3):
                h.eq(R[n], -k * e[n], '%s %s N%d' % (name, d, n + 1))
    for nm, w in (('M1', f * r1 * A1), ('M2', f * r2 * A2)):
        D = m.members[nm].DistLoads
        h.same(len(D), 1, nm + ' loads')
        h.same((D[0][0], D[0][5]), (g, 'SW'), nm + ' direction, case')
        h.eq(D[0][1], w, nm + ' w1')
        h.eq(D[0][2], w, nm + ' w2')
        h.eq(D[0][3], 0, nm + ' x1')
        h.eq(D[0][4], m.members[nm].L(), nm + ' x2')


@harness('M11', timeout=300)
def adds_up(h):
    """self-weight adds to loads already there, can be added twice, defaults to all members; intermediate nodes change nothing"""
    m = FE()
    r, A, f, g, L, w = h.pos('r'), h.pos('A'), h.real('f'), h.real('g'), h.pos('L'), h.real('w')
    m.add_material('S', h.q(7), h.q(3), h.q('0.3'), r)
    m.add_node('N1', 0, 0, 0)
    m.add_node('N2', L, 0, 0)
    m.add_node('Q', L / 3, 0, 0)
    m.add_member('M1', 'N1', 'N2', 'S', h.q(1), h.q(2), h.q(3), A)
    fix(m, 'N1', 'N2')
    m.add_member_dist_load('M1', 'FY', w, w)
    m.add_member_self_weight('FY', f)
    m.add_member_self_weight('FZ', g)
    m.analyze()
    tot = lambda d: sum(getattr(m.nodes[n], 'Rxn' + d)['Combo 1'] for n in ('N1', 'N2'))
    h.eq(tot('FY'), -(w * L + f * r * A * L), 'FY')
    h.eq(tot('FZ'), -g * r * A * L, 'FZ')
    h.eq(tot('FX'), 0, 'FX')
