"""Sparse and dense solvers give identical results."""
from engine.harness import harness
from checks.whole import *
from checks.A03 import results
BOUNDS = ('Frames with members, springs, spring supports, one-way members, springs and supports, releases, enforced displacements, fully '
          'restrained models, plates and quads; symbolic load magnitudes; two combinations; general, linear-only and P-Delta analysis; all '
          'displacements, reactions and member forces compared. P-Delta: symbolic lateral loads, rational axial loads.')

PAIRS = ('gen', 'lin', 'pd')


def frame(h, pd, kind):
    d = portal(h)
    if kind == 'tc':
        d.member('B1', 'A', 'C', A=1, Iy=1, Iz=1, J=1, tension_only=True)
        d.member('B2', 'B', 'D', A=1, Iy=1, Iz=1, J=1, tension_only=True)
    if kind == 'tcs':
        d.spring('S1', 'A', 'C', h.q(20), tension_only=True)
        d.spring('S2', 'B', 'D', h.q(30), comp_only=True)
    if kind == 'oneway':
        d.support_spring('C', 'DX', h.q(20), '+')
        d.support_spring('B', 'DX', h.q(10), '-')
        d.support_spring('B', 'DZ', h.q(10))
    if kind == 'enf':
        d.disp('D', 'DX', h.real('u'))
        d.disp('A', 'RZ', h.real('v'))
        d.support_spring('C', 'DZ', h.q(5))
    if kind == 'fixed':
        for n in 'ABCD':
            d.support(n)
        d.disp('B', 'DX', h.real('u'))
    sym = (lambda n: h.real(n)) if kind not in ('tc', 'tcs', 'oneway') else (lambda n: h.real(n) if n in ('F', 'F2') else h.q(0))
    d.load('B', 'FX', sym('F'))
    d.load('C', 'FX', sym('F2'), 'L')
    d.load('C', 'FZ', sym('Fz'))
    d.load('B', 'FY', h.q(-40))
    d.load('C', 'FY', h.q(-60))
    if not pd or kind != 'enf':
        d.mload('M2', ('dist', 'FY', sym('w') if not pd else h.q(-3), sym('w') if not pd else h.q(-5), h.q(0), h.q(4)), 'L')
    d.mload('M1', ('dist', 'FZ', sym('wz'), sym('wz2'), h.q(0), h.q(3)))
    d.m.add_load_combo('U', {'Case 1': 1})
    d.m.add_load_combo('V', {'Case 1': h.q('1/2'), 'L': h.q('3/2')})
    return d


@harness('A04', params=[{'how': a, 'kind': k} for a in PAIRS for k in ('plain', 'fixed', 'enf') if (a, k) != ('pd', 'enf')] +
         [{'how': a, 'kind': k} for a in ('gen',) for k in ('tc', 'tcs', 'oneway')] +
         [{'how': 'pd', 'kind': k, '_tier': 'thorough'} for k in ('tc', 'tcs', 'oneway')], timeout=700)
def frames(h, how, kind):
    R = []
    for tail in ('', '-d'):
        d = frame(h, how == 'pd', kind)
        if how == 'pd':
            # horizontal loads change the axial forces: keep them out of the stiffness by fixing their values
            d.m.nodes['B'].NodeLoads = [l for l in d.m.nodes['B'].NodeLoads if l[0] != 'FX']
            d.m.nodes['C'].NodeLoads = [l for l in d.m.nodes['C'].NodeLoads if l[0] != 'FX']
        run(d.m, how + tail)
        R.append(results(h, d, 'U', h.q('3/2'), how != 'pd') + results(h, d, 'V', h.q('3/2'), how != 'pd'))
    for (l, u), (_, v) in zip(*R):
        h.eq(u, v, l)


@harness('A04', params=[{'how': a, 'el': e} for a in PAIRS for e in ('plate', 'quad')], timeout=700)
def surfaces(h, how, el):
    """one element carried by corner supports, with a spring support and a member"""
    R = []
    for tail in ('', '-d'):
        d = Desc(h)
        d.mat('S', h.q(100), h.q(40))
        for n, x, y in (('A', 0, 0), ('B', 4, 0), ('C', 4, 3), ('D', 0, 3)):
            d.node(n, x, y, 0)
        add = d.m.add_plate if el == 'plate' else d.m.add_quad
        add('P1', 'A', 'B', 'C', 'D', h.q('1/2'), 'S')
        d.member('M1', 'C', 'D')
        d.support('A', 'XYZz')
        d.support('B', 'YZ')
        d.support('D', 'Zxz')
        d.support_spring('C', 'DZ', h.q(3))
        for f in ('FX', 'FZ', 'MX'):
            d.load('C', f, h.real('P' + f))
        (d.m.add_plate_surface_pressure if el == 'plate' else d.m.add_quad_surface_pressure)('P1', h.real('p'))
        if how == 'pd':
            d.m.nodes['C'].NodeLoads = [l for l in d.m.nodes['C'].NodeLoads if l[0] != 'FX']
            d.load('C', 'FX', h.q(2))
        run(d.m, how + tail, **({} if how == 'pd' else {}))
        P = (d.m.plates if el == 'plate' else d.m.quads)['P1']
        out = []
        for n in 'ABCD':
            for k in range(6):
                out.append((n + DOFS[k], getattr(d.m.nodes[n], DOFS[k])['Combo 1']))
                out.append((n + FDIR[k], getattr(d.m.nodes[n], 'Rxn' + FDIR[k])['Combo 1']))
        out += [('el%d' % k, v) for k, v in enumerate(h.col(P.F()))]
        out += [('m%d' % k, v) for k, v in enumerate(h.col(d.m.members['M1'].f('Combo 1')))]
        R.append(out)
    for (l, u), (_, v) in zip(*R):
        h.eq(u, v, l)


@harness('A04', params=[{'how': a} for a in PAIRS], timeout=400)
def assembled(h, how):
    """the assembled matrices themselves (stiffness and, for P-Delta, geometric stiffness) agree entry by entry"""
    d = frame(h, False, 'oneway')
    d.member('B1', 'A', 'C', A=h.pos('A1'), Iy=1, Iz=1, J=1)
    d.spring('S1', 'A', 'C', h.pos('ks'))
    for n in ('DX', 'DY', 'RZ'):
        d.support_spring('C', n, h.pos('k' + n))
    from PyNite import Analysis
    Analysis._prepare_model(d.m)
    a, b = d.m.K('U', False, False, True), d.m.K('U', False, False, False)
    h.alleq(a, b, 'K')
    if how == 'pd':
        d.m._D['U'] = h_col(h, 24)
        for n in d.m.nodes.values():
            for k, f in enumerate(DOFS):
                getattr(n, f)['U'] = d.m._D['U'][n.ID * 6 + k, 0]
        h.alleq(d.m.Kg('U', False, True, False), d.m.Kg('U', False, False, False), 'Kg')
        h.alleq(d.m.Kg('U', False, True, True), d.m.Kg('U', False, False, True), 'Kg first step')


@harness('A04', params=[{'shift': s, 'how': w} for s, w in ((0, 'springs'), (1, 'odd'))], timeout=400)
def assembled_all(h, shift, how):
    """stiffness and load vectors of a structure with every kind of element agree entry by entry"""
    m = structure(h, shift=shift)
    hold(h, m, how)
    m.add_load_combo('U', {'D': h.q(1), 'L': h.q(-2)})
    from PyNite import Analysis
    Analysis._prepare_model(m)
    a, b = m.K('U', False, False, True), m.K('U', False, False, False)
    h.alleq(a, b, 'K')


@harness('A04', params=[{'how': a, 'kinds': k, 'hold_as': w} for a, k, w in (('gen', 'ms', 'odd'), ('lin', 'ms', 'even'), ('gen', 'spq', 'odd'), ('lin', 'spq', 'springs'))], timeout=700)
def whole_structure(h, how, kinds, hold_as):
    R = []
    for tail in ('', '-d'):
        m, at, nodal, cs = solved(h, hold_as, how + tail, kinds=kinds, combos={'U': {'D': '3/2', 'L': '-2', 'W': '1'}})
        R.append(state(h, m, 'U'))
    for (l, u), (_, v) in zip(*R):
        h.eq(u, v, l)


@harness('A04', params=[{'how': a, 'dr': s} for a in ('gen', 'lin') for s in '+-'], timeout=500)
def one_way_supports(h, how, dr):
    """one-way spring supports in each of the six directions, resting or acting, any stiffness"""
    for k, f in enumerate(DOFS):
        R = []
        for tail in ('', '-d'):
            d, L = cantilever(h, L=h.q(3), fixed=dict(E=h.q(10), G=h.q(4), Iy=h.q(2), Iz=h.q(3), J=h.q(1), A=h.q(1)))
            d.support_spring('B', f, h.pos('k'), dr)
            d.load('B', FDIR[k], h.real('P'))
            d.load('B', FDIR[(k + 1) % 6], h.real('Q'))
            run(d.m, how + tail)
            R.append(results(h, d, 'Combo 1', h.q(1)))
        for (l, u), (_, v) in zip(*R):
            h.eq(u, v, f + l)


def h_col(h, n):
    return h.array([h.real('D%d' % k) if k % 6 < 2 else h.q(0) for k in range(n)]).reshape((n, 1))


@harness('A04', params=[{'how': a} for a in PAIRS], timeout=200)
def singular(h, how):
    """a mechanism is refused by both solvers"""
    for tail in ('', '-d'):
        d = Desc(h)
        d.mat('S', h.q(100), h.q(40))
        d.node('A', 0, 0, 0)
        d.node('B', 4, 0, 0)
        d.member('M1', 'A', 'B')
        d.support('A', 'XYZx')
        d.support('B', 'X')
        d.load('B', 'FY', h.real('P'))
        h.raises(lambda: run(d.m, how + tail), (Exception,), how + tail)
