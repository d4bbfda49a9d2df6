"""The statics check reports true sums."""
from engine.harness import harness
from checks.whole import *

BOUNDS = ('Portal frame (away from the origin) with every load type, spring supports, springs, enforced displacements and one-way braces; a plate and '
          'a quad under pressure and nodal loads; two combinations with symbolic factors, with and without tags; the values in the '
          'printed table are compared exactly (to the printed digits on the real code). One structure with every kind of element in oblique positions.')
ASSUMPTIONS = ['No moments about the normal of a plate or quad (its drilling stiffness is a fictitious spring to the ground).']

COLS = (('Sum FX', 'Sum RX'), ('Sum FY', 'Sum RY'), ('Sum FZ', 'Sum RZ'), ('Sum MX', 'Sum RMX'), ('Sum MY', 'Sum RMY'), ('Sum MZ', 'Sum RMZ'))


def rows(h, tables):
    h.same(len(tables), 1, 'one table')
    t = tables[-1]
    names = list(t.field_names)
    h.same(names[0], 'Load Combination', 'first column')
    out = {}
    for r in t.rows:
        out[r[0]] = {n: h.number(x) for n, x in zip(names[1:], r[1:])}
    h.same(len(out), len(t.rows), 'one row per combination')
    return out


def verify(h, tables, applied, rx, X, combos, comps=range(6)):
    R = rows(h, tables)
    h.same(sorted(R), sorted(combos), 'combinations listed')
    for c in combos:
        F, M = applied(c)
        RF, RM = [h.q(0)] * 3, [h.q(0)] * 3
        for n in X:
            f = [rx(n, k, c) for k in range(6)]
            x = h.cross(X[n], f[:3])
            for k in range(3):
                RF[k] = RF[k] + f[k]
                RM[k] = RM[k] + f[3 + k] + x[k]
        for k in comps:
            a, b = (F[k], RF[k]) if k < 3 else (M[k - 3], RM[k - 3])
            h.close(R[c][COLS[k][0]], a, '%s %s' % (c, COLS[k][0]))
            h.close(R[c][COLS[k][1]], b, '%s %s' % (c, COLS[k][1]))
            h.close(R[c][COLS[k][1]], -R[c][COLS[k][0]], '%s %s balances' % (c, COLS[k][0]))


def go(m, how, **kw):
    f = {'gen': m.analyze, 'lin': m.analyze_linear}[how.split('-')[0]]
    f(check_statics=True, sparse=not how.endswith('-d'), **kw)


def moved(h, kind):
    tables = h.tables()
    d = Desc(h)
    d.mat('S', h.q(1000), h.q(400))
    for n, x, y in (('A', 0, 0), ('B', 0, 3), ('C', 4, 3), ('D', 4, 0)):
        d.node(n, x + 2, y - 5, 7)
    d.member('M1', 'A', 'B', kind='up')
    d.member('M2', 'B', 'C')
    d.member('M3', 'C', 'D', kind='down', A=3, Iy=2, Iz=1, J=1)
    d.support('A')
    d.support('D', 'XYZ')
    if kind == 'springs':
        d.support_spring('C', 'DX', h.pos('k1'))
        d.support_spring('B', 'DZ', h.pos('k3'))
        d.support_spring('B', 'RY', h.pos('k5'))
        d.spring('S1', 'A', 'C', h.q(7))
    if kind == 'enforced':
        d.disp('D', 'DY', h.real('u'))
        d.disp('A', 'RZ', h.real('r'))
    if kind == 'braces':
        d.member('B1', 'A', 'C', A=1, Iy=1, Iz=1, J=1, tension_only=True)
        d.member('B2', 'B', 'D', A=1, Iy=1, Iz=1, J=1, comp_only=True)
        d.support_spring('C', 'DX', h.q(9), '+')
    return d, tables


@harness('A13', params=[{'how': w, 'kind': k} for w in ('gen', 'lin-d') for k in ('plain', 'springs', 'enforced')] +
         [{'how': w, 'kind': 'plain'} for w in ('gen-d', 'lin')] + [{'how': 'gen', 'kind': 'braces'}], timeout=400)
def frame(h, how, kind):
    d, tables = moved(h, kind)
    if kind == 'braces':
        d.load('B', 'FX', h.real('F'))
        d.load('C', 'FX', h.q(3), 'L')
        d.mload('B1', ('dist', 'FY', h.q(-1), h.q(-2), h.q(0), h.q(5)), 'L')
        fs = {'U': {'Case 1': h.q(1)}, 'V': {'Case 1': h.q(1), 'L': h.q(2)}}
    else:
        node_loads(h, d, 'B')
        node_loads(h, d, 'A', tag='a', case='L')
        std_loads(h, d, 'M2', h.q(4), case='L')
        std_loads(h, d, 'M1', h.q(3), tag='c')
        fs = {'U': {'Case 1': h.real('f1')}, 'V': {'Case 1': h.real('f2'), 'L': h.real('f3')}}
    for n, f in fs.items():
        d.m.add_load_combo(n, f)
    go(d.m, how)

    verify(h, tables, lambda c: d.applied(fs[c]), lambda n, k, c: d.rxns(c)[(n, k)], d.X, fs)


@harness('A13', params=[{'how': w} for w in ('gen', 'lin')], timeout=400)
def default_combo(h, how):
    d, tables = moved(h, 'plain')
    node_loads(h, d, 'C')
    go(d.m, how)
    verify(h, tables, lambda c: d.applied({'Case 1': h.q(1)}), lambda n, k, c: d.rxns(c)[(n, k)], d.X, ['Combo 1'])


@harness('A13', params=[{'how': w} for w in ('gen', 'lin')], timeout=400)
def tagged(h, how):
    """only the analysed combinations are listed"""
    d, tables = moved(h, 'plain')
    node_loads(h, d, 'C')
    d.m.add_load_combo('U', {'Case 1': 1}, ['a'])
    d.m.add_load_combo('V', {'Case 1': 2}, ['b', 'c'])
    d.m.add_load_combo('W', {'Case 1': 3})
    go(d.m, how, combo_tags=['b'])
    verify(h, tables, lambda c: d.applied({'Case 1': h.q(2)}), lambda n, k, c: d.rxns(c)[(n, k)], d.X, ['V'])


@harness('A13', params=[{'el': e, 'plane': p} for e in ('plate', 'quad') for p in ('xy', 'xz', 'yz')], timeout=400)
def surface(h, el, plane):
    """pressure acts along the element normal with resultant p times area in its centre"""
    tables = h.tables()
    d = Desc(h)
    d.mat('S', h.q(100), h.q(40))
    pl = {'xy': lambda a, b: (a, b, 5), 'xz': lambda a, b: (a, 2, -b), 'yz': lambda a, b: (1, a, b)}[plane]
    nrm = {'xy': (0, 0, 1), 'xz': (0, 1, 0), 'yz': (1, 0, 0)}[plane]
    for n, x, y in (('A', 1, 2), ('B', 5, 2), ('C', 5, 5), ('D', 1, 5)):
        d.node(n, *pl(x, y))
        d.support(n, 'XYZxyz' if n in 'AB' else '')
    (d.m.add_plate if el == 'plate' else d.m.add_quad)('P1', 'A', 'B', 'C', 'D', h.q('1/2'), 'S')
    p = h.real('p')
    (d.m.add_plate_surface_pressure if el == 'plate' else d.m.add_quad_surface_pressure)('P1', p, 'L')
    # moments about the normal would act on the fictitious drilling stiffness only
    node_loads(h, d, 'C', dirs=[f for f in FDIR if f != {'xy': 'MZ', 'xz': 'MY', 'yz': 'MX'}[plane]])
    f1, f2 = h.real('f1'), h.real('f2')
    d.m.add_load_combo('U', {'Case 1': f1, 'L': f2})
    d.m.add_load_combo('V', {'Case 1': 1})
    go(d.m, 'gen')

    def applied(c):
        F, M = d.applied({'Case 1': f1 if c == 'U' else h.q(1)})
        if c == 'U':
            f = [f2 * p * 12 * v for v in nrm]
            x = h.cross([h.q(v) for v in pl(3, h.q('7/2'))], f)
            F = [a + b for a, b in zip(F, f)]
            M = [a + b for a, b in zip(M, x)]
        return F, M
    verify(h, tables, applied, lambda n, k, c: d.rxns(c)[(n, k)], d.X, ['U', 'V'])


@harness('A13', params=[{'hold_as': a, 'how': b, 'kinds': k, 'shift': s} for a, b, k, s in (
    ('held', 'gen', 'ms', 0), ('odd', 'lin-d', 'ms', 0), ('springs', 'gen-d', 'ms', 0), ('held', 'lin', 'spq', 1), ('springs', 'gen', 'spq', 2))], timeout=500)
def every_element(h, hold_as, how, kinds, shift):
    """members, springs, plate and quad in oblique planes under every load (forces only with plates); three combinations"""
    tables = h.tables()
    m = structure(h, kinds, shift=shift)
    hold(h, m, hold_as)
    cs = {c: {k: h.q(v) for k, v in f.items()} for c, f in COMBOS.items()}
    for c, f in cs.items():
        m.add_load_combo(c, dict(f))
    go(m, how)
    X = {n: [N.X, N.Y, N.Z] for n, N in m.nodes.items()}
    verify(h, tables, lambda c: applied_totals(h, m, cs[c]), lambda n, k, c: getattr(m.nodes[n], 'Rxn' + FDIR[k])[c], X, cs, range(6) if 'p' not in kinds else range(3))
