"""Nodes on a member do not change its behaviour."""
from engine.harness import harness
from checks.common import *

BOUNDS = ('One member with 1 or 2 free nodes (3 in thorough) in its interior at symbolic or rational positions, oriented along X, vertically or '
          'in rational oblique directions, arbitrary symbolic end displacements, every load type with symbolic magnitudes and '
          'positions (including loads spanning the nodes), all rotational releases; compared with the same member without the '
          'nodes: end reactions, every diagram at a symbolic position, extremes, and node displacement against the deflection.'
          ' A member of rational length in rational directions under 36 interleaved and overlapping loads of every local and '
          'global type, symbolic magnitudes, two cases and combinations, at 12 rational cuts.')

RES = (('Vy', lambda M, c: M.shear('Fy', c)), ('Vz', lambda M, c: M.shear('Fz', c)), ('Mz', lambda M, c: M.moment('Mz', c)),
       ('My', lambda M, c: M.moment('My', c)), ('P', lambda M, c: M.axial(c)), ('T', lambda M, c: M.torque(c)),
       ('dy', lambda M, c: M.deflection('dy', c)), ('dz', lambda M, c: M.deflection('dz', c)), ('dx', lambda M, c: M.deflection('dx', c)),
       ('ry', lambda M, c: M.rel_deflection('dy', c)), ('rz', lambda M, c: M.rel_deflection('dz', c)))


def build(h, p, X1, X2, mids, rel, loads, order=0):
    m = FE()
    add_mat(h, m, p)
    nodes = [('N1', X1)] + [('Q%d' % k, [a + (b - a) * t for a, b in zip(X1, X2)]) for k, t in enumerate(mids)] + [('N2', X2)]
    for n, X in (nodes if not order else nodes[::-1]):
        m.add_node(n, *X)
    m.add_member('M1', 'N1', 'N2', 'Mat', p['Iy'], p['Iz'], p['J'], p['A'])
    if rel:
        m.def_releases('M1', *[i in rel for i in range(12)])
    fix(m, 'N1', 'N2')
    for ld in loads:
        add_load(m, 'M1', ld)
    return m


def reactions(m, n, combo='Combo 1'):
    N = m.nodes[n]
    return [getattr(N, 'Rxn' + d)[combo] for d in FDIR]


def compare(h, a, b, c=None, tag=''):
    for n in ('N1', 'N2'):
        h.alleq(reactions(a, n), reactions(b, n), tag + n + ' reactions')
    A, B = a.members['M1'], b.members['M1']
    h.alleq(h.col(A.f()), h.col(B.f()), tag + 'end forces')
    h.alleq(h.col(A.F()), h.col(B.F()), tag + 'global end forces')
    if c is not None:
        for nm, f in RES:
            h.eq(f(a.members['M1'], c), f(b.members['M1'], c), tag + nm)


CASES = [
    dict(ld=[('full', 'Fy')], mids=['1/3']),
    dict(ld=[('part', 'Fz')], mids=['1/2']),
    dict(ld=[('part', 'Fy')], mids=['1/2']),
    dict(ld=[('full', 'Fz')], mids=['1/4', '2/3']),
    dict(ld=[('full', 'Fx')], mids=['1/4', '2/3']),
    dict(ld=[('part', 'Fx')], mids=['1/2']),
    dict(ld=[('pt', 'Fy'), ('pt', 'Fz')], mids=['1/3']),
    dict(ld=[('pt', 'Fx'), ('pt', 'Mx')], mids=['1/3', '3/4']),
    dict(ld=[('pt', 'Mz'), ('pt', 'My')], mids=['1/2']),
    dict(ld=[('full', 'Fy')], mids=['1/2'], rel=[5, 11]),
    dict(ld=[('full', 'Fz')], mids=['1/2'], rel=[4]),
    dict(ld=[('full', 'Fz')], mids=['1/3', '2/3'], rel=[10, 3]),
    dict(ld=[('pt', 'Mx'), ('pt', 'Fy')], mids=['1/4'], rel=[9, 5]),
    dict(ld=[('part', 'Fy'), ('part', 'Fz')], mids=['1/5', '1/2'], _tier='thorough'),
    dict(ld=[('part', 'Fy')], mids=['1/4', '1/2', '3/4'], _tier='thorough'),
    dict(ld=[('part', 'Fz')], mids=['1/4', '1/2', '3/4'], _tier='thorough'),
]


@harness('M10', params=CASES, timeout=600)
def along_x(h, ld, mids, rel=()):
    p = props(h, G=h.q(2), J=h.q(3))
    L = h.pos('L')
    p['L'] = L
    X1, X2 = [h.q(0)] * 3, [L, h.q(0), h.q(0)]
    loads = sym_loads(h, [tuple(x) for x in ld], L)
    c = h.nonneg('c')
    h.assume(c <= L)
    off_loads(h, [l for l in loads if l[0] == 'pt'], c)
    ms = [h.q(t) for t in mids]
    for t in ms:
        h.assume(h.Not(c == t * L))          # results may jump at a load applied exactly at the node
    out = []
    for mm in ([], ms):
        m = build(h, p, X1, X2, mm, rel, loads, order=1 if mm else 0)
        for n in ('N1', 'N2'):
            for k, d in enumerate(DOFS):
                m.def_node_disp(n, d, h.real('u%s%d' % (n, k)))
        m.analyze()
        out.append(m)
    compare(h, out[0], out[1], c)
    A, B = out[0].members['M1'], out[1]
    for k, t in enumerate(ms):
        N = B.nodes['Q%d' % k]
        for d, a in (('dx', 'DX'), ('dy', 'DY'), ('dz', 'DZ')):
            h.eq(getattr(N, a)['Combo 1'], A.deflection(d, t * L), 'node %s[%d]' % (a, k))


@harness('M10', params=[{'d': d} for d in ('FX', 'FY', 'FZ', 'MX', 'MY', 'MZ')] + [{'d': 'FY', 'rel': [5, 10]}], timeout=300)
def node_load(h, d, rel=()):
    """a load on the node is a point load on the member (symbolic node position)"""
    p = props(h, G=h.q(2), J=h.q(3))
    L, t = h.pos('L'), h.pos('t')
    h.assume(t < 1)
    X1, X2 = [h.q(0)] * 3, [L, h.q(0), h.q(0)]
    P = h.real('P')
    c = h.nonneg('c')
    h.assume(c <= L)
    h.assume(h.Not(c == t * L))
    a = build(h, p, X1, X2, [], rel, [('pt', d[0] + d[1].lower(), P, t * L)])
    b = build(h, p, X1, X2, [t], rel, [])
    b.add_node_load('Q0', d, P)
    a.analyze()
    b.analyze()
    compare(h, a, b, c)


@harness('M10', params=[{'kind': k} for k in ('up', 'down', '-x', '3-4-0', '2-1-2', '-6-2-3')] + [{'kind': 'xy', '_tier': 'thorough'}], timeout=600)
def oriented(h, kind):
    """global loads on members in any orientation; a node beyond the end and a node beside the member stay apart"""
    p = props(h, G=h.q(2), J=h.q(3), E=h.q(5), A=h.q(1))
    X1, X2 = coords_of(h, kind)
    P = [h.real('P%d' % i) for i in range(3)]
    out = []
    for mm in ([], [h.q('1/3')]):
        m = build(h, p, X1, X2, mm, (), [])
        if mm:
            m.add_node('B', *[b + (b - a) for a, b in zip(X1, X2)])
            m.add_node('C', *[a - (b - a) for a, b in zip(X1, X2)])
            off = [1, 2, 3] if kind not in ('2-1-2',) else [3, 1, -1]
            m.add_node('D', *[a + (b - a) / 2 + o for a, b, o in zip(X1, X2, off)])
            fix(m, 'B', 'C', 'D')
        L = m.members['M1'].L()
        for g, v in zip('XYZ', P):
            m.add_member_dist_load('M1', 'F' + g, v, 2 * v, 0, L)
            m.add_member_pt_load('M1', 'F' + g, v, L * h.q('1/2'))
            m.add_member_pt_load('M1', 'M' + g, v, L * h.q('1/4'))
        m.analyze()
        if mm:
            h.same(len(m.members['M1'].sub_members), 2, 'pieces')
            for n in 'BCD':
                h.zero(reactions(m, n), n + ' unconnected')
        out.append(m)
    c = L * h.q('2/5')
    compare(h, out[0], out[1], c)


@harness('M10', params=[{'mids': ['1/2']}, {'mids': ['1/3', '3/4']}, {'mids': ['1/3', '1/2', '3/4'], '_tier': 'thorough'}], timeout=400)
def positions(h, mids):
    """the pieces cover the member in order, node by node, whatever order the nodes were added in"""
    n = len(mids)
    p = props(h, E=1, G=1, Iy=1, Iz=1, J=1, A=1)
    L = h.pos('L')
    ts = [h.pos('t%d' % k) for k in range(n)]
    for t in ts:
        h.assume(t < 1)
    for i in range(n):
        for j in range(i):
            h.assume(h.Not(ts[i] == ts[j]))
    m = build(h, p, [h.q(0)] * 3, [L, h.q(0), h.q(0)], ts, (), [])
    M = m.members['M1']
    M.descritize()
    subs = list(M.sub_members.values())
    h.same(len(subs), n + 1, 'number of pieces')
    h.same(subs[0].i_node.name, 'N1', 'first node')
    h.same(subs[-1].j_node.name, 'N2', 'last node')
    h.same(sorted(s.i_node.name for s in subs[1:]), sorted('Q%d' % k for k in range(n)), 'all nodes')
    for a, b in zip(subs, subs[1:]):
        h.same(a.j_node.name, b.i_node.name, 'chained')
    for s in subs:
        h.lt(s.i_node.X, s.j_node.X, 'ascending')
        h.same((s.Iy is M.Iy, s.Iz is M.Iz, s.J is M.J, s.A is M.A, s.E is M.E, s.G is M.G), (True,) * 6, 'same section')


@harness('M10', params=[{'comp': c} for c in ('Vy', 'Vz', 'Mz', 'My', 'T', 'P', 'dy', 'dz', 'dx')], timeout=300)
def extremes(h, comp):
    """extremes of a subdivided member are the extremes over its pieces"""
    p = props(h, E=h.q(1), G=h.q(1), Iy=h.q(1), Iz=h.q(1), J=h.q(1), A=h.q(1))
    X1, X2 = [h.q(0)] * 3, [h.q(3), h.q(0), h.q(0)]
    m = build(h, p, X1, X2, [h.q('1/3')], (), [])
    m.def_support('N2')
    name, d = {'Vy': ('shear', 'Fy'), 'Vz': ('shear', 'Fz'), 'Mz': ('moment', 'Mz'), 'My': ('moment', 'My'), 'T': ('torque', None),
               'P': ('axial', None), 'dy': ('deflection', 'dy'), 'dz': ('deflection', 'dz'), 'dx': ('deflection', 'dx')}[comp]
    for n in ('Q0', 'N2'):
        for f in {'Vy': ('FY',), 'Vz': ('FZ',), 'Mz': ('FY', 'MZ'), 'My': ('FZ', 'MY'), 'T': ('MX',), 'P': ('FX',), 'dy': ('FY',), 'dz': ('FZ',),
                  'dx': ('FX',)}[comp]:
            m.add_node_load(n, f, h.real('P%s%s' % (n, f)))
    if comp[0] == 'd':
        # one symbolic magnitude (the sampled curve of PyNite then needs no case split): both tip and interior extremes
        P = h.pos('P')
        for n in ('Q0', 'N2'):
            m.nodes[n].NodeLoads.clear()
        d2 = {'dx': 'FX', 'dy': 'FY', 'dz': 'FZ'}[comp]
        m.add_node_load('Q0', d2, 5 * P)
        m.add_node_load('N2', d2, -P)
        m.analyze()
        M = m.members['M1']
        for x in (h.q(0), h.q(1), h.q(3)):
            v = M.deflection(d, x)
            h.le(v, M.max_deflection(d), 'max %s' % comp)
            h.le(M.min_deflection(d), v, 'min %s' % comp)
        return
    m.analyze()
    M = m.members['M1']
    c = h.nonneg('c')
    h.assume(c <= 3)
    get = lambda fn, *a: getattr(M, fn)(*(([d] if d else []) + list(a)))
    v = get(name, c)
    mx, mn = get('max_' + name), get('min_' + name)
    h.le(v, mx, 'max %s' % comp)
    h.le(mn, v, 'min %s' % comp)
    subs = list(M.sub_members.values())
    ends = [getattr(s, name)(*(([d] if d else []) + [t])) for s in subs for t in (h.q(0), s.L())]
    h.cond(h.Or(*[h.near(mx, e) for e in ends]), 'max %s attained' % comp)
    h.cond(h.Or(*[h.near(mn, e) for e in ends]), 'min %s attained' % comp)


@harness('M10', params=[{'kind': 'x', 'mids': ['13/24']}, {'kind': '2-1-2', 'mids': ['7/24', '19/24']}, {'kind': 'down', 'mids': ['1/2']},
                        {'kind': '-1-2-2', 'mids': ['1/4', '5/12', '2/3'], 'rel': [4, 11]}, {'kind': '3-4-0', 'mids': ['1/24', '23/24'], 'sup': 'free'},
                        {'kind': 'z', 'mids': ['1/6', '1/3', '1/2', '2/3', '5/6'], '_tier': 'thorough'},
                        {'kind': '-6-2-3', 'mids': ['1/12', '11/12'], 'sup': 'free', '_tier': 'thorough'}], timeout=400)
def many_loads(h, kind, mids, rel=(), sup='fixed'):
    """thirty-six loads of every type, nodes between and exactly at load positions: everything as without the nodes"""
    a = battery_model(h, kind, rel, supports=sup)[0]
    b, p, R, loads = battery_model(h, kind, rel, nodes=mids, supports=sup)
    h.same(len(b.members['M1'].sub_members), len(mids) + 1, 'pieces')
    A, B = a.members['M1'], b.members['M1']
    for name in ('A', 'B'):
        for n in ('N1', 'N2'):
            h.alleq(reactions(a, n, name), reactions(b, n, name), name + ' ' + n)
        h.alleq(h.col(A.f(name)), h.col(B.f(name)), name + ' f')
        for k, t in enumerate(CUTS):
            c = p['L'] * h.q(t)
            if t in mids:
                continue
            x, y = point_results(A, c, name), point_results(B, c, name)
            for r in x:
                h.eq(x[r], y[r], '%s %s[%d]' % (name, r, k))
            for d in ('dx', 'dy', 'dz'):
                h.eq(A.deflection(d, c, name), B.deflection(d, c, name), '%s %s[%d]' % (name, d, k))
            for d in ('dy', 'dz'):
                h.eq(A.rel_deflection(d, c, name), B.rel_deflection(d, c, name), '%s rel %s[%d]' % (name, d, k))
