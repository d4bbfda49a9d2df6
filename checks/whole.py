"""One structure with an element of every kind in oblique positions, arbitrary loads everywhere, and the balance of every node."""
from checks.plates import *

LOADS = ('FX', 'FY', 'FZ', 'MX', 'MY', 'MZ')
COMBOS = {'U': {'D': '3/2', 'L': '-2', 'W': '1'}, 'U2': {'L': '1/2'}, 'O': {}}


def local_nodes(h, m, origin, T, pts, names):
    """nodes at local coordinates pts of the plane through origin with local axes T (rows)"""
    for n, (x, y) in zip(names, pts):
        if n in m.nodes:
            continue
        m.add_node(n, *[o + h.q(x) * T[0][c] + h.q(y) * T[1][c] for c, o in enumerate(origin)])


def structure(h, kinds='mspq', frames=('122', '236'), shift=0):
    """a quad, a plate, a subdivided member, a member with a release, springs; they share nodes; no supports yet.
    shift rotates the corner order, so that shared nodes are different corners"""
    m = FE()
    m.add_material('S', h.q(30), h.q(12), h.q('1/4'), h.q(1))
    m.add_material('C', h.q(50), h.q(20), h.q('1/4'), h.q(1))
    o = [h.q(1), h.q(-2), h.q(3)]
    T = frame(h, frames[0])
    rot = lambda s: s[shift:] + s[:shift]
    local_nodes(h, m, o, T, ((0, 0),), 'a')
    if 'p' in kinds or 'q' in kinds:
        local_nodes(h, m, o, T, ((3, 2),), 'c')
    if 'p' in kinds:
        local_nodes(h, m, o, T, ((3, 0), (0, 2)), 'bd')
        m.add_plate('P1', *rot(['a', 'b', 'c', 'd']), h.q('1/2'), 'C')
    if 'q' in kinds:
        T2 = frame(h, frames[1])
        local_nodes(h, m, [m.nodes['c'].X, m.nodes['c'].Y, m.nodes['c'].Z], T2, ((2, 0), (3, 3), (-1, 2)), 'efg')
        m.add_quad('Q1', *rot(['c', 'e', 'f', 'g']), h.q('1/3'), 'C', kx_mod=h.q('1/2'), ky_mod=h.q('1/2'))
    A = [m.nodes['a'].X, m.nodes['a'].Y, m.nodes['a'].Z]
    m.add_node('s', *[u - h.q(v) for u, v in zip(A, (8, 4, 8))])
    m.add_node('t', *[u - h.q(v) for u, v in zip(A, (2, 1, 2))])
    m.add_node('r', *[u - h.q(v) for u, v in zip(A, (6, -2, 3))])
    m.add_node('v', *[u - h.q(v) for u, v in zip(A, (0, 5, 0))])
    if 'm' in kinds:
        m.add_member('M1', 's', 'a', 'S', h.q(2), h.q(3), h.q(1), h.q(4))
        m.add_member('M2', 'a', 'r', 'C', h.q(5), h.q(4), h.q(3), h.q(2))
        m.add_member('M3', 'v', 'a', 'S', h.q(1), h.q(2), h.q(3), h.q(5))
        m.def_releases('M2', Rzj=True, Ryi=True)
        m.def_releases('M1', Rzj=True)
    if 's' in kinds:
        m.add_spring('S1', 's', 'a', h.q(3))
        m.add_spring('S2', 'a', 'r', h.q(5))
        m.add_spring('S3', 'v', 'a', h.q(7))
    load_all(h, m)
    return m


def load_all(h, m):
    """every kind of load on everything, symbolic magnitudes, three cases"""
    if m.plates:
        m.add_plate_surface_pressure('P1', h.real('pP'), 'D')
        m.add_plate_surface_pressure('P1', h.real('pP2'), 'L')
    if m.quads:
        m.add_quad_surface_pressure('Q1', h.real('pQ'), 'W')
        m.add_quad_surface_pressure('Q1', h.real('pQ2'), 'L')
    if m.members:
        for k, (mem, l) in enumerate((('M1', ('dist', 'FY', 0, 12)), ('M1', ('dist', 'Fz', 2, 10)), ('M1', ('pt', 'MX', 9)), ('M1', ('pt', 'FZ', 5)), ('M2', ('dist', 'FX', 0, 7)),
                                      ('M2', ('pt', 'Fy', 3)), ('M2', ('pt', 'MZ', 2)), ('M3', ('dist', 'FZ', 1, 4)), ('M3', ('pt', 'Mx', 2)), ('M3', ('dist', 'Fx', 0, 5)))):
            if l[0] == 'pt':
                m.add_member_pt_load(mem, l[1], h.real('m%d' % k), h.q(l[2]), 'DLW'[k % 3])
            else:
                m.add_member_dist_load(mem, l[1], h.real('m%d' % k), h.real('n%d' % k), h.q(l[2]), h.q(l[3]), 'DLW'[k % 3])
    for i, n in enumerate(m.nodes):
        for k, f in enumerate(LOADS):
            m.add_node_load(n, f, h.real('%s%s' % (n, f)), 'DLW'[(i + k) % 3])
    for n in ('a', 'v'):
        m.add_node_load(n, 'FY', h.real(n + '2'), 'L')
        m.add_node_load(n, 'MZ', h.real(n + '3'), 'L')


def hold(h, m, how):
    """'held': every direction supported with a prescribed value; 'odd'/'even': every other direction; 'springs': none supported"""
    at = {}
    for i, n in enumerate(list(m.nodes)):
        f = [how == 'held' or (how in ('odd', 'even') and (i + k + (how == 'odd')) % 2 == 0) for k in range(6)]
        m.def_support(n, *f)
        for k in range(6):
            if f[k] and (i + k) % 5:
                at[(n, k)] = h.real('u%s%d' % (n, k))
                m.def_node_disp(n, DOFS[k], at[(n, k)])
            elif not f[k] and (how == 'springs' or (i + k) % 3 == 0 or (n in 'rsvt' and (k > 2 or not m.members))):
                m.def_support_spring(n, DOFS[k], h.q(2 + k))
    return at


def nodal_loads(m):
    return {n: [tuple(l) for l in N.NodeLoads] for n, N in m.nodes.items()}


def balance(h, m, combo, factors, nodal, at=None, solution='linear'):
    """sum of element end forces at every node = applied nodal load + reaction; supports hold, free directions have no reaction"""
    at = at or {}
    tot = {n: [h.q(0)] * 6 for n in m.nodes}

    def add(n, F):
        tot[n] = [a + b for a, b in zip(tot[n], F)]
    for M in m.members.values():
        for s in M.sub_members.values():
            F = h.col(s.F(combo))
            add(s.i_node.name, F[:6])
            add(s.j_node.name, F[6:])
    for s in m.springs.values():
        F = h.col(s.F(combo))
        add(s.i_node.name, F[:6])
        add(s.j_node.name, F[6:])
    for e in list(m.plates.values()) + list(m.quads.values()):
        F = h.col(e.F(combo))
        for k, N in enumerate((e.i_node, e.j_node, e.m_node, e.n_node)):
            add(N.name, F[6 * k:6 * k + 6])
    for n, N in m.nodes.items():
        load = [h.q(0)] * 6
        for d, P, case in nodal.get(n, ()):
            if case in factors:
                load[LOADS.index(d)] = load[LOADS.index(d)] + factors[case] * P
        for k in range(6):
            R = getattr(N, 'Rxn' + LOADS[k])[combo]
            lab = '%s %s %s' % (combo, n, DOFS[k])
            h.eq(tot[n][k], load[k] + R, lab + ' balance')
            sup = getattr(N, 'support_' + DOFS[k])
            spr = getattr(N, 'spring_' + DOFS[k])
            if (n, k) in at:
                h.eq(getattr(N, DOFS[k])[combo], at[(n, k)], lab + ' prescribed')
            elif sup:
                h.eq(getattr(N, DOFS[k])[combo], h.q(0), lab + ' at rest')
            elif spr[0] is not None:
                h.eq(R, -spr[0] * getattr(N, DOFS[k])[combo], lab + ' spring')
            else:
                h.eq(R, h.q(0), lab + ' no reaction')


def solved(h, how, run_as, kinds='mspq', frames=('122', '236'), shift=0, combos=None):
    m = structure(h, kinds, frames, shift)
    at = hold(h, m, how)
    nodal = nodal_loads(m)
    cs = {c: {k: h.q(v) for k, v in f.items()} for c, f in (combos or COMBOS).items()}
    for c, f in cs.items():
        m.add_load_combo(c, dict(f))
    run(m, run_as)
    return m, at, nodal, cs


def state(h, m, combo, forces=True):
    """labelled displacements, reactions and element end forces"""
    out = []
    for n, N in m.nodes.items():
        for k in range(6):
            out.append((n + DOFS[k], getattr(N, DOFS[k])[combo]))
            out.append((n + FDIR[k], getattr(N, 'Rxn' + FDIR[k])[combo]))
    if forces:
        for n, M in m.members.items():
            for s, S in M.sub_members.items():
                out += [('%s f%d' % (s, k), v) for k, v in enumerate(h.col(S.f(combo)))]
        for n, S in m.springs.items():
            out.append((n + ' axial', S.axial(combo)))
        for n, e in list(m.plates.items()) + list(m.quads.items()):
            out += [('%s F%d' % (n, k), v) for k, v in enumerate(h.col(e.F(combo)))]
    return out


def applied_totals(h, m, factors):
    """total applied force, and moment about the origin, of nodal loads, member loads and pressures"""
    F, M = [h.q(0)] * 3, [h.q(0)] * 3
    z = [h.q(0)] * 3

    def add(p, f, c):
        x = h.cross(p, f)
        for k in range(3):
            F[k] = F[k] + f[k]
            M[k] = M[k] + x[k] + c[k]

    def at(N):
        return [N.X, N.Y, N.Z]
    for N in m.nodes.values():
        for d, P, case in N.NodeLoads:
            if case in factors:
                k = LOADS.index(d)
                v = list(z)
                v[k % 3] = factors[case] * P
                add(at(N), v if k < 3 else z, z if k < 3 else v)
    for e in m.members.values():
        X, Y = at(e.i_node), at(e.j_node)
        T, L = axes(h, X, Y, 'up' if e.name == 'M3' else 'gen')
        ax = lambda d: T['xyz'.index(d[1])] if d[1] in 'xyz' else [h.q(1 if k == 'XYZ'.index(d[1]) else 0) for k in range(3)]
        for d, P, x, case in e.PtLoads:
            if case in factors:
                v = [factors[case] * P * c for c in ax(d)]
                add([a + T[0][k] * x for k, a in enumerate(X)], v if d[0] == 'F' else z, z if d[0] == 'F' else v)
        for d, w1, w2, x1, x2, case in e.DistLoads:
            if case in factors:
                f = factors[case]
                W = (w1 + w2) / 2 * (x2 - x1)
                S = (x2 - x1) * (w1 * (2 * x1 + x2) + w2 * (x1 + 2 * x2)) / 6
                add(X, [f * W * c for c in ax(d)], h.cross(T[0], [f * S * c for c in ax(d)]))
    for e in list(m.plates.values()) + list(m.quads.values()):
        C = [at(N) for N in (e.i_node, e.j_node, e.m_node, e.n_node)]
        # resultant of a unit pressure on a flat quadrilateral: half the cross product of the diagonals; centroid of the two triangles
        n1 = [c / 2 for c in h.cross([b - a for a, b in zip(C[0], C[1])], [b - a for a, b in zip(C[0], C[2])])]
        n2 = [c / 2 for c in h.cross([b - a for a, b in zip(C[0], C[2])], [b - a for a, b in zip(C[0], C[3])])]
        g1 = [(a + b + c) / 3 for a, b, c in zip(C[0], C[1], C[2])]
        g2 = [(a + b + c) / 3 for a, b, c in zip(C[0], C[2], C[3])]
        for p, case in e.pressures:
            if case in factors:
                add(g1, [factors[case] * p * c for c in n1], z)
                add(g2, [factors[case] * p * c for c in n2], z)
    return F, M
