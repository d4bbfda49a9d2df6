"""Deflection diagrams: curvature = M/EI, axial strain = P/EA, end compatibility, chord-relative deflection."""
from engine.harness import harness
from checks.common import *

BOUNDS = ('One member with arbitrary symbolic end displacements and section; up to two loads of every local type with symbolic '
          'magnitudes and positions; evaluation position symbolic in [0, L]; with and without end moment releases; linear '
          'analyses (the P-little-delta diagram of the code is an iterative approximation and is out of scope).'
          ' A member of rational length in rational directions under 36 interleaved and overlapping loads of every local and '
          'global type, symbolic magnitudes, two cases and combinations, at 12 rational cuts.')
ASSUMPTIONS = ['Members with translational end releases are excluded: the diagram starts from the node displacement there.']

LD = [[('pt', d)] for d in ('Fx', 'Fy', 'Fz', 'Mx', 'My', 'Mz')] + [[('part', d)] for d in ('Fx', 'Fy', 'Fz')] + \
    [[('full', 'Fy'), ('pt', 'Mz')], [('full', 'Fz'), ('pt', 'My')], [('pt', 'Fx'), ('pt', 'Fy')], [('full', 'Fx'), ('pt', 'Fz')], []]
DEEP = [[('part', 'Fy'), ('pt', 'Fy')], [('part', 'Fz'), ('pt', 'Fz')], [('part', 'Fx'), ('pt', 'Fx')], [('pt', 'Fy'), ('pt', 'Fy')]]


@harness('M07', params=[{'ld': s} for s in LD] + [{'ld': s, '_tier': 'thorough'} for s in DEEP] +
         [{'ld': LD[1], 'rel': [5, 11]}, {'ld': LD[8], 'rel': [4, 11]}, {'ld': LD[5], 'rel': [5]}, {'ld': LD[4], 'rel': [10]}], timeout=600)
def deflected_shape(h, ld, rel=()):
    m, p, u, loads = loaded_member(h, [tuple(s) for s in ld], rel)
    L = p['L']
    c = h.nonneg('c')
    h.assume(c <= L)
    off_loads(h, loads, c)
    m.analyze()
    M = m.members['M1']
    f = h.col(M.f('Combo 1'))
    wy, wz, ux = curv_integrals(h, f, loads, c, p)
    wyL, wzL, uxL = curv_integrals(h, f, loads, L, p)
    dy, dz, dx = M.deflection('dy', c), M.deflection('dz', c), M.deflection('dx', c)
    sy, sz = (u[7] - u[1] - wyL) / L, (u[8] - u[2] - wzL) / L
    h.eq(dy, u[1] + sy * c + wy, 'dy')
    h.eq(dz, u[2] + sz * c + wz, 'dz')
    h.eq(dx, u[0] + ux, 'dx')
    h.eq(M.rel_deflection('dy', c), sy * c + wy - (u[7] - u[1]) * c / L, 'rel dy')
    h.eq(M.rel_deflection('dz', c), sz * c + wz - (u[8] - u[2]) * c / L, 'rel dz')
    # both ends
    h.eq(M.deflection('dy', h.q(0)), u[1], 'dy(0)'); h.eq(M.deflection('dy', L), u[7], 'dy(L)')
    h.eq(M.deflection('dz', h.q(0)), u[2], 'dz(0)'); h.eq(M.deflection('dz', L), u[8], 'dz(L)')
    h.eq(M.deflection('dx', h.q(0)), u[0], 'dx(0)'); h.eq(M.deflection('dx', L), u[6], 'dx(L)')
    h.eq(M.rel_deflection('dy', L), 0, 'rel dy(L)'); h.eq(M.rel_deflection('dz', L), 0, 'rel dz(L)')
    # the slope of the curve that satisfies the beam equation is the node rotation where not released
    if 5 not in rel:
        h.eq(sy, u[5], 'slope z i')
    if 4 not in rel:
        h.eq(sz, -u[4], 'slope y i')


@harness('M07', params=[{'kind': k, 'd': d} for k, d in (('2-1-2', 'FY'), ('up', 'FX'), ('-6-2-3', 'FZ'))])
def inclined(h, kind, d):
    """the same, measured in the member's local axes, for inclined members under a global load"""
    X1, X2 = coords_of(h, kind)
    m, mem, p = one_member(h, [X1, X2], fixed=dict(G=1, J=1))
    u = prescribe(h, m)
    R, L = axes(h, X1, X2, kind)
    w, P, x = h.real('w'), h.real('P'), h.pos('x')
    h.assume(x < L)
    c = h.nonneg('c')
    h.assume(c <= L)
    h.assume(h.Not(c == x))
    m.add_member_dist_load('M1', d, w, w)
    m.add_member_pt_load('M1', d, P, x)
    m.analyze()
    M = m.members['M1']
    k = 'XYZ'.index(d[1])
    loads = []
    for r, a in enumerate('xyz'):
        loads += [('dist', 'F' + a, R[r][k] * w, R[r][k] * w, h.q(0), L), ('pt', 'F' + a, R[r][k] * P, x)]
    loc = []
    for b in range(4):
        loc += [h.dot(R[i], u[3 * b:3 * b + 3]) for i in range(3)]
    f = h.col(M.f('Combo 1'))
    wy, wz, ux = curv_integrals(h, f, loads, c, p)
    wyL, wzL, uxL = curv_integrals(h, f, loads, L, p)
    h.eq(M.deflection('dy', c), loc[1] + (loc[7] - loc[1] - wyL) / L * c + wy, 'dy')
    h.eq(M.deflection('dz', c), loc[2] + (loc[8] - loc[2] - wzL) / L * c + wz, 'dz')
    h.eq(M.deflection('dx', c), loc[0] + ux, 'dx')


@harness('M07', params=[{'kind': k} for k in ('x', '2-1-2', 'down', '-1-2-2')] + [{'kind': '-6-2-3', 'rel': [4, 11]}, {'kind': '3-4-0', 'sup': 'free'}] +
         [{'kind': k, 'sup': 'free', '_tier': 'thorough'} for k in ('up', 'z', '2-1-2', '-1-2-2', '-6-2-3')], timeout=400)
def many_loads(h, kind, rel=(), sup='fixed'):
    """thirty-six loads of every local and global type at once, two cases and combinations: the deflections between the loads"""
    m, p, R, loads = battery_model(h, kind, rel, supports=sup)
    M, L = m.members['M1'], p['L']
    for name in ('A', 'B', 'A'):
        f = h.col(M.f(name))
        u = []
        for n in ('N1', 'N2'):
            N = m.nodes[n]
            for t in ((N.DX, N.DY, N.DZ), (N.RX, N.RY, N.RZ)):
                u += [h.dot(R[i], [v[name] for v in t]) for i in range(3)]
        wyL, wzL, uxL = curv_integrals(h, f, loads[name], L, p)
        sy, sz = (u[7] - u[1] - wyL) / L, (u[8] - u[2] - wzL) / L
        for k, t in enumerate(CUTS):
            c = L * h.q(t)
            wy, wz, ux = curv_integrals(h, f, loads[name], c, p)
            h.eq(M.deflection('dy', c, name), u[1] + sy * c + wy, '%s dy[%d]' % (name, k))
            h.eq(M.deflection('dz', c, name), u[2] + sz * c + wz, '%s dz[%d]' % (name, k))
            h.eq(M.deflection('dx', c, name), u[0] + ux, '%s dx[%d]' % (name, k))
            h.eq(M.rel_deflection('dy', c, name), sy * c + wy - (u[7] - u[1]) * c / L, '%s rel dy[%d]' % (name, k))
            h.eq(M.rel_deflection('dz', c, name), sz * c + wz - (u[8] - u[2]) * c / L, '%s rel dz[%d]' % (name, k))
        if 5 not in rel:
            h.eq(sy, u[5], name + ' slope z i')
        if 4 not in rel:
            h.eq(sz, -u[4], name + ' slope y i')
        h.eq(M.deflection('dy', L, name), u[7], name + ' dy(L)')
        h.eq(M.deflection('dz', L, name), u[8], name + ' dz(L)')
        h.eq(M.deflection('dx', L, name), u[6], name + ' dx(L)')
