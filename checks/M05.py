"""Loads in global directions equal their local components."""
from engine.harness import harness
from checks.common import *

BOUNDS = ('One member; orientation classes: general symbolic direction (thorough), symbolic in-plane directions, rational '
          'oblique directions with symbolic length, vertical up/down; with and without end releases and auxiliary node; '
          'symbolic magnitudes, positions and evaluation point; point forces, point moments, distributed loads in each '
          'global direction.  Symbolic horizontal and general directions: reactions in quick, diagrams in thorough.'
          ' A member of rational length in rational directions under 36 interleaved and overlapping loads of every local and '
          'global type, symbolic magnitudes, two cases and combinations, at 12 rational cuts.')

KINDS = ('x', 'up', 'down', '3-4-0', '-4-0-3', '2-1-2', '-6-2-3')


def build(h, X1, X2, rel, aux):
    m, mem, p = one_member(h, [X1, X2], fixed=dict(G=1, J=1))
    return m, mem, p


@harness('M05', params=[{'kind': k, 'ld': l} for k in KINDS for l in ('F', 'M', 'w')] +
         [{'kind': 'xy', 'ld': 'F'}, {'kind': 'xy', 'ld': 'M'}, {'kind': 'xy', 'ld': 'w', '_tier': 'thorough'}] +
         [{'kind': k, 'ld': l, '_tier': 'thorough'} for k in ('xz', 'gen') for l in ('F', 'M', 'w')] +
         [{'kind': k, 'ld': l, 'aux': True} for k, l in (('x', 'F'), ('2-1-2', 'w'), ('up', 'M'))] +
         [{'kind': k, 'ld': l, 'rel': True} for k, l in (('x', 'F'), ('2-1-2', 'w'), ('xy', 'M'))], timeout=600)
def components(h, kind, ld, aux=False, rel=False):
    """global load vs. its three local components: end reactions and every diagram"""
    X1, X2 = coords_of(h, kind)
    models = []
    P = [h.real('P%d' % i) for i in range(3)]
    Q = [h.real('Q%d' % i) for i in range(3)]
    x = h.pos('x')
    x1, x2, c = h.nonneg('x1'), h.pos('x2'), h.pos('c')
    for loc in (False, True):
        kw = {}
        m = FE()
        p = props(h)
        m.add_node('N1', *X1)
        m.add_node('N2', *X2)
        add_mat(h, m, p)
        if aux:
            m.add_auxnode('A', X1[0] + h.q('2'), X1[1] + h.q('3') , X1[2] + h.q('6'))
            kw['aux_node'] = 'A'
        m.add_member('M1', 'N1', 'N2', 'Mat', p['Iy'], p['Iz'], p['J'], p['A'], **kw)
        if rel:
            m.def_releases('M1', Ryi=True, Rzj=True)
        fix(m, 'N1', 'N2')
        M = m.members['M1']
        L = M.L()
        h.assume(c < L)
        T = M.T()
        tr = lambda v: [h.dot([T[r, k] for k in range(3)], v) for r in range(3)]
        if ld == 'w':
            h.assume(x1 < x2)
            h.assume(x2 <= L)
            for r, a, b, g in zip('XYZ', P, Q, range(3)):
                if not loc:
                    m.add_member_dist_load('M1', 'F' + r, a, b, x1, x2)
            if loc:
                for r, a, b in zip('xyz', tr(P), tr(Q)):
                    m.add_member_dist_load('M1', 'F' + r, a, b, x1, x2)
            h.assume(h.Not(c == x1)); h.assume(h.Not(c == x2))
        else:
            h.assume(x < L)
            h.assume(h.Not(c == x))
            for r, a in zip('xyz' if loc else 'XYZ', tr(P) if loc else P):
                m.add_member_pt_load('M1', ld + r, a, x)
        m.analyze()
        models.append((m, m.members['M1']))
    (a, A), (b, B) = models
    h.alleq(A.fer('Combo 1'), B.fer('Combo 1'), 'fer')
    for n in ('N1', 'N2'):
        for r in ('RxnFX', 'RxnFY', 'RxnFZ', 'RxnMX', 'RxnMY', 'RxnMZ'):
            h.eq(getattr(a.nodes[n], r)['Combo 1'], getattr(b.nodes[n], r)['Combo 1'], n + r)
    for nm, f in (('Vy', lambda M: M.shear('Fy', c)), ('Vz', lambda M: M.shear('Fz', c)), ('Mz', lambda M: M.moment('Mz', c)),
                  ('My', lambda M: M.moment('My', c)), ('P', lambda M: M.axial(c)), ('T', lambda M: M.torque(c)),
                  ('dy', lambda M: M.deflection('dy', c)), ('dz', lambda M: M.deflection('dz', c)),
                  ('dx', lambda M: M.deflection('dx', c))):
        h.eq(f(A), f(B), nm)


@harness('M05', params=[{'kind': k} for k in ('x', 'up', 'down', 'xy', 'xz', '2-1-2', '-6-2-3', '-4-0-3')] + [{'kind': 'gen', '_tier': 'thorough'}], timeout=600)
def total_force(h, kind):
    """the reactions of a loaded clamped member balance the global load itself"""
    X1, X2 = coords_of(h, kind)
    m, mem, p = one_member(h, [X1, X2])
    fix(m, 'N1', 'N2')
    L = mem.L()
    P = h.vec('P', 3)
    C = h.vec('C', 3)
    w = h.vec('w', 3)
    x = h.nonneg('x')
    h.assume(x <= L)
    for k, g in enumerate('XYZ'):
        m.add_member_pt_load('M1', 'F' + g, P[k], x)
        m.add_member_pt_load('M1', 'M' + g, C[k], x)
        m.add_member_dist_load('M1', 'F' + g, w[k], w[k])
    m.analyze()
    R = [[r['Combo 1'] for r in (N.RxnFX, N.RxnFY, N.RxnFZ, N.RxnMX, N.RxnMY, N.RxnMZ)] for N in (m.nodes['N1'], m.nodes['N2'])]
    d = [X2[i] - X1[i] for i in range(3)]
    for i in range(3):
        h.eq(R[0][i] + R[1][i] + P[i] + w[i] * L, 0, 'force %d' % i)
    r2 = h.cross(d, R[1][:3])
    rp = h.cross([v * x / L for v in d], P)
    rw = h.cross([v / 2 for v in d], [a * L for a in w])
    for i in range(3):
        h.eq(R[0][3 + i] + R[1][3 + i] + r2[i] + rp[i] + rw[i] + C[i], 0, 'moment %d' % i)


@harness('M05', params=[{'kind': k} for k in ('x', '2-1-2', 'up', '-1-2-2', '3-4-0')] + [{'kind': k, '_tier': 'thorough'} for k in ('down', 'z', '-6-2-3')], timeout=400)
def many_global_loads(h, kind):
    """two and more loads in every global direction at once, two cases and combinations: diagrams between the loads against statics
    and the exact curvature with the resolved components"""
    m, p, R, loads = battery_model(h, kind, supports='free', only=('FX', 'FY', 'FZ', 'MX', 'MY', 'MZ'))
    M, L = m.members['M1'], p['L']
    for name in ('A', 'B'):
        f = [h.q(0)] * 12
        z = cut_forces(h, f, loads[name], L, le=True)          # what the fixed end has to carry
        f[0], f[1], f[2], f[3] = -z['P'], -z['Vy'], -z['Vz'], -z['T']
        z = cut_forces(h, f, loads[name], L, le=True)
        f[4], f[5] = z['My'], -z['Mz']
        h.alleq(h.col(M.f(name))[:6], f[:6], name + ' end forces')
        for k, t in enumerate(CUTS):
            c = L * h.q(t)
            want = cut_forces(h, f, loads[name], c)
            for r, v in point_results(M, c, name).items():
                h.eq(v, want[r], '%s %s[%d]' % (name, r, k))
            wy, wz, ux = curv_integrals(h, f, loads[name], c, p)
            h.eq(M.deflection('dy', c, name), wy, '%s dy[%d]' % (name, k))
            h.eq(M.deflection('dz', c, name), wz, '%s dz[%d]' % (name, k))
            h.eq(M.deflection('dx', c, name), ux, '%s dx[%d]' % (name, k))
