"""Constant membrane stress patch test."""
from engine.harness import harness
from checks.plates import *

BOUNDS = ('One plate (symbolic width and height) or quadrilateral (eight rational shapes), symbolic modulus and thickness (for the rectangle and the unit square), stiffness factors and linear displacement '
          'field (6 coefficients), stresses at a symbolic point, end forces; a patch of five distorted quads with an interior node found by analysis.')
ASSUMPTIONS = ['Poisson ratio rational.']


def linear(h):
    u = Poly(h, {(0, 0): h.real('u0'), (1, 0): h.real('ux'), (0, 1): h.real('uy')})
    v = Poly(h, {(0, 0): h.real('v0'), (1, 0): h.real('vx'), (0, 1): h.real('vy')})
    return u, v


def stresses(h, p, u, v, kx, ky):
    e = [s.at(h.q(0), h.q(0)) for s in strain(u, v)]
    D = Dplane(h, p['E'], p['nu'], kx, ky)
    return [h.dot(r, e) for r in D]


def edge_forces(h, pts, S, t):
    """nodal forces of a constant stress: half of each adjacent edge's traction resultant"""
    F = [[h.q(0), h.q(0)] for _ in pts]
    n = len(pts)
    for a in range(n):
        b = (a + 1) % n
        dx, dy = pts[b][0] - pts[a][0], pts[b][1] - pts[a][1]
        nx, ny = dy, -dx        # outward normal times length (counter-clockwise corners)
        fx, fy = t * (S[0] * nx + S[2] * ny) / 2, t * (S[2] * nx + S[1] * ny) / 2
        for c in (a, b):
            F[c][0] = F[c][0] + fx
            F[c][1] = F[c][1] + fy
    return F


def check(h, kind, pts, nu, mods, T=None, **kw):
    kx, ky = (h.pos('kx'), h.pos('ky')) if mods else (h.q(1), h.q(1))
    m, P, p = element(h, kind, pts, nu=nu, kx=kx if mods else None, ky=ky if mods else None, T=T, **kw)
    u, v = linear(h)
    prescribe_field(h, m, p['T'], nodal_membrane(h, u, v, pts))
    m.add_load_combo('C', {'D': h.q(1)})
    m.analyze()
    S = stresses(h, p, u, v, kx, ky)
    if kind == 'plate':
        x, y = h.real('x', lo=0), h.real('y', lo=0)
        h.assume(x <= pts[2][0])
        h.assume(y <= pts[2][1])
        got = h.col(P.membrane(x, y, True, 'C'))
    else:
        xi, eta = h.real('xi', lo=-1, hi=1), h.real('eta', lo=-1, hi=1)
        got = h.col(P.membrane(xi, eta, True, 'C'))
    h.alleq(got, S, 'stress')
    return m, P, p, S, kx, ky


@harness('P03', params=[{'mods': f} for f in (False, True)], timeout=400)
def plate(h, mods):
    W, H = h.pos('W'), h.pos('H')
    pts = rect(h, W, H)
    m, P, p, S, kx, ky = check(h, 'plate', pts, h.q('3/10'), mods)
    forces(h, P, p, pts, S, mods)


def forces(h, P, p, pts, S, mods):
    if mods:
        return      # the two factors make the constitutive matrix unsymmetric; only the stresses are claimed
    F = h.col(P.f('C'))
    W = edge_forces(h, pts, S, p['t'])
    for a in range(4):
        h.eq(F[6 * a], W[a][0], 'Fx %d' % a)
        h.eq(F[6 * a + 1], W[a][1], 'Fy %d' % a)
        h.zero(F[6 * a + 2:6 * a + 5], 'no bending %d' % a)


@harness('P03', params=[{'sh': s, 'mods': f} for s in QUADS for f in (False, True)], timeout=400)
def quad(h, sh, mods):
    pts = [(h.q(x), h.q(y)) for x, y in QUADS[sh]]
    m, P, p, S, kx, ky = check(h, 'quad', pts, h.q('1/4'), mods, T=frame(h, dict(zip(QUADS, FRAMES))[sh]), **({} if sh == 'unit' else dict(E=h.q(7), t=h.q('1/2'))))
    forces(h, P, p, pts, S, mods)


@harness('P03', params=[{'kind': k} for k in ('plate', 'quad')], timeout=400)
def isotropic_factor(h, kind):
    """one common factor for both axes: stresses and end forces of the stresses"""
    W, H = h.q(3), h.q(2)
    pts = rect(h, W, H)
    k = h.pos('k')
    m, P, p = element(h, kind, pts, nu=h.q('1/5'), kx=k, ky=k, E=h.q(3))
    u, v = linear(h)
    prescribe_field(h, m, p['T'], nodal_membrane(h, u, v, pts))
    m.analyze()
    # the shear modulus is not scaled
    S = stresses(h, p, u, v, k, k)
    F = h.col(P.f())
    W_ = edge_forces(h, pts, S, p['t'])
    for a in range(4):
        h.eq(F[6 * a], W_[a][0], 'Fx %d' % a)
        h.eq(F[6 * a + 1], W_[a][1], 'Fy %d' % a)


@harness('P03', params=[{'how': w} for w in ('gen', 'lin-d')], timeout=600)
def patch(h, how):
    """a patch of distorted quads: boundary displacements of a linear field, interior nodes found by the analysis"""
    E = h.q(10)
    m = FE()
    m.add_material('C', E, E / h.q('5/2'), h.q('1/4'), h.q(1))
    X = {'A': (0, 0), 'B': (6, 0), 'C': (6, 5), 'D': (0, 5), 'a': (1, 1), 'b': (4, 2), 'c': (4, 3), 'd': (2, 4)}
    for n, (x, y) in X.items():
        m.add_node(n, h.q(x), h.q(y), h.q(0))
    Q = {'Q1': 'ABba', 'Q2': 'BCcb', 'Q3': 'CDdc', 'Q4': 'DAad', 'Q5': 'abcd'}
    for q, c in Q.items():
        m.add_quad(q, *c, h.q('1/2'), 'C')
    u, v = linear(h)
    for n, (x, y) in X.items():
        if n in 'ABCD':
            m.def_node_disp(n, 'DX', u.at(h.q(x), h.q(y)))
            m.def_node_disp(n, 'DY', v.at(h.q(x), h.q(y)))
            m.def_support(n, True, True, True, True, True, True)
    run(m, how)
    S = stresses(h, dict(E=E, nu=h.q('1/4')), u, v, 1, 1)
    for n, (x, y) in X.items():
        h.eq(m.nodes[n].DX['Combo 1'], u.at(h.q(x), h.q(y)), n + ' u')
        h.eq(m.nodes[n].DY['Combo 1'], v.at(h.q(x), h.q(y)), n + ' v')
    for q in Q:
        # the element axes are turned: compare the invariant sum and the stress in global axes
        got = h.col(m.quads[q].membrane(h.q('1/3'), h.q('-1/2')))
        T = m.quads[q].T()
        c, s = T[0, 0], T[0, 1]
        sx = c * c * S[0] + s * s * S[1] + 2 * c * s * S[2]
        sy = s * s * S[0] + c * c * S[1] - 2 * c * s * S[2]
        txy = c * s * (S[1] - S[0]) + (c * c - s * s) * S[2]
        h.alleq(got, [sx, sy, txy], q + ' stress')
