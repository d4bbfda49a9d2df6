"""Quadrilateral stiffness: symmetry, rigid motions, independence of the corner it starts from."""
from engine.harness import harness
from checks.plates import *
from checks.P01 import rigid

BOUNDS = ('One quadrilateral: eight rational shapes (square, rectangle, trapezoid, kite, parallelogram, skew, thin, obtuse) in rational frames with '
          'symbolic thickness and modulus for the square, rectangle and parallelogram (all shapes in the thorough tier), rational ones otherwise, plus a parallelogram and a trapezoid with symbolic dimensions; any nodal displacement. Element results (moments, shears, membrane stresses, end forces) of the rational shapes of the list (square and rectangle also with symbolic thickness and modulus) for any nodal displacement at Gauss points, centre, a corner.')
ASSUMPTIONS = ['Drilling degrees of freedom, which carry an artificial stiffness, are excluded from rigid-body statements.',
               'Poisson ratio 1/4 and 3/10.']


def shape(h, name):
    return [(h.q(x), h.q(y)) for x, y in QUADS[name]]


@harness('P02', params=[{'sh': s, 'fr': f} for s, f in zip(QUADS, FRAMES)] + [{'sh': s, 'fr': 'XY', 'sym': True, '_tier': 'quick' if s in ('unit', 'rect', 'para') else 'thorough'} for s in QUADS], timeout=600)
def stiffness(h, sh, fr, sym=False):
    T = frame(h, fr)
    pts = shape(h, sh)
    o = [h.q(1), h.q(-2), h.q(4)]
    m, P, p = element(h, 'quad', pts, T=T, origin=o, E=h.pos('E') if sym else h.q(4), t=h.pos('t') if sym else h.q('2/3'), nu=h.q('3/10') if sh in ('kite', 'skew') else h.q('1/4'))
    K = P.K()
    for i in range(24):
        for j in range(i):
            h.eq(K[i, j], K[j, i], 'symmetric')
    t, a, b = h.vec('t', 3), h.real('a'), h.real('b')
    w = [a * T[0][k] + b * T[1][k] for k in range(3)]
    u = []
    for n in 'ijmn':
        N = m.nodes[n]
        u += rigid(h, [N.X, N.Y, N.Z], t, w)
    h.zero(h.matvec(K, u), 'rigid')
    u = []
    for n in 'ijmn':
        N = m.nodes[n]
        u += rigid(h, [N.X, N.Y, N.Z], t, [h.real('c') * T[2][k] for k in range(3)])
    F = h.matvec(K, u)
    for a in range(4):
        h.zero(F[6 * a:6 * a + 3], 'rigid in-plane rotation, forces')
    # any displacement: the end forces are self-equilibrated except for the drilling moments
    v = h.vec('u', 24)
    F = h.matvec(K, v)
    z = [h.q(0)] * 3
    S, M = z, z
    for a, n in enumerate('ijmn'):
        N = m.nodes[n]
        f = F[6 * a:6 * a + 3]
        S = [S[k] + f[k] for k in range(3)]
        c = h.cross([N.X, N.Y, N.Z], f)
        M = [M[k] + c[k] + F[6 * a + 3 + k] for k in range(3)]
    h.zero(S, 'sum of end forces')
    for r in (0, 1):
        h.eq(h.dot(T[r], M), h.q(0), 'sum of end moments about local %s' % 'xy'[r])


@harness('P02', params=[{'case': c} for c in ('rectangle', 'square t')], timeout=600)
def symbolic_shape(h, case):
    W = h.pos('W')
    H = h.pos('H') if case == 'rectangle' else W
    pts = rect(h, W, H)
    m, P, p = element(h, 'quad', pts, E=h.q(1), t=h.q(1) if case == 'rectangle' else h.pos('t'))
    K = P.k()
    for i in range(24):
        for j in range(i):
            h.eq(K[i, j], K[j, i], 'symmetric')
    t, w = h.vec('t', 3), [h.real('a'), h.real('b'), h.q(0)]
    u = []
    for n in 'ijmn':
        N = m.nodes[n]
        u += rigid(h, [N.X, N.Y, N.Z], t, w)
    h.zero(h.matvec(K, u), 'rigid')


@harness('P02', params=[{'sh': s, 'rot': r} for s in QUADS for r in (1, 2, 3)], timeout=600)
def start_corner(h, sh, rot):
    """the same quadrilateral numbered from another corner has the same stiffness (without drilling)"""
    pts = shape(h, sh)
    E, t = h.q(5), h.q('1/2')
    m, P, p = element(h, 'quad', pts, E=E, t=t)
    names = 'ijmn'[rot:] + 'ijmn'[:rot]
    m.add_quad('Q2', *names, t, 'C')
    K1, K2 = P.K(), m.quads['Q2'].K()
    pos = [(rot + a) % 4 for a in range(4)]     # corner a of Q2 is corner pos[a] of Q1
    for a in range(4):
        for b in range(4):
            for r in range(5):
                for s in range(5):
                    h.eq(K2[6 * a + r, 6 * b + s], K1[6 * pos[a] + r, 6 * pos[b] + s], 'same stiffness')


@harness('P02', params=[{'sh': s} for s in ('unit', 'trap', 'skew')], timeout=600)
def mirrored(h, sh):
    """numbered the other way round (opposite normal) the quadrilateral has the same stiffness"""
    pts = shape(h, sh)
    m, P, p = element(h, 'quad', pts, E=h.q(5), t=h.pos('t'))
    m.add_quad('Q2', *'inmj', p['t'], 'C')
    K1, K2 = P.K(), m.quads['Q2'].K()
    pos = [0, 3, 2, 1]
    for a in range(4):
        for b in range(4):
            for r in range(5):
                for s in range(5):
                    h.eq(K2[6 * a + r, 6 * b + s], K1[6 * pos[a] + r, 6 * pos[b] + s], 'same stiffness')


def q4(h, pts, xi, eta):
    """derivatives of the bilinear functions and the area factor at a natural point"""
    dxi = [-(1 - eta) / 4, (1 - eta) / 4, (1 + eta) / 4, -(1 + eta) / 4]
    det_ = [-(1 - xi) / 4, -(1 + xi) / 4, (1 + xi) / 4, (1 - xi) / 4]
    a, b = (h.dot(dxi, [p[k] for p in pts]) for k in (0, 1))
    c, d = (h.dot(det_, [p[k] for p in pts]) for k in (0, 1))
    J = a * d - b * c
    inv = ((d / J, -b / J), (-c / J, a / J))
    return inv, J, lambda g_xi, g_eta: (inv[0][0] * g_xi + inv[0][1] * g_eta, inv[1][0] * g_xi + inv[1][1] * g_eta), dxi, det_


class DKMQ:
    """The plate bending element of Katili (1993): quadratic rotations along the sides, one shear strain per side."""

    def __init__(self, h, pts, t, nu):
        self.h, self.pts = h, pts
        self.sides = []
        for a in range(4):
            b = (a + 1) % 4
            dx, dy = pts[b][0] - pts[a][0], pts[b][1] - pts[a][1]
            L = h.sqrt(dx * dx + dy * dy)
            self.sides.append((a, b, L, dx / L, dy / L, 2 / (h.q('5/6') * (1 - nu)) * t * t / (L * L)))

    def rows(self, w, bx, by):
        """per side: slope of w plus mean tangential rotation"""
        return [(w[b] - w[a]) / L + (C * (bx[a] + bx[b]) + S * (by[a] + by[b])) / 2 for a, b, L, C, S, p in self.sides]

    def strains(self, w, bx, by, xi, eta):
        h = self.h
        inv, J, grad, dxi, det_ = q4(h, self.pts, xi, eta)
        r = self.rows(w, bx, by)
        db = [-h.q('3/2') * v / (1 + p) for v, (_, _, _, _, _, p) in zip(r, self.sides)]
        gs = [v * p / (1 + p) for v, (_, _, _, _, _, p) in zip(r, self.sides)]
        kx = [h.q(0)] * 2
        ky = [h.q(0)] * 2
        for a in range(4):
            gx, gy = grad(dxi[a], det_[a])
            kx = [kx[0] + gx * bx[a], kx[1] + gy * bx[a]]
            ky = [ky[0] + gx * by[a], ky[1] + gy * by[a]]
        bub = ((-xi * (1 - eta), -(1 - xi * xi) / 2), ((1 - eta * eta) / 2, -(1 + xi) * eta), (-xi * (1 + eta), (1 - xi * xi) / 2), (-(1 - eta * eta) / 2, -(1 - xi) * eta))
        for (gxi, get), v, (_, _, _, C, S, _) in zip(bub, db, self.sides):
            gx, gy = grad(gxi, get)
            kx = [kx[0] + gx * C * v, kx[1] + gy * C * v]
            ky = [ky[0] + gx * S * v, ky[1] + gy * S * v]
        L = [s[2] for s in self.sides]
        g_xi = ((1 - eta) * gs[0] * L[0] - (1 + eta) * gs[2] * L[2]) / 4
        g_eta = ((1 + xi) * gs[1] * L[1] - (1 - xi) * gs[3] * L[3]) / 4
        return [kx[0], ky[1], kx[1] + ky[0]], list(grad(g_xi, g_eta)), J


@harness('P02', params=[{'sh': s, 'sym': v} for s in QUADS for v in (False,)] + [{'sh': s, 'sym': True} for s in ('unit', 'rect')], timeout=600)
def documented_element(h, sh, sym):
    """any nodal displacement: moments, shears, membrane stresses and end forces are those of the documented element"""
    pts = shape(h, sh)
    nu = h.q('3/10') if sh in ('kite', 'skew') else h.q('1/4')
    E, t = (h.pos('E'), h.pos('t')) if sym else (h.q(40), h.q('3/5'))
    T = frame(h, dict(zip(QUADS, FRAMES))[sh])
    m, P, p = element(h, 'quad', pts, T=T, E=E, t=t, nu=nu)
    loc = []
    for a in range(4):
        loc += [h.real('u%d%d' % (a, k)) for k in range(5)] + [h.q(0)]
    prescribe_field(h, m, T, loc)
    m.analyze()
    el = DKMQ(h, pts, t, nu)
    w, bx, by = [loc[6 * a + 2] for a in range(4)], [loc[6 * a + 4] for a in range(4)], [-loc[6 * a + 3] for a in range(4)]
    Db = E * t * t * t / (12 * (1 - nu * nu))
    Gs = h.q('5/6') * E * t / (2 * (1 + nu))
    Dm = Dplane(h, E, nu)
    g = 1 / h.sqrt(h.q(3))
    gauss = [(a * g, b * g) for a, b in ((-1, -1), (1, -1), (1, 1), (-1, 1))]
    res = []
    for xi, eta in gauss:
        k, s, J = el.strains(w, bx, by, xi, eta)
        M = [Db * (k[0] + nu * k[1]), Db * (nu * k[0] + k[1]), Db * (1 - nu) / 2 * k[2]]
        Q = [Gs * v for v in s]
        _, _, grad, dxi, det_ = q4(h, pts, xi, eta)
        G = [grad(dxi[a], det_[a]) for a in range(4)]
        e = [sum((G[a][0] * loc[6 * a] for a in range(4)), h.q(0)), sum((G[a][1] * loc[6 * a + 1] for a in range(4)), h.q(0)),
             sum((G[a][1] * loc[6 * a] + G[a][0] * loc[6 * a + 1] for a in range(4)), h.q(0))]
        N = [h.dot(r, e) for r in Dm]
        res.append((M, Q, N, J, G))
    # results at the integration points, and at a corner and the centre (bilinear through the integration points)
    z = h.q(0)
    for xi, eta, what in [(a, b, 'integration point') for a, b in gauss] + [(z, z, 'centre'), (h.q(1), h.q(-1), 'corner')]:
        r = [(1 + a * b * 3 * xi) * (1 + c * d * 3 * eta) / 4 for (a, b), (c, d) in (((-1, g), (-1, g)), ((1, g), (-1, g)), ((1, g), (1, g)), ((-1, g), (1, g)))]
        for got, idx, lab in ((P.moment(xi, eta), 0, 'moment'), (P.shear(xi, eta), 1, 'shear'), (P.membrane(xi, eta), 2, 'membrane stress')):
            want = [sum((c * v[idx][k] for c, v in zip(r, res)), z) for k in range(len(res[0][idx]))]
            h.alleq(h.col(got), want, what + ' ' + lab)
    # end forces: virtual work of these stress resultants over unit displacements of every corner
    F = h.col(P.f())
    one = [[h.q(1) if i == a else z for i in range(4)] for a in range(4)]
    o = [z] * 4
    for a in range(4):
        for k, (dw, dbx, dby, sg) in ((2, (one[a], o, o, 1)), (4, (o, one[a], o, 1)), (3, (o, o, one[a], -1))):
            tot = z
            for (xi, eta), (M, Q, N, J, G) in zip(gauss, res):
                kk, s, _ = el.strains(dw, dbx, dby, xi, eta)
                tot = tot + J * (h.dot(M, kk) + h.dot(Q, s))
            h.eq(F[6 * a + k], sg * tot, 'end force ' + FDIR[k])
        for k in (0, 1):
            tot = z
            for M, Q, N, J, G in res:
                tot = tot + t * J * (N[k] * G[a][k] + N[2] * G[a][1 - k])
            h.eq(F[6 * a + k], tot, 'end force ' + FDIR[k])
