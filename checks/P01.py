"""Rectangular plate stiffness: exact energy, symmetry, rigid motions."""
from engine.harness import harness
from checks.plates import *

BOUNDS = ('One rectangular plate: symbolic width, height, thickness, modulus and Poisson ratio; every pair of the 12 bending and 8 membrane shape '
          'functions (so every displacement). Orientation: 8 rational frames. Moments at a symbolic point for rational sizes and any '
          'displacement of the element.')
ASSUMPTIONS = ['Drilling degrees of freedom (rotation about the normal), which carry an artificial stiffness, are excluded from energy and rigid-body statements.']


@harness('P01', params=[{'row': i} for i in range(12)], timeout=400)
def bending_energy(h, row):
    W, H = h.pos('W'), h.pos('H')
    nu = h.real('nu', lo=0, hi='1/2')
    pts = rect(h, W, H)
    m, P, p = element(h, 'plate', pts, E=h.q(1), nu=nu, t=h.pos('t'))
    K = P.k()
    f = p['t'] * p['t'] * p['t'] / 12
    D = [[f * c for c in r] for r in Dplane(h, h.q(1), nu)]
    wi = mono(h, ACM[row])
    Ku = h.matvec(K, nodal_bending(h, wi, pts))
    for j in range(12):
        wj = mono(h, ACM[j])
        h.eq(h.dot(nodal_bending(h, wj, pts), Ku), quad_form(h, curvature(wi), D, curvature(wj)).rect(W, H), 'energy %d' % j)
        # the in-plane part does not see bending
    for k in range(24):
        if k % 6 in (0, 1):
            h.eq(Ku[k], h.q(0), 'no membrane force %d' % k)


@harness('P01', params=[{'row': i, 'dir': c} for i in range(4) for c in (0, 1)], timeout=400)
def membrane_energy(h, row, dir):
    W, H = h.pos('W'), h.pos('H')
    nu = h.real('nu', lo=0, hi='1/2')
    pts = rect(h, W, H)
    m, P, p = element(h, 'plate', pts, E=h.q(1), nu=nu, t=h.pos('t'))
    K = P.k()
    D = [[p['t'] * c for c in r] for r in Dplane(h, h.q(1), nu)]

    def field(ab, c):
        z = Poly(h)
        return (mono(h, ab), z) if c == 0 else (z, mono(h, ab))
    fi = field(BIL[row], dir)
    Ku = h.matvec(K, nodal_membrane(h, *fi, pts))
    for j in range(4):
        for c in (0, 1):
            fj = field(BIL[j], c)
            h.eq(h.dot(nodal_membrane(h, *fj, pts), Ku), quad_form(h, strain(*fi), D, strain(*fj)).rect(W, H), 'energy %d%s' % (j, 'uv'[c]))
    for k in range(24):
        if k % 6 in (2, 3, 4):
            h.eq(Ku[k], h.q(0), 'no bending force %d' % k)


@harness('P01', timeout=400)
def matrix(h):
    """symmetry of the whole matrix, linear in E, drilling uncoupled and positive"""
    W, H, E = h.pos('W'), h.pos('H'), h.pos('E')
    pts = rect(h, W, H)
    R = []
    for e in (E, h.q(1)):
        m, P, p = element(h, 'plate', pts, E=e, t=h.pos('t'))
        R.append(P.k())
    K, K1 = R
    for i in range(24):
        for j in range(24):
            if j < i:
                h.eq(K[i, j], K[j, i], 'symmetric')
            h.eq(K[i, j], E * K1[i, j], 'proportional to E')
            if i != j and (i % 6 == 5 or j % 6 == 5):
                h.eq(K[i, j], h.q(0), 'drilling uncoupled')
    for i in (5, 11, 17, 23):
        h.lt(h.q(0), K[i, i], 'drilling stiffness positive')


def rigid(h, X, t, w):
    r = h.cross(w, X)
    return [t[k] + r[k] for k in range(3)] + list(w)


@harness('P01', params=[{'fr': f} for f in FRAMES], timeout=400)
def global_axes(h, fr):
    """global stiffness in any orientation: rigid motions are free of forces, K is the rotated local matrix"""
    T = frame(h, fr)
    W, H = h.q(3), h.q(2)
    o = [h.q(1), h.q(-2), h.q(4)]
    m, P, p = element(h, 'plate', rect(h, W, H), T=T, origin=o, E=h.q(100), t=h.pos('t'))
    K = P.K()
    t, a, b = h.vec('t', 3), h.real('a'), h.real('b')
    w = [a * T[0][k] + b * T[1][k] for k in range(3)]       # rotations about in-plane axes
    u = []
    for n in 'ijmn':
        N = m.nodes[n]
        u += rigid(h, [N.X, N.Y, N.Z], t, w)
    h.zero(h.matvec(K, u), 'rigid')
    # rotation about the normal leaves only the drilling moments
    u = []
    for n in 'ijmn':
        N = m.nodes[n]
        u += rigid(h, [N.X, N.Y, N.Z], t, [h.real('c') * T[2][k] for k in range(3)])
    F = h.matvec(K, u)
    for a in range(4):
        h.zero(F[6 * a:6 * a + 3], 'rigid in-plane rotation, forces')
    for i in range(24):
        for j in range(i):
            h.eq(K[i, j], K[j, i], 'symmetric')
    loc = h.vec('u', 24)
    k = P.k()
    h.alleq(h.matvec(K, to_global(h, T, loc)), to_global(h, T, h.matvec(k, loc)), 'K u')


@harness('P01', params=[{'W': 1, 'H': 1}, {'W': 3, 'H': 2}, {'W': 2, 'H': 7, '_tier': 'thorough'}, {'W': 1, 'H': 9, '_tier': 'thorough'}], timeout=600)
def moments(h, W, H):
    """for any bending displacement of the element, the moments at any point are D times the curvatures of the shape functions,
    and the end forces do the virtual work of these moments"""
    W, H = h.q(W), h.q(H)
    pts = rect(h, W, H)
    m, P, p = element(h, 'plate', pts, E=h.q(7), t=h.pos('t'))
    w = Poly(h)
    for k, ab in enumerate(ACM):
        w = w + mono(h, ab, h.real('a%d' % k))
    loc = nodal_bending(h, w, pts)
    prescribe_field(h, m, p['T'], loc)
    m.analyze()
    x, y = h.real('x', lo=0), h.real('y', lo=0)
    h.assume(x <= W)
    h.assume(y <= H)
    f = p['t'] * p['t'] * p['t'] / 12
    D = [[f * c for c in r] for r in Dplane(h, p['E'], p['nu'])]
    kap = curvature(w)
    M = h.col(P.moment(x, y))
    M0 = [sum((D[r][c] * kap[c].at(x, y) for c in range(3)), h.q(0)) for r in range(3)]
    h.alleq(M, M0, 'moment')
    # shear: derivatives of the moments
    Q = h.col(P.shear(x, y))
    mp = [kap[0].scale(D[r][0]) + kap[1].scale(D[r][1]) + kap[2].scale(D[r][2]) for r in range(3)]
    # reported shears are minus the derivatives of the reported moments
    h.eq(Q[0], -(mp[0].diff('x') + mp[2].diff('y')).at(x, y), 'Qx')
    h.eq(Q[1], -(mp[1].diff('y') + mp[2].diff('x')).at(x, y), 'Qy')
    F = h.col(P.f())
    for j, ab in enumerate(ACM):
        wj = mono(h, ab)
        work = h.q(0)
        kj = curvature(wj)
        for r in range(3):
            work = work + (mp[r] * kj[r]).rect(W, H)
        h.eq(h.dot(nodal_bending(h, wj, pts), F), work, 'virtual work %d' % j)
