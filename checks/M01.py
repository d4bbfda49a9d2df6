"""Member stiffness = exact Euler-Bernoulli beam, rigid motions, equilibrium, global stiffness."""
from engine.harness import harness
from checks.common import *

BOUNDS = ('One member; all section/material properties, the length, all 12 end displacements symbolic. Orientation: '
          'symbolic direction vector (any two distinct nodes), plus axis-aligned and vertical classes.')


@harness('M01')
def local_stiffness(h):
    m, mem, p = one_member(h)
    k = mem.k()
    K = k_exact(h, p)
    for i in range(12):
        for j in range(12):
            h.eq(k[i, j], K[i][j], 'k%d,%d' % (i, j))
            h.eq(k[i, j], k[j, i], 'sym%d,%d' % (i, j))


@harness('M01', params=[{}])
def forces_of_displacements(h):
    """end forces after an analysis with arbitrary end displacements"""
    m, mem, p = one_member(h)
    u = prescribe(h, m)
    m.analyze()
    f = h.col(m.members['M1'].f('Combo 1'))
    K = k_exact(h, p)
    h.alleq(f, h.matvec_rows(K, u), 'f')
    L = p['L']
    # equilibrium of the end forces
    h.eq(f[0] + f[6], 0, 'SumX'); h.eq(f[1] + f[7], 0, 'SumY'); h.eq(f[2] + f[8], 0, 'SumZ')
    h.eq(f[3] + f[9], 0, 'MomX')
    h.eq(f[4] + f[10] - f[8] * L, 0, 'MomY'); h.eq(f[5] + f[11] + f[7] * L, 0, 'MomZ')


@harness('M01', params=[{'kind': k} for k in ('x', '-x', 'z', 'up', 'down', 'xz', 'xy', 'gen')], timeout=600)
def global_stiffness(h, kind):
    """global stiffness: symmetric, rigid motions force-free, equal to T^t k T in the documented axes"""
    X1, X2 = coords_of(h, kind)
    z = h.q(0)
    m, mem, p = one_member(h, [X1, X2])
    K = mem.K()
    t = h.vec('t', 3)
    w = h.vec('w', 3)
    u = []
    for X in (X1, X2):
        r = h.cross(w, [X[i] - X1[i] for i in range(3)])
        u += [t[i] + r[i] for i in range(3)] + w
    h.zero(h.matvec(K, u), 'rigid')
    for i in range(12):
        for j in range(i):
            h.eq(K[i, j], K[j, i], 'sym%d,%d' % (i, j))
    # energy of an arbitrary displacement: K v . v equals the exact beam energy in the documented local axes
    R, L = axes(h, X1, X2, kind)
    v = h.vec('v', 12)
    loc = []
    for b in range(4):
        loc += [h.dot(R[i], v[3 * b:3 * b + 3]) for i in range(3)]
    F = h.matvec_rows(k_exact(h, p, L), loc)
    G = []
    for b in range(4):
        G += [R[0][i] * F[3 * b] + R[1][i] * F[3 * b + 1] + R[2][i] * F[3 * b + 2] for i in range(3)]
    h.alleq(h.matvec(K, v), G, 'K')
