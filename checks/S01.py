"""Two-node springs are pure axial springs."""
from engine.harness import harness
from checks.models import *

BOUNDS = ('One spring between any two distinct nodes: symbolic coordinates (general, horizontal, vertical and axis-parallel classes), symbolic '
          'stiffness and end displacements, analysed by all solvers; assembly into the model with other springs and members.')

KINDS = ('x', '-x', 'z', 'up', 'down', 'xz', 'xy', 'gen')


@harness('S01', params=[{'kind': k} for k in KINDS], timeout=400)
def matrix(h, kind):
    X1, X2 = coords_of(h, kind)
    m = FE()
    m.add_node('N1', *X1)
    m.add_node('N2', *X2)
    ks = h.pos('ks')
    m.add_spring('S', 'N1', 'N2', ks)
    S = m.springs['S']
    K = S.K()
    d = [b - a for a, b in zip(X1, X2)]
    L2 = h.dot(d, d)
    u = h.vec('u', 12)
    F = h.matvec(K, u)
    e = h.dot(d, [u[6 + k] - u[k] for k in range(3)])
    for k in range(3):
        h.eq(F[k] * L2, -ks * e * d[k], 'force on i %d' % k)
        h.eq(F[6 + k] * L2, ks * e * d[k], 'force on j %d' % k)
        h.eq(F[3 + k], h.q(0), 'moment i %d' % k)
        h.eq(F[9 + k], h.q(0), 'moment j %d' % k)
    for a in range(12):
        for b in range(a):
            h.eq(K[a, b], K[b, a], 'symmetric')
    # rigid body motion (first order)
    t, w = h.vec('t', 3), h.vec('w', 3)
    v = []
    for X in (X1, X2):
        r = h.cross(w, [X[i] - X1[i] for i in range(3)])
        v += [t[i] + r[i] for i in range(3)] + w
    h.zero(h.matvec(K, v), 'rigid')
    k = S.k()
    h.eq(k[0, 0], ks, 'local k')
    h.eq(S.L() * S.L(), L2, 'length')
    # the local axes are orthonormal, x along the spring
    T = S.T()
    for a in range(3):
        for b in range(a, 3):
            h.eq(h.dot([T[a, c] for c in range(3)], [T[b, c] for c in range(3)]), h.q(1 if a == b else 0), 'orthonormal %d%d' % (a, b))


@harness('S01', params=[{'kind': k, 'how': w} for k in KINDS for w in (('gen',) if k == 'gen' else ('gen', 'lin-d'))], timeout=400)
def forces(h, kind, how):
    """end forces, axial force and reactions for any displacement of the end nodes"""
    X1, X2 = coords_of(h, kind)
    m = FE()
    m.add_node('N1', *X1)
    m.add_node('N2', *X2)
    ks = h.pos('ks')
    m.add_spring('S', 'N1', 'N2', ks)
    u = prescribe(h, m, dofs=DOFS[:3]) + [h.q(0)] * 0
    fix(m, 'N1', 'N2')
    run(m, how)
    S = m.springs['S']
    d = [b - a for a, b in zip(X1, X2)]
    e = h.dot(d, [u[3 + k] - u[k] for k in range(3)])
    L = S.L()
    h.eq(S.axial() * L, -ks * e, 'axial force (compression positive)')
    f = h.col(S.f())
    h.eq(f[0] * L, -ks * e, 'f0')
    h.eq(f[6] * L, ks * e, 'f6')
    h.zero(f[1:6] + f[7:], 'no other local forces')
    F = h.col(S.F())
    for k in range(3):
        h.eq(F[k] * L * L, -ks * e * d[k], 'F%d' % k)
        h.eq(F[6 + k] * L * L, ks * e * d[k], 'F%d' % (6 + k))
        h.eq(getattr(m.nodes['N1'], 'RxnF' + 'XYZ'[k])['Combo 1'] * L * L, -ks * e * d[k], 'reaction i %d' % k)
        h.eq(getattr(m.nodes['N2'], 'RxnF' + 'XYZ'[k])['Combo 1'] * L * L, ks * e * d[k], 'reaction j %d' % k)
        h.eq(getattr(m.nodes['N1'], 'RxnM' + 'XYZ'[k])['Combo 1'], h.q(0), 'moment reaction i %d' % k)
        h.eq(getattr(m.nodes['N2'], 'RxnM' + 'XYZ'[k])['Combo 1'], h.q(0), 'moment reaction j %d' % k)


@harness('S01', params=[{'how': w} for w in SOLVERS], timeout=400)
def truss(h, how):
    """three springs with symbolic stiffness carry a node: equilibrium at every node, springs ending at shared nodes"""
    d = Desc(h)
    d.mat('S', h.q(100), h.q(40))
    for n, X in (('T', (0, 0, 0)), ('A', (3, 4, 0)), ('B', (0, 0, -2)), ('C', (2, -1, 2)), ('V', (0, 5, 0))):
        d.node(n, *X)
    for n in 'ABCV':
        d.support(n)
    d.support('T', 'xyz')
    for k, (i, j) in enumerate((('T', 'A'), ('B', 'T'), ('C', 'T'), ('T', 'V'))):
        d.spring('S%d' % k, i, j, h.pos('k%d' % k) if k < 2 else h.q(k + 1))
    for f in FDIR[:3]:
        d.load('T', f, h.real('P' + f))
    d.m.add_load_combo('U', {'Case 1': h.real('f')})
    run(d.m, how)
    d.check_equilibrium('U', {'Case 1': h.real('f')})
