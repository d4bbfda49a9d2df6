"""Member local axes."""
from engine.harness import harness
from checks.common import *

BOUNDS = ('One member; both end nodes and the auxiliary node at arbitrary symbolic positions (distinct ends, auxiliary node '
          'off the member axis): all orientation branches are explored.')


def member_T(h, X1, X2, aux=None):
    m = FE()
    m.add_node('N1', *X1)
    m.add_node('N2', *X2)
    m.add_material('Mat', 1, 1, h.q('0.3'), 1)
    if aux is not None:
        m.add_auxnode('A', *aux)
    m.add_member('M1', 'N1', 'N2', 'Mat', 1, 1, 1, 1, aux_node=('A' if aux is not None else None))
    return m, m.members['M1'].T()


def triad(h, T, X1, X2):
    d = [X2[i] - X1[i] for i in range(3)]
    x, y, z = ([T[r, c] for c in range(3)] for r in range(3))
    for n, a, b, v in (('xx', x, x, 1), ('yy', y, y, 1), ('zz', z, z, 1), ('xy', x, y, 0), ('yz', y, z, 0), ('zx', z, x, 0)):
        h.eq(h.dot(a, b), v, 'orthonormal ' + n)
    h.alleq(h.cross(x, y), z, 'right-handed')
    # x along the member, from i to j
    h.zero(h.cross(x, d), 'x along member')
    h.lt(0, h.dot(x, d), 'x from i to j')
    # block structure
    for i in range(12):
        for j in range(12):
            if i // 3 == j // 3:
                h.eq(T[i, j], T[i % 3, j % 3], 'block%d,%d' % (i, j))
            else:
                h.eq(T[i, j], 0, 'block%d,%d' % (i, j))
    return d, x, y, z


@harness('M03', params=[{'kind': k} for k in ('any', 'x', '-x', 'z', 'up', 'down', 'xy', 'xz', '2-1-2')], timeout=600)
def default_axes(h, kind):
    X1, X2 = coords_of(h, kind)
    m, T = member_T(h, X1, X2)
    d, x, y, z = triad(h, T, X1, X2)
    vert = h.And(d[0] == 0, d[2] == 0)
    if h.known(vert):
        # vertical members keep local y in the global XY plane (local z = global Z)
        h.alleq(z, [0, 0, 1], 'z of vertical member')
        if h.known(d[1] > 0):
            h.alleq(y, [-1, 0, 0], 'y of upward member')
        else:
            h.alleq(y, [1, 0, 0], 'y of downward member')
    else:
        h.eq(z[1], 0, 'z horizontal')
        h.lt(0, y[1], 'y points up')


@harness('M03', params=[{'kind': k} for k in ('x', 'up', 'down', 'z', '2-1-2', '-6-2-3', 'xy')], timeout=600)
def aux_axes(h, kind):
    X1, X2 = coords_of(h, kind)
    if kind == 'xy':
        A = [X1[0] + h.real('a0'), X1[1] + h.real('a1'), X1[2]]
    else:
        A = [X1[i] + h.real('a%d' % i) for i in range(3)]
    a = [A[i] - X1[i] for i in range(3)]
    c = h.cross(a, [X2[i] - X1[i] for i in range(3)])
    h.assume(h.Not(h.And(c[0] == 0, c[1] == 0, c[2] == 0)))
    m, T = member_T(h, X1, X2, A)
    d, x, y, z = triad(h, T, X1, X2)
    h.eq(h.dot(y, a), 0, 'aux node in the x-z plane')
    h.lt(0, h.dot(z, a), 'aux node on the positive z side')


@harness('M03', params=[{'kind': k} for k in ('any',)], tier='thorough', timeout=900)
def aux_axes_any(h, kind):
    aux_axes(h, kind)


@harness('M03', params=[{'kind': k} for k in ('x', 'up', '2-1-2')])
def lengths(h, kind):
    """the length is the distance between the end nodes, also after a node was moved"""
    X1, X2 = coords_of(h, kind)
    m, T = member_T(h, X1, X2)
    M = m.members['M1']
    L = M.L()
    h.eq(L * L, h.dot([b - a for a, b in zip(X1, X2)], [b - a for a, b in zip(X1, X2)]), 'L^2')
    h.lt(0, L, 'L>0')
    s = h.pos('s')
    m.nodes['N2'].X = X1[0] + s * (X2[0] - X1[0])
    m.nodes['N2'].Y = X1[1] + s * (X2[1] - X1[1])
    m.nodes['N2'].Z = X1[2] + s * (X2[2] - X1[2])
    h.eq(M.L(), s * L, 'moved node')
    h.alleq(M.T(), T, 'same direction, same axes')
