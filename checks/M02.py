"""End releases: zero force, exact static condensation, nothing else changed."""
from engine.harness import harness
from checks.common import *

BOUNDS = ('One member of symbolic length and section with one load; all 12 end displacements, load magnitude and position '
          'symbolic. Release patterns: every statically admissible pattern of each bending plane, axial, torsion, and mixed '
          'patterns (quick: 34, thorough: every admissible pattern with at most one release per independent action plus all '
          'products of bending-plane patterns).')
ASSUMPTIONS = ['Release patterns that make the member itself a mechanism are outside the property.']

PLANE = [(), ('v1',), ('r1',), ('v2',), ('r2',), ('r1', 'r2'), ('v1', 'r1'), ('v1', 'r2'), ('r1', 'v2'), ('v2', 'r2')]
MZ = {'v1': 1, 'r1': 5, 'v2': 7, 'r2': 11}
MY = {'v1': 2, 'r1': 4, 'v2': 8, 'r2': 10}


def pat(z=(), y=(), ax=None, tor=None):
    s = [MZ[k] for k in z] + [MY[k] for k in y]
    if ax is not None:
        s.append(ax)
    if tor is not None:
        s.append(tor)
    return sorted(s)


QUICK = [pat()] + [pat(z=a) for a in PLANE[1:]] + [pat(y=a) for a in PLANE[1:]] + \
    [pat(ax=0), pat(ax=6), pat(tor=3), pat(tor=9),
     pat(('r1', 'r2'), ('r1', 'r2')), pat(('r1', 'r2'), ('r1', 'r2'), None, 3), pat(('r1', 'r2'), ('r1', 'r2'), None, 9),
     pat(('r1',), ('r2',), 0, 9), pat(('v2',), ('r1',), 6, 3), pat(('v1', 'r2'), ('r1', 'v2'), 0, 3),
     pat(('r1',), ('r1',)), pat(('r2',), ('r2',), 6, 9), pat(('v2', 'r2'), ('v1', 'r1'), 0, 9)]
ALL = []
for a in PLANE:
    for b in PLANE:
        for ax, tor in ((None, None), (0, 3), (6, 9), (0, 9), (6, 3), (None, 3), (0, None)):
            q = pat(a, b, ax, tor)
            if q not in QUICK and q not in ALL:
                ALL.append(q)


def load_of(h, d):
    P = h.real('P')
    x = h.pos('x')
    return ('pt', d, P, x)


def body(h, rel, kinds):
    m, mem, p = one_member(h)
    L = p['L']
    flags = [i in rel for i in range(12)]
    m.def_releases('M1', *flags)
    fix(m, 'N1', 'N2')
    u = prescribe(h, m)
    fer = [h.q(0)] * 12
    for n, (kind, d) in enumerate(kinds):
        P = h.real('P%d' % n)
        if kind == 'pt':
            x = h.pos('x%d' % n)
            h.assume(x < L)
            ld = ('pt', d, P, x)
        else:
            ld = ('dist', d, P, h.real('Q%d' % n), h.q(0), L)
        add_load(m, 'M1', ld)
        fer = [a + b for a, b in zip(fer, fer_exact(h, L, ld))]
    m.analyze()
    f = h.col(m.members['M1'].f('Combo 1'))
    want = released_forces(h, k_exact(h, p), fer, u, rel)
    for i in rel:
        h.eq(f[i], 0, 'released force %d' % i)
    h.alleq(f, want, 'f')
    # the forces on the supports are those of the released member
    for b, n in enumerate(('N1', 'N2')):
        N = m.nodes[n]
        R = [N.RxnFX, N.RxnFY, N.RxnFZ, N.RxnMX, N.RxnMY, N.RxnMZ]
        for i in range(6):
            h.eq(R[i]['Combo 1'], want[6 * b + i], 'Rxn%d' % (6 * b + i))


LOADS = [[('pt', 'Fy'), ('pt', 'Mz'), ('pt', 'Fx')], [('pt', 'Fz'), ('dist', 'Fy'), ('pt', 'Mx')], [('pt', 'My'), ('dist', 'Fz'), ('dist', 'Fx')]]


@harness('M02', params=[{'rel': r, 'ld': i % 3} for i, r in enumerate(QUICK)] +
         [{'rel': r, 'ld': j, '_tier': 'thorough'} for i, r in enumerate(QUICK) for j in range(3) if j != i % 3] +
         [{'rel': r, 'ld': i % 3, '_tier': 'thorough'} for i, r in enumerate(ALL)])
def released(h, rel, ld):
    body(h, rel, LOADS[ld])


@harness('M02', params=[{'kind': k} for k in ('2-1-2', 'up')])
def released_inclined(h, kind):
    """releases act in the member's local axes for any orientation"""
    X1, X2 = coords_of(h, kind)
    m, mem, p = one_member(h, [X1, X2])
    rel = [4, 5, 10, 11, 9]
    m.def_releases('M1', *[i in rel for i in range(12)])
    u = prescribe(h, m)
    m.analyze()
    R, L = axes(h, X1, X2, kind)
    loc = []
    for b in range(4):
        loc += [h.dot(R[i], u[3 * b:3 * b + 3]) for i in range(3)]
    f = h.col(m.members['M1'].f('Combo 1'))
    h.alleq(f, released_forces(h, k_exact(h, p, L), [h.q(0)] * 12, loc, rel), 'f')


@harness('M02')
def default_is_unreleased(h):
    m, mem, p = one_member(h)
    m.def_releases('M1')
    u = prescribe(h, m)
    m.analyze()
    h.alleq(m.members['M1'].f('Combo 1'), h.matvec_rows(k_exact(h, p), u), 'f')
    # keyword arguments name the DOFs
    names = ('Dxi', 'Dyi', 'Dzi', 'Rxi', 'Ryi', 'Rzi', 'Dxj', 'Dyj', 'Dzj', 'Rxj', 'Ryj', 'Rzj')
    for i, n in enumerate(names):
        m.def_releases('M1', **{n: True})
        h.same([bool(b) for b in m.members['M1'].Releases], [j == i for j in range(12)], 'releases ' + n)
