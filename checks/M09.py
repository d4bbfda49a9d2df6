"""Array results equal point results."""
from engine.harness import harness
from checks.common import *

BOUNDS = ('One member (plain, and with a node in its interior), loads of every type with symbolic magnitudes; three symbolic '
          'ascending positions not exactly at a load position (also on the element that makes up the member), and n_points = 2..5 (7 thorough) equally spaced positions with '
          'symbolic load positions not coinciding with them; every result type; linear analysis, and P-Delta for plain members.'
          ' A member of rational length in rational directions under 36 interleaved and overlapping loads of every local and '
          'global type, symbolic magnitudes, two cases and combinations, at 12 rational cuts.')

RES = {'Vy': ('shear', 'Fy'), 'Vz': ('shear', 'Fz'), 'Mz': ('moment', 'Mz'), 'My': ('moment', 'My'), 'T': ('torque', None),
       'P': ('axial', None), 'dy': ('deflection', 'dy'), 'dz': ('deflection', 'dz'), 'dx': ('deflection', 'dx'),
       'ry': ('rel_deflection', 'dy'), 'rz': ('rel_deflection', 'dz')}


def point(M, r, x):
    n, d = RES[r]
    return getattr(M, n)(d, x) if d else getattr(M, n)(x)


def arr(M, r, n_points, xs=None):
    n, d = RES[r]
    f = getattr(M, n + '_array')
    if xs is None:
        return f(d, n_points) if d else f(n_points)
    return f(d, n_points, 'Combo 1', xs) if d else f(n_points, 'Combo 1', xs)


def model(h, ld, mid):
    m = FE()
    p = props(h, G=h.q(1), J=h.q(1), A=h.q(2), E=h.q(3), Iy=h.q(4), Iz=h.q(5))
    L = h.pos('L')
    m.add_node('N1', 0, 0, 0)
    m.add_node('N2', L, 0, 0)
    add_mat(h, m, p)
    m.add_member('M1', 'N1', 'N2', 'Mat', p['Iy'], p['Iz'], p['J'], p['A'])
    fix(m, 'N1', 'N2')
    if mid:
        m.add_node('N3', L * h.q(mid), 0, 0)
        fix(m, 'N3')
        prescribe(h, m, ['N3'])
    prescribe(h, m, ['N2'])
    loads = sym_loads(h, ld, L)
    for l in loads:
        add_load(m, 'M1', l)
    return m, L, loads


LD = [[], [('full', 'Fy'), ('pt', 'Fz')], [('pt', 'Fy'), ('pt', 'Mx'), ('full', 'Fx')], [('part', 'Fz')], [('pt', 'Mz'), ('pt', 'My')], [('pt', 'Fx')]]


@harness('M09', params=[{'ld': l} for l in LD] + [{'ld': l, 'mid': '1/3'} for l in (LD[0], LD[1], LD[5])] +
         [{'ld': l, 'piece': True} for l in LD[1:]] + [{'ld': LD[3], 'mid': '1/2', '_tier': 'thorough'}], timeout=500)
def user_positions(h, ld, mid=None, piece=False):
    m, L, loads = model(h, [tuple(x) for x in ld], mid)
    n = 2 if mid or len(ld) > 1 else 3
    xs = [h.nonneg('c%d' % i) for i in range(n)]
    for a, b in zip(xs, xs[1:]):
        h.assume(a < b)
    h.assume(xs[-1] <= L)
    for x in xs:
        off_loads(h, loads, x)
        if mid:
            h.assume(h.Not(x == L * h.q(mid)))
    m.analyze()
    M = m.members['M1']
    if piece:
        M = list(M.sub_members.values())[0]     # the element that carries the results of the member
    for r in RES:
        A = arr(M, r, 0, h.array(xs))
        h.same(tuple(A.shape), (2, n), r + ' shape')
        for i, x in enumerate(xs):
            h.eq(A[0, i], x, r + ' position[%d]' % i)
            h.eq(A[1, i], point(M, r, x), r + ' value[%d]' % i)


@harness('M09', params=[{'ld': LD[1], 'n': 3}, {'ld': LD[4], 'n': 2}, {'ld': LD[5], 'n': 5}, {'ld': LD[3], 'n': 4}, {'ld': LD[0], 'n': 3, 'mid': '1/3'},
                        {'ld': LD[5], 'n': 4, 'mid': '1/2'}, {'ld': LD[2], 'n': 7, '_tier': 'thorough'}], timeout=500)
def n_points(h, ld, n, mid=None):
    m, L, loads = model(h, [tuple(x) for x in ld], mid)
    xs = [L * h.q('%d/%d' % (i, n - 1)) for i in range(n)]
    for x in xs:
        off_loads(h, [l for l in loads if l[0] == 'pt' or h.known(l[4] > 0)], x)
    m.analyze()
    M = m.members['M1']
    for r in RES:
        A = arr(M, r, n)
        h.same(tuple(A.shape), (2, n), r + ' shape')
        for i, x in enumerate(xs):
            h.eq(A[0, i], x, r + ' position[%d]' % i)
            h.eq(A[1, i], point(M, r, x), r + ' value[%d]' % i)


@harness('M09')
def out_of_range(h):
    """positions outside the member are refused"""
    m, L, loads = model(h, [('full', 'Fy')], None)
    m.analyze()
    M = m.members['M1']
    e = h.pos('e')
    for r in RES:
        h.raises(lambda: arr(M, r, 0, h.array([h.q(0), L + e])), (ValueError,), r + ' beyond the end')
        h.raises(lambda: arr(M, r, 0, h.array([-e, L])), (ValueError,), r + ' before the start')


@harness('M09', params=[{'kind': 'x'}, {'kind': '2-1-2', 'mids': ['13/24']}, {'kind': '-1-2-2', 'rel': [4, 11]}], timeout=400)
def many_loads(h, kind, mids=(), rel=()):
    """thirty-six loads of every type: array results of the member and of its pieces, positions between and at the loads, two combinations"""
    m, p, R, loads = battery_model(h, kind, rel, nodes=mids)
    M = m.members['M1']
    subs = list(M.sub_members.values())
    for name in ('A', 'B'):
        for w, o in enumerate([M] + subs):
            Lo = o.L()
            xs = [Lo * h.q(t) for t in ('0', '1/48', '7/96', '5/48', '11/48', '1/3', '31/64', '35/64', '2/3', '11/13', '7/8', '35/37', '1')]
            for r in RES:
                n, d = RES[r]
                f, fa = getattr(o, n), getattr(o, n + '_array')
                A = fa(d, 0, name, h.array(xs)) if d else fa(0, name, h.array(xs))
                B = fa(d, 3, name) if d else fa(3, name)
                for k, x in enumerate(xs):
                    h.eq(A[0, k], x, '%s %d %s position[%d]' % (name, w, r, k))
                    if k in (5, 8) and r in ('Vy', 'Vz', 'P', 'T', 'Mz', 'My'):
                        continue                    # there may be a jump exactly at the twelfths
                    h.eq(A[1, k], f(d, x, name) if d else f(x, name), '%s %d %s value[%d]' % (name, w, r, k))
                for k in range(3):
                    h.eq(B[0, k], Lo * h.q('%d/2' % k), '%s %d %s point[%d]' % (name, w, r, k))
                    if k != 1 or r[0] in 'dr':
                        x = Lo * h.q('%d/2' % k)
                        h.eq(B[1, k], f(d, x, name) if d else f(x, name), '%s %d %s point value[%d]' % (name, w, r, k))
