"""Results are frame- and order-invariant."""
from engine.harness import harness
from checks.models import *

BOUNDS = ('Portal frame with a brace, a two-node spring and a quad or plate wall; all loads symbolic. Motions: symbolic translation; 15 rational rotations '
          '(quarter turns about each axis, Pythagorean turns, space rotations); permutations of definition order (nodes, members, '
          'springs, loads, combinations, supports), renaming to names that sort differently, reversal of member ends.')
ASSUMPTIONS = ['Under rotations other than about Y, and for vertical members, sections are symmetric (Iy = Iz), since the default local axes are tied to global directions.',
               'Rotations have rational cosines; supports in the rotated model are full fixities.']

NODES = {'A': (0, 0, 0), 'B': (0, 3, 0), 'C': (4, 3, 0), 'D': (4, 0, 3), 'E': (4, 3, 4)}
MEMS = [('M1', 'A', 'B'), ('M2', 'B', 'C'), ('M3', 'C', 'D'), ('M4', 'C', 'E')]
LOADS = [('B', f) for f in FDIR] + [('C', 'FX'), ('C', 'MY'), ('C', 'FZ')]


def identity(h):
    return [[h.q(1 if i == j else 0) for j in range(3)] for i in range(3)]


def rotation(h, name):
    q = h.q

    def quat(w, x, y, z):
        n = w * w + x * x + y * y + z * z
        M = [[w * w + x * x - y * y - z * z, 2 * (x * y - w * z), 2 * (x * z + w * y)],
             [2 * (x * y + w * z), w * w - x * x + y * y - z * z, 2 * (y * z - w * x)],
             [2 * (x * z - w * y), 2 * (y * z + w * x), w * w - x * x - y * y + z * z]]
        return [[q(c) / n for c in r] for r in M]
    return quat(*{'X90': (1, 1, 0, 0), 'Y90': (1, 0, 1, 0), 'Z90': (1, 0, 0, 1), 'X180': (0, 1, 0, 0), 'Y180': (0, 0, 1, 0), 'Z180': (0, 0, 0, 1),
                  'X270': (1, -1, 0, 0), 'Y270': (1, 0, -1, 0), 'Z270': (1, 0, 0, -1), 'Y345': (2, 0, 1, 0), 'Ym': (3, 0, -1, 0), 'Z345': (2, 0, 0, 1),
                  'X345': (2, 1, 0, 0), 'S1': (1, 1, 1, 1), 'S2': (1, 2, 0, 2), 'S3': (3, 1, 1, 0)}[name])


def turn(h, R, v):
    return [h.dot(r, v) for r in R]


def build(h, R=None, shift=None, perm=0, names=None, reverse=(), sym=True, wall=None, sup='full'):
    """the same structure turned by R and moved by shift, defined in another order under other names"""
    R = identity(h) if R is None else R
    shift = [h.q(0)] * 3 if shift is None else shift
    nm = names or (lambda s: s)
    m = FE()
    m.add_material('Steel', h.q(100), h.q(40), h.q('0.3'), h.q(1))

    def order(xs):
        xs = list(xs)
        if perm == 1:
            return xs[::-1]
        if perm == 2:
            return xs[1::2] + xs[::2]
        if perm == 3:
            return xs[2:] + xs[:2]
        return xs
    nodes = dict(NODES)
    if wall:
        nodes['F'] = (0, 3, 4)
    for n in order(nodes):
        p = turn(h, R, [h.q(c) for c in nodes[n]])
        m.add_node(nm(n), *[a + b for a, b in zip(p, shift)])
    for M, i, j in order(MEMS):
        if M in reverse:
            i, j = j, i
        Iy = h.q(3) if sym else h.q(2)
        m.add_member(nm(M), nm(i), nm(j), 'Steel', Iy, h.q(3), h.q(4), h.q(2))
    for S, i, j in order([('S1', 'A', 'C'), ('S2', 'D', 'B')]):
        m.add_spring(nm(S), nm(i), nm(j), h.q(7))
    if wall:
        q = ('B', 'C', 'E', 'F')
        (m.add_plate if wall == 'plate' else m.add_quad)(nm('W1'), *[nm(n) for n in q], h.q('1/2'), 'Steel')
        (m.add_plate_surface_pressure if wall == 'plate' else m.add_quad_surface_pressure)(nm('W1'), h.real('p'), 'L')
    for n in order(['A', 'D', 'E']):
        m.def_support(nm(n), True, True, True, True, True, True)
    if sup == 'springs':
        for f in DOFS:
            m.def_support_spring(nm('B'), f, h.q(5))
    jobs = []
    for n, f in LOADS:
        k = FDIR.index(f)
        v = [h.q(0)] * 3
        v[k % 3] = h.real('P%s%s' % (n, f))
        for c, x in enumerate(turn(h, R, v)):
            jobs.append(lambda n=n, f=FDIR[k - k % 3 + c], x=x: m.add_node_load(nm(n), f, x, 'D'))
    for M, k, a, b in (('M2', 1, 'w1', 'w2'), ('M2', 2, 'w3', 'w3'), ('M1', 0, 'w4', 'w5'), ('M3', 1, 'w6', 'w6')):
        w = [turn(h, R, [h.real(s) if c == k else h.q(0) for c in range(3)]) for s in (a, b)]
        for c in range(3):
            w1, w2 = w[0][c], w[1][c]
            x1, x2 = h.q(1), h.q(2)
            if M in reverse:
                L = {'M1': h.q(3), 'M2': h.q(4), 'M3': h.sqrt(h.q(18))}[M]
                x1, x2, w1, w2 = L - 2, L - 1, w2, w1
            jobs.append(lambda M=M, f=FDIR[c], w1=w1, w2=w2, x1=x1, x2=x2: m.add_member_dist_load(nm(M), f, w1, w2, x1, x2, 'L'))
    for c, x in enumerate(turn(h, R, [h.real('t1'), h.q(0), h.real('t2')])):
        jobs.append(lambda f=FDIR[c + 3], x=x: m.add_member_pt_load(nm('M2'), f, x, h.q(2) if 'M2' in reverse else h.q(2), 'L'))
    for j in order(jobs):
        j()
    for c, f in order([('U', {'D': h.real('f1'), 'L': h.q(2)}), ('V', {'L': h.q(1)})]):
        m.add_load_combo(c, f)
    return m


def nodal(h, m, nm, R, combos='UV', nodes=NODES):
    """displacements and reactions turned back to the original frame"""
    Rt = [[R[j][i] for j in range(3)] for i in range(3)]
    out = []
    for c in combos:
        for n in nodes:
            N = m.nodes[nm(n)]
            for o, keys in (('u', DOFS[:3]), ('r', DOFS[3:]), ('F', ('RxnFX', 'RxnFY', 'RxnFZ')), ('M', ('RxnMX', 'RxnMY', 'RxnMZ'))):
                v = turn(h, Rt, [getattr(N, k)[c] for k in keys])
                out += [('%s %s %s%d' % (c, n, o, k), x) for k, x in enumerate(v)]
    return out


def member_global(h, m, nm, R, reverse=()):
    Rt = [[R[j][i] for j in range(3)] for i in range(3)]
    out = []
    for c in 'UV':
        for M, i, j in MEMS:
            F = h.col(m.members[nm(M)].F(c))
            if M in reverse:
                F = F[6:] + F[:6]
            for o in (0, 3, 6, 9):
                out += [('%s %s F%d' % (c, M, o + k), x) for k, x in enumerate(turn(h, Rt, F[o:o + 3]))]
    return out


def local(h, m, nm, mems=('M1', 'M2', 'M3', 'M4'), at='3/2'):
    out = []
    for c in 'UV':
        for M in mems:
            X = m.members[nm(M)]
            out += [('%s %s f%d' % (c, M, k), v) for k, v in enumerate(h.col(X.f(c)))]
            x = h.q(at)
            out += [('%s %s %s' % (c, M, k), v) for k, v in point_results(X, x, c).items()]
            out += [('%s %s %s' % (c, M, k), X.deflection(k, x, c)) for k in ('dx', 'dy', 'dz')]
        for S in ('S1', 'S2'):
            out.append(('%s %s' % (c, S), m.springs[nm(S)].axial(c)))
    return out


def compare(h, a, b):
    for (l, x), (l2, y) in zip(a, b):
        h.same(l, l2, 'label') if l != l2 else None
        h.eq(x, y, l)


SAME = lambda s: s


@harness('A14', params=[{'perm': p, 'how': w} for p in (1, 2, 3) for w in ('gen', 'lin-d')], timeout=400)
def order(h, perm, how):
    """another order of definition"""
    R = identity(h)
    out = []
    for p in (0, perm):
        m = build(h, perm=p, sym=False, sup='springs')
        run(m, how)
        out.append(nodal(h, m, SAME, R) + local(h, m, SAME))
    compare(h, *out)


@harness('A14', params=[{'kind': k} for k in ('reverse-sort', 'long', 'numeric', 'collide')], timeout=400)
def names(h, kind):
    """other names (sorting differently, numbers, the same name for different kinds of entity)"""
    R = identity(h)
    maps = {'reverse-sort': lambda s: 'zyxwvutsr'['ABCDEFMSW'.index(s[0])] + s[1:], 'long': lambda s: 'node of ' + s + ' ~',
            'numeric': lambda s: str('ABCDEFMSW'.index(s[0]) * 17 % 23) + s[1:], 'collide': lambda s: s.replace('M', '').replace('S', '').replace('W', '') or s}
    out = []
    for nm in (SAME, maps[kind]):
        m = build(h, names=nm, sym=False)
        m.analyze()
        out.append(nodal(h, m, nm, R) + local(h, m, nm))
    compare(h, *out)


@harness('A14', params=[{'wall': w} for w in ('none', 'plate', 'quad')], timeout=400)
def translation(h, wall):
    """the structure anywhere in space"""
    R = identity(h)
    out = []
    for s in (None, [h.real('ox'), h.real('oy'), h.real('oz')]):
        m = build(h, shift=s, sym=False, wall=None if wall == 'none' else wall)
        m.analyze()
        o = nodal(h, m, SAME, R) + local(h, m, SAME)
        if wall != 'none':
            o += [('W%d' % k, v) for k, v in enumerate(h.col((m.plates if wall == 'plate' else m.quads)['W1'].F('U')))]
        out.append(o)
    compare(h, *out)


ROT = ['X90', 'Y90', 'Z90', 'X180', 'Y180', 'Z180', 'X270', 'Y270', 'Z270', 'Y345', 'Ym', 'Z345', 'X345', 'S1', 'S2', 'S3']


@harness('A14', params=[{'rot': r, 'how': w} for r, w in zip(ROT, ('gen', 'lin', 'gen-d', 'lin-d') * 4)], timeout=400)
def rotation_of_everything(h, rot, how):
    """displacements, reactions and member end forces turn with the structure; internal scalars do not change"""
    out = []
    for R in (identity(h), rotation(h, rot)):
        m = build(h, R=R)
        run(m, how)
        o = nodal(h, m, SAME, R) + member_global(h, m, SAME, R)
        for c in 'UV':
            for M, _, _ in MEMS:
                X = m.members[M]
                x = h.q('3/2')
                r = point_results(X, x, c)
                k = {a.lower(): v for a, v in r.items()}
                o.append((c + M + ' axial', X.axial(x, c)))
                o.append((c + M + ' torque', X.torque(x, c)))
                o.append((c + M + ' shear', X.shear('Fy', x, c) ** 2 + X.shear('Fz', x, c) ** 2))
                o.append((c + M + ' moment', X.moment('My', x, c) ** 2 + X.moment('Mz', x, c) ** 2))
                o.append((c + M + ' dx', X.deflection('dx', x, c)))
                o.append((c + M + ' d', X.deflection('dy', x, c) ** 2 + X.deflection('dz', x, c) ** 2))
            for S in ('S1', 'S2'):
                o.append((c + S, m.springs[S].axial(c)))
        out.append(o)
    compare(h, *out)


@harness('A14', params=[{'rot': r} for r in ('Y90', 'Y180', 'Y270', 'Y345', 'Ym')], timeout=400)
def about_vertical(h, rot):
    """turned about Y, non-vertical members keep their local results (unsymmetric sections)"""
    out = []
    for R in (identity(h), rotation(h, rot)):
        m = build(h, R=R, sym=False)
        # the vertical member keeps its axes along global Z: give it a symmetric section
        for M in ('M1',):
            m.members[M].Iy = m.members[M].Iz
        m.analyze()
        out.append(nodal(h, m, SAME, R) + local(h, m, SAME, mems=('M2', 'M3', 'M4')))
    compare(h, *out)


@harness('A14', params=[{'wall': w, 'rot': r} for w in ('plate', 'quad') for r in ('X90', 'Y345', 'Z180', 'S1', 'S2')], timeout=400)
def wall_rotation(h, wall, rot):
    """plates and quads turn with the structure"""
    out = []
    for R in (identity(h), rotation(h, rot)):
        m = build(h, R=R, wall=wall)
        m.analyze()
        W = (m.plates if wall == 'plate' else m.quads)['W1']
        o = nodal(h, m, SAME, R) + member_global(h, m, SAME, R)
        o += [('W f%d' % k, v) for k, v in enumerate(h.col(W.f('U')))]
        out.append(o)
    compare(h, *out)


@harness('A14', params=[{'rev': r, 'how': w} for r, w in ((['M2'], 'gen'), (['M1', 'M4'], 'lin'), (['M1', 'M2', 'M4'], 'gen-d'))], timeout=400)
def reversed_members(h, rev, how):
    """exchanging the ends of members changes no displacement, reaction or global end force"""
    R = identity(h)
    out = []
    for r in ((), tuple(rev)):
        m = build(h, reverse=r, sym=False)
        run(m, how)
        out.append(nodal(h, m, SAME, R) + member_global(h, m, SAME, R, reverse=r))
    compare(h, *out)


@harness('A14', params=[{'perm': p} for p in (1, 2)], timeout=400)
def wall_order(h, perm):
    """definition order and plates"""
    R = identity(h)
    for wall in ('plate', 'quad'):
        out = []
        for p in (0, perm):
            m = build(h, perm=p, wall=wall)
            m.analyze()
            out.append(nodal(h, m, SAME, R) + local(h, m, SAME))
        compare(h, *out)
