"""The PyVista rendering shows the model, its loads and its results."""
from engine.harness import harness
from checks.common import *

BOUNDS = ('Scenes handed to PyVista by Renderer.update: nodes at symbolic positions with every combination of supports, auxiliary nodes, members, '
          'springs, plates and quads with their labels; the deformed shape at a symbolic scale of a frame with a vertical, a sloping, a subdivided and a '
          'tension-only member, springs, a plate and a quad under symbolic loads in two combinations; contours of every result of plates and quads that share nodes; '
          'one symbolic nodal, point, distributed or surface load of every direction and type at a time, by load case and by factored combination, '
          'and several at once for their relative sizes.')
ASSUMPTIONS = ['pyvista is replaced by a recorder of the meshes and labels handed to it; drawing itself is not modelled.',
               'Symbol sizes and colours are free: arrows must point with the load at its position, in proportion to it among loads of a kind.',
               'Load magnitudes lie between 1 and 99 where their labels are read (three significant digits are exact arithmetic here).']
FORCES, MOMENTS = ('FX', 'FY', 'FZ'), ('MX', 'MY', 'MZ')


def renderer(h, m, **kw):
    scenes = h.scenes()
    from PyNite.Rendering import Renderer
    r = Renderer(m)
    r.annotation_size = h.q('1/2')
    for k, v in kw.items():
        setattr(r, k, v)
    return r


def same_point(h, p, q):
    p, q = h.col(p), h.col(q)
    return h.And(*[h.near(a, b) for a, b in zip(p, q)])


def of(r, *kinds, **kw):
    return [m for m, k in r.plotter.meshes if m.kind in kinds and all(k.get(n) == v for n, v in kw.items())]


def segments(r, **kw):
    out = []
    for m in of(r, 'line', 'polyline', **kw):
        out += list(zip(m.points[:-1], m.points[1:]))
    return out


def joins(h, s, p, q):
    return h.Or(h.And(same_point(h, s[0], p), same_point(h, s[1], q)), h.And(same_point(h, s[0], q), same_point(h, s[1], p)))


def has_segment(h, segs, p, q, label):
    h.true(h.Or(*[joins(h, s, p, q) for s in segs]), label)


def label_at(h, r, text, p, label):
    here = [pt for pt, t in r.plotter.labels if t == text]
    h.same(len(here), 1, label + ' label')
    for a, b, c in zip(h.col(here[0]), h.col(p), 'xyz'):
        h.eq(a, b, '%s label %s' % (label, c))


def at(n):
    return [n.X, n.Y, n.Z]


def mid(h, p, q):
    return [(a + b) / h.q(2) for a, b in zip(p, q)]


# ------------------------------------------------------------------ the undeformed model
@harness('V01', timeout=200)
def geometry(h):
    m = FE()
    m.add_material('S', h.q(7), h.q(3), h.q('0.3'), h.q(1))
    P = {}
    for k, n in enumerate('ABCDEF'):
        P[n] = [h.real('%s%d' % (n, i)) for i in range(3)]
        h.assume(P[n][0] >= (P['ABCDEF'[k - 1]][0] + 1 if k else 0))
        m.add_node(n, *P[n])
    m.add_auxnode('Aux', h.real('a0'), h.real('a1'), h.real('a2'))
    M = {'M1': 'AB', 'M2': 'CA', 'M3': 'FD'}
    for n, (i, j) in M.items():
        m.add_member(n, i, j, 'S', h.q(1), h.q(2), h.q(3), h.q(4))
    S = {'S1': 'BE', 'S2': 'DB'}
    for n, (i, j) in S.items():
        m.add_spring(n, i, j, h.q(5))
    Q = {'P1': 'ABCD', 'Q1': 'BCEF'}
    m.add_plate('P1', *'ABCD', h.q(1), 'S')
    m.add_quad('Q1', *'BCEF', h.q(1), 'S')
    r = renderer(h, m, render_loads=False, render_nodes=False)
    for again in (0, 1):
        r.update()
        segs = segments(r)
        h.same(len(segs), len(M) + len(S), 'lines')
        for n, (i, j) in list(M.items()) + list(S.items()):
            has_segment(h, segs, P[i], P[j], n + ' drawn')
            label_at(h, r, n, mid(h, P[i], P[j]), n)
        for n in P:
            label_at(h, r, n, P[n], n)
        polys = of(r, 'poly')
        h.same(len(polys), 1, 'plate meshes')
        faces(h, polys[0], [[P[c] for c in q] for q in Q.values()], 'plates')
        if not again:
            # the same renderer after the model changed
            m.nodes['B'].X = P['B'][0] = h.real('moved')
            del m.members['M2'], M['M2']


def faces(h, poly, expected, tag):
    v = [list(row) for row in poly.points]
    f, k = [], 0
    flat = [int(c) for c in h.col(poly.info['faces'])]
    while k < len(flat):
        f.append(flat[k + 1:k + 1 + flat[k]])
        k += 1 + flat[k]
    h.same(len(f), len(expected), tag + ' faces')
    for k, e in enumerate(expected):
        h.same(len(f[k]), 4, tag + ' corners')
        h.alleq(h.col([v[c] for c in f[k]]), h.col(e), '%s face %d' % (tag, k))
    return f


@harness('V01', timeout=200)
def supports(h):
    """a symbol for every support, at the node, and none where there is none"""
    m = FE()
    X = [h.real('x'), h.real('y'), h.real('z')]
    sup = [h.flag('s%d' % i) for i in range(6)]
    m.add_node('N', *X)
    m.def_support('N', *sup)
    s = h.pos('size')
    r = renderer(h, m, render_loads=False, annotation_size=s)
    r.update()
    label_at(h, r, 'N', X, 'N')
    meshes = [k for k, _ in r.plotter.meshes]
    if all(sup):
        h.same([k.kind for k in meshes], ['cube'], 'fixed: cube')
        h.alleq(meshes[0].info['center'], X, 'cube position')
    elif all(sup[:3]) and not any(sup[3:]):
        h.same([k.kind for k in meshes], ['cone'], 'pinned: cone')
        c, d = meshes[0].info['center'], meshes[0].info['direction']
        tip = [a + b * meshes[0].info['height'] / h.q(2) for a, b in zip(c, d)]
        h.alleq(tip, X, 'cone tip')
        h.alleq(d, [0, 1, 0], 'cone direction')
    else:
        for a in range(3):
            e = [h.q(1 if k == a else 0) for k in range(3)]
            lines = [k for k in meshes if k.kind == 'line' and h.known(h.Not(h.near(k.points[0][a], k.points[1][a])))]
            h.same(len(lines), int(sup[a]) + int(sup[a + 3]), 'lines along %d' % a)
            for k in lines:
                h.alleq(mid(h, *k.points), X, 'line centre %d' % a)
            cones = [k for k in meshes if k.kind == 'cone' and h.known(h.Not(h.near(k.info['direction'][a], 0)))]
            h.same(len(cones), 2 * int(sup[a]), 'arrowheads along %d' % a)
            ends = []
            for k in cones:
                off = [p - q for p, q in zip(k.info['center'], X)]
                h.alleq(h.cross(off, e), [0, 0, 0], 'arrowheads on the axis %d' % a)
                h.lt(off[a] * k.info['direction'][a], 0, 'arrowheads point to the node %d' % a)
                ends.append(off[a])
            if cones:
                h.eq(ends[0] + ends[1], 0, 'arrowheads on both sides %d' % a, scale=1)
            cubes = [k for k in meshes if k.kind == 'cube' and h.known(h.Not(h.near(k.info['center'][a], X[a])))]
            h.same(len(cubes), 2 * int(sup[a + 3]), 'cubes along %d' % a)
            if cubes:
                h.alleq(mid(h, cubes[0].info['center'], cubes[1].info['center']), X, 'cubes on both sides %d' % a)
        h.same(len(meshes), 3 * sum(map(int, sup)), 'symbols')


# ------------------------------------------------------------------ results
def frame(h):
    m = FE()
    m.add_material('S', h.q(100), h.q(40), h.q('0.3'), h.q(1))
    for n, p in {'A': (0, 0, 0), 'B': (0, 12, 0), 'C': (8, 16, 8), 'D': (0, 0, 12), 'E': (0, 12, 12), 'F': (8, 16, 20), 'G': (12, 12, 0), 'H': (4, 14, 4)}.items():
        m.add_node(n, *[h.q(c) for c in p])
    for n, i, j in (('M1', 'A', 'B'), ('M2', 'C', 'B'), ('M3', 'D', 'E'), ('M4', 'B', 'G')):
        m.add_member(n, i, j, 'S', h.q(2), h.q(3), h.q(4), h.q(5))
    m.add_member('T1', 'A', 'C', 'S', h.q(1), h.q(1), h.q(1), h.q(1), tension_only=True)
    m.def_releases('T1', Ryi=True, Rzi=True, Ryj=True, Rzj=True)
    m.add_spring('S1', 'D', 'B', h.q(7))
    for n in 'ADGF':
        m.def_support(n, *[True] * 6)
    return m


def load_frame(h, m):
    for k, (n, d) in enumerate([('B', 'FX'), ('B', 'MZ'), ('C', 'FY'), ('E', 'FZ'), ('H', 'FX'), ('E', 'MX')]):
        m.add_node_load(n, d, h.real('F%d' % k), 'D' if k % 2 else 'L')
    m.add_member_pt_load('M1', 'Fy', h.real('P'), h.q(5), 'L')
    m.add_member_dist_load('M2', 'FZ', h.real('w1'), h.real('w2'), case='D')
    m.add_load_combo('A', {'D': h.q('3/2'), 'L': h.q(-1)})
    m.add_load_combo('B', {'L': h.q('1/2')})


def displaced(h, node, combo, s):
    return [c + s * getattr(node, d)[combo] for c, d in zip(at(node), ('DX', 'DY', 'DZ'))]


def check_curve(h, segs, m, name, combo, s, tag):
    """a chain of segments through points of the deflected axis, from end to end"""
    M = m.members[name]
    n = len(segs)
    h.true(n >= 8, tag + ' segments')
    L, T = M.L(), M.T()
    a = at(M.i_node)
    for k in range(n):
        if k:
            h.alleq(segs[k][0], segs[k - 1][1], tag + ' chain %d' % k)
    pts = [x[0] for x in segs] + [segs[-1][1]]
    for k in sorted({0, 1, n // 2, n - 1, n}):
        x = L * h.q('%d/%d' % (k, n))
        u = [M.deflection(d, x, combo) for d in ('dx', 'dy', 'dz')]
        e = [a[c] + (x + s * u[0]) * T[0, c] + s * (u[1] * T[1, c] + u[2] * T[2, c]) for c in range(3)]
        h.alleq(pts[k], e, '%s point %d of %d' % (tag, k, n))
    h.alleq(pts[0], displaced(h, M.i_node, combo, s), tag + ' i-node')
    h.alleq(pts[-1], displaced(h, M.j_node, combo, s), tag + ' j-node')


@harness('V01', timeout=400)
def deformed_frame(h):
    m = frame(h)
    del m.members['T1']
    load_frame(h, m)
    m.analyze()
    s = h.pos('scale')
    r = renderer(h, m, render_loads=False, render_nodes=False, deformed_shape=True, deformed_scale=s)
    for combo in ('A', 'B'):
        r.combo_name = combo
        r.update()
        red = segments(r, color='red')
        n = len(red) // len(m.members)
        h.same(n * len(m.members), len(red), combo + ' segments')
        for k, name in enumerate(m.members):
            check_curve(h, red[k * n:(k + 1) * n], m, name, combo, s, '%s %s' % (combo, name))
        rest = segments_without(r, 'red')
        h.same(len(rest), len(m.members) + 2, combo + ' other lines')
        for name, M in list(m.members.items()) + list(m.springs.items()):
            has_segment(h, rest, at(M.i_node), at(M.j_node), '%s %s undeformed' % (combo, name))
        S = m.springs['S1']
        has_segment(h, rest, displaced(h, S.i_node, combo, s), displaced(h, S.j_node, combo, s), combo + ' deformed spring')


def segments_without(r, color):
    out = []
    for k, kw in r.plotter.meshes:
        if k.kind in ('line', 'polyline') and kw.get('color') != color:
            out += list(zip(k.points[:-1], k.points[1:]))
    return out


@harness('V01', params=[{'dead': d} for d in (False, True)], timeout=200)
def inactive(h, dead):
    """a tension-only member and spring appear in the deformed shape of the combinations in which they act"""
    m = FE()
    m.add_material('S', h.q(100), h.q(40), h.q('0.3'), h.q(1))
    for n, x in (('A', 0), ('B', 4), ('C', 8)):
        m.add_node(n, h.q(x), 0, 0)
        m.def_support(n, n != 'B', True, True, True, True, True)
    m.add_member('M1', 'A', 'B', 'S', h.q(1), h.q(1), h.q(1), h.q(1))
    m.add_member('M2', 'B', 'C', 'S', h.q(1), h.q(1), h.q(1), h.q(1), comp_only=True)
    m.add_spring('S1', 'B', 'C', h.q(3), comp_only=True)
    P, s = h.pos('P'), h.pos('s')
    m.add_node_load('B', 'FX', P if not dead else -P)
    m.analyze()
    r = renderer(h, m, render_loads=False, render_nodes=False, deformed_shape=True, deformed_scale=s)
    r.update()
    red = segments(r, color='red')
    n = len(red)
    h.true(n > 0, 'deformed members')
    u = displaced(h, m.nodes['B'], 'Combo 1', s)
    C, A = at(m.nodes['C']), at(m.nodes['A'])
    if dead:
        h.true(h.And(*[h.Not(same_point(h, x[1], C)) for x in red]), 'inactive member not in the deformed shape')
    n = n if dead else n // 2
    check_curve(h, red[:n], m, 'M1', 'Combo 1', s, 'M1')
    if not dead:
        check_curve(h, red[n:], m, 'M2', 'Combo 1', s, 'M2')
    rest = segments_without(r, 'red')
    h.same(len(rest), 3 if dead else 4, 'springs that act')


def wall(h, sup=True):
    """two plates and two quads with common nodes"""
    m = FE()
    m.add_material('S', h.q(100), h.q(40), h.q('0.25'), h.q(1))
    for n, (x, y) in {'1': (0, 0), '2': (4, 0), '3': (7, 0), '4': (0, 3), '5': (4, 3), '6': (7, 3), '7': (0, 5), '8': (4, 6), '9': (8, 5)}.items():
        m.add_node(n, h.q(x), h.q(y), h.q(2))
    m.add_plate('P1', '1', '2', '5', '4', h.q(1), 'S')
    m.add_plate('P2', '2', '3', '6', '5', h.q('1/2'), 'S')
    m.add_quad('Q1', '4', '5', '8', '7', h.q(1), 'S')
    m.add_quad('Q2', '5', '6', '9', '8', h.q('3/2'), 'S')
    for n in '137':
        m.def_support(n, *[True] * 6)
    for k, (n, d) in enumerate([('5', 'FZ'), ('8', 'FX'), ('9', 'FZ'), ('6', 'FY'), ('5', 'MX'), ('2', 'FZ')]):
        m.add_node_load(n, d, h.real('F%d' % k), 'D' if k % 2 else 'L')
    m.add_plate_surface_pressure('P1', h.real('p'), 'L')
    m.add_quad_surface_pressure('Q2', h.real('q'), 'D')
    m.add_load_combo('A', {'D': h.q('3/2'), 'L': h.q(-1)})
    m.add_load_combo('B', {'L': h.q('1/2')})
    m.analyze()
    return m


CORNERS = 'i_node', 'j_node', 'm_node', 'n_node'
MAPS = {'Mx': ('moment', 0), 'My': ('moment', 1), 'Mxy': ('moment', 2), 'Qx': ('shear', 0), 'Qy': ('shear', 1), 'Sx': ('membrane', 0), 'Sy': ('membrane', 1),
        'Txy': ('membrane', 2), 'dz': None, 'MX': ('moment', 0), 'MY': ('moment', 1), 'QX': ('shear', 0), 'QY': ('shear', 1), 'SX': ('membrane', 0), 'SY': ('membrane', 1)}


def corner_value(h, E, k, what, combo):
    if what == 'dz':
        return h.col(E.d(combo))[6 * k + 2]
    if E.type == 'Rect':
        x, y = [(0, 0), (E.width(), 0), (E.width(), E.height()), (0, E.height())][k]
    else:
        x, y = [(-1, -1), (1, -1), (1, 1), (-1, 1)][k]
    f, c = MAPS[what]
    return h.col(getattr(E, f)(x, y, not what.isupper(), combo))[c]


@harness('V01', params=[{'maps': list(MAPS)[k:k + 5]} for k in (0, 5, 10)], timeout=500)
def contours(h, maps):
    """contour values: the mean over the elements at a node of what each of them reports there"""
    m = wall(h)
    r = renderer(h, m, render_loads=False, render_nodes=False, deformed_shape=True, deformed_scale=h.q(3))
    els = list(m.plates.values()) + list(m.quads.values())
    for n, what in enumerate(maps):
        for combo in ('A', 'B') if n == 0 else ('AB'[n % 2],):
            r.combo_name = combo
            r.color_map = what
            r.scalar_bar = n % 2 == 0
            r.update()
            p = of(r, 'poly')[0]
            f = faces(h, p, [[displaced(h, getattr(E, c), combo, h.q(3)) for c in CORNERS] for E in els], '%s %s' % (what, combo))
            val = h.col(p.data['Contours'])
            h.same(len(val), 4 * len(els), what + ' values')
            for E, face in zip(els, f):
                for k, c in enumerate(CORNERS):
                    N = getattr(E, c)
                    vs = [corner_value(h, G, j, what, combo) for G in els for j, d in enumerate(CORNERS) if getattr(G, d) is N]
                    h.eq(val[face[k]] * len(vs), sum(vs[1:], vs[0]), '%s %s %s %s' % (what, combo, E.name, c))
    r.deformed_shape = False
    r.color_map = None
    r.update()
    faces(h, of(r, 'poly')[0], [[at(getattr(E, c)) for c in CORNERS] for E in els], 'undeformed')


# ------------------------------------------------------------------ loads
def arrows(h, r):
    return segments(r, color='green')


def along(h, v, d, P, label):
    """v points with P*d"""
    h.alleq(h.cross(v, d), [0, 0, 0], label + ' direction')
    h.lt(0, h.dot(v, d) * P, label + ' sense')


def shown_label(h, r, names, P, label):
    texts = [t for p, t in r.plotter.labels if t not in names]
    h.same(len(texts), 1, label + ' labels')
    h.close(h.number(texts[0]) if isinstance(texts[0], str) else texts[0], P, label + ' value')


def loaded(h, kind, name, length=None):
    m = FE()
    m.add_material('S', h.q(100), h.q(40), h.q('0.3'), h.q(1))
    X1, X2 = coords_of(h, kind)
    if length is not None:
        d = {'2-1-2': ('2/3', '1/3', '2/3'), 'up': (0, 1, 0), '3-4-0': ('3/5', '4/5', 0), '-6-2-3': ('-6/7', '2/7', '3/7'), '-4-0-3': ('-4/5', 0, '-3/5')}[kind]
        X2 = [a + length * h.q(c) for a, c in zip(X1, d)]
    m.add_node('N1', *X1)
    m.add_node('N2', *X2)
    m.add_member('M1', 'N1', 'N2', 'S', h.q(1), h.q(2), h.q(3), h.q(4))
    return m, X1, X2


def magnitude(h, name):
    P = h.real(name, lo=-99, hi=99)
    h.assume(h.Or(P >= 1, P <= -1))
    return P


def views(h, r):
    """the load by its case (value P) and in combinations that factor it"""
    r.case = 'W'
    yield 'case', h.q(1)
    r.combo_name = 'Up'
    yield 'combination', h.q('1/2')
    r.combo_name = 'Down'
    yield 'reversed', h.q(-1)


def combos(h, m):
    m.add_load_combo('Up', {'W': h.q('1/2'), 'Other': h.q(3)})
    m.add_load_combo('Down', {'W': h.q(-1)})
    m.add_load_combo('Without', {'Other': h.q(3)})


@harness('V01', params=[{'d': d} for d in FORCES + MOMENTS], timeout=200)
def nodal_load(h, d):
    m, X1, X2 = loaded(h, 'x', 'M1')
    P = magnitude(h, 'P')
    m.add_node_load('N2', d, P, 'W')
    combos(h, m)
    e = [h.q(1 if c == d[1] else 0) for c in 'XYZ']
    r = renderer(h, m, render_nodes=False)
    for tag, f in views(h, r):
        r.update()
        one_load(h, r, m, d, X2, e, P * f, tag)
    r.combo_name = 'Without'
    r.update()
    h.same([k.kind for k, kw in r.plotter.meshes if kw.get('color') == 'green'], [], 'no load in another combination')


def one_load(h, r, m, d, X, e, P, tag):
    if d[0] == 'F':
        segs = arrows(h, r)
        h.same(len(segs), 1, tag + ' arrow shafts')
        tip, tail = segs[0]
        h.alleq(tip, X, tag + ' tip at the load')
        along(h, [a - b for a, b in zip(tip, tail)], e, P, tag)
        cones = of(r, 'cone', color='green')
        h.same(len(cones), 1, tag + ' arrowheads')
        v = cones[0].info
        along(h, v['direction'], e, P, tag + ' arrowhead')
        ht = h.sqrt(h.dot(v['direction'], v['direction']))
        h.alleq([c + a * v['height'] / (2 * ht) for c, a in zip(v['center'], v['direction'])], X, tag + ' head at the load')
    else:
        arcs = of(r, 'arc')
        h.same(len(arcs), 1, tag + ' arcs')
        h.alleq(h.col(arcs[0].info['center']), X, tag + ' arc centre')
        along(h, h.col(arcs[0].info['normal']), e, P, tag + ' arc')
        h.eq(h.dot(h.col(arcs[0].info['polar']), e), 0, tag + ' arc in the plane of the moment', scale=1)
    shown_label(h, r, ['N1', 'N2', 'M1'], P, tag)


@harness('V01', params=[{'d': t + c, 'kind': k} for t in 'FM' for c in 'xyzXYZ' for k in ('2-1-2', 'up')], timeout=300)
def member_point_load(h, d, kind):
    m, X1, X2 = loaded(h, kind, 'M1')
    P, x = magnitude(h, 'P'), h.pos('x')
    R, L = axes(h, X1, X2, kind)
    h.assume(x < L)
    m.add_member_pt_load('M1', d, P, x, 'W')
    combos(h, m)
    e = [h.q(1 if c == d[1] else 0) for c in 'XYZ'] if d[1].isupper() else R['xyz'.index(d[1])]
    at = [a + x * b for a, b in zip(X1, R[0])]
    r = renderer(h, m, render_nodes=False)
    for tag, f in views(h, r):
        r.update()
        one_load(h, r, m, d, at, e, P * f, tag)
    r.combo_name = 'Without'
    r.update()
    h.same([k.kind for k, kw in r.plotter.meshes if kw.get('color') == 'green'], [], 'no load in another combination')


@harness('V01', params=[{'d': 'F' + c, 'kind': k, 'sg': s} for n, c in enumerate('xyzXYZ') for k, s in ((('2-1-2', 'up')[n % 2], (1, 1)), ('3-4-0', ((1, -1), (-1, -1), (0, 1))[n // 2 % 3]))], timeout=300)
def member_dist_load(h, d, kind, sg):
    m, X1, X2 = loaded(h, kind, 'M1', h.q(12))
    w1, w2 = h.pos('w1', lo=2, hi=4) * sg[0], h.pos('w2', lo=5, hi=9) * sg[1]
    R, L = axes(h, X1, X2, kind)
    x1, x2 = L / 4, L * h.q('7/8')
    m.add_member_dist_load('M1', d, w1, w2, x1, x2, 'W')
    combos(h, m)
    e = [h.q(1 if c == d[1] else 0) for c in 'XYZ'] if d[1].isupper() else R['xyz'.index(d[1])]
    p1, p2 = [[a + x * b for a, b in zip(X1, R[0])] for x in (x1, x2)]
    r = renderer(h, m, render_nodes=False)
    for tag, f in views(h, r):
        r.update()
        segs = arrows(h, r)
        h.true(len(segs) >= 3, tag + ' arrows')
        first = [s for s in segs[:-1] if h.known(same_point(h, s[0], p1))]
        last = [s for s in segs[:-1] if h.known(same_point(h, s[0], p2))]
        h.same((len(first), len(last)), (1, 1), tag + ' end arrows')
        t1, t2 = first[0][1], last[0][1]
        if sg[0]:
            along(h, [a - b for a, b in zip(p1, t1)], e, w1 * f, tag + ' first')
        along(h, [a - b for a, b in zip(p2, t2)], e, w2 * f, tag + ' last')
        v1, v2 = [a - b for a, b in zip(p1, t1)], [a - b for a, b in zip(p2, t2)]
        h.alleq([a * w2 for a in v1], [b * w1 for b in v2], tag + ' proportion')
        h.true(joins(h, segs[-1], t1, t2), tag + ' line joins the tails')
        span = h.dot([b - a for a, b in zip(p1, p2)], R[0])
        for k, (tip, tail) in enumerate(segs[:-1]):
            t = h.dot([b - a for a, b in zip(p1, tip)], R[0]) / span
            h.alleq(tip, [a + t * (b - a) for a, b in zip(p1, p2)], tag + ' arrow on the member')
            h.alleq([a - b for a, b in zip(tip, tail)], [a + t * (b - a) for a, b in zip(v1, v2)], tag + ' arrow length')
        texts = [t for p, t in r.plotter.labels if t not in ('N1', 'N2', 'M1')]
        h.same(len(texts), 2, tag + ' labels')
        for t, w in zip(texts, (w1, w2)):
            h.close(h.number(t) if isinstance(t, str) else t, w * f, tag + ' value')


@harness('V01', params=[{'el': e, 'plane': p} for e in ('plate', 'quad') for p in ('xy', 'yz', 'tilt')], timeout=300)
def surface_load(h, el, plane):
    m = FE()
    m.add_material('S', h.q(100), h.q(40), h.q('0.3'), h.q(1))
    u, v = {'xy': ((4, 0, 0), (0, 3, 0)), 'yz': ((0, 4, 0), (0, 0, 3)), 'tilt': ((2, 1, 2), (-2, 2, 1))}[plane]
    C = [[h.q(1), h.q(2), h.q(3)]]
    for s, t in ((1, 0), (1, 1), (0, 1)):
        C.append([a + h.q(s * b + t * c) for a, b, c in zip(C[0], u, v)])
    for n, p in zip('ijmn', C):
        m.add_node(n, *p)
    P = magnitude(h, 'P')
    z = h.cross([h.q(c) for c in u], [h.q(c) for c in v])
    getattr(m, 'add_' + el)('E', *'ijmn', h.q(1), 'S')
    getattr(m, 'add_%s_surface_pressure' % el)('E', P, 'W')
    combos(h, m)
    r = renderer(h, m, render_nodes=False)
    for tag, f in views(h, r):
        r.update()
        segs = arrows(h, r)
        h.same(len(segs), 4, tag + ' arrows')
        tails = []
        for k, p in enumerate(C):
            here = [s for s in segs if h.known(same_point(h, s[0], p))]
            h.same(len(here), 1, tag + ' arrow at corner %d' % k)
            along(h, [a - b for a, b in zip(p, here[0][1])], z, P * f, '%s corner %d' % (tag, k))
            tails.append(here[0][1])
        polys = of(r, 'quad')
        h.same(len(polys), 1, tag + ' load polygon')
        h.alleq(h.col(polys[0].points), h.col(tails), tag + ' polygon joins the tails')
        shown_label(h, r, list('ijmn') + ['E'], P * f, tag)


def directions(h, R):
    """unit vectors of the global directions X, Y, Z and of the member's own directions x, y, z"""
    G = {'XYZ'[k]: [h.q(1 if c == k else 0) for c in range(3)] for k in range(3)}
    G.update({'xyz'[k]: R[k] for k in range(3)})
    return G


@harness('V01', params=[{'by': ('case', 'combination')[(k + n) % 2], 'd': d} for k, d in enumerate('xyzXYZ') for n in (0, 1)], timeout=300)
def several_loads(h, by, d):
    """arrows of loads of a kind are in proportion to the loads; loads of other cases are not shown or are factored"""
    m, X1, X2 = loaded(h, '2-1-2', 'M1')
    X3 = [X1[0] - 3, X1[1] + 2, X1[2] - 1]
    m.add_node('N3', *X3)
    R, L = axes(h, X1, X2, '2-1-2')
    P = {n: h.pos(n, lo=1, hi=9) for n in ('a', 'b', 'c')}
    k = 'xyzXYZ'.index(d)
    m.add_node_load('N1', 'F' + 'YZX'[k % 3], P['a'], 'W')
    m.add_node_load('N3', 'F' + 'ZXY'[k % 3], -P['b'], 'V')
    m.add_member_pt_load('M1', 'F' + d, -P['c'], L / 2, 'W')
    m.add_load_combo('Q', {'W': h.q(2), 'V': h.q('1/2'), 'Other': h.q(1)})
    r = renderer(h, m, render_nodes=False)
    if by == 'case':
        r.case = 'W'
        F = {'a': P['a'], 'c': -P['c']}
    else:
        r.combo_name = 'Q'
        F = {'a': 2 * P['a'], 'b': -P['b'] / h.q(2), 'c': -2 * P['c']}
    r.update()
    G = directions(h, R)
    where = {'a': (X1, G['YZX'[k % 3]]), 'b': (X3, G['ZXY'[k % 3]]), 'c': (mid(h, X1, X2), G[d])}
    segs = arrows(h, r)
    h.same(len(segs), len(F), 'arrows')
    k0 = None
    for n, f in F.items():
        p, e = where[n]
        here = [s for s in segs if h.known(same_point(h, s[0], p))]
        h.same(len(here), 1, n + ' arrow')
        v = [a - b for a, b in zip(p, here[0][1])]
        along(h, v, e, f, n)
        k0 = k0 or (h.dot(v, e), f)
        h.eq(h.dot(v, e) * k0[1], k0[0] * f, n + ' proportion')


@harness('V01', params=[{'by': b} for b in ('case', 'combination')], timeout=300)
def zero_loads(h, by):
    """loads that vanish in the case or combination do not stop the rendering of the others"""
    m, X1, X2 = loaded(h, '2-1-2', 'M1')
    P = h.pos('P', lo=1, hi=9)
    m.add_node('N3', h.q(4), h.q(0), h.q(4))
    m.add_node('N4', h.q(0), h.q(0), h.q(4))
    m.add_node('N0', h.q(0), h.q(0), h.q(0))
    m.add_node('N5', h.q(4), h.q(0), h.q(0))
    m.add_plate('E', 'N0', 'N5', 'N3', 'N4', h.q(1), 'S')
    z = h.q(0)
    v = z if by == 'case' else h.q(3)
    c = 'W' if by == 'case' else 'V'
    for d in FORCES + MOMENTS:
        m.add_node_load('N1', d, v, c)
        m.add_member_pt_load('M1', d, v, h.q(1), c)
    for d in FORCES:
        m.add_member_dist_load('M1', d, v, v, case=c)
    m.add_plate_surface_pressure('E', v, c)
    m.add_node_load('N2', 'FY', P, 'W')
    m.add_load_combo('Q', {'W': h.q(1), 'V': z})
    r = renderer(h, m, render_nodes=False)
    if by == 'case':
        r.case = 'W'
    else:
        r.combo_name = 'Q'
    r.update()
    here = [s for s in arrows(h, r) if h.known(same_point(h, s[0], X2))]
    h.same(len(here), 1, 'arrow')
    along(h, [a - b for a, b in zip(X2, here[0][1])], [h.q(0), h.q(1), h.q(0)], P, 'load')


@harness('V01', params=[{'by': ('case', 'combination')[(k + n) % 2], 'd': d} for k, d in enumerate('xyzXYZ') for n in (0, 1)], timeout=300)
def several_moments(h, by, d):
    """arcs of moments on nodes and members are in proportion to the moments, distributed loads to the distributed loads"""
    m, X1, X2 = loaded(h, '2-1-2', 'M1', h.q(12))
    X3 = [X1[0] - 3, X1[1] + 2, X1[2] - 1]
    m.add_node('N3', *X3)
    R, L = axes(h, X1, X2, '2-1-2')
    P = {n: h.pos(n, lo=1, hi=9) for n in ('a', 'b', 'c')}
    w = {n: h.pos(n, lo=5, hi=9) for n in ('w1', 'w2')}
    n = 'xyzXYZ'.index(d)
    m.add_node_load('N1', 'M' + 'XYZ'[n % 3], P['a'], 'W')
    m.add_node_load('N3', 'M' + 'YZX'[n % 3], -P['b'], 'V')
    m.add_member_pt_load('M1', 'M' + d, -P['c'], L / 2, 'W')
    m.add_member_dist_load('M1', 'F' + d, w['w1'], w['w1'], L / 4, L / 2, 'W')
    m.add_member_dist_load('M1', 'F' + 'XYZxyz'[n], -w['w2'], -w['w2'], L * h.q('3/4'), L, 'V' if by == 'combination' else 'W')
    m.add_load_combo('Q', {'W': h.q(2), 'V': h.q('1/2'), 'Other': h.q(1)})
    F = {'a': P['a'], 'c': P['c']}
    f1, f2 = w['w1'], -w['w2']
    if by == 'combination':
        F = {'a': 2 * P['a'], 'b': P['b'] / h.q(2), 'c': 2 * P['c']}
        f1, f2 = 2 * w['w1'], -w['w2'] / h.q(2)
    r = renderer(h, m, render_nodes=False)
    if by == 'case':
        r.case = 'W'
    else:
        r.combo_name = 'Q'
    r.update()
    arcs = [(h.col(a.info['center']), h.dot(h.col(a.info['polar']), h.col(a.info['polar']))) for a in of(r, 'arc')]
    segs = arrows(h, r)
    h.same(len(arcs), len(F), 'arcs')
    where = {'a': X1, 'b': X3, 'c': mid(h, X1, X2)}
    k0 = None
    for k, f in F.items():
        here = [q for c, q in arcs if h.known(same_point(h, c, where[k]))]
        h.same(len(here), 1, k + ' arc')
        k0 = k0 or (here[0], f)
        h.eq(here[0] * k0[1] * k0[1], k0[0] * f * f, k + ' proportion')
    v = []
    G = directions(h, R)
    for x, e, f in ((L / 4, G[d], f1), (L, G['XYZxyz'[n]], f2)):
        p = [a + x * b for a, b in zip(X1, R[0])]
        here = [s for s in segs if h.known(same_point(h, s[0], p))]
        h.same(len(here), 1, 'arrow')
        u = [a - b for a, b in zip(p, here[0][1])]
        along(h, u, e, f, 'distributed load')
        v.append(h.dot(u, e))
    h.eq(v[0] * f2, v[1] * f1, 'proportion of the distributed loads')
