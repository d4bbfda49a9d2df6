"""The scene of the VTK viewer shows the model, its loads and its results."""
import builtins
from engine.harness import harness
from checks.common import *
from checks.V01 import (wall, frame, load_frame, displaced, corner_value, CORNERS, MAPS, at, mid, same_point, has_segment, along, loaded, magnitude, directions,
                        combos, FORCES, MOMENTS, joins)

BOUNDS = ('Scenes built by the VTK viewer (Renderer and the function render_model): nodes at symbolic positions with every combination of supports, members, springs, '
          'plates and quads with their labels; the deformed shape at a symbolic scale of a frame, springs, plates and quads under symbolic loads in two combinations; contours '
          'of every result; one symbolic nodal, point, distributed or surface load of every direction and type at a time, by load case and by factored '
          'combination, and several at once for their relative sizes.')
ASSUMPTIONS = ['vtk is replaced by a stand-in that carries data through the pipeline like VTK and answers what the scene contains; drawing itself is not modelled.',
               'Symbol sizes and colours (and the range of the colour table) are free; arrows at nodes may stop short of the node by up to the size of its symbol.']


class View:
    def __init__(self, h, m, api='Renderer', **kw):
        self.h, self.m, self.api = h, m, api
        self.all = h.viewers()
        import PyNite.Visualization as V
        self.V = V
        self.o = dict(annotation_size=h.q('1/2'), deformed_shape=False, deformed_scale=30, render_loads=False, color_map=None, combo_name='Combo 1', case=None, labels=True)
        self.o.update(kw)
        self.r = None

    def update(self, **kw):
        self.o.update(kw)
        if self.api == 'function':
            del self.all[:]
            self.V.render_model(self.m, **self.o)
        else:
            if self.r is None:
                self.r = self.V.Renderer(self.m)
                self.r.scalar_bar = True
            for k, v in self.o.items():
                setattr(self.r, k, v)
            if self.api == 'render_model':
                self.r.render_model(interact=True)
            else:
                self.r.update()
        self.scene = self.all[-1].scene()

    def of(self, *kinds):
        return [p for p, a in self.scene if p.kind in kinds]

    def lines(self):
        return [(p.points[0], p.points[1]) for p in self.of('line')]

    def labels(self):
        return {p.text: a.p['Position'] for p, a in self.scene if p.kind == 'text'}

    def texts(self):
        return [p.text for p, a in self.scene if p.kind == 'text']


def label(h, v, text, p, tag, exact=True):
    h.same(v.texts().count(text), 1, tag + ' label')
    q = v.labels()[text]
    if exact:
        h.alleq(q, p, tag + ' label position')
    else:
        for a, b in zip(q, p):          # beside the node
            h.le((a - b) * (a - b), v.o['annotation_size'] * v.o['annotation_size'], tag + ' label near')


APIS = [{'api': a} for a in ('Renderer', 'render_model', 'function')]


@harness('V03', params=APIS, timeout=200)
def geometry(h, api):
    m = FE()
    m.add_material('S', h.q(7), h.q(3), h.q('0.3'), h.q(1))
    P = {}
    for k, n in enumerate('ABCDEF'):
        P[n] = [h.real('%s%d' % (n, i)) for i in range(3)]
        h.assume(P[n][0] >= (P['ABCDEF'[k - 1]][0] + 1 if k else 0))
        m.add_node(n, *P[n])
    X = [h.real('a%d' % i) for i in range(3)]
    m.add_auxnode('Aux', *X)
    M = {'M1': 'AB', 'M2': 'CA', 'M3': 'FD'}
    for n, (i, j) in M.items():
        m.add_member(n, i, j, 'S', h.q(1), h.q(2), h.q(3), h.q(4))
    S = {'S1': 'BE', 'S2': 'DB'}
    for n, (i, j) in S.items():
        m.add_spring(n, i, j, h.q(5))
    Q = {'P1': 'ABCD', 'Q1': 'BCEF'}
    m.add_plate('P1', *'ABCD', h.q(1), 'S')
    m.add_quad('Q1', *'BCEF', h.q(1), 'S')
    m.add_load_combo('Combo 1', {})
    v = View(h, m, api)
    for again in (0, 1):
        v.update()
        segs = v.lines()
        h.same(len(segs), len(M) + len(S), 'lines')
        for n, (i, j) in list(M.items()) + list(S.items()):
            has_segment(h, segs, P[i], P[j], n + ' drawn')
            label(h, v, n, mid(h, P[i], P[j]), n)
        nodes = dict(P, Aux=X)
        h.same(len(v.of('sphere')), len(nodes), 'node symbols')
        for n in nodes:
            label(h, v, n, nodes[n], n, exact=False)
            h.true(h.Or(*[same_point(h, s.center, nodes[n]) for s in v.of('sphere')]), n + ' symbol')
        polys = v.of('polygon')
        h.same(len(polys), len(Q), 'faces')
        for p, q in zip(polys, Q.values()):
            h.alleq(h.col(p.points), h.col([P[c] for c in q]), 'face')
        if not again:
            m.nodes['B'].X = P['B'][0] = h.real('moved')
            del m.members['M2'], M['M2']
    v.update(labels=False)
    h.same(v.texts(), [], 'labels off')
    h.same(len(v.lines()), len(M) + len(S), 'lines, labels off')


@harness('V03', timeout=200)
def supports(h):
    """a symbol for every support, at the node, and none where there is none"""
    m = FE()
    X = [h.real('x'), h.real('y'), h.real('z')]
    sup = [h.flag('s%d' % i) for i in range(6)]
    m.add_node('N', *X)
    m.def_support('N', *sup)
    m.add_load_combo('Combo 1', {})
    v = View(h, m, annotation_size=h.pos('size'))
    v.update()
    s = [p for p, a in v.scene if p.kind not in ('text', 'sphere')]
    h.alleq(v.of('sphere')[0].center, X, 'node')
    if all(sup):
        h.same([k.kind for k in s], ['cube'], 'fixed: cube')
        h.alleq(s[0].center, X, 'cube position')
    elif all(sup[:3]) and not any(sup[3:]):
        h.same([k.kind for k in s], ['cone'], 'pinned: cone')
        h.alleq([a + b * s[0].height / h.q(2) for a, b in zip(s[0].center, s[0].direction)], X, 'cone tip')
        h.alleq(s[0].direction, [0, 1, 0], 'cone direction')
    else:
        for a in range(3):
            e = [h.q(1 if k == a else 0) for k in range(3)]
            lines = [k for k in s if k.kind == 'line' and h.known(h.Not(h.near(k.points[0][a], k.points[1][a])))]
            h.same(len(lines), int(sup[a]) + int(sup[a + 3]), 'lines along %d' % a)
            for k in lines:
                h.alleq(mid(h, *k.points), X, 'line centre %d' % a)
            cones = [k for k in s if k.kind == 'cone' and h.known(h.Not(h.near(k.direction[a], 0)))]
            h.same(len(cones), 2 * int(sup[a]), 'arrowheads along %d' % a)
            ends = []
            for k in cones:
                off = [p - q for p, q in zip(k.center, X)]
                h.alleq(h.cross(off, e), [0, 0, 0], 'arrowheads on the axis %d' % a)
                h.lt(off[a] * k.direction[a], 0, 'arrowheads point to the node %d' % a)
                ends.append(off[a])
            if cones:
                h.eq(ends[0] + ends[1], 0, 'arrowheads on both sides %d' % a, scale=1)
            cubes = [k for k in s if k.kind == 'cube' and h.known(h.Not(h.near(k.center[a], X[a])))]
            h.same(len(cubes), 2 * int(sup[a + 3]), 'cubes along %d' % a)
            if cubes:
                h.alleq(mid(h, cubes[0].center, cubes[1].center), X, 'cubes on both sides %d' % a)
        h.same(len(s), 3 * sum(map(int, sup)), 'symbols')


# ------------------------------------------------------------------ results
def curve(h, pts, m, name, combo, s, tag):
    M = m.members[name]
    n = len(pts) - 1
    h.true(n >= 8, tag + ' segments')
    L, T = M.L(), M.T()
    a = at(M.i_node)
    for k in sorted({0, 1, n // 2, n - 1, n}):
        x = L * h.q('%d/%d' % (k, n))
        u = [M.deflection(d, x, combo) for d in ('dx', 'dy', 'dz')]
        e = [a[c] + (x + s * u[0]) * T[0, c] + s * (u[1] * T[1, c] + u[2] * T[2, c]) for c in range(3)]
        h.alleq(pts[k], e, '%s point %d of %d' % (tag, k, n))
    h.alleq(pts[0], displaced(h, M.i_node, combo, s), tag + ' i-node')
    h.alleq(pts[-1], displaced(h, M.j_node, combo, s), tag + ' j-node')


@harness('V03', params=APIS, timeout=400)
def deformed_frame(h, api):
    m = frame(h)
    del m.members['T1']
    load_frame(h, m)
    m.analyze()
    s = h.pos('scale')
    v = View(h, m, api, deformed_shape=True, deformed_scale=s)
    for combo in ('A', 'B', 'A'):
        v.update(combo_name=combo)
        red = v.of('polyline')
        h.same(len(red), len(m.members), combo + ' deformed members')
        for k, name in zip(red, m.members):
            curve(h, k.points, m, name, combo, s, '%s %s' % (combo, name))
        S = m.springs['S1']
        segs = [x for x in v.lines()]
        has_segment(h, segs, displaced(h, S.i_node, combo, s), displaced(h, S.j_node, combo, s), combo + ' deformed spring')
        for n in m.nodes.values():
            h.true(h.Or(*[same_point(h, p.center, displaced(h, n, combo, s)) for p in v.of('sphere')]), '%s %s deformed' % (combo, n.name))
        for name, M in list(m.members.items()) + list(m.springs.items()):
            has_segment(h, segs, at(M.i_node), at(M.j_node), '%s %s undeformed' % (combo, name))
        h.same(len([p for p in v.of('sphere')]), 2 * len(m.nodes), combo + ' nodes')


@harness('V03', params=[{'dead': d} for d in (False, True)], timeout=200)
def inactive(h, dead):
    """members and springs that do not act in the combination are not in its deformed shape"""
    m = FE()
    m.add_material('S', h.q(100), h.q(40), h.q('0.3'), h.q(1))
    for n, x in (('A', 0), ('B', 4), ('C', 8)):
        m.add_node(n, h.q(x), 0, 0)
        m.def_support(n, n != 'B', True, True, True, True, True)
    m.add_member('M1', 'A', 'B', 'S', h.q(1), h.q(1), h.q(1), h.q(1))
    m.add_member('M2', 'B', 'C', 'S', h.q(1), h.q(1), h.q(1), h.q(1), comp_only=True)
    m.add_spring('S1', 'B', 'C', h.q(3), comp_only=True)
    P, s = h.pos('P'), h.pos('s')
    m.add_node_load('B', 'FX', P if not dead else -P)
    m.analyze()
    v = View(h, m, deformed_shape=True, deformed_scale=s)
    v.update()
    red = v.of('polyline')
    h.same(len(red), 1 if dead else 2, 'members that act')
    curve(h, red[0].points, m, 'M1', 'Combo 1', s, 'M1')
    if not dead:
        curve(h, red[1].points, m, 'M2', 'Combo 1', s, 'M2')
    u = displaced(h, m.nodes['B'], 'Combo 1', s)
    here = [x for x in v.lines() if h.known(joins(h, x, u, at(m.nodes['C'])))]
    h.same(len(here), 0 if dead else 1, 'springs that act')


@harness('V03', params=[{'maps': k, 'api': a} for k, a in ((('Mx', 'My', 'Mxy'), 'Renderer'), (('Qx', 'Qy', 'Sx'), 'Renderer'), (('Sy', 'Txy', 'dz'), 'Renderer'), (('dz', 'Mx'), 'function'))],
         timeout=200)
def contours(h, maps, api):
    """contour values: the mean over the elements at a node of what each of them reports there"""
    m = wall(h)
    v = View(h, m, api, deformed_shape=True, deformed_scale=h.q(3), labels=False)
    if h.exact:         # the range of the colour table is free: any of the values
        for f in ('min', 'max'):
            setattr(v.V, f, lambda *a, f=getattr(builtins, f): a[0][0] if len(a) == 1 and isinstance(a[0], list) and len(a[0]) > 4 else f(*a))
    els = list(m.plates.values()) + list(m.quads.values())
    for n, what in enumerate(maps):
        for combo in ('A', 'B') if n == 0 else ('AB'[n % 2],):
            v.update(combo_name=combo, color_map=what)
            p = v.of('polygon')
            h.same(len(p), len(els), what + ' faces')
            for f, E in zip(p, els):
                h.alleq(h.col(f.points), h.col([displaced(h, getattr(E, c), combo, h.q(3)) for c in CORNERS]), '%s %s face' % (what, combo))
                for k, c in enumerate(CORNERS):
                    N = getattr(E, c)
                    vs = [corner_value(h, G, j, what, combo) for G in els for j, d in enumerate(CORNERS) if getattr(G, d) is N]
                    h.eq(h.col([f.scalars[k]])[0] * len(vs), sum(vs[1:], vs[0]), '%s %s %s %s' % (what, combo, E.name, c))
    v.update(deformed_shape=False, color_map=None)
    for f, E in zip(v.of('polygon'), els):
        h.alleq(h.col(f.points), h.col([at(getattr(E, c)) for c in CORNERS]), 'undeformed')
    for f in ('min', 'max'):
        v.V.__dict__.pop(f, None)


# ------------------------------------------------------------------ loads
def views(h, v):
    """the load by its case (value P) and in combinations that factor it"""
    v.update(case='W', combo_name=None)
    yield 'case', h.q(1)
    v.update(case=None, combo_name='Up')
    yield 'combination', h.q('1/2')
    v.update(case=None, combo_name='Down')
    yield 'reversed', h.q(-1)


def base(v, h, m):
    """number of primitives of each kind without the loads"""
    v.update(render_loads=False)
    n = {k: len(v.of(k)) for k in ('line', 'cone', 'arc', 'polygon')}
    t = v.texts()
    v.o['render_loads'] = True
    return n, t


def shown(h, v, texts, values, tag):
    own = list(v.texts())
    for t in texts:
        own.remove(t)
    h.true(len(own) >= 1, tag + ' labels')
    got = [h.number(t) for t in own]
    for w in values:
        h.true(h.Or(*[near3(h, g, w) for g in got]), tag + ' value shown')
    for g in got:
        h.true(h.Or(*[near3(h, g, w) for w in values]), tag + ' shown value acts')


def near3(h, a, b):
    if h.exact:
        return h.near(a, b)
    return abs(a - b) <= 0.006 * max(abs(a), abs(b), 1e-3)


def one_load(h, v, n0, t0, d, X, e, P, tag, node=False):
    shown(h, v, t0, [P], tag)
    if d[0] == 'F':
        segs = v.lines()[n0['line']:]
        h.same(len(segs), 1, tag + ' arrow shafts')
        tip, tail = segs[0]
        vec = [a - b for a, b in zip(tip, tail)]
        along(h, vec, e, P, tag)
        if node:
            gap = [a - b for a, b in zip(X, tip)]
            h.alleq(h.cross(gap, e), [0, 0, 0], tag + ' aims at the node')
            h.le(0, h.dot(gap, e) * P, tag + ' short of the node')
            h.le(h.dot(gap, gap), v.o['annotation_size'] * v.o['annotation_size'], tag + ' near the node')
        else:
            h.alleq(tip, X, tag + ' tip at the load')
        cones = v.of('cone')[n0['cone']:]
        h.same(len(cones), 1, tag + ' arrowheads')
        c = cones[0]
        along(h, c.direction, e, P, tag + ' arrowhead')
        ht = h.sqrt(h.dot(c.direction, c.direction))
        h.alleq([a + b * c.height / (2 * ht) for a, b in zip(c.center, c.direction)], tip, tag + ' head at the tip')
    else:
        arcs = v.of('arc')[n0['arc']:]
        h.same(len(arcs), 1, tag + ' arcs')
        h.alleq(arcs[0].center, X, tag + ' arc centre')
        a, b = [[p - q for p, q in zip(w, X)] for w in arcs[0].points]
        n = h.cross(a, b)
        along(h, n, e, P, tag + ' arc')
        h.eq(h.dot(a, a), h.dot(b, b), tag + ' arc radius')
        h.true(arcs[0].negative, tag + ' long way round')
        cones = v.of('cone')[n0['cone']:]
        h.same(len(cones), 1, tag + ' arrowheads')
        # the arc runs the long way from the second point, against the sense of (first, second), to the first point
        h.alleq(cones[0].center, arcs[0].points[0], tag + ' arrowhead on the arc')


@harness('V03', params=[{'d': d} for d in FORCES + MOMENTS], timeout=200)
def nodal_load(h, d):
    m, X1, X2 = loaded(h, 'x', 'M1')
    P = magnitude(h, 'P')
    m.add_node_load('N2', d, P, 'W')
    combos(h, m)
    e = [h.q(1 if c == d[1] else 0) for c in 'XYZ']
    v = View(h, m)
    n0, t0 = base(start(v), h, m)
    for tag, f in views(h, v):
        one_load(h, v, n0, t0, d, X2, e, P * f, tag, node=True)
    v.update(combo_name='Without')
    h.same((len(v.lines()), len(v.of('arc'))), (n0['line'], n0['arc']), 'no load in another combination')


def start(v):
    v.o['combo_name'] = 'Up'
    return v


@harness('V03', params=[{'d': t + c, 'kind': k} for t in 'FM' for c in 'xyzXYZ' for k in ('2-1-2', 'up')], timeout=300)
def member_point_load(h, d, kind):
    m, X1, X2 = loaded(h, kind, 'M1')
    P, x = magnitude(h, 'P'), h.pos('x')
    R, L = axes(h, X1, X2, kind)
    h.assume(x < L)
    m.add_member_pt_load('M1', d, P, x, 'W')
    combos(h, m)
    e = [h.q(1 if c == d[1] else 0) for c in 'XYZ'] if d[1].isupper() else R['xyz'.index(d[1])]
    X = [a + x * b for a, b in zip(X1, R[0])]
    v = View(h, m)
    n0, t0 = base(start(v), h, m)
    for tag, f in views(h, v):
        one_load(h, v, n0, t0, d, X, e, P * f, tag)
    v.update(combo_name='Without')
    h.same((len(v.lines()), len(v.of('arc'))), (n0['line'], n0['arc']), 'no load in another combination')


@harness('V03', params=[{'d': 'F' + c, 'kind': k, 'sg': s} for n, c in enumerate('xyzXYZ') for k, s in ((('2-1-2', 'up')[n % 2], (1, 1)), ('3-4-0', ((1, -1), (-1, -1), (0, 1))[n // 2 % 3]))], timeout=300)
def member_dist_load(h, d, kind, sg):
    m, X1, X2 = loaded(h, kind, 'M1', h.q(12))
    w1, w2 = h.pos('w1', lo=2, hi=4) * sg[0], h.pos('w2', lo=5, hi=9) * sg[1]
    R, L = axes(h, X1, X2, kind)
    x1, x2 = L / 4, L * h.q('7/8')
    m.add_member_dist_load('M1', d, w1, w2, x1, x2, 'W')
    combos(h, m)
    e = [h.q(1 if c == d[1] else 0) for c in 'XYZ'] if d[1].isupper() else R['xyz'.index(d[1])]
    p1, p2 = [[a + x * b for a, b in zip(X1, R[0])] for x in (x1, x2)]
    v = View(h, m)
    n0, t0 = base(start(v), h, m)
    for tag, f in views(h, v):
        segs = v.lines()[n0['line']:]
        h.true(len(segs) >= 3, tag + ' arrows')
        first = [s for s in segs[:-1] if h.known(same_point(h, s[0], p1))]
        last = [s for s in segs[:-1] if h.known(same_point(h, s[0], p2))]
        h.same((len(first), len(last)), (1, 1), tag + ' end arrows')
        v1, v2 = [a - b for a, b in zip(p1, first[0][1])], [a - b for a, b in zip(p2, last[0][1])]
        if sg[0]:
            along(h, v1, e, w1 * f, tag + ' first')
        along(h, v2, e, w2 * f, tag + ' last')
        h.alleq([a * w2 for a in v1], [b * w1 for b in v2], tag + ' proportion')
        h.true(joins(h, segs[-1], first[0][1], last[0][1]), tag + ' line joins the tails')
        span = h.dot([b - a for a, b in zip(p1, p2)], R[0])
        for k, (tip, tail) in enumerate(segs[:-1]):
            t = h.dot([b - a for a, b in zip(p1, tip)], R[0]) / span
            h.alleq(tip, [a + t * (b - a) for a, b in zip(p1, p2)], tag + ' arrow on the member')
            h.alleq([a - b for a, b in zip(tip, tail)], [a + t * (b - a) for a, b in zip(v1, v2)], tag + ' arrow length')
        shown(h, v, t0, [w1 * f, w2 * f], tag)


@harness('V03', params=[{'el': e, 'plane': p} for e in ('plate', 'quad') for p in ('xy', 'yz', 'tilt')], timeout=300)
def surface_load(h, el, plane):
    m = FE()
    m.add_material('S', h.q(100), h.q(40), h.q('0.3'), h.q(1))
    u, w = {'xy': ((4, 0, 0), (0, 3, 0)), 'yz': ((0, 4, 0), (0, 0, 3)), 'tilt': ((2, 1, 2), (-2, 2, 1))}[plane]
    C = [[h.q(1), h.q(2), h.q(3)]]
    for s, t in ((1, 0), (1, 1), (0, 1)):
        C.append([a + h.q(s * b + t * c) for a, b, c in zip(C[0], u, w)])
    for n, p in zip('ijmn', C):
        m.add_node(n, *p)
    P = magnitude(h, 'P')
    z = h.cross([h.q(c) for c in u], [h.q(c) for c in w])
    getattr(m, 'add_' + el)('E', *'ijmn', h.q(1), 'S')
    getattr(m, 'add_%s_surface_pressure' % el)('E', P, 'W')
    combos(h, m)
    v = View(h, m)
    n0, t0 = base(start(v), h, m)
    for tag, f in views(h, v):
        segs = v.lines()[n0['line']:]
        h.same(len(segs), 4, tag + ' arrows')
        tails = []
        for k, p in enumerate(C):
            here = [s for s in segs if h.known(same_point(h, s[0], p))]
            h.same(len(here), 1, tag + ' arrow at corner %d' % k)
            along(h, [a - b for a, b in zip(p, here[0][1])], z, P * f, '%s corner %d' % (tag, k))
            tails.append(here[0][1])
        polys = v.of('polygon')
        h.same(len(polys), 2, tag + ' load polygon and element')
        h.true(h.Or(*[same_point(h, q.points, tails) for q in polys]), tag + ' polygon joins the tails')
        h.true(h.Or(*[same_point(h, q.points, C) for q in polys]), tag + ' element')
        shown(h, v, t0, [P * f], tag)


@harness('V03', params=[{'by': ('case', 'combination')[(k + n) % 2], 'd': d} for k, d in enumerate('xyzXYZ') for n in (0, 1)], timeout=300)
def several_loads(h, by, d):
    """arrows of loads of a kind are in proportion to the loads; several surfaces; loads of other cases are not shown or are factored"""
    m, X1, X2 = loaded(h, '2-1-2', 'M1')
    X3 = [X1[0] - 3, X1[1] + 2, X1[2] - 1]
    m.add_node('N3', *X3)
    P = {n: h.pos(n, lo=1, hi=9) for n in ('a', 'b', 'c')}
    k = 'xyzXYZ'.index(d)
    m.add_node_load('N1', 'F' + 'YZX'[k % 3], P['a'], 'W')
    m.add_node_load('N3', 'F' + 'ZXY'[k % 3], -P['b'], 'V')
    m.add_member_pt_load('M1', 'F' + d, -P['c'], m.members['M1'].L() / 2, 'W')
    m.add_load_combo('Q', {'W': h.q(2), 'V': h.q('1/2'), 'Other': h.q(1)})
    v = View(h, m, render_loads=True)
    if by == 'case':
        v.update(case='W', combo_name=None)
        F = {'a': P['a'], 'c': -P['c']}
    else:
        v.update(combo_name='Q')
        F = {'a': 2 * P['a'], 'b': -P['b'] / h.q(2), 'c': -2 * P['c']}
    segs = v.lines()[1:]
    h.same(len(segs), len(F), 'arrows')
    R, L = axes(h, X1, X2, '2-1-2')
    G = directions(h, R)
    axis = {'a': G['YZX'[k % 3]], 'b': G['ZXY'[k % 3]], 'c': G[d]}
    k0 = None
    for (n, f), s in zip(F.items(), segs):
        w = [a - b for a, b in zip(*s)]
        along(h, w, axis[n], f, n)
        k0 = k0 or (h.dot(w, axis[n]), f)
        h.eq(h.dot(w, axis[n]) * k0[1], k0[0] * f, n + ' proportion')


@harness('V03', timeout=200)
def surfaces(h):
    """pressures on several elements in several cases: each load's polygon stands on its own element"""
    m = FE()
    m.add_material('S', h.q(100), h.q(40), h.q('0.3'), h.q(1))
    C = {}
    for k, (x, y) in enumerate([(0, 0), (4, 0), (8, 0), (0, 3), (4, 3), (8, 3)]):
        C['N%d' % k] = [h.q(x), h.q(y), h.q(1)]
        m.add_node('N%d' % k, *C['N%d' % k])
    E = {'P1': ('N0', 'N1', 'N4', 'N3'), 'Q1': ('N1', 'N2', 'N5', 'N4')}
    m.add_plate('P1', *E['P1'], h.q(1), 'S')
    m.add_quad('Q1', *E['Q1'], h.q(1), 'S')
    p, q, r = h.pos('p', lo=1, hi=9), h.pos('q', lo=1, hi=9), h.pos('r', lo=1, hi=9)
    m.add_plate_surface_pressure('P1', p, 'W')
    m.add_plate_surface_pressure('P1', -q, 'V')
    m.add_quad_surface_pressure('Q1', -r, 'W')
    m.add_load_combo('Q', {'W': h.q(2), 'V': h.q(3)})
    for case, combo, loads in ((None, 'Q', [('P1', 2 * p), ('P1', -3 * q), ('Q1', -2 * r)]), ('W', None, [('P1', p), ('Q1', -r)]), ('V', None, [('P1', -q)])):
        v = View(h, m, render_loads=True)
        v.update(case=case, combo_name=combo)
        tag = str(case or combo)
        polys = v.of('polygon')
        h.same(len(polys), 2 + len(loads), tag + ' polygons')
        k0 = None
        rest = [f for f in polys if not h.known(h.near(f.points[0][2], C['N0'][2]))]
        h.same(len(rest), len(loads), tag + ' load polygons')
        for f, (el, P) in zip(rest, loads):
            up = [C[n][2] - x[2] for n, x in zip(E[el], f.points)]
            h.alleq([x[:2] for x in map(list, f.points)][0], C[E[el][0]][:2], tag + ' corner')
            h.alleq(h.col([list(x)[:2] for x in f.points]), h.col([C[n][:2] for n in E[el]]), tag + ' over the element')
            if k0 is None:
                k0 = (up[0], P)
            for u in up:
                h.eq(u * k0[1], k0[0] * P, tag + ' proportion')
            h.lt(0, up[0] * P, tag + ' sense')


@harness('V03', params=[{'by': b} for b in ('case', 'combination')], timeout=300)
def zero_loads(h, by):
    """loads that vanish in the case or combination do not stop the rendering of the others"""
    m, X1, X2 = loaded(h, '2-1-2', 'M1')
    P = h.pos('P', lo=1, hi=9)
    for k, (x, y) in enumerate(((4, 4), (0, 4), (0, 0), (4, 0))):
        m.add_node('E%d' % k, h.q(x), h.q(0), h.q(y))
    m.add_plate('E', 'E2', 'E3', 'E0', 'E1', h.q(1), 'S')
    z = h.q(0)
    val, c = (z, 'W') if by == 'case' else (h.q(3), 'V')
    for d in FORCES + MOMENTS:
        m.add_node_load('N1', d, val, c)
        m.add_member_pt_load('M1', d, val, h.q(1), c)
    for d in FORCES:
        m.add_member_dist_load('M1', d, val, val, case=c)
    m.add_plate_surface_pressure('E', val, c)
    m.add_node_load('N2', 'FY', P, 'W')
    m.add_load_combo('Q', {'W': h.q(1), 'V': z})
    v = View(h, m, render_loads=True)
    v.update(case='W', combo_name=None) if by == 'case' else v.update(combo_name='Q')
    here = [s for s in v.lines() if h.known(h.And(h.near(s[0][0], X2[0]), h.near(s[0][2], X2[2]), h.near(s[1][0], X2[0]), h.near(s[1][2], X2[2])))]
    h.same(len(here), 1, 'arrow')
    along(h, [a - b for a, b in zip(*here[0])], [h.q(0), h.q(1), h.q(0)], P, 'load')


@harness('V03', params=[{'by': ('case', 'combination')[(k + n) % 2], 'd': d} for k, d in enumerate('xyzXYZ') for n in (0, 1)], timeout=300)
def several_moments(h, by, d):
    """arcs of moments on nodes and members are in proportion to the moments, distributed loads to the distributed loads"""
    m, X1, X2 = loaded(h, '2-1-2', 'M1', h.q(12))
    X3 = [X1[0] - 3, X1[1] + 2, X1[2] - 1]
    m.add_node('N3', *X3)
    R, L = axes(h, X1, X2, '2-1-2')
    P = {n: h.pos(n, lo=1, hi=9) for n in ('a', 'b', 'c')}
    w = {n: h.pos(n, lo=5, hi=9) for n in ('w1', 'w2')}
    n = 'xyzXYZ'.index(d)
    m.add_node_load('N1', 'M' + 'XYZ'[n % 3], P['a'], 'W')
    m.add_node_load('N3', 'M' + 'YZX'[n % 3], -P['b'], 'V')
    m.add_member_pt_load('M1', 'M' + d, -P['c'], L / 2, 'W')
    m.add_member_dist_load('M1', 'F' + d, w['w1'], w['w1'], L / 4, L / 2, 'W')
    m.add_member_dist_load('M1', 'F' + 'XYZxyz'[n], -w['w2'], -w['w2'], L * h.q('3/4'), L, 'V' if by == 'combination' else 'W')
    m.add_load_combo('Q', {'W': h.q(2), 'V': h.q('1/2'), 'Other': h.q(1)})
    F = {'a': P['a'], 'c': P['c']}
    f1, f2 = w['w1'], -w['w2']
    if by == 'combination':
        F = {'a': 2 * P['a'], 'b': P['b'] / h.q(2), 'c': 2 * P['c']}
        f1, f2 = 2 * w['w1'], -w['w2'] / h.q(2)
    v = View(h, m, render_loads=True)
    v.update(case='W', combo_name=None) if by == 'case' else v.update(combo_name='Q')
    arcs = [(a.center, h.dot(d, d)) for a in v.of('arc') for d in [[p - q for p, q in zip(a.points[0], a.center)]]]
    segs = v.lines()
    h.same(len(arcs), len(F), 'arcs')
    where = {'a': X1, 'b': X3, 'c': mid(h, X1, X2)}
    k0 = None
    for k, f in F.items():
        here = [q for c, q in arcs if h.known(same_point(h, c, where[k]))]
        h.same(len(here), 1, k + ' arc')
        k0 = k0 or (here[0], f)
        h.eq(here[0] * k0[1] * k0[1], k0[0] * f * f, k + ' proportion')
    v = []
    G = directions(h, R)
    for x, e, f in ((L / 4, G[d], f1), (L, G['XYZxyz'[n]], f2)):
        p = [a + x * b for a, b in zip(X1, R[0])]
        here = [s for s in segs if h.known(same_point(h, s[0], p))]
        h.same(len(here), 1, 'arrow')
        u = [a - b for a, b in zip(p, here[0][1])]
        along(h, u, e, f, 'distributed load')
        v.append(h.dot(u, e))
    h.eq(v[0] * f2, v[1] * f1, 'proportion of the distributed loads')
