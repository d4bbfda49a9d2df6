"""Rectangle meshes tile exactly the requested region."""
from engine.harness import harness
from checks.models import *

BOUNDS = ('Meshes of at most 3 (thorough: 4) elements between consecutive control lines and at most two control lines or two openings per '
          'direction: symbolic width, height, mesh size, origin, control lines (in any order, possibly coinciding with each other or the edges) '
          'and opening positions; all three planes, Quad and Rect elements, automatic, given and already used names.')
ASSUMPTIONS = ('round(x, 10) is the identity and isclose is equality: distinct control lines are taken to differ by more than the rounding of the code.',)

PLANES = ('XY', 'YZ', 'XZ')


def base(h):
    m = FE()
    m.add_material('S', h.q(200), h.q(80), h.q('0.25'), h.q('0.1'))
    return m


def local(mesh_plane, o, n):
    d = [n.X - o[0], n.Y - o[1], n.Z - o[2]]
    k = {'XY': (0, 1, 2), 'YZ': (2, 1, 0), 'XZ': (0, 2, 1)}[mesh_plane]
    return d[k[0]], d[k[1]], d[k[2]]


def sizes(h, n):
    """mesh size and extents with at most n elements across"""
    s = h.pos('s')
    w, t = h.pos('w'), h.pos('t')
    h.assume(h.And(w <= n * s, t <= n * s))
    return s, w, t


def check_mesh(h, m, name, s, w, t, o, plane, xs=(), ys=(), openings=(), etype='Quad', km=None, th=None):
    """openings: (x, y, b, h), within the region and disjoint"""
    km = km or (h.q(1), h.q(1))
    mesh = m.meshes[name]
    els = list(mesh.elements.values())
    nodes = list(mesh.nodes.values())
    store = m.quads if etype == 'Quad' else m.plates
    h.same(mesh.is_generated(), True, 'flagged as generated')
    h.same(all(store.get(k) is e for k, e in mesh.elements.items()), True, 'elements are those of the model')
    h.same(all(m.nodes.get(k) is v for k, v in mesh.nodes.items()), True, 'nodes are those of the model')
    h.same(all(k == v.name for k, v in list(mesh.nodes.items()) + list(mesh.elements.items())), True, 'keys are names')
    h.same(len({id(e) for e in els}) == len(els) and len({id(e) for e in nodes}) == len(nodes), True, 'no entity twice')
    used = {id(x) for e in els for x in (e.i_node, e.j_node, e.m_node, e.n_node)}
    h.same(used == {id(x) for x in nodes}, True, 'no orphans, no foreign nodes')
    xy = {}
    for nd in nodes:
        x, y, z = local(plane, o, nd)
        h.eq(z, h.q(0), 'node in plane')
        xy[id(nd)] = (x, y)
    rect = []
    leq, near, Or, And = h.leq, h.near, h.Or, h.And
    for e in els:
        P = [xy[id(n)] for n in (e.i_node, e.j_node, e.m_node, e.n_node)]
        (x0, y0), (x1, _), (_, y1), _ = P
        h.alleq([c for p in P for c in p], [x0, y0, x1, y0, x1, y1, x0, y1], 'corners in order from the bottom left, along x first')
        h.lt(x0, x1, 'positive width')
        h.lt(y0, y1, 'positive height')
        h.le(x1 - x0, s, 'width within the mesh size')
        h.le(y1 - y0, s, 'height within the mesh size')
        h.cond(And(leq(h.q(0), x0), leq(x1, w), leq(h.q(0), y0), leq(y1, t)), 'within the region')
        h.same(e.type, etype, 'type')
        h.same(e.model is m, True, 'model')
        h.eq(e.kx_mod, km[0], 'kx_mod')
        h.eq(e.ky_mod, km[1], 'ky_mod')
        if th is not None:
            h.eq(e.t, th, 'thickness')
        rect.append((x0, y0, x1, y1))
        for (a, b, c, d) in openings:
            h.cond(Or(leq(x1, a), leq(a + c, x0), leq(y1, b), leq(b + d, y0)), 'no element in an opening')
        for c in xs:
            h.cond(Or(leq(c, x0), leq(x1, c)), 'no element across a control line of x')
        for c in ys:
            h.cond(Or(leq(c, y0), leq(y1, c)), 'no element across a control line of y')
    area = sum([(r[2] - r[0]) * (r[3] - r[1]) for r in rect], h.q(0))
    h.eq(area, w * t - sum([c * d for (_, _, c, d) in openings], h.q(0)), 'total area')
    for i, p in enumerate(rect):
        for q in rect[:i]:
            h.cond(Or(leq(p[2], q[0]), leq(q[2], p[0]), leq(p[3], q[1]), leq(q[3], p[1])), 'elements do not overlap')
        for x, y in xy.values():
            corner = Or(*[And(near(x, a), near(y, b)) for a in (p[0], p[2]) for b in (p[1], p[3])])
            h.cond(Or(corner, h.Not(leq(p[0], x)), h.Not(leq(x, p[2])), h.Not(leq(p[1], y)), h.Not(leq(y, p[3]))), 'elements meet corner to corner')
    V = list(xy.values())
    for i, a in enumerate(V):
        for b in V[:i]:
            h.cond(Or(h.Not(near(a[0], b[0])), h.Not(near(a[1], b[1]))), 'distinct nodes')
    for (a, b, c, d) in openings:
        for X in (a, a + c):
            for Y in (b, b + d):
                # a corner of the opening that is a corner of the region has no element left around it
                gone = And(Or(near(X, h.q(0)), near(X, w)), Or(near(Y, h.q(0)), near(Y, t)))
                h.cond(Or(gone, *[And(near(x, X), near(y, Y)) for (x, y) in V]), 'a node at every opening corner')
    return mesh


@harness('G01', params=[{'plane': p, 'n': 2, 'et': e} for p in PLANES for e in ('Quad', 'Rect')]
         + [{'plane': 'XY', 'n': 3, 'et': 'Quad'}, {'plane': 'YZ', 'n': 4, 'et': 'Rect', '_tier': 'thorough'}], timeout=500)
def plain(h, plane, n, et):
    m = base(h)
    s, w, t = sizes(h, n)
    o = [h.real('ox'), h.real('oy'), h.real('oz')]
    th = h.pos('th')
    kx, ky = h.pos('kx'), h.pos('ky')
    nm = m.add_rectangle_mesh(None, s, w, t, th, 'S', kx, ky, list(o), plane, element_type=et)
    h.same(m.meshes[nm].is_generated(), False, 'not generated before it is asked for')
    m.meshes[nm].generate()
    check_mesh(h, m, nm, s, w, t, o, plane, etype=et, km=(kx, ky), th=th)
    h.same(len(m.nodes), len(m.meshes[nm].nodes), 'nothing else in the model')


@harness('G01', params=[{'plane': p, 'et': e, 'axis': a} for p, e in (('XY', 'Quad'), ('XZ', 'Rect')) for a in 'xy'], timeout=500)
def control(h, plane, et, axis):
    """two symbolic control lines in one direction, in any order, also coinciding with each other or with an edge"""
    m = base(h)
    s = h.pos('s')
    w, t = h.pos('w'), h.q(1)
    h.assume(h.And(w <= 2 * s, s >= 1))
    c = [h.real('c1'), h.real('c2')]
    for x in c:
        h.assume(h.And(x >= 0, x <= w))
    o = [h.q(1), h.real('oy'), h.q(-2)]
    kw = {'x_control': c} if axis == 'x' else {'y_control': c}
    W, T = (w, t) if axis == 'x' else (t, w)
    keep = list(c)
    m.add_rectangle_mesh('M', s, W, T, h.q(1), 'S', origin=o, plane=plane, element_type=et, **kw)
    m.meshes['M'].generate()
    h.same(len(c) == 2 and c[0] is keep[0] and c[1] is keep[1], True, 'the list of the caller is left alone')
    check_mesh(h, m, 'M', s, W, T, o, plane, etype=et, xs=c if axis == 'x' else (), ys=c if axis == 'y' else ())


@harness('G01', params=[{'plane': 'XY', 'et': 'Quad'}, {'plane': 'YZ', 'et': 'Rect'}], timeout=500)
def grid(h, plane, et):
    """control lines in both directions"""
    m = base(h)
    s = h.q(1)
    w, t = h.pos('w', hi=2), h.pos('t', hi=2)
    cx, cy = h.real('cx'), h.real('cy')
    h.assume(h.And(cx >= 0, cx <= w, cy >= 0, cy <= t))
    o = [h.q(1), h.q(0), h.q(-2)]
    m.add_rectangle_mesh('M', s, w, t, h.q(1), 'S', origin=o, plane=plane, element_type=et, x_control=[cx], y_control=[cy])
    m.meshes['M'].generate()
    check_mesh(h, m, 'M', s, w, t, o, plane, etype=et, xs=[cx], ys=[cy])


@harness('G01', params=[{'plane': p, 'et': e, 'where': q} for p, e in (('XY', 'Quad'), ('XZ', 'Rect'), ('YZ', 'Quad'))
                        for q in ('inside', 'left', 'corner', 'across')], timeout=600)
def opening(h, plane, et, where):
    """one opening: strictly inside, at the left edge, in a corner, from edge to edge"""
    m = base(h)
    s = h.q(1)
    w, t = h.q(3), h.q('5/2')
    x, b = h.real('x'), h.pos('b')
    y, d = h.real('y'), h.pos('d')
    h.assume(h.And(x >= 0, y >= 0, x + b <= w, y + d <= t))
    h.assume({'inside': lambda: h.And(x > 0, y > 0, x + b < w, y + d < t),
              'left': lambda: h.And(h.near(x, h.q(0)), y > 0, x + b < w, y + d < t),
              'corner': lambda: h.And(h.near(x + b, w), h.near(y + d, t), x > 0, y > 0),
              'across': lambda: h.And(h.near(x, h.q(0)), h.near(b, w), y > 0, y + d < t)}[where]())
    o = [h.q(1), h.q(0), h.q(-2)]
    m.add_rectangle_mesh('M', s, w, t, h.q(1), 'S', origin=o, plane=plane, element_type=et)
    m.meshes['M'].add_rect_opening('O', x, y, b, d)
    m.meshes['M'].generate()
    hole = (x, y, b, d)
    check_mesh(h, m, 'M', s, w, t, o, plane, etype=et, openings=[hole], xs=[x, x + b], ys=[y, y + d])


@harness('G01', params=[{'plane': 'XY', 'et': 'Quad', 'how': q} for q in ('beside', 'above', 'touching')] +
         [{'plane': 'YZ', 'et': 'Rect', 'how': 'beside'}], timeout=600)
def openings(h, plane, et, how):
    """two openings side by side, one above the other, or with a common edge"""
    m = base(h)
    s = h.q(2)
    w, t = h.q(4), h.q(3)
    x, b = h.pos('x', hi=1), h.q('1/2')
    e = h.q(0) if how == 'touching' else h.pos('e', hi=1)
    y1, y2 = h.real('y1', lo=0, hi='3/2'), h.q(1)
    A = (x, y1, b, h.q('3/2'))
    B = (x + b + e, y2, h.q(1), h.q('3/2'))
    if how == 'above':
        A, B = (x, h.q('1/2'), b, y1 / 4 + h.q('1/8')), (h.q('1/2'), h.q(2), h.q(2), h.q('1/2'))
    o = [h.q(1), h.q(0), h.q(-2)]
    m.add_rectangle_mesh('M', s, w, t, h.q(1), 'S', origin=o, plane=plane, element_type=et)
    m.meshes['M'].add_rect_opening('O1', *A)
    m.meshes['M'].add_rect_opening('O2', *B)
    m.meshes['M'].generate()
    check_mesh(h, m, 'M', s, w, t, o, plane, etype=et, openings=[A, B], xs=[v for O in (A, B) for v in (O[0], O[0] + O[2])],
               ys=[v for O in (A, B) for v in (O[1], O[1] + O[3])])


@harness('G01', params=[{'et': e, 'when': q} for e in ('Quad', 'Rect') for q in ('taken', 'named', 'twice')], timeout=300)
def names(h, et, when):
    """two meshes in a model that already has nodes, elements, with and without given first names"""
    m = base(h)
    s = h.q(1)
    w = h.pos('w', hi=2)
    pre = {}
    if when == 'taken':
        for k in (2, 5):
            m.add_node('N%d' % k, 50 + k, 0, 0)
        for k, (x, y) in enumerate(((0, 0), (1, 0), (1, 1), (0, 1))):
            m.add_node('P%d' % k, 50 + x, y, 0)
        (m.add_quad if et == 'Quad' else m.add_plate)('%s2' % et[0], 'P0', 'P1', 'P2', 'P3', h.q(1), 'S')
        pre = dict(m.nodes)
    kw = dict(start_node='N4', start_element=et[0] + '3') if when == 'named' else {}
    m.add_rectangle_mesh('A', s, w, h.q(2), h.q(1), 'S', element_type=et, **kw)
    m.add_rectangle_mesh('B', s, h.q(2), w, h.q(1), 'S', origin=[h.q(0), h.q(0), h.q(5)], element_type=et, **kw)
    m.meshes['A'].generate()
    m.meshes['B'].generate()
    h.same(all(m.nodes.get(k) is v for k, v in pre.items()), True, 'existing nodes are kept')
    check_mesh(h, m, 'A', s, w, h.q(2), [h.q(0)] * 3, 'XY', etype=et)
    check_mesh(h, m, 'B', s, h.q(2), w, [h.q(0), h.q(0), h.q(5)], 'XY', etype=et)
    h.same(len(m.nodes), len(pre) + len(m.meshes['A'].nodes) + len(m.meshes['B'].nodes), 'number of nodes')
    h.same(len(m.quads) + len(m.plates), (1 if pre else 0) + len(m.meshes['A'].elements) + len(m.meshes['B'].elements), 'number of elements')
    if when == 'named':
        h.same('N4' in m.meshes['A'].nodes and et[0] + '3' in m.meshes['A'].elements, True, 'first names as given')


@harness('G01', params=[{'et': e, 'when': q} for e, q in (('Quad', 'later opening'), ('Rect', 'later opening'), ('Quad', 'again'), ('Rect', 'analysis'))], timeout=300)
def again(h, et, when):
    """generating again (after adding an opening, or unchanged) replaces the first generation; analysing generates what is missing"""
    m = base(h)
    s = h.q(1)
    w, t = h.pos('w', lo='3/2', hi=2), h.q(2)
    x, b = h.real('x', lo=0), h.pos('b')
    h.assume(x + b <= w)
    o = [h.q(0)] * 3
    m.add_rectangle_mesh('A', s, w, t, h.q(1), 'S', origin=o, element_type=et)
    mesh = m.meshes['A']
    hole = ()
    if when != 'analysis':
        mesh.generate()
    else:
        # something that makes the analysis possible: a node of its own on supports
        m.add_node('Z1', 9, 9, 9)
        m.def_support('Z1', True, True, True, True, True, True)
    if when != 'again':
        hole = ((x, h.q('1/2'), b, h.q(1)),)
        mesh.add_rect_opening('O', *hole[0])
        h.same(mesh.is_generated(), False, 'an added opening asks for generating again')
    if when == 'analysis':
        class Enough(Exception):
            pass

        def stop(*a, **k):
            raise Enough
        m.K = stop          # the analysis generates the mesh before it needs the stiffness matrix
        h.raises(lambda: m.analyze_linear(check_stability=False), (Enough,), 'analysis started')
    else:
        mesh.generate()
    check_mesh(h, m, 'A', s, w, t, o, 'XY', etype=et, openings=hole, xs=[c for q in hole for c in (q[0], q[0] + q[2])], ys=[c for q in hole for c in (q[1], q[1] + q[3])])
    h.same(len(m.nodes), len(mesh.nodes) + (when == 'analysis'), 'nothing left of an earlier generation')
    h.same(len(m.quads) + len(m.plates), len(mesh.elements), 'no element left of an earlier generation')
