"""Ring, frustum and cylinder meshes lie on their surface."""
from engine.harness import harness
from checks.models import *
from checks.G01 import base

BOUNDS = ('Annulus and frustum meshes starting with 4, 6 or 8 (thorough: 3, 12, 24) elements around and up to 3 rings (5 with a transition to a finer mesh, '
          'one transition), cylinders with 4, 6 or 8 (thorough: 3, 12, 24) elements around and up to 3 courses; symbolic inner and outer radius, height, mesh size, '
          'origin, thickness and modifiers; all three axes; Quad and Rect cylinders; automatic and given names.')
ASSUMPTIONS = ('round(x, 10) is the identity (differences below the rounding of the code are not considered).',)

AX = {'Y': (0, 2, 1), 'X': (2, 1, 0), 'Z': (1, 0, 2)}      # cos coordinate, sin coordinate, axial coordinate


def place(axis, o, node):
    d = [node.X - o[0], node.Y - o[1], node.Z - o[2]]
    a, b, c = AX[axis]
    return d[a], d[b], d[c]


def corners(e):
    return [e.i_node, e.j_node, e.m_node, e.n_node]


def bookkeeping(h, m, name, kind):
    mesh = m.meshes[name]
    els, nodes = list(mesh.elements.values()), list(mesh.nodes.values())
    store, other = (m.quads, m.plates) if kind == 'Quad' else (m.plates, m.quads)
    h.same(mesh.is_generated(), True, 'flagged as generated')
    h.same(all(store.get(k) is e and k not in other for k, e in mesh.elements.items()), True, 'elements are those of the model')
    h.same(all(m.nodes.get(k) is v for k, v in mesh.nodes.items()), True, 'nodes are those of the model')
    h.same(all(k == v.name for k, v in list(mesh.nodes.items()) + list(mesh.elements.items())), True, 'keys are names')
    used = {id(x) for e in els for x in corners(e)}
    h.same(used == {id(x) for x in nodes}, True, 'no orphans, no foreign nodes')
    h.same(all(len({id(x) for x in corners(e)}) == 4 for e in els), True, 'four different corners')
    h.same(all(e.type == kind and e.model is m for e in els), True, 'type and model')
    return els, nodes


def surface(els):
    """directed boundary edges of a consistently oriented surface, or None when it is not one"""
    edges = {}
    for e in els:
        c = corners(e)
        for k in range(4):
            a, b = c[k], c[(k + 1) % 4]
            if (id(a), id(b)) in edges:
                return None
            edges[id(a), id(b)] = (a, b)
    return [v for (a, b), v in edges.items() if (b, a) not in edges]


def ring(h, pts, r, n, label):
    """pts (cos part, sin part): exactly the corners of a regular n-gon of radius r starting on the axis of the angle"""
    from math import pi as fpi
    h.same(len(pts), n, label + ' number of nodes')
    for k in range(n):
        c, s = trig(h, k, n)
        h.cond(h.Or(*[h.And(h.near(x, r * c), h.near(y, r * s)) if not h.exact else h.And(h.near(x, r * c), h.near(y, r * s)) for x, y in pts]), label)


def trig(h, k, n):
    if h.exact:
        from engine import fakemath as M
    else:
        import math as M
    a = 2 * M.pi * k / n
    return M.cos(a), M.sin(a)


def annulus_checks(h, m, name, axis, o, r, R, n, z_of, mods, th, s, finer):
    els, nodes = bookkeeping(h, m, name, 'Quad')
    P = {id(nd): place(axis, o, nd) for nd in nodes}
    V = [P[id(nd)] for nd in nodes]
    levels = {}
    for nd in nodes:
        x, y, z = P[id(nd)]
        r2 = x * x + y * y
        h.le(r * r, r2, 'outside the inner radius')
        h.le(r2, R * R, 'inside the outer radius')
        z_of(r2, z)
    B = surface(els)
    h.same(B is not None, True, 'neighbouring elements run in the same sense')
    if B is None:
        return
    total = h.q(0)
    for e in els:
        c = [P[id(x)] for x in corners(e)]
        a = h.q(0)
        for k in range(4):
            p, q, t = c[k], c[(k + 1) % 4], c[(k + 2) % 4]
            h.lt(h.q(0), (q[0] - p[0]) * (t[1] - q[1]) - (q[1] - p[1]) * (t[0] - q[0]), 'convex and facing against the axis')
            a = a + p[0] * q[1] - p[1] * q[0]
        total = total + a / 2
        h.eq(e.t, th, 'thickness')
        h.eq(e.kx_mod, mods[0], 'kx_mod')
        h.eq(e.ky_mod, mods[1], 'ky_mod')
        # local y runs towards the axis
        for a, b in ((c[0], c[3]), (c[1], c[2])):
            h.lt(b[0] * b[0] + b[1] * b[1], a[0] * a[0] + a[1] * a[1], 'local y towards the centre')
    h.same(len(B), n + finer, 'closed ring, open only at the inner and outer radius')
    inner, outer = [], []
    for a, b in B:
        d = h.known(P[id(a)][0] ** 2 + P[id(a)][1] ** 2 < (r + R) * (r + R) / 4)
        (inner if d else outer).append(P[id(a)][:2])
    ring(h, inner, r, n, 'inner edge')
    ring(h, outer, R, finer, 'outer edge')

    def poly(rad, k):
        return rad * rad * trig(h, 1, k)[1] * k / 2
    h.eq(total, poly(R, finer) - poly(r, n), 'total area')
    for i, a in enumerate(V):
        for b in V[:i]:
            h.cond(h.Or(h.Not(h.near(a[0], b[0])), h.Not(h.near(a[1], b[1]))), 'distinct nodes')


def radii(h, n, rings):
    """inner radius, outer radius and mesh size with n elements around the inner edge and the given number of rings"""
    pi = trig_pi(h)
    s = h.pos('s')
    r = h.pos('r')
    h.assume(h.And(2 * pi * r >= n * s, 2 * pi * r < (n + 1) * s))
    R = h.pos('R')
    h.assume(h.And(R > r, R - r >= rings[0] * s, R - r < rings[1] * s))
    return s, r, R


def trig_pi(h):
    if h.exact:
        from engine import fakemath as M
    else:
        import math as M
    return M.pi


def flat(h):
    return lambda r2, z: h.eq(z, h.q(0), 'in the plane')


PLAIN = [{'axis': a, 'n': n, 'rings': k} for a, n, k in (('Y', 4, (0, 1)), ('X', 8, (1, 3)), ('Y', 6, (1, 2)), ('Z', 8, (2, 3)), ('X', 6, (0, 2)), ('Z', 4, (0, 2)))] + \
        [{'axis': 'Y', 'n': n, 'rings': (0, 3), '_tier': 'thorough'} for n in (3, 12, 24)]


@harness('G02', params=PLAIN, timeout=500)
def annulus(h, axis, n, rings):
    m = base(h)
    s, r, R = radii(h, n, rings)
    h.assume(2 * trig_pi(h) * R <= 3 * n * s)     # no transition
    o = [h.real('ox'), h.real('oy'), h.real('oz')]
    kx, ky, th = h.pos('kx'), h.pos('ky'), h.pos('th')
    nm = m.add_annulus_mesh('A', s, R, r, th, 'S', kx, ky, list(o), axis)
    m.meshes[nm].generate()
    annulus_checks(h, m, nm, axis, o, r, R, n, flat(h), (kx, ky), th, s, n)
    h.same(len(m.nodes) == len(m.meshes[nm].nodes) and len(m.quads) == len(m.meshes[nm].elements), True, 'nothing else in the model')


@harness('G02', params=[{'axis': a, 'frustum': f} for a in 'XYZ' for f in (False, True) if (a, f) != ('X', False)], timeout=600)
def transition(h, axis, frustum):
    """the outer rings are three times finer than the inner ones"""
    m = base(h)
    n = 4
    s = h.q('3/2')
    r = h.q(1)
    R = h.pos('R')
    h.assume(h.And(R >= 1 + 3 * s, R < 1 + 4 * s))
    o = [h.q(3), h.real('oy'), h.q(-1)]
    H = h.real('H')
    if frustum:
        nm = m.add_frustrum_mesh('A', s, R, r, H, h.q(1), 'S', origin=list(o), axis=axis)
    else:
        nm = m.add_annulus_mesh('A', s, R, r, h.q(1), 'S', origin=list(o), axis=axis)
    m.meshes[nm].generate()
    annulus_checks(h, m, nm, axis, o, r, R, n, cone(h, r, R, H) if frustum else flat(h), (h.q(1), h.q(1)), h.q(1), s, 3 * n)


def cone(h, r, R, H):
    # z = (rho - R)/(R - r) H with rho = sqrt(r2)
    def f(r2, z):
        h.eq((z * (R - r) + R * H) ** 2, r2 * H * H, 'on the cone')
        h.cond(h.leq(h.q(0), (z * (R - r) + R * H) * H), 'on the right half of the cone')
    return f


@harness('G02', params=[{'axis': a, 'n': n, 'rings': k} for a, n, k in (('X', 4, (1, 2)), ('Y', 6, (0, 2)), ('Z', 8, (2, 3)))], timeout=500)
def frustum(h, axis, n, rings):
    m = base(h)
    s, r, R = radii(h, n, rings)
    h.assume(2 * trig_pi(h) * R <= 3 * n * s)     # no transition
    H = h.real('H')
    o = [h.real('ox'), h.q(2), h.real('oz')]
    kx, ky, th = h.pos('kx'), h.pos('ky'), h.pos('th')
    nm = m.add_frustrum_mesh('A', s, R, r, H, th, 'S', kx, ky, list(o), axis, start_node='N11', start_element='Q6')
    m.meshes[nm].generate()
    h.same('N11' in m.nodes and 'Q6' in m.quads and 'N10' not in m.nodes and 'Q5' not in m.quads, True, 'first names as given')
    annulus_checks(h, m, nm, axis, o, r, R, n, cone(h, r, R, H), (kx, ky), th, s, n)


@harness('G02', params=[{'axis': a, 'n': n, 'courses': k, 'et': e} for a, n, k, e in
                        (('Y', 4, (0, 1), 'Quad'), ('X', 4, (1, 3), 'Rect'), ('Z', 6, (1, 2), 'Quad'), ('Y', 8, (2, 4), 'Rect'), ('X', 6, (2, 3), 'Quad'), ('Z', 4, (0, 2), 'Rect'))] +
         [{'axis': 'Y', 'n': n, 'courses': (0, 3), 'et': 'Quad', '_tier': 'thorough'} for n in (3, 12, 24)], timeout=500)
def cylinder(h, axis, n, courses, et):
    m = base(h)
    s, r, H = h.pos('s'), h.pos('r'), h.pos('H')
    h.assume(h.And(H >= courses[0] * s, H < courses[1] * s))
    pi = trig_pi(h)
    auto = n == 6
    o = [h.real('ox'), h.real('oy'), h.real('oz')]
    kx, ky, th = h.pos('kx'), h.pos('ky'), h.pos('th')
    nm = m.add_cylinder_mesh('A', s, r, H, th, 'S', kx, ky, list(o), axis, num_elements=n, element_type=et,
                             **(dict(start_node='N11', start_element=et[0].replace('P', 'R') + '6') if axis == 'X' else {}))
    mesh = m.meshes[nm]
    if not mesh.is_generated():
        mesh.generate()
    els, nodes = bookkeeping(h, m, nm, et)
    if axis == 'X':
        h.same('N11' in m.nodes and et[0] + '6' in mesh.elements, True, 'first names as given')
    h.same(len(nodes) % n == 0 and len(els) == len(nodes) - n, True, 'number of elements')
    rows = len(nodes) // n - 1
    h.cond(h.And(h.leq(rows * 0 + H / rows, 2 * s)), 'courses not taller than twice the mesh size')
    h.le(h.q(0), H - 0 * s, 'height')
    P = {id(nd): place(axis, o, nd) for nd in nodes}
    for k in range(n):
        c, sn = trig(h, k, n)
        for j in range(rows + 1):
            z = H * j / rows
            h.cond(h.Or(*[h.And(h.near(x, r * c), h.near(y, r * sn), h.near(t, z)) for x, y, t in P.values()]), 'a node at every grid point of the cylinder')
    V = list(P.values())
    B = surface(els)
    h.same(B is not None and len(B) == 2 * n, True, 'closed surface, open only at the top and the base')
    w2 = 2 * r * r * (1 - trig(h, 1, n)[0])
    for e in els:
        c = [P[id(x)] for x in corners(e)]
        h.eq(c[0][2], c[1][2], 'upper edge level')
        h.eq(c[2][2], c[3][2], 'lower edge level')
        h.eq(c[0][2] - c[3][2], H / rows, 'local y towards the base, one course high')
        h.alleq([c[0][0], c[0][1], c[1][0], c[1][1]], [c[3][0], c[3][1], c[2][0], c[2][1]], 'vertical sides')
        h.eq((c[1][0] - c[0][0]) ** 2 + (c[1][1] - c[0][1]) ** 2, w2, 'one division wide')
        h.lt(h.q(0), c[0][0] * c[1][1] - c[0][1] * c[1][0], 'local x with the angle, normal outward')
        h.eq(e.t, th, 'thickness')
        h.eq(e.kx_mod, kx, 'kx_mod')
        h.eq(e.ky_mod, ky, 'ky_mod')


@harness('G02', params=[{'axis': a} for a in 'XYZ'], timeout=300)
def divisions(h, axis):
    """the number of elements around follows the mesh size when it is not given"""
    m = base(h)
    s, r = h.pos('s'), h.q(1)
    pi = trig_pi(h)
    n = h.choice('n', [4, 6, 8])
    h.assume(h.And(2 * pi * r > (n - h.q('1/2')) * s, 2 * pi * r < (n + h.q('1/2')) * s))
    m.add_cylinder_mesh('A', s, r, s * h.q('3/2'), h.q(1), 'S', axis=axis)
    mesh = m.meshes['A']
    if not mesh.is_generated():
        mesh.generate()
    h.same(len(mesh.elements), n, 'elements around the circumference nearest to the mesh size')
