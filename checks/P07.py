"""Mesh extremes are the extremes of their elements."""
from engine.harness import harness
from checks.models import *

BOUNDS = ('Meshes of two elements (thorough: three, and a ring of three), rectangles and quadrilaterals, in two combinations with a symbolic pressure; maxima and minima of every shear and moment component in local and global '
          'directions, over one combination and over all, against the values the elements report at their corners and centres.')
ASSUMPTIONS = ('The extremes are taken at corners and centres of the elements, as documented.',)

COMP = {'Qx': ('shear', 0, True), 'Qy': ('shear', 1, True), 'QX': ('shear', 0, False), 'QY': ('shear', 1, False),
        'Mx': ('moment', 0, True), 'My': ('moment', 1, True), 'Mxy': ('moment', 2, True), 'MX': ('moment', 0, False), 'MY': ('moment', 1, False)}


def mesh(h, et, n=2, plane='XY', combos=('U', 'U2'), ring=False):
    m = FE()
    q = h.q
    m.add_material('S', q(200), q(80), q('0.25'), q('0.1'))
    if ring:
        m.add_annulus_mesh('A', q(1), q(2), q(1), q('1/4'), 'S')
    else:
        m.add_rectangle_mesh('A', q(1), q(n), q('3/4'), q('1/4'), 'S', element_type=et, plane=plane)
        # a second, differently loaded mesh that must not be looked at
        m.add_rectangle_mesh('B', q(1), q(1), q(1), q('1/8'), 'S', element_type=et, plane=plane, origin=[q(20), q(20), q(20)])
    for x in list(m.meshes.values()):
        if not x.is_generated():
            x.generate()
    A = m.meshes['A']
    N = list(A.nodes.values())
    fixed = N[:3] if ring else [k for k in N if h.near(k.Z if plane == 'YZ' else k.X, q(0))]
    for k in fixed:
        m.def_support(k.name, True, True, True, True, True, True)
    if 'B' in m.meshes:
        for k in list(m.meshes['B'].nodes)[:2]:
            m.def_support(k, True, True, True, True, True, True)
        for e in m.meshes['B'].elements:
            (m.add_quad_surface_pressure if et == 'Quad' else m.add_plate_surface_pressure)(e, q(999), 'D')
    free = [k for k in N if k not in fixed]
    out = {'XY': 'FZ', 'YZ': 'FX', 'XZ': 'FY'}[plane] if not ring else 'FY'
    for e in A.elements:
        (m.add_quad_surface_pressure if e in m.quads else m.add_plate_surface_pressure)(e, h.real('p'), 'D')
    m.add_node_load(free[0].name, out, q(3), 'L')
    m.add_node_load(free[-1].name, out, q(-1), 'L')
    for c in combos:
        m.add_load_combo(c, {'U': {'D': 1}, 'U2': {'D': q('1/2'), 'L': 1}}[c])
    return m, A


def values(h, A, name, combos):
    f, i, local = COMP[name]
    out = []
    for e in A.elements.values():
        pts = [(-1, -1), (1, -1), (1, 1), (-1, 1), (0, 0)] if e.type == 'Quad' else \
            [(h.q(0), h.q(0)), (e.width(), h.q(0)), (e.width(), e.height()), (h.q(0), e.height()), (e.width() / 2, e.height() / 2)]
        for c in combos:
            out += [getattr(e, f)(h.q(x) if isinstance(x, int) else x, h.q(y) if isinstance(y, int) else y, local, c)[i, 0] for x, y in pts]
    return out


@harness('P07', params=[{'et': e, 'name': n, 'plane': p} for e in ('Quad', 'Rect') for n, p in
                        (('Qx', 'XY'), ('Qy', 'XY'), ('QX', 'XZ'), ('QY', 'XZ'), ('Mx', 'XY'), ('My', 'XZ'), ('Mxy', 'YZ'), ('MX', 'XY'), ('MY', 'YZ'))] +
         [{'et': 'Quad', 'name': n, 'plane': 'XY', 'n': 3, '_tier': 'thorough'} for n in COMP] +
         [{'et': 'Quad', 'name': n, 'plane': 'XY', 'ring': True, '_tier': 'thorough'} for n in COMP], timeout=400)
def extremes(h, et, name, plane, n=2, ring=False):
    m, A = mesh(h, et, n, plane, ring=ring)
    m.analyze_linear()
    kind = COMP[name][0]
    for combo in ('U', 'U2', None):
        v = values(h, A, name, ('U', 'U2') if combo is None else (combo,))
        for f, sign in (('max_', 1), ('min_', -1)):
            r = getattr(A, f + kind)(name, combo)
            for w in v:
                h.le(sign * w, sign * r, f + kind)
            h.true(h.Or(*[h.near(w, r) for w in v]), f + kind + ' is attained')


@harness('P07', timeout=100)
def invalid(h):
    """unknown directions are refused"""
    m, A = mesh(h, 'Quad')
    m.analyze_linear()
    for f in ('max_shear', 'min_shear'):
        for d in ('Mx', 'Qz', 'Q', '', 'X'):
            h.raises(lambda: getattr(A, f)(d, 'U'), (Exception,), f + ' ' + d)
    for f in ('max_moment', 'min_moment'):
        for d in ('Qx', 'Mz', 'M', '', 'X'):
            h.raises(lambda: getattr(A, f)(d, 'U'), (Exception,), f + ' ' + d)
