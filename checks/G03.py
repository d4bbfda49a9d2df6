"""Mesh generation never disturbs existing entities."""
from engine.harness import harness
from checks.models import *
from checks.G02 import corners

BOUNDS = ('All four kinds of meshes (up to 24 elements), with automatic and with given first names, added to a model with nodes, members, springs, '
          'plates, quads and other meshes whose names collide with some, all or none of the names the mesh asks for; symbolic coordinates, '
          'supports, loads and mesh dimensions; the results of the existing structure before and after.')

ATTRS = ('X', 'Y', 'Z', 'support_DX', 'support_DY', 'support_DZ', 'support_RX', 'support_RY', 'support_RZ', 'EnforcedDX', 'EnforcedDY', 'EnforcedDZ')


def existing(h, names, els):
    """a small structure using the given node and element names"""
    m = FE()
    m.add_material('S', h.q(200), h.q(80), h.q('0.25'), h.q('0.1'))
    n = list(names)
    xy = [(0, 0, 0), (2, 0, 0), (2, 1, 0), (0, 1, 0), (0, 0, 3), (2, 0, 3)]
    for k, (name, X) in enumerate(zip(n, xy)):
        m.add_node(name, h.real('x%d' % k) if k == 4 else h.q(X[0]), h.q(X[1]), h.real('z%d' % k) if k == 5 else h.q(X[2]))
    m.def_support(n[0], True, True, True, True, True, True)
    m.def_support(n[1], True, True, False, False, True, False)
    m.def_node_disp(n[1], 'DX', h.real('d'))
    m.def_support_spring(n[2], 'DY', h.pos('k'), None)
    m.add_node_load(n[3], 'FX', h.real('F'))
    m.add_quad(els[0], *n[:4], h.q('1/4'), 'S')
    m.add_plate(els[1], *n[:4], h.pos('t'), 'S')
    m.add_quad_surface_pressure(els[0], h.real('p'))
    m.add_member('M1', n[0], n[4], 'S', h.q(1), h.q(1), h.q(1), h.q(1))
    m.add_spring('S1', n[4], n[5], h.q(5))
    return m


def snapshot(m):
    out = []
    for d in (m.nodes, m.quads, m.plates, m.members, m.springs, m.meshes, m.materials):
        out += [(d, k, v) for k, v in d.items()]
    nodes = [(n, [getattr(n, a) for a in ATTRS] + [list(n.spring_DY), list(n.NodeLoads)]) for n in m.nodes.values()]
    ends = [(e, [getattr(e, a, None) for a in ('i_node', 'j_node', 'm_node', 'n_node')], list(getattr(e, 'pressures', []))) for d in (m.quads, m.plates, m.members, m.springs) for e in d.values()]
    names = [(v, v.name) for d in (m.nodes, m.quads, m.plates, m.members, m.springs) for v in d.values()]
    return out, nodes, ends, names


def unchanged(h, m, snap):
    out, nodes, ends, names = snap
    attr = {id(d): a for a, d in zip(('nodes', 'quads', 'plates', 'members', 'springs', 'meshes', 'materials'),
                                     (m.nodes, m.quads, m.plates, m.members, m.springs, m.meshes, m.materials))}
    for d, k, v in out:
        # dictionaries may have been replaced by new ones
        h.same(any(x.get(k) is v for x in (m.nodes, m.quads, m.plates, m.members, m.springs, m.meshes, m.materials)), True, 'still in the model under its name')
    for n, vals in nodes:
        for a, v in zip(ATTRS, vals):
            w = getattr(n, a)
            if v is None or isinstance(v, bool):
                h.same(w, v, 'node ' + a)
            else:
                h.eq(w, v, 'node ' + a)
        h.same(len(n.NodeLoads) == len(vals[-1]) and all(a is b for a, b in zip(n.NodeLoads, vals[-1])), True, 'nodal loads')
        h.same(all(a is b for a, b in zip(n.spring_DY, vals[-2])), True, 'support springs')
    for e, c, p in ends:
        h.same(all(getattr(e, a, None) is x for a, x in zip(('i_node', 'j_node', 'm_node', 'n_node'), c)), True, 'nodes of elements')
        h.same(len(getattr(e, 'pressures', [])), len(p), 'pressures')
    for v, n in names:
        h.same(v.name, n, 'names')


def add(h, m, kind, name, o, light=False, **kw):
    s, d = h.q(1), h.q('3/4') if light else h.pos('dim_' + name)
    if kind in ('Quad', 'Rect'):
        if not light:
            h.assume(d <= 2)
        return m.add_rectangle_mesh(name, s, d, h.q(2), h.q(1), 'S', origin=o, element_type=kind, **kw)
    if not light:
        h.assume(h.And(d >= h.q('1/4'), d < 2))
    if kind == 'annulus':
        return m.add_annulus_mesh(name, h.q('3/2'), 1 + d, h.q(1), h.q(1), 'S', origin=o, **kw)
    if kind == 'frustum':
        return m.add_frustrum_mesh(name, h.q('3/2'), 1 + d, h.q(1), h.q(2), h.q(1), 'S', origin=o, **kw)
    if kind == 'transition':
        return m.add_annulus_mesh(name, h.q('3/2'), h.q('11/2') + d / 4, h.q(1), h.q(1), 'S', origin=o, **kw)
    return m.add_cylinder_mesh(name, s, h.q(1), d, h.q(1), 'S', origin=o, num_elements=4, element_type='Rect' if kind == 'cylinder-rect' else 'Quad', **kw)


def disjoint(h, m, names):
    seen = set()
    for n in names:
        mesh = m.meshes[n]
        h.same(len(mesh.nodes) > 0 and len(mesh.elements) > 0, True, 'not empty')
        h.same(all(m.nodes.get(k) is v and v.name == k for k, v in mesh.nodes.items()), True, 'nodes of the mesh are in the model')
        h.same(all((m.quads.get(k) is e or m.plates.get(k) is e) and e.name == k for k, e in mesh.elements.items()), True, 'elements of the mesh are in the model')
        h.same(all(any(c is v for v in mesh.nodes.values()) for e in mesh.elements.values() for c in corners(e)), True, 'elements use the nodes of their mesh')
        ids = {id(v) for v in list(mesh.nodes.values()) + list(mesh.elements.values())}
        h.same(not (ids & seen), True, 'meshes do not share entities')
        seen |= ids
    return len(seen)


KINDS = ('Quad', 'Rect', 'annulus', 'transition', 'frustum', 'cylinder', 'cylinder-rect')
CLASH = {'none': (['A', 'B', 'C', 'D', 'E', 'F'], ['U', 'V']),
         'some': (['A', 'N8', 'N9', 'N12', 'E', 'N3'], ['Q3', 'R2']),
         'given': (['N1', 'N2', 'N3', 'N4', 'N5', 'N6'], ['Q1', 'R1']),
         'gaps': (['N7', 'N9', 'N11', 'N13', 'N15', 'N17'], ['Q2', 'R2'])}


@harness('G03', params=[{'kind': k, 'clash': c} for k in KINDS for c in CLASH], timeout=300)
def keep(h, kind, clash):
    m = existing(h, *CLASH[clash])
    snap = snapshot(m)
    kw = dict(start_node='N2', start_element=('R' if kind in ('Rect', 'cylinder-rect') else 'Q') + '1') if clash == 'given' else {}
    before = (len(m.nodes), len(m.quads) + len(m.plates))
    n1 = add(h, m, kind, 'A', [h.q(0), h.real('oy'), h.q(9)], **kw)
    for n in [n1]:
        if not m.meshes[n].is_generated():
            m.meshes[n].generate()
    unchanged(h, m, snap)
    c = disjoint(h, m, [n1])
    h.same(len(m.nodes) + len(m.quads) + len(m.plates) - sum(before), c, 'only the entities of the mesh were added')


@harness('G03', params=[{'kinds': k} for k in (('annulus', 'Quad'), ('Rect', 'cylinder-rect'), ('cylinder', 'cylinder'), ('frustum', 'cylinder'), ('Quad', 'Rect'), ('Quad', 'annulus'))], timeout=300)
def two(h, kinds):
    """two meshes, both added before either is generated, the second one with the names of the first"""
    m = existing(h, *CLASH['none'])
    snap = snapshot(m)
    a = add(h, m, kinds[0], 'A', [h.q(0), h.real('oy'), h.q(9)])
    b = add(h, m, kinds[1], 'B', [h.q(0), h.q(5), h.real('oz')])
    for n in (b, a):
        if not m.meshes[n].is_generated():
            m.meshes[n].generate()
    unchanged(h, m, snap)
    c = disjoint(h, m, [a, b])
    h.same(len(m.nodes) + len(m.quads) + len(m.plates) - 8, c, 'only the entities of the meshes were added')
    # generating once more replaces one mesh and leaves everything else alone
    m.meshes[b].generate()
    unchanged(h, m, snap)
    h.same(disjoint(h, m, [a, b]), c, 'generated again')
    h.same(len(m.nodes) + len(m.quads) + len(m.plates) - 8, c, 'only the entities of the meshes are there')


@harness('G03', params=[{'kind': k} for k in ('Quad', 'Rect', 'cylinder')], timeout=300)
def results(h, kind):
    """the results of an existing structure do not change when a mesh (on its own supports) is added and generated by the analysis"""
    d = portal(h)
    P = [h.real('P1'), h.real('P2')]
    d.load('B', 'FX', P[0])
    d.mload('M2', ('dist', 'FY', P[1], h.q(1), h.q(0), h.q(3)))
    m = d.m
    m.rename()
    m.analyze_linear()
    names = list(m.nodes)
    ref = [[getattr(m.nodes[n], a)['Combo 1'] for a in ('DX', 'DY', 'RZ', 'RxnFX', 'RxnFY', 'RxnMZ')] for n in names]
    a = add(h, m, kind, 'A', [h.q(0), h.q(0), h.q(50)], light=True)
    if not m.meshes[a].is_generated():
        m.meshes[a].generate()
    for n in m.meshes[a].nodes:
        m.def_support(n, True, True, True, True, True, True)
    m.analyze_linear()
    for n, r in zip(names, ref):
        h.alleq([getattr(m.nodes[n], q)['Combo 1'] for q in ('DX', 'DY', 'RZ', 'RxnFX', 'RxnFY', 'RxnMZ')], r, 'results of the structure')
