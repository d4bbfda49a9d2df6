"""Renaming keeps all entities."""
from engine.harness import harness
from checks.models import *
from checks.A03 import results

BOUNDS = ('Portal frame with springs, auxiliary node, plate and quad, and all kinds of meshes, under names that are new, permuted, partly or already the ones rename uses; renaming '
          'before, after and between analyses and additions; symbolic loads, stiffnesses and mesh sizes.')

STORES = {'nodes': 'N', 'springs': 'S', 'members': 'M', 'plates': 'P', 'quads': 'Q'}
REST = ('aux_nodes', 'materials', 'sections', 'load_combos', 'meshes')
ENDS = ('i_node', 'j_node', 'm_node', 'n_node')
NAMES = {'letters': ['b', 'a', 'x y', '1'], 'reversed': ['%s4', '%s3', '%s2', '%s1'], 'shifted': ['%s2', '%s3', '%s4', '%s5'],
         'gaps': ['%s10', '%s2', '%s7', 'z'], 'already': ['%s1', '%s2', '%s3', '%s4'], 'crossed': ['M1', 'Q1', 'S1', 'N1']}


def build(h, how):
    names = {p: [x % p if '%' in x else x for x in NAMES[how]] for p in 'NSMPQ'}
    d = Desc(h)
    d.mat('S', h.q(1000), h.q(400))
    N = names['N']
    for n, X in zip(N, ((0, 0, 0), (0, 3, 0), (4, 3, 0), (4, 0, 0))):
        d.node(n, *X)
    m = d.m
    m.add_auxnode('N1', h.q(2), h.q(9), h.q(7))
    d.member(names['M'][0], N[0], N[1], kind='up')
    d.member(names['M'][1], N[1], N[2], aux_node='N1')
    d.member(names['M'][2], N[2], N[3], kind='down', A=3, Iy=2, Iz=1, J=1)
    d.support(N[0])
    d.support(N[3], 'XYZ')
    d.spring(names['S'][0], N[0], N[2], h.pos('k'))
    d.spring(names['S'][1], N[1], N[3], h.q(2))
    d.load(N[1], 'FX', h.real('F'))
    d.load(N[2], 'FZ', h.real('Fz'), 'L')
    d.mload(names['M'][1], ('dist', 'FY', h.real('w1'), h.q(2), h.q(1), h.q(3)))
    m.add_load_combo('M1', {'Case 1': 1, 'L': h.q('3/2')})
    for k in range(2):
        m.add_plate(names['P'][k], *N, h.q(1), 'S')
        m.add_quad(names['Q'][k], *N, h.q(1), 'S')
    return d


def snapshot(m):
    s = {k: list(getattr(m, k).values()) for k in STORES}
    s['rest'] = [(k, list(getattr(m, k).items())) for k in REST]
    s['ends'] = [[getattr(e, a, None) for a in ENDS] for k in STORES if k != 'nodes' for e in getattr(m, k).values()]
    s['mesh'] = [(list(x.nodes.values()), list(x.elements.values())) for x in m.meshes.values()]
    return s


def check(h, m, s):
    for k, p in STORES.items():
        d = getattr(m, k)
        v = list(d.values())
        h.same(len(v) == len(s[k]) and all(a is b for a, b in zip(v, s[k])), True, 'same entities in the same order: ' + k)
        h.same([x.name for x in v], list(d), 'keyed by their own names: ' + k)
        h.same(list(d), ['%s%d' % (p, j + 1) for j in range(len(v))], 'numbered from one: ' + k)
    h.same([(k, list(getattr(m, k).items())) for k in REST], s['rest'], 'everything else')
    now = [[getattr(e, a, None) for a in ENDS] for k in STORES if k != 'nodes' for e in getattr(m, k).values()]
    h.same(all(a is b for x, y in zip(now, s['ends']) for a, b in zip(x, y)), True, 'ends of elements')
    for x, (n, e) in zip(m.meshes.values(), s['mesh']):
        h.same([v for v in x.nodes.values()] == n and [v for v in x.elements.values()] == e, True, 'meshes have the same nodes and elements')
        h.same(all(m.nodes.get(k) is v for k, v in x.nodes.items()), True, 'keys of mesh nodes')
        h.same(all(m.quads.get(k) is v or m.plates.get(k) is v for k, v in x.elements.items()), True, 'keys of mesh elements')


def res(h, d, nodes, mem):
    out = []
    for n in nodes:
        for k in range(6):
            out.append(getattr(n, DOFS[k])['M1'])
            out.append(getattr(n, 'Rxn' + FDIR[k])['M1'])
    for M in mem:
        out += h.col(M.f('M1'))
        out += [v for _, v in sorted(point_results(M, h.q('3/2'), 'M1').items())]
        out += [M.deflection(k, h.q('3/2'), 'M1') for k in ('dx', 'dy', 'dz')]
    return out


@harness('E04', params=[{'how': k, 'when': w} for k in NAMES for w in ('before', 'after', 'twice')], timeout=300)
def frame(h, how, when):
    d = build(h, how)
    m = d.m
    for e in list(m.plates) + list(m.quads):
        (m.plates if e in m.plates else m.quads).pop(e, None)
    ref = build(h, 'already')
    for e in list(ref.m.plates):
        ref.m.plates.pop(e)
    for e in list(ref.m.quads):
        ref.m.quads.pop(e)
    for e in list(m.plates):
        m.plates.pop(e)
    for e in list(m.quads):
        m.quads.pop(e)
    ref.m.analyze()
    nodes, mem = list(m.nodes.values()), list(m.members.values())
    want = res(h, ref, list(ref.m.nodes.values()), list(ref.m.members.values()))
    s = snapshot(m)
    if when != 'before':
        m.analyze()
    m.rename()
    check(h, m, s)
    if when == 'after':
        h.alleq(res(h, d, nodes, mem), want, 'results stay available')
        n = m.add_node(None, h.q(9), h.q(9), h.q(9))
        h.same(m.nodes[n].name == n and len(m.nodes) == 5, True, 'another node')
        m.delete_node(n)
    if when == 'twice':
        m.rename()
        check(h, m, s)
    m.analyze()
    h.alleq(res(h, d, nodes, mem), want, 'results')
    h.alleq(res(h, d, list(m.nodes.values()), list(m.members.values())), want, 'results by new names')


@harness('E04', params=[{'how': k} for k in NAMES], timeout=200)
def entities(h, how):
    d = build(h, how)
    s = snapshot(d.m)
    d.m.rename()
    check(h, d.m, s)
    d.m.rename()
    check(h, d.m, s)


@harness('E04', params=[{'kind': k, 'gen': g} for k in ('Quad', 'Rect', 'annulus', 'frustum', 'cylinder') for g in (True, False)], timeout=300)
def meshes(h, kind, gen):
    """rename with meshes generated before (or after) it"""
    d = build(h, 'gaps')
    m = d.m
    q = h.q
    w = h.pos('w', hi=1)
    o = [q(0), q(20), q(0)]
    if kind in ('Quad', 'Rect'):
        m.add_rectangle_mesh('A', q(1), 2 * w, q(2), q(1), 'S', element_type=kind, origin=o)
        m.add_rectangle_mesh('Q1', q(1), w, q(1), q(1), 'S', element_type='Quad', origin=o)
    elif kind == 'annulus':
        m.add_annulus_mesh('A', q(1), 1 + w, q(1), q(1), 'S', origin=o)
    elif kind == 'frustum':
        m.add_frustrum_mesh('A', q(1), 1 + w, q(1), q(2), q(1), 'S', origin=o)
    else:
        m.add_cylinder_mesh('A', q(1), q(1), w, q(1), 'S', num_elements=4, origin=o)
    todo = [x for x in m.meshes.values() if not x.is_generated()]
    if gen:
        for x in todo:
            x.generate()
    s = snapshot(m)
    m.rename()
    check(h, m, s)
    if not gen:
        kept = {k: list(getattr(m, k).items()) for k in STORES}
        for x in todo:
            x.generate()
        for k in STORES:
            h.same(list(getattr(m, k).items())[:len(kept[k])], kept[k], 'generating keeps the renamed entities')
        s = snapshot(m)
        m.rename()
        check(h, m, s)
