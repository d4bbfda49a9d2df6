"""Deleting an entity leaves no trace and breaks nothing else."""
from engine.harness import harness
from checks.models import *
from checks.A03 import results

BOUNDS = ('Portal frame with braces, springs, plates and quads and auxiliary nodes, before or after an analysis; one or two entities chosen by the solver are added and '
          'deleted again (nodes with all kinds of elements attached); structure, orphaned nodes and results against the model without them; symbolic loads and stiffnesses.')
ASSUMPTIONS = ('Plates, quads and meshes have no delete method of their own; they are deleted with their nodes.',)

STORES = ('nodes', 'aux_nodes', 'materials', 'springs', 'members', 'plates', 'quads', 'meshes', 'load_combos')
ENDS = ('i_node', 'j_node', 'm_node', 'n_node')


def base(h):
    d = portal(h)
    d.load('B', 'FX', h.real('F'))
    d.load('C', 'FZ', h.real('Fz'), 'L')
    d.mload('M2', ('dist', 'FY', h.real('w1'), h.real('w2'), h.q(1), h.q(3)))
    d.spring('S1', 'A', 'C', h.q(10))
    d.m.add_load_combo('U', {'Case 1': 1, 'L': h.q('3/2')})
    return d


def state(m):
    return {s: [(k, id(v)) for k, v in getattr(m, s).items()] for s in STORES}


def attached(h, m, n, what):
    """something new at a new node n"""
    q = h.q
    m.add_node(n, q(2), q(5), h.real('nz', lo=1, hi=9))
    m.add_node(n + 'x', q(2), q(5), q(-3))
    if what == 'member':
        m.add_member('E1', 'B', n, 'S', q(1), q(1), q(1), q(1))
        m.add_member('E2', n, 'C', 'S', q(1), q(1), q(1), q(1))
        m.add_member_dist_load('E1', 'FY', h.real('we'), q(1), q(0), q(1), 'new')
    elif what == 'spring':
        m.add_spring('E1', 'B', n, h.pos('ke'))
        m.add_spring('E2', n, 'C', q(1), comp_only=True)
    elif what in ('plate', 'quad'):
        for k in range(4):
            c = ['A', 'B', 'C']
            c.insert(k, n)
            (m.add_plate if what == 'plate' else m.add_quad)('E%d' % k, *c, q(1), 'S')
        (m.add_plate_surface_pressure if what == 'plate' else m.add_quad_surface_pressure)('E1', h.real('pe'), 'new')
    m.add_node_load(n, 'FX', h.real('ne'), 'new2')
    m.def_support(n, True, False, True, False, False, False)
    m.def_support_spring(n, 'DY', q(3), '+')
    m.def_node_disp(n, 'DX', h.real('ue'))
    m.delete_node(n + 'x')


def check_refs(h, m):
    nodes = {id(v) for v in m.nodes.values()}
    for s in ('springs', 'members', 'plates', 'quads'):
        for k, e in getattr(m, s).items():
            h.same(e.name, k, 'names')
            h.same(all(id(getattr(e, a)) in nodes for a in ENDS if getattr(e, a, None) is not None), True, 'elements end at nodes of the model')
    for x in m.meshes.values():
        h.same(all(m.nodes.get(k) is v for k, v in x.nodes.items()), True, 'mesh nodes')
        h.same(all(m.quads.get(k) is v or m.plates.get(k) is v for k, v in x.elements.items()), True, 'mesh elements')


@harness('E03', params=[{'what': w, 'when': t} for w in ('none', 'member', 'spring', 'plate', 'quad') for t in ('fresh', 'analysed')], timeout=300)
def node(h, what, when):
    d = base(h)
    m = d.m
    before, cases = state(m), list(m.load_cases)
    if when == 'analysed':
        m.analyze_linear()
    attached(h, m, 'n', what)
    m.delete_node('n')
    h.same(state(m), before, 'all entities as before')
    h.same(list(m.load_cases), cases, 'load cases')
    h.same(m.solution, None, 'unsolved')
    h.same(m.orphaned_nodes(), [], 'no orphans')
    check_refs(h, m)
    m.analyze_linear()
    e = base(h)
    e.m.analyze_linear()
    for n in ('U',):
        for (l, u), (_, v) in zip(results(h, d, n, h.q('3/2')), results(h, e, n, h.q('3/2'))):
            h.eq(u, v, l)


@harness('E03', params=[{'what': w, 'how': a} for w in ('member', 'spring', 'auxnode', 'two', 'node') for a in ('gen', 'lin-d', 'gen-d')] +
         [{'what': w, 'how': 'pd', '_tier': 'thorough'} for w in ('member', 'spring', 'auxnode', 'two', 'node')], timeout=400)
def results_without(h, what, how):
    """model with an entity, analysed, entity deleted, analysed again = the model without it"""
    out = []
    for hist in (True, False):
        d = base(h) if how != 'pd' else portal(h)
        m = d.m
        if how == 'pd':
            d.load('B', 'FY', h.q(-5))
            d.load('C', 'FZ', h.real('Fz'), 'L')
            m.add_load_combo('U', {'Case 1': 1, 'L': h.q('3/2')})
        if what == 'auxnode':
            if hist:
                m.add_auxnode('X', h.q(1), h.q(2), h.q(9))
            m.add_node('K', h.q(0), h.q(3), h.q(4))
            m.def_support('K', True, True, True, True, True, True)
            m.add_member('MK', 'B', 'K', 'S', h.q(1), h.q(2), h.q(1), h.q(1), **({'aux_node': 'X'} if hist else {}))
        if hist:
            if what in ('member', 'two'):
                m.add_member('E1', 'A', 'C', 'S', h.q(1), h.q(1), h.q(1), h.q(1))
                m.add_member_dist_load('E1', 'FY', h.q(3), h.q(2), h.q(0), h.q(1))
                m.def_releases('E1', Rzi=True)
            if what in ('spring', 'two'):
                m.add_spring('E2', 'B', 'D', h.pos('ke'))
            if what == 'node':
                m.add_node('n', h.q(2), h.q(3), h.q(0))        # in the middle of a member: splits it
                m.add_node_load('n', 'FY', h.q(-4))
            run(m, how)
            results(h, d, 'U', h.q('3/2'), False)
            if what in ('member', 'two'):
                m.delete_member('E1')
            if what in ('spring', 'two'):
                m.delete_spring('E2')
            if what == 'auxnode':
                m.delete_auxnode('X')
            if what == 'node':
                m.delete_node('n')
            h.same(m.solution, None, 'unsolved')
            check_refs(h, m)
        run(m, how)
        out.append((d, list(m.nodes), list(m.members), list(m.springs), list(m.aux_nodes)))
    h.same(out[0][1:], out[1][1:], 'entities')
    for (l, u), (_, v) in zip(results(h, out[0][0], 'U', h.q('3/2'), how != 'pd'), results(h, out[1][0], 'U', h.q('3/2'), how != 'pd')):
        h.eq(u, v, l)


@harness('E03', timeout=200)
def only_that(h):
    """deleting any one entity of a model with all kinds removes exactly it and what hangs on it"""
    m = FE()
    q = h.q
    m.add_material('S', q(200), q(80), q('0.3'), q(1))
    names = ['n%d' % k for k in range(6)]
    for k, n in enumerate(names):
        m.add_node(n, h.real('x%d' % k), q(k), q(k * k))
    m.add_auxnode('n0', q(9), q(9), q(9))
    m.add_auxnode('a1', q(9), q(9), q(8))
    el = {}
    for k, (a, b) in enumerate((('n0', 'n1'), ('n1', 'n2'), ('n3', 'n0'))):
        m.add_member('e%d' % k, a, b, 'S', q(1), q(1), q(1), q(1), aux_node=('n0', 'a1', None)[k])
        m.add_spring('e%d' % k, b, a, q(1))
        el['members', 'e%d' % k] = el['springs', 'e%d' % k] = (a, b)
    for k in range(4):
        c = [names[(k + j) % 5] for j in range(4)]
        m.add_plate('e%d' % k, *c, q(1), 'S')
        m.add_quad('e%d' % k, *c[::-1], q(1), 'S')
        el['plates', 'e%d' % k] = el['quads', 'e%d' % k] = tuple(c)
    aux = {'e0': 'n0', 'e1': 'a1', 'e2': None}
    for step in range(2):
        kind, n = h.choice('victim%d' % step, [('nodes', x) for x in names] + [('members', 'e0'), ('members', 'e2'), ('springs', 'e1'), ('springs', 'e2'), ('aux_nodes', 'n0'), ('aux_nodes', 'a1')])
        if n not in getattr(m, kind):
            return
        before = {s: dict(getattr(m, s)) for s in STORES}
        {'nodes': m.delete_node, 'members': m.delete_member, 'springs': m.delete_spring, 'aux_nodes': m.delete_auxnode}[kind](n)
        for s in STORES:
            gone = {k for k in before[s] if (s, k) == (kind, n) or (kind == 'nodes' and n in el.get((s, k), ()))}
            h.same(list(getattr(m, s).items()), [(k, v) for k, v in before[s].items() if k not in gone], 'what remains: ' + s)
        if kind == 'aux_nodes':
            for k in aux:
                if aux[k] == n:
                    aux[k] = None
        for k, x in m.members.items():
            h.same(x.auxNode, None if aux[k] is None else m.aux_nodes[aux[k]], 'auxiliary node of a member')
        check_refs(h, m)
        left = {c for (s, k), v in el.items() if k in getattr(m, s) for c in v}
        h.same(sorted(m.orphaned_nodes()), sorted(x for x in m.nodes if x not in left), 'orphaned nodes')


@harness('E03', params=[{'et': e} for e in ('Quad', 'Rect', 'annulus', 'cylinder')], timeout=200)
def mesh_node(h, et):
    """deleting a node of a mesh leaves the rest of the mesh"""
    m = FE()
    q = h.q
    m.add_material('S', q(200), q(80), q('0.3'), q(1))
    w = h.pos('w', hi=1)
    if et in ('Quad', 'Rect'):
        m.add_rectangle_mesh('A', q(1), 2 * w, q(2), q(1), 'S', element_type=et)
        m.add_rectangle_mesh('B', q(1), w, q(1), q(1), 'S', element_type=et, origin=[q(9), q(9), q(9)])
    elif et == 'annulus':
        m.add_annulus_mesh('A', q(1), 1 + w, q('1/2'), q(1), 'S')
        m.add_annulus_mesh('B', q(1), 1 + w, q('1/2'), q(1), 'S', origin=[q(9), q(9), q(9)])
    else:
        m.add_cylinder_mesh('A', q(1), q(1), w, q(1), 'S', num_elements=4)
    for x in list(m.meshes.values()):
        if not x.is_generated():
            x.generate()
    names = list(m.meshes['A'].nodes)
    n = h.choice('node', names[:6])
    els = [k for s in (m.quads, m.plates) for k, e in s.items() if n in [getattr(e, a).name for a in ENDS]]
    before = {k: (set(x.nodes), set(x.elements)) for k, x in m.meshes.items()}
    every = set(m.quads) | set(m.plates)
    m.delete_node(n)
    h.same((set(m.quads) | set(m.plates)), every - set(els), 'elements of the model')
    for k, x in m.meshes.items():
        h.same(set(x.nodes), before[k][0] - {n}, 'nodes of the mesh')
        h.same(set(x.elements), before[k][1] - set(els), 'elements of the mesh')
    check_refs(h, m)
    h.same(sorted(m.orphaned_nodes()), sorted(c for c in m.nodes if not any(c in [getattr(e, a).name for a in ENDS] for s in (m.quads, m.plates) for e in s.values())), 'orphaned nodes')


@harness('E03', params=[{'how': a} for a in ('gen', 'lin')], timeout=300)
def all_loads(h, how):
    """delete_loads: as if no load had been applied"""
    out = []
    for hist in (True, False):
        d = portal(h)
        m = d.m
        d.spring('S1', 'A', 'C', h.q(10))
        m.add_load_combo('U', {'Case 1': 1, 'L': h.q('3/2')})
        m.add_node('p', 0, 0, h.q(3))
        m.add_node('r', 0, h.q(3), h.q(3))
        for n in 'pr':
            m.def_support(n, True, True, True, True, True, True)
        m.add_quad('q', 'A', 'B', 'r', 'p', h.q(1), 'S')
        if hist:
            d.load('B', 'FX', h.real('F'))
            d.load('C', 'FZ', h.real('Fz'), 'L')
            d.mload('M2', ('dist', 'FY', h.real('w1'), h.real('w2'), h.q(1), h.q(3)))
            d.mload('M1', ('pt', 'FX', h.real('p'), h.q(1)), 'L')
            m.add_quad_surface_pressure('q', h.q(3), 'L')
            run(m, how)
            results(h, d, 'U', h.q('3/2'), False)
            m.delete_loads()
            h.same(m.solution, None, 'unsolved')
            h.same(list(m.load_cases), [], 'no load cases')
            h.same([len(n.NodeLoads) for n in m.nodes.values()] + [len(x.PtLoads) + len(x.DistLoads) for x in m.members.values()] + [len(m.quads['q'].pressures)], [0] * 10, 'no loads')
            for a in DOFS:
                h.same([getattr(n, a) for n in m.nodes.values()], [{}] * 6, 'no displacements')
            for a in FDIR:
                h.same([getattr(n, 'Rxn' + a) for n in m.nodes.values()], [{}] * 6, 'no reactions')
        d.load('B', 'FY', h.real('new'))
        run(m, how)
        out.append(d)
    for (l, u), (_, v) in zip(results(h, out[0], 'U', h.q('3/2')), results(h, out[1], 'U', h.q('3/2'))):
        h.eq(u, v, l)
