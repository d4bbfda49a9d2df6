"""Names are unique and unknown references are rejected."""
from engine.harness import harness
from checks.models import *

BOUNDS = ('Sequences of up to four (thorough: five) additions of every kind of entity, each under a name chosen by the solver from a pool of colliding names or '
          'automatic; deletions in between; every method that takes a name of another entity, with every such name missing in turn; symbolic coordinates.')
ASSUMPTIONS = ('Load combinations may be redefined under their own name, as the method does not refuse it.',)


def base(h):
    m = FE()
    m.add_material('S', h.q(200), h.q(80), h.q('0.3'), h.q(1))
    for k, X in enumerate(((0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0))):
        m.add_node('n%d' % k, *[h.q(c) for c in X])
    m.add_auxnode('a1', h.q(5), h.q(5), h.q(5))
    m.add_member('m1', 'n0', 'n1', 'S', h.q(1), h.q(1), h.q(1), h.q(1))
    m.add_plate('p1', 'n0', 'n1', 'n2', 'n3', h.q(1), 'S')
    m.add_quad('q1', 'n0', 'n1', 'n2', 'n3', h.q(1), 'S')
    m.add_spring('s1', 'n0', 'n1', h.q(3))
    return m


STORES = ('nodes', 'aux_nodes', 'materials', 'sections', 'springs', 'members', 'plates', 'quads', 'meshes', 'load_combos')
ND = ('support_DX', 'support_DY', 'support_DZ', 'support_RX', 'support_RY', 'support_RZ', 'spring_DX', 'spring_DY', 'spring_DZ', 'spring_RX', 'spring_RY',
      'spring_RZ', 'EnforcedDX', 'EnforcedDY', 'EnforcedDZ', 'EnforcedRX', 'EnforcedRY', 'EnforcedRZ')


def snapshot(m):
    s = {k: [(n, id(v)) for n, v in getattr(m, k).items()] for k in STORES}
    s['loads'] = [(n.name, [tuple(id(x) for x in l) for l in n.NodeLoads]) for n in m.nodes.values()]
    s['nd'] = [[repr(getattr(n, a)) for a in ND] for n in m.nodes.values()]
    s['ml'] = [(x.name, len(x.PtLoads), len(x.DistLoads), list(x.Releases)) for x in m.members.values()]
    s['pr'] = [(x.name, len(x.pressures)) for x in list(m.plates.values()) + list(m.quads.values())]
    return s


def adders(h):
    """kind -> (store, prefix of automatic names, function adding one under a name, returns the name or None)"""
    q = h.q

    def section(m, n):
        from PyNite.Section import Section
        m.add_section(n, Section(m, n, q(1), q(1), q(1), q(1), 'S'))
    return {
        'node': ('nodes', lambda m, n: m.add_node(n, h.real('nx'), q(2), q(3))),
        'auxnode': ('aux_nodes', lambda m, n: m.add_auxnode(n, q(1), h.real('ay'), q(3))),
        'material': ('materials', lambda m, n: m.add_material(n, h.pos('E'), q(1), q('0.3'), q(1))),
        'section': ('sections', section),
        'spring': ('springs', lambda m, n: m.add_spring(n, 'n0', 'n2', h.pos('ks'))),
        'member': ('members', lambda m, n: m.add_member(n, 'n0', 'n2', 'S', h.pos('Iy'), q(1), q(1), q(1))),
        'plate': ('plates', lambda m, n: m.add_plate(n, 'n0', 'n1', 'n2', 'n3', h.pos('t'), 'S')),
        'quad': ('quads', lambda m, n: m.add_quad(n, 'n0', 'n1', 'n2', 'n3', h.pos('t'), 'S')),
        'rectangle': ('meshes', lambda m, n: m.add_rectangle_mesh(n, q(1), h.pos('w'), q(1), q(1), 'S')),
        'annulus': ('meshes', lambda m, n: m.add_annulus_mesh(n, q(1), q(3), q(1), q(1), 'S')),
        'frustum': ('meshes', lambda m, n: m.add_frustrum_mesh(n, q(1), q(3), q(1), h.pos('H'), q(1), 'S')),
        'cylinder': ('meshes', lambda m, n: m.add_cylinder_mesh(n, q(1), q(1), q(1), q(1), 'S', num_elements=4)),
    }


# names automatic numbering could come to, and others
POOL = {'node': 'N0 N1 N4 N5 N6 N7', 'auxnode': 'AN0 AN1 AN2 AN3 AN4', 'material': 'M0 M1 M2 M3 M4', 'section': 'a b', 'spring': 'S0 S1 S2 S3 S4', 'member': 'M0 M1 M2 M3 M4',
        'plate': 'P0 P1 P2 P3 P4', 'quad': 'Q0 Q1 Q2 Q3 Q4', 'rectangle': 'MSH0 MSH1 MSH2 MSH3', 'annulus': 'MSH1 MSH2 MSH3', 'frustum': 'MSH1 MSH2 MSH3', 'cylinder': 'MSH1 MSH2 MSH3'}
SHORT = ('rectangle', 'annulus', 'frustum', 'cylinder')


@harness('E01', params=[{'kind': k, 'steps': 2 if k in ('cylinder',) else 3} for k in POOL] +
         [{'kind': k, 'steps': 5, '_tier': 'thorough'} for k in ('node', 'spring', 'member', 'quad')], timeout=400, max_paths=20000)
def sequences(h, kind, steps):
    m = base(h)
    store, add = adders(h)[kind]
    pool = POOL[kind].split() + ([] if kind == 'section' else [None, ''][:1 if steps > 3 else 2])
    want = dict(getattr(m, store))
    for k in range(steps):
        name = h.choice('name%d' % k, pool)
        before = snapshot(m)
        if name and name in want:
            h.raises(lambda: add(m, name), (Exception,), 'a name in use is refused')
            h.same(snapshot(m) == before, True, 'a refused addition changes nothing')
            continue
        r = add(m, name)
        now = getattr(m, store)
        new = [n for n in now if n not in want]
        h.same(len(new), 1, 'one entity more')
        h.same(all(now.get(n) is v for n, v in want.items()), True, 'all others are kept')
        h.same(list(now)[-1:], new, 'in order of addition')
        n = new[0]
        if name:
            h.same(n, name, 'under the given name')
        if kind not in ('material', 'section'):
            h.same(r, n, 'the name is returned')
        if kind not in SHORT:
            h.same(now[n].name, n, 'the entity knows its name')
        want = dict(now)


KINDS = ('node', 'auxnode', 'material', 'section', 'spring', 'member', 'plate', 'quad', 'rectangle')


@harness('E01', params=[{'kind': k} for k in KINDS], timeout=300, max_paths=20000)
def shared_names(h, kind):
    """a name is in use or not for each kind of entity by itself, whatever other kinds use it"""
    m = base(h)
    ads = adders(h)
    for k in range(3):
        other = h.choice('other%d' % k, KINDS)
        store, add = ads[other]
        if 'x' not in getattr(m, store):
            add(m, 'x')
            h.same('x' in getattr(m, store), True, 'added')
    store, add = ads[kind]
    d = getattr(m, store)
    used = 'x' in d
    before = snapshot(m)
    if used:
        h.raises(lambda: add(m, 'x'), (Exception,), 'a name in use is refused')
        h.same(snapshot(m) == before, True, 'a refused addition changes nothing')
    else:
        add(m, 'x')
        h.same(list(getattr(m, store))[-1], 'x', 'a name used by other kinds only is accepted')
        after = snapshot(m)
        h.same(all(after[s] == before[s] for s in STORES if s != store), True, 'and nothing else changes')


@harness('E01', params=[{'kind': k} for k in ('node', 'auxnode', 'material', 'spring', 'member', 'plate', 'quad', 'rectangle')], timeout=300)
def after_deletion(h, kind):
    """automatic names after entities in the middle were deleted do not collide with the remaining ones"""
    m = base(h)
    store, add = adders(h)[kind]
    names = [None] * 5
    for k in range(4):
        add(m, None)
    delete = {'node': m.delete_node, 'auxnode': m.delete_auxnode, 'spring': m.delete_spring, 'member': m.delete_member}.get(kind)
    d = getattr(m, store)
    victim = h.choice('victim', list(d)[-4:])
    if delete:
        delete(victim)
    else:
        d.pop(victim)
    kept = dict(getattr(m, store))
    for k in range(2):
        add(m, None)
        now = getattr(m, store)
        h.same(len(now), len(kept) + 1, 'one more')
        h.same(all(now.get(n) is v for n, v in kept.items()), True, 'the others are kept')
        kept = dict(now)


def references(h):
    q = h.q
    m4 = ['n0', 'n1', 'n2', 'n3']

    def swap(k):
        return [n if i != k else 'zz' for i, n in enumerate(m4)]
    sec = dict(Iy=q(1), Iz=q(1), J=q(1), A=q(1))
    out = {}
    for k in range(4):
        out['plate node %d' % k] = lambda m, k=k: m.add_plate('x', *swap(k), q(1), 'S')
        out['quad node %d' % k] = lambda m, k=k: m.add_quad('x', *swap(k), q(1), 'S')
    for k in range(2):
        out['member node %d' % k] = lambda m, k=k: m.add_member('x', *swap(k)[:2], 'S', **sec)
        out['spring node %d' % k] = lambda m, k=k: m.add_spring('x', *swap(k)[:2], q(1))
    out.update({
        'member material': lambda m: m.add_member('x', 'n0', 'n1', 'zz', **sec),
        'member auxiliary node': lambda m: m.add_member('x', 'n0', 'n1', 'S', aux_node='zz', **sec),
        'member auxiliary node that is a node': lambda m: m.add_member('x', 'n0', 'n1', 'S', aux_node='n3', **sec),
        'member between auxiliary nodes': lambda m: m.add_member('x', 'n0', 'a1', 'S', **sec),
        'member section': lambda m: m.add_member('x', 'n0', 'n1', 'S', section_name='zz'),
        'plate material': lambda m: m.add_plate('x', *m4, q(1), 'zz'),
        'quad material': lambda m: m.add_quad('x', *m4, q(1), 'zz'),
        'cylinder material': lambda m: m.add_cylinder_mesh('x', q(1), q(1), q(1), q(1), 'zz', num_elements=4),
        'support': lambda m: m.def_support('zz', True),
        'support at an auxiliary node': lambda m: m.def_support('a1', True),
        'support spring': lambda m: m.def_support_spring('zz', 'DX', q(3)),
        'support spring direction': lambda m: m.def_support_spring('n0', 'FX', q(3)),
        'support spring sign': lambda m: m.def_support_spring('n0', 'DX', q(3), 'x'),
        'displacement': lambda m: m.def_node_disp('zz', 'DX', q(3)),
        'displacement direction': lambda m: m.def_node_disp('n0', 'FX', q(3)),
        'releases': lambda m: m.def_releases('zz', True),
        'releases of a spring': lambda m: m.def_releases('s1', True),
        'node load': lambda m: m.add_node_load('zz', 'FX', q(1)),
        'node load direction': lambda m: m.add_node_load('n0', 'Fx', q(1)),
        'point load': lambda m: m.add_member_pt_load('zz', 'FX', q(1), q(0)),
        'point load direction': lambda m: m.add_member_pt_load('m1', 'DX', q(1), q(0)),
        'distributed load': lambda m: m.add_member_dist_load('zz', 'FX', q(1), q(1)),
        'distributed load with ends': lambda m: m.add_member_dist_load('zz', 'FX', q(1), q(1), q(0), q(1)),
        'distributed moment': lambda m: m.add_member_dist_load('m1', 'Mx', q(1), q(1), q(0), q(1)),
        'self weight direction': lambda m: m.add_member_self_weight('Mx', q(1)),
        'plate pressure on a quad': lambda m: m.add_plate_surface_pressure('q1', q(1)),
        'quad pressure on a plate': lambda m: m.add_quad_surface_pressure('p1', q(1)),
        'delete node': lambda m: m.delete_node('zz'),
        'delete node that is auxiliary': lambda m: m.delete_node('a1'),
        'delete member': lambda m: m.delete_member('s1'),
        'delete spring': lambda m: m.delete_spring('m1'),
        'delete auxiliary node': lambda m: m.delete_auxnode('n0'),
    })
    return out


@harness('E01', params=[{'part': k} for k in range(4)], timeout=300)
def unknown(h, part):
    refs = references(h)
    m = base(h)
    for k, (n, f) in enumerate(refs.items()):
        if k % 4 != part:
            continue
        before = snapshot(m)
        h.raises(lambda: f(m), (Exception,), 'refused: ' + n)
        h.same(snapshot(m) == before, True, 'nothing changed: ' + n)


@harness('E01', params=[{'kind': k} for k in ('Quad', 'Rect', 'annulus', 'frustum')], timeout=300)
def late(h, kind):
    """meshes of an unknown material are refused when they are generated, and leave the model alone"""
    m = base(h)
    q = h.q
    def make():
        if kind in ('Quad', 'Rect'):
            m.add_rectangle_mesh('x', q(1), h.pos('w', hi=2), q(1), q(1), 'zz', element_type=kind)
        elif kind == 'annulus':
            m.add_annulus_mesh('x', q(1), q(2), q(1), q(1), 'zz')
        else:
            m.add_frustrum_mesh('x', q(1), q(2), q(1), q(1), q(1), 'zz')
        m.meshes['x'].generate()
    before = snapshot(m)
    h.raises(make, (Exception,), 'refused')
    after = snapshot(m)
    h.same(all(after[k] == before[k] for k in before if k != 'meshes'), True, 'nodes and elements are left alone')


@harness('E01', params=[{'wrong': w} for w in ('plane', 'element_type')], timeout=200)
def mesh_options(h, wrong):
    m = base(h)
    before = snapshot(m)

    def make():
        m.add_rectangle_mesh('x', h.q(1), h.pos('w', hi=2), h.q(1), h.q(1), 'S', start_node='N50', start_element='Q50', **{wrong: 'XX'})
        m.meshes['x'].generate()
    h.raises(make, (Exception,), 'refused')
    after = snapshot(m)
    h.same(all(after[k] == before[k] for k in before if k != 'meshes'), True, 'nodes and elements are left alone')
