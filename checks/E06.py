"""Every definition is recorded as given, for its own entity and for nothing else."""
from engine.harness import harness
from checks.models import *

BOUNDS = ('One model with symbolic coordinates, material, section, spring, member, plate and quad data; every kind of entity defined twice with independent '
          'symbolic values and symbolic flags; sequences of two (thorough: three) definitions of node data (supports, support springs, prescribed displacements) on '
          'nodes and directions chosen by the solver; sequences of two (thorough: three) loads of every kind with entity, direction and load case chosen by the solver '
          'and symbolic magnitudes and positions; releases defined twice with symbolic flags.')
ASSUMPTIONS = ('What the model holds is read from the public attributes of its nodes, elements and materials, under the names used throughout the '
               'documentation and examples.',)
DOF = ('DX', 'DY', 'DZ', 'RX', 'RY', 'RZ')


def small(h):
    m = FE()
    m.add_material('S', h.q(200), h.q(80), h.q('0.3'), h.q(1))
    for k, X in enumerate(((0, 0, 0), (4, 0, 0), (4, 3, 0), (0, 3, 0))):
        m.add_node('n%d' % k, *[h.q(c) for c in X])
    m.add_member('m1', 'n0', 'n1', 'S', h.q(1), h.q(1), h.q(1), h.q(1))
    m.add_member('m2', 'n1', 'n2', 'S', h.q(1), h.q(1), h.q(1), h.q(1))
    m.add_plate('p1', 'n0', 'n1', 'n2', 'n3', h.q(1), 'S')
    m.add_plate('p2', 'n0', 'n1', 'n2', 'n3', h.q(1), 'S')
    m.add_quad('q1', 'n0', 'n1', 'n2', 'n3', h.q(1), 'S')
    m.add_quad('q2', 'n0', 'n1', 'n2', 'n3', h.q(1), 'S')
    return m


@harness('E06', timeout=200)
def nodes(h):
    m = FE()
    X = {}
    for n in 'ab':
        X[n] = [h.real(n + c) for c in 'xyz']
        m.add_node(n, *X[n])
        h.same(m.solution is None, True, 'the model is not solved')
    for n in 'ab':
        X['x' + n] = [h.real(n + 'a' + c) for c in 'xyz']
        m.add_auxnode('x' + n, *X['x' + n])
    for n, x in X.items():
        N = (m.nodes if len(n) == 1 else m.aux_nodes)[n]
        for c, a, b in zip('XYZ', (N.X, N.Y, N.Z), x):
            h.eq(a, b, 'coordinate %s of %s' % (c, n))
    h.same((list(m.nodes), list(m.aux_nodes)), (['a', 'b'], ['xa', 'xb']), 'each in its own place')
    d2 = sum(((a - b)*(a - b) for a, b in zip(X['a'], X['b'])), h.q(0))
    d = m.nodes['a'].distance(m.nodes['b'])
    h.eq(d*d, d2, 'distance')
    h.le(0, d, 'a distance is not negative')


@harness('E06', timeout=200, params=[{'fy': f} for f in (False, True)])
def materials(h, fy):
    m = FE()
    want = {}
    for n in 'ab':
        want[n] = [h.pos(n + a) for a in ('E', 'G')] + [h.real(n + 'nu')] + [h.nonneg(n + 'rho')]
        if fy:
            want[n].append(h.pos(n + 'fy'))
        m.add_material(n, *want[n])
    for n in 'ab':
        M = m.materials[n]
        for a, v in zip(('E', 'G', 'nu', 'rho', 'fy'), want[n]):
            h.eq(getattr(M, a), v, 'material ' + a)
        if not fy:
            h.same(M.fy is None, True, 'no yield stress unless one is given')



@harness('E06', timeout=300, params=[{'how': k} for k in ('given', 'section', 'aux')])
def members(h, how):
    """members take stiffness from their own material and section, their ends and options as given"""
    m = FE()
    mats, X = {}, {}
    for n in 'ST':
        mats[n] = (h.pos('E' + n), h.pos('G' + n), h.nonneg('rho' + n))
        m.add_material(n, mats[n][0], mats[n][1], h.q('0.3'), mats[n][2])
    for n in 'abc':
        X[n] = [h.q({'a': 0, 'b': 3, 'c': 7}[n]), h.q(0), h.q({'a': 0, 'b': 4, 'c': 1}[n])]
        m.add_node(n, *X[n])
    if how == 'aux':
        m.add_auxnode('x', h.q(1), h.q(9), h.q(1))
        m.add_auxnode('y', h.q(2), h.q(7), h.q(0))
    want = {}
    for k, (i, j, mat) in enumerate((('a', 'b', 'S'), ('c', 'b', 'T'))):
        p = [h.pos('%s%d' % (a, k)) for a in ('Iy', 'Iz', 'J', 'A')]
        t, c = h.flag('t%d' % k), h.flag('c%d' % k)
        kw = dict(tension_only=t, comp_only=c)
        aux = None
        if how == 'section':
            from PyNite.Section import Section
            m.add_section('s%d' % k, Section(m, 's%d' % k, p[3], p[0], p[1], p[2], mat))
            m.add_member('m%d' % k, i, j, mat, section_name='s%d' % k, **kw)
        elif how == 'aux':
            aux = 'xy'[k]
            m.add_member('m%d' % k, i, j, mat, *p, aux_node=aux, **kw)
        else:
            m.add_member('m%d' % k, i, j, mat, *p, **kw)
        want['m%d' % k] = (i, j, mat, p, t, c, aux)
    for n, (i, j, mat, p, t, c, aux) in want.items():
        M = m.members[n]
        h.same(M.i_node is m.nodes[i] and M.j_node is m.nodes[j], True, 'end nodes')
        h.eq(M.E, mats[mat][0], 'E')
        h.eq(M.G, mats[mat][1], 'G')
        for a, v in zip((M.Iy, M.Iz, M.J, M.A), p):
            h.eq(a, v, 'section properties')
        h.same(bool(M.tension_only), bool(t), 'tension only')
        h.same(bool(M.comp_only), bool(c), 'compression only')
        h.same(M.auxNode is (m.aux_nodes[aux] if aux else None), True, 'auxiliary node')
        h.same([bool(r) for r in M.Releases], [False]*12, 'no releases unless they are defined')
        h.same((len(M.PtLoads), len(M.DistLoads)), (0, 0), 'no loads')
    # self weight uses them too
    g = h.real('g')
    m.add_member_self_weight('FY', g, 'D')
    for n, (i, j, mat, p, t, c, aux) in want.items():
        h.same(len(m.members[n].DistLoads), 1, 'one load for the weight')
        d, w1, w2, x1, x2, case = m.members[n].DistLoads[0]
        h.same((d, case), ('FY', 'D'), 'direction and case of the weight')
        h.eq(w1, g*mats[mat][2]*p[3], 'weight per length')
        h.eq(w2, g*mats[mat][2]*p[3], 'weight per length')
        h.eq(x1, 0, 'weight from the start')
        h.eq(x2, h.q(5), 'to the end')


@harness('E06', timeout=200)
def springs(h):
    m = small(h)
    want = {}
    for k, (i, j) in enumerate((('n0', 'n2'), ('n3', 'n1'))):
        ks, t, c = h.pos('ks%d' % k), h.flag('t%d' % k), h.flag('c%d' % k)
        m.add_spring('s%d' % k, i, j, ks, t, c)
        want['s%d' % k] = (i, j, ks, t, c)
    m.add_spring('s', 'n0', 'n1', h.q(1))
    for n, (i, j, ks, t, c) in want.items():
        s = m.springs[n]
        h.same(s.i_node is m.nodes[i] and s.j_node is m.nodes[j], True, 'end nodes')
        h.eq(s.ks, ks, 'stiffness')
        h.same(bool(s.tension_only), bool(t), 'tension only')
        h.same(bool(s.comp_only), bool(c), 'compression only')
    h.same((bool(m.springs['s'].tension_only), bool(m.springs['s'].comp_only)), (False, False), 'both ways unless given otherwise')


@harness('E06', timeout=200, params=[{'kind': k} for k in ('plate', 'quad')])
def surfaces(h, kind):
    m = small(h)
    m.add_material('T', h.pos('E'), h.q(1), h.pos('nu', hi=h.q('1/2')), h.q(1))
    add, store = (m.add_plate, m.plates) if kind == 'plate' else (m.add_quad, m.quads)
    want = {}
    for k, nn in enumerate((('n0', 'n1', 'n2', 'n3'), ('n1', 'n2', 'n3', 'n0'), ('n2', 'n3', 'n0', 'n1'))):
        t, kx, ky = h.pos('t%d' % k), h.pos('kx%d' % k), h.pos('ky%d' % k)
        if k == 2:
            add('e%d' % k, *nn, t, 'T')
            kx = ky = h.q(1)
        else:
            add('e%d' % k, *nn, t, 'T', kx, ky)
        want['e%d' % k] = (nn, t, kx, ky)
    E, nu = m.materials['T'].E, m.materials['T'].nu
    for n, (nn, t, kx, ky) in want.items():
        e = store[n]
        h.same([x is m.nodes[y] for x, y in zip((e.i_node, e.j_node, e.m_node, e.n_node), nn)], [True]*4, 'corner nodes')
        for a, b, l in ((e.t, t, 'thickness'), (e.kx_mod, kx, 'kx'), (e.ky_mod, ky, 'ky'), (e.E, E, 'E'), (e.nu, nu, 'nu')):
            h.eq(a, b, l)
        h.same(len(e.pressures), 0, 'no pressure')


def supports(N):
    return [getattr(N, 'support_' + d) for d in DOF]


@harness('E06', timeout=400, max_paths=60000, params=[{'first': f, 'steps': 2} for f in ('support', 'spring', 'displacement')] +
         [{'first': f, 'steps': 3, '_tier': 'thorough'} for f in ('support', 'displacement')])
def node_data(h, first, steps):
    """supports, support springs and prescribed displacements: the last definition counts, all else stays"""
    m = small(h)
    names = ['n0', 'n1', 'n2']
    sup = {n: [False]*6 for n in m.nodes}
    spr, dis = {}, {}
    for k in range(steps):
        op = first if k == 0 else h.choice('op%d' % k, ('support', 'spring', 'displacement'))
        n = h.choice('n%d' % k, names[:2])
        if op == 'support':
            f = [h.flag('f%d%s' % (k, d)) if i % 3 == k else bool((i + k) % 2) for i, d in enumerate(DOF)]
            m.def_support(n, *f)
            sup[n] = f
        elif op == 'spring':
            d = h.choice('d%d' % k, ('DX', 'RY', 'DZ') if k else DOF)
            s = h.choice('s%d' % k, ('+', '-', None))
            v = h.pos('k%d' % k)
            m.def_support_spring(n, d, v, s) if s else m.def_support_spring(n, d, v)
            spr[n, d] = (v, s)
        else:
            d = h.choice('d%d' % k, ('DX', 'RY', 'DZ') if k else DOF)
            v = h.real('u%d' % k)
            m.def_node_disp(n, d, v)
            dis[n, d] = v
        h.same(m.solution is None, True, 'the model is not solved')
    for n, N in m.nodes.items():
        for a, b in zip(supports(N), sup[n]):
            h.same(bool(a), bool(b), 'supports of ' + n)
        for d in DOF:
            a = getattr(N, 'spring_' + d)
            if (n, d) in spr:
                h.eq(a[0], spr[n, d][0], 'spring stiffness')
                h.same(a[1], spr[n, d][1], 'spring direction')
            else:
                h.same(a[0] is None, True, 'no spring at %s %s' % (n, d))
            u = getattr(N, 'Enforced' + d)
            if (n, d) in dis:
                h.eq(u, dis[n, d], 'displacement')
            else:
                h.same(u is None, True, 'no displacement at %s %s' % (n, d))


@harness('E06', timeout=200, params=[{'first': f} for f in ('all', 'none', 'some')])
def supports_again(h, first):
    """a support defined again has exactly the restraints given last"""
    m = small(h)
    old = {'all': [True]*6, 'none': [False]*6, 'some': [True, False]*3}[first]
    new = [h.flag('f' + d) for d in DOF]
    for n in ('n0', 'n1'):
        m.def_support(n, *old)
    m.def_support('n0', **{'support_' + d: f for d, f in zip(DOF, new)})
    m.def_support('n2', *new)
    for n, want in (('n0', new), ('n1', old), ('n2', new), ('n3', [False]*6)):
        h.same([bool(x) for x in supports(m.nodes[n])], want, 'supports of ' + n)
    m.def_support('n0', support_DY=True)
    h.same([bool(x) for x in supports(m.nodes['n0'])], [False, True] + [False]*4, 'all that is not given is free')


@harness('E06', timeout=200, params=[{'part': p} for p in (0, 1, 2)])
def releases(h, part):
    m = small(h)
    args = ('Dxi', 'Dyi', 'Dzi', 'Rxi', 'Ryi', 'Rzi', 'Dxj', 'Dyj', 'Dzj', 'Rxj', 'Ryj', 'Rzj')
    old = [bool(k % 2) for k in range(12)]
    m.def_releases('m1', *old)
    new = [h.flag('f%d' % k) if k % 3 == part else bool(k % 5 == 0) for k in range(12)]
    if part == 0:
        m.def_releases('m2', *new)
    else:
        m.def_releases('m2', **dict(zip(args, new)))
    for a, b in zip(m.members['m2'].Releases, new):
        h.same(bool(a), bool(b), 'releases')
    h.same([bool(x) for x in m.members['m1'].Releases], old, 'releases of the other member')
    m.def_releases('m2', Rzj=True)
    h.same([bool(x) for x in m.members['m2'].Releases], [False]*11 + [True], 'a later definition replaces the earlier one')
    h.same(m.solution is None, True, 'the model is not solved')


KINDS = ('node', 'point', 'distributed', 'whole length', 'plate', 'quad')


@harness('E06', timeout=400, max_paths=60000, params=[{'first': k, 'steps': 2} for k in KINDS] +
         [{'first': k, 'steps': 3, '_tier': 'thorough'} for k in ('plate', 'quad', 'whole length')])
def loads(h, first, steps):
    """loads accumulate in the order given, each on its own entity"""
    m = small(h)
    want = {('node', n): [] for n in m.nodes}
    want.update({(k, n): [] for k in ('point', 'distributed') for n in m.members})
    want.update({('plate', n): [] for n in m.plates})
    want.update({('quad', n): [] for n in m.quads})
    L = {'m1': h.q(4), 'm2': h.q(3)}
    m.solution = 'Linear'
    for k in range(steps):
        op = first if k == 0 else h.choice('op%d' % k, KINDS)
        case = h.choice('case%d' % k, (None, 'D'))
        kw = {'case': case} if case else {}
        case = case or 'Case 1'
        v = h.real('v%d' % k)
        if op == 'node':
            n = h.choice('e%d' % k, ('n0', 'n2'))
            d = h.choice('d%d' % k, FDIR if k == 0 else ('FZ', 'MX'))
            m.add_node_load(n, d, v, **kw)
            want['node', n].append((d, v, case))
        elif op == 'point':
            n = h.choice('e%d' % k, ('m1', 'm2'))
            d = h.choice('d%d' % k, ('Fx', 'Fy', 'Fz', 'Mx', 'My', 'Mz', 'FX', 'FY', 'FZ', 'MX', 'MY', 'MZ') if k == 0 else ('Fy', 'MZ'))
            x = h.nonneg('x%d' % k, hi=3)
            m.add_member_pt_load(n, d, v, x, **kw)
            want['point', n].append((d, v, x, case))
        elif op in ('distributed', 'whole length'):
            n = h.choice('e%d' % k, ('m1', 'm2'))
            d = h.choice('d%d' % k, ('Fx', 'Fy', 'Fz', 'FX', 'FY', 'FZ') if k == 0 else ('Fz', 'FX'))
            w = h.real('w%d' % k)
            if op == 'distributed':
                x1, x2 = h.nonneg('a%d' % k, hi=1), h.pos('b%d' % k, lo=1, hi=3)
                m.add_member_dist_load(n, d, v, w, x1, x2, **kw)
            else:
                x1, x2 = 0, L[n]
                m.add_member_dist_load(n, d, v, w, **kw)
            want['distributed', n].append((d, v, w, x1, x2, case))
        else:
            n = h.choice('e%d' % k, ('p1', 'p2') if op == 'plate' else ('q1', 'q2'))
            (m.add_plate_surface_pressure if op == 'plate' else m.add_quad_surface_pressure)(n, v, **kw)
            want[op, n].append((v, case))
        h.same(m.solution is None, True, 'the model is not solved any more')
        m.solution = 'Linear'
    for (k, n), ws in want.items():
        got = {'node': lambda: m.nodes[n].NodeLoads, 'point': lambda: m.members[n].PtLoads, 'distributed': lambda: m.members[n].DistLoads,
               'plate': lambda: m.plates[n].pressures, 'quad': lambda: m.quads[n].pressures}[k]()
        h.same(len(got), len(ws), 'number of loads: ' + k)
        for a, b in zip(got, ws):
            h.same(len(a), len(b), 'load data')
            for x, y in zip(a, b):
                if isinstance(y, str):
                    h.same(x, y, 'direction and case: ' + k)
                else:
                    h.eq(x, y, 'magnitudes and positions: ' + k)


@harness('E06', timeout=200)
def meshes(h):
    """generated elements have the thickness, stiffness factors and material given for their mesh"""
    m = small(h)
    m.add_material('T', h.pos('E'), h.q(1), h.pos('nu', hi=h.q('1/2')), h.q(1))
    q = h.q
    E, nu = m.materials['T'].E, m.materials['T'].nu
    want = {}
    def data(n):
        want[n] = (h.pos('t' + n), h.pos('kx' + n), h.pos('ky' + n))
        return want[n]
    t, kx, ky = data('r')
    m.add_rectangle_mesh('r', q(1), q(2), q(1), t, 'T', kx, ky, [q(10), q(0), q(0)])
    t, kx, ky = data('R')
    m.add_rectangle_mesh('R', q(1), q(2), q(1), t, 'T', kx, ky, [q(10), q(0), q(7)], 'XY', element_type='Rect')
    t, kx, ky = data('a')
    m.add_annulus_mesh('a', q(4), q(2), q(1), t, 'T', kx, ky, [q(0), q(30), q(0)])
    t, kx, ky = data('t')
    m.add_annulus_mesh('t', q(1), q(8), q('1/2'), t, 'T', kx, ky, [q(0), q(200), q(0)])
    t, kx, ky = data('T')
    m.add_frustrum_mesh('T', q(1), q(8), q('1/2'), q(3), t, 'T', kx, ky, [q(0), q(300), q(0)])
    t, kx, ky = data('f')
    m.add_frustrum_mesh('f', q(4), q(2), q(1), q(1), t, 'T', kx, ky, [q(0), q(60), q(0)])
    t, kx, ky = data('c')
    m.add_cylinder_mesh('c', q(1), q(1), q(1), t, 'T', kx, ky, [q(0), q(90), q(0)], num_elements=4)
    for n in want:
        if not m.meshes[n].is_generated():
            m.meshes[n].generate()
    for n, (t, kx, ky) in want.items():
        els = list(m.meshes[n].elements.values())
        h.same(len(els) > 0, True, 'elements')
        for e in els:
            for a, b, l in ((e.t, t, 'thickness'), (e.kx_mod, kx, 'kx'), (e.ky_mod, ky, 'ky'), (e.E, E, 'E'), (e.nu, nu, 'nu')):
                h.eq(a, b, l + ' in mesh ' + n)
            h.same(e.type, 'Rect' if n == 'R' else 'Quad', 'type of element')


@harness('E06', timeout=200)
def combinations(h):
    m = small(h)
    f = {'D': h.real('d'), 'L': h.real('l')}
    tags = ['strength', 'x']
    m.add_load_combo('A', f, tags)
    m.add_load_combo('B', {'W': h.real('w')})
    h.same((m.load_combos['A'].name, m.load_combos['B'].name), ('A', 'B'), 'names')
    h.same(list(m.load_combos['A'].combo_tags), tags, 'tags')
    h.same(not m.load_combos['B'].combo_tags, True, 'no tags')
    for c, v in f.items():
        h.eq(m.load_combos['A'].factors[c], v, 'factors')
    h.same(sorted(m.load_combos['A'].factors), ['D', 'L'], 'cases')
    h.same(sorted(m.load_combos['B'].factors), ['W'], 'cases')
