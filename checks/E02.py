"""Merging duplicate nodes preserves the structure."""
from engine.harness import harness
from checks.models import *
from checks.A03 import results

BOUNDS = ('Up to four nodes at symbolic offsets from each other with a symbolic tolerance, every kind of element attached; support flags, support springs, '
          'prescribed displacements and loads on either or both nodes chosen by the solver; portal frame, truss of springs and pairs of meshes assembled from '
          'duplicate nodes within a symbolic distance, against the structure built with single nodes.')
ASSUMPTIONS = ('The two nodes do not both have a support spring or a prescribed displacement in the same direction.',
               'No element connects two nodes that are merged with each other.')

ENDS = ('i_node', 'j_node', 'm_node', 'n_node')


def d2(h, a, b):
    return sum(((p - q) * (p - q) for p, q in zip(a, b)), h.q(0))


def dist(h, a, b):
    return h.sqrt(d2(h, a, b))


def elements(m):
    return [e for s in ('springs', 'members', 'plates', 'quads') for e in getattr(m, s).values()]


def far(h, m, k):
    """three nodes far from everything else"""
    out = []
    for c, X in enumerate(((100 * k, 50, 0), (100 * k, 80, 20), (100 * k, 50, 30))):
        n = 'far%d_%d' % (k, c)
        m.add_node(n, *[h.q(x) for x in X])
        out.append(n)
    return out


@harness('E02', params=[{'shape': s} for s in ('pair', 'line', 'chain', 'plane', 'two')], timeout=300, qtimeout=20)
def distances(h, shape):
    """merged exactly when not farther apart than the tolerance; elements stay where they were"""
    m = FE()
    m.add_material('S', h.q(200), h.q(80), h.q('0.3'), h.q(1))
    tol = h.pos('tol', hi=5)
    z = h.q(0)
    v = lambda n: h.real(n, lo=-9, hi=9)
    if shape == 'pair':
        X = [(z, z, z), (v('x'), v('y'), v('z'))]
    elif shape == 'line':
        X = [(z, z, z), (z, v('y'), z), (z, z, v('z'))]
    elif shape == 'chain':
        a = h.pos('a', lo=h.q('1/100'), hi=9)
        X = [(z, z, z), (a, z, z), (2 * a, z, z), (3 * a, z, z)]
    elif shape == 'plane':
        X = [(z, z, z), (v('x'), v('y'), z), (h.q(3), z, z)]
    else:
        X = [(z, z, z), (h.q(9), z, z), (z, v('y'), v('z')), (h.q(9), v('w'), z)]
    names = ['a', 'b', 'c', 'd'][:len(X)]
    where = {}
    for n, x in zip(names, X):
        m.add_node(n, *x)
    for k, n in enumerate(names):
        f = far(h, m, k + 1)
        q = h.q(1)
        m.add_member('m' + n, n, f[0], 'S', q, q, q, q)
        m.add_spring('s' + n, f[1], n, q)
        m.add_plate('p' + n, f[0], f[1], n, f[2], q, 'S')
        m.add_quad('q' + n, n, f[0], f[1], f[2], q, 'S')
        m.add_quad('r' + n, f[2], f[0], f[1], n, q, 'S')
    before = {(id(e), a): getattr(e, a, None) for e in elements(m) for a in ENDS}
    all_nodes = dict(m.nodes)
    pos = {id(n): (n.X, n.Y, n.Z) for n in m.nodes.values()}
    order = [id(e) for e in elements(m)]
    removed = m.merge_duplicate_nodes(tol)
    h.same(sorted(removed), sorted(n for n in all_nodes if n not in m.nodes), 'the removed names are returned')
    h.same(all(m.nodes[n] is all_nodes[n] and m.nodes[n].name == n for n in m.nodes), True, 'remaining nodes')
    h.same([id(e) for e in elements(m)], order, 'all elements remain')
    for n in m.nodes.values():
        h.alleq([n.X, n.Y, n.Z], list(pos[id(n)]), 'remaining nodes stay in place')
    kept = [n for n in names if n in m.nodes]
    for i, a in enumerate(kept):
        for b in kept[i + 1:]:
            h.lt(tol, dist(h, X[names.index(a)], X[names.index(b)]), 'remaining nodes are farther apart than the tolerance')
    h.same('a' in kept, True, 'the first node remains')
    for n in names:
        if n not in kept:
            h.true(h.Or(*[dist(h, X[names.index(n)], X[names.index(o)]) <= tol for o in kept]), 'removed nodes have a node within the tolerance')
    for e in elements(m):
        for a in ENDS:
            old = before[(id(e), a)]
            now = getattr(e, a, None)
            if old is None:
                h.same(now is None, True, 'no such end')
                continue
            h.same(any(now is x for x in m.nodes.values()), True, 'ends are nodes of the model')
            if old.name in m.nodes:
                h.same(now is old, True, 'ends at remaining nodes stay')
            else:
                h.le(dist(h, (now.X, now.Y, now.Z), pos[id(old)]), tol, 'ends move by no more than the tolerance')
    h.same(m.solution, None, 'unsolved')


@harness('E02', timeout=200)
def default_tolerance(h):
    """without an argument: 0.001"""
    m = FE()
    d = h.pos('d', hi=1)
    m.add_node('a', h.q(0), h.q(0), h.q(0))
    m.add_node('b', h.q(0), d, h.q(0))
    r = m.merge_duplicate_nodes()
    if len(m.nodes) == 1:
        h.le(d, h.q('1/1000'), 'merged only up to the default tolerance')
    else:
        h.lt(h.q('1/1000'), d, 'merged up to the default tolerance')
    h.same(len(r), 2 - len(m.nodes), 'removed')


def coincident(h, names):
    m = FE()
    for n in names:
        m.add_node(n, h.q(1), h.q(2), h.q(3))
    return m


def merged(h, m):
    m.merge_duplicate_nodes(h.q('1/100'))
    h.same(list(m.nodes), ['a'], 'one node remains')
    return m.nodes['a']


def clean(h, a, but=()):
    """no other condition has appeared at the node"""
    for k in DOFS:
        for pre in ('support_', 'spring_', 'Enforced'):
            if pre + k in but:
                continue
            v = getattr(a, pre + k)
            h.same(v[0] if pre == 'spring_' else bool(v) if pre == 'support_' else v, False if pre == 'support_' else None, 'nothing else')


@harness('E02', params=[{'dofs': d, 'n': n} for d, n in (((0, 1, 2), 2), ((3, 4, 5), 2), ((0, 5), 3), ((2, 3), 3))], timeout=200)
def supports(h, dofs, n):
    names = ['a', 'b', 'c'][:n]
    m = coincident(h, names)
    f = {x: [k in dofs and h.flag('%s%d' % (x, k)) for k in range(6)] for x in names}
    for x in names:
        m.def_support(x, *f[x])
    a = merged(h, m)
    for k in range(6):
        h.same(bool(getattr(a, 'support_' + DOFS[k])), any(f[x][k] for x in names), 'support')
    clean(h, a, ['support_' + d for d in DOFS])
    h.same(a.NodeLoads, [], 'no loads')


@harness('E02', params=[{'dof': k} for k in range(6)], timeout=200)
def support_springs(h, dof):
    names = ['a', 'b', 'c']
    m = coincident(h, names)
    x, y, sign, k = h.choice('first', names), h.choice('second', names), h.choice('sign', [None, '+', '-']), h.pos('k')
    o = DOFS[(dof + 1) % 6]
    m.def_support_spring(x, DOFS[dof], k, sign)
    m.def_support_spring(y, o, h.q(5), None)
    a = merged(h, m)
    for d, kk, sg in ((DOFS[dof], k, sign), (o, h.q(5), None)):
        s = getattr(a, 'spring_' + d)
        h.same(s[0] is not None, True, 'kept')
        h.eq(s[0], kk, 'stiffness')
        h.same([s[1], bool(s[2])], [sg, True], 'sign, active')
    clean(h, a, ['spring_' + DOFS[dof], 'spring_' + o])


@harness('E02', params=[{'dof': k} for k in range(6)], timeout=200)
def displacements(h, dof):
    names = ['a', 'b', 'c']
    m = coincident(h, names)
    x, y, u, v = h.choice('first', names), h.choice('second', names), h.real('u'), h.real('v')
    o = DOFS[(dof + 2) % 6]
    m.def_node_disp(x, DOFS[dof], u)
    m.def_node_disp(y, o, v)
    a = merged(h, m)
    for d, w in ((DOFS[dof], u), (o, v)):
        e = getattr(a, 'Enforced' + d)
        h.same(e is not None, True, 'kept')
        h.eq(e, w, 'value')
    clean(h, a, ['Enforced' + DOFS[dof], 'Enforced' + o])


@harness('E02', params=[{'dof': k} for k in range(6)], timeout=200)
def loads(h, dof):
    names = ['a', 'b', 'c']
    m = coincident(h, names)
    P = {}
    for n in names:
        for k in range(2):
            if h.flag('load_%s%d' % (n, k)):
                P[(n, k)] = h.real('P_%s%d' % (n, k))
                m.add_node_load(n, FDIR[(dof + 3 * k) % 6], P[(n, k)], 'c%d' % k)
    a = merged(h, m)
    for k in range(2):
        got = [l for l in a.NodeLoads if l[0] == FDIR[(dof + 3 * k) % 6] and l[2] == 'c%d' % k]
        want = [v for (n, j), v in P.items() if j == k]
        h.same(len(got), len(want), 'number of loads')
        h.eq(sum((l[1] for l in got), h.q(0)), sum(want, h.q(0)), 'total load')
    h.same(len(a.NodeLoads), len(P), 'no other loads')
    clean(h, a)


def split(h, d, near):
    """the model of d again, with nodes of their own for the end of every element"""
    m = FE()
    for n, (E, G) in d.mats.items():
        m.add_material(n, E, G, h.q('0.3'), h.q(1))
    own = {}

    def node(n):
        k = own.setdefault(n, 0)
        own[n] += 1
        name = n if k == 0 else '%s/%d' % (n, k)
        m.add_node(name, *[c if k == 0 else c + near[(k + j) % len(near)] for j, c in enumerate(d.X[n])])
        return name
    ends = {}
    for name, x in d.mem.items():
        ends[name] = (node(x['i']), node(x['j']))
    for name, (i, j, ks) in d.spr.items():
        ends[name] = (node(i), node(j))
    for n in d.X:
        if n not in own:
            node(n)
    last = {n: n if c == 1 else '%s/%d' % (n, c - 1) for n, c in own.items()}
    for name, x in d.mem.items():
        p = x['p']
        m.add_member(name, *ends[name], 'S' if (p['E'], p['G']) == d.mats['S'] else [k for k, v in d.mats.items() if v == (p['E'], p['G'])][0], p['Iy'], p['Iz'], p['J'], p['A'])
        if x['rel']:
            m.def_releases(name, *[k in x['rel'] for k in range(12)])
    for name, (i, j, ks) in d.spr.items():
        m.add_spring(name, *ends[name], ks)
    for n, f in d.sup.items():
        m.def_support(n if n == 'A' else last[n], *f)
    for (n, k), (ks, dr) in d.ssp.items():
        m.def_support_spring(last[n], DOFS[k], ks, dr)
    for (n, k), v in d.enf.items():
        m.def_node_disp(n, DOFS[k], v)
    for c, (n, k, P, case) in enumerate(d.nl):
        m.add_node_load(last[n] if c % 2 else n, FDIR[k], P, case)
    for name, ld, case in d.ml:
        add_load(m, name, ld, case)
    return m


@harness('E02', params=[{'kind': k, 'how': a} for k in ('portal', 'tripod') for a in ('gen', 'lin')], timeout=400)
def analysed(h, kind, how):
    """a frame assembled from separate pieces behaves as the frame with common nodes"""
    d = {'portal': portal, 'tripod': tripod}[kind](h)
    if kind == 'portal':
        d.spring('S1', 'A', 'C', h.q(10))
        d.support_spring('C', 'DZ', h.q(6))
        d.mload('M2', ('dist', 'FY', h.real('w1'), h.real('w2'), h.q(1), h.q(3)))
        d.disp('D', 'DY', h.real('u'))
        node_loads(h, d, 'B')
        d.load('C', 'FX', h.real('f1'))
        d.load('C', 'FX', h.real('f2'))
    else:
        node_loads(h, d, 'T')
        d.mload('MQ', ('pt', 'FZ', h.real('p'), h.q(2)))
    tol = h.pos('tol', hi=h.q('1/10'))
    e = [h.real('e%d' % k) for k in range(3)]
    if how == 'gen':
        e = [e[0], h.q(0), h.q(0)]
    h.assume(d2(h, e, [h.q(0)] * 3) <= tol * tol)
    m = split(h, d, e)
    names = list(d.X)
    m.merge_duplicate_nodes(tol)
    h.same(sorted(m.nodes), sorted(names), 'one node per place')
    run(m, how)
    run(d.m, how)
    want = results(h, d, 'Combo 1', h.q('7/4'))
    d.m = m
    for (l, u), (_, v) in zip(results(h, d, 'Combo 1', h.q('7/4')), want):
        h.eq(u, v, l)


def sheets(h, m, et, w, n=1):
    """two or three rectangular meshes in a row, or around a corner"""
    q = h.q
    m.add_rectangle_mesh('A', q(1), w, q(2), q('1/4'), 'S', origin=[q(0), q(0), q(0)], plane='XY', element_type=et)
    m.add_rectangle_mesh('B', q(1), q(1), q(2), q('1/4'), 'S', origin=[w, q(0), q(0)], plane='YZ' if n == 2 else 'XY', element_type=et)
    if n == 3:
        m.add_rectangle_mesh('C', q(1), w + 1, q(1), q('1/4'), 'S', origin=[q(0), q(0), q(0)], plane='XZ', x_control=[w], element_type=et)
    for s in list(m.meshes):
        if not m.meshes[s].is_generated():
            m.meshes[s].generate()


@harness('E02', params=[{'et': e, 'n': n} for e in ('Quad', 'Rect') for n in (1, 2, 3)], timeout=300)
def meshes(h, et, n):
    """meshes that meet share their nodes afterwards and stay consistent"""
    m = FE()
    m.add_material('S', h.q(200), h.q(80), h.q('0.25'), h.q('0.1'))
    w = h.pos('w', hi=1)
    h.assume(w >= h.q('1/2'))
    sheets(h, m, et, w, n)
    els = elements(m)
    place = {(id(e), a): (getattr(e, a).X, getattr(e, a).Y, getattr(e, a).Z) for e in els for a in ENDS}
    per = {k: [id(e) for e in x.elements.values()] for k, x in m.meshes.items()}
    before = len(m.nodes)
    removed = m.merge_duplicate_nodes(h.q('1/1000'))
    h.same(len(m.nodes), before - len(removed), 'nodes')
    N = list(m.nodes.values())
    for i, a in enumerate(N):
        for b in N[i + 1:]:
            h.lt(h.q(0), d2(h, (a.X, a.Y, a.Z), (b.X, b.Y, b.Z)), 'no two nodes at one place')
    if n < 3:
        h.same(len(removed), 3, 'one edge in common')
    h.same([id(e) for e in elements(m)], [id(e) for e in els], 'elements')
    for e in els:
        for a in ENDS:
            x = getattr(e, a)
            h.same(m.nodes.get(x.name) is x, True, 'corners are nodes of the model')
            h.alleq([x.X, x.Y, x.Z], list(place[(id(e), a)]), 'corners stay in place')
    for k, x in m.meshes.items():
        h.same([id(e) for e in x.elements.values()], per[k], 'elements of the mesh')
        h.same(all(m.nodes.get(s) is v for s, v in x.nodes.items()), True, 'nodes of the mesh are nodes of the model')
        used = {id(getattr(e, a)) for e in x.elements.values() for a in ENDS}
        h.same({id(v) for v in x.nodes.values()} == used, True, 'the mesh has exactly the nodes of its elements')


@harness('E02', params=[{'et': e} for e in ('Quad', 'Rect')], timeout=400)
def mesh_analysed(h, et):
    """two meshes joined behave as one mesh"""
    p, F = h.real('p'), h.real('F')
    out = []
    q = h.q
    for joined in (True, False):
        m = FE()
        m.add_material('S', q(200), q(80), q('0.25'), q('0.1'))
        if joined:
            sheets(h, m, et, q(1))
            m.merge_duplicate_nodes(q('1/1000'))
        else:
            m.add_rectangle_mesh('A', q(1), q(2), q(2), q('1/4'), 'S', origin=[q(0)] * 3, plane='XY', element_type=et)
            if not m.meshes['A'].is_generated():
                m.meshes['A'].generate()
        for n in list(m.nodes.values()):
            if h.near(n.X, q(0)):
                m.def_support(n.name, True, True, True, True, True, True)
            if h.near(n.X, q(2)) and h.near(n.Y, q(2)):
                m.add_node_load(n.name, 'FY', F)
            if h.near(n.X, q(2)):
                m.def_support(n.name, False, False, True, False, False, False)
        for e in list(m.quads) + list(m.plates):
            (m.add_quad_surface_pressure if et == 'Quad' else m.add_plate_surface_pressure)(e, p)
        m.analyze_linear()
        out.append(m)
    for a in out[0].nodes.values():
        b = [x for x in out[1].nodes.values() if h.near(x.X, a.X) and h.near(x.Y, a.Y)]
        h.same(len(b), 1, 'a node at the same place')
        for k in range(6):
            h.eq(getattr(a, DOFS[k])['Combo 1'], getattr(b[0], DOFS[k])['Combo 1'], 'displacement ' + DOFS[k])
            h.eq(getattr(a, 'Rxn' + FDIR[k])['Combo 1'], getattr(b[0], 'Rxn' + FDIR[k])['Combo 1'], 'reaction ' + FDIR[k])
