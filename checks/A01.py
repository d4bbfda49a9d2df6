"""Every node is in equilibrium and supports do what they say."""
from engine.harness import harness
from checks.whole import *

BOUNDS = ('Portal frame, oblique tripod, and single members with symbolic section and length, up to 4 nodes / 24 degrees of freedom; symbolic load '
          'magnitudes on nodes and members (every load type), symbolic support-spring and spring stiffness, releases; the '
          'equilibrium oracle is an independent exact beam assembly; all four linear solution paths. One structure of 11 nodes with an element of every kind in '
          'oblique positions under all loads, with every direction of every node in turn prescribed, sprung or free.')


@harness('A01', params=[{'how': s} for s in SOLVERS], timeout=600)
def portal_frame(h, how):
    d = portal(h)
    node_loads(h, d, 'B')
    node_loads(h, d, 'C', dirs=('FX', 'MZ', 'MY'))
    node_loads(h, d, 'A', dirs=('FY', 'MX'))
    node_loads(h, d, 'D', dirs=('FZ', 'FX', 'MZ'))
    std_loads(h, d, 'M2', h.q(4))
    std_loads(h, d, 'M1', h.q(3), tag='c')
    run(d.m, how)
    d.check_equilibrium()


@harness('A01', params=[{'how': s} for s in ('gen', 'lin-d')], timeout=600)
def oblique(h, how):
    d = tripod(h)
    node_loads(h, d, 'T')
    std_loads(h, d, 'MP', h.q(6))
    std_loads(h, d, 'MQ', h.q(7), tag='q', glob=False)
    run(d.m, how)
    d.check_equilibrium()


@harness('A01', params=[{'rel': [5]}, {'rel': [5, 11]}, {'rel': [4, 10]}, {'rel': [9]}, {'rel': [4, 5, 10, 11]}, {'rel': [0]}, {'rel': [7]}, {'rel': [3, 4, 5]}], timeout=600)
def releases(h, rel):
    """released member between two supported columns"""
    d = Desc(h)
    d.mat('S', h.q(100), h.q(40))
    for n, x, y in (('A', 0, 0), ('B', 0, 3), ('C', 4, 3), ('D', 4, 0)):
        d.node(n, x, y, 0)
    d.member('M1', 'A', 'B', kind='up')
    d.member('M2', 'B', 'C', rel=rel)
    d.member('M3', 'C', 'D', kind='down')
    d.support('A')
    d.support('D')
    node_loads(h, d, 'B', dirs=('FX', 'FY', 'FZ', 'MY'))
    node_loads(h, d, 'C', dirs=('FZ', 'MZ', 'MX'))
    std_loads(h, d, 'M2', h.q(4))
    d.m.analyze()
    d.check_equilibrium()


@harness('A01', params=[{'how': s, 'free': f} for s, f in (('gen', 'cant'), ('lin', 'cant'), ('gen-d', 'prop'), ('lin-d', 'pin'), ('gen', 'part'), ('gen', 'none'))], timeout=600)
def one_span(h, how, free):
    """symbolic section and length; cantilever, propped, pinned and partially supported ends"""
    d, L = cantilever(h)
    if free == 'prop':
        d.support('B', 'XYZ')
    elif free == 'pin':
        d.support('A', 'XYZx')
        d.support('B', 'YZ')
    elif free == 'part':
        d.support('B', 'Yy')
    elif free == 'none':
        d.support('B')
    node_loads(h, d, 'B')
    node_loads(h, d, 'A')
    d.mload('M1', ('dist', 'FY', h.real('w1'), h.real('w2'), h.q(0), L))
    d.mload('M1', ('pt', 'Fz', h.real('p'), L / 2))
    d.mload('M1', ('pt', 'Mx', h.real('t'), L / 3))
    run(d.m, how)
    d.check_equilibrium()


@harness('A01', params=[{'how': s} for s in SOLVERS], timeout=600)
def springs(h, how):
    """two-way spring supports at every DOF of a node and a two-node spring, symbolic stiffness"""
    d, L = cantilever(h, L=h.q(3), fixed=dict(E=h.q(10), G=h.q(4), Iy=h.q(2), Iz=h.q(3), J=h.q(1), A=h.q(1)))
    for f in ('DX', 'DY', 'DZ', 'RX', 'RY', 'RZ'):
        d.support_spring('B', f, h.pos('k' + f))
    d.node('S', 3, 4, 0)
    d.support('S')
    node_loads(h, d, 'B')
    node_loads(h, d, 'S')
    d.mload('M1', ('dist', 'FY', h.real('w1'), h.real('w2'), h.q(0), h.q(3)))
    d.mload('M1', ('dist', 'FZ', h.real('w3'), h.real('w4'), h.q(1), h.q(2)))
    run(d.m, how)
    d.check_equilibrium()


@harness('A01', params=[{'how': s} for s in ('gen', 'lin-d')], timeout=600)
def node_springs(h, how):
    d, L = cantilever(h, L=h.q(3), fixed=dict(E=h.q(10), G=h.q(4), Iy=h.q(2), Iz=h.q(3), J=h.q(1), A=h.q(1)))
    d.node('S', 6, 4, 0)
    d.node('U', 3, -2, 0)
    d.support('S')
    d.support('U')
    d.spring('S1', 'B', 'S', h.pos('k1'))
    d.spring('S2', 'U', 'B', h.pos('k2'))
    d.support_spring('B', 'DZ', h.pos('kz'))
    node_loads(h, d, 'B')
    d.mload('M1', ('dist', 'FY', h.real('w1'), h.real('w2'), h.q(0), h.q(3)))
    run(d.m, how)
    d.check_equilibrium()


@harness('A01', params=[{'how': s} for s in ('gen', 'lin')], timeout=600)
def combinations(h, how):
    """two combinations of three cases with symbolic factors"""
    d = portal(h)
    node_loads(h, d, 'B', case='D')
    node_loads(h, d, 'C', tag='l', case='L', dirs=('FX', 'FZ', 'MZ'))
    d.mload('M2', ('dist', 'FY', h.real('w1'), h.real('w2'), h.q(1), h.q(4)), 'L')
    d.mload('M1', ('pt', 'FX', h.real('p'), h.q(1)), 'W')
    fs = {'U': {'D': h.real('fd'), 'L': h.real('fl')}, 'U2': {'L': h.real('gl'), 'W': h.real('gw')}, 'Z': {'X': h.q(1)}}
    for n, f in fs.items():
        d.m.add_load_combo(n, f)
    run(d.m, how)
    for n, f in fs.items():
        d.check_equilibrium(n, f, tag=n + ' ')


@harness('A01', params=[{'how': 'gen'}, {'how': 'lin-d'}], timeout=600)
def partial_supports(h, how):
    """supports in single directions at a free end of the frame; the remaining directions stay free and reaction-free"""
    d = portal(h)
    d.support('C', 'Zx')
    d.support('D', 'YZz')
    d.support('B', 'y')
    node_loads(h, d, 'B')
    node_loads(h, d, 'C')
    std_loads(h, d, 'M2', h.q(4))
    run(d.m, how)
    d.check_equilibrium()


@harness('A01', params=[{'how': a, 'run_as': b, 'kinds': k, 'shift': s} for a, b, k, s in (
    ('held', 'lin-d', 'ms', 0), ('odd', 'gen-d', 'ms', 0), ('even', 'lin', 'ms', 0), ('springs', 'gen', 'ms', 0),
    ('held', 'gen', 'mspq', 0), ('odd', 'lin', 'mspq', 1), ('even', 'gen', 'mspq', 2), ('springs', 'lin-d', 'mspq', 3))], timeout=600)
def every_element(h, how, run_as, kinds, shift):
    """members (subdivided, released), springs, plate and quad in one structure; every direction of every node in turn supported
    with a prescribed value, on a spring support or free; the forces every element exerts on its nodes balance loads and reactions"""
    m, at, nodal, cs = solved(h, how, run_as, kinds=kinds, shift=shift)
    for c, f in cs.items():
        balance(h, m, c, f, nodal, at)
