"""Plate models are in equilibrium after analysis."""
from engine.harness import harness
from checks.whole import *

BOUNDS = ('Three structures (wall of two plates and a stiffening member; distorted quads with a spring and a spring support; folded plate with quads, plates and a '
          'strut in two planes), 5 to 8 nodes, rational geometry, symbolic pressures, nodal loads and member loads in three cases; three combinations '
          'with symbolic factors; general, linear, P-Delta, sparse and dense analysis. One structure with a plate and a quad in oblique planes and springs, every '
          'direction of every corner in turn supported with a prescribed value, on a spring support or free.')
ASSUMPTIONS = ['For P-Delta the members carry no axial force (axial force enters nonlinearly); plates have no geometric stiffness.']

HOWS = ('gen', 'gen-d', 'lin', 'lin-d', 'pd', 'pd-d')


def base(h):
    m = FE()
    m.add_material('C', h.q(100), h.q(40), h.q('1/4'), h.q(1))
    return m


def nodes(h, m, X):
    for n, p in X.items():
        m.add_node(n, *[h.q(c) for c in p])


def wall(h):
    m = base(h)
    nodes(h, m, {'a': (0, 0, 0), 'b': (2, 0, 0), 'c': (5, 0, 0), 'd': (0, 3, 0), 'e': (2, 3, 0), 'f': (5, 3, 0)})
    m.add_plate('P1', 'a', 'b', 'e', 'd', h.q('1/2'), 'C')
    m.add_plate('P2', 'b', 'c', 'f', 'e', h.q(1), 'C')
    m.add_member('M1', 'd', 'e', 'C', h.q(1), h.q(2), h.q(3), h.q(4))
    for n in 'abc':
        m.def_support(n, True, True, True, True, True, True)
    m.def_support('f', False, False, True, True, False, False)
    for P, s, c in (('P1', 'p1', 'D'), ('P2', 'p2', 'L')):
        m.add_plate_surface_pressure(P, h.real(s), c)
    m.add_member_dist_load('M1', 'FZ', h.real('w1'), h.real('w2'), h.q(0), h.q(1), 'L')
    for k, f in enumerate(('FZ', 'MX', 'MY')):
        m.add_node_load('e', f, h.real('e' + f), 'DLW'[k])
        m.add_node_load('b', f, h.real('b' + f), 'D')
    return m


def quads(h):
    m = base(h)
    nodes(h, m, {'a': (0, 0, 0), 'b': (4, 0, 0), 'c': (0, 0, -3), 'd': (3, 0, -2), 'e': (5, 0, -4), 'f': (1, 0, -5), 'g': (3, -4, -2)})
    m.add_quad('Q1', 'a', 'b', 'd', 'c', h.q('1/2'), 'C')
    m.add_quad('Q2', 'c', 'd', 'e', 'f', h.q('1/3'), 'C')
    m.add_spring('S1', 'd', 'g', h.q(6))
    m.def_support('a', True, True, True, True, True, True)
    m.def_support('g', True, True, True, True, True, True)
    m.def_support('e', True, True, True, True, True, True)
    m.def_support_spring('b', 'DY', h.q(3))
    m.def_support_spring('c', 'RX', h.q(2), None)
    m.def_support('c', False, True, False, False, False, True)
    m.add_quad_surface_pressure('Q1', h.real('p1'), 'D')
    m.add_quad_surface_pressure('Q1', h.real('p2'), 'L')
    for k, f in enumerate(FDIR):
        m.add_node_load('d', f, h.real('d' + f), 'DLW'[k % 3])
        m.add_node_load('b', f, h.real('b' + f), 'WDL'[k % 3])
        m.add_node_load('c', f, h.real('c' + f), 'L')
    return m


def folded(h):
    m = base(h)
    nodes(h, m, {'a': (0, 0, 0), 'b': (4, 0, 0), 'c': (4, 0, 3), 'd': (0, 0, 3), 'e': (4, 2, 0), 'f': (4, 2, 3), 'g': (0, 2, 0)})
    m.add_quad('Q1', 'a', 'd', 'c', 'b', h.q('1/2'), 'C')
    m.add_plate('P1', 'b', 'c', 'f', 'e', h.q('1/2'), 'C')
    m.add_member('M1', 'g', 'e', 'C', h.q(1), h.q(2), h.q(3), h.q(4))
    m.def_support('a', True, True, True, True, True, True)
    m.def_support('d', True, True, True, False, True, False)
    m.def_support('g', True, True, True, True, True, True)
    m.add_quad_surface_pressure('Q1', h.real('p1'), 'D')
    m.add_plate_surface_pressure('P1', h.real('p2'), 'L')
    for k, f in enumerate(FDIR):
        m.add_node_load('c', f, h.real('c' + f), 'DLW'[k % 3])
        m.add_node_load('e', f, h.real('e' + f), 'LDW'[k % 3])
    for k, f in enumerate(FDIR):
        m.add_node_load('d', f, h.real('d' + f), 'DLW'[k % 3])
    m.add_member_pt_load('M1', 'FY', h.real('pm'), h.q(1), 'W')
    return m


@harness('P06', params=[{'what': s, 'how': w} for s in ('wall', 'quads', 'folded') for w in HOWS if (s, w) not in (('folded', 'pd'), ('folded', 'pd-d'))], timeout=600)
def equilibrium(h, what, how):
    m = {'wall': wall, 'quads': quads, 'folded': folded}[what](h)
    nodal = {n: [tuple(l) for l in N.NodeLoads] for n, N in m.nodes.items()}
    combos = {'U': {'D': h.real('f1'), 'L': h.real('f2'), 'W': h.q(1)}, 'U2': {'W': h.q('1/2'), 'D': h.q('3/2')}, 'O': {'L': h.q(1)}}
    for c, f in combos.items():
        m.add_load_combo(c, f)
    run(m, how)
    for c, f in combos.items():
        balance(h, m, c, f, nodal)


@harness('P06', params=[{'what': s} for s in ('wall', 'quads')], timeout=600)
def solvers(h, what):
    """all solvers agree in displacements, reactions and element results"""
    R = []
    for how in HOWS:
        m = {'wall': wall, 'quads': quads}[what](h)
        m.add_load_combo('U', {'D': h.real('f1'), 'L': h.real('f2'), 'W': h.q(1)})
        run(m, how)
        r = []
        for n, N in m.nodes.items():
            for k in range(6):
                r += [getattr(N, DOFS[k])['U'], getattr(N, 'Rxn' + LOADS[k])['U']]
        for e in list(m.plates.values()) + list(m.quads.values()):
            a, b = h.q('1/3'), h.q('1/2')
            for f in (e.moment, e.shear, e.membrane):
                r += h.col(f(a, b, True, 'U'))
        R.append(r)
    for r in R[1:]:
        h.alleq(r, R[0], 'same')


@harness('P06', params=[{'how': a, 'run_as': b, 'shift': s} for a, b, s in (('held', 'gen', 0), ('held', 'lin-d', 1), ('odd', 'lin', 2), ('even', 'gen-d', 3), ('springs', 'gen', 1))], timeout=600)
def every_corner(h, how, run_as, shift):
    """plates and quads in oblique planes with members and springs; supports with prescribed values at every (every other) direction of every corner"""
    m, at, nodal, cs = solved(h, how, run_as, kinds='spq', shift=shift, frames=('122', '236') if shift % 2 else ('34', '122'))
    for c, f in cs.items():
        balance(h, m, c, f, nodal, at)
