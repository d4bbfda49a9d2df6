"""Enforced displacements are met exactly and statics still hold."""
from engine.harness import harness
from checks.models import *

BOUNDS = ('Portal frame with symbolic loads and any subset of the six components enforced at a supported node (symbolic values), enforced '
          'displacements at two nodes, together with springs; member with symbolic section with all components enforced; all '
          'solution paths including P-Delta. Reactions at enforced but unsupported directions are a known finding.')


@harness('A07', params=[{'dofs': s, 'how': w} for s, w in (('DX', 'gen'), ('DY', 'lin'), ('DZ', 'gen-d'), ('RX', 'lin-d'), ('RY', 'gen'), ('RZ', 'gen'),
                                                            ('DX RZ', 'gen'), ('DX DY DZ RX RY RZ', 'gen'), ('DX DY DZ RX RY RZ', 'lin-d'))], timeout=400)
def supports(h, dofs, how):
    d = portal(h)
    d.support('D')
    for f in dofs.split():
        d.disp('D', f, h.real('u' + f))
    d.disp('A', 'RZ', h.real('uA'))
    node_loads(h, d, 'B')
    std_loads(h, d, 'M2', h.q(4))
    run(d.m, how)
    d.check_equilibrium()


@harness('A07', params=[{'how': w} for w in SOLVERS], timeout=400)
def without_support(h, how):
    """prescribed at an unsupported node: met exactly, every other direction balanced"""
    d = portal(h)
    d.disp('C', 'DX', h.real('u'))
    d.disp('C', 'RZ', h.real('r'))
    d.disp('B', 'DZ', h.real('v'))
    d.support_spring('B', 'DX', h.pos('k'))
    node_loads(h, d, 'B')
    node_loads(h, d, 'C')
    std_loads(h, d, 'M2', h.q(4))
    run(d.m, how)
    d.check_equilibrium()


@harness('A07', params=[{'how': w} for w in ('gen', 'lin-d')], timeout=400)
def whole_member(h, how):
    """symbolic section, every component of both ends prescribed"""
    d, L = cantilever(h)
    d.support('B')
    for n in 'AB':
        for f in DOFS:
            d.disp(n, f, h.real('u%s%s' % (n, f)))
    d.mload('M1', ('dist', 'FY', h.real('w1'), h.real('w2'), h.q(0), L))
    run(d.m, how)
    d.check_equilibrium()


@harness('A07', params=[{'how': w} for w in ('gen', 'lin')], timeout=400)
def every_combo(h, how):
    """the same prescribed value in each combination, whatever its factors"""
    d = portal(h)
    d.support('D')
    d.disp('D', 'DY', h.real('u'))
    d.disp('D', 'RX', h.real('r'))
    node_loads(h, d, 'B')
    fs = {'U': {'Case 1': h.real('f')}, 'V': {'Case 2': h.real('g')}}
    for n, f in fs.items():
        d.m.add_load_combo(n, f)
    run(d.m, how)
    for n, f in fs.items():
        d.check_equilibrium(n, f, tag=n + ' ')


@harness('A07', params=[{'how': w} for w in ('pd', 'pd-d')], timeout=400)
def p_delta(h, how):
    """prescribed values are met in a P-Delta analysis as well; with other directions at rest"""
    d = portal(h)
    d.support('D')
    d.disp('D', 'DZ', h.real('u'))
    d.disp('D', 'RX', h.real('r'))
    d.load('B', 'FY', h.q(-10))
    d.load('C', 'FZ', h.real('F'))
    run(d.m, how)
    D = d.disps()
    for (n, k), v in D.items():
        if d.sup[n][k]:
            h.eq(v, d.enf.get((n, k), h.q(0)), '%s %s' % (n, DOFS[k]))


@harness('A07', params=[{'how': w} for w in ('gen', 'lin')], timeout=400)
def zero_is_a_value(h, how):
    """an enforced displacement of exactly zero holds the node, removing it frees the node again"""
    d, L = cantilever(h, L=h.q(3), fixed=dict(E=h.q(10), G=h.q(4), Iy=h.q(2), Iz=h.q(3), J=h.q(1), A=h.q(1)))
    d.load('B', 'FY', h.pos('P'))
    d.m.def_node_disp('B', 'DY', 0)
    run(d.m, how)
    h.eq(d.m.nodes['B'].DY['Combo 1'], 0, 'held')
    h.eq(d.m.nodes['A'].RxnFY['Combo 1'], 0, 'load goes to the held node')
    d.m.def_node_disp('B', 'DY', None)
    run(d.m, how)
    h.eq(d.m.nodes['A'].RxnFY['Combo 1'], -h.pos('P'), 'freed')
    h.lt(0, d.m.nodes['B'].DY['Combo 1'], 'moves again')


@harness('A07', params=[{'how': w} for w in ('gen', 'lin')], timeout=400)
def reaction_without_support(h, how):
    """the force holding an enforced direction is the reaction there, supported or not"""
    d = portal(h)
    d.disp('C', 'DX', h.real('u'))
    node_loads(h, d, 'B')
    run(d.m, how)
    D = d.disps()
    R = d.residual(D, {'Case 1': h.q(1)})
    h.eq(d.rxns()[('C', 0)], R[('C', 0)], 'reaction at an enforced, unsupported direction')
