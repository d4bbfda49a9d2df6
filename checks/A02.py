"""Reactions balance the applied loads globally."""
from engine.harness import harness
from checks.whole import *

BOUNDS = ('Portal frame and oblique tripod away from the origin (symbolic translation in thorough), every load type with symbolic magnitude, '
          'symbolic combination factors, supports, spring supports, enforced displacements; force and moment about a symbolic point; '
          'four linear solution paths. One structure with every kind of element in oblique positions under all loads (forces; moments without plates).')


def totals(h, d, combo, P):
    F, M = [h.q(0)] * 3, [h.q(0)] * 3
    for n in d.X:
        r = [getattr(d.m.nodes[n], 'Rxn' + f)[combo] for f in FDIR]
        x = h.cross([a - b for a, b in zip(d.X[n], P)], r[:3])
        for k in range(3):
            F[k] = F[k] + r[k]
            M[k] = M[k] + r[3 + k] + x[k]
    return F, M


def check(h, d, combo='Combo 1', factors=None):
    factors = {'Case 1': h.q(1)} if factors is None else factors
    P = h.vec('about', 3)
    F, M = d.applied(factors)
    c = h.cross([-x for x in P], F)
    RF, RM = totals(h, d, combo, P)
    for k in range(3):
        h.eq(RF[k], -F[k], '%s force[%d]' % (combo, k))
        h.eq(RM[k], -(M[k] + c[k]), '%s moment[%d]' % (combo, k))


@harness('A02', params=[{'how': s} for s in SOLVERS], timeout=400)
def frame(h, how):
    d = portal(h)
    for n in 'ABCD':
        node_loads(h, d, n)
    std_loads(h, d, 'M2', h.q(4))
    std_loads(h, d, 'M1', h.q(3), tag='c')
    std_loads(h, d, 'M3', h.q(3), tag='d', glob=False)
    run(d.m, how)
    check(h, d)


@harness('A02', params=[{'how': s} for s in ('gen', 'lin')], timeout=400)
def oblique(h, how):
    d = tripod(h)
    node_loads(h, d, 'T')
    node_loads(h, d, 'Q', tag='q')
    std_loads(h, d, 'MP', h.q(6))
    std_loads(h, d, 'MQ', h.q(7), tag='q', glob=False)
    run(d.m, how)
    check(h, d)


@harness('A02', params=[{'how': s} for s in ('gen', 'lin-d')], timeout=400)
def spring_supports(h, how):
    """spring supports (symbolic stiffness) and enforced displacements"""
    d = portal(h)
    d.support_spring('C', 'DX', h.pos('k1'))
    d.support_spring('C', 'RZ', h.pos('k2'))
    d.support_spring('B', 'DZ', h.pos('k3'))
    d.disp('D', 'DY', h.real('u'))
    d.disp('A', 'RZ', h.real('r'))
    node_loads(h, d, 'B')
    std_loads(h, d, 'M2', h.q(4))
    run(d.m, how)
    check(h, d)


@harness('A02', params=[{'how': 'gen'}, {'how': 'lin'}, {'how': 'lin-d'}], timeout=400)
def combos(h, how):
    d = portal(h)
    node_loads(h, d, 'B', case='D')
    std_loads(h, d, 'M2', h.q(4), case='L')
    std_loads(h, d, 'M1', h.q(3), tag='w', case='W')
    fs = {'U': {'D': h.real('fd'), 'L': h.real('fl')}, 'U2': {'W': h.real('gw')}}
    for n, f in fs.items():
        d.m.add_load_combo(n, f)
    run(d.m, how)
    for n, f in fs.items():
        check(h, d, n, f)


@harness('A02', timeout=400)
def unilateral(h):
    """a slack tension-only brace carrying its own load still hands it to its nodes"""
    d = portal(h)
    d.member('B1', 'A', 'C', A=1, Iy=1, Iz=1, J=1, tension_only=True)
    d.load('B', 'FX', -h.pos('F'))          # shortens the brace
    d.mload('B1', ('dist', 'FY', h.q(0), h.q(0), h.q(0), h.q(5)))
    d.mload('B1', ('pt', 'FY', h.q(0), h.q(2)))
    d.m.add_load_combo('Combo 1', {'Case 1': 1})
    d.mload('B1', ('dist', 'FY', h.real('w1'), h.real('w2'), h.q(0), h.q(5)), 'Other')
    d.m.analyze()
    check(h, d)


@harness('A02', params=[{'how': s} for s in ('gen',)], timeout=400)
def translated(h, how):
    """the model anywhere in space (symbolic origin)"""
    d = Desc(h)
    o = h.vec('o', 3)
    d.mat('S', h.q(100), h.q(40))
    d.node('A', o[0], o[1], o[2])
    d.node('B', o[0] + 4, o[1], o[2] + 3)
    d.member('M1', 'A', 'B')
    d.support('A')
    d.support('B', 'YX')
    node_loads(h, d, 'B')
    std_loads(h, d, 'M1', h.q(5))
    run(d.m, how)
    check(h, d)


@harness('A02', params=[{'hold_as': a, 'how': b, 'kinds': k, 'shift': s} for a, b, k, s in (
    ('held', 'gen', 'ms', 0), ('odd', 'lin', 'ms', 0), ('springs', 'gen-d', 'ms', 0), ('held', 'gen', 'mspq', 0), ('even', 'lin-d', 'spq', 1), ('springs', 'gen', 'spq', 2))], timeout=500)
def every_element(h, hold_as, how, kinds, shift):
    """members, springs, plate and quad in oblique planes under every load; moments without plates (drilling rotations meet a fictitious stiffness)"""
    m, at, nodal, cs = solved(h, hold_as, how, kinds=kinds, shift=shift)
    for c, f in cs.items():
        F, M = applied_totals(h, m, f)
        RF, RM = [h.q(0)] * 3, [h.q(0)] * 3
        for N in m.nodes.values():
            r = [getattr(N, 'Rxn' + k)[c] for k in FDIR]
            x = h.cross([N.X, N.Y, N.Z], r[:3])
            for k in range(3):
                RF[k] = RF[k] + r[k]
                RM[k] = RM[k] + r[3 + k] + x[k]
        h.alleq(RF, [-x for x in F], c + ' force')
        if 'p' not in kinds:
            h.alleq(RM, [-x for x in M], c + ' moment')
