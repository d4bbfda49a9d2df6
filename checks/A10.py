"""One-way spring supports push only one way and balance their node."""
from engine.harness import harness
from checks.models import *
from checks.A08 import combos, fac

BOUNDS = ('Portal frame, cantilever and single nodes on spring supports (two-way, "+", "-") in all six directions, one to three one-way springs at '
          'a time; symbolic loads of either sign and symbolic stiffness; up to three combinations per analysis; general, linear-only, '
          'sparse and dense analysis; P-Delta on a cantilever.')


def law(h, d, combo, R=None, unilateral=True, tag=''):
    """reaction = -k*displacement in the sense of the spring, zero otherwise; returns the set of inactive springs"""
    off = []
    D, Rx = d.disps(combo), d.rxns(combo)
    for (n, k), (ks, dr) in d.ssp.items():
        u = D[(n, k)]
        lab = '%s%s %s %s' % (tag, combo, n, DOFS[k])
        if dr is None or not unilateral or d.sup[n][k]:
            act = True
        elif dr == '+':
            act = h.known(u >= 0)
        else:
            act = h.known(u <= 0)
        if not act:
            off.append((n, k))
        if not d.sup[n][k]:
            h.eq(Rx[(n, k)], -ks * u if act else h.q(0), lab + ' law')
    return off


@harness('A10', params=[{'set': s, 'how': w} for s in ('p', 'm', 'pm', 'pp', 'rot', 'mix') for w in ('gen', 'gen-d')], timeout=500)
def frame(h, set, how):
    d = portal(h)
    for n, f, k, dr in {'p': [('B', 'DX', 20, '+')], 'm': [('B', 'DX', 20, '-')], 'pm': [('B', 'DX', 20, '+'), ('C', 'DX', 10, '-')],
                        'pp': [('B', 'DX', 20, '+'), ('C', 'DY', 10, '+')], 'rot': [('C', 'RZ', 10, '-'), ('B', 'DX', 3, None)],
                        'mix': [('B', 'DX', 20, '+'), ('C', 'RZ', 10, '-'), ('D', 'RX', 4, None)]}[set]:
        d.support_spring(n, f, h.q(k), dr)
    d.load('B', 'FX', h.real('F'))
    d.load('C', 'FX', h.real('G'), 'L')
    d.load('B', 'FZ', h.q(2))
    combos(d, 'UVW')
    run(d.m, how)
    for n in 'UVW':
        off = law(h, d, n)
        d.check_equilibrium(n, fac(h, n), off=off, tag=n + ' ')


@harness('A10', params=[{'dof': f, 'dr': s} for f in DOFS for s in ('+', '-')], timeout=400)
def each_direction(h, dof, dr):
    """any stiffness and load in each of the six directions"""
    d, L = cantilever(h, L=h.q(3), fixed=dict(E=h.q(10), G=h.q(4), Iy=h.q(2), Iz=h.q(3), J=h.q(1), A=h.q(1)))
    d.support_spring('B', dof, h.pos('k'), dr)
    P = h.real('P')
    d.load('B', FDIR[DOFS.index(dof)], P)
    d.m.analyze()
    off = law(h, d, 'Combo 1')
    d.check_equilibrium(off=off)
    u = d.disps()[('B', DOFS.index(dof))]
    h.cond(h.Implies(P > 0, u > 0), 'follows the load')
    h.cond(h.Implies(P < 0, u < 0), 'follows the load back')
    # afterwards, in the same model: other loads, two combinations, and the linear analysis (every spring both ways)
    d.load('B', FDIR[DOFS.index(dof)], h.real('P2'), 'L')
    d.m.add_load_combo('V', {'L': h.q(1)})
    d.m.add_load_combo('U', {'Case 1': h.q(1)})
    d.m.analyze()
    for c, f in (('U', {'Case 1': h.q(1)}), ('V', {'L': h.q(1)})):
        d.check_equilibrium(c, f, off=law(h, d, c), tag=c)
    d.m.analyze_linear()
    for c, f in (('U', {'Case 1': h.q(1)}), ('V', {'L': h.q(1)})):
        law(h, d, c, unilateral=False, tag='linear ')
        d.check_equilibrium(c, f, off=(), tag='linear ' + c)


@harness('A10', params=[{'dr': s, 'how': w} for s in ('+', '-', 'n') for w in ('lin', 'lin-d')], timeout=400)
def linear_only(h, dr, how):
    """the linear-only analysis uses every spring both ways"""
    d, L = cantilever(h, L=h.q(3), fixed=dict(E=h.q(10), G=h.q(4), Iy=h.q(2), Iz=h.q(3), J=h.q(1), A=h.q(1)))
    for f in DOFS:
        d.support_spring('B', f, h.pos('k' + f), None if dr == 'n' else dr)
    node_loads(h, d, 'B')
    run(d.m, how)
    law(h, d, 'Combo 1', unilateral=False)
    d.check_equilibrium(off=())


@harness('A10', params=[{'order': o} for o in ('UVW', 'WVU', 'VUW')], timeout=500)
def combinations(h, order):
    """opposite one-way springs, combinations that load them in opposite senses"""
    d, L = cantilever(h, L=h.q(3), fixed=dict(E=h.q(10), G=h.q(4), Iy=h.q(2), Iz=h.q(3), J=h.q(1), A=h.q(1)))
    d.support_spring('B', 'DY', h.pos('k'), '+')
    d.support_spring('B', 'DZ', h.q(5), '-')
    d.load('B', 'FY', h.real('F'))
    d.load('B', 'FZ', h.real('G'), 'L')
    combos(d, order)
    d.m.analyze()
    for n in order:
        off = law(h, d, n)
        d.check_equilibrium(n, fac(h, n), off=off, tag=n + ' ')


@harness('A10', params=[{'dr': s} for s in ('+', '-')], timeout=400)
def with_enforced(h, dr):
    """one-way springs next to enforced displacements and at rigidly supported directions"""
    d = portal(h)
    d.support('D')
    d.disp('D', 'DX', h.real('u'))
    d.support_spring('C', 'DX', h.q(9), dr)
    d.support_spring('A', 'DX', h.q(9), dr)
    d.load('B', 'FX', h.real('F'))
    d.m.analyze()
    off = law(h, d, 'Combo 1')
    d.check_equilibrium(off=off)


@harness('A10', params=[{'dr': s} for s in ('+', '-', 'n')], timeout=400)
def redefined(h, dr):
    """defining a spring again replaces it"""
    d, L = cantilever(h, L=h.q(3), fixed=dict(E=h.q(10), G=h.q(4), Iy=h.q(2), Iz=h.q(3), J=h.q(1), A=h.q(1)))
    d.support_spring('B', 'DY', h.q(100), '-' if dr == '+' else '+')
    d.load('B', 'FY', h.real('P'))
    d.m.analyze()
    d.support_spring('B', 'DY', h.pos('k'), None if dr == 'n' else dr)
    d.m.analyze()
    off = law(h, d, 'Combo 1')
    d.check_equilibrium(off=off)


@harness('A10', params=[{'dr': s, 'how': w} for s, w in (('+', 'pd'), ('-', 'pd-d'), ('+', 'pd-d'))], timeout=400)
def p_delta(h, dr, how):
    """P-Delta analysis with two combinations of opposite sense"""
    d, L = cantilever(h, L=h.q(3), fixed=dict(E=h.q(10), G=h.q(4), Iy=h.q(2), Iz=h.q(3), J=h.q(1), A=h.q(1)))
    d.support_spring('B', 'DY', h.q(7), dr)
    d.load('B', 'FY', h.real('P'))
    d.load('B', 'FX', h.q('1/10'), 'L')
    d.m.add_load_combo('U', {'Case 1': 1, 'L': 1})
    d.m.add_load_combo('V', {'Case 1': -1})
    run(d.m, how)
    for n in 'UV':
        law(h, d, n)


@harness('A10', timeout=200)
def invalid(h):
    """unknown directions and degrees of freedom are refused and change nothing"""
    d, L = cantilever(h, L=h.q(3), fixed=dict(E=h.q(10), G=h.q(4), Iy=h.q(2), Iz=h.q(3), J=h.q(1), A=h.q(1)))
    d.support_spring('B', 'DY', h.q(7), '+')
    h.raises(lambda: d.m.def_support_spring('B', 'DY', 5, 'x'), (ValueError,), 'direction')
    h.raises(lambda: d.m.def_support_spring('B', 'FX', 5, '+'), (ValueError,), 'dof')
    d.load('B', 'FY', h.real('P'))
    d.m.analyze()
    d.check_equilibrium(off=law(h, d, 'Combo 1'))
