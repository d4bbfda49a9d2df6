"""Linear response superposes."""
from engine.harness import harness
from checks.whole import *

BOUNDS = ('Portal frame with spring support and tripod; symbolic loads of every type in three cases, two base combinations and one combination '
          'with symbolic factors; displacements, reactions and internal forces at a symbolic position of a member; general, '
          'linear-only, sparse and dense solvers.')


def results(h, d, combo, c, defl=True):
    out = []
    for n in sorted(d.X):
        for k in range(6):
            out.append(('%s %s' % (n, DOFS[k]), getattr(d.m.nodes[n], DOFS[k])[combo]))
            out.append(('%s Rxn%s' % (n, FDIR[k]), getattr(d.m.nodes[n], 'Rxn' + FDIR[k])[combo]))
    for nm in sorted(d.mem):
        M = d.m.members[nm]
        for k, v in enumerate(h.col(M.f(combo))):
            out.append(('%s f%d' % (nm, k), v))
        for k, v in point_results(M, c, combo).items():
            out.append((nm + ' ' + k, v))
        for k in ('dx', 'dy', 'dz') if defl else ():
            out.append((nm + ' ' + k, M.deflection(k, c, combo)))
    return out


def build(h):
    d = portal(h)
    d.support_spring('C', 'DZ', h.q(7))
    node_loads(h, d, 'B', case='D')
    d.mload('M2', ('dist', 'FY', h.real('w1'), h.real('w2'), h.q(1), h.q(3)), 'D')
    d.mload('M2', ('pt', 'Fz', h.real('p'), h.q(2)), 'L')
    d.mload('M1', ('dist', 'FX', h.real('w3'), h.real('w4'), h.q(0), h.q(3)), 'L')
    d.load('C', 'MZ', h.real('mz'), 'L')
    d.load('C', 'FZ', h.real('fz'), 'W')
    for k, f in enumerate(FDIR):
        d.load('A', f, h.real('a' + f), 'DLW'[k % 3])
    return d


@harness('A03', params=[{'how': s} for s in SOLVERS], timeout=500)
def superposition(h, how):
    d = build(h)
    a, b, e = h.real('fa'), h.real('fb'), h.real('fe')
    for n, f in (('D', {'D': 1}), ('L', {'L': 1}), ('W', {'W': 1}), ('S', {'D': a, 'L': b, 'W': e}), ('DL', {'D': 1, 'L': 1})):
        d.m.add_load_combo(n, f)
    run(d.m, how)
    c = h.q('7/4')
    R = {n: results(h, d, n, c) for n in ('D', 'L', 'W', 'S', 'DL')}
    for k, (lab, v) in enumerate(R['S']):
        h.eq(v, a * R['D'][k][1] + b * R['L'][k][1] + e * R['W'][k][1], 'factored ' + lab)
        h.eq(R['DL'][k][1], R['D'][k][1] + R['L'][k][1], 'sum ' + lab)


@harness('A03', timeout=500)
def same_solver(h):
    """general and linear-only analysis agree in all results"""
    c = h.q('7/4')
    R = []
    for how in SOLVERS:
        d = build(h)
        d.m.add_load_combo('S', {'D': h.real('fa'), 'L': h.real('fb'), 'W': h.real('fe')})
        d.m.add_load_combo('T', {'W': h.real('fa')})
        run(d.m, how)
        R.append([results(h, d, n, c) for n in 'ST'])
    for r in R[1:]:
        for x, y in zip(R[0], r):
            for (l, u), (_, v) in zip(x, y):
                h.eq(u, v, l)


@harness('A03', params=[{'how': s} for s in ('gen', 'lin')], timeout=500)
def split_load(h, how):
    """a load applied in two parts (nodes, points, distributed) is the load applied at once"""
    t = h.real('t')
    R = []
    for parts in ((1,), (t, 1 - t)):
        d = tripod(h)
        for s in parts:
            node_loads_scaled(h, d, s)
        run(d.m, how)
        R.append(results(h, d, 'Combo 1', h.q('9/4')))
    for (l, u), (_, v) in zip(*R):
        h.eq(u, v, l)


def node_loads_scaled(h, d, s):
    for f in FDIR:
        d.load('T', f, h.real('P' + f) * s)
    d.mload('MP', ('dist', 'FY', h.real('w1') * s, h.real('w2') * s, h.q(1), h.q(5)))
    d.mload('MQ', ('pt', 'Fy', h.real('p1') * s, h.q(3)))
    d.mload('MQ', ('pt', 'MX', h.real('p2') * s, h.q(2)))


@harness('A03', timeout=400)
def symbolic_section(h):
    """scaling every load of a beam with symbolic section scales every result"""
    k = h.real('k')
    R = []
    c = h.pos('c')
    for s in (1, k):
        d, L = cantilever(h, fixed=dict(G=h.q(1), J=h.q(1)))
        d.support('B', 'YZ')
        h.assume(c < L)
        d.mload('M1', ('dist', 'Fy', s * h.real('w1'), s * h.real('w2'), h.q(0), L))
        d.mload('M1', ('dist', 'Fz', s * h.real('w3'), s * h.real('w3'), h.q(0), L))
        d.load('B', 'MZ', s * h.real('m'))
        d.load('B', 'FX', s * h.real('n'))
        d.m.analyze()
        R.append(results(h, d, 'Combo 1', c))
    for (l, u), (_, v) in zip(*R):
        h.eq(k * u, v, l)


@harness('A03', params=[{'hold_as': a, 'how': b, 'kinds': k, 'shift': s} for a, b, k, s in (
    ('springs', 'gen', 'ms', 0), ('springs', 'lin-d', 'ms', 0), ('springs', 'gen-d', 'spq', 1), ('springs', 'lin', 'spq', 3))], timeout=500)
def every_element(h, hold_as, how, kinds, shift):
    """members, springs, plate and quad under every load: a combination is the factored sum of its cases"""
    fs = {'D': {'D': '1'}, 'L': {'L': '1'}, 'W': {'W': '1'}, 'U': {'D': '3/2', 'L': '-2', 'W': '1/3'}, 'V': {'L': '1/2', 'D': '-7'}}
    m, at, nodal, cs = solved(h, hold_as, how, kinds=kinds, shift=shift, combos=fs)
    S = {c: state(h, m, c) for c in fs}
    for c in 'UV':
        for i, (l, v) in enumerate(S[c]):
            h.eq(v, sum((k * S[d][i][1] for d, k in cs[c].items()), h.q(0)), '%s %s' % (c, l))
    for n in list(m.plates.values()) + list(m.quads.values()):
        for f, g in (('moment', n.moment), ('shear', n.shear), ('membrane', n.membrane)):
            R = {c: h.col(g(h.q('1/3'), h.q('-1/2') if n.name in m.quads else h.q(1), True, c)) for c in fs}
            for c in 'UV':
                h.alleq(R[c], [sum((k * R[d][i] for d, k in cs[c].items()), h.q(0)) for i in range(len(R[c]))], '%s %s %s' % (c, n.name, f))
