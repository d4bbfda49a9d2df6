"""P-Delta uses the correct geometric stiffness and reduces to linear."""
from engine.harness import harness
from checks.models import *
from checks.A03 import results

BOUNDS = ('Single members: symbolic section, length, axial force, displacements and release pattern, geometric stiffness against exact integration of '
          'the cubic shape functions. Structures (cantilever column with symbolic lateral loads, portal frame, tripod; one to three load '
          'combinations): second-order equilibrium against an independent assembly of elastic plus geometric stiffness with the '
          'axial forces of the first-order solution; loads that cause axial forces are rational constants, all others symbolic.')
ASSUMPTIONS = ['Members with axial end releases are excluded (known defect: the geometric stiffness of such a member cannot be formed).',
               'Axial loads along members are excluded from second-order equilibrium (the axial force is taken constant along a member).']


def kg_exact(h, p, P, L):
    """P * integral of N' N'^T for both bending planes (Hermite cubics), torsional term P Ip/A / L; tension positive"""
    q, z = h.q, h.q(0)
    K = [[z] * 12 for _ in range(12)]
    # derivatives of the shape functions in s/L: v1, r1, v2, r2 as polynomials (coefficients of 1, t, t^2)
    dv1 = [z, q(-6) / L, q(6) / L]
    dr1 = [q(1), q(-4), q(3)]
    dv2 = [z, q(6) / L, q(-6) / L]
    dr2 = [z, q(-2), q(3)]

    def integ(a, b):
        t = z
        for i, x in enumerate(a):
            for j, y in enumerate(b):
                t = t + x * y / (i + j + 1)
        return t * L
    for idx, sg in (((1, 5, 7, 11), 1), ((2, 4, 8, 10), -1)):
        sh = [dv1, [sg * c for c in dr1], dv2, [sg * c for c in dr2]]
        for a in range(4):
            for b in range(4):
                K[idx[a]][idx[b]] = P * integ(sh[a], sh[b])
    t = P * (p['Iy'] + p['Iz']) / p['A'] / L
    K[3][3], K[9][9], K[3][9], K[9][3] = t, t, -t, -t
    return K


PATTERNS = [(), (5,), (5, 11), (4, 10), (4, 5, 10, 11), (3,), (1,), (8,), (3, 4, 5), (5, 7)]


@harness('A11', params=[{'rel': list(r)} for r in PATTERNS], timeout=300)
def matrix(h, rel):
    m, M, p = one_member(h, releases=[k in rel for k in range(12)])
    P = h.real('P')
    h.assume(h.Not(P == 0))
    m.analyze if False else None
    M = sub_of(m)
    K = M.kg(P)
    L = p['L']
    u = h.vec('u', 12)
    X = kg_exact(h, p, P, L)
    want = released_forces(h, X, [h.q(0)] * 12, u, list(rel))
    h.alleq(h.matvec(K, u), want, 'kg u')
    for a in range(12):
        for b in range(a):
            h.eq(K[a, b], K[b, a], 'symmetric')
    s = h.pos('s')
    h.alleq(h.col(M.kg(s * P)), [s * x for x in h.col(K)], 'proportional')
    h.zero(M.kg(h.q(0)), 'no axial force')


def sub_of(m):
    from PyNite import Analysis
    Analysis._prepare_model(m)
    return list(m.members['M1'].sub_members.values())[0]


@harness('A11', params=[{'i': k} for k in range(5)], timeout=300)
def global_matrix(h, i):
    """Kg in global axes is the rotated local matrix; rigid translations cause no forces, rigid rotations the P-couple"""
    ends = [((0, 0, 0), (2, 1, 2)), ((1, 1, 1), (1, 4, 1)), ((0, 5, 0), (0, 1, 0)), ((3, 0, 1), (-3, 2, 4)), ((0, 0, 0), (0, 0, -2))][i]
    X = [[h.q(c) for c in e] for e in ends]
    m, M, p = one_member(h, coords=X)
    M = sub_of(m)
    P = h.real('P')
    h.assume(h.Not(P == 0))
    K = M.Kg(P)
    T, L = axes(h, X[0], X[1], 'up' if i == 1 else 'down' if i == 2 else 'gen')
    u = h.vec('u', 12)
    ul = [h.dot(r, u[o:o + 3]) for o in (0, 3, 6, 9) for r in T]
    f = [h.dot(r, ul) for r in kg_exact(h, p, P, L)]
    want = [h.dot([T[r][c] for r in range(3)], f[o:o + 3]) for o in (0, 3, 6, 9) for c in range(3)]
    h.alleq(h.matvec(K, u), want, 'Kg u')


def residual2(h, d, D, Plin, factors):
    R = d.residual(D, factors)
    for name, dd in d.mem.items():
        T, L = d.geometry(name)
        u = []
        for n in (dd['i'], dd['j']):
            for o in (0, 3):
                g = [D[(n, o + k)] for k in range(3)]
                u += [h.dot(T[r], g) for r in range(3)]
        f = [h.dot(r, u) for r in kg_exact(h, dd['p'], Plin[name], L)]
        for o, n in ((0, dd['i']), (6, dd['j'])):
            for b in (0, 3):
                for c in range(3):
                    R[(n, b + c)] = R[(n, b + c)] + h.dot([T[r][c] for r in range(3)], f[o + b:o + b + 3])
    return R


def axial_of(h, d, D):
    """tension, from the displacements"""
    out = {}
    for name, dd in d.mem.items():
        T, L = d.geometry(name)
        e = h.dot(T[0], [D[(dd['j'], k)] - D[(dd['i'], k)] for k in range(3)])
        out[name] = dd['p']['E'] * dd['p']['A'] / L * e
    return out


def second_order(h, build, how, combos):
    t = build()
    for n, f in combos.items():
        t.m.add_load_combo(n, f)
    t.m.analyze_linear()
    d = build()
    for n, f in combos.items():
        d.m.add_load_combo(n, f)
    run(d.m, how)
    for n, f in combos.items():
        P = axial_of(h, t, t.disps(n))
        D = d.disps(n)
        R = residual2(h, d, D, P, f)
        for (nn, k), v in R.items():
            if d.sup[nn][k]:
                h.eq(D[(nn, k)], d.enf.get((nn, k), h.q(0)), '%s %s %s at rest' % (n, nn, DOFS[k]))
            elif (nn, k) in d.ssp:
                h.eq(v, -d.ssp[(nn, k)][0] * D[(nn, k)], '%s %s %s spring balance' % (n, nn, DOFS[k]))
            else:
                h.eq(v, h.q(0), '%s %s %s balance' % (n, nn, DOFS[k]))
        # end forces belong to these displacements (with their own axial force); reactions collect them
        P2 = axial_of(h, d, D)
        for name in d.mem:
            T, L = d.geometry(name)
            dd = d.mem[name]
            one = residual2(h, single(d, name), D, {name: P2[name]}, f)
            F = h.col(d.m.members[name].F(n)) if not d.m.members[name].sub_members or len(d.m.members[name].sub_members) == 1 else None
            if F is not None:
                want = [one[(dd['i'], k)] for k in range(6)] + [one[(dd['j'], k)] for k in range(6)]
                h.alleq(F, want, '%s %s end forces' % (n, name))
    return d


def single(d, name):
    import copy
    e = copy.copy(d)
    e.mem = {name: d.mem[name]}
    e.X = {n: d.X[n] for n in (d.mem[name]['i'], d.mem[name]['j'])}
    e.spr, e.ssp, e.nl = {}, {}, []
    return e


@harness('A11', params=[{'how': w, 'ax': a} for w in ('pd', 'pd-d') for a in ('push', 'pull')], timeout=400)
def column(h, how, ax):
    """cantilever column, all lateral actions symbolic"""
    def build():
        d = Desc(h)
        d.mat('S', h.q(100), h.q(40))
        d.node('A', 0, 0, 0)
        d.node('B', 0, 3, 0)
        d.member('M1', 'A', 'B', kind='up')
        d.support('A')
        for f in ('FX', 'FZ', 'MX', 'MY', 'MZ'):
            d.load('B', f, h.real('P' + f))
        d.load('B', 'FY', h.q(-2 if ax == 'push' else 3))
        d.mload('M1', ('dist', 'FX', h.real('w1'), h.real('w2'), h.q(0), h.q(3)))
        d.mload('M1', ('pt', 'FZ', h.real('p'), h.q(1)), 'L')
        d.load('B', 'FY', h.q(-3), 'L')
        return d
    second_order(h, build, how, {'U': {'Case 1': h.q(1)}, 'V': {'Case 1': h.q('1/2'), 'L': h.q('3/2')}, 'W': {'L': h.q(-1)}})


@harness('A11', params=[{'how': 'pd'}, {'how': 'pd-d'}], timeout=400)
def frame(h, how):
    """portal frame: rational loads in its plane, symbolic loads out of plane"""
    def build():
        d = portal(h)
        d.support('D')
        d.load('B', 'FY', h.q(-20))
        d.load('C', 'FY', h.q(-9))
        d.load('B', 'FX', h.q(2), 'L')
        for n in 'BC':
            for f in ('FZ', 'MX', 'MY'):
                d.load(n, f, h.real('P%s%s' % (n, f)), 'L' if f == 'FZ' else 'Case 1')
        d.mload('M2', ('dist', 'FZ', h.real('w1'), h.real('w2'), h.q(1), h.q(4)))
        d.support_spring('C', 'DZ', h.q(4))
        return d
    second_order(h, build, how, {'U': {'Case 1': h.q(1)}, 'V': {'Case 1': h.q('6/5'), 'L': h.q('3/2')}})


@harness('A11', params=[{'how': 'pd'}], timeout=600)
def oblique(h, how):
    """space tripod under rational loads with a symbolic twisting moment pattern on a pendant member"""
    def build():
        d = tripod(h)
        d.load('T', 'FY', h.q(-3))
        d.load('T', 'FX', h.q(1), 'L')
        return d
    second_order(h, build, how, {'U': {'Case 1': h.q(1)}, 'V': {'Case 1': h.q('1/2'), 'L': h.q('3/2')}})


@harness('A11', params=[{'how': w} for w in ('pd', 'pd-d')], timeout=400)
def no_axial_force(h, how):
    """lateral loads on a beam with symbolic section: P-Delta results are the linear ones"""
    R = []
    for a in (how, 'lin'):
        d, L = cantilever(h, fixed=dict(G=h.q(1), J=h.q(1)))
        c = L / 3
        d.support('B', 'YZ')
        d.mload('M1', ('dist', 'FY', h.real('w1'), h.real('w2'), h.q(0), L))
        d.mload('M1', ('pt', 'Fz', h.real('p'), L / 2))
        for f in ('FY', 'FZ', 'MX', 'MY', 'MZ'):
            d.load('B', f, h.real('P' + f))
        run(d.m, a)
        R.append(results(h, d, 'Combo 1', c, False))
    for (l, u), (_, v) in zip(*R):
        h.eq(u, v, l)


@harness('A11', params=[{'how': w} for w in ('pd', 'pd-d')], timeout=400)
def grillage(h, how):
    """frame loaded out of its plane: no axial forces, linear results"""
    R = []
    for a in (how, 'gen'):
        d = portal(h)
        for n in 'BC':
            for f in ('FZ', 'MX', 'MY'):
                d.load(n, f, h.real('P%s%s' % (n, f)))
        d.mload('M2', ('dist', 'FZ', h.real('w1'), h.real('w2'), h.q(1), h.q(4)))
        d.support_spring('C', 'DZ', h.q(4))
        d.support('D')
        d.m.def_releases('M2', Ryi=True, Ryj=True)
        d.spring('S1', 'B', 'D', h.q(4))
        run(d.m, a)
        R.append(results(h, d, 'Combo 1', h.q('7/4'), False))
    for (l, u), (_, v) in zip(*R):
        h.eq(u, v, l)


@harness('A11', params=[{'how': 'pd'}], timeout=400)
def subdivided(h, how):
    """a column with nodes along it behaves as a chain of members"""
    R = []
    for chain in (False, True):
        d = Desc(h)
        d.mat('S', h.q(100), h.q(40))
        for n, y in (('A', 0), ('K', 1), ('L', 2), ('B', 3)):
            d.node(n, 0, y, 0)
        if chain:
            for n, i, j in (('M1', 'A', 'K'), ('M2', 'K', 'L'), ('M3', 'L', 'B')):
                d.member(n, i, j, kind='up')
        else:
            d.member('M1', 'A', 'B', kind='up')
        d.support('A')
        d.load('B', 'FY', h.q(-2))
        d.load('K', 'FY', h.q(-1))
        for n in 'BK':
            for f in ('FX', 'FZ', 'MX'):
                d.load(n, f, h.real('P%s%s' % (n, f)))
        run(d.m, how)
        R.append(sorted(d.disps().items()))
    for (k, u), (_, v) in zip(*R):
        h.eq(u, v, '%s %s' % (k[0], DOFS[k[1]]))


@harness('A11', params=[{'how': w, 'what': x} for w in ('pd', 'pd-d') for x in ('member', 'spring', 'support')], timeout=400)
def slack(h, how, what):
    """an element that goes slack during the P-Delta analysis leaves the second-order solution of the structure without it"""
    R = []
    for present in (True, False):
        d = Desc(h)
        d.mat('S', h.q(100), h.q(40))
        for n, X in (('A', (0, 0, 0)), ('B', (0, 3, 0)), ('G', (4, 3, 0))):
            d.node(n, *X)
        d.member('M1', 'A', 'B', kind='up')
        d.support('A')
        d.support('G')
        if present and what == 'member':
            d.member('M2', 'G', 'B', tension_only=True)
            d.m.def_releases('M2', Ryi=True, Rzi=True, Ryj=True, Rzj=True)
        elif present and what == 'spring':
            d.spring('S1', 'B', 'G', h.q(9), tension_only=True)
        elif present:
            d.support_spring('B', 'DX', h.q(9), '-')
        # the loads along X push the node towards G, so the element is never stressed the way it could act
        d.load('B', 'FX', h.pos('p'), 'P')
        d.load('B', 'FY', h.q(-2), 'P')
        d.load('B', 'FZ', h.real('z'), 'P')
        d.load('B', 'MX', h.real('mx'), 'P')
        d.load('B', 'MY', h.real('my'), 'P')
        d.m.add_load_combo('U', {'P': h.q(1)})
        d.m.add_load_combo('V', {'P': h.q('3/2')})
        run(d.m, how)
        for c in 'UV':
            R.append(sorted(d.disps(c).items()) + sorted(d.rxns(c).items()))
    for x, y in ((R[0], R[2]), (R[1], R[3])):
        for (k, u), (_, v) in zip(x, y):
            h.eq(u, v, '%s %s' % (k[0], DOFS[k[1]]))
