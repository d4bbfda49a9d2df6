"""Fixed-end reactions of every load type; load cases and factors."""
from engine.harness import harness
from checks.common import *

BOUNDS = ('One member, symbolic length, EI, EA, GJ; one load of each type with symbolic magnitudes and positions anywhere on '
          'the member (ends included for distributed loads); up to two loads in two cases with symbolic factors.'
          ' A member of rational length in rational directions under 36 interleaved and overlapping loads of every local and '
          'global type, symbolic magnitudes, two cases and combinations, at 12 rational cuts.')

PT = ('Fx', 'Fy', 'Fz', 'Mx', 'My', 'Mz')
DI = ('Fx', 'Fy', 'Fz')


def sym_load(h, kind, d, L, tag=''):
    if kind == 'pt':
        x = h.nonneg('x' + tag)
        h.assume(x <= L)
        return ('pt', d, h.real('P' + tag), x)
    x1, x2 = h.nonneg('x1' + tag), h.pos('x2' + tag)
    h.assume(x1 < x2)
    h.assume(x2 <= L)
    return ('dist', d, h.real('w1' + tag), h.real('w2' + tag), x1, x2)


ALL = [('pt', d) for d in PT] + [('dist', d) for d in DI]


def resultant(h, ld):
    """force and moment (about the i end) of a load, local axes"""
    z = h.q(0)
    F, M = [z, z, z], [z, z, z]
    if ld[0] == 'pt':
        if ld[1][0] == 'F':
            k = 'xyz'.index(ld[1][1])
            F[k] = ld[2]
            x = ld[3]
        else:
            M['xyz'.index(ld[1][1])] = ld[2]
            return F, M
    else:
        w1, w2, x1, x2 = ld[2:]
        k = 'xyz'.index(ld[1][1])
        F[k] = (w1 + w2) / 2 * (x2 - x1)
        S = x1 * F[k] + (x2 - x1) ** 2 * (w1 + 2 * w2) / 6       # first moment about x = 0
        if k == 1:
            M[2] = S
        elif k == 2:
            M[1] = -S
        return F, M
    if k == 1:
        M[2] = F[1] * x
    elif k == 2:
        M[1] = -F[2] * x
    return F, M


@harness('M04', params=[{'kind': a, 'd': b} for a, b in ALL])
def single_load(h, kind, d):
    m, mem, p = one_member(h)
    L = p['L']
    ld = sym_load(h, kind, d, L)
    add_load(m, 'M1', ld)
    m.add_load_combo('Combo 1', {'Case 1': 1})
    fer = h.col(mem.fer('Combo 1'))
    F, M = resultant(h, ld)
    for i in range(3):
        h.eq(fer[i] + fer[6 + i] + F[i], 0, 'force balance %d' % i)
    h.eq(fer[3] + fer[9] + M[0], 0, 'moment balance x')
    h.eq(fer[4] + fer[10] - fer[8] * L + M[1], 0, 'moment balance y')
    h.eq(fer[5] + fer[11] + fer[7] * L + M[2], 0, 'moment balance z')
    # zero displacement and rotation at both clamped ends (work with the beam shape functions)
    h.alleq(fer, fer_exact(h, L, ld), 'fer')
    h.alleq(mem._fer_unc('Combo 1'), fer_exact(h, L, ld), 'fer unreleased')


@harness('M04', params=[{'a': i, 'b': (i + 4) % 9} for i in range(9)])
def cases_and_factors(h, a, b):
    """two loads in different cases; three combinations; only the right cases with their factors count"""
    m, mem, p = one_member(h)
    L = p['L']
    l1 = sym_load(h, *ALL[a], L, 'a')
    l2 = sym_load(h, *ALL[b], L, 'b')
    l3 = sym_load(h, *ALL[a], L, 'c')
    add_load(m, 'M1', l1, 'D')
    add_load(m, 'M1', l2, 'Lv')
    add_load(m, 'M1', l3, 'unused')
    f1, f2, f3 = h.real('f1'), h.real('f2'), h.real('f3')
    m.add_load_combo('C1', {'D': f1, 'Lv': f2})
    m.add_load_combo('C2', {'Lv': f3})
    m.add_load_combo('C3', {})
    e1, e2 = fer_exact(h, L, l1), fer_exact(h, L, l2)
    h.alleq(mem.fer('C1'), [f1 * x + f2 * y for x, y in zip(e1, e2)], 'C1')
    h.alleq(mem.fer('C2'), [f3 * y for y in e2], 'C2')
    h.zero(mem.fer('C3'), 'C3')


@harness('M04', params=[{'kind': a, 'd': b} for a, b in ALL])
def clamped_reactions(h, kind, d):
    """the reactions after analysis of a clamped member are the fixed-end reactions"""
    m, mem, p = one_member(h)
    L = p['L']
    ld = sym_load(h, kind, d, L)
    add_load(m, 'M1', ld)
    fix(m, 'N1', 'N2')
    m.analyze()
    e = fer_exact(h, L, ld)
    for b, n in enumerate(('N1', 'N2')):
        N = m.nodes[n]
        for i, R in enumerate((N.RxnFX, N.RxnFY, N.RxnFZ, N.RxnMX, N.RxnMY, N.RxnMZ)):
            h.eq(R['Combo 1'], e[6 * b + i], 'Rxn%d' % (6 * b + i))


@harness('M04', params=[{'d': d} for d in DI])
def default_extent(h, d):
    """a distributed load without positions covers the whole member"""
    m, mem, p = one_member(h)
    L = p['L']
    w1, w2 = h.real('w1'), h.real('w2')
    m.add_member_dist_load('M1', d, w1, w2)
    m.add_load_combo('Combo 1', {'Case 1': 1})
    h.alleq(mem.fer('Combo 1'), fer_exact(h, L, ('dist', d, w1, w2, h.q(0), L)), 'full length')


@harness('M04', params=[{'kind': k} for k in ('x', '2-1-2', 'down', '-1-2-2', '-6-2-3')], timeout=400)
def many_loads(h, kind):
    """thirty-six loads of every local and global type at once: fixed-end reactions, end forces and support reactions"""
    m, p, R, loads = battery_model(h, kind)
    M = m.members['M1']
    for name in ('A', 'B'):
        want = [h.q(0)] * 12
        for l in loads[name]:
            want = [a + b for a, b in zip(want, fer_exact(h, p['L'], l))]
        h.alleq(h.col(M.fer(name)), want, name + ' fer')
        h.alleq(h.col(M.f(name)), want, name + ' f')
        g = []
        for k in range(4):
            g += [h.dot([R[i][j] for i in range(3)], want[3 * k:3 * k + 3]) for j in range(3)]
        h.alleq(h.col(M.FER(name)), g, name + ' FER')
        h.alleq([getattr(m.nodes[n], 'Rxn' + d)[name] for n in ('N1', 'N2') for d in FDIR], g, name + ' reactions')
