"""Internal force diagrams = equilibrium of the cut part."""
from engine.harness import harness
from checks.common import *

BOUNDS = ('One member with arbitrary symbolic end displacements and section; up to three loads of every local type with '
          'symbolic magnitudes and positions (every ordering of positions explored); the cut position is symbolic in [0, L] '
          'and not exactly at a load position; two load cases with symbolic factors; with and without end moment releases.'
          ' A member of rational length in rational directions under 36 interleaved and overlapping loads of every local and '
          'global type, symbolic magnitudes, two cases and combinations, at 12 rational cuts.')

SINGLES = [[('pt', d)] for d in ('Fx', 'Fy', 'Fz', 'Mx', 'My', 'Mz')] + [[('part', d)] for d in ('Fx', 'Fy', 'Fz')]
PAIRS = [[('pt', 'Fy'), ('pt', 'Fy')], [('part', 'Fy'), ('pt', 'Mz')], [('part', 'Fz'), ('pt', 'My')], [('part', 'Fz'), ('pt', 'Fz')],
         [('pt', 'Mx'), ('pt', 'Mx')], [('part', 'Fx'), ('pt', 'Fx')], [('full', 'Fy'), ('pt', 'Fz')], [('pt', 'Fx'), ('pt', 'My')]]
DEEP = [[('part', 'Fy'), ('part', 'Fy')], [('part', 'Fz'), ('part', 'Fz')], [('part', 'Fx'), ('part', 'Fx')],
        [('pt', 'Fy'), ('pt', 'Mz'), ('pt', 'Fy')], [('pt', 'Fz'), ('pt', 'My'), ('pt', 'Fz')], [('part', 'Fy'), ('pt', 'Fy'), ('pt', 'Mz')]]


@harness('M06', params=[{'ld': s} for s in SINGLES + PAIRS] + [{'ld': s, '_tier': 'thorough'} for s in DEEP] +
         [{'ld': PAIRS[1], 'rel': [5, 11]}, {'ld': PAIRS[3], 'rel': [4, 11]}, {'ld': SINGLES[1], 'rel': [1]}], timeout=600)
def cut(h, ld, rel=()):
    m, p, u, loads = loaded_member(h, [tuple(s) for s in ld], rel)
    c = h.nonneg('c')
    h.assume(c <= p['L'])
    off_loads(h, loads, c)
    m.analyze()
    M = m.members['M1']
    f = h.col(M.f('Combo 1'))
    want = cut_forces(h, f, loads, c)
    for k, v in point_results(M, c).items():
        h.eq(v, want[k], k)


@harness('M06', params=[{'ld': s} for s in ([('pt', 'Fy'), ('pt', 'Mz')], [('part', 'Fz'), ('pt', 'Fx')], [('pt', 'Mx'), ('part', 'Fy')])])
def factors(h, ld):
    """case factors scale the loads inside the diagrams too; each combination has its own diagram"""
    m, mem, p = one_member(h)
    fix(m, 'N1', 'N2')
    loads = sym_loads(h, [tuple(s) for s in ld], p['L'])
    for n, l in enumerate(loads):
        add_load(m, 'M1', l, 'C%d' % n)
    g = h.vec('g', 2)
    m.add_load_combo('A', {'C0': g[0], 'C1': g[1]})
    m.add_load_combo('B', {'C1': g[0]})
    c = h.nonneg('c')
    h.assume(c <= p['L'])
    off_loads(h, loads, c)
    m.analyze()
    M = m.members['M1']

    def scaled(l, k):
        return l[:2] + tuple(k * v for v in l[2:3]) + ((l[3],) if l[0] == 'pt' else (k * l[3], l[4], l[5]))
    A = [scaled(loads[0], g[0]), scaled(loads[1], g[1])]
    B = [scaled(loads[1], g[0])]
    for name, ls in (('A', A), ('B', B), ('A', A)):
        f = h.col(M.f(name))
        want = cut_forces(h, f, ls, c)
        for k, v in point_results(M, c, name).items():
            h.eq(v, want[k], name + k)


@harness('M06', params=[{'ld': s} for s in ([('pt', 'Fy'), ('pt', 'Mz')], [('part', 'Fz'), ('pt', 'My')], [('pt', 'Mx'), ('part', 'Fx')])])
def ends(h, ld):
    """at the two ends the diagrams are the end forces"""
    m, p, u, loads = loaded_member(h, [tuple(s) for s in ld])
    m.analyze()
    M = m.members['M1']
    f = h.col(M.f('Combo 1'))
    a = point_results(M, h.q(0))
    b = point_results(M, p['L'])
    for k, i, s0, s1 in (('P', 0, 1, -1), ('Vy', 1, 1, -1), ('Vz', 2, 1, -1), ('T', 3, 1, -1), ('My', 4, -1, 1), ('Mz', 5, 1, -1)):
        h.eq(a[k], s0 * f[i], k + '(0)')
        h.eq(b[k], s1 * f[6 + i], k + '(L)')


@harness('M06', params=[{'kind': k} for k in ('x', '2-1-2', 'down', '-1-2-2')] + [{'kind': '-6-2-3', 'rel': [4, 11]}, {'kind': '3-4-0', 'sup': 'free'}] +
         [{'kind': k, 'sup': 'free', '_tier': 'thorough'} for k in ('up', 'z', '2-1-2', '-1-2-2', '-6-2-3')], timeout=400)
def many_loads(h, kind, rel=(), sup='fixed'):
    """thirty-six loads of every local and global type at once, two cases and combinations: the diagrams at cuts between the loads"""
    m, p, R, loads = battery_model(h, kind, rel, supports=sup)
    M = m.members['M1']
    for name in ('A', 'B', 'A'):
        f = h.col(M.f(name))
        for k, t in enumerate(CUTS):
            c = p['L'] * h.q(t)
            want = cut_forces(h, f, loads[name], c)
            for r, v in point_results(M, c, name).items():
                h.eq(v, want[r], '%s %s[%d]' % (name, r, k))
        if sup == 'free':
            want = cut_forces(h, f, loads[name], p['L'], le=True)
            for r, v in point_results(M, p['L'], name).items():
                h.eq(v, 0, '%s free end %s' % (name, r))
                h.eq(want[r], 0, '%s free end statics %s' % (name, r))
