"""Plotted diagrams are the member's diagrams."""
from engine.harness import harness
from checks.common import *

BOUNDS = ('One member of rational length in rational directions under 36 interleaved and overlapping loads of every local and global type '
          '(symbolic magnitudes, two cases, two combinations), with and without nodes along it and end releases; every plot method and '
          'direction; the default 20 points and other counts; plots requested in changing combinations and mixed with result queries.  A spring-supported '
          'member with symbolic length and end displacements under symbolic loads.')
ASSUMPTIONS = ['matplotlib is replaced by a recorder of the curves handed to it; drawing itself is not modelled.']

PLOTS = [('plot_shear', 'shear', 'Fy'), ('plot_shear', 'shear', 'Fz'), ('plot_moment', 'moment', 'Mz'), ('plot_moment', 'moment', 'My'),
         ('plot_torque', 'torque', None), ('plot_axial', 'axial', None), ('plot_deflection', 'deflection', 'dy'), ('plot_deflection', 'deflection', 'dz'),
         ('plot_deflection', 'deflection', 'dx'), ('plot_rel_deflection', 'rel_deflection', 'dy'), ('plot_rel_deflection', 'rel_deflection', 'dz')]


def plotted(h, figs, M, plot, d, combo, n, tag):
    """the points of the one curve drawn"""
    del figs[:]
    args = ([] if d is None else [d]) + ([] if combo is None else [combo]) + ([] if n is None else [n])
    getattr(M, plot)(*args)
    h.same(len(figs), 1, tag + ' figures')
    h.true(figs[0].shown >= 1, tag + ' shown')
    lines = [l for l in figs[0].lines if len(l[0]) > 2]
    h.same(len(lines), 1, tag + ' curves')
    x, y = lines[0]
    h.same((len(x), len(y)), ((n or 20),) * 2, tag + ' points')
    t = str(figs[0].labels.get('title'))
    h.true(M.name in t and (combo or 'Combo 1') in t, tag + ' title names member and combination')
    return x, y


def compare(h, x, y, M, res, d, combo, L, tag, only=None):
    n = len(x)
    for k in range(n):
        h.eq(x[k], L * h.q('%d/%d' % (k, n - 1)), '%s x%d' % (tag, k))
    for k in (only or range(n)):
        c = L * h.q('%d/%d' % (k, n - 1))
        a = ([] if d is None else [d]) + [c, combo]
        h.eq(y[k], getattr(M, res)(*a), '%s at %d/%d' % (tag, k, n - 1))


@harness('M12', params=[{'kind': k, 'nodes': nd, 'rel': r} for k, nd, r in (('2-1-2', (), ()), ('-6-2-3', ('1/3', '3/4'), ()), ('up', (), (5, 10)), ('x', ('1/2',), (4,)))],
         timeout=400)
def battery_plots(h, kind, nodes, rel):
    figs = h.figures()
    m, p, R, loads = battery_model(h, kind, rel, nodes)
    M, L = m.members['M1'], p['L']
    order = [('A', 6), ('B', 6), ('A', 20), ('B', 8)]
    for t, (plot, res, d) in enumerate(PLOTS):
        for combo, n in order[t % 2:t % 2 + 3]:
            tag = '%s %s %s %d' % (plot, d, combo, n)
            x, y = plotted(h, figs, M, plot, d, combo, n, tag)
            compare(h, x, y, M, res, d, combo, L, tag)


@harness('M12', timeout=300)
def after_queries(h):
    """every plot method for a combination other than the one whose results were asked for last"""
    figs = h.figures()
    m, p, R, loads = battery_model(h, '-1-2-2')
    M, L = m.members['M1'], p['L']
    for plot, res, d in PLOTS:
        M.shear('Fy', L / 5, 'A')
        M.torque(L / 5, 'A')
        x, y = plotted(h, figs, M, plot, d, 'B', 6, plot)
        compare(h, x, y, M, res, d, 'B', L, plot + str(d))
        x, y = plotted(h, figs, M, plot, d, 'A', None, plot)
        compare(h, x, y, M, res, d, 'A', L, plot + str(d), only=[1, 8, 18])


@harness('M12', params=[{'how': w} for w in ('linear', 'general')], timeout=300)
def symbolic(h, how):
    """default combination and number of points; symbolic length, stiffness and end displacements"""
    figs = h.figures()
    m, M, p = one_member(h, None)
    prescribe(h, m)
    P, w, N, T, Q = h.real('P'), h.real('w'), h.real('N'), h.real('T'), h.real('Q')
    L = M.L()
    m.add_member_pt_load('M1', 'Fy', P, L * h.q('3/8'))
    m.add_member_pt_load('M1', 'Mz', Q, L * h.q('3/8'))
    m.add_member_dist_load('M1', 'Fz', w, Q)
    m.add_member_dist_load('M1', 'Fx', N, N)
    m.add_member_pt_load('M1', 'Mx', T, L * h.q('5/8'))
    m.analyze_linear() if how == 'linear' else m.analyze()
    for plot, res, d in PLOTS:
        x, y = plotted(h, figs, M, plot, d, None, None, plot)
        compare(h, x, y, M, res, d, 'Combo 1', L, plot + str(d), only=[0, 6, 13, 19])
