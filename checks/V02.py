"""The report lists the model and its results."""
from engine.harness import harness
from checks.common import *
from checks.V01 import wall, frame, load_frame

BOUNDS = ('Reports of a frame with members (one of them over several nodes, one with end releases) under symbolic nodal and member loads in two combinations, of plates and quads '
          'with common nodes under symbolic loads and pressures in two combinations, and of an unloaded member with symbolic section, material and position; every table switched on '
          'and off by its option.')
ASSUMPTIONS = ['The conversion of the HTML to PDF (wkhtmltopdf) is not modelled; the template is run by the real jinja2 on symbolic results.',
               'Numbers are compared before rounding to the printed digits.']

TABLES = {'node_table': ['Nodes & Supports'], 'member_table': ['Members'], 'member_releases': ['Member End Releases'], 'plate_table': ['Plates', 'Quads'],
          'node_reactions': ['Node Reactions'], 'node_displacements': ['Node Displacements'], 'member_end_forces': ['Member End Forces'],
          'member_internal_forces': ['Member Max/Min Internal Forces'], 'plate_corner_forces': ['Plate Out-of-Plane Corner Forces'],
          'plate_center_forces': ['Plate Out-of-Plane Center Forces'], 'plate_corner_membrane': ['In-Plane (Membrane) Corner Stresses'],
          'plate_center_membrane': ['In-Plane (Membrane) Center Stresses']}


def report(h, m, **options):
    R, made = h.reports()
    R.create_report(m, output_filepath='out.pdf', **options)
    h.same(len(made), 1, 'one report')
    h.same(str(made[0].out), 'out.pdf', 'output file')
    return made[0]


def table(h, rep, title, want, keys, tag):
    """want: key (texts) -> values (numbers or texts); every key listed exactly once"""
    h.same(title in rep.tables, True, tag + ' table')
    rows = rep.tables[title]
    h.same(sorted(tuple(r[:keys]) for r in rows), sorted(want), tag + ' rows')
    for r in rows:
        w = want[tuple(r[:keys])]
        h.same(len(r) - keys, len(w), '%s %s columns' % (tag, r[:keys]))
        for k, (c, x) in enumerate(zip(r[keys:], w)):
            t = '%s %s column %d' % (tag, ' '.join(r[:keys]), k)
            if isinstance(x, (str, bool)):
                h.same(c, str(x), t)
            else:
                h.close(h.number(c), x, t)


SUP = ['support_' + d for d in ('DX', 'DY', 'DZ', 'RX', 'RY', 'RZ')]


def inputs(h, rep, m):
    table(h, rep, 'Nodes & Supports', {(n.name,): [n.X, n.Y, n.Z] + [getattr(n, s) for s in SUP] for n in m.nodes.values()}, 1, 'nodes')
    table(h, rep, 'Members', {(M.name,): [M.i_node.name, M.j_node.name, M.A, M.Iy, M.Iz, M.J, M.E, M.G] for M in m.members.values()}, 1, 'members')
    table(h, rep, 'Member End Releases', {(M.name,): [bool(r) for r in M.Releases] for M in m.members.values()}, 1, 'releases')
    for t, d in (('Plates', m.plates), ('Quads', m.quads)):
        table(h, rep, t, {(p.name,): [p.i_node.name, p.j_node.name, p.m_node.name, p.n_node.name, p.t, m.materials['S'].E, m.materials['S'].nu] for p in d.values()}, 1, t)


def nodes(h, rep, m):
    C = list(m.load_combos)
    table(h, rep, 'Node Reactions', {(n.name, c): [getattr(n, 'Rxn' + f)[c] for f in ('FX', 'FY', 'FZ', 'MX', 'MY', 'MZ')] for n in m.nodes.values() for c in C}, 2, 'reactions')
    table(h, rep, 'Node Displacements', {(n.name, c): [getattr(n, d)[c] for d in ('DX', 'DY', 'DZ', 'RX', 'RY', 'RZ')] for n in m.nodes.values() for c in C}, 2, 'displacements')


def ends(h, rep, m, names=None):
    C = list(m.load_combos)
    want = {}
    for M in m.members.values():
        L = M.L()
        for c in C:
            want[M.name, c] = [M.axial(0, c), M.axial(L, c), M.shear('Fy', 0, c), M.shear('Fz', 0, c), M.shear('Fy', L, c), M.shear('Fz', L, c), M.moment('My', 0, c), M.moment('Mz', 0, c),
                               M.moment('My', L, c), M.moment('Mz', L, c), M.torque(0, c), M.torque(L, c)]
    table(h, rep, 'Member End Forces', want, 2, 'end forces')


def extremes(h, rep, m):
    want = {}
    for M in m.members.values():
        for c in m.load_combos:
            want[M.name, c] = [M.max_axial(c), M.min_axial(c), M.max_shear('Fy', c), M.min_shear('Fy', c), M.max_shear('Fz', c), M.min_shear('Fz', c), M.max_moment('My', c), M.min_moment('My', c),
                               M.max_moment('Mz', c), M.min_moment('Mz', c), M.max_torque(c), M.min_torque(c)]
    table(h, rep, 'Member Max/Min Internal Forces', want, 2, 'extremes')


def plates(h, rep, m):
    els = list(m.plates.values()) + list(m.quads.values())
    for what, title in ((('shear', 'moment'), ('Plate Out-of-Plane Corner Forces', 'Plate Out-of-Plane Center Forces')), (('membrane',), ('In-Plane (Membrane) Corner Stresses', 'In-Plane (Membrane) Center Stresses'))):
        for centre in (0, 1):
            want = {}
            for E in els:
                if E.type == 'Rect':
                    w, t = E.width(), E.height()
                    at = [(w / 2, t / 2)] if centre else [(0, 0), (w, 0), (w, t), (0, t)]
                else:
                    at = [(0, 0)] if centre else [(-1, -1), (1, -1), (1, 1), (-1, 1)]
                for c in m.load_combos:
                    want[E.name, c] = [x for a in at for f in what for x in h.col(getattr(E, f)(h.q(a[0]) if isinstance(a[0], int) else a[0], h.q(a[1]) if isinstance(a[1], int) else a[1], True, c))]
            table(h, rep, title[centre], want, 2, title[centre])


@harness('V02', timeout=300)
def frame_report(h):
    m = frame(h)
    load_frame(h, m)
    m.analyze()
    rep = report(h, m, member_internal_forces=False)
    inputs(h, rep, m)
    nodes(h, rep, m)
    ends(h, rep, m)
    plates(h, rep, m)


@harness('V02', timeout=400)
def plate_report(h):
    m = wall(h)
    rep = report(h, m)
    inputs(h, rep, m)
    nodes(h, rep, m)
    plates(h, rep, m)


@harness('V02', params=[{'d': d} for d in ('Fx', 'Fy', 'FZ', 'Mx', 'My', 'Mz')], timeout=300)
def extremes_report(h, d):
    """a member under one symbolic load of each kind, two combinations"""
    m = FE()
    m.add_material('S', h.q(100), h.q(40), h.q('0.3'), h.q(1))
    m.add_node('A', h.q(1), h.q(2), h.q(3))
    m.add_node('B', h.q(5), h.q(2), h.q(3))
    m.def_support('A', *[True] * 6)
    m.def_support('B', False, True, True, True, False, False)
    m.add_member('M1', 'A', 'B', 'S', h.q(1), h.q(2), h.q(3), h.q(4))
    P = h.pos('P', lo=1, hi=9)
    if d[0] == 'F':
        m.add_member_dist_load('M1', d, P, P, case='W')
    else:
        m.add_member_pt_load('M1', d, P, h.q(1), 'W')
    m.add_member_pt_load('M1', 'Fy', P * h.q(3), h.q(2), 'V')
    m.add_load_combo('Q', {'W': h.q(2), 'V': h.q('1/2')})
    m.add_load_combo('R', {'W': h.q(-1)})
    m.analyze()
    rep = report(h, m)
    extremes(h, rep, m)
    ends(h, rep, m)


@harness('V02', timeout=200)
def input_report(h):
    """symbolic definitions; supports and releases in every combination of three flags each"""
    m = FE()
    v = [h.pos(n) for n in ('E', 'G', 'nu', 'rho')]
    h.assume(v[2] < h.q('1/2'))
    m.add_material('S', *v)
    x = h.vec('x', 3)
    m.add_node('A', *x)
    m.add_node('B', x[0] + h.pos('L'), x[1], x[2])
    s = [h.flag('s%d' % k) for k in range(3)]
    m.def_support('B', s[0], not s[0], s[1], s[2], not s[1], s[0])
    m.def_support('A', *[True] * 6)
    m.add_member('M1', 'A', 'B', 'S', *[h.pos(n) for n in ('Iy', 'Iz', 'J', 'A')])
    m.def_releases('M1', Dxi=s[0], Dyi=False, Dzi=s[1], Rxi=s[2], Ryi=True, Rzi=not s[1], Dxj=False, Dyj=not s[2], Dzj=False, Rxj=False, Ryj=s[1], Rzj=not s[0])
    rep = report(h, m, node_reactions=False, node_displacements=False, member_end_forces=False, member_internal_forces=False)
    inputs(h, rep, m)


@harness('V02', timeout=200)
def options(h):
    """every option switches exactly its own table; all of them are on by default"""
    m = wall(h)
    m.add_member('M1', '1', '2', 'S', h.q(1), h.q(2), h.q(3), h.q(4))
    m.analyze()
    everything = sorted(t for ts in TABLES.values() for t in ts)
    for o in TABLES:
        if o == 'member_internal_forces':
            continue
        rep = report(h, m, member_internal_forces=False, **{o: False})
        h.same(sorted(rep.tables), sorted(set(everything) - set(TABLES[o]) - {'Member Max/Min Internal Forces'}), 'tables without ' + o)
    rep = report(h, m, **{o: o in ('node_displacements', 'plate_table') for o in TABLES})
    h.same(sorted(rep.tables), ['Node Displacements', 'Plates', 'Quads'], 'tables of two options')
    table(h, rep, 'Plates', {(p.name,): [p.i_node.name, p.j_node.name, p.m_node.name, p.n_node.name, p.t, h.q(100), h.q('0.25')] for p in m.plates.values()}, 1, 'only plates')


@harness('V02', timeout=200)
def analysed_combinations(h):
    """results are listed for the combinations that were analysed, again after another analysis"""
    m = FE()
    m.add_material('S', h.q(100), h.q(40), h.q('0.3'), h.q(1))
    m.add_node('A', h.q(1), h.q(2), h.q(3))
    m.add_node('B', h.q(5), h.q(2), h.q(3))
    m.def_support('A', *[True] * 6)
    m.add_member('M1', 'A', 'B', 'S', h.q(1), h.q(2), h.q(3), h.q(4))
    P = h.pos('P', lo=1, hi=9)
    m.add_node_load('B', 'FY', P, 'W')
    m.add_load_combo('Q', {'W': h.q(2)}, ['use'])
    m.add_load_combo('R', {'W': h.q(-1)}, ['later'])
    m.analyze(combo_tags=['use'])
    for combos, f in ((['Q'], 2), (['Q', 'R'], -1)):
        rep = report(h, m)
        table(h, rep, 'Node Displacements', {(n.name, c): [getattr(n, d)[c] for d in ('DX', 'DY', 'DZ', 'RX', 'RY', 'RZ')] for n in m.nodes.values() for c in combos}, 2, 'displacements')
        table(h, rep, 'Node Reactions', {(n.name, c): [getattr(n, 'Rxn' + d)[c] for d in ('FX', 'FY', 'FZ', 'MX', 'MY', 'MZ')] for n in m.nodes.values() for c in combos}, 2, 'reactions')
        row = [r for r in rep.tables['Node Reactions'] if r[:2] == ['A', combos[-1]]][0]
        h.close(h.number(row[3]), -f * P, 'reaction')
        row = [r for r in rep.tables['Member End Forces'] if r[:2] == ['M1', combos[-1]]][0]
        h.close(h.number(row[4]), -f * P, 'shear')
        m.analyze()
