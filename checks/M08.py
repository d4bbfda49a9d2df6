"""Reported extremes bound the diagram and are attained."""
from engine.harness import harness
from checks.common import *

BOUNDS = ('Cantilever with symbolic length, tip force and tip moment (so that end forces are arbitrary) and one or two loads '
          'on the member with symbolic magnitudes and positions: point loads, point moments, uniform, partial uniform and '
          'linearly varying loads; bound checked at a symbolic position, attainment over the exact candidate positions '
          '(piece ends and stationary points). Two combinations with different factors. Linear analyses.')

GET = {'Vy': ('shear', 'Fy'), 'Vz': ('shear', 'Fz'), 'Mz': ('moment', 'Mz'), 'My': ('moment', 'My'), 'T': ('torque', None), 'P': ('axial', None)}
DEN = {'Vy': 'Fy', 'Vz': 'Fz', 'Mz': 'Fy', 'My': 'Fz', 'P': 'Fx', 'T': None}


def extreme(M, which, comp, combo):
    name, d = GET[comp]
    fn = getattr(M, which + '_' + name)
    return fn(d, combo) if d else fn(combo)


def value(piece, comp, t):
    s, e, v, w, b = piece
    if comp == 'T':
        return v['T']
    w, b = w[DEN[comp]], b[DEN[comp]]
    if comp[0] in 'PV':
        return v[comp] + w * t + b * t * t / 2
    V0 = v['V' + DEN[comp][1]]
    return v[comp] - V0 * t - w * t * t / 2 - b * t * t * t / 6


def stationary(h, piece, comp):
    """interior positions t with zero derivative, as (t, condition)"""
    s, e, v, w, b = piece
    if comp == 'T':
        return []
    w, b = w[DEN[comp]], b[DEN[comp]]
    if comp[0] in 'PV':          # w + b t = 0
        return [-w / b] if h.known_nonzero(b) else []
    V0 = v['V' + DEN[comp][1]]   # V0 + w t + b t^2/2 = 0
    if h.known_nonzero(b):
        D = w * w - 2 * b * V0
        if h.known(D < 0):
            return []
        r = h.sqrt(D)
        return [(-w + r) / b, (-w - r) / b]
    return [-V0 / w] if h.known_nonzero(w) else []


def check(h, M, comp, which, f, loads, L, c, combo, tag=''):
    ext = extreme(M, which, comp, combo)
    ps = pieces(h, f, loads, L)
    sg = 1 if which == 'max' else -1
    cands = []
    for n, q in enumerate(ps):
        s, e = q[0], q[1]
        last = n == len(ps) - 1
        if h.known(h.And(s <= c, c <= e if last else c < e)):
            h.le(sg * value(q, comp, c - s), sg * ext, '%s%s %s bounds the diagram' % (tag, which, comp))
        cands += [h.near(ext, value(q, comp, h.q(0))), h.near(ext, value(q, comp, e - s))]
        for t in stationary(h, q, comp):
            cands.append(h.And(h.near(ext, value(q, comp, t)), t >= -h.q('1/1000000') if not h.exact else t >= 0,
                               t <= e - s + (0 if h.exact else h.q('1/1000000'))))
    h.cond(h.Or(*cands), '%s%s %s is attained' % (tag, which, comp))


def setup(h, specs, L=None):
    m = FE()
    p = props(h, E=h.q(1), G=h.q(1), Iy=h.q(1), Iz=h.q(1), J=h.q(1), A=h.q(1))
    L = h.pos('L') if L is None else L
    m.add_node('N1', 0, 0, 0)
    m.add_node('N2', L, 0, 0)
    add_mat(h, m, p)
    m.add_member('M1', 'N1', 'N2', 'Mat', p['Iy'], p['Iz'], p['J'], p['A'])
    fix(m, 'N1')
    return m, L


def tip(h, m, comp):
    """tip actions that make the diagram of comp arbitrary"""
    for d in {'Vy': ('FY',), 'Vz': ('FZ',), 'Mz': ('FY', 'MZ'), 'My': ('FZ', 'MY'), 'T': ('MX',), 'P': ('FX',)}[comp]:
        m.add_node_load('N2', d, h.real('tip' + d))


SP = {
    'Vy': [[('pt', 'Fy')], [('uni', 'Fy')], [('puni', 'Fy')], [('full', 'Fy')], [('pt', 'Fy'), ('pt', 'Fy')]],
    'Vz': [[('pt', 'Fz')], [('puni', 'Fz')], [('full', 'Fz')]],
    'P': [[('pt', 'Fx')], [('puni', 'Fx')], [('full', 'Fx')]],
    'T': [[('pt', 'Mx')], [('pt', 'Mx'), ('pt', 'Mx')]],
    'Mz': [[('pt', 'Fy')], [('pt', 'Mz')], [('uni', 'Fy')], [('puni', 'Fy')], [('tri', 'Fy')]],
    'My': [[('pt', 'Fz')], [('pt', 'My')], [('uni', 'Fz')], [('puni', 'Fz')], [('tri', 'Fz')]],
}
DEEP = {'Vy': [[('part', 'Fy')]], 'Vz': [[('part', 'Fz')]], 'P': [[('part', 'Fx')]], 'Mz': [[('full', 'Fy')], [('uni', 'Fy'), ('pt', 'Fy')]],
        'My': [[('full', 'Fz')], [('uni', 'Fz'), ('pt', 'Fz')]]}


def loads_of(h, ld, L):
    out = []
    for n, (k, d) in enumerate(ld):
        if k == 'puni':
            a, b, w = h.pos('a%d' % n), h.pos('b%d' % n), h.real('w%d' % n)
            h.assume(a < b)
            h.assume(b < L)
            out.append(('dist', d, w, w, a, b))
        elif k == 'tri':
            out.append(('dist', d, h.q(0), h.real('w%d' % n), h.q(0), L))
        else:
            x = sym_loads(h, [(k, d)], L)[0]
            if k == 'pt':
                x = ('pt', d, h.real('P%d' % n), h.pos('x%d' % n))
                h.assume(x[3] < L)
            out.append(x)
    return out


@harness('M08', params=[{'comp': c, 'which': w, 'ld': l} for c in SP for l in SP[c] for w in ('max', 'min')] +
         [{'comp': c, 'which': w, 'ld': l, '_tier': 'thorough'} for c in DEEP for l in DEEP[c] for w in ('max', 'min')], timeout=760)
def extremes(h, comp, which, ld):
    # lengths scale out; the cubic diagrams are decided on a unit length
    unit = comp[0] == 'M' and ld[0][0] in ('full', 'part', 'tri')
    m, L = setup(h, ld, h.q(1) if unit else None)
    loads = loads_of(h, [tuple(x) for x in ld], L)
    for x in loads:
        add_load(m, 'M1', x)
    tip(h, m, comp)
    m.analyze()
    M = m.members['M1']
    f = h.col(M.f('Combo 1'))
    c = h.nonneg('c')
    h.assume(c <= L)
    check(h, M, comp, which, f, loads, L, c, 'Combo 1')


@harness('M08', params=[{'comp': c, 'ld': l} for c, l in (('Vy', [('puni', 'Fy')]), ('Mz', [('pt', 'Fy')]), ('My', [('pt', 'Fz')]),
                                                             ('P', [('pt', 'Fx')]), ('T', [('pt', 'Mx')]), ('Vz', [('pt', 'Fz')]))])
def per_combination(h, comp, ld):
    """each combination reports its own extremes, whichever was asked for first"""
    m, L = setup(h, ld, h.q(1))
    loads = loads_of(h, [tuple(x) for x in ld], L)
    for x in loads:
        add_load(m, 'M1', x)
    m.add_load_combo('A', {'Case 1': 1})
    m.add_load_combo('B', {'Case 1': h.q(-2)})
    m.analyze()
    M = m.members['M1']
    for name, k in (('A', 1), ('B', -2), ('A', 1)):
        f = h.col(M.f(name))
        ls = [l[:2] + ((k * l[2], l[3]) if l[0] == 'pt' else (k * l[2], k * l[3], l[4], l[5])) for l in loads]
        for which in ('max', 'min'):
            sg = 1 if which == 'max' else -1
            ext = extreme(M, which, comp, name)
            cands = []
            for q in pieces(h, f, ls, L):
                for t in [h.q(0), q[1] - q[0]]:
                    v = value(q, comp, t)
                    cands.append(h.near(ext, v))
                    h.le(sg * v, sg * ext, '%s %s %s bounds' % (name, which, comp))
            h.cond(h.Or(*cands), '%s %s %s attained' % (name, which, comp))
