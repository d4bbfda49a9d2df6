"""Constant bending patch test."""
from engine.harness import harness
from checks.plates import *

BOUNDS = ('One plate (symbolic width and height) or quadrilateral (eight rational shapes), symbolic curvatures, twist, rigid motion; moments and shears at a symbolic '
          'point; end forces; patches of distorted quads / unequal rectangles with free interior nodes found by analysis.')
ASSUMPTIONS = ['Sign convention as in the code: plates report +D times the second derivatives of the deflection, quads the opposite.',
               'Poisson ratio rational.']
SIGN = {'plate': 1, 'quad': -1}


def quadratic(h):
    return Poly(h, {ab: h.real('w%d%d' % ab) for ab in ((0, 0), (1, 0), (0, 1), (2, 0), (1, 1), (0, 2))})


def Dmat(h, p):
    t = p['t']
    f = t * t * t / 12
    return [[f * c for c in r] for r in Dplane(h, p['E'], p['nu'])]


def expected(h, kind, p, w):
    k = [c.at(h.q(0), h.q(0)) for c in curvature(w)]
    return [SIGN[kind] * h.dot(r, k) for r in Dmat(h, p)]


def area(h, pts):
    r = h.q(0)
    for a in range(len(pts)):
        b = (a + 1) % len(pts)
        r = r + pts[a][0] * pts[b][1] - pts[b][0] * pts[a][1]
    return r / 2


def check(h, kind, pts, how, **kw):
    m, P, p = element(h, kind, pts, **kw)
    w = quadratic(h)
    prescribe_field(h, m, p['T'], nodal_bending(h, w, pts))
    run(m, how)
    if kind == 'plate':
        x, y = h.real('x', lo=0), h.real('y', lo=0)
        h.assume(x <= pts[2][0])
        h.assume(y <= pts[2][1])
    else:
        x, y = h.real('xi', lo=-1, hi=1), h.real('eta', lo=-1, hi=1)
    M = expected(h, kind, p, w)
    h.alleq(h.col(P.moment(x, y)), M, 'moment')
    h.zero(h.col(P.shear(x, y)), 'no shear')
    # the end forces do the virtual work of these moments over any quadratic deflection
    F = h.col(P.f())
    A = area(h, pts)
    for ab in ((0, 0), (1, 0), (0, 1), (2, 0), (1, 1), (0, 2)):
        wj = mono(h, ab)
        kj = [c.at(h.q(0), h.q(0)) for c in curvature(wj)]
        h.eq(h.dot(nodal_bending(h, wj, pts), F), A * SIGN[kind] * h.dot(M, kj), 'virtual work %d%d' % ab)
    for a in range(4):
        h.zero(F[6 * a:6 * a + 2], 'no membrane force %d' % a)


@harness('P04', params=[{'how': w} for w in ('gen', 'lin-d')], timeout=400)
def plate(h, how):
    check(h, 'plate', rect(h, h.pos('W'), h.pos('H')), how, nu=h.q('3/10'))


@harness('P04', params=[{'sh': s, 'how': 'gen'} for s in QUADS] + [{'sh': 'trap', 'how': 'lin-d'}], timeout=400)
def quad(h, sh, how):
    kw = {} if sh in ('unit',) else dict(E=h.q(7), t=h.q('2/3'))
    check(h, 'quad', [(h.q(x), h.q(y)) for x, y in QUADS[sh]], how, T=frame(h, dict(zip(QUADS, FRAMES))[sh]), **kw)


@harness('P04', params=[{'kind': 'quad', 'how': 'gen'}, {'kind': 'quad', 'how': 'lin-d'}, {'kind': 'plate', 'how': 'gen'}, {'kind': 'plate', 'how': 'lin'}], timeout=600)
def patch(h, kind, how):
    """boundary displacements of a constant-curvature field; interior nodes are found by the analysis"""
    E, nu, t = h.q(10), h.q('1/4'), h.q('1/2')
    m = FE()
    m.add_material('C', E, E / h.q('5/2'), nu, h.q(1))
    if kind == 'quad':
        X = {'A': (0, 0), 'B': (6, 0), 'C': (6, 5), 'D': (0, 5), 'a': (1, 1), 'b': (4, 2), 'c': (4, 3), 'd': (2, 4)}
        Q = {'Q1': 'ABba', 'Q2': 'BCcb', 'Q3': 'CDdc', 'Q4': 'DAad', 'Q5': 'abcd'}
        free = 'abcd'
    else:
        X = {'%d%d' % (i, j): (x, y) for i, x in enumerate((0, 1, 4)) for j, y in enumerate((0, 2, 3))}
        Q = {'P%d%d' % (i, j): ['%d%d' % c for c in ((i, j), (i + 1, j), (i + 1, j + 1), (i, j + 1))] for i in (0, 1) for j in (0, 1)}
        free = ('11',)
    for n, (x, y) in X.items():
        m.add_node(n, h.q(x), h.q(y), h.q(0))
    for q, c in Q.items():
        (m.add_plate if kind == 'plate' else m.add_quad)(q, *c, t, 'C')
    w = quadratic(h)
    wx, wy = w.diff('x'), w.diff('y')
    for n, (x, y) in X.items():
        x, y = h.q(x), h.q(y)
        if n not in free:
            m.def_support(n, True, True, True, True, True, True)
            for d, v in (('DZ', w.at(x, y)), ('RX', wy.at(x, y)), ('RY', -wx.at(x, y))):
                m.def_node_disp(n, d, v)
    run(m, how)
    for n, (x, y) in X.items():
        x, y = h.q(x), h.q(y)
        N = m.nodes[n]
        h.eq(N.DZ['Combo 1'], w.at(x, y), n + ' w')
        h.eq(N.RX['Combo 1'], wy.at(x, y), n + ' RX')
        h.eq(N.RY['Combo 1'], -wx.at(x, y), n + ' RY')
    M = expected(h, kind, dict(E=E, nu=nu, t=t), w)
    for q in Q:
        el = (m.plates if kind == 'plate' else m.quads)[q]
        T = el.T()
        c, s = T[0, 0], T[0, 1]
        want = [c * c * M[0] + s * s * M[1] + 2 * c * s * M[2], s * s * M[0] + c * c * M[1] - 2 * c * s * M[2],
                c * s * (M[1] - M[0]) + (c * c - s * s) * M[2]]
        a, b = h.q('1/3'), h.q('1/2')
        h.alleq(h.col(el.moment(a, b)), want, q + ' moment')
        h.zero(h.col(el.shear(a, b)), q + ' shear')
