"""Plate and quad models plus independent polynomial kinematics (no numpy, no PyNite code)."""
from checks.models import *

DB = (2, 3, 4, 8, 9, 10, 14, 15, 16, 20, 21, 22)
# monomials x^a y^b of the rectangular bending element
ACM = ((0, 0), (1, 0), (0, 1), (2, 0), (1, 1), (0, 2), (3, 0), (2, 1), (1, 2), (0, 3), (3, 1), (1, 3))
BIL = ((0, 0), (1, 0), (0, 1), (1, 1))

# orthonormal right-handed frames with rational entries: rows are the local axes in global components
FRAMES = {
    'XY': ((1, 0, 0), (0, 1, 0), (0, 0, 1)),
    'XZ': ((1, 0, 0), (0, 0, -1), (0, 1, 0)),
    'YZ': ((0, 1, 0), (0, 0, 1), (1, 0, 0)),
    'ZY': ((0, 0, 1), (0, 1, 0), (-1, 0, 0)),
    'flip': ((-1, 0, 0), (0, 1, 0), (0, 0, -1)),
    '122': (('1/3', '2/3', '2/3'), ('2/3', '1/3', '-2/3'), ('-2/3', '2/3', '-1/3')),
    '236': (('2/7', '3/7', '6/7'), ('3/7', '-6/7', '2/7'), ('6/7', '2/7', '-3/7')),
    '34': (('3/5', '0', '4/5'), ('0', '1', '0'), ('-4/5', '0', '3/5')),
}


def pw(x, n):
    r = None
    for _ in range(n):
        r = x if r is None else r * x
    return r


class Poly:
    """polynomial in x, y with scalar coefficients"""

    def __init__(self, h, c=None):
        self.h, self.c = h, c or {}

    def diff(self, v):
        out = {}
        for (a, b), k in self.c.items():
            n = a if v == 'x' else b
            if n:
                out[(a - 1, b) if v == 'x' else (a, b - 1)] = k * n
        return Poly(self.h, out)

    def at(self, x, y):
        r = self.h.q(0)
        for (a, b), k in self.c.items():
            t = k
            if a:
                t = t * pw(x, a)
            if b:
                t = t * pw(y, b)
            r = r + t
        return r

    def __mul__(self, o):
        out = {}
        for (a, b), k in self.c.items():
            for (c, d), l in o.c.items():
                out[(a + c, b + d)] = out.get((a + c, b + d), self.h.q(0)) + k * l
        return Poly(self.h, out)

    def __add__(self, o):
        out = dict(self.c)
        for k, v in o.c.items():
            out[k] = out.get(k, self.h.q(0)) + v
        return Poly(self.h, out)

    def scale(self, s):
        return Poly(self.h, {k: s * v for k, v in self.c.items()})

    def rect(self, W, H):
        """integral over [0, W] x [0, H]"""
        r = self.h.q(0)
        for (a, b), k in self.c.items():
            r = r + k * pw(W, a + 1) * pw(H, b + 1) / ((a + 1) * (b + 1))
        return r


def mono(h, ab, s=None):
    return Poly(h, {ab: h.q(1) if s is None else s})


def frame(h, name):
    return [[h.q(c) for c in r] for r in FRAMES[name]]


def element(h, kind, pts, T=None, origin=None, E=None, nu=None, t=None, kx=None, ky=None, name='P1'):
    """model with one element whose corners have local coordinates pts; T: rows = local axes"""
    m = FE()
    T = frame(h, 'XY') if T is None else T
    o = [h.q(0)] * 3 if origin is None else origin
    E = h.pos('E') if E is None else E
    nu = h.q('1/4') if nu is None else nu
    t = h.pos('t') if t is None else t
    m.add_material('C', E, E / (2 * (1 + nu)), nu, h.q(1))
    for n, (x, y) in zip('ijmn', pts):
        m.add_node(n, *[o[c] + x * T[0][c] + y * T[1][c] for c in range(3)])
    kw = {}
    if kx is not None:
        kw = dict(kx_mod=kx, ky_mod=ky)
    (m.add_plate if kind == 'plate' else m.add_quad)(name, 'i', 'j', 'm', 'n', t, 'C', **kw)
    el = (m.plates if kind == 'plate' else m.quads)[name]
    return m, el, dict(E=E, nu=nu, t=t, T=T, pts=pts)


def rect(h, W, H):
    z = h.q(0)
    return [(z, z), (W, z), (W, H), (z, H)]


def nodal_bending(h, w, pts):
    """local 24-vector of the bending field w(x, y)"""
    u = []
    wx, wy = w.diff('x'), w.diff('y')
    for x, y in pts:
        u += [h.q(0), h.q(0), w.at(x, y), wy.at(x, y), -wx.at(x, y), h.q(0)]
    return u


def nodal_membrane(h, u, v, pts, drill=False):
    out = []
    for x, y in pts:
        out += [u.at(x, y), v.at(x, y), h.q(0), h.q(0), h.q(0), h.q(0)]
    return out


def to_global(h, T, loc):
    out = []
    for o in range(0, len(loc), 3):
        out += [h.dot([T[r][c] for r in range(3)], loc[o:o + 3]) for c in range(3)]
    return out


def prescribe_field(h, m, T, loc, nodes='ijmn'):
    """enforce the local field at the nodes (global components)"""
    g = to_global(h, T, loc)
    for a, n in enumerate(nodes):
        for k in range(6):
            m.def_node_disp(n, DOFS[k], g[6 * a + k])
    fix(m, *nodes)


def Dplane(h, E, nu, kx=1, ky=1):
    """plane stress matrix; factors scale the direct stress along their own axis"""
    f = E / (1 - nu * nu)
    return [[f * kx, f * nu * kx, h.q(0)], [f * nu * ky, f * ky, h.q(0)], [h.q(0), h.q(0), E / (2 * (1 + nu))]]


def strain(u, v):
    return [u.diff('x'), v.diff('y'), u.diff('y') + v.diff('x')]


def curvature(w):
    return [w.diff('x').diff('x'), w.diff('y').diff('y'), w.diff('x').diff('y').scale(w.h.q(2))]


def quad_form(h, a, D, b):
    r = Poly(h)
    for i in range(3):
        for j in range(3):
            r = r + (a[i] * b[j]).scale(D[i][j])
    return r


# convex quadrilaterals (local coordinates, i at the origin, j on the x-axis)
QUADS = {
    'unit': ((0, 0), (1, 0), (1, 1), (0, 1)),
    'rect': ((0, 0), (3, 0), (3, 2), (0, 2)),
    'trap': ((0, 0), (4, 0), (3, 2), (1, 2)),
    'kite': ((0, 0), (2, 0), (3, 3), (0, 2)),
    'para': ((0, 0), (3, 0), (4, 2), (1, 2)),
    'skew': ((0, 0), (5, 0), (4, 3), (-1, 1)),
    'thin': ((0, 0), (10, 0), (9, 1), (0, '1/2')),
    'obt': ((0, 0), (2, 0), (4, 3), (-1, 4)),
}
