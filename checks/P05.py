"""Surface pressures."""
from engine.harness import harness
from checks.plates import *
from checks.P04 import area

BOUNDS = ('One plate (symbolic size) or quadrilateral (eight rational shapes and a symbolic rectangle) in rational frames; three symbolic pressures in two '
          'cases plus one in an unused case, symbolic combination factors; fixed-end forces, assembled load vector and reactions of the clamped element.')


def centroid(h, pts):
    A = area(h, pts)
    cx = cy = h.q(0)
    for a in range(len(pts)):
        b = (a + 1) % len(pts)
        k = pts[a][0] * pts[b][1] - pts[b][0] * pts[a][1]
        cx = cx + (pts[a][0] + pts[b][0]) * k
        cy = cy + (pts[a][1] + pts[b][1]) * k
    return A, cx / (6 * A), cy / (6 * A)


def check(h, kind, pts, fr, how, **kw):
    T = frame(h, fr)
    o = [h.q(2), h.q(-1), h.q(3)]
    m, P, p = element(h, kind, pts, T=T, origin=o, **kw)
    add = m.add_plate_surface_pressure if kind == 'plate' else m.add_quad_surface_pressure
    a, b, c = h.real('pa'), h.real('pb'), h.real('pc')
    add('P1', a, 'D')
    add('P1', b, 'L')
    add('P1', c, 'D')
    add('P1', h.real('px'), 'X')
    fd, fl = h.real('fd'), h.real('fl')
    m.add_load_combo('U', {'D': fd, 'L': fl})
    m.add_load_combo('V', {'L': h.q(1), 'W': h.q(3)})
    m.add_load_combo('N', {'W': h.q(1)})
    fix(m, *'ijmn')
    run(m, how)
    A, cx, cy = centroid(h, pts)
    G = [o[k] + cx * T[0][k] + cy * T[1][k] for k in range(3)]
    X = {n: [m.nodes[n].X, m.nodes[n].Y, m.nodes[n].Z] for n in 'ijmn'}
    for combo, pr in (('U', fd * (a + c) + fl * b), ('V', b), ('N', h.q(0))):
        want = [pr * A * T[2][k] for k in range(3)]
        wm = h.cross(G, want)
        FER = h.col(P.FER(combo))
        gl = h.col(m.FER(combo))
        for tag, vec, sg in (('end forces', FER, -1), ('assembled', gl, -1),
                             ('reactions', [getattr(m.nodes[n], r)[combo] for n in 'ijmn' for r in ('RxnFX', 'RxnFY', 'RxnFZ', 'RxnMX', 'RxnMY', 'RxnMZ')], -1)):
            S = M = [h.q(0)] * 3
            for i, n in enumerate('ijmn'):
                f = vec[6 * i:6 * i + 3]
                S = [S[k] + f[k] for k in range(3)]
                cr = h.cross(X[n], f)
                M = [M[k] + cr[k] + vec[6 * i + 3 + k] for k in range(3)]
            h.alleq([sg * x for x in S], want, '%s %s force' % (combo, tag))
            h.alleq([sg * x for x in M], wm, '%s %s moment' % (combo, tag))
    # every corner takes its share in the direction of the normal
    FER = h.col(P.FER('V'))
    for i in range(4):
        f = FER[6 * i:6 * i + 3]
        h.eq(h.dot(T[0], f), h.q(0), 'no force along x')
        h.eq(h.dot(T[1], f), h.q(0), 'no force along y')


@harness('P05', params=[{'fr': f, 'how': w} for f, w in zip(FRAMES, ('gen', 'lin', 'gen-d', 'lin-d', 'gen', 'gen', 'pd', 'gen'))], timeout=400)
def plate(h, fr, how):
    check(h, 'plate', rect(h, h.pos('W'), h.pos('H')), fr, how, E=h.q(1), t=h.q(1))


@harness('P05', params=[{'sh': s, 'fr': f, 'how': w} for s, f, w in zip(QUADS, FRAMES, ('gen', 'lin', 'gen-d', 'lin-d', 'gen', 'gen', 'pd', 'gen'))], timeout=400)
def quad(h, sh, fr, how):
    check(h, 'quad', [(h.q(x), h.q(y)) for x, y in QUADS[sh]], fr, how, E=h.q(1), t=h.q(1))


@harness('P05', timeout=400)
def quad_rectangle(h):
    check(h, 'quad', rect(h, h.pos('W'), h.pos('H')), 'XY', 'gen', E=h.q(1), t=h.q(1))


@harness('P05', params=[{'kind': k} for k in ('plate', 'quad')], timeout=400)
def consistent(h, kind):
    """equal shares for a rectangle; edge moments of plates do the work of the pressure over the shape functions"""
    W, H = h.pos('W'), h.pos('H')
    pts = rect(h, W, H)
    m, P, p = element(h, kind, pts, E=h.q(1), t=h.q(1))
    pr = h.real('p')
    (m.add_plate_surface_pressure if kind == 'plate' else m.add_quad_surface_pressure)('P1', pr)
    m.add_load_combo('U', {'Case 1': h.q(1)})
    f = h.col(P.fer('U'))
    for a in range(4):
        h.eq(f[6 * a + 2], -pr * W * H / 4, 'quarter')
    for ab in ACM if kind == 'plate' else BIL:
        w = mono(h, ab)
        if kind == 'plate':
            h.eq(h.dot(nodal_bending(h, w, pts), f), -pr * w.rect(W, H), 'work %d%d' % ab)
        else:
            h.eq(sum((w.at(x, y) * f[6 * a + 2] for a, (x, y) in enumerate(pts)), h.q(0)), -pr * w.rect(W, H), 'work %d%d' % ab)
