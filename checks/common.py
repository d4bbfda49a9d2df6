"""Model builders and independent oracles shared by the harnesses.

Everything here runs in two modes: on exact symbolic values (while the solver decides) and on floats
(when a counterexample is replayed on the unmodified package).  Nothing here imports numpy."""

DOFS = ('DX', 'DY', 'DZ', 'RX', 'RY', 'RZ')
FDIR = ('FX', 'FY', 'FZ', 'MX', 'MY', 'MZ')


def FE():
    from PyNite import FEModel3D
    return FEModel3D()


def props(h, **fixed):
    """section and material symbols; pass e.g. G=h.q(1) to fix one"""
    p = {}
    for k in ('E', 'G', 'Iy', 'Iz', 'J', 'A'):
        p[k] = fixed[k] if k in fixed else h.pos(k)
    return p


def add_mat(h, m, p, rho=None, name='Mat'):
    m.add_material(name, p['E'], p['G'], h.q('0.3'), h.q('0.1') if rho is None else rho)


def one_member(h, coords=None, releases=None, fixed=None, **kw):
    """N1 -- M1 -- N2; coords None: along global X with symbolic length"""
    m = FE()
    p = props(h, **(fixed or {}))
    if coords is None:
        p['L'] = h.pos('L')
        coords = [(h.q(0), h.q(0), h.q(0)), (p['L'], h.q(0), h.q(0))]
    m.add_node('N1', *coords[0])
    m.add_node('N2', *coords[1])
    add_mat(h, m, p)
    m.add_member('M1', 'N1', 'N2', 'Mat', p['Iy'], p['Iz'], p['J'], p['A'], **kw)
    if releases:
        m.def_releases('M1', *releases)
    return m, m.members['M1'], p


def prescribe(h, m, names=('N1', 'N2'), tag='u', dofs=DOFS):
    """arbitrary symbolic displacements at every DOF of the nodes"""
    out = []
    for n in names:
        for d in dofs:
            v = h.real('%s_%s_%s' % (tag, n, d))
            m.def_node_disp(n, d, v)
            out.append(v)
    return out


def fix(m, *names):
    for n in names:
        m.def_support(n, True, True, True, True, True, True)


def sub(f, *names):
    """the sub-member that carries the results of an unsubdivided physical member"""
    return f


# ------------------------------------------------------------------ exact beam theory (oracle)
def k_exact(h, p, L=None):
    """12x12 Euler-Bernoulli stiffness in local axes, derived from end-force equilibrium of the cubic beam"""
    E, G, Iy, Iz, J, A = (p[x] for x in ('E', 'G', 'Iy', 'Iz', 'J', 'A'))
    L = p['L'] if L is None else L
    z = h.q(0)
    K = [[z for _ in range(12)] for _ in range(12)]

    def put(i, j, v):
        K[i][j] = v
        K[j][i] = v
    a, t = E * A / L, G * J / L
    put(0, 0, a); put(6, 6, a); put(0, 6, -a)
    put(3, 3, t); put(9, 9, t); put(3, 9, -t)
    for I, v, r, sg in ((Iz, 1, 5, 1), (Iy, 2, 4, -1)):
        b = E * I / (L * L * L)
        put(v, v, 12 * b); put(v + 6, v + 6, 12 * b); put(v, v + 6, -12 * b)
        put(v, r, sg * 6 * b * L); put(v, r + 6, sg * 6 * b * L)
        put(v + 6, r, -sg * 6 * b * L); put(v + 6, r + 6, -sg * 6 * b * L)
        put(r, r, 4 * b * L * L); put(r + 6, r + 6, 4 * b * L * L); put(r, r + 6, 2 * b * L * L)
    return K


def fer_exact(h, L, load):
    """Clamped-end reactions (12) of one load given in local directions.

    load = ('pt', dir, P, x) or ('dist', dir, w1, w2, x1, x2).  Obtained by superposing the clamped
    reactions of a unit load at s: integral of (shape function of the end DOF) * load."""
    z = h.q(0)
    out = [z] * 12
    # -integral N_i(s) w(s) ds with the Hermite polynomials as coefficient lists in s
    one = h.q(1)
    H = {
        'a1': [one, -1 / L], 'a2': [z, 1 / L],
        'v1': [one, z, -3 / L ** 2, 2 / L ** 3], 'r1': [z, one, -2 / L, 1 / L ** 2],
        'v2': [z, z, 3 / L ** 2, -2 / L ** 3], 'r2': [z, z, -1 / L, 1 / L ** 2],
    }

    def ev(c, s):
        t = z
        for x in reversed(c):
            t = t * s + x
        return t

    def der(c):
        return [c[i] * i for i in range(1, len(c))]

    def integ(c, w1, w2, x1, x2):
        b = (w2 - w1) / (x2 - x1)
        a = w1 - b * x1
        pr = [z] * (len(c) + 1)
        for i, x in enumerate(c):
            pr[i] = pr[i] + x * a
            pr[i + 1] = pr[i + 1] + x * b
        an = [z] + [pr[i] / (i + 1) for i in range(len(pr))]
        return ev(an, x2) - ev(an, x1)

    kind, d = load[0], load[1]
    if kind == 'pt':
        P, x = load[2], load[3]
        if d in ('Fx', 'Fy', 'Fz'):
            f = lambda c: ev(c, x) * P
        elif d in ('My', 'Mz'):
            f = lambda c: ev(der(c), x) * P
        else:
            f = lambda c: ev(c, x) * P
    else:
        f = lambda c: integ(c, *load[2:])
    if d == 'Fx':
        out[0], out[6] = -f(H['a1']), -f(H['a2'])
    elif d == 'Mx':
        out[3], out[9] = -f(H['a1']), -f(H['a2'])
    elif d == 'Fy':
        out[1], out[5], out[7], out[11] = -f(H['v1']), -f(H['r1']), -f(H['v2']), -f(H['r2'])
    elif d == 'Fz':
        out[2], out[4], out[8], out[10] = -f(H['v1']), f(H['r1']), -f(H['v2']), f(H['r2'])
    elif d == 'Mz':        # work: M * slope, slope = v'
        out[1], out[5], out[7], out[11] = -f(H['v1']), -f(H['r1']), -f(H['v2']), -f(H['r2'])
    elif d == 'My':        # rotation about y is -w'
        out[2], out[4], out[8], out[10] = f(H['v1']), -f(H['r1']), f(H['v2']), -f(H['r2'])
    return out


def add_load(m, member, load, case='Case 1'):
    if load[0] == 'pt':
        m.add_member_pt_load(member, load[1], load[2], load[3], case)
    else:
        m.add_member_dist_load(member, load[1], load[2], load[3], load[4], load[5], case)


def solve_lin(h, A, b):
    """Gauss-Jordan on lists of scalars (regular matrices only)"""
    n = len(A)
    M = [list(A[i]) + [b[i]] for i in range(n)]
    for k in range(n):
        p = None
        for i in range(k, n):
            if h.known_nonzero(M[i][k]):
                p = i
                break
        if p is None:
            raise ValueError('singular oracle system')
        M[k], M[p] = M[p], M[k]
        for i in range(n):
            if i != k:
                f = M[i][k] / M[k][k]
                if h.known_nonzero(f):
                    for j in range(k, n + 1):
                        M[i][j] = M[i][j] - f * M[k][j]
    return [M[i][n] / M[i][i] for i in range(n)]


def released_forces(h, K, fer, u, rel):
    """end forces of a member whose end DOFs `rel` are disconnected: K (u + du) + fer with the
    released components of the force equal to zero (du only at released DOFs)"""
    n = len(u)
    f0 = [h.dot(K[i], u) + fer[i] for i in range(n)]
    if not rel:
        return f0
    A = [[K[i][j] for j in rel] for i in rel]
    du = solve_lin(h, A, [-f0[i] for i in rel])
    return [f0[i] + h.dot([K[i][j] for j in rel], du) for i in range(n)]


# ------------------------------------------------------------------ member axes (oracle)
def axes(h, X1, X2, kind):
    """documented local axes: x from i to j; z horizontal; y up; verticals keep z = global Z"""
    d = [X2[i] - X1[i] for i in range(3)]
    L = h.sqrt(d[0] * d[0] + d[1] * d[1] + d[2] * d[2])
    x = [c / L for c in d]
    if kind == 'up':
        return [x, [h.q(-1), h.q(0), h.q(0)], [h.q(0), h.q(0), h.q(1)]], L
    if kind == 'down':
        return [x, [h.q(1), h.q(0), h.q(0)], [h.q(0), h.q(0), h.q(1)]], L
    # z is horizontal, perpendicular to x, and such that y = z cross x has an upward component
    H = h.sqrt(d[0] * d[0] + d[2] * d[2])
    z = [-d[2] / H, h.q(0), d[0] / H]
    return [x, h.cross(z, x), z], L


def coords_of(h, kind, tag=''):
    """end coordinates of a member in a given orientation class"""
    o = [h.real('X' + tag), h.real('Y' + tag), h.real('Z' + tag)]
    z = h.q(0)
    if kind == 'x':
        d = [h.pos('L' + tag), z, z]
    elif kind == '-x':
        d = [-h.pos('L' + tag), z, z]
    elif kind == 'z':
        d = [z, z, h.pos('L' + tag)]
    elif kind == 'up':
        d = [z, h.pos('L' + tag), z]
    elif kind == 'down':
        d = [z, -h.pos('L' + tag), z]
    elif kind == 'xy':
        d = [h.real('dx' + tag), h.real('dy' + tag), z]
        h.assume(h.Not(d[0] == 0)); h.assume(h.Not(d[1] == 0))
    elif kind == 'xz':
        d = [h.real('dx' + tag), z, h.real('dz' + tag)]
        h.assume(h.Not(h.And(d[0] == 0, d[2] == 0)))
    elif kind == 'gen':
        d = [h.real('dx' + tag), h.real('dy' + tag), h.real('dz' + tag)]
        h.assume(h.Not(h.And(d[0] == 0, d[2] == 0)))
    elif kind == 'any':
        d = [h.real('dx' + tag), h.real('dy' + tag), h.real('dz' + tag)]
        h.assume(h.Not(h.And(d[0] == 0, d[1] == 0, d[2] == 0)))
    else:       # a Pythagorean direction: rational direction cosines, symbolic length
        s = h.pos('L' + tag)
        v = {'2-1-2': ('2/3', '1/3', '2/3'), '-6-2-3': ('-6/7', '2/7', '3/7'), '3-4-0': ('3/5', '4/5', '0'), '-4-0-3': ('-4/5', '0', '3/5'),
             '-1-2-2': ('1/3', '-2/3', '-2/3')}[kind]
        d = [s * h.q(c) for c in v]
    return o, [o[i] + d[i] for i in range(3)]


# ------------------------------------------------------------------ diagrams (oracle)
def sym_loads(h, specs, L, interior=True):
    """specs: list of (kind, dir); symbolic magnitudes and positions"""
    out = []
    for n, s in enumerate(specs):
        kind, d = s[0], s[1]
        if kind == 'pt':
            x = h.pos('x%d' % n)
            h.assume(x < L)
            out.append(('pt', d, h.real('P%d' % n), x))
        elif kind == 'full':
            out.append(('dist', d, h.real('w%d' % n), h.real('v%d' % n), h.q(0), L))
        elif kind == 'uni':
            w = h.real('w%d' % n)
            out.append(('dist', d, w, w, h.q(0), L))
        else:
            a, b = h.pos('a%d' % n), h.pos('b%d' % n)
            h.assume(a < b)
            h.assume(b < L)
            out.append(('dist', d, h.real('w%d' % n), h.real('v%d' % n), a, b))
    return out


def off_loads(h, loads, c):
    """the cut c is not exactly at a load position"""
    for ld in loads:
        for x in ld[3:4] if ld[0] == 'pt' else ld[4:6]:
            h.assume(h.Not(c == x))


def _mac(h, loads, d, c, n, le=False):
    """n-fold integral from 0 to c of the load density in direction d (n = 1: resultant force)"""
    t = h.q(0)
    fact = [1, 1, 2, 6, 24, 120]

    def bracket(w1, w2, x1, x2, n):
        # linear load over [x1, x2], all of it left of c: start both branches of the Macaulay form
        b = (w2 - w1) / (x2 - x1)
        u, v = c - x1, c - x2
        s = w1 * u ** n / fact[n] + b * u ** (n + 1) / fact[n + 1]
        return s, w2 * v ** n / fact[n] + b * v ** (n + 1) / fact[n + 1]
    for ld in loads:
        if ld[1] != d:
            continue
        if ld[0] == 'pt':
            if h.known(ld[3] <= c if le else ld[3] < c):
                t = t + ld[2] * (c - ld[3]) ** (n - 1) / fact[n - 1]
        else:
            w1, w2, x1, x2 = ld[2:]
            if h.known(x1 < c):
                s, e = bracket(w1, w2, x1, x2, n)
                t = t + s
                if h.known(x2 < c):
                    t = t - e
    return t


def _step(h, loads, d, c, n=1, le=False):
    t = h.q(0)
    fact = [1, 1, 2]
    for ld in loads:
        if ld[1] == d and h.known(ld[3] <= c if le else ld[3] < c):
            t = t + ld[2] * (c - ld[3]) ** (n - 1) / fact[n - 1]
    return t


def cut_forces(h, f, loads, c, le=False):
    """internal forces at c from the i-end forces f and the loads left of c (PyNite's sign conventions);
    le: loads exactly at c are included (right-hand value)"""
    return {
        'P': f[0] + _mac(h, loads, 'Fx', c, 1, le),
        'Vy': f[1] + _mac(h, loads, 'Fy', c, 1, le),
        'Vz': f[2] + _mac(h, loads, 'Fz', c, 1, le),
        'T': f[3] + _step(h, loads, 'Mx', c, 1, le),
        'Mz': f[5] - f[1] * c - _mac(h, loads, 'Fy', c, 2, le) + _step(h, loads, 'Mz', c, 1, le),
        'My': -(f[4] + f[2] * c + _mac(h, loads, 'Fz', c, 2, le) + _step(h, loads, 'My', c, 1, le)),
    }


def breakpoints(h, loads, L):
    """sorted positions 0 .. L of all load discontinuities (ordering decided by forking)"""
    out = [h.q(0), L]
    for ld in loads:
        for x in (ld[3:4] if ld[0] == 'pt' else ld[4:6]):
            for i in range(len(out)):
                if h.known(x <= out[i]):
                    if not h.known(x == out[i]):
                        out.insert(i, x)
                    break
    return out


def pieces(h, f, loads, L):
    """[(s, e, values just right of s, load density w and slope b in x, y, z)]"""
    bp = breakpoints(h, loads, L)
    out = []
    for s, e in zip(bp, bp[1:]):
        v = cut_forces(h, f, loads, s, le=True)
        w, b = {}, {}
        for d in ('Fx', 'Fy', 'Fz'):
            w[d], b[d] = h.q(0), h.q(0)
            for ld in loads:
                if ld[0] == 'dist' and ld[1] == d and h.known(ld[4] <= s) and h.known(ld[5] >= e):
                    k = (ld[3] - ld[2]) / (ld[5] - ld[4])
                    w[d] = w[d] + ld[2] + k * (s - ld[4])
                    b[d] = b[d] + k
        out.append((s, e, v, w, b))
    return out


def curv_integrals(h, f, loads, c, p):
    """double integrals from 0 to c of the curvatures (y and z) and the integral of the axial strain"""
    EIz, EIy, EA = p['E'] * p['Iz'], p['E'] * p['Iy'], p['E'] * p['A']
    wy = -(f[5] * c ** 2 / 2 - f[1] * c ** 3 / 6 - _mac(h, loads, 'Fy', c, 4) + _step2(h, loads, 'Mz', c)) / EIz
    wz = (f[4] * c ** 2 / 2 + f[2] * c ** 3 / 6 + _mac(h, loads, 'Fz', c, 4) + _step2(h, loads, 'My', c)) / EIy
    ux = -(f[0] * c + _mac(h, loads, 'Fx', c, 2)) / EA
    return wy, wz, ux


def _step2(h, loads, d, c):
    t = h.q(0)
    for ld in loads:
        if ld[1] == d and h.known(ld[3] < c):
            t = t + ld[2] * (c - ld[3]) ** 2 / 2
    return t


def point_results(M, c, combo='Combo 1'):
    return {'P': M.axial(c, combo), 'Vy': M.shear('Fy', c, combo), 'Vz': M.shear('Fz', c, combo), 'T': M.torque(c, combo),
            'Mz': M.moment('Mz', c, combo), 'My': M.moment('My', c, combo)}


def loaded_member(h, specs, rel=(), L=None, coords=None):
    """one member along X, arbitrary symbolic end displacements, loads; analysed"""
    m, mem, p = one_member(h)
    L = p['L']
    if rel:
        m.def_releases('M1', *[i in rel for i in range(12)])
    u = prescribe(h, m)
    loads = sym_loads(h, specs, L)
    for ld in loads:
        add_load(m, 'M1', ld)
    return m, p, u, loads


# ------------------------------------------------------------------ many loads at once
BATTERY = [('pt', 'Fy', 7), ('dist', 'Fy', 1, 8), ('pt', 'Mx', 9), ('pt', 'Fy', 2), ('dist', 'FX', 2, 10), ('pt', 'MX', 8), ('pt', 'Mx', 4),
           ('pt', 'FZ', 5), ('dist', 'Fz', 0, 5), ('pt', 'MX', 3), ('pt', 'FY', 5), ('pt', 'Mz', 9), ('pt', 'My', 11), ('dist', 'Fy', 5, 11),
           ('pt', 'MY', 6), ('pt', 'MZ', 6), ('pt', 'Fx', 10), ('dist', 'FX', 0, 12), ('pt', 'Fz', 10), ('pt', 'Fz', 3), ('dist', 'FZ', 4, 6),
           ('pt', 'Fx', 4), ('pt', 'My', 1), ('pt', 'Mz', 2), ('dist', 'Fx', 6, 9), ('dist', 'Fx', 3, 7), ('dist', 'FY', 2, 7), ('dist', 'Fz', 3, 8),
           ('pt', 'FX', 11), ('pt', 'MZ', 2), ('pt', 'MY', 3), ('dist', 'FY', 7, 12), ('pt', 'FZ', 8), ('dist', 'FZ', 1, 9), ('pt', 'FX', 7), ('pt', 'FY', 1)]


def battery(h, m, name, R, L, cases=('Case 1',), only=None, tag='', globals_=True):
    """two or more loads of every type and direction, interleaved and overlapping, on one member: symbolic magnitudes,
    positions at twelfths of the length.  R: rows are the member's local axes.  Returns {case: local loads}."""
    out = {c: [] for c in cases}
    for n, s in enumerate(BATTERY):
        kind, d = s[0], s[1]
        glob = d[1].isupper()
        if (glob and not globals_) or (only and d not in only):
            continue
        case = cases[n % len(cases)]
        mags = [h.real('%sq%d%s' % (tag, n, e)) for e in ('ab' if kind == 'dist' else 'a')]
        pos = [L * h.q('%d/12' % t) for t in s[2:]]
        if kind == 'pt':
            m.add_member_pt_load(name, d, mags[0], pos[0], case)
        else:
            m.add_member_dist_load(name, d, mags[0], mags[1], pos[0], pos[1], case)
        for r in range(3):
            if glob:
                g = R[r]['XYZ'.index(d[1])]
                if not h.known_nonzero(g):
                    continue
                out[case].append((kind, d[0] + 'xyz'[r]) + tuple(g * v for v in mags) + tuple(pos))
            elif d[1] == 'xyz'[r]:
                out[case].append((kind, d) + tuple(mags) + tuple(pos))
    return out


def scaled_loads(h, by_case, factors):
    out = []
    for c, k in factors.items():
        for l in by_case.get(c, ()):
            out.append(l[:2] + ((k * l[2], l[3]) if l[0] == 'pt' else (k * l[2], k * l[3], l[4], l[5])))
    return out


def battery_model(h, kind, rel=(), nodes=(), cases=('D', 'L'), supports='fixed', globals_=True, order=1, only=None):
    """a member of rational length and direction under the battery of loads, two combinations; analysed"""
    p = dict(E=h.q(5), G=h.q(3), Iy=h.q(2), Iz=h.q(7), J=h.q(4), A=h.q(6))
    d = {'x': (12, 0, 0), 'up': (0, 12, 0), 'down': (0, -12, 0), '2-1-2': (8, 4, 8), '-1-2-2': (-4, -8, 8), '-6-2-3': (-12, 4, 6), '3-4-0': (9, 12, 0), 'z': (0, 0, -12)}[kind]
    X1 = [h.q(1), h.q(-2), h.q(3)]
    X2 = [a + b for a, b in zip(X1, d)]
    m = FE()
    add_mat(h, m, p)
    m.add_node('N1', *X1)
    m.add_node('N2', *X2)
    for k, t in enumerate(nodes):
        m.add_node('Q%d' % k, *[a + h.q(t) * b for a, b in zip(X1, d)])
    m.add_member('M1', 'N1', 'N2', 'Mat', p['Iy'], p['Iz'], p['J'], p['A'])
    if rel:
        m.def_releases('M1', *[i in rel for i in range(12)])
    fix(m, 'N1')
    if supports == 'fixed':
        fix(m, 'N2')
    R, L = axes(h, X1, X2, kind)
    L = h.q({'-6-2-3': 14, '3-4-0': 15}.get(kind, 12))
    by = battery(h, m, 'M1', R, L, cases, only=only, globals_=globals_)
    combos = {'A': {'D': h.q('3/2'), 'L': h.q(-2)}, 'B': {'L': h.q('1/2')}}
    for n, f in combos.items():
        m.add_load_combo(n, dict(f))
    m.analyze()
    p['L'] = L
    return m, p, R, {n: scaled_loads(h, by, f) for n, f in combos.items()}


CUTS = ('1/24', '1/8', '5/24', '7/24', '3/8', '11/24', '13/24', '5/8', '17/24', '19/24', '7/8', '23/24')
