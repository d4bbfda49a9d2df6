"""Structures described twice: as a PyNite model and as data for an independent equilibrium oracle."""
from checks.common import *


class Desc:
    """Builds the PyNite model through its public API and remembers what was built.

    The oracle (residual) computes, from nodal displacements only, the force that the rest of the structure and the
    applied loads leave unbalanced at every degree of freedom, using exact beam theory (common.k_exact, fer_exact) and
    the documented axes.  It never calls PyNite."""

    def __init__(self, h):
        self.h = h
        self.m = FE()
        self.X = {}
        self.sup = {}
        self.mem = {}
        self.spr = {}
        self.ssp = {}
        self.nl = []
        self.ml = []
        self.enf = {}
        self.mats = {}
        self.q = h.q

    def node(self, n, x, y, z):
        v = [self.q(c) if isinstance(c, (int, str)) else c for c in (x, y, z)]
        self.m.add_node(n, *v)
        self.X[n] = v
        self.sup[n] = [False] * 6
        return n

    def mat(self, name, E, G, rho=1):
        self.mats[name] = (E, G)
        self.m.add_material(name, E, G, self.q('0.3'), self.q(rho) if isinstance(rho, (int, str)) else rho)

    def member(self, name, i, j, mat='S', A=None, Iy=None, Iz=None, J=None, kind='gen', rel=(), **kw):
        q = self.q
        A, Iy, Iz, J = [q(d) if s is None else (q(s) if isinstance(s, (int, str)) else s) for s, d in ((A, 2), (Iy, 3), (Iz, 5), (J, 4))]
        self.m.add_member(name, i, j, mat, Iy, Iz, J, A, **kw)
        self.mem[name] = dict(i=i, j=j, p=dict(E=self.mats[mat][0], G=self.mats[mat][1], A=A, Iy=Iy, Iz=Iz, J=J), kind=kind, rel=tuple(rel))
        if rel:
            self.m.def_releases(name, *[k in rel for k in range(12)])

    def support(self, n, dofs='XYZxyz'):
        f = [c in dofs for c in 'XYZxyz']
        self.sup[n] = f
        self.m.def_support(n, *f)

    def spring(self, name, i, j, ks, **kw):
        self.m.add_spring(name, i, j, ks, **kw)
        self.spr[name] = (i, j, ks)

    def support_spring(self, n, dof, k, direction=None):
        self.m.def_support_spring(n, dof, k, direction)
        self.ssp[(n, DOFS.index(dof))] = (k, direction)

    def load(self, n, d, P, case='Case 1'):
        self.m.add_node_load(n, d, P, case)
        self.nl.append((n, FDIR.index(d), P, case))

    def mload(self, name, load, case='Case 1'):
        add_load(self.m, name, load, case)
        self.ml.append((name, load, case))

    def disp(self, n, dof, v):
        self.m.def_node_disp(n, dof, v)
        self.enf[(n, DOFS.index(dof))] = v

    # ------------------------------------------------------------ results
    def disps(self, combo='Combo 1', m=None):
        m = m or self.m
        return {(n, k): getattr(m.nodes[n], DOFS[k])[combo] for n in self.X for k in range(6)}

    def rxns(self, combo='Combo 1', m=None):
        m = m or self.m
        return {(n, k): getattr(m.nodes[n], 'Rxn' + FDIR[k])[combo] for n in self.X for k in range(6)}

    # ------------------------------------------------------------ oracle
    def geometry(self, name):
        h, d = self.h, self.mem[name]
        return axes(h, self.X[d['i']], self.X[d['j']], d['kind'])

    def end_forces(self, name, D, factors, active=True):
        """12 global end forces of a member (what it needs from its nodes)"""
        h, d = self.h, self.mem[name]
        T, L = self.geometry(name)
        K = k_exact(h, d['p'], L)
        fer = [h.q(0)] * 12
        for nm, ld, case in self.ml:
            if nm != name or case not in factors:
                continue
            f = factors[case]
            for l2 in self.local(ld, T):
                v = fer_exact(h, L, l2)
                fer = [a + f * b for a, b in zip(fer, v)]
        u = []
        for n in (d['i'], d['j']):
            for o in (0, 3):
                g = [D[(n, o + k)] for k in range(3)]
                u += [h.dot(T[r], g) for r in range(3)]
        if not active:
            K = [[h.q(0)] * 12 for _ in range(12)]
            f = fer
        else:
            f = released_forces(h, K, fer, u, list(d['rel']))
        out = []
        for o in (0, 3, 6, 9):
            out += [h.dot([T[r][c] for r in range(3)], f[o:o + 3]) for c in range(3)]
        return out

    def local(self, ld, T):
        d = ld[1]
        if d[1] in 'xyz':
            return [ld]
        g = 'XYZ'.index(d[1])
        out = []
        for r in range(3):
            t = T[r][g]
            if ld[0] == 'pt':
                out.append(('pt', d[0] + 'xyz'[r], ld[2] * t, ld[3]))
            else:
                out.append(('dist', d[0] + 'xyz'[r], ld[2] * t, ld[3] * t, ld[4], ld[5]))
        return out

    def residual(self, D, factors, inactive=(), off=()):
        """force required from outside at every DOF: element end forces + support-spring forces - applied node loads"""
        h = self.h
        R = {(n, k): h.q(0) for n in self.X for k in range(6)}
        for name, d in self.mem.items():
            f = self.end_forces(name, D, factors, name not in inactive)
            for o, n in ((0, d['i']), (6, d['j'])):
                for k in range(6):
                    R[(n, k)] = R[(n, k)] + f[o + k]
        for name, (i, j, ks) in self.spr.items():
            if name in inactive:
                continue
            e, _ = self.unit(i, j)
            s = h.dot(e, [D[(j, k)] - D[(i, k)] for k in range(3)]) * ks
            for k in range(3):
                R[(i, k)] = R[(i, k)] - s * e[k]
                R[(j, k)] = R[(j, k)] + s * e[k]
        for n, k, P, case in self.nl:
            if case in factors:
                R[(n, k)] = R[(n, k)] - factors[case] * P
        return R

    def unit(self, i, j):
        h = self.h
        d = [b - a for a, b in zip(self.X[i], self.X[j])]
        L = h.sqrt(h.dot(d, d))
        return [c / L for c in d], L

    def applied(self, factors):
        """total applied force and moment about the origin (no inactive/active distinction)"""
        h = self.h
        F, M = [h.q(0)] * 3, [h.q(0)] * 3

        def add(p, f, c):
            for k in range(3):
                F[k] = F[k] + f[k]
            x = h.cross(p, f)
            for k in range(3):
                M[k] = M[k] + x[k] + c[k]
        z = [h.q(0)] * 3
        for n, k, P, case in self.nl:
            if case in factors:
                v = list(z)
                v[k % 3] = factors[case] * P
                add(self.X[n], v if k < 3 else z, z if k < 3 else v)
        for name, ld, case in self.ml:
            if case not in factors:
                continue
            T, L = self.geometry(name)
            X = self.X[self.mem[name]['i']]
            f = factors[case]
            d = ld[1]
            ax = T['xyz'.index(d[1])] if d[1] in 'xyz' else [h.q(1 if k == 'XYZ'.index(d[1]) else 0) for k in range(3)]
            if ld[0] == 'pt':
                v = [f * ld[2] * c for c in ax]
                p = [a + T[0][k] * ld[3] for k, a in enumerate(X)]
                add(p, v if d[0] == 'F' else z, z if d[0] == 'F' else v)
            else:
                w1, w2, x1, x2 = ld[2:]
                W = (w1 + w2) / 2 * (x2 - x1)
                S = (x2 - x1) * (w1 * (2 * x1 + x2) + w2 * (x1 + 2 * x2)) / 6
                # force W, first moment S about the start of the member
                add(X, [f * W * c for c in ax], h.cross(T[0], [f * S * c for c in ax]))
        return F, M

    def check_equilibrium(self, combo='Combo 1', factors=None, inactive=(), off=None, tag=''):
        """every DOF: balance, and supports do what they say"""
        h = self.h
        factors = {'Case 1': h.q(1)} if factors is None else factors
        D, Rx = self.disps(combo), self.rxns(combo)
        R = self.residual(D, factors, inactive)
        sc = None
        for key in R:
            n, k = key
            lab = '%s%s %s' % (tag, n, DOFS[k])
            ss = self.ssp.get(key)
            want = R[key]
            if self.sup[n][k]:
                if key in self.enf:
                    h.eq(D[key], self.enf[key], lab + ' prescribed')
                else:
                    h.eq(D[key], h.q(0), lab + ' at rest')
                h.eq(Rx[key], want, lab + ' reaction')
            elif ss is not None:
                kk, dr = ss
                if off is not None:
                    act = key not in off
                else:
                    act = dr is None
                h.eq(Rx[key], -kk * D[key] if act else h.q(0), lab + ' spring reaction')
                h.eq(Rx[key], want, lab + ' spring support balance')
            else:
                if key in self.enf:
                    h.eq(D[key], self.enf[key], lab + ' prescribed')
                else:
                    h.eq(want, h.q(0), lab + ' balance')
                    h.eq(Rx[key], h.q(0), lab + ' no reaction')


# ------------------------------------------------------------------------------- structures
def portal(h, loads=True, sym=()):
    """plane-ish frame in space: column up, beam along X, oblique strut; member and node loads, all symbolic magnitudes"""
    d = Desc(h)
    d.mat('S', h.q(1000), h.q(400))
    d.node('A', 0, 0, 0)
    d.node('B', 0, 3, 0)
    d.node('C', 4, 3, 0)
    d.node('D', 4, 0, 0)
    d.member('M1', 'A', 'B', kind='up')
    d.member('M2', 'B', 'C')
    d.member('M3', 'C', 'D', kind='down', A=3, Iy=2, Iz=1, J=1)
    d.support('A')
    d.support('D', 'XYZ')
    return d


def tripod(h):
    """three oblique members with rational direction cosines meeting in one node"""
    d = Desc(h)
    d.mat('S', h.q(100), h.q(40))
    d.mat('C', h.q(30), h.q(20))
    d.node('T', 1, 2, 3)
    d.node('P', 1 + 2 * 2, 2 + 1 * 2, 3 + 2 * 2)      # 2-1-2 times 2
    d.node('Q', 1 - 6, 2 + 2, 3 + 3)                   # -6-2-3
    d.node('R', 1 + 3, 2 - 4, 3)                       # 3-4-0
    d.member('MP', 'T', 'P')
    d.member('MQ', 'Q', 'T', mat='C', A=5, Iy=1, Iz=2, J=3)
    d.member('MR', 'T', 'R', A=1)
    for n in 'PQR':
        d.support(n)
    return d


def cantilever(h, L=None, fixed=None):
    """one member along X with symbolic section and length"""
    d = Desc(h)
    p = props(h, **(fixed or {}))
    L = h.pos('L') if L is None else L
    d.mat('S', p['E'], p['G'])
    d.node('A', 0, 0, 0)
    d.node('B', L, h.q(0), h.q(0))
    d.member('M1', 'A', 'B', A=p['A'], Iy=p['Iy'], Iz=p['Iz'], J=p['J'])
    d.support('A')
    return d, L


def node_loads(h, d, n, tag='', case='Case 1', dirs=FDIR):
    for f in dirs:
        d.load(n, f, h.real('P%s%s%s' % (n, f, tag)), case)


def std_loads(h, d, name, L, tag='', case='Case 1', glob=True):
    """one of each load type on a member of (rational) length L, symbolic magnitudes"""
    q = h.q
    a = 'XYZ' if glob else 'xyz'
    d.mload(name, ('dist', 'F' + a[1], h.real('w1' + tag), h.real('w2' + tag), q(0), L), case)
    d.mload(name, ('dist', 'F' + a[0], h.real('w3' + tag), h.real('w4' + tag), L / 4, L / 2), case)
    d.mload(name, ('dist', 'F' + a[2], h.real('w5' + tag), h.real('w5' + tag), q(0), L), case)
    d.mload(name, ('pt', 'F' + a[0], h.real('p1' + tag), L / 3), case)
    d.mload(name, ('pt', 'Fz', h.real('p2' + tag), L / 2), case)
    d.mload(name, ('pt', 'My', h.real('p3' + tag), L / 5), case)
    d.mload(name, ('pt', 'M' + a[2], h.real('p4' + tag), L), case)
    d.mload(name, ('pt', 'Mx', h.real('p5' + tag), q(0)), case)


def run(m, how, **kw):
    """how: 'gen', 'gen-d', 'lin', 'lin-d', 'pd', 'pd-d' (d: dense)"""
    fn = {'gen': m.analyze, 'lin': m.analyze_linear, 'pd': m.analyze_PDelta}[how.split('-')[0]]
    return fn(sparse=not how.endswith('-d'), **kw)


SOLVERS = ('gen', 'gen-d', 'lin', 'lin-d')
