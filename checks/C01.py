"""Section interaction surfaces and their gradients agree."""
from engine.harness import harness
from checks.models import *

BOUNDS = ('Any steel section (symbolic area, inertias, plastic moduli, yield stress) under any axial force and moments; the default gradient for any '
          'quadratic interaction function; members given by a section against members given by numbers, alone and in a portal frame.')
ASSUMPTIONS = ('The default gradient of Section is a central difference and is compared on functions for which that is exact (quadratic ones).',)


def steel(h, **kw):
    from PyNite.Section import SteelSection
    m = FE()
    fy = h.pos('fy')
    m.add_material('S', h.q(200), h.q(80), h.q('0.3'), h.q('0.1'), fy)
    p = {k: kw.get(k) or h.pos(k) for k in ('A', 'Iy', 'Iz', 'J', 'Zy', 'Zz')}
    s = SteelSection(m, 'W', p['A'], p['Iy'], p['Iz'], p['J'], p['Zy'], p['Zz'], 'S')
    m.add_section('W', s)
    return m, s, fy, p


@harness('C01', params=[{}], timeout=300)
def surface(h):
    m, s, fy, p = steel(h)
    h.same(m.sections['W'] is s, True, 'section in the model')
    P, My, Mz = h.real('P'), h.real('My'), h.real('Mz')
    a, b, c = P / (fy * p['A']), My / (fy * p['Zy']), Mz / (fy * p['Zz'])
    h.eq(s.Phi(P, My, Mz), a ** 2 + c ** 2 + b ** 4 + h.q('7/2') * a ** 2 * c ** 2 + 3 * a ** 6 * b ** 2 + h.q('9/2') * c ** 4 * b ** 2,
         'interaction equation (Matrix Structural Analysis 10.18)')
    z = h.q(0)
    h.eq(s.Phi(fy * p['A'], z, z), h.q(1), 'squash load')
    h.eq(s.Phi(z, -fy * p['Zy'], z), h.q(1), 'plastic moment y')
    h.eq(s.Phi(z, z, fy * p['Zz']), h.q(1), 'plastic moment z')
    h.eq(s.Phi(z, z, z), z, 'unloaded')
    for e in ((-1, 1, 1), (1, -1, 1), (1, 1, -1)):
        h.eq(s.Phi(e[0] * P, e[1] * My, e[2] * Mz), s.Phi(P, My, Mz), 'symmetric')
    h.le(z, s.Phi(P, My, Mz), 'not negative')
    h.eq(s.ry * s.ry * p['A'], p['Iy'], 'radius of gyration y')
    h.eq(s.rz * s.rz * p['A'], p['Iz'], 'radius of gyration z')


W8 = ('4/5', '-1/5', '4/105', '-1/280')      # exact for polynomials up to the eighth degree


def derivative(h, f, step):
    t = h.q(0)
    for k, w in enumerate(W8, 1):
        t = t + h.q(w) * (f(k * step) - f(-k * step))
    return t / step


@harness('C01', params=[{'wrt': k} for k in range(3)], timeout=300)
def gradient(h, wrt):
    m, s, fy, p = steel(h)
    x = [h.real('P'), h.real('My'), h.real('Mz')]
    scale = [fy * p['A'], fy * p['Zy'], fy * p['Zz']][wrt]
    g = h.col(s.G(*x))

    def f(t):
        y = list(x)
        y[wrt] = y[wrt] + t
        return s.Phi(*y)
    h.eq(g[(0, 4, 5)[wrt]], derivative(h, f, scale), 'derivative %d' % wrt)
    h.zero(g[1:4], 'shears and torsion have no part')
    h.same(len(g), 6, 'six components')


@harness('C01', params=[{}], timeout=300)
def outward(h):
    """the gradient points out of the surface: proportional loading never decreases the function"""
    m, s, fy, p = steel(h)
    x = [h.real('P'), h.real('My'), h.real('Mz')]
    g = h.col(s.G(*x))
    h.le(h.q(0), g[0] * x[0] + g[4] * x[1] + g[5] * x[2], 'outward')


@harness('C01', params=[{}], timeout=300)
def default(h):
    from PyNite.Section import Section
    m = FE()
    m.add_material('S', h.q(200), h.q(80), h.q('0.3'), h.q('0.1'), h.q(3))
    c = {k: h.real('c' + k) for k in ('1', 'p', 'y', 'z', 'pp', 'yy', 'zz', 'py', 'pz', 'yz')}

    class Quadratic(Section):
        def Phi(self, p, y, z):
            return c['1'] + c['p'] * p + c['y'] * y + c['z'] * z + c['pp'] * p * p + c['yy'] * y * y + c['zz'] * z * z + c['py'] * p * y + c['pz'] * p * z + c['yz'] * y * z
    s = Quadratic(m, 'Q', h.q(1), h.q(1), h.q(1), h.q(1), 'S')
    p, y, z = h.real('P'), h.real('My'), h.real('Mz')
    g = h.col(s.G(p, y, z))
    if h.exact:
        want = [c['p'] + 2 * c['pp'] * p + c['py'] * y + c['pz'] * z, h.q(0), h.q(0), h.q(0),
                c['y'] + 2 * c['yy'] * y + c['py'] * p + c['yz'] * z, c['z'] + 2 * c['zz'] * z + c['pz'] * p + c['yz'] * y]
        h.alleq(g, want, 'gradient')
    else:
        want = [c['p'] + 2 * c['pp'] * p + c['py'] * y + c['pz'] * z, 0, 0, 0,
                c['y'] + 2 * c['yy'] * y + c['py'] * p + c['yz'] * z, c['z'] + 2 * c['zz'] * z + c['pz'] * p + c['yz'] * y]
        for k in range(6):
            if abs(g[k] - want[k]) > 1e-4 * (1 + abs(want[k])):
                h.eq(g[k], want[k], 'gradient[%d]' % k)


@harness('C01', params=[{'kind': k} for k in ('steel', 'plain')], timeout=300)
def member(h, kind):
    """a member given by a section equals the member given by its numbers; extra numbers are ignored"""
    from PyNite.Section import Section
    m, s, fy, p = steel(h)
    if kind == 'plain':
        s = Section(m, 'V', p['A'], p['Iy'], p['Iz'], p['J'], 'S')
        m.add_section('V', s)
    L = h.pos('L')
    m.add_node('N1', h.q(0), h.q(0), h.q(0))
    m.add_node('N2', L, h.q(0), h.q(0))
    m.add_member('M1', 'N1', 'N2', 'S', section_name=s.name)
    m.add_member('M2', 'N1', 'N2', 'S', p['Iy'], p['Iz'], p['J'], p['A'])
    m.add_member('M3', 'N1', 'N2', 'S', h.q(77), h.q(78), h.q(79), h.q(80), section_name=s.name)
    m.add_member_self_weight('FY', h.q(-1))
    k2 = h.col(m.members['M2'].k())
    for n in ('M1', 'M3'):
        h.alleq(h.col(m.members[n].k()), k2, 'stiffness ' + n)
        h.alleq(list(m.members[n].DistLoads[0][1:3]), list(m.members['M2'].DistLoads[0][1:3]), 'self weight')
    h.raises(lambda: m.add_section('W', s), (Exception,), 'section name already in use')
    h.raises(lambda: m.add_member('M4', 'N1', 'N2', 'S', section_name='nothing'), (Exception,), 'unknown section')
