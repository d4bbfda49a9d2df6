"""Stand-in for pyvista (the tooling Python has none, and nothing is drawn): records what is handed to the plotter."""
import sys
import types
from fractions import Fraction
import numpy as np

PLOTTERS = []


def _arr(x):
    a = np.array(x, dtype=object)
    if all(isinstance(v, (int, float, np.number)) for v in a.ravel()):
        a = a.astype(float)
    return a


class Mesh:
    kind = 'mesh'

    def __init__(self, kind, points=None, **info):
        self.kind = kind
        self.points = points
        self.info = info
        self.data = {}

    def __getattr__(self, n):
        if n.startswith('__') or n in ('info', 'data'):
            raise AttributeError(n)
        if n in self.info:
            return self.info[n]
        return lambda *a, **k: self

    def __setitem__(self, k, v):
        self.data[k] = v

    def __getitem__(self, k):
        return self.data[k]

    @property
    def point_data(self):
        return self.data


def Line(pointa=(-0.5, 0.0, 0.0), pointb=(0.5, 0.0, 0.0), resolution=1):
    return Mesh('line', [list(pointa), list(pointb)])


def Cube(center=(0, 0, 0), x_length=1.0, y_length=1.0, z_length=1.0, **k):
    return Mesh('cube', center=list(center), size=[x_length, y_length, z_length])


def Box(bounds=(-1, 1, -1, 1, -1, 1), **k):
    return Mesh('box', bounds=list(bounds))


def Cone(center=(0, 0, 0), direction=(1, 0, 0), height=1.0, radius=None, **k):
    return Mesh('cone', center=list(center), direction=list(direction), height=height, radius=radius)


def Sphere(radius=0.5, center=(0, 0, 0), **k):
    return Mesh('sphere', center=list(center), radius=radius)


def Arrow(start=(0, 0, 0), direction=(1, 0, 0), **k):
    return Mesh('arrow', start=list(start), direction=list(direction))


def Quadrilateral(points=None):
    return Mesh('quad', [list(p) for p in points])


def PolyData(points=None, faces=None, lines=None, **k):
    return Mesh('poly', points, faces=faces, lines=lines)


def lines_from_points(points, close=False):
    return Mesh('polyline', [list(p) for p in points])


MultipleLines = lines_from_points


def CircularArcFromNormal(center, resolution=100, normal=None, polar=None, angle=None):
    # only the ends of the arc are modelled; 215 degrees is the angle asked for by the package
    c, n, p = _arr(list(center)), _arr(list(normal)), _arr(list(polar))
    if any(type(v).__name__ == 'Sym' for v in list(c) + list(n) + list(p)):
        co, si = Fraction('-0.8191520442889918'), Fraction('-0.573576436351046')
    else:
        co, si = -0.8191520442889918, -0.573576436351046
    x = np.array([n[1] * p[2] - n[2] * p[1], n[2] * p[0] - n[0] * p[2], n[0] * p[1] - n[1] * p[0]])
    return Mesh('arc', [c + p, c + p * co + x * si], center=c, normal=n, polar=p, angle=angle)


class Plotter:
    def __init__(self, *a, **k):
        self.meshes = []         # (mesh, keyword arguments)
        self.labels = []         # (point, text) pairs
        self.shown = 0
        self.window_size = (1024, 768)
        self.off_screen = False
        PLOTTERS.append(self)

    def clear(self):
        del self.meshes[:]
        del self.labels[:]

    def add_mesh(self, mesh, *a, **k):
        self.meshes.append((mesh, k))
        return Mesh('actor')

    def add_lines(self, lines, *a, **k):
        pts = [list(p) for p in lines]
        for i in range(0, len(pts) - 1, 1 if k.get('connected') else 2):
            self.meshes.append((Mesh('line', [pts[i], pts[i + 1]]), k))

    def add_point_labels(self, points, labels, *a, **k):
        points, labels = list(points), list(labels)
        if len(points) != len(labels):
            raise ValueError('There must be one label for each point')
        self.labels.extend(zip(points, labels))

    def show(self, *a, **k):
        self.shown += 1

    def screenshot(self, *a, **k):
        self.shown += 1

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return lambda *a, **k: None


class _Any:
    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return _Any()

    def __call__(self, *a, **k):
        return _Any()


def install():
    del PLOTTERS[:]
    if not hasattr(sys.modules.get('pyvista'), 'vfake'):
        pv = types.ModuleType('pyvista')
        pv.vfake = True
        for f in (Line, Cube, Box, Cone, Sphere, Arrow, Quadrilateral, PolyData, lines_from_points, MultipleLines, CircularArcFromNormal, Plotter):
            setattr(pv, f.__name__, f)
        pv.global_theme = _Any()
        pv.set_jupyter_backend = lambda *a, **k: None
        sys.modules['pyvista'] = pv
        ip, dis = types.ModuleType('IPython'), types.ModuleType('IPython.display')
        ip.__path__ = []
        dis.Image = dis.display = _Any()
        ip.display = dis
        sys.modules['IPython'] = ip
        sys.modules['IPython.display'] = dis
    return PLOTTERS
