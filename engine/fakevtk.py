"""Stand-in for vtk (the tooling Python has none, and nothing is drawn): builds the same pipeline and answers what the scene contains.
Data reaches a filter's output on Update(), and a mapper fed by a port brings its pipeline up to date, as in VTK."""
import sys
import types

RENDERERS = []


def _v(a):
    if len(a) == 1:
        x = a[0]
        return list(x) if hasattr(x, '__iter__') and not isinstance(x, str) else [x]
    return list(a)


class Prim:
    def __init__(self, kind, **info):
        self.kind = kind
        self.__dict__.update(info)


class Any:
    def __init__(self, *a, **k):
        self.p = {}

    def __getattr__(self, n):
        if n.startswith('__') or n == 'p':
            raise AttributeError(n)
        if n.startswith('Get'):
            return lambda *a: self.p.get(n[3:], Any())

        def f(*a, **k):
            if n.startswith('Set'):
                self.p[n[3:]] = _v(a) if a else None
        return f


class Data(Any):
    """a dataset: what a filter produced"""
    def __init__(self):
        Any.__init__(self)
        self.prims = []

    def current(self):
        return self.prims


class Source(Any):
    def __init__(self):
        Any.__init__(self)
        self.out = Data()

    def compute(self):
        return []

    def Update(self, *a):
        self.out.prims = self.compute()

    def GetOutput(self, *a):
        return self.out

    def GetOutputPort(self, *a):
        return self

    def current(self):
        self.Update()
        return self.out.prims


class vtkLineSource(Source):
    def compute(self):
        return [Prim('line', points=[self.p.get('Point1', [-0.5, 0, 0]), self.p.get('Point2', [0.5, 0, 0])])]


class vtkSphereSource(Source):
    def compute(self):
        return [Prim('sphere', center=self.p.get('Center', [0, 0, 0]), radius=self.p.get('Radius', [0.5])[0])]


class vtkCubeSource(Source):
    def compute(self):
        return [Prim('cube', center=self.p.get('Center', [0, 0, 0]), size=[self.p.get(c + 'Length', [1])[0] for c in 'XYZ'])]


class vtkConeSource(Source):
    def compute(self):
        return [Prim('cone', center=self.p.get('Center', [0, 0, 0]), direction=self.p.get('Direction', [1, 0, 0]),
                     height=self.p.get('Height', [1])[0], radius=self.p.get('Radius', [0.5])[0])]


class vtkArcSource(Source):
    def compute(self):
        return [Prim('arc', center=self.p.get('Center', [0, 0, 0]), points=[self.p.get('Point1', [0, 0.5, 0]), self.p.get('Point2', [0.5, 0, 0])],
                     negative=bool(self.p.get('Negative', [False])[0]))]

    def NegativeOn(self):
        self.p['Negative'] = [True]


class vtkVectorText(Source):
    def compute(self):
        return [Prim('text', text=self.p.get('Text', [''])[0])]

    def SetText(self, t):
        self.p['Text'] = [t]


class vtkAppendPolyData(Source):
    def __init__(self):
        Source.__init__(self)
        self.inputs = []

    def AddInputData(self, d):
        self.inputs.append(d)

    def AddInputConnection(self, *a):
        self.inputs.append(a[-1])

    def compute(self):
        return [p for d in self.inputs for p in d.current()]


class Ids:
    def __init__(self, n):
        self.ids = [0] * n

    def SetNumberOfIds(self, n):
        self.ids = (self.ids + [0] * n)[:n]

    def SetId(self, k, v):
        if not 0 <= k < len(self.ids):
            raise IndexError('SetId outside the allocated ids')
        self.ids[k] = v

    def InsertNextId(self, v):
        self.ids.append(v)

    def InsertId(self, k, v):
        self.SetNumberOfIds(max(len(self.ids), k + 1))
        self.ids[k] = v


class Cell(Any):
    size = 0

    def __init__(self):
        Any.__init__(self)
        self.idl = Ids(self.size)

    def GetPointIds(self):
        return self.idl


class vtkQuad(Cell):
    size = 4


class vtkPolygon(Cell):
    size = 0


class vtkLine(Cell):
    size = 2


class vtkPolyLine(Cell):
    size = 0


class vtkCellArray(Any):
    def __init__(self):
        Any.__init__(self)
        self.cells = []

    def InsertNextCell(self, c, ids=None):
        if isinstance(c, Cell):
            self.cells.append(list(c.idl.ids))
        elif isinstance(c, Ids):
            self.cells.append(list(c.ids))
        else:
            self.cells.append(list(ids[:c]) if ids is not None else [])
        return len(self.cells) - 1

    def InsertCellPoint(self, k):
        self.cells[-1].append(k)


class vtkPoints(Any):
    def __init__(self):
        Any.__init__(self)
        self.pts = []

    def SetNumberOfPoints(self, n):
        self.pts = (self.pts + [[0, 0, 0]] * n)[:n]

    def SetPoint(self, k, *a):
        self.pts[k] = _v(a)

    def InsertNextPoint(self, *a):
        self.pts.append(_v(a))
        return len(self.pts) - 1

    def GetPoint(self, k):
        return tuple(self.pts[k])

    def GetNumberOfPoints(self):
        return len(self.pts)


class vtkDoubleArray(Any):
    def __init__(self):
        Any.__init__(self)
        self.rows = []

    def InsertNextTuple(self, t):
        self.rows.append(t[0])

    InsertNextTuple1 = InsertNextValue = lambda self, v: self.rows.append(v)


vtkFloatArray = vtkDoubleArray


class PointData(Any):
    scalars = None

    def SetScalars(self, a):
        self.scalars = a


class vtkPolyData(Data):
    def __init__(self):
        Data.__init__(self)
        self.points = vtkPoints()
        self.lines = vtkCellArray()
        self.polys = vtkCellArray()
        self.pd = PointData()

    def SetPoints(self, p):
        self.points = p

    def SetLines(self, c):
        self.lines = c

    def SetPolys(self, c):
        self.polys = c

    def GetPointData(self):
        return self.pd

    def GetOutput(self):
        return self

    def current(self):
        P = self.points.pts
        S = self.pd.scalars
        out = [Prim('polyline', points=[P[k] for k in c]) for c in self.lines.cells]
        for c in self.polys.cells:
            out.append(Prim('polygon', points=[P[k] for k in c], scalars=[S.rows[k] for k in c] if S is not None else None))
        return out


class vtkPolyDataMapper(Any):
    src = None

    def SetInputConnection(self, *a):
        self.src = a[-1]

    def SetInputData(self, d):
        self.src = d


class vtkActor(Any):
    mapper = None

    def __init__(self):
        Any.__init__(self)
        self.prop = Any()

    def SetMapper(self, m):
        self.mapper = m

    def GetProperty(self):
        return self.prop

    def prims(self):
        if self.mapper is None or self.mapper.src is None:
            return []
        return self.mapper.src.current()


class vtkFollower(vtkActor):
    pass


class vtkRenderer(Any):
    def __init__(self):
        Any.__init__(self)
        self.actors = []
        self.camera = Any()
        RENDERERS.append(self)

    def AddActor(self, a):
        if not any(a is b for b in self.actors):
            self.actors.append(a)

    AddViewProp = AddActor2D = AddActor

    def RemoveActor(self, a):
        self.actors = [b for b in self.actors if b is not a]

    def RemoveAllViewProps(self):
        self.actors = []

    def GetActors(self):
        return [a for a in self.actors if isinstance(a, vtkActor)]

    def GetActiveCamera(self):
        return self.camera

    def scene(self):
        """(primitive, actor) for everything in the scene"""
        return [(p, a) for a in self.actors if isinstance(a, vtkActor) for p in a.prims()]


def install():
    del RENDERERS[:]
    if not hasattr(sys.modules.get('vtk'), 'vfake'):
        v = types.ModuleType('vtk')
        v.vfake = True
        g = globals()
        for n in list(g):
            if n.startswith('vtk'):
                setattr(v, n, g[n])

        def other(n):
            if n.startswith('vtk'):
                c = type(n, (Any,), {})
                setattr(v, n, c)
                return c
            raise AttributeError(n)
        v.__getattr__ = other
        sys.modules['vtk'] = v
        ip, dis = types.ModuleType('IPython'), types.ModuleType('IPython.display')
        ip.__path__ = []
        dis.Image = dis.display = lambda *a, **k: None
        ip.display = dis
        sys.modules['IPython'] = ip
        sys.modules['IPython.display'] = dis
    return RENDERERS
