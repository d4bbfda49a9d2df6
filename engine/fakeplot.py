"""Stand-in for matplotlib (the tooling Python has none, and nothing is drawn): records what would be plotted."""
import sys
import types

FIGURES = []


class Figure:
    def __init__(self):
        self.lines = []          # (x, y) handed to plot()
        self.labels = {}
        self.shown = 0
        FIGURES.append(self)


class Any:
    """accepts anything"""

    def __init__(self, fig):
        self.fig = fig

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return lambda *a, **k: Any(self.fig)

    def __iter__(self):
        return iter(())


class Axes(Any):
    def plot(self, *a, **k):
        a = [v for v in a if not isinstance(v, str)]
        if len(a) == 1:
            a = [range(len(a[0])), a[0]]
        self.fig.lines.append((list(a[0]), list(a[1])))
        return [Any(self.fig)]

    def set_title(self, t, *a, **k):
        self.fig.labels['title'] = t

    def set_ylabel(self, t, *a, **k):
        self.fig.labels['y'] = t

    def set_xlabel(self, t, *a, **k):
        self.fig.labels['x'] = t

    def set(self, **k):
        for n, v in k.items():
            self.fig.labels[{'xlabel': 'x', 'ylabel': 'y'}.get(n, n)] = v


class Fig(Any):
    def add_subplot(self, *a, **k):
        return Axes(self.fig)

    def gca(self):
        return Axes(self.fig)

    def show(self, *a, **k):
        self.fig.shown += 1


CURRENT = [None]


def cur():
    if CURRENT[0] is None:
        CURRENT[0] = Figure()
    return CURRENT[0]


def figure(*a, **k):
    CURRENT[0] = Figure()
    return Fig(CURRENT[0])


def subplots(*a, **k):
    f = figure()
    return f, Axes(f.fig)


def gca():
    return Axes(cur())


def gcf():
    return Fig(cur())


def show(*a, **k):
    cur().shown += 1
    CURRENT[0] = None


def install():
    del FIGURES[:]
    CURRENT[0] = None
    if 'vfakeplot' not in sys.modules.get('matplotlib', types.ModuleType('x')).__dict__:
        mpl = types.ModuleType('matplotlib')
        mpl.vfakeplot = True
        mpl.__path__ = []
        plt = types.ModuleType('matplotlib.pyplot')
        for f in (figure, subplots, gca, gcf, show):
            setattr(plt, f.__name__, f)
        plt.plot = lambda *a, **k: gca().plot(*a, **k)
        plt.title = lambda t, *a, **k: gca().set_title(t)
        plt.xlabel = lambda t, *a, **k: gca().set_xlabel(t)
        plt.ylabel = lambda t, *a, **k: gca().set_ylabel(t)
        plt.__getattr__ = lambda n: getattr(Any(cur()), n)
        mpl.pyplot = plt
        sys.modules['matplotlib'] = mpl
        sys.modules['matplotlib.pyplot'] = plt
    return FIGURES
