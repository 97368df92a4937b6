"""Recorders standing in for matplotlib and ipycanvas: drawings keep their (symbolic) coordinates, colours and labels."""
import contextlib
import random

STATE = {'figs': [], 'canvases': [], 'displayed': [], 'shown': 0, 'saved': []}


class Rect:
    def __init__(self, xy, width, height, **kw):
        self.x, self.y, self.w, self.h = xy[0], xy[1], width, height
        self.fc = kw.get('fc', kw.get('facecolor', kw.get('color')))

    def set_facecolor(self, c):
        self.fc = c

    set_fc = set_color = set_facecolor

    def get_facecolor(self):
        return self.fc

    def get_width(self):
        return self.w

    def get_height(self):
        return self.h

    def get_x(self):
        return self.x

    def get_y(self):
        return self.y

    def get_xy(self):
        return (self.x, self.y)


class Patches:
    def __init__(self, patches, match_original=False, **kw):
        self.patches = list(patches)
        self.facecolor = kw.get('facecolor', kw.get('facecolors', kw.get('fc', kw.get('color'))))
        self.original = match_original

    def rects(self):
        if not self.original:
            # without match_original the collection decides about colours
            return [(r.x, r.y, r.w, r.h, self.facecolor) for r in self.patches]
        return [(r.x, r.y, r.w, r.h, r.fc) for r in self.patches]


class Obj:
    """an object of the drawing library nobody looks at"""

    def __init__(self):
        self.calls = []

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)

        def f(*a, **kw):
            self.calls.append((k, a, kw))
            return Obj()
        return f

    def __iter__(self):
        return iter(())

    def got(self, k):
        return [(a, kw) for n, a, kw in self.calls if n == k]


class Axes(Obj):
    def __init__(self, fig):
        super().__init__()
        self.figure = fig
        self.drawn, self.legends, self.scatters, self.hists = [], [], [], []

    def add_patch(self, r):
        self.drawn.append((r.x, r.y, r.w, r.h, r.fc))
        return r

    def add_artist(self, a):
        return self.add_collection(a) if isinstance(a, Patches) else self.add_patch(a)

    def add_collection(self, c, *a, **kw):
        self.drawn += c.rects()
        return c

    def legend(self, *a, **kw):
        h = kw.get('handles', a[0] if len(a) > 0 else None)
        n = kw.get('labels', a[1] if len(a) > 1 else None)
        self.legends.append((None if h is None else list(h), None if n is None else list(n)))
        return Obj()

    def scatter(self, *a, **kw):
        self.scatters.append((a, kw))
        return Obj()

    def hist(self, x, bins=None, **kw):
        self.hists.append((list(x), None if bins is None else list(bins), kw))
        return [], [], Obj()


class Fig(Obj):
    def __init__(self):
        super().__init__()
        self.axes, self.saved, self.shown, self.closed = [], [], 0, 0
        STATE['figs'].append(self)

    def add_subplot(self, *a, **kw):
        ax = Axes(self)
        ax.projection = kw.get('projection')
        self.axes.append(ax)
        return ax

    add_axes = add_subplot

    def subplots(self, r=1, c=1, squeeze=True, **kw):
        import numpy as np
        arr = np.empty((r, c), dtype=object)
        for i in range(r):
            for j in range(c):
                arr[i, j] = self.add_subplot()
        if not squeeze:
            return arr
        if r == c == 1:
            return arr[0, 0]
        return arr.squeeze() if 1 in (r, c) else arr

    def gca(self):
        return self.axes[-1] if self.axes else self.add_subplot()

    def savefig(self, path, *a, **kw):
        self.saved.append(path)

    def show(self, *a, **kw):
        self.shown += 1

    def legend(self, *a, **kw):
        return self.gca().legend(*a, **kw)


def gcf():
    open_ = [f for f in STATE['figs'] if not f.closed]
    return open_[-1] if open_ else Fig()


def subplots(nrows=1, ncols=1, **kw):
    squeeze = kw.pop('squeeze', True)
    f = Fig()
    return f, f.subplots(nrows, ncols, squeeze=squeeze)


def close(f=None):
    if f is None:
        f = gcf()
    for g in (STATE['figs'] if f == 'all' else [f]):
        g.closed += 1


class Canvas(Obj):
    def __init__(self, width=0, height=0, **kw):
        super().__init__()
        d = self.__dict__
        d.update(width=width, height=height, fill_style='black', rects=[], texts=[], files=[], observers=[], kw=kw)
        STATE['canvases'].append(self)

    def fill_rect(self, x, y, width, height=None):
        self.rects.append((x, y, width, width if height is None else height, self.fill_style))

    def fill_text(self, text, x, y, max_width=None):
        self.texts.append((text, x, y, self.fill_style))

    def observe(self, handler, names=None, **kw):
        self.observers.append((handler, names))

    def to_file(self, path):
        self.files.append(path)


@contextlib.contextmanager
def hold_canvas(*a, **kw):
    yield


def display(*objs, **kw):
    STATE['displayed'] += list(objs)


def install():
    """before anything of ficus is imported"""
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    import matplotlib.collections
    import matplotlib.patches
    plt.Rectangle = Rect
    matplotlib.patches.Rectangle = Rect
    matplotlib.collections.PatchCollection = Patches
    plt.subplots, plt.close, plt.gcf = subplots, close, gcf
    plt.figure = lambda *a, **kw: Fig()
    plt.gca = lambda *a, **kw: gcf().gca()
    plt.axis = lambda *a, **kw: (gcf().gca(), (0.0, 1.0, 0.0, 1.0))[1]
    plt.axes = lambda *a, **kw: gcf().add_subplot()
    plt.hist = lambda *a, **kw: gcf().gca().hist(*a, **kw)
    plt.scatter = lambda *a, **kw: gcf().gca().scatter(*a, **kw)
    plt.legend = lambda *a, **kw: gcf().gca().legend(*a, **kw)
    plt.savefig = lambda p, *a, **kw: gcf().savefig(p)
    plt.show = lambda *a, **kw: gcf().show()
    plt.suptitle = plt.title = plt.xlabel = plt.ylabel = lambda *a, **kw: Obj()
    import ipycanvas
    ipycanvas.Canvas, ipycanvas.hold_canvas = Canvas, hold_canvas
    import IPython.core.display_functions as df
    import IPython.display as d
    df.display = display
    d.display = display


def begin():
    for k, v in STATE.items():
        STATE[k] = 0 if type(v) is int else []


class Random:
    """random numbers chosen by the harness: draw(lo, hi) gives a number in lo..hi"""
    NAMES = ('randint', 'randrange', 'getrandbits', 'choice', 'random', 'uniform')

    def __init__(self, draw):
        self.draw = draw

    def randint(self, a, b):
        return self.draw(a, b)

    def randrange(self, a, b=None):
        return self.draw(0, a - 1) if b is None else self.draw(a, b - 1)

    def getrandbits(self, n):
        return self.draw(0, 2 ** n - 1)

    def choice(self, s):
        return s[int(self.draw(0, len(s) - 1))]

    def random(self):
        return int(self.draw(0, 255)) / 256

    def uniform(self, a, b):
        return a + (b - a) * self.random()

    def __enter__(self):
        self.old = {n: getattr(random, n) for n in self.NAMES}
        for n in self.NAMES:
            setattr(random, n, getattr(self, n))
        return self

    def __exit__(self, *a):
        for n, f in self.old.items():
            setattr(random, n, f)


def counting():
    """ever new random numbers: three members of a colour drawn one after the other never repeat"""
    st = [2]

    def draw(lo, hi):
        st[0] += 1
        n, span = st[0], hi - lo + 1
        if span >= 256 ** 3:
            return lo + n
        return lo + ((n // 3) >> (8 * (n % 3))) % span
    return draw
