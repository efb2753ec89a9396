"""Axes that record the curves drawn on them (symbolic runs), and the same record read off real matplotlib axes (concrete runs).

FakeAxes follows matplotlib 3.9's documented treatment of Axes.plot: columns of x and y are paired or broadcast, one label
per column when a sequence is given for several columns, colours from the property cycle unless given.
"""
from __future__ import annotations

import numpy as np
from matplotlib import cbook, rcsetup
from matplotlib.axes._base import _process_plot_format
from matplotlib.colors import is_color_like
from matplotlib.lines import Line2D
from matplotlib.projections.polar import PolarAxes

from .npx import arr, wrap
from .sym import Sym, Unsupported

STYLE = ("linestyle", "linewidth", "alpha", "marker", "markersize", "zorder", "drawstyle", "dashes", "visible", "gid", "markevery", "color")


class Curve:
    def __init__(self, x, y, label, color, options):
        self.x, self.y, self._label, self.color, self.options = x, y, label, color, options

    @property
    def label(self):
        l = self._label
        return None if l is None or isinstance(l, str) and l.startswith("_") else l

    def set_label(self, l):
        self._label = l

    def get_label(self):
        return self._label

    def get_color(self):
        return self.color

    def set_color(self, c):
        self.color = c

    def get_xdata(self, orig=True):
        return self.x

    def get_ydata(self, orig=True):
        return self.y

    def set(self, **kw):
        for k, v in cbook.normalize_kwargs(kw, Line2D).items():
            if k == "label":
                self._label = v
            elif k == "color":
                self.color = v
            else:
                self.options[k] = v
        return []

    def __getattr__(self, n):
        if n.startswith("set_") and n[4:] in STYLE:
            return lambda v: self.set(**{n[4:]: v})
        if n.startswith("get_") and n[4:] in STYLE:
            return lambda: self.options.get(n[4:])
        raise Unsupported(f"Line2D.{n}")


class _Fake:
    def _init(self):
        self.curves, self.cycle, self.pos, self.calls = [], [f"C{i}" for i in range(10)], 0, []
        self.said = {}

    def set_prop_cycle(self, *a, **k):
        if a == (None,):
            self.cycle, self.pos = [f"C{i}" for i in range(10)], 0
            return
        # matplotlib's own validation of the cycle
        c = rcsetup.cycler(*a, **k).by_key()
        if set(c) != {"color"}:
            raise Unsupported("property cycle of " + ", ".join(c))
        vals = list(c["color"])
        if not vals:
            raise Unsupported("empty colour cycle")
        self.cycle, self.pos = vals, 0

    def next_color(self):
        c = self.cycle[self.pos % len(self.cycle)]
        self.pos += 1
        return c

    def plot(self, *args, scalex=True, scaley=True, data=None, **kw):
        if data is not None:
            raise Unsupported("plot with data=")
        kw = cbook.normalize_kwargs(kw, Line2D)
        out, args = [], list(args)
        while args:
            n = 1
            if len(args) > 1 and not isinstance(args[1], str):
                n = 2
            one, args = args[:n], args[n:]
            fmt = args.pop(0) if args and isinstance(args[0], str) else None
            out += self._one(one, fmt, dict(kw))
        return out

    def _one(self, xy, fmt, kw):
        col = lambda v: _cols(v)
        y = col(xy[-1])
        if len(xy) == 1:
            x = col(np.arange(y.shape[0]))
        else:
            x = col(xy[0])
        if x.shape[0] != y.shape[0]:
            raise ValueError(f"x and y must have same first dimension, but have shapes {x.shape} and {y.shape}")
        nx, ny = x.shape[1], y.shape[1]
        if nx > 1 and ny > 1 and nx != ny:
            raise ValueError(f"x has {nx} columns but y has {ny} columns")
        n = 0 if nx == 0 or ny == 0 else max(nx, ny)
        label = kw.pop("label", None)
        if n > 1 and not cbook.is_scalar_or_string(label):
            if len(label) != n:
                raise ValueError(f"label must be scalar or have the same length as the input data, but found {len(label)} for {n} datasets.")
            labels = list(label)
        else:
            labels = [label] * n
        style = {}
        if fmt is not None:
            ls, mk, c = _process_plot_format(fmt)
            style = {k: v for k, v in (("linestyle", ls), ("marker", mk), ("color", c)) if v is not None}
            for k in list(style):
                if kw.get(k) is not None:
                    style.pop(k)
        new = []
        for j in range(n):
            o = {**style, **{k: v for k, v in kw.items() if v is not None}}
            c = o.pop("color", None)
            if c is None:
                c = self.next_color()
            elif not is_color_like(c):
                raise ValueError(f"{c!r} is not a valid value for color")
            new.append(Curve(x[:, j % nx], y[:, j % ny], labels[j], c, o))
        self.curves += new
        return new

    def get_lines(self):
        return list(self.curves)

    lines = property(get_lines)

    def set(self, **k):
        self.said.update(k)
        return []

    def set_xlabel(self, s, **k):
        self.said["xlabel"] = s

    def set_ylabel(self, s, **k):
        self.said["ylabel"] = s

    def _ignored(self, *a, **k):
        return None

    set_ylim = set_xlim = set_xticks = set_yticks = set_xticklabels = legend = grid = set_title = margins = autoscale_view = relim = autoscale = minorticks_on = tick_params = _ignored


class FakeAxes(_Fake):
    def __init__(self):
        self._init()

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported(f"Axes.{n}")


class FakePolar(_Fake, PolarAxes):
    def __init__(self):
        self._init()


def _cols(v):
    v = np.asarray(v)
    if v.ndim > 2:
        raise ValueError(f"x and y can be no greater than 2D, but have shape {v.shape}")
    if v.ndim < 1:
        v = v.reshape(1)
    if v.ndim == 1:
        v = v[:, None]
    return v.view(type(arr([0]))) if v.dtype == object else v


# ---- the two kinds of axes
def new_axes(B, polar=False, current=False):
    if B.symbolic:
        ax = FakePolar() if polar else FakeAxes()
        if current:
            from .proxies import PLT
            PLT._current = ax
        return ax
    import matplotlib.pyplot as plt
    plt.close("all")
    fig = plt.figure()
    ax = fig.add_subplot(projection="polar" if polar else None)
    if current:
        other = plt.figure().add_subplot()
        plt.figure(fig.number)
        plt.sca(ax)
    return ax


def curves(B, ax):
    if B.symbolic:
        return ax.curves
    out = []
    for l in ax.get_lines():
        o = {k: getattr(l, "get_" + k)() for k in ("linestyle", "linewidth", "alpha", "marker", "markersize", "zorder", "drawstyle", "visible", "gid", "markevery")}
        out.append(Curve(np.asarray(l.get_xdata(orig=True)), np.asarray(l.get_ydata(orig=True)), l.get_label(), l.get_color(), o))
    return out


def mark(B, ax):
    """Start of a new drawing: number of curves so far."""
    return len(ax.curves) if B.symbolic else len(ax.get_lines())
