"""C24: labels, colours and line options reach the matching curves."""
import functools

import numpy as np

from props.c23 import bounds_inside, exact, methods, narrow, totals, uniform_params
from vlib.distspec import UNIVARIATE, label, spec_of
from vlib.fakeaxes import curves, new_axes
from vlib.harness import TIER, Case

BOUNDS = ("every plotting class and method, plain, conditional and polar; 1 to 3 curves (4 in the thorough tier; labels of six classes, thorough all, also for 12 curves) with all parameter values; label arguments of 21 kinds, colour arguments of 16 kinds, 9 line options, "
          "drawings on empty axes and on axes that already hold curves; Dirichlet plots of 2, 3 and 12 (thorough 4) components from 3 samples, fewer labels than components included")
ASSUMPTIONS = ["symbolic runs hand the curves to recording axes that follow matplotlib's documented pairing of columns; concrete runs read labels and options off real Agg axes",
               "the kernel density estimate itself is scipy's and is left abstract: one opaque function per sample"]


class Namer:
    """A callable that also records how it was called."""

    def __init__(self):
        self.asked = []

    def __call__(self, i):
        self.asked.append(i)
        return f"curve number {i}"

    def method(self, i):
        return self(i)


def several(k):
    """label argument -> labels of k curves."""
    names = [f"name {chr(122 - i)}" for i in range(k)]
    out = [
        ("None", lambda: None, [None] * k),
        ("string", lambda: "mu", [f"mu {i}" for i in range(1, k + 1)]),
        ("empty string", lambda: "", [f" {i}" for i in range(1, k + 1)]),
        ("string with a digit", lambda: "x 1", [f"x 1 {i}" for i in range(1, k + 1)]),
        ("list", lambda: list(names), names),
        ("tuple", lambda: tuple(names), names),
        ("array", lambda: np.array(names), names),
        ("object array", lambda: np.array(names, dtype=object), names),
        ("keys", lambda: dict.fromkeys(names, 1), names),
        ("values", lambda: {i: n for i, n in enumerate(names)}.values(), names),
        ("generator", lambda: (n for n in names), names),
        ("repeated names", lambda: ["same"] * k, ["same"] * k),
        ("tuple with a repetition", lambda: tuple(names[:-1] + names[:1]), names[:-1] + names[:1]),
        ("list with a repetition", lambda: names[:-1] + names[:1], names[:-1] + names[:1]),
        ("array with a repetition", lambda: np.array(names[-1:] + names[1:]), names[-1:] + names[1:]),
        ("unsorted numbers in names", lambda: [f"k={10 * (k - i)}" for i in range(k)], [f"k={10 * (k - i)}" for i in range(k)]),
        ("list with None", lambda: [None] + names[1:], [None] + names[1:]),
        ("function", lambda: lambda i: f"no {i}", [f"no {i}" for i in range(k)]),
        ("partial", lambda: functools.partial("{1} {0}".format, 7), [f"{i} 7" for i in range(k)]),
        ("callable object", Namer, [f"curve number {i}" for i in range(k)]),
        ("method", lambda: Namer().method, [f"curve number {i}" for i in range(k)]),
    ]
    return out


def single():
    return [("None", lambda: None, None), ("string", lambda: "mu", "mu"), ("string with a digit", lambda: "a 1", "a 1")]


COLORS = ["red", "#00ff7f", "C1", "0.25", "tab:blue", (0.1, 0.2, 0.3), (0.1, 0.2, 0.3, 0.5), "k"]


def color_lists(k):
    names, rgb = ["red", "green", "blue", "black"][:k], [(0.1 * i, 0.5, 0.25) for i in range(1, k + 1)]
    return [("list", list(names), names), ("tuple", tuple(names), names), ("array", np.array(names), names), ("tuples", list(rgb), rgb), ("matrix", np.array(rgb), rgb),
            ("greys", ["0.1", "0.5", "0.75", "0.9"][:k], ["0.1", "0.5", "0.75", "0.9"][:k]), ("hex", ["#ff0000", "#00ff00", "#0000ff", "#777777"][:k], ["#ff0000", "#00ff00", "#0000ff", "#777777"][:k])]


OPTIONS = [dict(linestyle="--"), dict(ls=":"), dict(linewidth=3.5), dict(lw=0.5), dict(alpha=0.25), dict(zorder=7), dict(gid="me"), dict(linestyle="-.", linewidth=2, alpha=0.5, zorder=3, gid="all"), dict(visible=False), dict(drawstyle="steps-post"),
           dict(markersize=2.5), dict(ms=4)]


def any_options(B):
    """Options with a number in them, of any value."""
    v = {"alpha": B.real("opacity", "unit"), "linewidth": B.real("width", "pos"), "zorder": B.real("level"), "markersize": B.real("size", "pos")}
    return [{k: x} for k, x in v.items()] + [dict(v, ls="--"), dict(lw=v["linewidth"], ms=v["markersize"], alpha=v["alpha"])]


def same_options(B, o, c, i):
    for a, v in o.items():
        got = c.options.get(FULL.get(a, a), True if a == "visible" else None)
        if isinstance(v, (str, bool)):
            B.true(got == v, f"{a}={v!r}: curve {i} has {got!r}")
        else:
            B.true(got is not None, f"{a}={v!r}: curve {i} does not have it")
            if got is not None:
                B.eq(got, v, f"{a} of curve {i}")


FULL = {"ls": "linestyle", "lw": "linewidth", "ms": "markersize"}


def same_color(a, b):
    from matplotlib.colors import to_rgba
    return to_rgba(a) == to_rgba(b)


def setting(B, s, k, points=2):
    """A distribution of k elements (None: numbers), its elements and bounds inside every support."""
    if s.cls == "Uniform":
        c, vals = uniform_params(B, k or 1)
        lo, hi = c, c + B.real("w", "unit")
    else:
        vals = [s.params(B, str(i)) for i in range(k or 1)]
        if s.discrete:
            lo, hi = 1, points
            for v in vals:
                for (f, _), x in zip(s.fields, v):
                    if f in ("n", "N", "k") and s.cls not in ("NegativeBinomial", "BetaNegativeBinomial"):
                        B.assume(x >= points)
                if s.cls == "Hypergeometric":
                    B.assume(v[1] + v[2] <= v[0])
        elif s.cls == "Pareto":
            lo, hi = narrow(B, s, vals)
        else:
            lo, hi = bounds_inside(B, s, vals)
    d = s.make(B, vals[0] if k is None else [B.arr([v[j] for v in vals]) for j in range(len(s.fields))])
    B.call(d.set_bounds, lo, hi)
    return d, [s.make(B, v) for v in vals], lo, hi


def draw(B, d, method, ax, before=0, **kw):
    r = B.call(lambda: getattr(d, method)(ax=ax, **kw))
    B.true(r is ax, "the axes given are returned")
    return curves(B, ax)[before:]


def element_heights(B, s, elems, method, cs, conditional, what):
    """Curve i is the one of element i."""
    f = {"plot_pdf": lambda e: e.dist.pdf, "plot_pmf": lambda e: e.dist.pmf, "plot_cdf": lambda e: e.dist.cdf}[method]
    for i, (e, c) in enumerate(zip(elems, cs)):
        n = len(c.x)
        if conditional:
            ys = [B.call(f(e), c.x[j]) for j in range(n)]
            B.eq(c.y[n // 2] * sum(ys[1:], ys[0]), ys[n // 2], f"{what}: curve {i} shows element {i}")
        else:
            j = n // 2
            B.eq(c.y[j], B.call(f(e), c.x[j]), f"{what}: curve {i} shows element {i}")


def labels_case(s, method, k, polar=False, conditional=False, some=None):
    def fn(B):
        d, elems, lo, hi = setting(B, s, k)
        kw = {"conditional": True} if conditional else {}
        if conditional:
            totals(B, s, elems, method, lo, 2)
        todo = several(k) if (k or 1) > 1 else [(n, m, [w]) for n, m, w in single()]
        if (k or 1) > 1 and some:
            todo = [t for t in todo if t[0] in some]
        first = True
        for name, mk, want in todo:
            arg = mk()
            for form in ("label", "no label") if name == "None" else ("label",):
                ax = new_axes(B, polar=polar)
                cs = draw(B, d, method, ax, **({"label": arg} if form == "label" else {}), **kw)
                B.true(len(cs) == (k or 1), f"{name}: {len(cs)} curves for {k or 1} elements")
                if len(cs) != (k or 1):
                    continue
                for i, c in enumerate(cs):
                    B.true(plain(c.label) == plain(want[i]), f"{name}: curve {i} is labelled {c.label!r} instead of {want[i]!r}")
                if isinstance(arg, Namer):
                    B.true(arg.asked == list(range(len(cs))), f"{name}: called with {arg.asked}")
                if first:
                    element_heights(B, s, elems, method, cs, conditional, name)
                    first = False
        if (k or 1) > 1:
            # further curves on the same axes keep the labels of the first ones
            ax = new_axes(B, polar=polar)
            draw(B, d, method, ax, label="one", **kw)
            cs = draw(B, d, method, ax, label=lambda i: f"other {i}", **kw)
            B.true([c.label for c in cs] == [f"one {i + 1}" for i in range(k)] + [f"other {i}" for i in range(k)], "labels of two drawings on the same axes")
    return fn


def plain(l):
    return None if l is None else str(l)


def options_case(s, method, k, polar=False, conditional=False):
    def fn(B):
        d, elems, lo, hi = setting(B, s, k)
        n = k or 1
        kw = {"conditional": True} if conditional else {}
        if conditional:
            totals(B, s, elems, method, lo, 2)
        for o in OPTIONS + any_options(B):
            cs = draw(B, d, method, new_axes(B, polar=polar), **o, **kw)
            B.true(len(cs) == n, f"{list(o)}: {len(cs)} curves")
            for i, c in enumerate(cs):
                same_options(B, o, c, i)
        for col in COLORS:
            for key in ("color", "c") if not isinstance(col, tuple) else ("color",):
                cs = draw(B, d, method, new_axes(B, polar=polar), label="a", **{key: col}, **kw)
                B.true(len(cs) == n, f"{key}={col}: {len(cs)} curves")
                for i, c in enumerate(cs):
                    B.true(same_color(c.color, col), f"{key}={col}: curve {i} is {c.color}")
        for name, cols, want in color_lists(n):
            if name == "tuple" and n == 1 and False:
                continue
            keep = list(cols)
            ax = new_axes(B, polar=polar)
            cs = draw(B, d, method, ax, color=cols, label=[f"l{i}" for i in range(n)] if n > 1 else "l", **kw)
            B.true(len(cs) == n, f"{name} of colours: {len(cs)} curves")
            for i, c in enumerate(cs):
                B.true(same_color(c.color, want[i]), f"{name} of colours: curve {i} is {c.color} instead of {want[i]}")
                B.true(c.label == (f"l{i}" if n > 1 else "l"), f"{name} of colours: curve {i} is labelled {c.label!r}")
            B.true(len(keep) == len(cols) and all(a is b or np.all(a == b) for a, b in zip(keep, cols)), f"{name} of colours: the argument was changed")
        # everything together, on axes that already hold curves
        ax = new_axes(B, polar=polar)
        draw(B, d, method, ax, color="red", label="first", **kw)
        cs = draw(B, d, method, ax, before=n, color=["blue", "green", "black", "red"][:n], label="second", alpha=0.5, lw=2, **kw)
        B.true(len(cs) == n, f"second drawing: {len(cs)} curves")
        for i, c in enumerate(cs):
            B.true(same_color(c.color, ["blue", "green", "black", "red"][i]), f"second drawing: curve {i} is {c.color}")
            B.true(c.label == (f"second {i + 1}" if n > 1 else "second"), f"second drawing: curve {i} is labelled {c.label!r}")
            B.true(c.options.get("alpha") == 0.5 and c.options.get("linewidth") == 2, f"second drawing: curve {i} options {c.options}")
        for i, c in enumerate(curves(B, ax)[:n]):
            B.true(same_color(c.color, "red") and c.label == (f"first {i + 1}" if n > 1 else "first"), f"first drawing: curve {i} became {c.color}, {c.label!r}")
        if n == len(cs):
            element_heights(B, s, elems, method, cs, conditional, "second drawing")
        if s.discrete:
            for mark, mk, ls in (("o-", "o", "-"), ("x--", "x", "--"), ("-", None, "-"), ("s", "s", None), (".:", ".", ":")):
                cs = draw(B, d, method, new_axes(B, polar=polar), mark=mark, **kw)
                B.true(len(cs) == n, f"mark {mark}: {len(cs)} curves")
                for i, c in enumerate(cs):
                    m, l = [None if v in ("None", "none", "", " ") else v for v in (c.options.get("marker"), c.options.get("linestyle"))]
                    B.true(m == mk and l == ls, f"mark {mark}: curve {i} has marker {m!r} and line {l!r}")
            cs = draw(B, d, method, new_axes(B, polar=polar), **kw)
            B.true(all(c.options.get("marker") == "o" and c.options.get("linestyle") == "-" for c in cs), "default mark")
    return fn


# ---- the Dirichlet plot
def kde(B, x):
    if B.symbolic:
        from vlib.stx import FakeKDE
        return FakeKDE(x)
    from scipy.stats import gaussian_kde
    return gaussian_kde(x)


def dirichlet_case(k, what):
    """One density estimate per component, each from that component's samples."""
    def fn(B):
        alpha = [B.real(f"alpha{i}", "pos") for i in range(k)]
        as_list = B.bool("list")
        d = B.call(B.D.Dirichlet, alpha=list(alpha) if as_list else B.arr(alpha))
        size = 3 if B.symbolic else 5
        draws = np.asarray(B.call(lambda: d.dist.rvs(size=size, random_state=11)))
        ref = [kde(B, draws[:, j]) for j in range(k)]
        lo, hi = exact(B, 0, 1)
        if what == "bounds":
            lo, hi = B.real("lo", "unit"), 1 + B.real("hi", "pos")
            B.call(d.set_bounds, lo, hi)

        def go(ax, before=0, **kw):
            return draw(B, d, "plot_pdf", ax, before, samples=size, random_state=11, **kw)

        def compare(cs, w):
            B.true(len(cs) == k, f"{w}: {len(cs)} curves for {k} components")
            if len(cs) != k:
                return
            for j, c in enumerate(cs):
                n = len(c.x)
                B.eq(c.x[0], lo, f"{w}: curve {j} starts at the lower bound"), B.eq(c.x[n - 1], hi, f"{w}: curve {j} ends at the upper bound")
                for t in (0, n // 3, n // 2, n - 1):
                    B.eq(c.x[t], lo + (hi - lo) * B.frac(t, n - 1), f"{w}: point {t} of curve {j}")
                    y = ref[j]([c.x[t]])[0]
                    B.eq(c.y[t], y, f"{w}: curve {j} is the estimate from component {j}")

        if what in ("curves", "bounds"):
            compare(go(new_axes(B)), "plain")
            ax = new_axes(B)
            cs0 = go(ax)
            compare(go(ax, before=k), "second drawing")
            cur = new_axes(B, current=True)
            r = B.call(lambda: d.plot_pdf(samples=size, random_state=11))
            B.true(r is cur, "the current axes are returned")
            compare(curves(B, cur), "current axes")
        elif what == "labels":
            for name, mk, want in several(k):
                arg = mk()
                cs = go(new_axes(B), label=arg)
                B.true(len(cs) == k, f"{name}: {len(cs)} curves for {k} components")
                for i, c in enumerate(cs[:k]):
                    B.true(plain(c.label) == plain(want[i]), f"{name}: curve {i} is labelled {c.label!r} instead of {want[i]!r}")
                if isinstance(arg, Namer):
                    B.true(arg.asked == list(range(k)), f"{name}: called with {arg.asked}")
                compare(cs, name)
            for m in range(k):
                cs = go(new_axes(B), label=["abcdefghijklm"[i] for i in range(m)])
                compare(cs, f"{m} labels for {k} components")
                for i, c in enumerate(cs[:m]):
                    B.true(c.label == "abcdefghijklm"[i], f"{m} labels for {k} components: curve {i} is labelled {c.label!r}")
        else:
            for o in OPTIONS + any_options(B):
                cs = go(new_axes(B), **o)
                B.true(len(cs) == k, f"{list(o)}: {len(cs)} curves")
                for i, c in enumerate(cs):
                    same_options(B, o, c, i)
            for col in COLORS:
                cs = go(new_axes(B), color=col, label="a")
                for i, c in enumerate(cs):
                    B.true(same_color(c.color, col), f"color={col}: curve {i} is {c.color}")
                compare(cs, f"color={col}")
    return fn


MANY = 12  # two-digit numbers and more curves than the cycle has colours
CASES = []
KW = dict(runs=1, timeout=300, max_paths=3000)
RICH = ("Normal", "Poisson", "Binomial", "Beta")
SOME = ("None", "string", "tuple", "generator", "function")
for s in UNIVARIATE:
    for m in methods(s):
        t = f"{label(s)} {m}"
        for k in (None, 1, 2) + ((3,) if s.cls in RICH or TIER == "thorough" else ()) + ((4,) if s.cls in RICH and TIER == "thorough" else ()):
            CASES.append(Case(f"{t}: labels, {k or 'numbers'}", labels_case(s, m, k, some=None if s.cls in RICH or TIER == "thorough" else SOME), **KW))
        if s.cls in ("Normal", "Poisson", "Gamma", "BetaBinomial", "Uniform", "Geometric") or TIER == "thorough":
            CASES.append(Case(f"{t}: labels, {MANY}", labels_case(s, m, MANY), **KW))
        for k in (None, 1, 2) if s.cls in RICH else (2,):
            CASES.append(Case(f"{t}: options, {k or 'numbers'}", options_case(s, m, k), **KW))
        if s.cls in ("VonMises", "Normal"):
            CASES += [Case(f"{t}: {w}, 2, polar", f(s, m, 2, True), **KW) for w, f in (("labels", labels_case), ("options", options_case))]
        if s.discrete:
            CASES.append(Case(f"{t}: labels, 2, conditional", labels_case(s, m, 2, False, True, SOME), **KW))
            if s.cls in RICH:
                CASES.append(Case(f"{t}: options, 2, conditional", options_case(s, m, 2, False, True), **KW))
for k in (2, 3) + ((4,) if TIER == "thorough" else ()):
    for w in ("curves", "bounds", "labels", "options"):
        if k == 2 and w in ("curves", "labels"):
            CASES.append(Case(f"Dirichlet plot_pdf: {w}, 12 components", dirichlet_case(12, w), **KW))
        CASES.append(Case(f"Dirichlet plot_pdf: {w}, {k} components", dirichlet_case(k, w), **KW))
