"""C23: plots show the distribution itself over the requested bounds."""
from fractions import Fraction

import numpy as np

from vlib.distspec import UNIVARIATE, label
from vlib.fakeaxes import curves, new_axes
from vlib.harness import TIER, Case

BOUNDS = ("every plotting class and method; all parameter values as a number, an integer, or vectors of 1 to 3 elements (some classes: 4, 12 and 100) in any of the fields, and fixed ones of six numpy types; continuous bounds anywhere inside the support (and fixed bounds across its ends, for supports that do not "
          "depend on the parameters), all grid points (every ninth for 12 and 100 elements and numpy types); discrete bounds from below the support upwards, 0 to 5 (also 14, 15, 20; conditional plots also 9 to 20) integers apart; sequences of up to 3 (thorough 4) bound setters and plots before the last plot")
ASSUMPTIONS = ["symbolic runs hand the curves to recording axes that follow matplotlib's documented pairing of columns; concrete runs read the curves off real Agg axes"]

CONT = [s for s in UNIVARIATE if not s.discrete]
DISC = [s for s in UNIVARIATE if s.discrete]


def methods(s):
    return ("plot_pmf", "plot_cdf") if s.discrete else ("plot_pdf", "plot_cdf")


def values_of(B, d, method, x, name):
    f = {"plot_pdf": lambda: d.dist.pdf, "plot_pmf": lambda: d.dist.pmf, "plot_cdf": lambda: d.dist.cdf}[method]
    f = B.call(f)
    return [B.call(f, v) for v in x]


def exact(B, *vs):
    return [Fraction(v) if B.symbolic and isinstance(v, float) else v for v in vs]


def totals(B, s, elems, method, lo, points):
    """Assume that every element has some mass between the bounds."""
    from vlib.sym import Reject
    for e in elems:
        ys = values_of(B, e, method, [lo + i for i in range(points)], "")
        t = sum(ys[1:], ys[0])
        if B.symbolic:
            B.assume(t > 0)
        elif not t > 0:
            raise Reject


def check_curve(B, s, c, elem, method, lo, hi, label, conditional=False, every=1):
    """One curve against the scalar distribution of its element."""
    n = len(c.x)
    lo, hi = exact(B, lo, hi)
    if s.discrete:
        steps = hi - lo
        B.true(steps == n - 1, f"{label}: {n} points between the bounds")
        if not bool(steps == n - 1):
            return
        for i in range(n):
            B.eq(c.x[i], lo + i, f"{label}: point {i}")
    else:
        B.true(n >= 2, f"{label}: only {n} points")
        if n < 2:
            return
        for i in range(n):
            B.eq(c.x[i], lo + (hi - lo) * B.frac(i, n - 1), f"{label}: point {i} of the grid")
    at = range(0, n, every)
    want = values_of(B, elem, method, [c.x[i] for i in at], label)
    if conditional:
        t = sum(want[1:], want[0])
        want = [w / t for w in want]
    for i, w in zip(at, want):
        B.eq(c.y[i], w, f"{label}: height at point {i}")


def bounds_inside(B, s, vals):
    """Bounds between which every grid point lies in the support."""
    lo = s.inside(B, "lo", vals[0])
    hi = s.inside(B, "hi", vals[0])
    B.assume(lo < hi)
    return lo, hi


def draw(B, d, method, ax, **kw):
    r = B.call(lambda: getattr(d, method)(ax=ax, **kw))
    B.true(r is ax, "the axes given are returned")
    return curves(B, ax)


def inside_case(s, method, k, which, conditional=False, only=None):
    """k: None (numbers) or the length of the parameter vectors; which: fields given as vectors."""
    def fn(B):
        vals = [s.params(B, str(i) if k else "") for i in range(k or 1)]
        names = [f for f, _ in s.fields]
        for j, n in enumerate(names):
            if k and n not in which:
                # shared by all elements
                for i in range(1, k):
                    vals[i][j] = vals[0][j]
        args = [vals[0][j] if not k or n not in which else B.arr([v[j] for v in vals]) for j, n in enumerate(names)]
        lo, hi = bounds_inside(B, s, vals) if s.cls not in ("Uniform", "Pareto") or not k else narrow(B, s, vals)
        d = s.make(B, args)
        B.call(d.set_bounds, lo, hi)
        ax = new_axes(B)
        cs = draw(B, d, method, ax)
        B.true(len(cs) == (k or 1), f"{len(cs)} curves for {k or 1} elements")
        if len(cs) == (k or 1):
            for i, c in enumerate(cs):
                if only is None or i in only:
                    check_curve(B, s, c, s.make(B, vals[i]), method, lo, hi, f"curve {i}", every=1 if only is None else 9)
    return fn


def narrow(B, s, vals):
    """Bounds inside every element's support, for supports that depend on the parameters."""
    lo = sum(v[0] for v in vals) + B.real("lo", "pos")
    return lo, lo + B.real("w", "pos")


def uniform_params(B, k):
    c = B.real("c")
    return c, [[c - B.real(f"l{i}", "pos"), c + 1 + B.real(f"h{i}", "pos")] for i in range(k)]


def uniform_case(method, k, which):
    from vlib.distspec import spec_of
    s = spec_of("Uniform")

    def fn(B):
        c, vals = uniform_params(B, k)
        for j, n in enumerate(("low", "high")):
            if n not in which:
                for v in vals:
                    v[j] = vals[0][j]
        args = [B.arr([v[j] for v in vals]) if n in which else vals[0][j] for j, n in enumerate(("low", "high"))]
        d = s.make(B, args)
        lo, hi = c, c + B.real("w", "unit")
        B.call(d.set_bounds, lo, hi)
        cs = draw(B, d, method, new_axes(B))
        B.true(len(cs) == k, f"{len(cs)} curves for {k} elements")
        if len(cs) == k:
            for i, cv in enumerate(cs):
                check_curve(B, s, cv, s.make(B, vals[i]), method, lo, hi, f"curve {i}")
    return fn


def fixed_bounds(s, method, lo, hi, k=None):
    """Bounds that leave the support."""
    def fn(B):
        vals = [s.params(B, str(i) if k else "") for i in range(k or 1)]
        d = s.make(B, vals[0] if not k else [B.arr([v[j] for v in vals]) for j in range(len(s.fields))])
        B.call(d.set_bounds, lo, hi)
        cs = draw(B, d, method, new_axes(B))
        B.true(len(cs) == (k or 1), f"{len(cs)} curves")
        if len(cs) == (k or 1):
            for i, c in enumerate(cs):
                check_curve(B, s, c, s.make(B, vals[i]), method, lo, hi, f"curve {i}")
    return fn


def discrete_case(s, method, k, which, width, conditional=False, set_how="set_bounds"):
    def fn(B):
        vals = [s.params(B, str(i) if k else "") for i in range(k or 1)]
        names = [f for f, _ in s.fields]
        for i in range(1, k or 1):
            for j, n in enumerate(names):
                if n not in which:
                    vals[i][j] = vals[0][j]
                elif n in ("n", "N", "k"):
                    # increasing counts: the classes take their maximum (one path instead of one per order)
                    vals[i][j] = vals[i - 1][j] + B.int(f"more{n}{i}", 0, 3)
        if k and s.cls == "Hypergeometric":
            for v in vals[1:]:
                B.assume(v[1] <= v[0]), B.assume(v[2] <= v[0])
        lo = B.int("lo", -1, 2 if conditional else 3)
        if conditional:
            totals(B, s, [s.make(B, v) for v in vals], method, lo, width + 1)
        hi = lo + width
        args = [vals[0][j] if not k or n not in which else B.arr([v[j] for v in vals]) for j, n in enumerate(names)]
        d = s.make(B, args)
        B.call(d.set_bounds, lo, hi)
        cs = draw(B, d, method, new_axes(B), **({"conditional": True} if conditional else {}))
        B.true(len(cs) == (k or 1), f"{len(cs)} curves for {k or 1} elements")
        if len(cs) == (k or 1):
            for i, c in enumerate(cs):
                check_curve(B, s, c, s.make(B, vals[i]), method, lo, hi, f"curve {i}", conditional)
    return fn


# ---- default bounds
COUNTED = ("Binomial", "BetaBinomial", "Hypergeometric", "BetaNegativeBinomial")
DEFAULTS = COUNTED + ("Beta", "Uniform", "VonMises")


def default_bounds(s, method, k):
    """The bounds a class brings along: its support, or 0 up to the largest count."""
    def fn(B):
        if s.cls == "Uniform":
            # elements at fixed places of an arbitrary interval
            at = [((0, 1),), ((0, 1), (B.frac(1, 4), B.frac(3, 4))), ((B.frac(1, 7), 1), (0, B.frac(1, 2))), ((B.frac(3, 4), 1), (0, B.frac(1, 4)), (B.frac(1, 5), B.frac(1, 2)))]
            at = at[0] if not k else at[B.int("layout", 1, 3)]
            c, w = B.real("c"), B.real("w", "pos")
            lo, hi, vals = c, c + w, [[c + w * a, c + w * b] for a, b in at]
        else:
            vals = [s.params(B, str(i) if k else "") for i in range(k or 1)]
        if s.discrete:
            for i, v in enumerate(vals):
                v[0] = B.int(f"count{i}", 1, 2 if s.cls == "Hypergeometric" else 3)
                if s.cls == "Hypergeometric":
                    v[1], v[2] = B.int(f"k{i}", 0, v[0]), B.int(f"m{i}", 0, v[0])
        d = s.make(B, vals[0] if not k else [B.arr([v[j] for v in vals]) for j in range(len(s.fields))])
        if s.cls == "VonMises":
            lo, hi = -B.pi, B.pi
        elif s.cls == "Beta":
            lo, hi = 0, 1
        elif s.discrete:
            lo, hi = 0, vals[0][0]
            for v in vals[1:]:
                hi = B.max(hi, v[0])
        if B.bool("override"):
            # only one end replaced
            lo = (lo + hi) / 2 if not s.discrete else 1
            B.call(d.set_min_value, lo)
        cs = draw(B, d, method, new_axes(B))
        B.true(len(cs) == len(vals), f"{len(cs)} curves")
        for i, c in enumerate(cs[: len(vals)]):
            check_curve(B, s, c, s.make(B, vals[i]), method, lo, hi, f"curve {i}")
    return fn


def no_upper(s, method):
    def fn(B):
        vals = s.params(B)
        d = s.make(B, vals)
        how = B.choice("how", ["nothing", "lower by method", "lower by attribute"])
        if how == "lower by method":
            B.call(d.set_min_value, B.real("lo", "pos") if not s.discrete else B.int("lo", 0, 2))
        elif how == "lower by attribute":
            d.min_value = 1
        ax = new_axes(B)
        B.raises(ValueError, lambda: getattr(d, method)(ax=ax), "plot without an upper bound")
        B.true(len(curves(B, ax)) == 0, "nothing is drawn without an upper bound")
        # and once it is known the plot is drawn
        if how == "nothing" and not s.discrete:
            # away from the end of the support, where a density can be infinite
            d.set_min_value(B.frac(1, 2))
        lo = B.call(lambda: d.min_value)
        if s.cls == "Pareto":
            B.assume(vals[0] > lo + 1)
        d.max_value = lo + 1
        cs = draw(B, d, method, ax)
        B.true(len(cs) == 1, f"{len(cs)} curves")
        if len(cs) == 1 and s.discrete:
            check_curve(B, s, cs[0], d, method, lo, lo + 1, "curve")
    return fn


# ---- histories of setters
def history(s, steps, method):
    """Any sequence of setters and plots; the last plot shows the bounds last set."""
    ops = ["set_bounds", "set_min_value", "set_max_value", "min_value=", "max_value=", "plot", "other object"]

    def value(B, n, i):
        return (B.int(f"{n}{i}", 0, 2) if n == "l" else B.int(f"{n}{i}", 3, 5)) if s.discrete else B.real(f"{n}{i}")

    def fn(B):
        vals = s.params(B)
        d = s.make(B, vals)
        other = s.make(B, vals)
        lo, hi = 0, None
        if s.cls in ("Binomial",):
            B.assume(vals[0] == 4)
            hi = 4
        for i in range(steps):
            op = B.choice(f"step{i}", ops)
            if op == "set_bounds":
                lo, hi = value(B, "l", i), value(B, "h", i)
                r = B.call(d.set_bounds, lo, hi)
                B.true(r is d, "set_bounds returns the distribution")
            elif op == "set_min_value":
                lo = value(B, "l", i)
                B.true(B.call(d.set_min_value, lo) is d, "set_min_value returns the distribution")
            elif op == "set_max_value":
                hi = value(B, "h", i)
                B.true(B.call(d.set_max_value, hi) is d, "set_max_value returns the distribution")
            elif op == "min_value=":
                lo = value(B, "l", i)
                d.min_value = lo
            elif op == "max_value=":
                hi = value(B, "h", i)
                d.max_value = hi
            elif op == "plot":
                if hi is None:
                    B.raises(ValueError, lambda: getattr(d, method)(ax=new_axes(B)), "plot without an upper bound")
                else:
                    draw(B, d, method, new_axes(B))
            else:
                B.call(other.set_bounds, value(B, "l", i), value(B, "h", i))
                draw(B, other, method, new_axes(B))
        if hi is None:
            B.raises(ValueError, lambda: getattr(d, method)(ax=new_axes(B)), "plot without an upper bound")
            return
        B.eq(B.call(lambda: d.min_value), lo, "lower bound"), B.eq(B.call(lambda: d.max_value), hi, "upper bound")
        cs = draw(B, d, method, new_axes(B))
        B.true(len(cs) == 1, f"{len(cs)} curves")
        if len(cs) == 1:
            check_curve(B, s, cs[0], s.make(B, vals), method, lo, hi, "curve")
    return fn


# ---- axes
def axes_kinds(s, method, kind):
    """The current axes when none is given, polar axes, and axes that already hold curves."""
    def fn(B):
        vals = s.params(B)
        d = s.make(B, vals)
        lo, hi = (B.int("lo", 1, 3), None) if s.discrete else bounds_inside(B, s, [vals])
        hi = lo + 3 if s.discrete else hi
        B.call(d.set_bounds, lo, hi)
        ax = new_axes(B, polar=kind == "polar", current=kind == "current")
        if kind == "current":
            r = B.call(lambda: getattr(d, method)())
            B.true(r is ax, "the current axes are returned")
            cs = curves(B, ax)
        elif kind == "used":
            B.call(ax.plot, [0, 1], [0, 1])
            cs = draw(B, d, method, ax)
            B.true(len(cs) == 2, f"{len(cs)} curves")
            cs = cs[1:]
        else:
            cs = draw(B, d, method, ax)
        B.true(len(cs) == 1, f"{len(cs)} curves")
        if len(cs) == 1:
            check_curve(B, s, cs[0], s.make(B, vals), method, lo, hi, "curve")
    return fn


def integer_parameters(s, method):
    """Parameters given as whole numbers."""
    def fn(B):
        vals = [B.int(f, 1) if s.cls != "Uniform" else B.int("low", -5) if j == 0 else None for j, (f, _) in enumerate(s.fields)]
        if s.cls == "Uniform":
            vals[1] = vals[0] + B.int("w", 1)
        lo, hi = bounds_inside(B, s, [vals])
        d = s.make(B, vals)
        B.call(d.set_bounds, lo, hi)
        cs = draw(B, d, method, new_axes(B))
        B.true(len(cs) == 1, f"{len(cs)} curves")
        if len(cs) == 1:
            check_curve(B, s, cs[0], s.make(B, vals), method, lo, hi, "curve")
    return fn


NUMPY = {"float64": np.float64, "float32": np.float32, "int64": np.int64, "int32": np.int32, "0-d array": np.array, "0-d array of int": lambda v: np.array(int(v))}


def numpy_parameters(s, method, kinds=tuple(NUMPY)):
    """Parameters that are numpy numbers (fixed values; the bounds are any)."""
    fixed = {"low": -3, "high": 5, "p": 0.375, "N": 9, "k": 4, "n": 3 if s.cls == "Hypergeometric" else 6, "sigma": 3, "scale": 2, "mu": 1, "x_m": 1, "theta": 4}

    def fn(B):
        kind = B.choice("kind", list(kinds))
        vals = [fixed.get(f, 2) for f, _ in s.fields]
        vals = [(NUMPY[kind] if v != 0.375 or "int" not in kind else np.float64)(v) for v in vals]
        plain = [float(v) if float(v) != int(v) else int(v) for v in vals]
        if s.discrete:
            lo = B.int("lo", 0, 2)
            hi = lo + 3
        elif s.cls == "Uniform":
            lo = B.real("c", "unit")
            hi = lo + B.real("w", "unit")
        else:
            lo, hi = bounds_inside(B, s, [plain])
        d = s.make(B, vals)
        B.call(d.set_bounds, lo, hi)
        cs = draw(B, d, method, new_axes(B))
        B.true(len(cs) == 1, f"{len(cs)} curves")
        if len(cs) == 1:
            check_curve(B, s, cs[0], s.make(B, plain), method, lo, hi, "curve", every=9 if not s.discrete else 1)
    return fn


CASES = []
KW = dict(runs=2, timeout=300, max_paths=3000)
for s in CONT:
    names = [f for f, _ in s.fields]
    for m in methods(s):
        t = f"{label(s)} {m}"
        CASES.append(Case(f"{t}: numbers", inside_case(s, m, None, ()), **KW))
        if s.cls == "Uniform":
            for which in (("low", "high"), ("low",), ("high",)):
                CASES.append(Case(f"{t}: vectors {','.join(which)}", uniform_case(m, 2, which), **KW))
        else:
            CASES.append(Case(f"{t}: vectors of 1", inside_case(s, m, 1, names), **KW))
            CASES.append(Case(f"{t}: vectors of 2", inside_case(s, m, 2, names), **KW))
            if TIER == "thorough":
                CASES.append(Case(f"{t}: vectors of 3", inside_case(s, m, 3, names), **KW))
            if len(names) > 1 and s.cls != "Pareto":
                for n in names:
                    CASES.append(Case(f"{t}: vector {n}", inside_case(s, m, 2, (n,)), **KW))
        if s.cls not in ("Uniform", "Pareto", "VonMises") and m == "plot_pdf":
            CASES.append(Case(f"{t}: bounds across the support", fixed_bounds(s, m, -0.5, 1.5), **KW))
            CASES.append(Case(f"{t}: bounds across the support, vectors", fixed_bounds(s, m, -1, 1, 2), **KW))
        if s.cls in DEFAULTS:
            CASES.append(Case(f"{t}: default bounds", default_bounds(s, m, None), **KW))
            CASES.append(Case(f"{t}: default bounds, vectors", default_bounds(s, m, 2), **KW))
        else:
            CASES.append(Case(f"{t}: no upper bound", no_upper(s, m), **KW))
        for kind in ("current", "polar", "used"):
            if kind != "polar" or s.cls in ("Normal", "VonMises", "Gamma"):
                CASES.append(Case(f"{t}: {kind} axes", axes_kinds(s, m, kind), **KW))
        if s.cls not in ("Beta", "VonMises"):
            CASES.append(Case(f"{t}: whole parameters", integer_parameters(s, m), **KW))
for s in DISC:
    names = [f for f, _ in s.fields]
    for m in methods(s):
        t = f"{label(s)} {m}"
        for w in (0, 1, 3) + ((14, 15, 20) if s.cls in ("Poisson", "Geometric", "Binomial") else ()):
            CASES.append(Case(f"{t}: numbers, {w + 1} points", discrete_case(s, m, None, (), w), **KW))
        for k in (1, 2) + ((3,) if TIER == "thorough" else ()):
            CASES.append(Case(f"{t}: vectors of {k}", discrete_case(s, m, k, names, 2), **KW))
        if len(names) > 1:
            for n in names:
                CASES.append(Case(f"{t}: vector {n}", discrete_case(s, m, 2, (n,), 2), **KW))
        for k in (None, 2):
            CASES.append(Case(f"{t}: conditional{', vectors' if k else ''}", discrete_case(s, m, k, names, 2, True), **KW))
        if s.cls in DEFAULTS:
            CASES.append(Case(f"{t}: default bounds", default_bounds(s, m, None), **KW))
            CASES.append(Case(f"{t}: default bounds, vectors", default_bounds(s, m, 2), **KW))
        else:
            CASES.append(Case(f"{t}: no upper bound", no_upper(s, m), **KW))
        for kind in ("current", "used"):
            CASES.append(Case(f"{t}: {kind} axes", axes_kinds(s, m, kind), **KW))
from vlib.distspec import spec_of  # noqa: E402

ONE = dict(KW, runs=1)
for s in UNIVARIATE:
    for m in methods(s):
        CASES.append(Case(f"{label(s)} {m}: numpy numbers as parameters", numpy_parameters(s, m), **ONE))
for s in [s for s in UNIVARIATE if s.cls in ("Poisson", "Geometric", "Binomial", "NegativeBinomial") and (s.cls != "Geometric" or s.kw == UNIVARIATE[[u.cls for u in UNIVARIATE].index("Geometric")].kw)]:
    cls = s.cls
    for m in methods(s):
        for w in (9, 11, 14, 15, 20):
            CASES.append(Case(f"{cls} {m}: conditional, {w + 1} points", discrete_case(s, m, None, (), w, True), **ONE))
        CASES += [Case(f"{cls} {m}: conditional, {w + 1} points, vectors of {k}", discrete_case(s, m, k, [f for f, _ in s.fields if f != "n"], w, True), **ONE) for w, k in ((12, 2), (15, 2), (2, 12))]
        CASES.append(Case(f"{cls} {m}: vectors of 12", discrete_case(s, m, 12, [f for f, _ in s.fields if f != "n"], 3), **ONE))
for cls, m in (("Normal", "plot_pdf"), ("Gamma", "plot_cdf"), ("Exponential", "plot_pdf")):
    CASES.append(Case(f"{cls} {m}: vectors of 12", inside_case(spec_of(cls), m, 12, [f for f, _ in spec_of(cls).fields], only=(0, 1, 5, 9, 10, 11)), **ONE))
for cls, m in (("Normal", "plot_pdf"), ("Exponential", "plot_cdf")):
    # as many elements as grid points
    CASES.append(Case(f"{cls} {m}: vectors of 100", inside_case(spec_of(cls), m, 100, [spec_of(cls).fields[0][0]], only=(0, 1, 50, 99)), **ONE))
for m in methods(spec_of("Poisson")):
    CASES.append(Case(f"Poisson {m}: 4 points, vectors of 4", discrete_case(spec_of("Poisson"), m, 4, ["lam"], 3), **KW))
for cls, m in (("Normal", "plot_pdf"), ("Normal", "plot_cdf"), ("Poisson", "plot_pmf"), ("Poisson", "plot_cdf"), ("Binomial", "plot_pmf")) + ((("StudentT", "plot_pdf"),) if TIER == "thorough" else ()):
    CASES.append(Case(f"{cls} {m}: setter histories", history(spec_of(cls), 3 if TIER == "thorough" else 2, m), **KW))
# the slow ones first
CASES.sort(key=lambda c: "histories" not in c.name and not ("Hypergeometric" in c.name and "default" in c.name))
