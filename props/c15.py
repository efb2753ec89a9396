"""C15: indexing a distribution selects the matching parameters."""
import dataclasses

import numpy as np

from vlib.distspec import UNIVARIATE, label
from vlib.harness import TIER, Case, Whole
from vlib.predspec import fields

BOUNDS = ("every univariate class and the multinomial classes with parameter vectors of 3 elements (also 3x2 matrices, integer vectors, and for integer keys vectors of 12, thorough 40), every subset of one parameter or all of them vectors; "
          "multivariate normal and Student-t of dimension 1 to 3 (thorough 4; integer keys also 11); every valid integer key, slices with start and stop in None, -2..2, 5 and step in None, -2, -1, 2, "
          "index lists of length 1 and 2 (thorough 3; as a list and as an array of int64 or int32), every boolean mask; parameter values unbounded reals or integers (vectors of counts in increasing order)")

L = 3
INTS = [int, np.int64, np.int32, np.int8, np.uint8, np.intp]


def get_key(B, kind, n):
    """-> (key handed to the library, the selected positions: an int or a list)"""
    if kind == "int":
        i = B.int("key", -n, n - 1)
        k = i.__index__()
        return k, k % n
    if kind == "npint":
        k = B.int("key", -n, n - 1).__index__()
        t = B.choice("type", INTS)
        if k < 0 and t is np.uint8:
            k += n
        return t(k), k % n
    if kind == "slice":
        o = lambda name, vals: B.choice(name, vals)
        s = slice(o("start", [None, -2, 0, 1, 5] if TIER != "thorough" else [None, -5, -2, -1, 0, 1, 2, 5]), o("stop", [None, -1, 0, 2, 5] if TIER != "thorough" else [None, -5, -2, -1, 0, 1, 2, 5]), o("step", [None, 2, -1, -2]))
        return s, list(range(n))[s]
    if kind == "empty":
        return slice(0, 0), []
    if kind in ("list", "array"):
        m = B.choice("length", [1, 2, 3] if TIER == "thorough" else [1, 2])
        ks = [B.int(f"key{j}", -n, n - 1).__index__() for j in range(m)]
        if kind == "list":
            return ks, [k % n for k in ks]
        return np.array(ks, dtype=B.choice("type", [np.int64, np.int32])), [k % n for k in ks]
    ms = [B.bool(f"mask{j}") for j in range(n)]
    return (ms if kind == "boollist" else np.array(ms, dtype=bool)), [j for j in range(n) if ms[j]]


KINDS = ["int", "npint", "slice", "empty", "list", "array", "mask", "boollist"]


def pick(v, sel):
    """v: nested list; sel along the first axis."""
    return v[sel] if isinstance(sel, int) else [v[i] for i in sel]


def snapshot(d):
    # parameters and plotting bounds; anything else an object keeps is its own business
    names = [f.name for f in dataclasses.fields(d)] + [n for n in ("_min_value", "_max_value") if n in vars(d)]
    return {k: (getattr(d, k), np.array(getattr(d, k), dtype=object, copy=True) if np.ndim(getattr(d, k)) else getattr(d, k)) for k in names}


def unchanged(B, d, snap):
    for k, (obj, copy) in snap.items():
        B.true(hasattr(d, k), f"the original lost {k}")
        if not hasattr(d, k):
            continue
        now = {k: getattr(d, k)}
        if np.ndim(copy):
            B.true(np.shape(now[k]) == np.shape(copy), f"the original's {k} changed shape")
            if np.shape(now[k]) == np.shape(copy):
                B.eq(now[k], copy, f"the original's {k}")


def check(B, d, key, want, cls):
    snap = snapshot(d)
    r = B.call(lambda: d[key])
    B.is_type(r, cls)
    for f, w in want.items():
        g = getattr(r, f)
        if isinstance(w, (bool, type(None))):
            B.true(g is w, f"{f}: {g!r} instead of {w!r}")
        else:
            w = B.arr(w) if isinstance(w, list) and len(w) else np.zeros((0,) + np.shape(getattr(d, f))[1:]) if isinstance(w, list) else w
            B.true(np.shape(g) == np.shape(w), f"{f}: shape {np.shape(g)} instead of {np.shape(w)}")
            if np.shape(g) == np.shape(w):
                B.eq(g, w, f)
    unchanged(B, d, snap)


def values(B, s, f, tags):
    """One value per tag; counts grow (the classes take their maximum: one path instead of one per order)."""
    if not (s.discrete and f in ("n", "N", "k")):
        return [B.real(f"{f}{t}") for t in tags]
    v = []
    for t in tags:
        x = B.int(f"{f}{t}", 1)
        v.append(x + v[-1] if v and f != "k" else x)
    return v


def univariate(s, kind, arrays, cols=None, whole=False, n=L):
    """arrays: indices of the parameters that are vectors; cols: trailing size of a matrix parameter; whole: of integers."""
    def fn(B):
        if whole:
            B = Whole(B)
        vals, want = [], {}
        key, sel = get_key(B, kind, n)
        for j, (f, dom) in enumerate(s.fields):
            if j not in arrays:
                v, = values(B, s, f, [""])
                vals.append(v)
                want[f] = v
            elif cols:
                flat = values(B, s, f, [f"{i}_{c}" for i in range(n) for c in range(cols)])
                v = [flat[i * cols:i * cols + cols] for i in range(n)]
                vals.append(B.arr(v))
                want[f] = pick(v, sel)
            else:
                v = values(B, s, f, range(n))
                vals.append(B.arr(v))
                want[f] = pick(v, sel)
        want.update(s.kw)
        check(B, s.make(B, vals), key, want, s.cls)
    return fn


def multinomial(cls, p, kind, vector_n):
    def fn(B):
        key, sel = get_key(B, kind, L)
        v = [[B.real(f"p{i}{c}", "pos") for c in range(2)] for i in range(L)]
        ns = [B.int(f"n{i}", 0) for i in range(L)] if vector_n else B.int("n", 0)
        d = B.call(getattr(B.D, cls), **{p: B.arr(v), "n": B.arr(ns) if vector_n else ns})
        check(B, d, key, {p: pick(v, sel), "n": pick(ns, sel) if vector_n else ns}, cls)
    return fn


def mask2d(s):
    """A mask of the parameters' full shape selects elements in row order."""
    def fn(B):
        ms = [[B.bool(f"mask{i}{j}") for j in range(2)] for i in range(2)]
        vals, want = [], {}
        for f, dom in s.fields:
            v = values(B, s, f, ["00", "01", "10", "11"])
            v = [v[:2], v[2:]]
            vals.append(B.arr(v))
            want[f] = np.array([v[i][j] for i in range(2) for j in range(2) if ms[i][j]], dtype=object)
        want.update(s.kw)
        check(B, s.make(B, vals), np.array(ms, dtype=bool), want, s.cls)
    return fn


def mvn(cls, dim, kind):
    def fn(B):
        key, sel = get_key(B, kind, dim)
        mu = [B.real(f"mu{i}") for i in range(dim)]
        c = [[None] * dim for _ in range(dim)]
        for i in range(dim):
            for j in range(i + 1):
                c[i][j] = c[j][i] = B.real(f"c{i}{j}", "pos" if i == j else "real")
        t = cls == "MultivariateStudentT"
        nu = B.real("nu", "pos")
        d = B.call(getattr(B.D, cls), mu=B.arr(mu), **({"sigma": B.arr(c), "nu": nu} if t else {"cov": B.arr(c)}))
        snap = snapshot(d)
        r = B.call(lambda: d[key])
        if isinstance(sel, int):
            B.is_type(r, "StudentT" if t else "Normal")
            B.eq(np.shape(r.sigma), (), "a single coordinate has a number for its scale")
            B.eq(r.mu, mu[sel], "location")
            B.eq(r.sigma * r.sigma, c[sel][sel], "squared scale")
            B.true(r.sigma > 0, "scale is positive")
        else:
            B.is_type(r, cls)
            m = r.sigma if t else r.cov
            k = len(sel)
            B.true(np.shape(r.mu) == (k,), f"location has shape {np.shape(r.mu)}")
            B.true(np.shape(m) == (k, k), f"scale matrix has shape {np.shape(m)}")
            if k and np.shape(m) == (k, k) and np.shape(r.mu) == (k,):
                B.eq(r.mu, B.arr([mu[i] for i in sel]), "location")
                B.eq(m, B.arr([[c[i][j] for j in sel] for i in sel]), "scale matrix")
        if t:
            B.eq(r.nu, nu, "degrees of freedom")
        unchanged(B, d, snap)
    return fn


def chain(s):
    """Indexing a slice of a distribution, and indexing twice, as indexing a list twice."""
    def fn(B):
        vs = {f: values(B, s, f, range(4)) for f, _ in s.fields}
        d = s.make(B, [B.arr(v) for v in vs.values()])
        a, b = B.choice("start", [0, 1, 2]), B.choice("stop", [3, 4, -1])
        k = B.int("key", -1, 0)
        first = B.call(lambda: d[a:b])
        r = B.call(lambda: first[k])
        for f, v in vs.items():
            w = v[a:b]
            if w:
                B.eq(getattr(r, f), w[k.__index__()], f"{f} of the element of the slice")
            B.eq(getattr(d, f), B.arr(v), f"original {f}")
    return fn


CASES = []
for s in UNIVARIATE:
    m = len(s.fields)
    for kind in KINDS:
        add = lambda n, f, **k: CASES.append(Case(f"{label(s)}: {n}", f, runs=2, **k))
        add(f"{kind}", univariate(s, kind, range(m)), max_paths=1200)
        if m > 1 and kind in ("int", "slice", "list", "mask", "npint"):
            for j in range(m):
                add(f"{kind}, only {s.fields[j][0]} a vector", univariate(s, kind, [j]), max_paths=1200, tier="quick" if kind in ("int", "mask", "npint") else "thorough")
        if kind in ("int", "list", "mask", "slice"):
            add(f"{kind}, matrices", univariate(s, kind, range(m), 2), max_paths=1200, tier="quick" if kind in ("int", "mask") else "thorough")
    CASES.append(Case(f"{label(s)}: matrix mask", mask2d(s), runs=2))
    CASES.append(Case(f"{label(s)}: numbers only", univariate(s, "int", []), runs=2))
    CASES.append(Case(f"{label(s)}: twice", chain(s), runs=2, max_paths=1200))
    for kind in ("int", "slice", "mask"):
        if s.cls != "Uniform" or kind != "slice":
            CASES.append(Case(f"{label(s)}: {kind}, integer arrays", univariate(s, kind, range(m), whole=True), runs=2, max_paths=1200, tier="quick" if kind != "slice" else "thorough"))
    for size in (12, 40):
        CASES.append(Case(f"{label(s)}: int, vectors of {size}", univariate(s, "int", range(m), n=size), runs=2, max_paths=1200, tier="quick" if size == 12 else "thorough"))
for cls, p in (("Multinomial", "p"), ("DirichletMultinomial", "alpha")):
    for kind in KINDS:
        for v in (True, False):
            CASES.append(Case(f"{cls}: {kind}, {'vector' if v else 'number'} of trials", multinomial(cls, p, kind, v), runs=2, max_paths=1200))
for cls in ("MultivariateNormal", "MultivariateStudentT"):
    for dim in (1, 2, 3, 4):
        for kind in KINDS:
            if dim == 4 and kind in ("int", "npint"):
                CASES.append(Case(f"{cls}[d=11]: {kind}", mvn(cls, 11, kind), runs=2, max_paths=2500))
            CASES.append(Case(f"{cls}[d={dim}]: {kind}", mvn(cls, dim, kind), runs=2, max_paths=2500, tier="quick" if dim < 4 else "thorough"))
