"""Arrays as inputs: one set of scalar inputs per element, collected into arrays of any shape,
and the elementwise form of the laws of the models."""
from __future__ import annotations

import dataclasses

import numpy as np

from .dens import check_log
from .harness import Whole

PRIOR = ("alpha0", "beta0", "mu0", "sigma0", "sigma20", "nu0", "x_m0", "p0", "q0", "r0", "s0", "a0", "b0", "c0", "k0", "N")
is_prior = lambda n: n.split("[")[0] in PRIOR


class Shared:
    """Backend view in which an input's name is the value's index along the axes that input varies on."""

    def __init__(self, B, axes, memo):
        self._B, self._axes, self._memo, self._pos = B, axes, memo, ()

    def at(self, pos):
        self._pos = pos
        return self

    def _name(self, n):
        base = n
        ax = self._axes(base)
        return base + "@" + "".join(str(p) if i in ax else "-" for i, p in enumerate(self._pos))

    def real(self, name, dom="real"):
        n = self._name(name)
        if n not in self._memo:
            self._memo[n] = self._B.real(n, dom)
        elif isinstance(dom, tuple):
            # the same value in another context: the bounds of this context hold as well
            v = self._memo[n]
            if dom[0] is not None:
                self._B.assume(v > dom[0])
            if dom[1] is not None:
                self._B.assume(v < dom[1])
        return self._memo[n]

    def int(self, name, lo=0, hi=None):
        n = self._name(name)
        if n not in self._memo:
            self._memo[n] = self._B.int(n, lo, hi)
        else:
            v = self._memo[n]
            if lo is not None:
                self._B.assume(v >= lo)
            if hi is not None:
                self._B.assume(v <= hi)
        return self._memo[n]

    def vec(self, name, n, dom="real"):
        return [self.real(f"{name}[{i}]", dom) for i in range(n)]

    def ivec(self, name, n, lo=0, hi=None):
        return [self.int(f"{name}[{i}]", lo, hi) for i in range(n)]

    def arr(self, x):
        return x

    def __getattr__(self, n):
        return getattr(self._B, n)


def same_val(a, b):
    if isinstance(a, (list, np.ndarray)):
        return len(a) == len(b) and all(same_val(x, y) for x, y in zip(a, b))
    n = getattr(a, "n", None)
    return a is b or (n is not None and n is getattr(b, "n", None)) or (n is None and getattr(b, "n", None) is None and a == b)


def collect(B, vals, shape):
    """The smallest array (of a shape broadcastable to shape) that holds vals[pos] at every position."""
    keep = []
    for i in range(len(shape)):
        varies = False
        for pos in np.ndindex(*shape):
            p0 = pos[:i] + (0,) + pos[i + 1:]
            if not same_val(vals[pos], vals[p0]):
                varies = True
        keep.append(varies)
    if not any(keep):
        v = vals[(0,) * len(shape)]
        return B.arr(v) if isinstance(v, (list, np.ndarray)) else v
    shp = tuple(s if k else 1 for s, k in zip(shape, keep))
    while shp and shp[0] == 1 and not keep[len(shape) - len(shp)]:
        shp = shp[1:]
    off = len(shape) - len(shp)

    def build(pre, i):
        if i == len(shape):
            return vals[pre]
        return [build(pre + (j,), i + 1) for j in range(shp[i - off])]

    return B.arr(build((0,) * off, off))


class Captured(BaseException):
    """A library call one element's inputs lead to."""

    def __init__(self, name, args, kw):
        self.name, self.args, self.kw = name, args, kw


class Lib:
    def __init__(self, view):
        self._view = view

    def __getattr__(self, n):
        return Entry(n, self._view)


class Entry:
    """A function of the library, as one element's run sees it."""

    def __init__(self, name, view):
        self.name, self.view = name, view

    def __call__(self, *a, **k):
        return self.view.call(self, *a, **k)


class LiftView(Shared):
    """What one element's run of a scalar case sees: its library calls are answered from the array calls."""

    def __init__(self, B, axes, memo, pos, results, final, logs):
        super().__init__(B, axes, memo)
        self._pos, self._results, self._i, self._final, self._logs = pos, results, 0, final, logs
        self.M = Lib(self)

    def vec(self, name, n, dom="real"):
        return self._B.arr(Shared.vec(self, name, n, dom))

    def ivec(self, name, n, lo=0, hi=None):
        return self._B.arr(Shared.ivec(self, name, n, lo, hi))

    def arr(self, x):
        return self._B.arr(x)

    def choice(self, name, options):
        if name not in self._memo:
            self._memo[name] = self._B.choice(name, options)
        return self._memo[name]

    def simplex(self, name, k):
        if name not in self._memo:
            self._memo[name] = self._B.simplex(name, k)
        return self._memo[name]

    def call(self, fn, *a, **k):
        if not isinstance(fn, Entry):
            return self._B.call(fn, *a, **k)
        if self._i < len(self._results):
            self._i += 1
            return self._results[self._i - 1][self._pos]
        raise Captured(fn.name, a, k)

    def _goal(self, how, *a, **k):
        if self._final:
            *first, label = a
            getattr(self._B, how)(*first, f"element {self._pos}: {label}", **k)

    def eq(self, a, b, label, **k):
        self._goal("eq", a, b, label, **k)

    def true(self, c, label):
        self._goal("true", c, label)

    def is_type(self, obj, name, label="type"):
        self._goal("is_type", obj, name, label)

    def check_log(self, dist, x, expect, label, discrete):
        if self._final:
            self._logs.setdefault((self._i, label, discrete), []).append((x, expect))
            check_log(self._B, dist, x, expect, f"element {self._pos}: {label}", discrete)


def gather(B, vals, shape, dense=False):
    """One argument of the array call from the elements' arguments."""
    v0 = vals[(0,) * len(shape)]
    if dataclasses.is_dataclass(v0):
        return B.call(type(v0), **{k: gather(B, {p: getattr(v, k) for p, v in vals.items()}, shape, dense) for k in fields(v0)})
    if isinstance(v0, np.ndarray) and v0.shape == ():
        vals = {p: v[()] for p, v in vals.items()}
    if isinstance(v0, (bool, str)) or v0 is None:
        return v0
    vals = {p: list(v) if np.ndim(v) else v for p, v in vals.items()}
    if dense:
        build = lambda pre: vals[pre] if len(pre) == len(shape) else [build(pre + (j,)) for j in range(shape[len(pre)])]
        return B.arr(build(()))
    return collect(B, vals, shape)


def pick(B, v, p, shape, vec):
    """Element p of an array valued result."""
    if dataclasses.is_dataclass(v):
        got = {k: pick(B, w, p, shape, vec if k in ("alpha",) else False) for k, w in fields(v).items()}
        return None if any(w is None for w in got.values()) else B.call(type(v), **got)
    if isinstance(v, tuple):
        return tuple(pick(B, w, p, shape, vec) for w in v)
    tail = np.shape(v)[-1:] if vec else ()
    shp = np.shape(v)[:-1] if vec else np.shape(v)
    ok = len(shp) <= len(shape) and all(x in (1, y) for x, y in zip(shp[::-1], shape[::-1]))
    B.true(ok, f"result of shape {shp} for inputs of shape {shape}")
    if not ok:
        return None
    u = np.broadcast_to(np.asarray(v, dtype=object) if B.symbolic else np.asarray(v), shape + tail)[p]
    return B.arr(list(u)) if vec else u


def lifted(fn, shape, axes, whole=False, vector=False, dense=False, dist=False):
    """The scalar case fn for every element of array valued inputs: wherever fn calls the library with
    one element's inputs, the library is called once with the arrays of all elements' inputs.
    axes(name) -> the axes the input varies on; vector: the distribution's parameters are vectors already;
    dense: every argument is given in full shape, also where its elements are all the same;
    dist: the array valued result's scipy object has to exist."""
    def g(B):
        memo, results, logs, pos = {}, [], {}, list(np.ndindex(*shape))
        base = Whole(B) if whole else B
        while True:
            got = {}
            for p in pos:
                try:
                    fn(LiftView(base, axes, memo, p, results, False, logs))
                except Captured as c:
                    got[p] = c
            if not got:
                break
            c0 = got[pos[0]]
            args = [gather(B, {p: got[p].args[i] for p in pos}, shape, dense) for i in range(len(c0.args))]
            kw = {k: gather(B, {p: got[p].kw[k] for p in pos}, shape, dense) for k in c0.kw}
            res = B.call(getattr(B.M, c0.name), *args, **kw)
            picked = {p: pick(B, res, p, shape, vector) for p in pos}
            if any(v is None for v in picked.values()):
                return
            results.append(Call(picked, res))
            if dist and hasattr(type(res), "dist"):
                B.call(lambda: res.dist)
        for p in pos:
            fn(LiftView(base, axes, memo, p, results, True, logs))
        for (i, label, discrete), pairs in logs.items():
            # the array valued object, evaluated at an array of outcomes
            if len(pairs) == len(pos) and len(shape) == 1 and not vector:
                check_log(B, results[i - 1].whole.dist, B.arr([x for x, _ in pairs]), B.arr([e for _, e in pairs]), f"array of outcomes: {label}", discrete)
    return g


class Call(dict):
    def __init__(self, picked, whole):
        super().__init__(picked)
        self.whole = whole


def fields(d):
    from .predspec import fields as f
    return f(d)


def forms(prior, size=11):
    """(label, shape, axes, whole) of the array forms every scalar case is lifted to; prior(name) -> is it a parameter of the prior."""
    return (("arrays (2,)", (2,), lambda n: {0}, False), ("full arrays (2,)", (2,), lambda n: {0}, False),
            ("integer arrays (2,)", (2,), lambda n: {0}, True),
            (f"arrays ({size},)", (size,), lambda n: {0}, False),
            ("prior (3,)", (3,), lambda n: {0} if prior(n) else set(), False),
            ("data (3,)", (3,), lambda n: set() if prior(n) else {0}, False),
            ("prior (2,1) data (3,)", (2, 3), lambda n: {0} if prior(n) else {1}, False),
            ("prior (2,) data (2,1)", (2, 2), lambda n: {1} if prior(n) else {0}, False))


def lift_cases(Case, name, fn, prior=is_prior, vector=False, size=11, skip=(), dist=False, **k):
    return [Case(f"{name}: {lbl}", lifted(fn, shape, axes, whole, vector, lbl.startswith("full"), dist), runs=2, **k)
            for lbl, shape, axes, whole in forms(prior, size) if not any(s in lbl for s in skip)]


def bayes_vector_cases(models, Case):
    from .modelspec import bayes_case
    out = []
    for m in models:
        if getattr(m, "kind", "array") == "array":
            out += lift_cases(Case, m.name, bayes_case(m), vector=not m.scalar, size=4 if m.func == "uniform_pareto" else 11)
    return out
