"""C20: calls never modify their inputs and depend only on their arguments."""
import dataclasses
import functools
import inspect

import numpy as np

from vlib import law
from vlib.dens import logdens, logmass
from vlib.distspec import UNIVARIATE, label
from vlib.harness import TIER, Case, whole
from vlib.mvspec import iw_prior, lr_prior, mvn_prior, niw_prior
from vlib.predspec import VECTOR_VIEWS, VIEWS
from props.c17 import CONS
from props.c19 import DOC, MAKERS, mv_args, mv_dist, role

BOUNDS = ("every model function with all real inputs as numbers, arrays of 2 elements (prior parameters, data, both) or matrices of dimension 2; histories of one call, the same call with other "
          "arguments or another function on the same objects, in any order, then the first call again (three to five calls; 20 other calls; 10 updates in a row); every distribution class: its scipy object, density, indexing, scaling, "
          "conversions, log likelihoods and samplers called twice around other calls, then with parameters reassigned; samplers with 2 draws and an integer seed; every alternative constructor and conversion called again after its earlier result was changed")


# ---- snapshots
def snap(v):
    if dataclasses.is_dataclass(v) and not isinstance(v, type):
        return ("dist", v, {f.name: snap(getattr(v, f.name)) for f in dataclasses.fields(v)}, bounds(v))
    if isinstance(v, np.ndarray):
        return ("array", v, np.array(v, copy=True))
    if isinstance(v, (list, tuple)):
        return ("seq", v, [snap(x) for x in v])
    if isinstance(v, dict):
        return ("dict", v, {k: snap(x) for k, x in v.items()})
    return ("value", v, v)


def bounds(d):
    return {n: snap(vars(d)[n]) for n in ("_min_value", "_max_value") if n in vars(d)}


def kept(B, v, s, label):
    """v is what it was when the snapshot was taken."""
    kind = s[0]
    if kind == "dist":
        B.true(type(v) is type(s[1]), f"{label}: class changed")
        for f, q in s[2].items():
            kept(B, getattr(v, f), q, f"{label}.{f}")
        for f, q in s[3].items():
            B.true(f in vars(v), f"{label}: bounds lost")
            if f in vars(v):
                kept(B, vars(v)[f], q, f"{label}{f}")
    elif kind == "array":
        B.true(isinstance(v, np.ndarray) and np.shape(v) == np.shape(s[2]), f"{label}: shape changed")
        if np.shape(v) == np.shape(s[2]):
            B.eq(v, s[2], label)
            B.true(B.symbolic or v.dtype == s[2].dtype, f"{label}: dtype changed")
    elif kind == "seq":
        B.true(type(v) is type(s[1]) and len(v) == len(s[2]), f"{label}: length changed")
        for i, q in enumerate(s[2]):
            kept(B, v[i], q, f"{label}[{i}]")
    elif kind == "dict":
        B.true(set(v) == set(s[2]), f"{label}: keys changed")
        for k, q in s[2].items():
            kept(B, v[k], q, f"{label}[{k}]")
    elif s[2] is None or isinstance(s[2], (str, bool)) or callable(s[2]):
        B.true(v is s[2] or v == s[2], f"{label}: changed")
    else:
        B.eq(v, s[2], label)


def equal(B, a, b, label):
    kept(B, a, snap(b), label)


# ---- model functions
def vectorise(B, v, kind):
    """The prior and the arguments of one call: numbers, arrays of 2 or 1, columns, a row against a column."""
    d1, a1 = v.gen(B, "1")
    if kind == "numbers":
        return d1, a1
    if kind == "one element":
        f = {x.name: getattr(d1, x.name) for x in dataclasses.fields(d1) if getattr(d1, x.name) is not None}
        return type(d1)(**{n: B.arr([x]) for n, x in f.items()}), {n: B.arr([x]) for n, x in a1.items()}
    d2, a2 = v.gen(B, "2")
    if kind in ("column", "column of data"):
        f = {x.name: getattr(d1, x.name) for x in dataclasses.fields(d1) if getattr(d1, x.name) is not None}
        if kind == "column":
            return (type(d1)(**{n: B.arr([[x], [getattr(d2, n)]]) for n, x in f.items()}), {n: B.arr([[x], [a2[n]]]) for n, x in a1.items()})
        return (type(d1)(**{n: B.arr([x, getattr(d2, n)]) for n, x in f.items()}), {n: B.arr([[x], [a2[n]]]) for n, x in a1.items()})
    d, a = d1, a1
    if kind in ("prior", "both"):
        f = {x.name: getattr(d1, x.name) for x in dataclasses.fields(d1) if getattr(d1, x.name) is not None}
        d = type(d1)(**{n: B.arr([x, getattr(d2, n)]) for n, x in f.items()})
    if kind in ("data", "both"):
        a = {n: B.arr([x, a2[n]]) for n, x in a1.items()}
    return d, a


def history(v, kind):
    def fn(B):
        f = getattr(B.M, v.func)
        d, a = vectorise(B, v, kind)
        a = {**a, **v.extra}
        sd, sa = snap(d), snap(a)
        r1 = B.call(f, **a, **{v.role: d})
        kept(B, d, sd, v.role), kept(B, a, sa, "argument")
        s1 = snap(r1)
        # another call of the same function in between, with other data or another prior
        d2, a2 = v.gen(B, "'")
        a2 = {**a2, **v.extra}
        h = B.choice("history", ["again", "other data", "other prior", "everything else", "predictive"])
        if h == "other data":
            B.call(f, **a2, **{v.role: d})
        elif h == "other prior":
            B.call(f, **(a if kind == "numbers" else a2), **{v.role: d2})
        elif h == "everything else":
            B.call(f, **a2, **{v.role: d2})
        elif h == "predictive":
            g = getattr(B.M, v.func + "_predictive", None)
            if g is not None and v.role == "prior":
                extra = [w for w in VIEWS + VECTOR_VIEWS if w.func == v.func + "_predictive"]
                if extra:
                    B.call(g, **extra[0].gen(B, "p")[1], distribution=r1)
        kept(B, r1, s1, "earlier result")
        r2 = B.call(f, **a, **{v.role: d})
        equal(B, r2, r1, "repeated call")
        kept(B, d, sd, f"{v.role} after the repeated call"), kept(B, a, sa, "argument after the repeated call")
    return fn


def long_history(v, m):
    """Many other calls in between, each with inputs of its own; every earlier result stays what it was."""
    def fn(B):
        f = getattr(B.M, v.func)
        d, a = v.gen(B, "1")
        a = {**a, **v.extra}
        r1 = B.call(f, **a, **{v.role: d})
        s1 = snap(r1)
        for i in range(m):
            di, ai = v.gen(B, f"'{i}")
            B.call(f, **ai, **v.extra, **{v.role: di})
        kept(B, r1, s1, "earlier result")
        equal(B, B.call(f, **a, **{v.role: d}), r1, "repeated call")
    return fn


def chained(v, m):
    """m updates in a row, twice from the same prior."""
    def fn(B):
        f = getattr(B.M, v.func)
        d, a0 = v.gen(B, "1")
        k = v.m.known(B, "1")
        data = [{**k, **v.m.data(B, f"'{i}", k), **v.extra} for i in range(m)]
        run = lambda: functools.reduce(lambda p, x: B.call(f, **x, **{v.role: p}), data, d)
        equal(B, run(), run(), "the same sequence again")
    return fn


def independent(v):
    """The result does not keep following its inputs: changing the inputs afterwards and calling again gives the result for the new values."""
    def fn(B):
        f = getattr(B.M, v.func)
        d, a = v.gen(B, "1")
        d2, a2 = v.gen(B, "2")
        a, a2 = {**a, **v.extra}, {**a2, **v.extra}
        r1 = B.call(f, **a, **{v.role: d})
        fresh = B.call(f, **a2, **{v.role: d2})
        for x in dataclasses.fields(d):
            setattr(d, x.name, getattr(d2, x.name))
        r = B.call(f, **a2, **{v.role: d})
        equal(B, r, fresh, "call after the inputs were given new values")
    return fn


def fresh_arrays(v):
    """The same for arrays overwritten in place by their owner."""
    def fn(B):
        f = getattr(B.M, v.func)
        da, aa = vectorise(B, v, "both")
        db, ab = v.gen(B, "3")
        dc, ac = v.gen(B, "4")
        names = [x.name for x in dataclasses.fields(da) if getattr(da, x.name) is not None]
        B.call(f, **aa, **v.extra, **{v.role: da})
        for n in names:
            w = B.arr([getattr(db, n), getattr(dc, n)])
            setattr(da, n, w) if not B.symbolic and w.dtype != getattr(da, n).dtype else getattr(da, n).__setitem__(slice(None), w)
        for n in aa:
            w = B.arr([ab[n], ac[n]])
            if not B.symbolic and w.dtype != aa[n].dtype:
                aa[n] = w
            else:
                aa[n][:] = w
        new = type(da)(**{n: B.arr([getattr(db, n), getattr(dc, n)]) for n in names})
        equal(B, B.call(f, **aa, **v.extra, **{v.role: da}), B.call(f, **{n: B.arr([ab[n], ac[n]]) for n in aa}, **v.extra, **{v.role: new}), "call after the arrays were overwritten")
    return fn


def matrix(f, d=2, n=2):
    def fn(B):
        g = getattr(B.M, f)
        q, a = mv_dist(B, f, d), mv_args(B, f, d, n=n)
        sq, sa = snap(q), snap(a)
        r1 = B.call(g, **a, **{role(f): q})
        kept(B, q, sq, role(f)), kept(B, a, sa, "argument")
        s1 = snap(r1)
        if B.bool("reuse"):
            # the result as the next prior / the same prior on part of the data
            if not f.endswith("_predictive"):
                B.call(g, **a, **{role(f): r1})
            elif "X" in a:
                B.call(g, **{**a, "X": a["X"][:1]}, **{role(f): q})
        kept(B, r1, s1, "earlier result")
        r2 = B.call(g, **a, **{role(f): q})
        equal(B, r2, r1, "repeated call")
        kept(B, q, sq, role(f)), kept(B, a, sa, "argument")
    return fn


def matrix_values(f, d, how):
    """A prior or a matrix that is given new values between two calls: the second call uses the new values."""
    def fn(B):
        g = getattr(B.M, f)
        q, a = mv_dist(B, f, d), mv_args(B, f, d)
        q2, a2 = mv_dist(B, f, d, "2"), mv_args(B, f, d, "2")
        r1 = B.call(g, **a, **{role(f): q})
        s1 = snap(r1)
        want = snap(B.call(g, **a2, **{role(f): q2}))
        names = [x.name for x in dataclasses.fields(q) if getattr(q, x.name) is not None]
        if how == "reassigned":
            for n in names:
                setattr(q, n, getattr(q2, n))
            a = a2
        elif how == "overwritten":
            for n in names:
                v, w = getattr(q, n), getattr(q2, n)
                if isinstance(v, np.ndarray) and np.ndim(v):
                    v[...] = w
                else:
                    setattr(q, n, w)
            for n, w in a2.items():
                if isinstance(a[n], np.ndarray) and np.ndim(a[n]):
                    a[n][...] = w
                else:
                    a[n] = w
        elif how == "one field":
            # only one matrix changes hands, the object stays the same
            n = [x for x in names if np.ndim(getattr(q, x)) == 2][0]
            setattr(q, n, getattr(q2, n))
            fresh = type(q)(**{x: getattr(q, x) for x in names})
            want, a2 = snap(B.call(g, **a, **{role(f): fresh})), a
        r = B.call(g, **a, **{role(f): q})
        kept(B, r, want, "call after the inputs were given new values")
        if how == "reassigned":
            kept(B, r1, s1, "earlier result")
    return fn


def dirichlet_shapes(func, pd, xd):
    """Tables of counts and of parameters, of whole or real numbers."""
    def table(B, n, dim, whole=False):
        v = lambda i: B.int(f"{n}{i}", 0) if whole else B.real(f"{n}{i}", "pos")
        return B.arr([v(i) for i in range(3)]) if dim == 1 else B.arr([[v(3 * j + i) for i in range(3)] for j in range(2)])

    def fn(B):
        p = B.D.Dirichlet(alpha=table(B, "a", pd))
        x = table(B, "x", xd, B.bool("whole"))
        sp, sx = snap(p), snap(x)
        f = getattr(B.M, func)
        r = B.call(f, x=x, prior=p)
        kept(B, p, sp, "prior"), kept(B, x, sx, "data")
        s = snap(r)
        kept(B, B.call(f, x=x, prior=p), s, "repeated call")
        # the result is nobody else's: writing into it changes neither the prior nor the data
        r.alpha[...] = 1
        kept(B, p, sp, "prior after the posterior was changed"), kept(B, x, sx, "data after the posterior was changed")
    return fn


def lists(func, which):
    def fn(B):
        a = [B.real(f"a{i}", "pos") for i in range(3)]
        x = [B.int(f"x{i}", 0) for i in range(3)]
        prior = B.D.Dirichlet(alpha=list(a) if which != "data" else B.arr(a))
        data = list(x) if which != "prior" else B.arr(x)
        sp, sx = snap(prior), snap(data)
        f = getattr(B.M, func)
        if func.endswith("predictive"):
            r1 = B.call(f, distribution=prior)
            kept(B, prior, sp, "distribution")
            equal(B, B.call(f, distribution=prior), r1, "repeated call")
            return
        r1 = B.call(f, x=data, prior=prior)
        kept(B, prior, sp, "prior"), kept(B, data, sx, "data")
        equal(B, B.call(f, x=data, prior=prior), r1, "repeated call")
        kept(B, prior, sp, "prior"), kept(B, data, sx, "data")
    return fn


# ---- distribution methods
def univariate(s, arrays=False):
    def fn(B):
        if arrays:
            ps = [s.params(B, str(i)) for i in range(2)]
            vals = [B.arr([q[j] for q in ps]) for j in range(len(s.fields))]
            xs = [s.inside(B, f"x{i}", ps[i]) for i in range(2)]
            x = B.arr(xs)
        else:
            vals = s.params(B)
            x = s.inside(B, "x", vals)
        d = s.make(B, vals)
        sd, sx = snap(d), snap(x)
        f = logmass if s.discrete else logdens
        first = f(B, B.call(lambda: d.dist), x)
        keep = snap(first)
        kept(B, d, sd, "distribution"), kept(B, x, sx, "points")
        other = s.make(B, s.params(B, "_"))
        h = B.choice("history", ["nothing", "another object", "scaled", "indexed", "bounds"])
        if h == "another object":
            B.call(lambda: other.dist)
        elif h == "scaled" and hasattr(type(d), "__mul__"):
            B.call(lambda: d * B.real("k", "pos"))
        elif h == "indexed":
            B.call(lambda: d[0])
        elif h == "bounds":
            B.call(lambda: other.set_bounds(1, 2))
        kept(B, d, sd, "distribution")
        again = f(B, B.call(lambda: d.dist), x)
        kept(B, again, keep, "density the second time")
        kept(B, d, sd, "distribution")
        if arrays:
            return
        # reassigned parameters are the ones in force
        for (n, _) in s.fields:
            setattr(d, n, getattr(other, n))
        y = s.inside(B, "y", [getattr(other, n) for n, _ in s.fields])
        equal(B, f(B, B.call(lambda: d.dist), y), f(B, B.call(lambda: other.dist), y), "density after the parameters were reassigned")
    return fn


def conversions(B):
    D = B.D
    a, b = B.real("a", "pos"), B.real("b", "pos")
    ig = D.InverseGamma(alpha=a, beta=b)
    s = snap(ig)
    c = B.call(D.ScaledInverseChiSquared.from_inverse_gamma, ig)
    kept(B, ig, s, "inverse gamma")
    sc = snap(c)
    B.call(c.to_inverse_gamma)
    kept(B, c, sc, "scaled inverse chi squared")
    r = B.call(D.NormalInverseGamma.from_inverse_gamma, mu=a, inverse_gamma=ig, nu=b)
    kept(B, ig, s, "inverse gamma")
    sr = snap(r)
    back = B.call(lambda: r.inverse_gamma)
    back.alpha = back.alpha + 1
    kept(B, r, sr, "normal inverse gamma, after its marginal was changed")
    g = D.NormalGamma(mu=a, lam=b, alpha=a, beta=b)
    sg = snap(g)
    m = B.call(lambda: g.gamma)
    m.beta = m.beta * 2
    kept(B, g, sg, "normal gamma, after its marginal was changed")


def addition(B):
    a, b = B.D.Poisson(lam=B.real("x", "pos")), B.D.Poisson(lam=B.arr([B.real("y0", "pos"), B.real("y1", "pos")]))
    sa, sb = snap(a), snap(b)
    B.call(lambda: a + b), B.call(lambda: b + a), B.call(lambda: 2 * b), B.call(lambda: b * 3)
    kept(B, a, sa, "number"), kept(B, b, sb, "array")


def likelihoods(cls):
    def fn(B):
        d = MAKERS[cls](B)
        m = getattr(d, "approx_log_likelihood", None) or d.log_likelihood
        names = [n for n in list(inspect.signature(m).parameters) if n not in ("ln", "gammaln", "cos", "i0")]
        dom = {"mu": "real", "kappa": "pos", "alpha": "pos", "beta": "pos"}
        v1 = {n: B.real(n, dom[n]) for n in names}
        v2 = {n: B.arr([B.real(n + str(i), dom[n]) for i in range(2)]) for n in names}
        sd, s2 = snap(d), snap(v2)
        r = B.call(m, **v1)
        q = B.call(m, **v2)
        keep = snap(q)
        equal(B, B.call(m, **v1), r, "repeated call")
        kept(B, q, keep, "earlier result"), kept(B, v2, s2, "points"), kept(B, d, sd, "distribution")
        equal(B, B.call(m, **v2), q, "repeated call with arrays")
    return fn


def sampler(make, d):
    """A seed fixes the draws, whatever was drawn before; nothing is modified."""
    def fn(B):
        q = make(B)
        if getattr(q, "nu", None) is not None and type(q).__name__.endswith("Wishart"):
            law.drawable(B, q.nu, d)
        sq = snap(q)
        first = B.call(q.sample_mean, size=2, return_variance=True, random_state=11)
        keep = snap(first)
        h = B.choice("history", ["nothing", "mean only", "variance", "unseeded", "another seed", "generator"])
        if h == "mean only":
            r = B.call(q.sample_mean, size=2, random_state=11)
            equal(B, r, first[0], "mean without the variance")
        elif h == "variance":
            B.call(q.sample_variance, size=3, random_state=11)
        elif h == "unseeded":
            B.call(q.sample_mean, size=2)
        elif h == "another seed":
            B.call(q.sample_mean, size=1, random_state=5)
        elif h == "generator":
            B.call(q.sample_mean, size=2, random_state=B.default_rng(11))
        kept(B, first, keep, "earlier draws"), kept(B, q, sq, "distribution")
        again = B.call(q.sample_mean, size=2, return_variance=True, random_state=11)
        equal(B, again, first, "the same seed again")
        kept(B, q, sq, "distribution")
    return fn


def compound(cls, kw):
    def fn(B):
        q = MAKERS[cls](B) if not kw else getattr(B.D, cls)(alpha=B.real("a", "pos"), beta=B.real("b", "pos"), **kw)
        sq = snap(q)
        first = B.call(q.dist.rvs, size=2, random_state=3)
        if B.bool("between"):
            B.call(q.dist.rvs, size=1, random_state=4)
            B.call(q.dist.rvs)
        again = B.call(q.dist.rvs, size=2, random_state=3)
        equal(B, again, first, "the same seed again")
        kept(B, q, sq, "distribution")
    return fn


MARGINALS = [("NormalInverseGamma", "inverse_gamma"), ("NormalGamma", "gamma"), ("NormalWishart", "wishart"), ("NormalInverseWishart", "inverse_wishart")]


def marginals(cls, prop, how):
    """The marginal asked for again, with other parameters in between: a marginal of the parameters in force, owned by nobody else."""
    def fn(B):
        q, other = MAKERS[cls](B), renamed(B, cls)
        first = B.call(lambda: getattr(q, prop))
        s = snap(first)
        want = snap(B.call(lambda: getattr(other, prop)))
        B.call(lambda: getattr(renamed(B, cls, "3"), prop))
        kept(B, B.call(lambda: getattr(q, prop)), s, "the marginal again")
        for x in dataclasses.fields(q):
            v, w = getattr(q, x.name), getattr(other, x.name)
            if how == "overwritten" and isinstance(v, np.ndarray) and np.ndim(v) and np.shape(v) == np.shape(w):
                v[...] = w
            else:
                setattr(q, x.name, w)
        kept(B, B.call(lambda: getattr(q, prop)), want, f"marginal after the parameters were {how}")
        if how == "reassigned":
            kept(B, first, s, "earlier marginal")
    return fn


class Renamed:
    """Backend view with names of its own."""

    def __init__(self, B, tag):
        self._B, self._t = B, tag

    def __getattr__(self, n):
        f = getattr(self._B, n)
        return (lambda name, *a, **k: f(name + self._t, *a, **k)) if n in ("real", "int", "bool", "vec", "spd", "mat", "simplex", "choice") else f


def renamed(B, cls, tag="'"):
    return MAKERS[cls](Renamed(B, tag))


def new_draws(make, d):
    """Draws after the parameters were given new values are those of an object made with these values."""
    def fn(B):
        q, other = make(B), make(Renamed(B, "'"))
        for w in (q, other):
            if getattr(w, "nu", None) is not None and type(w).__name__.endswith("Wishart"):
                law.drawable(B, w.nu, d)
        B.call(q.sample_mean, size=2, return_variance=True, random_state=11)
        want = snap(B.call(other.sample_mean, size=2, return_variance=True, random_state=11))
        for x in dataclasses.fields(q):
            setattr(q, x.name, getattr(other, x.name))
        kept(B, B.call(q.sample_mean, size=2, return_variance=True, random_state=11), want, "draws after the parameters were reassigned")
    return fn


def forgotten(build, args):
    """A result changed by its owner has no influence on what the same call returns later."""
    def fn(B):
        vals = {n: B.real(n, d) for n, d in args}
        kinds = [vals, {n: B.arr([v, v + 1]) if d != "unit" else B.arr([v, v / 2]) for (n, d), v in zip(args, vals.values())}]
        for some in kinds[:2 if args else 1]:
            first = B.call(build, B.D, **some)
            s = snap(first)
            second = B.call(build, B.D, **some)
            B.true(second is not first, "the results are separate objects")
            if hasattr(first, "set_bounds"):
                first.set_bounds(B.real("lo", "unit"), 1 + B.real("hi", "pos"))
            for i, x in enumerate(dataclasses.fields(first)):
                v = getattr(first, x.name)
                if isinstance(v, np.ndarray) and not any(v is w for w in some.values()) and v.flags.writeable:
                    v[...] = v + 1
                setattr(first, x.name, B.real(f"new{i}", "pos"))
            kept(B, second, s, "the other result")
            kept(B, B.call(build, B.D, **some), s, "result after the first one was changed")
    return fn


def vector_dist(cls, k=3):
    """The scipy object follows the parameters of a distribution of vectors."""
    def fn(B):
        q, other = MAKERS[cls](B), renamed(B, cls)
        sq = snap(q)
        x = B.vec("x", np.shape(getattr(q, "mu"))[0])
        first = B.call(q.dist.logpdf, x)
        s = snap(first)
        kept(B, B.call(q.dist.logpdf, x), s, "density the second time")
        kept(B, q, sq, "distribution")
        want = snap(B.call(other.dist.logpdf, x))
        for f in dataclasses.fields(q):
            setattr(q, f.name, getattr(other, f.name))
        kept(B, B.call(q.dist.logpdf, x), want, "density after the parameters were reassigned")
    return fn


CASES = []
for cls, prop in MARGINALS:
    CASES += [Case(f"{cls}.{prop}: {how}", marginals(cls, prop, how), runs=2) for how in ("reassigned", "overwritten")]
CASES += [Case(f"{cls}: density", vector_dist(cls), runs=2) for cls in ("MultivariateNormal", "MultivariateStudentT")]
for v in VIEWS:
    for kind in ("numbers", "prior", "data", "both", "one element", "column", "column of data"):
        CASES.append(Case(f"{v.name}: {kind}", history(v, kind), runs=2))
    hard = v.func in ("uniform_pareto", "von_mises_known_concentration")
    CASES.append(Case(f"{v.name}: {3 if hard else 20} calls in between", long_history(v, 3 if hard else 20), runs=2))
    if v.role == "prior" and hasattr(v.m, "known") and v.func not in ("hypergeometric_beta_binomial",) and not hard:
        CASES.append(Case(f"{v.name}: 10 updates in a row, twice", chained(v, 10), runs=2))
    CASES.append(Case(f"{v.name}: inputs given new values", independent(v), runs=2))
    CASES.append(Case(f"{v.name}: arrays overwritten", fresh_arrays(v), runs=2))
for v in VECTOR_VIEWS:
    CASES.append(Case(f"{v.name}: numbers", history(v, "numbers"), runs=2))
    CASES.append(Case(f"{v.name}: inputs given new values", independent(v), runs=2))
for f in DOC:
    if f.startswith(("linear", "multivariate")):
        CASES.append(Case(f"{f}[d=2]", matrix(f), runs=2, timeout=400))
        CASES.append(Case(f"{f}[d=1]", matrix(f, 1), runs=2))
        if f in ("linear_regression", "linear_regression_predictive", "multivariate_normal", "multivariate_normal_known_mean"):
            CASES += [Case(f"{f}[d={d},{n} rows]", matrix(f, d, n), runs=2, timeout=400) for d, n in ((1, 1), (1, 6), (2, 1), (2, 3)) + (((2, 7),) if f != "linear_regression" else ())]
            CASES += [Case(f"{f}[d={d},{n} rows]: integers", whole(matrix(f, d, n)), runs=2, timeout=400) for d, n in ((1, 2), (2, 3))]
        if TIER == "thorough":
            CASES.append(Case(f"{f}[d=3]", matrix(f, 3), runs=2, timeout=600))
        CASES += [Case(f"{f}[d={d}]: {how}", matrix_values(f, d, how), runs=2, timeout=400) for d in ((1, 2, 3) if TIER == "thorough" else (1, 2)) for how in ("reassigned", "overwritten", "one field")]
CASES += [Case(f"{f}: {pd}-dimensional prior, {xd}-dimensional data", dirichlet_shapes(f, pd, xd), runs=4) for f in ("categorical_dirichlet", "multinomial_dirichlet") for pd in (1, 2) for xd in (1, 2)]
for f in ("categorical_dirichlet", "multinomial_dirichlet", "categorical_dirichlet_predictive", "multinomial_dirichlet_predictive"):
    for w in ("prior", "data", "both"):
        CASES.append(Case(f"{f}: lists ({w})", lists(f, w), runs=2))
for s in UNIVARIATE:
    CASES += [Case(f"{label(s)}: methods", univariate(s), runs=2), Case(f"{label(s)}: methods on arrays", univariate(s, True), runs=2)]
CASES += [Case(f"{c.name}: result changed", forgotten(c.build, c.args), runs=2) for c in CONS]
for name, build in (("Beta.uninformative", lambda D: D.Beta.uninformative()), ("Normal.uninformative", lambda D: D.Normal.uninformative()),
                    ("Dirichlet.uninformative", lambda D: D.Dirichlet.uninformative(n=3)), ("Dirichlet.uninformative, 1", lambda D: D.Dirichlet.uninformative(1))):
    CASES.append(Case(f"{name}: result changed", forgotten(build, []), runs=2))
CASES += [Case("conversions", conversions), Case("addition", addition)]
for cls in ("GammaKnownRateProportional", "GammaProportional", "BetaProportional", "VonMisesKnownConcentration", "VonMisesKnownDirectionProportional"):
    CASES.append(Case(f"{cls}: log likelihood", likelihoods(cls), runs=2))
for name, mk in (("NormalInverseGamma", MAKERS["NormalInverseGamma"]), ("NormalInverseGamma matrix", lambda B: lr_prior(B, 2, "_")), ("NormalGamma", MAKERS["NormalGamma"]),
                 ("NormalWishart", MAKERS["NormalWishart"]), ("NormalInverseWishart", lambda B: niw_prior(B, 2, "_"))):
    CASES.append(Case(f"{name}: seeded draws", sampler(mk, 2), runs=2))
    CASES.append(Case(f"{name}: seeded draws, new parameters", new_draws(mk, 2), runs=2))
for cls, kw in (("BetaGeometric", dict(one_start=True)), ("BetaGeometric", dict(one_start=False)), ("CompoundGamma", {})):
    CASES.append(Case(f"{cls}{kw or ''}: seeded draws", compound(cls, kw), runs=2))
