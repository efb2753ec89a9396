"""C13: anything that implements arithmetic like a number is accepted, and the result is right.

Two front ends: PyPika SQL expressions (the SQL text the library produces is parsed back with SQL's
precedence rules into a term over the column values), and a class that has only + - * / ** and unary minus."""
import math

import numpy as np

from vlib.harness import Case, Stop
from vlib.predspec import VIEWS, fields
from vlib.sqlx import BadSQL, parse, sqlite_value

BOUNDS = ("every model and predictive function with scalar parameters, the helper functions, constructors, conversions, scaling and unnormalised log likelihoods; every input an SQL column, "
          "an SQL expression (a column minus or plus another) or a minimal number object; inputs one at a time, prior or data only, and all together; column values unbounded")
ASSUMPTIONS = ["SQL arithmetic is taken over the reals; a dialect's integer division and rounding are outside the claim.",
               "PyPika writes a negative number after a minus sign as '--5' (an SQL comment); the check reads it as it is meant, PyPika's rendering being outside the claim."]

# numeric routines given as SQL functions
SQLFN = {
    "uniform_pareto": dict(max_fn="GREATEST"),
    "pareto_gamma": dict(ln="LN"),
    "von_mises_known_concentration": dict(sin="SIN", cos="COS", arctan2="ATAN2"),
}


class Num:
    """A number-like object: arithmetic and nothing else."""

    def __init__(self, v):
        self.v = v

    def _b(f):
        def g(self, o):
            if isinstance(o, Num):
                o = o.v
            elif isinstance(o, np.ndarray) or type(o).__name__ in ("str", "list", "tuple"):
                return NotImplemented
            return Num(f(self.v, o))
        return g

    __add__ = _b(lambda a, b: a + b)
    __radd__ = _b(lambda a, b: b + a)
    __sub__ = _b(lambda a, b: a - b)
    __rsub__ = _b(lambda a, b: b - a)
    __mul__ = _b(lambda a, b: a * b)
    __rmul__ = _b(lambda a, b: b * a)
    __truediv__ = _b(lambda a, b: a / b)
    __rtruediv__ = _b(lambda a, b: b / a)
    __pow__ = _b(lambda a, b: a**b)
    __rpow__ = _b(lambda a, b: b**a)
    __neg__ = lambda s: Num(-s.v)
    __pos__ = lambda s: s

    def _no(what):
        def f(self, *a):
            raise TypeError(f"not supported: {what}")
        return f

    __bool__, __float__, __int__, __index__, __len__, __iter__, __getitem__ = map(_no, ("truth value", "float()", "int()", "index", "len", "iteration", "indexing"))
    __eq__ = __ne__ = __lt__ = __le__ = __gt__ = __ge__ = _no("comparison")
    __hash__ = object.__hash__


class NumLike:
    label = "number object"

    def __init__(self, B):
        self.B = B

    def lift(self, name, v):
        return Num(v)

    def fn(self, name):
        f = FUNS(self.B)[name]
        return lambda *a: Num(f(*[x.v if isinstance(x, Num) else x for x in a]))

    def value(self, r):
        return r.v if isinstance(r, Num) else r


def FUNS(B):
    s = B.symbolic
    pw = (lambda x, e: x**e)
    at = (lambda y, x: __import__("vlib.npx", fromlist=["_arctan2"])._arctan2(y, x)) if s else math.atan2
    return dict(POW=pw, GREATEST=B.max, LN=B.ln, SIN=B.sin, COS=B.cos, ATAN2=at, LGAMMA=B.lgamma, BESSI0=(lambda x: __import__("vlib.stx", fromlist=["_i0"])._i0(x)) if s else
                __import__("scipy.special", fromlist=["i0"]).i0)


class SQL:
    label = "SQL column"

    def __init__(self, B, expression=False):
        self.B, self.expression = B, expression
        self.columns, self.literals, self.count = {}, {}, 0
        if B.symbolic:
            from vlib.sym import Sym
            me = self

            def text(s):
                n = f"LIT{s.n.id}"
                me.literals[n] = s
                return n

            Sym.__str__ = text

    def lift(self, name, v):
        from pypika import Field
        if not self.expression:
            self.columns[name] = v
            return Field(name)
        # v = u - w or v = u + w, alternating
        self.count += 1
        w = self.B.real(f"offset {name}")
        if self.count % 2:
            self.columns[name + "_u"], self.columns[name + "_w"] = v + w, w
            return Field(name + "_u") - Field(name + "_w")
        self.columns[name + "_u"], self.columns[name + "_w"] = v - w, w
        return Field(name + "_u") + Field(name + "_w")

    def fn(self, name):
        from pypika import CustomFunction
        n = 2 if name in ("GREATEST", "ATAN2") else 1
        return CustomFunction(name, ["a", "b"][:n])

    def value(self, r):
        from pypika.terms import Term
        if isinstance(r, tuple):
            raise BadSQL("a tuple")
        if not isinstance(r, Term):
            return r
        sql = r.get_sql(quote_char='"')
        if self.B.symbolic:
            return parse(sql, self.columns, self.literals, FUNS(self.B))
        return sqlite_value(sql, self.columns, FUNS(self.B))


def run(B, front, lifted, prior, args, do, params, angles=()):
    """do(lift) builds and calls; lift(name, v) leaves a value alone or hands it to the front end."""
    direct = do(lambda n, v: v, lambda n: None)
    got = do(lambda n, v: front.lift(n, v) if lifted(n) else v, front.fn)
    for p in params:
        try:
            u = front.value(getattr(got, p) if isinstance(p, str) else got[p])
        except BadSQL as e:
            B.true(False, f"{p}: {e}")
            continue
        v = getattr(direct, p) if isinstance(p, str) else direct[p]
        if p in angles:
            B.eq(B.cos(u), B.cos(v), f"cos {p}"), B.eq(B.sin(u), B.sin(v), f"sin {p}")
        else:
            B.eq(u, v, f"{p}")


def view_case(view, make_front, lifted):
    def fn(B):
        front = make_front(B)
        d, a = view.gen(B, empty_ok=True)
        cls, df = type(d), fields(d)
        repl = SQLFN.get(view.func, {})

        def do(lift, fnof):
            dist = B.call(cls, **{k: lift("prior_" + k, v) for k, v in df.items()})
            k = {p: fnof(n) for p, n in repl.items() if fnof(n) is not None}
            r = view.call(B, dist, {k2: lift(k2, v) for k2, v in a.items()}, **k)
            B.is_type(r, view.family)
            return r

        run(B, front, lifted, d, a, do, view.params, view.angles)
    return fn


# ---- everything else that only computes with its inputs: name -> (inputs, call(D, M, values) -> object, result fields)
def other():
    P, U, R = "pos", "unit", "real"
    o = {}
    o["get_binomial_beta_posterior_params"] = ([("alpha_prior", P), ("beta_prior", P), ("n", P), ("x", P)], lambda B, k: B.M.get_binomial_beta_posterior_params(**k), (0, 1), {})
    o["get_poisson_gamma_posterior_params"] = ([("alpha", P), ("beta", P), ("n", P), ("x_total", P)], lambda B, k: B.M.get_poisson_gamma_posterior_params(**k), (0, 1), {})
    o["get_exponential_gamma_posterior_params"] = ([("alpha", P), ("beta", P), ("n", P), ("x_total", P)], lambda B, k: B.M.get_exponential_gamma_posterior_params(**k), (0, 1), {})
    o["Beta.from_mean"] = ([("mean", U), ("alpha", P)], lambda B, k: B.D.Beta.from_mean(**k), ("alpha", "beta"), {})
    o["Beta.from_successes_and_failures"] = ([("successes", P), ("failures", P)], lambda B, k: B.D.Beta.from_successes_and_failures(**k), ("alpha", "beta"), {})
    o["Gamma.from_occurrences_in_intervals"] = ([("occurrences", P), ("intervals", P)], lambda B, k: B.D.Gamma.from_occurrences_in_intervals(**k), ("alpha", "beta"), {})
    o["Normal.from_mean_and_variance"] = ([("mean", R), ("variance", P)], lambda B, k: B.D.Normal.from_mean_and_variance(**k), ("mu", "sigma"), {})
    o["Normal.from_mean_and_precision"] = ([("mean", R), ("precision", P)], lambda B, k: B.D.Normal.from_mean_and_precision(**k), ("mu", "sigma"), {})
    o["ScaledInverseChiSquared.from_inverse_gamma"] = ([("alpha", P), ("beta", P)], lambda B, k: B.D.ScaledInverseChiSquared.from_inverse_gamma(B.D.InverseGamma(**k)), ("nu", "sigma2"), {})
    o["ScaledInverseChiSquared.to_inverse_gamma"] = ([("nu", P), ("sigma2", P)], lambda B, k: B.D.ScaledInverseChiSquared(**k).to_inverse_gamma(), ("alpha", "beta"), {})
    o["NormalInverseGamma.from_inverse_gamma"] = ([("mu", R), ("alpha", P), ("beta", P), ("nu", P)], lambda B, k: B.D.NormalInverseGamma.from_inverse_gamma(mu=k["mu"], nu=k["nu"], inverse_gamma=B.D.InverseGamma(alpha=k["alpha"], beta=k["beta"])), ("mu", "alpha", "beta", "nu"), {})
    for c, ps, out, oc in (("Exponential", [("lam", P)], ("alpha", "beta"), "Gamma"), ("Gamma", [("alpha", P), ("beta", P)], ("alpha", "beta"), ""), ("NegativeBinomial", [("n", P), ("p", U)], ("n", "p"), ""),
                           ("Poisson", [("lam", P)], ("lam",), ""), ("Normal", [("mu", R), ("sigma", P)], ("mu", "sigma"), "")):
        ks = [n for n, _ in ps]
        o[f"{c} * k"] = (ps + [("factor", P)], (lambda c, ks: lambda B, k: getattr(B.D, c)(**{n: k[n] for n in ks}) * k["factor"])(c, ks), out, {})
        o[f"{c}.__rmul__"] = (ps + [("factor", P)], (lambda c, ks: lambda B, k: getattr(B.D, c)(**{n: k[n] for n in ks}).__rmul__(k["factor"]))(c, ks), out, {})
    o["Poisson + Poisson"] = ([("a", P), ("b", P)], lambda B, k: B.D.Poisson(k["a"]) + B.D.Poisson(k["b"]), ("lam",), {})
    ll = lambda c, m, ps, xs, fns: (ps + xs, lambda B, k: (getattr(getattr(B.D, c)(**{n: k[n] for n, _ in ps}), m)(**{n: k[n] for n, _ in xs}, **{f: k[f] for f in fns if k.get(f) is not None}),), (0,), fns)
    AB = [("alpha", P), ("beta", P)]
    o["GammaKnownRateProportional.approx_log_likelihood"] = ll("GammaKnownRateProportional", "approx_log_likelihood", [("a", P), ("b", P), ("c", P)], AB, dict(ln="LN", gammaln="LGAMMA"))
    o["GammaProportional.approx_log_likelihood"] = ll("GammaProportional", "approx_log_likelihood", [("p", P), ("q", P), ("r", P), ("s", P)], AB, dict(ln="LN", gammaln="LGAMMA"))
    o["BetaProportional.approx_log_likelihood"] = ll("BetaProportional", "approx_log_likelihood", [("p", P), ("q", P), ("k", P)], AB, dict(ln="LN", gammaln="LGAMMA"))
    o["VonMisesKnownConcentration.log_likelihood"] = ll("VonMisesKnownConcentration", "log_likelihood", [("a", P), ("b", "angle")], [("mu", "angle")], dict(cos="COS", ln="LN", i0="BESSI0"))
    o["VonMisesKnownDirectionProportional.approx_log_likelihood"] = ll("VonMisesKnownDirectionProportional", "approx_log_likelihood", [("c", P), ("r", R)], [("kappa", P)], dict(ln="LN", i0="BESSI0"))
    return o


OTHER = other()


def other_case(name, make_front):
    inputs, call, out, fns = OTHER[name]

    def fn(B):
        front = make_front(B)
        vals = {n: B.real(n, d) for n, d in inputs}

        def do(lift, fnof):
            k = {n: lift(n, v) for n, v in vals.items()}
            k.update({p: fnof(n) for p, n in fns.items() if fnof(n) is not None})
            return B.call(call, B, k)

        run(B, front, lambda n: True, None, None, do, out)
    return fn


def series_case(view):
    """Columns of a data frame: element i of the result is the result for element i."""
    def fn(B):
        import pandas as pd
        rows = [view.gen(B, str(i)) for i in range(2)]
        cls = type(rows[0][0])
        ser = lambda vs: pd.Series(list(vs), index=["b", "a"], dtype=object if B.symbolic else None)
        d = B.call(cls, **{k: ser(fields(r[0])[k] for r in rows) for k in fields(rows[0][0])})
        got = view.call(B, d, {k: ser(r[1][k] for r in rows) for k in rows[0][1]})
        B.is_type(got, view.family)
        refs = [view.call(B, *r) for r in rows]
        for p in view.params:
            u = getattr(got, p)
            if not isinstance(u, pd.Series):
                u = [u, u] if np.ndim(u) == 0 else list(u)
            for i, x in enumerate(list(u)):
                if p in view.angles:
                    B.eq(B.cos(x), B.cos(getattr(refs[i], p)), f"cos {p}{i}"), B.eq(B.sin(x), B.sin(getattr(refs[i], p)), f"sin {p}{i}")
                else:
                    B.eq(x, getattr(refs[i], p), f"{p}{i}")
    return fn


def slots(view):
    """Names of the inputs, as run() sees them."""
    class F:
        symbolic = False
        real = staticmethod(lambda n, dom="real": 0.5)
        int = staticmethod(lambda n, lo=0, hi=None: 1)
        ln = staticmethod(lambda x: 0.0)
        assume = staticmethod(lambda c: None)

        class D:
            def __getattr__(self, n):
                import dataclasses
                return lambda **k: dataclasses.make_dataclass(n, list(k))(**k)
        D = D()
    d, a = view.gen(F)
    return ["prior_" + k for k in fields(d)], list(a)


FRONTS = {"SQL columns": lambda B: SQL(B), "SQL expressions": lambda B: SQL(B, True), "number objects": lambda B: NumLike(B)}
CASES = []
for v in VIEWS:
    ps, as_ = slots(v)
    for fname, mk in FRONTS.items():
        if fname == "SQL expressions" and v.func in SQLFN:
            pass
        CASES.append(Case(f"{v.name}: {fname}, all", view_case(v, mk, lambda n: True), runs=2))
        if fname != "SQL expressions":
            CASES.append(Case(f"{v.name}: {fname}, prior", view_case(v, mk, (lambda ps: lambda n: n in ps)(ps)), runs=2))
            if as_:
                CASES.append(Case(f"{v.name}: {fname}, data", view_case(v, mk, (lambda a: lambda n: n in a)(as_)), runs=2))
            for s in ps + as_:
                CASES.append(Case(f"{v.name}: {fname}, only {s}", view_case(v, mk, (lambda s: lambda n: n == s)(s)), runs=2))
    CASES.append(Case(f"{v.name}: data frame columns", series_case(v), runs=2))
for n in OTHER:
    for fname, mk in FRONTS.items():
        CASES.append(Case(f"{n}: {fname}", other_case(n, mk), runs=2))
