"""C19: an undocumented prior or distribution type is rejected, a documented one accepted."""
import inspect
import re

import numpy as np

from vlib.distspec import UNIVARIATE
from vlib.harness import Case
from vlib.mvspec import iw_prior, lr_prior, mvn_prior, niw_prior
from vlib.predspec import VECTOR_VIEWS, VIEWS

BOUNDS = ("every public model function; as prior or distribution an instance (with arbitrary real parameters) of every distribution class of the library, None, an omitted argument, "
          "a number, a numpy scalar, an array, a string, a list, a tuple, a dict, a class instead of an instance, a frozen scipy distribution, an object of a foreign class carrying the "
          "documented name and attributes; every documented class with arbitrary valid parameters and data")

# what the documentation of each function names as its prior / distribution
DOC = {}
for names, cls in (
    ("binomial_beta binomial_beta_predictive bernoulli_beta bernoulli_beta_predictive negative_binomial_beta negative_binomial_beta_predictive geometric_beta geometric_beta_predictive", ["Beta"]),
    ("hypergeometric_beta_binomial", ["BetaBinomial"]),
    ("categorical_dirichlet categorical_dirichlet_predictive multinomial_dirichlet multinomial_dirichlet_predictive", ["Dirichlet"]),
    ("poisson_gamma poisson_gamma_predictive exponential_gamma exponential_gamma_predictive gamma_known_shape gamma_known_shape_predictive inverse_gamma_known_rate pareto_gamma", ["Gamma"]),
    ("normal_known_variance normal_known_variance_predictive normal_known_precision normal_known_precision_predictive", ["Normal"]),
    ("normal_known_mean normal_known_mean_predictive", ["InverseGamma", "ScaledInverseChiSquared"]),
    ("normal normal_predictive log_normal", ["NormalInverseGamma", "NormalGamma"]),
    ("normal_normal_inverse_gamma normal_normal_inverse_gamma_predictive linear_regression linear_regression_predictive", ["NormalInverseGamma"]),
    ("uniform_pareto", ["Pareto"]), ("gamma", ["GammaProportional"]), ("gamma_known_rate", ["GammaKnownRateProportional"]), ("beta", ["BetaProportional"]),
    ("von_mises_known_concentration", ["VonMisesKnownConcentration"]), ("von_mises_known_direction", ["VonMisesKnownDirectionProportional"]),
    ("multivariate_normal_known_covariance multivariate_normal_known_covariance_predictive multivariate_normal_known_precision multivariate_normal_known_precision_predictive", ["MultivariateNormal"]),
    ("multivariate_normal_known_mean", ["InverseWishart"]), ("multivariate_normal multivariate_normal_predictive", ["NormalInverseWishart"]),
    ("weibull_inverse_gamma_known_shape", ["InverseGamma"]),
):
    for f in names.split():
        DOC[f] = cls


def role(f):
    return "distribution" if f.endswith("_predictive") else "prior"


def mv_args(B, f, d=2, t="", n=2):
    """Valid data of the multivariate functions."""
    if f == "linear_regression":
        return dict(X=B.mat("X" + t, n, d), y=B.vec("y" + t, n))
    if f == "linear_regression_predictive":
        return dict(X=B.mat("X" + t, n, d))
    if f == "multivariate_normal":
        return dict(X=B.mat("X" + t, n, d))
    if f == "multivariate_normal_known_mean":
        return dict(X=B.mat("X" + t, n, d), mu=B.vec("m" + t, d))
    if f == "multivariate_normal_predictive":
        return {}
    m = {("cov" if "covariance" in f else "precision"): B.spd("C" + t, d)}
    return m if f.endswith("_predictive") else dict(n=B.int("n" + t, 1), x_bar=B.vec("xbar" + t, d), **m)


def mv_dist(B, f, d=2, t=""):
    if f.startswith("linear"):
        return lr_prior(B, d, t)
    if f in ("multivariate_normal", "multivariate_normal_predictive"):
        return niw_prior(B, d, t)
    return iw_prior(B, d, t) if f.endswith("known_mean") else mvn_prior(B, d, t)


def valid_args(B, f):
    vs = [v for v in VIEWS + VECTOR_VIEWS if v.func == f]
    return {**vs[0].gen(B, "'")[1], **vs[0].extra} if vs else mv_args(B, f)


# ---- an instance of every class, with arbitrary parameters
def p(B, n):
    return B.real(n, "pos")


MAKERS = {}
for s in UNIVARIATE:
    MAKERS.setdefault(s.cls, (lambda s: lambda B: s.make(B, s.params(B, "_")))(s))
MAKERS.update({
    "Dirichlet": lambda B: B.D.Dirichlet(alpha=B.vec("a_", 3, "pos")),
    "Multinomial": lambda B: B.D.Multinomial(n=B.int("n_", 0), p=B.simplex("p_", 3)),
    "DirichletMultinomial": lambda B: B.D.DirichletMultinomial(alpha=B.vec("a_", 3, "pos"), n=B.int("n_", 1)),
    "MultivariateNormal": lambda B: mvn_prior(B, 2, "_"),
    "MultivariateStudentT": lambda B: B.D.MultivariateStudentT(mu=B.vec("m_", 2), sigma=B.spd("s_", 2), nu=p(B, "nu_")),
    "NormalInverseGamma": lambda B: B.D.NormalInverseGamma(mu=B.real("m_"), nu=p(B, "nu_"), alpha=p(B, "a_"), beta=p(B, "b_")),
    "NormalGamma": lambda B: B.D.NormalGamma(mu=B.real("m_"), lam=p(B, "nu_"), alpha=p(B, "a_"), beta=p(B, "b_")),
    "GammaKnownRateProportional": lambda B: B.D.GammaKnownRateProportional(a=p(B, "a_"), b=p(B, "b_"), c=p(B, "c_")),
    "GammaProportional": lambda B: B.D.GammaProportional(p=p(B, "p_"), q=p(B, "q_"), r=p(B, "r_"), s=p(B, "s_")),
    "BetaProportional": lambda B: B.D.BetaProportional(p=p(B, "p_"), q=p(B, "q_"), k=p(B, "k_")),
    "VonMisesKnownConcentration": lambda B: B.D.VonMisesKnownConcentration(a=p(B, "a_"), b=B.real("b_")),
    "VonMisesKnownDirectionProportional": lambda B: B.D.VonMisesKnownDirectionProportional(c=p(B, "c_"), r=p(B, "r_")),
    "InverseWishart": lambda B: iw_prior(B, 2, "_"),
    "Wishart": lambda B: B.D.Wishart(nu=B.real("nu_", (1, None)), V=B.spd("V_", 2)),
    "NormalWishart": lambda B: B.D.NormalWishart(mu=B.vec("m_", 2), lam=p(B, "l_"), W=B.spd("W_", 2), nu=B.real("nu_", (1, None))),
    "NormalInverseWishart": lambda B: niw_prior(B, 2, "_"),
})
MAKERS["NormalInverseGamma (matrix)"] = lambda B: lr_prior(B, 2, "_")
OMITTED = object()


def foreign(cls):
    """A class of the same name and attributes from elsewhere."""
    return lambda B: type(cls, (), dict(alpha=1.0, beta=1.0, mu=0.0, sigma=1.0, nu=1.0, lam=1.0, n=1))()


def others(f):
    cls = DOC[f][0]
    return {
        "None": lambda B: None, "omitted": lambda B: OMITTED, "number": lambda B: 1.5, "integer": lambda B: 3, "numpy number": lambda B: np.float64(1.5), "array": lambda B: np.ones(2),
        "string": lambda B: cls, "list": lambda B: [MAKERS[cls](B)], "tuple": lambda B: (MAKERS[cls](B),), "dict": lambda B: dict(alpha=1.0, beta=1.0), "bool": lambda B: True,
        "the class itself": lambda B: getattr(B.D, cls), "the scipy distribution": lambda B: __import__("scipy.stats").stats.norm(0, 1), "foreign class": foreign(cls),
    }


TYPE_WORDS = set(MAKERS) | {"NoneType"}


def first_after(msg, word, names):
    m = re.search(word, msg, re.I)
    if not m:
        return None
    for w in re.findall(r"\w+", msg[m.end():]):
        if w in names:
            return w
    return ""


def rejected(B, f, value, label):
    fn = getattr(B.M, f)
    kw = valid_args(B, f)
    if value is not OMITTED:
        kw[role(f)] = value
    got = type(None if value is OMITTED else value).__name__
    try:
        fn(**kw)
    except ValueError as e:
        msg = str(e)
        words = set(re.findall(r"\w+", msg))
        for w in DOC[f] + [got]:
            B.true(w in words, f"{label}: the message does not name {w}: {msg}")
        names = TYPE_WORDS | {got}
        w = first_after(msg, "expected", TYPE_WORDS)
        B.true(w is None or w in DOC[f], f"{label}: the message names {w} as expected: {msg}")
        for verb in ("got", "rece?ie?ved?"):
            w = first_after(msg, r"\b" + verb + r"\b", names)
            B.true(w is None or w == got, f"{label}: the message names {w} as received: {msg}")
        return
    except Exception as e:
        B.true(False, f"{label}: raised {type(e).__name__} instead of ValueError: {str(e)[:100]}")
        return
    B.true(False, f"{label}: accepted")


def wrong_classes(f):
    names = [c for c in MAKERS if c.split()[0] not in DOC[f]]

    def fn(B):
        c = B.choice("class", names)
        rejected(B, f, MAKERS[c](B), c)
    return fn


def wrong_others(f):
    table = others(f)
    names = list(table)

    def fn(B):
        k = B.choice("kind", names)
        rejected(B, f, table[k](B), k)
    return fn


def accepted(f):
    def fn(B):
        vs = [v for v in VIEWS + VECTOR_VIEWS if v.func == f]
        if vs:
            v = B.choice("variant", vs)
            d, args = v.gen(B)
            kw = {**args, **v.extra}
        else:
            d, kw = mv_dist(B, f), mv_args(B, f)
        B.true(type(d).__name__ in DOC[f], "harness: prior of the documented class")
        sub = B.bool("subclass")
        if sub:
            # an instance of a subclass is an instance of the class
            c = type(d)
            e = object.__new__(type("My" + c.__name__, (c,), {}))
            e.__dict__.update(vars(d))
            d = e
        r = B.call(getattr(B.M, f), **kw, **{role(f): d})
        B.true(r is not None and (sub or type(r).__module__.endswith(".distributions")), "returns a distribution")
    return fn


def accepted_classes(f):
    """Every documented class is among those the accepting case uses."""
    def fn(B):
        vs = [v for v in VIEWS + VECTOR_VIEWS if v.func == f]
        for c in DOC[f]:
            d = MAKERS[c](B)
            kw = valid_args(B, f) if vs else mv_args(B, f)
            if c == "NormalInverseGamma" and f.startswith("linear"):
                d = lr_prior(B, 2, "_")
            if c == "Dirichlet":
                d = B.D.Dirichlet(alpha=B.vec("a_", 3, "pos"))
            if c == "BetaBinomial":
                d = B.D.BetaBinomial(n=B.int("n_", 1), alpha=p(B, "a_"), beta=p(B, "b_"))
            B.call(getattr(B.M, f), **kw, **{role(f): d})
            B.true(True, c)
    return fn


def table(B):
    """Every public model function taking a prior or a distribution is covered by this check."""
    for n, g in vars(B.M).items():
        if inspect.isfunction(g) and not n.startswith("_") and g.__module__ == B.M.__name__:
            ps = inspect.signature(g).parameters
            if ("prior" in ps or "distribution" in ps) and n not in DOC:
                print(f"note: {n} is not in the table of C19")
    for f in DOC:
        B.true(callable(getattr(B.M, f, None)), f"{f} exists")


CASES = [Case("functions", table)]
for f in DOC:
    CASES += [Case(f"{f}: other library classes", wrong_classes(f)), Case(f"{f}: other objects", wrong_others(f)), Case(f"{f}: accepted", accepted(f)), Case(f"{f}: every documented class", accepted_classes(f))]
