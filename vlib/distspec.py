"""What each distribution class documents: parameters, support and density (written independently of the code)."""
from __future__ import annotations

from .spec import *


class Spec:
    def __init__(self, cls, fields, logd, inside, outside, discrete=False, **kw):
        self.cls, self.fields, self.logd, self.inside, self.outside, self.discrete, self.kw = cls, fields, logd, inside, outside, discrete, kw

    def params(self, B, tag=""):
        """One valid parameter tuple."""
        out = []
        for f, dom in self.fields:
            out.append(dom(B, f"{f}{tag}", out))
        return out

    def make(self, B, values):
        return B.call(getattr(B.D, self.cls), **{f: v for (f, _), v in zip(self.fields, values)}, **self.kw)


def dom(d):
    return lambda B, n, prev: B.real(n, d)


def integer(lo, hi=None):
    return lambda B, n, prev: B.int(n, lo, hi(prev) if callable(hi) else hi)


def pos_(B, n, p):
    return B.real(n, "pos")


def ge(lo):
    return lambda B, n, p: lo(p) + B.int(n, 0)


def d_betanegbin(B, x, n, a, b):
    return B.lgamma(n + x) - B.lgamma(x + 1) - B.lgamma(n) + lbeta(B, a + n, b + x) - lbeta(B, a, b)


def d_betageom(B, x, a, b, one):
    f = x - 1 if one else x
    return lbeta(B, a + 1, b + f) - lbeta(B, a, b)


def d_lognormal(B, x, mu, s):
    return -B.ln(x) - d_ln2pi(B, s) - (B.ln(x) - mu) ** 2 / (2 * s**2)


def d_ln2pi(B, s):
    return B.ln(2 * B.pi * s**2) / 2


def d_weibull(B, x, beta, theta):
    return B.ln(beta) - B.ln(theta) + (beta - 1) * B.ln(x) - x**beta / theta


def d_vonmises(B, x, mu, kappa):
    return kappa * B.cos(x - mu) - B.ln(2 * B.pi) - B.lni0(kappa)


def hyp_inside(B, n, p):
    N, k, m = p
    x = B.int(n, 0)
    B.assume(x <= k), B.assume(x <= m), B.assume(m - x <= N - k)
    return x


neg = lambda B, n, p: [-B.real(n, "pos")]
negint = lambda B, n, p: [-B.int(n, 1)]
above = lambda hi: (lambda B, n, p: [-B.int(n, 1), hi(p) + B.int(n + "'", 1)])
P, U, R = dom("pos"), dom("unit"), dom("real")

UNIVARIATE = [
    Spec("Beta", [("alpha", P), ("beta", P)], d_beta, lambda B, n, p: B.real(n, "unit"), lambda B, n, p: [-B.real(n, "pos"), 1 + B.real(n + "'", "pos")]),
    Spec("Exponential", [("lam", P)], d_exponential, pos_, neg),
    Spec("Gamma", [("alpha", P), ("beta", P)], d_gamma, pos_, neg),
    Spec("Normal", [("mu", R), ("sigma", P)], lambda B, x, m, s: d_normal(B, x, m, s**2), lambda B, n, p: B.real(n), lambda B, n, p: []),
    Spec("Uniform", [("low", R), ("high", lambda B, n, p: B.real(n, (p[0], None)))], lambda B, x, l, h: -B.ln(h - l),
         lambda B, n, p: B.real(n, (p[0], p[1])), lambda B, n, p: [B.real(n, (None, p[0])), B.real(n + "'", (p[1], None))]),
    Spec("Pareto", [("x_m", P), ("alpha", P)], d_pareto, lambda B, n, p: B.real(n, (p[0], None)), lambda B, n, p: [B.real(n, (None, p[0]))]),
    Spec("InverseGamma", [("alpha", P), ("beta", P)], d_invgamma, pos_, neg),
    Spec("StudentT", [("mu", R), ("sigma", P), ("nu", P)], lambda B, x, m, s, nu: d_student(B, x, m, s**2, nu), lambda B, n, p: B.real(n), lambda B, n, p: []),
    Spec("Lomax", [("alpha", P), ("lam", P)], d_lomax, pos_, neg),
    Spec("CompoundGamma", [("alpha", P), ("beta", P), ("lam", P)], d_compound_gamma, pos_, neg),
    Spec("VonMises", [("mu", dom("angle")), ("kappa", P)], d_vonmises, lambda B, n, p: B.real(n, "angle"), lambda B, n, p: []),
    Spec("ScaledInverseChiSquared", [("nu", P), ("sigma2", P)], d_sichi2, pos_, neg),
    Spec("LogNormal", [("mu", R), ("sigma", P)], d_lognormal, pos_, neg),
    Spec("Weibull", [("beta", P), ("theta", P)], d_weibull, pos_, neg),
    Spec("Binomial", [("n", integer(0)), ("p", U)], d_binomial, lambda B, n, p: B.int(n, 0, p[0]), above(lambda p: p[0]), True),
    Spec("NegativeBinomial", [("n", P), ("p", U)], d_negbin, lambda B, n, p: B.int(n, 0), negint, True),
    Spec("Hypergeometric", [("N", integer(1)), ("k", integer(0, lambda p: p[0])), ("n", integer(0, lambda p: p[0]))], d_hypergeom, hyp_inside,
         lambda B, n, p: [-B.int(n, 1), p[1] + B.int(n + "'", 1), p[2] + B.int(n + "''", 1)], True),
    Spec("Poisson", [("lam", P)], d_poisson, lambda B, n, p: B.int(n, 0), negint, True),
    Spec("BetaBinomial", [("n", integer(0)), ("alpha", P), ("beta", P)], d_betabinom, lambda B, n, p: B.int(n, 0, p[0]), above(lambda p: p[0]), True),
    Spec("BetaNegativeBinomial", [("n", integer(1)), ("alpha", P), ("beta", P)], d_betanegbin, lambda B, n, p: B.int(n, 0), negint, True),
]
for one in (True, False):
    UNIVARIATE += [
        Spec("Geometric", [("p", U)], (lambda o: lambda B, x, p: d_geometric(B, x, p, o))(one), (lambda o: lambda B, n, p: B.int(n, 1 if o else 0))(one),
             (lambda o: lambda B, n, p: [(1 if o else 0) - B.int(n, 1)])(one), True, one_start=one),
        Spec("BetaGeometric", [("alpha", P), ("beta", P)], (lambda o: lambda B, x, a, b: d_betageom(B, x, a, b, o))(one),
             (lambda o: lambda B, n, p: B.int(n, 1 if o else 0))(one), (lambda o: lambda B, n, p: [(1 if o else 0) - B.int(n, 1)])(one), True, one_start=one),
    ]


def spec_of(cls, **kw):
    return next(s for s in UNIVARIATE if s.cls == cls and s.kw == kw)


def label(s):
    return s.cls + ("" if not s.kw else "[" + ",".join(f"{k}={v}" for k, v in s.kw.items()) + "]")
