"""One entry per predictive function, in the same shape as modelspec, and a common view of both."""
from __future__ import annotations

import dataclasses

import numpy as np

from .modelspec import ALL, DirichletModel, Model, beta_prior, gamma_prior


class Pred:
    scalar = True
    extra: dict = {}
    angles = ()

    def __init__(self, func, dist, family, params, args=None, name=None, extra=None, vector=False):
        self.func, self.dist, self.family, self.params, self.name = func, dist, family, params, name or func
        self.args_ = args or (lambda B, t: {})
        self.extra = extra or {}
        self.scalar = not vector

    def args(self, B, t=""):
        return self.args_(B, t)


def normal(B, t=""):
    return B.D.Normal(mu=B.real("mu0" + t), sigma=B.real("sigma0" + t, "pos"))


def ig(B, t=""):
    return B.D.InverseGamma(alpha=B.real("alpha0" + t, "pos"), beta=B.real("beta0" + t, "pos"))


def sics(B, t=""):
    return B.D.ScaledInverseChiSquared(nu=B.real("nu0" + t, "pos"), sigma2=B.real("sigma20" + t, "pos"))


def nig(B, t=""):
    return B.D.NormalInverseGamma(mu=B.real("mu0" + t), nu=B.real("nu0" + t, "pos"), alpha=B.real("alpha0" + t, "pos"), beta=B.real("beta0" + t, "pos"))


def ng(B, t=""):
    return B.D.NormalGamma(mu=B.real("mu0" + t), lam=B.real("nu0" + t, "pos"), alpha=B.real("alpha0" + t, "pos"), beta=B.real("beta0" + t, "pos"))


def dirichlet(k):
    return lambda B, t="": B.D.Dirichlet(alpha=B.vec("alpha0" + t, k, "pos"))


AB, T = ("alpha", "beta"), ("mu", "sigma", "nu")
PREDICTIVES = [
    Pred("binomial_beta_predictive", beta_prior, "BetaBinomial", ("n", "alpha", "beta"), lambda B, t: dict(n=B.int("n" + t, 0))),
    Pred("bernoulli_beta_predictive", beta_prior, "BetaBinomial", AB),
    Pred("negative_binomial_beta_predictive", beta_prior, "BetaNegativeBinomial", ("n", "alpha", "beta"), lambda B, t: dict(r=B.int("r" + t, 1))),
    Pred("geometric_beta_predictive", beta_prior, "BetaGeometric", AB),
    Pred("geometric_beta_predictive", beta_prior, "BetaGeometric", AB, name="geometric_beta_predictive[one_start=False]", extra=dict(one_start=False)),
    Pred("poisson_gamma_predictive", gamma_prior, "NegativeBinomial", ("n", "p"), lambda B, t: dict(n=B.real("n" + t, "pos"))),
    Pred("exponential_gamma_predictive", gamma_prior, "Lomax", ("alpha", "lam")),
    Pred("gamma_known_shape_predictive", gamma_prior, "CompoundGamma", ("alpha", "beta", "lam"), lambda B, t: dict(alpha=B.real("shape" + t, "pos"))),
    Pred("normal_known_variance_predictive", normal, "Normal", ("mu", "sigma"), lambda B, t: dict(var=B.real("var" + t, "pos"))),
    Pred("normal_known_precision_predictive", normal, "Normal", ("mu", "sigma"), lambda B, t: dict(precision=B.real("precision" + t, "pos"))),
    Pred("normal_known_mean_predictive", ig, "StudentT", T, lambda B, t: dict(mu=B.real("mu" + t)), name="normal_known_mean_predictive[InverseGamma]"),
    Pred("normal_known_mean_predictive", sics, "StudentT", T, lambda B, t: dict(mu=B.real("mu" + t)), name="normal_known_mean_predictive[ScaledInverseChiSquared]"),
    Pred("normal_predictive", nig, "StudentT", T, name="normal_predictive[NormalInverseGamma]"),
    Pred("normal_predictive", ng, "StudentT", T, name="normal_predictive[NormalGamma]"),
    Pred("normal_normal_inverse_gamma_predictive", nig, "StudentT", T),
]
VECTOR_PREDICTIVES = [
    Pred("categorical_dirichlet_predictive", dirichlet(3), "DirichletMultinomial", ("alpha", "n"), lambda B, t: dict(n=B.int("n" + t, 1)), vector=True),
    Pred("multinomial_dirichlet_predictive", dirichlet(3), "DirichletMultinomial", ("alpha", "n"), lambda B, t: dict(n=B.int("n" + t, 1)), vector=True),
]


class Hypergeometric(Model):
    """Only its shape of call; the values are judged by C01."""
    name = func = "hypergeometric_beta_binomial"
    family, params, discrete = "BetaBinomial", ("n", "alpha", "beta"), True
    summaries = ("x_total", "n")
    unused = ("n",)

    def prior(self, B, t=""):
        return B.D.BetaBinomial(n=B.int("N" + t, 1), alpha=B.real("alpha0" + t, "pos"), beta=B.real("beta0" + t, "pos"))

    def data(self, B, t="", known=None, empty_ok=False):
        # fewer draws than the smallest population, whatever the shapes
        return dict(x_total=0 * B.int("n" + t, 1, 1) + B.int("x" + t, 0, 1), n=B.int("n" + t, 1, 1))


HYPER = Hypergeometric()


def fields(obj):
    """Parameters of a distribution object that are set."""
    return {f.name: getattr(obj, f.name) for f in dataclasses.fields(obj) if getattr(obj, f.name) is not None}


class View:
    """func(**args, **extra, role=dist)."""

    def __init__(self, m):
        self.m, self.name, self.func, self.params, self.family, self.extra = m, m.name, m.func, m.params, m.family, m.extra
        self.role = "prior" if isinstance(m, Model) else "distribution"
        self.angles = m.angles
        self.unused = getattr(m, "unused", ())
        self.vector = not m.scalar

    def gen(self, B, t="", empty_ok=False):
        """-> (distribution object, arguments)"""
        if self.role == "prior":
            d = self.m.prior(B, t)
            k = self.m.known(B, t)
            return d, {**k, **self.m.data(B, t, k, empty_ok)}
        return self.m.dist(B, t), self.m.args(B, t)

    def call(self, B, d, args, **k):
        return B.call(getattr(B.M, self.func), **args, **self.extra, **{self.role: d}, **k)


VIEWS = [View(m) for m in ALL if m.scalar] + [View(HYPER)] + [View(p) for p in PREDICTIVES]
VECTOR_VIEWS = [View(m) for m in ALL if not m.scalar] + [View(p) for p in VECTOR_PREDICTIVES]
