"""C18: two ways of stating the same model give the same answer."""
import warnings

import numpy as np

from vlib.dens import logdens, logmass, scalar
from vlib.harness import TIER, Case, whole
from vlib.mvspec import lol, mm, mv, rows
from vlib.vectors import lift_cases

BOUNDS = ("all real parameters and data summaries, as numbers, whole numbers and arrays of 2 and 3 (also of the prior or the data alone); up to two batches in a row followed by the predictive distribution; matrices of dimension 1, 2, 3 "
          "with up to 3 rows (thorough 4) of data, in one dimension up to 12 (thorough 30); vectors of 2, 3, 4, 13 categories and tables of two with any counts; counts that are real numbers (weighted observations); densities compared at every point")

P, U, R = "pos", "unit", "real"


def inputs(B, spec, t=""):
    """spec: name -> domain or ('int', lo[, hi name])."""
    out = {}
    for n, d in spec.items():
        if callable(d):
            out[n] = d(B, out, t)
        elif isinstance(d, int):
            out[n] = B.int(n + t, d)
        else:
            out[n] = B.real(n + t, d)
    return out


def summaries(B, out, t):
    """n, a sum and a sum of squares that some n numbers have."""
    n = B.int("n" + t, 1)
    m, s = B.real("mean" + t), B.real("ss" + t, "nonneg")
    out["n"], out["x_total"] = n, n * m
    return n * (m * m + s)


NORMAL_DATA = {"x2_total": summaries}
UP_TO = lambda name, of: (lambda B, out, t: B.int(name + t, 0, out[of]))


class Pair:
    def __init__(self, name, spec, one, two, same, discrete=None, at="real", density=True):
        self.name, self.spec, self.one, self.two, self.same, self.discrete, self.at, self.density = name, spec, one, two, same, discrete, at, density


def fields(*names):
    return lambda a, b: [(n, getattr(a, n), getattr(b, n)) for n in names]


def t_fields(a, b):
    return [("mu", a.mu, b.mu), ("sigma", a.sigma, b.sigma), ("nu", a.nu, b.nu)]


def ig_sics(a, b):
    """inverse gamma a against scaled inverse chi squared b"""
    return [("2 alpha = nu", 2 * a.alpha, b.nu), ("2 beta = nu sigma2", 2 * a.beta, b.nu * b.sigma2)]


def nig_ng(a, b):
    return [("mu", a.mu, b.mu), ("nu = lam", a.nu, b.lam), ("alpha", a.alpha, b.alpha), ("beta", a.beta, b.beta)]


def norm(D, i, t="0"):
    return D.Normal(mu=i["mu" + t], sigma=i["sigma" + t])


def nig(D, i):
    return D.NormalInverseGamma(mu=i["mu0"], nu=i["nu0"], alpha=i["alpha0"], beta=i["beta0"])


def ng(D, i):
    return D.NormalGamma(mu=i["mu0"], lam=i["nu0"], alpha=i["alpha0"], beta=i["beta0"])


def ig(D, i):
    return D.InverseGamma(alpha=i["alpha0"], beta=i["beta0"])


def sics(D, i):
    return D.ScaledInverseChiSquared(nu=2 * i["alpha0"], sigma2=i["beta0"] / i["alpha0"])


def beta(D, i):
    return D.Beta(alpha=i["alpha0"], beta=i["beta0"])


def gamma(D, i):
    return D.Gamma(alpha=i["alpha0"], beta=i["beta0"])


AB = {"alpha0": P, "beta0": P}
N0 = {"mu0": R, "sigma0": P}
NX = {**AB, "mu0": R, "nu0": P, **NORMAL_DATA}
kw = lambda i, *names: {n: i[n] for n in names}
XXN = ("x_total", "x2_total", "n")
LOGS = lambda i: dict(ln_x_total=i["x_total"], ln_x2_total=i["x2_total"], n=i["n"])



PAIRS = [
    # --- variance against precision
    Pair("normal known variance / precision", {**N0, "var": P, "n": 1, "x_total": R},
         lambda M, D, i: M.normal_known_variance(n=i["n"], x_total=i["x_total"], var=i["var"], prior=norm(D, i)),
         lambda M, D, i: M.normal_known_precision(n=i["n"], x_total=i["x_total"], precision=1 / i["var"], prior=norm(D, i)), fields("mu", "sigma")),
    Pair("normal known variance / precision predictive", {**N0, "var": P},
         lambda M, D, i: M.normal_known_variance_predictive(var=i["var"], distribution=norm(D, i)),
         lambda M, D, i: M.normal_known_precision_predictive(precision=1 / i["var"], distribution=norm(D, i)), fields("mu", "sigma")),
    Pair("normal known variance / precision predictive after an update", {**N0, "var": P, "n": 1, "x_total": R},
         lambda M, D, i: M.normal_known_variance_predictive(var=i["var"], distribution=M.normal_known_variance(n=i["n"], x_total=i["x_total"], var=i["var"], prior=norm(D, i))),
         lambda M, D, i: M.normal_known_precision_predictive(precision=1 / i["var"], distribution=M.normal_known_precision(n=i["n"], x_total=i["x_total"], precision=1 / i["var"], prior=norm(D, i))),
         fields("mu", "sigma")),
    # --- normal gamma against normal inverse gamma
    Pair("normal: normal inverse gamma / normal gamma", NX, lambda M, D, i: M.normal(**kw(i, *XXN), prior=nig(D, i)), lambda M, D, i: M.normal(**kw(i, *XXN), prior=ng(D, i)), nig_ng, density=False),
    Pair("normal_predictive: normal inverse gamma / normal gamma", {**AB, "mu0": R, "nu0": P},
         lambda M, D, i: M.normal_predictive(distribution=nig(D, i)), lambda M, D, i: M.normal_predictive(distribution=ng(D, i)), t_fields),
    Pair("normal then predictive: normal inverse gamma / normal gamma", NX,
         lambda M, D, i: M.normal_predictive(distribution=M.normal(**kw(i, *XXN), prior=nig(D, i))),
         lambda M, D, i: M.normal_predictive(distribution=M.normal(**kw(i, *XXN), prior=ng(D, i))), t_fields),
    Pair("log_normal: normal inverse gamma / normal gamma", NX, lambda M, D, i: M.log_normal(**LOGS(i), prior=nig(D, i)), lambda M, D, i: M.log_normal(**LOGS(i), prior=ng(D, i)), nig_ng, density=False),
    # --- inverse gamma against scaled inverse chi squared
    Pair("normal_known_mean: inverse gamma / scaled inverse chi squared", {**AB, "mu": R, **NORMAL_DATA},
         lambda M, D, i: M.normal_known_mean(**kw(i, *XXN, "mu"), prior=ig(D, i)), lambda M, D, i: M.normal_known_mean(**kw(i, *XXN, "mu"), prior=sics(D, i)), ig_sics, at=P),
    Pair("normal_known_mean_predictive: inverse gamma / scaled inverse chi squared", {**AB, "mu": R},
         lambda M, D, i: M.normal_known_mean_predictive(mu=i["mu"], distribution=ig(D, i)), lambda M, D, i: M.normal_known_mean_predictive(mu=i["mu"], distribution=sics(D, i)), t_fields),
    Pair("normal_known_mean then predictive: inverse gamma / scaled inverse chi squared", {**AB, "mu": R, **NORMAL_DATA},
         lambda M, D, i: M.normal_known_mean_predictive(mu=i["mu"], distribution=M.normal_known_mean(**kw(i, *XXN, "mu"), prior=ig(D, i))),
         lambda M, D, i: M.normal_known_mean_predictive(mu=i["mu"], distribution=M.normal_known_mean(**kw(i, *XXN, "mu"), prior=sics(D, i))), t_fields),
    # --- Bernoulli against one binomial trial
    Pair("bernoulli / binomial of one trial", {**AB, "x": lambda B, o, t: B.int("x" + t, 0, 1)}, lambda M, D, i: M.bernoulli_beta(x=i["x"], prior=beta(D, i)),
         lambda M, D, i: M.binomial_beta(n=1, x=i["x"], prior=beta(D, i)), fields("alpha", "beta"), at=U),
    Pair("bernoulli_predictive / binomial of one trial", AB, lambda M, D, i: M.bernoulli_beta_predictive(distribution=beta(D, i)),
         lambda M, D, i: M.binomial_beta_predictive(n=1, distribution=beta(D, i)), fields("n", "alpha", "beta"), discrete=(0, 1)),
    # --- geometric start conventions
    Pair("geometric from one / from zero", {**AB, "n": 1, "failures": 0},
         lambda M, D, i: M.geometric_beta(x_total=i["failures"] + i["n"], n=i["n"], prior=beta(D, i)),
         lambda M, D, i: M.geometric_beta(x_total=i["failures"], n=i["n"], prior=beta(D, i), one_start=False), fields("alpha", "beta"), at=U),
    Pair("geometric from one / default", {**AB, "n": 1, "failures": 0},
         lambda M, D, i: M.geometric_beta(x_total=i["failures"] + i["n"], n=i["n"], prior=beta(D, i), one_start=True),
         lambda M, D, i: M.geometric_beta(x_total=i["failures"] + i["n"], n=i["n"], prior=beta(D, i)), fields("alpha", "beta"), at=U),
    Pair("geometric from zero / negative binomial of one success", {**AB, "n": 1, "failures": 0},
         lambda M, D, i: M.geometric_beta(x_total=i["failures"], n=i["n"], prior=beta(D, i), one_start=False),
         lambda M, D, i: M.negative_binomial_beta(r=1, n=i["n"], x=i["failures"], prior=beta(D, i)), fields("alpha", "beta"), at=U),
    # --- log-normal against normal on logs
    Pair("log_normal / normal of logs, normal inverse gamma", NX, lambda M, D, i: M.log_normal(**LOGS(i), prior=nig(D, i)),
         lambda M, D, i: M.normal(**kw(i, *XXN), prior=nig(D, i)), fields("mu", "nu", "alpha", "beta"), density=False),
    Pair("log_normal / normal of logs, normal gamma", NX, lambda M, D, i: M.log_normal(**LOGS(i), prior=ng(D, i)),
         lambda M, D, i: M.normal(**kw(i, *XXN), prior=ng(D, i)), fields("mu", "lam", "alpha", "beta"), density=False),
    # --- deprecated names
    Pair("normal_normal_inverse_gamma / normal", NX, lambda M, D, i: M.normal_normal_inverse_gamma(**kw(i, *XXN), prior=nig(D, i)),
         lambda M, D, i: M.normal(**kw(i, *XXN), prior=nig(D, i)), fields("mu", "nu", "alpha", "beta"), density=False),
    Pair("normal_normal_inverse_gamma_predictive / normal_predictive", {**AB, "mu0": R, "nu0": P}, lambda M, D, i: M.normal_normal_inverse_gamma_predictive(distribution=nig(D, i)),
         lambda M, D, i: M.normal_predictive(distribution=nig(D, i)), t_fields),
    # --- an exponential is a gamma of shape one; a Weibull of shape one is an exponential
    Pair("exponential / gamma of known shape one", {**AB, "n": 1, "x_total": P}, lambda M, D, i: M.exponential_gamma(x_total=i["x_total"], n=i["n"], prior=gamma(D, i)),
         lambda M, D, i: M.gamma_known_shape(x_total=i["x_total"], n=i["n"], alpha=1, prior=gamma(D, i)), fields("alpha", "beta"), at=P),
    Pair("exponential / gamma of known shape one, predictive", AB, lambda M, D, i: M.exponential_gamma_predictive(distribution=gamma(D, i)),
         lambda M, D, i: M.gamma_known_shape_predictive(distribution=gamma(D, i), alpha=1), lambda a, b: [], at=P),
    Pair("gamma / inverse gamma of the reciprocals", {**AB, "n": 1, "x_total": P, "shape": P}, lambda M, D, i: M.gamma_known_shape(x_total=i["x_total"], n=i["n"], alpha=i["shape"], prior=gamma(D, i)),
         lambda M, D, i: M.inverse_gamma_known_rate(reciprocal_x_total=i["x_total"], n=i["n"], alpha=i["shape"], prior=gamma(D, i)), fields("alpha", "beta"), at=P),
    Pair("exponential / Weibull of shape one in the inverse rate", {**AB, "n": 1, "x_total": P}, lambda M, D, i: M.exponential_gamma(x_total=i["x_total"], n=i["n"], prior=gamma(D, i)),
         lambda M, D, i: M.weibull_inverse_gamma_known_shape(x_beta_total=i["x_total"], n=i["n"], prior=ig(D, i)), fields("alpha", "beta"), density=False),
    Pair("Pareto / exponential of the log ratios", {**AB, "n": 1, "x_m": P, "excess": P}, lambda M, D, i: M.pareto_gamma(n=i["n"], ln_x_total=i["excess"] + i["n"] * i["ln_xm"], x_m=i["x_m"], prior=gamma(D, i)),
         lambda M, D, i: M.exponential_gamma(x_total=i["excess"], n=i["n"], prior=gamma(D, i)), fields("alpha", "beta"), at=P),
]


def quiet(f):
    def g(*a):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return f(*a)
    return g


def compare(B, p, a, b):
    for label, x, y in p.same(a, b):
        B.eq(x, y, label)


def point(B, p, t=""):
    if p.discrete is not None:
        return B.int("x" + t, *p.discrete)
    return B.real("x" + t, p.at)


def number(p):
    def fn(B):
        i = inputs(B, p.spec)
        if "x_m" in i:
            i["ln_xm"] = B.ln(i["x_m"])
        a, b = B.call(quiet(p.one), B.M, B.D, i), B.call(quiet(p.two), B.M, B.D, i)
        compare(B, p, a, b)
        if p.density:
            x = point(B, p)
            f = logmass if p.discrete is not None else logdens
            B.eq(scalar(f(B, a.dist, x)), scalar(f(B, b.dist, x)), "density")
    return fn


def array(p):
    def fn(B):
        each = [inputs(B, p.spec, str(j)) for j in range(2)]
        i = {n: B.arr([e[n] for e in each]) for n in each[0]}
        if "x_m" in i:
            i["ln_xm"] = B.arr([B.ln(e["x_m"]) for e in each])
        a, b = B.call(quiet(p.one), B.M, B.D, i), B.call(quiet(p.two), B.M, B.D, i)
        for label, x, y in p.same(a, b):
            s = np.broadcast_shapes(np.shape(x), np.shape(y))
            B.eq(np.broadcast_to(np.asarray(x, dtype=object), s), np.broadcast_to(np.asarray(y, dtype=object), s), label)
        if p.density:
            xs = B.arr([point(B, p, str(j)) for j in range(2)])
            f = logmass if p.discrete is not None else logdens
            u, v = f(B, a.dist, xs), f(B, b.dist, xs)
            for j in range(2):
                B.eq(u[j], v[j], f"density {j}")
    return fn


# ---- start conventions of the geometric predictive: the same law, shifted by one
def geometric_predictive(B):
    i = inputs(B, AB)
    a = B.call(B.M.geometric_beta_predictive, distribution=beta(B.D, i))
    b = B.call(B.M.geometric_beta_predictive, distribution=beta(B.D, i), one_start=False)
    c = B.call(B.M.geometric_beta_predictive, distribution=beta(B.D, i), one_start=True)
    k = B.int("k", 0)
    B.eq(scalar(logmass(B, a.dist, k + 1)), scalar(logmass(B, b.dist, k)), "mass shifted by one")
    B.eq(scalar(logmass(B, a.dist, k + 1)), scalar(logmass(B, c.dist, k + 1)), "one_start is the default")
    r = B.call(B.M.negative_binomial_beta_predictive, r=1, distribution=beta(B.D, i))
    B.eq(scalar(logmass(B, r.dist, k)), scalar(logmass(B, b.dist, k)), "failures before the first success")


def geometric_dist(B):
    p = B.real("p", U)
    k = B.int("k", 0)
    a, b, n = B.D.Geometric(p=p), B.D.Geometric(p=p, one_start=False), B.D.NegativeBinomial(n=1, p=p)
    B.eq(scalar(logmass(B, a.dist, k + 1)), scalar(logmass(B, b.dist, k)), "mass shifted by one")
    B.eq(scalar(logmass(B, n.dist, k)), scalar(logmass(B, b.dist, k)), "negative binomial of one success")


# ---- categorical / multinomial, two categories / binomial
def dirichlet(k, kind):
    def fn(B):
        a = [B.real(f"a{i}", P) for i in range(k)]
        x = [B.int(f"x{i}", 0) for i in range(k)]
        if kind == "batch":
            x = [[B.int(f"x{r}{i}", 0) for i in range(k)] for r in range(2)]
        mk = (lambda v: list(v)) if kind == "list" else B.arr
        prior = lambda: B.D.Dirichlet(alpha=mk(a))
        p = B.call(B.M.categorical_dirichlet, x=mk(x), prior=prior())
        q = B.call(B.M.multinomial_dirichlet, x=mk(x), prior=prior())
        B.is_type(p, "Dirichlet"), B.is_type(q, "Dirichlet")
        B.eq(p.alpha, q.alpha, "concentrations")
        n = B.int("n", 1)
        u = B.call(B.M.categorical_dirichlet_predictive, n=n, distribution=prior())
        v = B.call(B.M.multinomial_dirichlet_predictive, n=n, distribution=prior())
        B.is_type(u, "DirichletMultinomial"), B.is_type(v, "DirichletMultinomial")
        B.eq(u.alpha, v.alpha, "concentrations of the predictive"), B.eq(u.n, v.n, "trials of the predictive")
        B.eq(B.call(B.M.categorical_dirichlet_predictive, distribution=prior()).n, B.call(B.M.multinomial_dirichlet_predictive, distribution=prior()).n, "default number of trials")
        if k == 2 and kind != "batch":
            b = B.call(B.M.binomial_beta, n=x[0] + x[1], x=x[0], prior=B.D.Beta(alpha=a[0], beta=a[1]))
            B.eq(p.alpha[0], b.alpha, "two categories: alpha"), B.eq(p.alpha[1], b.beta, "two categories: beta")
            th = B.real("theta", U)
            B.eq(scalar(B.call(p.dist.logpdf, B.arr([th, 1 - th]))), scalar(B.call(b.dist.logpdf, th)), "two categories: density")
            k0 = B.int("k", 0, n)
            w = B.call(B.M.binomial_beta_predictive, n=n, distribution=B.D.Beta(alpha=a[0], beta=a[1]))
            B.eq(scalar(B.call(v.dist.logpmf, B.arr([k0, n - k0]))), scalar(B.call(w.dist.logpmf, k0)), "two categories: predictive mass")
    return fn


# ---- covariance / precision matrices
def mvn_known(d, chain=False):
    def fn(B):
        S0, C = B.spd("S0", d), B.spd("C", d)
        mu, xb = B.vec("mu", d), B.vec("xbar", d)
        n = B.int("n", 1)
        Pm = B.inv(C)
        prior = lambda: B.D.MultivariateNormal(mu=mu, cov=S0)
        a = B.call(B.M.multivariate_normal_known_covariance, n=n, x_bar=xb, cov=C, prior=prior())
        b = B.call(B.M.multivariate_normal_known_precision, n=n, x_bar=xb, precision=Pm, prior=prior())
        B.is_type(a, "MultivariateNormal"), B.is_type(b, "MultivariateNormal")
        B.eq(a.mu, b.mu, "mean"), B.eq(a.cov, b.cov, "covariance")
    return fn


def mvn_known_predictive(d):
    def fn(B):
        S0, C, mu = B.spd("S0", d), B.spd("C", d), B.vec("mu", d)
        prior = lambda: B.D.MultivariateNormal(mu=mu, cov=S0)
        a = B.call(B.M.multivariate_normal_known_covariance_predictive, distribution=prior(), cov=C)
        b = B.call(B.M.multivariate_normal_known_precision_predictive, distribution=prior(), precision=B.inv(C))
        B.eq(a.mu, b.mu, "mean"), B.eq(a.cov, b.cov, "covariance")
    return fn


# ---- one dimension against the scalar model
def one_known(kind):
    def fn(B):
        i = inputs(B, {"mu0": R, "sigma0": P, "v": P, "n": 1, "mean": R})
        prior = B.D.MultivariateNormal(mu=B.arr([i["mu0"]]), cov=B.arr([[i["sigma0"] ** 2]]))
        m = B.arr([[i["v"]]])
        if kind == "covariance":
            a = B.call(B.M.multivariate_normal_known_covariance, n=i["n"], x_bar=B.arr([i["mean"]]), cov=m, prior=prior)
            b = B.call(B.M.normal_known_variance, n=i["n"], x_total=i["n"] * i["mean"], var=i["v"], prior=norm(B.D, i))
            p = B.call(B.M.multivariate_normal_known_covariance_predictive, distribution=a, cov=m)
            q = B.call(B.M.normal_known_variance_predictive, var=i["v"], distribution=b)
        else:
            a = B.call(B.M.multivariate_normal_known_precision, n=i["n"], x_bar=B.arr([i["mean"]]), precision=m, prior=prior)
            b = B.call(B.M.normal_known_precision, n=i["n"], x_total=i["n"] * i["mean"], precision=i["v"], prior=norm(B.D, i))
            p = B.call(B.M.multivariate_normal_known_precision_predictive, distribution=a, precision=m)
            q = B.call(B.M.normal_known_precision_predictive, precision=i["v"], distribution=b)
        x = B.real("x")
        for u, v, label in ((a, b, "posterior"), (p, q, "predictive")):
            B.eq(u.mu[0], v.mu, f"{label}: mean"), B.eq(u.cov[0][0], v.sigma**2, f"{label}: variance")
            B.eq(scalar(B.call(u.dist.logpdf, B.arr([x]))), scalar(B.call(v.dist.logpdf, x)), f"{label}: density")
    return fn


def one_both(n):
    """NIW(mu, kappa, nu, psi) in one dimension is NIG(mu, kappa, nu / 2, psi / 2)."""
    def fn(B):
        mu, k, nu, psi = B.real("mu"), B.real("kappa", P), B.real("nu", P), B.real("psi", P)
        xs = [B.real(f"x{j}") for j in range(n)]
        a = B.call(B.M.multivariate_normal, X=B.arr([[x] for x in xs]), prior=B.D.NormalInverseWishart(mu=B.arr([mu]), kappa=k, nu=nu, psi=B.arr([[psi]])))
        b = B.call(B.M.normal, x_total=sum(xs[1:], xs[0]), x2_total=sum((x * x for x in xs[1:]), xs[0] * xs[0]), n=n, prior=B.D.NormalInverseGamma(mu=mu, nu=k, alpha=nu / 2, beta=psi / 2))
        for u, v, label in ((a.mu[0], b.mu, "mu"), (a.kappa, b.nu, "kappa"), (a.nu, 2 * b.alpha, "nu"), (a.psi[0][0], 2 * b.beta, "psi")):
            B.eq(u, v, label)
        B.eq(B.call(lambda: a.inverse_wishart).psi[0][0], 2 * B.call(lambda: b.inverse_gamma).beta, "marginal of the variance")
        p, q = B.call(B.M.multivariate_normal_predictive, distribution=a), B.call(B.M.normal_predictive, distribution=b)
        B.eq(p.mu[0], q.mu, "predictive: mu"), B.eq(p.sigma[0][0], q.sigma**2, "predictive: scale"), B.eq(p.nu, q.nu, "predictive: degrees of freedom")
        x = B.real("x")
        B.eq(scalar(B.call(p.dist.logpdf, B.arr([x]))), scalar(B.call(q.dist.logpdf, x)), "predictive: density")
    return fn


def one_known_mean(n):
    def fn(B):
        mu, nu, psi = B.real("mu"), B.real("nu", P), B.real("psi", P)
        xs = [B.real(f"x{j}") for j in range(n)]
        a = B.call(B.M.multivariate_normal_known_mean, X=B.arr([[x] for x in xs]), mu=B.arr([mu]), prior=B.D.InverseWishart(nu=nu, psi=B.arr([[psi]])))
        st = dict(x_total=sum(xs[1:], xs[0]), x2_total=sum((x * x for x in xs[1:]), xs[0] * xs[0]), n=n, mu=mu)
        b = B.call(B.M.normal_known_mean, **st, prior=B.D.InverseGamma(alpha=nu / 2, beta=psi / 2))
        c = B.call(B.M.normal_known_mean, **st, prior=B.D.ScaledInverseChiSquared(nu=nu, sigma2=psi / nu))
        B.eq(a.nu, 2 * b.alpha, "degrees of freedom"), B.eq(a.psi[0][0], 2 * b.beta, "scale")
        B.eq(a.nu, c.nu, "degrees of freedom of the scaled inverse chi squared"), B.eq(a.psi[0][0], c.nu * c.sigma2, "scale of the scaled inverse chi squared")
        v = B.real("v", P)
        B.eq(scalar(B.call(a.dist.logpdf, v)), scalar(B.call(b.dist.logpdf, v)), "density of the variance")
    return fn


def intercept(n):
    """Regression on a constant is the normal model with both parameters unknown."""
    def fn(B):
        mu, k, al, be = B.real("mu"), B.real("nu", P), B.real("alpha", P), B.real("beta", P)
        ys = [B.real(f"y{j}") for j in range(n)]
        one = B.arr([[1.0]] * n) if not B.symbolic else B.arr([[1]] * n)
        a = B.call(B.M.linear_regression, X=one, y=B.arr(ys), prior=B.D.NormalInverseGamma(mu=B.arr([mu]), delta_inverse=B.arr([[1 / k]]), alpha=al, beta=be))
        b = B.call(B.M.normal, x_total=sum(ys[1:], ys[0]), x2_total=sum((y * y for y in ys[1:]), ys[0] * ys[0]), n=n, prior=B.D.NormalInverseGamma(mu=mu, nu=k, alpha=al, beta=be))
        B.eq(a.mu[0], b.mu, "mu"), B.eq(a.delta_inverse[0][0] * b.nu, 1, "delta_inverse"), B.eq(a.alpha, b.alpha, "alpha"), B.eq(a.beta, b.beta, "beta")
        p = B.call(B.M.linear_regression_predictive, distribution=a, X=B.arr([[1]]) if B.symbolic else np.array([[1.0]]))
        q = B.call(B.M.normal_predictive, distribution=b)
        B.eq(p.mu[0], q.mu, "predictive: mu"), B.eq(p.sigma[0][0], q.sigma**2, "predictive: scale"), B.eq(p.nu, q.nu, "predictive: degrees of freedom")
    return fn


def one_dist(B):
    mu, s, nu, x = B.real("mu"), B.real("sigma", P), B.real("nu", P), B.real("x")
    m = B.arr([[s * s]])
    B.eq(scalar(B.call(B.D.MultivariateNormal(mu=B.arr([mu]), cov=m).dist.logpdf, B.arr([x]))), scalar(B.D.Normal(mu=mu, sigma=s).dist.logpdf(x)), "normal density")
    B.eq(scalar(B.call(B.D.MultivariateStudentT(mu=B.arr([mu]), sigma=m, nu=nu).dist.logpdf, B.arr([x]))), scalar(B.D.StudentT(mu=mu, sigma=s, nu=nu).dist.logpdf(x)), "Student density")
    v = B.real("v", P)
    B.eq(scalar(B.call(B.D.InverseWishart(nu=nu, psi=B.arr([[s]])).dist.logpdf, v)), scalar(B.D.InverseGamma(alpha=nu / 2, beta=s / 2).dist.logpdf(v)), "inverse Wishart density")
    B.eq(scalar(B.call(B.D.Wishart(nu=nu, V=B.arr([[s]])).dist.logpdf, v)), scalar(B.D.Gamma(alpha=nu / 2, beta=1 / (2 * s)).dist.logpdf(v)), "Wishart density")


def small_dists(B):
    """One-trial and one-parameter members of the classes coincide."""
    p, a, b = B.real("p", U), B.real("a", P), B.real("b", P)
    x = B.real("x", P)
    B.eq(scalar(B.D.Exponential(lam=b).dist.logpdf(x)), scalar(B.D.Gamma(alpha=1, beta=b).dist.logpdf(x)), "exponential")
    B.eq(scalar(B.D.Exponential(lam=b).dist.logpdf(x)), scalar(B.D.Weibull(beta=1, theta=1 / b).dist.logpdf(x)), "Weibull")
    B.eq(scalar(B.D.InverseGamma(alpha=a, beta=b).dist.logpdf(x)), scalar(B.D.ScaledInverseChiSquared(nu=2 * a, sigma2=b / a).dist.logpdf(x)), "scaled inverse chi squared")
    B.eq(scalar(B.D.LogNormal(mu=p, sigma=a).dist.logpdf(x)), scalar(B.D.Normal(mu=p, sigma=a).dist.logpdf(B.ln(x))) - B.ln(x), "log-normal")
    u = B.real("u", U)
    B.eq(scalar(B.D.Beta(alpha=1, beta=1).dist.logpdf(u)), scalar(B.D.Uniform(low=0, high=1).dist.logpdf(u)), "uniform")
    B.eq(scalar(B.D.Dirichlet(alpha=B.arr([a, b])).dist.logpdf(B.arr([u, 1 - u]))), scalar(B.D.Beta(alpha=a, beta=b).dist.logpdf(u)), "Dirichlet")


class Weights:
    """View of a backend in which counts are real numbers: observations that carry weights."""

    def __init__(self, B):
        self._B = B

    def int(self, name, lo=0, hi=None):
        v = self._B.real(name, P)
        if hi is not None:
            self._B.assume(v < hi)
        return v

    def __getattr__(self, n):
        return getattr(self._B, n)


def weights(fn):
    return lambda B: fn(Weights(B))


CASES = []
for p in PAIRS:
    CASES += [Case(p.name, number(p)), Case(p.name + ", arrays", array(p))]
CASES += [Case("geometric predictive", geometric_predictive), Case("geometric distributions", geometric_dist), Case("one-dimensional distributions", one_dist), Case("special members", small_dists)]
for k in (2, 3, 4, 13):
    for kind in ("array", "list") + (("batch",) if k < 4 else ()):
        CASES.append(Case(f"categorical / multinomial[{k}, {kind}]", dirichlet(k, kind)))
    CASES += [Case(f"weights: categorical / multinomial[{k}, {kind}]", weights(dirichlet(k, kind))) for kind in ("array", "list", "batch") if k > 2]
for d in (1, 2, 3):
    CASES.append(Case(f"known covariance / precision[d={d}]", mvn_known(d), timeout=400))
    CASES.append(Case(f"known covariance / precision predictive[d={d}]", mvn_known_predictive(d)))
CASES += [Case(f"one dimension, known {k}", one_known(k)) for k in ("covariance", "precision")]
for n in (1, 2, 3, 7, 12) + ((4, 6, 30) if TIER == "thorough" else ()):
    CASES += [Case(f"one dimension, both unknown[n={n}]", one_both(n)), Case(f"one dimension, known mean[n={n}]", one_known_mean(n)), Case(f"regression on a constant[n={n}]", intercept(n))]
for p in PAIRS:
    CASES += lift_cases(Case, p.name, number(p), prior=lambda n: n in ("alpha0", "beta0", "mu0", "nu0", "sigma0"), skip=("arrays (11,)", "(2,1)"))
CASES += [Case(f"weights: {p.name}", weights(number(p))) for p in PAIRS if p.discrete is None and (any(isinstance(d, int) for d in p.spec.values()) or "x" in p.spec)]
CASES += [Case(f"weights: {p.name}, arrays", weights(array(p))) for p in PAIRS if p.discrete is None and (any(isinstance(d, int) for d in p.spec.values()) or "x" in p.spec)]
for n in (1, 3):
    CASES += [Case(f"integers: one dimension, both unknown[n={n}]", whole(one_both(n))), Case(f"integers: one dimension, known mean[n={n}]", whole(one_known_mean(n))), Case(f"integers: regression on a constant[n={n}]", whole(intercept(n)))]
CASES += [Case("integers: special members", whole(small_dists)), Case("integers: one-dimensional distributions", whole(one_dist))]
CASES += [Case(f"integers: one dimension, known {k}", whole(one_known(k))) for k in ("covariance", "precision")]
