"""One entry per posterior function: domains, likelihood in terms of its data summaries,
how summaries of batches combine, and the empty batch."""
from __future__ import annotations

from .spec import kernel


class Model:
    name = ""            # label
    func = ""            # function name in conjugate.models
    family = ""          # class of the posterior
    params: tuple = ()   # parameter names of the posterior
    discrete = False
    scalar = True        # parameters are scalars
    extra: dict = {}     # extra keyword arguments (e.g. one_start)

    def prior(self, B, t=""):
        raise NotImplementedError

    def known(self, B, t=""):
        """Arguments that are the same for every batch."""
        return {}

    def data(self, B, t="", known=None, empty_ok=False):
        raise NotImplementedError

    def combine(self, a, b, B=None):
        return {k: a[k] + b[k] for k in a}

    def empty(self, B, known=None):
        return {k: 0 for k in self.summaries}

    summaries: tuple = ()
    angles: tuple = ()   # parameters that are angles (equal modulo 2 pi)

    def theta(self, B, t=""):
        raise NotImplementedError

    def loglik(self, B, data, known, th):
        raise NotImplementedError

    def kernel(self, B, d, th):
        return kernel(B, d, th)

    def call(self, B, data, known, prior, **k):
        return B.call(getattr(B.M, self.func), **data, **known, **self.extra, prior=prior, **k)

    def support_ok(self, B, post, prior, data):
        pass


def beta_prior(B, t=""):
    return B.D.Beta(alpha=B.real("alpha0" + t, "pos"), beta=B.real("beta0" + t, "pos"))


def gamma_prior(B, t=""):
    return B.D.Gamma(alpha=B.real("alpha0" + t, "pos"), beta=B.real("beta0" + t, "pos"))


class BinomialBeta(Model):
    name = func = "binomial_beta"
    family, params, discrete, summaries = "Beta", ("alpha", "beta"), True, ("n", "x")
    prior = staticmethod(beta_prior)

    def data(self, B, t="", known=None, empty_ok=False):
        n = B.int("n" + t, 0 if empty_ok else 1)
        return dict(n=n, x=B.int("x" + t, 0, n))

    def theta(self, B, t=""):
        return B.real("theta" + t, "unit")

    def loglik(self, B, d, k, th):
        return d["x"] * B.ln(th) + (d["n"] - d["x"]) * B.ln(1 - th)


class BernoulliBeta(BinomialBeta):
    name = func = "bernoulli_beta"
    summaries = ("x",)

    def data(self, B, t="", known=None, empty_ok=False):
        return dict(x=B.int("x" + t, 0, 1))

    def loglik(self, B, d, k, th):
        return d["x"] * B.ln(th) + (1 - d["x"]) * B.ln(1 - th)

    combine = empty = None


class NegativeBinomialBeta(BinomialBeta):
    name = func = "negative_binomial_beta"
    summaries = ("n", "x")

    def known(self, B, t=""):
        return dict(r=B.real("r" + t, "pos"))

    def data(self, B, t="", known=None, empty_ok=False):
        n = B.int("n" + t, 0 if empty_ok else 1)
        return dict(n=n, x=B.int("x" + t, 0))

    def loglik(self, B, d, k, th):
        # n observations of failures before the r-th success, x failures in total
        return k["r"] * d["n"] * B.ln(th) + d["x"] * B.ln(1 - th)


class GeometricBeta(BinomialBeta):
    func = "geometric_beta"
    summaries = ("x_total", "n")

    def __init__(self, one_start):
        self.one = one_start
        self.extra = {} if one_start is None else dict(one_start=one_start)
        self.name = f"geometric_beta[one_start={one_start}]"
        self.one_start = True if one_start is None else one_start

    def data(self, B, t="", known=None, empty_ok=False):
        n = B.int("n" + t, 0 if empty_ok else 1)
        return dict(n=n, x_total=B.int("x_total" + t, n if self.one_start else 0))

    def loglik(self, B, d, k, th):
        fails = d["x_total"] - d["n"] if self.one_start else d["x_total"]
        return d["n"] * B.ln(th) + fails * B.ln(1 - th)


class DirichletModel(Model):
    family, params, discrete, scalar, summaries = "Dirichlet", ("alpha",), True, False, ("x",)

    def __init__(self, func, k=3, kind="array"):
        self.func, self.k, self.kind = func, k, kind
        self.name = f"{func}[k={k},{kind}]"

    def prior(self, B, t=""):
        a = B.vec("alpha0" + t, self.k, "pos")
        return B.D.Dirichlet(alpha=list(a) if self.kind in ("list", "list-prior") else a)

    def data(self, B, t="", known=None, empty_ok=False):
        x = B.ivec("x" + t, self.k, 0)
        return dict(x=list(x) if self.kind in ("list", "list-data") else x)

    def combine(self, a, b, B=None):
        if isinstance(a["x"], list):
            return dict(x=[p + q for p, q in zip(a["x"], b["x"])])
        return dict(x=a["x"] + b["x"])

    def empty(self, B, known=None):
        import numpy as np
        return dict(x=[0] * self.k if self.kind in ("list", "list-data") else np.zeros(self.k, dtype=int))

    def theta(self, B, t=""):
        return B.simplex("theta" + t, self.k)

    def loglik(self, B, d, k, th):
        return sum((d["x"][i] * B.ln(th[i]) for i in range(1, self.k)), d["x"][0] * B.ln(th[0]))


class PoissonGamma(Model):
    name = func = "poisson_gamma"
    family, params, discrete, summaries = "Gamma", ("alpha", "beta"), True, ("x_total", "n")
    prior = staticmethod(gamma_prior)

    def data(self, B, t="", known=None, empty_ok=False):
        n = B.int("n" + t, 0 if empty_ok else 1)
        return dict(x_total=B.int("x_total" + t, 0), n=n)

    def theta(self, B, t=""):
        return B.real("theta" + t, "pos")

    def loglik(self, B, d, k, th):
        return d["x_total"] * B.ln(th) - d["n"] * th


# ------------------------------------------------------------------ continuous
class ExponentialGamma(PoissonGamma):
    name = func = "exponential_gamma"
    discrete = False

    def data(self, B, t="", known=None, empty_ok=False):
        # get_exponential_gamma shares poisson's argument names; n is added to the shape
        return dict(x_total=B.real("x_total" + t, "pos"), n=B.int("n" + t, 0 if empty_ok else 1))

    def loglik(self, B, d, k, th):
        return d["n"] * B.ln(th) - d["x_total"] * th


class GammaKnownShape(ExponentialGamma):
    name = func = "gamma_known_shape"

    def known(self, B, t=""):
        return dict(alpha=B.real("shape" + t, "pos"))

    def loglik(self, B, d, k, th):
        return d["n"] * k["alpha"] * B.ln(th) - th * d["x_total"]


class InverseGammaKnownRate(GammaKnownShape):
    name = func = "inverse_gamma_known_rate"
    summaries = ("reciprocal_x_total", "n")

    def data(self, B, t="", known=None, empty_ok=False):
        return dict(reciprocal_x_total=B.real("rx_total" + t, "pos"), n=B.int("n" + t, 0 if empty_ok else 1))

    def loglik(self, B, d, k, th):
        return d["n"] * k["alpha"] * B.ln(th) - th * d["reciprocal_x_total"]


class ParetoGamma(Model):
    name = func = "pareto_gamma"
    family, params, summaries = "Gamma", ("alpha", "beta"), ("n", "ln_x_total")
    prior = staticmethod(gamma_prior)

    def known(self, B, t=""):
        return dict(x_m=B.real("x_m" + t, "pos"))

    def data(self, B, t="", known=None, empty_ok=False):
        n = B.int("n" + t, 0 if empty_ok else 1)
        # every observation is at least x_m
        excess = B.real("excess" + t, "nonneg")
        return dict(n=n, ln_x_total=n * B.ln(known["x_m"]) + excess)

    def theta(self, B, t=""):
        return B.real("theta" + t, "pos")

    def loglik(self, B, d, k, th):
        return d["n"] * B.ln(th) + d["n"] * th * B.ln(k["x_m"]) - (th + 1) * d["ln_x_total"]


class UniformPareto(Model):
    name = func = "uniform_pareto"
    family, params, summaries = "Pareto", ("x_m", "alpha"), ("x_max", "n")

    def prior(self, B, t=""):
        return B.D.Pareto(x_m=B.real("x_m0" + t, "pos"), alpha=B.real("alpha0" + t, "pos"))

    def data(self, B, t="", known=None, empty_ok=False):
        return dict(x_max=B.real("x_max" + t, "pos"), n=B.int("n" + t, 0 if empty_ok else 1))

    def combine(self, a, b, B=None):
        return dict(x_max=B.max(a["x_max"], b["x_max"]), n=a["n"] + b["n"])

    def theta(self, B, t=""):
        return B.real("theta" + t, "pos")

    def loglik(self, B, d, k, th):
        return -d["n"] * B.ln(th)

    def support_ok(self, B, post, prior, data):
        B.eq(post.x_m, B.max(prior.x_m, data["x_max"]), "lower end of the posterior's support")


class WeibullIG(Model):
    name = func = "weibull_inverse_gamma_known_shape"
    family, params, summaries = "InverseGamma", ("alpha", "beta"), ("n", "x_beta_total")

    def prior(self, B, t=""):
        return B.D.InverseGamma(alpha=B.real("alpha0" + t, "pos"), beta=B.real("beta0" + t, "pos"))

    def data(self, B, t="", known=None, empty_ok=False):
        return dict(n=B.int("n" + t, 0 if empty_ok else 1), x_beta_total=B.real("xb_total" + t, "pos"))

    def theta(self, B, t=""):
        return B.real("theta" + t, "pos")

    def loglik(self, B, d, k, th):
        return -d["n"] * B.ln(th) - d["x_beta_total"] / th


class NormalKnownVariance(Model):
    name = func = "normal_known_variance"
    family, params, summaries = "Normal", ("mu", "sigma"), ("x_total", "n")
    kn = "var"

    def prior(self, B, t=""):
        return B.D.Normal(mu=B.real("mu0" + t), sigma=B.real("sigma0" + t, "pos"))

    def known(self, B, t=""):
        return {self.kn: B.real(self.kn + t, "pos")}

    def var_of(self, k):
        return k["var"]

    def data(self, B, t="", known=None, empty_ok=False):
        return dict(x_total=B.real("x_total" + t), n=B.int("n" + t, 0 if empty_ok else 1))

    def theta(self, B, t=""):
        return B.real("theta" + t)

    def loglik(self, B, d, k, th):
        return (th * d["x_total"] - d["n"] * th * th / 2) / self.var_of(k)


class NormalKnownPrecision(NormalKnownVariance):
    name = func = "normal_known_precision"
    kn = "precision"

    def var_of(self, k):
        return 1 / k["precision"]


def normal_summaries(B, t, n_min=1, x="x_total", x2="x2_total"):
    """n, sum and sum of squares of n real numbers (sum of squares >= sum^2/n)."""
    n = B.int("n" + t, n_min)
    if n_min == 0:
        # n times a mean, n times a mean of squares: zero when there are no observations
        m, s2 = B.real("mean" + t), B.real("ss" + t, "nonneg")
        return {"n": n, x: n * m, x2: n * (m * m + s2)}
    xt = B.real(x + t)
    ss = B.real("ss" + t, "nonneg")
    return {"n": n, x: xt, x2: xt * xt / n + ss}


class NormalKnownMean(Model):
    func = "normal_known_mean"
    summaries = ("x_total", "x2_total", "n")

    def __init__(self, kind="InverseGamma"):
        self.family = kind
        self.name = f"normal_known_mean[{kind}]"
        self.params = ("alpha", "beta") if kind == "InverseGamma" else ("nu", "sigma2")

    def prior(self, B, t=""):
        if self.family == "InverseGamma":
            return B.D.InverseGamma(alpha=B.real("alpha0" + t, "pos"), beta=B.real("beta0" + t, "pos"))
        return B.D.ScaledInverseChiSquared(nu=B.real("nu0" + t, "pos"), sigma2=B.real("sigma20" + t, "pos"))

    def known(self, B, t=""):
        return dict(mu=B.real("mu" + t))

    def data(self, B, t="", known=None, empty_ok=False):
        return normal_summaries(B, t, 0 if empty_ok else 1)

    def theta(self, B, t=""):
        return B.real("theta" + t, "pos")

    def loglik(self, B, d, k, th):
        q = d["x2_total"] - 2 * k["mu"] * d["x_total"] + d["n"] * k["mu"] ** 2
        return -d["n"] * B.ln(th) / 2 - q / (2 * th)


class NormalModel(Model):
    summaries = ("x_total", "x2_total", "n")

    def __init__(self, func="normal", kind="NormalInverseGamma"):
        self.func, self.family = func, kind
        self.name = f"{func}[{kind}]"
        self.params = ("mu", "nu" if kind == "NormalInverseGamma" else "lam", "alpha", "beta")
        self.x, self.x2 = ("ln_x_total", "ln_x2_total") if func == "log_normal" else ("x_total", "x2_total")
        self.summaries = (self.x, self.x2, "n")

    def prior(self, B, t=""):
        k = dict(mu=B.real("mu0" + t), alpha=B.real("alpha0" + t, "pos"), beta=B.real("beta0" + t, "pos"))
        nu = B.real("nu0" + t, "pos")
        if self.family == "NormalInverseGamma":
            return B.D.NormalInverseGamma(nu=nu, **k)
        return B.D.NormalGamma(lam=nu, **k)

    def data(self, B, t="", known=None, empty_ok=False):
        return normal_summaries(B, t, 0 if empty_ok else 1, x=self.x, x2=self.x2)

    def theta(self, B, t=""):
        return (B.real("theta_m" + t), B.real("theta_v" + t, "pos"))

    def loglik(self, B, d, k, th):
        m, v = th
        q = d[self.x2] - 2 * m * d[self.x] + d["n"] * m * m
        return -d["n"] * B.ln(v) / 2 - q / (2 * v)


# ------------------------------------------------------------------ unnormalised posteriors
class GammaProp(Model):
    name = func = "gamma"
    family, params, summaries = "GammaProportional", ("p", "q", "r", "s"), ("x_total", "x_prod", "n")

    def prior(self, B, t=""):
        return B.D.GammaProportional(p=B.real("p0" + t, "pos"), q=B.real("q0" + t, "pos"), r=B.real("r0" + t, "pos"), s=B.real("s0" + t, "pos"))

    def data(self, B, t="", known=None, empty_ok=False):
        return dict(x_total=B.real("x_total" + t, "pos"), x_prod=B.real("x_prod" + t, "pos"), n=B.int("n" + t, 0 if empty_ok else 1))

    def combine(self, a, b, B=None):
        return {k: a[k] * b[k] if "prod" in k else a[k] + b[k] for k in a}

    def empty(self, B, known=None):
        return {k: 1 if "prod" in k else 0 for k in self.summaries}

    def theta(self, B, t=""):
        return (B.real("th_a" + t, "pos"), B.real("th_b" + t, "pos"))

    def kernel(self, B, d, th):
        return B.call(d.approx_log_likelihood, alpha=th[0], beta=th[1])

    def loglik(self, B, d, k, th):
        a, b = th
        return d["n"] * (a * B.ln(b) - B.lgamma(a)) + (a - 1) * B.ln(d["x_prod"]) - b * d["x_total"]


class GammaKnownRateProp(GammaProp):
    name = func = "gamma_known_rate"
    family, params, summaries = "GammaKnownRateProportional", ("a", "b", "c"), ("x_prod", "n")
    unused = ("beta",)   # the posterior's parameters do not involve the known rate

    def prior(self, B, t=""):
        return B.D.GammaKnownRateProportional(a=B.real("a0" + t, "pos"), b=B.real("b0" + t, "pos"), c=B.real("c0" + t, "pos"))

    def known(self, B, t=""):
        return dict(beta=B.real("rate" + t, "pos"))

    def data(self, B, t="", known=None, empty_ok=False):
        return dict(x_prod=B.real("x_prod" + t, "pos"), n=B.int("n" + t, 0 if empty_ok else 1))

    def theta(self, B, t=""):
        return B.real("th_a" + t, "pos")

    def kernel_with(self, B, d, th, known):
        return B.call(d.approx_log_likelihood, alpha=th, beta=known["beta"])

    def loglik(self, B, d, k, th):
        return d["n"] * (th * B.ln(k["beta"]) - B.lgamma(th)) + (th - 1) * B.ln(d["x_prod"])


class BetaProp(GammaProp):
    name = func = "beta"
    family, params, summaries = "BetaProportional", ("p", "q", "k"), ("x_prod", "one_minus_x_prod", "n")

    def prior(self, B, t=""):
        return B.D.BetaProportional(p=B.real("p0" + t, "pos"), q=B.real("q0" + t, "pos"), k=B.real("k0" + t, "pos"))

    def data(self, B, t="", known=None, empty_ok=False):
        return dict(x_prod=B.real("x_prod" + t, "unit"), one_minus_x_prod=B.real("y_prod" + t, "unit"), n=B.int("n" + t, 0 if empty_ok else 1))

    def loglik(self, B, d, k, th):
        a, b = th
        return (d["n"] * (B.lgamma(a + b) - B.lgamma(a) - B.lgamma(b)) + (a - 1) * B.ln(d["x_prod"])
                + (b - 1) * B.ln(d["one_minus_x_prod"]))


class VonMisesDirection(Model):
    name = func = "von_mises_known_direction"
    family, params, summaries = "VonMisesKnownDirectionProportional", ("c", "r"), ("centered_cos_total", "n")

    def prior(self, B, t=""):
        return B.D.VonMisesKnownDirectionProportional(c=B.real("c0" + t, "pos"), r=B.real("r0" + t))

    def data(self, B, t="", known=None, empty_ok=False):
        n = B.int("n" + t, 0 if empty_ok else 1)
        c = B.real("cct" + t, (-1, 1))
        return dict(centered_cos_total=n * c, n=n)

    def theta(self, B, t=""):
        return B.real("theta" + t, "pos")

    def kernel(self, B, d, th):
        return B.call(d.approx_log_likelihood, kappa=th)

    def loglik(self, B, d, k, th):
        return th * d["centered_cos_total"] - d["n"] * B.lni0(th)


class VonMisesConcentration(Model):
    """theta = the unknown mean direction; prior density proportional to exp(a cos(theta - b))."""
    name = func = "von_mises_known_concentration"
    family, params, summaries = "VonMisesKnownConcentration", ("a", "b"), ("cos_total", "sin_total", "n")
    angles = ("b",)

    def prior(self, B, t=""):
        return B.D.VonMisesKnownConcentration(a=B.real("a0" + t, "pos"), b=B.real("b0" + t, "angle"))

    def known(self, B, t=""):
        return dict(kappa=B.real("kappa" + t, "pos"))

    def data(self, B, t="", known=None, empty_ok=False):
        n = B.int("n" + t, 0 if empty_ok else 1)
        c, s = B.real("cbar" + t, (-1, 1)), B.real("sbar" + t, (-1, 1))
        B.assume(c * c + s * s <= 1)
        return dict(cos_total=n * c, sin_total=n * s, n=n)

    def theta(self, B, t=""):
        return B.real("theta" + t, "angle")

    def kernel(self, B, d, th):
        return B.call(d.log_likelihood, mu=th)

    def loglik(self, B, d, k, th):
        # sum of kappa cos(x_i - theta)
        return k["kappa"] * (B.cos(th) * d["cos_total"] + B.sin(th) * d["sin_total"]) - d["n"] * B.lni0(k["kappa"])


DISCRETE = [BinomialBeta(), BernoulliBeta(), NegativeBinomialBeta(), GeometricBeta(None), GeometricBeta(True), GeometricBeta(False),
            DirichletModel("categorical_dirichlet"), DirichletModel("multinomial_dirichlet"), PoissonGamma()]
CONTINUOUS = [ExponentialGamma(), GammaKnownShape(), InverseGammaKnownRate(), ParetoGamma(), UniformPareto(), WeibullIG(),
              NormalKnownVariance(), NormalKnownPrecision(), NormalKnownMean("InverseGamma"), NormalKnownMean("ScaledInverseChiSquared"),
              NormalModel("normal", "NormalInverseGamma"), NormalModel("normal", "NormalGamma"),
              NormalModel("log_normal", "NormalInverseGamma"), NormalModel("log_normal", "NormalGamma"),
              NormalModel("normal_normal_inverse_gamma", "NormalInverseGamma")]
PROPORTIONAL = [GammaProp(), GammaKnownRateProp(), BetaProp(), VonMisesDirection(), VonMisesConcentration()]


def k_of(m, B, d, th, known):
    if hasattr(m, "kernel_with"):
        return m.kernel_with(B, d, th, known)
    return m.kernel(B, d, th)


def bayes_case(m, whole=False):
    """whole: every input is a whole number (given as an integer)."""
    def fn(B):
        from .harness import Whole
        G = Whole(B) if whole else B
        prior = m.prior(G)
        known = m.known(G)
        data = m.data(G, "", known)
        post = m.call(B, data, known, prior)
        B.is_type(post, m.family, "posterior family")
        m.support_ok(B, post, prior, data)
        t1, t2 = m.theta(B, "1"), m.theta(B, "2")
        lhs = k_of(m, B, post, t1, known) - k_of(m, B, post, t2, known)
        rhs = (k_of(m, B, prior, t1, known) + m.loglik(B, data, known, t1)
               - k_of(m, B, prior, t2, known) - m.loglik(B, data, known, t2))
        B.eq(lhs, rhs, "log posterior ratio = log (prior*likelihood) ratio")
        for p in m.params:
            B.eq(getattr(post, p), getattr(post, p), f"probe {p}")
    return fn


def same(B, m, a, b, label):
    """Two posteriors of model m are the same distribution of the same class."""
    B.is_type(a, type(b).__name__, label)
    for p in m.params:
        u, v = getattr(a, p), getattr(b, p)
        if p in m.angles:
            B.eq(B.cos(u), B.cos(v), f"{label}: cos {p}")
            B.eq(B.sin(u), B.sin(v), f"{label}: sin {p}")
        else:
            B.eq(u, v, f"{label}: {p}")


ALL = DISCRETE + CONTINUOUS + PROPORTIONAL
