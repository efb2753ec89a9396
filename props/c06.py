"""C06: continuous predictive distributions are the exact marginals.

m(x) = p(x | theta) p(theta) / p(theta | x) at every theta; the right side is written from reference
densities, the left side is the density of the object the library returns."""
from vlib.dens import check_log
from vlib.harness import Case
from vlib.spec import *
from vlib.vectors import lift_cases

BOUNDS = "all real parameters of the parameter distribution, known parameters and outcomes (any real, or any positive real where the likelihood lives there); theta free; arrays of parameters, of other arguments and outcomes, of both (2 and 11 elements, columns against rows, integer arrays)"


def gm(B):
    a, b = B.real("a", "pos"), B.real("b", "pos")
    return a, b, B.D.Gamma(alpha=a, beta=b)


def exponential(B):
    a, b, g = gm(B)
    x, th = B.real("x", "pos"), B.real("theta", "pos")
    p = B.call(B.M.exponential_gamma_predictive, distribution=g)
    check_log(B, p.dist, x, d_exponential(B, x, th) + d_gamma(B, th, a, b) - d_gamma(B, th, a + 1, b + x), "marginal", False)
    B.eq(p.dist.pdf(-x), 0, "nothing below zero")


def gamma_shape(B):
    a, b, g = gm(B)
    s, x, th = B.real("shape", "pos"), B.real("x", "pos"), B.real("theta", "pos")
    p = B.call(B.M.gamma_known_shape_predictive, distribution=g, alpha=s)
    check_log(B, p.dist, x, d_gamma(B, x, s, th) + d_gamma(B, th, a, b) - d_gamma(B, th, a + s, b + x), "marginal", False)
    B.eq(p.dist.pdf(-x), 0, "nothing below zero")


def known_var(kind):
    def fn(B):
        m, s = B.real("mu"), B.real("sigma", "pos")
        k = B.real("known", "pos")
        v = k if kind == "var" else 1 / k
        x, th = B.real("x"), B.real("theta")
        f = B.M.normal_known_variance_predictive if kind == "var" else B.M.normal_known_precision_predictive
        p = B.call(f, distribution=B.D.Normal(mu=m, sigma=s), **{kind: k})
        vp = 1 / (1 / s**2 + 1 / v)
        mp = vp * (m / s**2 + x / v)
        check_log(B, p.dist, x, d_normal(B, x, th, v) + d_normal(B, th, m, s**2) - d_normal(B, th, mp, vp), "marginal", False)
    return fn


def known_mean(kind):
    def fn(B):
        mu, x, th = B.real("mu"), B.real("x"), B.real("theta", "pos")
        if kind == "InverseGamma":
            a, b = B.real("a", "pos"), B.real("b", "pos")
            d = B.D.InverseGamma(alpha=a, beta=b)
        else:
            nu, s2 = B.real("nu", "pos"), B.real("sigma2", "pos")
            d = B.D.ScaledInverseChiSquared(nu=nu, sigma2=s2)
            a, b = nu / 2, nu * s2 / 2
        p = B.call(B.M.normal_known_mean_predictive, mu=mu, distribution=d)
        e = d_normal(B, x, mu, th) + d_invgamma(B, th, a, b) - d_invgamma(B, th, a + B.frac(1, 2), b + (x - mu) ** 2 / 2)
        check_log(B, p.dist, x, e, "marginal", False)
    return fn


def normal(func, kind):
    def fn(B):
        mu, nu, a, b = B.real("mu"), B.real("nu", "pos"), B.real("a", "pos"), B.real("b", "pos")
        x, m, v = B.real("x"), B.real("m"), B.real("v", "pos")
        d = B.D.NormalInverseGamma(mu=mu, nu=nu, alpha=a, beta=b) if kind == "NIG" else B.D.NormalGamma(mu=mu, lam=nu, alpha=a, beta=b)
        p = B.call(getattr(B.M, func), distribution=d)
        mp = (nu * mu + x) / (nu + 1)
        bp = b + nu * (x - mu) ** 2 / (2 * (nu + 1))

        def nig(mm, k, aa, bb):
            if kind == "NIG":
                return d_invgamma(B, v, aa, bb) + d_normal(B, m, mm, v / k)
            return d_gamma(B, 1 / v, aa, bb) + d_normal(B, m, mm, v / k)

        e = d_normal(B, x, m, v) + nig(mu, nu, a, b) - nig(mp, nu + 1, a + B.frac(1, 2), bp)
        check_log(B, p.dist, x, e, "marginal", False)
    return fn


CASES = [Case("exponential_gamma_predictive", exponential), Case("gamma_known_shape_predictive", gamma_shape),
         Case("normal_known_variance_predictive", known_var("var")), Case("normal_known_precision_predictive", known_var("precision")),
         Case("normal_known_mean_predictive[InverseGamma]", known_mean("InverseGamma")),
         Case("normal_known_mean_predictive[ScaledInverseChiSquared]", known_mean("ScaledInverseChiSquared")),
         Case("normal_predictive[NormalInverseGamma]", normal("normal_predictive", "NIG")),
         Case("normal_predictive[NormalGamma]", normal("normal_predictive", "NG")),
         Case("normal_normal_inverse_gamma_predictive", normal("normal_normal_inverse_gamma_predictive", "NIG"))]

par = lambda n: n in ("a", "b", "nu", "sigma2", "mu", "sigma")
for c in list(CASES):
    known_mu = "normal_known_mean" in c.name
    CASES += lift_cases(Case, c.name, c.fn, prior=(lambda n: n in ("a", "b", "nu", "sigma2")) if known_mu else par)
