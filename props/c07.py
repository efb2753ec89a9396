"""C07: multivariate predictive distributions are the exact marginals."""
import numpy as np

from vlib.dens import check_log
from vlib.harness import Case, whole
from vlib.mvspec import *
from vlib.spec import *

BOUNDS = ("all positive definite scale matrices, means, design matrices and real degrees of freedom, dimension d <= 3 and up to 3 new rows "
          "(thorough 4 and 4; also up to 101 rows with d = 1 and 12 with d = 2, 5 dimensions; without a design 6 and 12 dimensions; d <= 2 also of whole numbers); for one dimension the density itself is compared with likelihood * prior / posterior at every outcome and parameter value")


def eqm(B, got, rows_, label):
    B.eq(got, B.arr(rows_), label)


def lr(d, n):
    """y | b, v ~ N(X b, v I), b | v ~ N(mu, v D), v ~ IG(a, beta): Student-t, location X mu, scale beta/alpha (I + X D X'), 2 alpha df."""
    def fn(B):
        q = lr_prior(B, d)
        X = B.mat("X", n, d)
        p = B.call(B.M.linear_regression_predictive, distribution=q, X=X)
        B.is_type(p, "MultivariateStudentT")
        R, D = rows(X), lol(q.delta_inverse)
        S = mm(mm(R, D), [[R[i][j] for i in range(n)] for j in range(d)])
        B.eq(p.mu, B.arr(mv(X, q.mu)), "location")
        B.eq(p.sigma, B.arr([[q.beta / q.alpha * ((1 if i == j else 0) + S[i][j]) for j in range(n)] for i in range(n)]), "scale matrix")
        B.eq(p.nu, 2 * q.alpha, "degrees of freedom")
    return fn


def lr_density(B):
    """d = 1, one new row: the object's own density at y."""
    mu, D, a, b = B.real("mu"), B.real("D", "pos"), B.real("a", "pos"), B.real("b", "pos")
    x, y, be, v = B.real("x"), B.real("y"), B.real("beta"), B.real("v", "pos")
    q = B.D.NormalInverseGamma(mu=B.arr([mu]), delta_inverse=B.arr([[D]]), alpha=a, beta=b)
    p = B.call(B.M.linear_regression_predictive, distribution=q, X=B.arr([[x]]))
    Dp = 1 / (1 / D + x * x)
    mp = Dp * (mu / D + x * y)
    bp = b + (y - x * mu) ** 2 / (2 * (1 + x * x * D))

    def nig(m, dd, aa, bb):
        return d_normal(B, be, m, v * dd) + d_invgamma(B, v, aa, bb)
    e = d_normal(B, y, x * be, v) + nig(mu, D, a, b) - nig(mp, Dp, a + B.frac(1, 2), bp)
    B.eq(B.call(lambda: p.dist.logpdf(B.arr([y]))), e, "density")


def known(kind, d):
    def fn(B):
        q = mvn_prior(B, d)
        C = B.spd("C", d)
        f = B.M.multivariate_normal_known_covariance_predictive if kind == "cov" else B.M.multivariate_normal_known_precision_predictive
        p = B.call(f, distribution=q, **{"cov" if kind == "cov" else "precision": C})
        B.is_type(p, "MultivariateNormal")
        B.eq(p.mu, q.mu, "location")
        N = C if kind == "cov" else B.inv(C)
        B.eq(p.cov, B.arr([[q.cov[i, j] + N[i, j] for j in range(d)] for i in range(d)]), "covariance")
    return fn


def known_density(kind):
    def fn(B):
        m, s2, k, x, th = B.real("m"), B.real("s2", "pos"), B.real("k", "pos"), B.real("x"), B.real("theta")
        f = B.M.multivariate_normal_known_covariance_predictive if kind == "cov" else B.M.multivariate_normal_known_precision_predictive
        q = B.D.MultivariateNormal(mu=B.arr([m]), cov=B.arr([[s2]]))
        p = B.call(f, distribution=q, **{"cov" if kind == "cov" else "precision": B.arr([[k]])})
        v = k if kind == "cov" else 1 / k
        vp = 1 / (1 / s2 + 1 / v)
        mp = vp * (m / s2 + x / v)
        e = d_normal(B, x, th, v) + d_normal(B, th, m, s2) - d_normal(B, th, mp, vp)
        B.eq(B.call(lambda: p.dist.logpdf(B.arr([x]))), e, "density")
    return fn


def niw(d):
    """x ~ t_{nu-d+1}(mu, psi (kappa+1) / (kappa (nu-d+1)))"""
    def fn(B):
        q = niw_prior(B, d)
        p = B.call(B.M.multivariate_normal_predictive, distribution=q)
        B.is_type(p, "MultivariateStudentT")
        df = q.nu - d + 1
        B.eq(p.nu, df, "degrees of freedom")
        B.eq(p.mu, q.mu, "location")
        B.eq(B.arr([[p.sigma[i, j] * q.kappa * df for j in range(d)] for i in range(d)]),
             B.arr([[q.psi[i, j] * (q.kappa + 1) for j in range(d)] for i in range(d)]), "scale matrix")
        B.eq(np.shape(p.sigma), (d, d), "shape")
    return fn


def niw_density(B):
    mu, k, nu, psi = B.real("mu"), B.real("kappa", "pos"), B.real("nu", "pos"), B.real("psi", "pos")
    x, m, v = B.real("x"), B.real("m"), B.real("v", "pos")
    q = B.D.NormalInverseWishart(mu=B.arr([mu]), kappa=k, nu=nu, psi=B.arr([[psi]]))
    p = B.call(B.M.multivariate_normal_predictive, distribution=q)

    def niw_(mm_, kk, nn, pp):
        return d_normal(B, m, mm_, v / kk) + d_invgamma(B, v, nn / 2, pp / 2)
    e = (d_normal(B, x, m, v) + niw_(mu, k, nu, psi)
         - niw_((k * mu + x) / (k + 1), k + 1, nu + 1, psi + k * (x - mu) ** 2 / (k + 1)))
    B.eq(B.call(lambda: p.dist.logpdf(B.arr([x]))), e, "density")


def dist_params(kind, d):
    """The scipy object carries the location, scale and degrees of freedom of the distribution."""
    def fn(B):
        mu, S, x = B.vec("mu", d), B.spd("S", d), B.vec("x", d)
        if kind == "normal":
            o = B.D.MultivariateNormal(mu=mu, cov=S)
            df = None
        else:
            df = B.real("df", "pos")
            o = B.D.MultivariateStudentT(mu=mu, sigma=S, nu=df)
        P = B.inv(S)
        r = [x[i] - mu[i] for i in range(d)]
        Q = dot(r, mv(P, r))
        ld = B.ln(B.det(S))
        if kind == "normal":
            e = -Q / 2 - ld / 2 - B.ln(2 * B.pi) * B.frac(d, 2)
        else:
            e = (B.lgamma((df + d) / 2) - B.lgamma(df / 2) - B.ln(df * B.pi) * B.frac(d, 2) - ld / 2 - (df + d) / 2 * B.ln(1 + Q / df))
        B.eq(B.call(lambda: o.dist.logpdf(x)), e, "density")
    return fn


CASES = [Case("linear_regression_predictive density[d=1]", lr_density), Case("multivariate_normal_predictive density[d=1]", niw_density)]
for k in ("cov", "precision"):
    CASES.append(Case(f"known {k} density[d=1]", known_density(k)))
    for d in (1, 2, 3, 4):
        CASES.append(Case(f"multivariate_normal_known_{k}_predictive[d={d}]", known(k, d), tier="quick" if d < 4 else "thorough"))
for d in (1, 2, 3, 4):
    CASES.append(Case(f"multivariate_normal_predictive[d={d}]", niw(d), tier="quick" if d < 4 else "thorough"))
    for n in (1, 2, 3, 4):
        CASES.append(Case(f"linear_regression_predictive[d={d},n={n}]", lr(d, n), tier="quick" if d < 4 and n < 4 else "thorough"))
for d, n in ((1, 8), (1, 101), (2, 12), (5, 1)):
    CASES.append(Case(f"linear_regression_predictive[d={d},n={n}]", lr(d, n)))
for d in (6, 12):
    CASES.append(Case(f"multivariate_normal_predictive[d={d}]", niw(d)))
    CASES.append(Case(f"multivariate_normal_known_cov_predictive[d={d}]", known("cov", d)))
for d in (1, 2, 3):
    CASES.append(Case(f"MultivariateNormal density[d={d}]", dist_params("normal", d), tier="quick" if d < 3 else "thorough"))
    CASES.append(Case(f"MultivariateStudentT density[d={d}]", dist_params("t", d), tier="quick" if d < 3 else "thorough"))
for d, n in ((1, 1), (2, 2), (2, 3)):
    CASES.append(Case(f"integers: linear_regression_predictive[d={d},n={n}]", whole(lr(d, n))))
for d in (1, 2):
    CASES.append(Case(f"integers: multivariate_normal_predictive[d={d}]", whole(niw(d))))
    CASES += [Case(f"integers: known {k}[d={d}]", whole(known(k, d))) for k in ("cov", "precision")]
CASES += [Case("integers: linear_regression_predictive density", whole(lr_density)), Case("integers: multivariate_normal_predictive density", whole(niw_density))]
CASES += [Case(f"integers: known {k} density", whole(known_density(k))) for k in ("cov", "precision")]
