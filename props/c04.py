"""C04: multivariate normal and linear regression posteriors obey Bayes' rule."""
from vlib.harness import Case, whole
from vlib.mvspec import *

BOUNDS = "dimension d <= 3 (regression with d = 3: n <= 2 quick, n <= 3 thorough), n <= 4 rows (also 101 rows with d = 1, 7 rows with d = 2, more with designs of few free entries; the models without a design up to d = 5 and 60 rows) where the data are a matrix and every n where they are summaries; thorough adds d = 4 with n <= 6; all real matrices (d <= 2 also of whole numbers), all positive definite priors and noise matrices"


def lr(d, n, mixed=None):
    def fn(B):
        prior = lr_prior(B, d, diagonal=mixed == "diagonal")
        y = B.vec("y", n)
        # mixed: a fixed design but for one entry per column
        X = B.mat("X", n, d) if not mixed else B.arr([[B.real(f"X{i}{j}") if i == j else B.frac((7 * i + 3 * j + i * j) % 5 - 2, 1) for j in range(d)] for i in range(n)])
        lr_hints(B, "D0", d, rows(X))
        post = B.call(B.M.linear_regression, X=X, y=y, prior=prior)
        lr_check(B, post, prior, rows(X), list(y), d)
    return fn


def kc(d):
    def fn(B):
        prior = mvn_prior(B, d)
        n = B.int("n", 1)
        C = B.spd("C", d)
        cov_hints(B, "S0", "C", n, d)
        xb = B.vec("xbar", d)
        post = B.call(B.M.multivariate_normal_known_covariance, n=n, x_bar=xb, cov=C, prior=prior)
        mvn_check(B, post, prior, n, xb, lol(B.inv(C)), d)
    return fn


def kp(d):
    def fn(B):
        prior = mvn_prior(B, d)
        n = B.int("n", 1)
        P = B.spd("P", d)
        prec_hints(B, "S0", "P", n, d)
        xb = B.vec("xbar", d)
        post = B.call(B.M.multivariate_normal_known_precision, n=n, x_bar=xb, precision=P, prior=prior)
        mvn_check(B, post, prior, n, xb, lol(P), d)
    return fn


def km(d, n):
    def fn(B):
        prior = iw_prior(B, d)
        X, mu = B.mat("X", n, d), B.vec("mu", d)
        post = B.call(B.M.multivariate_normal_known_mean, X=X, mu=mu, prior=prior)
        iw_check(B, post, prior, rows(X), mu, d)
    return fn


def both(d, n):
    def fn(B):
        prior = niw_prior(B, d)
        X = B.mat("X", n, d)
        post = B.call(B.M.multivariate_normal, X=X, prior=prior)
        niw_check(B, post, prior, rows(X), d)
    return fn


CASES = []
for d in (1, 2, 3):
    CASES += [Case(f"known_covariance[d={d}]", kc(d), timeout=400), Case(f"known_precision[d={d}]", kp(d), timeout=400)]
    for n in (1, 2, 3, 4):
        if d < 3 or n < 4:
            CASES.append(Case(f"linear_regression[d={d},n={n}]", lr(d, n), tier="quick" if d < 3 or n < 3 else "thorough", timeout=400))
        CASES.append(Case(f"known_mean[d={d},n={n}]", km(d, n)))
        CASES.append(Case(f"multivariate_normal[d={d},n={n}]", both(d, n)))
for d, n in ((1, 12), (1, 30), (1, 101), (2, 7)):
    CASES += [Case(f"linear_regression[d={d},n={n}]", lr(d, n), timeout=400), Case(f"known_mean[d={d},n={n}]", km(d, n)), Case(f"multivariate_normal[d={d},n={n}]", both(d, n))]
for d, n in ((2, 12), (2, 20), (3, 4), (3, 6)):
    CASES.append(Case(f"linear_regression[d={d},n={n}], few free entries in the design", lr(d, n, True), timeout=400))
for d, n in ((4, 2), (4, 3), (4, 5)):
    CASES.append(Case(f"linear_regression[d={d},n={n}], few free entries, diagonal prior", lr(d, n, "diagonal"), timeout=400))
for d, n in ((2, 12), (2, 60), (5, 2)):
    CASES += [Case(f"known_mean[d={d},n={n}]", km(d, n)), Case(f"multivariate_normal[d={d},n={n}]", both(d, n))]
for n in (1, 3, 6):
    CASES.append(Case(f"known_mean[d=4,n={n}]", km(4, n), tier="thorough"))
    CASES.append(Case(f"multivariate_normal[d=4,n={n}]", both(4, n), tier="thorough"))
for d, n in ((1, 1), (1, 3), (2, 2), (2, 3)):
    CASES += [Case(f"integers: linear_regression[d={d},n={n}]", whole(lr(d, n)), timeout=400), Case(f"integers: known_mean[d={d},n={n}]", whole(km(d, n))),
              Case(f"integers: multivariate_normal[d={d},n={n}]", whole(both(d, n)))]
for d in (1, 2):
    CASES += [Case(f"integers: known_covariance[d={d}]", whole(kc(d)), timeout=400), Case(f"integers: known_precision[d={d}]", whole(kp(d)), timeout=400)]
