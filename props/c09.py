"""C09: an empty batch leaves the prior unchanged."""
from vlib.harness import Case, whole
from vlib.modelspec import ALL, DirichletModel, same
from vlib.mvspec import *
from vlib.vectors import lift_cases
from props.c08 import eqp

BOUNDS = "all real prior and known parameters; the empty data summary of each model (zero counts and sums, products equal to one), matrices with no rows, dimension d <= 3 (thorough 4; models without a design 6), up to 12 categories; whole numbers and arrays (2 and 11 elements, of the prior alone, of zeros), columns against rows"


def scalar(m, zero=0):
    def fn(B):
        prior = m.prior(B)
        known = m.known(B)
        d = {k: (v + zero if not hasattr(v, "__len__") else v) for k, v in m.empty(B, known).items()}
        post = m.call(B, d, known, prior)
        same(B, m, post, prior, "empty batch")
    return fn


def hyper(B):
    N = B.int("N", 1)
    a, b = B.real("a", "pos"), B.real("b", "pos")
    p = B.call(B.M.hypergeometric_beta_binomial, x_total=0, n=0, prior=B.D.BetaBinomial(n=N, alpha=a, beta=b))
    B.is_type(p, "BetaBinomial")
    B.eq(p.n, N, "population")
    B.eq(p.alpha, a, "alpha")
    B.eq(p.beta, b, "beta", known="hypergeometric-n-empty", alt=b + N)


def lr(d):
    def fn(B):
        q = lr_prior(B, d)
        p = B.call(B.M.linear_regression, X=emptymat(B, d), y=B.arr(np.zeros(0)), prior=q)
        eqp(B, p, q, ("mu", "delta_inverse", "alpha", "beta"), "empty batch")
    return fn


def mvn(d, kind, zero):
    def fn(B):
        q = mvn_prior(B, d)
        C = B.spd("C", d)
        f = B.M.multivariate_normal_known_covariance if kind == "cov" else B.M.multivariate_normal_known_precision
        x = B.arr(np.zeros(d)) if zero else B.vec("xbar", d)
        p = B.call(f, n=0, x_bar=x, prior=q, **{"cov" if kind == "cov" else "precision": C})
        eqp(B, p, q, ("mu", "cov"), "empty batch")
    return fn


def km(d):
    def fn(B):
        q = iw_prior(B, d)
        p = B.call(B.M.multivariate_normal_known_mean, X=emptymat(B, d), mu=B.vec("mu", d), prior=q)
        eqp(B, p, q, ("nu", "psi"), "empty batch")
    return fn


def both(d):
    def fn(B):
        q = niw_prior(B, d)
        p = B.call(B.M.multivariate_normal, X=emptymat(B, d), prior=q)
        eqp(B, p, q, ("mu", "kappa", "nu", "psi"), "empty batch")
    return fn


CASES = [Case(m.name, scalar(m)) for m in ALL if m.empty is not None]
CASES += [Case(m.name + " float zeros", scalar(m, 0.0)) for m in ALL if m.empty is not None and m.scalar]
CASES += [Case("hypergeometric_beta_binomial", hyper)]
for f in ("categorical_dirichlet", "multinomial_dirichlet"):
    for k, kind in ((2, "array"), (5, "array"), (3, "list"), (3, "list-prior"), (3, "list-data")):
        m = DirichletModel(f, k, kind)
        CASES.append(Case(m.name, scalar(m)))
for d in (1, 2, 3, 4):
    t = "quick" if d < 4 else "thorough"
    CASES += [Case(f"linear_regression[d={d}]", lr(d), tier=t), Case(f"known_mean[d={d}]", km(d), tier=t), Case(f"multivariate_normal[d={d}]", both(d), tier=t)]
    for k in ("cov", "precision"):
        for z in (True, False):
            CASES.append(Case(f"multivariate_normal_known_{k}[d={d},x_bar={'zero' if z else 'any'}]", mvn(d, k, z), tier=t))
for m in ALL:
    if m.empty is not None and getattr(m, "kind", "array") == "array":
        CASES += lift_cases(Case, m.name, scalar(m), vector=not m.scalar)
for d in (1, 2, 3):
    CASES += [Case(f"integers: linear_regression[d={d}]", whole(lr(d))), Case(f"integers: known_mean[d={d}]", whole(km(d))), Case(f"integers: multivariate_normal[d={d}]", whole(both(d)))]
    CASES += [Case(f"integers: known {k}[d={d}]", whole(mvn(d, k, z))) for k in ("cov", "precision") for z in (True, False)]
for d in (4, 6):
    CASES += [Case(f"known_mean[d={d}], many", km(d)), Case(f"multivariate_normal[d={d}], many", both(d))]
for f in ("categorical_dirichlet", "multinomial_dirichlet"):
    for kind in ("array", "list"):
        m = DirichletModel(f, 12, kind)
        CASES.append(Case(m.name, scalar(m)))
