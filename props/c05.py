"""C05: discrete predictive distributions are the exact marginals.

m(x) = p(x | theta) p(theta) / p(theta | x) for every theta: the three densities on the right are
reference formulas; the left side is the mass function of the object the library returns."""
import numpy as np

from vlib.dens import check_log
from vlib.harness import Case
from vlib.spec import *
from vlib.vectors import lift_cases

BOUNDS = ("all real parameters of the parameter distribution, all integer outcomes, numbers of trials and totals (unbounded), every real exposure; "
          "Dirichlet of length 2, 3, 4, 12 (thorough also 6); theta free; arrays of parameters, of other arguments and outcomes, of both (2 and 11 elements, columns against rows, integer arrays)")


def beta_dist(B):
    return B.real("a", "pos"), B.real("b", "pos")


def binomial(B):
    a, b = beta_dist(B)
    n = B.int("n", 0)
    k = B.int("k", 0, n)
    th = B.real("theta", "unit")
    p = B.call(B.M.binomial_beta_predictive, n=n, distribution=B.D.Beta(alpha=a, beta=b))
    check_log(B, p.dist, k, d_binomial(B, k, n, th) + d_beta(B, th, a, b) - d_beta(B, th, a + k, b + n - k), "marginal", True)


def bernoulli(B):
    a, b = beta_dist(B)
    k = B.choice("k", [0, 1])
    th = B.real("theta", "unit")
    p = B.call(B.M.bernoulli_beta_predictive, distribution=B.D.Beta(alpha=a, beta=b))
    check_log(B, p.dist, k, (B.ln(th) if k else B.ln(1 - th)) + d_beta(B, th, a, b) - d_beta(B, th, a + k, b + 1 - k), "marginal", True)
    B.eq(p.dist.pmf(2), 0, "no other outcome")
    B.eq(p.dist.pmf(-1), 0, "no other outcome")


def negbin(B):
    a, b = beta_dist(B)
    r, k = B.int("r", 1), B.int("k", 0)
    th = B.real("theta", "unit")
    p = B.call(B.M.negative_binomial_beta_predictive, r=r, distribution=B.D.Beta(alpha=a, beta=b))
    check_log(B, p.dist, k, d_negbin(B, k, r, th) + d_beta(B, th, a, b) - d_beta(B, th, a + r, b + k), "marginal", True)


def geometric(one_start):
    def fn(B):
        a, b = beta_dist(B)
        one = True if one_start is None else one_start
        k = B.int("k", 1 if one else 0)
        th = B.real("theta", "unit")
        kw = {} if one_start is None else dict(one_start=one_start)
        p = B.call(B.M.geometric_beta_predictive, distribution=B.D.Beta(alpha=a, beta=b), **kw)
        check_log(B, p.dist, k, d_geometric(B, k, th, one) + d_beta(B, th, a, b) - d_beta(B, th, a + 1, b + (k - 1 if one else k)), "marginal", True)
    return fn


def dirichlet(func, k, default, kind="array"):
    def fn(B):
        al = B.vec("alpha", k, "pos")
        th = B.simplex("theta", k)
        if default:
            j = B.choice("j", list(range(k)))
            xs = [1 if i == j else 0 for i in range(k)]
            kw, n = {}, 1
        else:
            xs = [B.int(f"x{i}", 0) for i in range(k)]
            n = sum(xs[1:], xs[0])
            B.assume(n >= 1)
            kw = dict(n=n)
        p = B.call(getattr(B.M, func), distribution=B.D.Dirichlet(alpha=list(al) if kind == "list" else al), **kw)
        e = d_multinomial(B, xs, n, th) + d_dirichlet(B, th, al) - d_dirichlet(B, th, [al[i] + xs[i] for i in range(k)])
        check_log(B, p.dist, B.intarr(xs) if not B.symbolic else B.arr(xs), e, "marginal", True)
    return fn


def poisson(default):
    def fn(B):
        a, b = beta_dist(B)
        k = B.int("k", 0)
        th = B.real("theta", "pos")
        t = 1 if default else B.real("exposure", "pos")
        p = B.call(B.M.poisson_gamma_predictive, distribution=B.D.Gamma(alpha=a, beta=b), **({} if default else dict(n=t)))
        check_log(B, p.dist, k, d_poisson(B, k, t * th) + d_gamma(B, th, a, b) - d_gamma(B, th, a + k, b + t), "marginal", True)
    return fn


def vector_outcomes(B):
    """Arrays of outcomes are evaluated elementwise."""
    a, b = beta_dist(B)
    n = B.int("n", 2)
    k = B.vec("k", 0) if False else [B.int("k0", 0, n), B.int("k1", 0, n)]
    p = B.call(B.M.binomial_beta_predictive, n=n, distribution=B.D.Beta(alpha=a, beta=b))
    r = B.call(p.dist.logpmf, B.arr(k))
    B.eq(r, B.arr([d_betabinom(B, x, n, a, b) for x in k]), "array of outcomes")


CASES = [Case("binomial_beta_predictive", binomial), Case("bernoulli_beta_predictive", bernoulli), Case("negative_binomial_beta_predictive", negbin),
         Case("poisson_gamma_predictive", poisson(True)), Case("poisson_gamma_predictive[n]", poisson(False)), Case("outcome arrays", vector_outcomes)]
CASES += [Case(f"geometric_beta_predictive[one_start={o}]", geometric(o)) for o in (None, True, False)]
for f in ("categorical_dirichlet_predictive", "multinomial_dirichlet_predictive"):
    for k in (2, 3, 4):
        CASES += [Case(f"{f}[k={k}]", dirichlet(f, k, True)), Case(f"{f}[k={k},n]", dirichlet(f, k, False))]
    CASES.append(Case(f"{f}[k=12,n]", dirichlet(f, 12, False)))
    CASES.append(Case(f"{f}[list]", dirichlet(f, 3, False, "list")))
    CASES.append(Case(f"{f}[k=6,n]", dirichlet(f, 6, False), tier="thorough"))

par = lambda n: n in ("a", "b") or n.startswith("alpha")
for c in [c for c in CASES if "[k=" not in c.name and "outcome" not in c.name and "[list]" not in c.name]:
    CASES += lift_cases(Case, c.name, c.fn, prior=par)
for f in ("categorical_dirichlet_predictive", "multinomial_dirichlet_predictive"):
    CASES += lift_cases(Case, f"{f}[k=3,n]", dirichlet(f, 3, False), prior=par, vector=True)
