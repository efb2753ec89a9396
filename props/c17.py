"""C17: alternative constructors and conversions yield the distribution their arguments describe."""
import itertools

import numpy as np

from vlib.dens import check_log
from vlib.harness import TIER, Case
from vlib.spec import *

BOUNDS = ("all real arguments (also integers); every argument a number, an array of 2 or 11 elements, a 2x1 column or 2x3 table, columns of 3 against rows of 4; Dirichlet of 1 to 5 categories (thorough 8); "
          "matrices of dimension 1, 2 and 3; conversions chained there and back up to 12 times. Results are judged by their parameters and by the density of the scipy object behind dist")

P, U, R = "pos", "unit", "real"


class Con:
    """name; arguments; build(D, **arguments); want: list of (label, value of the result, what it has to be);
    density(B, x, *arguments) with the point's domain."""

    def __init__(self, name, args, build, cls, want, density=None, at="pos"):
        self.name, self.args, self.build, self.cls, self.want, self.density, self.at = name, args, build, cls, want, density, at


def sics(D, nu, s2):
    return D.ScaledInverseChiSquared(nu=nu, sigma2=s2)


CONS = [
    Con("Beta.from_mean", [("mean", U), ("alpha", P)], lambda D, **k: D.Beta.from_mean(**k), "Beta",
        lambda r, mean, alpha: [("alpha", r.alpha, alpha), ("mean", r.alpha / (r.alpha + r.beta), mean)],
        lambda B, x, mean, alpha: d_beta(B, x, alpha, alpha * (1 - mean) / mean), U),
    Con("Beta.from_successes_and_failures", [("successes", "nonneg"), ("failures", "nonneg")], lambda D, **k: D.Beta.from_successes_and_failures(**k), "Beta",
        lambda r, successes, failures: [("successes", r.alpha - 1, successes), ("failures", r.beta - 1, failures)],
        lambda B, x, successes, failures: d_beta(B, x, successes + 1, failures + 1), U),
    Con("Gamma.from_occurrences_in_intervals", [("occurrences", P), ("intervals", P)], lambda D, **k: D.Gamma.from_occurrences_in_intervals(**k), "Gamma",
        lambda r, occurrences, intervals: [("occurrences", r.alpha, occurrences), ("rate", r.alpha / r.beta, occurrences / intervals)],
        lambda B, x, occurrences, intervals: d_gamma(B, x, occurrences, intervals), P),
    Con("Normal.from_mean_and_variance", [("mean", R), ("variance", P)], lambda D, **k: D.Normal.from_mean_and_variance(**k), "Normal",
        lambda r, mean, variance: [("mean", r.mu, mean), ("variance", r.sigma**2, variance)],
        lambda B, x, mean, variance: d_normal(B, x, mean, variance), R),
    Con("Normal.from_mean_and_precision", [("mean", R), ("precision", P)], lambda D, **k: D.Normal.from_mean_and_precision(**k), "Normal",
        lambda r, mean, precision: [("mean", r.mu, mean), ("precision", 1 / r.sigma**2, precision)],
        lambda B, x, mean, precision: d_normal(B, x, mean, 1 / precision), R),
    Con("Normal.uninformative", [("sigma", P)], lambda D, **k: D.Normal.uninformative(**k), "Normal",
        lambda r, sigma: [("mean", r.mu, 0), ("sigma", r.sigma, sigma)], lambda B, x, sigma: d_normal(B, x, 0, sigma**2), R),
    Con("ScaledInverseChiSquared.from_inverse_gamma", [("alpha", P), ("beta", P)],
        lambda D, alpha, beta: D.ScaledInverseChiSquared.from_inverse_gamma(D.InverseGamma(alpha=alpha, beta=beta)), "ScaledInverseChiSquared",
        lambda r, alpha, beta: [("nu/2", r.nu / 2, alpha), ("nu sigma2/2", r.nu * r.sigma2 / 2, beta)], lambda B, x, alpha, beta: d_invgamma(B, x, alpha, beta), P),
    Con("ScaledInverseChiSquared.to_inverse_gamma", [("nu", P), ("s2", P)], lambda D, nu, s2: sics(D, nu, s2).to_inverse_gamma(), "InverseGamma",
        lambda r, nu, s2: [("2 alpha", 2 * r.alpha, nu), ("2 beta / nu", 2 * r.beta, nu * s2)], lambda B, x, nu, s2: d_sichi2(B, x, nu, s2), P),
    Con("inverse gamma there and back", [("alpha", P), ("beta", P)],
        lambda D, alpha, beta: D.ScaledInverseChiSquared.from_inverse_gamma(D.InverseGamma(alpha=alpha, beta=beta)).to_inverse_gamma(), "InverseGamma",
        lambda r, alpha, beta: [("alpha", r.alpha, alpha), ("beta", r.beta, beta)], lambda B, x, alpha, beta: d_invgamma(B, x, alpha, beta), P),
    Con("scaled inverse chi squared there and back", [("nu", P), ("s2", P)],
        lambda D, nu, s2: D.ScaledInverseChiSquared.from_inverse_gamma(sics(D, nu, s2).to_inverse_gamma()), "ScaledInverseChiSquared",
        lambda r, nu, s2: [("nu", r.nu, nu), ("sigma2", r.sigma2, s2)], lambda B, x, nu, s2: d_sichi2(B, x, nu, s2), P),
    Con("NormalInverseGamma.from_inverse_gamma", [("mu", R), ("alpha", P), ("beta", P), ("nu", P)],
        lambda D, mu, alpha, beta, nu: D.NormalInverseGamma.from_inverse_gamma(mu=mu, inverse_gamma=D.InverseGamma(alpha=alpha, beta=beta), nu=nu), "NormalInverseGamma",
        lambda r, mu, alpha, beta, nu: [("mu", r.mu, mu), ("alpha", r.alpha, alpha), ("beta", r.beta, beta), ("nu", r.nu, nu)]),
    Con("NormalInverseGamma.inverse_gamma", [("alpha", P), ("beta", P)],
        lambda D, alpha, beta: D.NormalInverseGamma(mu=0, alpha=alpha, beta=beta, nu=1).inverse_gamma, "InverseGamma",
        lambda r, alpha, beta: [("alpha", r.alpha, alpha), ("beta", r.beta, beta)], lambda B, x, alpha, beta: d_invgamma(B, x, alpha, beta), P),
    Con("NormalGamma.gamma", [("alpha", P), ("beta", P)], lambda D, alpha, beta: D.NormalGamma(mu=0, lam=1, alpha=alpha, beta=beta).gamma, "Gamma",
        lambda r, alpha, beta: [("alpha", r.alpha, alpha), ("beta", r.beta, beta)], lambda B, x, alpha, beta: d_gamma(B, x, alpha, beta), P),
]
POSITIONAL = {
    "Beta.from_mean": lambda D, mean, alpha: D.Beta.from_mean(mean, alpha),
    "Beta.from_successes_and_failures": lambda D, successes, failures: D.Beta.from_successes_and_failures(successes, failures),
    "Gamma.from_occurrences_in_intervals": lambda D, occurrences, intervals: D.Gamma.from_occurrences_in_intervals(occurrences, intervals),
    "Normal.from_mean_and_variance": lambda D, mean, variance: D.Normal.from_mean_and_variance(mean, variance),
    "Normal.from_mean_and_precision": lambda D, mean, precision: D.Normal.from_mean_and_precision(mean, precision),
    "Normal.uninformative": lambda D, sigma: D.Normal.uninformative(sigma),
}


def judge(B, c, r, vals, density):
    B.is_type(r, c.cls)
    for label, got, want in c.want(r, **vals):
        B.eq(got, want, label)
    if c.cls == "Normal":
        B.true(r.sigma > 0, "sigma is positive")
    if density and c.density:
        x = B.real("x", c.at)
        check_log(B, B.call(lambda: r.dist), x, c.density(B, x, **vals), "density", False)


def scalar(c, ints=False, positional=False):
    def fn(B):
        get = lambda n, d: (B.real(n, d) if not ints or d == U else B.int(n, None if d == R else 1 if d == P else 0))
        vals = {n: get(n, d) for n, d in c.args}
        f = POSITIONAL[c.name] if positional else c.build
        judge(B, c, B.call(f, B.D, **vals), vals, True)
        # a later call with other arguments is not affected by this one, nor this result by that call
        r = B.call(f, B.D, **vals)
        other = {n: get(n + "'", d) for n, d in c.args}
        judge(B, c, B.call(f, B.D, **other), other, False)
        judge(B, c, r, vals, False)
    return fn


def arrays(c, shapes, ints=False):
    def fn(B):
        vals = {}
        for (n, d), s in zip(c.args, shapes):
            one = lambda t: B.int(n + t, None if d == R else 1 if d == P else 0) if ints and d != U else B.real(n + t, d)
            mk = B.intarr if ints and d != U and not B.symbolic else B.arr
            vals[n] = one("") if s == () else mk([one(str(i)) for i in range(s[0])]) if len(s) == 1 else mk([[one(str(i) + (f",{j}" if j else "")) for j in range(s[1])] for i in range(s[0])])
        before = {n: (np.array(v, dtype=object, copy=True) if np.ndim(v) else v) for n, v in vals.items()}
        r = B.call(c.build, B.D, **vals)
        B.is_type(r, c.cls)
        shape = np.broadcast_shapes(*shapes)
        for label, got, want in c.want(r, **before):
            if label in ("mean", "mu") and c.cls == "Normal" and "uninformative" in c.name:
                B.eq(np.broadcast_to(got, shape), np.broadcast_to(np.array(0, dtype=object), shape), label)
                continue
            B.eq(np.broadcast_to(np.asarray(got, dtype=object), shape), np.broadcast_to(np.asarray(want, dtype=object), shape), label)
        for n in vals:
            B.eq(vals[n], before[n], f"argument {n} changed")
        if c.density:
            rows = []
            for ix in np.ndindex(shape):
                rows.append(B.real(f"x{list(ix)}", c.at))
            x = B.arr(np.array(rows, dtype=object).reshape(shape).tolist())
            got = B.call(B.call(lambda: r.dist).logpdf, x)
            for ix in np.ndindex(shape):
                at = {n: v if np.ndim(v) == 0 else np.broadcast_to(v, shape)[ix] for n, v in before.items()}
                B.eq(np.asarray(got, dtype=object)[ix], c.density(B, x[ix], **at), f"density at {list(ix)}")
    return fn


def fixed_beta(B):
    r = B.call(B.D.Beta.uninformative)
    B.is_type(r, "Beta")
    x = B.real("x", U)
    check_log(B, r.dist, x, 0, "uniform density", False)
    B.eq(r.alpha, 1, "alpha"), B.eq(r.beta, 1, "beta")


def fixed_normal(B):
    r = B.call(B.D.Normal.uninformative)
    B.eq(r.mu, 0, "mean"), B.eq(r.sigma, 1, "sigma")
    x = B.real("x")
    check_log(B, r.dist, x, d_normal(B, x, 0, 1), "standard normal density", False)


def helper(B):
    m, a = B.real("mean", U), B.real("alpha", P)
    b = B.call(B.D.get_beta_param_from_mean_and_alpha, mean=m, alpha=a)
    B.eq(a / (a + b), m, "mean")
    B.true(b > 0, "beta is positive")


def dirichlet(k):
    def fn(B):
        r = B.call(B.D.Dirichlet.uninformative, n=k)
        B.is_type(r, "Dirichlet")
        B.true(np.shape(r.alpha) == (k,), f"shape {np.shape(r.alpha)}")
        B.eq(r.alpha, B.arr([1.0] * k) if not B.symbolic else np.array([1] * k, dtype=object), "concentrations")
        again = B.call(B.D.Dirichlet.uninformative, k + 1)
        B.true(np.shape(again.alpha) == (k + 1,), "a later call")
        B.true(np.shape(r.alpha) == (k,), "unchanged by a later call")
        if k > 1:
            p = B.simplex("p", k)
            check_log(B, r.dist, p, B.lgamma(k), "density constant over the simplex", False)
    return fn


def nig(B):
    D = B.D
    mu, a, b = B.real("mu"), B.real("alpha", P), B.real("beta", P)
    nu, de = B.real("nu", P), B.real("delta", P)
    ig = D.InverseGamma(alpha=a, beta=b)
    B.raises(ValueError, lambda: D.NormalInverseGamma(mu=mu, alpha=a, beta=b), "neither nu nor delta_inverse")
    B.raises(ValueError, lambda: D.NormalInverseGamma(mu=mu, alpha=a, beta=b, nu=nu, delta_inverse=de), "both nu and delta_inverse")
    B.raises(ValueError, lambda: D.NormalInverseGamma.from_inverse_gamma(mu=mu, inverse_gamma=ig), "neither, from an inverse gamma")
    B.raises(ValueError, lambda: D.NormalInverseGamma.from_inverse_gamma(mu=mu, inverse_gamma=ig, nu=nu, delta_inverse=de), "both, from an inverse gamma")
    r = B.call(D.NormalInverseGamma.from_inverse_gamma, mu=mu, inverse_gamma=ig, delta_inverse=de)
    for n, v in (("mu", mu), ("alpha", a), ("beta", b), ("delta_inverse", de)):
        B.eq(getattr(r, n), v, n)
    B.true(r.nu is None, "nu stays unset")
    q = B.call(D.NormalInverseGamma.from_inverse_gamma, mu, ig, nu=nu)
    B.true(q.delta_inverse is None, "delta_inverse stays unset")
    back = B.call(lambda: r.inverse_gamma)
    B.is_type(back, "InverseGamma")
    B.eq(back.alpha, a, "alpha of the way back"), B.eq(back.beta, b, "beta of the way back")


def nig_matrix(d):
    def fn(B):
        D = B.D
        mu, S = B.vec("mu", d), B.spd("delta", d)
        a, b = B.real("alpha", P), B.real("beta", P)
        r = B.call(D.NormalInverseGamma.from_inverse_gamma, mu=mu, inverse_gamma=D.InverseGamma(alpha=a, beta=b), delta_inverse=S)
        B.is_type(r, "NormalInverseGamma")
        for n, v in (("mu", mu), ("alpha", a), ("beta", b), ("delta_inverse", S)):
            B.eq(getattr(r, n), v, n)
        B.true(r.nu is None, "nu stays unset")
        B.eq(r.inverse_gamma.alpha, a, "alpha of the way back"), B.eq(r.inverse_gamma.beta, b, "beta of the way back")
    return fn


def wishart(d):
    def fn(B):
        D = B.D
        mu, S = B.vec("mu", d), B.spd("scale", d)
        nu, k = B.real("nu", (d - 1, None)), B.real("kappa", P)
        w = B.call(lambda: D.NormalWishart(mu=mu, lam=k, W=S, nu=nu).wishart)
        B.is_type(w, "Wishart")
        B.eq(w.nu, nu, "degrees of freedom of the Wishart"), B.eq(w.V, S, "scale of the Wishart")
        r = B.call(D.NormalInverseWishart.from_inverse_wishart, mu=mu, kappa=k, inverse_wishart=D.InverseWishart(nu=nu, psi=S))
        B.is_type(r, "NormalInverseWishart")
        for n, v in (("mu", mu), ("kappa", k), ("nu", nu), ("psi", S)):
            B.eq(getattr(r, n), v, n)
        i = B.call(lambda: r.inverse_wishart)
        B.is_type(i, "InverseWishart")
        B.eq(i.nu, nu, "degrees of freedom of the way back"), B.eq(i.psi, S, "scale of the way back")
    return fn


def to_and_fro(m):
    """Conversions in alternation never drift."""
    def fn(B):
        a, b = B.real("alpha", P), B.real("beta", P)
        ig = B.D.InverseGamma(alpha=a, beta=b)
        nu = s2 = None
        for _ in range(m):
            s = B.call(B.D.ScaledInverseChiSquared.from_inverse_gamma, ig)
            if nu is not None:
                B.eq(s.nu, nu, "degrees of freedom"), B.eq(s.sigma2, s2, "scale")
            nu, s2 = s.nu, s.sigma2
            ig = B.call(s.to_inverse_gamma)
            B.eq(ig.alpha, a, "alpha"), B.eq(ig.beta, b, "beta")
    return fn


CASES = []
for c in CONS:
    CASES.append(Case(c.name, scalar(c)))
    CASES.append(Case(c.name + ", integers", scalar(c, ints=True)))
    if c.name in POSITIONAL:
        CASES.append(Case(c.name + ", positional", scalar(c, positional=True)))
    n = len(c.args)
    combos = [((2,),) * n] + [tuple((2,) if i == j else () for i in range(n)) for j in range(n)] if n > 1 else [((2,),)]
    if n > 1:
        combos += [tuple((2, 1) if i == j else (2,) for i in range(n)) for j in range(n)]
    if TIER == "thorough":
        combos = [x for x in itertools.product([(), (2,), (2, 1)], repeat=n) if any(x)]
    for s in combos:
        CASES.append(Case(f"{c.name}, shapes {s}", arrays(c, s)))
    for s in ((11,), (2, 3), (3, 1)):
        CASES.append(Case(f"{c.name}, all of shape {s}", arrays(c, (s,) * n), runs=2))
    if n > 1:
        CASES.append(Case(f"{c.name}, columns of 3 against rows of 4", arrays(c, tuple((4,) if i % 2 else (3, 1) for i in range(n))), runs=2))
    CASES.append(Case(f"{c.name}, integer arrays", arrays(c, ((2,),) * n, True)))
CASES += [Case("Beta.uninformative", fixed_beta), Case("Normal.uninformative, default", fixed_normal), Case("get_beta_param_from_mean_and_alpha", helper), Case("NormalInverseGamma, scalars", nig)]
CASES += [Case(f"Dirichlet.uninformative({k})", dirichlet(k)) for k in (range(1, 6) if TIER != "thorough" else range(1, 9))]
for d in (1, 2, 3):
    CASES += [Case(f"NormalInverseGamma, matrix of dimension {d}", nig_matrix(d)), Case(f"Wishart conversions, dimension {d}", wishart(d))]
CASES += [Case(f"conversions repeated {m} times", to_and_fro(m)) for m in (1, 2, 3, 12)]
