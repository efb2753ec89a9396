"""C10: valid inputs never fail and always give valid distributions."""
from vlib.harness import Case, whole
from vlib.modelspec import ALL, DirichletModel
from vlib.mvspec import *
from vlib.vectors import lift_cases

BOUNDS = ("all real prior parameters and every data summary some dataset (also an empty one) can have; matrices d <= 2 with 1-3 rows, d = 3 with 1-2 rows (thorough: 3) and d = 1 with 12 and 20 rows; up to 30 categories; numbers, whole numbers and arrays (2 and 11 elements, of one side alone, columns against rows), for which also the scipy object has to exist; von Mises priors along the axis also with observations that cancel them; "
          "concrete replays vary the number types (int, float, numpy scalars)")

DOM = {
    "Beta": dict(alpha="pos", beta="pos"), "Gamma": dict(alpha="pos", beta="pos"), "InverseGamma": dict(alpha="pos", beta="pos"),
    "ScaledInverseChiSquared": dict(nu="pos", sigma2="pos"), "Normal": dict(mu="real", sigma="pos"), "Dirichlet": dict(alpha="pos*"),
    "Pareto": dict(x_m="pos", alpha="pos"), "NormalInverseGamma": dict(mu="real", nu="pos", alpha="pos", beta="pos"),
    "NormalGamma": dict(mu="real", lam="pos", alpha="pos", beta="pos"), "GammaProportional": dict(p="pos", q="pos", r="pos", s="pos"),
    "GammaKnownRateProportional": dict(a="pos", b="pos", c="pos"), "BetaProportional": dict(p="pos", q="pos", k="pos"),
    "VonMisesKnownConcentration": dict(a="nonneg", b="real"), "VonMisesKnownDirectionProportional": dict(c="pos", r="real"),
    "BetaBinomial": dict(n="count", alpha="pos", beta="pos"), "BetaNegativeBinomial": dict(n="count", alpha="pos", beta="pos"),
    "BetaGeometric": dict(alpha="pos", beta="pos"), "DirichletMultinomial": dict(n="count", alpha="pos*"),
    "NegativeBinomial": dict(n="pos", p="unit"), "Lomax": dict(alpha="pos", lam="pos"), "CompoundGamma": dict(alpha="pos", beta="pos", lam="pos"),
    "StudentT": dict(mu="real", sigma="pos", nu="pos"),
}


def valid(B, o, counts=None, label=""):
    c = type(o).__name__
    B.true(c in DOM, f"{label}unexpected class {c}")
    for p, dom in DOM.get(c, {}).items():
        v = getattr(o, p)
        if dom == "pos*":
            B.true(len(np.shape(v)) == 1, f"{label}{c}.{p} is a vector")
            for i, x in enumerate(v):
                B.true(x > 0, f"{label}{c}.{p}[{i}] > 0")
        elif dom == "pos":
            B.true(v > 0, f"{label}{c}.{p} > 0")
        elif dom == "nonneg":
            B.true(v >= 0, f"{label}{c}.{p} >= 0")
        elif dom == "unit":
            B.true(v > 0, f"{label}{c}.{p} > 0")
            B.true(v < 1, f"{label}{c}.{p} < 1")
        elif dom == "count":
            B.eq(v, counts, f"{label}{c}.{p} is kept")
        else:
            B.eq(v, v, f"{label}{c}.{p} is a number")
    if hasattr(type(o), "dist"):
        B.call(lambda: o.dist)


def rep(B, d, prior=None):
    """Concrete runs vary how numbers are represented."""
    r = B.choice("representation", ["as is", "numpy scalars", "floats"]) if not B.symbolic else "as is"
    f = {"as is": lambda v: v, "numpy scalars": lambda v: np.asarray(v)[()] if not isinstance(v, (list, np.ndarray)) else np.asarray(v),
         "floats": lambda v: float(v) if not isinstance(v, (list, np.ndarray)) else v}[r]
    return {k: f(v) for k, v in d.items()}


def any_prior(B, make):
    """Concrete runs also use priors with integer parameters."""
    if B.symbolic:
        return make(B)
    B.whole = bool(B.choice("integer prior", [0, 1]))
    p = make(B)
    B.whole = False
    return p


def posterior(m, empty):
    def fn(B):
        prior = any_prior(B, m.prior)
        known = m.known(B)
        data = rep(B, m.empty(B, known) if empty else m.data(B, "", known))
        post = m.call(B, data, known, prior)
        B.is_type(post, m.family)
        valid(B, post)
    return fn


def hyper(B):
    N = B.int("N", 1)
    n = B.int("n", 0, N)
    x = B.int("x", 0, n)
    p = B.call(B.M.hypergeometric_beta_binomial, x_total=x, n=n, prior=B.D.BetaBinomial(n=N, alpha=B.real("a", "pos"), beta=B.real("b", "pos")))
    valid(B, p, N)


def predictive(func, make, args=lambda B: {}, count=None):
    def fn(B):
        d = any_prior(B, make)
        a = args(B)
        p = B.call(getattr(B.M, func), distribution=d, **rep(B, {k: v for k, v in a.items() if k != "one_start"}), **{k: v for k, v in a.items() if k == "one_start"})
        valid(B, p, a.get(count, 1) if count else None)
    return fn


beta = lambda B: B.D.Beta(alpha=B.real("a", "pos"), beta=B.real("b", "pos"))
gamma = lambda B: B.D.Gamma(alpha=B.real("a", "pos"), beta=B.real("b", "pos"))
norm = lambda B: B.D.Normal(mu=B.real("m"), sigma=B.real("s", "pos"))
invg = lambda B: B.D.InverseGamma(alpha=B.real("a", "pos"), beta=B.real("b", "pos"))
sics = lambda B: B.D.ScaledInverseChiSquared(nu=B.real("nu", "pos"), sigma2=B.real("s2", "pos"))
nig = lambda B: B.D.NormalInverseGamma(mu=B.real("m"), nu=B.real("nu", "pos"), alpha=B.real("a", "pos"), beta=B.real("b", "pos"))
ngm = lambda B: B.D.NormalGamma(mu=B.real("m"), lam=B.real("nu", "pos"), alpha=B.real("a", "pos"), beta=B.real("b", "pos"))
diri = lambda B: B.D.Dirichlet(alpha=B.vec("al", 3, "pos"))

PRED = [("binomial_beta_predictive", beta, lambda B: dict(n=B.int("n", 0)), "n"), ("bernoulli_beta_predictive", beta, lambda B: {}, "n"),
        ("negative_binomial_beta_predictive", beta, lambda B: dict(r=B.int("r", 1)), "r"), ("geometric_beta_predictive", beta, lambda B: {}, None),
        ("geometric_beta_predictive", beta, lambda B: dict(one_start=False), None), ("categorical_dirichlet_predictive", diri, lambda B: {}, "n"),
        ("categorical_dirichlet_predictive", diri, lambda B: dict(n=B.int("n", 1)), "n"), ("multinomial_dirichlet_predictive", diri, lambda B: {}, "n"),
        ("multinomial_dirichlet_predictive", diri, lambda B: dict(n=B.int("n", 1)), "n"), ("poisson_gamma_predictive", gamma, lambda B: {}, None),
        ("poisson_gamma_predictive", gamma, lambda B: dict(n=B.real("n", "pos")), None), ("poisson_gamma_predictive", gamma, lambda B: dict(n=B.int("n", 1)), None),
        ("exponential_gamma_predictive", gamma, lambda B: {}, None),
        ("gamma_known_shape_predictive", gamma, lambda B: dict(alpha=B.real("shape", "pos")), None),
        ("normal_known_variance_predictive", norm, lambda B: dict(var=B.real("v", "pos")), None),
        ("normal_known_precision_predictive", norm, lambda B: dict(precision=B.real("v", "pos")), None),
        ("normal_known_mean_predictive", invg, lambda B: dict(mu=B.real("mu")), None), ("normal_known_mean_predictive", sics, lambda B: dict(mu=B.real("mu")), None),
        ("normal_predictive", nig, lambda B: {}, None), ("normal_predictive", ngm, lambda B: {}, None),
        ("normal_normal_inverse_gamma_predictive", nig, lambda B: {}, None)]


# ---- matrices
def lr(d, n):
    def fn(B):
        q = lr_prior(B, d)
        X, y = B.mat("X", n, d), B.vec("y", n)
        lr_hints(B, "D0", d, rows(X), list(y), list(q.mu), q.beta)
        p = B.call(B.M.linear_regression, X=X, y=y, prior=q)
        B.is_type(p, "NormalInverseGamma")
        B.eq(np.shape(p.mu), (d,), "shape of mu")
        B.true(p.alpha > 0, "alpha > 0")
        B.true(p.beta > 0, "beta > 0")
        spd_check(B, p.delta_inverse, d, "delta_inverse")
    return fn


def lrp(d, n):
    def fn(B):
        q = lr_prior(B, d)
        X = B.mat("X", n, d)
        lr_hints(B, "D0", d, rows(X))
        p = B.call(B.M.linear_regression_predictive, X=X, distribution=q)
        B.is_type(p, "MultivariateStudentT")
        B.eq(np.shape(p.mu), (n,), "shape of mu")
        B.true(p.nu > 0, "nu > 0")
        spd_check(B, p.sigma, n, "sigma")
        B.call(lambda: p.dist)
    return fn


def mvn(d, kind, empty=False):
    def fn(B):
        q = mvn_prior(B, d)
        C = B.spd("C", d)
        n = 0 if empty else B.int("n", 1)
        (cov_hints if kind == "cov" else prec_hints)(B, "S0", "C", n, d) if not empty else None
        f = B.M.multivariate_normal_known_covariance if kind == "cov" else B.M.multivariate_normal_known_precision
        p = B.call(f, n=n, x_bar=B.vec("xbar", d), prior=q, **{"cov" if kind == "cov" else "precision": C})
        B.is_type(p, "MultivariateNormal")
        B.eq(np.shape(p.mu), (d,), "shape of mu")
        spd_check(B, p.cov, d, "cov")
    return fn


def mvnp(d, kind):
    def fn(B):
        q = mvn_prior(B, d)
        C = B.spd("C", d)
        if kind == "cov":
            cov_hints(B, "S0", "C", 1, d)
        else:
            prec_hints(B, "S0", "C", 1, d)
        f = B.M.multivariate_normal_known_covariance_predictive if kind == "cov" else B.M.multivariate_normal_known_precision_predictive
        p = B.call(f, distribution=q, **{"cov" if kind == "cov" else "precision": C})
        B.is_type(p, "MultivariateNormal")
        spd_check(B, p.cov, d, "cov")
    return fn


def km(d, n):
    def fn(B):
        q = iw_prior(B, d)
        X, mu = B.mat("X", n, d), B.vec("mu", d)
        v = spd_vecs(B, "psi0", d)
        if v is not None:
            sum_hints(B, v + [(1, [X[i, j] - mu[j] for j in range(d)]) for i in range(n)], d)
        p = B.call(B.M.multivariate_normal_known_mean, X=X, mu=mu, prior=q)
        B.is_type(p, "InverseWishart")
        B.true(p.nu > d - 1, "nu > d - 1")
        spd_check(B, p.psi, d, "psi")
    return fn


def both(d, n):
    def fn(B):
        q = niw_prior(B, d)
        X = B.mat("X", n, d)
        v = spd_vecs(B, "psi0", d)
        if v is not None:
            k = q.kappa
            xb = [sum((X[i, j] for i in range(1, n)), X[0, j]) / n for j in range(d)]
            one = [(w, c) for w, c in v] + [(1, [X[i, j] - xb[j] for j in range(d)]) for i in range(n)]
            last = [xb[j] - q.mu[j] for j in range(d)]
            sum_hints(B, one, d, k + n)
            for m in range(1, d + 1):
                for J in itertools.combinations(range(len(one)), m - 1):
                    W = [[one[j][1][i] for j in J] + [last[i]] for i in range(m)]
                    B.hint(_prod_([one[j][0] for j in J]) * n * k, minor(W, m))
        p = B.call(B.M.multivariate_normal, X=X, prior=q)
        B.is_type(p, "NormalInverseWishart")
        B.true(p.kappa > 0, "kappa > 0")
        B.true(p.nu > d - 1, "nu > d - 1")
        B.eq(np.shape(p.mu), (d,), "shape of mu")
        spd_check(B, p.psi, d, "psi")
    return fn


def _prod_(xs):
    r = 1
    for x in xs:
        r = r * x
    return r


def minor(W, m):
    from vlib.mvspec import _minor
    return _minor(W, tuple(range(m)), tuple(range(m)))


def niwp(d):
    def fn(B):
        q = niw_prior(B, d)
        p = B.call(B.M.multivariate_normal_predictive, distribution=q)
        B.is_type(p, "MultivariateStudentT")
        B.true(p.nu > 0, "nu > 0")
        spd_check(B, p.sigma, d, "sigma")
        B.call(lambda: p.dist)
    return fn


def axis(direction, cancel=False):
    """Priors along an axis, whose sine and cosine are exact: observations can then cancel the prior exactly."""
    def fn(B):
        a, kappa = B.real("a0", "nonneg"), B.real("kappa", "pos")
        n = B.int("n", 0)
        if cancel:
            B.assume(a <= 1)
            kappa, n, c, s = 1, 1, -a, 0 * a
        else:
            c, s = B.real("cbar", (-1, 1)), B.real("sbar", (-1, 1))
            B.assume(c * c + s * s <= 1)
        p = B.call(B.M.von_mises_known_concentration, cos_total=n * c, sin_total=n * s, n=n, kappa=kappa, prior=B.D.VonMisesKnownConcentration(a=a, b=direction))
        B.is_type(p, "VonMisesKnownConcentration")
        valid(B, p)
    return fn


R = 10
CASES = [Case(f"von_mises_known_concentration, prior along the axis{', integer' if isinstance(b, int) else ''}{', cancelled' if x else ''}", axis(b, x), runs=R) for b in (0.0, 0) for x in (False, True)]
CASES += [Case(m.name, posterior(m, False), runs=R) for m in ALL] + [Case(m.name + " empty", posterior(m, True), runs=R) for m in ALL if m.empty is not None]
CASES += [Case("hypergeometric_beta_binomial", hyper)]
for f in ("categorical_dirichlet", "multinomial_dirichlet"):
    for k, kind in ((2, "array"), (5, "array"), (30, "array"), (3, "list"), (3, "list-prior"), (3, "list-data")):
        m = DirichletModel(f, k, kind)
        CASES.append(Case(m.name, posterior(m, False), runs=R))
for i, (f, mk, ar, ct) in enumerate(PRED):
    CASES.append(Case(f"{f} #{i}", predictive(f, mk, ar, ct), runs=R))
for n in (12, 20):
    CASES += [Case(f"linear_regression[d=1,n={n}]", lr(1, n), timeout=400), Case(f"known_mean[d=1,n={n}]", km(1, n)), Case(f"multivariate_normal[d=1,n={n}]", both(1, n))]
CASES.append(Case("known_mean[d=1,n=40]", km(1, 40)))
for d in (1, 2, 3):
    for k in ("cov", "precision"):
        CASES.append(Case(f"known {k}[d={d}]", mvn(d, k), timeout=400))
        CASES.append(Case(f"known {k} empty[d={d}]", mvn(d, k, True), timeout=400))
        CASES.append(Case(f"known {k} predictive[d={d}]", mvnp(d, k)))
    CASES.append(Case(f"multivariate_normal_predictive[d={d}]", niwp(d)))
    for n in (1, 2, 3):
        t = "quick" if d < 3 or n < 3 else "thorough"
        CASES.append(Case(f"linear_regression[d={d},n={n}]", lr(d, n), tier="quick" if d * n <= 6 else "thorough", timeout=400))
        CASES.append(Case(f"linear_regression_predictive[d={d},n={n}]", lrp(d, n), tier=t))
        CASES.append(Case(f"known_mean[d={d},n={n}]", km(d, n), tier=t))
        CASES.append(Case(f"multivariate_normal[d={d},n={n}]", both(d, n), tier=t))
for m in ALL:
    if getattr(m, "kind", "array") == "array":
        CASES += lift_cases(Case, m.name, posterior(m, False), vector=not m.scalar, size=4 if m.func == "uniform_pareto" else 11, dist=True)
        if m.empty is not None:
            CASES += lift_cases(Case, m.name + " empty", posterior(m, True), vector=not m.scalar, size=4 if m.func == "uniform_pareto" else 11, dist=True)
for i, (f, mk, ar, ct) in enumerate(PRED):
    CASES += lift_cases(Case, f"{f} #{i}", predictive(f, mk, ar, ct), prior=lambda n: n in ("a", "b", "nu", "s", "s2") or n.startswith("al"), vector="dirichlet" in f, dist="dirichlet" not in f)
for d, n in ((1, 1), (1, 3), (2, 2)):
    CASES += [Case(f"integers: linear_regression[d={d},n={n}]", whole(lr(d, n)), timeout=400), Case(f"integers: linear_regression_predictive[d={d},n={n}]", whole(lrp(d, n))),
              Case(f"integers: known_mean[d={d},n={n}]", whole(km(d, n))), Case(f"integers: multivariate_normal[d={d},n={n}]", whole(both(d, n)))]
