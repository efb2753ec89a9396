"""C14: a routine supplied by the caller is the one the result is computed with.

Every replacement obeys the algebraic laws of the routine it replaces (so that a rearranged computation gives the same
result) and is still distinguishable from it: logarithm and log-gamma scaled by c (a logarithm to another base), the
angle functions in another unit u, a scaled Bessel function, minimum for maximum, scaled identity and outer product.
A matrix inverse is a true inverse, while the built-in equation solvers refuse the matrices (arrays of objects)."""
import numpy as np

from vlib import npx
from vlib.harness import Case
from vlib.mvspec import *
from vlib.spec import *

BOUNDS = ("all real inputs, all scale factors c > 0 and angle units u > 0 of the replacement routines; matrices of dimension 1 and 2 (thorough 3) with up to 2 rows; "
          "samples: 2 draws of 1x1 and 2x2 matrices")


class Refuse:
    """Built-in inverse and equation solvers fail while this is active."""

    def __init__(self, B):
        self.B = B

    def __enter__(self):
        if self.B.symbolic:
            npx.POISON.append(1)
            return
        import scipy.linalg
        self.saved = []

        def refuse(*a, **k):
            raise TypeError("built-in linear algebra used in place of the supplied routine")

        for m in (np.linalg, scipy.linalg):
            for n in ("inv", "pinv", "pinvh", "solve", "lstsq", "cho_solve", "solve_triangular", "matrix_power", "tensorinv"):
                if hasattr(m, n):
                    self.saved.append((m, n, getattr(m, n)))
                    setattr(m, n, refuse)

    def __exit__(self, *a):
        if self.B.symbolic:
            npx.POISON.pop()
            return
        for m, n, f in self.saved:
            setattr(m, n, f)


REAL_INV = np.linalg.inv


def objects(B, m):
    return m if B.symbolic else np.asarray(m).astype(object)


def supplied_inv(B, scale=1):
    if B.symbolic:
        return lambda m: npx.wrap(npx.inv(m) * scale)
    return lambda m: (REAL_INV(np.asarray(m).astype(float)) * scale).astype(object)


def scaled_ln(B, c):
    return (lambda x: npx.ew(lambda v: c * npx._log1(v), x)) if B.symbolic else (lambda x: c * np.log(x))


def scaled_gammaln(B, c):
    if B.symbolic:
        return lambda x: npx.ew(lambda v: c * npx._lgamma(v), x)
    from scipy.special import gammaln
    return lambda x: c * gammaln(x)


def scaled_i0(B, k):
    if B.symbolic:
        from vlib import stx
        return lambda x: npx.ew(lambda v: k * v, stx.SPECIAL["i0"](x))
    from scipy.special import i0
    return lambda x: k * i0(x)


# ---- inverse
def lr(d, n):
    def fn(B):
        pr = lr_prior(B, d)
        X, y = (B.mat("X", n, d), B.vec("y", n)) if n else (np.zeros((0, d)), np.zeros(0))
        lr_hints(B, "D0", d, rows(X))
        with Refuse(B):
            p = B.call(B.M.linear_regression, X=objects(B, X), y=objects(B, y), prior=B.D.NormalInverseGamma(
                mu=objects(B, pr.mu), delta_inverse=objects(B, pr.delta_inverse), alpha=pr.alpha, beta=pr.beta), inv=supplied_inv(B))
        lr_check(B, p, pr, rows(X), list(y), d)
    return fn


def mvn(func, d):
    def fn(B):
        pr = mvn_prior(B, d)
        n, xb = B.int("n", 0), B.vec("xbar", d)
        K = B.spd("K", d)
        cov = func.endswith("covariance")
        (cov_hints if cov else prec_hints)(B, "S0", "K", n, d)
        prior = B.D.MultivariateNormal(mu=objects(B, pr.mu), cov=objects(B, pr.cov))
        with Refuse(B):
            p = B.call(getattr(B.M, func), n=n, x_bar=objects(B, xb), prior=prior, inv=supplied_inv(B), **{"cov" if cov else "precision": objects(B, K)})
        mvn_check(B, p, pr, n, xb, lol(B.inv(K)) if cov else lol(K), d)
    return fn


def predictive_precision(d):
    def fn(B):
        q, P, c = mvn_prior(B, d), B.spd("P", d), B.real("c", "pos")
        dist = B.D.MultivariateNormal(mu=objects(B, q.mu), cov=objects(B, q.cov))
        with Refuse(B):
            p = B.call(B.M.multivariate_normal_known_precision_predictive, distribution=dist, precision=objects(B, P), inv=supplied_inv(B))
        Pi = B.inv(P)
        B.eq(p.cov, B.arr(addm(lol(q.cov), lol(Pi))), "covariance with a true inverse")
        with Refuse(B):
            p = B.call(B.M.multivariate_normal_known_precision_predictive, distribution=dist, precision=objects(B, P), inv=supplied_inv(B, c))
        B.eq(p.cov, B.arr(addm(lol(q.cov), lol(Pi), c)), "covariance with a scaled inverse")
    return fn


def wishart_inverse(d, size):
    def fn(B):
        w = B.D.NormalWishart(mu=B.vec("mu", d), lam=B.real("lam", "pos"), W=B.spd("W", d), nu=B.real("nu", (d - 1, None)))
        c = B.real("c", "pos")
        kw = {} if size is None else dict(size=size)
        v = B.call(w.sample_variance, random_state=5, **kw)
        v1 = B.call(w.sample_variance, random_state=5, inv=supplied_inv(B, c), **kw)
        B.eq(np.shape(v1), np.shape(v), "shape")
        B.eq(v1, B.arr(np.asarray(v, dtype=object) * c), "samples with a scaled inverse")
    return fn


# ---- identity, outer product, maximum
def regression_eye(d, n):
    def fn(B):
        q = lr_prior(B, d)
        X, c = B.mat("X", n, d) if n else np.zeros((0, d)), B.real("c", "pos")
        p = B.call(B.M.linear_regression_predictive, distribution=q, X=X, eye=lambda k, *a, **kw: B.arr([[c * (1 if i == j else 0) for j in range(n)] for i in range(n)]))
        XD = mm(rows(X), lol(q.delta_inverse))
        if n == 0:
            B.eq(np.shape(p.sigma), (0, 0), "shape of the scale matrix")
            return
        G = mm(XD, [list(r) for r in zip(*rows(X))])
        B.eq(p.sigma, B.arr([[(c * (1 if i == j else 0) + G[i][j]) * q.beta / q.alpha for j in range(n)] for i in range(n)]), "scale matrix with a scaled identity")
        B.eq(p.mu, B.arr(mv(rows(X), q.mu)), "location")
    return fn


def mvn_outer(d, n):
    def fn(B):
        pr, c = niw_prior(B, d), B.real("c", "pos")
        X = B.mat("X", n, d) if n else np.zeros((0, d))
        p = B.call(B.M.multivariate_normal, X=X, prior=pr, outer=lambda a, b: B.arr([[c * x * y for y in b] for x in a]))
        if n == 0:
            B.eq(p.psi, pr.psi, "psi without observations")
            return
        m = [s / n for s in colsum(rows(X), d)]
        R = [[r[j] - m[j] for j in range(d)] for r in rows(X)]
        C = gram(R, d)
        k = n * pr.kappa / (pr.kappa + n)
        for i in range(d):
            for j in range(d):
                # the scatter of the data may be computed with the supplied routine or without it
                r = p.psi[i, j] - pr.psi[i, j] - c * k * (m[i] - pr.mu[i]) * (m[j] - pr.mu[j])
                B.eq((r - C[i][j]) * (r - c * C[i][j]), 0, f"psi with a scaled outer product[{i}, {j}]")
    return fn


def pareto_max(vector):
    def fn(B):
        n = B.int("n", 0)
        if vector:
            x, y = [B.real(f"x{i}", "pos") for i in range(2)], [B.real(f"y{i}", "pos") for i in range(2)]
            low = lambda a, b: B.arr([-B.max(-p, -q) for p, q in zip(a, b)])
            p = B.call(B.M.uniform_pareto, x_max=B.arr(x), n=n, prior=B.D.Pareto(x_m=B.arr(y), alpha=B.real("alpha0", "pos")), max_fn=low)
            B.eq(p.x_m, B.arr([-B.max(-a, -b) for a, b in zip(x, y)]), "lower bound with minimum in place of maximum")
            return
        x, y = B.real("x", "pos"), B.real("y", "pos")
        p = B.call(B.M.uniform_pareto, x_max=x, n=n, prior=B.D.Pareto(x_m=y, alpha=B.real("alpha0", "pos")), max_fn=lambda a, b: -B.max(-a, -b))
        B.eq(p.x_m, -B.max(-x, -y), "lower bound with minimum in place of maximum")
    return fn


# ---- logarithm, log-gamma, Bessel, angles
# arrangements of parameters and arguments: both numbers, one of the two arrays, arrays of equal length, column against row
SHAPES = {"numbers": ((), ()), "vector parameters": ((2,), ()), "vector arguments": ((), (2,)), "vectors": ((2,), (2,)),
          "column of parameters": ((2, 1), (2,)), "one-element parameters": ((1,), ()), "one-element arguments": ((), (1,))}


def shaped(B, name, dom, shape):
    if shape == ():
        return B.real(name, dom)
    v = [B.real(f"{name}_{i}", dom) for i in range(int(np.prod(shape)))]
    return B.arr(v if len(shape) == 1 else [[x] for x in v])


def elements(xs, shape):
    """Element by element: dicts of the entries of the broadcast values."""
    full = {k: np.broadcast_to(np.asarray(v, dtype=object), shape) for k, v in xs.items()}
    for i in np.ndindex(*shape):
        yield i, type("Entry", (), {k: v[i] for k, v in full.items()})


def likelihood(cls, method, pdom, adom, routines, law, mixed=None):
    """The difference of the log likelihoods of two arguments, with all supplied routines and (mixed) with some of them."""
    def make(arrangement):
        def fn(B):
            sp, sa = SHAPES[arrangement]
            shape = np.broadcast_shapes(sp, sa)
            ps = {k: shaped(B, k + "_", d, sp) for k, d in pdom.items()}
            th = [{k: shaped(B, f"{k}{t}", d, sa) for k, d in adom.items()} for t in range(2)]
            g = getattr(B.D, cls)(**ps)
            for names in [tuple(routines)] + [(r,) for r in routines if len(routines) > 1]:
                sc = {r: B.real("f_" + r, "pos") for r in routines}
                kw = {r: routines[r](B, sc[r]) for r in names}
                v = [B.call(getattr(g, method), **t, **kw) for t in th]
                B.eq(np.shape(v[0]), shape, "shape")
                unit = type("Factors", (), {r: sc[r] if r in names else 1 for r in routines})
                v = [np.broadcast_to(np.asarray(x, dtype=object), shape) for x in v]
                for (i, p), (_, t0), (_, t1) in zip(elements(ps, shape), elements(th[0], shape), elements(th[1], shape)):
                    B.eq(v[0][i] - v[1][i], law(B, p, t0, unit) - law(B, p, t1, unit), f"difference of log likelihoods with {', '.join(names)}")
        return fn
    return [Case(f"{cls}: {', '.join(routines)}: {a}", make(a)) for a in SHAPES]


LIKELIHOODS = likelihood(
    "GammaKnownRateProportional", "approx_log_likelihood", dict(a="pos", b="pos", c="pos"), dict(alpha="pos", beta="pos"), dict(ln=scaled_ln, gammaln=scaled_gammaln),
    lambda B, p, t, f: f.ln * ((t.alpha - 1) * B.ln(p.a) + t.alpha * p.c * B.ln(t.beta)) - p.b * f.gammaln * B.lgamma(t.alpha))
LIKELIHOODS += likelihood(
    "GammaProportional", "approx_log_likelihood", dict(p="pos", q="pos", r="pos", s="pos"), dict(alpha="pos", beta="pos"), dict(ln=scaled_ln, gammaln=scaled_gammaln),
    lambda B, p, t, f: f.ln * (t.alpha * B.ln(p.p) + p.s * t.alpha * B.ln(t.beta)) - p.q * t.beta - p.r * f.gammaln * B.lgamma(t.alpha))
LIKELIHOODS += likelihood(
    "BetaProportional", "approx_log_likelihood", dict(p="unit", q="unit", k="pos"), dict(alpha="pos", beta="pos"), dict(ln=scaled_ln, gammaln=scaled_gammaln),
    lambda B, p, t, f: p.k * f.gammaln * (B.lgamma(t.alpha + t.beta) - B.lgamma(t.alpha) - B.lgamma(t.beta)) + f.ln * (t.alpha * B.ln(p.p) + t.beta * B.ln(p.q)))
LIKELIHOODS += likelihood(
    "VonMisesKnownDirectionProportional", "approx_log_likelihood", dict(c="pos", r="real"), dict(kappa="pos"), dict(ln=scaled_ln, i0=scaled_i0),
    lambda B, p, t, f: t.kappa * p.r - p.c * f.ln * (B.ln(f.i0) + B.lni0(t.kappa)))


def direction(B):
    c, k = B.real("c", "pos"), B.real("k", "pos")
    g = B.D.VonMisesKnownDirectionProportional(c=B.real("cc", "pos"), r=B.real("r"))
    t = B.real("kappa", "pos")
    v = B.call(g.approx_log_likelihood, kappa=t, ln=scaled_ln(B, c), i0=scaled_i0(B, k))
    w = B.call(g.approx_log_likelihood, kappa=t, ln=scaled_ln(B, c))
    B.eq(w - v, g.c * c * B.ln(k), "effect of the scaled Bessel function")


def angle(B, u, which):
    if B.symbolic:
        f = {"sin": lambda x: npx.ssym(u * x).sin(), "cos": lambda x: npx.ssym(u * x).cos(), "arctan2": lambda y, x: npx._arctan2(npx.ssym(y), npx.ssym(x)) / u}[which]
        return lambda *a: npx.ew(f, *a)
    return {"sin": lambda x: np.sin(u * x), "cos": lambda x: np.cos(u * x), "arctan2": lambda y, x: np.arctan2(y, x) / u}[which]


def concentration_loglik(arrangement):
    def fn(B):
        sp, sa = SHAPES[arrangement]
        shape = np.broadcast_shapes(sp, sa)
        c, k, u = B.real("f_ln", "pos"), B.real("f_i0", "pos"), B.real("unit", "pos")
        ps = dict(a=shaped(B, "a_", "pos", sp), b=shaped(B, "b_", "angle", sp))
        th = [dict(mu=shaped(B, f"mu{i}", "angle", sa)) for i in range(2)]
        g = B.D.VonMisesKnownConcentration(**ps)
        cos, ln, i0 = angle(B, u, "cos"), scaled_ln(B, c), scaled_i0(B, k)
        f = lambda t, **kw: np.broadcast_to(np.asarray(B.call(g.log_likelihood, **t, **kw), dtype=object), shape)
        v = [f(t, cos=cos, ln=ln, i0=i0) for t in th]
        w1, w2, w3 = f(th[0], cos=cos, ln=ln), f(th[0], cos=cos, i0=i0), f(th[0], cos=cos)
        for (i, p), (_, t0), (_, t1) in zip(elements(ps, shape), elements(th[0], shape), elements(th[1], shape)):
            B.eq(v[0][i] - v[1][i], p.a * (B.cos(u * (t0.mu - p.b)) - B.cos(u * (t1.mu - p.b))), "difference of log likelihoods")
            B.eq(w1[i] - v[0][i], c * B.ln(k), "effect of the scaled Bessel function")
            B.eq(w3[i] - w2[i], B.ln(k), "effect of the scaled Bessel function under the natural logarithm")
    return fn


def concentration_angles(arrangement):
    def fn(B):
        sp, sa = SHAPES[arrangement]
        shape = np.broadcast_shapes(sp, sa)
        u = B.real("unit", "pos")
        pr = dict(a=shaped(B, "a0", "pos", sp), b=shaped(B, "b0", "angle", sp))
        da = dict(sin_total=shaped(B, "s", "real", sa), cos_total=shaped(B, "c", "real", sa), kappa=shaped(B, "k", "pos", sa))
        full = []
        for (i, q), (_, t) in zip(elements(pr, shape), elements(da, shape)):
            S, C = q.a * B.sin(u * q.b) + t.kappa * t.sin_total, q.a * B.cos(u * q.b) + t.kappa * t.cos_total
            B.assume(S * S + C * C > 0)
            full.append((i, S, C))
        p = B.call(B.M.von_mises_known_concentration, **da, n=B.int("n", 0), prior=B.D.VonMisesKnownConcentration(**pr),
                   sin=angle(B, u, "sin"), cos=angle(B, u, "cos"), arctan2=angle(B, u, "arctan2"))
        pa, pb = (np.broadcast_to(np.asarray(x, dtype=object), shape) for x in (p.a, p.b))
        for i, S, C in full:
            B.eq(pa[i] * pa[i], S * S + C * C, "concentration")
            B.eq(pa[i] * B.sin(u * pb[i]), S, "sine of the direction")
            B.eq(pa[i] * B.cos(u * pb[i]), C, "cosine of the direction")
    return fn


def pareto_ln(arrangement):
    def fn(B):
        sp, sa = SHAPES[arrangement]
        shape = np.broadcast_shapes(sp, sa)
        c = B.real("f_ln", "pos")
        n = B.int("n", 0)
        pr = dict(alpha=shaped(B, "alpha0", "pos", sp), beta=shaped(B, "beta0", "pos", sp))
        x_m, e = shaped(B, "x_m", "pos", sa), shaped(B, "excess", "nonneg", sa)
        if sa == ():
            t = n * c * B.ln(x_m) + e
        else:
            t = B.arr([n * c * B.ln(x) + y for x, y in zip(x_m, e)])
        p = B.call(B.M.pareto_gamma, n=n, ln_x_total=t, x_m=x_m, prior=B.D.Gamma(**pr), ln=scaled_ln(B, c))
        pa, pb = (np.broadcast_to(np.asarray(x, dtype=object), shape) for x in (p.alpha, p.beta))
        for (i, q), (_, t) in zip(elements(pr, shape), elements(dict(e=e), shape)):
            B.eq(pa[i], q.alpha + n, "alpha")
            B.eq(pb[i], q.beta + t.e, "beta with a logarithm to another base")
    return fn


CASES = [Case("VonMisesKnownDirectionProportional: scaled Bessel function", direction),
         *LIKELIHOODS,
         *[Case(f"{n}: {a}", f(a)) for a in SHAPES for n, f in (("pareto_gamma: ln", pareto_ln), ("VonMisesKnownConcentration: cos, ln, i0", concentration_loglik),
                                                       ("von_mises_known_concentration: sin, cos, arctan2", concentration_angles))],
         Case("uniform_pareto: max_fn", pareto_max(False)), Case("uniform_pareto: max_fn, arrays", pareto_max(True))]
for d in (1, 2, 3):
    t = "quick" if d < 3 else "thorough"
    for n in (0, 1, 2):
        CASES += [Case(f"linear_regression[d={d},n={n}]: inv", lr(d, n), tier=t, timeout=400), Case(f"linear_regression_predictive[d={d},n={n}]: eye", regression_eye(d, n), tier=t),
                  Case(f"multivariate_normal[d={d},n={n}]: outer", mvn_outer(d, n), tier=t)]
    for f in ("multivariate_normal_known_covariance", "multivariate_normal_known_precision"):
        CASES.append(Case(f"{f}[d={d}]: inv", mvn(f, d), tier=t, timeout=400))
    CASES.append(Case(f"multivariate_normal_known_precision_predictive[d={d}]: inv", predictive_precision(d), tier=t))
    for size in (None, 1, 2):
        if d < 3:
            CASES.append(Case(f"NormalWishart.sample_variance[d={d},size={size}]: inv", wishart_inverse(d, size), tier=t))
