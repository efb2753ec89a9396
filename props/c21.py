"""C21: the joint mean / variance samplers draw from the stated hierarchy."""
import numpy as np

from vlib import law
from vlib.harness import TIER, Case, Stop, whole

BOUNDS = ("all parameter values and all noise values; 1 to 3, 7, 11 and 12 draws per call (thorough 5); scalar and 1- to 3-dimensional means and matrices (regression coefficients, thorough all: 4), parameter vectors of 2; whole-number parameters; "
          "random state omitted, None, an integer, a numpy integer, a RandomState or a Generator; one call or two calls sharing the state")
ASSUMPTIONS = [
    "a base draw is identified by its stream (seed or generator) and its position in it: two draws are independent exactly when these differ; the integer-seeded RandomState that scipy builds and the one numpy builds from the same seed are the same stream",
    "samplers are judged in the form: variance from one gamma (or Wishart) draw, mean affine in normal noise; another construction is reported as undecided unless statistics on real draws refute it",
]

STATES = ["omitted", "none", "int", "np int", "RandomState", "Generator"]


def state(B, kind, seed):
    return {"none": lambda: None, "int": lambda: seed, "np int": lambda: np.int64(seed), "RandomState": lambda: B.RandomState(seed),
            "Generator": lambda: B.default_rng(seed)}[kind]()


class Raw:
    """Concrete calls whose numerical singularities are handled by the caller."""

    def __init__(self, B):
        self.B, self.true = B, B.true

    def call(self, f, *a, **k):
        try:
            return f(*a, **k)
        except np.linalg.LinAlgError:
            raise
        except Exception as e:
            self.B.failures.append(f"raises {type(e).__name__}: {str(e)[:200]}")
            raise Stop


class Model:
    """One hierarchy: parameters, law of the variance, conditional law of the mean."""

    def nig(self, B, vec):
        p = lambda n, dom="pos": B.arr([B.real(f"{n}{i}", dom) for i in range(2)]) if vec else B.real(n, dom)
        q = self
        q.mu, q.k, q.alpha, q.beta = p("mu", "real"), p("k"), p("alpha"), p("beta")
        return B.D.NormalInverseGamma(mu=q.mu, nu=q.k, alpha=q.alpha, beta=q.beta)

    def ng(self, B, vec):
        p = lambda n, dom="pos": B.arr([B.real(f"{n}{i}", dom) for i in range(2)]) if vec else B.real(n, dom)
        q = self
        q.mu, q.k, q.alpha, q.beta = p("mu", "real"), p("k"), p("alpha"), p("beta")
        return B.D.NormalGamma(mu=q.mu, lam=q.k, alpha=q.alpha, beta=q.beta)

    def lr(self, B, d):
        q = self
        q.mu, q.delta, q.alpha, q.beta = B.vec("mu", d), B.spd("delta", d), B.real("alpha", "pos"), B.real("beta", "pos")
        return B.D.NormalInverseGamma(mu=q.mu, delta_inverse=q.delta, alpha=q.alpha, beta=q.beta)

    def nw(self, B, d):
        q = self
        q.mu, q.k, q.nu, q.W = B.vec("mu", d), B.real("k", "pos"), B.real("nu", (d - 1, None)), B.spd("W", d)
        law.drawable(B, q.nu, d)
        return B.D.NormalWishart(mu=q.mu, lam=q.k, W=q.W, nu=q.nu)

    def niw(self, B, d):
        q = self
        q.mu, q.k, q.nu, q.psi = B.vec("mu", d), B.real("k", "pos"), B.real("nu", (d - 1, None)), B.spd("W", d)
        law.drawable(B, q.nu, d)
        return B.D.NormalInverseWishart(mu=q.mu, kappa=q.k, nu=q.nu, psi=q.psi)


def call(B, d, what, size, kw, pair):
    if what == "variance":
        return None, B.call(d.sample_variance, size=size, **kw)
    f = d.sample_mean if what == "mean" else d.sample_beta
    if pair:
        r = B.call(f, size=size, return_variance=True, **kw)
        B.true(isinstance(r, tuple) and len(r) == 2, "return_variance gives the pair (mean, variance)")
        return r if isinstance(r, tuple) and len(r) == 2 else (r, None)
    return B.call(f, size=size, **kw), None


# ---- scalar hierarchies
def univariate(kind, what, pair, st, n, vec=None, twice=False):
    """vec: None (numbers), or the sample shape for parameter vectors of 2."""
    size = n if vec is None else vec
    shape = (n,) if vec is None else tuple(np.atleast_1d(vec))

    def fn(B):
        q = Model()
        d = getattr(q, kind)(B, vec is not None)
        at = (lambda v, ix: v) if vec is None else (lambda v, ix: v[ix[-1]])
        if not B.symbolic:
            return scalar_statistics(B, q, d, at, shape)
        kw = {} if st == "omitted" else {"random_state": state(B, st, 11)}
        groups = []
        results = [call(B, d, what, size, kw, pair) for _ in range(2 if twice else 1)]
        tab = law.NoiseTable()
        for m, v in results:
            for r in (m, v):
                if r is not None:
                    B.true(np.shape(r) == shape, f"shape {np.shape(r)} instead of {shape}")
                    if np.shape(r) != shape:
                        return
            for ix in np.ndindex(shape):
                label = f"draw {list(ix)}"
                zs = []
                w = v[ix] if v is not None else None
                if m is not None:
                    cov, zs = law.normal_given(B, tab, [m[ix]], [at(q.mu, ix)], f"{label} mean")
                    if cov is None:
                        return
                    c = cov[0][0] * at(q.k, ix)
                    if w is not None:
                        B.eq(c, w, f"{label}: variance of the mean times its precision against the returned variance")
                    w = c
                groups.append(zs + law.gamma_scaled(B, tab, w, at(q.alpha, ix), at(q.beta, ix), f"{label} variance"))
                if v is not None and m is not None:
                    groups[-1] += [z for z in tab.used(v[ix]) if z not in groups[-1]]
        for g in groups:
            law.separate(B, [[z] for z in g], "mean and variance")
        law.separate(B, groups, "different draws")

    def scalar_statistics(B, q, d, at, shape):
        B.assume(np.min(q.alpha) >= 0.2)
        np.random.seed(B.rng.randrange(2 ** 31) if B.rng else 3)
        one = B.RandomState(5) if st == "RandomState" else B.default_rng(5)
        count = [0]

        def sample():
            count[0] += 1
            kw = {} if st == "omitted" else {"random_state": one if st in ("RandomState", "Generator") else state(B, st, 1000 + 7919 * count[0])}
            row = []
            for _ in range(2 if twice and st not in ("int", "np int") else 1):
                m, v = call(B, d, what, size, kw, pair)
                for z in (m, v):
                    if z is not None:
                        B.true(np.shape(z) == shape, f"shape {np.shape(z)} instead of {shape}")
                        if np.shape(z) != shape:
                            raise Stop
                for ix in np.ndindex(shape):
                    mu, k, a, b = (at(x, ix) for x in (q.mu, q.k, q.alpha, q.beta))
                    if v is not None:
                        row.append(law.gamma_u(b / v[ix], a))
                        if m is not None:
                            row.append(law.normal_u((m[ix] - mu) / np.sqrt(v[ix] / k)))
                    else:
                        row.append(law.t_u((m[ix] - mu) / np.sqrt(b / (a * k)), 2 * a))
            return row

        law.judge(B, sample, None)
    return fn


# ---- matrix hierarchies
def matrix(kind, what, pair, st, n, d, twice=False):
    def fn(B):
        q = Model()
        D = getattr(q, kind)(B, d)
        vshape = (n,) if kind == "lr" else (n, d, d)
        if not B.symbolic:
            return statistics(B, q, D, vshape)
        kw = {} if st == "omitted" else {"random_state": state(B, st, 11)}
        results = [call(B, D, what, n, kw, pair) for _ in range(2 if twice else 1)]
        tab = law.NoiseTable()
        groups = []
        for m, v in results:
            if m is not None:
                # scipy drops the only dimension of one-dimensional normal draws
                B.true(np.shape(m) == (n, d) or d == 1 and np.shape(m) == (n,), f"mean: shape {np.shape(m)}")
                if np.size(m) != n * d:
                    return
                m = np.reshape(np.asarray(m, dtype=object), (n, d))
            if v is not None:
                B.true(np.shape(v) == vshape, f"variance: shape {np.shape(v)} instead of {vshape}")
                if np.shape(v) != vshape:
                    return
            for i in range(n):
                label = f"draw {i}"
                zs = []
                w = v[i] if v is not None else None
                if m is not None:
                    cov, zs = law.normal_given(B, tab, list(m[i]), q.mu, f"{label} mean")
                    if cov is None:
                        return
                    if kind == "lr":
                        c = cov[0][0] / q.delta[0][0]
                        for a in range(d):
                            for b in range(a + 1):
                                B.eq(cov[a][b], c * q.delta[a][b], f"{label}: covariance of the mean [{a},{b}]")
                                if w is not None:
                                    B.eq(cov[a][b], w * q.delta[a][b], f"{label}: covariance of the mean [{a},{b}] against the returned variance")
                    else:
                        c = [[cov[a][b] * q.k for b in range(d)] for a in range(d)]
                        if w is not None:
                            B.eq(B.arr(c), w, f"{label}: covariance of the mean times its precision against the returned variance")
                    w = c
                if kind == "lr":
                    us = law.gamma_scaled(B, tab, w, q.alpha, q.beta, f"{label} variance")
                elif kind == "nw":
                    us = law.wishart_inverse(B, tab, w, q.nu, scale=q.W, label=f"{label} variance")
                else:
                    us = law.wishart_inverse(B, tab, w, q.nu, inverse_scale=q.psi, label=f"{label} variance")
                g = zs + us
                if v is not None and m is not None:
                    g += [z for z in tab.used(v[i]) if z not in g]
                groups.append(g)
        for g in groups:
            law.separate(B, [[z] for z in g], "mean and variance")
        law.separate(B, groups, "different draws")

    def statistics(B, q, D, vshape):
        B.assume(kind != "lr" or q.alpha >= 0.2)
        B.assume(kind == "lr" or q.nu >= d + 1)
        np.random.seed(B.rng.randrange(2 ** 31) if B.rng else 3)
        one = B.RandomState(5) if st == "RandomState" else B.default_rng(5)
        count = [0]

        def sample():
            count[0] += 1
            kw = {} if st == "omitted" else {"random_state": one if st in ("RandomState", "Generator") else state(B, st, 1000 + 7919 * count[0])}
            row = []
            try:
                for _ in range(2 if twice and st not in ("int", "np int") else 1):
                    m, v = call(Raw(B), D, what, n, kw, pair)
                    if m is not None:
                        B.true(np.size(m) == n * d, f"mean: shape {np.shape(m)}")
                        m = np.reshape(m, (n, d))
                    if v is not None:
                        B.true(np.shape(v) == vshape, f"variance: shape {np.shape(v)}")
                        if np.shape(v) != vshape:
                            raise Stop
                    for i in range(n):
                        if v is not None:
                            if kind == "lr":
                                row.append(law.gamma_u(q.beta / v[i], q.alpha))
                            else:
                                row += law.wishart_u(np.linalg.inv(v[i]), q.nu, q.W if kind == "nw" else np.linalg.inv(q.psi))
                            if m is not None:
                                row += list(law.normal_u(law.whiten(m[i], q.mu, v[i] * q.delta if kind == "lr" else v[i] / q.k)))
                        elif kind == "lr":
                            row += [law.t_u((m[i][j] - q.mu[j]) / np.sqrt(q.beta / q.alpha * q.delta[j][j]), 2 * q.alpha) for j in range(d)]
                        else:
                            # marginal t with nu - d + 1 degrees of freedom
                            psi = np.linalg.inv(q.W) if kind == "nw" else q.psi
                            df = q.nu - d + 1
                            row += [law.t_u((m[i][j] - q.mu[j]) / np.sqrt(psi[j][j] / (q.k * df)), df) for j in range(d)]
            except np.linalg.LinAlgError:
                return None
            return row

        # components of one mean are dependent, different draws are not
        law.judge(B, sample, None if pair or what == "variance" else [range(j, n * d * (2 if twice else 1), d) for j in range(d)])
    return fn


CASES = []
NAMES = {"nig": "NormalInverseGamma", "ng": "NormalGamma", "lr": "NormalInverseGamma matrix", "nw": "NormalWishart", "niw": "NormalInverseWishart"}
WHAT = [("mean", True), ("mean", False), ("variance", False), ("beta", True), ("beta", False)]
for kind in NAMES:
    for what, pair in WHAT:
        if what == "beta" and kind in ("nw", "niw"):
            continue
        for st in STATES:
            tag = f"{NAMES[kind]} {what}{' with variance' if pair else ''}, state {st}"
            t = dict(runs=1, timeout=240)
            if kind in ("nig", "ng"):
                for n in (1, 2, 3) + ((5,) if TIER == "thorough" else ()):
                    CASES.append(Case(f"{tag}, {n} draws", univariate(kind, what, pair, st, n), **t))
                if st in ("omitted", "int", "Generator"):
                    CASES.append(Case(f"{tag}, 12 draws", univariate(kind, what, pair, st, 12), **t))
                for vec in (2, (1, 2), (2, 2)):
                    CASES.append(Case(f"{tag}, vectors, shape {vec}", univariate(kind, what, pair, st, None, vec), **t))
                if st not in ("int", "np int"):
                    CASES.append(Case(f"{tag}, two calls", univariate(kind, what, pair, st, 2, twice=True), **t))
            else:
                for d in (1, 2, 3) + ((4,) if TIER == "thorough" or st == "Generator" and kind == "lr" else ()):
                    for n in (1, 2) + ((3, 5) if TIER == "thorough" else (3,) if st in ("omitted", "Generator") else ()):
                        CASES.append(Case(f"{tag}, dimension {d}, {n} draws", matrix(kind, what, pair, st, n, d), **t))
                if st in ("omitted", "int"):
                    CASES.append(Case(f"{tag}, dimension 1, 7 draws", matrix(kind, what, pair, st, 7, 1), **t))
                    CASES.append(Case(f"{tag}, dimension 2, 11 draws", matrix(kind, what, pair, st, 11, 2), **t))
                if st not in ("int", "np int"):
                    CASES.append(Case(f"{tag}, two calls", matrix(kind, what, pair, st, 1, 2, twice=True), **t))
CASES += [Case("integers: " + c.name, whole(c.fn), runs=1, timeout=240) for c in list(CASES)
          if ("state int" in c.name or "state Generator" in c.name) and ("2 draws" in c.name or "vectors" in c.name) and "12 draws" not in c.name]
