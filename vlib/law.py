"""Laws of random samples as functions of the underlying noise.

Symbolically every base draw is one variable tagged with its law and its place in its random stream; a sample is
a term over them, and "has this law" becomes equalities between terms.  Concretely the same statement is tested on
the real generators with statistics that essentially never fail by chance (p < 1e-10).
"""
from __future__ import annotations

import math

import numpy as np

from . import sym as S
from .sym import Sym

P_MIN = 1e-10


# ---------------------------------------------------------------- symbolic
class NoiseTable:
    def __init__(self):
        from .stx import STREAMS
        self.of = {}
        for z in STREAMS.noise:
            for ix, v in np.ndenumerate(np.asarray(z.value, dtype=object)):
                self.of.setdefault(v.n.args[0], (z, ix))

    def used(self, *terms):
        """The base draws the terms depend on."""
        out = {}
        for t in terms:
            for v in np.asarray(t, dtype=object).reshape(-1):
                if not isinstance(v, Sym):
                    continue
                for name in S.free_vars(v):
                    if name in self.of:
                        z = self.of[name][0]
                        out.setdefault(id(z), z)
        return list(out.values())


def names(z):
    return [v.n.args[0] for v in np.asarray(z.value, dtype=object).reshape(-1)]


def affine(terms, zs):
    """(constants, coefficient rows, variables) of terms as affine functions of the draws zs; exactness is asserted by the caller."""
    vs = [n for z in zs for n in names(z)]
    zero = {n: S.ZERO for n in vs}
    c0 = [S.subst(t, zero) for t in terms]
    A = [[S.subst(t, {**zero, n: S.ONE}) - c for n in vs] for t, c in zip(terms, c0)]
    return c0, A, vs


def covariance(A, zs):
    """A C A^T with C the covariance of the draws."""
    C, pos = {}, 0
    for z in zs:
        k = len(names(z))
        M = [[1]] if z.kind == "normal" else np.asarray(z.params[0], dtype=object)
        for i in range(k):
            for j in range(k):
                C[pos + i, pos + j] = M[i][j]
        pos += k
    d = len(A)
    return [[sum((A[i][p] * A[j][q] * c for (p, q), c in C.items()), Sym(S.ZERO)) for j in range(d)] for i in range(d)]


def normal_given(B, tab, terms, mean, label):
    """terms are jointly normal with the given mean, given everything that is not normal noise; returns their covariance and the noise."""
    zs = [z for z in tab.used(*terms) if z.kind in ("normal", "mvn")]
    B.true(bool(zs), f"{label}: no normal draw is used")
    if not zs:
        return None, []
    c0, A, vs = affine(terms, zs)
    for t, c, row, m in zip(terms, c0, A, mean):
        B.eq(t, sum((a * Sym(S.var(n).n) for a, n in zip(row, vs)), c), f"{label}: the draw is not affine in its normal noise")
        B.eq(c, m, f"{label}: centre")
    return covariance(A, zs), zs


def gamma_scaled(B, tab, w, alpha, beta, label):
    """w = beta / g with g a standard gamma draw of shape alpha (an inverse gamma variable)."""
    zs = [z for z in tab.used(w) if z.kind not in ("normal", "mvn")]
    B.true(len(zs) == 1 and zs[0].kind == "gamma", f"{label}: built from {[z.kind for z in zs]} instead of one gamma draw")
    if len(zs) == 1 and zs[0].kind == "gamma":
        B.eq(zs[0].params[0], alpha, f"{label}: shape of the gamma draw")
        B.eq(w * zs[0].value, beta, f"{label}: scale")
    return zs


def wishart_inverse(B, tab, w, nu, scale=None, inverse_scale=None, label=""):
    """w is the inverse of a Wishart draw with nu degrees of freedom and the given scale matrix (or its inverse)."""
    d = len(w)
    zs = [z for z in tab.used(w) if z.kind not in ("normal", "mvn")]
    B.true(len(zs) == 1 and zs[0].kind == "wishart", f"{label}: built from {[z.kind for z in zs]} instead of one Wishart draw")
    if len(zs) == 1 and zs[0].kind == "wishart":
        N = zs[0].value
        B.eq(zs[0].params[0], nu, f"{label}: degrees of freedom")
        for i in range(d):
            for j in range(d):
                B.eq(sum((w[i][k] * N[k][j] for k in range(d)), Sym(S.ZERO)), 1 if i == j else 0, f"{label}: inverse of the draw [{i},{j}]")
                V = zs[0].params[1]
                if scale is not None:
                    B.eq(V[i][j], scale[i][j], f"{label}: scale matrix [{i},{j}]")
                else:
                    B.eq(sum((V[i][k] * inverse_scale[k][j] for k in range(d)), Sym(S.ZERO)), 1 if i == j else 0, f"{label}: scale matrix [{i},{j}]")
    return zs


def separate(B, groups, label):
    """Draws of different groups never share randomness: groups is a list of lists of base draws."""
    seen = {}
    for g, zs in enumerate(groups):
        for z in zs:
            o = seen.setdefault(z.key, (g, z))
            B.true(o[0] == g and o[1].value is z.value, f"{label}: draws {o[0]} and {g} share the randomness at {z.key}")


# ---------------------------------------------------------------- statistics
def judge(B, sample, within, small=60, large=2500):
    """sample() -> one list of values that the stated law makes uniform on (0, 1), or None for a numerically singular draw.

    within: lists of columns that are independent of each other (None: all of them).  A small batch that looks unusual is followed by a large fresh one, which decides.
    """
    for R, p_min, c in ((small, 0.001, 4.2), (large, P_MIN, 7.0)):
        rows, bad = [], 0
        for _ in range(R):
            r = sample()
            if r is None:
                bad += 1
            else:
                rows.append(r)
        if not rows or bad > 0.02 * R + 3:
            B.true(R == small, f"{bad} of {R} draws cannot be used: the sampler or its result is singular")
            continue
        from scipy.stats import kstest
        cols = np.array(rows, dtype=float).T
        msgs = []
        for i, u in enumerate(cols):
            if not np.isfinite(u).all():
                msgs.append(f"column {i}: a draw is not a number in the support")
                continue
            k = kstest(u, "uniform")
            if k.pvalue < p_min:
                msgs.append(f"column {i} does not follow the stated law (KS statistic {k.statistic:.4f}, p {k.pvalue:.3g}, {len(u)} draws)")
        t = [lambda x: x - 0.5, lambda x: np.abs(x - 0.5) - 0.25]
        for ix in within or [range(len(cols))]:
            for a in ix:
                for b in ix:
                    if a >= b:
                        continue
                    worst = 0.0
                    for p in t:
                        for q in t:
                            x, y = p(cols[a]), q(cols[b])
                            den = math.sqrt(float((x * x).sum() * (y * y).sum()))
                            worst = max(worst, abs(float((x * y).sum()) / den) if den > 0 else 1.0)
                    if worst > c / math.sqrt(len(rows)):
                        msgs.append(f"columns {a} and {b} are dependent (correlation {worst:.3f}, {len(rows)} draws)")
        if not msgs:
            return
    for m in msgs:
        B.true(False, m)


def normal_u(z):
    from scipy.special import ndtr
    return ndtr(z)


def gamma_u(x, a):
    from scipy.special import gammainc
    return gammainc(a, x)


def t_u(x, df):
    from scipy.special import stdtr
    return stdtr(df, x)


def whiten(m, mean, cov):
    L = np.linalg.cholesky(cov)
    return np.linalg.solve(L, np.asarray(m, dtype=float) - np.asarray(mean, dtype=float))


def wishart_u(P, nu, W):
    """Independent uniform variables from a Wishart draw (Bartlett decomposition)."""
    d = len(W)
    L = np.linalg.cholesky(np.asarray(W, dtype=float))
    Li = np.linalg.inv(L)
    A = np.linalg.cholesky(Li @ P @ Li.T)
    out = []
    for i in range(d):
        out.append(gamma_u(A[i, i] ** 2 / 2, (nu - i) / 2))
        out += [normal_u(A[i, j]) for j in range(i)]
    return out


def drawable(B, nu, d):
    """Concrete runs skip degrees of freedom at which a Wishart draw is singular to working precision."""
    if not B.symbolic and float(nu) < d + 1:
        from .sym import Reject
        raise Reject
