"""Multivariate models: exponential-family coefficients of prior, likelihood and posterior.

A multivariate posterior is proportional to prior times likelihood exactly when every
coefficient of the log density in the unknowns matches; the coefficients are polynomial
identities, which is what the solver gets.
"""
from __future__ import annotations

import itertools

import numpy as np


def mv(m, v):
    """Matrix times vector, elementwise (no library code)."""
    r, c = np.shape(m)
    return [sum((m[i][j] * v[j] for j in range(1, c)), m[i][0] * v[0]) for i in range(r)]


def mm(a, b):
    n, k, p = len(a), len(b), len(b[0])
    return [[sum((a[i][t] * b[t][j] for t in range(1, k)), a[i][0] * b[0][j]) for j in range(p)] for i in range(n)]


def dot(a, b):
    return sum((x * y for x, y in zip(a[1:], b[1:])), a[0] * b[0]) if len(a) else 0


def addm(a, b, k=1):
    return [[a[i][j] + k * b[i][j] for j in range(len(a))] for i in range(len(a))]


def gram(X, d):
    """sum_i x_i x_i^T"""
    n = len(X)
    return [[sum((X[i][p] * X[i][q] for i in range(n)), 0) for q in range(d)] for p in range(d)]


def colsum(X, d):
    return [sum((X[i][p] for i in range(len(X))), 0) for p in range(d)]


def eye(d):
    return [[1 if i == j else 0 for j in range(d)] for i in range(d)]


# ---- positivity facts (Cauchy-Binet): determinants of sums of positive definite matrices
def _minor(W, I, J):
    """Determinant of the submatrix of the list of lists W."""
    if not I:
        return 1
    i, rest = I[0], I[1:]
    s = None
    for t, j in enumerate(J):
        x = W[i][j] * _minor(W, rest, J[:t] + J[t + 1:])
        x = x if t % 2 == 0 else -x
        s = x if s is None else s + x
    return s


def _prod(xs):
    r = 1
    for x in xs:
        r = r * x
    return r


def _factors(B, name, lo=0, hi=None):
    """L and D of a diagonal block of the LDL' form (leading block, or trailing block of the inverse)."""
    f = B.factors(name)
    if f is None:
        return None
    hi = len(f[1]) if hi is None else hi
    return [r[lo:hi] for r in f[0][lo:hi]], f[1][lo:hi]


def lr_hints(B, name, d, X, y=None, mu=None, scale=None):
    """det(S) det(S^-1 + X'X) = sum over I, J of prod D_J minor_IJ(X L)^2, for every trailing block;
    with y and mu also the terms of the residual sum of squares (y - X mu bordering X L)."""
    if B.factors(name) is None or len(X) == 0:
        return
    for lo in range(d):
        L, D = _factors(B, name, lo)
        Z = mm([r[lo:] for r in X], L)
        for k in range(1, min(d - lo, len(X)) + 1):
            for I in itertools.combinations(range(len(X)), k):
                for J in itertools.combinations(range(d - lo), k):
                    B.hint(_prod([D[j] for j in J]), _minor(Z, I, J))
                    if scale is not None and lo == 0:
                        B.hint(_prod([D[j] for j in J]) * scale, _minor(Z, I, J))
    if y is not None:
        L, D = _factors(B, name)
        Z = mm(X, L)
        r = [y[i] - dot(X[i], mu) for i in range(len(X))]
        W = [z + [q] for z, q in zip(Z, r)]
        for k in range(0, min(d, len(X) - 1) + 1):
            for I in itertools.combinations(range(len(X)), k + 1):
                for J in itertools.combinations(range(d), k):
                    B.hint(_prod([D[j] for j in J]), _minor(W, I, J + (d,)))


def sum_hints(B, vecs, d, scale=1):
    """det(sum_i w_i v_i v_i') over the leading blocks: sum over subsets of prod w times minor^2."""
    for k in range(1, d + 1):
        for J in itertools.combinations(range(len(vecs)), k):
            W = [[vecs[j][1][i] for j in J] for i in range(k)]
            B.hint(_prod([vecs[j][0] for j in J]) * scale, _minor(W, tuple(range(k)), tuple(range(k))))


def spd_vecs(B, name, d):
    f = B.factors(name)
    return None if f is None else [(f[1][j], [f[0][i][j] for i in range(d)]) for j in range(d)]


def cov_hints(B, a, b, n, d):
    """det(C + n S) by Cauchy-Binet over the columns of both factors, for leading and trailing blocks."""
    if B.factors(a) is None:
        return
    for lo, hi in {(lo, d) for lo in range(d)} | {(0, hi) for hi in range(1, d + 1)}:
        f, g = _factors(B, a, lo, hi), _factors(B, b, lo, hi)
        e = hi - lo
        cols = [([f[0][i][j] for i in range(e)], n * f[1][j]) for j in range(e)] + [([g[0][i][j] for i in range(e)], g[1][j]) for j in range(e)]
        for J in itertools.combinations(range(2 * e), e):
            W = [[cols[j][0][i] for j in J] for i in range(e)]
            B.hint(_prod([cols[j][1] for j in J]), _minor(W, tuple(range(e)), tuple(range(e))))


def prec_hints(B, a, b, n, d):
    """det(I + n S P) = sum over I, J of n^k prod D_I E_J minor_IJ(L'M)^2; trailing blocks of S^-1 + n P alike."""
    if B.factors(a) is None:
        return
    for lo in range(d):
        # P[lo:, lo:] = M[lo:, :] E M[lo:, :]'
        L, D = _factors(B, a, lo)
        M, E = B.factors(b)
        W = mm([[L[j][i] for j in range(d - lo)] for i in range(d - lo)], [list(M[i]) for i in range(lo, d)])
        for k in range(1, d - lo + 1):
            for I in itertools.combinations(range(d - lo), k):
                for J in itertools.combinations(range(d), k):
                    B.hint(_prod([n * D[i] for i in I] + [E[j] for j in J]), _minor(W, I, J))


# ---- linear regression
def lr_prior(B, d, t="", diagonal=False):
    return B.D.NormalInverseGamma(mu=B.vec("mu0" + t, d), delta_inverse=B.spd("D0" + t, d, diagonal),
                                  alpha=B.real("alpha0" + t, "pos"), beta=B.real("beta0" + t, "pos"))


def lr_check(B, post, prior, X, y, d, tag=""):
    B.is_type(post, "NormalInverseGamma")
    B.true(post.nu is None, "posterior is parameterised by delta_inverse")
    L0 = B.inv(prior.delta_inverse)
    n = len(X)
    L = addm([[L0[i, j] for j in range(d)] for i in range(d)], gram(X, d)) if n else [[L0[i, j] for j in range(d)] for i in range(d)]
    b0 = mv(L0, prior.mu)
    lin = [b0[p] + sum((X[i][p] * y[i] for i in range(n)), 0) for p in range(d)]
    B.eq(np.shape(post.delta_inverse), (d, d), tag + "shape of delta_inverse")
    B.eq(np.shape(post.mu), (d,), tag + "shape of mu")
    B.eq(B.arr(mm([[post.delta_inverse[i, j] for j in range(d)] for i in range(d)], L)), B.arr(eye(d)), tag + "delta_inverse is the inverse of delta + X'X")
    B.eq(B.arr(mv(B.arr(L), post.mu)), B.arr(lin), tag + "linear coefficient")
    B.eq(post.alpha, prior.alpha + B.frac(n, 2), tag + "alpha")
    yy = sum((v * v for v in y), 0)
    B.eq(2 * post.beta, 2 * prior.beta + yy + dot(prior.mu, b0) - dot(post.mu, lin), tag + "beta")


# ---- multivariate normal, known covariance or precision
def mvn_prior(B, d, t=""):
    return B.D.MultivariateNormal(mu=B.vec("mu0" + t, d), cov=B.spd("S0" + t, d))


def mvn_check(B, post, prior, n, xbar, prec, d, tag=""):
    """prec: known data precision matrix (list of lists)"""
    B.is_type(post, "MultivariateNormal")
    P0 = B.inv(prior.cov)
    L = [[P0[i, j] + n * prec[i][j] for j in range(d)] for i in range(d)]
    lin = [a + n * b for a, b in zip(mv(P0, prior.mu), mv(B.arr(prec), xbar))]
    B.eq(np.shape(post.mu), (d,), tag + "shape of mu")
    B.eq(np.shape(post.cov), (d, d), tag + "shape of cov")
    B.eq(B.arr(mm([[post.cov[i, j] for j in range(d)] for i in range(d)], L)), B.arr(eye(d)), tag + "cov is the inverse of the summed precisions")
    B.eq(B.arr(mv(B.arr(L), post.mu)), B.arr(lin), tag + "linear coefficient")


# ---- multivariate normal, known mean
def iw_prior(B, d, t=""):
    return B.D.InverseWishart(nu=B.real("nu0" + t, (d - 1, None)), psi=B.spd("psi0" + t, d))


def iw_check(B, post, prior, X, mu, d, tag=""):
    B.is_type(post, "InverseWishart")
    n = len(X)
    B.eq(post.nu, prior.nu + n, tag + "nu")
    R = [[X[i][p] - mu[p] for p in range(d)] for i in range(n)]
    G = gram(R, d)
    B.eq(post.psi, B.arr([[prior.psi[p, q] + G[p][q] for q in range(d)] for p in range(d)]), tag + "psi")


# ---- multivariate normal, both unknown
def niw_prior(B, d, t=""):
    return B.D.NormalInverseWishart(mu=B.vec("mu0" + t, d), kappa=B.real("kappa0" + t, "pos"),
                                    nu=B.real("nu0" + t, (d - 1, None)), psi=B.spd("psi0" + t, d))


def niw_check(B, post, prior, X, d, tag=""):
    B.is_type(post, "NormalInverseWishart")
    n = len(X)
    B.eq(post.kappa, prior.kappa + n, tag + "kappa")
    B.eq(post.nu, prior.nu + n, tag + "nu")
    s = colsum(X, d)
    B.eq(B.arr([post.kappa * post.mu[p] for p in range(d)]), B.arr([prior.kappa * prior.mu[p] + s[p] for p in range(d)]), tag + "linear coefficient")
    B.eq(np.shape(post.mu), (d,), tag + "shape of mu")
    G = gram(X, d)
    B.eq(B.arr([[post.psi[p, q] + post.kappa * post.mu[p] * post.mu[q] for q in range(d)] for p in range(d)]),
         B.arr([[prior.psi[p, q] + prior.kappa * prior.mu[p] * prior.mu[q] + G[p][q] for q in range(d)] for p in range(d)]),
         tag + "quadratic coefficient")


def rows(X):
    X = np.asarray(X)
    return [[X[i, j] for j in range(X.shape[1])] for i in range(X.shape[0])]


def lol(m):
    return [[m[i, j] for j in range(m.shape[1])] for i in range(m.shape[0])]


def emptymat(B, d):
    return B.arr(np.zeros((0, d)))


def spd_check(B, M, d, label):
    """M is a symmetric positive definite d x d matrix (Sylvester's criterion; on the inverse where the engine knows M as one)."""
    B.eq(np.shape(M), (d, d), f"{label}: shape")
    if np.shape(M) != (d, d):
        return
    for i in range(d):
        for j in range(i):
            B.eq(M[i, j], M[j, i], f"{label}: symmetric")
    if not B.symbolic:
        B.true(np.all(np.linalg.eigvalsh((np.asarray(M, dtype=float) + np.asarray(M, dtype=float).T) / 2) > 0), f"{label}: positive definite")
        return
    from .npx import _INVERSES, ssym
    m = [[ssym(M[i, j]) for j in range(d)] for i in range(d)]
    back = _INVERSES.get(tuple(m[i][j].n.id for i in range(d) for j in range(d)))
    if back is not None:
        m = [r[::-1] for r in back[::-1]]
    for k in range(1, d + 1):
        B.true(_minor(m, tuple(range(k)), tuple(range(k))) > 0, f"{label}: positive definite")
