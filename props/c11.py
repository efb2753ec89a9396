"""C11: the scipy object behind .dist is the documented distribution."""
import numpy as np

from vlib.dens import check_log, scalar
from vlib.distspec import UNIVARIATE, label
from vlib.harness import Case, Whole
from vlib.mvspec import dot, mm, mv, spd_check
from vlib.spec import *

BOUNDS = ("all real parameters and points in and out of the support (integer points for mass functions); parameters given as numbers, integers and arrays of integers or reals "
          "of 2 and 11 elements or tables of 2x3 (points: a number, an array of 2, 7 or 11, a column, a table); matrices of dimension 1 and 2 (thorough 3), Dirichlet and multinomial vectors of 2, 3, 4, 12 categories")


def scalar_case(s):
    def fn(B):
        p = s.params(B)
        d = s.make(B, p)
        x = s.inside(B, "x", p)
        check_log(B, B.call(lambda: d.dist), x, s.logd(B, x, *p), "inside the support", s.discrete)
        f = "pmf" if s.discrete else "pdf"
        for i, y in enumerate(s.outside(B, "y", p)):
            B.eq(scalar(B.call(getattr(d.dist, f), y)), 0, f"outside the support ({i}): {f}")
    return fn


def array_case(s, column, whole=False, n=2):
    def fn(B):
        ps = [s.params(Whole(B) if whole else B, str(i)) for i in range(n)]
        d = s.make(B, [B.arr([p[j] for p in ps]) for j in range(len(s.fields))])
        f = "pmf" if s.discrete else "pdf"
        if column:
            xs = [s.inside(B, f"x{i}", ps[i]) for i in range(n)]
            r = B.call(getattr(d.dist, f), B.arr(xs))
            B.true(np.shape(r) == (n,), "shape of the result")
            for i in range(n):
                B.eq(B.ln(r[i]), s.logd(B, xs[i], *ps[i]), f"element {i}")
        else:
            # a column of points against a row of parameters
            xs = [s.inside(B, f"x{i}", ps[i]) for i in range(2)]
            r = B.call(getattr(d.dist, f), B.arr([[x] for x in xs]))
            B.true(np.shape(r) == (2, 2), "shape of the result")
            for i in range(2):
                B.eq(B.ln(r[i][i]), s.logd(B, xs[i], *ps[i]), f"element {i},{i}")
    return fn


def grid_case(s, rows, cols):
    """Tables of parameters and points."""
    def fn(B):
        ps = [[s.params(B, f"{i},{j}") for j in range(cols)] for i in range(rows)]
        d = s.make(B, [B.arr([[p[j] for p in row] for row in ps]) for j in range(len(s.fields))])
        xs = [[s.inside(B, f"x{i},{j}", ps[i][j]) for j in range(cols)] for i in range(rows)]
        r = B.call(getattr(d.dist, "pmf" if s.discrete else "pdf"), B.arr(xs))
        B.true(np.shape(r) == (rows, cols), "shape of the result")
        for i in range(rows):
            for j in range(cols):
                B.eq(B.ln(r[i][j]), s.logd(B, xs[i][j], *ps[i][j]), f"element {i},{j}")
    return fn


def points_case(s, n):
    """Many points, one set of parameters."""
    def fn(B):
        p = s.params(B)
        d = s.make(B, p)
        xs = [s.inside(B, f"x{i}", p) for i in range(n)]
        r = B.call(getattr(d.dist, "pmf" if s.discrete else "pdf"), B.arr(xs))
        B.true(np.shape(r) == (n,), "shape of the result")
        for i in range(n):
            B.eq(B.ln(r[i]), s.logd(B, xs[i], *p), f"point {i}")
    return fn


def mixed_case(s, j):
    """Parameter j an array, the others numbers."""
    def fn(B):
        p = s.params(B)
        q = s.params(B, "'")
        p2 = list(p)
        p2[j] = q[j]
        # q[j] has to be valid next to the other parameters
        if s.cls == "Uniform":
            B.assume(p2[0] < p2[1])
        if s.cls == "Hypergeometric":
            B.assume(p2[1] <= p2[0]), B.assume(p2[2] <= p2[0])
        args = list(p)
        args[j] = B.arr([p[j], p2[j]])
        d = s.make(B, args)
        f = "pmf" if s.discrete else "pdf"
        x, y = s.inside(B, "x", p), s.inside(B, "y", p2)
        r = B.call(getattr(d.dist, f), B.arr([x, y]))
        B.true(np.shape(r) == (2,), "shape of the result")
        B.eq(B.ln(r[0]), s.logd(B, x, *p), "element 0")
        B.eq(B.ln(r[1]), s.logd(B, y, *p2), "element 1")
    return fn


# ---- vectors and matrices
def dirichlet(k, kind):
    def fn(B):
        a = [B.real(f"a[{i}]", "pos") for i in range(k)]
        d = B.call(B.D.Dirichlet, alpha=a if kind == "list" else B.arr(a))
        p = B.simplex("p", k)
        check_log(B, B.call(lambda: d.dist), p, d_dirichlet(B, list(p), a), "density", False)
        B.eq(B.call(d.dist.mean), B.arr([x / sum(a[1:], a[0]) for x in a]), "mean")
    return fn


def dirichlet_rows(r, k):
    def fn(B):
        a = [[B.real(f"a[{i},{j}]", "pos") for j in range(k)] for i in range(r)]
        d = B.call(B.D.Dirichlet, alpha=B.arr(a))
        B.eq(B.call(d.dist.mean), B.arr([[x / sum(row[1:], row[0]) for x in row] for row in a]), "row means")
        if B.symbolic:
            from vlib.stx import STREAMS
            STREAMS.reset()
        s = B.call(d.dist.rvs, size=2)
        B.true(np.shape(s) == (r, 2, k), f"shape of the draws {np.shape(s)}")
        if B.symbolic:
            for z in STREAMS.noise:
                B.true(z.kind == "dirichlet", "a Dirichlet draw")
            vals = {id(z.value[0]): z for z in STREAMS.noise}
            seen = set()
            for i in range(r):
                for t in range(2):
                    z = vals.get(id(s[i][t][0]))
                    B.true(z is not None and id(z) not in seen, f"draw {i},{t} is a fresh Dirichlet draw")
                    if z is not None:
                        seen.add(id(z))
                        B.eq(B.arr(list(z.params[0])), B.arr(a[i]), f"draw {i},{t} has the parameters of row {i}")
        else:
            big = d.dist.rvs(size=4000)
            for i in range(r):
                m = [x / sum(a[i]) for x in a[i]]
                t = sum(a[i])
                for j in range(k):
                    sd = (m[j] * (1 - m[j]) / (t + 1) / 4000) ** 0.5
                    B.true(abs(big[i, :, j].mean() - m[j]) < 7 * sd + 1e-9, f"mean of the draws of row {i}")
    return fn


def multinomial(k, kind):
    def fn(B):
        p = B.simplex("p", k)
        xs = [B.int(f"x[{i}]", 0) for i in range(k)]
        n = sum(xs[1:], xs[0])
        d = B.call(B.D.Multinomial, n=n, p=list(p) if kind == "list" else p)
        check_log(B, B.call(lambda: d.dist), B.arr(xs), d_multinomial(B, xs, n, list(p)), "mass", True)
        e = B.int("extra", 1)
        B.eq(scalar(B.call(d.dist.pmf, B.arr([xs[0] + e] + xs[1:]))), 0, "other totals have no mass")
    return fn


def dirichlet_multinomial(k, kind):
    def fn(B):
        a = [B.real(f"a[{i}]", "pos") for i in range(k)]
        xs = [B.int(f"x[{i}]", 0) for i in range(k)]
        n = sum(xs[1:], xs[0])
        B.assume(n >= 1)
        d = B.call(B.D.DirichletMultinomial, alpha=a if kind == "list" else B.arr(a), n=n)
        A = sum(a[1:], a[0])
        e = B.lgamma(A) + B.lgamma(n + 1) - B.lgamma(n + A)
        for x, ai in zip(xs, a):
            e = e + B.lgamma(x + ai) - B.lgamma(ai) - B.lgamma(x + 1)
        check_log(B, B.call(lambda: d.dist), B.arr(xs), e, "mass", True)
        e = B.int("extra", 1)
        B.eq(scalar(B.call(d.dist.pmf, B.arr([xs[0] + e] + xs[1:]))), 0, "other totals have no mass")
    return fn


def quad_form(S, r, d, B):
    """r' S^-1 r and ln det S, from the adjugate."""
    P = B.inv(S)
    return sum((r[i] * P[i][j] * r[j] for i in range(d) for j in range(d)), 0), B.ln(B.det(S))


def mvnormal(d):
    def fn(B):
        S = B.spd("cov", d)
        mu, x = B.vec("mu", d), B.vec("x", d)
        o = B.call(B.D.MultivariateNormal, mu=mu, cov=S)
        q, l = quad_form(S, [x[i] - mu[i] for i in range(d)], d, B)
        check_log(B, B.call(lambda: o.dist), x, -q / 2 - l / 2 - d * B.ln(2 * B.pi) / 2, "density", False)
    return fn


def mvstudent(d):
    def fn(B):
        S = B.spd("sigma", d)
        mu, x, nu = B.vec("mu", d), B.vec("x", d), B.real("nu", "pos")
        o = B.call(B.D.MultivariateStudentT, mu=mu, sigma=S, nu=nu)
        q, l = quad_form(S, [x[i] - mu[i] for i in range(d)], d, B)
        e = B.lgamma((nu + d) / 2) - B.lgamma(nu / 2) - d * B.ln(nu * B.pi) / 2 - l / 2 - (nu + d) / 2 * B.ln(1 + q / nu)
        check_log(B, B.call(lambda: o.dist), x, e, "density", False)
    return fn


def lmvg(B, a, d):
    r = B.frac(d * (d - 1), 4) * B.ln(B.pi)
    for j in range(d):
        r = r + B.lgamma(a - B.frac(j, 2))
    return r


def wishart(cls, d):
    def fn(B):
        S, X = B.spd("scale", d), B.spd("x", d)
        nu = B.real("nu", (d - 1, None))
        o = B.call(getattr(B.D, cls), **{"nu": nu, ("V" if cls == "Wishart" else "psi"): S})
        lS, lX = B.ln(B.det(S)), B.ln(B.det(X))
        if cls == "Wishart":
            P = B.inv(S)
            tr = sum((P[i][j] * X[j][i] for i in range(d) for j in range(d)), 0)
            e = (nu - d - 1) / 2 * lX - tr / 2 - nu * d / 2 * B.ln(2) - nu / 2 * lS - lmvg(B, nu / 2, d)
        else:
            P = B.inv(X)
            tr = sum((S[i][j] * P[j][i] for i in range(d) for j in range(d)), 0)
            e = nu / 2 * lS - nu * d / 2 * B.ln(2) - lmvg(B, nu / 2, d) - (nu + d + 1) / 2 * lX - tr / 2
        B.eq(scalar(B.call(o.dist.logpdf, X if d > 1 else X[0][0])), e, "log density")
    return fn


CASES = []
for s in UNIVARIATE:
    CASES.append(Case(label(s), scalar_case(s), runs=6))
    CASES.append(Case(label(s) + " arrays", array_case(s, True)))
    CASES.append(Case(label(s) + " column of points", array_case(s, False)))
    CASES.append(Case(label(s) + " arrays of 11", array_case(s, True, n=11), runs=2))
    CASES.append(Case(label(s) + " tables", grid_case(s, 2, 3), runs=2))
    CASES.append(Case(label(s) + " 7 points", points_case(s, 7), runs=2))
    CASES.append(Case(label(s) + " integer arrays", array_case(s, True, True)))
    if len(s.fields) > 1:
        for j in range(len(s.fields)):
            CASES.append(Case(f"{label(s)} array {s.fields[j][0]}", mixed_case(s, j)))
CASES += [Case(f"Dirichlet[{k},{kind}]", dirichlet(k, kind)) for k in (2, 3, 4, 12) for kind in ("array", "list")]
CASES += [Case("Dirichlet rows[2x3]", dirichlet_rows(2, 3), tol=1e-6), Case("Dirichlet rows[3x2]", dirichlet_rows(3, 2))]
CASES += [Case(f"Multinomial[{k},{kind}]", multinomial(k, kind)) for k in (2, 3, 12) for kind in ("array", "list")]
CASES += [Case(f"DirichletMultinomial[{k},{kind}]", dirichlet_multinomial(k, kind)) for k in (2, 3, 12) for kind in ("array", "list")]
for d in (1, 2, 3):
    t = "quick" if d < 3 else "thorough"
    CASES += [Case(f"MultivariateNormal[{d}]", mvnormal(d), tier=t), Case(f"MultivariateStudentT[{d}]", mvstudent(d), tier=t),
              Case(f"Wishart[{d}]", wishart("Wishart", d), tier=t), Case(f"InverseWishart[{d}]", wishart("InverseWishart", d), tier=t)]
