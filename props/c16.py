"""C16: multiplying by a number and adding Poissons gives the distribution of the sum."""
import numpy as np

from vlib.harness import TIER, Case, whole
from vlib.dens import check_log
from vlib.spec import *

BOUNDS = ("all real parameters and all positive real and integer factors (both sides of the operator; numpy scalars 1..4 of several types; arrays of 2, 3, 11 elements and 2x1 against them, "
          "in the factor, in each parameter or in both); products of two, three and six factors; sums of 2, 3, 4, 7 and 13 Poissons; whole-number parameters; a Poisson scaled and added. "
          "The distributions are compared by their cumulant generating function at every point of its domain and by the density of the scipy object behind dist")

P, U, R = "pos", "unit", "real"
CLASSES = {"Exponential": [("lam", P)], "Gamma": [("alpha", P), ("beta", P)], "NegativeBinomial": [("n", P), ("p", U)], "Poisson": [("lam", P)], "Normal": [("mu", R), ("sigma", P)]}



def cgf(B, cls, f, tz):
    """log E[exp(tX)] for a distribution object's fields f (a dict of scalars); tz = (t, exp(t) or None)."""
    t, z = tz
    if cls == "Exponential":
        return -B.ln(1 - t / f["lam"])
    if cls == "Gamma":
        return -f["alpha"] * B.ln(1 - t / f["beta"])
    if cls == "Normal":
        return f["mu"] * t + f["sigma"] ** 2 * t**2 / 2
    if cls == "Poisson":
        return f["lam"] * ((B.exp(t) if z is None else z) - 1)
    if cls == "NegativeBinomial":
        return f["n"] * (B.ln(f["p"]) - B.ln(1 - (1 - f["p"]) * (B.exp(t) if z is None else z)))
    raise KeyError(cls)


def point(B, cls, f, tag=""):
    """A real number t at which E exp(tX) is finite (below the rate; below 0 for the negative binomial, which determines the law)."""
    if cls in ("Exponential", "Gamma"):
        return (f["lam"] if cls == "Exponential" else f["beta"]) - B.real("t" + tag, P), None
    if cls == "NegativeBinomial":
        z = B.real("z" + tag, U)
        return B.ln(z), z
    return B.real("t" + tag), None


def plain(v):
    return v.item() if isinstance(v, (np.generic, np.ndarray)) and np.ndim(v) == 0 else v


def fields(d):
    return {n: plain(getattr(d, n)) for n, _ in CLASSES[type(d).__name__]}


def is_sum(B, r, parts, label, positive=True):
    """r is the law of a sum of independents: parts is a list of (class, fields, copies)."""
    c = type(r).__name__
    B.true(c in CLASSES, f"{label}: result is a {c}")
    if c not in CLASSES:
        return
    f = fields(r)
    B.true(all(np.ndim(v) == 0 for v in f.values()), f"{label}: parameters are numbers")
    t = point(B, parts[0][0], parts[0][1])
    want = 0
    for cls, g, k in parts:
        want = want + k * cgf(B, cls, g, t)
    B.eq(cgf(B, c, f, t), want, f"{label}: cumulant generating function")
    if c == "Normal":
        B.true(f["sigma"] > 0, f"{label}: sigma is positive")


def density(B, d, cls, f, k, label):
    """The scipy object of the result has the density of the sum."""
    if cls in ("Exponential", "Gamma"):
        x = B.real("x", P)
        want = d_gamma(B, x, k * f.get("alpha", 1), f["lam"] if cls == "Exponential" else f["beta"])
    elif cls == "Normal":
        x = B.real("x")
        want = d_normal(B, x, k * f["mu"], k * f["sigma"] ** 2)
    elif cls == "Poisson":
        x = B.int("x", 0)
        want = d_poisson(B, x, k * f["lam"])
    else:
        x = B.int("x", 0)
        want = d_negbin(B, x, k * f["n"], f["p"])
    check_log(B, B.call(lambda: d.dist), x, want, label, cls in ("Poisson", "NegativeBinomial"))


def make(B, cls, tag=""):
    f = {n: B.real(n + tag, d) for n, d in CLASSES[cls]}
    return f, B.call(getattr(B.D, cls), **f)


def same_object(B, d, f, label="operand"):
    for n, v in f.items():
        B.true(getattr(d, n) is v or getattr(d, n) == v, f"{label}: {n} changed")


def scale(cls, kind, side):
    def fn(B):
        f, d = make(B, cls)
        if kind == "real":
            k = B.real("k", P)
        elif kind == "int":
            k = B.int("k", 1)
        elif kind == "one":
            k = 1
        else:
            k = B.choice("type", [np.float64, np.float32, np.int64, np.int32, float, np.uint8])(B.choice("k", [1, 4, 9, 25]))
        r = B.call(lambda: d * k if side == "right" else k * d)
        kk = k if kind in ("real", "int", "one") else int(k)
        is_sum(B, r, [(cls, f, kk)], "scaled")
        density(B, r, cls, f, kk, "density of the scaled distribution")
        if kind == "one" and type(r).__name__ == cls:
            for n in f:
                B.eq(getattr(r, n), f[n], f"scaling by one changes {n}")
        same_object(B, d, f)
    return fn


def chain(cls, m):
    def fn(B):
        f, d = make(B, cls)
        ks = [B.real(f"k{i}", P) if i else B.int("k0", 1) for i in range(m)]
        prod = 1
        r = d
        for i, k in enumerate(ks):
            prev = r
            snap = dict(vars(prev))
            r = B.call(lambda: prev * k if i % 2 else k * prev)
            B.true(all(vars(prev).get(n) is v for n, v in snap.items()), "operand changed")
            prod = prod * k
        is_sum(B, r, [(cls, f, prod)], "scaled repeatedly")
        once = B.call(lambda: d * prod)
        if type(once).__name__ == type(r).__name__:
            for n in fields(r):
                B.eq(getattr(r, n), getattr(once, n), f"{n} of j then k against j*k")
        # the same object can be scaled again with a different factor
        k2 = B.real("k'", P)
        is_sum(B, B.call(lambda: k2 * d), [(cls, f, k2)], "scaled again")
        same_object(B, d, f)
    return fn


def vectors(cls, arrays, kshape, side="right", m=2):
    """arrays: which parameters are vectors of 2; kshape: (), (2,), (2, 1)."""
    def fn(B):
        f = {}
        for j, (n, dm) in enumerate(CLASSES[cls]):
            f[n] = B.arr([B.real(f"{n}{i}", dm) for i in range(m)]) if j in arrays else B.real(n, dm)
        d = B.call(getattr(B.D, cls), **f)
        if kshape == ():
            k = B.real("k", P)
        elif kshape == (m,):
            k = B.arr([B.real(f"k{i}", P) for i in range(m)])
        else:
            k = B.arr([[B.real(f"k{i}", P)] for i in range(2)])
        r = B.call(lambda: d * k if side == "right" else k * d)
        c = type(r).__name__
        B.true(c in CLASSES, f"result is a {c}")
        if c not in CLASSES:
            return
        shape = np.broadcast_shapes(np.shape(k), *(np.shape(v) for v in f.values()))
        for ix in np.ndindex(shape):
            at = lambda v: v if np.ndim(v) == 0 else np.broadcast_to(v, shape)[ix]
            g = {n: at(v) for n, v in f.items()}
            h = {n: at(getattr(r, n)) for n, _ in CLASSES[c]}
            t = point(B, cls, g, str(list(ix)))
            B.eq(cgf(B, c, h, t), at(k) * cgf(B, cls, g, t), f"element {list(ix)}: cumulant generating function")
            if c == "Normal":
                B.true(h["sigma"] > 0, f"element {list(ix)}: sigma is positive")
        rs = np.broadcast_shapes(*(np.shape(getattr(r, n)) for n, _ in CLASSES[c]))
        B.true(rs == shape, f"parameters have shape {rs} instead of {shape}")
        for n, v in f.items():
            B.true(getattr(d, n) is v, f"operand's {n} was replaced")
    return fn


def poisson_sum(m, scaled=False):
    def fn(B):
        ls = [B.real(f"lam{i}", P) for i in range(m)]
        ds = [B.call(B.D.Poisson, lam=x) for x in ls]
        ks = [1] * m
        terms = list(ds)
        if scaled:
            ks = [B.real(f"k{i}", P) for i in range(m)]
            terms = [B.call(lambda d=d, k=k: k * d) for d, k in zip(ds, ks)]
        r = terms[0]
        for u in terms[1:]:
            q = r
            r = B.call(lambda: q + u)
        is_sum(B, r, [("Poisson", {"lam": x}, k) for x, k in zip(ls, ks)], "sum")
        q = terms[-1]
        for u in reversed(terms[:-1]):
            w = q
            q = B.call(lambda: u + w)      # associates the other way
        B.eq(q.lam, r.lam, "order of addition")
        for d, x in zip(ds, ls):
            B.eq(d.lam, x, "operand changed")
        if m == 2 and not scaled:
            x = B.int("x", 0)
            check_log(B, B.call(lambda: r.dist), x, d_poisson(B, x, ls[0] + ls[1]), "density of the sum", True)
            k = B.real("k", P)
            is_sum(B, B.call(lambda: (ds[0] + ds[1]) * k), [("Poisson", {"lam": x}, k) for x in ls], "scaled sum")
            is_sum(B, B.call(lambda: ds[0] + ds[0]), [("Poisson", {"lam": ls[0]}, 2)], "sum with itself")
    return fn


def poisson_vectors(a, b):
    def fn(B):
        mk = lambda n, s: B.real(n, P) if s == () else B.arr([B.real(f"{n}{i}", P) for i in range(2)]) if s == (2,) else B.arr([[B.real(f"{n}{i}", P)] for i in range(2)])
        x, y = mk("x", a), mk("y", b)
        r = B.call(lambda: B.D.Poisson(lam=x) + B.D.Poisson(lam=y))
        B.is_type(r, "Poisson")
        shape = np.broadcast_shapes(a, b)
        B.true(np.shape(r.lam) == shape, f"shape {np.shape(r.lam)} instead of {shape}")
        if np.shape(r.lam) == shape:
            for ix in np.ndindex(shape):
                at = lambda v: v if np.ndim(v) == 0 else np.broadcast_to(v, shape)[ix]
                B.eq(at(r.lam), at(x) + at(y), f"element {list(ix)}")
    return fn


CASES = []
for cls, fs in CLASSES.items():
    for kind in ("real", "int", "one", "numpy"):
        for side in ("right", "left"):
            CASES.append(Case(f"{cls}: factor {kind} on the {side}", scale(cls, kind, side)))
    for m in (2, 3) if TIER != "thorough" else (2, 3, 4):
        CASES.append(Case(f"{cls}: {m} factors", chain(cls, m)))
    m = len(fs)
    for arrays in ([()] + [(j,) for j in range(m)] + ([tuple(range(m))] if m > 1 else [])):
        for kshape in ((), (2,), (2, 1)):
            if arrays or kshape:
                CASES.append(Case(f"{cls}: arrays {[fs[j][0] for j in arrays]}, factor of shape {kshape}", vectors(cls, arrays, kshape)))
                if not kshape:
                    CASES.append(Case(f"{cls}: arrays {[fs[j][0] for j in arrays]}, number on the left", vectors(cls, arrays, kshape, "left")))
for cls, fs in CLASSES.items():
    every = tuple(range(len(fs)))
    for n in (3, 11):
        CASES += [Case(f"{cls}: arrays of {n}, factor of shape {ks}, {side}", vectors(cls, ar, ks, side, n), runs=2)
                  for ar, ks, side in ((every, (), "right"), (every, (), "left"), (every, (n,), "right"), ((), (n,), "right"), (every, (2, 1), "right"))]
    CASES.append(Case(f"{cls}: 6 factors", chain(cls, 6), runs=2))
for m in (2, 3, 4, 7, 13):
    CASES.append(Case(f"Poisson: sum of {m}", poisson_sum(m)))
    CASES.append(Case(f"Poisson: sum of {m} scaled", poisson_sum(m, True)))
for a in ((), (2,), (2, 1)):
    for b in ((), (2,), (2, 1)):
        if a or b:
            CASES.append(Case(f"Poisson: sum of shapes {a} and {b}", poisson_vectors(a, b)))
CASES += [Case("integers: " + c.name, whole(c.fn), runs=2) for c in list(CASES) if "factor real" in c.name or "factor int" in c.name or "arrays [" in c.name or c.name == "Poisson: sum of 3"]
