"""C22: the beta-geometric and compound gamma distributions are the exact mixtures they document."""
import numpy as np

from vlib import law
from vlib.harness import TIER, Case, Stop, whole
from props.c21 import STATES, state

BOUNDS = ("all parameter values; every integer or real evaluation point (numbers, arrays of up to 3 points, parameter vectors of 2, 4 and 11, whole numbers for all inputs, point grids against parameter vectors); total probability by telescoping tails "
          "(that the tail tends to zero, and that a density integrates to its distribution function, are outside the solver); samples: shapes (), 1, 3, 12, (2,), (2, 2), (1, 2), (2, 1), (1, 1) (thorough (3, 2), (2, 2, 2)), every noise value and kind of random state")
ASSUMPTIONS = ["samplers are judged in the form: parameter from one beta / gamma draw, sample from one geometric / gamma draw; another construction is reported as undecided unless statistics on real draws refute it"]


def betaln(B, a, b):
    return B.lgamma(a) + B.lgamma(b) - B.lgamma(a + b)


def make(B, cls, a, b, q=None, one=True):
    return B.D.BetaGeometric(alpha=a, beta=b, one_start=one) if cls == "BetaGeometric" else B.D.CompoundGamma(alpha=a, beta=b, lam=q)


# ---- densities
def pmf_point(one, form):
    """The mixture at a point of the support, and Bayes' rule for the mixed-out parameter (which is what makes it the mixture)."""
    def fn(B):
        a, b = B.real("a", "pos"), B.real("b", "pos")
        x = B.int("x", 1 if one else 0)
        d = make(B, "BetaGeometric", a, b, one=one)
        k = x - 1 if one else x
        pt = {"number": lambda: x, "array": lambda: B.arr([x]), "real": lambda: x * 1.0, "list": lambda: [x]}[form]()
        v = B.call(lambda: d.dist.pmf(pt))
        if form in ("array", "list"):
            B.true(np.shape(v) == (1,), f"shape {np.shape(v)}")
            v = v[0]
        l = B.ln(v)
        B.eq(l, betaln(B, a + 1, b + k) - betaln(B, a, b), "mass of the mixture")
        p = B.real("p", "unit")
        prior = (a - 1) * B.ln(p) + (b - 1) * B.ln(1 - p) - betaln(B, a, b)
        post = a * B.ln(p) + (b + k - 1) * B.ln(1 - p) - betaln(B, a + 1, b + k)
        B.eq(prior + B.ln(p) + k * B.ln(1 - p) - l, post, "prior times likelihood over the mass is the conditional density")
    return fn


def pmf_total(one):
    """mass(x) = tail(x) - tail(x + 1), tail(start) = 1."""
    def fn(B):
        a, b = B.real("a", "pos"), B.real("b", "pos")
        s = 1 if one else 0
        x = B.int("x", s)
        d = make(B, "BetaGeometric", a, b, one=one)
        v = B.call(lambda: d.dist.pmf(x))
        # tail(x) = P(X >= x) = B(a, b + x - s) / B(a, b): the chance that the first x - s trials fail
        tail = lambda y: betaln(B, a, b + y - s) - betaln(B, a, b)
        k = x - s
        B.eq(tail(s), 0, "ln tail at the start")
        B.eq(tail(x + 1) - tail(x), B.ln((b + k) / (a + b + k)), "ln ratio of consecutive tails")
        # hence mass = tail - next tail
        B.eq(B.ln(v) - tail(x), B.ln(1 - (b + k) / (a + b + k)), "ln of mass over tail")
        B.eq(B.ln(B.call(lambda: d.dist.pmf(s))), B.ln(a / (a + b)), "ln mass at the start")
        w = B.call(lambda: d.dist.pmf(x + 1))
        B.eq(B.ln(w) - B.ln(v), B.ln((b + k) / (a + b + k + 1)), "ln ratio of consecutive masses")
    return fn


def pmf_outside(one, kind):
    def fn(B):
        a, b = B.real("a", "pos"), B.real("b", "pos")
        s = 1 if one else 0
        k = B.int("k", None if kind == "below" else -3, s - 1 if kind == "below" else 6)
        x = k
        if kind == "between":
            x = k + B.real("f", "unit")
        d = make(B, "BetaGeometric", a, b, one=one)
        B.eq(B.call(lambda: d.dist.pmf(x)), 0, "mass outside the support")
        y = B.int("y", s)
        v = B.call(lambda: d.dist.pmf(B.arr([x, y])))
        B.true(np.shape(v) == (2,), f"shape {np.shape(v)}")
        if np.shape(v) == (2,):
            B.eq(v[0], 0, "mass outside the support, in an array")
            B.eq(B.ln(v[1]), betaln(B, a + 1, b + y - s) - betaln(B, a, b), "mass of the other point")
    return fn


def pdf_point(form):
    def fn(B):
        a, b, q, x = (B.real(n, "pos") for n in "abqx")
        d = make(B, "CompoundGamma", a, b, q)
        pt = {"number": lambda: x, "array": lambda: B.arr([x]), "list": lambda: [x]}[form]()
        v = B.call(lambda: d.dist.pdf(pt))
        if form != "number":
            B.true(np.shape(v) == (1,), f"shape {np.shape(v)}")
            v = v[0]
        l = B.ln(v)
        B.eq(l, (a - 1) * B.ln(x / q) - (a + b) * B.ln(1 + x / q) - B.ln(q) - betaln(B, a, b), "density of the mixture")
        r = B.real("rate", "pos")
        gam = lambda y, k, rate: k * B.ln(rate) + (k - 1) * B.ln(y) - rate * y - B.lgamma(k)
        B.eq(gam(r, b, q) + gam(x, a, r) - l, gam(r, a + b, q + x), "prior times likelihood over the density is the conditional density")
    return fn


def pdf_scale(B):
    """lam is a scale."""
    a, b, q, x, c = (B.real(n, "pos") for n in "abqxc")
    v = B.call(lambda: make(B, "CompoundGamma", a, b, q).dist.pdf(x))
    w = B.call(lambda: make(B, "CompoundGamma", a, b, c * q).dist.pdf(c * x))
    B.eq(B.ln(v), B.ln(w) + B.ln(c), "density after a change of scale")


def pdf_recip(B):
    """The reciprocal of a compound gamma variable is one with the shapes exchanged."""
    a, b, q, x = (B.real(n, "pos") for n in "abqx")
    v = B.call(lambda: make(B, "CompoundGamma", a, b, q).dist.pdf(x))
    w = B.call(lambda: make(B, "CompoundGamma", b, a, 1 / q).dist.pdf(1 / x))
    B.eq(B.ln(v), B.ln(w) - 2 * B.ln(x), "density of the reciprocal")


def pdf_total(B):
    """alpha = 1: the density is minus the derivative of the tail (1 + x/q)^-b, and the tail at 0 is 1; beta = 1 likewise for the distribution function (x/(x+q))^a."""
    b, q, x = (B.real(n, "pos") for n in "bqx")
    v = B.call(lambda: make(B, "CompoundGamma", 1, b, q).dist.pdf(x))
    B.eq(B.ln(v), B.ln(b) - B.ln(q) - (b + 1) * B.ln(1 + x / q), "Lomax density")
    w = B.call(lambda: make(B, "CompoundGamma", b, 1, q).dist.pdf(x))
    B.eq(B.ln(w), B.ln(b) + B.ln(q) + (b - 1) * B.ln(x) - (b + 1) * B.ln(x + q), "inverse Lomax density")


def pdf_outside(kind):
    def fn(B):
        a, b, q, x = (B.real(n, "pos") for n in "abqx")
        if kind == "zero":
            # at the boundary: 0 for alpha > 1, b / q for alpha = 1
            B.eq(B.ln(B.call(lambda: make(B, "CompoundGamma", 1, b, q).dist.pdf(0))), B.ln(b / q), "ln density at 0, shape 1")
            for k, want in ((2, 0), (3, 0), (1.5, 0)):
                B.eq(B.call(lambda: make(B, "CompoundGamma", k, b, q).dist.pdf(0)), want, f"density at 0, shape {k}")
            return
        B.eq(B.call(lambda: make(B, "CompoundGamma", a, b, q).dist.pdf(-x)), 0, "density below 0")
        y = B.real("y", "pos")
        v = B.call(lambda: make(B, "CompoundGamma", a, b, q).dist.pdf(B.arr([-x, y, -y])))
        B.true(np.shape(v) == (3,), f"shape {np.shape(v)}")
        if np.shape(v) == (3,):
            B.eq(v[0], 0, "density below 0, in an array"), B.eq(v[2], 0, "density below 0, in an array")
            B.eq(B.ln(v[1]), (a - 1) * B.ln(y / q) - (a + b) * B.ln(1 + y / q) - B.ln(q) - betaln(B, a, b), "density of the other point")
    return fn


def elementwise(cls, shape, one=True, cdf=False, m=2):
    """Vector parameters: every element as the scalar distribution; points as a column give the table."""
    def fn(B):
        dom = "pos"
        ps = [[B.real(f"{n}{i}", dom) for i in range(m)] for n in ("a", "b", "q")]
        s = 1 if one else 0
        x = [B.int(f"x{i}", s) if cls == "BetaGeometric" else B.real(f"x{i}", "pos") for i in range(m)]
        d = make(B, cls, *[B.arr(v) for v in ps], one=one)
        f = (lambda e: e.pmf) if cls == "BetaGeometric" else (lambda e: e.pdf)
        pts = {"vector": lambda: B.arr(x), "number": lambda: x[0], "column": lambda: B.arr([[v] for v in x])}[shape]()
        if cdf:
            f = lambda e: e.cdf
        v = B.call(lambda: f(d.dist)(pts))
        want = {"vector": (m,), "number": (m,), "column": (m, m)}[shape]
        B.true(np.shape(v) == want, f"shape {np.shape(v)} instead of {want}")
        if np.shape(v) != want:
            return
        for ix in np.ndindex(want):
            y = {"vector": lambda: x[ix[0]], "number": lambda: x[0], "column": lambda: x[ix[0]]}[shape]()
            a, b, q = (p[ix[-1]] for p in ps)
            if cdf:
                cdf_is(B, cls, (a, b, q), y, one, v[ix], f"element {list(ix)}")
                continue
            if cls == "BetaGeometric":
                w = betaln(B, a + 1, b + y - s) - betaln(B, a, b)
            else:
                w = (a - 1) * B.ln(y / q) - (a + b) * B.ln(1 + y / q) - B.ln(q) - betaln(B, a, b)
            B.eq(B.ln(v[ix]), w, f"element {list(ix)}")
    return fn


# ---- distribution functions
def cdf_is(B, cls, ps, x, one, v, label):
    a, b, q = ps
    if cls == "CompoundGamma":
        return B.eq(v, B.betainc(a, b, x / (x + q)), label)
    tail = betaln(B, a, b + x + (0 if one else 1)) - betaln(B, a, b)
    B.eq(v, 1 - B.exp(tail), label)


def cdf_point(cls, form, one=True):
    """The chance that not all trials up to x fail; the regularised incomplete beta function of x / (x + q)."""
    def fn(B):
        ps = a, b, q = [B.real(n, "pos") for n in "abq"]
        geo = cls == "BetaGeometric"
        x = B.int("x", 1 if one else 0) if geo else B.real("x", "pos")
        d = make(B, cls, a, b, q, one)
        y = x + B.real("f", "unit") if geo and form == "between" else x
        pt = {"number": lambda: y, "array": lambda: B.arr([y]), "list": lambda: [y], "between": lambda: y}[form]()
        v = B.call(lambda: d.dist.cdf(pt))
        if form in ("array", "list"):
            B.true(np.shape(v) == (1,), f"shape {np.shape(v)}")
            v = v[0]
        cdf_is(B, cls, ps, x, one, v, "distribution function")
    return fn


def cdf_below(cls, one=True):
    def fn(B):
        ps = a, b, q = [B.real(n, "pos") for n in "abq"]
        geo = cls == "BetaGeometric"
        s = 1 if one else 0
        x = s - B.int("k", 1) if geo else -B.real("k", "nonneg")
        if geo and B.bool("real"):
            x = x + B.real("f", "unit")
        d = make(B, cls, a, b, q, one)
        B.eq(B.call(lambda: d.dist.cdf(x)), 0, "distribution function below the support")
        y = B.int("y", s) if geo else B.real("y", "pos")
        v = B.call(lambda: d.dist.cdf(B.arr([y, x])))
        B.true(np.shape(v) == (2,), f"shape {np.shape(v)}")
        if np.shape(v) == (2,):
            B.eq(v[1], 0, "distribution function below the support, in an array")
            cdf_is(B, cls, ps, y, one, v[0], "distribution function of the other point")
    return fn


# ---- samples
def rvs(cls, one, st, size, vec, twice=False, how="keyword"):
    shape = (() if not vec else (2,)) if size is None else tuple(np.atleast_1d(size))

    def fn(B):
        p = lambda n: B.arr([B.real(f"{n}{i}", "pos") for i in range(2)]) if vec else B.real(n, "pos")
        a, b, q = p("a"), p("b"), p("q")
        d = make(B, cls, a, b, q, one)
        at = (lambda v, ix: v[ix[-1]]) if vec else (lambda v, ix: v)

        def draw(kw):
            if how == "positional":
                return B.call(lambda: d.dist.rvs(size, *kw.values()))
            return B.call(lambda: d.dist.rvs(**({} if size is None else {"size": size}), **kw))

        if not B.symbolic:
            return statistics(B, a, b, q, at, draw)
        kw = {} if st == "omitted" else {"random_state": state(B, st, 11)}
        rs = [draw(kw) for _ in range(2 if twice else 1)]
        tab = law.NoiseTable()
        groups = []
        for r in rs:
            B.true(np.shape(r) == shape, f"shape {np.shape(r)} instead of {shape}")
            if np.shape(r) != shape:
                return
            for ix in np.ndindex(shape):
                v = r[ix] if shape else np.asarray(r, dtype=object)[()]
                groups.append((beta_geom if cls == "BetaGeometric" else comp_gamma)(B, tab, v, at(a, ix), at(b, ix), at(q, ix), f"draw {list(ix)}"))
        for g in groups:
            law.separate(B, [[z] for z in g], "parameter and sample")
        law.separate(B, groups, "different samples")

    def beta_geom(B, tab, v, a, b, q, label):
        zs = tab.used(v)
        B.true(len(zs) == 1 and zs[0].kind == "geom", f"{label}: built from {[z.kind for z in zs]} instead of one geometric draw")
        if not (len(zs) == 1 and zs[0].kind == "geom"):
            return zs
        B.eq(v, zs[0].value - (0 if one else 1), f"{label}: start of the support")
        pr = zs[0].params[0]
        us = tab.used(pr)
        B.true(len(us) == 1 and us[0].kind == "beta", f"{label}: success chance built from {[z.kind for z in us]} instead of one beta draw")
        if not (len(us) == 1 and us[0].kind == "beta"):
            return zs + us
        from vlib import sym as S
        flip = S.lower((pr + us[0].value - 1).n).coef == 0
        B.eq(pr, 1 - us[0].value if flip else us[0].value, f"{label}: success chance")
        B.eq(us[0].params[0], b if flip else a, f"{label}: first shape of the beta draw")
        B.eq(us[0].params[1], a if flip else b, f"{label}: second shape of the beta draw")
        return zs + us

    def comp_gamma(B, tab, v, a, b, q, label):
        zs = tab.used(v)
        ok = len(zs) == 2 and all(z.kind == "gamma" for z in zs)
        B.true(ok, f"{label}: built from {[z.kind for z in zs]} instead of two gamma draws")
        if not ok:
            return zs
        from vlib import sym as S
        g, r = zs
        if law.names(g)[0] in S.free_vars(v / g.value):      # the sample is proportional to its own draw
            g, r = r, g
        B.eq(v * r.value, q * g.value, f"{label}: ratio of the gamma draws")
        B.eq(g.params[0], a, f"{label}: shape of the sample's draw")
        B.eq(r.params[0], b, f"{label}: shape of the rate's draw")
        return zs

    def statistics(B, a, b, q, at, draw):
        from scipy.special import betainc, betaln as bl
        rng = np.random.default_rng(B.rng.randrange(2 ** 31) if B.rng else 3)
        np.random.seed(int(rng.integers(2 ** 31)))
        B.assume(np.min(a) >= 0.3 and np.min(b) >= 0.3)
        one_state = B.RandomState(5) if st == "RandomState" else B.default_rng(5)
        count = [0]

        def sample():
            count[0] += 1
            kw = {} if st == "omitted" else {"random_state": one_state if st in ("RandomState", "Generator") else state(B, st, 1000 + 7919 * count[0])}
            row = []
            for _ in range(2 if twice and st not in ("int", "np int") else 1):
                r = draw(kw)
                B.true(np.shape(r) == shape, f"shape {np.shape(r)} instead of {shape}")
                if np.shape(r) != shape:
                    raise Stop
                for ix in np.ndindex(shape):
                    v = np.asarray(r)[ix]
                    aa, bb, qq = at(a, ix), at(b, ix), at(q, ix)
                    if cls == "BetaGeometric":
                        k = float(v) - (1 if one else 0)
                        if k < 0 or k != int(k):
                            row.append(np.nan)
                            continue
                        hi, lo = np.exp(bl(aa, bb + k) - bl(aa, bb)), np.exp(bl(aa, bb + k + 1) - bl(aa, bb))
                        row.append(1 - (lo + rng.random() * (hi - lo)))
                    else:
                        row.append(betainc(aa, bb, v / (v + qq)))
            return row

        law.judge(B, sample, None)
    return fn


CASES = []
for one in (True, False):
    t = f"BetaGeometric start {1 if one else 0}"
    for form in ("number", "array", "list", "real"):
        CASES.append(Case(f"{t}: mass of the mixture ({form})", pmf_point(one, form)))
    CASES.append(Case(f"{t}: all probability", pmf_total(one)))
    CASES += [Case(f"{t}: zero {k} the support", pmf_outside(one, k)) for k in ("below", "between")]
    CASES += [Case(f"{t}: elementwise, points a {s}", elementwise("BetaGeometric", s, one)) for s in ("vector", "number", "column")]
for form in ("number", "array", "list"):
    CASES.append(Case(f"CompoundGamma: density of the mixture ({form})", pdf_point(form)))
CASES += [Case("CompoundGamma: scale", pdf_scale), Case("CompoundGamma: reciprocal", pdf_recip), Case("CompoundGamma: special cases with closed distribution function", pdf_total)]
CASES += [Case(f"CompoundGamma: points {k} the support", pdf_outside(k)) for k in ("below", "zero")]
CASES += [Case(f"CompoundGamma: elementwise, points a {s}", elementwise("CompoundGamma", s)) for s in ("vector", "number", "column")]
for cls, ones in (("BetaGeometric", (True, False)), ("CompoundGamma", (True,))):
    for one in ones:
        t = cls + ("" if cls == "CompoundGamma" else f" start {1 if one else 0}")
        for form in ("number", "array", "list") + (("between",) if cls == "BetaGeometric" else ()):
            CASES.append(Case(f"{t}: distribution function ({form})", cdf_point(cls, form, one)))
        CASES.append(Case(f"{t}: distribution function below the support", cdf_below(cls, one)))
        CASES += [Case(f"{t}: distribution function elementwise, points a {s}", elementwise(cls, s, one, True)) for s in ("vector", "number", "column")]
for cls, one, t in (("BetaGeometric", True, "BetaGeometric start 1"), ("BetaGeometric", False, "BetaGeometric start 0"), ("CompoundGamma", True, "CompoundGamma")):
    for cdf in (False, True):
        l = "distribution function " if cdf else ""
        CASES += [Case(f"{t}: {l}elementwise, {m} elements, points a {s}", elementwise(cls, s, one, cdf, m), runs=2) for m, s in ((11, "vector"), (11, "number"), (4, "column"))]
CASES += [Case("integers: " + c.name, whole(c.fn)) for c in list(CASES) if "mixture" in c.name or "support" in c.name or "elementwise" in c.name and "elements" not in c.name or "distribution function (" in c.name]
SIZES = [(None, False), (1, False), (3, False), ((2,), False), ((2, 2), False), (None, True), (2, True), ((2, 2), True), ((1, 2), False), ((2, 1), False), ((1, 2), True), ((1, 1), False), (12, False)]
if TIER == "thorough":
    SIZES += [((3, 2), True), ((2, 2, 2), False), (6, False)]
for cls, ones in (("BetaGeometric", (True, False)), ("CompoundGamma", (True,))):
    for one in ones:
        t = cls + ("" if cls == "CompoundGamma" else f" start {1 if one else 0}")
        for st in STATES:
            for size, vec in SIZES:
                CASES.append(Case(f"{t}: samples, state {st}, size {size}{', vectors' if vec else ''}", rvs(cls, one, st, size, vec), runs=1, timeout=240))
            if st not in ("int", "np int"):
                CASES.append(Case(f"{t}: samples, state {st}, two calls", rvs(cls, one, st, 2, False, True), runs=1, timeout=240))
        CASES.append(Case(f"{t}: samples, positional arguments", rvs(cls, one, "int", 2, False, how="positional"), runs=1, timeout=240))
