"""Stand-ins for scipy.special and scipy.stats: documented log densities and sampling as
symbolic functions of tagged base noise (scipy itself is trusted to implement its documentation)."""
from __future__ import annotations

import math
from fractions import Fraction

import numpy as np
import scipy
import scipy.special as _rsp
import scipy.stats as _rst

from . import sym as S
from .loader import register_proxy
from .npx import (NP, RANDOM_OVER, Proxy, SymArray, _has_sym, _isnan, _lgamma, _log1, arr, det, ew, inv,
                  is_scalar, ssym, unsupported, wrap)
from .sym import CTX, ONE, ZERO, Sym, Unsupported, b_cmp, mk

NINF = -math.inf
HALF = Fraction(1, 2)


def ln(x):
    return _log1(x)


def lg(x):
    return _lgamma(x)


def lbeta(a, b):
    return lg(a) + lg(b) - lg(ssym(a) + b)


def exp(x):
    if isinstance(x, float):
        return math.exp(x)
    return x.exp()


def pos(x, what):
    x = ssym(x)
    if isinstance(x, float):
        if not x > 0:
            CTX.oblige(S.FALSE, what)
        raise Unsupported("infinite parameter")
    CTX.oblige(b_cmp("lt", ZERO, x.n), what)
    return x


# --------------------------------------------------------------------------- scipy.special
def _i0(x):
    return Sym(mk("fn", "i0", ssym(x).n))


def _xlogy(x, y):
    x = ssym(x)
    if S.is_const(x.n) and x.n.args[0] == 0:
        return Sym(ZERO)
    return x * ln(y)


def _uf(name):
    def f(*a):
        return Sym(mk("fn", name, *[ssym(x).n for x in a]))

    return f


def _comb_ln(n, k):
    n, k = ssym(n), ssym(k)
    return lg(n + 1) - lg(k + 1) - lg(n - k + 1)


def _gamma(x):
    return lg(x).exp()


def _logsumexp(a, axis=None, b=None, **k):
    if axis is not None or b is not None:
        raise Unsupported("logsumexp with axis/b")
    return sum((exp(ssym(x)) for x in np.asarray(a, dtype=object).reshape(-1)), Sym(ZERO)).log()


def _lift(f):
    return lambda *a, **k: ew(lambda *x: f(*x), *a)


SPECIAL = {
    "gammaln": _lift(lg), "loggamma": _lift(lg), "gamma": _lift(_gamma), "beta": _lift(lambda a, b: lbeta(a, b).exp()),
    "betaln": _lift(lbeta), "i0": _lift(_i0), "i0e": _lift(lambda x: _i0(x) * (-abs(ssym(x))).exp()),
    "i1": _lift(_uf("i1")), "digamma": _lift(_uf("digamma")), "psi": _lift(_uf("digamma")),
    "xlogy": _lift(_xlogy), "xlog1py": _lift(lambda x, y: _xlogy(x, 1 + ssym(y))),
    "log1p": _lift(lambda x: ssym(x).log1p()), "expm1": _lift(lambda x: ssym(x).expm1()),
    "comb": lambda n, k, exact=False, repetition=False: ew(lambda a, b: _comb_ln(a, b).exp(), n, k),
    "binom": _lift(lambda n, k: _comb_ln(n, k).exp()), "factorial": lambda n, exact=False: ew(lambda a: lg(ssym(a) + 1).exp(), n),
    "poch": _lift(lambda z, m: (lg(ssym(z) + m) - lg(z)).exp()), "rgamma": _lift(lambda x: (-lg(x)).exp()),
    "logsumexp": _logsumexp, "iv": _lift(lambda v, x: _i0(x) if v == 0 else _uf("iv")(v, x)),
    "expit": _lift(lambda x: 1 / (1 + (-ssym(x)).exp())), "multigammaln": lambda a, d: lmvgamma(a, d),
    "betainc": _lift(_uf("betainc")), "gammainc": _lift(_uf("gammainc")), "ndtr": _lift(_uf("ndtr")),
    "entr": _lift(lambda x: -(ssym(x) * ln(x))),
}
SPECIALP = Proxy("scipy.special", _rsp, SPECIAL, only=True)


def lmvgamma(a, d):
    r = Fraction(d * (d - 1), 4) * ln(Sym(S.PI))
    for j in range(d):
        r = r + lg(ssym(a) - Fraction(j, 2))
    return r


# --------------------------------------------------------------------------- randomness
class Noise:
    """One base random draw."""

    def __init__(self, key, kind, params, value):
        self.key, self.kind, self.params, self.value = key, kind, params, value


class Streams:
    def __init__(self):
        self.reset()

    def reset(self):
        self.noise = []      # in drawing order
        self.by_key = {}
        self.count = 0
        self.glob = SymRNG(("global",))


class SymRNG:
    """Stands for a Generator or RandomState; every draw uses the next stream position."""

    def __init__(self, key, kind="Generator"):
        self.key, self.pos, self.kind = key, 0, kind
        self.children = 0

    def __deepcopy__(self, memo):
        c = SymRNG(self.key, self.kind)
        c.pos = self.pos
        return c

    __copy__ = lambda self: self.__deepcopy__({})

    def next(self):
        self.pos += 1
        return self.key + (self.pos - 1,)

    def spawn(self, n):
        out = []
        for _ in range(n):
            out.append(SymRNG(self.key + ("spawn", self.children)))
            self.children += 1
        return out

    @property
    def bit_generator(self):
        return self

    @property
    def seed_seq(self):
        return self

    # numpy's own samplers
    def _shape(self, size, *params):
        return univ_shape(size, *params, strict=False)

    def standard_normal(self, size=None, **k):
        return sample_univ("norm", (), 0, 1, size, self, strict=False)

    def normal(self, loc=0.0, scale=1.0, size=None):
        return sample_univ("norm", (), loc, scale, size, self, strict=False)

    def gamma(self, shape, scale=1.0, size=None):
        return sample_univ("gamma", (shape,), 0, scale, size, self, strict=False)

    def standard_gamma(self, shape, size=None, **k):
        return sample_univ("gamma", (shape,), 0, 1, size, self, strict=False)

    def chisquare(self, df, size=None):
        return sample_univ("gamma", (ew(lambda x: ssym(x) / 2, df),), 0, 2, size, self, strict=False)

    def exponential(self, scale=1.0, size=None):
        return sample_univ("gamma", (1,), 0, scale, size, self, strict=False)

    def beta(self, a, b, size=None):
        return sample_univ("beta", (a, b), 0, 1, size, self, strict=False)

    def geometric(self, p, size=None):
        return sample_univ("geom", (p,), 0, 1, size, self, strict=False)

    def multivariate_normal(self, mean, cov, size=None, **k):
        return sample_mvn(mean, cov, size, self, squeeze=False)

    def integers(self, *a, size=None, **k):
        if size is None:
            key = self.next()
            return DerivedSeed(("derived",) + key)
        n = int(np.prod(np.atleast_1d(size)))
        out = np.empty(n, dtype=object)
        for i in range(n):
            out[i] = DerivedSeed(("derived",) + self.next())
        return out.reshape(size)

    randint = integers

    def random(self, *a, **k):
        raise Unsupported("raw uniform draws")

    uniform = rand = random_sample = random


class DerivedSeed(int):
    """An integer seed drawn from a stream."""

    def __new__(cls, key):
        o = int.__new__(cls, 0)
        o.key = key
        return o

    def __hash__(self):
        return hash(self.key)

    def __eq__(self, o):
        return isinstance(o, DerivedSeed) and o.key == self.key


STREAMS = Streams()


def seed_key(seed):
    if isinstance(seed, DerivedSeed):
        return seed.key
    if isinstance(seed, SymSeedSeq):
        return seed.key
    if isinstance(seed, (int, np.integer)):
        return ("seed", int(seed))
    if isinstance(seed, (list, tuple, np.ndarray)):
        return ("seed", tuple(int(x) for x in seed))
    raise Unsupported(f"seed {seed!r}")


class SymSeedSeq:
    def __init__(self, entropy=None, **k):
        self.key = ("ss",) + (seed_key(entropy) if entropy is not None else ("fresh", fresh()))
        self.children = 0

    def spawn(self, n):
        out = []
        for _ in range(n):
            c = SymSeedSeq.__new__(SymSeedSeq)
            c.key, c.children = self.key + (self.children,), 0
            self.children += 1
            out.append(c)
        return out


def fresh():
    STREAMS.count += 1
    return STREAMS.count


def check_random_state(rs=None):
    if rs is None or rs is RANDOM_MODULE:
        return STREAMS.glob
    if isinstance(rs, SymRNG):
        return rs
    return SymRNG(seed_key(rs), "RandomState")


def default_rng(seed=None):
    if seed is None:
        return SymRNG(("fresh", fresh()))
    if isinstance(seed, SymRNG):
        return seed
    return SymRNG(("gen",) + seed_key(seed))


class _GenMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, SymRNG) and x.kind == cls.kind

    def __call__(cls, seed=None):
        if seed is None:
            return SymRNG(("fresh", fresh()), cls.kind)
        if isinstance(seed, SymRNG):
            return seed
        return SymRNG(seed_key(seed), cls.kind)


Generator = _GenMeta("Generator", (), {"kind": "Generator"})
RandomState = _GenMeta("RandomState", (), {"kind": "RandomState"})
RANDOM_OVER.update(
    default_rng=default_rng, Generator=Generator, RandomState=RandomState, SeedSequence=SymSeedSeq,
    BitGenerator=type("BitGenerator", (), {}), PCG64=lambda s=None: default_rng(s),
    seed=unsupported("np.random.seed"),
)
for _m in ("normal", "gamma", "standard_normal", "standard_gamma", "beta", "geometric", "multivariate_normal", "randint", "exponential", "chisquare"):
    RANDOM_OVER[_m] = (lambda m: lambda *a, **k: getattr(STREAMS.glob, m)(*a, **k))(_m)
RANDOM_OVER["mtrand"] = None
from .npx import RANDOM as RANDOM_MODULE  # noqa: E402


def new_noise(rng, kind, params, make):
    key = rng.next()
    full = (key, kind, tuple(S.lower(ssym(p).n).key if not isinstance(p, np.ndarray) else tuple(S.lower(ssym(x).n).key for x in p.reshape(-1)) for p in params))
    old = STREAMS.by_key.get(full)
    if old is not None:
        STREAMS.noise.append(Noise(key, kind, params, old.value))
        return old.value
    nm = "noise!" + "_".join(str(x) for x in key) + "!" + kind
    n = sum(1 for k in STREAMS.by_key if k[0] == key and k[1] == kind)
    v = make(nm if not n else f"{nm}!{n}")
    z = Noise(key, kind, params, v)
    STREAMS.by_key[full] = z
    STREAMS.noise.append(z)
    return v


def univ_shape(size, *params, strict=True):
    b = np.broadcast_shapes(*[np.shape(p) for p in params])
    if size is None:
        # scipy drops leading dimensions of size one when no size is given; numpy's samplers do not
        while strict and b and b[0] == 1:
            b = b[1:]
        return b
    s = tuple(int(x) for x in np.atleast_1d(size))
    if strict:
        n = max(len(b), len(s))
        bb, ss = (1,) * (n - len(b)) + b, (1,) * (n - len(s)) + s
        if len(b) > len(s) and any(x != 1 for x in b[: len(b) - len(s)]) or not all(x == 1 or x == y for x, y in zip(bb, ss)):
            raise ValueError(f"size does not match the broadcast shape of the parameters. {s}, {s}, {b}")
        return s
    if np.broadcast_shapes(b, s) != s:
        raise ValueError("shape mismatch")
    return s


def _noise1(fam, shapes, rng):
    def mkvar(kind_cons):
        def f(nm):
            v = S.var(nm)
            kind_cons(v)
            return v
        return f

    if fam == "norm":
        return new_noise(rng, "normal", (), lambda nm: S.var(nm))
    if fam == "gamma":
        a = pos(shapes[0], "gamma draw with a non-positive shape")
        return new_noise(rng, "gamma", (a,), mkvar(lambda v: CTX.assume(v > 0)))
    if fam == "invgamma":
        return 1 / _noise1("gamma", shapes, rng)
    if fam == "beta":
        a, b = pos(shapes[0], "beta draw"), pos(shapes[1], "beta draw")
        return new_noise(rng, "beta", (a, b), mkvar(lambda v: (CTX.assume(v > 0), CTX.assume(v < 1))))
    if fam == "geom":
        p = ssym(shapes[0])
        CTX.oblige(S.b_and(b_cmp("lt", ZERO, p.n), b_cmp("le", p.n, ONE)), "geometric draw: p outside (0, 1]")

        def g(nm):
            v = S.var(nm, "int")
            CTX.assume(v >= 1)
            return v
        return new_noise(rng, "geom", (p,), g)
    if fam == "expon":
        return _noise1("gamma", (1,), rng)
    if fam == "betaprime":
        x = _noise1("gamma", (shapes[0],), rng)
        return x / _noise1("gamma", (shapes[1],), rng)
    if fam == "chi2":
        return 2 * _noise1("gamma", (ssym(shapes[0]) / 2,), rng)
    ps = tuple(ssym(x) for x in shapes)
    return new_noise(rng, fam, ps, lambda nm: S.var(nm))


def drop_leading(x, ndim):
    while np.ndim(x) > ndim:
        x = np.asarray(x, dtype=object)[0]
    return x


def sample_univ(fam, shapes, loc, scale, size, rng, strict=True):
    shp = univ_shape(size, *shapes, loc, scale, strict=strict)
    shapes, loc, scale = [drop_leading(x, len(shp)) for x in shapes], drop_leading(loc, len(shp)), drop_leading(scale, len(shp))
    bs = [np.broadcast_to(np.asarray(x, dtype=object), shp) for x in (*shapes, loc, scale)]
    out = np.empty(shp, dtype=object)
    for ix in np.ndindex(shp):
        *sh, lo, sc = [b[ix] for b in bs]
        sc = pos(sc, "scale of a draw must be positive") if not (isinstance(sc, int) and sc == 1) else 1
        z = _noise1(fam, sh, rng)
        out[ix] = lo + sc * z
    return out[()] if shp == () else out.view(SymArray)


def sample_mvn(mean, cov, size, rng, squeeze=True):
    mean = arr(np.atleast_1d(np.asarray(mean, dtype=object)))
    cov = arr(np.atleast_2d(np.asarray(cov, dtype=object)))
    d = mean.shape[0]
    n = 1 if size is None else int(np.prod(np.atleast_1d(size)))
    out = np.empty((n, d), dtype=object)
    for i in range(n):
        z = new_noise(rng, "mvn", (np.asarray(cov),), lambda nm: np.array([S.var(f"{nm}[{j}]") for j in range(d)], dtype=object))
        for j in range(d):
            out[i, j] = mean[j] + z[j]
    shp = (() if size is None else tuple(np.atleast_1d(size))) + (d,)
    out = out.reshape(shp)
    if squeeze:
        out = out.squeeze()
    return out[()] if out.ndim == 0 else out.view(SymArray)


def _wish_noise(df, V, rng):
    V = np.asarray(V, dtype=object)
    d = V.shape[0]

    def g(nm):
        m = np.empty((d, d), dtype=object)
        for i in range(d):
            for j in range(i + 1):
                m[i, j] = m[j, i] = S.var(f"{nm}[{i}{j}]")
        for k in range(1, d + 1):
            from .npx import _det
            CTX.assume(_det([list(r[:k]) for r in m[:k]]) > 0)
        return m

    return new_noise(rng, "wishart", (ssym(df), V), g)


# --------------------------------------------------------------------------- univariate families
class Outside(Exception):
    pass


def need(b):
    """Support condition (forks); outside the support the density is 0."""
    if not bool(b):
        raise Outside


def f_beta(y, a, b):
    need(y > 0), need(y < 1)
    return (a - 1) * ln(y) + (b - 1) * ln(1 - y) - lbeta(a, b)


def f_gamma(y, a):
    need(y > 0)
    return (a - 1) * ln(y) - y - lg(a)


def f_expon(y):
    need(y >= 0)
    return -y


def f_norm(y):
    return -(y * y) / 2 - HALF * ln(2 * Sym(S.PI))


def f_uniform(y):
    need(y >= 0), need(y <= 1)
    return Sym(ZERO)


def f_pareto(y, b):
    need(y >= 1)
    return ln(b) - (b + 1) * ln(y)


def f_invgamma(y, a):
    need(y > 0)
    return -(a + 1) * ln(y) - lg(a) - 1 / y


def f_t(y, v):
    return lg((v + 1) / 2) - lg(v / 2) - HALF * ln(v * Sym(S.PI)) - (v + 1) / 2 * ln(1 + y * y / v)


def f_lomax(y, c):
    need(y >= 0)
    return ln(c) - (c + 1) * ln(1 + y)


def f_vonmises(y, k):
    return k * y.cos() - ln(2 * Sym(S.PI)) - Sym(mk("fn", "lni0", k.n))


def f_lognorm(y, s):
    need(y > 0)
    return -ln(y) ** 2 / (2 * s * s) - ln(s) - ln(y) - HALF * ln(2 * Sym(S.PI))


def f_weibull(y, c):
    need(y > 0)
    return ln(c) + (c - 1) * ln(y) - y**c


def f_betaprime(y, a, b):
    need(y > 0)
    return (a - 1) * ln(y) - (a + b) * ln(1 + y) - lbeta(a, b)


def f_chi2(y, k):
    need(y > 0)
    return (k / 2 - 1) * ln(y) - y / 2 - k / 2 * ln(2) - lg(k / 2)


def f_genpareto(y, c):
    need(y >= 0)
    return -(1 + 1 / c) * ln(1 + c * y)


def f_burr12(y, c, d):
    need(y > 0)
    return ln(c) + ln(d) + (c - 1) * ln(y) - (d + 1) * ln(1 + y**c)


def lcomb(n, k):
    return lg(n + 1) - lg(k + 1) - lg(n - k + 1)


def d_binom(k, n, p):
    need(k >= 0), need(k <= n)
    return lcomb(n, k) + k * ln(p) + (n - k) * ln(1 - p)


def d_nbinom(k, n, p):
    need(k >= 0)
    return lg(k + n) - lg(k + 1) - lg(n) + n * ln(p) + k * ln(1 - p)


def d_poisson(k, mu):
    need(k >= 0)
    return k * ln(mu) - lg(k + 1) - mu


def d_geom(k, p):
    need(k >= 1)
    return (k - 1) * ln(1 - p) + ln(p)


def d_hypergeom(k, M, n, N):
    need(k >= 0), need(k <= n), need(k <= N), need(N - k <= M - n)
    return lcomb(n, k) + lcomb(M - n, N - k) - lcomb(M, N)


def d_betabinom(k, n, a, b):
    need(k >= 0), need(k <= n)
    return lcomb(n, k) + lbeta(k + a, n - k + b) - lbeta(a, b)


def d_betanbinom(k, n, a, b):
    need(k >= 0)
    return lg(n + k) - lg(k + 1) - lg(n) + lbeta(a + n, b + k) - lbeta(a, b)


def d_bernoulli(k, p):
    need(k >= 0), need(k <= 1)
    return k * ln(p) + (1 - k) * ln(1 - p)


def gt0(*names):
    return [(n, lambda x: x > 0) for n in names]


UNIV = {
    # name: (shape names, log density, parameter conditions by index, discrete)
    "beta": ("a b", f_beta, {0: "pos", 1: "pos"}, False),
    "gamma": ("a", f_gamma, {0: "pos"}, False),
    "erlang": ("a", f_gamma, {0: "pos"}, False),
    "expon": ("", f_expon, {}, False),
    "norm": ("", f_norm, {}, False),
    "uniform": ("", f_uniform, {}, False),
    "pareto": ("b", f_pareto, {0: "pos"}, False),
    "invgamma": ("a", f_invgamma, {0: "pos"}, False),
    "t": ("df", f_t, {0: "pos"}, False),
    "lomax": ("c", f_lomax, {0: "pos"}, False),
    "vonmises": ("kappa", f_vonmises, {0: "nonneg"}, False),
    "lognorm": ("s", f_lognorm, {0: "pos"}, False),
    "weibull_min": ("c", f_weibull, {0: "pos"}, False),
    "betaprime": ("a b", f_betaprime, {0: "pos", 1: "pos"}, False),
    "chi2": ("df", f_chi2, {0: "pos"}, False),
    "genpareto": ("c", f_genpareto, {0: "pos"}, False),
    "burr12": ("c d", f_burr12, {0: "pos", 1: "pos"}, False),
    "binom": ("n p", d_binom, {0: "nonneg", 1: "prob"}, True),
    "bernoulli": ("p", d_bernoulli, {0: "prob"}, True),
    "nbinom": ("n p", d_nbinom, {0: "pos", 1: "prob"}, True),
    "poisson": ("mu", d_poisson, {0: "nonneg"}, True),
    "geom": ("p", d_geom, {0: "prob"}, True),
    "hypergeom": ("M n N", d_hypergeom, {0: "nonneg", 1: "nonneg", 2: "nonneg"}, True),
    "betabinom": ("n a b", d_betabinom, {0: "nonneg", 1: "pos", 2: "pos"}, True),
    "betanbinom": ("n a b", d_betanbinom, {0: "nonneg", 1: "pos", 2: "pos"}, True),
}


def shape_cond(kind, x):
    if kind == "pos":
        return b_cmp("lt", ZERO, x.n)
    if kind == "nonneg":
        return b_cmp("le", ZERO, x.n)
    return S.b_and(b_cmp("le", ZERO, x.n), b_cmp("le", x.n, ONE))


def register_cdf(name):
    key = "cdf:" + name
    if key not in S.FN_EVAL:
        S.FN_EVAL[key] = lambda *a: float(getattr(_rst, name).cdf(a[-1], *a[:-1]))
    return key


class Frozen:
    def __init__(self, fam, shapes, loc, scale):
        self.fam, self.shapes, self.loc, self.scale = fam, shapes, loc, scale
        self.name = fam.name

    @property
    def dist(self):
        return self.fam

    @property
    def args(self):
        return tuple(self.shapes)

    @property
    def kwds(self):
        k = {"loc": self.loc}
        if not self.fam.discrete:
            k["scale"] = self.scale
        return k

    def _logp1(self, x, loc, scale, *sh):
        x = ssym(x)
        sh = [ssym(s) for s in sh]
        for s in sh + [ssym(loc), ssym(scale)]:
            if isinstance(s, float):
                raise Unsupported("infinite distribution parameter")
        for i, kind in self.fam.conds.items():
            CTX.oblige(shape_cond(kind, sh[i]), f"scipy.stats.{self.name}: invalid parameter {self.fam.names[i]}")
        if not (isinstance(scale, int) and scale == 1):
            pos(scale, f"scipy.stats.{self.name}: scale must be positive")
        if isinstance(x, float):
            return NINF if math.isinf(x) else math.nan
        try:
            y = (x - loc) / scale if not (isinstance(scale, int) and scale == 1) else x - loc
            if self.fam.discrete:
                if y.kind != "int":
                    y = y  # integrality is the harness's assumption
            r = self.fam.f(y, *sh)
        except Outside:
            return NINF
        if not self.fam.discrete and not (isinstance(scale, int) and scale == 1):
            r = r - ln(scale)
        return r

    def _logp(self, x):
        return ew(self._logp1, x, self.loc, self.scale, *self.shapes)

    def _p(self, x):
        return ew(lambda v: 0.0 if isinstance(v, float) and v == NINF else exp(v), self._logp(x))

    def logpdf(self, x):
        if self.fam.discrete:
            raise AttributeError(f"'rv_discrete_frozen' object has no attribute 'logpdf'")
        return self._logp(x)

    def pdf(self, x):
        if self.fam.discrete:
            raise AttributeError("'rv_discrete_frozen' object has no attribute 'pdf'")
        return self._p(x)

    def logpmf(self, x):
        if not self.fam.discrete:
            raise AttributeError("'rv_continuous_frozen' object has no attribute 'logpmf'")
        return self._logp(x)

    def pmf(self, x):
        if not self.fam.discrete:
            raise AttributeError("'rv_continuous_frozen' object has no attribute 'pmf'")
        return self._p(x)

    def _cdf1(self, x, loc, scale, *sh):
        y = (ssym(x) - loc) if isinstance(scale, int) and scale == 1 else (ssym(x) - loc) / pos(scale, "scale must be positive")
        if self.name == "betaprime":
            return S.fn("betainc", *sh, y / (1 + y)) if bool(y > 0) else Sym(S.ZERO)
        return Sym(mk("fn", register_cdf(self.name), *[ssym(s).n for s in sh], y.n))

    def cdf(self, x):
        return ew(self._cdf1, x, self.loc, self.scale, *self.shapes)

    def sf(self, x):
        return ew(lambda v: 1 - v, self.cdf(x))

    def rvs(self, size=None, random_state=None):
        rng = check_random_state(random_state if random_state is not None else self.fam.random_state)
        return sample_univ(self.name, self.shapes, self.loc, 1 if self.fam.discrete else self.scale, size, rng)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        if n in ("mean", "var", "std", "ppf", "isf", "support", "interval", "median", "moment", "stats", "entropy", "expect"):
            return unsupported(f"scipy.stats.{self.name}.{n}")
        raise AttributeError(f"{n}")


class Family:
    def __init__(self, name):
        names, self.f, self.conds, self.discrete = UNIV[name]
        self.name, self.names = name, names.split()
        self.random_state = None
        if not self.discrete:
            self.pdf = self._m("pdf")
            self.logpdf = self._m("logpdf")
        else:
            self.pmf = self._m("pmf")
            self.logpmf = self._m("logpmf")
        self.cdf, self.sf = self._m("cdf"), self._m("sf")

    def parse(self, args, kw):
        order = self.names + (["loc"] if self.discrete else ["loc", "scale"])
        if len(args) > len(order):
            raise TypeError("_parse_args() takes too many positional arguments")
        d = dict(zip(order, args))
        for k, v in kw.items():
            if k in d:
                raise TypeError(f"_parse_args() got multiple values for argument '{k}'")
            if k not in order:
                raise TypeError(f"_parse_args() got an unexpected keyword argument '{k}'")
            d[k] = v
        miss = [n for n in self.names if n not in d]
        if miss:
            raise TypeError(f"_parse_args() missing {len(miss)} required positional arguments: {miss}")
        prep = lambda v: wrap(np.asarray(v, dtype=object)) if isinstance(v, (list, tuple)) else v
        return Frozen(self, [prep(d[n]) for n in self.names], prep(d.get("loc", 0)), prep(d.get("scale", 1)))

    def __call__(self, *a, **k):
        return self.parse(a, k)

    freeze = __call__

    def _m(self, name):
        return lambda x, *a, **k: getattr(self.parse(a, k), name)(x)

    def rvs(self, *a, size=None, random_state=None, **k):
        return self.parse(a, k).rvs(size=size, random_state=random_state)


# --------------------------------------------------------------------------- multivariate families
def _vec(x):
    return arr(np.atleast_1d(np.asarray(x, dtype=object)))


def _mat(x, d=None):
    m = np.asarray(x, dtype=object)
    if m.ndim == 0:
        m = m.reshape(1, 1)
    elif m.ndim == 1:
        m = np.diag(m)
    return arr(m)


def quad(M, v):
    return sum((v[i] * M[i, j] * v[j] for i in range(len(v)) for j in range(len(v))), Sym(ZERO))


def require_spd(m, what):
    m = np.asarray(m, dtype=object)
    d = m.shape[0]
    if m.ndim != 2 or m.shape[0] != m.shape[1]:
        raise ValueError(f"{what} must be a square matrix")
    from .npx import _det
    for i in range(d):
        for j in range(i):
            CTX.oblige(S.BNode("eq", ssym(m[i, j]).n, ssym(m[j, i]).n), f"{what} must be symmetric")
    for k in range(1, d + 1):
        CTX.oblige(b_cmp("lt", ZERO, ssym(_det([list(r[:k]) for r in m[:k]])).n), f"{what} must be positive definite")


def rows(f, x, d):
    """Apply a log density of one point over the leading dimensions of x."""
    x = np.asarray(x, dtype=object)
    if x.ndim == 0:
        x = x.reshape(1)
    if d == 1 and x.shape[-1] != 1:
        x = x[..., None]
    out = np.empty(x.shape[:-1], dtype=object)
    for ix in np.ndindex(out.shape):
        out[ix] = f(x[ix])
    return out[()] if out.ndim == 0 else out.view(SymArray)


class MvFrozen:
    def __init__(self, logp, kind, rvs=None, **params):
        self._l = logp
        self._r = rvs
        self.__dict__.update(params)
        if kind == "pdf":
            self.logpdf = logp
            self.pdf = lambda x: ew(exp, logp(x))
        else:
            self.logpmf = logp
            self.pmf = lambda x: ew(lambda v: 0.0 if isinstance(v, float) and v == NINF else exp(v), logp(x))

    def rvs(self, size=None, random_state=None):
        if self._r is None:
            raise Unsupported("rvs of this multivariate distribution")
        return self._r(size, check_random_state(random_state))


class MvFamily:
    def __init__(self, name, freeze, kind):
        self.name, self._freeze, self.kind = name, freeze, kind

    def __call__(self, *a, **k):
        k.pop("seed", None)
        return self._freeze(*a, **k)

    def _m(self, n):
        return lambda x, *a, **k: getattr(self._freeze(*a, **k), n)(x)

    def __getattr__(self, n):
        if n in ("pdf", "logpdf", "pmf", "logpmf"):
            return self._m(n)
        raise AttributeError(n)

    def rvs(self, *a, size=None, random_state=None, **k):
        return self._freeze(*a, **k).rvs(size=size, random_state=random_state)


def mvn(mean=None, cov=1, allow_singular=False):
    if mean is None:
        cov = _mat(cov)
        mean = np.zeros(cov.shape[0])
    mean = _vec(mean)
    cov = np.asarray(cov, dtype=object)
    cov = arr(np.eye(len(mean)) * cov) if cov.ndim == 0 and len(mean) > 1 else _mat(cov)
    d = len(mean)
    if cov.shape != (d, d):
        raise ValueError("Array 'mean' must be a vector of length %d." % cov.shape[0])
    require_spd(cov, "multivariate normal covariance")

    def lp(x):
        P, dt = inv(cov), ssym(det(cov))

        def one(v):
            r = [v[i] - mean[i] for i in range(d)]
            return -quad(P, r) / 2 - ln(dt) / 2 - Fraction(d, 2) * ln(2 * Sym(S.PI))

        return rows(one, x, d)

    return MvFrozen(lp, "pdf", lambda size, rng: sample_mvn(mean, cov, 1 if size is None else size, rng), mean=mean, cov=cov)


def mvt(loc=None, shape=1, df=1, allow_singular=False):
    shape_ = np.asarray(shape, dtype=object)
    if loc is None:
        loc = np.zeros(_mat(shape_).shape[0])
    loc = _vec(loc)
    d = len(loc)
    shape = arr(np.eye(d) * shape_) if shape_.ndim == 0 and d > 1 else _mat(shape_)
    if shape.shape != (d, d):
        raise ValueError("Array 'loc' must be a vector of length %d." % shape.shape[0])
    require_spd(shape, "multivariate t shape matrix")
    df = pos(df, "degrees of freedom must be positive")

    def lp(x):
        P, dt = inv(shape), ssym(det(shape))

        def one(v):
            r = [v[i] - loc[i] for i in range(d)]
            return (lg((df + d) / 2) - lg(df / 2) - Fraction(d, 2) * ln(df * Sym(S.PI)) - ln(dt) / 2
                    - (df + d) / 2 * ln(1 + quad(P, r) / df))

        return rows(one, x, d)

    return MvFrozen(lp, "pdf", None, loc=loc, shape=shape, df=df)


def dirichlet(alpha):
    a = np.asarray(alpha, dtype=object)
    if a.ndim != 1:
        raise ValueError("Parameter vector 'a' must be one dimensional, but a.shape = %s." % (a.shape,))
    for x in a:
        pos(x, "dirichlet parameters must be positive")
    k = len(a)

    def lp(x):
        x = np.asarray(x, dtype=object)
        if x.shape[0] == k - 1:
            x = np.concatenate([x, [1 - sum(x, Sym(ZERO))]])
        s = lg(sum((ssym(v) for v in a), Sym(ZERO)))
        for i in range(k):
            s = s - lg(a[i]) + (ssym(a[i]) - 1) * ln(x[i])
        return s

    def mean():
        t = sum((ssym(v) for v in a), Sym(ZERO))
        return arr([ssym(v) / t for v in a])

    def rvs(size, rng):
        n = 1 if size is None else int(size)
        out = np.empty((n, k), dtype=object)
        for i in range(n):
            z = new_noise(rng, "dirichlet", (a,), lambda nm: np.array([S.var(f"{nm}[{j}]") for j in range(k)], dtype=object))
            out[i] = z
        return (out if size is not None else out).view(SymArray)

    f = MvFrozen(lp, "pdf", rvs, alpha=a)
    f.mean = mean
    return f


def multinomial(n, p):
    p = _vec(p)

    def lp(x):
        def one(v):
            try:
                for xi in v:
                    need(xi >= 0)
                tot = sum((ssym(xi) for xi in v), Sym(ZERO))
                need(tot == n)
            except Outside:
                return NINF
            return lg(ssym(n) + 1) + sum((ssym(xi) * ln(pi) - lg(ssym(xi) + 1) for xi, pi in zip(v, p)), Sym(ZERO))

        return rows(one, x, 2)

    return MvFrozen(lp, "pmf", None, n=n, p=p)


def dirichlet_multinomial(alpha, n):
    al = np.asarray(alpha, dtype=object)
    if al.ndim == 0:
        raise ValueError("`alpha` must be a vector")
    if al.ndim != 1 or np.ndim(n) != 0:
        raise Unsupported("batched dirichlet_multinomial")
    for x in al:
        pos(x, "All values in `alpha` must be greater than zero.")
    n = ssym(n)

    def lp(x):
        def one(v):
            tot = sum((ssym(xi) for xi in v), Sym(ZERO))
            try:
                need(tot == n)
            except Outside:
                return NINF
            A = sum((ssym(x) for x in al), Sym(ZERO))
            r = lg(A) + lg(n + 1) - lg(n + A)
            for xi, ai in zip(v, al):
                r = r + lg(ssym(xi) + ai) - lg(ai) - lg(ssym(xi) + 1)
            return r

        return rows(one, x, 2)

    return MvFrozen(lp, "pmf", None, alpha=al, n=n)


def _wishart(df=None, scale=None):
    V = _mat(scale)
    d = V.shape[0]
    require_spd(V, "Wishart scale matrix")
    df = ssym(df)
    CTX.oblige(b_cmp("lt", S.const(d - 1), df.n), "Degrees of freedom must be greater than the dimension of scale matrix minus 1.")

    def lp(x):
        X = _mat(x)
        P = inv(V)
        tr = sum((P[i, j] * X[j, i] for i in range(d) for j in range(d)), Sym(ZERO))
        return ((df - d - 1) / 2 * ln(ssym(det(X))) - tr / 2 - df * d / 2 * ln(2) - df / 2 * ln(ssym(det(V))) - lmvgamma(df / 2, d))

    def rvs(size, rng):
        n = 1 if size is None else int(size)
        out = np.stack([_wish_noise(df, V, rng) for _ in range(n)]).squeeze()
        return out[()] if out.ndim == 0 else out.view(SymArray)

    return MvFrozen(lp, "pdf", rvs, df=df, scale=V)


def _invwishart(df=None, scale=None):
    V = _mat(scale)
    d = V.shape[0]
    require_spd(V, "inverse Wishart scale matrix")
    df = ssym(df)
    CTX.oblige(b_cmp("lt", S.const(d - 1), df.n), "Degrees of freedom must be greater than the dimension of scale matrix minus 1.")

    def lp(x):
        X = _mat(x)
        P = inv(X)
        tr = sum((V[i, j] * P[j, i] for i in range(d) for j in range(d)), Sym(ZERO))
        return (df / 2 * ln(ssym(det(V))) - df * d / 2 * ln(2) - lmvgamma(df / 2, d) - (df + d + 1) / 2 * ln(ssym(det(X))) - tr / 2)

    def rvs(size, rng):
        n = 1 if size is None else int(size)
        W = inv(V)
        out = np.stack([np.asarray(inv(_wish_noise(df, W, rng))) for _ in range(n)]).squeeze()
        return out[()] if out.ndim == 0 else out.view(SymArray)

    return MvFrozen(lp, "pdf", rvs, df=df, scale=V)


# --------------------------------------------------------------------------- kde (used by the Dirichlet plot)
class FakeKDE:
    """gaussian_kde stand-in: remembers its sample; evaluating gives one opaque value per (sample, point)."""

    def __init__(self, x, *a, **k):
        self.sample = np.asarray(x, dtype=object)

    def __call__(self, xx):
        h = hash(tuple(S.lower(ssym(v).n).key for v in self.sample.reshape(-1)))
        return ew(lambda p: Sym(mk("fn", f"kde{h}", ssym(p).n)), xx)

    evaluate = pdf = __call__


STATS_OVER = {n: Family(n) for n in UNIV}
STATS_OVER.update(
    multivariate_normal=MvFamily("multivariate_normal", mvn, "pdf"), multivariate_t=MvFamily("multivariate_t", mvt, "pdf"),
    dirichlet=MvFamily("dirichlet", dirichlet, "pdf"), multinomial=MvFamily("multinomial", multinomial, "pmf"),
    dirichlet_multinomial=MvFamily("dirichlet_multinomial", dirichlet_multinomial, "pmf"),
    wishart=MvFamily("wishart", _wishart, "pdf"), invwishart=MvFamily("invwishart", _invwishart, "pdf"),
    gaussian_kde=FakeKDE,
)
STATSP = Proxy("scipy.stats", _rst, STATS_OVER, only=True)


class _ScipyP(Proxy):
    pass


SCIPYP = Proxy("scipy", scipy, {"stats": STATSP, "special": SPECIALP})
from .npx import SLA  # noqa: E402

SCIPYP._over["linalg"] = SLA
register_proxy("scipy", SCIPYP)
register_proxy("scipy.stats", STATSP)
register_proxy("scipy.special", SPECIALP)
import types as _t  # noqa: E402

_LIBU = _t.ModuleType("scipy._lib._util")
_LIBU.check_random_state = check_random_state
_LIBU.rng_integers = lambda *a, **k: unsupported("rng_integers")()
register_proxy("scipy._lib._util", _LIBU)
register_proxy("scipy.stats._distn_infrastructure", STATSP)
