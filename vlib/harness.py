"""Backends (symbolic / concrete), case runner, counterexample replay and evidence."""
from __future__ import annotations

import json
import math
import multiprocessing as mp
import os
import random
import signal
import sys
import time
import traceback
import warnings
from fractions import Fraction

import numpy as np

from . import sym as S
from .loader import real_modules, sym_modules
from .sym import CTX, STATS, BNode, Infeasible, Reject, Sym, SymBool, Unsupported, b_and, b_cmp, b_not, const, to_node

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)


class Stop(BaseException):
    """The rest of this case is pointless on this path (a violation was recorded)."""


class Case:
    def __init__(self, name, fn, tier="quick", validate=True, runs=3, timeout=240, max_paths=400, note="", replays=40, tol=1e-6):
        self.name, self.fn, self.tier, self.validate, self.runs = name, fn, tier, validate, runs
        self.timeout, self.max_paths, self.note, self.replays, self.tol = timeout, max_paths, note, replays, tol


# --------------------------------------------------------------------------- shared front end
class Backend:
    symbolic = False

    # data
    def vec(self, name, n, dom="real", **k):
        return self.arr([self.real(f"{name}[{i}]", dom) for i in range(n)])

    def ivec(self, name, n, lo=0, hi=None):
        return self.arr([self.int(f"{name}[{i}]", lo, hi) for i in range(n)])

    def mat(self, name, r, c, dom="real"):
        return self.arr([[self.real(f"{name}[{i},{j}]", dom) for j in range(c)] for i in range(r)])

    def simplex(self, name, k):
        """k probabilities adding to one."""
        ps, rest = [], 1
        for i in range(k - 1):
            p = self.real(f"{name}[{i}]", (0, rest))
            ps.append(p)
            rest = rest - p
        return self.arr(ps + [rest])

    def note(self, *a):
        pass

    # structure
    def is_type(self, obj, name, label="type"):
        self.true(type(obj).__name__ == name, f"{label}: expected a {name}, got {type(obj).__name__}")
        if type(obj).__name__ != name:
            raise Stop

    @property
    def M(self):
        return self.mod.models

    @property
    def D(self):
        return self.mod.dist


class Goal:
    __slots__ = ("label", "cond", "pc", "kind", "known", "alt")

    def __init__(self, label, cond, pc, kind="assert", known=None, alt=None):
        self.label, self.cond, self.pc, self.kind, self.known, self.alt = label, cond, pc, kind, known, alt


class SymBackend(Backend):
    symbolic = True

    def __init__(self, mod):
        self.mod = mod
        self.goals = []
        self.probes = []
        self.decl = {}
        self.ldl = {}

    def default_rng(self, seed):
        from . import stx
        return stx.default_rng(seed)

    def RandomState(self, seed):
        from . import stx
        return stx.RandomState(seed)

    # inputs
    def real(self, name, dom="real"):
        v = S.var(name)
        self._dom(v, dom)
        self.decl[name] = ("real", dom)
        return v

    def _dom(self, v, dom):
        if dom == "pos":
            CTX.assume(v > 0)
        elif dom == "nonneg":
            CTX.assume(v >= 0)
        elif dom == "unit":
            CTX.assume(v > 0)
            CTX.assume(v < 1)
        elif dom == "angle":
            pass
        elif isinstance(dom, tuple):
            if dom[0] is not None:
                CTX.assume(v > dom[0])
            if dom[1] is not None:
                CTX.assume(v < dom[1])
        elif dom != "real":
            raise ValueError(dom)

    def int(self, name, lo=0, hi=None):
        v = S.var(name, "int")
        if lo is not None:
            CTX.assume(v >= lo)
        if hi is not None:
            CTX.assume(v <= hi)
        self.decl[name] = ("int", lo, hi)
        return v

    def choice(self, name, options):
        """One of a finite list: forks."""
        i = self.int(name, 0, len(options) - 1)
        return options[i.__index__()]

    def bool(self, name):
        v = S.var(name)
        CTX.assume(v >= 0), CTX.assume(v <= 1)
        self.decl[name] = ("bool",)
        return bool(SymBool(BNode("eq", v.n, S.ONE)))

    def spd(self, name, d, diagonal=False):
        """Every positive definite (or diagonal) matrix, written L D L^T (L unit lower triangular, D positive)."""
        L = [[0 if diagonal and j < i else S.var(f"{name}.l[{i},{j}]") if j < i else (1 if i == j else 0) for j in range(d)] for i in range(d)]
        D = [S.var(f"{name}.d[{i}]") for i in range(d)]
        for x in D:
            CTX.assume(x > 0)
        m = np.empty((d, d), dtype=object)
        for i in range(d):
            for j in range(i + 1):
                m[i, j] = m[j, i] = sum((L[i][k] * D[k] * L[j][k] for k in range(j)), L[i][j] * D[j] * L[j][j])
        self.decl[name] = ("spd", d)
        m = self.arr(m)
        self.ldl[name] = (L, D)
        return m

    def factors(self, name):
        return self.ldl[name]

    def hint(self, w, x, positive=False):
        """w * x^2 >= 0 (w a product of positive quantities): a fact handed to the solver."""
        e = w * x * x
        if isinstance(e, Sym):
            r, _ = S.check(CTX.pc + [b_cmp("le" if positive else "lt", to_node(w), S.ZERO)], 4000, False, "branch")
            if r == "unsat":
                CTX.hints.append(e.n)

    def arr(self, x):
        from .npx import arr
        return arr(x)

    def intarr(self, x):
        return np.array(x, dtype=int)

    def assume(self, c):
        CTX.assume(c)

    # math
    def ln(self, x):
        from .npx import _log1
        return _log1(x)

    def lgamma(self, x):
        from .npx import _lgamma
        return _lgamma(x)

    def betainc(self, a, b, x):
        return S.fn("betainc", a, b, x)

    def exp(self, x):
        from .npx import ssym
        return ssym(x).exp()

    def sin(self, x):
        from .npx import ssym
        return ssym(x).sin()

    def cos(self, x):
        from .npx import ssym
        return ssym(x).cos()

    def sqrt(self, x):
        from .npx import ssym
        return ssym(x).sqrt()

    def lni0(self, x):
        from .npx import ssym
        return S.fn("lni0", ssym(x))

    def max(self, a, b):
        from .npx import _extreme
        return _extreme([a, b], 1)

    @property
    def pi(self):
        return Sym(S.PI)

    def inv(self, m):
        from .npx import inv
        return inv(m)

    def det(self, m):
        from .npx import det
        return det(m)

    def frac(self, p, q):
        return Fraction(p, q)

    # code
    def call(self, fn, *a, **k):
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                return fn(*a, **k)
        except (Exception, SystemExit) as e:
            if isinstance(e, RecursionError):
                raise
            self.goals.append(Goal(f"raises {type(e).__name__}: {str(e)[:160]}", S.FALSE, list(CTX.pc), "raise"))
            self.tb = traceback.format_exc(limit=-4)
            raise Stop

    def raises(self, exc, fn, label, contains=()):
        try:
            r = fn()
        except exc as e:
            for c in contains:
                self.true(c in str(e), f"{label}: message lacks {c!r}: {str(e)[:120]}")
            return
        except Exception as e:
            self.goals.append(Goal(f"{label}: raised {type(e).__name__} instead", S.FALSE, list(CTX.pc)))
            return
        self.goals.append(Goal(f"{label}: did not raise", S.FALSE, list(CTX.pc)))

    # assertions
    def true(self, c, label):
        if isinstance(c, (bool, np.bool_)):
            c = S.TRUE if c else S.FALSE
        elif isinstance(c, SymBool):
            c = c.b
        elif not isinstance(c, BNode):
            raise TypeError(c)
        self.goals.append(Goal(label, c, list(CTX.pc)))

    def _eqs(self, a, b, label, out):
        from .npx import ssym
        if a is None or b is None or isinstance(a, (str, bool)) and isinstance(b, (str, bool)):
            out.append((S.TRUE if a is b or a == b else S.FALSE, f"{label}: {a!r} != {b!r}", None))
            return
        if isinstance(a, (list, tuple)):
            a = np.asarray(a, dtype=object)
        if isinstance(b, (list, tuple)):
            b = np.asarray(b, dtype=object)
        if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
            if np.shape(a) != np.shape(b):
                out.append((S.FALSE, f"{label}: shape {np.shape(a)} instead of {np.shape(b)}", None))
                return
            if np.ndim(a) == 0:
                return self._eqs(np.asarray(a, dtype=object)[()], np.asarray(b, dtype=object)[()], label, out)
            for ix in np.ndindex(np.shape(a)):
                self._eqs(a[ix], b[ix], f"{label}{list(ix)}", out)
            return
        try:
            x, y = ssym(a), ssym(b)
        except TypeError:
            out.append((S.FALSE, f"{label}: {type(a).__name__} is not comparable with {type(b).__name__}", None))
            return
        if isinstance(x, float) or isinstance(y, float):
            same = isinstance(x, float) and isinstance(y, float) and x == y
            out.append((S.TRUE if same else S.FALSE, f"{label}: {x} != {y}", None))
            return
        out.append((BNode("eq", x.n, y.n), label, x.n))

    def eq(self, a, b, label, known=None, alt=None):
        out = []
        self._eqs(a, b, label, out)
        alts = [None] * len(out)
        if alt is not None:
            o2 = []
            self._eqs(a, alt, label, o2)
            alts = [x[0] for x in o2] if len(o2) == len(out) else alts
        for (c, l, node), al in zip(out, alts):
            if node is not None:
                self.probes.append((l, node))
            self.goals.append(Goal(l, c, list(CTX.pc), "assert", known, al))


# --------------------------------------------------------------------------- concrete backend
class Failure(Exception):
    pass


class Whole:
    """View of a backend in which every real number is a whole number (arrays of them are integer arrays)."""

    def __init__(self, B):
        self._B = B

    def real(self, name, dom="real"):
        B = self._B
        if dom in ("pos", "nonneg", "real"):
            return B.int(name, {"pos": 1, "nonneg": 0, "real": -6 if not B.symbolic else None}[dom])
        if isinstance(dom, tuple) and None in dom and all(v is None or not isinstance(v, float) for v in dom):
            lo, hi = dom
            return lo + B.int(name, 1) if lo is not None else hi - B.int(name, 1)
        return B.real(name, dom)

    def vec(self, name, n, dom="real", **k):
        return self._B.arr([self.real(f"{name}[{i}]", dom) for i in range(n)])

    def mat(self, name, r, c, dom="real"):
        return self._B.arr([[self.real(f"{name}[{i},{j}]", dom) for j in range(c)] for i in range(r)])

    def __getattr__(self, n):
        return getattr(self._B, n)


def whole(fn):
    """The case fn with whole numbers for all its inputs (matrices given as factors keep their values)."""
    return lambda B: fn(Whole(B))


def _fin(x):
    return float(x)


class FloatBackend(Backend):
    symbolic = False
    default_rng = staticmethod(np.random.default_rng)
    RandomState = staticmethod(np.random.RandomState)

    def __init__(self, mod, env=None, rng=None, tol=1e-6, sampled=None):
        self.mod, self.env, self.rng, self.tol = mod, dict(env or {}), rng, tol
        self.given = set(self.env)
        self.whole = False
        self.failures = []
        self.probes = []
        self.goals = []

    def _get(self, name, sample):
        if name not in self.env:
            if self.rng is None:
                self.rng = random.Random(7)
            self.env[name] = sample()
        return self.env[name]

    def real(self, name, dom="real"):
        r = lambda: self.rng
        lo = hi = None
        if dom == "real":
            s = lambda: round(r().uniform(-4, 4), 3)
        elif dom == "angle":
            s = lambda: round(r().uniform(-3, 3), 3)
        elif dom == "pos":
            lo, s = 0, lambda: round(math.exp(r().uniform(-1.2, 2)), 3)
        elif dom == "nonneg":
            s = lambda: round(math.exp(r().uniform(-1.2, 2)), 3)
        elif dom == "unit":
            lo, hi, s = 0, 1, lambda: round(r().uniform(0.05, 0.95), 3)
        else:
            lo, hi = dom
            if lo is None:
                s = lambda: hi - math.exp(r().uniform(-1.2, 1.5))
            elif hi is None:
                s = lambda: lo + math.exp(r().uniform(-1.2, 1.5))
            else:
                s = lambda: lo + (hi - lo) * r().uniform(0.05, 0.95)
        if self.whole and dom in ("real", "pos", "nonneg"):
            # a parameter given as an integer
            t = s
            s = lambda: int(math.ceil(t()))
            v = self._get(name, s)
            if float(v).is_integer():
                v = int(v)
                if (dom == "pos" and v <= 0) or (dom == "nonneg" and v < 0):
                    raise Reject
                return v
        v = float(self._get(name, s))
        if (lo is not None and not v > lo) or (hi is not None and not v < hi) or (dom == "nonneg" and v < 0):
            raise Reject
        return v

    def int(self, name, lo=0, hi=None):
        l = 0 if lo is None else int(math.ceil(lo))
        h = int(math.floor(hi)) if hi is not None else l + 12
        v = self._get(name, lambda: self.rng.randint(l, max(l, h)))
        if float(v) != int(v) or (lo is not None and v < lo) or (hi is not None and v > hi):
            raise Reject
        return int(v)

    def choice(self, name, options):
        return options[self.int(name, 0, len(options) - 1)]

    def bool(self, name):
        return self._get(name, lambda: self.rng.randint(0, 1)) == 1

    def spd(self, name, d, diagonal=False):
        L, D = np.eye(d), np.zeros(d)
        for i in range(d):
            D[i] = self.real(f"{name}.d[{i}]", "pos")
            for j in range(0 if diagonal else i):
                L[i, j] = self._get(f"{name}.l[{i},{j}]", lambda: round(self.rng.uniform(-1.5, 1.5), 3))
        m = L @ np.diag(D) @ L.T
        return (m + m.T) / 2

    def factors(self, name):
        return None

    def hint(self, *a, **k):
        pass

    def arr(self, x):
        def conv(v):
            if isinstance(v, (list, tuple, np.ndarray)) and np.ndim(v):
                return [conv(w) for w in v]
            return int(v) if isinstance(v, (int, np.integer)) else float(v)

        a = np.array(conv(x)) if isinstance(x, (list, tuple)) else np.array(x)
        if a.dtype == object:
            a = a.astype(float)
        return a

    intarr = lambda self, x: np.array(x, dtype=int)

    def assume(self, c):
        if not bool(c):
            raise Reject

    ln = lambda self, x: math.log(x) if x > 0 else (-math.inf if x == 0 else math.nan)
    exp = lambda self, x: math.exp(x)
    sin = lambda self, x: math.sin(x)
    cos = lambda self, x: math.cos(x)
    sqrt = lambda self, x: math.sqrt(x)
    pi = math.pi

    def lgamma(self, x):
        from scipy.special import gammaln
        return float(gammaln(x)) if x > 0 else math.nan

    def betainc(self, a, b, x):
        from scipy.special import betainc
        return float(betainc(a, b, x))

    def lni0(self, x):
        from scipy.special import i0e
        return math.log(i0e(x)) + abs(x)

    def max(self, a, b):
        return max(a, b)

    def inv(self, m):
        return np.linalg.inv(m)

    def det(self, m):
        return np.linalg.det(m)

    def frac(self, p, q):
        return p / q

    def call(self, fn, *a, **k):
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                return fn(*a, **k)
        except Exception as e:
            if out_of_range(e):
                raise Reject
            self.failures.append(f"raises {type(e).__name__}: {str(e)[:200]}")
            raise Stop

    def raises(self, exc, fn, label, contains=()):
        try:
            fn()
        except exc as e:
            for c in contains:
                self.true(c in str(e), f"{label}: message lacks {c!r}: {str(e)[:160]}")
            return
        except Exception as e:
            self.failures.append(f"{label}: raised {type(e).__name__} instead: {str(e)[:120]}")
            return
        self.failures.append(f"{label}: did not raise")

    def true(self, c, label):
        if isinstance(c, np.ndarray):
            c = c.all()
        if not bool(c):
            self.failures.append(label)

    def eq(self, a, b, label, known=None, alt=None):
        before = len(self.failures)
        self._eq(a, b, label)
        if len(self.failures) > before and known is not None and alt is not None and known in KNOWN:
            mark = len(self.failures)
            self._eq(a, alt, label, probe=False)
            if len(self.failures) == mark:
                del self.failures[before:]
                self.known_hit = known

    def _eq(self, a, b, label, probe=True):
        if a is None or b is None or isinstance(a, (str, bool)) and isinstance(b, (str, bool)):
            if not (a is b or a == b):
                self.failures.append(f"{label}: {a!r} instead of {b!r}")
            return
        try:
            x, y = np.asarray(a), np.asarray(b)
            if x.dtype == object or y.dtype == object:
                x, y = x.astype(float), y.astype(float)
        except (TypeError, ValueError):
            self.failures.append(f"{label}: {a!r} is not numeric")
            return
        if x.shape != y.shape:
            self.failures.append(f"{label}: shape {x.shape} instead of {y.shape}")
            return
        for ix in np.ndindex(x.shape):
            u, v = float(x[ix]), float(y[ix])
            l = label + (str(list(ix)) if ix else "")
            if probe:
                self.probes.append((l, u))
            if math.isnan(v) or abs(v) == math.inf and u != v:
                ok = math.isnan(u) and math.isnan(v)
            elif abs(u) == math.inf:
                # equal, or an underflow / overflow on the way
                ok = u == v or (v < -UNDERFLOW if u < 0 else v > UNDERFLOW)
            else:
                ok = u == v or abs(u - v) <= self.tol * (1 + max(abs(u), abs(v)))
            if not ok:
                self.failures.append(f"{l}: {u!r} instead of {v!r}")


# --------------------------------------------------------------------------- known findings
def load_known():
    p = os.path.join(ROOT, "known_findings.jsonl")
    out = {}
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line:
                d = json.loads(line)
                if d.get("status") == "known":
                    out[d["id"]] = d
    return out


KNOWN = load_known()


# --------------------------------------------------------------------------- running one case
_MODS: dict = {}


def mods():
    if not _MODS:
        _MODS["sym"] = sym_modules()
        _MODS["real"] = real_modules()
    return _MODS


def from_code(e):
    """Did the exception come out of the code under test?"""
    from .loader import PKG, REPO
    root = os.path.join(REPO, PKG) + os.sep
    tb = e.__traceback__
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(root):
            return True
        tb = tb.tb_next
    return False


MALFORMED = "the result does not have the form to be compared:"


def malformed(e):
    """An element, key or attribute the result should have is missing, or its shape fits nothing."""
    return isinstance(e, (IndexError, KeyError, AttributeError, TypeError, ValueError)) and not isinstance(e, Unsupported) and "math domain" not in str(e)


def out_of_range(e):
    """Overflow of floating point numbers is outside of the claims."""
    return isinstance(e, OverflowError) and any(s in str(e) for s in ("Numerical result out of range", "math range error"))


def run_float(case, env=None, rng=None):
    """-> (status, backend); status ok | fail | reject"""
    B = FloatBackend(mods()["real"], env, rng, case.tol)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            with np.errstate(all="ignore"):
                case.fn(B)
        except Reject:
            return "reject", B
        except Stop:
            pass
        except Exception as e:
            if out_of_range(e):
                return "reject", B
            if not from_code(e) and not malformed(e):
                raise
            B.failures.append(f"{'raises' if from_code(e) else MALFORMED} {type(e).__name__}: {str(e)[:200]}")
    return ("fail" if B.failures else "ok"), B


def box(decl, lo=Fraction(1, 8), hi=16, count=40):
    out = []
    for n, d in decl.items():
        if d[0] == "real":
            v = S.var(n)
            dom = d[1]
            if dom == "unit":
                out += [(v >= Fraction(1, 16)).b, (v <= Fraction(15, 16)).b]
            elif dom in ("pos", "nonneg"):
                out += [(v >= lo).b, (v <= hi).b]
            else:
                out += [(v >= -hi).b, (v <= hi).b]
        elif d[0] == "int":
            v = S.var(n)
            out += [(v <= count).b]
    return out


def far(goal):
    """The two sides of a failing equation differ by more than rounding could explain."""
    if goal.cond.op != "eq":
        return None
    x, y = S.Sym(goal.cond.args[0]), S.Sym(goal.cond.args[1])
    d = x - y
    return (d * d > Fraction(1, 10**6) * (1 + y * y)).b


UNDERFLOW = 600
SMALL, LARGE = 1e-7, 1e8


def extreme(env):
    """Magnitudes at which rounding cannot be told from a deviation: failures there are no evidence."""
    return any(isinstance(v, (int, float)) and v and not SMALL <= abs(v) <= LARGE for v in env.values())


def model_env(m, decl):
    names = {a.data for a in S.ATOMS if a.kind == "v"}
    env = {k: v for k, v in m.items() if k in names}
    for n, d in decl.items():
        if d[0] in ("int", "bool") and n in env:
            env[n] = int(round(env[n]))
    return {k: (int(v) if isinstance(v, int) or (isinstance(v, Fraction) and v.denominator == 1 and decl.get(k, ("",))[0] == "int") else float(v)) for k, v in env.items()}


def int_conds(decl):
    return [BNode("isint", S.var(n).n) for n, d in decl.items() if d[0] == "int"]


def find_counterexample(case, goal, decl, deadline):
    """Solve pc and not goal; replay models on the real code.
    -> ('unsat', ..) | ('violation', env, failures) | ('inconclusive', reason)"""
    neg = goal.pc + [b_not(goal.cond)]
    if goal.cond.op == "false":
        # still need a witness that the path is feasible
        neg = list(goal.pc)
    r, m = S.check(neg)
    if r == "unsat":
        return ("unsat",)
    S.CONGRUENT[0] = True
    try:
        if S.check(neg, 8000)[0] == "unsat":
            return ("unsat",)
    finally:
        S.CONGRUENT[0] = False
    tried = 0
    if r == "sat":
        envs = []
        wide = box(decl, Fraction(1, 10**6), 10**7, 10**7)
        apart = far(goal)
        apart = [[apart] + wide + int_conds(decl), [apart] + box(decl) + int_conds(decl)] if apart is not None else []
        for extra in [box(decl) + int_conds(decl)] + apart + [wide + int_conds(decl), int_conds(decl), box(decl), wide, []]:
            rr, mm = S.check(neg + extra, 8000)
            if rr == "sat":
                envs.append(model_env(mm, decl))
                st, B = run_float(case, envs[-1], random.Random(11))
                tried += 1
                if st == "fail" and not extreme(B.env):
                    return ("violation", B.env, B.failures)
            if time.time() > deadline:
                break
        # the solver's assignment of over-approximated atoms may not be realisable: look for another
        # concrete input on the same path
        rng = random.Random(SEED * 7919 + 13)
        for i in range(400):
            if time.time() > deadline:
                break
            base = dict(random.Random(i).choice(envs)) if envs and i % 2 else {}
            for k in list(base):
                if rng.random() < 0.5:
                    del base[k]
            st, B = run_float(case, base, rng)
            if st == "reject":
                continue
            tried += 1
            if st == "fail" and not extreme(B.env):
                return ("violation", B.env, B.failures)
        return ("inconclusive", f"solver model does not reproduce on the real code ({tried} replays): {goal.label}")
    # unknown
    rng = random.Random(SEED * 104729 + 5)
    for i in range(60):
        st, B = run_float(case, {}, rng)
        if st == "fail":
            return ("violation", B.env, B.failures)
    return ("inconclusive", f"solver gave no answer within its limit: {goal.label}")


BATCH = 24


def batched(B, deadline):
    """Ids of the goals that hold, found by refuting "one of these fails" for up to BATCH goals of one path at a time."""
    done = set()
    if B.hints:
        return done
    todo = [g for g in B.goals if g.cond.op not in ("true", "false") and not g.known and not (g.cond.op == "eq" and g.cond.args[0] is g.cond.args[1])]
    misses = 0
    for i in range(0, len(todo), BATCH):
        some = todo[i:i + BATCH]
        base = min((g.pc for g in some), key=len)
        n = len(base)
        if len(some) < 4 or misses > 1 or time.time() > deadline or any(x is not y for g in some for x, y in zip(base, g.pc)):
            continue
        if S.check(base + [S.b_or(*[S.b_and(*g.pc[n:], b_not(g.cond)) for g in some])], 3000, False)[0] == "unsat":
            done |= {id(g) for g in some}
        else:
            misses += 1
    return done


def run_case(case):
    """-> result dict"""
    t0 = time.time()
    STATS.__init__()
    res = dict(case=case.name, status="holds", goals=0, paths=0, branches=0, probes=0, validated=0, violations=[], inconclusive=[],
               known=[], samples=[], note=case.note, reach=0)
    deadline = t0 + case.timeout
    paths = []

    def one():
        from . import stx
        stx.STREAMS.reset()
        B = SymBackend(mods()["sym"])
        CTX.in_code = 1
        ok = True
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                case.fn(B)
        except Stop:
            ok = False
        except Exception as e:
            if isinstance(e, RecursionError) or not from_code(e) and not malformed(e):
                raise
            # counts only if the real code's result does the same to the check (find_counterexample replays it)
            B.goals.append(Goal(f"{'raises' if from_code(e) else MALFORMED} {type(e).__name__}: {str(e)[:160]}", S.FALSE, list(CTX.pc), "raise"))
            ok = False
        for b, text, pc in CTX.obligations:
            B.goals.append(Goal("undefined: " + text, b, pc, "defined"))
        B.hints = list(CTX.hints)
        return B, list(CTX.pc), ok

    try:
        for B, pc, ok in S.explore(one, case.max_paths):
            paths.append((B, pc))
            if time.time() > deadline:
                raise Unsupported("case time limit during exploration")
    except Unsupported as e:
        res["inconclusive"].append("not encodable: " + str(e))
        res["trace"] = traceback.format_exc(limit=-6)
    except RecursionError:
        res["inconclusive"].append("recursion limit")
    # goals
    reach = False
    seen_v = set()
    for B, pc in paths:
        CTX.hints = B.hints
        # reachability twin: assert(false) at the end of the path must be refuted
        r, m = S.check(pc, 8000, True)
        if r == "unsat":
            # a path can end up empty by assuming what an earlier operation needs (a positive scale, say): those needs
            # are still to be shown where they arose
            B.goals = [g for g in B.goals if len(g.pc) < len(pc) and g.cond.op != "true"]
            if not B.goals:
                continue
        reach = reach or r == "sat"
        res["reach"] += r == "sat"
        if r == "sat" and len(res["samples"]) < 2:
            env = model_env(m, B.decl)
            res["samples"].append({"case": case.name, "path_condition": [repr(c)[:160] for c in pc[:12]], "goals": len(B.goals), "witness": {k: env[k] for k in list(env)[:12]}})
        # equalities of one and the same term are discharged in one query
        same = [g for g in B.goals if g.cond.op == "eq" and g.cond.args[0] is g.cond.args[1]]
        if same and S.check([S.b_or(*[b_not(g.cond) for g in same])], 8000, False)[0] != "unsat":
            same = []
        same = {id(g) for g in same} | batched(B, deadline)
        for g in B.goals:
            res["goals"] += 1
            if g.cond.op == "true" or id(g) in same:
                # decided structurally (types, shapes, concrete values); still counted as a goal
                continue
            if time.time() > deadline:
                res["inconclusive"].append("case time limit")
                break
            if g.known and g.known in KNOWN and g.alt is not None:
                rr, _ = S.check(g.pc + [b_not(g.cond)])
                if rr != "unsat":
                    r2, _ = S.check(g.pc + [b_not(g.alt)])
                    if r2 == "unsat":
                        if g.known not in res["known"]:
                            res["known"].append(g.known)
                        continue
                else:
                    continue
            out = find_counterexample(case, g, B.decl, deadline + 30)
            if out[0] == "violation":
                if g.label not in seen_v:
                    seen_v.add(g.label)
                    res["violations"].append(dict(goal=g.label, env=out[1], failures=out[2][:5]))
                if len(res["violations"]) >= 2:
                    break
            elif out[0] == "inconclusive":
                res["inconclusive"].append(out[1])
                if len(res["inconclusive"]) > 6:
                    break
        if len(res["violations"]) >= 2 or len(res["inconclusive"]) > 6:
            break
    # validation of the encoding against the implementation on concrete inputs
    if case.validate and not res["violations"]:
        rng = random.Random(SEED * 31337 + sum(map(ord, case.name)))
        done = tries = 0
        runs = case.runs if not res["inconclusive"] else max(case.runs, 40)
        while done < runs and tries < runs * 25 and (done < case.runs or time.time() < deadline):
            tries += 1
            st, F = run_float(case, {}, rng)
            if st == "reject":
                continue
            done += 1
            if st == "fail":
                res["violations"].append(dict(goal="concrete run of the real code", env=F.env, failures=F.failures[:5]))
                break
            if hasattr(F, "known_hit"):
                pass
            v = validate(paths, F)
            res["probes"] += v[1]
            if v[0] is False:
                res["inconclusive"].append("encoding disagrees with the implementation: " + v[2])
            elif v[0]:
                res["validated"] += 1
                if not reach:
                    reach = True
                    res["reach"] += 1
    if paths and not reach and not res["inconclusive"]:
        res["inconclusive"].append("vacuous: no path's end is reachable")
    if not paths and not res["inconclusive"]:
        res["inconclusive"].append("vacuous: no feasible path")
    res["paths"] = len(paths)
    res["branches"] = STATS.branches
    res["queries"], res["unsat"], res["sat"], res["unknown"] = STATS.queries, STATS.unsat, STATS.sat, STATS.unknown
    res["branch_queries"], res["solver_s"] = STATS.branch_queries, round(STATS.solver_s, 3)
    res["wall"] = round(time.time() - t0, 2)
    if res["violations"]:
        res["status"] = "violated"
    elif res["inconclusive"]:
        res["status"] = "inconclusive"
    return res


def validate(paths, F):
    """Does some explored path, evaluated on F's inputs, give F's observed values?"""
    cand = None

    def met(c):
        try:
            return c.ev(F.env)
        except KeyError as e:
            if str(e.args[0]).startswith("noise!"):
                return True          # real draws have no name
            raise

    for B, pc in paths:
        try:
            if all(met(c) for c in pc):
                cand = B
                break
        except (KeyError, Unsupported, ValueError, OverflowError, ZeroDivisionError):
            continue
    if cand is None:
        return (None, 0)
    got = {}
    for l, v in F.probes:
        got.setdefault(l, v)
    n = 0
    for l, node in cand.probes:
        if l not in got:
            continue
        try:
            e = S.ev(node, F.env)
        except (KeyError, Unsupported, OverflowError):
            continue
        u = got.pop(l)
        n += 1
        if not (abs(e - u) <= 1e-5 * (1 + max(abs(e), abs(u)))):
            return (False, n, f"{l}: encoding gives {e!r}, implementation {u!r} on {F.env}")
    # a case without observed numbers: the concrete run took an explored path and met the same assertions
    return (n > 0 or not cand.probes or not F.probes or None, n)


BUDGET = float(os.environ.get("VERIF_BUDGET", "780" if TIER == "quick" else "6000"))   # seconds for one check
ENOUGH = 6          # violations after which the remaining cases are skipped
GRACE = 90          # seconds the remaining cases get after the first violation


def _undecided(name, why, wall):
    return dict(case=name, status="inconclusive", inconclusive=[why], violations=[], known=[], samples=[], goals=0, paths=0, branches=0, probes=0,
                validated=0, queries=0, unsat=0, sat=0, unknown=0, branch_queries=0, solver_s=0, wall=wall, reach=0)


class _Timeout(BaseException):
    pass


def _worker(args):
    modname, idx = args
    import importlib
    case = importlib.import_module(modname).CASES[idx]

    def on_alarm(*a):
        raise _Timeout

    signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(case.timeout + 60)
    try:
        return run_case(case)
    except _Timeout:
        return _undecided(case.name, "case time limit", case.timeout)
    except BaseException as e:  # encoder failure: never a verdict
        return dict(case=case.name, status="inconclusive", inconclusive=[f"{type(e).__name__}: {e}"], trace=traceback.format_exc(limit=-8),
                    violations=[], known=[], samples=[], goals=0, paths=0, branches=0, probes=0, validated=0, queries=0, unsat=0, sat=0,
                    unknown=0, branch_queries=0, solver_s=0, wall=0, reach=0)
    finally:
        signal.alarm(0)


def main(pid, module, argv=()):
    t0 = time.time()
    if "--replay" in argv:
        return replay(module, argv[argv.index("--replay") + 1])
    only = None
    if "--case" in argv:
        only = argv[argv.index("--case") + 1]
    idx = [i for i, c in enumerate(module.CASES) if (c.tier == "quick" or TIER == "thorough") and (only is None or only in c.name)]
    mods()
    procs = 1 if "--serial" in argv else int(os.environ.get("VERIF_JOBS", "8"))
    if procs == 1:
        results = [_worker((module.__name__, i)) for i in idx]
    else:
        ctx = mp.get_context("fork")
        with ctx.Pool(procs, maxtasksperchild=1) as pool:
            results, first = [], None
            it = pool.imap_unordered(_worker, [(module.__name__, i) for i in idx], chunksize=1)
            while len(results) < len(idx):
                until = t0 + BUDGET if first is None or "-v" in argv else min(t0 + BUDGET, first + GRACE)
                try:
                    results.append(it.next(timeout=max(1.0, until - time.time())))
                except mp.TimeoutError:
                    break
                if first is None and results[-1]["violations"]:
                    first = time.time()
                if sum(len(r["violations"]) for r in results) >= ENOUGH and "-v" not in argv:
                    break
            pool.terminate()
            done = {r["case"] for r in results}
            enough = any(r["violations"] for r in results)
            for i in idx:
                if module.CASES[i].name not in done:
                    results.append(_undecided(module.CASES[i].name, "not run: enough violations found" if enough else "not run: time budget of the whole check", 0))
    results.sort(key=lambda r: r["case"])
    return report(pid, module, results, t0, argv)


def report(pid, module, results, t0, argv):
    from .loader import LOADED_SOURCES, functions_encoded
    os.makedirs(os.path.join(ROOT, "out"), exist_ok=True)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    nv = 0
    for r in results:
        if "-v" in argv:
            print(f"  {r['case']:55s} {r['status']:12s} paths={r['paths']} goals={r['goals']} q={r['queries']} val={r['validated']} {r['wall']}s")
        for k in r["known"]:
            pass
        for v in r["violations"]:
            nv += 1
            path = os.path.join(ROOT, "out", f"{pid}-{nv}.json")
            json.dump(dict(property=pid, case=r["case"], goal=v["goal"], env=v["env"], failures=v["failures"]), open(path, "w"), indent=1, default=str)
            print(f"VIOLATION property={pid} replay={path}")
            print(f"    case {r['case']}: {v['goal']}")
            for f in v["failures"][:3]:
                print(f"    {f}")
            print(f"    input {json.dumps(v['env'], default=str)[:400]}")
    for k in sorted({k for r in results for k in r["known"]}):
        print(f"KNOWN-FINDING: property={pid} {KNOWN[k]['what']}")
    inc = [(r["case"], x) for r in results for x in r["inconclusive"]]
    for c, x in inc[:20]:
        print(f"INCONCLUSIVE {c}: {x}")
        for r in results:
            if r["case"] == c and r.get("trace") and "-v" in argv:
                print(r["trace"])
    tot = lambda k: sum(r[k] for r in results)
    ev = dict(
        property=pid, tier=TIER, seed=SEED, level="model_checking",
        coverage=dict(
            states=tot("paths"), transitions=tot("branches") + tot("goals"),
            traces_validated_against_impl=tot("validated"),
            samples=[s for r in results for s in r["samples"][:1]][:6],
            cases=len(results), symbolic_paths=tot("paths"), reachable_path_ends=tot("reach"), branch_decisions=tot("branches"),
            assertions=tot("goals"), solver_queries=tot("queries"), unsat=tot("unsat"), sat=tot("sat"), unknown=tot("unknown"),
            branch_queries=tot("branch_queries"), solver_seconds=round(tot("solver_s"), 2), values_compared_with_impl=tot("probes"),
            cases_held=sum(r["status"] == "holds" for r in results), cases_inconclusive=len({c for c, _ in inc}),
            inconclusive=[f"{c}: {x}" for c, x in inc][:20], known_findings=sorted({k for r in results for k in r["known"]}),
            sources={os.path.relpath(k, "/repo"): v[:16] for k, v in LOADED_SOURCES.items()},
            functions_encoded=functions_encoded(), bounds=getattr(module, "BOUNDS", ""),
            slowest=[[r["case"], r["wall"]] for r in sorted(results, key=lambda r: -r["wall"])[:5]],
        ),
        assumptions=list(getattr(module, "ASSUMPTIONS", [])) + COMMON_ASSUMPTIONS,
        wall_s=round(time.time() - t0, 2), violations=nv,
    )
    if not any(a == "--case" for a in argv):
        json.dump(ev, open(os.path.join(ROOT, "evidence", f"{pid}.json"), "w"), indent=1, default=str)
    print(f"{pid}: {len(results)} cases, {tot('paths')} paths, {tot('goals')} assertions, {tot('queries')} queries "
          f"({tot('unsat')} unsat, {tot('sat')} sat, {tot('unknown')} unknown), solver {tot('solver_s'):.1f}s, wall {time.time() - t0:.1f}s; "
          f"{tot('validated')} concrete traces agree with the encoding")
    if nv:
        return 1
    # undecided cases are reported (here and in the evidence) and claimed neither way; a run that decided nothing gives no answer
    if not any(r["status"] == "holds" for r in results):
        return 2
    return 0


COMMON_ASSUMPTIONS = [
    "Claims are over exact real arithmetic; IEEE-754 rounding, overflow and underflow are outside the claim.",
    "numpy, scipy.special and scipy.stats are modelled by their documented semantics (vlib/npx.py, vlib/stx.py); every case replays concrete inputs on the unmodified package with the real libraries.",
    "ln, lgamma, sin, cos, exp, i0 are atoms with their algebraic laws (ln of products/powers, gamma recurrence, sin^2+cos^2=1); this over-approximates, so an unsat verdict is sound and a sat verdict is only reported after replay.",
]


def replay(module, path):
    d = json.load(open(path))
    case = next(c for c in module.CASES if c.name == d["case"])
    st, B = run_float(case, d["env"], random.Random(11))
    print("replay:", st)
    for f in B.failures:
        print("   ", f)
    return 1 if st == "fail" else 0
