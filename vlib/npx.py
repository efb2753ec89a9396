"""Stand-ins for numpy, numpy.linalg, numpy.random, math and scipy.linalg."""
from __future__ import annotations

import itertools
import math
import types
from fractions import Fraction

import numpy as np

from . import sym as S
from .loader import real_dtype, register_proxy, sym_float, sym_int
from .sym import CTX, ONE, ZERO, Sym, SymBool, Unsupported, b_cmp, mk, to_node


def _plain_key(k):
    """Symbolic integers in an index become concrete (one path per feasible value)."""
    if isinstance(k, Sym):
        return k.__index__()
    if isinstance(k, slice):
        return slice(*[x.__index__() if isinstance(x, Sym) else x for x in (k.start, k.stop, k.step)])
    if isinstance(k, tuple):
        return tuple(_plain_key(x) for x in k)
    if isinstance(k, list):
        return [_plain_key(x) for x in k]
    if isinstance(k, SymBool):
        return bool(k)
    if isinstance(k, np.ndarray) and k.dtype == object and k.size and all(isinstance(x, (Sym, SymBool, int, np.integer, bool, np.bool_)) for x in k.reshape(-1)):
        v = [_plain_key(x) for x in k.reshape(-1)]
        return np.array(v, dtype=bool if all(isinstance(x, (bool, np.bool_)) for x in v) else int).reshape(k.shape)
    return k


def all_int(a):
    """Would numpy have given this array an integer dtype?"""
    if not isinstance(a, np.ndarray):
        return False
    if a.dtype != object:
        return a.dtype.kind in "iu"
    return a.size > 0 and all(isinstance(v, (int, np.integer)) and not isinstance(v, bool) or isinstance(v, Sym) and v.kind == "int" for v in a.reshape(-1))


def _has_real(v):
    if isinstance(v, np.ndarray):
        return v.dtype.kind == "f" if v.dtype != object else any(_has_real(x) for x in v.reshape(-1))
    if isinstance(v, (list, tuple)):
        return any(_has_real(x) for x in v)
    return isinstance(v, (float, np.floating)) or isinstance(v, Sym) and v.kind == "real"


def _into(op, real):
    """An operation in place, which must not change an integer array into one of real numbers."""
    def f(self, o):
        if all_int(self) and (real or _has_real(o)):
            raise TypeError(f"Cannot cast ufunc '{op}' output from dtype('float64') to dtype('int64') with casting rule 'same_kind'")
        return getattr(super(SymArray, self), op)(o)
    return f


class SymArray(np.ndarray):
    """Object array whose dtype conversions keep symbolic elements."""

    def astype(self, dtype, *a, **k):
        return cast(self, dtype)

    def __getitem__(self, key):
        return super().__getitem__(_plain_key(key))

    def __setitem__(self, key, value):
        if _has_real(value) and all_int(self):
            value = cast(np.asarray(value, dtype=object), int)
        super().__setitem__(_plain_key(key), value)

    __iadd__, __isub__, __imul__, __itruediv__ = _into("__iadd__", False), _into("__isub__", False), _into("__imul__", False), _into("__itruediv__", True)

    def __pow__(self, o):
        if isinstance(o, (int, np.integer)) and o < 0 and all_int(self):
            raise ValueError("Integers to negative integer powers are not allowed.")
        return super().__pow__(o)

    def __array_wrap__(self, a, context=None, return_scalar=False):
        if a.ndim == 0:
            return a[()]
        return a.view(SymArray) if a.dtype == object else np.asarray(a)

    def mean(self, axis=None, **k):
        n = self.size if axis is None else np.prod([self.shape[i] for i in np.atleast_1d(axis)])
        if n == 0:
            # numpy gives nan and warns; nan is never a result the library may return
            CTX.oblige(S.FALSE, "mean of an empty array")
            raise S.Infeasible
        r = np.sum(np.asarray(self, dtype=object), axis=axis, **{x: y for x, y in k.items() if x == "keepdims"})
        return wrap(r) / Sym(S.const(int(n)))

    def max(self, axis=None, out=None, **k):
        return _reduce_cmp(1)(self, axis, out, **k)

    def min(self, axis=None, out=None, **k):
        return _reduce_cmp(-1)(self, axis, out, **k)

    def item(self, *a):
        return np.asarray(self).item(*a)

    def __float__(self):
        return float(self.item())


def wrap(x):
    if isinstance(x, np.ndarray) and x.dtype == object and type(x) is np.ndarray:
        return x[()] if x.ndim == 0 else x.view(SymArray)
    if isinstance(x, tuple) and type(x) is tuple:
        return tuple(wrap(y) for y in x)
    if isinstance(x, list):
        return [wrap(y) for y in x]
    return x


def arr(x):
    """Object array (SymArray) of anything array-like."""
    a = np.asarray(x, dtype=object)
    return a.view(SymArray)


def ssym(x):
    """A Sym from any real number; infinities and nan pass through as floats."""
    if isinstance(x, Sym):
        return x
    if isinstance(x, np.ndarray) and x.size == 1:
        return ssym(x.reshape(-1)[0])
    n = to_node(x)
    if n is None:
        if isinstance(x, (float, np.floating)):
            return float(x)
        raise TypeError(f"not a number: {type(x)}")
    return Sym(n, S.kind_of(x))


def is_scalar(x):
    return not isinstance(x, (np.ndarray, list, tuple))


def ew(f, *args):
    """Apply f elementwise with broadcasting."""
    ser = [a for a in args if hasattr(a, "iloc") and hasattr(a, "to_numpy")]
    if ser:
        if any(not a.index.equals(ser[0].index) for a in ser):
            raise Unsupported("series with different indices")
        r = ew(f, *[np.asarray(a, dtype=object) if hasattr(a, "iloc") else a for a in args])
        return type(ser[0])(np.asarray(r, dtype=object), index=ser[0].index)
    if all(is_scalar(a) for a in args):
        r = f(*args)
        # numpy returns its own scalars
        return np.float64(r) if type(r) is float else np.int64(r) if type(r) is int else r
    bs = np.broadcast_arrays(*[np.asarray(a, dtype=object) for a in args])
    out = np.empty(bs[0].shape, dtype=object)
    for ix in np.ndindex(out.shape):
        out[ix] = f(*[b[ix] for b in bs])
    return out[()] if out.ndim == 0 else out.view(SymArray)


def cast(a, dtype):
    dt = real_dtype(dtype)
    if dt is None or dt is object or dt == object:
        return wrap(np.array(a, dtype=object))
    try:
        kind = np.dtype(dt).kind
    except TypeError:
        raise Unsupported(f"dtype {dtype!r}")
    a = np.asarray(a)
    if a.dtype != object:
        return a.astype(dt)
    if kind in "fc":
        return ew(lambda x: Sym(x.n, "real") if isinstance(x, Sym) else (Sym(x._num().n) if isinstance(x, SymBool) else float(x)), a) if a.ndim else sym_float(a)
    if kind in "iu":
        return ew(lambda x: sym_int(x), a)
    if kind == "b":
        out = np.empty(a.shape, dtype=bool)
        for ix in np.ndindex(a.shape):
            out[ix] = bool(a[ix])
        return out
    if kind == "O":
        return wrap(np.array(a, dtype=object))
    return a.astype(dt)


# --------------------------------------------------------------------------- elementwise functions
def _inf_aware(f):
    def g(*xs):
        ys = [ssym(x) for x in xs]
        if any(isinstance(y, float) for y in ys):
            return None
        return f(*ys)

    return g


def _log1(x):
    x = ssym(x)
    if isinstance(x, float):
        return float(np.log(x))
    if S.is_const(x.n) and x.n.args[0] == 0:
        return -math.inf
    return x.log()


def _exp1(x):
    x = ssym(x)
    if isinstance(x, float):
        return 0.0 if x < 0 else x
    return x.exp()


def _u(name, method=None):
    method = method or name

    def f(x):
        x = ssym(x)
        if isinstance(x, float):
            return float(getattr(np, name)(x))
        return getattr(x, method)()

    return f


def smax(a, b):
    return a if bool(a >= b) else b


def smin(a, b):
    return a if bool(a <= b) else b


def _sign(x):
    x = ssym(x)
    if isinstance(x, float):
        return float(np.sign(x))
    if bool(x > 0):
        return 1
    return -1 if bool(x < 0) else 0


def _abs(x):
    return abs(x)


def _arctan2(y, x):
    return Sym(mk("fn", "arctan2", ssym(y).n, ssym(x).n))


def _isnan(x):
    return isinstance(x, (float, np.floating)) and math.isnan(x)


def _isinf(x):
    return isinstance(x, (float, np.floating)) and math.isinf(x)


def _pow(a, b):
    return ssym(a) ** b


def _logaddexp(a, b):
    return (_exp1(a) + _exp1(b)).log()


ELEMENTWISE = {
    "log": _log1, "exp": _exp1, "log1p": _u("log1p"), "expm1": _u("expm1"), "log2": _u("log2"),
    "log10": _u("log10"), "sqrt": _u("sqrt"), "cbrt": _u("cbrt"), "square": _u("square"),
    "reciprocal": _u("reciprocal"), "sin": _u("sin"), "cos": _u("cos"), "tan": _u("tan"),
    "abs": _abs, "absolute": _abs, "fabs": _abs, "floor": _u("floor"), "ceil": _u("ceil"),
    "trunc": _u("trunc"), "rint": _u("rint"), "maximum": smax, "minimum": smin, "fmax": smax,
    "fmin": smin, "arctan2": _arctan2, "hypot": lambda a, b: ssym(a).hypot(ssym(b)),
    "sign": _sign, "isnan": _isnan, "isinf": _isinf, "isfinite": lambda x: not (_isnan(x) or _isinf(x)),
    "power": _pow, "float_power": _pow, "logaddexp": _logaddexp,
    "add": lambda a, b: a + b, "subtract": lambda a, b: a - b, "multiply": lambda a, b: a * b,
    "divide": lambda a, b: ssym(a) / b, "true_divide": lambda a, b: ssym(a) / b,
    "negative": lambda a: -a, "positive": lambda a: +a, "mod": lambda a, b: ssym(a) % b,
    "remainder": lambda a, b: ssym(a) % b, "floor_divide": lambda a, b: ssym(a) // b,
    "deg2rad": lambda a: ssym(a) * Sym(S.PI) / 180, "rad2deg": lambda a: ssym(a) * 180 / Sym(S.PI),
}


class UFunc:
    def __init__(self, name, f):
        self.__name__ = name
        self.f = f
        self.nin = 1

    def __call__(self, *a, out=None, where=True, dtype=None, **k):
        if where is not True or k:
            raise Unsupported(f"np.{self.__name__} keyword arguments")
        r = ew(self.f, *a)
        if out is not None:
            out[...] = r
            return out
        return r

    def _real(self):
        return getattr(np, self.__name__)

    def reduce(self, a, axis=0, **k):
        if self.__name__ in ("add", "multiply"):
            return wrap(self._real().reduce(np.asarray(a, dtype=object), axis=axis, **k))
        a = np.asarray(a, dtype=object)
        out = None
        for i in range(a.shape[axis]):
            x = wrap(np.take(a, i, axis=axis))
            out = x if out is None else ew(self.f, out, x)
        return out

    def accumulate(self, a, axis=0, **k):
        return wrap(self._real().accumulate(np.asarray(a, dtype=object), axis=axis, **k))

    def outer(self, a, b):
        a, b = np.asarray(a, dtype=object), np.asarray(b, dtype=object)
        return ew(self.f, a.reshape(a.shape + (1,) * b.ndim), b)


# --------------------------------------------------------------------------- linear algebra
def _det(m):
    n = len(m)
    if n == 0:
        return Sym(ONE)
    if n == 1:
        return ssym(m[0][0])
    if n == 2:
        return m[0][0] * m[1][1] - m[0][1] * m[1][0]
    out = None
    for j in range(n):
        minor = [[m[i][k] for k in range(n) if k != j] for i in range(1, n)]
        t = m[0][j] * _det(minor)
        t = t if j % 2 == 0 else -t
        out = t if out is None else out + t
    return out


def _stacked(f, a, core_out):
    a = np.asarray(a, dtype=object)
    if a.ndim < 2:
        raise np.linalg.LinAlgError(
            f"{a.ndim}-dimensional array given. Array must be at least two-dimensional")
    if a.shape[-1] != a.shape[-2]:
        raise np.linalg.LinAlgError("Last 2 dimensions of the array must be square")
    lead = a.shape[:-2]
    d = a.shape[-1]
    if d > 4:
        raise Unsupported("matrix larger than 4x4")
    out = np.empty(lead + core_out(d), dtype=object)
    for ix in np.ndindex(lead):
        m = [[ssym(a[ix + (i, j)]) for j in range(d)] for i in range(d)]
        out[ix] = f(m)
    return wrap(out) if out.ndim else out[()]


_INVERSES: dict = {}


def mat_inv(m):
    d = len(m)
    # the inverse of an inverse is the matrix itself
    back = _INVERSES.get(tuple(m[i][j].n.id for i in range(d) for j in range(d)) if all(isinstance(m[i][j], Sym) for i in range(d) for j in range(d)) else None)
    if back is not None:
        out = np.empty((d, d), dtype=object)
        for i in range(d):
            for j in range(d):
                out[i, j] = back[i][j]
        return out
    # block-diagonal by explicit zeros is common (identity matrices): keep expressions small
    det = _det(m)
    CTX.oblige(S.b_not(b_cmp("eq", det.n, ZERO)), "inverse of a singular matrix")
    det = ssym(det)
    if S.is_const(det.n) and det.n.args[0] == 0:
        raise np.linalg.LinAlgError("Singular matrix")
    out = np.empty((d, d), dtype=object)
    for i in range(d):
        for j in range(d):
            minor = [[m[r][c] for c in range(d) if c != i] for r in range(d) if r != j]
            x = _det(minor)
            x = x if (i + j) % 2 == 0 else -x
            out[i, j] = Sym(S.n_div(ssym(x).n, det.n))
    _INVERSES[tuple(out[i, j].n.id for i in range(d) for j in range(d))] = m
    return out


def inv(a, **k):
    return _stacked(mat_inv, a, lambda d: (d, d))


def det(a):
    return _stacked(_det, a, lambda d: ())


def slogdet(a):
    d = det(a)
    res = types.SimpleNamespace
    sign = ew(_sign, d)
    ld = ew(lambda x: _log1(abs(x)), d)
    return SlogdetResult(sign, ld)


class SlogdetResult(tuple):
    def __new__(cls, s, l):
        return tuple.__new__(cls, (s, l))

    sign = property(lambda s: s[0])
    logabsdet = property(lambda s: s[1])


def _chol(m):
    d = len(m)
    L = np.empty((d, d), dtype=object)
    L[...] = 0.0
    for j in range(d):
        s = m[j][j]
        for k in range(j):
            s = s - L[j, k] * L[j, k]
        CTX.oblige(b_cmp("lt", ZERO, ssym(s).n), "cholesky of a matrix that is not positive definite")
        L[j, j] = ssym(s).sqrt()
        for i in range(j + 1, d):
            t = m[i][j]
            for k in range(j):
                t = t - L[i, k] * L[j, k]
            L[i, j] = t / L[j, j]
    return L


def cholesky(a, upper=False, **k):
    r = _stacked(_chol, a, lambda d: (d, d))
    return wrap(np.swapaxes(r, -1, -2)) if upper else r


def solve(a, b, **k):
    a, b = arr(a), arr(b)
    return wrap(np.matmul(np.asarray(inv(a)), np.asarray(b)))


def norm(x, ord=None, axis=None, keepdims=False):
    if ord not in (None, 2) or axis is not None:
        raise Unsupported("norm with ord/axis")
    s = sum((ssym(v) * v for v in np.asarray(x, dtype=object).reshape(-1)), Sym(ZERO))
    return s.sqrt()


def matrix_power(a, n):
    a = arr(a)
    if n < 0:
        a, n = inv(a), -n
    r = arr(np.eye(a.shape[0]))
    for _ in range(n):
        r = wrap(r @ a)
    return r


def multi_dot(xs):
    r = arr(xs[0])
    for x in xs[1:]:
        r = wrap(r @ arr(x))
    return r


class Proxy(types.ModuleType):
    """Module stand-in: overrides first, then the real module (functions wrapped)."""

    def __init__(self, name, real, over, wrap_results=False, only=False):
        super().__init__(name)
        self.__dict__["_real"] = real
        self.__dict__["_over"] = over
        self.__dict__["_wrapr"] = wrap_results
        self.__dict__["_only"] = only

    def __getattr__(self, n):
        if n.startswith("__"):
            if n in ("__version__",):
                return getattr(self._real, n)
            raise AttributeError(n)
        if n in self._over:
            return self._over[n]
        if self._only:
            r = getattr(self._real, n)  # AttributeError as the real module would
            if callable(r):
                return unsupported(f"{self.__name__}.{n}")
            return r
        r = getattr(self._real, n)
        if self._wrapr and callable(r) and not isinstance(r, type):
            def f(*a, **k):
                if k.get("dtype") is not None:
                    k["dtype"] = real_dtype(k["dtype"])
                return wrap(r(*a, **k))
            f.__name__ = n
            self.__dict__[n] = f
            return f
        return r


def unsupported(what):
    def f(*a, **k):
        raise Unsupported(what + " is not encoded")

    f.__name__ = what
    return f


# While set, the library's own inverse and equation solvers refuse to work, as they do for matrices of objects (C14).
POISON = []


def refusing(f):
    def g(*a, **k):
        if POISON:
            raise TypeError("built-in linear algebra on a matrix of objects")
        return f(*a, **k)

    g.__name__ = getattr(f, "__name__", "linalg")
    return g


def _refusing_over(over):
    return {n: refusing(f) if n in ("inv", "pinv", "pinvh", "solve", "matrix_power", "lstsq", "cho_solve", "solve_triangular", "tensorinv") else f
            for n, f in over.items()}


LINALG = Proxy("numpy.linalg", np.linalg, _refusing_over({
    "inv": inv, "pinv": inv, "det": det, "slogdet": slogdet, "cholesky": cholesky,
    "solve": solve, "norm": norm, "matrix_power": matrix_power, "multi_dot": multi_dot,
    "LinAlgError": np.linalg.LinAlgError,
}), only=True)


# --------------------------------------------------------------------------- creation and misc
def _n_int(n):
    return n


def _creation(name):
    real = getattr(np, name)

    def f(*a, **k):
        dt = real_dtype(k.pop("dtype", None))
        a = list(a)
        if name in ("zeros", "ones", "empty", "zeros_like", "ones_like", "empty_like") and len(a) > 1 and dt is None:
            dt = real_dtype(a.pop(1))
        if name in ("zeros_like", "ones_like", "empty_like"):
            a[0] = np.asarray(a[0])
            if dt is None and a[0].dtype != object:
                dt = None
                k["dtype"] = a[0].dtype
            elif dt is None and all_int(a[0]):
                # an integer array: what is put into it later is cut to whole numbers
                return arr(np.full(a[0].shape, 1 if name == "ones_like" else 0, dtype=object))
        if dt is not None and np.dtype(dt).kind in "biu":
            return real(*a, dtype=dt, **k)
        k.pop("dtype", None)
        base = real(*a, dtype=float, **k)
        if name.startswith("empty"):
            base[...] = 0.0
        out = base.astype(object)
        if name.startswith("empty"):
            out[...] = None
        return out.view(SymArray)

    return f


def _full(shape, fill, dtype=None, **k):
    out = np.empty(shape, dtype=object)
    out[...] = fill
    out = wrap(out) if out.ndim else out
    return cast(out, dtype) if dtype is not None else out


def _full_like(a, fill, dtype=None, **k):
    if dtype is None and all_int(a) and _has_real(fill):
        dtype = int
    return _full(np.shape(a), fill, dtype)


def _has_sym(x):
    if isinstance(x, (Sym, SymBool)):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object and any(isinstance(v, (Sym, SymBool)) for v in x.reshape(-1))
    if isinstance(x, (list, tuple)):
        return any(_has_sym(v) for v in x)
    return False


def _array(name):
    real = getattr(np, name)

    def f(a, dtype=None, *r, **k):
        if dtype is None or real_dtype(dtype) is object:
            k2 = {} if dtype is None else {"dtype": object}
            out = real(a, *r, **k, **k2)
            return out.view(SymArray) if out.dtype == object else out
        if _has_sym(a):
            out = real(a, *r, **k)
            c = cast(out, dtype)
            if out.ndim == 0:
                z = np.empty((), dtype=object)
                z[()] = c
                return z.view(SymArray)
            return c
        return real(a, *r, dtype=real_dtype(dtype), **k)

    return f


def _linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    if not isinstance(num, int):
        num = int(num)
    if axis != 0 or retstep:
        raise Unsupported("linspace axis/retstep")
    if num == 0:
        return np.empty(0)
    div = num - 1 if endpoint else num
    if is_scalar(start) and is_scalar(stop):
        rows = np.empty(num, dtype=object)
    else:
        shp = np.broadcast_shapes(np.shape(start), np.shape(stop))
        rows = np.empty((num,) + shp, dtype=object)
    for i in range(num):
        rows[i] = ew(lambda a, b: ssym(a) + (ssym(b) - ssym(a)) * Fraction(i, div) if div else ssym(a), start, stop)
    return rows.view(SymArray)


def _arange(*a, **k):
    dtype = real_dtype(k.pop("dtype", None))
    if len(a) + len(k) == 0:
        raise TypeError("arange() requires stop to be specified.")
    if len(a) == 1 and not k:
        start, stop, step = 0, a[0], 1
    else:
        names = ["start", "stop", "step"]
        d = dict(zip(names, a))
        d.update(k)
        start, stop, step = d.get("start", 0), d["stop"], d.get("step", 1)
    if not any(isinstance(x, Sym) for x in (start, stop, step)):
        return np.arange(start, stop, step, dtype=dtype)
    n = (ssym(stop) - start) / step
    if not isinstance(n, Sym):
        n = ssym(n)
    m = -(S.floor_((-n).n, "int"))      # ceil
    cnt = _small_int(m)
    cnt = max(cnt, 0)
    out = np.empty(cnt, dtype=object)
    for i in range(cnt):
        out[i] = ssym(start) + i * ssym(step)
    return out.view(SymArray)


def _small_int(m):
    lo = S.lower(m.n)
    if lo.is_const():
        return int(lo.coef)
    # ceil of an expression that is an integer constant after simplification
    inner = m
    return CTX.concretize(m.n)


def _where(c, *xy):
    if not xy:
        c = cast(c, bool) if isinstance(c, np.ndarray) and c.dtype == object else c
        return np.where(c)
    x, y = xy
    return ew(lambda a, p, q: p if bool(a) else q, c, x, y)


def _clip(a, lo=None, hi=None, **k):
    lo = k.get("a_min", k.get("min", lo))
    hi = k.get("a_max", k.get("max", hi))
    r = a
    if lo is not None:
        r = ew(smax, r, lo)
    if hi is not None:
        r = ew(smin, r, hi)
    return r


def _extreme(vs, sign):
    """Largest (sign 1) or smallest (-1) of some numbers."""
    vs = [ssym(v) for v in vs]
    fl = [v for v in vs if isinstance(v, float)]
    if any(math.isnan(v) for v in fl):
        return math.nan
    if any(v * sign > 0 for v in fl):
        return sign * math.inf
    vs = [v for v in vs if not isinstance(v, float)]
    if not vs:
        return fl[0]
    n = (S.n_max if sign > 0 else S.n_min)([v.n for v in vs])
    return Sym(n, "int" if all(v.kind == "int" for v in vs) else "real")


def _reduce_cmp(sign):
    f = lambda *vs: _extreme(vs, sign)

    def g(a, axis=None, out=None, keepdims=False, initial=None, where=True, **k):
        if out is not None or where is not True or k:
            raise Unsupported("max/min with out or where")
        a = np.asarray(a, dtype=object)
        init = [] if initial is None or initial is np._NoValue else [initial]
        if init and isinstance(initial, float) and all_int(a):
            if np.isinf(initial):
                raise OverflowError("cannot convert float infinity to integer")
            init = [int(initial)]
        if axis is None:
            axis = tuple(range(a.ndim))
        axes = sorted(x % a.ndim for x in (axis if isinstance(axis, tuple) else (axis,))) if a.ndim else []
        size = int(np.prod([a.shape[x] for x in axes], dtype=int))
        if not size and not init:
            raise ValueError("zero-size array to reduction operation maximum which has no identity")
        rest = [x for x in range(a.ndim) if x not in axes]
        b = np.transpose(a, rest + axes).reshape([a.shape[x] for x in rest] + [size])
        r = np.empty(b.shape[:-1], dtype=object)
        for ix in np.ndindex(r.shape):
            r[ix] = f(*b[ix], *init)
        if keepdims:
            r = r.reshape([1 if x in axes else a.shape[x] for x in range(a.ndim)])
        return r[()] if r.ndim == 0 else r.view(SymArray)

    return g


def _mean(a, axis=None, **k):
    return arr(a).mean(axis=axis, **k)


def _var(a, axis=None, ddof=0, **k):
    a = arr(a)
    if axis is None:
        a, axis = a.reshape(-1), 0
    m = a.mean(axis=axis, keepdims=True)
    return wrap(np.sum((a - m) * (a - m), axis=axis)) / Sym(S.const(a.shape[axis] - ddof))


def _cov(m, y=None, rowvar=True, bias=False, ddof=None, **k):
    if y is not None:
        raise Unsupported("np.cov with y")
    m = arr(m)
    if m.ndim == 1:
        m = m[None, :]
        rowvar = True
    x = m.T if not rowvar else m
    n = x.shape[1]
    ddof = (0 if bias else 1) if ddof is None else ddof
    x = x - x.mean(axis=1, keepdims=True)
    r = wrap(x @ x.T) / Sym(S.const(n - ddof))
    return r[0, 0] if r.shape == (1, 1) else r


def _isscalar(x):
    return isinstance(x, Sym) or np.isscalar(x)


def _issubdtype(a, b):
    return np.issubdtype(real_dtype(a), real_dtype(b))


def _truthy(x):
    return bool(x)


def _allclose(a, b, *r, **k):
    return all(bool(ssym(x) == ssym(y)) for x, y in zip(*[z.reshape(-1) for z in np.broadcast_arrays(np.asarray(a, dtype=object), np.asarray(b, dtype=object))]))


def _einsum(spec, *ops, **k):
    return wrap(np.einsum(spec, *[np.asarray(o, dtype=object) for o in ops], optimize=False))


class _ScalarMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, cls._real) or (isinstance(x, Sym) and x.kind == cls._kind and cls._symok)

    def __call__(cls, x=0):
        if _has_sym(x):
            return ew(cls._conv, x)
        return cls._real(x)

    def __getattr__(cls, n):
        return getattr(cls._real, n)


def _mk_scalar(name, kind, conv, symok=False):
    return _ScalarMeta(name, (), {"_real": getattr(np, name), "_kind": kind, "_conv": staticmethod(conv), "_symok": symok})


def _vectorize(f, *a, **k):
    return lambda *xs: ew(f, *xs)


def _average(a, axis=None, weights=None, **k):
    if weights is None:
        return _mean(a, axis)
    a, w = arr(a), arr(weights)
    return wrap(np.sum(a * w, axis=axis)) / wrap(np.sum(w, axis=axis))


def _prod(a, axis=None, **k):
    return wrap(np.multiply.reduce(np.asarray(a, dtype=object), axis=axis))


def _as(x):
    a = np.asarray(x)
    return a.view(SymArray) if a.dtype == object else a


def _broadcast_arrays(*xs, **k):
    return tuple(np.broadcast_arrays(*[_as(x) for x in xs], subok=True))


def _atleast(f):
    def g(*xs):
        r = tuple(f(_as(x)) for x in xs)
        return r[0] if len(r) == 1 else r

    return g


OVER = {n: UFunc(n, f) for n, f in ELEMENTWISE.items()}
OVER.update({n: _creation(n) for n in ("zeros", "ones", "empty", "zeros_like", "ones_like", "empty_like")})
OVER.update({n: _array(n) for n in ("array", "asarray", "asanyarray", "ascontiguousarray")})
OVER.update(
    linalg=LINALG, full=_full, full_like=_full_like, linspace=_linspace, arange=_arange, where=_where,
    clip=_clip, max=_reduce_cmp(1), min=_reduce_cmp(-1), amax=_reduce_cmp(1), amin=_reduce_cmp(-1),
    nanmax=_reduce_cmp(1), nanmin=_reduce_cmp(-1), mean=_mean, average=_average, var=_var, nanmean=_mean,
    std=lambda *a, **k: ew(lambda x: ssym(x).sqrt(), _var(*a, **k)), cov=_cov, isscalar=_isscalar,
    issubdtype=_issubdtype, allclose=_allclose, isclose=lambda a, b, **k: ew(lambda x, y: bool(ssym(x) == ssym(y)), a, b),
    array_equal=lambda a, b: np.shape(a) == np.shape(b) and _allclose(a, b), einsum=_einsum, vectorize=_vectorize,
    prod=_prod, float64=_mk_scalar("float64", "real", sym_float), int64=_mk_scalar("int64", "int", sym_int),
    isreal=lambda x: ew(lambda v: True, x), iscomplexobj=lambda x: False, pi=math.pi,
    real=lambda x: x, errstate=np.errstate, broadcast_arrays=_broadcast_arrays,
    broadcast_to=lambda a, shape, **k: np.broadcast_to(_as(a), shape, subok=True), atleast_1d=_atleast(np.atleast_1d),
    atleast_2d=_atleast(np.atleast_2d),
    array2string=lambda *a, **k: "array", nan_to_num=lambda x, **k: ew(lambda v: 0.0 if _isnan(v) else v, x),
)

RANDOM_OVER: dict = {}
RANDOM = Proxy("numpy.random", np.random, RANDOM_OVER, only=True)
OVER["random"] = RANDOM
NP = Proxy("numpy", np, OVER, wrap_results=True)


# --------------------------------------------------------------------------- math
def _m1(f):
    def g(x):
        return f(x)

    return g


def _lgamma(x):
    x = ssym(x)
    if isinstance(x, float):
        return math.lgamma(x)
    CTX.oblige(b_cmp("lt", ZERO, x.n), "log-gamma of a non-positive number")
    return Sym(mk("fn", "lgamma", x.n))


def _mlog(x, base=None):
    x = ssym(x)
    if isinstance(x, Sym) and S.is_const(x.n) and x.n.args[0] <= 0:
        raise ValueError("math domain error")
    r = _log1(x)
    return r if base is None else r / _log1(base)


MATH = {k: ELEMENTWISE[k] for k in ("exp", "log1p", "expm1", "log2", "log10", "sqrt", "cbrt", "sin", "cos", "tan", "fabs", "hypot")}
MATH.update(
    log=_mlog, lgamma=_lgamma, gamma=lambda x: _lgamma(x).exp(), pow=_pow, atan2=_arctan2,
    floor=lambda x: ssym(x).__floor__(), ceil=lambda x: ssym(x).__ceil__(), trunc=lambda x: ssym(x).__trunc__(),
    isnan=_isnan, isinf=_isinf, isfinite=lambda x: not (_isnan(x) or _isinf(x)), prod=lambda xs, start=1: _prod(list(xs)) * start,
    fsum=lambda xs: sum(xs), isclose=lambda a, b, **k: bool(ssym(a) == ssym(b)),
)
for _c in ("factorial", "comb"):
    pass


def _factorial(n):
    if isinstance(n, Sym):
        return _lgamma(n + 1).exp()
    return math.factorial(n)


def _comb(n, k):
    if isinstance(n, Sym) or isinstance(k, Sym):
        n, k = ssym(n), ssym(k)
        return (_lgamma(n + 1) - _lgamma(k + 1) - _lgamma(n - k + 1)).exp()
    return math.comb(n, k)


MATH.update(factorial=_factorial, comb=_comb)
MATHP = Proxy("math", math, MATH, only=True)

# --------------------------------------------------------------------------- scipy.linalg
import scipy.linalg as _sla  # noqa: E402


def _cho_factor(a, lower=False, **k):
    return (arr(a), lower)


def _cho_solve(c, b, **k):
    return solve(c[0], b)


def _s_cholesky(a, lower=False, **k):
    L = cholesky(a)
    return L if lower else wrap(np.swapaxes(L, -1, -2))


def _solve_triangular(a, b, trans=0, lower=False, **k):
    a = np.array(arr(a))
    n = a.shape[0]
    for i in range(n):
        for j in range(n):
            if (j > i if lower else j < i):
                a[i, j] = 0.0
    a = a.T if trans in (1, "T") else a
    return solve(a, b)


SLA = Proxy("scipy.linalg", _sla, _refusing_over({
    "inv": inv, "pinv": inv, "pinvh": inv, "det": det, "solve": solve, "cholesky": _s_cholesky, "cho_factor": _cho_factor,
    "cho_solve": _cho_solve, "solve_triangular": _solve_triangular, "LinAlgError": np.linalg.LinAlgError,
    "norm": norm,
}), only=True)

register_proxy("numpy", NP)
register_proxy("numpy.linalg", LINALG)
register_proxy("numpy.random", RANDOM)
register_proxy("math", MATHP)
register_proxy("scipy.linalg", SLA)
