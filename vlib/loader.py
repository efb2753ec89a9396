"""Loads the *current* source of /repo/conjugate for symbolic execution.

Every module file is compiled from its present text and executed under the package
name `conjugate_sym` with its own builtins: `__import__` substitutes symbolic stand-ins
for numpy, scipy, math and matplotlib.pyplot, and `float`/`int`/... understand symbolic
numbers.  No line of the implementation is rewritten.
"""
from __future__ import annotations

import ast
import builtins
import hashlib
import importlib
import numbers
import os
import sys
import types

import numpy as np

from .sym import CTX, Sym, SymBool, Unsupported

REPO = os.environ.get("VERIF_REPO", "/repo")
PKG = "conjugate"
SYM = "conjugate_sym"

numbers.Real.register(Sym)


# --------------------------------------------------------------------------- builtins shims
def _unwrap0(x):
    if isinstance(x, np.ndarray) and x.dtype == object and x.size == 1:
        return x.reshape(-1)[0]
    return x


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, float) or (type(x) is Sym and x.kind == "real")

    def __subclasscheck__(cls, c):
        return issubclass(c, float) or c is Sym

    def __call__(cls, *a):
        if a:
            x = _unwrap0(a[0])
            if isinstance(x, Sym):
                return Sym(x.n, "real")
            if isinstance(x, SymBool):
                return Sym(x._num().n, "real")
            return float(x)
        return 0.0

    def __getattr__(cls, n):
        return getattr(float, n)

    def __eq__(cls, o):
        return o is cls or o is float

    __hash__ = type.__hash__


class sym_float(metaclass=_FloatMeta):
    pass


sym_float.__name__ = sym_float.__qualname__ = "float"


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, int) or (type(x) is Sym and x.kind == "int")

    def __subclasscheck__(cls, c):
        return issubclass(c, int) or c is Sym

    def __call__(cls, *a, **k):
        if len(a) == 1 and not k:
            x = _unwrap0(a[0])
            if isinstance(x, Sym):
                return x.__trunc__()
            if isinstance(x, SymBool):
                return x._num()
        return int(*a, **k)

    def __getattr__(cls, n):
        return getattr(int, n)

    def __eq__(cls, o):
        return o is cls or o is int

    __hash__ = type.__hash__


class sym_int(metaclass=_IntMeta):
    pass


sym_int.__name__ = sym_int.__qualname__ = "int"


def sym_type(*a):
    if len(a) == 1:
        t = type(a[0])
        if t is Sym:
            return sym_float if a[0].kind == "real" else sym_int
        if t is float:
            return sym_float
        if t is int:
            return sym_int
        return t
    return type(*a)


def sym_sorted(xs, key=None, reverse=False):
    return sorted(xs, key=key, reverse=reverse)


def real_dtype(d):
    if d is sym_float:
        return float
    if d is sym_int:
        return int
    return d


# --------------------------------------------------------------------------- import hook
_PROXIES: dict = {}


def register_proxy(name, obj):
    _PROXIES[name] = obj


def _sym_import(name, globals=None, locals=None, fromlist=(), level=0):
    if level:
        base = (globals or {}).get("__package__", SYM)
        parts = base.split(".")
        parts = parts[: len(parts) - (level - 1)]
        full = ".".join(parts + ([name] if name else []))
        if full == SYM or full.startswith(SYM + "."):
            return _import_pkg(full, fromlist, relative=True)
    if name == PKG or name.startswith(PKG + "."):
        return _import_pkg(SYM + name[len(PKG):], fromlist)
    top = name.split(".")[0]
    if top in _PROXIES:
        if name in _PROXIES:
            if fromlist:
                p = _PROXIES[name]
                for f in fromlist:
                    if f"{name}.{f}" in _PROXIES and not hasattr(p, f):
                        setattr(p, f, _PROXIES[f"{name}.{f}"])
                return p
            return _PROXIES[top]
        m = builtins.__import__(name, globals, locals, fromlist, 0)
        return m if fromlist else _PROXIES[top]
    if name in _PROXIES:
        if fromlist:
            return _PROXIES[name]
        return _PROXIES.get(top) or builtins.__import__(name, globals, locals, fromlist, 0)
    m = builtins.__import__(name, globals, locals, fromlist, level)
    if fromlist:
        sub = {f: _PROXIES[f"{name}.{f}"] for f in fromlist if f"{name}.{f}" in _PROXIES}
        if sub:
            ns = types.SimpleNamespace(**{k: getattr(m, k) for k in fromlist if k not in sub and hasattr(m, k)}, **sub)
            return ns
    return m


def _import_pkg(full, fromlist, relative=False):
    m = load(full)
    if fromlist:
        for f in fromlist:
            if not hasattr(m, f):
                try:
                    setattr(m, f, load(full + "." + f))
                except ModuleNotFoundError:
                    pass
        return m
    return m if relative else load(SYM)


LOADED_SOURCES: dict = {}


def _find(full):
    rel = full.split(".")[1:]
    base = os.path.join(REPO, PKG, *rel)
    if os.path.isdir(base) and os.path.exists(os.path.join(base, "__init__.py")):
        return os.path.join(base, "__init__.py"), True
    if os.path.exists(base + ".py"):
        return base + ".py", False
    raise ModuleNotFoundError(full)


def load(full=SYM):
    if full in sys.modules:
        return sys.modules[full]
    path, is_pkg = _find(full)
    if "." in full:
        load(full.rsplit(".", 1)[0])
    src = open(path).read()
    m = types.ModuleType(full)
    m.__file__ = path
    m.__package__ = full if is_pkg else full.rsplit(".", 1)[0]
    if is_pkg:
        m.__path__ = [os.path.dirname(path)]
    b = dict(vars(builtins))
    b.update(__import__=_sym_import, float=sym_float, int=sym_int, type=_TypeShim)
    m.__dict__["__builtins__"] = b
    sys.modules[full] = m
    LOADED_SOURCES[path] = hashlib.sha256(src.encode()).hexdigest()
    try:
        exec(compile(src, path, "exec", dont_inherit=True), m.__dict__)
    except BaseException:
        del sys.modules[full]
        raise
    if "." in full:
        p, c = full.rsplit(".", 1)
        setattr(sys.modules[p], c, m)
    return m


class _TypeMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, type)

    def __call__(cls, *a, **k):
        if len(a) == 1:
            return sym_type(a[0])
        return type(*a, **k)

    def __eq__(cls, o):
        return o is cls or o is type

    __hash__ = type.__hash__


class _TypeShim(metaclass=_TypeMeta):
    pass


_TypeShim.__name__ = "type"


def functions_encoded():
    """Names of the functions and methods loaded from the current source."""
    out = []
    for path in sorted(LOADED_SOURCES):
        mod = os.path.relpath(path, REPO)[:-3].replace("/", ".")
        t = ast.parse(open(path).read())
        for n in t.body:
            if isinstance(n, ast.FunctionDef):
                out.append(f"{mod}.{n.name}")
            elif isinstance(n, ast.ClassDef):
                for f in n.body:
                    if isinstance(f, ast.FunctionDef):
                        out.append(f"{mod}.{n.name}.{f.name}")
    return out


def sym_modules():
    from . import proxies  # noqa: F401  registers stand-ins

    load(SYM)
    ns = types.SimpleNamespace()
    ns.dist = load(SYM + ".distributions")
    ns.models = load(SYM + ".models")
    ns.plot = load(SYM + ".plot")
    ns.slice = load(SYM + ".slice")
    try:
        ns.bg = load(SYM + "._beta_geometric")
        ns.cg = load(SYM + "._compound_gamma")
    except ModuleNotFoundError:
        pass
    ns.symbolic = True
    return ns


def real_modules():
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import matplotlib.pyplot  # noqa: F401
    import scipy.stats  # noqa: F401
    ns = types.SimpleNamespace()
    # never trust bytecode left by an earlier build: compile from the present source
    old, sys.pycache_prefix = sys.pycache_prefix, "/nonexistent/verif-no-pyc"
    try:
        ns.dist = importlib.import_module(PKG + ".distributions")
        importlib.import_module(PKG + ".models")
    finally:
        sys.pycache_prefix = old
    assert os.path.realpath(ns.dist.__file__).startswith(os.path.realpath(REPO)), ns.dist.__file__
    ns.models = importlib.import_module(PKG + ".models")
    ns.plot = importlib.import_module(PKG + ".plot")
    ns.slice = importlib.import_module(PKG + ".slice")
    try:
        ns.bg = importlib.import_module(PKG + "._beta_geometric")
        ns.cg = importlib.import_module(PKG + "._compound_gamma")
    except ModuleNotFoundError:
        pass
    ns.symbolic = False
    return ns
