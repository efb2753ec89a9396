"""C12: arrays for any inputs, in any shapes that broadcast, give the elementwise scalar results."""
import numpy as np

from vlib.harness import Case, Whole
from vlib.npx import SymArray
from vlib.predspec import VECTOR_VIEWS, VIEWS, fields
from vlib.vectors import Shared, collect, is_prior

BOUNDS = ("every model and predictive function; every input separately and all together as arrays, prior against data, in shapes (), (1,), (2,), (2,1)x(2,), (2,2), (2,1)x(1,3), (11,), (5,1)x(4,), (3,2)x(2,), (2,1,3); "
          "element values unbounded reals / integers; Dirichlet vectors of 3 categories in 1 or 2 leading dimensions")


def zero_dim(B, v):
    """The number as an array of no dimensions."""
    return np.array(v, dtype=object).view(SymArray) if B.symbolic else np.array(v)


def case(view, shape, axes, want=None, one=False, whole=False):
    """axes(name) -> set of axes the input varies along."""

    def fn(B):
        memo = {}
        sh = Shared(Whole(B) if whole else B, axes, memo)
        pos = list(np.ndindex(*shape))
        got = {p: view.gen(sh.at(p), empty_ok=True) for p in pos}
        d0, a0 = got[pos[0]]
        cls = type(d0)
        flat = {}
        for f in fields(d0):
            flat["d", f] = {p: fields(got[p][0])[f] for p in pos}
        for k in a0:
            flat["a", k] = {p: got[p][1][k] for p in pos}
        arrs = {k: collect(B, v, shape) for k, v in flat.items()}
        if one:
            # one-element arrays
            arrs = {k: B.arr([v]) if not view.vector or np.ndim(v) == 0 else B.arr([list(v)]) for k, v in arrs.items()}
        if shape == ():
            arrs = {k: zero_dim(B, v) if np.ndim(v) == 0 else v for k, v in arrs.items()}
        lead = lambda k, v: np.shape(v)[:-1] if view.vector and np.ndim(flat[k][pos[0]]) else np.shape(v)
        full = np.broadcast_shapes(*[lead(k, v) for k, v in arrs.items()])
        used = np.broadcast_shapes(*[lead(k, v) for k, v in arrs.items() if not (k[0] == "a" and k[1] in view.unused)])
        dist = B.call(cls, **{k[1]: v for k, v in arrs.items() if k[0] == "d"})
        res = view.call(B, dist, {k[1]: v for k, v in arrs.items() if k[0] == "a"})
        B.is_type(res, view.family)
        # vectors of length one-more-axis
        shapes = []
        refs = {}
        for p in pos:
            d, a = got[p]
            d = B.call(cls, **{k: (B.arr(v) if isinstance(v, list) else v) for k, v in fields(d).items()})
            refs[p] = view.call(B, d, {k: (B.arr(v) if isinstance(v, list) else v) for k, v in a.items()})
        for f in view.params:
            u = getattr(res, f)
            vec = np.ndim(getattr(refs[pos[0]], f)) == 1
            shp = np.shape(u)[:-1] if vec else np.shape(u)
            shapes.append(shp)
            ok = len(shp) <= len(full) and all(x in (1, y) for x, y in zip(shp[::-1], full[::-1]))
            B.true(ok, f"{f}: shape {shp} does not broadcast to {full}")
            if not ok:
                continue
            target = full + (np.shape(u)[-1:] if vec else ())
            u = np.broadcast_to(np.asarray(u, dtype=object) if B.symbolic else u, target)
            for p in pos:
                q = p[len(shape) - len(full):] if len(full) <= len(shape) else p
                q = tuple(0 if full[i] == 1 else x for i, x in enumerate(q))
                if one:
                    q = (0,) * len(full)
                w = getattr(refs[p], f)
                if f in view.angles:
                    B.eq(B.cos(u[q]), B.cos(w), f"cos {f}{list(p)}")
                    B.eq(B.sin(u[q]), B.sin(w), f"sin {f}{list(p)}")
                else:
                    B.eq(u[q] if not vec else B.arr(list(u[q])), w if not vec else B.arr(list(w)), f"{f}{list(p)}")
        js = np.broadcast_shapes(*shapes)
        B.true(js == full or js == used, f"joint shape {js} instead of {full}")

    return fn


def names(view):
    """Input names of one call."""
    got = []

    class Rec:
        symbolic = False
        M = D = None

        def real(self, n, dom="real"):
            got.append(n) if n not in got else None
            return 0.5

        def int(self, n, lo=0, hi=None):
            got.append(n) if n not in got else None
            return 1

        def vec(self, n, k, dom="real"):
            return [self.real(f"{n}[{i}]") for i in range(k)]

        def ivec(self, n, k, lo=0, hi=None):
            return [self.int(f"{n}[{i}]") for i in range(k)]

        arr = staticmethod(lambda x: x)
        assume = staticmethod(lambda c: None)
        ln = staticmethod(lambda x: 0.0)

        def __getattr__(self, n):
            raise AttributeError(n)

    r = Rec()

    class Any:
        def __getattr__(self, n):
            return lambda **k: None

    r.D = Any()
    view.gen(r, empty_ok=True)
    return got


CASES = []
for v in VIEWS + VECTOR_VIEWS:
    ns = names(v)
    A = lambda f: f
    bases = []
    for n in ns:
        b = n.split("[")[0] if v.vector else n
        if b not in bases:
            bases.append(b)
    key = (lambda n: n.split("[")[0]) if v.vector else (lambda n: n)
    data = [b for b in bases if not is_prior(b)]
    add = lambda lbl, shape, axes, tier="quick", one=False, whole=False: CASES.append(Case(f"{v.name}: {lbl}", case(v, shape, axes, one=one, whole=whole), tier=tier, runs=2))
    add("all (2,)", (2,), lambda n: {0})
    add("all (1,)", (1,), lambda n: {0}, one=True)
    add("0-dimensional arrays", (), lambda n: set())
    add("0-dimensional arrays, integers", (), lambda n: set(), whole=True)
    add("prior (2,)", (2,), lambda n: {0} if is_prior(n) else set())
    if data:
        add("data (2,)", (2,), lambda n: set() if is_prior(n) else {0})
        add("prior (2,1) data (2,)", (2, 2), lambda n: {0} if is_prior(n) else {1})
        add("prior (3,) data (2,1)", (2, 3), lambda n: {1} if is_prior(n) else {0}, "thorough")
    add("all (2,), integers", (2,), lambda n: {0}, whole=True)
    add("prior (2,), integers", (2,), lambda n: {0} if is_prior(n) else set(), whole=True)
    if data:
        add("data (2,), integers", (2,), lambda n: set() if is_prior(n) else {0}, whole=True)
    add("all (2,2)", (2, 2), lambda n: {0, 1})
    if v.func != "uniform_pareto":      # 2 paths per element
        add("all (11,)", (11,), lambda n: {0})
        add("all (2,1,3)", (2, 1, 3), lambda n: {0, 2})
        add("prior (3,), data (2,1,1)", (2, 1, 3), lambda n: {2} if is_prior(n) else {0})
        if data:
            add("prior (5,1) data (4,)", (5, 4), lambda n: {0} if is_prior(n) else {1})
            add("prior (3,2) data (2,)", (3, 2), lambda n: {0, 1} if is_prior(n) else {1})
            add("prior (2,) data (3,2)", (3, 2), lambda n: {1} if is_prior(n) else {0, 1})
    for b in bases:
        add(f"only {b}", (2,), (lambda b: lambda n: {0} if key(n) == b else set())(b))
    for i, b in enumerate(bases):
        for c in bases[i + 1:]:
            add(f"{b} (2,1) {c} (2,)", (2, 2), (lambda b, c: lambda n: {0} if key(n) == b else {1} if key(n) == c else set())(b, c), "thorough")
