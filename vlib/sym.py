"""Symbolic numbers: hash-consed expression DAG, lowering to SMT terms, path exploration.

`Sym` behaves like a Python number, so the real code of conjugate can be executed on
it unchanged.  Expressions are lowered to fractions of polynomials over *atoms*
(input variables, roots, logarithms, special-function applications ...) and handed to
z3 as nonlinear real arithmetic.
"""
from __future__ import annotations

import functools
import math
import numbers
import time
from fractions import Fraction

import z3


class Unsupported(BaseException):
    """The code left the fragment the encoder understands (never a verdict)."""


class Infeasible(BaseException):
    """Current path's condition is unsatisfiable."""


class Reject(BaseException):
    """Concrete mode: the assignment does not meet the assumptions."""


# --------------------------------------------------------------------------- nodes
_TABLE: dict = {}
_NODES: list = []


class Node:
    __slots__ = ("op", "args", "id", "low")

    def __init__(self, op, args, id):
        self.op, self.args, self.id, self.low = op, args, id, None

    def __repr__(self):
        return show(self)


def mk(op, *args):
    key = (op, tuple(a.id if isinstance(a, Node) else ("#", a) for a in args))
    n = _TABLE.get(key)
    if n is None:
        n = Node(op, args, len(_NODES))
        _TABLE[key] = n
        _NODES.append(n)
    return n


def const(x) -> Node:
    return mk("c", Fraction(x))


ZERO, ONE = const(0), const(1)
_PI_MULTIPLES = {k * math.pi: Fraction(k) for k in (1, -1, 2, -2, 0.5, -0.5, 4, 0.25)}


def show(n: Node, depth=6):
    if n.op == "c":
        return str(n.args[0])
    if n.op == "v":
        return n.args[0]
    if depth == 0:
        return "..."
    a = [show(x, depth - 1) if isinstance(x, Node) else str(x) for x in n.args]
    if n.op in ("add", "mul", "div"):
        return "(" + {"add": " + ", "mul": "*", "div": "/"}[n.op].join(a) + ")"
    if n.op == "pow":
        return f"{a[0]}^{a[1]}"
    return f"{n.op}({', '.join(a)})"


def is_const(n):
    return n.op == "c"


def n_add(a, b):
    if is_const(a) and is_const(b):
        return const(a.args[0] + b.args[0])
    if a is ZERO:
        return b
    if b is ZERO:
        return a
    return mk("add", a, b)


def n_mul(a, b):
    if is_const(a) and is_const(b):
        return const(a.args[0] * b.args[0])
    if a is ZERO or b is ZERO:
        return ZERO
    if a is ONE:
        return b
    if b is ONE:
        return a
    return mk("mul", a, b)


def n_div(a, b):
    if is_const(b) and b.args[0] != 0:
        return n_mul(a, const(1 / b.args[0]))
    return mk("div", a, b)


def n_powi(a, k: int):
    if k == 0:
        return ONE
    if k == 1:
        return a
    if is_const(a) and (a.args[0] != 0 or k > 0):
        return const(a.args[0] ** k)
    if a.op == "root":
        r, q = a.args
        if k % q == 0:
            return n_powi(r, k // q)
    return mk("pow", a, k)


def iroot(fr: Fraction, q: int):
    def r(n):
        if n < 0:
            return None
        x = round(n ** (1 / q)) if n < 1 << 900 else None
        if x is None:
            return None
        for y in (x - 1, x, x + 1):
            if y >= 0 and y**q == n:
                return y
        return None

    a, b = r(fr.numerator), r(fr.denominator)
    return None if a is None or b is None else Fraction(a, b)


def n_root(a, q):
    if is_const(a):
        x = iroot(a.args[0], q)
        if x is not None:
            return const(x)
    if a.op == "root":
        return n_root(a.args[0], a.args[1] * q)
    return mk("root", a, q)


# --------------------------------------------------------------------------- polynomials over atoms
ATOMS: list = []          # atom id -> Atom
_ATOM_BY_KEY: dict = {}
MAXTERMS = 60000


class Atom:
    __slots__ = ("id", "kind", "data", "var", "node")

    def __init__(self, id, kind, data, name, node):
        self.id, self.kind, self.data, self.node = id, kind, data, node
        self.var = z3.Real(name)


def atom(kind, key, data, name, node):
    k = (kind, key)
    a = _ATOM_BY_KEY.get(k)
    if a is None:
        a = Atom(len(ATOMS), kind, data, name or f"{kind}!{len(ATOMS)}", node)
        ATOMS.append(a)
        _ATOM_BY_KEY[k] = a
    return a


# A polynomial is a dict {monomial: Fraction}; a monomial is a sorted tuple of (atom id, exp>0).
def mono_mul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(d.items()))


def p_add(p, q):
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, 0) + c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def p_mul(p, q):
    if len(p) * len(q) > 40 * MAXTERMS:
        raise Unsupported(f"polynomial too large ({len(p)}x{len(q)} terms)")
    r = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = mono_mul(m1, m2)
            v = r.get(m, 0) + c1 * c2
            if v:
                r[m] = v
            else:
                del r[m]
    if len(r) > MAXTERMS:
        raise Unsupported(f"polynomial too large ({len(r)} terms)")
    return r


def p_scale(p, c):
    return {m: v * c for m, v in p.items()}


FACTORS: list = []        # factor id -> poly (canonical: leading coefficient 1, no monomial content)
_FACTOR_BY_KEY: dict = {}


def factor_id(poly) -> int:
    key = frozenset(poly.items())
    f = _FACTOR_BY_KEY.get(key)
    if f is None:
        f = len(FACTORS)
        FACTORS.append(poly)
        _FACTOR_BY_KEY[key] = f
    return f


def atom_factor(a: Atom) -> int:
    return factor_id({((a.id, 1),): Fraction(1)})


class Frac:
    """coef * prod(FACTORS[f] ** e)"""

    __slots__ = ("coef", "facs", "_key")

    def __init__(self, coef, facs):
        self.coef = Fraction(coef)
        self.facs = {f: e for f, e in facs.items() if e} if coef else {}
        self._key = None

    @property
    def key(self):
        if self._key is None:
            self._key = (self.coef, tuple(sorted(self.facs.items())))
        return self._key

    def is_const(self):
        return not self.facs


def frac_mul(a: Frac, b: Frac) -> Frac:
    d = dict(a.facs)
    for f, e in b.facs.items():
        d[f] = d.get(f, 0) + e
    return reduce_roots(Frac(a.coef * b.coef, d))


def frac_pow(a: Frac, k: int) -> Frac:
    if a.coef == 0 and k < 0:
        raise ZeroDivisionError
    return reduce_roots(Frac(a.coef**k, {f: e * k for f, e in a.facs.items()}))


def reduce_roots(a: Frac) -> Frac:
    """root^q -> radicand (valid where the radicand is non-negative, an obligation of the root)."""
    for f, e in a.facs.items():
        p = FACTORS[f]
        if len(p) == 1:
            ((m, c),) = p.items()
            if len(m) == 1 and ATOMS[m[0][0]].kind == "root":
                rad, q = ATOMS[m[0][0]].data
                if abs(e) >= q:
                    k = int(e / q)
                    rest = dict(a.facs)
                    rest[f] = e - k * q
                    return frac_mul(Frac(a.coef, rest), frac_pow(rad, k))
    return a


def p_pow(p, e):
    r = {(): Fraction(1)}
    for _ in range(e):
        r = p_mul(r, p)
    return r


def expand(coef, facs) -> dict:
    """Expanded polynomial of coef*prod(f^e), all e >= 0."""
    r = {(): Fraction(coef)} if coef else {}
    for f, e in sorted(facs.items(), key=lambda t: len(FACTORS[t[0]])):
        for _ in range(e):
            r = p_mul(r, FACTORS[f])
    return r


def poly_to_frac(p: dict) -> Frac:
    """Split a polynomial into content, monomial factor and canonical remaining factor."""
    if not p:
        return Frac(0, {})
    if len(p) == 1:
        ((m, c),) = p.items()
        return reduce_roots(
            Frac(c, {atom_factor(ATOMS[a]): e for a, e in m})
        )
    # common monomial
    common = None
    for m in p:
        d = dict(m)
        if common is None:
            common = d
        else:
            common = {a: min(e, d[a]) for a, e in common.items() if a in d}
        if not common:
            break
    if common:
        q = {}
        for m, c in p.items():
            d = dict(m)
            for a, e in common.items():
                d[a] -= e
            q[tuple(sorted((a, e) for a, e in d.items() if e))] = c
        p = q
    lead = p[max(p)]
    p = {m: c / lead for m, c in p.items()}
    facs = {factor_id(p): 1}
    for a, e in common.items():
        facs[atom_factor(ATOMS[a])] = e
    return reduce_roots(Frac(lead, facs))


def reduce_poly_roots(p):
    """Replace root^q inside monomials by the radicand when the radicand is a polynomial."""
    out, changed = {}, False
    for m, c in p.items():
        hit = None
        for a, e in m:
            at = ATOMS[a]
            if at.kind == "root" and e >= at.data[1] and all(x > 0 for x in at.data[0].facs.values()):
                hit = (a, e)
                break
        if hit is None:
            v = out.get(m, 0) + c
            if v:
                out[m] = v
            else:
                out.pop(m, None)
            continue
        changed = True
        a, e = hit
        rad, q = ATOMS[a].data
        d = dict(m)
        d[a] = e % q
        rest = tuple(sorted((x, y) for x, y in d.items() if y))
        out = p_add(out, p_mul({rest: c}, p_pow(expand(rad.coef, rad.facs), e // q)))
    return reduce_poly_roots(out) if changed else out


def frac_add(a: Frac, b: Frac) -> Frac:
    if a.coef == 0:
        return b
    if b.coef == 0:
        return a
    keys = set(a.facs) | set(b.facs)
    common = {f: min(a.facs.get(f, 0), b.facs.get(f, 0)) for f in keys}
    pa = expand(a.coef, {f: a.facs.get(f, 0) - common[f] for f in keys if a.facs.get(f, 0) != common[f]})
    pb = expand(b.coef, {f: b.facs.get(f, 0) - common[f] for f in keys if b.facs.get(f, 0) != common[f]})
    s = poly_to_frac(reduce_poly_roots(p_add(pa, pb)))
    return cancel(frac_mul(s, Frac(1, common)))


def p_divides(num, den):
    """Exact division num/den of polynomials, or None (multivariate, lex order)."""
    if len(num) > 3000 or len(den) > 300:
        return None
    # order: tuples sorted as (atom, exp) lists are not a monomial order; use dense lex over atoms
    vars_ = sorted({a for m in den for a, _ in m})
    vs = set(vars_)
    allv = sorted({a for m in num for a, _ in m} | vs)

    def k(m):
        d = dict(m)
        return tuple(d.get(v, 0) for v in allv)

    lead = max(den, key=k)
    lc, ld = den[lead], dict(lead)
    rem, quo, steps = dict(num), {}, 0
    while rem:
        m = max(rem, key=k)
        d = dict(m)
        for a, e in ld.items():
            if d.get(a, 0) < e:
                return None
            d[a] -= e
        qm = tuple(sorted((a, e) for a, e in d.items() if e))
        qc = rem[m] / lc
        quo[qm] = quo.get(qm, 0) + qc
        rem = p_add(rem, p_mul({qm: -qc}, den))
        steps += 1
        if steps > 3000:
            return None
    return quo


def cancel(a: Frac) -> Frac:
    """Cancel denominators that divide a numerator factor exactly."""
    dens = [f for f, e in a.facs.items() if e < 0 and len(FACTORS[f]) > 1]
    if not dens:
        return a
    for f in dens:
        for g, e in list(a.facs.items()):
            if e > 0 and len(FACTORS[g]) > 1 and e == 1 and len(FACTORS[g]) >= 2 and g != f:
                q = p_divides(FACTORS[g], FACTORS[f])
                if q is not None:
                    facs = dict(a.facs)
                    facs.pop(g)
                    facs[f] = facs[f] + 1
                    return cancel(frac_mul(Frac(a.coef, facs), poly_to_frac(q)))
    return a


# --------------------------------------------------------------------------- lowering
def lower(n: Node) -> Frac:
    if n.low is not None:
        return n.low
    stack = [n]
    while stack:
        x = stack[-1]
        if x.low is not None:
            stack.pop()
            continue
        pend = [a for a in x.args if isinstance(a, Node) and a.low is None]
        if pend:
            stack.extend(pend)
            continue
        x.low = _lower1(x)
        stack.pop()
    return n.low


def _lower1(n: Node) -> Frac:
    op, a = n.op, n.args
    if op == "c":
        return Frac(a[0], {})
    if op == "v":
        return Frac(1, {atom_factor(atom("v", a[0], a[0], a[0], n)): 1})
    if op == "add":
        return frac_add(a[0].low, a[1].low)
    if op == "mul":
        return cancel(frac_mul(a[0].low, a[1].low))
    if op == "div":
        if a[1].low.coef == 0:
            raise Unsupported("division by an expression that is identically zero")
        return cancel(frac_mul(a[0].low, frac_pow(a[1].low, -1)))
    if op == "pow":
        if a[0].low.coef == 0 and a[1] < 0:
            raise Unsupported("negative power of zero")
        return frac_pow(a[0].low, a[1])
    if op == "root":
        rad, q = a[0].low, a[1]
        if rad.coef == 0:
            return Frac(0, {})
        # pull perfect powers out of the coefficient only (factors may be negative)
        c = iroot(abs(rad.coef), q)
        if c is not None and rad.coef > 0:
            inner, out = Frac(1, rad.facs), c
        else:
            inner, out = rad, Fraction(1)
        if inner.is_const() and inner.coef == 1:
            return Frac(out, {})
        at = atom("root", (inner.key, q), (inner, q), None, n)
        return Frac(out, {atom_factor(at): 1})
    if op == "ln":
        return lower(ln_expand(a[0].low))
    if op == "lnfac":            # ln |factor|
        at = atom("ln", a[0], a[0], f"LN!{a[0]}", n)
        return Frac(1, {atom_factor(at): 1})
    if op == "lnprime":
        at = atom("lnprime", a[0], a[0], f"LNP!{a[0]}", n)
        return Frac(1, {atom_factor(at): 1})
    if op == "exp":
        if a[0].low.coef == 0:
            return Frac(1, {})
        r = exp_gammas(a[0].low)
        if r is not None:
            return r
        at = atom("exp", a[0].low.key, a[0], None, n)
        return Frac(1, {atom_factor(at): 1})
    if op == "rpow":             # base ** exponent, base > 0
        base = a[0].low
        if base.coef > 0 and len(base.facs) == 1 and next(iter(base.facs.values())) % 2:
            POSFAC.update(base.facs)
        return rpow_lower(base, a[1].low)
    if op == "apow":             # |factor| ** exponent
        return apow_factor(next(iter(a[0].low.facs)), a[1].low)
    if op == "fn":
        name, args = a[0], a[1:]
        fr = simplify_fn(name, args)
        if fr is not None:
            return fr
        at = atom("fn:" + name, tuple(x.low.key for x in args), args, None, n)
        return Frac(1, {atom_factor(at): 1})
    if op == "floor":
        at = atom("floor", a[0].low.key, a[0], None, n)
        return Frac(1, {atom_factor(at): 1})
    if op == "pi":
        return Frac(1, {atom_factor(atom("pi", 0, None, "PI", n)): 1})
    raise Unsupported("lowering of " + op)


def exp_gammas(fr):
    """exp of a sum with whole multiples of log-gammas: a product of gammas and the exp of the rest."""
    if any(e < 0 for e in fr.facs.values()):
        return None
    p = expand(fr.coef, fr.facs)
    gs = {m: c for m, c in p.items() if c.denominator == 1 and len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].kind == "fn:lgamma"}
    if not gs or len(p) == 1 and gs == {m: 1 for m in p}:
        return None
    out = Frac(1, {})
    for m, c in gs.items():
        out = frac_mul(out, frac_pow(lower(mk("exp", mono_node(m, Fraction(1)))), int(c)))
    rest = {m: c for m, c in p.items() if m not in gs}
    return cancel(frac_mul(out, lower(mk("exp", frac_node(poly_to_frac(rest)))))) if rest else out


POSFAC: set = set()      # factors that stood alone as the base of a real power (hence positive)


def rpow_lower(base: Frac, e: Frac) -> Frac:
    """base ** e for a positive base, as a product of |factor| ** (multiple of a monomial)."""
    if e.coef == 0:
        return Frac(1, {})
    out = Frac(1, {})
    c = abs(base.coef)
    if c != 1:
        out = apow_term(("c", c), const(c), e)
    for f, k in base.facs.items():
        out = cancel(frac_mul(out, apow_factor(f, frac_mul(e, Frac(k, {})))))
    return out


def apow_factor(f: int, e: Frac) -> Frac:
    p = FACTORS[f]
    if len(p) == 1:
        ((m, c),) = p.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            at = ATOMS[m[0][0]]
            if at.kind == "root":
                rad, q = at.data
                return rpow_lower(rad, frac_mul(e, Frac(Fraction(1, q), {})))
            if at.kind == "exp":
                return lower(mk("exp", n_mul(at.data, frac_node(e))))
            if at.kind == "apow":
                key, bnode, e2 = at.data
                e3 = cancel(frac_mul(e, e2))
                return apow_factor(key, e3) if isinstance(key, int) else apow_term(key, bnode, e3)
    return apow_term(f, frac_node(Frac(1, {f: 1})), e)


def apow_term(key, bnode, e: Frac) -> Frac:
    if e.coef == 0:
        return Frac(1, {})
    if any(k < 0 for k in e.facs.values()):
        ts = [(e.coef, Frac(1, dict(e.facs)))]
    else:
        ts = [(c, lower(mono_node(m, Fraction(1)))) for m, c in expand(e.coef, e.facs).items()]
    out = Frac(1, {})
    positive = not isinstance(key, int) or key in POSFAC
    for c, m in ts:
        p, q = c.numerator, c.denominator
        if m.is_const():
            if q == 1 and (positive or p % 2 == 0):
                t = frac_pow(bnode.low if bnode.low is not None else lower(bnode), p)
            elif q <= 12:
                b = bnode if positive else n_root(n_mul(bnode, bnode), 2)
                t = frac_pow(lower(n_root(b, q) if q > 1 else b), p)
            else:
                t = None
        else:
            t = None
        if t is None:
            m = Frac(m.coef / q, m.facs)
            n = mk("apow", bnode, frac_node(m))
            t = frac_pow(Frac(1, {atom_factor(atom("apow", (key, m.key), (key, bnode, m), None, n)): 1}), p)
        out = cancel(frac_mul(out, t))
    return out


def simplify_fn(name, args):
    l0 = args[0].low if args else None
    if name in ("sin", "cos"):
        return trig(name, l0)
    if name == "betainc" and args[2].low.is_const() and args[2].low.coef in (0, 1):
        return Frac(args[2].low.coef, {})
    if name == "lgamma" and l0.is_const() and l0.coef in (1, 2):
        return Frac(0, {})
    if name == "lgamma" and l0.is_const() and l0.coef.denominator == 1 and 0 < l0.coef <= 40:
        return lower(mk("ln", const(math.factorial(int(l0.coef) - 1))))
    return None


def mono_node(m, c):
    r = const(c)
    for a, e in m:
        r = n_mul(r, n_powi(ATOMS[a].node, e))
    return r


def n_max(nodes):
    """Largest of the nodes (defined by constraints, not by forking)."""
    flat, best = {}, None
    for x in nodes:
        for y in (x.args[1:] if x.op == "fn" and x.args[0] == "max" else (x,)):
            if is_const(y):
                best = y if best is None or y.args[0] > best.args[0] else best
            else:
                flat[y.id] = y
    keep = []
    for y in list(flat.values()) + ([best] if best is not None else []):
        for i, z in enumerate(keep):
            d = lower(n_add(y, n_mul(const(-1), z)))
            if d.is_const():
                if d.coef > 0:
                    keep[i] = y
                break
        else:
            keep.append(y)
    if len(keep) == 1:
        return keep[0]
    return mk("fn", "max", *sorted(keep, key=lambda y: y.id))


def n_min(nodes):
    return n_mul(const(-1), n_max([n_mul(const(-1), x) for x in nodes]))


def whole_turns(m):
    """Is the monomial pi times a product of whole numbers?"""
    kinds = [(ATOMS[a], e) for a, e in m]
    return (any(at.kind == "pi" and e == 1 for at, e in kinds)
            and all(e > 0 and (at.kind == "pi" or whole_atom(at)) for at, e in kinds))


def trig(name, l0):
    """Normal form of sin / cos: parity, angle addition and cos/sin of an arctan2."""
    if l0.coef == 0:
        return Frac(0 if name == "sin" else 1, {})
    if any(e < 0 for e in l0.facs.values()):
        if l0.coef < 0:
            r = lower(mk("fn", name, frac_node(Frac(-l0.coef, l0.facs))))
            return r if name == "cos" else frac_mul(Frac(-1, {}), r)
        return None
    p = expand(l0.coef, l0.facs)
    turns = [(m, c) for m, c in p.items() if c.denominator == 1 and c % 2 == 0 and whole_turns(m)]
    if turns:
        # whole turns
        x = ZERO
        for m, c in p.items():
            if (m, c) not in turns:
                x = n_add(x, mono_node(m, c))
        return lower(mk("fn", name, x))
    if len(p) > 6:
        return None
    ts = sorted(p.items())
    if len(ts) == 1:
        ((m, c),) = ts
        at = ATOMS[m[0][0]] if len(m) == 1 and m[0][1] == 1 else None
        if at is not None and at.kind == "pi" and (2 * c).denominator == 1:
            k = int(2 * c) % 4
            return Frac({"cos": (1, 0, -1, 0), "sin": (0, 1, 0, -1)}[name][k], {})
        if c < 0:
            r = lower(mk("fn", name, mono_node(m, -c)))
            return r if name == "cos" else frac_mul(Frac(-1, {}), r)
        if at is not None and at.kind == "fn:arctan2" and c == 1:
            y, x = at.data
            h = mk("root", n_add(n_mul(x, x), n_mul(y, y)), 2)
            return lower(n_div(x if name == "cos" else y, h))
        return None
    (m, c), rest = ts[0], dict(ts[1:])
    a = mono_node(m, c)
    b = ZERO
    for m2, c2 in rest.items():
        b = n_add(b, mono_node(m2, c2))
    f = lambda n, x: mk("fn", n, x)
    if name == "cos":
        return lower(n_add(n_mul(f("cos", a), f("cos", b)), n_mul(const(-1), n_mul(f("sin", a), f("sin", b)))))
    return lower(n_add(n_mul(f("sin", a), f("cos", b)), n_mul(f("cos", a), f("sin", b))))


def frac_node(fr):
    r = const(fr.coef)
    for f, e in fr.facs.items():
        b = ZERO
        for m, c in FACTORS[f].items():
            b = n_add(b, mono_node(m, c))
        r = n_mul(r, n_powi(b, e))
    return r


def ln_expand(fr: Frac) -> Node:
    """ln of a product as a sum of logarithms of its factors (each ln|.|)."""
    out = ZERO
    c = abs(fr.coef)
    if c == 0:
        raise Unsupported("log of zero")
    for num, sgn in ((c.numerator, 1), (c.denominator, -1)):
        x, p = num, 2
        while x > 1 and p * p <= x and p < 100000:
            while x % p == 0:
                out = n_add(out, n_mul(const(sgn), mk("lnprime", p)))
                x //= p
            p += 1
        if x > 1:
            out = n_add(out, n_mul(const(sgn), mk("lnprime", x)))
    for f, e in sorted(fr.facs.items()):
        out = n_add(out, n_mul(const(e), ln_factor(f)))
    return out


def ln_factor(f: int) -> Node:
    p = FACTORS[f]
    if len(p) == 1:
        ((m, c),) = p.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            at = ATOMS[m[0][0]]
            if at.kind == "root":
                rad, q = at.data
                return n_div(ln_expand(rad), const(q))
            if at.kind == "exp":
                return at.data
            if at.kind == "apow":
                key, b, e = at.data
                return n_mul(frac_node(e), mk("ln", b))
            if at.kind == "fn:i0":
                return mk("fn", "lni0", *at.data)
    return mk("lnfac", f)


# --------------------------------------------------------------------------- z3 terms
def z3_poly(p):
    terms = []
    for m, c in sorted(p.items()):
        t = None
        for a, e in m:
            v = ATOMS[a].var
            for _ in range(e):
                t = v if t is None else t * v
        cz = z3.RealVal(str(c))
        t = cz if t is None else (t if c == 1 else cz * t)
        terms.append(t)
    if not terms:
        return z3.RealVal(0)
    return terms[0] if len(terms) == 1 else z3.Sum(terms)


_Z3FAC: dict = {}


def z3_fac(f):
    t = _Z3FAC.get(f)
    if t is None:
        t = _Z3FAC[f] = z3_poly(FACTORS[f])
    return t


def z3_prod(coef, items):
    t = None
    for f, e in items:
        for _ in range(e):
            t = z3_fac(f) if t is None else t * z3_fac(f)
    c = z3.RealVal(str(coef))
    if t is None:
        return c
    return t if coef == 1 else c * t


def num_den(fr: Frac):
    num = z3_prod(fr.coef, sorted((f, e) for f, e in fr.facs.items() if e > 0))
    den = z3_prod(1, sorted((f, -e) for f, e in fr.facs.items() if e < 0))
    return num, den


def sign_poly(fr: Frac):
    """Term with the same sign as fr (denominators non-zero)."""
    return z3_prod(fr.coef, sorted((f, (abs(e) if e > 0 else (1 if e % 2 else 0) or 0)) for f, e in fr.facs.items() if e > 0 or e % 2))


def frac_atoms(fr: Frac, out: set):
    for f in fr.facs:
        for m in FACTORS[f]:
            for a, _ in m:
                out.add(a)


# --------------------------------------------------------------------------- booleans
class BNode:
    """op in lt, le, eq, and, or, not, true, false"""

    __slots__ = ("op", "args", "k", "z", "at")

    def __init__(self, op, *args):
        self.op, self.args, self.k, self.z, self.at = op, args, None, None, None

    def key(self):
        """Equal keys: equivalent conditions."""
        if self.k is None:
            op, a = self.op, self.args
            if op in ("lt", "le", "eq"):
                d = lower(n_add(a[0], n_mul(const(-1), a[1])))
                self.k = (op, d.coef > 0 or op == "eq", tuple(sorted(d.facs.items())))
            elif op in ("and", "or", "not"):
                self.k = (op,) + tuple(x.key() for x in a)
            else:
                self.k = (op,) + tuple(x.id if isinstance(x, Node) else x for x in a)
        return self.k

    def z3(self):
        if self.z is None:
            self.z = self._z3()
        return self.z

    def _z3(self):
        op, a = self.op, self.args
        if op in ("lt", "le", "eq"):
            if op == "eq":
                l, r = lower(a[0]), lower(a[1])
                n1, d1 = num_den(l)
                n2, d2 = num_den(r)
                one = z3.RealVal(1)
                lhs = n1 if d2.eq(one) else n1 * d2
                rhs = n2 if d1.eq(one) else n2 * d1
                return lhs == rhs
            d = lower(n_add(a[0], n_mul(const(-1), a[1])))
            s = sign_poly(d)
            return s < 0 if op == "lt" else s <= 0
        if op == "and":
            return z3.And(*[x.z3() for x in a])
        if op == "or":
            return z3.Or(*[x.z3() for x in a])
        if op == "not":
            return z3.Not(a[0].z3())
        if op == "isint":
            n, d = num_den(lower(a[0]))
            if d.eq(z3.RealVal(1)):
                return z3.IsInt(n)
            raise Unsupported("isint of a fraction")
        return z3.BoolVal(op == "true")

    def atoms(self, out):
        if self.at is None:
            at = set()
            self._atoms(at)
            self.at = frozenset(at)
        out |= self.at

    def _atoms(self, out):
        if self.op in ("lt", "le", "eq", "isint"):
            if self.op in ("lt", "le"):
                frac_atoms(lower(n_add(self.args[0], n_mul(const(-1), self.args[1]))), out)
            for x in self.args:
                frac_atoms(lower(x), out)
        else:
            for x in self.args:
                x.atoms(out)

    def ev(self, env):
        op, a = self.op, self.args
        if op == "lt":
            return ev(a[0], env) < ev(a[1], env)
        if op == "le":
            return ev(a[0], env) <= ev(a[1], env) * (1 + 1e-12) + 1e-12
        if op == "eq":
            x, y = ev(a[0], env), ev(a[1], env)
            return abs(x - y) <= 1e-9 * (1 + abs(x) + abs(y))
        if op == "and":
            return all(x.ev(env) for x in a)
        if op == "or":
            return any(x.ev(env) for x in a)
        if op == "not":
            return not a[0].ev(env)
        if op == "isint":
            return float(ev(a[0], env)).is_integer()
        return op == "true"

    def __repr__(self):
        return f"{self.op}({', '.join(map(repr, self.args))})"


TRUE, FALSE = BNode("true"), BNode("false")


def b_not(x):
    if x.op == "true":
        return FALSE
    if x.op == "false":
        return TRUE
    if x.op == "not":
        return x.args[0]
    if x.op == "lt":
        return BNode("le", x.args[1], x.args[0])
    if x.op == "le":
        return BNode("lt", x.args[1], x.args[0])
    return BNode("not", x)


def b_and(*xs):
    xs = [x for x in xs if x.op != "true"]
    if any(x.op == "false" for x in xs):
        return FALSE
    if not xs:
        return TRUE
    return xs[0] if len(xs) == 1 else BNode("and", *xs)


def b_or(*xs):
    xs = [x for x in xs if x.op != "false"]
    if any(x.op == "true" for x in xs):
        return TRUE
    if not xs:
        return FALSE
    return xs[0] if len(xs) == 1 else BNode("or", *xs)


def b_cmp(op, a, b):
    if is_const(a) and is_const(b):
        x, y = a.args[0], b.args[0]
        return TRUE if {"lt": x < y, "le": x <= y, "eq": x == y}[op] else FALSE
    if a is b:
        return FALSE if op == "lt" else TRUE
    d = lower(n_add(a, n_mul(const(-1), b)))
    if d.is_const():
        return TRUE if {"lt": d.coef < 0, "le": d.coef <= 0, "eq": d.coef == 0}[op] else FALSE
    return BNode(op, a, b)


class SymBool:
    __slots__ = ("b",)

    def __init__(self, b):
        self.b = b

    def __bool__(self):
        return CTX.decide(self.b)

    def __and__(self, o):
        return SymBool(b_and(self.b, as_b(o)))

    __rand__ = __and__

    def __or__(self, o):
        return SymBool(b_or(self.b, as_b(o)))

    __ror__ = __or__

    def __invert__(self):
        return SymBool(b_not(self.b))

    logical_not = __invert__

    def __xor__(self, o):
        p, q = self.b, as_b(o)
        return SymBool(b_or(b_and(p, b_not(q)), b_and(b_not(p), q)))

    __rxor__ = __xor__

    def _num(self):
        return Sym(ONE if bool(self) else ZERO, "int")

    def __mul__(self, o):
        return self._num() * o

    __rmul__ = __mul__

    def __add__(self, o):
        return self._num() + o

    __radd__ = __add__

    def __sub__(self, o):
        return self._num() - o

    def __rsub__(self, o):
        return o - self._num()

    def __index__(self):
        return int(bool(self))

    def __float__(self):
        return float(bool(self))

    def __deepcopy__(self, memo):
        return self

    def __eq__(self, o):
        if isinstance(o, (bool, SymBool)):
            return SymBool(b_not((self ^ o).b))
        return NotImplemented

    __hash__ = object.__hash__


def as_b(o):
    if isinstance(o, SymBool):
        return o.b
    return TRUE if bool(o) else FALSE


# --------------------------------------------------------------------------- Sym
def to_node(x):
    """Node of a number, or None when x is not a number."""
    if isinstance(x, Sym):
        return x.n
    if isinstance(x, SymBool):
        return x._num().n
    if isinstance(x, (bool, int, Fraction)):
        return const(int(x) if isinstance(x, bool) else x)
    if isinstance(x, numbers.Real) or type(x).__module__ == "numpy" and getattr(x, "ndim", 1) == 0 and hasattr(x, "item"):
        try:
            v = x.item() if hasattr(x, "item") else x
        except Exception:
            return None
        if isinstance(v, Sym):
            return v.n
        if isinstance(v, (bool, int)):
            return const(int(v))
        if isinstance(v, float):
            return float_node(v)
    return None


PI = mk("pi")


def float_node(v: float):
    if v in _PI_MULTIPLES:
        return n_mul(const(_PI_MULTIPLES[v]), PI)
    if math.isinf(v) or math.isnan(v):
        return None
    c = _constant(float(v))
    return n_mul(const(c[0]), PI) if isinstance(c, tuple) else const(c)


@functools.lru_cache(65536)
def _constant(v):
    """A floating point constant stands for the simple fraction it is a rounding of (i / 99 for 0.0101...), or else its decimals."""
    close = 4 * math.ulp(max(1.0, abs(v)))
    f = Fraction(v).limit_denominator(9999)
    if abs(float(f) - v) <= close and (f or not v):
        return f
    f = Fraction(v / math.pi).limit_denominator(999)
    if abs(float(f) * math.pi - v) <= close and f:
        return (f,)             # times pi
    return Fraction(repr(v))


def sym(x, kind="real"):
    n = to_node(x)
    if n is None:
        raise Unsupported(f"not a number: {x!r}")
    return Sym(n, kind)


def _kind(op, *ks):
    return "int" if all(k == "int" for k in ks) and op != "div" else "real"


def kind_of(x):
    if isinstance(x, Sym):
        return x.kind
    if isinstance(x, (bool, int)):
        return "int"
    if hasattr(x, "dtype"):
        return "int" if x.dtype.kind in "iub" else "real"
    return "real"


def _is_inf(x):
    try:
        return isinstance(x, float) and math.isinf(x)
    except Exception:
        return False


class Sym:
    __slots__ = ("n", "kind")
    __array_priority__ = 0

    def __init__(self, n: Node, kind="real"):
        self.n, self.kind = n, kind

    # -- binary
    def _bin(self, o, f, op, swap=False):
        if _is_inf(o):
            raise Unsupported("arithmetic with infinity")
        b = to_node(o)
        if b is None:
            return NotImplemented
        k = _kind(op, self.kind, kind_of(o))
        return Sym(f(b, self.n) if swap else f(self.n, b), k)

    def __add__(self, o):
        return self._bin(o, n_add, "add")

    def __radd__(self, o):
        return self._bin(o, n_add, "add", True)

    def __sub__(self, o):
        return self._bin(o, lambda a, b: n_add(a, n_mul(const(-1), b)), "sub")

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: n_add(a, n_mul(const(-1), b)), "sub", True)

    def __mul__(self, o):
        return self._bin(o, n_mul, "mul")

    def __rmul__(self, o):
        return self._bin(o, n_mul, "mul", True)

    def __truediv__(self, o):
        b = to_node(o)
        if b is None:
            return NotImplemented
        return div(self.n, b)

    def __rtruediv__(self, o):
        a = to_node(o)
        if a is None:
            return NotImplemented
        return div(a, self.n)

    def __floordiv__(self, o):
        b = to_node(o)
        if b is None:
            return NotImplemented
        return floor_(div(self.n, b).n, _kind("add", self.kind, kind_of(o)))

    def __rfloordiv__(self, o):
        a = to_node(o)
        if a is None:
            return NotImplemented
        return floor_(div(a, self.n).n, _kind("add", self.kind, kind_of(o)))

    def __mod__(self, o):
        b = to_node(o)
        if b is None:
            return NotImplemented
        return self - (self // o) * o

    def __rmod__(self, o):
        b = to_node(o)
        if b is None:
            return NotImplemented
        return o - (o // self) * self

    def __divmod__(self, o):
        return self // o, self % o

    def __pow__(self, o, mod=None):
        e = to_node(o)
        if e is None:
            return NotImplemented
        return power(self.n, e, self.kind)

    def __rpow__(self, o):
        b = to_node(o)
        if b is None:
            return NotImplemented
        return power(b, self.n, "real")

    def __neg__(self):
        return Sym(n_mul(const(-1), self.n), self.kind)

    def __pos__(self):
        return self

    def __abs__(self):
        return self if bool(self >= 0) else -self

    absolute = fabs = __abs__

    # -- comparisons
    def _cmp(self, o, op, swap=False, neg=False):
        if _is_inf(o):
            # every symbolic value is finite
            up = o > 0
            return {"lt": up, "gt": not up, "eq": False}[
                "eq" if op == "eq" else ("lt" if not swap else "gt")
            ] if not neg else True
        b = to_node(o)
        if b is None:
            return NotImplemented
        x = b_cmp(op, b, self.n) if swap else b_cmp(op, self.n, b)
        if neg:
            x = b_not(x)
        if x.op in ("true", "false"):
            return x.op == "true"
        return SymBool(x)

    def __lt__(self, o):
        return self._cmp(o, "lt")

    def __le__(self, o):
        return self._cmp(o, "le")

    def __gt__(self, o):
        return self._cmp(o, "lt", swap=True)

    def __ge__(self, o):
        return self._cmp(o, "le", swap=True)

    def __eq__(self, o):
        return self._cmp(o, "eq")

    def __ne__(self, o):
        return self._cmp(o, "eq", neg=True)

    def __hash__(self):
        if is_const(self.n):
            return hash(self.n.args[0])
        return hash(("Sym", self.n.id))

    def __bool__(self):
        return bool(self != 0)

    # -- conversions
    def __float__(self):
        if is_const(self.n):
            return float(self.n.args[0])
        raise Unsupported("float() of a symbolic value outside the instrumented code")

    def __int__(self):
        return self.__index__() if self.kind == "int" else self.__trunc__().__index__()

    def __index__(self):
        if is_const(self.n) and self.n.args[0].denominator == 1:
            return int(self.n.args[0])
        if self.kind != "int":
            raise TypeError("'float' object cannot be interpreted as an integer")
        return CTX.concretize(self.n)

    def __trunc__(self):
        if self.kind == "int":
            return self
        if bool(self >= 0):
            return floor_(self.n, "int")
        return -floor_((-self).n, "int")

    def __floor__(self):
        return self if self.kind == "int" else floor_(self.n, "int")

    floor = __floor__

    def __ceil__(self):
        return self if self.kind == "int" else -floor_((-self).n, "int")

    ceil = __ceil__
    trunc = __trunc__

    def __round__(self, nd=None):
        if self.kind == "int" and (nd is None or nd >= 0):
            return self
        s = 10 ** (nd or 0)
        r = floor_((self * s + Fraction(1, 2)).n, "int")
        return r if nd is None else Sym((r / s).n, self.kind)

    def rint(self):
        return self.__round__()

    def round(self, nd=0):
        return self.__round__(nd)

    # -- numpy object-ufunc methods
    def sqrt(self):
        return power(self.n, const(Fraction(1, 2)), self.kind)

    def cbrt(self):
        return power(self.n, const(Fraction(1, 3)), self.kind)

    def square(self):
        return self * self

    def reciprocal(self):
        return 1 / self

    def log(self):
        CTX.oblige(b_cmp("lt", ZERO, self.n), "log of a non-positive number")
        return Sym(mk("ln", self.n))

    def log1p(self):
        return (1 + self).log()

    def log2(self):
        return self.log() / Sym(mk("ln", const(2)))

    def log10(self):
        return self.log() / Sym(mk("ln", const(10)))

    def exp(self):
        if self.n is ZERO:
            return Sym(ONE)
        if self.n.op == "ln":
            return Sym(self.n.args[0])
        return Sym(mk("exp", self.n))

    def expm1(self):
        return self.exp() - 1

    def sin(self):
        return Sym(mk("fn", "sin", self.n))

    def cos(self):
        return Sym(mk("fn", "cos", self.n))

    def tan(self):
        return self.sin() / self.cos()

    def arctan2(self, o):
        return Sym(mk("fn", "arctan2", self.n, to_node(o)))

    def hypot(self, o):
        return (self * self + o * o) ** 0.5

    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    def item(self):
        return self

    def isnan(self):
        return False

    def isfinite(self):
        return True

    def isinf(self):
        return False

    def is_integer(self):
        return SymBool(BNode("isint", self.n)) if self.kind != "int" else True

    def __getitem__(self, k):
        # numpy scalars can be indexed with an empty tuple
        if k == () or k is Ellipsis:
            return self
        raise TypeError("'float' object is not subscriptable" if k is not None else "cannot add an axis to a number")

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        return show(self.n)

    def __reduce__(self):
        raise Unsupported("pickling a symbolic value")


def div(a: Node, b: Node) -> Sym:
    if is_const(b):
        if b.args[0] == 0:
            raise ZeroDivisionError("division by zero")
    else:
        CTX.oblige(b_not(b_cmp("eq", b, ZERO)), "division by zero")
    return Sym(n_div(a, b))


def floor_(n, kind="int"):
    if is_const(n):
        return Sym(const(math.floor(n.args[0])), kind)
    # whole numbers come out of the floor
    whole, rest = split_whole(n)
    if whole is None:
        return Sym(mk("floor", n), kind)
    if rest is None:
        return Sym(n, kind)
    if CTX.active and CTX.truth(b_cmp("le", ZERO, rest)) and CTX.truth(b_cmp("lt", rest, ONE)):
        return Sym(whole, kind)
    return Sym(n_add(whole, mk("floor", rest)), kind)


INT_VARS: set = set()


def whole_atom(at):
    if at.kind == "fn:max":
        return all(whole_poly(x) for x in at.data)
    return at.kind == "floor" or at.kind == "v" and at.data in INT_VARS


def whole_poly(n):
    fr = lower(n)
    if any(e < 0 for e in fr.facs.values()):
        return False
    return all(c.denominator == 1 and all(whole_atom(ATOMS[a]) for a, _ in m) for m, c in expand(fr.coef, fr.facs).items())


def split_whole(n):
    """n = whole + rest with whole a sum of integer multiples of products of whole-number variables."""
    fr = lower(n)
    if any(e < 0 for e in fr.facs.values()):
        return None, n
    p = expand(fr.coef, fr.facs)
    whole, rest = {}, {}
    for m, c in p.items():
        ints = c.denominator == 1 and all(whole_atom(ATOMS[a]) for a, _ in m)
        (whole if ints else rest)[m] = c
    if not whole:
        return None, n
    return frac_node(poly_to_frac(whole)), frac_node(poly_to_frac(rest)) if rest else None


def power(a: Node, e: Node, kind="real") -> Sym:
    if is_const(e):
        q = e.args[0]
        if q.denominator == 1:
            k = int(q)
            if k < 0:
                return div(ONE, n_powi(a, -k))
            return Sym(n_powi(a, k), kind)
        if q.denominator <= 12:
            CTX.oblige(b_cmp("le" if q > 0 else "lt", ZERO, a), "fractional power of a negative number")
            r = n_powi(n_root(a, q.denominator), abs(q.numerator))
            return Sym(r) if q > 0 else div(ONE, r)
    le = lower(e)
    if le.is_const():
        return power(a, const(le.coef), kind)
    la = lower(a)
    if la.is_const() and la.coef == 0:
        if CTX.truth(b_cmp("lt", ZERO, e)):
            return Sym(ZERO, kind)
        if CTX.truth(b_cmp("eq", ZERO, e)):
            return Sym(ONE, kind)
        raise Unsupported("negative power of zero")
    CTX.oblige(b_cmp("lt", ZERO, a), "real power of a non-positive number")
    if a is ONE:
        return Sym(ONE)
    return Sym(mk("rpow", a, e))


def fn(name, *args):
    return Sym(mk("fn", name, *[to_node(a) for a in args]))


def var(name, kind="real"):
    if kind == "int":
        INT_VARS.add(name)
    else:
        INT_VARS.discard(name)
    return Sym(mk("v", name), kind)


# --------------------------------------------------------------------------- numeric evaluation
from scipy import special as _sp  # noqa: E402

FN_EVAL = {
    "lgamma": lambda x: float(_sp.gammaln(x)),
    "sin": math.sin,
    "cos": math.cos,
    "arctan2": math.atan2,
    "i0": lambda x: float(_sp.i0(x)),
    "lni0": lambda x: float(math.log(_sp.i0e(x)) + abs(x)),
    "betainc": lambda *a: float(_sp.betainc(*a)),
    "gammainc": lambda *a: float(_sp.gammainc(*a)),
    "ndtr": lambda x: float(_sp.ndtr(x)),
    "max": max,
}


def ev(n, env, cache=None):
    """Floating point value of a node under {input name: value}."""
    if isinstance(n, Sym):
        n = n.n
    cache = {} if cache is None else cache
    stack = [n]
    while stack:
        x = stack[-1]
        if x.id in cache:
            stack.pop()
            continue
        pend = [a for a in x.args if isinstance(a, Node) and a.id not in cache]
        if pend:
            stack.extend(pend)
            continue
        v = [cache[a.id] if isinstance(a, Node) else a for a in x.args]
        op = x.op
        if op == "c":
            r = float(v[0]) if v[0].denominator != 1 or abs(v[0]) > 1 << 53 else int(v[0])
        elif op == "v":
            r = env[v[0]]
        elif op == "add":
            r = v[0] + v[1]
        elif op == "mul":
            r = v[0] * v[1]
        elif op == "div":
            r = v[0] / v[1] if v[1] else float("nan")
        elif op == "pow":
            r = v[0] ** v[1]
        elif op == "root":
            r = float(v[0]) ** (1 / v[1]) if v[0] >= 0 else float("nan")
        elif op == "ln":
            r = math.log(abs(v[0])) if v[0] else float("-inf")
        elif op == "lnprime":
            r = math.log(v[0])
        elif op == "exp":
            r = math.exp(v[0]) if v[0] < 700 else float("inf")
        elif op == "rpow":
            r = float(v[0]) ** v[1]
        elif op == "apow":
            r = abs(float(v[0])) ** v[1]
        elif op == "floor":
            r = math.floor(v[0])
        elif op == "pi":
            r = math.pi
        elif op == "fn":
            f = FN_EVAL.get(v[0])
            if f is None:
                raise Unsupported("evaluating " + str(v[0]))
            r = f(*v[1:])
        else:
            raise Unsupported("evaluating " + op)
        cache[x.id] = r
        stack.pop()
    return cache[n.id]


# --------------------------------------------------------------------------- solver
class Stats:
    def __init__(self):
        self.queries = self.unsat = self.sat = self.unknown = 0
        self.branch_queries = 0
        self.solver_s = 0.0
        self.paths = 0
        self.branches = 0


STATS = Stats()
BUDGET = {"timeout_ms": 20000, "cvc5": False}


def defs_for(atoms: set):
    """Definitions of the atoms used (transitively) as z3 constraints."""
    done, todo, out = set(), list(atoms), []
    while todo:
        a = todo.pop()
        if a in done:
            continue
        done.add(a)
        at = ATOMS[a]
        new = set()
        if at.kind == "root":
            rad, q = at.data
            frac_atoms(rad, new)
            n, d = num_den(rad)
            p = at.var
            for _ in range(q - 1):
                p = p * at.var
            if q % 2 == 0:
                out.append(at.var >= 0)
            out.append(p * d == n)
            for f, e in rad.facs.items():
                if e < 0:
                    out.append(z3_fac(f) != 0)
        elif at.kind in ("exp", "apow"):
            out.append(at.var > 0)
        elif at.kind == "fn:i0":
            out.append(at.var >= 1)
        elif at.kind == "fn:lni0":
            out.append(at.var >= 0)
        elif at.kind == "pi":
            out.append(z3.And(at.var > z3.Q(314159265, 10**8), at.var < z3.Q(314159266, 10**8)))
        elif at.kind == "fn:max":
            cs = [BNode("le", x, at.node) for x in at.data] + [BNode("or", *[BNode("eq", x, at.node) for x in at.data])]
            for c in cs:
                c.atoms(new)
            out += [c.z3() for c in cs]
        elif at.kind == "floor":
            fr = at.data.low
            frac_atoms(fr, new)
            n, d = num_den(fr)
            k = z3.Int(f"fl!{a}")
            v = at.var
            # k <= n/d < k+1, with d's sign unknown: multiply by d^2
            out.append(v == z3.ToReal(k))
            out.append(z3.And(v * d * d <= n * d, n * d < (v + 1) * d * d))
        todo.extend(new - done)
    # ln monotone facts and special-function congruence
    by = {}
    for a in done:
        at = ATOMS[a]
        if CONGRUENT[0] and at.kind == "fn:betainc":
            c = BNode("eq", at.data[2], ZERO)
            out.append(z3.Implies(c.z3(), at.var == 0))
        if at.kind.startswith("fn:") and (at.kind in FN_CONGRUENCE or CONGRUENT[0] and at.kind != "fn:max") or CONGRUENT[0] and at.kind == "exp":
            by.setdefault(at.kind, []).append(at)
    extra = set()
    for k, ats in by.items():
        for i in range(len(ats)):
            for j in range(i):
                di, dj = [d if isinstance(d, tuple) else (d,) for d in (ats[i].data, ats[j].data)]
                eqs = [BNode("eq", x, y) for x, y in zip(di, dj)]
                s = set()
                for e in eqs:
                    e.atoms(s)
                if len(s) <= 12:
                    extra |= s - done
                    out.append(z3.Implies(z3.And(*[e.z3() for e in eqs]), ats[i].var == ats[j].var))
    if extra:
        out += defs_for(extra)
    # Pythagoras for every angle both of whose functions occur; gamma recurrences
    sins = {at.data[0].low.key: at for at in (ATOMS[a] for a in done) if at.kind == "fn:sin"}
    coss = {at.data[0].low.key: at for at in (ATOMS[a] for a in done) if at.kind == "fn:cos"}
    for k in set(sins) & set(coss):
        out.append(sins[k].var * sins[k].var + coss[k].var * coss[k].var == 1)
    return out


FN_CONGRUENCE = {"fn:" + n for n in ("inv", "uf", "ln_u")}
CONGRUENT = [False]      # second attempt: every function of equal arguments is equal


def lemmas_for(atoms: set, extra_atoms: set):
    """Gamma recurrence lemmas between lgamma atoms whose arguments differ by a small integer."""
    out = []
    gs = [ATOMS[a] for a in atoms if ATOMS[a].kind == "fn:lgamma"]
    for i in range(len(gs)):
        for j in range(len(gs)):
            if i == j:
                continue
            d = lower(n_add(gs[i].data[0], n_mul(const(-1), gs[j].data[0])))
            if d.is_const() and d.coef.denominator == 1 and 0 < d.coef <= 8:
                s = ZERO
                for t in range(int(d.coef)):
                    s = n_add(s, mk("ln", n_add(gs[j].data[0], const(t))))
                fr = lower(s)
                frac_atoms(fr, extra_atoms)
                n, dd = num_den(fr)
                out.append((gs[i].var - gs[j].var) * dd == n)
    return out


def build(conds):
    """z3 formulas of a list of BNodes plus all definitions they need."""
    atoms: set = set()
    fs = []
    for c in conds:
        c.atoms(atoms)
        fs.append(c.z3())
    extra: set = set()
    fs += lemmas_for(atoms, extra)
    fs += defs_for(atoms | extra)
    return fs, atoms


def known_positive(conds):
    """Atoms the conditions state to be positive."""
    pos = set()
    for c in conds:
        if c.op == "lt" and is_const(c.args[0]) and c.args[0].args[0] >= 0 and c.args[1].op == "v":
            pos |= {m[0][0] for m in FACTORS[next(iter(lower(c.args[1]).facs))]}
        elif c.op == "le" and is_const(c.args[0]) and c.args[0].args[0] > 0 and c.args[1].op == "v":
            pos |= {m[0][0] for m in FACTORS[next(iter(lower(c.args[1]).facs))]}
    return pos


class Linear:
    """Relaxation: every monomial is an independent real. Unsat of the relaxation is unsat."""

    def __init__(self, conds):
        self.conds = conds
        self.monos, self.fs = {}, []
        self.pos = known_positive(conds)
        self.posfac = {}
        self.hints = []
        for h in CTX.hints:
            d = lower(h)
            p = expand(d.coef, {f: (e if e > 0 else e % 2) for f, e in d.facs.items() if e > 0 or e % 2})
            if len(p) <= 4000:
                self.hints.append(self.lin(p) >= 0)

    def mono(self, m):
        if m == ():
            return z3.RealVal(1)
        v = self.monos.get(m)
        if v is None:
            v = self.monos[m] = z3.Real(f"m!{len(self.monos)}")
        return v

    def lin(self, p):
        if len(p) > 4000:
            raise Unsupported("polynomial too large for the linear relaxation")
        return z3.Sum([z3.RealVal(0)] + [z3.RealVal(str(c)) * self.mono(m) for m, c in p.items()])

    def facts(self):
        out = []
        for m, v in self.monos.items():
            if all(a in self.pos for a, e in m):
                out.append(v > 0)
            elif all(a in self.pos or e % 2 == 0 for a, e in m):
                out.append(v >= 0)
        return out

    def unsat(self, fs):
        s = z3.SolverFor("QF_LRA")
        s.set("timeout", 10000)
        s.add(*fs, *self.hints, *self.facts())
        return s.check() == z3.unsat

    def positive(self, f):
        """Is factor f shown positive by the facts alone?"""
        r = self.posfac.get(f)
        if r is None:
            p = FACTORS[f]
            if len(p) == 1:
                ((m, c),) = p.items()
                r = c > 0 and all(a in self.pos for a, _ in m)
            elif len(p) > 4000:
                r = False
            else:
                r = self.unsat([self.lin(p) <= 0])
            self.posfac[f] = r
        return r

    def go(self, c):
        op, a = c.op, c.args
        if op in ("lt", "le"):
            d = lower(n_add(a[0], n_mul(const(-1), a[1])))
            q = self.lin(expand(d.coef, {f: (e if e > 0 else e % 2) for f, e in d.facs.items() if (e > 0 or e % 2) and not self.positive(f)}))
            return q < 0 if op == "lt" else q <= 0
        if op == "eq":
            d = lower(n_add(a[0], n_mul(const(-1), a[1])))
            return self.lin(expand(d.coef, {f: e for f, e in d.facs.items() if e > 0 and not self.positive(f)})) == 0
        if op == "and":
            return z3.And(*[self.go(x) for x in a])
        if op == "or":
            return z3.Or(*[self.go(x) for x in a])
        if op == "not":
            return z3.Not(self.go(a[0]))
        return z3.BoolVal(op != "false")


def linear_unsat(conds):
    try:
        L = Linear(conds)
        return L.unsat([L.go(c) for c in conds])
    except Unsupported:
        return False


def check(conds, timeout_ms=None, want_model=True, kind="query"):
    """-> ('unsat'|'sat'|'unknown', model or None). model: {atom var name: Fraction}"""
    if CTX.hints:
        t0 = time.time()
        done = linear_unsat(conds)
        STATS.solver_s += time.time() - t0
        if done:
            if kind == "query":
                STATS.queries += 1
                STATS.unsat += 1
            else:
                STATS.branch_queries += 1
            return "unsat", None
    fs, atoms = build(conds)
    t0 = time.time()
    timeout_ms = timeout_ms or BUDGET["timeout_ms"]
    res, model = "unknown", None
    for mkS, share in ((lambda: z3.Solver(), 0.35), (lambda: z3.Tactic("qfnra-nlsat").solver(), 0.65)):
        s = mkS()
        s.set("timeout", max(200, int(timeout_ms * share)))
        s.add(*fs)
        try:
            r = s.check()
        except z3.Z3Exception:
            continue
        if r == z3.unsat:
            res = "unsat"
            break
        if r == z3.sat:
            res = "sat"
            if want_model:
                model = extract(s.model())
            break
    dt = time.time() - t0
    STATS.solver_s += dt
    if kind == "query":
        STATS.queries += 1
        setattr(STATS, res, getattr(STATS, res) + 1)
    else:
        STATS.branch_queries += 1
    return res, model


def extract(m):
    out = {}
    for d in m.decls():
        v = m[d]
        if z3.is_rational_value(v) or z3.is_int_value(v):
            out[d.name()] = Fraction(v.as_fraction()) if z3.is_rational_value(v) else Fraction(v.as_long())
        elif z3.is_algebraic_value(v):
            out[d.name()] = Fraction(v.approx(20).as_fraction())
    return out


# --------------------------------------------------------------------------- path exploration
class Context:
    def __init__(self):
        self.reset([])
        self.active = False
        self.stack = []
        self.max_paths = 400

    def reset(self, prefix):
        self.prefix = prefix
        self.taken = []
        self.pc = []           # BNodes: assumptions and decisions
        self.obligations = []  # (BNode, text, pc length)
        self.hints = []
        self.in_code = 0
        self.n_assume = 0
        self.names = {}
        self.known = {}        # truth of conditions that were assumed, decided or found to be forced

    def fact(self, b, v=True):
        while b.op == "not":
            b, v = b.args[0], not v
        self.known[b.key()] = v
        if b.op in ("lt", "le"):
            _, up, f = b.key()
            if b.op == "lt" and v:
                self.known[("le", up, f)] = True
            elif not v:
                self.known[("le", not up, f)] = True
                if b.op == "le":
                    self.known[("lt", not up, f)] = True
        if b.op == ("and" if v else "or"):
            for x in b.args:
                self.fact(x, v)

    def truth(self, b):
        v = True
        while b.op == "not":
            b, v = b.args[0], not v
        if b.op in ("true", "false"):
            return (b.op == "true") == v
        r = self.known.get(b.key())
        return None if r is None else r == v

    def assume(self, b):
        if isinstance(b, (bool,)):
            if not b:
                raise Infeasible
            return
        b = as_b(b)
        if b.op == "false":
            raise Infeasible
        if b.op != "true" and not self.truth(b):
            self.pc.append(b)
            self.fact(b)

    def oblige(self, b, text):
        """Definedness condition of an operation: asserted in code, assumed afterwards."""
        if b.op == "true" or self.truth(b):
            return
        if self.in_code:
            self.obligations.append((b, text, list(self.pc)))
        self.pc.append(b)
        self.fact(b)

    def near(self, b):
        """The conditions on b's quantities alone, when they are few: they often settle b."""
        if len(self.pc) < 12 or self.hints:
            return None
        at = set()
        b.atoms(at)
        out = []
        for c in self.pc:
            if c.at is None:
                c.atoms(set())
            if c.at <= at:
                out.append(c)
        return out if len(out) < len(self.pc) else None

    def decide(self, b) -> bool:
        if b.op in ("true", "false"):
            return b.op == "true"
        if not self.active:
            raise Unsupported("branch on a symbolic condition outside exploration")
        v = self.truth(b)
        if v is not None:
            return v
        i = len(self.taken)
        STATS.branches += 1
        if i < len(self.prefix):
            c = self.prefix[i]
        else:
            nb = b_not(b)
            near = self.near(b)
            if near and check(near + [nb], 1000, False, "branch")[0] == "unsat":
                rt, c = None, (True, True)
            else:
                rt, _ = check(self.pc + [b], 4000, False, "branch")
            if rt is None:
                pass
            elif rt == "unsat":
                c = (False, True)
            else:
                rf, _ = check(self.pc + [nb], 4000, False, "branch")
                if rf == "unsat":
                    c = (True, True)
                else:
                    c = (True, False)
                    self.stack.append(self.taken + [(False, False)])
        self.taken.append(c)
        if not c[1]:
            self.pc.append(b if c[0] else b_not(b))
        self.fact(b, c[0])
        return c[0]

    def concretize(self, n) -> int:
        """Integer value of a symbolic integer: forks over its feasible values."""
        tried = []
        for _ in range(64):
            i = len(self.taken)
            if i < len(self.prefix):
                c = self.prefix[i]
                self.taken.append(c)
                if c[0] == "=":
                    self.pc.append(BNode("eq", n, const(c[1])))
                    return c[1]
                tried = list(c[1])
                continue
            cond = [b_not(BNode("eq", n, const(t))) for t in tried]
            r, m = check(self.pc + cond + [BNode("isint", n)], 6000, True, "branch")
            if r == "unsat":
                raise Infeasible
            if r != "sat":
                raise Unsupported("cannot enumerate a symbolic integer")
            v = eval_exact(n, m)
            tried = tried + [v]
            self.stack.append(self.taken + [("!", tuple(tried))])
            self.taken.append(("=", v))
            self.pc.append(BNode("eq", n, const(v)))
            return v
        raise Unsupported("too many values for a symbolic integer")


def eval_exact(n, m):
    env = {k: v for k, v in m.items()}

    def g(x):
        if x.op == "c":
            return x.args[0]
        if x.op == "v":
            return env.get(x.args[0], Fraction(0))
        if x.op == "add":
            return g(x.args[0]) + g(x.args[1])
        if x.op == "mul":
            return g(x.args[0]) * g(x.args[1])
        if x.op == "div":
            return g(x.args[0]) / g(x.args[1])
        if x.op == "pow":
            return g(x.args[0]) ** x.args[1]
        if x.op == "floor":
            return Fraction(math.floor(g(x.args[0])))
        if x.op == "fn" and x.args[0] == "max":
            return max(g(y) for y in x.args[1:])
        raise Unsupported("exact evaluation of " + x.op)

    v = g(n)
    if v.denominator != 1:
        raise Unsupported("non-integer value for an integer")
    return int(v)


CTX = Context()


def explore(fn, max_paths=400):
    """Run fn() along every feasible path; yields per-path results of fn."""
    CTX.stack = [[]]
    n = 0
    while CTX.stack:
        prefix = CTX.stack.pop()
        CTX.reset(prefix)
        CTX.active = True
        n += 1
        if n > max_paths:
            CTX.active = False
            raise Unsupported(f"more than {max_paths} paths")
        try:
            r = fn()
        except Infeasible:
            continue
        finally:
            CTX.active = False
        STATS.paths += 1
        yield r


# --------------------------------------------------------------------------- substitution
def subst(n, env):
    """n with variables replaced: env maps a name to a Node."""
    if isinstance(n, Sym):
        return Sym(subst(n.n, env))
    done = {}
    stack = [n]
    while stack:
        x = stack[-1]
        if x.id in done:
            stack.pop()
            continue
        pend = [a for a in x.args if isinstance(a, Node) and a.id not in done]
        if pend:
            stack.extend(pend)
            continue
        if x.op == "v":
            r = env.get(x.args[0], x)
        else:
            args = [done[a.id] if isinstance(a, Node) else a for a in x.args]
            r = x if all(p is q for p, q in zip(args, x.args)) else mk(x.op, *args)
        done[x.id] = r
        stack.pop()
    return done[n.id]


def free_vars(n):
    """Names of the variables the value of n can depend on (after normalisation)."""
    out, seen = set(), set()
    stack = [n.n if isinstance(n, Sym) else n]
    while stack:
        x = stack.pop()
        atoms = set()
        frac_atoms(lower(x), atoms)
        for a in atoms:
            at = ATOMS[a]
            if at.id in seen:
                continue
            seen.add(at.id)
            if at.kind == "v":
                out.add(at.data)
            elif at.kind in ("ln", "lnprime"):
                if at.kind == "ln":
                    for m in FACTORS[at.data]:
                        for b, _ in m:
                            stack.append(ATOMS[b].node)
            else:
                stack.extend(y for y in at.node.args if isinstance(y, Node))
    return out
