"""Evaluating the density a distribution object gives, through its own dist attribute."""
from __future__ import annotations


def _ln(B, v):
    import numpy as np
    return B.ln(v) if np.ndim(v) == 0 else B.arr([_ln(B, w) for w in v])


def logmass(B, dist, x):
    """ln of the mass function the scipy object gives at x."""
    if hasattr(dist, "logpmf"):
        return B.call(dist.logpmf, x)
    return _ln(B, B.call(dist.pmf, x))


def logdens(B, dist, x):
    if hasattr(dist, "logpdf"):
        return B.call(dist.logpdf, x)
    return _ln(B, B.call(dist.pdf, x))


def mass(B, dist, x):
    return B.call(dist.pmf, x)


def dens(B, dist, x):
    return B.call(dist.pdf, x)


def scalar(v):
    """0-d or one-element results of scipy."""
    import numpy as np
    if isinstance(v, np.ndarray) and v.shape == ():
        return v[()]
    return v


def check_log(B, dist, x, expect, label, discrete):
    """The object's log density / mass at x (scalar) is expect, by every accessor it has."""
    if hasattr(B, "_logs"):
        return B.check_log(dist, x, expect, label, discrete)
    lf, f = ("logpmf", "pmf") if discrete else ("logpdf", "pdf")
    seen = False
    if hasattr(dist, lf):
        B.eq(scalar(B.call(getattr(dist, lf), x)), expect, f"{label}: {lf}")
        seen = True
    if hasattr(dist, f):
        B.eq(_ln(B, scalar(B.call(getattr(dist, f), x))), expect, f"{label}: {f}")
        seen = True
    B.true(seen, f"{label}: the object has a {f}")
