"""Reference densities written from the documentation, generic over the backend B.

Kernels (k_*) are log densities up to a constant in the variable; log densities (d_*)
carry their normalising constants.
"""


def lbeta(B, a, b):
    return B.lgamma(a) + B.lgamma(b) - B.lgamma(a + b)


def lcomb(B, n, k):
    return B.lgamma(n + 1) - B.lgamma(k + 1) - B.lgamma(n - k + 1)


# ---- univariate, continuous
def d_beta(B, p, a, b):
    return (a - 1) * B.ln(p) + (b - 1) * B.ln(1 - p) - lbeta(B, a, b)


def d_gamma(B, x, shape, rate):
    return shape * B.ln(rate) + (shape - 1) * B.ln(x) - rate * x - B.lgamma(shape)


def d_invgamma(B, x, shape, scale):
    return shape * B.ln(scale) - (shape + 1) * B.ln(x) - scale / x - B.lgamma(shape)


def d_normal(B, x, mu, var):
    return -((x - mu) ** 2) / (2 * var) - B.ln(2 * B.pi * var) / 2


def d_exponential(B, x, rate):
    return B.ln(rate) - rate * x


def d_pareto(B, x, x_m, alpha):
    return B.ln(alpha) + alpha * B.ln(x_m) - (alpha + 1) * B.ln(x)


def d_student(B, x, mu, s2, nu):
    """location mu, squared scale s2."""
    return (B.lgamma((nu + 1) / 2) - B.lgamma(nu / 2) - B.ln(nu * B.pi * s2) / 2
            - (nu + 1) / 2 * B.ln(1 + (x - mu) ** 2 / (nu * s2)))


def d_lomax(B, x, shape, scale):
    return B.ln(shape) + shape * B.ln(scale) - (shape + 1) * B.ln(x + scale)


def d_sichi2(B, x, nu, s2):
    return d_invgamma(B, x, nu / 2, nu * s2 / 2)


def d_compound_gamma(B, x, a, b, q):
    """beta prime with scale q: Gamma(a, rate) mixed over rate ~ Gamma(b, rate q)."""
    return (a - 1) * B.ln(x / q) - (a + b) * B.ln(1 + x / q) - B.ln(q) - lbeta(B, a, b)


# ---- discrete
def d_binomial(B, k, n, p):
    return lcomb(B, n, k) + k * B.ln(p) + (n - k) * B.ln(1 - p)


def d_negbin(B, k, r, p):
    """k failures before the r-th success."""
    return B.lgamma(k + r) - B.lgamma(k + 1) - B.lgamma(r) + r * B.ln(p) + k * B.ln(1 - p)


def d_poisson(B, k, lam):
    return k * B.ln(lam) - lam - B.lgamma(k + 1)


def d_geometric(B, k, p, one_start):
    return B.ln(p) + (k - 1 if one_start else k) * B.ln(1 - p)


def d_betabinom(B, k, n, a, b):
    return lcomb(B, n, k) + lbeta(B, a + k, b + n - k) - lbeta(B, a, b)


def d_hypergeom(B, x, N, K, n):
    return lcomb(B, K, x) + lcomb(B, N - K, n - x) - lcomb(B, N, n)


def d_dirichlet(B, ps, alphas):
    s = B.lgamma(sum(alphas[1:], alphas[0]))
    for p, a in zip(ps, alphas):
        s = s - B.lgamma(a) + (a - 1) * B.ln(p)
    return s


def d_multinomial(B, xs, n, ps):
    s = B.lgamma(n + 1)
    for x, p in zip(xs, ps):
        s = s + x * B.ln(p) - B.lgamma(x + 1)
    return s


# ---- kernels of the prior / posterior families by class name; theta is a dict or scalar
def kernel(B, d, th):
    """Log density of distribution object d at theta up to a constant in theta."""
    c = type(d).__name__
    if c == "Beta":
        return (d.alpha - 1) * B.ln(th) + (d.beta - 1) * B.ln(1 - th)
    if c == "Gamma":
        return (d.alpha - 1) * B.ln(th) - d.beta * th
    if c == "InverseGamma":
        return -(d.alpha + 1) * B.ln(th) - d.beta / th
    if c == "ScaledInverseChiSquared":
        return -(d.nu / 2 + 1) * B.ln(th) - d.nu * d.sigma2 / (2 * th)
    if c == "Normal":
        return -((th - d.mu) ** 2) / (2 * d.sigma**2)
    if c == "Dirichlet":
        return sum(((d.alpha[i] - 1) * B.ln(th[i]) for i in range(1, len(th))), (d.alpha[0] - 1) * B.ln(th[0]))
    if c == "NormalInverseGamma":
        m, v = th
        return -(d.alpha + 1) * B.ln(v) - d.beta / v - B.ln(v) / 2 - d.nu * (m - d.mu) ** 2 / (2 * v)
    if c == "NormalGamma":
        m, v = th          # v is the variance, precision is 1/v (density of the precision)
        t = 1 / v
        return (d.alpha - 1) * B.ln(t) - d.beta * t + B.ln(t) / 2 - d.lam * t * (m - d.mu) ** 2 / 2
    if c == "Pareto":
        return -(d.alpha + 1) * B.ln(th)
    raise KeyError(c)
