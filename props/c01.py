"""C01: discrete-data posteriors obey Bayes' rule."""
from vlib.harness import Case, Stop
from vlib.modelspec import DISCRETE, DirichletModel, bayes_case
from vlib.vectors import bayes_vector_cases
from vlib.spec import d_betabinom, d_hypergeom

BOUNDS = ("all real prior parameters and all integer data summaries (unbounded); Dirichlet vectors of length 2, 3, 5, 12 (thorough also 8, 30) "
          "given as arrays, lists or one of each; the scalar models also with arrays: of 2 and 11 elements, of the prior alone, of the data alone, columns against rows, whole numbers; hypergeometric posterior over every population size and every count of marked items")



def hypergeometric(B):
    """prior K ~ BetaBinomial(N, a, b); x | K ~ Hypergeometric(N, K, n).
    posterior of K is proportional to prior * likelihood on x <= K <= N - (n - x)."""
    N = B.int("N", 1)
    n = B.int("n", 1, N)
    x = B.int("x", 0, n)
    a, b = B.real("a", "pos"), B.real("b", "pos")
    prior = B.D.BetaBinomial(n=N, alpha=a, beta=b)
    post = B.call(B.M.hypergeometric_beta_binomial, x_total=x, n=n, prior=prior)
    B.is_type(post, "BetaBinomial")
    B.eq(post.n, N, "population size is kept")
    # K - x | data ~ BetaBinomial(N - n, a + x, b + n - x); the library encodes it by its two shapes
    B.eq(post.alpha, a + x, "alpha")
    B.eq(post.beta, b + n - x, "beta", known="hypergeometric-n", alt=b + N - x)


def hyper_identity(B):
    """The specification used above: prior * likelihood is BetaBinomial(N-n, a+x, b+n-x) in K - x."""
    N = B.int("N", 1)
    n = B.int("n", 1, N)
    x = B.int("x", 0, n)
    a, b = B.real("a", "pos"), B.real("b", "pos")

    def side(K):
        return (d_betabinom(B, K, N, a, b) + d_hypergeom(B, x, N, K, n),
                d_betabinom(B, K - x, N - n, a + x, b + n - x))

    K1, K2 = B.int("K1", x, N - n + x), B.int("K2", x, N - n + x)
    p1, q1 = side(K1)
    p2, q2 = side(K2)
    B.eq(p1 - p2, q1 - q2, "reference hypergeometric posterior")


def helper(fn, names, expect):
    def case(B):
        a, b = B.real("a", "pos"), B.real("b", "pos")
        n = B.int("n", 1)
        x = B.int("x", 0, n)
        f = getattr(B.M, fn)
        r = B.call(f, **dict(zip(names, (a, b, n, x))))
        B.true(isinstance(r, tuple) and len(r) == 2, "a pair is returned")
        e = expect(a, b, n, x)
        B.eq(r[0], e[0], "alpha")
        B.eq(r[1], e[1], "beta")
    return case


CASES = [Case(m.name, bayes_case(m)) for m in DISCRETE]
for f in ("categorical_dirichlet", "multinomial_dirichlet"):
    for k, kind in ((2, "array"), (5, "array"), (12, "array"), (12, "list"), (30, "array"), (101, "array"), (101, "list-data"), (3, "list"), (3, "list-prior"), (3, "list-data")):
        CASES.append(Case(f"{f}[k={k},{kind}]", bayes_case(DirichletModel(f, k, kind))))
    CASES.append(Case(f"{f}[k=8]", bayes_case(DirichletModel(f, 8)), tier="thorough"))
    CASES.append(Case(f"{f}[k=30]", bayes_case(DirichletModel(f, 30)), tier="thorough"))
CASES += [
    Case("hypergeometric_beta_binomial", hypergeometric),
    Case("hypergeometric reference", hyper_identity, validate=False),
    Case("get_binomial_beta_posterior_params", helper("get_binomial_beta_posterior_params", ("alpha_prior", "beta_prior", "n", "x"), lambda a, b, n, x: (a + x, b + n - x))),
    Case("get_poisson_gamma_posterior_params", helper("get_poisson_gamma_posterior_params", ("alpha", "beta", "n", "x_total"), lambda a, b, n, x: (a + x, b + n))),
]

CASES += bayes_vector_cases(DISCRETE, Case)
CASES += [Case("integers: " + m.name, bayes_case(m, True)) for m in DISCRETE]
