"""C02: continuous-data posteriors obey Bayes' rule."""
from vlib.harness import Case
from vlib.modelspec import CONTINUOUS, bayes_case
from vlib.vectors import bayes_vector_cases

BOUNDS = "all real prior parameters, known parameters and data summaries that some dataset of n >= 1 observations can have; n unbounded; numbers, whole numbers and arrays: of 2 and 11 elements, of the prior alone, of the data alone, columns against rows, integer arrays"
CASES = [Case(m.name, bayes_case(m)) for m in CONTINUOUS]


def exp_helper(B):
    a, b, x, n = B.real("a", "pos"), B.real("b", "pos"), B.real("x_total", "pos"), B.int("n", 0)
    r = B.call(B.M.get_exponential_gamma_posterior_params, alpha=a, beta=b, x_total=x, n=n)
    B.eq(r[0], a + n, "alpha")
    B.eq(r[1], b + x, "beta")


CASES.append(Case("get_exponential_gamma_posterior_params", exp_helper))
CASES += bayes_vector_cases(CONTINUOUS, Case)
CASES += [Case("integers: " + m.name, bayes_case(m, True)) for m in CONTINUOUS]
