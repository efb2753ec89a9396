"""C03: unnormalised posteriors obey Bayes' rule."""
from vlib.harness import Case
from vlib.modelspec import PROPORTIONAL, bayes_case
from vlib.vectors import bayes_vector_cases

BOUNDS = "all real prior parameters, parameter values and data summaries, n >= 1 unbounded; numbers, whole numbers and arrays: of 2 and 11 elements, of the prior alone, of the data alone, columns against rows, integer arrays"
ASSUMPTIONS = ["cos(arctan2(y, x)) = x / sqrt(x^2 + y^2) away from x = y = 0"]
CASES = [Case(m.name, bayes_case(m)) for m in PROPORTIONAL]
CASES += bayes_vector_cases(PROPORTIONAL, Case)
CASES += [Case("integers: " + m.name, bayes_case(m, True)) for m in PROPORTIONAL]
