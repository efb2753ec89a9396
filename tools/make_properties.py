"""Writes properties.jsonl (kept as a script so the statements are easy to review)."""
import json, pathlib

M, D = "conjugate/models.py", "conjugate/distributions.py"
P, S = "conjugate/plot.py", "conjugate/slice.py"
BG, CG = "conjugate/_beta_geometric.py", "conjugate/_compound_gamma.py"


def prop(id, title, statement, over, text, why, files, mech, observe, state=()):
    return {
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
            "mechanism": [{"name": a, "where": b} for a, b in mech],
            "observe_at": observe,
            "hook_needed": None,
        },
    }


ROWS = [
 prop("C01", "Discrete-data posteriors obey Bayes' rule exactly",
  "For every valid prior and every valid data summary, the posterior returned by each discrete-data model (Bernoulli, binomial, negative binomial, geometric with either start convention, hypergeometric, categorical, multinomial, Poisson) is of the documented family and is proportional, as a function of the unknown parameter, to the prior density times the likelihood of those data. This holds for every count, every total and every prior parameter value, however small or large.",
  ["inputs"], "all prior parameters > 0, all admissible counts/totals (n >= 0, 0 <= x <= n ...), all points of the parameter space",
  "Tests evaluate one or two concrete (prior, data) pairs per model and mostly assert only the returned type; Bayes' rule quantifies over all priors, all data and all parameter values.",
  [M, D], [("posterior update functions", M)],
  ["binomial_beta, bernoulli_beta, negative_binomial_beta, geometric_beta, hypergeometric_beta_binomial, categorical_dirichlet, multinomial_dirichlet, poisson_gamma: parameters of the returned distribution"]),
 prop("C02", "Continuous-data posteriors obey Bayes' rule exactly",
  "For every valid prior and every valid data summary, the posterior returned by each univariate continuous-data model (exponential, gamma with known shape, inverse gamma, Pareto, uniform, Weibull, normal with known variance, precision or mean, normal with both unknown, log-normal) is of the documented family and is proportional, as a function of the unknown parameters, to the prior density times the likelihood of those data. Models that accept more than one prior family obey it for each of them.",
  ["inputs"], "all prior parameters in their domain, all admissible sufficient statistics, all points of the parameter space",
  "Tests check mostly isinstance of the result, or two fixed datasets; a wrong coefficient, sign or missing term survives them.",
  [M, D], [("posterior update functions", M), ("ScaledInverseChiSquared conversion", D)],
  ["exponential_gamma, gamma_known_shape, inverse_gamma_known_rate, pareto_gamma, uniform_pareto, weibull_inverse_gamma_known_shape, normal_known_variance, normal_known_precision, normal_known_mean, normal, log_normal: returned parameters"]),
 prop("C03", "Unnormalised posteriors (gamma, beta, von Mises) obey Bayes' rule",
  "For the models whose posterior is only known up to a constant (gamma likelihood, gamma with known rate, beta likelihood, von Mises with known concentration or direction), the log likelihood the posterior object evaluates minus the one the prior object evaluates equals the log likelihood of the observed data up to a constant, at every parameter value and for every dataset.",
  ["inputs"], "all prior hyperparameters, all raw datasets of up to 3 observations and all sufficient statistics, all evaluation points",
  "Tests only assert the returned type; the evaluated log likelihood methods are never called by any test.",
  [M, D], [("gamma, gamma_known_rate, beta, von_mises_known_concentration, von_mises_known_direction", M), ("approx_log_likelihood / log_likelihood", D)],
  ["approx_log_likelihood() and log_likelihood() of the returned objects"]),
 prop("C04", "Multivariate normal and linear regression posteriors obey Bayes' rule",
  "For every valid prior and dataset, the posteriors of linear regression and of the multivariate normal models (known covariance, known precision, known mean, both unknown) are of the documented family and proportional to prior density times likelihood as a function of the unknown coefficients, mean and covariance.",
  ["inputs"], "all symmetric positive definite prior matrices, all design/data matrices within the stated dimensions, all targets",
  "Tests use identity or diagonal matrices and zero data (which hide transposes, missing cross terms and wrong weights) and assert types or one simulated credible interval.",
  [M], [("linear_regression", M), ("_multivariate_normal_known_precision", M), ("multivariate_normal*", M)],
  ["parameters of the returned NormalInverseGamma, MultivariateNormal, InverseWishart, NormalInverseWishart"]),
 prop("C05", "Discrete predictive distributions are the exact marginals",
  "For every parameter distribution and every outcome, the predictive distribution of each discrete-data model assigns the probability obtained by averaging the likelihood over that parameter distribution, as evaluated by the returned object's own probability mass function. Where a number of trials or an exposure is given, it is the distribution of the total over that many trials or that exposure with one shared unknown parameter.",
  ["inputs"], "all parameter values of the given distribution, all trial counts/exposures, all outcomes",
  "Tests assert only the type (or the passed-through parameters) of the predictive object for one input.",
  [M, D, BG], [("*_predictive functions", M), ("dist properties", D), ("beta_geometric", BG)],
  ["binomial_beta_predictive, bernoulli_beta_predictive, negative_binomial_beta_predictive, geometric_beta_predictive, categorical_dirichlet_predictive, multinomial_dirichlet_predictive, poisson_gamma_predictive: .dist.pmf"]),
 prop("C06", "Continuous predictive distributions are the exact marginals",
  "For every parameter distribution and every outcome, the predictive density of each univariate continuous-data model (exponential, gamma with known shape, normal with known variance, precision or mean, normal with both unknown) equals the likelihood averaged over that parameter distribution, as evaluated by the returned object's own density.",
  ["inputs"], "all parameter values of the given distribution, all known likelihood parameters, all outcomes",
  "Tests assert only the type of the predictive object, or that one posterior predictive scores higher than one prior predictive.",
  [M, D, CG], [("*_predictive functions", M), ("dist properties", D), ("compound_gamma", CG)],
  ["exponential_gamma_predictive, gamma_known_shape_predictive, normal_known_variance_predictive, normal_known_precision_predictive, normal_known_mean_predictive, normal_predictive: .dist.pdf"]),
 prop("C07", "Multivariate predictive distributions are the exact marginals",
  "For every parameter distribution, the predictive distribution of linear regression at any new design matrix and of the multivariate normal models (known covariance, known precision, both unknown) equals the likelihood averaged over that parameter distribution: same location, same scale matrix, same degrees of freedom.",
  ["inputs"], "all symmetric positive definite matrices, all new design matrices within the stated dimensions",
  "Tests use identity matrices and assert only the returned type.",
  [M, D], [("linear_regression_predictive, multivariate_normal*_predictive", M), ("MultivariateStudentT.dist, MultivariateNormal.dist", D)],
  ["mu, sigma/cov, nu and .dist of the returned objects"]),
 prop("C08", "Updating batch by batch equals updating once, in any order",
  "Using the posterior of one batch as the prior for the next gives the same posterior as one update with all the data, however the data are split and in whatever order the batches arrive; this holds for every model that returns a posterior.",
  ["inputs", "histories"], "all priors, all pairs of batches (hence by induction all histories of batches), both orders",
  "The only sequential test is an image of one simulated run; no test compares a split update with a single one.",
  [M, D], [("every posterior update function", M)],
  ["parameters of the final distribution after a history of updates"]),
 prop("C09", "An empty batch leaves the prior unchanged",
  "Updating any model with a batch that contains no observations succeeds and returns a distribution equal to the prior.",
  ["inputs", "histories"], "all priors, all values of the known likelihood parameters; n = 0 and empty sums, products and matrices",
  "No test passes an empty batch.",
  [M], [("every posterior update function", M)],
  ["parameters of the returned distribution"]),
 prop("C10", "Valid inputs never fail and always give valid distributions",
  "For every valid prior and every dataset that could have been observed, each posterior and predictive function returns without error a distribution whose parameters lie in their domain: shapes, rates, scales and degrees of freedom positive, probabilities in (0, 1), scale matrices symmetric and positive definite, counts preserved.",
  ["inputs"], "all valid priors, all realisable datasets (raw observations symbolic), all known likelihood parameters",
  "Tests sample a handful of well-conditioned inputs; domain errors show at boundary datasets (constant data, zero successes, collinear rows).",
  [M], [("every posterior and predictive function", M)],
  ["parameters of the returned distributions"]),
 prop("C11", "The scipy object realises the documented parameterisation",
  "For every distribution class and every valid parameter value, the density or mass, support and location of the object behind the dist attribute are those of the distribution the class documents (rate parameters are rates, scale parameters are scales, log-scale parameters are on the log scale, bounds are bounds).",
  ["inputs"], "all parameter values in the domain of each class, all evaluation points inside and outside the support",
  "Tests construct each class once with default-like parameters (1, 0) for which wrong parameterisations coincide with the right one, and only check that a plot is produced.",
  [D, BG, CG], [("dist property of every class", D)],
  ["dist.pdf / dist.pmf / dist.logpdf / support"]),
 prop("C12", "Vectorised inputs give the elementwise scalar results",
  "Giving arrays for any prior parameters and any data summaries, in any shapes that broadcast together, yields in every position the posterior or predictive parameters that the scalar call with the corresponding elements yields, with the broadcast shape.",
  ["inputs", "configurations"], "all array values, every combination of scalar / 1-d / 2-d broadcastable shapes within the stated sizes",
  "Tests check one model with a few fixed arrays and only that the result can be plotted.",
  [M, D], [("elementwise arithmetic in every model function", M)],
  ["parameters of the returned distributions, elementwise"]),
 prop("C13", "Anything that works like a number gives the right result",
  "The parameter computations need only arithmetic operators of their inputs: any objects that implement arithmetic like numbers (including SQL expressions) are accepted, and the resulting expression, evaluated for any values of its columns, equals the result computed directly from those values.",
  ["inputs", "configurations"], "every model usable with scalar inputs, all column values, every mix of plain numbers and number-like objects in the arguments",
  "Tests try two symbolic types on one helper function and compare strings.",
  [M, "conjugate/_typing.py"], [("NUMERIC protocol", "conjugate/_typing.py"), ("arithmetic of every model function", M)],
  ["rendered SQL of the posterior / predictive parameters; absence of TypeError/AttributeError"]),
 prop("C14", "Caller-supplied numeric functions are the ones used",
  "Wherever a function or method accepts a replacement for a numeric routine (matrix inverse, identity, outer product, maximum, logarithm, sine, cosine, arctangent, log-gamma, Bessel function), the result is computed with the supplied routine throughout and never with the built-in one.",
  ["inputs", "configurations"], "all inputs, an arbitrary (uninterpreted) function in place of each routine",
  "No test supplies a replacement routine.",
  [M, D], [("inv, eye, outer, max_fn, ln, sin, cos, arctan2 parameters", M), ("ln, gammaln, cos, i0, inv parameters", D)],
  ["result of the call as a function of the supplied routines"]),
 prop("C15", "Indexing a distribution selects the matching parameters",
  "Indexing a distribution with an integer (of any integer type), slice, index list or boolean mask gives a distribution of the same class whose array-valued parameters are exactly those parameters indexed with the same key and whose scalar parameters are unchanged; the original is not altered. Indexing a multivariate normal or Student-t gives the exact marginal distribution of the selected coordinates.",
  ["inputs", "configurations"], "all parameter values, every in-range key of each kind within the stated sizes, every class that supports indexing",
  "Tests index with 0 and :2 on two classes, and use unit variances for which wrong marginals coincide with right ones.",
  [S, D], [("SliceMixin.__getitem__", S), ("MultivariateNormal.__getitem__, MultivariateStudentT.__getitem__", D)],
  ["parameters of the indexed distribution"]),
 prop("C16", "Scaling and adding distributions is exact for sums of independents",
  "Multiplying an Exponential, Gamma, Negative binomial, Poisson or Normal distribution by a positive number k, on either side, gives the distribution of the sum of k independent copies (so scaling by j then k equals scaling by j*k, and scaling by 1 changes nothing), and adding Poisson distributions gives the distribution of the sum of independents.",
  ["inputs"], "all parameter values, all positive factors, all evaluation points of the characteristic function",
  "Tests multiply four unit distributions by 2 and one by 4.",
  [D], [("__mul__, __rmul__, __add__, __radd__", D)],
  ["parameters and .dist of the result"]),
 prop("C17", "Alternative constructors and conversions agree with their meaning",
  "Every alternative constructor and conversion yields the distribution its arguments describe: the stated mean, variance, precision, success/failure counts or occurrence rate is the one the result has, and converting between inverse gamma and scaled inverse chi squared (in either direction and back) leaves the distribution unchanged.",
  ["inputs"], "all argument values in the documented domain",
  "Tests check unit parameters and a 3-decimal rounding of three means.",
  [D], [("from_* and uninformative constructors, to_inverse_gamma, inverse_gamma, gamma, wishart, inverse_wishart", D)],
  ["parameters of the constructed distribution"]),
 prop("C18", "Equivalent formulations of a model give the same answer",
  "Two ways the library offers to state the same model agree on every input: variance versus precision, covariance versus precision matrix, normal-gamma versus normal-inverse-gamma prior, inverse gamma versus scaled inverse chi squared prior, Bernoulli versus one-trial binomial, categorical versus multinomial, one-start versus zero-start geometric, log-normal versus normal on logs, deprecated versus current names, and one-dimensional multivariate or regression models versus their scalar counterparts.",
  ["inputs", "configurations"], "all priors and data of the paired formulations",
  "Tests never compare two formulations of one model.",
  [M, D], [("wrappers and alternative priors", M)],
  ["parameters of both results"]),
 prop("C19", "A wrong prior or distribution type is rejected, a right one accepted",
  "Every model function given, as its prior or distribution, an object of any library distribution class (or any other type, or nothing) that it does not document raises ValueError naming the expected and received types, and accepts every class it documents.",
  ["inputs", "configurations"], "every model function times every distribution class, plus missing and foreign arguments",
  "Tests try one wrong class on two functions, never a function documented for two classes.",
  [M], [("validate_type decorators", M)],
  ["exception type and message, or a returned distribution"]),
 prop("C20", "Model calls never modify inputs and depend only on their arguments",
  "No model function or distribution method changes the prior, the distribution or the data passed to it, and a call returns the same result whatever calls came before it.",
  ["inputs", "histories"], "all inputs, every model function, histories of two or three calls on shared and distinct arguments",
  "Tests never re-examine the arguments after a call nor repeat a call.",
  [M, D, S, P], [("construction of fresh results in every model function", M), ("SliceMixin.__getitem__", S)],
  ["arguments before and after a call; results of repeated calls"]),
 prop("C21", "Joint mean/variance samplers draw from the stated hierarchy",
  "Sampling from the normal-inverse-gamma, normal-gamma, normal-Wishart and normal-inverse-Wishart distributions draws the data variance from its stated marginal and, given that variance, the mean from its stated conditional normal distribution, returns the pair it used, and uses separate randomness for every draw whatever kind of random state (none, seed or generator) is given.",
  ["inputs", "configurations"], "all parameter values, all underlying noise values, sample sizes up to the stated bound, every kind of random state",
  "Tests check only the shape of the returned samples.",
  [D], [("sample_variance, sample_mean, sample_beta", D)],
  ["returned samples as a function of the underlying noise"]),
 prop("C22", "Compound distributions are the exact mixtures they document",
  "The beta-geometric mass function, in both start conventions, and the compound gamma density equal the stated mixtures at every point, vanish outside the support and account for all probability; their random samples are drawn from the same mixtures, one independent parameter draw per sample, with the requested shape.",
  ["inputs", "configurations"], "all parameter values, all evaluation points, all noise values, sample shapes within the bound",
  "Tests compare the two conventions only with each other (so a common shift is invisible) and check sample shapes.",
  [BG, CG, D], [("beta_geometric_pmf, beta_geometric.rvs", BG), ("compound_gamma_pdf, compound_gamma.rvs", CG)],
  ["pmf / pdf / rvs of .dist"]),
 prop("C23", "Plots show the distribution itself over the requested bounds",
  "plot_pdf, plot_pmf and plot_cdf draw, for every parameter element, one curve whose points are exactly (x, value of the distribution at x) on the evenly spaced grid (continuous) or every integer (discrete) from the lower to the upper bound, whichever bounds were last set; a conditional plot divides each curve by its own total over the bounds. Plotting before an upper bound is known raises ValueError.",
  ["inputs", "configurations", "histories"], "all bounds, all parameter values, every sequence of bound setters, scalar and vector parameters",
  "Image tests pin about twenty fixed figures; they cannot relate the drawn values to the distribution for other inputs.",
  [P, D], [("PlotDistMixin, ContinuousPlotDistMixin, DiscretePlotMixin", P)],
  ["data handed to the axes"]),
 prop("C24", "Curve labels and colours go to the matching curve",
  "For a vectorised distribution every curve gets its own label: a string is numbered 1..k, a callable is called with 0..k-1, an iterable is used in order, none gives no labels; for a single curve the given label is used as is, and line options given by the caller reach the drawn curves unchanged.",
  ["inputs", "configurations"], "every kind of label argument, every number of curves within the bound, every plotting method",
  "One parametrised test covers resolve_label on six fixed values; the path from plot methods to axes is only seen in images.",
  [P], [("label_to_iterable, resolve_label, _create_plot_on_axis", P)],
  ["label and options handed to the axes"]),
]

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(r, ensure_ascii=False) + "\n" for r in ROWS))
print(len(ROWS), "properties")
