"""writes /verif/properties.jsonl"""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mech, observe=(), state=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=["src/glum/" + f for f in files], state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=None)))


I, C, H = "inputs", "configurations", "histories"

p("P01", "Link functions and their inverses and derivatives are mutually consistent",
  "For every built-in link, applying the link to the inverse link (and the reverse) gives back the argument, and the reported first and second derivatives are the derivatives of the functions they belong to. The inverse link always lands in the range the link accepts: a fitted mean is positive for log-type links and strictly between 0 and 1 for logit and complementary log-log, for arbitrarily extreme linear predictors.",
  [I, C], "every built-in link and every power of the power link, every real linear predictor and every mean in the link's range",
  "tests evaluate a few points per link; the identities and the range have to hold for every real argument and every power",
  ["_link.py"], [("link / inverse / derivatives", "src/glum/_link.py")], ["TweedieLink", "LogLink", "LogitLink", "CloglogLink", "IdentityLink"])
p("P02", "Deviance is the family's loss: non-negative, zero at a perfect fit, right slope",
  "For every family the deviance of an observation is non-negative and is zero when the mean equals the observation (for 0/1 observations in the binomial case). Its derivative with respect to the mean is minus two times the residual over the variance function, and the deviance of a data set is the weighted sum of the observations' deviances, with every weight counted once, for all admissible observations including boundary values such as zero.",
  [I, C], "every family and power parameter, all admissible observations and means, all non-negative weights, all data-set lengths",
  "tests compare a handful of observations with reference values; sign, zero and slope are universally quantified and the boundary cases (zero counts, power ranges) select different code paths",
  ["_distribution.py", "_functions.pyx"], [("unit deviance", "src/glum/_distribution.py"), ("compiled deviance loops", "src/glum/_functions.pyx")],
  ["ExponentialDispersionModel.deviance", "unit_deviance"])
p("P03", "Variance functions match the families and are consistent with their derivatives",
  "The variance function of each family is the documented function of the mean, is positive on the family's range of means, and the reported derivative is its derivative. The variance of an observation is the dispersion times the variance function divided by the weight.",
  [I, C], "every family and power parameter, every mean in range, every positive weight and dispersion",
  "tests check a few values of the mean per family", ["_distribution.py"], [("unit variance and its derivative", "src/glum/_distribution.py")],
  ["unit_variance", "unit_variance_derivative", "variance", "variance_derivative"])
p("P04", "Per-row score and curvature used in fitting are those of the deviance",
  "For every family and link, the per-observation gradient handed to the optimiser is minus half the derivative of that observation's weighted deviance with respect to its linear predictor. The per-observation curvature is non-negative, is proportional to the observation's weight, and equals the exact second derivative or its expectation (Fisher information), so that a zero gradient really is a stationary point of the deviance.",
  [I, C], "every family, power and link with its specialised or generic implementation, all observations, weights, linear predictors",
  "tests compare with numerical derivatives on one random data set; the specialised compiled kernels are separate code for each family/link pair, with special cases for zeros and powers",
  ["_distribution.py", "_functions.pyx"], [("rowwise_gradient_hessian kernels", "src/glum/_functions.pyx"), ("generic fallback", "src/glum/_distribution.py")],
  ["ExponentialDispersionModel.rowwise_gradient_hessian"])
p("P05", "Taking a step updates predictor, mean and deviance consistently",
  "Moving by a step along a direction sets each linear predictor to its old value plus the step length times the direction's value for that row, sets each mean to the inverse link of the new predictor, and returns the deviance of these means (up to a term that does not depend on the means). This holds for every family/link pair whether a specialised or the generic implementation is used, the two agree, and the previous state is left untouched unless in-place output was requested.",
  [I, C], "every family/link pair, all data lengths, all step lengths and directions",
  "each family/link pair has its own compiled loop; tests run one data set for some of them and would not notice a mean that drifts away from its predictor",
  ["_distribution.py", "_functions.pyx"], [("eta_mu_deviance", "src/glum/_distribution.py"), ("*_eta_mu_deviance kernels", "src/glum/_functions.pyx")], ["eta_mu_deviance"])
p("P06", "Log-likelihood is the density's logarithm and agrees with the deviance",
  "For every family with a closed-form density the reported log-likelihood is the weighted sum of the logarithms of the documented densities, with the dispersion entering as documented and estimated only when not given. For fixed dispersion, differences in log-likelihood between two fits of the same data are minus half the difference in deviance divided by the dispersion. Families whose density cannot be evaluated raise an error instead of reporting a number.",
  [I, C], "all closed-form families, all admissible data, means, weights and dispersions",
  "tests compare a few values with scipy; the agreement with the deviance is a relation over all pairs of fits", ["_distribution.py", "_functions.pyx"],
  [("log_likelihood", "src/glum/_distribution.py"), ("log-likelihood loops", "src/glum/_functions.pyx")], ["log_likelihood"])
p("P07", "Dispersion estimates follow the documented estimators",
  "The estimated dispersion is the weighted Pearson statistic (squared residual over variance function) or the deviance, divided by the residual degrees of freedom: the number of observations, or for frequency weights the total weight, minus the number of parameters. It is never negative, the Pearson estimator with one parameter is the default, and unknown estimators are rejected.",
  [I, C], "all families, data, weights, parameter counts and both estimators",
  "tests use a few data sets; normalisation by weights is invisible when weights are all one", ["_distribution.py"], [("dispersion", "src/glum/_distribution.py")], ["dispersion"])
p("P08", "The optimiser minimises exactly the documented penalised objective",
  "The objective tracked during fitting is half the weighted mean deviance plus the elastic-net penalty: the L1 part sums the penalty weights times absolute coefficients and the L2 part is half the quadratic form of the penalty matrix, and the intercept is never penalised. The gradient handed to each solver is the gradient of the smooth part of that objective.",
  [I, C], "all designs, coefficients, penalties (vector or matrix), with and without intercept and offset",
  "tests check the end result on a few data sets, where an error in the objective of the line search or in one gradient component is masked by convergence tolerances",
  ["_solvers.py", "_glm.py"], [("objective and gradient assembly", "src/glum/_solvers.py")], ["eta_mu_objective", "update_quadratic", "GeneralizedLinearRegressorBase._solve"])
p("P09", "Curvature matrices equal the weighted Gram matrix plus penalty",
  "The curvature matrix used in each iteration equals the design's weighted Gram matrix (with the intercept as a column of ones) plus the L2 penalty matrix, restricted to the active coefficients. When rows with little change are skipped, the matrix held equals the full one computed from the row curvatures that were actually applied, and a row is skipped only within the documented tolerance.",
  [I, H], "all designs, row curvatures, active sets, penalties and sequences of incremental updates",
  "the incremental update keeps a running matrix over many iterations; tests only see the converged coefficients", ["_solvers.py", "_cd_fast.pyx"],
  [("build_hessian_delta / update_hessian", "src/glum/_solvers.py"), ("identify_active_rows", "src/glum/_cd_fast.pyx")], ["update_hessian", "build_hessian_delta", "identify_active_rows"],
  [("hessian", "running curvature matrix", "IRLSState"), ("old_hessian_rows", "row curvatures already applied", "IRLSState")])
p("P10", "Coordinate descent exactly minimises each one-dimensional subproblem in bounds",
  "Each coordinate update of the quadratic subproblem moves the coefficient to the exact minimiser of the L1-penalised quadratic in that coordinate, subject to its bounds, so the subproblem objective never increases and coefficients never leave their bounds. The maintained gradient always equals the one recomputed from scratch, coefficients outside the active set never move, and only the direction and gradient are written.",
  [I, H], "all curvature matrices, gradients, penalties, bounds, active sets, orders of visiting and numbers of sweeps",
  "the loop is compiled, index-heavy code with bound checks switched off; tests see only converged results", ["_cd_fast.pyx"],
  [("enet_coordinate_descent_gram", "src/glum/_cd_fast.pyx")], ["enet_coordinate_descent_gram"])
p("P11", "Convergence is declared from the true optimality residual",
  "The residual used to stop the solver is, for every coefficient, the smallest element of the penalised objective's subgradient (taking bounds into account): it is zero exactly when the coefficient satisfies its optimality condition. Convergence is declared only when the requested norm of that residual is below the tolerance, and a coefficient that violates its optimality condition is never dropped from the active set.",
  [I], "all coefficients, gradients, penalties, bounds, active-set states, and convergence settings",
  "tests check that fits converge, not that a declared convergence implies optimality for every sign/bound combination", ["_cd_fast.pyx", "_solvers.py"],
  [("subgradient norm", "src/glum/_cd_fast.pyx"), ("check_convergence / identify_active_set", "src/glum/_solvers.py")], ["_norm_min_subgrad", "check_convergence", "identify_active_set"])
p("P12", "Line search accepts only sufficient decrease and reports state at the step",
  "The line search tries geometrically shrinking steps and accepts one only if the penalised objective falls by the required fraction of the predicted decrease or the gradient-based fallback criterion holds. The coefficients, predictor, mean, objective and score it returns all belong to the accepted step.",
  [I, H], "all data, directions, predicted decreases and numbers of halvings",
  "a wrong acceptance test still converges on well-behaved test problems", ["_solvers.py"], [("line_search", "src/glum/_solvers.py")], ["line_search"])
p("P13", "Direct solvers return the solution of the penalised normal equations",
  "Solver selection uses the closed form only when it is exact (Gaussian with identity link, no L1 penalty, no bounds or constraints) and coordinate descent whenever L1 penalties or bounds require it. The closed-form and least-squares solvers return coefficients satisfying the penalised weighted normal equations, with the intercept unpenalised and offsets subtracted.",
  [I, C], "all designs, weights, offsets, penalties and combinations of settings",
  "tests compare solvers on a few data sets; the selection table has many combinations that are never exercised", ["_solvers.py", "_glm.py"],
  [("closed form and least squares", "src/glum/_solvers.py"), ("solver selection", "src/glum/_glm.py")], ["_least_squares_solver", "_closed_form"])
p("P14", "Internal standardisation does not change the model that is fitted",
  "Centring and scaling the design before fitting and transforming the coefficients back yields the same linear predictor for every row, and starting values and bounds are transformed by the matching forward map, so that transforming there and back is the identity. Penalties are rescaled so that the penalised objective in transformed coefficients equals that in original coefficients when scaling is not requested by the user.",
  [I, C], "all designs, weights, coefficients, with and without intercept and scaling", "tests compare a few fits within tolerance", ["_utils.py", "_glm.py"],
  [("standardize / unstandardize", "src/glum/_utils.py"), ("standardize_warm_start", "src/glum/_utils.py")], ["standardize", "unstandardize", "standardize_warm_start"])
p("P15", "Penalty settings become the documented L1 weights and L2 matrix",
  "The L1 weights and L2 matrix used in fitting are alpha times l1_ratio and alpha times one minus l1_ratio times the user's P1 and P2 (all ones / identity by default), the L2 matrix is symmetrised, and the user's arrays are not modified. Inputs with wrong shape, negative L1 weights, or an indefinite L2 matrix are rejected.",
  [I, C], "all P1/P2 forms (string, vector, matrix, sparse), alphas, ratios and sizes", "tests cover a few small cases", ["_utils.py", "_glm.py", "_linalg.py"],
  [("setup_p1 / setup_p2", "src/glum/_glm.py"), ("is_pos_semidef", "src/glum/_linalg.py")], ["setup_p1", "setup_p2"])
p("P16", "The penalty path starts at the smallest all-zero penalty and decreases",
  "With L1 penalties the automatic alpha path starts at the smallest alpha at which the model with every slope zero satisfies the optimality conditions of all L1-penalised coefficients, and decreases geometrically to the requested fraction of it. Coefficients reported for each position of the path are those fitted with that position's alpha, warm-started from the previous one.",
  [I, C], "all designs, families, weights, offsets, ratios and path lengths", "tests check a single fit per configuration, usually without offset", ["_glm.py", "_glm_cv.py"],
  [("alpha path", "src/glum/_glm.py"), ("regularisation path loop", "src/glum/_glm.py")], ["_get_alpha_path", "_solve_regularization_path"])
p("P17", "Predictions are the inverse link of intercept plus X times coef plus offset",
  "For every row the predicted linear predictor is the intercept plus the row times the coefficients plus the row's offset, and the predicted mean is the inverse link of that. Predicting for several penalties at once gives, column by column, the single-penalty predictions.",
  [I, C], "all designs and storage formats, coefficients, offsets, penalty selections", "tests use a few data sets and mostly a single penalty without offset", ["_glm.py"],
  [("linear_predictor / predict", "src/glum/_glm.py")], ["linear_predictor", "predict"])
p("P18", "Covariance, standard errors and tests follow the documented estimators",
  "Non-robust, robust and clustered covariance matrices equal the documented sandwich formulas (inverse Fisher information; bread-meat-bread with score outer products per row or summed per cluster; small-sample correction), are symmetric with the intercept first, standard errors are the square roots of the diagonal. Wald statistics equal the quadratic form of the restricted coefficients with p-values from the chi-square distribution.",
  [I, C], "all designs, families, weights, offsets, clusterings, restrictions", "tests compare with statsmodels on a few data sets", ["_glm.py"],
  [("covariance_matrix", "src/glum/_glm.py"), ("wald_test", "src/glum/_glm.py"), ("score_matrix, fisher_information", "src/glum/_distribution.py")], ["covariance_matrix", "std_errors", "wald_test", "coef_table"])
p("P19", "Information criteria follow from log-likelihood and non-zero parameter count",
  "AIC is minus twice the log-likelihood plus twice the number of non-zero coefficients (including the intercept), AICc adds the small-sample term and BIC replaces the factor two by the logarithm of the number of observations. Each call reports the criteria of the data and model it is called for.",
  [I, H], "all fitted models, data, weights and sequences of calls", "tests check one call on one model", ["_glm.py"], [("_compute_information_criteria", "src/glum/_glm.py")], ["aic", "aicc", "bic"])
p("P20", "The score is one minus the ratio of deviance to null deviance",
  "The score equals one minus the deviance of the predictions divided by the deviance of the weighted-mean prediction, using the given weights and offset for the predictions. It is at most one, with equality exactly for zero deviance.",
  [I, C], "all families, data, weights", "tests compare single values", ["_glm.py"], [("score", "src/glum/_glm.py")], ["score"])
p("P21", "Cross-validation picks the penalty with the smallest mean out-of-fold loss",
  "The loss recorded for a fold and penalty is the weighted mean deviance of the model fitted without that fold, evaluated on that fold only, with the fold's own weights and offsets. The selected penalty and ratio minimise the mean of those losses over folds, and the final model is fitted with the selected pair on all data.",
  [I, C, H], "all data, fold assignments, penalty grids and ratios", "tests check that the selected values are plausible on a few seeds", ["_glm_cv.py"], [("fold loop and selection", "src/glum/_glm_cv.py")], ["GeneralizedLinearRegressorCV.fit"])
p("P22", "Fitted coefficients respect bounds and inequality constraints",
  "Coefficients returned by the solvers lie within the user's lower and upper bounds in the user's scale, and user bounds are never silently dropped or attached to the wrong coefficient (the intercept included). The constraint built for a monotonic factor holds exactly for coefficients ordered along that factor, within every combination of the factors it interacts with.",
  [I, C], "all bounds, designs, starting values, with and without intercept, scaling or warm start", "tests try a few bounds", ["_glm.py", "_cd_fast.pyx", "_validation.py"],
  [("check_bounds", "src/glum/_validation.py"), ("bounds in coordinate descent", "src/glum/_cd_fast.pyx")], ["check_bounds", "lower_bounds", "upper_bounds"])
p("P23", "Invalid data are rejected and valid data pass through unchanged",
  "Sample weights must be one-dimensional, of matching length, non-negative and not all zero, offsets must be of matching length, bounds must match the number of features and not be crossed, and targets must lie in the family's range; anything else raises an error. Accepted values reach the fit unchanged (scalars broadcast, missing weights become ones).",
  [I], "all weight, offset, bound and target inputs", "tests try a list of bad inputs", ["_validation.py", "_glm.py", "_distribution.py"],
  [("check_weights, check_offset, check_bounds", "src/glum/_validation.py"), ("in_y_range", "src/glum/_distribution.py")], ["check_weights", "check_offset", "check_bounds", "in_y_range"])
p("P24", "Names resolve to documented families and links; nonsense settings are rejected",
  "Every documented family and link name resolves to that family and link, the automatic link is the documented one for each family, and unknown names or out-of-range parameters raise an error. Settings outside their documented range are rejected before any fitting takes place.",
  [I, C], "all names, parameters and parameter combinations", "tests list some valid and invalid values", ["_distribution.py", "_link.py", "_utils.py", "_glm.py"],
  [("get_family / get_link", "src/glum/_distribution.py"), ("parameter validation", "src/glum/_glm.py")], ["get_family", "get_link", "_validate_hyperparameters"])
p("P25", "Per-feature settings follow their feature through categorical expansion",
  "An L1 or L2 penalty given per input column of a data frame is applied to every design column created from that input column and to no other, in order; one given per design column is used as it is. Predicting on data whose category levels are reordered, extended or missing uses the coefficients of the levels they were fitted for, and a level without coefficient is an error.",
  [I, C], "all mixtures of numeric and categorical columns and level counts", "tests use one or two frames", ["_utils.py", "_glm.py"], [("expand_categorical_penalties, align_df_categories", "src/glum/_utils.py")], ["expand_categorical_penalties", "align_df_categories"])
p("P26", "Fitting and predicting never modify the caller's data",
  "The design, target, weights, offset, penalties, bounds and starting values passed in by the user hold the same values after any call as before, when copying is requested and, for everything but the design, always.",
  [I, C], "all inputs and options", "tests check a few arrays for a few options", ["_glm.py", "_utils.py", "_solvers.py"], [("copies before in-place work", "src/glum/_glm.py")], ["fit", "predict"])
p("P27", "Rescaling all sample weights does not change the fit",
  "Multiplying every sample weight by the same positive constant leaves the fitted objective, and hence coefficients, unchanged, because weights are normalised to sum to one before fitting. A weight of zero removes the observation from deviance, gradient and curvature.",
  [I], "all data and weights", "tests scale one data set", ["_glm.py", "_distribution.py"], [("weight normalisation", "src/glum/_glm.py")], ["fit"])
p("P28", "Starting values are feasible and the starting intercept solves the null model",
  "The starting coefficients have the right length and lie within the bounds; without user-supplied or warm-start values all slopes start at zero and the intercept starts where the mean of the intercept-only model equals the weighted mean of the target (with an offset: at the stationary point of the deviance in the intercept, for the normal family with identity link and the power-variance families with log link). Given starting values are used as they are, in the user's scale, and a warm start uses exactly the previous solution.",
  [I, C], "all families, links, weights, offsets, bounds", "tests check one starting value per link", ["_distribution.py", "_glm.py"], [("guess_intercept", "src/glum/_distribution.py"), ("start coefficients", "src/glum/_glm.py")], ["guess_intercept", "_get_start_coef"])
p("P29", "Refitting gives the same result regardless of earlier fits",
  "Unless warm starting is requested, everything an estimator reports after a fit depends only on its settings and the data of that fit, not on any earlier fit or call. With a fixed random seed two identical fits give identical results.",
  [H], "all sequences of fits and calls on one estimator object", "tests rarely refit", ["_glm.py", "_glm_cv.py"], [("fit state", "src/glum/_glm.py")], ["fit"])
p("P30", "Model formulas produce the design they denote",
  "The design built from a formula contains exactly the columns the formula denotes, the intercept is handled once, and prediction re-applies the same encoding.",
  [I], "all formulas and frames", "tests use a few formulas", ["_formula.py", "_glm.py"], [("formula parsing", "src/glum/_formula.py")], ["fit with formula"])
p("P31", "The iterative solver returns its last accepted, internally consistent iterate",
  "The coefficients returned by the iteratively reweighted solver are those of the last accepted step. In every iteration the quadratic approximation, the active set, the Hessian, the inner solve, the line search and the convergence test all refer to that one current iterate and not to an earlier one. The iteration and cycle counts and the diagnostics (one entry for the start and one per iteration) describe those iterates, the solver stops unconverged only when out of iterations, and exactly then it warns.",
  [I, H], "all problems and numbers of iterations", "tests see only final coefficients", ["_solvers.py"], [("_irls_solver", "src/glum/_solvers.py")], ["_irls_solver"])

path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(path, "w") as f:
    for d in P:
        f.write(json.dumps(d) + "\n")
