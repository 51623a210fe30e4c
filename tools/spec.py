"""Single source for properties.jsonl, MANIFEST.json and the tables of DESIGN.md (tools/gen.py writes them)."""
PY = "src/mssm/src/python/"
CPP = "src/mssm/src/cpp/"
T_OUT = "The 11 stable tests fit or evaluate a handful of fixed data sets (only test_hsmm.py is stable); "

P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note))


prop("C01", "Link functions invert each other and their derivatives are exact",
     "For every link function the package provides, mapping a mean to the linear predictor and back returns the mean, "
     "over the link's whole domain and without overflow for large linear predictors. The reported first and "
     "second derivatives equal the true derivatives of the link.",
     ["inputs"], "all means in the domain of each link, all linear predictors, scalars and arrays",
     T_OUT + "they never evaluate a link away from fitted values.",
     [PY + "exp_fam.py"], [("Link.f / fi / dy1 / dy2", PY + "exp_fam.py: class Logit, Identity, LOG, LOGb")],
     "property-based testing: round trip and symbolic/finite-difference derivative oracle over generated means",
     "generated means over the whole domain, closed-form oracles")
prop("C02", "Exponential and extended families match their textbook distributions",
     "For Gaussian, Binomial, Gamma, inverse Gaussian, Poisson and scaled-t families the log-density, summed log-likelihood, "
     "deviance, variance function and its derivatives, quantile/residual and random-sample functions agree with the named "
     "distribution for every mean, scale, trial count and observation in the support. Every reported derivative (with respect "
     "to mean, coefficients, log scale or extra parameters) equals the derivative of the corresponding reported likelihood or deviance.",
     ["inputs", "configurations"], "all families x links x means x scales x observations in the support, including boundary observations",
     T_OUT + "no stable test evaluates a family's density or derivatives directly.",
     [PY + "exp_fam.py"], [("Family / ExtendedFamily subclasses", PY + "exp_fam.py")],
     "property-based testing: scipy.stats reference distributions, closed-form deviance identities and finite differences",
     "reference densities from scipy and hand-written formulas; random-sample functions through moments with 6-sigma bounds")
prop("C03", "GAMLSS families: density, CDF, derivatives and residuals agree",
     "For the Gaussian, Gamma and multinomial multi-parameter families the log-density and log-CDF are those of the named "
     "distribution in the documented parameterisation, and residuals and random samples follow it. First derivatives are exact; "
     "second and mixed derivatives are the exact or (where documented) the expected ones.",
     ["inputs"], "all parameter vectors in range, all observations in the support, any number of categories",
     T_OUT + "only fitted values of single data sets are compared.",
     [PY + "exp_fam.py"], [("GAUMLSS / GAMMALS / MULNOMLSS", PY + "exp_fam.py")],
     "property-based testing: scipy reference distributions, finite differences and numerical expectations",
     "expected derivatives are checked by numerical expectation over the reference distribution")
prop("C04", "General smooth families: likelihood, gradient and Hessian are consistent",
     "For the proportional hazards, multivariate Gaussian, wrapped (exponential or GAMLSS family used in a general model) and user-defined "
     "families, the log-likelihood equals its textbook definition and the gradient and Hessian (whole, or selected columns) are its derivatives "
     "in coefficient order, for shared and separate model matrices. Baseline hazard, survival function, their standard errors and the residuals "
     "follow from the coefficients and data passed in, regardless of earlier calls.",
     ["inputs", "histories"], "all designs, tie and censoring patterns, coefficient vectors, numbers of signals; any order of calls on one family object",
     T_OUT + "the Cox and multivariate Gaussian families are used by no stable test.",
     [PY + "exp_fam.py", PY + "utils.py", PY + "gamm_solvers.py", CPP + "hazard.cpp"],
     [("PropHaz, MultiGauss, GSMMFamily", PY + "exp_fam.py"), ("GAMLSSGSMMFamily", PY + "utils.py"),
      ("deriv_transform_mu_eta / deriv_transform_eta_beta", PY + "gamm_solvers.py")],
     "property-based testing: direct O(n^2) definitions and finite differences over generated designs",
     "direct definitions as oracle; sequences of calls on one object for cached predictions")
prop("C05", "Spline bases, tensor products and impulse responses are the defined ones",
     "Spline basis evaluations equal the B-spline (P-spline) basis defined by the knots: non-negative, summing to one inside the knot range, "
     "reproducing polynomials up to the degree, and row-wise independent of the other rows. Tensor bases are row-wise Kronecker "
     "products of their margins, and convolved (impulse response) bases equal the discrete convolution of the basis with the event train, per series.",
     ["inputs", "configurations"], "all covariate vectors, numbers of basis functions, degrees, ranges, event trains",
     T_OUT + "bases are only exercised through fits.",
     [PY + "smooths.py", PY + "terms.py"], [("B_spline_basis, TP_basis_calc, convolve_event", PY + "smooths.py")],
     "property-based testing: Cox-de Boor reference implementation, direct convolution and row-independence relations",
     "reference recursion written from the definition")
prop("C06", "Identifiability constraints and reparameterisation keep the function space",
     "Constrained smooth terms sum to zero over the data (or satisfy the chosen dropping/differencing constraint) while together with the "
     "intercept spanning the same functions as the unconstrained basis. Reparameterising a basis and its penalties (any scheme) "
     "changes neither the spanned functions nor the penalty value of any function, and by-variable, nested and difference constraints "
     "leave the model matrix of full rank.",
     ["inputs", "configurations"], "all smooth terms, constraint types, reparameterisations, data sets with and without NaN",
     T_OUT + "constraints are invisible in fitted values of one well-posed data set.",
     [PY + "formula.py", PY + "repara.py", PY + "terms.py", PY + "smooths.py"],
     [("__absorb_constraints, __fix_nested", PY + "formula.py"), ("reparam", PY + "repara.py")],
     "property-based testing: column-space equality, sum-to-zero and penalty-value invariance on generated terms",
     "subspace equality by orthogonal projection; penalty values on generated functions")
prop("C07", "Penalty matrices are the defined quadratic forms",
     "Every penalty matrix is symmetric positive semi-definite, equals the documented quadratic form (squared m-th differences, identity, "
     "distance or null-space form), equals the product of its stored root with the root's transpose, and has the reported rank. Embedded into the model the total penalty is the "
     "lambda-weighted sum of the term penalties at exactly that term's coefficients, one block per level for factor smooths and random terms, "
     "with shared smoothing parameters combined into one.",
     ["inputs", "configurations"], "all penalty orders, basis sizes, constraints, term combinations, smoothing parameters",
     T_OUT + "penalties only show through estimated smooths.",
     [PY + "penalties.py", PY + "terms.py", PY + "formula.py", PY + "gamm_solvers.py"],
     [("DifferencePenalty, IdentityPenalty, embed_in_S", PY + "penalties.py"), ("build_penalties", PY + "formula.py")],
     "property-based testing: definition-based reference penalties and rank/null-space invariants",
     "reference difference matrices; dense eigenvalues")
prop("C08", "A formula and a data frame give the documented model matrix",
     "The model matrix of any formula (intercept, linear terms and interactions, smooths with by-variables and by-levels, tensor and factor smooths, "
     "random intercepts and slopes, impulse responses) has the documented columns in the documented order for each row of the data, with "
     "names and counts that match. Rows with missing values are dropped consistently, new data is encoded with the training data's levels and ranges, "
     "and selecting terms zeroes exactly the other terms' columns.",
     ["inputs", "configurations"], "all term combinations, factor codings, missing-value patterns and new-data frames",
     T_OUT + "no stable test looks at a model matrix.",
     [PY + "formula.py", PY + "terms.py"], [("Formula, build_model_matrix", PY + "formula.py"), ("term build_matrix", PY + "terms.py")],
     "property-based testing: independent dense reference builder for generated formulas and data frames",
     "reference builder assembles the matrix column by column from the documentation")
prop("C09", "The sparse linear algebra layer solves what it claims to solve",
     "Every sparse factorisation and solve exposed by the compiled layer returns factors and solutions that satisfy their defining equations "
     "for the permutation they return, reports rank or failure correctly for deficient matrices, and gives the same answer for any number of cores. "
     "Traces, crossproducts and selective solves built on them equal their dense counterparts.",
     ["inputs", "configurations"], "all sparse matrices: sizes, patterns, ranks, scalings, core counts",
     T_OUT + "they see one sparsity pattern each.",
     [CPP + "eigen_solvers.cpp", PY + "matrix_solvers.py"],
     [("cpp_chol, cpp_cholP, cpp_qr, solves, compute_B...", PY + "matrix_solvers.py")],
     "property-based testing: residuals of the defining equations and dense numpy counterparts over generated sparse matrices",
     "dense numpy oracle, including rank-deficient and badly scaled matrices")
prop("C10", "AR(1) error models whiten exactly the stated correlation",
     "With an AR(1) parameter and a series grouping, working data are transformed by a factor of the inverse AR(1) correlation matrix, "
     "blockwise per series, and the likelihood is the corresponding Gaussian one including the determinant. Gaussian fits equal (penalised) generalised least squares "
     "with that correlation, and returned residuals are the whitened ones when requested.",
     ["inputs", "configurations"], "all correlation parameters in (-1,1), series lengths including 1, and missing rows",
     T_OUT + "no stable test uses an AR(1) model.",
     [PY + "gamm_solvers.py", PY + "utils.py", "src/mssm/models.py"], [("computeAr1Chol", PY + "utils.py"), ("GAMM.fit(rho=)", "src/mssm/models.py")],
     "property-based testing: dense generalised least squares oracle",
     "dense correlation matrices and their Cholesky factors")
prop("C11", "A fitted GAMM is the penalised maximum likelihood estimate it reports",
     "After fitting a (generalised) additive mixed model, the coefficients maximise the penalised likelihood at the reported smoothing "
     "parameters, and the fitted values, scale, residuals, Hessian, coefficient covariance root, effective degrees of freedom (total and per term), penalty and "
     "log-likelihood are the ones implied by those coefficients and smoothing parameters. With estimated smoothing parameters the criterion is stationary.",
     ["inputs", "configurations"], "all data sets, families, links, formulas, offsets, fitting options",
     T_OUT + "GAMM fits are not covered by any stable test.",
     ["src/mssm/models.py", PY + "gamm_solvers.py"], [("GAMM.fit", "src/mssm/models.py"), ("solve_gamm_sparse", PY + "gamm_solvers.py")],
     "property-based testing: dense penalised likelihood oracle and stationarity of the REML criterion on generated data sets",
     "dense oracle from the model's own matrix and penalties (which C05-C08 check independently)")
prop("C12", "The same model fitted by another route gives the same answer",
     "At fixed or estimated smoothing parameters the result does not depend on how it is computed: solver (QR or Cholesky), number of cores, row order, "
     "in-place or iterative crossproduct accumulation, or on writing the same model as GAMM, GAMMLSS or GSMM.",
     ["inputs", "configurations"], "all data sets and all pairs of equivalent routes",
     T_OUT + "each model is fitted by one route.",
     ["src/mssm/models.py", PY + "gamm_solvers.py", PY + "matrix_solvers.py"], [("fit methods", "src/mssm/models.py")],
     "property-based testing: differential testing of equivalent fitting routes on generated data sets",
     "differential comparison with tolerances set by the convergence criteria")
prop("C13", "Fitted GAMMLSS and general smooth models are stationary points",
     "After fitting a GAMMLSS or general smooth model the gradient of the penalised likelihood is zero at the returned coefficients, and the returned Hessian, covariance root, "
     "penalty, likelihood, effective degrees of freedom and smoothing parameters are mutually consistent. Coefficients dropped as unidentifiable "
     "are exactly zero and reported, and quasi-Newton fits reach the same likelihood.",
     ["inputs", "configurations"], "all multi-parameter models, designs (including rank-deficient ones) and optimiser settings",
     T_OUT + "they cover HSMM likelihood fits only at fixed seeds.",
     ["src/mssm/models.py", PY + "gamm_solvers.py"], [("solve_gammlss_sparse, solve_generalSmooth_sparse", PY + "gamm_solvers.py")],
     "property-based testing: stationarity and consistency invariants of fits on generated data sets",
     "gradient and Hessian recomputed with independent family formulas")
prop("C14", "Predictions, intervals and differences follow from coefficients and covariance",
     "For any new data and any subset of terms, predictions equal the new model matrix times the coefficients, intervals use the requested level and "
     "the coefficient covariance, and the difference of two predictions has the mean and interval of the contrast. "
     "Simulation-based (whole-function) intervals contain the pointwise ones and predictions for the training data reproduce the fit.",
     ["inputs", "configurations"], "all new-data frames, term subsets, levels, model classes",
     T_OUT + "predictions of GAMMs are never compared with anything in a stable test.",
     ["src/mssm/models.py"], [("predict, predict_diff", "src/mssm/models.py")],
     "property-based testing: direct linear-algebra oracle over generated models and new data",
     "oracle uses the public matrix, coefficients and covariance root")
prop("C15", "Posterior samples have the stated mean and covariance",
     "Samples drawn from the Gaussian approximation to the coefficient posterior have the estimated coefficients as mean and the posterior covariance as covariance, "
     "for any subset of coefficients, any scale and any returned root orientation, and deviations-only sampling is the same minus the mean. "
     "The same seed gives the same draws.",
     ["inputs", "configurations"], "all precision roots, permutations, subsets, seeds",
     T_OUT + "sampling is not tested by any stable test.",
     [PY + "utils.py", "src/mssm/models.py"], [("sample_MVN", PY + "utils.py"), ("sample_post", "src/mssm/models.py")],
     "property-based testing: exact linear map recovery of the sampler plus moment bounds",
     "the sampler is affine in standard normal draws, so its map is compared exactly where possible")
prop("C16", "HSMM/HMM log-likelihood and gradient equal full enumeration",
     "The hidden (semi-)Markov log-likelihood of any series equals the logarithm of the sum over all admissible state segmentations of the product of "
     "initial, transition, duration and emission probabilities, with start/end conventions as documented, time-varying probabilities included, and "
     "series are independent. The gradient is the derivative of that likelihood.",
     ["inputs", "configurations"], "all state counts, durations, series lengths, start/end options, time-varying settings, emission families",
     T_OUT + "these are compared with stored numbers at single configurations.",
     [PY + "hsmm.py", CPP + "hsmm/llk.cpp"], [("HSMMFamily.llk / gradient", PY + "hsmm.py"), ("llk.cpp", CPP + "hsmm/llk.cpp")],
     "property-based testing: brute-force enumeration of segmentations and finite differences",
     "exhaustive enumeration for small series; finite differences for gradients")
prop("C17", "HSMM decoding returns the most probable and posterior-distributed paths",
     "Viterbi decoding returns a segmentation whose joint probability is the maximum over all admissible segmentations, with the score it reports. "
     "Posterior samples of state sequences are admissible and occur with their posterior probabilities, and posterior state probabilities sum to one and match enumeration.",
     ["inputs", "configurations"], "all small HSMMs, start/end options, time-varying probabilities, impossible transitions",
     T_OUT + "decoding is tested on one simulated data set.",
     [PY + "hsmm.py", CPP + "hsmm/decode.cpp"], [("decode, sample", PY + "hsmm.py"), ("viterbi, sample_backwards", CPP + "hsmm/decode.cpp")],
     "property-based testing: brute-force enumeration as oracle for scores, paths and sampling frequencies",
     "exhaustive enumeration; sampling frequencies with conservative bounds")
prop("C18", "HSMM building blocks and residuals follow the model's own probabilities",
     "Transition, initial and duration probabilities derived from coefficients are valid distributions with the documented structure, simulated series obey them, and "
     "forward and predictive residuals equal the conditional CDF value and the one-step prediction error under the model.",
     ["inputs", "configurations"], "all coefficient vectors, state counts and options",
     T_OUT + "they are compared with stored numbers at single configurations.",
     [PY + "hsmm.py"], [("compute_T / pi / ds, forward_resid, predict", PY + "hsmm.py")],
     "property-based testing: enumeration-based conditional distributions and validity predicates",
     "exhaustive enumeration for small series")
prop("C19", "Distribution of a weighted sum of chi-squares is computed correctly",
     "The tail probability returned for a weighted sum of chi-square variables (any signs, degrees of freedom and non-centralities) is within the requested accuracy of the true value, "
     "is monotone in the statistic, and failures are reported rather than returned as values.",
     ["inputs"], "all weights, degrees of freedom, non-centralities, statistics",
     T_OUT + "no stable test computes a p-value.",
     [CPP + "davies.cpp", PY + "utils.py"], [("davies", CPP + "davies.cpp")],
     "property-based testing: exact special cases, numerical inversion reference and monotonicity",
     "reference by independent characteristic function inversion")
prop("C20", "Quasi-Newton compact forms and factor derivatives equal their definitions",
     "The compact symmetric-rank-one representations used by the quasi-Newton smoothing updates (approximation and inverse, explicit and implicit) equal the matrix obtained by "
     "applying the rank-one updates one by one, satisfy the secant equation of the last pair, and with make_psd/make_pd are the matrix with non-positive eigenvalues clipped; the "
     "structured forms equal their documented block formula for every choice of exactly known columns and dampening, and their (implicit) inverses, traces and Cholesky factors "
     "with the penalty added are those of that matrix. Derivatives of Cholesky factors and of their inverses equal the derivative of the factor, and low-rank up- and down-dates "
     "equal refactorisation.",
     ["inputs", "histories"], "all update histories, partitions of the columns and dampening, all penalties, all positive definite matrices and directions",
     T_OUT + "only used inside fits.",
     [PY + "compact_rep.py", PY + "gamm_solvers.py", CPP + "dchol.cpp"],
     [("computeHSR1, computeVSR1, computeSH, computeSVPS", PY + "compact_rep.py"), ("getImplicitV, getCholnH, getExplicitnH, makepdd_fd2llk, computetrVS3", PY + "gamm_solvers.py"), ("dChol, invdChol, uChol, computeV2", CPP + "dchol.cpp")],
     "property-based testing: explicit rank-update reference, dense block formulas and finite differences over generated histories",
     "model-based: dense explicit updates")
prop("C21", "REML and smoothing-parameter uncertainty corrections equal their formulas",
     "The reported REML/marginal likelihood equals the Laplace-approximate marginal likelihood of the model at the given smoothing parameters, and covariance matrices corrected for "
     "smoothing-parameter uncertainty add the documented non-negative terms.",
     ["inputs", "configurations"], "all models, families, smoothing parameters",
     T_OUT + "not computed by any stable test.",
     [PY + "gamm_solvers.py", PY + "utils.py"], [("REML", PY + "utils.py"), ("correct_VB, estimateVp", PY + "utils.py")],
     "property-based testing: dense formula oracle",
     "dense determinants and derivatives")
prop("C22", "Model comparison reports the statistics of the two models it was given",
     "Comparing two nested models reports the likelihood-ratio statistic, degrees of freedom difference, AIC difference and p-value implied by the two fits, "
     "independent of earlier comparisons and with the sign convention documented.",
     ["inputs", "configurations"], "all pairs of nested fitted models and correction options",
     T_OUT + "comparison tests are not in the stable set.",
     [PY + "compare.py"], [("compare_CDL", PY + "compare.py")],
     "property-based testing: recomputation from the two models",
     "oracle recomputes from public quantities")
prop("C23", "Smooth-term tests and summaries report the fitted model's quantities",
     "P-values of smooth terms equal the documented Wald-type test computed from the term's coefficients, covariance and effective degrees of freedom, and printed "
     "summaries list every parametric, smooth and random term once with its own numbers.",
     ["inputs", "configurations"], "all fitted models",
     T_OUT + "not computed by any stable test.",
     [PY + "utils.py"], [("approx_smooth_p_values, print_smooth_terms, print_parametric_terms", PY + "utils.py")],
     "property-based testing: dense recomputation of the statistic",
     "oracle recomputes from public quantities")
prop("C24", "The NUTS sampler targets the model's posterior",
     "Each returned draw comes with the log joint density of the model at that draw, chains are reproducible from their seed and independent of one another, "
     "and the draws follow the posterior (correct mean and covariance for Gaussian targets).",
     ["inputs", "histories"], "all models, priors, seeds, chain counts",
     T_OUT + "sampler tests are not in the stable set.",
     [PY + "mcmc.py", CPP + "mcmc.cpp"], [("sample_mssm", PY + "mcmc.py"), ("advance_chain", CPP + "mcmc.cpp")],
     "property-based testing: recomputation of the log density and exact Gaussian targets",
     "log densities recomputed; moment bounds wide enough for Monte-Carlo error")
prop("C25", "Reading data from files gives the model of the same data in memory",
     "Building and fitting a model from per-series files gives the same levels, ranges, model matrix, crossproducts and estimates as the same data in one frame, with and without the on-disk cache, "
     "for any number of files and processes, and the cache never returns another file's or another formula's matrix.",
     ["inputs", "configurations", "histories"], "all file partitions, names, caching options, repeated runs",
     T_OUT + "file loading is not in the stable set.",
     [PY + "file_loading.py", PY + "formula.py"], [("read_mmat and cache", PY + "file_loading.py")],
     "property-based testing: differential comparison of file-based and in-memory routes over generated partitions",
     "runs in a scratch directory")
prop("C26", "Results depend on the model and data, not on call history",
     "Calling prediction, summary, sampling or comparison functions in any order neither changes the fitted model nor their own later results, and refitting a model object (also with other options) "
     "gives what a fresh object gives. Inputs (data frames, term lists, arrays) are not modified.",
     ["histories"], "all sequences of public calls on a model object",
     T_OUT + "every test uses a fresh object once.",
     ["src/mssm/models.py", PY + "formula.py", PY + "utils.py"], [("model classes", "src/mssm/models.py")],
     "property-based testing: stateful sequences of public calls compared with fresh objects",
     "stateful sequences with shrinking")
