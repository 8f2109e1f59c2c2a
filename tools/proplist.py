prop("C01", "Parameter transform is invertible and normalised",
     "For every dimension, every mix of bounded and unbounded coordinates and every supported bounded-variable transform, with or without whitening, mapping an interior point to inference space and back returns that point (and vice versa away from the numerical margin). Building a transform maps the plausible box to [-1/2, 1/2] in each coordinate, refuses bounds that are out of order, and two transforms compare equal only when they denote the same map.",
     ["inputs", "configurations"], "all dimensions, numbers of points, bounds, plausible bounds, rotations, scales and interior points",
     "The tests try a handful of dimensions and points; the identity must hold for every bound, scale, rotation and point.",
     [PT], [("ParameterTransformer.__call__ / inverse", PT), ("ParameterTransformer.__init__", PT)],
     ["return value of the transformer call and of inverse()"],
     note=REAL + "unbounded dimension and number of points for the round trips; constructor obligations at D=1,2; the two student-t kernels enter by contract (their closed forms are checked on sampled points: bounded).",
     state=[("bounds, mu, delta, R_mat, scale", "parameters of the map")])
prop("C02", "Inverse transform never leaves the hard bounds",
     "For every point of inference space, finite or infinite, the corresponding point in the original space lies strictly inside the hard bounds of every bounded coordinate. Points arbitrarily close to a bound map to finite inference coordinates.",
     ["inputs", "configurations"], "all points of inference space, bounds, transforms, whitenings, dimensions",
     "A target is only defined inside its bounds; the violating inputs are extreme (saturating) points no sampled test hits.",
     [PT], [("ParameterTransformer.inverse", PT)], ["points passed to the user's target"],
     note=REAL + "nextafter is an assumed strictly-between function; infinite inputs and points within 3 ulps of a bound are bounded run-time checks.")
prop("C03", "Log-Jacobian is the true volume change of the transform",
     "At every point, the reported log absolute determinant equals the logarithm of the absolute determinant of the derivative of the map from inference space back to the original space, for every transform type, bounds and whitening. Densities converted between the two spaces are therefore consistent.",
     ["inputs", "configurations"], "all dimensions, points, bounds, transforms, rotations, scales",
     "An error in one branch (a scale, a sign, one transform type) biases every density; tests compare a few points of a few configurations.",
     [PT], [("ParameterTransformer.log_abs_det_jacobian", PT)], ["log_abs_det_jacobian return value"],
     note=REAL + "the derivative is computed by symbolic differentiation of the executed inverse (logit, probit, student-t kernel); with whitening |det| of an orthogonal R_mat is assumed 1; full numerical determinants are bounded run-time checks.")
prop("C05", "The evaluation log is a faithful record",
     "Each evaluation of the target at a new point adds exactly one row that holds the point, the value returned by the target (plus the log-Jacobian in inference space) and its noise, leaves all earlier rows alone and updates the count and the maximum, also when the table grows. Re-evaluating a logged point merges into its row as the running (precision-weighted) mean, and finalising trims the tables to exactly the recorded rows.",
     ["inputs", "histories"], "all reachable logs (any number of rows and capacity), points, values, noise levels, with and without transform",
     "The guarantee is over every history of new and repeated evaluations; tests replay a few short ones.",
     [FL], [("FunctionLogger.__call__/add/_record/_expand_arrays/finalize", FL)], ["X, y, S, X_orig, y_orig, n_evals, X_flag, y_max, func_count"],
     note=REAL + "inductive step over an arbitrary log that satisfies the invariant (unbounded rows, dimension); the representation invariant is the contract's precondition; wall-clock values are unconstrained; whole histories also replayed at run time (bounded).",
     state=[("X, y, S, X_orig, y_orig, n_evals, fun_eval_time, Xn", "the log")])
prop("C06", "Invalid target values are refused and never recorded",
     "If the target returns a non-finite, complex, non-scalar or missing value, or a non-finite or non-positive noise estimate, or raises, the caller gets an exception and the evaluation log is exactly as before. Every finite real value with a positive finite noise is accepted.",
     ["inputs", "fault_sequences"], "all reachable logs, points, values, noise levels and ways for the target to fail",
     "Atomicity must hold for every failing value at every state of the log; tests look at the exception only.",
     [FL], [("FunctionLogger.__call__/add", FL)], ["exception type; all tables of the log"],
     note=REAL + "unbounded log and dimension; exceptional values nan, +inf, -inf are separate value classes; complex, vector, list and None values are representative constants.")
prop("C07", "Variational parameters survive encoding as a vector",
     "Reading the parameters of a variational posterior into a vector and writing that vector back leaves the posterior unchanged, for every choice of optimised parameter groups, in log and in constrained form; the layout is means by component, scales, lengths, weights. Writing any vector gives a well-formed posterior (positive scales, mean squared length 1, weights on the simplex) denoting the same mixture, does not modify the caller's vector, and constrained vectors with a negative scale or weight are refused with nothing changed.",
     ["inputs", "configurations"], "all dimensions, numbers of components, parameter values, and subsets of optimised groups",
     "The optimizer works on this encoding with every subset of groups and any size; tests fix one size and the default groups.",
     [VP], [("get_parameters / set_parameters", VP)], ["w, mu, sigma, lambd, returned vector"],
     note=REAL + "unbounded dimension and number of components, all 16 subsets of groups.",
     state=[("w, eta, mu, sigma, lambd", "mixture parameters")])
prop("C14", "Priors are proper densities with the support they report",
     "Every built-in prior evaluates to the documented density at every point, integrates to one, is zero outside the support it reports, refuses parameters that are out of order, and a product prior is the product of its marginals on the box of their supports. The public evaluation gives one value per row, in log and plain form consistently, for any numeric input type, and refuses inputs of the wrong dimension.",
     ["inputs", "configurations"], "all points, pivots, dimensions and numbers of points",
     "Normalisation and support are statements about all points; tests compare a grid for one set of pivots.",
     ["pyvbmc/priors/" + f for f in ("uniform_box.py", "trapezoidal.py", "smooth_box.py", "spline_trapezoidal.py", "product.py", "prior.py", "scipy.py", "tile_inputs.py")],
     [("_log_pdf", "pyvbmc/priors/*.py"), ("support", "pyvbmc/priors/*.py")], ["log_pdf, pdf, support()"],
     note=REAL + "density and support for any dimension (spline: D=1); normalisation by an explicit distribution function whose derivative is the executed density (D=1, fundamental theorem of calculus assumed); constructor D<=3, product D<=2; SciPy distributions are external and checked on sampled points only.")
EN = ["pyvbmc/entropy/entlb_vbmc.py", "pyvbmc/entropy/entmc_vbmc.py"]
prop("C08", "The variational posterior evaluates as a proper mixture density",
     "For every number of components, dimension, parameter values and set of points, the density of a variational posterior in inference space is the weighted mixture of its axis-aligned Gaussians, its logarithm and gradient agree with it, and in the original space it is the same density corrected by the transform's Jacobian (zero outside the hard bounds). Evaluating does not change the posterior or the caller's points; samples have the requested number and space, and balanced sampling gives each component its share.",
     ["inputs", "configurations"], "all mixtures, points, transforms, shapes and numeric types of the input",
     "A density is defined by its value at every point; the tests compare a few points of one mixture.",
     [VP], [("pdf, log_pdf, sample, mode", VP)], ["pdf(), log_pdf(), gradients, sample()"],
     note=REAL + "unbounded number of points and components, dimension (value, log); gradient and original space at listed shapes, transform by contract (arbitrary affine map with point-dependent Jacobian); sampling and mode are bounded run-time checks.",
     state=[("w, mu, sigma, lambd", "mixture parameters")])
prop("C10", "The objective and its gradient are those of the documented lower bound",
     "The expected log joint is the exact expectation of the Gaussian-process surrogate under the mixture, with its quadrature variance; both entropy estimates are the documented ones; the soft-bound loss is zero inside its bounds and quadratic outside. For every choice of optimised groups each gradient is the derivative of its value with respect to the free parameters in their documented order, the objective is the sum of these parts, and evaluating it leaves the caller's parameter vector as it was.",
     ["inputs", "configurations"], "all mixtures, surrogate posteriors, hyperparameter samples, mean functions, optimised groups, and (Monte Carlo entropy) all draws",
     "A wrong term in one gradient still optimises on typical inputs; tests compare finite differences at a few fixed parameter values.",
     [VO] + EN, [("_gp_log_joint, _neg_elcbo, _vp_bound_loss, _soft_bound_loss", VO), ("entlb_vbmc", EN[0]), ("entmc_vbmc", EN[1])],
     ["F, dF, G, dG, H, dH, varG"],
     note=REAL + "all values; numbers of GP training points unbounded; D<=2, K<=2 (one term K=3), up to 2 hyperparameter samples; squared exponential covariance; solve_triangular by assumed contract; gradient of Monte Carlo entropy leaves out the mean-zero score term (documented estimator); gradient of the variance is not implemented in the code.")
