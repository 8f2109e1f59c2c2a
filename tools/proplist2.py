prop("C04", "Problem set-up is consistent or refused",
     "For every starting set, hard bounds and plausible bounds (given or left out), the set-up is either refused with ValueError or accepted with: hard bounds as given, finite plausible bounds with lower < plausible lower < plausible upper < upper, every variable bounded on both sides or on neither, and every starting point inside the plausible box and strictly inside the hard bounds. Input that already respects the documented conditions is kept as it is; the user's arrays are never modified.",
     ["inputs"], "all starting sets, bounds (finite, infinite, nan, unordered, touching, missing) and numbers of points",
     "Tests check one example per error message; consistency of what is accepted is a statement about every combination of bounds.",
     [VB], [("_bounds_check", VB), ("__init__, _init_optim_state", VB)], ["return of _bounds_check", "attributes of a new VBMC instance"],
     note=REAL + "_bounds_check proved for all real and non-finite inputs, D<=2 with one starting point and D=1 with up to 3; the rest of the constructor is a bounded run-time check.")
prop("C09", "Moments of the variational posterior are those of the mixture",
     "In inference space, mean and covariance are exactly those of the mixture: sum of w_k mu_k, and sum of w_k sigma_k^2 times the squared length scales plus the between-component spread. In the original space they are the sample mean and covariance of the requested number of draws, balanced and taken in the original space. Asking for moments does not change the posterior.",
     ["inputs", "configurations"], "all mixtures, numbers of components, draws",
     "Tests compare one or two mixtures within Monte Carlo error; the identity has to hold for every mixture.",
     [VP], [("moments", VP)], ["moments()"],
     note=REAL + "unbounded number of components and draws, D<=3; sampling enters by contract and is checked at run time on sampled mixtures.")
prop("C20", "Divergences and high-posterior-density subsets follow their definitions",
     "kl_div_mvn returns both directed Kullback-Leibler divergences between two Gaussians (infinite for a singular covariance, zero against itself). kl_div of two posteriors is the mean log-density ratio under each posterior's own original-space draws, or the divergence of the moment-matched Gaussians, never negative. get_hpd returns the requested share of the points, all of them at least as high as every point left out, with matching points, values, indices and range. Inputs are not modified.",
     ["inputs"], "all means, covariances, densities, draws, point sets and shares",
     "Tests compare a few numbers; the ordering and the formulas have to hold for every input.",
     ["pyvbmc/stats/kl_div_mvn.py", "pyvbmc/stats/get_hpd.py", VP], [("kl_div_mvn", "pyvbmc/stats/kl_div_mvn.py"), ("get_hpd", "pyvbmc/stats/get_hpd.py"), ("kl_div, mtv", VP)],
     ["kl_div_mvn(), get_hpd(), kl_div()"],
     note=REAL + "any number of points; Gaussian divergence D<=2; shares 0.1, 0.5, 0.8, 1; det and lstsq of LAPACK by assumed contract (exact for square non-singular matrices); argsort by contract; mtv only bounded run-time checks.")
prop("C12", "User options win; nothing changes after initialisation",
     "Every option of the two option files has, without user input, the value written in its file evaluated for the problem's dimension. A value the user sets is what the algorithm uses, whatever the option and whatever the value: reading the defaults, or the dependent defaults of noisy targets, never overrides it, and it changes no other option. Unknown option names are refused with ValueError. Once initialised, no way of writing (assignment, update, del, |=, pop, clear, setdefault) changes an option. The user's dictionary is not modified.",
     ["inputs", "configurations"], "all options of the files, all user values, all subsets of the dependent options",
     "Tests set a handful of options; the guarantee is about each of the 130+ options, every value, and each way of changing them.",
     ["pyvbmc/vbmc/options.py", VB], [("__init__, load_options_file, update_defaults, validate_option_names, __setitem__, __delitem__", "pyvbmc/vbmc/options.py")],
     ["VBMC.options", "ValueError/AttributeError"],
     note="User values are arbitrary symbolic objects the code never inspects; options are enumerated completely from the option files. configparser and eval are trusted. The constructor contract is a bounded run-time check.")

IHF = "pyvbmc/vbmc/iteration_history.py"
prop("C11", "Recorded iterations are isolated snapshots",
     "What is recorded for an iteration is, from then on, exactly what the value was at that moment: later changes of the live object (posterior, GP, function log, optimization state), of arrays nested in it, of other iterations' records, continuing the optimization, or changing what optimize() returned never reach it. No record is lost or moved when later (or earlier) iterations are recorded; iterations never recorded are empty. Unknown keys and negative iterations are refused with ValueError, leaving the history unchanged; copies and stored histories keep records and key check.",
     ["inputs", "histories"], "all recorded values and nesting, all orders of recording, all later mutations",
     "Tests record immutable scalars once; isolation is about every later mutation through every alias.",
     [IHF, VB], [("record, record_iteration, __setitem__, _expand_array", IHF), ("optimize", VB)], ["VBMC.iteration_history"],
     note="Proved for arbitrary (symbolic) contents, five orders of recording; copy.deepcopy trusted; complete (and resumed) runs and serialisation are bounded run-time checks.")
prop("C13", "Optimization ends for a stated reason and reports the best recorded iteration",
     "The loop ends exactly when the evaluation budget or iteration limit is reached or the solution is stable (reliability and improvement below tolerance over the required window, away from the last warp, entropy switch off), never before the minimum evaluations and iterations. Reliability is the mean of ELBO change, ELBO uncertainty and posterior change, each relative to its tolerance; improvement is the least-squares slope of the lower confidence bound. The returned iteration is the last one if stable, else the best lower confidence bound among the recent ones (or the minimal rank total); ELBO, its uncertainty, reliability, status and all result fields are those of that iteration.",
     ["inputs", "histories"], "all histories of ELBO, uncertainty, reliability and stability, all limits and tolerances",
     "Tests use a few handwritten histories; selection and termination have to be right for every history.",
     [VB], [("_check_termination_conditions, _compute_reliability_index, determine_best_vp, _create_result_dict", VB)], ["return of optimize()", "iteration_history"],
     note=REAL + "all values, histories of up to 4 iterations with every stability pattern up to 3; np.polyfit of degree 1 by its closed form; complete short runs are bounded run-time checks.")
prop("C17", "The stochastic optimiser stays in its box and follows the ADAM recurrence",
     "Every iterate of minimize_adam is the ADAM update of the previous one (bias-corrected first and second moments, exponentially decaying step size) clipped to the given bounds; the function is evaluated exactly at the starting point and the iterates; the tables hold them in order; the result is the mean of the last 20 iterates, inside the bounds, and the value the mean of the last 20 values. The starting point passed in is not modified.",
     ["inputs", "histories"], "all starting points, bounds, gradients, values and step-size settings",
     "Tests minimise two functions; recurrence and bounds have to hold for every sequence of gradients.",
     ["pyvbmc/vbmc/minimize_adam.py"], [("minimize_adam", "pyvbmc/vbmc/minimize_adam.py")], ["return of minimize_adam"],
     note=REAL + "all values for up to 3 steps (D<=2) and for the averaging up to 30 steps; the function is an arbitrary oracle. Early stopping only in bounded run-time checks.")
prop("C21", "Saving never overwrites unasked; loading restores the requested iteration",
     "save() without overwrite never alters an existing file, not even one created by another process at the moment of opening: it raises FileExistsError. Otherwise the file (with .pkl when no extension was given) holds the object and load by the same name returns it. Loading at an iteration puts posterior, GP, function log, optimization state and hyperparameters into the state recorded there (default: the last), cuts the history there, applies the new options, and refuses iterations that were not recorded with ValueError.",
     ["inputs", "schedules", "histories"], "all file names, pre-existing files, interleavings with another creator, recorded histories and iterations",
     "Tests save to a fresh name; the guarantee is about the moment of opening and about every recorded iteration.",
     [VB, VP], [("save, load", VB), ("save, load", VP)], ["file system", "VBMC.load()"],
     note="load's restoring of the state proved for arbitrary recorded values (histories of 1, 2, 4 iterations, all iterations -2..N+1); the file-system part is a bounded check over names, pre-existing files and a racing creator; dill trusted.")
prop("C22", "Warm-up ends by its rule and trimming never starves the training set",
     "Warm-up ends exactly when neither the lower confidence bound nor the best value improved recently (or the best value not for long) and data were not trimmed recently. Trimming drops only points further below the best value than the threshold and always leaves the D+1 best training points; a point dropped earlier never returns and has D+1 remaining points at least as high; whether warm-up ended or was a false alarm, the state records it.",
     ["inputs", "histories"], "all recorded values, thresholds, previous trims (any tie pattern)",
     "Tests trim one handwritten log once; the guarantee is about repeated trims, ties and logs with few good points.",
     [VB], [("_setup_vbmc_after_warmup, _check_warmup_end_conditions", VB)], ["function_logger.X_flag", "optim_state"],
     note=REAL + "all values for logs of up to 4 points (D<=2) with the listed patterns of earlier drops, histories of up to 6 iterations.")

AQ = "pyvbmc/acquisition_functions/"
prop("C15", "Acquisition functions have their documented values",
     "For every surrogate prediction, posterior density, bounds and set of points, an acquisition function gives one value per point that depends on that point alone: the documented formula of total variance (mean variance plus variance of the means over surrogate samples), mean, best value, posterior density and observation noise of the nearest training input, penalised where the surrogate is more certain than tol_gp_var, never minus infinity, and infinite outside the allowed box. Integrated acquisitions are the importance-weighted average of the surrogate's uncertainty after an observation at the point. Points, bounds, posterior and state are not modified.",
     ["inputs", "configurations"], "all surrogate predictions, densities, noise values, bounds, numbers of points and surrogate samples",
     "Tests compare a few values computed by MATLAB or check the shape; the formula has to hold for every prediction, on either side of every threshold.",
     [AQ + "abstract_acq_fcn.py", AQ + "acq_fcn.py", AQ + "acq_fcn_log.py", AQ + "acq_fcn_vanilla.py", AQ + "acq_fcn_noisy.py", AQ + "acq_fcn_viqr.py", AQ + "acq_fcn_imiqr.py", VB],
     [("__call__, _estimate_observation_noise, _sq_dist, _real2int", AQ + "abstract_acq_fcn.py"), ("_compute_acquisition_function", AQ + "acq_fcn.py")], ["acq_fcn(Xs, gp, vp, function_logger, optim_state)"],
     note=REAL + "any number of points, D<=2, up to 2 surrogate samples; GP prediction and posterior density enter by contract (any value); VIQR/IMIQR are bounded run-time checks against the exact posterior covariance of real gpyreg surrogates.")
AS = "pyvbmc/vbmc/active_sample.py"
prop("C16", "Active sampling proposes points in the search box and evaluates the best",
     "Every candidate proposed for an active sampling step lies inside the search box of the internal space; the requested number is proposed; the share asked for comes from the cached starting points (distinct ones, mapped to the internal space), reported by their index, and every other candidate is marked as new. Search box and caches are not modified. The point evaluated next is one of those scored and its acquisition value is no higher than any candidate's, local optimisation included; it lies strictly inside the hard bounds, and every evaluation is recorded.",
     ["inputs", "configurations"], "all search fractions, caches, bounds, posteriors, draws of the random generator",
     "Tests draw a few sets with fixed fractions; containment and proportions have to hold for every draw and every combination of fractions.",
     [AS], [("_get_search_points, active_sample", AS)], ["return of _get_search_points", "function_logger after active_sample"],
     note=REAL + "_get_search_points for all draws, posteriors and bounds (D<=2, the listed counts and fractions); whole active sampling steps are bounded run-time checks.")
WH = "pyvbmc/whitening/whitening.py"
prop("C18", "Warping keeps the posterior and the data consistent in the new space",
     "The unscented transform of a point with given widths is the mean and the standard deviation of the images of its 2D+1 sigma points, for any map and any matching shapes. After the parameter space is rotated and scaled, the recorded training points, bounds, search cache and surrogate values are those of the same original points in the new space (values corrected by the log Jacobian), components and hyperparameters are the unscented images of the old ones, and the old posterior is not modified.",
     ["inputs", "configurations"], "all maps, points, widths, posteriors and hyperparameters",
     "Tests warp one posterior; consistency has to hold for every shape, map and state.",
     [WH], [("unscent_warp, warp_gp_and_vp, warp_input", WH)], ["return of warp_input, warp_gp_and_vp, unscent_warp"],
     note=REAL + "unscent_warp and warp_gp_and_vp for all values (D<=2); warp_input (with its covariance estimate) is a bounded run-time check.")
