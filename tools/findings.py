F += [
 ("C01", "equality ignored the whitening scale", "transformers differing only in the whitening scale compared equal"),
 ("C05", "re-evaluating a logged point added the log-Jacobian", "second evaluation of a logged point overwrote the raw value with value + log-Jacobian"),
 ("C05", "y_max was stale after merging", "maximum of the log not updated when a repeated evaluation lowered or raised the merged value"),
 ("C05", "finalize left n_evals untrimmed", "finalize() trimmed every table except n_evals"),
 ("C07", "set_parameters(raw_flag=False)", "constrained vectors: negativity test looked at the wrong slice (means refused when negative, negative scales accepted)"),
 ("C08", "vp.pdf truncated the transformed points", "vp.pdf of an integer array truncated the transformed points to integers"),
 ("C08", "vp.mode failed in one dimension", "vp.mode() raised for D=1"),
 ("C20", "kl_div with samples averaged over all", "kl_div from samples averaged the sample mean over all coordinates"),
 ("C20", "kl_div ignored infinite densities", "kl_div(gaussflag=False): operator precedence let infinite densities through"),
 ("C08", "balanced sampling drew the remainder", "balanced sampling allocated the remaining draws with biased weights"),
 ("C14", "prior log densities were truncated", "log_pdf of an integer array of points was truncated to integers"),
 ("C14", "SciPy prior reported the support", "SciPy prior support ignored loc and scale"),
 ("C14", "SmoothBox support was truncated", "SmoothBox support truncated to integers for integer pivots"),
 ("C10", "soft-bound loss failed when only the length scales", "bound loss raised AttributeError when lambda was optimised without sigma"),
 ("C10", "gradient of the soft-bound loss mixed up", "bound-loss gradient mixed components and coordinates for D>1, K>1"),
 ("C10", "negative ELCBO modified the caller", "evaluating the objective subtracted the largest log weight from the caller's parameter vector"),
 ("C13", "determine_best_vp(rank_criterion_flag=True) failed", "determine_best_vp(rank_criterion_flag=True) raised IndexError on any recorded history whose last iteration is not stable"),
 ("C11", "continuing an optimization overwrote", "calling optimize() again mutated the last recorded optim_state / vp snapshot (e.g. its iteration number)"),
 ("C13", "optimize failed with entropy_switch=True", "option entropy_switch=True: TypeError in the first iteration"),
 ("C12", "initialized options could still be changed", "del options[key], options.pop and options |= changed initialised options"),
 ("C04", "set-up overwrote the user's plausible bound array", "plb given, pub missing, several starting points with a coordinate equal to plb: the user's plb array was overwritten"),
 ("C11", "after optimization the working posterior was", "without final boost, vbmc.vp after optimize() is the snapshot in the history itself"),
 ("C22", "trimming after warm-up could leave fewer", "second trim of a log with tied values: ties broken towards points already dropped, leaving fewer than D+1 training points"),
 ("C17", "minimize_adam overwrote", "the array passed as x0 was overwritten by the first step"),
 ("C15", "variance regularisation of acquisition", "optim_state key variance_regularized_acqfcn vs variance_regularized_acq_fcn: tol_gp_var had no effect in any run; with it on, VIQR/IMIQR raised for 2-D results"),
 ("C15", "search cache can be empty", "option search_cache_frac > 0 raised in the first active sampling step (empty cache) and in input warping (ambiguous truth value)"),
 ("C15", "integer variables failed in active sampling", "option integer_vars: IndexError in the first active sampling step (1-D points) and the caller's candidate points were overwritten"),
 ("C18", "unscent_warp failed for one point", "unscented transform of one point with several widths raised ValueError"),
]
