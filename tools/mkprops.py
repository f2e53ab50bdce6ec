"""Writes properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def p(id, title, st, over, text, why, files, mech, observe):
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": st, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": {"files": files,
              "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}})
G, A, S = "effector/global_effect.py", "effector/global_effect_ale.py", "effector/global_effect_shap.py"
PD, U, BS, BM = "effector/global_effect_pdp.py", "effector/utils.py", "effector/bin_splitting.py", "effector/binning_methods.py"
RE, RP, RA, RS = "effector/regional_effect.py", "effector/regional_effect_pdp.py", "effector/regional_effect_ale.py", "effector/regional_effect_shap.py"
PT, V, H, I = "effector/partitioning.py", "effector/visualization.py", "effector/helpers.py", "effector/interaction.py"

p("C01", "PDP, ICE and d-PDP curves equal their definitions",
  "Evaluating a PDP at a position gives the average, over the instances in use, of the model output with the feature of interest replaced by that position and every other feature untouched; asking for all curves returns the per-instance (ICE) values in instance order, and heterogeneity is their standard deviation. The derivative PDP satisfies the same with the model's partial derivative with respect to that feature (from the given Jacobian, or numerically). The vectorised and the looped computation give the same numbers.",
  ["inputs", "configurations"], "every data set, black box, feature, evaluation positions (outside the data range, repeated, unsorted) and computation mode",
  "The PDP tests evaluate a handful of closed-form models on one random data set with a loose tolerance on the mean curve; they never look at individual ICE curves, the derivative version with several features, the looped path, or tiny/odd shapes.",
  [PD], [("pdp_1d_vectorized / pdp_1d_non_vectorized", PD), ("PDPBase.eval", PD)], ["PDP.eval", "DerPDP.eval", "return_all"])
p("C02", "ALE curve and heterogeneity equal the accumulated local effects definition",
  "For a fitted ALE, the value at a position is the sum, over the bins to its left, of the bin's mean local effect times its width plus the covered part of its own bin; the local effect of an instance is the difference of the model output between the right and the left edge of the instance's own bin divided by that bin's width, and only the feature of interest is changed. Bins without instances take the value interpolated between their neighbours, positions outside the first or last edge take the value at that edge, and the heterogeneity is the same accumulation of the per-bin standard deviations.",
  ["inputs", "configurations"], "every data set, black box, feature, number of bins (equal width or one per distinct value) and evaluation position",
  "Tests compare smooth closed forms at a 1e-1/1e-2 tolerance with one bin layout; empty bins, instances on a bin edge, unequal (categorical) bins and positions beyond the limits are never exercised.",
  [A, U], [("compute_local_effects", U), ("compute_ale_params / compute_accumulated_effect", U), ("ALE._fit_feature", A)], ["ALE.fit", "ALE.eval"])
p("C03", "RHALE curve and heterogeneity equal their definition from instance derivatives",
  "For a fitted RHALE the curve and heterogeneity are the accumulation of the per-bin mean and standard deviation of the instances' own partial derivatives with respect to the feature, over the bins chosen by the requested binning method. The derivatives are the given per-instance effects if any, otherwise the given Jacobian evaluated on the data, otherwise a numerical one; each instance keeps its own derivative whatever subset of instances is in use.",
  ["inputs", "configurations"], "every data set, source of derivatives, feature, binning method and evaluation position",
  "Tests use smooth models with analytic Jacobians at loose tolerance; misalignment between instances and effects, or wrong bin membership of edge points, shifts values by less than that.",
  [A, U], [("RHALE._fit_feature / compile", A), ("compute_jacobian_numerically", U), ("compute_bin_effect / compute_bin_variance", U)], ["RHALE.fit", "RHALE.eval"])
p("C04", "SHAP-DP curve is the spline through exact Shapley values",
  "The SHAP dependence curve of a feature is the smoothing spline fitted to the pairs (feature value, Shapley value) of all instances in use, where an instance's Shapley value is the weighted average over all coalitions of the other features with the data in use as background. The heterogeneity curve is the spline fitted to the absolute residuals.",
  ["inputs", "configurations"], "every data set (within the exact-explainer range), black box and feature",
  "The SHAP tests check one additive and one interaction model at coarse tolerance on random data, so pairing an instance with another's Shapley value, or the wrong feature's column, can pass.",
  [S], [("ShapDP._fit_feature", S)], ["ShapDP.eval", "ShapDP.plot"])
p("C05", "Centering shifts a curve by a constant and does what its name says",
  "For every method, a centred curve differs from the uncentred one by one constant (for ICE curves one constant per instance), chosen so that with zero_start the curve is zero at the start of the feature's axis and with zero_integral its mean over the axis is zero; True means zero_integral. Heterogeneity of ALE, RHALE and SHAP does not depend on centering, and no centred evaluation of one feature affects another feature.",
  ["inputs", "configurations"], "every method, feature, centering option given at fit and at evaluation, number of centering points and data set",
  "Tests use one centering option per method at evaluation on features fitted with the same option and check smooth curves approximately.",
  [A, PD, S, G, "effector/utils_integrate.py"], [("_compute_norm_const", A), ("PDPBase._fit_feature", PD), ("GlobalEffectBase.refit", G), ("mean_1d_linspace", "effector/utils_integrate.py")], ["eval(centering=...)"])
p("C06", "Bins cover the axis, are ordered, and hold the required number of instances",
  "Whatever binning method and parameters are requested, the bin edges returned are strictly increasing and cover every instance: they start and end at the axis limits, or, when the feature has at most the configured number of distinct values, form one bin around each value with edges half-way between neighbours. Every bin contains at least the requested minimum number of instances (an instance on an interior edge counts once), and binning is refused exactly when the method cannot meet that minimum or the feature is constant.",
  ["inputs", "configurations"], "every feature column, axis limits, binning method and parameters (number of bins, minimum points, categorical limit, discount)",
  "The binning tests use continuous random data where no instance lies on an edge and mostly check examples in which the answer is known in advance; ties, few distinct values and tight minimum counts are combinatorial.",
  [BS, BM], [("BinBase._bin_valid / _is_categorical / _none_valid_binning / _only_one_bin_possible", BS), ("find_limits", BM)], ["binning_methods.find_limits", "fit raising on impossible binning"])
p("C07", "Dynamic-programming bins are optimal and greedy bins follow the merge rule",
  "Dynamic-programming binning returns, among all partitions of the axis that merge the equal-width candidate cells into bins holding at least the required (and at least one) instance, one of minimal total cost, the cost of a bin being the variance of its local effects times its width times one minus the discount times its share of instances. Greedy binning returns exactly the bins obtained by scanning the candidate cells from left to right and closing a bin only when both it and its extension are large enough and extending would raise the cost (an empty candidate cell is closed as it is), the last bin being merged to the left when too small.",
  ["inputs", "configurations"], "every column, local effects, grid resolution, minimum points and discount",
  "Two hand-made piecewise-constant examples are tested; optimality quantifies over all 2^(K-1) partitions of all data sets.",
  [BS], [("DP.find", BS), ("DP._argmatrix_to_limits", BS), ("Greedy.find", BS), ("BinBase._bin_cost", BS)], ["binning_methods.find_limits"])
p("C08", "Global effects answer independently of the history of earlier calls",
  "What evaluating or plotting a global effect returns for a feature depends only on the data, the model, the constructor options and the most recent explicit fit of that feature (defaults if none): evaluations, plots and fits of any features in any order, with any centering, in this or another object, never change it. In particular the binning method chosen by the user in fit survives a later evaluation with another centering.",
  ["histories"], "every sequence of fit, eval and plot calls over all features and centerings on one or two objects",
  "Tests call fit once and eval once or twice per object; the guarantee is over all call orders.",
  [G, A, PD, S], [("refit", G), ("_fit_loop", A), ("PDPBase.fit/_fit_feature", PD), ("ShapDP.fit/_fit_feature", S)], ["eval", "plot"])
p("C09", "Using a subset of instances equals explaining that subset of distinct rows",
  "With a limit on the number of instances smaller than the data, every method explains exactly that many distinct rows of the data - the results equal those obtained by passing just those rows (with their own effects) - and with 'all', or a limit not smaller than the data, it explains every row. (What a regional effect derives from the data before selecting - default axis limits and feature types - is derived from all rows.)",
  ["inputs", "configurations", "fault_sequences"], "every outcome of the random selection, every method and every requested number of instances",
  "The selection is random; tests never look at which rows are used, and mostly use every row.",
  [H, G, A, S, RE], [("prep_nof_instances", H), ("RHALE.__init__", A), ("ShapDP.__init__", S), ("RegionalEffectBase.__init__", RE)], ["eval", "get_node_info"])
p("C10", "Axis limits restrict instances for the plotted feature only",
  "With user-given axis limits, a feature's effect is computed from exactly the instances whose value of that feature lies within its limits (ends included), curves are laid out over those limits, and the limits of one feature never change which instances are used for another.",
  ["inputs", "configurations"], "every method, feature, data set and axis limits (tighter, wider, touching data values)",
  "Tests use axis limits as wide as the data.",
  [G, A, PD, S, H], [("_fit_feature filtering", A), ("_fit_feature filtering", PD), ("drop_points_outside_axis_limits", H)], ["eval", "plot"])
p("C11", "Region trees partition the instances and describe them truthfully",
  "Every node of a fitted region tree holds exactly the instances of its parent that satisfy the condition in its name, each with its own effects; the two children of a node are disjoint and together make up the parent, and the reported counts and weights are the actual ones. The root holds all instances in use, and node ids are consecutive from 0.",
  ["inputs", "configurations", "histories"], "every data set, feature, split type (numerical or categorical, value exactly at the split point), depth and method",
  "Regional tests check the chosen split and final curves on one generated data set at depth 1; they never inspect the per-node instances and effects at depth 2 or with instances on the split point.",
  [PT, RE], [("Regions.split_dataset / splits_to_tree", PT), ("RegionalEffectBase.get_node_info", RE)], ["get_node_info", "tree nodes"])
p("C12", "Splits chosen are the best candidates and pruning follows the thresholds",
  "At each level the split applied is one whose size-weighted drop in heterogeneity is maximal among all candidate positions of all candidate conditioning features (interval mid-points of the requested number of equal cells for numerical features, every value for categorical ones), the heterogeneity of a region being the one the corresponding global method defines, and regions below the minimum size counting as maximally heterogeneous. Splitting stops at the requested depth or as soon as some region is below the minimum size, features declared categorical are only split on request, and the kept levels are the longest prefix whose relative heterogeneity drop exceeds the threshold, none if the initial heterogeneity is already small.",
  ["inputs", "configurations"], "every data set, method, threshold, depth, number of candidate positions, minimum region size and candidate features",
  "Tests have one obvious split by construction; a wrong weighting, threshold comparison or candidate list still finds it.",
  [PT, RP, RA, RS], [("Regions.search_all_splits / single_level_splits / choose_important_splits", PT), ("_create_heterogeneity_function", RA)], ["tree nodes", "show_partitioning"])
p("C13", "A region's effect is the global effect of exactly that region's instances",
  "Evaluating or plotting a node of a regional effect gives the same numbers as the corresponding global method applied to the node's instances (all of them, with their own effects), with the binning options the regional effect was fitted with and the centering asked for. The same method is used for evaluation and for plotting.",
  ["inputs", "configurations"], "every regional method, node, centering and binning method",
  "Regional tests compare smooth limits at coarse tolerance, on regions where subsampling, the wrong bins or the wrong effects are invisible.",
  [RE, RA], [("RegionalEffectBase.eval / plot / _create_fe_object", RE), ("RegionalRHALE.plot / RegionalALE.plot", RA)], ["RegionalX.eval", "RegionalX.plot"])
p("C14", "Regional effects answer independently of the history of earlier calls",
  "What a regional effect reports (tree, node instances and name, evaluation, plot, printed partitioning) depends only on its inputs and the most recent fit of that feature: no order of fit, eval, plot (with or without axis rescaling), printing or fitting other features changes it, and refitting replaces everything derived from the previous fit.",
  ["histories"], "every sequence of fit, eval, plot, show and describe calls over the features",
  "Tests call fit once followed by one evaluation per node.",
  [RE, RA, PT], [("tree_full / tree_pruned / *_scaled state", RE), ("RegionalEffectBase.refit / get_node_info", RE)], ["eval", "plot", "get_node_info", "show_partitioning"])
p("C15", "Caller's inputs are never modified, and their storage does not matter",
  "No call modifies the data, effects, axis limits, evaluation points, name lists, binning objects or scaling dictionaries the caller passed, nor anything it returned earlier; conversely, whatever the caller later does to its own objects (or to arrays it got back) changes no later answer. Results are the same for integer and floating-point storage of the same values, for any memory layout, for read-only arrays, and for models that return integers, views of their argument or arrays of their own.",
  ["inputs", "histories"], "every public method and argument, every dtype/layout of the same values",
  "Tests pass fresh float arrays and never look at them again.",
  [U, PD, A, G, RE], [("compute_local_effects", U), ("pdp_1d_*", PD), ("compute_jacobian_numerically", U), ("GlobalEffectBase.__init__", G)], ["arguments after the call", "eval"])
p("C16", "Effects respect the symmetries of the problem",
  "Reordering the rows leaves every curve unchanged (ICE curves are reordered alike); permuting the columns consistently in data and model permutes the effects; expressing a feature in other units (x -> a x + b, a > 0) moves the curve along the axis without changing its values; adding a constant to the model output shifts only uncentred PDPs, and multiplying it scales curves and heterogeneity. Regional trees are the same trees in the new terms (up to candidate positions that divide the instances alike), and bins the same bins. (Numerical derivatives have an absolute step and are excepted from changes of units, SHAP-DP's smoothing spline an absolute scale and is excepted from scaling the output.)",
  ["inputs"], "every data set, model, permutation and affine change of units, for all methods",
  "Each test looks at one data set in one set of units; a metamorphic relation ranges over pairs of inputs.",
  [A, PD, S, U, BS, PT], [("bin assignment", U), ("BinBase", BS), ("pdp_1d_*", PD)], ["eval", "find_limits"])
p("C17", "Plots draw what evaluation returns, in the requested units",
  "The curve drawn by a plot is the evaluated curve over the whole axis, in the units given by the scaling dictionaries (x*std+mean on each axis; slopes by the ratio of the scales, without offset), with bands, bars, ICE curves and scattered SHAP values that are the evaluated heterogeneity, bin effects, individual curves and SHAP values under the same scaling. Any combination of the documented plot options is accepted, and titles, axis labels, limits and the average-output line are the requested ones. The picture of a binning shows the effects against the feature, and the bin edges.",
  ["inputs", "configurations"], "every method and every combination of heterogeneity, centering, scaling, limits and label options",
  "The tests never draw a plot, or do not look at what is drawn.",
  [V, A, PD, S], [("ale_plot / plot_pdp_ice / plot_shap", V), ("plot methods", PD), ("prep_avg_output", H)], ["matplotlib artists"])
p("C18", "Printed partitioning reports state the numbers of the tree",
  "The printed partition tree, level statistics and sub-region descriptions list exactly the nodes of the full or pruned tree asked for, with their names, heterogeneity, instance counts, weights, split positions (rescaled if asked) and heterogeneity drops as they are in the tree; a node printed by itself states its own name, parent, level, condition and numbers. Printing works for every fitted feature, including unsplit and perfectly homogeneous ones.",
  ["inputs", "configurations"], "every fitted regional effect, feature selection, full/important and rescaling option",
  "No test reads the printed text.",
  [RE, PT], [("show_partitioning / describe_subregions", RE), ("Tree.show_full_tree / show_level_stats", PT)], ["stdout"])
p("C19", "Additive models get exact effects, no heterogeneity and no regions",
  "When the model is a sum of functions of single features, every method's curve for a feature equals that feature's own function up to a constant (derivative PDP: its derivative; ALE exactly at bin edges; RHALE when the function is linear), centred ICE curves coincide, ALE's heterogeneity is zero wherever all bins hold at least two instances, and no regional method using centred effects reports a sub-region.",
  ["inputs", "configurations"], "every additive model, data set (with any dependence between features), feature and method",
  "Tests check this on one or two closed forms with independent features.",
  [A, PD, S, RP, RA, PT], [("all effect definitions", A), ("choose_important_splits", PT)], ["eval", "tree"])
p("C20", "H-index and REPID interaction scores equal their definitions",
  "The pairwise and one-versus-rest H-indices are the normalised mean squared differences between centred joint and single-feature partial dependences over the data in use (symmetric, zero for additive models), and the REPID score is the mean deviation of ICE curves started at zero. Scores do not depend on the order in which they were requested or on whether something was plotted before.",
  ["inputs", "histories"], "every data set, model, feature pair and order of requests",
  "There is no test for the interaction measures at all.",
  [I, PD], [("HIndex.eval_pairwise / eval_one_vs_all", I), ("REPID.eval_one_vs_all", I), ("pdp_nd_vectorized", PD)], ["HIndex", "REPID"])
p("C21", "The region data transformer places each value in exactly its region's column",
  "Transforming data with the splits found for each feature yields, for every feature, one column per region in the documented order, in which each row has its value in the one column whose (named) condition it satisfies and zero elsewhere; features without splits are copied unchanged.",
  ["inputs", "configurations"], "every data set and every combination of numerical and categorical splits",
  "The transformer has no test.",
  [PT], [("DataTransformer.transform", PT)], ["DataTransformer.transform", "new_names"])
p("C22", "Documented options are accepted and anything else is refused",
  "Every documented value of feature selection, binning method, centering, heterogeneity and number of instances is accepted by every call that documents it and selects exactly the documented behaviour (for global effects, binning names mean the default binning of that kind; a single index means the same as a one-element list, 'all' every feature, True for centering the same as 'zero_integral'). Leaving an option out means its documented default. Values that no method documents and impossible requests (features that are not features of the data, fewer bins or features than there must be, a method's binning that it cannot use) are refused with an error, leaving the effect's earlier answers intact.",
  ["configurations", "histories"], "every call and option value",
  "Tests use one value per option.",
  [H, A, BM, PD, S, RA], [("prep_* helpers", H), ("RHALE.fit / ALE.fit assertions", A), ("find_limits", BM), ("prep_binning_method", RA)], ["fit", "eval", "plot"])
p("C23", "The black box is only asked about points the method defines",
  "Every point at which the model (or Jacobian) is queried has the right shape and is an instance with only the feature of interest replaced: for PDP by an evaluation or centering position, for ALE by an edge of the bin the instance lies in, and for RHALE the unchanged instances (or their numerical-derivative neighbours), never when effects were supplied; SHAP-DP and the H-index only mix the features of two instances. Every instance in use is queried, and the model is never asked about points outside the bins.",
  ["inputs", "configurations"], "every method, data set and configuration, over all model calls made",
  "Tests only look at outputs; a method that queries off-distribution points (the very reason to prefer ALE/RHALE) gives plausible curves.",
  [PD, U, A], [("pdp_1d_*", PD), ("compute_local_effects", U), ("RHALE.compile", A)], ["arguments of model calls"])
p("C24", "A failing model leaves no trace",
  "When the model or its Jacobian fails (with an error or an interrupt) at any of its calls during fit, eval, plot or a report, that very failure reaches the caller, and afterwards every feature answers either completely as before the call or completely as after the call would have succeeded - never from a mixture of old and new bins, centering constants, trees or options. Asking again then works and gives the ordinary answer. The same holds for H-index and REPID requests.",
  ["fault_sequences", "histories"], "every call of every method after every short history, failing at every one of its model calls",
  "No test has a model that fails; which statement a failure interrupts is a fault point that only systematic injection reaches.",
  [G, A, PD, S, RE, RP, RA, RS, I, H], [("fit / _fit_loop / refit", G), ("_compute_norm_const", A), ("heterogeneity functions and FailureGuard", H), ("HIndex / REPID caches", I)], ["exceptions", "eval", "plot", "get_node_info"])
p("C25", "Explanations running at the same time do not disturb each other",
  "The library keeps no state outside its objects: explanations computed in different threads on different objects, evaluations of one fitted object (with the centering it was fitted with) from two threads, and explanations which the model itself computes while it is being explained, all give exactly what they give when run alone.",
  ["schedules"], "every preemption of one computation by another, at any line of the library, and every nesting at a model call",
  "Tests are sequential; interference needs a switch at one particular line.",
  [U, A, PD, BS, PT, H, I, RE], [("everything at module level", U), ("mutable default arguments and class attributes", BS), ("refit", G)], ["eval", "fit", "tree", "find_limits"])
p("C26", "The documented building blocks do what they document",
  "The functions of effector.utils, and pdp_1d/pdp_nd of effector.global_effect_pdp, follow their documentation for every input: an instance belongs to the bin it lies in, bins being closed on the left and the last one on both sides; bin effects and variances are means and (population) variances of the bin's effects, missing (NaN) where there are no (for variances fewer than two) instances; gaps are filled on the line between their neighbours; accumulated effects add effect times (optionally squared) width up to the position; local effects are differences between the edges of the instance's bin, refused for instances outside the limits; numerical Jacobians are forward differences with the given step; a feature is categorical if it has fewer distinct values than the limit. The partial-dependence functions return, at every position and for one or several features in any order, mean, standard deviation and standard error over the instances, in both ways of computing them. No argument is modified.",
  ["inputs"], "every list of limits and every small set of instances, effects and positions",
  "These functions are only exercised indirectly, in the configurations the effect methods happen to use.",
  [U], [("compute_bin_effect / compute_bin_variance / fill_nans", U), ("compute_accumulated_effect", U), ("get_feature_types", U)], ["effector.utils"])
p("C27", "Explaining leaves the rest of the process as it was",
  "No call changes anything outside the object it is made on: NumPy's error handling, print options and random generator (it advances only where a random subset has to be drawn, and from the same state the same calls give the same answers), warning filters, matplotlib's settings and backend, the caller's figures and current axes (a plot opens figures of its own and draws in them only; every other call opens, closes and changes none), logging configuration, environment, working directory, signal handlers, streams, recursion limit, locale. No file is written, no process or thread is left behind, no connection is made.",
  ["configurations", "histories"], "every public operation, alone and after every other one, in a process with default and unusual settings",
  "Tests look at the numbers returned, in a process with default settings that they share.",
  [G, I, V, H, RE], [("logging and plots of HIndex / REPID", I), ("ale_plot / plot_pdp_ice / plot_shap", V), ("prep_nof_instances", H)], ["process state", "audit events"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
