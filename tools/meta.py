"""Single source for properties.jsonl and MANIFEST.json:  python3 tools/meta.py"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S, A, U = "src/SALib/sample/", "src/SALib/analyze/", "src/SALib/util/"
TECH = "symbolic execution of the real source, SMT (z3) verdict over all values within bounds"
P = []


def prop(id, title, statement, over, text, why, files, mech, tech=TECH, note="", na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over.split(), text=text, why=why,
                  files=files, mech=mech, tech=tech, note=note, na=na))


prop("C01", "Uniform scaling maps the unit cube onto the bounds, column by column",
     "Scaling unit-cube samples to uniform bounds maps every value u of column j to lower_j + u*(upper_j-lower_j), so 0 and 1 land on the "
     "bounds, order is preserved and every scaled value lies within its own column's bounds. Scaling followed by unscaling returns the "
     "original sample. Bounds whose lower end is not below the upper end are rejected before any value is produced.",
     "inputs configurations", "all samples in the unit cube, all real bounds, any number of parameters within the stated sizes",
     "the tests scale two or three fixed matrices; a wrong column, a dropped bound or an accepted degenerate interval needs other values",
     [U + "__init__.py"], [("scale/unscale and bound validation", U + "__init__.py:_scale_samples,_unscale_samples,_check_bounds")])

prop("C02", "Non-uniform scaling applies each parameter's own inverse CDF",
     "With per-parameter distributions, column j of a scaled sample is the inverse CDF of parameter j's declared distribution (uniform, "
     "log-uniform, triangular with the peak as a fraction of the range, normal, lognormal, truncated normal, Weibull) evaluated at the unit sample, "
     "whatever the other columns' distributions are. Distribution parameters outside their documented domain (non-positive scale, peak outside "
     "(0,1), empty range, non-positive log bounds, unknown name) are rejected.",
     "inputs configurations", "every assignment of distributions to columns and all distribution parameters within the stated ranges",
     "the tests check a handful of parameter tuples per distribution and one mixed problem",
     [U + "__init__.py"], [("dispatch on the distribution name", U + "__init__.py:_nonuniform_scale_samples"),
                           ("log-uniform helper", U + "__init__.py:_scale_samples/ log branch")])

prop("C03", "Saltelli/Sobol designs lay out A, AB and BA rows as documented",
     "For each base point (a, b) of the underlying sequence the design contains, in order, a, then for each parameter or group the row a with "
     "exactly that group's columns taken from b, then (with second order) the row b with that group's columns taken from a, then b; scaled to "
     "the problem's bounds. The design has N*(G+2) or N*(2G+2) rows for G parameters or groups, base points are consecutive points of "
     "the sequence after the requested skip, and negative skips are rejected.",
     "inputs configurations", "all base points, all bounds, every grouping of up to 3 parameters, second order on/off, skip values",
     "the tests compare a few designs against stored numbers; columns of groups interleaved in other ways are never produced",
     [S + "sobol.py", S + "saltelli.py", U + "util_funcs.py"],
     [("row construction", S + "sobol.py:sample"), ("legacy row construction", S + "saltelli.py:sample"),
      ("group matrix", U + "util_funcs.py:compute_groups_matrix")])

prop("C04", "Sobol indices equal the published estimators on the design's rows",
     "For any outputs of the documented design, the reported first-order index is the Saltelli 2010 estimator, the total index the Jansen "
     "estimator and the second-order index (strict upper triangle) the Saltelli 2002 estimator, each computed from the rows belonging to that "
     "parameter or group and normalised by the variance of the A and B outputs. A result vector whose length does not fit the design, or a "
     "confidence level outside (0,1), is rejected.",
     "inputs configurations", "all real outputs, sizes and groupings within bounds",
     "the tests compare with analytic values of one model up to loose tolerances at a fixed seed",
     [A + "sobol.py"], [("estimators", A + "sobol.py:first_order,total_order,second_order"),
                        ("row separation", A + "sobol.py:separate_output_values")])

prop("C05", "Sobol confidence intervals are bootstrap spreads; parallel equals serial",
     "The reported confidence of every Sobol index is the normal quantile of the confidence level times the sample standard deviation of that "
     "index recomputed on the bootstrap resamples, which are drawn with replacement from the base points and kept unaltered when asked for. "
     "Running the analysis in parallel, with any number of processors and any completion order, gives the same indices and the same table "
     "positions as the serial run. Scaling or shifting the outputs leaves normalised indices unchanged.",
     "inputs configurations schedules", "all outputs, resample draws, processor counts and completion orders within bounds",
     "the tests run one schedule and one seed and never recompute the confidence from the resamples",
     [A + "sobol.py"], [("bootstrap loop", A + "sobol.py:analyze"), ("task list and merging", A + "sobol.py:create_task_list,Si_list_to_dict")])

prop("C06", "The Sobol' sequence generator is a digital net",
     "Every block of 2^m consecutive points aligned at a multiple of 2^m has exactly one point in each of the 2^m equal cells of every "
     "dimension, the first point is the origin and all coordinates lie in [0,1). Consecutive points differ by the direction number selected by the "
     "lowest zero bit of the index, the direction numbers continue the tabulated initial ones by the documented recurrence, and requesting more points or more dimensions only extends the earlier output.",
     "inputs", "sequence lengths and dimensions within bounds",
     "the tests compare one short prefix with a table; dimension- and length-dependent errors are unsampled",
     [S + "sobol_sequence.py", S + "directions.py"],
     [("Gray-code generator", S + "sobol_sequence.py:sample,index_of_least_significant_zero_bit"), ("direction numbers", S + "directions.py")])

prop("C07", "Latin hypercube samples stratify every parameter and move groups together",
     "A Latin hypercube sample of size N has, for each ungrouped parameter, exactly one value in each of the N equal-probability strata of its "
     "range. Parameters of one group share the same ordering of strata while different groups are permuted independently. The sample has shape "
     "(N, D), is scaled to the bounds, and is a function of the seed only.",
     "inputs configurations", "all random draws (offsets and permutations), all groupings and bounds within sizes",
     "the tests use one seed; permutation errors that lose or repeat a stratum depend on the draw and on grouping",
     [S + "latin.py"], [("stratified draws and shuffles", S + "latin.py:sample")])

prop("C08", "Morris trajectories change one factor or group by delta per step, once each",
     "Every generated Morris trajectory has one more point than there are factors (groups), consecutive points differ in exactly one factor (all and only the "
     "members of one group), each factor changes exactly once per trajectory and its change is delta = levels/(2(levels-1)) of the unit range in either "
     "direction. All points lie on the level grid inside the bounds, and the design has N*(G+1) rows.",
     "inputs configurations", "all random draws of base point, direction and order, every grouping, even level counts within bounds",
     "the tests inspect particular draws and one grouping",
     [S + "morris/morris.py"], [("trajectory matrices", S + "morris/morris.py:_generate_trajectory,_generate_x_star,_generate_p_star,_compute_b_star,_compute_delta")])

prop("C09", "Morris optimal trajectories are original ones maximising dispersion",
     "When optimal trajectories are requested, the returned design consists of exactly the requested number of distinct trajectories taken unaltered from the initial "
     "sample. The brute-force strategy returns a combination whose total pairwise distance is the maximum over all combinations of that size, and each "
     "pairwise distance is the sum of Euclidean distances between the points of the two trajectories. The local strategy is greedy-optimal for "
     "its last step and returns distinct indices; invalid requests (fewer than two, not fewer than available) are rejected.",
     "inputs configurations", "all distance matrices / trajectory values within sizes, all combinations sizes",
     "the tests use one fixed 6-trajectory example",
     [S + "morris/strategy.py", S + "morris/brute.py", S + "morris/local.py", S + "morris/morris.py"],
     [("combination scan", S + "morris/brute.py:find_maximum,find_most_distant"), ("greedy search", S + "morris/local.py:find_local_maximum,sum_distances,get_max_sum_ind,add_indices"),
      ("distance", S + "morris/strategy.py:compute_distance,compute_distance_matrix,compile_output")])

prop("C10", "Morris measures are the statistics of the elementary effects",
     "For any trajectory design and outputs, the elementary effect of a factor (group) is its output change, signed along the direction the factor moved, divided by "
     "delta; mu, mu_star and sigma are the mean, mean absolute value and sample standard deviation of these effects per factor over the trajectories, "
     "and mu_star_conf is the normal quantile times the bootstrap deviation of the mean absolute effect. With groups only mu_star is defined per group; scaled effects are "
     "multiplied by std(x)/std(y).",
     "inputs configurations", "all outputs, all valid trajectories (directions, orders), groupings within bounds",
     "tests compare one stored analysis; sign and ordering errors depend on the direction drawn",
     [A + "morris.py"], [("elementary effects", A + "morris.py:_compute_elementary_effects,_get_increased_values,_get_decreased_values,_reorganize_output_matrix"),
                         ("statistics", A + "morris.py:_compute_statistical_outputs,_compute_mu_star_confidence")])

prop("C11", "FAST samples lie on the documented search curve",
     "In the eFAST design block i (N rows) drives parameter i with the highest frequency floor((N-1)/(2M)) and all others with the documented complementary frequencies, each "
     "value being 1/2 + arcsin(sin(w*s + phase))/pi on N equispaced s in [0, 2*pi) with one random phase per block, then scaled to the bounds. The design has N*D rows inside the bounds "
     "and N not above 4*M^2 is rejected.",
     "inputs configurations", "all phases, bounds, N, M, D within bounds",
     "tests check shapes, bounds at one seed and stored numbers",
     [S + "fast_sampler.py"], [("frequency assignment and curve", S + "fast_sampler.py:sample")])

prop("C12", "FAST indices are the Fourier-power ratios of each block",
     "For any outputs, the FAST first-order index of parameter i is twice the spectral power at the first M harmonics of the driving frequency over the variance of block i, and the total "
     "index is one minus twice the power below half the driving frequency over that variance, each from block i alone. Outputs whose length is not a multiple of "
     "the parameter count are rejected, and confidence values are bootstrap spreads of the same estimators.",
     "inputs configurations", "all outputs within size bounds",
     "tests compare Ishigami values at loose tolerance",
     [A + "fast.py"], [("estimators", A + "fast.py:compute_orders"), ("bootstrap", A + "fast.py:bootstrap")])

prop("C13", "RBD-FAST reorders outputs by each input and applies its bias correction",
     "RBD-FAST computes, for parameter i, the power at harmonics 1..M of the outputs reordered along the triangular (odd ranks ascending, even ranks descending) sort of input i, divided by total power, and "
     "applies the unskewing S - 2M/N*(1-S)/(1-2M/N). The result depends on each input only through the ranks of its own column and is unchanged by shifting or scaling the outputs. (Designs of at least 4M+2 samples, so that M harmonics exist.)",
     "inputs configurations", "all inputs orderings and outputs within sizes",
     "tests look at converged indices of two models only",
     [A + "rbd_fast.py"], [("permutation and spectrum", A + "rbd_fast.py:permute_outputs,compute_first_order,unskew_S1")])

prop("C14", "Finite-difference designs and DGSM use matching rows and steps",
     "A finite-difference design consists of, per base point, the base row followed by one row per parameter that differs from it only in that parameter, by the relative step and "
     "clipped to the parameter's bounds (for distributions that are limited by their first two bounds). The derivative-based measure of parameter j is the mean squared difference quotient of exactly these row pairs, with vi its mean, vi_std its spread and dgsm = "
     "vi*(range^2)/(pi^2*variance). Lengths not matching the design are rejected.",
     "inputs configurations", "all base points, steps, bounds and outputs within sizes",
     "tests use one seed and a stored result",
     [S + "finite_diff.py", A + "dgsm.py"], [("row construction", S + "finite_diff.py:sample"), ("measures", A + "dgsm.py:calc_vi_stats,calc_vi_mean,calc_dgsm")])

prop("C15", "Fractional factorial designs are orthogonal two-level folded designs",
     "The fractional factorial design has 2*2^k rows for the smallest 2^k not below the parameter count, all entries are the lower or upper bound, the second half is the first half with "
     "levels exchanged, and columns (in levels) are pairwise orthogonal. Problems whose size is not a power of two are extended with dummy parameters without changing "
     "the caller's problem.",
     "inputs configurations", "parameter counts and bounds within limits",
     "tests check D=2..4 matrices",
     [S + "ff.py"], [("Hadamard construction", S + "ff.py:generate_contrast,sample,extend_bounds")])

prop("C16", "FF main effects and interactions recover the model coefficients",
     "For any model linear in the two-level factors the fractional-factorial analysis reports, for each parameter, the contrast of outputs divided by the number of runs, i.e. the "
     "coefficient of that factor; two-factor interactions are the contrasts of the products of the factor levels, listed with the names of the pair that produced them. Adding a constant to the outputs changes no effect.",
     "inputs configurations", "all coefficients/outputs, sizes within bounds",
     "tests check one additive and one interactive example",
     [A + "ff.py"], [("contrasts", A + "ff.py:analyze,interactions")])

prop("C17", "PAWN statistics are KS distances over slices of each input",
     "For every input the PAWN analysis reports minimum, mean, median, maximum and coefficient of variation of the Kolmogorov-Smirnov distances between the unconditional output and the "
     "outputs of S equal-count slices of that input, where every sample belongs to a slice of every input. All reported statistics but the variation lie in [0,1] and are unchanged by strictly increasing transformations of the "
     "outputs, and any slice count of at least one works.",
     "inputs configurations", "all inputs/outputs orderings, slice counts within sizes",
     "tests use one seeded Ishigami example",
     [A + "pawn.py"], [("slicing and KS", A + "pawn.py:analyze")])

prop("C18", "RSA compares each bin of inputs or target against the complement",
     "Regional sensitivity splits outputs (or inputs) into the requested number of equal-count quantile bins and reports, for each input and bin, the Cramer-von Mises distance between the values inside the bin and all "
     "values outside it, leaving bins without enough (two inside, two outside) or distinct data undefined. The table has one row per bin and one column per parameter for every bin count at least two, and column j depends on input j and the "
     "outputs only.",
     "inputs configurations", "all inputs/outputs orderings, bin counts within sizes",
     "tests use a single bin count and model",
     [A + "rsa.py"], [("binning", A + "rsa.py:rsa,analyze")])

prop("C19", "Delta and its first-order companion use the documented class partition",
     "The delta measure partitions the samples into equal-probability classes of each input by rank and averages half the L1 distance between the conditional and unconditional output densities, "
     "weighted by class size; the accompanying first-order index is the variance of class means over the output variance and lies in [0,1]. Bias reduction is twice the plug-in minus the bootstrap mean, and each input's "
     "result depends on its own column and the outputs only.",
     "inputs configurations", "all inputs/outputs orderings within sizes, arbitrary density estimator",
     "tests check one converged example",
     [A + "delta.py"], [("classes and estimates", A + "delta.py:calc_delta,sobol_first,bias_reduced_delta,sobol_first_conf")])

prop("C20", "Discrepancy indices are the normalised 2-D discrepancies of each input",
     "The discrepancy analysis rescales inputs by the problem's bounds and outputs by their range into the unit square, computes the requested discrepancy of every (input, output) pair, and reports each "
     "divided by the sum over inputs, so that values sum to one in parameter order; with groups the mean over the members of each group is reported. Unknown methods and inputs out of the bounds are rejected.",
     "inputs configurations", "all inputs/outputs within sizes, arbitrary discrepancy measure",
     "tests check four methods on one sample",
     [A + "discrepancy.py"], [("rescale and normalise", A + "discrepancy.py:analyze")])

prop("C21", "A problem specification never reports results of another sample",
     "After any sequence of sampling, evaluating, setting samples or results and analysing, the stored results belong to the stored samples and the stored analysis to the stored results: replacing an earlier stage "
     "discards or refuses the later ones, set_results refuses lengths that do not match, and asking for a stage whose predecessor is missing raises an error. Method chaining with every sampler and analyser equals calling the procedural functions with the same "
     "arguments.",
     "histories inputs", "operation sequences of bounded length over symbolic samples and results",
     "tests run a few fixed chains",
     [U + "problem.py"], [("stage setters and methods", U + "problem.py:ProblemSpec.sample,evaluate,analyze,samples,results,set_samples,set_results")])

prop("C22", "Parallel and distributed evaluation and analysis keep sample order",
     "Evaluating a model in parallel or across servers calls the model on every sample row exactly once with the caller's extra arguments and stores the outputs in sample order, for any number of "
     "processors or servers, any chunking and any completion order, equal to the serial evaluation. Analysing several outputs, serially or in parallel, gives each named output the indices of its own results column.",
     "schedules inputs configurations", "completion orders, processor counts, numbers of rows, outputs within bounds",
     "tests use one processor count and whatever order the scheduler gives",
     [U + "problem.py"], [("chunking and concatenation", U + "problem.py:evaluate_parallel,evaluate_distributed,analyze_parallel"),
                          ("argument routing", U + "problem.py:_method_creator,_wrap_func")])

prop("C23", "Parameter files are read into exactly the problem they describe",
     "Reading a parameter file yields one parameter per non-empty, non-comment line, in order, with its name, two bounds as floats, group and distribution where given, for any of the accepted delimiters; a "
     "missing (absent, empty or NA) group means the parameter's own name and a missing distribution means uniform. Comments and blank lines change nothing, wherever they stand. (All rows of a file have the same columns.)",
     "inputs", "files assembled from symbolic choices of lines, delimiters, columns",
     "tests read a few fixed files",
     [U + "__init__.py", U + "util_funcs.py"], [("parsing", U + "util_funcs.py:read_param_file")])

prop("C24", "A fixed seed makes sampling and resampling reproducible",
     "For every sampler and every analyser that resamples, giving the same integer seed (including 0) and inputs yields the same result whatever random state the process is in, and the seed "
     "is actually used: random draws come from the seeded generator only.",
     "inputs histories configurations", "all prior generator states, seeds within bounds, every method",
     "tests fix the global state themselves and use one seed",
     ["src/SALib/sample", "src/SALib/analyze"], [("seed handling", S + "*.py and " + A + "*.py")])

prop("C25", "Samplers and analysers never modify the caller's arrays or problem",
     "Calling any sampler or analyser leaves the caller's problem dictionary (keys, lists and bounds), input matrix, output vector and option arguments exactly as they were, so the same objects can be reused for the "
     "next call with the same meaning. (The documented `sample_scaled` mark is exempt, and scale_samples, documented as in-place, is not a sampler.)",
     "inputs histories configurations", "all array contents, every method, configurations within bounds",
     "tests rarely look at the inputs after a call",
     ["src/SALib/sample", "src/SALib/analyze", U + "__init__.py"], [("copies before in-place work", "all analyze()/sample() entry points")])

prop("C26", "The command line interface produces what the library produces",
     "Each command-line sampler writes, and each command-line analyser reports, exactly what the corresponding library call returns for the given file, options and seed; every documented option reaches "
     "the library with its meaning and type, and options left out take the library's defaults (or the command's own documented ones: 10 resamples for delta, 1000 for dgsm and morris, second-order effects for ff). "
     "Required options that are missing are refused before anything is written.",
     "inputs configurations", "option combinations within bounds, all methods",
     "tests run a few command lines with complete options and compare text",
     ["src/SALib/scripts/salib.py", "src/SALib/sample", "src/SALib/analyze"], [("option parsing", "cli_parse/cli_action of each module")])

prop("C27", "HDMR fits and decomposes variance consistently",
     "HDMR scales each input by its own observed range and fits cubic B-splines that are non-negative and sum to the same constant everywhere (m intervals, any shift and scale of the inputs alike). The component "
     "functions are the regularised least-squares fits with at most maxiter backfitting sweeps, and for every component S is its covariance with the outputs, Sa its own variance and Sb its covariance with the other "
     "components, each over the variance of the outputs (S = Sa + Sb where the residual is uncorrelated with the component). Indices average the bootstrap subsamples (drawn without repetition, of the requested size), "
     "confidences are their spread, the total index of a parameter sums the components containing it, select counts the subsamples in which the component passes the F-test with its own number of coefficients. Terms are "
     "named by their parameters, out-of-range options are rejected, and the emulator gives every row the prediction of the analysis, whatever other rows are asked for.",
     "inputs configurations", "component values/outputs within sizes; basis for all inputs in range",
     "tests check a few converged examples",
     [A + "hdmr.py"], [("decomposition", A + "hdmr.py:ancova,_finalize,B_spline,_first_order,_second_order,_third_order,f_test,emulate")])

prop("C28", "Enhanced HDMR decomposes variance consistently for every order",
     "Enhanced HDMR works for every allowed maximum order and lists one row per component function named by its parameters. Its polynomials are orthonormal over the inputs at every order; with the extended basis the "
     "components form, of all least-squares fits, the one closest to hierarchical orthogonality (D-MORPH), without it ridge regression with at most max_iter backfitting sweeps. For every component S is its covariance with "
     "the outputs, Sa its own variance and Sb its covariance with the other components over the variance of the outputs; bootstrap averages, spreads, totals and F-test as for HDMR. The emulator averages the fits and gives "
     "every row the prediction of the analysis, whatever other rows are asked for. Missing names, bounds and num_vars are taken from the inputs, order 3 of two inputs becomes 2, and out-of-range options are rejected.",
     "inputs configurations", "component values, outputs, orders within sizes",
     "tests cover only order 2",
     [A + "enhanced_hdmr.py"], [("decomposition", A + "enhanced_hdmr.py:_ancova,_finalize,_basis_matrix,_orth_poly_coeff,_d_morph,_cost_matrix,_first_order,_second_order,_third_order,_f_test,emulate")])

prop("C29", "Tables and plots label every value with the parameter it belongs to",
     "Converting any analysis to data frames yields one row per parameter (or group, or pair), labelled with the name whose index the row holds, in the same order as the result arrays; pairs are exactly the upper "
     "triangle. Plots take labels and error bars from the same rows, and a result's plot draws each of its tables once, on its own axes, with a titled row of axes per output.",
     "inputs configurations", "all index values, groupings and sizes within bounds",
     "tests check types and a few shapes",
     [U + "results.py", A + "sobol.py", A + "morris.py", "src/SALib/plotting"], [("table construction", U + "results.py:ResultDict.to_df and per-method to_df"), ("plot data", "src/SALib/plotting/bar.py,morris.py")])

prop("C30", "Test functions compute their published formulas row by row",
     "Each bundled test function returns one value per sample row, computed by its published formula from that row alone: Ishigami with its A and B, Sobol-G with its coefficients, "
     "delta and alpha, the linear models, the Oakley-O'Hagan function and the lake recurrence, whose simulation applies it step by step and whose utility is the discounted benefit of the row. The analytic Sobol-G variances and indices follow from the coefficients and the function rejects inputs outside [0,1], shifts outside [0,1] and non-positive curvatures.",
     "inputs", "all inputs and coefficients within sizes",
     "tests evaluate one or two points",
     ["src/SALib/test_functions"], [("formulas", "src/SALib/test_functions/Ishigami.py,Sobol_G.py,linear_model_1.py,linear_model_2.py")])

prop("C31", "Groups are honoured as a partition in order of first appearance",
     "Group names are interpreted identically by every method: each parameter belongs to the group listed at its position, groups are numbered by first appearance, and naming every parameter by its own name equals having no groups. "
     "Outputs that depend on one group only are attributed to that group by design and analysis together; methods without a grouped design (PAWN, RSA, discrepancy) report the mean over the members. "
     "A single group of several parameters is rejected by every method that compares groups (Sobol designs and analysis, PAWN, RSA, discrepancy, problem specifications), and a group list of another length than the parameters by every method that uses groups.",
     "inputs configurations", "all groupings of up to 4 parameters",
     "tests use a few groupings with contiguous labels",
     [U + "util_funcs.py", U + "__init__.py", A + "pawn.py", A + "rsa.py", A + "discrepancy.py"], [("group utilities", U + "__init__.py:compute_groups_matrix,extract_group_names; " + U + "util_funcs.py:_check_groups")])


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]},
            }) + "\n")
    checks, na = [], []
    for p in P:
        if os.path.exists(os.path.join(HERE, "checks", p["id"] + ".py")) and not p["na"]:
            checks.append({
                "property": p["id"], "quick_cmd": "python3 check.py %s quick" % p["id"],
                "thorough_cmd": "python3 check.py %s thorough" % p["id"], "technique": p["tech"],
                "level": "model_checking",
                "level_note": p["note"] or "bounded symbolic execution of /repo's current source, every path's "
                "obligations decided by z3 over exact reals; bounds and stubs are in the check file and evidence"})
        else:
            na.append({"property": p["id"], "reason": p["na"] or "check not built yet"})
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump({"version": 1, "setup_cmd": "python3 check.py setup", "checks": checks,
                   "not_applicable": na}, f, indent=1)
        f.write("\n")
    bad = [p["id"] for p in P if len(p["title"]) > 80]
    print(len(checks), "checks", len(na), "not applicable", bad)


main()
