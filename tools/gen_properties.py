#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the statements)."""
import json, os
P = []
HIST1, HIST2, AH, HU = ["templatefitter/histograms/" + f for f in ("hist1d.py", "hist2d.py", "abstract_hist.py", "hist_utils.py")]
AT, T1, T2, CH, MC = ["templatefitter/templates/" + f for f in ("abstract_template.py", "template1d.py", "template2d.py", "channel.py", "multi_channel_template.py")]
UT, MI, FI, TS, ST, NL = ["templatefitter/" + f for f in ("utility.py", "minimizer.py", "fitter.py", "toy_study.py", "stats.py", "nll.py")]
HL, TL = ["templatefitter/" + f for f in ("histogram_legacy.py", "templates_legacy.py")]


def p(id, title, statement, over, text, why, files, mech, observe=(), state=()):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=list(over), text=text), why_tests_cant=why,
                  anchors=dict(files=list(files),
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=list(observe), hook_needed=None)))


p("H01", "1D histogram filling accounts for every entry exactly once",
  "After any sequence of fills of a one-dimensional histogram, each bin's count is the sum of the weights of exactly the entries whose value lies in that bin (lower edge inclusive, upper edge exclusive, the last bin also including its upper edge), its squared error is the sum of the squared weights of the same entries, and entries outside the range contribute nothing. Entries given without weights count 1.0 each. The result depends only on the (value, weight) pairs, not on their order or on how they were split over the constructor and fill calls, and the caller's arrays are not modified.",
  ["inputs", "histories"], "all real values and weights (positive, zero, negative), uniform and explicit bin edges, all splits into successive fills",
  "Tests fill one fixed iris sample (all inside or clearly outside) with positive weights; bin membership at edges, negative weights, squared errors and repeated fills are not pinned down for arbitrary values.",
  [HIST1, AH], [("weighted binned sum of w and w**2, accumulated with +=", HIST1 + " fill")], ["Hist1d.bin_counts", "Hist1d.bin_errors", "Hist1d.bin_errors_sq"])
p("H02", "2D histogram filling accounts for every entry exactly once",
  "After any sequence of fills of a two-dimensional histogram, cell (i, j) holds the sum of the weights of exactly the entries whose first coordinate lies in x-bin i and second coordinate in y-bin j (same edge conventions as in one dimension), its squared error holds the sum of their squared weights, and entries outside either range contribute nothing. Unweighted entries count 1.0 each; order and splitting over several fills do not matter, and the caller's arrays are not modified.",
  ["inputs", "histories"], "all real coordinate pairs and weights, non-square binnings, uniform and explicit edges, all splits into successive fills",
  "Tests use square binnings of one fixed sample, so axis mix-ups and weight handling are only sampled.",
  [HIST2, AH], [("binned_statistic_2d of w and w**2 accumulated with +=", HIST2 + " fill")], ["Hist2d.bin_counts", "Hist2d.bin_errors_sq"])
p("H03", "Histogram binning geometry is self-consistent",
  "A histogram built from a bin number and a range has that many equally wide bins spanning exactly that range, and one built from explicit increasing edges reports exactly those edges, with range equal to the first and last edge. Bin mids, bin widths, number of bins, shape and range always describe the same edges (per axis in two dimensions), and a new histogram without data is empty with all-zero counts and errors.",
  ["inputs", "configurations"], "all ranges lo<hi, all increasing edge arrays, 1D and 2D, bin numbers within the stated bound",
  "Tests check two fixed ranges with ten bins and square 2D binnings.",
  [HIST1, HIST2, AH, HU], [("linspace edges / explicit edges", HIST1 + " _init_bin_edges"), ("bin_mids, bin_widths, get_bin_range", HU)], ["bin_edges", "bin_mids", "bin_widths", "range", "shape", "num_bins", "is_empty"])
p("H04", "Histograms made from binned data report and own that data",
  "A histogram created from bin counts, edges and optional errors reports exactly those counts, edges and errors (square root of the counts when no errors are given), is not empty, and can be filled further like any other histogram. Filling it afterwards adds to the given counts and squared errors and never changes the caller's arrays.",
  ["inputs", "histories"], "all count and error arrays (integer or floating), 1D and 2D, followed by any fill",
  "Tests build from one array and only read back counts; later fills, integer counts and ownership are not exercised.",
  [HIST1, HIST2], [("from_binned_data", HIST1), ("from_binned_data", HIST2)], ["Hist1d.from_binned_data", "Hist2d.from_binned_data"])
p("H05", "2D histogram projections marginalise the right axis",
  "The x (y) projection of a two-dimensional histogram is a one-dimensional histogram on the x (y) edges whose bin i holds the sum of counts over all cells with x-index (y-index) i and whose error is the square root of the sum of the cells' squared errors. Both projections preserve the total count and total squared error and leave the original unchanged.",
  ["inputs", "configurations"], "all cell contents (including after further fills), non-square binnings with different x and y edges",
  "No test covers projections of the current Hist2d.",
  [HIST2], [("x_projection / y_projection", HIST2)], ["Hist2d.x_projection", "Hist2d.y_projection"])

p("T01", "Template shapes are normalised and scale with the yield",
  "For a template with bin counts n_i, relative uncertainties e_i and nuisance parameters t_i, the bin fractions are n_i(1+t_i e_i) divided by the sum of this expression over all bins, so they sum to one and reduce to n_i/sum(n) at zero nuisance parameters. The expected bin values are the yield parameter times these fractions in the histogram's shape, so they sum to the yield and initially reproduce the histogram; a template from an empty histogram has fractions, values and errors of exactly zero.",
  ["inputs"], "all bin counts, nuisance parameters and yields with a non-vanishing normalisation, 1D and 2D templates, including bins with zero content and fully empty templates",
  "Tests evaluate one sample at zero nuisance parameters; the empty-template test fails on the pinned commit.",
  [AT, T1, T2], [("bin_fractions", AT), ("values", AT)], ["template.fractions", "template.values"])
p("T02", "Template parameters are set, read and reset faithfully",
  "Yield and nuisance parameters set on a template, one by one or as a whole, are read back unchanged, do not affect each other or any other template, and do not alias the caller's array. Setting arrays of the wrong size is rejected with an error and leaves the parameters as they were, and a reset restores the initial state: yield equal to the total histogram content and all nuisance parameters zero.",
  ["inputs", "histories"], "all parameter values (floating or integer arrays) and all orders of set/reset operations",
  "Tests only read the initial parameters.",
  [AT], [("params / yield_param / nui_params setters, reset", AT)], ["template.params", "template.yield_param", "template.nui_params", "template.reset"])
p("T03", "Template covariance, correlation and errors stay consistent",
  "A template's total covariance always equals the diagonal of the histogram's squared errors (1e-14 for bins with none) plus every covariance matrix added so far; its correlation matrix is that covariance normalised to unit diagonal and the reported inverse is the inverse of the correlation matrix. The relative uncertainty of a bin is the square root of the covariance diagonal divided by the bin count (1e-7 for empty bins), the template errors are that times the current values, and caller matrices and the histogram are never modified; a matrix of wrong shape is rejected.",
  ["inputs", "histories"], "all histogram contents and all sequences of added positive semi-definite covariance matrices, within the bound on bins",
  "Tests add a single variation to one sample and only compare the covariance.",
  [AT, T1, UT], [("_init_errors, _add_cov_mat", AT), ("cov2corr", UT)], ["cov_mat", "cov_mats", "corr", "inv_corr_mat", "errors"])
p("T04", "Systematic variations yield the documented covariance",
  "Adding an up/down weight variation to a template (1D or 2D) adds the matrix with elements s_i d_i s_j d_j, where d_i is the mean of the absolute up and down deviations from nominal in bin i and s_i is -1 where the up variation lies below the down variation and +1 otherwise. The varied histograms are binned with the template's own bin edges, whether uniform or not, and the added matrix is symmetric with non-negative diagonal.",
  ["inputs"], "all data values, all up/down weights, uniform and non-uniform binnings, 1D and 2D",
  "One constant-weight variation with uniform bins is tested in 1D; the 2D test fails on the pinned commit, non-uniform bins are not tested.",
  [T1, T2, UT, AT], [("add_variation", T1), ("add_variation", T2), ("get_systematic_cov_mat", UT)], ["template.add_variation", "template.cov_mat", "get_systematic_cov_mat"])

p("C01", "Channel expectation is the efficiency-weighted sum of its templates",
  "For yields y_t and nuisance parameters in the channel's template order, the expected count in bin i is the sum over templates of y_t times its efficiency times the template's fraction in bin i at its own nuisance parameters. After updating the channel with these parameters each template holds exactly yield y_t times efficiency and its own nuisance parameters, and the sum of the template values equals that expectation.",
  ["inputs", "configurations"], "all yields, efficiencies, nuisance parameters and histogram contents; 1..3 templates, 1D and 2D",
  "Tests check only array shapes and a common efficiency of 0.8.",
  [CH], [("_expected_evts_per_bin, _fractions", CH), ("update_parameters", CH)], ["Channel.bin_counts_from_param_values", "Channel.update_parameters", "template.values"])
p("C02", "Channel likelihood is the documented Poisson plus Gaussian term",
  "The negative log likelihood contribution of a channel at positive expectation v_i and data n_i is the sum over bins of v_i - n_i - n_i log(v_i/n_i), where an empty data bin contributes v_i, plus one half of the sum over templates of t^T R^-1 t with the template's own nuisance parameters t and inverse correlation matrix R^-1. It is a finite scalar for every non-negative data content, in one and two dimensions.",
  ["inputs"], "all data contents (zero or positive), expectations, nuisance parameters and correlations within the bound on bins and templates",
  "Tests only check that the result is a float.",
  [CH, UT], [("nll_contribution, _gauss_term", CH), ("xlogyx", UT)], ["Channel.nll_contribution", "NegLogLikelihood.__call__"])
p("C03", "The likelihood is minimal exactly where the model matches the data",
  "The negative log likelihood is never negative for positive expectations, is zero when the expectation equals the data in every bin and all nuisance parameters vanish, and is strictly positive as soon as one bin's expectation differs from its data. Consequently, on the Asimov dataset of a model generated at vanishing nuisance parameters, no parameter point has a lower value than the generating one.",
  ["inputs"], "all data and parameter values with positive expectation, zero and positive data bins",
  "Tests never evaluate the likelihood against a known minimum.",
  [CH, MC, UT], [("nll_contribution", CH), ("xlogyx", UT)], ["NegLogLikelihood.__call__"])
p("C04", "Likelihood and expectation always reflect the current model",
  "After any history of adding templates, variations or covariances, replacing data, updating or resetting parameters and evaluating in between, the expectation and the likelihood equal those of a freshly built model with the same final content. Evaluating them has no effect on the model.",
  ["histories", "inputs"], "all interleavings (within the bound) of model changes and evaluations, all values",
  "Tests build a model once and evaluate at most once.",
  [CH, MC], [("process_indices, efficiency array, block diagonal inverse correlation", CH)], ["NegLogLikelihood.__call__", "Channel.nll_contribution"])
p("C05", "Only compatible templates and data enter a channel",
  "A channel accepts a template or data histogram exactly if it has the channel's binning: same number of bins per dimension, same range, and the same bin edges as the content already in the channel; templates of a different type or for an already present process are rejected too. A rejected call raises an error and leaves the channel unchanged, and an accepted one makes exactly that object the content used by the fit.",
  ["inputs", "histories"], "all ranges and edges (equal or different, uniform or not), bin numbers, dimensions, duplicate processes, any order of adding data and templates",
  "Tests try one wrong number of bins; ranges, edges, types and duplicates are not covered.",
  [CH, MC], [("_check_template, _check_hist, _add_template", CH)], ["Channel.add_template", "Channel.add_data", "MultiChannelTemplate.add_template", "MultiChannelTemplate.add_data"])
p("C06", "Asimov datasets equal the current expectation",
  "The Asimov dataset of a channel has, in every bin, the sum over its templates of their current values (rounded to the nearest integer on request), square-root errors, and the channel's own binning, so that it can be added as data to the same channel. Generating it changes no parameters, and later parameter changes do not change it.",
  ["inputs", "configurations"], "all template contents and parameter values, 1D and 2D, uniform and explicit edges, one or several channels",
  "Tests compare one Asimov dataset at initial parameters.",
  [CH, MC], [("generate_asimov_dataset", CH), ("generate_asimov_dataset", MC)], ["Channel.generate_asimov_dataset", "MultiChannelTemplate.generate_asimov_dataset"])
p("C07", "Toy datasets are independent Poisson draws of the expectation",
  "In a toy dataset every bin of every channel is its own Poisson draw whose mean is the sum of that channel's current template values in that bin; its error is the square root of the drawn count and its binning is the channel's own, so it can be added as data. Draws are unmodified, never shared between bins or channels, and generating them changes no model parameter.",
  ["inputs", "schedules"], "all draws the Poisson generator may return, all contents and parameters, 1D and 2D, several channels",
  "The generator is random; tests check only array shapes.",
  [CH, MC], [("generate_toy_dataset", CH), ("generate_toy_dataset", MC)], ["Channel.generate_toy_dataset", "MultiChannelTemplate.generate_toy_dataset"])
p("C08", "Post-fit bin covariance is Gaussian propagation of the fit result",
  "For a single channel whose parameter vector is in its own template order, the post-fit bin-by-bin covariance is J C J^T, with C the fit covariance and J the derivative of the expected bin counts with respect to all yields and nuisance parameters at the fit values. The reported post-fit bin uncertainty is the square root of its diagonal.",
  ["inputs"], "all fit values and covariance matrices, all template contents within the bound",
  "No test covers error propagation.",
  [CH], [("propagate_parameter_uncertainties, get_post_fit_bin_uncertainty", CH)], ["Channel.propagate_parameter_uncertainties", "Channel.get_post_fit_bin_uncertainty"])

p("M01", "Parameter names, vector layout and model agree",
  "Names, starting values and the interpretation of the fit parameter vector use one layout: first one yield per process in definition order, then for each channel and each of its templates one nuisance parameter per bin. The entry named after a process scales exactly that process in every channel containing it, and the entry named after a channel, process and bin moves exactly that template, for any number of channels, any subset of processes per channel and any order in which templates were added.",
  ["inputs", "configurations"], "all parameter vectors; all model topologies within the bound (channels, processes, per-channel subsets and orders, different bin numbers per channel)",
  "Tests check only shapes of the split parameter arrays.",
  [MC, CH], [("generate_per_channel_parameters", MC), ("process_indices", CH), ("param_names, x0", MC)], ["NegLogLikelihood.param_names", "NegLogLikelihood.x0", "NegLogLikelihood.__call__", "MultiChannelTemplate.update_parameters"])
p("M02", "Updating the model and reading it back round-trips",
  "After updating a model with a parameter vector, the nuisance parameters read back equal the given ones in the same layout, and each process yield reads back as the given value times the sum of its efficiencies over the channels containing it (hence unchanged if these sum to one). Repeating the update, or evaluating the likelihood in between, changes nothing, and later changes to the caller's vector do not reach the model.",
  ["inputs", "histories"], "all parameter vectors and efficiencies, all topologies within the bound",
  "No test reads parameters back after a multi-channel update.",
  [MC, CH, AT], [("update_parameters", MC), ("process_yields, nui_params", MC), ("update_parameters", CH)], ["MultiChannelTemplate.update_parameters", "MultiChannelTemplate.process_yields", "MultiChannelTemplate.nui_params", "NegLogLikelihood.x0"])
p("M03", "Setting and getting a process yield touches only that process",
  "Setting the yield of a process sets the yield of its template to value times efficiency in every channel containing it and changes no other parameter; getting it returns the sum over those channels. The yield error of a process is the square root of the sum of the squared template errors over those channels, a reset restores every template of every channel to its initial parameters, and an undefined process is rejected without any change.",
  ["inputs", "configurations"], "all values and efficiencies, all topologies within the bound",
  "Tests check the initial process yields only.",
  [MC, CH], [("set_yield, get_yield, process_yields, process_yield_errors, reset_parameters", MC)], ["MultiChannelTemplate.set_yield", "MultiChannelTemplate.get_yield", "MultiChannelTemplate.process_yield_errors", "MultiChannelTemplate.reset_parameters"])
p("M04", "Total likelihood is the sum over channels plus yield constraints",
  "The total negative log likelihood is the sum of all channel contributions at their share of the parameters plus, for every constrained process, half the squared deviation of its yield parameter from the constraint value in units of the constraint error. Each constrained process is counted once with its most recently given constraint, unconstrained processes contribute nothing, and a constraint on an undefined process is rejected.",
  ["inputs", "histories"], "all parameter vectors, constraint values and errors, any sequence of constraints on any processes, all topologies within the bound",
  "Constraints are not tested at all.",
  [MC], [("NegLogLikelihood.__call__", MC), ("add_gaussian_constraint_on_yield", MC)], ["NegLogLikelihood.__call__", "MultiChannelTemplate.add_gaussian_constraint_on_yield"])
p("M05", "Model building rejects undefined and duplicate pieces",
  "Defining a process twice, adding a template for an undefined channel or process or for a process already present in the channel, and adding data for an undefined channel, or incompatible data for one of several channels, all raise an error and leave processes, channels, templates, efficiencies and data as they were. Accepted definitions are kept in the order given.",
  ["histories"], "all sequences of definitions and additions within the bound",
  "Tests only build valid models.",
  [MC, CH], [("define_process, define_channel, add_template, add_data", MC)], ["MultiChannelTemplate.processes", "MultiChannelTemplate.channels"])

p("P01", "Parameter lookup by name and by index agree",
  "A parameter addressed by its name and by its integer position yields the same index, value and error, for every position and every list of distinct names; unknown names, out-of-range positions and other types are rejected with ValueError. Values and errors of the wrong length are rejected and leave the stored ones unchanged.",
  ["inputs"], "all integers as positions, all values and errors, name lists up to the bound",
  "No test covers the parameter container.",
  [UT, MI], [("id_to_index", UT), ("Parameters", MI)], ["Parameters.get_param_value", "Parameters.get_param_error", "Parameters.__getitem__", "id_to_index"])
p("P02", "Fixed parameters stay fixed in the minimisation",
  "Whatever set of parameters is fixed, by name or index and in whatever order, the minimisation handed to the backend (scipy or iminuit) holds each of them at exactly its own initial value and leaves all other parameters free. Releasing parameters frees all of them for the next minimisation.",
  ["inputs", "configurations", "histories"], "all subsets and orders of fixed parameters, all initial values and all results the backend may return under its contract",
  "No test performs a minimisation.",
  [MI], [("set_param_fixed, release_params, _create_constraints", MI)], ["ScipyMinimizer.minimize", "IMinuitMinimizer.minimize"])
p("P03", "Parameter bounds reach exactly the intended parameter",
  "A bound set on a parameter by name or index is passed to the backend for exactly that parameter, the last bound set on it wins, and parameters without bounds are unbounded, for both backends. Bounds and fixed flags survive repeated minimisations with the same minimizer.",
  ["inputs", "configurations", "histories"], "all bounds including one-sided ones, all parameters, both backends",
  "No test performs a minimisation.",
  [MI], [("set_param_bounds", MI)], ["AbstractMinimizer.set_param_bounds", "ScipyMinimizer.minimize", "IMinuitMinimizer.minimize"])
p("P04", "Minimisation results are reported in full and in parameter order",
  "After a minimisation the reported values, errors, covariance, correlation and function value are those of the backend's minimum, one entry (or row and column) per parameter in the order of the parameter names, whether or not parameters are fixed. With the scipy backend a failed minimisation raises RuntimeError and otherwise covariance is the inverse Hessian at the minimum, errors the square roots of its diagonal and correlation its normalised form; with iminuit the success flag is true only for a valid minimum with covariance, and a minimum without a covariance matrix raises RuntimeError.",
  ["inputs", "fault_sequences"], "all results, matrices and status flags the backend may return, all fixed subsets within the bound",
  "No test performs a minimisation.",
  [MI, UT], [("IMinuitMinimizer.minimize", MI), ("ScipyMinimizer.minimize", MI)], ["MinimizeResult", "Parameters.values", "Parameters.errors", "Parameters.covariance", "Parameters.correlation"])

p("F01", "A fit honours exactly the requested parameter configuration",
  "A fit starts from the model's current parameters and its current data, fixes exactly the parameters set as fixed plus all nuisance parameters if this was requested for the fit or for the fitter, and applies exactly the requested bounds and nuisance parameter limits, with the fitter's own bounds taking precedence. The returned result is the backend's result for the current likelihood.",
  ["inputs", "configurations", "histories"], "all combinations of fixed parameters, bounds, nuisance options and backends within the bound, repeated fits with changed data or model",
  "No test runs a fit.",
  [FI, MI], [("do_fit", FI), ("set_parameter_fixed, set_parameter_bounds, fix_nui_params", FI)], ["TemplateFitter.do_fit"])
p("F02", "A fit updates the model if and only if asked to",
  "After a fit with template update, the model's parameters are the fit result (template yields equal to fitted yield times efficiency, nuisance parameters as fitted), so the model's expectation equals the expectation at the fitted parameters. Without template update the model is unchanged, whatever the fit returned.",
  ["inputs", "configurations"], "all results the backend may return, all topologies within the bound",
  "No test runs a fit.",
  [FI, MC], [("do_fit update_templates", FI), ("update_parameters", MC)], ["TemplateFitter.do_fit", "template.values"])
p("F03", "Profile scan evaluates the profile likelihood at each scan point",
  "A profile scan covers equally spaced points from value minus to value plus sigma times uncertainty of the parameter; each returned profile value is the minimum of the likelihood with that parameter fixed at that point and all other fixed parameters, bounds and nuisance options exactly as in the nominal minimisation, in scan order, NaN where the minimisation failed. The returned approximation is the parabola with the fitted error around the minimum, and the nominal minimum is subtracted from both if and only if requested; the model is unchanged.",
  ["inputs", "configurations", "schedules", "fault_sequences"], "all backend results and failures at any subset of points, all completion orders of the worker pool, all configurations within the bound",
  "No test runs a profile scan.",
  [FI], [("profile, _profile_helper, _get_hesse_approx", FI)], ["TemplateFitter.profile"])
p("F04", "Significance is the root of twice the likelihood difference",
  "The significance of a process is the square root of twice the difference between the likelihood minimum with its yield fixed to zero and the nominal minimum, and zero if the nominal fit gives a negative yield. Both minimisations use the same likelihood, fixed parameters, bounds and nuisance options and differ only in that yield being fixed to zero, and the model's parameters are the same afterwards as before.",
  ["inputs", "configurations"], "all backend results, all configurations within the bound",
  "No test computes a significance.",
  [FI], [("get_significance", FI)], ["TemplateFitter.get_significance"])

p("Y01", "Toy studies record exactly one fit result per experiment",
  "A toy study of n experiments records exactly n fit results in order, each from a fit to the toy dataset generated for it, for every pattern of failing fits with fewer than the allowed number of consecutive failures; a failed fit (one that raises RuntimeError, with either backend) is retried with a new toy dataset and leaves no trace in the results. If one experiment fails the allowed number of times an error is raised and results are not available; a new study discards all earlier results and the model's parameters are never changed.",
  ["fault_sequences", "inputs", "histories"], "all patterns of fit failures within the bound, all fit results, repeated studies",
  "No test covers toy studies.",
  [TS, FI], [("do_experiments, _experiment, _reset_state, _check_state", TS)], ["ToyStudy.do_experiments", "ToyStudy.result_parameters", "ToyStudy.result_uncertainties"])
p("Y02", "Toy results and pulls belong to the requested process",
  "Results requested for a process are the fitted yields and uncertainties of that process for every experiment in order, and its pulls are (fitted yield - model yield of that process) divided by the fitted uncertainty. Requesting results before a study has finished raises an error.",
  ["inputs"], "all fit results and model yields, every process of models within the bound",
  "No test covers toy studies.",
  [TS], [("get_toy_results, get_toy_result_pulls", TS)], ["ToyStudy.get_toy_results", "ToyStudy.get_toy_result_pulls"])
p("Y03", "Linearity tests generate and fit toys at each requested yield",
  "A linearity test runs the requested number of toy experiments at each of the equally spaced yields in the given range, with the toys of each point generated from the initial model with only that process yield replaced. It returns the points and, per point, the mean and standard deviation of that process's fitted yields from that point's experiments only.",
  ["inputs", "fault_sequences"], "all ranges, draws and fit results, failing fits within the bound, any prior parameter values",
  "No test covers toy studies.",
  [TS], [("do_linearity_test", TS)], ["ToyStudy.do_linearity_test"])

p("S01", "Goodness-of-fit statistics follow their definitions",
  "The Pearson statistic is the sum of (n-v)^2/v, the likelihood-ratio statistic is 2 sum(n log(n/v) + v - n) with empty data bins contributing 2v, and the chi-square with given uncertainties u is the sum of (n-v)^2/u^2; all are finite and non-negative for positive expectations, and zero when data equals expectation. Each is returned with its value divided by the degrees of freedom and the upper-tail chi-square probability of the statistic for those degrees of freedom.",
  ["inputs"], "all non-negative data and positive expectations within the bound on bins, all positive degrees of freedom",
  "The stats module has no tests.",
  [ST], [("pearson_chi2_test, cowan_binned_likelihood_gof", ST)], ["pearson_chi2_test", "cowan_binned_likelihood_gof"])
p("U01", "Covariance and correlation conversions are inverse to each other",
  "The correlation matrix of a covariance matrix has element c_ij/sqrt(c_ii c_jj), hence unit diagonal for non-zero variances, zeros for rows of vanishing variance, and it is symmetric when the covariance is. Converting a correlation matrix and variances to a covariance is the inverse operation: applied to the correlation matrix and variances of a covariance matrix it gives that matrix back; inputs are not modified.",
  ["inputs"], "all covariance matrices within the bound on size, including vanishing variances",
  "No test covers the conversions.",
  [UT], [("cov2corr, corr2cov", UT)], ["cov2corr", "corr2cov"])
p("U02", "Splitting an array into sized pieces loses and reorders nothing",
  "Splitting a sequence into pieces of given sizes yields pieces of exactly those sizes, in order and disjoint, whose concatenation is the leading part of the sequence; a size of None yields all remaining elements and ends the splitting.",
  ["inputs"], "all contents, all size lists within the bound",
  "No test covers the helper.",
  [UT], [("array_split_into", UT)], ["array_split_into"])
p("L01", "Legacy histograms account for every entry",
  "The legacy histogram classes obey the same accounting as the current ones: per bin the sum of weights and the sum of squared weights of the entries in it (and the number of entries where provided), nothing for entries outside, accumulation over fills, projections along the right axis also after further fills, and scaling by c multiplies counts by c and squared errors by c squared. Weights of mismatched length are rejected where documented.",
  ["inputs", "histories"], "all values and weights within the bound, any sequence of fills and scalings",
  "The legacy modules have no tests.",
  [HL], [("Histogram, Hist1d, Hist2d", HL)], ["legacy Histogram", "legacy Hist1d", "legacy Hist2d"])
p("L02", "Legacy stacked-template likelihood follows its documented formula",
  "The legacy template and stacked-template classes compute fractions, values, errors and correlation matrices by the same formulas as the current ones, their parameters are set, read back and reset per template, and the legacy stacked negative log likelihood is the sum over bins of v_i - n_i - n_i log(v_i/n_i), with empty data bins contributing v_i, plus half of t^T R^-1 t with the templates' current correlation matrices, with parameter names, starting values and vector layout in agreement.",
  ["inputs", "histories"], "all contents, parameters and data within the bound",
  "The legacy modules have no tests.",
  [TL, NL, HL], [("Template, StackedTemplate", TL), ("StackedTemplateNegLogLikelihood", NL)], ["StackedTemplateNegLogLikelihood.__call__", "StackedTemplate.values", "Template.fractions"])
p("V01", "Plots show the model's own numbers",
  "Plotting a template, its projections, or a channel's stack draws each template's current values over the channel's bins, an uncertainty band centred on the (summed) values with half-width equal to the template error, the quadratic sum of the template errors, or the requested post-fit uncertainty, and the data with the data histogram's own errors. Projections sum values, and errors in quadrature, over the other axis; plotting changes no state of the model.",
  ["inputs", "configurations"], "all contents, parameters and fit results within the bound",
  "Plot calls are not tested.",
  [T1, T2, CH], [("plot_on, plot_x_projection_on, plot_y_projection_on", T2), ("plot_on", T1), ("plot_stacked_on, plot_post_fit_stacked_on", CH)], ["axes.hist, axes.bar, axes.errorbar, axes.hist2d calls"])
p("T05", "A template is a snapshot of its histogram",
  "A template represents the content its histogram had when the template was created: filling the histogram further changes none of the template's fractions, values, errors, covariance or parameters, and a reset afterwards restores the yield at creation. Several templates can be created from one histogram, each with the content at its own creation, and no operation on a template changes the histogram or another template.",
  ["histories"], "all weights and parameters and all orders of filling, creating further templates, setting and resetting",
  "Tests build each template from a finished histogram and never fill it again.",
  [AT, T1, T2], [("_init_params, _init_errors, reset", AT), ("constructors", T1)], ["template.params", "template.values", "template.errors", "template.fractions", "template.cov_mat"])
p("M06", "Reading a model is repeatable and free of side effects",
  "Evaluating the likelihood and reading starting values, names, yields and their errors, nuisance parameters, template values and errors, Asimov data or expected bin counts gives the same result every time as long as the model is not changed, whatever has been read or generated in between. What the caller does with returned vectors and datasets, e.g. modifying them in place, does not reach the model, its parameters or its data.",
  ["inputs", "histories"], "all parameters and evaluation points, all ordered pairs of reads",
  "Tests read each quantity once and do not modify what they get.",
  [MC, CH, AT], [("properties and generate_* methods", MC), ("bin_counts_from_param_values, nll_contribution", CH)], ["MultiChannelTemplate", "NegLogLikelihood", "Channel"])
p("P05", "Minimisation results are snapshots of their own minimisation",
  "A result once returned by a minimiser keeps its values, errors, covariance, correlation, function value and success flag, whatever is minimised with the same minimiser later and whatever happens to the start vector. Nothing reported for a minimisation stems from an earlier one: if no Hesse matrix is requested, errors and matrices are those of a minimiser that has never calculated them.",
  ["inputs", "histories"], "all backend results, start vectors, fixed subsets and sequences of minimisations with and without Hesse matrix, for both backends",
  "Tests minimise once per minimiser.",
  [MI], [("minimize", MI), ("Parameters, MinimizeResult", MI)], ["MinimizeResult", "minimizer.params"])
p("I01", "Separate objects do not influence each other",
  "Two models, two minimisers or two fitters used side by side, in whatever order and with whatever names in common, behave as if the other did not exist: building, updating, resetting, constraining and fitting one of them changes neither the content, parameters, constraints and likelihood of the other model nor the fixed parameters, bounds and results of the other minimiser or fitter.",
  ["histories", "configurations"], "all parameter values and all interleavings of operations on the two objects within the bound",
  "Tests use one object at a time.",
  [MC, CH, MI, FI], [("constructors", MC), ("constructors", MI), ("TemplateFitter.__init__", FI)], ["create_nll", "params", "minimize", "do_fit"])
p("B01", "Both backends are posed the same problem",
  "A fit or significance requested with the scipy and the iminuit backend starts from the same parameters, minimises the same likelihood and holds and bounds the same parameters, whatever the verbosity and the combination of nuisance parameter options. The backend is selected by its name in any case, and an unknown name is rejected.",
  ["inputs", "configurations"], "all parameters, bounds and evaluation points, all combinations of options within the bound",
  "Tests compare fit results of one sample only for their order of magnitude.",
  [MI, FI], [("minimizer_factory", MI), ("do_fit, get_significance", FI)], ["minimizer_factory", "do_fit", "get_significance"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
