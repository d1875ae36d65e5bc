"""Regenerates /verif/properties.jsonl (kept as a script so the long texts stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or [], hook_needed=None)))
T="templatefitter/"
H1=T+"histograms/hist1d.py"; H2=T+"histograms/hist2d.py"; AH=T+"histograms/abstract_hist.py"
AT=T+"templates/abstract_template.py"; T1=T+"templates/template1d.py"; T2=T+"templates/template2d.py"
CH=T+"templates/channel.py"; MC=T+"templates/multi_channel_template.py"
FI=T+"fitter.py"; MI=T+"minimizer.py"; TO=T+"toy_study.py"; ST=T+"stats.py"; UT=T+"utility.py"
LH=T+"histogram_legacy.py"; LT=T+"templates_legacy.py"; NL=T+"nll.py"

prop("C01","1D histogram filling conserves weights exactly per bin",
 "After any sequence of fills of a one-dimensional histogram, every bin count is the sum of the weights (1 per event if no weights are given) of the events with lower edge <= value < upper edge (the last bin includes its upper edge) and every squared bin error is the sum of the squared weights of the same events; events outside the range contribute nothing. "
 "The result does not depend on how the events are split into fills, on their order, or on whether data and weights come as lists, arrays or series, for uniform and non-uniform binnings given as number of bins plus range or as edges (in any sequence type); undefined (NaN) and infinite values are in no bin. "
 "Filling never changes the caller's data, weights or edges, and the histogram keeps its edges whatever the caller does to the sequence they were given as.",
 ["inputs","histories"],"all event samples, weights (also negative, zero, integer, float32), binnings and fill sequences",
 "the tests fill one 150-event sample with a handful of uniform binnings, one fill repeated twice; error sums, splits, containers, non-uniform edges, events on edges and out of range are never compared",
 [H1,AH],[("fill sums weights and squared weights per bin",H1+":fill"),("edges from bins/range",H1+":_init_bin_edges")],
 [dict(name="bin_counts / bin_errors_sq",meaning="running sums of w and w^2",where=H1)],["Hist1d.fill","bin_counts","bin_errors_sq"])

prop("C02","2D histogram filling and axis projections conserve counts and errors",
 "After any sequence of fills of a two-dimensional histogram, each cell holds the sum of weights and the sum of squared weights of exactly the events whose x lies in its x bin and y in its y bin (half-open bins, the last one closed; events with an undefined or infinite coordinate in none), independently of splitting, ordering and container type of events, weights and edges. "
 "The x (y) projection is a one-dimensional histogram on the x (y) edges whose counts and squared errors are the sums over the other axis, reflects the current content, and does not modify the histogram.",
 ["inputs","histories"],"all 2D samples, weights, rectangular binnings (also unequal numbers of bins and non-uniform edges), and fill/projection sequences",
 "the tests use one unweighted sample on square binnings (3x3, 10x10), so a transposed axis, wrong projection edges, stale or wrong projected errors and weights pass unnoticed",
 [H2,AH],[("2D fill",H2+":fill"),("x_projection/y_projection",H2)],
 [dict(name="bin_counts / bin_errors_sq",meaning="running 2D sums of w and w^2",where=H2)],["Hist2d.fill","x_projection","y_projection"])

prop("C03","Histograms from binned content are faithful and independent; geometry",
 "A histogram built from binned content reports exactly the given counts, edges and errors (square root of the counts when no errors are given), is an independent copy (later fills do not change the arrays it was built from, and later changes of these arrays - counts, errors, edges - do not change the histogram), and is not empty. Edges may be arrays or lists. "
 "For every histogram, however built, shape, number of bins, range, bin mids and bin widths agree with its edges, errors are the square roots of the squared errors, and it is empty exactly until it is filled or built from content.",
 ["inputs","histories"],"all binned contents (integer and float counts, 1D and 2D, uniform and non-uniform edges) and later fills",
 "tests build one histogram per dimension and never fill it afterwards, never pass errors, and look at geometry for one uniform binning",
 [H1,H2,AH,T+"histograms/hist_utils.py"],[("from_binned_data",H1+", "+H2),("bin_mids, bin_widths, get_bin_range",T+"histograms/hist_utils.py")],
 None,["from_binned_data","bin_mids","bin_widths","range","shape","is_empty"])

prop("C04","Template bin fractions are normalised and follow the documented formula",
 "For every template (1D or 2D) and nuisance vector, the bin fractions are nu_i(1+theta_i*eps_i) normalised to sum one, with nu_i the template histogram's counts and eps_i the relative bin uncertainty; with zero nuisances they are the histogram's own shape. "
 "The template's values are its current yield times the fractions at its current nuisances, its errors are eps_i times its values, both in the histogram's shape; a template made from an empty histogram has fractions, values and errors equal to zero.",
 ["inputs","histories"],"all template histograms (weighted, with empty bins, 1D/2D), systematic variations, yields and nuisance vectors",
 "tests only evaluate freshly built templates at zero nuisances for one sample; no test evaluates fractions at non-zero nuisances and the empty template test fails today",
 [AT,T1,T2],[("bin_fractions",AT),("values, errors",AT)],
 [dict(name="params",meaning="yield followed by nuisances",where=AT)],["fractions","values","errors"])

prop("C05","Template covariance is the sum of everything added, and stays consistent",
 "At any time a template's covariance is the diagonal of its histogram's squared errors (1e-14 for bins with zero error) plus every covariance matrix and systematic variation added so far, in any order; an up/down variation adds the outer product of the per-bin average absolute shifts of the up and down weighted histograms (on the template's own binning), signed negative where up lies below down. "
 "The list of contributions, correlation, inverse correlation and relative errors always correspond to that total covariance (relative error 1e-7 for bins with zero content). A matrix of wrong shape is rejected without any effect, and matrices passed in are neither modified nor aliased.",
 ["inputs","histories"],"all sequences of variations and covariance matrices on 1D and 2D templates with uniform and non-uniform binning",
 "one test adds one uniform-weight variation to a uniform 1D template; the 2D test fails today, and no test checks sequences, correlation, inverse correlation, signs or non-uniform binning",
 [AT,T1,T2,UT],[("_init_errors,_add_cov_mat",AT),("add_variation, add_cov_mat",T1+", "+T2),("get_systematic_cov_mat",UT)],
 [dict(name="cov_mat, cov_mats, corr, inv_corr_mat",meaning="total and individual uncertainties",where=AT)],["cov_mat","cov_mats","corr","inv_corr_mat","errors"])

prop("C06","The likelihood equals its documented definition for every model",
 "The cost function's value at any parameter vector is the sum over channels of the Poisson term sum_i(nu_i - n_i - n_i*log(nu_i/n_i)) with nu_i = sum over the channel's processes of yield*efficiency*fraction_i, plus half the quadratic form of every template's nuisances with its inverse correlation matrix, plus (N-c)^2/(2*sigma^2) for every constrained process yield. "
 "This holds for any number of channels, of 1D and 2D binnings, processes missing in some channels, templates added in any order, efficiencies, systematic uncertainties, and constraints; a repeated constraint on the same process replaces the earlier one.",
 ["inputs","configurations"],"all models (channels x processes x binnings x efficiencies x constraints), data sets and parameter vectors",
 "one test only checks that the contribution of one channel is a scalar; no likelihood value is ever compared with a number",
 [CH,MC,UT],[("nll_contribution",CH),("NegLogLikelihood.__call__",MC),("xlogyx",UT)],
 None,["NegLogLikelihood.__call__","Channel.nll_contribution","Channel.bin_counts_from_param_values"])

prop("C07","The likelihood always reflects the current model; evaluations leave no trace",
 "Evaluating the cost function is pure: repeated evaluation - of the cost function, of the expected bin counts of a channel and of the bin fractions of a template - gives the same value and changes neither the model, the data, nor the argument. "
 "After any change of the model - templates added, systematic uncertainties added, data replaced or refilled, constraints added - every cost function of that model (created before or after the change) yields what a freshly built identical model would give. "
 "Distinct models do not influence each other, and copied or pickled models behave identically to the original.",
 ["histories","configurations"],"all interleavings of evaluations, model changes, copies, and several live models",
 "no test evaluates a likelihood twice or changes a model after evaluating it",
 [CH,MC,AT],[("nll_contribution and its caches",CH),("NegLogLikelihood",MC)],
 [dict(name="cached efficiencies, indices, inverse correlation matrices",meaning="derived data that must not go stale",where=CH)],["NegLogLikelihood.__call__"])

prop("C08","Parameter vector layout: names, start values and effects agree",
 "The i-th parameter name, the i-th start value and the i-th entry of the parameter vector refer to the same quantity: first one '<process>_yield' per process in definition order, then '<channel>_<process>_bin_<k>' for each channel in definition order, its templates in insertion order and bins in row-major order. "
 "Changing one entry changes only the expectation of the channels and templates it names, and the start values reproduce the models' current yields and nuisances, so expectations evaluated at them equal the sum of the template values whenever each template's yield is the process yield times the efficiency. "
 "Relabelling or reordering channels, processes or templates permutes the parameters but changes no likelihood value.",
 ["inputs","configurations"],"all models with arbitrary channel/process/template orders and missing processes",
 "tests check only the shapes of the split parameters for equal binnings in one order",
 [MC,CH],[("param_names, x0",MC),("generate_per_channel_parameters, process_indices",MC+", "+CH)],
 None,["NegLogLikelihood.x0","NegLogLikelihood.param_names","generate_per_channel_parameters"])

prop("C09","Yields and nuisances read back what was set, through any history",
 "After any sequence of parameter updates, yield settings, template-level settings and resets, each template's yield is the last process value set times its efficiency in that channel, or the histogram's sum of weights if reset since, and its nuisances are the last ones set (zero initially and after a reset). "
 "Setting a process yield touches only that process; reading it back returns the value set; parameter vectors of the wrong length are refused without effect; the reported total process yields and yield errors are the sums (errors in quadrature) over channels in process-definition order.",
 ["histories","inputs"],"all operation sequences on all models, with any efficiencies",
 "one test updates one channel once; no test sets yields, resets, or uses several channels with efficiencies",
 [MC,CH,AT],[("update_parameters, set_yield, get_yield, reset_parameters",MC+", "+CH),("yield_param, nui_params",AT)],
 [dict(name="template params",meaning="yield and nuisances per template",where=AT)],["process_yields","process_yield_errors","get_yield","nui_params","yield_param"])

prop("C10","Only compatible templates and data enter a model; rejections change nothing",
 "A channel accepts a template or data histogram exactly if its number of bins, range and (with respect to what the channel already holds) bin edges and dimension match; own Asimov and toy data sets are always accepted. "
 "Undefined or duplicate processes, undefined channels and incompatible histograms are rejected with an error, and the rejected operation leaves the channel's templates, efficiencies, data and likelihood as they were (data given for several channels at once are added to all of them or to none).",
 ["inputs","histories"],"all (in)compatible combinations of channels, templates and data sets, inserted at any point of a history",
 "two tests reject one histogram with a different number of bins; edges, ranges, duplicates and the state after rejection are not looked at",
 [CH,MC],[("_check_template, _check_hist, _add_template",CH),("define_process, add_template, add_data",MC)],
 None,["add_template","add_data","processes","data_bin_counts"])

prop("C11","Asimov and toy data sets represent the current expectation",
 "For any model state, each channel's Asimov data set equals the sum of its templates' current values (rounded to integers on request), with errors the square root of the counts, on the channel's binning. "
 "Toy data sets consist of independent non-negative integer Poisson draws with exactly that mean in every bin, differ between calls, are reproducible from numpy's global seed, and have errors equal to the square root of the counts. "
 "Generating data sets changes neither templates nor the stored data.",
 ["inputs","histories"],"all model states, all toys (statistically), 1D and 2D channels",
 "tests compare the Asimov set of one fresh channel and only shapes of one toy",
 [CH,MC],[("generate_asimov_dataset, generate_toy_dataset",CH+", "+MC)],None,["generate_asimov_dataset","generate_toy_dataset"])

prop("C12","A successful fit returns a true, reproducible minimum of the likelihood",
 "When a fit reports success, the reported minimum equals the likelihood evaluated at the reported parameters, is not above the likelihood at the start values or in the neighbourhood of the result over all free parameters, and the parameters are the ones of the model's names. "
 "Both minimisers, repeated fits, and equivalent models (reordered channels, processes or templates) agree on the minimum; a fit to a model's Asimov data recovers the generating yields with minimum zero even from other start values.",
 ["inputs","configurations"],"all well-posed models and data sets, both minimisers, with and without nuisance parameters free",
 "no test runs a fit",
 [FI,MI,MC],[("do_fit",FI),("IMinuitMinimizer.minimize, ScipyMinimizer.minimize",MI)],None,["TemplateFitter.do_fit","MinimizeResult"])

prop("C13","Fixed parameters and bounds are honoured by every fit",
 "Any set of parameters fixed by name or index, all nuisances fixed by argument or by switch, and any bounds set on parameters or all nuisances are honoured in every fit, significance and profile calculation with both minimisers: fixed parameters keep their start values exactly (up to solver round-off) and bounded ones stay inside their bounds, while the remaining ones are minimised. Of several bounds set for one parameter the last ones hold, by name or index. "
 "Unknown parameter names or indices are rejected, and releasing parameters of a minimiser frees all of them again.",
 ["inputs","configurations"],"all subsets of fixed and bounded parameters, both minimisers, by name and index",
 "no test fixes or bounds anything",
 [FI,MI],[("set_parameter_fixed, set_parameter_bounds, fix_nui_params",FI),("set_param_fixed, _create_constraints, release_params",MI)],
 [dict(name="fixed and bound parameter lists",meaning="constraints applied to each minimisation",where=FI+", "+MI)],["do_fit","get_significance","profile"])

prop("C14","Reported fit uncertainties are the inverse curvature at the minimum",
 "After a successful fit with uncertainties, the covariance has one row and column per parameter (zero for fixed ones), is symmetric, positive on the free parameters, and equals the inverse of the likelihood's Hessian with respect to the free parameters at the minimum; errors are the square roots of its diagonal and the correlation matrix is that covariance normalised. "
 "Both minimisers agree within numerical accuracy, and every parameter is retrievable by name and by index with the same value and error, which the printed table lists for all parameters in order.",
 ["inputs","configurations"],"all well-posed models, with arbitrary parameters fixed",
 "no test looks at a covariance of a fit",
 [MI,UT],[("covariance from Minuit / numerical Hessian",MI),("cov2corr",UT)],None,["Parameters.covariance","Parameters.errors","Parameters.correlation"])

prop("C15","Fits, scans and significances have exactly the documented side effects",
 "A fit with template update leaves every template's yield and nuisances at the fitted values (yield times efficiency) so that the model's expectation is the fitted one; a fit without update, a profile scan and a significance calculation leave all template parameters and data unchanged. "
 "A returned fit result is a snapshot: later fits with the same fitter or minimiser do not alter it, nor do they alter the start values passed in.",
 ["histories"],"all sequences of fits, scans, significances and model updates on one model",
 "no test runs a fit or compares a model before and after one",
 [FI,MI,MC],[("update_templates",FI),("MinimizeResult",MI),("get_significance",FI)],None,["template params before/after each call"])

prop("C16","Profile scans are conditional minima on the requested grid",
 "A profile scan returns the requested number of equidistant points covering the fitted value plus/minus the requested multiple of its uncertainty; each finite profile value is the minimum of the likelihood over the remaining free parameters with the scanned one held at that point (relative to the global minimum if requested), hence never below the nominal minimum, about zero at the fitted value, and independent of the number of worker processes. "
 "The accompanying parabola is (p-p_hat)^2/(2*sigma^2), offset by the minimum if that is not subtracted. A scan of a well-behaved likelihood has no missing points.",
 ["inputs","configurations","schedules"],"all models, scanned parameters, widths, point counts, worker counts and both minimisers",
 "no test runs a profile",
 [FI],[("profile, _profile_helper, _get_hesse_approx",FI)],None,["TemplateFitter.profile"])

prop("C17","Significance is the square root of twice the likelihood ratio",
 "The significance of a process is sqrt(2*(NLL_min with its yield at zero - NLL_min)), both minimised over all other free parameters under the same fixed parameters and bounds, and zero if the best-fit yield is negative. "
 "It is a finite non-negative number, does not depend on the start values or on previous calls, and agrees between the minimisers.",
 ["inputs","configurations","histories"],"all well-posed models and data sets including no, negative and strong signal",
 "no test computes a significance",
 [FI],[("get_significance",FI)],None,["TemplateFitter.get_significance"])

prop("C18","Toy studies deliver one genuine fit per experiment despite failures",
 "A toy study with n experiments yields exactly n parameter and n uncertainty vectors, each the result of fitting with fixed nuisances a fresh toy data set drawn from the model; an experiment whose fit or data generation fails is repeated with a new toy and leaves no trace in the results, and exceeding the allowed number of tries raises an error and leaves the study unfinished. "
 "Starting a study discards earlier results, results are unavailable before one is finished, results are stored without mutual aliasing, and pulls are (fitted - expected yield)/uncertainty per experiment in experiment order.",
 ["fault_sequences","histories"],"all sequences of failing and succeeding experiments, retries limits, repeated studies, processes and models",
 "no test runs a toy study",
 [TO,FI],[("do_experiments, _experiment",TO),("get_toy_results, get_toy_result_pulls, _check_state",TO)],
 [dict(name="toy results",meaning="accumulated parameters and uncertainties",where=TO)],["result_parameters","result_uncertainties","get_toy_results","get_toy_result_pulls"])

prop("C19","Linearity tests generate every point at its own yield",
 "A linearity test returns the equidistant yield points between the limits and, for each, the mean and standard deviation of the fitted yields of that process over exactly the requested number of toy experiments, generated with that process at the point's yield and all other processes at their nominal yields and zero nuisances. "
 "Points do not influence each other and the means scatter around the points according to the statistical precision.",
 ["inputs","histories","fault_sequences"],"all processes, limits, numbers of points and experiments and prior model states",
 "no test runs a linearity test",
 [TO,MC],[("do_linearity_test",TO),("set_yield, reset_parameters",MC)],None,["do_linearity_test"])

prop("C20","Post-fit bin uncertainties are Gaussian propagation of the fit covariance",
 "For any channel of a fitted model, the propagated bin covariance is J C J^T with J the derivative of that channel's expected bin counts with respect to the fit parameters and C their covariance, whatever the order of processes, channels and templates; it is symmetric with non-negative diagonal, whose square roots are the post-fit bin uncertainties. "
 "The bin counts computed from the channel's parameter values equal the sum of the templates' values after a fit with update.",
 ["inputs","configurations"],"all fitted models and channels, with and without fixed parameters",
 "no test calls the propagation",
 [CH],[("propagate_parameter_uncertainties, get_post_fit_bin_uncertainty, bin_counts_from_param_values",CH)],None,["propagate_parameter_uncertainties"])

prop("C21","Goodness-of-fit statistics and p-values are exact",
 "The Pearson statistic is sum (n-nu)^2/nu and the likelihood-ratio statistic is 2*sum(n*log(n/nu)+nu-n) with empty data bins contributing 2*nu; each is returned with its value per degree of freedom and the upper tail probability of the chi-square distribution. "
 "This holds for all bin counts and degrees of freedom: p-values lie in [0,1], decrease with the statistic, and the inputs are not modified.",
 ["inputs"],"all data and expectation arrays (also with empty data bins) and degrees of freedom from 1 to thousands",
 "no test covers the statistics module",
 [ST],[("pearson_chi2_test, cowan_binned_likelihood_gof, default_chi2_test",ST)],None,["return values"])

prop("C22","Matrix and numeric utilities satisfy their defining identities",
 "Converting a covariance to a correlation matrix gives unit diagonal and cov_ij/sqrt(cov_ii*cov_jj) (zero rows for zero variances), and converting back with the variances restores it; the covariance of an up/down variation is symmetric, rank one and positive semi-definite with the squared average shifts on the diagonal. "
 "x*log(y/x) is computed to near machine precision also for y close to x and is zero for x=0; splitting an array into sizes partitions it in order. Inputs are never modified.",
 ["inputs"],"all matrices, vectors and sizes, well and badly scaled",
 "no test covers the utility functions directly",
 [UT],[("cov2corr, corr2cov, get_systematic_cov_mat, xlogyx, array_split_into",UT)],None,["return values"])

prop("C23","Minimisers solve generic problems and keep their parameters addressable",
 "For any smooth convex objective with a known minimum, each minimiser returns that minimum, its value, and (with uncertainties) the inverse Hessian, subject to fixed parameters and bounds, in any sequence of fix, release, bound and minimise calls on one minimiser. "
 "Parameters are addressed equivalently by name and by index, unknown ones and arrays of wrong length are rejected, and an unsuccessful minimisation is never reported as success.",
 ["inputs","histories","fault_sequences"],"all convex test problems, call sequences and parameter identifiers",
 "no test minimises anything",
 [MI,UT],[("AbstractMinimizer and implementations",MI),("Parameters, id_to_index",MI+", "+UT)],None,["minimize","Parameters"])

prop("C24","Plots show exactly the model's numbers",
 "For any template or one-dimensional channel, the drawn (stacked) histogram levels equal the current template values (cumulated in insertion order), the uncertainty band spans total minus to total plus the total uncertainty in each bin, the data points show the data counts and errors, and labels name each component. "
 "Two-dimensional templates draw their values and their projections' values and quadrature-summed errors on the right axis. Plotting changes nothing in the model.",
 ["inputs","histories"],"all model states, binnings, and plot functions (pre-fit, post-fit, projections)",
 "no collected test draws anything",
 [T1,T2,CH],[("plot_on, plot_x_projection_on, plot_y_projection_on",T1+", "+T2),("plot_stacked_on, plot_post_fit_stacked_on",CH)],None,["matplotlib artists"])

prop("C25","The legacy histogram and stacked-template API keeps the same guarantees",
 "The legacy histograms (1D, 2D and equal-width container) hold per-bin sums of weights and squared weights like the current ones, also after scaling and refilling, with projections that reflect the current content. "
 "Legacy templates and stacks have normalised fractions, values equal to yield times fraction, covariances that accumulate, parameters that update and reset to the original values, Asimov/toy data sets of the stack's expectation, and a negative log likelihood equal to its documented definition also for empty data bins. Plotting them works and draws the values.",
 ["inputs","histories"],"all samples, weights, stacks, parameter vectors and operation sequences on the legacy classes",
 "no test touches the legacy modules beyond importing them",
 [LH,LT,NL],[("Histogram, Hist1d, Hist2d",LH),("Template, StackedTemplate",LT),("StackedTemplateNegLogLikelihood",NL)],None,["legacy API"])

prop("C26","The likelihood stays well-defined at its boundaries",
 "For every non-negative expectation the likelihood is a number that is never NaN and never minus infinity: empty data bins contribute the expectation only, bins with zero expectation and data give plus infinity, and bins where both are zero contribute nothing. Where fewer than zero events are expected in a bin with data the likelihood has no finite value. "
 "With zero nuisances and without constraints it is non-negative and zero exactly when the expectation equals the data; the Poisson and nuisance terms are convex in the yields and nuisance-quadratic respectively, and the precision does not degrade for large or nearly equal counts.",
 ["inputs"],"all data and expectations including empty bins, zero yields, tiny and huge counts",
 "no test evaluates a likelihood value",
 [CH,UT],[("nll_contribution",CH),("xlogyx",UT)],None,["NegLogLikelihood.__call__"])

prop("C27","Results depend on the inputs alone: processes, threads, global state",
 "Everything the library computes (templates, likelihood values, data sets for a given random seed, fit results with both minimisers, significances, goodness of fit, propagated uncertainties) is a function of the analysis alone: it does not depend on the process (fresh interpreter, hash seed, working directory, locale, time zone, what the library was used for before), is the same in forked workers and for pickled models, and threads working on separate models at once - or evaluating the likelihood of one model - do not disturb each other. "
 "Calls that do not generate random data leave numpy's and python's random state alone, and no call, successful or failing, leaves changes in process-wide state: numpy's error handling, warning filters, matplotlib's settings, environment, working directory, files, signal handlers, threads, child processes or the root logger (figures excepted).",
 ["schedules","histories","inputs"],"all interleavings of threads on separate models (and of evaluations of one), all orders of prior use, fresh and forked processes, all API calls including failing ones",
 "the tests run one call after the other in one process and never look at global state; thread switches, hash seeds and prior use cannot be sampled by single calls",
 [FI,MI,CH,MC,ST,TO,AT],[("cost function, templates and channels keep all state in the objects",CH+", "+MC),("process pool of profile",FI+":profile"),("random numbers only from numpy's generator",CH+":generate_toy_dataset")],
 None,["TemplateFitter.do_fit","NegLogLikelihood.__call__","generate_toy_dataset","generate_asimov_dataset","profile"])

prop("C28","Equivalent descriptions of an analysis give equivalent results",
 "The result of an analysis does not depend on how it is described: observables in other units, with another origin, mirrored or with exchanged axes; template weights in other units; yields and efficiencies in other units (product unchanged); two-dimensional channels unrolled into one-dimensional ones; bins rearranged together with everything attached to them; systematics summed into one covariance beforehand; processes with an efficiency of zero, and channels with neither expectation nor data, added; templates, processes and channels defined in another order or renamed; the legacy stack where it describes the same model. "
 "Each pair has equal likelihoods at corresponding parameter points, equal Asimov data, and equal minima, yields, uncertainties, nuisances, significances, post-fit bin uncertainties and goodness of fit, up to the corresponding map of the parameters.",
 ["inputs","histories"],"all models and all compositions of the listed re-descriptions",
 "tests look at one description of one analysis with loose plausibility assertions; scale-dependent tolerances, order dependence or axis mix-ups cancel in no single example",
 [CH,MC,AT,T1,T2,FI,ST,H1,H2],[("likelihood over channels",CH+":nll_contribution"),("templates' fractions and covariance",AT),("minimisation",MI),("significance and profile",FI)],
 None,["NegLogLikelihood.__call__","TemplateFitter.do_fit","get_significance","generate_asimov_dataset","get_post_fit_bin_uncertainty"])

out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for p in P: f.write(json.dumps(p,ensure_ascii=False)+"\n")
print(len(P),"properties")
