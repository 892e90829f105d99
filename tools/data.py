"""The properties: statement, anchors, and how each is decided."""

VN = "abstract interpretation of the syntax tree into guarded value terms (gated value numbering)"

P = [
    dict(id="C01", title="Analytic derivatives are the derivatives of the fitted curve",
         statement="""For every peak and baseline function that offers analytic derivatives, every parameter vector and every grid, each entry of the
         returned Jacobian is the partial derivative of the returned value with respect to that parameter. Fixed parameters get no entry, and entries
         are zero exactly outside the requested range.""",
         over=["inputs", "configurations"], quant="every parameter vector, grid or single point, range, mask of fixed parameters and function configuration",
         why="No existing test evaluates a Jacobian; a finite-difference test samples points, while a wrong branch or sign shows only for some masks, scalars or signs.",
         files=["basefunction.py", "peaks/gaussian.py", "peaks/gaussianoverr.py", "baselines/nanospherical.py", "baselines/polynomial.py"],
         mech=[("value and Jacobian of each function", "peaks/gaussian.py"), ("placing of the evaluated range", "basefunction.py")],
         technique=VN + "; symbolic differentiation of the value term and algebraic comparison with every Jacobian entry, per mask of free parameters",
         note="Exact algebra over the reals for every parameter vector; polynomial degrees -1..3 (thorough: ..4). Floating-point error is not modelled."),
    dict(id="C02", title="All parameter formats describe the same curve",
         statement="""Converting parameters from any format to any other and back gives the original canonical parameters, and every format draws the curve it
         documents (centre, FWHM or sigma, area). Peaks wider than the maximum width are rejected, and only those; unknown formats are refused, and the caller's parameters
         are never changed by a conversion.""",
         over=["inputs", "configurations"], quant="every canonical parameter vector, every pair and triple of formats, every maximum width",
         why="The existing tests do not convert parameters; the guarantee is over all real parameters and all format pairs, including those that are periodic or at the width limit.",
         files=["basefunction.py", "peaks/gaussian.py", "peaks/gaussianoverr.py", "baselines/nanospherical.py", "baselines/polynomial.py"],
         mech=[("parameter conversion of each function", "peaks/gaussian.py"), ("format defaults and validation", "basefunction.py")],
         technique=VN + "; composition of conversions and algebraic comparison with the identity, the direct conversion and the documented curve",
         note="Exact algebra over the reals on the canonical parameter range of each format; floating-point error is not modelled."),
    dict(id="C03", title="Conversion derivatives are the derivatives of the conversion",
         statement="""For every peak and baseline function and every pair of parameter formats, the derivative matrix used to convert a covariance from one format
         to another is the matrix of partial derivatives of the parameter conversion itself, at every parameter vector; parameters that a conversion leaves alone have unit
         derivative, and equal formats give the derivative matrix of no conversion.""",
         over=["inputs", "configurations"], quant="every parameter vector in the canonical range, every pair of formats, every maximum width",
         why="Covariances in other formats are used only at the end of an extraction; no test covers the derivative matrices, and an error is a number that merely looks plausible.",
         files=["basefunction.py", "peaks/gaussian.py", "peaks/gaussianoverr.py", "baselines/nanospherical.py", "baselines/polynomial.py", "baselines/arbitrary.py"],
         mech=[("conversion derivatives", "peaks/gaussian.py"), ("format defaults", "basefunction.py")],
         technique=VN + "; symbolic differentiation of the conversion term and algebraic comparison with every entry of the derivative matrix",
         note="Exact algebra over the reals inside the open canonical range of each format."),
    dict(id="C04", title="Information criteria are computed as defined",
         statement="""The statistic of a fit is chi-squared plus the penalty of its criterion for exactly the parameters being counted: 2k for AIC, 2k + 2k(k+1)/(n-k-1) for
         AICc, with n raised to the least number of points for which the criterion is defined. Negative counts are refused. Growing a model is justified exactly when the added penalty is below
         the present chi-squared and the data suffice. Chi-squared is the sum of squared error-weighted differences; Akaike weights and probabilities are the exponentials
         relative to the best fit, and their normalisation.""",
         over=["inputs"], quant="every fit, number of parameters and points, error, shift of the parameter count and set of statistics",
         why="No test evaluates a criterion; the boundary counts and shifted counts that decide when peaks are added or dropped are never exercised.",
         files=["modelevaluators/base.py", "modelevaluators/aic.py", "modelevaluators/aicc.py"],
         mech=[("AIC", "modelevaluators/aic.py"), ("AICc", "modelevaluators/aicc.py"), ("chi-squared", "modelevaluators/base.py")],
         technique=VN + "; algebraic comparison with the published formulas, per branch of the code",
         note="Exact algebra over the reals and integers; floating-point error is not modelled."),
    dict(id="C05", title="Better fits compare greater, and only comparable fits compare",
         statement="""Comparing two evaluated fits orders them by quality: with lower-is-better statistics the lower one is greater, with higher-is-better the higher one, and all six
         comparisons agree with that order. Fits that were not evaluated, or were judged by different criteria, are refused. Every criterion has its own name,
         states which sense is better, and is not evaluated when made.""",
         over=["inputs", "configurations"], quant="every pair of fits and both senses of the statistic",
         why="Peak acceptance and pruning rest on these comparisons; no test compares evaluators, and errors show only for ties or for one of the six operators.",
         files=["modelevaluators/base.py", "modelevaluators/aic.py", "modelevaluators/aicc.py"],
         mech=[("ordering", "modelevaluators/base.py"), ("criteria", "modelevaluators/aicc.py")],
         technique=VN + "; comparison of the outcome of each operator with the ordering rule, and of its refusals",
         note="Statistics are real numbers (no NaN)."),
    dict(id="C06", title="A fit minimises the error-weighted residual of its free parameters",
         statement="""A model's value is the sum of its parts. Reading its free parameters and writing them back visits the free parameters of all parts once each, in order, and leaves every fixed one as it
         was; counts of parameters agree. The residual is (data - model) / uncertainty over exactly the requested range, and row k of its derivative matrix is the derivative with respect to the k-th free
         parameter. Non-numeric parameters are refused and nothing is stored.""",
         over=["inputs", "configurations"], quant="every list of parts, every mask of free parameters, every parameter vector, data set, uncertainty and range",
         why="No test fits a model; an error in the order of rows, a range or a mask shows only with mixed masks, several parts or varying uncertainties.",
         files=["modelparts.py", "baselines/base.py", "peaks/base.py", "basefunction.py"],
         mech=[("residual and its derivative", "modelparts.py"), ("free parameters", "modelparts.py")],
         technique="small-scope abstract interpretation of the syntax tree over known lists of parts with opaque functions and data; algebraic comparison of every row and stored parameter",
         note="Lists of 1 to 3 parts of 0 to 3 parameters, all masks; data, parameters and functions are unrestricted."),
    dict(id="C07", title="A fit either stores the optimiser's solution or fails with a fit error",
         statement="""Fitting a model hands the optimiser the free parameters, the data, the uncertainties and the range it was given. It is refused before anything is stored
         when there are more free parameters than data points in the range, is a no-op without free parameters, and every failure (whatever the model's functions raise, an unsuccessful optimiser) is a
         fit error. On success the canonical form of the solution is stored, and the reported covariance is the optimiser's, scaled by the residual variance of the fitted
         points and converted to the format asked for; when the optimiser gives none the covariance is cleared.""",
         over=["inputs", "configurations", "faults"], quant="every list of parts, mask, range, data set, optimiser result and failure of a model function",
         why="The existing tests never fit; refusals, failures and singular covariances need inputs that no test supplies.",
         files=["modelparts.py", "modelcluster.py", "srmiseerrors.py"],
         mech=[("fit", "modelparts.py")],
         technique="small-scope abstract interpretation of the syntax tree with an unknown optimiser result; exits, optimiser arguments, stored parameters and covariance compared with the contract",
         note="Lists of 1 to 3 parts of up to 3 parameters, all masks; optimiser result, data and functions are unrestricted."),
    dict(id="C08", title="A covariance object reports the covariance it was given, in the format asked for",
         statement="""A covariance object accepts exactly square matrices of the size of the free or of all parameters of its model; fixed parameters have zero covariance. Values, uncertainties, covariances and
         correlations can be asked for by index or by (part, parameter), and are those of the model and matrix given last, whatever the caller does to either afterwards. Changing
         the format of the parameters turns the matrix V into G V G^T, where G holds the conversion derivatives of the selected parts and is the identity for the others and for parts that cannot be
         converted, and converts the stored values. Correlation warnings list exactly the pairs above the threshold. Asking an undefined covariance is refused.""",
         over=["inputs", "configurations", "faults"], quant="every model, mask of free parameters, matrix, pair of formats, selection of parts, threshold and failing conversion",
         why="No test touches covariances; index maps and partial matrices go wrong only for mixed masks, empty parts or several parts.",
         files=["modelcluster.py"],
         mech=[("covariance container", "modelcluster.py")],
         technique="small-scope abstract interpretation of method sequences on the covariance object, matrices evaluated entry by entry; algebraic comparison of every reported number",
         note="Models of 1 to 3 parts of up to 3 parameters, all masks; matrix entries, values and derivative matrices are unrestricted reals."),
    dict(id="C09", title="A cluster keeps a fit only when it succeeded, is no worse and is justified",
         statement="""Fitting a cluster of peaks fits its peaks to the data minus the baseline within the cluster (or peaks and baseline together to the data, when asked for and the baseline has free parameters), with the uncertainties
         and number of trials given. The result is kept, with its quality, unless the fit fails, its quality is worse than before, or, when justification is asked for, a single peak is
         left and further peaks of the smallest kind would be justified; otherwise peaks and baseline are as they were. A contingent fit happens only when the
         cluster has grown by the threshold since its last fit, or has the minimum number of points and was never fitted. Reducing the model at a point is kept only when the fit
         that follows is kept and further peaks are not justified, and otherwise nothing changes.""",
         over=["inputs", "configurations", "faults"], quant="every model of one or two peaks, baseline, criterion, outcome or failure of the optimiser, threshold and number of points",
         why="No test fits a cluster; whether a rejected fit leaves traces depends on failures and on ties that no test produces.",
         files=["modelcluster.py", "modelevaluators/base.py"],
         mech=[("fit, contingent_fit, reduce_to", "modelcluster.py")],
         technique="small-scope abstract interpretation of whole decisions against an unknown criterion, optimiser and clean-up; outcome and final state compared by case with the rule",
         note="Models of one or two peaks, four kinds of baseline; criterion, optimiser, data and parameters are unrestricted."),
    dict(id="C10", title="Scaling a peak keeps its maximum; estimated peaks have the data's height",
         statement="""Scaling a peak by a positive factor at a point multiplies its height there by that factor and leaves the position and the height of its maximum as they were. It is refused with a scaling error exactly when
         no peak of that kind, within the maximum width, does so or the factor is not positive; a refusal is never any other error and never a meaningless number. Estimating a peak from data gives a peak whose maximum has the position and the height of
         the highest datum above zero; fewer than three points above zero, or positions and heights of different lengths, are refused with an estimation error.""",
         over=["inputs"], quant="every peak, point, factor and maximum width; every data set",
         why="No test scales or estimates a peak; infeasible factors and points at the maximum give NaN or zero instead of a refusal only for special inputs.",
         files=["peaks/gaussian.py", "peaks/gaussianoverr.py"],
         mech=[("scale_at and estimate_parameters", "peaks/gaussianoverr.py")],
         technique=VN + "; the scaled parameters substituted into the documented curve and compared algebraically with the law; refusals compared with the condition of feasibility",
         note="Exact algebra over the reals; NaN inputs and floating-point error are not modelled."),
    dict(id="C11", title="Peaks are scaled, sorted, replaced and deleted only as allowed",
         statement="""Scaling a peak in a list changes its parameters to the scaled ones, or, when it has no free parameter, cannot be scaled, or would change a fixed parameter, changes nothing. Matching a list of peaks to a height scales
         every peak by height over sum; if some peaks cannot be scaled and together stay below both height and sum, the others are scaled once more, from the start, to make up the rest; it reports whether a peak was
         scaled, and a failure leaves the peaks as they were. Sorting keeps every peak and orders by the key. Replacing or deleting peaks of a cluster is refused, without effect, when one of them is not removable; otherwise exactly those peaks go, the new ones
         come, and the peaks are ordered by position.""",
         over=["inputs", "configurations", "faults"], quant="every list of peaks, mask of free parameters, pattern of removable peaks, point, height, key and failing peak function",
         why="No test scales, sorts or replaces peaks; errors show only for mixed masks, for peaks that refuse, or for unordered lists.",
         files=["peaks/base.py", "modelcluster.py"],
         mech=[("scale_at, match_at, sort", "peaks/base.py"), ("replacepeaks, deletepeak", "modelcluster.py")],
         technique="small-scope abstract interpretation of the syntax tree over known lists of peaks with an unknown peak function; result and every peak afterwards compared by case with the rule, and the state at refusals with the state before",
         note="Lists of 1 to 3 peaks with distinct keys; parameters, heights and the peak function are unrestricted."),
    dict(id="C12", title="A cluster shows its part of the data, its curve, its quality and its size",
         statement="""A cluster holds exactly the slice of the data it was made on or moved to (all the data without a slice), and is marked never to be fit when nothing in it rises above the baseline by the uncertainty.
         Its curve is baseline plus peaks, the baseline alone or nothing without them; its residual is data minus curve, and its plots show these. Its quality is what the criterion asked for, with the options asked for, gives; its parameters are
         counted with or without baseline and fixed ones, as asked. External peaks bring their own curve into the data without changing the caller's. An estimated peak is estimated from the data above the baseline. Clean-up removes exactly
         the removable peaks outside the cluster that stay below the uncertainty inside it, and peaks with meaningless parameters. A copy shows the same, and changing it does not change the original.""",
         over=["inputs", "configurations"], quant="every data set, slice, model of up to two peaks, baseline, criterion and option; every arrangement of the peaks around the cluster",
         why="No test builds a cluster; an error shows only for moved slices, missing baselines, copies changed later, or peaks outside the cluster.",
         files=["modelcluster.py"],
         mech=[("ModelCluster", "modelcluster.py")],
         technique="small-scope abstract interpretation of the syntax tree with unknown functions, data and criteria; what the cluster shows compared by case with the rule",
         note="Models of up to two peaks; functions are assumed to be evaluated point by point. Data, limits, parameters, criteria are unrestricted."),
    dict(id="C13", title="What is saved is what is loaded",
         statement="""Functions, parts of a model, clusters and extractions (plain and of a pair distribution function) come back from their saved text as they were: the same functions with the same settings, defaults and base functions, the same
         parameters (exactly), free parameters, removability and owners, slice, range, criterion, kind of extraction, kinds of peak and metadata, present or None; data, uncertainties and
         clustering threshold to six digits. Functions that were one and the same still are, and those that were not are not; base functions used only by other functions are saved with them, before them.""",
         over=["inputs", "configurations", "histories"], quant="every setting, parameter vector, data set and metadata value, for each kind of function, pattern of shared functions and of missing members",
         why="The tests save and load one extraction; a wrong index, a field lost when None, or an order of functions shows only for particular combinations.",
         files=["basefunction.py", "modelparts.py", "peaks/base.py", "baselines/base.py", "modelcluster.py", "peakextraction.py", "pdfpeakextraction.py", "baselines/fromsequence.py"],
         mech=[("writestr and factory", "basefunction.py"), ("writestr and readstr", "peakextraction.py"), ("writestr and factory", "modelcluster.py"), ("metadata", "pdfpeakextraction.py")],
         technique="abstract interpretation of writer and reader composed, on texts that are constant but for holes standing for the unknown values written; the object read back compared with the one written",
         note="Enumerated: 9 functions, parts, clusters of up to 3 peaks and 10 extractions with different members missing, on 3 data points; values unrestricted, except not-a-number. Arbitrary functions (which hold code) are not covered."),
    dict(id="C14", title="A damaged save is refused as a format error",
         statement="""Reading the text of a saved extraction or cluster in which a section heading or a field without a default is missing, a field has no = or no readable value, or a row of data
         has a number too few, too many or not a number, is refused with SrMiseDataFormatError; nothing else is raised, and such a text is never taken for a save.""",
         over=["inputs", "faults"], quant="each single damage of that kind at each line of saves whose values are unrestricted",
         why="The tests read one intact file. Each damage takes another path through the parsers, and a lenient one loads misaligned data without notice.",
         files=["basefunction.py", "peaks/base.py", "baselines/base.py", "modelcluster.py", "peakextraction.py", "pdfpeakextraction.py"],
         mech=[("readstr", "peakextraction.py"), ("factory", "modelcluster.py"), ("factory", "basefunction.py"), ("factory", "peaks/base.py")],
         technique="abstract interpretation of the readers on texts that are constant but for holes standing for unknown values, one for each damage; every outcome must be the refusal",
         note="One damage at a time, on one cluster and two extractions. What evaluating a stored value does is taken from Python's grammar."),
    dict(id="C15", title="Settings take effect whole or not at all, and have their stated defaults",
         statement="""Data of unequal lengths, unknown settings, both names of the uncertainty at once, an automatic qmax that cannot be found and a supersampling below 1 are refused, and the extraction is then as it was.
         Accepted data and settings are in force exactly; whatever is missing, or asked to be reset, gets its default: resolution pi/qmax or 4 spans over the number of points, the given uncertainties if all are positive, else 5% of the span of the data,
         one GaussianOverR, the whole range, the estimate of a given baseline function within the range, else no baseline, AIC, no peaks, qmax as reported, else as found in the data, else 0, and Nyquist sampling if it is positive. The range is every point within its limits.
         Nothing given by the caller is changed; loading a PDF data set starts afresh.""",
         over=["inputs", "configurations", "histories"], quant="all data, settings and limits; each sequence of data, settings and requests for defaults of the kinds listed",
         why="The tests set a handful of valid options; refusals halfway, reset settings, and range limits between or on points are never exercised.",
         files=["peakextraction.py", "pdfpeakextraction.py"],
         mech=[("setvars, defaultvars, setdata, getrangeslice", "peakextraction.py"), ("settings of a pair distribution function", "pdfpeakextraction.py")],
         technique="small-scope abstract interpretation of the syntax tree on arrays of unknown numbers; settings in force after each sequence compared by case with the rules, written directly",
         note="Three data points; every setting and pair of settings, all of them together, and every place of the range limits among the points. Values unrestricted. The search for qmax is assumed to give some number or fail."),
    dict(id="C16", title="Clustering takes the highest points first, by their distance from clusters",
         statement="""Clustering starts with the highest point as the first cluster. Each step takes the highest point outside all clusters: if its distance from the nearest edge of a cluster is at most the resolution, that cluster grows to it, else it makes its own,
         in its place among the clusters; the step tells which cluster and point it was, and after the last point the iteration ends. Making all clusters at once gives the same; resetting starts again. The nearest cluster of a point has its signed distance, zero inside;
         that of a coordinate is that of the nearest point. A cluster is full if no free point is next to it. Adjacent clusters are those with no free point between; combining them gives their union and leaves the others; clusters that are repeated, not contiguous or
         not adjacent are refused, unchanged. A cluster cuts out its points; its boundaries lie midway to the next points. Unequal lengths and negative resolutions are refused.""",
         over=["inputs", "histories"], quant="all coordinates, values and resolutions, for every order of the values and every arrangement of distances on up to four points (five in the thorough check)",
         why="Tests cluster one small data set; an error at a tie, an edge or a combination of groups needs its own arrangement of points.",
         files=["dataclusters.py"],
         mech=[("DataClusters", "dataclusters.py")],
         technique="small-scope abstract interpretation of the syntax tree, once for every order of values and arrangement of distances, compared with the rule, written directly",
         note="Up to four points (five in the thorough check); coordinates ascend, values differ and are finite. Coordinates, values and the resolution are otherwise unrestricted."),
    dict(id="C17", title="Joining adjacent clusters keeps their peaks and their data",
         statement="""Two clusters are joined only if they hold the very same data arrays, use one criterion, have equal baselines (or none) and one ends where the other begins; anything else is refused with ValueError. In whichever order they are given,
         the joined cluster covers both slices and has the baseline, criterion and copies of the peaks of both in ascending position, except that of two peaks exactly midway between the points that meet the second one is left out if it is removable; if both have peaks these
         are then scaled to the value midway between the points that meet. It lists the peak functions of the first and then of the second, each once. Neither original changes, nor does when the peaks or functions of the joined cluster do.""",
         over=["inputs", "histories"], quant="all data, parameters and positions, for clusters of up to two peaks each in every order, and every pair of slices from a list of eight",
         why="Tests never join clusters; a wrong border, a shared peak or a lost fixed peak needs its own arrangement.",
         files=["modelcluster.py"],
         mech=[("ModelCluster.join_adjacent", "modelcluster.py")],
         technique="small-scope abstract interpretation of the syntax tree on heaps of clusters with unknown data and parameters, once for each arrangement, compared with the rule, written directly",
         note="Five data points, up to two peaks a side (together three; four in the thorough check). Positions within a cluster ascend or not; scaling is taken as any change of free parameters."),
    dict(id="C18", title="Augmenting and pruning make the best change at each step, while it helps",
         statement="""Augmenting a model adds to it, one at a time, the peak of the other cluster whose addition gives, once everything is fitted, the best quality, as long as that beats the best so far; then the peaks are sorted and fitted once more.
         No peak of the original model, removable or not, is given up, and the other cluster does not change. Pruning looks at every removable peak: up to three neighbours on each side are fitted without it to the data less the baseline and the peaks farther away,
         whose free parameters count as parameters of the fit. The removal of best quality is made if that beats the model so far, and the whole model is fitted again. It ends when no removal is better, when all others were worse, or when no removable peak is left. Peaks that are not removable stay.
         Data, baseline and criterion stay the same. Both follow the better quality whether the criterion counts up or down, and whether fits succeed, are rejected, or drop a peak.""",
         over=["inputs", "histories"], quant="all data, parameters and fit results, for every order of the qualities of the models compared, on models of up to three peaks (pruning also up to two removable peaks among nine)",
         why="Which peaks are tried, in which order and against what data depends on every quality met before; tests run one or two fits, and never with a rejected fit, a dropped peak or a criterion where less is better.",
         files=["modelcluster.py"],
         mech=[("ModelCluster.augment", "modelcluster.py"), ("ModelCluster.prune", "modelcluster.py")],
         technique="small-scope abstract interpretation of the syntax tree with uninterpreted fits and qualities, once for each order of the qualities, compared with the greedy rule, written directly",
         note="A fit is any change of the free parameters, possibly rejected or dropping a peak. Ties are decided only for a last candidate. Models the rule never compares are taken to be better than all others."),
]

NA = [
    dict(id="N01", title="Extraction finds the peaks that are in the data",
         statement="For data drawn from a sum of resolved peaks and a baseline, extraction returns those peaks within their stated uncertainties.",
         over=["inputs"], quant="all data sets of resolved peaks with given noise", why="A statistical statement about all data sets; tests sample a few curves.",
         files=["peakextraction.py", "pdfpeakextraction.py"], mech=[("extraction", "peakextraction.py")],
         reason="The result of an iterative numerical search on runtime data; no static argument bounds it."),
    dict(id="N02", title="Numerical fits reach the least-squares optimum",
         statement="Whenever a fit is reported successful, no nearby parameters fit the data better.",
         over=["inputs"], quant="all data, start parameters and model functions", why="Tests sample a few fits.",
         files=["modelparts.py"], mech=[("fit", "modelparts.py")],
         reason="Convergence of scipy's optimiser on runtime data is outside the source; the residual and Jacobian it is given are covered by other properties."),
    dict(id="N03", title="The estimated qmax is the termination of the data",
         statement="The maximum momentum transfer estimated from a pair distribution function is the one its Fourier transform was cut at.",
         over=["inputs"], quant="all data sets", why="A statement about spectra of runtime data.",
         files=["pdfpeakextraction.py"], mech=[("qmax estimation", "pdfpeakextraction.py")],
         reason="A heuristic on the noise spectrum of runtime data; its accuracy is not a fact about the source."),
]
