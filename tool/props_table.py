# P(id, title, statement, over, quantifier text, why tests can't, files, mechanisms)
P("P01", "Regression coefficients are the locally weighted least-squares solution",
  "Fitting a basic geographically weighted regression returns, for every observation i, the coefficients (X'W_iX)^-1 X'W_iy, where W_i holds the spatial weights of all observations seen from i; predicting returns the same expression for every prediction location, with weights seen from that location. This holds for every data size, number of variables, kernel, bandwidth and metric, sequentially and with threads.",
  ["inputs", "configurations"], "all data of any size, all kernels, bandwidths, metrics, thread counts, fit and predict",
  "The tests compare four summary numbers on one data set of 100 rows within 1e-8 .. 1e-3; a wrong row, a wrong column or a size-dependent error passes.",
  [B+"GWRBasic.cpp"], [("weighted normal equations per focus", B+"GWRBasic.cpp fitBase/fitCoreSerial/fitCoreOmp/predictSerial/predictOmp")])
P("P02", "Hat-matrix quantities and diagnostics of a basic fit follow from its hat matrix",
  "With hat matrix S of the weighted fits (row i = x_i (X'W_iX)^-1 X'W_i), a basic fit reports tr(S), tr(S'S), the diagonal of (I-S)'(I-S), the coefficient standard errors, and RSS, AIC, AICc, ENP, EDF, R2 and adjusted R2 as the standard functions of them. The same holds for the sequential and the threaded mode.",
  ["inputs", "configurations"], "all data, kernels, bandwidths, metrics, thread counts",
  "Tests check a few scalars on one data set; standard errors and the q vector are never checked.",
  [B+"GWRBasic.cpp", B+"GWRBase.cpp"], [("accumulation of hat-matrix traces", B+"GWRBasic.cpp fitCoreSerial/fitCoreOmp"), ("diagnostic", B+"GWRBasic.cpp CalcDiagnostic")])
P("P03", "Bandwidth criteria of a basic regression are leave-one-out CV and AICc",
  "For any candidate bandwidth the cross-validation criterion is the residual sum of squares of fits whose own observation has weight zero, and the AIC criterion is the AICc of the fit with that bandwidth. The criterion selected by the user is the one that is evaluated, whatever the parallel mode and in whatever order the options were set.",
  ["inputs", "configurations", "histories"], "all data, candidate bandwidths, thread counts, orders of option setting",
  "Tests look at the one bandwidth selected on one data set; a criterion that is slightly wrong usually selects the same one.",
  [B+"GWRBasic.cpp"], [("criterion functions", B+"GWRBasic.cpp bandwidthSizeCriterion*"), ("criterion dispatch", B+"GWRBasic.cpp setBandwidthSelectionCriterion/setParallelType")])
P("P04", "Each kernel gives its documented weight for fixed and adaptive bandwidths",
  "A bandwidth weight maps every distance vector to the Gaussian, exponential, bisquare, tricube or boxcar function of distance over bandwidth (zero beyond the bandwidth for the last three), for a fixed bandwidth and for an adaptive one whose radius is the distance of the q-th nearest neighbour, scaled up when q exceeds the number of neighbours. Copies and setters keep kernel, size and adaptivity.",
  ["inputs", "configurations"], "all distance vectors of any length, all bandwidths, all five kernels, fixed and adaptive",
  "Tests only use some kernels, through a whole model, on one data set.",
  [I+"spatialweight/BandwidthWeight.h", B+"spatialweight/BandwidthWeight.cpp"], [("kernel table", I+"spatialweight/BandwidthWeight.h")])
P("P05", "Distances are the metric asked for, and misuse is reported",
  "The distance vector at a focus contains, for every data point, the Euclidean, great-circle, Minkowski (any order, including Manhattan and Chebyshev, with rotation) or one-dimensional distance between focus and point; maximum and minimum distance are the extremes over all foci. Asking for a focus that does not exist, or before coordinates were given, is an error and not a value.",
  ["inputs", "configurations"], "all coordinate sets, foci, orders, rotations",
  "Metrics other than the Euclidean one are not tested; extents are never tested; misuse is not tested.",
  [B+"spatialweight/CRSDistance.cpp", B+"spatialweight/MinkwoskiDistance.cpp", I+"spatialweight/MinkwoskiDistance.h", B+"spatialweight/OneDimDistance.cpp", B+"spatialweight/DMatDistance.cpp"],
  [("metric kernels", B+"spatialweight/*Distance.cpp"), ("argument checks", B+"spatialweight/*Distance.cpp distance()")])
P("P06", "A spatial weight is kernel of distance, and its copies are independent",
  "The weight vector of a spatial weight at a focus is its weighting scheme applied to its distance vector at that focus. Copying or assigning a spatial weight, a distance or a weighting scheme yields an object with the same behaviour that shares no state with the original.",
  ["inputs", "histories"], "all weights, distances, foci; any sequence of copy, assignment and modification",
  "Tests copy a spatial weight once and never modify the copy.",
  [B+"spatialweight/SpatialWeight.cpp", I+"spatialweight/SpatialWeight.h"], [("clone on copy", B+"spatialweight/SpatialWeight.cpp")])
P("P07", "Golden-section search returns the bandwidth the search rule prescribes",
  "Bandwidth selection performs the golden-section search of the criterion between its lower and upper limit, on integers for an adaptive bandwidth, and returns the better of the two final interior points; candidates whose criterion could not be computed are never recorded, and the limits come from the number of points or the extent of the distances. Cancelling ends the search.",
  ["inputs", "histories", "fault_sequences"], "all criterion functions, limits, fixed and adaptive, any point of failure or cancellation",
  "Tests run one search on one data set; the rule for unusable candidates and cancelled searches is never exercised.",
  [B+"BandwidthSelector.cpp", I+"BandwidthSelector.h"], [("golden-section loop", B+"BandwidthSelector.cpp optimize")])
P("P08", "Forward variable selection follows the greedy path and its threshold",
  "Forward selection starts from no variable and adds at each step the remaining variable whose model has the smallest criterion. Every evaluated model is recorded with its criterion, step by step and within a step from the worst to the best. The model returned is the last recorded one whose criterion is at least the threshold below that of the model recorded before it; if there is none, the full model. The search ends for every input, returns all variables when it is cancelled, and each model of a regression consists of exactly the listed columns, after the intercept if there is one.",
  ["inputs", "histories"], "all criterion functions, numbers of variables and thresholds",
  "The test uses one data set with one threshold that a step satisfies.",
  [B+"VariableForwardSelector.cpp"], [("greedy loop", B+"VariableForwardSelector.cpp optimize"), ("threshold rule", B+"VariableForwardSelector.cpp select")])
P("P09", "A candidate that cannot be evaluated gets an infinite criterion and never wins",
  "Whenever a singular system, a non-finite value or a cancellation prevents the evaluation of a bandwidth or variable criterion at any observation, the criterion reported for that candidate is the largest representable number. A partial sum is never reported as a criterion, in any model and any parallel mode.",
  ["inputs", "fault_sequences", "schedules", "crash_points"], "any observation at which the failure happens, any model, sequential and threaded",
  "On the test data nothing is singular and nobody cancels.",
  [B+"GWRBasic.cpp", B+"GTWR.cpp", B+"GWRMultiscale.cpp", B+"GWDR.cpp", B+"GWRGeneralized.cpp", B+"GWRLocalCollinearity.cpp", B+"GWDA.cpp", B+"GWPCA.cpp", B+"GWRScalable.cpp", B+"GWSS.cpp"],
  [("status and finiteness checks in criterion functions", B+"*.cpp bandwidthSizeCriterion*/indepVarsSelectionCriterion*")])
P("P10", "Cancellation is honoured promptly by every long-running loop",
  "Once the caller has asked to stop, no algorithm computes another observation, candidate or iteration: every loop over observations or candidates asks for the cancellation flag before each unit of work, in every parallel mode. The result of an abandoned computation is not used for further stages.",
  ["schedules", "histories", "crash_points"], "any point of time at which the caller cancels, any algorithm, any parallel mode",
  "Tests cancel at a handful of named stages of some algorithms.",
  [I+"Status.h", B+"*.cpp"], [("stop macros", I+"Logger.h")])
P("P11", "No exception escapes a parallel region and none is lost",
  "An exception raised while a thread processes an observation never leaves the parallel region (which would end the process); it is reported to the caller after the region in the same way as in sequential mode, or makes the criterion being computed infinite. No failure is silently turned into a result.",
  ["fault_sequences", "schedules", "inputs"], "any observation whose computation throws, any thread, any algorithm",
  "Nothing throws on the test data.",
  [B+"*.cpp"], [("capture and rethrow around loop bodies", B+"*.cpp *Omp")])
P("P12", "Parallel loops are free of data races",
  "In every multi-threaded loop, two threads never access the same data with at least one writing: shared results are written only at the element, row, column or slice of the own iteration or the own thread, everything else is private, reduced or read-only. The only shared variables all threads may write are flags that each of them sets to one and the same constant (failed, cancelled) and the exception kept for the report.",
  ["schedules"], "all interleavings, thread counts and data sizes",
  "A race shows on some schedules only, and the tests compare to within 1e-3.",
  [B+"*.cpp"], [("per-thread accumulators and private copies", B+"*.cpp *Omp")])
P("P13", "The parallel mode never changes the result",
  "For every algorithm the threaded implementation computes the same mathematical result as the sequential one, for every data set, option and number of threads, including one thread and more threads than observations.",
  ["inputs", "configurations", "schedules"], "all algorithms, data, options and thread counts",
  "The tests compare a few scalars of some algorithms with 6 threads on one data set.",
  [B+"*.cpp"], [("pairs of *Serial/*Omp functions", B+"*.cpp")])
P("P14", "Distributed processes follow one protocol and merge their parts completely",
  "In the distributed mode all processes execute the same sequence of collective operations; every message sent has exactly one matching receive with the same tag, type and size; and every value computed by one process that the result needs reaches the master unchanged, whatever its sign or position.",
  ["configurations", "inputs", "schedules"], "all numbers of processes and divisions of the work, all data",
  "The MPI tests run a fixed number of processes on data with positive coefficients.",
  [B+"GWRBasic.cpp", B+"GWRMultiscale.cpp", B+"utils/armampi.cpp"], [("send/receive/reduce calls", B+"*.cpp *Mpi")])
P("P15", "Selecting a mode selects the matching implementation",
  "After any sequence of option settings, the function executed for fitting, predicting and evaluating a criterion is the one for the currently selected parallel mode and criterion; unsupported modes are refused and leave the selection unchanged.",
  ["histories", "configurations"], "any order of setting parallel mode, criteria and options",
  "Tests always set options in the same order.",
  [B+"*.cpp"], [("switches in setParallelType/setBandwidthSelectionCriterion*", B+"*.cpp")])
P("P16", "Invalid input is rejected, along the whole inheritance chain",
  "An algorithm is valid exactly when coordinates and spatial weights are present, there is at least one independent variable, and the numbers of rows of coordinates, independent variables and (for regressions and discriminant analysis) dependent variable agree; basic, robust, space-time and scalable regression also need a positive bandwidth, scalable regression a Gaussian or exponential kernel, principal components a positive number of components, density regression one weight per coordinate dimension, and multiscale regression one weight and one option of each kind per variable, with a bandwidth above 1 (adaptive) or not negative (fixed) where it is given by the user.",
  ["inputs", "configurations"], "all combinations of missing or inconsistent input",
  "Tests only use valid input.",
  [B+"SpatialAlgorithm.cpp", B+"SpatialMonoscaleAlgorithm.cpp", B+"GWRBase.cpp", B+"*.cpp"], [("isValid chain", B+"*.cpp isValid")])
P("P17", "Space-time regression uses combined space-time distances and optimises their mix",
  "The combined distance of a space-time regression is lambda*S + (1-lambda)*T + 2*sqrt(lambda*(1-lambda)*S*T), times cos(angle) in the last term when an angle is given, where S is the spatial distance and T the time difference; observations later than the focus are out of reach (1e13) unless lambda is 1. Geographically and temporally weighted regression solves the weighted least-squares problem with weights of this distance, with the hat-matrix quantities and diagnostics of that fit; its criteria are leave-one-out CV and AICc with these weights, and automatic bandwidth selection is the golden-section search of them, in sequential and threaded mode.",
  ["inputs", "configurations"], "all data, mixes, angles, kernels, thread counts",
  "One synthetic data set, lambda fixed to one value.",
  [B+"GTWR.cpp", B+"spatialweight/CRSSTDistance.cpp", I+"spatialweight/CRSSTDistance.h"], [("space-time distance", I+"spatialweight/CRSSTDistance.h"), ("fit and lambda search", B+"GTWR.cpp")])
P("P18", "Multiscale regression back-fits each variable with its own weights",
  "Every back-fitting sweep refits each variable in turn by local weighted least squares of what the other variables leave (the current partial residual) with that variable's own spatial weights, and updates the hat matrix of that variable and of the model accordingly; sweeps go on until the maximum number or until the selected criterion (change of the residual sum of squares, absolute or relative) is at most the threshold. Bandwidths not given by the user are searched in every sweep, by leave-one-out CV or AICc of the single-variable fit, until they have stayed within the variable's threshold the required number of times. Predictors marked as centred (other than the intercept) are centred first, the starting point is the basic regression, and the diagnostics are those of the final residuals and final hat matrix, in sequential and threaded mode.",
  ["inputs", "configurations"], "all data, weights, stopping criteria, sweep numbers, thread counts",
  "One data set, default options.",
  [B+"GWRMultiscale.cpp"], [("back-fitting loop", B+"GWRMultiscale.cpp backfitting"), ("single-variable fit", B+"GWRMultiscale.cpp fitVar*"), ("diagnostics", B+"GWRMultiscale.cpp CalcDiagnostic")])
P("P19", "Local summary statistics are the weighted moments and correlations",
  "The local mean, standard deviation, variance, skewness, coefficient of variation, median, interquartile range, quantile imbalance, covariance and Pearson and Spearman correlation at each location are the textbook weighted statistics with weights normalised to sum one.",
  ["inputs", "configurations"], "all data, kernels, bandwidths, numbers of variables, thread counts",
  "One data set, values compared at 5 quantiles.",
  [B+"GWSS.cpp"], [("statistics per location", B+"GWSS.cpp")])
P("P20", "Local principal components come from the weighted covariance at each location",
  "At each location the loadings are the leading right singular vectors of the data centred at the locally weighted means and scaled by the square roots of the local weights; the local standard deviations are its singular values over the square root of the sum of the weights, the local percentage of variance is the share of the kept squared singular values, and the winning variable is the one with the largest loading on the first component.",
  ["inputs", "configurations"], "all data, numbers of components, kernels, bandwidths",
  "One data set.",
  [B+"GWPCA.cpp"], [("weighted PCA", B+"GWPCA.cpp")])
P("P21", "Local discriminant analysis assigns the class with the best local score",
  "With local statistics of every class at every observation (weighted mean, unbiased weighted covariance, own or pooled by class size for the linear rule, prior as share of the total weight; without weights where an option asks for global ones), the score of a class is m/2 log||covariance|| + half the Mahalanobis distance - log prior for m classes. An observation never contributes to its own statistics. Every observation gets the class with the smallest score; the class probabilities are proportional to exp(-score), the reported ratio is the proportion assigned to its own class, the entropy is that of the probabilities over its maximum. Sequential and threaded mode agree.",
  ["inputs", "configurations"], "all data, classes, options, thread counts",
  "One data set and two option sets.",
  [B+"GWDA.cpp"], [("discriminant scores", B+"GWDA.cpp")])
P("P22", "Robust regression reweights by the standard residual rules",
  "The filtered fit is the weighted least-squares fit without exactly the observations whose studentised residual in the ordinary fit exceeds three. The iterative fit multiplies the spatial weights by 1, (1-(r-2)^2)^2 or 0 where the residual over the root mean square residual r is up to 2, below 3 or more, and refits until the relative change of the mean square is at most 1e-5 or 20 times; it reports the last fit. Coefficients, standard errors, hat-matrix quantities and diagnostics are those of that fit, in sequential and threaded mode.",
  ["inputs", "configurations"], "all data, options",
  "One data set.",
  [B+"GWRRobust.cpp"], [("reweighting loops", B+"GWRRobust.cpp")])
P("P23", "Scalable regression evaluates the polynomial-kernel approximation it defines",
  "The coefficients of scalable regression are the solution of the normal equations assembled from precomputed neighbour moments with the selected scale and penalty, and its criteria and diagnostics are computed from the same assembled system.",
  ["inputs", "configurations"], "all data, polynomial degrees, neighbours",
  "One data set.",
  [B+"GWRScalable.cpp"], [("moment assembly", B+"GWRScalable.cpp")])
P("P24", "Generalised regression is iteratively reweighted local likelihood",
  "Poisson and binomial geographically weighted regression iterate the working response and weights of their family (log and logit link) until the log-likelihood settles or the steps are used up, and solve the local weighted problem with the last of them, with or without hat matrix; prediction solves it at the given locations; standard errors, traces, deviance, AIC, AICc and the share of deviance explained are those of the family, as are the CV and AICc bandwidth criteria; the null deviance, deviance, AIC and AICc of the global model are those of the ordinary generalised linear model.",
  ["inputs", "configurations"], "all data, both families, kernels, bandwidths, tolerances, thread counts",
  "One data set per family.",
  [B+"GWRGeneralized.cpp", B+"GeneralizedLinearModel.cpp", B+"PoissonModel.cpp", B+"BinomialModel.cpp"], [("IRLS", B+"GWRGeneralized.cpp")])
P("P25", "Local ridge regression adds the ridge that the condition number demands",
  "At each location the local collinearity model fits the weighted ridge regression of the observations (variables scaled to unit deviation, intercept unscaled) with the given ridge parameter, or, when adjustment is on and the local condition number exceeds the threshold, with the parameter that brings the condition number down to it; predictions and the cross-validation criterion use the same regression, the diagnostics the locally weighted hat matrix, and fitting again repeats the result.",
  ["inputs", "configurations"], "all data, thresholds, options, thread counts",
  "One data set.",
  [B+"GWRLocalCollinearity.cpp"], [("ridge solve", B+"GWRLocalCollinearity.cpp")])
P("P26", "Density regression multiplies the one-dimensional weights of all its dimensions",
  "Geographically weighted density regression weights an observation by the product of the kernel weights of all coordinate dimensions, each with its own bandwidth, and its coefficients, hat-matrix quantities and criteria are those of weighted least squares with these weights.",
  ["inputs", "configurations"], "all data, dimensions, bandwidths, thread counts",
  "One data set.",
  [B+"GWDR.cpp"], [("product weights", B+"GWDR.cpp")])
P("P27", "Setters take effect and getters report it",
  "After setting an option of any algorithm or component, reading that option returns the value set, and setting one option does not change another.",
  ["histories", "configurations"], "all options, any order",
  "Most getters are never called in tests.",
  [I+"*.h"], [("accessor pairs", I+"*.h")])
P("P28", "Computing never changes the input or the configuration it was given",
  "Weight and distance queries leave the queried object's observable behaviour unchanged; fitting, predicting and evaluating criteria leave coordinates, dependent and independent variables as the user set them, so that repeating a computation repeats its result. (Automatic variable and bandwidth selection store what they selected, and the multiscale model centres its predictors: documented outcomes of those options.)",
  ["histories", "inputs"], "any sequence of queries, fits and predictions",
  "Tests fit once per object.",
  [B+"*.cpp", B+"spatialweight/*.cpp"], [("const functions and local copies", B+"*.cpp")])
P("P29", "Owned objects are cloned on copy and released exactly once",
  "Every object that owns another through a pointer releases it exactly once, copies it when it is itself copied, and gives back everything it acquired on every path, including error paths.",
  ["histories", "fault_sequences"], "any sequence of construction, copy, assignment, reconfiguration and destruction",
  "Leaks and double releases are invisible to the tests.",
  [I+"spatialweight/*.h", B+"spatialweight/*.cpp", B+"*.cpp"], [("destructors and clones", I+"spatialweight/*.h")])
P("P30", "The back-fitting and reweighting iterations converge to the statistical optimum",
  "For well-posed data the iterative algorithms reach a fixed point within their iteration limit, and the fixed point is the optimum of the statistical criterion.",
  ["inputs"], "all well-posed data", "Convergence on one data set says nothing about another.",
  [B+"GWRMultiscale.cpp", B+"GWRRobust.cpp", B+"GWRGeneralized.cpp"], [("iteration limits", B+"*.cpp")])
P("P31", "Results are numerically accurate for badly conditioned data",
  "For data with a condition number below the documented threshold the floating-point results agree with exact arithmetic to the precision the condition number allows.",
  ["inputs"], "all data up to a condition number", "Only one well-conditioned data set is used.",
  [B+"*.cpp"], [("inverse of normal matrix", B+"*.cpp")])
P("P32", "The GPU mode computes what the sequential mode computes",
  "For every algorithm with a GPU implementation the results in GPU mode equal those of the sequential mode.",
  ["inputs", "configurations"], "all data", "GPU code is not built in the tests.",
  ["src/gwmodelcuda", B+"utils/cumat.cpp", B+"GWRBasic.cpp"], [("*Cuda functions", B+"*.cpp")])

NOT_APPLICABLE = {
 "P30": "convergence of the iterations is an analytic statement about real-number fixed points of data-dependent operators; no static argument in reach bounds it",
 "P31": "rounding error of LAPACK-based computations depends on runtime magnitudes; a static bound (over unbounded data) is not obtainable",
 "P32": "the GPU sources need nvcc and the CUDA headers, which are not installed: they cannot be parsed, hence not analysed",
}
