"""property id -> what decides it"""
import cancel
import contain
import ownership
import races

TRUSTED = ("clang 18 front end; the extractor tool/gwmx.cpp; the semantics given to C++ and Armadillo operations in lib/engine.py and "
           "lib/arma_model.py; the rewriting rules of lib/terms.py and lib/loops.py; the reference formulas in spec/*.cpp")
COMMON_ASSUMPTIONS = [
    "real arithmetic: rounding, overflow and the choice of LAPACK routine are not modelled",
    "inputs are the ones the public interface documents: matrices of matching sizes, at least one observation and one variable",
    "value claims describe runs in which no matrix is singular, nobody cancels and nothing throws; those runs are the subject of separate properties",
]
VN = ("Interprocedural data-flow analysis over the clang AST with an algebraic value-numbering domain: every variable and member is mapped to a "
      "normal form over symbolic inputs of symbolic size, branches are joined as conditional values, loops are summarised to sums and recurrences "
      "(no path enumeration, no solver, nothing is executed). A claim holds when library result and reference expression have the same normal form; "
      "it is violated when they differ and a random interpretation of the function symbols separates them. ")

TECH = "interprocedural data-flow analysis with algebraic value numbering over the clang AST"
NOTE = ("Sound relative to the stated semantics of the modelled operations: an obligation is discharged when both sides have the same normal form for all sizes and inputs; where normalisation leaves a difference, "
        "the two expressions are identity-tested under 30 random interpretations of their symbols (Schwartz-Zippel style, on the expressions, nothing is run), and the evidence says which of the two it was. Trusted: " + TRUSTED + ". Rounding is not modelled; constructs the analysis cannot follow are reported as undecided, never as held.")

PROPS = {}


def prop(pid, **kw):
    PROPS[pid] = kw


prop("P01", specs=["gwr_basic.cpp"], claims=[r"claims_gwr_basic::claim_(fit|predict)_"], labels="coefficients", how=VN)
prop("P02", specs=["gwr_basic.cpp"], claims=[r"claims_gwr_basic::claim_(fit|stored)_"], labels="^(?!coefficients)", how=VN)
prop("P03", specs=["gwr_basic.cpp"], claims=[r"claims_gwr_basic::claim_(cv|aic|order)_"], how=VN)
prop("P04", specs=["weights.cpp"], claims=[r"claims_weights?::claim_(kernel|bandwidth)_"], how=VN)
prop("P05", specs=["weights.cpp"], claims=[r"claims_weights?::claim_(euclid|great|extent|mink|manh|onedim|bounds)"], how=VN)
prop("P06", specs=["weights.cpp"], claims=[r"claims_weights?::claim_weightvector"], how=VN)
prop("P07", specs=["selectors.cpp", "gwr_basic.cpp"], claims=[r"claims_selectors::claim_golden_", r"claims_gwr_basic::claim_auto_"], how=VN)
prop("P08", specs=["forward.cpp", "gwr_basic.cpp"], claims=[r"claims_forward::claim_", r"claims_gwr_basic::claim_vars_"], how=VN,
     assumptions=["the greedy path is decided for up to three candidate variables, with the order of the criteria within a step given and the threshold and the full model's criterion arbitrary"])
prop("P09", specs=["gwr_basic.cpp", "gtwr.cpp", "gwdr.cpp", "lcr.cpp"], claims=[r"::claim_fail_"], passes=[contain.criteria],
     how=VN + " In addition a flow analysis over every implementation of getCriterion, and everything reachable from it through the selected criterion functions, shows that no exception leaves the evaluation of a candidate and that every handler ends with the infinite value, rethrows, or sets a flag examined before the criterion is returned.")
prop("P16", specs=["validity.cpp"], claims=[r"claims_validity::claim_"], how=VN + " The sizes of coordinates, independent and dependent variables are independent symbols, the bandwidth any number.",
     assumptions=["multiscale regression is decided for two variables, density regression for one to three dimensions, discriminant analysis for zero and two labels"])
prop("P17", specs=["gtwr.cpp"], claims=[r"claims_gtwr::claim_(stdist|fit|stored|predict|cv|aic|order|auto)_"], how=VN)
prop("P20", specs=["gwpca.cpp"], claims=[r"claims_gwpca::claim_components_"], how=VN,
     assumptions=["one to three kept components, at least as many observations and variables as components"])
prop("P21", specs=["gwda.cpp"], claims=[r"claims_gwda3?::claim_"], how=VN + " The helper functions (weighted means and covariance, labels, entropy) are decided by claims of their own and replaced by uninterpreted functions in the claims about the whole analysis.",
     assumptions=["two groups (all options) and three groups (local statistics) of any size; finding groups in the labels is decided on three label lists; no separate prediction data (there is no setter for it)"])
prop("P22", specs=["robust.cpp"], claims=[r"claims_robust(_outliers)?::claim_(filtered|iterated|weight|stored|predict|auto)"], how=VN)
prop("P11", specs=["gwr_basic.cpp", "gtwr.cpp", "gwdr.cpp", "lcr.cpp"], claims=[r"::claim_reports_"], passes=[contain.run],
     how=VN + " Containment itself is decided by a flow analysis over all parallel regions: every operation that may throw is inside a handler that does not rethrow, the handler records the failure, and the record is read after the region.")
prop("P13", specs=["modes.cpp"], claims=[r"claims_modes::claim_modes_"], how=VN)
prop("P15", specs=["dispatch.cpp", "gwr_basic.cpp", "gtwr.cpp", "gwdr.cpp", "gwss.cpp", "robust.cpp", "lcr.cpp"], claims=[r"::claim_order_"], how=VN)
prop("P18", specs=["multiscale.cpp"], claims=[r"claims_mgwr(_search)?::claim_"], how=VN,
     assumptions=["two variables (one sweep: also three); hat matrix and diagnostics after one sweep; the basic regression it starts from and the one-dimensional bandwidth search are replaced by arbitrary results (their own properties: P01, P02, P07)"])
prop("P19", specs=["gwss.cpp"], claims=[r"claims_gwss::claim_(average|quantiles|correlation)_"], how=VN,
     assumptions=["the statistics of pairs of variables are decided for two and three variables; everything else for any number"])
prop("P24", specs=["generalized.cpp"], claims=[r"claims_(generalized|glm)::claim_"], how=VN,
     assumptions=["fits, criteria and predictions are decided for one weighting step (the weighting alone for two, convergence in between included); the step-halving of the global model after an infinite deviance is not covered"])
prop("P25", specs=["lcr.cpp"], claims=[r"claims_lcr::claim_(fit|diagnostics|predict|cv|auto)_"], how=VN)
prop("P26", specs=["gwdr.cpp"], claims=[r"claims_gwdr::claim_(fit|stored|cv|aic|vars)_"], how=VN,
     assumptions=["coordinates have two dimensions (fit and bandwidth criteria: also three)"])

FLOW_NOTE = ("Decides by a syntax-directed flow analysis over the whole type-checked program; every construct of the stated kind in the library is a site, and each is decided in itself "
             "(no sampling, no execution). Constructs outside the analysed vocabulary are listed as undecided. Trusted: clang 18 front end; the extractor tool/gwmx.cpp; the table of Armadillo "
             "effects (which operations read, write, allocate, throw) in lib/effects.py, lib/contain.py and lib/cancel.py.")
prop("P10", passes=[cancel.run], technique="call-graph effect analysis: every loop performing observation-sized work must reach a cancellation check before it",
     how="Every loop of the library whose body performs a unit of work (a distance or weight vector, a decomposition, a call of such work through any call chain or function pointer) is a site. On every path "
         "through the body the flag must be asked before the first such unit; the answer must leave the iteration and record the cancellation. Decided on the syntax tree with an interprocedural summary.",
     note=FLOW_NOTE, assumptions=["a distance or weight vector computed for one focus, and one decomposition of an nVar-sized system, are units of work that are not interrupted"])
prop("P12", passes=[races.run], technique="access-path effect analysis of parallel regions (iteration- and thread-ownership of every shared location)",
     how="For every parallel region the analysis collects every access to a location that outlives an iteration, through all calls (virtual calls to every override, function pointers to every target assigned), "
         "as an access path. Two accesses, one writing, conflict unless the path contains the own iteration or own thread number, the location is private, or all writers store the same constant to a scalar. "
         "Per-thread slots must be dimensioned by the number of threads the region is given.",
     note=FLOW_NOTE, assumptions=["Armadillo element, row, column and slice views of distinct indices are disjoint, and reading a container does not modify it",
                                  "the telegram supplied by the user and the exception object kept for the report are outside the claim"])

prop("P27", specs=["setters.cpp"], claims=[r"claims_setters::claim_set_"], how=VN + " One claim per settable option of each class, generated from the class definitions: the option is set to a symbolic value on an object "
     "whose other options are symbolic, and every getter is compared with the state before.")
prop("P28", specs=["pure.cpp"], claims=[r"claims_pure::claim_"], how=VN + " The whole computation is analysed once and twice on one symbolic object; inputs, options and results are compared member by member.")
prop("P29", passes=[ownership.run], technique="path-sensitive typestate analysis of every owning pointer",
     how="Every function is analysed over states mapping pointer variables and owning members (those a destructor deletes) to null, uninitialised, an object with status owned or released, or borrowed; "
         "parameters that may be the object itself or what one of its members points to are analysed both ways, early returns and explicit exceptions are exits. Each allocation and owning member is an obligation.",
     note=FLOW_NOTE, assumptions=["memory allocation itself does not fail", "an rvalue reference is the only reference to its object"])
