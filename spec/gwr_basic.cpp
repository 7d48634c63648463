#include "gwr_common.h"
#include "golden.h"
#include "checks.h"
#include "gwmodelpp/GWRBasic.h"

namespace claims_gwr_basic
{

static void load(GWRBasic& a, const mat& x, const vec& y, const mat& u, const SpatialWeight& sw)
{
    a.setCoords(u); a.setDependentVariable(y); a.setIndependentVariables(x); a.setSpatialWeight(sw);
}

#define INPUTS uword n = int_("n"), k = int_("k"); \
    mat x = mat_("x", n, k), u = mat_("u", n, 2); vec y = vec_("y", n); \
    SpatialWeight sw = Ref::user_sw(); SpatialWeight rw = Ref::located(sw, u, u);

void claim_fit_serial()
{
    INPUTS
    GWRBasic a; load(a, x, y, u, sw);
    a.setParallelType(ParallelType::SerialOnly);
    a.fit();
    fit_checks(a, x, y, rw, n, k);
}

void claim_fit_omp()
{
    INPUTS
    GWRBasic a; load(a, x, y, u, sw);
    a.setParallelType(ParallelType::OpenMP); a.setOmpThreadNum(int_("threads"));
    a.fit();
    fit_checks(a, x, y, rw, n, k);
}


// ---- criteria
static double crit(GWRBasic& a, const mat& x, const vec& y, const mat& u, const SpatialWeight& sw, GWRBasic::BandwidthSelectionCriterionType c, ParallelType p)
{
    load(a, x, y, u, sw);
    a.setOmpThreadNum(int_("threads"));
    a.setParallelType(p);
    a.setBandwidthSelectionCriterion(c);
    a.createDistanceParameter();
    double v = 0;
    a.getCriterion(ptr_<BandwidthWeight>("bw"), v);
    return v;
}

void claim_cv_serial()
{
    INPUTS
    GWRBasic a;
    same("CV criterion", crit(a, x, y, u, sw, GWRBasic::BandwidthSelectionCriterionType::CV, ParallelType::SerialOnly), ref_cv(x, y, rw));
}
void claim_cv_omp()
{
    INPUTS
    GWRBasic a;
    same("CV criterion", crit(a, x, y, u, sw, GWRBasic::BandwidthSelectionCriterionType::CV, ParallelType::OpenMP), ref_cv(x, y, rw));
}
void claim_aic_serial()
{
    INPUTS
    GWRBasic a;
    same("AICc criterion", crit(a, x, y, u, sw, GWRBasic::BandwidthSelectionCriterionType::AIC, ParallelType::SerialOnly), ref_aic(x, y, rw));
}
void claim_aic_omp()
{
    INPUTS
    GWRBasic a;
    same("AICc criterion", crit(a, x, y, u, sw, GWRBasic::BandwidthSelectionCriterionType::AIC, ParallelType::OpenMP), ref_aic(x, y, rw));
}

// ---- prediction
static mat predicted(const mat& x, const vec& y, const mat& u, const SpatialWeight& sw, const mat& v, ParallelType p)
{
    GWRBasic a; load(a, x, y, u, sw);
    a.setOmpThreadNum(int_("threads"));
    a.setParallelType(p);
    return a.predict(v);
}
void claim_predict_serial()
{
    INPUTS
    mat v = mat_("v", int_("m"), 2);
    same("coefficients at new locations", predicted(x, y, u, sw, v, ParallelType::SerialOnly), Ref::betas(x, y, Ref::located(sw, v, u), v.n_rows));
}
void claim_predict_omp()
{
    INPUTS
    mat v = mat_("v", int_("m"), 2);
    same("coefficients at new locations", predicted(x, y, u, sw, v, ParallelType::OpenMP), Ref::betas(x, y, Ref::located(sw, v, u), v.n_rows));
}


// ---- variable selection criterion: AICc of the model with the given variables and uniform weights
static double crit_vars(const mat& x, const vec& y, const mat& u, const SpatialWeight& sw, const std::vector<size_t>& vars, bool intercept, ParallelType p)
{
    GWRBasic a; load(a, x, y, u, sw);
    a.setHasIntercept(intercept);
    a.setOmpThreadNum(int_("threads"));
    a.setParallelType(p);
    a.createDistanceParameter();
    double v = 0;
    a.getCriterion(vars, v);
    return v;
}
static double ref_vars(const mat& x, const vec& y, const SpatialWeight& rw, const std::vector<size_t>& vars, bool intercept)
{
    uword p = vars.size(), o = intercept ? 1 : 0;
    mat z(x.n_rows, p + o);
    for (uword i = 0; i < x.n_rows; i++)
        for (uword j = 0; j < p + o; j++)
            z(i, j) = (intercept && j == 0) ? x(i, 0) : x(i, vars[j - o]);
    SpatialWeight s(ptr_<BandwidthWeight>("bw"), rw.distance());
    s.weight<BandwidthWeight>()->setBandwidth(DBL_MAX);
    return Ref::aicc(x.n_rows, Ref::rss(z, y, Ref::betas(z, y, s, x.n_rows)), Ref::trS(Ref::S(z, s)));
}
#define VINPUTS uword n = int_("n"), k = int_("k"); \
    mat x = mat_("x", n, k), u = mat_("u", n, 2); vec y = vec_("y", n); CRSDistance d(false); \
    SpatialWeight sw(ptr_<BandwidthWeight>("bw"), &d); SpatialWeight rw = Ref::located(sw, u, u); \
    std::vector<size_t> vars = objs_<size_t>("vars", int_("p"));
void claim_vars_serial_no_intercept()
{
    VINPUTS
    same("criterion without intercept", crit_vars(x, y, u, sw, vars, false, ParallelType::SerialOnly), ref_vars(x, y, rw, vars, false));
}
void claim_vars_omp_no_intercept()
{
    VINPUTS
    same("criterion without intercept", crit_vars(x, y, u, sw, vars, false, ParallelType::OpenMP), ref_vars(x, y, rw, vars, false));
}
// which columns a model is made of
struct Spy : public GWRBasic
{
    mat seen;
    mat core(const mat& x, const vec& y, const SpatialWeight& sw, vec& s) { seen = x; return mat_("b", x.n_rows, x.n_cols); }
    void install() { mFitCoreSHatFunction = static_cast<FitCoreSHatCalculator>(&Spy::core); }
};
static void columns(bool intercept)
{
    VINPUTS
    Spy a; load(a, x, y, u, sw);
    a.setHasIntercept(intercept);
    a.install();
    double v = 0;
    a.getCriterion(vars, v);
    uword p = vars.size(), o = intercept ? 1 : 0;
    mat z(n, p + o);
    for (uword i = 0; i < n; i++)
        for (uword j = 0; j < p + o; j++)
            z(i, j) = (intercept && j == 0) ? x(i, 0) : x(i, vars[j - o]);
    same("columns of the model", a.seen, z);
}
void claim_vars_columns_intercept() { columns(true); }
void claim_vars_columns_no_intercept() { columns(false); }

// ---- failures: the worst value
void claim_fail_cv_serial()
{
    INPUTS
    GWRBasic a;
    fails_as("CV criterion", crit(a, x, y, u, sw, GWRBasic::BandwidthSelectionCriterionType::CV, ParallelType::SerialOnly), DBL_MAX);
}
void claim_fail_cv_omp()
{
    INPUTS
    GWRBasic a;
    fails_as("CV criterion", crit(a, x, y, u, sw, GWRBasic::BandwidthSelectionCriterionType::CV, ParallelType::OpenMP), DBL_MAX);
}
void claim_fail_aic_serial()
{
    INPUTS
    GWRBasic a;
    fails_as("AICc criterion", crit(a, x, y, u, sw, GWRBasic::BandwidthSelectionCriterionType::AIC, ParallelType::SerialOnly), DBL_MAX);
}
void claim_fail_aic_omp()
{
    INPUTS
    GWRBasic a;
    fails_as("AICc criterion", crit(a, x, y, u, sw, GWRBasic::BandwidthSelectionCriterionType::AIC, ParallelType::OpenMP), DBL_MAX);
}
void claim_fail_vars_serial()
{
    VINPUTS
    fails_as("variable criterion", crit_vars(x, y, u, sw, vars, false, ParallelType::SerialOnly), DBL_MAX);
}
void claim_fail_vars_omp()
{
    VINPUTS
    fails_as("variable criterion", crit_vars(x, y, u, sw, vars, false, ParallelType::OpenMP), DBL_MAX);
}

// ---- stored matrices
static void stored(ParallelType p)
{
    INPUTS
    GWRBasic a; load(a, x, y, u, sw);
    a.setStoreS(true); a.setStoreC(true);
    a.setOmpThreadNum(int_("threads"));
    a.setParallelType(p);
    a.fit();
    same("stored hat matrix", a.s(), Ref::S(x, rw));
    cube c(k, n, n);
    for (uword i = 0; i < n; i++) c.slice(i) = Ref::ci(x, rw.weightVector(i));
    same("stored projection matrices", a.c(), c);
}
void claim_stored_serial() { stored(ParallelType::SerialOnly); }
void claim_stored_omp() { stored(ParallelType::OpenMP); }

// ---- the criterion follows the options, in whatever order they were set
static void order(bool mode_first, GWRBasic::BandwidthSelectionCriterionType c)
{
    INPUTS
    GWRBasic a; load(a, x, y, u, sw);
    a.setOmpThreadNum(int_("threads"));
    if (mode_first) { a.setParallelType(ParallelType::OpenMP); a.setBandwidthSelectionCriterion(c); }
    else { a.setBandwidthSelectionCriterion(c); a.setParallelType(ParallelType::OpenMP); }
    a.createDistanceParameter();
    double v = 0;
    a.getCriterion(ptr_<BandwidthWeight>("bw"), v);
    if (c == GWRBasic::BandwidthSelectionCriterionType::CV) same("chosen criterion", v, ref_cv(x, y, rw));
    else same("chosen criterion", v, ref_aic(x, y, rw));
    same("reported choice", (int)a.bandwidthSelectionCriterion(), (int)c);
}
void claim_order_cv_after() { order(true, GWRBasic::BandwidthSelectionCriterionType::CV); }
void claim_order_cv_before() { order(false, GWRBasic::BandwidthSelectionCriterionType::CV); }
void claim_order_aic_after() { order(true, GWRBasic::BandwidthSelectionCriterionType::AIC); }
void claim_order_aic_before() { order(false, GWRBasic::BandwidthSelectionCriterionType::AIC); }
void claim_order_default()
{
    INPUTS
    GWRBasic a; load(a, x, y, u, sw);
    a.createDistanceParameter();
    double v = 0;
    a.getCriterion(ptr_<BandwidthWeight>("bw"), v);
    if (a.bandwidthSelectionCriterion() == GWRBasic::BandwidthSelectionCriterionType::CV) same("default criterion", v, ref_cv(x, y, rw));
    else same("default criterion", v, ref_aic(x, y, rw));
}

// ---- automatic bandwidth
struct Scored : public GWRBasic
{
    Status getCriterion(BandwidthWeight* w, double& v) override { v = fn_("criterion", w->bandwidth()); return Status::Success; }
};
static void automatic(bool adaptive, bool bounds)
{
    uword n = int_("n"), k = int_("k");
    mat x = mat_("x", n, k), u = mat_("u", n, 2); vec y = vec_("y", n);
    CRSDistance d(false);
    BandwidthWeight b0(real_("b0"), adaptive, BandwidthWeight::Bisquare);
    SpatialWeight sw(&b0, &d); SpatialWeight rw = Ref::located(sw, u, u);
    Scored a; load(a, x, y, u, sw);
    a.setIsAutoselectBandwidth(true);
    if (bounds) { a.setGoldenLowerBounds(real_("lo")); a.setGoldenUpperBounds(real_("hi")); }
    a.fit();
    Memory m;
    double lo = bounds ? real_("lo") : adaptive ? 20.0 : 0.0;
    double hi = bounds ? real_("hi") : adaptive ? (double)n : rw.distance()->maxDistance();
    double best = golden(lo, hi, adaptive, [](double z) { return fn_("criterion", z); }, m);
    same("selected bandwidth", a.spatialWeight().weight<BandwidthWeight>()->bandwidth(), best);
    same("kernel kept", (int)a.spatialWeight().weight<BandwidthWeight>()->kernel(), (int)BandwidthWeight::Bisquare);
    same("kind kept", a.spatialWeight().weight<BandwidthWeight>()->adaptive(), adaptive);
    BandwidthWeight b1(best, adaptive, BandwidthWeight::Bisquare);
    SpatialWeight s1(&b1, rw.distance());
    same("coefficients with the selected bandwidth", a.betas(), Ref::betas(x, y, s1, n));
}
void claim_auto_fixed() { automatic(false, false); }
void claim_auto_adaptive() { automatic(true, false); }
void claim_auto_bounds() { automatic(false, true); }

// ---- a location that cannot be fitted is reported to the caller
static void fit_reports(ParallelType p)
{
    INPUTS
    GWRBasic a; load(a, x, y, u, sw);
    a.setParallelType(p); a.setOmpThreadNum(int_("threads"));
    reports("fit", [&] { a.fit(); });
}
void claim_reports_fit_serial() { fit_reports(ParallelType::SerialOnly); }
void claim_reports_fit_omp() { fit_reports(ParallelType::OpenMP); }
static void predict_reports(ParallelType p)
{
    INPUTS
    GWRBasic a; load(a, x, y, u, sw);
    mat v = mat_("v", int_("m"), 2);
    a.setParallelType(p); a.setOmpThreadNum(int_("threads"));
    reports("prediction", [&] { a.predict(v); });
}
void claim_reports_predict_serial() { predict_reports(ParallelType::SerialOnly); }
void claim_reports_predict_omp() { predict_reports(ParallelType::OpenMP); }
}
