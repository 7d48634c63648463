#include "gwr_common.h"
#include "gwmodelpp/GWRBasic.h"
#include "gwmodelpp/GWRRobust.h"
#include "gwmodelpp/GTWR.h"
#include "gwmodelpp/GWDR.h"
#include "gwmodelpp/GWSS.h"
#include "gwmodelpp/spatialweight/OneDimDistance.h"
#include "gwmodelpp/spatialweight/CRSSTDistance.h"

// after any history of option settings the implementation that runs is the one of the options set last
namespace claims_dispatch
{
#define INPUTS uword n = int_("n"), k = int_("k"); \
    mat x = mat_("x", n, k), u = mat_("u", n, 2); vec y = vec_("y", n);

template<class A> static void load(A& a, const mat& x, const vec& y, const mat& u)
{
    CRSDistance d(false);
    a.setCoords(u); a.setDependentVariable(y); a.setIndependentVariables(x);
    a.setSpatialWeight(SpatialWeight(ptr_<BandwidthWeight>("bw"), &d));
    a.setOmpThreadNum(int_("threads"));
}
static void load(GTWR& a, const mat& x, const vec& y, const mat& u)
{
    CRSDistance sd(false); OneDimDistance td; CRSSTDistance d(&sd, &td, 0.5);
    a.setCoords(u, vec_("t", x.n_rows)); a.setDependentVariable(y); a.setIndependentVariables(x);
    a.setSpatialWeight(SpatialWeight(ptr_<BandwidthWeight>("bw"), &d));
    a.setOmpThreadNum(int_("threads"));
}
static void load(GWDR& a, const mat& x, const vec& y, const mat& u)
{
    OneDimDistance d;
    std::vector<SpatialWeight> s;
    s.push_back(SpatialWeight(ptr_<BandwidthWeight>("bw0"), &d));
    s.push_back(SpatialWeight(ptr_<BandwidthWeight>("bw1"), &d));
    for (size_t m = 0; m < s.size(); m++) s[m].distance()->makeParameter({ vec(u.col(m)), vec(u.col(m)) });
    a.setCoords(u); a.setDependentVariable(y); a.setIndependentVariables(x); a.setSpatialWeights(s);
    a.setOmpThreadNum(int_("threads"));
}
static void choose(GWRBasic& a, bool cv) { a.setBandwidthSelectionCriterion(cv ? GWRBasic::BandwidthSelectionCriterionType::CV : GWRBasic::BandwidthSelectionCriterionType::AIC); }
static void choose(GTWR& a, bool cv) { a.setBandwidthSelectionCriterion(cv ? GTWR::CV : GTWR::AIC); }
static void choose(GWDR& a, bool cv) { a.setBandwidthCriterionType(cv ? GWDR::BandwidthCriterionType::CV : GWDR::BandwidthCriterionType::AIC); }
static bool chosen(const GWRBasic& a) { return a.bandwidthSelectionCriterion() == GWRBasic::BandwidthSelectionCriterionType::CV; }
static bool chosen(const GTWR& a) { return a.bandwidthSelectionCriterion() == GTWR::CV; }
static bool chosen(const GWDR& a) { return a.bandwidthCriterionType() == GWDR::BandwidthCriterionType::CV; }
template<class A> static double criterion(A& a)
{
    a.createDistanceParameter();
    double v = 0;
    a.getCriterion(ptr_<BandwidthWeight>("bw"), v);
    return v;
}
static double criterion(GWDR& a)
{
    std::vector<BandwidthWeight*> b;
    b.push_back(ptr_<BandwidthWeight>("bw0")); b.push_back(ptr_<BandwidthWeight>("bw1"));
    return a.bandwidthCriterion(b);
}
template<class A> static void history(A& a)
{
    if (bool_("h0")) a.setParallelType(ParallelType::OpenMP);
    if (bool_("h1")) choose(a, true);
    if (bool_("h2")) a.setParallelType(ParallelType::SerialOnly);
    if (bool_("h3")) choose(a, false);
    if (bool_("h4")) a.setParallelType(ParallelType::OpenMP);
    if (bool_("h5")) choose(a, true);
}
template<class A> static void criteria(bool threads, bool cv, bool mode_last)
{
    INPUTS
    A a; load(a, x, y, u);
    history(a);
    ParallelType p = threads ? ParallelType::OpenMP : ParallelType::SerialOnly;
    if (mode_last) { choose(a, cv); a.setParallelType(p); }
    else { a.setParallelType(p); choose(a, cv); }
    A b; load(b, x, y, u);
    b.setParallelType(p); choose(b, cv);
    double va = 0, vb = criterion(b);
    threaded("threads used for the criterion", [&] { va = criterion(a); }, threads);
    same("criterion", va, vb);
    same("reported criterion", chosen(a), cv);
    same("reported mode", (int)a.parallelType(), (int)p);
}
#define ALL(NAME, A) \
    void claim_order_##NAME##_cv_omp_mode_last() { criteria<A>(true, true, true); } \
    void claim_order_##NAME##_cv_omp() { criteria<A>(true, true, false); } \
    void claim_order_##NAME##_aic_omp_mode_last() { criteria<A>(true, false, true); } \
    void claim_order_##NAME##_aic_omp() { criteria<A>(true, false, false); } \
    void claim_order_##NAME##_cv_serial_mode_last() { criteria<A>(false, true, true); } \
    void claim_order_##NAME##_cv_serial() { criteria<A>(false, true, false); } \
    void claim_order_##NAME##_aic_serial_mode_last() { criteria<A>(false, false, true); } \
    void claim_order_##NAME##_aic_serial() { criteria<A>(false, false, false); }
ALL(basic, GWRBasic)
ALL(robust, GWRRobust)
ALL(space_time, GTWR)
ALL(density, GWDR)

// ---- fitting and prediction
template<class A> static void fits(bool threads)
{
    INPUTS
    A a; load(a, x, y, u);
    history(a);
    a.setParallelType(threads ? ParallelType::OpenMP : ParallelType::SerialOnly);
    threaded("threads used for the fit", [&] { a.fit(); }, threads);
}
template<class A> static void predicts(bool threads)
{
    INPUTS
    A a; load(a, x, y, u);
    history(a);
    a.setParallelType(threads ? ParallelType::OpenMP : ParallelType::SerialOnly);
    threaded("threads used for prediction", [&] { a.predict(u); }, threads);
}
template<class A> static void variables(bool threads)
{
    INPUTS
    A a; load(a, x, y, u);
    history(a);
    a.setHasIntercept(false);
    a.setParallelType(threads ? ParallelType::OpenMP : ParallelType::SerialOnly);
    std::vector<size_t> vars = objs_<size_t>("vars", int_("p"));
    double v = 0;
    threaded("threads used for the variable criterion", [&] { a.getCriterion(vars, v); }, threads);
}
void claim_order_fit_basic_omp() { fits<GWRBasic>(true); }
void claim_order_fit_basic_serial() { fits<GWRBasic>(false); }
void claim_order_fit_space_time_omp() { fits<GTWR>(true); }
void claim_order_fit_space_time_serial() { fits<GTWR>(false); }
void claim_order_fit_density_omp() { fits<GWDR>(true); }
void claim_order_fit_density_serial() { fits<GWDR>(false); }
void claim_order_predict_basic_omp() { predicts<GWRBasic>(true); }
void claim_order_predict_basic_serial() { predicts<GWRBasic>(false); }
void claim_order_predict_robust_omp() { predicts<GWRRobust>(true); }
void claim_order_predict_robust_serial() { predicts<GWRRobust>(false); }
void claim_order_predict_space_time_omp() { predicts<GTWR>(true); }
void claim_order_predict_space_time_serial() { predicts<GTWR>(false); }
void claim_order_variables_density_omp() { variables<GWDR>(true); }
void claim_order_variables_density_serial() { variables<GWDR>(false); }

// ---- summary statistics
static void summary(bool threads, bool corr, bool mode_last)
{
    uword n = int_("n");
    mat x = mat_("x", n, 2), u = mat_("u", n, 2);
    CRSDistance d(false); SpatialWeight s(ptr_<BandwidthWeight>("bw"), &d);
    GWSS::GWSSMode m = corr ? GWSS::GWSSMode::Correlation : GWSS::GWSSMode::Average;
    ParallelType p = threads ? ParallelType::OpenMP : ParallelType::SerialOnly;
    GWSS a, b;
    a.setCoords(u); a.setVariables(x); a.setSpatialWeight(s); a.setOmpThreadNum(int_("threads"));
    b.setCoords(u); b.setVariables(x); b.setSpatialWeight(s); b.setOmpThreadNum(int_("threads"));
    if (bool_("h0")) a.setParallelType(ParallelType::OpenMP);
    if (bool_("h1")) a.setGWSSMode(GWSS::GWSSMode::Correlation);
    if (bool_("h2")) a.setParallelType(ParallelType::SerialOnly);
    if (bool_("h3")) a.setGWSSMode(GWSS::GWSSMode::Average);
    if (bool_("h4")) a.setParallelType(ParallelType::OpenMP);
    if (bool_("h5")) a.setGWSSMode(GWSS::GWSSMode::Correlation);
    if (mode_last) { a.setGWSSMode(m); a.setParallelType(p); }
    else { a.setParallelType(p); a.setGWSSMode(m); }
    b.setParallelType(p); b.setGWSSMode(m);
    threaded("threads used for the statistics", [&] { a.run(); }, threads);
    b.run();
    same("local mean", a.localMean(), b.localMean());
    same("local variance", a.localVar(), b.localVar());
    if (corr) same("local covariance", a.localCov(), b.localCov());
    else same("local standard deviation", a.localSDev(), b.localSDev());
}
void claim_order_summary_average_omp() { summary(true, false, false); }
void claim_order_summary_average_omp_mode_last() { summary(true, false, true); }
void claim_order_summary_correlation_omp() { summary(true, true, false); }
void claim_order_summary_correlation_omp_mode_last() { summary(true, true, true); }
void claim_order_summary_average_serial() { summary(false, false, false); }
void claim_order_summary_average_serial_mode_last() { summary(false, false, true); }
void claim_order_summary_correlation_serial() { summary(false, true, false); }
void claim_order_summary_correlation_serial_mode_last() { summary(false, true, true); }

// ---- a mode that is not available is refused
template<class A> static void refused()
{
    A a;
    bool h = bool_("h0");
    if (h) a.setParallelType(ParallelType::OpenMP);
    int before = (int)a.parallelType();
    a.setParallelType(ParallelType::CUDA);
    same("mode after an unavailable one was asked for", (int)a.parallelType(), before);
}
void claim_order_refused_basic() { refused<GWRBasic>(); }
void claim_order_refused_robust() { refused<GWRRobust>(); }
void claim_order_refused_space_time() { refused<GTWR>(); }
void claim_order_refused_density() { refused<GWDR>(); }
void claim_order_refused_summary() { refused<GWSS>(); }
}
