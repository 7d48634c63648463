#include "gwr_common.h"
#include "gwmodelpp/GWRBasic.h"
#include "gwmodelpp/GWRRobust.h"
#include "gwmodelpp/GTWR.h"
#include "gwmodelpp/GWDR.h"
#include "gwmodelpp/GWSS.h"
#include "gwmodelpp/spatialweight/OneDimDistance.h"
#include "gwmodelpp/spatialweight/CRSSTDistance.h"

// the threaded implementation computes what the sequential one computes
namespace claims_modes
{
template<class A> static void mode(A& a, bool threads)
{
    a.setOmpThreadNum(int_("threads"));
    a.setParallelType(threads ? ParallelType::OpenMP : ParallelType::SerialOnly);
}
template<class A> static void agree(A& a, A& b)
{
    same("coefficients", b.betas(), a.betas());
    same("standard errors", b.betasSE(), a.betasSE());
    same("trace of hat matrix", b.sHat()(0), a.sHat()(0));
    same("trace of S'S", b.sHat()(1), a.sHat()(1));
    same("q diagonal", b.qDiag(), a.qDiag());
    same("RSS", b.diagnostic().RSS, a.diagnostic().RSS);
    same("AICc", b.diagnostic().AICc, a.diagnostic().AICc);
    same("R2", b.diagnostic().RSquare, a.diagnostic().RSquare);
}
#define INPUTS uword n = int_("n"), k = int_("k"); \
    mat x = mat_("x", n, k), u = mat_("u", n, 2); vec y = vec_("y", n);

// ---- basic regression
template<class A> static void load(A& a, const mat& x, const vec& y, const mat& u)
{
    CRSDistance d(false);
    a.setCoords(u); a.setDependentVariable(y); a.setIndependentVariables(x);
    a.setSpatialWeight(SpatialWeight(ptr_<BandwidthWeight>("bw"), &d));
}
void claim_modes_basic_fit()
{
    INPUTS
    GWRBasic a, b; load(a, x, y, u); load(b, x, y, u); mode(a, false); mode(b, true);
    a.setStoreS(true); b.setStoreS(true); a.setStoreC(true); b.setStoreC(true);
    a.fit(); b.fit();
    agree(a, b);
    same("stored hat matrix", b.s(), a.s());
    same("stored projection matrices", b.c(), a.c());
}
void claim_modes_basic_fit_without_hat()
{
    INPUTS
    GWRBasic a, b; load(a, x, y, u); load(b, x, y, u); mode(a, false); mode(b, true);
    a.setHasHatMatrix(false); b.setHasHatMatrix(false);
    a.fit(); b.fit();
    same("coefficients", b.betas(), a.betas());
}
void claim_modes_basic_predict()
{
    INPUTS
    GWRBasic a, b; load(a, x, y, u); load(b, x, y, u); mode(a, false); mode(b, true);
    mat v = mat_("v", int_("m"), 2);
    same("predicted coefficients", b.predict(v), a.predict(v));
}
template<class A, class C> static double bandwidth_criterion(A& a, C c)
{
    a.setBandwidthSelectionCriterion(c);
    a.createDistanceParameter();
    double v = 0;
    a.getCriterion(ptr_<BandwidthWeight>("bw"), v);
    return v;
}
static void basic_bandwidth(GWRBasic::BandwidthSelectionCriterionType c)
{
    INPUTS
    GWRBasic a, b; load(a, x, y, u); load(b, x, y, u); mode(a, false); mode(b, true);
    double va = bandwidth_criterion(a, c), vb = bandwidth_criterion(b, c);
    same("bandwidth criterion", vb, va);
}
void claim_modes_basic_cv() { basic_bandwidth(GWRBasic::BandwidthSelectionCriterionType::CV); }
void claim_modes_basic_aic() { basic_bandwidth(GWRBasic::BandwidthSelectionCriterionType::AIC); }
template<class A> static double variables(A& a, const std::vector<size_t>& vars)
{
    a.setHasIntercept(false);
    double v = 0;
    a.getCriterion(vars, v);
    return v;
}
void claim_modes_basic_variables()
{
    INPUTS
    GWRBasic a, b; load(a, x, y, u); load(b, x, y, u); mode(a, false); mode(b, true);
    a.createDistanceParameter(); b.createDistanceParameter();
    std::vector<size_t> vars = objs_<size_t>("vars", int_("p"));
    double va = variables(a, vars), vb = variables(b, vars);
    same("variable criterion", vb, va);
}
// ---- robust regression
void claim_modes_robust_predict()
{
    INPUTS
    GWRRobust a, b; load(a, x, y, u); load(b, x, y, u); mode(a, false); mode(b, true);
    mat v = mat_("v", int_("m"), 2);
    same("predicted coefficients", b.predict(v), a.predict(v));
}
static void robust_bandwidth(GWRBasic::BandwidthSelectionCriterionType c)
{
    INPUTS
    GWRRobust a, b; load(a, x, y, u); load(b, x, y, u); mode(a, false); mode(b, true);
    double va = bandwidth_criterion(a, c), vb = bandwidth_criterion(b, c);
    same("bandwidth criterion", vb, va);
}
void claim_modes_robust_cv() { robust_bandwidth(GWRBasic::BandwidthSelectionCriterionType::CV); }
void claim_modes_robust_aic() { robust_bandwidth(GWRBasic::BandwidthSelectionCriterionType::AIC); }
// ---- space-time regression
static void load_st(GTWR& a, const mat& x, const vec& y, const mat& u, const vec& t)
{
    CRSDistance sd(false); OneDimDistance td; CRSSTDistance d(&sd, &td, 0.5);
    a.setCoords(u, t); a.setDependentVariable(y); a.setIndependentVariables(x);
    a.setSpatialWeight(SpatialWeight(ptr_<BandwidthWeight>("bw"), &d));
}
void claim_modes_space_time_fit()
{
    INPUTS vec t = vec_("t", n);
    GTWR a, b; load_st(a, x, y, u, t); load_st(b, x, y, u, t); mode(a, false); mode(b, true);
    a.fit(); b.fit();
    agree(a, b);
    same("stored hat matrix", b.s(), a.s());
}
void claim_modes_space_time_predict()
{
    INPUTS vec t = vec_("t", n);
    GTWR a, b; load_st(a, x, y, u, t); load_st(b, x, y, u, t); mode(a, false); mode(b, true);
    same("predicted coefficients", b.predict(u), a.predict(u));
}
static void st_bandwidth(GTWR::BandwidthSelectionCriterionType c)
{
    INPUTS vec t = vec_("t", n);
    GTWR a, b; load_st(a, x, y, u, t); load_st(b, x, y, u, t); mode(a, false); mode(b, true);
    double va = bandwidth_criterion(a, c), vb = bandwidth_criterion(b, c);
    same("bandwidth criterion", vb, va);
}
void claim_modes_space_time_cv() { st_bandwidth(GTWR::CV); }
void claim_modes_space_time_aic() { st_bandwidth(GTWR::AIC); }
// ---- density regression
static void load_dr(GWDR& a, const mat& x, const vec& y, const mat& u)
{
    OneDimDistance d;
    std::vector<SpatialWeight> s;
    s.push_back(SpatialWeight(ptr_<BandwidthWeight>("bw0"), &d));
    s.push_back(SpatialWeight(ptr_<BandwidthWeight>("bw1"), &d));
    for (size_t m = 0; m < s.size(); m++) s[m].distance()->makeParameter({ vec(u.col(m)), vec(u.col(m)) });
    a.setCoords(u); a.setDependentVariable(y); a.setIndependentVariables(x); a.setSpatialWeights(s);
}
void claim_modes_density_fit()
{
    INPUTS
    GWDR a, b; load_dr(a, x, y, u); load_dr(b, x, y, u); mode(a, false); mode(b, true);
    a.fit(); b.fit();
    agree(a, b);
    same("stored hat matrix", b.s(), a.s());
}
static double dr_criterion(GWDR& a, GWDR::BandwidthCriterionType c)
{
    a.setBandwidthCriterionType(c);
    std::vector<BandwidthWeight*> b;
    b.push_back(ptr_<BandwidthWeight>("bw0")); b.push_back(ptr_<BandwidthWeight>("bw1"));
    return a.bandwidthCriterion(b);
}
static void dr_bandwidth(GWDR::BandwidthCriterionType c)
{
    INPUTS
    GWDR a, b; load_dr(a, x, y, u); load_dr(b, x, y, u); mode(a, false); mode(b, true);
    double va = dr_criterion(a, c), vb = dr_criterion(b, c);
    same("bandwidth criterion", vb, va);
}
void claim_modes_density_cv() { dr_bandwidth(GWDR::BandwidthCriterionType::CV); }
void claim_modes_density_aic() { dr_bandwidth(GWDR::BandwidthCriterionType::AIC); }
static void dr_variables(bool global)
{
    INPUTS
    GWDR a, b; load_dr(a, x, y, u); load_dr(b, x, y, u); mode(a, false); mode(b, true);
    a.setEnableBandwidthOptimize(global); b.setEnableBandwidthOptimize(global);
    std::vector<size_t> vars = objs_<size_t>("vars", int_("p"));
    double va = variables(a, vars), vb = variables(b, vars);
    same("variable criterion", vb, va);
}
void claim_modes_density_variables() { dr_variables(false); }
void claim_modes_density_variables_global() { dr_variables(true); }
// ---- summary statistics
static void summary(GWSS::GWSSMode m, bool quantile, uword k, bool first)
{
    uword n = int_("n");
    mat x = mat_("x", n, k), u = mat_("u", n, 2);
    GWSS a, b;
    CRSDistance d(false); SpatialWeight s(ptr_<BandwidthWeight>("bw"), &d);
    a.setCoords(u); a.setVariables(x); a.setSpatialWeight(s); a.setGWSSMode(m); a.setQuantile(quantile); a.setIsCorrWithFirstOnly(first);
    b.setCoords(u); b.setVariables(x); b.setSpatialWeight(s); b.setGWSSMode(m); b.setQuantile(quantile); b.setIsCorrWithFirstOnly(first);
    mode(a, false); mode(b, true);
    a.run(); b.run();
    same("local mean", b.localMean(), a.localMean());
    same("local variance", b.localVar(), a.localVar());
    if (m == GWSS::GWSSMode::Correlation)
    {
        same("local covariance", b.localCov(), a.localCov());
        same("local Pearson correlation", b.localCorr(), a.localCorr());
        same("local Spearman correlation", b.localSCorr(), a.localSCorr());
    }
    else
    {
        same("local standard deviation", b.localSDev(), a.localSDev());
        same("local skewness", b.localSkewness(), a.localSkewness());
        same("local coefficient of variation", b.localCV(), a.localCV());
        if (quantile)
        {
            same("local median", b.localMedian(), a.localMedian());
            same("local interquartile range", b.iqr(), a.iqr());
            same("local quantile imbalance", b.qi(), a.qi());
        }
    }
}
void claim_modes_summary_average() { summary(GWSS::GWSSMode::Average, false, int_("k"), false); }
void claim_modes_summary_quantiles() { summary(GWSS::GWSSMode::Average, true, int_("k"), false); }
void claim_modes_summary_correlation() { summary(GWSS::GWSSMode::Correlation, false, 3, false); }
void claim_modes_summary_correlation_first() { summary(GWSS::GWSSMode::Correlation, false, 3, true); }
}
