#include "gwr_common.h"
#include "gwmodelpp/GWRBasic.h"
#include "gwmodelpp/GWRRobust.h"
#include "gwmodelpp/GTWR.h"
#include "gwmodelpp/GWDR.h"
#include "gwmodelpp/GWRLocalCollinearity.h"
#include "gwmodelpp/GWSS.h"
#include "gwmodelpp/spatialweight/CRSSTDistance.h"
#include "gwmodelpp/spatialweight/OneDimDistance.h"
#include "gwmodelpp/spatialweight/MinkwoskiDistance.h"

namespace claims_pure
{
#define DATA uword n = int_("n"), k = int_("k"); mat x = mat_("x", n, k), u = mat_("u", n, 2); vec y = vec_("y", n);
#define WEIGHTS CRSDistance d(false); SpatialWeight sw(ptr_<Weight>("w"), &d);
template<class A> static void inputs(A& a, const mat& x, const vec& y, const mat& u)
{
    same("independent variables", a.independentVariables(), x);
    same("dependent variable", a.dependentVariable(), y);
    same("coordinates", a.coords(), u);
}
static void same_diagnostic(const RegressionDiagnostic& a, const RegressionDiagnostic& b)
{
    same("RSS again", a.RSS, b.RSS); same("AIC again", a.AIC, b.AIC); same("AICc again", a.AICc, b.AICc); same("ENP again", a.ENP, b.ENP);
    same("EDF again", a.EDF, b.EDF); same("R2 again", a.RSquare, b.RSquare); same("adjusted R2 again", a.RSquareAdjust, b.RSquareAdjust);
}
// fit, fit again: same answer, same input
template<class A> static void again(A& a, const mat& x, const vec& y, const mat& u)
{
    mat b = a.fit(); RegressionDiagnostic g = a.diagnostic();
    inputs(a, x, y, u);
    mat b2 = a.fit();
    same("coefficients again", b2, b);
    same_diagnostic(a.diagnostic(), g);
    inputs(a, x, y, u);
}
// fit, predict elsewhere, fit again
template<class A> static void around(A& a, const mat& x, const vec& y, const mat& u)
{
    mat v = mat_("v", int_("m"), 2);
    mat b = a.fit();
    mat p = a.predict(v);
    inputs(a, x, y, u);
    mat b2 = a.fit();
    same("coefficients after a prediction", b2, b);
    mat p2 = a.predict(v);
    same("prediction again", p2, p);
    inputs(a, x, y, u);
}
static void basic(GWRBasic& a, const mat& x, const vec& y, const mat& u, const SpatialWeight& sw, ParallelType p)
{
    a.setCoords(u); a.setDependentVariable(y); a.setIndependentVariables(x); a.setSpatialWeight(sw);
    a.setParallelType(p); a.setOmpThreadNum(int_("threads")); a.setHasHatMatrix(true);
}
void claim_again_basic_serial() { DATA WEIGHTS GWRBasic a; basic(a, x, y, u, sw, ParallelType::SerialOnly); again(a, x, y, u); }
void claim_again_basic_omp() { DATA WEIGHTS GWRBasic a; basic(a, x, y, u, sw, ParallelType::OpenMP); again(a, x, y, u); }
void claim_around_basic_serial() { DATA WEIGHTS GWRBasic a; basic(a, x, y, u, sw, ParallelType::SerialOnly); around(a, x, y, u); }
void claim_around_basic_omp() { DATA WEIGHTS GWRBasic a; basic(a, x, y, u, sw, ParallelType::OpenMP); around(a, x, y, u); }
// a criterion evaluated twice, around a fit
static void criterion_basic(GWRBasic::BandwidthSelectionCriterionType c, ParallelType p)
{
    DATA WEIGHTS
    GWRBasic a; basic(a, x, y, u, sw, p); a.setBandwidthSelectionCriterion(c);
    a.fit();
    double v1 = 0, v2 = 0;
    a.getCriterion(ptr_<BandwidthWeight>("bw"), v1);
    a.fit();
    a.getCriterion(ptr_<BandwidthWeight>("bw"), v2);
    same("criterion again", v2, v1);
    inputs(a, x, y, u);
}
void claim_criterion_cv_serial() { criterion_basic(GWRBasic::CV, ParallelType::SerialOnly); }
void claim_criterion_cv_omp() { criterion_basic(GWRBasic::CV, ParallelType::OpenMP); }
void claim_criterion_aic_serial() { criterion_basic(GWRBasic::AIC, ParallelType::SerialOnly); }
void claim_criterion_aic_omp() { criterion_basic(GWRBasic::AIC, ParallelType::OpenMP); }
static void robust(bool filtered, ParallelType p)
{
    DATA WEIGHTS
    GWRRobust a; basic(a, x, y, u, sw, p); a.setFiltered(filtered);
    a.setParallelType(p);
    mat b = a.fit();
    inputs(a, x, y, u);
    mat b2 = a.fit();
    same("coefficients again", b2, b);
    inputs(a, x, y, u);
}
void claim_again_filtered_serial() { robust(true, ParallelType::SerialOnly); }
void claim_again_filtered_omp() { robust(true, ParallelType::OpenMP); }
static void gtwr(GTWR& a, const mat& x, const vec& y, const mat& u, ParallelType p)
{
    vec t = vec_("t", x.n_rows);
    CRSDistance s(false); OneDimDistance o;
    CRSSTDistance d(&s, &o, real_("lambda"));
    SpatialWeight sw(ptr_<BandwidthWeight>("w"), &d);
    a.setCoords(u, t); a.setDependentVariable(y); a.setIndependentVariables(x); a.setSpatialWeight(sw);
    a.setHasHatMatrix(true); a.setParallelType(p); a.setOmpThreadNum(int_("threads"));
}
void claim_again_gtwr_serial() { DATA GTWR a; gtwr(a, x, y, u, ParallelType::SerialOnly); again(a, x, y, u); }
void claim_again_gtwr_omp() { DATA GTWR a; gtwr(a, x, y, u, ParallelType::OpenMP); again(a, x, y, u); }
static void gwdr(ParallelType p)
{
    DATA
    OneDimDistance d;
    std::vector<SpatialWeight> sw;
    sw.push_back(SpatialWeight(ptr_<Weight>("w0"), &d)); sw.push_back(SpatialWeight(ptr_<Weight>("w1"), &d));
    GWDR a; a.setCoords(u); a.setDependentVariable(y); a.setIndependentVariables(x); a.setSpatialWeights(sw);
    a.setParallelType(p); a.setOmpThreadNum(int_("threads"));
    again(a, x, y, u);
}
void claim_again_gwdr_serial() { gwdr(ParallelType::SerialOnly); }
void claim_again_gwdr_omp() { gwdr(ParallelType::OpenMP); }
static void lcr(GWRLocalCollinearity& a, const mat& x, const vec& y, const mat& u, const SpatialWeight& sw, ParallelType p)
{
    a.setCoords(u); a.setDependentVariable(y); a.setIndependentVariables(x); a.setSpatialWeight(sw);
    a.setHasHatMatrix(true); a.setLambda(real_("lambda")); a.setLambdaAdjust(false); a.setCnThresh(real_("thresh"));
    a.setParallelType(p); a.setOmpThreadNum(int_("threads"));
}
void claim_again_lcr_serial() { DATA WEIGHTS GWRLocalCollinearity a; lcr(a, x, y, u, sw, ParallelType::SerialOnly); again(a, x, y, u); }
void claim_again_lcr_omp() { DATA WEIGHTS GWRLocalCollinearity a; lcr(a, x, y, u, sw, ParallelType::OpenMP); again(a, x, y, u); }
void claim_around_lcr_serial() { DATA WEIGHTS GWRLocalCollinearity a; lcr(a, x, y, u, sw, ParallelType::SerialOnly); around(a, x, y, u); }
void claim_around_lcr_omp() { DATA WEIGHTS GWRLocalCollinearity a; lcr(a, x, y, u, sw, ParallelType::OpenMP); around(a, x, y, u); }
static void gwss(ParallelType p)
{
    uword n = int_("n"); mat x = mat_("x", n, int_("k")), u = mat_("u", n, 2);
    WEIGHTS
    GWSS a; a.setCoords(u); a.setVariables(x); a.setSpatialWeight(sw);
    a.setParallelType(p); a.setOmpThreadNum(int_("threads"));
    a.run();
    mat m = a.localMean(), s = a.localSDev(), v = a.localVar(), c = a.localCV(), w = a.localSkewness();
    same("variables", a.variables(), x); same("coordinates", a.coords(), u);
    a.run();
    same("mean again", a.localMean(), m); same("deviation again", a.localSDev(), s); same("variance again", a.localVar(), v);
    same("coefficient of variation again", a.localCV(), c); same("skewness again", a.localSkewness(), w);
    same("variables", a.variables(), x); same("coordinates", a.coords(), u);
}
void claim_again_gwss_serial() { gwss(ParallelType::SerialOnly); }
void claim_again_gwss_omp() { gwss(ParallelType::OpenMP); }
// queries leave what is queried as it is
template<class D> static void query(D& d, bool ranges)
{
    uword i = int_("i"), j = int_("j");
    vec a = d.distance(i);
    d.distance(j);
    if (ranges) { d.maxDistance(); d.minDistance(); }
    same("distance again", d.distance(i), a);
}
void claim_query_euclid() { CRSDistance d(false); d.makeParameter({ mat_("f", int_("n"), 2), mat_("g", int_("m"), 2) }); query(d, true); }
void claim_query_great() { CRSDistance d(true); d.makeParameter({ mat_("f", int_("n"), 2), mat_("g", int_("m"), 2) }); query(d, true); }
void claim_query_minkowski() { MinkwoskiDistance d(real_("p"), real_("theta")); d.makeParameter({ mat_("f", int_("n"), 2), mat_("g", int_("m"), 2) }); query(d, false); }
void claim_query_onedim() { OneDimDistance d; d.makeParameter({ vec_("f", int_("n")), vec_("g", int_("m")) }); query(d, true); }
static void kernel(BandwidthWeight::KernelFunctionType f, bool adaptive)
{
    BandwidthWeight w(real_("b"), adaptive, f);
    vec d = vec_("d", int_("n")), e = vec_("e", int_("m"));
    vec a = w.weight(d);
    w.weight(e);
    same("weights again", w.weight(d), a);
    same("distances", d, vec_("d", int_("n")));
    same("bandwidth", w.bandwidth(), real_("b"));
    same("adaptive", w.adaptive(), adaptive);
    same("kernel", (int)w.kernel(), (int)f);
}
void claim_query_gaussian() { kernel(BandwidthWeight::Gaussian, false); }
void claim_query_gaussian_adaptive() { kernel(BandwidthWeight::Gaussian, true); }
void claim_query_exponential() { kernel(BandwidthWeight::Exponential, false); }
void claim_query_exponential_adaptive() { kernel(BandwidthWeight::Exponential, true); }
void claim_query_bisquare() { kernel(BandwidthWeight::Bisquare, false); }
void claim_query_bisquare_adaptive() { kernel(BandwidthWeight::Bisquare, true); }
void claim_query_tricube() { kernel(BandwidthWeight::Tricube, false); }
void claim_query_tricube_adaptive() { kernel(BandwidthWeight::Tricube, true); }
void claim_query_boxcar() { kernel(BandwidthWeight::Boxcar, false); }
void claim_query_boxcar_adaptive() { kernel(BandwidthWeight::Boxcar, true); }
}
