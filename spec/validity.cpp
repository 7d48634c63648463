#include "gwr_common.h"
#include "gwmodelpp/GWRBasic.h"
#include "gwmodelpp/GWRRobust.h"
#include "gwmodelpp/GWRGeneralized.h"
#include "gwmodelpp/GWRLocalCollinearity.h"
#include "gwmodelpp/GWRScalable.h"
#include "gwmodelpp/GWRMultiscale.h"
#include "gwmodelpp/GTWR.h"
#include "gwmodelpp/GWDR.h"
#include "gwmodelpp/GWDA.h"
#include "gwmodelpp/GWSS.h"
#include "gwmodelpp/GWPCA.h"
#include "gwmodelpp/spatialweight/CRSSTDistance.h"
#include "gwmodelpp/spatialweight/OneDimDistance.h"

// isValid() is exactly the stated condition on the input; nx, ny, nu are independent of each other
namespace claims_validity
{
#define SIZES uword nx = int_("nx"), ny = int_("ny"), nu = int_("nu"), k = int_("k"); (void) ny; \
    mat x = mat_("x", nx, k), u = mat_("u", nu, 2); vec y = vec_("y", ny); double b = real_("b"); bool adaptive = bool_("adaptive"); \
    BandwidthWeight w(b, adaptive, BandwidthWeight::Bisquare); CRSDistance d(false); SpatialWeight sw(&w, &d), none; (void) none;

// what is missing makes it invalid, whatever the rest is
template<class A, class X, class Y> static void missing(X setx, Y sety, bool dependent)
{
    SIZES
    { A a; sety(a, y); setx(a, x); a.setSpatialWeight(sw); same("without coordinates", a.isValid(), false); }
    { A a; a.setCoords(u); sety(a, y); setx(a, x); same("without weights", a.isValid(), false); }
    { A a; a.setCoords(u); sety(a, y); setx(a, x); a.setSpatialWeight(none); same("with empty weights", a.isValid(), false); }
    { A a; a.setCoords(u); sety(a, y); a.setSpatialWeight(sw); same("without variables", a.isValid(), false); }
    if (dependent)
    { A a; a.setCoords(u); setx(a, x); a.setSpatialWeight(sw); same("without dependent variable", a.isValid(), false); }
    { A a; same("without anything", a.isValid(), false); }
}
template<class A> static void regression_missing()
{
    missing<A>([](A& a, const mat& x) { a.setIndependentVariables(x); }, [](A& a, const vec& y) { a.setDependentVariable(y); }, true);
}
template<class A> static void variables_missing()
{
    missing<A>([](A& a, const mat& x) { a.setVariables(x); }, [](A&, const vec&) {}, false);
}
template<class A> static bool regression(A& a, const mat& x, const vec& y, const mat& u, const SpatialWeight& sw)
{
    a.setCoords(u); a.setDependentVariable(y); a.setIndependentVariables(x); a.setSpatialWeight(sw);
    return a.isValid();
}
void claim_valid_basic() { SIZES GWRBasic a; same("valid", regression(a, x, y, u, sw), nx == ny && nx == nu && b > 0); }
void claim_valid_robust() { SIZES GWRRobust a; same("valid", regression(a, x, y, u, sw), nx == ny && nx == nu && b > 0); }
void claim_valid_generalized() { SIZES GWRGeneralized a; same("valid", regression(a, x, y, u, sw), nx == ny && nx == nu); }
void claim_valid_collinearity() { SIZES GWRLocalCollinearity a; same("valid", regression(a, x, y, u, sw), nx == ny && nx == nu); }
void claim_valid_gtwr()
{
    SIZES
    CRSDistance sd(false); OneDimDistance td; CRSSTDistance st(&sd, &td, real_("lambda"));
    SpatialWeight s(&w, &st);
    GTWR a; a.setDependentVariable(y); a.setIndependentVariables(x); a.setSpatialWeight(s); a.setCoords(u, vec_("t", nu));
    same("valid", a.isValid(), nx == ny && nx == nu && b > 0);
}
static void scalable(BandwidthWeight::KernelFunctionType kernel, bool may)
{
    SIZES
    BandwidthWeight kw(b, adaptive, kernel);
    SpatialWeight s(&kw, &d);
    GWRScalable a; same("valid", regression(a, x, y, u, s), may && nx == ny && nx == nu && b > 0);
}
void claim_valid_scalable_gaussian() { scalable(BandwidthWeight::Gaussian, true); }
void claim_valid_scalable_exponential() { scalable(BandwidthWeight::Exponential, true); }
void claim_valid_scalable_bisquare() { scalable(BandwidthWeight::Bisquare, false); }
void claim_valid_scalable_tricube() { scalable(BandwidthWeight::Tricube, false); }
void claim_valid_scalable_boxcar() { scalable(BandwidthWeight::Boxcar, false); }
void claim_valid_gwss() { SIZES GWSS a; a.setCoords(u); a.setVariables(x); a.setSpatialWeight(sw); same("valid", a.isValid(), nx == nu); }
void claim_valid_gwpca()
{
    SIZES
    int comps = int_("comps");
    GWPCA a; a.setCoords(u); a.setVariables(x); a.setSpatialWeight(sw); a.setKeepComponents(comps);
    same("valid", a.isValid(), nx == nu);
    GWPCA c; c.setCoords(u); c.setVariables(x); c.setSpatialWeight(sw); c.setKeepComponents(0);
    same("valid without components", c.isValid(), false);
    GWPCA e; e.setCoords(u); e.setVariables(x); e.setSpatialWeight(sw); e.setKeepComponents(0 - comps);
    same("valid with a negative number of components", e.isValid(), false);
}
void claim_valid_gwda()
{
    SIZES
    std::vector<std::string> g; // no labels at all
    GWDA a; a.setCoords(u); a.setVariables(x); a.setGroup(g); a.setSpatialWeight(sw);
    same("valid without labels", a.isValid(), false);
    GWDA c; c.setCoords(u); c.setSpatialWeight(sw);
    same("valid without variables", c.isValid(), false);
    GWDA e; e.setVariables(x); e.setSpatialWeight(sw);
    same("valid without coordinates", e.isValid(), false);
    std::vector<std::string> two; two.push_back("a"); two.push_back("b");
    GWDA f; f.setCoords(u); f.setVariables(x); f.setGroup(two); f.setSpatialWeight(sw);
    same("valid with two labels", f.isValid(), nx == 2 && nx == nu);
    GWDA h; h.setCoords(u); h.setVariables(x); h.setGroup(two);
    same("valid without weights", h.isValid(), false);
}
void claim_missing_basic() { regression_missing<GWRBasic>(); }
void claim_missing_robust() { regression_missing<GWRRobust>(); }
void claim_missing_generalized() { regression_missing<GWRGeneralized>(); }
void claim_missing_collinearity() { regression_missing<GWRLocalCollinearity>(); }
void claim_missing_scalable() { regression_missing<GWRScalable>(); }
void claim_missing_gwss() { variables_missing<GWSS>(); }
void claim_missing_gwpca() { variables_missing<GWPCA>(); }
void claim_missing_gtwr()
{
    SIZES
    CRSDistance sd(false); OneDimDistance td; CRSSTDistance st(&sd, &td, real_("lambda"));
    SpatialWeight s(&w, &st); vec t = vec_("t", nu);
    { GTWR a; a.setDependentVariable(y); a.setIndependentVariables(x); a.setSpatialWeight(s); same("without coordinates", a.isValid(), false); }
    { GTWR a; a.setCoords(u, t); a.setDependentVariable(y); a.setIndependentVariables(x); same("without weights", a.isValid(), false); }
    { GTWR a; a.setCoords(u, t); a.setDependentVariable(y); a.setSpatialWeight(s); same("without variables", a.isValid(), false); }
    { GTWR a; a.setCoords(u, t); a.setIndependentVariables(x); a.setSpatialWeight(s); same("without dependent variable", a.isValid(), false); }
}
// one weight per coordinate dimension
static bool density(GWDR& a, const mat& x, const vec& y, const mat& u, const std::vector<SpatialWeight>& s)
{
    a.setCoords(u); a.setDependentVariable(y); a.setIndependentVariables(x); a.setSpatialWeights(s);
    return a.isValid();
}
void claim_valid_gwdr()
{
    SIZES
    SpatialWeight fine(&w, &d);
    std::vector<SpatialWeight> zero, one, two, broken;
    one.push_back(fine); two.push_back(fine); two.push_back(fine); broken.push_back(fine); broken.push_back(none);
    mat u1 = mat_("u1", nu, 1), u3 = mat_("u3", nu, 3);
    { GWDR a; same("two weights for two dimensions", density(a, x, y, u, two), nx == ny && nx == nu); }
    { GWDR a; same("one weight for one dimension", density(a, x, y, u1, one), nx == ny && nx == nu); }
    { GWDR a; same("one weight for two dimensions", density(a, x, y, u, one), false); }
    { GWDR a; same("two weights for one dimension", density(a, x, y, u1, two), false); }
    { GWDR a; same("two weights for three dimensions", density(a, x, y, u3, two), false); }
    { GWDR a; same("no weights", density(a, x, y, u, zero), false); }
    { GWDR a; same("an empty weight among them", density(a, x, y, u, broken), false); }
    { GWDR a; a.setDependentVariable(y); a.setIndependentVariables(x); a.setSpatialWeights(zero); same("without coordinates", a.isValid(), false); }
    { GWDR a; a.setCoords(u); a.setDependentVariable(y); a.setSpatialWeights(two); same("without variables", a.isValid(), false); }
    { GWDR a; a.setCoords(u); a.setIndependentVariables(x); a.setSpatialWeights(two); same("without dependent variable", a.isValid(), false); }
}
// one option of each kind per variable
struct Multi
{
    GWRMultiscale a;
    std::vector<SpatialWeight> s;
    std::vector<GWRMultiscale::BandwidthInitilizeType> init;
    std::vector<GWRMultiscale::BandwidthSelectionCriterionType> approach;
    std::vector<bool> centred;
    std::vector<double> thresholds;
    void put(size_t weights, size_t inits, size_t approaches, size_t centreds, size_t limits, const SpatialWeight& sw, GWRMultiscale::BandwidthInitilizeType how)
    {
        for (size_t i = 0; i < weights; i++) s.push_back(sw);
        for (size_t i = 0; i < inits; i++) init.push_back(how);
        for (size_t i = 0; i < approaches; i++) approach.push_back(GWRMultiscale::BandwidthSelectionCriterionType::AIC);
        for (size_t i = 0; i < centreds; i++) centred.push_back(true);
        for (size_t i = 0; i < limits; i++) thresholds.push_back(1e-5);
        a.mSpatialWeights = s; a.mBandwidthInitilize = init; a.mBandwidthSelectionApproach = approach; a.mPreditorCentered = centred; a.mBandwidthSelectThreshold = thresholds;
    }
};
static bool multiscale(size_t weights, size_t inits, size_t approaches, size_t centreds, size_t limits, GWRMultiscale::BandwidthInitilizeType how, const mat& x, const vec& y, const mat& u, const SpatialWeight& sw)
{
    Multi m; m.put(weights, inits, approaches, centreds, limits, sw, how);
    m.a.setCoords(u); m.a.setDependentVariable(y); m.a.setIndependentVariables(x);
    return m.a.isValid();
}
#define MULTI SIZES mat x2 = mat_("x2", nx, 2); typedef GWRMultiscale G;
void claim_valid_multiscale_null() { MULTI same("valid", multiscale(2, 2, 2, 2, 2, G::Null, x2, y, u, sw), nx == ny && nx == nu); }
void claim_valid_multiscale_specified_fixed() { MULTI BandwidthWeight f(b, false, BandwidthWeight::Bisquare); same("valid", multiscale(2, 2, 2, 2, 2, G::Specified, x2, y, u, SpatialWeight(&f, &d)), nx == ny && nx == nu && b >= 0); }
void claim_valid_multiscale_specified_adaptive() { MULTI BandwidthWeight f(b, true, BandwidthWeight::Bisquare); same("valid", multiscale(2, 2, 2, 2, 2, G::Specified, x2, y, u, SpatialWeight(&f, &d)), nx == ny && nx == nu && b > 1); }
void claim_valid_multiscale_initial_fixed() { MULTI BandwidthWeight f(b, false, BandwidthWeight::Bisquare); same("valid", multiscale(2, 2, 2, 2, 2, G::Initial, x2, y, u, SpatialWeight(&f, &d)), nx == ny && nx == nu && b >= 0); }
void claim_valid_multiscale_initial_adaptive() { MULTI BandwidthWeight f(b, true, BandwidthWeight::Bisquare); same("valid", multiscale(2, 2, 2, 2, 2, G::Initial, x2, y, u, SpatialWeight(&f, &d)), nx == ny && nx == nu && b > 1); }
void claim_missing_multiscale()
{
    MULTI
    same("too few weights", multiscale(1, 2, 2, 2, 2, G::Null, x2, y, u, sw), false);
    same("too many weights", multiscale(3, 2, 2, 2, 2, G::Null, x2, y, u, sw), false);
    same("too few initialisations", multiscale(2, 1, 2, 2, 2, G::Null, x2, y, u, sw), false);
    same("too few approaches", multiscale(2, 2, 1, 2, 2, G::Null, x2, y, u, sw), false);
    same("too few centring flags", multiscale(2, 2, 2, 1, 2, G::Null, x2, y, u, sw), false);
    same("too few thresholds", multiscale(2, 2, 2, 2, 1, G::Null, x2, y, u, sw), false);
    same("too many thresholds", multiscale(2, 2, 2, 2, 3, G::Null, x2, y, u, sw), false);
    same("empty weights", multiscale(2, 2, 2, 2, 2, G::Null, x2, y, u, none), false);
    same("without coordinates", multiscale(2, 2, 2, 2, 2, G::Null, x2, y, mat(), sw), false);
    same("without variables", multiscale(2, 2, 2, 2, 2, G::Null, mat(), y, u, sw), false);
    same("without dependent variable", multiscale(2, 2, 2, 2, 2, G::Null, x2, vec(), u, sw), false);
}
// the setters of the options of the variables refuse vectors of the wrong length
void claim_valid_multiscale_refused()
{
    MULTI (void) sizeof(G);
    std::vector<GWRMultiscale::BandwidthInitilizeType> i1, i3; std::vector<GWRMultiscale::BandwidthSelectionCriterionType> a1, a3;
    i1.push_back(G::Null); a1.push_back(GWRMultiscale::BandwidthSelectionCriterionType::CV);
    for (int i = 0; i < 3; i++) { i3.push_back(G::Null); a3.push_back(GWRMultiscale::BandwidthSelectionCriterionType::CV); }
    GWRMultiscale a; a.setIndependentVariables(x2);
    throws("one initialisation for two variables", [&]() { a.setBandwidthInitilize(i1); });
    throws("three initialisations for two variables", [&]() { a.setBandwidthInitilize(i3); });
    throws("one approach for two variables", [&]() { a.setBandwidthSelectionApproach(a1); });
    throws("three approaches for two variables", [&]() { a.setBandwidthSelectionApproach(a3); });
}
// at the limits of the bandwidth
static SpatialWeight at_(double b, bool adaptive, const Distance* d, BandwidthWeight::KernelFunctionType kernel = BandwidthWeight::Gaussian) { BandwidthWeight w(b, adaptive, kernel); return SpatialWeight(&w, d); }
template<class A> static void limit()
{
    SIZES
    { A a; same("bandwidth zero", regression(a, x, y, u, at_(0.0, adaptive, &d)), false); }
    { A a; same("negative bandwidth", regression(a, x, y, u, at_(-1.0, adaptive, &d)), false); }
    { A a; same("small bandwidth", regression(a, x, y, u, at_(1e-6, adaptive, &d)), nx == ny && nx == nu); }
}
void claim_valid_limit_basic() { limit<GWRBasic>(); }
void claim_valid_limit_robust() { limit<GWRRobust>(); }
void claim_valid_limit_scalable() { limit<GWRScalable>(); }
void claim_valid_limit_gtwr()
{
    SIZES
    CRSDistance sd(false); OneDimDistance td; CRSSTDistance st(&sd, &td, real_("lambda"));
    double at[] = { 0.0, -1.0 };
    for (int i = 0; i < 2; i++)
    {
        GTWR a; a.setDependentVariable(y); a.setIndependentVariables(x); a.setSpatialWeight(at_(at[i], adaptive, &st)); a.setCoords(u, vec_("t", nu));
        same("bandwidth zero or less", a.isValid(), false);
    }
}
static void limit_multiscale(GWRMultiscale::BandwidthInitilizeType how)
{
    MULTI (void) sizeof(G);
    same("adaptive bandwidth one", multiscale(2, 2, 2, 2, 2, how, x2, y, u, at_(1.0, true, &d)), false);
    same("adaptive bandwidth two", multiscale(2, 2, 2, 2, 2, how, x2, y, u, at_(2.0, true, &d)), nx == ny && nx == nu);
    same("fixed bandwidth zero", multiscale(2, 2, 2, 2, 2, how, x2, y, u, at_(0.0, false, &d)), nx == ny && nx == nu);
    same("fixed bandwidth one", multiscale(2, 2, 2, 2, 2, how, x2, y, u, at_(1.0, false, &d)), nx == ny && nx == nu);
    same("negative fixed bandwidth", multiscale(2, 2, 2, 2, 2, how, x2, y, u, at_(-0.5, false, &d)), false);
}
void claim_valid_limit_multiscale_specified() { limit_multiscale(GWRMultiscale::Specified); }
void claim_valid_limit_multiscale_initial() { limit_multiscale(GWRMultiscale::Initial); }
void claim_valid_limit_multiscale_null()
{
    MULTI (void) sizeof(G);
    same("adaptive bandwidth one", multiscale(2, 2, 2, 2, 2, G::Null, x2, y, u, at_(1.0, true, &d)), nx == ny && nx == nu);
    same("fixed bandwidth zero", multiscale(2, 2, 2, 2, 2, G::Null, x2, y, u, at_(0.0, false, &d)), nx == ny && nx == nu);
}
// the second variable's bandwidth counts as well
void claim_valid_limit_multiscale_second()
{
    MULTI (void) sizeof(G);
    for (int bad = 0; bad < 2; bad++)
    {
        Multi m; m.put(0, 2, 2, 2, 2, sw, G::Specified);
        for (int i = 0; i < 2; i++) m.s.push_back(at_(i == bad ? 1.0 : 5.0, true, &d));
        m.a.mSpatialWeights = m.s;
        m.a.setCoords(u); m.a.setDependentVariable(y); m.a.setIndependentVariables(x2);
        same("one bandwidth out of range", m.a.isValid(), false);
    }
}
}
