#include "gwr_common.h"
#include "checks.h"
#include "gwmodelpp/GWRMultiscale.h"

// multiscale regression: each variable has its own weights
namespace claims_mgwr
{
typedef GWRMultiscale M;
static void mode(M& a, bool threads)
{
    a.setOmpThreadNum(int_("threads"));
    a.setParallelType(threads ? ParallelType::OpenMP : ParallelType::SerialOnly);
}
// regression of y on one variable with weights of its own
static double slope(const vec& x, const vec& y, const vec& w) { return sum(w % x % y) / sum(w % x % x); }
static vec slopes(const vec& x, const vec& y, const SpatialWeight& s)
{
    vec b(x.n_elem);
    for (uword i = 0; i < x.n_elem; i++) b(i) = slope(x, y, s.weightVector(i));
    return b;
}
static vec slopes_cv(const vec& x, const vec& y, const SpatialWeight& s)
{
    vec b(x.n_elem);
    for (uword i = 0; i < x.n_elem; i++) { vec w = s.weightVector(i); w(i) = 0; b(i) = slope(x, y, w); }
    return b;
}
static mat hat(const vec& x, const SpatialWeight& s)
{
    uword n = x.n_elem;
    mat h(n, n);
    for (uword i = 0; i < n; i++) { vec w = s.weightVector(i); h.row(i) = trans(w % x) * (x(i) / sum(w % x % x)); }
    return h;
}
#define ONE uword n = int_("n"); vec x = vec_("x", n), y = vec_("y", n); mat u = mat_("u", n, 2); SpatialWeight s = Ref::located(Ref::user_sw(), u, u);
static void core(bool threads)
{
    ONE
    M a; a.setCoords(u); a.setHasHatMatrix(true); mode(a, threads);
    mat S;
    vec b = (a.*a.mFitVarCore)(x, y, s, S);
    same("coefficients of one variable", b, slopes(x, y, s));
    same("hat matrix of one variable", S, hat(x, s));
}
void claim_step_serial() { core(false); }
void claim_step_omp() { core(true); }
static void core_nohat(bool threads)
{
    ONE
    M a; a.setCoords(u); a.setHasHatMatrix(false); mode(a, threads);
    mat S;
    vec b = (a.*a.mFitVarCore)(x, y, s, S);
    same("coefficients of one variable", b, slopes(x, y, s));
}
void claim_step_serial_without_hat() { core_nohat(false); }
void claim_step_omp_without_hat() { core_nohat(true); }
// criteria of one variable on the current partial residual
static double criterion(M& a, const vec& x, const vec& y, M::BandwidthSelectionCriterionType t, BandwidthWeight* w)
{
    a.mXi = x; a.mYi = y; a.mBandwidthSelectionCurrentIndex = 1;
    a.mBandwidthSizeCriterion = a.bandwidthSizeCriterionVar(t);
    double v = 0;
    a.getCriterion(w, v);
    return v;
}
static void two(M& a, const mat& u)
{
    CRSDistance d(false);
    std::vector<SpatialWeight> s;
    s.push_back(SpatialWeight(ptr_<Weight>("w0"), &d)); s.push_back(SpatialWeight(ptr_<Weight>("w1"), &d));
    s[0].distance()->makeParameter({ mat(2 * u), mat(2 * u) });
    s[1].distance()->makeParameter({ u, u });
    a.mSpatialWeights = s;
}
static SpatialWeight candidate(const mat& u) { CRSDistance d(false); d.makeParameter({ u, u }); return SpatialWeight(ptr_<BandwidthWeight>("candidate"), &d); }
static void cv(bool threads)
{
    ONE
    M a; a.setCoords(u); two(a, u); mode(a, threads);
    double v = criterion(a, x, y, M::BandwidthSelectionCriterionType::CV, ptr_<BandwidthWeight>("candidate"));
    vec r = y - x % slopes_cv(x, y, candidate(u));
    same("CV criterion", v, dot(r, r));
}
void claim_cv_serial() { cv(false); }
void claim_cv_omp() { cv(true); }
static void aic(bool threads)
{
    ONE
    M a; a.setCoords(u); two(a, u); mode(a, threads);
    double v = criterion(a, x, y, M::BandwidthSelectionCriterionType::AIC, ptr_<BandwidthWeight>("candidate"));
    vec r = y - x % slopes(x, y, candidate(u));
    same("AIC criterion", v, Ref::aicc(n, dot(r, r), trace(hat(x, candidate(u)))));
}
void claim_aic_serial() { aic(false); }
void claim_aic_omp() { aic(true); }

// the hat matrix of a variable and of the model after one refit
void claim_hat_update()
{
    ONE
    M a; a.setCoords(u); two(a, u); mode(a, false); a.setHasHatMatrix(true);
    a.mXi = x; a.mYi = y;
    mat S0 = mat_("S0", n, n), R0 = mat_("R0", n, n), R1 = mat_("R1", n, n);
    a.mS0 = S0; a.mSArray = cube(n, n, 2); a.mSArray.slice(0) = R0; a.mSArray.slice(1) = R1;
    a.fitVarBase(1);
    SpatialWeight s1(ptr_<Weight>("w1"), s.distance());
    mat H = hat(x, s1), R = H * (mat(n, n, fill::eye) - (S0 - R1));
    same("hat matrix of the variable", mat(a.mSArray.slice(1)), R);
    same("hat matrix of the other variable", mat(a.mSArray.slice(0)), R0);
    same("hat matrix of the model", a.mS0, mat(S0 - R1 + R));
}

// ---- back-fitting
struct Step
{
    mat b; vec r; double rss, crit;
    Step(const mat& x, const vec& y, const mat& b0) : b(b0), r(y - Ref::fitted(x, b0)), rss(dot(r, r)), crit(DBL_MAX) {}
    // every variable in turn is refitted on what the others leave
    void sweep(const mat& x, const vec& y, const std::vector<SpatialWeight>& s, bool relative)
    {
        for (uword j = 0; j < x.n_cols; j++)
        {
            vec target = y - Ref::fitted(x, b) + b.col(j) % x.col(j);
            b.col(j) = slopes(x.col(j), target, s[j]);
        }
        double now = Ref::rss(x, y, b), d = fabs(now - rss);
        crit = relative ? sqrt(d / now) : d;
        rss = now;
    }
};
#define SEVERAL(K) uword n = int_("n"); mat x = mat_("x", n, K), u = mat_("u", n, 2), b0 = mat_("b0", n, K); vec y = vec_("y", n);
static void given(M& a, const mat& x, const vec& y, const mat& u, uword k)
{
    CRSDistance d(false); d.makeParameter({ u, u });
    std::vector<SpatialWeight> s; std::vector<M::BandwidthInitilizeType> how; std::vector<M::BandwidthSelectionCriterionType> c; std::vector<bool> centred; std::vector<double> t;
    s.push_back(SpatialWeight(ptr_<BandwidthWeight>("w0"), &d)); s.push_back(SpatialWeight(ptr_<BandwidthWeight>("w1"), &d));
    if (k > 2) s.push_back(SpatialWeight(ptr_<BandwidthWeight>("w2"), &d));
    for (uword i = 0; i < k; i++) { how.push_back(M::BandwidthInitilizeType::Specified); c.push_back(M::BandwidthSelectionCriterionType::CV); centred.push_back(true); t.push_back(1e-5); }
    a.setCoords(u); a.mX = x; a.mY = y;
    a.mSpatialWeights = s; a.mBandwidthInitilize = how; a.mBandwidthSelectionApproach = c; a.mPreditorCentered = centred; a.mBandwidthSelectThreshold = t;
}
static void backfit(uword k, size_t sweeps, bool relative, bool threads, bool once = false)
{
    SEVERAL(k)
    M a; given(a, x, y, u, k); mode(a, threads); a.setHasHatMatrix(false);
    a.setMaxIteration(sweeps);
    a.setCriterionType(relative ? M::BackFittingCriterionType::dCVR : M::BackFittingCriterionType::CVR);
    double limit = once ? -1.0 : real_("limit");
    a.setCriterionThreshold(limit);
    mat b = a.backfitting(b0);
    Step f(x, y, b0);
    for (size_t it = 1; it <= sweeps && f.crit > limit; it++) f.sweep(x, y, a.mSpatialWeights, relative);
    same("coefficients", b, f.b);
    same("residual sum of squares", a.mRSS0, f.rss);
}
void claim_backfit_one_sweep() { backfit(2, 1, true, false, true); }
void claim_backfit_one_sweep_omp() { backfit(2, 1, true, true, true); }
void claim_backfit_one_sweep_three() { backfit(3, 1, true, false, true); }
void claim_backfit_two_sweeps() { backfit(2, 2, true, false); }
void claim_backfit_two_sweeps_cvr() { backfit(2, 2, false, false); }
void claim_backfit_until() { backfit(2, int_("sweeps"), true, false); }
void claim_backfit_until_cvr() { backfit(2, int_("sweeps"), false, false); }

// ---- the whole analysis: initial fit, centring, back-fitting, diagnostics
mat stub_GWRBasic__fit() { return mat_("b0", int_("n"), 2); }
mat stub_GWRBasic__betasSE() { return mat_("se0", int_("n"), 2); }
mat stub_GWRBasic__s() { return mat_("S0", int_("n"), int_("n")); }
cube stub_GWRBasic__c() { return cube_("C0", 2, int_("n"), int_("n")); }
struct Whole
{
    uword n; mat x, u, b0, xc; vec y;
    M a;
    Whole(bool intercept, bool centred, bool hat_matrix, bool threads) : n(int_("n")), x(mat_("x", n, 2)), u(mat_("u", n, 2)), b0(mat_("b0", n, 2)), xc(x), y(vec_("y", n))
    {
        given(a, x, y, u, 2); mode(a, threads);
        a.setInitSpatialWeight(a.mSpatialWeights[0]);
        a.setHasIntercept(intercept); a.setHasHatMatrix(hat_matrix);
        std::vector<bool> c; c.push_back(centred); c.push_back(centred);
        a.setPreditorCentered(c);
        a.setMaxIteration(1); a.setCriterionThreshold(-1.0);
        if (centred) for (uword j = intercept ? 1 : 0; j < 2; j++) xc.col(j) = x.col(j) - accu(x.col(j)) / n;
    }
};
static void whole(bool intercept, bool centred, bool threads)
{
    Whole w(intercept, centred, false, threads);
    w.a.fit();
    Step f(w.xc, w.y, w.b0); f.sweep(w.xc, w.y, w.a.mSpatialWeights, true);
    same("coefficients", w.a.betas(), f.b);
    same("predictors", w.a.mX, w.xc);
    RegressionDiagnostic d = w.a.diagnostic();
    same("RSS", d.RSS, f.rss);
    double yss = accu(square(w.y - accu(w.y) / w.n));
    same("R2", d.RSquare, 1 - f.rss / yss);
}
void claim_fit_serial() { whole(true, true, false); }
void claim_fit_omp() { whole(true, true, true); }
void claim_fit_without_intercept() { whole(false, true, false); }
void claim_fit_not_centred() { whole(true, false, false); }
static void whole_hat(bool threads)
{
    Whole w(true, true, true, threads);
    w.a.fit();
    uword n = w.n;
    Step f(w.xc, w.y, w.b0); f.sweep(w.xc, w.y, w.a.mSpatialWeights, true);
    // the part of the initial hat matrix that belongs to each variable
    cube c = cube_("C0", 2, n, n);
    mat S = mat_("S0", n, n), R0(n, n), R1(n, n), E(n, n, fill::eye);
    for (uword i = 0; i < n; i++) { R0.row(i) = w.xc(i, 0) * c.slice(i).row(0); R1.row(i) = w.xc(i, 1) * c.slice(i).row(1); }
    mat T0 = hat(w.xc.col(0), w.a.mSpatialWeights[0]) * (E - (S - R0));
    S = S - R0 + T0;
    mat T1 = hat(w.xc.col(1), w.a.mSpatialWeights[1]) * (E - (S - R1));
    S = S - R1 + T1;
    same("coefficients", w.a.betas(), f.b);
    same("hat matrix", w.a.mS0, S);
    diagnostic_checks(w.a.diagnostic(), n, w.y, f.rss, trace(S), accu(S % S));
    same("t values", w.a.mBetasTV, mat(f.b / mat_("se0", n, 2)));
}
void claim_diagnostics_serial() { whole_hat(false); }
void claim_diagnostics_omp() { whole_hat(true); }
// ---- automatic bandwidths
BandwidthWeight* stub_BandwidthSelector__optimize(IBandwidthSelectable*) { return ptr_<BandwidthWeight>("found"); }
static void automatic(uword before, bool far, bool finished)
{
    SEVERAL(2)
    M a; given(a, x, y, u, 2); mode(a, false); a.setHasHatMatrix(false);
    a.mBandwidthInitilize[0] = M::BandwidthInitilizeType::Null;
    a.mMaxDistances.resize(2); a.mMinDistances.resize(2);
    a.setMaxIteration(1); a.setCriterionThreshold(-1.0);
    a.mBandwidthSelectRetryTimes = before;
    a.mBandwidthSelectThreshold[0] = far ? -1.0 : 1e9;
    mat b = a.backfitting(b0);
    same("bandwidth kept from now on", a.mBandwidthInitilize[0] == M::BandwidthInitilizeType::Specified, finished);
    same("bandwidth", a.bandwidth(0)->bandwidth(), ptr_<BandwidthWeight>("found")->bandwidth());
    CRSDistance d(false); d.makeParameter({ u, u });
    std::vector<SpatialWeight> s; s.push_back(SpatialWeight(ptr_<BandwidthWeight>("found"), &d)); s.push_back(SpatialWeight(ptr_<BandwidthWeight>("w1"), &d));
    Step f(x, y, b0); f.sweep(x, y, s, true);
    same("coefficients", b, f.b);
}
void claim_select_unchanged_once() { automatic(1, false, true); }
void claim_select_unchanged_more() { automatic(2, false, false); }
void claim_select_changed() { automatic(1, true, false); }
}

// ---- how often a searched bandwidth must stay the same
namespace claims_mgwr_search
{
typedef GWRMultiscale M;
using claims_mgwr::given; using claims_mgwr::mode;
vec stub_GWRMultiscale__fitVarBase(size_t) { return vec(3, fill::zeros); }
static double next(double b) { return b == 10 ? 12 : b == 12 ? 50 : 52; }
BandwidthWeight* stub_BandwidthSelector__optimize(IBandwidthSelectable* p)
{
    return new BandwidthWeight(next(static_cast<M*>(p)->bandwidth(0)->bandwidth()), false, BandwidthWeight::Gaussian);
}
static void search(uword needed, size_t sweeps, bool finished, double last)
{
    uword n = 3; mat x(n, 2, fill::zeros), u = mat_("u", n, 2), b0(n, 2, fill::zeros); vec y(n, fill::zeros);
    M a; given(a, x, y, u, 2); mode(a, false); a.setHasHatMatrix(false);
    a.mBandwidthInitilize[0] = M::BandwidthInitilizeType::Null;
    BandwidthWeight first(10.0, false, BandwidthWeight::Gaussian);
    a.mSpatialWeights[0].setWeight(first);
    a.mMaxDistances.resize(2); a.mMinDistances.resize(2);
    a.setMaxIteration(sweeps); a.setCriterionThreshold(-1.0); a.setCriterionType(M::BackFittingCriterionType::CVR);
    a.mBandwidthSelectRetryTimes = needed;
    a.mBandwidthSelectThreshold[0] = 5.0;
    mat b = a.backfitting(b0);
    same("bandwidth kept from now on", a.mBandwidthInitilize[0] == M::BandwidthInitilizeType::Specified, finished);
    same("bandwidth", a.bandwidth(0)->bandwidth(), last);
}
// found bandwidths: 12 (stays), 50 (moves), 52 (stays), 52 (stays)
void claim_search_counts_again() { search(2, 3, false, 52); }
void claim_search_counts_in_a_row() { search(2, 4, true, 52); }
void claim_search_once() { search(1, 4, true, 12); }
}
