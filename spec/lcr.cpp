#include "gwr_common.h"
#include "golden.h"
#include "gwmodelpp/GWRLocalCollinearity.h"

namespace claims_lcr
{
// standard deviation with n-1
static double sd(const vec& v)
{
    double n = v.n_elem, m = accu(v) / n;
    return sqrt(accu(square(v - m)) / (n - 1));
}
// ridge parameter at a focus with weights w
static double ridge(const mat& x, const vec& w, double lambda, bool adjust, double thresh)
{
    mat z = x;
    for (uword j = 0; j < x.n_cols; j++) z.col(j) = (w % x.col(j)) / sqrt(accu(square(w % x.col(j))));
    vec s = svd(z);
    uword k = x.n_cols;
    double cn = s(0) / s(k - 1);
    if (adjust && cn > thresh) return (s(0) - thresh * s(k - 1)) / (thresh - 1);
    return lambda;
}
// ridge regression on the variables scaled to unit deviation (the intercept is not scaled)
static vec beta(const mat& x, const vec& y, const vec& w, double l)
{
    uword n = x.n_rows, k = x.n_cols;
    vec s(k, fill::ones);
    for (uword j = 1; j < k; j++) s(j) = sd(x.col(j));
    mat a(n, k);
    for (uword j = 0; j < k; j++) a.col(j) = sqrt(w) % x.col(j) / s(j);
    vec q = sqrt(w) % y;
    vec b = inv(trans(a) * a + l * eye(k, k)) * (trans(a) * q);
    return b / s;
}
#define INPUTS uword n = int_("n"), k = int_("k"); \
    mat x = mat_("x", n, k), u = mat_("u", n, 2); vec y = vec_("y", n); \
    CRSDistance d(false); SpatialWeight sw(ptr_<BandwidthWeight>("w"), &d); \
    SpatialWeight rw = Ref::located(sw, u, u); double lambda = real_("lambda"), thresh = real_("thresh");
static mat betas(const mat& x, const vec& y, const SpatialWeight& rw, double lambda, bool adjust, double thresh)
{
    mat b(x.n_rows, x.n_cols);
    for (uword i = 0; i < x.n_rows; i++)
    {
        vec w = rw.weightVector(i);
        b.row(i) = trans(beta(x, y, w, ridge(x, w, lambda, adjust, thresh)));
    }
    return b;
}
static void load(GWRLocalCollinearity& a, const mat& x, const vec& y, const mat& u, const SpatialWeight& sw, double lambda, bool adjust, double thresh, ParallelType p)
{
    a.setCoords(u); a.setDependentVariable(y); a.setIndependentVariables(x); a.setSpatialWeight(sw);
    a.setHasHatMatrix(true); a.setLambda(lambda); a.setLambdaAdjust(adjust); a.setCnThresh(thresh);
    a.setOmpThreadNum(int_("threads"));
    a.setParallelType(p);
}
static void fit(ParallelType p, bool adjust)
{
    INPUTS
    GWRLocalCollinearity a; load(a, x, y, u, sw, lambda, adjust, thresh, p);
    mat b = a.fit();
    same("coefficients", b, betas(x, y, rw, lambda, adjust, thresh));
    same("stored coefficients", a.betas(), b);
}
void claim_fit_serial() { fit(ParallelType::SerialOnly, false); }
void claim_fit_omp() { fit(ParallelType::OpenMP, false); }
void claim_fit_adjust_serial() { fit(ParallelType::SerialOnly, true); }
void claim_fit_adjust_omp() { fit(ParallelType::OpenMP, true); }

// hat row at i: own weight times x_i (X'W_iX)^-1 X'W_i
static mat hat(const mat& x, const SpatialWeight& rw)
{
    mat S(x.n_rows, x.n_rows);
    for (uword i = 0; i < x.n_rows; i++)
    {
        vec w = rw.weightVector(i);
        S.row(i) = w(i) * (x.row(i) * Ref::ci(x, w));
    }
    return S;
}
static void diagnostics(ParallelType p, bool again)
{
    INPUTS
    GWRLocalCollinearity a; load(a, x, y, u, sw, lambda, true, thresh, p);
    a.fit();
    if (again) a.fit();
    mat b = betas(x, y, rw, lambda, true, thresh), S = hat(x, rw);
    double r = Ref::rss(x, y, b), nn = n, enp = 2 * trace(S) - accu(S % S), s2 = r / (nn - enp);
    auto g = a.diagnostic();
    same("RSS", g.RSS, r);
    same("ENP", g.ENP, enp);
    same("EDF", g.EDF, nn - enp);
    same("AIC", g.AIC, nn * (log(2 * datum::pi * s2) + 1) + 2 * (enp + 1));
    same("AICc", g.AICc, nn * log(2 * datum::pi * s2) + nn * (1 + enp / nn) / (1 - (enp + 2) / nn));
    double m = accu(y) / nn, yss = accu(square(y - m));
    same("R2", g.RSquare, 1 - r / yss);
    same("adjusted R2", g.RSquareAdjust, 1 - (r / yss) * (nn - 1) / (nn - enp));
}
void claim_diagnostics_serial() { diagnostics(ParallelType::SerialOnly, false); }
void claim_diagnostics_omp() { diagnostics(ParallelType::OpenMP, false); }
void claim_diagnostics_again_serial() { diagnostics(ParallelType::SerialOnly, true); }
void claim_diagnostics_again_omp() { diagnostics(ParallelType::OpenMP, true); }
static void predict(ParallelType p)
{
    INPUTS
    uword m = int_("m"); mat v = mat_("v", m, 2);
    GWRLocalCollinearity a; load(a, x, y, u, sw, lambda, true, thresh, p);
    mat b(m, k);
    SpatialWeight pw = Ref::located(sw, v, u);
    for (uword i = 0; i < m; i++)
    {
        vec w = pw.weightVector(i);
        b.row(i) = trans(beta(x, y, w, ridge(x, w, lambda, true, thresh)));
    }
    mat q = a.predict(v);
    same("predicted coefficients", q, b);
    same("stored coefficients", a.betas(), b);
}
void claim_predict_serial() { predict(ParallelType::SerialOnly); }
void claim_predict_omp() { predict(ParallelType::OpenMP); }
static double crit(const mat& x, const vec& y, const mat& u, const SpatialWeight& sw, double lambda, bool adjust, double thresh, ParallelType p, bool mode_first)
{
    GWRLocalCollinearity a;
    if (!mode_first) a.setBandwidthSelectionCriterion(GWRLocalCollinearity::CV);
    load(a, x, y, u, sw, lambda, adjust, thresh, p);
    if (mode_first) a.setBandwidthSelectionCriterion(GWRLocalCollinearity::CV);
    a.createDistanceParameter();
    double v = 0;
    a.getCriterion(ptr_<BandwidthWeight>("bw"), v);
    return v;
}
static double ref_cv(const mat& x, const vec& y, const SpatialWeight& rw, double lambda, bool adjust, double thresh)
{
    SpatialWeight s(ptr_<BandwidthWeight>("bw"), rw.distance());
    mat b(x.n_rows, x.n_cols);
    for (uword i = 0; i < x.n_rows; i++)
    {
        vec w = s.weightVector(i);
        w(i) = 0;
        b.row(i) = trans(beta(x, y, w, ridge(x, w, lambda, adjust, thresh)));
    }
    return Ref::rss(x, y, b);
}
static void cv(ParallelType p, bool adjust, bool mode_first)
{
    INPUTS
    same("CV criterion", crit(x, y, u, sw, lambda, adjust, thresh, p, mode_first), ref_cv(x, y, rw, lambda, adjust, thresh));
}
void claim_cv_serial() { cv(ParallelType::SerialOnly, false, true); }
void claim_cv_omp() { cv(ParallelType::OpenMP, false, true); }
void claim_cv_adjust_serial() { cv(ParallelType::SerialOnly, true, true); }
void claim_cv_adjust_omp() { cv(ParallelType::OpenMP, true, true); }
void claim_order_serial() { cv(ParallelType::SerialOnly, false, false); }
void claim_order_omp() { cv(ParallelType::OpenMP, false, false); }
void claim_fail_cv_serial() { INPUTS fails_as("CV criterion", crit(x, y, u, sw, lambda, false, thresh, ParallelType::SerialOnly, true), DBL_MAX); }
void claim_fail_cv_omp() { INPUTS fails_as("CV criterion", crit(x, y, u, sw, lambda, false, thresh, ParallelType::OpenMP, true), DBL_MAX); }
static void fit_reports(ParallelType p)
{
    INPUTS
    GWRLocalCollinearity a; load(a, x, y, u, sw, lambda, false, thresh, p);
    reports("fit", [&] { a.fit(); });
}
void claim_reports_fit_serial() { fit_reports(ParallelType::SerialOnly); }
void claim_reports_fit_omp() { fit_reports(ParallelType::OpenMP); }
static void predict_reports(ParallelType p)
{
    INPUTS
    GWRLocalCollinearity a; load(a, x, y, u, sw, lambda, false, thresh, p);
    reports("prediction", [&] { a.predict(u); });
}
void claim_reports_predict_serial() { predict_reports(ParallelType::SerialOnly); }
void claim_reports_predict_omp() { predict_reports(ParallelType::OpenMP); }

struct Scored : public GWRLocalCollinearity
{
    Status getCriterion(BandwidthWeight* w, double& v) override { v = fn_("criterion", w->bandwidth()); return Status::Success; }
};
static void automatic(bool adaptive)
{
    uword n = int_("n"), k = int_("k");
    mat x = mat_("x", n, k), u = mat_("u", n, 2); vec y = vec_("y", n);
    CRSDistance d(false);
    BandwidthWeight b0(real_("b0"), adaptive, BandwidthWeight::Bisquare);
    SpatialWeight sw(&b0, &d);
    SpatialWeight rw = Ref::located(sw, u, u);
    Scored a; load(a, x, y, u, sw, 0.0, false, 30.0, ParallelType::SerialOnly);
    a.setIsAutoselectBandwidth(true);
    a.fit();
    Memory m;
    double best = golden(adaptive ? 20.0 : 0.0, adaptive ? (double)n : rw.distance()->maxDistance(), adaptive, [](double z) { return fn_("criterion", z); }, m);
    same("selected bandwidth", a.spatialWeight().weight<BandwidthWeight>()->bandwidth(), best);
    BandwidthWeight b1(best, adaptive, BandwidthWeight::Bisquare);
    SpatialWeight s1(&b1, rw.distance());
    same("coefficients with the selected bandwidth", a.betas(), betas(x, y, s1, 0.0, false, 30.0));
}
void claim_auto_fixed() { automatic(false); }
void claim_auto_adaptive() { automatic(true); }
}
