#include "gwr_common.h"
#include "golden.h"
#include "checks.h"
#include "gwmodelpp/GTWR.h"
#include "gwmodelpp/spatialweight/CRSSTDistance.h"

namespace claims_gtwr
{
// combined distance of the data as seen from observation i; observations of the future are out of reach
static vec st(const mat& u, const vec& t, uword i, double lambda, double angle_cos)
{
    CRSDistance s(false);
    s.makeParameter({ u, u });
    vec a = s.distance(i), r(u.n_rows);
    for (uword j = 0; j < u.n_rows; j++)
    {
        double b = fabs(lambda - 1.0) < 1e-16 ? fabs(t(i) - t(j)) : t(i) - t(j);
        r(j) = b < 0 ? 1e13 : lambda * a(j) + (1 - lambda) * b + 2 * sqrt(lambda * (1 - lambda) * a(j) * b) * angle_cos;
    }
    return r;
}
#define STINPUTS uword n = int_("n"); \
    mat u = mat_("u", n, 2); vec t = vec_("t", n); uword i = int_("i"); double lambda = real_("lambda"); \
    CRSDistance sd(false); OneDimDistance td;
void claim_stdist_default()
{
    STINPUTS
    CRSSTDistance d(&sd, &td, lambda);
    d.makeParameter({ u, u, t, t });
    same("combined distance", d.distance(i), st(u, t, i, lambda, 1));
}
void claim_stdist_oblique()
{
    STINPUTS
    CRSSTDistance d(&sd, &td, lambda, 1.0);
    d.makeParameter({ u, u, t, t });
    same("combined distance", d.distance(i), st(u, t, i, lambda, cos(atan(tan(1.0)))));
}
void claim_stdist_angle()
{
    STINPUTS
    double angle = real_("angle");
    CRSSTDistance d(&sd, &td, lambda, angle);
    d.makeParameter({ u, u, t, t });
    double a = atan(tan(angle));
    same("combined distance", d.distance(i), st(u, t, i, lambda, fabs(a - datum::pi / 2) < 1e-15 ? 1.0 : cos(a)));
}
void claim_stdist_lambda()
{
    STINPUTS
    CRSSTDistance d(&sd, &td, 0.5);
    d.setLambda(0.25);
    d.makeParameter({ u, u, t, t });
    same("combined distance", d.distance(i), st(u, t, i, 0.25, 1));
}
void claim_stdist_copy()
{
    STINPUTS
    CRSSTDistance d(&sd, &td, 0.75, 1.0);
    CRSSTDistance e(d);
    e.makeParameter({ u, u, t, t });
    same("combined distance", e.distance(i), st(u, t, i, 0.75, cos(atan(tan(1.0)))));
    Distance* c = d.clone();
    c->makeParameter({ u, u, t, t });
    same("distance of a clone", c->distance(i), st(u, t, i, 0.75, cos(atan(tan(1.0)))));
}
void claim_stdist_extremes()
{
    STINPUTS
    CRSSTDistance d(&sd, &td, lambda);
    d.makeParameter({ u, u, t, t });
    double hi = 0.0;
    for (uword j = 0; j < n; j++)
    {
        double m = max(st(u, t, j, lambda, 1));
        hi = m > hi ? m : hi;
    }
    double lo = DBL_MAX;
    for (uword j = 0; j < n; j++)
    {
        double m = min(st(u, t, j, lambda, 1));
        lo = m < lo ? m : lo;
    }
    same("largest distance", d.maxDistance(), hi);
    same("smallest distance", d.minDistance(), lo);
}
void claim_stdist_lambda_rejected()
{
    STINPUTS
    CRSSTDistance d(&sd, &td, 0.5);
    throws("mix above one", [&]() { d.setLambda(1.5); });
    throws("negative mix", [&]() { d.setLambda(-0.5); });
}

// ---- regression
#define INPUTS uword n = int_("n"), k = int_("k"); \
    mat x = mat_("x", n, k), u = mat_("u", n, 2); vec y = vec_("y", n), t = vec_("t", n); \
    CRSDistance sd(false); OneDimDistance td; CRSSTDistance d(&sd, &td, 0.5); SpatialWeight sw(ptr_<BandwidthWeight>("w"), &d); \
    SpatialWeight rw = sw; rw.distance()->makeParameter({ u, u, t, t });

static void load(GTWR& a, const mat& x, const vec& y, const mat& u, const vec& t, const SpatialWeight& sw)
{
    a.setCoords(u, t); a.setDependentVariable(y); a.setIndependentVariables(x); a.setSpatialWeight(sw);
}
static void fit(ParallelType p)
{
    INPUTS
    GTWR a; load(a, x, y, u, t, sw);
    a.setOmpThreadNum(int_("threads"));
    a.setParallelType(p);
    a.fit();
    fit_checks(a, x, y, rw, n, k);
}
void claim_fit_serial() { fit(ParallelType::SerialOnly); }
void claim_fit_omp() { fit(ParallelType::OpenMP); }
static void stored(ParallelType p)
{
    INPUTS
    GTWR a; load(a, x, y, u, t, sw);
    a.setOmpThreadNum(int_("threads"));
    a.setParallelType(p);
    a.fit();
    if (n < 8192) same("stored hat matrix", a.s(), Ref::S(x, rw));
}
void claim_stored_serial() { stored(ParallelType::SerialOnly); }
void claim_stored_omp() { stored(ParallelType::OpenMP); }
static void predict(ParallelType p)
{
    INPUTS
    GTWR a; load(a, x, y, u, t, sw);
    a.setOmpThreadNum(int_("threads"));
    a.setParallelType(p);
    same("coefficients at the observations", a.predict(u), Ref::betas(x, y, rw, n));
}
void claim_predict_serial() { predict(ParallelType::SerialOnly); }
void claim_predict_omp() { predict(ParallelType::OpenMP); }

static double crit(const mat& x, const vec& y, const mat& u, const vec& t, const SpatialWeight& sw, GTWR::BandwidthSelectionCriterionType c, ParallelType p, bool mode_first = true)
{
    GTWR a; load(a, x, y, u, t, sw);
    a.setOmpThreadNum(int_("threads"));
    if (mode_first) { a.setParallelType(p); a.setBandwidthSelectionCriterion(c); }
    else { a.setBandwidthSelectionCriterion(c); a.setParallelType(p); }
    a.createDistanceParameter();
    double v = 0;
    a.getCriterion(ptr_<BandwidthWeight>("bw"), v);
    return v;
}
void claim_cv_serial() { INPUTS same("CV criterion", crit(x, y, u, t, sw, GTWR::CV, ParallelType::SerialOnly), ref_cv(x, y, rw)); }
void claim_cv_omp() { INPUTS same("CV criterion", crit(x, y, u, t, sw, GTWR::CV, ParallelType::OpenMP), ref_cv(x, y, rw)); }
void claim_aic_serial() { INPUTS same("AICc criterion", crit(x, y, u, t, sw, GTWR::AIC, ParallelType::SerialOnly), ref_aic(x, y, rw)); }
void claim_aic_omp() { INPUTS same("AICc criterion", crit(x, y, u, t, sw, GTWR::AIC, ParallelType::OpenMP), ref_aic(x, y, rw)); }
void claim_order_cv() { INPUTS same("chosen criterion", crit(x, y, u, t, sw, GTWR::CV, ParallelType::OpenMP, false), ref_cv(x, y, rw)); }
void claim_order_aic() { INPUTS same("chosen criterion", crit(x, y, u, t, sw, GTWR::AIC, ParallelType::OpenMP, false), ref_aic(x, y, rw)); }
void claim_order_default()
{
    INPUTS
    GTWR a; load(a, x, y, u, t, sw);
    a.createDistanceParameter();
    double v = 0;
    a.getCriterion(ptr_<BandwidthWeight>("bw"), v);
    if (a.bandwidthSelectionCriterion() == GTWR::CV) same("default criterion", v, ref_cv(x, y, rw));
    else same("default criterion", v, ref_aic(x, y, rw));
}
void claim_fail_cv_serial() { INPUTS fails_as("CV criterion", crit(x, y, u, t, sw, GTWR::CV, ParallelType::SerialOnly), DBL_MAX); }
void claim_fail_cv_omp() { INPUTS fails_as("CV criterion", crit(x, y, u, t, sw, GTWR::CV, ParallelType::OpenMP), DBL_MAX); }
void claim_fail_aic_serial() { INPUTS fails_as("AICc criterion", crit(x, y, u, t, sw, GTWR::AIC, ParallelType::SerialOnly), DBL_MAX); }
void claim_fail_aic_omp() { INPUTS fails_as("AICc criterion", crit(x, y, u, t, sw, GTWR::AIC, ParallelType::OpenMP), DBL_MAX); }

// ---- automatic bandwidth
struct Scored : public GTWR
{
    Status getCriterion(BandwidthWeight* w, double& v) override { v = fn_("criterion", w->bandwidth()); return Status::Success; }
};
static void automatic(bool adaptive)
{
    uword n = int_("n"), k = int_("k");
    mat x = mat_("x", n, k), u = mat_("u", n, 2); vec y = vec_("y", n), t = vec_("t", n);
    CRSDistance sd(false); OneDimDistance td; CRSSTDistance d(&sd, &td, 0.5);
    BandwidthWeight b0(real_("b0"), adaptive, BandwidthWeight::Bisquare);
    SpatialWeight sw(&b0, &d);
    SpatialWeight rw = sw; rw.distance()->makeParameter({ u, u, t, t });
    Scored a; load(a, x, y, u, t, sw);
    a.setIsAutoselectBandwidth(true);
    a.fit();
    Memory m;
    double best = golden(adaptive ? 20.0 : 0.0, adaptive ? (double)n : rw.distance()->maxDistance(), adaptive, [](double z) { return fn_("criterion", z); }, m);
    same("selected bandwidth", a.spatialWeight().weight<BandwidthWeight>()->bandwidth(), best);
    BandwidthWeight b1(best, adaptive, BandwidthWeight::Bisquare);
    SpatialWeight s1(&b1, rw.distance());
    same("coefficients with the selected bandwidth", a.betas(), Ref::betas(x, y, s1, n));
}
void claim_auto_fixed() { automatic(false); }
void claim_auto_adaptive() { automatic(true); }

// ---- a location that cannot be fitted is reported to the caller
static void fit_reports(ParallelType p)
{
    INPUTS
    GTWR a; load(a, x, y, u, t, sw);
    a.setParallelType(p); a.setOmpThreadNum(int_("threads"));
    reports("fit", [&] { a.fit(); });
}
void claim_reports_fit_serial() { fit_reports(ParallelType::SerialOnly); }
void claim_reports_fit_omp() { fit_reports(ParallelType::OpenMP); }
static void predict_reports(ParallelType p)
{
    INPUTS
    GTWR a; load(a, x, y, u, t, sw);
    a.setParallelType(p); a.setOmpThreadNum(int_("threads"));
    reports("prediction", [&] { a.predict(u); });
}
void claim_reports_predict_serial() { predict_reports(ParallelType::SerialOnly); }
void claim_reports_predict_omp() { predict_reports(ParallelType::OpenMP); }
}
