#include "gwr_common.h"
#include "golden.h"
#include "checks.h"
#include "gwmodelpp/GWRRobust.h"

namespace claims_robust
{
#define INPUTS uword n = int_("n"), k = int_("k"); \
    mat x = mat_("x", n, k), u = mat_("u", n, 2); vec y = vec_("y", n); \
    SpatialWeight sw = Ref::user_sw(); SpatialWeight rw = Ref::located(sw, u, u);

static void load(GWRRobust& a, const mat& x, const vec& y, const mat& u, const SpatialWeight& sw)
{
    a.setCoords(u); a.setDependentVariable(y); a.setIndependentVariables(x); a.setSpatialWeight(sw);
}
// a weighted least-squares fit whose weights are those of the location times those of the observations
struct Masked
{
    mat betas, S, se2;
    double tr1, tr2;
    vec q;
    Masked(const mat& x, const vec& y, const SpatialWeight& rw, const vec& m) : betas(x.n_rows, x.n_cols), S(x.n_rows, x.n_rows), se2(x.n_rows, x.n_cols)
    {
        for (uword i = 0; i < x.n_rows; i++)
        {
            vec w = rw.weightVector(i) % m;
            mat c = Ref::ci(x, w);
            betas.row(i) = trans(c * y);
            S.row(i) = x.row(i) * c;
            for (uword j = 0; j < x.n_cols; j++) se2(i, j) = dot(c.row(j), c.row(j));
        }
        tr1 = Ref::trS(S); tr2 = Ref::trStS(S); q = Ref::qdiag(S);
    }
};
static void checks(GWRRobust& a, const mat& x, const vec& y, const Masked& f)
{
    double n = x.n_rows, r = Ref::rss(x, y, f.betas);
    same("coefficients", a.betas(), f.betas);
    same("trace of hat matrix", a.sHat()(0), f.tr1);
    same("trace of S'S", a.sHat()(1), f.tr2);
    same("q diagonal", a.qDiag(), f.q);
    same("standard errors", a.betasSE(), mat(sqrt(r / (n - 2 * f.tr1 + f.tr2) * f.se2)));
    diagnostic_checks(a.diagnostic(), n, y, r, f.tr1, f.tr2);
}
// observations with an outlying studentised residual are left out
static void filtered(ParallelType p)
{
    INPUTS
    GWRRobust a; load(a, x, y, u, sw);
    a.setOmpThreadNum(int_("threads"));
    a.setParallelType(p);
    a.setFiltered(true);
    a.fit();
    Masked f0(x, y, rw, vec(n, fill::ones));
    vec r = y - Ref::fitted(x, f0.betas);
    double s2 = dot(r, r) / (n - 2 * f0.tr1 + f0.tr2);
    vec m(n);
    for (uword i = 0; i < n; i++) m(i) = fabs(r(i) / sqrt(s2 * f0.q(i))) > 3 ? 0 : 1;
    checks(a, x, y, Masked(x, y, rw, m));
}
void claim_filtered_serial() { filtered(ParallelType::SerialOnly); }
void claim_filtered_omp() { filtered(ParallelType::OpenMP); }

static vec huber(const vec& r, double mse)
{
    vec m(r.n_elem);
    for (uword i = 0; i < r.n_elem; i++)
    {
        double z = fabs(r(i) / sqrt(mse)), g = z - 2;
        m(i) = z <= 2 ? 1 : z < 3 ? (1 - g * g) * (1 - g * g) : 0;
    }
    return m;
}
static void iterated(ParallelType p)
{
    INPUTS
    GWRRobust a; load(a, x, y, u, sw);
    a.setOmpThreadNum(int_("threads"));
    a.setParallelType(p);
    a.setFiltered(false);
    a.fit();
    vec m(n, fill::ones), used = m;
    mat b = Masked(x, y, rw, m).betas;
    vec r = y - Ref::fitted(x, b);
    double mse = dot(r, r) / n, change = 1;
    m = huber(r, mse);
    for (int it = 0; it < 20 && change > 1e-5; it++)
    {
        double old = mse;
        used = m;
        b = Masked(x, y, rw, m).betas;
        r = y - Ref::fitted(x, b);
        mse = dot(r, r) / n;
        m = huber(r, mse);
        change = fabs(old - mse) / mse;
    }
    checks(a, x, y, Masked(x, y, rw, used));
}
void claim_iterated_serial() { iterated(ParallelType::SerialOnly); }
void claim_iterated_omp() { iterated(ParallelType::OpenMP); }
// the weight function on its own
struct Open : public GWRRobust
{
    vec weights(const vec& r, double mse) { return filtWeight(r, mse); }
};
void claim_weight()
{
    vec r = vec_("r", int_("n"));
    double mse = real_("mse");
    Open a;
    same("observation weights", a.weights(r, mse), huber(r, mse));
}
// ---- the hat matrix of the final fit can be kept
static void stored(ParallelType p)
{
    INPUTS
    GWRRobust a; load(a, x, y, u, sw);
    a.setOmpThreadNum(int_("threads"));
    a.setParallelType(p);
    a.setFiltered(true);
    a.setStoreS(true);
    a.fit();
    Masked f0(x, y, rw, vec(n, fill::ones));
    vec r = y - Ref::fitted(x, f0.betas);
    double s2 = dot(r, r) / (n - 2 * f0.tr1 + f0.tr2);
    vec m(n);
    for (uword i = 0; i < n; i++) m(i) = fabs(r(i) / sqrt(s2 * f0.q(i))) > 3 ? 0 : 1;
    same("stored hat matrix", a.s(), Masked(x, y, rw, m).S);
}
void claim_stored_serial() { stored(ParallelType::SerialOnly); }
void claim_stored_omp() { stored(ParallelType::OpenMP); }
// ---- prediction and criteria follow the mode
static void predict(ParallelType p)
{
    INPUTS
    uword m = int_("m");
    mat v = mat_("v", m, 2);
    GWRRobust a; load(a, x, y, u, sw);
    a.setOmpThreadNum(int_("threads"));
    a.setParallelType(p);
    same("predicted coefficients", a.predict(v), Ref::betas(x, y, Ref::located(sw, v, u), m));
}
void claim_predict_serial() { predict(ParallelType::SerialOnly); }
void claim_predict_omp() { predict(ParallelType::OpenMP); }
// ---- automatic bandwidth
struct Scored : public GWRRobust
{
    Status getCriterion(BandwidthWeight* w, double& v) override { v = fn_("criterion", w->bandwidth()); return Status::Success; }
    mat regressionHatmatrix(const mat& x, const vec& y, mat& se, vec& shat, vec& q, mat& S)
    {
        se = mat_("se", x.n_rows, x.n_cols); shat = vec_("shat", 2); q = vec_("q", x.n_rows); S = mat_("S", x.n_rows, x.n_rows);
        return mat_("b", x.n_rows, x.n_cols);
    }
};
static void automatic(bool adaptive)
{
    uword n = int_("n"), k = int_("k");
    mat x = mat_("x", n, k), u = mat_("u", n, 2); vec y = vec_("y", n);
    CRSDistance d(false);
    BandwidthWeight b0(real_("b0"), adaptive, BandwidthWeight::Bisquare);
    SpatialWeight sw(&b0, &d), rw = Ref::located(sw, u, u);
    Scored a; load(a, x, y, u, sw);
    a.setFiltered(true);
    a.setIsAutoselectBandwidth(true);
    a.fit();
    Memory m;
    double best = golden(adaptive ? 20.0 : 0.0, adaptive ? (double)n : rw.distance()->maxDistance(), adaptive, [](double z) { return fn_("criterion", z); }, m);
    same("selected bandwidth", a.spatialWeight().weight<BandwidthWeight>()->bandwidth(), best);
}
void claim_auto_fixed() { automatic(false); }
void claim_auto_adaptive() { automatic(true); }
}

// ---- which observations are left out, whatever the first fit gives
namespace claims_robust_outliers
{
// an arbitrary fit
static mat some_fit(mat& se, vec& shat, vec& q, mat& S)
{
    uword n = int_("n"), k = int_("k");
    se = mat_("se", n, k); shat = 0.2 * vec_("shat", 2); q = 0.1 * abs(vec_("q", n)); S = mat_("S", n, n);
    return mat_("first", n, k);
}
mat stub_GWRRobust__fitSerial(const mat&, const vec&, mat& se, vec& shat, vec& q, mat& S) { return some_fit(se, shat, q, S); }
mat stub_GWRRobust__fitOmp(const mat&, const vec&, mat& se, vec& shat, vec& q, mat& S) { return some_fit(se, shat, q, S); }
static void outliers(ParallelType p)
{
    INPUTS
    GWRRobust a; claims_robust::load(a, x, y, u, sw);
    a.setOmpThreadNum(int_("threads"));
    a.setParallelType(p);
    a.setFiltered(true);
    a.fit();
    mat se, S; vec h, q; mat b = some_fit(se, h, q, S);
    vec r = y - Ref::fitted(x, b);
    double s2 = dot(r, r) / (n - 2 * h(0) + h(1));
    vec m(n);
    for (uword i = 0; i < n; i++) m(i) = fabs(r(i) / sqrt(s2 * q(i))) > 3 ? 0 : 1;
    same("observations kept", a.mWeightMask, m);
}
void claim_filtered_outliers_serial() { outliers(ParallelType::SerialOnly); }
void claim_filtered_outliers_omp() { outliers(ParallelType::OpenMP); }
}
