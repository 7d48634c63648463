#include "gwr_common.h"
#include "checks.h"
#include "gwmodelpp/GWRGeneralized.h"
#include "gwmodelpp/GeneralizedLinearModel.h"
#include "gwmodelpp/PoissonModel.h"
#include "gwmodelpp/BinomialModel.h"

// geographically weighted Poisson and logistic regression
namespace claims_generalized
{
typedef GWRGeneralized G;
typedef G::Family F;
#define INPUTS uword n = int_("n"), k = int_("k"); \
    mat x = mat_("x", n, k), u = mat_("u", n, 2); vec y = vec_("y", n); double tol = real_("tol"); \
    SpatialWeight sw = Ref::user_sw(); SpatialWeight rw = Ref::located(sw, u, u);
// the global model is decided on its own
void stub_GeneralizedLinearModel__fit() {}
double stub_GeneralizedLinearModel__nullDev() { return real_("nulldev"); }
double stub_GeneralizedLinearModel__dev() { return real_("dev"); }

// local iteratively reweighted least squares
struct Irls
{
    F family; mat x; vec y; mat W;          // W: column i has the weights seen from i
    vec mu, nu, adj, w2; double ll; bool done;
    Irls(F f, const mat& x_, const vec& y_, const mat& w) : family(f), x(x_), y(y_), W(w), w2(y_.n_elem, fill::ones), ll(0), done(false)
    {
        uword n = y.n_elem;
        if (f == F::Poisson) { mu = y + 0.1; nu = log(mu); }
        else { mu = 0.5 * vec(n, fill::ones); nu = vec(n, fill::zeros); }
    }
    void step(double tol)
    {
        uword n = y.n_elem;
        vec v = family == F::Poisson ? mu : mu % (1 - mu);
        adj = nu + (y - mu) / v;
        vec e(n);
        for (uword i = 0; i < n; i++) e(i) = dot(x.row(i), Ref::beta(x, adj, W.col(i) % w2));
        nu = e;
        mu = exp(nu);
        if (family == F::Binomial) mu = mu / (1 + mu);
        double old = ll;
        ll = 0;
        for (uword i = 0; i < n; i++)
            ll += family == F::Poisson ? y(i) * log(mu(i)) - mu(i) - lgamma(y(i) + 1)
                                       : y(i) * log(mu(i)) + (1 - y(i)) * log(1 - mu(i)) + lgamma(2) - lgamma(2 - y(i)) - lgamma(y(i) + 1);
        done = fabs((old - ll) / ll) < tol;
        if (!done) w2 = family == F::Poisson ? mu : mu % (1 - mu);
    }
};
template<class W> static mat weights(const W& sw, uword n)
{
    mat w(n, n);
    for (uword i = 0; i < n; i++) w.col(i) = sw.weightVector(i);
    return w;
}
static void load(G& a, F f, ParallelType p, const mat& x, const vec& y, const mat& u, const SpatialWeight& sw, double tol, uword steps)
{
    a.setCoords(u); a.setDependentVariable(y); a.setIndependentVariables(x); a.setSpatialWeight(sw);
    a.setOmpThreadNum(int_("threads"));
    a.setParallelType(p); a.setFamily(f);
    a.setMaxiter(steps); a.setTol(tol);
}
static double deviance(F f, const vec& y, const vec& mu)
{
    double d = 0;
    for (uword i = 0; i < y.n_elem; i++)
        d += f == F::Poisson ? (y(i) != 0 ? 2 * (y(i) * (log(y(i) / mu(i)) - 1) + mu(i)) : 2 * mu(i))
                             : -2 * log(fabs(y(i) - 1 + mu(i)));
    return d;
}
static void fit(F f, ParallelType p, uword steps = 1)
{
    INPUTS
    G a; load(a, f, p, x, y, u, sw, tol, steps); a.setHasHatMatrix(true);
    a.fit();
    mat W = weights(rw, n);
    Irls r(f, x, y, W);
    for (uword s = 0; s < steps && !r.done; s++) r.step(tol);
    mat b(n, k), se(n, k); double tr1 = 0, tr2 = 0; vec mu(n);
    for (uword i = 0; i < n; i++)
    {
        mat c = Ref::ci(x, W.col(i) % r.w2);
        rowvec bi = trans(c * r.adj);
        b.row(i) = bi;
        rowvec s = x.row(i) * c;
        tr1 += s(i); tr2 += dot(s, s);
        for (uword j = 0; j < k; j++) se(i, j) = sqrt(accu(square(c.row(j)) / trans(r.w2)));
        mu(i) = 1 / (1 + exp(-dot(x.row(i), bi)));
    }
    same("coefficients", a.betas(), b);
    same("standard errors", a.mBetasSE, se);
    same("trace of hat matrix", a.mShat(0), tr1);
    same("trace of S'S", a.mShat(1), tr2);
    double d = deviance(f, y, f == F::Poisson ? r.mu : mu);
    same("deviance", a.getDiagnostic().RSS, d);
    same("AIC", a.getDiagnostic().AIC, d + 2 * tr1);
    same("AICc", a.getDiagnostic().AICc, d + 2 * tr1 + 2 * tr1 * (tr1 + 1) / (n - tr1 - 1));
    same("share of the deviance explained", a.getDiagnostic().RSquare, 1 - d / real_("nulldev"));
}
void claim_fit_poisson_serial() { fit(F::Poisson, ParallelType::SerialOnly); }
void claim_fit_poisson_omp() { fit(F::Poisson, ParallelType::OpenMP); }
void claim_fit_binomial_serial() { fit(F::Binomial, ParallelType::SerialOnly); }
void claim_fit_binomial_omp() { fit(F::Binomial, ParallelType::OpenMP); }

static void fit_no_hat(F f, ParallelType p)
{
    INPUTS
    G a; load(a, f, p, x, y, u, sw, tol, 1); a.setHasHatMatrix(false);
    a.fit();
    mat W = weights(rw, n);
    Irls r(f, x, y, W); r.step(tol);
    mat b(n, k);
    for (uword i = 0; i < n; i++) b.row(i) = trans(Ref::beta(x, r.adj, W.col(i) % r.w2));
    same("coefficients", a.betas(), b);
}
void claim_fit_poisson_without_hat_serial() { fit_no_hat(F::Poisson, ParallelType::SerialOnly); }
void claim_fit_poisson_without_hat_omp() { fit_no_hat(F::Poisson, ParallelType::OpenMP); }
void claim_fit_binomial_without_hat_serial() { fit_no_hat(F::Binomial, ParallelType::SerialOnly); }
void claim_fit_binomial_without_hat_omp() { fit_no_hat(F::Binomial, ParallelType::OpenMP); }

// ---- prediction: the iteration runs at the samples, its last working response is fitted at the locations
static void predict(F f, ParallelType p)
{
    INPUTS
    uword m = int_("m"); mat v = mat_("v", m, 2);
    G a; load(a, f, p, x, y, u, sw, tol, 1); a.setHasHatMatrix(bool_("hat"));
    mat r0 = a.predict(v);
    mat W = weights(rw, n);
    SpatialWeight pw = Ref::located(sw, v, u);
    Irls r(f, x, y, W); r.step(tol);
    mat b(m, k);
    for (uword i = 0; i < m; i++) b.row(i) = trans(Ref::beta(x, r.adj, pw.weightVector(i) % r.w2));
    same("coefficients", r0, b);
}
void claim_predict_poisson_serial() { predict(F::Poisson, ParallelType::SerialOnly); }
void claim_predict_poisson_omp() { predict(F::Poisson, ParallelType::OpenMP); }
void claim_predict_binomial_serial() { predict(F::Binomial, ParallelType::SerialOnly); }
void claim_predict_binomial_omp() { predict(F::Binomial, ParallelType::OpenMP); }

// ---- diagnostics of the global model
void claim_global_diagnostics()
{
    uword n = int_("n"), k = int_("k");
    mat x = mat_("x", n, k), u = mat_("u", n, 2); vec y = vec_("y", n);
    G a; a.setCoords(u); a.setFamily(int_("poisson") ? F::Poisson : F::Binomial);
    a.CalGLMModel(x, y);
    double d = real_("dev"), d0 = real_("nulldev");
    same("null deviance", a.getGLMDiagnostic().NullDev, d0);
    same("deviance", a.getGLMDiagnostic().Dev, d);
    same("AIC", a.getGLMDiagnostic().AIC, d + 2.0 * k);
    same("AICc", a.getGLMDiagnostic().AICc, d + 2.0 * k + 2.0 * k * (k + 1) / (n - k - 1.0));
    same("share of the deviance explained", a.getGLMDiagnostic().RSquare, 1 - d / d0);
}

// ---- the weighting loop itself
static void irls(F f, ParallelType p, uword steps)
{
    INPUTS
    G a; load(a, f, p, x, y, u, sw, tol, steps);
    mat W = mat_("W", n, n);
    vec mu = (a.*(a.mCalWtFunction))(x, y, W);
    Irls r(f, x, y, W);
    for (uword s = 0; s < steps && !r.done; s++) r.step(tol);
    same("expected values", mu, r.mu);
    same("working dependent variable", a.myAdj, r.adj);
    same("working weights", a.mWt2, r.w2);
    same("log-likelihood", a.mLLik, r.ll);
}
void claim_irls_poisson_serial() { irls(F::Poisson, ParallelType::SerialOnly, 1); }
void claim_irls_poisson_omp() { irls(F::Poisson, ParallelType::OpenMP, 1); }
void claim_irls_binomial_serial() { irls(F::Binomial, ParallelType::SerialOnly, 1); }
void claim_irls_binomial_omp() { irls(F::Binomial, ParallelType::OpenMP, 1); }
void claim_irls_poisson_twice_serial() { irls(F::Poisson, ParallelType::SerialOnly, 2); }
void claim_irls_poisson_twice_omp() { irls(F::Poisson, ParallelType::OpenMP, 2); }
void claim_irls_binomial_twice_serial() { irls(F::Binomial, ParallelType::SerialOnly, 2); }
void claim_irls_binomial_twice_omp() { irls(F::Binomial, ParallelType::OpenMP, 2); }

// ---- bandwidth criteria
static double crit(F f, ParallelType p, const mat& x, const vec& y, const mat& u, const SpatialWeight& sw, double tol, G::BandwidthSelectionCriterionType c)
{
    G a; load(a, f, p, x, y, u, sw, tol, 1);
    a.setBandwidthSelectionCriterionType(c);
    a.createDistanceParameter();
    double v = 0;
    a.getCriterion(ptr_<BandwidthWeight>("bw"), v);
    return v;
}
static void cv(F f, ParallelType p)
{
    INPUTS
    SpatialWeight s(ptr_<BandwidthWeight>("bw"), rw.distance());
    mat W = weights(s, n);
    for (uword i = 0; i < n; i++) W(i, i) = 0;
    Irls r(f, x, y, W); r.step(tol);
    double c = 0;
    for (uword i = 0; i < n; i++)
    {
        double e = exp(dot(x.row(i), Ref::beta(x, r.adj, W.col(i) % r.w2)));
        double d = y(i) - (f == F::Poisson ? e : e / (1 + e));
        c += d * d;
    }
    same("CV criterion", crit(f, p, x, y, u, sw, tol, G::BandwidthSelectionCriterionType::CV), c);
}
static void aic(F f, ParallelType p)
{
    INPUTS
    SpatialWeight s(ptr_<BandwidthWeight>("bw"), rw.distance());
    mat W = weights(s, n);
    Irls r(f, x, y, W); r.step(tol);
    double t = 0;
    for (uword i = 0; i < n; i++) t += as_scalar(x.row(i) * Ref::ci(x, W.col(i) % r.w2).col(i));
    same("AICc criterion", crit(f, p, x, y, u, sw, tol, G::BandwidthSelectionCriterionType::AIC), -2 * r.ll + 2 * t + 2 * t * (t + 1) / (n - t - 1));
}
void claim_cv_poisson_serial() { cv(F::Poisson, ParallelType::SerialOnly); }
void claim_cv_poisson_omp() { cv(F::Poisson, ParallelType::OpenMP); }
void claim_cv_binomial_serial() { cv(F::Binomial, ParallelType::SerialOnly); }
void claim_cv_binomial_omp() { cv(F::Binomial, ParallelType::OpenMP); }
void claim_aic_poisson_serial() { aic(F::Poisson, ParallelType::SerialOnly); }
void claim_aic_poisson_omp() { aic(F::Poisson, ParallelType::OpenMP); }
void claim_aic_binomial_serial() { aic(F::Binomial, ParallelType::SerialOnly); }
void claim_aic_binomial_omp() { aic(F::Binomial, ParallelType::OpenMP); }
}

// the global model: iteratively reweighted least squares over all observations
namespace claims_glm
{
typedef GWRGeneralized::Family F;
static double one(F f, double y, double mu)      // contribution to the deviance
{
    if (f == F::Poisson) return 2 * (y > 0 ? y * log(y / mu) - (y - mu) : mu);
    return 2 * ((y != 0 ? y * log(y / mu) : 0) + (1 - y != 0 ? (1 - y) * log((1 - y) / (1 - mu)) : 0));
}
static double inverse(F f, double e)
{
    if (f == F::Poisson) return exp(e) > 2.220446e-16 ? exp(e) : 2.220446e-16;
    return exp(e) / (1 + exp(e));
}
static void fit(F f, bool inside = false)
{
    uword n = int_("n"), k = int_("k");
    mat x = mat_("x", n, k); vec r = vec_("y", n), y(n);
    // counts are not negative, shares lie between 0 and 1; both may be exactly 0 (or 1)
    for (uword i = 0; i < n; i++) y(i) = f == F::Poisson ? (r(i) > 0 ? r(i) : 0) : (inside ? 1 / (1 + exp(r(i))) : r(i) > 0.8 ? 1 : r(i) < -0.8 ? 0 : 1 / (1 + exp(r(i))));
    GeneralizedLinearModel g;
    g.setX(x); g.setY(y); g.setFamily(f);
    g.mMaxit = 1;
    g.fit();
    vec z(n), w(n);
    for (uword i = 0; i < n; i++)
    {
        double m0 = f == F::Poisson ? y(i) + 0.1 : (y(i) + 0.5) / 2;
        double e = f == F::Poisson ? log(m0) : log(m0 / (1 - m0));
        double mu = inverse(f, e), v = f == F::Poisson ? mu : mu * (1 - mu);
        z(i) = e + (y(i) - mu) / v;
        w(i) = v;
    }
    vec b = Ref::beta(x, z, w);
    vec mu(n); double d = 0, d0 = 0, ll = 0;
    for (uword i = 0; i < n; i++) mu(i) = inverse(f, dot(x.row(i), b));
    for (uword i = 0; i < n; i++)
    {
        d += one(f, y(i), mu(i));
        d0 += one(f, y(i), mean(y));
        ll += f == F::Poisson ? y(i) * log(mu(i)) - mu(i) - lgamma(y(i) + 1) : 0;
    }
    if (inside || f == F::Poisson) same("deviance", g.dev(), d);
    same("null deviance", g.nullDev(), d0);
    if (f == F::Poisson) same("AIC", g.aic(), -2 * ll + 2.0 * k);
}
void claim_glm_poisson() { fit(F::Poisson); }
void claim_glm_binomial() { fit(F::Binomial); }
void claim_glm_binomial_inside() { fit(F::Binomial, true); }
}
