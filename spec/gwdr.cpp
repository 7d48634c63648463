#include "gwr_common.h"
#include "checks.h"
#include "gwmodelpp/GWDR.h"
#include "gwmodelpp/spatialweight/OneDimDistance.h"

namespace claims_gwdr
{
// the weight of an observation is the product of the weights along every coordinate
struct Product
{
    std::vector<SpatialWeight> parts;
    vec weightVector(uword i) const
    {
        vec w = parts[0].weightVector(i);
        for (size_t m = 1; m < parts.size(); m++) w = w % parts[m].weightVector(i);
        return w;
    }
};
static std::vector<SpatialWeight> user(bool bandwidths = false, int dims = 2)
{
    OneDimDistance d;
    std::vector<SpatialWeight> s;
    const char* bw[] = { "bw0", "bw1", "bw2" };
    const char* w[] = { "w0", "w1", "w2" };
    for (int m = 0; m < dims; m++)
    {
        if (bandwidths) s.push_back(SpatialWeight(ptr_<BandwidthWeight>(bw[m]), &d));
        else s.push_back(SpatialWeight(ptr_<Weight>(w[m]), &d));
    }
    return s;
}
static void locate(std::vector<SpatialWeight>& s, const mat& u)
{
    for (size_t m = 0; m < s.size(); m++) s[m].distance()->makeParameter({ vec(u.col(m)), vec(u.col(m)) });
}
static void load(GWDR& a, const mat& x, const vec& y, const mat& u, const std::vector<SpatialWeight>& sw)
{
    a.setCoords(u); a.setDependentVariable(y); a.setIndependentVariables(x); a.setSpatialWeights(sw);
}
#define INPUTS(B) INPUTS_DIM(B, 2)
#define INPUTS_DIM(B, D) uword n = int_("n"), k = int_("k"); \
    mat x = mat_("x", n, k), u = mat_("u", n, D); vec y = vec_("y", n); \
    std::vector<SpatialWeight> sw = user(B, D); Product rw; rw.parts = sw; locate(rw.parts, u);

void claim_fit_serial()
{
    INPUTS(false)
    GWDR a; load(a, x, y, u, sw);
    a.setParallelType(ParallelType::SerialOnly);
    mat b = a.fit();
    same("returned coefficients", b, Ref::betas(x, y, rw, n));
    fit_checks(a, x, y, rw, n, k);
}
void claim_fit_omp()
{
    INPUTS(false)
    GWDR a; load(a, x, y, u, sw);
    a.setParallelType(ParallelType::OpenMP); a.setOmpThreadNum(int_("threads"));
    mat b = a.fit();
    same("returned coefficients", b, Ref::betas(x, y, rw, n));
    fit_checks(a, x, y, rw, n, k);
}
static void stored(ParallelType p)
{
    INPUTS(false)
    GWDR a; load(a, x, y, u, sw);
    a.setParallelType(p); a.setOmpThreadNum(int_("threads"));
    a.fit();
    if (n < 8192) same("stored hat matrix", a.s(), Ref::S(x, rw));
}
void claim_stored_serial() { stored(ParallelType::SerialOnly); }
void claim_stored_omp() { stored(ParallelType::OpenMP); }

static void fit3(ParallelType p)
{
    INPUTS_DIM(false, 3)
    GWDR a; load(a, x, y, u, sw);
    a.setParallelType(p); a.setOmpThreadNum(int_("threads"));
    mat b = a.fit();
    same("returned coefficients, three dimensions", b, Ref::betas(x, y, rw, n));
    mat S = Ref::S(x, rw);
    same("trace of hat matrix, three dimensions", a.sHat()(0), Ref::trS(S));
    same("trace of S'S, three dimensions", a.sHat()(1), Ref::trStS(S));
}
void claim_fit_serial3() { fit3(ParallelType::SerialOnly); }
void claim_fit_omp3() { fit3(ParallelType::OpenMP); }

// ---- bandwidth criteria
static double crit(const mat& x, const vec& y, const mat& u, const std::vector<SpatialWeight>& sw, GWDR::BandwidthCriterionType c, ParallelType p, bool mode_first = true)
{
    std::vector<SpatialWeight> s = sw; locate(s, u);
    GWDR a; load(a, x, y, u, s);
    a.setOmpThreadNum(int_("threads"));
    if (mode_first) { a.setParallelType(p); a.setBandwidthCriterionType(c); }
    else { a.setBandwidthCriterionType(c); a.setParallelType(p); }
    std::vector<BandwidthWeight*> b;
    const char* bw[] = { "bw0", "bw1", "bw2" };
    for (size_t m = 0; m < sw.size(); m++) b.push_back(ptr_<BandwidthWeight>(bw[m]));
    return a.bandwidthCriterion(b);
}
static double r_cv(const mat& x, const vec& y, const Product& w) { return Ref::rss(x, y, Ref::betas_cv(x, y, w)); }
static double r_aic(const mat& x, const vec& y, const Product& w) { return Ref::aicc(x.n_rows, Ref::rss(x, y, Ref::betas(x, y, w, x.n_rows)), Ref::trS(Ref::S(x, w))); }
typedef GWDR::BandwidthCriterionType Crit;
void claim_cv_serial() { INPUTS(true) same("CV criterion", crit(x, y, u, sw, Crit::CV, ParallelType::SerialOnly), r_cv(x, y, rw)); }
void claim_cv_omp() { INPUTS(true) same("CV criterion", crit(x, y, u, sw, Crit::CV, ParallelType::OpenMP), r_cv(x, y, rw)); }
void claim_aic_serial() { INPUTS(true) same("AICc criterion", crit(x, y, u, sw, Crit::AIC, ParallelType::SerialOnly), r_aic(x, y, rw)); }
void claim_aic_omp() { INPUTS(true) same("AICc criterion", crit(x, y, u, sw, Crit::AIC, ParallelType::OpenMP), r_aic(x, y, rw)); }
void claim_cv_serial3() { INPUTS_DIM(true, 3) same("CV criterion, three dimensions", crit(x, y, u, sw, Crit::CV, ParallelType::SerialOnly), r_cv(x, y, rw)); }
void claim_cv_omp3() { INPUTS_DIM(true, 3) same("CV criterion, three dimensions", crit(x, y, u, sw, Crit::CV, ParallelType::OpenMP), r_cv(x, y, rw)); }
void claim_aic_serial3() { INPUTS_DIM(true, 3) same("AICc criterion, three dimensions", crit(x, y, u, sw, Crit::AIC, ParallelType::SerialOnly), r_aic(x, y, rw)); }
void claim_aic_omp3() { INPUTS_DIM(true, 3) same("AICc criterion, three dimensions", crit(x, y, u, sw, Crit::AIC, ParallelType::OpenMP), r_aic(x, y, rw)); }
void claim_order_cv() { INPUTS(true) same("chosen criterion", crit(x, y, u, sw, Crit::CV, ParallelType::OpenMP, false), r_cv(x, y, rw)); }
void claim_order_aic() { INPUTS(true) same("chosen criterion", crit(x, y, u, sw, Crit::AIC, ParallelType::OpenMP, false), r_aic(x, y, rw)); }
void claim_order_default()
{
    INPUTS(true)
    GWDR a; load(a, x, y, u, rw.parts);
    std::vector<BandwidthWeight*> b;
    b.push_back(ptr_<BandwidthWeight>("bw0")); b.push_back(ptr_<BandwidthWeight>("bw1"));
    double v = a.bandwidthCriterion(b);
    if (a.bandwidthCriterionType() == Crit::CV) same("default criterion", v, r_cv(x, y, rw));
    else same("default criterion", v, r_aic(x, y, rw));
}
void claim_fail_cv_serial() { INPUTS(true) fails_as("CV criterion", crit(x, y, u, sw, Crit::CV, ParallelType::SerialOnly), DBL_MAX); }
void claim_fail_cv_omp() { INPUTS(true) fails_as("CV criterion", crit(x, y, u, sw, Crit::CV, ParallelType::OpenMP), DBL_MAX); }
void claim_fail_aic_serial() { INPUTS(true) fails_as("AICc criterion", crit(x, y, u, sw, Crit::AIC, ParallelType::SerialOnly), DBL_MAX); }
void claim_fail_aic_omp() { INPUTS(true) fails_as("AICc criterion", crit(x, y, u, sw, Crit::AIC, ParallelType::OpenMP), DBL_MAX); }

// ---- variable selection
static double crit_vars(const mat& x, const vec& y, const mat& u, const std::vector<SpatialWeight>& sw, const std::vector<size_t>& vars, bool global, ParallelType p)
{
    std::vector<SpatialWeight> s = sw; locate(s, u);
    GWDR a; load(a, x, y, u, s);
    a.setHasIntercept(false);
    a.setEnableBandwidthOptimize(global);
    a.setOmpThreadNum(int_("threads"));
    a.setParallelType(p);
    double v = 0;
    a.getCriterion(vars, v);
    return v;
}
static mat chosen(const mat& x, const std::vector<size_t>& vars)
{
    mat z(x.n_rows, vars.size());
    for (uword i = 0; i < x.n_rows; i++)
        for (uword j = 0; j < vars.size(); j++) z(i, j) = x(i, vars[j]);
    return z;
}
struct Uniform
{
    uword n;
    vec weightVector(uword) const { return vec(n, fill::ones); }
};
#define VARS INPUTS(true) std::vector<size_t> vars = objs_<size_t>("vars", int_("p")); mat z = chosen(x, vars);
static void vars_global(ParallelType p)
{
    VARS
    Uniform w; w.n = n;
    same("criterion of a model before its bandwidths are chosen", crit_vars(x, y, u, sw, vars, true, p),
         Ref::aicc(n, Ref::rss(z, y, Ref::betas(z, y, w, n)), Ref::trS(Ref::S(z, w))));
}
void claim_vars_global_serial() { vars_global(ParallelType::SerialOnly); }
void claim_vars_global_omp() { vars_global(ParallelType::OpenMP); }
static void vars_local(ParallelType p)
{
    VARS
    bool zero = false;
    for (size_t m = 0; m < 2; m++) if (sw[m].weight<BandwidthWeight>()->bandwidth() == 0.0) zero = true;
    double v = crit_vars(x, y, u, sw, vars, false, p);
    if (!zero) same("criterion of a model with given bandwidths", v, Ref::aicc(n, Ref::rss(z, y, Ref::betas(z, y, rw, n)), Ref::trS(Ref::S(z, rw))));
}
void claim_vars_local_serial() { vars_local(ParallelType::SerialOnly); }
void claim_vars_local_omp() { vars_local(ParallelType::OpenMP); }
// with given bandwidths (not zero)
static double given(ParallelType p)
{
    uword n = int_("n"), k = int_("k");
    mat x = mat_("x", n, k), u = mat_("u", n, 2); vec y = vec_("y", n);
    OneDimDistance d; BandwidthWeight b(7.0, false, BandwidthWeight::Gaussian);
    std::vector<SpatialWeight> sw;
    sw.push_back(SpatialWeight(&b, &d)); sw.push_back(SpatialWeight(&b, &d));
    return crit_vars(x, y, u, sw, objs_<size_t>("vars", int_("p")), false, p);
}
void claim_fail_vars_serial() { fails_as("variable criterion", given(ParallelType::SerialOnly), DBL_MAX); }
void claim_fail_vars_omp() { fails_as("variable criterion", given(ParallelType::OpenMP), DBL_MAX); }
// ---- a location that cannot be fitted is reported to the caller
static void fit_reports(ParallelType p)
{
    INPUTS(false)
    GWDR a; load(a, x, y, u, sw);
    a.setParallelType(p); a.setOmpThreadNum(int_("threads"));
    reports("fit", [&] { a.fit(); });
}
void claim_reports_fit_serial() { fit_reports(ParallelType::SerialOnly); }
void claim_reports_fit_omp() { fit_reports(ParallelType::OpenMP); }
}
