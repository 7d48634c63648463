#include "gwr_common.h"
#include "gwmodelpp/GWSS.h"

namespace claims_gwss
{
#define INPUTS(K) uword n = int_("n"), k = K; \
    mat x = mat_("x", n, k), u = mat_("u", n, 2); \
    SpatialWeight sw = Ref::user_sw(); SpatialWeight rw = Ref::located(sw, u, u);

static void load(GWSS& a, const mat& x, const mat& u, const SpatialWeight& sw, GWSS::GWSSMode m, ParallelType p)
{
    a.setCoords(u); a.setVariables(x); a.setSpatialWeight(sw);
    a.setOmpThreadNum(int_("threads"));
    a.setGWSSMode(m); a.setParallelType(p);
}
static vec share(const SpatialWeight& rw, uword i)
{
    vec w = rw.weightVector(i);
    return w / accu(w);
}
static double mean_(const vec& x, const vec& p) { return dot(x, p); }
static double moment(const vec& x, const vec& p, int q)
{
    double m = mean_(x, p), s = 0;
    for (uword i = 0; i < x.n_elem; i++) s += p(i) * pow(x(i) - m, q);
    return s;
}
static void average(ParallelType p)
{
    INPUTS(int_("k"))
    GWSS a; load(a, x, u, sw, GWSS::GWSSMode::Average, p);
    a.run();
    mat m(n, k), v(n, k), s(n, k), c(n, k);
    for (uword i = 0; i < n; i++)
    {
        vec q = share(rw, i);
        for (uword j = 0; j < k; j++)
        {
            m(i, j) = mean_(x.col(j), q);
            v(i, j) = moment(x.col(j), q, 2);
            s(i, j) = moment(x.col(j), q, 3) / (v(i, j) * sqrt(v(i, j)));
            c(i, j) = sqrt(v(i, j)) / m(i, j);
        }
    }
    same("local mean", a.localMean(), m);
    same("local variance", a.localVar(), v);
    same("local standard deviation", a.localSDev(), sqrt(v));
    same("local skewness", a.localSkewness(), s);
    same("local coefficient of variation", a.localCV(), c);
}
void claim_average_serial() { average(ParallelType::SerialOnly); }
void claim_average_omp() { average(ParallelType::OpenMP); }

// the largest value before the accumulated weight exceeds the level
static double quantile_(const vec& x, const vec& p, double level)
{
    vec s = sort(x), c = cumsum(vec(p(sort_index(x))));
    uword at = x.n_elem - 1;
    for (uword i = 0; i < x.n_elem; i++)
        if (c(i) > level) { at = i == 0 ? 0 : i - 1; break; }
    return s(at);
}
// levels that are reached exactly
void claim_quantiles_boundary()
{
    vec x(4), w(4); x(0) = 1; x(1) = 2; x(2) = 5; x(3) = 9; w.fill(0.25);
    vec q = GWSS::findq(x, w);
    same("first quartile", q(0), 1); same("median", q(1), 2); same("third quartile", q(2), 5);
}
static void quantiles(ParallelType p)
{
    INPUTS(int_("k"))
    GWSS a; load(a, x, u, sw, GWSS::GWSSMode::Average, p);
    a.setQuantile(true);
    a.run();
    mat m(n, k), r(n, k), e(n, k);
    for (uword i = 0; i < n; i++)
    {
        vec q = share(rw, i);
        for (uword j = 0; j < k; j++)
        {
            double q1 = quantile_(x.col(j), q, 0.25), q2 = quantile_(x.col(j), q, 0.5), q3 = quantile_(x.col(j), q, 0.75);
            m(i, j) = q2; r(i, j) = q3 - q1; e(i, j) = (2 * q2 - q3 - q1) / (q3 - q1);
        }
    }
    same("local median", a.localMedian(), m);
    same("local interquartile range", a.iqr(), r);
    same("local quantile imbalance", a.qi(), e);
}
void claim_quantiles_serial() { quantiles(ParallelType::SerialOnly); }
void claim_quantiles_omp() { quantiles(ParallelType::OpenMP); }

static double cov_(const vec& x, const vec& y, const vec& p)
{
    double mx = mean_(x, p), my = mean_(y, p), s = 0;
    for (uword i = 0; i < x.n_elem; i++) s += p(i) * (x(i) - mx) * (y(i) - my);
    return s / (1 - dot(p, p));
}
static double cor_(const vec& x, const vec& y, const vec& p) { return cov_(x, y, p) / sqrt(cov_(x, x, p) * cov_(y, y, p)); }
static vec rank_(const vec& x)
{
    uvec o = sort_index(sort_index(x));
    vec r(x.n_elem);
    for (uword i = 0; i < x.n_elem; i++) r(i) = o(i) + 1.0;
    return r;
}
static void correlation(uword kk, bool first, ParallelType p)
{
    INPUTS(kk)
    GWSS a; load(a, x, u, sw, GWSS::GWSSMode::Correlation, p);
    a.setIsCorrWithFirstOnly(first);
    a.run();
    uword cols = first ? k - 1 : k * (k - 1) / 2;
    mat m(n, k), v(n, k), c(n, cols), r(n, cols), s(n, cols);
    for (uword i = 0; i < n; i++)
    {
        vec q = share(rw, i);
        for (uword j = 0; j < k; j++) { m(i, j) = mean_(x.col(j), q); v(i, j) = moment(x.col(j), q, 2); }
        uword t = 0;
        for (uword j = 0; j < (first ? 1 : k - 1); j++)
            for (uword l = j + 1; l < k; l++)
            {
                c(i, t) = cov_(x.col(j), x.col(l), q);
                r(i, t) = cor_(x.col(j), x.col(l), q);
                s(i, t) = cor_(rank_(x.col(j)), rank_(x.col(l)), q);
                t++;
            }
    }
    same("local mean", a.localMean(), m);
    same("local variance", a.localVar(), v);
    same("local covariance", a.localCov(), c);
    same("local Pearson correlation", a.localCorr(), r);
    same("local Spearman correlation", a.localSCorr(), s);
}
void claim_correlation_two_serial() { correlation(2, false, ParallelType::SerialOnly); }
void claim_correlation_two_omp() { correlation(2, false, ParallelType::OpenMP); }
void claim_correlation_all_serial() { correlation(3, false, ParallelType::SerialOnly); }
void claim_correlation_all_omp() { correlation(3, false, ParallelType::OpenMP); }
void claim_correlation_first_serial() { correlation(3, true, ParallelType::SerialOnly); }
void claim_correlation_first_omp() { correlation(3, true, ParallelType::OpenMP); }

// ---- the statistics follow the options, in whatever order they were set
static void order(bool mode_first, bool corr)
{
    INPUTS(2)
    GWSS a; a.setCoords(u); a.setVariables(x); a.setSpatialWeight(sw); a.setOmpThreadNum(int_("threads"));
    GWSS::GWSSMode m = corr ? GWSS::GWSSMode::Correlation : GWSS::GWSSMode::Average;
    if (mode_first) { a.setParallelType(ParallelType::OpenMP); a.setGWSSMode(m); }
    else { a.setGWSSMode(m); a.setParallelType(ParallelType::OpenMP); }
    a.run();
    mat v(n, 2);
    vec c(n);
    for (uword i = 0; i < n; i++)
    {
        vec q = share(rw, i);
        for (uword j = 0; j < 2; j++) v(i, j) = moment(x.col(j), q, 2);
        c(i) = cov_(x.col(0), x.col(1), q);
    }
    same("local variance", a.localVar(), v);
    if (corr) same("local covariance", vec(a.localCov().col(0)), c);
    else same("local standard deviation", a.localSDev(), sqrt(v));
}
void claim_order_average_first() { order(true, false); }
void claim_order_average_last() { order(false, false); }
void claim_order_correlation_first() { order(true, true); }
void claim_order_correlation_last() { order(false, true); }
}
