#include "gwr_common.h"
#include "gwmodelpp/spatialweight/MinkwoskiDistance.h"
#include "gwmodelpp/spatialweight/OneDimDistance.h"
#include "gwmodelpp/spatialweight/CRSSTDistance.h"

namespace claims_weights
{
typedef BandwidthWeight::KernelFunctionType KT;

// ---- kernels: reference value of one weight
static double kernel(KT k, double d, double b)
{
    switch (k)
    {
    case BandwidthWeight::Gaussian: return exp(-(d * d) / (2 * b * b));
    case BandwidthWeight::Exponential: return exp(-d / b);
    case BandwidthWeight::Bisquare: return d < b ? (1 - (d * d) / (b * b)) * (1 - (d * d) / (b * b)) : 0.0;
    case BandwidthWeight::Tricube: return d < b ? pow(1 - (d * d * d) / (b * b * b), 3) : 0.0;
    default: return d < b ? 1.0 : 0.0;
    }
}
static vec kernels(KT k, const vec& d, double b)
{
    vec w(d.n_elem);
    for (uword i = 0; i < d.n_elem; i++) w(i) = kernel(k, d(i), b);
    return w;
}
static void fixed_one(const char* label, KT k)
{
    uword n = int_("n"); vec d = vec_("d", n); double b = real_("b");
    BandwidthWeight w(b, false, k);
    same(label, w.weight(d), kernels(k, d, b));
}
void claim_kernel_fixed_raw()
{
    fixed_one("Gaussian weights", BandwidthWeight::Gaussian);
    fixed_one("exponential weights", BandwidthWeight::Exponential);
    fixed_one("bisquare weights", BandwidthWeight::Bisquare);
    fixed_one("tricube weights", BandwidthWeight::Tricube);
    fixed_one("boxcar weights", BandwidthWeight::Boxcar);
}
// adaptive: the bandwidth is the (interpolated) distance of the b-th neighbour
static double adaptive(const vec& d, double b)
{
    double n = d.n_elem;
    if (b / n < 1)
    {
        vec s = sort(d);
        double f = floor(b);
        return s(int(f) - 1) + (s(int(f)) - s(int(f) - 1)) * (b - f);
    }
    return (b / n) * max(d);
}
static void adaptive_one(const char* label, KT k)
{
    uword n = int_("n"); vec d = vec_("d", n); double b = real_("b");
    BandwidthWeight w(b, true, k);
    same(label, w.weight(d), kernels(k, d, adaptive(d, b)));
}
// more neighbours than there are points
static void adaptive_beyond(const char* label, KT k)
{
    uword n = int_("n"); vec d = vec_("d", n); double b = (1 + 3 * fabs(real_("b"))) * n;
    BandwidthWeight w(b, true, k);
    same(label, w.weight(d), kernels(k, d, b / n * max(d)));
}
void claim_kernel_adaptive_beyond_raw()
{
    adaptive_beyond("adaptive Gaussian weights beyond all neighbours", BandwidthWeight::Gaussian);
    adaptive_beyond("adaptive bisquare weights beyond all neighbours", BandwidthWeight::Bisquare);
}
void claim_kernel_adaptive_gaussian_raw() { adaptive_one("adaptive Gaussian weights", BandwidthWeight::Gaussian); }
void claim_kernel_adaptive_exponential_raw() { adaptive_one("adaptive exponential weights", BandwidthWeight::Exponential); }
void claim_kernel_adaptive_bisquare_raw() { adaptive_one("adaptive bisquare weights", BandwidthWeight::Bisquare); }
void claim_kernel_adaptive_tricube_raw() { adaptive_one("adaptive tricube weights", BandwidthWeight::Tricube); }
void claim_kernel_adaptive_boxcar_raw() { adaptive_one("adaptive boxcar weights", BandwidthWeight::Boxcar); }

void claim_bandwidth_state_raw()
{
    double b = real_("b"), c = real_("c");
    BandwidthWeight w(b, true, BandwidthWeight::Tricube);
    same("bandwidth", w.bandwidth(), b); same("adaptive", w.adaptive(), true); same("kernel", w.kernel(), BandwidthWeight::Tricube);
    BandwidthWeight v(w);
    same("bandwidth of copy", v.bandwidth(), b); same("adaptive of copy", v.adaptive(), true); same("kernel of copy", v.kernel(), BandwidthWeight::Tricube);
    BandwidthWeight p(&w);
    same("bandwidth of copy", p.bandwidth(), b); same("adaptive of copy", p.adaptive(), true); same("kernel of copy", p.kernel(), BandwidthWeight::Tricube);
    v.setBandwidth(c); v.setAdaptive(false); v.setKernel(BandwidthWeight::Boxcar);
    same("bandwidth set", v.bandwidth(), c); same("adaptive set", v.adaptive(), false); same("kernel set", v.kernel(), BandwidthWeight::Boxcar);
    same("original kept", w.bandwidth(), b);
}

// ---- distances
#define PTS uword n = int_("n"), m = int_("m"); mat f = mat_("f", m, 2), u = mat_("u", n, 2); uword i = int_("i");

static vec euclid(const mat& f, const mat& u, uword i)
{
    vec d(u.n_rows);
    for (uword j = 0; j < u.n_rows; j++) d(j) = sqrt(pow(u(j, 0) - f(i, 0), 2) + pow(u(j, 1) - f(i, 1), 2));
    return d;
}
void claim_euclidean_raw()
{
    PTS
    CRSDistance d(false); d.makeParameter({ f, u });
    if (i < m)
    {
        same("Euclidean distance", d.distance(i), euclid(f, u, i));
        CRSDistance c(d);
        same("Euclidean distance of a copy", c.distance(i), euclid(f, u, i));
        Distance* q = d.clone();
        same("Euclidean distance of a clone", q->distance(i), euclid(f, u, i));
    }
}
static double gc(double lon1, double lon2, double lat1, double lat2)
{
    double R = 3.14159265358979323846 / 180, a = 6378.137, f = 1.0 / 298.257223563;
    if (fabs(lat1 - lat2) < 1e-8 && (fabs(lon1 - lon2) < 1e-8 || fabs(fabs(lon1) + fabs(lon2) - 360.0) < 1e-8)) return 0.0;
    double F = (lat1 + lat2) * R / 2, G = (lat1 - lat2) * R / 2, L = (lon1 - lon2) * R / 2;
    double S = pow(sin(G), 2) * pow(cos(L), 2) + pow(cos(F), 2) * pow(sin(L), 2);
    double C = pow(cos(G), 2) * pow(cos(L), 2) + pow(sin(F), 2) * pow(sin(L), 2);
    double w = atan(sqrt(S / C)), r = sqrt(S * C) / w;
    return 2 * w * a * (1 + f * (3 * r - 1) / (2 * C) * pow(sin(F), 2) * pow(cos(G), 2) - f * (3 * r + 1) / (2 * S) * pow(cos(F), 2) * pow(sin(G), 2));
}
void claim_great_circle_raw()
{
    PTS
    CRSDistance d(true); d.makeParameter({ f, u });
    if (i < m)
    {
        vec r(n);
        for (uword j = 0; j < n; j++) r(j) = gc(u(j, 0), f(i, 0), u(j, 1), f(i, 1));
        same("great-circle distance", d.distance(i), r);
        CRSDistance c(d);
        same("great-circle distance of a copy", c.distance(i), r);
        CRSDistance e(false); e.setGeographic(true); e.makeParameter({ f, u });
        same("great-circle distance after switching", e.distance(i), r);
        e.setGeographic(false);
        same("Euclidean distance after switching", e.distance(i), euclid(f, u, i));
    }
}
void claim_extent_raw()
{
    PTS
    CRSDistance d(false); d.makeParameter({ f, u });
    double hi = 0, lo = DBL_MAX;
    for (uword j = 0; j < m; j++) { double t = max(euclid(f, u, j)); if (t > hi) hi = t; }
    for (uword j = 0; j < m; j++) { double t = min(euclid(f, u, j)); if (t < lo) lo = t; }
    same("largest distance", d.maxDistance(), hi);
    same("smallest distance", d.minDistance(), lo);
}
// Minkowski distance with rotated axes
static mat rotated(const mat& u, double t)
{
    mat r(u.n_rows, 2);
    for (uword j = 0; j < u.n_rows; j++)
    {
        r(j, 0) = u(j, 0) * cos(t) - u(j, 1) * sin(t);
        r(j, 1) = u(j, 0) * sin(t) + u(j, 1) * cos(t);
    }
    return r;
}
void claim_minkowski_raw()
{
    PTS
    double p = real_("order"), t = real_("t");
    MinkwoskiDistance d(p, t); d.makeParameter({ f, u });
    if (i < m && p > 0.1 && p != 1 && p != 2)
    {
        mat fr = t == 0 ? f : rotated(f, t), ur = t == 0 ? u : rotated(u, t);
        vec r(n);
        for (uword j = 0; j < n; j++) r(j) = pow(pow(fabs(ur(j, 0) - fr(i, 0)), p) + pow(fabs(ur(j, 1) - fr(i, 1)), p), 1 / p);
        same("Minkowski distance", d.distance(i), r);
    }
}
void claim_manhattan_extent_raw()
{
    PTS
    MinkwoskiDistance d(1.0, 0.0); d.makeParameter({ f, u });
    double hi = 0, lo = DBL_MAX;
    for (uword q = 0; q < m; q++) { double e = max(sum(abs(u.each_row() - f.row(q)), 1)); if (e > hi) hi = e; }
    for (uword q = 0; q < m; q++) { double e = min(sum(abs(u.each_row() - f.row(q)), 1)); if (e < lo) lo = e; }
    same("largest Manhattan distance", d.maxDistance(), hi);
    same("smallest Manhattan distance", d.minDistance(), lo);
}
void claim_manhattan_raw()
{
    PTS
    double t = real_("t");
    MinkwoskiDistance d(1.0, t); d.makeParameter({ f, u });
    if (i < m)
    {
        mat fr = t == 0 ? f : rotated(f, t), ur = t == 0 ? u : rotated(u, t);
        vec r(n);
        for (uword j = 0; j < n; j++) r(j) = fabs(ur(j, 0) - fr(i, 0)) + fabs(ur(j, 1) - fr(i, 1));
        same("Manhattan distance", d.distance(i), r);
    }
}
void claim_minkowski2_raw()
{
    PTS
    MinkwoskiDistance d(2.0, 0.0); d.makeParameter({ f, u });
    if (i < m) same("Minkowski distance of order 2 is Euclidean", d.distance(i), euclid(f, u, i));
    MinkwoskiDistance c(d);
    same("order of a copy", c.poly(), 2.0); same("rotation of a copy", c.theta(), 0.0);
    if (i < m) same("distance of a copy", c.distance(i), euclid(f, u, i));
}
void claim_onedim_raw()
{
    uword n = int_("n"), m = int_("m"), i = int_("i"); vec f = vec_("ft", m), u = vec_("ut", n);
    OneDimDistance d; d.makeParameter({ f, u });
    if (i < m)
    {
        same("one-dimensional distance", d.distance(i), abs(u - f(i)));
        same("signed one-dimensional distance", d.noAbsdistance(i), f(i) - u);
    }
    double hi = 0, lo = DBL_MAX;
    for (uword j = 0; j < m; j++) { double t = max(abs(u - f(j))); if (t > hi) hi = t; }
    for (uword j = 0; j < m; j++) { double t = min(abs(u - f(j))); if (t < lo) lo = t; }
    same("largest distance", d.maxDistance(), hi);
    same("smallest distance", d.minDistance(), lo);
}
// ---- misuse is reported
void claim_bounds_raw()
{
    PTS
    CRSDistance d(false);
    throws("distance without points", [&]() { d.distance(i); });
    throws("largest distance without points", [&]() { d.maxDistance(); });
    throws("smallest distance without points", [&]() { d.minDistance(); });
    d.makeParameter({ f, u });
    if (i < m) quiet("focus in range", [&]() { d.distance(i); });
    if (i >= m) throws("focus out of range", [&]() { d.distance(i); });
    throws("one parameter", [&]() { d.makeParameter({ f }); });
    mat f3 = mat_("f3", m, 3), u3 = mat_("u3", n, 3);
    throws("focus points not planar", [&]() { d.makeParameter({ f3, u }); });
    throws("data points not planar", [&]() { d.makeParameter({ f, u3 }); });
    MinkwoskiDistance k(2, 0);
    throws("Minkowski distance without points", [&]() { k.distance(i); });
    k.makeParameter({ f, u });
    if (i >= m) throws("Minkowski focus out of range", [&]() { k.distance(i); });
    OneDimDistance o; vec ft = vec_("ft", m), ut = vec_("ut", n);
    throws("one-dimensional distance without points", [&]() { o.distance(i); });
    o.makeParameter({ ft, ut });
    if (i >= m) throws("one-dimensional focus out of range", [&]() { o.distance(i); });
    if (i >= m) throws("one-dimensional signed focus out of range", [&]() { o.noAbsdistance(i); });
}
// ---- weights seen from a focus
void claim_weightvector_raw()
{
    PTS
    double b = real_("b");
    SpatialWeight sw(BandwidthWeight(b, false, BandwidthWeight::Gaussian), CRSDistance(false));
    sw.distance()->makeParameter({ f, u });
    if (i < m) same("weights", sw.weightVector(i), kernels(BandwidthWeight::Gaussian, euclid(f, u, i), b));
    SpatialWeight s2(sw);
    if (i < m) same("weights of a copy", s2.weightVector(i), kernels(BandwidthWeight::Gaussian, euclid(f, u, i), b));
    SpatialWeight s3; s3 = sw;
    if (i < m) same("weights after assignment", s3.weightVector(i), kernels(BandwidthWeight::Gaussian, euclid(f, u, i), b));
    s2.weight<BandwidthWeight>()->setBandwidth(b + 1);
    if (i < m) same("weights of the original after changing a copy", sw.weightVector(i), kernels(BandwidthWeight::Gaussian, euclid(f, u, i), b));
    if (i < m) same("weights of the changed copy", s2.weightVector(i), kernels(BandwidthWeight::Gaussian, euclid(f, u, i), b + 1));
    SpatialWeight s4(std::move(s3));
    if (i < m) same("weights after a move", s4.weightVector(i), kernels(BandwidthWeight::Gaussian, euclid(f, u, i), b));
    BandwidthWeight bb(b + 2, false, BandwidthWeight::Boxcar);
    s4.setWeight(&bb);
    if (i < m) same("weights after replacing the kernel", s4.weightVector(i), kernels(BandwidthWeight::Boxcar, euclid(f, u, i), b + 2));
    CRSDistance gd(false); gd.makeParameter({ u, f });
    s4.setDistance(&gd);
    if (i < n) same("weights after replacing the distance", s4.weightVector(i), kernels(BandwidthWeight::Boxcar, euclid(u, f, i), b + 2));
}
}
