#pragma once
#include "gwr_common.h"
#include "gwmodelpp/RegressionDiagnostic.h"
// diagnostics of a fit with residual sum of squares r and hat matrix traces tr1, tr2
static void diagnostic_checks(const RegressionDiagnostic& d, double nn, const vec& y, double r, double tr1, double tr2)
{
    same("RSS", d.RSS, r);
    same("AICc", d.AICc, Ref::aicc(nn, r, tr1));
    same("AIC", d.AIC, nn * log(r / nn) + nn * log(2 * datum::pi) + nn + tr1);
    same("ENP", d.ENP, 2 * tr1 - tr2);
    same("EDF", d.EDF, nn - 2 * tr1 + tr2);
    double yss = accu(square(y - accu(y) / nn));
    same("R2", d.RSquare, 1 - r / yss);
    same("adjusted R2", d.RSquareAdjust, 1 - (r / yss) * (nn - 1) / (nn - 2 * tr1 + tr2 - 1));
}
// everything a weighted least-squares fit reports; rw: weights, located at the data
template<class A, class W> static void fit_checks(A& a, const mat& x, const vec& y, const W& rw, uword n, uword k)
{
    mat b = Ref::betas(x, y, rw, n);
    same("coefficients", a.betas(), b);
    mat S = Ref::S(x, rw);
    double tr1 = Ref::trS(S), tr2 = Ref::trStS(S), r = Ref::rss(x, y, b);
    same("trace of hat matrix", a.sHat()(0), tr1);
    same("trace of S'S", a.sHat()(1), tr2);
    same("q diagonal", a.qDiag(), Ref::qdiag(S));
    mat se(n, k);
    double s2 = r / (n - 2 * tr1 + tr2);
    for (uword i = 0; i < n; i++)
    {
        mat c = Ref::ci(x, rw.weightVector(i));
        for (uword j = 0; j < k; j++)
            se(i, j) = sqrt(s2 * dot(c.row(j), c.row(j)));
    }
    same("standard errors", a.betasSE(), se);
    diagnostic_checks(a.diagnostic(), n, y, r, tr1, tr2);
}
// the two bandwidth criteria
static double ref_cv(const mat& x, const vec& y, const SpatialWeight& rw)
{
    SpatialWeight s(ptr_<BandwidthWeight>("bw"), rw.distance());
    return Ref::rss(x, y, Ref::betas_cv(x, y, s));
}
static double ref_aic(const mat& x, const vec& y, const SpatialWeight& rw)
{
    SpatialWeight s(ptr_<BandwidthWeight>("bw"), rw.distance());
    return Ref::aicc(x.n_rows, Ref::rss(x, y, Ref::betas(x, y, s, x.n_rows)), Ref::trS(Ref::S(x, s)));
}
