#pragma once
#include "gwmv.h"
#include "gwmodelpp/spatialweight/SpatialWeight.h"
#include "gwmodelpp/spatialweight/CRSDistance.h"
#include "gwmodelpp/spatialweight/BandwidthWeight.h"
using namespace arma;
using namespace gwm;
using namespace gwmv;

// Reference: weights of the observations seen from focus i (data located at u)
struct Ref
{
    // spatial weight given by the user: any kernel, any bandwidth
    static SpatialWeight user_sw()
    {
        CRSDistance d(false);
        return SpatialWeight(ptr_<Weight>("w"), &d);
    }
    static SpatialWeight located(const SpatialWeight& sw, const mat& focus, const mat& data)
    {
        SpatialWeight r = sw;
        r.distance()->makeParameter({ focus, data });
        return r;
    }
    static vec beta(const mat& x, const vec& y, const vec& w)
    {
        return inv(x.t() * diagmat(w) * x) * (x.t() * (w % y));
    }
    // C_i = (X'W_iX)^{-1} X'W_i
    static mat ci(const mat& x, const vec& w)
    {
        return inv(x.t() * diagmat(w) * x) * x.t() * diagmat(w);
    }
    template<class W> static mat betas(const mat& x, const vec& y, const W& sw, uword nf)
    {
        mat b(nf, x.n_cols, fill::zeros);
        for (uword i = 0; i < nf; i++) b.row(i) = trans(beta(x, y, sw.weightVector(i)));
        return b;
    }
    // leave-one-out coefficients
    template<class W> static mat betas_cv(const mat& x, const vec& y, const W& sw)
    {
        mat b(x.n_rows, x.n_cols, fill::zeros);
        for (uword i = 0; i < x.n_rows; i++)
        {
            vec w = sw.weightVector(i);
            w(i) = 0;
            b.row(i) = trans(beta(x, y, w));
        }
        return b;
    }
    static vec fitted(const mat& x, const mat& b) { return sum(x % b, 1); }
    static double rss(const mat& x, const vec& y, const mat& b)
    {
        vec r = y - fitted(x, b);
        return dot(r, r);
    }
    // hat matrix
    template<class W> static mat S(const mat& x, const W& sw)
    {
        mat s(x.n_rows, x.n_rows, fill::zeros);
        for (uword i = 0; i < x.n_rows; i++) s.row(i) = x.row(i) * ci(x, sw.weightVector(i));
        return s;
    }
    static double trS(const mat& s) { return trace(s); }
    static double trStS(const mat& s) { return accu(s % s); }
    static vec qdiag(const mat& s)
    {
        uword n = s.n_rows;
        vec q(n, fill::zeros);
        for (uword j = 0; j < n; j++)
            for (uword i = 0; i < n; i++)
            {
                double p = (i == j ? 1.0 : 0.0) - s(i, j);
                q(j) += p * p;
            }
        return q;
    }
    static double aicc(double n, double rss, double trS)
    {
        return n * log(rss / n) + n * log(2 * datum::pi) + n * ((n + trS) / (n - 2 - trS));
    }
};
