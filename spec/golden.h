#pragma once
#include "gwr_common.h"
// what a golden section search must remember of the candidates it evaluates
struct Memory
{
    std::unordered_map<double, double> seen;
    void note(double x, double f) { if (f < DBL_MAX) seen[x] = f; }
};
// golden section search over [lo, hi]; F: the criterion
template<class F> static double golden(double lo, double hi, bool adaptive, F f, Memory& m)
{
    double r = (sqrt(5) - 1) / 2, width = r * (hi - lo);
    double right = adaptive ? floor(lo + width) : lo + width, left = adaptive ? round(hi - width) : hi - width;
    double fr = f(right), fl = f(left);
    m.note(right, fr); m.note(left, fl);
    int steps = 0;
    double best = fr < fl ? right : left;
    while (fabs(width) > 1e-4 && fabs(fl - fr) > 1e-4 && steps < 100)
    {
        width = r * width;
        if (fr < fl)
        {
            lo = left; left = right; fl = fr;
            right = adaptive ? round(lo + width) : lo + width;
            fr = f(right);
            m.note(right, fr);
        }
        else
        {
            hi = right; right = left; fr = fl;
            left = adaptive ? floor(hi - width) : hi - width;
            fl = f(left);
            m.note(left, fl);
        }
        steps++;
        best = fr < fl ? right : left;
    }
    return best;
}
