#include "gwr_common.h"
#include "golden.h"
#include "gwmodelpp/BandwidthSelector.h"
#include "gwmodelpp/IBandwidthSelectable.h"

namespace claims_selectors
{
// any criterion: an arbitrary function of the candidate
struct Any : public IBandwidthSelectable
{
    Status getCriterion(BandwidthWeight* w, double& v) override { v = fn_("criterion", w->bandwidth()); return Status::Success; }
};
struct Cancelled : public IBandwidthSelectable
{
    Status getCriterion(BandwidthWeight* w, double& v) override { v = fn_("criterion", w->bandwidth()); return Status::Terminated; }
};

struct Worst : public IBandwidthSelectable
{
    Status getCriterion(BandwidthWeight* w, double& v) override { v = DBL_MAX; return Status::Success; }
};
struct Holes : public IBandwidthSelectable
{
    Status getCriterion(BandwidthWeight* w, double& v) override { v = pred_("unusable", w->bandwidth()) ? DBL_MAX : fn_("criterion", w->bandwidth()); return Status::Success; }
};

static double holes(double x) { return pred_("unusable", x) ? DBL_MAX : fn_("criterion", x); }

static void search(bool adaptive, BandwidthWeight::KernelFunctionType k)
{
    double lo = 10 * real_("lo"), hi = lo + 40 * real_("width");
    BandwidthWeight b(real_("b"), adaptive, k);
    BandwidthSelector s(&b, lo, hi);
    Any c;
    BandwidthWeight* r = s.optimize(&c);
    same("kernel", r->kernel(), k);
    same("kind of bandwidth", r->adaptive(), adaptive);
    Memory m;
    same("bandwidth", r->bandwidth(), golden(lo, hi, adaptive, [](double x) { return fn_("criterion", x); }, m));
    same("recorded candidates", s.mBandwidthCriterion, m.seen);
    same("candidate kept", b.bandwidth(), real_("b"));
}
void claim_golden_fixed() { search(false, BandwidthWeight::Gaussian); }
void claim_golden_adaptive() { search(true, BandwidthWeight::Bisquare); }
void claim_golden_cancelled()
{
    BandwidthWeight b(real_("b"), true, BandwidthWeight::Tricube);
    BandwidthSelector s(&b, real_("lo"), real_("hi"));
    Cancelled c;
    BandwidthWeight* r = s.optimize(&c);
    same("kernel", r->kernel(), BandwidthWeight::Tricube);
    same("kind of bandwidth", r->adaptive(), true);
    same("bandwidth", r->bandwidth(), real_("b"));
}
void claim_golden_nothing_usable()
{
    BandwidthWeight b(real_("b"), false, BandwidthWeight::Tricube);
    BandwidthSelector s(&b, real_("lo"), real_("hi"));
    Worst c;
    throws("no candidate can be evaluated", [&]() { s.optimize(&c); });
}
// some candidates cannot be evaluated: they carry the worst value
void claim_golden_some_unusable()
{
    double lo = 10 * real_("lo"), hi = lo + 40 * real_("width");
    BandwidthWeight b(real_("b"), false, BandwidthWeight::Tricube);
    BandwidthSelector s(&b, lo, hi);
    Holes c;
    double r = (sqrt(5) - 1) / 2;
    if (!(pred_("unusable", lo + r * (hi - lo)) && pred_("unusable", hi - r * (hi - lo))))
    {
        BandwidthWeight* w = s.optimize(&c);
        Memory m;
        same("bandwidth", w->bandwidth(), golden(lo, hi, false, [](double x) { return holes(x); }, m));
        same("recorded candidates", s.mBandwidthCriterion, m.seen);
    }
}
void claim_golden_bounds()
{
    BandwidthWeight b(real_("b"), false, BandwidthWeight::Tricube);
    BandwidthSelector s(&b, real_("lo"), real_("hi"));
    same("lower bound", s.lower(), real_("lo")); same("upper bound", s.upper(), real_("hi"));
    s.setLower(real_("lo2")); s.setUpper(real_("hi2"));
    same("lower bound set", s.lower(), real_("lo2")); same("upper bound set", s.upper(), real_("hi2"));
}
}
