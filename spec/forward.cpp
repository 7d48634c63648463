#include "gwr_common.h"
#include "gwmodelpp/VariableForwardSelector.h"

namespace claims_forward
{
// any criterion: an arbitrary function of the variables of the model
static double value(const std::vector<size_t>& v)
{
    double r = fn_("model", (double)v.size());
    for (size_t i : v) r = fn_("with", r, (double)i);
    return r;
}
struct Any : public IVarialbeSelectable
{
    Status getCriterion(const std::vector<size_t>& v, double& c) override { c = value(v); return Status::Success; }
    std::vector<size_t> selectedVariables() override { return std::vector<size_t>(); }
};
static double has(const std::vector<size_t>& v, size_t x)
{
    double c = 0;
    for (size_t i : v) if (i == x) c = c + 1;
    return c;
}
void claim_forward_one()
{
    std::vector<size_t> vars = { 7 };
    VariableForwardSelector s(vars, real_("threshold"));
    Any c;
    std::vector<size_t> r = s.optimize(&c);
    same("number of variables", r.size(), (size_t)1);
    same("the variable", r[0], (size_t)7);
}
void claim_forward_two()
{
    std::vector<size_t> vars = { 3, 5 };
    double th = real_("threshold");
    VariableForwardSelector s(vars, th);
    Any c;
    std::vector<size_t> r = s.optimize(&c);
    double a = value({ 3 }), b = value({ 5 });
    double good = b < a ? b : a, bad = b < a ? a : b;
    double full = b < a ? value({ 5, 3 }) : value({ 3, 5 });
    bool both = good - full >= th;
    bool one = bad - good >= th;
    double want = both ? 2.0 : one ? 1.0 : 2.0;
    same("number of variables", (double)r.size(), want);
    same("first variable", has(r, 3), both ? 1.0 : one ? (b < a ? 0.0 : 1.0) : 1.0);
}

// three variables: the order within each step is given; the threshold and the criterion of the full model are arbitrary
static double set_value(const std::vector<size_t>& v, double a, double b, double c, double m12, double m14, double m24)
{
    double r = 0;
    for (size_t i : v) r = r + (double)i;
    if (r == 1) return a;
    if (r == 2) return b;
    if (r == 4) return c;
    if (v.size() == 3) return real_("full");
    return r == 3 ? m12 : r == 5 ? m14 : m24;
}
struct AnySet : public IVarialbeSelectable
{
    double a = 0, b = 0, c = 0, m12 = 0, m14 = 0, m24 = 0;
    Status getCriterion(const std::vector<size_t>& v, double& r) override { r = set_value(v, a, b, c, m12, m14, m24); return Status::Success; }
    std::vector<size_t> selectedVariables() override { return std::vector<size_t>(); }
};
static double code(const std::vector<size_t>& v)
{
    double r = 0;
    for (size_t i : v) r = 10 * r + (double)i;
    return r;
}
// best first: v1, then v2, then v3
static void three(const AnySet& given, double v1, double v2, double v3)
{
    std::vector<size_t> vars = { 1, 2, 4 };
    double th = real_("threshold"), full = real_("full");
    VariableForwardSelector s(vars, th);
    AnySet f; f.a = given.a; f.b = given.b; f.c = given.c; f.m12 = given.m12; f.m14 = given.m14; f.m24 = given.m24;
    std::vector<size_t> r = s.optimize(&f);
    double one = set_value({ (size_t)v1 }, f.a, f.b, f.c, f.m12, f.m14, f.m24);
    double pair = set_value({ (size_t)v1, (size_t)v2 }, f.a, f.b, f.c, f.m12, f.m14, f.m24);
    double other = set_value({ (size_t)v1, (size_t)v3 }, f.a, f.b, f.c, f.m12, f.m14, f.m24);
    double want = (pair - full >= th) ? v1 * 100 + v2 * 10 + v3 : (other - pair >= th) ? v1 * 10 + v2 : 0.0;
    same("selected model", (pair - full >= th || other - pair >= th) ? code(r) : 0.0, want);
    VariablesCriterionList l = s.indepVarsCriterion();
    same("number of recorded models", l.size(), (size_t)6);
    same("last recorded model", code(l[5].first), v1 * 100 + v2 * 10 + v3);
    same("last recorded criterion", l[5].second, full);
    same("best pair recorded", code(l[4].first), v1 * 10 + v2);
    same("criterion of the best pair", l[4].second, pair);
    same("other pair recorded", code(l[3].first), v1 * 10 + v3);
    same("criterion of the other pair", l[3].second, other);
    same("best single recorded", code(l[2].first), v1);
    same("criterion of the best single", l[2].second, one);
}
static AnySet table(double a, double b, double c, double m12, double m14, double m24)
{
    AnySet f; f.a = a; f.b = b; f.c = c; f.m12 = m12; f.m14 = m14; f.m24 = m24;
    return f;
}
// pairs without the best single variable are better still: a greedy search does not see them
void claim_forward_three_abc() { three(table(10, 20, 31, 6, 9, 1), 1, 2, 4); }
void claim_forward_three_acb() { three(table(10, 31, 20, 9, 6, 1), 1, 4, 2); }
void claim_forward_three_bac() { three(table(20, 10, 31, 6, 1, 9), 2, 1, 4); }
void claim_forward_three_bca() { three(table(20, 10, 31, 9, 1, 6), 2, 4, 1); }
void claim_forward_three_cab() { three(table(20, 31, 10, 1, 6, 9), 4, 1, 2); }
void claim_forward_three_cba() { three(table(31, 20, 10, 1, 9, 6), 4, 2, 1); }
struct Stops : public IVarialbeSelectable
{
    Status getCriterion(const std::vector<size_t>& v, double& r) override { r = real_("partial"); return Status::Terminated; }
    std::vector<size_t> selectedVariables() override { return std::vector<size_t>(); }
};
void claim_forward_cancelled()
{
    std::vector<size_t> vars = { 1, 2, 4 };
    VariableForwardSelector s(vars, real_("threshold"));
    Stops f;
    same("all variables stay", code(s.optimize(&f)), 124.0);
}
void claim_forward_accessors()
{
    std::vector<size_t> vars = { 3, 5 }, other = { 8 };
    VariableForwardSelector s(vars, real_("threshold"));
    same("threshold", s.threshold(), real_("threshold"));
    same("variables", code(s.indepVars()), 35.0);
    s.setThreshold(real_("t2")); s.setIndepVars(other);
    same("threshold set", s.threshold(), real_("t2"));
    same("variables set", code(s.indepVars()), 8.0);
}
}
