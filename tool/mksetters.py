#!/usr/bin/env python3
"""Writes spec/setters.cpp: for every class, every option is set after all of them, and everything readable is read again."""
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# value forms: name -> (two values, how what is read is compared)
NUM = {"bool": ('bool_("b%s")', "bool"), "real": ('real_("r%s")', "double"), "int": ('(int)int_("i%s")', "int"), "size": ('int_("s%s")', "size_t")}
REG = [("setDependentVariable", "dependentVariable", "vec"), ("setIndependentVariables", "independentVariables", "mat"), ("setHasIntercept", "hasIntercept", "bool")]
MONO = [("setCoords", "coords", "coords"), ("setSpatialWeight", "spatialWeight", "sw")]
OMP = [("setParallelType", "parallelType", ("ParallelType::SerialOnly", "ParallelType::OpenMP"))]


def basic(c):
    return [("setIsAutoselectBandwidth", "isAutoselectBandwidth", "bool"), ("setBandwidthSelectionCriterion", "bandwidthSelectionCriterion", (c + "::CV", c + "::AIC")),
            ("setIsAutoselectIndepVars", "isAutoselectIndepVars", "bool"), ("setIndepVarSelectionThreshold", "indepVarSelectionThreshold", "real"), ("setHasHatMatrix", "hasHatMatrix", "bool"),
            ("setStoreS", "isStoreS", "stores"), ("setStoreC", "isStoreC", "bool"), ("setWorkerId", "workerId", "int")] + OMP + REG + MONO


CLASSES = {
    "BandwidthSelector": ("", [("setLower", "lower", "real"), ("setUpper", "upper", "real")]),
    "BandwidthWeight": ("(real_(\"b\"), true, BandwidthWeight::Gaussian)", [("setBandwidth", "bandwidth", "real"), ("setAdaptive", "adaptive", "bool"),
                            ("setKernel", "kernel", ("BandwidthWeight::Bisquare", "BandwidthWeight::Tricube"))]),
    "CRSDistance": ("(false)", [("setGeographic", "geographic", "bool")]),
    "MinkwoskiDistance": ("", [("setPoly", "poly", "real"), ("setTheta", "theta", "real"), ("setGeographic", "geographic", "bool")]),
    "VariableForwardSelector": ("", [("setThreshold", "threshold", "real"), ("setIndepVars", "indepVars", "vars")]),
    "GTWR": ("", [("setIsAutoselectBandwidth", "isAutoselectBandwidth", "bool"), ("setBandwidthSelectionCriterion", "bandwidthSelectionCriterion", ("GTWR::CV", "GTWR::AIC")),
                  ("setHasHatMatrix", "hasHatMatrix", "bool")] + OMP + REG + [MONO[1]]),
    "GWDA": ("", [("setIsWqda", "isWqda", "bool"), ("setHascov", "hasCov", "bool"), ("setHasmean", "hasMean", "bool"), ("setHasprior", "hasPrior", "bool"), ("setVariables", "variables", "mat")] + OMP + MONO),
    "GWDR": ("", [("setHasHatMatrix", "hasHatMatrix", "bool"), ("setEnableBandwidthOptimize", "enableBandwidthOptimize", "bool"), ("setBandwidthOptimizeEps", "bandwidthOptimizeEps", "real"),
                  ("setBandwidthOptimizeMaxIter", "bandwidthOptimizeMaxIter", "size"), ("setBandwidthOptimizeStep", "bandwidthOptimizeStep", "real"),
                  ("setBandwidthCriterionType", "bandwidthCriterionType", ("GWDR::CV", "GWDR::AIC")), ("setEnableIndepVarSelect", "enableIndpenVarSelect", "bool"),
                  ("setIndepVarSelectThreshold", "indepVarSelectThreshold", "real"), ("setSpatialWeights", "spatialWeights", "sws")] + OMP + REG + [MONO[0]]),
    "GWPCA": ("", [("setKeepComponents", "keepComponents", "int"), ("setVariables", "variables", "mat")] + MONO),
    "GWRBasic": ("", basic("GWRBasic")),
    "GWRRobust": ("", [("setFiltered", "filtered", "bool")] + basic("GWRBasic")),
    "GWRGeneralized": ("", [("setFamily", "getFamily", ("GWRGeneralized::Family::Poisson", "GWRGeneralized::Family::Binomial")), ("setTol", "getTol", "real"), ("setMaxiter", "getMaxiter", "size"),
                            ("setBandwidthSelectionCriterionType", "bandwidthSelectionCriterionType", ("GWRGeneralized::CV", "GWRGeneralized::AIC")),
                            ("setIsAutoselectBandwidth", "autoselectBandwidth", "bool"), ("setRegressionData", "regressionData", "mat"), ("setHasHatMatrix", "hasHatMatrix", "bool"),
                            ("setHasRegressionData", "hasRegressionData", "bool")] + OMP + REG + MONO),
    "GWRLocalCollinearity": ("", [("setCnThresh", "cnThresh", "real"), ("setLambda", "lambda", "real"), ("setHasHatMatrix", "hasHatMatrix", "bool"), ("setLambdaAdjust", "lambdaAdjust", "bool"),
                                  ("setIsAutoselectBandwidth", "isAutoselectBandwidth", "bool")] + OMP + REG + MONO),
    "GWRMultiscale": ("", REG[:1] + [("setIndependentVariables", "independentVariables", "mat2")] + REG[2:] + [("setHasHatMatrix", "hasHatMatrix", "bool"), ("setBandwidthSelectRetryTimes", "bandwidthSelectRetryTimes", "size"),
                           ("setMaxIteration", "maxIteration", "size"), ("setCriterionType", "criterionType", ("GWRMultiscale::CVR", "GWRMultiscale::dCVR")), ("setCriterionThreshold", "criterionThreshold", "real"),
                           ("setAdaptiveLower", "adaptiveLower", "int"), ("setPreditorCentered", "preditorCentered", "bools"), ("setBandwidthSelectThreshold", "bandwidthSelectThreshold", "reals"),
                           ("setBandwidthInitilize", "bandwidthInitilize", "inits"), ("setBandwidthSelectionApproach", "bandwidthSelectionApproach", "crits"),
                           ("setSpatialWeights", "spatialWeights", "sws"), ("setWorkerId", "workerId", "int")] + OMP + [MONO[0]]),
    "GWRScalable": ("", [("setPolynomial", "polynomial", "size"), ("setHasHatMatrix", "hasHatMatrix", "bool"), ("setParameterOptimizeCriterion", "parameterOptimizeCriterion", ("GWRScalable::CV", "GWRScalable::AIC"))] + REG + MONO),
    "GWSS": ("", [("setQuantile", "quantile", "bool"), ("setIsCorrWithFirstOnly", "isCorrWithFirstOnly", "bool"), ("setVariables", "variables", "mat")] + OMP + MONO),
}
HEAD = '''// generated by tool/mksetters.py
#include "gwr_common.h"
#include "gwmodelpp/GWRBasic.h"
#include "gwmodelpp/GWRRobust.h"
#include "gwmodelpp/GTWR.h"
#include "gwmodelpp/GWDA.h"
#include "gwmodelpp/GWDR.h"
#include "gwmodelpp/GWPCA.h"
#include "gwmodelpp/GWRGeneralized.h"
#include "gwmodelpp/GWRLocalCollinearity.h"
#include "gwmodelpp/GWRMultiscale.h"
#include "gwmodelpp/GWRScalable.h"
#include "gwmodelpp/GWSS.h"
#include "gwmodelpp/BandwidthSelector.h"
#include "gwmodelpp/VariableForwardSelector.h"
#include "gwmodelpp/spatialweight/MinkwoskiDistance.h"

namespace claims_setters
{
static const char* nm(int g, const char* a, const char* b) { return g == 0 ? a : b; }
static SpatialWeight swv(int g)
{
    CRSDistance d(false);
    return SpatialWeight(ptr_<Weight>(nm(g, "w0", "w1")), &d);
}
static std::vector<SpatialWeight> swsv(int g)
{
    CRSDistance d(false);
    std::vector<SpatialWeight> s;
    s.push_back(SpatialWeight(ptr_<Weight>(nm(g, "v0", "v1")), &d));
    s.push_back(SpatialWeight(ptr_<Weight>(nm(g, "u0", "u1")), &d));
    return s;
}
static void same_sw(const char* label, const SpatialWeight& a, const SpatialWeight& b)
{
    vec d = vec_("distances", int_("nd"));
    same(label, a.weight()->weight(d), b.weight()->weight(d));
}
template<class T> static std::vector<T> two(const T& a, const T& b) { std::vector<T> v; v.push_back(a); v.push_back(b); return v; }
template<class V> static void same_two(const char* label, const V& a, const V& b)
{
    same(label, a.size(), b.size());
    same(label, a[0], b[0]);
    same(label, a[1], b[1]);
}
'''
VEC = {"bools": ('two<bool>(bool_("p%s"), bool_("q%s"))', None), "reals": ('two<double>(real_("p%s"), real_("q%s"))', None)}
ENUMV = {"inits": ("GWRMultiscale::BandwidthInitilizeType", ("GWRMultiscale::Initial", "GWRMultiscale::Specified"), ("GWRMultiscale::Specified", "GWRMultiscale::Null")),
         "crits": ("GWRMultiscale::BandwidthSelectionCriterionType", ("GWRMultiscale::CV", "GWRMultiscale::AIC"), ("GWRMultiscale::AIC", "GWRMultiscale::AIC"))}


def value(form, g, opt):
    tag = "_%s%d" % (opt[3:], g)
    if isinstance(form, tuple):
        return form[g]
    if form == "stores":
        form = "bool"
    if form in NUM:
        return NUM[form][0] % tag
    if form == "vec":
        return 'vec_("y%s", int_("n"))' % tag
    if form == "mat":
        return 'mat_("x%s", int_("n"), int_("k"))' % tag
    if form == "mat2":
        return 'mat_("x%s", int_("n"), 2)' % tag
    if form == "coords":
        return 'mat_("u%s", int_("n"), 2)' % tag
    if form == "vars":
        return 'objs_<size_t>("vars%s", 2)' % tag
    if form == "sw":
        return "swv(%d)" % g
    if form == "sws":
        return "swsv(%d)" % g
    if form in VEC:
        return VEC[form][0] % (tag, tag)
    t, a, b = ENUMV[form]
    return "two<%s>(%s, %s)" % ((t,) + (a if g == 0 else b))


def check(form, label, got, g, opt, hat):
    v = value(form, g, opt)
    if form == "stores":
        # the hat matrix is also stored when it is asked for and small
        v = '%s || (%s && int_("n") < 8192)' % (v, value("bool", hat, "setHasHatMatrix"))
    if isinstance(form, tuple):
        return 'same("%s", (int)%s, (int)(%s));' % (label, got, v)
    if form == "sw":
        return 'same_sw("%s", %s, %s);' % (label, got, v)
    if form == "sws":
        return 'same_sw("%s", %s[0], %s[0]); same_sw("%s", %s[1], %s[1]);' % (label, got, v, label, got, v)
    if form in ENUMV or form in VEC or form == "vars":
        return 'same_two("%s", %s, %s);' % (label, got, v)
    return 'same("%s", %s, %s);' % (label, got, v)


out = [HEAD]
for c, (ctor, opts) in sorted(CLASSES.items()):
    out.append("static void %s_all(%s& a)\n{" % (c, c))
    for s, g, f in opts:
        out.append("    a.%s(%s);" % (s, value(f, 0, s)))
    out.append("}")
    for i, (s, g, f) in enumerate(opts):
        out.append("void claim_set_%s_%s()\n{\n    %s a%s; %s_all(a);\n    a.%s(%s);" % (c, s[3:], c, ctor, c, s, value(f, 1, s)))
        for j, (s2, g2, f2) in enumerate(opts):
            label = "%s reports the value set" % g2 if i == j else "%s is unchanged" % g2
            out.append("    " + check(f2, label, "a.%s()" % g2, 1 if i == j else 0, s2, 1 if s == "setHasHatMatrix" else 0))
        out.append("}")
out.append("}\n")
open(os.path.join(HERE, "spec", "setters.cpp"), "w").write("\n".join(out))
