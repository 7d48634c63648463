// generated by tool/mksetters.py
#include "gwr_common.h"
#include "gwmodelpp/GWRBasic.h"
#include "gwmodelpp/GWRRobust.h"
#include "gwmodelpp/GTWR.h"
#include "gwmodelpp/GWDA.h"
#include "gwmodelpp/GWDR.h"
#include "gwmodelpp/GWPCA.h"
#include "gwmodelpp/GWRGeneralized.h"
#include "gwmodelpp/GWRLocalCollinearity.h"
#include "gwmodelpp/GWRMultiscale.h"
#include "gwmodelpp/GWRScalable.h"
#include "gwmodelpp/GWSS.h"
#include "gwmodelpp/BandwidthSelector.h"
#include "gwmodelpp/VariableForwardSelector.h"
#include "gwmodelpp/spatialweight/MinkwoskiDistance.h"

namespace claims_setters
{
static const char* nm(int g, const char* a, const char* b) { return g == 0 ? a : b; }
static SpatialWeight swv(int g)
{
    CRSDistance d(false);
    return SpatialWeight(ptr_<Weight>(nm(g, "w0", "w1")), &d);
}
static std::vector<SpatialWeight> swsv(int g)
{
    CRSDistance d(false);
    std::vector<SpatialWeight> s;
    s.push_back(SpatialWeight(ptr_<Weight>(nm(g, "v0", "v1")), &d));
    s.push_back(SpatialWeight(ptr_<Weight>(nm(g, "u0", "u1")), &d));
    return s;
}
static void same_sw(const char* label, const SpatialWeight& a, const SpatialWeight& b)
{
    vec d = vec_("distances", int_("nd"));
    same(label, a.weight()->weight(d), b.weight()->weight(d));
}
template<class T> static std::vector<T> two(const T& a, const T& b) { std::vector<T> v; v.push_back(a); v.push_back(b); return v; }
template<class V> static void same_two(const char* label, const V& a, const V& b)
{
    same(label, a.size(), b.size());
    same(label, a[0], b[0]);
    same(label, a[1], b[1]);
}

static void BandwidthSelector_all(BandwidthSelector& a)
{
    a.setLower(real_("r_Lower0"));
    a.setUpper(real_("r_Upper0"));
}
void claim_set_BandwidthSelector_Lower()
{
    BandwidthSelector a; BandwidthSelector_all(a);
    a.setLower(real_("r_Lower1"));
    same("lower reports the value set", a.lower(), real_("r_Lower1"));
    same("upper is unchanged", a.upper(), real_("r_Upper0"));
}
void claim_set_BandwidthSelector_Upper()
{
    BandwidthSelector a; BandwidthSelector_all(a);
    a.setUpper(real_("r_Upper1"));
    same("lower is unchanged", a.lower(), real_("r_Lower0"));
    same("upper reports the value set", a.upper(), real_("r_Upper1"));
}
static void BandwidthWeight_all(BandwidthWeight& a)
{
    a.setBandwidth(real_("r_Bandwidth0"));
    a.setAdaptive(bool_("b_Adaptive0"));
    a.setKernel(BandwidthWeight::Bisquare);
}
void claim_set_BandwidthWeight_Bandwidth()
{
    BandwidthWeight a(real_("b"), true, BandwidthWeight::Gaussian); BandwidthWeight_all(a);
    a.setBandwidth(real_("r_Bandwidth1"));
    same("bandwidth reports the value set", a.bandwidth(), real_("r_Bandwidth1"));
    same("adaptive is unchanged", a.adaptive(), bool_("b_Adaptive0"));
    same("kernel is unchanged", (int)a.kernel(), (int)(BandwidthWeight::Bisquare));
}
void claim_set_BandwidthWeight_Adaptive()
{
    BandwidthWeight a(real_("b"), true, BandwidthWeight::Gaussian); BandwidthWeight_all(a);
    a.setAdaptive(bool_("b_Adaptive1"));
    same("bandwidth is unchanged", a.bandwidth(), real_("r_Bandwidth0"));
    same("adaptive reports the value set", a.adaptive(), bool_("b_Adaptive1"));
    same("kernel is unchanged", (int)a.kernel(), (int)(BandwidthWeight::Bisquare));
}
void claim_set_BandwidthWeight_Kernel()
{
    BandwidthWeight a(real_("b"), true, BandwidthWeight::Gaussian); BandwidthWeight_all(a);
    a.setKernel(BandwidthWeight::Tricube);
    same("bandwidth is unchanged", a.bandwidth(), real_("r_Bandwidth0"));
    same("adaptive is unchanged", a.adaptive(), bool_("b_Adaptive0"));
    same("kernel reports the value set", (int)a.kernel(), (int)(BandwidthWeight::Tricube));
}
static void CRSDistance_all(CRSDistance& a)
{
    a.setGeographic(bool_("b_Geographic0"));
}
void claim_set_CRSDistance_Geographic()
{
    CRSDistance a(false); CRSDistance_all(a);
    a.setGeographic(bool_("b_Geographic1"));
    same("geographic reports the value set", a.geographic(), bool_("b_Geographic1"));
}
static void GTWR_all(GTWR& a)
{
    a.setIsAutoselectBandwidth(bool_("b_IsAutoselectBandwidth0"));
    a.setBandwidthSelectionCriterion(GTWR::CV);
    a.setHasHatMatrix(bool_("b_HasHatMatrix0"));
    a.setParallelType(ParallelType::SerialOnly);
    a.setDependentVariable(vec_("y_DependentVariable0", int_("n")));
    a.setIndependentVariables(mat_("x_IndependentVariables0", int_("n"), int_("k")));
    a.setHasIntercept(bool_("b_HasIntercept0"));
    a.setSpatialWeight(swv(0));
}
void claim_set_GTWR_IsAutoselectBandwidth()
{
    GTWR a; GTWR_all(a);
    a.setIsAutoselectBandwidth(bool_("b_IsAutoselectBandwidth1"));
    same("isAutoselectBandwidth reports the value set", a.isAutoselectBandwidth(), bool_("b_IsAutoselectBandwidth1"));
    same("bandwidthSelectionCriterion is unchanged", (int)a.bandwidthSelectionCriterion(), (int)(GTWR::CV));
    same("hasHatMatrix is unchanged", a.hasHatMatrix(), bool_("b_HasHatMatrix0"));
    same("parallelType is unchanged", (int)a.parallelType(), (int)(ParallelType::SerialOnly));
    same("dependentVariable is unchanged", a.dependentVariable(), vec_("y_DependentVariable0", int_("n")));
    same("independentVariables is unchanged", a.independentVariables(), mat_("x_IndependentVariables0", int_("n"), int_("k")));
    same("hasIntercept is unchanged", a.hasIntercept(), bool_("b_HasIntercept0"));
    same_sw("spatialWeight is unchanged", a.spatialWeight(), swv(0));
}
void claim_set_GTWR_BandwidthSelectionCriterion()
{
    GTWR a; GTWR_all(a);
    a.setBandwidthSelectionCriterion(GTWR::AIC);
    same("isAutoselectBandwidth is unchanged", a.isAutoselectBandwidth(), bool_("b_IsAutoselectBandwidth0"));
    same("bandwidthSelectionCriterion reports the value set", (int)a.bandwidthSelectionCriterion(), (int)(GTWR::AIC));
    same("hasHatMatrix is unchanged", a.hasHatMatrix(), bool_("b_HasHatMatrix0"));
    same("parallelType is unchanged", (int)a.parallelType(), (int)(ParallelType::SerialOnly));
    same("dependentVariable is unchanged", a.dependentVariable(), vec_("y_DependentVariable0", int_("n")));
    same("independentVariables is unchanged", a.independentVariables(), mat_("x_IndependentVariables0", int_("n"), int_("k")));
    same("hasIntercept is unchanged", a.hasIntercept(), bool_("b_HasIntercept0"));
    same_sw("spatialWeight is unchanged", a.spatialWeight(), swv(0));
}
void claim_set_GTWR_HasHatMatrix()
{
    GTWR a; GTWR_all(a);
    a.setHasHatMatrix(bool_("b_HasHatMatrix1"));
    same("isAutoselectBandwidth is unchanged", a.isAutoselectBandwidth(), bool_("b_IsAutoselectBandwidth0"));
    same("bandwidthSelectionCriterion is unchanged", (int)a.bandwidthSelectionCriterion(), (int)(GTWR::CV));
    same("hasHatMatrix reports the value set", a.hasHatMatrix(), bool_("b_HasHatMatrix1"));
    same("parallelType is unchanged", (int)a.parallelType(), (int)(ParallelType::SerialOnly));
    same("dependentVariable is unchanged", a.dependentVariable(), vec_("y_DependentVariable0", int_("n")));
    same("independentVariables is unchanged", a.independentVariables(), mat_("x_IndependentVariables0", int_("n"), int_("k")));
    same("hasIntercept is unchanged", a.hasIntercept(), bool_("b_HasIntercept0"));
    same_sw("spatialWeight is unchanged", a.spatialWeight(), swv(0));
}
void claim_set_GTWR_ParallelType()
{
    GTWR a; GTWR_all(a);
    a.setParallelType(ParallelType::OpenMP);
    same("isAutoselectBandwidth is unchanged", a.isAutoselectBandwidth(), bool_("b_IsAutoselectBandwidth0"));
    same("bandwidthSelectionCriterion is unchanged", (int)a.bandwidthSelectionCriterion(), (int)(GTWR::CV));
    same("hasHatMatrix is unchanged", a.hasHatMatrix(), bool_("b_HasHatMatrix0"));
    same("parallelType reports the value set", (int)a.parallelType(), (int)(ParallelType::OpenMP));
    same("dependentVariable is unchanged", a.dependentVariable(), vec_("y_DependentVariable0", int_("n")));
    same("independentVariables is unchanged", a.independentVariables(), mat_("x_IndependentVariables0", int_("n"), int_("k")));
    same("hasIntercept is unchanged", a.hasIntercept(), bool_("b_HasIntercept0"));
    same_sw("spatialWeight is unchanged", a.spatialWeight(), swv(0));
}
void claim_set_GTWR_DependentVariable()
{
    GTWR a; GTWR_all(a);
    a.setDependentVariable(vec_("y_DependentVariable1", int_("n")));
    same("isAutoselectBandwidth is unchanged", a.isAutoselectBandwidth(), bool_("b_IsAutoselectBandwidth0"));
    same("bandwidthSelectionCriterion is unchanged", (int)a.bandwidthSelectionCriterion(), (int)(GTWR::CV));
    same("hasHatMatrix is unchanged", a.hasHatMatrix(), bool_("b_HasHatMatrix0"));
    same("parallelType is unchanged", (int)a.parallelType(), (int)(ParallelType::SerialOnly));
    same("dependentVariable reports the value set", a.dependentVariable(), vec_("y_DependentVariable1", int_("n")));
    same("independentVariables is unchanged", a.independentVariables(), mat_("x_IndependentVariables0", int_("n"), int_("k")));
    same("hasIntercept is unchanged", a.hasIntercept(), bool_("b_HasIntercept0"));
    same_sw("spatialWeight is unchanged", a.spatialWeight(), swv(0));
}
void claim_set_GTWR_IndependentVariables()
{
    GTWR a; GTWR_all(a);
    a.setIndependentVariables(mat_("x_IndependentVariables1", int_("n"), int_("k")));
    same("isAutoselectBandwidth is unchanged", a.isAutoselectBandwidth(), bool_("b_IsAutoselectBandwidth0"));
    same("bandwidthSelectionCriterion is unchanged", (int)a.bandwidthSelectionCriterion(), (int)(GTWR::CV));
    same("hasHatMatrix is unchanged", a.hasHatMatrix(), bool_("b_HasHatMatrix0"));
    same("parallelType is unchanged", (int)a.parallelType(), (int)(ParallelType::SerialOnly));
    same("dependentVariable is unchanged", a.dependentVariable(), vec_("y_DependentVariable0", int_("n")));
    same("independentVariables reports the value set", a.independentVariables(), mat_("x_IndependentVariables1", int_("n"), int_("k")));
    same("hasIntercept is unchanged", a.hasIntercept(), bool_("b_HasIntercept0"));
    same_sw("spatialWeight is unchanged", a.spatialWeight(), swv(0));
}
void claim_set_GTWR_HasIntercept()
{
    GTWR a; GTWR_all(a);
    a.setHasIntercept(bool_("b_HasIntercept1"));
    same("isAutoselectBandwidth is unchanged", a.isAutoselectBandwidth(), bool_("b_IsAutoselectBandwidth0"));
    same("bandwidthSelectionCriterion is unchanged", (int)a.bandwidthSelectionCriterion(), (int)(GTWR::CV));
    same("hasHatMatrix is unchanged", a.hasHatMatrix(), bool_("b_HasHatMatrix0"));
    same("parallelType is unchanged", (int)a.parallelType(), (int)(ParallelType::SerialOnly));
    same("dependentVariable is unchanged", a.dependentVariable(), vec_("y_DependentVariable0", int_("n")));
    same("independentVariables is unchanged", a.independentVariables(), mat_("x_IndependentVariables0", int_("n"), int_("k")));
    same("hasIntercept reports the value set", a.hasIntercept(), bool_("b_HasIntercept1"));
    same_sw("spatialWeight is unchanged", a.spatialWeight(), swv(0));
}
void claim_set_GTWR_SpatialWeight()
{
    GTWR a; GTWR_all(a);
    a.setSpatialWeight(swv(1));
    same("isAutoselectBandwidth is unchanged", a.isAutoselectBandwidth(), bool_("b_IsAutoselectBandwidth0"));
    same("bandwidthSelectionCriterion is unchanged", (int)a.bandwidthSelectionCriterion(), (int)(GTWR::CV));
    same("hasHatMatrix is unchanged", a.hasHatMatrix(), bool_("b_HasHatMatrix0"));
    same("parallelType is unchanged", (int)a.parallelType(), (int)(ParallelType::SerialOnly));
    same("dependentVariable is unchanged", a.dependentVariable(), vec_("y_DependentVariable0", int_("n")));
    same("independentVariables is unchanged", a.independentVariables(), mat_("x_IndependentVariables0", int_("n"), int_("k")));
    same("hasIntercept is unchanged", a.hasIntercept(), bool_("b_HasIntercept0"));
    same_sw("spatialWeight reports the value set", a.spatialWeight(), swv(1));
}
static void GWDA_all(GWDA& a)
{
    a.setIsWqda(bool_("b_IsWqda0"));
    a.setHascov(bool_("b_Hascov0"));
    a.setHasmean(bool_("b_Hasmean0"));
    a.setHasprior(bool_("b_Hasprior0"));
    a.setVariables(mat_("x_Variables0", int_("n"), int_("k")));
    a.setParallelType(ParallelType::SerialOnly);
    a.setCoords(mat_("u_Coords0", int_("n"), 2));
    a.setSpatialWeight(swv(0));
}
void claim_set_GWDA_IsWqda()
{
    GWDA a; GWDA_all(a);
    a.setIsWqda(bool_("b_IsWqda1"));
    same("isWqda reports the value set", a.isWqda(), bool_("b_IsWqda1"));
    same("hasCov is unchanged", a.hasCov(), bool_("b_Hascov0"));
    same("hasMean is unchanged", a.hasMean(), bool_("b_Hasmean0"));
    same("hasPrior is unchanged", a.hasPrior(), bool_("b_Hasprior0"));
    same("variables is unchanged", a.variables(), mat_("x_Variables0", int_("n"), int_("k")));
    same("parallelType is unchanged", (int)a.parallelType(), (int)(ParallelType::SerialOnly));
    same("coords is unchanged", a.coords(), mat_("u_Coords0", int_("n"), 2));
    same_sw("spatialWeight is unchanged", a.spatialWeight(), swv(0));
}
void claim_set_GWDA_Hascov()
{
    GWDA a; GWDA_all(a);
    a.setHascov(bool_("b_Hascov1"));
    same("isWqda is unchanged", a.isWqda(), bool_("b_IsWqda0"));
    same("hasCov reports the value set", a.hasCov(), bool_("b_Hascov1"));
    same("hasMean is unchanged", a.hasMean(), bool_("b_Hasmean0"));
    same("hasPrior is unchanged", a.hasPrior(), bool_("b_Hasprior0"));
    same("variables is unchanged", a.variables(), mat_("x_Variables0", int_("n"), int_("k")));
    same("parallelType is unchanged", (int)a.parallelType(), (int)(ParallelType::SerialOnly));
    same("coords is unchanged", a.coords(), mat_("u_Coords0", int_("n"), 2));
    same_sw("spatialWeight is unchanged", a.spatialWeight(), swv(0));
}
void claim_set_GWDA_Hasmean()
{
    GWDA a; GWDA_all(a);
    a.setHasmean(bool_("b_Hasmean1"));
    same("isWqda is unchanged", a.isWqda(), bool_("b_IsWqda0"));
    same("hasCov is unchanged", a.hasCov(), bool_("b_Hascov0"));
    same("hasMean reports the value set", a.hasMean(), bool_("b_Hasmean1"));
    same("hasPrior is unchanged", a.hasPrior(), bool_("b_Hasprior0"));
    same("variables is unchanged", a.variables(), mat_("x_Variables0", int_("n"), int_("k")));
    same("parallelType is unchanged", (int)a.parallelType(), (int)(ParallelType::SerialOnly));
    same("coords is unchanged", a.coords(), mat_("u_Coords0", int_("n"), 2));
    same_sw("spatialWeight is unchanged", a.spatialWeight(), swv(0));
}
void claim_set_GWDA_Hasprior()
{
    GWDA a; GWDA_all(a);
    a.setHasprior(bool_("b_Hasprior1"));
    same("isWqda is unchanged", a.isWqda(), bool_("b_IsWqda0"));
    same("hasCov is unchanged", a.hasCov(), bool_("b_Hascov0"));
    same("hasMean is unchanged", a.hasMean(), bool_("b_Hasmean0"));
    same("hasPrior reports the value set", a.hasPrior(), bool_("b_Hasprior1"));
    same("variables is unchanged", a.variables(), mat_("x_Variables0", int_("n"), int_("k")));
    same("parallelType is unchanged", (int)a.parallelType(), (int)(ParallelType::SerialOnly));
    same("coords is unchanged", a.coords(), mat_("u_Coords0", int_("n"), 2));
    same_sw("spatialWeight is unchanged", a.spatialWeight(), swv(0));
}
void claim_set_GWDA_Variables()
{
    GWDA a; GWDA_all(a);
    a.setVariables(mat_("x_Variables1", int_("n"), int_("k")));
    same("isWqda is unchanged", a.isWqda(), bool_("b_IsWqda0"));
    same("hasCov is unchanged", a.hasCov(), bool_("b_Hascov0"));
    same("hasMean is unchanged", a.hasMean(), bool_("b_Hasmean0"));
    same("hasPrior is unchanged", a.hasPrior(), bool_("b_Hasprior0"));
    same("variables reports the value set", a.variables(), mat_("x_Variables1", int_("n"), int_("k")));
    same("parallelType is unchanged", (int)a.parallelType(), (int)(ParallelType::SerialOnly));
    same("coords is unchanged", a.coords(), mat_("u_Coords0", int_("n"), 2));
    same_sw("spatialWeight is unchanged", a.spatialWeight(), swv(0));
}
void claim_set_GWDA_ParallelType()
{
    GWDA a; GWDA_all(a);
    a.setParallelType(ParallelType::OpenMP);
    same("isWqda is unchanged", a.isWqda(), bool_("b_IsWqda0"));
    same("hasCov is unchanged", a.hasCov(), bool_("b_Hascov0"));
    same("hasMean is unchanged", a.hasMean(), bool_("b_Hasmean0"));
    same("hasPrior is unchanged", a.hasPrior(), bool_("b_Hasprior0"));
    same("variables is unchanged", a.variables(), mat_("x_Variables0", int_("n"), int_("k")));
    same("parallelType reports the value set", (int)a.parallelType(), (int)(ParallelType::OpenMP));
    same("coords is unchanged", a.coords(), mat_("u_Coords0", int_("n"), 2));
    same_sw("spatialWeight is unchanged", a.spatialWeight(), swv(0));
}
void claim_set_GWDA_Coords()
{
    GWDA a; GWDA_all(a);
    a.setCoords(mat_("u_Coords1", int_("n"), 2));
    same("isWqda is unchanged", a.isWqda(), bool_("b_IsWqda0"));
    same("hasCov is unchanged", a.hasCov(), bool_("b_Hascov0"));
    same("hasMean is unchanged", a.hasMean(), bool_("b_Hasmean0"));
    same("hasPrior is unchanged", a.hasPrior(), bool_("b_Hasprior0"));
    same("variables is unchanged", a.variables(), mat_("x_Variables0", int_("n"), int_("k")));
    same("parallelType is unchanged", (int)a.parallelType(), (int)(ParallelType::SerialOnly));
    same("coords reports the value set", a.coords(), mat_("u_Coords1", int_("n"), 2));
    same_sw("spatialWeight is unchanged", a.spatialWeight(), swv(0));
}
void claim_set_GWDA_SpatialWeight()
{
    GWDA a; GWDA_all(a);
    a.setSpatialWeight(swv(1));
    same("isWqda is unchanged", a.isWqda(), bool_("b_IsWqda0"));
    same("hasCov is unchanged", a.hasCov(), bool_("b_Hascov0"));
    same("hasMean is unchanged", a.hasMean(), bool_("b_Hasmean0"));
    same("hasPrior is unchanged", a.hasPrior(), bool_("b_Hasprior0"));
    same("variables is unchanged", a.variables(), mat_("x_Variables0", int_("n"), int_("k")));
    same("parallelType is unchanged", (int)a.parallelType(), (int)(ParallelType::SerialOnly));
    same("coords is unchanged", a.coords(), mat_("u_Coords0", int_("n"), 2));
    same_sw("spatialWeight reports the value set", a.spatialWeight(), swv(1));
}
static void GWDR_all(GWDR& a)
{
    a.setHasHatMatrix(bool_("b_HasHatMatrix0"));
    a.setEnableBandwidthOptimize(bool_("b_EnableBandwidthOptimize0"));
    a.setBandwidthOptimizeEps(real_("r_BandwidthOptimizeEps0"));
    a.setBandwidthOptimizeMaxIter(int_("s_BandwidthOptimizeMaxIter0"));
    a.setBandwidthOptimizeStep(real_("r_BandwidthOptimizeStep0"));
    a.setBandwidthCriterionType(GWDR::CV);
    a.setEnableIndepVarSelect(bool_("b_EnableIndepVarSelect0"));
    a.setIndepVarSelectThreshold(real_("r_IndepVarSelectThreshold0"));
    a.setSpatialWeights(swsv(0));
    a.setParallelType(ParallelType::SerialOnly);
    a.setDependentVariable(vec_("y_DependentVariable0", int_("n")));
    a.setIndependentVariables(mat_("x_IndependentVariables0", int_("n"), int_("k")));
    a.setHasIntercept(bool_("b_HasIntercept0"));
    a.setCoords(mat_("u_Coords0", int_("n"), 2));
}
void claim_set_GWDR_HasHatMatrix()
{
    GWDR a; GWDR_all(a);
    a.setHasHatMatrix(bool_("b_HasHatMatrix1"));
    same("hasHatMatrix reports the value set", a.hasHatMatrix(), bool_("b_HasHatMatrix1"));
    same("enableBandwidthOptimize is unchanged", a.enableBandwidthOptimize(), bool_("b_EnableBandwidthOptimize0"));
    same("bandwidthOptimizeEps is unchanged", a.bandwidthOptimizeEps(), real_("r_BandwidthOptimizeEps0"));
    same("bandwidthOptimizeMaxIter is unchanged", a.bandwidthOptimizeMaxIter(), int_("s_BandwidthOptimizeMaxIter0"));
    same("bandwidthOptimizeStep is unchanged", a.bandwidthOptimizeStep(), real_("r_BandwidthOptimizeStep0"));
    same("bandwidthCriterionType is unchanged", (int)a.bandwidthCriterionType(), (int)(GWDR::CV));
    same("enableIndpenVarSelect is unchanged", a.enableIndpenVarSelect(), bool_("b_EnableIndepVarSelect0"));
    same("indepVarSelectThreshold is unchanged", a.indepVarSelectThreshold(), real_("r_IndepVarSelectThreshold0"));
    same_sw("spatialWeights is unchanged", a.spatialWeights()[0], swsv(0)[0]); same_sw("spatialWeights is unchanged", a.spatialWeights()[1], swsv(0)[1]);
    same("parallelType is unchanged", (int)a.parallelType(), (int)(ParallelType::SerialOnly));
    same("dependentVariable is unchanged", a.dependentVariable(), vec_("y_DependentVariable0", int_("n")));
    same("independentVariables is unchanged", a.independentVariables(), mat_("x_IndependentVariables0", int_("n"), int_("k")));
    same("hasIntercept is unchanged", a.hasIntercept(), bool_("b_HasIntercept0"));
    same("coords is unchanged", a.coords(), mat_("u_Coords0", int_("n"), 2));
}
void claim_set_GWDR_EnableBandwidthOptimize()
{
    GWDR a; GWDR_all(a);
    a.setEnableBandwidthOptimize(bool_("b_EnableBandwidthOptimize1"));
    same("hasHatMatrix is unchanged", a.hasHatMatrix(), bool_("b_HasHatMatrix0"));
    same("enableBandwidthOptimize reports the value set", a.enableBandwidthOptimize(), bool_("b_EnableBandwidthOptimize1"));
    same("bandwidthOptimizeEps is unchanged", a.bandwidthOptimizeEps(), real_("r_BandwidthOptimizeEps0"));
    same("bandwidthOptimizeMaxIter is unchanged", a.bandwidthOptimizeMaxIter(), int_("s_BandwidthOptimizeMaxIter0"));
    same("bandwidthOptimizeStep is unchanged", a.bandwidthOptimizeStep(), real_("r_BandwidthOptimizeStep0"));
    same("bandwidthCriterionType is unchanged", (int)a.bandwidthCriterionType(), (int)(GWDR::CV));
    same("enableIndpenVarSelect is unchanged", a.enableIndpenVarSelect(), bool_("b_EnableIndepVarSelect0"));
    same("indepVarSelectThreshold is unchanged", a.indepVarSelectThreshold(), real_("r_IndepVarSelectThreshold0"));
    same_sw("spatialWeights is unchanged", a.spatialWeights()[0], swsv(0)[0]); same_sw("spatialWeights is unchanged", a.spatialWeights()[1], swsv(0)[1]);
    same("parallelType is unchanged", (int)a.parallelType(), (int)(ParallelType::SerialOnly));
    same("dependentVariable is unchanged", a.dependentVariable(), vec_("y_DependentVariable0", int_("n")));
    same("independentVariables is unchanged", a.independentVariables(), mat_("x_IndependentVariables0", int_("n"), int_("k")));
    same("hasIntercept is unchanged", a.hasIntercept(), bool_("b_HasIntercept0"));
    same("coords is unchanged", a.coords(), mat_("u_Coords0", int_("n"), 2));
}
void claim_set_GWDR_BandwidthOptimizeEps()
{
    GWDR a; GWDR_all(a);
    a.setBandwidthOptimizeEps(real_("r_BandwidthOptimizeEps1"));
    same("hasHatMatrix is unchanged", a.hasHatMatrix(), bool_("b_HasHatMatrix0"));
    same("enableBandwidthOptimize is unchanged", a.enableBandwidthOptimize(), bool_("b_EnableBandwidthOptimize0"));
    same("bandwidthOptimizeEps reports the value set", a.bandwidthOptimizeEps(), real_("r_BandwidthOptimizeEps1"));
    same("bandwidthOptimizeMaxIter is unchanged", a.bandwidthOptimizeMaxIter(), int_("s_BandwidthOptimizeMaxIter0"));
    same("bandwidthOptimizeStep is unchanged", a.bandwidthOptimizeStep(), real_("r_BandwidthOptimizeStep0"));
    same("bandwidthCriterionType is unchanged", (int)a.bandwidthCriterionType(), (int)(GWDR::CV));
    same("enableIndpenVarSelect is unchanged", a.enableIndpenVarSelect(), bool_("b_EnableIndepVarSelect0"));
    same("indepVarSelectThreshold is unchanged", a.indepVarSelectThreshold(), real_("r_IndepVarSelectThreshold0"));
    same_sw("spatialWeights is unchanged", a.spatialWeights()[0], swsv(0)[0]); same_sw("spatialWeights is unchanged", a.spatialWeights()[1], swsv(0)[1]);
    same("parallelType is unchanged", (int)a.parallelType(), (int)(ParallelType::SerialOnly));
    same("dependentVariable is unchanged", a.dependentVariable(), vec_("y_DependentVariable0", int_("n")));
    same("independentVariables is unchanged", a.independentVariables(), mat_("x_IndependentVariables0", int_("n"), int_("k")));
    same("hasIntercept is unchanged", a.hasIntercept(), bool_("b_HasIntercept0"));
    same("coords is unchanged", a.coords(), mat_("u_Coords0", int_("n"), 2));
}
void claim_set_GWDR_BandwidthOptimizeMaxIter()
{
    GWDR a; GWDR_all(a);
    a.setBandwidthOptimizeMaxIter(int_("s_BandwidthOptimizeMaxIter1"));
    same("hasHatMatrix is unchanged", a.hasHatMatrix(), bool_("b_HasHatMatrix0"));
    same("enableBandwidthOptimize is unchanged", a.enableBandwidthOptimize(), bool_("b_EnableBandwidthOptimize0"));
    same("bandwidthOptimizeEps is unchanged", a.bandwidthOptimizeEps(), real_("r_BandwidthOptimizeEps0"));
    same("bandwidthOptimizeMaxIter reports the value set", a.bandwidthOptimizeMaxIter(), int_("s_BandwidthOptimizeMaxIter1"));
    same("bandwidthOptimizeStep is unchanged", a.bandwidthOptimizeStep(), real_("r_BandwidthOptimizeStep0"));
    same("bandwidthCriterionType is unchanged", (int)a.bandwidthCriterionType(), (int)(GWDR::CV));
    same("enableIndpenVarSelect is unchanged", a.enableIndpenVarSelect(), bool_("b_EnableIndepVarSelect0"));
    same("indepVarSelectThreshold is unchanged", a.indepVarSelectThreshold(), real_("r_IndepVarSelectThreshold0"));
    same_sw("spatialWeights is unchanged", a.spatialWeights()[0], swsv(0)[0]); same_sw("spatialWeights is unchanged", a.spatialWeights()[1], swsv(0)[1]);
    same("parallelType is unchanged", (int)a.parallelType(), (int)(ParallelType::SerialOnly));
    same("dependentVariable is unchanged", a.dependentVariable(), vec_("y_DependentVariable0", int_("n")));
    same("independentVariables is unchanged", a.independentVariables(), mat_("x_IndependentVariables0", int_("n"), int_("k")));
    same("hasIntercept is unchanged", a.hasIntercept(), bool_("b_HasIntercept0"));
    same("coords is unchanged", a.coords(), mat_("u_Coords0", int_("n"), 2));
}
void claim_set_GWDR_BandwidthOptimizeStep()
{
    GWDR a; GWDR_all(a);
    a.setBandwidthOptimizeStep(real_("r_BandwidthOptimizeStep1"));
    same("hasHatMatrix is unchanged", a.hasHatMatrix(), bool_("b_HasHatMatrix0"));
    same("enableBandwidthOptimize is unchanged", a.enableBandwidthOptimize(), bool_("b_EnableBandwidthOptimize0"));
    same("bandwidthOptimizeEps is unchanged", a.bandwidthOptimizeEps(), real_("r_BandwidthOptimizeEps0"));
    same("bandwidthOptimizeMaxIter is unchanged", a.bandwidthOptimizeMaxIter(), int_("s_BandwidthOptimizeMaxIter0"));
    same("bandwidthOptimizeStep reports the value set", a.bandwidthOptimizeStep(), real_("r_BandwidthOptimizeStep1"));
    same("bandwidthCriterionType is unchanged", (int)a.bandwidthCriterionType(), (int)(GWDR::CV));
    same("enableIndpenVarSelect is unchanged", a.enableIndpenVarSelect(), bool_("b_EnableIndepVarSelect0"));
    same("indepVarSelectThreshold is unchanged", a.indepVarSelectThreshold(), real_("r_IndepVarSelectThreshold0"));
    same_sw("spatialWeights is unchanged", a.spatialWeights()[0], swsv(0)[0]); same_sw("spatialWeights is unchanged", a.spatialWeights()[1], swsv(0)[1]);
    same("parallelType is unchanged", (int)a.parallelType(), (int)(ParallelType::SerialOnly));
    same("dependentVariable is unchanged", a.dependentVariable(), vec_("y_DependentVariable0", int_("n")));
    same("independentVariables is unchanged", a.independentVariables(), mat_("x_IndependentVariables0", int_("n"), int_("k")));
    same("hasIntercept is unchanged", a.hasIntercept(), bool_("b_HasIntercept0"));
    same("coords is unchanged", a.coords(), mat_("u_Coords0", int_("n"), 2));
}
void claim_set_GWDR_BandwidthCriterionType()
{
    GWDR a; GWDR_all(a);
    a.setBandwidthCriterionType(GWDR::AIC);
    same("hasHatMatrix is unchanged", a.hasHatMatrix(), bool_("b_HasHatMatrix0"));
    same("enableBandwidthOptimize is unchanged", a.enableBandwidthOptimize(), bool_("b_EnableBandwidthOptimize0"));
    same("bandwidthOptimizeEps is unchanged", a.bandwidthOptimizeEps(), real_("r_BandwidthOptimizeEps0"));
    same("bandwidthOptimizeMaxIter is unchanged", a.bandwidthOptimizeMaxIter(), int_("s_BandwidthOptimizeMaxIter0"));
    same("bandwidthOptimizeStep is unchanged", a.bandwidthOptimizeStep(), real_("r_BandwidthOptimizeStep0"));
    same("bandwidthCriterionType reports the value set", (int)a.bandwidthCriterionType(), (int)(GWDR::AIC));
    same("enableIndpenVarSelect is unchanged", a.enableIndpenVarSelect(), bool_("b_EnableIndepVarSelect0"));
    same("indepVarSelectThreshold is unchanged", a.indepVarSelectThreshold(), real_("r_IndepVarSelectThreshold0"));
    same_sw("spatialWeights is unchanged", a.spatialWeights()[0], swsv(0)[0]); same_sw("spatialWeights is unchanged", a.spatialWeights()[1], swsv(0)[1]);
    same("parallelType is unchanged", (int)a.parallelType(), (int)(ParallelType::SerialOnly));
    same("dependentVariable is unchanged", a.dependentVariable(), vec_("y_DependentVariable0", int_("n")));
    same("independentVariables is unchanged", a.independentVariables(), mat_("x_IndependentVariables0", int_("n"), int_("k")));
    same("hasIntercept is unchanged", a.hasIntercept(), bool_("b_HasIntercept0"));
    same("coords is unchanged", a.coords(), mat_("u_Coords0", int_("n"), 2));
}
void claim_set_GWDR_EnableIndepVarSelect()
{
    GWDR a; GWDR_all(a);
    a.setEnableIndepVarSelect(bool_("b_EnableIndepVarSelect1"));
    same("hasHatMatrix is unchanged", a.hasHatMatrix(), bool_("b_HasHatMatrix0"));
    same("enableBandwidthOptimize is unchanged", a.enableBandwidthOptimize(), bool_("b_EnableBandwidthOptimize0"));
    same("bandwidthOptimizeEps is unchanged", a.bandwidthOptimizeEps(), real_("r_BandwidthOptimizeEps0"));
    same("bandwidthOptimizeMaxIter is unchanged", a.bandwidthOptimizeMaxIter(), int_("s_BandwidthOptimizeMaxIter0"));
    same("bandwidthOptimizeStep is unchanged", a.bandwidthOptimizeStep(), real_("r_BandwidthOptimizeStep0"));
    same("bandwidthCriterionType is unchanged", (int)a.bandwidthCriterionType(), (int)(GWDR::CV));
    same("enableIndpenVarSelect reports the value set", a.enableIndpenVarSelect(), bool_("b_EnableIndepVarSelect1"));
    same("indepVarSelectThreshold is unchanged", a.indepVarSelectThreshold(), real_("r_IndepVarSelectThreshold0"));
    same_sw("spatialWeights is unchanged", a.spatialWeights()[0], swsv(0)[0]); same_sw("spatialWeights is unchanged", a.spatialWeights()[1], swsv(0)[1]);
    same("parallelType is unchanged", (int)a.parallelType(), (int)(ParallelType::SerialOnly));
    same("dependentVariable is unchanged", a.dependentVariable(), vec_("y_DependentVariable0", int_("n")));
    same("independentVariables is unchanged", a.independentVariables(), mat_("x_IndependentVariables0", int_("n"), int_("k")));
    same("hasIntercept is unchanged", a.hasIntercept(), bool_("b_HasIntercept0"));
    same("coords is unchanged", a.coords(), mat_("u_Coords0", int_("n"), 2));
}
void claim_set_GWDR_IndepVarSelectThreshold()
{
    GWDR a; GWDR_all(a);
    a.setIndepVarSelectThreshold(real_("r_IndepVarSelectThreshold1"));
    same("hasHatMatrix is unchanged", a.hasHatMatrix(), bool_("b_HasHatMatrix0"));
    same("enableBandwidthOptimize is unchanged", a.enableBandwidthOptimize(), bool_("b_EnableBandwidthOptimize0"));
    same("bandwidthOptimizeEps is unchanged", a.bandwidthOptimizeEps(), real_("r_BandwidthOptimizeEps0"));
    same("bandwidthOptimizeMaxIter is unchanged", a.bandwidthOptimizeMaxIter(), int_("s_BandwidthOptimizeMaxIter0"));
    same("bandwidthOptimizeStep is unchanged", a.bandwidthOptimizeStep(), real_("r_BandwidthOptimizeStep0"));
    same("bandwidthCriterionType is unchanged", (int)a.bandwidthCriterionType(), (int)(GWDR::CV));
    same("enableIndpenVarSelect is unchanged", a.enableIndpenVarSelect(), bool_("b_EnableIndepVarSelect0"));
    same("indepVarSelectThreshold reports the value set", a.indepVarSelectThreshold(), real_("r_IndepVarSelectThreshold1"));
    same_sw("spatialWeights is unchanged", a.spatialWeights()[0], swsv(0)[0]); same_sw("spatialWeights is unchanged", a.spatialWeights()[1], swsv(0)[1]);
    same("parallelType is unchanged", (int)a.parallelType(), (int)(ParallelType::SerialOnly));
    same("dependentVariable is unchanged", a.dependentVariable(), vec_("y_DependentVariable0", int_("n")));
    same("independentVariables is unchanged", a.independentVariables(), mat_("x_IndependentVariables0", int_("n"), int_("k")));
    same("hasIntercept is unchanged", a.hasIntercept(), bool_("b_HasIntercept0"));
    same("coords is unchanged", a.coords(), mat_("u_Coords0", int_("n"), 2));
}
void claim_set_GWDR_SpatialWeights()
{
    GWDR a; GWDR_all(a);
    a.setSpatialWeights(swsv(1));
    same("hasHatMatrix is unchanged", a.hasHatMatrix(), bool_("b_HasHatMatrix0"));
    same("enableBandwidthOptimize is unchanged", a.enableBandwidthOptimize(), bool_("b_EnableBandwidthOptimize0"));
    same("bandwidthOptimizeEps is unchanged", a.bandwidthOptimizeEps(), real_("r_BandwidthOptimizeEps0"));
    same("bandwidthOptimizeMaxIter is unchanged", a.bandwidthOptimizeMaxIter(), int_("s_BandwidthOptimizeMaxIter0"));
    same("bandwidthOptimizeStep is unchanged", a.bandwidthOptimizeStep(), real_("r_BandwidthOptimizeStep0"));
    same("bandwidthCriterionType is unchanged", (int)a.bandwidthCriterionType(), (int)(GWDR::CV));
    same("enableIndpenVarSelect is unchanged", a.enableIndpenVarSelect(), bool_("b_EnableIndepVarSelect0"));
    same("indepVarSelectThreshold is unchanged", a.indepVarSelectThreshold(), real_("r_IndepVarSelectThreshold0"));
    same_sw("spatialWeights reports the value set", a.spatialWeights()[0], swsv(1)[0]); same_sw("spatialWeights reports the value set", a.spatialWeights()[1], swsv(1)[1]);
    same("parallelType is unchanged", (int)a.parallelType(), (int)(ParallelType::SerialOnly));
    same("dependentVariable is unchanged", a.dependentVariable(), vec_("y_DependentVariable0", int_("n")));
    same("independentVariables is unchanged", a.independentVariables(), mat_("x_IndependentVariables0", int_("n"), int_("k")));
    same("hasIntercept is unchanged", a.hasIntercept(), bool_("b_HasIntercept0"));
    same("coords is unchanged", a.coords(), mat_("u_Coords0", int_("n"), 2));
}
void claim_set_GWDR_ParallelType()
{
    GWDR a; GWDR_all(a);
    a.setParallelType(ParallelType::OpenMP);
    same("hasHatMatrix is unchanged", a.hasHatMatrix(), bool_("b_HasHatMatrix0"));
    same("enableBandwidthOptimize is unchanged", a.enableBandwidthOptimize(), bool_("b_EnableBandwidthOptimize0"));
    same("bandwidthOptimizeEps is unchanged", a.bandwidthOptimizeEps(), real_("r_BandwidthOptimizeEps0"));
    same("bandwidthOptimizeMaxIter is unchanged", a.bandwidthOptimizeMaxIter(), int_("s_BandwidthOptimizeMaxIter0"));
    same("bandwidthOptimizeStep is unchanged", a.bandwidthOptimizeStep(), real_("r_BandwidthOptimizeStep0"));
    same("bandwidthCriterionType is unchanged", (int)a.bandwidthCriterionType(), (int)(GWDR::CV));
    same("enableIndpenVarSelect is unchanged", a.enableIndpenVarSelect(), bool_("b_EnableIndepVarSelect0"));
    same("indepVarSelectThreshold is unchanged", a.indepVarSelectThreshold(), real_("r_IndepVarSelectThreshold0"));
    same_sw("spatialWeights is unchanged", a.spatialWeights()[0], swsv(0)[0]); same_sw("spatialWeights is unchanged", a.spatialWeights()[1], swsv(0)[1]);
    same("parallelType reports the value set", (int)a.parallelType(), (int)(ParallelType::OpenMP));
    same("dependentVariable is unchanged", a.dependentVariable(), vec_("y_DependentVariable0", int_("n")));
    same("independentVariables is unchanged", a.independentVariables(), mat_("x_IndependentVariables0", int_("n"), int_("k")));
    same("hasIntercept is unchanged", a.hasIntercept(), bool_("b_HasIntercept0"));
    same("coords is unchanged", a.coords(), mat_("u_Coords0", int_("n"), 2));
}
void claim_set_GWDR_DependentVariable()
{
    GWDR a; GWDR_all(a);
    a.setDependentVariable(vec_("y_DependentVariable1", int_("n")));
    same("hasHatMatrix is unchanged", a.hasHatMatrix(), bool_("b_HasHatMatrix0"));
    same("enableBandwidthOptimize is unchanged", a.enableBandwidthOptimize(), bool_("b_EnableBandwidthOptimize0"));
    same("bandwidthOptimizeEps is unchanged", a.bandwidthOptimizeEps(), real_("r_BandwidthOptimizeEps0"));
    same("bandwidthOptimizeMaxIter is unchanged", a.bandwidthOptimizeMaxIter(), int_("s_BandwidthOptimizeMaxIter0"));
    same("bandwidthOptimizeStep is unchanged", a.bandwidthOptimizeStep(), real_("r_BandwidthOptimizeStep0"));
    same("bandwidthCriterionType is unchanged", (int)a.bandwidthCriterionType(), (int)(GWDR::CV));
    same("enableIndpenVarSelect is unchanged", a.enableIndpenVarSelect(), bool_("b_EnableIndepVarSelect0"));
    same("indepVarSelectThreshold is unchanged", a.indepVarSelectThreshold(), real_("r_IndepVarSelectThreshold0"));
    same_sw("spatialWeights is unchanged", a.spatialWeights()[0], swsv(0)[0]); same_sw("spatialWeights is unchanged", a.spatialWeights()[1], swsv(0)[1]);
    same("parallelType is unchanged", (int)a.parallelType(), (int)(ParallelType::SerialOnly));
    same("dependentVariable reports the value set", a.dependentVariable(), vec_("y_DependentVariable1", int_("n")));
    same("independentVariables is unchanged", a.independentVariables(), mat_("x_IndependentVariables0", int_("n"), int_("k")));
    same("hasIntercept is unchanged", a.hasIntercept(), bool_("b_HasIntercept0"));
    same("coords is unchanged", a.coords(), mat_("u_Coords0", int_("n"), 2));
}
void claim_set_GWDR_IndependentVariables()
{
    GWDR a; GWDR_all(a);
    a.setIndependentVariables(mat_("x_IndependentVariables1", int_("n"), int_("k")));
    same("hasHatMatrix is unchanged", a.hasHatMatrix(), bool_("b_HasHatMatrix0"));
    same("enableBandwidthOptimize is unchanged", a.enableBandwidthOptimize(), bool_("b_EnableBandwidthOptimize0"));
    same("bandwidthOptimizeEps is unchanged", a.bandwidthOptimizeEps(), real_("r_BandwidthOptimizeEps0"));
    same("bandwidthOptimizeMaxIter is unchanged", a.bandwidthOptimizeMaxIter(), int_("s_BandwidthOptimizeMaxIter0"));
    same("bandwidthOptimizeStep is unchanged", a.bandwidthOptimizeStep(), real_("r_BandwidthOptimizeStep0"));
    same("bandwidthCriterionType is unchanged", (int)a.bandwidthCriterionType(), (int)(GWDR::CV));
    same("enableIndpenVarSelect is unchanged", a.enableIndpenVarSelect(), bool_("b_EnableIndepVarSelect0"));
    same("indepVarSelectThreshold is unchanged", a.indepVarSelectThreshold(), real_("r_IndepVarSelectThreshold0"));
    same_sw("spatialWeights is unchanged", a.spatialWeights()[0], swsv(0)[0]); same_sw("spatialWeights is unchanged", a.spatialWeights()[1], swsv(0)[1]);
    same("parallelType is unchanged", (int)a.parallelType(), (int)(ParallelType::SerialOnly));
    same("dependentVariable is unchanged", a.dependentVariable(), vec_("y_DependentVariable0", int_("n")));
    same("independentVariables reports the value set", a.independentVariables(), mat_("x_IndependentVariables1", int_("n"), int_("k")));
    same("hasIntercept is unchanged", a.hasIntercept(), bool_("b_HasIntercept0"));
    same("coords is unchanged", a.coords(), mat_("u_Coords0", int_("n"), 2));
}
void claim_set_GWDR_HasIntercept()
{
    GWDR a; GWDR_all(a);
    a.setHasIntercept(bool_("b_HasIntercept1"));
    same("hasHatMatrix is unchanged", a.hasHatMatrix(), bool_("b_HasHatMatrix0"));
    same("enableBandwidthOptimize is unchanged", a.enableBandwidthOptimize(), bool_("b_EnableBandwidthOptimize0"));
    same("bandwidthOptimizeEps is unchanged", a.bandwidthOptimizeEps(), real_("r_BandwidthOptimizeEps0"));
    same("bandwidthOptimizeMaxIter is unchanged", a.bandwidthOptimizeMaxIter(), int_("s_BandwidthOptimizeMaxIter0"));
    same("bandwidthOptimizeStep is unchanged", a.bandwidthOptimizeStep(), real_("r_BandwidthOptimizeStep0"));
    same("bandwidthCriterionType is unchanged", (int)a.bandwidthCriterionType(), (int)(GWDR::CV));
    same("enableIndpenVarSelect is unchanged", a.enableIndpenVarSelect(), bool_("b_EnableIndepVarSelect0"));
    same("indepVarSelectThreshold is unchanged", a.indepVarSelectThreshold(), real_("r_IndepVarSelectThreshold0"));
    same_sw("spatialWeights is unchanged", a.spatialWeights()[0], swsv(0)[0]); same_sw("spatialWeights is unchanged", a.spatialWeights()[1], swsv(0)[1]);
    same("parallelType is unchanged", (int)a.parallelType(), (int)(ParallelType::SerialOnly));
    same("dependentVariable is unchanged", a.dependentVariable(), vec_("y_DependentVariable0", int_("n")));
    same("independentVariables is unchanged", a.independentVariables(), mat_("x_IndependentVariables0", int_("n"), int_("k")));
    same("hasIntercept reports the value set", a.hasIntercept(), bool_("b_HasIntercept1"));
    same("coords is unchanged", a.coords(), mat_("u_Coords0", int_("n"), 2));
}
void claim_set_GWDR_Coords()
{
    GWDR a; GWDR_all(a);
    a.setCoords(mat_("u_Coords1", int_("n"), 2));
    same("hasHatMatrix is unchanged", a.hasHatMatrix(), bool_("b_HasHatMatrix0"));
    same("enableBandwidthOptimize is unchanged", a.enableBandwidthOptimize(), bool_("b_EnableBandwidthOptimize0"));
    same("bandwidthOptimizeEps is unchanged", a.bandwidthOptimizeEps(), real_("r_BandwidthOptimizeEps0"));
    same("bandwidthOptimizeMaxIter is unchanged", a.bandwidthOptimizeMaxIter(), int_("s_BandwidthOptimizeMaxIter0"));
    same("bandwidthOptimizeStep is unchanged", a.bandwidthOptimizeStep(), real_("r_BandwidthOptimizeStep0"));
    same("bandwidthCriterionType is unchanged", (int)a.bandwidthCriterionType(), (int)(GWDR::CV));
    same("enableIndpenVarSelect is unchanged", a.enableIndpenVarSelect(), bool_("b_EnableIndepVarSelect0"));
    same("indepVarSelectThreshold is unchanged", a.indepVarSelectThreshold(), real_("r_IndepVarSelectThreshold0"));
    same_sw("spatialWeights is unchanged", a.spatialWeights()[0], swsv(0)[0]); same_sw("spatialWeights is unchanged", a.spatialWeights()[1], swsv(0)[1]);
    same("parallelType is unchanged", (int)a.parallelType(), (int)(ParallelType::SerialOnly));
    same("dependentVariable is unchanged", a.dependentVariable(), vec_("y_DependentVariable0", int_("n")));
    same("independentVariables is unchanged", a.independentVariables(), mat_("x_IndependentVariables0", int_("n"), int_("k")));
    same("hasIntercept is unchanged", a.hasIntercept(), bool_("b_HasIntercept0"));
    same("coords reports the value set", a.coords(), mat_("u_Coords1", int_("n"), 2));
}
static void GWPCA_all(GWPCA& a)
{
    a.setKeepComponents((int)int_("i_KeepComponents0"));
    a.setVariables(mat_("x_Variables0", int_("n"), int_("k")));
    a.setCoords(mat_("u_Coords0", int_("n"), 2));
    a.setSpatialWeight(swv(0));
}
void claim_set_GWPCA_KeepComponents()
{
    GWPCA a; GWPCA_all(a);
    a.setKeepComponents((int)int_("i_KeepComponents1"));
    same("keepComponents reports the value set", a.keepComponents(), (int)int_("i_KeepComponents1"));
    same("variables is unchanged", a.variables(), mat_("x_Variables0", int_("n"), int_("k")));
    same("coords is unchanged", a.coords(), mat_("u_Coords0", int_("n"), 2));
    same_sw("spatialWeight is unchanged", a.spatialWeight(), swv(0));
}
void claim_set_GWPCA_Variables()
{
    GWPCA a; GWPCA_all(a);
    a.setVariables(mat_("x_Variables1", int_("n"), int_("k")));
    same("keepComponents is unchanged", a.keepComponents(), (int)int_("i_KeepComponents0"));
    same("variables reports the value set", a.variables(), mat_("x_Variables1", int_("n"), int_("k")));
    same("coords is unchanged", a.coords(), mat_("u_Coords0", int_("n"), 2));
    same_sw("spatialWeight is unchanged", a.spatialWeight(), swv(0));
}
void claim_set_GWPCA_Coords()
{
    GWPCA a; GWPCA_all(a);
    a.setCoords(mat_("u_Coords1", int_("n"), 2));
    same("keepComponents is unchanged", a.keepComponents(), (int)int_("i_KeepComponents0"));
    same("variables is unchanged", a.variables(), mat_("x_Variables0", int_("n"), int_("k")));
    same("coords reports the value set", a.coords(), mat_("u_Coords1", int_("n"), 2));
    same_sw("spatialWeight is unchanged", a.spatialWeight(), swv(0));
}
void claim_set_GWPCA_SpatialWeight()
{
    GWPCA a; GWPCA_all(a);
    a.setSpatialWeight(swv(1));
    same("keepComponents is unchanged", a.keepComponents(), (int)int_("i_KeepComponents0"));
    same("variables is unchanged", a.variables(), mat_("x_Variables0", int_("n"), int_("k")));
    same("coords is unchanged", a.coords(), mat_("u_Coords0", int_("n"), 2));
    same_sw("spatialWeight reports the value set", a.spatialWeight(), swv(1));
}
static void GWRBasic_all(GWRBasic& a)
{
    a.setIsAutoselectBandwidth(bool_("b_IsAutoselectBandwidth0"));
    a.setBandwidthSelectionCriterion(GWRBasic::CV);
    a.setIsAutoselectIndepVars(bool_("b_IsAutoselectIndepVars0"));
    a.setIndepVarSelectionThreshold(real_("r_IndepVarSelectionThreshold0"));
    a.setHasHatMatrix(bool_("b_HasHatMatrix0"));
    a.setStoreS(bool_("b_StoreS0"));
    a.setStoreC(bool_("b_StoreC0"));
    a.setWorkerId((int)int_("i_WorkerId0"));
    a.setParallelType(ParallelType::SerialOnly);
    a.setDependentVariable(vec_("y_DependentVariable0", int_("n")));
    a.setIndependentVariables(mat_("x_IndependentVariables0", int_("n"), int_("k")));
    a.setHasIntercept(bool_("b_HasIntercept0"));
    a.setCoords(mat_("u_Coords0", int_("n"), 2));
    a.setSpatialWeight(swv(0));
}
void claim_set_GWRBasic_IsAutoselectBandwidth()
{
    GWRBasic a; GWRBasic_all(a);
    a.setIsAutoselectBandwidth(bool_("b_IsAutoselectBandwidth1"));
    same("isAutoselectBandwidth reports the value set", a.isAutoselectBandwidth(), bool_("b_IsAutoselectBandwidth1"));
    same("bandwidthSelectionCriterion is unchanged", (int)a.bandwidthSelectionCriterion(), (int)(GWRBasic::CV));
    same("isAutoselectIndepVars is unchanged", a.isAutoselectIndepVars(), bool_("b_IsAutoselectIndepVars0"));
    same("indepVarSelectionThreshold is unchanged", a.indepVarSelectionThreshold(), real_("r_IndepVarSelectionThreshold0"));
    same("hasHatMatrix is unchanged", a.hasHatMatrix(), bool_("b_HasHatMatrix0"));
    same("isStoreS is unchanged", a.isStoreS(), bool_("b_StoreS0") || (bool_("b_HasHatMatrix0") && int_("n") < 8192));
    same("isStoreC is unchanged", a.isStoreC(), bool_("b_StoreC0"));
    same("workerId is unchanged", a.workerId(), (int)int_("i_WorkerId0"));
    same("parallelType is unchanged", (int)a.parallelType(), (int)(ParallelType::SerialOnly));
    same("dependentVariable is unchanged", a.dependentVariable(), vec_("y_DependentVariable0", int_("n")));
    same("independentVariables is unchanged", a.independentVariables(), mat_("x_IndependentVariables0", int_("n"), int_("k")));
    same("hasIntercept is unchanged", a.hasIntercept(), bool_("b_HasIntercept0"));
    same("coords is unchanged", a.coords(), mat_("u_Coords0", int_("n"), 2));
    same_sw("spatialWeight is unchanged", a.spatialWeight(), swv(0));
}
void claim_set_GWRBasic_BandwidthSelectionCriterion()
{
    GWRBasic a; GWRBasic_all(a);
    a.setBandwidthSelectionCriterion(GWRBasic::AIC);
    same("isAutoselectBandwidth is unchanged", a.isAutoselectBandwidth(), bool_("b_IsAutoselectBandwidth0"));
    same("bandwidthSelectionCriterion reports the value set", (int)a.bandwidthSelectionCriterion(), (int)(GWRBasic::AIC));
    same("isAutoselectIndepVars is unchanged", a.isAutoselectIndepVars(), bool_("b_IsAutoselectIndepVars0"));
    same("indepVarSelectionThreshold is unchanged", a.indepVarSelectionThreshold(), real_("r_IndepVarSelectionThreshold0"));
    same("hasHatMatrix is unchanged", a.hasHatMatrix(), bool_("b_HasHatMatrix0"));
    same("isStoreS is unchanged", a.isStoreS(), bool_("b_StoreS0") || (bool_("b_HasHatMatrix0") && int_("n") < 8192));
    same("isStoreC is unchanged", a.isStoreC(), bool_("b_StoreC0"));
    same("workerId is unchanged", a.workerId(), (int)int_("i_WorkerId0"));
    same("parallelType is unchanged", (int)a.parallelType(), (int)(ParallelType::SerialOnly));
    same("dependentVariable is unchanged", a.dependentVariable(), vec_("y_DependentVariable0", int_("n")));
    same("independentVariables is unchanged", a.independentVariables(), mat_("x_IndependentVariables0", int_("n"), int_("k")));
    same("hasIntercept is unchanged", a.hasIntercept(), bool_("b_HasIntercept0"));
    same("coords is unchanged", a.coords(), mat_("u_Coords0", int_("n"), 2));
    same_sw("spatialWeight is unchanged", a.spatialWeight(), swv(0));
}
void claim_set_GWRBasic_IsAutoselectIndepVars()
{
    GWRBasic a; GWRBasic_all(a);
    a.setIsAutoselectIndepVars(bool_("b_IsAutoselectIndepVars1"));
    same("isAutoselectBandwidth is unchanged", a.isAutoselectBandwidth(), bool_("b_IsAutoselectBandwidth0"));
    same("bandwidthSelectionCriterion is unchanged", (int)a.bandwidthSelectionCriterion(), (int)(GWRBasic::CV));
    same("isAutoselectIndepVars reports the value set", a.isAutoselectIndepVars(), bool_("b_IsAutoselectIndepVars1"));
    same("indepVarSelectionThreshold is unchanged", a.indepVarSelectionThreshold(), real_("r_IndepVarSelectionThreshold0"));
    same("hasHatMatrix is unchanged", a.hasHatMatrix(), bool_("b_HasHatMatrix0"));
    same("isStoreS is unchanged", a.isStoreS(), bool_("b_StoreS0") || (bool_("b_HasHatMatrix0") && int_("n") < 8192));
    same("isStoreC is unchanged", a.isStoreC(), bool_("b_StoreC0"));
    same("workerId is unchanged", a.workerId(), (int)int_("i_WorkerId0"));
    same("parallelType is unchanged", (int)a.parallelType(), (int)(ParallelType::SerialOnly));
    same("dependentVariable is unchanged", a.dependentVariable(), vec_("y_DependentVariable0", int_("n")));
    same("independentVariables is unchanged", a.independentVariables(), mat_("x_IndependentVariables0", int_("n"), int_("k")));
    same("hasIntercept is unchanged", a.hasIntercept(), bool_("b_HasIntercept0"));
    same("coords is unchanged", a.coords(), mat_("u_Coords0", int_("n"), 2));
    same_sw("spatialWeight is unchanged", a.spatialWeight(), swv(0));
}
void claim_set_GWRBasic_IndepVarSelectionThreshold()
{
    GWRBasic a; GWRBasic_all(a);
    a.setIndepVarSelectionThreshold(real_("r_IndepVarSelectionThreshold1"));
    same("isAutoselectBandwidth is unchanged", a.isAutoselectBandwidth(), bool_("b_IsAutoselectBandwidth0"));
    same("bandwidthSelectionCriterion is unchanged", (int)a.bandwidthSelectionCriterion(), (int)(GWRBasic::CV));
    same("isAutoselectIndepVars is unchanged", a.isAutoselectIndepVars(), bool_("b_IsAutoselectIndepVars0"));
    same("indepVarSelectionThreshold reports the value set", a.indepVarSelectionThreshold(), real_("r_IndepVarSelectionThreshold1"));
    same("hasHatMatrix is unchanged", a.hasHatMatrix(), bool_("b_HasHatMatrix0"));
    same("isStoreS is unchanged", a.isStoreS(), bool_("b_StoreS0") || (bool_("b_HasHatMatrix0") && int_("n") < 8192));
    same("isStoreC is unchanged", a.isStoreC(), bool_("b_StoreC0"));
    same("workerId is unchanged", a.workerId(), (int)int_("i_WorkerId0"));
    same("parallelType is unchanged", (int)a.parallelType(), (int)(ParallelType::SerialOnly));
    same("dependentVariable is unchanged", a.dependentVariable(), vec_("y_DependentVariable0", int_("n")));
    same("independentVariables is unchanged", a.independentVariables(), mat_("x_IndependentVariables0", int_("n"), int_("k")));
    same("hasIntercept is unchanged", a.hasIntercept(), bool_("b_HasIntercept0"));
    same("coords is unchanged", a.coords(), mat_("u_Coords0", int_("n"), 2));
    same_sw("spatialWeight is unchanged", a.spatialWeight(), swv(0));
}
void claim_set_GWRBasic_HasHatMatrix()
{
    GWRBasic a; GWRBasic_all(a);
    a.setHasHatMatrix(bool_("b_HasHatMatrix1"));
    same("isAutoselectBandwidth is unchanged", a.isAutoselectBandwidth(), bool_("b_IsAutoselectBandwidth0"));
    same("bandwidthSelectionCriterion is unchanged", (int)a.bandwidthSelectionCriterion(), (int)(GWRBasic::CV));
    same("isAutoselectIndepVars is unchanged", a.isAutoselectIndepVars(), bool_("b_IsAutoselectIndepVars0"));
    same("indepVarSelectionThreshold is unchanged", a.indepVarSelectionThreshold(), real_("r_IndepVarSelectionThreshold0"));
    same("hasHatMatrix reports the value set", a.hasHatMatrix(), bool_("b_HasHatMatrix1"));
    same("isStoreS is unchanged", a.isStoreS(), bool_("b_StoreS0") || (bool_("b_HasHatMatrix1") && int_("n") < 8192));
    same("isStoreC is unchanged", a.isStoreC(), bool_("b_StoreC0"));
    same("workerId is unchanged", a.workerId(), (int)int_("i_WorkerId0"));
    same("parallelType is unchanged", (int)a.parallelType(), (int)(ParallelType::SerialOnly));
    same("dependentVariable is unchanged", a.dependentVariable(), vec_("y_DependentVariable0", int_("n")));
    same("independentVariables is unchanged", a.independentVariables(), mat_("x_IndependentVariables0", int_("n"), int_("k")));
    same("hasIntercept is unchanged", a.hasIntercept(), bool_("b_HasIntercept0"));
    same("coords is unchanged", a.coords(), mat_("u_Coords0", int_("n"), 2));
    same_sw("spatialWeight is unchanged", a.spatialWeight(), swv(0));
}
void claim_set_GWRBasic_StoreS()
{
    GWRBasic a; GWRBasic_all(a);
    a.setStoreS(bool_("b_StoreS1"));
    same("isAutoselectBandwidth is unchanged", a.isAutoselectBandwidth(), bool_("b_IsAutoselectBandwidth0"));
    same("bandwidthSelectionCriterion is unchanged", (int)a.bandwidthSelectionCriterion(), (int)(GWRBasic::CV));
    same("isAutoselectIndepVars is unchanged", a.isAutoselectIndepVars(), bool_("b_IsAutoselectIndepVars0"));
    same("indepVarSelectionThreshold is unchanged", a.indepVarSelectionThreshold(), real_("r_IndepVarSelectionThreshold0"));
    same("hasHatMatrix is unchanged", a.hasHatMatrix(), bool_("b_HasHatMatrix0"));
    same("isStoreS reports the value set", a.isStoreS(), bool_("b_StoreS1") || (bool_("b_HasHatMatrix0") && int_("n") < 8192));
    same("isStoreC is unchanged", a.isStoreC(), bool_("b_StoreC0"));
    same("workerId is unchanged", a.workerId(), (int)int_("i_WorkerId0"));
    same("parallelType is unchanged", (int)a.parallelType(), (int)(ParallelType::SerialOnly));
    same("dependentVariable is unchanged", a.dependentVariable(), vec_("y_DependentVariable0", int_("n")));
    same("independentVariables is unchanged", a.independentVariables(), mat_("x_IndependentVariables0", int_("n"), int_("k")));
    same("hasIntercept is unchanged", a.hasIntercept(), bool_("b_HasIntercept0"));
    same("coords is unchanged", a.coords(), mat_("u_Coords0", int_("n"), 2));
    same_sw("spatialWeight is unchanged", a.spatialWeight(), swv(0));
}
void claim_set_GWRBasic_StoreC()
{
    GWRBasic a; GWRBasic_all(a);
    a.setStoreC(bool_("b_StoreC1"));
    same("isAutoselectBandwidth is unchanged", a.isAutoselectBandwidth(), bool_("b_IsAutoselectBandwidth0"));
    same("bandwidthSelectionCriterion is unchanged", (int)a.bandwidthSelectionCriterion(), (int)(GWRBasic::CV));
    same("isAutoselectIndepVars is unchanged", a.isAutoselectIndepVars(), bool_("b_IsAutoselectIndepVars0"));
    same("indepVarSelectionThreshold is unchanged", a.indepVarSelectionThreshold(), real_("r_IndepVarSelectionThreshold0"));
    same("hasHatMatrix is unchanged", a.hasHatMatrix(), bool_("b_HasHatMatrix0"));
    same("isStoreS is unchanged", a.isStoreS(), bool_("b_StoreS0") || (bool_("b_HasHatMatrix0") && int_("n") < 8192));
    same("isStoreC reports the value set", a.isStoreC(), bool_("b_StoreC1"));
    same("workerId is unchanged", a.workerId(), (int)int_("i_WorkerId0"));
    same("parallelType is unchanged", (int)a.parallelType(), (int)(ParallelType::SerialOnly));
    same("dependentVariable is unchanged", a.dependentVariable(), vec_("y_DependentVariable0", int_("n")));
    same("independentVariables is unchanged", a.independentVariables(), mat_("x_IndependentVariables0", int_("n"), int_("k")));
    same("hasIntercept is unchanged", a.hasIntercept(), bool_("b_HasIntercept0"));
    same("coords is unchanged", a.coords(), mat_("u_Coords0", int_("n"), 2));
    same_sw("spatialWeight is unchanged", a.spatialWeight(), swv(0));
}
void claim_set_GWRBasic_WorkerId()
{
    GWRBasic a; GWRBasic_all(a);
    a.setWorkerId((int)int_("i_WorkerId1"));
    same("isAutoselectBandwidth is unchanged", a.isAutoselectBandwidth(), bool_("b_IsAutoselectBandwidth0"));
    same("bandwidthSelectionCriterion is unchanged", (int)a.bandwidthSelectionCriterion(), (int)(GWRBasic::CV));
    same("isAutoselectIndepVars is unchanged", a.isAutoselectIndepVars(), bool_("b_IsAutoselectIndepVars0"));
    same("indepVarSelectionThreshold is unchanged", a.indepVarSelectionThreshold(), real_("r_IndepVarSelectionThreshold0"));
    same("hasHatMatrix is unchanged", a.hasHatMatrix(), bool_("b_HasHatMatrix0"));
    same("isStoreS is unchanged", a.isStoreS(), bool_("b_StoreS0") || (bool_("b_HasHatMatrix0") && int_("n") < 8192));
    same("isStoreC is unchanged", a.isStoreC(), bool_("b_StoreC0"));
    same("workerId reports the value set", a.workerId(), (int)int_("i_WorkerId1"));
    same("parallelType is unchanged", (int)a.parallelType(), (int)(ParallelType::SerialOnly));
    same("dependentVariable is unchanged", a.dependentVariable(), vec_("y_DependentVariable0", int_("n")));
    same("independentVariables is unchanged", a.independentVariables(), mat_("x_IndependentVariables0", int_("n"), int_("k")));
    same("hasIntercept is unchanged", a.hasIntercept(), bool_("b_HasIntercept0"));
    same("coords is unchanged", a.coords(), mat_("u_Coords0", int_("n"), 2));
    same_sw("spatialWeight is unchanged", a.spatialWeight(), swv(0));
}
void claim_set_GWRBasic_ParallelType()
{
    GWRBasic a; GWRBasic_all(a);
    a.setParallelType(ParallelType::OpenMP);
    same("isAutoselectBandwidth is unchanged", a.isAutoselectBandwidth(), bool_("b_IsAutoselectBandwidth0"));
    same("bandwidthSelectionCriterion is unchanged", (int)a.bandwidthSelectionCriterion(), (int)(GWRBasic::CV));
    same("isAutoselectIndepVars is unchanged", a.isAutoselectIndepVars(), bool_("b_IsAutoselectIndepVars0"));
    same("indepVarSelectionThreshold is unchanged", a.indepVarSelectionThreshold(), real_("r_IndepVarSelectionThreshold0"));
    same("hasHatMatrix is unchanged", a.hasHatMatrix(), bool_("b_HasHatMatrix0"));
    same("isStoreS is unchanged", a.isStoreS(), bool_("b_StoreS0") || (bool_("b_HasHatMatrix0") && int_("n") < 8192));
    same("isStoreC is unchanged", a.isStoreC(), bool_("b_StoreC0"));
    same("workerId is unchanged", a.workerId(), (int)int_("i_WorkerId0"));
    same("parallelType reports the value set", (int)a.parallelType(), (int)(ParallelType::OpenMP));
    same("dependentVariable is unchanged", a.dependentVariable(), vec_("y_DependentVariable0", int_("n")));
    same("independentVariables is unchanged", a.independentVariables(), mat_("x_IndependentVariables0", int_("n"), int_("k")));
    same("hasIntercept is unchanged", a.hasIntercept(), bool_("b_HasIntercept0"));
    same("coords is unchanged", a.coords(), mat_("u_Coords0", int_("n"), 2));
    same_sw("spatialWeight is unchanged", a.spatialWeight(), swv(0));
}
void claim_set_GWRBasic_DependentVariable()
{
    GWRBasic a; GWRBasic_all(a);
    a.setDependentVariable(vec_("y_DependentVariable1", int_("n")));
    same("isAutoselectBandwidth is unchanged", a.isAutoselectBandwidth(), bool_("b_IsAutoselectBandwidth0"));
    same("bandwidthSelectionCriterion is unchanged", (int)a.bandwidthSelectionCriterion(), (int)(GWRBasic::CV));
    same("isAutoselectIndepVars is unchanged", a.isAutoselectIndepVars(), bool_("b_IsAutoselectIndepVars0"));
    same("indepVarSelectionThreshold is unchanged", a.indepVarSelectionThreshold(), real_("r_IndepVarSelectionThreshold0"));
    same("hasHatMatrix is unchanged", a.hasHatMatrix(), bool_("b_HasHatMatrix0"));
    same("isStoreS is unchanged", a.isStoreS(), bool_("b_StoreS0") || (bool_("b_HasHatMatrix0") && int_("n") < 8192));
    same("isStoreC is unchanged", a.isStoreC(), bool_("b_StoreC0"));
    same("workerId is unchanged", a.workerId(), (int)int_("i_WorkerId0"));
    same("parallelType is unchanged", (int)a.parallelType(), (int)(ParallelType::SerialOnly));
    same("dependentVariable reports the value set", a.dependentVariable(), vec_("y_DependentVariable1", int_("n")));
    same("independentVariables is unchanged", a.independentVariables(), mat_("x_IndependentVariables0", int_("n"), int_("k")));
    same("hasIntercept is unchanged", a.hasIntercept(), bool_("b_HasIntercept0"));
    same("coords is unchanged", a.coords(), mat_("u_Coords0", int_("n"), 2));
    same_sw("spatialWeight is unchanged", a.spatialWeight(), swv(0));
}
void claim_set_GWRBasic_IndependentVariables()
{
    GWRBasic a; GWRBasic_all(a);
    a.setIndependentVariables(mat_("x_IndependentVariables1", int_("n"), int_("k")));
    same("isAutoselectBandwidth is unchanged", a.isAutoselectBandwidth(), bool_("b_IsAutoselectBandwidth0"));
    same("bandwidthSelectionCriterion is unchanged", (int)a.bandwidthSelectionCriterion(), (int)(GWRBasic::CV));
    same("isAutoselectIndepVars is unchanged", a.isAutoselectIndepVars(), bool_("b_IsAutoselectIndepVars0"));
    same("indepVarSelectionThreshold is unchanged", a.indepVarSelectionThreshold(), real_("r_IndepVarSelectionThreshold0"));
    same("hasHatMatrix is unchanged", a.hasHatMatrix(), bool_("b_HasHatMatrix0"));
    same("isStoreS is unchanged", a.isStoreS(), bool_("b_StoreS0") || (bool_("b_HasHatMatrix0") && int_("n") < 8192));
    same("isStoreC is unchanged", a.isStoreC(), bool_("b_StoreC0"));
    same("workerId is unchanged", a.workerId(), (int)int_("i_WorkerId0"));
    same("parallelType is unchanged", (int)a.parallelType(), (int)(ParallelType::SerialOnly));
    same("dependentVariable is unchanged", a.dependentVariable(), vec_("y_DependentVariable0", int_("n")));
    same("independentVariables reports the value set", a.independentVariables(), mat_("x_IndependentVariables1", int_("n"), int_("k")));
    same("hasIntercept is unchanged", a.hasIntercept(), bool_("b_HasIntercept0"));
    same("coords is unchanged", a.coords(), mat_("u_Coords0", int_("n"), 2));
    same_sw("spatialWeight is unchanged", a.spatialWeight(), swv(0));
}
void claim_set_GWRBasic_HasIntercept()
{
    GWRBasic a; GWRBasic_all(a);
    a.setHasIntercept(bool_("b_HasIntercept1"));
    same("isAutoselectBandwidth is unchanged", a.isAutoselectBandwidth(), bool_("b_IsAutoselectBandwidth0"));
    same("bandwidthSelectionCriterion is unchanged", (int)a.bandwidthSelectionCriterion(), (int)(GWRBasic::CV));
    same("isAutoselectIndepVars is unchanged", a.isAutoselectIndepVars(), bool_("b_IsAutoselectIndepVars0"));
    same("indepVarSelectionThreshold is unchanged", a.indepVarSelectionThreshold(), real_("r_IndepVarSelectionThreshold0"));
    same("hasHatMatrix is unchanged", a.hasHatMatrix(), bool_("b_HasHatMatrix0"));
    same("isStoreS is unchanged", a.isStoreS(), bool_("b_StoreS0") || (bool_("b_HasHatMatrix0") && int_("n") < 8192));
    same("isStoreC is unchanged", a.isStoreC(), bool_("b_StoreC0"));
    same("workerId is unchanged", a.workerId(), (int)int_("i_WorkerId0"));
    same("parallelType is unchanged", (int)a.parallelType(), (int)(ParallelType::SerialOnly));
    same("dependentVariable is unchanged", a.dependentVariable(), vec_("y_DependentVariable0", int_("n")));
    same("independentVariables is unchanged", a.independentVariables(), mat_("x_IndependentVariables0", int_("n"), int_("k")));
    same("hasIntercept reports the value set", a.hasIntercept(), bool_("b_HasIntercept1"));
    same("coords is unchanged", a.coords(), mat_("u_Coords0", int_("n"), 2));
    same_sw("spatialWeight is unchanged", a.spatialWeight(), swv(0));
}
void claim_set_GWRBasic_Coords()
{
    GWRBasic a; GWRBasic_all(a);
    a.setCoords(mat_("u_Coords1", int_("n"), 2));
    same("isAutoselectBandwidth is unchanged", a.isAutoselectBandwidth(), bool_("b_IsAutoselectBandwidth0"));
    same("bandwidthSelectionCriterion is unchanged", (int)a.bandwidthSelectionCriterion(), (int)(GWRBasic::CV));
    same("isAutoselectIndepVars is unchanged", a.isAutoselectIndepVars(), bool_("b_IsAutoselectIndepVars0"));
    same("indepVarSelectionThreshold is unchanged", a.indepVarSelectionThreshold(), real_("r_IndepVarSelectionThreshold0"));
    same("hasHatMatrix is unchanged", a.hasHatMatrix(), bool_("b_HasHatMatrix0"));
    same("isStoreS is unchanged", a.isStoreS(), bool_("b_StoreS0") || (bool_("b_HasHatMatrix0") && int_("n") < 8192));
    same("isStoreC is unchanged", a.isStoreC(), bool_("b_StoreC0"));
    same("workerId is unchanged", a.workerId(), (int)int_("i_WorkerId0"));
    same("parallelType is unchanged", (int)a.parallelType(), (int)(ParallelType::SerialOnly));
    same("dependentVariable is unchanged", a.dependentVariable(), vec_("y_DependentVariable0", int_("n")));
    same("independentVariables is unchanged", a.independentVariables(), mat_("x_IndependentVariables0", int_("n"), int_("k")));
    same("hasIntercept is unchanged", a.hasIntercept(), bool_("b_HasIntercept0"));
    same("coords reports the value set", a.coords(), mat_("u_Coords1", int_("n"), 2));
    same_sw("spatialWeight is unchanged", a.spatialWeight(), swv(0));
}
void claim_set_GWRBasic_SpatialWeight()
{
    GWRBasic a; GWRBasic_all(a);
    a.setSpatialWeight(swv(1));
    same("isAutoselectBandwidth is unchanged", a.isAutoselectBandwidth(), bool_("b_IsAutoselectBandwidth0"));
    same("bandwidthSelectionCriterion is unchanged", (int)a.bandwidthSelectionCriterion(), (int)(GWRBasic::CV));
    same("isAutoselectIndepVars is unchanged", a.isAutoselectIndepVars(), bool_("b_IsAutoselectIndepVars0"));
    same("indepVarSelectionThreshold is unchanged", a.indepVarSelectionThreshold(), real_("r_IndepVarSelectionThreshold0"));
    same("hasHatMatrix is unchanged", a.hasHatMatrix(), bool_("b_HasHatMatrix0"));
    same("isStoreS is unchanged", a.isStoreS(), bool_("b_StoreS0") || (bool_("b_HasHatMatrix0") && int_("n") < 8192));
    same("isStoreC is unchanged", a.isStoreC(), bool_("b_StoreC0"));
    same("workerId is unchanged", a.workerId(), (int)int_("i_WorkerId0"));
    same("parallelType is unchanged", (int)a.parallelType(), (int)(ParallelType::SerialOnly));
    same("dependentVariable is unchanged", a.dependentVariable(), vec_("y_DependentVariable0", int_("n")));
    same("independentVariables is unchanged", a.independentVariables(), mat_("x_IndependentVariables0", int_("n"), int_("k")));
    same("hasIntercept is unchanged", a.hasIntercept(), bool_("b_HasIntercept0"));
    same("coords is unchanged", a.coords(), mat_("u_Coords0", int_("n"), 2));
    same_sw("spatialWeight reports the value set", a.spatialWeight(), swv(1));
}
static void GWRGeneralized_all(GWRGeneralized& a)
{
    a.setFamily(GWRGeneralized::Family::Poisson);
    a.setTol(real_("r_Tol0"));
    a.setMaxiter(int_("s_Maxiter0"));
    a.setBandwidthSelectionCriterionType(GWRGeneralized::CV);
    a.setIsAutoselectBandwidth(bool_("b_IsAutoselectBandwidth0"));
    a.setRegressionData(mat_("x_RegressionData0", int_("n"), int_("k")));
    a.setHasHatMatrix(bool_("b_HasHatMatrix0"));
    a.setHasRegressionData(bool_("b_HasRegressionData0"));
    a.setParallelType(ParallelType::SerialOnly);
    a.setDependentVariable(vec_("y_DependentVariable0", int_("n")));
    a.setIndependentVariables(mat_("x_IndependentVariables0", int_("n"), int_("k")));
    a.setHasIntercept(bool_("b_HasIntercept0"));
    a.setCoords(mat_("u_Coords0", int_("n"), 2));
    a.setSpatialWeight(swv(0));
}
void claim_set_GWRGeneralized_Family()
{
    GWRGeneralized a; GWRGeneralized_all(a);
    a.setFamily(GWRGeneralized::Family::Binomial);
    same("getFamily reports the value set", (int)a.getFamily(), (int)(GWRGeneralized::Family::Binomial));
    same("getTol is unchanged", a.getTol(), real_("r_Tol0"));
    same("getMaxiter is unchanged", a.getMaxiter(), int_("s_Maxiter0"));
    same("bandwidthSelectionCriterionType is unchanged", (int)a.bandwidthSelectionCriterionType(), (int)(GWRGeneralized::CV));
    same("autoselectBandwidth is unchanged", a.autoselectBandwidth(), bool_("b_IsAutoselectBandwidth0"));
    same("regressionData is unchanged", a.regressionData(), mat_("x_RegressionData0", int_("n"), int_("k")));
    same("hasHatMatrix is unchanged", a.hasHatMatrix(), bool_("b_HasHatMatrix0"));
    same("hasRegressionData is unchanged", a.hasRegressionData(), bool_("b_HasRegressionData0"));
    same("parallelType is unchanged", (int)a.parallelType(), (int)(ParallelType::SerialOnly));
    same("dependentVariable is unchanged", a.dependentVariable(), vec_("y_DependentVariable0", int_("n")));
    same("independentVariables is unchanged", a.independentVariables(), mat_("x_IndependentVariables0", int_("n"), int_("k")));
    same("hasIntercept is unchanged", a.hasIntercept(), bool_("b_HasIntercept0"));
    same("coords is unchanged", a.coords(), mat_("u_Coords0", int_("n"), 2));
    same_sw("spatialWeight is unchanged", a.spatialWeight(), swv(0));
}
void claim_set_GWRGeneralized_Tol()
{
    GWRGeneralized a; GWRGeneralized_all(a);
    a.setTol(real_("r_Tol1"));
    same("getFamily is unchanged", (int)a.getFamily(), (int)(GWRGeneralized::Family::Poisson));
    same("getTol reports the value set", a.getTol(), real_("r_Tol1"));
    same("getMaxiter is unchanged", a.getMaxiter(), int_("s_Maxiter0"));
    same("bandwidthSelectionCriterionType is unchanged", (int)a.bandwidthSelectionCriterionType(), (int)(GWRGeneralized::CV));
    same("autoselectBandwidth is unchanged", a.autoselectBandwidth(), bool_("b_IsAutoselectBandwidth0"));
    same("regressionData is unchanged", a.regressionData(), mat_("x_RegressionData0", int_("n"), int_("k")));
    same("hasHatMatrix is unchanged", a.hasHatMatrix(), bool_("b_HasHatMatrix0"));
    same("hasRegressionData is unchanged", a.hasRegressionData(), bool_("b_HasRegressionData0"));
    same("parallelType is unchanged", (int)a.parallelType(), (int)(ParallelType::SerialOnly));
    same("dependentVariable is unchanged", a.dependentVariable(), vec_("y_DependentVariable0", int_("n")));
    same("independentVariables is unchanged", a.independentVariables(), mat_("x_IndependentVariables0", int_("n"), int_("k")));
    same("hasIntercept is unchanged", a.hasIntercept(), bool_("b_HasIntercept0"));
    same("coords is unchanged", a.coords(), mat_("u_Coords0", int_("n"), 2));
    same_sw("spatialWeight is unchanged", a.spatialWeight(), swv(0));
}
void claim_set_GWRGeneralized_Maxiter()
{
    GWRGeneralized a; GWRGeneralized_all(a);
    a.setMaxiter(int_("s_Maxiter1"));
    same("getFamily is unchanged", (int)a.getFamily(), (int)(GWRGeneralized::Family::Poisson));
    same("getTol is unchanged", a.getTol(), real_("r_Tol0"));
    same("getMaxiter reports the value set", a.getMaxiter(), int_("s_Maxiter1"));
    same("bandwidthSelectionCriterionType is unchanged", (int)a.bandwidthSelectionCriterionType(), (int)(GWRGeneralized::CV));
    same("autoselectBandwidth is unchanged", a.autoselectBandwidth(), bool_("b_IsAutoselectBandwidth0"));
    same("regressionData is unchanged", a.regressionData(), mat_("x_RegressionData0", int_("n"), int_("k")));
    same("hasHatMatrix is unchanged", a.hasHatMatrix(), bool_("b_HasHatMatrix0"));
    same("hasRegressionData is unchanged", a.hasRegressionData(), bool_("b_HasRegressionData0"));
    same("parallelType is unchanged", (int)a.parallelType(), (int)(ParallelType::SerialOnly));
    same("dependentVariable is unchanged", a.dependentVariable(), vec_("y_DependentVariable0", int_("n")));
    same("independentVariables is unchanged", a.independentVariables(), mat_("x_IndependentVariables0", int_("n"), int_("k")));
    same("hasIntercept is unchanged", a.hasIntercept(), bool_("b_HasIntercept0"));
    same("coords is unchanged", a.coords(), mat_("u_Coords0", int_("n"), 2));
    same_sw("spatialWeight is unchanged", a.spatialWeight(), swv(0));
}
void claim_set_GWRGeneralized_BandwidthSelectionCriterionType()
{
    GWRGeneralized a; GWRGeneralized_all(a);
    a.setBandwidthSelectionCriterionType(GWRGeneralized::AIC);
    same("getFamily is unchanged", (int)a.getFamily(), (int)(GWRGeneralized::Family::Poisson));
    same("getTol is unchanged", a.getTol(), real_("r_Tol0"));
    same("getMaxiter is unchanged", a.getMaxiter(), int_("s_Maxiter0"));
    same("bandwidthSelectionCriterionType reports the value set", (int)a.bandwidthSelectionCriterionType(), (int)(GWRGeneralized::AIC));
    same("autoselectBandwidth is unchanged", a.autoselectBandwidth(), bool_("b_IsAutoselectBandwidth0"));
    same("regressionData is unchanged", a.regressionData(), mat_("x_RegressionData0", int_("n"), int_("k")));
    same("hasHatMatrix is unchanged", a.hasHatMatrix(), bool_("b_HasHatMatrix0"));
    same("hasRegressionData is unchanged", a.hasRegressionData(), bool_("b_HasRegressionData0"));
    same("parallelType is unchanged", (int)a.parallelType(), (int)(ParallelType::SerialOnly));
    same("dependentVariable is unchanged", a.dependentVariable(), vec_("y_DependentVariable0", int_("n")));
    same("independentVariables is unchanged", a.independentVariables(), mat_("x_IndependentVariables0", int_("n"), int_("k")));
    same("hasIntercept is unchanged", a.hasIntercept(), bool_("b_HasIntercept0"));
    same("coords is unchanged", a.coords(), mat_("u_Coords0", int_("n"), 2));
    same_sw("spatialWeight is unchanged", a.spatialWeight(), swv(0));
}
void claim_set_GWRGeneralized_IsAutoselectBandwidth()
{
    GWRGeneralized a; GWRGeneralized_all(a);
    a.setIsAutoselectBandwidth(bool_("b_IsAutoselectBandwidth1"));
    same("getFamily is unchanged", (int)a.getFamily(), (int)(GWRGeneralized::Family::Poisson));
    same("getTol is unchanged", a.getTol(), real_("r_Tol0"));
    same("getMaxiter is unchanged", a.getMaxiter(), int_("s_Maxiter0"));
    same("bandwidthSelectionCriterionType is unchanged", (int)a.bandwidthSelectionCriterionType(), (int)(GWRGeneralized::CV));
    same("autoselectBandwidth reports the value set", a.autoselectBandwidth(), bool_("b_IsAutoselectBandwidth1"));
    same("regressionData is unchanged", a.regressionData(), mat_("x_RegressionData0", int_("n"), int_("k")));
    same("hasHatMatrix is unchanged", a.hasHatMatrix(), bool_("b_HasHatMatrix0"));
    same("hasRegressionData is unchanged", a.hasRegressionData(), bool_("b_HasRegressionData0"));
    same("parallelType is unchanged", (int)a.parallelType(), (int)(ParallelType::SerialOnly));
    same("dependentVariable is unchanged", a.dependentVariable(), vec_("y_DependentVariable0", int_("n")));
    same("independentVariables is unchanged", a.independentVariables(), mat_("x_IndependentVariables0", int_("n"), int_("k")));
    same("hasIntercept is unchanged", a.hasIntercept(), bool_("b_HasIntercept0"));
    same("coords is unchanged", a.coords(), mat_("u_Coords0", int_("n"), 2));
    same_sw("spatialWeight is unchanged", a.spatialWeight(), swv(0));
}
void claim_set_GWRGeneralized_RegressionData()
{
    GWRGeneralized a; GWRGeneralized_all(a);
    a.setRegressionData(mat_("x_RegressionData1", int_("n"), int_("k")));
    same("getFamily is unchanged", (int)a.getFamily(), (int)(GWRGeneralized::Family::Poisson));
    same("getTol is unchanged", a.getTol(), real_("r_Tol0"));
    same("getMaxiter is unchanged", a.getMaxiter(), int_("s_Maxiter0"));
    same("bandwidthSelectionCriterionType is unchanged", (int)a.bandwidthSelectionCriterionType(), (int)(GWRGeneralized::CV));
    same("autoselectBandwidth is unchanged", a.autoselectBandwidth(), bool_("b_IsAutoselectBandwidth0"));
    same("regressionData reports the value set", a.regressionData(), mat_("x_RegressionData1", int_("n"), int_("k")));
    same("hasHatMatrix is unchanged", a.hasHatMatrix(), bool_("b_HasHatMatrix0"));
    same("hasRegressionData is unchanged", a.hasRegressionData(), bool_("b_HasRegressionData0"));
    same("parallelType is unchanged", (int)a.parallelType(), (int)(ParallelType::SerialOnly));
    same("dependentVariable is unchanged", a.dependentVariable(), vec_("y_DependentVariable0", int_("n")));
    same("independentVariables is unchanged", a.independentVariables(), mat_("x_IndependentVariables0", int_("n"), int_("k")));
    same("hasIntercept is unchanged", a.hasIntercept(), bool_("b_HasIntercept0"));
    same("coords is unchanged", a.coords(), mat_("u_Coords0", int_("n"), 2));
    same_sw("spatialWeight is unchanged", a.spatialWeight(), swv(0));
}
void claim_set_GWRGeneralized_HasHatMatrix()
{
    GWRGeneralized a; GWRGeneralized_all(a);
    a.setHasHatMatrix(bool_("b_HasHatMatrix1"));
    same("getFamily is unchanged", (int)a.getFamily(), (int)(GWRGeneralized::Family::Poisson));
    same("getTol is unchanged", a.getTol(), real_("r_Tol0"));
    same("getMaxiter is unchanged", a.getMaxiter(), int_("s_Maxiter0"));
    same("bandwidthSelectionCriterionType is unchanged", (int)a.bandwidthSelectionCriterionType(), (int)(GWRGeneralized::CV));
    same("autoselectBandwidth is unchanged", a.autoselectBandwidth(), bool_("b_IsAutoselectBandwidth0"));
    same("regressionData is unchanged", a.regressionData(), mat_("x_RegressionData0", int_("n"), int_("k")));
    same("hasHatMatrix reports the value set", a.hasHatMatrix(), bool_("b_HasHatMatrix1"));
    same("hasRegressionData is unchanged", a.hasRegressionData(), bool_("b_HasRegressionData0"));
    same("parallelType is unchanged", (int)a.parallelType(), (int)(ParallelType::SerialOnly));
    same("dependentVariable is unchanged", a.dependentVariable(), vec_("y_DependentVariable0", int_("n")));
    same("independentVariables is unchanged", a.independentVariables(), mat_("x_IndependentVariables0", int_("n"), int_("k")));
    same("hasIntercept is unchanged", a.hasIntercept(), bool_("b_HasIntercept0"));
    same("coords is unchanged", a.coords(), mat_("u_Coords0", int_("n"), 2));
    same_sw("spatialWeight is unchanged", a.spatialWeight(), swv(0));
}
void claim_set_GWRGeneralized_HasRegressionData()
{
    GWRGeneralized a; GWRGeneralized_all(a);
    a.setHasRegressionData(bool_("b_HasRegressionData1"));
    same("getFamily is unchanged", (int)a.getFamily(), (int)(GWRGeneralized::Family::Poisson));
    same("getTol is unchanged", a.getTol(), real_("r_Tol0"));
    same("getMaxiter is unchanged", a.getMaxiter(), int_("s_Maxiter0"));
    same("bandwidthSelectionCriterionType is unchanged", (int)a.bandwidthSelectionCriterionType(), (int)(GWRGeneralized::CV));
    same("autoselectBandwidth is unchanged", a.autoselectBandwidth(), bool_("b_IsAutoselectBandwidth0"));
    same("regressionData is unchanged", a.regressionData(), mat_("x_RegressionData0", int_("n"), int_("k")));
    same("hasHatMatrix is unchanged", a.hasHatMatrix(), bool_("b_HasHatMatrix0"));
    same("hasRegressionData reports the value set", a.hasRegressionData(), bool_("b_HasRegressionData1"));
    same("parallelType is unchanged", (int)a.parallelType(), (int)(ParallelType::SerialOnly));
    same("dependentVariable is unchanged", a.dependentVariable(), vec_("y_DependentVariable0", int_("n")));
    same("independentVariables is unchanged", a.independentVariables(), mat_("x_IndependentVariables0", int_("n"), int_("k")));
    same("hasIntercept is unchanged", a.hasIntercept(), bool_("b_HasIntercept0"));
    same("coords is unchanged", a.coords(), mat_("u_Coords0", int_("n"), 2));
    same_sw("spatialWeight is unchanged", a.spatialWeight(), swv(0));
}
void claim_set_GWRGeneralized_ParallelType()
{
    GWRGeneralized a; GWRGeneralized_all(a);
    a.setParallelType(ParallelType::OpenMP);
    same("getFamily is unchanged", (int)a.getFamily(), (int)(GWRGeneralized::Family::Poisson));
    same("getTol is unchanged", a.getTol(), real_("r_Tol0"));
    same("getMaxiter is unchanged", a.getMaxiter(), int_("s_Maxiter0"));
    same("bandwidthSelectionCriterionType is unchanged", (int)a.bandwidthSelectionCriterionType(), (int)(GWRGeneralized::CV));
    same("autoselectBandwidth is unchanged", a.autoselectBandwidth(), bool_("b_IsAutoselectBandwidth0"));
    same("regressionData is unchanged", a.regressionData(), mat_("x_RegressionData0", int_("n"), int_("k")));
    same("hasHatMatrix is unchanged", a.hasHatMatrix(), bool_("b_HasHatMatrix0"));
    same("hasRegressionData is unchanged", a.hasRegressionData(), bool_("b_HasRegressionData0"));
    same("parallelType reports the value set", (int)a.parallelType(), (int)(ParallelType::OpenMP));
    same("dependentVariable is unchanged", a.dependentVariable(), vec_("y_DependentVariable0", int_("n")));
    same("independentVariables is unchanged", a.independentVariables(), mat_("x_IndependentVariables0", int_("n"), int_("k")));
    same("hasIntercept is unchanged", a.hasIntercept(), bool_("b_HasIntercept0"));
    same("coords is unchanged", a.coords(), mat_("u_Coords0", int_("n"), 2));
    same_sw("spatialWeight is unchanged", a.spatialWeight(), swv(0));
}
void claim_set_GWRGeneralized_DependentVariable()
{
    GWRGeneralized a; GWRGeneralized_all(a);
    a.setDependentVariable(vec_("y_DependentVariable1", int_("n")));
    same("getFamily is unchanged", (int)a.getFamily(), (int)(GWRGeneralized::Family::Poisson));
    same("getTol is unchanged", a.getTol(), real_("r_Tol0"));
    same("getMaxiter is unchanged", a.getMaxiter(), int_("s_Maxiter0"));
    same("bandwidthSelectionCriterionType is unchanged", (int)a.bandwidthSelectionCriterionType(), (int)(GWRGeneralized::CV));
    same("autoselectBandwidth is unchanged", a.autoselectBandwidth(), bool_("b_IsAutoselectBandwidth0"));
    same("regressionData is unchanged", a.regressionData(), mat_("x_RegressionData0", int_("n"), int_("k")));
    same("hasHatMatrix is unchanged", a.hasHatMatrix(), bool_("b_HasHatMatrix0"));
    same("hasRegressionData is unchanged", a.hasRegressionData(), bool_("b_HasRegressionData0"));
    same("parallelType is unchanged", (int)a.parallelType(), (int)(ParallelType::SerialOnly));
    same("dependentVariable reports the value set", a.dependentVariable(), vec_("y_DependentVariable1", int_("n")));
    same("independentVariables is unchanged", a.independentVariables(), mat_("x_IndependentVariables0", int_("n"), int_("k")));
    same("hasIntercept is unchanged", a.hasIntercept(), bool_("b_HasIntercept0"));
    same("coords is unchanged", a.coords(), mat_("u_Coords0", int_("n"), 2));
    same_sw("spatialWeight is unchanged", a.spatialWeight(), swv(0));
}
void claim_set_GWRGeneralized_IndependentVariables()
{
    GWRGeneralized a; GWRGeneralized_all(a);
    a.setIndependentVariables(mat_("x_IndependentVariables1", int_("n"), int_("k")));
    same("getFamily is unchanged", (int)a.getFamily(), (int)(GWRGeneralized::Family::Poisson));
    same("getTol is unchanged", a.getTol(), real_("r_Tol0"));
    same("getMaxiter is unchanged", a.getMaxiter(), int_("s_Maxiter0"));
    same("bandwidthSelectionCriterionType is unchanged", (int)a.bandwidthSelectionCriterionType(), (int)(GWRGeneralized::CV));
    same("autoselectBandwidth is unchanged", a.autoselectBandwidth(), bool_("b_IsAutoselectBandwidth0"));
    same("regressionData is unchanged", a.regressionData(), mat_("x_RegressionData0", int_("n"), int_("k")));
    same("hasHatMatrix is unchanged", a.hasHatMatrix(), bool_("b_HasHatMatrix0"));
    same("hasRegressionData is unchanged", a.hasRegressionData(), bool_("b_HasRegressionData0"));
    same("parallelType is unchanged", (int)a.parallelType(), (int)(ParallelType::SerialOnly));
    same("dependentVariable is unchanged", a.dependentVariable(), vec_("y_DependentVariable0", int_("n")));
    same("independentVariables reports the value set", a.independentVariables(), mat_("x_IndependentVariables1", int_("n"), int_("k")));
    same("hasIntercept is unchanged", a.hasIntercept(), bool_("b_HasIntercept0"));
    same("coords is unchanged", a.coords(), mat_("u_Coords0", int_("n"), 2));
    same_sw("spatialWeight is unchanged", a.spatialWeight(), swv(0));
}
void claim_set_GWRGeneralized_HasIntercept()
{
    GWRGeneralized a; GWRGeneralized_all(a);
    a.setHasIntercept(bool_("b_HasIntercept1"));
    same("getFamily is unchanged", (int)a.getFamily(), (int)(GWRGeneralized::Family::Poisson));
    same("getTol is unchanged", a.getTol(), real_("r_Tol0"));
    same("getMaxiter is unchanged", a.getMaxiter(), int_("s_Maxiter0"));
    same("bandwidthSelectionCriterionType is unchanged", (int)a.bandwidthSelectionCriterionType(), (int)(GWRGeneralized::CV));
    same("autoselectBandwidth is unchanged", a.autoselectBandwidth(), bool_("b_IsAutoselectBandwidth0"));
    same("regressionData is unchanged", a.regressionData(), mat_("x_RegressionData0", int_("n"), int_("k")));
    same("hasHatMatrix is unchanged", a.hasHatMatrix(), bool_("b_HasHatMatrix0"));
    same("hasRegressionData is unchanged", a.hasRegressionData(), bool_("b_HasRegressionData0"));
    same("parallelType is unchanged", (int)a.parallelType(), (int)(ParallelType::SerialOnly));
    same("dependentVariable is unchanged", a.dependentVariable(), vec_("y_DependentVariable0", int_("n")));
    same("independentVariables is unchanged", a.independentVariables(), mat_("x_IndependentVariables0", int_("n"), int_("k")));
    same("hasIntercept reports the value set", a.hasIntercept(), bool_("b_HasIntercept1"));
    same("coords is unchanged", a.coords(), mat_("u_Coords0", int_("n"), 2));
    same_sw("spatialWeight is unchanged", a.spatialWeight(), swv(0));
}
void claim_set_GWRGeneralized_Coords()
{
    GWRGeneralized a; GWRGeneralized_all(a);
    a.setCoords(mat_("u_Coords1", int_("n"), 2));
    same("getFamily is unchanged", (int)a.getFamily(), (int)(GWRGeneralized::Family::Poisson));
    same("getTol is unchanged", a.getTol(), real_("r_Tol0"));
    same("getMaxiter is unchanged", a.getMaxiter(), int_("s_Maxiter0"));
    same("bandwidthSelectionCriterionType is unchanged", (int)a.bandwidthSelectionCriterionType(), (int)(GWRGeneralized::CV));
    same("autoselectBandwidth is unchanged", a.autoselectBandwidth(), bool_("b_IsAutoselectBandwidth0"));
    same("regressionData is unchanged", a.regressionData(), mat_("x_RegressionData0", int_("n"), int_("k")));
    same("hasHatMatrix is unchanged", a.hasHatMatrix(), bool_("b_HasHatMatrix0"));
    same("hasRegressionData is unchanged", a.hasRegressionData(), bool_("b_HasRegressionData0"));
    same("parallelType is unchanged", (int)a.parallelType(), (int)(ParallelType::SerialOnly));
    same("dependentVariable is unchanged", a.dependentVariable(), vec_("y_DependentVariable0", int_("n")));
    same("independentVariables is unchanged", a.independentVariables(), mat_("x_IndependentVariables0", int_("n"), int_("k")));
    same("hasIntercept is unchanged", a.hasIntercept(), bool_("b_HasIntercept0"));
    same("coords reports the value set", a.coords(), mat_("u_Coords1", int_("n"), 2));
    same_sw("spatialWeight is unchanged", a.spatialWeight(), swv(0));
}
void claim_set_GWRGeneralized_SpatialWeight()
{
    GWRGeneralized a; GWRGeneralized_all(a);
    a.setSpatialWeight(swv(1));
    same("getFamily is unchanged", (int)a.getFamily(), (int)(GWRGeneralized::Family::Poisson));
    same("getTol is unchanged", a.getTol(), real_("r_Tol0"));
    same("getMaxiter is unchanged", a.getMaxiter(), int_("s_Maxiter0"));
    same("bandwidthSelectionCriterionType is unchanged", (int)a.bandwidthSelectionCriterionType(), (int)(GWRGeneralized::CV));
    same("autoselectBandwidth is unchanged", a.autoselectBandwidth(), bool_("b_IsAutoselectBandwidth0"));
    same("regressionData is unchanged", a.regressionData(), mat_("x_RegressionData0", int_("n"), int_("k")));
    same("hasHatMatrix is unchanged", a.hasHatMatrix(), bool_("b_HasHatMatrix0"));
    same("hasRegressionData is unchanged", a.hasRegressionData(), bool_("b_HasRegressionData0"));
    same("parallelType is unchanged", (int)a.parallelType(), (int)(ParallelType::SerialOnly));
    same("dependentVariable is unchanged", a.dependentVariable(), vec_("y_DependentVariable0", int_("n")));
    same("independentVariables is unchanged", a.independentVariables(), mat_("x_IndependentVariables0", int_("n"), int_("k")));
    same("hasIntercept is unchanged", a.hasIntercept(), bool_("b_HasIntercept0"));
    same("coords is unchanged", a.coords(), mat_("u_Coords0", int_("n"), 2));
    same_sw("spatialWeight reports the value set", a.spatialWeight(), swv(1));
}
static void GWRLocalCollinearity_all(GWRLocalCollinearity& a)
{
    a.setCnThresh(real_("r_CnThresh0"));
    a.setLambda(real_("r_Lambda0"));
    a.setHasHatMatrix(bool_("b_HasHatMatrix0"));
    a.setLambdaAdjust(bool_("b_LambdaAdjust0"));
    a.setIsAutoselectBandwidth(bool_("b_IsAutoselectBandwidth0"));
    a.setParallelType(ParallelType::SerialOnly);
    a.setDependentVariable(vec_("y_DependentVariable0", int_("n")));
    a.setIndependentVariables(mat_("x_IndependentVariables0", int_("n"), int_("k")));
    a.setHasIntercept(bool_("b_HasIntercept0"));
    a.setCoords(mat_("u_Coords0", int_("n"), 2));
    a.setSpatialWeight(swv(0));
}
void claim_set_GWRLocalCollinearity_CnThresh()
{
    GWRLocalCollinearity a; GWRLocalCollinearity_all(a);
    a.setCnThresh(real_("r_CnThresh1"));
    same("cnThresh reports the value set", a.cnThresh(), real_("r_CnThresh1"));
    same("lambda is unchanged", a.lambda(), real_("r_Lambda0"));
    same("hasHatMatrix is unchanged", a.hasHatMatrix(), bool_("b_HasHatMatrix0"));
    same("lambdaAdjust is unchanged", a.lambdaAdjust(), bool_("b_LambdaAdjust0"));
    same("isAutoselectBandwidth is unchanged", a.isAutoselectBandwidth(), bool_("b_IsAutoselectBandwidth0"));
    same("parallelType is unchanged", (int)a.parallelType(), (int)(ParallelType::SerialOnly));
    same("dependentVariable is unchanged", a.dependentVariable(), vec_("y_DependentVariable0", int_("n")));
    same("independentVariables is unchanged", a.independentVariables(), mat_("x_IndependentVariables0", int_("n"), int_("k")));
    same("hasIntercept is unchanged", a.hasIntercept(), bool_("b_HasIntercept0"));
    same("coords is unchanged", a.coords(), mat_("u_Coords0", int_("n"), 2));
    same_sw("spatialWeight is unchanged", a.spatialWeight(), swv(0));
}
void claim_set_GWRLocalCollinearity_Lambda()
{
    GWRLocalCollinearity a; GWRLocalCollinearity_all(a);
    a.setLambda(real_("r_Lambda1"));
    same("cnThresh is unchanged", a.cnThresh(), real_("r_CnThresh0"));
    same("lambda reports the value set", a.lambda(), real_("r_Lambda1"));
    same("hasHatMatrix is unchanged", a.hasHatMatrix(), bool_("b_HasHatMatrix0"));
    same("lambdaAdjust is unchanged", a.lambdaAdjust(), bool_("b_LambdaAdjust0"));
    same("isAutoselectBandwidth is unchanged", a.isAutoselectBandwidth(), bool_("b_IsAutoselectBandwidth0"));
    same("parallelType is unchanged", (int)a.parallelType(), (int)(ParallelType::SerialOnly));
    same("dependentVariable is unchanged", a.dependentVariable(), vec_("y_DependentVariable0", int_("n")));
    same("independentVariables is unchanged", a.independentVariables(), mat_("x_IndependentVariables0", int_("n"), int_("k")));
    same("hasIntercept is unchanged", a.hasIntercept(), bool_("b_HasIntercept0"));
    same("coords is unchanged", a.coords(), mat_("u_Coords0", int_("n"), 2));
    same_sw("spatialWeight is unchanged", a.spatialWeight(), swv(0));
}
void claim_set_GWRLocalCollinearity_HasHatMatrix()
{
    GWRLocalCollinearity a; GWRLocalCollinearity_all(a);
    a.setHasHatMatrix(bool_("b_HasHatMatrix1"));
    same("cnThresh is unchanged", a.cnThresh(), real_("r_CnThresh0"));
    same("lambda is unchanged", a.lambda(), real_("r_Lambda0"));
    same("hasHatMatrix reports the value set", a.hasHatMatrix(), bool_("b_HasHatMatrix1"));
    same("lambdaAdjust is unchanged", a.lambdaAdjust(), bool_("b_LambdaAdjust0"));
    same("isAutoselectBandwidth is unchanged", a.isAutoselectBandwidth(), bool_("b_IsAutoselectBandwidth0"));
    same("parallelType is unchanged", (int)a.parallelType(), (int)(ParallelType::SerialOnly));
    same("dependentVariable is unchanged", a.dependentVariable(), vec_("y_DependentVariable0", int_("n")));
    same("independentVariables is unchanged", a.independentVariables(), mat_("x_IndependentVariables0", int_("n"), int_("k")));
    same("hasIntercept is unchanged", a.hasIntercept(), bool_("b_HasIntercept0"));
    same("coords is unchanged", a.coords(), mat_("u_Coords0", int_("n"), 2));
    same_sw("spatialWeight is unchanged", a.spatialWeight(), swv(0));
}
void claim_set_GWRLocalCollinearity_LambdaAdjust()
{
    GWRLocalCollinearity a; GWRLocalCollinearity_all(a);
    a.setLambdaAdjust(bool_("b_LambdaAdjust1"));
    same("cnThresh is unchanged", a.cnThresh(), real_("r_CnThresh0"));
    same("lambda is unchanged", a.lambda(), real_("r_Lambda0"));
    same("hasHatMatrix is unchanged", a.hasHatMatrix(), bool_("b_HasHatMatrix0"));
    same("lambdaAdjust reports the value set", a.lambdaAdjust(), bool_("b_LambdaAdjust1"));
    same("isAutoselectBandwidth is unchanged", a.isAutoselectBandwidth(), bool_("b_IsAutoselectBandwidth0"));
    same("parallelType is unchanged", (int)a.parallelType(), (int)(ParallelType::SerialOnly));
    same("dependentVariable is unchanged", a.dependentVariable(), vec_("y_DependentVariable0", int_("n")));
    same("independentVariables is unchanged", a.independentVariables(), mat_("x_IndependentVariables0", int_("n"), int_("k")));
    same("hasIntercept is unchanged", a.hasIntercept(), bool_("b_HasIntercept0"));
    same("coords is unchanged", a.coords(), mat_("u_Coords0", int_("n"), 2));
    same_sw("spatialWeight is unchanged", a.spatialWeight(), swv(0));
}
void claim_set_GWRLocalCollinearity_IsAutoselectBandwidth()
{
    GWRLocalCollinearity a; GWRLocalCollinearity_all(a);
    a.setIsAutoselectBandwidth(bool_("b_IsAutoselectBandwidth1"));
    same("cnThresh is unchanged", a.cnThresh(), real_("r_CnThresh0"));
    same("lambda is unchanged", a.lambda(), real_("r_Lambda0"));
    same("hasHatMatrix is unchanged", a.hasHatMatrix(), bool_("b_HasHatMatrix0"));
    same("lambdaAdjust is unchanged", a.lambdaAdjust(), bool_("b_LambdaAdjust0"));
    same("isAutoselectBandwidth reports the value set", a.isAutoselectBandwidth(), bool_("b_IsAutoselectBandwidth1"));
    same("parallelType is unchanged", (int)a.parallelType(), (int)(ParallelType::SerialOnly));
    same("dependentVariable is unchanged", a.dependentVariable(), vec_("y_DependentVariable0", int_("n")));
    same("independentVariables is unchanged", a.independentVariables(), mat_("x_IndependentVariables0", int_("n"), int_("k")));
    same("hasIntercept is unchanged", a.hasIntercept(), bool_("b_HasIntercept0"));
    same("coords is unchanged", a.coords(), mat_("u_Coords0", int_("n"), 2));
    same_sw("spatialWeight is unchanged", a.spatialWeight(), swv(0));
}
void claim_set_GWRLocalCollinearity_ParallelType()
{
    GWRLocalCollinearity a; GWRLocalCollinearity_all(a);
    a.setParallelType(ParallelType::OpenMP);
    same("cnThresh is unchanged", a.cnThresh(), real_("r_CnThresh0"));
    same("lambda is unchanged", a.lambda(), real_("r_Lambda0"));
    same("hasHatMatrix is unchanged", a.hasHatMatrix(), bool_("b_HasHatMatrix0"));
    same("lambdaAdjust is unchanged", a.lambdaAdjust(), bool_("b_LambdaAdjust0"));
    same("isAutoselectBandwidth is unchanged", a.isAutoselectBandwidth(), bool_("b_IsAutoselectBandwidth0"));
    same("parallelType reports the value set", (int)a.parallelType(), (int)(ParallelType::OpenMP));
    same("dependentVariable is unchanged", a.dependentVariable(), vec_("y_DependentVariable0", int_("n")));
    same("independentVariables is unchanged", a.independentVariables(), mat_("x_IndependentVariables0", int_("n"), int_("k")));
    same("hasIntercept is unchanged", a.hasIntercept(), bool_("b_HasIntercept0"));
    same("coords is unchanged", a.coords(), mat_("u_Coords0", int_("n"), 2));
    same_sw("spatialWeight is unchanged", a.spatialWeight(), swv(0));
}
void claim_set_GWRLocalCollinearity_DependentVariable()
{
    GWRLocalCollinearity a; GWRLocalCollinearity_all(a);
    a.setDependentVariable(vec_("y_DependentVariable1", int_("n")));
    same("cnThresh is unchanged", a.cnThresh(), real_("r_CnThresh0"));
    same("lambda is unchanged", a.lambda(), real_("r_Lambda0"));
    same("hasHatMatrix is unchanged", a.hasHatMatrix(), bool_("b_HasHatMatrix0"));
    same("lambdaAdjust is unchanged", a.lambdaAdjust(), bool_("b_LambdaAdjust0"));
    same("isAutoselectBandwidth is unchanged", a.isAutoselectBandwidth(), bool_("b_IsAutoselectBandwidth0"));
    same("parallelType is unchanged", (int)a.parallelType(), (int)(ParallelType::SerialOnly));
    same("dependentVariable reports the value set", a.dependentVariable(), vec_("y_DependentVariable1", int_("n")));
    same("independentVariables is unchanged", a.independentVariables(), mat_("x_IndependentVariables0", int_("n"), int_("k")));
    same("hasIntercept is unchanged", a.hasIntercept(), bool_("b_HasIntercept0"));
    same("coords is unchanged", a.coords(), mat_("u_Coords0", int_("n"), 2));
    same_sw("spatialWeight is unchanged", a.spatialWeight(), swv(0));
}
void claim_set_GWRLocalCollinearity_IndependentVariables()
{
    GWRLocalCollinearity a; GWRLocalCollinearity_all(a);
    a.setIndependentVariables(mat_("x_IndependentVariables1", int_("n"), int_("k")));
    same("cnThresh is unchanged", a.cnThresh(), real_("r_CnThresh0"));
    same("lambda is unchanged", a.lambda(), real_("r_Lambda0"));
    same("hasHatMatrix is unchanged", a.hasHatMatrix(), bool_("b_HasHatMatrix0"));
    same("lambdaAdjust is unchanged", a.lambdaAdjust(), bool_("b_LambdaAdjust0"));
    same("isAutoselectBandwidth is unchanged", a.isAutoselectBandwidth(), bool_("b_IsAutoselectBandwidth0"));
    same("parallelType is unchanged", (int)a.parallelType(), (int)(ParallelType::SerialOnly));
    same("dependentVariable is unchanged", a.dependentVariable(), vec_("y_DependentVariable0", int_("n")));
    same("independentVariables reports the value set", a.independentVariables(), mat_("x_IndependentVariables1", int_("n"), int_("k")));
    same("hasIntercept is unchanged", a.hasIntercept(), bool_("b_HasIntercept0"));
    same("coords is unchanged", a.coords(), mat_("u_Coords0", int_("n"), 2));
    same_sw("spatialWeight is unchanged", a.spatialWeight(), swv(0));
}
void claim_set_GWRLocalCollinearity_HasIntercept()
{
    GWRLocalCollinearity a; GWRLocalCollinearity_all(a);
    a.setHasIntercept(bool_("b_HasIntercept1"));
    same("cnThresh is unchanged", a.cnThresh(), real_("r_CnThresh0"));
    same("lambda is unchanged", a.lambda(), real_("r_Lambda0"));
    same("hasHatMatrix is unchanged", a.hasHatMatrix(), bool_("b_HasHatMatrix0"));
    same("lambdaAdjust is unchanged", a.lambdaAdjust(), bool_("b_LambdaAdjust0"));
    same("isAutoselectBandwidth is unchanged", a.isAutoselectBandwidth(), bool_("b_IsAutoselectBandwidth0"));
    same("parallelType is unchanged", (int)a.parallelType(), (int)(ParallelType::SerialOnly));
    same("dependentVariable is unchanged", a.dependentVariable(), vec_("y_DependentVariable0", int_("n")));
    same("independentVariables is unchanged", a.independentVariables(), mat_("x_IndependentVariables0", int_("n"), int_("k")));
    same("hasIntercept reports the value set", a.hasIntercept(), bool_("b_HasIntercept1"));
    same("coords is unchanged", a.coords(), mat_("u_Coords0", int_("n"), 2));
    same_sw("spatialWeight is unchanged", a.spatialWeight(), swv(0));
}
void claim_set_GWRLocalCollinearity_Coords()
{
    GWRLocalCollinearity a; GWRLocalCollinearity_all(a);
    a.setCoords(mat_("u_Coords1", int_("n"), 2));
    same("cnThresh is unchanged", a.cnThresh(), real_("r_CnThresh0"));
    same("lambda is unchanged", a.lambda(), real_("r_Lambda0"));
    same("hasHatMatrix is unchanged", a.hasHatMatrix(), bool_("b_HasHatMatrix0"));
    same("lambdaAdjust is unchanged", a.lambdaAdjust(), bool_("b_LambdaAdjust0"));
    same("isAutoselectBandwidth is unchanged", a.isAutoselectBandwidth(), bool_("b_IsAutoselectBandwidth0"));
    same("parallelType is unchanged", (int)a.parallelType(), (int)(ParallelType::SerialOnly));
    same("dependentVariable is unchanged", a.dependentVariable(), vec_("y_DependentVariable0", int_("n")));
    same("independentVariables is unchanged", a.independentVariables(), mat_("x_IndependentVariables0", int_("n"), int_("k")));
    same("hasIntercept is unchanged", a.hasIntercept(), bool_("b_HasIntercept0"));
    same("coords reports the value set", a.coords(), mat_("u_Coords1", int_("n"), 2));
    same_sw("spatialWeight is unchanged", a.spatialWeight(), swv(0));
}
void claim_set_GWRLocalCollinearity_SpatialWeight()
{
    GWRLocalCollinearity a; GWRLocalCollinearity_all(a);
    a.setSpatialWeight(swv(1));
    same("cnThresh is unchanged", a.cnThresh(), real_("r_CnThresh0"));
    same("lambda is unchanged", a.lambda(), real_("r_Lambda0"));
    same("hasHatMatrix is unchanged", a.hasHatMatrix(), bool_("b_HasHatMatrix0"));
    same("lambdaAdjust is unchanged", a.lambdaAdjust(), bool_("b_LambdaAdjust0"));
    same("isAutoselectBandwidth is unchanged", a.isAutoselectBandwidth(), bool_("b_IsAutoselectBandwidth0"));
    same("parallelType is unchanged", (int)a.parallelType(), (int)(ParallelType::SerialOnly));
    same("dependentVariable is unchanged", a.dependentVariable(), vec_("y_DependentVariable0", int_("n")));
    same("independentVariables is unchanged", a.independentVariables(), mat_("x_IndependentVariables0", int_("n"), int_("k")));
    same("hasIntercept is unchanged", a.hasIntercept(), bool_("b_HasIntercept0"));
    same("coords is unchanged", a.coords(), mat_("u_Coords0", int_("n"), 2));
    same_sw("spatialWeight reports the value set", a.spatialWeight(), swv(1));
}
static void GWRMultiscale_all(GWRMultiscale& a)
{
    a.setDependentVariable(vec_("y_DependentVariable0", int_("n")));
    a.setIndependentVariables(mat_("x_IndependentVariables0", int_("n"), 2));
    a.setHasIntercept(bool_("b_HasIntercept0"));
    a.setHasHatMatrix(bool_("b_HasHatMatrix0"));
    a.setBandwidthSelectRetryTimes(int_("s_BandwidthSelectRetryTimes0"));
    a.setMaxIteration(int_("s_MaxIteration0"));
    a.setCriterionType(GWRMultiscale::CVR);
    a.setCriterionThreshold(real_("r_CriterionThreshold0"));
    a.setAdaptiveLower((int)int_("i_AdaptiveLower0"));
    a.setPreditorCentered(two<bool>(bool_("p_PreditorCentered0"), bool_("q_PreditorCentered0")));
    a.setBandwidthSelectThreshold(two<double>(real_("p_BandwidthSelectThreshold0"), real_("q_BandwidthSelectThreshold0")));
    a.setBandwidthInitilize(two<GWRMultiscale::BandwidthInitilizeType>(GWRMultiscale::Initial, GWRMultiscale::Specified));
    a.setBandwidthSelectionApproach(two<GWRMultiscale::BandwidthSelectionCriterionType>(GWRMultiscale::CV, GWRMultiscale::AIC));
    a.setSpatialWeights(swsv(0));
    a.setWorkerId((int)int_("i_WorkerId0"));
    a.setParallelType(ParallelType::SerialOnly);
    a.setCoords(mat_("u_Coords0", int_("n"), 2));
}
void claim_set_GWRMultiscale_DependentVariable()
{
    GWRMultiscale a; GWRMultiscale_all(a);
    a.setDependentVariable(vec_("y_DependentVariable1", int_("n")));
    same("dependentVariable reports the value set", a.dependentVariable(), vec_("y_DependentVariable1", int_("n")));
    same("independentVariables is unchanged", a.independentVariables(), mat_("x_IndependentVariables0", int_("n"), 2));
    same("hasIntercept is unchanged", a.hasIntercept(), bool_("b_HasIntercept0"));
    same("hasHatMatrix is unchanged", a.hasHatMatrix(), bool_("b_HasHatMatrix0"));
    same("bandwidthSelectRetryTimes is unchanged", a.bandwidthSelectRetryTimes(), int_("s_BandwidthSelectRetryTimes0"));
    same("maxIteration is unchanged", a.maxIteration(), int_("s_MaxIteration0"));
    same("criterionType is unchanged", (int)a.criterionType(), (int)(GWRMultiscale::CVR));
    same("criterionThreshold is unchanged", a.criterionThreshold(), real_("r_CriterionThreshold0"));
    same("adaptiveLower is unchanged", a.adaptiveLower(), (int)int_("i_AdaptiveLower0"));
    same_two("preditorCentered is unchanged", a.preditorCentered(), two<bool>(bool_("p_PreditorCentered0"), bool_("q_PreditorCentered0")));
    same_two("bandwidthSelectThreshold is unchanged", a.bandwidthSelectThreshold(), two<double>(real_("p_BandwidthSelectThreshold0"), real_("q_BandwidthSelectThreshold0")));
    same_two("bandwidthInitilize is unchanged", a.bandwidthInitilize(), two<GWRMultiscale::BandwidthInitilizeType>(GWRMultiscale::Initial, GWRMultiscale::Specified));
    same_two("bandwidthSelectionApproach is unchanged", a.bandwidthSelectionApproach(), two<GWRMultiscale::BandwidthSelectionCriterionType>(GWRMultiscale::CV, GWRMultiscale::AIC));
    same_sw("spatialWeights is unchanged", a.spatialWeights()[0], swsv(0)[0]); same_sw("spatialWeights is unchanged", a.spatialWeights()[1], swsv(0)[1]);
    same("workerId is unchanged", a.workerId(), (int)int_("i_WorkerId0"));
    same("parallelType is unchanged", (int)a.parallelType(), (int)(ParallelType::SerialOnly));
    same("coords is unchanged", a.coords(), mat_("u_Coords0", int_("n"), 2));
}
void claim_set_GWRMultiscale_IndependentVariables()
{
    GWRMultiscale a; GWRMultiscale_all(a);
    a.setIndependentVariables(mat_("x_IndependentVariables1", int_("n"), 2));
    same("dependentVariable is unchanged", a.dependentVariable(), vec_("y_DependentVariable0", int_("n")));
    same("independentVariables reports the value set", a.independentVariables(), mat_("x_IndependentVariables1", int_("n"), 2));
    same("hasIntercept is unchanged", a.hasIntercept(), bool_("b_HasIntercept0"));
    same("hasHatMatrix is unchanged", a.hasHatMatrix(), bool_("b_HasHatMatrix0"));
    same("bandwidthSelectRetryTimes is unchanged", a.bandwidthSelectRetryTimes(), int_("s_BandwidthSelectRetryTimes0"));
    same("maxIteration is unchanged", a.maxIteration(), int_("s_MaxIteration0"));
    same("criterionType is unchanged", (int)a.criterionType(), (int)(GWRMultiscale::CVR));
    same("criterionThreshold is unchanged", a.criterionThreshold(), real_("r_CriterionThreshold0"));
    same("adaptiveLower is unchanged", a.adaptiveLower(), (int)int_("i_AdaptiveLower0"));
    same_two("preditorCentered is unchanged", a.preditorCentered(), two<bool>(bool_("p_PreditorCentered0"), bool_("q_PreditorCentered0")));
    same_two("bandwidthSelectThreshold is unchanged", a.bandwidthSelectThreshold(), two<double>(real_("p_BandwidthSelectThreshold0"), real_("q_BandwidthSelectThreshold0")));
    same_two("bandwidthInitilize is unchanged", a.bandwidthInitilize(), two<GWRMultiscale::BandwidthInitilizeType>(GWRMultiscale::Initial, GWRMultiscale::Specified));
    same_two("bandwidthSelectionApproach is unchanged", a.bandwidthSelectionApproach(), two<GWRMultiscale::BandwidthSelectionCriterionType>(GWRMultiscale::CV, GWRMultiscale::AIC));
    same_sw("spatialWeights is unchanged", a.spatialWeights()[0], swsv(0)[0]); same_sw("spatialWeights is unchanged", a.spatialWeights()[1], swsv(0)[1]);
    same("workerId is unchanged", a.workerId(), (int)int_("i_WorkerId0"));
    same("parallelType is unchanged", (int)a.parallelType(), (int)(ParallelType::SerialOnly));
    same("coords is unchanged", a.coords(), mat_("u_Coords0", int_("n"), 2));
}
void claim_set_GWRMultiscale_HasIntercept()
{
    GWRMultiscale a; GWRMultiscale_all(a);
    a.setHasIntercept(bool_("b_HasIntercept1"));
    same("dependentVariable is unchanged", a.dependentVariable(), vec_("y_DependentVariable0", int_("n")));
    same("independentVariables is unchanged", a.independentVariables(), mat_("x_IndependentVariables0", int_("n"), 2));
    same("hasIntercept reports the value set", a.hasIntercept(), bool_("b_HasIntercept1"));
    same("hasHatMatrix is unchanged", a.hasHatMatrix(), bool_("b_HasHatMatrix0"));
    same("bandwidthSelectRetryTimes is unchanged", a.bandwidthSelectRetryTimes(), int_("s_BandwidthSelectRetryTimes0"));
    same("maxIteration is unchanged", a.maxIteration(), int_("s_MaxIteration0"));
    same("criterionType is unchanged", (int)a.criterionType(), (int)(GWRMultiscale::CVR));
    same("criterionThreshold is unchanged", a.criterionThreshold(), real_("r_CriterionThreshold0"));
    same("adaptiveLower is unchanged", a.adaptiveLower(), (int)int_("i_AdaptiveLower0"));
    same_two("preditorCentered is unchanged", a.preditorCentered(), two<bool>(bool_("p_PreditorCentered0"), bool_("q_PreditorCentered0")));
    same_two("bandwidthSelectThreshold is unchanged", a.bandwidthSelectThreshold(), two<double>(real_("p_BandwidthSelectThreshold0"), real_("q_BandwidthSelectThreshold0")));
    same_two("bandwidthInitilize is unchanged", a.bandwidthInitilize(), two<GWRMultiscale::BandwidthInitilizeType>(GWRMultiscale::Initial, GWRMultiscale::Specified));
    same_two("bandwidthSelectionApproach is unchanged", a.bandwidthSelectionApproach(), two<GWRMultiscale::BandwidthSelectionCriterionType>(GWRMultiscale::CV, GWRMultiscale::AIC));
    same_sw("spatialWeights is unchanged", a.spatialWeights()[0], swsv(0)[0]); same_sw("spatialWeights is unchanged", a.spatialWeights()[1], swsv(0)[1]);
    same("workerId is unchanged", a.workerId(), (int)int_("i_WorkerId0"));
    same("parallelType is unchanged", (int)a.parallelType(), (int)(ParallelType::SerialOnly));
    same("coords is unchanged", a.coords(), mat_("u_Coords0", int_("n"), 2));
}
void claim_set_GWRMultiscale_HasHatMatrix()
{
    GWRMultiscale a; GWRMultiscale_all(a);
    a.setHasHatMatrix(bool_("b_HasHatMatrix1"));
    same("dependentVariable is unchanged", a.dependentVariable(), vec_("y_DependentVariable0", int_("n")));
    same("independentVariables is unchanged", a.independentVariables(), mat_("x_IndependentVariables0", int_("n"), 2));
    same("hasIntercept is unchanged", a.hasIntercept(), bool_("b_HasIntercept0"));
    same("hasHatMatrix reports the value set", a.hasHatMatrix(), bool_("b_HasHatMatrix1"));
    same("bandwidthSelectRetryTimes is unchanged", a.bandwidthSelectRetryTimes(), int_("s_BandwidthSelectRetryTimes0"));
    same("maxIteration is unchanged", a.maxIteration(), int_("s_MaxIteration0"));
    same("criterionType is unchanged", (int)a.criterionType(), (int)(GWRMultiscale::CVR));
    same("criterionThreshold is unchanged", a.criterionThreshold(), real_("r_CriterionThreshold0"));
    same("adaptiveLower is unchanged", a.adaptiveLower(), (int)int_("i_AdaptiveLower0"));
    same_two("preditorCentered is unchanged", a.preditorCentered(), two<bool>(bool_("p_PreditorCentered0"), bool_("q_PreditorCentered0")));
    same_two("bandwidthSelectThreshold is unchanged", a.bandwidthSelectThreshold(), two<double>(real_("p_BandwidthSelectThreshold0"), real_("q_BandwidthSelectThreshold0")));
    same_two("bandwidthInitilize is unchanged", a.bandwidthInitilize(), two<GWRMultiscale::BandwidthInitilizeType>(GWRMultiscale::Initial, GWRMultiscale::Specified));
    same_two("bandwidthSelectionApproach is unchanged", a.bandwidthSelectionApproach(), two<GWRMultiscale::BandwidthSelectionCriterionType>(GWRMultiscale::CV, GWRMultiscale::AIC));
    same_sw("spatialWeights is unchanged", a.spatialWeights()[0], swsv(0)[0]); same_sw("spatialWeights is unchanged", a.spatialWeights()[1], swsv(0)[1]);
    same("workerId is unchanged", a.workerId(), (int)int_("i_WorkerId0"));
    same("parallelType is unchanged", (int)a.parallelType(), (int)(ParallelType::SerialOnly));
    same("coords is unchanged", a.coords(), mat_("u_Coords0", int_("n"), 2));
}
void claim_set_GWRMultiscale_BandwidthSelectRetryTimes()
{
    GWRMultiscale a; GWRMultiscale_all(a);
    a.setBandwidthSelectRetryTimes(int_("s_BandwidthSelectRetryTimes1"));
    same("dependentVariable is unchanged", a.dependentVariable(), vec_("y_DependentVariable0", int_("n")));
    same("independentVariables is unchanged", a.independentVariables(), mat_("x_IndependentVariables0", int_("n"), 2));
    same("hasIntercept is unchanged", a.hasIntercept(), bool_("b_HasIntercept0"));
    same("hasHatMatrix is unchanged", a.hasHatMatrix(), bool_("b_HasHatMatrix0"));
    same("bandwidthSelectRetryTimes reports the value set", a.bandwidthSelectRetryTimes(), int_("s_BandwidthSelectRetryTimes1"));
    same("maxIteration is unchanged", a.maxIteration(), int_("s_MaxIteration0"));
    same("criterionType is unchanged", (int)a.criterionType(), (int)(GWRMultiscale::CVR));
    same("criterionThreshold is unchanged", a.criterionThreshold(), real_("r_CriterionThreshold0"));
    same("adaptiveLower is unchanged", a.adaptiveLower(), (int)int_("i_AdaptiveLower0"));
    same_two("preditorCentered is unchanged", a.preditorCentered(), two<bool>(bool_("p_PreditorCentered0"), bool_("q_PreditorCentered0")));
    same_two("bandwidthSelectThreshold is unchanged", a.bandwidthSelectThreshold(), two<double>(real_("p_BandwidthSelectThreshold0"), real_("q_BandwidthSelectThreshold0")));
    same_two("bandwidthInitilize is unchanged", a.bandwidthInitilize(), two<GWRMultiscale::BandwidthInitilizeType>(GWRMultiscale::Initial, GWRMultiscale::Specified));
    same_two("bandwidthSelectionApproach is unchanged", a.bandwidthSelectionApproach(), two<GWRMultiscale::BandwidthSelectionCriterionType>(GWRMultiscale::CV, GWRMultiscale::AIC));
    same_sw("spatialWeights is unchanged", a.spatialWeights()[0], swsv(0)[0]); same_sw("spatialWeights is unchanged", a.spatialWeights()[1], swsv(0)[1]);
    same("workerId is unchanged", a.workerId(), (int)int_("i_WorkerId0"));
    same("parallelType is unchanged", (int)a.parallelType(), (int)(ParallelType::SerialOnly));
    same("coords is unchanged", a.coords(), mat_("u_Coords0", int_("n"), 2));
}
void claim_set_GWRMultiscale_MaxIteration()
{
    GWRMultiscale a; GWRMultiscale_all(a);
    a.setMaxIteration(int_("s_MaxIteration1"));
    same("dependentVariable is unchanged", a.dependentVariable(), vec_("y_DependentVariable0", int_("n")));
    same("independentVariables is unchanged", a.independentVariables(), mat_("x_IndependentVariables0", int_("n"), 2));
    same("hasIntercept is unchanged", a.hasIntercept(), bool_("b_HasIntercept0"));
    same("hasHatMatrix is unchanged", a.hasHatMatrix(), bool_("b_HasHatMatrix0"));
    same("bandwidthSelectRetryTimes is unchanged", a.bandwidthSelectRetryTimes(), int_("s_BandwidthSelectRetryTimes0"));
    same("maxIteration reports the value set", a.maxIteration(), int_("s_MaxIteration1"));
    same("criterionType is unchanged", (int)a.criterionType(), (int)(GWRMultiscale::CVR));
    same("criterionThreshold is unchanged", a.criterionThreshold(), real_("r_CriterionThreshold0"));
    same("adaptiveLower is unchanged", a.adaptiveLower(), (int)int_("i_AdaptiveLower0"));
    same_two("preditorCentered is unchanged", a.preditorCentered(), two<bool>(bool_("p_PreditorCentered0"), bool_("q_PreditorCentered0")));
    same_two("bandwidthSelectThreshold is unchanged", a.bandwidthSelectThreshold(), two<double>(real_("p_BandwidthSelectThreshold0"), real_("q_BandwidthSelectThreshold0")));
    same_two("bandwidthInitilize is unchanged", a.bandwidthInitilize(), two<GWRMultiscale::BandwidthInitilizeType>(GWRMultiscale::Initial, GWRMultiscale::Specified));
    same_two("bandwidthSelectionApproach is unchanged", a.bandwidthSelectionApproach(), two<GWRMultiscale::BandwidthSelectionCriterionType>(GWRMultiscale::CV, GWRMultiscale::AIC));
    same_sw("spatialWeights is unchanged", a.spatialWeights()[0], swsv(0)[0]); same_sw("spatialWeights is unchanged", a.spatialWeights()[1], swsv(0)[1]);
    same("workerId is unchanged", a.workerId(), (int)int_("i_WorkerId0"));
    same("parallelType is unchanged", (int)a.parallelType(), (int)(ParallelType::SerialOnly));
    same("coords is unchanged", a.coords(), mat_("u_Coords0", int_("n"), 2));
}
void claim_set_GWRMultiscale_CriterionType()
{
    GWRMultiscale a; GWRMultiscale_all(a);
    a.setCriterionType(GWRMultiscale::dCVR);
    same("dependentVariable is unchanged", a.dependentVariable(), vec_("y_DependentVariable0", int_("n")));
    same("independentVariables is unchanged", a.independentVariables(), mat_("x_IndependentVariables0", int_("n"), 2));
    same("hasIntercept is unchanged", a.hasIntercept(), bool_("b_HasIntercept0"));
    same("hasHatMatrix is unchanged", a.hasHatMatrix(), bool_("b_HasHatMatrix0"));
    same("bandwidthSelectRetryTimes is unchanged", a.bandwidthSelectRetryTimes(), int_("s_BandwidthSelectRetryTimes0"));
    same("maxIteration is unchanged", a.maxIteration(), int_("s_MaxIteration0"));
    same("criterionType reports the value set", (int)a.criterionType(), (int)(GWRMultiscale::dCVR));
    same("criterionThreshold is unchanged", a.criterionThreshold(), real_("r_CriterionThreshold0"));
    same("adaptiveLower is unchanged", a.adaptiveLower(), (int)int_("i_AdaptiveLower0"));
    same_two("preditorCentered is unchanged", a.preditorCentered(), two<bool>(bool_("p_PreditorCentered0"), bool_("q_PreditorCentered0")));
    same_two("bandwidthSelectThreshold is unchanged", a.bandwidthSelectThreshold(), two<double>(real_("p_BandwidthSelectThreshold0"), real_("q_BandwidthSelectThreshold0")));
    same_two("bandwidthInitilize is unchanged", a.bandwidthInitilize(), two<GWRMultiscale::BandwidthInitilizeType>(GWRMultiscale::Initial, GWRMultiscale::Specified));
    same_two("bandwidthSelectionApproach is unchanged", a.bandwidthSelectionApproach(), two<GWRMultiscale::BandwidthSelectionCriterionType>(GWRMultiscale::CV, GWRMultiscale::AIC));
    same_sw("spatialWeights is unchanged", a.spatialWeights()[0], swsv(0)[0]); same_sw("spatialWeights is unchanged", a.spatialWeights()[1], swsv(0)[1]);
    same("workerId is unchanged", a.workerId(), (int)int_("i_WorkerId0"));
    same("parallelType is unchanged", (int)a.parallelType(), (int)(ParallelType::SerialOnly));
    same("coords is unchanged", a.coords(), mat_("u_Coords0", int_("n"), 2));
}
void claim_set_GWRMultiscale_CriterionThreshold()
{
    GWRMultiscale a; GWRMultiscale_all(a);
    a.setCriterionThreshold(real_("r_CriterionThreshold1"));
    same("dependentVariable is unchanged", a.dependentVariable(), vec_("y_DependentVariable0", int_("n")));
    same("independentVariables is unchanged", a.independentVariables(), mat_("x_IndependentVariables0", int_("n"), 2));
    same("hasIntercept is unchanged", a.hasIntercept(), bool_("b_HasIntercept0"));
    same("hasHatMatrix is unchanged", a.hasHatMatrix(), bool_("b_HasHatMatrix0"));
    same("bandwidthSelectRetryTimes is unchanged", a.bandwidthSelectRetryTimes(), int_("s_BandwidthSelectRetryTimes0"));
    same("maxIteration is unchanged", a.maxIteration(), int_("s_MaxIteration0"));
    same("criterionType is unchanged", (int)a.criterionType(), (int)(GWRMultiscale::CVR));
    same("criterionThreshold reports the value set", a.criterionThreshold(), real_("r_CriterionThreshold1"));
    same("adaptiveLower is unchanged", a.adaptiveLower(), (int)int_("i_AdaptiveLower0"));
    same_two("preditorCentered is unchanged", a.preditorCentered(), two<bool>(bool_("p_PreditorCentered0"), bool_("q_PreditorCentered0")));
    same_two("bandwidthSelectThreshold is unchanged", a.bandwidthSelectThreshold(), two<double>(real_("p_BandwidthSelectThreshold0"), real_("q_BandwidthSelectThreshold0")));
    same_two("bandwidthInitilize is unchanged", a.bandwidthInitilize(), two<GWRMultiscale::BandwidthInitilizeType>(GWRMultiscale::Initial, GWRMultiscale::Specified));
    same_two("bandwidthSelectionApproach is unchanged", a.bandwidthSelectionApproach(), two<GWRMultiscale::BandwidthSelectionCriterionType>(GWRMultiscale::CV, GWRMultiscale::AIC));
    same_sw("spatialWeights is unchanged", a.spatialWeights()[0], swsv(0)[0]); same_sw("spatialWeights is unchanged", a.spatialWeights()[1], swsv(0)[1]);
    same("workerId is unchanged", a.workerId(), (int)int_("i_WorkerId0"));
    same("parallelType is unchanged", (int)a.parallelType(), (int)(ParallelType::SerialOnly));
    same("coords is unchanged", a.coords(), mat_("u_Coords0", int_("n"), 2));
}
void claim_set_GWRMultiscale_AdaptiveLower()
{
    GWRMultiscale a; GWRMultiscale_all(a);
    a.setAdaptiveLower((int)int_("i_AdaptiveLower1"));
    same("dependentVariable is unchanged", a.dependentVariable(), vec_("y_DependentVariable0", int_("n")));
    same("independentVariables is unchanged", a.independentVariables(), mat_("x_IndependentVariables0", int_("n"), 2));
    same("hasIntercept is unchanged", a.hasIntercept(), bool_("b_HasIntercept0"));
    same("hasHatMatrix is unchanged", a.hasHatMatrix(), bool_("b_HasHatMatrix0"));
    same("bandwidthSelectRetryTimes is unchanged", a.bandwidthSelectRetryTimes(), int_("s_BandwidthSelectRetryTimes0"));
    same("maxIteration is unchanged", a.maxIteration(), int_("s_MaxIteration0"));
    same("criterionType is unchanged", (int)a.criterionType(), (int)(GWRMultiscale::CVR));
    same("criterionThreshold is unchanged", a.criterionThreshold(), real_("r_CriterionThreshold0"));
    same("adaptiveLower reports the value set", a.adaptiveLower(), (int)int_("i_AdaptiveLower1"));
    same_two("preditorCentered is unchanged", a.preditorCentered(), two<bool>(bool_("p_PreditorCentered0"), bool_("q_PreditorCentered0")));
    same_two("bandwidthSelectThreshold is unchanged", a.bandwidthSelectThreshold(), two<double>(real_("p_BandwidthSelectThreshold0"), real_("q_BandwidthSelectThreshold0")));
    same_two("bandwidthInitilize is unchanged", a.bandwidthInitilize(), two<GWRMultiscale::BandwidthInitilizeType>(GWRMultiscale::Initial, GWRMultiscale::Specified));
    same_two("bandwidthSelectionApproach is unchanged", a.bandwidthSelectionApproach(), two<GWRMultiscale::BandwidthSelectionCriterionType>(GWRMultiscale::CV, GWRMultiscale::AIC));
    same_sw("spatialWeights is unchanged", a.spatialWeights()[0], swsv(0)[0]); same_sw("spatialWeights is unchanged", a.spatialWeights()[1], swsv(0)[1]);
    same("workerId is unchanged", a.workerId(), (int)int_("i_WorkerId0"));
    same("parallelType is unchanged", (int)a.parallelType(), (int)(ParallelType::SerialOnly));
    same("coords is unchanged", a.coords(), mat_("u_Coords0", int_("n"), 2));
}
void claim_set_GWRMultiscale_PreditorCentered()
{
    GWRMultiscale a; GWRMultiscale_all(a);
    a.setPreditorCentered(two<bool>(bool_("p_PreditorCentered1"), bool_("q_PreditorCentered1")));
    same("dependentVariable is unchanged", a.dependentVariable(), vec_("y_DependentVariable0", int_("n")));
    same("independentVariables is unchanged", a.independentVariables(), mat_("x_IndependentVariables0", int_("n"), 2));
    same("hasIntercept is unchanged", a.hasIntercept(), bool_("b_HasIntercept0"));
    same("hasHatMatrix is unchanged", a.hasHatMatrix(), bool_("b_HasHatMatrix0"));
    same("bandwidthSelectRetryTimes is unchanged", a.bandwidthSelectRetryTimes(), int_("s_BandwidthSelectRetryTimes0"));
    same("maxIteration is unchanged", a.maxIteration(), int_("s_MaxIteration0"));
    same("criterionType is unchanged", (int)a.criterionType(), (int)(GWRMultiscale::CVR));
    same("criterionThreshold is unchanged", a.criterionThreshold(), real_("r_CriterionThreshold0"));
    same("adaptiveLower is unchanged", a.adaptiveLower(), (int)int_("i_AdaptiveLower0"));
    same_two("preditorCentered reports the value set", a.preditorCentered(), two<bool>(bool_("p_PreditorCentered1"), bool_("q_PreditorCentered1")));
    same_two("bandwidthSelectThreshold is unchanged", a.bandwidthSelectThreshold(), two<double>(real_("p_BandwidthSelectThreshold0"), real_("q_BandwidthSelectThreshold0")));
    same_two("bandwidthInitilize is unchanged", a.bandwidthInitilize(), two<GWRMultiscale::BandwidthInitilizeType>(GWRMultiscale::Initial, GWRMultiscale::Specified));
    same_two("bandwidthSelectionApproach is unchanged", a.bandwidthSelectionApproach(), two<GWRMultiscale::BandwidthSelectionCriterionType>(GWRMultiscale::CV, GWRMultiscale::AIC));
    same_sw("spatialWeights is unchanged", a.spatialWeights()[0], swsv(0)[0]); same_sw("spatialWeights is unchanged", a.spatialWeights()[1], swsv(0)[1]);
    same("workerId is unchanged", a.workerId(), (int)int_("i_WorkerId0"));
    same("parallelType is unchanged", (int)a.parallelType(), (int)(ParallelType::SerialOnly));
    same("coords is unchanged", a.coords(), mat_("u_Coords0", int_("n"), 2));
}
void claim_set_GWRMultiscale_BandwidthSelectThreshold()
{
    GWRMultiscale a; GWRMultiscale_all(a);
    a.setBandwidthSelectThreshold(two<double>(real_("p_BandwidthSelectThreshold1"), real_("q_BandwidthSelectThreshold1")));
    same("dependentVariable is unchanged", a.dependentVariable(), vec_("y_DependentVariable0", int_("n")));
    same("independentVariables is unchanged", a.independentVariables(), mat_("x_IndependentVariables0", int_("n"), 2));
    same("hasIntercept is unchanged", a.hasIntercept(), bool_("b_HasIntercept0"));
    same("hasHatMatrix is unchanged", a.hasHatMatrix(), bool_("b_HasHatMatrix0"));
    same("bandwidthSelectRetryTimes is unchanged", a.bandwidthSelectRetryTimes(), int_("s_BandwidthSelectRetryTimes0"));
    same("maxIteration is unchanged", a.maxIteration(), int_("s_MaxIteration0"));
    same("criterionType is unchanged", (int)a.criterionType(), (int)(GWRMultiscale::CVR));
    same("criterionThreshold is unchanged", a.criterionThreshold(), real_("r_CriterionThreshold0"));
    same("adaptiveLower is unchanged", a.adaptiveLower(), (int)int_("i_AdaptiveLower0"));
    same_two("preditorCentered is unchanged", a.preditorCentered(), two<bool>(bool_("p_PreditorCentered0"), bool_("q_PreditorCentered0")));
    same_two("bandwidthSelectThreshold reports the value set", a.bandwidthSelectThreshold(), two<double>(real_("p_BandwidthSelectThreshold1"), real_("q_BandwidthSelectThreshold1")));
    same_two("bandwidthInitilize is unchanged", a.bandwidthInitilize(), two<GWRMultiscale::BandwidthInitilizeType>(GWRMultiscale::Initial, GWRMultiscale::Specified));
    same_two("bandwidthSelectionApproach is unchanged", a.bandwidthSelectionApproach(), two<GWRMultiscale::BandwidthSelectionCriterionType>(GWRMultiscale::CV, GWRMultiscale::AIC));
    same_sw("spatialWeights is unchanged", a.spatialWeights()[0], swsv(0)[0]); same_sw("spatialWeights is unchanged", a.spatialWeights()[1], swsv(0)[1]);
    same("workerId is unchanged", a.workerId(), (int)int_("i_WorkerId0"));
    same("parallelType is unchanged", (int)a.parallelType(), (int)(ParallelType::SerialOnly));
    same("coords is unchanged", a.coords(), mat_("u_Coords0", int_("n"), 2));
}
void claim_set_GWRMultiscale_BandwidthInitilize()
{
    GWRMultiscale a; GWRMultiscale_all(a);
    a.setBandwidthInitilize(two<GWRMultiscale::BandwidthInitilizeType>(GWRMultiscale::Specified, GWRMultiscale::Null));
    same("dependentVariable is unchanged", a.dependentVariable(), vec_("y_DependentVariable0", int_("n")));
    same("independentVariables is unchanged", a.independentVariables(), mat_("x_IndependentVariables0", int_("n"), 2));
    same("hasIntercept is unchanged", a.hasIntercept(), bool_("b_HasIntercept0"));
    same("hasHatMatrix is unchanged", a.hasHatMatrix(), bool_("b_HasHatMatrix0"));
    same("bandwidthSelectRetryTimes is unchanged", a.bandwidthSelectRetryTimes(), int_("s_BandwidthSelectRetryTimes0"));
    same("maxIteration is unchanged", a.maxIteration(), int_("s_MaxIteration0"));
    same("criterionType is unchanged", (int)a.criterionType(), (int)(GWRMultiscale::CVR));
    same("criterionThreshold is unchanged", a.criterionThreshold(), real_("r_CriterionThreshold0"));
    same("adaptiveLower is unchanged", a.adaptiveLower(), (int)int_("i_AdaptiveLower0"));
    same_two("preditorCentered is unchanged", a.preditorCentered(), two<bool>(bool_("p_PreditorCentered0"), bool_("q_PreditorCentered0")));
    same_two("bandwidthSelectThreshold is unchanged", a.bandwidthSelectThreshold(), two<double>(real_("p_BandwidthSelectThreshold0"), real_("q_BandwidthSelectThreshold0")));
    same_two("bandwidthInitilize reports the value set", a.bandwidthInitilize(), two<GWRMultiscale::BandwidthInitilizeType>(GWRMultiscale::Specified, GWRMultiscale::Null));
    same_two("bandwidthSelectionApproach is unchanged", a.bandwidthSelectionApproach(), two<GWRMultiscale::BandwidthSelectionCriterionType>(GWRMultiscale::CV, GWRMultiscale::AIC));
    same_sw("spatialWeights is unchanged", a.spatialWeights()[0], swsv(0)[0]); same_sw("spatialWeights is unchanged", a.spatialWeights()[1], swsv(0)[1]);
    same("workerId is unchanged", a.workerId(), (int)int_("i_WorkerId0"));
    same("parallelType is unchanged", (int)a.parallelType(), (int)(ParallelType::SerialOnly));
    same("coords is unchanged", a.coords(), mat_("u_Coords0", int_("n"), 2));
}
void claim_set_GWRMultiscale_BandwidthSelectionApproach()
{
    GWRMultiscale a; GWRMultiscale_all(a);
    a.setBandwidthSelectionApproach(two<GWRMultiscale::BandwidthSelectionCriterionType>(GWRMultiscale::AIC, GWRMultiscale::AIC));
    same("dependentVariable is unchanged", a.dependentVariable(), vec_("y_DependentVariable0", int_("n")));
    same("independentVariables is unchanged", a.independentVariables(), mat_("x_IndependentVariables0", int_("n"), 2));
    same("hasIntercept is unchanged", a.hasIntercept(), bool_("b_HasIntercept0"));
    same("hasHatMatrix is unchanged", a.hasHatMatrix(), bool_("b_HasHatMatrix0"));
    same("bandwidthSelectRetryTimes is unchanged", a.bandwidthSelectRetryTimes(), int_("s_BandwidthSelectRetryTimes0"));
    same("maxIteration is unchanged", a.maxIteration(), int_("s_MaxIteration0"));
    same("criterionType is unchanged", (int)a.criterionType(), (int)(GWRMultiscale::CVR));
    same("criterionThreshold is unchanged", a.criterionThreshold(), real_("r_CriterionThreshold0"));
    same("adaptiveLower is unchanged", a.adaptiveLower(), (int)int_("i_AdaptiveLower0"));
    same_two("preditorCentered is unchanged", a.preditorCentered(), two<bool>(bool_("p_PreditorCentered0"), bool_("q_PreditorCentered0")));
    same_two("bandwidthSelectThreshold is unchanged", a.bandwidthSelectThreshold(), two<double>(real_("p_BandwidthSelectThreshold0"), real_("q_BandwidthSelectThreshold0")));
    same_two("bandwidthInitilize is unchanged", a.bandwidthInitilize(), two<GWRMultiscale::BandwidthInitilizeType>(GWRMultiscale::Initial, GWRMultiscale::Specified));
    same_two("bandwidthSelectionApproach reports the value set", a.bandwidthSelectionApproach(), two<GWRMultiscale::BandwidthSelectionCriterionType>(GWRMultiscale::AIC, GWRMultiscale::AIC));
    same_sw("spatialWeights is unchanged", a.spatialWeights()[0], swsv(0)[0]); same_sw("spatialWeights is unchanged", a.spatialWeights()[1], swsv(0)[1]);
    same("workerId is unchanged", a.workerId(), (int)int_("i_WorkerId0"));
    same("parallelType is unchanged", (int)a.parallelType(), (int)(ParallelType::SerialOnly));
    same("coords is unchanged", a.coords(), mat_("u_Coords0", int_("n"), 2));
}
void claim_set_GWRMultiscale_SpatialWeights()
{
    GWRMultiscale a; GWRMultiscale_all(a);
    a.setSpatialWeights(swsv(1));
    same("dependentVariable is unchanged", a.dependentVariable(), vec_("y_DependentVariable0", int_("n")));
    same("independentVariables is unchanged", a.independentVariables(), mat_("x_IndependentVariables0", int_("n"), 2));
    same("hasIntercept is unchanged", a.hasIntercept(), bool_("b_HasIntercept0"));
    same("hasHatMatrix is unchanged", a.hasHatMatrix(), bool_("b_HasHatMatrix0"));
    same("bandwidthSelectRetryTimes is unchanged", a.bandwidthSelectRetryTimes(), int_("s_BandwidthSelectRetryTimes0"));
    same("maxIteration is unchanged", a.maxIteration(), int_("s_MaxIteration0"));
    same("criterionType is unchanged", (int)a.criterionType(), (int)(GWRMultiscale::CVR));
    same("criterionThreshold is unchanged", a.criterionThreshold(), real_("r_CriterionThreshold0"));
    same("adaptiveLower is unchanged", a.adaptiveLower(), (int)int_("i_AdaptiveLower0"));
    same_two("preditorCentered is unchanged", a.preditorCentered(), two<bool>(bool_("p_PreditorCentered0"), bool_("q_PreditorCentered0")));
    same_two("bandwidthSelectThreshold is unchanged", a.bandwidthSelectThreshold(), two<double>(real_("p_BandwidthSelectThreshold0"), real_("q_BandwidthSelectThreshold0")));
    same_two("bandwidthInitilize is unchanged", a.bandwidthInitilize(), two<GWRMultiscale::BandwidthInitilizeType>(GWRMultiscale::Initial, GWRMultiscale::Specified));
    same_two("bandwidthSelectionApproach is unchanged", a.bandwidthSelectionApproach(), two<GWRMultiscale::BandwidthSelectionCriterionType>(GWRMultiscale::CV, GWRMultiscale::AIC));
    same_sw("spatialWeights reports the value set", a.spatialWeights()[0], swsv(1)[0]); same_sw("spatialWeights reports the value set", a.spatialWeights()[1], swsv(1)[1]);
    same("workerId is unchanged", a.workerId(), (int)int_("i_WorkerId0"));
    same("parallelType is unchanged", (int)a.parallelType(), (int)(ParallelType::SerialOnly));
    same("coords is unchanged", a.coords(), mat_("u_Coords0", int_("n"), 2));
}
void claim_set_GWRMultiscale_WorkerId()
{
    GWRMultiscale a; GWRMultiscale_all(a);
    a.setWorkerId((int)int_("i_WorkerId1"));
    same("dependentVariable is unchanged", a.dependentVariable(), vec_("y_DependentVariable0", int_("n")));
    same("independentVariables is unchanged", a.independentVariables(), mat_("x_IndependentVariables0", int_("n"), 2));
    same("hasIntercept is unchanged", a.hasIntercept(), bool_("b_HasIntercept0"));
    same("hasHatMatrix is unchanged", a.hasHatMatrix(), bool_("b_HasHatMatrix0"));
    same("bandwidthSelectRetryTimes is unchanged", a.bandwidthSelectRetryTimes(), int_("s_BandwidthSelectRetryTimes0"));
    same("maxIteration is unchanged", a.maxIteration(), int_("s_MaxIteration0"));
    same("criterionType is unchanged", (int)a.criterionType(), (int)(GWRMultiscale::CVR));
    same("criterionThreshold is unchanged", a.criterionThreshold(), real_("r_CriterionThreshold0"));
    same("adaptiveLower is unchanged", a.adaptiveLower(), (int)int_("i_AdaptiveLower0"));
    same_two("preditorCentered is unchanged", a.preditorCentered(), two<bool>(bool_("p_PreditorCentered0"), bool_("q_PreditorCentered0")));
    same_two("bandwidthSelectThreshold is unchanged", a.bandwidthSelectThreshold(), two<double>(real_("p_BandwidthSelectThreshold0"), real_("q_BandwidthSelectThreshold0")));
    same_two("bandwidthInitilize is unchanged", a.bandwidthInitilize(), two<GWRMultiscale::BandwidthInitilizeType>(GWRMultiscale::Initial, GWRMultiscale::Specified));
    same_two("bandwidthSelectionApproach is unchanged", a.bandwidthSelectionApproach(), two<GWRMultiscale::BandwidthSelectionCriterionType>(GWRMultiscale::CV, GWRMultiscale::AIC));
    same_sw("spatialWeights is unchanged", a.spatialWeights()[0], swsv(0)[0]); same_sw("spatialWeights is unchanged", a.spatialWeights()[1], swsv(0)[1]);
    same("workerId reports the value set", a.workerId(), (int)int_("i_WorkerId1"));
    same("parallelType is unchanged", (int)a.parallelType(), (int)(ParallelType::SerialOnly));
    same("coords is unchanged", a.coords(), mat_("u_Coords0", int_("n"), 2));
}
void claim_set_GWRMultiscale_ParallelType()
{
    GWRMultiscale a; GWRMultiscale_all(a);
    a.setParallelType(ParallelType::OpenMP);
    same("dependentVariable is unchanged", a.dependentVariable(), vec_("y_DependentVariable0", int_("n")));
    same("independentVariables is unchanged", a.independentVariables(), mat_("x_IndependentVariables0", int_("n"), 2));
    same("hasIntercept is unchanged", a.hasIntercept(), bool_("b_HasIntercept0"));
    same("hasHatMatrix is unchanged", a.hasHatMatrix(), bool_("b_HasHatMatrix0"));
    same("bandwidthSelectRetryTimes is unchanged", a.bandwidthSelectRetryTimes(), int_("s_BandwidthSelectRetryTimes0"));
    same("maxIteration is unchanged", a.maxIteration(), int_("s_MaxIteration0"));
    same("criterionType is unchanged", (int)a.criterionType(), (int)(GWRMultiscale::CVR));
    same("criterionThreshold is unchanged", a.criterionThreshold(), real_("r_CriterionThreshold0"));
    same("adaptiveLower is unchanged", a.adaptiveLower(), (int)int_("i_AdaptiveLower0"));
    same_two("preditorCentered is unchanged", a.preditorCentered(), two<bool>(bool_("p_PreditorCentered0"), bool_("q_PreditorCentered0")));
    same_two("bandwidthSelectThreshold is unchanged", a.bandwidthSelectThreshold(), two<double>(real_("p_BandwidthSelectThreshold0"), real_("q_BandwidthSelectThreshold0")));
    same_two("bandwidthInitilize is unchanged", a.bandwidthInitilize(), two<GWRMultiscale::BandwidthInitilizeType>(GWRMultiscale::Initial, GWRMultiscale::Specified));
    same_two("bandwidthSelectionApproach is unchanged", a.bandwidthSelectionApproach(), two<GWRMultiscale::BandwidthSelectionCriterionType>(GWRMultiscale::CV, GWRMultiscale::AIC));
    same_sw("spatialWeights is unchanged", a.spatialWeights()[0], swsv(0)[0]); same_sw("spatialWeights is unchanged", a.spatialWeights()[1], swsv(0)[1]);
    same("workerId is unchanged", a.workerId(), (int)int_("i_WorkerId0"));
    same("parallelType reports the value set", (int)a.parallelType(), (int)(ParallelType::OpenMP));
    same("coords is unchanged", a.coords(), mat_("u_Coords0", int_("n"), 2));
}
void claim_set_GWRMultiscale_Coords()
{
    GWRMultiscale a; GWRMultiscale_all(a);
    a.setCoords(mat_("u_Coords1", int_("n"), 2));
    same("dependentVariable is unchanged", a.dependentVariable(), vec_("y_DependentVariable0", int_("n")));
    same("independentVariables is unchanged", a.independentVariables(), mat_("x_IndependentVariables0", int_("n"), 2));
    same("hasIntercept is unchanged", a.hasIntercept(), bool_("b_HasIntercept0"));
    same("hasHatMatrix is unchanged", a.hasHatMatrix(), bool_("b_HasHatMatrix0"));
    same("bandwidthSelectRetryTimes is unchanged", a.bandwidthSelectRetryTimes(), int_("s_BandwidthSelectRetryTimes0"));
    same("maxIteration is unchanged", a.maxIteration(), int_("s_MaxIteration0"));
    same("criterionType is unchanged", (int)a.criterionType(), (int)(GWRMultiscale::CVR));
    same("criterionThreshold is unchanged", a.criterionThreshold(), real_("r_CriterionThreshold0"));
    same("adaptiveLower is unchanged", a.adaptiveLower(), (int)int_("i_AdaptiveLower0"));
    same_two("preditorCentered is unchanged", a.preditorCentered(), two<bool>(bool_("p_PreditorCentered0"), bool_("q_PreditorCentered0")));
    same_two("bandwidthSelectThreshold is unchanged", a.bandwidthSelectThreshold(), two<double>(real_("p_BandwidthSelectThreshold0"), real_("q_BandwidthSelectThreshold0")));
    same_two("bandwidthInitilize is unchanged", a.bandwidthInitilize(), two<GWRMultiscale::BandwidthInitilizeType>(GWRMultiscale::Initial, GWRMultiscale::Specified));
    same_two("bandwidthSelectionApproach is unchanged", a.bandwidthSelectionApproach(), two<GWRMultiscale::BandwidthSelectionCriterionType>(GWRMultiscale::CV, GWRMultiscale::AIC));
    same_sw("spatialWeights is unchanged", a.spatialWeights()[0], swsv(0)[0]); same_sw("spatialWeights is unchanged", a.spatialWeights()[1], swsv(0)[1]);
    same("workerId is unchanged", a.workerId(), (int)int_("i_WorkerId0"));
    same("parallelType is unchanged", (int)a.parallelType(), (int)(ParallelType::SerialOnly));
    same("coords reports the value set", a.coords(), mat_("u_Coords1", int_("n"), 2));
}
static void GWRRobust_all(GWRRobust& a)
{
    a.setFiltered(bool_("b_Filtered0"));
    a.setIsAutoselectBandwidth(bool_("b_IsAutoselectBandwidth0"));
    a.setBandwidthSelectionCriterion(GWRBasic::CV);
    a.setIsAutoselectIndepVars(bool_("b_IsAutoselectIndepVars0"));
    a.setIndepVarSelectionThreshold(real_("r_IndepVarSelectionThreshold0"));
    a.setHasHatMatrix(bool_("b_HasHatMatrix0"));
    a.setStoreS(bool_("b_StoreS0"));
    a.setStoreC(bool_("b_StoreC0"));
    a.setWorkerId((int)int_("i_WorkerId0"));
    a.setParallelType(ParallelType::SerialOnly);
    a.setDependentVariable(vec_("y_DependentVariable0", int_("n")));
    a.setIndependentVariables(mat_("x_IndependentVariables0", int_("n"), int_("k")));
    a.setHasIntercept(bool_("b_HasIntercept0"));
    a.setCoords(mat_("u_Coords0", int_("n"), 2));
    a.setSpatialWeight(swv(0));
}
void claim_set_GWRRobust_Filtered()
{
    GWRRobust a; GWRRobust_all(a);
    a.setFiltered(bool_("b_Filtered1"));
    same("filtered reports the value set", a.filtered(), bool_("b_Filtered1"));
    same("isAutoselectBandwidth is unchanged", a.isAutoselectBandwidth(), bool_("b_IsAutoselectBandwidth0"));
    same("bandwidthSelectionCriterion is unchanged", (int)a.bandwidthSelectionCriterion(), (int)(GWRBasic::CV));
    same("isAutoselectIndepVars is unchanged", a.isAutoselectIndepVars(), bool_("b_IsAutoselectIndepVars0"));
    same("indepVarSelectionThreshold is unchanged", a.indepVarSelectionThreshold(), real_("r_IndepVarSelectionThreshold0"));
    same("hasHatMatrix is unchanged", a.hasHatMatrix(), bool_("b_HasHatMatrix0"));
    same("isStoreS is unchanged", a.isStoreS(), bool_("b_StoreS0") || (bool_("b_HasHatMatrix0") && int_("n") < 8192));
    same("isStoreC is unchanged", a.isStoreC(), bool_("b_StoreC0"));
    same("workerId is unchanged", a.workerId(), (int)int_("i_WorkerId0"));
    same("parallelType is unchanged", (int)a.parallelType(), (int)(ParallelType::SerialOnly));
    same("dependentVariable is unchanged", a.dependentVariable(), vec_("y_DependentVariable0", int_("n")));
    same("independentVariables is unchanged", a.independentVariables(), mat_("x_IndependentVariables0", int_("n"), int_("k")));
    same("hasIntercept is unchanged", a.hasIntercept(), bool_("b_HasIntercept0"));
    same("coords is unchanged", a.coords(), mat_("u_Coords0", int_("n"), 2));
    same_sw("spatialWeight is unchanged", a.spatialWeight(), swv(0));
}
void claim_set_GWRRobust_IsAutoselectBandwidth()
{
    GWRRobust a; GWRRobust_all(a);
    a.setIsAutoselectBandwidth(bool_("b_IsAutoselectBandwidth1"));
    same("filtered is unchanged", a.filtered(), bool_("b_Filtered0"));
    same("isAutoselectBandwidth reports the value set", a.isAutoselectBandwidth(), bool_("b_IsAutoselectBandwidth1"));
    same("bandwidthSelectionCriterion is unchanged", (int)a.bandwidthSelectionCriterion(), (int)(GWRBasic::CV));
    same("isAutoselectIndepVars is unchanged", a.isAutoselectIndepVars(), bool_("b_IsAutoselectIndepVars0"));
    same("indepVarSelectionThreshold is unchanged", a.indepVarSelectionThreshold(), real_("r_IndepVarSelectionThreshold0"));
    same("hasHatMatrix is unchanged", a.hasHatMatrix(), bool_("b_HasHatMatrix0"));
    same("isStoreS is unchanged", a.isStoreS(), bool_("b_StoreS0") || (bool_("b_HasHatMatrix0") && int_("n") < 8192));
    same("isStoreC is unchanged", a.isStoreC(), bool_("b_StoreC0"));
    same("workerId is unchanged", a.workerId(), (int)int_("i_WorkerId0"));
    same("parallelType is unchanged", (int)a.parallelType(), (int)(ParallelType::SerialOnly));
    same("dependentVariable is unchanged", a.dependentVariable(), vec_("y_DependentVariable0", int_("n")));
    same("independentVariables is unchanged", a.independentVariables(), mat_("x_IndependentVariables0", int_("n"), int_("k")));
    same("hasIntercept is unchanged", a.hasIntercept(), bool_("b_HasIntercept0"));
    same("coords is unchanged", a.coords(), mat_("u_Coords0", int_("n"), 2));
    same_sw("spatialWeight is unchanged", a.spatialWeight(), swv(0));
}
void claim_set_GWRRobust_BandwidthSelectionCriterion()
{
    GWRRobust a; GWRRobust_all(a);
    a.setBandwidthSelectionCriterion(GWRBasic::AIC);
    same("filtered is unchanged", a.filtered(), bool_("b_Filtered0"));
    same("isAutoselectBandwidth is unchanged", a.isAutoselectBandwidth(), bool_("b_IsAutoselectBandwidth0"));
    same("bandwidthSelectionCriterion reports the value set", (int)a.bandwidthSelectionCriterion(), (int)(GWRBasic::AIC));
    same("isAutoselectIndepVars is unchanged", a.isAutoselectIndepVars(), bool_("b_IsAutoselectIndepVars0"));
    same("indepVarSelectionThreshold is unchanged", a.indepVarSelectionThreshold(), real_("r_IndepVarSelectionThreshold0"));
    same("hasHatMatrix is unchanged", a.hasHatMatrix(), bool_("b_HasHatMatrix0"));
    same("isStoreS is unchanged", a.isStoreS(), bool_("b_StoreS0") || (bool_("b_HasHatMatrix0") && int_("n") < 8192));
    same("isStoreC is unchanged", a.isStoreC(), bool_("b_StoreC0"));
    same("workerId is unchanged", a.workerId(), (int)int_("i_WorkerId0"));
    same("parallelType is unchanged", (int)a.parallelType(), (int)(ParallelType::SerialOnly));
    same("dependentVariable is unchanged", a.dependentVariable(), vec_("y_DependentVariable0", int_("n")));
    same("independentVariables is unchanged", a.independentVariables(), mat_("x_IndependentVariables0", int_("n"), int_("k")));
    same("hasIntercept is unchanged", a.hasIntercept(), bool_("b_HasIntercept0"));
    same("coords is unchanged", a.coords(), mat_("u_Coords0", int_("n"), 2));
    same_sw("spatialWeight is unchanged", a.spatialWeight(), swv(0));
}
void claim_set_GWRRobust_IsAutoselectIndepVars()
{
    GWRRobust a; GWRRobust_all(a);
    a.setIsAutoselectIndepVars(bool_("b_IsAutoselectIndepVars1"));
    same("filtered is unchanged", a.filtered(), bool_("b_Filtered0"));
    same("isAutoselectBandwidth is unchanged", a.isAutoselectBandwidth(), bool_("b_IsAutoselectBandwidth0"));
    same("bandwidthSelectionCriterion is unchanged", (int)a.bandwidthSelectionCriterion(), (int)(GWRBasic::CV));
    same("isAutoselectIndepVars reports the value set", a.isAutoselectIndepVars(), bool_("b_IsAutoselectIndepVars1"));
    same("indepVarSelectionThreshold is unchanged", a.indepVarSelectionThreshold(), real_("r_IndepVarSelectionThreshold0"));
    same("hasHatMatrix is unchanged", a.hasHatMatrix(), bool_("b_HasHatMatrix0"));
    same("isStoreS is unchanged", a.isStoreS(), bool_("b_StoreS0") || (bool_("b_HasHatMatrix0") && int_("n") < 8192));
    same("isStoreC is unchanged", a.isStoreC(), bool_("b_StoreC0"));
    same("workerId is unchanged", a.workerId(), (int)int_("i_WorkerId0"));
    same("parallelType is unchanged", (int)a.parallelType(), (int)(ParallelType::SerialOnly));
    same("dependentVariable is unchanged", a.dependentVariable(), vec_("y_DependentVariable0", int_("n")));
    same("independentVariables is unchanged", a.independentVariables(), mat_("x_IndependentVariables0", int_("n"), int_("k")));
    same("hasIntercept is unchanged", a.hasIntercept(), bool_("b_HasIntercept0"));
    same("coords is unchanged", a.coords(), mat_("u_Coords0", int_("n"), 2));
    same_sw("spatialWeight is unchanged", a.spatialWeight(), swv(0));
}
void claim_set_GWRRobust_IndepVarSelectionThreshold()
{
    GWRRobust a; GWRRobust_all(a);
    a.setIndepVarSelectionThreshold(real_("r_IndepVarSelectionThreshold1"));
    same("filtered is unchanged", a.filtered(), bool_("b_Filtered0"));
    same("isAutoselectBandwidth is unchanged", a.isAutoselectBandwidth(), bool_("b_IsAutoselectBandwidth0"));
    same("bandwidthSelectionCriterion is unchanged", (int)a.bandwidthSelectionCriterion(), (int)(GWRBasic::CV));
    same("isAutoselectIndepVars is unchanged", a.isAutoselectIndepVars(), bool_("b_IsAutoselectIndepVars0"));
    same("indepVarSelectionThreshold reports the value set", a.indepVarSelectionThreshold(), real_("r_IndepVarSelectionThreshold1"));
    same("hasHatMatrix is unchanged", a.hasHatMatrix(), bool_("b_HasHatMatrix0"));
    same("isStoreS is unchanged", a.isStoreS(), bool_("b_StoreS0") || (bool_("b_HasHatMatrix0") && int_("n") < 8192));
    same("isStoreC is unchanged", a.isStoreC(), bool_("b_StoreC0"));
    same("workerId is unchanged", a.workerId(), (int)int_("i_WorkerId0"));
    same("parallelType is unchanged", (int)a.parallelType(), (int)(ParallelType::SerialOnly));
    same("dependentVariable is unchanged", a.dependentVariable(), vec_("y_DependentVariable0", int_("n")));
    same("independentVariables is unchanged", a.independentVariables(), mat_("x_IndependentVariables0", int_("n"), int_("k")));
    same("hasIntercept is unchanged", a.hasIntercept(), bool_("b_HasIntercept0"));
    same("coords is unchanged", a.coords(), mat_("u_Coords0", int_("n"), 2));
    same_sw("spatialWeight is unchanged", a.spatialWeight(), swv(0));
}
void claim_set_GWRRobust_HasHatMatrix()
{
    GWRRobust a; GWRRobust_all(a);
    a.setHasHatMatrix(bool_("b_HasHatMatrix1"));
    same("filtered is unchanged", a.filtered(), bool_("b_Filtered0"));
    same("isAutoselectBandwidth is unchanged", a.isAutoselectBandwidth(), bool_("b_IsAutoselectBandwidth0"));
    same("bandwidthSelectionCriterion is unchanged", (int)a.bandwidthSelectionCriterion(), (int)(GWRBasic::CV));
    same("isAutoselectIndepVars is unchanged", a.isAutoselectIndepVars(), bool_("b_IsAutoselectIndepVars0"));
    same("indepVarSelectionThreshold is unchanged", a.indepVarSelectionThreshold(), real_("r_IndepVarSelectionThreshold0"));
    same("hasHatMatrix reports the value set", a.hasHatMatrix(), bool_("b_HasHatMatrix1"));
    same("isStoreS is unchanged", a.isStoreS(), bool_("b_StoreS0") || (bool_("b_HasHatMatrix1") && int_("n") < 8192));
    same("isStoreC is unchanged", a.isStoreC(), bool_("b_StoreC0"));
    same("workerId is unchanged", a.workerId(), (int)int_("i_WorkerId0"));
    same("parallelType is unchanged", (int)a.parallelType(), (int)(ParallelType::SerialOnly));
    same("dependentVariable is unchanged", a.dependentVariable(), vec_("y_DependentVariable0", int_("n")));
    same("independentVariables is unchanged", a.independentVariables(), mat_("x_IndependentVariables0", int_("n"), int_("k")));
    same("hasIntercept is unchanged", a.hasIntercept(), bool_("b_HasIntercept0"));
    same("coords is unchanged", a.coords(), mat_("u_Coords0", int_("n"), 2));
    same_sw("spatialWeight is unchanged", a.spatialWeight(), swv(0));
}
void claim_set_GWRRobust_StoreS()
{
    GWRRobust a; GWRRobust_all(a);
    a.setStoreS(bool_("b_StoreS1"));
    same("filtered is unchanged", a.filtered(), bool_("b_Filtered0"));
    same("isAutoselectBandwidth is unchanged", a.isAutoselectBandwidth(), bool_("b_IsAutoselectBandwidth0"));
    same("bandwidthSelectionCriterion is unchanged", (int)a.bandwidthSelectionCriterion(), (int)(GWRBasic::CV));
    same("isAutoselectIndepVars is unchanged", a.isAutoselectIndepVars(), bool_("b_IsAutoselectIndepVars0"));
    same("indepVarSelectionThreshold is unchanged", a.indepVarSelectionThreshold(), real_("r_IndepVarSelectionThreshold0"));
    same("hasHatMatrix is unchanged", a.hasHatMatrix(), bool_("b_HasHatMatrix0"));
    same("isStoreS reports the value set", a.isStoreS(), bool_("b_StoreS1") || (bool_("b_HasHatMatrix0") && int_("n") < 8192));
    same("isStoreC is unchanged", a.isStoreC(), bool_("b_StoreC0"));
    same("workerId is unchanged", a.workerId(), (int)int_("i_WorkerId0"));
    same("parallelType is unchanged", (int)a.parallelType(), (int)(ParallelType::SerialOnly));
    same("dependentVariable is unchanged", a.dependentVariable(), vec_("y_DependentVariable0", int_("n")));
    same("independentVariables is unchanged", a.independentVariables(), mat_("x_IndependentVariables0", int_("n"), int_("k")));
    same("hasIntercept is unchanged", a.hasIntercept(), bool_("b_HasIntercept0"));
    same("coords is unchanged", a.coords(), mat_("u_Coords0", int_("n"), 2));
    same_sw("spatialWeight is unchanged", a.spatialWeight(), swv(0));
}
void claim_set_GWRRobust_StoreC()
{
    GWRRobust a; GWRRobust_all(a);
    a.setStoreC(bool_("b_StoreC1"));
    same("filtered is unchanged", a.filtered(), bool_("b_Filtered0"));
    same("isAutoselectBandwidth is unchanged", a.isAutoselectBandwidth(), bool_("b_IsAutoselectBandwidth0"));
    same("bandwidthSelectionCriterion is unchanged", (int)a.bandwidthSelectionCriterion(), (int)(GWRBasic::CV));
    same("isAutoselectIndepVars is unchanged", a.isAutoselectIndepVars(), bool_("b_IsAutoselectIndepVars0"));
    same("indepVarSelectionThreshold is unchanged", a.indepVarSelectionThreshold(), real_("r_IndepVarSelectionThreshold0"));
    same("hasHatMatrix is unchanged", a.hasHatMatrix(), bool_("b_HasHatMatrix0"));
    same("isStoreS is unchanged", a.isStoreS(), bool_("b_StoreS0") || (bool_("b_HasHatMatrix0") && int_("n") < 8192));
    same("isStoreC reports the value set", a.isStoreC(), bool_("b_StoreC1"));
    same("workerId is unchanged", a.workerId(), (int)int_("i_WorkerId0"));
    same("parallelType is unchanged", (int)a.parallelType(), (int)(ParallelType::SerialOnly));
    same("dependentVariable is unchanged", a.dependentVariable(), vec_("y_DependentVariable0", int_("n")));
    same("independentVariables is unchanged", a.independentVariables(), mat_("x_IndependentVariables0", int_("n"), int_("k")));
    same("hasIntercept is unchanged", a.hasIntercept(), bool_("b_HasIntercept0"));
    same("coords is unchanged", a.coords(), mat_("u_Coords0", int_("n"), 2));
    same_sw("spatialWeight is unchanged", a.spatialWeight(), swv(0));
}
void claim_set_GWRRobust_WorkerId()
{
    GWRRobust a; GWRRobust_all(a);
    a.setWorkerId((int)int_("i_WorkerId1"));
    same("filtered is unchanged", a.filtered(), bool_("b_Filtered0"));
    same("isAutoselectBandwidth is unchanged", a.isAutoselectBandwidth(), bool_("b_IsAutoselectBandwidth0"));
    same("bandwidthSelectionCriterion is unchanged", (int)a.bandwidthSelectionCriterion(), (int)(GWRBasic::CV));
    same("isAutoselectIndepVars is unchanged", a.isAutoselectIndepVars(), bool_("b_IsAutoselectIndepVars0"));
    same("indepVarSelectionThreshold is unchanged", a.indepVarSelectionThreshold(), real_("r_IndepVarSelectionThreshold0"));
    same("hasHatMatrix is unchanged", a.hasHatMatrix(), bool_("b_HasHatMatrix0"));
    same("isStoreS is unchanged", a.isStoreS(), bool_("b_StoreS0") || (bool_("b_HasHatMatrix0") && int_("n") < 8192));
    same("isStoreC is unchanged", a.isStoreC(), bool_("b_StoreC0"));
    same("workerId reports the value set", a.workerId(), (int)int_("i_WorkerId1"));
    same("parallelType is unchanged", (int)a.parallelType(), (int)(ParallelType::SerialOnly));
    same("dependentVariable is unchanged", a.dependentVariable(), vec_("y_DependentVariable0", int_("n")));
    same("independentVariables is unchanged", a.independentVariables(), mat_("x_IndependentVariables0", int_("n"), int_("k")));
    same("hasIntercept is unchanged", a.hasIntercept(), bool_("b_HasIntercept0"));
    same("coords is unchanged", a.coords(), mat_("u_Coords0", int_("n"), 2));
    same_sw("spatialWeight is unchanged", a.spatialWeight(), swv(0));
}
void claim_set_GWRRobust_ParallelType()
{
    GWRRobust a; GWRRobust_all(a);
    a.setParallelType(ParallelType::OpenMP);
    same("filtered is unchanged", a.filtered(), bool_("b_Filtered0"));
    same("isAutoselectBandwidth is unchanged", a.isAutoselectBandwidth(), bool_("b_IsAutoselectBandwidth0"));
    same("bandwidthSelectionCriterion is unchanged", (int)a.bandwidthSelectionCriterion(), (int)(GWRBasic::CV));
    same("isAutoselectIndepVars is unchanged", a.isAutoselectIndepVars(), bool_("b_IsAutoselectIndepVars0"));
    same("indepVarSelectionThreshold is unchanged", a.indepVarSelectionThreshold(), real_("r_IndepVarSelectionThreshold0"));
    same("hasHatMatrix is unchanged", a.hasHatMatrix(), bool_("b_HasHatMatrix0"));
    same("isStoreS is unchanged", a.isStoreS(), bool_("b_StoreS0") || (bool_("b_HasHatMatrix0") && int_("n") < 8192));
    same("isStoreC is unchanged", a.isStoreC(), bool_("b_StoreC0"));
    same("workerId is unchanged", a.workerId(), (int)int_("i_WorkerId0"));
    same("parallelType reports the value set", (int)a.parallelType(), (int)(ParallelType::OpenMP));
    same("dependentVariable is unchanged", a.dependentVariable(), vec_("y_DependentVariable0", int_("n")));
    same("independentVariables is unchanged", a.independentVariables(), mat_("x_IndependentVariables0", int_("n"), int_("k")));
    same("hasIntercept is unchanged", a.hasIntercept(), bool_("b_HasIntercept0"));
    same("coords is unchanged", a.coords(), mat_("u_Coords0", int_("n"), 2));
    same_sw("spatialWeight is unchanged", a.spatialWeight(), swv(0));
}
void claim_set_GWRRobust_DependentVariable()
{
    GWRRobust a; GWRRobust_all(a);
    a.setDependentVariable(vec_("y_DependentVariable1", int_("n")));
    same("filtered is unchanged", a.filtered(), bool_("b_Filtered0"));
    same("isAutoselectBandwidth is unchanged", a.isAutoselectBandwidth(), bool_("b_IsAutoselectBandwidth0"));
    same("bandwidthSelectionCriterion is unchanged", (int)a.bandwidthSelectionCriterion(), (int)(GWRBasic::CV));
    same("isAutoselectIndepVars is unchanged", a.isAutoselectIndepVars(), bool_("b_IsAutoselectIndepVars0"));
    same("indepVarSelectionThreshold is unchanged", a.indepVarSelectionThreshold(), real_("r_IndepVarSelectionThreshold0"));
    same("hasHatMatrix is unchanged", a.hasHatMatrix(), bool_("b_HasHatMatrix0"));
    same("isStoreS is unchanged", a.isStoreS(), bool_("b_StoreS0") || (bool_("b_HasHatMatrix0") && int_("n") < 8192));
    same("isStoreC is unchanged", a.isStoreC(), bool_("b_StoreC0"));
    same("workerId is unchanged", a.workerId(), (int)int_("i_WorkerId0"));
    same("parallelType is unchanged", (int)a.parallelType(), (int)(ParallelType::SerialOnly));
    same("dependentVariable reports the value set", a.dependentVariable(), vec_("y_DependentVariable1", int_("n")));
    same("independentVariables is unchanged", a.independentVariables(), mat_("x_IndependentVariables0", int_("n"), int_("k")));
    same("hasIntercept is unchanged", a.hasIntercept(), bool_("b_HasIntercept0"));
    same("coords is unchanged", a.coords(), mat_("u_Coords0", int_("n"), 2));
    same_sw("spatialWeight is unchanged", a.spatialWeight(), swv(0));
}
void claim_set_GWRRobust_IndependentVariables()
{
    GWRRobust a; GWRRobust_all(a);
    a.setIndependentVariables(mat_("x_IndependentVariables1", int_("n"), int_("k")));
    same("filtered is unchanged", a.filtered(), bool_("b_Filtered0"));
    same("isAutoselectBandwidth is unchanged", a.isAutoselectBandwidth(), bool_("b_IsAutoselectBandwidth0"));
    same("bandwidthSelectionCriterion is unchanged", (int)a.bandwidthSelectionCriterion(), (int)(GWRBasic::CV));
    same("isAutoselectIndepVars is unchanged", a.isAutoselectIndepVars(), bool_("b_IsAutoselectIndepVars0"));
    same("indepVarSelectionThreshold is unchanged", a.indepVarSelectionThreshold(), real_("r_IndepVarSelectionThreshold0"));
    same("hasHatMatrix is unchanged", a.hasHatMatrix(), bool_("b_HasHatMatrix0"));
    same("isStoreS is unchanged", a.isStoreS(), bool_("b_StoreS0") || (bool_("b_HasHatMatrix0") && int_("n") < 8192));
    same("isStoreC is unchanged", a.isStoreC(), bool_("b_StoreC0"));
    same("workerId is unchanged", a.workerId(), (int)int_("i_WorkerId0"));
    same("parallelType is unchanged", (int)a.parallelType(), (int)(ParallelType::SerialOnly));
    same("dependentVariable is unchanged", a.dependentVariable(), vec_("y_DependentVariable0", int_("n")));
    same("independentVariables reports the value set", a.independentVariables(), mat_("x_IndependentVariables1", int_("n"), int_("k")));
    same("hasIntercept is unchanged", a.hasIntercept(), bool_("b_HasIntercept0"));
    same("coords is unchanged", a.coords(), mat_("u_Coords0", int_("n"), 2));
    same_sw("spatialWeight is unchanged", a.spatialWeight(), swv(0));
}
void claim_set_GWRRobust_HasIntercept()
{
    GWRRobust a; GWRRobust_all(a);
    a.setHasIntercept(bool_("b_HasIntercept1"));
    same("filtered is unchanged", a.filtered(), bool_("b_Filtered0"));
    same("isAutoselectBandwidth is unchanged", a.isAutoselectBandwidth(), bool_("b_IsAutoselectBandwidth0"));
    same("bandwidthSelectionCriterion is unchanged", (int)a.bandwidthSelectionCriterion(), (int)(GWRBasic::CV));
    same("isAutoselectIndepVars is unchanged", a.isAutoselectIndepVars(), bool_("b_IsAutoselectIndepVars0"));
    same("indepVarSelectionThreshold is unchanged", a.indepVarSelectionThreshold(), real_("r_IndepVarSelectionThreshold0"));
    same("hasHatMatrix is unchanged", a.hasHatMatrix(), bool_("b_HasHatMatrix0"));
    same("isStoreS is unchanged", a.isStoreS(), bool_("b_StoreS0") || (bool_("b_HasHatMatrix0") && int_("n") < 8192));
    same("isStoreC is unchanged", a.isStoreC(), bool_("b_StoreC0"));
    same("workerId is unchanged", a.workerId(), (int)int_("i_WorkerId0"));
    same("parallelType is unchanged", (int)a.parallelType(), (int)(ParallelType::SerialOnly));
    same("dependentVariable is unchanged", a.dependentVariable(), vec_("y_DependentVariable0", int_("n")));
    same("independentVariables is unchanged", a.independentVariables(), mat_("x_IndependentVariables0", int_("n"), int_("k")));
    same("hasIntercept reports the value set", a.hasIntercept(), bool_("b_HasIntercept1"));
    same("coords is unchanged", a.coords(), mat_("u_Coords0", int_("n"), 2));
    same_sw("spatialWeight is unchanged", a.spatialWeight(), swv(0));
}
void claim_set_GWRRobust_Coords()
{
    GWRRobust a; GWRRobust_all(a);
    a.setCoords(mat_("u_Coords1", int_("n"), 2));
    same("filtered is unchanged", a.filtered(), bool_("b_Filtered0"));
    same("isAutoselectBandwidth is unchanged", a.isAutoselectBandwidth(), bool_("b_IsAutoselectBandwidth0"));
    same("bandwidthSelectionCriterion is unchanged", (int)a.bandwidthSelectionCriterion(), (int)(GWRBasic::CV));
    same("isAutoselectIndepVars is unchanged", a.isAutoselectIndepVars(), bool_("b_IsAutoselectIndepVars0"));
    same("indepVarSelectionThreshold is unchanged", a.indepVarSelectionThreshold(), real_("r_IndepVarSelectionThreshold0"));
    same("hasHatMatrix is unchanged", a.hasHatMatrix(), bool_("b_HasHatMatrix0"));
    same("isStoreS is unchanged", a.isStoreS(), bool_("b_StoreS0") || (bool_("b_HasHatMatrix0") && int_("n") < 8192));
    same("isStoreC is unchanged", a.isStoreC(), bool_("b_StoreC0"));
    same("workerId is unchanged", a.workerId(), (int)int_("i_WorkerId0"));
    same("parallelType is unchanged", (int)a.parallelType(), (int)(ParallelType::SerialOnly));
    same("dependentVariable is unchanged", a.dependentVariable(), vec_("y_DependentVariable0", int_("n")));
    same("independentVariables is unchanged", a.independentVariables(), mat_("x_IndependentVariables0", int_("n"), int_("k")));
    same("hasIntercept is unchanged", a.hasIntercept(), bool_("b_HasIntercept0"));
    same("coords reports the value set", a.coords(), mat_("u_Coords1", int_("n"), 2));
    same_sw("spatialWeight is unchanged", a.spatialWeight(), swv(0));
}
void claim_set_GWRRobust_SpatialWeight()
{
    GWRRobust a; GWRRobust_all(a);
    a.setSpatialWeight(swv(1));
    same("filtered is unchanged", a.filtered(), bool_("b_Filtered0"));
    same("isAutoselectBandwidth is unchanged", a.isAutoselectBandwidth(), bool_("b_IsAutoselectBandwidth0"));
    same("bandwidthSelectionCriterion is unchanged", (int)a.bandwidthSelectionCriterion(), (int)(GWRBasic::CV));
    same("isAutoselectIndepVars is unchanged", a.isAutoselectIndepVars(), bool_("b_IsAutoselectIndepVars0"));
    same("indepVarSelectionThreshold is unchanged", a.indepVarSelectionThreshold(), real_("r_IndepVarSelectionThreshold0"));
    same("hasHatMatrix is unchanged", a.hasHatMatrix(), bool_("b_HasHatMatrix0"));
    same("isStoreS is unchanged", a.isStoreS(), bool_("b_StoreS0") || (bool_("b_HasHatMatrix0") && int_("n") < 8192));
    same("isStoreC is unchanged", a.isStoreC(), bool_("b_StoreC0"));
    same("workerId is unchanged", a.workerId(), (int)int_("i_WorkerId0"));
    same("parallelType is unchanged", (int)a.parallelType(), (int)(ParallelType::SerialOnly));
    same("dependentVariable is unchanged", a.dependentVariable(), vec_("y_DependentVariable0", int_("n")));
    same("independentVariables is unchanged", a.independentVariables(), mat_("x_IndependentVariables0", int_("n"), int_("k")));
    same("hasIntercept is unchanged", a.hasIntercept(), bool_("b_HasIntercept0"));
    same("coords is unchanged", a.coords(), mat_("u_Coords0", int_("n"), 2));
    same_sw("spatialWeight reports the value set", a.spatialWeight(), swv(1));
}
static void GWRScalable_all(GWRScalable& a)
{
    a.setPolynomial(int_("s_Polynomial0"));
    a.setHasHatMatrix(bool_("b_HasHatMatrix0"));
    a.setParameterOptimizeCriterion(GWRScalable::CV);
    a.setDependentVariable(vec_("y_DependentVariable0", int_("n")));
    a.setIndependentVariables(mat_("x_IndependentVariables0", int_("n"), int_("k")));
    a.setHasIntercept(bool_("b_HasIntercept0"));
    a.setCoords(mat_("u_Coords0", int_("n"), 2));
    a.setSpatialWeight(swv(0));
}
void claim_set_GWRScalable_Polynomial()
{
    GWRScalable a; GWRScalable_all(a);
    a.setPolynomial(int_("s_Polynomial1"));
    same("polynomial reports the value set", a.polynomial(), int_("s_Polynomial1"));
    same("hasHatMatrix is unchanged", a.hasHatMatrix(), bool_("b_HasHatMatrix0"));
    same("parameterOptimizeCriterion is unchanged", (int)a.parameterOptimizeCriterion(), (int)(GWRScalable::CV));
    same("dependentVariable is unchanged", a.dependentVariable(), vec_("y_DependentVariable0", int_("n")));
    same("independentVariables is unchanged", a.independentVariables(), mat_("x_IndependentVariables0", int_("n"), int_("k")));
    same("hasIntercept is unchanged", a.hasIntercept(), bool_("b_HasIntercept0"));
    same("coords is unchanged", a.coords(), mat_("u_Coords0", int_("n"), 2));
    same_sw("spatialWeight is unchanged", a.spatialWeight(), swv(0));
}
void claim_set_GWRScalable_HasHatMatrix()
{
    GWRScalable a; GWRScalable_all(a);
    a.setHasHatMatrix(bool_("b_HasHatMatrix1"));
    same("polynomial is unchanged", a.polynomial(), int_("s_Polynomial0"));
    same("hasHatMatrix reports the value set", a.hasHatMatrix(), bool_("b_HasHatMatrix1"));
    same("parameterOptimizeCriterion is unchanged", (int)a.parameterOptimizeCriterion(), (int)(GWRScalable::CV));
    same("dependentVariable is unchanged", a.dependentVariable(), vec_("y_DependentVariable0", int_("n")));
    same("independentVariables is unchanged", a.independentVariables(), mat_("x_IndependentVariables0", int_("n"), int_("k")));
    same("hasIntercept is unchanged", a.hasIntercept(), bool_("b_HasIntercept0"));
    same("coords is unchanged", a.coords(), mat_("u_Coords0", int_("n"), 2));
    same_sw("spatialWeight is unchanged", a.spatialWeight(), swv(0));
}
void claim_set_GWRScalable_ParameterOptimizeCriterion()
{
    GWRScalable a; GWRScalable_all(a);
    a.setParameterOptimizeCriterion(GWRScalable::AIC);
    same("polynomial is unchanged", a.polynomial(), int_("s_Polynomial0"));
    same("hasHatMatrix is unchanged", a.hasHatMatrix(), bool_("b_HasHatMatrix0"));
    same("parameterOptimizeCriterion reports the value set", (int)a.parameterOptimizeCriterion(), (int)(GWRScalable::AIC));
    same("dependentVariable is unchanged", a.dependentVariable(), vec_("y_DependentVariable0", int_("n")));
    same("independentVariables is unchanged", a.independentVariables(), mat_("x_IndependentVariables0", int_("n"), int_("k")));
    same("hasIntercept is unchanged", a.hasIntercept(), bool_("b_HasIntercept0"));
    same("coords is unchanged", a.coords(), mat_("u_Coords0", int_("n"), 2));
    same_sw("spatialWeight is unchanged", a.spatialWeight(), swv(0));
}
void claim_set_GWRScalable_DependentVariable()
{
    GWRScalable a; GWRScalable_all(a);
    a.setDependentVariable(vec_("y_DependentVariable1", int_("n")));
    same("polynomial is unchanged", a.polynomial(), int_("s_Polynomial0"));
    same("hasHatMatrix is unchanged", a.hasHatMatrix(), bool_("b_HasHatMatrix0"));
    same("parameterOptimizeCriterion is unchanged", (int)a.parameterOptimizeCriterion(), (int)(GWRScalable::CV));
    same("dependentVariable reports the value set", a.dependentVariable(), vec_("y_DependentVariable1", int_("n")));
    same("independentVariables is unchanged", a.independentVariables(), mat_("x_IndependentVariables0", int_("n"), int_("k")));
    same("hasIntercept is unchanged", a.hasIntercept(), bool_("b_HasIntercept0"));
    same("coords is unchanged", a.coords(), mat_("u_Coords0", int_("n"), 2));
    same_sw("spatialWeight is unchanged", a.spatialWeight(), swv(0));
}
void claim_set_GWRScalable_IndependentVariables()
{
    GWRScalable a; GWRScalable_all(a);
    a.setIndependentVariables(mat_("x_IndependentVariables1", int_("n"), int_("k")));
    same("polynomial is unchanged", a.polynomial(), int_("s_Polynomial0"));
    same("hasHatMatrix is unchanged", a.hasHatMatrix(), bool_("b_HasHatMatrix0"));
    same("parameterOptimizeCriterion is unchanged", (int)a.parameterOptimizeCriterion(), (int)(GWRScalable::CV));
    same("dependentVariable is unchanged", a.dependentVariable(), vec_("y_DependentVariable0", int_("n")));
    same("independentVariables reports the value set", a.independentVariables(), mat_("x_IndependentVariables1", int_("n"), int_("k")));
    same("hasIntercept is unchanged", a.hasIntercept(), bool_("b_HasIntercept0"));
    same("coords is unchanged", a.coords(), mat_("u_Coords0", int_("n"), 2));
    same_sw("spatialWeight is unchanged", a.spatialWeight(), swv(0));
}
void claim_set_GWRScalable_HasIntercept()
{
    GWRScalable a; GWRScalable_all(a);
    a.setHasIntercept(bool_("b_HasIntercept1"));
    same("polynomial is unchanged", a.polynomial(), int_("s_Polynomial0"));
    same("hasHatMatrix is unchanged", a.hasHatMatrix(), bool_("b_HasHatMatrix0"));
    same("parameterOptimizeCriterion is unchanged", (int)a.parameterOptimizeCriterion(), (int)(GWRScalable::CV));
    same("dependentVariable is unchanged", a.dependentVariable(), vec_("y_DependentVariable0", int_("n")));
    same("independentVariables is unchanged", a.independentVariables(), mat_("x_IndependentVariables0", int_("n"), int_("k")));
    same("hasIntercept reports the value set", a.hasIntercept(), bool_("b_HasIntercept1"));
    same("coords is unchanged", a.coords(), mat_("u_Coords0", int_("n"), 2));
    same_sw("spatialWeight is unchanged", a.spatialWeight(), swv(0));
}
void claim_set_GWRScalable_Coords()
{
    GWRScalable a; GWRScalable_all(a);
    a.setCoords(mat_("u_Coords1", int_("n"), 2));
    same("polynomial is unchanged", a.polynomial(), int_("s_Polynomial0"));
    same("hasHatMatrix is unchanged", a.hasHatMatrix(), bool_("b_HasHatMatrix0"));
    same("parameterOptimizeCriterion is unchanged", (int)a.parameterOptimizeCriterion(), (int)(GWRScalable::CV));
    same("dependentVariable is unchanged", a.dependentVariable(), vec_("y_DependentVariable0", int_("n")));
    same("independentVariables is unchanged", a.independentVariables(), mat_("x_IndependentVariables0", int_("n"), int_("k")));
    same("hasIntercept is unchanged", a.hasIntercept(), bool_("b_HasIntercept0"));
    same("coords reports the value set", a.coords(), mat_("u_Coords1", int_("n"), 2));
    same_sw("spatialWeight is unchanged", a.spatialWeight(), swv(0));
}
void claim_set_GWRScalable_SpatialWeight()
{
    GWRScalable a; GWRScalable_all(a);
    a.setSpatialWeight(swv(1));
    same("polynomial is unchanged", a.polynomial(), int_("s_Polynomial0"));
    same("hasHatMatrix is unchanged", a.hasHatMatrix(), bool_("b_HasHatMatrix0"));
    same("parameterOptimizeCriterion is unchanged", (int)a.parameterOptimizeCriterion(), (int)(GWRScalable::CV));
    same("dependentVariable is unchanged", a.dependentVariable(), vec_("y_DependentVariable0", int_("n")));
    same("independentVariables is unchanged", a.independentVariables(), mat_("x_IndependentVariables0", int_("n"), int_("k")));
    same("hasIntercept is unchanged", a.hasIntercept(), bool_("b_HasIntercept0"));
    same("coords is unchanged", a.coords(), mat_("u_Coords0", int_("n"), 2));
    same_sw("spatialWeight reports the value set", a.spatialWeight(), swv(1));
}
static void GWSS_all(GWSS& a)
{
    a.setQuantile(bool_("b_Quantile0"));
    a.setIsCorrWithFirstOnly(bool_("b_IsCorrWithFirstOnly0"));
    a.setVariables(mat_("x_Variables0", int_("n"), int_("k")));
    a.setParallelType(ParallelType::SerialOnly);
    a.setCoords(mat_("u_Coords0", int_("n"), 2));
    a.setSpatialWeight(swv(0));
}
void claim_set_GWSS_Quantile()
{
    GWSS a; GWSS_all(a);
    a.setQuantile(bool_("b_Quantile1"));
    same("quantile reports the value set", a.quantile(), bool_("b_Quantile1"));
    same("isCorrWithFirstOnly is unchanged", a.isCorrWithFirstOnly(), bool_("b_IsCorrWithFirstOnly0"));
    same("variables is unchanged", a.variables(), mat_("x_Variables0", int_("n"), int_("k")));
    same("parallelType is unchanged", (int)a.parallelType(), (int)(ParallelType::SerialOnly));
    same("coords is unchanged", a.coords(), mat_("u_Coords0", int_("n"), 2));
    same_sw("spatialWeight is unchanged", a.spatialWeight(), swv(0));
}
void claim_set_GWSS_IsCorrWithFirstOnly()
{
    GWSS a; GWSS_all(a);
    a.setIsCorrWithFirstOnly(bool_("b_IsCorrWithFirstOnly1"));
    same("quantile is unchanged", a.quantile(), bool_("b_Quantile0"));
    same("isCorrWithFirstOnly reports the value set", a.isCorrWithFirstOnly(), bool_("b_IsCorrWithFirstOnly1"));
    same("variables is unchanged", a.variables(), mat_("x_Variables0", int_("n"), int_("k")));
    same("parallelType is unchanged", (int)a.parallelType(), (int)(ParallelType::SerialOnly));
    same("coords is unchanged", a.coords(), mat_("u_Coords0", int_("n"), 2));
    same_sw("spatialWeight is unchanged", a.spatialWeight(), swv(0));
}
void claim_set_GWSS_Variables()
{
    GWSS a; GWSS_all(a);
    a.setVariables(mat_("x_Variables1", int_("n"), int_("k")));
    same("quantile is unchanged", a.quantile(), bool_("b_Quantile0"));
    same("isCorrWithFirstOnly is unchanged", a.isCorrWithFirstOnly(), bool_("b_IsCorrWithFirstOnly0"));
    same("variables reports the value set", a.variables(), mat_("x_Variables1", int_("n"), int_("k")));
    same("parallelType is unchanged", (int)a.parallelType(), (int)(ParallelType::SerialOnly));
    same("coords is unchanged", a.coords(), mat_("u_Coords0", int_("n"), 2));
    same_sw("spatialWeight is unchanged", a.spatialWeight(), swv(0));
}
void claim_set_GWSS_ParallelType()
{
    GWSS a; GWSS_all(a);
    a.setParallelType(ParallelType::OpenMP);
    same("quantile is unchanged", a.quantile(), bool_("b_Quantile0"));
    same("isCorrWithFirstOnly is unchanged", a.isCorrWithFirstOnly(), bool_("b_IsCorrWithFirstOnly0"));
    same("variables is unchanged", a.variables(), mat_("x_Variables0", int_("n"), int_("k")));
    same("parallelType reports the value set", (int)a.parallelType(), (int)(ParallelType::OpenMP));
    same("coords is unchanged", a.coords(), mat_("u_Coords0", int_("n"), 2));
    same_sw("spatialWeight is unchanged", a.spatialWeight(), swv(0));
}
void claim_set_GWSS_Coords()
{
    GWSS a; GWSS_all(a);
    a.setCoords(mat_("u_Coords1", int_("n"), 2));
    same("quantile is unchanged", a.quantile(), bool_("b_Quantile0"));
    same("isCorrWithFirstOnly is unchanged", a.isCorrWithFirstOnly(), bool_("b_IsCorrWithFirstOnly0"));
    same("variables is unchanged", a.variables(), mat_("x_Variables0", int_("n"), int_("k")));
    same("parallelType is unchanged", (int)a.parallelType(), (int)(ParallelType::SerialOnly));
    same("coords reports the value set", a.coords(), mat_("u_Coords1", int_("n"), 2));
    same_sw("spatialWeight is unchanged", a.spatialWeight(), swv(0));
}
void claim_set_GWSS_SpatialWeight()
{
    GWSS a; GWSS_all(a);
    a.setSpatialWeight(swv(1));
    same("quantile is unchanged", a.quantile(), bool_("b_Quantile0"));
    same("isCorrWithFirstOnly is unchanged", a.isCorrWithFirstOnly(), bool_("b_IsCorrWithFirstOnly0"));
    same("variables is unchanged", a.variables(), mat_("x_Variables0", int_("n"), int_("k")));
    same("parallelType is unchanged", (int)a.parallelType(), (int)(ParallelType::SerialOnly));
    same("coords is unchanged", a.coords(), mat_("u_Coords0", int_("n"), 2));
    same_sw("spatialWeight reports the value set", a.spatialWeight(), swv(1));
}
static void MinkwoskiDistance_all(MinkwoskiDistance& a)
{
    a.setPoly(real_("r_Poly0"));
    a.setTheta(real_("r_Theta0"));
    a.setGeographic(bool_("b_Geographic0"));
}
void claim_set_MinkwoskiDistance_Poly()
{
    MinkwoskiDistance a; MinkwoskiDistance_all(a);
    a.setPoly(real_("r_Poly1"));
    same("poly reports the value set", a.poly(), real_("r_Poly1"));
    same("theta is unchanged", a.theta(), real_("r_Theta0"));
    same("geographic is unchanged", a.geographic(), bool_("b_Geographic0"));
}
void claim_set_MinkwoskiDistance_Theta()
{
    MinkwoskiDistance a; MinkwoskiDistance_all(a);
    a.setTheta(real_("r_Theta1"));
    same("poly is unchanged", a.poly(), real_("r_Poly0"));
    same("theta reports the value set", a.theta(), real_("r_Theta1"));
    same("geographic is unchanged", a.geographic(), bool_("b_Geographic0"));
}
void claim_set_MinkwoskiDistance_Geographic()
{
    MinkwoskiDistance a; MinkwoskiDistance_all(a);
    a.setGeographic(bool_("b_Geographic1"));
    same("poly is unchanged", a.poly(), real_("r_Poly0"));
    same("theta is unchanged", a.theta(), real_("r_Theta0"));
    same("geographic reports the value set", a.geographic(), bool_("b_Geographic1"));
}
static void VariableForwardSelector_all(VariableForwardSelector& a)
{
    a.setThreshold(real_("r_Threshold0"));
    a.setIndepVars(objs_<size_t>("vars_IndepVars0", 2));
}
void claim_set_VariableForwardSelector_Threshold()
{
    VariableForwardSelector a; VariableForwardSelector_all(a);
    a.setThreshold(real_("r_Threshold1"));
    same("threshold reports the value set", a.threshold(), real_("r_Threshold1"));
    same_two("indepVars is unchanged", a.indepVars(), objs_<size_t>("vars_IndepVars0", 2));
}
void claim_set_VariableForwardSelector_IndepVars()
{
    VariableForwardSelector a; VariableForwardSelector_all(a);
    a.setIndepVars(objs_<size_t>("vars_IndepVars1", 2));
    same("threshold is unchanged", a.threshold(), real_("r_Threshold0"));
    same_two("indepVars reports the value set", a.indepVars(), objs_<size_t>("vars_IndepVars1", 2));
}
}
