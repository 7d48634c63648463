From 45ed2438f38858e214b41c476ddace90aaabf49e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:00 +0000
Subject: [PATCH 01/46] fix: Minkowski distance of general order threw for
 every input

The coordinate differences form a matrix with two columns, which cannot be stored in a column vector.
---
 include/gwmodelpp/spatialweight/MinkwoskiDistance.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gwmodelpp/spatialweight/MinkwoskiDistance.h b/include/gwmodelpp/spatialweight/MinkwoskiDistance.h
index 2395476..4c49561 100644
--- a/include/gwmodelpp/spatialweight/MinkwoskiDistance.h
+++ b/include/gwmodelpp/spatialweight/MinkwoskiDistance.h
@@ -125,7 +125,7 @@ inline arma::vec MinkwoskiDistance::ManhattonDist(const arma::rowvec& out_loc, c
 
 inline arma::vec MinkwoskiDistance::MinkwoskiDist(const arma::rowvec& out_loc, const arma::mat& in_locs, double p)
 {
-    arma::vec temp = abs(in_locs.each_row() - out_loc);
+    arma::mat temp = abs(in_locs.each_row() - out_loc);
     return pow(sum(pow(temp, p), 1), 1.0 / p);
 }
 
-- 
2.43.0


From cb4371be0886bafc37cea7015f1f8dd375424d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:00 +0000
Subject: [PATCH 02/46] fix: Minkowski distance of order 1 is the Manhattan
 distance

The special cases for order 1 and for the Chebyshev marker -1 were swapped.
---
 src/gwmodelpp/spatialweight/MinkwoskiDistance.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gwmodelpp/spatialweight/MinkwoskiDistance.cpp b/src/gwmodelpp/spatialweight/MinkwoskiDistance.cpp
index 377777a..69bd934 100644
--- a/src/gwmodelpp/spatialweight/MinkwoskiDistance.cpp
+++ b/src/gwmodelpp/spatialweight/MinkwoskiDistance.cpp
@@ -42,8 +42,8 @@ vec MinkwoskiDistance::distance(uword focus)
                 dp = CoordinateRotate(mParameter->dataPoints, mTheta);
                 rp = CoordinateRotate(mParameter->focusPoints.row(focus), mTheta);
             }
-            if (mPoly == 1.0) return ChessDistance(rp, dp);
-            else if (mPoly == -1.0) return ManhattonDist(rp, dp);
+            if (mPoly == 1.0) return ManhattonDist(rp, dp);
+            else if (mPoly == -1.0) return ChessDistance(rp, dp);
             else return MinkwoskiDist(rp, dp, mPoly);
         }
         else throw std::runtime_error("Target is out of bounds of data points.");
-- 
2.43.0


From 511347a93d10cb072076ea762cb93b9503f404b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:00 +0000
Subject: [PATCH 03/46] fix: extreme distances of a Minkowski metric were those
 of the Euclidean metric

Derived metrics override distance() only; take the extremes of that.
---
 src/gwmodelpp/spatialweight/CRSDistance.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gwmodelpp/spatialweight/CRSDistance.cpp b/src/gwmodelpp/spatialweight/CRSDistance.cpp
index 0c00116..93e109a 100644
--- a/src/gwmodelpp/spatialweight/CRSDistance.cpp
+++ b/src/gwmodelpp/spatialweight/CRSDistance.cpp
@@ -137,7 +137,7 @@ double CRSDistance::maxDistance()
     double maxD = 0.0;
     for (uword i = 0; i < mParameter->total; i++)
     {
-        double d = max(mCalculator(mParameter->focusPoints.row(i), mParameter->dataPoints));
+        double d = max(distance(i));
         maxD = d > maxD ? d : maxD;
     }
     return maxD;
@@ -149,7 +149,7 @@ double CRSDistance::minDistance()
     double minD = DBL_MAX;
     for (uword i = 0; i < mParameter->total; i++)
     {
-        double d = min(mCalculator(mParameter->focusPoints.row(i), mParameter->dataPoints));
+        double d = min(distance(i));
         minD = d < minD ? d : minD;
     }
     return minD;
-- 
2.43.0


From 5f62667a411504cb948a2c7e71b6281155c9eb57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:02:51 +0000
Subject: [PATCH 04/46] fix: threaded criteria of GWRBasic ignored observations
 that could not be fitted

---
 src/gwmodelpp/GWRBasic.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/gwmodelpp/GWRBasic.cpp b/src/gwmodelpp/GWRBasic.cpp
index 12720c7..eaaa4a8 100644
--- a/src/gwmodelpp/GWRBasic.cpp
+++ b/src/gwmodelpp/GWRBasic.cpp
@@ -518,6 +518,7 @@ arma::mat GWRBasic::fitCoreCVOmp(const arma::mat& x, const arma::vec& y, const S
     uword nDp = mCoords.n_rows, nVar = x.n_cols;
     mat betas(nVar, nDp, fill::zeros);
     bool flag = true;
+    std::exception except;
     std::pair<uword, uword> workRange = mWorkRange.value_or(make_pair(0, nDp));
 #pragma omp parallel for num_threads(mOmpThreadNum)
     for (uword i = workRange.first; i < workRange.second; i++)
@@ -538,10 +539,15 @@ arma::mat GWRBasic::fitCoreCVOmp(const arma::mat& x, const arma::vec& y, const S
             catch (const exception& e)
             {
                 GWM_LOG_ERROR(e.what());
+                except = e;
                 flag = false;
             }
         }
     }
+    if (!flag)
+    {
+        throw except;
+    }
     return betas.t();
 }
 
@@ -551,6 +557,7 @@ arma::mat GWRBasic::fitCoreSHatOmp(const arma::mat& x, const arma::vec& y, const
     mat betas(nVar, nDp, fill::zeros);
     mat shat_all(2, mOmpThreadNum, fill::zeros);
     int flag = true;
+    std::exception except;
     std::pair<uword, uword> workRange = mWorkRange.value_or(make_pair(0, nDp));
 #pragma omp parallel for num_threads(mOmpThreadNum)
     for (uword i = workRange.first; i < workRange.second; i++)
@@ -575,10 +582,15 @@ arma::mat GWRBasic::fitCoreSHatOmp(const arma::mat& x, const arma::vec& y, const
             catch (const exception& e)
             {
                 GWM_LOG_ERROR(e.what());
+                except = e;
                 flag = false;
             }
         }
     }
+    if (!flag)
+    {
+        throw except;
+    }
     shat = sum(shat_all, 1);
     return betas.t();
 }
-- 
2.43.0


From 9c4fd3d5768f31675b3096776a2d93b31c58fe6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:01 +0000
Subject: [PATCH 05/46] fix: threaded criteria of GWRMultiscale ignored
 observations that could not be fitted

---
 src/gwmodelpp/GWRMultiscale.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/gwmodelpp/GWRMultiscale.cpp b/src/gwmodelpp/GWRMultiscale.cpp
index 3e03f4a..ebcde25 100644
--- a/src/gwmodelpp/GWRMultiscale.cpp
+++ b/src/gwmodelpp/GWRMultiscale.cpp
@@ -684,6 +684,7 @@ vec GWRMultiscale::fitVarCoreCVOmp(const vec &x, const vec &y, const SpatialWeig
     uword nDp = mCoords.n_rows;
     vec beta(nDp, fill::zeros);
     bool flag = true;
+    std::exception except;
     std::pair<uword, uword> workRange = mWorkRange.value_or(make_pair(0, nDp));
 #pragma omp parallel for num_threads(mOmpThreadNum)
     for (uword i = workRange.first; i < workRange.second; i++)
@@ -704,10 +705,15 @@ vec GWRMultiscale::fitVarCoreCVOmp(const vec &x, const vec &y, const SpatialWeig
             catch (const exception& e)
             {
                 GWM_LOG_ERROR(e.what());
+                except = e;
                 flag = false;
             }
         }
     }
+    if (!flag)
+    {
+        throw except;
+    }
     return beta;
 }
 
@@ -717,6 +723,7 @@ vec GWRMultiscale::fitVarCoreSHatOmp(const vec &x, const vec &y, const SpatialWe
     vec betas(nDp, fill::zeros);
     mat shat_all(2, mOmpThreadNum, fill::zeros);
     bool flag = true;
+    std::exception except;
     std::pair<uword, uword> workRange = mWorkRange.value_or(make_pair(0, nDp));
 #pragma omp parallel for num_threads(mOmpThreadNum)
     for (uword i = workRange.first; i < workRange.second; i++)
@@ -741,10 +748,15 @@ vec GWRMultiscale::fitVarCoreSHatOmp(const vec &x, const vec &y, const SpatialWe
             catch (const exception& e)
             {
                 GWM_LOG_ERROR(e.what());
+                except = e;
                 flag = false;
             }
         }
     }
+    if (!flag)
+    {
+        throw except;
+    }
     shat = sum(shat_all, 1);
     return betas;
 }
-- 
2.43.0


From 919ff96e8a3edc7da9497f0e5837ec17cc6775f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:21 +0000
Subject: [PATCH 06/46] fix: variable selection ran off the list of models when
 no step reached the threshold

---
 src/gwmodelpp/VariableForwardSelector.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gwmodelpp/VariableForwardSelector.cpp b/src/gwmodelpp/VariableForwardSelector.cpp
index 039acbb..afc9f4a 100644
--- a/src/gwmodelpp/VariableForwardSelector.cpp
+++ b/src/gwmodelpp/VariableForwardSelector.cpp
@@ -33,7 +33,7 @@ vector<size_t> VariableForwardSelector::optimize(IVarialbeSelectable *instance)
         curIndex.push_back(restIndex[iBestVar]);
         restIndex.erase(restIndex.begin() + iBestVar);
     }
-    if (status == Status::Success)
+    if (status == Status::Success && !modelCriterions.empty())
     {
         mVarsCriterion = sort(modelCriterions);
         return convertIndexToVariables(select(mVarsCriterion).first);
@@ -65,7 +65,7 @@ vector<pair<vector<size_t>, double> > VariableForwardSelector::sort(vector<pair<
 
 pair<vector<size_t>, double> VariableForwardSelector::select(vector<pair<vector<size_t>, double> > models)
 {
-    for (size_t i = models.size() - 1; i >= 0; i--)
+    for (size_t i = models.size() - 1; i > 0; i--)
     {
         if (models[i - 1].second - models[i].second >= mThreshold)
         {
-- 
2.43.0


From dcd73d4926594c9145a3e8f7a7b02c4156613fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:52 +0000
Subject: [PATCH 07/46] fix: criterion of a model that is not a number was
 reported to the variable selection

---
 src/gwmodelpp/GWRBasic.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gwmodelpp/GWRBasic.cpp b/src/gwmodelpp/GWRBasic.cpp
index eaaa4a8..20893d1 100644
--- a/src/gwmodelpp/GWRBasic.cpp
+++ b/src/gwmodelpp/GWRBasic.cpp
@@ -406,6 +406,7 @@ double gwm::GWRBasic::indepVarsSelectionCriterion(const vector<size_t>& indepVar
         if (mStatus == Status::Success)
         {
             double aic = GWRBase::AICc(x, mY, betas, shat);
+            if (!isfinite(aic)) return DBL_MAX;
             GWM_LOG_INFO(IVarialbeSelectable::infoVariableCriterion(indepVars, aic));
             return aic;
         }
-- 
2.43.0


From 34fe40e954f203d613958d2cd6c00f4f5471a319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:52 +0000
Subject: [PATCH 08/46] fix: default bandwidth criterion did not match the one
 reported

---
 include/gwmodelpp/GTWR.h           | 2 +-
 include/gwmodelpp/GWRBasic.h       | 2 +-
 include/gwmodelpp/GWRGeneralized.h | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/gwmodelpp/GTWR.h b/include/gwmodelpp/GTWR.h
index 519013c..4ecc0c4 100644
--- a/include/gwmodelpp/GTWR.h
+++ b/include/gwmodelpp/GTWR.h
@@ -621,7 +621,7 @@ protected:
     bool mIsAutoselectLambda = false;//!< \~english Whether need lambda autoselect. \~chinese 是否需要自动优选lambda。
 
     BandwidthSelectionCriterionType mBandwidthSelectionCriterion = BandwidthSelectionCriterionType::AIC;//!< \~english Bandwidth Selection Criterion Type. \~chinese 默认的带宽优选方式。
-    BandwidthSelectionCriterionCalculator mBandwidthSelectionCriterionFunction = &GTWR::bandwidthSizeCriterionCVSerial;//!< \~english Bandwidth Selection Criterion Function. \~chinese 默认的带宽优选函数。
+    BandwidthSelectionCriterionCalculator mBandwidthSelectionCriterionFunction = &GTWR::bandwidthSizeCriterionAICSerial;//!< \~english Bandwidth Selection Criterion Function. \~chinese 默认的带宽优选函数。
     BandwidthCriterionList mBandwidthSelectionCriterionList;//!< \~english Bandwidth Selection Criterion List. \~chinese 默认的带宽优选参数列表。
     double mBandwidthLastCriterion = DBL_MAX;   //!< \~english Last criterion for bandwidth selection. \~chinese 上一次带宽优选的有效指标值。
 
diff --git a/include/gwmodelpp/GWRBasic.h b/include/gwmodelpp/GWRBasic.h
index 30665d2..01c768a 100644
--- a/include/gwmodelpp/GWRBasic.h
+++ b/include/gwmodelpp/GWRBasic.h
@@ -744,7 +744,7 @@ protected:
 
     bool mIsAutoselectBandwidth = false;    //!< \~english Whether to auto select bandwidth. \~chinese 是否自动优选带宽。
     BandwidthSelectionCriterionType mBandwidthSelectionCriterion = BandwidthSelectionCriterionType::AIC;    //!< \~english Type criterion for bandwidth selection. \~chinese 带宽优选的指标值类型。
-    BandwidthSelectionCriterionCalculator mBandwidthSelectionCriterionFunction = &GWRBasic::bandwidthSizeCriterionCV; //!< \~english Criterion calculator for bandwidth selection. \~chinese 带宽优选的指标计算函数。
+    BandwidthSelectionCriterionCalculator mBandwidthSelectionCriterionFunction = &GWRBasic::bandwidthSizeCriterionAIC; //!< \~english Criterion calculator for bandwidth selection. \~chinese 带宽优选的指标计算函数。
     BandwidthCriterionList mBandwidthSelectionCriterionList;    //!< \~english Criterion list of each bandwidth. \~chinese 每种带宽组合对应的指标值。
     double mBandwidthLastCriterion = DBL_MAX;   //!< \~english Last criterion for bandwidth selection. \~chinese 上一次带宽优选的有效指标值。
     std::optional<double> mGoldenUpperBounds;
diff --git a/include/gwmodelpp/GWRGeneralized.h b/include/gwmodelpp/GWRGeneralized.h
index f73cf09..397bbba 100644
--- a/include/gwmodelpp/GWRGeneralized.h
+++ b/include/gwmodelpp/GWRGeneralized.h
@@ -443,7 +443,7 @@ protected:
     CalWtFunction mCalWtFunction = &GWRGeneralized::PoissonWtSerial;        //!< \~english Calculator for weighting \~chinese 加权函数
 
     bool mIsAutoselectBandwidth = false;    //!< \~english Whether bandwidth optimization is enabled \~chinese 是否进行带宽优选
-    BandwidthSelectionCriterionType mBandwidthSelectionCriterionType = BandwidthSelectionCriterionType::AIC;    //!< \~english Type of criterion for bandwidth optimization \~chinese 带宽优选指标类型
+    BandwidthSelectionCriterionType mBandwidthSelectionCriterionType = BandwidthSelectionCriterionType::CV;    //!< \~english Type of criterion for bandwidth optimization \~chinese 带宽优选指标类型
     BandwidthSelectCriterionFunction mBandwidthSelectCriterionFunction = &GWRGeneralized::bandwidthSizeGGWRCriterionCVSerial;   //!< \~english Calculator to get criterion for given bandwidth value \~chinese 用于根据给定带宽值计算指标值的函数
     BandwidthSelector mBandwidthSizeSelector;   //!< \~english Bandwidth size selector \~chinese 带宽选择器
     double mBandwidthLastCriterion = DBL_MAX;   //!< \~english Last criterion for bandwidth selection. \~chinese 上一次带宽优选的有效指标值。
-- 
2.43.0


From f7486e64316ea896f82278987ea3a9ef8cbf305a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:20 +0000
Subject: [PATCH 09/46] fix: GTWR evaluated its criteria sequentially whatever
 the parallel mode

---
 src/gwmodelpp/GTWR.cpp | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/gwmodelpp/GTWR.cpp b/src/gwmodelpp/GTWR.cpp
index 6de7ba3..3c498c7 100644
--- a/src/gwmodelpp/GTWR.cpp
+++ b/src/gwmodelpp/GTWR.cpp
@@ -257,10 +257,23 @@ void GTWR::setBandwidthSelectionCriterion(const BandwidthSelectionCriterionType&
 {
     mBandwidthSelectionCriterion = criterion;
     unordered_map<BandwidthSelectionCriterionType, BandwidthSelectionCriterionCalculator> mapper;
-    mapper = {
-        make_pair(BandwidthSelectionCriterionType::CV, &GTWR::bandwidthSizeCriterionCVSerial),
-        make_pair(BandwidthSelectionCriterionType::AIC, &GTWR::bandwidthSizeCriterionAICSerial)
-    };
+    switch (mParallelType)
+    {
+#ifdef ENABLE_OPENMP
+    case ParallelType::OpenMP:
+        mapper = {
+            make_pair(BandwidthSelectionCriterionType::CV, &GTWR::bandwidthSizeCriterionCVOmp),
+            make_pair(BandwidthSelectionCriterionType::AIC, &GTWR::bandwidthSizeCriterionAICOmp)
+        };
+        break;
+#endif
+    default:
+        mapper = {
+            make_pair(BandwidthSelectionCriterionType::CV, &GTWR::bandwidthSizeCriterionCVSerial),
+            make_pair(BandwidthSelectionCriterionType::AIC, &GTWR::bandwidthSizeCriterionAICSerial)
+        };
+        break;
+    }
     mBandwidthSelectionCriterionFunction = mapper[mBandwidthSelectionCriterion];
 }
 
@@ -408,9 +421,9 @@ double GTWR::bandwidthSizeCriterionCVOmp(BandwidthWeight* bandwidthWeight)
             }
         }
     }
-    if (mStatus == Status::Success && flag)
+    double cv = sum(cv_all);
+    if (mStatus == Status::Success && flag && isfinite(cv))
     {
-        double cv = sum(cv_all);
         GWM_LOG_PROGRESS_PERCENT(exp(- abs(mBandwidthLastCriterion - cv)));
         mBandwidthLastCriterion = cv;
         return cv;
-- 
2.43.0


From 7574f9308dabfb35ae9d498a62bdbda688b9f924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:17 +0000
Subject: [PATCH 10/46] fix: copies of one-dimensional, matrix and space-time
 distances lost their parameters

---
 src/gwmodelpp/spatialweight/CRSSTDistance.cpp  | 16 +++++++++++++---
 src/gwmodelpp/spatialweight/DMatDistance.cpp   |  4 ++++
 src/gwmodelpp/spatialweight/OneDimDistance.cpp |  5 ++++-
 3 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/gwmodelpp/spatialweight/CRSSTDistance.cpp b/src/gwmodelpp/spatialweight/CRSSTDistance.cpp
index 2d69970..87b5f42 100644
--- a/src/gwmodelpp/spatialweight/CRSSTDistance.cpp
+++ b/src/gwmodelpp/spatialweight/CRSSTDistance.cpp
@@ -83,9 +83,19 @@ CRSSTDistance::CRSSTDistance(const CRSSTDistance &distance)
     }
     else throw std::runtime_error("The lambda must be in [0,1].");
     // mLambda = distance.mLambda;
-    mSpatialDistance = distance.mSpatialDistance->clone();
-    //mSpatialDistance = static_cast<gwm::CRSDistance*>(distance.mSpatialDistance->clone());
-    mTemporalDistance = static_cast<gwm::OneDimDistance*>(distance.mTemporalDistance->clone());
+    if (distance.mSpatialDistance)
+    {
+        mSpatialDistance = distance.mSpatialDistance->clone();
+        //mSpatialDistance = static_cast<gwm::CRSDistance*>(distance.mSpatialDistance->clone());
+    }
+    if (distance.mTemporalDistance)
+    {
+        mTemporalDistance = static_cast<gwm::OneDimDistance*>(distance.mTemporalDistance->clone());
+    }
+    if (distance.mParameter)
+    {
+        mParameter = make_unique<Parameter>(*distance.mParameter);
+    }
     mCalculator=distance.mCalculator;
 }
 
diff --git a/src/gwmodelpp/spatialweight/DMatDistance.cpp b/src/gwmodelpp/spatialweight/DMatDistance.cpp
index 046d007..1a4ee09 100644
--- a/src/gwmodelpp/spatialweight/DMatDistance.cpp
+++ b/src/gwmodelpp/spatialweight/DMatDistance.cpp
@@ -13,6 +13,10 @@ DMatDistance::DMatDistance(string dmatFile)
 DMatDistance::DMatDistance(const DMatDistance &distance)
 {
     mDMatFile = distance.mDMatFile;
+    if (distance.mParameter)
+    {
+        mParameter = make_unique<Parameter>(*distance.mParameter);
+    }
 }
 
 void DMatDistance::makeParameter(initializer_list<DistParamVariant> plist)
diff --git a/src/gwmodelpp/spatialweight/OneDimDistance.cpp b/src/gwmodelpp/spatialweight/OneDimDistance.cpp
index 9e5cbd7..0a23456 100644
--- a/src/gwmodelpp/spatialweight/OneDimDistance.cpp
+++ b/src/gwmodelpp/spatialweight/OneDimDistance.cpp
@@ -15,7 +15,10 @@ OneDimDistance::OneDimDistance() : Distance()
 
 OneDimDistance::OneDimDistance(const OneDimDistance &distance) : Distance(distance)
 {
-    
+    if (distance.mParameter)
+    {
+        mParameter = make_unique<Parameter>(distance.mParameter->focusPoints, distance.mParameter->dataPoints);
+    }
 }
 
 void OneDimDistance::makeParameter(initializer_list<DistParamVariant> plist)
-- 
2.43.0


From ee7bb9f42c71262c035181328c90c8b39e078305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:17 +0000
Subject: [PATCH 11/46] fix: space-time distance never released the distances
 it cloned

---
 include/gwmodelpp/spatialweight/CRSSTDistance.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/gwmodelpp/spatialweight/CRSSTDistance.h b/include/gwmodelpp/spatialweight/CRSSTDistance.h
index 01df73d..0dbddb7 100644
--- a/include/gwmodelpp/spatialweight/CRSSTDistance.h
+++ b/include/gwmodelpp/spatialweight/CRSSTDistance.h
@@ -75,6 +75,12 @@ public:
      */
     CRSSTDistance(const CRSSTDistance& distance);
 
+    virtual ~CRSSTDistance()
+    {
+        delete mSpatialDistance;
+        delete mTemporalDistance;
+    }
+
     Distance * clone() const override
     {
         return new CRSSTDistance(*this);
-- 
2.43.0


From 63557a7dda0bea8bc57c40c759c5e1b653e90cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:37 +0000
Subject: [PATCH 12/46] fix: robust regression stored its hat matrix where s()
 does not look

GWRRobust declared a second mS hiding the one that GWRBasic::s() returns, so the
hat matrix of a robust fit was never reported.
---
 include/gwmodelpp/GWRRobust.h | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/gwmodelpp/GWRRobust.h b/include/gwmodelpp/GWRRobust.h
index e22256c..b9c6bb0 100644
--- a/include/gwmodelpp/GWRRobust.h
+++ b/include/gwmodelpp/GWRRobust.h
@@ -130,7 +130,6 @@ protected:
 private:
     bool mFiltered; //!< \~english Whether to use filtered algorithm \~chinese 是否使用 Filtered 算法
 
-    arma::mat mS;           //!< \~english Hat matrix \f$S\f$ \~chinese 帽子矩阵 \f$S\f$
     arma::vec mWeightMask;  //!< \~english Second-level weights \~chinese 二次加权权重
     
     RegressionHatmatrix mfitFunction = &GWRRobust::fitSerial;   //!< \~english Calculator for fitting \~chinese 拟合函数
-- 
2.43.0


From bffd74708fe903debcf92801f3968a3d66168754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:37 +0000
Subject: [PATCH 13/46] fix: robust regression ran the filtered or the
 iterative algorithm at random

mFiltered had no initial value and nothing sets it unless setFiltered is called.
---
 include/gwmodelpp/GWRRobust.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gwmodelpp/GWRRobust.h b/include/gwmodelpp/GWRRobust.h
index b9c6bb0..fbaf360 100644
--- a/include/gwmodelpp/GWRRobust.h
+++ b/include/gwmodelpp/GWRRobust.h
@@ -128,7 +128,7 @@ protected:
     void createPredictionDistanceParameter(const arma::mat& locations);
 
 private:
-    bool mFiltered; //!< \~english Whether to use filtered algorithm \~chinese 是否使用 Filtered 算法
+    bool mFiltered = false; //!< \~english Whether to use filtered algorithm \~chinese 是否使用 Filtered 算法
 
     arma::vec mWeightMask;  //!< \~english Second-level weights \~chinese 二次加权权重
     
-- 
2.43.0


From c0391bce2638b53fa5b86a1322f412511308df86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:37 +0000
Subject: [PATCH 14/46] fix: robust regression evaluated criteria and
 predictions sequentially in threaded mode

GWRRobust::setParallelType replaced the base implementation instead of extending
it, so only the fit followed the selected mode.
---
 src/gwmodelpp/GWRRobust.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gwmodelpp/GWRRobust.cpp b/src/gwmodelpp/GWRRobust.cpp
index 2dfb292..4627f5c 100644
--- a/src/gwmodelpp/GWRRobust.cpp
+++ b/src/gwmodelpp/GWRRobust.cpp
@@ -316,7 +316,7 @@ void GWRRobust::setParallelType(const ParallelType &type)
 {
     if (type & parallelAbility())
     {
-        mParallelType = type;
+        GWRBasic::setParallelType(type);
         switch (type)
         {
         case ParallelType::SerialOnly:
-- 
2.43.0


From 76fb3ba6652b400fff07e4800b572c2159c00051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:18 +0000
Subject: [PATCH 15/46] fix: local quantiles read before the first value when
 it carries the weight

---
 src/gwmodelpp/GWSS.cpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/gwmodelpp/GWSS.cpp b/src/gwmodelpp/GWSS.cpp
index f1acf85..22b350d 100644
--- a/src/gwmodelpp/GWSS.cpp
+++ b/src/gwmodelpp/GWSS.cpp
@@ -34,14 +34,10 @@ vec GWSS::findq(const mat &x, const vec &w)
         double k = 0.25 * (j + 1);
         for(uword i = 0; i < lw; i++){
             if(Cum(i) > k){
-                cond = i - 1;
+                cond = i > 0 ? i - 1 : 0;
                 break;
             }
         }
-        if(cond < 0)
-        {
-            cond = 0;
-        }
         q.row(j) = xo[cond];
         cond = lw - 1;
     }
-- 
2.43.0


From b5dbe96bf9dce0ba8266f60bed0b96e88d8946e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:18 +0000
Subject: [PATCH 16/46] fix: threaded GWDR fit ignored observations that could
 not be fitted

---
 src/gwmodelpp/GWDR.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gwmodelpp/GWDR.cpp b/src/gwmodelpp/GWDR.cpp
index e845b65..b297832 100644
--- a/src/gwmodelpp/GWDR.cpp
+++ b/src/gwmodelpp/GWDR.cpp
@@ -304,6 +304,7 @@ mat GWDR::fitOmp(const mat& x, const vec& y, mat& betasSE, vec& shat, vec& qdiag
             {
                 GWM_LOG_ERROR(e.what());
                 except = e;
+                success = false;
             }
         }
         GWM_LOG_PROGRESS(i + 1, nDp);
-- 
2.43.0


From 6d4fe9a927e0d125acb592b1994cc595546ec75d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:39 +0000
Subject: [PATCH 17/46] fix: threaded GWDR cross-validation criterion ran
 without its parallel loop

---
 src/gwmodelpp/GWDR.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gwmodelpp/GWDR.cpp b/src/gwmodelpp/GWDR.cpp
index b297832..5ea56af 100644
--- a/src/gwmodelpp/GWDR.cpp
+++ b/src/gwmodelpp/GWDR.cpp
@@ -373,6 +373,7 @@ double GWDR::bandwidthCriterionCVOmp(const vector<BandwidthWeight*>& bandwidths)
     vec cv_all(mOmpThreadNum, arma::fill::zeros);
     bool success = true;
     std::exception except;
+#pragma omp parallel for num_threads(mOmpThreadNum)
     for (size_t i = 0; i < nDp; i++)
     {
         GWM_LOG_STOP_CONTINUE(mStatus);
-- 
2.43.0


From ff03bddfe281b41361b8dc35accc5f41ec5714dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:10 +0000
Subject: [PATCH 18/46] fix: parallel loops write the shared first row and
 counters from every thread

---
 src/gwmodelpp/GTWR.cpp                 | 2 +-
 src/gwmodelpp/GWDR.cpp                 | 2 +-
 src/gwmodelpp/GWRBasic.cpp             | 4 ++--
 src/gwmodelpp/GWRGeneralized.cpp       | 4 ++--
 src/gwmodelpp/GWRLocalCollinearity.cpp | 4 ----
 src/gwmodelpp/GWRRobust.cpp            | 2 +-
 6 files changed, 7 insertions(+), 11 deletions(-)

diff --git a/src/gwmodelpp/GTWR.cpp b/src/gwmodelpp/GTWR.cpp
index 3c498c7..ae4527b 100644
--- a/src/gwmodelpp/GTWR.cpp
+++ b/src/gwmodelpp/GTWR.cpp
@@ -363,7 +363,7 @@ mat GTWR::fitOmp(const mat& x, const vec& y, mat& betasSE, vec& shat, vec& qDiag
                 vec p = - si.t();
                 p(i) += 1.0;
                 qDiag_all.col(thread) += p % p;
-                S.row(isStoreS() ? i : 0) = si;
+                if (isStoreS()) S.row(i) = si;
             }
             catch (const exception& e)
             {
diff --git a/src/gwmodelpp/GWDR.cpp b/src/gwmodelpp/GWDR.cpp
index 5ea56af..dce5c8d 100644
--- a/src/gwmodelpp/GWDR.cpp
+++ b/src/gwmodelpp/GWDR.cpp
@@ -298,7 +298,7 @@ mat GWDR::fitOmp(const mat& x, const vec& y, mat& betasSE, vec& shat, vec& qdiag
                 onei(i) = 1;
                 mat p = (onei - si).t();
                 qdiag_all.col(thread) += p % p;
-                S.row(isStoreS() ? i : 0) = si;
+                if (isStoreS()) S.row(i) = si;
             }
             catch(const std::exception& e)
             {
diff --git a/src/gwmodelpp/GWRBasic.cpp b/src/gwmodelpp/GWRBasic.cpp
index 20893d1..520835c 100644
--- a/src/gwmodelpp/GWRBasic.cpp
+++ b/src/gwmodelpp/GWRBasic.cpp
@@ -492,8 +492,8 @@ mat GWRBasic::fitCoreOmp(const mat& x, const vec& y, const SpatialWeight& sw)
                 vec p = - si.t();
                 p(i) += 1.0;
                 qDiag_all.col(thread) += p % p;
-                mS.row(isStoreS() ? (i - workRange.first) : 0) = si;
-                mC.slice(isStoreC() ? (i - workRange.first) : 0) = ci;
+                if (isStoreS()) mS.row(i - workRange.first) = si;
+                if (isStoreC()) mC.slice(i - workRange.first) = ci;
             }
             catch (const exception& e)
             {
diff --git a/src/gwmodelpp/GWRGeneralized.cpp b/src/gwmodelpp/GWRGeneralized.cpp
index 1b95a86..8424ede 100644
--- a/src/gwmodelpp/GWRGeneralized.cpp
+++ b/src/gwmodelpp/GWRGeneralized.cpp
@@ -338,7 +338,7 @@ mat GWRGeneralized::fitPoissonOmp(const mat &x, const vec &y)
                     vec gwsi = gwFit(x, myAdj, wi % mWt2, i, ci, s_ri);
                     betas.col(i) = gwsi;
                     mat invwt2 = 1.0 / mWt2;
-                    S.row(isStoreS ? i : 0) = s_ri;
+                    if (isStoreS) S.row(i) = s_ri;
                     mat temp = mat(ci.n_rows, ci.n_cols);
                     for (int j = 0; (uword)j < ci.n_rows; j++)
                     {
@@ -434,7 +434,7 @@ mat GWRGeneralized::fitBinomialOmp(const mat &x, const vec &y)
                     vec gwsi = gwFit(x, myAdj, wi % mWt2, i, ci, s_ri);
                     betas.col(i) = gwsi;
                     mat invwt2 = 1.0 / mWt2;
-                    S.row(isStoreS ? i : 0) = s_ri;
+                    if (isStoreS) S.row(i) = s_ri;
                     mat temp = mat(ci.n_rows, ci.n_cols);
                     for (int j = 0; (uword)j < ci.n_rows; j++)
                     {
diff --git a/src/gwmodelpp/GWRLocalCollinearity.cpp b/src/gwmodelpp/GWRLocalCollinearity.cpp
index 785dc24..d95306c 100644
--- a/src/gwmodelpp/GWRLocalCollinearity.cpp
+++ b/src/gwmodelpp/GWRLocalCollinearity.cpp
@@ -275,7 +275,6 @@ double GWRLocalCollinearity::bandwidthSizeCriterionCVOmp(BandwidthWeight* bandwi
     //取mX不含第一列的部分
     mat mXnot1 = mX.cols(1, mX.n_cols - 1);
     //主循环
-    uword current = 0;
 #pragma omp parallel for num_threads(mOmpThreadNum)
     for (int i = 0; i <(int) n; i++)
     {
@@ -308,7 +307,6 @@ double GWRLocalCollinearity::bandwidthSizeCriterionCVOmp(BandwidthWeight* bandwi
             }
         }
         betas.row(i) = trans( ridgelm(wgt,locallambda(i)) );
-        current++;
     }
     //yhat赋值
     //vec mYHat = fitted(mX,betas);
@@ -463,8 +461,6 @@ mat GWRLocalCollinearity::fitOmp(const mat& x, const vec& y)
         rowvec hatrow = x1w.row(i) * xtwxinv * trans(x1w);
         shat_all(0, thread) += hatrow(i);
         shat_all(1, thread) += sum(hatrow % hatrow);
-        this->mTrS += hatrow(i);
-        this->mTrStS += sum(hatrow % hatrow);
         GWM_LOG_PROGRESS(i + 1, nDp);
     }
     vec shat = sum(shat_all,1);
diff --git a/src/gwmodelpp/GWRRobust.cpp b/src/gwmodelpp/GWRRobust.cpp
index 4627f5c..da07f97 100644
--- a/src/gwmodelpp/GWRRobust.cpp
+++ b/src/gwmodelpp/GWRRobust.cpp
@@ -200,7 +200,7 @@ mat GWRRobust::fitOmp(const mat& x, const vec& y, mat& betasSE, vec& shat, vec&
                 vec p = - si.t();
                 p(i) += 1.0;
                 qDiag_all.col(thread) += p % p;
-                S.row(isStoreS() ? i : 0) = si;
+                if (isStoreS()) S.row(i) = si;
             }
             catch (const exception& e)
             {
-- 
2.43.0


From 70661f237ec793d30f9f80ce64205bc53fb4d176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:16 +0000
Subject: [PATCH 19/46] fix: exceptions must not leave the parallel loops of
 the generalized and local collinearity models

---
 src/gwmodelpp/GWRGeneralized.cpp       | 50 +++++++++++++-------
 src/gwmodelpp/GWRLocalCollinearity.cpp | 63 +++++++++++++++++++++-----
 2 files changed, 85 insertions(+), 28 deletions(-)

diff --git a/src/gwmodelpp/GWRGeneralized.cpp b/src/gwmodelpp/GWRGeneralized.cpp
index 8424ede..4f9b6ec 100644
--- a/src/gwmodelpp/GWRGeneralized.cpp
+++ b/src/gwmodelpp/GWRGeneralized.cpp
@@ -635,22 +635,31 @@ double GWRGeneralized::bandwidthSizeGGWRCriterionCVOmp(BandwidthWeight *bandwidt
     (this->*mCalWtFunction)(mX, mY, wt);
     GWM_LOG_STOP_RETURN(mStatus, DBL_MAX);
 
+    bool success = true;
 #pragma omp parallel for num_threads(mOmpThreadNum)
     for (int i = 0; i < (int)n; i++)
     {
         GWM_LOG_STOP_CONTINUE(mStatus);
-        if (true)
+        if (success)
         {
-            mat wi = wt.col(i) % mWt2;
-            vec gwsi = gwPredict(mX, myAdj, wi);
-            mat yhatnoi = mX.row(i) * gwsi;
-            if (mFamily == GWRGeneralized::Family::Poisson)
+            try
             {
-                cv.row(i) = mY.row(i) - exp(yhatnoi);
+                mat wi = wt.col(i) % mWt2;
+                vec gwsi = gwPredict(mX, myAdj, wi);
+                mat yhatnoi = mX.row(i) * gwsi;
+                if (mFamily == GWRGeneralized::Family::Poisson)
+                {
+                    cv.row(i) = mY.row(i) - exp(yhatnoi);
+                }
+                else
+                {
+                    cv.row(i) = mY.row(i) - exp(yhatnoi) / (1 + exp(yhatnoi));
+                }
             }
-            else
+            catch (const exception& e)
             {
-                cv.row(i) = mY.row(i) - exp(yhatnoi) / (1 + exp(yhatnoi));
+                GWM_LOG_ERROR(e.what());
+                success = false;
             }
         }
     }
@@ -658,7 +667,7 @@ double GWRGeneralized::bandwidthSizeGGWRCriterionCVOmp(BandwidthWeight *bandwidt
 
     vec cvsquare = trans(cv) * cv;
     double res = sum(cvsquare);
-    if (mStatus == Status::Success && isfinite(res))
+    if (mStatus == Status::Success && success && isfinite(res))
     {
         GWM_LOG_PROGRESS_PERCENT(exp(- abs(mBandwidthLastCriterion - res)));
         mBandwidthLastCriterion = res;
@@ -733,22 +742,31 @@ double GWRGeneralized::bandwidthSizeGGWRCriterionAICOmp(BandwidthWeight *bandwid
     GWM_LOG_STOP_RETURN(mStatus, DBL_MAX);
 
     vec trS = vec(mOmpThreadNum, fill::zeros);
+    bool success = true;
 #pragma omp parallel for num_threads(mOmpThreadNum)
     for (int i = 0; i < (int)n; i++)
     {
         GWM_LOG_STOP_CONTINUE(mStatus);
-        if (true)
+        if (success)
         {
-            int thread = omp_get_thread_num();
-            vec wi = wt.col(i) % mWt2;
-            mat Ci = CiMat(mX, wi);
-            S.row(i) = mX.row(i) * Ci;
-            trS(thread) += S(i, i);
+            try
+            {
+                int thread = omp_get_thread_num();
+                vec wi = wt.col(i) % mWt2;
+                mat Ci = CiMat(mX, wi);
+                S.row(i) = mX.row(i) * Ci;
+                trS(thread) += S(i, i);
+            }
+            catch (const exception& e)
+            {
+                GWM_LOG_ERROR(e.what());
+                success = false;
+            }
         }
     }
     GWM_LOG_STOP_RETURN(mStatus, DBL_MAX);
 
-    if (mStatus == Status::Success && S.is_finite())
+    if (mStatus == Status::Success && success && S.is_finite())
     {
         double trs = double(trS(0));
         double AICc = -2 * mLLik + 2 * trs + 2 * trs * (trs + 1) / (n - trs - 1);
diff --git a/src/gwmodelpp/GWRLocalCollinearity.cpp b/src/gwmodelpp/GWRLocalCollinearity.cpp
index d95306c..7d43847 100644
--- a/src/gwmodelpp/GWRLocalCollinearity.cpp
+++ b/src/gwmodelpp/GWRLocalCollinearity.cpp
@@ -275,6 +275,7 @@ double GWRLocalCollinearity::bandwidthSizeCriterionCVOmp(BandwidthWeight* bandwi
     //取mX不含第一列的部分
     mat mXnot1 = mX.cols(1, mX.n_cols - 1);
     //主循环
+    bool success = true;
 #pragma omp parallel for num_threads(mOmpThreadNum)
     for (int i = 0; i <(int) n; i++)
     {
@@ -306,7 +307,15 @@ double GWRLocalCollinearity::bandwidthSizeCriterionCVOmp(BandwidthWeight* bandwi
                 locallambda(i) = (S(0) - mCnThresh*S(m-1)) / (mCnThresh - 1);
             }
         }
-        betas.row(i) = trans( ridgelm(wgt,locallambda(i)) );
+        try
+        {
+            betas.row(i) = trans( ridgelm(wgt,locallambda(i)) );
+        }
+        catch (const exception& e)
+        {
+            GWM_LOG_ERROR(e.what());
+            success = false;
+        }
     }
     //yhat赋值
     //vec mYHat = fitted(mX,betas);
@@ -315,7 +324,7 @@ double GWRLocalCollinearity::bandwidthSizeCriterionCVOmp(BandwidthWeight* bandwi
     vec residual = mY - yhat;
     //计算cv
     double cv = sum(residual % residual);
-    if (mStatus == Status::Success && isfinite(cv))
+    if (mStatus == Status::Success && success && isfinite(cv))
     {
         GWM_LOG_PROGRESS_PERCENT(exp(- abs(mBandwidthLastCriterion - cv)));
         mBandwidthLastCriterion = cv;
@@ -422,6 +431,8 @@ mat GWRLocalCollinearity::fitOmp(const mat& x, const vec& y)
     vec locallambda(nDp, fill::zeros);
     vec hatrow(nDp, fill::zeros);
     mat shat_all(2, mOmpThreadNum, fill::zeros);
+    bool success = true;
+    std::exception except;
     //int current = 0;
 #pragma omp parallel for num_threads(mOmpThreadNum)
     for(int i=0;i <(int)nDp;i++)
@@ -452,17 +463,30 @@ mat GWRLocalCollinearity::fitOmp(const mat& x, const vec& y)
                 locallambda(i) = (S(0) - mCnThresh*S(x.n_cols-1)) / (mCnThresh - 1);
             }
         }
-        betas.row(i) = trans( ridgelm(wi,locallambda(i)) );
-        //如果没有给regressionpoint
-        mat xm = x;
-        mat xtw = trans(x % (wi * wispan1));
-        mat xtwx = xtw * x;
-        mat xtwxinv = inv(xtwx);
-        rowvec hatrow = x1w.row(i) * xtwxinv * trans(x1w);
-        shat_all(0, thread) += hatrow(i);
-        shat_all(1, thread) += sum(hatrow % hatrow);
+        try
+        {
+            betas.row(i) = trans( ridgelm(wi,locallambda(i)) );
+            //如果没有给regressionpoint
+            mat xm = x;
+            mat xtw = trans(x % (wi * wispan1));
+            mat xtwx = xtw * x;
+            mat xtwxinv = inv(xtwx);
+            rowvec hatrow = x1w.row(i) * xtwxinv * trans(x1w);
+            shat_all(0, thread) += hatrow(i);
+            shat_all(1, thread) += sum(hatrow % hatrow);
+        }
+        catch (const exception& e)
+        {
+            GWM_LOG_ERROR(e.what());
+            except = e;
+            success = false;
+        }
         GWM_LOG_PROGRESS(i + 1, nDp);
     }
+    if (!success)
+    {
+        throw except;
+    }
     vec shat = sum(shat_all,1);
     this->mTrS = sum(shat.row(0));
     this->mTrStS = sum(shat.row(1));
@@ -478,6 +502,8 @@ mat GWRLocalCollinearity::predictOmp(const arma::mat &locations, const mat& x, c
     vec hatrow(nRp, fill::zeros);
 
     mat shat_all(2, mOmpThreadNum, fill::zeros);
+    bool success = true;
+    std::exception except;
     //int current = 0;
 #pragma omp parallel for num_threads(mOmpThreadNum)
     for(int i=0;i <(int)nRp;i++)
@@ -507,9 +533,22 @@ mat GWRLocalCollinearity::predictOmp(const arma::mat &locations, const mat& x, c
                 locallambda(i) = (S(0) - mCnThresh*S(x.n_cols-1)) / (mCnThresh - 1);
             }
         }
-        betas.row(i) = trans( ridgelm(wi,locallambda(i)) );
+        try
+        {
+            betas.row(i) = trans( ridgelm(wi,locallambda(i)) );
+        }
+        catch (const exception& e)
+        {
+            GWM_LOG_ERROR(e.what());
+            except = e;
+            success = false;
+        }
         GWM_LOG_PROGRESS(i + 1, nRp);
     }
+    if (!success)
+    {
+        throw except;
+    }
     vec shat = sum(shat_all,1);
     this->mTrS = sum(shat.row(0));
     this->mTrStS = sum(shat.row(1));
-- 
2.43.0


From b5c4c80dcd6cf33cf31f4a5d13279f10f89e5b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:16 +0000
Subject: [PATCH 20/46] fix: the parallel AIC of the generalized model sums the
 trace over all threads

---
 src/gwmodelpp/GWRGeneralized.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gwmodelpp/GWRGeneralized.cpp b/src/gwmodelpp/GWRGeneralized.cpp
index 4f9b6ec..d8bfbcb 100644
--- a/src/gwmodelpp/GWRGeneralized.cpp
+++ b/src/gwmodelpp/GWRGeneralized.cpp
@@ -768,7 +768,7 @@ double GWRGeneralized::bandwidthSizeGGWRCriterionAICOmp(BandwidthWeight *bandwid
 
     if (mStatus == Status::Success && success && S.is_finite())
     {
-        double trs = double(trS(0));
+        double trs = sum(trS);
         double AICc = -2 * mLLik + 2 * trs + 2 * trs * (trs + 1) / (n - trs - 1);
         GWM_LOG_PROGRESS_PERCENT(exp(- abs(mBandwidthLastCriterion - AICc)));
         mBandwidthLastCriterion = AICc;
-- 
2.43.0


From 13a5a693b86c4abf830fb5c82e603417ba19d73f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:36 +0000
Subject: [PATCH 21/46] fix: a failing candidate bandwidth of the generalized
 and local collinearity models gets an infinite criterion

---
 src/gwmodelpp/GWRGeneralized.cpp       | 84 ++++++++++++++++++++------
 src/gwmodelpp/GWRLocalCollinearity.cpp | 14 ++++-
 2 files changed, 79 insertions(+), 19 deletions(-)

diff --git a/src/gwmodelpp/GWRGeneralized.cpp b/src/gwmodelpp/GWRGeneralized.cpp
index d8bfbcb..fa3f17d 100644
--- a/src/gwmodelpp/GWRGeneralized.cpp
+++ b/src/gwmodelpp/GWRGeneralized.cpp
@@ -579,23 +579,39 @@ double GWRGeneralized::bandwidthSizeGGWRCriterionCVSerial(BandwidthWeight *bandw
         wt.col(i) = w;
     }
     GWM_LOG_STOP_RETURN(mStatus, DBL_MAX);
-    
-    (this->*mCalWtFunction)(mX, mY, wt);
+
+    try
+    {
+        (this->*mCalWtFunction)(mX, mY, wt);
+    }
+    catch (const exception& e)
+    {
+        GWM_LOG_ERROR(e.what());
+        return DBL_MAX;
+    }
     GWM_LOG_STOP_RETURN(mStatus, DBL_MAX);
 
     for (uword i = 0; i < n; i++)
     {
         GWM_LOG_STOP_BREAK(mStatus);
-        mat wi = wt.col(i) % mWt2;
-        vec gwsi = gwPredict(mX, myAdj, wi);
-        mat yhatnoi = mX.row(i) * gwsi;
-        if (mFamily == GWRGeneralized::Family::Poisson)
+        try
         {
-            cv.row(i) = mY.row(i) - exp(yhatnoi);
+            mat wi = wt.col(i) % mWt2;
+            vec gwsi = gwPredict(mX, myAdj, wi);
+            mat yhatnoi = mX.row(i) * gwsi;
+            if (mFamily == GWRGeneralized::Family::Poisson)
+            {
+                cv.row(i) = mY.row(i) - exp(yhatnoi);
+            }
+            else
+            {
+                cv.row(i) = mY.row(i) - exp(yhatnoi) / (1 + exp(yhatnoi));
+            }
         }
-        else
+        catch (const exception& e)
         {
-            cv.row(i) = mY.row(i) - exp(yhatnoi) / (1 + exp(yhatnoi));
+            GWM_LOG_ERROR(e.what());
+            return DBL_MAX;
         }
     }
     GWM_LOG_STOP_RETURN(mStatus, DBL_MAX);
@@ -632,7 +648,15 @@ double GWRGeneralized::bandwidthSizeGGWRCriterionCVOmp(BandwidthWeight *bandwidt
     }
     GWM_LOG_STOP_RETURN(mStatus, DBL_MAX);
 
-    (this->*mCalWtFunction)(mX, mY, wt);
+    try
+    {
+        (this->*mCalWtFunction)(mX, mY, wt);
+    }
+    catch (const exception& e)
+    {
+        GWM_LOG_ERROR(e.what());
+        return DBL_MAX;
+    }
     GWM_LOG_STOP_RETURN(mStatus, DBL_MAX);
 
     bool success = true;
@@ -692,17 +716,33 @@ double GWRGeneralized::bandwidthSizeGGWRCriterionAICSerial(BandwidthWeight *band
     }
     GWM_LOG_STOP_RETURN(mStatus, DBL_MAX);
 
-    (this->*mCalWtFunction)(mX, mY, wt);
+    try
+    {
+        (this->*mCalWtFunction)(mX, mY, wt);
+    }
+    catch (const exception& e)
+    {
+        GWM_LOG_ERROR(e.what());
+        return DBL_MAX;
+    }
     GWM_LOG_STOP_RETURN(mStatus, DBL_MAX);
 
     vec trS = vec(1, fill::zeros);
     for (uword i = 0; i < n; i++)
     {
         GWM_LOG_STOP_BREAK(mStatus);
-        vec wi = wt.col(i) % mWt2;
-        mat Ci = CiMat(mX, wi);
-        S.row(i) = mX.row(i) * Ci;
-        trS(0) += S(i, i);
+        try
+        {
+            vec wi = wt.col(i) % mWt2;
+            mat Ci = CiMat(mX, wi);
+            S.row(i) = mX.row(i) * Ci;
+            trS(0) += S(i, i);
+        }
+        catch (const exception& e)
+        {
+            GWM_LOG_ERROR(e.what());
+            return DBL_MAX;
+        }
     }
     GWM_LOG_STOP_RETURN(mStatus, DBL_MAX);
 
@@ -710,6 +750,7 @@ double GWRGeneralized::bandwidthSizeGGWRCriterionAICSerial(BandwidthWeight *band
     {
         double trs = double(trS(0));
         double AICc = -2 * mLLik + 2 * trs + 2 * trs * (trs + 1) / (n - trs - 1);
+        if (!isfinite(AICc)) return DBL_MAX;
         GWM_LOG_PROGRESS_PERCENT(exp(- abs(mBandwidthLastCriterion - AICc)));
         mBandwidthLastCriterion = AICc;
         return AICc;
@@ -737,8 +778,16 @@ double GWRGeneralized::bandwidthSizeGGWRCriterionAICOmp(BandwidthWeight *bandwid
         }
     }
     GWM_LOG_STOP_RETURN(mStatus, DBL_MAX);
-    
-    (this->*mCalWtFunction)(mX, mY, wt);
+
+    try
+    {
+        (this->*mCalWtFunction)(mX, mY, wt);
+    }
+    catch (const exception& e)
+    {
+        GWM_LOG_ERROR(e.what());
+        return DBL_MAX;
+    }
     GWM_LOG_STOP_RETURN(mStatus, DBL_MAX);
 
     vec trS = vec(mOmpThreadNum, fill::zeros);
@@ -770,6 +819,7 @@ double GWRGeneralized::bandwidthSizeGGWRCriterionAICOmp(BandwidthWeight *bandwid
     {
         double trs = sum(trS);
         double AICc = -2 * mLLik + 2 * trs + 2 * trs * (trs + 1) / (n - trs - 1);
+        if (!isfinite(AICc)) return DBL_MAX;
         GWM_LOG_PROGRESS_PERCENT(exp(- abs(mBandwidthLastCriterion - AICc)));
         mBandwidthLastCriterion = AICc;
         return AICc;
diff --git a/src/gwmodelpp/GWRLocalCollinearity.cpp b/src/gwmodelpp/GWRLocalCollinearity.cpp
index 7d43847..20437a6 100644
--- a/src/gwmodelpp/GWRLocalCollinearity.cpp
+++ b/src/gwmodelpp/GWRLocalCollinearity.cpp
@@ -212,6 +212,7 @@ double GWRLocalCollinearity::bandwidthSizeCriterionCVSerial(BandwidthWeight* ban
         mXnot1.col(i) = mX.col(i+1);
     }
     //主循环
+    bool success = true;
     for (uword i = 0; i < n ; i++)
     {
         GWM_LOG_STOP_BREAK(mStatus);
@@ -241,7 +242,16 @@ double GWRLocalCollinearity::bandwidthSizeCriterionCVSerial(BandwidthWeight* ban
                 locallambda(i) = (S(0) - mCnThresh*S(m-1)) / (mCnThresh - 1);
             }
         }
-        betas.row(i) = trans( ridgelm(wgt,locallambda(i)) );
+        try
+        {
+            betas.row(i) = trans( ridgelm(wgt,locallambda(i)) );
+        }
+        catch (const exception& e)
+        {
+            GWM_LOG_ERROR(e.what());
+            success = false;
+            break;
+        }
     }
     //yhat赋值
     //vec mYHat = fitted(mX,betas);
@@ -251,7 +261,7 @@ double GWRLocalCollinearity::bandwidthSizeCriterionCVSerial(BandwidthWeight* ban
     //计算cv
 
     double cv = sum(residual % residual);
-    if (mStatus == Status::Success && isfinite(cv))
+    if (mStatus == Status::Success && success && isfinite(cv))
     {
         GWM_LOG_PROGRESS_PERCENT(exp(- abs(mBandwidthLastCriterion - cv)));
         mBandwidthLastCriterion = cv;
-- 
2.43.0


From 81be77a16c3a0dcde455d21071b6399a907b0bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:02 +0000
Subject: [PATCH 22/46] fix: the distributed multiscale model sums the disjoint
 coefficient parts; a maximum loses the negative ones

---
 src/gwmodelpp/GWRMultiscale.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/gwmodelpp/GWRMultiscale.cpp b/src/gwmodelpp/GWRMultiscale.cpp
index ebcde25..eace887 100644
--- a/src/gwmodelpp/GWRMultiscale.cpp
+++ b/src/gwmodelpp/GWRMultiscale.cpp
@@ -962,7 +962,7 @@ vec GWRMultiscale::fitVarMpi(const size_t var)
     mat S;
     vec beta_p = (this->*mFitVarCore)(mXi, mYi, mSpatialWeights[var], S);
     vec beta(nDp);
-    MPI_Allreduce(beta_p.memptr(), beta.memptr(), nDp, MPI_DOUBLE, MPI_MAX, MPI_COMM_WORLD);
+    MPI_Allreduce(beta_p.memptr(), beta.memptr(), nDp, MPI_DOUBLE, MPI_SUM, MPI_COMM_WORLD);
     if (mHasHatMatrix)
     {
         mat SArrayi = mSArray.slice(var) - mS0;
@@ -997,7 +997,7 @@ double GWRMultiscale::bandwidthSizeCriterionVarCVMpi(BandwidthWeight* bandwidthW
     GWM_MPI_MASTER_BEGIN
     betas_all = vec(size(betas));
     GWM_MPI_MASTER_END
-    MPI_Reduce(betas.memptr(), betas_all.memptr(), betas.n_elem, MPI_DOUBLE, MPI_MAX, 0, MPI_COMM_WORLD);
+    MPI_Reduce(betas.memptr(), betas_all.memptr(), betas.n_elem, MPI_DOUBLE, MPI_SUM, 0, MPI_COMM_WORLD);
     GWM_MPI_MASTER_BEGIN
     vec residual = mYi - mXi % betas_all;
     cv = sum(residual % residual);
@@ -1038,7 +1038,7 @@ double GWRMultiscale::bandwidthSizeCriterionVarAICMpi(BandwidthWeight* bandwidth
     betas_all = vec(size(betas));
     shat_all = vec(size(shat));
     GWM_MPI_MASTER_END
-    MPI_Reduce(betas.memptr(), betas_all.memptr(), betas.n_elem, MPI_DOUBLE, MPI_MAX, 0, MPI_COMM_WORLD);
+    MPI_Reduce(betas.memptr(), betas_all.memptr(), betas.n_elem, MPI_DOUBLE, MPI_SUM, 0, MPI_COMM_WORLD);
     MPI_Reduce(shat.memptr(), shat_all.memptr(), shat.n_elem, MPI_DOUBLE, MPI_SUM, 0, MPI_COMM_WORLD);
     GWM_MPI_MASTER_BEGIN
     aic = GWRBasic::AICc(mXi, mYi, betas_all, shat_all);
-- 
2.43.0


From b4f8ec774a3dc4a92b9e3f296d44f80225db965f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:35 +0000
Subject: [PATCH 23/46] fix: the multiscale bandwidth search needs the distance
 range of variables with an initial bandwidth too

---
 src/gwmodelpp/GWRMultiscale.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/gwmodelpp/GWRMultiscale.cpp b/src/gwmodelpp/GWRMultiscale.cpp
index eace887..34ca9d9 100644
--- a/src/gwmodelpp/GWRMultiscale.cpp
+++ b/src/gwmodelpp/GWRMultiscale.cpp
@@ -197,6 +197,11 @@ mat GWRMultiscale::fit()
     for (uword i = 0; i < nVar ; i++)
     {
         GWM_LOG_STOP_BREAK(mStatus);
+        if (mBandwidthInitilize[i] != BandwidthInitilizeType::Specified)
+        {
+            mMaxDistances[i] = mSpatialWeights[i].distance()->maxDistance();
+            mMinDistances[i] = mSpatialWeights[i].distance()->minDistance();
+        }
         if (mBandwidthInitilize[i] == BandwidthInitilizeType::Null)
         {
             mBandwidthSizeCriterion = bandwidthSizeCriterionVar(mBandwidthSelectionApproach[i]);
@@ -204,9 +209,6 @@ mat GWRMultiscale::fit()
             mXi = mX.col(i);
             BandwidthWeight* bw0 = bandwidth(i);
             bool adaptive = bw0->adaptive();
-            mMaxDistances[i] = mSpatialWeights[i].distance()->maxDistance();
-            mMinDistances[i] = mSpatialWeights[i].distance()->minDistance();
-
             GWM_LOG_INFO(string(GWM_LOG_TAG_MGWR_INITIAL_BW) + to_string(i));
             BandwidthSelector selector;
             selector.setBandwidth(bw0);
-- 
2.43.0


From 552ab7f298713853c15e206591a860803e287aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:08 +0000
Subject: [PATCH 24/46] fix: remaining loops over observations ask whether to
 stop

---
 src/gwmodelpp/GTWR.cpp           | 1 +
 src/gwmodelpp/GWDA.cpp           | 7 +++++++
 src/gwmodelpp/GWDR.cpp           | 1 +
 src/gwmodelpp/GWRGeneralized.cpp | 8 ++++++++
 src/gwmodelpp/GWRRobust.cpp      | 1 +
 src/gwmodelpp/GWRScalable.cpp    | 2 ++
 6 files changed, 20 insertions(+)

diff --git a/src/gwmodelpp/GTWR.cpp b/src/gwmodelpp/GTWR.cpp
index ae4527b..e64588f 100644
--- a/src/gwmodelpp/GTWR.cpp
+++ b/src/gwmodelpp/GTWR.cpp
@@ -81,6 +81,7 @@ mat GTWR::fit()
     vec localR2 = vec(nDp, fill::zeros);
     for (uword i = 0; i < nDp; i++)
     {
+        GWM_LOG_STOP_BREAK(mStatus);
         vec w = mSpatialWeight.weightVector(i);
         double tss = sum(dybar2 % w);
         double rss = sum(dyhat2 % w);
diff --git a/src/gwmodelpp/GWDA.cpp b/src/gwmodelpp/GWDA.cpp
index 1dfe708..a38d88d 100644
--- a/src/gwmodelpp/GWDA.cpp
+++ b/src/gwmodelpp/GWDA.cpp
@@ -44,6 +44,7 @@ void GWDA::run()
         mprY = mY;
     }
     (this->*mDiscriminantAnalysisFunction)();
+    GWM_LOG_STOP_RETURN(mStatus, void());
     uword NV = mRes.n_cols;
     vec correct(mY.size(), fill::zeros);
     for (uword i = 0; i < mGroup.size(); i++)
@@ -99,9 +100,11 @@ void GWDA::discriminantAnalysisSerial()
     mat wt(nRp, nRp, fill::zeros);
     for (uword i = 0; i < nRp; i++)
     {
+        GWM_LOG_STOP_BREAK(mStatus);
         // vec w=mSpatialWeight.weightVector(i);
         wt.col(i) = mSpatialWeight.weightVector(i);
     }
+    GWM_LOG_STOP_RETURN(mStatus, void());
     if (!mHasPredict) wt.diag().zeros();
     if (mIsWqda)
     {
@@ -124,8 +127,10 @@ void GWDA::discriminantAnalysisOmp()
 #pragma omp parallel for num_threads(mOmpThreadNum)
     for (uword i = 0; i < nRp; i++)
     {
+        GWM_LOG_STOP_CONTINUE(mStatus);
         wt.col(i) = mSpatialWeight.weightVector(i);
     }
+    GWM_LOG_STOP_RETURN(mStatus, void());
     if (mIsWqda)
     {
         mRes = wqda(mX, mY, wt, mprX, mHascov, mHasmean, mHasprior);
@@ -282,6 +287,7 @@ mat GWDA::wqda(arma::mat &x, std::vector<std::string> &y, arma::mat &wt, arma::m
     {
         for (uword j = 0; j < nPr; j++)
         {
+            GWM_LOG_STOP_BREAK(mStatus);
             vec xprj = xpr.row(j).t();
             vec meani = localMean[i].row(j).t();
             mat covmatj = sigmagw[i].row(j);
@@ -378,6 +384,7 @@ mat GWDA::wlda(arma::mat &x, std::vector<std::string> &y, arma::mat &wt, arma::m
     {
         for (uword j = 0; j < nPr; j++)
         {
+            GWM_LOG_STOP_BREAK(mStatus);
             vec xprj = xpr.row(j).t();
             vec meani = localMean[i].row(j).t();
             mat covmatj = sigma1gw.row(j);
diff --git a/src/gwmodelpp/GWDR.cpp b/src/gwmodelpp/GWDR.cpp
index dce5c8d..405c9d4 100644
--- a/src/gwmodelpp/GWDR.cpp
+++ b/src/gwmodelpp/GWDR.cpp
@@ -114,6 +114,7 @@ mat GWDR::fit()
     vec localR2 = vec(nDp, arma::fill::zeros);
     for (uword i = 0; i < nDp; i++)
     {
+        GWM_LOG_STOP_BREAK(mStatus);
         vec w(nDp, arma::fill::ones);
         for (auto&& sw : mSpatialWeights)
         {
diff --git a/src/gwmodelpp/GWRGeneralized.cpp b/src/gwmodelpp/GWRGeneralized.cpp
index fa3f17d..79a4c30 100644
--- a/src/gwmodelpp/GWRGeneralized.cpp
+++ b/src/gwmodelpp/GWRGeneralized.cpp
@@ -62,11 +62,13 @@ mat GWRGeneralized::fit()
     {
         for (uword i = 0; i < nRp; i++)
         {
+            GWM_LOG_STOP_BREAK(mStatus);
             vec weight = mSpatialWeight.weightVector(i);
             mWtMat2.col(i) = weight;
         }
         for (uword i = 0; i < nDp; i++)
         {
+            GWM_LOG_STOP_BREAK(mStatus);
             vec weight = mSpatialWeight.weightVector(i);
             mWtMat1.col(i) = weight;
         }
@@ -75,11 +77,13 @@ mat GWRGeneralized::fit()
     {
         for (uword i = 0; i < nDp; i++)
         {
+            GWM_LOG_STOP_BREAK(mStatus);
             vec weight = mSpatialWeight.weightVector(i);
             mWtMat2.col(i) = weight;
         }
         mWtMat1 = mWtMat2;
     }
+    GWM_LOG_STOP_RETURN(mStatus, mat(nDp, nVar, arma::fill::zeros));
 
     //bool isAllCorrect = true;
     GWM_LOG_STAGE("Calibrating GLM model");
@@ -847,6 +851,7 @@ vec GWRGeneralized::PoissonWtSerial(const mat &x, const vec &y, mat wt)
         myAdj = nu + (y - mu) / mu;
         for (uword i = 0; i < dpn; i++)
         {
+            GWM_LOG_STOP_RETURN(mStatus, mu);
             vec wi = wt.col(i);
             vec gwsi = gwPredict(x, myAdj, wi % mWt2);
             betas.col(i) = gwsi;
@@ -888,6 +893,7 @@ vec GWRGeneralized::PoissonWtOmp(const mat &x, const vec &y, mat wt)
         myAdj = nu + (y - mu) / mu;
         for (uword i = 0; i < dpn; i++)
         {
+            GWM_LOG_STOP_RETURN(mStatus, mu);
             vec wi = wt.col(i);
             vec gwsi = gwPredict(x, myAdj, wi % mWt2);
             betas.col(i) = gwsi;
@@ -933,6 +939,7 @@ vec GWRGeneralized::BinomialWtSerial(const mat &x, const vec &y, mat wt)
         myAdj = nu + (y - mu) / (mu % (1 - mu));
         for (uword i = 0; i < dpn; i++)
         {
+            GWM_LOG_STOP_RETURN(mStatus, mu);
             vec wi = wt.col(i);
             vec gwsi = gwPredict(x, myAdj, wi % mWt2);
             betas.col(i) = gwsi;
@@ -976,6 +983,7 @@ vec GWRGeneralized::BinomialWtOmp(const mat &x, const vec &y, mat wt)
         myAdj = nu + (y - mu) / (mu % (1 - mu));
         for (uword i = 0; i < dpn ; i++)
         {
+            GWM_LOG_STOP_RETURN(mStatus, mu);
             vec wi = wt.col(i);
             vec gwsi = gwPredict(x, myAdj, wi % mWt2);
             betas.col(i) = gwsi;
diff --git a/src/gwmodelpp/GWRRobust.cpp b/src/gwmodelpp/GWRRobust.cpp
index da07f97..4d86169 100644
--- a/src/gwmodelpp/GWRRobust.cpp
+++ b/src/gwmodelpp/GWRRobust.cpp
@@ -95,6 +95,7 @@ mat GWRRobust::fit()
     vec localR2 = vec(nDp, fill::zeros);
     for (uword i = 0; i < nDp; i++)
     {
+        GWM_LOG_STOP_BREAK(mStatus);
         vec w = mSpatialWeight.weightVector(i);
         double tss = sum(dybar2 % w);
         double rss = sum(dyhat2 % w);
diff --git a/src/gwmodelpp/GWRScalable.cpp b/src/gwmodelpp/GWRScalable.cpp
index 00d1325..7cd8e86 100644
--- a/src/gwmodelpp/GWRScalable.cpp
+++ b/src/gwmodelpp/GWRScalable.cpp
@@ -152,6 +152,7 @@ void GWRScalable::findDataPointNeighbours()
     mat nnDists(nBw, nDp, fill::zeros);
     for (uword i = 0; i < nDp; i++)
     {
+        GWM_LOG_STOP_BREAK(mStatus);
         vec d = mDpSpatialWeight.distance()->distance(i);
         uvec i_sorted = sort_index(d);
         vec d_sorted = sort(d);
@@ -180,6 +181,7 @@ mat GWRScalable::findNeighbours(const mat& points, umat &nnIndex)
     mat dists(nBw, nRp, fill::zeros);
     for (uword i = 0; i < nRp; i++)
     {
+        GWM_LOG_STOP_BREAK(mStatus);
         vec d = mSpatialWeight.distance()->distance(i);
         uvec i_sorted = sort_index(d);
         vec d_sorted = sort(d);
-- 
2.43.0


From 43f181eb10f9b38907712ccd851980985f76a2c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:42 +0000
Subject: [PATCH 25/46] fix: the local collinearity model accumulated hat
 traces over repeated fits, and its parallel prediction returned nVar*nDp
 columns and reset the traces

---
 src/gwmodelpp/GWRLocalCollinearity.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/gwmodelpp/GWRLocalCollinearity.cpp b/src/gwmodelpp/GWRLocalCollinearity.cpp
index 20437a6..554a1b3 100644
--- a/src/gwmodelpp/GWRLocalCollinearity.cpp
+++ b/src/gwmodelpp/GWRLocalCollinearity.cpp
@@ -351,6 +351,8 @@ mat GWRLocalCollinearity::fitSerial(const mat& x, const vec& y)
     vec localcn(nDp, fill::zeros);
     vec locallambda(nDp, fill::zeros);
     vec hatrow(nDp, fill::zeros);
+    this->mTrS = 0.0;
+    this->mTrStS = 0.0;
     for(uword i=0;i<nDp ;i++)
     {
         GWM_LOG_STOP_BREAK(mStatus);
@@ -505,13 +507,12 @@ mat GWRLocalCollinearity::fitOmp(const mat& x, const vec& y)
 
 mat GWRLocalCollinearity::predictOmp(const arma::mat &locations, const mat& x, const vec& y)
 {
-    uword nRp = locations.n_rows, nVar = mX.size() + 1;
+    uword nRp = locations.n_rows, nVar = mX.n_cols;
     mat betas(nRp, nVar, fill::zeros);
     vec localcn(nRp, fill::zeros);
     vec locallambda(nRp, fill::zeros);
     vec hatrow(nRp, fill::zeros);
 
-    mat shat_all(2, mOmpThreadNum, fill::zeros);
     bool success = true;
     std::exception except;
     //int current = 0;
@@ -559,9 +560,6 @@ mat GWRLocalCollinearity::predictOmp(const arma::mat &locations, const mat& x, c
     {
         throw except;
     }
-    vec shat = sum(shat_all,1);
-    this->mTrS = sum(shat.row(0));
-    this->mTrStS = sum(shat.row(1));
     return betas;
 }
 #endif
-- 
2.43.0


From 9a7ccc43b2ad81b008afb4450adc3e251b11b5f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:58 +0000
Subject: [PATCH 26/46] fix: distributed criteria of GWRBasic report a failing
 candidate as infinite instead of leaving the other processes waiting

---
 src/gwmodelpp/GWRBasic.cpp | 57 ++++++++++++++++++++++++++++++++++----
 1 file changed, 51 insertions(+), 6 deletions(-)

diff --git a/src/gwmodelpp/GWRBasic.cpp b/src/gwmodelpp/GWRBasic.cpp
index 520835c..8527ab8 100644
--- a/src/gwmodelpp/GWRBasic.cpp
+++ b/src/gwmodelpp/GWRBasic.cpp
@@ -849,7 +849,22 @@ double GWRBasic::indepVarsSelectionCriterionMpi(const vector<size_t>& indepVars)
     sw.weight<BandwidthWeight>()->setBandwidth(DBL_MAX);
     vec shat;
     double aic;
-    mat betas = (this->*mFitCoreSHatFunction)(x, y, sw, shat);
+    int success = 1;
+    Col<int> successAll(mWorkerNum);
+    mat betas;
+    try
+    {
+        betas = (this->*mFitCoreSHatFunction)(x, y, sw, shat);
+        success = mStatus == Status::Success;
+    }
+    catch (const exception& e)
+    {
+        GWM_LOG_ERROR(e.what());
+        success = 0;
+    }
+    MPI_Allgather(&success, 1, MPI_INT, successAll.memptr(), 1, MPI_INT, MPI_COMM_WORLD);
+    if (!all(successAll))
+        return DBL_MAX;
 GWM_MPI_MASTER_BEGIN
     umat received(mWorkerNum, 2, arma::fill::zeros);
     received.row(0).fill(1);
@@ -879,7 +894,7 @@ GWM_MPI_WORKER_BEGIN
     MPI_Send(betas.memptr(), betas.n_elem, MPI_DOUBLE, 0, int(GWRBasicAICMpiTags::Betas), MPI_COMM_WORLD);
 GWM_MPI_WORKER_END
     MPI_Bcast(&aic, 1, MPI_DOUBLE, 0, MPI_COMM_WORLD);
-    return aic;
+    return isfinite(aic) ? aic : DBL_MAX;
 }
 
 double GWRBasic::bandwidthSizeCriterionCVMpi(BandwidthWeight* bandwidthWeight)
@@ -887,7 +902,22 @@ double GWRBasic::bandwidthSizeCriterionCVMpi(BandwidthWeight* bandwidthWeight)
     uword nDp = mX.n_rows, nVar = mX.n_cols;
     SpatialWeight sw(bandwidthWeight, mSpatialWeight.distance());
     double cv;
-    mat betas = (this->*mFitCoreCVFunction)(mX, mY, sw).t();
+    int success = 1;
+    Col<int> successAll(mWorkerNum);
+    mat betas;
+    try
+    {
+        betas = (this->*mFitCoreCVFunction)(mX, mY, sw).t();
+        success = mStatus == Status::Success;
+    }
+    catch (const exception& e)
+    {
+        GWM_LOG_ERROR(e.what());
+        success = 0;
+    }
+    MPI_Allgather(&success, 1, MPI_INT, successAll.memptr(), 1, MPI_INT, MPI_COMM_WORLD);
+    if (!all(successAll))
+        return DBL_MAX;
 GWM_MPI_MASTER_BEGIN
     uvec received(mWorkerNum, arma::fill::zeros);
     received.row(0).fill(1);
@@ -906,7 +936,7 @@ GWM_MPI_WORKER_BEGIN
     MPI_Send(betas.memptr(), betas.n_elem, MPI_DOUBLE, 0, int(GWRBasicCVMpiTags::Betas), MPI_COMM_WORLD);
 GWM_MPI_WORKER_END
     MPI_Bcast(&cv, 1, MPI_DOUBLE, 0, MPI_COMM_WORLD);
-    return cv;
+    return isfinite(cv) ? cv : DBL_MAX;
 }
 
 double GWRBasic::bandwidthSizeCriterionAICMpi(BandwidthWeight* bandwidthWeight)
@@ -914,7 +944,22 @@ double GWRBasic::bandwidthSizeCriterionAICMpi(BandwidthWeight* bandwidthWeight)
     SpatialWeight sw(bandwidthWeight, mSpatialWeight.distance());
     double aic;
     vec shat(2, fill::zeros);
-    mat betas = (this->*mFitCoreSHatFunction)(mX, mY, sw, shat);
+    int success = 1;
+    Col<int> successAll(mWorkerNum);
+    mat betas;
+    try
+    {
+        betas = (this->*mFitCoreSHatFunction)(mX, mY, sw, shat);
+        success = mStatus == Status::Success;
+    }
+    catch (const exception& e)
+    {
+        GWM_LOG_ERROR(e.what());
+        success = 0;
+    }
+    MPI_Allgather(&success, 1, MPI_INT, successAll.memptr(), 1, MPI_INT, MPI_COMM_WORLD);
+    if (!all(successAll))
+        return DBL_MAX;
 GWM_MPI_MASTER_BEGIN
     umat received(mWorkerNum, 2, arma::fill::zeros);
     received.row(0).fill(1);
@@ -944,7 +989,7 @@ GWM_MPI_WORKER_BEGIN
     MPI_Send(betas.memptr(), betas.n_elem, MPI_DOUBLE, 0, int(GWRBasicAICMpiTags::Betas), MPI_COMM_WORLD);
 GWM_MPI_WORKER_END
     MPI_Bcast(&aic, 1, MPI_DOUBLE, 0, MPI_COMM_WORLD);
-    return aic;
+    return isfinite(aic) ? aic : DBL_MAX;
 }
 
 arma::mat gwm::GWRBasic::fitMpi()
-- 
2.43.0


From 00cba7231df95cbdb0df590203f8cc023c0abe8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:58 +0000
Subject: [PATCH 27/46] fix: sequential fits leave the unstored hat matrix
 empty too, like the parallel ones

---
 src/gwmodelpp/GTWR.cpp      | 2 +-
 src/gwmodelpp/GWDR.cpp      | 2 +-
 src/gwmodelpp/GWRBasic.cpp  | 4 ++--
 src/gwmodelpp/GWRRobust.cpp | 2 +-
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/gwmodelpp/GTWR.cpp b/src/gwmodelpp/GTWR.cpp
index e64588f..60b27d9 100644
--- a/src/gwmodelpp/GTWR.cpp
+++ b/src/gwmodelpp/GTWR.cpp
@@ -167,7 +167,7 @@ mat GTWR::fitSerial(const mat& x, const vec& y, mat& betasSE, vec& shat, vec& qD
             vec p = - si.t();
             p(i) += 1.0;
             qDiag += p % p;
-            S.row(isStoreS() ? i : 0) = si;
+            if (isStoreS()) S.row(i) = si;
         }
         catch (const exception& e)
         {
diff --git a/src/gwmodelpp/GWDR.cpp b/src/gwmodelpp/GWDR.cpp
index 405c9d4..f5c6588 100644
--- a/src/gwmodelpp/GWDR.cpp
+++ b/src/gwmodelpp/GWDR.cpp
@@ -241,7 +241,7 @@ mat GWDR::fitSerial(const mat& x, const vec& y, mat& betasSE, vec& shat, vec& qd
             onei(i) = 1;
             mat p = (onei - si).t();
             qdiag += p % p;
-            S.row(isStoreS() ? i : 0) = si;
+            if (isStoreS()) S.row(i) = si;
         }
         catch(const std::exception& e)
         {
diff --git a/src/gwmodelpp/GWRBasic.cpp b/src/gwmodelpp/GWRBasic.cpp
index 8527ab8..e8cfa45 100644
--- a/src/gwmodelpp/GWRBasic.cpp
+++ b/src/gwmodelpp/GWRBasic.cpp
@@ -274,8 +274,8 @@ mat GWRBasic::fitCoreSerial(const mat &x, const vec &y, const SpatialWeight &sw)
             vec p = - si.t();
             p(i) += 1.0;
             mQDiag += p % p;
-            mS.row(isStoreS() ? (i - workRange.first) : 0) = si;
-            mC.slice(isStoreC() ? (i - workRange.first) : 0) = ci;
+            if (isStoreS()) mS.row(i - workRange.first) = si;
+            if (isStoreC()) mC.slice(i - workRange.first) = ci;
         }
         catch (const exception& e)
         {
diff --git a/src/gwmodelpp/GWRRobust.cpp b/src/gwmodelpp/GWRRobust.cpp
index 4d86169..8849037 100644
--- a/src/gwmodelpp/GWRRobust.cpp
+++ b/src/gwmodelpp/GWRRobust.cpp
@@ -154,7 +154,7 @@ mat GWRRobust::fitSerial(const mat& x, const vec& y, mat& betasSE, vec& shat, ve
             vec p = - si.t();
             p(i) += 1.0;
             qDiag += p % p;
-            S.row(isStoreS() ? i : 0) = si;
+            if (isStoreS()) S.row(i) = si;
         }
         catch (const exception& e)
         {
-- 
2.43.0


From 2e79ea856cb31f76c76cf12380b6f4886c5f1e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:01 +0000
Subject: [PATCH 28/46] fix: a location without weighted neighbours made the
 local collinearity model's parallel cross-validation end the process

---
 src/gwmodelpp/GWRLocalCollinearity.cpp | 88 +++++++++++++-------------
 1 file changed, 44 insertions(+), 44 deletions(-)

diff --git a/src/gwmodelpp/GWRLocalCollinearity.cpp b/src/gwmodelpp/GWRLocalCollinearity.cpp
index 554a1b3..badfc98 100644
--- a/src/gwmodelpp/GWRLocalCollinearity.cpp
+++ b/src/gwmodelpp/GWRLocalCollinearity.cpp
@@ -231,19 +231,19 @@ double GWRLocalCollinearity::bandwidthSizeCriterionCVSerial(BandwidthWeight* ban
         //mat U,V均为正交矩阵，S为奇异值构成的列向量
         mat U,V;
         colvec S;
-        svd(U,S,V,x1w.each_row() / sqrt(sum(x1w % x1w, 0)));
-        //赋值操作
-        //S.print();
-        //qDebug() << S(m);
-        localcn(i)=S(0)/S(m-1);
-        locallambda(i) = mLambda;
-        if(mLambdaAdjust){
-            if(localcn(i)>mCnThresh){
-                locallambda(i) = (S(0) - mCnThresh*S(m-1)) / (mCnThresh - 1);
-            }
-        }
         try
         {
+            if (!svd(U,S,V,x1w.each_row() / sqrt(sum(x1w % x1w, 0)))) throw std::runtime_error("svd(): decomposition failed");
+            //赋值操作
+            //S.print();
+            //qDebug() << S(m);
+            localcn(i)=S(0)/S(m-1);
+            locallambda(i) = mLambda;
+            if(mLambdaAdjust){
+                if(localcn(i)>mCnThresh){
+                    locallambda(i) = (S(0) - mCnThresh*S(m-1)) / (mCnThresh - 1);
+                }
+            }
             betas.row(i) = trans( ridgelm(wgt,locallambda(i)) );
         }
         catch (const exception& e)
@@ -306,19 +306,19 @@ double GWRLocalCollinearity::bandwidthSizeCriterionCVOmp(BandwidthWeight* bandwi
         //mat U,V均为正交矩阵，S为奇异值构成的列向量
         mat U,V;
         colvec S;
-        svd(U,S,V,x1w.each_row() / sqrt(sum(x1w % x1w, 0)));
-        //赋值操作
-        //S.print();
-        //qDebug() << S(m);
-        localcn(i)=S(0)/S(m-1);
-        locallambda(i) = mLambda;
-        if(mLambdaAdjust){
-            if(localcn(i)>mCnThresh){
-                locallambda(i) = (S(0) - mCnThresh*S(m-1)) / (mCnThresh - 1);
-            }
-        }
         try
         {
+            if (!svd(U,S,V,x1w.each_row() / sqrt(sum(x1w % x1w, 0)))) throw std::runtime_error("svd(): decomposition failed");
+            //赋值操作
+            //S.print();
+            //qDebug() << S(m);
+            localcn(i)=S(0)/S(m-1);
+            locallambda(i) = mLambda;
+            if(mLambdaAdjust){
+                if(localcn(i)>mCnThresh){
+                    locallambda(i) = (S(0) - mCnThresh*S(m-1)) / (mCnThresh - 1);
+                }
+            }
             betas.row(i) = trans( ridgelm(wgt,locallambda(i)) );
         }
         catch (const exception& e)
@@ -370,7 +370,7 @@ mat GWRLocalCollinearity::fitSerial(const mat& x, const vec& y)
         //mat U,V均为正交矩阵，S为奇异值构成的列向量
         mat U,V;
         colvec S;
-        svd(U,S,V,x1w.each_row() / sqrt(sum(x1w % x1w, 0)));
+        if (!svd(U,S,V,x1w.each_row() / sqrt(sum(x1w % x1w, 0)))) throw std::runtime_error("svd(): decomposition failed");
         //qDebug() << mX.n_cols;
         //赋值操作
         localcn(i)=S(0)/S(x.n_cols-1);
@@ -418,7 +418,7 @@ mat GWRLocalCollinearity::predictSerial(const arma::mat &locations, const mat& x
         //mat U,V均为正交矩阵，S为奇异值构成的列向量
         mat U,V;
         colvec S;
-        svd(U,S,V,x1w.each_row() / sqrt(sum(x1w % x1w, 0)));
+        if (!svd(U,S,V,x1w.each_row() / sqrt(sum(x1w % x1w, 0)))) throw std::runtime_error("svd(): decomposition failed");
         //qDebug() << mX.n_cols;
         //赋值操作
         localcn(i)=S(0)/S(x.n_cols-1);
@@ -465,18 +465,18 @@ mat GWRLocalCollinearity::fitOmp(const mat& x, const vec& y)
         //mat U,V均为正交矩阵，S为奇异值构成的列向量
         mat U,V;
         colvec S;
-        svd(U,S,V,x1w.each_row() / sqrt(sum(x1w % x1w, 0)));
-        //qDebug() << mX.n_cols;
-        //赋值操作
-        localcn(i)=S(0)/S(x.n_cols-1);
-        locallambda(i) = mLambda;
-        if(mLambdaAdjust){
-            if(localcn(i)>mCnThresh){
-                locallambda(i) = (S(0) - mCnThresh*S(x.n_cols-1)) / (mCnThresh - 1);
-            }
-        }
         try
         {
+            if (!svd(U,S,V,x1w.each_row() / sqrt(sum(x1w % x1w, 0)))) throw std::runtime_error("svd(): decomposition failed");
+            //qDebug() << mX.n_cols;
+            //赋值操作
+            localcn(i)=S(0)/S(x.n_cols-1);
+            locallambda(i) = mLambda;
+            if(mLambdaAdjust){
+                if(localcn(i)>mCnThresh){
+                    locallambda(i) = (S(0) - mCnThresh*S(x.n_cols-1)) / (mCnThresh - 1);
+                }
+            }
             betas.row(i) = trans( ridgelm(wi,locallambda(i)) );
             //如果没有给regressionpoint
             mat xm = x;
@@ -534,18 +534,18 @@ mat GWRLocalCollinearity::predictOmp(const arma::mat &locations, const mat& x, c
         //mat U,V均为正交矩阵，S为奇异值构成的列向量
         mat U,V;
         colvec S;
-        svd(U,S,V,x1w.each_row() / sqrt(sum(x1w % x1w, 0)));
-        //qDebug() << mX.n_cols;
-        //赋值操作
-        localcn(i)=S(0)/S(x.n_cols-1);
-        locallambda(i) = mLambda;
-        if(mLambdaAdjust){
-            if(localcn(i)>mCnThresh){
-                locallambda(i) = (S(0) - mCnThresh*S(x.n_cols-1)) / (mCnThresh - 1);
-            }
-        }
         try
         {
+            if (!svd(U,S,V,x1w.each_row() / sqrt(sum(x1w % x1w, 0)))) throw std::runtime_error("svd(): decomposition failed");
+            //qDebug() << mX.n_cols;
+            //赋值操作
+            localcn(i)=S(0)/S(x.n_cols-1);
+            locallambda(i) = mLambda;
+            if(mLambdaAdjust){
+                if(localcn(i)>mCnThresh){
+                    locallambda(i) = (S(0) - mCnThresh*S(x.n_cols-1)) / (mCnThresh - 1);
+                }
+            }
             betas.row(i) = trans( ridgelm(wi,locallambda(i)) );
         }
         catch (const exception& e)
-- 
2.43.0


From 9a88479dd7b4e068f3d3e91834dd69d2314db6df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:03 +0000
Subject: [PATCH 29/46] fix: GWRGeneralized::setHasRegressionData overwrote the
 regression data instead of setting the flag

---
 include/gwmodelpp/GWRGeneralized.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gwmodelpp/GWRGeneralized.h b/include/gwmodelpp/GWRGeneralized.h
index 397bbba..4320c0e 100644
--- a/include/gwmodelpp/GWRGeneralized.h
+++ b/include/gwmodelpp/GWRGeneralized.h
@@ -519,7 +519,7 @@ inline bool GWRGeneralized::hasRegressionData() const
 
 inline void GWRGeneralized::setHasRegressionData(bool value)
 {
-    mRegressionData = value;
+    mHasRegressionData = value;
 }
 inline arma::mat GWRGeneralized::regressionData() const
 {
-- 
2.43.0


From b4f2c1030b71cc8f63ab42b11a9168e052da6379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:03 +0000
Subject: [PATCH 30/46] fix: copying an empty SpatialWeight dereferenced null,
 and setting its own weight or distance used it after deletion

---
 include/gwmodelpp/spatialweight/SpatialWeight.h | 16 ++++++++++------
 src/gwmodelpp/spatialweight/SpatialWeight.cpp   |  4 ++--
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/include/gwmodelpp/spatialweight/SpatialWeight.h b/include/gwmodelpp/spatialweight/SpatialWeight.h
index 5a35e69..abf4864 100644
--- a/include/gwmodelpp/spatialweight/SpatialWeight.h
+++ b/include/gwmodelpp/spatialweight/SpatialWeight.h
@@ -106,8 +106,8 @@ public:
      */
     SpatialWeight(const SpatialWeight& spatialWeight)
     {
-        mWeight = spatialWeight.mWeight->clone();
-        mDistance = spatialWeight.mDistance->clone();
+        if (spatialWeight.mWeight) mWeight = spatialWeight.mWeight->clone();
+        if (spatialWeight.mDistance) mDistance = spatialWeight.mDistance->clone();
     }
 
     /**
@@ -191,8 +191,9 @@ public:
      */
     void setWeight(Weight& weight)
     {
+        Weight* cloned = weight.clone();
         if (mWeight) delete mWeight;
-        mWeight = weight.clone();
+        mWeight = cloned;
     }
 
     /**
@@ -210,8 +211,9 @@ public:
      */
     void setWeight(Weight&& weight)
     {
+        Weight* cloned = weight.clone();
         if (mWeight) delete mWeight;
-        mWeight = weight.clone();
+        mWeight = cloned;
     }
 
     /**
@@ -283,8 +285,9 @@ public:
      */
     void setDistance(Distance& distance)
     {
+        Distance* cloned = distance.clone();
         if (mDistance) delete mDistance;
-        mDistance = distance.clone();
+        mDistance = cloned;
     }
 
     /**
@@ -302,8 +305,9 @@ public:
      */
     void setDistance(Distance&& distance)
     {
+        Distance* cloned = distance.clone();
         if (mDistance) delete mDistance;
-        mDistance = distance.clone();
+        mDistance = cloned;
     }
 
     /**
diff --git a/src/gwmodelpp/spatialweight/SpatialWeight.cpp b/src/gwmodelpp/spatialweight/SpatialWeight.cpp
index 256f548..de21b3e 100644
--- a/src/gwmodelpp/spatialweight/SpatialWeight.cpp
+++ b/src/gwmodelpp/spatialweight/SpatialWeight.cpp
@@ -28,8 +28,8 @@ SpatialWeight &SpatialWeight::operator=(const SpatialWeight &spatialWeight)
     if (this == &spatialWeight) return *this;
     if (mWeight) delete mWeight;
     if (mDistance) delete mDistance;
-    mWeight = spatialWeight.mWeight->clone();
-    mDistance = spatialWeight.mDistance->clone();
+    mWeight = spatialWeight.mWeight ? spatialWeight.mWeight->clone() : nullptr;
+    mDistance = spatialWeight.mDistance ? spatialWeight.mDistance->clone() : nullptr;
     return *this;
 }
 
-- 
2.43.0


From 3af7154cba92326534369ed41319825b86b3ffb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:03 +0000
Subject: [PATCH 31/46] fix: the bandwidth selector leaked its candidates on
 early exits and every optimum it returned

---
 include/gwmodelpp/BandwidthSelector.h |  3 ++-
 src/gwmodelpp/BandwidthSelector.cpp   | 16 +++++++---------
 2 files changed, 9 insertions(+), 10 deletions(-)

diff --git a/include/gwmodelpp/BandwidthSelector.h b/include/gwmodelpp/BandwidthSelector.h
index 59f3ba9..cfb67ae 100644
--- a/include/gwmodelpp/BandwidthSelector.h
+++ b/include/gwmodelpp/BandwidthSelector.h
@@ -94,12 +94,13 @@ public:
      * @brief \~english Optimize bandwidth. \~chinese 优化带宽。
      * 
      * @param instance \~english A pointer to a instance of type inherited from gwm::IBandwidthSelectable \~chinese 指向派生自 gwm::IBandwidthSelectable 类型对象的指针
-     * @return std::vector<std::size_t> \~english Optimized bandwdith \~chinese 优选后的带宽
+     * @return std::vector<std::size_t> \~english Optimized bandwdith, which belongs to this selector or is the given one \~chinese 优选后的带宽，归本对象所有或为传入的带宽
      */
     BandwidthWeight* optimize(IBandwidthSelectable* instance);
 
 private:
     BandwidthWeight* mBandwidth;    //!< \~english Bandwidth \~chinese 带宽
+    BandwidthWeight mOptimum;       //!< \~english Optimized bandwidth \~chinese 优选后的带宽
     double mLower;  //!< \~english Lower bound \~chinese 下限
     double mUpper;  //!< \~english Upper bound \~chinese 上限
     std::unordered_map<double, double> mBandwidthCriterion; //!< \~english List of criterion values for each bandwidth \~chinese 带宽优选过程中每种带宽对应的指标值列表
diff --git a/src/gwmodelpp/BandwidthSelector.cpp b/src/gwmodelpp/BandwidthSelector.cpp
index fbd4767..72eef4d 100644
--- a/src/gwmodelpp/BandwidthSelector.cpp
+++ b/src/gwmodelpp/BandwidthSelector.cpp
@@ -5,8 +5,9 @@ using namespace gwm;
 
 BandwidthWeight* BandwidthSelector::optimize(IBandwidthSelectable* instance)
 {
-    BandwidthWeight* w1 = static_cast<BandwidthWeight*>(mBandwidth->clone());
-    BandwidthWeight* w2 = static_cast<BandwidthWeight*>(mBandwidth->clone());
+    BandwidthWeight candidate1(*mBandwidth), candidate2(*mBandwidth);
+    BandwidthWeight* w1 = &candidate1;
+    BandwidthWeight* w2 = &candidate2;
     double xU = mUpper, xL = mLower;
     bool adaptBw = mBandwidth->adaptive();
     const double eps = 1e-4;
@@ -64,15 +65,12 @@ BandwidthWeight* BandwidthSelector::optimize(IBandwidthSelectable* instance)
         xopt = (f1 < f2) ? x1 : x2;
         d1 = f2 - f1;
     }
-    delete w1;
-    delete w2;
     if (s1 == Status::Success && s2 == Status::Success)
     {
-        BandwidthWeight* wopt = new BandwidthWeight();
-        wopt->setKernel(mBandwidth->kernel());
-        wopt->setAdaptive(mBandwidth->adaptive());
-        wopt->setBandwidth(xopt);
-        return wopt;
+        mOptimum.setKernel(mBandwidth->kernel());
+        mOptimum.setAdaptive(mBandwidth->adaptive());
+        mOptimum.setBandwidth(xopt);
+        return &mOptimum;
     }
     else
     {
-- 
2.43.0


From b6b9ddd55326f347e74e0230b5fa6127b7804607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:03 +0000
Subject: [PATCH 32/46] fix: every generalized linear model fit leaked its
 family model

---
 include/gwmodelpp/GeneralizedLinearModel.h | 4 +++-
 include/gwmodelpp/LinearModel.h            | 1 +
 src/gwmodelpp/GeneralizedLinearModel.cpp   | 4 ++--
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/gwmodelpp/GeneralizedLinearModel.h b/include/gwmodelpp/GeneralizedLinearModel.h
index 719968f..8086d0b 100644
--- a/include/gwmodelpp/GeneralizedLinearModel.h
+++ b/include/gwmodelpp/GeneralizedLinearModel.h
@@ -1,6 +1,8 @@
 #ifndef GENERALIZEDLINEARMODEL_H
 #define GENERALIZEDLINEARMODEL_H
 
+#include <memory>
+
 #include "armadillo_config.h"
 #include "LinearModel.h"
 #include "GWRGeneralized.h"
@@ -23,7 +25,7 @@ protected:
     int mMaxit;
     bool mIntercept;
     arma::mat mOffset;
-    LinearModel* mModel;
+    std::unique_ptr<LinearModel> mModel;
 
     arma::mat mMuStart;
     double mDev;
diff --git a/include/gwmodelpp/LinearModel.h b/include/gwmodelpp/LinearModel.h
index e977b42..4b3a77e 100644
--- a/include/gwmodelpp/LinearModel.h
+++ b/include/gwmodelpp/LinearModel.h
@@ -9,6 +9,7 @@ namespace gwm
 class LinearModel
 {
 public:
+    virtual ~LinearModel() {}
     virtual arma::mat initialize() = 0;
     virtual arma::mat variance(arma::mat mu) = 0;
     virtual arma::mat linkinv(arma::mat eta) = 0;
diff --git a/src/gwmodelpp/GeneralizedLinearModel.cpp b/src/gwmodelpp/GeneralizedLinearModel.cpp
index e49492d..337816c 100644
--- a/src/gwmodelpp/GeneralizedLinearModel.cpp
+++ b/src/gwmodelpp/GeneralizedLinearModel.cpp
@@ -31,12 +31,12 @@ void GeneralizedLinearModel::fit(){
     }
     if(mFamily == GWRGeneralized::Family::Poisson){
         //初始化模型
-        mModel = new PoissonModel();
+        mModel.reset(new PoissonModel());
         mModel->setY(mY);
         mModel->setWeight(mWeight);
     }
     else{
-        mModel = new BinomialModel();
+        mModel.reset(new BinomialModel());
         mModel->setY(mY);
         mModel->setWeight(mWeight);
     }
-- 
2.43.0


From f5690ae9073870e4bfa94f9ab38a68099e4c4c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:13 +0000
Subject: [PATCH 33/46] fix: isValid accepted missing weights (or dereferenced
 them) and data of mismatching sizes

---
 include/gwmodelpp/SpatialMonoscaleAlgorithm.h  |  2 ++
 include/gwmodelpp/SpatialMultiscaleAlgorithm.h |  2 ++
 src/gwmodelpp/GWDA.cpp                         |  5 ++++-
 src/gwmodelpp/GWDR.cpp                         | 11 +++++++++++
 src/gwmodelpp/GWPCA.cpp                        |  5 ++++-
 src/gwmodelpp/GWRMultiscale.cpp                |  6 ++++++
 src/gwmodelpp/GWSS.cpp                         |  3 +++
 src/gwmodelpp/SpatialMonoscaleAlgorithm.cpp    |  5 +++++
 src/gwmodelpp/SpatialMultiscaleAlgorithm.cpp   | 10 ++++++++++
 9 files changed, 47 insertions(+), 2 deletions(-)

diff --git a/include/gwmodelpp/SpatialMonoscaleAlgorithm.h b/include/gwmodelpp/SpatialMonoscaleAlgorithm.h
index d95851b..d47fc05 100644
--- a/include/gwmodelpp/SpatialMonoscaleAlgorithm.h
+++ b/include/gwmodelpp/SpatialMonoscaleAlgorithm.h
@@ -105,6 +105,8 @@ public:
      */
     void createDistanceParameter();
 
+    virtual bool isValid() override;
+
 protected:
     SpatialWeight mSpatialWeight;   //!< Spatial weight configuration.    
 };
diff --git a/include/gwmodelpp/SpatialMultiscaleAlgorithm.h b/include/gwmodelpp/SpatialMultiscaleAlgorithm.h
index 933fac1..7a3a565 100644
--- a/include/gwmodelpp/SpatialMultiscaleAlgorithm.h
+++ b/include/gwmodelpp/SpatialMultiscaleAlgorithm.h
@@ -72,6 +72,8 @@ public:
      */
     void createDistanceParameter(size_t size);
 
+    virtual bool isValid() override;
+
 protected:
     std::vector<SpatialWeight> mSpatialWeights;   //!< Spatial weight configuration.
 };
diff --git a/src/gwmodelpp/GWDA.cpp b/src/gwmodelpp/GWDA.cpp
index a38d88d..002be9a 100644
--- a/src/gwmodelpp/GWDA.cpp
+++ b/src/gwmodelpp/GWDA.cpp
@@ -14,11 +14,14 @@ using namespace std;
 // template<class T>
 bool GWDA::isValid()
 {
-    if (SpatialAlgorithm::isValid())
+    if (SpatialMonoscaleAlgorithm::isValid())
     {
         if (!(mX.n_cols > 0))
             return false;
 
+        if (!(mX.n_rows == mY.size() && mX.n_rows == mCoords.n_rows))
+            return false;
+
         return true;
     }
     else
diff --git a/src/gwmodelpp/GWDR.cpp b/src/gwmodelpp/GWDR.cpp
index f5c6588..8fedf40 100644
--- a/src/gwmodelpp/GWDR.cpp
+++ b/src/gwmodelpp/GWDR.cpp
@@ -755,11 +755,22 @@ bool GWDR::isValid()
 {
     if (SpatialAlgorithm::isValid())
     {
+        if (!(mX.n_cols > 0 && mX.n_rows == mY.n_rows && mX.n_rows == mCoords.n_rows))
+        {
+            return false;
+        }
+
         if (!(mSpatialWeights.size() == mCoords.n_cols))
         {
             return false;
         }
 
+        for (SpatialWeight& spatialWeight : mSpatialWeights)
+        {
+            if (!spatialWeight.isValid())
+                return false;
+        }
+
         return true;
     }
     else return false;
diff --git a/src/gwmodelpp/GWPCA.cpp b/src/gwmodelpp/GWPCA.cpp
index a2a954a..307de10 100644
--- a/src/gwmodelpp/GWPCA.cpp
+++ b/src/gwmodelpp/GWPCA.cpp
@@ -53,8 +53,11 @@ void GWPCA::wpca(const mat& x, const vec& w, mat& V, vec & d)
 
 bool GWPCA::isValid()
 {
-    if (SpatialAlgorithm::isValid())
+    if (SpatialMonoscaleAlgorithm::isValid())
     {
+        if (!(mX.n_cols > 0 && mX.n_rows == mCoords.n_rows))
+            return false;
+
         if (mK > 0)
         {
             return true;
diff --git a/src/gwmodelpp/GWRMultiscale.cpp b/src/gwmodelpp/GWRMultiscale.cpp
index 34ca9d9..a80c4ff 100644
--- a/src/gwmodelpp/GWRMultiscale.cpp
+++ b/src/gwmodelpp/GWRMultiscale.cpp
@@ -447,9 +447,15 @@ double gwm::GWRMultiscale::bandwidthSizeCriterionVarAICBase(BandwidthWeight* ban
 
 bool GWRMultiscale::isValid()
 {
+    if (!SpatialMultiscaleAlgorithm::isValid())
+        return false;
+
     if (!(mX.n_cols > 0))
         return false;
 
+    if (!(mX.n_rows == mY.n_rows && mX.n_rows == mCoords.n_rows))
+        return false;
+
     size_t nVar = mX.n_cols;
 
     if (mSpatialWeights.size() != nVar)
diff --git a/src/gwmodelpp/GWSS.cpp b/src/gwmodelpp/GWSS.cpp
index 22b350d..117995f 100644
--- a/src/gwmodelpp/GWSS.cpp
+++ b/src/gwmodelpp/GWSS.cpp
@@ -51,6 +51,9 @@ bool GWSS::isValid()
         if (!(mX.n_cols > 0))
             return false;
 
+        if (!(mX.n_rows == mCoords.n_rows))
+            return false;
+
         return true;
     }
     else return false;
diff --git a/src/gwmodelpp/SpatialMonoscaleAlgorithm.cpp b/src/gwmodelpp/SpatialMonoscaleAlgorithm.cpp
index cba6884..e34d3eb 100644
--- a/src/gwmodelpp/SpatialMonoscaleAlgorithm.cpp
+++ b/src/gwmodelpp/SpatialMonoscaleAlgorithm.cpp
@@ -2,6 +2,11 @@
 
 using namespace gwm;
 
+bool SpatialMonoscaleAlgorithm::isValid()
+{
+    return SpatialAlgorithm::isValid() && mSpatialWeight.isValid();
+}
+
 void SpatialMonoscaleAlgorithm::createDistanceParameter()
 {
     if (mSpatialWeight.distance()->type() == Distance::DistanceType::CRSDistance || 
diff --git a/src/gwmodelpp/SpatialMultiscaleAlgorithm.cpp b/src/gwmodelpp/SpatialMultiscaleAlgorithm.cpp
index d86ed3f..f54ce7c 100644
--- a/src/gwmodelpp/SpatialMultiscaleAlgorithm.cpp
+++ b/src/gwmodelpp/SpatialMultiscaleAlgorithm.cpp
@@ -4,6 +4,16 @@ using namespace std;
 using namespace arma;
 using namespace gwm;
 
+bool SpatialMultiscaleAlgorithm::isValid()
+{
+    for (SpatialWeight& spatialWeight : mSpatialWeights)
+    {
+        if (!spatialWeight.isValid())
+            return false;
+    }
+    return SpatialAlgorithm::isValid();
+}
+
 void SpatialMultiscaleAlgorithm::createDistanceParameter(size_t size)
 {
      for (uword i = 0; i < size; i++){
-- 
2.43.0


From ecea4685d718264dd963d464fdce6363d5456695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:02 +0000
Subject: [PATCH 34/46] fix: threaded discriminant analysis let every
 observation vote for its own group

---
 src/gwmodelpp/GWDA.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gwmodelpp/GWDA.cpp b/src/gwmodelpp/GWDA.cpp
index 002be9a..4831584 100644
--- a/src/gwmodelpp/GWDA.cpp
+++ b/src/gwmodelpp/GWDA.cpp
@@ -134,6 +134,7 @@ void GWDA::discriminantAnalysisOmp()
         wt.col(i) = mSpatialWeight.weightVector(i);
     }
     GWM_LOG_STOP_RETURN(mStatus, void());
+    if (!mHasPredict) wt.diag().zeros();
     if (mIsWqda)
     {
         mRes = wqda(mX, mY, wt, mprX, mHascov, mHasmean, mHasprior);
-- 
2.43.0


From b21b89e4582d66ef566415e19d2e6c6015df68fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:02 +0000
Subject: [PATCH 35/46] fix: a second discriminant analysis took the first
 one's data for prediction data

---
 include/gwmodelpp/GWDA.h |  2 +-
 src/gwmodelpp/GWDA.cpp   | 16 ++++------------
 2 files changed, 5 insertions(+), 13 deletions(-)

diff --git a/include/gwmodelpp/GWDA.h b/include/gwmodelpp/GWDA.h
index 90d19af..62e6786 100644
--- a/include/gwmodelpp/GWDA.h
+++ b/include/gwmodelpp/GWDA.h
@@ -402,7 +402,7 @@ namespace gwm
            
         arma::mat mX; //!< \~english Independent variable matrix for training \~chinese 自变量矩阵
         std::vector<std::string> mY; //!< \~english Dependent variable vector \~chinese 因变量矩阵
-        bool mHasPredict; //!< \~english Whether prediction data are provided \~chinese 是否提供了预测数据
+        bool mHasPredict = false; //!< \~english Whether prediction data are provided \~chinese 是否提供了预测数据
         arma::mat mprX; //!< \~english Variable Prediction independent variable matrix \~chinese 预测自变量矩阵
         std::vector<std::string> mprY; //!< \~english Prediction dependent variable matrix \~chinese 预测因变量矩阵
         arma::mat mRes; // !< \~english the result matrix of geographical weighted discriminant analysis \~chinese 地理加权判别分析结果矩阵
diff --git a/src/gwmodelpp/GWDA.cpp b/src/gwmodelpp/GWDA.cpp
index 4831584..3b0b498 100644
--- a/src/gwmodelpp/GWDA.cpp
+++ b/src/gwmodelpp/GWDA.cpp
@@ -38,14 +38,6 @@ void GWDA::run()
     }
     // vec lev = levels(mY);
     mHasPredict = !(mprX.is_empty() && mprY.empty());
-    if (mprX.is_empty())
-    {
-        mprX = mX;
-    }
-    if (mprY.empty())
-    {
-        mprY = mY;
-    }
     (this->*mDiscriminantAnalysisFunction)();
     GWM_LOG_STOP_RETURN(mStatus, void());
     uword NV = mRes.n_cols;
@@ -111,11 +103,11 @@ void GWDA::discriminantAnalysisSerial()
     if (!mHasPredict) wt.diag().zeros();
     if (mIsWqda)
     {
-        mRes = wqda(mX, mY, wt, mprX, mHascov, mHasmean, mHasprior);
+        mRes = wqda(mX, mY, wt, mHasPredict ? mprX : mX, mHascov, mHasmean, mHasprior);
     }
     else
     {
-        mRes = wlda(mX, mY, wt, mprX, mHascov, mHasmean, mHasprior);
+        mRes = wlda(mX, mY, wt, mHasPredict ? mprX : mX, mHascov, mHasmean, mHasprior);
     }
 }
 
@@ -137,11 +129,11 @@ void GWDA::discriminantAnalysisOmp()
     if (!mHasPredict) wt.diag().zeros();
     if (mIsWqda)
     {
-        mRes = wqda(mX, mY, wt, mprX, mHascov, mHasmean, mHasprior);
+        mRes = wqda(mX, mY, wt, mHasPredict ? mprX : mX, mHascov, mHasmean, mHasprior);
     }
     else
     {
-        mRes = wlda(mX, mY, wt, mprX, mHascov, mHasmean, mHasprior);
+        mRes = wlda(mX, mY, wt, mHasPredict ? mprX : mX, mHascov, mHasmean, mHasprior);
     }
 }
 #endif
-- 
2.43.0


From e56bcc90a5250ae180f45bea68cbaf7c15a87ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:02 +0000
Subject: [PATCH 36/46] fix: quadratic discriminant analysis without local
 means, covariances or priors threw

---
 src/gwmodelpp/GWDA.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gwmodelpp/GWDA.cpp b/src/gwmodelpp/GWDA.cpp
index 3b0b498..9d7a736 100644
--- a/src/gwmodelpp/GWDA.cpp
+++ b/src/gwmodelpp/GWDA.cpp
@@ -222,10 +222,10 @@ mat GWDA::wqda(arma::mat &x, std::vector<std::string> &y, arma::mat &wt, arma::m
 {
     vector<string> lev = levels(y);
     uword m = lev.size();
-    // uword nDp = x.n_rows;
+    uword nDp = x.n_rows;
     uword nPr = xpr.n_rows;
     mat wtOnes;
-    // wtOnes.ones(nDp, nPr);
+    wtOnes.ones(nDp, nPr);
     vector<mat> xg = splitX(x, y);
     vector<vec> prior;
     mat wti; //(nDp, nPr, fill::zeros);
-- 
2.43.0


From 8bfb3321d173e4b1863626f3c464fedda520df2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:02 +0000
Subject: [PATCH 37/46] fix: discriminant scores truncated half the number of
 groups

---
 src/gwmodelpp/GWDA.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gwmodelpp/GWDA.cpp b/src/gwmodelpp/GWDA.cpp
index 9d7a736..e55254c 100644
--- a/src/gwmodelpp/GWDA.cpp
+++ b/src/gwmodelpp/GWDA.cpp
@@ -288,7 +288,7 @@ mat GWDA::wqda(arma::mat &x, std::vector<std::string> &y, arma::mat &wt, arma::m
             vec meani = localMean[i].row(j).t();
             mat covmatj = sigmagw[i].row(j);
             vec x1 = 0.5 * (xprj - meani).t() * solve(covmatj, (xprj - meani)); // inv(covmatj) * (xprj - meani);
-            logPf(j, i) = (m / 2) * log(norm(covmatj)) + x1(0) - log(prior[i].at(j));
+            logPf(j, i) = (m / 2.0) * log(norm(covmatj)) + x1(0) - log(prior[i].at(j));
         }
     }
     vector<string> groupPr;
@@ -385,7 +385,7 @@ mat GWDA::wlda(arma::mat &x, std::vector<std::string> &y, arma::mat &wt, arma::m
             vec meani = localMean[i].row(j).t();
             mat covmatj = sigma1gw.row(j);
             vec x1 = 0.5 * (xprj - meani).t() * solve(covmatj, (xprj - meani));
-            logPf(j, i) = (m / 2) * log(norm(covmatj)) + x1(0) - log(prior[i].at(j));
+            logPf(j, i) = (m / 2.0) * log(norm(covmatj)) + x1(0) - log(prior[i].at(j));
         }
     }
     vector<string> groupPr;
-- 
2.43.0


From 6fd7ddc0687dc39582bcffc4933ab9dcae5ff8e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:02 +0000
Subject: [PATCH 38/46] fix: group probabilities of the discriminant analysis
 were not those of its scores and could be negative

---
 src/gwmodelpp/GWDA.cpp | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/gwmodelpp/GWDA.cpp b/src/gwmodelpp/GWDA.cpp
index e55254c..9899275 100644
--- a/src/gwmodelpp/GWDA.cpp
+++ b/src/gwmodelpp/GWDA.cpp
@@ -51,16 +51,11 @@ void GWDA::run()
     }
     uvec correctCount = find(correct == 1);
     mCorrectRate = (double)correctCount.n_rows / nRp;
-    mat tmp = mRes.cols(0, NV - 1);
-    for (uword i = 0; i < NV - 1; i++)
-    {
-        vec tempi = tmp.col(i);
-        tmp.col(i) = exp(tempi);
-    }
+    mat tmp = exp(-mRes);
     mat probs = tmp.each_col() / sum(tmp, 1); // / sum(tmp, 1);
     vec pmax = max(probs, 1);
     // double pnorm=0;
-    vec p = vec(NV - 1, fill::ones) / (NV - 1.0);
+    vec p = vec(NV, fill::ones) / (double)NV;
     double entMax = shannonEntropy(p);
     vec entropy(nRp, fill::zeros);
     for (uword i = 0; i < nRp; i++)
-- 
2.43.0


From be28ef46f771e1521415581099968a0dca18e376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:34 +0000
Subject: [PATCH 39/46] fix: local standard deviations of the principal
 components used the last location's weights everywhere

---
 src/gwmodelpp/GWPCA.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/gwmodelpp/GWPCA.cpp b/src/gwmodelpp/GWPCA.cpp
index 307de10..4f433aa 100644
--- a/src/gwmodelpp/GWPCA.cpp
+++ b/src/gwmodelpp/GWPCA.cpp
@@ -20,7 +20,7 @@ mat GWPCA::solveSerial(const mat& x, cube& loadings, mat& sdev)
 {
     uword nDp = mCoords.n_rows, nVar = mX.n_cols;
     mat d_all(nVar, nDp, arma::fill::zeros);
-    vec w0;
+    vec sumW(nDp, arma::fill::zeros);
     loadings = cube(nDp, nVar, mK, arma::fill::zeros);
     for (uword i = 0; i < nDp; i++)
     {
@@ -29,7 +29,7 @@ mat GWPCA::solveSerial(const mat& x, cube& loadings, mat& sdev)
         mat V;
         vec d;
         wpca(x, w, V, d);
-        w0 = w;
+        sumW(i) = sum(w);
         d_all.col(i) = d;
         for (int j = 0; j < mK; j++)
         {
@@ -38,7 +38,8 @@ mat GWPCA::solveSerial(const mat& x, cube& loadings, mat& sdev)
         GWM_LOG_PROGRESS(i + 1, nDp);
     }
     d_all = trans(d_all);
-    mat variance = (d_all / sqrt(sum(w0))) % (d_all / sqrt(sum(w0)));
+    mat variance = square(d_all);
+    variance.each_col() /= sumW;
     sdev = sqrt(variance);
     mat pv = variance.cols(0, mK - 1).each_col() % (1.0 / sum(variance, 1)) * 100.0;
     return pv;
-- 
2.43.0


From a4863c6772114e95c8502bfc78dc5ee4ce2e2a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:01 +0000
Subject: [PATCH 40/46] fix: multiscale diagnostics never set the AIC

---
 src/gwmodelpp/GWRMultiscale.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/gwmodelpp/GWRMultiscale.cpp b/src/gwmodelpp/GWRMultiscale.cpp
index a80c4ff..a176353 100644
--- a/src/gwmodelpp/GWRMultiscale.cpp
+++ b/src/gwmodelpp/GWRMultiscale.cpp
@@ -63,12 +63,14 @@ RegressionDiagnostic GWRMultiscale::CalcDiagnostic(const mat &x, const vec &y, c
     double trStS = shat(1);
     double enp = 2 * trS - trStS;
     double edf = nDp - 2 * trS + trStS;
+    double AIC = nDp * log(sigmaHat21) + nDp * log(2 * M_PI) + nDp + trS;
     double AICc = nDp * log(sigmaHat21) + nDp * log(2 * M_PI) + nDp * ((nDp + trS) / (nDp - 2 - trS));
     double adjustRsquare = 1 - (1 - Rsquare) * (nDp - 1) / (edf - 1);
 
     // 保存结果
     RegressionDiagnostic diagnostic;
     diagnostic.RSS = RSSg;
+    diagnostic.AIC = AIC;
     diagnostic.AICc = AICc;
     diagnostic.ENP = enp;
     diagnostic.EDF = edf;
-- 
2.43.0


From 06aa4ba74765c34db55afa95962c7fd02f391b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:17 +0000
Subject: [PATCH 41/46] fix: generalized models without hat matrix multiplied
 two column vectors and threw

---
 src/gwmodelpp/GWRGeneralized.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/gwmodelpp/GWRGeneralized.cpp b/src/gwmodelpp/GWRGeneralized.cpp
index 79a4c30..af7567c 100644
--- a/src/gwmodelpp/GWRGeneralized.cpp
+++ b/src/gwmodelpp/GWRGeneralized.cpp
@@ -278,7 +278,7 @@ mat GWRGeneralized::fitPoissonSerial(const mat &x, const vec &y)
             try
             {
                 vec wi = mWtMat2.col(i);
-                vec gwsi = gwPredict(x, myAdj, wi * mWt2);
+                vec gwsi = gwPredict(x, myAdj, wi % mWt2);
                 betas.col(i) = gwsi;
             }
             catch (const exception& e)
@@ -381,7 +381,7 @@ mat GWRGeneralized::fitPoissonOmp(const mat &x, const vec &y)
                 try
                 {
                     vec wi = mWtMat2.col(i);
-                    vec gwsi = gwPredict(x, myAdj, wi * mWt2);
+                    vec gwsi = gwPredict(x, myAdj, wi % mWt2);
                     betas.col(i) = gwsi;
                     // emit tick(current++, nRp);
                 }
@@ -473,7 +473,7 @@ mat GWRGeneralized::fitBinomialOmp(const mat &x, const vec &y)
                 try
                 {
                     vec wi = mWtMat2.col(i);
-                    vec gwsi = gwPredict(x, myAdj, wi * mWt2);
+                    vec gwsi = gwPredict(x, myAdj, wi % mWt2);
                     mBetas.col(i) = gwsi;
                     // emit tick(current++, nRp);
                 }
@@ -549,7 +549,7 @@ mat GWRGeneralized::fitBinomialSerial(const mat &x, const vec &y)
             try
             {
                 vec wi = mWtMat2.col(i);
-                vec gwsi = gwPredict(x, myAdj, wi * mWt2);
+                vec gwsi = gwPredict(x, myAdj, wi % mWt2);
                 mBetas.col(i) = gwsi;
                 // emit tick(i, nRp);
             }
-- 
2.43.0


From 23aed6e9d551b51fcdbe6d1a861e52b34f16c14f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:17 +0000
Subject: [PATCH 42/46] fix: binomial models without hat matrix returned zero
 coefficients

---
 src/gwmodelpp/GWRGeneralized.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gwmodelpp/GWRGeneralized.cpp b/src/gwmodelpp/GWRGeneralized.cpp
index af7567c..9c15287 100644
--- a/src/gwmodelpp/GWRGeneralized.cpp
+++ b/src/gwmodelpp/GWRGeneralized.cpp
@@ -474,7 +474,7 @@ mat GWRGeneralized::fitBinomialOmp(const mat &x, const vec &y)
                 {
                     vec wi = mWtMat2.col(i);
                     vec gwsi = gwPredict(x, myAdj, wi % mWt2);
-                    mBetas.col(i) = gwsi;
+                    betas.col(i) = gwsi;
                     // emit tick(current++, nRp);
                 }
                 catch (const exception& e)
@@ -550,7 +550,7 @@ mat GWRGeneralized::fitBinomialSerial(const mat &x, const vec &y)
             {
                 vec wi = mWtMat2.col(i);
                 vec gwsi = gwPredict(x, myAdj, wi % mWt2);
-                mBetas.col(i) = gwsi;
+                betas.col(i) = gwsi;
                 // emit tick(i, nRp);
             }
             catch (const exception& e)
-- 
2.43.0


From 791cb80f7904e8396950ef17f46eddc05829d461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:17 +0000
Subject: [PATCH 43/46] fix: prediction of generalized models ignored the
 locations

predict() computed the coefficients at the samples again (or threw when
no fit had filled the weights), returned them transposed and left the
hat matrix switched off.
---
 src/gwmodelpp/GWRGeneralized.cpp | 36 ++++++++++++++++++++++++--------
 1 file changed, 27 insertions(+), 9 deletions(-)

diff --git a/src/gwmodelpp/GWRGeneralized.cpp b/src/gwmodelpp/GWRGeneralized.cpp
index 9c15287..c16ed3c 100644
--- a/src/gwmodelpp/GWRGeneralized.cpp
+++ b/src/gwmodelpp/GWRGeneralized.cpp
@@ -57,7 +57,7 @@ mat GWRGeneralized::fit()
         mShat = vec(2, fill::zeros);
     }
     mWtMat1 = mat(nDp, nDp, fill::zeros);
-    mWtMat2 = mat(nRp, nDp, fill::zeros);
+    mWtMat2 = mat(nDp, nRp, fill::zeros);
     if (mHasRegressionData)
     {
         for (uword i = 0; i < nRp; i++)
@@ -176,12 +176,30 @@ void GWRGeneralized::createPredictionDistanceParameter(const arma::mat &location
 mat GWRGeneralized::predict(const mat& locations)
 {
     uword nDp = mCoords.n_rows, nVars = mX.n_cols;
-    mHasHatMatrix = false;
+    uword nRp = locations.n_rows;
+    createDistanceParameter();
+    GWM_LOG_STOP_RETURN(mStatus, mat(nRp, nVars, arma::fill::zeros));
+    mWtMat1 = mat(nDp, nDp, fill::zeros);
+    for (uword i = 0; i < nDp; i++)
+    {
+        GWM_LOG_STOP_BREAK(mStatus);
+        mWtMat1.col(i) = mSpatialWeight.weightVector(i);
+    }
+
     createPredictionDistanceParameter(locations);
-    GWM_LOG_STOP_RETURN(mStatus, mat(nDp, nVars, arma::fill::zeros));
+    GWM_LOG_STOP_RETURN(mStatus, mat(nRp, nVars, arma::fill::zeros));
+    mWtMat2 = mat(nDp, nRp, fill::zeros);
+    for (uword i = 0; i < nRp; i++)
+    {
+        GWM_LOG_STOP_BREAK(mStatus);
+        mWtMat2.col(i) = mSpatialWeight.weightVector(i);
+    }
 
-    mBetas = (this->*mGGWRfitFunction)(mX, mY);
-    GWM_LOG_STOP_RETURN(mStatus, mat(nDp, nVars, arma::fill::zeros));
+    bool hasHatMatrix = mHasHatMatrix;
+    mHasHatMatrix = false;
+    mBetas = trans((this->*mGGWRfitFunction)(mX, mY));
+    mHasHatMatrix = hasHatMatrix;
+    GWM_LOG_STOP_RETURN(mStatus, mat(nRp, nVars, arma::fill::zeros));
 
     return mBetas;
 }
@@ -213,7 +231,7 @@ void GWRGeneralized::CalGLMModel(const mat &x, const vec &y)
 } */
 mat GWRGeneralized::fitPoissonSerial(const mat &x, const vec &y)
 {
-    uword nDp = mCoords.n_rows, nRp = mHasRegressionData ? mRegressionData.n_rows : nDp;
+    uword nDp = mCoords.n_rows, nRp = mWtMat2.n_cols;
     uword nVar = x.n_cols;
     mat betas = mat(nVar, nRp, fill::zeros);
 
@@ -300,7 +318,7 @@ mat GWRGeneralized::fitPoissonSerial(const mat &x, const vec &y)
 #ifdef ENABLE_OPENMP
 mat GWRGeneralized::fitPoissonOmp(const mat &x, const vec &y)
 {
-    uword nDp = mCoords.n_rows, nRp = mHasRegressionData ? mRegressionData.n_rows : nDp;
+    uword nDp = mCoords.n_rows, nRp = mWtMat2.n_cols;
     uword nVar = x.n_cols;
     mat betas = mat(nVar, nRp, fill::zeros);
 
@@ -407,7 +425,7 @@ mat GWRGeneralized::fitPoissonOmp(const mat &x, const vec &y)
 mat GWRGeneralized::fitBinomialOmp(const mat &x, const vec &y)
 {
     uword nVar = x.n_cols;
-    uword nDp = mCoords.n_rows, nRp = mHasRegressionData ? mRegressionData.n_rows : nDp;
+    uword nDp = mCoords.n_rows, nRp = mWtMat2.n_cols;
     //    mat S = mat(nDp,nDp);
     //    mat n = vec(mY.n_rows,fill::ones);
     mat betas = mat(nVar, nRp, fill::zeros);
@@ -497,7 +515,7 @@ mat GWRGeneralized::fitBinomialOmp(const mat &x, const vec &y)
 
 mat GWRGeneralized::fitBinomialSerial(const mat &x, const vec &y)
 {
-    uword nDp = mCoords.n_rows, nRp = mHasRegressionData ? mRegressionData.n_rows : nDp;
+    uword nDp = mCoords.n_rows, nRp = mWtMat2.n_cols;
     uword nVar = x.n_cols;
     //    mat S = mat(nDp,nDp);
     //    mat n = vec(mY.n_rows,fill::ones);
-- 
2.43.0


From 8248f76cfa1c0e59f6487e71d109f836ba3f401a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:17 +0000
Subject: [PATCH 44/46] fix: AICc of the global generalized model lost the
 fraction of its correction

---
 src/gwmodelpp/GWRGeneralized.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gwmodelpp/GWRGeneralized.cpp b/src/gwmodelpp/GWRGeneralized.cpp
index c16ed3c..352abb3 100644
--- a/src/gwmodelpp/GWRGeneralized.cpp
+++ b/src/gwmodelpp/GWRGeneralized.cpp
@@ -216,7 +216,7 @@ void GWRGeneralized::CalGLMModel(const mat &x, const vec &y)
     double dev = mGlm.dev();
     double pseudor2 = 1 - dev / nulldev;
     double aic = dev + 2 * nVar;
-    double aicc = aic + 2 * nVar * (nVar + 1) / (nDp - nVar - 1);
+    double aicc = aic + 2.0 * nVar * (nVar + 1) / (nDp - nVar - 1.0);
     vec vGLMDiags(5);
     vGLMDiags(0) = aic;
     vGLMDiags(1) = aicc;
-- 
2.43.0


From fad716eac08a2a6146fc467d408002f217a86959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:17 +0000
Subject: [PATCH 45/46] fix: AIC of the generalized linear model counted
 observations as parameters

---
 src/gwmodelpp/GeneralizedLinearModel.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gwmodelpp/GeneralizedLinearModel.cpp b/src/gwmodelpp/GeneralizedLinearModel.cpp
index 337816c..81f31d5 100644
--- a/src/gwmodelpp/GeneralizedLinearModel.cpp
+++ b/src/gwmodelpp/GeneralizedLinearModel.cpp
@@ -102,7 +102,7 @@ void GeneralizedLinearModel::fit(){
     }
     vec nulldevtemp = mModel->devResids(mY,wtdmu1,mWeight);
     mNullDev = sum(nulldevtemp);
-    uword rank = empty? 0 : mX.n_rows;
+    uword rank = empty? 0 : mX.n_cols;
     mAIC = mModel->aic(mY,n,mu,mWeight) + 2.0 * rank;
 }
 
-- 
2.43.0


From 847e5a527ae64506828dd4c431432991804ff9f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:17 +0000
Subject: [PATCH 46/46] fix: the family of a generalized model was undefined
 until set

---
 include/gwmodelpp/GWRGeneralized.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gwmodelpp/GWRGeneralized.h b/include/gwmodelpp/GWRGeneralized.h
index 4320c0e..5c888e1 100644
--- a/include/gwmodelpp/GWRGeneralized.h
+++ b/include/gwmodelpp/GWRGeneralized.h
@@ -414,7 +414,7 @@ private:
     void createPredictionDistanceParameter(const arma::mat& locations);
 
 protected:
-    Family mFamily;             //!< \~english Family of the model \~chinese 模型的族
+    Family mFamily = Family::Poisson;             //!< \~english Family of the model \~chinese 模型的族
     double mTol=1e-5;           //!< \~english Tolerance \~chinese 容忍值
     std::size_t mMaxiter=20;    //!< \~english Maximum of iteration \~chinese 最大迭代次数
 
-- 
2.43.0

