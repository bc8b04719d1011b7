From 98b363f4cd6a52f9d02565b83224c66600626096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:11 +0000
Subject: [PATCH 01/74] fix: GProcessingTimesLogger::load_ lost the number of
 bins in y-direction

---
 src/geneva/GPluggableOptimizationMonitors.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/geneva/GPluggableOptimizationMonitors.cpp b/src/geneva/GPluggableOptimizationMonitors.cpp
index ee3f8dc..14cabb0 100644
--- a/src/geneva/GPluggableOptimizationMonitors.cpp
+++ b/src/geneva/GPluggableOptimizationMonitors.cpp
@@ -2260,6 +2260,7 @@ void GProcessingTimesLogger::load_(const GObject* cp) {
 	Gem::Common::copyCloneableSmartPointer(p_load->m_all_processing_times_hist2D, m_all_processing_times_hist2D);
 
 	m_nBinsX = p_load->m_nBinsX;
+	m_nBinsY = p_load->m_nBinsY;
 }
 
 /************************************************************************/
-- 
2.43.0


From a0ccdc90fe4b500d741109744c61061a6fa6d4bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:11 +0000
Subject: [PATCH 02/74] fix: copying a GParameterSet lost its random-crash
 settings

---
 src/geneva/GParameterSet.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/geneva/GParameterSet.cpp b/src/geneva/GParameterSet.cpp
index 41f1628..cf91161 100644
--- a/src/geneva/GParameterSet.cpp
+++ b/src/geneva/GParameterSet.cpp
@@ -231,6 +231,8 @@ GParameterSet::GParameterSet(GParameterSet const &cp)
    , m_max_unsuccessful_adaptions(cp.m_max_unsuccessful_adaptions)
    , m_max_retries_until_valid(cp.m_max_retries_until_valid)
    , m_n_adaptions(cp.m_n_adaptions)
+   , m_useRandomCrash(cp.m_useRandomCrash)
+   , m_randomCrashProb(cp.m_randomCrashProb)
 {
 	// Copy the personality pointer over
 	Gem::Common::copyCloneableSmartPointer(cp.m_pt_ptr, m_pt_ptr);
@@ -279,6 +281,8 @@ void GParameterSet::compare_(
 	compare_t(IDENTITY(m_max_unsuccessful_adaptions, p_load->m_max_unsuccessful_adaptions), token);
 	compare_t(IDENTITY(m_max_retries_until_valid, p_load->m_max_retries_until_valid), token);
 	compare_t(IDENTITY(m_n_adaptions, p_load->m_n_adaptions), token);
+	compare_t(IDENTITY(m_useRandomCrash, p_load->m_useRandomCrash), token);
+	compare_t(IDENTITY(m_randomCrashProb, p_load->m_randomCrashProb), token);
 
 	// React on deviations from the expectation
 	token.evaluate();
@@ -1616,6 +1620,8 @@ void GParameterSet::load_(const GObject *cp) {
 	m_max_unsuccessful_adaptions = p_load->m_max_unsuccessful_adaptions;
 	m_max_retries_until_valid = p_load->m_max_retries_until_valid;
 	m_n_adaptions = p_load->m_n_adaptions;
+	m_useRandomCrash = p_load->m_useRandomCrash;
+	m_randomCrashProb = p_load->m_randomCrashProb;
 
 	Gem::Common::copyCloneableSmartPointer(p_load->m_pt_ptr, m_pt_ptr);
 	Gem::Common::copyCloneableSmartPointer(p_load->m_individual_constraint_ptr, m_individual_constraint_ptr);
-- 
2.43.0


From 9003352e33512013ee83d2a3c065435381edd8a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:11 +0000
Subject: [PATCH 03/74] fix: copying a GParameterSetFactory lost its
 pre-processor

---
 include/geneva/GParameterSetFactory.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/geneva/GParameterSetFactory.hpp b/include/geneva/GParameterSetFactory.hpp
index 91839ca..b7e41a6 100644
--- a/include/geneva/GParameterSetFactory.hpp
+++ b/include/geneva/GParameterSetFactory.hpp
@@ -90,7 +90,7 @@ public:
 	 GParameterSetFactory(const GParameterSetFactory& cp)
 		 : Gem::Common::GFactoryT<GParameterSet>(cp)
 	 {
-		 Gem::Common::copyCloneableSmartPointer(cp.m_postProcessor, m_postProcessor);
+		 Gem::Common::copyCloneableSmartPointer(cp.m_preProcessor, m_preProcessor);
 		 Gem::Common::copyCloneableSmartPointer(cp.m_postProcessor, m_postProcessor);
 	 }
 
-- 
2.43.0


From 698d6ef1e7ceb7d4c3aee317ef6b8c9db31a3c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:11 +0000
Subject: [PATCH 04/74] fix: copying a parameter scan item lost its values and
 its number of steps

---
 include/geneva/G_OptimizationAlgorithm_ParameterScan.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/geneva/G_OptimizationAlgorithm_ParameterScan.hpp b/include/geneva/G_OptimizationAlgorithm_ParameterScan.hpp
index 014efcc..81a8eea 100644
--- a/include/geneva/G_OptimizationAlgorithm_ParameterScan.hpp
+++ b/include/geneva/G_OptimizationAlgorithm_ParameterScan.hpp
@@ -212,9 +212,10 @@ public:
      * random number generator.
      */
     baseScanParT(const baseScanParT<T> &cp)
-        : m_var(cp.m_var)
+        : Gem::Common::GPODVectorT<T>(cp)
+        , m_var(cp.m_var)
         , m_step(cp.m_step)
-        , m_nSteps(cp.m_step)
+        , m_nSteps(cp.m_nSteps)
         , m_lower(cp.m_lower)
         , m_upper(cp.m_upper)
         , m_randomScan(cp.m_randomScan)
-- 
2.43.0


From d2dac96f6bec4d15f4b4c5883609c4abb59a6aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:11 +0000
Subject: [PATCH 05/74] fix: copy constructor of GAdaptorPropertyLoggerT did
 not copy its base class

---
 include/geneva/GPluggableOptimizationMonitors.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/geneva/GPluggableOptimizationMonitors.hpp b/include/geneva/GPluggableOptimizationMonitors.hpp
index 9daf7fc..476f754 100644
--- a/include/geneva/GPluggableOptimizationMonitors.hpp
+++ b/include/geneva/GPluggableOptimizationMonitors.hpp
@@ -1515,7 +1515,8 @@ public:
 	  * The copy constructor
 	  */
 	 GAdaptorPropertyLoggerT(const GAdaptorPropertyLoggerT<num_type>& cp)
-	    : m_fileName(cp.m_fileName)
+	    : GBasePluggableOM(cp)
+		, m_fileName(cp.m_fileName)
 		, m_adaptorName(cp.m_adaptorName)
 		, m_property(cp.m_property)
 		, m_canvasDimensions(cp.m_canvasDimensions)
-- 
2.43.0


From c62c2c705e6cd5e615d3230d3c67a7af7900c063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:11 +0000
Subject: [PATCH 06/74] fix: copy constructor of GNAdpationsLogger did not copy
 its base class

---
 src/geneva/GPluggableOptimizationMonitors.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/geneva/GPluggableOptimizationMonitors.cpp b/src/geneva/GPluggableOptimizationMonitors.cpp
index 14cabb0..4a8d992 100644
--- a/src/geneva/GPluggableOptimizationMonitors.cpp
+++ b/src/geneva/GPluggableOptimizationMonitors.cpp
@@ -1438,7 +1438,8 @@ GNAdpationsLogger::GNAdpationsLogger(const std::string& fileName)
  * The copy constructor
  */
 GNAdpationsLogger::GNAdpationsLogger(const GNAdpationsLogger& cp)
-	: m_fileName(cp.m_fileName)
+	: GBasePluggableOM(cp)
+	  , m_fileName(cp.m_fileName)
 	  , m_canvasDimensions(cp.m_canvasDimensions)
 	  , m_gpd(cp.m_gpd)
 	  , m_monitorBestOnly(cp.m_monitorBestOnly)
-- 
2.43.0


From d4150cdd5f9c4c1c31593ae3083e4fe8d2f36c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:11 +0000
Subject: [PATCH 07/74] fix: loading a GCheckCombinerT lost its validity checks

---
 include/geneva/GMultiConstraintT.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/geneva/GMultiConstraintT.hpp b/include/geneva/GMultiConstraintT.hpp
index 1f10ed8..31c9427 100644
--- a/include/geneva/GMultiConstraintT.hpp
+++ b/include/geneva/GMultiConstraintT.hpp
@@ -656,7 +656,7 @@ protected:
         );
 
         // Load our parent class'es data ...
-        GPreEvaluationValidityCheckT<ind_type>::load_(cp);
+        GValidityCheckContainerT<ind_type>::load_(cp);
 
         // and then our local data
         combinerPolicy_ = p_load->combinerPolicy_;
-- 
2.43.0


From 7933fb887db915c415c6009bb244eb8892b57102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:11 +0000
Subject: [PATCH 08/74] fix: validity checks of a GCheckCombinerT were not
 serialized

---
 include/geneva/GMultiConstraintT.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/geneva/GMultiConstraintT.hpp b/include/geneva/GMultiConstraintT.hpp
index 31c9427..e44b80e 100644
--- a/include/geneva/GMultiConstraintT.hpp
+++ b/include/geneva/GMultiConstraintT.hpp
@@ -319,7 +319,8 @@ class GValidityCheckContainerT :
     void serialize(Archive &ar, const unsigned int) {
         using boost::serialization::make_nvp;
         ar
-        & BOOST_SERIALIZATION_BASE_OBJECT_NVP(GPreEvaluationValidityCheckT<ind_type>);
+        & BOOST_SERIALIZATION_BASE_OBJECT_NVP(GPreEvaluationValidityCheckT<ind_type>)
+        & BOOST_SERIALIZATION_NVP(validityChecks_);
     }
     ///////////////////////////////////////////////////////////////////////
 
@@ -502,7 +503,7 @@ class GCheckCombinerT:
     void serialize(Archive &ar, const unsigned int) {
         using boost::serialization::make_nvp;
         ar
-        & BOOST_SERIALIZATION_BASE_OBJECT_NVP(GPreEvaluationValidityCheckT<ind_type>)
+        & BOOST_SERIALIZATION_BASE_OBJECT_NVP(GValidityCheckContainerT<ind_type>)
         & BOOST_SERIALIZATION_NVP(combinerPolicy_);
     }
     ///////////////////////////////////////////////////////////////////////
-- 
2.43.0


From a56d1c3b62c143e4d71d22abd5a3954f99d97bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:11 +0000
Subject: [PATCH 09/74] fix: GSwarmAlgorithm::load_ cloned the algorithm
 instead of its global best

---
 src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp b/src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp
index d0e1164..7523cc6 100644
--- a/src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp
+++ b/src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp
@@ -199,7 +199,7 @@ void GSwarmAlgorithm::load_(const GObject *cp) {
 		if (m_global_best_ptr) { // If we already have a global best, just load the other objects global best
 			m_global_best_ptr->GObject::load(p_load->m_global_best_ptr);
 		} else {
-			m_global_best_ptr = p_load->GObject::clone<GParameterSet>();
+			m_global_best_ptr = p_load->m_global_best_ptr->GObject::clone<GParameterSet>();
 		}
 	}
 	else if (p_load->inFirstIteration()) { // cp does not have a global best
-- 
2.43.0


From 7c8495ec54a2612f780fb765ff753656eee8f9d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:11 +0000
Subject: [PATCH 10/74] fix: a copied or deserialized GGradientDescent differed
 from the original

---
 .../geneva/G_OptimizationAlgorithm_GradientDescent.hpp    | 6 +++++-
 src/geneva/G_OptimizationAlgorithm_GradientDescent.cpp    | 8 ++++----
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/include/geneva/G_OptimizationAlgorithm_GradientDescent.hpp b/include/geneva/G_OptimizationAlgorithm_GradientDescent.hpp
index 8679fab..99e2e60 100644
--- a/include/geneva/G_OptimizationAlgorithm_GradientDescent.hpp
+++ b/include/geneva/G_OptimizationAlgorithm_GradientDescent.hpp
@@ -95,7 +95,11 @@ class GGradientDescent
         & BOOST_SERIALIZATION_NVP(nStartingPoints_)
         & BOOST_SERIALIZATION_NVP(nFPParmsFirst_)
         & BOOST_SERIALIZATION_NVP(finiteStep_)
-        & BOOST_SERIALIZATION_NVP(stepSize_);
+        & BOOST_SERIALIZATION_NVP(stepSize_)
+        & BOOST_SERIALIZATION_NVP(stepRatio_)
+        & BOOST_SERIALIZATION_NVP(dblLowerParameterBoundaries_)
+        & BOOST_SERIALIZATION_NVP(dblUpperParameterBoundaries_)
+        & BOOST_SERIALIZATION_NVP(adjustedFiniteStep_);
     }
 
     ///////////////////////////////////////////////////////////////////////
diff --git a/src/geneva/G_OptimizationAlgorithm_GradientDescent.cpp b/src/geneva/G_OptimizationAlgorithm_GradientDescent.cpp
index 22e9fcb..f9bf336 100644
--- a/src/geneva/G_OptimizationAlgorithm_GradientDescent.cpp
+++ b/src/geneva/G_OptimizationAlgorithm_GradientDescent.cpp
@@ -267,10 +267,10 @@ void GGradientDescent::load_(const GObject *cp) {
 	nFPParmsFirst_ = p_load->nFPParmsFirst_;
 	finiteStep_ = p_load->finiteStep_;
 	stepSize_ = p_load->stepSize_;
-	// stepRatio_ = p_load->stepRatio_; // temporary parameter
-	// m_dbl_lower_parameter_boundaries_cnt = p_load->m_dbl_lower_parameter_boundaries_cnt; // temporary parameter
-	// m_dbl_upper_parameter_boundaries_cnt = p_load->m_dbl_upper_parameter_boundaries_cnt; // temporary parameter
-	// adjustedFiniteStep_ = p_load->adjustedFiniteStep_; // temporary parameter
+	stepRatio_ = p_load->stepRatio_;
+	dblLowerParameterBoundaries_ = p_load->dblLowerParameterBoundaries_;
+	dblUpperParameterBoundaries_ = p_load->dblUpperParameterBoundaries_;
+	adjustedFiniteStep_ = p_load->adjustedFiniteStep_;
 }
 
 /******************************************************************************/
-- 
2.43.0


From 4421782e47de6841ceaa1e0c99d5ca303d56e66b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:11 +0000
Subject: [PATCH 11/74] fix: copying a networkData object lost its
 initialization range

---
 src/geneva-individuals/GNeuralNetworkIndividual.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/geneva-individuals/GNeuralNetworkIndividual.cpp b/src/geneva-individuals/GNeuralNetworkIndividual.cpp
index f1743fd..e393611 100644
--- a/src/geneva-individuals/GNeuralNetworkIndividual.cpp
+++ b/src/geneva-individuals/GNeuralNetworkIndividual.cpp
@@ -179,7 +179,7 @@ networkData::networkData(const std::string &networkDataFile)
  */
 networkData::networkData(const networkData &cp)
 	: Gem::Common::GPODVectorT<std::size_t>(cp), arraySize_(0),
-	data_(nullptr) {
+	data_(nullptr), initRange_(cp.initRange_) {
 	// Make sure the local data is copied
 	Gem::Common::copySmartPointerArrays(cp.data_, data_, cp.arraySize_, arraySize_);
 }
@@ -210,6 +210,7 @@ networkData &networkData::operator=(const networkData &cp) {
 	// Make sure the local data is copied
 	Gem::Common::copySmartPointerArrays(cp.data_, data_, cp.arraySize_, arraySize_);
 	Gem::Common::GPODVectorT<std::size_t>::operator=(cp);
+	initRange_ = cp.initRange_;
 	return *this;
 }
 
-- 
2.43.0


From 8b8b7405df682fff7ec7315c9339c3ff3192b829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:11 +0000
Subject: [PATCH 12/74] fix: copying an optimization algorithm lost its
 iteration offset

---
 src/geneva/G_OptimizationAlgorithm_Base.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geneva/G_OptimizationAlgorithm_Base.cpp b/src/geneva/G_OptimizationAlgorithm_Base.cpp
index a960af7..56bb243 100644
--- a/src/geneva/G_OptimizationAlgorithm_Base.cpp
+++ b/src/geneva/G_OptimizationAlgorithm_Base.cpp
@@ -189,7 +189,7 @@ G_OptimizationAlgorithm_Base::G_OptimizationAlgorithm_Base(const G_OptimizationA
 	: GObject(cp)
 	  , Gem::Common::GPtrVectorT<GParameterSet, Gem::Geneva::GObject>(cp)
 	  , m_iteration(cp.m_iteration)
-	  , m_offset(DEFAULTOFFSET)
+	  , m_offset(cp.m_offset)
 	  , m_minIteration(cp.m_minIteration)
 	  , m_maxIteration(cp.m_maxIteration)
 	  , m_maxStallIteration(cp.m_maxStallIteration)
-- 
2.43.0


From 57411bdb7fb5320a3083dba8d3bf99dc5f086ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:48 +0000
Subject: [PATCH 13/74] fix: GDoubleSumGapConstraint::compare_ ignored the gap

---
 src/geneva-individuals/GFunctionIndividual.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/geneva-individuals/GFunctionIndividual.cpp b/src/geneva-individuals/GFunctionIndividual.cpp
index 56c2ddd..5930db1 100644
--- a/src/geneva-individuals/GFunctionIndividual.cpp
+++ b/src/geneva-individuals/GFunctionIndividual.cpp
@@ -174,6 +174,7 @@ void GDoubleSumGapConstraint::compare_(
 
 	// ... and then the local data
 	Gem::Common::compare_t(IDENTITY(C_, p_load->C_), token);
+	Gem::Common::compare_t(IDENTITY(gap_, p_load->gap_), token);
 
 	// React on deviations from the expectation
 	token.evaluate();
-- 
2.43.0


From ffe75b586e49b06c5b7873e1cd56e4218aa1a808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:48 +0000
Subject: [PATCH 14/74] fix: the diameter of a GSphereConstraint was not
 serialized

---
 include/geneva-individuals/GFunctionIndividual.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/geneva-individuals/GFunctionIndividual.hpp b/include/geneva-individuals/GFunctionIndividual.hpp
index 9beb563..689a0b4 100644
--- a/include/geneva-individuals/GFunctionIndividual.hpp
+++ b/include/geneva-individuals/GFunctionIndividual.hpp
@@ -789,7 +789,8 @@ class GSphereConstraint : public GParameterSetConstraint {
 	 void serialize(Archive &ar, const unsigned int) {
 		 using boost::serialization::make_nvp;
 		 ar
-		 &BOOST_SERIALIZATION_BASE_OBJECT_NVP(GParameterSetConstraint);
+		 &BOOST_SERIALIZATION_BASE_OBJECT_NVP(GParameterSetConstraint)
+		 &BOOST_SERIALIZATION_NVP(diameter_);
 	 }
 	 ///////////////////////////////////////////////////////////////////////
 public:
-- 
2.43.0


From df9a18eea06887ef6f56655710cfbb9ea8179e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:48 +0000
Subject: [PATCH 15/74] fix: the transfer function of a
 GNeuralNetworkIndividual was not serialized

---
 include/geneva-individuals/GNeuralNetworkIndividual.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/geneva-individuals/GNeuralNetworkIndividual.hpp b/include/geneva-individuals/GNeuralNetworkIndividual.hpp
index 4bddb96..0030b0d 100644
--- a/include/geneva-individuals/GNeuralNetworkIndividual.hpp
+++ b/include/geneva-individuals/GNeuralNetworkIndividual.hpp
@@ -368,7 +368,8 @@ class GNeuralNetworkIndividual
 		 using boost::serialization::make_nvp;
 
 		 ar
-		 &BOOST_SERIALIZATION_BASE_OBJECT_NVP(GParameterSet);
+		 &BOOST_SERIALIZATION_BASE_OBJECT_NVP(GParameterSet)
+		 &BOOST_SERIALIZATION_NVP(tF_);
 
 		 // Load the network data from disk
 		 nD_ = GNNTrainingDataStore; // A glogal singleton
@@ -379,7 +380,8 @@ class GNeuralNetworkIndividual
 		 using boost::serialization::make_nvp;
 
 		 ar
-		 &BOOST_SERIALIZATION_BASE_OBJECT_NVP(GParameterSet);
+		 &BOOST_SERIALIZATION_BASE_OBJECT_NVP(GParameterSet)
+		 &BOOST_SERIALIZATION_NVP(tF_);
 	 }
 
 	 BOOST_SERIALIZATION_SPLIT_MEMBER()
-- 
2.43.0


From eaa69c8e61045dc488d1e720a1011e7d9e1f6325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:48 +0000
Subject: [PATCH 16/74] fix: the run id of a GExternalEvaluatorIndividual was
 not serialized

---
 include/geneva-individuals/GExternalEvaluatorIndividual.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/geneva-individuals/GExternalEvaluatorIndividual.hpp b/include/geneva-individuals/GExternalEvaluatorIndividual.hpp
index f8b3b67..7e2e2ae 100644
--- a/include/geneva-individuals/GExternalEvaluatorIndividual.hpp
+++ b/include/geneva-individuals/GExternalEvaluatorIndividual.hpp
@@ -152,7 +152,8 @@ class GExternalEvaluatorIndividual : public GParameterSet {
 		 & BOOST_SERIALIZATION_NVP(m_custom_options)
 		 & BOOST_SERIALIZATION_NVP(m_parameter_file_base_name)
 		 & BOOST_SERIALIZATION_NVP(m_n_results)
-		 & BOOST_SERIALIZATION_NVP(m_remove_exec_temporaries);
+		 & BOOST_SERIALIZATION_NVP(m_remove_exec_temporaries)
+		 & BOOST_SERIALIZATION_NVP(runID_);
 	 }
 
 	 ///////////////////////////////////////////////////////////////////////
-- 
2.43.0


From a863fbe9755d116dca0ba6723d2007b058ae5aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:48 +0000
Subject: [PATCH 17/74] fix: the halt flag of a GParameterScan was not
 serialized

---
 include/geneva/G_OptimizationAlgorithm_ParameterScan.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/geneva/G_OptimizationAlgorithm_ParameterScan.hpp b/include/geneva/G_OptimizationAlgorithm_ParameterScan.hpp
index 81a8eea..7968ae3 100644
--- a/include/geneva/G_OptimizationAlgorithm_ParameterScan.hpp
+++ b/include/geneva/G_OptimizationAlgorithm_ParameterScan.hpp
@@ -665,6 +665,7 @@ class GParameterScan
         & make_nvp(
             "G_OptimizationAlgorithm_Base"
             , boost::serialization::base_object<G_OptimizationAlgorithm_Base>(*this))
+        & BOOST_SERIALIZATION_NVP(m_cycleLogicHalt)
         & BOOST_SERIALIZATION_NVP(m_scanRandomly)
         & BOOST_SERIALIZATION_NVP(m_nMonitorInds)
         & BOOST_SERIALIZATION_NVP(m_b_cnt)
-- 
2.43.0


From afa1c5a194bb4188aa0225ef1d6853f6375b6e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:48 +0000
Subject: [PATCH 18/74] fix: the plotters of a GPlotDesigner were not
 serialized

---
 include/common/GPlotDesigner.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/common/GPlotDesigner.hpp b/include/common/GPlotDesigner.hpp
index 6170374..34c5edf 100644
--- a/include/common/GPlotDesigner.hpp
+++ b/include/common/GPlotDesigner.hpp
@@ -4440,6 +4440,7 @@ class GPlotDesigner
         using boost::serialization::make_nvp;
 
         ar
+        & BOOST_SERIALIZATION_NVP(m_plotters_cnt)
         & BOOST_SERIALIZATION_NVP(m_c_x_div)
         & BOOST_SERIALIZATION_NVP(m_c_y_div)
         & BOOST_SERIALIZATION_NVP(m_c_x_dim)
-- 
2.43.0


From 8b65a5815076ecd24e3acce8458b9aa3898b58b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:48 +0000
Subject: [PATCH 19/74] fix: the best individuals of an iteration were not
 serialized with an optimization algorithm

---
 include/geneva/G_OptimizationAlgorithm_Base.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/geneva/G_OptimizationAlgorithm_Base.hpp b/include/geneva/G_OptimizationAlgorithm_Base.hpp
index e8b4114..9fe954d 100644
--- a/include/geneva/G_OptimizationAlgorithm_Base.hpp
+++ b/include/geneva/G_OptimizationAlgorithm_Base.hpp
@@ -204,6 +204,7 @@ private:
         & BOOST_SERIALIZATION_NVP(m_reportIteration)
         & BOOST_SERIALIZATION_NVP(m_nRecordbestGlobalIndividuals)
         & BOOST_SERIALIZATION_NVP(m_bestGlobalIndividuals_pq)
+        & BOOST_SERIALIZATION_NVP(m_bestIterationIndividuals_pq)
         & BOOST_SERIALIZATION_NVP(m_defaultPopulationSize)
         & BOOST_SERIALIZATION_NVP(m_bestKnownPrimaryFitness)
         & BOOST_SERIALIZATION_NVP(m_bestCurrentPrimaryFitness)
@@ -253,6 +254,7 @@ private:
         & BOOST_SERIALIZATION_NVP(m_reportIteration)
         & BOOST_SERIALIZATION_NVP(m_nRecordbestGlobalIndividuals)
         & BOOST_SERIALIZATION_NVP(m_bestGlobalIndividuals_pq)
+        & BOOST_SERIALIZATION_NVP(m_bestIterationIndividuals_pq)
         & BOOST_SERIALIZATION_NVP(m_defaultPopulationSize)
         & BOOST_SERIALIZATION_NVP(m_bestKnownPrimaryFitness)
         & BOOST_SERIALIZATION_NVP(m_bestCurrentPrimaryFitness)
-- 
2.43.0


From 7f7a1b24dad523407ccb41db6dd3f27d23061681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:43 +0000
Subject: [PATCH 20/74] fix: copies of a GProcessingTimesLogger shared their
 histograms with the original

---
 .../geneva/GPluggableOptimizationMonitors.hpp |  2 +-
 src/geneva/GPluggableOptimizationMonitors.cpp | 26 +++++++++++++++++++
 2 files changed, 27 insertions(+), 1 deletion(-)

diff --git a/include/geneva/GPluggableOptimizationMonitors.hpp b/include/geneva/GPluggableOptimizationMonitors.hpp
index 476f754..38e1fd4 100644
--- a/include/geneva/GPluggableOptimizationMonitors.hpp
+++ b/include/geneva/GPluggableOptimizationMonitors.hpp
@@ -2018,7 +2018,7 @@ public:
 		 , std::size_t nBinsY
 	 );
 	 /** @brief The copy constructor */
-	 G_API_GENEVA GProcessingTimesLogger(const GProcessingTimesLogger& cp) = default;
+	 G_API_GENEVA GProcessingTimesLogger(const GProcessingTimesLogger& cp);
 	 /** @brief  The destructor */
 	 G_API_GENEVA ~GProcessingTimesLogger() override = default;
 
diff --git a/src/geneva/GPluggableOptimizationMonitors.cpp b/src/geneva/GPluggableOptimizationMonitors.cpp
index 4a8d992..6cd21ff 100644
--- a/src/geneva/GPluggableOptimizationMonitors.cpp
+++ b/src/geneva/GPluggableOptimizationMonitors.cpp
@@ -1805,6 +1805,32 @@ void GNAdpationsLogger::specificTestsFailuresExpected_GUnitTests_() {
  */
 GProcessingTimesLogger::GProcessingTimesLogger() = default;
 
+/******************************************************************************/
+/**
+ * The copy constructor
+ */
+GProcessingTimesLogger::GProcessingTimesLogger(const GProcessingTimesLogger& cp)
+	: GBasePluggableOM(cp)
+	, m_fileName_pth(cp.m_fileName_pth)
+	, m_canvasDimensions_pth(cp.m_canvasDimensions_pth)
+	, m_gpd_pth(cp.m_gpd_pth)
+	, m_fileName_pth2(cp.m_fileName_pth2)
+	, m_canvasDimensions_pth2(cp.m_canvasDimensions_pth2)
+	, m_gpd_pth2(cp.m_gpd_pth2)
+	, m_fileName_txt(cp.m_fileName_txt)
+	, m_nBinsX(cp.m_nBinsX)
+	, m_nBinsY(cp.m_nBinsY)
+{
+	Gem::Common::copyCloneableSmartPointer(cp.m_pre_processing_times_hist, m_pre_processing_times_hist);
+	Gem::Common::copyCloneableSmartPointer(cp.m_processing_times_hist, m_processing_times_hist);
+	Gem::Common::copyCloneableSmartPointer(cp.m_post_processing_times_hist, m_post_processing_times_hist);
+	Gem::Common::copyCloneableSmartPointer(cp.m_all_processing_times_hist, m_all_processing_times_hist);
+	Gem::Common::copyCloneableSmartPointer(cp.m_pre_processing_times_hist2D, m_pre_processing_times_hist2D);
+	Gem::Common::copyCloneableSmartPointer(cp.m_processing_times_hist2D, m_processing_times_hist2D);
+	Gem::Common::copyCloneableSmartPointer(cp.m_post_processing_times_hist2D, m_post_processing_times_hist2D);
+	Gem::Common::copyCloneableSmartPointer(cp.m_all_processing_times_hist2D, m_all_processing_times_hist2D);
+}
+
 /******************************************************************************/
 /**
  * Initialization with a file name. Note that some variables may be initialized in the class body.
-- 
2.43.0


From 0516d482b85dcae2be9bfc156da7023ed03dfe01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:03 +0000
Subject: [PATCH 21/74] fix: GOptOptMonitorT was not registered with the
 serialization library

---
 include/geneva-individuals/GMetaOptimizerIndividualT.hpp | 1 +
 src/geneva-individuals/GMetaOptimizerIndividualT.cpp     | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/geneva-individuals/GMetaOptimizerIndividualT.hpp b/include/geneva-individuals/GMetaOptimizerIndividualT.hpp
index 8f437fb..f12ecbd 100644
--- a/include/geneva-individuals/GMetaOptimizerIndividualT.hpp
+++ b/include/geneva-individuals/GMetaOptimizerIndividualT.hpp
@@ -2220,4 +2220,5 @@ private:
 } /* namespace Gem */
 
 BOOST_CLASS_EXPORT_KEY(Gem::Geneva::GMetaOptimizerIndividualT<Gem::Geneva::GFunctionIndividual>);
+BOOST_CLASS_EXPORT_KEY(Gem::Geneva::GOptOptMonitorT<Gem::Geneva::GFunctionIndividual>);
 
diff --git a/src/geneva-individuals/GMetaOptimizerIndividualT.cpp b/src/geneva-individuals/GMetaOptimizerIndividualT.cpp
index 75cf705..8d5e2f6 100644
--- a/src/geneva-individuals/GMetaOptimizerIndividualT.cpp
+++ b/src/geneva-individuals/GMetaOptimizerIndividualT.cpp
@@ -37,6 +37,7 @@
 #include "geneva-individuals/GMetaOptimizerIndividualT.hpp"
 
 BOOST_CLASS_EXPORT_IMPLEMENT(Gem::Geneva::GMetaOptimizerIndividualT<Gem::Geneva::GFunctionIndividual>)
+BOOST_CLASS_EXPORT_IMPLEMENT(Gem::Geneva::GOptOptMonitorT<Gem::Geneva::GFunctionIndividual>)
 
 namespace Gem {
 namespace Geneva {
-- 
2.43.0


From ff0ff8afa388c270d20cdfe06af3cb2e08927600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:48 +0000
Subject: [PATCH 22/74] fix: GBoundedBufferT::try_pop_copy/try_pop_move wake up
 waiting producers

Taking an item out of a bounded buffer makes room for a producer blocked in
push_and_block_*/push_and_wait_*. Both functions notified m_not_empty, on which
only consumers wait, so that a blocked producer was never woken up.
---
 include/common/GBoundedBufferT.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/common/GBoundedBufferT.hpp b/include/common/GBoundedBufferT.hpp
index 1bb695d..4e38443 100644
--- a/include/common/GBoundedBufferT.hpp
+++ b/include/common/GBoundedBufferT.hpp
@@ -527,7 +527,7 @@ public:
 			 }
 		 } // Release the lock
 
-		 if(success) m_not_empty.notify_one();
+		 if(success) m_not_full.notify_one();
 
 		 return success;
 	 }
@@ -554,7 +554,7 @@ public:
 			 }
 		 } // Release the lock
 
-		 if(success) m_not_empty.notify_one();
+		 if(success) m_not_full.notify_one();
 
 		 return success;
 	 }
-- 
2.43.0


From 850941463d1fba7d054c748187351568a91c6777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:48 +0000
Subject: [PATCH 23/74] fix: GThreadPool::async_schedule (void) fulfils its
 promise

The future returned for a task without a result was never made ready: get()
threw std::future_error (broken promise) after successful execution.
---
 include/common/GThreadPool.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/common/GThreadPool.hpp b/include/common/GThreadPool.hpp
index 208e647..916c9f5 100644
--- a/include/common/GThreadPool.hpp
+++ b/include/common/GThreadPool.hpp
@@ -176,6 +176,7 @@ public:
 			, [this, promise_ptr, f = std::bind<result_type>(std::forward<F>(f), std::forward<Args>(args)...)]() {
 				 try {
 					 f();
+					 promise_ptr->set_value();
 				 } catch(boost::exception& e) {
 					 // Convert to a std::runtime_exception
 					 std::runtime_error r(boost::diagnostic_information(e));
-- 
2.43.0


From 0724e84303f3533b774a6aaa5ff7088379604cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:48 +0000
Subject: [PATCH 24/74] fix: GBarrier::wait blocks until the barrier generation
 changes

The wait predicate was already true upon entry, so that no thread ever waited.
---
 include/common/GBarrier.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/common/GBarrier.hpp b/include/common/GBarrier.hpp
index 83520eb..a763591 100644
--- a/include/common/GBarrier.hpp
+++ b/include/common/GBarrier.hpp
@@ -111,7 +111,7 @@ public:
 		 m_cond.wait(
 		 	lock
 		 	, [&]() {
-		 		return gen == m_generation;
+		 		return gen != m_generation;
 		 	}
 	 	 );
 		 return false;
-- 
2.43.0


From 7ab07e56bfdb67f1dd50ac683eabbd2ec460749c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:48 +0000
Subject: [PATCH 25/74] fix: GThreadGroup::clearThreads locks the thread vector

---
 src/common/GThreadGroup.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/common/GThreadGroup.cpp b/src/common/GThreadGroup.cpp
index 4be7c27..0b37f6d 100644
--- a/src/common/GThreadGroup.cpp
+++ b/src/common/GThreadGroup.cpp
@@ -94,6 +94,7 @@ std::size_t GThreadGroup::size() const {
  * thread GThreadPool class.
  */
 void GThreadGroup::clearThreads() {
+	std::unique_lock<std::mutex> guard(m_mutex);
 	m_threads.clear();
 }
 
-- 
2.43.0


From 7a8e08210b267eaa907034bd3ecb93d9778f88ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:48 +0000
Subject: [PATCH 26/74] fix: GSingletonT::Instance reads and resets its pointer
 under the lock

The unsynchronised first check and the reset raced with the creation of the
object in other threads (a std::shared_ptr is not an atomic object).
---
 include/common/GSingletonT.hpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/include/common/GSingletonT.hpp b/include/common/GSingletonT.hpp
index 38822da..573a785 100644
--- a/include/common/GSingletonT.hpp
+++ b/include/common/GSingletonT.hpp
@@ -113,19 +113,23 @@ public:
 
 		 switch (mode) {
 			 case 0:
-				 // Several callers can reach the next line simultaneously. Hence, if
-				 // p is empty, we need to ask again if it is empty after we have acquired the lock
-				 if (not p) {
-					 // Prevent concurrent "first" access
-					 std::unique_lock<std::mutex> lk(creation_mutex);
-					 if (not p) p = Gem::Common::TFactory_GSingletonT<T>();
-				 }
+			 {
+				 // Several callers can reach this code simultaneously. Access to p
+				 // (including the check whether it is empty) needs to be protected
+				 std::unique_lock<std::mutex> lk(creation_mutex);
+				 if (not p) p = Gem::Common::TFactory_GSingletonT<T>();
 
 				 return p;
+			 }
 				 break;
 
 			 case 1:
-				 p.reset();
+			 {
+				 // The object (if any) must not be destroyed while the lock is held
+				 std::shared_ptr<T> old_p;
+				 std::unique_lock<std::mutex> lk(creation_mutex);
+				 old_p.swap(p);
+			 }
 				 break;
 		 }
 
-- 
2.43.0


From 19d19fa210eb71da244221d6fcffd4e0eaaa1d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:48 +0000
Subject: [PATCH 27/74] fix: GLogger protects its log targets in all functions

Log targets could be added, reset or replaced while another thread was iterating
over them in log().
---
 include/common/GLogger.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/common/GLogger.hpp b/include/common/GLogger.hpp
index 4cf9c7c..108fe53 100644
--- a/include/common/GLogger.hpp
+++ b/include/common/GLogger.hpp
@@ -275,6 +275,7 @@ public:
 		 */
 	 void setDefaultLogTarget(std::shared_ptr <GBaseLogTarget> gblt) {
 		 if (gblt) {
+			 std::unique_lock<std::mutex> lk(m_logger_mutex);
 			 m_default_logger = gblt;
 		 } else {
 			 raiseException(
@@ -290,6 +291,7 @@ public:
 		 */
 	 void addLogTarget(std::shared_ptr <GBaseLogTarget> gblt) {
 		 if (gblt) {
+			 std::unique_lock<std::mutex> lk(m_logger_mutex);
 			 m_log_cnt.push_back(gblt);
 		 } else {
 			 raiseException(
@@ -304,6 +306,7 @@ public:
 		 * Checks whether any log targets are present
 		 */
 	 bool hasLogTargets() const {
+		 std::unique_lock<std::mutex> lk(m_logger_mutex);
 		 return not m_log_cnt.empty();
 	 }
 
@@ -312,6 +315,7 @@ public:
 		 * Clears local log-targets
 		 */
 	 void resetLogTargets() {
+		 std::unique_lock<std::mutex> lk(m_logger_mutex);
 		 m_log_cnt.clear();
 	 }
 
-- 
2.43.0


From 7b6ebafd1bf07eed0ee93571a4b119e169d5ea6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:48 +0000
Subject: [PATCH 28/74] fix: GRandomFactory::getSeed does not repeat its seeds
 when the collection is used up

std::seed_seq::generate() yields the same numbers in each call, so that after
DEFAULTSEEDVECTORSIZE calls every further generator received a seed that was
already in use.
---
 src/hap/GRandomFactory.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/hap/GRandomFactory.cpp b/src/hap/GRandomFactory.cpp
index 6a6fd41..8e9bea7 100644
--- a/src/hap/GRandomFactory.cpp
+++ b/src/hap/GRandomFactory.cpp
@@ -148,7 +148,15 @@ seed_type GRandomFactory::getSeed() {
 
 	// Refill at the start of seeding or when all seeds have been used
 	if(not m_seeding_has_started || m_seed_cit==m_seed_collection.end()) {
-		m_seed_seq.generate(m_seed_collection.begin(), m_seed_collection.end());
+		if(not m_seeding_has_started) {
+			m_seed_seq.generate(m_seed_collection.begin(), m_seed_collection.end());
+		} else { // A seed_seq always generates the same sequence -- obtain fresh entropy
+			std::seed_seq refill_seq {
+				m_nondet_rng(), m_nondet_rng(), m_nondet_rng(), m_nondet_rng()
+				, m_nondet_rng(), m_nondet_rng(), m_nondet_rng(), m_nondet_rng()
+			};
+			refill_seq.generate(m_seed_collection.begin(), m_seed_collection.end());
+		}
 		m_seed_cit=m_seed_collection.begin();
 		m_seeding_has_started.store(true);
 	}
-- 
2.43.0


From 17483d0197696491d2574c7d3f08b02898ec20d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:48 +0000
Subject: [PATCH 29/74] fix: GRandomFactory::setNProducerThreads records the
 threads it has added

When threads were already running, the number of producer threads was not updated,
so that a further call started the same additional threads again.
---
 src/hap/GRandomFactory.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hap/GRandomFactory.cpp b/src/hap/GRandomFactory.cpp
index 8e9bea7..866b074 100644
--- a/src/hap/GRandomFactory.cpp
+++ b/src/hap/GRandomFactory.cpp
@@ -226,6 +226,8 @@ void GRandomFactory::setNProducerThreads(const std::uint16_t &nProducerThreads)
 
 			return;
 		}
+
+		m_n_producer_threads = nProducerThreads_local;
 	} else { // Double-checked locking pattern
 		// Here it appears that no threads were running. We do need to check again, though (DLCP)
 		std::unique_lock<std::mutex> tc_lk(m_thread_creation_mutex);
-- 
2.43.0


From 3e05d2081d67e827d4d25342049e32b40c7a8851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:19 +0000
Subject: [PATCH 30/74] fix: GBrokerT checks for enrolled consumers under the
 enrolment mutex

Two threads could pass the "consumers may only be enrolled once" check
simultaneously, so that a second set of consumers was enrolled.
---
 include/courtier/GBrokerT.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/courtier/GBrokerT.hpp b/include/courtier/GBrokerT.hpp
index a657176..b047e01 100644
--- a/include/courtier/GBrokerT.hpp
+++ b/include/courtier/GBrokerT.hpp
@@ -302,6 +302,8 @@ public:
 	  */
 	 void enrol_consumer(std::shared_ptr<GBaseConsumerT<processable_type>> gc_ptr) {
 		 //-----------------------------------------------------------------------
+		 std::unique_lock<std::mutex> consumerEnrolmentLock(m_consumerEnrolmentMutex);
+
 		 // Check whether consumers have already been enrolled. As this may happen
 		 // only once, we emit a warning and return
 		 if(m_consumersPresent) {
@@ -314,8 +316,6 @@ public:
 		 }
 
 		 //-----------------------------------------------------------------------
-		 std::unique_lock<std::mutex> consumerEnrolmentLock(m_consumerEnrolmentMutex);
-
 		 // Do nothing if a consumer of this type has already been registered
 		 if (std::find(
 			 m_consumerTypesPresent.begin()
@@ -362,6 +362,8 @@ public:
 	  */
 	 void enrol_consumer_vec(std::vector<std::shared_ptr<GBaseConsumerT<processable_type>>> gc_ptr_cnt) {
 		 //-----------------------------------------------------------------------
+		 std::unique_lock<std::mutex> consumerEnrolmentLock(m_consumerEnrolmentMutex);
+
 		 // Check whether consumers have already been enrolled. As this may happen
 		 // only once, we emit a warning and return
 		 if(m_consumersPresent) {
@@ -374,8 +376,6 @@ public:
 		 }
 
 		 //-----------------------------------------------------------------------
-		 std::unique_lock<std::mutex> consumerEnrolmentLock(m_consumerEnrolmentMutex);
-
 		 for(auto const& consumer_ptr: gc_ptr_cnt) {
 			 // Do nothing if a consumer of this type has already been registered
 			 if (std::find(
-- 
2.43.0


From 9bbe63e61a543b6030022609f099f1f4dddea92a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:19 +0000
Subject: [PATCH 31/74] fix: GBrokerT::finalize accesses the consumer
 collection under its mutex

The collection was traversed without a lock while a consumer could still be enrolled.
---
 include/courtier/GBrokerT.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/courtier/GBrokerT.hpp b/include/courtier/GBrokerT.hpp
index b047e01..acd4467 100644
--- a/include/courtier/GBrokerT.hpp
+++ b/include/courtier/GBrokerT.hpp
@@ -143,8 +143,16 @@ public:
 		 // Only allow one finalization action to be carried out
 		 if (m_finalized) return;
 
+		 // Obtain a copy of the list of consumers, as they need to be
+		 // shut down without holding the lock
+		 std::vector<std::shared_ptr<GBaseConsumerT<processable_type>>> consumer_cnt;
+		 {
+			 std::unique_lock<std::mutex> consumerEnrolmentLock(m_consumerEnrolmentMutex);
+			 consumer_cnt = m_consumer_collection_cnt;
+		 }
+
 		 // Shut down all consumers
-		 for(auto const& c_ptr: m_consumer_collection_cnt) {
+		 for(auto const& c_ptr: consumer_cnt) {
 			 c_ptr->shutdown();
 		 }
 
-- 
2.43.0


From 1be5ca6bb7925ef58c89613a9b9e5d747170420c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:17 +0000
Subject: [PATCH 32/74] fix: GProcessingContainerT::process keeps an error
 flagged during processing

---
 include/courtier/GProcessingContainerT.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/courtier/GProcessingContainerT.hpp b/include/courtier/GProcessingContainerT.hpp
index b683669..1679074 100644
--- a/include/courtier/GProcessingContainerT.hpp
+++ b/include/courtier/GProcessingContainerT.hpp
@@ -306,7 +306,10 @@ public:
 			 m_processing_time = std::chrono::duration<double>(afterProcessing - afterPreProcessing).count();
 			 m_post_processing_time = std::chrono::duration<double>(afterPostProcessing - afterProcessing).count();
 
-			 m_processing_status = processingStatus::PROCESSED;
+			 // An error may have been flagged without an exception being thrown. It must not be overwritten.
+			 if(not this->has_errors()) {
+				 m_processing_status = processingStatus::PROCESSED;
+			 }
 		 } catch(boost::exception& e) {
 			 // Let the audience know we had an error
 			 m_processing_status = processingStatus::EXCEPTION_CAUGHT;
-- 
2.43.0


From 60ecba02ee9cc724c17286c3dcf6ce461dd4aa07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:17 +0000
Subject: [PATCH 33/74] fix: GParameterSet::adapt marks the individual after
 any effective adaption

---
 src/geneva/GParameterSet.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/geneva/GParameterSet.cpp b/src/geneva/GParameterSet.cpp
index cf91161..4cc195b 100644
--- a/src/geneva/GParameterSet.cpp
+++ b/src/geneva/GParameterSet.cpp
@@ -821,6 +821,7 @@ std::size_t GParameterSet::adapt() {
 	std::size_t nAdaptionAttempts = 0;
 	std::size_t nAdaptions = 0; // This is a measure of the "effective" adaption probability
 	std::size_t nInvalidAdaptions = 0;
+	bool modified = false; // Set if any of the attempts below has changed parameters
 	double validity = 0;
 
 	// Perform adaptions until a valid solution was find. In the context
@@ -836,6 +837,7 @@ std::size_t GParameterSet::adapt() {
 		while (true) { // Try again if no adaption has taken place
 			// Perform the actual adaption; Terminate, if at least one adaption was performed
 			if ((nAdaptions = this->customAdaptions()) > 0) {
+				modified = true;
 				break;
 			}
 
@@ -854,7 +856,7 @@ std::size_t GParameterSet::adapt() {
 	}
 
 	// Make sure the individual is re-evaluated when fitness(...) is called next time
-	if(nAdaptions > 0) {
+	if(modified) {
 		this->mark_as_due_for_processing();
 	}
 
-- 
2.43.0


From 54275b996900491a64635a765345d68195ae6e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:17 +0000
Subject: [PATCH 34/74] fix: GParameterSet::setFitness_ also clears the dirty
 flag of invalid solutions

---
 src/geneva/GParameterSet.cpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/geneva/GParameterSet.cpp b/src/geneva/GParameterSet.cpp
index 4cc195b..bf5c051 100644
--- a/src/geneva/GParameterSet.cpp
+++ b/src/geneva/GParameterSet.cpp
@@ -1732,10 +1732,8 @@ void GParameterSet::setFitness_(std::vector<double> const & f_cnt) {
 		// Transfer the data into the individual
 		this->markAsProcessedWith(processing_results);
 	} else { // Some constraints were violated. Act on the chosen policy
-		if (evaluationPolicy::USEWORSTCASEFORINVALID == m_eval_policy) {
-			this->setAllFitnessTo(this->getWorstCase());
-		} else if (evaluationPolicy::USESIGMOID == m_eval_policy) {
-			double uniformFitnessValue = 0.;
+		double uniformFitnessValue = this->getWorstCase(); // Used for evaluationPolicy::USEWORSTCASEFORINVALID
+		if (evaluationPolicy::USESIGMOID == m_eval_policy) {
 			if (maxMode::MAXIMIZE == this->getMaxMode()) { // maximize
 				if (boost::numeric::bounds<double>::highest() == m_validity_level) {
 					uniformFitnessValue = this->getWorstCase();
@@ -1749,9 +1747,15 @@ void GParameterSet::setFitness_(std::vector<double> const & f_cnt) {
 					uniformFitnessValue = m_validity_level * m_sigmoid_extremes;
 				}
 			}
-
-			this->setAllFitnessTo(this->getWorstCase(), uniformFitnessValue);
 		}
+
+		// Transfer the data into the individual
+		this->markAsProcessedWith(
+			std::vector<parameterset_processing_result>(
+				f_cnt.size()
+				, parameterset_processing_result(this->getWorstCase(), uniformFitnessValue)
+			)
+		);
 	}
 }
 
-- 
2.43.0


From c4f74aee213657a973557f4e0b0cc34fe0e3f198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:17 +0000
Subject: [PATCH 35/74] fix: GNeuralNetworkIndividual::init marks the
 individual for re-evaluation

---
 src/geneva-individuals/GNeuralNetworkIndividual.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/geneva-individuals/GNeuralNetworkIndividual.cpp b/src/geneva-individuals/GNeuralNetworkIndividual.cpp
index e393611..3902a7e 100644
--- a/src/geneva-individuals/GNeuralNetworkIndividual.cpp
+++ b/src/geneva-individuals/GNeuralNetworkIndividual.cpp
@@ -760,6 +760,9 @@ void GNeuralNetworkIndividual::init(
 			);
 		}
 	}
+
+	// All parameters were replaced, so any existing evaluation is void
+	this->mark_as_due_for_processing();
 }
 
 
-- 
2.43.0


From e9848a29b3b98d9b1f4b3ff0226ff6ba90c643d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:17 +0000
Subject: [PATCH 36/74] fix: GAsioConsumerClientT returns work items whose
 processing has failed

---
 include/courtier/GAsioConsumerT.hpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/courtier/GAsioConsumerT.hpp b/include/courtier/GAsioConsumerT.hpp
index 1f8fd2c..4dcaeaa 100644
--- a/include/courtier/GAsioConsumerT.hpp
+++ b/include/courtier/GAsioConsumerT.hpp
@@ -397,7 +397,17 @@ private:
 		 switch(inboundCommand) {
 			 case networked_consumer_payload_command::COMPUTE: {
 				 // Process the work item ...
-				 m_command_container.process();
+				 try {
+					 m_command_container.process();
+				 } catch(const g_processing_exception& e) {
+					 glogger
+						 << "In GAsioConsumerClientT<processable_type>::async_process_request():" << std::endl
+						 << "The work item has flagged a processing exception with the message" << std::endl
+						 << e << std::endl
+						 << "The item will be returned. It is up to the recipient of the work item" << std::endl
+						 << "to decide on its fate" << std::endl
+						 << GWARNING;
+				 }
 
 				 // Update the processed counter
 		       this->incrementProcessingCounter();
-- 
2.43.0


From 92c6c81c49677d5c9049e0735495cd51cd5dc5f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:17 +0000
Subject: [PATCH 37/74] fix: GWebsocketClientT returns work items whose
 processing has failed

---
 include/courtier/GWebsocketConsumerT.hpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/courtier/GWebsocketConsumerT.hpp b/include/courtier/GWebsocketConsumerT.hpp
index 072a0f5..78bba14 100644
--- a/include/courtier/GWebsocketConsumerT.hpp
+++ b/include/courtier/GWebsocketConsumerT.hpp
@@ -482,7 +482,17 @@ private:
 		 switch(inboundCommand) {
 			 case networked_consumer_payload_command::COMPUTE: {
 				 // Process the work item
-				 m_command_container.process();
+				 try {
+					 m_command_container.process();
+				 } catch(const g_processing_exception& e) {
+					 glogger
+						 << "In GWebsocketClientT<processable_type>::process_request():" << std::endl
+						 << "The work item has flagged a processing exception with the message" << std::endl
+						 << e << std::endl
+						 << "The item will be returned. It is up to the recipient of the work item" << std::endl
+						 << "to decide on its fate" << std::endl
+						 << GWARNING;
+				 }
 
 				 // Update the processed counter
 				 this->incrementProcessingCounter();
-- 
2.43.0


From ce01f82b64a472b8c642b1583c8b6a99e7efafec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:17 +0000
Subject: [PATCH 38/74] fix: GAsioConsumerT survives late work items whose
 buffer port is gone

---
 include/courtier/GAsioConsumerT.hpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/include/courtier/GAsioConsumerT.hpp b/include/courtier/GAsioConsumerT.hpp
index 4dcaeaa..c04ec14 100644
--- a/include/courtier/GAsioConsumerT.hpp
+++ b/include/courtier/GAsioConsumerT.hpp
@@ -1122,12 +1122,17 @@ private:
 			 );
 		 }
 
-		 if(not m_broker_ptr->put(p, m_timeout)) {
-			 glogger
-				 << "In GAsioConsumerT<>::putPayloadItem():" << std::endl
-				 << "Work item could not be submitted to the broker" << std::endl
-				 << "The item will be discarded" << std::endl
-				 << GWARNING;
+		 try {
+			 if(not m_broker_ptr->put(p, m_timeout)) {
+				 glogger
+					 << "In GAsioConsumerT<>::putPayloadItem():" << std::endl
+					 << "Work item could not be submitted to the broker" << std::endl
+					 << "The item will be discarded" << std::endl
+					 << GWARNING;
+			 }
+		 } catch(const Gem::Courtier::buffer_not_present&) {
+			 // The origin of the item doesn't exist anymore. The broker has already emitted a warning.
+			 // The client will still receive its next work item
 		 }
 	 }
 
-- 
2.43.0


From 6e4907e039a471e79bc8dfb4199a6394e21b1cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:17 +0000
Subject: [PATCH 39/74] fix: GWebsocketConsumerT survives late work items whose
 buffer port is gone

---
 include/courtier/GWebsocketConsumerT.hpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/include/courtier/GWebsocketConsumerT.hpp b/include/courtier/GWebsocketConsumerT.hpp
index 78bba14..96532ad 100644
--- a/include/courtier/GWebsocketConsumerT.hpp
+++ b/include/courtier/GWebsocketConsumerT.hpp
@@ -1438,12 +1438,17 @@ private:
 			 );
 		 }
 
-		 if(not m_broker_ptr->put(p, m_timeout)) {
-			 glogger
-				 << "In GWebsocketConsumerT<>::putPayloadItem():" << std::endl
-				 << "Work item could not be submitted to the broker" << std::endl
-				 << "The item will be discarded" << std::endl
-				 << GWARNING;
+		 try {
+			 if(not m_broker_ptr->put(p, m_timeout)) {
+				 glogger
+					 << "In GWebsocketConsumerT<>::putPayloadItem():" << std::endl
+					 << "Work item could not be submitted to the broker" << std::endl
+					 << "The item will be discarded" << std::endl
+					 << GWARNING;
+			 }
+		 } catch(const Gem::Courtier::buffer_not_present&) {
+			 // The origin of the item doesn't exist anymore. The broker has already emitted a warning.
+			 // The client will still receive its next work item
 		 }
 	 }
 
-- 
2.43.0


From 173299e454cc45225909c489ba35a81ed749a0ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:17 +0000
Subject: [PATCH 40/74] fix: GSerialConsumerT survives late work items whose
 buffer port is gone

---
 include/courtier/GSerialConsumerT.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/courtier/GSerialConsumerT.hpp b/include/courtier/GSerialConsumerT.hpp
index 84eaf19..c19c086 100644
--- a/include/courtier/GSerialConsumerT.hpp
+++ b/include/courtier/GSerialConsumerT.hpp
@@ -251,7 +251,14 @@ private:
 				 , [this](
 					 std::shared_ptr<processable_type> p
 					 , const std::chrono::milliseconds& timeout
-				 ) -> void { m_broker_ptr->put(p, timeout); }
+				 ) -> void {
+				 	 try {
+				 		 m_broker_ptr->put(p, timeout);
+				 	 } catch(const Gem::Courtier::buffer_not_present&) {
+				 		 // The origin of the item doesn't exist anymore. The broker has already emitted
+				 		 // a warning. This must not terminate the worker
+				 	 }
+				 }
 				 //----------------------
 				 , [this]() -> bool { return this->stopped(); }
 				 //----------------------
-- 
2.43.0


From 22edcaec9c11961896e7d29fbb45c0ca87dbefdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:17 +0000
Subject: [PATCH 41/74] fix: GStdThreadConsumerT survives late work items whose
 buffer port is gone

---
 include/courtier/GStdThreadConsumerT.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/courtier/GStdThreadConsumerT.hpp b/include/courtier/GStdThreadConsumerT.hpp
index 8cde55a..e8ea041 100644
--- a/include/courtier/GStdThreadConsumerT.hpp
+++ b/include/courtier/GStdThreadConsumerT.hpp
@@ -341,7 +341,14 @@ private:
 					 , [this](
 						 std::shared_ptr<processable_type> p
 						 , const std::chrono::milliseconds& timeout
-					 ) -> void { m_broker_ptr->put(p, timeout); }
+					 ) -> void {
+					 	 try {
+					 		 m_broker_ptr->put(p, timeout);
+					 	 } catch(const Gem::Courtier::buffer_not_present&) {
+					 		 // The origin of the item doesn't exist anymore. The broker has already emitted
+					 		 // a warning. This must not terminate the worker
+					 	 }
+					 }
 					 //----------------------
 					 , [this]() -> bool { return this->stopped(); }
 					 //----------------------
-- 
2.43.0


From 9871bbb7d4e88a56c3afdac891670c30064f1c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:58 +0000
Subject: [PATCH 42/74] fix: GBrokerT::enrol_buffer_port never leaves the get
 position on a removed port

---
 include/courtier/GBrokerT.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/courtier/GBrokerT.hpp b/include/courtier/GBrokerT.hpp
index acd4467..f923fd7 100644
--- a/include/courtier/GBrokerT.hpp
+++ b/include/courtier/GBrokerT.hpp
@@ -230,6 +230,10 @@ public:
 			 , [](const std::pair<BUFFERPORT_ID_TYPE, GBUFFERPORT_PTR>& p) -> bool { return (not p.second->is_connected_to_producer()); }
 		 ); // m_RawBuffers is a std::map, so items are of type std::pair
 
+		 // The current get-pointer may refer to an entry that was just removed. Needs to be
+		 // fixed before any exception may leave this function.
+		 m_currentGetPosition = m_RawBuffers.begin();
+
 #ifdef DEBUG
 		 if(nErasedRaw > 0 ) {
 			 glogger
-- 
2.43.0


From e087a879a0b66f88f2b80fd3148de92b1e76e2d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:58 +0000
Subject: [PATCH 43/74] fix: GBaseExecutorT sorts old work items with a strict
 ordering

---
 include/courtier/GExecutorT.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/courtier/GExecutorT.hpp b/include/courtier/GExecutorT.hpp
index 29f5567..bb99757 100644
--- a/include/courtier/GExecutorT.hpp
+++ b/include/courtier/GExecutorT.hpp
@@ -620,7 +620,7 @@ protected:
 			 , m_old_work_items_cnt.end()
 			 , [](std::shared_ptr<processable_type> x_ptr, std::shared_ptr<processable_type> y_ptr) -> bool {
 				 using namespace boost;
-				 return x_ptr->getCollectionPosition() <= y_ptr->getCollectionPosition();
+				 return x_ptr->getCollectionPosition() < y_ptr->getCollectionPosition();
 			 }
 		 );
 		 // Remove duplicates
-- 
2.43.0


From 2bed317f531e7554cd57c69ea7b188d3b1b0a462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:58 +0000
Subject: [PATCH 44/74] fix: GBrokerExecutorT compares percentages with
 percentages when checking for a partial return

---
 include/courtier/GExecutorT.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/courtier/GExecutorT.hpp b/include/courtier/GExecutorT.hpp
index bb99757..5d265e9 100644
--- a/include/courtier/GExecutorT.hpp
+++ b/include/courtier/GExecutorT.hpp
@@ -2391,7 +2391,7 @@ private:
 		 if(m_nReturnedCurrent == expectedNumber) return true;
 
 		 // Check if we have reached the minimum percentage
-		 double realPercentage = boost::numeric_cast<double>(m_nReturnedCurrent) / boost::numeric_cast<double>(expectedNumber);
+		 double realPercentage = 100. * boost::numeric_cast<double>(m_nReturnedCurrent) / boost::numeric_cast<double>(expectedNumber);
 		 return (realPercentage >= boost::numeric_cast<double>(this->getMinPartialReturnPercentage()));
 	 }
 
-- 
2.43.0


From a1affcad7d5ebd1ca9149966e99a37afdac4de11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:58 +0000
Subject: [PATCH 45/74] fix: GSerialExecutorT and GMTExecutorT check the
 converted pointer in load_

---
 include/courtier/GExecutorT.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/courtier/GExecutorT.hpp b/include/courtier/GExecutorT.hpp
index 5d265e9..671dd08 100644
--- a/include/courtier/GExecutorT.hpp
+++ b/include/courtier/GExecutorT.hpp
@@ -1112,7 +1112,7 @@ protected:
 	 void load_(const GBaseExecutorT<processable_type> *cp) override {
 		 const auto p_load_ptr = dynamic_cast<GSerialExecutorT<processable_type> const *const>(cp);
 
-		 if (not cp) { // nullptr
+		 if (not p_load_ptr) { // nullptr
 			 throw gemfony_exception(
 				 g_error_streamer(DO_LOG, time_and_place)
 					 << "In GSerialExecutorT<processable_type>::load_(): Conversion error!" << std::endl
@@ -1448,7 +1448,7 @@ protected:
 	 void load_(const GBaseExecutorT<processable_type> *cp) override {
 		 const auto p_load_ptr = dynamic_cast<const GMTExecutorT<processable_type> *>(cp);
 
-		 if (not cp) { // nullptr
+		 if (not p_load_ptr) { // nullptr
 			 throw gemfony_exception(
 				 g_error_streamer(DO_LOG, time_and_place)
 					 << "In GMTExecutorT<processable_type>::load_(): Conversion error!" << std::endl
-- 
2.43.0


From 4b8f37b6dc519daf78d3ebfa13dfd73f6c4e5f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:58 +0000
Subject: [PATCH 46/74] fix: GMTExecutorT tolerates failed work items also in
 release builds

---
 include/courtier/GExecutorT.hpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/include/courtier/GExecutorT.hpp b/include/courtier/GExecutorT.hpp
index 671dd08..8c3549b 100644
--- a/include/courtier/GExecutorT.hpp
+++ b/include/courtier/GExecutorT.hpp
@@ -1654,7 +1654,6 @@ protected:
 			 // Retrieve the future and check for errors
 			 try {
 				 result_type r = f.get();
-#ifdef DEBUG
 			 } catch(const g_processing_exception& e) {
 				 // This is an expected exception if processing has failed. We do nothing,
 				 // it is up to the caller to decide what to do with processing errors, and
@@ -1671,7 +1670,6 @@ protected:
 					 << "unsuccessful in the work item. We leave it to the" << std::endl
 					 << "caller to deal with this." << std::endl
 					 << GWARNING;
-#endif
 			 } catch(const std::exception& e) {
 				 throw gemfony_exception(
 					 g_error_streamer(DO_LOG, time_and_place)
-- 
2.43.0


From d50e5da5cb807c05acf4b97aebf0c745edcdf881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:58 +0000
Subject: [PATCH 47/74] fix: GBrokerExecutorT treats negative wait factors as
 'no timeout', as documented

---
 include/courtier/GExecutorT.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/courtier/GExecutorT.hpp b/include/courtier/GExecutorT.hpp
index 8c3549b..acaacb0 100644
--- a/include/courtier/GExecutorT.hpp
+++ b/include/courtier/GExecutorT.hpp
@@ -2145,7 +2145,7 @@ protected:
 	 ) override {
 		 // Act depending on the capabilities of the consumer or user-preferences
 		 return
-			 (m_capable_of_full_return || m_waitFactor == 0.)?
+			 (m_capable_of_full_return || m_waitFactor <= 0.)?
 			 this->waitForFullReturn(workItems, oldWorkItems):
 			 this->waitForTimeOut(workItems, oldWorkItems);
 	 }
-- 
2.43.0


From 951244524a57c48ad3f0bec77874109a6e94dfd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:58 +0000
Subject: [PATCH 48/74] fix: executors do not wait for work items if none were
 submitted

---
 include/courtier/GExecutorT.hpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/include/courtier/GExecutorT.hpp b/include/courtier/GExecutorT.hpp
index acaacb0..55241cc 100644
--- a/include/courtier/GExecutorT.hpp
+++ b/include/courtier/GExecutorT.hpp
@@ -302,10 +302,10 @@ public:
 
 			 // Wait for work items to complete. This function needs to
 			 // be re-implemented in derived classes.
-			 auto current_status = waitForReturn(
-				 workItems
-				 , m_old_work_items_cnt
-			 );
+			 // There is nothing to wait for if no items were submitted.
+			 auto current_status = (m_expectedNumber > 0)
+				 ? waitForReturn(workItems, m_old_work_items_cnt)
+				 : this->checkExecutionState(workItems);
 
 			 // There may not be errors during resubmission, so we need to save the "error state"
 			 if (current_status.is_complete) status.is_complete = true;
@@ -646,8 +646,9 @@ protected:
 		 m_n_erroneousItems  = this->countItemsWithStatus(workItems, processingStatus::ERROR_FLAGGED);
 		 m_n_erroneousItems += this->countItemsWithStatus(workItems, processingStatus::EXCEPTION_CAUGHT);
 
-		 // Make it known that the first iteration has ended (if this is the first iteration)
-		 if(m_in_first_iteration) {
+		 // Make it known that the first iteration has ended (if this is the first iteration
+		 // in which items have actually been submitted)
+		 if(m_in_first_iteration && this->checkItemsSubmittedInObject()) {
 			 m_in_first_iteration = false;
 		 }
 
@@ -783,7 +784,9 @@ protected:
 		 // Set the start time of the new cycle. How this time is determined depends
 		 // on the actual executor. NOTE that the following call may block, if a start time cannot
 		 // yet be determined.
-		 if(this->inFirstIteration() && this->inFirstCycle()) {
+		 if(0 == nSubmittedItems) { // Nothing to wait for
+			 m_approx_cycle_start_time = this->now();
+		 } else if(this->inFirstIteration() && this->inFirstCycle()) {
 			 m_approx_cycle_start_time = this->determineInitialCycleStartTime();
 		 } else {
 			 m_approx_cycle_start_time = m_cycle_first_submission_time;
-- 
2.43.0


From b7826635e2811559a1b8347dfc821032b0322925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:53 +0000
Subject: [PATCH 49/74] fix: a resubmission cycle tolerates work items that
 failed in an earlier cycle

---
 include/courtier/GExecutorT.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/courtier/GExecutorT.hpp b/include/courtier/GExecutorT.hpp
index 55241cc..ab02db1 100644
--- a/include/courtier/GExecutorT.hpp
+++ b/include/courtier/GExecutorT.hpp
@@ -770,7 +770,11 @@ protected:
 
 				 // Update the submission counter
 				 nSubmittedItems++;
-			 } else if(processingStatus::DO_IGNORE != ps && processingStatus::PROCESSED != ps) {
+			 } else if(
+			 	processingStatus::DO_IGNORE != ps
+			 	&& processingStatus::PROCESSED != ps
+			 	&& 0 == m_nResubmissions // Items may have failed in an earlier cycle of the same iteration
+			 ) {
 				 throw gemfony_exception(
 					 g_error_streamer(DO_LOG, time_and_place)
 						 << "In GBaseExecutorT<processable_type>::submitAllWorkItems(): Error" << std::endl
-- 
2.43.0


From 92e6ec9f00b18737d7846f83e465081d21246845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:53 +0000
Subject: [PATCH 50/74] fix: assignValueVector respects the activity mode also
 for integer and boolean parameters

---
 include/geneva/GParameterBase.hpp | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/include/geneva/GParameterBase.hpp b/include/geneva/GParameterBase.hpp
index 94e3491..4f20ef7 100644
--- a/include/geneva/GParameterBase.hpp
+++ b/include/geneva/GParameterBase.hpp
@@ -1076,11 +1076,13 @@ inline void GParameterBase::assignValueVector<std::int32_t>(
     , std::size_t &pos
     , activityMode am
 ) {
-    this->assignInt32ValueVector(
-        parVec
-        , pos
-        , am
-    );
+    if (this->modifiableAmMatchOrHandover(am)) {
+        this->assignInt32ValueVector(
+            parVec
+            , pos
+            , am
+        );
+    }
 }
 
 /******************************************************************************/
@@ -1096,11 +1098,13 @@ inline void GParameterBase::assignValueVector<bool>(
     , std::size_t &pos
     , activityMode am
 ) {
-    this->assignBooleanValueVector(
-        parVec
-        , pos
-        , am
-    );
+    if (this->modifiableAmMatchOrHandover(am)) {
+        this->assignBooleanValueVector(
+            parVec
+            , pos
+            , am
+        );
+    }
 }
 
 /******************************************************************************/
-- 
2.43.0


From b3b88d50e444cf959853e16a92de1c26c371248c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:53 +0000
Subject: [PATCH 51/74] fix: GParameterSet::assignValueVector checks the size
 for the activity mode in use

---
 include/geneva/GParameterSet.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/geneva/GParameterSet.hpp b/include/geneva/GParameterSet.hpp
index 9b7ec26..ee16ed3 100644
--- a/include/geneva/GParameterSet.hpp
+++ b/include/geneva/GParameterSet.hpp
@@ -672,14 +672,14 @@ public:
         , activityMode const &am = activityMode::DEFAULTACTIVITYMODE
     ) {
 #ifdef DEBUG
-        if (countParameters<par_type>() != parVec.size()) {
+        if (countParameters<par_type>(am) != parVec.size()) {
             throw gemfony_exception(
                 g_error_streamer(
                     DO_LOG
                     , time_and_place
                 )
                     << "In GParameterSet::assignValueVector(const std::vector<pat_type>&):" << std::endl
-                    << "Sizes don't match: " << countParameters<par_type>() << " / " << parVec.size() << std::endl
+                    << "Sizes don't match: " << countParameters<par_type>(am) << " / " << parVec.size() << std::endl
             );
         }
 #endif /* DEBUG */
-- 
2.43.0


From c93d31448b0d11ffcc3b93e71d6452c4f151b8ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:53 +0000
Subject: [PATCH 52/74] fix: GParameterSet::add and subtract do not run past
 the end of smaller parameter sets

---
 include/geneva/GParameterSet.hpp | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/include/geneva/GParameterSet.hpp b/include/geneva/GParameterSet.hpp
index ee16ed3..d2cf606 100644
--- a/include/geneva/GParameterSet.hpp
+++ b/include/geneva/GParameterSet.hpp
@@ -856,6 +856,18 @@ public:
         std::shared_ptr<GParameterSet> const &p
         , activityMode const &am
     ) {
+        // Both objects are traversed in parallel
+        if (this->size() != p->size()) {
+            throw gemfony_exception(
+                g_error_streamer(
+                    DO_LOG
+                    , time_and_place
+                )
+                    << "In GParameterSet::add(): Error!" << std::endl
+                    << "Sizes don't match: " << this->size() << " / " << p->size() << std::endl
+            );
+        }
+
         GParameterSet::iterator it;
         GParameterSet::const_iterator cit;
 
@@ -882,6 +894,18 @@ public:
         std::shared_ptr<GParameterSet> const &p
         , activityMode const &am
     ) {
+        // Both objects are traversed in parallel
+        if (this->size() != p->size()) {
+            throw gemfony_exception(
+                g_error_streamer(
+                    DO_LOG
+                    , time_and_place
+                )
+                    << "In GParameterSet::subtract(): Error!" << std::endl
+                    << "Sizes don't match: " << this->size() << " / " << p->size() << std::endl
+            );
+        }
+
         GParameterSet::iterator it;
         GParameterSet::const_iterator cit;
 
-- 
2.43.0


From d67b2112f6f5f74de78153cd93161c114e9e355c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:53 +0000
Subject: [PATCH 53/74] fix: GParameterSet::crossOverWith leaves single values
 alone

---
 src/geneva/GParameterSet.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/geneva/GParameterSet.cpp b/src/geneva/GParameterSet.cpp
index bf5c051..e3eaa10 100644
--- a/src/geneva/GParameterSet.cpp
+++ b/src/geneva/GParameterSet.cpp
@@ -699,7 +699,7 @@ std::shared_ptr<GParameterSet> GParameterSet::crossOverWith(std::shared_ptr<GPar
 #endif /* DEBUG */
 
 	// Do the actual cross-over
-	if (not this_double_cnt.empty()) {
+	if (this_double_cnt.size() > 1) { // At least two values are needed for a cross-over
 		// Calculate a suitable position for the cross-over
 		// We use this->cp as the source for getCrossOverPos in order to avoid
 		// having to mark getCrossOverPos const and this m_gr mutable.
@@ -710,7 +710,7 @@ std::shared_ptr<GParameterSet> GParameterSet::crossOverWith(std::shared_ptr<GPar
 		std::copy(cp_double_cnt.begin()+pos, cp_double_cnt.end(), this_double_cnt.begin()+pos);
 	}
 
-	if (not this_float_cnt.empty()) {
+	if (this_float_cnt.size() > 1) { // At least two values are needed for a cross-over
 		// Calculate a suitable position for the cross-over
 		auto pos = this_cp->getCrossOverPos(1, this_float_cnt.size());
 
@@ -719,7 +719,7 @@ std::shared_ptr<GParameterSet> GParameterSet::crossOverWith(std::shared_ptr<GPar
 		std::copy(cp_float_cnt.begin()+pos, cp_float_cnt.end(), this_float_cnt.begin()+pos);
 	}
 
-	if (not this_bool_cnt.empty()) {
+	if (this_bool_cnt.size() > 1) { // At least two values are needed for a cross-over
 		// Calculate a suitable position for the cross-over
 		auto pos = this_cp->getCrossOverPos(1, this_bool_cnt.size());
 
@@ -728,7 +728,7 @@ std::shared_ptr<GParameterSet> GParameterSet::crossOverWith(std::shared_ptr<GPar
 		std::copy(cp_bool_cnt.begin()+pos, cp_bool_cnt.end(), this_bool_cnt.begin()+pos);
 	}
 
-	if (not this_int_cnt.empty()) {
+	if (this_int_cnt.size() > 1) { // At least two values are needed for a cross-over
 		// Calculate a suitable position for the cross-over
 		auto pos = this_cp->getCrossOverPos(1, this_int_cnt.size());
 
-- 
2.43.0


From d9815dbdfa8d92d8a6c157704ce7763a79a648ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:35 +0000
Subject: [PATCH 54/74] fix: boolean parameters are covered by fixedValueInit

---
 include/geneva/GBooleanCollection.hpp |  2 ++
 include/geneva/GBooleanObject.hpp     |  4 ++++
 src/geneva/GBooleanCollection.cpp     | 12 ++++++++++++
 src/geneva/GBooleanObject.cpp         | 10 ++++++++++
 4 files changed, 28 insertions(+)

diff --git a/include/geneva/GBooleanCollection.hpp b/include/geneva/GBooleanCollection.hpp
index db442c9..7c40be2 100644
--- a/include/geneva/GBooleanCollection.hpp
+++ b/include/geneva/GBooleanCollection.hpp
@@ -149,6 +149,8 @@ protected:
 	 G_API_GENEVA void assignBooleanValueVector(const std::vector<bool>&, std::size_t&, const activityMode& am) override;
 	 /** @brief Assigns part of a value map to the parameter */
 	 G_API_GENEVA void assignBooleanValueVectors(const std::map<std::string, std::vector<bool>>&, const activityMode& am) override;
+	 /** @brief Initialize boolean-parameters with a given value */
+	 G_API_GENEVA void booleanFixedValueInit(const bool&, const activityMode& am) override;
 
 	 /** @brief Applies modifications to this object. This is needed for testing purposes */
 	 G_API_GENEVA bool modify_GUnitTests_() override;
diff --git a/include/geneva/GBooleanObject.hpp b/include/geneva/GBooleanObject.hpp
index 90af06b..c156cff 100644
--- a/include/geneva/GBooleanObject.hpp
+++ b/include/geneva/GBooleanObject.hpp
@@ -158,6 +158,10 @@ protected:
     G_API_GENEVA void assignBooleanValueVectors(
         const std::map<std::string, std::vector<bool>> &, const activityMode &am
     ) override;
+    /** @brief Initialize boolean-parameters with a given value */
+    G_API_GENEVA void booleanFixedValueInit(
+        const bool &, const activityMode &am
+    ) override;
 
     /** @brief Applies modifications to this object. This is needed for testing purposes */
     G_API_GENEVA bool modify_GUnitTests_() override;
diff --git a/src/geneva/GBooleanCollection.cpp b/src/geneva/GBooleanCollection.cpp
index ca77bd9..4868d35 100644
--- a/src/geneva/GBooleanCollection.cpp
+++ b/src/geneva/GBooleanCollection.cpp
@@ -386,6 +386,18 @@ void GBooleanCollection::assignBooleanValueVectors(
 	}
 }
 
+/******************************************************************************/
+/**
+ * Initialize boolean-parameters with a given value
+ */
+void GBooleanCollection::booleanFixedValueInit(
+	const bool &val, const activityMode &am
+) {
+	for (GBooleanCollection::iterator it = this->begin(); it != this->end(); ++it) {
+		(*it) = val;
+	}
+}
+
 /******************************************************************************/
 /**
  * Applies modifications to this object. This is needed for testing purposes
diff --git a/src/geneva/GBooleanObject.cpp b/src/geneva/GBooleanObject.cpp
index 6c32535..2b96509 100644
--- a/src/geneva/GBooleanObject.cpp
+++ b/src/geneva/GBooleanObject.cpp
@@ -329,6 +329,16 @@ void GBooleanObject::assignBooleanValueVectors(
 	this->setValue((Gem::Common::getMapItem<std::vector<bool>>(parMap, this->getParameterName())).at(0));
 }
 
+/******************************************************************************/
+/**
+ * Initialize boolean-parameters with a given value
+ */
+void GBooleanObject::booleanFixedValueInit(
+	const bool &val, const activityMode &am
+) {
+	this->setValue(val);
+}
+
 /******************************************************************************/
 /**
  * Loads the data of another GObject
-- 
2.43.0


From 6a6034bb00d06390ba3aa4222e2c508b888001db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:33 +0000
Subject: [PATCH 55/74] fix: constrained floating point values do not leave
 their boundaries through rounding

---
 include/geneva/GConstrainedFPNumCollectionT.hpp |  8 ++++++++
 include/geneva/GConstrainedFPT.hpp              | 12 +++++++++++-
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/include/geneva/GConstrainedFPNumCollectionT.hpp b/include/geneva/GConstrainedFPNumCollectionT.hpp
index aafd3b9..7277734 100644
--- a/include/geneva/GConstrainedFPNumCollectionT.hpp
+++ b/include/geneva/GConstrainedFPNumCollectionT.hpp
@@ -203,6 +203,14 @@ public:
                 mapping = -val + (fp_type(region - 1) * (upperBoundary - lowerBoundary) + 2 * upperBoundary);
             }
 
+            // Rounding may have moved the result slightly beyond the boundaries
+            if (mapping < lowerBoundary) {
+                return lowerBoundary;
+            }
+            if (mapping > upperBoundary) {
+                return upperBoundary;
+            }
+
             return mapping;
         }
 
diff --git a/include/geneva/GConstrainedFPT.hpp b/include/geneva/GConstrainedFPT.hpp
index c05dc3b..482ff03 100644
--- a/include/geneva/GConstrainedFPT.hpp
+++ b/include/geneva/GConstrainedFPT.hpp
@@ -355,7 +355,17 @@ public:
 			 }
 
 			 // fabs(mapping) will always be <= fabs(val), so this cast should never fail (if val was a valid fp value)
-			 return boost::numeric_cast<fp_type>(mapping);
+			 const fp_type result = boost::numeric_cast<fp_type>(mapping);
+
+			 // Rounding may have moved the result slightly beyond the boundaries
+			 if(result < GConstrainedNumT<fp_type>::getLowerBoundary()) {
+				 return GConstrainedNumT<fp_type>::getLowerBoundary();
+			 }
+			 if(result > GConstrainedNumT<fp_type>::getUpperBoundary()) {
+				 return GConstrainedNumT<fp_type>::getUpperBoundary();
+			 }
+
+			 return result;
 		 }
 
 		 // Make the compiler happy
-- 
2.43.0


From 184a1a34f3b6725dbee0cbe09f58e4ef9acd0486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:33 +0000
Subject: [PATCH 56/74] fix: mapping of constrained integers does not overflow

---
 include/geneva/GConstrainedIntT.hpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/include/geneva/GConstrainedIntT.hpp b/include/geneva/GConstrainedIntT.hpp
index 7f5073b..413eab5 100644
--- a/include/geneva/GConstrainedIntT.hpp
+++ b/include/geneva/GConstrainedIntT.hpp
@@ -41,6 +41,7 @@
 
 // Standard headers go here
 #include <type_traits>
+#include <cstdint>
 
 // Boost headers go here
 
@@ -197,19 +198,21 @@ public:
             int_type mapping = int_type(0);
 
             // Find out the size of the value range. Note that both boundaries
-            // are included, so that we need to add 1 to the difference.
-            int_type value_range = upperBoundary - lowerBoundary + int_type(1);
+            // are included, so that we need to add 1 to the difference. We calculate
+            // with a wider type, as distances might not be representable in int_type.
+            const std::int64_t wideVal = val;
+            const std::int64_t value_range = std::int64_t(upperBoundary) - std::int64_t(lowerBoundary) + 1;
 
             if (val < lowerBoundary) {
                 // Find out how many full value ranges val is below the lower boundary.
                 // We use integer division here, so 13/4 would be 3.
-                int_type nBelowLowerBoundary = (lowerBoundary - (val + int_type(1))) / value_range;
+                const std::int64_t nBelowLowerBoundary = (lowerBoundary - (wideVal + 1)) / value_range;
 
                 // We are dealing with descending (nBelowLowerBoundary is even) and
                 // ascending ranges (nBelowLowerBoundary is odd), which need to be treated differently
 
                 // Transfer the value into the allowed region
-                mapping = val + (value_range * (nBelowLowerBoundary + int_type(1)));
+                mapping = static_cast<int_type>(wideVal + (value_range * (nBelowLowerBoundary + 1)));
                 if (nBelowLowerBoundary % 2 == 0) { // nBelowLowerBoundary is even
                     // Revert the value to a descending sequence
                     mapping = revert(mapping);
@@ -217,13 +220,13 @@ public:
             } else { // val > getUpperBoundary()
                 // Find out how many full value ranges val is above the upper boundary.
                 // We use integer division here, so 13/4 would be 3.
-                int_type nAboveUpperBoundary = (val - upperBoundary - int_type(1)) / value_range;
+                const std::int64_t nAboveUpperBoundary = (wideVal - upperBoundary - 1) / value_range;
 
                 // We are dealing with descending (nAboveUpperBoundary is even) and
                 // ascending ranges (nAboveUpperBoundary is odd), which need to be treated differently
 
                 // Transfer into the allowed region
-                mapping = val - (value_range * (nAboveUpperBoundary + int_type(1)));
+                mapping = static_cast<int_type>(wideVal - (value_range * (nAboveUpperBoundary + 1)));
                 if (nAboveUpperBoundary % 2 == 0) { // nAboveUpperBoundary is even
                     // Revert, as we are dealing with a descending value range
                     mapping = revert(mapping);
-- 
2.43.0


From cbc0210b89ad6c558d4b5ce9ac5414074af9a341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:33 +0000
Subject: [PATCH 57/74] fix: property trees of constrained collections contain
 the externally visible values

---
 include/geneva/GConstrainedNumCollectionT.hpp | 4 ++--
 include/geneva/GNumCollectionT.hpp            | 2 +-
 include/geneva/GParameterCollectionT.hpp      | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/geneva/GConstrainedNumCollectionT.hpp b/include/geneva/GConstrainedNumCollectionT.hpp
index 06822e7..c96636a 100644
--- a/include/geneva/GConstrainedNumCollectionT.hpp
+++ b/include/geneva/GConstrainedNumCollectionT.hpp
@@ -403,8 +403,8 @@ public:
         for (cit = this->begin(); cit != this->end(); ++cit) {
             pos = cit - this->begin();
             ptr.put(
-                baseName + "values.value" + Gem::Common::to_string(pos)
-                , *cit
+                baseName + ".values.value" + Gem::Common::to_string(pos)
+                , this->transfer(*cit)
             );
         }
         ptr.put(
diff --git a/include/geneva/GNumCollectionT.hpp b/include/geneva/GNumCollectionT.hpp
index ae9ce15..114b2a6 100644
--- a/include/geneva/GNumCollectionT.hpp
+++ b/include/geneva/GNumCollectionT.hpp
@@ -277,7 +277,7 @@ public:
         for (cit = this->begin(); cit != this->end(); ++cit) {
             pos = cit - this->begin();
             ptr.put(
-                baseName + "values.value" + Gem::Common::to_string(pos)
+                baseName + ".values.value" + Gem::Common::to_string(pos)
                 , *cit
             );
         }
diff --git a/include/geneva/GParameterCollectionT.hpp b/include/geneva/GParameterCollectionT.hpp
index 86b2995..bd617d7 100644
--- a/include/geneva/GParameterCollectionT.hpp
+++ b/include/geneva/GParameterCollectionT.hpp
@@ -214,7 +214,7 @@ public:
                 , cit
             );
             ptr.put(
-                baseName + "values.value" + Gem::Common::to_string(pos)
+                baseName + ".values.value" + Gem::Common::to_string(pos)
                 , *cit
             );
         }
-- 
2.43.0


From 5e43a5927ec4a7af866e81f360630dbf2c758816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:39 +0000
Subject: [PATCH 58/74] fix: constrained collections keep their visible values
 when boundaries change

---
 include/geneva/GConstrainedNumCollectionT.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/geneva/GConstrainedNumCollectionT.hpp b/include/geneva/GConstrainedNumCollectionT.hpp
index c96636a..07601fb 100644
--- a/include/geneva/GConstrainedNumCollectionT.hpp
+++ b/include/geneva/GConstrainedNumCollectionT.hpp
@@ -255,7 +255,7 @@ public:
     virtual void setBoundaries(const num_type &lower, const num_type &upper) BASE {
         std::vector<num_type> currentValues;
         for (std::size_t pos = 0; pos < this->size(); pos++) {
-            currentValues.push_back(GParameterCollectionT<num_type>::value(pos));
+            currentValues.push_back(this->value(pos)); // Store the externally visible value
 
             // Check that the value is inside the allowed range
             if (currentValues[pos] < lower || currentValues[pos] > upper) {
-- 
2.43.0


From c64a62dd454a1e4992d47a5f3dcf89867b12a27c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:21 +0000
Subject: [PATCH 59/74] fix: adapt() does not hide an earlier change when a
 later attempt changes nothing

---
 src/geneva/GParameterSet.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/geneva/GParameterSet.cpp b/src/geneva/GParameterSet.cpp
index e3eaa10..3e911e1 100644
--- a/src/geneva/GParameterSet.cpp
+++ b/src/geneva/GParameterSet.cpp
@@ -836,7 +836,9 @@ std::size_t GParameterSet::adapt() {
 		// otherwise that individuals remain unchanged after a call to adapt()
 		while (true) { // Try again if no adaption has taken place
 			// Perform the actual adaption; Terminate, if at least one adaption was performed
-			if ((nAdaptions = this->customAdaptions()) > 0) {
+			std::size_t nChanged = this->customAdaptions();
+			if (nChanged > 0) {
+				nAdaptions = nChanged; // A later attempt without changes must not hide this
 				modified = true;
 				break;
 			}
-- 
2.43.0


From 96eca2e25e5b991fe3404c01aea73704eaae0244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:28 +0000
Subject: [PATCH 60/74] fix: GSwarmAlgorithm replaces the personal best by
 better instead of by worse individuals

---
 src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp b/src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp
index 7523cc6..a7b4c28 100644
--- a/src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp
+++ b/src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp
@@ -497,8 +497,8 @@ void GSwarmAlgorithm::updatePersonalBestIfBetter(
 
 	auto m = this->at(0)->getMaxMode(); // We assume that the maxMode is the same for all individuals
 	if(isBetter(
-		std::get<G_TRANSFORMED_FITNESS>(ind_ptr->getPersonalityTraits<GSwarmAlgorithm_PersonalityTraits>()->getPersonalBestQuality())
-		, ind_ptr->transformed_fitness(0)
+		ind_ptr->transformed_fitness(0)
+		, std::get<G_TRANSFORMED_FITNESS>(ind_ptr->getPersonalityTraits<GSwarmAlgorithm_PersonalityTraits>()->getPersonalBestQuality())
 		, m
 	)) {
 		ind_ptr->getPersonalityTraits<GSwarmAlgorithm_PersonalityTraits>()->registerPersonalBest(ind_ptr);
-- 
2.43.0


From d3d75914172a17ce0eded2b3f7bc5deeb28ed420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:28 +0000
Subject: [PATCH 61/74] fix: GEvolutionaryAlgorithm compares all fitness
 criteria when determining the Pareto front

---
 .../G_OptimizationAlgorithm_EvolutionaryAlgorithm.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/geneva/G_OptimizationAlgorithm_EvolutionaryAlgorithm.cpp b/src/geneva/G_OptimizationAlgorithm_EvolutionaryAlgorithm.cpp
index b3124d7..faf234d 100644
--- a/src/geneva/G_OptimizationAlgorithm_EvolutionaryAlgorithm.cpp
+++ b/src/geneva/G_OptimizationAlgorithm_EvolutionaryAlgorithm.cpp
@@ -1172,12 +1172,17 @@ bool GEvolutionaryAlgorithm::aDominatesB(
 #endif
 
 	// x dominates y, if none of its fitness criteria is worse than the
-	// corresponding criterion from y
+	// corresponding criterion from y, and at least one of them is better
+	bool x_is_better = false;
 	for (std::size_t i = 0; i < nCriteriaX; i++) {
-		if(isWorse(x_ptr, y_ptr)) return false;
+		double x_fitness = minOnly_transformed_fitness(x_ptr, i);
+		double y_fitness = minOnly_transformed_fitness(y_ptr, i);
+
+		if(x_fitness > y_fitness) return false;
+		if(x_fitness < y_fitness) x_is_better = true;
 	}
 
-	return true;
+	return x_is_better;
 }
 
 /******************************************************************************/
-- 
2.43.0


From f050cb525642320bdc5aa04c36f724b7c3b7116e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:28 +0000
Subject: [PATCH 62/74] fix: GFixedSizePriorityQueueT does not drop good items
 when it fills up while a collection is added

---
 include/common/GFixedSizePriorityQueueT.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/common/GFixedSizePriorityQueueT.hpp b/include/common/GFixedSizePriorityQueueT.hpp
index 3063763..407c138 100644
--- a/include/common/GFixedSizePriorityQueueT.hpp
+++ b/include/common/GFixedSizePriorityQueueT.hpp
@@ -329,14 +329,14 @@ public:
 		 double worstKnownEvaluation = Gem::Common::getWorstCase<double>(m_sortOrder);
 		 if (replace || m_data_deq.empty()) {
 			 m_data_deq.clear();
-		 } else {
-			 // Data already exists, we know better than the worst known valid
+		 } else if (m_maxSize && m_data_deq.size() >= m_maxSize) {
+			 // The queue is full, we know better than the worst known valid
 			 worstKnownEvaluation = this->evaluation(this->worst());
 		 }
 
 		 // At this point, worstKnownEvaluation will be
-		 // - the worst case, if the queue is empty or all entries in the queue will be replaced
-		 // - the evaluation of the worst entry in the queue if we only add items (regardless of whether they will be cloned or not)
+		 // - the worst case, if the queue isn't full yet or all entries in the queue will be replaced
+		 // - the evaluation of the worst entry in a full queue if we only add items (regardless of whether they will be cloned or not)
 		 for(auto const & item_ptr: items) {
 			 // Add the work item to the queue
 			 // - If the queue is unlimited
-- 
2.43.0


From 53b5a7711f274e6dd81219e224f06c57472f1f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:44 +0000
Subject: [PATCH 63/74] fix: GFixedSizePriorityQueueT::setMaxSize(0) keeps the
 items of the (now unlimited) queue

---
 include/common/GFixedSizePriorityQueueT.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/common/GFixedSizePriorityQueueT.hpp b/include/common/GFixedSizePriorityQueueT.hpp
index 407c138..d764575 100644
--- a/include/common/GFixedSizePriorityQueueT.hpp
+++ b/include/common/GFixedSizePriorityQueueT.hpp
@@ -452,8 +452,8 @@ public:
 	  * Sets the maximum size of the priority queue
 	  */
 	 void setMaxSize(std::size_t maxSize) {
-		 // Make sure the current size of m_data complies with maxSize
-		 if (m_data_deq.size() > maxSize) {
+		 // Make sure the current size of m_data complies with maxSize (0 means "unlimited")
+		 if (maxSize && m_data_deq.size() > maxSize) {
 			 m_data_deq.resize(maxSize);
 		 }
 
-- 
2.43.0


From 66a30a55956faf4f34c8471a035e836fe5856faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:59 +0000
Subject: [PATCH 64/74] fix: setMaxIteration() and setMinIteration() check the
 requested instead of the previous limit

---
 src/geneva/G_OptimizationAlgorithm_Base.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/geneva/G_OptimizationAlgorithm_Base.cpp b/src/geneva/G_OptimizationAlgorithm_Base.cpp
index 56bb243..7335884 100644
--- a/src/geneva/G_OptimizationAlgorithm_Base.cpp
+++ b/src/geneva/G_OptimizationAlgorithm_Base.cpp
@@ -844,11 +844,11 @@ std::size_t G_OptimizationAlgorithm_Base::getPopulationSize() const {
 void G_OptimizationAlgorithm_Base::setMaxIteration(std::uint32_t maxIteration) {
 	// Check that the maximum number of iterations is > the minimum number
 	// The check is only valid if a maximum number of iterations has been set (i.e. is != 0)
-	if(m_maxIteration > 0 && m_maxIteration <= m_minIteration) {
+	if(maxIteration > 0 && maxIteration <= m_minIteration) {
 		throw gemfony_exception(
 			g_error_streamer(DO_LOG,  time_and_place)
 				<< "In G_OptimizationAlgorithm_Base<>::setMaxIteration(): Error!" << std::endl
-				<< "Maximum number of iterations " << 	m_maxIteration << " is <= the minimum number " << m_minIteration << std::endl
+				<< "Maximum number of iterations " << 	maxIteration << " is <= the minimum number " << m_minIteration << std::endl
 		);
 	}
 
@@ -877,11 +877,11 @@ std::uint32_t G_OptimizationAlgorithm_Base::getMaxIteration() const {
 void G_OptimizationAlgorithm_Base::setMinIteration(std::uint32_t minIteration) {
 	// Check that the maximum number of iterations is > the minimum number
 	// The check is only valid if a maximum number of iterations has been set (i.e. is != 0)
-	if(m_maxIteration > 0 && m_maxIteration <= m_minIteration) {
+	if(m_maxIteration > 0 && m_maxIteration <= minIteration) {
 		throw gemfony_exception(
 			g_error_streamer(DO_LOG,  time_and_place)
 				<< "In G_OptimizationAlgorithm_Base<>::setMinIteration(): Error!" << std::endl
-				<< "Maximum number of iterations " << 	m_maxIteration << " is <= the minimum number " << m_minIteration << std::endl
+				<< "Maximum number of iterations " << 	m_maxIteration << " is <= the minimum number " << minIteration << std::endl
 		);
 	}
 
-- 
2.43.0


From aed88ffa579fe225e8046594637aacb80487b770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:27 +0000
Subject: [PATCH 65/74] fix: toFile() reports that the data could not be
 written

---
 include/common/GCommonInterfaceT.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/common/GCommonInterfaceT.hpp b/include/common/GCommonInterfaceT.hpp
index 53b012f..5d36e3a 100644
--- a/include/common/GCommonInterfaceT.hpp
+++ b/include/common/GCommonInterfaceT.hpp
@@ -300,6 +300,18 @@ public:
         );
         ofstr.close();
 
+        // Make sure the data has indeed reached the file (e.g. that the disk wasn't full)
+        if (not ofstr) {
+            throw gemfony_exception(
+                g_error_streamer(
+                    DO_LOG
+                    , time_and_place
+                )
+                    << "In GCommonInterfaceT::toFile():" << std::endl
+                    << "Problems writing to file " << p.string() << std::endl
+            );
+        }
+
 #ifdef DEBUG
         if (not std::filesystem::exists(std::filesystem::path(p))) {
             throw gemfony_exception(
-- 
2.43.0


From 3cc43ec597e8d7bd3605db672b4669710441dd35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:27 +0000
Subject: [PATCH 66/74] fix: a checkpoint isn't removed if the next one is
 written under the same name

---
 src/geneva/G_OptimizationAlgorithm_Base.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/geneva/G_OptimizationAlgorithm_Base.cpp b/src/geneva/G_OptimizationAlgorithm_Base.cpp
index 7335884..e63498e 100644
--- a/src/geneva/G_OptimizationAlgorithm_Base.cpp
+++ b/src/geneva/G_OptimizationAlgorithm_Base.cpp
@@ -264,8 +264,8 @@ void G_OptimizationAlgorithm_Base::checkpoint(bool is_better) const {
 	if(do_save) {
 		saveCheckpoint(output_file);
 
-		// Remove the last checkoint file if requested by the user
-		if(m_cp_remove && m_cp_last != "empty") {
+		// Remove the last checkoint file if requested by the user (but not the one just written)
+		if(m_cp_remove && m_cp_last != "empty" && m_cp_last != output_file.string()) {
 			if(std::filesystem::exists(std::filesystem::path(m_cp_last))) {
 				std::filesystem::remove(std::filesystem::path(m_cp_last));
 			}
-- 
2.43.0


From 91721c3cfe16b456e57970dfc06dde42e6ed41e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:05 +0000
Subject: [PATCH 67/74] fix: registerFileParameter() honours isEssential when
 no comment was given

---
 include/common/GParserBuilder.hpp | 126 +++++++++---------------------
 1 file changed, 35 insertions(+), 91 deletions(-)

diff --git a/include/common/GParserBuilder.hpp b/include/common/GParserBuilder.hpp
index b104fe8..d3a1825 100644
--- a/include/common/GParserBuilder.hpp
+++ b/include/common/GParserBuilder.hpp
@@ -2215,19 +2215,11 @@ public:
 
 		 std::shared_ptr<GFileSingleParsableParameterT<parameter_type>> singleParm_ptr;
 
-		 if (comment.empty()) {
-			 singleParm_ptr = std::shared_ptr<GFileSingleParsableParameterT<parameter_type>>(
-				 new GFileSingleParsableParameterT<parameter_type>(
-					 optionName, def_val
-				 )
-			 );
-		 } else {
-			 singleParm_ptr = std::shared_ptr<GFileSingleParsableParameterT<parameter_type>>(
-				 new GFileSingleParsableParameterT<parameter_type>(
-					 optionName, comment, isEssential, def_val
-				 )
-			 );
-		 }
+		 singleParm_ptr = std::shared_ptr<GFileSingleParsableParameterT<parameter_type>>(
+			 new GFileSingleParsableParameterT<parameter_type>(
+				 optionName, comment, isEssential, def_val
+			 )
+		 );
 
 		 singleParm_ptr->registerCallBackFunction(callBack);
 
@@ -2273,19 +2265,11 @@ public:
 
 		 std::shared_ptr<GFileReferenceParsableParameterT<parameter_type>> refParm_ptr;
 
-		 if (comment.empty()) {
-			 refParm_ptr = std::shared_ptr<GFileReferenceParsableParameterT<parameter_type>>(
-				 new GFileReferenceParsableParameterT<parameter_type>(
-					 parameter, optionName, def_val
-				 )
-			 );
-		 } else {
-			 refParm_ptr = std::shared_ptr<GFileReferenceParsableParameterT<parameter_type>>(
-				 new GFileReferenceParsableParameterT<parameter_type>(
-					 parameter, optionName, comment, isEssential, def_val
-				 )
-			 );
-		 }
+		 refParm_ptr = std::shared_ptr<GFileReferenceParsableParameterT<parameter_type>>(
+			 new GFileReferenceParsableParameterT<parameter_type>(
+				 parameter, optionName, comment, isEssential, def_val
+			 )
+		 );
 
 		 // Add to the proxy store
 		 m_file_parameter_proxies.push_back(refParm_ptr);
@@ -2360,19 +2344,11 @@ public:
 
 		 std::shared_ptr<GFileCombinedParsableParameterT<par_type1, par_type2>> combParm_ptr;
 
-		 if (comment1.empty() && comment2.empty()) {
-			 combParm_ptr = std::shared_ptr<GFileCombinedParsableParameterT<par_type1, par_type2>>(
-				 new GFileCombinedParsableParameterT<par_type1, par_type2>(
-					 optionName1, def_val1, optionName2, def_val2, combined_label
-				 )
-			 );
-		 } else {
-			 combParm_ptr = std::shared_ptr<GFileCombinedParsableParameterT<par_type1, par_type2>>(
-				 new GFileCombinedParsableParameterT<par_type1, par_type2>(
-					 optionName1, comment1, def_val1, optionName2, comment2, def_val2, isEssential, combined_label
-				 )
-			 );
-		 }
+		 combParm_ptr = std::shared_ptr<GFileCombinedParsableParameterT<par_type1, par_type2>>(
+			 new GFileCombinedParsableParameterT<par_type1, par_type2>(
+				 optionName1, comment1, def_val1, optionName2, comment2, def_val2, isEssential, combined_label
+			 )
+		 );
 
 		 combParm_ptr->registerCallBackFunction(callBack);
 
@@ -2446,19 +2422,11 @@ public:
 
 		 std::shared_ptr<GFileVectorParsableParameterT<parameter_type>> vecParm_ptr;
 
-		 if (comment.empty()) {
-			 vecParm_ptr = std::shared_ptr<GFileVectorParsableParameterT<parameter_type>>(
-				 new GFileVectorParsableParameterT<parameter_type>(
-					 optionName, def_val
-				 )
-			 );
-		 } else {
-			 vecParm_ptr = std::shared_ptr<GFileVectorParsableParameterT<parameter_type>>(
-				 new GFileVectorParsableParameterT<parameter_type>(
-					 optionName, comment, def_val, isEssential
-				 )
-			 );
-		 }
+		 vecParm_ptr = std::shared_ptr<GFileVectorParsableParameterT<parameter_type>>(
+			 new GFileVectorParsableParameterT<parameter_type>(
+				 optionName, comment, def_val, isEssential
+			 )
+		 );
 
 		 vecParm_ptr->registerCallBackFunction(callBack);
 
@@ -2500,19 +2468,11 @@ public:
 
 		 std::shared_ptr<GFileVectorReferenceParsableParameterT<parameter_type>> vecRefParm_ptr;
 
-		 if (comment.empty()) {
-			 vecRefParm_ptr = std::shared_ptr<GFileVectorReferenceParsableParameterT<parameter_type>>(
-				 new GFileVectorReferenceParsableParameterT<parameter_type>(
-					 stored_reference, optionName, def_val
-				 )
-			 );
-		 } else {
-			 vecRefParm_ptr = std::shared_ptr<GFileVectorReferenceParsableParameterT<parameter_type>>(
-				 new GFileVectorReferenceParsableParameterT<parameter_type>(
-					 stored_reference, optionName, comment, def_val, isEssential
-				 )
-			 );
-		 }
+		 vecRefParm_ptr = std::shared_ptr<GFileVectorReferenceParsableParameterT<parameter_type>>(
+			 new GFileVectorReferenceParsableParameterT<parameter_type>(
+				 stored_reference, optionName, comment, def_val, isEssential
+			 )
+		 );
 
 		 // Add to the proxy store
 		 m_file_parameter_proxies.push_back(vecRefParm_ptr);
@@ -2584,19 +2544,11 @@ public:
 
 		 std::shared_ptr<GFileArrayParsableParameterT<parameter_type, N>> arrayParm_ptr;
 
-		 if (comment.empty()) {
-			 arrayParm_ptr = std::shared_ptr<GFileArrayParsableParameterT<parameter_type, N>>(
-				 new GFileArrayParsableParameterT<parameter_type, N>(
-					 optionName, def_val
-				 )
-			 );
-		 } else {
-			 arrayParm_ptr = std::shared_ptr<GFileArrayParsableParameterT<parameter_type, N>>(
-				 new GFileArrayParsableParameterT<parameter_type, N>(
-					 optionName, comment, def_val, isEssential
-				 )
-			 );
-		 }
+		 arrayParm_ptr = std::shared_ptr<GFileArrayParsableParameterT<parameter_type, N>>(
+			 new GFileArrayParsableParameterT<parameter_type, N>(
+				 optionName, comment, def_val, isEssential
+			 )
+		 );
 
 		 // Register the call back function
 		 arrayParm_ptr->registerCallBackFunction(callBack);
@@ -2638,19 +2590,11 @@ public:
 #endif /* DEBUG */
 
 		 std::shared_ptr<GFileArrayReferenceParsableParameterT<parameter_type, N>> arrayRefParm_ptr;
-		 if (comment.empty()) {
-			 arrayRefParm_ptr = std::shared_ptr<GFileArrayReferenceParsableParameterT<parameter_type, N>>(
-				 new GFileArrayReferenceParsableParameterT<parameter_type, N>(
-					 stored_reference, optionName, def_val
-				 )
-			 );
-		 } else {
-			 arrayRefParm_ptr = std::shared_ptr<GFileArrayReferenceParsableParameterT<parameter_type, N>>(
-				 new GFileArrayReferenceParsableParameterT<parameter_type, N>(
-					 stored_reference, optionName, comment, def_val, isEssential
-				 )
-			 );
-		 }
+		 arrayRefParm_ptr = std::shared_ptr<GFileArrayReferenceParsableParameterT<parameter_type, N>>(
+			 new GFileArrayReferenceParsableParameterT<parameter_type, N>(
+				 stored_reference, optionName, comment, def_val, isEssential
+			 )
+		 );
 
 		 // Add to the proxy store
 		 m_file_parameter_proxies.push_back(arrayRefParm_ptr);
-- 
2.43.0


From f6a22237be48f30874e1ecf7ed8488b67bf6c772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:05 +0000
Subject: [PATCH 68/74] fix: a vector option missing from the configuration
 file takes its default values

---
 include/common/GParserBuilder.hpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/include/common/GParserBuilder.hpp b/include/common/GParserBuilder.hpp
index d3a1825..9d6b54c 100644
--- a/include/common/GParserBuilder.hpp
+++ b/include/common/GParserBuilder.hpp
@@ -1336,7 +1336,13 @@ private:
 		 GVectorParT<parameter_type>::m_par_cnt.clear();
 
 		 std::string ppath = GParsableI::optionName(0) + ".value";
-		 for(auto const& v: pt.get_child(ppath.c_str())) {
+		 auto values = pt.get_child_optional(ppath.c_str());
+		 if(not values) { // The option isn't part of the file
+			 GVectorParT<parameter_type>::m_par_cnt = GVectorParT<parameter_type>::m_def_val_cnt;
+			 return;
+		 }
+
+		 for(auto const& v: *values) {
 			 GVectorParT<parameter_type>::m_par_cnt.push_back(boost::lexical_cast<parameter_type>(v.second.data()));
 		 }
 	 }
@@ -1495,7 +1501,13 @@ private:
 		 GVectorParT<parameter_type>::m_par_cnt.clear();
 
 		 std::string ppath = GParsableI::optionName(0) + ".value";
-		 for(auto const& v: pt.get_child(ppath.c_str())) {
+		 auto values = pt.get_child_optional(ppath.c_str());
+		 if(not values) { // The option isn't part of the file
+			 GVectorParT<parameter_type>::m_par_cnt = GVectorParT<parameter_type>::m_def_val_cnt;
+			 return;
+		 }
+
+		 for(auto const& v: *values) {
 			 GVectorParT<parameter_type>::m_par_cnt.push_back(boost::lexical_cast<parameter_type>(v.second.data()));
 		 }
 	 }
-- 
2.43.0


From fd43e42fe4cf538bb40bbaf0472719fcac29e732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:05 +0000
Subject: [PATCH 69/74] fix: vector options are written to configuration files
 with as many values as they have

---
 include/common/GParserBuilder.hpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/include/common/GParserBuilder.hpp b/include/common/GParserBuilder.hpp
index 9d6b54c..73845bd 100644
--- a/include/common/GParserBuilder.hpp
+++ b/include/common/GParserBuilder.hpp
@@ -1385,12 +1385,11 @@ private:
 		 }
 
 		 // Add the value and default items
-		 auto par_it = GVectorParT<parameter_type>::m_par_cnt.cbegin();
 		 for(auto const& def_val: GVectorParT<parameter_type>::m_def_val_cnt) {
 			 pt.add((GParsableI::optionName(0) + ".default.item").c_str(), def_val);
-			 pt.add((GParsableI::optionName(0) + ".value.item").c_str(), *par_it);
-
-			 par_it++;
+		 }
+		 for(auto const& par: GVectorParT<parameter_type>::m_par_cnt) { // May hold another number of items
+			 pt.add((GParsableI::optionName(0) + ".value.item").c_str(), par);
 		 }
 	 }
 
@@ -1551,12 +1550,11 @@ private:
 
 
 		 // Add the value and default items
-		 auto par_it = GVectorParT<parameter_type>::m_par_cnt.cbegin();
 		 for(auto const& def_val: GVectorParT<parameter_type>::m_def_val_cnt) {
 			 pt.add((GParsableI::optionName(0) + ".default.item").c_str(), def_val);
-			 pt.add((GParsableI::optionName(0) + ".value.item").c_str(), *par_it);
-
-			 par_it++;
+		 }
+		 for(auto const& par: GVectorParT<parameter_type>::m_par_cnt) { // May hold another number of items
+			 pt.add((GParsableI::optionName(0) + ".value.item").c_str(), par);
 		 }
 	 }
 
-- 
2.43.0


From 2dec3a99014f3cd79c04b20bd9303f5e4c9f2fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:05 +0000
Subject: [PATCH 70/74] fix: GDelayIndividual::setRandomSleep() does not store
 rejected values

---
 src/geneva-individuals/GDelayIndividual.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/geneva-individuals/GDelayIndividual.cpp b/src/geneva-individuals/GDelayIndividual.cpp
index b4befa3..744a739 100644
--- a/src/geneva-individuals/GDelayIndividual.cpp
+++ b/src/geneva-individuals/GDelayIndividual.cpp
@@ -244,8 +244,6 @@ void GDelayIndividual::setRandomSleep(
 	bool sleepRandomly
 	, std::tuple<double,double> randSleepBoundaries
 ) {
-	m_sleepRandomly = sleepRandomly;
-
 	// Enforce that the sanity of the lower and upper boundaries
 	if(std::get<0>(randSleepBoundaries) < 0. || std::get<0>(randSleepBoundaries) >= std::get<1>(randSleepBoundaries)) {
 		throw gemfony_exception(
@@ -255,6 +253,7 @@ void GDelayIndividual::setRandomSleep(
 		);
 	}
 
+	m_sleepRandomly = sleepRandomly;
 	m_randSleepBoundaries = randSleepBoundaries;
 }
 
-- 
2.43.0


From dc74d4eb144cf98fcea28b2dfdd8c612a630d9f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:05 +0000
Subject: [PATCH 71/74] fix: setCheckpointBaseName() does not store a rejected
 base name

---
 src/geneva/G_OptimizationAlgorithm_Base.cpp | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/geneva/G_OptimizationAlgorithm_Base.cpp b/src/geneva/G_OptimizationAlgorithm_Base.cpp
index e63498e..882ddc2 100644
--- a/src/geneva/G_OptimizationAlgorithm_Base.cpp
+++ b/src/geneva/G_OptimizationAlgorithm_Base.cpp
@@ -360,32 +360,34 @@ void G_OptimizationAlgorithm_Base::setCheckpointBaseName(
 		);
 	}
 
-	m_cp_base_name = cpBaseName;
-
 	// Transform the directory into a path
-	m_cp_directory_path = std::filesystem::path(cpDirectory);
+	std::filesystem::path cp_directory_path(cpDirectory);
 
 	// Check that the provided directory exists
-	if(not std::filesystem::exists(m_cp_directory_path)) {
+	if(not std::filesystem::exists(cp_directory_path)) {
 		glogger
 			<< "In G_OptimizationAlgorithm_Base::setCheckpointBaseName(): Warning!" << std::endl
-			<< "Directory " << m_cp_directory_path.string() << " does not exist and will be created automatically." << std::endl
+			<< "Directory " << cp_directory_path.string() << " does not exist and will be created automatically." << std::endl
 			<< GWARNING;
 
-		if(not std::filesystem::create_directory(m_cp_directory_path)) {
+		if(not std::filesystem::create_directory(cp_directory_path)) {
 			throw gemfony_exception(
 				g_error_streamer(DO_LOG,  time_and_place)
 					<< "In G_OptimizationAlgorithm_Base::setCheckpointBaseName(): Error!" << std::endl
-					<< "Could not create directory " << m_cp_directory_path.string() << std::endl
+					<< "Could not create directory " << cp_directory_path.string() << std::endl
 			);
 		}
-	} else if(not std::filesystem::is_directory(m_cp_directory_path)) {
+	} else if(not std::filesystem::is_directory(cp_directory_path)) {
 		throw gemfony_exception(
 			g_error_streamer(DO_LOG,  time_and_place)
 				<< "In G_OptimizationAlgorithm_Base::setCheckpointBaseName(): Error!" << std::endl
-				<< m_cp_directory_path.string() << " exists but is no directory." << std::endl
+				<< cp_directory_path.string() << " exists but is no directory." << std::endl
 		);
 	}
+
+	// Everything is fine
+	m_cp_base_name = cpBaseName;
+	m_cp_directory_path = cp_directory_path;
 }
 
 /******************************************************************************/
-- 
2.43.0


From a4515228034db1ba99f294f40e5c526b4611d8b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:05 +0000
Subject: [PATCH 72/74] fix: GNumBiGaussAdaptorT answers queries for sigma2
 with sigma2

---
 include/geneva/GNumBiGaussAdaptorT.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/geneva/GNumBiGaussAdaptorT.hpp b/include/geneva/GNumBiGaussAdaptorT.hpp
index d4c5d28..53739db 100644
--- a/include/geneva/GNumBiGaussAdaptorT.hpp
+++ b/include/geneva/GNumBiGaussAdaptorT.hpp
@@ -789,7 +789,7 @@ protected:
         if (property == "sigma1") {
             data.push_back(boost::any(sigma1_));
         } else if (property == "sigma2") {
-            data.push_back(boost::any(sigma1_));
+            data.push_back(boost::any(sigma2_));
         } else if (property == "delta") {
             data.push_back(boost::any(delta_));
         } else {
-- 
2.43.0


From 1d8ae33590c7c83ed99c2ae647c200971822355d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:05 +0000
Subject: [PATCH 73/74] fix: GNumGaussAdaptorT::updateOnStall() reports the
 update of the adaption probability

---
 include/geneva/GNumGaussAdaptorT.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/geneva/GNumGaussAdaptorT.hpp b/include/geneva/GNumGaussAdaptorT.hpp
index ef35362..22c5980 100644
--- a/include/geneva/GNumGaussAdaptorT.hpp
+++ b/include/geneva/GNumGaussAdaptorT.hpp
@@ -397,11 +397,11 @@ public:
 		 , const num_type& range
 	 ) override {
 		 // Call our parent class'es function
-		 GAdaptorT<num_type>::updateOnStall(nStalls, range);
+		 bool updated = GAdaptorT<num_type>::updateOnStall(nStalls, range);
 
-		 // Reset the adaption probability
+		 // Reset sigma
 		 if(sigma_ == sigma_reset_) {
-			 return false;
+			 return updated;
 		 } else {
 			 sigma_ = sigma_reset_;
 			 return true;
-- 
2.43.0


From 29736c11a15a35df991e98a2aef23b9ad95a76e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:05 +0000
Subject: [PATCH 74/74] fix: the constructor of GNumGaussAdaptorT uses its
 sigma arguments

---
 include/geneva/GNumGaussAdaptorT.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/geneva/GNumGaussAdaptorT.hpp b/include/geneva/GNumGaussAdaptorT.hpp
index 22c5980..19d0abf 100644
--- a/include/geneva/GNumGaussAdaptorT.hpp
+++ b/include/geneva/GNumGaussAdaptorT.hpp
@@ -141,7 +141,14 @@ public:
 		 , const double& probability
 	 )
 		 : GAdaptorT<num_type> (probability)
-	 { /* nothing */ }
+	 {
+		 // These functions do error checks on their values
+		 setSigmaAdaptionRate(sigmaSigma);
+		 setSigmaRange(minSigma, maxSigma);
+		 setSigma(sigma); // Must be set last so an error check for compliance with the boundaries can be made
+
+		 sigma_reset_ = sigma_;
+	 }
 
 	 /***************************************************************************/
 	 /**
-- 
2.43.0

