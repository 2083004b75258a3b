From 6437eb04856a6214170c76e2de620db1cc7f96e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:28 +0000
Subject: [PATCH 01/36] fix: inversion sampling on a uniform draw of exactly 0
 (or above the rounded last cumulative weight) left the support

The uniform generator returns values in [0,1), 0 included; comparing with '>' stopped at the leading 0 of the cumulative sums and
returned state/sample -1.
---
 orocos_bfl/src/filter/EKparticlefilter.cpp    | 2 +-
 orocos_bfl/src/pdf/discreteconditionalpdf.cpp | 2 +-
 orocos_bfl/src/pdf/discretepdf.cpp            | 4 ++--
 orocos_bfl/src/pdf/mcpdf.h                    | 6 ++++--
 orocos_bfl/src/pdf/mixture.h                  | 4 ++--
 5 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/orocos_bfl/src/filter/EKparticlefilter.cpp b/orocos_bfl/src/filter/EKparticlefilter.cpp
index 2b017ec..f46dd59 100644
--- a/orocos_bfl/src/filter/EKparticlefilter.cpp
+++ b/orocos_bfl/src/filter/EKparticlefilter.cpp
@@ -94,7 +94,7 @@ namespace BFL
 
     for ( int i = 0; i < numsamples ; i++)
       {
-	while ( _unif_samples[i] > *_CumPDFit )
+	while ( _unif_samples[i] >= *_CumPDFit )
 	  {
 	    assert(index <= (unsigned int)numsamples);
 	    index++; _oit++; _CumPDFit++; _cov_it++;
diff --git a/orocos_bfl/src/pdf/discreteconditionalpdf.cpp b/orocos_bfl/src/pdf/discreteconditionalpdf.cpp
index 250710e..e96c057 100644
--- a/orocos_bfl/src/pdf/discreteconditionalpdf.cpp
+++ b/orocos_bfl/src/pdf/discreteconditionalpdf.cpp
@@ -165,7 +165,7 @@ namespace BFL
     double unif_sample; unif_sample = runif();
     // Compare where we should be: THIS CAN BE MADE FASTER: TODO
     index = 0;
-    while ( unif_sample > _valuelist[index] )
+    while ( unif_sample >= _valuelist[index] )
       {
 	assert(index <= NumStatesGet());
 	index++;
diff --git a/orocos_bfl/src/pdf/discretepdf.cpp b/orocos_bfl/src/pdf/discretepdf.cpp
index d47ebf3..08e3e36 100644
--- a/orocos_bfl/src/pdf/discretepdf.cpp
+++ b/orocos_bfl/src/pdf/discretepdf.cpp
@@ -158,7 +158,7 @@ namespace BFL
 
 	    for ( unsigned int i = 0; i < num_samples ; i++)
 	      {
-	        while ( unif_samples[i] > *CumPDFit )
+	        while ( unif_samples[i] >= *CumPDFit )
 	        {
 	  	// check for internal error
 	  	assert(index <= num_states);
@@ -188,7 +188,7 @@ namespace BFL
 	  double unif_sample; unif_sample = runif();
 	  // Compare where we should be
 	  unsigned int index = 0;
-	  while ( unif_sample > _CumPDF[index] )
+	  while ( unif_sample >= _CumPDF[index] )
 	    {
 	      assert(index <= NumStatesGet());
 	      index++;
diff --git a/orocos_bfl/src/pdf/mcpdf.h b/orocos_bfl/src/pdf/mcpdf.h
index e2390ff..6865f68 100644
--- a/orocos_bfl/src/pdf/mcpdf.h
+++ b/orocos_bfl/src/pdf/mcpdf.h
@@ -271,7 +271,7 @@ namespace BFL
 
 	    for ( unsigned int i = 0; i < numsamples ; i++)
 	      {
-		while ( unif_samples[i] > *CumPDFit )
+		while ( unif_samples[i] >= *CumPDFit )
 		  {
 		    assert(index <= size);
 		    index++; it++; CumPDFit++;
@@ -308,7 +308,7 @@ namespace BFL
 	    typename vector<double>::const_iterator CumPDFit;
 	    CumPDFit = _CumPDF.begin();
 
-	    while ( unif_sample > *CumPDFit )
+	    while ( unif_sample >= *CumPDFit )
 	      {
 		// check for internal error
 		assert(index <= size);
@@ -522,6 +522,8 @@ namespace BFL
 	  CumSum += ( it->WeightGet() / _SumWeights);
 	  *CumPDFit = CumSum;
 	}
+      // Rounding may leave the last element below 1
+      if (!_listOfSamples.empty()) *CumPDFit = 1.0;
     }
 
 
diff --git a/orocos_bfl/src/pdf/mixture.h b/orocos_bfl/src/pdf/mixture.h
index d43118f..14850c5 100644
--- a/orocos_bfl/src/pdf/mixture.h
+++ b/orocos_bfl/src/pdf/mixture.h
@@ -317,7 +317,7 @@ template<typename T>
 
 	    for ( unsigned int i = 0; i < num_samples ; i++)
 	      {
-	        while ( unif_samples[i] > *CumPDFit )
+	        while ( unif_samples[i] >= *CumPDFit )
 	        {
 	  	// check for internal error
 	  	assert(index <= num_states);
@@ -347,7 +347,7 @@ template<typename T>
 	  double unif_sample; unif_sample = runif();
 	  // Compare where we should be
 	  unsigned int index = 0;
-	  while ( unif_sample > _cumWeights[index] )
+	  while ( unif_sample >= _cumWeights[index] )
 	    {
 	      assert(index <= NumComponentsGet());
 	      index++;
-- 
2.43.0


From bba50b58c5fe70a1f323a4c3744b81cfa062f410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:28 +0000
Subject: [PATCH 02/36] fix: setting the probability of the only state of a
 one-state pdf divided by zero

---
 orocos_bfl/src/pdf/discretepdf.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/orocos_bfl/src/pdf/discretepdf.cpp b/orocos_bfl/src/pdf/discretepdf.cpp
index 08e3e36..f2f6f3f 100644
--- a/orocos_bfl/src/pdf/discretepdf.cpp
+++ b/orocos_bfl/src/pdf/discretepdf.cpp
@@ -99,7 +99,7 @@ namespace BFL
             (*_Values_p)[i] = (Probability)( (double)( (*_Values_p)[i] )* normalization_factor);
         }
     }
-    else{
+    else if (NumStatesGet() > 1){
         for (int i=0; i<NumStatesGet();i++)
         {
             (*_Values_p)[i] = (Probability)( (1-a)/(NumStatesGet()-1));
-- 
2.43.0


From b52eff20013ec00a8b680bf311c9ff1a9d9d5efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:26 +0000
Subject: [PATCH 03/36] fix: setting one probability/weight could abort when
 the old value was one up to rounding

1-p cancels when p is within rounding of one: the others were then scaled by a meaningless factor (0/0 mass) and the normalisation
assertion fired.
---
 orocos_bfl/src/pdf/discretepdf.cpp | 10 +++++++---
 orocos_bfl/src/pdf/mixture.h       | 10 +++++++---
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/orocos_bfl/src/pdf/discretepdf.cpp b/orocos_bfl/src/pdf/discretepdf.cpp
index f2f6f3f..d51944b 100644
--- a/orocos_bfl/src/pdf/discretepdf.cpp
+++ b/orocos_bfl/src/pdf/discretepdf.cpp
@@ -91,9 +91,13 @@ namespace BFL
     // renormalize other probabilities such that sum of probabilities will be
     // one after the probability of state is set to a
     // This should keep the probabilities normalized
-    Probability old_prob_state = ProbabilityGet(state);
-    if (old_prob_state!=1) {
-        double normalization_factor = (1-a)/(1-old_prob_state);
+    // (sum the other probabilities: 1-ProbabilityGet(state) cancels when the
+    // probability of state is close to one)
+    double sum_others = 0.0;
+    for (int i=0; i<NumStatesGet();i++)
+        if (i != state) sum_others += (*_Values_p)[i];
+    if (sum_others > 0) {
+        double normalization_factor = (1-a)/sum_others;
         for (int i=0; i<NumStatesGet();i++)
         {
             (*_Values_p)[i] = (Probability)( (double)( (*_Values_p)[i] )* normalization_factor);
diff --git a/orocos_bfl/src/pdf/mixture.h b/orocos_bfl/src/pdf/mixture.h
index 14850c5..b0c5e34 100644
--- a/orocos_bfl/src/pdf/mixture.h
+++ b/orocos_bfl/src/pdf/mixture.h
@@ -427,9 +427,13 @@ template<typename T>
         // renormalize other weights such that sum of probabilities will be
         // one after the weight of the component is set to weight
         // This should keep the probabilities normalized
-        Probability old_weight = WeightGet(componentNumber);
-        if ((double)old_weight!=1.0) {
-            double normalization_factor = (1-weight)/(1-old_weight);
+        // (sum the other weights: 1-WeightGet(componentNumber) cancels when the
+        // weight of the component is close to one)
+        double sum_others = 0.0;
+        for (int i=0; i<NumComponentsGet();i++)
+            if (i != componentNumber) sum_others += (*_componentWeights)[i];
+        if (sum_others > 0) {
+            double normalization_factor = (1-weight)/sum_others;
             for (int i=0; i<NumComponentsGet();i++)
             {
                 (*_componentWeights)[i] = (Probability)( (double)( (*_componentWeights)[i] )* normalization_factor);
-- 
2.43.0


From e29d5a7c6f2b21ff6377e0b61a01c97d24129f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:52 +0000
Subject: [PATCH 04/36] fix: histogram filter update reported success for a
 measurement that is impossible in every state

---
 orocos_bfl/src/filter/histogramfilter.cpp | 15 ++++++++-------
 orocos_bfl/src/filter/histogramfilter.h   |  4 ++--
 2 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/orocos_bfl/src/filter/histogramfilter.cpp b/orocos_bfl/src/filter/histogramfilter.cpp
index c3f47ce..245f43c 100644
--- a/orocos_bfl/src/filter/histogramfilter.cpp
+++ b/orocos_bfl/src/filter/histogramfilter.cpp
@@ -38,7 +38,7 @@
   }
 
   template <typename MeasVar>
-  void
+  bool
   HistogramFilter<MeasVar>::SysUpdate(SystemModel<int>* const sysmodel, const int& u)
   {
     bool without_inputs = sysmodel->SystemWithoutInputs();
@@ -64,11 +64,11 @@
         }
        _new_prob[to_state] = temp;
     }
-    ( (DiscretePdf*)this->_post )->ProbabilitiesSet(_new_prob);
+    return ( (DiscretePdf*)this->_post )->ProbabilitiesSet(_new_prob);
   }
 
   template <typename MeasVar>
-  void
+  bool
   HistogramFilter<MeasVar>::MeasUpdate(MeasurementModel<MeasVar,int>* const measmodel, const MeasVar& z, const int& s)
   {
       int num_states = ( (DiscretePdf*)this->_post )->NumStatesGet();
@@ -79,7 +79,7 @@
           else _old_prob[state] = _old_prob[state] * measmodel->ProbabilityGet(z,state,s);
           _old_prob[state] = (Probability)((double)( _old_prob[state]) );
       }
-      ( (DiscretePdf*)this->_post )->ProbabilitiesSet(_old_prob);
+      return ( (DiscretePdf*)this->_post )->ProbabilitiesSet(_old_prob);
   }
 
   template <typename MeasVar>
@@ -89,9 +89,10 @@
 			       MeasurementModel<MeasVar,int>* const measmodel,
 			       const MeasVar& z, const int& s)
   {
-    if (sysmodel != NULL) 	SysUpdate(sysmodel,u);
-    if (measmodel != NULL)	MeasUpdate(measmodel,z,s);
-    return true;
+    bool result = true;
+    if (sysmodel != NULL) 	result = SysUpdate(sysmodel,u) && result;
+    if (measmodel != NULL)	result = MeasUpdate(measmodel,z,s) && result;
+    return result;
   }
 
   template <typename MeasVar>
diff --git a/orocos_bfl/src/filter/histogramfilter.h b/orocos_bfl/src/filter/histogramfilter.h
index 5992b08..951c11b 100644
--- a/orocos_bfl/src/filter/histogramfilter.h
+++ b/orocos_bfl/src/filter/histogramfilter.h
@@ -71,7 +71,7 @@ protected:
     @param sysmodel pointer to the system model the filter should use
     @param u input to the system
   */
-  void SysUpdate(SystemModel<int>* const sysmodel,
+  bool SysUpdate(SystemModel<int>* const sysmodel,
 			 const int& u);
 
   /// Measurement Update
@@ -83,7 +83,7 @@ protected:
       @param s input to the system (must be of the same type as u
       for now, since this was not yet implemented in ConditionalPdf
   */
-  void MeasUpdate(MeasurementModel<MeasVar,int>* const measmodel,
+  bool MeasUpdate(MeasurementModel<MeasVar,int>* const measmodel,
 			  const MeasVar& z,
 			  const int& s);
 
-- 
2.43.0


From 7251f18e09af8d97d8e00140dc8365877db694c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:18 +0000
Subject: [PATCH 05/36] fix: particle filter: apply the system/proposal ratio
 with sensor parameters too

The importance weight of a proposal other than the system pdf was corrected
only for measurement models without sensor parameters.
---
 orocos_bfl/src/filter/particlefilter.cpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/orocos_bfl/src/filter/particlefilter.cpp b/orocos_bfl/src/filter/particlefilter.cpp
index 335b0bc..b4ede47 100644
--- a/orocos_bfl/src/filter/particlefilter.cpp
+++ b/orocos_bfl/src/filter/particlefilter.cpp
@@ -227,9 +227,12 @@ ParticleFilter<SV,MV>::UpdateWeightsInternal(SystemModel<SV> * const sysmodel,
 	{
       _proposal->ConditionalArgumentSet(0,x_old);
 	  if (measmodel->SystemWithoutSensorParams() == true)
-	    {
-	      weightfactor = measmodel->ProbabilityGet(z,x_new);
-	      if (sysmodel->SystemWithoutInputs() == false)
+	    weightfactor = measmodel->ProbabilityGet(z,x_new);
+	  else // System with sensor Parameters
+	    weightfactor = measmodel->ProbabilityGet(z,x_new,s);
+
+	  // Correct for sampling from the proposal instead of the system pdf
+	  if (sysmodel->SystemWithoutInputs() == false)
 		{
 		  _proposal->ConditionalArgumentSet(1,u);
 		  if (this->_proposal_depends_on_meas){
@@ -253,11 +256,6 @@ ParticleFilter<SV,MV>::UpdateWeightsInternal(SystemModel<SV> * const sysmodel,
 		    weightfactor = weightfactor * ( sysmodel->ProbabilityGet(x_new,_os_it->ValueGet()) / _proposal->ProbabilityGet(x_new) );
 		  else weightfactor = 0;
 		}
-	    }
-	  else // System with sensor Parameters
-	    {
-	      weightfactor = measmodel->ProbabilityGet(z,x_new,s);
-	    }
 	}
       _ns_it->WeightSet(_ns_it->WeightGet() * weightfactor);
 
-- 
2.43.0


From 11ee57d986e8abc01d26348422b6e0e519aa5009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:08:49 +0000
Subject: [PATCH 06/36] fix: Rauch-Tung-Striebel smoother: linearise the system
 at the filtered mean, as the prediction it undoes did

---
 orocos_bfl/src/smoother/rauchtungstriebel.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/orocos_bfl/src/smoother/rauchtungstriebel.cpp b/orocos_bfl/src/smoother/rauchtungstriebel.cpp
index 2142169..067984a 100644
--- a/orocos_bfl/src/smoother/rauchtungstriebel.cpp
+++ b/orocos_bfl/src/smoother/rauchtungstriebel.cpp
@@ -52,8 +52,8 @@ namespace BFL
   {
     _x = _post->ExpectedValueGet();
     _xf = filtered_post->ExpectedValueGet();
-    _F = ((AnalyticSys*)sysmodel)->df_dxGet(u,_x);
-    _Q = ((AnalyticSys*)sysmodel)->CovarianceGet(u,_x);
+    _F = ((AnalyticSys*)sysmodel)->df_dxGet(u,_xf);
+    _Q = ((AnalyticSys*)sysmodel)->CovarianceGet(u,_xf);
 
     _Ppred = _F * (Matrix)filtered_post->CovarianceGet() * _F.transpose() + (Matrix)_Q;
     _Pxx = (Matrix)filtered_post->CovarianceGet() * _F.transpose();
-- 
2.43.0


From c3e7b726f8d00a95f274345349456ea0a6a3589a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:20:15 +0000
Subject: [PATCH 07/36] fix: a uniform pdf whose dimension came from UniformSet
 wrote its samples out of bounds

---
 orocos_bfl/src/pdf/uniform.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/orocos_bfl/src/pdf/uniform.cpp b/orocos_bfl/src/pdf/uniform.cpp
index 914cd7d..7fd1ce5 100644
--- a/orocos_bfl/src/pdf/uniform.cpp
+++ b/orocos_bfl/src/pdf/uniform.cpp
@@ -136,7 +136,11 @@ namespace BFL
     {
         _Height = _Height / width(i);
     }
-    if (this->DimensionGet() == 0) this->DimensionSet(center.rows());
+    if (this->DimensionGet() == 0)
+    {
+        this->DimensionSet(center.rows());
+        _samples.resize(center.rows());
+    }
     assert(this->DimensionGet() == center.rows());
   }
 
-- 
2.43.0


From dfcf99aece200dc50ce82477b2d5384499758b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:22:54 +0000
Subject: [PATCH 08/36] fix: ordered sampling of a mixture asked its components
 for a method they refuse and returned unset samples

---
 orocos_bfl/src/pdf/mixture.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/orocos_bfl/src/pdf/mixture.h b/orocos_bfl/src/pdf/mixture.h
index b0c5e34..1c1b22f 100644
--- a/orocos_bfl/src/pdf/mixture.h
+++ b/orocos_bfl/src/pdf/mixture.h
@@ -324,8 +324,9 @@ template<typename T>
 	  	index++; CumPDFit++;
 	        }
           // index-1 is a sample of the discrete pdf of the mixture weights
-          // get a sample from the index-1'th mixture component
-	      (*_componentPdfs)[index-1]->SampleFrom(*sit,method,args);
+          // get a sample from the index-1'th mixture component (the ordering
+          // only concerns the choice of the component)
+	      (*_componentPdfs)[index-1]->SampleFrom(*sit,SampleMthd::DEFAULT,args);
 	      sit++;
 	      }
 	    return true;
-- 
2.43.0


From e175317d54f9301478893c77e9fc4329582c2f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:22:54 +0000
Subject: [PATCH 09/36] fix: Mixture::ComponentsGet did not compile

---
 orocos_bfl/src/pdf/mixture.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/orocos_bfl/src/pdf/mixture.h b/orocos_bfl/src/pdf/mixture.h
index 1c1b22f..51a2e77 100644
--- a/orocos_bfl/src/pdf/mixture.h
+++ b/orocos_bfl/src/pdf/mixture.h
@@ -538,7 +538,7 @@ template<typename T>
   vector<Pdf<T>*> Mixture<T>::ComponentsGet() const
   {
     TestNotInit();
-    return _componentPdfs;
+    return *_componentPdfs;
   }
 
 template<typename T>
-- 
2.43.0


From 2b064deaf01822d561ffb32b263fd2d1d8a0c649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:22:55 +0000
Subject: [PATCH 10/36] fix: copying a mixture without components aborted

---
 orocos_bfl/src/pdf/mixture.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/orocos_bfl/src/pdf/mixture.h b/orocos_bfl/src/pdf/mixture.h
index 51a2e77..8b4f554 100644
--- a/orocos_bfl/src/pdf/mixture.h
+++ b/orocos_bfl/src/pdf/mixture.h
@@ -228,9 +228,8 @@ Mixture<T>::Mixture(const Mixture & my_mixture):Pdf<T>(my_mixture.DimensionGet()
   {
     //create pointer to vector of component weights
     _componentWeights = new vector<Probability>(this->NumComponentsGet());
-    (*_componentWeights) = my_mixture.WeightsGet();
-    _cumWeights.insert(_cumWeights.begin(),NumComponentsGet()+1,0.0);
-    CumWeightsUpdate();
+    (*_componentWeights) = *(my_mixture._componentWeights);
+    _cumWeights = my_mixture._cumWeights;
 
     //create pointer to vector of pointers to weights
     _componentPdfs = new vector< Pdf<T>* >(NumComponentsGet());
-- 
2.43.0


From ac0a311fe6be6f69dd6529c13e784c4b74b74f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:50:25 +0000
Subject: [PATCH 11/36] fix: assign of the Boost vectors wrote one element past
 the end and left the first unset

---
 orocos_bfl/src/wrappers/matrix/vector_BOOST.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/orocos_bfl/src/wrappers/matrix/vector_BOOST.cpp b/orocos_bfl/src/wrappers/matrix/vector_BOOST.cpp
index 51d2f11..478ddf4 100644
--- a/orocos_bfl/src/wrappers/matrix/vector_BOOST.cpp
+++ b/orocos_bfl/src/wrappers/matrix/vector_BOOST.cpp
@@ -67,7 +67,7 @@ void MyColumnVector::assign(int num_rows, double value)
   BoostColumnVector & op1 = (*this);
   op1.resize(num_rows);
   for (unsigned int i=0; i<num_rows; i++)
-    op1(i+1) = value;
+    op1(i) = value;
 }
 
 // Number of Rows / Cols
@@ -275,7 +275,7 @@ void MyRowVector::assign(int num_columns, double value)
   BoostRowVector & op1 = (*this);
   op1.resize(num_columns);
   for (unsigned int i=0; i<num_columns; i++)
-    op1(i+1) = value;
+    op1(i) = value;
 }
 
 // Number of Rows / Cols
-- 
2.43.0


From 41c5d36f831bd841d72dc969eb79e7f5a36d17ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:50:25 +0000
Subject: [PATCH 12/36] fix: joining two Eigen row vectors lost all elements
 but one of each

---
 orocos_bfl/src/wrappers/matrix/vector_EIGEN.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/orocos_bfl/src/wrappers/matrix/vector_EIGEN.cpp b/orocos_bfl/src/wrappers/matrix/vector_EIGEN.cpp
index 0380eef..e9bf425 100644
--- a/orocos_bfl/src/wrappers/matrix/vector_EIGEN.cpp
+++ b/orocos_bfl/src/wrappers/matrix/vector_EIGEN.cpp
@@ -244,10 +244,10 @@ MyRowVector
 MyRowVector::vectorAdd(const MyRowVector& v2) const
 {
   const MyRowVector& v1 = *this;
-  MyRowVector res(v1.rows() + v2.rows());
+  MyRowVector res(v1.columns() + v2.columns());
   EigenRowVector& opl = res;
-  opl.head(v1.rows()) = (const EigenRowVector &)(v1);
-  opl.tail(v2.rows()) = (const EigenRowVector &)(v2);
+  opl.head(v1.columns()) = (const EigenRowVector &)(v1);
+  opl.tail(v2.columns()) = (const EigenRowVector &)(v2);
   return res;
 }
 
-- 
2.43.0


From 8a2212d1484ec891ed5098dc3df247d4fbc712f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:50:25 +0000
Subject: [PATCH 13/36] fix: rowCopy and columnCopy of the Eigen matrix counted
 from 0 instead of 1

---
 orocos_bfl/src/wrappers/matrix/matrix_EIGEN.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/orocos_bfl/src/wrappers/matrix/matrix_EIGEN.cpp b/orocos_bfl/src/wrappers/matrix/matrix_EIGEN.cpp
index 533ca6f..f68ab2b 100644
--- a/orocos_bfl/src/wrappers/matrix/matrix_EIGEN.cpp
+++ b/orocos_bfl/src/wrappers/matrix/matrix_EIGEN.cpp
@@ -182,12 +182,12 @@ MyMatrix&
 
 MyRowVector MyMatrix::rowCopy(unsigned int r) const
 {
-  return (MyRowVector) (*this).row(r);
+  return (MyRowVector) (*this).row(r-1);
 }
 
 MyColumnVector MyMatrix::columnCopy(unsigned int c) const
 {
-  return (MyColumnVector) (*this).col(c);
+  return (MyColumnVector) (*this).col(c-1);
 }
 
 
-- 
2.43.0


From 85cebff9ea7e34af8cd9d6196c31e74646d52093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:50:25 +0000
Subject: [PATCH 14/36] fix: the Eigen conversion to a symmetric matrix took
 the upper instead of the lower triangle

---
 orocos_bfl/src/wrappers/matrix/matrix_EIGEN.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/orocos_bfl/src/wrappers/matrix/matrix_EIGEN.cpp b/orocos_bfl/src/wrappers/matrix/matrix_EIGEN.cpp
index f68ab2b..28d2851 100644
--- a/orocos_bfl/src/wrappers/matrix/matrix_EIGEN.cpp
+++ b/orocos_bfl/src/wrappers/matrix/matrix_EIGEN.cpp
@@ -224,7 +224,7 @@ MyMatrix::convertToSymmetricMatrix(MySymmetricMatrix& sym)
   assert(this->rows() == this->columns());
 
   const EigenMatrix & A = (EigenMatrix &) (*this);
-  sym = MySymmetricMatrix(A.selfadjointView<Eigen::Upper>());
+  sym = MySymmetricMatrix(EigenSymmetricMatrix(A.selfadjointView<Eigen::Lower>()));
   return 0;
 }
 
-- 
2.43.0


From 581eda3c9a4b46d6ee09995d78ee03744f7c7173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:50:25 +0000
Subject: [PATCH 15/36] fix: resizing an Eigen vector or matrix did not keep
 its elements

---
 orocos_bfl/src/wrappers/matrix/matrix_EIGEN.cpp | 6 ++++--
 orocos_bfl/src/wrappers/matrix/vector_EIGEN.cpp | 4 ++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/orocos_bfl/src/wrappers/matrix/matrix_EIGEN.cpp b/orocos_bfl/src/wrappers/matrix/matrix_EIGEN.cpp
index 28d2851..d726d9f 100644
--- a/orocos_bfl/src/wrappers/matrix/matrix_EIGEN.cpp
+++ b/orocos_bfl/src/wrappers/matrix/matrix_EIGEN.cpp
@@ -232,7 +232,8 @@ void
 MyMatrix::resize(unsigned int i, unsigned int j, bool copy, bool initialize)
 {
   EigenMatrix & temp = (EigenMatrix &) (*this);
-  temp.resize(i,j);
+  if (copy) temp.conservativeResize(i,j);
+  else temp.resize(i,j);
 }
 
 // get sub matrix
@@ -505,7 +506,8 @@ void
 MySymmetricMatrix::resize(unsigned int i, bool copy, bool initialize)
 {
   EigenSymmetricMatrix & temp = (EigenSymmetricMatrix &) (*this);
-  temp.resize(i,i);
+  if (copy) temp.conservativeResize(i,i);
+  else temp.resize(i,i);
 }
 
 
diff --git a/orocos_bfl/src/wrappers/matrix/vector_EIGEN.cpp b/orocos_bfl/src/wrappers/matrix/vector_EIGEN.cpp
index e9bf425..14d1c53 100644
--- a/orocos_bfl/src/wrappers/matrix/vector_EIGEN.cpp
+++ b/orocos_bfl/src/wrappers/matrix/vector_EIGEN.cpp
@@ -31,7 +31,7 @@ MyColumnVector::ColumnVector(const EigenColumnVector & a) :
 void MyColumnVector::resize(int num_rows)
 {
   EigenColumnVector & op1 = (*this);
-  op1.resize(num_rows);
+  op1.conservativeResize(num_rows);
 }
 
 // Assign
@@ -224,7 +224,7 @@ MyRowVector::RowVector(const EigenRowVector & a) :
 void MyRowVector::resize(int num_columns)
 {
   EigenRowVector & op1 = (*this);
-  op1.resize(num_columns);
+  op1.conservativeResize(num_columns);
 }
 
 // Assign
-- 
2.43.0


From 6a25eb9bb2945d8278b043b3dc1cf7d08b173a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:50:26 +0000
Subject: [PATCH 16/36] fix: the determinant of a singular Boost matrix of
 dimension 3 or more aborted instead of being 0

---
 orocos_bfl/src/wrappers/matrix/matrix_BOOST.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/orocos_bfl/src/wrappers/matrix/matrix_BOOST.cpp b/orocos_bfl/src/wrappers/matrix/matrix_BOOST.cpp
index dbd1d2e..b55c94b 100644
--- a/orocos_bfl/src/wrappers/matrix/matrix_BOOST.cpp
+++ b/orocos_bfl/src/wrappers/matrix/matrix_BOOST.cpp
@@ -243,7 +243,7 @@ double MyMatrix::determinant() const
             boost::numeric::ublas::permutation_matrix<> ndx(r);
             noalias(LU) = A;
             int res = lu_factorize(LU,ndx);
-            assert(res == 0);
+            if (res != 0) return 0.0; // singular
 
             int s = 1;
             for (boost::numeric::ublas::matrix<double>::size_type i=0;i<LU.size1();++i) {
@@ -434,7 +434,7 @@ double MySymmetricMatrix::determinant() const
         boost::numeric::ublas::permutation_matrix<> ndx(r);
         noalias(LU) = A;
         int res = lu_factorize(LU,ndx);
-        assert(res == 0);
+        if (res != 0) return 0.0; // singular
 
         double result = 1.0;
         int s = 1;
-- 
2.43.0


From 0a53e862cfaddb915e86d358cad41d3d95c67a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:40 +0000
Subject: [PATCH 17/36] fix: resetting a filter made the caller's density its
 posterior, changing and freeing it

---
 orocos_bfl/src/filter/histogramfilter.cpp    | 13 +++++++++++++
 orocos_bfl/src/filter/histogramfilter.h      |  3 ++-
 orocos_bfl/src/filter/kalmanfilter.cpp       | 10 ++++++++++
 orocos_bfl/src/filter/kalmanfilter.h         |  3 ++-
 orocos_bfl/src/filter/particlefilter.cpp     | 13 +++++++++++++
 orocos_bfl/src/filter/particlefilter.h       |  3 ++-
 orocos_bfl/src/pdf/filterproposaldensity.cpp |  5 ++++-
 7 files changed, 46 insertions(+), 4 deletions(-)

diff --git a/orocos_bfl/src/filter/histogramfilter.cpp b/orocos_bfl/src/filter/histogramfilter.cpp
index 245f43c..3d1c3e0 100644
--- a/orocos_bfl/src/filter/histogramfilter.cpp
+++ b/orocos_bfl/src/filter/histogramfilter.cpp
@@ -95,6 +95,19 @@
     return result;
   }
 
+  template <typename MeasVar>
+  void
+  HistogramFilter<MeasVar>::Reset(Pdf<int>* prior)
+  {
+    // the posterior is the filter's own: it does not become the prior given
+    Pdf<int>* post = prior->Clone();
+    delete this->_post;
+    this->_prior = prior;
+    this->_post = post;
+    _old_prob = PostGet()->ProbabilitiesGet();
+    _new_prob = _old_prob;
+  }
+
   template <typename MeasVar>
   DiscretePdf*
   HistogramFilter<MeasVar>::PostGet()
diff --git a/orocos_bfl/src/filter/histogramfilter.h b/orocos_bfl/src/filter/histogramfilter.h
index 951c11b..8e2a235 100644
--- a/orocos_bfl/src/filter/histogramfilter.h
+++ b/orocos_bfl/src/filter/histogramfilter.h
@@ -58,7 +58,8 @@ public:
   /// Destructor
   virtual ~HistogramFilter();
 
-  // implement virtual function
+  // implement virtual functions
+  virtual void Reset(Pdf<int>* prior);
   virtual DiscretePdf* PostGet();
 
 protected:
diff --git a/orocos_bfl/src/filter/kalmanfilter.cpp b/orocos_bfl/src/filter/kalmanfilter.cpp
index 04b11ed..0f93204 100644
--- a/orocos_bfl/src/filter/kalmanfilter.cpp
+++ b/orocos_bfl/src/filter/kalmanfilter.cpp
@@ -175,6 +175,16 @@ namespace BFL
   }
 
 
+  void
+  KalmanFilter::Reset(Pdf<ColumnVector>* prior)
+  {
+    // the posterior is the filter's own: it does not become the prior given
+    Pdf<ColumnVector>* post = prior->Clone();
+    delete _post;
+    _prior = prior;
+    _post = post;
+  }
+
   Gaussian*
   KalmanFilter::PostGet()
   {
diff --git a/orocos_bfl/src/filter/kalmanfilter.h b/orocos_bfl/src/filter/kalmanfilter.h
index 8c62f2e..7e91a05 100644
--- a/orocos_bfl/src/filter/kalmanfilter.h
+++ b/orocos_bfl/src/filter/kalmanfilter.h
@@ -58,7 +58,8 @@ public:
   /// Destructor
   virtual ~KalmanFilter();
 
-  // implement virtual function
+  // implement virtual functions
+  virtual void Reset(Pdf<MatrixWrapper::ColumnVector>* prior);
   virtual Gaussian* PostGet();
 
   /// Function to allocate memory needed during the measurement update,
diff --git a/orocos_bfl/src/filter/particlefilter.cpp b/orocos_bfl/src/filter/particlefilter.cpp
index b4ede47..bb094d9 100644
--- a/orocos_bfl/src/filter/particlefilter.cpp
+++ b/orocos_bfl/src/filter/particlefilter.cpp
@@ -384,6 +384,19 @@ ParticleFilter<SV,MV>::Resample()
 }
 
 
+template<typename SV, typename MV> void
+ParticleFilter<SV,MV>::Reset(Pdf<SV> * prior)
+{
+  // the posterior keeps its own samples: it does not become the prior given
+  MCPdf<SV> * mcprior = dynamic_cast<MCPdf<SV> *>(prior);
+  assert(mcprior != NULL);
+  this->_prior = prior;
+  _old_samples = mcprior->ListOfSamplesGet();
+  _new_samples = _old_samples;
+  bool ret = (dynamic_cast<MCPdf<SV> *>(this->_post))->ListOfSamplesSet(_old_samples);
+  assert(ret);
+}
+
 template<typename SV, typename MV> MCPdf<SV> *
 ParticleFilter<SV,MV>::PostGet()
 {
diff --git a/orocos_bfl/src/filter/particlefilter.h b/orocos_bfl/src/filter/particlefilter.h
index 5ee0ce0..5beddee 100644
--- a/orocos_bfl/src/filter/particlefilter.h
+++ b/orocos_bfl/src/filter/particlefilter.h
@@ -308,7 +308,8 @@ namespace BFL
        */
       ConditionalPdf<StateVar,StateVar> * ProposalGet();
 
-      // implement virtual function
+      // implement virtual functions
+      virtual void Reset(Pdf<StateVar> * prior);
       virtual MCPdf<StateVar> * PostGet();
     };
 
diff --git a/orocos_bfl/src/pdf/filterproposaldensity.cpp b/orocos_bfl/src/pdf/filterproposaldensity.cpp
index 32bad3f..fda51ed 100644
--- a/orocos_bfl/src/pdf/filterproposaldensity.cpp
+++ b/orocos_bfl/src/pdf/filterproposaldensity.cpp
@@ -55,7 +55,10 @@ namespace BFL
     */
   }
 
-  FilterPropDens::~FilterPropDens(){}
+  FilterPropDens::~FilterPropDens()
+  {
+    delete _TmpPrior;
+  }
 
   // BUG Copy constructor not implemented yet
   FilterPropDens::FilterPropDens(const FilterPropDens & fpd){}
-- 
2.43.0


From 998cb0fa951af456d0da05dfb62fc50b761e13fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:51 +0000
Subject: [PATCH 18/36] fix: the mixture particle filter counted a time step
 for every component

---
 orocos_bfl/src/filter/mixtureParticleFilter.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/orocos_bfl/src/filter/mixtureParticleFilter.cpp b/orocos_bfl/src/filter/mixtureParticleFilter.cpp
index 54e675a..af1b4c8 100644
--- a/orocos_bfl/src/filter/mixtureParticleFilter.cpp
+++ b/orocos_bfl/src/filter/mixtureParticleFilter.cpp
@@ -185,6 +185,7 @@ MixtureParticleFilter<SV,MV>::ProposalStepInternal(SystemModel<SV> * const sysmo
     {
         result = result && this->ProposalStepInternalOne(i,sysmodel,u,measmodel,z,s);
     }
+    (this->_timestep)++;
     return result;
 }
 
@@ -237,8 +238,6 @@ MixtureParticleFilter<SV,MV>::ProposalStepInternalOne(int component, SystemModel
       _ns_it++;
     }
 
-  (this->_timestep)++;
-
   // Update the list of samples
   return (dynamic_cast<MCPdf<SV> *>(dynamic_cast<Mixture<SV> *>(this->_post)->ComponentGet(component)))->ListOfSamplesUpdate(_new_samplesVec[component]);
 
-- 
2.43.0


From 9a9afbf70392db98f7c659a06c1c4a6d8b2e8be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:51 +0000
Subject: [PATCH 19/36] fix: the mixture particle filter ignored the period of
 the mixture maintenance

---
 orocos_bfl/src/filter/mixtureParticleFilter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/orocos_bfl/src/filter/mixtureParticleFilter.cpp b/orocos_bfl/src/filter/mixtureParticleFilter.cpp
index af1b4c8..f298f08 100644
--- a/orocos_bfl/src/filter/mixtureParticleFilter.cpp
+++ b/orocos_bfl/src/filter/mixtureParticleFilter.cpp
@@ -435,7 +435,7 @@ MixtureParticleFilter<SV,MV>::UpdateInternal(SystemModel<StateVar>* const sysmod
 
   // Mixture Computation: recompute mixture representation to take into account
   // possibly varying number of modes.
-  result = result && this->MaintainMixture();
+  result = result && this->MaintainMixtureStep();
 
   return result;
 }
-- 
2.43.0


From 66c73a8f654e4ffc573634f41e0b7ff710ce10a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:51 +0000
Subject: [PATCH 20/36] fix: the mixture particle filter ignored the
 system/proposal ratio when sensor parameters were given

---
 orocos_bfl/src/filter/mixtureParticleFilter.cpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/orocos_bfl/src/filter/mixtureParticleFilter.cpp b/orocos_bfl/src/filter/mixtureParticleFilter.cpp
index f298f08..4aac12c 100644
--- a/orocos_bfl/src/filter/mixtureParticleFilter.cpp
+++ b/orocos_bfl/src/filter/mixtureParticleFilter.cpp
@@ -307,9 +307,12 @@ MixtureParticleFilter<SV,MV>::UpdateWeightsInternalOne(int component,SystemModel
 	{
       _proposal->ConditionalArgumentSet(0,x_old);
 	  if (measmodel->SystemWithoutSensorParams() == true)
-	    {
-	      weightfactor = measmodel->ProbabilityGet(z,x_new);
-	      if (sysmodel->SystemWithoutInputs() == false)
+	    weightfactor = measmodel->ProbabilityGet(z,x_new);
+	  else // System with sensor Parameters
+	    weightfactor = measmodel->ProbabilityGet(z,x_new,s);
+
+	  // Correct for sampling from the proposal instead of the system pdf
+	  if (sysmodel->SystemWithoutInputs() == false)
 		{
 		  _proposal->ConditionalArgumentSet(1,u);
 		  if (this->_proposal_depends_on_meas){
@@ -333,11 +336,6 @@ MixtureParticleFilter<SV,MV>::UpdateWeightsInternalOne(int component,SystemModel
 		    weightfactor = weightfactor * ( sysmodel->ProbabilityGet(x_new,_os_it->ValueGet()) / _proposal->ProbabilityGet(x_new) );
 		  else weightfactor = 0;
 		}
-	    }
-	  else // System with sensor Parameters
-	    {
-	      weightfactor = measmodel->ProbabilityGet(z,x_new,s);
-	    }
 	}
       double new_weight = _ns_it->WeightGet() * weightfactor;
       _ns_it->WeightSet(new_weight);
-- 
2.43.0


From 94ae1c6b2f4b8debd937713e72b11f65a1b40fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:51 +0000
Subject: [PATCH 21/36] fix: the mixture particle filter wrote out of bounds
 after a reset or maintenance to more components or samples

---
 orocos_bfl/src/filter/mixtureParticleFilter.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/orocos_bfl/src/filter/mixtureParticleFilter.cpp b/orocos_bfl/src/filter/mixtureParticleFilter.cpp
index 4aac12c..d204ef1 100644
--- a/orocos_bfl/src/filter/mixtureParticleFilter.cpp
+++ b/orocos_bfl/src/filter/mixtureParticleFilter.cpp
@@ -416,6 +416,21 @@ MixtureParticleFilter<SV,MV>::UpdateInternal(SystemModel<StateVar>* const sysmod
 {
   bool result = true;
 
+  // The number of components and of their samples can have changed
+  // (Reset, MaintainMixture)
+  Mixture<SV> * post = dynamic_cast<Mixture<SV> *>(this->_post);
+  _newMixtureWeights.resize(post->NumComponentsGet());
+  _sumWeights.resize(post->NumComponentsGet());
+  _old_samplesVec.resize(post->NumComponentsGet());
+  _new_samplesVec.resize(post->NumComponentsGet());
+  _new_samples_unweightedVec.resize(post->NumComponentsGet());
+  for(unsigned int i = 0 ; i < post->NumComponentsGet(); i++)
+  {
+    unsigned int num_samples = dynamic_cast<MCPdf<SV> *>(post->ComponentGet(i))->NumSamplesGet();
+    _old_samplesVec[i].resize(num_samples);
+    _new_samplesVec[i].resize(num_samples);
+  }
+
   // Only makes sense if there is a system model?
   // Bug, not completely true, but should do for now...
   if (sysmodel != NULL)
-- 
2.43.0


From 5d6b60fb8275d3f7fc353ad7dab103fc71ef3281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:51 +0000
Subject: [PATCH 22/36] fix: resetting a mixture particle filter through the
 base class made the caller's mixture its posterior

---
 orocos_bfl/src/filter/mixtureParticleFilter.cpp | 8 ++++++++
 orocos_bfl/src/filter/mixtureParticleFilter.h   | 1 +
 2 files changed, 9 insertions(+)

diff --git a/orocos_bfl/src/filter/mixtureParticleFilter.cpp b/orocos_bfl/src/filter/mixtureParticleFilter.cpp
index d204ef1..609e5bd 100644
--- a/orocos_bfl/src/filter/mixtureParticleFilter.cpp
+++ b/orocos_bfl/src/filter/mixtureParticleFilter.cpp
@@ -160,6 +160,14 @@ MixtureParticleFilter<SV,MV>::Reset(Mixture<SV> * prior)
     this->_sumWeights.resize(dynamic_cast<Mixture<SV> *>(this->_post)->NumComponentsGet());
 }
 
+template <typename SV, typename MV> void
+MixtureParticleFilter<SV,MV>::Reset(Pdf<SV> * prior)
+{
+  Mixture<SV> * mixture = dynamic_cast<Mixture<SV> *>(prior);
+  assert(mixture != NULL);
+  this->Reset(mixture);
+}
+
 template <typename SV, typename MV> void
 MixtureParticleFilter<SV,MV>::ProposalSet(ConditionalPdf<SV,SV> * const cpdf)
 {
diff --git a/orocos_bfl/src/filter/mixtureParticleFilter.h b/orocos_bfl/src/filter/mixtureParticleFilter.h
index 011a142..fbe1ad3 100644
--- a/orocos_bfl/src/filter/mixtureParticleFilter.h
+++ b/orocos_bfl/src/filter/mixtureParticleFilter.h
@@ -354,6 +354,7 @@ namespace BFL
 
       /// Reset Filter
       virtual void Reset(Mixture<StateVar> * prior);
+      virtual void Reset(Pdf<StateVar> * prior);
 
       /// Set the proposal density
       /** @param cpdf the new proposal density.  The order of the
-- 
2.43.0


From fc6d5677f7a28fe51c4cf04ac352cd91e8f37766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:15 +0000
Subject: [PATCH 23/36] fix: GiNaC models ask their pdf, not themselves, for
 function and symbols

---
 ...analyticmeasurementmodel_gaussianuncertainty_ginac.cpp | 8 ++++----
 ...inearanalyticsystemmodel_gaussianuncertainty_ginac.cpp | 6 +++---
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/orocos_bfl/src/model/nonlinearanalyticmeasurementmodel_gaussianuncertainty_ginac.cpp b/orocos_bfl/src/model/nonlinearanalyticmeasurementmodel_gaussianuncertainty_ginac.cpp
index ce0af27..9514d3d 100644
--- a/orocos_bfl/src/model/nonlinearanalyticmeasurementmodel_gaussianuncertainty_ginac.cpp
+++ b/orocos_bfl/src/model/nonlinearanalyticmeasurementmodel_gaussianuncertainty_ginac.cpp
@@ -81,25 +81,25 @@ namespace BFL
   GiNaC::matrix
   NonLinearAnalyticMeasurementModelGaussianUncertainty_Ginac::FunctionGet()
   {
-    return ((NonLinearAnalyticMeasurementModelGaussianUncertainty_Ginac *) MeasurementPdfGet())->FunctionGet();
+    return ((NonLinearAnalyticConditionalGaussian_Ginac *) MeasurementPdfGet())->FunctionGet();
   }
 
   vector<GiNaC::symbol>
   NonLinearAnalyticMeasurementModelGaussianUncertainty_Ginac::StateGet()
   {
-    return ((NonLinearAnalyticMeasurementModelGaussianUncertainty_Ginac *)MeasurementPdfGet())->StateGet();
+    return ((NonLinearAnalyticConditionalGaussian_Ginac *)MeasurementPdfGet())->StateGet();
   }
 
   vector<GiNaC::symbol>
   NonLinearAnalyticMeasurementModelGaussianUncertainty_Ginac::InputGet()
   {
-    return ((NonLinearAnalyticMeasurementModelGaussianUncertainty_Ginac *) MeasurementPdfGet())->InputGet();
+    return ((NonLinearAnalyticConditionalGaussian_Ginac *) MeasurementPdfGet())->InputGet();
   }
 
   vector<GiNaC::symbol>
   NonLinearAnalyticMeasurementModelGaussianUncertainty_Ginac::ConditionalGet()
   {
-    return ((NonLinearAnalyticMeasurementModelGaussianUncertainty_Ginac *) MeasurementPdfGet())->ConditionalGet();
+    return ((NonLinearAnalyticConditionalGaussian_Ginac *) MeasurementPdfGet())->ConditionalGet();
   }
 
 } // End namespace BFL
diff --git a/orocos_bfl/src/model/nonlinearanalyticsystemmodel_gaussianuncertainty_ginac.cpp b/orocos_bfl/src/model/nonlinearanalyticsystemmodel_gaussianuncertainty_ginac.cpp
index bb0500f..a844cab 100644
--- a/orocos_bfl/src/model/nonlinearanalyticsystemmodel_gaussianuncertainty_ginac.cpp
+++ b/orocos_bfl/src/model/nonlinearanalyticsystemmodel_gaussianuncertainty_ginac.cpp
@@ -47,19 +47,19 @@ namespace BFL
   GiNaC::matrix
   NonLinearAnalyticSystemModelGaussianUncertainty_Ginac::FunctionGet()
   {
-    return ((NonLinearAnalyticSystemModelGaussianUncertainty_Ginac *) SystemPdfGet())->FunctionGet();
+    return ((NonLinearAnalyticConditionalGaussian_Ginac *) SystemPdfGet())->FunctionGet();
   }
 
   vector<GiNaC::symbol>
   NonLinearAnalyticSystemModelGaussianUncertainty_Ginac::StateGet()
   {
-    return ((NonLinearAnalyticSystemModelGaussianUncertainty_Ginac *)SystemPdfGet())->StateGet();
+    return ((NonLinearAnalyticConditionalGaussian_Ginac *)SystemPdfGet())->StateGet();
   }
 
   vector<GiNaC::symbol>
   NonLinearAnalyticSystemModelGaussianUncertainty_Ginac::InputGet()
   {
-    return ((NonLinearAnalyticSystemModelGaussianUncertainty_Ginac *) SystemPdfGet())->InputGet();
+    return ((NonLinearAnalyticConditionalGaussian_Ginac *) SystemPdfGet())->InputGet();
   }
 
 
-- 
2.43.0


From f4a58e7f40981c5013afd40a49b6e2fb2be4a221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:15 +0000
Subject: [PATCH 24/36] fix: GiNaC density with noise on its inputs has the
 dimension of the function and two arguments

---
 .../pdf/nonlinearanalyticconditionalgaussian_ginac.cpp    | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/orocos_bfl/src/pdf/nonlinearanalyticconditionalgaussian_ginac.cpp b/orocos_bfl/src/pdf/nonlinearanalyticconditionalgaussian_ginac.cpp
index 4199b91..9f57a69 100644
--- a/orocos_bfl/src/pdf/nonlinearanalyticconditionalgaussian_ginac.cpp
+++ b/orocos_bfl/src/pdf/nonlinearanalyticconditionalgaussian_ginac.cpp
@@ -32,7 +32,7 @@ namespace BFL
    const vector<GiNaC::symbol>& x,
    const Gaussian& additiveNoise,
    const vector<GiNaC::symbol>& cond )
-    :AnalyticConditionalGaussianAdditiveNoise(additiveNoise,3),
+    :AnalyticConditionalGaussianAdditiveNoise(func.rows(),2),
      func_sym        (func),
      cond_sym        (cond),
      u_sym           (u),
@@ -48,6 +48,10 @@ namespace BFL
     assert (func_sym.cols() == 1);
     assert (additiveNoise.DimensionGet() == cond_size);
 
+    // the noise is the one on cond
+    AdditiveNoiseMuSet(additiveNoise.ExpectedValueGet());
+    AdditiveNoiseSigmaSet(additiveNoise.CovarianceGet());
+
     // derive func to cond
     for (unsigned int i=0; i < cond_size; i++)
       dfunc_dcond[i] = func_sym.diff(cond_sym[i]);
@@ -83,7 +87,7 @@ namespace BFL
   // copy constructor
   NonLinearAnalyticConditionalGaussian_Ginac::NonLinearAnalyticConditionalGaussian_Ginac
   (const NonLinearAnalyticConditionalGaussian_Ginac& g)
-    : AnalyticConditionalGaussianAdditiveNoise( Gaussian(g.AdditiveNoiseMuGet(),g.AdditiveNoiseSigmaGet()) ,2),
+    : AnalyticConditionalGaussianAdditiveNoise(g),
       func_sym        (g.func_sym),
       cond_sym        (g.cond_sym),
       u_sym           (g.u_sym),
-- 
2.43.0


From 65d1fc4f8a44ad38174a1153067098c3c07f5721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:15 +0000
Subject: [PATCH 25/36] fix: GiNaC density linearises about the inputs shifted
 by the mean of their noise

---
 ...inearanalyticconditionalgaussian_ginac.cpp | 30 ++++++++++++-------
 ...nlinearanalyticconditionalgaussian_ginac.h |  3 ++
 2 files changed, 22 insertions(+), 11 deletions(-)

diff --git a/orocos_bfl/src/pdf/nonlinearanalyticconditionalgaussian_ginac.cpp b/orocos_bfl/src/pdf/nonlinearanalyticconditionalgaussian_ginac.cpp
index 9f57a69..3ed720b 100644
--- a/orocos_bfl/src/pdf/nonlinearanalyticconditionalgaussian_ginac.cpp
+++ b/orocos_bfl/src/pdf/nonlinearanalyticconditionalgaussian_ginac.cpp
@@ -128,16 +128,9 @@ namespace BFL
 
 
   MatrixWrapper::ColumnVector
-  NonLinearAnalyticConditionalGaussian_Ginac::ExpectedValueGet() const
+  NonLinearAnalyticConditionalGaussian_Ginac::InputsWithNoiseGet() const
   {
-    MatrixWrapper::ColumnVector u_num   (u_size);
-    MatrixWrapper::ColumnVector x_num   (x_size);
-    MatrixWrapper::ColumnVector func_num(func_size);
-    GiNaC::ex substitute (func_size);
-    MatrixWrapper::ColumnVector expected(func_size);
-
-    u_num = ConditionalArgumentGet(1);
-    x_num = ConditionalArgumentGet(0);
+    MatrixWrapper::ColumnVector u_num = ConditionalArgumentGet(1);
 
     // use Mu of additive noise
     if (cond_size!=0)
@@ -146,6 +139,21 @@ namespace BFL
 	  if (u_sym[i] == cond_sym[j])
 	      u_num(i+1) += (this->AdditiveNoiseMuGet())(j+1);
 
+    return u_num;
+  }
+
+
+  MatrixWrapper::ColumnVector
+  NonLinearAnalyticConditionalGaussian_Ginac::ExpectedValueGet() const
+  {
+    MatrixWrapper::ColumnVector u_num   (u_size);
+    MatrixWrapper::ColumnVector x_num   (x_size);
+    MatrixWrapper::ColumnVector func_num(func_size);
+    GiNaC::ex substitute (func_size);
+    MatrixWrapper::ColumnVector expected(func_size);
+
+    u_num = InputsWithNoiseGet();
+    x_num = ConditionalArgumentGet(0);
 
     // evaluate func
     for (unsigned int i=0; i<func_size; i++)
@@ -184,7 +192,7 @@ namespace BFL
 	MatrixWrapper::Matrix D             (func_size,cond_size);
 
 
-	u_num = ConditionalArgumentGet(1);
+	u_num = InputsWithNoiseGet();
 	x_num = ConditionalArgumentGet(0);
 
 	for (unsigned int i=0; i<cond_size; i++)
@@ -236,7 +244,7 @@ namespace BFL
     GiNaC::ex substitute (func_size);
     MatrixWrapper::Matrix F             (func_size, x_size);
 
-    u_num = ConditionalArgumentGet(1);
+    u_num = InputsWithNoiseGet();
     x_num = ConditionalArgumentGet(0);
 
     // numeric evaluation of derivative: dfunc_dx = F
diff --git a/orocos_bfl/src/pdf/nonlinearanalyticconditionalgaussian_ginac.h b/orocos_bfl/src/pdf/nonlinearanalyticconditionalgaussian_ginac.h
index 6c15bc4..db73688 100644
--- a/orocos_bfl/src/pdf/nonlinearanalyticconditionalgaussian_ginac.h
+++ b/orocos_bfl/src/pdf/nonlinearanalyticconditionalgaussian_ginac.h
@@ -110,6 +110,9 @@ namespace BFL
 
 
     private:
+      /// Inputs shifted by the mean of the noise that applies to them
+      MatrixWrapper::ColumnVector InputsWithNoiseGet() const;
+
       GiNaC::matrix 		  func_sym;
       vector<GiNaC::symbol> 	  cond_sym, u_sym, x_sym;
       unsigned int			  cond_size, u_size, x_size, func_size;
-- 
2.43.0


From d7fed0499793cc42217a68379467c6c2c95fb39e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:15 +0000
Subject: [PATCH 26/36] fix: GiNaC density can be cloned

---
 .../src/pdf/nonlinearanalyticconditionalgaussian_ginac.cpp  | 6 ++++++
 .../src/pdf/nonlinearanalyticconditionalgaussian_ginac.h    | 3 +++
 2 files changed, 9 insertions(+)

diff --git a/orocos_bfl/src/pdf/nonlinearanalyticconditionalgaussian_ginac.cpp b/orocos_bfl/src/pdf/nonlinearanalyticconditionalgaussian_ginac.cpp
index 3ed720b..abec269 100644
--- a/orocos_bfl/src/pdf/nonlinearanalyticconditionalgaussian_ginac.cpp
+++ b/orocos_bfl/src/pdf/nonlinearanalyticconditionalgaussian_ginac.cpp
@@ -117,6 +117,12 @@ namespace BFL
   {}
 
 
+  //Clone function
+  NonLinearAnalyticConditionalGaussian_Ginac* NonLinearAnalyticConditionalGaussian_Ginac::Clone() const
+  {
+    return new NonLinearAnalyticConditionalGaussian_Ginac(*this);
+  }
+
   std::ostream& operator<< (std::ostream& os, NonLinearAnalyticConditionalGaussian_Ginac& p)
   {
     os << "function:    " << p.func_size << endl;
diff --git a/orocos_bfl/src/pdf/nonlinearanalyticconditionalgaussian_ginac.h b/orocos_bfl/src/pdf/nonlinearanalyticconditionalgaussian_ginac.h
index db73688..10c6ee1 100644
--- a/orocos_bfl/src/pdf/nonlinearanalyticconditionalgaussian_ginac.h
+++ b/orocos_bfl/src/pdf/nonlinearanalyticconditionalgaussian_ginac.h
@@ -82,6 +82,9 @@ namespace BFL
       /// Destructor
       virtual ~NonLinearAnalyticConditionalGaussian_Ginac();
 
+      ///Clone function
+      virtual NonLinearAnalyticConditionalGaussian_Ginac* Clone() const;
+
       /// output stream for measurement model
       friend std::ostream& operator<< (std::ostream& os, NonLinearAnalyticConditionalGaussian_Ginac& p);
 
-- 
2.43.0


From 161f891a32eb239a28964fb635f9c157e948dc00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:15 +0000
Subject: [PATCH 27/36] fix: the square root filter mixed up the factors L and
 L' of L*L'

---
 orocos_bfl/src/filter/SRiteratedextendedkalmanfilter.cpp | 3 ---
 orocos_bfl/src/filter/SRiteratedextendedkalmanfilter.h   | 6 +++---
 2 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/orocos_bfl/src/filter/SRiteratedextendedkalmanfilter.cpp b/orocos_bfl/src/filter/SRiteratedextendedkalmanfilter.cpp
index ade6dcd..b64a84b 100644
--- a/orocos_bfl/src/filter/SRiteratedextendedkalmanfilter.cpp
+++ b/orocos_bfl/src/filter/SRiteratedextendedkalmanfilter.cpp
@@ -50,7 +50,6 @@ SRIteratedExtendedKalmanFilter::SRIteratedExtendedKalmanFilter(Gaussian* prior,
    // cout<<"post_covar\n"<<_post->CovarianceGet()<<endl;
 
     ((_post->CovarianceGet()).cholesky_semidefinite(JP));
-    JP = JP.transpose();
     // cout<<"JP3\n"<<JP<<endl;
 
   }
@@ -108,7 +107,6 @@ SRIteratedExtendedKalmanFilter::SRIteratedExtendedKalmanFilter(Gaussian* prior,
          else
          {
                      R_i.cholesky_semidefinite(R_vf);
-                     R_vf = R_vf.transpose();
          }
 
 	// numerical limitations
@@ -195,7 +193,6 @@ void
 	S_temp1.convertToSymmetricMatrix(S_temp);
 
 	S_temp.cholesky_semidefinite(Sr);
-	Sr  = Sr.transpose();
 
 	invS = Sr.inverse();
 	K_i  = JP*(JP.transpose())*(H_i.transpose())*(invS.transpose())*invS;
diff --git a/orocos_bfl/src/filter/SRiteratedextendedkalmanfilter.h b/orocos_bfl/src/filter/SRiteratedextendedkalmanfilter.h
index 0016778..12f1de0 100644
--- a/orocos_bfl/src/filter/SRiteratedextendedkalmanfilter.h
+++ b/orocos_bfl/src/filter/SRiteratedextendedkalmanfilter.h
@@ -83,7 +83,7 @@ namespace BFL
       /** Calculate Kalman filter Measurement Update
       \f[ x_k = x_{k-} + K.(z - Z) \f]
       \f[ S=(H_k*J_k*J_k^{'}*H_k+D*R*D^{'})^{'} \f]
-      \f[ Sr=cholesky(S)^{'}\f]
+      \f[ Sr=cholesky(S) \f] (lower triangular: \f$ Sr*Sr^{'}=S \f$)
       \f[ J_k = J_k-J_k*J_k^{'}*H^{'}*inv(S)^{'}*inv(R+Sr)*H_k*J_k  \f]
       with
       \f[ K = J_{k}*J_{k}^{'}*H'*inv(S)^{'}*inv(S) \f]
@@ -92,7 +92,7 @@ namespace BFL
 
       /// Calculate K_i , invS and  Sr
       /**
-       \f[ Sr= cholesky(H_i*JP*JP^{'}*H_i^{'}+R_i)^{'}  \f]
+       \f[ Sr= cholesky(H_i*JP*JP^{'}*H_i^{'}+R_i)  \f]
        \f[ invS=inv(Sr)\f]
        \f[ K_i=JP*JP^{'}*H_i^{'}*invS^{'}*invS \f]
        */
@@ -114,7 +114,7 @@ namespace BFL
     private:
       /// Variable indicating the number of iterations of the filter
       unsigned int nr_iterations;
-      /// the upper triangular matrix cholesky decompostion of the state covariance (\f$ JP*JP^{'}=P \f$)
+      /// a square root of the state covariance (\f$ JP*JP^{'}=P \f$)
       MatrixWrapper::Matrix JP;
       /// inv(S) matrix
       //BFL::Matrix invS;
-- 
2.43.0


From ba4a7f6fe30b64d51ddc5d7b518c1412df61f643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:15 +0000
Subject: [PATCH 28/36] fix: setting the prior of a square root filter left the
 old square root

---
 orocos_bfl/src/filter/SRiteratedextendedkalmanfilter.cpp | 8 ++++++++
 orocos_bfl/src/filter/SRiteratedextendedkalmanfilter.h   | 4 ++++
 2 files changed, 12 insertions(+)

diff --git a/orocos_bfl/src/filter/SRiteratedextendedkalmanfilter.cpp b/orocos_bfl/src/filter/SRiteratedextendedkalmanfilter.cpp
index b64a84b..f5c0c83 100644
--- a/orocos_bfl/src/filter/SRiteratedextendedkalmanfilter.cpp
+++ b/orocos_bfl/src/filter/SRiteratedextendedkalmanfilter.cpp
@@ -35,6 +35,13 @@ SRIteratedExtendedKalmanFilter::SRIteratedExtendedKalmanFilter(Gaussian* prior,
 
   SRIteratedExtendedKalmanFilter::~SRIteratedExtendedKalmanFilter(){}
 
+  void
+  SRIteratedExtendedKalmanFilter::Reset(Pdf<MatrixWrapper::ColumnVector>* prior)
+  {
+    KalmanFilter::Reset(prior);
+    (_post->CovarianceGet()).cholesky_semidefinite(JP);
+  }
+
   void
   SRIteratedExtendedKalmanFilter::SysUpdate(SystemModel<MatrixWrapper::ColumnVector>* const sysmodel,const MatrixWrapper::ColumnVector& u)
   {
@@ -162,6 +169,7 @@ SRIteratedExtendedKalmanFilter::SRIteratedExtendedKalmanFilter(Gaussian* prior,
  {
  	PostMuSet( X_prior );
 	PostSigmaSet( P_prior );
+	P_prior.cholesky_semidefinite(JP);
  }
 void
   SRIteratedExtendedKalmanFilter::CalculateMeasUpdate(ColumnVector z, ColumnVector Z, Matrix H, SymmetricMatrix R)
diff --git a/orocos_bfl/src/filter/SRiteratedextendedkalmanfilter.h b/orocos_bfl/src/filter/SRiteratedextendedkalmanfilter.h
index 12f1de0..d1d09a8 100644
--- a/orocos_bfl/src/filter/SRiteratedextendedkalmanfilter.h
+++ b/orocos_bfl/src/filter/SRiteratedextendedkalmanfilter.h
@@ -62,6 +62,10 @@ namespace BFL
 
       /// Destructor
       virtual ~SRIteratedExtendedKalmanFilter();
+
+      // implement virtual function
+      virtual void Reset(Pdf<MatrixWrapper::ColumnVector>* prior);
+
       /// Perform a system update with the current measurement model ans system model using an input u
       virtual void SysUpdate(SystemModel<MatrixWrapper::ColumnVector>* const sysmodel,
 			     const MatrixWrapper::ColumnVector& u);
-- 
2.43.0


From 3f9738c32db5a142cf3983b734591594b7d5c109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:15 +0000
Subject: [PATCH 29/36] fix: resetting a smoother made the caller's density its
 posterior

---
 orocos_bfl/src/smoother/backwardfilter.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/orocos_bfl/src/smoother/backwardfilter.cpp b/orocos_bfl/src/smoother/backwardfilter.cpp
index be83998..b0ebd3c 100644
--- a/orocos_bfl/src/smoother/backwardfilter.cpp
+++ b/orocos_bfl/src/smoother/backwardfilter.cpp
@@ -37,8 +37,11 @@ BackwardFilter<SVar>::BackwardFilter(const BackwardFilter<SVar>& backwardfilter)
 template<typename SVar>  void
 BackwardFilter<SVar>::Reset(Pdf<SVar> * prior)
 {
+  // the posterior is the smoother's own: it does not become the prior given
+  Pdf<SVar>* post = prior->Clone();
+  delete _post;
   _prior = prior;
-  _post = prior;
+  _post = post;
 }
 
 template<typename SVar> int
-- 
2.43.0


From aab62303ec238cea794e2749ec57aa0f1e19d4de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:15 +0000
Subject: [PATCH 30/36] fix: the particle smoother mixed up smoothed and
 filtered particles in its weights

---
 orocos_bfl/src/smoother/particlesmoother.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/orocos_bfl/src/smoother/particlesmoother.cpp b/orocos_bfl/src/smoother/particlesmoother.cpp
index 43d9b43..32523e8 100644
--- a/orocos_bfl/src/smoother/particlesmoother.cpp
+++ b/orocos_bfl/src/smoother/particlesmoother.cpp
@@ -79,10 +79,10 @@ ParticleSmoother<SV>::SysUpdate(SystemModel<StateVar>* const sysmodel, const Sta
                 prob(i,j) = sysmodel->ProbabilityGet(x_smo,x_fil);
               }
               gamma_loc = gamma_loc + _fs_it->WeightGet() * prob(i,j);
-              // calculate correction factors
-              gamma[j-1] = gamma_loc;
               j++;
              }
+          // calculate correction factors
+          gamma[i-1] = gamma_loc;
       i++;
       }
       //cout << "probabilities " << prob << endl;
@@ -90,7 +90,7 @@ ParticleSmoother<SV>::SysUpdate(SystemModel<StateVar>* const sysmodel, const Sta
       _new_samples = _filtered_samples;
       // new weights for filtered samples
       i = 1 ;
-      double tot_weight; // sum of weights needed to normalize
+      double tot_weight = 0.0; // sum of weights needed to normalize
       vector<double> weight (_new_samples.size()); // vector of weights of particles
       for ( _ns_it=_new_samples.begin(); _ns_it != _new_samples.end() ; _ns_it++)
         {
@@ -99,7 +99,7 @@ ParticleSmoother<SV>::SysUpdate(SystemModel<StateVar>* const sysmodel, const Sta
           for (_os_it = _old_samples.begin(); _os_it !=_old_samples.end() ; _os_it++)
           {
               if (gamma[j-1]!=0){
-                  delta = delta + _os_it->WeightGet() * prob(i,j) / gamma[j-1];
+                  delta = delta + _os_it->WeightGet() * prob(j,i) / gamma[j-1];
               }
               else{}
               j++;
-- 
2.43.0


From 9c442cf701c8f69c26107fac6e607d2e4345eec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:15 +0000
Subject: [PATCH 31/36] fix: sampling a conditional Gaussian whose dimension
 was set later wrote out of bounds

---
 orocos_bfl/src/pdf/conditionalgaussian.cpp | 11 +++++++++++
 orocos_bfl/src/pdf/conditionalgaussian.h   |  3 +++
 2 files changed, 14 insertions(+)

diff --git a/orocos_bfl/src/pdf/conditionalgaussian.cpp b/orocos_bfl/src/pdf/conditionalgaussian.cpp
index e1d9631..539d3ce 100644
--- a/orocos_bfl/src/pdf/conditionalgaussian.cpp
+++ b/orocos_bfl/src/pdf/conditionalgaussian.cpp
@@ -44,6 +44,17 @@ namespace BFL
       return new ConditionalGaussian(*this);
   }
 
+  void
+  ConditionalGaussian::DimensionSet(unsigned int dim)
+  {
+    Pdf<ColumnVector>::DimensionSet(dim);
+    _diff.resize(dim);
+    _Mu.resize(dim);
+    _Low_triangle.resize(dim,dim);
+    _samples.resize(dim);
+    _SampleValue.resize(dim);
+  }
+
   Probability
   ConditionalGaussian::ProbabilityGet(const ColumnVector& input) const
   {
diff --git a/orocos_bfl/src/pdf/conditionalgaussian.h b/orocos_bfl/src/pdf/conditionalgaussian.h
index d1d2b52..533011a 100644
--- a/orocos_bfl/src/pdf/conditionalgaussian.h
+++ b/orocos_bfl/src/pdf/conditionalgaussian.h
@@ -56,6 +56,9 @@ namespace BFL
       ///Clone function
       virtual ConditionalGaussian* Clone() const;
 
+      /// Set the dimension, also of the helper variables
+      virtual void DimensionSet(unsigned int dim);
+
       // implemented virtuals!
       virtual Probability ProbabilityGet(const MatrixWrapper::ColumnVector& input) const;
       virtual bool SampleFrom (Sample<MatrixWrapper::ColumnVector>& sample, const SampleMthd method=SampleMthd::DEFAULT, void * args=NULL) const;
-- 
2.43.0


From 2c3c9a4e810c3c766bcd0903841e3e709781364d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:15 +0000
Subject: [PATCH 32/36] fix: the EKF particle filter weighted with particles
 and covariances of other steps

---
 orocos_bfl/src/filter/EKparticlefilter.cpp | 41 +++++++++++++++++++++-
 orocos_bfl/src/filter/EKparticlefilter.h   |  8 ++++-
 2 files changed, 47 insertions(+), 2 deletions(-)

diff --git a/orocos_bfl/src/filter/EKparticlefilter.cpp b/orocos_bfl/src/filter/EKparticlefilter.cpp
index f46dd59..53c8d83 100644
--- a/orocos_bfl/src/filter/EKparticlefilter.cpp
+++ b/orocos_bfl/src/filter/EKparticlefilter.cpp
@@ -39,7 +39,6 @@ namespace BFL
 
     _sampleCov.assign(_num_samples,prior->CovarianceGet());
     _tmpCov.assign(_num_samples,prior->CovarianceGet());
-    _old_samples.assign(_num_samples,WeightedSample<ColumnVector>(_dimension));
     _result_samples.assign(_num_samples,WeightedSample<ColumnVector>(_dimension));
     _unif_samples.assign(_num_samples,0.0);
     _CumPDF.assign(_num_samples,0.0);
@@ -123,6 +122,8 @@ namespace BFL
     _old_samples = (dynamic_cast<MCPdf<CV> *>(this->_post))->ListOfSamplesGet();
 
     _ns_it = _new_samples.begin();
+    // the covariances before this step are needed to update the weights
+    _tmpCov = _sampleCov;
     _cov_it = _sampleCov.begin();
 
     for ( _os_it=_old_samples.begin(); _os_it != _old_samples.end() ; _os_it++)
@@ -171,4 +172,42 @@ namespace BFL
     return (dynamic_cast<MCPdf<CV> *>(this->_post))->ListOfSamplesUpdate(_new_samples);
 
   }
+
+  bool
+  EKParticleFilter::UpdateWeightsInternal(SystemModel<CV>* const sysmodel,
+					  const CV& u,
+					  MeasModel<CV,CV>* const measmodel,
+					  const CV& z,
+					  const CV& s)
+  {
+    // The other conditional arguments of the proposal were set by the proposal step
+    _new_samples = (dynamic_cast<MCPdf<CV> *>(this->_post))->ListOfSamplesGet();
+    _os_it = _old_samples.begin();
+    _tmpCovit = _tmpCov.begin();
+
+    for ( _ns_it=_new_samples.begin(); _ns_it != _new_samples.end() ; _ns_it++)
+      {
+	const CV& x_new = _ns_it->ValueGet();
+	const CV& x_old = _os_it->ValueGet();
+
+	dynamic_cast<FilterProposalDensity *>(this->_proposal)->SampleCovSet(*_tmpCovit);
+	_proposal->ConditionalArgumentSet(0,x_old);
+
+	Probability weightfactor = measmodel->SystemWithoutSensorParams() ?
+	  measmodel->ProbabilityGet(z,x_new) : measmodel->ProbabilityGet(z,x_new,s);
+	Probability prop = _proposal->ProbabilityGet(x_new);
+	if (prop != 0)
+	  {
+	    Probability sys = sysmodel->SystemWithoutInputs() ?
+	      sysmodel->ProbabilityGet(x_new,x_old) : sysmodel->ProbabilityGet(x_new,x_old,u);
+	    weightfactor = weightfactor * ( sys / prop );
+	  }
+	else weightfactor = 0;
+	_ns_it->WeightSet(_ns_it->WeightGet() * weightfactor);
+
+	_os_it++;
+	_tmpCovit++;
+      }
+    return (dynamic_cast<MCPdf<CV> *>(this->_post))->ListOfSamplesUpdate(_new_samples);
+  }
 }
diff --git a/orocos_bfl/src/filter/EKparticlefilter.h b/orocos_bfl/src/filter/EKparticlefilter.h
index bf8b364..b348b52 100644
--- a/orocos_bfl/src/filter/EKparticlefilter.h
+++ b/orocos_bfl/src/filter/EKparticlefilter.h
@@ -46,7 +46,6 @@ namespace BFL
       // helper variables for resampleing to prevent memory allocation on the heap
       const int _dimension;
       const int _num_samples;
-      std::vector<WeightedSample<ColumnVector> > _old_samples;
       std::vector<WeightedSample<ColumnVector> >::iterator _oit;
       std::vector<WeightedSample<ColumnVector> > _result_samples;
       std::vector<WeightedSample<ColumnVector> >::iterator _rit;
@@ -70,6 +69,13 @@ namespace BFL
 					const ColumnVector & z,
 					const ColumnVector & s);
 
+      /// Weights are those of the proposal that each particle was drawn from
+      virtual bool UpdateWeightsInternal(SystemModel<ColumnVector> * const sysmodel,
+					 const ColumnVector & u,
+					 MeasurementModel<ColumnVector,ColumnVector> * const measmodel,
+					 const ColumnVector & z,
+					 const ColumnVector & s);
+
       /// Resample also redefined for the same reasons...
       virtual bool Resample();
 
-- 
2.43.0


From 6cdc2f6c7f13926ff487ac28ed3df931b4dbbe40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:15 +0000
Subject: [PATCH 33/36] fix: resampling the EKF particle filter kept the
 weights

---
 orocos_bfl/src/filter/EKparticlefilter.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/orocos_bfl/src/filter/EKparticlefilter.cpp b/orocos_bfl/src/filter/EKparticlefilter.cpp
index 53c8d83..bc4fe94 100644
--- a/orocos_bfl/src/filter/EKparticlefilter.cpp
+++ b/orocos_bfl/src/filter/EKparticlefilter.cpp
@@ -101,6 +101,7 @@ namespace BFL
 	  }
 	_oit--; _cov_it--;
 	*(_rit) = *(_oit);
+	_rit->WeightSet(1.0/numsamples);
     *_tmpCovit = *_cov_it;
 	_oit++; _cov_it++;
 
-- 
2.43.0


From 386f5080b24d9feb76e055ee89098e6818d50389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:15 +0000
Subject: [PATCH 34/36] fix: resetting the EKF particle filter kept the
 covariances of the old particles

---
 orocos_bfl/src/filter/EKparticlefilter.cpp | 12 ++++++++++++
 orocos_bfl/src/filter/EKparticlefilter.h   |  3 +++
 2 files changed, 15 insertions(+)

diff --git a/orocos_bfl/src/filter/EKparticlefilter.cpp b/orocos_bfl/src/filter/EKparticlefilter.cpp
index bc4fe94..f923409 100644
--- a/orocos_bfl/src/filter/EKparticlefilter.cpp
+++ b/orocos_bfl/src/filter/EKparticlefilter.cpp
@@ -50,6 +50,18 @@ namespace BFL
     delete _proposal;
   }
 
+  void
+  EKParticleFilter::Reset(Pdf<CV> * prior)
+  {
+    ParticleFilter<CV,CV>::Reset(prior);
+    int num_samples = _old_samples.size();
+    _sampleCov.assign(num_samples,prior->CovarianceGet());
+    _tmpCov = _sampleCov;
+    _result_samples = _old_samples;
+    _unif_samples.resize(num_samples);
+    _CumPDF.resize(num_samples);
+  }
+
   // KG: 20040702:  This method will be exactly the same for.  Extra
   // class between?
   bool
diff --git a/orocos_bfl/src/filter/EKparticlefilter.h b/orocos_bfl/src/filter/EKparticlefilter.h
index b348b52..325dd28 100644
--- a/orocos_bfl/src/filter/EKparticlefilter.h
+++ b/orocos_bfl/src/filter/EKparticlefilter.h
@@ -97,6 +97,9 @@ namespace BFL
 
       /// Destructor
       virtual ~EKParticleFilter();
+
+      // implement virtual function
+      virtual void Reset(Pdf<ColumnVector> * prior);
     };
 
 } // End namespace BFL
-- 
2.43.0


From 7321b76b258b3f6d6dc2d18a7762dc40972d7c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:02 +0000
Subject: [PATCH 35/36] fix: the covariance of an unsigned sample-based pdf
 overflowed for distant samples

---
 orocos_bfl/src/pdf/mcpdf.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/orocos_bfl/src/pdf/mcpdf.cpp b/orocos_bfl/src/pdf/mcpdf.cpp
index a6e4891..1263606 100644
--- a/orocos_bfl/src/pdf/mcpdf.cpp
+++ b/orocos_bfl/src/pdf/mcpdf.cpp
@@ -130,7 +130,7 @@ namespace BFL
   SymmetricMatrix MCPdf<unsigned int>::CovarianceGet (  ) const
   {
     unsigned int mean = this->ExpectedValueGet();
-    unsigned int diff;
+    double diff;
     double diffsum, current_weight;
     _los = _listOfSamples;
     diffsum = 0.0;
@@ -138,8 +138,8 @@ namespace BFL
     for (_it_los = _los.begin(); _it_los != _los.end(); _it_los++)
       {
 	current_weight = _it_los->WeightGet();
-	diff = (_it_los->ValueGet() - mean);
-	diffsum += (((double)(diff * diff)) * current_weight);
+	diff = (double)_it_los->ValueGet() - (double)mean;
+	diffsum += ((diff * diff) * current_weight);
       }
 
     // Biased estimator!! (unbiased possible with weighted samples??)
-- 
2.43.0


From 2d617e4fa85afebcceb5ed39a7ff2e22d4a71d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:20 +0000
Subject: [PATCH 36/36] fix: the particle filter wrote past its sample lists
 when the number of particles was changed through PostGet

---
 orocos_bfl/src/filter/particlefilter.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/orocos_bfl/src/filter/particlefilter.cpp b/orocos_bfl/src/filter/particlefilter.cpp
index bb094d9..8c8b283 100644
--- a/orocos_bfl/src/filter/particlefilter.cpp
+++ b/orocos_bfl/src/filter/particlefilter.cpp
@@ -321,6 +321,11 @@ ParticleFilter<SV,MV>::UpdateInternal(SystemModel<StateVar>* const sysmodel,
 {
   bool result = true;
 
+  // The number of samples can have changed (PostGet)
+  unsigned int num_samples = (dynamic_cast<MCPdf<SV> *>(this->_post))->NumSamplesGet();
+  _old_samples.resize(num_samples);
+  _new_samples.resize(num_samples);
+
   // Only makes sense if there is a system model?
   // Bug, not completely true, but should do for now...
   if (sysmodel != NULL)
-- 
2.43.0

