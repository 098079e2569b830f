From 36a82936f1e33e9128abd2a6b76cc728bb6d85f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:18 +0000
Subject: [PATCH 001/168] fix: allow assignment between models with different
 function type lists

The cross-type assignment operator could not be instantiated: the helper
structs that copy the function vectors were not friends of GraphicalModel.
---
 include/opengm/graphicalmodel/graphicalmodel.hxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/opengm/graphicalmodel/graphicalmodel.hxx b/include/opengm/graphicalmodel/graphicalmodel.hxx
index 4bd5cd6..b23e6bd 100755
--- a/include/opengm/graphicalmodel/graphicalmodel.hxx
+++ b/include/opengm/graphicalmodel/graphicalmodel.hxx
@@ -199,6 +199,10 @@ template<typename GM>
 template<typename GM>
    friend void opengm::hdf5::load(GM&, const std::string&, const std::string&);
 
+template<bool>
+   friend struct detail_graphical_model::MaybeCopyFunctionVector;
+template<size_t, size_t>
+   friend struct detail_graphical_model::CopyFunctions;
 template<class , size_t , size_t , bool>
    friend struct opengm::hdf5::SaveAndLoadFunctions;
 template<typename, typename>
-- 
2.43.0


From 5d1e24e595b87f12cae700ffe0af87a4b34c670c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:00 +0000
Subject: [PATCH 002/168] fix: factorAdjacencyList used positions in the factor
 as variable indices

---
 include/opengm/graphicalmodel/graphviews/factorgraph.hxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/opengm/graphicalmodel/graphviews/factorgraph.hxx b/include/opengm/graphicalmodel/graphviews/factorgraph.hxx
index 5ffdac3..261bf96 100644
--- a/include/opengm/graphicalmodel/graphviews/factorgraph.hxx
+++ b/include/opengm/graphicalmodel/graphviews/factorgraph.hxx
@@ -926,7 +926,8 @@ FactorGraph<S,I>::templatedFactorAdjacencyList
    out.clear();
    out.resize(numberOfFactors());
    for(size_t f=0; f<numberOfFactors(); ++f) {
-      for(size_t v=0 ;v<numberOfVariables(f); ++v) {
+      for(size_t j=0 ;j<numberOfVariables(f); ++j) {
+         const size_t v=variableOfFactor(f,j);
          for(size_t ff=0;ff<numberOfFactors(v);++ff) {
             const size_t fOfVar=factorOfVariable(v,ff);
             if(f!=fOfVar) {
-- 
2.43.0


From f53db889e80a39cc58743edf23eee677252ae1de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:00 +0000
Subject: [PATCH 003/168] fix: isConnected read past the end of factors without
 variables

---
 include/opengm/graphicalmodel/graphviews/factorgraph.hxx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/opengm/graphicalmodel/graphviews/factorgraph.hxx b/include/opengm/graphicalmodel/graphviews/factorgraph.hxx
index 261bf96..d8d6e99 100644
--- a/include/opengm/graphicalmodel/graphviews/factorgraph.hxx
+++ b/include/opengm/graphicalmodel/graphviews/factorgraph.hxx
@@ -403,7 +403,10 @@ FactorGraph<S,I>::isConnected(marray::Vector<size_t>& representatives) const
       // iterate over all connected variables of factor and merge them to one partition
       const ConstVariableIterator variablesBegin = variablesOfFactorBegin(i);
       const ConstVariableIterator variablesEnd = variablesOfFactorEnd(i);
-      OPENGM_ASSERT(variablesBegin != variablesEnd);
+      if(variablesBegin == variablesEnd) {
+         // a factor without variables connects nothing
+         continue;
+      }
 
       for(ConstVariableIterator iter = variablesBegin + 1; iter != variablesEnd; iter++) {
          connectedComponents.merge(*(iter - 1), *iter);
-- 
2.43.0


From 3c52b696f25667520090f4afc11b4130e68df5db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:00 +0000
Subject: [PATCH 004/168] fix: isGrid picked the wrong diagonal corner and
 accepted graphs that are not grids

---
 .../graphicalmodel/graphviews/factorgraph.hxx | 40 +++++++++++++++++--
 1 file changed, 37 insertions(+), 3 deletions(-)

diff --git a/include/opengm/graphicalmodel/graphviews/factorgraph.hxx b/include/opengm/graphicalmodel/graphviews/factorgraph.hxx
index d8d6e99..eb2c1e0 100644
--- a/include/opengm/graphicalmodel/graphviews/factorgraph.hxx
+++ b/include/opengm/graphicalmodel/graphviews/factorgraph.hxx
@@ -607,7 +607,7 @@ FactorGraph<S,I>::isGrid(marray::Matrix<size_t>& gridIDs) const {
    // find diagonal corner
    size_t diagonalCorner = 1;
    for(size_t i = 1; i < 4; i++) {
-      if(shortestPaths[i - 1].size() > shortestPaths[diagonalCorner].size()) {
+      if(shortestPaths[i - 1].size() > shortestPaths[diagonalCorner - 1].size()) {
          diagonalCorner = i;
       }
    }
@@ -692,10 +692,9 @@ FactorGraph<S,I>::isGrid(marray::Matrix<size_t>& gridIDs) const {
       for(size_t j = 1; j < dimension[1] - 1; j++) {
          std::vector<size_t> oneHopVariables;
          if(twoHopConnected(gridIDs(i - 1, j), gridIDs(i, j - 1), oneHopVariables)) {
-            if(oneHopVariables.size() < 2) {
+            if(oneHopVariables.size() != 2) {
                return false;
             }
-            OPENGM_ASSERT(oneHopVariables.size() == 2);
             if(oneHopVariables[0] != gridIDs(i - 1, j - 1)) {
                gridIDs(i, j) = oneHopVariables[0];
             } else {
@@ -707,6 +706,41 @@ FactorGraph<S,I>::isGrid(marray::Matrix<size_t>& gridIDs) const {
       }
    }
 
+   // check that the grid covers all variables exactly once
+   if(dimension[0] * dimension[1] != numberOfVariables()) {
+      return false;
+   }
+   std::vector<bool> covered(numberOfVariables(), false);
+   for(size_t i = 0; i < dimension[0]; i++) {
+      for(size_t j = 0; j < dimension[1]; j++) {
+         if(covered[gridIDs(i, j)]) {
+            return false;
+         }
+         covered[gridIDs(i, j)] = true;
+      }
+   }
+
+   // check that the second order factors are exactly the edges of the grid
+   for(size_t i = 0; i < dimension[0]; i++) {
+      for(size_t j = 0; j < dimension[1]; j++) {
+         if(i + 1 < dimension[0] && !variableVariableConnection(gridIDs(i, j), gridIDs(i + 1, j))) {
+            return false;
+         }
+         if(j + 1 < dimension[1] && !variableVariableConnection(gridIDs(i, j), gridIDs(i, j + 1))) {
+            return false;
+         }
+      }
+   }
+   size_t countSecondOrderFactors = 0;
+   for(size_t i = 0; i < numberOfFactors(); i++) {
+      if(numberOfVariables(i) == 2) {
+         countSecondOrderFactors++;
+      }
+   }
+   if(countSecondOrderFactors != dimension[0] * (dimension[1] - 1) + dimension[1] * (dimension[0] - 1)) {
+      return false;
+   }
+
    return true;
 }
 
-- 
2.43.0


From 3fb4844632e241477c8fd5d2c2b6d322ef4d8923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:01 +0000
Subject: [PATCH 005/168] fix: maxNumberOfLabels did not compile for differing
 index and label types

---
 include/opengm/graphicalmodel/graphicalmodel.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/graphicalmodel/graphicalmodel.hxx b/include/opengm/graphicalmodel/graphicalmodel.hxx
index b23e6bd..603a320 100755
--- a/include/opengm/graphicalmodel/graphicalmodel.hxx
+++ b/include/opengm/graphicalmodel/graphicalmodel.hxx
@@ -159,7 +159,7 @@ public:
    LabelType maxNumberOfLabels()const{
         LabelType mx=0;
         for(size_t i=0; i<numberOfVariables(); ++i)
-            mx = std::max(numberOfLabels(i), mx);
+            mx = std::max(static_cast<LabelType>(numberOfLabels(i)), mx);
         return mx;
    }
 
-- 
2.43.0


From 6c9ebb136f3b37c0cf617a7dbbbbc95f481149ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:56 +0000
Subject: [PATCH 006/168] fix: order function identifiers lexicographically

---
 include/opengm/graphicalmodel/graphicalmodel.hxx | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/opengm/graphicalmodel/graphicalmodel.hxx b/include/opengm/graphicalmodel/graphicalmodel.hxx
index 603a320..d40e2d9 100755
--- a/include/opengm/graphicalmodel/graphicalmodel.hxx
+++ b/include/opengm/graphicalmodel/graphicalmodel.hxx
@@ -885,8 +885,8 @@ FunctionIdentification<FUNCTION_INDEX_TYPE, FUNCTION_TYPE_INDEX_TYPE>::operator
    const FunctionIdentification<FUNCTION_INDEX_TYPE, FUNCTION_TYPE_INDEX_TYPE> & rhs
 ) const 
 {
-   if(functionType < rhs.functionType)
-       return true;
+   if(functionType != rhs.functionType)
+       return functionType < rhs.functionType;
    else 
        return functionIndex < rhs.functionIndex;
 }
@@ -898,8 +898,8 @@ FunctionIdentification<FUNCTION_INDEX_TYPE, FUNCTION_TYPE_INDEX_TYPE>::operator
    const FunctionIdentification<FUNCTION_INDEX_TYPE, FUNCTION_TYPE_INDEX_TYPE> & rhs
 ) const 
 {
-   if(functionType >rhs.functionType)
-       return true;
+   if(functionType != rhs.functionType)
+       return functionType > rhs.functionType;
    else 
        return functionIndex > rhs.functionIndex;
 }
@@ -911,8 +911,8 @@ FunctionIdentification<FUNCTION_INDEX_TYPE, FUNCTION_TYPE_INDEX_TYPE>::operator
    const FunctionIdentification<FUNCTION_INDEX_TYPE, FUNCTION_TYPE_INDEX_TYPE> & rhs
 ) const 
 {
-   if(functionType <= rhs.functionType)
-       return true;
+   if(functionType != rhs.functionType)
+       return functionType < rhs.functionType;
    else 
        return functionIndex <= rhs.functionIndex;
 }
@@ -924,8 +924,8 @@ FunctionIdentification<FUNCTION_INDEX_TYPE, FUNCTION_TYPE_INDEX_TYPE>::operator
    const FunctionIdentification<FUNCTION_INDEX_TYPE, FUNCTION_TYPE_INDEX_TYPE> & rhs
 ) const 
 {
-   if(functionType >=rhs.functionType)
-       return true;
+   if(functionType != rhs.functionType)
+       return functionType > rhs.functionType;
    else 
        return functionIndex >= rhs.functionIndex;
 }
-- 
2.43.0


From 17fd4a1d9beee33a22ea45cd25c992dee7c9af88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:14 +0000
Subject: [PATCH 007/168] fix: gmToFactorLabelsBegin did not compile (missing
 typedef)

---
 include/opengm/graphicalmodel/graphicalmodel_factor.hxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/opengm/graphicalmodel/graphicalmodel_factor.hxx b/include/opengm/graphicalmodel/graphicalmodel_factor.hxx
index b2fa38b..bc7723e 100755
--- a/include/opengm/graphicalmodel/graphicalmodel_factor.hxx
+++ b/include/opengm/graphicalmodel/graphicalmodel_factor.hxx
@@ -205,6 +205,7 @@ public:
     typename GmToFactorLabelIter<LABEL_ITER>::Iter
     gmToFactorLabelsBegin(LABEL_ITER gmLabelsBegin)const{
         typedef typename GmToFactorLabelIter<LABEL_ITER>::Accessor Accessor;
+        typedef typename GmToFactorLabelIter<LABEL_ITER>::Iter Iter;
         Accessor accessor(variableIndicesBegin(),variableIndicesEnd(), gmLabelsBegin);
         return Iter(accessor, 0);
     }
-- 
2.43.0


From 195e6b21bd03ff7e9f4f62336da092c247e3d3df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:10 +0000
Subject: [PATCH 008/168] fix: size of functions overflowed when the shape was
 given with a narrow integer type

---
 include/opengm/functions/constant.hxx                         | 4 ++--
 .../constraint_functions/linear_constraint_function.hxx       | 4 ++--
 .../constraint_functions/num_labels_limitation_function.hxx   | 2 +-
 include/opengm/functions/pottsg.hxx                           | 4 ++--
 include/opengm/functions/pottsn.hxx                           | 2 +-
 .../soft_constraint_functions/label_cost_function.hxx         | 4 ++--
 .../soft_constraint_functions/sum_constraint_function.hxx     | 2 +-
 7 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/include/opengm/functions/constant.hxx b/include/opengm/functions/constant.hxx
index 00b8cf6..6809555 100644
--- a/include/opengm/functions/constant.hxx
+++ b/include/opengm/functions/constant.hxx
@@ -91,7 +91,7 @@ ConstantFunction<T, I, L>::ConstantFunction
 )
 :  value_(value),
    shape_(shapeBegin, shapeEnd),
-   size_(std::accumulate(shapeBegin, shapeEnd, 1, std::multiplies<typename std::iterator_traits<ITERATOR>::value_type >()))
+   size_(std::accumulate(shapeBegin, shapeEnd, static_cast<size_t>(1), std::multiplies<size_t>()))
 {}
 
 template <class T, class I, class L>
@@ -187,7 +187,7 @@ FunctionSerialization< ConstantFunction<T, I, L> >::deserialize
       ++indexInIterator;
       dst.shape_[i]=*indexInIterator;
    }
-   dst.size_=std::accumulate(dst.shape_.begin(), dst.shape_.end(), 1, std::multiplies<size_t>());
+   dst.size_=std::accumulate(dst.shape_.begin(), dst.shape_.end(), static_cast<size_t>(1), std::multiplies<size_t>());
 }
 
 } // namespace opengm
diff --git a/include/opengm/functions/constraint_functions/linear_constraint_function.hxx b/include/opengm/functions/constraint_functions/linear_constraint_function.hxx
index 6fde8f2..a5ee790 100644
--- a/include/opengm/functions/constraint_functions/linear_constraint_function.hxx
+++ b/include/opengm/functions/constraint_functions/linear_constraint_function.hxx
@@ -439,7 +439,7 @@ template<class VALUE_TYPE, class INDEX_TYPE, class LABEL_TYPE>
 template <class SHAPE_ITERATOR_TYPE>
 inline LinearConstraintFunction<VALUE_TYPE, INDEX_TYPE, LABEL_TYPE>::LinearConstraintFunction(SHAPE_ITERATOR_TYPE shapeBegin, SHAPE_ITERATOR_TYPE shapeEnd, const LinearConstraintsContainerType& constraints, const ValueType returnValid, const ValueType returnInvalid)
    : shape_(shapeBegin, shapeEnd),
-     size_(std::accumulate(shapeBegin, shapeEnd, 1, std::multiplies<typename std::iterator_traits<SHAPE_ITERATOR_TYPE>::value_type>())),
+     size_(std::accumulate(shapeBegin, shapeEnd, static_cast<size_t>(1), std::multiplies<size_t>())),
      constraints_(constraints), violatedConstraintsIds_(constraints_.size()),
      violatedConstraintsWeights_(constraints_.size()),
      returnValid_(returnValid), returnInvalid_(returnInvalid),
@@ -457,7 +457,7 @@ template<class VALUE_TYPE, class INDEX_TYPE, class LABEL_TYPE>
 template <class SHAPE_ITERATOR_TYPE, class CONSTRAINTS_ITERATOR_TYPE>
 inline LinearConstraintFunction<VALUE_TYPE, INDEX_TYPE, LABEL_TYPE>::LinearConstraintFunction(SHAPE_ITERATOR_TYPE shapeBegin, SHAPE_ITERATOR_TYPE shapeEnd, CONSTRAINTS_ITERATOR_TYPE constraintsBegin, CONSTRAINTS_ITERATOR_TYPE constraintsEnd, const ValueType returnValid, const ValueType returnInvalid)
    : shape_(shapeBegin, shapeEnd),
-     size_(std::accumulate(shapeBegin, shapeEnd, 1, std::multiplies<typename std::iterator_traits<SHAPE_ITERATOR_TYPE>::value_type>())),
+     size_(std::accumulate(shapeBegin, shapeEnd, static_cast<size_t>(1), std::multiplies<size_t>())),
      constraints_(constraintsBegin, constraintsEnd),
      violatedConstraintsIds_(constraints_.size()),
      violatedConstraintsWeights_(constraints_.size()),
diff --git a/include/opengm/functions/constraint_functions/num_labels_limitation_function.hxx b/include/opengm/functions/constraint_functions/num_labels_limitation_function.hxx
index 735e3fd..ba4cd4f 100644
--- a/include/opengm/functions/constraint_functions/num_labels_limitation_function.hxx
+++ b/include/opengm/functions/constraint_functions/num_labels_limitation_function.hxx
@@ -456,7 +456,7 @@ inline NumLabelsLimitationFunction<VALUE_TYPE, INDEX_TYPE, LABEL_TYPE>::NumLabel
   useSameNumLabels_(numVariables_ > 0 ? std::equal(shape_.begin() + 1, shape_.end(), shape_.begin()) : true),
   maxNumLabels_(numVariables_ > 0 ? *std::max_element(shape_.begin(), shape_.end()) : 0),
   maxNumUsedLabels_(maxNumUsedLabels),
-  size_(std::accumulate(shapeBegin, shapeEnd, 1, std::multiplies<typename std::iterator_traits<SHAPE_ITERATOR_TYPE>::value_type>())),
+  size_(std::accumulate(shapeBegin, shapeEnd, static_cast<size_t>(1), std::multiplies<size_t>())),
   returnValid_(returnValid), returnInvalid_(returnInvalid),
   constraints_(1), violatedConstraintsIds_(1), violatedConstraintsWeights_(1),
   indicatorVariableList_(maxNumLabels_) {
diff --git a/include/opengm/functions/pottsg.hxx b/include/opengm/functions/pottsg.hxx
index 8985555..cbe8d5a 100644
--- a/include/opengm/functions/pottsg.hxx
+++ b/include/opengm/functions/pottsg.hxx
@@ -101,7 +101,7 @@ PottsGFunction<T, I, L>::PottsGFunction
    ITERATOR shapeEnd
 )
 :  shape_(shapeBegin, shapeEnd),
-   size_(std::accumulate(shapeBegin, shapeEnd, 1, std::multiplies<typename std::iterator_traits<ITERATOR>::value_type >()))
+   size_(std::accumulate(shapeBegin, shapeEnd, static_cast<size_t>(1), std::multiplies<size_t>()))
 {
 
    OPENGM_ASSERT(shape_.size() <= MaximalOrder_);
@@ -124,7 +124,7 @@ PottsGFunction<T, I, L>::PottsGFunction
    ITERATOR2 valuesBegin
 )
 :  shape_(shapeBegin, shapeEnd),
-   size_(std::accumulate(shapeBegin, shapeEnd, 1, std::multiplies<typename std::iterator_traits<ITERATOR>::value_type >()))
+   size_(std::accumulate(shapeBegin, shapeEnd, static_cast<size_t>(1), std::multiplies<size_t>()))
 {  
    OPENGM_ASSERT(shape_.size() <= MaximalOrder_); 
    if(shape_.size()<=4){
diff --git a/include/opengm/functions/pottsn.hxx b/include/opengm/functions/pottsn.hxx
index a45f01f..fe8022e 100644
--- a/include/opengm/functions/pottsn.hxx
+++ b/include/opengm/functions/pottsn.hxx
@@ -78,7 +78,7 @@ PottsNFunction<T, I, L>::PottsNFunction
    const T valueNotEqual
 )
 :  shape_(shapeBegin, shapeEnd),
-   size_(std::accumulate(shapeBegin, shapeEnd, 1, std::multiplies<typename std::iterator_traits<ITERATOR>::value_type >())),
+   size_(std::accumulate(shapeBegin, shapeEnd, static_cast<size_t>(1), std::multiplies<size_t>())),
    valueEqual_(valueEqual),
    valueNotEqual_(valueNotEqual)
 {
diff --git a/include/opengm/functions/soft_constraint_functions/label_cost_function.hxx b/include/opengm/functions/soft_constraint_functions/label_cost_function.hxx
index 11a1ba1..f811bee 100644
--- a/include/opengm/functions/soft_constraint_functions/label_cost_function.hxx
+++ b/include/opengm/functions/soft_constraint_functions/label_cost_function.hxx
@@ -294,7 +294,7 @@ inline LabelCostFunction<VALUE_TYPE, INDEX_TYPE, LABEL_TYPE>::LabelCostFunction(
    : shape_(shapeBegin, shapeEnd), numVariables_(shape_.size()),
      maxNumLabels_(numVariables_ > 0 ? *std::max_element(shape_.begin(), shape_.end()) : 0),
      useSameNumLabels_(numVariables_ > 0 ? std::equal(shape_.begin() + 1, shape_.end(), shape_.begin()) : true),
-     size_(std::accumulate(shapeBegin, shapeEnd, 1, std::multiplies<typename std::iterator_traits<SHAPE_ITERATOR_TYPE>::value_type>())),
+     size_(std::accumulate(shapeBegin, shapeEnd, static_cast<size_t>(1), std::multiplies<size_t>())),
      costs_(costsBegin, costsEnd), useSingleCost_(false), singleLabel_(),
      singleCost_() {
    OPENGM_ASSERT(costs_.size() >= maxNumLabels_);
@@ -306,7 +306,7 @@ inline LabelCostFunction<VALUE_TYPE, INDEX_TYPE, LABEL_TYPE>::LabelCostFunction(
    : shape_(shapeBegin, shapeEnd), numVariables_(shape_.size()),
      maxNumLabels_(numVariables_ > 0 ? *std::max_element(shape_.begin(), shape_.end()) : 0),
      useSameNumLabels_(numVariables_ > 0 ? std::equal(shape_.begin() + 1, shape_.end(), shape_.begin()) : true),
-     size_(std::accumulate(shapeBegin, shapeEnd, 1, std::multiplies<typename std::iterator_traits<SHAPE_ITERATOR_TYPE>::value_type>())),
+     size_(std::accumulate(shapeBegin, shapeEnd, static_cast<size_t>(1), std::multiplies<size_t>())),
      costs_(), useSingleCost_(true), singleLabel_(label), singleCost_(cost) {
    OPENGM_ASSERT(singleLabel_ < maxNumLabels_);
 }
diff --git a/include/opengm/functions/soft_constraint_functions/sum_constraint_function.hxx b/include/opengm/functions/soft_constraint_functions/sum_constraint_function.hxx
index 74c233f..7459633 100644
--- a/include/opengm/functions/soft_constraint_functions/sum_constraint_function.hxx
+++ b/include/opengm/functions/soft_constraint_functions/sum_constraint_function.hxx
@@ -312,7 +312,7 @@ inline SumConstraintFunction<VALUE_TYPE, INDEX_TYPE, LABEL_TYPE>::SumConstraintF
    : shape_(shapeBegin, shapeEnd), numVariables_(shape_.size()),
      useSameNumLabels_(numVariables_ > 0 ? std::equal(shape_.begin() + 1, shape_.end(), shape_.begin()) : true),
      maxNumLabels_(numVariables_ > 0 ? *std::max_element(shape_.begin(), shape_.end()) : 0),
-     size_(std::accumulate(shapeBegin, shapeEnd, 1, std::multiplies<typename std::iterator_traits<SHAPE_ITERATOR_TYPE>::value_type>())),
+     size_(std::accumulate(shapeBegin, shapeEnd, static_cast<size_t>(1), std::multiplies<size_t>())),
      coefficients_(coefficientsBegin, coefficientsEnd),
      shareCoefficients_(shareCoefficients), coefficientsOffsets_(),
      lambda_(lambda), bound_(bound) {
-- 
2.43.0


From 716ee5d35ece057cc79fa4fcc5b1d681258bf900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:10 +0000
Subject: [PATCH 009/168] fix: strides of sparse functions overflowed for
 narrow label types

---
 include/opengm/datastructures/sparsemarray/sparsemarray.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/datastructures/sparsemarray/sparsemarray.hxx b/include/opengm/datastructures/sparsemarray/sparsemarray.hxx
index b0cd979..e1f8eb3 100755
--- a/include/opengm/datastructures/sparsemarray/sparsemarray.hxx
+++ b/include/opengm/datastructures/sparsemarray/sparsemarray.hxx
@@ -44,7 +44,7 @@ public:
         shape_.resize(dimension_);
         strides_.resize(dimension_);
         // compute strides
-        LabelType strideVal=1;
+        size_t strideVal=1;
         for(unsigned short  dim=0;dim<dimension_;++dim){
             shape_[dim]=*shapeBegin;
             strides_[dim]=strideVal;
-- 
2.43.0


From e44475427c711df4a814ab1710e9244b63312b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:10 +0000
Subject: [PATCH 010/168] fix: minimum and maximum of a Potts function with a
 single label pair

---
 include/opengm/functions/potts.hxx | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/opengm/functions/potts.hxx b/include/opengm/functions/potts.hxx
index c182463..2e3ad7c 100644
--- a/include/opengm/functions/potts.hxx
+++ b/include/opengm/functions/potts.hxx
@@ -254,6 +254,9 @@ template<class T, class I, class L>
 inline typename PottsFunction<T, I, L>::ValueType
 PottsFunction<T, I, L>::min() const
 {
+   if(size() == 1) { // there are no two different labels
+      return valueEqual_;
+   }
    return valueEqual_<valueNotEqual_ ? valueEqual_ :valueNotEqual_;
 }
 
@@ -261,6 +264,9 @@ template<class T, class I, class L>
 inline typename PottsFunction<T, I, L>::ValueType
 PottsFunction<T, I, L>::max() const
 {
+   if(size() == 1) { // there are no two different labels
+      return valueEqual_;
+   }
    return valueNotEqual_>valueEqual_ ? valueNotEqual_ :valueEqual_;
 }
 
@@ -292,6 +298,9 @@ template<class T, class I, class L>
 inline MinMaxFunctor<typename PottsFunction<T, I, L>::ValueType>
 PottsFunction<T, I, L>::minMax() const
 {
+   if(size() == 1) { // there are no two different labels
+      return MinMaxFunctor<T>(valueEqual_, valueEqual_);
+   }
    if(valueEqual_<valueNotEqual_) {
       return MinMaxFunctor<T>(valueEqual_, valueNotEqual_);
    }
-- 
2.43.0


From f5931bca242a81fd3b31c7c6952e6b68b738a2dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:10 +0000
Subject: [PATCH 011/168] fix: default field of experts stored its filters
 transposed

---
 include/opengm/functions/fieldofexperts.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/functions/fieldofexperts.hxx b/include/opengm/functions/fieldofexperts.hxx
index 6c18af4..6a11642 100644
--- a/include/opengm/functions/fieldofexperts.hxx
+++ b/include/opengm/functions/fieldofexperts.hxx
@@ -101,7 +101,7 @@ public:
          alphas_[e] =  a_alpha[e]; 
          OPENGM_ASSERT(   alphas_[e] ==  a_alpha[e]);
          for(size_t i=0; i<4;++i){
-            experts_[e+i*3] = a_expert[e][i];
+            experts_[e*4+i] = a_expert[e][i];
          }
       }
       numLabels_= 256;
-- 
2.43.0


From 54ce2bae9284be06a4e7345edae22b197f40cf8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:10 +0000
Subject: [PATCH 012/168] fix: dangling data pointer of an empty
 DynamicSingleSiteFunction

---
 include/opengm/functions/singlesitefunction.hxx | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/opengm/functions/singlesitefunction.hxx b/include/opengm/functions/singlesitefunction.hxx
index 2d02123..89c5b92 100644
--- a/include/opengm/functions/singlesitefunction.hxx
+++ b/include/opengm/functions/singlesitefunction.hxx
@@ -141,7 +141,7 @@ public:
    typedef T value_type;
 
    DynamicSingleSiteFunction(const size_t size = 0)
-      :  size_(size)
+      :  dataPointer_(NULL), size_(size)
       {
          if(size_ != 0){
             dataPointer_ = new T[size];
@@ -149,7 +149,7 @@ public:
       }
 
    DynamicSingleSiteFunction(const size_t size, ValueType value)
-      :  size_(size)
+      :  dataPointer_(NULL), size_(size)
       {
          if(size_ != 0) {
             dataPointer_ = new T[size];
@@ -165,6 +165,7 @@ public:
       }
 
    DynamicSingleSiteFunction(const DynamicSingleSiteFunction & other)
+      :  dataPointer_(NULL)
       {
          if(other.size_ != 0) {
             dataPointer_ = new T[other.size_];
@@ -193,6 +194,7 @@ public:
                   std::copy(other.dataPointer_, other.dataPointer_+size_, dataPointer_);
                }
                else {
+                  dataPointer_ = NULL;
                   size_ = 0;
                }
             }
@@ -212,6 +214,7 @@ public:
                size_=size;
             }
             else {
+               dataPointer_ = NULL;
                size_ = 0;
             }
          }
@@ -227,6 +230,7 @@ public:
                std::fill(dataPointer_, dataPointer_+size_, value);
             }
             else {
+               dataPointer_ = NULL;
                size_=0;
             }
          }
-- 
2.43.0


From b5e72704deaeb2b36ac47772f08e57b685d58db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:10 +0000
Subject: [PATCH 013/168] fix: DynamicSingleSiteFunction did not serialize its
 size

---
 include/opengm/functions/singlesitefunction.hxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/opengm/functions/singlesitefunction.hxx b/include/opengm/functions/singlesitefunction.hxx
index 89c5b92..bdc7293 100644
--- a/include/opengm/functions/singlesitefunction.hxx
+++ b/include/opengm/functions/singlesitefunction.hxx
@@ -344,6 +344,7 @@ public:
 
    template<class INDEX_OUTPUT_ITERATOR, class VALUE_OUTPUT_ITERATOR >
       static void serialize(const  DynamicSingleSiteFunction<T>  & f, INDEX_OUTPUT_ITERATOR ii, VALUE_OUTPUT_ITERATOR vi){
+      *ii=f.size();
       for(size_t i=0;i<f.size();++i){
          size_t c[]={i};
          *vi=f(c);
-- 
2.43.0


From 98baf937a499a0ac4f59580bcab44cbd104938da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:10 +0000
Subject: [PATCH 014/168] fix: difference predicates failed on single label and
 non-square tables and accepted functions that are not truncated differences

---
 .../functions/function_properties_base.hxx    | 74 +++++++++++++------
 1 file changed, 52 insertions(+), 22 deletions(-)

diff --git a/include/opengm/functions/function_properties_base.hxx b/include/opengm/functions/function_properties_base.hxx
index 68882d5..f612d6e 100644
--- a/include/opengm/functions/function_properties_base.hxx
+++ b/include/opengm/functions/function_properties_base.hxx
@@ -275,10 +275,17 @@ inline bool
 FunctionBase<FUNCTION, VALUE, INDEX, LABEL>::isSquaredDifference() const{
    const FunctionType& f=*static_cast<FunctionType const *>(this);
    if(f.dimension()==2) {
-      OPENGM_ASSERT(f.shape(0)>static_cast<LABEL>(1));
-      LABEL c[2]={1, 0};
+      LABEL c[2]={0, 0};
       //get possible weight
-      VALUE weight=f(c);
+      VALUE weight=VALUE(0);
+      if(f.shape(0)>1) {
+         c[0]=1;
+         weight=f(c);
+      }
+      else if(f.shape(1)>1) {
+         c[1]=1;
+         weight=f(c);
+      }
       for( c[1]=0;c[1]<f.shape(1);++c[1]) {
          for( c[0]=0;c[0]<f.shape(0);++c[0]) {
             VALUE d= static_cast<VALUE> (c[0]<c[1] ? c[1]-c[0]:c[0]-c[1]);
@@ -297,20 +304,28 @@ inline bool
 FunctionBase<FUNCTION, VALUE, INDEX, LABEL>::isTruncatedSquaredDifference() const{
    const FunctionType& f=*static_cast<FunctionType const *>(this);
    if(f.dimension()==2) {
-      OPENGM_ASSERT(f.shape(0)>static_cast<LABEL>(1));
-      LABEL c[2]={1, 0};
-      //get possible weight
-      VALUE weight=f(c);
-      //get possible truncation (compute the biggest possible distance => value is the truncation value)
-      c[0]=f.shape(0)-static_cast<LABEL>(1);
+      LABEL c[2]={0, 0};
+      //get possible weight and possible truncation
+      //(the value at the biggest possible distance is the truncation value)
+      VALUE weight=VALUE(0);
       VALUE truncated=f(c);
+      if(f.shape(0)>1 || f.shape(1)>1) {
+         const size_t longer= f.shape(0)<f.shape(1) ? 1 : 0;
+         c[longer]=1;
+         weight=f(c);
+         c[longer]=f.shape(longer)-static_cast<LABEL>(1);
+         truncated=f(c);
+      }
       for( c[1]=0;c[1]<f.shape(1);++c[1]) {
          for( c[0]=0;c[0]<f.shape(0);++c[0]) {
             VALUE d= static_cast<VALUE> (c[0]<c[1] ? c[1]-c[0]:c[0]-c[1]);
             d*=d;
             const VALUE fval=f(c);
-            const VALUE compare=d*weight;
-            if( isNumericEqual(fval, compare  )==false && ((isNumericEqual(fval, truncated) && truncated<compare)==false)) {
+            VALUE compare=d*weight;
+            if(weight<VALUE(0) ? compare<truncated : truncated<compare) {
+               compare=truncated;
+            }
+            if( isNumericEqual(fval, compare)==false) {
                return false;
             }
          } 
@@ -325,10 +340,17 @@ inline bool
 FunctionBase<FUNCTION, VALUE, INDEX, LABEL>::isAbsoluteDifference() const{
    const FunctionType& f=*static_cast<FunctionType const *>(this);
    if(f.dimension()==2) {
-      OPENGM_ASSERT(f.shape(0)>static_cast<LABEL>(1));
-      LABEL c[2]={1, 0};
+      LABEL c[2]={0, 0};
       //get possible weight
-      VALUE weight=f(c);
+      VALUE weight=VALUE(0);
+      if(f.shape(0)>1) {
+         c[0]=1;
+         weight=f(c);
+      }
+      else if(f.shape(1)>1) {
+         c[1]=1;
+         weight=f(c);
+      }
       for( c[1]=0;c[1]<f.shape(1);++c[1]) {
          for( c[0]=0;c[0]<f.shape(0);++c[0]) {
             VALUE d= static_cast<VALUE> (c[0]<c[1] ? c[1]-c[0]:c[0]-c[1]);
@@ -346,19 +368,27 @@ inline bool
 FunctionBase<FUNCTION, VALUE, INDEX, LABEL>::isTruncatedAbsoluteDifference() const{
    const FunctionType& f=*static_cast<FunctionType const *>(this);
    if(f.dimension()==2) {
-      OPENGM_ASSERT(f.shape(0)>static_cast<LABEL>(1));
-      LABEL c[2]={1, 0};
-      //get possible weight
-      VALUE weight=f(c);
-      //get possible truncation (compute the biggest possible distance => value is the truncation value)
-      c[0]=f.shape(0)-static_cast<LABEL>(1);
+      LABEL c[2]={0, 0};
+      //get possible weight and possible truncation
+      //(the value at the biggest possible distance is the truncation value)
+      VALUE weight=VALUE(0);
       VALUE truncated=f(c);
+      if(f.shape(0)>1 || f.shape(1)>1) {
+         const size_t longer= f.shape(0)<f.shape(1) ? 1 : 0;
+         c[longer]=1;
+         weight=f(c);
+         c[longer]=f.shape(longer)-static_cast<LABEL>(1);
+         truncated=f(c);
+      }
       for( c[1]=0;c[1]<f.shape(1);++c[1]) {
          for( c[0]=0;c[0]<f.shape(0);++c[0]) {
             VALUE d= static_cast<VALUE> (c[0]<c[1] ? c[1]-c[0]:c[0]-c[1]);
             const VALUE fval=f(c);
-            const VALUE compare=d*weight;
-            if( isNumericEqual(fval, compare  )==false && ((isNumericEqual(fval, truncated) && truncated<compare)==false)) {
+            VALUE compare=d*weight;
+            if(weight<VALUE(0) ? compare<truncated : truncated<compare) {
+               compare=truncated;
+            }
+            if( isNumericEqual(fval, compare)==false) {
                return false;
             }
          } 
-- 
2.43.0


From f46a83ccd2a2fb0efde764eec05e37ece91f69c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:10 +0000
Subject: [PATCH 015/168] fix: isGeneralizedPotts read outside of tables with
 few labels

---
 .../functions/function_properties_base.hxx    | 115 +++---------------
 1 file changed, 20 insertions(+), 95 deletions(-)

diff --git a/include/opengm/functions/function_properties_base.hxx b/include/opengm/functions/function_properties_base.hxx
index f612d6e..27c8d0a 100644
--- a/include/opengm/functions/function_properties_base.hxx
+++ b/include/opengm/functions/function_properties_base.hxx
@@ -3,6 +3,8 @@
 #define OPENGM_FUNCTION_PROPERTIES_BASE_HXX
 
 #include <cmath>
+#include <map>
+#include <utility>
 
 #include "opengm/opengm.hxx"
 #include "opengm/utilities/shape_accessor.hxx"
@@ -427,107 +429,30 @@ template<class FUNCTION, class VALUE, class INDEX, class LABEL>
 inline bool 
 FunctionBase<FUNCTION, VALUE, INDEX, LABEL>::isGeneralizedPotts() const {
    const FunctionType& f=*static_cast<FunctionType const *>(this);
-   if(f.dimension()==2) {
-      LABEL l[] = {0, 1};
-      VALUE v0 = f(l);
-      l[1]=0;
-      VALUE v1 = f(l);
-      for(l[0]=0;l[0]<f.shape(0);++l[0]) {
-         for(l[1]=0;l[1]<f.shape(1);++l[1]) {
-            if((l[0]==l[1] && f(l)!=v1) || ((l[0]!=l[1] && f(l)!=v0)) ) return false;
-         }
-      }
-      return true;
+   const size_t dimension = f.dimension();
+   if(dimension < 2 || dimension > 4) {
+      return false;
    }
-   else  if(f.dimension()==3) {
-      LABEL l[] = {0, 1, 2};
-      VALUE v000 = f(l);
-      l[2]=0; l[1]=1; l[0]=1;
-      VALUE v001 = f(l);
-      l[2]=1; l[1]=0; l[0]=1;
-      VALUE v010 = f(l);
-      l[2]=1; l[1]=1; l[0]=0;
-      VALUE v100 = f(l); 
-      l[2]=0; l[1]=0; l[0]=0;
-      VALUE v111 = f(l);
-      for(l[0]=0;l[0]<f.shape(0);++l[0]) {
-         for(l[1]=0;l[1]<f.shape(1);++l[1]) { 
-            for(l[2]=0;l[2]<f.shape(2);++l[2]) {
-               if((l[1]!=l[2] && l[0]!=l[2]  && l[0]!=l[1] && f(l)!=v000) ) return false;
-               if((l[1]!=l[2] && l[0]!=l[2]  && l[0]==l[1] && f(l)!=v001) ) return false;
-               if((l[1]!=l[2] && l[0]==l[2]  && l[0]!=l[1] && f(l)!=v010) ) return false;
-               if((l[1]==l[2] && l[0]!=l[2]  && l[0]!=l[1] && f(l)!=v100) ) return false;
-               if((l[1]==l[2] && l[0]==l[2]  && l[0]==l[1] && f(l)!=v111) ) return false;
+   // the value may only depend on which labels are equal to each other
+   std::map<size_t, VALUE> valueOfPartition;
+   ShapeWalker<FunctionShapeIteratorType> shapeWalker(f.functionShapeBegin(), dimension);
+   for(INDEX i=0;i<f.size();++i, ++shapeWalker) {
+      size_t partition = 0;
+      size_t bit = 1;
+      for(size_t j=1;j<dimension;++j) {
+         for(size_t k=0;k<j;++k) {
+            if(shapeWalker.coordinateTuple()[j] == shapeWalker.coordinateTuple()[k]) {
+               partition += bit;
             }
+            bit *= 2;
          }
       }
-      return true;
-   } 
-   else  if(f.dimension()==4) {
-      LABEL l[] = {0, 1, 2, 3};
-      VALUE v000000 = f(l);
-      l[3]=2; l[2]=1; l[1]=0;l[0]=0;
-      VALUE v000001 = f(l);
-      l[3]=2; l[2]=0; l[1]=1;l[0]=0;
-      VALUE v000010 = f(l);
-      l[3]=2; l[2]=0; l[1]=0;l[0]=1;
-      VALUE v000100 = f(l); 
-      l[3]=1; l[2]=0; l[1]=0;l[0]=0; //3-1
-      VALUE v000111 = f(l);
-      l[3]=0; l[2]=1; l[1]=2; l[0]=0;
-      VALUE v001000 = f(l);
-      l[3]=0; l[2]=1; l[1]=1; l[0]=0;
-      VALUE v001100 = f(l);
-      l[3]=0; l[2]=1; l[1]=0; l[0]=0; //3-1
-      VALUE v011001 = f(l);
-      l[3]=0; l[2]=0; l[1]=0; l[0]=1; //3-1
-      VALUE v110100 = f(l); 
-      l[3]=0; l[2]=0; l[1]=0; l[0]=0;
-      VALUE v111111 = f(l);
-      l[3]=1; l[2]=1; l[1]=0; l[0]=0;
-      VALUE v100001 = f(l); 
-      l[3]=1; l[2]=0; l[1]=1; l[0]=0;
-      VALUE v010010 = f(l); 
-      l[3]=0; l[2]=0; l[1]=1; l[0]=2;
-      VALUE v100000 = f(l); 
-      l[3]=0; l[2]=1; l[1]=0; l[0]=2;
-      VALUE v010000 = f(l);
-      l[3]=0; l[2]=0; l[1]=1; l[0]=0; //3-1
-      VALUE v101010 = f(l); 
-
-
-      for(l[0]=0;l[0]<f.shape(0);++l[0]) {
-         for(l[1]=0;l[1]<f.shape(1);++l[1]) { 
-            for(l[2]=0;l[2]<f.shape(2);++l[2]) { 
-               for(l[3]=0;l[3]<f.shape(3);++l[3]) {
-                  if((l[2]!=l[3] && l[1]!=l[3] && l[0]!=l[3] && l[1]!=l[2] && l[0]!=l[2]  && l[0]!=l[1] && f(l)!=v000000) ) {std::cout<<"1"; return false;}
-                  if((l[2]!=l[3] && l[1]!=l[3] && l[0]!=l[3] && l[1]!=l[2] && l[0]!=l[2]  && l[0]==l[1] && f(l)!=v000001) ) {std::cout<<"1"; return false;}
-                  if((l[2]!=l[3] && l[1]!=l[3] && l[0]!=l[3] && l[1]!=l[2] && l[0]==l[2]  && l[0]!=l[1] && f(l)!=v000010) ) {std::cout<<"1"; return false;}
-                  if((l[2]!=l[3] && l[1]!=l[3] && l[0]!=l[3] && l[1]==l[2] && l[0]!=l[2]  && l[0]!=l[1] && f(l)!=v000100) ) {std::cout<<"1"; return false;}
-                  if((l[2]!=l[3] && l[1]!=l[3] && l[0]!=l[3] && l[1]==l[2] && l[0]==l[2]  && l[0]==l[1] && f(l)!=v000111) ) {std::cout<<"1"; return false;}
-                  
-                  if((l[2]!=l[3] && l[1]!=l[3] && l[0]==l[3] && l[1]!=l[2] && l[0]!=l[2]  && l[0]!=l[1] && f(l)!=v001000) ) {std::cout<<"1"; return false;}
-                  if((l[2]!=l[3] && l[1]!=l[3] && l[0]==l[3] && l[1]==l[2] && l[0]!=l[2]  && l[0]!=l[1] && f(l)!=v001100) ) {std::cout<<"1"; return false;}
-                  
-                  if((l[2]!=l[3] && l[1]==l[3] && l[0]!=l[3] && l[1]!=l[2] && l[0]==l[2]  && l[0]!=l[1] && f(l)!=v010010) ) {std::cout<<"1"; return false;}
-                  if((l[2]!=l[3] && l[1]==l[3] && l[0]!=l[3] && l[1]!=l[2] && l[0]!=l[2]  && l[0]!=l[1] && f(l)!=v010000) ) {std::cout<<"1"; return false;}
-                  if((l[2]!=l[3] && l[1]==l[3] && l[0]==l[3] && l[1]!=l[2] && l[0]!=l[2]  && l[0]==l[1] && f(l)!=v011001) ) {std::cout<<"1"; return false;}
-                  
-                  if((l[2]==l[3] && l[1]==l[3] && l[0]!=l[3] && l[1]==l[2] && l[0]!=l[2]  && l[0]!=l[1] && f(l)!=v110100) ) {std::cout<<"1"; return false;}
-                  if((l[2]==l[3] && l[1]==l[3] && l[0]==l[3] && l[1]==l[2] && l[0]==l[2]  && l[0]==l[1] && f(l)!=v111111) ) {std::cout<<"1"; return false;}
-                  
-                  if((l[2]==l[3] && l[1]!=l[3] && l[0]!=l[3] && l[1]!=l[2] && l[0]!=l[2]  && l[0]==l[1] && f(l)!=v100001) ) {std::cout<<"1"; return false;}
-                  if((l[2]==l[3] && l[1]!=l[3] && l[0]!=l[3] && l[1]!=l[2] && l[0]!=l[2]  && l[0]!=l[1] && f(l)!=v100000) ) {std::cout<<"1"; return false;}
-                  if((l[2]==l[3] && l[1]!=l[3] && l[0]==l[3] && l[1]!=l[2] && l[0]==l[2]  && l[0]!=l[1] && f(l)!=v101010) ) {std::cout<<"1"; return false;}
-               }
-            }
-         }
+      const VALUE value = f(shapeWalker.coordinateTuple().begin());
+      if(valueOfPartition.insert(std::make_pair(partition, value)).first->second != value) {
+         return false;
       }
-      return true;
-   }
-   else{
-      return false;
    }
+   return true;
 }
 
 template<class FUNCTION, class VALUE, class INDEX, class LABEL>
-- 
2.43.0


From 8eee130f4189218b335d0864071346f2dc6b20c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:41 +0000
Subject: [PATCH 016/168] fix: switched order walker ran before the beginning
 of an empty coordinate tuple

---
 include/opengm/utilities/indexing.hxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/opengm/utilities/indexing.hxx b/include/opengm/utilities/indexing.hxx
index f85bc40..1f1f367 100644
--- a/include/opengm/utilities/indexing.hxx
+++ b/include/opengm/utilities/indexing.hxx
@@ -166,6 +166,9 @@ namespace opengm {
       coordinateTuple_(dimension, 0),
       dimension_(dimension) { }
       ShapeWalkerSwitchedOrder & operator++() {
+         if(dimension_ == 0) {
+            return *this;
+         }
          for(size_t d = dimension_-1; true; --d) {
             if( size_t(coordinateTuple_[d]) != (size_t(shapeBegin_[d]) - size_t(1)) ) {
                ++coordinateTuple_[d];
-- 
2.43.0


From 748067ea8f3753a8d4d5cdf1498419e53ffc3eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:54 +0000
Subject: [PATCH 017/168] fix: truncated difference predicates accepted
 non-zero single label tables

---
 include/opengm/functions/function_properties_base.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/opengm/functions/function_properties_base.hxx b/include/opengm/functions/function_properties_base.hxx
index 27c8d0a..6faf674 100644
--- a/include/opengm/functions/function_properties_base.hxx
+++ b/include/opengm/functions/function_properties_base.hxx
@@ -310,7 +310,7 @@ FunctionBase<FUNCTION, VALUE, INDEX, LABEL>::isTruncatedSquaredDifference() cons
       //get possible weight and possible truncation
       //(the value at the biggest possible distance is the truncation value)
       VALUE weight=VALUE(0);
-      VALUE truncated=f(c);
+      VALUE truncated=VALUE(0);
       if(f.shape(0)>1 || f.shape(1)>1) {
          const size_t longer= f.shape(0)<f.shape(1) ? 1 : 0;
          c[longer]=1;
@@ -374,7 +374,7 @@ FunctionBase<FUNCTION, VALUE, INDEX, LABEL>::isTruncatedAbsoluteDifference() con
       //get possible weight and possible truncation
       //(the value at the biggest possible distance is the truncation value)
       VALUE weight=VALUE(0);
-      VALUE truncated=f(c);
+      VALUE truncated=VALUE(0);
       if(f.shape(0)>1 || f.shape(1)>1) {
          const size_t longer= f.shape(0)<f.shape(1) ? 1 : 0;
          c[longer]=1;
-- 
2.43.0


From 5eaa5f66545213ec8a743184d676b0224413c9a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:54 +0000
Subject: [PATCH 018/168] fix: IsPotts property read past the end of tables
 with a single entry

---
 include/opengm/functions/function_properties.hxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/opengm/functions/function_properties.hxx b/include/opengm/functions/function_properties.hxx
index 8bee98e..5830975 100644
--- a/include/opengm/functions/function_properties.hxx
+++ b/include/opengm/functions/function_properties.hxx
@@ -64,6 +64,9 @@ class BinaryFunctionProperties<BinaryProperties::IsPotts, FUNCTION> {
    OPENGM_FUNCTION_TYPEDEF_MACRO;
 public:
    static bool op(const FunctionType & f) {
+      if (f.size() <= 2) {
+         return true;
+      }
       ShapeWalker<FunctionShapeIteratorType> shapeWalker(f.functionShapeBegin(), f.dimension());
       ValueType vEqual = f(shapeWalker.coordinateTuple().begin());
       ++shapeWalker;
-- 
2.43.0


From 0d3bcea1f2c7bca1cafbf06854729e849c07866e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:07 +0000
Subject: [PATCH 019/168] fix: neutral elements of Minimizer and Maximizer were
 zero for integral values

---
 include/opengm/operations/maximizer.hxx | 8 ++++----
 include/opengm/operations/minimizer.hxx | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/opengm/operations/maximizer.hxx b/include/opengm/operations/maximizer.hxx
index 7eb545d..bd0753a 100644
--- a/include/opengm/operations/maximizer.hxx
+++ b/include/opengm/operations/maximizer.hxx
@@ -12,22 +12,22 @@ struct Maximizer
    /// neutral element (with return)
    template<class T>
    static T neutral()
-      { return -std::numeric_limits<T>::infinity(); }
+      { return std::numeric_limits<T>::has_infinity ? -std::numeric_limits<T>::infinity() : std::numeric_limits<T>::min(); }
 
    /// neutral element (call by reference)
    template<class T>
    static void neutral(T& out)
-      { out = -std::numeric_limits<T>::infinity(); }
+      { out = std::numeric_limits<T>::has_infinity ? -std::numeric_limits<T>::infinity() : std::numeric_limits<T>::min(); }
 
    /// inverse neutral element (with return)
    template<class T>
    static T ineutral()
-      { return std::numeric_limits<T>::infinity(); }
+      { return std::numeric_limits<T>::has_infinity ? std::numeric_limits<T>::infinity() : std::numeric_limits<T>::max(); }
 
    /// inverse neutral element (call by reference)
    template<class T>
    static void ineutral(T& out)
-      { out = std::numeric_limits<T>::infinity(); }
+      { out = std::numeric_limits<T>::has_infinity ? std::numeric_limits<T>::infinity() : std::numeric_limits<T>::max(); }
 
    /// operation (in-place)
    template<class T1, class T2>
diff --git a/include/opengm/operations/minimizer.hxx b/include/opengm/operations/minimizer.hxx
index d8bd555..83e0c2b 100644
--- a/include/opengm/operations/minimizer.hxx
+++ b/include/opengm/operations/minimizer.hxx
@@ -14,20 +14,20 @@ struct Minimizer
    /// neutral element (with return)
    template<class T>
    static T neutral()
-      { return std::numeric_limits<T>::infinity(); }
+      { return std::numeric_limits<T>::has_infinity ? std::numeric_limits<T>::infinity() : std::numeric_limits<T>::max(); }
    /// neutral element (call by reference)
    template<class T>
    static void neutral(T& out)
-      { out = std::numeric_limits<T>::infinity(); }
+      { out = std::numeric_limits<T>::has_infinity ? std::numeric_limits<T>::infinity() : std::numeric_limits<T>::max(); }
 
    /// inverse neutral element (with return)
    template<class T>
    static T ineutral()
-      { return -std::numeric_limits<T>::infinity(); }
+      { return std::numeric_limits<T>::has_infinity ? -std::numeric_limits<T>::infinity() : std::numeric_limits<T>::min(); }
    /// inverse neutral element (call by reference)
    template<class T>
    static void ineutral(T& out)
-      { out = -std::numeric_limits<T>::infinity(); }
+      { out = std::numeric_limits<T>::has_infinity ? -std::numeric_limits<T>::infinity() : std::numeric_limits<T>::min(); }
       
    /// operation (in-place)
    template<class T1, class T2>
-- 
2.43.0


From 327eca231b9737173fe459136b1178d27a02f144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:33 +0000
Subject: [PATCH 020/168] fix: in-place inverse of Integrator had no effect

---
 include/opengm/operations/integrator.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/operations/integrator.hxx b/include/opengm/operations/integrator.hxx
index aa2305f..1b7be65 100644
--- a/include/opengm/operations/integrator.hxx
+++ b/include/opengm/operations/integrator.hxx
@@ -44,7 +44,7 @@ struct Integrator
    /// inverse operation (in-place)
    template<class T1, class T2>
       static void iop(const T1& in1,  T2& out)
-         { out - in1; }
+         { out -= in1; }
 
    /// inverse operation (call by reference)
    template<class T1,class T2,class T3>
-- 
2.43.0


From e4a05e8ff6833b0f8609c0c9911efe574dc87775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:33 +0000
Subject: [PATCH 021/168] fix: Logsumexp ignored its second operand and did not
 keep the neutral element

---
 include/opengm/operations/logsumexp.hxx | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/include/opengm/operations/logsumexp.hxx b/include/opengm/operations/logsumexp.hxx
index 87f4d70..b652d7d 100644
--- a/include/opengm/operations/logsumexp.hxx
+++ b/include/opengm/operations/logsumexp.hxx
@@ -37,9 +37,14 @@ struct Logsumexp
       static void op(const T1& in1, T2& out)
 //         { out = log(exp(out) + exp(in1)); }
    {
-      T2 theMax = std::max(in1, out);
-      T2 theMin = std::min(in1, out);
-      out = theMax + log(1 + exp(theMin - theMax));  // numerically better
+      const T2 theMax = in1 < out ? out : in1;
+      const T2 theMin = in1 < out ? in1 : out;
+      if(theMin == neutral<T2>()) {
+         out = theMax; // also if both are neutral
+      }
+      else {
+         out = theMax + log(1 + exp(theMin - theMax));  // numerically better
+      }
    }
 
    /// operation (not in-place)
@@ -47,9 +52,14 @@ struct Logsumexp
       static void op(const T1 in1, const T2 in2, T3& out)
 //         { out = log(exp(in1) + exp(in2)); }
    {
-      T2 theMax = std::max(in1, out);
-      T2 theMin = std::min(in1, out);
-      out = theMax + log(1 + exp(theMin - theMax));  // numerically better
+      const T3 theMax = in1 < in2 ? in2 : in1;
+      const T3 theMin = in1 < in2 ? in1 : in2;
+      if(theMin == neutral<T3>()) {
+         out = theMax; // also if both are neutral
+      }
+      else {
+         out = theMax + log(1 + exp(theMin - theMax));  // numerically better
+      }
    }
 
    /// inverse operation (in-place)
-- 
2.43.0


From fc4f0def180595cc2ef4183fa28d8d656e6cf839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:46 +0000
Subject: [PATCH 022/168] fix: Accumulation::neutral returned the size of the
 state

---
 include/opengm/utilities/accumulation.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/utilities/accumulation.hxx b/include/opengm/utilities/accumulation.hxx
index 61039aa..f1316c8 100644
--- a/include/opengm/utilities/accumulation.hxx
+++ b/include/opengm/utilities/accumulation.hxx
@@ -58,7 +58,7 @@ template<class Value, class State, class Accumulator>
 inline typename Accumulation<Value, State, Accumulator>::ValueType
 Accumulation<Value, State, Accumulator>::neutral() const
 {
-   return state_.size();
+   return Accumulator::template neutral<ValueType>();
 }
    
 template<class Value, class State, class Accumulator>
-- 
2.43.0


From eace5c86ab12c6abad6630d8fa3d51fc7daf306f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:19 +0000
Subject: [PATCH 023/168] fix: no optimal state was recorded if all accumulated
 values are neutral

---
 include/opengm/utilities/accumulation.hxx | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/opengm/utilities/accumulation.hxx b/include/opengm/utilities/accumulation.hxx
index f1316c8..129c71d 100644
--- a/include/opengm/utilities/accumulation.hxx
+++ b/include/opengm/utilities/accumulation.hxx
@@ -110,7 +110,8 @@ Accumulation<Value, State, Accumulator>::operator()
    const ValueType& value,
    const opengm::FastSequence<size_t>& state
 ) {
-   if(Accumulator::bop(value, value_)) {
+   // the first state also attains the value if the value is neutral
+   if(Accumulator::bop(value, value_) || (Accumulator::hasbop() && state_.size() == 0)) {
       state_ = state;
       OPENGM_ASSERT(state_.size()==state.size());
    }
@@ -127,7 +128,8 @@ Accumulation<Value, State, Accumulator>::operator()
    const CONTAINER & state
 )
 {
-   if(Accumulator::bop(value, value_)) {
+   // the first state also attains the value if the value is neutral
+   if(Accumulator::bop(value, value_) || (Accumulator::hasbop() && state_.size() == 0)) {
       state_.resize(state.size());
       for(size_t i=0;i<state.size();++i) {
          state_[i] = state[i];
-- 
2.43.0


From c373912d53c2894465849f2ab3734058939763ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:48 +0000
Subject: [PATCH 024/168] fix: independent factors with narrow label types
 could not be assigned from factors or offset-subtracted

---
 include/opengm/graphicalmodel/graphicalmodel_factor.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/opengm/graphicalmodel/graphicalmodel_factor.hxx b/include/opengm/graphicalmodel/graphicalmodel_factor.hxx
index bc7723e..b2e392f 100755
--- a/include/opengm/graphicalmodel/graphicalmodel_factor.hxx
+++ b/include/opengm/graphicalmodel/graphicalmodel_factor.hxx
@@ -1233,7 +1233,7 @@ IndependentFactor<T, I, L>::operator=
    }
    else {
       size_t indexToScalar[]={0};
-      function_=ExplicitFunction<T>(src(indexToScalar));
+      function_=FunctionType(src(indexToScalar));
    }
   return * this;
 }
@@ -1327,7 +1327,7 @@ IndependentFactor<T, I, L> ::subtractOffset() {
    }
    else {
       T v;
-      std::vector<size_t> states;
+      std::vector<LabelType> states;
       opengm::accumulate<Minimizer>(*this, v, states);
       (*this) -= v;
    }
-- 
2.43.0


From ad9d600d071ccd57fc23b80da2ea1907dc0ba146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:48 +0000
Subject: [PATCH 025/168] fix: resizing an unallocated Marray to a scalar
 ignored the given value

---
 include/opengm/datastructures/marray/marray.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/datastructures/marray/marray.hxx b/include/opengm/datastructures/marray/marray.hxx
index 0c91d2f..becb2dd 100644
--- a/include/opengm/datastructures/marray/marray.hxx
+++ b/include/opengm/datastructures/marray/marray.hxx
@@ -3894,7 +3894,7 @@ Marray<T, A>::resize
        *this=Marray<T,A>((*this).operator()(0));
        }
        else{
-          *this=Marray<T,A>(T());
+          *this=Marray<T,A>(value);
        }
 
     }
-- 
2.43.0


From a27bcb20d79d8ee58f752f31fe21fdd9abf9cad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:22 +0000
Subject: [PATCH 026/168] fix: operations on factors without variables wrote
 outside of the scalar value table

---
 include/opengm/functions/operations/operator.hxx | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/opengm/functions/operations/operator.hxx b/include/opengm/functions/operations/operator.hxx
index 56cda43..60e0107 100644
--- a/include/opengm/functions/operations/operator.hxx
+++ b/include/opengm/functions/operations/operator.hxx
@@ -182,7 +182,6 @@ void BinaryOperationImpl<A, B, C, OP>::op
    }
    else if(dimA == 0 && dimB == 0) {
       const size_t scalarIndex=0;
-      c.resize(&scalarIndex, &scalarIndex+1);
       c(&scalarIndex) = op(a(&scalarIndex), b(&scalarIndex));
    }
    else if(dimA == 0) {
@@ -252,7 +251,6 @@ void BinaryOperationInplaceImpl<A, B, OP>::op
       }
       else {
          const size_t scalarIndex=0;
-         a.resize(&scalarIndex, &scalarIndex+1);
          a(&scalarIndex) = op(a(&scalarIndex), b(&scalarIndex));
          via.assign(viaNew.begin(),viaNew.end());
       }
@@ -299,7 +297,7 @@ void UnaryOperationImpl<A, B, OP>::op
    }
    else {
       const size_t scalarIndex=0;
-      b.resize(&scalarIndex, &scalarIndex+1);
+      b.resize(&scalarIndex, &scalarIndex);
       b(&scalarIndex) = op(a(&scalarIndex));
    }
 }
-- 
2.43.0


From 0d0554f7698b251daa8c4abf506b4c4b4fe9ea05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:22 +0000
Subject: [PATCH 027/168] fix: accumulating a factor without variables ignored
 its value

---
 include/opengm/functions/operations/accumulator.hxx | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/include/opengm/functions/operations/accumulator.hxx b/include/opengm/functions/operations/accumulator.hxx
index 2e12443..3bcb31b 100644
--- a/include/opengm/functions/operations/accumulator.hxx
+++ b/include/opengm/functions/operations/accumulator.hxx
@@ -198,8 +198,7 @@ void AccumulateSomeImpl<A, B, ACC>::op
    else {
       Accumulation<ValueType, LabelType, ACC> acc;
       size_t indexSequenceToScalar[] = {0};
-      ValueType accRes=static_cast<ValueType>(0.0);
-      acc(accRes);
+      acc(a(indexSequenceToScalar));
       size_t shapeToScalarArray[] = {0};
       b.resize(shapeToScalarArray, shapeToScalarArray);
       b(indexSequenceToScalar) = acc.value();
@@ -290,10 +289,9 @@ void AccumulateSomeInplaceImpl<A, ACC>::op
    }
    else {
       Accumulation<ValueType, LabelType, ACC> acc;
-      ValueType accRes=static_cast<ValueType>(0.0);
-      acc(accRes);
-      a.assign();
-      a(0) = acc.value();
+      size_t indexSequenceToScalar[] = {0};
+      acc(a(indexSequenceToScalar));
+      a(indexSequenceToScalar) = acc.value();
    }
    OPENGM_ASSERT(a.dimension() == viA.size());
    OPENGM_ASSERT(a.dimension() != 0 || (a.dimension() == 0 && a.size() == 1));
-- 
2.43.0


From 229951d553292e0519e0c19f37f02ab21677beaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:29 +0000
Subject: [PATCH 028/168] fix: assigning a factor did not carry over the model
 it belongs to

---
 include/opengm/graphicalmodel/graphicalmodel_factor.hxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/opengm/graphicalmodel/graphicalmodel_factor.hxx b/include/opengm/graphicalmodel/graphicalmodel_factor.hxx
index b2e392f..dbe631c 100755
--- a/include/opengm/graphicalmodel/graphicalmodel_factor.hxx
+++ b/include/opengm/graphicalmodel/graphicalmodel_factor.hxx
@@ -485,6 +485,7 @@ Factor<GRAPHICAL_MODEL>::operator=
 )
 {
    if(&src != this) {
+      gm_ = src.gm_;
       functionTypeId_ = src.functionTypeId_;
       functionIndex_ = src.functionIndex_;
       //variableIndices_ = src.variableIndices_;
-- 
2.43.0


From 0e29f0bbf2c5b98b17c0f9fec464f5b2655043ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:40 +0000
Subject: [PATCH 029/168] fix: canonical view of a product model multiplied it
 by zero

---
 include/opengm/utilities/canonical_view.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/opengm/utilities/canonical_view.hxx b/include/opengm/utilities/canonical_view.hxx
index cd3a342..d0f6f74 100644
--- a/include/opengm/utilities/canonical_view.hxx
+++ b/include/opengm/utilities/canonical_view.hxx
@@ -219,7 +219,7 @@ namespace canonical_view_internal {
 ///
 ///   - all variables are associated with exactly one unary factor (multiple
 ///     unary factors get squashed into one, a non-existent unary factor is
-///     mapped to a zero-constant factor)
+///     mapped to a constant factor with the neutral value of the operation)
 ///
 ///   - there is at most one factor for a given set of variables (multiple
 ///     factors attached to the clique are squashed into one factor)
@@ -279,7 +279,7 @@ public:
 			switch (unaryFactors[i].size()) {
 			case 0: { // Create new “empty” factor.
 				LabelType shape[1] = { gm.numberOfLabels(i) };
-				ConstFuncType func(shape, shape+1, 0);
+				ConstFuncType func(shape, shape+1, GM::OperatorType::template neutral<ValueType>());
 				fid = this->addFunction(func);
 				break;
 			}
-- 
2.43.0


From 29ccb7208d474a94bfd8ef3b3490c1661537a955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:07 +0000
Subject: [PATCH 030/168] fix: comparing indicator variables was not an order
 although lists of them are sorted with it

The comparison is documented to use the first pair of variable and label that
differs, but every later pair was compared, too.
---
 .../datastructures/indicator_variable.hxx     | 42 ++++++++-----------
 1 file changed, 18 insertions(+), 24 deletions(-)

diff --git a/include/opengm/datastructures/indicator_variable.hxx b/include/opengm/datastructures/indicator_variable.hxx
index e151794..c6b1a77 100644
--- a/include/opengm/datastructures/indicator_variable.hxx
+++ b/include/opengm/datastructures/indicator_variable.hxx
@@ -575,14 +575,13 @@ bool operator<(const IndicatorVariable<INDEX1_TYPE, LABEL1_TYPE>& indicatorVar1,
             return false;
          }
          for(size_t i = 0; i < indicatorVar1.variableLabelPairs_.size(); ++i) {
-            if(indicatorVar1.variableLabelPairs_[i].first > indicatorVar2.variableLabelPairs_[i].first) {
-               return false;
-            } else if(indicatorVar1.variableLabelPairs_[i].first == indicatorVar2.variableLabelPairs_[i].first) {
-               if(indicatorVar1.variableLabelPairs_[i].second >= indicatorVar2.variableLabelPairs_[i].second) {
-                  return false;
-               }
+            if(indicatorVar1.variableLabelPairs_[i].first != indicatorVar2.variableLabelPairs_[i].first) {
+               return indicatorVar1.variableLabelPairs_[i].first < indicatorVar2.variableLabelPairs_[i].first;
+            } else if(indicatorVar1.variableLabelPairs_[i].second != indicatorVar2.variableLabelPairs_[i].second) {
+               return indicatorVar1.variableLabelPairs_[i].second < indicatorVar2.variableLabelPairs_[i].second;
             }
          }
+         return false;
       }
       return true;
    }
@@ -603,14 +602,13 @@ bool operator>(const IndicatorVariable<INDEX1_TYPE, LABEL1_TYPE>& indicatorVar1,
             return false;
          }
          for(size_t i = 0; i < indicatorVar1.variableLabelPairs_.size(); ++i) {
-            if(indicatorVar1.variableLabelPairs_[i].first < indicatorVar2.variableLabelPairs_[i].first) {
-               return false;
-            } else if(indicatorVar1.variableLabelPairs_[i].first == indicatorVar2.variableLabelPairs_[i].first) {
-               if(indicatorVar1.variableLabelPairs_[i].second <= indicatorVar2.variableLabelPairs_[i].second) {
-                  return false;
-               }
+            if(indicatorVar1.variableLabelPairs_[i].first != indicatorVar2.variableLabelPairs_[i].first) {
+               return indicatorVar1.variableLabelPairs_[i].first > indicatorVar2.variableLabelPairs_[i].first;
+            } else if(indicatorVar1.variableLabelPairs_[i].second != indicatorVar2.variableLabelPairs_[i].second) {
+               return indicatorVar1.variableLabelPairs_[i].second > indicatorVar2.variableLabelPairs_[i].second;
             }
          }
+         return false;
       }
       return true;
    }
@@ -628,12 +626,10 @@ bool operator<=(const IndicatorVariable<INDEX1_TYPE, LABEL1_TYPE>& indicatorVar1
       }
       if(indicatorVar1.variableLabelPairs_.size() == indicatorVar2.variableLabelPairs_.size()) {
          for(size_t i = 0; i < indicatorVar1.variableLabelPairs_.size(); ++i) {
-            if(indicatorVar1.variableLabelPairs_[i].first > indicatorVar2.variableLabelPairs_[i].first) {
-               return false;
-            } else if(indicatorVar1.variableLabelPairs_[i].first == indicatorVar2.variableLabelPairs_[i].first) {
-               if(indicatorVar1.variableLabelPairs_[i].second > indicatorVar2.variableLabelPairs_[i].second) {
-                  return false;
-               }
+            if(indicatorVar1.variableLabelPairs_[i].first != indicatorVar2.variableLabelPairs_[i].first) {
+               return indicatorVar1.variableLabelPairs_[i].first < indicatorVar2.variableLabelPairs_[i].first;
+            } else if(indicatorVar1.variableLabelPairs_[i].second != indicatorVar2.variableLabelPairs_[i].second) {
+               return indicatorVar1.variableLabelPairs_[i].second < indicatorVar2.variableLabelPairs_[i].second;
             }
          }
       }
@@ -653,12 +649,10 @@ bool operator>=(const IndicatorVariable<INDEX1_TYPE, LABEL1_TYPE>& indicatorVar1
       }
       if(indicatorVar1.variableLabelPairs_.size() == indicatorVar2.variableLabelPairs_.size()) {
          for(size_t i = 0; i < indicatorVar1.variableLabelPairs_.size(); ++i) {
-            if(indicatorVar1.variableLabelPairs_[i].first < indicatorVar2.variableLabelPairs_[i].first) {
-               return false;
-            } else if(indicatorVar1.variableLabelPairs_[i].first == indicatorVar2.variableLabelPairs_[i].first) {
-               if(indicatorVar1.variableLabelPairs_[i].second < indicatorVar2.variableLabelPairs_[i].second) {
-                  return false;
-               }
+            if(indicatorVar1.variableLabelPairs_[i].first != indicatorVar2.variableLabelPairs_[i].first) {
+               return indicatorVar1.variableLabelPairs_[i].first > indicatorVar2.variableLabelPairs_[i].first;
+            } else if(indicatorVar1.variableLabelPairs_[i].second != indicatorVar2.variableLabelPairs_[i].second) {
+               return indicatorVar1.variableLabelPairs_[i].second > indicatorVar2.variableLabelPairs_[i].second;
             }
          }
       }
-- 
2.43.0


From cea7dcd8adc059cff0b621f31b5493bb2db64b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:13 +0000
Subject: [PATCH 031/168] fix: constraints on weights dropped their bounds

---
 include/opengm/graphicalmodel/weights.hxx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/opengm/graphicalmodel/weights.hxx b/include/opengm/graphicalmodel/weights.hxx
index ee3ed2a..b9ce372 100644
--- a/include/opengm/graphicalmodel/weights.hxx
+++ b/include/opengm/graphicalmodel/weights.hxx
@@ -214,7 +214,7 @@ namespace learning{
         }
 
         const std::vector<size_t> & constraintSizes()const{
-            return cLowerBounds_;
+            return cSize_;
         }
         const std::vector<T> & constraintLowerBounds()const{
             return cLowerBounds_;
@@ -247,6 +247,8 @@ namespace learning{
             // increment the cOffset_ for the next constraint which
             // could be added by the user
             cOffset_ +=cSize;
+            cLowerBounds_.push_back(lowerBound);
+            cUpperBounds_.push_back(upperBound);
 
             // copy indices and coefficients
             for( ;indicesBegin!=indicesEnd; ++indicesBegin,++coeffBegin){
-- 
2.43.0


From 14d2e5cde5c7e99252fcf67916554eabe61ef604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:26 +0000
Subject: [PATCH 032/168] fix: StaticSimpleDiscreteSpace did not compile and
 loaded a wrong number of variables

---
 .../graphicalmodel/space/static_simplediscretespace.hxx      | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/opengm/graphicalmodel/space/static_simplediscretespace.hxx b/include/opengm/graphicalmodel/space/static_simplediscretespace.hxx
index 793d08a..331088f 100644
--- a/include/opengm/graphicalmodel/space/static_simplediscretespace.hxx
+++ b/include/opengm/graphicalmodel/space/static_simplediscretespace.hxx
@@ -53,7 +53,6 @@ StaticSimpleDiscreteSpace<LABELS,I, L>::assignDense(
    Iterator end
 ) {
    numberOfVariables_=std::distance(begin, end);
-   numberOfVariables_=static_cast<L>(*begin);
    while(begin!=end) {
       if(LABELS!=static_cast<size_t>(*begin)) {
          throw opengm::RuntimeError("*begin==LABELS_ is violated \
@@ -80,6 +79,8 @@ StaticSimpleDiscreteSpace<LABELS,I, L>::addVariable(
       throw opengm::RuntimeError("numberOfLabels==LABELS is violated \
       in StaticSimpleDiscreteSpace::addVariable ");
    }
+   ++numberOfVariables_;
+   return numberOfVariables_ - 1;
 }
 
 template<size_t LABELS,class I, class L>
@@ -93,7 +94,7 @@ inline typename StaticSimpleDiscreteSpace<LABELS,I, L>::LabelType
 StaticSimpleDiscreteSpace<LABELS,I, L>::numberOfLabels(
    const IndexType dimension
 ) const {
-   return static_cast<L> LABELS;
+   return static_cast<L>(LABELS);
 }
 
 template<size_t LABELS,class I, class L>
-- 
2.43.0


From db34589e76671a224985d821d4e2a37fa3f73fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:26 +0000
Subject: [PATCH 033/168] fix: deserializing a weighted sum of functions had no
 effect

---
 .../learnable/lweightedsum_of_functions.hxx       | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/include/opengm/functions/learnable/lweightedsum_of_functions.hxx b/include/opengm/functions/learnable/lweightedsum_of_functions.hxx
index 62314f4..feb0899 100644
--- a/include/opengm/functions/learnable/lweightedsum_of_functions.hxx
+++ b/include/opengm/functions/learnable/lweightedsum_of_functions.hxx
@@ -10,6 +10,7 @@
 #include "opengm/functions/function_registration.hxx"
 #include "opengm/functions/function_properties_base.hxx"
 #include "opengm/datastructures/marray/marray.hxx"
+#include "opengm/utilities/indexing.hxx"
 #include "opengm/graphicalmodel/weights.hxx"
 
 namespace opengm {
@@ -215,9 +216,11 @@ FunctionSerialization<opengm::functions::learnable::LWeightedSumOfFunctions<T, I
 
    // save features  
    for(size_t i=0; i<src.weightIDs_.size();++i){
-      for(size_t j=0; j<src.feat_[i].size();++j){
-         *valueOutIterator = src.feat_[i](j);
+      ShapeWalker<typename std::vector<L>::const_iterator> walker(src.shape_.begin(), src.shape_.size());
+      for(size_t j=0; j<src.size();++j){
+         *valueOutIterator = src.feat_[i](walker.coordinateTuple().begin());
          ++valueOutIterator;
+         ++walker;
       }
    }
 }
@@ -252,11 +255,17 @@ FunctionSerialization<opengm::functions::learnable::LWeightedSumOfFunctions<T, I
    //read features
    std::vector<marray::Marray<T> > feat(numW,marray::Marray<T>(shape.begin(),shape.end()));
    for(size_t i=0; i<numW;++i){   
+      ShapeWalker<typename std::vector<L>::const_iterator> walker(shape.begin(), shape.size());
       for(size_t j=0; j<size;++j){
-         feat[i](j)=*valueInIterator;
+         feat[i](walker.coordinateTuple().begin())=*valueInIterator;
          ++valueInIterator;
+         ++walker;
       }
    }   
+
+   dst.shape_=shape;
+   dst.weightIDs_=parameterIDs;
+   dst.feat_=feat;
 }
 
 } // namespace opengm
-- 
2.43.0


From d88c41393cde90467989e3a958db0efe13e667b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:26 +0000
Subject: [PATCH 034/168] fix: functions of the first type were lost when
 loading a file with unknown unused function types

---
 include/opengm/graphicalmodel/graphicalmodel_hdf5.hxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/opengm/graphicalmodel/graphicalmodel_hdf5.hxx b/include/opengm/graphicalmodel/graphicalmodel_hdf5.hxx
index 8baaf4e..86c7541 100644
--- a/include/opengm/graphicalmodel/graphicalmodel_hdf5.hxx
+++ b/include/opengm/graphicalmodel/graphicalmodel_hdf5.hxx
@@ -461,7 +461,8 @@ void load
       //gm.numbersOfStates_.resize(serializationIndicies[2]);
       gm.factors_.resize(serializationIndicies[3], FactorType(&gm));
       numberOfFunctions.resize(serializationIndicies[4]);
-      functionIndexLookup.resize(serializationIndicies[4]);
+      // function types of the file which are not in the type list of gm map to an invalid index
+      functionIndexLookup.resize(serializationIndicies[4], static_cast<opengm::UInt64Type>(GM::NrOfFunctionTypes));
       typeRegisterId.resize(serializationIndicies[4]);
       for(size_t i=0; i<numberOfFunctions.size(); ++i) {
          //const size_t fRegId=GetFunctionRegistration<GM, 0, GM::NrOfFunctionTypes, meta::EqualNumber<GM::NrOfFunctionTypes, 0>::value>::get(i);
-- 
2.43.0


From a27df6a5be098d5f74c7fca58e25da6d9c3769b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:30 +0000
Subject: [PATCH 035/168] fix: loading into a used model kept its order,
 adjacency and functions

---
 include/opengm/graphicalmodel/graphicalmodel_hdf5.hxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/opengm/graphicalmodel/graphicalmodel_hdf5.hxx b/include/opengm/graphicalmodel/graphicalmodel_hdf5.hxx
index 86c7541..775b287 100644
--- a/include/opengm/graphicalmodel/graphicalmodel_hdf5.hxx
+++ b/include/opengm/graphicalmodel/graphicalmodel_hdf5.hxx
@@ -185,6 +185,8 @@ struct SaveAndLoadFunctions<GM, IX, DX, false>
       const opengm::UInt64Type loadValueTypeAs,
       bool oldFormat=false
    ) {
+      // discard the functions of a previous model
+      gm.template functions<IX>().clear();
       if(useFunction[IX]==true) {
          size_t mappedIndex;
          bool foundIndex=false;
@@ -515,6 +517,7 @@ void load
    (group, gm, numberOfFunctions,functionIndexLookup,useFunction,loadValueTypeAs,oldFormat);
 
    gm.factorsVis_.clear();
+   gm.order_ = 0;
 
    if(gm.factors_.size() != 0) {
 
@@ -553,6 +556,7 @@ void load
 
    marray::hdf5::closeGroup(group);
    marray::hdf5::closeFile(file);
+   gm.variableFactorAdjaceny_.clear();
    gm.variableFactorAdjaceny_.resize(gm.numberOfVariables());
    // adjacenies
 
-- 
2.43.0


From d0c1801549fb399426726c5c26e9ad958bc14531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:40 +0000
Subject: [PATCH 036/168] fix: marray iterator decremented from the end of a
 non-simple view addressed a wrong element

---
 include/opengm/datastructures/marray/marray.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/datastructures/marray/marray.hxx b/include/opengm/datastructures/marray/marray.hxx
index becb2dd..da71751 100644
--- a/include/opengm/datastructures/marray/marray.hxx
+++ b/include/opengm/datastructures/marray/marray.hxx
@@ -4384,7 +4384,7 @@ Iterator<T, isConst, A>::operator--()
         --pointer_;
     }
     else {
-        if(index_ == view_->size()) {
+        if(index_ + 1 == view_->size()) {
             // decrement from end iterator
             --pointer_;
             if(view_->coordinateOrder() == LastMajorOrder) {
-- 
2.43.0


From cea480b0009c934779a94bc2d560788edee51888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:24 +0000
Subject: [PATCH 037/168] fix: marray view squeezed to a scalar was not marked
 simple (out-of-bounds access by its iterators)

---
 include/opengm/datastructures/marray/marray.hxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/opengm/datastructures/marray/marray.hxx b/include/opengm/datastructures/marray/marray.hxx
index da71751..0bac27c 100644
--- a/include/opengm/datastructures/marray/marray.hxx
+++ b/include/opengm/datastructures/marray/marray.hxx
@@ -2425,6 +2425,7 @@ View<T, isConst, A>::squeeze()
             if(newDimension == 0) {
                 geometry_.resize(0);
                 geometry_.size() = 1;
+                updateSimplicity();
             }
             else {
                 for(size_t j=0, k=0; j<geometry_.dimension(); ++j) {
-- 
2.43.0


From 6a7d886b7d86177d43de9750e85715819bab30a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:58 +0000
Subject: [PATCH 038/168] fix: marray iterator arithmetic by zero or negative
 distances at the end of a view

---
 include/opengm/datastructures/marray/marray.hxx | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/opengm/datastructures/marray/marray.hxx b/include/opengm/datastructures/marray/marray.hxx
index 0bac27c..0cc53fe 100644
--- a/include/opengm/datastructures/marray/marray.hxx
+++ b/include/opengm/datastructures/marray/marray.hxx
@@ -4255,6 +4255,9 @@ Iterator<T, isConst, A>::operator+=
 )
 {
     marray_detail::Assert(MARRAY_NO_DEBUG || view_ != 0);
+    if(x < 0) {
+        return *this -= -x;
+    }
     if(index_ < view_->size()) { // view initialized and iterator not at the end
         if(index_ + x < view_->size()) {
             index_ += x;
@@ -4296,6 +4299,9 @@ Iterator<T, isConst, A>::operator-=
 )
 {
     marray_detail::Assert(MARRAY_NO_DEBUG || view_ != 0);
+    if(x <= 0) {
+        return *this += -x;
+    }
     marray_detail::Assert(MARRAY_NO_ARG_TEST || static_cast<difference_type>(index_) >= x);
     index_ -= x;
     if(view_->isSimple()) {
-- 
2.43.0


From d08789c2d920a8db5c6a662d6d53f1f56c828c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:45 +0000
Subject: [PATCH 039/168] fix: marray scalar expressions over strided views
 were converted to the value type of the view

---
 include/opengm/datastructures/marray/marray.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/opengm/datastructures/marray/marray.hxx b/include/opengm/datastructures/marray/marray.hxx
index 0cc53fe..9a6c02e 100644
--- a/include/opengm/datastructures/marray/marray.hxx
+++ b/include/opengm/datastructures/marray/marray.hxx
@@ -5606,7 +5606,7 @@ public:
             { iterator_.incrementCoordinate(coordinateIndex); }
         void resetCoordinate(const size_t coordinateIndex)
             { iterator_.resetCoordinate(coordinateIndex); }
-        const T operator*() const
+        const value_type operator*() const
             { return binaryFunctor_(scalar_, *iterator_); }
     private:
         BinaryFunctor binaryFunctor_;
@@ -5680,7 +5680,7 @@ public:
             { iterator_.incrementCoordinate(coordinateIndex); }
         void resetCoordinate(const size_t coordinateIndex)
             { iterator_.resetCoordinate(coordinateIndex); }
-        const T operator*() const
+        const value_type operator*() const
             { return binaryFunctor_(*iterator_, scalar_); }
     private:
         BinaryFunctor binaryFunctor_;
-- 
2.43.0


From a10785edad5df4118b8eb4b6f1f9d690e3303992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:23 +0000
Subject: [PATCH 040/168] fix: marray assignment and compound assignment
 between orders paired wrong elements above ten dimensions

---
 .../opengm/datastructures/marray/marray.hxx   | 36 +++++++++++--------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/include/opengm/datastructures/marray/marray.hxx b/include/opengm/datastructures/marray/marray.hxx
index 9a6c02e..96707c1 100644
--- a/include/opengm/datastructures/marray/marray.hxx
+++ b/include/opengm/datastructures/marray/marray.hxx
@@ -6331,7 +6331,6 @@ struct AssignmentOperatorHelper<false, TFrom, TTo, AFrom, ATo>
         View<TTo, false, ATo>& to
     )
     {
-        typedef typename View<TFrom, true, AFrom>::const_iterator FromIterator;
         typedef typename View<TTo, false, ATo>::iterator ToIterator;
         if(!MARRAY_NO_ARG_TEST) {
             Assert(from.data_ != 0 && from.dimension() == to.dimension());
@@ -6368,11 +6367,15 @@ struct AssignmentOperatorHelper<false, TFrom, TTo, AFrom, ATo>
             OperateHelperBinary<9, Assign<TTo, TFrom>, TTo, TFrom, true, ATo, AFrom>::operate(to, from, Assign<TTo, TFrom>(), &to(0), &from(0));
         else if(from.dimension() == 10)
             OperateHelperBinary<10, Assign<TTo, TFrom>, TTo, TFrom, true, ATo, AFrom>::operate(to, from, Assign<TTo, TFrom>(), &to(0), &from(0));
+        else if(from.dimension() == 0) {
+            to(0) = static_cast<TTo>(from(0));
+        }
         else {
-            FromIterator itFrom = from.begin();
-            ToIterator itTo = to.begin();
-            for(; itFrom.hasMore(); ++itFrom, ++itTo) {
-                *itTo = static_cast<TTo>(*itFrom);
+            // the coordinate orders of from and to can differ
+            std::vector<size_t> coordinate(to.dimension());
+            for(ToIterator itTo = to.begin(); itTo.hasMore(); ++itTo) {
+                itTo.coordinate(coordinate.begin());
+                *itTo = static_cast<TTo>(from(coordinate.begin()));
             }
         }
     }
@@ -6387,7 +6390,6 @@ struct AssignmentOperatorHelper<false, TFrom, TTo, AFrom, ATo>
         View<TTo, false, ATo>& to
     )
     {
-        typedef typename View<TFrom, false, AFrom>::const_iterator FromIterator;
         typedef typename View<TTo, false, ATo>::iterator ToIterator;
         if(static_cast<const void*>(&from) != static_cast<const void*>(&to)) { // no self-assignment
             if(to.data_ == 0) { // if the view 'to' is not initialized
@@ -6432,11 +6434,15 @@ struct AssignmentOperatorHelper<false, TFrom, TTo, AFrom, ATo>
                     OperateHelperBinary<9, Assign<TTo, TFrom>, TTo, TFrom, true, ATo, AFrom>::operate(to, from, Assign<TTo, TFrom>(), &to(0), &from(0));
                 else if(from.dimension() == 10)
                     OperateHelperBinary<10, Assign<TTo, TFrom>, TTo, TFrom, true, ATo, AFrom>::operate(to, from, Assign<TTo, TFrom>(), &to(0), &from(0));
+                else if(from.dimension() == 0) {
+                    to(0) = static_cast<TTo>(from(0));
+                }
                 else {
-                    FromIterator itFrom = from.begin();
-                    ToIterator itTo = to.begin();
-                    for(; itFrom.hasMore(); ++itFrom, ++itTo) {
-                        *itTo = static_cast<TTo>(*itFrom);
+                    // the coordinate orders of from and to can differ
+                    std::vector<size_t> coordinate(to.dimension());
+                    for(ToIterator itTo = to.begin(); itTo.hasMore(); ++itTo) {
+                        itTo.coordinate(coordinate.begin());
+                        *itTo = static_cast<TTo>(from(coordinate.begin()));
                     }
                 }
             }
@@ -6667,12 +6673,12 @@ operate
                 OperateHelperBinary<10, Functor, T1, T2, isConst, A, A>::operate(v, w, f, &v(0), &w(0));
             else {
                 typename View<T1, false>::iterator itV = v.begin();
-                typename View<T2, isConst>::const_iterator itW = w.begin();
-                for(; itV.hasMore(); ++itV, ++itW) {
-                    Assert(MARRAY_NO_DEBUG || itW.hasMore());
-                    f(*itV, *itW);
+                // the coordinate orders of v and w can differ
+                std::vector<size_t> coordinate(v.dimension());
+                for(; itV.hasMore(); ++itV) {
+                    itV.coordinate(coordinate.begin());
+                    f(*itV, w(coordinate.begin()));
                 }
-                Assert(MARRAY_NO_DEBUG || !itW.hasMore());
             }
         }
     }
-- 
2.43.0


From b92e1a35088be3060dec3409f475f92ca35de639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:31 +0000
Subject: [PATCH 041/168] fix: marray Vector/Matrix assigned from a
 zero-dimensional view on itself read freed memory

---
 include/opengm/datastructures/marray/marray.hxx | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/opengm/datastructures/marray/marray.hxx b/include/opengm/datastructures/marray/marray.hxx
index 96707c1..b461773 100644
--- a/include/opengm/datastructures/marray/marray.hxx
+++ b/include/opengm/datastructures/marray/marray.hxx
@@ -4851,11 +4851,12 @@ Vector<T, A>::operator=
         in.dimension() == 1); // vector
     if(in.geometry_.dimension() == 0 && in.geometry_.size() == 1) { // in is a View to a scalar
         // copy data
+        const T value = static_cast<T>(in(0)); // in can refer to this array
         if(this->size() != 1) {
             this->dataAllocator_.deallocate(this->data_, this->size());
             this->data_ = this->dataAllocator_.allocate(1);
         }
-        this->data_[0] = static_cast<T>(in(0));
+        this->data_[0] = value;
         this->geometry_.resize(1);
         this->geometry_.shape(0) = 1;
         this->geometry_.shapeStrides(0) = 1;
@@ -5199,11 +5200,12 @@ Matrix<T, A>::operator=
         in.dimension() == 2);
     if(in.dimension() == 0 && in.size() == 1) { // in is a View to a scalar
         // copy data
+        const T value = static_cast<T>(in(0)); // in can refer to this array
         if(this->size() != 1) {
             this->dataAllocator_.deallocate(this->data_, this->size());
             this->data_ = this->dataAllocator_.allocate(1);
         }
-        this->data_[0] = static_cast<T>(in(0));
+        this->data_[0] = value;
         this->geometry_.resize(2);
         this->geometry_.shape(0) = 1;
         this->geometry_.shape(1) = 1;
-- 
2.43.0


From ed0cc0700853f24728d5e5b3d6b5d587be500bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:41 +0000
Subject: [PATCH 042/168] fix: RandomAccessSet: rbegin and rend return reverse
 iterators

---
 .../opengm/datastructures/randomaccessset.hxx   | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/include/opengm/datastructures/randomaccessset.hxx b/include/opengm/datastructures/randomaccessset.hxx
index 7fd5b4f..ecf0a71 100644
--- a/include/opengm/datastructures/randomaccessset.hxx
+++ b/include/opengm/datastructures/randomaccessset.hxx
@@ -51,6 +51,7 @@ public:
    typedef typename VectorType::const_pointer const_pointer;
    /// const reverse iterator
    typedef typename VectorType::const_reverse_iterator	const_reverse_iterator;
+   typedef typename VectorType::reverse_iterator reverse_iterator;
 
    // memeber functions:
    // constructor
@@ -67,13 +68,13 @@ public:
    // iterators
    const_iterator begin() const;
    const_iterator end() const;
-   const_iterator rbegin() const;
-   const_iterator rend() const;
+   const_reverse_iterator rbegin() const;
+   const_reverse_iterator rend() const;
 
    iterator begin();
    iterator end();
-   iterator rbegin();
-   iterator rend();
+   reverse_iterator rbegin();
+   reverse_iterator rend();
    bool empty() const;
    size_type size() const;
    size_type max_size() const;
@@ -232,7 +233,7 @@ RandomAccessSet<Key,Compare,Alloc>::end() const
 /// reverse const begin iterator
 /// \returns reverse begin iterator
 template<class Key, class Compare, class Alloc>
-inline typename RandomAccessSet<Key,Compare,Alloc>::const_iterator
+inline typename RandomAccessSet<Key,Compare,Alloc>::const_reverse_iterator
 RandomAccessSet<Key,Compare,Alloc>::rbegin() const
 {
    return vector_.rbegin();
@@ -241,7 +242,7 @@ RandomAccessSet<Key,Compare,Alloc>::rbegin() const
 /// reverse const end iterator
 /// \param reverse end iterator
 template<class Key, class Compare, class Alloc>
-inline typename RandomAccessSet<Key,Compare,Alloc>::const_iterator
+inline typename RandomAccessSet<Key,Compare,Alloc>::const_reverse_iterator
 RandomAccessSet<Key,Compare,Alloc>::rend() const
 {
     return vector_.rend();
@@ -268,7 +269,7 @@ RandomAccessSet<Key,Compare,Alloc>::end()
 /// reverse  begin iterator
 /// \param reverse begin iterator
 template<class Key, class Compare, class Alloc>
-inline typename RandomAccessSet<Key,Compare,Alloc>::iterator
+inline typename RandomAccessSet<Key,Compare,Alloc>::reverse_iterator
 RandomAccessSet<Key,Compare,Alloc>::rbegin()
 {
    return vector_.rbegin();
@@ -277,7 +278,7 @@ RandomAccessSet<Key,Compare,Alloc>::rbegin()
 /// reverse end iterator
 /// \param reverse end iterator
 template<class Key, class Compare, class Alloc>
-inline typename RandomAccessSet<Key,Compare,Alloc>::iterator
+inline typename RandomAccessSet<Key,Compare,Alloc>::reverse_iterator
 RandomAccessSet<Key,Compare,Alloc>::rend()
 {
     return vector_.rend();
-- 
2.43.0


From d795f9bb5ddc44f60c4f92e4ca72ad4fe1fba5b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:41 +0000
Subject: [PATCH 043/168] fix: RandomAccessSet: hinted insertion compares with
 the set's order

---
 include/opengm/datastructures/randomaccessset.hxx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/opengm/datastructures/randomaccessset.hxx b/include/opengm/datastructures/randomaccessset.hxx
index ecf0a71..9fff5f7 100644
--- a/include/opengm/datastructures/randomaccessset.hxx
+++ b/include/opengm/datastructures/randomaccessset.hxx
@@ -364,11 +364,11 @@ RandomAccessSet<Key,Compare,Alloc>::insert
    const typename RandomAccessSet<Key,Compare,Alloc>::value_type& value
 )
 {
-   if((position == begin() || this->operator()(*(position-1),value))
-   && (position == end() || this->operator()(value, *position))) {
+   if((position == begin() || compare_(*(position-1),value))
+   && (position == end() || compare_(value, *position))) {
        return vector_.insert(position, value);
    }
-   return insert(value).first;
+   return this->insert(value).first;
 }
 
 /// erase an element
-- 
2.43.0


From 395732d894ec9d20c6bd4c4f04442e9de9c1caf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:58 +0000
Subject: [PATCH 044/168] fix: RandomAccessSet: swap exchanges both orders

---
 include/opengm/datastructures/randomaccessset.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/datastructures/randomaccessset.hxx b/include/opengm/datastructures/randomaccessset.hxx
index 9fff5f7..bc719d3 100644
--- a/include/opengm/datastructures/randomaccessset.hxx
+++ b/include/opengm/datastructures/randomaccessset.hxx
@@ -425,7 +425,7 @@ RandomAccessSet<Key,Compare,Alloc>::swap
 )
 {
    vector_.swap(rhs.vector_);
-   compare_=rhs.compare_;
+   std::swap(compare_, rhs.compare_);
 }
 
 /// clear the set
-- 
2.43.0


From d7cd1db3143a76343d82bb0b8de11d3d47b10728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:58 +0000
Subject: [PATCH 045/168] fix: FastSequence: copies and assignments keep
 capacity and buffer consistent

---
 .../opengm/datastructures/fast_sequence.hxx   | 30 +++++++------------
 1 file changed, 10 insertions(+), 20 deletions(-)

diff --git a/include/opengm/datastructures/fast_sequence.hxx b/include/opengm/datastructures/fast_sequence.hxx
index d5ada69..486a826 100644
--- a/include/opengm/datastructures/fast_sequence.hxx
+++ b/include/opengm/datastructures/fast_sequence.hxx
@@ -117,7 +117,7 @@ FastSequence<T, MAX_STACK>::FastSequence
    const  FastSequence<T, MAX_STACK> & other
 )
 :  size_(other.size_),
-   capacity_(other.capacity_)
+   capacity_(other.size_>MAX_STACK?other.size_:MAX_STACK)
 {
    OPENGM_ASSERT(size_<=capacity_);
    OPENGM_ASSERT(capacity_>=MAX_STACK);
@@ -148,27 +148,17 @@ FastSequence<T, MAX_STACK> & FastSequence<T, MAX_STACK>::operator=
 )
 {
    if(&other != this) {
-      // size_=other.size_;
-      // capacity_=other.capacity_;
-      // OPENGM_ASSERT(size_<=capacity_);
-      // OPENGM_ASSERT(capacity_>=MAX_STACK);
-      if(other.size_>MAX_STACK) {
-         // delete old sequence
-         if(size_>MAX_STACK) {
-            delete [] pointerToSequence_;
-            pointerToSequence_ = new T[other.size_];
+      if(other.size_>capacity_) {
+         T * tmp=new T[other.size_];
+         if(capacity_>MAX_STACK) {
+            delete[] pointerToSequence_;
          }
-         // nothing to delete
-         else{
-            pointerToSequence_ = new T[other.size_];
-         }
-         size_=other.size_;
-         capacity_=size_;
-      }
-      else{
-         pointerToSequence_=stackSequence_;
-         size_=other.size_;
+         pointerToSequence_=tmp;
+         capacity_=other.size_;
       }
+      size_=other.size_;
+      OPENGM_ASSERT(size_<=capacity_);
+      OPENGM_ASSERT(capacity_>=MAX_STACK);
       std::copy(other.pointerToSequence_, other.pointerToSequence_+size_, pointerToSequence_);
    }
    return *this;
-- 
2.43.0


From 127ca28d75c5a276907649e0332cfe810b8b12e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:19 +0000
Subject: [PATCH 046/168] fix: FastSequence: push_back of an element of the
 sequence itself

---
 include/opengm/datastructures/fast_sequence.hxx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/opengm/datastructures/fast_sequence.hxx b/include/opengm/datastructures/fast_sequence.hxx
index 486a826..fda252d 100644
--- a/include/opengm/datastructures/fast_sequence.hxx
+++ b/include/opengm/datastructures/fast_sequence.hxx
@@ -240,13 +240,16 @@ FastSequence<T, MAX_STACK>::push_back
    if(capacity_ == size_) {
       T * tmp=new T[capacity_ * 2];
       std::copy(pointerToSequence_, pointerToSequence_ + size_, tmp);
+      tmp[size_]=value; // before the old buffer is deleted, value may be one of its elements
       if(capacity_ > MAX_STACK) {
          delete[] pointerToSequence_;
       }
       capacity_ *= 2;
       pointerToSequence_ = tmp;
    }
-   pointerToSequence_[size_]=value;
+   else{
+      pointerToSequence_[size_]=value;
+   }
    ++size_;
    OPENGM_ASSERT(size_<=capacity_);
    OPENGM_ASSERT(capacity_>=MAX_STACK);
-- 
2.43.0


From b46a84a5038ef8e0d542cccc81c13e855f829b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:19 +0000
Subject: [PATCH 047/168] fix: BufferVector: constructing and copying an empty
 vector

---
 .../opengm/datastructures/buffer_vector.hxx    | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/include/opengm/datastructures/buffer_vector.hxx b/include/opengm/datastructures/buffer_vector.hxx
index b997815..de21df2 100644
--- a/include/opengm/datastructures/buffer_vector.hxx
+++ b/include/opengm/datastructures/buffer_vector.hxx
@@ -73,10 +73,8 @@ namespace opengm{
       const size_t size
    )
    :  size_(size),
-      capacity_(size) {
-      if(size_!=0) {
-      data_ = new T[size];
-      }
+      capacity_(size),
+      data_(size!=0 ? new T[size] : NULL) {
    }
    
    /// constructor
@@ -89,8 +87,8 @@ namespace opengm{
       const T & value
    )
    :  size_(size),
-      capacity_(size) {
-      data_ = new T[size];
+      capacity_(size),
+      data_(size!=0 ? new T[size] : NULL) {
       std::fill(data_,data_+size_,value);
    }
    
@@ -103,12 +101,10 @@ namespace opengm{
       const  BufferVector<T> & other
    )
    :  size_(other.size_),
-      capacity_(other.size_)
+      capacity_(other.size_),
+      data_(other.size_!=0 ? new T[other.size_] : NULL)
    {
-      if(size_!=0) {
-         data_ = new T[size_];
-         std::copy(other.data_,other.data_+size_,data_);
-      }
+      std::copy(other.data_,other.data_+size_,data_);
    }
    
    /// get pointer to the data
-- 
2.43.0


From 909453911f05ace686fadcd55a30f99ca77bbfd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:19 +0000
Subject: [PATCH 048/168] fix: BufferVector: reserve does not change the size

---
 include/opengm/datastructures/buffer_vector.hxx | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/include/opengm/datastructures/buffer_vector.hxx b/include/opengm/datastructures/buffer_vector.hxx
index de21df2..65241db 100644
--- a/include/opengm/datastructures/buffer_vector.hxx
+++ b/include/opengm/datastructures/buffer_vector.hxx
@@ -278,19 +278,12 @@ namespace opengm{
    ) {
       OPENGM_ASSERT(size_<=capacity_);
       if(size>capacity_) {
-         if(size_!=0) {
-            T * tmp=new T[size];
-            std::copy(data_,data_+size_,tmp);
-            delete[] data_;
-            data_=tmp;
-         }
-         else{
-            data_=new T[size];
-         }
-         size_=size;
+         T * tmp=new T[size];
+         std::copy(data_,data_+size_,tmp);
+         delete[] data_;
+         data_=tmp;
          capacity_=size;
       }
-      //size_=size;
       OPENGM_ASSERT(size_<=capacity_);
    }
    
-- 
2.43.0


From 12f4dfc741c1b459f7edd89cf1ce35495fb77a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:19 +0000
Subject: [PATCH 049/168] fix: BufferVector: resize of an emptied vector
 releases its buffer

---
 include/opengm/datastructures/buffer_vector.hxx | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/include/opengm/datastructures/buffer_vector.hxx b/include/opengm/datastructures/buffer_vector.hxx
index 65241db..edfc84f 100644
--- a/include/opengm/datastructures/buffer_vector.hxx
+++ b/include/opengm/datastructures/buffer_vector.hxx
@@ -252,17 +252,11 @@ namespace opengm{
    ) {
       OPENGM_ASSERT(size_<=capacity_);
       if(size>capacity_) {
-         if(size_!=0) {
-            T * tmp=new T[size];
-            std::copy(data_,data_+size_,tmp);
-            delete[] data_;
-            capacity_=size;
-            data_=tmp;
-         }
-         else{
-            data_=new T[size];
-            capacity_=size;
-         }
+         T * tmp=new T[size];
+         std::copy(data_,data_+size_,tmp);
+         delete[] data_;
+         capacity_=size;
+         data_=tmp;
       }
       size_=size;
       OPENGM_ASSERT(size_<=capacity_);
-- 
2.43.0


From 6bbb8c34e14c81aa2d4daa9a8538fe22b815eb06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:19 +0000
Subject: [PATCH 050/168] fix: BufferVector: push_back of an element of the
 vector itself

---
 include/opengm/datastructures/buffer_vector.hxx | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/opengm/datastructures/buffer_vector.hxx b/include/opengm/datastructures/buffer_vector.hxx
index edfc84f..9b5d63c 100644
--- a/include/opengm/datastructures/buffer_vector.hxx
+++ b/include/opengm/datastructures/buffer_vector.hxx
@@ -227,17 +227,21 @@ namespace opengm{
          if(size_!=0) {
             T * tmp=new T[capacity_*2];
             std::copy(data_,data_+size_,tmp);
+            tmp[size_]=value; // before the old buffer is deleted, value may be one of its elements
             delete[] data_;
             capacity_*=2;
             data_=tmp;
          }
          else{
             T * tmp=new T[2];
+            tmp[0]=value;
             capacity_=2;
             data_=tmp;
          }
       }
-      data_[size_]=value;
+      else{
+         data_[size_]=value;
+      }
       ++size_;
       OPENGM_ASSERT(size_<=capacity_);
    }
-- 
2.43.0


From e36746f7743f86247e3dd07e7886e7f332fd6662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:23 +0000
Subject: [PATCH 051/168] fix: disjoint_set: copies are independent and the
 elements are released

---
 include/opengm/utilities/disjoint-set.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/opengm/utilities/disjoint-set.hxx b/include/opengm/utilities/disjoint-set.hxx
index 84998e7..678d331 100644
--- a/include/opengm/utilities/disjoint-set.hxx
+++ b/include/opengm/utilities/disjoint-set.hxx
@@ -30,7 +30,7 @@ namespace opengm{
     
   private:
     
-    elem *elements_;
+    std::vector<elem> elements_;
     T numberOfElements_;
     T numberOfSets_;
     
@@ -46,7 +46,7 @@ namespace opengm{
   template<class T>
   disjoint_set<T>::disjoint_set(T numberOfElements){
     
-    elements_ = new elem[numberOfElements];
+    elements_.resize(numberOfElements);
     numberOfElements_ = numberOfElements;
     numberOfSets_ = numberOfElements;
     for(T i=0;i < numberOfElements;++i){
-- 
2.43.0


From 0d57d9ba466081b9da7cad20b7cb05b66143dd5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:09 +0000
Subject: [PATCH 052/168] fix: Tribool: comparisons for inequality and between
 two Tribools

---
 include/opengm/utilities/tribool.hxx | 35 ++++++++++++++++++++++++++--
 1 file changed, 33 insertions(+), 2 deletions(-)

diff --git a/include/opengm/utilities/tribool.hxx b/include/opengm/utilities/tribool.hxx
index 30b4706..144a850 100644
--- a/include/opengm/utilities/tribool.hxx
+++ b/include/opengm/utilities/tribool.hxx
@@ -24,7 +24,11 @@ namespace opengm {
       bool operator==(const bool a) const;
       template<class T>
          bool operator==(T a) const;
+      bool operator==(const Tribool& a) const;
       bool operator!=(const bool a) const;
+      template<class T>
+         bool operator!=(T a) const;
+      bool operator!=(const Tribool& a) const;
       operator bool() const;
       bool operator!() const;
       bool maybe() const;
@@ -125,8 +129,35 @@ namespace opengm {
       const bool a
    ) const
    {
-      return (value_ != Tribool::True && a == true)
-         || (value_ != Tribool::True && a == false);
+      return !(*this == a);
+   }
+
+   template<class T>
+   inline bool 
+   Tribool::operator!=
+   (
+      T a
+   ) const
+   {
+      return !(*this == a);
+   }
+
+   inline bool 
+   Tribool::operator==
+   (
+      const Tribool& a
+   ) const
+   {
+      return value_ == a.value_;
+   }
+
+   inline bool 
+   Tribool::operator!=
+   (
+      const Tribool& a
+   ) const
+   {
+      return value_ != a.value_;
    }
 
    inline Tribool::operator bool() const
-- 
2.43.0


From e9daf83e4896fc2ba54bc748003c4d966cce34dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:26 +0000
Subject: [PATCH 053/168] fix: AccessorIterator: a const iterator does not
 return a reference to a temporary

---
 include/opengm/utilities/accessor_iterator.hxx | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/opengm/utilities/accessor_iterator.hxx b/include/opengm/utilities/accessor_iterator.hxx
index a9bec89..de5ff5f 100644
--- a/include/opengm/utilities/accessor_iterator.hxx
+++ b/include/opengm/utilities/accessor_iterator.hxx
@@ -75,6 +75,7 @@ public:
       >::type,
       value_type&
    >::type reference;
+   typedef typename meta::If<isConst, reference, const value_type&>::type const_reference;
    typedef size_t difference_type;
    typedef std::random_access_iterator_tag iterator_category;
 
@@ -96,9 +97,9 @@ public:
    pointer operator->();
    const value_type* operator->() const;
    reference operator*();
-   const value_type& operator*() const;
+   const_reference operator*() const;
    reference operator[](const size_t);
-   const value_type& operator[](const size_t) const;
+   const_reference operator[](const size_t) const;
 
    AccessorIterator<A, isConst>& operator++();
    AccessorIterator<A, isConst> operator++(int);
@@ -225,7 +226,7 @@ AccessorIterator<A, isConst>::operator->() const
 }
 
 template<class A, bool isConst>
-inline const typename AccessorIterator<A, isConst>::value_type&
+inline typename AccessorIterator<A, isConst>::const_reference
 AccessorIterator<A, isConst>::operator*() const
 {
    OPENGM_ASSERT(index_ < accessor_.size());
@@ -241,7 +242,7 @@ AccessorIterator<A, isConst>::operator*()
 }
 
 template<class A, bool isConst>
-inline const typename AccessorIterator<A, isConst>::value_type&
+inline typename AccessorIterator<A, isConst>::const_reference
 AccessorIterator<A, isConst>::operator[]
 (
    const size_t j
-- 
2.43.0


From 5183f6b8df0555b2967ab51bf9430178219fbf29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:26 +0000
Subject: [PATCH 054/168] fix: FactorVariablesAccessor: element access returns
 variable indices

---
 include/opengm/utilities/shape_accessor.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/utilities/shape_accessor.hxx b/include/opengm/utilities/shape_accessor.hxx
index 6d9b45e..a398d26 100644
--- a/include/opengm/utilities/shape_accessor.hxx
+++ b/include/opengm/utilities/shape_accessor.hxx
@@ -162,7 +162,7 @@ namespace opengm {
       IndexType size() const 
          { return factor_ == 0 ? 0 : factor_->numberOfVariables(); }
       reference operator[](const size_t j) 
-         { return factor_->numberOfLabels(j); }
+         { return factor_->variableIndex(j); }
       const value_type operator[](const size_t j) const 
          { return factor_->variableIndex(j); }
       bool operator==(const FactorVariablesAccessor<FACTOR> & other) const 
-- 
2.43.0


From 3a732722cb4987f7e92ebd075a1293919fe5c6bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:26 +0000
Subject: [PATCH 055/168] fix: GmLabelFactorLabelAccessor: comparison with
 another accessor of its type

---
 include/opengm/utilities/shape_accessor.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/utilities/shape_accessor.hxx b/include/opengm/utilities/shape_accessor.hxx
index a398d26..dc52456 100644
--- a/include/opengm/utilities/shape_accessor.hxx
+++ b/include/opengm/utilities/shape_accessor.hxx
@@ -132,7 +132,7 @@ namespace opengm {
          { return gmLabelIter_[factor_->variableIndex(j)]; }
       const value_type operator[](const size_t j) const 
          { return gmLabelIter_[factor_->variableIndex(j)]; }
-      bool operator==(const FactorShapeAccessor<FACTOR> & other) const 
+      bool operator==(const GmLabelFactorLabelAccessor & other) const 
       { return factor_ == other.factor_ && gmLabelIter_==other.gmLabelIter_; 
       }
    
-- 
2.43.0


From f347b0169918f426608e45c653e0d41b3ffedd01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:26 +0000
Subject: [PATCH 056/168] fix: unsignedIntegerPow: define the function inline
 in its header

---
 include/opengm/utilities/unsigned_integer_pow.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/utilities/unsigned_integer_pow.hxx b/include/opengm/utilities/unsigned_integer_pow.hxx
index b6761f0..76a25ac 100644
--- a/include/opengm/utilities/unsigned_integer_pow.hxx
+++ b/include/opengm/utilities/unsigned_integer_pow.hxx
@@ -3,7 +3,7 @@
 
 namespace opengm {
 
-size_t unsignedIntegerPow(size_t base, size_t exponent) {
+inline size_t unsignedIntegerPow(size_t base, size_t exponent) {
    if(base == 1) {
       return 1;
    } else if((base == 0) && (exponent > 0)) {
-- 
2.43.0


From 1a6260abfb469b25eacd438e6194ac4704d5151a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:50 +0000
Subject: [PATCH 057/168] fix: VectorView: non-const views could not be
 iterated or indexed

---
 include/opengm/utilities/vector_view.hxx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/opengm/utilities/vector_view.hxx b/include/opengm/utilities/vector_view.hxx
index 1c8f4c3..9f4c369 100644
--- a/include/opengm/utilities/vector_view.hxx
+++ b/include/opengm/utilities/vector_view.hxx
@@ -57,10 +57,10 @@ public:
 	}
 
 
-	iterator begin(){
+	const_iterator begin(){
 		return vectorPtr_->begin()+start_;
 	}
-	iterator end(){
+	const_iterator end(){
 		return vectorPtr_->begin()+start_+size_;
 	}
 
@@ -78,7 +78,7 @@ public:
 	const ValueType & operator[](const IndexType i)const{
 		return (*vectorPtr_)[start_+i];
 	}
-	ValueType & operator[](const IndexType i){
+	const ValueType & operator[](const IndexType i){
 		return (*vectorPtr_)[start_+i];
 	}
 
-- 
2.43.0


From a12ff91c4887125ffda3232f00335f03d97ce608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:40 +0000
Subject: [PATCH 058/168] fix: size the leaf marker of the tentacle elimination
 by the number of variables

---
 include/opengm/graphicalmodel/graphicalmodel_manipulator.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/graphicalmodel/graphicalmodel_manipulator.hxx b/include/opengm/graphicalmodel/graphicalmodel_manipulator.hxx
index 95b0b7c..9dcad43 100644
--- a/include/opengm/graphicalmodel/graphicalmodel_manipulator.hxx
+++ b/include/opengm/graphicalmodel/graphicalmodel_manipulator.hxx
@@ -527,7 +527,7 @@ namespace opengm {
       }
       
       //SETUP LEAFS 
-      std::vector<bool>  pushed2Leafs(gm_.numberOfFactors(), false);
+      std::vector<bool>  pushed2Leafs(gm_.numberOfVariables(), false);
       for(IndexType var=0; var<gm_.numberOfVariables(); ++var){
          if(variableDegree[var] <= 1 && !fixVariable_[var]){
             leafs.push_back(var);
-- 
2.43.0


From 0ed208bc99070a67c1db7952ce42d8ca4ab7670d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:40 +0000
Subject: [PATCH 059/168] fix: initialise the tentacle flags so that a reduced
 model can be built without calling lock first

---
 include/opengm/graphicalmodel/graphicalmodel_manipulator.hxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/opengm/graphicalmodel/graphicalmodel_manipulator.hxx b/include/opengm/graphicalmodel/graphicalmodel_manipulator.hxx
index 9dcad43..afd4be1 100644
--- a/include/opengm/graphicalmodel/graphicalmodel_manipulator.hxx
+++ b/include/opengm/graphicalmodel/graphicalmodel_manipulator.hxx
@@ -138,7 +138,8 @@ namespace opengm {
         mode_(mode),
         validModel_(false), 
         validSubModels_(false),
-        var2subProblem_(std::vector<IndexType>(gm.numberOfVariables(),0))
+        var2subProblem_(std::vector<IndexType>(gm.numberOfVariables(),0)),
+        tentacleFactor_(std::vector<bool>(gm.numberOfFactors(),false))
    {
       return;
    }
-- 
2.43.0


From db87dfc2774e1cd001a0a8c75f1069f01ce93d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:41 +0000
Subject: [PATCH 060/168] fix: unlocking a model manipulator also forgets the
 eliminated tentacles

---
 include/opengm/graphicalmodel/graphicalmodel_manipulator.hxx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/opengm/graphicalmodel/graphicalmodel_manipulator.hxx b/include/opengm/graphicalmodel/graphicalmodel_manipulator.hxx
index afd4be1..4b079a4 100644
--- a/include/opengm/graphicalmodel/graphicalmodel_manipulator.hxx
+++ b/include/opengm/graphicalmodel/graphicalmodel_manipulator.hxx
@@ -187,6 +187,11 @@ namespace opengm {
       validSubModels_=false;
       validModel_=false;
       submodels_.clear();
+      tentacleRoots_.clear();
+      tentacleFunctions_.clear();
+      tentacleLabelCandidates_.clear();
+      tentacleVars_.clear();
+      tentacleFactor_.assign(gm_.numberOfFactors(),false);
       freeAllVariables();
    }
 
-- 
2.43.0


From eb2584bf62402ab3328a1945057093f4252abec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:54 +0000
Subject: [PATCH 061/168] fix: find the components of a reduced model without
 recursion (stack overflow on large models)

---
 .../graphicalmodel_manipulator.hxx            | 22 +++++++++++++------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/include/opengm/graphicalmodel/graphicalmodel_manipulator.hxx b/include/opengm/graphicalmodel/graphicalmodel_manipulator.hxx
index 4b079a4..61b67c2 100644
--- a/include/opengm/graphicalmodel/graphicalmodel_manipulator.hxx
+++ b/include/opengm/graphicalmodel/graphicalmodel_manipulator.hxx
@@ -859,14 +859,22 @@ namespace opengm {
    void
    GraphicalModelManipulator<GM>::expand(IndexType var, IndexType CCN,  std::vector<bool>& closedVar)
    {
-      if(closedVar[var])
-         return;
-      else{
-         closedVar[var]       = true;
-         var2subProblem_[var] = CCN;
-         for( typename GM::ConstFactorIterator itf = gm_.factorsOfVariableBegin(var); itf!=gm_.factorsOfVariableEnd(var); ++itf){
+      // explicit stack, a recursion would be as deep as the component is large
+      std::vector<IndexType> open;
+      if(!closedVar[var]){
+         closedVar[var] = true;
+         open.push_back(var);
+      }
+      while(!open.empty()){
+         const IndexType current = open.back();
+         open.pop_back();
+         var2subProblem_[current] = CCN;
+         for( typename GM::ConstFactorIterator itf = gm_.factorsOfVariableBegin(current); itf!=gm_.factorsOfVariableEnd(current); ++itf){
             for( typename  GM::ConstVariableIterator itv = gm_.variablesOfFactorBegin(*itf); itv!=gm_.variablesOfFactorEnd(*itf);++itv){
-               expand(*itv, CCN, closedVar);
+               if(!closedVar[*itv]){
+                  closedVar[*itv] = true;
+                  open.push_back(*itv);
+               }
             }
          }
       }
-- 
2.43.0


From 36ac79c0296dd8a026b4ec6dabdf25eb3e52f3df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:32 +0000
Subject: [PATCH 062/168] fix: set the sub-factor number of empty sub-factors

---
 .../decomposition/graphicalmodeldecomposition.hxx               | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/graphicalmodel/decomposition/graphicalmodeldecomposition.hxx b/include/opengm/graphicalmodel/decomposition/graphicalmodeldecomposition.hxx
index 50942b9..a454b27 100644
--- a/include/opengm/graphicalmodel/decomposition/graphicalmodeldecomposition.hxx
+++ b/include/opengm/graphicalmodel/decomposition/graphicalmodeldecomposition.hxx
@@ -181,7 +181,7 @@ GraphicalModelDecomposition::addSubFactor
          OPENGM_ASSERT(subIndices[i] < numberOfSubVariables_[subModel]); 
       }
    }
-   emptySubFactorLists_[indices].push_back(SubFactor(subModel,subIndices));
+   emptySubFactorLists_[indices].push_back(SubFactor(subModel,numberOfSubFactors_[subModel],subIndices));
    return numberOfSubFactors_[subModel]++;
 } 
 
-- 
2.43.0


From 784fb030987f2a2fa84a379561f5554564858f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:09 +0000
Subject: [PATCH 063/168] fix: the spanning tree decomposition of a model
 without factors contains its variables

---
 .../graphicalmodel/decomposition/graphicalmodeldecomposer.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/opengm/graphicalmodel/decomposition/graphicalmodeldecomposer.hxx b/include/opengm/graphicalmodel/decomposition/graphicalmodeldecomposer.hxx
index f864bba..cb0b98c 100644
--- a/include/opengm/graphicalmodel/decomposition/graphicalmodeldecomposer.hxx
+++ b/include/opengm/graphicalmodel/decomposition/graphicalmodeldecomposer.hxx
@@ -138,7 +138,7 @@ decomposeIntoSpanningTrees
       whiteList.push_back(j);
    }
      
-   while(!whiteList.empty()) {
+   do { // at least one sub-model, it has to contain the variables
       size_t subModelId  = decomposition.addSubModel();
       for(size_t variableId=0; variableId<gm.numberOfVariables();++variableId) {
          decomposition.addSubVariable(subModelId,variableId);
@@ -194,7 +194,7 @@ decomposeIntoSpanningTrees
       }
       blackList.insert(blackList.end(), grayList.begin(), grayList.end());
       grayList.clear();
-   }
+   } while(!whiteList.empty());
    return decomposition;
 } 
  
-- 
2.43.0


From c58b2261570639bb9ca202999a528d4bdf74b27a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:14 +0000
Subject: [PATCH 064/168] fix: ViewSpace did not compile (return type of
 numberOfLabels)

---
 include/opengm/graphicalmodel/space/viewspace.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/graphicalmodel/space/viewspace.hxx b/include/opengm/graphicalmodel/space/viewspace.hxx
index 1aa2da0..d98fff4 100644
--- a/include/opengm/graphicalmodel/space/viewspace.hxx
+++ b/include/opengm/graphicalmodel/space/viewspace.hxx
@@ -75,7 +75,7 @@ ViewSpace<GM>::numberOfVariables() const
 }
 
 template<class GM>
-inline typename ViewSpace<GM>::IndexType
+inline typename ViewSpace<GM>::LabelType
 ViewSpace<GM>::numberOfLabels
 (
    const IndexType dimension
-- 
2.43.0


From a2723fcd403239f3d3dbef36af5f02faa8aa189a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:14 +0000
Subject: [PATCH 065/168] fix: ViewSpace::addVariable throws the exception it
 creates

---
 include/opengm/graphicalmodel/space/viewspace.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/graphicalmodel/space/viewspace.hxx b/include/opengm/graphicalmodel/space/viewspace.hxx
index d98fff4..4a50eff 100644
--- a/include/opengm/graphicalmodel/space/viewspace.hxx
+++ b/include/opengm/graphicalmodel/space/viewspace.hxx
@@ -63,7 +63,7 @@ ViewSpace<GM>::addVariable(
    const LabelType numberOfLabels
 )
 {
-   opengm::RuntimeError("cannot add Variable with a ViewSpace as a space object");
+   throw opengm::RuntimeError("cannot add Variable with a ViewSpace as a space object");
 }
 
 template<class GM>
-- 
2.43.0


From 7a6b5efbd0520533ce771758dd899d3943761a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:14 +0000
Subject: [PATCH 066/168] fix: isSimpleSpace read the labels of variable 0 of
 an empty space

---
 include/opengm/graphicalmodel/space/space_base.hxx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/opengm/graphicalmodel/space/space_base.hxx b/include/opengm/graphicalmodel/space/space_base.hxx
index 1c67f59..203c9da 100644
--- a/include/opengm/graphicalmodel/space/space_base.hxx
+++ b/include/opengm/graphicalmodel/space/space_base.hxx
@@ -28,7 +28,10 @@ template<class SPACE, class I, class L>
 inline bool
 SpaceBase<SPACE, I, L>::isSimpleSpace() const {
    const IndexType numVar = static_cast<SPACE const*>(this)->numberOfVariables();
-   const IndexType l = static_cast<SPACE const*>(this)->numberOfLabels(0);
+   if(numVar == 0) {
+      return true;
+   }
+   const LabelType l = static_cast<SPACE const*>(this)->numberOfLabels(0);
    for(size_t i=1;i<numVar;++i) {
       if(l!=static_cast<SPACE const *>(this)->numberOfLabels(i)) {
          return false;
-- 
2.43.0


From 3748e6a41152e2e79eecfdda10916441d0809ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:14 +0000
Subject: [PATCH 067/168] fix: SimpleDiscreteSpace::assignDense dereferenced
 the end of an empty range

---
 include/opengm/graphicalmodel/space/simplediscretespace.hxx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/opengm/graphicalmodel/space/simplediscretespace.hxx b/include/opengm/graphicalmodel/space/simplediscretespace.hxx
index 48a8179..3bfd439 100644
--- a/include/opengm/graphicalmodel/space/simplediscretespace.hxx
+++ b/include/opengm/graphicalmodel/space/simplediscretespace.hxx
@@ -58,7 +58,9 @@ SimpleDiscreteSpace<I, L>::assignDense
    Iterator end
 ) {
    numberOfVariables_ = std::distance(begin, end);
-   numberOfLabels_ = static_cast<L>(*begin);
+   if(begin != end) {
+      numberOfLabels_ = static_cast<L>(*begin);
+   }
    while(begin != end) {
       if(numberOfLabels_ != static_cast<LabelType>(*begin)) {
          throw opengm::RuntimeError("*begin == SimpleDiscreteSpace.numberOfLabels_ is violated in SimpleDiscreteSpace::assignDense");
-- 
2.43.0


From ebf0bed5dad0349e1c3baf86c59e40f77cf6167b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:39 +0000
Subject: [PATCH 068/168] fix: define GridSpace::numberOfLabels(x, y)

---
 include/opengm/graphicalmodel/space/grid_space.hxx | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/opengm/graphicalmodel/space/grid_space.hxx b/include/opengm/graphicalmodel/space/grid_space.hxx
index 35cf0b2..843c348 100644
--- a/include/opengm/graphicalmodel/space/grid_space.hxx
+++ b/include/opengm/graphicalmodel/space/grid_space.hxx
@@ -101,6 +101,16 @@ GridSpace<I, L>::numberOfLabels
    return numberOfStates_;
 }
 
+template<class I, class L>
+inline typename GridSpace<I, L>::LabelType
+GridSpace<I, L>::numberOfLabels
+(
+   const typename GridSpace<I, L>::IndexType x,
+   const typename GridSpace<I, L>::IndexType y
+) const{
+   return numberOfStates_;
+}
+
 template<class I, class L>
 inline bool
 GridSpace<I, L>::isSimpleSpace() const{
-- 
2.43.0


From dcb574ad463d9d03a0bbca00546ba409eeed52a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:17 +0000
Subject: [PATCH 069/168] fix: GraphCut third-order factors use their third
 variable and their own auxiliary node

---
 include/opengm/inference/graphcut.hxx | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/include/opengm/inference/graphcut.hxx b/include/opengm/inference/graphcut.hxx
index 314babd..86af803 100644
--- a/include/opengm/inference/graphcut.hxx
+++ b/include/opengm/inference/graphcut.hxx
@@ -253,7 +253,7 @@ inline void GraphCut<GM, ACC, MINSTCUT>::addFactor
    else if(numberOfVariables == 3) {
       const size_t var0 = factor.variableIndex(0);
       const size_t var1 = factor.variableIndex(1);
-      const size_t var2 = factor.variableIndex(1);
+      const size_t var2 = factor.variableIndex(2);
       OPENGM_ASSERT(var0 < numVariables_);
       OPENGM_ASSERT(var1 < numVariables_);
       OPENGM_ASSERT(var2 < numVariables_);
@@ -279,7 +279,7 @@ inline void GraphCut<GM, ACC, MINSTCUT>::addFactor
             if(G-E>=0) addEdgeCapacity(0, var1+2, G - E);
             else       addEdgeCapacity(var1+2, 1, E - G);
             if(D-C>=0) addEdgeCapacity(0, var2+2, D - C);
-            else       addEdgeCapacity(var2+2, 0, C - D);
+            else       addEdgeCapacity(var2+2, 1, C - D);
 
             addEdgeCapacity(var1+2, var2+2, B + C - A - D);
             addEdgeCapacity(var2+2, var0+2, B + E - A - F);
@@ -288,7 +288,7 @@ inline void GraphCut<GM, ACC, MINSTCUT>::addFactor
             addEdgeCapacity(var0 + 2, id + 2, P);
             addEdgeCapacity(var1 + 2, id + 2, P);
             addEdgeCapacity(var2 + 2, id + 2, P);
-            addEdgeCapacity(id, 1, P);
+            addEdgeCapacity(id + 2, 1, P);
          }
          else {
             if(C-G>=0) addEdgeCapacity(var0+2, 1, C - G);
@@ -347,16 +347,9 @@ GraphCut<GM, ACC, MINSTCUT>::tripleId
 (
    std::vector<size_t>& triple
 ) {
-   // search for triple in list
-   std::list<std::vector<size_t> >::iterator it;
-   size_t counter = numVariables_;
-   for(it = tripleList.begin(); it != tripleList.end(); it++) {
-      if(triple[0] == (*it)[0] && triple[1] == (*it)[1] && triple[2] == (*it)[2]) {
-         return counter;
-      }
-      numVariables_++;
-   }
-   // add triple to list
+   // one auxiliary node per factor: factors over the same variables
+   // may need their auxiliary node connected to different terminals
+   const size_t counter = numVariables_ + tripleList.size();
    tripleList.push_back(triple);
    OPENGM_ASSERT(counter - numVariables_ < numFacDim_[3]);
    return counter;
-- 
2.43.0


From 259f29ba59c99a4ef8360a376f2f4888b18847c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:42 +0000
Subject: [PATCH 070/168] fix: Bruteforce constructed with a parameter reports
 the neutral value before inference

---
 include/opengm/inference/bruteforce.hxx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/opengm/inference/bruteforce.hxx b/include/opengm/inference/bruteforce.hxx
index 2548293..d0a2ee0 100644
--- a/include/opengm/inference/bruteforce.hxx
+++ b/include/opengm/inference/bruteforce.hxx
@@ -92,7 +92,9 @@ Bruteforce<GM, AKK>::Bruteforce
    movemaker_(Movemaker<GM>(gm)),
    states_(std::vector<typename GM::LabelType>(gm.numberOfVariables())),
    energy_(typename Bruteforce<GM, AKK>::ValueType())
-{}
+{
+   AKK::neutral(energy_);
+}
 
 template<class GM, class AKK>
 template<class VISITOR>
-- 
2.43.0


From b21a55dba1346487c7254d133b0c08975841d111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:42 +0000
Subject: [PATCH 071/168] fix: DynamicProgramming orders every variable when
 roots are given

---
 include/opengm/inference/dynamicprogramming.hxx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/opengm/inference/dynamicprogramming.hxx b/include/opengm/inference/dynamicprogramming.hxx
index 436c36e..e031a00 100644
--- a/include/opengm/inference/dynamicprogramming.hxx
+++ b/include/opengm/inference/dynamicprogramming.hxx
@@ -120,8 +120,11 @@ namespace opengm {
       else if(nodeOrder_[varCount]==std::numeric_limits<std::size_t>::max()){
         nodeOrder_[varCount] = orderCount++;
         nodeList.push_back(varCount);
+        ++varCount;
+      }
+      else{
+        ++varCount;
       }
-      ++varCount;
       while(nodeList.size()>0){
         size_t node = nodeList.back();
         nodeList.pop_back();
-- 
2.43.0


From 1f692e847d4f3201000a8fe8ed01a817777d760e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:43 +0000
Subject: [PATCH 072/168] fix: DynamicProgramming returns a valid labeling when
 no label improves on the neutral value

---
 include/opengm/inference/dynamicprogramming.hxx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/opengm/inference/dynamicprogramming.hxx b/include/opengm/inference/dynamicprogramming.hxx
index e031a00..e8a32b7 100644
--- a/include/opengm/inference/dynamicprogramming.hxx
+++ b/include/opengm/inference/dynamicprogramming.hxx
@@ -213,7 +213,7 @@ namespace opengm {
           size_t vec[] = {0,0};
           if(factor.variableIndex(0) == node && nodeOrder_[factor.variableIndex(1)]>nodeOrder_[node] ){
             const size_t node2 = factor.variableIndex(1);
-            MyStateType s;
+            MyStateType s = 0;
             MyValueType v,v2;
             for(vec[0]=0; vec[0]<gm_.numberOfLabels(node); ++vec[0]){
               ACC::neutral(v);
@@ -233,7 +233,7 @@ namespace opengm {
           }
           if(factor.variableIndex(1) == node && nodeOrder_[factor.variableIndex(0)]>nodeOrder_[node]){ 
             const size_t node2 = factor.variableIndex(0);
-            MyStateType s;
+            MyStateType s = 0;
             MyValueType v,v2;
             for(vec[1]=0; vec[1]<gm_.numberOfLabels(node); ++vec[1]){
               ACC::neutral(v);
@@ -280,6 +280,7 @@ namespace opengm {
          while(var < gm_.numberOfVariables()){
            if(arg[var]==std::numeric_limits<LabelType>::max()){
              MyValueType v; ACC::neutral(v);
+             arg[var] = 0;
              for(size_t i=0; i<gm_.numberOfLabels(var); ++i){
                if(ACC::bop(valueBuffers_[var][i], v)){
                  v = valueBuffers_[var][i];
-- 
2.43.0


From ea2e29945fbee2ced37ccede2db083df79fc1752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:24 +0000
Subject: [PATCH 073/168] fix: AStar selects at most one default tree factor
 per neighbouring variable

---
 include/opengm/inference/astar.hxx | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/opengm/inference/astar.hxx b/include/opengm/inference/astar.hxx
index d1a19e6..762f93d 100644
--- a/include/opengm/inference/astar.hxx
+++ b/include/opengm/inference/astar.hxx
@@ -235,12 +235,16 @@ namespace opengm {
       }
       //Check FactorIds
       if(parameter_.treeFactorIds_.size()==0) {
-         //Select tree factors
+         //Select tree factors (one per neighbour, otherwise they would contain a cycle)
+         std::set<IndexType> neighbours;
          for(size_t i=0; i<gm_.numberOfFactors(); ++i) {
             if((gm_[i].numberOfVariables()==2) &&
                (gm_[i].variableIndex(0)==parameter_.nodeOrder_.back() || gm_[i].variableIndex(1)==parameter_.nodeOrder_.back())
-               )
-               parameter_.addTreeFactorId(i);
+               ) {
+               const IndexType neighbour = gm_[i].variableIndex(0)==parameter_.nodeOrder_.back() ? gm_[i].variableIndex(1) : gm_[i].variableIndex(0);
+               if(neighbours.insert(neighbour).second)
+                  parameter_.addTreeFactorId(i);
+            }
          }
       }
       for(size_t i=0; i<parameter_.treeFactorIds_.size(); ++i)
-- 
2.43.0


From a02783a647a7bf758a9b4af07f6a9dc63e84e879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:24 +0000
Subject: [PATCH 074/168] fix: AStar's standard heuristic adds the bound of a
 factor to the constant if its first variable is fixed

---
 include/opengm/inference/astar.hxx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/opengm/inference/astar.hxx b/include/opengm/inference/astar.hxx
index 762f93d..301e0c1 100644
--- a/include/opengm/inference/astar.hxx
+++ b/include/opengm/inference/astar.hxx
@@ -458,6 +458,11 @@ namespace opengm {
                   const ViewFixVariablesFunction<GM> func(gm_[f], fixedVars);
                   mgm.addFactor(mgm.addFunction(func),MVars.begin(), MVars.end());
                }else{
+                  const IndexType var0 = optimizedFactor_[f].variableIndex(0);
+                  if(fixVariable[var0]) {
+                     GM::OperatorType::op(optimizedFactor_[f](fixVariableLabel[var0]), constant);
+                     continue;
+                  }
                   std::vector<IndexType> variablesIndices(optimizedFactor_[f].numberOfVariables());
                   for(size_t i=0; i<variablesIndices.size(); ++i)
                      variablesIndices[i] = varMap[optimizedFactor_[f].variableIndex(i)];
-- 
2.43.0


From 8188c1bef2997e65f3e741a4b228dae03e7f2c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:24 +0000
Subject: [PATCH 075/168] fix: AStar's fast heuristic accounts for higher-order
 factors with labeled variables

---
 include/opengm/inference/astar.hxx | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/include/opengm/inference/astar.hxx b/include/opengm/inference/astar.hxx
index 301e0c1..fe5bb32 100644
--- a/include/opengm/inference/astar.hxx
+++ b/include/opengm/inference/astar.hxx
@@ -622,12 +622,21 @@ namespace opengm {
             std::vector<size_t> state(nvar);
             for(size_t j=0; j<nvar; ++j) {
                if(nodeLabel[f.variableIndex(j)]<0) {
-                  state[j] = nodeLabel[f.variableIndex(j)];
                   covered = false;
                }
+               else {
+                  state[j] = nodeLabel[f.variableIndex(j)];
+               }
+            }
+            if(covered) {
+               nodeEnergy[f.variableIndex(0)].resize(1);
+               OperatorType::op(f(state.begin()), nodeEnergy[f.variableIndex(0)][0]);
+            }
+            else if(nodeLabel[f.variableIndex(0)]>=0) {
+               LabelType coordinates[]={static_cast<LabelType>(nodeLabel[f.variableIndex(0)])};
+               nodeEnergy[f.variableIndex(0)].resize(1);
+               OperatorType::op(optimizedFactor_[i](coordinates), nodeEnergy[f.variableIndex(0)][0]);
             }
-            if(covered)
-               nodeEnergy[f.variableIndex(0)][0] = f(state.begin());
             else{
                for(size_t j=0;j<numStates_[f.variableIndex(0)];++j) {
                   //nodeEnergy[f.variableIndex(0)][j] = operation(optimizedFactor_[i](j), nodeEnergy[f.variableIndex(0)][j]);
-- 
2.43.0


From fd362692fb289f2135fe2c6d6e6808a52737e9ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:24 +0000
Subject: [PATCH 076/168] fix: AStar's fast heuristic includes factors of order
 0

---
 include/opengm/inference/astar.hxx | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/opengm/inference/astar.hxx b/include/opengm/inference/astar.hxx
index fe5bb32..5a836b3 100644
--- a/include/opengm/inference/astar.hxx
+++ b/include/opengm/inference/astar.hxx
@@ -706,6 +706,12 @@ namespace opengm {
       ValueType result;
       ValueType min;
       OperatorType::neutral(result);
+      for(size_t i=0; i<gm_.numberOfFactors(); ++i) {
+         if(gm_[i].numberOfVariables()==0) {
+            const LabelType label = 0;
+            OperatorType::op(gm_[i](&label), result);
+         }
+      }
       std::vector<ValueType > bound;
       for(size_t i=0;i<numNodes_;++i) {
          if(i==nextNode) continue;
-- 
2.43.0


From 5732a09cd6e2f6a2c6a4d60c356204d0a7151b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:56 +0000
Subject: [PATCH 077/168] fix: AStar terminates normally if the last labeling
 is the last requested one

---
 include/opengm/inference/astar.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/opengm/inference/astar.hxx b/include/opengm/inference/astar.hxx
index 5a836b3..fcc5aee 100644
--- a/include/opengm/inference/astar.hxx
+++ b/include/opengm/inference/astar.hxx
@@ -344,8 +344,8 @@ namespace opengm {
          pop_heap(array_.begin(), array_.end(),  comp1); //greater<FactorType,Accumulation>);
          array_.pop_back();
       }
-      visitor.end(*this);     
-      return UNKNOWN;
+      visitor.end(*this);
+      return parameter_.numberOfOpt_ == optConf_.size() ? NORMAL : UNKNOWN;
    } 
 
    template<class GM, class ACC>
-- 
2.43.0


From 4177225247e7dc2c9a417cd1b96c41f2fef37cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:56 +0000
Subject: [PATCH 078/168] fix: AStar parameters converted from another solver
 type keep the heuristic

---
 include/opengm/inference/astar.hxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/opengm/inference/astar.hxx b/include/opengm/inference/astar.hxx
index fcc5aee..b5e27e5 100644
--- a/include/opengm/inference/astar.hxx
+++ b/include/opengm/inference/astar.hxx
@@ -110,6 +110,7 @@ namespace opengm {
         :   maxHeapSize_(p.maxHeapSize_),
             numberOfOpt_(p.numberOfOpt_),
             objectiveBound_(p.objectiveBound_),
+            heuristic_(p.heuristic_),
             nodeOrder_(p.nodeOrder_),
             treeFactorIds_(p.treeFactorIds_){
         }
-- 
2.43.0


From b6c94d6f12995bf29dc706a7dbd944ec759d8fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:30 +0000
Subject: [PATCH 079/168] fix: AStar's fast heuristic evaluates higher-order
 factors exactly if only one variable is free

---
 include/opengm/inference/astar.hxx | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/include/opengm/inference/astar.hxx b/include/opengm/inference/astar.hxx
index b5e27e5..5b95a4f 100644
--- a/include/opengm/inference/astar.hxx
+++ b/include/opengm/inference/astar.hxx
@@ -620,10 +620,14 @@ namespace opengm {
          }
          if(nvar>2) {
             bool covered = true;
-            std::vector<size_t> state(nvar);
+            size_t numberOfFree = 0;
+            size_t freePosition = 0;
+            std::vector<LabelType> state(nvar);
             for(size_t j=0; j<nvar; ++j) {
                if(nodeLabel[f.variableIndex(j)]<0) {
                   covered = false;
+                  ++numberOfFree;
+                  freePosition = j;
                }
                else {
                   state[j] = nodeLabel[f.variableIndex(j)];
@@ -633,6 +637,14 @@ namespace opengm {
                nodeEnergy[f.variableIndex(0)].resize(1);
                OperatorType::op(f(state.begin()), nodeEnergy[f.variableIndex(0)][0]);
             }
+            else if(numberOfFree == 1) {
+               const size_t var = f.variableIndex(freePosition);
+               OPENGM_ASSERT(numStates_[var] == nodeEnergy[var].size());
+               for(size_t j=0;j<numStates_[var];++j) {
+                  state[freePosition] = static_cast<LabelType>(j);
+                  OperatorType::op(f(state.begin()), nodeEnergy[var][j]);
+               }
+            }
             else if(nodeLabel[f.variableIndex(0)]>=0) {
                LabelType coordinates[]={static_cast<LabelType>(nodeLabel[f.variableIndex(0)])};
                nodeEnergy[f.variableIndex(0)].resize(1);
-- 
2.43.0


From b69bd2b6da2e5a6213b66148c58eac5399839fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:50 +0000
Subject: [PATCH 080/168] fix: Movemaker restores the buffered labels of the
 moved variables if one of them has a single label

---
 include/opengm/inference/movemaker.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/inference/movemaker.hxx b/include/opengm/inference/movemaker.hxx
index 468115c..5a8740e 100644
--- a/include/opengm/inference/movemaker.hxx
+++ b/include/opengm/inference/movemaker.hxx
@@ -497,7 +497,7 @@ Movemaker<GM>::moveOptimallyWithAllLabelsChanging
       if(gm_.space().numberOfLabels(variableIndices[j]) == 1) {
          // restore stateBuffer_
          for(size_t k=0; k<j; ++k) {
-            stateBuffer_[k] = state_[k];
+            stateBuffer_[variableIndices[k]] = state_[variableIndices[k]];
          }
          return energy_;
       }
-- 
2.43.0


From d30d48c438d34e71a1314623b1238fe10b994ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:59 +0000
Subject: [PATCH 081/168] fix: Movemaker evaluates the model instead of
 subtracting infinite values

---
 include/opengm/inference/movemaker.hxx | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/include/opengm/inference/movemaker.hxx b/include/opengm/inference/movemaker.hxx
index 5a8740e..405a5e8 100644
--- a/include/opengm/inference/movemaker.hxx
+++ b/include/opengm/inference/movemaker.hxx
@@ -3,6 +3,7 @@
 #define OPENGM_MOVEMAKER_HXX
 
 #include <algorithm>
+#include <limits>
 #include <vector>
 
 #include "opengm/operations/multiplier.hxx"
@@ -74,6 +75,11 @@ private:
    void addSingleSide(const IndexType, const IndexType, SubGmType &, std::set<IndexType>&)const;
    void addHigherOrderBorderFactor(const IndexType, const opengm::BufferVector<IndexType>&, const PositionAndLabelVector &, SubGmType &, std::set<IndexType> &)const;
    void addHigherOrderInsideFactor(const IndexType, const opengm::BufferVector<IndexType>&, SubGmType &, std::set<IndexType> &)const;
+   // differences of infinite values are undefined
+   bool valueIsInfinite() const {
+      return std::numeric_limits<ValueType>::has_infinity
+         && (energy_ == std::numeric_limits<ValueType>::infinity() || energy_ == -std::numeric_limits<ValueType>::infinity());
+   }
    template<class FactorIndexIterator>
       ValueType evaluateFactors(FactorIndexIterator, FactorIndexIterator, const std::vector<LabelType>&) const;
 
@@ -295,7 +301,7 @@ Movemaker<GM>::valueAfterMove
    StateIterator destinationState
 ) { 
    ValueType destinationValue;
-   if(meta::Compare<OperatorType, opengm::Multiplier>::value){
+   if(meta::Compare<OperatorType, opengm::Multiplier>::value || valueIsInfinite()){
       //Partial update for multiplication is not numrical stabel! That why recalculate the objective 
 
       // set stateBuffer_ to destinationState, and determine factors to recompute
@@ -442,10 +448,10 @@ overflow:
          stateBuffer_[vi] = bestState[j];
       }
       // update energy
-      if(meta::And<
+      if(valueIsInfinite() || (meta::And<
       meta::Compare<ACCUMULATOR, opengm::Maximizer>::value,
       meta::Compare<OperatorType, opengm::Multiplier>::value
-      >::value && energy_ == static_cast<ValueType> (0)) {
+      >::value && energy_ == static_cast<ValueType> (0))) {
          OPENGM_ASSERT(state_.size() == gm_.numberOfVariables());
          energy_ = gm_.evaluate(state_.begin());
       }
@@ -579,10 +585,10 @@ overflow2:
          stateBuffer_[vi] = bestState[j];
       }
       // update energy
-      if(meta::And<
+      if(valueIsInfinite() || (meta::And<
       meta::Compare<ACCUMULATOR, opengm::Maximizer>::value,
       meta::Compare<OperatorType, opengm::Multiplier>::value
-      >::value && energy_ == static_cast<ValueType> (0)) {
+      >::value && energy_ == static_cast<ValueType> (0))) {
          energy_ = gm_.evaluate(state_.begin());
       }
       else {
-- 
2.43.0


From 36a4674e6ff8afd6bbf07bf04519d57ae435900b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:22 +0000
Subject: [PATCH 082/168] fix: ICM parameters can be converted from another ICM
 type

---
 include/opengm/inference/icm.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/inference/icm.hxx b/include/opengm/inference/icm.hxx
index 7b70ac9..c538e76 100644
--- a/include/opengm/inference/icm.hxx
+++ b/include/opengm/inference/icm.hxx
@@ -68,7 +68,7 @@ public:
        Parameter(const OP & otherParameter)
           {
              moveType_ = otherParameter.moveType_== 0? SINGLE_VARIABLE : FACTOR; 
-             startPoint_(otherParameter.startPoint_); 
+             startPoint_ = otherParameter.startPoint_; 
           }
 
         MoveType moveType_;
-- 
2.43.0


From 0c9386ef3251f75dcfa2b1665c050b56f767a0fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:22 +0000
Subject: [PATCH 083/168] fix: LazyFlipper builds a new subgraph forest if
 inference is run again

---
 include/opengm/inference/lazyflipper.hxx | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/opengm/inference/lazyflipper.hxx b/include/opengm/inference/lazyflipper.hxx
index 53689ab..7938b69 100644
--- a/include/opengm/inference/lazyflipper.hxx
+++ b/include/opengm/inference/lazyflipper.hxx
@@ -806,6 +806,10 @@ LazyFlipper<GM, ACC>::inferBinaryLabel(
 {
    bool continueInf = true;
    size_t length = 1;
+   // start from scratch, also if inference has been run before
+   subgraphForest_ = SubgraphForest();
+   deactivateAllVariables(0);
+   deactivateAllVariables(1);
    //const ValueType bound = this->bound();
    //visitor.begin(*this, movemaker_.value(), bound, length, subgraphForest_.size());
    visitor.begin(*this);
@@ -893,6 +897,10 @@ LazyFlipper<GM, ACC>::inferMultiLabel(
 {
    bool continueInf = true;
    size_t length = 1;
+   // start from scratch, also if inference has been run before
+   subgraphForest_ = SubgraphForest();
+   deactivateAllVariables(0);
+   deactivateAllVariables(1);
    //const ValueType bound = this->bound();
    //visitor.begin(*this, movemaker_.value(), bound, length, subgraphForest_.size());
    visitor.begin(*this);
-- 
2.43.0


From a3c9a9d85c5a28ca3c7be4ecfd3d99aa6408d3f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:38 +0000
Subject: [PATCH 084/168] fix: PartitionMove adds up the weights of factors
 over the same pair of variables

---
 include/opengm/inference/partition-move.hxx | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/opengm/inference/partition-move.hxx b/include/opengm/inference/partition-move.hxx
index b508356..d7d69bb 100644
--- a/include/opengm/inference/partition-move.hxx
+++ b/include/opengm/inference/partition-move.hxx
@@ -175,8 +175,15 @@ PartitionMove<GM, ACC>::PartitionMove
          constant_ += gm_[f](cc0);
          IndexType u = gm_[f].variableIndex(0);
          IndexType v = gm_[f].variableIndex(1);
-         neighbours_[u][v] = numberOfInternalEdges;
-         neighbours_[v][u] = numberOfInternalEdges;
+         if(neighbours_[u].find(v) != neighbours_[u].end()) {
+            // another factor connects these variables already
+            edgeWeight_[neighbours_[u][v]] += edgeWeight_[numberOfInternalEdges];
+            edgeWeight_[numberOfInternalEdges] = 0;
+         }
+         else {
+            neighbours_[u][v] = numberOfInternalEdges;
+            neighbours_[v][u] = numberOfInternalEdges;
+         }
          ++numberOfInternalEdges;
       }    
       else{
-- 
2.43.0


From 0de4fd865187cf2f63897c6ce25f4cabd588e3f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:00 +0000
Subject: [PATCH 085/168] fix: AlphaBetaSwap parameters can be converted from
 another type

---
 include/opengm/inference/alphabetaswap.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/inference/alphabetaswap.hxx b/include/opengm/inference/alphabetaswap.hxx
index 9a21537..a927cb9 100644
--- a/include/opengm/inference/alphabetaswap.hxx
+++ b/include/opengm/inference/alphabetaswap.hxx
@@ -43,7 +43,7 @@ public:
         template<class P>
         Parameter(const P & p)
         :   parameter_(p.parameter_),
-            maxNumberOfIterations_(maxNumberOfIterations_){
+            maxNumberOfIterations_(p.maxNumberOfIterations_){
         }
 
         typename InferenceType::Parameter parameter_; 
-- 
2.43.0


From 7dbb8ca6309122cd38f2ef40105655a874083a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:00 +0000
Subject: [PATCH 086/168] fix: AlphaBetaSwap passes its parameter to the inner
 solver

---
 include/opengm/inference/alphabetaswap.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/inference/alphabetaswap.hxx b/include/opengm/inference/alphabetaswap.hxx
index a927cb9..ecc2961 100644
--- a/include/opengm/inference/alphabetaswap.hxx
+++ b/include/opengm/inference/alphabetaswap.hxx
@@ -229,7 +229,7 @@ AlphaBetaSwap<GM, INF>::infer
       if (counter == 0) {
          continue;
       }
-      INF inf(counter, numFacDim);
+      INF inf(counter, numFacDim, parameter_.parameter_);
       vecA[0] = alpha_;
       vecB[0] = beta_;
       vecAA[0] = alpha_;
-- 
2.43.0


From 0524fa3331964ca2a96b5b8b5640214bf0e1b501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:00 +0000
Subject: [PATCH 087/168] fix: AlphaBetaSwap stops only if no pair of labels
 has changed the labeling since the last improvement

---
 include/opengm/inference/alphabetaswap.hxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/opengm/inference/alphabetaswap.hxx b/include/opengm/inference/alphabetaswap.hxx
index ecc2961..893fff6 100644
--- a/include/opengm/inference/alphabetaswap.hxx
+++ b/include/opengm/inference/alphabetaswap.hxx
@@ -227,6 +227,7 @@ AlphaBetaSwap<GM, INF>::infer
          }
       }
       if (counter == 0) {
+         ++countUnchanged;
          continue;
       }
       INF inf(counter, numFacDim, parameter_.parameter_);
@@ -296,6 +297,7 @@ AlphaBetaSwap<GM, INF>::infer
       OPENGM_ASSERT(!AccumulationType::ibop(energy2, energy));
       if (AccumulationType::bop(energy2, energy)) {
          energy = energy2;
+         countUnchanged = 0;
       } else {
          ++countUnchanged;
       }
-- 
2.43.0


From 9b270bb3c4aaf5686b241e1e690d5cbb1fc58e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:00 +0000
Subject: [PATCH 088/168] fix: AlphaExpansion parameters converted from another
 type keep the initial labeling

---
 include/opengm/inference/alphaexpansion.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/inference/alphaexpansion.hxx b/include/opengm/inference/alphaexpansion.hxx
index d5b21e3..d93cc15 100644
--- a/include/opengm/inference/alphaexpansion.hxx
+++ b/include/opengm/inference/alphaexpansion.hxx
@@ -66,7 +66,7 @@ public:
             randSeedOrder_(p.randSeedOrder_),
             randSeedLabel_(p.randSeedLabel_),
             labelOrder_(p.labelOrder_),
-            label_(p.labelOrder_)
+            label_(p.label_)
         {}
 
         InferenceParameter parameter_;
-- 
2.43.0


From 6c5726a563b9abba20ae00cb9f97cbe78c40a513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:00 +0000
Subject: [PATCH 089/168] fix: AlphaExpansion's locally optimal initial
 labeling uses the variables of the unary factors

---
 include/opengm/inference/alphaexpansion.hxx | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/opengm/inference/alphaexpansion.hxx b/include/opengm/inference/alphaexpansion.hxx
index d93cc15..65f27a0 100644
--- a/include/opengm/inference/alphaexpansion.hxx
+++ b/include/opengm/inference/alphaexpansion.hxx
@@ -468,12 +468,14 @@ AlphaExpansion<GM, INF>::setInitialLabelLocalOptimal() {
    std::vector<size_t> accVec;
    for(size_t i=0; i<gm_.numberOfFactors();++i) {
       if(gm_[i].numberOfVariables()==1) {
+         const IndexType var = gm_[i].variableIndex(0);
          std::vector<size_t> state(1, 0);
          ValueType value = gm_[i](state.begin());
-         for(state[0]=1; state[0]<gm_.numberOfLabels(i); ++state[0]) {
+         label_[var] = 0;
+         for(state[0]=1; state[0]<gm_.numberOfLabels(var); ++state[0]) {
             if(AccumulationType::bop(gm_[i](state.begin()), value)) {
                value = gm_[i](state.begin());
-               label_[i] = state[0];
+               label_[var] = state[0];
             }
          }
       }
-- 
2.43.0


From 676c703856c7c3065d047591f8188da16b1e4340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:14 +0000
Subject: [PATCH 090/168] fix: AlphaBetaSwap accepts the pairwise terms of
 maximization problems

---
 include/opengm/inference/alphabetaswap.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/inference/alphabetaswap.hxx b/include/opengm/inference/alphabetaswap.hxx
index 893fff6..0bdf430 100644
--- a/include/opengm/inference/alphabetaswap.hxx
+++ b/include/opengm/inference/alphabetaswap.hxx
@@ -182,7 +182,7 @@ AlphaBetaSwap<GM, INF>::addPairwise
    fac(0, 1) = v1;
    fac(1, 0) = v2;
    fac(1, 1) = v3;
-   OPENGM_ASSERT(v1 + v2 - v0 - v3 >= 0);
+   OPENGM_ASSERT(!AccumulationType::bop(v1 + v2, v0 + v3));
    inf.addFactor(fac);
 }
 template<class GM, class INF>
-- 
2.43.0


From d28aeae2d6090a265e14bf6abef9265e82049d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:14 +0000
Subject: [PATCH 091/168] fix: AlphaExpansion's auxiliary nodes account for
 pairs of which one variable keeps its label

---
 include/opengm/inference/alphaexpansion.hxx | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/opengm/inference/alphaexpansion.hxx b/include/opengm/inference/alphaexpansion.hxx
index 65f27a0..1f110f5 100644
--- a/include/opengm/inference/alphaexpansion.hxx
+++ b/include/opengm/inference/alphaexpansion.hxx
@@ -359,9 +359,12 @@ AlphaExpansion<GM, INF>::infer
                }
                else{
                   OPENGM_ASSERT(varX < numberOfVariables + numberOfAuxiliaryNodes);
-                  addPairwise(inf, var1, varX, 0, factor(vecAX), 0, 0);
-                  addPairwise(inf, var2, varX, 0, factor(vecXA), 0, 0);
-                  addUnary(inf, varX, factor(vecAA), factor(vecXX));
+                  const ValueType vAA = factor(vecAA);
+                  const ValueType vAX = factor(vecAX) - vAA;
+                  const ValueType vXA = factor(vecXA) - vAA;
+                  addPairwise(inf, var1, varX, 0, vAX, vXA, 0);
+                  addPairwise(inf, var2, varX, 0, vXA, vAX, 0);
+                  addUnary(inf, varX, 0, factor(vecXX) - vAA);
                   ++varX;
                }
             }
-- 
2.43.0


From 9af776f11bf8aa737b27749917bb245ac52614d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:32 +0000
Subject: [PATCH 092/168] fix: AlphaBetaSwap moves only if the value improves,
 to end in a local optimum

---
 include/opengm/inference/alphabetaswap.hxx | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/opengm/inference/alphabetaswap.hxx b/include/opengm/inference/alphabetaswap.hxx
index 0bdf430..6730f9a 100644
--- a/include/opengm/inference/alphabetaswap.hxx
+++ b/include/opengm/inference/alphabetaswap.hxx
@@ -280,6 +280,7 @@ AlphaBetaSwap<GM, INF>::infer
       inf.infer();
       inf.arg(state);
       OPENGM_ASSERT(state.size() == counter);
+      const std::vector<LabelType> previousLabel(label_);
       for (size_t var = 0; var < numberOfVariables; ++var) {
          if (label_[var] == alpha_ || label_[var] == beta_) {
             if (state[variable2Node[var]] == 0)
@@ -291,11 +292,15 @@ AlphaBetaSwap<GM, INF>::infer
          }
       }
       ValueType energy2 = gm_.evaluate(label_);
+      const bool improved = AccumulationType::bop(energy2, energy);
+      OPENGM_ASSERT(!AccumulationType::ibop(energy2, energy));
+      if (!improved) {
+         label_ = previousLabel;
+      }
       if( visitor(*this) != visitors::VisitorReturnFlag::ContinueInf ){
          exitInf=true;
       }
-      OPENGM_ASSERT(!AccumulationType::ibop(energy2, energy));
-      if (AccumulationType::bop(energy2, energy)) {
+      if (improved) {
          energy = energy2;
          countUnchanged = 0;
       } else {
-- 
2.43.0


From 924e19d38f321f3c28e335219a1c84e1527cb867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:32 +0000
Subject: [PATCH 093/168] fix: AlphaExpansion moves only if the value improves,
 to end in a local optimum

---
 include/opengm/inference/alphaexpansion.hxx | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/opengm/inference/alphaexpansion.hxx b/include/opengm/inference/alphaexpansion.hxx
index 1f110f5..16c55cd 100644
--- a/include/opengm/inference/alphaexpansion.hxx
+++ b/include/opengm/inference/alphaexpansion.hxx
@@ -320,6 +320,7 @@ AlphaExpansion<GM, INF>::infer
       INF inf(numberOfVariables + numberOfAuxiliaryNodes, numFacDim, parameter_.parameter_);
       size_t varX = numberOfVariables;
       size_t countAlphas = 0;
+      const std::vector<LabelType> previousLabel(label_);
       for (size_t k=0 ; k<gm_.numberOfVariables(); ++k) {
          if (label_[k] == alpha_ ) {
             addUnary(inf, k, 0, std::numeric_limits<ValueType>::infinity());
@@ -382,12 +383,16 @@ AlphaExpansion<GM, INF>::infer
       }
       OPENGM_ASSERT(gm_.numberOfVariables() == label_.size());
       ValueType energy2 = gm_.evaluate(label_);
+      const bool improved = AccumulationType::bop(energy2, energy);
+      if(!improved) {
+         label_ = previousLabel;
+      }
       //visitor(*this,energy2,energy,alpha_);
       if( visitor(*this) != visitors::VisitorReturnFlag::ContinueInf ){
          exitInf=true;
       }
       // OPENGM_ASSERT(!AccumulationType::ibop(energy2, energy));
-      if(AccumulationType::bop(energy2, energy)) {
+      if(improved) {
          energy=energy2;
          countUnchanged = 0;
       }
-- 
2.43.0


From 2f83b8ecab0d4fd0581e249abe818d9bf9ccbc7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:01 +0000
Subject: [PATCH 094/168] fix: ICM's factor moves revisit every factor whose
 optimal move depends on a changed variable

---
 include/opengm/inference/icm.hxx | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/opengm/inference/icm.hxx b/include/opengm/inference/icm.hxx
index c538e76..f09bf3d 100644
--- a/include/opengm/inference/icm.hxx
+++ b/include/opengm/inference/icm.hxx
@@ -248,8 +248,15 @@ InferenceTermination ICM<GM,ACC>::infer
                   for(v=0;v<gm_[f].numberOfVariables();++v) {
                      const size_t varIndex=gm_[f].variableIndex(v);
                      if(stateBuffer[v]!=movemaker_.state(varIndex)) {
+                        // all factors that share a variable with a factor of varIndex
                         for(ff=0;ff<gm_.numberOfFactors(varIndex);++ff) {
-                           isLocalOptimal[gm_.factorOfVariable(varIndex,ff)]=false;
+                           const FactorType& changed = gm_[gm_.factorOfVariable(varIndex,ff)];
+                           for(size_t w=0;w<changed.numberOfVariables();++w) {
+                              const size_t neighbour=changed.variableIndex(w);
+                              for(size_t g=0;g<gm_.numberOfFactors(neighbour);++g) {
+                                 isLocalOptimal[gm_.factorOfVariable(neighbour,g)]=false;
+                              }
+                           }
                         }
                      }
                   }
-- 
2.43.0


From e332f62b03ec9d3dd873d55aa5a8b3c5dbe8ad46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:00 +0000
Subject: [PATCH 095/168] fix: GreedyGremlin labels all connected components of
 the model

---
 include/opengm/inference/greedygremlin.hxx | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/opengm/inference/greedygremlin.hxx b/include/opengm/inference/greedygremlin.hxx
index a282bcd..2d876a7 100644
--- a/include/opengm/inference/greedygremlin.hxx
+++ b/include/opengm/inference/greedygremlin.hxx
@@ -135,6 +135,15 @@ namespace opengm {
       visitor.begin(*this);    
       const ValueType neutral = GM::OperatorType::template neutral<ValueType>();
       while(waitingListFirst<waitingList.size()){
+         if(waitingListFirst>waitingListLast){
+            // continue with another connected component
+            IndexType next = 0;
+            while(nodeColor[next]) {
+               ++next;
+            }
+            nodeColor[next] = true;
+            waitingList[++waitingListLast] = next;
+         }
          OPENGM_ASSERT(waitingListFirst<=waitingListLast);
          IndexType var = waitingList[waitingListFirst++];
          std::vector<ValueType> vals(gm_.numberOfLabels(var),neutral);
-- 
2.43.0


From 8dc5ac8f2fb201edb1a5f201bc80876703db5ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:15 +0000
Subject: [PATCH 096/168] fix: MessagePassing::propagate did not compile

---
 include/opengm/inference/messagepassing/messagepassing.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/inference/messagepassing/messagepassing.hxx b/include/opengm/inference/messagepassing/messagepassing.hxx
index 56a854b..40f4b01 100644
--- a/include/opengm/inference/messagepassing/messagepassing.hxx
+++ b/include/opengm/inference/messagepassing/messagepassing.hxx
@@ -395,7 +395,7 @@ inline void MessagePassing<GM, ACC, UPDATE_RULES, DIST>::propagate
    const ValueType& damping
 ) {
    for (size_t i = 0; i < variableHulls_.size(); ++i) {
-      variableHulls_[i].propagateAll(damping, false);
+      variableHulls_[i].propagateAll(gm_, damping, false);
    }
    for (size_t i = 0; i < factorHulls_.size(); ++i) {
       factorHulls_[i].propagateAll(damping, parameter_.useNormalization_);
-- 
2.43.0


From 02d4bcaedcd3a673a0332aa235c4f8c08a31fd23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:47 +0000
Subject: [PATCH 097/168] fix: message passing normalizes small messages as
 well

---
 .../inference/messagepassing/messagepassing_operations.hxx    | 4 ++--
 .../messagepassing/messagepassing_operations_withFunctors.hxx | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/opengm/inference/messagepassing/messagepassing_operations.hxx b/include/opengm/inference/messagepassing/messagepassing_operations.hxx
index 535e936..63beb60 100644
--- a/include/opengm/inference/messagepassing/messagepassing_operations.hxx
+++ b/include/opengm/inference/messagepassing/messagepassing_operations.hxx
@@ -50,10 +50,10 @@ inline void normalize
    for(size_t n=0; n<out.size(); ++n)
       ACC::op(out(n),v);
          
-   if( opengm::meta::Compare<OP,opengm::Multiplier>::value && v <= 0.00001)
+   if( opengm::meta::Compare<OP,opengm::Multiplier>::value && v <= 0)
       return;
    if(opengm::meta::Compare<OP,opengm::Multiplier>::value)
-        OPENGM_ASSERT(v > 0.00001); // ??? this should be checked in released code   
+        OPENGM_ASSERT(v > 0); // ??? this should be checked in released code   
    for(size_t n=0; n<out.size();++n ) {
       OP::iop(v,out(n));      
    }
diff --git a/include/opengm/inference/messagepassing/messagepassing_operations_withFunctors.hxx b/include/opengm/inference/messagepassing/messagepassing_operations_withFunctors.hxx
index b6a500b..adc2952 100644
--- a/include/opengm/inference/messagepassing/messagepassing_operations_withFunctors.hxx
+++ b/include/opengm/inference/messagepassing/messagepassing_operations_withFunctors.hxx
@@ -32,10 +32,10 @@ namespace opengm {
          for(size_t n=0; n<out.size(); ++n)
             ACC::op(out(n),v);
          
-         if( opengm::meta::Compare<OP,opengm::Multiplier>::value && v <= 0.00001)
+         if( opengm::meta::Compare<OP,opengm::Multiplier>::value && v <= 0)
             return;
          if(opengm::meta::Compare<OP,opengm::Multiplier>::value)
-            OPENGM_ASSERT(v > 0.00001); // ??? this should be checked in released code   
+            OPENGM_ASSERT(v > 0); // ??? this should be checked in released code   
          for(size_t n=0; n<out.size();++n ) {
             OP::iop(v,out(n));      
          }
-- 
2.43.0


From a634ab25164576ca46e3ff47e602dfd1e6270d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:47 +0000
Subject: [PATCH 098/168] fix: MessagePassing parameters converted from another
 type keep the node order

---
 include/opengm/inference/messagepassing/messagepassing.hxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/opengm/inference/messagepassing/messagepassing.hxx b/include/opengm/inference/messagepassing/messagepassing.hxx
index 40f4b01..25eae43 100644
--- a/include/opengm/inference/messagepassing/messagepassing.hxx
+++ b/include/opengm/inference/messagepassing/messagepassing.hxx
@@ -107,6 +107,7 @@ public:
          bound_(p.bound_),
          damping_(p.damping_),
          inferSequential_(p.inferSequential_),
+         sortedNodeList_(p.sortedNodeList_),
          useNormalization_(p.useNormalization_),
          specialParameter_(p.specialParameter_),
          isAcyclic_(p.isAcyclic_)
-- 
2.43.0


From 791ee411ee79134b3c43f3ccdc84094dbf357dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:48 +0000
Subject: [PATCH 099/168] fix: MessageBuffer::assign overwrites the contents of
 a buffer of the same size

---
 .../inference/messagepassing/messagepassing_buffer.hxx      | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/opengm/inference/messagepassing/messagepassing_buffer.hxx b/include/opengm/inference/messagepassing/messagepassing_buffer.hxx
index 2bfeb7c..3fed9f0 100644
--- a/include/opengm/inference/messagepassing/messagepassing_buffer.hxx
+++ b/include/opengm/inference/messagepassing/messagepassing_buffer.hxx
@@ -110,8 +110,10 @@ namespace opengm {
          buffer2_ = constant;
       }
       else {
-         buffer1_.resize(&shape, &shape+1, constant);
-         buffer2_.resize(&shape, &shape+1, constant);
+         buffer1_.resize(&shape, &shape+1);
+         buffer1_ = constant;
+         buffer2_.resize(&shape, &shape+1);
+         buffer2_ = constant;
       }
       flag_ = false;
    }
-- 
2.43.0


From e43f4a0367fa61408b66e23c6ae76cb5456961f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:26 +0000
Subject: [PATCH 100/168] fix: TRBP weights factors by the share of spanning
 trees that contain them

---
 include/opengm/inference/messagepassing/messagepassing_trbp.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/inference/messagepassing/messagepassing_trbp.hxx b/include/opengm/inference/messagepassing/messagepassing_trbp.hxx
index 9d16fbb..0f47fb5 100644
--- a/include/opengm/inference/messagepassing/messagepassing_trbp.hxx
+++ b/include/opengm/inference/messagepassing/messagepassing_trbp.hxx
@@ -104,7 +104,7 @@ namespace opengm {
             const std::vector<SubFactorListType>& subFactorList = decomposition.getFactorLists();
             mpParameter.specialParameter_.resize(gm.numberOfFactors());
             for (size_t factorId = 0; factorId < gm.numberOfFactors(); ++factorId) {
-               mpParameter.specialParameter_[factorId] = 1.0 / subFactorList[factorId].size();
+               mpParameter.specialParameter_[factorId] = static_cast<ValueType>(subFactorList[factorId].size()) / decomposition.numberOfSubModels();
             }
          }
          else if (mpParameter.specialParameter_.size() != gm.numberOfFactors()) {
-- 
2.43.0


From 3192f51bfdde8eeec468307f7fa837ab0fd6a087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:26 +0000
Subject: [PATCH 101/168] fix: TRBP sends the messages of variables with a
 single factor if its weight is not one

---
 include/opengm/inference/messagepassing/messagepassing_trbp.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/inference/messagepassing/messagepassing_trbp.hxx b/include/opengm/inference/messagepassing/messagepassing_trbp.hxx
index 0f47fb5..b399fa6 100644
--- a/include/opengm/inference/messagepassing/messagepassing_trbp.hxx
+++ b/include/opengm/inference/messagepassing/messagepassing_trbp.hxx
@@ -171,7 +171,7 @@ namespace opengm {
    ) {
       OPENGM_ASSERT(id < outBuffer_.size());
       outBuffer_[id]->toggle();
-      if(numberOfBuffers() < 2) {
+      if(numberOfBuffers() < 2 && rho_[id] == 1) {
          return; // nothing to send
       }
       // initialize neutral message
-- 
2.43.0


From bb5c443fa05a9291a0f1a12359e220f8654584a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:52 +0000
Subject: [PATCH 102/168] fix: MinSTCutBoost with push-relabel ignores the
 previous contents of the segmentation

---
 include/opengm/inference/auxiliary/minstcutboost.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/inference/auxiliary/minstcutboost.hxx b/include/opengm/inference/auxiliary/minstcutboost.hxx
index 3f6642a..14d28ac 100644
--- a/include/opengm/inference/auxiliary/minstcutboost.hxx
+++ b/include/opengm/inference/auxiliary/minstcutboost.hxx
@@ -134,7 +134,7 @@ namespace opengm {
             get(boost::vertex_index_t(), graph_)
             );
          // find (s,t)-cut set 
-         segmentation.resize(num_vertices(graph_), true);
+         segmentation.assign(num_vertices(graph_), true);
          segmentation[S] = false; // source
          segmentation[T] = false; // sink
          typedef typename boost::property_map<graph_type, boost::vertex_index_t>::type VertexIndexMap;
-- 
2.43.0


From 3cd83b21b39b2659dc12bd21059b04cf353bdd67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:37 +0000
Subject: [PATCH 103/168] fix: QPBO::partialOptimality did not compile

---
 include/opengm/inference/qpbo.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/inference/qpbo.hxx b/include/opengm/inference/qpbo.hxx
index b31571c..d92e209 100644
--- a/include/opengm/inference/qpbo.hxx
+++ b/include/opengm/inference/qpbo.hxx
@@ -180,7 +180,7 @@ QPBO<GM,MIN_ST_CUT>::partialOptimality
       } else
          optVec[j] = false;
 
-   return opt/gm_.numerOfVariables();
+   return opt/gm_.numberOfVariables();
 }
 
 template<class GM,class MIN_ST_CUT>
-- 
2.43.0


From bcaa98c41e1bebdf2058da1ef9f4d4d5d98c22c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:37 +0000
Subject: [PATCH 104/168] fix: QPBO handles negative pairwise terms

---
 include/opengm/inference/qpbo.hxx | 35 +++++++++++++------------------
 1 file changed, 14 insertions(+), 21 deletions(-)

diff --git a/include/opengm/inference/qpbo.hxx b/include/opengm/inference/qpbo.hxx
index d92e209..fbca242 100644
--- a/include/opengm/inference/qpbo.hxx
+++ b/include/opengm/inference/qpbo.hxx
@@ -193,17 +193,24 @@ QPBO<GM,MIN_ST_CUT>::addEdgeCapacity(size_t v, size_t w, ValueType val)
 template<class GM,class MIN_ST_CUT>
 void
 QPBO<GM,MIN_ST_CUT>::addUnaryFactorType(const FactorType& factor)
+{
+   size_t c[]={0};
+   const ValueType c_nx_i = factor(c);
+   c[0]=1;
+   const ValueType c_x_i  = factor(c);
+
+   addUnaryFactorType(factor.variableIndex(0), c_nx_i, c_x_i);
+}
+
+template<class GM,class MIN_ST_CUT>
+void
+QPBO<GM,MIN_ST_CUT>::addUnaryFactorType(size_t x_i, ValueType c_nx_i, ValueType c_x_i)
 {
    // indices of literal nodes in graph_
-   size_t x_i  = factor.variableIndex(0);
    size_t nx_i = neg(x_i);
 
    // conversion to normal form on-the-fly: c_[n]x_i are the new
    // values of the unary factor.
-   size_t c[]={0};
-   ValueType c_nx_i = factor(c);
-   c[0]=1;
-   ValueType c_x_i  = factor(c);
 
    // has to be zero
    ValueType delta = std::min(c_nx_i, c_x_i);
@@ -306,22 +313,8 @@ QPBO<GM,MIN_ST_CUT>::addPairwiseFactorType
 
    // for every non-zero c_[n]x_{i,j} add two edges to the flow network
 
-   if (delta_c_nx_j != 0) {
-      addEdgeCapacity(x_j,    sink_, 0.5*delta_c_nx_j);
-      addEdgeCapacity(source_, nx_j, 0.5*delta_c_nx_j);
-   }
-   if (delta_c_x_j != 0) {
-      addEdgeCapacity(nx_j,   sink_, 0.5*delta_c_x_j);
-      addEdgeCapacity(source_,  x_j, 0.5*delta_c_x_j);
-   }
-   if (delta_c_nx_i != 0) {
-      addEdgeCapacity(x_i,    sink_, 0.5*delta_c_nx_i);
-      addEdgeCapacity(source_, nx_i, 0.5*delta_c_nx_i);
-   }
-   if (delta_c_x_i != 0) {
-      addEdgeCapacity(nx_i,   sink_, 0.5*delta_c_x_i);
-      addEdgeCapacity(source_,  x_i, 0.5*delta_c_x_i);
-   }
+   addUnaryFactorType(x_i, delta_c_nx_i, delta_c_x_i);
+   addUnaryFactorType(x_j, delta_c_nx_j, delta_c_x_j);
 }
 
 } // namespace opengm
-- 
2.43.0


From a10fb506a4cf8060d9feec2096b48201fe65743b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:15 +0000
Subject: [PATCH 105/168] fix: QPBO::arg overrides the method of the base
 class, so that value() uses it

---
 include/opengm/inference/qpbo.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/opengm/inference/qpbo.hxx b/include/opengm/inference/qpbo.hxx
index fbca242..94643a1 100644
--- a/include/opengm/inference/qpbo.hxx
+++ b/include/opengm/inference/qpbo.hxx
@@ -49,7 +49,7 @@ public:
    InferenceTermination infer();
    template<class VISITOR>
       InferenceTermination infer(VISITOR &);
-   InferenceTermination arg(std::vector<LabelType>&, const size_t& = 1) const;
+   InferenceTermination arg(std::vector<LabelType>&, const size_t = 1) const;
    double partialOptimality(std::vector<bool>&) const;
 
 private:
@@ -144,7 +144,7 @@ inline InferenceTermination
 QPBO<GM,MIN_ST_CUT>::arg
 (
    std::vector<LabelType>& arg,
-   const size_t& n
+   const size_t n
    ) const
 {
    if(n > 1) {
-- 
2.43.0


From f9e059ff2e20c3f24236a6accd40eea79441cc06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:29 +0000
Subject: [PATCH 106/168] fix: PrimalLPBound::getFactorVariable solves the
 problem of the requested factor if its value is buffered or its variables
 have changed

---
 include/opengm/inference/auxiliary/primal_lpbound.hxx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/opengm/inference/auxiliary/primal_lpbound.hxx b/include/opengm/inference/auxiliary/primal_lpbound.hxx
index cac675b..eec86b2 100644
--- a/include/opengm/inference/auxiliary/primal_lpbound.hxx
+++ b/include/opengm/inference/auxiliary/primal_lpbound.hxx
@@ -203,8 +203,11 @@ typename PrimalLPBound<GM,ACC>::ValueType PrimalLPBound<GM,ACC>::getFactorVariab
 {
 	_checkPWFactorID(factorId,"PrimalLPBound::getFactorVariable(): ");
 
-	if (_lastActiveSolver!=factorId)
+	if ( (_lastActiveSolver!=factorId) || (_bufferedValues[factorId] == ValueTypeNan) )
+	{
+		_bufferedValues[factorId] = ValueTypeNan;
 		getFactorValue(factorId);
+	}
 
 	return _solver.GetSolution(&matrix);
 }
-- 
2.43.0


From 6d45c41530fa3930bf1a895126dbd432ac12be98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:29 +0000
Subject: [PATCH 107/168] fix: PrimalLPBound keeps the factor table alive while
 the transportation problem is solved

---
 include/opengm/inference/auxiliary/primal_lpbound.hxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/opengm/inference/auxiliary/primal_lpbound.hxx b/include/opengm/inference/auxiliary/primal_lpbound.hxx
index eec86b2..2e78299 100644
--- a/include/opengm/inference/auxiliary/primal_lpbound.hxx
+++ b/include/opengm/inference/auxiliary/primal_lpbound.hxx
@@ -189,7 +189,8 @@ typename PrimalLPBound<GM,ACC>::ValueType PrimalLPBound<GM,ACC>::getFactorValue(
 	const typename GM::FactorType& factor=_gm[factorId];
 	IndexType var0=factor.variableIndex(0),
 			  var1=factor.variableIndex(1);
-	_solver.Init(_unaryFactors[var0].size(),_unaryFactors[var1].size(),FactorWrapper<typename GM::FactorType>(factor));
+	const FactorWrapper<typename GM::FactorType> wrapper(factor);
+	_solver.Init(_unaryFactors[var0].size(),_unaryFactors[var1].size(),wrapper);
 	_bufferedValues[factorId]=_solver.Solve(_unaryFactors[var0].begin(),_unaryFactors[var1].begin());
 	_lastActiveSolver=factorId;
 	}
-- 
2.43.0


From d7fd4762f619c7d204908eadf068bde53a27bcc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:29 +0000
Subject: [PATCH 108/168] fix: PrimalLPBound rejects requests for factors that
 are not pairwise

---
 include/opengm/inference/auxiliary/primal_lpbound.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/inference/auxiliary/primal_lpbound.hxx b/include/opengm/inference/auxiliary/primal_lpbound.hxx
index 2e78299..cc3aab9 100644
--- a/include/opengm/inference/auxiliary/primal_lpbound.hxx
+++ b/include/opengm/inference/auxiliary/primal_lpbound.hxx
@@ -176,7 +176,7 @@ void PrimalLPBound<GM,ACC>::_checkPWFactorID(IndexType factorId, const std::stri
 {
 	OPENGM_ASSERT(factorId < _gm.numberOfFactors());
 	if (_gm[factorId].numberOfVariables() !=2 )
-		std::runtime_error(message_prefix + "Function can be applied to second order factors only!");
+		throw std::runtime_error(message_prefix + "Function can be applied to second order factors only!");
 }
 
 template <class GM,class ACC>
-- 
2.43.0


From 040d8e2f453b76320f14876d3e204083e69d58e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:29 +0000
Subject: [PATCH 109/168] fix: PrimalLPBound::getVariableValue accepts
 variables without unary factor

---
 include/opengm/inference/auxiliary/primal_lpbound.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/inference/auxiliary/primal_lpbound.hxx b/include/opengm/inference/auxiliary/primal_lpbound.hxx
index cc3aab9..ce32163 100644
--- a/include/opengm/inference/auxiliary/primal_lpbound.hxx
+++ b/include/opengm/inference/auxiliary/primal_lpbound.hxx
@@ -219,9 +219,9 @@ typename PrimalLPBound<GM,ACC>::ValueType PrimalLPBound<GM,ACC>::getVariableValu
 	OPENGM_ASSERT(varId < _gm.numberOfVariables());
 	OPENGM_ASSERT(varId < _unaryFactors.size());
 	IndexType factorId=_mapping(varId);
-	OPENGM_ASSERT(_mapping(varId) < _gm.numberOfFactors());
 	if (factorId==VariableToFactorMapping<GM>::InvalidIndex)
 		return (ValueType)0;
+	OPENGM_ASSERT(factorId < _gm.numberOfFactors());
 
 	if (_bufferedValues[factorId] != ValueTypeNan)
 		return _bufferedValues[factorId];
-- 
2.43.0


From e9f0f97fade146d993c42ee0fead7ea81027a228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:29 +0000
Subject: [PATCH 110/168] fix: PrimalLPBound::ResetBuffer did not compile

---
 include/opengm/inference/auxiliary/primal_lpbound.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/inference/auxiliary/primal_lpbound.hxx b/include/opengm/inference/auxiliary/primal_lpbound.hxx
index ce32163..bfcf3bc 100644
--- a/include/opengm/inference/auxiliary/primal_lpbound.hxx
+++ b/include/opengm/inference/auxiliary/primal_lpbound.hxx
@@ -86,7 +86,7 @@ public:
 	template<class Matrix>
 	ValueType getFactorVariable(IndexType factorId, Matrix& matrix); //pairwise factor factorId, buffering of the solution is performed
 
-	void ResetBuffer(){_bufferedValues(_gm.numberOfFactors(),ValueTypeNan); _totalValue=ValueTypeNan;}//reset buffer, if you changed potentials of gm and want to take this fact into account
+	void ResetBuffer(){_bufferedValues.assign(_gm.numberOfFactors(),ValueTypeNan); _totalValue=ValueTypeNan;}//reset buffer, if you changed potentials of gm and want to take this fact into account
 	bool IsValueBuffered(IndexType factorId)const{OPENGM_ASSERT(factorId<_bufferedValues.size()); return (_bufferedValues[factorId] != ValueTypeNan);}
 	bool IsFactorVariableBuffered(IndexType factorId)const{return _lastActiveSolver==factorId;}
 	static void CheckDuplicateUnaryFactors(const GM& gm);
-- 
2.43.0


From 629314c35fd111c43af11491099249dba85f9997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:29 +0000
Subject: [PATCH 111/168] fix: transpose sizes the result as the transposed
 matrix

---
 include/opengm/inference/auxiliary/transportationsolver.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/inference/auxiliary/transportationsolver.hxx b/include/opengm/inference/auxiliary/transportationsolver.hxx
index f0d3373..9779fe3 100644
--- a/include/opengm/inference/auxiliary/transportationsolver.hxx
+++ b/include/opengm/inference/auxiliary/transportationsolver.hxx
@@ -558,7 +558,7 @@ private:
 template<class T>
 void transpose(const MatrixWrapper<T>& input, MatrixWrapper<T>& result)
 {
- result.resize(input.xsize(),input.ysize());
+ result.resize(input.ysize(),input.xsize());
  for (size_t x=0;x<input.xsize();++x)
   for (size_t y=0;y<input.ysize();++y)
 	  result(y,x)=input(x,y);
-- 
2.43.0


From 7ac6785bd29d8574d9cc2116769d26a866b7a634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:14 +0000
Subject: [PATCH 112/168] fix: GreedyGremlin::reset discards the labeling of
 the previous run

---
 include/opengm/inference/greedygremlin.hxx | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/opengm/inference/greedygremlin.hxx b/include/opengm/inference/greedygremlin.hxx
index 2d876a7..62017a9 100644
--- a/include/opengm/inference/greedygremlin.hxx
+++ b/include/opengm/inference/greedygremlin.hxx
@@ -103,13 +103,11 @@ namespace opengm {
    ///
    /// \warning  reset assumes that the structure of
    /// the graphical model has not changed
-   ///
-   /// TODO
    template<class GM, class ACC >
    void
    GreedyGremlin<GM,ACC>::reset()
    {
-      ///todo
+      std::fill(conf_.begin(), conf_.end(), 0);
    }
 
    template <class GM, class ACC>
-- 
2.43.0


From 121aaca70c7fdc591aff0d4482e71dc58f53fcb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:40 +0000
Subject: [PATCH 113/168] fix: QPBO::arg and partialOptimality report that
 there is no labeling before inference instead of reading an empty vector

---
 include/opengm/inference/qpbo.hxx | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/opengm/inference/qpbo.hxx b/include/opengm/inference/qpbo.hxx
index 94643a1..46cfad7 100644
--- a/include/opengm/inference/qpbo.hxx
+++ b/include/opengm/inference/qpbo.hxx
@@ -147,7 +147,7 @@ QPBO<GM,MIN_ST_CUT>::arg
    const size_t n
    ) const
 {
-   if(n > 1) {
+   if(n > 1 || stateBool_.empty()) {
       return UNKNOWN;
    }
    else {
@@ -172,7 +172,9 @@ QPBO<GM,MIN_ST_CUT>::partialOptimality
    ) const
 {
    double opt = 0;
-   optVec.resize(numVars_);
+   optVec.assign(numVars_, false);
+   if(stateBool_.empty())
+      return opt;
    for(size_t j=0; j<optVec.size(); ++j)
       if (stateBool_[j+2] != stateBool_[neg(j)+2]) {
          optVec[j] = true;
-- 
2.43.0


From 46a3265b67e78474019ddb84e894537692443635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:05 +0000
Subject: [PATCH 114/168] fix: repeated GraphCut::infer does not add the
 terminal capacities again

---
 include/opengm/inference/graphcut.hxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/opengm/inference/graphcut.hxx b/include/opengm/inference/graphcut.hxx
index 86af803..a179488 100644
--- a/include/opengm/inference/graphcut.hxx
+++ b/include/opengm/inference/graphcut.hxx
@@ -370,6 +370,9 @@ GraphCut<GM, ACC, MINSTCUT>::infer(VISITOR & visitor) {
    for(size_t i=0; i<sEdges_.size(); ++i) {
       minStCut_->addEdge(0, i+2, sEdges_[i]);
       minStCut_->addEdge(i+2, 1, tEdges_[i]);
+      // already part of the graph if inference is repeated
+      sEdges_[i] = 0;
+      tEdges_[i] = 0;
    }
    minStCut_->calculateCut(state_);
    inferenceDone_=true;
-- 
2.43.0


From f5bebf27d4ba0e9da6281a8cca7af4e9668033f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:05 +0000
Subject: [PATCH 115/168] fix: AlphaExpansion::reset restores the initial
 labels of variables without unary factors

---
 include/opengm/inference/alphaexpansion.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/opengm/inference/alphaexpansion.hxx b/include/opengm/inference/alphaexpansion.hxx
index 16c55cd..6640a6e 100644
--- a/include/opengm/inference/alphaexpansion.hxx
+++ b/include/opengm/inference/alphaexpansion.hxx
@@ -458,7 +458,7 @@ AlphaExpansion<GM, INF>::setInitialLabel
 (
    std::vector<LabelType>& l
 ) {
-   label_.resize(gm_.numberOfVariables());
+   label_.assign(gm_.numberOfVariables(), 0);
    if(l.size() == label_.size()) {
       for(size_t i=0; i<l.size();++i) {
          if(l[i]>=gm_.numberOfLabels(i)) return;
@@ -472,7 +472,7 @@ AlphaExpansion<GM, INF>::setInitialLabel
 template<class GM, class INF>
 inline void
 AlphaExpansion<GM, INF>::setInitialLabelLocalOptimal() {
-   label_.resize(gm_.numberOfVariables(), 0);
+   label_.assign(gm_.numberOfVariables(), 0);
    std::vector<size_t> accVec;
    for(size_t i=0; i<gm_.numberOfFactors();++i) {
       if(gm_[i].numberOfVariables()==1) {
-- 
2.43.0


From 69335df861a7ee9602c36ff22fba1ea60aa08083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:05 +0000
Subject: [PATCH 116/168] fix: AStar starts every inference with an empty
 search tree and stops when the visitor asks for it

---
 include/opengm/inference/astar.hxx | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/include/opengm/inference/astar.hxx b/include/opengm/inference/astar.hxx
index 5b95a4f..52b8da5 100644
--- a/include/opengm/inference/astar.hxx
+++ b/include/opengm/inference/astar.hxx
@@ -262,12 +262,7 @@ namespace opengm {
          OPENGM_ASSERT(optimizedFactor_[i].numberOfVariables() == 1);
          OPENGM_ASSERT(optimizedFactor_[i].variableIndex(0) == index[0]);
       }
-      //PUSH EMPTY CONFIGURATION TO HEAP
-      AStarNode<IndependentFactorType> a;
-      a.conf.resize(0);
-      a.value = 0;
-      array_.push_back(a);
-      make_heap(array_.begin(), array_.end(), comp1);
+      reset();
       //Check if maximal order is smaller equal 2, otherwise fall back to naive computation of heuristic
       if(parameter_.heuristic_ == parameter_.FASTHEURISTIC) {
          for(size_t i=0; i<parameter_.treeFactorIds_.size(); ++i) {
@@ -291,13 +286,20 @@ namespace opengm {
    ///
    /// \warning  reset assumes that the structure of
    /// the graphical model has not changed
-   ///
-   /// TODO
    template<class GM, class ACC >
    void
    AStar<GM,ACC>::reset()
    {
-      ///todo
+      ACC::ineutral(belowBound_);
+      ACC::neutral(aboveBound_);
+      optConf_.resize(0);
+      //PUSH EMPTY CONFIGURATION TO HEAP
+      AStarNode<IndependentFactorType> a;
+      a.conf.resize(0);
+      a.value = 0;
+      array_.clear();
+      array_.push_back(a);
+      make_heap(array_.begin(), array_.end(), comp1);
    }
 
    template <class GM, class ACC>
@@ -315,7 +317,7 @@ namespace opengm {
    InferenceTermination AStar<GM,ACC>::infer(VisitorType& visitor)
    { 
       size_t exitFlag=0;
-      optConf_.resize(0);
+      reset();
       visitor.begin(*this);    
       while(array_.size()>0 && exitFlag==0) {
          if(parameter_.numberOfOpt_ == optConf_.size()) {
@@ -328,6 +330,9 @@ namespace opengm {
             exitFlag = visitor(*this); 
             //visitor(*this, array_.front().conf, array_.size(), array_.front().value, globalBound_, time);
          }
+         if(exitFlag!=0) {
+            break;
+         }
          if(array_.front().conf.size()>=numNodes_){
             ValueType  value = array_.front().value;
             belowBound_ = value;
@@ -336,7 +341,7 @@ namespace opengm {
                conf[parameter_.nodeOrder_[n]] = array_.front().conf[n];
             } 
             optConf_.push_back(conf);
-            visitor(*this);
+            exitFlag = visitor(*this);
             if(ACC::bop(parameter_.objectiveBound_, value)) {
                visitor.end(*this);
                return NORMAL;
-- 
2.43.0


From 6b4ac0a952e1f18ad4b0790c9fda48f9694199d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:21 +0000
Subject: [PATCH 117/168] fix: Gibbs tracks the best labeling it visits also
 without a starting point

---
 include/opengm/inference/gibbs.hxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/opengm/inference/gibbs.hxx b/include/opengm/inference/gibbs.hxx
index 959df70..d0d0cf7 100644
--- a/include/opengm/inference/gibbs.hxx
+++ b/include/opengm/inference/gibbs.hxx
@@ -192,7 +192,7 @@ Gibbs<GM, ACC>::Gibbs
    currentBestValue_()
 {
    inInference_=false;
-   ACC::ineutral(currentBestValue_);
+   currentBestValue_ = movemaker_.value();
    if(parameter.startPoint_.size() != 0) {
       if(parameter.startPoint_.size() == gm.numberOfVariables()) {
          movemaker_.initialize(parameter.startPoint_.begin());
@@ -221,6 +221,7 @@ Gibbs<GM, ACC>::reset() {
    else {
      movemaker_.reset();
      std::fill(currentBestState_.begin(), currentBestState_.end(), 0);
+     currentBestValue_ = movemaker_.value();
    }
 }
 
-- 
2.43.0


From a6a169d14f021afcff15c9951d01e5954879985a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:21 +0000
Subject: [PATCH 118/168] fix: Gibbs with cyclic proposals visits every
 variable

---
 include/opengm/inference/gibbs.hxx | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/opengm/inference/gibbs.hxx b/include/opengm/inference/gibbs.hxx
index d0d0cf7..76e84c4 100644
--- a/include/opengm/inference/gibbs.hxx
+++ b/include/opengm/inference/gibbs.hxx
@@ -277,10 +277,10 @@ InferenceTermination Gibbs<GM, ACC>::infer(
    opengm::RandomUniform<size_t> randomVariable(0, gm_.numberOfVariables());
    opengm::RandomUniform<ProbabilityType> randomProb(0, 1);
    
+   size_t variableIndex = 0;
    if(parameter_.useTemp_==false){
       for(size_t iteration = 0; iteration < parameter_.maxNumberOfSamplingSteps_ + parameter_.numberOfBurnInSteps_; ++iteration) {
          // select variable
-         size_t variableIndex = 0;
          if(this->parameter_.variableProposal_ == Parameter::RANDOM) {
             variableIndex = randomVariable();
          }
@@ -330,7 +330,6 @@ InferenceTermination Gibbs<GM, ACC>::infer(
    else {
       for(size_t iteration = 0; iteration < parameter_.maxNumberOfSamplingSteps_ + parameter_.numberOfBurnInSteps_; ++iteration) {
          // select variable
-         size_t variableIndex = 0;
          if(this->parameter_.variableProposal_ == Parameter::RANDOM) {
             variableIndex = randomVariable();
          }
-- 
2.43.0


From 20cf3907157fd6968eb67af1b5ba1a07679aae33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:49 +0000
Subject: [PATCH 119/168] fix: Gibbs stops when the visitor asks for it

---
 include/opengm/inference/gibbs.hxx | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/include/opengm/inference/gibbs.hxx b/include/opengm/inference/gibbs.hxx
index 76e84c4..5eb0553 100644
--- a/include/opengm/inference/gibbs.hxx
+++ b/include/opengm/inference/gibbs.hxx
@@ -305,7 +305,9 @@ InferenceTermination Gibbs<GM, ACC>::infer(
                      currentBestState_[k] = movemaker_.state(k);
                   }
                }
-               visitor(*this);
+               if(visitor(*this) != visitors::VisitorReturnFlag::ContinueInf) {
+                  break;
+               }
                //visitor(*this, newValue, currentBestValue_, iteration, true, burningIn);
             }
             else {
@@ -315,11 +317,15 @@ InferenceTermination Gibbs<GM, ACC>::infer(
                   >::convert(newValue, oldValue);
                if(randomProb() < pFlip) {
                   movemaker_.move(&variableIndex, &variableIndex + 1, &label); 
-                  visitor(*this);
+                  if(visitor(*this) != visitors::VisitorReturnFlag::ContinueInf) {
+                     break;
+                  }
                   //visitor(*this, newValue, currentBestValue_, iteration, true, burningIn);
                }
                else {
-                  visitor(*this);
+                  if(visitor(*this) != visitors::VisitorReturnFlag::ContinueInf) {
+                     break;
+                  }
                  // visitor(*this, newValue, currentBestValue_, iteration, false, burningIn);
                }
             }
@@ -354,7 +360,9 @@ InferenceTermination Gibbs<GM, ACC>::infer(
                      currentBestState_[k] = movemaker_.state(k);
                   }
                }
-               visitor(*this);
+               if(visitor(*this) != visitors::VisitorReturnFlag::ContinueInf) {
+                  break;
+               }
                //visitor(*this, newValue, currentBestValue_, iteration, true, burningIn);
             }
             else {
@@ -365,12 +373,16 @@ InferenceTermination Gibbs<GM, ACC>::infer(
                if(randomProb() < pFlip*this->getTemperature(iteration)){
                   //std::cout<<"temp="<<this->getTemperature(iteration)<<"\n";
                   movemaker_.move(&variableIndex, &variableIndex + 1, &label); 
-                  visitor(*this);
+                  if(visitor(*this) != visitors::VisitorReturnFlag::ContinueInf) {
+                     break;
+                  }
                   //visitor(*this, newValue, currentBestValue_, iteration, true, burningIn);
                }
                else {
                   //std::cout<<"temp="<<this->getTemperature(iteration)<<"\n";
-                  visitor(*this);
+                  if(visitor(*this) != visitors::VisitorReturnFlag::ContinueInf) {
+                     break;
+                  }
                   //visitor(*this, newValue, currentBestValue_, iteration, false, burningIn);
                }
             }
-- 
2.43.0


From 6ecf5f73993e7f7ae085d2c1afa6b5db70a5c22c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:58 +0000
Subject: [PATCH 120/168] fix: Gibbs calls the GibbsMarginalVisitor, which no
 longer compiled with it

---
 include/opengm/inference/gibbs.hxx | 63 ++++++++++++++++++++++++++----
 1 file changed, 55 insertions(+), 8 deletions(-)

diff --git a/include/opengm/inference/gibbs.hxx b/include/opengm/inference/gibbs.hxx
index 5eb0553..af39e95 100644
--- a/include/opengm/inference/gibbs.hxx
+++ b/include/opengm/inference/gibbs.hxx
@@ -72,6 +72,9 @@ public:
    void operator()(const GibbsType&, const ValueType, const ValueType, const size_t, const bool, const bool);
 
    // query
+   void begin(const GibbsType&) const {}
+   size_t operator()(const GibbsType&);
+   void end(const GibbsType&) const {}
    void begin(const GibbsType&, const ValueType, const ValueType) const {}
    void end(const GibbsType&, const ValueType, const ValueType) const {}
    size_t numberOfSamples() const;
@@ -155,6 +158,9 @@ public:
    ValueType markovValue() const;
    LabelType currentBestState(const size_t) const;
    ValueType currentBestValue() const;
+   size_t iteration() const;
+   bool moveAccepted() const;
+   bool burningIn() const;
 
 private:
    ValueType cosTemp(const ValueType arg,const ValueType periode,const ValueType min,const ValueType max)const{
@@ -176,6 +182,9 @@ private:
    std::vector<size_t> currentBestState_;
    ValueType currentBestValue_;
    bool inInference_;
+   size_t iteration_;
+   bool moveAccepted_;
+   bool burningIn_;
 };
 
 template<class GM, class ACC>
@@ -192,6 +201,9 @@ Gibbs<GM, ACC>::Gibbs
    currentBestValue_()
 {
    inInference_=false;
+   iteration_ = 0;
+   moveAccepted_ = false;
+   burningIn_ = false;
    currentBestValue_ = movemaker_.value();
    if(parameter.startPoint_.size() != 0) {
       if(parameter.startPoint_.size() == gm.numberOfVariables()) {
@@ -293,7 +305,8 @@ InferenceTermination Gibbs<GM, ACC>::infer(
          const size_t label = randomLabel();
 
          // move
-         const bool burningIn = (iteration < parameter_.numberOfBurnInSteps_);
+         burningIn_ = (iteration < parameter_.numberOfBurnInSteps_);
+         iteration_ = iteration;
          if(label != movemaker_.state(variableIndex)) {
             const ValueType oldValue = movemaker_.value();
             const ValueType newValue = movemaker_.valueAfterMove(&variableIndex, &variableIndex + 1, &label);
@@ -305,10 +318,10 @@ InferenceTermination Gibbs<GM, ACC>::infer(
                      currentBestState_[k] = movemaker_.state(k);
                   }
                }
+               moveAccepted_ = true;
                if(visitor(*this) != visitors::VisitorReturnFlag::ContinueInf) {
                   break;
                }
-               //visitor(*this, newValue, currentBestValue_, iteration, true, burningIn);
             }
             else {
                const ProbabilityType pFlip =
@@ -317,16 +330,16 @@ InferenceTermination Gibbs<GM, ACC>::infer(
                   >::convert(newValue, oldValue);
                if(randomProb() < pFlip) {
                   movemaker_.move(&variableIndex, &variableIndex + 1, &label); 
+                  moveAccepted_ = true;
                   if(visitor(*this) != visitors::VisitorReturnFlag::ContinueInf) {
                      break;
                   }
-                  //visitor(*this, newValue, currentBestValue_, iteration, true, burningIn);
                }
                else {
+                  moveAccepted_ = false;
                   if(visitor(*this) != visitors::VisitorReturnFlag::ContinueInf) {
                      break;
                   }
-                 // visitor(*this, newValue, currentBestValue_, iteration, false, burningIn);
                }
             }
             ++iteration;
@@ -348,7 +361,8 @@ InferenceTermination Gibbs<GM, ACC>::infer(
          const size_t label = randomLabel();
 
          // move
-         const bool burningIn = (iteration < parameter_.numberOfBurnInSteps_);
+         burningIn_ = (iteration < parameter_.numberOfBurnInSteps_);
+         iteration_ = iteration;
          if(label != movemaker_.state(variableIndex)) {
             const ValueType oldValue = movemaker_.value();
             const ValueType newValue = movemaker_.valueAfterMove(&variableIndex, &variableIndex + 1, &label);
@@ -360,10 +374,10 @@ InferenceTermination Gibbs<GM, ACC>::infer(
                      currentBestState_[k] = movemaker_.state(k);
                   }
                }
+               moveAccepted_ = true;
                if(visitor(*this) != visitors::VisitorReturnFlag::ContinueInf) {
                   break;
                }
-               //visitor(*this, newValue, currentBestValue_, iteration, true, burningIn);
             }
             else {
                const ProbabilityType pFlip =
@@ -373,17 +387,17 @@ InferenceTermination Gibbs<GM, ACC>::infer(
                if(randomProb() < pFlip*this->getTemperature(iteration)){
                   //std::cout<<"temp="<<this->getTemperature(iteration)<<"\n";
                   movemaker_.move(&variableIndex, &variableIndex + 1, &label); 
+                  moveAccepted_ = true;
                   if(visitor(*this) != visitors::VisitorReturnFlag::ContinueInf) {
                      break;
                   }
-                  //visitor(*this, newValue, currentBestValue_, iteration, true, burningIn);
                }
                else {
                   //std::cout<<"temp="<<this->getTemperature(iteration)<<"\n";
+                  moveAccepted_ = false;
                   if(visitor(*this) != visitors::VisitorReturnFlag::ContinueInf) {
                      break;
                   }
-                  //visitor(*this, newValue, currentBestValue_, iteration, false, burningIn);
                }
             }
             ++iteration;
@@ -455,6 +469,30 @@ Gibbs<GM, ACC>::currentBestValue() const
    return currentBestValue_;
 }
 
+/// \brief number of the current sampling step
+template<class GM, class ACC>
+inline size_t
+Gibbs<GM, ACC>::iteration() const
+{
+   return iteration_;
+}
+
+/// \brief true if the most recently proposed move was accepted
+template<class GM, class ACC>
+inline bool
+Gibbs<GM, ACC>::moveAccepted() const
+{
+   return moveAccepted_;
+}
+
+/// \brief true if the current sampling step belongs to the burn-in phase
+template<class GM, class ACC>
+inline bool
+Gibbs<GM, ACC>::burningIn() const
+{
+   return burningIn_;
+}
+
 template<class GIBBS>
 inline
 GibbsMarginalVisitor<GIBBS>::GibbsMarginalVisitor()
@@ -488,6 +526,15 @@ GibbsMarginalVisitor<GIBBS>::assign(
     gm_ = &gm;
 }
 
+template<class GIBBS>
+inline size_t
+GibbsMarginalVisitor<GIBBS>::operator()(
+   const typename GibbsMarginalVisitor<GIBBS>::GibbsType& gibbs
+) {
+   (*this)(gibbs, gibbs.markovValue(), gibbs.currentBestValue(), gibbs.iteration(), gibbs.moveAccepted(), gibbs.burningIn());
+   return visitors::VisitorReturnFlag::ContinueInf;
+}
+
 template<class GIBBS>
 inline void
 GibbsMarginalVisitor<GIBBS>::operator()(
-- 
2.43.0


From b68d412eaf2628e8e417826595d93902d89f3a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:57 +0000
Subject: [PATCH 121/168] fix: VariableToFactorMapping throws its exception for
 duplicate unary factors

---
 include/opengm/inference/trws/utilities2.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/inference/trws/utilities2.hxx b/include/opengm/inference/trws/utilities2.hxx
index 763cfde..7a81fc9 100644
--- a/include/opengm/inference/trws/utilities2.hxx
+++ b/include/opengm/inference/trws/utilities2.hxx
@@ -55,7 +55,7 @@ _mapping(gm.numberOfVariables(),InvalidIndex)//invalid index
 		if (gm[i].numberOfVariables() == 1)
 		{ if (_mapping[gm[i].variableIndex(0)]==InvalidIndex)
 			_mapping[gm[i].variableIndex(0)]=i;
-		  else std::runtime_error("VariableToFactorMapping::VariableToFactorMapping() : duplicate unary factor!");
+		  else throw std::runtime_error("VariableToFactorMapping::VariableToFactorMapping() : duplicate unary factor!");
 		}
 
 	_numberOfUnaryFactors=std::count_if(_mapping.begin(),_mapping.end(),std::bind2nd(std::not_equal_to<IndexType>(),InvalidIndex));
-- 
2.43.0


From 0d42d948c147a6c0055daacf76ec0d2661d2eb46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:57 +0000
Subject: [PATCH 122/168] fix: decompositions into chains reject factors of
 orders they cannot handle

---
 include/opengm/inference/trws/trws_decomposition.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/opengm/inference/trws/trws_decomposition.hxx b/include/opengm/inference/trws/trws_decomposition.hxx
index 2f282f0..44bc0d4 100644
--- a/include/opengm/inference/trws/trws_decomposition.hxx
+++ b/include/opengm/inference/trws/trws_decomposition.hxx
@@ -142,7 +142,7 @@ public:
 		{
 			if (gm[fId].numberOfVariables()==1) continue;
 			if ((gm[fId].numberOfVariables()>2) || (gm[fId].numberOfVariables()==0))
-				std::runtime_error("EdgeDecomposition<GM>::EdgeDecomposition(): Only factors of order 1 or 2 are supported!");
+				throw std::runtime_error("EdgeDecomposition<GM>::EdgeDecomposition(): Only factors of order 1 or 2 are supported!");
 
 			//factor of order 2:
 			parent::_variableLists[pwFid][0]=gm[fId].variableIndex(0);
@@ -319,7 +319,7 @@ void Decomposition<GM>::_CreateNodeList(const GM & gm,NodeList* pnodeList)
 	varList.resize(gm.numberOfVariables());
 	for (IndexType factorId=0;factorId<gm.numberOfFactors();++factorId)
 	{
-		if (gm[factorId].numberOfVariables()>2)
+		if ((gm[factorId].numberOfVariables()>2) || (gm[factorId].numberOfVariables()==0))
 			throw std::runtime_error("CreateEdgeList(): Only factors up to order 2 are supported!");
 
 		if (gm[factorId].numberOfVariables()==1) continue;
-- 
2.43.0


From 5315c0f07b1a62450b388f9afef6e4b11c7b0002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:07 +0000
Subject: [PATCH 123/168] fix: EdgeDecomposition covers variables without edges

---
 include/opengm/inference/trws/trws_decomposition.hxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/opengm/inference/trws/trws_decomposition.hxx b/include/opengm/inference/trws/trws_decomposition.hxx
index 44bc0d4..b45cc97 100644
--- a/include/opengm/inference/trws/trws_decomposition.hxx
+++ b/include/opengm/inference/trws/trws_decomposition.hxx
@@ -150,6 +150,7 @@ public:
 			parent::_pwFactorLists[pwFid][0]=fId;
 			++pwFid;
 		}
+		parent::CheckForIsolatedNodes(gm);
 	}
 };
 
-- 
2.43.0


From 6de74d09dbcbfa4dbf4a4eae4faaa08370c92c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:07 +0000
Subject: [PATCH 124/168] fix: GridDecomposition rejects models which are not a
 complete grid instead of ignoring their other factors

---
 include/opengm/inference/trws/trws_decomposition.hxx | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/opengm/inference/trws/trws_decomposition.hxx b/include/opengm/inference/trws/trws_decomposition.hxx
index b45cc97..b5d258d 100644
--- a/include/opengm/inference/trws/trws_decomposition.hxx
+++ b/include/opengm/inference/trws/trws_decomposition.hxx
@@ -238,6 +238,10 @@ void GridDecomposition<GM>::_computeGridSizes()
 {
 	IndexType numberOfVars=parent::_gm.numberOfVariables();
 	IndexType numTotal=parent::_gm.numberOfFactors();
+
+	parent::CheckUnaryFactors(parent::_gm);
+	_xsize=numberOfVars;
+	_ysize=1;
 	std::vector<IndexType> ind;
 	for (IndexType f=numberOfVars;f<numTotal;++f)
 	{
@@ -270,6 +274,8 @@ template<class GM>
 void GridDecomposition<GM>::_CheckGridModel()
 {
 	bool incorrect=false;
+	if (parent::_gm.numberOfFactors()!=_xysize()+(_xsize-1)*_ysize+_xsize*(_ysize-1))
+		throw std::runtime_error("GridDecomposition::_CheckGridModel():Incorrect grid structure!");
 	//check vertical structure
 	for (IndexType y=0;y<_ysize;++y)
 	 for (IndexType x=0;x<_xsize;++x)
-- 
2.43.0


From df1ca1d3b3ae9e595e9ca3a1599abdedc46a5784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:52 +0000
Subject: [PATCH 125/168] fix: the duality gap check accepts a closed gap up to
 rounding errors

---
 include/opengm/inference/trws/trws_base.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/inference/trws/trws_base.hxx b/include/opengm/inference/trws/trws_base.hxx
index facdcba..898619f 100644
--- a/include/opengm/inference/trws/trws_base.hxx
+++ b/include/opengm/inference/trws/trws_base.hxx
@@ -582,7 +582,7 @@ void TRWSPrototype<SubSolver>::_InitSubSolvers()
 template <class SubSolver>
 bool TRWSPrototype<SubSolver>::CheckDualityGap(ValueType primalBound,ValueType dualBound)
 {
-	OPENGM_ASSERT((ACC::bop(-1,1) ? 1 : -1 )*(primalBound-dualBound) >  -dualBound*std::numeric_limits<ValueType>::epsilon());
+	OPENGM_ASSERT((ACC::bop(-1,1) ? 1 : -1 )*(primalBound-dualBound) >= -(1+fabs(primalBound)+fabs(dualBound))*sqrt(std::numeric_limits<ValueType>::epsilon()));
 
 //	_fout << "(ACC::bop(-1,1) ? 1 : -1 )*(primalBound-dualBound)=" << (ACC::bop(-1,1) ? 1 : -1 )*(primalBound-dualBound)
 //			<< ", -dualBound*std::numeric_limits<ValueType>::epsilon()=" << -dualBound*std::numeric_limits<ValueType>::epsilon()<<std::endl;
-- 
2.43.0


From 4b39b5d806a85e813943b04b6dd1c0dd737f169f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:48 +0000
Subject: [PATCH 126/168] fix: NesterovAcceleratedGradient ends the visitor
 when the first labeling is optimal

---
 include/opengm/inference/trws/smooth_nesterov.hxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/opengm/inference/trws/smooth_nesterov.hxx b/include/opengm/inference/trws/smooth_nesterov.hxx
index b135cf6..a30edf5 100644
--- a/include/opengm/inference/trws/smooth_nesterov.hxx
+++ b/include/opengm/inference/trws/smooth_nesterov.hxx
@@ -293,6 +293,10 @@ InferenceTermination NesterovAcceleratedGradient<GM,ACC>::infer(VISITOR & vis)
 		parent::_fout << "NesterovAcceleratedGradient::_CheckStoppingCondition(): Precision attained! Problem solved!"<<std::endl;
 	#endif
 
+		 visitor();
+		 visitor.log("oracleCalls",(double)counter);
+		 visitor.log("primalLPbound",(double)parent::_bestPrimalLPbound);
+		 visitor.end();
 		 return NORMAL;
 	}
 
-- 
2.43.0


From 0d708097be9d01a94d3abf1778094303b4cb31c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:09 +0000
Subject: [PATCH 127/168] fix: DualDecompositionSubGradient does not divide by
 a zero subgradient norm when the subproblems agree

---
 .../dualdecomposition/dualdecomposition_subgradient.hxx         | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/opengm/inference/dualdecomposition/dualdecomposition_subgradient.hxx b/include/opengm/inference/dualdecomposition/dualdecomposition_subgradient.hxx
index ae3247d..b692ebf 100644
--- a/include/opengm/inference/dualdecomposition/dualdecomposition_subgradient.hxx
+++ b/include/opengm/inference/dualdecomposition/dualdecomposition_subgradient.hxx
@@ -216,11 +216,13 @@ namespace opengm {
             double subgradientNorm = euclideanProjectedSubGradientNorm();
             stepsize = para_.stepsizeStride_ * fabs(acUpperBound_.value() - lowerBound_) 
                        /subgradientNorm/subgradientNorm;
+            if(subgradientNorm == 0) stepsize = 0; // the subproblems agree
          }
          else{
             double primalDualGap = fabs(acUpperBound_.value() + acNegLowerBound_.value());
             double subgradientNorm = euclideanProjectedSubGradientNorm();//(*this).subGradientNorm(1); 
             stepsize = para_.getStepsize(iteration,primalDualGap,subgradientNorm); 
+            if(subgradientNorm == 0) stepsize = 0; // the subproblems agree
 //            std::cout << stepsize << std::endl;
          }
      
-- 
2.43.0


From 8408a5ca32dc0f3ae7787271ca91bef78f4f913b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:33 +0000
Subject: [PATCH 128/168] fix: proposal generators propose only labels of the
 variable

---
 include/opengm/inference/fusion_based_inf.hxx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/opengm/inference/fusion_based_inf.hxx b/include/opengm/inference/fusion_based_inf.hxx
index 3ef0c3a..7dcadb1 100644
--- a/include/opengm/inference/fusion_based_inf.hxx
+++ b/include/opengm/inference/fusion_based_inf.hxx
@@ -194,7 +194,7 @@ namespace proposal_gen{
                     }
                     else{
                         direction_[vi] = -1;
-                        proposal[vi] = cl - 1 ;
+                        proposal[vi] = cl>=1 ? cl - 1 : cl;
                     }
                 }
                 else{
@@ -203,7 +203,7 @@ namespace proposal_gen{
                     }
                     else{
                         direction_[vi] = 1;
-                        proposal[vi] = cl + 1 ;
+                        proposal[vi] = cl+1<numL ? cl + 1 : cl;
                     }
                 }
             }
@@ -616,7 +616,7 @@ namespace proposal_gen{
               proposal.resize(gm_.numberOfVariables(),0.0);
               opengm::RandomUniform<double> randomLabel(-param_.sigma_*1.5, param_.sigma_*1.5,currentStep_);
               for(size_t i=0; i<proposal.size();++i){
-                 proposal[i] = std::min(gm_.numberOfLabels(i), (LabelType)(std::max(0.0,bluredLabel_[i] + randomLabel())));
+                 proposal[i] = std::min((LabelType)(gm_.numberOfLabels(i)-1), (LabelType)(std::max(0.0,bluredLabel_[i] + randomLabel())));
               }
            }
            ++currentStep_;
@@ -769,7 +769,7 @@ namespace proposal_gen{
                 uniformGens_.reserve(bluredOpt.size());
                 for(size_t var=0 ; var<bluredOpt.size(); ++var){
                    LabelType minVal = (LabelType)(std::max((double)(0)         , bluredOpt[var]-param_.sigma_*1.5));
-                   LabelType maxVal = (LabelType)(std::min((double)(numLabels) , bluredOpt[var]+param_.sigma_*1.5));
+                   LabelType maxVal = (LabelType)(std::min((double)(numLabels-1) , bluredOpt[var]+param_.sigma_*1.5));
                    uniformGens_[var] = opengm::RandomUniform<LabelType>(minVal, maxVal+1, var);
                 }
              }   
-- 
2.43.0


From 91297f0779dee6b4e64bfd5083b2f12fab32b3a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:33 +0000
Subject: [PATCH 129/168] fix: EnergyBlurGen sizes its generators instead of
 only reserving memory for them

---
 include/opengm/inference/fusion_based_inf.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/opengm/inference/fusion_based_inf.hxx b/include/opengm/inference/fusion_based_inf.hxx
index 7dcadb1..ffa8405 100644
--- a/include/opengm/inference/fusion_based_inf.hxx
+++ b/include/opengm/inference/fusion_based_inf.hxx
@@ -754,7 +754,7 @@ namespace proposal_gen{
                 }
              } 
              if(param_.useLocalMargs_){
-                localMargGens_.reserve(bluredOpt.size());
+                localMargGens_.resize(bluredOpt.size());
                 for(size_t var=0 ; var<bluredOpt.size(); ++var){
                    const ValueType minValue = *std::min_element(margs[var].begin(),margs[var].end());
                    for(LabelType l=0; l<numLabels; ++l){
@@ -766,7 +766,7 @@ namespace proposal_gen{
                    localMargGens_[var]=opengm::RandomDiscreteWeighted<LabelType,ValueType>(margs[var].begin(),margs[var].end(),var);  
                 }
              }else{
-                uniformGens_.reserve(bluredOpt.size());
+                uniformGens_.resize(bluredOpt.size());
                 for(size_t var=0 ; var<bluredOpt.size(); ++var){
                    LabelType minVal = (LabelType)(std::max((double)(0)         , bluredOpt[var]-param_.sigma_*1.5));
                    LabelType maxVal = (LabelType)(std::min((double)(numLabels-1) , bluredOpt[var]+param_.sigma_*1.5));
-- 
2.43.0


From 94bdeb2df09054210416164ff66953341ca8fdf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:33 +0000
Subject: [PATCH 130/168] fix: FusionMover returns the better labeling when the
 solver fails

---
 include/opengm/inference/auxiliary/fusion_move/fusion_mover.hxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/opengm/inference/auxiliary/fusion_move/fusion_mover.hxx b/include/opengm/inference/auxiliary/fusion_move/fusion_mover.hxx
index 0d0f10d..3ed302e 100644
--- a/include/opengm/inference/auxiliary/fusion_move/fusion_mover.hxx
+++ b/include/opengm/inference/auxiliary/fusion_move/fusion_mover.hxx
@@ -918,6 +918,7 @@ FusionMover<GM, ACC>::fuse(
     }
     else{
        valueResult_ = valueBest_;
+       std::copy(argBest_->begin(), argBest_->end(), argResult_->begin());
     }
     modelProxy.freeModel(); 
     //std::cout<<"done!"<<std::endl;
-- 
2.43.0


From 7017aaa1cac21763fb1820ee9e5b9d64c584c486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:33 +0000
Subject: [PATCH 131/168] fix: SelfFusion keeps the first labeling of the
 solver instead of overwriting it with zeros

---
 include/opengm/inference/self_fusion.hxx | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/include/opengm/inference/self_fusion.hxx b/include/opengm/inference/self_fusion.hxx
index 9e7e9ea..42913b9 100644
--- a/include/opengm/inference/self_fusion.hxx
+++ b/include/opengm/inference/self_fusion.hxx
@@ -113,10 +113,7 @@ struct FusionVisitor{
         if(iteration_==0 ){         
             inference.arg(argBest_);
             ValueType value = inference.value();
-            if(AccumulationType::bop(value,value_)){
-               std::copy(argOut_.begin(),argOut_.end(),argBest_.begin());
-               value_ = value;
-            }
+            value_ = value;
             returnFlag_ =   selfFusionVisitor_(selfFusion_);
             selfFusionVisitor_.log("infValue",value);
         }
-- 
2.43.0


From 6e094d7a39da4f95e662c9f8a94d5e88d2df2516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:33 +0000
Subject: [PATCH 132/168] fix: TimingVisitor logs into the row of the visited
 iteration

---
 include/opengm/inference/visitors/visitors.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/inference/visitors/visitors.hxx b/include/opengm/inference/visitors/visitors.hxx
index b5443b1..e1630f9 100644
--- a/include/opengm/inference/visitors/visitors.hxx
+++ b/include/opengm/inference/visitors/visitors.hxx
@@ -284,7 +284,7 @@ public:
     extraLogs_.push_back(logName);
   }
   void log(const std::string & logName,const double logValue){
-    if((iteration_)%visithNth_==0){
+    if(!protocolMap_[logName].empty() && (iteration_-1)%visithNth_==0){
       timer_.toc();
       if(verbose_){
         std::cout<<logName<<" "<<logValue<<"\n";
-- 
2.43.0


From 72a2e84078f072c9d4daa144c8e41c508ad99bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:45 +0000
Subject: [PATCH 133/168] fix: BlurGen and EnergyBlurGen use an initialised
 height for models without a second corner

---
 include/opengm/inference/fusion_based_inf.hxx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/opengm/inference/fusion_based_inf.hxx b/include/opengm/inference/fusion_based_inf.hxx
index ffa8405..a1a6b99 100644
--- a/include/opengm/inference/fusion_based_inf.hxx
+++ b/include/opengm/inference/fusion_based_inf.hxx
@@ -543,6 +543,7 @@ namespace proposal_gen{
               kernel_[kradius-i] /= sum;
            }
 
+           height_ = gm_.numberOfVariables(); // a single column unless another corner is found
            size_t N = gm_.numberOfFactors(0);
            for(size_t i=1; i<gm_.numberOfVariables(); ++i){
               if(N==gm_.numberOfFactors(i)){
@@ -673,7 +674,8 @@ namespace proposal_gen{
                 kernel[kradius-i] /= sum;
              }
 
-             size_t N = gm_.numberOfFactors(0);
+             height_ = gm_.numberOfVariables(); // a single column unless another corner is found
+           size_t N = gm_.numberOfFactors(0);
              for(size_t i=1; i<gm_.numberOfVariables(); ++i){
                 if(N==gm_.numberOfFactors(i)){
                    height_ = i+1;
-- 
2.43.0


From 7755ad683775fe5cb97099983e4f3145ad7f3450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:45 +0000
Subject: [PATCH 134/168] fix: SelfFusion takes the labeling of a solver that
 only ends without visiting

---
 include/opengm/inference/self_fusion.hxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/opengm/inference/self_fusion.hxx b/include/opengm/inference/self_fusion.hxx
index 42913b9..94135ea 100644
--- a/include/opengm/inference/self_fusion.hxx
+++ b/include/opengm/inference/self_fusion.hxx
@@ -91,6 +91,9 @@ struct FusionVisitor{
     void end(
         INF  & inf
     ){
+        if(iteration_==0){
+            this->fuseVisit(inf); // no labeling was visited
+        }
     }
 
     size_t operator()(
-- 
2.43.0


From 50631c5b2673d40b1a928b76012033a0e8f8958a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:58 +0000
Subject: [PATCH 135/168] fix: SelfFusion has an initialised bound before
 inference

---
 include/opengm/inference/self_fusion.hxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/opengm/inference/self_fusion.hxx b/include/opengm/inference/self_fusion.hxx
index 94135ea..b5e1d1f 100644
--- a/include/opengm/inference/self_fusion.hxx
+++ b/include/opengm/inference/self_fusion.hxx
@@ -414,6 +414,7 @@ SelfFusion<INFERENCE>::SelfFusion
    maxOrder_(gm.factorOrder())
 {
     AccumulationType::neutral(value_);
+    AccumulationType::ineutral(bound_);
 }
       
 
-- 
2.43.0


From 45cc62d927f8e4561e3efba925cc3b6b670ea610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:12 +0000
Subject: [PATCH 136/168] fix: DynamincGen creates the selected generator

---
 include/opengm/inference/fusion_based_inf.hxx | 43 ++++++++++++++++++-
 1 file changed, 42 insertions(+), 1 deletion(-)

diff --git a/include/opengm/inference/fusion_based_inf.hxx b/include/opengm/inference/fusion_based_inf.hxx
index a1a6b99..2c54b86 100644
--- a/include/opengm/inference/fusion_based_inf.hxx
+++ b/include/opengm/inference/fusion_based_inf.hxx
@@ -840,7 +840,45 @@ namespace proposal_gen{
         DynamincGen(const GM & gm, const Parameter & param)
         : 
             gm_(gm),
-            param_(param){
+            param_(param),
+            alphaExpansionGen_(NULL),
+            alphaBetaSwapGen_(NULL),
+            upDownGen_(NULL),
+            randomGen_(NULL),
+            randomLFGen_(NULL),
+            nonUniformRandomGen_(NULL),
+            blurGen_(NULL),
+            energyBlurGen_(NULL){
+            if(param_.gen_ == AlphaExpansion)
+                alphaExpansionGen_ = new AlphaExpansionGen<GM, ACC>(gm_, typename AlphaExpansionGen<GM, ACC>::Parameter());
+            else if(param_.gen_ == AlphaBetaSwap)
+                alphaBetaSwapGen_ = new AlphaBetaSwapGen<GM, ACC>(gm_, typename AlphaBetaSwapGen<GM, ACC>::Parameter());
+            else if(param_.gen_ == UpDown)
+                upDownGen_ = new UpDownGen<GM, ACC>(gm_, typename UpDownGen<GM, ACC>::Parameter());
+            else if(param_.gen_ == Random)
+                randomGen_ = new RandomGen<GM, ACC>(gm_, typename RandomGen<GM, ACC>::Parameter());
+            else if(param_.gen_ == RandomLF)
+                randomLFGen_ = new RandomLFGen<GM, ACC>(gm_, typename RandomLFGen<GM, ACC>::Parameter());
+            else if(param_.gen_ == NonUniformRandom)
+                nonUniformRandomGen_ = new NonUniformRandomGen<GM, ACC>(gm_, typename NonUniformRandomGen<GM, ACC>::Parameter());
+            else if(param_.gen_ == Blur)
+                blurGen_ = new BlurGen<GM, ACC>(gm_, typename BlurGen<GM, ACC>::Parameter());
+            else if(param_.gen_ == EnergyBlur)
+                energyBlurGen_ = new EnergyBlurGen<GM, ACC>(gm_, typename EnergyBlurGen<GM, ACC>::Parameter());
+            else{
+                throw RuntimeError("unknown generator type");
+            }
+        }
+
+        ~DynamincGen(){
+            delete alphaExpansionGen_;
+            delete alphaBetaSwapGen_;
+            delete upDownGen_;
+            delete randomGen_;
+            delete randomLFGen_;
+            delete nonUniformRandomGen_;
+            delete blurGen_;
+            delete energyBlurGen_;
         }
 
         void reset(){
@@ -907,6 +945,9 @@ namespace proposal_gen{
             }
         }
     private:
+        DynamincGen(const DynamincGen &);
+        DynamincGen & operator=(const DynamincGen &);
+
         const GM & gm_;
         Parameter param_;
 
-- 
2.43.0


From e024e4c52c72d51ca37942ff8bf6cc35576e9846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:38 +0000
Subject: [PATCH 137/168] fix: SelfFusion stops when its visitor asks for it
 before the first fusion

---
 include/opengm/inference/self_fusion.hxx | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/opengm/inference/self_fusion.hxx b/include/opengm/inference/self_fusion.hxx
index b5e1d1f..fe54131 100644
--- a/include/opengm/inference/self_fusion.hxx
+++ b/include/opengm/inference/self_fusion.hxx
@@ -117,8 +117,10 @@ struct FusionVisitor{
             inference.arg(argBest_);
             ValueType value = inference.value();
             value_ = value;
-            returnFlag_ =   selfFusionVisitor_(selfFusion_);
-            selfFusionVisitor_.log("infValue",value);
+            if(returnFlag_==visitors::VisitorReturnFlag::ContinueInf){
+               returnFlag_ =   selfFusionVisitor_(selfFusion_);
+               selfFusionVisitor_.log("infValue",value);
+            }
         }
         else if(iteration_%fuseNth_==0){
           
-- 
2.43.0


From 8b4ef2faf33511e980c460e1f32edf994a4d52de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:11 +0000
Subject: [PATCH 138/168] fix: Random2Gen proposes only labels of the variable

---
 include/opengm/inference/fusion_based_inf.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/inference/fusion_based_inf.hxx b/include/opengm/inference/fusion_based_inf.hxx
index 2c54b86..c461751 100644
--- a/include/opengm/inference/fusion_based_inf.hxx
+++ b/include/opengm/inference/fusion_based_inf.hxx
@@ -374,7 +374,7 @@ namespace proposal_gen{
             for (IndexType vi = 0; vi < gm_.numberOfVariables(); ++vi){
                 // draw label
                 opengm::RandomUniform<size_t> randomLabel(0,3,currentStep_+vi);
-                proposal[vi] = std::min(randomLabel(),size_t(1));
+                proposal[vi] = std::min(randomLabel(),size_t(gm_.numberOfLabels(vi)>1 ? 1 : 0));
             }
             ++currentStep_;
         }
-- 
2.43.0


From dbc2fd21c94566895491da6f7d2a0c12180bed2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:12 +0000
Subject: [PATCH 139/168] fix: NesterovAcceleratedGradient does not visit again
 after the visitor stopped it

---
 include/opengm/inference/trws/smooth_nesterov.hxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/opengm/inference/trws/smooth_nesterov.hxx b/include/opengm/inference/trws/smooth_nesterov.hxx
index a30edf5..ca75e03 100644
--- a/include/opengm/inference/trws/smooth_nesterov.hxx
+++ b/include/opengm/inference/trws/smooth_nesterov.hxx
@@ -429,7 +429,8 @@ InferenceTermination NesterovAcceleratedGradient<GM,ACC>::infer(VISITOR & vis)
 			visitor.log("oracleCalls",(double)counter);
 			visitor.log("primalLPbound",(double)parent::_bestPrimalLPbound);
 			if( flag != visitors::VisitorReturnFlag::ContinueInf ){
-				break;
+				visitor.end();
+				return NORMAL;
 			}
 
 			parent::_UpdateSmoothing(parent::_bestPrimalBound,parent::_maxsumsolver.bound(),parent::_sumprodsolver.bound(),derivative,i+1);
-- 
2.43.0


From 039afa12385158d908bd2a8be91f281166a92638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:12 +0000
Subject: [PATCH 140/168] fix: ADSal does not visit again after the visitor
 stopped it

---
 include/opengm/inference/trws/trws_adsal.hxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/opengm/inference/trws/trws_adsal.hxx b/include/opengm/inference/trws/trws_adsal.hxx
index 65335e5..1cb2a92 100644
--- a/include/opengm/inference/trws/trws_adsal.hxx
+++ b/include/opengm/inference/trws/trws_adsal.hxx
@@ -235,7 +235,8 @@ InferenceTermination ADSal<GM,ACC>::infer(VISITOR & vis)
 		visitor.log("oracleCalls",(double)counter);
 		visitor.log("primalLPbound",(double)parent::_bestPrimalLPbound);
 		if( flag != visitors::VisitorReturnFlag::ContinueInf ){
-			break;
+			visitor.end();
+			return NORMAL;
 		}
 
 	   if (parent::_UpdateSmoothing(parent::_bestPrimalBound,parent::_maxsumsolver.bound(),parent::_sumprodsolver.bound(),derivative,i+1))
-- 
2.43.0


From 7b24234e5844d3270c75dd9d44ba8658fae0828f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:27 +0000
Subject: [PATCH 141/168] fix: ADSal stops when the visitor stops its presolve

---
 include/opengm/inference/trws/trws_adsal.hxx | 10 +++++++++-
 include/opengm/inference/trws/utilities2.hxx | 15 +++++++++++++++
 2 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/include/opengm/inference/trws/trws_adsal.hxx b/include/opengm/inference/trws/trws_adsal.hxx
index 1cb2a92..5596317 100644
--- a/include/opengm/inference/trws/trws_adsal.hxx
+++ b/include/opengm/inference/trws/trws_adsal.hxx
@@ -159,7 +159,15 @@ InferenceTermination ADSal<GM,ACC>::infer(VISITOR & vis)
 
 	if (parent::_sumprodsolver.GetSmoothing()<=0.0)
 	{
-		if (parent::_Presolve(visitor, &counter)==CONVERGENCE)
+		trws_base::StopRecorder<visitors::VisitorWrapper<VISITOR,ADSal<GM, ACC> > > presolveVisitor(visitor);
+		const InferenceTermination presolveResult=parent::_Presolve(presolveVisitor, &counter);
+		if (presolveVisitor.stopped())
+		{
+			parent::_SelectOptimalBoundsAndLabeling();
+			visitor.end();
+			return NORMAL;
+		}
+		if (presolveResult==CONVERGENCE)
 		{
 			parent::_SelectOptimalBoundsAndLabeling();
 			visitor();
diff --git a/include/opengm/inference/trws/utilities2.hxx b/include/opengm/inference/trws/utilities2.hxx
index 7a81fc9..32ecfe3 100644
--- a/include/opengm/inference/trws/utilities2.hxx
+++ b/include/opengm/inference/trws/utilities2.hxx
@@ -130,6 +130,21 @@ private:
 };
 
 
+/// calls a visitor and remembers whether it asked to stop
+template <class VISITOR> struct StopRecorder {
+	StopRecorder(VISITOR& visitor):_pvisitor(&visitor),_stopped(false){};
+  size_t operator() ()
+    {
+	  const size_t flag=(*_pvisitor)();
+	  _stopped= _stopped || (flag!=0);
+	  return flag;
+    }
+  bool stopped()const{return _stopped;}
+private:
+  VISITOR* _pvisitor;
+  bool _stopped;
+};
+
 template <class T> struct make0ifless : std::unary_function <T,T> {
 	make0ifless(T threshold):_threshold(threshold){};
   T operator() (T x) const
-- 
2.43.0


From 3348597df39eb0a2fe83f27629f66151f4b54df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:26 +0000
Subject: [PATCH 142/168] fix: NesterovAcceleratedGradient does not restart
 with a zero smoothing when inferring again

---
 include/opengm/inference/trws/smooth_nesterov.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/inference/trws/smooth_nesterov.hxx b/include/opengm/inference/trws/smooth_nesterov.hxx
index ca75e03..7aee698 100644
--- a/include/opengm/inference/trws/smooth_nesterov.hxx
+++ b/include/opengm/inference/trws/smooth_nesterov.hxx
@@ -302,7 +302,7 @@ InferenceTermination NesterovAcceleratedGradient<GM,ACC>::infer(VISITOR & vis)
 
 	counter+=parent::_EstimateStartingSmoothing(visitor);
 
-	}else
+	}else if (_parameters.startSmoothingValue()>0)
 	{
 		parent::_sumprodsolver.SetSmoothing(_parameters.startSmoothingValue());
 	}
-- 
2.43.0


From 582be20bb4895edecd206c5951a322b35707b879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:50 +0000
Subject: [PATCH 143/168] fix: the starting smoothing is finite and found in
 finite time when every variable has a single label

---
 include/opengm/inference/trws/smoothing_strategy.hxx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/opengm/inference/trws/smoothing_strategy.hxx b/include/opengm/inference/trws/smoothing_strategy.hxx
index 4ce5e8d..d9e64bd 100644
--- a/include/opengm/inference/trws/smoothing_strategy.hxx
+++ b/include/opengm/inference/trws/smoothing_strategy.hxx
@@ -328,7 +328,7 @@ public:
 		for (size_t i=0;i<storage.numberOfModels();++i)
 			multiplier+=storage.size(i)*logLabels;
 
-		return multiplier;
+		return multiplier > 0 ? multiplier : (ValueType)1; // without a choice of labels the smoothing has no effect
 	}
 
 	size_t getOracleCallsCounter()const{return _oracleCallsCounter;}
@@ -388,7 +388,8 @@ SmoothingStrategy<GM,ACC>::_InitAdaptiveSmoothing(SmoothingBasedInference<GM,ACC
 #ifdef TRWS_DEBUG_OUTPUT
 			_fout <<"smoothDualBound="<<smoothDualBound<<std::endl;
 #endif
-	}while (!SmoothingMustBeDecreased(smoothing,primalBound,dualBound,smoothDualBound,derivativeValue,0));
+	}while (!SmoothingMustBeDecreased(smoothing,primalBound,dualBound,smoothDualBound,derivativeValue,0)
+			&& smoothing < std::numeric_limits<ValueType>::max()/4);
 	smoothing/=2.0;
 
 
-- 
2.43.0


From 268e8b8b0e2db4ca3532be274e05e1da0e679779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:14 +0000
Subject: [PATCH 144/168] fix: FiFoQueue wrote past its buffer after maxSize
 pushes in total

---
 include/opengm/utilities/queues.hxx | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/include/opengm/utilities/queues.hxx b/include/opengm/utilities/queues.hxx
index e3a9c2e..c178f01 100644
--- a/include/opengm/utilities/queues.hxx
+++ b/include/opengm/utilities/queues.hxx
@@ -18,7 +18,7 @@ public:
    typedef T ValueType;
    FiFoQueue(const size_t maxSize) : begin_(0), end_(0), maxSize_(maxSize)
    {
-      data_.resize(maxSize);
+      data_.resize(maxSize_ + 1); // one element stays free to tell full from empty
    }  
 
    T front(){
@@ -27,15 +27,18 @@ public:
 
    void pop(){
       ++begin_;
+      if(begin_==data_.size()){
+         begin_=0;
+      }
    }
 
    void push(T t){ 
       data_[end_]=t;
       ++end_;
-      //if(end_==maxSize_){
-      //   end_=0;
-      //}
-      // assert(end_ != begin_); // larger tan maxSize
+      if(end_==data_.size()){
+         end_=0;
+      }
+      // assert(end_ != begin_); // larger than maxSize
    }
 
    bool empty(){
@@ -46,7 +49,7 @@ public:
       if(begin_<=end_)
          return end_-begin_;
       else
-         return end_+maxSize_-1-begin_;
+         return end_+data_.size()-begin_;
    }
 
    void clear(){
-- 
2.43.0


From 9f9af96ab7ef7cacfe8931e882ca475168ddd063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:18 +0000
Subject: [PATCH 145/168] fix: getArcConsistency missed agreement when the
 worst value of a factor is zero

---
 include/opengm/inference/auxiliary/lp_reparametrization.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/inference/auxiliary/lp_reparametrization.hxx b/include/opengm/inference/auxiliary/lp_reparametrization.hxx
index e67da01..fa83885 100644
--- a/include/opengm/inference/auxiliary/lp_reparametrization.hxx
+++ b/include/opengm/inference/auxiliary/lp_reparametrization.hxx
@@ -407,7 +407,7 @@ void LPReparametrizer<GM,ACC>::getArcConsistency(std::vector<bool>* pmask,std::v
 //		std::cout <<"worstValue="<<worstValue[factorId] << ", localVarIndex=" <<localVarIndex <<", labeling="<< labeling<<std::endl;
 
 		if (fabs(factor(labeling.begin())-optimalValues[factorId])
-				<factor.numberOfVariables()*fabs(worstValue[factorId])*std::numeric_limits<ValueType>::epsilon()) continue;//!> if it is connected to other optimal labels with eps-optimal hyperedge
+				<=factor.numberOfVariables()*fabs(worstValue[factorId])*std::numeric_limits<ValueType>::epsilon()) continue;//!> if it is connected to other optimal labels with eps-optimal hyperedge
 
 		/** else **/
 //		std::cout << "False:("<<std::endl;
-- 
2.43.0


From 76595a85a54655dd7508819f3f41c4265410ce6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:18 +0000
Subject: [PATCH 146/168] fix: TRWS reparametrization with immovable labels
 took label counts of the wrong variable

---
 include/opengm/inference/trws/trws_reparametrization.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/inference/trws/trws_reparametrization.hxx b/include/opengm/inference/trws/trws_reparametrization.hxx
index 4305d6b..4762da6 100644
--- a/include/opengm/inference/trws/trws_reparametrization.hxx
+++ b/include/opengm/inference/trws/trws_reparametrization.hxx
@@ -423,7 +423,7 @@ void TRWS_Reparametrizer<Storage,ACC>::reparametrize(const ImmovableLabelingType
 			  {
 				  IndexType otherVarID=(localVarID==0 ? 1 : 0);
 				  labeling[localVarID]=it.first-it_begin;
-				  for (LabelType label=0;label<gm.numberOfLabels(otherVarID);++label)
+				  for (LabelType label=0;label<gm[factorID].numberOfLabels(otherVarID);++label)
 				  {
 					  labeling[otherVarID]=label;
 
-- 
2.43.0


From 436484dfc64b0f84643765e87cae92cc295771f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:18 +0000
Subject: [PATCH 147/168] fix: SequenceStorage::evaluate ignored the direction
 of reversed factors

---
 include/opengm/inference/trws/trws_subproblemsolver.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/inference/trws/trws_subproblemsolver.hxx b/include/opengm/inference/trws/trws_subproblemsolver.hxx
index 2c15f38..7932289 100755
--- a/include/opengm/inference/trws/trws_subproblemsolver.hxx
+++ b/include/opengm/inference/trws/trws_subproblemsolver.hxx
@@ -615,7 +615,7 @@ SequenceStorage<GM>::evaluate(ITERATOR labeling)
 		 {
 		  std::valarray<LabelType> ind(2);
 		  ind[0]=*(labeling+1); ind[1]=*labeling;
-		  value+= _masterModel[_pwForwardIndex[i]](labeling);
+		  value+= _masterModel[_pwForwardIndex[i]](&ind[0]);
 		 }
 		}
 		++labeling;
-- 
2.43.0


From 55f65558de16c9bf17c54074df62d68a7e96cf07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:40 +0000
Subject: [PATCH 148/168] fix: SyntheticModelGenerator2: random integer tables
 left their range or divided by zero

---
 .../modelgenerators/syntheticmodelgenerator.hxx          | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/opengm/graphicalmodel/modelgenerators/syntheticmodelgenerator.hxx b/include/opengm/graphicalmodel/modelgenerators/syntheticmodelgenerator.hxx
index d617f28..e0b9e3b 100644
--- a/include/opengm/graphicalmodel/modelgenerators/syntheticmodelgenerator.hxx
+++ b/include/opengm/graphicalmodel/modelgenerators/syntheticmodelgenerator.hxx
@@ -427,22 +427,24 @@ namespace opengm {
             gm.addFactor(funcId, var, var + 1);
          }
          break;
-      case IRANDOM:
+      case IRANDOM: {
          OPENGM_ASSERT(functionParameter.size() == 2);
          OPENGM_ASSERT(functionParameter[0] <= functionParameter[1]);
+         const size_t range = static_cast<size_t>(functionParameter[1] - functionParameter[0]);
          for(size_t i = 0; i < gm.numberOfVariables(); ++i) {
             shape[0] = gm.numberOfLabels(i);
             var[0] = i;
             if(!sharedFunction || i == 0) {
                ExplicitFunctionType function(shape, shape + 1);
                for(size_t ni = 0; ni < shape[0]; ++ni) {
-                  function(ni) = functionParameter[0] + rand() % (size_t) (functionParameter[1] - functionParameter[0]);
+                  function(ni) = functionParameter[0] + (range > 0 ? rand() % range : 0);
                }
                funcId = gm.addFunction(function);
             }
             gm.addFactor(funcId, var, var + 1);
          }
          break;
+      }
       case EMPTY:
          // do nothing
          break;
@@ -493,10 +495,11 @@ namespace opengm {
          {
          OPENGM_ASSERT(functionParameter.size() == 2);
          OPENGM_ASSERT(functionParameter[0] <= functionParameter[1]);
+         const size_t range = static_cast<size_t>(functionParameter[1] - functionParameter[0]);
          ExplicitFunctionType function(shapeBegin, shapeEnd);
          for(typename GM::LabelType ni = 0; ni < shapeBegin[0]; ++ni) {
             for(typename GM::LabelType nj = 0; nj < shapeBegin[1]; ++nj) {
-               function(ni, nj) = functionParameter[0] + rand() % (size_t) (functionParameter[0] - functionParameter[1]);
+               function(ni, nj) = functionParameter[0] + (range > 0 ? rand() % range : 0);
             }
          }
          return gm.addFunction(function);
-- 
2.43.0


From f3ca5e017f28b1ecf83e004aac2966ad520400ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:40 +0000
Subject: [PATCH 149/168] fix: SyntheticModelGenerator2 ignored the weight of
 L1 functions

---
 .../graphicalmodel/modelgenerators/syntheticmodelgenerator.hxx  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/graphicalmodel/modelgenerators/syntheticmodelgenerator.hxx b/include/opengm/graphicalmodel/modelgenerators/syntheticmodelgenerator.hxx
index e0b9e3b..2327b31 100644
--- a/include/opengm/graphicalmodel/modelgenerators/syntheticmodelgenerator.hxx
+++ b/include/opengm/graphicalmodel/modelgenerators/syntheticmodelgenerator.hxx
@@ -522,7 +522,7 @@ namespace opengm {
          ExplicitFunctionType function(shapeBegin, shapeEnd, functionParameter[0]);
          for(typename GM::LabelType ni = 0; ni < shapeBegin[0]; ++ni) {
             for(typename GM::LabelType nj = 0; nj < shapeBegin[1]; ++nj) {
-               function(ni, nj) = 0.1*fabs(1.0*ni-1.0*nj);
+               function(ni, nj) = functionParameter[0]*fabs(1.0*ni-1.0*nj);
             }
          }
          return gm.addFunction(function);
-- 
2.43.0


From 6a4535dacbca82b87ebeeb5ac85f5321be020679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:56 +0000
Subject: [PATCH 150/168] fix: binary and value properties of factors in models
 of two function types asked the wrong function

---
 .../graphicalmodel/graphicalmodel_function_wrapper.hxx    | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/opengm/graphicalmodel/graphicalmodel_function_wrapper.hxx b/include/opengm/graphicalmodel/graphicalmodel_function_wrapper.hxx
index 2556808..6106ca4 100755
--- a/include/opengm/graphicalmodel/graphicalmodel_function_wrapper.hxx
+++ b/include/opengm/graphicalmodel/graphicalmodel_function_wrapper.hxx
@@ -1392,8 +1392,8 @@ namespace detail_graphical_model {
       if(meta::EqualNumber<NUMBER_OF_FUNCTIONS,1>::value) {OPENGM_FWRAPPER_PROPERTY_GEN_MACRO(0);}
       // special implementation if there are only two functions in the typelist
       if(meta::EqualNumber<NUMBER_OF_FUNCTIONS,2>::value) {
-         if(functionType==0){OPENGM_FWRAPPER_PROPERTY_GEN_MACRO(1);}
-         else{OPENGM_FWRAPPER_PROPERTY_GEN_MACRO(2);}
+         if(functionType==0){OPENGM_FWRAPPER_PROPERTY_GEN_MACRO(0);}
+         else{OPENGM_FWRAPPER_PROPERTY_GEN_MACRO(1);}
       }
       // general case : 3 or more functions in the typelist
       if(meta::BiggerOrEqualNumber<NUMBER_OF_FUNCTIONS,3>::value) {
@@ -1450,8 +1450,8 @@ namespace detail_graphical_model {
       if(meta::EqualNumber<NUMBER_OF_FUNCTIONS,1>::value) {OPENGM_FWRAPPER_VALUE_PROPERTY_GEN_MACRO(0);}
       // special implementation if there are only two functions in the typelist
       if(meta::EqualNumber<NUMBER_OF_FUNCTIONS,2>::value) {
-         if(functionType==0){OPENGM_FWRAPPER_VALUE_PROPERTY_GEN_MACRO(1);}
-         else{OPENGM_FWRAPPER_VALUE_PROPERTY_GEN_MACRO(2);}
+         if(functionType==0){OPENGM_FWRAPPER_VALUE_PROPERTY_GEN_MACRO(0);}
+         else{OPENGM_FWRAPPER_VALUE_PROPERTY_GEN_MACRO(1);}
       }
       // general case : 3 or more functions in the typelist
       if(meta::BiggerOrEqualNumber<NUMBER_OF_FUNCTIONS,3>::value) {
-- 
2.43.0


From f4273c2ace60e9f1b42faec42f48cc1f454e4ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:17 +0000
Subject: [PATCH 151/168] fix: the loose polytope of a transferred function
 with a rewarded slack variable was unbounded

---
 include/opengm/inference/lp_inference_base.hxx | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/include/opengm/inference/lp_inference_base.hxx b/include/opengm/inference/lp_inference_base.hxx
index cf47706..72e1f41 100644
--- a/include/opengm/inference/lp_inference_base.hxx
+++ b/include/opengm/inference/lp_inference_base.hxx
@@ -2324,8 +2324,19 @@ inline void LPInferenceBase<LP_INFERENCE_TYPE>::addLoosePolytopeConstraints() {
 
    // add constraints for transfered factors
    typename LPFunctionTransferType::GetLinearConstraintsFunctor getLinearConstraintsFunctor;
+   typename LPFunctionTransferType::GetSlackVariablesObjectiveCoefficientsFunctor getSlackVariablesObjectiveCoefficientsFunctor;
    for(IndexType i = 0; i < transferableFactors_.size(); ++i) {
       const IndexType currentTransferableFactorIndex = transferableFactors_[i];
+      // a slack variable which improves the objective is only bounded by the constraints of its factor
+      typename LPFunctionTransferType::SlackVariablesObjectiveCoefficientsContainerType slackCoefficients;
+      getSlackVariablesObjectiveCoefficientsFunctor.coefficients_ = &slackCoefficients;
+      gm_[currentTransferableFactorIndex].callFunctor(getSlackVariablesObjectiveCoefficientsFunctor);
+      bool constraintsRequired = false;
+      for(size_t j = 0; j < slackCoefficients.size(); ++j) {
+         if(AccumulationType::bop(slackCoefficients[j], static_cast<ValueType>(0))) {
+            constraintsRequired = true;
+         }
+      }
       // get constraints
       typename LPFunctionTransferType::LinearConstraintsContainerType constraints;
       getLinearConstraintsFunctor.constraints_ = &constraints;
@@ -2347,7 +2358,11 @@ inline void LPInferenceBase<LP_INFERENCE_TYPE>::addLoosePolytopeConstraints() {
          constraint.bound_ = currentConstraint.getBound();
          constraint.operator_ = currentConstraint.getConstraintOperator();
          constraint.name_ = constraintName.str();
-         inactiveConstraints_.push_back(constraint);
+         if(constraintsRequired) {
+            addInactiveConstraint(constraint);
+         } else {
+            inactiveConstraints_.push_back(constraint);
+         }
       }
    }
 }
-- 
2.43.0


From 2cc111b070005e60a970860c779a1cc30bfeb510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:55 +0000
Subject: [PATCH 152/168] fix: lp inference added more violated constraints per
 iteration than allowed

---
 include/opengm/inference/lp_inference_base.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/opengm/inference/lp_inference_base.hxx b/include/opengm/inference/lp_inference_base.hxx
index 72e1f41..1f6cb41 100644
--- a/include/opengm/inference/lp_inference_base.hxx
+++ b/include/opengm/inference/lp_inference_base.hxx
@@ -3021,7 +3021,7 @@ inline bool LPInferenceBase<LP_INFERENCE_TYPE>::tightenPolytope() {
       addViolatedLinearConstraintsFunctor.lpInference_ = this;
       addViolatedLinearConstraintsFunctor.numConstraintsAdded_ = numConstraintsAdded;
       addViolatedLinearConstraintsFunctor.sortedViolatedConstraintsList_ = &sortedViolatedConstraints;
-      for(size_t i = 0; i < linearConstraintFactors_.size(); ++i) {
+      for(size_t i = 0; (i < linearConstraintFactors_.size()) && (numConstraintsAdded < parameter_.maxNumConstraintsPerIter_); ++i) {
          addViolatedLinearConstraintsFunctor.labelingBegin_ = IntegerSolutionSubsequenceIterator(currentArg.begin(), linearConstraintLPVariablesSubsequenceIndices_[i].begin());
          addViolatedLinearConstraintsFunctor.linearConstraintID_ = i;
          const IndexType currentFactor = linearConstraintFactors_[i];
@@ -3164,7 +3164,7 @@ inline bool LPInferenceBase<LP_INFERENCE_TYPE>::tightenPolytopeRelaxed() {
       addViolatedLinearConstraintsRelaxedFunctor.lpInference_ = this;
       addViolatedLinearConstraintsRelaxedFunctor.numConstraintsAdded_ = numConstraintsAdded;
       addViolatedLinearConstraintsRelaxedFunctor.sortedViolatedConstraintsList_ = &sortedViolatedConstraints;
-      for(size_t i = 0; i < linearConstraintFactors_.size(); ++i) {
+      for(size_t i = 0; (i < linearConstraintFactors_.size()) && (numConstraintsAdded < parameter_.maxNumConstraintsPerIter_); ++i) {
          addViolatedLinearConstraintsRelaxedFunctor.labelingBegin_ = RelaxedSolutionSubsequenceIterator(relaxedArgBegin, linearConstraintLPVariablesSubsequenceIndices_[i].begin());
          addViolatedLinearConstraintsRelaxedFunctor.linearConstraintID_ = i;
          const IndexType currentFactor = linearConstraintFactors_[i];
-- 
2.43.0


From 0898a4024ebfdeaef8e5069debd5f5a744c071d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:55 +0000
Subject: [PATCH 153/168] fix: lp inference added the same violated constraint
 again and again under the weighted heuristic

---
 .../opengm/inference/lp_inference_base.hxx    | 30 +++++++++++++++----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/include/opengm/inference/lp_inference_base.hxx b/include/opengm/inference/lp_inference_base.hxx
index 1f6cb41..5833145 100644
--- a/include/opengm/inference/lp_inference_base.hxx
+++ b/include/opengm/inference/lp_inference_base.hxx
@@ -278,6 +278,7 @@ protected:
    void addLocalPolytopeFactorConstraint(const IndexType factor, const IndexType variable, const LabelType label, const bool addToModel);
    void addIndicatorVariableConstraints(const IndexType factor, const IndicatorVariableType& indicatorVariable, const SolverIndexType indicatorVariableLPVariable, const bool addToModel);
    void addLinearConstraint(const IndexType linearConstraintFactor, const LinearConstraintType& constraint);
+   double linearConstraintViolation(const IndexType linearConstraintFactor, const LinearConstraintType& constraint) const;
 
    // inference helper
    template <class VISITOR_TYPE>
@@ -2776,6 +2777,21 @@ inline void LPInferenceBase<LP_INFERENCE_TYPE>::addLinearConstraint(const IndexT
    }
 }
 
+template <class LP_INFERENCE_TYPE>
+inline double LPInferenceBase<LP_INFERENCE_TYPE>::linearConstraintViolation(const IndexType linearConstraintFactor, const LinearConstraintType& constraint) const {
+   OPENGM_ASSERT(linearConstraintFactor < linearConstraintsLPVariablesIndicesLookupTable_.size());
+   ConstraintStorage storage;
+   for(IndicatorVariablesIteratorType iter = constraint.indicatorVariablesBegin(); iter != constraint.indicatorVariablesEnd(); ++iter) {
+      storage.variableIDs_.push_back(linearConstraintsLPVariablesIndicesLookupTable_[linearConstraintFactor].find(*iter)->second);
+   }
+   storage.coefficients_ = std::vector<SolverValueType>(constraint.coefficientsBegin(), constraint.coefficientsEnd());
+   storage.bound_ = constraint.getBound();
+   storage.operator_ = constraint.getConstraintOperator();
+   double violation;
+   checkInactiveConstraint(storage, violation);
+   return violation;
+}
+
 template <class LP_INFERENCE_TYPE>
 template <class VISITOR_TYPE>
 inline InferenceTermination LPInferenceBase<LP_INFERENCE_TYPE>::infer_impl_selectRelaxation(VISITOR_TYPE& visitor) {
@@ -3411,11 +3427,15 @@ inline void AddViolatedLinearConstraintsFunctor<LP_INFERENCE_BASE_TYPE, HEURISTI
                break;
             }
          } else {
-            myself.sortedViolatedConstraintsList_->insert(typename LP_INFERENCE_BASE_TYPE::SortedViolatedConstraintsListType::value_type(*violatedConstraintsWeightsBegin, std::make_pair(myself.lpInference_->inactiveConstraints_.end(), std::make_pair(myself.linearConstraintID_, &(*violatedConstraintsBegin)))));
-            if(myself.sortedViolatedConstraintsList_->size() > myself.lpInference_->parameter_.maxNumConstraintsPerIter_) {
-               // remove constraints with to small weight
-               myself.sortedViolatedConstraintsList_->erase(myself.sortedViolatedConstraintsList_->begin());
-               OPENGM_ASSERT(myself.sortedViolatedConstraintsList_->size() == myself.lpInference_->parameter_.maxNumConstraintsPerIter_);
+            // As long as the indicator variables are not linked to the node variables, a constraint which is violated by
+            // the labeling can already be satisfied by the solution of the LP. Adding it then makes no difference.
+            if(myself.lpInference_->linearConstraintViolation(myself.linearConstraintID_, *violatedConstraintsBegin) > myself.tolerance_) {
+               myself.sortedViolatedConstraintsList_->insert(typename LP_INFERENCE_BASE_TYPE::SortedViolatedConstraintsListType::value_type(*violatedConstraintsWeightsBegin, std::make_pair(myself.lpInference_->inactiveConstraints_.end(), std::make_pair(myself.linearConstraintID_, &(*violatedConstraintsBegin)))));
+               if(myself.sortedViolatedConstraintsList_->size() > myself.lpInference_->parameter_.maxNumConstraintsPerIter_) {
+                  // remove constraints with to small weight
+                  myself.sortedViolatedConstraintsList_->erase(myself.sortedViolatedConstraintsList_->begin());
+                  OPENGM_ASSERT(myself.sortedViolatedConstraintsList_->size() == myself.lpInference_->parameter_.maxNumConstraintsPerIter_);
+               }
             }
             ++violatedConstraintsBegin;
             ++violatedConstraintsWeightsBegin;
-- 
2.43.0


From 4f5e7ddc8d138e55cba375d032aedba6a2ce8c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:25 +0000
Subject: [PATCH 154/168] fix: uai2opengm did not terminate for factors without
 variables

---
 src/converter/uai2opengm.cxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/converter/uai2opengm.cxx b/src/converter/uai2opengm.cxx
index e828e58..cb40d1d 100644
--- a/src/converter/uai2opengm.cxx
+++ b/src/converter/uai2opengm.cxx
@@ -282,6 +282,9 @@ bool vecIsSorted(const T& vector) {
 template <class T, class U, class V>
 void ind2sub(T& sub, const U ind, const V& sizes) {
    sub.clear();
+   if(sizes.size() == 0) {
+      return;
+   }
    sub.reserve(sizes.size());
    U remainingInd = ind;
    for(size_t i = 0; i < sizes.size() - 1; i++) {
-- 
2.43.0


From 10f3b83428c4b510e067789e4704cf40c97da5fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:06 +0000
Subject: [PATCH 155/168] fix: matching converters read the last line again at
 the end of the file

---
 src/converter/matching2opengm-N2N.cxx | 3 +--
 src/converter/matching2opengm.cxx     | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/converter/matching2opengm-N2N.cxx b/src/converter/matching2opengm-N2N.cxx
index 9e6b9f0..fc6477a 100644
--- a/src/converter/matching2opengm-N2N.cxx
+++ b/src/converter/matching2opengm-N2N.cxx
@@ -86,8 +86,7 @@ int main(int argc, const char* argv[] ) {
 
    size_t countA =0; 
    size_t countE =0;
-   while(!mymatchingfile.eof()) {
-      mymatchingfile >> command;
+   while(mymatchingfile >> command) {
       if(command =='a'){++countA;
          size_t aID, pL, pR;
          ValueType v;
diff --git a/src/converter/matching2opengm.cxx b/src/converter/matching2opengm.cxx
index 64bc2b5..de61b0d 100644
--- a/src/converter/matching2opengm.cxx
+++ b/src/converter/matching2opengm.cxx
@@ -98,8 +98,7 @@ int main(int argc, const char* argv[] ) {
    std::vector<std::vector<size_t> > labels;
 
 
-   while(!mymatchingfile.eof()) {
-      mymatchingfile >> command;
+   while(mymatchingfile >> command) {
       if(command =='a'){
          ++countA;
          int aID, pL, pR;
-- 
2.43.0


From 6606a4b2068d2e5436734deb3fd009779ed02dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:06 +0000
Subject: [PATCH 156/168] fix: matching2opengm truncated the label of a
 candidate both sides name to a truth value

---
 src/converter/matching2opengm.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/converter/matching2opengm.cxx b/src/converter/matching2opengm.cxx
index de61b0d..ae8c10b 100644
--- a/src/converter/matching2opengm.cxx
+++ b/src/converter/matching2opengm.cxx
@@ -174,7 +174,7 @@ int main(int argc, const char* argv[] ) {
             const size_t feat = assignments[i].first;
             //check if label exists
             bool collision = false;
-            bool label     = 0;
+            size_t label   = 0;
             for(size_t j=0; j<labels[var].size();++j)
                if(labels[var][j] == feat){
                   collision = true;
@@ -211,7 +211,7 @@ int main(int argc, const char* argv[] ) {
             const size_t var  = it->second;
             const size_t feat = assignments[i].second;
             bool collision= false; 
-            bool label     = 0;
+            size_t label   = 0;
             for(size_t j=0; j<labels[ it->second].size();++j)
                if(labels[var][j] == feat){
                   collision = true;   
-- 
2.43.0


From 51dcda0372a7842e48c8dbb21b826018fd717e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:06 +0000
Subject: [PATCH 157/168] fix: matching2opengm lost edges given in descending
 order of their variables

---
 src/converter/matching2opengm.cxx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/converter/matching2opengm.cxx b/src/converter/matching2opengm.cxx
index ae8c10b..c892a7e 100644
--- a/src/converter/matching2opengm.cxx
+++ b/src/converter/matching2opengm.cxx
@@ -294,7 +294,9 @@ int main(int argc, const char* argv[] ) {
    }
    for(size_t i=0; i<edges.size(); ++i){
       //std::cout << assignmentsVar[edges[i].first].first << " " << assignmentsVar[edges[i].second].first <<std::endl;
-      Adj[assignmentsVar[edges[i].first].first][assignmentsVar[edges[i].second].first] = 1;
+      const size_t var1 = assignmentsVar[edges[i].first].first;
+      const size_t var2 = assignmentsVar[edges[i].second].first;
+      Adj[std::min(var1, var2)][std::max(var1, var2)] = 1;
    }
 
    for(size_t i=0; i<countKeyLeft; ++i)
-- 
2.43.0


From 83cf8122472fa4da4d1353fb807b3517e5896123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:06 +0000
Subject: [PATCH 158/168] fix: opengm2wudag wrote edges for factors without
 variables

---
 src/converter/opengm2wudag.cxx | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/converter/opengm2wudag.cxx b/src/converter/opengm2wudag.cxx
index 9a03979..05269b5 100644
--- a/src/converter/opengm2wudag.cxx
+++ b/src/converter/opengm2wudag.cxx
@@ -50,6 +50,7 @@ main(int argc, const char* argv[] ) {
 
    //check model and calculate constant
    ValueType constValue = 0;
+   IndexType numberOfEdges = 0;
    for(IndexType f=0; f<gm.numberOfFactors();++f){
       if(gm[f].numberOfVariables() == 0){
          LabelType l0 =0;
@@ -57,6 +58,7 @@ main(int argc, const char* argv[] ) {
       }
       else if(gm[f].numberOfVariables() == 2){
          constValue += gm[f](l00);
+         ++numberOfEdges;
       }
       else{
          std::cout << "ERROR: Unsupported factor order !!!" << std::endl;
@@ -66,8 +68,11 @@ main(int argc, const char* argv[] ) {
    
    std::ofstream outputFile;
    outputFile.open(outfile.c_str());
-   outputFile << "  "<< gm.numberOfVariables() << " " << gm.numberOfFactors() << " "<< std::setprecision(20) << constValue << std::endl;
+   outputFile << "  "<< gm.numberOfVariables() << " " << numberOfEdges << " "<< std::setprecision(20) << constValue << std::endl;
    for(IndexType f=0; f<gm.numberOfFactors();++f){
+      if(gm[f].numberOfVariables() == 0) {
+         continue;
+      }
       IndexType vars[] = {0,0};
       vars[0] = gm[f].variableIndex(0);
       vars[1] = gm[f].variableIndex(1);
-- 
2.43.0


From 902fc9e479cac2e02eaf87445a911bc4d61239c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:16 +0000
Subject: [PATCH 159/168] fix: the command line programs report errors with an
 exit status instead of an uncaught exception

---
 src/interfaces/commandline/double/opengm_max_prod.cxx  | 10 ++++++++--
 src/interfaces/commandline/double/opengm_min_sum.cxx   | 10 ++++++++--
 .../commandline/double/opengm_min_sum_libdai.cxx       | 10 ++++++++--
 .../commandline/double/opengm_min_sum_small.cxx        | 10 ++++++++--
 4 files changed, 32 insertions(+), 8 deletions(-)

diff --git a/src/interfaces/commandline/double/opengm_max_prod.cxx b/src/interfaces/commandline/double/opengm_max_prod.cxx
index 2d6d4f7..14bc752 100644
--- a/src/interfaces/commandline/double/opengm_max_prod.cxx
+++ b/src/interfaces/commandline/double/opengm_max_prod.cxx
@@ -1,4 +1,5 @@
 #include <iostream>
+#include <exception>
 
 #include <opengm/graphicalmodel/graphicalmodel.hxx>
 #include <opengm/graphicalmodel/graphicalmodel_hdf5.hxx>
@@ -80,8 +81,13 @@ int main(int argc, char** argv) {
       opengm::meta::ListEnd
    >::type InferenceTypeList;
 
-   interface::CMDInterface<GmType, InferenceTypeList> interface(argc, argv);
-   interface.parse();
+   try {
+      interface::CMDInterface<GmType, InferenceTypeList> interface(argc, argv);
+      interface.parse();
+   } catch(const std::exception& e) {
+      std::cerr << "error: " << e.what() << std::endl;
+      return 1;
+   }
 
    return 0;
 }
diff --git a/src/interfaces/commandline/double/opengm_min_sum.cxx b/src/interfaces/commandline/double/opengm_min_sum.cxx
index 40f47a4..c798240 100644
--- a/src/interfaces/commandline/double/opengm_min_sum.cxx
+++ b/src/interfaces/commandline/double/opengm_min_sum.cxx
@@ -1,4 +1,5 @@
 #include <iostream>
+#include <exception>
 
 #include <opengm/graphicalmodel/graphicalmodel.hxx>
 #include <opengm/graphicalmodel/graphicalmodel_hdf5.hxx>
@@ -273,8 +274,13 @@ int main(int argc, char** argv) {
    typedef meta::MergeTypeLists<NativeInferenceTypeList, ExternalInferenceTypeList>::type InferenceTypeList_T1;
    typedef meta::MergeTypeLists<ExternalInferenceTypeList2, InferenceTypeList_T1>::type InferenceTypeList_T2;
    typedef meta::MergeTypeLists<ExternalILPInferenceTypeList, InferenceTypeList_T2>::type InferenceTypeList;
-   interface::CMDInterface<GmType, InferenceTypeList> interface(argc, argv);
-   interface.parse();
+   try {
+      interface::CMDInterface<GmType, InferenceTypeList> interface(argc, argv);
+      interface.parse();
+   } catch(const std::exception& e) {
+      std::cerr << "error: " << e.what() << std::endl;
+      return 1;
+   }
 
    return 0;
 }
diff --git a/src/interfaces/commandline/double/opengm_min_sum_libdai.cxx b/src/interfaces/commandline/double/opengm_min_sum_libdai.cxx
index ebacb7b..3cd9751 100644
--- a/src/interfaces/commandline/double/opengm_min_sum_libdai.cxx
+++ b/src/interfaces/commandline/double/opengm_min_sum_libdai.cxx
@@ -1,4 +1,5 @@
 #include <iostream>
+#include <exception>
 
 #include <opengm/graphicalmodel/graphicalmodel.hxx>
 #include <opengm/graphicalmodel/graphicalmodel_hdf5.hxx>
@@ -67,8 +68,13 @@ int main(int argc, char** argv) {
       opengm::meta::ListEnd
    >::type InferenceTypeList;
    
-   interface::CMDInterface<GmType, InferenceTypeList> interface(argc, argv);
-   interface.parse();
+   try {
+      interface::CMDInterface<GmType, InferenceTypeList> interface(argc, argv);
+      interface.parse();
+   } catch(const std::exception& e) {
+      std::cerr << "error: " << e.what() << std::endl;
+      return 1;
+   }
 
    return 0;
 }
diff --git a/src/interfaces/commandline/double/opengm_min_sum_small.cxx b/src/interfaces/commandline/double/opengm_min_sum_small.cxx
index 93d56c6..2aa574f 100644
--- a/src/interfaces/commandline/double/opengm_min_sum_small.cxx
+++ b/src/interfaces/commandline/double/opengm_min_sum_small.cxx
@@ -1,4 +1,5 @@
 #include <iostream>
+#include <exception>
 
 #include <opengm/graphicalmodel/graphicalmodel.hxx>
 #include <opengm/graphicalmodel/graphicalmodel_hdf5.hxx>
@@ -132,8 +133,13 @@ int main(int argc, char** argv) {
    >::type ExternalInferenceTypeList;
 
    typedef meta::MergeTypeLists<NativeInferenceTypeList, ExternalInferenceTypeList>::type InferenceTypeList;
-   interface::CMDInterface<GmType, InferenceTypeList> interface(argc, argv);
-   interface.parse();
+   try {
+      interface::CMDInterface<GmType, InferenceTypeList> interface(argc, argv);
+      interface.parse();
+   } catch(const std::exception& e) {
+      std::cerr << "error: " << e.what() << std::endl;
+      return 1;
+   }
 
    return 0;
 }
-- 
2.43.0


From ef90d8c58ee611e7f111fe6f1b720caf915d22f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:38 +0000
Subject: [PATCH 160/168] fix: the Fusion caller of the command line programs
 did not know the generator RANDOM and used QPBO for the fusion type LF

---
 src/interfaces/common/caller/fusion_caller.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/interfaces/common/caller/fusion_caller.hxx b/src/interfaces/common/caller/fusion_caller.hxx
index 353b3b3..e3ed1d4 100644
--- a/src/interfaces/common/caller/fusion_caller.hxx
+++ b/src/interfaces/common/caller/fusion_caller.hxx
@@ -91,7 +91,7 @@ inline void FusionCaller<IO, GM, ACC>::setParam(
    if(selectedFusionType_=="QPBO") 
       param.fusionParam_.fusionSolver_ = INF::FusionMover::QpboFusion;
    if(selectedFusionType_=="LF")   
-      param.fusionParam_.fusionSolver_ = INF::FusionMover::QpboFusion;
+      param.fusionParam_.fusionSolver_ = INF::FusionMover::LazyFlipperFusion;
    if(selectedFusionType_=="ILP")  
       param.fusionParam_.fusionSolver_ = INF::FusionMover::CplexFuison;
 
@@ -144,7 +144,7 @@ inline void FusionCaller<IO, GM, ACC>::runImpl(GM& model, OutputBase& output, co
       setParam<INF>(para);
       this-> template infer<INF, typename INF::TimingVisitorType, typename INF::Parameter>(model, output, verbose, para);
    }
-   else if(selectedGenType_=="RADOM"){
+   else if(selectedGenType_=="RANDOM"){
       typedef RGen Gen;
       typedef opengm::FusionBasedInf<GM, Gen> INF;
       typename INF::Parameter para;
-- 
2.43.0


From cdb9140e006231ae1818485b87235738e0ac20a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:38 +0000
Subject: [PATCH 161/168] fix: the DDSubgradient caller copied an uninitialised
 maximal dual order into the solver parameter

---
 src/interfaces/common/caller/dd_subgradient_caller.hxx | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/interfaces/common/caller/dd_subgradient_caller.hxx b/src/interfaces/common/caller/dd_subgradient_caller.hxx
index 8f5150a..e0b8a9c 100644
--- a/src/interfaces/common/caller/dd_subgradient_caller.hxx
+++ b/src/interfaces/common/caller/dd_subgradient_caller.hxx
@@ -37,7 +37,6 @@ namespace opengm {
        
          double minimalAbsAccuracy_; 
          double minimalRelAccuracy_;
-         size_t maximalDualOrder_;
          size_t numberOfBlocks_;
          size_t maximalNumberOfIterations_;
          size_t numberOfThreads_;
@@ -127,7 +126,6 @@ namespace opengm {
       {
          p.minimalAbsAccuracy_=minimalAbsAccuracy_; 
          p.minimalRelAccuracy_=minimalRelAccuracy_;
-         p.maximalDualOrder_=maximalDualOrder_;
          p.numberOfBlocks_=numberOfBlocks_;
          p.maximalNumberOfIterations_=maximalNumberOfIterations_;
          p.numberOfThreads_=numberOfThreads_;
-- 
2.43.0


From 2b4a6832cef58129831c0fd2ac2855624e35d79e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:38 +0000
Subject: [PATCH 162/168] fix: the DDSubgradient caller reported success
 without a result for sub-solvers that are not compiled in

---
 src/interfaces/common/caller/dd_subgradient_caller.hxx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/interfaces/common/caller/dd_subgradient_caller.hxx b/src/interfaces/common/caller/dd_subgradient_caller.hxx
index e0b8a9c..a6ee231 100644
--- a/src/interfaces/common/caller/dd_subgradient_caller.hxx
+++ b/src/interfaces/common/caller/dd_subgradient_caller.hxx
@@ -212,7 +212,7 @@ namespace opengm {
             parameter.subPara_.numberOfThreads_ = 1; 
             this-> template infer<DDType, TimingVisitorType, typename DDType::Parameter>(model, output, verbose, parameter);
 #else
-            std::cout << "CPLEX not enabled!!!" <<std::endl;
+            throw RuntimeError("CPLEX not enabled!!!");
 #endif 
          }
          else if((*this).subInf_.compare("DPTree")==0){
@@ -245,7 +245,7 @@ namespace opengm {
             setParameter(parameter);
             this-> template infer<DDType, TimingVisitorType, typename DDType::Parameter>(model, output, verbose, parameter); 
 #else
-            std::cout << "MaxFlow not enabled!!!" <<std::endl;
+            throw RuntimeError("MaxFlow not enabled!!!");
 #endif
          }
          else if((*this).subInf_.compare("RILP")==0){
@@ -265,10 +265,10 @@ namespace opengm {
             parameter.subPara_.subParameter_.numberOfThreads_ = 1; 
             this-> template infer<DDType, TimingVisitorType, typename DDType::Parameter>(model, output, verbose, parameter);
 #else
-            std::cout << "CPLEX not enabled!!!" <<std::endl;
+            throw RuntimeError("CPLEX not enabled!!!");
 #endif
 #else
-            std::cout << "QPBO not enabled!!!" <<std::endl;
+            throw RuntimeError("QPBO not enabled!!!");
 #endif       
          } 
          else if((*this).subInf_.compare("ASTAR")==0){
-- 
2.43.0


From 7b51292b03e9df55b32beff8a547fab3ca4872a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:59 +0000
Subject: [PATCH 163/168] fix: the command line programs evaluated labelings of
 a wrong size or with labels out of range

---
 src/interfaces/common/io/interface_base.hxx | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/interfaces/common/io/interface_base.hxx b/src/interfaces/common/io/interface_base.hxx
index 6444ea3..7a78aac 100644
--- a/src/interfaces/common/io/interface_base.hxx
+++ b/src/interfaces/common/io/interface_base.hxx
@@ -170,7 +170,16 @@ inline void InterfaceBase<GM, INFERENCETYPES, IOTYPE>::parse() {
          io_.read(*evaluate_);
          if(evaluate_->isSet()) {
             //std::cout << "parserChainLoadModel: evaluate vector" << std::endl;
-            typename GM::ValueType result = gm_->evaluate(evaluate_->getValue());
+            const std::vector<size_t>& labeling = evaluate_->getValue();
+            if(labeling.size() != gm_->numberOfVariables()) {
+               throw RuntimeError("the number of labels to evaluate differs from the number of variables of the model");
+            }
+            for(size_t i = 0; i < labeling.size(); ++i) {
+               if(labeling[i] >= gm_->numberOfLabels(i)) {
+                  throw RuntimeError("a label to evaluate is out of range");
+               }
+            }
+            typename GM::ValueType result = gm_->evaluate(labeling);
             evaluateCallback(result);
          } else {
             callInferenceAlgorithm();
-- 
2.43.0


From 86401270769a308b300d768a677dc50050ebf460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:59 +0000
Subject: [PATCH 164/168] fix: the command line programs aborted on unreadable
 vector files

---
 src/interfaces/common/io/io_base.hxx | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/src/interfaces/common/io/io_base.hxx b/src/interfaces/common/io/io_base.hxx
index dae0ba3..7af2b6d 100644
--- a/src/interfaces/common/io/io_base.hxx
+++ b/src/interfaces/common/io/io_base.hxx
@@ -377,8 +377,7 @@ void IOBase::loadVectorText(const std::string& filename, const std::string& data
   //std::cout << "loading vector from textfile..." << std::endl;
   std::ifstream vector_file(filename.c_str(), std::ifstream::in);
   if(!vector_file) {
-    std::cerr << "error: could not open file: " << filename << std::endl;
-    std::abort();
+    throw RuntimeError("could not open file: " + filename);
   }
   typename VEC_TYPE::value_type current_value;
   std::string current_line;
@@ -399,8 +398,7 @@ void IOBase::loadVectorText(const std::string& filename, const std::string& data
       }
     }
     if(datasetIntern == "") {
-      std::cerr << "no vector found" << std::endl;
-      std::abort();
+      throw RuntimeError("no vector found in file: " + filename);
     }
   }
   //reset position
@@ -420,8 +418,7 @@ void IOBase::loadVectorText(const std::string& filename, const std::string& data
       if(datasetIntern == current_line.substr(1)) {
         getline(vector_file, current_line);
         if(vector_file.eof()) {
-          std::cerr << "error: vector with specified dataset was not found" << std::endl;
-          std::abort();
+          throw RuntimeError("vector with specified dataset was not found");
         } else {
           datasetFound = true;
         }
@@ -446,8 +443,7 @@ void IOBase::loadVectorText(const std::string& filename, const std::string& data
   }
 
   if(!datasetFound) {
-    std::cerr << "error: vector with specified dataset was not found" << std::endl;
-    std::abort();
+    throw RuntimeError("vector with specified dataset was not found");
   }
   vector_file.close();
 }
@@ -461,7 +457,7 @@ void IOBase::loadVectorHDF5(const std::string& filename, const std::string& data
     std::cout << "warning: dataset not specified, choose one of the following datasets and try again." << std::endl;
     std::cout << "All possible Datasets are: " << std::endl;
     H5Giterate(handle, "/", NULL, file_info, NULL);
-    abort();
+    throw RuntimeError("no dataset specified");
   }
   //FIXME andres::hdf5::load() doesn't support std::vector
   marray::Vector<typename VEC_TYPE::value_type> w;
@@ -513,8 +509,7 @@ void IOBase::storeVectorText(const std::string& filename, const std::string& dat
 
   std::ofstream vector_file(filename.c_str(), std::ofstream::out|std::ios::app);
   if(!vector_file) {
-    std::cerr << "error: could not open file: " << filename << std::endl;
-    std::abort();
+    throw RuntimeError("could not open file: " + filename);
   }
   vector_file << "%" << dataset << std::endl;
 
@@ -579,7 +574,7 @@ void IOBase::loadMArrayHDF5(const std::string& filename, const std::string& data
     std::cout << "warning: dataset not specified, choose one of the following datasets and try again." << std::endl;
     std::cout << "All possible Datasets are: " << std::endl;
     H5Giterate(handle, "/", NULL, file_info, NULL);
-    abort();
+    throw RuntimeError("no dataset specified");
   }
   marray::hdf5::load(handle, dataset, array);
   marray::hdf5::closeFile(handle);
-- 
2.43.0


From 4754b8fb86c51702381d8061e6d01648034e34c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:59 +0000
Subject: [PATCH 165/168] fix: the last vector of a text file was not found if
 the file does not end with a newline

---
 src/interfaces/common/io/io_base.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/interfaces/common/io/io_base.hxx b/src/interfaces/common/io/io_base.hxx
index 7af2b6d..484dc26 100644
--- a/src/interfaces/common/io/io_base.hxx
+++ b/src/interfaces/common/io/io_base.hxx
@@ -417,7 +417,7 @@ void IOBase::loadVectorText(const std::string& filename, const std::string& data
     if(current_line.at(0) == '%') {
       if(datasetIntern == current_line.substr(1)) {
         getline(vector_file, current_line);
-        if(vector_file.eof()) {
+        if(!vector_file) {
           throw RuntimeError("vector with specified dataset was not found");
         } else {
           datasetFound = true;
-- 
2.43.0


From 57c95d420d21cea3ce6ca81870edb58b0e9864aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:59 +0000
Subject: [PATCH 166/168] fix: LazyFlipper ignored a starting point of a wrong
 size instead of rejecting it

---
 include/opengm/inference/lazyflipper.hxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/opengm/inference/lazyflipper.hxx b/include/opengm/inference/lazyflipper.hxx
index 7938b69..6599b91 100644
--- a/include/opengm/inference/lazyflipper.hxx
+++ b/include/opengm/inference/lazyflipper.hxx
@@ -670,6 +670,9 @@ LazyFlipper<GM, ACC>::LazyFlipper(
    if(param.startingPoint_.size() == gm_.numberOfVariables()) {
       movemaker_.initialize(param.startingPoint_.begin());
    }
+   else if(param.startingPoint_.size() != 0) {
+      throw RuntimeError("unsuitable starting point");
+   }
 }
 
 template<class GM, class ACC>
-- 
2.43.0


From 9bf9ce27a9f58ebd7293731fb06d41e482537cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:42 +0000
Subject: [PATCH 167/168] fix: fix: AStar's standard heuristic read a label of
 a factor without variables

---
 include/opengm/inference/astar.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/inference/astar.hxx b/include/opengm/inference/astar.hxx
index 52b8da5..e3a63ea 100644
--- a/include/opengm/inference/astar.hxx
+++ b/include/opengm/inference/astar.hxx
@@ -454,7 +454,7 @@ namespace opengm {
                }
             }
             if(fixedVars.size()==gm_[f].numberOfVariables()){//all fixed
-               std::vector<LabelType> fixedStates(gm_[f].numberOfVariables(),0);
+               std::vector<LabelType> fixedStates(gm_[f].numberOfVariables()+1,0); // a factor of order 0 is evaluated at one label 0
                for(IndexType i=0; i<gm_[f].numberOfVariables(); ++i){
                   fixedStates[i]=fixVariableLabel[ gm_[f].variableIndex(i)];
                }     
-- 
2.43.0


From 0dd0a6fda1318f3fd0c7def80c98f90b7a59dc33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:14 +0000
Subject: [PATCH 168/168] fix: matching2opengm listed the candidates of a key
 point by assignment identifier but numbered them by line

---
 src/converter/matching2opengm.cxx | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/converter/matching2opengm.cxx b/src/converter/matching2opengm.cxx
index c892a7e..cc065e7 100644
--- a/src/converter/matching2opengm.cxx
+++ b/src/converter/matching2opengm.cxx
@@ -157,11 +157,14 @@ int main(int argc, const char* argv[] ) {
    labels.resize(numVar);
    // add original labels
    for (size_t i=0; i< assignments.size(); ++i){
-      const size_t var = assignmentsVar[i].first;
+      const size_t var   = assignmentsVar[i].first;
+      const size_t label = assignmentsVar[i].second;
+      if(labels[var].size() <= label)
+         labels[var].resize(label+1);
       if(var<countKeyLeft)
-         labels[var].push_back(assignments[i].second);
+         labels[var][label] = assignments[i].second;
       else
-         labels[var].push_back(assignments[i].first);
+         labels[var][label] = assignments[i].first;
    } 
    // add reverse induced labels
    std::vector<std::vector<size_t> > duplicates;
-- 
2.43.0

