From 28acf5efb6986a59a48f7ea99224bb1bb96f9bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:03 +0000
Subject: [PATCH 01/80] fix: report HDF5 errors that occur when closing, and
 close all handles on exceptions

HDF5 writes buffered data when datasets, groups and files are closed; the
results of these calls were ignored, so a model could be "saved" successfully
to a full disk. Exceptions in save and load left file and groups open.
---
 .../datastructures/marray/marray_hdf5.hxx     | 52 ++++++++++++++++---
 .../graphicalmodel/graphicalmodel_hdf5.hxx    | 18 ++++---
 2 files changed, 57 insertions(+), 13 deletions(-)

diff --git a/include/opengm/datastructures/marray/marray_hdf5.hxx b/include/opengm/datastructures/marray/marray_hdf5.hxx
index fb8ab88..4002162 100644
--- a/include/opengm/datastructures/marray/marray_hdf5.hxx
+++ b/include/opengm/datastructures/marray/marray_hdf5.hxx
@@ -296,9 +296,12 @@ void create(
     }
 
     // clean up
-    H5Dclose(dataset);
+    herr_t closed = H5Dclose(dataset);
     H5Sclose(dataspace);
     H5Tclose(datatype);
+    if(closed < 0) {
+        throw std::runtime_error("Marray cannot close dataset.");
+    }
     handleCheck.check();
 }
 
@@ -383,10 +386,10 @@ void save(
     // write
     herr_t status = H5Dwrite(dataset, datatype, H5S_ALL, H5S_ALL,
         H5P_DEFAULT, &in(0));
-    H5Dclose(dataset);
+    herr_t closed = H5Dclose(dataset);
     H5Sclose(dataspace);
     H5Tclose(datatype);
-    if(status < 0) {
+    if(status < 0 || closed < 0) {
         throw std::runtime_error("Marray cannot write to dataset.");
     }
 
@@ -798,8 +801,8 @@ saveHyperslab(
     H5Sclose(memspace); 
     H5Tclose(datatype);
     H5Sclose(dataspace);
-    H5Dclose(dataset);
-    if(status < 0) {
+    herr_t closed = H5Dclose(dataset);
+    if(status < 0 || closed < 0) {
         throw std::runtime_error("Marray cannot write to dataset.");
     }
     handleCheck.check();
@@ -883,7 +886,10 @@ inline void closeFile
     const hid_t& handle
 )
 {
-    H5Fclose(handle);
+    // closing flushes buffered data, i.e. this is where write errors show up
+    if(H5Fclose(handle) < 0) {
+        throw std::runtime_error("Could not close HDF5 file.");
+    }
 }
 
 /// Create an HDF5 group.
@@ -943,9 +949,41 @@ closeGroup
     const hid_t& handle
 )
 {
-    H5Gclose(handle);
+    if(H5Gclose(handle) < 0) {
+        throw std::runtime_error("Could not close HDF5 group.");
+    }
 }
 
+/// Closes an HDF5 handle when leaving a scope by an exception.
+///
+/// Call release() before closing the handle explicitly (and checking for errors).
+///
+class ScopedHandle {
+public:
+    ScopedHandle(const hid_t handle, herr_t (*close)(hid_t))
+    :   handle_(handle), close_(close), active_(true)
+    {}
+    ~ScopedHandle()
+    {
+        if(active_) {
+            close_(handle_);
+        }
+    }
+    hid_t release()
+    {
+        active_ = false;
+        return handle_;
+    }
+
+private:
+    ScopedHandle(const ScopedHandle&);
+    ScopedHandle& operator=(const ScopedHandle&);
+
+    hid_t handle_;
+    herr_t (*close_)(hid_t);
+    bool active_;
+};
+
 } // namespace hdf5
 } // namespace marray
 
diff --git a/include/opengm/graphicalmodel/graphicalmodel_hdf5.hxx b/include/opengm/graphicalmodel/graphicalmodel_hdf5.hxx
index 8baaf4e..7bf9303 100644
--- a/include/opengm/graphicalmodel/graphicalmodel_hdf5.hxx
+++ b/include/opengm/graphicalmodel/graphicalmodel_hdf5.hxx
@@ -101,6 +101,7 @@ struct SaveAndLoadFunctions<GM, IX, DX, false>
          typedef typename meta::TypeAtTypeList<typename GM::FunctionTypeList, IX>::type TypeAtIX;
          ss << "function-id-" << (FunctionRegistration<TypeAtIX>::Id);
          hid_t group = marray::hdf5::createGroup(handle, ss.str());
+         marray::hdf5::ScopedHandle groupGuard(group, &H5Gclose);
 
          // loop over all functions of this type
          size_t indexCounter = 0;
@@ -166,7 +167,7 @@ struct SaveAndLoadFunctions<GM, IX, DX, false>
                marray::hdf5::save(group, std::string("values"), tmpValueVector);
             }
          }
-         marray::hdf5::closeGroup(group);
+         marray::hdf5::closeGroup(groupGuard.release());
       }
 
       // save functions of the next type in the typelist
@@ -205,6 +206,7 @@ struct SaveAndLoadFunctions<GM, IX, DX, false>
             typedef typename meta::TypeAtTypeList<typename GM::FunctionTypeList, IX>::type TypeAtIX ;
             ss << "function-id-" << (FunctionRegistration<TypeAtIX>::Id);
             hid_t group = marray::hdf5::openGroup(handle, ss.str());
+            marray::hdf5::ScopedHandle groupGuard(group, &H5Gclose);
             marray::Vector<typename GM::ValueType> serializationValues;
             marray::Vector<opengm::UInt64Type> serializationIndicies;
             {
@@ -279,7 +281,7 @@ struct SaveAndLoadFunctions<GM, IX, DX, false>
                valueIter+=FunctionSerialization<TypeAtIX>::valueSequenceSize(
                   meta::FieldAccess::template byIndex<IX> (gm.functionDataField_).functionData_.functions_[i]);
             }
-            marray::hdf5::closeGroup(group);
+            marray::hdf5::closeGroup(groupGuard.release());
          }
       }
 
@@ -339,7 +341,9 @@ void save
       throw opengm::RuntimeError( std::string("ValueType  has no support for hdf5 export") );
    }
    hid_t file = marray::hdf5::createFile(filepath, marray::hdf5::DEFAULT_HDF5_VERSION);
+   marray::hdf5::ScopedHandle fileGuard(file, &H5Fclose);
    hid_t group = marray::hdf5::createGroup(file, datasetName);
+   marray::hdf5::ScopedHandle groupGuard(group, &H5Gclose);
    std::vector<UInt64Type> serializationIndicies;
    opengm::UInt64Type storeValueTypeAs;
    // float
@@ -422,8 +426,8 @@ void save
       }
       if(serializationIndicies.size() != 0)marray::hdf5::save(group, subDatasetName, serializationIndicies);
    }
-   marray::hdf5::closeGroup(group);
-   marray::hdf5::closeFile(file);
+   marray::hdf5::closeGroup(groupGuard.release());
+   marray::hdf5::closeFile(fileGuard.release());
 }
 
 template<class GM>
@@ -437,7 +441,9 @@ void load
    typedef typename GM::ValueType ValueType;
    typedef typename GM::FactorType FactorType;
    hid_t file = marray::hdf5::openFile(filepath, marray::hdf5::READ_ONLY, marray::hdf5::DEFAULT_HDF5_VERSION);
+   marray::hdf5::ScopedHandle fileGuard(file, &H5Fclose);
    hid_t group =marray::hdf5::openGroup(file, datasetName);
+   marray::hdf5::ScopedHandle groupGuard(group, &H5Gclose);
    marray::Vector<opengm::UInt64Type> serializationIndicies;
    std::vector<opengm::UInt64Type> numberOfFunctions;
    std::vector<opengm::UInt64Type> functionIndexLookup;
@@ -550,8 +556,8 @@ void load
       }
    }
 
-   marray::hdf5::closeGroup(group);
-   marray::hdf5::closeFile(file);
+   marray::hdf5::closeGroup(groupGuard.release());
+   marray::hdf5::closeFile(fileGuard.release());
    gm.variableFactorAdjaceny_.resize(gm.numberOfVariables());
    // adjacenies
 
-- 
2.43.0


From c8247c32751748eccbfc43cec0fefcad41f3a19c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:03 +0000
Subject: [PATCH 02/80] fix: save and load models without variables in HDF5

---
 .../graphicalmodel/graphicalmodel_hdf5.hxx    | 21 +++++++++++--------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/include/opengm/graphicalmodel/graphicalmodel_hdf5.hxx b/include/opengm/graphicalmodel/graphicalmodel_hdf5.hxx
index 7bf9303..9291dc3 100644
--- a/include/opengm/graphicalmodel/graphicalmodel_hdf5.hxx
+++ b/include/opengm/graphicalmodel/graphicalmodel_hdf5.hxx
@@ -405,7 +405,7 @@ void save
          serializationIndicies[i]=
             static_cast<opengm::UInt64Type>(gm.numberOfLabels(i));
       }
-      marray::hdf5::save(group, subDatasetName, serializationIndicies);
+      if(serializationIndicies.size() != 0) marray::hdf5::save(group, subDatasetName, serializationIndicies);
    }
    serializationIndicies.clear();
 
@@ -449,7 +449,7 @@ void load
    std::vector<opengm::UInt64Type> functionIndexLookup;
    std::vector<bool> useFunction(GM::NrOfFunctionTypes,false);
    marray::Vector<opengm::UInt64Type> typeRegisterId;
-   //size_t numberOfVariables;
+   opengm::UInt64Type numberOfVariables=0;
    bool oldFormat=false;
    opengm::UInt64Type loadValueTypeAs=0;
    {
@@ -463,7 +463,7 @@ void load
       if(serializationIndicies[0] != 2 || serializationIndicies[1] != 0) {
          throw RuntimeError("This version of the HDF5 file format is not supported by this version of OpenGM.");
       }
-      //numberOfVariables=serializationIndicies[2];
+      numberOfVariables=serializationIndicies[2];
       //gm.numbersOfStates_.resize(serializationIndicies[2]);
       gm.factors_.resize(serializationIndicies[3], FactorType(&gm));
       numberOfFunctions.resize(serializationIndicies[4]);
@@ -510,12 +510,15 @@ void load
          }
       }
    }
-   //if(numberOfVariables != 0) {
-   std::string subDatasetName("numbers-of-states");
-   marray::hdf5::load(group, subDatasetName, serializationIndicies);
-   gm.space_.assignDense(serializationIndicies.begin(), serializationIndicies.end());
-   OPENGM_ASSERT(serializationIndicies.size() == gm.numberOfVariables());
-   //}
+   if(numberOfVariables != 0) {
+      std::string subDatasetName("numbers-of-states");
+      marray::hdf5::load(group, subDatasetName, serializationIndicies);
+      gm.space_.assignDense(serializationIndicies.begin(), serializationIndicies.end());
+      OPENGM_ASSERT(serializationIndicies.size() == gm.numberOfVariables());
+   }
+   else {
+      gm.space_ = typename GM::SpaceType();
+   }
    SaveAndLoadFunctions<GM, 0, GM::NrOfFunctionTypes, opengm::meta::EqualNumber<GM::NrOfFunctionTypes, 0>::value >::load
    (group, gm, numberOfFunctions,functionIndexLookup,useFunction,loadValueTypeAs,oldFormat);
 
-- 
2.43.0


From c67d773419201c55a4d3d3d1a2df318374a43a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:03 +0000
Subject: [PATCH 03/80] fix: loading an HDF5 model replaces the previous
 content of the model object

---
 include/opengm/graphicalmodel/graphicalmodel_hdf5.hxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/opengm/graphicalmodel/graphicalmodel_hdf5.hxx b/include/opengm/graphicalmodel/graphicalmodel_hdf5.hxx
index 9291dc3..84503bc 100644
--- a/include/opengm/graphicalmodel/graphicalmodel_hdf5.hxx
+++ b/include/opengm/graphicalmodel/graphicalmodel_hdf5.hxx
@@ -440,6 +440,7 @@ void load
 {
    typedef typename GM::ValueType ValueType;
    typedef typename GM::FactorType FactorType;
+   gm = GM(); // nothing of a model that was stored in this object before must remain
    hid_t file = marray::hdf5::openFile(filepath, marray::hdf5::READ_ONLY, marray::hdf5::DEFAULT_HDF5_VERSION);
    marray::hdf5::ScopedHandle fileGuard(file, &H5Fclose);
    hid_t group =marray::hdf5::openGroup(file, datasetName);
-- 
2.43.0


From b2ada3acde8ef850036a668ca042b59396fa34cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:51 +0000
Subject: [PATCH 04/80] fix: write the header of an HDF5 model last

A save that failed half way (e.g. one failing write of the label numbers)
left a file that loaded without any error as a different model.
---
 .../graphicalmodel/graphicalmodel_hdf5.hxx    | 48 +++++++++----------
 1 file changed, 24 insertions(+), 24 deletions(-)

diff --git a/include/opengm/graphicalmodel/graphicalmodel_hdf5.hxx b/include/opengm/graphicalmodel/graphicalmodel_hdf5.hxx
index 84503bc..b57b8d3 100644
--- a/include/opengm/graphicalmodel/graphicalmodel_hdf5.hxx
+++ b/include/opengm/graphicalmodel/graphicalmodel_hdf5.hxx
@@ -373,30 +373,6 @@ void save
    else{
        throw RuntimeError(std::string("ValueType has no support for hdf5 export"));
    }
-   //opengm::UInt64Type
-   // save meta data
-   {
-      std::string subDatasetName("header");
-      serializationIndicies.push_back(VERSION_MAJOR);
-      serializationIndicies.push_back(VERSION_MINOR);
-      serializationIndicies.push_back(gm.numberOfVariables());
-      serializationIndicies.push_back(gm.factors_.size());
-      serializationIndicies.push_back(GM::NrOfFunctionTypes);
-      for(size_t i=0; i<GM::NrOfFunctionTypes; ++i) {
-         const size_t fRegId=GetFunctionRegistration
-         <
-            GM,
-            0,
-            GM::NrOfFunctionTypes,
-            meta::EqualNumber<GM::NrOfFunctionTypes, 0>::value
-         >::get(i);
-         serializationIndicies.push_back(fRegId);
-         serializationIndicies.push_back(gm.numberOfFunctions(i));
-      }
-      serializationIndicies.push_back(storeValueTypeAs);
-      marray::hdf5::save(group, subDatasetName, serializationIndicies);
-   }
-
    // save numbers of states
    {
       std::string subDatasetName("numbers-of-states");
@@ -426,6 +402,30 @@ void save
       }
       if(serializationIndicies.size() != 0)marray::hdf5::save(group, subDatasetName, serializationIndicies);
    }
+   // save meta data; this comes last such that a file is only loadable if
+   // all the data it describes has been written
+   serializationIndicies.clear();
+   {
+      std::string subDatasetName("header");
+      serializationIndicies.push_back(VERSION_MAJOR);
+      serializationIndicies.push_back(VERSION_MINOR);
+      serializationIndicies.push_back(gm.numberOfVariables());
+      serializationIndicies.push_back(gm.factors_.size());
+      serializationIndicies.push_back(GM::NrOfFunctionTypes);
+      for(size_t i=0; i<GM::NrOfFunctionTypes; ++i) {
+         const size_t fRegId=GetFunctionRegistration
+         <
+            GM,
+            0,
+            GM::NrOfFunctionTypes,
+            meta::EqualNumber<GM::NrOfFunctionTypes, 0>::value
+         >::get(i);
+         serializationIndicies.push_back(fRegId);
+         serializationIndicies.push_back(gm.numberOfFunctions(i));
+      }
+      serializationIndicies.push_back(storeValueTypeAs);
+      marray::hdf5::save(group, subDatasetName, serializationIndicies);
+   }
    marray::hdf5::closeGroup(groupGuard.release());
    marray::hdf5::closeFile(fileGuard.release());
 }
-- 
2.43.0


From fd4c3d6aa01af97c5385beb90bad8dd175ae702e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:12 +0000
Subject: [PATCH 05/80] fix: close HDF5 handles when loadHyperslab rejects the
 data type

---
 include/opengm/datastructures/marray/marray_hdf5.hxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/opengm/datastructures/marray/marray_hdf5.hxx b/include/opengm/datastructures/marray/marray_hdf5.hxx
index 4002162..8904126 100644
--- a/include/opengm/datastructures/marray/marray_hdf5.hxx
+++ b/include/opengm/datastructures/marray/marray_hdf5.hxx
@@ -657,6 +657,8 @@ void loadHyperslab(
     hid_t datatype = H5Dget_type(dataset);
     
     if(!H5Tequal(datatype, hdf5Type<T>())) {
+        H5Tclose(datatype);
+        H5Dclose(dataset);
         throw std::runtime_error("data type of stored hdf5 dataset and passed array do not match in loadHyperslab");
     }
     
-- 
2.43.0


From f2b1a8f6668167a636c66f534dbcc195caca2d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:23 +0000
Subject: [PATCH 06/80] fix: DynamicProgramming: explicit roots must not hide
 other components; no uninitialised states when all values are worst

---
 .../opengm/inference/dynamicprogramming.hxx   | 23 +++++++++++--------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/include/opengm/inference/dynamicprogramming.hxx b/include/opengm/inference/dynamicprogramming.hxx
index 436c36e..4f0002e 100644
--- a/include/opengm/inference/dynamicprogramming.hxx
+++ b/include/opengm/inference/dynamicprogramming.hxx
@@ -113,15 +113,19 @@ namespace opengm {
     size_t rootCounter=0;
     while(varCount < gm_.numberOfVariables() && orderCount < gm_.numberOfVariables()){
       if(rootCounter<para_.roots_.size()){
-        nodeOrder_[para_.roots_[rootCounter]] = orderCount++;
-        nodeList.push_back(para_.roots_[rootCounter]);
-        ++rootCounter;
+        const size_t root = para_.roots_[rootCounter++];
+        if(nodeOrder_[root]==std::numeric_limits<std::size_t>::max()){
+          nodeOrder_[root] = orderCount++;
+          nodeList.push_back(root);
+        }
       }
-      else if(nodeOrder_[varCount]==std::numeric_limits<std::size_t>::max()){
-        nodeOrder_[varCount] = orderCount++;
-        nodeList.push_back(varCount);
+      else{
+        if(nodeOrder_[varCount]==std::numeric_limits<std::size_t>::max()){
+          nodeOrder_[varCount] = orderCount++;
+          nodeList.push_back(varCount);
+        }
+        ++varCount;
       }
-      ++varCount;
       while(nodeList.size()>0){
         size_t node = nodeList.back();
         nodeList.pop_back();
@@ -210,7 +214,7 @@ namespace opengm {
           size_t vec[] = {0,0};
           if(factor.variableIndex(0) == node && nodeOrder_[factor.variableIndex(1)]>nodeOrder_[node] ){
             const size_t node2 = factor.variableIndex(1);
-            MyStateType s;
+            MyStateType s = 0;
             MyValueType v,v2;
             for(vec[0]=0; vec[0]<gm_.numberOfLabels(node); ++vec[0]){
               ACC::neutral(v);
@@ -230,7 +234,7 @@ namespace opengm {
           }
           if(factor.variableIndex(1) == node && nodeOrder_[factor.variableIndex(0)]>nodeOrder_[node]){ 
             const size_t node2 = factor.variableIndex(0);
-            MyStateType s;
+            MyStateType s = 0;
             MyValueType v,v2;
             for(vec[1]=0; vec[1]<gm_.numberOfLabels(node); ++vec[1]){
               ACC::neutral(v);
@@ -277,6 +281,7 @@ namespace opengm {
          while(var < gm_.numberOfVariables()){
            if(arg[var]==std::numeric_limits<LabelType>::max()){
              MyValueType v; ACC::neutral(v);
+             arg[var]=0;
              for(size_t i=0; i<gm_.numberOfLabels(var); ++i){
                if(ACC::bop(valueBuffers_[var][i], v)){
                  v = valueBuffers_[var][i];
-- 
2.43.0


From 630499ff37880ba16f993d946ef62c6b75fd7509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:23 +0000
Subject: [PATCH 07/80] fix: dual decomposition: no division by a zero
 subgradient norm; arg() is UNKNOWN before a labelling was found

---
 .../dualdecomposition/dualdecomposition_bundle.hxx |  2 ++
 .../dualdecomposition_subgradient.hxx              | 14 +++++++++++---
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/include/opengm/inference/dualdecomposition/dualdecomposition_bundle.hxx b/include/opengm/inference/dualdecomposition/dualdecomposition_bundle.hxx
index af8f7b1..30a2671 100644
--- a/include/opengm/inference/dualdecomposition/dualdecomposition_bundle.hxx
+++ b/include/opengm/inference/dualdecomposition/dualdecomposition_bundle.hxx
@@ -340,6 +340,8 @@ namespace opengm {
       }
       else{ 
          acUpperBound_.state(conf);
+         if(conf.size() != gm_.numberOfVariables()) // no labelling found yet
+            return UNKNOWN;
          return NORMAL;
       }
    }
diff --git a/include/opengm/inference/dualdecomposition/dualdecomposition_subgradient.hxx b/include/opengm/inference/dualdecomposition/dualdecomposition_subgradient.hxx
index ae3247d..0f62877 100644
--- a/include/opengm/inference/dualdecomposition/dualdecomposition_subgradient.hxx
+++ b/include/opengm/inference/dualdecomposition/dualdecomposition_subgradient.hxx
@@ -214,13 +214,19 @@ namespace opengm {
          }
          else if(para_.useProjectedAdaptiveStepsize_){
             double subgradientNorm = euclideanProjectedSubGradientNorm();
-            stepsize = para_.stepsizeStride_ * fabs(acUpperBound_.value() - lowerBound_) 
-                       /subgradientNorm/subgradientNorm;
+            if(subgradientNorm == 0.0) // all sub-solutions agree
+               stepsize = 0.0;
+            else
+               stepsize = para_.stepsizeStride_ * fabs(acUpperBound_.value() - lowerBound_) 
+                          /subgradientNorm/subgradientNorm;
          }
          else{
             double primalDualGap = fabs(acUpperBound_.value() + acNegLowerBound_.value());
             double subgradientNorm = euclideanProjectedSubGradientNorm();//(*this).subGradientNorm(1); 
-            stepsize = para_.getStepsize(iteration,primalDualGap,subgradientNorm); 
+            if(subgradientNorm == 0.0) // all sub-solutions agree
+               stepsize = 0.0;
+            else
+               stepsize = para_.getStepsize(iteration,primalDualGap,subgradientNorm); 
 //            std::cout << stepsize << std::endl;
          }
      
@@ -284,6 +290,8 @@ namespace opengm {
       }
       else{ 
          acUpperBound_.state(conf);
+         if(conf.size() != gm_.numberOfVariables()) // no labelling found yet
+            return UNKNOWN;
          return NORMAL;
       }
    }
-- 
2.43.0


From ce18c6bcf968b3912275c4880279d860c1b7de8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:23 +0000
Subject: [PATCH 08/80] fix: AlphaExpansion: local optimal initial labels are
 per variable, not per factor

---
 include/opengm/inference/alphaexpansion.hxx | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/opengm/inference/alphaexpansion.hxx b/include/opengm/inference/alphaexpansion.hxx
index d5b21e3..ab1b6e9 100644
--- a/include/opengm/inference/alphaexpansion.hxx
+++ b/include/opengm/inference/alphaexpansion.hxx
@@ -468,12 +468,14 @@ AlphaExpansion<GM, INF>::setInitialLabelLocalOptimal() {
    std::vector<size_t> accVec;
    for(size_t i=0; i<gm_.numberOfFactors();++i) {
       if(gm_[i].numberOfVariables()==1) {
+         const IndexType var = gm_[i].variableIndex(0);
          std::vector<size_t> state(1, 0);
          ValueType value = gm_[i](state.begin());
-         for(state[0]=1; state[0]<gm_.numberOfLabels(i); ++state[0]) {
+         label_[var] = 0;
+         for(state[0]=1; state[0]<gm_.numberOfLabels(var); ++state[0]) {
             if(AccumulationType::bop(gm_[i](state.begin()), value)) {
                value = gm_[i](state.begin());
-               label_[i] = state[0];
+               label_[var] = state[0];
             }
          }
       }
-- 
2.43.0


From 8f5f300773b2f0164045371f647f307bbf268ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:23 +0000
Subject: [PATCH 09/80] fix: AStar: parallel factors of two variables must not
 both enter the heuristic's tree

---
 include/opengm/inference/astar.hxx | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/opengm/inference/astar.hxx b/include/opengm/inference/astar.hxx
index d1a19e6..9f2c518 100644
--- a/include/opengm/inference/astar.hxx
+++ b/include/opengm/inference/astar.hxx
@@ -236,11 +236,17 @@ namespace opengm {
       //Check FactorIds
       if(parameter_.treeFactorIds_.size()==0) {
          //Select tree factors
+         std::vector<bool> inTree(numNodes_, false); // several factors of the same two variables would form a cycle
          for(size_t i=0; i<gm_.numberOfFactors(); ++i) {
             if((gm_[i].numberOfVariables()==2) &&
                (gm_[i].variableIndex(0)==parameter_.nodeOrder_.back() || gm_[i].variableIndex(1)==parameter_.nodeOrder_.back())
-               )
-               parameter_.addTreeFactorId(i);
+               ) {
+               const size_t other = gm_[i].variableIndex(gm_[i].variableIndex(0)==parameter_.nodeOrder_.back() ? 1 : 0);
+               if(!inTree[other]) {
+                  inTree[other] = true;
+                  parameter_.addTreeFactorId(i);
+               }
+            }
          }
       }
       for(size_t i=0; i<parameter_.treeFactorIds_.size(); ++i)
-- 
2.43.0


From 21bfff39335fdeafb2bdcc00dd0ef3fcf1b59a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:23 +0000
Subject: [PATCH 10/80] fix: PrimalLPBound: transport solver kept a pointer to
 a destroyed temporary

---
 include/opengm/inference/auxiliary/primal_lpbound.hxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/opengm/inference/auxiliary/primal_lpbound.hxx b/include/opengm/inference/auxiliary/primal_lpbound.hxx
index cac675b..cf0ca63 100644
--- a/include/opengm/inference/auxiliary/primal_lpbound.hxx
+++ b/include/opengm/inference/auxiliary/primal_lpbound.hxx
@@ -189,7 +189,8 @@ typename PrimalLPBound<GM,ACC>::ValueType PrimalLPBound<GM,ACC>::getFactorValue(
 	const typename GM::FactorType& factor=_gm[factorId];
 	IndexType var0=factor.variableIndex(0),
 			  var1=factor.variableIndex(1);
-	_solver.Init(_unaryFactors[var0].size(),_unaryFactors[var1].size(),FactorWrapper<typename GM::FactorType>(factor));
+	const FactorWrapper<typename GM::FactorType> factorWrapper(factor);// the solver keeps a pointer to it
+	_solver.Init(_unaryFactors[var0].size(),_unaryFactors[var1].size(),factorWrapper);
 	_bufferedValues[factorId]=_solver.Solve(_unaryFactors[var0].begin(),_unaryFactors[var1].begin());
 	_lastActiveSolver=factorId;
 	}
-- 
2.43.0


From 637d30ce15f9e432f8e3094d3525c83300bde244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:23 +0000
Subject: [PATCH 11/80] fix: InfAndFlip: arg() before the inner inference read
 out of bounds

---
 include/opengm/inference/infandflip.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/inference/infandflip.hxx b/include/opengm/inference/infandflip.hxx
index 09820c6..e4da036 100644
--- a/include/opengm/inference/infandflip.hxx
+++ b/include/opengm/inference/infandflip.hxx
@@ -106,7 +106,7 @@ InfAndFlip<GM, ACC, INF>::InfAndFlip(
    const GraphicalModelType& gm,
    typename InfAndFlip<GM, ACC, INF>::Parameter param
    )
-   :  gm_(gm), para_(param)
+   :  gm_(gm), para_(param), state_(gm.numberOfVariables(), 0)
 {
    if(gm_.numberOfVariables() == 0) {
       throw RuntimeError("The graphical model has no variables.");
-- 
2.43.0


From 656fb043a0a3fff66891689723621bb0e676b72d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:23 +0000
Subject: [PATCH 12/80] fix: SelfFusion: keep the first labelling of the inner
 inference together with its value

---
 include/opengm/inference/self_fusion.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/opengm/inference/self_fusion.hxx b/include/opengm/inference/self_fusion.hxx
index 9e7e9ea..50f55ae 100644
--- a/include/opengm/inference/self_fusion.hxx
+++ b/include/opengm/inference/self_fusion.hxx
@@ -111,10 +111,10 @@ struct FusionVisitor{
         ValueType oldValue = value_;
 
         if(iteration_==0 ){         
-            inference.arg(argBest_);
+            inference.arg(argFromInf_);
             ValueType value = inference.value();
             if(AccumulationType::bop(value,value_)){
-               std::copy(argOut_.begin(),argOut_.end(),argBest_.begin());
+               std::copy(argFromInf_.begin(),argFromInf_.end(),argBest_.begin());
                value_ = value;
             }
             returnFlag_ =   selfFusionVisitor_(selfFusion_);
-- 
2.43.0


From 1b66a3f9946f01cd8612b059588b6aef8de188be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:23 +0000
Subject: [PATCH 13/80] fix: Movemaker: restore the buffered state of the right
 variables

---
 include/opengm/inference/movemaker.hxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/opengm/inference/movemaker.hxx b/include/opengm/inference/movemaker.hxx
index 468115c..497be85 100644
--- a/include/opengm/inference/movemaker.hxx
+++ b/include/opengm/inference/movemaker.hxx
@@ -497,7 +497,8 @@ Movemaker<GM>::moveOptimallyWithAllLabelsChanging
       if(gm_.space().numberOfLabels(variableIndices[j]) == 1) {
          // restore stateBuffer_
          for(size_t k=0; k<j; ++k) {
-            stateBuffer_[k] = state_[k];
+            const size_t vi = variableIndices[k];
+            stateBuffer_[vi] = state_[vi];
          }
          return energy_;
       }
-- 
2.43.0


From 27e2fd4c839bc713fcee76d6b340399f39a4c994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:45 +0000
Subject: [PATCH 14/80] fix: alpha-expansion weights of the auxiliary nodes
 between different labels

---
 include/opengm/inference/alphaexpansion.hxx | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/opengm/inference/alphaexpansion.hxx b/include/opengm/inference/alphaexpansion.hxx
index ab1b6e9..c5fb238 100644
--- a/include/opengm/inference/alphaexpansion.hxx
+++ b/include/opengm/inference/alphaexpansion.hxx
@@ -359,8 +359,10 @@ AlphaExpansion<GM, INF>::infer
                }
                else{
                   OPENGM_ASSERT(varX < numberOfVariables + numberOfAuxiliaryNodes);
-                  addPairwise(inf, var1, varX, 0, factor(vecAX), 0, 0);
-                  addPairwise(inf, var2, varX, 0, factor(vecXA), 0, 0);
+                  const ValueType costXA = factor(vecXA) - factor(vecAA);
+                  const ValueType costAX = factor(vecAX) - factor(vecAA);
+                  addPairwise(inf, var1, varX, 0, costXA, costXA, 0);
+                  addPairwise(inf, var2, varX, 0, costAX, costAX, 0);
                   addUnary(inf, varX, factor(vecAA), factor(vecXX));
                   ++varX;
                }
-- 
2.43.0


From 4176054698c7137a7bd3fd95329288f4f8f7e6f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:45 +0000
Subject: [PATCH 15/80] fix: InfAndFlip keeps the starting point when inference
 ends up worse

---
 include/opengm/inference/infandflip.hxx | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/include/opengm/inference/infandflip.hxx b/include/opengm/inference/infandflip.hxx
index e4da036..9c7bf42 100644
--- a/include/opengm/inference/infandflip.hxx
+++ b/include/opengm/inference/infandflip.hxx
@@ -155,6 +155,10 @@ InfAndFlip<GM, ACC, INF>::infer(
    value_ = gm_.evaluate(state_); 
    //value_=inf.value();
    bound_=inf.bound();
+   if(sp_.size()==gm_.numberOfVariables() && ACC::bop(spValue_,value_)) {
+      state_ = sp_;
+      value_ = spValue_;
+   }
    if( visitor(*this) != visitors::VisitorReturnFlag::ContinueInf ){
       visitor.end(*this);
       return NORMAL;
@@ -162,14 +166,7 @@ InfAndFlip<GM, ACC, INF>::infer(
 
    if(para_.maxSubgraphSize_>0){
       lf.setMaxSubgraphSize(para_.maxSubgraphSize_);
-      if(sp_.size()!=gm_.numberOfVariables())
-         lf.setStartingPoint(state_.begin());
-      else{
-         if(ACC::bop(value_,spValue_))
-            lf.setStartingPoint(state_.begin());
-         else
-            lf.setStartingPoint(sp_.begin());
-      }
+      lf.setStartingPoint(state_.begin());
       std::cout << "start flipping ..."<<std::endl;
       lf.infer();
       lf.arg(state_);
-- 
2.43.0


From 655e099dc06e14363da2add28818af75b0bd8d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:18 +0000
Subject: [PATCH 16/80] fix: TimingVisitor::log must neither write to an empty
 log nor restart the timer of a running measurement

---
 include/opengm/inference/visitors/visitors.hxx | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/include/opengm/inference/visitors/visitors.hxx b/include/opengm/inference/visitors/visitors.hxx
index b5443b1..c62950a 100644
--- a/include/opengm/inference/visitors/visitors.hxx
+++ b/include/opengm/inference/visitors/visitors.hxx
@@ -142,7 +142,8 @@ public:
     memLogging_(memLogging),
     timeLimit_(timeLimit),
     gapLimit_(gapLimit),
-    totalTime_(0.0)
+    totalTime_(0.0),
+    lastVisitRecorded_(false)
   {
     // allocate all protocolated items
     ctime_    = & protocolMap_["ctime"]    ;
@@ -196,7 +197,8 @@ public:
 
    size_t operator()(INFERENCE & inf){
 
-      if(iteration_%visithNth_==0){
+      lastVisitRecorded_=(iteration_%visithNth_==0);
+      if(lastVisitRecorded_){
          // stop timer
          timer_.toc();
 
@@ -284,14 +286,14 @@ public:
     extraLogs_.push_back(logName);
   }
   void log(const std::string & logName,const double logValue){
-    if((iteration_)%visithNth_==0){
-      timer_.toc();
+    // the value belongs to the last visited step, if that one was recorded
+    if(lastVisitRecorded_){
       if(verbose_){
         std::cout<<logName<<" "<<logValue<<"\n";
       }
-      protocolMap_[logName].back()=logValue;        
-      // start timer
-      timer_.tic();
+      std::vector<double> & logValues=protocolMap_[logName];
+      if(!logValues.empty())
+        logValues.back()=logValue;
     }
   }
 
@@ -338,6 +340,7 @@ private:
   double timeLimit_;
   double gapLimit_;
   double totalTime_;
+  bool lastVisitRecorded_; // is the last call of operator() part of the protocol
 };
 
 template<class INFERENCE>
-- 
2.43.0


From 2f6ac504d32042c3cc46019c0e398ed943e01072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:18 +0000
Subject: [PATCH 17/80] fix: ADSal honours a stop request during presolve,
 Nesterov calls end when it is solved at once

---
 include/opengm/inference/trws/smooth_nesterov.hxx | 5 ++++-
 include/opengm/inference/trws/trws_adsal.hxx      | 2 +-
 include/opengm/inference/visitors/visitors.hxx    | 7 +++++--
 3 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/opengm/inference/trws/smooth_nesterov.hxx b/include/opengm/inference/trws/smooth_nesterov.hxx
index b135cf6..077a88e 100644
--- a/include/opengm/inference/trws/smooth_nesterov.hxx
+++ b/include/opengm/inference/trws/smooth_nesterov.hxx
@@ -292,7 +292,10 @@ InferenceTermination NesterovAcceleratedGradient<GM,ACC>::infer(VISITOR & vis)
 	#ifdef TRWS_DEBUG_OUTPUT
 		parent::_fout << "NesterovAcceleratedGradient::_CheckStoppingCondition(): Precision attained! Problem solved!"<<std::endl;
 	#endif
-
+		 visitor();
+		 visitor.log("oracleCalls",(double)counter);
+		 visitor.log("primalLPbound",(double)parent::_bestPrimalLPbound);
+		 visitor.end();
 		 return NORMAL;
 	}
 
diff --git a/include/opengm/inference/trws/trws_adsal.hxx b/include/opengm/inference/trws/trws_adsal.hxx
index 65335e5..c815ad7 100644
--- a/include/opengm/inference/trws/trws_adsal.hxx
+++ b/include/opengm/inference/trws/trws_adsal.hxx
@@ -159,7 +159,7 @@ InferenceTermination ADSal<GM,ACC>::infer(VISITOR & vis)
 
 	if (parent::_sumprodsolver.GetSmoothing()<=0.0)
 	{
-		if (parent::_Presolve(visitor, &counter)==CONVERGENCE)
+		if (parent::_Presolve(visitor, &counter)==CONVERGENCE || visitor.lastReturnFlag()!=visitors::VisitorReturnFlag::ContinueInf)
 		{
 			parent::_SelectOptimalBoundsAndLabeling();
 			visitor();
diff --git a/include/opengm/inference/visitors/visitors.hxx b/include/opengm/inference/visitors/visitors.hxx
index c62950a..3d9bc8b 100644
--- a/include/opengm/inference/visitors/visitors.hxx
+++ b/include/opengm/inference/visitors/visitors.hxx
@@ -570,15 +570,18 @@ public:
 
 	VisitorWrapper(VISITOR* pvisitor,INFERENCE_TYPE* pinference)
 	:_pvisitor(pvisitor),
-	 _pinference(pinference){};
+	 _pinference(pinference),
+	 _lastReturnFlag(VisitorReturnFlag::ContinueInf){};
 	void begin(){_pvisitor->begin(*_pinference);}
 	void end(){_pvisitor->end(*_pinference);}
-	size_t operator() (){return (*_pvisitor)(*_pinference);}
+	size_t operator() (){_lastReturnFlag=(*_pvisitor)(*_pinference); return _lastReturnFlag;}
+	size_t lastReturnFlag()const{return _lastReturnFlag;}
 	void addLog(const std::string& logName){_pvisitor->addLog(logName);}
 	void log(const std::string& logName, double value){_pvisitor->log(logName,value);}
 private:
 	VISITOR* _pvisitor;
 	INFERENCE_TYPE* _pinference;
+	size_t _lastReturnFlag;
 };
 
 
-- 
2.43.0


From 6ae2aee048377e0e43a61de78a47f5ad073c679b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:18 +0000
Subject: [PATCH 18/80] fix: SelfFusion honours a stop request made at its
 first visitor call

---
 include/opengm/inference/self_fusion.hxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/opengm/inference/self_fusion.hxx b/include/opengm/inference/self_fusion.hxx
index 50f55ae..86ec730 100644
--- a/include/opengm/inference/self_fusion.hxx
+++ b/include/opengm/inference/self_fusion.hxx
@@ -106,6 +106,10 @@ struct FusionVisitor{
 
     size_t fuseVisit(INF & inference){
 
+        // a stop request of an earlier call is final
+        if(returnFlag_!=visitors::VisitorReturnFlag::ContinueInf)
+            return returnFlag_;
+
         const typename SelfFusionType::Parameter & param = selfFusion_.parameter();
 
         ValueType oldValue = value_;
-- 
2.43.0


From 16c4036efa08fc9a85f717d849074a165be5a516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:54 +0000
Subject: [PATCH 19/80] fix: AStar honours a stop request made when a solution
 is reported

---
 include/opengm/inference/astar.hxx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/opengm/inference/astar.hxx b/include/opengm/inference/astar.hxx
index 9f2c518..bf1c31c 100644
--- a/include/opengm/inference/astar.hxx
+++ b/include/opengm/inference/astar.hxx
@@ -337,7 +337,10 @@ namespace opengm {
                conf[parameter_.nodeOrder_[n]] = array_.front().conf[n];
             } 
             optConf_.push_back(conf);
-            visitor(*this);
+            const size_t solutionFlag = visitor(*this);
+            if(exitFlag == 0) {
+               exitFlag = solutionFlag;
+            }
             if(ACC::bop(parameter_.objectiveBound_, value)) {
                visitor.end(*this);
                return NORMAL;
-- 
2.43.0


From dc8891ce8ef17ed319baaec6b990bfc6ae5cd0d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:02 +0000
Subject: [PATCH 20/80] fix: Marray keeps its invariants when an allocation
 fails

---
 .../opengm/datastructures/marray/marray.hxx   | 105 +++++++++++++-----
 1 file changed, 77 insertions(+), 28 deletions(-)

diff --git a/include/opengm/datastructures/marray/marray.hxx b/include/opengm/datastructures/marray/marray.hxx
index 0c91d2f..9b91b1b 100644
--- a/include/opengm/datastructures/marray/marray.hxx
+++ b/include/opengm/datastructures/marray/marray.hxx
@@ -615,6 +615,7 @@ private:
     void squeeze() {}
 
     void testInvariant() const;
+    void reserveForAssignment(const size_t, const size_t);
     template<bool SKIP_INITIALIZATION, class ShapeIterator>
         void resizeHelper(ShapeIterator, ShapeIterator, const T& = T());
 
@@ -3394,9 +3395,9 @@ Marray<T, A>::Marray
 )
 :   dataAllocator_(allocator)
 {
+    this->geometry_ = geometry_type(0, coordinateOrder, 1, true, allocator);
     this->data_ = dataAllocator_.allocate(1);
     this->data_[0] = value;
-    this->geometry_ = geometry_type(0, coordinateOrder, 1, true, allocator);
     testInvariant();
 }
 
@@ -3415,6 +3416,7 @@ Marray<T, A>::Marray
     if(!MARRAY_NO_ARG_TEST) {
         in.testInvariant();
     }
+    this->geometry_ = in.geometry_;
     if(in.data_ == 0) {
         this->data_ = 0;
     }
@@ -3422,7 +3424,6 @@ Marray<T, A>::Marray
         this->data_ = dataAllocator_.allocate(in.size());
         memcpy(this->data_, in.data_, (in.size())*sizeof(T));
     }
-    this->geometry_ = in.geometry_;
     testInvariant();
 }
 
@@ -3485,7 +3486,6 @@ Marray<T, A>::Marray
 )
 :   dataAllocator_(allocator)
 {
-    this->data_ = dataAllocator_.allocate(expression.size());
     if(expression.dimension() == 0) {
         this->geometry_ = geometry_type(0,
             static_cast<const E&>(expression).coordinateOrder(),
@@ -3500,6 +3500,7 @@ Marray<T, A>::Marray
             dataAllocator_);
 
     }
+    this->data_ = dataAllocator_.allocate(expression.size());
     const E& e = static_cast<const E&>(expression);
     if(e.dimension() == 0) {
         marray_detail::Assert(MARRAY_NO_ARG_TEST || e.size() < 2);
@@ -3537,8 +3538,11 @@ Marray<T, A>::Marray
 {
     size_t size = std::accumulate(begin, end, static_cast<size_t>(1), std::multiplies<size_t>());
     marray_detail::Assert(MARRAY_NO_ARG_TEST || size != 0);
-    base::assign(begin, end, dataAllocator_.allocate(size), coordinateOrder,
+    // the memory for the data is allocated last such that it is not lost if
+    // an allocation fails
+    this->geometry_ = geometry_type(begin, end, coordinateOrder,
         coordinateOrder, allocator);
+    this->data_ = dataAllocator_.allocate(size);
     for(size_t j=0; j<size; ++j) {
         this->data_[j] = value;
     }
@@ -3570,8 +3574,11 @@ Marray<T, A>::Marray
 {
     size_t size = std::accumulate(begin, end, 1, std::multiplies<size_t>());
     marray_detail::Assert(MARRAY_NO_ARG_TEST || size != 0);
-    base::assign(begin, end, dataAllocator_.allocate(size), coordinateOrder,
+    // the memory for the data is allocated last such that it is not lost if
+    // an allocation fails
+    this->geometry_ = geometry_type(begin, end, coordinateOrder,
         coordinateOrder, allocator);
+    this->data_ = dataAllocator_.allocate(size);
     testInvariant();
 }
 
@@ -3599,8 +3606,9 @@ Marray<T, A>::Marray
     size_t size = std::accumulate(shape.begin(), shape.end(),
         1, std::multiplies<size_t>());
     marray_detail::Assert(MARRAY_NO_ARG_TEST || size != 0);
-    base::assign(shape.begin(), shape.end(), dataAllocator_.allocate(size),
+    this->geometry_ = geometry_type(shape.begin(), shape.end(),
                  coordinateOrder, coordinateOrder, allocator);
+    this->data_ = dataAllocator_.allocate(size);
     for(size_t j=0; j<size; ++j) {
         this->data_[j] = value;
     }
@@ -3642,22 +3650,33 @@ Marray<T, A>::operator=
         in.testInvariant();
     }
     if(this != &in) { // no self-assignment
-        // copy data
+        const size_t oldSize = this->size();
         if(in.data_ == 0) { // un-initialized
+            this->geometry_ = in.geometry_;
             // free
-            dataAllocator_.deallocate(this->data_, this->size());
+            dataAllocator_.deallocate(this->data_, oldSize);
             this->data_ = 0;
         }
         else {
-            if(this->size() != in.size()) {
+            if(oldSize != in.size()) {
                 // re-alloc
-                dataAllocator_.deallocate(this->data_, this->size());
-                this->data_ = dataAllocator_.allocate(in.size());
+                typename base::pointer newData = dataAllocator_.allocate(in.size());
+                try {
+                    this->geometry_ = in.geometry_;
+                }
+                catch(...) {
+                    dataAllocator_.deallocate(newData, in.size());
+                    throw;
+                }
+                dataAllocator_.deallocate(this->data_, oldSize);
+                this->data_ = newData;
+            }
+            else {
+                this->geometry_ = in.geometry_;
             }
             // copy data
             memcpy(this->data_, in.data_, in.size() * sizeof(T));
         }
-        this->geometry_ = in.geometry_;
     }
     testInvariant();
     return *this;
@@ -3690,9 +3709,10 @@ Marray<T, A>::operator=
     }
     if( (void*)(this) != (void*)(&in) ) { // no self-assignment
         if(in.data_ == 0) {
-            dataAllocator_.deallocate(this->data_, this->size());
-            this->data_ = 0;
+            const size_t oldSize = this->size();
             this->geometry_ = in.geometry_;
+            dataAllocator_.deallocate(this->data_, oldSize);
+            this->data_ = 0;
         }
         else if(this->overlaps(in)) {
             Marray<T, A> m = in; // temporary copy
@@ -3700,13 +3720,9 @@ Marray<T, A>::operator=
         }
         else {
             // re-alloc memory if necessary
-            if(this->size() != in.size()) {
-                dataAllocator_.deallocate(this->data_, this->size());
-                this->data_ = dataAllocator_.allocate(in.size());
-            }
+            reserveForAssignment(in.size(), in.dimension());
 
             // copy geometry
-            this->geometry_.resize(in.dimension());
             for(size_t j=0; j<in.dimension(); ++j) {
                 this->geometry_.shape(j) = in.geometry_.shape(j);
                 this->geometry_.shapeStrides(j) = in.geometry_.shapeStrides(j);
@@ -3786,13 +3802,9 @@ Marray<T, A>::operator=
     }
     else {
         // re-allocate memory (if necessary)
-        if(this->size() != expression.size()) {
-            dataAllocator_.deallocate(this->data_, this->size());
-            this->data_ = dataAllocator_.allocate(expression.size());
-        }
+        reserveForAssignment(expression.size(), expression.dimension());
 
         // copy geometry
-        this->geometry_.resize(expression.dimension());
         for(size_t j=0; j<expression.dimension(); ++j) {
             this->geometry_.shape(j) = expression.shape(j);
         }
@@ -3812,6 +3824,35 @@ Marray<T, A>::operator=
     return *this;
 }
 
+/// Provide memory for the given number of entries and dimensions.
+///
+/// Nothing is changed if an allocation fails.
+///
+template<class T, class A>
+inline void
+Marray<T, A>::reserveForAssignment
+(
+    const size_t newSize,
+    const size_t newDimension
+)
+{
+    if(this->size() != newSize) {
+        typename base::pointer newData = dataAllocator_.allocate(newSize);
+        try {
+            this->geometry_.resize(newDimension);
+        }
+        catch(...) {
+            dataAllocator_.deallocate(newData, newSize);
+            throw;
+        }
+        dataAllocator_.deallocate(this->data_, this->size());
+        this->data_ = newData;
+    }
+    else {
+        this->geometry_.resize(newDimension);
+    }
+}
+
 template<class T, class A>
 template<bool SKIP_INITIALIZATION, class ShapeIterator>
 inline void
@@ -3834,6 +3875,8 @@ Marray<T, A>::resizeHelper
     }
     // allocate new
     value_type* newData = dataAllocator_.allocate(newSize);
+    const size_t oldSize = this->size();
+    try {
     if(!SKIP_INITIALIZATION) {
         for(size_t j=0; j<newSize; ++j) {
             newData[j] = value;
@@ -3864,11 +3907,16 @@ Marray<T, A>::resizeHelper
             view2.squeeze();
             view2 = view1; // copy
         }
-        dataAllocator_.deallocate(this->data_, this->size());
-        this->data_ = 0;
     }
-    base::assign(begin, end, newData, this->geometry_.coordinateOrder(),
+    this->geometry_ = geometry_type(begin, end, this->geometry_.coordinateOrder(),
         this->geometry_.coordinateOrder());
+    }
+    catch(...) {
+        dataAllocator_.deallocate(newData, newSize);
+        throw;
+    }
+    dataAllocator_.deallocate(this->data_, oldSize);
+    this->data_ = newData;
     testInvariant();
 }
 
@@ -5908,9 +5956,10 @@ Geometry<A>::operator=
 {
     if(&g != this) { // no self-assignment
         if(g.dimension_ != dimension_) {
+            size_t* newShape = allocator_.allocate(g.dimension_*3);
             allocator_.deallocate(shape_, dimension_*3);
             dimension_ = g.dimension_;
-            shape_ = allocator_.allocate(dimension_*3);
+            shape_ = newShape;
             shapeStrides_ = shape_+dimension_;
             strides_ = shapeStrides_+dimension_;
             dimension_ = g.dimension_;
-- 
2.43.0


From e1d705fec4778f65378caeab2b53e73ac79a6ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:02 +0000
Subject: [PATCH 21/80] fix: DynamicProgramming frees its buffers when
 construction fails

---
 include/opengm/inference/dynamicprogramming.hxx | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/include/opengm/inference/dynamicprogramming.hxx b/include/opengm/inference/dynamicprogramming.hxx
index 4f0002e..4bcd749 100644
--- a/include/opengm/inference/dynamicprogramming.hxx
+++ b/include/opengm/inference/dynamicprogramming.hxx
@@ -65,8 +65,8 @@ namespace opengm {
   private:
     const GraphicalModelType& gm_;
     Parameter para_;
-    MyValueType* valueBuffer_;
-    MyStateType* stateBuffer_;
+    std::vector<MyValueType> valueBuffer_;
+    std::vector<MyStateType> stateBuffer_;
     std::vector<MyValueType*> valueBuffers_;
     std::vector<MyStateType*> stateBuffers_;
     std::vector<size_t> nodeOrder_; 
@@ -89,8 +89,6 @@ namespace opengm {
   template<class GM, class ACC>
   DynamicProgramming<GM, ACC>::~DynamicProgramming()
   {
-    free(valueBuffer_);
-    free(stateBuffer_);
   }
   
   template<class GM, class ACC>
@@ -154,13 +152,14 @@ namespace opengm {
       memSizeValue += gm_.numberOfLabels(i);
       memSizeState += gm.numberOfLabels(i) * numChildren[i];
     }
-    valueBuffer_ = (MyValueType*) malloc(memSizeValue*sizeof(MyValueType));
-    stateBuffer_ = (MyStateType*) malloc(memSizeState*sizeof(MyStateType));
+    // one more entry such that the address of the first one can be taken
+    valueBuffer_.resize(memSizeValue + 1);
+    stateBuffer_.resize(memSizeState + 1);
     valueBuffers_.resize(gm_.numberOfVariables());
     stateBuffers_.resize(gm_.numberOfVariables()); 
     
-    MyValueType* valuePointer =  valueBuffer_;
-    MyStateType* statePointer =  stateBuffer_;
+    MyValueType* valuePointer = &valueBuffer_[0];
+    MyStateType* statePointer = &stateBuffer_[0];
     for(size_t i=0; i<gm_.numberOfVariables();++i){
       valueBuffers_[i] = valuePointer;
       valuePointer += gm.numberOfLabels(i);
-- 
2.43.0


From 03403d2e3b27bf440a82e8e9a29f81a654e29b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:02 +0000
Subject: [PATCH 22/80] fix: GraphCut frees the min st-cut when construction
 fails

---
 include/opengm/inference/graphcut.hxx | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/include/opengm/inference/graphcut.hxx b/include/opengm/inference/graphcut.hxx
index 314babd..7179c9d 100644
--- a/include/opengm/inference/graphcut.hxx
+++ b/include/opengm/inference/graphcut.hxx
@@ -109,8 +109,14 @@ inline GraphCut<GM, ACC, MINSTCUT>::GraphCut
    numFacDim_ = numFacDim;
    numFacDim_.resize(4);
    minStCut_ = new MinStCutType(2 + numVariables_ + numFacDim_[3], 2*numVariables_ + numFacDim_[2] + 3*numFacDim_[3]);
-   sEdges_.assign(numVariables_ + numFacDim_[3], 0);
-   tEdges_.assign(numVariables_ + numFacDim_[3], 0);
+   try {
+      sEdges_.assign(numVariables_ + numFacDim_[3], 0);
+      tEdges_.assign(numVariables_ + numFacDim_[3], 0);
+   }
+   catch(...) {
+      delete minStCut_;
+      throw;
+   }
    inferenceDone_=false;
    //std::cout << parameter_.scale_ <<std::endl;
 }
@@ -147,11 +153,17 @@ inline GraphCut<GM, ACC, MINSTCUT>::GraphCut
    }
 
    minStCut_ = new MinStCutType(2 + numVariables_ + numFacDim_[3], 2*numVariables_ + numFacDim_[2] + 3*numFacDim_[3]);
-   sEdges_.assign(numVariables_ + numFacDim_[3], 0);
-   tEdges_.assign(numVariables_ + numFacDim_[3], 0);
+   try {
+      sEdges_.assign(numVariables_ + numFacDim_[3], 0);
+      tEdges_.assign(numVariables_ + numFacDim_[3], 0);
 
-   for(size_t j = 0; j < gm.numberOfFactors(); ++j) {
-      addFactor(gm[j]);
+      for(size_t j = 0; j < gm.numberOfFactors(); ++j) {
+         addFactor(gm[j]);
+      }
+   }
+   catch(...) {
+      delete minStCut_;
+      throw;
    }
    inferenceDone_=false;
    //std::cout << parameter_.scale_ <<std::endl;
-- 
2.43.0


From 63472530e85b00a70084cb2cd237659d1d06f185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:02 +0000
Subject: [PATCH 23/80] fix: AStar does not replace the exceptions of user
 functions

---
 include/opengm/inference/astar.hxx | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/include/opengm/inference/astar.hxx b/include/opengm/inference/astar.hxx
index bf1c31c..dd50d65 100644
--- a/include/opengm/inference/astar.hxx
+++ b/include/opengm/inference/astar.hxx
@@ -486,12 +486,7 @@ namespace opengm {
          bpPara.maximumNumberOfSteps_ = mgm.numberOfVariables();
          OPENGM_ASSERT(mgm.isAcyclic());
          MessagePassing<MGM, ACC, UpdateRules, opengm::MaxDistance> bp(mgm,bpPara);  
-         try{
-            bp.infer();//Asynchronous();
-         }
-         catch(...) {
-            throw RuntimeError("bp failed in astar");
-         }
+         bp.infer();//Asynchronous();
          ACC::op(bp.value(),aboveBound_,aboveBound_);
          std::vector<LabelType> conf(mgm.numberOfVariables()); 
  
-- 
2.43.0


From 675dc541fd7eb25cf8ec7b38c2ad37381b38e897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:02 +0000
Subject: [PATCH 24/80] fix: TRWS frees its sub-models and sub-solvers when
 construction fails

---
 include/opengm/inference/trws/trws_base.hxx    |  6 ++----
 .../inference/trws/trws_reparametrization.hxx  |  3 +--
 include/opengm/inference/trws/utilities2.hxx   | 18 ++++++++++++++++++
 3 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/include/opengm/inference/trws/trws_base.hxx b/include/opengm/inference/trws/trws_base.hxx
index facdcba..c4dfc66 100644
--- a/include/opengm/inference/trws/trws_base.hxx
+++ b/include/opengm/inference/trws/trws_base.hxx
@@ -76,7 +76,7 @@ private:
 	//void _addDDvector(const DDVectorType& ddvector);
 	const GM& _gm;
 	StructureType  _structureType;
-	std::vector<SubModel*> _subModels;
+	OwnedPointers<SubModel> _subModels;
 	std::vector<SubVariableListType> _variableDecomposition;
 	VariableToFactorMap _var2FactorMap;
 };
@@ -314,7 +314,7 @@ protected:
 	ValueType _lastDualUpdate;
 
 	typename SubModel::MoveDirection _moveDirection;
-	std::vector<SubSolver*> _subSolvers;
+	OwnedPointers<SubSolver> _subSolvers;
 
 	std::vector<std::vector<ValueType> > _marginals;//!<computation optimization
 
@@ -568,7 +568,6 @@ _sumMarginal()
 template <class SubSolver>
 TRWSPrototype<SubSolver>::~TRWSPrototype()
 {
-	for_each(_subSolvers.begin(),_subSolvers.end(),DeallocatePointer<SubSolver>);
 };
 
 template <class SubSolver>
@@ -938,7 +937,6 @@ _var2FactorMap(gm)
 template<class GM>
 DecompositionStorage<GM>::~DecompositionStorage()
 {
-	for_each(_subModels.begin(),_subModels.end(),DeallocatePointer<SubModel>);
 }
 
 template<class GM>
diff --git a/include/opengm/inference/trws/trws_reparametrization.hxx b/include/opengm/inference/trws/trws_reparametrization.hxx
index 4305d6b..f287319 100644
--- a/include/opengm/inference/trws/trws_reparametrization.hxx
+++ b/include/opengm/inference/trws/trws_reparametrization.hxx
@@ -301,13 +301,12 @@ public:
 
 private:
 	Storage& _storage;
-	std::vector<SubSolverType*> _subSolvers;
+	trws_base::OwnedPointers<SubSolverType> _subSolvers;
 };
 
 template<class Storage,class ACC>
 TRWS_Reparametrizer<Storage,ACC>::~TRWS_Reparametrizer()
 {
-	std::for_each(_subSolvers.begin(),_subSolvers.end(),trws_base::DeallocatePointer<SubSolverType>);
 }
 
 template<class Storage,class ACC>
diff --git a/include/opengm/inference/trws/utilities2.hxx b/include/opengm/inference/trws/utilities2.hxx
index 763cfde..35dd3c3 100644
--- a/include/opengm/inference/trws/utilities2.hxx
+++ b/include/opengm/inference/trws/utilities2.hxx
@@ -8,6 +8,8 @@
 #ifndef UTILITIES2_HXX_
 #define UTILITIES2_HXX_
 #include <functional>
+#include <algorithm>
+#include <vector>
 #include <numeric>
 #include <string>
 #include <stdexcept>
@@ -248,6 +250,22 @@ template <class T> struct maximum : std::binary_function <T,T,T> {
 	if (p!=0) delete p;
  }
 
+ // A vector of pointers to objects it owns. The objects are also destroyed
+ // if the constructor of the class that has this vector as a member fails.
+ template<class Object>
+ class OwnedPointers : public std::vector<Object*>
+ {
+ public:
+	OwnedPointers(){}
+	~OwnedPointers()
+	{
+		std::for_each(this->begin(),this->end(),DeallocatePointer<Object>);
+	}
+ private:
+	OwnedPointers(const OwnedPointers&);
+	OwnedPointers& operator=(const OwnedPointers&);
+ };
+
 
 };
 }
-- 
2.43.0


From 37858c20f0edef5bde8800182799f76f7deee72b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:02 +0000
Subject: [PATCH 25/80] fix: fusion moves free the sub-model when they end with
 an exception

---
 .../auxiliary/fusion_move/fusion_mover.hxx    | 22 ++++++++++++++++++-
 include/opengm/inference/fusion_based_inf.hxx |  3 ++-
 2 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/include/opengm/inference/auxiliary/fusion_move/fusion_mover.hxx b/include/opengm/inference/auxiliary/fusion_move/fusion_mover.hxx
index 0d0f10d..7b4a956 100644
--- a/include/opengm/inference/auxiliary/fusion_move/fusion_mover.hxx
+++ b/include/opengm/inference/auxiliary/fusion_move/fusion_mover.hxx
@@ -191,6 +191,14 @@ struct NativeModelProxy
 
     typedef typename MODEL_TYPE::SpaceType SpaceType;
 
+    NativeModelProxy()
+        : model_(NULL)
+    {
+    }
+    ~NativeModelProxy()
+    {
+        freeModel();
+    }
 
     void createModel(const UInt64Type nVar)
     {
@@ -199,6 +207,7 @@ struct NativeModelProxy
     void freeModel()
     {
         delete model_;
+        model_ = NULL;
     }
 
     template<class F, class ITER>
@@ -216,6 +225,7 @@ struct QpboModelProxy
 {
 
     QpboModelProxy()
+        : model_(NULL)
     {
         c00_[0] = 0;
         c00_[1] = 0;
@@ -229,6 +239,10 @@ struct QpboModelProxy
         c10_[0] = 1;
         c10_[1] = 0;
     }
+    ~QpboModelProxy()
+    {
+        freeModel();
+    }
 
     void createModel(const UInt64Type nVar)
     {
@@ -238,6 +252,7 @@ struct QpboModelProxy
     void freeModel()
     {
         delete model_;
+        model_ = NULL;
     }
 
     template<class F, class ITER>
@@ -273,8 +288,12 @@ struct Ad3ModelProxy
 {
 
     Ad3ModelProxy(const typename  MODEL_TYPE::Parameter param)
-        : param_(param)
+        : model_(NULL), param_(param)
+    {
+    }
+    ~Ad3ModelProxy()
     {
+        freeModel();
     }
 
     void createModel(const UInt64Type nVar)
@@ -284,6 +303,7 @@ struct Ad3ModelProxy
     void freeModel()
     {
         delete model_;
+        model_ = NULL;
     }
 
     template<class F, class ITER>
diff --git a/include/opengm/inference/fusion_based_inf.hxx b/include/opengm/inference/fusion_based_inf.hxx
index 3ef0c3a..1d7ee27 100644
--- a/include/opengm/inference/fusion_based_inf.hxx
+++ b/include/opengm/inference/fusion_based_inf.hxx
@@ -1036,7 +1036,6 @@ FusionBasedInf<GM, PROPOSAL_GEN>::FusionBasedInf
        maxOrder_(gm.factorOrder())
 {
     ACC::neutral(bestValue_);   
-    fusionMover_ = new FusionMoverType(gm_,parameter.fusionParam_);
     //set default starting point
     std::vector<LabelType> conf(gm_.numberOfVariables(),0);
     for (size_t i=0; i<gm_.numberOfVariables(); ++i){
@@ -1055,6 +1054,8 @@ FusionBasedInf<GM, PROPOSAL_GEN>::FusionBasedInf
         } 
     }
     setStartingPoint(conf.begin());
+    // last, because the destructor does not run if anything above throws
+    fusionMover_ = new FusionMoverType(gm_,parameter.fusionParam_);
 }
 template<class GM, class PROPOSAL_GEN>
 FusionBasedInf<GM, PROPOSAL_GEN>::~FusionBasedInf()
-- 
2.43.0


From d627ce902fb0c2b52fce513ef94c58d52c61db1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:39 +0000
Subject: [PATCH 26/80] fix: LazyFlipper can be run again after reset() and
 setStartingPoint()

---
 include/opengm/inference/lazyflipper.hxx | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/include/opengm/inference/lazyflipper.hxx b/include/opengm/inference/lazyflipper.hxx
index 53689ab..3b5045f 100644
--- a/include/opengm/inference/lazyflipper.hxx
+++ b/include/opengm/inference/lazyflipper.hxx
@@ -216,6 +216,7 @@ private:
    Movemaker<GraphicalModelType> movemaker_;
    Tagging<bool> activation_[2];
    SubgraphForest subgraphForest_;
+   std::vector<LabelType> startingPoint_; // of the parameter, used by reset()
    size_t maxSubgraphSize_;
    Tribool useMultilabelInference_;
 };
@@ -648,6 +649,7 @@ LazyFlipper<GM, ACC>::LazyFlipper(
    variableAdjacency_(Adjacency(gm.numberOfVariables())),
    movemaker_(Movemaker<GM>(gm)),
    subgraphForest_(SubgraphForest()),
+   startingPoint_(param.startingPoint_),
    maxSubgraphSize_(param.maxSubgraphSize_),
    useMultilabelInference_(param.inferMultilabel_)
 {
@@ -667,15 +669,23 @@ LazyFlipper<GM, ACC>::LazyFlipper(
          }
       }
    }
-   if(param.startingPoint_.size() == gm_.numberOfVariables()) {
-      movemaker_.initialize(param.startingPoint_.begin());
+   if(startingPoint_.size() == gm_.numberOfVariables()) {
+      movemaker_.initialize(startingPoint_.begin());
    }
 }
 
+/// \brief go back to the starting point given as a parameter
 template<class GM, class ACC>
 inline void
 LazyFlipper<GM, ACC>::reset()
-{}
+{
+   if(startingPoint_.size() == gm_.numberOfVariables()) {
+      movemaker_.initialize(startingPoint_.begin());
+   }
+   else {
+      movemaker_.reset();
+   }
+}
 
 ///// \todo next version: get rid of redundancy with other constructor
 //template<class GM, class ACC>
@@ -763,6 +773,10 @@ LazyFlipper<GM, ACC>::infer(
    VisitorType& visitor
 )
 {
+   // forget the subgraphs visited by a previous run
+   subgraphForest_ = SubgraphForest();
+   deactivateAllVariables(0);
+   deactivateAllVariables(1);
    bool multiLabel;
    if(this->useMultilabelInference_ == true) {
       multiLabel = true;
-- 
2.43.0


From 816c3e4b5f8d7ca3c3d9252439e86c5f1959bb99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:39 +0000
Subject: [PATCH 27/80] fix: AlphaExpansion::reset() with locally optimal
 initial labels

---
 include/opengm/inference/alphaexpansion.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/inference/alphaexpansion.hxx b/include/opengm/inference/alphaexpansion.hxx
index c5fb238..1c4099b 100644
--- a/include/opengm/inference/alphaexpansion.hxx
+++ b/include/opengm/inference/alphaexpansion.hxx
@@ -466,7 +466,7 @@ AlphaExpansion<GM, INF>::setInitialLabel
 template<class GM, class INF>
 inline void
 AlphaExpansion<GM, INF>::setInitialLabelLocalOptimal() {
-   label_.resize(gm_.numberOfVariables(), 0);
+   label_.assign(gm_.numberOfVariables(), 0);
    std::vector<size_t> accVec;
    for(size_t i=0; i<gm_.numberOfFactors();++i) {
       if(gm_[i].numberOfVariables()==1) {
-- 
2.43.0


From ca9695457958a6eb6f413235b0a6846c43677a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:39 +0000
Subject: [PATCH 28/80] fix: AStar keeps the bound of the best solution when it
 searches further ones

---
 include/opengm/inference/astar.hxx | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/opengm/inference/astar.hxx b/include/opengm/inference/astar.hxx
index dd50d65..b54c019 100644
--- a/include/opengm/inference/astar.hxx
+++ b/include/opengm/inference/astar.hxx
@@ -325,13 +325,17 @@ namespace opengm {
          }
          while(array_.front().conf.size() < numNodes_ && exitFlag==0) {
             expand(visitor);
-            belowBound_ = array_.front().value;
+            if(optConf_.empty()) { // afterwards, the heap bounds only the next best solution
+               belowBound_ = array_.front().value;
+            }
             exitFlag = visitor(*this); 
             //visitor(*this, array_.front().conf, array_.size(), array_.front().value, globalBound_, time);
          }
          if(array_.front().conf.size()>=numNodes_){
             ValueType  value = array_.front().value;
-            belowBound_ = value;
+            if(optConf_.empty()) {
+               belowBound_ = value;
+            }
             std::vector<LabelType> conf(numNodes_);
             for(size_t n=0; n<numNodes_; ++n) {
                conf[parameter_.nodeOrder_[n]] = array_.front().conf[n];
-- 
2.43.0


From de96f0640938dac0429d8b26c4047fa6dbfc0cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:39 +0000
Subject: [PATCH 29/80] fix: ADSal and Nesterov report the best dual bound
 found so far

---
 include/opengm/inference/trws/smoothing_strategy.hxx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/opengm/inference/trws/smoothing_strategy.hxx b/include/opengm/inference/trws/smoothing_strategy.hxx
index 4ce5e8d..7d0aa43 100644
--- a/include/opengm/inference/trws/smoothing_strategy.hxx
+++ b/include/opengm/inference/trws/smoothing_strategy.hxx
@@ -769,10 +769,10 @@ void SmoothingBasedInference<GM,ACC>::_SelectOptimalBoundsAndLabeling()
 	_fout << "_bestPrimalBound=" <<_bestPrimalBound<<std::endl;
 #endif
 
-	//Best dual bound...
-	if (ACC::ibop(_sumprodsolver.bound(),_maxsumsolver.bound()))
+	//Best dual bound so far...
+	if (ACC::ibop(_sumprodsolver.bound(),_bestDualBound))
 		 _bestDualBound=_sumprodsolver.bound();
-	else
+	if (ACC::ibop(_maxsumsolver.bound(),_bestDualBound))
 		 _bestDualBound=_maxsumsolver.bound();
 
 }
-- 
2.43.0


From 58d3577ac4919cb513acb99e9a630b34b94f1bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:23 +0000
Subject: [PATCH 30/80] fix: MessagePassing::reset() forgets the old messages

---
 .../inference/messagepassing/messagepassing_buffer.hxx       | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/opengm/inference/messagepassing/messagepassing_buffer.hxx b/include/opengm/inference/messagepassing/messagepassing_buffer.hxx
index 2bfeb7c..d354290 100644
--- a/include/opengm/inference/messagepassing/messagepassing_buffer.hxx
+++ b/include/opengm/inference/messagepassing/messagepassing_buffer.hxx
@@ -110,8 +110,9 @@ namespace opengm {
          buffer2_ = constant;
       }
       else {
-         buffer1_.resize(&shape, &shape+1, constant);
-         buffer2_.resize(&shape, &shape+1, constant);
+         // (resize would keep the entries of an earlier assignment)
+         buffer1_ = ARRAY(&shape, &shape+1, constant);
+         buffer2_ = ARRAY(&shape, &shape+1, constant);
       }
       flag_ = false;
    }
-- 
2.43.0


From 49f4a37040abc3f1ec5f6cdce6126fea8518e0d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:46 +0000
Subject: [PATCH 31/80] fix: message passing no longer stops after the first
 iteration because the variables' messages are still neutral

---
 include/opengm/inference/messagepassing/messagepassing.hxx | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/opengm/inference/messagepassing/messagepassing.hxx b/include/opengm/inference/messagepassing/messagepassing.hxx
index 56a854b..6f12caf 100644
--- a/include/opengm/inference/messagepassing/messagepassing.hxx
+++ b/include/opengm/inference/messagepassing/messagepassing.hxx
@@ -613,7 +613,11 @@ MessagePassing<GM, ACC, UPDATE_RULES, DIST>::convergenceFX() const {
 template<class GM, class ACC, class UPDATE_RULES, class DIST>
 inline typename MessagePassing<GM, ACC, UPDATE_RULES, DIST>::ValueType
 MessagePassing<GM, ACC, UPDATE_RULES, DIST>::convergence() const {
-   return convergenceXF();
+   // the factors' messages change in the first iteration although the
+   // messages of the variables may still be neutral
+   const ValueType xf = convergenceXF();
+   const ValueType fx = convergenceFX();
+   return xf > fx ? xf : fx;
 }
 
 template<class GM, class ACC,class UPDATE_RULES, class DIST >
-- 
2.43.0


From ae225054caa49b1e903e669740577392ae184796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:16 +0000
Subject: [PATCH 32/80] fix: Gibbs never recorded a best state without a
 starting point

---
 include/opengm/inference/gibbs.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/opengm/inference/gibbs.hxx b/include/opengm/inference/gibbs.hxx
index 959df70..bc1ad6a 100644
--- a/include/opengm/inference/gibbs.hxx
+++ b/include/opengm/inference/gibbs.hxx
@@ -189,10 +189,9 @@ Gibbs<GM, ACC>::Gibbs
    gm_(gm), 
    movemaker_(gm), 
    currentBestState_(gm.numberOfVariables()),
-   currentBestValue_()
+   currentBestValue_(movemaker_.value())
 {
    inInference_=false;
-   ACC::ineutral(currentBestValue_);
    if(parameter.startPoint_.size() != 0) {
       if(parameter.startPoint_.size() == gm.numberOfVariables()) {
          movemaker_.initialize(parameter.startPoint_.begin());
@@ -221,6 +220,7 @@ Gibbs<GM, ACC>::reset() {
    else {
      movemaker_.reset();
      std::fill(currentBestState_.begin(), currentBestState_.end(), 0);
+     currentBestValue_ = movemaker_.value();
    }
 }
 
-- 
2.43.0


From 173bfe29190d7411a2e86f33be72b20ea3f0c6e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:16 +0000
Subject: [PATCH 33/80] fix: Gibbs with cyclic proposals only ever sampled one
 variable

---
 include/opengm/inference/gibbs.hxx | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/opengm/inference/gibbs.hxx b/include/opengm/inference/gibbs.hxx
index bc1ad6a..47e37aa 100644
--- a/include/opengm/inference/gibbs.hxx
+++ b/include/opengm/inference/gibbs.hxx
@@ -275,11 +275,11 @@ InferenceTermination Gibbs<GM, ACC>::infer(
    visitor.begin(*this);
    opengm::RandomUniform<size_t> randomVariable(0, gm_.numberOfVariables());
    opengm::RandomUniform<ProbabilityType> randomProb(0, 1);
+   size_t variableIndex = 0; // kept between the steps (CYCLIC)
    
    if(parameter_.useTemp_==false){
       for(size_t iteration = 0; iteration < parameter_.maxNumberOfSamplingSteps_ + parameter_.numberOfBurnInSteps_; ++iteration) {
          // select variable
-         size_t variableIndex = 0;
          if(this->parameter_.variableProposal_ == Parameter::RANDOM) {
             variableIndex = randomVariable();
          }
@@ -329,7 +329,6 @@ InferenceTermination Gibbs<GM, ACC>::infer(
    else {
       for(size_t iteration = 0; iteration < parameter_.maxNumberOfSamplingSteps_ + parameter_.numberOfBurnInSteps_; ++iteration) {
          // select variable
-         size_t variableIndex = 0;
          if(this->parameter_.variableProposal_ == Parameter::RANDOM) {
             variableIndex = randomVariable();
          }
-- 
2.43.0


From 19637fa8a2acbbce4eb35b69f4c260a6f79203f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:16 +0000
Subject: [PATCH 34/80] fix: Gibbs counted proposals of a new label as two
 steps

---
 include/opengm/inference/gibbs.hxx | 2 --
 1 file changed, 2 deletions(-)

diff --git a/include/opengm/inference/gibbs.hxx b/include/opengm/inference/gibbs.hxx
index 47e37aa..aafcfe9 100644
--- a/include/opengm/inference/gibbs.hxx
+++ b/include/opengm/inference/gibbs.hxx
@@ -322,7 +322,6 @@ InferenceTermination Gibbs<GM, ACC>::infer(
                  // visitor(*this, newValue, currentBestValue_, iteration, false, burningIn);
                }
             }
-            ++iteration;
          }
       }
    }
@@ -373,7 +372,6 @@ InferenceTermination Gibbs<GM, ACC>::infer(
                   //visitor(*this, newValue, currentBestValue_, iteration, false, burningIn);
                }
             }
-            ++iteration;
          }
       }
    }
-- 
2.43.0


From fa77b55b6837578def3d5c8830de3f4c0c339bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:34 +0000
Subject: [PATCH 35/80] fix: Gibbs ignored stop requests of the visitor

---
 include/opengm/inference/gibbs.hxx | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/opengm/inference/gibbs.hxx b/include/opengm/inference/gibbs.hxx
index aafcfe9..84865a7 100644
--- a/include/opengm/inference/gibbs.hxx
+++ b/include/opengm/inference/gibbs.hxx
@@ -304,7 +304,6 @@ InferenceTermination Gibbs<GM, ACC>::infer(
                      currentBestState_[k] = movemaker_.state(k);
                   }
                }
-               visitor(*this);
                //visitor(*this, newValue, currentBestValue_, iteration, true, burningIn);
             }
             else {
@@ -314,14 +313,15 @@ InferenceTermination Gibbs<GM, ACC>::infer(
                   >::convert(newValue, oldValue);
                if(randomProb() < pFlip) {
                   movemaker_.move(&variableIndex, &variableIndex + 1, &label); 
-                  visitor(*this);
                   //visitor(*this, newValue, currentBestValue_, iteration, true, burningIn);
                }
                else {
-                  visitor(*this);
                  // visitor(*this, newValue, currentBestValue_, iteration, false, burningIn);
                }
             }
+            if(visitor(*this) != visitors::VisitorReturnFlag::ContinueInf) {
+               break;
+            }
          }
       }
    }
@@ -352,7 +352,6 @@ InferenceTermination Gibbs<GM, ACC>::infer(
                      currentBestState_[k] = movemaker_.state(k);
                   }
                }
-               visitor(*this);
                //visitor(*this, newValue, currentBestValue_, iteration, true, burningIn);
             }
             else {
@@ -363,15 +362,16 @@ InferenceTermination Gibbs<GM, ACC>::infer(
                if(randomProb() < pFlip*this->getTemperature(iteration)){
                   //std::cout<<"temp="<<this->getTemperature(iteration)<<"\n";
                   movemaker_.move(&variableIndex, &variableIndex + 1, &label); 
-                  visitor(*this);
                   //visitor(*this, newValue, currentBestValue_, iteration, true, burningIn);
                }
                else {
                   //std::cout<<"temp="<<this->getTemperature(iteration)<<"\n";
-                  visitor(*this);
                   //visitor(*this, newValue, currentBestValue_, iteration, false, burningIn);
                }
             }
+            if(visitor(*this) != visitors::VisitorReturnFlag::ContinueInf) {
+               break;
+            }
          }
       }
    }
-- 
2.43.0


From 936db403f20a9c510df581904436a002966f97f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:42 +0000
Subject: [PATCH 36/80] fix: Movemaker stays consistent when a factor throws

---
 include/opengm/inference/movemaker.hxx | 56 ++++++++++++--------------
 1 file changed, 26 insertions(+), 30 deletions(-)

diff --git a/include/opengm/inference/movemaker.hxx b/include/opengm/inference/movemaker.hxx
index 497be85..5209f63 100644
--- a/include/opengm/inference/movemaker.hxx
+++ b/include/opengm/inference/movemaker.hxx
@@ -77,6 +77,27 @@ private:
    template<class FactorIndexIterator>
       ValueType evaluateFactors(FactorIndexIterator, FactorIndexIterator, const std::vector<LabelType>&) const;
 
+   /// \cond HIDDEN_SYMBOLS
+   // restores the invariant stateBuffer_ == state_, also if a factor throws
+   template<class IndexIterator>
+   class BufferRestorer {
+   public:
+      BufferRestorer(std::vector<LabelType>& stateBuffer, const std::vector<LabelType>& state, IndexIterator begin, IndexIterator end)
+      :  stateBuffer_(stateBuffer), state_(state), begin_(begin), end_(end)
+      {}
+      ~BufferRestorer() {
+         for (IndexIterator it = begin_; it != end_; ++it) {
+            stateBuffer_[*it] = state_[*it];
+         }
+      }
+   private:
+      std::vector<LabelType>& stateBuffer_;
+      const std::vector<LabelType>& state_;
+      IndexIterator begin_;
+      IndexIterator end_;
+   };
+   /// \endcond
+
    const GraphicalModelType& gm_;
    std::vector<std::set<size_t> > factorsOfVariable_;
    std::vector<LabelType> state_;
@@ -272,11 +293,8 @@ void Movemaker<GM>::initialize
 template<class GM>
 void
 Movemaker<GM>::reset() {
-   for (size_t j = 0; j < gm_.numberOfVariables(); ++j) {
-      state_[j] = 0;
-      stateBuffer_[j] = 0;
-   }
-   energy_ = gm_.evaluate(state_.begin());
+   const std::vector<LabelType> zeros(gm_.numberOfVariables());
+   initialize(zeros.begin());
 }
 
 template<class GM>
@@ -294,6 +312,7 @@ Movemaker<GM>::valueAfterMove
    IndexIterator end,
    StateIterator destinationState
 ) { 
+   const BufferRestorer<IndexIterator> restorer(stateBuffer_, state_, begin, end);
    ValueType destinationValue;
    if(meta::Compare<OperatorType, opengm::Multiplier>::value){
       //Partial update for multiplication is not numrical stabel! That why recalculate the objective 
@@ -304,10 +323,6 @@ Movemaker<GM>::valueAfterMove
       }
       // evaluate destination state
       destinationValue = gm_.evaluate(stateBuffer_); 
-      // restore stateBuffer_
-      for (IndexIterator it = begin; it != end; ++it) {
-         stateBuffer_[*it] = state_[*it];
-      }
    }else{
       // do partial update 
 
@@ -341,10 +356,6 @@ Movemaker<GM>::valueAfterMove
          OperatorType::op(destinationValue, gm_[*it](destinationFactorState.begin()), destinationValue);
          OperatorType::iop(destinationValue, gm_[*it](currentFactorState.begin()), destinationValue);
       }
-      // restore stateBuffer_
-      for (IndexIterator it = begin; it != end; ++it) {
-         stateBuffer_[*it] = state_[*it];
-      }
    }
    return destinationValue;
 }
@@ -399,6 +410,7 @@ Movemaker<GM>::moveOptimally
       state_);
    ValueType bestEnergy = initialEnergy;
    std::vector<size_t> bestState(numberOfVariables);
+   const BufferRestorer<IndexIterator> restorer(stateBuffer_, state_, variableIndices, variableIndicesEnd);
    for (size_t j=0; j<numberOfVariables; ++j) {
       const size_t vi = variableIndices[j];
       stateBuffer_[vi] = 0;
@@ -453,12 +465,6 @@ overflow:
          OperatorType::iop(initialEnergy, energy_); // energy_ -= initialEnergy
          OperatorType::op(bestEnergy, energy_); // energy_ += bestEnergy
       }
-   } else {
-      // restore stateBuffer_
-      for (size_t j = 0; j < numberOfVariables; ++j) {
-         const size_t vi = variableIndices[j];
-         stateBuffer_[vi] = state_[vi];
-      }
    }
 
    return energy_;
@@ -492,14 +498,10 @@ Movemaker<GM>::moveOptimallyWithAllLabelsChanging
       state_);
    ValueType bestEnergy = initialEnergy;
    std::vector<size_t> bestState(numberOfVariables);
+   const BufferRestorer<IndexIterator> restorer(stateBuffer_, state_, variableIndices, variableIndicesEnd);
    // set initial labeling
    for(size_t j=0; j<numberOfVariables; ++j) {
       if(gm_.space().numberOfLabels(variableIndices[j]) == 1) {
-         // restore stateBuffer_
-         for(size_t k=0; k<j; ++k) {
-            const size_t vi = variableIndices[k];
-            stateBuffer_[vi] = state_[vi];
-         }
          return energy_;
       }
       else {
@@ -590,12 +592,6 @@ overflow2:
          OperatorType::iop(initialEnergy, energy_); // energy_ -= initialEnergy
          OperatorType::op(bestEnergy, energy_); // energy_ += bestEnergy
       }
-   } else {
-      // restore stateBuffer_
-      for (size_t j = 0; j < numberOfVariables; ++j) {
-         const size_t vi = variableIndices[j];
-         stateBuffer_[vi] = state_[vi];
-      }
    }
 
    return energy_;
-- 
2.43.0


From 30c23517f858df58aecd95c80007274ed70db379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:50 +0000
Subject: [PATCH 37/80] fix: optimal moves of no variables never returned

---
 include/opengm/inference/movemaker.hxx | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/opengm/inference/movemaker.hxx b/include/opengm/inference/movemaker.hxx
index 5209f63..0f23b93 100644
--- a/include/opengm/inference/movemaker.hxx
+++ b/include/opengm/inference/movemaker.hxx
@@ -404,6 +404,9 @@ Movemaker<GM>::moveOptimally
 
    // find an optimal move and the corresponding energy of factors to recompute
    size_t numberOfVariables = std::distance(variableIndices, variableIndicesEnd);
+   if(numberOfVariables == 0) {
+      return energy_; // nothing to move
+   }
    ValueType initialEnergy = evaluateFactors(
       factorsToRecompute.begin(),
       factorsToRecompute.end(),
@@ -492,6 +495,9 @@ Movemaker<GM>::moveOptimallyWithAllLabelsChanging
 
    // find an optimal move and the corresponding energy of factors to recompute
    size_t numberOfVariables = std::distance(variableIndices, variableIndicesEnd);
+   if(numberOfVariables == 0) {
+      return energy_; // nothing to move
+   }
    ValueType initialEnergy = evaluateFactors(
       factorsToRecompute.begin(),
       factorsToRecompute.end(),
-- 
2.43.0


From 5fb53474e137793c986141365d53c055dbcd139e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:57 +0000
Subject: [PATCH 38/80] fix: optimal moves that throw while leaving a zero
 product kept the new state with the old value

---
 include/opengm/inference/movemaker.hxx | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/include/opengm/inference/movemaker.hxx b/include/opengm/inference/movemaker.hxx
index 0f23b93..c0629f3 100644
--- a/include/opengm/inference/movemaker.hxx
+++ b/include/opengm/inference/movemaker.hxx
@@ -450,10 +450,9 @@ overflow:
    ;
 
    if (ACCUMULATOR::bop(bestEnergy, initialEnergy)) {
-      // update state_ and stateBuffer_
+      // update stateBuffer_
       for (size_t j = 0; j < numberOfVariables; ++j) {
          const size_t vi = variableIndices[j];
-         state_[vi] = bestState[j];
          stateBuffer_[vi] = bestState[j];
       }
       // update energy
@@ -462,12 +461,16 @@ overflow:
       meta::Compare<OperatorType, opengm::Multiplier>::value
       >::value && energy_ == static_cast<ValueType> (0)) {
          OPENGM_ASSERT(state_.size() == gm_.numberOfVariables());
-         energy_ = gm_.evaluate(state_.begin());
+         energy_ = gm_.evaluate(stateBuffer_.begin());
       }
       else {
          OperatorType::iop(initialEnergy, energy_); // energy_ -= initialEnergy
          OperatorType::op(bestEnergy, energy_); // energy_ += bestEnergy
       }
+      // update state_
+      for (size_t j = 0; j < numberOfVariables; ++j) {
+         state_[variableIndices[j]] = bestState[j];
+      }
    }
 
    return energy_;
@@ -581,10 +584,9 @@ overflow2:
    ;
 
    if (ACCUMULATOR::bop(bestEnergy, initialEnergy)) {
-      // update state_ and stateBuffer_
+      // update stateBuffer_
       for (size_t j = 0; j < numberOfVariables; ++j) {
          const size_t vi = variableIndices[j];
-         state_[vi] = bestState[j];
          stateBuffer_[vi] = bestState[j];
       }
       // update energy
@@ -592,12 +594,16 @@ overflow2:
       meta::Compare<ACCUMULATOR, opengm::Maximizer>::value,
       meta::Compare<OperatorType, opengm::Multiplier>::value
       >::value && energy_ == static_cast<ValueType> (0)) {
-         energy_ = gm_.evaluate(state_.begin());
+         energy_ = gm_.evaluate(stateBuffer_.begin());
       }
       else {
          OperatorType::iop(initialEnergy, energy_); // energy_ -= initialEnergy
          OperatorType::op(bestEnergy, energy_); // energy_ += bestEnergy
       }
+      // update state_
+      for (size_t j = 0; j < numberOfVariables; ++j) {
+         state_[variableIndices[j]] = bestState[j];
+      }
    }
 
    return energy_;
-- 
2.43.0


From e3623ef7cd835fc1c2f2638c395b4397cc6bce3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:15 +0000
Subject: [PATCH 39/80] fix: uniform floating point generators could return
 numbers above their interval due to rounding

---
 include/opengm/utilities/random.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/utilities/random.hxx b/include/opengm/utilities/random.hxx
index 9480823..ec2da69 100644
--- a/include/opengm/utilities/random.hxx
+++ b/include/opengm/utilities/random.hxx
@@ -110,7 +110,7 @@ public:
       // however, not all std random number generators behave like this
       // thus this trivial work-around:
       T randomNumber = this->high_;
-      while(randomNumber == this->high_) {
+      while(!(randomNumber < this->high_)) {
          randomNumber = (static_cast<T>(rand()) / static_cast<T>(RAND_MAX)) * (this->high_ - this->low_) + this->low_;
       }
       return randomNumber;
-- 
2.43.0


From 99953cf6fda929d4f9d6bb29bc98f34cebe1fd72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:15 +0000
Subject: [PATCH 40/80] fix: RandomDiscreteWeighted could return an index of
 weight zero

---
 include/opengm/utilities/random.hxx | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/opengm/utilities/random.hxx b/include/opengm/utilities/random.hxx
index ec2da69..0f36a3d 100644
--- a/include/opengm/utilities/random.hxx
+++ b/include/opengm/utilities/random.hxx
@@ -218,7 +218,13 @@ public:
             return static_cast<T>(i+1);
          }
       }
-      return static_cast<T>(probSum_.size() - 1);
+      // rnd is not below the sum of the (rounded) probabilities:
+      // return the last index with non-zero weight
+      size_t last = probSum_.size() - 1;
+      while(last > 0 && probSum_[last] == probSum_[last - 1]) {
+         --last;
+      }
+      return static_cast<T>(last);
    }
 
 private:
-- 
2.43.0


From 697addd902da4fb5ee68c73d869b26792f645598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:50 +0000
Subject: [PATCH 41/80] fix: RandomAccessSet::insert with a hint did not
 compile

---
 include/opengm/datastructures/randomaccessset.hxx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/opengm/datastructures/randomaccessset.hxx b/include/opengm/datastructures/randomaccessset.hxx
index 7fd5b4f..7d6a802 100644
--- a/include/opengm/datastructures/randomaccessset.hxx
+++ b/include/opengm/datastructures/randomaccessset.hxx
@@ -363,9 +363,9 @@ RandomAccessSet<Key,Compare,Alloc>::insert
    const typename RandomAccessSet<Key,Compare,Alloc>::value_type& value
 )
 {
-   if((position == begin() || this->operator()(*(position-1),value))
-   && (position == end() || this->operator()(value, *position))) {
-       return vector_.insert(position, value);
+   if((position == begin() || compare_(*(position-1),value))
+   && (position == end() || compare_(value, *position))) {
+       return vector_.insert(vector_.begin() + (position - begin()), value);
    }
    return insert(value).first;
 }
-- 
2.43.0


From f009b0be36dc929cf239ab14ee10da6675660a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:04 +0000
Subject: [PATCH 42/80] fix: BufferVector crashed or leaked after copying,
 assigning or growing empty or cleared vectors

---
 .../opengm/datastructures/buffer_vector.hxx   | 110 ++++++++++--------
 1 file changed, 59 insertions(+), 51 deletions(-)

diff --git a/include/opengm/datastructures/buffer_vector.hxx b/include/opengm/datastructures/buffer_vector.hxx
index b997815..d18c8ef 100644
--- a/include/opengm/datastructures/buffer_vector.hxx
+++ b/include/opengm/datastructures/buffer_vector.hxx
@@ -53,6 +53,8 @@ namespace opengm{
          template<class ITERATOR>
          void assign(ITERATOR ,ITERATOR);
       private:
+         void allocateAndCopy(const T *,const size_t,const size_t);
+
          size_t size_;
          size_t capacity_;
          T * data_;
@@ -73,7 +75,8 @@ namespace opengm{
       const size_t size
    )
    :  size_(size),
-      capacity_(size) {
+      capacity_(size),
+      data_(NULL) {
       if(size_!=0) {
       data_ = new T[size];
       }
@@ -89,9 +92,18 @@ namespace opengm{
       const T & value
    )
    :  size_(size),
-      capacity_(size) {
-      data_ = new T[size];
-      std::fill(data_,data_+size_,value);
+      capacity_(size),
+      data_(NULL) {
+      if(size_!=0) {
+         data_ = new T[size];
+         try {
+            std::fill(data_,data_+size_,value);
+         }
+         catch(...) {
+            delete[] data_;
+            throw;
+         }
+      }
    }
    
    
@@ -102,15 +114,39 @@ namespace opengm{
    (
       const  BufferVector<T> & other
    )
-   :  size_(other.size_),
-      capacity_(other.size_)
+   :  size_(0),
+      capacity_(0),
+      data_(NULL)
    {
-      if(size_!=0) {
-         data_ = new T[size_];
-         std::copy(other.data_,other.data_+size_,data_);
+      if(other.size_!=0) {
+         allocateAndCopy(other.data_,other.size_,other.size_);
+         size_=other.size_;
       }
    }
    
+   // move to a buffer of the given capacity, initialized with a copy of n elements;
+   // nothing changes if this fails
+   template<class T>
+   inline void
+   BufferVector<T>::allocateAndCopy
+   (
+      const T * elements,
+      const size_t n,
+      const size_t capacity
+   ) {
+      T * tmp=new T[capacity];
+      try {
+         std::copy(elements,elements+n,tmp);
+      }
+      catch(...) {
+         delete[] tmp;
+         throw;
+      }
+      delete[] data_;
+      data_=tmp;
+      capacity_=capacity;
+   }
+
    /// get pointer to the data
    template<class T>
    inline T const * 
@@ -142,13 +178,13 @@ namespace opengm{
    )
    {
       if(&other!=this) {
-         size_=other.size_;
-         if(size_>capacity_) {
-            delete [] data_;
-            data_ = new T[size_];
-            capacity_=size_;
+         if(other.size_>capacity_) {
+            allocateAndCopy(other.data_,other.size_,other.size_);
          }
-         std::copy(other.data_,other.data_+size_,data_);
+         else if(other.size_!=0) {
+            std::copy(other.data_,other.data_+other.size_,data_);
+         }
+         size_=other.size_;
       }
       return *this;
    }
@@ -228,20 +264,13 @@ namespace opengm{
    ) {
       OPENGM_ASSERT(size_<=capacity_);
       if(capacity_==size_) {
-         if(size_!=0) {
-            T * tmp=new T[capacity_*2];
-            std::copy(data_,data_+size_,tmp);
-            delete[] data_;
-            capacity_*=2;
-            data_=tmp;
-         }
-         else{
-            T * tmp=new T[2];
-            capacity_=2;
-            data_=tmp;
-         }
+         const T copy(value); // value might be an element of this vector
+         allocateAndCopy(data_,size_,size_!=0 ? capacity_*2 : 2);
+         data_[size_]=copy;
+      }
+      else{
+         data_[size_]=value;
       }
-      data_[size_]=value;
       ++size_;
       OPENGM_ASSERT(size_<=capacity_);
    }
@@ -256,17 +285,7 @@ namespace opengm{
    ) {
       OPENGM_ASSERT(size_<=capacity_);
       if(size>capacity_) {
-         if(size_!=0) {
-            T * tmp=new T[size];
-            std::copy(data_,data_+size_,tmp);
-            delete[] data_;
-            capacity_=size;
-            data_=tmp;
-         }
-         else{
-            data_=new T[size];
-            capacity_=size;
-         }
+         allocateAndCopy(data_,size_,size);
       }
       size_=size;
       OPENGM_ASSERT(size_<=capacity_);
@@ -282,19 +301,8 @@ namespace opengm{
    ) {
       OPENGM_ASSERT(size_<=capacity_);
       if(size>capacity_) {
-         if(size_!=0) {
-            T * tmp=new T[size];
-            std::copy(data_,data_+size_,tmp);
-            delete[] data_;
-            data_=tmp;
-         }
-         else{
-            data_=new T[size];
-         }
-         size_=size;
-         capacity_=size;
+         allocateAndCopy(data_,size_,size);
       }
-      //size_=size;
       OPENGM_ASSERT(size_<=capacity_);
    }
    
-- 
2.43.0


From 512d895495b1c4447b59213e3b152450d952b1a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:04 +0000
Subject: [PATCH 43/80] fix: FastSequence crashed, leaked or lost elements when
 copied or assigned after growing or shrinking

---
 .../opengm/datastructures/fast_sequence.hxx   | 113 ++++++++++--------
 1 file changed, 64 insertions(+), 49 deletions(-)

diff --git a/include/opengm/datastructures/fast_sequence.hxx b/include/opengm/datastructures/fast_sequence.hxx
index d5ada69..121ad31 100644
--- a/include/opengm/datastructures/fast_sequence.hxx
+++ b/include/opengm/datastructures/fast_sequence.hxx
@@ -53,6 +53,9 @@ public:
    T& back();
 
 private:
+   bool isOnHeap() const;
+   void allocateAndCopy(const T*, const size_t, const size_t);
+
    size_t size_;
    size_t capacity_;
    T stackSequence_[MAX_STACK];
@@ -106,7 +109,15 @@ FastSequence<T, MAX_STACK>::FastSequence
    else{
       pointerToSequence_=stackSequence_;
    }
-   std::fill(pointerToSequence_, pointerToSequence_+size_, value);
+   try {
+      std::fill(pointerToSequence_, pointerToSequence_+size_, value);
+   }
+   catch(...) {
+      if(isOnHeap()) {
+         delete[] pointerToSequence_;
+      }
+      throw;
+   }
 }
 
 /// copy constructor
@@ -116,18 +127,51 @@ FastSequence<T, MAX_STACK>::FastSequence
 (
    const  FastSequence<T, MAX_STACK> & other
 )
-:  size_(other.size_),
-   capacity_(other.capacity_)
+:  size_(0),
+   capacity_(MAX_STACK),
+   pointerToSequence_(stackSequence_)
 {
+   if(other.size_>MAX_STACK) {
+      allocateAndCopy(other.pointerToSequence_, other.size_, other.size_);
+   }
+   else{
+      std::copy(other.pointerToSequence_, other.pointerToSequence_+other.size_, pointerToSequence_);
+   }
+   size_=other.size_;
    OPENGM_ASSERT(size_<=capacity_);
    OPENGM_ASSERT(capacity_>=MAX_STACK);
-   if(size_>MAX_STACK) {
-      pointerToSequence_ = new T[size_];
+}
+
+// elements are on the heap if and only if they might not fit on the stack
+template<class T, size_t MAX_STACK>
+inline bool
+FastSequence<T, MAX_STACK>::isOnHeap() const {
+   return capacity_>MAX_STACK;
+}
+
+// move to a heap buffer of the given capacity (>MAX_STACK), initialized with a
+// copy of n elements; nothing changes if this fails
+template<class T, size_t MAX_STACK>
+inline void
+FastSequence<T, MAX_STACK>::allocateAndCopy
+(
+   const T * elements,
+   const size_t n,
+   const size_t capacity
+) {
+   T * tmp=new T[capacity];
+   try {
+      std::copy(elements, elements+n, tmp);
    }
-   else{
-      pointerToSequence_=stackSequence_;
+   catch(...) {
+      delete[] tmp;
+      throw;
+   }
+   if(isOnHeap()) {
+      delete[] pointerToSequence_;
    }
-   std::copy(other.pointerToSequence_, other.pointerToSequence_+size_, pointerToSequence_);
+   pointerToSequence_=tmp;
+   capacity_=capacity;
 }
 
 /// destructor
@@ -148,28 +192,13 @@ FastSequence<T, MAX_STACK> & FastSequence<T, MAX_STACK>::operator=
 )
 {
    if(&other != this) {
-      // size_=other.size_;
-      // capacity_=other.capacity_;
-      // OPENGM_ASSERT(size_<=capacity_);
-      // OPENGM_ASSERT(capacity_>=MAX_STACK);
-      if(other.size_>MAX_STACK) {
-         // delete old sequence
-         if(size_>MAX_STACK) {
-            delete [] pointerToSequence_;
-            pointerToSequence_ = new T[other.size_];
-         }
-         // nothing to delete
-         else{
-            pointerToSequence_ = new T[other.size_];
-         }
-         size_=other.size_;
-         capacity_=size_;
+      if(other.size_>capacity_) {
+         allocateAndCopy(other.pointerToSequence_, other.size_, other.size_);
       }
       else{
-         pointerToSequence_=stackSequence_;
-         size_=other.size_;
+         std::copy(other.pointerToSequence_, other.pointerToSequence_+other.size_, pointerToSequence_);
       }
-      std::copy(other.pointerToSequence_, other.pointerToSequence_+size_, pointerToSequence_);
+      size_=other.size_;
    }
    return *this;
 }
@@ -248,15 +277,13 @@ FastSequence<T, MAX_STACK>::push_back
    OPENGM_ASSERT(capacity_ >= MAX_STACK);
    OPENGM_ASSERT(size_ <= capacity_);
    if(capacity_ == size_) {
-      T * tmp=new T[capacity_ * 2];
-      std::copy(pointerToSequence_, pointerToSequence_ + size_, tmp);
-      if(capacity_ > MAX_STACK) {
-         delete[] pointerToSequence_;
-      }
-      capacity_ *= 2;
-      pointerToSequence_ = tmp;
+      const T copy(value); // value might be an element of this sequence
+      allocateAndCopy(pointerToSequence_, size_, capacity_ * 2);
+      pointerToSequence_[size_]=copy;
+   }
+   else{
+      pointerToSequence_[size_]=value;
    }
-   pointerToSequence_[size_]=value;
    ++size_;
    OPENGM_ASSERT(size_<=capacity_);
    OPENGM_ASSERT(capacity_>=MAX_STACK);
@@ -273,13 +300,7 @@ FastSequence<T, MAX_STACK>::resize
    OPENGM_ASSERT(capacity_>=MAX_STACK);
    OPENGM_ASSERT(size_<=capacity_);
    if(size>capacity_) {
-      T * tmp=new T[size];
-      std::copy(pointerToSequence_, pointerToSequence_+size_, tmp);
-      if(capacity_>MAX_STACK) {
-         delete[] pointerToSequence_;
-      }
-      capacity_=size;
-      pointerToSequence_=tmp;
+      allocateAndCopy(pointerToSequence_, size_, size);
    }
    size_=size;
    OPENGM_ASSERT(size_<=capacity_);
@@ -297,13 +318,7 @@ FastSequence<T, MAX_STACK>::reserve
    OPENGM_ASSERT(capacity_>=MAX_STACK);
    OPENGM_ASSERT(size_<=capacity_);
    if(size>capacity_) {
-      T * tmp=new T[size];
-      std::copy(pointerToSequence_, pointerToSequence_+size_, tmp);
-      if(capacity_>MAX_STACK) {
-         delete[] pointerToSequence_;
-      }
-      capacity_=size;
-      pointerToSequence_=tmp;
+      allocateAndCopy(pointerToSequence_, size_, size);
    }
    // size_ = size;
    OPENGM_ASSERT(size_<=capacity_);
-- 
2.43.0


From a7a038a471c9df92aa8ea9e28f10bf585503d09d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:04 +0000
Subject: [PATCH 44/80] fix: Partition::reset left a broken partition behind
 when an allocation failed

---
 include/opengm/datastructures/partition.hxx | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/opengm/datastructures/partition.hxx b/include/opengm/datastructures/partition.hxx
index f751eab..ee9cc93 100644
--- a/include/opengm/datastructures/partition.hxx
+++ b/include/opengm/datastructures/partition.hxx
@@ -78,10 +78,13 @@ Partition<T>::reset
    const value_type& size
 )
 {
-   numberOfElements_ = size;
-   numberOfSets_ = size;
+   // a reservation that fails changes nothing
+   ranks_.reserve(static_cast<size_t>(size));
+   parents_.reserve(static_cast<size_t>(size));
    ranks_.resize(static_cast<size_t>(size));
    parents_.resize(static_cast<size_t>(size));
+   numberOfElements_ = size;
+   numberOfSets_ = size;
    for(T j=0; j<size; ++j) {
       ranks_[static_cast<size_t>(j)] = 0;
       parents_[static_cast<size_t>(j)] = j;
-- 
2.43.0


From 61c64b765d552efeb17d9e5b64bb9a2a3b29e548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:04 +0000
Subject: [PATCH 45/80] fix: disjoint_set leaked its elements and shared them
 between copies

---
 include/opengm/utilities/disjoint-set.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/opengm/utilities/disjoint-set.hxx b/include/opengm/utilities/disjoint-set.hxx
index 84998e7..678d331 100644
--- a/include/opengm/utilities/disjoint-set.hxx
+++ b/include/opengm/utilities/disjoint-set.hxx
@@ -30,7 +30,7 @@ namespace opengm{
     
   private:
     
-    elem *elements_;
+    std::vector<elem> elements_;
     T numberOfElements_;
     T numberOfSets_;
     
@@ -46,7 +46,7 @@ namespace opengm{
   template<class T>
   disjoint_set<T>::disjoint_set(T numberOfElements){
     
-    elements_ = new elem[numberOfElements];
+    elements_.resize(numberOfElements);
     numberOfElements_ = numberOfElements;
     numberOfSets_ = numberOfElements;
     for(T i=0;i < numberOfElements;++i){
-- 
2.43.0


From e8402f7da107cf63a05b862fb4cd0e84db8e5223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:59 +0000
Subject: [PATCH 46/80] fix: GraphicalModel::maxNumberOfLabels did not compile
 if the index and label types differ

---
 include/opengm/graphicalmodel/graphicalmodel.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/graphicalmodel/graphicalmodel.hxx b/include/opengm/graphicalmodel/graphicalmodel.hxx
index 4bd5cd6..29c4106 100755
--- a/include/opengm/graphicalmodel/graphicalmodel.hxx
+++ b/include/opengm/graphicalmodel/graphicalmodel.hxx
@@ -159,7 +159,7 @@ public:
    LabelType maxNumberOfLabels()const{
         LabelType mx=0;
         for(size_t i=0; i<numberOfVariables(); ++i)
-            mx = std::max(numberOfLabels(i), mx);
+            mx = std::max(static_cast<LabelType>(numberOfLabels(i)), mx);
         return mx;
    }
 
-- 
2.43.0


From 246bce5a8dddaf76c0ba0708304307af35d1b7c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:59 +0000
Subject: [PATCH 47/80] fix: assigning a model with another list of function
 types did not compile and kept old functions

---
 include/opengm/graphicalmodel/graphicalmodel.hxx | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/opengm/graphicalmodel/graphicalmodel.hxx b/include/opengm/graphicalmodel/graphicalmodel.hxx
index 29c4106..dfb0bb5 100755
--- a/include/opengm/graphicalmodel/graphicalmodel.hxx
+++ b/include/opengm/graphicalmodel/graphicalmodel.hxx
@@ -194,6 +194,10 @@ template<size_t>
    friend struct detail_graphical_model::FunctionWrapper;
 template<size_t, size_t , bool>
    friend struct detail_graphical_model::FunctionWrapperExecutor;
+template<bool>
+   friend struct detail_graphical_model::MaybeCopyFunctionVector;
+template<size_t, size_t>
+   friend struct detail_graphical_model::CopyFunctions;
 template<typename GM>
    friend void opengm::hdf5::save(const GM&, const std::string&, const std::string&);
 template<typename GM>
@@ -809,9 +813,8 @@ GraphicalModel<T, OPERATOR, FUNCTION_TYPE_LIST, SPACE>::operator=
     typedef GraphicalModel<T, OPERATOR, OTHER_TL, SPACE> OtherGm;
     this->space_ = gm.space_;
 
-    //this->functionDataField_=gm.functionDataField_;
-
-    
+    // function types that gm does not have must not keep their old functions
+    this->functionDataField_ = meta::Field<FunctionTypeList, detail_graphical_model::FunctionDataUnit>();
 
     std::vector<int> srcFidToTarget(OtherGm::NrOfFunctionTypes,-1);
     detail_graphical_model::CopyFunctions<0, OtherGm::NrOfFunctionTypes >::op(gm, *this,srcFidToTarget);
-- 
2.43.0


From 1b21cf642e8625499efac36aa54b06642554e19b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:39 +0000
Subject: [PATCH 48/80] fix: a rejected or failed addFactor left a broken
 factor in the model

---
 .../opengm/graphicalmodel/graphicalmodel.hxx  | 114 +++++++++---------
 1 file changed, 55 insertions(+), 59 deletions(-)

diff --git a/include/opengm/graphicalmodel/graphicalmodel.hxx b/include/opengm/graphicalmodel/graphicalmodel.hxx
index dfb0bb5..eba7827 100755
--- a/include/opengm/graphicalmodel/graphicalmodel.hxx
+++ b/include/opengm/graphicalmodel/graphicalmodel.hxx
@@ -10,6 +10,7 @@
 
 #include "opengm/opengm.hxx"
 #include "opengm/functions/explicit_function.hxx"
+#include "opengm/datastructures/fast_sequence.hxx"
 #include "opengm/datastructures/randomaccessset.hxx"
 #include "opengm/graphicalmodel/graphicalmodel_function_wrapper.hxx"
 #include "opengm/graphicalmodel/graphicalmodel_explicit_storage.hxx"
@@ -182,6 +183,9 @@ protected:
       std::vector<typename meta::TypeAtTypeList<FunctionTypeList, FUNCTION_INDEX>::type>& functions();
 
 private:
+   template<class ITERATOR>
+      IndexType appendFactor(const FunctionIdentifier&, ITERATOR, ITERATOR, const bool);
+
    SpaceType space_;
    meta::Field<FunctionTypeList, detail_graphical_model::FunctionDataUnit> functionDataField_;
    std::vector<RandomAccessSet<IndexType> > variableFactorAdjaceny_;
@@ -654,6 +658,55 @@ GraphicalModel<T, OPERATOR, FUNCTION_TYPE_LIST, SPACE>::getFunction
 
 
    
+// Appends a factor. If an argument is rejected or an allocation fails, the model remains unchanged.
+// The sequence of variable indices may be part of the model itself.
+template<class T, class OPERATOR, class FUNCTION_TYPE_LIST, class SPACE>
+template<class ITERATOR>
+inline typename GraphicalModel<T, OPERATOR, FUNCTION_TYPE_LIST, SPACE>::IndexType
+GraphicalModel<T, OPERATOR, FUNCTION_TYPE_LIST, SPACE>::appendFactor
+(
+   const FunctionIdentifier& functionIdentifier, 
+   ITERATOR begin, 
+   ITERATOR end,
+   const bool updateAdjacency
+) 
+{
+   FastSequence<IndexType> vis;
+   for(; begin != end; ++begin) {
+      const IndexType vi = *begin;
+      if(vis.size() != 0) {
+         OPENGM_CHECK_OP(vis.back(),<,vi,
+            "variable indices of a factor must be sorted");
+      }
+      OPENGM_CHECK_OP(vi,<,this->numberOfVariables(),
+         "variable indices of a factor must smaller than gm.numberOfVariables()");
+      vis.push_back(vi);
+   }
+   const IndexType factorOrder = vis.size();
+   const IndexType indexInVisVector = factorsVis_.size();
+   const IndexType factorIndex = this->factors_.size();
+   IndexType numberOfInsertions = 0;
+   try {
+      factorsVis_.insert(factorsVis_.end(), vis.begin(), vis.end());
+      if(updateAdjacency) {
+         for(; numberOfInsertions < factorOrder; ++numberOfInsertions) {
+            this->variableFactorAdjaceny_[vis[numberOfInsertions]].insert(factorIndex);
+         }
+      }
+      this->factors_.push_back(FactorType(this, functionIdentifier.functionIndex, functionIdentifier.functionType , factorOrder, indexInVisVector));
+   }
+   catch(...) {
+      while(numberOfInsertions != 0) {
+         --numberOfInsertions;
+         this->variableFactorAdjaceny_[vis[numberOfInsertions]].erase(factorIndex);
+      }
+      factorsVis_.resize(indexInVisVector);
+      throw;
+   }
+   order_ = std::max(order_,factorOrder);
+   return factorIndex;
+}
+
 /// \brief add a factor to the graphical model
 /// \param functionIdentifier identifier of the underlying function, cf. addFunction
 /// \param begin iterator to the beginning of a sequence of variable indices
@@ -669,34 +722,7 @@ GraphicalModel<T, OPERATOR, FUNCTION_TYPE_LIST, SPACE>::addFactor
    ITERATOR end
 ) 
 {
-  
-   const IndexType indexInVisVector = factorsVis_.size();
-   IndexType factorOrder = 0;
-   while(begin!=end){
-      factorsVis_.push_back(*begin);
-      ++begin;
-      ++factorOrder;
-   }
-   order_ = std::max(order_,factorOrder);
-
-   // create factor
-   //FactorType factor();
-   const IndexType factorIndex = this->factors_.size();
-   this->factors_.push_back(FactorType(this, functionIdentifier.functionIndex, functionIdentifier.functionType , factorOrder, indexInVisVector));
-   for(size_t i=0;i<factors_.back().numberOfVariables();++i) {
-      const FactorType factor =factors_.back();
-      if(i!=0){
-         OPENGM_CHECK_OP(factor.variableIndex(i-1),<,factor.variableIndex(i),
-            "variable indices of a factor must be sorted");
-      }
-      OPENGM_CHECK_OP(factor.variableIndex(i),<,this->numberOfVariables(),
-         "variable indices of a factor must smaller than gm.numberOfVariables()");
-      this->variableFactorAdjaceny_[factor.variableIndex(i)].insert(factorIndex);
-      //++begin;
-   }
-   //this->addFactorToAdjacency(functionIdentifier.functionIndex, factorIndex, functionIdentifier.functionType);
-   //this->factors_[factorIndex].testInvariant();
-   return factorIndex;
+   return this->appendFactor(functionIdentifier, begin, end, true);
 }
    
 
@@ -720,37 +746,7 @@ GraphicalModel<T, OPERATOR, FUNCTION_TYPE_LIST, SPACE>::addFactorNonFinalized
    ITERATOR end
 ) 
 {
-
-
-   const IndexType indexInVisVector = factorsVis_.size();
-   IndexType factorOrder = 0;
-   while(begin!=end){
-      factorsVis_.push_back(*begin);
-      ++begin;
-      ++factorOrder;
-   }
-   order_ = std::max(order_,factorOrder);
-
-
-   // create factor
-   //FactorType factor();
-   const IndexType factorIndex = this->factors_.size();
-   this->factors_.push_back(FactorType(this, functionIdentifier.functionIndex, functionIdentifier.functionType , factorOrder, indexInVisVector));
-
-   for(size_t i=0;i<factors_.back().numberOfVariables();++i) {
-      const FactorType factor =factors_.back();
-      if(i!=0){
-         OPENGM_CHECK_OP(factor.variableIndex(i-1),<,factor.variableIndex(i),
-            "variable indices of a factor must be sorted");
-      }
-      OPENGM_CHECK_OP(factor.variableIndex(i),<,this->numberOfVariables(),
-         "variable indices of a factor must smaller than gm.numberOfVariables()");
-      //this->variableFactorAdjaceny_[factor.variableIndex(i)].insert(factorIndex);
-      //++begin;
-   }
-   //this->addFactorToAdjacency(functionIdentifier.functionIndex, factorIndex, functionIdentifier.functionType);
-   //this->factors_[factorIndex].testInvariant();
-   return factorIndex;
+   return this->appendFactor(functionIdentifier, begin, end, false);
 }
    
 
-- 
2.43.0


From fe79faf8c02b1ac9ba27de5926c04e5d089da653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:39 +0000
Subject: [PATCH 49/80] fix: a failed addVariable left a variable without list
 of factors

---
 include/opengm/graphicalmodel/graphicalmodel.hxx | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/opengm/graphicalmodel/graphicalmodel.hxx b/include/opengm/graphicalmodel/graphicalmodel.hxx
index eba7827..590024c 100755
--- a/include/opengm/graphicalmodel/graphicalmodel.hxx
+++ b/include/opengm/graphicalmodel/graphicalmodel.hxx
@@ -387,8 +387,14 @@ GraphicalModel<T, OPERATOR, FUNCTION_TYPE_LIST, SPACE>::addVariable
    const LabelType nLabels
 ) 
 {
-   space_.addVariable(nLabels);
    variableFactorAdjaceny_.push_back(RandomAccessSet<IndexType>());
+   try {
+      space_.addVariable(nLabels);
+   }
+   catch(...) {
+      variableFactorAdjaceny_.pop_back();
+      throw;
+   }
    return space_.numberOfVariables() - 1;    
 }
 
-- 
2.43.0


From a07510a34ea95be85a29b5bedd6816e6583938e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:39 +0000
Subject: [PATCH 50/80] fix: the order of function identifiers was not an order

---
 include/opengm/graphicalmodel/graphicalmodel.hxx | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/opengm/graphicalmodel/graphicalmodel.hxx b/include/opengm/graphicalmodel/graphicalmodel.hxx
index 590024c..dc08496 100755
--- a/include/opengm/graphicalmodel/graphicalmodel.hxx
+++ b/include/opengm/graphicalmodel/graphicalmodel.hxx
@@ -886,8 +886,8 @@ FunctionIdentification<FUNCTION_INDEX_TYPE, FUNCTION_TYPE_INDEX_TYPE>::operator
    const FunctionIdentification<FUNCTION_INDEX_TYPE, FUNCTION_TYPE_INDEX_TYPE> & rhs
 ) const 
 {
-   if(functionType < rhs.functionType)
-       return true;
+   if(functionType != rhs.functionType)
+       return functionType < rhs.functionType;
    else 
        return functionIndex < rhs.functionIndex;
 }
@@ -899,8 +899,8 @@ FunctionIdentification<FUNCTION_INDEX_TYPE, FUNCTION_TYPE_INDEX_TYPE>::operator
    const FunctionIdentification<FUNCTION_INDEX_TYPE, FUNCTION_TYPE_INDEX_TYPE> & rhs
 ) const 
 {
-   if(functionType >rhs.functionType)
-       return true;
+   if(functionType != rhs.functionType)
+       return functionType > rhs.functionType;
    else 
        return functionIndex > rhs.functionIndex;
 }
@@ -912,8 +912,8 @@ FunctionIdentification<FUNCTION_INDEX_TYPE, FUNCTION_TYPE_INDEX_TYPE>::operator
    const FunctionIdentification<FUNCTION_INDEX_TYPE, FUNCTION_TYPE_INDEX_TYPE> & rhs
 ) const 
 {
-   if(functionType <= rhs.functionType)
-       return true;
+   if(functionType != rhs.functionType)
+       return functionType <= rhs.functionType;
    else 
        return functionIndex <= rhs.functionIndex;
 }
@@ -925,8 +925,8 @@ FunctionIdentification<FUNCTION_INDEX_TYPE, FUNCTION_TYPE_INDEX_TYPE>::operator
    const FunctionIdentification<FUNCTION_INDEX_TYPE, FUNCTION_TYPE_INDEX_TYPE> & rhs
 ) const 
 {
-   if(functionType >=rhs.functionType)
-       return true;
+   if(functionType != rhs.functionType)
+       return functionType >= rhs.functionType;
    else 
        return functionIndex >= rhs.functionIndex;
 }
-- 
2.43.0


From 168ed30ffd8d7de6423ff4e689cf6b7b6cceff75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:39 +0000
Subject: [PATCH 51/80] fix: extrema of a Potts function of two variables with
 a single label

---
 include/opengm/functions/potts.hxx | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/opengm/functions/potts.hxx b/include/opengm/functions/potts.hxx
index c182463..47082b1 100644
--- a/include/opengm/functions/potts.hxx
+++ b/include/opengm/functions/potts.hxx
@@ -254,14 +254,14 @@ template<class T, class I, class L>
 inline typename PottsFunction<T, I, L>::ValueType
 PottsFunction<T, I, L>::min() const
 {
-   return valueEqual_<valueNotEqual_ ? valueEqual_ :valueNotEqual_;
+   return size() == 1 || valueEqual_<valueNotEqual_ ? valueEqual_ :valueNotEqual_;
 }
 
 template<class T, class I, class L>
 inline typename PottsFunction<T, I, L>::ValueType
 PottsFunction<T, I, L>::max() const
 {
-   return valueNotEqual_>valueEqual_ ? valueNotEqual_ :valueEqual_;
+   return size() != 1 && valueNotEqual_>valueEqual_ ? valueNotEqual_ :valueEqual_;
 }
 
 template<class T, class I, class L>
@@ -292,7 +292,10 @@ template<class T, class I, class L>
 inline MinMaxFunctor<typename PottsFunction<T, I, L>::ValueType>
 PottsFunction<T, I, L>::minMax() const
 {
-   if(valueEqual_<valueNotEqual_) {
+   if(size() == 1) {
+      return MinMaxFunctor<T>(valueEqual_, valueEqual_);
+   }
+   else if(valueEqual_<valueNotEqual_) {
       return MinMaxFunctor<T>(valueEqual_, valueNotEqual_);
    }
    else {
-- 
2.43.0


From 860351ff525cff07157e6a291502742693e656f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:00 +0000
Subject: [PATCH 52/80] fix: factorAdjacencyList used positions within a factor
 as variable indices

---
 include/opengm/graphicalmodel/graphviews/factorgraph.hxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/opengm/graphicalmodel/graphviews/factorgraph.hxx b/include/opengm/graphicalmodel/graphviews/factorgraph.hxx
index 5ffdac3..261bf96 100644
--- a/include/opengm/graphicalmodel/graphviews/factorgraph.hxx
+++ b/include/opengm/graphicalmodel/graphviews/factorgraph.hxx
@@ -926,7 +926,8 @@ FactorGraph<S,I>::templatedFactorAdjacencyList
    out.clear();
    out.resize(numberOfFactors());
    for(size_t f=0; f<numberOfFactors(); ++f) {
-      for(size_t v=0 ;v<numberOfVariables(f); ++v) {
+      for(size_t j=0 ;j<numberOfVariables(f); ++j) {
+         const size_t v=variableOfFactor(f,j);
          for(size_t ff=0;ff<numberOfFactors(v);++ff) {
             const size_t fOfVar=factorOfVariable(v,ff);
             if(f!=fOfVar) {
-- 
2.43.0


From a788a5fec0e5c4ab9a92fde9d43cf2fcc126fc5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:30 +0000
Subject: [PATCH 53/80] fix: isGrid accepted graphs that are no grids and
 rejected grids with another numbering

---
 .../graphicalmodel/graphviews/factorgraph.hxx | 40 +++++++++++++++++--
 1 file changed, 36 insertions(+), 4 deletions(-)

diff --git a/include/opengm/graphicalmodel/graphviews/factorgraph.hxx b/include/opengm/graphicalmodel/graphviews/factorgraph.hxx
index 261bf96..dde2903 100644
--- a/include/opengm/graphicalmodel/graphviews/factorgraph.hxx
+++ b/include/opengm/graphicalmodel/graphviews/factorgraph.hxx
@@ -604,7 +604,7 @@ FactorGraph<S,I>::isGrid(marray::Matrix<size_t>& gridIDs) const {
    // find diagonal corner
    size_t diagonalCorner = 1;
    for(size_t i = 1; i < 4; i++) {
-      if(shortestPaths[i - 1].size() > shortestPaths[diagonalCorner].size()) {
+      if(shortestPaths[i - 1].size() > shortestPaths[diagonalCorner - 1].size()) {
          diagonalCorner = i;
       }
    }
@@ -689,10 +689,9 @@ FactorGraph<S,I>::isGrid(marray::Matrix<size_t>& gridIDs) const {
       for(size_t j = 1; j < dimension[1] - 1; j++) {
          std::vector<size_t> oneHopVariables;
          if(twoHopConnected(gridIDs(i - 1, j), gridIDs(i, j - 1), oneHopVariables)) {
-            if(oneHopVariables.size() < 2) {
+            if(oneHopVariables.size() != 2) {
                return false;
             }
-            OPENGM_ASSERT(oneHopVariables.size() == 2);
             if(oneHopVariables[0] != gridIDs(i - 1, j - 1)) {
                gridIDs(i, j) = oneHopVariables[0];
             } else {
@@ -704,7 +703,40 @@ FactorGraph<S,I>::isGrid(marray::Matrix<size_t>& gridIDs) const {
       }
    }
 
-   return true;
+   // check that the storage describes the graph: each variable occurs exactly
+   // once, adjacent entries are connected and there are no other connections
+   if(dimension[0] * dimension[1] != numberOfVariables()) {
+      return false;
+   }
+   std::vector<bool> found(numberOfVariables(), false);
+   size_t numberOfConnections = 0;
+   for(size_t i = 0; i < dimension[0]; i++) {
+      for(size_t j = 0; j < dimension[1]; j++) {
+         if(found[gridIDs(i, j)]) {
+            return false;
+         }
+         found[gridIDs(i, j)] = true;
+         if(i > 0) {
+            if(!variableVariableConnection(gridIDs(i - 1, j), gridIDs(i, j))) {
+               return false;
+            }
+            numberOfConnections++;
+         }
+         if(j > 0) {
+            if(!variableVariableConnection(gridIDs(i, j - 1), gridIDs(i, j))) {
+               return false;
+            }
+            numberOfConnections++;
+         }
+      }
+   }
+   size_t numberOfSecondOrderFactors = 0;
+   for(size_t i = 0; i < numberOfFactors(); i++) {
+      if(numberOfVariables(i) == 2) {
+         numberOfSecondOrderFactors++;
+      }
+   }
+   return numberOfSecondOrderFactors == numberOfConnections;
 }
 
 /// \brief return maximum factor order
-- 
2.43.0


From 389d35e6cbdf759eca221c0044e215af10bac259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:34 +0000
Subject: [PATCH 54/80] fix: building a modified model without locking it
 before read beyond the end of the factor flags

---
 include/opengm/graphicalmodel/graphicalmodel_manipulator.hxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/opengm/graphicalmodel/graphicalmodel_manipulator.hxx b/include/opengm/graphicalmodel/graphicalmodel_manipulator.hxx
index 95b0b7c..6a39d4f 100644
--- a/include/opengm/graphicalmodel/graphicalmodel_manipulator.hxx
+++ b/include/opengm/graphicalmodel/graphicalmodel_manipulator.hxx
@@ -138,7 +138,8 @@ namespace opengm {
         mode_(mode),
         validModel_(false), 
         validSubModels_(false),
-        var2subProblem_(std::vector<IndexType>(gm.numberOfVariables(),0))
+        var2subProblem_(std::vector<IndexType>(gm.numberOfVariables(),0)),
+        tentacleFactor_(std::vector<bool>(gm.numberOfFactors(),false))
    {
       return;
    }
-- 
2.43.0


From 7e3586fe5315c67472ac7714e86989c9ddb2d99b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:34 +0000
Subject: [PATCH 55/80] fix: tentacle detection kept a flag per factor where it
 needs one per variable

---
 include/opengm/graphicalmodel/graphicalmodel_manipulator.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/graphicalmodel/graphicalmodel_manipulator.hxx b/include/opengm/graphicalmodel/graphicalmodel_manipulator.hxx
index 6a39d4f..afd4be1 100644
--- a/include/opengm/graphicalmodel/graphicalmodel_manipulator.hxx
+++ b/include/opengm/graphicalmodel/graphicalmodel_manipulator.hxx
@@ -528,7 +528,7 @@ namespace opengm {
       }
       
       //SETUP LEAFS 
-      std::vector<bool>  pushed2Leafs(gm_.numberOfFactors(), false);
+      std::vector<bool>  pushed2Leafs(gm_.numberOfVariables(), false);
       for(IndexType var=0; var<gm_.numberOfVariables(); ++var){
          if(variableDegree[var] <= 1 && !fixVariable_[var]){
             leafs.push_back(var);
-- 
2.43.0


From e7908b97bbe42e755bac4a45b214747520cdc56f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:34 +0000
Subject: [PATCH 56/80] fix: unlocking a model manipulator kept its eliminated
 tentacles

---
 include/opengm/graphicalmodel/graphicalmodel_manipulator.hxx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/opengm/graphicalmodel/graphicalmodel_manipulator.hxx b/include/opengm/graphicalmodel/graphicalmodel_manipulator.hxx
index afd4be1..4b079a4 100644
--- a/include/opengm/graphicalmodel/graphicalmodel_manipulator.hxx
+++ b/include/opengm/graphicalmodel/graphicalmodel_manipulator.hxx
@@ -187,6 +187,11 @@ namespace opengm {
       validSubModels_=false;
       validModel_=false;
       submodels_.clear();
+      tentacleRoots_.clear();
+      tentacleFunctions_.clear();
+      tentacleLabelCandidates_.clear();
+      tentacleVars_.clear();
+      tentacleFactor_.assign(gm_.numberOfFactors(),false);
       freeAllVariables();
    }
 
-- 
2.43.0


From f6c32e3ccf21963ddb422ba993896e5991b62956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:16 +0000
Subject: [PATCH 57/80] fix: uai2opengm ran out of memory on factors without
 variables

---
 src/converter/uai2opengm.cxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/converter/uai2opengm.cxx b/src/converter/uai2opengm.cxx
index e828e58..52b2bb5 100644
--- a/src/converter/uai2opengm.cxx
+++ b/src/converter/uai2opengm.cxx
@@ -283,6 +283,9 @@ template <class T, class U, class V>
 void ind2sub(T& sub, const U ind, const V& sizes) {
    sub.clear();
    sub.reserve(sizes.size());
+   if(sizes.size() == 0) {
+      return;
+   }
    U remainingInd = ind;
    for(size_t i = 0; i < sizes.size() - 1; i++) {
       size_t numSubentries = 1;
-- 
2.43.0


From b50e70318c7fa038b91af1b09c4cd4431d7ebbeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:56 +0000
Subject: [PATCH 58/80] fix: uai2opengm converted truncated, unreadable and
 malformed files without complaint

---
 src/converter/uai2opengm.cxx | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/src/converter/uai2opengm.cxx b/src/converter/uai2opengm.cxx
index 52b2bb5..778d60b 100644
--- a/src/converter/uai2opengm.cxx
+++ b/src/converter/uai2opengm.cxx
@@ -86,6 +86,10 @@ int main(int argc, const char* argv[] ) {
       return 1;
    } else {
       myuaifile >> numVariables;
+      if(myuaifile.fail()) {
+         std::cerr << "Bad file format: Could not read number of variables." << std::endl;
+         return 1;
+      }
    }
 
    // add variables
@@ -96,6 +100,10 @@ int main(int argc, const char* argv[] ) {
       for(IndexType i=0; i<numVariables; ++i){
          LabelType currentNumberOfStates;
          myuaifile >>currentNumberOfStates;
+         if(myuaifile.fail() || currentNumberOfStates == 0) {
+            std::cerr << "Bad file format: Could not read cardinality of variable " << i << "." << std::endl;
+            return 1;
+         }
          //std::cout <<currentNumberOfStates <<" ";
          gm.addVariable(currentNumberOfStates);
       }
@@ -108,6 +116,10 @@ int main(int argc, const char* argv[] ) {
       return 1;
    } else {
       myuaifile >> numFactors;
+      if(myuaifile.fail()) {
+         std::cerr << "Bad file format: Could not read number of factors." << std::endl;
+         return 1;
+      }
       //std::cout <<std::endl<< numFactors <<std::endl;
    }
 
@@ -120,9 +132,17 @@ int main(int argc, const char* argv[] ) {
       for(IndexType f=0;f<numFactors;++f){
          IndexType numFactorVariables;
          myuaifile >> numFactorVariables; 
+         if(myuaifile.fail() || numFactorVariables > numVariables) {
+            std::cerr << "Bad file format: Could not read number of variables of factor " << f << "." << std::endl;
+            return 1;
+         }
          factors[f].resize(numFactorVariables);
          for(size_t i=0; i<numFactorVariables; ++i){ 
             myuaifile >>  factors[f][i]; 
+            if(myuaifile.fail() || factors[f][i] >= numVariables) {
+               std::cerr << "Bad file format: Could not read variables of factor " << f << "." << std::endl;
+               return 1;
+            }
          }
       }
    }
@@ -150,7 +170,10 @@ int main(int argc, const char* argv[] ) {
          marray::Marray<ValueType> currentFunctionValues(currentShape.begin(), currentShape.end());
          
          // check for matching size
-         OPENGM_ASSERT_OP(currentFunctionValues.size(), ==, numFunctionValues);  
+         if(myuaifile.fail() || currentFunctionValues.size() != numFunctionValues) {
+            std::cerr << "Bad file format: Number of function values of factor " << f << " is missing or wrong." << std::endl;
+            return 1;
+         }
          
          // set function values
          if(myuaifile.eof()) {
@@ -161,6 +184,10 @@ int main(int argc, const char* argv[] ) {
             for(size_t i=0; i<currentFunctionValues.size(); ++i){
                ValueType val;
                myuaifile >> val;
+               if(myuaifile.fail() || val < 0) {
+                  std::cerr << "Bad file format: Could not read function values of factor " << f << "." << std::endl;
+                  return 1;
+               }
                logTransform(val);
                ind2sub(index, i, currentShape);
                currentFunctionValues(index.begin()) =val;
-- 
2.43.0


From 00be765cb137b822929f1f89ddb2b500879be78a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:56 +0000
Subject: [PATCH 59/80] fix: opengm2uai reported success although the file
 could not be written

---
 src/converter/opengm2uai.cxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/converter/opengm2uai.cxx b/src/converter/opengm2uai.cxx
index 46ae67b..c53831d 100644
--- a/src/converter/opengm2uai.cxx
+++ b/src/converter/opengm2uai.cxx
@@ -97,5 +97,9 @@ main(int argc, const char* argv[] ) {
 
    }
    myuaifile.close();
+   if(myuaifile.fail()) {
+      std::cerr << "Could not write file " << uaifile << std::endl;
+      return 1;
+   }
    return 0;
 }
-- 
2.43.0


From 9428e3930643c45a82a089fadd134f0461c17c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:56 +0000
Subject: [PATCH 60/80] fix: opengm2wudag wrote constant factors as edges

---
 src/converter/opengm2wudag.cxx | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/converter/opengm2wudag.cxx b/src/converter/opengm2wudag.cxx
index 9a03979..52f8f76 100644
--- a/src/converter/opengm2wudag.cxx
+++ b/src/converter/opengm2wudag.cxx
@@ -50,6 +50,7 @@ main(int argc, const char* argv[] ) {
 
    //check model and calculate constant
    ValueType constValue = 0;
+   IndexType numberOfEdges = 0;
    for(IndexType f=0; f<gm.numberOfFactors();++f){
       if(gm[f].numberOfVariables() == 0){
          LabelType l0 =0;
@@ -57,6 +58,7 @@ main(int argc, const char* argv[] ) {
       }
       else if(gm[f].numberOfVariables() == 2){
          constValue += gm[f](l00);
+         ++numberOfEdges;
       }
       else{
          std::cout << "ERROR: Unsupported factor order !!!" << std::endl;
@@ -66,8 +68,11 @@ main(int argc, const char* argv[] ) {
    
    std::ofstream outputFile;
    outputFile.open(outfile.c_str());
-   outputFile << "  "<< gm.numberOfVariables() << " " << gm.numberOfFactors() << " "<< std::setprecision(20) << constValue << std::endl;
+   outputFile << "  "<< gm.numberOfVariables() << " " << numberOfEdges << " "<< std::setprecision(20) << constValue << std::endl;
    for(IndexType f=0; f<gm.numberOfFactors();++f){
+      if(gm[f].numberOfVariables() != 2) {
+         continue;
+      }
       IndexType vars[] = {0,0};
       vars[0] = gm[f].variableIndex(0);
       vars[1] = gm[f].variableIndex(1);
-- 
2.43.0


From 56342f474d80b7d0a30bd9c16ed87675e208e69c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:56 +0000
Subject: [PATCH 61/80] fix: opengm2wudag reported success although the file
 could not be written

---
 src/converter/opengm2wudag.cxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/converter/opengm2wudag.cxx b/src/converter/opengm2wudag.cxx
index 52f8f76..3ba9b43 100644
--- a/src/converter/opengm2wudag.cxx
+++ b/src/converter/opengm2wudag.cxx
@@ -81,6 +81,10 @@ main(int argc, const char* argv[] ) {
       outputFile <<  vars[0] << " " << vars[1] << " "<< std::setprecision(20) << v01-v00 << std::endl;
    }
    outputFile.close();
+   if(outputFile.fail()) {
+      std::cerr << "Could not write file " << outfile << std::endl;
+      return 1;
+   }
 
    return 0;
 }
-- 
2.43.0


From 3001b546304a4e86a6545af6c9e100e34f50e9f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:56 +0000
Subject: [PATCH 62/80] fix: partition2potts read beyond factors of other
 orders than two

---
 src/converter/partition2potts.cxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/converter/partition2potts.cxx b/src/converter/partition2potts.cxx
index 61c58d0..7ecdd36 100755
--- a/src/converter/partition2potts.cxx
+++ b/src/converter/partition2potts.cxx
@@ -67,6 +67,10 @@ main(int argc, const char* argv[] ) {
    LabelType l00[] = {0,0};
    LabelType l01[] = {0,1};
    for(IndexType f=0; f<gm1.numberOfFactors();++f){
+      if(gm1[f].numberOfVariables() != 2) {
+         std::cerr << "ERROR: Unsupported factor order !!!" << std::endl;
+         return 1;
+      }
       IndexType vars[] = {0,0};
       vars[0] = gm1[f].variableIndex(0);
       vars[1] = gm1[f].variableIndex(1);
-- 
2.43.0


From 7889823e21339bf61e65cc0b181a75427c6082cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:56 +0000
Subject: [PATCH 63/80] fix: the brain converter filled truncated or unreadable
 volumes with old values

---
 src/converter/brain.cxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/converter/brain.cxx b/src/converter/brain.cxx
index 298ea70..54fc0e4 100644
--- a/src/converter/brain.cxx
+++ b/src/converter/brain.cxx
@@ -64,6 +64,10 @@ int main(int argc, char *argv[])
       for(size_t d2=0; d2<dim2; ++d2){
          for(size_t d1=0; d1<dim1; ++d1){
             file.read(reinterpret_cast<char *>(&value),1); 
+            if(!file){
+               std::cerr << "Could not read file " << argv[1] << std::endl;
+               return 1;
+            }
 // std::cout <<(size_t) value << "  ";
             varId[0] = d3*dim2*dim1 + d2*dim1 + d1;
             gm.addFactor(fid[(size_t) value], varId, varId+1);
-- 
2.43.0


From 75298bfae2fe4a452c5cc72c57ba87df3fc8336b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:23 +0000
Subject: [PATCH 64/80] fix: loading a model whose file lists function types
 unknown to the target lost functions

---
 include/opengm/graphicalmodel/graphicalmodel_hdf5.hxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/opengm/graphicalmodel/graphicalmodel_hdf5.hxx b/include/opengm/graphicalmodel/graphicalmodel_hdf5.hxx
index b57b8d3..0345a95 100644
--- a/include/opengm/graphicalmodel/graphicalmodel_hdf5.hxx
+++ b/include/opengm/graphicalmodel/graphicalmodel_hdf5.hxx
@@ -468,7 +468,8 @@ void load
       //gm.numbersOfStates_.resize(serializationIndicies[2]);
       gm.factors_.resize(serializationIndicies[3], FactorType(&gm));
       numberOfFunctions.resize(serializationIndicies[4]);
-      functionIndexLookup.resize(serializationIndicies[4]);
+      // types which are not in the type list of the gm do not get an index of it
+      functionIndexLookup.resize(serializationIndicies[4], GM::NrOfFunctionTypes);
       typeRegisterId.resize(serializationIndicies[4]);
       for(size_t i=0; i<numberOfFunctions.size(); ++i) {
          //const size_t fRegId=GetFunctionRegistration<GM, 0, GM::NrOfFunctionTypes, meta::EqualNumber<GM::NrOfFunctionTypes, 0>::value>::get(i);
-- 
2.43.0


From 2b57182536c0afd94695f0e70f5a5732465c0a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:29 +0000
Subject: [PATCH 65/80] fix: dereferencing a constant accessor iterator
 returned a reference to a temporary

---
 include/opengm/utilities/accessor_iterator.hxx | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/opengm/utilities/accessor_iterator.hxx b/include/opengm/utilities/accessor_iterator.hxx
index a9bec89..0e8d836 100644
--- a/include/opengm/utilities/accessor_iterator.hxx
+++ b/include/opengm/utilities/accessor_iterator.hxx
@@ -75,6 +75,9 @@ public:
       >::type,
       value_type&
    >::type reference;
+   // what a constant iterator refers to; the accessor may return
+   // fundamental types by value, so these must not be bound to a reference
+   typedef typename meta::If<isConst, reference, const value_type&>::type const_reference;
    typedef size_t difference_type;
    typedef std::random_access_iterator_tag iterator_category;
 
@@ -96,9 +99,9 @@ public:
    pointer operator->();
    const value_type* operator->() const;
    reference operator*();
-   const value_type& operator*() const;
+   const_reference operator*() const;
    reference operator[](const size_t);
-   const value_type& operator[](const size_t) const;
+   const_reference operator[](const size_t) const;
 
    AccessorIterator<A, isConst>& operator++();
    AccessorIterator<A, isConst> operator++(int);
@@ -225,7 +228,7 @@ AccessorIterator<A, isConst>::operator->() const
 }
 
 template<class A, bool isConst>
-inline const typename AccessorIterator<A, isConst>::value_type&
+inline typename AccessorIterator<A, isConst>::const_reference
 AccessorIterator<A, isConst>::operator*() const
 {
    OPENGM_ASSERT(index_ < accessor_.size());
@@ -241,7 +244,7 @@ AccessorIterator<A, isConst>::operator*()
 }
 
 template<class A, bool isConst>
-inline const typename AccessorIterator<A, isConst>::value_type&
+inline typename AccessorIterator<A, isConst>::const_reference
 AccessorIterator<A, isConst>::operator[]
 (
    const size_t j
-- 
2.43.0


From c8feb792dd673011fb40ff829ca983b564e145bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:06 +0000
Subject: [PATCH 66/80] fix: third-order factors were added to the graph cut
 with wrong variables, edges and auxiliary nodes

---
 include/opengm/inference/graphcut.hxx | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/include/opengm/inference/graphcut.hxx b/include/opengm/inference/graphcut.hxx
index 7179c9d..d408fb1 100644
--- a/include/opengm/inference/graphcut.hxx
+++ b/include/opengm/inference/graphcut.hxx
@@ -108,7 +108,7 @@ inline GraphCut<GM, ACC, MINSTCUT>::GraphCut
    numVariables_ = numVariables;
    numFacDim_ = numFacDim;
    numFacDim_.resize(4);
-   minStCut_ = new MinStCutType(2 + numVariables_ + numFacDim_[3], 2*numVariables_ + numFacDim_[2] + 3*numFacDim_[3]);
+   minStCut_ = new MinStCutType(2 + numVariables_ + numFacDim_[3], 2*numVariables_ + numFacDim_[2] + 8*numFacDim_[3]);
    try {
       sEdges_.assign(numVariables_ + numFacDim_[3], 0);
       tEdges_.assign(numVariables_ + numFacDim_[3], 0);
@@ -152,7 +152,7 @@ inline GraphCut<GM, ACC, MINSTCUT>::GraphCut
       ++numFacDim_[gm[j].numberOfVariables()];
    }
 
-   minStCut_ = new MinStCutType(2 + numVariables_ + numFacDim_[3], 2*numVariables_ + numFacDim_[2] + 3*numFacDim_[3]);
+   minStCut_ = new MinStCutType(2 + numVariables_ + numFacDim_[3], 2*numVariables_ + numFacDim_[2] + 8*numFacDim_[3]);
    try {
       sEdges_.assign(numVariables_ + numFacDim_[3], 0);
       tEdges_.assign(numVariables_ + numFacDim_[3], 0);
@@ -265,7 +265,7 @@ inline void GraphCut<GM, ACC, MINSTCUT>::addFactor
    else if(numberOfVariables == 3) {
       const size_t var0 = factor.variableIndex(0);
       const size_t var1 = factor.variableIndex(1);
-      const size_t var2 = factor.variableIndex(1);
+      const size_t var2 = factor.variableIndex(2);
       OPENGM_ASSERT(var0 < numVariables_);
       OPENGM_ASSERT(var1 < numVariables_);
       OPENGM_ASSERT(var2 < numVariables_);
@@ -279,19 +279,21 @@ inline void GraphCut<GM, ACC, MINSTCUT>::addFactor
       i[0] = 1; i[1] = 1; i[2] = 1; const ValueType H = factor(i);
 
       if(typeid(ACC) == typeid(opengm::Minimizer)) {
-         std::vector<size_t> triple(3);
+         ValueType P = (A + D + F + G)-(B + C + E + H);
+         // the two constructions below cannot share an auxiliary node
+         std::vector<size_t> triple(4);
          triple[0] = var0;
          triple[1] = var1;
          triple[2] = var2;
+         triple[3] = (P >= 0.0);
          size_t id = tripleId(triple);
-         ValueType P = (A + D + F + G)-(B + C + E + H);
          if(P >= 0.0) {
             if(F-B>=0) addEdgeCapacity(0, var0+2, F - B);
             else       addEdgeCapacity(var0+2, 1, B - F);
             if(G-E>=0) addEdgeCapacity(0, var1+2, G - E);
             else       addEdgeCapacity(var1+2, 1, E - G);
             if(D-C>=0) addEdgeCapacity(0, var2+2, D - C);
-            else       addEdgeCapacity(var2+2, 0, C - D);
+            else       addEdgeCapacity(var2+2, 1, C - D);
 
             addEdgeCapacity(var1+2, var2+2, B + C - A - D);
             addEdgeCapacity(var2+2, var0+2, B + E - A - F);
@@ -300,7 +302,7 @@ inline void GraphCut<GM, ACC, MINSTCUT>::addFactor
             addEdgeCapacity(var0 + 2, id + 2, P);
             addEdgeCapacity(var1 + 2, id + 2, P);
             addEdgeCapacity(var2 + 2, id + 2, P);
-            addEdgeCapacity(id, 1, P);
+            addEdgeCapacity(id + 2, 1, P);
          }
          else {
             if(C-G>=0) addEdgeCapacity(var0+2, 1, C - G);
@@ -363,10 +365,10 @@ GraphCut<GM, ACC, MINSTCUT>::tripleId
    std::list<std::vector<size_t> >::iterator it;
    size_t counter = numVariables_;
    for(it = tripleList.begin(); it != tripleList.end(); it++) {
-      if(triple[0] == (*it)[0] && triple[1] == (*it)[1] && triple[2] == (*it)[2]) {
+      if(triple == *it) {
          return counter;
       }
-      numVariables_++;
+      counter++;
    }
    // add triple to list
    tripleList.push_back(triple);
-- 
2.43.0


From cbccb88cc6faa2f8da6ca69d00a2b8e000661afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:06 +0000
Subject: [PATCH 67/80] fix: PartitionMove ignored all but the last factor
 between two variables

---
 include/opengm/inference/partition-move.hxx | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/include/opengm/inference/partition-move.hxx b/include/opengm/inference/partition-move.hxx
index b508356..2555c94 100644
--- a/include/opengm/inference/partition-move.hxx
+++ b/include/opengm/inference/partition-move.hxx
@@ -171,19 +171,23 @@ PartitionMove<GM, ACC>::PartitionMove
       else if(gm_[f].numberOfVariables()==2) {
          LabelType cc0[] = {0,0};
          LabelType cc1[] = {0,1};
-         edgeWeight_[numberOfInternalEdges] += gm_[f](cc1) - gm_[f](cc0); 
          constant_ += gm_[f](cc0);
          IndexType u = gm_[f].variableIndex(0);
          IndexType v = gm_[f].variableIndex(1);
-         neighbours_[u][v] = numberOfInternalEdges;
-         neighbours_[v][u] = numberOfInternalEdges;
-         ++numberOfInternalEdges;
+         if(neighbours_[u].find(v) == neighbours_[u].end()) {
+            neighbours_[u][v] = numberOfInternalEdges;
+            neighbours_[v][u] = numberOfInternalEdges;
+            ++numberOfInternalEdges;
+         }
+         // factors between the same two variables share one edge
+         edgeWeight_[neighbours_[u][v]] += gm_[f](cc1) - gm_[f](cc0); 
       }    
       else{
          throw RuntimeError("Only supports second order Potts functions!");
       }
    }
-   OPENGM_ASSERT(numberOfInternalEdges==numberOfInternalEdges_);
+   OPENGM_ASSERT(numberOfInternalEdges<=numberOfInternalEdges_);
+   numberOfInternalEdges_ = numberOfInternalEdges;
 
    states_.resize(gm_.numberOfVariables(),0);
    size_t init = 2;  
-- 
2.43.0


From c8f663eb151e49bf37a0c2d68e4a4b2c0c1a49ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:13 +0000
Subject: [PATCH 68/80] fix: QPBO read a labelling that did not exist before
 the first inference

---
 include/opengm/inference/qpbo.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/inference/qpbo.hxx b/include/opengm/inference/qpbo.hxx
index b31571c..e626048 100644
--- a/include/opengm/inference/qpbo.hxx
+++ b/include/opengm/inference/qpbo.hxx
@@ -147,7 +147,7 @@ QPBO<GM,MIN_ST_CUT>::arg
    const size_t& n
    ) const
 {
-   if(n > 1) {
+   if(n > 1 || stateBool_.empty()) { // no other or not yet a solution
       return UNKNOWN;
    }
    else {
-- 
2.43.0


From 14dc87a69fcf5eec48bdb6e006e7115bc8b4d08e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:13 +0000
Subject: [PATCH 69/80] fix: QPBO::partialOptimality did not compile

---
 include/opengm/inference/qpbo.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/inference/qpbo.hxx b/include/opengm/inference/qpbo.hxx
index e626048..20f7374 100644
--- a/include/opengm/inference/qpbo.hxx
+++ b/include/opengm/inference/qpbo.hxx
@@ -180,7 +180,7 @@ QPBO<GM,MIN_ST_CUT>::partialOptimality
       } else
          optVec[j] = false;
 
-   return opt/gm_.numerOfVariables();
+   return opt/gm_.numberOfVariables();
 }
 
 template<class GM,class MIN_ST_CUT>
-- 
2.43.0


From 727b383fe211804d726b2dfb417a11078082eb88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:13 +0000
Subject: [PATCH 70/80] fix: QPBO added edges of negative capacity for pairwise
 factors with negative values

---
 include/opengm/inference/qpbo.hxx | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/opengm/inference/qpbo.hxx b/include/opengm/inference/qpbo.hxx
index 20f7374..7b9e440 100644
--- a/include/opengm/inference/qpbo.hxx
+++ b/include/opengm/inference/qpbo.hxx
@@ -304,6 +304,12 @@ QPBO<GM,MIN_ST_CUT>::addPairwiseFactorType
       addEdgeCapacity(nx_j,  x_i, 0.5*c_x_i_x_j);
    }
 
+   // the two changes for x_j can be negative, but a capacity cannot
+   delta = std::min(delta_c_nx_j, delta_c_x_j);
+   delta_c_nx_j -= delta;
+   delta_c_x_j  -= delta;
+   constTerm_   += delta;
+
    // for every non-zero c_[n]x_{i,j} add two edges to the flow network
 
    if (delta_c_nx_j != 0) {
-- 
2.43.0


From 8db99eca6491956ca5a04433cac0d543a25e22db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:36 +0000
Subject: [PATCH 71/80] fix: DMC::value() was not implemented

---
 include/opengm/inference/dmc.hxx | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/opengm/inference/dmc.hxx b/include/opengm/inference/dmc.hxx
index 80b6383..64bde1e 100644
--- a/include/opengm/inference/dmc.hxx
+++ b/include/opengm/inference/dmc.hxx
@@ -59,8 +59,7 @@ public:
     void setStartingPoint(typename std::vector<LabelType>::const_iterator);
     virtual InferenceTermination arg(std::vector<LabelType>&, const size_t = 1) const ;
     virtual ValueType value()const{
-        assert(false);  // FIXME: the return of this function was missing, just added something arbitrary
-        return ValueType();
+        return gm_.evaluate(arg_);
     }
 
 private:
-- 
2.43.0


From 2de52e80e31f35ea522918cfede613e8bc5b94ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:37 +0000
Subject: [PATCH 72/80] fix: DMC merged two variables without looking at all
 factors between them

---
 include/opengm/inference/dmc.hxx | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/opengm/inference/dmc.hxx b/include/opengm/inference/dmc.hxx
index 64bde1e..0acbf23 100644
--- a/include/opengm/inference/dmc.hxx
+++ b/include/opengm/inference/dmc.hxx
@@ -226,8 +226,16 @@ InferenceTermination DMC<GM,INF>::infer
             else if(nSubVar==2){
                 const IndexType gvi0 = subVar[subProb][0];
                 const IndexType gvi1 = subVar[subProb][1];
+                // all factors between the two variables count
+                ValueType weight = 0;
+                for(size_t f=0; f<gm_.numberOfFactors(gvi0); ++f){
+                    const IndexType nfi = gm_.factorOfVariable(gvi0, f);
+                    if(usedFactors_[nfi] != 1){
+                        weight += gm_[nfi](lAB) - gm_[nfi](lAA);
+                    }
+                }
                 arg_[gvi0] =     offset;
-                arg_[gvi1] =     offset;
+                arg_[gvi1] =     weight > param_.threshold_ ? offset : offset + 1;
             }
             else{
 
-- 
2.43.0


From 2912dff5193c36ec095293f422c0433bc4193346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:37 +0000
Subject: [PATCH 73/80] fix: DMC did not call the visitor's end for a connected
 model

---
 include/opengm/inference/dmc.hxx | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/opengm/inference/dmc.hxx b/include/opengm/inference/dmc.hxx
index 0acbf23..c0e0c97 100644
--- a/include/opengm/inference/dmc.hxx
+++ b/include/opengm/inference/dmc.hxx
@@ -289,9 +289,8 @@ InferenceTermination DMC<GM,INF>::infer
             offset += nSubVar;
         }
         value_ = gm_.evaluate(arg_);
-        visitor.end(*this);
-
     }
+    visitor.end(*this);
     return NORMAL;
 }
 
-- 
2.43.0


From d58a5d83b99c1a653fd6622846a2d927c0887c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:04 +0000
Subject: [PATCH 74/80] fix: integer pairwise values of
 SyntheticModelGenerator2 were not drawn from the given interval

---
 .../graphicalmodel/modelgenerators/syntheticmodelgenerator.hxx  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/opengm/graphicalmodel/modelgenerators/syntheticmodelgenerator.hxx b/include/opengm/graphicalmodel/modelgenerators/syntheticmodelgenerator.hxx
index d617f28..e9968a3 100644
--- a/include/opengm/graphicalmodel/modelgenerators/syntheticmodelgenerator.hxx
+++ b/include/opengm/graphicalmodel/modelgenerators/syntheticmodelgenerator.hxx
@@ -496,7 +496,7 @@ namespace opengm {
          ExplicitFunctionType function(shapeBegin, shapeEnd);
          for(typename GM::LabelType ni = 0; ni < shapeBegin[0]; ++ni) {
             for(typename GM::LabelType nj = 0; nj < shapeBegin[1]; ++nj) {
-               function(ni, nj) = functionParameter[0] + rand() % (size_t) (functionParameter[0] - functionParameter[1]);
+               function(ni, nj) = functionParameter[0] + rand() % (size_t) (functionParameter[1] - functionParameter[0]);
             }
          }
          return gm.addFunction(function);
-- 
2.43.0


From a8262000a5bad330a8886779d13e2235aac6d36c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:27 +0000
Subject: [PATCH 75/80] fix: alpha-beta-swap stopped although a swap could
 still improve the labelling

---
 include/opengm/inference/alphabetaswap.hxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/opengm/inference/alphabetaswap.hxx b/include/opengm/inference/alphabetaswap.hxx
index 9a21537..6d7c646 100644
--- a/include/opengm/inference/alphabetaswap.hxx
+++ b/include/opengm/inference/alphabetaswap.hxx
@@ -296,6 +296,7 @@ AlphaBetaSwap<GM, INF>::infer
       OPENGM_ASSERT(!AccumulationType::ibop(energy2, energy));
       if (AccumulationType::bop(energy2, energy)) {
          energy = energy2;
+         countUnchanged = 0;
       } else {
          ++countUnchanged;
       }
-- 
2.43.0


From 16180cc69557ee347aac9e42cddb84db5a218832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:48 +0000
Subject: [PATCH 76/80] fix: factor moves of ICM were not revisited when a
 neighbour of the factor changed

---
 include/opengm/inference/icm.hxx | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/opengm/inference/icm.hxx b/include/opengm/inference/icm.hxx
index 7b70ac9..498ac3a 100644
--- a/include/opengm/inference/icm.hxx
+++ b/include/opengm/inference/icm.hxx
@@ -248,8 +248,15 @@ InferenceTermination ICM<GM,ACC>::infer
                   for(v=0;v<gm_[f].numberOfVariables();++v) {
                      const size_t varIndex=gm_[f].variableIndex(v);
                      if(stateBuffer[v]!=movemaker_.state(varIndex)) {
+                        // the best move of a factor depends also on the neighbours of its variables
                         for(ff=0;ff<gm_.numberOfFactors(varIndex);++ff) {
-                           isLocalOptimal[gm_.factorOfVariable(varIndex,ff)]=false;
+                           const size_t neighbour=gm_.factorOfVariable(varIndex,ff);
+                           for(size_t n=0;n<gm_[neighbour].numberOfVariables();++n) {
+                              const size_t nVarIndex=gm_[neighbour].variableIndex(n);
+                              for(size_t nf=0;nf<gm_.numberOfFactors(nVarIndex);++nf) {
+                                 isLocalOptimal[gm_.factorOfVariable(nVarIndex,nf)]=false;
+                              }
+                           }
                         }
                      }
                   }
-- 
2.43.0


From abe8f8dd8212a5c1378a126044a2db8c34645d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:25 +0000
Subject: [PATCH 77/80] fix: models whose functions have no values or indices
 could not be saved

---
 include/opengm/graphicalmodel/graphicalmodel_hdf5.hxx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/opengm/graphicalmodel/graphicalmodel_hdf5.hxx b/include/opengm/graphicalmodel/graphicalmodel_hdf5.hxx
index 0345a95..f3c6c81 100644
--- a/include/opengm/graphicalmodel/graphicalmodel_hdf5.hxx
+++ b/include/opengm/graphicalmodel/graphicalmodel_hdf5.hxx
@@ -112,8 +112,9 @@ struct SaveAndLoadFunctions<GM, IX, DX, false>
             valueCounter += FunctionSerialization<TypeAtIX>::valueSequenceSize(
                meta::FieldAccess::template byIndex<IX> (gm.functionDataField_).functionData_.functions_[i]);
          }
-         marray::Vector<typename GM::ValueType> valueVector(valueCounter);
-         marray::Vector<opengm::UInt64Type> indexVector(indexCounter);
+         // empty data sets cannot be stored: functions without any values (indices) are padded by one
+         marray::Vector<typename GM::ValueType> valueVector(valueCounter == 0 ? 1 : valueCounter);
+         marray::Vector<opengm::UInt64Type> indexVector(indexCounter == 0 ? 1 : indexCounter);
          typename marray::Vector<typename GM::ValueType>::iterator valueIter = valueVector.begin();
          typename marray::Vector<opengm::UInt64Type>::iterator indexIter = indexVector.begin();
          for(size_t i=0; i<meta::FieldAccess::template byIndex<IX>(gm.functionDataField_).functionData_.functions_.size(); ++i) {
-- 
2.43.0


From 66919fd384854d1471ff396d77fa2bab15fbc193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:25 +0000
Subject: [PATCH 78/80] fix: weighted sums of functions were not restored by
 deserialization

---
 include/opengm/functions/learnable/lpotts.hxx                | 4 ++--
 .../opengm/functions/learnable/lweightedsum_of_functions.hxx | 5 ++++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/opengm/functions/learnable/lpotts.hxx b/include/opengm/functions/learnable/lpotts.hxx
index a9938c6..7adeabe 100644
--- a/include/opengm/functions/learnable/lpotts.hxx
+++ b/include/opengm/functions/learnable/lpotts.hxx
@@ -95,7 +95,7 @@ LPotts<T, I, L>::LPotts
    const std::vector<size_t>& weightIDs,
    const std::vector<T>& feat
    )
-   : numLabels_(numLabels), weightIDs_(weightIDs),feat_(feat)
+   : weights_(NULL), numLabels_(numLabels), weightIDs_(weightIDs),feat_(feat)
 {
   OPENGM_ASSERT( weightIDs_.size()==feat_.size() );
 }
@@ -104,7 +104,7 @@ template <class T, class I, class L>
 inline
 LPotts<T, I, L>::LPotts
 ( )
-   : numLabels_(0), weightIDs_(std::vector<size_t>(0)), feat_(std::vector<T>(0))
+   : weights_(NULL), numLabels_(0), weightIDs_(std::vector<size_t>(0)), feat_(std::vector<T>(0))
 {
   OPENGM_ASSERT( weightIDs_.size()==feat_.size() );
 }
diff --git a/include/opengm/functions/learnable/lweightedsum_of_functions.hxx b/include/opengm/functions/learnable/lweightedsum_of_functions.hxx
index 62314f4..23f9915 100644
--- a/include/opengm/functions/learnable/lweightedsum_of_functions.hxx
+++ b/include/opengm/functions/learnable/lweightedsum_of_functions.hxx
@@ -87,7 +87,7 @@ LWeightedSumOfFunctions<T, I, L>::LWeightedSumOfFunctions
 template <class T, class I, class L>
 inline
 LWeightedSumOfFunctions<T, I, L>::LWeightedSumOfFunctions()
-   : shape_(std::vector<L>(0)), weightIDs_(std::vector<size_t>(0)), feat_(std::vector<marray::Marray<T> >(0))
+   : weights_(NULL), shape_(std::vector<L>(0)), weightIDs_(std::vector<size_t>(0)), feat_(std::vector<marray::Marray<T> >(0))
 {
    ;
 }
@@ -257,6 +257,9 @@ FunctionSerialization<opengm::functions::learnable::LWeightedSumOfFunctions<T, I
          ++valueInIterator;
       }
    }   
+   dst.shape_.swap(shape);
+   dst.weightIDs_.swap(parameterIDs);
+   dst.feat_.swap(feat);
 }
 
 } // namespace opengm
-- 
2.43.0


From 99b75c80d4bad341a5328aa208d6dacd9510116a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:47 +0000
Subject: [PATCH 79/80] fix: A* with factors of order three and more or without
 variables was not optimal

Both heuristics read factors of order three and more wrongly (labels that were
never set, energies assigned instead of added, accesses past the end, terms of
fixed variables added to an unrelated variable), and the fast heuristic ignored
factors without variables, so that the bound was wrong by their value.
---
 include/opengm/inference/astar.hxx | 56 ++++++++++++++++++++++--------
 1 file changed, 42 insertions(+), 14 deletions(-)

diff --git a/include/opengm/inference/astar.hxx b/include/opengm/inference/astar.hxx
index b54c019..a0771c0 100644
--- a/include/opengm/inference/astar.hxx
+++ b/include/opengm/inference/astar.hxx
@@ -326,7 +326,7 @@ namespace opengm {
          while(array_.front().conf.size() < numNodes_ && exitFlag==0) {
             expand(visitor);
             if(optConf_.empty()) { // afterwards, the heap bounds only the next best solution
-               belowBound_ = array_.front().value;
+               ACC::iop(array_.front().value, belowBound_); // never worse than before
             }
             exitFlag = visitor(*this); 
             //visitor(*this, array_.front().conf, array_.size(), array_.front().value, globalBound_, time);
@@ -334,7 +334,7 @@ namespace opengm {
          if(array_.front().conf.size()>=numNodes_){
             ValueType  value = array_.front().value;
             if(optConf_.empty()) {
-               belowBound_ = value;
+               ACC::iop(value, belowBound_);
             }
             std::vector<LabelType> conf(numNodes_);
             for(size_t n=0; n<numNodes_; ++n) {
@@ -466,6 +466,8 @@ namespace opengm {
                if(MVars.size()<2 || isTreeFactor_[f]){
                   const ViewFixVariablesFunction<GM> func(gm_[f], fixedVars);
                   mgm.addFactor(mgm.addFunction(func),MVars.begin(), MVars.end());
+               }else if(fixVariable[gm_[f].variableIndex(0)]){ // the bound depends on a fixed variable only
+                  OperatorType::op(optimizedFactor_[f](&fixVariableLabel[gm_[f].variableIndex(0)]),constant);
                }else{
                   std::vector<IndexType> variablesIndices(optimizedFactor_[f].numberOfVariables());
                   for(size_t i=0; i<variablesIndices.size(); ++i)
@@ -532,6 +534,8 @@ namespace opengm {
       std::vector<size_t>               nodeDegree(numNodes_,0);
       std::vector<int>                  nodeLabel(numNodes_,-1);
       std::vector<std::vector<ValueType > > nodeEnergy(numNodes_);
+      ValueType                         constant; // factors without variables
+      OperatorType::neutral(constant);
       size_t                            nextNode = parameter_.nodeOrder_[conf.size()];
       for(size_t i=0; i<numNodes_; ++i) {
          nodeEnergy[i].resize(numStates_[i]); //the energy passed to node i
@@ -548,6 +552,10 @@ namespace opengm {
       for(size_t i=0; i<gm_.numberOfFactors(); ++i) {
          const FactorType & f    = gm_[i];
          size_t nvar = f.numberOfVariables();
+         if(nvar==0) {
+            const LabelType coordinates[]={0};
+            OperatorType::op(f(coordinates), constant);
+         }
          //factors depending from 1 variable can be include
          if(nvar==1) {
             int index = f.variableIndex(0);
@@ -617,21 +625,41 @@ namespace opengm {
             }
          }
          if(nvar>2) {
-            bool covered = true;
-            std::vector<size_t> state(nvar);
+            // optimize over the free variables for every label of one of them
+            std::vector<LabelType> state(nvar,0);
+            std::vector<size_t> freeVar;
+            size_t target = nvar;
             for(size_t j=0; j<nvar; ++j) {
-               if(nodeLabel[f.variableIndex(j)]<0) {
-                  state[j] = nodeLabel[f.variableIndex(j)];
-                  covered = false;
+               const size_t index = f.variableIndex(j);
+               if(nodeLabel[index]>=0) {
+                  state[j] = static_cast<LabelType>(nodeLabel[index]);
+               }
+               else {
+                  freeVar.push_back(j);
+                  if(target==nvar || index==nextNode) {
+                     target = j;
+                  }
                }
             }
-            if(covered)
-               nodeEnergy[f.variableIndex(0)][0] = f(state.begin());
+            if(freeVar.empty()) {
+               OperatorType::op(f(state.begin()), nodeEnergy[f.variableIndex(0)][0]);
+               nodeEnergy[f.variableIndex(0)].resize(1);
+            }
             else{
-               for(size_t j=0;j<numStates_[f.variableIndex(0)];++j) {
-                  //nodeEnergy[f.variableIndex(0)][j] = operation(optimizedFactor_[i](j), nodeEnergy[f.variableIndex(0)][j]);
-                  LabelType coordinates[]={static_cast<LabelType>(j)};
-                  OperatorType::op(optimizedFactor_[i](coordinates), nodeEnergy[f.variableIndex(0)][j]);
+               const size_t index = f.variableIndex(target);
+               std::vector<ValueType> best(numStates_[index], ACC::template neutral<ValueType>());
+               size_t k = 0;
+               do {
+                  ACC::op(f(state.begin()), best[state[target]]);
+                  for(k=0; k<freeVar.size(); ++k) { // next labeling of the free variables
+                     if(++state[freeVar[k]] < f.numberOfLabels(freeVar[k])) {
+                        break;
+                     }
+                     state[freeVar[k]] = 0;
+                  }
+               } while(k<freeVar.size());
+               for(size_t j=0;j<numStates_[index];++j) {
+                  OperatorType::op(best[j], nodeEnergy[index][j]);
                }
             }
          }
@@ -695,7 +723,7 @@ namespace opengm {
       //Evaluate
       ValueType result;
       ValueType min;
-      OperatorType::neutral(result);
+      result = constant;
       std::vector<ValueType > bound;
       for(size_t i=0;i<numNodes_;++i) {
          if(i==nextNode) continue;
-- 
2.43.0


From 5dfec9ffa1e98f61b678dd5c2aa2c822fdf488f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:24 +0000
Subject: [PATCH 80/80] fix: A* with a full heap expanded complete labellings
 and reported wrong bounds

Dropping nodes could move a complete labelling to the front of the heap, which
was then expanded past its end, and bound() forgot the dropped nodes.
---
 include/opengm/inference/astar.hxx | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/include/opengm/inference/astar.hxx b/include/opengm/inference/astar.hxx
index a0771c0..007f57e 100644
--- a/include/opengm/inference/astar.hxx
+++ b/include/opengm/inference/astar.hxx
@@ -169,13 +169,14 @@ namespace opengm {
       std::vector<bool>                           isTreeFactor_;
       ValueType                                   aboveBound_;
       ValueType                                   belowBound_;
+      ValueType                                   prunedBound_; // best value dropped from the heap
       template<class VisitorType> void  expand(VisitorType& vistitor);
       std::vector<ValueType>           fastHeuristic(ConfVec conf);
       inline static bool                comp1(const AStarNode<IndependentFactorType>& a, const AStarNode<IndependentFactorType>& b)
          {return  AccumulationType::ibop(a.value,b.value);};
       inline static bool                comp2(const AStarNode<IndependentFactorType>& a, const AStarNode<IndependentFactorType>& b)
          { return  AccumulationType::bop(a.value,b.value);};
-      inline static ValueType          better(ValueType a, ValueType b)   {return AccumulationType::op(a,b);};
+      inline static ValueType          better(ValueType a, ValueType b)   {AccumulationType::op(a,b); return b;};
       inline static ValueType          wrose(ValueType a,  ValueType b)   {return AccumulationType::iop(a,b);};
    };
 
@@ -206,6 +207,7 @@ namespace opengm {
       OPENGM_ASSERT(parameter_.heuristic_ == Parameter::FASTHEURISTIC || parameter_.heuristic_ == Parameter::STANDARDHEURISTIC);
       ACC::ineutral(belowBound_);
       ACC::neutral(aboveBound_);
+      ACC::neutral(prunedBound_);
       //Set variables
       isTreeFactor_.resize(gm_.numberOfFactors());
       numStates_.resize(gm_.numberOfVariables());
@@ -326,7 +328,7 @@ namespace opengm {
          while(array_.front().conf.size() < numNodes_ && exitFlag==0) {
             expand(visitor);
             if(optConf_.empty()) { // afterwards, the heap bounds only the next best solution
-               ACC::iop(array_.front().value, belowBound_); // never worse than before
+               ACC::iop(better(array_.front().value, prunedBound_), belowBound_); // never worse than before
             }
             exitFlag = visitor(*this); 
             //visitor(*this, array_.front().conf, array_.size(), array_.front().value, globalBound_, time);
@@ -334,7 +336,7 @@ namespace opengm {
          if(array_.front().conf.size()>=numNodes_){
             ValueType  value = array_.front().value;
             if(optConf_.empty()) {
-               ACC::iop(value, belowBound_);
+               ACC::iop(better(value, prunedBound_), belowBound_);
             }
             std::vector<LabelType> conf(numNodes_);
             for(size_t n=0; n<numNodes_; ++n) {
@@ -397,11 +399,6 @@ namespace opengm {
    template<class VisitorType>
    void AStar<GM, ACC>::expand(VisitorType& visitor)
    {
-      //CHECK HEAP SIZE
-      if(array_.size()>parameter_.maxHeapSize_*0.99) {
-         partial_sort(array_.begin(), array_.begin()+(int)(parameter_.maxHeapSize_/2), array_.end(),  comp2);
-         array_.resize((int)(parameter_.maxHeapSize_/2));
-      }
       //GET HEAP HEAD
       AStarNode<IndependentFactorType> a           = array_.front();
       size_t            subconfsize = a.conf.size();
@@ -409,6 +406,14 @@ namespace opengm {
       OPENGM_ASSERT(array_.size() > 0);
       pop_heap(array_.begin(), array_.end(),  comp1); //greater<FactorType,Accumulation>);
       array_.pop_back();
+      //CHECK HEAP SIZE
+      if(array_.size()>parameter_.maxHeapSize_*0.99) {
+         partial_sort(array_.begin(), array_.begin()+(int)(parameter_.maxHeapSize_/2), array_.end(),  comp2);
+         for(size_t i=(size_t)(parameter_.maxHeapSize_/2); i<array_.size(); ++i) { // keeps the bound valid
+            ACC::op(array_[i].value, prunedBound_);
+         }
+         array_.resize((int)(parameter_.maxHeapSize_/2));
+      }
       if( parameter_.heuristic_ == parameter_.STANDARDHEURISTIC) { 
 
          //BUILD GRAPHICAL MODEL FOR HEURISTC CALCULATION
-- 
2.43.0

