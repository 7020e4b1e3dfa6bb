From f8ff06c32e251f9345ab4e147dd01775d76e1b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:21:17 +0000
Subject: [PATCH 01/28] fix: use the global maximum horizon when exchanging
 points for the neighbor search

A point was sent only to processors within its own horizon, so points with a
larger horizon on another processor could miss it.  Use the maximum horizon over
all processors for the frame set and for the exchange.
---
 src/io/pdneigh/NeighborhoodList.cxx | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/io/pdneigh/NeighborhoodList.cxx b/src/io/pdneigh/NeighborhoodList.cxx
index 0ebf8aa..20cf681 100644
--- a/src/io/pdneigh/NeighborhoodList.cxx
+++ b/src/io/pdneigh/NeighborhoodList.cxx
@@ -378,12 +378,16 @@ void NeighborhoodList::createAndAddNeighborhood(){
 
   enum {COMM_CREATE=9,COMM_DO=10};
 
-  // Find the maximum horizon and use this to create the frame set
-  double maxHorizon = 0.0;
+  // Find the maximum horizon over all processors and use this to create the frame set
+  // A point is a neighbor of an off-processor point if it falls within the horizon of the
+  // off-processor point, which may be larger than any horizon on this processor
+  double localMaxHorizon = 0.0;
   for(int i=0 ; i<horizons->MyLength() ; ++i){
-    if((*horizons)[i] > maxHorizon)
-      maxHorizon = (*horizons)[i];
+    if((*horizons)[i] > localMaxHorizon)
+      localMaxHorizon = (*horizons)[i];
   }
+  double maxHorizon = 0.0;
+  epetraComm->MaxAll(&localMaxHorizon, &maxHorizon, 1);
 
 //  shared_ptr< std::set<int> > frameSet = constructParallelDecompositionFrameSet();
   shared_ptr< std::set<int> > frameSet = UTILITIES::constructFrameSet(num_owned_points,owned_x,maxHorizon);
@@ -428,8 +432,6 @@ void NeighborhoodList::createAndAddNeighborhood(){
     int numProcsPoint;
     std::set<int>::iterator myPointsIter = frameSet->begin();
     double *x = owned_x.get();
-    double *horizon;
-    horizons->ExtractView(&horizon);
 
     for(;myPointsIter!=frameSet->end();myPointsIter++){
 
@@ -438,8 +440,7 @@ void NeighborhoodList::createAndAddNeighborhood(){
        */
       int id = *myPointsIter;
       const double *xP = x+dimension*id;
-            const double *horizonP = horizon+id;
-      PointCenteredBoundingBox bb(xP,*horizonP);
+      PointCenteredBoundingBox bb(xP,maxHorizon);
 //      if(1==rank){
 //        std::cout << "localId, x,y,z = " << id << ", " << *xP << ", " << *(xP+1) << ", " << *(xP+2) << std::endl;
 //        std::cout << "xMin, xMax " << bb.get_xMin() << ", " << bb.get_xMax() << std::endl;
-- 
2.43.0


From eafde0e0781a2638b94c4872853e4ec32325a671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:22:10 +0000
Subject: [PATCH 02/28] fix: allow processors without points in the frame set
 construction

With fewer points than processors, constructFrameSet() dereferenced the first
entry of an empty map and the program crashed.
---
 src/io/utilities/Sortable.cxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/io/utilities/Sortable.cxx b/src/io/utilities/Sortable.cxx
index ceb9a7a..773adf0 100644
--- a/src/io/utilities/Sortable.cxx
+++ b/src/io/utilities/Sortable.cxx
@@ -224,6 +224,10 @@ Array<int> getPointsInNeighborhoodOfAxisAlignedMaximumValue
 
 shared_ptr< std::set<int> > constructFrameSet(size_t num_owned_points, shared_ptr<double> owned_x, double horizon) {
 
+  // A processor without points has an empty frame set
+  if(num_owned_points == 0)
+    return shared_ptr< std::set<int> >(new std::set<int>);
+
   Sortable points(num_owned_points, owned_x);
 
   size_t numAxes=3;
-- 
2.43.0


From c9da63922907b0b3cedf3fdd07328b5d9dc623c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:27:45 +0000
Subject: [PATCH 03/28] fix: include points exactly one horizon from the
 maximum in the frame set

The lower end of the frame set was open while the upper end and the neighbor
search are closed.  When points with equal coordinates were split between
processors, a bond of length equal to the horizon could be lost on one side.
---
 src/io/utilities/Sortable.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/utilities/Sortable.cxx b/src/io/utilities/Sortable.cxx
index 773adf0..e9bb4e7 100644
--- a/src/io/utilities/Sortable.cxx
+++ b/src/io/utilities/Sortable.cxx
@@ -294,7 +294,7 @@ shared_ptr< std::set<int> > constructFrameSet(size_t num_owned_points, shared_pt
       double value = max - horizon;
       const Sortable::SearchIterator start=points.begin(comp,map_component.get_shared_ptr());
       const Sortable::SearchIterator end=start+num_owned_points;
-      Sortable::SearchIterator glb = std::upper_bound(start,end,value);
+      Sortable::SearchIterator glb = std::lower_bound(start,end,value);
       frameSetPtr->insert(glb.mapIterator(),glb.mapEnd());
     }
   }
-- 
2.43.0


From a8c16dbb2ac15d22ac64145751e73a05146d2efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:50:29 +0000
Subject: [PATCH 04/28] fix: omit bonds between blocks for any block numbering

The block bonding matrix was indexed by block id minus one, which is out of
bounds unless blocks are numbered consecutively from one.  Compare the block ids
of the two points instead.
---
 .../Peridigm_TextFileDiscretization.cpp       | 21 ++++---------------
 1 file changed, 4 insertions(+), 17 deletions(-)

diff --git a/src/io/discretization/Peridigm_TextFileDiscretization.cpp b/src/io/discretization/Peridigm_TextFileDiscretization.cpp
index 6089c12..835c095 100644
--- a/src/io/discretization/Peridigm_TextFileDiscretization.cpp
+++ b/src/io/discretization/Peridigm_TextFileDiscretization.cpp
@@ -352,25 +352,12 @@ PeridigmNS::TextFileDiscretization::createNeighborhoodData(const QUICKGRID::Data
 Teuchos::RCP<PeridigmNS::NeighborhoodData>
 PeridigmNS::TextFileDiscretization::filterBonds(Teuchos::RCP<PeridigmNS::NeighborhoodData> unfilteredNeighborhoodData)
 {
-  // Set up a block bonding matrix, which defines whether or not bonds should be formed across blocks
-  int numBlocks = getNumBlocks();
-  std::vector< std::vector<bool> > blockBondingMatrix(numBlocks);
-  for(int i=0 ; i<numBlocks ; ++i){
-    blockBondingMatrix[i].resize(numBlocks, true);
-  }
-
   if(bondFilterCommand == "None"){
-    // All blocks are bonded, the blockBondingMatrix is unchanged
+    // All blocks are bonded
     return unfilteredNeighborhoodData;
   }
   else if(bondFilterCommand == "All"){
-    // No blocks are bonded, the blockBondingMatrix is the identity matrix
-    for(int i=0 ; i<numBlocks ; ++i){
-      for(int j=0 ; j<numBlocks ; ++j){
-        if(i != j)
-          blockBondingMatrix[i][j] = false;
-      }
-    }
+    // No blocks are bonded, bonds between points in different blocks are omitted below
   }
   else{
     string msg = "**** Error, unrecognized value for \"Omit Bonds Between Blocks\":  ";
@@ -387,7 +374,7 @@ PeridigmNS::TextFileDiscretization::filterBonds(Teuchos::RCP<PeridigmNS::Neighbo
   Teuchos::RCP<Epetra_Vector> ownedBlockIDs = getBlockID();
   blockIDs.Import(*ownedBlockIDs, importer, Insert);
 
-  // Apply the block bonding matrix and create a new NeighborhoodData
+  // Omit the bonds between blocks and create a new NeighborhoodData
   Teuchos::RCP<PeridigmNS::NeighborhoodData> neighborhoodData = Teuchos::rcp(new PeridigmNS::NeighborhoodData);
   neighborhoodData->SetNumOwned(unfilteredNeighborhoodData->NumOwnedPoints());
   memcpy(neighborhoodData->OwnedIDs(), unfilteredNeighborhoodData->OwnedIDs(), neighborhoodData->NumOwnedPoints()*sizeof(int));
@@ -407,7 +394,7 @@ PeridigmNS::TextFileDiscretization::filterBonds(Teuchos::RCP<PeridigmNS::Neighbo
     for(int iNID=0 ; iNID<numUnfilteredNeighbors ; ++iNID){
       int unfilteredNeighborID = unfilteredNeighborhoodList[unfilteredNeighborhoodListIndex++];
       int unfilteredNeighborBlockID = static_cast<int>(blockIDs[unfilteredNeighborID]);
-      if(blockBondingMatrix[blockID-1][unfilteredNeighborBlockID-1] == true){
+      if(unfilteredNeighborBlockID == blockID){
         neighborhoodListVec.push_back(unfilteredNeighborID);
         numNeighbors += 1;
       }
-- 
2.43.0


From dccd0a55c8e339f5219c5e24f031fcf68414be26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:19:58 +0000
Subject: [PATCH 05/28] fix: keep full precision of numeric boundary condition
 values

---
 src/core/Peridigm_BoundaryCondition.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/Peridigm_BoundaryCondition.cpp b/src/core/Peridigm_BoundaryCondition.cpp
index d1129f5..65ce45c 100644
--- a/src/core/Peridigm_BoundaryCondition.cpp
+++ b/src/core/Peridigm_BoundaryCondition.cpp
@@ -48,6 +48,7 @@
 #include "Peridigm_BoundaryCondition.hpp"
 #include "Peridigm.hpp"
 #include <cmath>
+#include <limits>
 #include <sstream>
 
 
@@ -71,6 +72,7 @@ PeridigmNS::BoundaryCondition::BoundaryCondition(const string & name_,
   coord = to_index(to_spatial_coordinate(bcParams));
   if(bcParams.isType<double>("Value")){
     std::stringstream ss;
+    ss.precision(std::numeric_limits<double>::digits10 + 2);
     ss << bcParams.get<double>("Value");
     bcParams.set("Value", ss.str());
   }
-- 
2.43.0


From b9ad574d0ee8bf3e06b798e1d27847dd30c6ebc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:19:58 +0000
Subject: [PATCH 06/28] fix: reset the value of user-defined functions before
 each evaluation

---
 ...digm_UserDefinedTimeDependentShortRangeForceContactModel.cpp | 2 ++
 src/core/Peridigm_BoundaryCondition.cpp                         | 2 ++
 ...idigm_UserDefinedTimeDependentCriticalStretchDamageModel.cpp | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/src/contact/Peridigm_UserDefinedTimeDependentShortRangeForceContactModel.cpp b/src/contact/Peridigm_UserDefinedTimeDependentShortRangeForceContactModel.cpp
index e9f5d75..0592a68 100644
--- a/src/contact/Peridigm_UserDefinedTimeDependentShortRangeForceContactModel.cpp
+++ b/src/contact/Peridigm_UserDefinedTimeDependentShortRangeForceContactModel.cpp
@@ -127,6 +127,8 @@ void PeridigmNS::UserDefinedTimeDependentShortRangeForceContactModel::evaluatePa
   if(success)
     previousValue = rtcFunction->getValueOfVar("value");
   // evaluate at current time
+  if(success)
+    success = rtcFunction->varValueFill(1, 0.0);
   if(success)
     success = rtcFunction->varValueFill(0, timeCurrent);
   if(success)
diff --git a/src/core/Peridigm_BoundaryCondition.cpp b/src/core/Peridigm_BoundaryCondition.cpp
index 65ce45c..3581f4f 100644
--- a/src/core/Peridigm_BoundaryCondition.cpp
+++ b/src/core/Peridigm_BoundaryCondition.cpp
@@ -120,6 +120,8 @@ void PeridigmNS::BoundaryCondition::evaluateParser(const int & localNodeID, doub
   if(success)
     previousValue = rtcFunction->getValueOfVar("value");
   // evaluate at current time
+  if(success)
+    success = rtcFunction->varValueFill(4, 0.0);
   if(success)
     success = rtcFunction->varValueFill(3, timeCurrent);
   if(success)
diff --git a/src/damage/Peridigm_UserDefinedTimeDependentCriticalStretchDamageModel.cpp b/src/damage/Peridigm_UserDefinedTimeDependentCriticalStretchDamageModel.cpp
index c705cee..2d75eb8 100644
--- a/src/damage/Peridigm_UserDefinedTimeDependentCriticalStretchDamageModel.cpp
+++ b/src/damage/Peridigm_UserDefinedTimeDependentCriticalStretchDamageModel.cpp
@@ -116,6 +116,8 @@ void PeridigmNS::UserDefinedTimeDependentCriticalStretchDamageModel::evaluatePar
   if(success)
     previousValue = rtcFunction->getValueOfVar("value");
   // evaluate at current time
+  if(success)
+    success = rtcFunction->varValueFill(1, 0.0);
   if(success)
     success = rtcFunction->varValueFill(0, timeCurrent);
   if(success)
-- 
2.43.0


From 94d92fe170f0240d14087aab390a5d17c6f3f8fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:21:03 +0000
Subject: [PATCH 07/28] fix: keep broken bonds broken in the time-dependent
 critical stretch model

---
 ...digm_UserDefinedTimeDependentCriticalStretchDamageModel.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/damage/Peridigm_UserDefinedTimeDependentCriticalStretchDamageModel.cpp b/src/damage/Peridigm_UserDefinedTimeDependentCriticalStretchDamageModel.cpp
index 2d75eb8..c3d1b27 100644
--- a/src/damage/Peridigm_UserDefinedTimeDependentCriticalStretchDamageModel.cpp
+++ b/src/damage/Peridigm_UserDefinedTimeDependentCriticalStretchDamageModel.cpp
@@ -186,8 +186,7 @@ PeridigmNS::UserDefinedTimeDependentCriticalStretchDamageModel::computeDamage(co
   double nodeInitialX[3], nodeCurrentX[3], initialDistance, currentDistance, relativeExtension, totalDamage;
 
   // Set the bond damage to the previous value
-  dataManager.getData(m_bondDamageFieldId, PeridigmField::STEP_NP1) =
-    dataManager.getData(m_bondDamageFieldId, PeridigmField::STEP_N);
+  *(dataManager.getData(m_bondDamageFieldId, PeridigmField::STEP_NP1)) = *(dataManager.getData(m_bondDamageFieldId, PeridigmField::STEP_N));
 
   // Update the bond damage
   // Break bonds if the extension is greater than the critical extension
-- 
2.43.0


From f66795ffebf0c21efa91d130425434b41f070f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:34:49 +0000
Subject: [PATCH 08/28] fix: use the initial displacements in the first contact
 search

---
 src/core/Peridigm.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/core/Peridigm.cpp b/src/core/Peridigm.cpp
index e1c7884..186b0b3 100644
--- a/src/core/Peridigm.cpp
+++ b/src/core/Peridigm.cpp
@@ -734,8 +734,11 @@ PeridigmNS::Peridigm::Peridigm(const MPI_Comm& comm,
 
   // Call rebalance function if analysis has contact
   // this is required to set up proper contact neighbor list
-  if(analysisHasContact)
+  if(analysisHasContact){
+    // load the coordinates that result from the initial conditions
+    contactManager->importData(volume, y, v);
     contactManager->rebalance(0);
+  }
 
   // Create service manager
   serviceManager = Teuchos::rcp(new PeridigmNS::ServiceManager());
-- 
2.43.0


From 8b038bab78bd5d497c0e4ead7ef247498a6a8866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:02:22 +0000
Subject: [PATCH 09/28] fix: describe global output variables on processors
 without points

Every processor writes the global variables, but a processor without points
did not define them in its file first, so the write failed there and the
other processors waited forever.
---
 src/io/Peridigm_OutputManager_ExodusII.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/Peridigm_OutputManager_ExodusII.cpp b/src/io/Peridigm_OutputManager_ExodusII.cpp
index ea5fe7d..55c7e0a 100644
--- a/src/io/Peridigm_OutputManager_ExodusII.cpp
+++ b/src/io/Peridigm_OutputManager_ExodusII.cpp
@@ -791,7 +791,7 @@ void PeridigmNS::OutputManager_ExodusII::initializeExodusDatabase(Teuchos::RCP<
   // Write global var info
   int num_global_vars = global_output_field_map.size();
   char **global_var_names = NULL;
-  if(num_global_vars > 0 && haveData){
+  if(num_global_vars > 0){
     char **global_var_names = new char*[num_global_vars];
     for(i=0;i<num_global_vars;i++) global_var_names[i] = new char[MAX_STR_LENGTH+1]; // MAX_STR_LENGTH defined in ExodusII.h
     for(std::map<string,int>::iterator it=global_output_field_map.begin() ; it != global_output_field_map.end(); it++ )
-- 
2.43.0


From 82ad711f6e676f05672baff62679685b4ab1e8a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:02:22 +0000
Subject: [PATCH 10/28] fix: start maximum of block and node set data below any
 value

DBL_MIN is the smallest positive number, so the maximum of negative data was
reported as a tiny positive value.
---
 src/compute/Peridigm_Compute_Block_Data.cpp    | 2 +-
 src/compute/Peridigm_Compute_Node_Set_Data.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/compute/Peridigm_Compute_Block_Data.cpp b/src/compute/Peridigm_Compute_Block_Data.cpp
index 4eb3fa0..18c1608 100644
--- a/src/compute/Peridigm_Compute_Block_Data.cpp
+++ b/src/compute/Peridigm_Compute_Block_Data.cpp
@@ -132,7 +132,7 @@ int PeridigmNS::Compute_Block_Data::compute( Teuchos::RCP< std::vector<PeridigmN
   }
   else if(m_calculationType == MAXIMUM){
     for(int i=0 ; i<3 ; ++i)
-      localData[i] = DBL_MIN;
+      localData[i] = -DBL_MAX;
   }
   else if(m_calculationType == SUM){
     for(int i=0 ; i<3 ; ++i)
diff --git a/src/compute/Peridigm_Compute_Node_Set_Data.cpp b/src/compute/Peridigm_Compute_Node_Set_Data.cpp
index 8a2f155..c5f05d3 100644
--- a/src/compute/Peridigm_Compute_Node_Set_Data.cpp
+++ b/src/compute/Peridigm_Compute_Node_Set_Data.cpp
@@ -149,7 +149,7 @@ int PeridigmNS::Compute_Node_Set_Data::compute( Teuchos::RCP< std::vector<Peridi
   }
   else if(m_calculationType == MAXIMUM){
     for(int i=0 ; i<3 ; ++i)
-      localData[i] = DBL_MIN;
+      localData[i] = -DBL_MAX;
   }
   else if(m_calculationType == SUM){
     for(int i=0 ; i<3 ; ++i)
-- 
2.43.0


From 7a5925a1a023803d7d349e65f927cc01b4a1b881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:02:22 +0000
Subject: [PATCH 11/28] fix: add up the momentum of all blocks before taking
 its magnitude

The magnitudes of the blocks were added instead, so blocks moving in different
directions did not cancel.
---
 .../Peridigm_Compute_Angular_Momentum.cpp     | 20 +++++++++++--------
 .../Peridigm_Compute_Linear_Momentum.cpp      | 20 +++++++++++--------
 2 files changed, 24 insertions(+), 16 deletions(-)

diff --git a/src/compute/Peridigm_Compute_Angular_Momentum.cpp b/src/compute/Peridigm_Compute_Angular_Momentum.cpp
index 34b2549..6964a6c 100644
--- a/src/compute/Peridigm_Compute_Angular_Momentum.cpp
+++ b/src/compute/Peridigm_Compute_Angular_Momentum.cpp
@@ -85,6 +85,7 @@ int PeridigmNS::Compute_Angular_Momentum::computeAngularMomentum( Teuchos::RCP<
   int retval;
 
   double globalAM = 0.0;
+  std::vector<double> localAngularMomentum(3, 0.0);
   Teuchos::RCP<Epetra_Vector> velocity,  arm, volume, angular_momentum;
   std::vector<Block>::iterator blockIt;
   for(blockIt = blocks->begin() ; blockIt != blocks->end() ; blockIt++)
@@ -144,16 +145,19 @@ int PeridigmNS::Compute_Angular_Momentum::computeAngularMomentum( Teuchos::RCP<
     
     if (!storeLocal)
     {
-      // Update info across processors
-      std::vector<double> localAngularMomentum(3), globalAngularMomentum(3);
-      localAngularMomentum[0] = angular_momentum_x;
-      localAngularMomentum[1] = angular_momentum_y;
-      localAngularMomentum[2] = angular_momentum_z;
+      localAngularMomentum[0] += angular_momentum_x;
+      localAngularMomentum[1] += angular_momentum_y;
+      localAngularMomentum[2] += angular_momentum_z;
+    }
+  }
 
-      epetraComm->SumAll(&localAngularMomentum[0], &globalAngularMomentum[0], 3);
+  if (!storeLocal)
+  {
+    // Update info across processors
+    std::vector<double> globalAngularMomentum(3);
+    epetraComm->SumAll(&localAngularMomentum[0], &globalAngularMomentum[0], 3);
 
-      globalAM += sqrt(globalAngularMomentum[0]*globalAngularMomentum[0] + globalAngularMomentum[1]*globalAngularMomentum[1] + globalAngularMomentum[2]*globalAngularMomentum[2]);
-    }
+    globalAM = sqrt(globalAngularMomentum[0]*globalAngularMomentum[0] + globalAngularMomentum[1]*globalAngularMomentum[1] + globalAngularMomentum[2]*globalAngularMomentum[2]);
   }
 
   // Store global angular momentum
diff --git a/src/compute/Peridigm_Compute_Linear_Momentum.cpp b/src/compute/Peridigm_Compute_Linear_Momentum.cpp
index ac45d86..cc2e54e 100644
--- a/src/compute/Peridigm_Compute_Linear_Momentum.cpp
+++ b/src/compute/Peridigm_Compute_Linear_Momentum.cpp
@@ -83,6 +83,7 @@ int PeridigmNS::Compute_Linear_Momentum::computeLinearMomentum( Teuchos::RCP< st
   int retval;
 
   double globalLM = 0.0;
+  std::vector<double> localLinearMomentum(3, 0.0);
   Teuchos::RCP<Epetra_Vector> velocity, volume, linear_momentum;
   std::vector<Block>::iterator blockIt;
   for(blockIt = blocks->begin() ; blockIt != blocks->end() ; blockIt++)
@@ -137,16 +138,19 @@ int PeridigmNS::Compute_Linear_Momentum::computeLinearMomentum( Teuchos::RCP< st
 
     if (!storeLocal)
     {
-      // Update info across processors
-      std::vector<double> localLinearMomentum(3), globalLinearMomentum(3);
-      localLinearMomentum[0] = linear_momentum_x;
-      localLinearMomentum[1] = linear_momentum_y;
-      localLinearMomentum[2] = linear_momentum_z;
+      localLinearMomentum[0] += linear_momentum_x;
+      localLinearMomentum[1] += linear_momentum_y;
+      localLinearMomentum[2] += linear_momentum_z;
+    }
+  }
 
-      epetraComm->SumAll(&localLinearMomentum[0], &globalLinearMomentum[0], 3);
+  if (!storeLocal)
+  {
+    // Update info across processors
+    std::vector<double> globalLinearMomentum(3);
+    epetraComm->SumAll(&localLinearMomentum[0], &globalLinearMomentum[0], 3);
 
-      globalLM += sqrt(globalLinearMomentum[0]*globalLinearMomentum[0] + globalLinearMomentum[1]*globalLinearMomentum[1] + globalLinearMomentum[2]*globalLinearMomentum[2]);
-    }
+    globalLM = sqrt(globalLinearMomentum[0]*globalLinearMomentum[0] + globalLinearMomentum[1]*globalLinearMomentum[1] + globalLinearMomentum[2]*globalLinearMomentum[2]);
   }
 
 /*
-- 
2.43.0


From 8c45b0b8634c3b12b384b79ac9c0fbbdf76d4bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:37:50 +0000
Subject: [PATCH 12/28] fix: allow data managers that hold only constant or
 only two-step fields

---
 src/core/Peridigm_DataManager.cpp | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/core/Peridigm_DataManager.cpp b/src/core/Peridigm_DataManager.cpp
index 9da5bd9..40f59b1 100644
--- a/src/core/Peridigm_DataManager.cpp
+++ b/src/core/Peridigm_DataManager.cpp
@@ -298,6 +298,10 @@ void PeridigmNS::DataManager::scatterToGhosts()
     else if(iState == 2)
       state = stateNP1;
 
+    // The State is not allocated if there are no fields of this kind
+    if(state.is_null())
+      continue;
+
     for(int iMultiVector = 0 ; iMultiVector < state->getMaxPointDataElementSize() ; ++iMultiVector){
 
       PeridigmField::Length length;      
@@ -516,13 +520,13 @@ bool PeridigmNS::DataManager::hasData(int fieldId, PeridigmField::Step step)
 
   // Check for data in State objects
   if(step == PeridigmField::STEP_NONE){
-    hasData = stateNONE->hasData(fieldId);
+    hasData = !stateNONE.is_null() && stateNONE->hasData(fieldId);
   }
   else if(step == PeridigmField::STEP_N){
-    hasData = stateN->hasData(fieldId);
+    hasData = !stateN.is_null() && stateN->hasData(fieldId);
   }
   else if(step == PeridigmField::STEP_NP1){
-    hasData = stateNP1->hasData(fieldId);
+    hasData = !stateNP1.is_null() && stateNP1->hasData(fieldId);
   }
   else{
     TEUCHOS_TEST_FOR_EXCEPTION(false, Teuchos::RangeError,
@@ -547,13 +551,16 @@ Teuchos::RCP<Epetra_Vector> PeridigmNS::DataManager::getData(int fieldId, Peridi
   }
   else{
     if(step == PeridigmField::STEP_NONE){
-      data = stateNONE->getData(fieldId);
+      if(!stateNONE.is_null())
+        data = stateNONE->getData(fieldId);
     }
     else if(step == PeridigmField::STEP_N){
-      data = stateN->getData(fieldId);
+      if(!stateN.is_null())
+        data = stateN->getData(fieldId);
     }
     else if(step == PeridigmField::STEP_NP1){
-      data = stateNP1->getData(fieldId);
+      if(!stateNP1.is_null())
+        data = stateNP1->getData(fieldId);
     }
     else{
       TEUCHOS_TEST_FOR_EXCEPTION(false, Teuchos::RangeError, 
-- 
2.43.0


From 0a6bc1a1947ded2abcf028e777b529d38aed2bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:44:15 +0000
Subject: [PATCH 13/28] fix: keep points unique when a discretization is load
 balanced repeatedly

---
 src/io/pdneigh/PdZoltan.cxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/io/pdneigh/PdZoltan.cxx b/src/io/pdneigh/PdZoltan.cxx
index a334005..070b893 100644
--- a/src/io/pdneigh/PdZoltan.cxx
+++ b/src/io/pdneigh/PdZoltan.cxx
@@ -234,6 +234,9 @@ QuickGridData& getLoadBalancedDiscretization(QuickGridData& pdGridData){
 //  std::cout << "getLoadBalancedDiscretization(QuickGridData& pdGridData) A"  << std::endl; std::cout.flush();
   pdGridData.zoltanPtr = shared_ptr<struct Zoltan_Struct>(zoltan,ZoltanDestroyer());
 
+  // Nothing has been unpacked yet (pdGridData may have been balanced before)
+  pdGridData.unPack = true;
+
   /* Query functions, to provide geometry to Zoltan */
 
 
-- 
2.43.0


From c20ce0ff5f18081c65e747c2568b0579a74d9c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:40:34 +0000
Subject: [PATCH 14/28] fix: reject a restart whose files cannot be read

---
 src/core/Peridigm.cpp       | 34 +++++++++++++++++++---------------
 src/core/Peridigm_State.cpp |  6 ++++--
 2 files changed, 23 insertions(+), 17 deletions(-)

diff --git a/src/core/Peridigm.cpp b/src/core/Peridigm.cpp
index 186b0b3..9310061 100644
--- a/src/core/Peridigm.cpp
+++ b/src/core/Peridigm.cpp
@@ -4530,6 +4530,10 @@ void PeridigmNS::Peridigm::writeRestart(Teuchos::RCP<Teuchos::ParameterList> sol
   }
 }
 
+static void checkRestartFile(int errorCode, const std::string& fileName){
+  TEUCHOS_TEST_FOR_EXCEPT_MSG(errorCode != 0, "**** Error:  Restart file could not be read: " + fileName + "\n");
+}
+
 void PeridigmNS::Peridigm::readRestart(Teuchos::RCP<Teuchos::ParameterList> solverParams){
   double* UpdatePtr;
   double* oldPtr;
@@ -4567,63 +4571,63 @@ void PeridigmNS::Peridigm::readRestart(Teuchos::RCP<Teuchos::ParameterList> solv
     }
   }else{
     //read block ID
-    EpetraExt::MatrixMarketFileToVector(restartFiles["blockIDs"].c_str(), *oneDimensionalMap, vectorUpdate);
+    checkRestartFile(EpetraExt::MatrixMarketFileToVector(restartFiles["blockIDs"].c_str(), *oneDimensionalMap, vectorUpdate), restartFiles["blockIDs"]);
     vectorUpdate->ExtractView(&UpdatePtr);
     blockIDs->ExtractView(&oldPtr);
     blas.COPY(blockIDs->MyLength(), UpdatePtr, oldPtr);
     //read horizon for each point
-    EpetraExt::MatrixMarketFileToVector(restartFiles["horizon"].c_str(), *oneDimensionalMap, vectorUpdate);
+    checkRestartFile(EpetraExt::MatrixMarketFileToVector(restartFiles["horizon"].c_str(), *oneDimensionalMap, vectorUpdate), restartFiles["horizon"]);
     vectorUpdate->ExtractView(&UpdatePtr);
     horizon->ExtractView(&oldPtr);
     blas.COPY(horizon->MyLength(), UpdatePtr, oldPtr);
     //read cell volume
-    EpetraExt::MatrixMarketFileToVector(restartFiles["volume"].c_str(), *oneDimensionalMap, vectorUpdate);
+    checkRestartFile(EpetraExt::MatrixMarketFileToVector(restartFiles["volume"].c_str(), *oneDimensionalMap, vectorUpdate), restartFiles["volume"]);
     vectorUpdate->ExtractView(&UpdatePtr);
     volume->ExtractView(&oldPtr);
     blas.COPY(volume->MyLength(), UpdatePtr, oldPtr);
     //read density
-    EpetraExt::MatrixMarketFileToVector(restartFiles["density"].c_str(), *oneDimensionalMap, vectorUpdate);
+    checkRestartFile(EpetraExt::MatrixMarketFileToVector(restartFiles["density"].c_str(), *oneDimensionalMap, vectorUpdate), restartFiles["density"]);
     vectorUpdate->ExtractView(&UpdatePtr);
     density->ExtractView(&oldPtr);
     blas.COPY(density->MyLength(), UpdatePtr, oldPtr);
     //read change in temperature
-    EpetraExt::MatrixMarketFileToVector(restartFiles["deltaTemperature"].c_str(), *oneDimensionalMap, vectorUpdate);
+    checkRestartFile(EpetraExt::MatrixMarketFileToVector(restartFiles["deltaTemperature"].c_str(), *oneDimensionalMap, vectorUpdate), restartFiles["deltaTemperature"]);
     vectorUpdate->ExtractView(&UpdatePtr);
     deltaTemperature->ExtractView(&oldPtr);
     blas.COPY(deltaTemperature->MyLength(), UpdatePtr, oldPtr);
   }
     //read initial positions
-    EpetraExt::MatrixMarketFileToVector(restartFiles["x"].c_str(), *threeDimensionalMap, vectorUpdate);
+    checkRestartFile(EpetraExt::MatrixMarketFileToVector(restartFiles["x"].c_str(), *threeDimensionalMap, vectorUpdate), restartFiles["x"]);
     vectorUpdate->ExtractView(&UpdatePtr);
     x->ExtractView(&oldPtr);
     blas.COPY(x->MyLength(), UpdatePtr, oldPtr);
     //read displacement
-    EpetraExt::MatrixMarketFileToVector(restartFiles["u"].c_str(), *threeDimensionalMap, vectorUpdate);
+    checkRestartFile(EpetraExt::MatrixMarketFileToVector(restartFiles["u"].c_str(), *threeDimensionalMap, vectorUpdate), restartFiles["u"]);
     vectorUpdate->ExtractView(&UpdatePtr);
     u->ExtractView(&oldPtr);
     blas.COPY(u->MyLength(), UpdatePtr, oldPtr);
     //read current positions
-    EpetraExt::MatrixMarketFileToVector(restartFiles["y"].c_str(), *threeDimensionalMap, vectorUpdate);
+    checkRestartFile(EpetraExt::MatrixMarketFileToVector(restartFiles["y"].c_str(), *threeDimensionalMap, vectorUpdate), restartFiles["y"]);
     vectorUpdate->ExtractView(&UpdatePtr);
     y->ExtractView(&oldPtr);
     blas.COPY(y->MyLength(), UpdatePtr, oldPtr);
     //read velocities
-    EpetraExt::MatrixMarketFileToVector(restartFiles["v"].c_str(), *threeDimensionalMap, vectorUpdate);
+    checkRestartFile(EpetraExt::MatrixMarketFileToVector(restartFiles["v"].c_str(), *threeDimensionalMap, vectorUpdate), restartFiles["v"]);
     vectorUpdate->ExtractView(&UpdatePtr);
     v->ExtractView(&oldPtr);
     blas.COPY(v->MyLength(), UpdatePtr, oldPtr);
     //read accelerations
-    EpetraExt::MatrixMarketFileToVector(restartFiles["a"].c_str(), *threeDimensionalMap, vectorUpdate);
+    checkRestartFile(EpetraExt::MatrixMarketFileToVector(restartFiles["a"].c_str(), *threeDimensionalMap, vectorUpdate), restartFiles["a"]);
     vectorUpdate->ExtractView(&UpdatePtr);
     a->ExtractView(&oldPtr);
     blas.COPY(a->MyLength(), UpdatePtr, oldPtr);
     //read force
-    EpetraExt::MatrixMarketFileToVector(restartFiles["force"].c_str(), *threeDimensionalMap, vectorUpdate);
+    checkRestartFile(EpetraExt::MatrixMarketFileToVector(restartFiles["force"].c_str(), *threeDimensionalMap, vectorUpdate), restartFiles["force"]);
     vectorUpdate->ExtractView(&UpdatePtr);
     force->ExtractView(&oldPtr);
     blas.COPY(force->MyLength(), UpdatePtr, oldPtr);
     //read contact force
-    EpetraExt::MatrixMarketFileToVector(restartFiles["contactForce"].c_str(), *threeDimensionalMap, vectorUpdate);
+    checkRestartFile(EpetraExt::MatrixMarketFileToVector(restartFiles["contactForce"].c_str(), *threeDimensionalMap, vectorUpdate), restartFiles["contactForce"]);
     vectorUpdate->ExtractView(&UpdatePtr);
     contactForce->ExtractView(&oldPtr);
     blas.COPY(contactForce->MyLength(), UpdatePtr, oldPtr);
@@ -4631,17 +4635,17 @@ void PeridigmNS::Peridigm::readRestart(Teuchos::RCP<Teuchos::ParameterList> solv
     UpdatePtr = 0;
     oldPtr = 0;
     //read external force
-    EpetraExt::MatrixMarketFileToVector(restartFiles["externalForce"].c_str(), *threeDimensionalMap, vectorUpdate);
+    checkRestartFile(EpetraExt::MatrixMarketFileToVector(restartFiles["externalForce"].c_str(), *threeDimensionalMap, vectorUpdate), restartFiles["externalForce"]);
     vectorUpdate->ExtractView(&UpdatePtr);
     externalForce->ExtractView(&oldPtr);
     blas.COPY(externalForce->MyLength(), UpdatePtr, oldPtr);
     //read deltaU (increment in displacement)
-    EpetraExt::MatrixMarketFileToVector(restartFiles["deltaU"].c_str(), *threeDimensionalMap, vectorUpdate);
+    checkRestartFile(EpetraExt::MatrixMarketFileToVector(restartFiles["deltaU"].c_str(), *threeDimensionalMap, vectorUpdate), restartFiles["deltaU"]);
     vectorUpdate->ExtractView(&UpdatePtr);
     deltaU->ExtractView(&oldPtr);
     blas.COPY(deltaU->MyLength(), UpdatePtr, oldPtr);
     //read scratch
-    EpetraExt::MatrixMarketFileToVector(restartFiles["scratch"].c_str(), *threeDimensionalMap, vectorUpdate);
+    checkRestartFile(EpetraExt::MatrixMarketFileToVector(restartFiles["scratch"].c_str(), *threeDimensionalMap, vectorUpdate), restartFiles["scratch"]);
     vectorUpdate->ExtractView(&UpdatePtr);
     scratch->ExtractView(&oldPtr);
     blas.COPY(scratch->MyLength(), UpdatePtr, oldPtr);
diff --git a/src/core/Peridigm_State.cpp b/src/core/Peridigm_State.cpp
index 74d6cc6..9758c7c 100644
--- a/src/core/Peridigm_State.cpp
+++ b/src/core/Peridigm_State.cpp
@@ -193,14 +193,16 @@ void PeridigmNS::State::readStateData(Teuchos::RCP<PeridigmNS::State> source,  s
   for(unsigned int i=0 ; i<pointData.size() ; ++i){
     if(!pointData[i].is_null()){
       sprintf(VectorName,"%s%s_Element%d",blockName.c_str(),stateName.c_str(),i);
-      EpetraExt::MatrixMarketFileToMultiVector(restartStateFiles[VectorName].c_str(),(source->getPointMultiVector(i))->Map(), MultiVectorUpdate);
+      int errorCode = EpetraExt::MatrixMarketFileToMultiVector(restartStateFiles[VectorName].c_str(),(source->getPointMultiVector(i))->Map(), MultiVectorUpdate);
+      TEUCHOS_TEST_FOR_EXCEPT_MSG(errorCode != 0, "**** Error:  Restart file could not be read: " + restartStateFiles[VectorName] + "\n");
       copyLocallyOwnedMultiVectorData( *MultiVectorUpdate, *pointData[i] );
     }
   }
 
   if(!bondData.is_null()){
     sprintf(VectorName,"%s%s",blockName.c_str(),stateName.c_str());
-    EpetraExt::MatrixMarketFileToMultiVector(restartStateFiles[VectorName].c_str(),source->getBondMultiVector()->Map(), MultiVectorUpdate);
+    int errorCode = EpetraExt::MatrixMarketFileToMultiVector(restartStateFiles[VectorName].c_str(),source->getBondMultiVector()->Map(), MultiVectorUpdate);
+    TEUCHOS_TEST_FOR_EXCEPT_MSG(errorCode != 0, "**** Error:  Restart file could not be read: " + restartStateFiles[VectorName] + "\n");
     copyLocallyOwnedMultiVectorData( *MultiVectorUpdate, *bondData );
   }
 }
-- 
2.43.0


From 97ae4f79d507cdc40b978962151b2c7e2385e5df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:41:08 +0000
Subject: [PATCH 15/28] fix: save the restart time in full and compare it on
 all ranks

---
 src/core/Peridigm.cpp | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/src/core/Peridigm.cpp b/src/core/Peridigm.cpp
index 9310061..40aefba 100644
--- a/src/core/Peridigm.cpp
+++ b/src/core/Peridigm.cpp
@@ -4464,10 +4464,10 @@ void PeridigmNS::Peridigm::writeRestart(Teuchos::RCP<Teuchos::ParameterList> sol
   system(createDirectory);
   cout << "Writing restart files. \n" << endl;
 
-  double timeInitial = solverParams->get("Initial Time", 0.0);
-  currentTime += solverParams->get("Final Time", 1.0)-timeInitial;
+  currentTime = solverParams->get("Final Time", 1.0);
   ofstream outputFile;
   outputFile.open(restartFiles["currentTime"].c_str());
+  outputFile.precision(17);
   outputFile << "Current time is " << "\n" << currentTime  << "\n";
   outputFile.close();
   }
@@ -4550,18 +4550,15 @@ void PeridigmNS::Peridigm::readRestart(Teuchos::RCP<Teuchos::ParameterList> solv
       outputFile.close();
     }
     currentTime = atof(data.c_str());
-  }
-  if(peridigmComm->MyPID() == 0){
     cout <<"Reading restart. \n"<< endl;
     cout.flush();
-    double timeInitial = solverParams->get("Initial Time", 0.0);
-    if (currentTime != timeInitial){
-      char timeError[251];
-      sprintf(timeError, "Error, Incompatible times:\nPrevious restart final time is %e, while initial time is %e.\n",currentTime,timeInitial);
-      TEUCHOS_TEST_FOR_EXCEPT_MSG(true,timeError);
-      MPI_Finalize();
-      exit(0);
-    }
+  }
+  peridigmComm->Broadcast(&currentTime, 1, 0);
+  double timeInitial = solverParams->get("Initial Time", 0.0);
+  if (currentTime != timeInitial){
+    char timeError[251];
+    sprintf(timeError, "Error, Incompatible times:\nPrevious restart final time is %e, while initial time is %e.\n",currentTime,timeInitial);
+    TEUCHOS_TEST_FOR_EXCEPT_MSG(true,timeError);
   }
   if(analysisHasMultiphysics){
     if(peridigmComm->MyPID() == 0){
-- 
2.43.0


From cd2cfe90f9362f858a2df1f629bc985353b4e3c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:43:20 +0000
Subject: [PATCH 16/28] fix: report the state of the restart time in the first
 frame after a restart

---
 src/core/Peridigm_DataManager.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/Peridigm_DataManager.hpp b/src/core/Peridigm_DataManager.hpp
index b324604..6b4a85a 100644
--- a/src/core/Peridigm_DataManager.hpp
+++ b/src/core/Peridigm_DataManager.hpp
@@ -182,6 +182,8 @@ public:
     // StateNone is unaffected by restart so only StateN and StateNP1 are red
     getStateN()->readStateData(getStateN(),"StateN",blockName,path);
     getStateNP1()->readStateData(getStateNP1(),"StateNP1",blockName,path);
+    // The states were exchanged after the last step; StateN is the one that belongs to the time of the restart
+    getStateNP1()->copyLocallyOwnedDataFromState(getStateN());
   }
 
 protected:
-- 
2.43.0


From 1bc99aeb283c74704ae862515d4cddd7b05ad8c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:48:07 +0000
Subject: [PATCH 17/28] fix: reject a restart whose time file cannot be read

Without the file the saved time was taken to be zero, so that a run that
starts at time zero continued from a set that belongs to a later time.
---
 src/core/Peridigm.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core/Peridigm.cpp b/src/core/Peridigm.cpp
index 40aefba..ccfb000 100644
--- a/src/core/Peridigm.cpp
+++ b/src/core/Peridigm.cpp
@@ -4539,6 +4539,7 @@ void PeridigmNS::Peridigm::readRestart(Teuchos::RCP<Teuchos::ParameterList> solv
   double* oldPtr;
   Epetra_Vector * vectorUpdate;
   std::string trash, data;
+  int timeIsMissing = 0;
   if(peridigmComm->MyPID() == 0){
     //read global current time
     ifstream outputFile;
@@ -4549,10 +4550,13 @@ void PeridigmNS::Peridigm::readRestart(Teuchos::RCP<Teuchos::ParameterList> solv
       getline(outputFile,data);
       outputFile.close();
     }
+    timeIsMissing = data.empty() ? 1 : 0;
     currentTime = atof(data.c_str());
     cout <<"Reading restart. \n"<< endl;
     cout.flush();
   }
+  peridigmComm->Broadcast(&timeIsMissing, 1, 0);
+  checkRestartFile(timeIsMissing, restartFiles["currentTime"]);
   peridigmComm->Broadcast(&currentTime, 1, 0);
   double timeInitial = solverParams->get("Initial Time", 0.0);
   if (currentTime != timeInitial){
-- 
2.43.0


From f8ca442570aef77d8737d7a71e588f585fa7cf70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:53:01 +0000
Subject: [PATCH 18/28] fix: save the temperature in the restart files

The first frame after a restart showed the initial temperature at the
points whose temperature is prescribed.
---
 src/core/Peridigm.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/core/Peridigm.cpp b/src/core/Peridigm.cpp
index ccfb000..df13ac1 100644
--- a/src/core/Peridigm.cpp
+++ b/src/core/Peridigm.cpp
@@ -1031,6 +1031,10 @@ restartFiles["volume"] = pathname;
 sprintf(pathname,"%s/density.mat",restart_directory_namePtr);
 restartFiles["density"] = pathname;
 
+//temperature restart file
+sprintf(pathname,"%s/temperature.mat",restart_directory_namePtr);
+restartFiles["temperature"] = pathname;
+
 //deltaTemperature restart file
 sprintf(pathname,"%s/deltaTemperature.mat",restart_directory_namePtr);
 restartFiles["deltaTemperature"] = pathname;
@@ -4488,6 +4492,9 @@ void PeridigmNS::Peridigm::writeRestart(Teuchos::RCP<Teuchos::ParameterList> sol
     //write density
     EpetraExt::VectorToMatrixMarketFile(restartFiles["density"].c_str(),
       *density,"density","",true);
+    //write temperature
+    EpetraExt::VectorToMatrixMarketFile(restartFiles["temperature"].c_str(),
+      *temperature,"temperature","",true);
     //write change in temperature
     EpetraExt::VectorToMatrixMarketFile(restartFiles["deltaTemperature"].c_str(),
       *deltaTemperature,"deltaTemperature","",true);
@@ -4591,6 +4598,11 @@ void PeridigmNS::Peridigm::readRestart(Teuchos::RCP<Teuchos::ParameterList> solv
     vectorUpdate->ExtractView(&UpdatePtr);
     density->ExtractView(&oldPtr);
     blas.COPY(density->MyLength(), UpdatePtr, oldPtr);
+    //read temperature
+    checkRestartFile(EpetraExt::MatrixMarketFileToVector(restartFiles["temperature"].c_str(), *oneDimensionalMap, vectorUpdate), restartFiles["temperature"]);
+    vectorUpdate->ExtractView(&UpdatePtr);
+    temperature->ExtractView(&oldPtr);
+    blas.COPY(temperature->MyLength(), UpdatePtr, oldPtr);
     //read change in temperature
     checkRestartFile(EpetraExt::MatrixMarketFileToVector(restartFiles["deltaTemperature"].c_str(), *oneDimensionalMap, vectorUpdate), restartFiles["deltaTemperature"]);
     vectorUpdate->ExtractView(&UpdatePtr);
-- 
2.43.0


From 6a117c28990a43c7d0b181af136c381afafe0c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:01:50 +0000
Subject: [PATCH 19/28] fix: end a failed quasi-static run with an error

A run that gave up on a load step reported success.
---
 src/core/Peridigm.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/core/Peridigm.cpp b/src/core/Peridigm.cpp
index df13ac1..56e77cc 100644
--- a/src/core/Peridigm.cpp
+++ b/src/core/Peridigm.cpp
@@ -2913,6 +2913,7 @@ void PeridigmNS::Peridigm::executeQuasiStatic(Teuchos::RCP<Teuchos::ParameterLis
           convergenceHasFailedInThisStep = true;
         }
         else{
+          failedQS = true;
           if(peridigmComm->MyPID() == 0)
             cout << "\nError:  Aborting analysis.\n" << endl;
           break;
@@ -3005,10 +3006,7 @@ void PeridigmNS::Peridigm::executeQuasiStatic(Teuchos::RCP<Teuchos::ParameterLis
 
   } // end loop over load steps
 
-  if(!switchToExplicit && failedQS){
-    if(peridigmComm->MyPID() == 0)
-      cout << "\nError: Number of Quasi-Static solver convergence failures was more than the maximum allowable number of failures." << endl;
-  }
+  TEUCHOS_TEST_FOR_EXCEPT_MSG(!switchToExplicit && failedQS, "\n****Error: Number of Quasi-Static solver convergence failures was more than the maximum allowable number of failures.\n");
 
   if(switchToExplicit && failedQS){
     if(peridigmComm->MyPID() == 0){
-- 
2.43.0


From f83413e64943b43e32e6f389b837ab07b678b874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:01:50 +0000
Subject: [PATCH 20/28] fix: end reduced quasi-static load steps at the final
 time

With all remaining load steps reduced, the last one went past the final
time unless the reduced step divided the remaining time.
---
 src/core/Peridigm.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/core/Peridigm.cpp b/src/core/Peridigm.cpp
index 56e77cc..8322cc6 100644
--- a/src/core/Peridigm.cpp
+++ b/src/core/Peridigm.cpp
@@ -2936,7 +2936,10 @@ void PeridigmNS::Peridigm::executeQuasiStatic(Teuchos::RCP<Teuchos::ParameterLis
       timeSteps.erase(timeSteps.begin()+step+1, timeSteps.end());
       int i=0;
       while(timeSteps[step+i]<timeFinal){
-        timeSteps.push_back(timeCurrent + (i+1)*timeIncrement);
+        double nextTime = timeCurrent + (i+1)*timeIncrement;
+        if(nextTime > timeFinal - 1.0e-6*timeIncrement)
+          nextTime = timeFinal;
+        timeSteps.push_back(nextTime);
         i++;
       }
     }
-- 
2.43.0


From de41815ff27679812abc5251575f9957a1408a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:50:27 +0000
Subject: [PATCH 21/28] fix: reject an explicit time step that is not positive

---
 src/core/Peridigm.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core/Peridigm.cpp b/src/core/Peridigm.cpp
index 8322cc6..ea5625e 100644
--- a/src/core/Peridigm.cpp
+++ b/src/core/Peridigm.cpp
@@ -1322,6 +1322,8 @@ void PeridigmNS::Peridigm::executeExplicit(Teuchos::RCP<Teuchos::ParameterList>
   }
   double timeInitial = solverParams->get("Initial Time", 0.0);
   double timeFinal   = solverParams->get("Final Time", 1.0);
+  TEUCHOS_TEST_FOR_EXCEPT_MSG(!(dt > 0.0), "\n****Error: The time step must be greater than zero.\n");
+  TEUCHOS_TEST_FOR_EXCEPT_MSG(timeFinal < timeInitial, "\n****Error: The final time precedes the initial time.\n");
   double timeCurrent = timeInitial;
   double timePrevious = timeCurrent;
   workset->timeStep = dt;
@@ -3657,6 +3659,8 @@ void PeridigmNS::Peridigm::executeImplicit(Teuchos::RCP<Teuchos::ParameterList>
   double gamma                   = implicitParams->get("Gamma", 0.50);
   workset->timeStep = dt;
   double dt2 = dt*dt;
+  TEUCHOS_TEST_FOR_EXCEPT_MSG(!(dt > 0.0), "\n****Error: The time step must be greater than zero.\n");
+  TEUCHOS_TEST_FOR_EXCEPT_MSG(timeFinal < timeInitial, "\n****Error: The final time precedes the initial time.\n");
   int nsteps = (int)floor((timeFinal-timeInitial)/dt);
 
   // Pointer index into sub-vectors for use with BLAS
-- 
2.43.0


From aede4a9dade88e6f0220122393d3b62de0fa406b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:50:50 +0000
Subject: [PATCH 22/28] fix: reject load step lists that are malformed or not
 increasing

---
 src/core/Peridigm.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/core/Peridigm.cpp b/src/core/Peridigm.cpp
index ea5625e..b1ebd24 100644
--- a/src/core/Peridigm.cpp
+++ b/src/core/Peridigm.cpp
@@ -1285,6 +1285,13 @@ void PeridigmNS::Peridigm::execute(Teuchos::RCP<Teuchos::ParameterList> solverPa
   memstat->addStat(statTag);
 }
 
+// The times of a quasi-static or implicit simulation must be given in increasing order
+static void checkTimeSteps(const vector<double>& timeSteps){
+  TEUCHOS_TEST_FOR_EXCEPT_MSG(timeSteps.empty(), "\n****Error: The list of time steps is empty.\n");
+  for(unsigned int i=1 ; i<timeSteps.size() ; ++i)
+    TEUCHOS_TEST_FOR_EXCEPT_MSG(!(timeSteps[i] > timeSteps[i-1]), "\n****Error: The time steps must be in increasing order.\n");
+}
+
 void PeridigmNS::Peridigm::executeSolvers() {
   for(unsigned int i=0 ; i<solverParameters.size() ; ++i){
     execute(solverParameters[i]);
@@ -2079,10 +2086,12 @@ void PeridigmNS::Peridigm::executeNOXQuasiStatic(Teuchos::RCP<Teuchos::Parameter
     copy(istream_iterator<double>(iss),
          istream_iterator<double>(),
          back_inserter<vector<double> >(timeSteps));
+    TEUCHOS_TEST_FOR_EXCEPT_MSG(!iss.eof(), "\n****Error: Invalid list of time steps: " + timeStepString + "\n");
   }
   else{
     TEUCHOS_TEST_FOR_EXCEPT_MSG(true, "\n****Error: No valid time step data provided.\n");
   }
+  checkTimeSteps(timeSteps);
   double timeCurrent = timeSteps[0];
   double timePrevious = timeCurrent;
 
@@ -2601,10 +2610,12 @@ void PeridigmNS::Peridigm::executeQuasiStatic(Teuchos::RCP<Teuchos::ParameterLis
     copy(istream_iterator<double>(iss),
     istream_iterator<double>(),
     back_inserter<vector<double> >(timeSteps));
+    TEUCHOS_TEST_FOR_EXCEPT_MSG(!iss.eof(), "\n****Error: Invalid list of time steps: " + timeStepString + "\n");
   }
   else{
     TEUCHOS_TEST_FOR_EXCEPT_MSG(true, "\n****Error: No valid time step data provided.\n");
   }
+  checkTimeSteps(timeSteps);
 
   // Adaptive load-stepping parameters
   double timeFinal = timeSteps[timeSteps.size()-1];
@@ -3119,10 +3130,12 @@ void PeridigmNS::Peridigm::executeImplicitDiffusion(Teuchos::RCP<Teuchos::Parame
     copy(istream_iterator<double>(iss),
     istream_iterator<double>(),
     back_inserter<vector<double> >(timeSteps));
+    TEUCHOS_TEST_FOR_EXCEPT_MSG(!iss.eof(), "\n****Error: Invalid list of time steps: " + timeStepString + "\n");
   }
   else{
     TEUCHOS_TEST_FOR_EXCEPT_MSG(true, "\n****Error: No valid time step data provided.\n");
   }
+  checkTimeSteps(timeSteps);
 
   double timeCurrent = timeSteps[0];
   double timePrevious = timeCurrent;
-- 
2.43.0


From 082d4719da10cd6ab38c705adac8fdd1c83e4a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:50:50 +0000
Subject: [PATCH 23/28] fix: reject trailing text in mesh and node set files

---
 src/core/Peridigm_BoundaryAndInitialConditionManager.cpp  | 1 +
 src/io/discretization/Peridigm_TextFileDiscretization.cpp | 4 ++--
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/core/Peridigm_BoundaryAndInitialConditionManager.cpp b/src/core/Peridigm_BoundaryAndInitialConditionManager.cpp
index 723e1ee..1077763 100644
--- a/src/core/Peridigm_BoundaryAndInitialConditionManager.cpp
+++ b/src/core/Peridigm_BoundaryAndInitialConditionManager.cpp
@@ -245,6 +245,7 @@ void PeridigmNS::BoundaryAndInitialConditionManager::initializeNodeSets(Teuchos:
             copy(istream_iterator<int>(iss),
                  istream_iterator<int>(),
                  back_inserter<vector<int> >(nodeNumbers));
+            TEUCHOS_TEST_FOR_EXCEPT_MSG(!iss.eof(), "**** Error parsing node set text file, invalid line: " + str + "\n");
             for(unsigned int i=0 ; i<nodeNumbers.size() ; ++i){
               // Convert from 1-based node numbering (Exodus II) to 0-based node numbering (Epetra and all the rest of Peridigm)
               TEUCHOS_TEST_FOR_EXCEPT_MSG(nodeNumbers[i] < 1, "**** Error:  Node number 0 detected in nodeset file; node numbering must begin with 1.\n");
diff --git a/src/io/discretization/Peridigm_TextFileDiscretization.cpp b/src/io/discretization/Peridigm_TextFileDiscretization.cpp
index 835c095..1da652b 100644
--- a/src/io/discretization/Peridigm_TextFileDiscretization.cpp
+++ b/src/io/discretization/Peridigm_TextFileDiscretization.cpp
@@ -149,9 +149,9 @@ QUICKGRID::Data PeridigmNS::TextFileDiscretization::getDecomp(const string& text
              istream_iterator<double>(),
              back_inserter<vector<double> >(data));
         // Check for obvious problems with the data
-        if(data.size() != 5){
+        if(data.size() != 5 || !iss.eof()){
           string msg = "\n**** Error parsing text file, invalid line: " + str + "\n";
-          TEUCHOS_TEST_FOR_TERMINATION(data.size() != 5, msg);
+          TEUCHOS_TEST_FOR_TERMINATION(true, msg);
         }
         // Store the coordinates, block id, and volumes
         coordinates.push_back(data[0]);
-- 
2.43.0


From d86c0882de956f08984415d3533565f8b9ce3361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:50:50 +0000
Subject: [PATCH 24/28] fix: reject contact interactions that name an undefined
 model or block

---
 src/core/Peridigm_ContactManager.cpp | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/core/Peridigm_ContactManager.cpp b/src/core/Peridigm_ContactManager.cpp
index 6754978..8f12b2e 100644
--- a/src/core/Peridigm_ContactManager.cpp
+++ b/src/core/Peridigm_ContactManager.cpp
@@ -52,6 +52,7 @@
 #include "Peridigm_PdQuickGridDiscretization.hpp"
 #include "PdZoltan.h"
 #include "NeighborhoodList.h"
+#include <algorithm>
 #include <sstream>
 #include <iterator>
 
@@ -156,7 +157,16 @@ void PeridigmNS::ContactManager::createContactInteractionsList(const Teuchos::Pa
   std::set< std::tuple<int, int, string> > contactInteractionSet;
   Teuchos::ParameterList interactionParams = contactParams.sublist("Interactions");
 
-  // First, check for general and self contact
+  // Check that the contact models referred to by the interactions exist
+  const Teuchos::ParameterList& modelParams = contactParams.sublist("Models");
+  for(Teuchos::ParameterList::ConstIterator it = interactionParams.begin() ; it != interactionParams.end() ; it++){
+    if(interactionParams.isSublist(it->first)){
+      string contactModelName = interactionParams.sublist(it->first).get<string>("Contact Model");
+      TEUCHOS_TEST_FOR_EXCEPT_MSG(!modelParams.isSublist(contactModelName), "\n**** Error, contact interaction refers to an undefined contact model: " + contactModelName + "\n");
+    }
+  }
+
+  // Check for general and self contact
   bool hasGeneralContact = interactionParams.isSublist("General Contact");
   string generalContactModelName, selfContactModelName;
   if(hasGeneralContact)
@@ -192,8 +202,14 @@ void PeridigmNS::ContactManager::createContactInteractionsList(const Teuchos::Pa
     const string& name = it->first;
     if(name != "General Contact" && name != "Self Contact" && interactionParams.isSublist(name)){
       Teuchos::ParameterList& interaction = interactionParams.sublist(name);
-      int blockId_1 = disc->blockNameToBlockId( interaction.get<string>("First Block") );
-      int blockId_2 = disc->blockNameToBlockId( interaction.get<string>("Second Block") );
+      string blockName_1 = interaction.get<string>("First Block");
+      string blockName_2 = interaction.get<string>("Second Block");
+      vector<string> blockNames = disc->getBlockNames();
+      TEUCHOS_TEST_FOR_EXCEPT_MSG(std::find(blockNames.begin(), blockNames.end(), blockName_1) == blockNames.end() ||
+                                  std::find(blockNames.begin(), blockNames.end(), blockName_2) == blockNames.end(),
+                                  "\n**** Error, contact interaction " + name + " refers to a block that is not in the discretization.\n");
+      int blockId_1 = disc->blockNameToBlockId(blockName_1);
+      int blockId_2 = disc->blockNameToBlockId(blockName_2);
       string contactModelName = interaction.get<string>("Contact Model");
       std::tuple<int, int, string> interactionTuple(blockId_1, blockId_2, contactModelName);
       contactInteractionSet.insert(interactionTuple);
@@ -203,7 +219,8 @@ void PeridigmNS::ContactManager::createContactInteractionsList(const Teuchos::Pa
   // Elliminate duplicates and load the interactions into a vector
   std::set< std::tuple<int, int, string> >::iterator it, nextIt;
   nextIt = contactInteractionSet.begin();
-  nextIt++;
+  if(nextIt != contactInteractionSet.end())
+    nextIt++;
   for(it = contactInteractionSet.begin() ; it != contactInteractionSet.end() ; it++){
     // If a block pair has multiple contact definitions, the final definition is the one that will be used
     bool duplicate = false;
-- 
2.43.0


From 477544bf4cf414fbf51a52306011029ddde82ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:04:18 +0000
Subject: [PATCH 25/28] fix: stop all processors when one of them ends with an
 error

---
 src/core/Peridigm_Main.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/core/Peridigm_Main.cpp b/src/core/Peridigm_Main.cpp
index 296d72a..b8e514b 100644
--- a/src/core/Peridigm_Main.cpp
+++ b/src/core/Peridigm_Main.cpp
@@ -148,6 +148,14 @@ int main(int argc, char *argv[]) {
     status = 40;
   }
 
+#ifdef HAVE_MPI
+  // The other processors may not have encountered the error, do not leave them waiting for this one
+  if(status != 0 && mpi_size > 1){
+    cout.flush();
+    MPI_Abort(MPI_COMM_WORLD, status);
+  }
+#endif
+
   PeridigmNS::Timer::self().stopTimer("Total");
   PeridigmNS::Timer::self().printTimingData(cout);
 
-- 
2.43.0


From e83f1461cad1ef903a878a7086250518324776cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:25:01 +0000
Subject: [PATCH 26/28] fix: evaluate the tangent of bodies with points that
 have no neighbors

---
 src/materials/Peridigm_ElasticMaterial.cpp                 | 2 ++
 src/materials/Peridigm_ElasticPlasticHardeningMaterial.cpp | 2 ++
 src/materials/Peridigm_ElasticPlasticMaterial.cpp          | 2 ++
 src/materials/Peridigm_Material.cpp                        | 2 ++
 src/materials/Peridigm_MultiphysicsElasticMaterial.cpp     | 2 ++
 5 files changed, 10 insertions(+)

diff --git a/src/materials/Peridigm_ElasticMaterial.cpp b/src/materials/Peridigm_ElasticMaterial.cpp
index 121fdd8..35dbed2 100644
--- a/src/materials/Peridigm_ElasticMaterial.cpp
+++ b/src/materials/Peridigm_ElasticMaterial.cpp
@@ -276,6 +276,8 @@ PeridigmNS::ElasticMaterial::computeAutomaticDifferentiationJacobian(const doubl
 
     // Create a temporary neighborhood consisting of a single point and its neighbors.
     int numNeighbors = neighborhoodList[neighborhoodListIndex++];
+    if(numNeighbors == 0)
+      continue; // no bonds, no contribution to the tangent
     int numEntries = numNeighbors+1;
     int numDof = 3*numEntries;
     vector<int> tempMyGlobalIDs(numEntries);
diff --git a/src/materials/Peridigm_ElasticPlasticHardeningMaterial.cpp b/src/materials/Peridigm_ElasticPlasticHardeningMaterial.cpp
index 1b83c67..7ddaa59 100644
--- a/src/materials/Peridigm_ElasticPlasticHardeningMaterial.cpp
+++ b/src/materials/Peridigm_ElasticPlasticHardeningMaterial.cpp
@@ -230,6 +230,8 @@ PeridigmNS::ElasticPlasticHardeningMaterial::computeAutomaticDifferentiationJaco
 
     // Create a temporary neighborhood consisting of a single point and its neighbors.
     int numNeighbors = neighborhoodList[neighborhoodListIndex++];
+    if(numNeighbors == 0)
+      continue; // no bonds, no contribution to the tangent
     int numEntries = numNeighbors+1;
     int numDof = 3*numEntries;
     vector<int> tempMyGlobalIDs(numEntries);
diff --git a/src/materials/Peridigm_ElasticPlasticMaterial.cpp b/src/materials/Peridigm_ElasticPlasticMaterial.cpp
index dc014ae..ffe9204 100644
--- a/src/materials/Peridigm_ElasticPlasticMaterial.cpp
+++ b/src/materials/Peridigm_ElasticPlasticMaterial.cpp
@@ -218,6 +218,8 @@ PeridigmNS::ElasticPlasticMaterial::computeAutomaticDifferentiationJacobian(cons
   for(int iID=0 ; iID<numOwnedPoints ; ++iID){
     // Create a temporary neighborhood consisting of a single point and its neighbors.
     int numNeighbors = neighborhoodList[neighborhoodListIndex++];
+    if(numNeighbors == 0)
+      continue; // no bonds, no contribution to the tangent
     int numEntries = numNeighbors+1;
     int numDof = 3*numEntries;
     vector<int> tempMyGlobalIDs(numEntries);
diff --git a/src/materials/Peridigm_Material.cpp b/src/materials/Peridigm_Material.cpp
index 69084bd..896f972 100644
--- a/src/materials/Peridigm_Material.cpp
+++ b/src/materials/Peridigm_Material.cpp
@@ -130,6 +130,8 @@ void PeridigmNS::Material::computeFiniteDifferenceJacobian(const double dt,
 
     // Create a temporary neighborhood consisting of a single point and its neighbors.
     int numNeighbors = neighborhoodList[neighborhoodListIndex++];
+    if(numNeighbors == 0)
+      continue; // no bonds, no contribution to the tangent
     vector<int> tempMyGlobalIDs(numNeighbors+1);
     // Put the node at the center of the neighborhood at the beginning of the list.
     tempMyGlobalIDs[0] = dataManager.getOwnedScalarPointMap()->GID(iID);
diff --git a/src/materials/Peridigm_MultiphysicsElasticMaterial.cpp b/src/materials/Peridigm_MultiphysicsElasticMaterial.cpp
index bd0529f..3fd17a9 100644
--- a/src/materials/Peridigm_MultiphysicsElasticMaterial.cpp
+++ b/src/materials/Peridigm_MultiphysicsElasticMaterial.cpp
@@ -371,6 +371,8 @@ PeridigmNS::MultiphysicsElasticMaterial::computeAutomaticDifferentiationJacobian
 
     // Create a temporary neighborhood consisting of a single point and its neighbors.
     int numNeighbors = neighborhoodList[neighborhoodListIndex++];
+    if(numNeighbors == 0)
+      continue; // no bonds, no contribution to the tangent
     int numEntries = numNeighbors+1;
     int dofPerNode = 4;
     int numTotalNeighborhoodDof = dofPerNode*numEntries;
-- 
2.43.0


From 56179d6b0b89022910868f31e0f2fbf2bddbf4f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:25:01 +0000
Subject: [PATCH 27/28] fix: fill block diagonal tangents of elastic-plastic
 materials

---
 .../Peridigm_ElasticPlasticHardeningMaterial.cpp      | 11 ++++++++---
 src/materials/Peridigm_ElasticPlasticMaterial.cpp     | 11 ++++++++---
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/materials/Peridigm_ElasticPlasticHardeningMaterial.cpp b/src/materials/Peridigm_ElasticPlasticHardeningMaterial.cpp
index 7ddaa59..15142f4 100644
--- a/src/materials/Peridigm_ElasticPlasticHardeningMaterial.cpp
+++ b/src/materials/Peridigm_ElasticPlasticHardeningMaterial.cpp
@@ -201,11 +201,11 @@ PeridigmNS::ElasticPlasticHardeningMaterial::computeJacobian(const double dt,
 {
   if(m_applyAutomaticDifferentiationJacobian){
     // Compute the Jacobian via automatic differentiation
-    computeAutomaticDifferentiationJacobian(dt, numOwnedPoints, ownedIDs, neighborhoodList, dataManager, jacobian);  
+    computeAutomaticDifferentiationJacobian(dt, numOwnedPoints, ownedIDs, neighborhoodList, dataManager, jacobian, jacobianType);  
   }
   else{
     // Call the base class function, which computes the Jacobian by finite difference
-    PeridigmNS::Material::computeJacobian(dt, numOwnedPoints, ownedIDs, neighborhoodList, dataManager, jacobian);
+    PeridigmNS::Material::computeJacobian(dt, numOwnedPoints, ownedIDs, neighborhoodList, dataManager, jacobian, jacobianType);
   }
 }
 
@@ -340,7 +340,12 @@ PeridigmNS::ElasticPlasticHardeningMaterial::computeAutomaticDifferentiationJaco
     }
 
     // Sum the values into the global tangent matrix (this is expensive).
-    jacobian.addValues((int)globalIndices.size(), &globalIndices[0], scratchMatrix.Data());
+    if (jacobianType == PeridigmNS::Material::FULL_MATRIX)
+      jacobian.addValues((int)globalIndices.size(), &globalIndices[0], scratchMatrix.Data());
+    else if (jacobianType == PeridigmNS::Material::BLOCK_DIAGONAL)
+      jacobian.addBlockDiagonalValues((int)globalIndices.size(), &globalIndices[0], scratchMatrix.Data());
+    else // unknown jacobian type
+      TEUCHOS_TEST_FOR_EXCEPT_MSG(true, "**** Unknown Jacobian Type\n");
   }
 }
 
diff --git a/src/materials/Peridigm_ElasticPlasticMaterial.cpp b/src/materials/Peridigm_ElasticPlasticMaterial.cpp
index ffe9204..fe18953 100644
--- a/src/materials/Peridigm_ElasticPlasticMaterial.cpp
+++ b/src/materials/Peridigm_ElasticPlasticMaterial.cpp
@@ -190,11 +190,11 @@ PeridigmNS::ElasticPlasticMaterial::computeJacobian(const double dt,
 {
   if(m_applyAutomaticDifferentiationJacobian){
     // Compute the Jacobian via automatic differentiation
-    computeAutomaticDifferentiationJacobian(dt, numOwnedPoints, ownedIDs, neighborhoodList, dataManager, jacobian);  
+    computeAutomaticDifferentiationJacobian(dt, numOwnedPoints, ownedIDs, neighborhoodList, dataManager, jacobian, jacobianType);  
   }
   else{
     // Call the base class function, which computes the Jacobian by finite difference
-    PeridigmNS::Material::computeJacobian(dt, numOwnedPoints, ownedIDs, neighborhoodList, dataManager, jacobian);
+    PeridigmNS::Material::computeJacobian(dt, numOwnedPoints, ownedIDs, neighborhoodList, dataManager, jacobian, jacobianType);
   }
 }
 
@@ -329,7 +329,12 @@ PeridigmNS::ElasticPlasticMaterial::computeAutomaticDifferentiationJacobian(cons
     }
 
     // Sum the values into the global tangent matrix (this is expensive).
-    jacobian.addValues((int)globalIndices.size(), &globalIndices[0], scratchMatrix.Data());
+    if (jacobianType == PeridigmNS::Material::FULL_MATRIX)
+      jacobian.addValues((int)globalIndices.size(), &globalIndices[0], scratchMatrix.Data());
+    else if (jacobianType == PeridigmNS::Material::BLOCK_DIAGONAL)
+      jacobian.addBlockDiagonalValues((int)globalIndices.size(), &globalIndices[0], scratchMatrix.Data());
+    else // unknown jacobian type
+      TEUCHOS_TEST_FOR_EXCEPT_MSG(true, "**** Unknown Jacobian Type\n");
   }
 }
 
-- 
2.43.0


From 1918c36568c6a53ff7a87b305760949be9a8b303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:35:52 +0000
Subject: [PATCH 28/28] fix: decouple prescribed components from the rows of
 other processors

---
 ...igm_BoundaryAndInitialConditionManager.cpp | 21 ++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/core/Peridigm_BoundaryAndInitialConditionManager.cpp b/src/core/Peridigm_BoundaryAndInitialConditionManager.cpp
index 1077763..78c6f55 100644
--- a/src/core/Peridigm_BoundaryAndInitialConditionManager.cpp
+++ b/src/core/Peridigm_BoundaryAndInitialConditionManager.cpp
@@ -468,13 +468,24 @@ void PeridigmNS::BoundaryAndInitialConditionManager::applyKinematicBC_InsertZero
       }
 
       // zero out the columns associated with kinematic boundary conditions:
+      // the node lists contain on-processor nodes only, so flag the constrained rows and
+      // import the flags to find the columns that are constrained on any processor
+      Epetra_Vector constrainedRows(mat->RowMap());
+      for(unsigned int i=0 ; i<nodeList.size() ; i++){
+        const int localRowID = mat->LRID(numDof * nodeList[i] + offset + coord);
+        if(localRowID != -1)
+          constrainedRows[localRowID] = 1.0;
+      }
+      Epetra_Vector constrainedColumns(mat->ColMap());
+      if(mat->Importer() != 0)
+        constrainedColumns.Import(constrainedRows, *mat->Importer(), Insert);
+      else
+        constrainedColumns.Update(1.0, constrainedRows, 0.0);
       // create the list of columns only once:
       int columnIndex(0);
-      for(unsigned int i=0 ; i<nodeList.size() ; i++){
-        const int globalID = numDof * nodeList[i] + offset + coord;
-        const int localColID = mat->LCID(globalID);
-        if(localColID != -1)
-          jacobianColIndices[columnIndex++] = localColID;
+      for(int i=0 ; i<mat->NumMyCols() ; i++){
+        if(constrainedColumns[i] != 0.0)
+          jacobianColIndices[columnIndex++] = i;
       }
       // iterate the local rows and set the approprate column values to 0
       int numEntriesToSetToZero = columnIndex;
-- 
2.43.0

