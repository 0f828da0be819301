From 326dcdd447ee060b043fee064ea4600924729482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:47 +0000
Subject: [PATCH 01/19] fix: SgLinearSolve: pass the transposed dimensions to
 dgels and solve from a fresh copy

---
 cpp/SgLinearSolve.h | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/cpp/SgLinearSolve.h b/cpp/SgLinearSolve.h
index 384043d..6fcd959 100644
--- a/cpp/SgLinearSolve.h
+++ b/cpp/SgLinearSolve.h
@@ -81,15 +81,20 @@ struct SgLinearSolve_type {
 
   int solve() {
     int errCode = 0;
-    char t = 'T'; // C storage
+    char t = 'T'; // C storage, LAPACK sees the (ncol by nrow) transpose
     int nrhs = 1;
-    int ldb = (int) this->b.size();
+    int ldb = (int) this->x.size();
+    // the previous solve may have overwritten the matrix and right-hand side
+    this->mat = this->matOri;
+    for (int i = 0; i < this->nrow; ++i) {
+        this->x[i] = this->b[i];
+    }
     _GELS_(&t, 
-           &this->nrow, 
            &this->ncol, 
+           &this->nrow, 
            &nrhs,
            &this->mat.front(), 
-           &this->nrow,
+           &this->ncol,
            &this->x.front(), &ldb,
            &this->work.front(), &this->lwork, 
            &errCode);
-- 
2.43.0


From d772330739ab93ad2161527bac3b8b9572adee39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:47 +0000
Subject: [PATCH 02/19] fix: SgTriangulate: no read past the last point,
 interior edges are not boundary edges

---
 cpp/SgTriangulate.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/cpp/SgTriangulate.h b/cpp/SgTriangulate.h
index 94d7ef9..f1a85cd 100644
--- a/cpp/SgTriangulate.h
+++ b/cpp/SgTriangulate.h
@@ -106,7 +106,8 @@ struct SgTriangulate_type {
         size_t lastIndexOfFirstTriangle = this->makeFirstTriangle();
 
         // add the remaining points
-        for (int ip = lastIndexOfFirstTriangle + 1; ip < numPoints; ++ip) {
+        size_t numUniquePoints = this->points.size() / NDIMS_2D_PHYS;
+        for (size_t ip = lastIndexOfFirstTriangle + 1; ip < numUniquePoints; ++ip) {
             this->addPoint(ip);
         }
     }
@@ -195,7 +196,7 @@ struct SgTriangulate_type {
         size_t i1 = 1;
         size_t i2 = 2;
         double area = std::abs(this->getParallelipipedArea(i0, i1, i2));
-        while (i2 < numPoints && area < this->eps) {
+        while (i2 + 1 < numPoints && area < this->eps) {
             // the points appear to be a line, get the two extremum point indices
             std::vector<size_t> extrema = this->getExtremaPointIndices(i0, i1, i2);
             i0 = extrema[0];
@@ -316,7 +317,11 @@ struct SgTriangulate_type {
         for (std::set< std::vector<size_t> >::const_iterator 
              it = boundaryEdgesToAdd.begin();
              it != boundaryEdgesToAdd.end(); ++it) {
-            this->boundaryEdges.insert(*it);
+            // an edge shared by two of the new triangles is not on the boundary
+            std::vector<size_t> oppositeEdge(it->rbegin(), it->rend());
+            if (boundaryEdgesToAdd.count(oppositeEdge) == 0) {
+                this->boundaryEdges.insert(*it);
+            }
         }
     }
 };
-- 
2.43.0


From 338489156022fa4b325f0e63efc2c74140847faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:19 +0000
Subject: [PATCH 03/19] fix: SgConserveInterp2D: recompute weights from
 scratch, do not dereference the end iterator

---
 cpp/SgConserveInterp2D.h | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/cpp/SgConserveInterp2D.h b/cpp/SgConserveInterp2D.h
index 0057ed3..67f5cbc 100644
--- a/cpp/SgConserveInterp2D.h
+++ b/cpp/SgConserveInterp2D.h
@@ -153,6 +153,9 @@ struct SgConserveInterp2D_type {
 	 */
 	void computeWeights() {
 
+		// start afresh, the grids may have changed since the last call
+		this->weights.clear();
+
 		// cache the edge to edge intersections
 		std::map< std::pair< std::vector<size_t>, std::vector<size_t> >, std::vector<double> > cacheEdgeX;
 
@@ -335,7 +338,9 @@ struct SgConserveInterp2D_type {
 	 */
 	void reset() {
 		this->weightIt = this->weights.begin();
-		this->weightIt2 = this->weightIt->second.begin();		
+		if (this->weightIt != this->weights.end()) {
+			this->weightIt2 = this->weightIt->second.begin();
+		}
 	}
 
 	/** 
@@ -343,13 +348,15 @@ struct SgConserveInterp2D_type {
 	 * @return 0 (= continue) or 1 (= stop)
 	 */
 	int next() {
+		if (this->weightIt == this->weights.end()) {
+			// there are no weights to iterate over
+			return 1;
+		}
 		// increment source counter
 		this->weightIt2++;
 		if (this->weightIt2 == this->weightIt->second.end()) {
 			// reached end of src counter, increment dst counter
 			this->weightIt++;
-			// reset src counter
-			this->weightIt2 = this->weightIt->second.begin();
 			if (this->weightIt == this->weights.end()) {
 				// reached end of dst counter
 				// reset dst and src counters
@@ -357,6 +364,8 @@ struct SgConserveInterp2D_type {
 				// end of iteration 
 				return 1;
 			}
+			// reset src counter
+			this->weightIt2 = this->weightIt->second.begin();
 		}
 		return 0;
 	}
-- 
2.43.0


From 1ae1730cd5d88600cdc533d6a47defda8cb94e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:19 +0000
Subject: [PATCH 04/19] fix: SgFlowInterp2D: recompute weights from scratch,
 release the source grid iterators

---
 cpp/SgFlowInterp2D.h | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/cpp/SgFlowInterp2D.h b/cpp/SgFlowInterp2D.h
index 05ace57..3aca995 100644
--- a/cpp/SgFlowInterp2D.h
+++ b/cpp/SgFlowInterp2D.h
@@ -54,12 +54,7 @@ struct SgFlowInterp2D_type {
      * Destructor
      */
     ~SgFlowInterp2D_type() {
-        if (this->srcNodeIt) {
-            delete this->srcNodeIt;
-        }
-        for (size_t i = 0; i < this->srcEdgeIts.size(); ++i) {
-            delete this->srcEdgeIts[i];
-        }
+        this->deleteSrcIterators();
     }
 
     /**
@@ -108,6 +103,7 @@ struct SgFlowInterp2D_type {
         int srcEdge1Dims[] = {dims[0], dims[1] - 1};
 
         const int zeros[] = {0, 0};
+        this->deleteSrcIterators();
         this->srcNodeIt = new SgBoxIterator_type(2, zeros, dims);
         this->srcCellIt = new SgBoxIterator_type(2, zeros, srcCellDims);
         this->srcEdgeIts[0] = new SgBoxIterator_type(2, zeros, srcEdge0Dims);
@@ -185,6 +181,9 @@ struct SgFlowInterp2D_type {
      */
     void computeWeights() {
 
+        // start afresh, the grids may have changed since the last call
+        this->weights.clear();
+
         double dstLineCoords[2*NDIMS_2D_PHYS];
         double srcQuadCoords[4*NDIMS_2D_PHYS];
         const int offset1D[] = {0, 1};
@@ -291,6 +290,17 @@ struct SgFlowInterp2D_type {
 
 private:
 
+    /**
+     * Delete the source grid iterators
+     */
+    void deleteSrcIterators() {
+        delete this->srcNodeIt;
+        delete this->srcCellIt;
+        for (size_t i = 0; i < this->srcEdgeIts.size(); ++i) {
+            delete this->srcEdgeIts[i];
+        }
+    }
+
     /** 
      * Extract the destination cell coordinates from the grid
      * @param indx cell flat index
-- 
2.43.0


From 7d663a146974d1491f223d2c6165f4dd0e565bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:19 +0000
Subject: [PATCH 05/19] fix: SgQuadIntersect, SgQuadLineIntersect: release the
 solver in the destructor

---
 cpp/SgQuadIntersect.cpp     | 1 -
 cpp/SgQuadIntersect.h       | 7 +++++++
 cpp/SgQuadLineIntersect.cpp | 1 -
 cpp/SgQuadLineIntersect.h   | 7 +++++++
 4 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/cpp/SgQuadIntersect.cpp b/cpp/SgQuadIntersect.cpp
index 44ceb24..80cbf92 100644
--- a/cpp/SgQuadIntersect.cpp
+++ b/cpp/SgQuadIntersect.cpp
@@ -16,7 +16,6 @@ int SgQuadIntersect_new(SgQuadIntersect_type** self) {
 extern "C"                   
 int SgQuadIntersect_del(SgQuadIntersect_type** self) {
 
- 	if ((*self)->slvr) delete (*self)->slvr;
  	delete *self;
 
  	return 0;
diff --git a/cpp/SgQuadIntersect.h b/cpp/SgQuadIntersect.h
index ea312c9..ff4f9d3 100644
--- a/cpp/SgQuadIntersect.h
+++ b/cpp/SgQuadIntersect.h
@@ -48,6 +48,13 @@ struct SgQuadIntersect_type {
         this->quad2Coords = NULL;
     }
 
+    /**
+     * Destructor
+     */
+     ~SgQuadIntersect_type() {
+        delete this->slvr;
+    }
+
     void reset() {
         this->intersectionPoints.resize(0);
     }
diff --git a/cpp/SgQuadLineIntersect.cpp b/cpp/SgQuadLineIntersect.cpp
index b6582dd..e7aa5aa 100644
--- a/cpp/SgQuadLineIntersect.cpp
+++ b/cpp/SgQuadLineIntersect.cpp
@@ -16,7 +16,6 @@ int SgQuadLineIntersect_new(SgQuadLineIntersect_type** self) {
 extern "C"                   
 int SgQuadLineIntersect_del(SgQuadLineIntersect_type** self) {
 
- 	if ((*self)->slvr) delete (*self)->slvr;
  	delete *self;
 
  	return 0;
diff --git a/cpp/SgQuadLineIntersect.h b/cpp/SgQuadLineIntersect.h
index 55502a2..3b17edd 100644
--- a/cpp/SgQuadLineIntersect.h
+++ b/cpp/SgQuadLineIntersect.h
@@ -61,6 +61,13 @@ struct SgQuadLineIntersect_type {
         this->lineCoords = NULL;
     }
 
+    /**
+     * Destructor
+     */
+     ~SgQuadLineIntersect_type() {
+        delete this->slvr;
+    }
+
     void reset() {
         this->intersectionLambdas.resize(0);
     }
-- 
2.43.0


From 8e1a837017786b3e60134c291c96f2112df35988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:19 +0000
Subject: [PATCH 06/19] fix: SgFindPointInCell: setGrid and reset forget the
 previous grid and search

---
 cpp/SgFindPointInCell.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/cpp/SgFindPointInCell.h b/cpp/SgFindPointInCell.h
index f3980a4..29aeca6 100644
--- a/cpp/SgFindPointInCell.h
+++ b/cpp/SgFindPointInCell.h
@@ -106,10 +106,10 @@ void setGrid(int ndims, const int dims[], const int periodicity[],
     this->rhs.resize(ndims);
     this->dIndices.resize(ndims);
     this->targetPoint.resize(ndims);
-    this->xmins.resize(ndims, std::numeric_limits<double>::max());
-    this->xmaxs.resize(ndims, -std::numeric_limits<double>::max());
+    this->xmins.assign(ndims, std::numeric_limits<double>::max());
+    this->xmaxs.assign(ndims, -std::numeric_limits<double>::max());
     // default is no periodicity
-    this->indexPeriodicity.resize(ndims, 0.0);
+    this->indexPeriodicity.assign(ndims, 0.0);
     for (int i = 0; i < ndims; ++i) {
         if (periodicity[i] != 0) {
             this->indexPeriodicity[i] = (double) dims[i];
@@ -142,6 +142,7 @@ void setGrid(int ndims, const int dims[], const int periodicity[],
     }
 
     // create a solver
+    if (this->slvr) delete this->slvr;
     this->slvr = new SgLinearSolve_type(ndims, ndims);
 }
 
@@ -196,6 +197,7 @@ void reset(const double dIndices[], const double targetPoint[]) {
         this->targetPoint[i] = targetPoint[i];
     }
     this->iter = 0;
+    this->oldError = std::numeric_limits<double>::max();
     this->errorHistory.resize(0);
 }
 
-- 
2.43.0


From 84139179c2da558411c263cbc13275f28e81366b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:19 +0000
Subject: [PATCH 07/19] fix: SgNodeInterp2D: keep the weights found by the
 second search

---
 cpp/SgNodeInterp2D.h | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/cpp/SgNodeInterp2D.h b/cpp/SgNodeInterp2D.h
index 0359048..0c15d08 100644
--- a/cpp/SgNodeInterp2D.h
+++ b/cpp/SgNodeInterp2D.h
@@ -166,12 +166,7 @@ struct SgNodeInterp2D_type {
 
             if (ier == 0) {
                 // normal termination, found the index location
-                const std::vector<double>& dInds = this->pointFinder->getIndices();
-                const std::vector< std::pair<size_t, double> > 
-                    iw = this->pointFinder->getSrcIndicesAndWeights(dInds);
-                std::pair<size_t, std::vector< std::pair<size_t, double> > > p(dstNodeIndex, iw);
-                this->weights.insert(p);
-
+                this->insertWeights(dstNodeIndex);
             }
             else if (ier == -3) {
               std::cerr << "WARNING: target point " << 
@@ -199,7 +194,11 @@ struct SgNodeInterp2D_type {
                     stop = sit.next();
                 }
 
-                if (ier != 0) {
+                if (ier == 0) {
+                    // found the index location this time
+                    this->insertWeights(dstNodeIndex);
+                }
+                else {
                     std::cerr << "ERROR: failed to find the index point for " << 
                           targetPoint[0] << ", " << targetPoint[1] << '\n';
                     std::vector<double> pos = this->pointFinder->getPosition();
@@ -214,6 +213,18 @@ struct SgNodeInterp2D_type {
 
 private:
 
+    /**
+     * Insert the weights of a destination node, using the current position of the point finder
+     * @param dstNodeIndex destination node index
+     */
+    void insertWeights(size_t dstNodeIndex) {
+        const std::vector<double>& dInds = this->pointFinder->getIndices();
+        const std::vector< std::pair<size_t, double> > 
+            iw = this->pointFinder->getSrcIndicesAndWeights(dInds);
+        std::pair<size_t, std::vector< std::pair<size_t, double> > > p(dstNodeIndex, iw);
+        this->weights.insert(p);
+    }
+
     /**
      * Find target
      * @param target position
-- 
2.43.0


From 6c3bd580f1a5a972ad6c8d2ee84912d8c4d52a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:19 +0000
Subject: [PATCH 08/19] fix: SgFindOverlappingCells2D: flat cell indices count
 cells, not nodes

---
 cpp/SgFindOverlappingCells2D.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/SgFindOverlappingCells2D.h b/cpp/SgFindOverlappingCells2D.h
index 478955a..e9e4608 100644
--- a/cpp/SgFindOverlappingCells2D.h
+++ b/cpp/SgFindOverlappingCells2D.h
@@ -78,7 +78,7 @@ struct SgFindOverlappingCells2D_type {
         this->srcCellProdDims[NDIMS_2D_TOPO - 1] = 1;
         for (int j = NDIMS_2D_TOPO - 2; j >= 0; --j) {
             // last index varies fastest
-            this->srcCellProdDims[j] = this->srcCellProdDims[j + 1] * dims[j + 1];
+            this->srcCellProdDims[j] = this->srcCellProdDims[j + 1] * (dims[j + 1] - 1);
           }
         this->pointFinder->setGrid(2, dims, periodicity, coords);
     }
-- 
2.43.0


From 204ac81bc62569255aa962c8ac832040e0df2dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:19 +0000
Subject: [PATCH 09/19] fix: createPolarGrid: translate the grid by its center

---
 utils/createGrids2D.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/utils/createGrids2D.cpp b/utils/createGrids2D.cpp
index aa375a9..e79cdba 100644
--- a/utils/createGrids2D.cpp
+++ b/utils/createGrids2D.cpp
@@ -52,10 +52,10 @@ void createPolarGrid(const int nodeDims[],
     size_t index = 0;
     for (size_t i = 0; i < nodeDims[0]; ++i) {
         for (size_t j = 0; j < nodeDims[1]; ++j) {
-            double rho = center[0] + deltas[0]*i;
-            double the = center[1] + deltas[1]*j;
-            coords[0][index] = rho*cos(the);
-            coords[1][index] = rho*sin(the);
+            double rho = deltas[0]*i;
+            double the = deltas[1]*j;
+            coords[0][index] = center[0] + rho*cos(the);
+            coords[1][index] = center[1] + rho*sin(the);
             index++;
         }
     }
-- 
2.43.0


From 38440528093909794f006c89e86cfc20e04bff35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:19 +0000
Subject: [PATCH 10/19] fix: CmdLineArgParser: read the last element of an int
 list like the others

---
 utils/CmdLineArgParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/CmdLineArgParser.cpp b/utils/CmdLineArgParser.cpp
index 881dc49..53ac591 100644
--- a/utils/CmdLineArgParser.cpp
+++ b/utils/CmdLineArgParser.cpp
@@ -300,7 +300,7 @@ CmdLineArgParser::get<std::vector<int> >(const std::string& name) const {
             pos0 = pos1 + 1;
             pos1 = str.find(',', pos0);
         }
-        res.push_back(std::atof(str.substr(pos0, pos1 - pos0).c_str()));
+        res.push_back(std::atoi(str.substr(pos0, pos1 - pos0).c_str()));
     }
     return res;
 }
\ No newline at end of file
-- 
2.43.0


From b1756feb08328a43ae79083fcce50a5969d35a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:10 +0000
Subject: [PATCH 11/19] fix: SgQuadIntersect, SgQuadLineIntersect: collecting
 points forgets earlier ones

---
 cpp/SgQuadIntersect.h     | 3 +++
 cpp/SgQuadLineIntersect.h | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/cpp/SgQuadIntersect.h b/cpp/SgQuadIntersect.h
index ff4f9d3..abf1755 100644
--- a/cpp/SgQuadIntersect.h
+++ b/cpp/SgQuadIntersect.h
@@ -234,6 +234,9 @@ struct SgQuadIntersect_type {
         *numPoints = 0;
         double pt[NDIMS_2D_PHYS];
 
+        // forget the intersection points of earlier calls
+        this->reset();
+
         this->collectNodesInsideQuad((const double*)this->quad1Coords, 
                                      (const double*)this->quad2Coords);
         this->collectNodesInsideQuad((const double*)this->quad2Coords,
diff --git a/cpp/SgQuadLineIntersect.h b/cpp/SgQuadLineIntersect.h
index 3b17edd..d864176 100644
--- a/cpp/SgQuadLineIntersect.h
+++ b/cpp/SgQuadLineIntersect.h
@@ -243,6 +243,9 @@ struct SgQuadLineIntersect_type {
 
         *numPoints = 0;
 
+        // forget the intersection points of earlier calls
+        this->reset();
+
         // add the starting line point if inside the quad
         if (this->isPointInQuad(&this->lineCoords[0*NDIMS_2D_PHYS], this->quadCoords)) {
           this->intersectionLambdas.push_back(0.0);
-- 
2.43.0


From 1c4d3b99c9d96b9110c4cf96a881d95ce7f320cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:23 +0000
Subject: [PATCH 12/19] fix: SgFindOverlappingCells2D: locate polygon points
 that are outside the source domain

---
 cpp/SgFindOverlappingCells2D.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/cpp/SgFindOverlappingCells2D.h b/cpp/SgFindOverlappingCells2D.h
index e9e4608..e495972 100644
--- a/cpp/SgFindOverlappingCells2D.h
+++ b/cpp/SgFindOverlappingCells2D.h
@@ -123,8 +123,16 @@ struct SgFindOverlappingCells2D_type {
 
             bool iterFlag = true;
 
-            // make this polygon's point th etarget point
-            const double* targetPoint = &this->polyPoints[i*NDIMS_2D_PHYS];
+            // make this polygon's point the target point. Points outside the src domain 
+            // are moved to the domain's boundary as they cannot be located otherwise
+            double targetPoint[NDIMS_2D_PHYS];
+            const double* xmins = this->pointFinder->getSrcDomainLo();
+            const double* xmaxs = this->pointFinder->getSrcDomainHi();
+            for (size_t j = 0; j < NDIMS_2D_PHYS; ++j) {
+                targetPoint[j] = this->polyPoints[i*NDIMS_2D_PHYS + j];
+                targetPoint[j] = (targetPoint[j] >= xmins[j]? targetPoint[j]: xmins[j]);
+                targetPoint[j] = (targetPoint[j] <= xmaxs[j]? targetPoint[j]: xmaxs[j]);
+            }
 
             // start search
             this->pointFinder->reset(dIndices, targetPoint);
-- 
2.43.0


From 33bb195554360f97e348ace43374943011e5635d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:54 +0000
Subject: [PATCH 13/19] fix: SgFlowInterp2D: count segments along cell edges
 once, also on the high boundary

The destination points were shifted by a few rounding errors, which loses segments
along the high boundary of the source grid and does not prevent two cells that
share an oblique edge from both claiming a segment along it.
---
 cpp/SgFlowInterp2D.h      | 70 +++++++++++++++++++++++++++++++--------
 cpp/SgQuadLineIntersect.h | 10 +++++-
 2 files changed, 65 insertions(+), 15 deletions(-)

diff --git a/cpp/SgFlowInterp2D.h b/cpp/SgFlowInterp2D.h
index 3aca995..a952909 100644
--- a/cpp/SgFlowInterp2D.h
+++ b/cpp/SgFlowInterp2D.h
@@ -64,8 +64,6 @@ struct SgFlowInterp2D_type {
      */
     void setDstGrid(const int dims[], const double** coords) {
 
-        const double eps = 10 * std::numeric_limits<double>::epsilon();
-
         size_t dstNumPoints = 1;
         this->dstNumCells = 1;
         for (size_t j = 0; j < NDIMS_1D_TOPO; ++j) {
@@ -77,11 +75,7 @@ struct SgFlowInterp2D_type {
         this->dstGrdCoords.resize(NDIMS_2D_PHYS * dstNumPoints);
         for (size_t k = 0; k < NDIMS_2D_PHYS; ++k) {
             for (size_t i = 0; i < dstNumPoints; ++i) {
-                //this->dstGrdCoords[i*NDIMS_2D_PHYS + k] = coords[k][i];
-                // apply small perturbation
-                double pertAngle = 1.99 * M_PI * double(i)/double(dstNumPoints - 1);
-                double pertAmpl = eps * (k + 1);
-                this->dstGrdCoords[i*NDIMS_2D_PHYS + k] = coords[k][i] + pertAmpl*cos(pertAngle);
+                this->dstGrdCoords[i*NDIMS_2D_PHYS + k] = coords[k][i];
             }
         }
     }
@@ -203,6 +197,10 @@ struct SgFlowInterp2D_type {
 
             intersector.setLinePoints(dstLineCoords);
 
+            // the parts of the segment that belong to the src quads visited so far, a part that 
+            // runs along the edge between two src quads must only be counted once
+            std::vector< std::pair<double, double> > claimed;
+
             // iterate over the src quads
             for (size_t srcIndx = 0; srcIndx < this->srcNumCells; ++srcIndx) {
 
@@ -246,16 +244,30 @@ struct SgFlowInterp2D_type {
                     weightCalc.setQuadPoints(srcQuadCoords);
 
                     // iterate over the segments
+                    const std::vector<double>& lambdas = intersector.getIntersectionLambdas();
                     for (int i = 0; i < numPoints - 1; ++i) {
-                        weightCalc.setLinePoints(&points[i*NDIMS_2D_PHYS]);
-                        weightCalc.computeProjections();
-                        
-                        w[0] += weightCalc.getProjection(EDGE_LO_0);
-                        w[1] += weightCalc.getProjection(EDGE_HI_0);
-                        w[2] += weightCalc.getProjection(EDGE_LO_1);
-                        w[3] += weightCalc.getProjection(EDGE_HI_1);
+
+                        // iterate over the parts of the segment that are not in another quad
+                        std::vector< std::pair<double, double> > parts = subtract(lambdas[i], lambdas[i + 1], claimed);
+                        for (size_t j = 0; j < parts.size(); ++j) {
+
+                            double partCoords[2*NDIMS_2D_PHYS];
+                            for (size_t k = 0; k < NDIMS_2D_PHYS; ++k) {
+                                double dx = dstLineCoords[NDIMS_2D_PHYS + k] - dstLineCoords[k];
+                                partCoords[k] = dstLineCoords[k] + parts[j].first*dx;
+                                partCoords[NDIMS_2D_PHYS + k] = dstLineCoords[k] + parts[j].second*dx;
+                            }
+                            weightCalc.setLinePoints(partCoords);
+                            weightCalc.computeProjections();
+
+                            w[0] += weightCalc.getProjection(EDGE_LO_0);
+                            w[1] += weightCalc.getProjection(EDGE_HI_0);
+                            w[2] += weightCalc.getProjection(EDGE_LO_1);
+                            w[3] += weightCalc.getProjection(EDGE_HI_1);
+                        }
                     }
                     // done
+                    claimed.push_back(std::pair<double, double>(lambdas[0], lambdas[numPoints - 1]));
 
                     std::pair<size_t, std::vector<double> > p(srcIndx, w);
                     it->second.push_back(p);
@@ -290,6 +302,36 @@ struct SgFlowInterp2D_type {
 
 private:
 
+    /**
+     * Get the parts of an interval that are in none of the other intervals
+     * @param lo start of the interval
+     * @param hi end of the interval
+     * @param others start/end of the other intervals
+     * @return start/end of each part
+     */
+    static std::vector< std::pair<double, double> > subtract(double lo, double hi, 
+                                  const std::vector< std::pair<double, double> >& others) {
+        std::vector< std::pair<double, double> > parts;
+        if (hi > lo) {
+            parts.push_back(std::pair<double, double>(lo, hi));
+        }
+        for (size_t i = 0; i < others.size(); ++i) {
+            std::vector< std::pair<double, double> > rest;
+            for (size_t j = 0; j < parts.size(); ++j) {
+                double a = std::min(parts[j].second, others[i].first);
+                double b = std::max(parts[j].first, others[i].second);
+                if (a > parts[j].first) {
+                    rest.push_back(std::pair<double, double>(parts[j].first, a));
+                }
+                if (b < parts[j].second) {
+                    rest.push_back(std::pair<double, double>(b, parts[j].second));
+                }
+            }
+            parts.swap(rest);
+        }
+        return parts;
+    }
+
     /**
      * Delete the source grid iterators
      */
diff --git a/cpp/SgQuadLineIntersect.h b/cpp/SgQuadLineIntersect.h
index d864176..f7dd20d 100644
--- a/cpp/SgQuadLineIntersect.h
+++ b/cpp/SgQuadLineIntersect.h
@@ -82,7 +82,7 @@ struct SgQuadLineIntersect_type {
       // of the low corner points
       bool overlap = true;
       for (size_t j = 0; j < NDIMS_2D_PHYS; ++j) {
-        overlap &= std::min(this->quadMax[j], this->lineMax[j]) >= std::max(this->quadMin[j], this->lineMin[j]);
+        overlap &= std::min(this->quadMax[j], this->lineMax[j]) >= std::max(this->quadMin[j], this->lineMin[j]) - this->tol;
       }
       return overlap;
     }
@@ -130,6 +130,14 @@ struct SgQuadLineIntersect_type {
         return this->intersectionPoints;
     }
 
+    /**
+     * Get the positions of the intersection points along the line
+     * @return array of values between 0 and 1
+     */
+    const std::vector<double>& getIntersectionLambdas() const {
+        return this->intersectionLambdas;
+    }
+
     /**
      * Is point inside quad?
      * @param point target coordinates
-- 
2.43.0


From 2e77ef5ba582b5773a7c60a9b15f043e9dee8362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:06 +0000
Subject: [PATCH 14/19] fix: SgFindPointInCell: the tolerance at the domain
 boundary scales with the coordinates

Points off the boundary of a cell by one rounding error were rejected when the
coordinates are larger than about 100 (e.g. degrees), which gave wrong weights for
segments in SgFlowInterp2D.
---
 cpp/SgFindPointInCell.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cpp/SgFindPointInCell.h b/cpp/SgFindPointInCell.h
index 29aeca6..6633f11 100644
--- a/cpp/SgFindPointInCell.h
+++ b/cpp/SgFindPointInCell.h
@@ -6,6 +6,7 @@
 #define SG_FIND_POINT_IN_CELL_H
  
 #include <vector>
+#include <algorithm>
 #include <cstdio> // size_t
 #include <cmath>
 #include <limits>
@@ -219,8 +220,11 @@ int next() {
     // THIS SHOULD BE MOVED TO THE reset METHOD!!!!!
     bool inside = true;
     for (size_t i = 0; i < ndims; ++i) {
-        inside &= this->targetPoint[i] >= this->xmins[i] - eps;
-        inside &= this->targetPoint[i] <= this->xmaxs[i] + eps;
+        // rounding errors scale with the size of the coordinates
+        double epsi = eps * std::max(1.0, this->xmaxs[i] - this->xmins[i] 
+                                     + std::max(std::abs(this->xmins[i]), std::abs(this->xmaxs[i])));
+        inside &= this->targetPoint[i] >= this->xmins[i] - epsi;
+        inside &= this->targetPoint[i] <= this->xmaxs[i] + epsi;
     }
     if (!inside) {
         return -3;
-- 
2.43.0


From 3694e242f7debb86a22c1a1f4c64b57ce6a97599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:17 +0000
Subject: [PATCH 15/19] fix: createRotatedPoleGrid: no NaN latitude for nodes
 at the pole

---
 utils/createGrids2D.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/utils/createGrids2D.cpp b/utils/createGrids2D.cpp
index e79cdba..ede02d7 100644
--- a/utils/createGrids2D.cpp
+++ b/utils/createGrids2D.cpp
@@ -1,4 +1,5 @@
 #include "createGrids2D.h"
+#include <algorithm>
 
 extern "C"
 void matrixDotMatrix(const double mat1[], const double mat2[], double matres[]) {
@@ -115,7 +116,9 @@ void createRotatedPoleGrid(const int nodeDims[],
 
             matrixDotVector(transfMatrix, xyzPrime, xyz);
 
-            coords[0][k] = 180. * asin(xyz[2]) / M_PI;
+            // rounding errors must not take the sine of the latitude out of range
+            double sin_lat = std::min(1., std::max(-1., xyz[2]));
+            coords[0][k] = 180. * asin(sin_lat) / M_PI;
             coords[1][k] = 180. * atan2(xyz[1], xyz[0]) / M_PI;
             k++;
         }
-- 
2.43.0


From 22b39dd66c40c6ea0ea05c93a2ccfbe27451de64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:38 +0000
Subject: [PATCH 16/19] fix: Python ConserveInterp2D: setting a grid
 invalidates the weights

---
 py/conserveInterp2D.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/py/conserveInterp2D.py b/py/conserveInterp2D.py
index 0037bd3..7759e44 100644
--- a/py/conserveInterp2D.py
+++ b/py/conserveInterp2D.py
@@ -36,6 +36,8 @@ class ConserveInterp2D:
 
 		sigrid.so.SgConserveInterp2D_setDstGrid(ctypes.byref(self.handle), dims, coords)
 		self.dstData = numpy.zeros((n0 - 1, n1 - 1), numpy.float64)
+		# the weights, if any, are those of the previous grid
+		self.hasInterpWeights = False
 
 	def setSrcGrid(self, periodicity, xcoords, ycoords):
 		"""
@@ -52,6 +54,8 @@ class ConserveInterp2D:
 		                                                   ycoords.ctypes.data_as(ctypes.POINTER(ctypes.c_double)))
 		sigrid.so.SgConserveInterp2D_setSrcGrid(ctypes.byref(self.handle), dims, periods, coords)
 		self.hasSrcCoords = True
+		# the weights, if any, are those of the previous grid
+		self.hasInterpWeights = False
 
 	def apply(self, srcData):
 		"""
-- 
2.43.0


From 56671fcf39b10e88940b695e10b25718944bc187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:38 +0000
Subject: [PATCH 17/19] fix: Python ConserveInterp2D: apply does not overwrite
 the result it returned before

---
 py/conserveInterp2D.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/py/conserveInterp2D.py b/py/conserveInterp2D.py
index 7759e44..dc62093 100644
--- a/py/conserveInterp2D.py
+++ b/py/conserveInterp2D.py
@@ -65,7 +65,8 @@ class ConserveInterp2D:
 		"""
 		if not self.hasInterpWeights:
 			raise RuntimeError('ERROR: must call "computeWeights" prior to invoking "apply"')
-		self.dstData *= 0 # initialize to zero
+		# initialize to zero, in a new array as the caller holds the previous one
+		self.dstData = numpy.zeros(self.dstData.shape, numpy.float64)
 		sigrid.so.SgConserveInterp2D_apply(ctypes.byref(self.handle),
 			                               srcData.ctypes.data_as(ctypes.POINTER(ctypes.c_double)),
 			                               self.dstData.ctypes.data_as(ctypes.POINTER(ctypes.c_double)))
-- 
2.43.0


From a5315e576586cef2b943c896885282cc3571b568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:38 +0000
Subject: [PATCH 18/19] fix: Python ConserveInterp2D: pass contiguous arrays of
 doubles to the library

---
 py/conserveInterp2D.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/py/conserveInterp2D.py b/py/conserveInterp2D.py
index dc62093..bcfae4c 100644
--- a/py/conserveInterp2D.py
+++ b/py/conserveInterp2D.py
@@ -29,6 +29,9 @@ class ConserveInterp2D:
 		@param xcoords array of point coordinates
 		@param ycoords array of point coordinates
 		"""
+		# the library expects contiguous arrays of doubles
+		xcoords = numpy.ascontiguousarray(xcoords, numpy.float64)
+		ycoords = numpy.ascontiguousarray(ycoords, numpy.float64)
 		n0, n1 = xcoords.shape
 		dims = (ctypes.c_int * NDIMS)(n0, n1)
 		coords = (ctypes.POINTER(ctypes.c_double) * NDIMS)(xcoords.ctypes.data_as(ctypes.POINTER(ctypes.c_double)),
@@ -46,6 +49,9 @@ class ConserveInterp2D:
 		@param xcoords array of point coordinates
 		@param ycoords array of point coordinates 
 		"""
+		# the library expects contiguous arrays of doubles
+		xcoords = numpy.ascontiguousarray(xcoords, numpy.float64)
+		ycoords = numpy.ascontiguousarray(ycoords, numpy.float64)
 		n0, n1 = xcoords.shape
 		dims = (ctypes.c_int * NDIMS)(n0, n1)
 		p0, p1 = int(periodicity[0]), int(periodicity[1])
@@ -65,6 +71,8 @@ class ConserveInterp2D:
 		"""
 		if not self.hasInterpWeights:
 			raise RuntimeError('ERROR: must call "computeWeights" prior to invoking "apply"')
+		# the library expects a contiguous array of doubles
+		srcData = numpy.ascontiguousarray(srcData, numpy.float64)
 		# initialize to zero, in a new array as the caller holds the previous one
 		self.dstData = numpy.zeros(self.dstData.shape, numpy.float64)
 		sigrid.so.SgConserveInterp2D_apply(ctypes.byref(self.handle),
-- 
2.43.0


From ceaeee40e5849a2670403498bf18753e9f65bcfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:58 +0000
Subject: [PATCH 19/19] fix: SgFindOverlappingCells2D: find the cells under
 polygons that reach beyond sheared or rotated grids

---
 cpp/SgFindOverlappingCells2D.h | 50 ++++++++++++++++++++++++++++++++++
 1 file changed, 50 insertions(+)

diff --git a/cpp/SgFindOverlappingCells2D.h b/cpp/SgFindOverlappingCells2D.h
index e495972..aaeb8da 100644
--- a/cpp/SgFindOverlappingCells2D.h
+++ b/cpp/SgFindOverlappingCells2D.h
@@ -8,6 +8,8 @@
 #include "SgNdims.h"
 #include "SgFindPointInCell.h"
 #include "SgBoxIterator.h"
+#include <algorithm>
+#include <limits>
 #include <vector>
 #include <cstdio> // size_t
 
@@ -118,6 +120,9 @@ struct SgFindOverlappingCells2D_type {
         // total number of Newton search errors
         int totError = 0;
 
+        // set to true if a polygon's point is not in the src grid
+        bool outside = false;
+
         // iterate over the polygon's points
         for (size_t i = 0; i < this->numPolyPoints; ++i) {
 
@@ -132,6 +137,7 @@ struct SgFindOverlappingCells2D_type {
                 targetPoint[j] = this->polyPoints[i*NDIMS_2D_PHYS + j];
                 targetPoint[j] = (targetPoint[j] >= xmins[j]? targetPoint[j]: xmins[j]);
                 targetPoint[j] = (targetPoint[j] <= xmaxs[j]? targetPoint[j]: xmaxs[j]);
+                outside |= (targetPoint[j] != this->polyPoints[i*NDIMS_2D_PHYS + j]);
             }
 
             // start search
@@ -144,6 +150,8 @@ struct SgFindOverlappingCells2D_type {
                 }
             }
 
+            outside |= (ier != 1);
+
             // error handling. In the case where the target point is outside the src grid, 
             // we expect pointFinder to return the index location just inside the src grid
             // corresponding to the physical position that is closest to the target point. 
@@ -171,9 +179,51 @@ struct SgFindOverlappingCells2D_type {
             }
         }
 
+        if (outside) {
+            // the cells under the polygon can reach beyond the index box of its points
+            this->addCellsInPolygonBox();
+        }
+
         return totError;
     }
 
+    /**
+     * Extend the index box to include all the cells that overlap with the polygon's box
+     */
+    void addCellsInPolygonBox() {
+
+        size_t n1 = this->srcNodeDims[1];
+        size_t numCells1 = n1 - 1;
+        size_t numCells = (this->srcNodeDims[0] - 1) * numCells1;
+        for (size_t cell = 0; cell < numCells; ++cell) {
+
+            size_t inds[] = {cell / numCells1, cell % numCells1};
+            size_t node = inds[0]*n1 + inds[1];
+
+            bool overlap = true;
+            for (size_t j = 0; j < NDIMS_2D_PHYS; ++j) {
+                const std::vector<double>& x = this->pointFinder->coords[j];
+                double cellLo = std::min(std::min(x[node], x[node + 1]), std::min(x[node + n1], x[node + n1 + 1]));
+                double cellHi = std::max(std::max(x[node], x[node + 1]), std::max(x[node + n1], x[node + n1 + 1]));
+                double polyLo = std::numeric_limits<double>::max();
+                double polyHi = -std::numeric_limits<double>::max();
+                for (size_t i = 0; i < this->numPolyPoints; ++i) {
+                    polyLo = std::min(polyLo, this->polyPoints[i*NDIMS_2D_PHYS + j]);
+                    polyHi = std::max(polyHi, this->polyPoints[i*NDIMS_2D_PHYS + j]);
+                }
+                overlap &= (cellLo <= polyHi && polyLo <= cellHi);
+            }
+
+            if (overlap) {
+                // the middle of the cell is enough
+                for (size_t j = 0; j < NDIMS_2D_TOPO; ++j) {
+                    this->loIndxCorner[j] = std::min(this->loIndxCorner[j], inds[j] + 0.5);
+                    this->hiIndxCorner[j] = std::max(this->hiIndxCorner[j], inds[j] + 0.5);
+                }
+            }
+        }
+    }
+
     /**
      * Find the source grid cells under the polygon
      */
-- 
2.43.0

