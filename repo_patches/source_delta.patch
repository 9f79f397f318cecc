From 1b7373107cbc5cd1b248a2ff4d2264f70dac6f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:25 +0000
Subject: [PATCH 001/155] fix: ListGrid copy constructor used an uninitialised
 memory pool

The copy constructor delegates to operator=, which calls clear(), which
deletes mem_pool. The pointer was never initialised.
---
 src/tools/ListGrid.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tools/ListGrid.hpp b/src/tools/ListGrid.hpp
index c22e879..8d9ed9a 100644
--- a/src/tools/ListGrid.hpp
+++ b/src/tools/ListGrid.hpp
@@ -77,6 +77,7 @@ public:
     }
 
     ListGrid( const ListGrid<C>& other )
+	: mem_pool(NULL)
     {
 	// use the assignment operator
 	this->operator=( other );
-- 
2.43.0


From b754474b2ab65473de1e00d72037ad01963f5d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:39 +0000
Subject: [PATCH 002/155] fix: ListGrid::move left the back reference of moved
 lists at the old cell

Erasing the first element of a moved cell unlinked it from the cell it had
been in before, so the erased element stayed reachable in the new one.
---
 src/tools/ListGrid.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tools/ListGrid.hpp b/src/tools/ListGrid.hpp
index 8d9ed9a..7bf532c 100644
--- a/src/tools/ListGrid.hpp
+++ b/src/tools/ListGrid.hpp
@@ -163,6 +163,9 @@ public:
                 else
                 {
                     cells[newX][newY] = tmp[x][y];
+                    // the first entry refers back to the cell it is stored in
+                    if( cells[newX][newY] )
+                        cells[newX][newY]->pthis = &cells[newX][newY];
                 }
             }
         }        
-- 
2.43.0


From ada249bd3adaff520a941c36c325057736b6e1f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:49 +0000
Subject: [PATCH 003/155] fix: Gaussian::eval multiplied by the normalisation
 it has to divide by

The density of a Gaussian is (2 pi)^(-d/2) |cov|^(-1/2) exp(...).
---
 src/tools/GaussianMixture.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/GaussianMixture.hpp b/src/tools/GaussianMixture.hpp
index 5fce0bc..c785184 100644
--- a/src/tools/GaussianMixture.hpp
+++ b/src/tools/GaussianMixture.hpp
@@ -59,7 +59,7 @@ template <class _Scalar, int _Dimension, class _Adapter = EigenAdapter<_Scalar,
 	Eigen::Matrix<Scalar,1,1> e = d.transpose() * cov.inverse() * d;
 	Scalar res = 
 	    pow( 2.0 * M_PI, -Dimension/2.0 )
-	    * sqrt( cov.determinant() )
+	    / sqrt( cov.determinant() )
 	    * exp( -0.5 * e[0] );
 
 	return res;
-- 
2.43.0


From 5d7bf33e703e3e99fbca441d0ba3e10b26a003c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:05 +0000
Subject: [PATCH 004/155] fix: GaussianMixture::eval ignored the component
 weights

---
 src/tools/GaussianMixture.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/GaussianMixture.hpp b/src/tools/GaussianMixture.hpp
index c785184..014200f 100644
--- a/src/tools/GaussianMixture.hpp
+++ b/src/tools/GaussianMixture.hpp
@@ -117,7 +117,7 @@ public:
     {
 	Scalar v = 0;
 	for( size_t j=0; j<params.size(); j++ )
-	    v += params[j].dist.eval( s );
+	    v += params[j].weight * params[j].dist.eval( s );
 
 	return v;
     }
-- 
2.43.0


From 0f17b8ac7b16b6aaf03bafed6068ca96e59e6d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:00 +0000
Subject: [PATCH 005/155] fix: KMeans produced NaN clusters for classes without
 samples

A class that loses all its samples (repeated points are enough) had its mean
divided by zero; the NaN then spread to the kd-tree and to all components of
a mixture initialised from the clusters. Such classes are now left out.
---
 src/tools/ExpectationMaximization.hpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/tools/ExpectationMaximization.hpp b/src/tools/ExpectationMaximization.hpp
index 1f6a77f..a882cd4 100644
--- a/src/tools/ExpectationMaximization.hpp
+++ b/src/tools/ExpectationMaximization.hpp
@@ -95,6 +95,10 @@ public:
 	kdtree.clear();
 	for( size_t j=0; j<numClasses; j++ )
 	{
+	    // classes without samples have no mean
+	    if( !(sum[j] > 0) )
+		continue;
+
 	    means[j] /= sum[j];
 	    kdtree.insert( Sample( j, means[j]) );
 	}
@@ -127,10 +131,13 @@ public:
 	for( size_t i=0; i<samples.size(); i++ )
 	    stats[index[i]].insert( samples[i], hasWeights ? weights[i] : 1.0 );
 
-	// and calc mean and covariance
-	std::vector<Gaussian<Scalar, Dimension, typename GMM::Adapter> > res( means.size() );
+	// and calc mean and covariance of the classes that have samples
+	std::vector<Gaussian<Scalar, Dimension, typename GMM::Adapter> > res;
 	for( size_t j=0; j<means.size(); j++ )
-	    res[j] = stats[j].update();
+	{
+	    if( stats[j].sum > 0 )
+		res.push_back( stats[j].update() );
+	}
 	return res;
     }
 };
-- 
2.43.0


From 060d96296bbcff5d77a4ff5e28618b9ac5709b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:00 +0000
Subject: [PATCH 006/155] fix: KMeans::initialize kept the class assignment of
 an earlier run

The stale assignment could make run() stop before the means were computed.
---
 src/tools/ExpectationMaximization.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/ExpectationMaximization.hpp b/src/tools/ExpectationMaximization.hpp
index a882cd4..5382797 100644
--- a/src/tools/ExpectationMaximization.hpp
+++ b/src/tools/ExpectationMaximization.hpp
@@ -62,7 +62,7 @@ public:
 
 	// create index which stores class assignment for each 
 	// sample. assign evenly in the beginning
-	index.resize( s.size(), 0 );
+	index.assign( s.size(), 0 );
 
 	// initialize the means kdtree and array
 	kdtree.clear();
-- 
2.43.0


From 73573df9a692858f74eb1c2a70c26992ff76baf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:53 +0000
Subject: [PATCH 007/155] fix: BoxLookUpTable answered look-ups one cell
 outside its table

The upper bounds were off by one, so that such a look-up read the next row,
or past the end of the table.
---
 src/tools/BoxLookUpTable.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/BoxLookUpTable.cpp b/src/tools/BoxLookUpTable.cpp
index 9898a92..f9e2222 100644
--- a/src/tools/BoxLookUpTable.cpp
+++ b/src/tools/BoxLookUpTable.cpp
@@ -122,7 +122,7 @@ const double& BoxLookUpTable::getDistanceToBox(double xp, double yp) const
     int x = (xp + centerX) / scale;
     int y = (yp + centerY) / scale;
     
-    if(x < 0 || x > cellSizeX || y < 0 || y > cellSizeY)
+    if(x < 0 || x >= cellSizeX || y < 0 || y >= cellSizeY)
     {
         std::cout << "xp " << xp << " yp " << yp << " x " << x << " y " << y << std::endl; 
         throw std::runtime_error("BoxLookUpTable:: Distance lookup out of bound");
-- 
2.43.0


From 52d71b76c4545b407ec75611b2f79e5276009030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:11 +0000
Subject: [PATCH 008/155] fix: BoxLookUpTable reported distance 0 in an
 unsampled last row or column

When the table's upper border reached less than a twentieth of a cell into
the last row or column, no sample fell into it and its distance stayed 0,
the value of cells inside the box.
---
 src/tools/BoxLookUpTable.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/tools/BoxLookUpTable.cpp b/src/tools/BoxLookUpTable.cpp
index f9e2222..5566ffc 100644
--- a/src/tools/BoxLookUpTable.cpp
+++ b/src/tools/BoxLookUpTable.cpp
@@ -62,14 +62,20 @@ void BoxLookUpTable::computeDistances()
         }
     }
     
-    for(double x = -(sizeXHalf + maxDistFromBox); x < (sizeXHalf + maxDistFromBox); x+= scale / 10.0)
+    //the last sample of each axis is taken on the upper border, else
+    //the last cell may stay without samples
+    const double endX = sizeXHalf + maxDistFromBox;
+    const double endY = sizeYHalf + maxDistFromBox;
+    for(double xs = -endX; xs < endX + scale / 10.0; xs+= scale / 10.0)
     {        
+        const double x = std::min(xs, endX);
         int xi = (x + centerX) / scale;
         if(xi < 0 || xi >= cellSizeX)
             continue;
         
-        for(double y = -(sizeYHalf + maxDistFromBox); y < (sizeYHalf + maxDistFromBox); y+= scale / 10.0)
+        for(double ys = -endY; ys < endY + scale / 10.0; ys+= scale / 10.0)
         {
+            const double y = std::min(ys, endY);
             int yi = (y + centerY) / scale;
 
             if(yi < 0 || yi >= cellSizeY)
-- 
2.43.0


From a357102e8dccc0d7fba28d555e958105400a1d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:11 +0000
Subject: [PATCH 009/155] fix: BoxLookUpTable mapped points below its lower
 borders into the table

Truncation towards zero made the cell before the first one part of it.
---
 src/tools/BoxLookUpTable.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools/BoxLookUpTable.cpp b/src/tools/BoxLookUpTable.cpp
index 5566ffc..23d6cf0 100644
--- a/src/tools/BoxLookUpTable.cpp
+++ b/src/tools/BoxLookUpTable.cpp
@@ -125,8 +125,8 @@ const double& BoxLookUpTable::getDistanceToBox(double xp, double yp) const
     if(!distanceTable)
         throw std::runtime_error("BoxLookUpTable::Lookup table is not computed");    
 
-    int x = (xp + centerX) / scale;
-    int y = (yp + centerY) / scale;
+    int x = floor((xp + centerX) / scale);
+    int y = floor((yp + centerY) / scale);
     
     if(x < 0 || x >= cellSizeX || y < 0 || y >= cellSizeY)
     {
-- 
2.43.0


From 40b608a75dd2e71f6af3b7f3860417c7f71f7f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:58 +0000
Subject: [PATCH 010/155] fix: RadialLookUpTable had no entry for some positive
 offsets within its radius

For a radius that is not a multiple of half the scale, the largest positive
offset inside the radius read the next row, or past the end of the table.
---
 src/tools/RadialLookUpTable.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/RadialLookUpTable.cpp b/src/tools/RadialLookUpTable.cpp
index 8a2e28b..e8347f5 100644
--- a/src/tools/RadialLookUpTable.cpp
+++ b/src/tools/RadialLookUpTable.cpp
@@ -15,8 +15,8 @@ void RadialLookUpTable::recompute(double scale, double maxRadius)
     
     this->maxRadius = maxRadius;
     this->scale = scale;
-    numElementsPerLine = maxRadius / scale * 2;
     numElementsPerLineHalf = maxRadius / scale;
+    numElementsPerLine = numElementsPerLineHalf * 2 + 1;
 
     computeAngles();
     computeDistances();
-- 
2.43.0


From bd1097efbef6bd304996f029a3b98fdaa3eebd45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:38 +0000
Subject: [PATCH 011/155] fix: metadata access with the wrong type dereferenced
 a null pointer instead of throwing

---
 src/core/Holder.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/core/Holder.hpp b/src/core/Holder.hpp
index 9f77c5e..0cc33be 100644
--- a/src/core/Holder.hpp
+++ b/src/core/Holder.hpp
@@ -2,6 +2,7 @@
 #define ENVIRE_HOLDER__
 
 #include <boost/noncopyable.hpp>
+#include <stdexcept>
 
 namespace envire
 {
@@ -64,13 +65,19 @@ namespace envire
     }
     template <typename T> T& HolderBase::get()
     {
-        return *dynamic_cast< Holder<T>* >(this)->getData();
+        Holder<T>* myself = dynamic_cast< Holder<T>* >(this);
+        if( !myself )
+            throw std::runtime_error("data type mismatch.");
+        return *myself->getData();
     }
 
     template <typename T> 
     const T& HolderBase::get() const
     {
-        return *dynamic_cast< Holder<T>* >(this)->getData();
+        Holder<T> const* myself = dynamic_cast< Holder<T> const* >(this);
+        if( !myself )
+            throw std::runtime_error("data type mismatch.");
+        return *myself->getData();
     }
 }
 
-- 
2.43.0


From aa94be67a391fa09141d4eff7a77d389ab2926a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:38 +0000
Subject: [PATCH 012/155] fix: layer and operator relations were added twice
 unless they were the first one

---
 src/core/Environment.cpp | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/src/core/Environment.cpp b/src/core/Environment.cpp
index 88e88c8..8d3673a 100644
--- a/src/core/Environment.cpp
+++ b/src/core/Environment.cpp
@@ -428,9 +428,13 @@ void Environment::addChild(Layer* parent, Layer* child)
     assert( parent != child );
 
     // don't do anything if relationsship already present
-    layerTreeType::iterator it = layerTree.find( child );
-    if( it != layerTree.end() && it->second == parent )
-	return;
+    typedef layerTreeType::iterator iterator;
+    std::pair<iterator,iterator> range = layerTree.equal_range( child );
+    for( iterator it = range.first; it != range.second; it++ )
+    {
+	if( it->second == parent )
+	    return;
+    }
     
     if( !child->isAttached() )
 	attachItem( child );
@@ -609,9 +613,13 @@ std::list<CartesianMap*> Environment::getMaps(FrameNode* node)
 bool Environment::addInput(Operator* op, Layer* input)
 {
     // don't do anything if relationsship already present
-    operatorGraphType::iterator it = operatorGraphInput.find( op );
-    if( it != operatorGraphInput.end() && it->second == input )
-	return false;
+    typedef operatorGraphType::iterator iterator;
+    std::pair<iterator,iterator> range = operatorGraphInput.equal_range( op );
+    for( iterator it = range.first; it != range.second; it++ )
+    {
+	if( it->second == input )
+	    return false;
+    }
     
     if( !op->isAttached() )
 	attachItem( op );
@@ -627,9 +635,13 @@ bool Environment::addInput(Operator* op, Layer* input)
 bool Environment::addOutput(Operator* op, Layer* output)
 {
     // don't do anything if relationsship already present
-    operatorGraphType::iterator it = operatorGraphOutput.find( op );
-    if( it != operatorGraphOutput.end() && it->second == output )
-	return false;
+    typedef operatorGraphType::iterator iterator;
+    std::pair<iterator,iterator> range = operatorGraphOutput.equal_range( op );
+    for( iterator it = range.first; it != range.second; it++ )
+    {
+	if( it->second == output )
+	    return false;
+    }
 
     if( !op->isAttached() )
 	attachItem( op );
-- 
2.43.0


From de1a5ebd9251aa230b3cd58bedf3cfd952f9e5bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:38 +0000
Subject: [PATCH 013/155] fix: removing a layer relation that does not exist
 was announced to the event handlers

---
 src/core/Environment.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/Environment.cpp b/src/core/Environment.cpp
index 8d3673a..7005191 100644
--- a/src/core/Environment.cpp
+++ b/src/core/Environment.cpp
@@ -463,14 +463,14 @@ void Environment::removeChild(FrameNode* parent, FrameNode* child)
 
 void Environment::removeChild(Layer* parent, Layer* child) 
 {
-    handle( Event( event::LAYER_TREE, event::REMOVE, parent, child ) );
-
     typedef layerTreeType::iterator iterator;
     std::pair<iterator,iterator> range = layerTree.equal_range( child );
     for( iterator it = range.first; it != range.second; it++ )
     {
 	if( it->second == parent )
 	{
+	    handle( Event( event::LAYER_TREE, event::REMOVE, parent, child ) );
+
 	    layerTree.erase( it );
 	    return;
 	}
-- 
2.43.0


From 54d80f25741463f676bcb3011a9671ef130f9010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:38 +0000
Subject: [PATCH 014/155] fix: attaching an item of another environment used it
 after it was deleted

---
 src/core/Environment.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/core/Environment.cpp b/src/core/Environment.cpp
index 7005191..c65fb4e 100644
--- a/src/core/Environment.cpp
+++ b/src/core/Environment.cpp
@@ -264,6 +264,9 @@ void Environment::attachItem(EnvironmentItem* item)
 {
     assert( item );
 
+    // the last reference may be the one of the environment the item comes from
+    EnvironmentItem::Ptr previous;
+
     if(!item->isAttached())
     {
         if(item->unique_id == ITEM_NOT_ATTACHED)
@@ -290,7 +293,7 @@ void Environment::attachItem(EnvironmentItem* item)
     {
 	// if it comes from a different environment, it
 	// needs to be detached first
-	item->detach();
+	previous = item->detach();
     }
 
     // make sure item not already present
-- 
2.43.0


From f6c3078c589094cddd9ed4dec68acb1aacc98fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:06 +0000
Subject: [PATCH 015/155] fix: copies of an item lost its label

---
 src/core/Environment.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/Environment.cpp b/src/core/Environment.cpp
index c65fb4e..57c5cb4 100644
--- a/src/core/Environment.cpp
+++ b/src/core/Environment.cpp
@@ -36,12 +36,13 @@ EnvironmentItem::EnvironmentItem(Environment* envPtr)
 }
 
 EnvironmentItem::EnvironmentItem(const EnvironmentItem& item)
-    : ref_count(0), unique_id( Environment::ITEM_NOT_ATTACHED ), env(NULL)
+    : ref_count(0), unique_id( Environment::ITEM_NOT_ATTACHED ), label( item.label ), env(NULL)
 {
 }
 
 EnvironmentItem& EnvironmentItem::operator=(const EnvironmentItem& other)
 {
+    label = other.label;
     return *this;
 }
 
-- 
2.43.0


From c49f2fbe644f9f52958221c49e313f53653bea64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:06 +0000
Subject: [PATCH 016/155] fix: event handlers were not told about layer
 relations, unconnected frame trees and maps of the root node when added or
 removed

---
 src/core/Environment.cpp | 43 ++++++++++++++++++++++++++++++++--------
 1 file changed, 35 insertions(+), 8 deletions(-)

diff --git a/src/core/Environment.cpp b/src/core/Environment.cpp
index 57c5cb4..bd681ca 100644
--- a/src/core/Environment.cpp
+++ b/src/core/Environment.cpp
@@ -190,6 +190,20 @@ void Environment::addEventHandler(EventHandler *handler)
     //iterate over frame tree
     publishChilds(handler, getRootNode());    
 
+    //and over the trees which are not connected to the root node
+    std::vector<FrameNode*> nodes = getItems<FrameNode>();
+    for(std::vector<FrameNode*>::iterator it = nodes.begin(); it != nodes.end(); it++)
+    {
+	if( *it != getRootNode() && !getParent(*it) )
+	    publishChilds(handler, *it);
+    }
+
+    //publish the relations between layers
+    for(layerTreeType::iterator it = layerTree.begin(); it != layerTree.end(); it++)
+    {
+	handler->receive( Event( event::LAYER_TREE, event::ADD, it->second, it->first ) );
+    }
+
     //publish connections between maps and Framenodes
     for(cartesianMapGraphType::iterator it = cartesianMapGraph.begin(); it != cartesianMapGraph.end(); it++) 
     {
@@ -211,22 +225,35 @@ void Environment::detachChilds(FrameNode *parent, EventHandler *evl)
 	    detachChilds(*it, evl);   
 	}
 	
-	std::list<CartesianMap*> maplist = getMaps(*it);
-	
-	//now it is a leaf, detach all maps attached to framenode
-	for(std::list<CartesianMap*>::iterator mapit = maplist.begin(); mapit != maplist.end(); mapit++) {
-	    evl->receive( Event( event::FRAMENODE, event::REMOVE, *mapit, *it ) );
-	}
-	
-	//and remove the leaf
+	//now it is a leaf, remove it
 	evl->receive( Event( event::FRAMENODE_TREE, event::REMOVE, parent, *it ) );
     }    
 };
 
 void Environment::removeEventHandler(EventHandler *handler) 
 {
+    //remove the connections between maps and Framenodes
+    for(cartesianMapGraphType::iterator it = cartesianMapGraph.begin(); it != cartesianMapGraph.end(); it++) 
+    {
+	handler->receive( Event( event::FRAMENODE, event::REMOVE, it->first, it->second ) );
+    }
+
+    //remove the relations between layers
+    for(layerTreeType::iterator it = layerTree.begin(); it != layerTree.end(); it++)
+    {
+	handler->receive( Event( event::LAYER_TREE, event::REMOVE, it->second, it->first ) );
+    }
+
     //reverse iterate over the frame node tree and detach all children    
     detachChilds(getRootNode(), handler);
+
+    //and the trees which are not connected to the root node
+    std::vector<FrameNode*> nodes = getItems<FrameNode>();
+    for(std::vector<FrameNode*>::iterator it = nodes.begin(); it != nodes.end(); it++)
+    {
+	if( *it != getRootNode() && !getParent(*it) )
+	    detachChilds(*it, handler);
+    }
     
     //remove root node
     handler->receive( Event( event::ROOT, event::REMOVE, getRootNode() ) );
-- 
2.43.0


From 05be2f26fb72fb616d05eac59c5eb1b90a0c0e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:06 +0000
Subject: [PATCH 017/155] fix: applying an update of an item the environment
 does not have announced a null item

---
 src/core/Event.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/Event.cpp b/src/core/Event.cpp
index e12e565..d50a853 100644
--- a/src/core/Event.cpp
+++ b/src/core/Event.cpp
@@ -131,6 +131,8 @@ struct ApplyEventHelper : public EventDispatcher
 	    // for the time being copy the whole item
 	    // TODO: implement partial updates
 	    item->set( event.a.get() );
+
+	    env.itemModified( item );
 	}
 	else if( lenient )
 	{
@@ -142,8 +144,6 @@ struct ApplyEventHelper : public EventDispatcher
 	{
 	    throw std::runtime_error("Event could not be applied. Item does not exist in environment.");
 	}
-	
-	env.itemModified( item );
     }
 
     void itemDetached(EnvironmentItem *item)
-- 
2.43.0


From 603e082bd3f7a2f02d05a41452508129c9463093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:49 +0000
Subject: [PATCH 018/155] fix: an item replaced between two flushes of an event
 queue kept its old content at the receiver

---
 src/core/EventHandler.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/core/EventHandler.cpp b/src/core/EventHandler.cpp
index b78edbb..0b33fd2 100644
--- a/src/core/EventHandler.cpp
+++ b/src/core/EventHandler.cpp
@@ -97,7 +97,14 @@ void EventQueue::handle( const Event& message )
 
 	// cancel will also make the current event obsolete
 	if( res == event::CANCEL )
-	    valid = false;
+	{
+	    // unless an item is added again, which may not be the one
+	    // that was removed
+	    if( event.type == event::ITEM && event.operation == event::ADD )
+		event.operation = event::UPDATE;
+	    else
+		valid = false;
+	}
     }
 
     if( valid )
-- 
2.43.0


From a6587915edfb5d254e9d4689df67087ef8a9e7cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:49 +0000
Subject: [PATCH 019/155] fix: Layer::detachFromOperator left the layer
 generated by its operator

---
 src/core/Layer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/Layer.cpp b/src/core/Layer.cpp
index 5bf55d6..5bcf6f0 100644
--- a/src/core/Layer.cpp
+++ b/src/core/Layer.cpp
@@ -101,7 +101,7 @@ bool Layer::isDirty() const
 bool Layer::detachFromOperator()
 {
     if( isGenerated() ) 
-	return env->removeInput( getGenerator(), this );
+	return env->removeOutput( getGenerator(), this );
 
     return true;
 }
-- 
2.43.0


From bec97726df3b7d29c95fbc3ae647d098817a6c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:49 +0000
Subject: [PATCH 020/155] fix: Layer::updateFromOperator left the layer dirty

---
 src/core/Layer.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/Layer.cpp b/src/core/Layer.cpp
index 5bcf6f0..4f96c7b 100644
--- a/src/core/Layer.cpp
+++ b/src/core/Layer.cpp
@@ -120,7 +120,10 @@ Operator* Layer::getGenerator() const
 void Layer::updateFromOperator() 
 {
     if( isGenerated() && isDirty() )
+    {
         getGenerator()->updateAll();
+        resetDirty();
+    }
 }
 
 const std::string Layer::getMapFileName() const 
-- 
2.43.0


From 84fb0af7620c236db08b89f33e2f0273cac28eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:49 +0000
Subject: [PATCH 021/155] fix: transformed extents of two-dimensional maps used
 an uninitialised height

---
 src/Core.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Core.hpp b/src/Core.hpp
index 8c4dd45..958d05f 100644
--- a/src/Core.hpp
+++ b/src/Core.hpp
@@ -128,7 +128,7 @@ namespace envire
 	    // go through all the permutations to get the corners
 	    for( int i=0; i<pow(2,DIMENSION); i++ )
 	    {
-		Eigen::Vector3d corner;
+		Eigen::Vector3d corner( Eigen::Vector3d::Zero() );
 		for( int j=0; j<DIMENSION; j++ )
 		    corner[j] = (i>>j)&1 ? pc_extents.min()[j] : pc_extents.max()[j];
 		corners.push_back( corner );
-- 
2.43.0


From 8b44f46ed3ff9d81206c6f59a4357ad69c6eac8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:11 +0000
Subject: [PATCH 022/155] fix: binary events truncated the properties of an
 item after 10000 bytes

---
 src/core/Serialization.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/core/Serialization.cpp b/src/core/Serialization.cpp
index 7b73884..e5fa422 100644
--- a/src/core/Serialization.cpp
+++ b/src/core/Serialization.cpp
@@ -756,6 +756,15 @@ EnvironmentItem* BinarySerialization::unserializeBinaryEvent(const EnvireBinaryE
     return item;
 }
 
+/** write handler of the yaml emitter, which appends to a vector of bytes
+ */
+static int appendYAML(void* data, unsigned char* buffer, size_t size)
+{
+    std::vector<uint8_t>& target = *static_cast<std::vector<uint8_t>*>(data);
+    target.insert(target.end(), buffer, buffer + size);
+    return 1;
+}
+
 bool BinarySerialization::serializeBinaryEvent(EnvironmentItem* item, EnvireBinaryEvent& bin_item)
 {
     assert(item);
@@ -767,10 +776,7 @@ bool BinarySerialization::serializeBinaryEvent(EnvironmentItem* item, EnvireBina
     
     // config yaml
     yaml_emitter_initialize(&yamlSerialization->emitter);
-    bin_item.yamlProperties.resize(10000,0);
-    size_t size_written = 0;
-    yaml_emitter_set_output_string(&yamlSerialization->emitter, reinterpret_cast<unsigned char*>(bin_item.yamlProperties.data()),
-                                   bin_item.yamlProperties.size(), &size_written);
+    yaml_emitter_set_output(&yamlSerialization->emitter, &appendYAML, &bin_item.yamlProperties);
     
     // build up document
     if( !yaml_document_initialize(&yamlSerialization->document, NULL, NULL, NULL, 1, 1) )
@@ -790,7 +796,6 @@ bool BinarySerialization::serializeBinaryEvent(EnvironmentItem* item, EnvireBina
     
     // write yaml document to yaml stream
     int result = yaml_emitter_dump( &yamlSerialization->emitter, &yamlSerialization->document );
-    bin_item.yamlProperties.resize(size_written,0);
     
     // fill binary streams
     for(std::map<std::string, std::stringstream*>::iterator it = stringstreams.begin(); it != stringstreams.end(); it++)
-- 
2.43.0


From adbb9641309a468b0eaedd6623fafa1be289405e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:11 +0000
Subject: [PATCH 023/155] fix: context updates of a queued copy of a map looked
 up the frame of an unattached item

---
 src/core/Serialization.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/Serialization.cpp b/src/core/Serialization.cpp
index e5fa422..821ef6d 100644
--- a/src/core/Serialization.cpp
+++ b/src/core/Serialization.cpp
@@ -872,7 +872,7 @@ void SynchronizationEventHandler::process(const envire::Event& message)
 	    // we might actually be working on a copy of the original item
 	    // in case the event got queued. For this reason, try to get the
 	    // original item back
-	    if( !item ) 
+	    if( !item || !item->isAttached() )
 		item = m_env->getItem( message.id_a ).get();
 
 	    // in case we have a cartesian map, also provide the full framenode
-- 
2.43.0


From 30586d6ad505c316bece222af516110daa8f9ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:53 +0000
Subject: [PATCH 024/155] fix: an unknown unqualified class name created the
 class named by all but its first letter

---
 src/core/SerializationFactory.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/SerializationFactory.cpp b/src/core/SerializationFactory.cpp
index 178e317..7713332 100644
--- a/src/core/SerializationFactory.cpp
+++ b/src/core/SerializationFactory.cpp
@@ -25,7 +25,7 @@ EnvironmentItem* SerializationFactory::createObject( const std::string& classNam
     Factory f = NULL;
     if( classMap.count( className ) )
 	f = classMap[className];
-    else 
+    else if( className.rfind("::") != std::string::npos )
     {
 	std::string name = className.substr( className.rfind("::") + 2 );
 	if( classMap.count( name ) )
-- 
2.43.0


From 98b475a088584cfe8d8c76dfc5bde46110403356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:08 +0000
Subject: [PATCH 025/155] fix: the covariance of a rotated point used a term of
 the wrong sign

---
 src/core/Transform.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/Transform.cpp b/src/core/Transform.cpp
index 5d4f73b..930a7c3 100644
--- a/src/core/Transform.cpp
+++ b/src/core/Transform.cpp
@@ -126,7 +126,7 @@ Eigen::Matrix<double,3,3> drx_by_dr( const Eigen::Quaterniond& q, const Eigen::V
     const double theta = r.norm();
     const double alpha = 1.0 - theta*theta/6.0;
     const double beta = 0.5 - theta*theta/24.0;
-    const double gamma = 1.0 / 3.0 - theta*theta/30.0;
+    const double gamma = -1.0 / 3.0 + theta*theta/30.0;
     const double delta = -1.0 / 12.0 + theta*theta/180.0;
 
     return Eigen::Matrix3d(
-- 
2.43.0


From 0cfac675cbddd1ce35a7ac2af5f681eb1bebe6d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:08 +0000
Subject: [PATCH 026/155] fix: the inverse of an uncertain transform had the
 wrong rotational contribution to its translation

---
 src/core/Transform.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/Transform.cpp b/src/core/Transform.cpp
index 930a7c3..691d3d7 100644
--- a/src/core/Transform.cpp
+++ b/src/core/Transform.cpp
@@ -279,7 +279,7 @@ TransformWithUncertainty TransformWithUncertainty::inverse() const
     Eigen::Vector3d t( getTransform().translation() );
     Eigen::Matrix<double,6,6> J;
     J << Eigen::Matrix3d::Identity(), Eigen::Matrix3d::Zero(),
-	drx_by_dr( q.inverse(), t ), q.toRotationMatrix().transpose();
+	-drx_by_dr( q.inverse(), t ), q.toRotationMatrix().transpose();
 
     return TransformWithUncertainty(
 	    Eigen::Affine3d( getTransform().inverse( Eigen::Isometry ) ),
-- 
2.43.0


From 02359b96365beeeff0b6eba3e8b7137c7651a5e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:43 +0000
Subject: [PATCH 027/155] fix: relative transforms counted the uncertainty of
 frames which are not between the two frames

---
 src/core/Environment.cpp | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/src/core/Environment.cpp b/src/core/Environment.cpp
index bd681ca..40f933e 100644
--- a/src/core/Environment.cpp
+++ b/src/core/Environment.cpp
@@ -791,17 +791,27 @@ template <>
 TransformWithUncertainty getTransform( const FrameNode* fn ) { return fn->getTransformWithUncertainty(); }
 
 template <class T>
-std::pair<T, const FrameNode*> relativeFrameNodeRoot( const FrameNode* from )
+T relativeFrameNodeAncestor( const FrameNode* from, const FrameNode* ancestor )
 {
     T C_fg(envire::Transform(Eigen::Affine3d::Identity()));
 
-    const FrameNode *t = from;
-    while(!t->isRoot())
-    {
+    for( const FrameNode *t = from; t != ancestor; t = t->getParent() )
 	C_fg = getTransform<T>(t) * C_fg;
-	t = t->getParent();
+
+    return C_fg;
+}
+
+const FrameNode* commonAncestor( const FrameNode* a, const FrameNode* b )
+{
+    for( const FrameNode *ta = a; ta; ta = ta->getParent() )
+    {
+	for( const FrameNode *tb = b; tb; tb = tb->getParent() )
+	{
+	    if( ta == tb )
+		return ta;
+	}
     }
-    return make_pair( C_fg, t );
+    return NULL;
 }
 
 template <class T>
@@ -810,13 +820,15 @@ T relativeTransform(const FrameNode* from, const FrameNode* to)
     if (from == to)
         return T( Eigen::Affine3d::Identity() );
 
-    std::pair<T, const FrameNode*> fg = relativeFrameNodeRoot<T>(from);
-    std::pair<T, const FrameNode*> tg = relativeFrameNodeRoot<T>(to);
+    // the frames above the first common one are not on the way, and must not
+    // contribute their uncertainty
+    const FrameNode* ancestor = commonAncestor( from, to );
 
-    if( fg.second != tg.second )
+    if( !ancestor )
 	throw std::runtime_error("relativeTransform: FrameNodes don't have a common root.");
 
-    return T( tg.first.inverse() * fg.first );
+    return T( relativeFrameNodeAncestor<T>( to, ancestor ).inverse() 
+	    * relativeFrameNodeAncestor<T>( from, ancestor ) );
 }
 
 Transform Environment::relativeTransform(const FrameNode* from, const FrameNode* to)
-- 
2.43.0


From df21c528c5c92c9749218fb72243b62beb9267bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:55 +0000
Subject: [PATCH 028/155] fix: a layer with several generators was still
 generated after detachFromOperator

---
 src/core/Layer.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/core/Layer.cpp b/src/core/Layer.cpp
index 4f96c7b..dd404f2 100644
--- a/src/core/Layer.cpp
+++ b/src/core/Layer.cpp
@@ -100,8 +100,11 @@ bool Layer::isDirty() const
 
 bool Layer::detachFromOperator()
 {
-    if( isGenerated() ) 
-	return env->removeOutput( getGenerator(), this );
+    while( isGenerated() ) 
+    {
+	if( !env->removeOutput( getGenerator(), this ) )
+	    return false;
+    }
 
     return true;
 }
-- 
2.43.0


From f6e3c59ae59ca7951db192871315fe86922f1d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:52 +0000
Subject: [PATCH 029/155] fix: positions far outside of a grid were reported to
 be in its first cell

---
 src/maps/GridBase.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/maps/GridBase.cpp b/src/maps/GridBase.cpp
index 72d6a2d..e0c1262 100644
--- a/src/maps/GridBase.cpp
+++ b/src/maps/GridBase.cpp
@@ -391,8 +391,10 @@ bool GridBase::toGrid( Eigen::Vector3d const& point,
 
 bool GridBase::toGrid(double x, double y, size_t& xi, size_t& yi, double& xmod, double& ymod) const
 {
-    size_t am = floor((x-offsetx)/scalex);
-    size_t an = floor((y-offsety)/scaley);
+    // compare before the conversion to an index, which is only defined for
+    // values that fit
+    double am = floor((x-offsetx)/scalex);
+    double an = floor((y-offsety)/scaley);
 
     if( 0 <= am && am < cellSizeX && 0 <= an && an < cellSizeY )
     {
@@ -415,10 +417,10 @@ bool GridBase::toGrid( double x, double y, size_t& xi, size_t& yi) const
 
 bool envire::GridBase::toGridTimesX(double x, double y, size_t& xi, size_t& yi, int multiplier) const
 {
-    size_t am = floor(((x-offsetx)/scalex)*multiplier);
-    size_t an = floor(((y-offsety)/scaley)*multiplier);
+    double am = floor(((x-offsetx)/scalex)*multiplier);
+    double an = floor(((y-offsety)/scaley)*multiplier);
 
-    if((am < (cellSizeX * multiplier)) && (an < (cellSizeY * multiplier)))
+    if((0 <= am) && (am < (cellSizeX * multiplier)) && (0 <= an) && (an < (cellSizeY * multiplier)))
     {
         xi = am;
         yi = an;
-- 
2.43.0


From 800b50a77ab2482a149485c7dca580fb5183792d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:52 +0000
Subject: [PATCH 030/155] fix: the extents of a grid were one cell too large

---
 src/maps/GridBase.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/maps/GridBase.cpp b/src/maps/GridBase.cpp
index e0c1262..9ed2bd9 100644
--- a/src/maps/GridBase.cpp
+++ b/src/maps/GridBase.cpp
@@ -493,7 +493,8 @@ GridBase::Extents GridBase::getExtents() const
 
 GridBase::CellExtents GridBase::getCellExtents() const
 {
-    return CellExtents( Eigen::Vector2i::Zero(), Eigen::Vector2i( cellSizeX, cellSizeY ) );
+    // the maximum is the last cell, not the one behind it
+    return CellExtents( Eigen::Vector2i::Zero(), Eigen::Vector2i( (int)cellSizeX - 1, (int)cellSizeY - 1 ) );
 }
 
 template<typename T>
-- 
2.43.0


From 5abf1742692231106cf68e030188d8bdf6ec06ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:52 +0000
Subject: [PATCH 031/155] fix: the outer rectangle of forEachInRectangles was
 walked in the order of the inner one

---
 src/maps/GridBase.cpp | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/src/maps/GridBase.cpp b/src/maps/GridBase.cpp
index 9ed2bd9..77b75fe 100644
--- a/src/maps/GridBase.cpp
+++ b/src/maps/GridBase.cpp
@@ -148,15 +148,9 @@ bool envire::GridBase::forEachInRectangles(const base::Pose2D& rectCenter_w, dou
         lineBresenham(upRight_g, upLeft_g, leftIn);
         lineBresenham(upLeft_g, downLeft_g, leftIn);
 
-        lineBresenham(upRightOut, upLeftOut, leftOut);
-        lineBresenham(upLeftOut, downLeftOut, leftOut);
-
         //points of right side
         lineBresenham(upRight_g, downRight_g, rightIn);
         lineBresenham(downRight_g, downLeft_g, rightIn);
-
-        lineBresenham(upRightOut, downRightOut, rightOut);
-        lineBresenham(downRightOut, downLeftOut, rightOut);
     }
     else
     {
@@ -164,13 +158,30 @@ bool envire::GridBase::forEachInRectangles(const base::Pose2D& rectCenter_w, dou
         lineBresenham(downRight_g, upRight_g, leftIn);
         lineBresenham(upRight_g, upLeft_g, leftIn);
 
-        lineBresenham(downRightOut, upRightOut, leftOut);
-        lineBresenham(upRightOut, upLeftOut, leftOut);
-
         //points of right side
         lineBresenham(downRight_g, downLeft_g, rightIn);
         lineBresenham(downLeft_g, upLeft_g, rightIn);
+    }
+
+    // the topmost corner of the outer rectangle may be a different one, since
+    // the inner one can be too small for its orientation to be resolved
+    if(upRightOut.y > downRightOut.y)
+    {
+        //points of left side
+        lineBresenham(upRightOut, upLeftOut, leftOut);
+        lineBresenham(upLeftOut, downLeftOut, leftOut);
 
+        //points of right side
+        lineBresenham(upRightOut, downRightOut, rightOut);
+        lineBresenham(downRightOut, downLeftOut, rightOut);
+    }
+    else
+    {
+        //points of left side
+        lineBresenham(downRightOut, upRightOut, leftOut);
+        lineBresenham(upRightOut, upLeftOut, leftOut);
+
+        //points of right side
         lineBresenham(downRightOut, downLeftOut, rightOut);
         lineBresenham(downLeftOut, upLeftOut, rightOut);
     }
-- 
2.43.0


From 3162c53f83058bfe2db929fbc929738a34a4b4e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:52 +0000
Subject: [PATCH 032/155] fix: grids moved by whole cells were not recognized
 as cell aligned, while rotated ones were

---
 src/maps/GridBase.cpp | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/maps/GridBase.cpp b/src/maps/GridBase.cpp
index 77b75fe..9190756 100644
--- a/src/maps/GridBase.cpp
+++ b/src/maps/GridBase.cpp
@@ -613,16 +613,24 @@ bool GridBase::isCellAlignedWith(GridBase const& grid) const
         getScaleY() != grid.getScaleY() )
 	return false;
 
-    // see if the difference of the world position of the 0 grid cells is a
-    // multiple of the cell scale
-    Eigen::Vector3d rootDiff = 
-	fromGrid( 0, 0, getEnvironment()->getRootNode() )
-	 -grid.fromGrid( 0, 0, grid.getEnvironment()->getRootNode() );
-    Eigen::Vector3d cellDiff = 
-	(rootDiff.array() * Eigen::Array3d( 1.0/getScaleX(), 1.0/getScaleY(), 0 )).matrix();
-
-    if( !(cellDiff.cast<int>().cast<double>() - cellDiff).isZero() )
-	return false;
+    // see if all the corners of the other grid are moved by the same whole
+    // number of cells
+    Transform tf = getEnvironment()->relativeTransform(&grid, this);
+    Eigen::Vector2d cells;
+    for( int i = 0; i < 4; i++ )
+    {
+	Eigen::Vector2d index( i & 1 ? grid.getCellSizeX() : 0, i & 2 ? grid.getCellSizeY() : 0 );
+	Eigen::Vector3d p = tf * Eigen::Vector3d( 
+		index.x() * grid.getScaleX() + grid.getOffsetX(),
+		index.y() * grid.getScaleY() + grid.getOffsetY(), 0 );
+	Eigen::Vector2d diff(
+		(p.x() - getOffsetX()) / getScaleX() - index.x(),
+		(p.y() - getOffsetY()) / getScaleY() - index.y() );
+	if( i == 0 )
+	    cells = Eigen::Vector2d( rint(diff.x()), rint(diff.y()) );
+	if( !((diff - cells).array().abs() < 1e-6).all() )
+	    return false;
+    }
 
     return true;
 }
-- 
2.43.0


From a99b01900983aae8c6aa93a1fadc2fa6af057368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:52 +0000
Subject: [PATCH 033/155] fix: isAlignedWith ignored the scale of the grids and
 the misalignment at their origin

---
 src/maps/GridBase.cpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/maps/GridBase.cpp b/src/maps/GridBase.cpp
index 9190756..20ab447 100644
--- a/src/maps/GridBase.cpp
+++ b/src/maps/GridBase.cpp
@@ -639,16 +639,24 @@ bool GridBase::isAlignedWith(GridBase const& grid) const
 {
     if (getCellSizeX() != grid.getCellSizeX() ||
         getCellSizeY() != grid.getCellSizeY() ||
+        getScaleX() != grid.getScaleX() ||
+        getScaleY() != grid.getScaleY() ||
         getOffsetX() != grid.getOffsetX() ||
         getOffsetY() != grid.getOffsetY())
         return false;
 
+    // the misalignment is largest in one of the corners
     Transform tf = getEnvironment()->relativeTransform(this, &grid);
-    base::Vector3d p(grid.getCellSizeX(), grid.getCellSizeY(), 0);
-    p = tf * p;
-    if (rint(p.x()) != grid.getCellSizeX() ||
-            rint(p.y()) != grid.getCellSizeY())
-        return false;
+    for( int i = 0; i < 4; i++ )
+    {
+        Eigen::Vector3d p(
+                getOffsetX() + (i & 1 ? getSizeX() : 0),
+                getOffsetY() + (i & 2 ? getSizeY() : 0), 0);
+        Eigen::Vector3d diff = tf * p - p;
+        if (fabs(diff.x()) >= 0.5 * getScaleX() ||
+                fabs(diff.y()) >= 0.5 * getScaleY())
+            return false;
+    }
 
     return true;
 }
-- 
2.43.0


From f80ea3239835616009b5a341bedf534e146f9481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:52 +0000
Subject: [PATCH 034/155] fix: ElevationGrid::get with a cell position looked
 the cell up as a world position

---
 src/maps/ElevationGrid.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/maps/ElevationGrid.hpp b/src/maps/ElevationGrid.hpp
index 5d04039..ba31c3a 100644
--- a/src/maps/ElevationGrid.hpp
+++ b/src/maps/ElevationGrid.hpp
@@ -36,10 +36,10 @@ namespace envire
         { return Grid<double>::get(ELEVATION, x, y); }
 
         double& get( const Position& pos )
-        { return Grid<double>::get(ELEVATION, pos.x, pos.y); }
+        { return getFromRaster(ELEVATION, pos.x, pos.y); }
 
         double get( const Position& pos ) const
-        { return Grid<double>::get(ELEVATION, pos.x, pos.y); }
+        { return getFromRaster(ELEVATION, pos.x, pos.y); }
 
         Eigen::Vector3d getNormal( const Position& pos ) const;
 
-- 
2.43.0


From cc564954701f432616a5c83008c6547947296a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:52 +0000
Subject: [PATCH 035/155] fix: ElevationGrid::getNormal read outside of the
 grid for cells at its border

---
 src/maps/ElevationGrid.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/maps/ElevationGrid.cpp b/src/maps/ElevationGrid.cpp
index 10b00d9..4e99c4d 100644
--- a/src/maps/ElevationGrid.cpp
+++ b/src/maps/ElevationGrid.cpp
@@ -16,8 +16,11 @@ Eigen::Vector3d envire::ElevationGrid::getNormal(const envire::GridBase::Positio
     size_t m = pos.x, n = pos.y;
 
     const ArrayType &grid( getGridData( ELEVATION ) );
-    double slope_x = (grid[n][m-1] - grid[n][m+1]) / (getScaleX()*2.0);
-    double slope_y = (grid[n-1][m] - grid[n+1][m]) / (getScaleY()*2.0);
+    // at the border of the grid, there is only a neighbour on one side
+    size_t m0 = m > 0 ? m-1 : m, m1 = m+1 < getCellSizeX() ? m+1 : m;
+    size_t n0 = n > 0 ? n-1 : n, n1 = n+1 < getCellSizeY() ? n+1 : n;
+    double slope_x = m0 < m1 ? (grid[n][m0] - grid[n][m1]) / (getScaleX()*(m1-m0)) : 0.0;
+    double slope_y = n0 < n1 ? (grid[n0][m] - grid[n1][m]) / (getScaleY()*(n1-n0)) : 0.0;
 
     return Eigen::Vector3d( slope_x, slope_y, 1.0 ).normalized();
 }
-- 
2.43.0


From 6b60c0867256c956b7f1645015a8960643eb2918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:52 +0000
Subject: [PATCH 036/155] fix: the maximum of a grid of negative floating point
 values was wrong

---
 src/maps/Grid.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/maps/Grid.hpp b/src/maps/Grid.hpp
index a8c05ef..a1b1641 100644
--- a/src/maps/Grid.hpp
+++ b/src/maps/Grid.hpp
@@ -182,6 +182,8 @@ namespace envire
             max = std::numeric_limits<T>::min();
 
             ArrayType& a = getGridData( key );
+            if( a.num_elements() )
+                min = max = *a.data();
             for( T* i = a.data(); i < (a.data() + a.num_elements()); i++ )
             {
                 const T val = *i;
-- 
2.43.0


From 4cd63081f00a039f42416b21721c570af09ac9bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:27 +0000
Subject: [PATCH 037/155] fix: the nodata values of a grid were lost in binary
 events

---
 src/maps/Grid.hpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/maps/Grid.hpp b/src/maps/Grid.hpp
index a1b1641..6904871 100644
--- a/src/maps/Grid.hpp
+++ b/src/maps/Grid.hpp
@@ -407,7 +407,12 @@ namespace envire
 	    else
 	    {
 		for (int i = 0; i < count; ++i)
+		{
 		    readGridData(layers[i], so.getBinaryInputStream(getFullPath(getMapFileName( getClassName() ), layers[i])));
+		    double no_data;
+		    if (so.read(boost::lexical_cast<std::string>(i) + "_nodata", no_data))
+			setNoData(layers[i], T(no_data));
+		}
 	    }
 	}
 	else
@@ -449,7 +454,13 @@ namespace envire
 		    writeGridData(layers[i], getFullPath(getMapFileName( fso->getMapPath(), getClassName() ), layers[i]));
 	    else
 		for( size_t i=0; i<layers.size(); i++ )
+		{
 		    writeGridData(layers[i], so.getBinaryOutputStream(getFullPath(getMapFileName(), layers[i])));
+		    // the raw data has no place for the nodata value
+		    std::pair<T, bool> no_data = getNoData(layers[i]);
+		    if( no_data.second )
+			so.write(boost::lexical_cast<std::string>(i) + "_nodata", double(no_data.first));
+		}
 
         so.write("map_count", layers.size());
     }
-- 
2.43.0


From 1ba8901120cefccec656be4c7a54a9fcf2b5f3f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:27 +0000
Subject: [PATCH 038/155] fix: VoxelTraversal left the ray unless it started in
 the corner of a cell of size 1

---
 src/tools/VoxelTraversal.hpp | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/tools/VoxelTraversal.hpp b/src/tools/VoxelTraversal.hpp
index 33194f1..d59bf57 100644
--- a/src/tools/VoxelTraversal.hpp
+++ b/src/tools/VoxelTraversal.hpp
@@ -1,6 +1,9 @@
 #ifndef ENVIRE_TOOLS_VOXELTRAVERSAL_HPP__
 #define ENVIRE_TOOLS_VOXELTRAVERSAL_HPP__
 
+#include <limits>
+#include <envire/maps/GridBase.hpp>
+
 namespace envire
 {
 
@@ -40,8 +43,8 @@ public:
 	    orig = orig3.head<2>(),
 	    dir = dir3.head<2>();
 
-	envire::GridBase::Position pos;
-	double xmod, ymod;
+	envire::GridBase::Position pos( 0, 0 );
+	double xmod = 0, ymod = 0;
 	valid = grid.toGrid( orig.x(), orig.y(), pos.x, pos.y, xmod, ymod );
 	cx = pos.x;
 	cy = pos.y;
@@ -49,13 +52,19 @@ public:
 	stepx = dir.x() > 0 ? 1 : -1;
 	stepy = dir.y() > 0 ? 1 : -1;
 
-	// this is the distance along the ray until a new cell is reached
-	deltax = (dir / dir.x() * grid.getScaleX()).norm();
-	deltay = (dir / dir.y() * grid.getScaleY()).norm();
+	// this is the distance along the ray until a new cell is reached, which
+	// never happens for an axis the ray is perpendicular to
+	const double inf = std::numeric_limits<double>::infinity();
+	deltax = dir.x() != 0 ? (dir / dir.x() * grid.getScaleX()).norm() : inf;
+	deltay = dir.y() != 0 ? (dir / dir.y() * grid.getScaleY()).norm() : inf;
 
 	// starting distance until a new cell is reached.
-	maxx = deltax * xmod;
-	maxy = deltay * ymod; 
+	maxx = dir.x() != 0 ? deltax * (stepx > 0 ? grid.getScaleX() - xmod : xmod) / grid.getScaleX() : inf;
+	maxy = dir.y() != 0 ? deltay * (stepy > 0 ? grid.getScaleY() - ymod : ymod) / grid.getScaleY() : inf;
+
+	// a vertical ray stays in its cell
+	if( dir.x() == 0 && dir.y() == 0 )
+	    valid = false;
     }
 
     Eigen::Vector3d getPosition()
@@ -65,6 +74,9 @@ public:
 
     bool step( GridBase::Position &pos )
     {
+	if( !valid )
+	    return false;
+
 	// advance to next cell
 	if( maxx < maxy )
 	{
-- 
2.43.0


From 3ed6816be0067d238cf77062c5e6021478d4d1b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:27 +0000
Subject: [PATCH 039/155] fix: GridIllumination looked for shadows in the wrong
 direction in the row of the light source

---
 src/operators/GridIllumination.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/operators/GridIllumination.cpp b/src/operators/GridIllumination.cpp
index d3b9ed6..a8d6e22 100644
--- a/src/operators/GridIllumination.cpp
+++ b/src/operators/GridIllumination.cpp
@@ -56,8 +56,9 @@ bool GridIllumination::updateAll()
 		stepy = dir.y() > 0 ? 1 : -1;
 	    // this is the distance along the ray until a new cell is reached
 	    const double 
-		deltax = (dir / dir.x() * grid->getScaleX()).norm(),
-		deltay = (dir / dir.y() * grid->getScaleY()).norm();
+		inf = std::numeric_limits<double>::infinity(),
+		deltax = dir.x() != 0 ? (dir / dir.x() * grid->getScaleX()).norm() : inf,
+		deltay = dir.y() != 0 ? (dir / dir.y() * grid->getScaleY()).norm() : inf;
 	    // starting distance until a new cell is reached.
 	    // since we start in the center of the cell, this is half the 
 	    // deltax, and deltay
-- 
2.43.0


From 8c580b8393fbfdd2bb54e49033d0b897cc812586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:27 +0000
Subject: [PATCH 040/155] fix: the cell of the light source was in the shadow
 of what is behind the light

---
 src/operators/GridIllumination.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/operators/GridIllumination.cpp b/src/operators/GridIllumination.cpp
index a8d6e22..f96c119 100644
--- a/src/operators/GridIllumination.cpp
+++ b/src/operators/GridIllumination.cpp
@@ -67,7 +67,8 @@ bool GridIllumination::updateAll()
 		maxy = deltay * 0.5; 
 
 	    double maxLight = 0.0; 
-	    while( true )
+	    // nothing is between the light and the cell it is in
+	    while( !(lightInGrid && ElevationGrid::Position(x, y) == lightPos) )
 	    {
 		// advance to next cell
 		if( maxx < maxy )
-- 
2.43.0


From 74b3e398a04543226c7930ebf18551bdb0c34a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:01 +0000
Subject: [PATCH 041/155] fix: a free patch replaces an older surface at its
 very top or bottom

The enclosure test was strict, so that an enclosed patch which shares a
boundary with the newer one was cut to a negative height.
---
 src/maps/MLSPatch.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/maps/MLSPatch.hpp b/src/maps/MLSPatch.hpp
index 12db02c..6df7d06 100644
--- a/src/maps/MLSPatch.hpp
+++ b/src/maps/MLSPatch.hpp
@@ -316,7 +316,7 @@ struct SurfacePatch
 		    {
 			// the new patch fully encloses the old one, 
 			// so will overwrite it
-			if( ro.mean > rp.mean && ro.mean - ro.height < rp.mean - rp.height )
+			if( ro.mean >= rp.mean && ro.mean - ro.height <= rp.mean - rp.height )
 			{
 			    p = ro;
 			    return true; 
-- 
2.43.0


From a7f0d86140b95a72dc32c4419cddb990bb215c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:01 +0000
Subject: [PATCH 042/155] fix: cutting an MLS patch never lets it grow

A newer patch of opposite kind below an older one extended the older
patch down to the newer one.
---
 src/maps/MLSPatch.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/maps/MLSPatch.hpp b/src/maps/MLSPatch.hpp
index 6df7d06..f22c8ca 100644
--- a/src/maps/MLSPatch.hpp
+++ b/src/maps/MLSPatch.hpp
@@ -325,7 +325,7 @@ struct SurfacePatch
 			// the other patch is occupied, so cut
 			// the free patch accordingly
 			if( ro.mean < rp.mean )
-			    rp.height = rp.mean - ro.mean;
+			    rp.height = std::min( rp.height, rp.mean - ro.mean );
 			else if( ro.mean - ro.height < rp.mean )
 			{
 			    double new_mean = ro.mean - ro.height;
-- 
2.43.0


From 668e95f668c9f9ac7e4ad4bd5f6a872a9ea283cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:01 +0000
Subject: [PATCH 043/155] fix: overlap() of an interval which encloses the
 other one

An enclosed first interval, or identical ones, were reported as disjoint.
---
 src/maps/MLSPatch.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/maps/MLSPatch.hpp b/src/maps/MLSPatch.hpp
index f22c8ca..6b706ff 100644
--- a/src/maps/MLSPatch.hpp
+++ b/src/maps/MLSPatch.hpp
@@ -11,9 +11,7 @@ namespace envire
 template <class T>
 inline bool overlap( T a1, T a2, T b1, T b2 )
 {
-    return 
-	((a1 < b2) && (a2 > b2)) ||
-	((a1 < b1) && (a2 > b1));
+    return (a1 < b2) && (a2 > b1);
 }
 
 
-- 
2.43.0


From 0661ccf13686c7488334503a87f614dfe142df15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:01 +0000
Subject: [PATCH 044/155] fix: variance of MLS patches in the SUM model

The sum of squared deviations contained a term which depends on the
absolute height of the patch.
---
 src/maps/MLSPatch.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/maps/MLSPatch.hpp b/src/maps/MLSPatch.hpp
index 6b706ff..27d3911 100644
--- a/src/maps/MLSPatch.hpp
+++ b/src/maps/MLSPatch.hpp
@@ -78,7 +78,7 @@ struct SurfacePatch
         if( n > 1 )
         {
             float var = 
-                std::max(1e-6f, (float)((plane.zz - (pow(mean,2)*(plane.n - 2.0))) * norm - n/plane.n));
+                std::max(1e-6f, (float)((plane.zz - (pow(mean,2)*plane.n)) * norm - n/plane.n));
             stdev = sqrt(var);
         }
         else
-- 
2.43.0


From 474f6e58f0de2359a64e4394940069da1dcc05fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:58 +0000
Subject: [PATCH 045/155] fix: initialize the color of MLS patches

The color of a new patch was whatever the memory contained, and was
averaged into the cells of the grid and written to map files.
---
 src/maps/MLSPatch.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/maps/MLSPatch.hpp b/src/maps/MLSPatch.hpp
index 27d3911..eb33e9a 100644
--- a/src/maps/MLSPatch.hpp
+++ b/src/maps/MLSPatch.hpp
@@ -57,6 +57,7 @@ struct SurfacePatch
 	    plane.n = 1.0/pow(stdev,2);
 	    plane.z = mean * plane.n;
 	    plane.zz = pow(mean,2) * plane.n;
+	    color[0] = color[1] = color[2] = 0;
 	};
 
     SurfacePatch( const Eigen::Vector3f &p, float stdev )
@@ -69,6 +70,7 @@ struct SurfacePatch
 	type( HORIZONTAL )
 	{
 	    updatePlane();
+	    color[0] = color[1] = color[2] = 0;
 	};
 
     void updateSum() 
-- 
2.43.0


From b86b9dcaab2461268f07de5ce629cb820966e8e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:45 +0000
Subject: [PATCH 046/155] fix: count a measurement which bridges MLS patches
 only once

updateCell() merged the measurement into every patch in reach before it
merged those patches with each other.
---
 src/maps/MLSGrid.cpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/maps/MLSGrid.cpp b/src/maps/MLSGrid.cpp
index 0dd3536..12c7567 100644
--- a/src/maps/MLSGrid.cpp
+++ b/src/maps/MLSGrid.cpp
@@ -488,9 +488,22 @@ void MLSGrid::updateCell( size_t xi, size_t yi, const SurfacePatch& co )
 
     for(MLSGrid::iterator it = beginCell( xi, yi ); it != endCell(); it++ )
     {
-	// merge the patches and remember the ones which where merged 
-	if( mergePatch( *it, o ) )
+	// find the patches which the measurement merges with. The measurement
+	// itself goes into the first of them only, the others are joined
+	// with that one below
+	SurfacePatch p( *it ), m( o );
+	if( mergePatch( p, m ) )
+	{
+	    if( merged.empty() )
+		*it = p;
 	    merged.push_back( it );
+	}
+	else
+	{
+	    // the patches may have been cut
+	    *it = p;
+	    o = m;
+	}
     }
 
     if( merged.empty() )
-- 
2.43.0


From ca992ca55a7bde0f064c83d21813586f481a603c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:45 +0000
Subject: [PATCH 047/155] fix: keep age and color of a patch in
 MLSGrid::update() with the slope model

---
 src/maps/MLSGrid.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/maps/MLSGrid.cpp b/src/maps/MLSGrid.cpp
index 12c7567..3440ecb 100644
--- a/src/maps/MLSGrid.cpp
+++ b/src/maps/MLSGrid.cpp
@@ -544,6 +544,8 @@ bool MLSGrid::update( const Eigen::Vector2d& pos, const SurfacePatch& patch )
 	    SurfacePatch p( 
 		    Eigen::Vector3f( xmod, ymod, patch.mean ),
 		    patch.stdev );
+	    p.update_idx = patch.update_idx;
+	    std::copy( patch.color, patch.color + 3, p.color );
 	    updateCell( xi, yi, p );
 	}
 	else
-- 
2.43.0


From 6b29ade80e2a6bcf5b3178b5bfadf1692ab39364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:45 +0000
Subject: [PATCH 048/155] fix: update the cell index when an MLSGrid is
 assigned

---
 src/maps/MLSGrid.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/maps/MLSGrid.cpp b/src/maps/MLSGrid.cpp
index 3440ecb..9faa401 100644
--- a/src/maps/MLSGrid.cpp
+++ b/src/maps/MLSGrid.cpp
@@ -54,6 +54,10 @@ MLSGrid& MLSGrid::operator=(const MLSGrid& other)
 	extents = other.extents;
 	config = other.config;
 	cellcount = other.cellcount;
+
+	// the index has to reflect the new content
+	if( index )
+	    initIndex();
     }
 
     return *this;
-- 
2.43.0


From 41da33a777084e425ac5e6684fa4f25e3d50c648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:45 +0000
Subject: [PATCH 049/155] fix: cell count, extents and index of an MLSGrid
 follow move()

---
 src/maps/MLSGrid.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/maps/MLSGrid.cpp b/src/maps/MLSGrid.cpp
index 9faa401..82769fc 100644
--- a/src/maps/MLSGrid.cpp
+++ b/src/maps/MLSGrid.cpp
@@ -781,5 +781,19 @@ void MLSGrid::initIndex()
 void MLSGrid::move(int x, int y)
 {
     cells.move(x, y);
+
+    // the number of cells, the extents and the index follow the content
+    cellcount = 0;
+    extents = CellExtents();
+    if( index )
+	index->reset();
+    for(size_t xi = 0; xi < cellSizeX; xi++)
+    {
+	for(size_t yi = 0; yi < cellSizeY; yi++)
+	{
+	    for(iterator it = beginCell(xi, yi); it != endCell(); it++)
+		addCell( Position(xi, yi) );
+	}
+    }
 }
 
-- 
2.43.0


From 3f3804afb5d8659a56640c5492fb692940731a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:24 +0000
Subject: [PATCH 050/155] fix: MLSGrid::match() takes the height of the
 transform into account

The transformed position was shadowed by the cell position, so that only
its horizontal part was used, unlike in merge().
---
 src/maps/MLSGrid.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/maps/MLSGrid.cpp b/src/maps/MLSGrid.cpp
index 82769fc..394b5bc 100644
--- a/src/maps/MLSGrid.cpp
+++ b/src/maps/MLSGrid.cpp
@@ -667,7 +667,7 @@ float MLSGrid::match( const MLSGrid& other, const Eigen::Affine3d& other2this, c
 	    size_t m, n;
 	    if( toGrid( pos.x(), pos.y(), m, n ) )
 	    {
-		Position pos(m, n);
+		Position cell(m, n);
 		// iterate through cells in source map
 		envire::MLSGrid::const_iterator cit = other.beginCell(it->x,it->y); 
 		if( cit != other.endCell() )
@@ -675,11 +675,11 @@ float MLSGrid::match( const MLSGrid& other, const Eigen::Affine3d& other2this, c
 		    while( cit != other.endCell() )
 		    {
 			SurfacePatch meas_patch( *cit );
-			meas_patch.mean += offset.mean;
+			meas_patch.mean += offset.mean + pos.z();
 			meas_patch.stdev = sqrt( pow( meas_patch.stdev, 2 ) + pow( offset.stdev, 2 ) );
 			meas_patch.update_idx = offset.update_idx;
 
-			if( get( pos, meas_patch, sigma ) )
+			if( get( cell, meas_patch, sigma ) )
 			{
 			    ++match;
 			    break;
-- 
2.43.0


From f1582cfbcba4076626a160283bda2710ff9683ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:08 +0000
Subject: [PATCH 051/155] fix: MLSGrid::merge() shifts all of a patch

Only the mean was moved by the offset and the transform. The SUM and SLOPE
update models work on the range and the sums of the patch, which stayed at
the original height.
---
 src/maps/MLSGrid.cpp  |  2 +-
 src/maps/MLSPatch.hpp | 15 +++++++++++++++
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/maps/MLSGrid.cpp b/src/maps/MLSGrid.cpp
index 394b5bc..fa2bd12 100644
--- a/src/maps/MLSGrid.cpp
+++ b/src/maps/MLSGrid.cpp
@@ -629,7 +629,7 @@ void MLSGrid::merge( const MLSGrid& other, const Eigen::Affine3d& other2this, co
 	    for(envire::MLSGrid::const_iterator cit = other.beginCell(it->x,it->y); cit != other.endCell(); cit++ )
 	    {
 		SurfacePatch meas_patch( *cit );
-		meas_patch.mean += offset.mean + mappos.z();
+		meas_patch.translate( offset.mean + mappos.z() );
 		meas_patch.stdev = sqrt( pow( meas_patch.stdev, 2 ) + pow( offset.stdev, 2 ) );
 		meas_patch.update_idx = offset.update_idx;
 
diff --git a/src/maps/MLSPatch.hpp b/src/maps/MLSPatch.hpp
index eb33e9a..10ee77f 100644
--- a/src/maps/MLSPatch.hpp
+++ b/src/maps/MLSPatch.hpp
@@ -413,6 +413,21 @@ struct SurfacePatch
         normsq *= pow( factor, 2 );
     }
 
+    /**
+     * @brief move the patch along the z axis
+     * This includes the sums the SUM and SLOPE update models work on.
+     */
+    void translate( float dz )
+    {
+	mean += dz;
+	min += dz;
+	max += dz;
+	plane.xz += dz * plane.x;
+	plane.yz += dz * plane.y;
+	plane.zz += 2.0f * dz * plane.z + dz * dz * plane.n;
+	plane.z += dz * plane.n;
+    }
+
     float getMean() const
     {
 	return mean;
-- 
2.43.0


From 87257c1abe3ed6176ca609dd27b76e19b018b09c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:11 +0000
Subject: [PATCH 052/155] fix: save gap size and patch thickness of an MLSGrid

A loaded or transferred grid fell back to the defaults and merged new
measurements differently from the original.
---
 src/maps/MLSGrid.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/maps/MLSGrid.cpp b/src/maps/MLSGrid.cpp
index fa2bd12..b865a84 100644
--- a/src/maps/MLSGrid.cpp
+++ b/src/maps/MLSGrid.cpp
@@ -152,6 +152,8 @@ void MLSGrid::serialize(Serialization& so)
     so.write( "hasCellColor", config.useColor );
     long updateModelInt = static_cast<long>( config.updateModel );
     so.write( "updateModel", updateModelInt );
+    so.write( "gapSize", static_cast<double>( config.gapSize ) );
+    so.write( "thickness", static_cast<double>( config.thickness ) );
     writeMap( so.getBinaryOutputStream(getMapFileName() + ".mls") );
 }
 
@@ -170,6 +172,12 @@ void MLSGrid::unserialize(Serialization& so)
     else
 	config.useColor = false;
 
+    double value;
+    if( so.hasKey( "gapSize" ) && so.read( "gapSize", value ) )
+	config.gapSize = value;
+    if( so.hasKey( "thickness" ) && so.read( "thickness", value ) )
+	config.thickness = value;
+
     cells.resize( cellSizeX, cellSizeY );
 
     // this is a workaround to make the MLS generatable by 
-- 
2.43.0


From af2a5a7e6387bd3e8b85828faef7449766d9b38c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:02 +0000
Subject: [PATCH 053/155] fix: refuse MLS map data with cells outside of the
 grid

The cell positions of the records were used unchecked.
---
 src/maps/MLSGrid.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/maps/MLSGrid.cpp b/src/maps/MLSGrid.cpp
index b865a84..b85599a 100644
--- a/src/maps/MLSGrid.cpp
+++ b/src/maps/MLSGrid.cpp
@@ -328,6 +328,12 @@ void MLSGrid::writeMap(std::ostream& os)
     }
 }
 
+static void checkCell( const MLSGrid& grid, size_t xi, size_t yi )
+{
+    if( xi >= grid.getCellSizeX() || yi >= grid.getCellSizeY() )
+	throw std::runtime_error("MLS map data does not fit the grid");
+}
+
 void MLSGrid::readMap(std::istream& is)
 {   
     char c[32];
@@ -353,6 +359,7 @@ void MLSGrid::readMap(std::istream& is)
 	SurfacePatchStore10 d;
 	while( is.read(reinterpret_cast<char*>(&d), sizeof( SurfacePatchStore10 ) ) )
 	{
+	    checkCell( *this, d.xi, d.yi );
 	    insertTail( d.xi, d.yi, d.toSurfacePatch() );
 	}
     }
@@ -363,6 +370,7 @@ void MLSGrid::readMap(std::istream& is)
 	SurfacePatchStore11 d;
 	while( is.read(reinterpret_cast<char*>(&d), sizeof( SurfacePatchStore11 ) ) )
 	{
+	    checkCell( *this, d.xi, d.yi );
 	    insertTail( d.xi, d.yi, d.toSurfacePatch() );
 	}
     }
@@ -373,6 +381,7 @@ void MLSGrid::readMap(std::istream& is)
 	SurfacePatchStore12 d;
 	while( is.read(reinterpret_cast<char*>(&d), sizeof( SurfacePatchStore12 ) ) )
 	{
+	    checkCell( *this, d.xi, d.yi );
 	    insertTail( d.xi, d.yi, d.toSurfacePatch() );
 	}
     }
@@ -383,6 +392,7 @@ void MLSGrid::readMap(std::istream& is)
 	SurfacePatchStore13 d;
 	while( is.read(reinterpret_cast<char*>(&d), sizeof( SurfacePatchStore13 ) ) )
 	{
+	    checkCell( *this, d.xi, d.yi );
 	    insertTail( d.xi, d.yi, d.toSurfacePatch() );
 	}
     }
-- 
2.43.0


From f5c927b0fade9176e9f2155611dbddaa109daa80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:04 +0000
Subject: [PATCH 054/155] fix: a deep clone of an MLSMap keeps the frame node

It was attached to the root node, while its grids stayed where they are.
---
 src/maps/MLSMap.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/maps/MLSMap.cpp b/src/maps/MLSMap.cpp
index ec6bccf..6f579aa 100644
--- a/src/maps/MLSMap.cpp
+++ b/src/maps/MLSMap.cpp
@@ -190,7 +190,8 @@ MLSMap* MLSMap::cloneDeep()
 
 	env->setFrameNode( active_clone, active->getFrameNode() );
 	
-	env->attachItem( res );
+	// the clone is at the same place as the original
+	env->setFrameNode( res, getFrameNode() );
 
 	typedef std::vector<MLSGrid::Ptr>::iterator iterator;
 	for( iterator it = res->grids.begin(); it != res->grids.end(); it++ )
-- 
2.43.0


From 4326ba102231db1375221df0e349e31ddb4fb339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:15 +0000
Subject: [PATCH 055/155] fix: MLSMap::selectActiveGrid() passes on the
 alignment it was asked for

---
 src/maps/MLSMap.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/maps/MLSMap.cpp b/src/maps/MLSMap.cpp
index 6f579aa..afb2330 100644
--- a/src/maps/MLSMap.cpp
+++ b/src/maps/MLSMap.cpp
@@ -138,7 +138,7 @@ void MLSMap::selectActiveGrid( const FrameNode* fn, double threshold, bool align
     else
     {
 	Transform t = fn->relativeTransform( getActiveGrid()->getFrameNode() );
-	createGrid( t, true, true );
+	createGrid( t, true, aligned );
     }
 }
 
-- 
2.43.0


From 0331e9ce7d7dddd3c0e8d5ed2b145dcbbb836d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:26 +0000
Subject: [PATCH 056/155] fix: a copy of an MLSMap keeps the properties of the
 layer

---
 src/maps/MLSMap.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/maps/MLSMap.cpp b/src/maps/MLSMap.cpp
index afb2330..1f35d66 100644
--- a/src/maps/MLSMap.cpp
+++ b/src/maps/MLSMap.cpp
@@ -27,7 +27,7 @@ MLSMap::MLSMap()
 }
 
 MLSMap::MLSMap(const MLSMap& other)
-    : grids( other.grids ), active( other.active )
+    : Map<2>( other ), grids( other.grids ), active( other.active )
 {
 }
 
-- 
2.43.0


From 722fec1b08fce988c39e7fbaf4974178209d5f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:46 +0000
Subject: [PATCH 057/155] fix: extents of a MapSegment with two dimensional
 maps

The height of their extents was left uninitialized or empty.
---
 src/maps/MapSegment.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/maps/MapSegment.cpp b/src/maps/MapSegment.cpp
index b3aef48..bf21204 100644
--- a/src/maps/MapSegment.cpp
+++ b/src/maps/MapSegment.cpp
@@ -40,6 +40,8 @@ envire::Map<3>::Extents MapSegment::getExtents() const
 	    Eigen::AlignedBox<double, 3> e3;
 	    e3.min().head<2>() = map2->getExtents().min();
 	    e3.max().head<2>() = map2->getExtents().max();
+	    // the map is in the horizontal plane of its frame
+	    e3.min().z() = e3.max().z() = 0;
 	    extents.extend( e3.translate( g2m.translation() ) );
 	}
     }
-- 
2.43.0


From d4993dd977023260a9c08eb7e3746fc27a5a0344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:57 +0000
Subject: [PATCH 058/155] fix: MLSMap::getPatch() follows changes of the grids

The grid found last was remembered together with its transform, and was
preferred in further calls, even after its frame was moved, newer grids
covered the position or it was no longer part of the map.
---
 src/maps/MLSMap.cpp | 10 ----------
 src/maps/MLSMap.hpp | 12 ------------
 2 files changed, 22 deletions(-)

diff --git a/src/maps/MLSMap.cpp b/src/maps/MLSMap.cpp
index 1f35d66..28e2efd 100644
--- a/src/maps/MLSMap.cpp
+++ b/src/maps/MLSMap.cpp
@@ -85,23 +85,13 @@ inline bool getPatch( MLSGrid* grid, const Transform& C_m2g, const Point& p, MLS
 
 bool MLSMap::getPatch( const Point& p, SurfacePatch& patch, double sigma_threshold )
 {
-    // see if we can use the cache. This will reduce the amount of transform
-    // calculations
-    if( cache.grid )
-	if( ::getPatch( cache.grid, cache.trans, p, patch, sigma_threshold ) )
-	    return true;
-
     // go backwards in the list, and try to find the point in any of the grids
     for( std::vector<MLSGrid::Ptr>::reverse_iterator it = grids.rbegin(); it != grids.rend(); it++ )
     {
 	MLSGrid *grid( it->get() );
 	Transform C_m2g = env->relativeTransform( getFrameNode(), grid->getFrameNode() );
 	if( ::getPatch( grid, C_m2g, p, patch, sigma_threshold ) )
-	{
-	    cache.grid = it->get();
-	    cache.trans = C_m2g;
 	    return true;
-	}
     }
     return false;
 }
diff --git a/src/maps/MLSMap.hpp b/src/maps/MLSMap.hpp
index 806bd47..99d16e9 100644
--- a/src/maps/MLSMap.hpp
+++ b/src/maps/MLSMap.hpp
@@ -71,18 +71,6 @@ public:
     // also add a framenode per grid
     std::vector<MLSGrid::Ptr> grids;
     MLSGrid::Ptr active;
-
-protected:
-    struct Cache
-    {
-     public:
-        EIGEN_MAKE_ALIGNED_OPERATOR_NEW
-	Cache() : grid( NULL ) {}
-	MLSGrid* grid;
-	Transform trans;
-    };
-
-    Cache cache;
 };
 
 }
-- 
2.43.0


From 8c7b75b464c6da7180f538fd1690ced98eda9bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:37 +0000
Subject: [PATCH 059/155] fix: TraversabilityClass::isSet() is true for set
 classes

---
 src/maps/TraversabilityGrid.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/maps/TraversabilityGrid.hpp b/src/maps/TraversabilityGrid.hpp
index d6a483a..1a024e4 100644
--- a/src/maps/TraversabilityGrid.hpp
+++ b/src/maps/TraversabilityGrid.hpp
@@ -33,7 +33,7 @@ public:
      * or if it is an empty placeholder
      * */
     bool isSet() const {
-        return drivability < 0;
+        return drivability >= 0;
     }
 
     /**
-- 
2.43.0


From 9ef9306fdb5a15d08f4a2f72f6d85b8381c26ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:19 +0000
Subject: [PATCH 060/155] fix: getTraversability() refuses cells of a class
 that is not registered

---
 src/maps/TraversabilityGrid.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/maps/TraversabilityGrid.cpp b/src/maps/TraversabilityGrid.cpp
index a632acf..b67b856 100644
--- a/src/maps/TraversabilityGrid.cpp
+++ b/src/maps/TraversabilityGrid.cpp
@@ -167,7 +167,7 @@ void TraversabilityGrid::setTraversability(uint8_t klass, size_t x, size_t y)
 const TraversabilityClass& TraversabilityGrid::getTraversability(size_t x, size_t y) const
 {
     setTraversabilityArray();
-    return traversabilityClasses[(*traversabilityArray)[y][x]];
+    return getTraversabilityClass((*traversabilityArray)[y][x]);
 }
 
 bool TraversabilityGrid::registerNewTraversabilityClass(uint8_t& retId, const TraversabilityClass& klass)
-- 
2.43.0


From 454db72b2d1a17d83ee9ea51974a5ddf550767fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:28 +0000
Subject: [PATCH 061/155] fix: copies of a TraversabilityGrid have data of
 their own

---
 src/maps/TraversabilityGrid.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/maps/TraversabilityGrid.hpp b/src/maps/TraversabilityGrid.hpp
index 1a024e4..a5ada35 100644
--- a/src/maps/TraversabilityGrid.hpp
+++ b/src/maps/TraversabilityGrid.hpp
@@ -152,6 +152,12 @@ public:
     {
     };
 
+    TraversabilityGrid(const TraversabilityGrid &other) : Grid<uint8_t>(other),
+                        traversabilityClasses(other.traversabilityClasses),
+                        probabilityArray(NULL), traversabilityArray(NULL)
+    {
+    };
+
     ~TraversabilityGrid(){};
 
     TraversabilityGrid &operator=(const TraversabilityGrid &other);
-- 
2.43.0


From 430e0b23e057f80da1614ea40066618f289d7093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:28 +0000
Subject: [PATCH 062/155] fix: unset traversability classes are not loaded as
 obstacles

---
 src/maps/TraversabilityGrid.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/maps/TraversabilityGrid.cpp b/src/maps/TraversabilityGrid.cpp
index b67b856..e7a6cee 100644
--- a/src/maps/TraversabilityGrid.cpp
+++ b/src/maps/TraversabilityGrid.cpp
@@ -251,7 +251,9 @@ void TraversabilityGrid::serialize(Serialization& so)
     so.write<size_t>(std::string("drivabilityClassCount"), traversabilityClasses.size());
     for(size_t i = 0; i < traversabilityClasses.size(); i++)
     {
-        so.write(std::string("drivability") + boost::lexical_cast< std::string>((int) i), traversabilityClasses[i].getDrivability());
+        // a missing value stands for a class that is not set
+        if(traversabilityClasses[i].isSet())
+            so.write(std::string("drivability") + boost::lexical_cast< std::string>((int) i), traversabilityClasses[i].getDrivability());
     }
     envire::Grid< uint8_t >::serialize(so);
 }
@@ -261,6 +263,8 @@ void TraversabilityGrid::unserialize(Serialization& so)
     envire::Grid< uint8_t >::unserialize(so);
     size_t traversabilityClassCount = 0;
     so.read<size_t>(std::string("drivabilityClassCount"), traversabilityClassCount);
+    traversabilityClasses.clear();
+    traversabilityClasses.resize(traversabilityClassCount);
     for(size_t i = 0; i < traversabilityClassCount; i++)
     {
         double drivability;
-- 
2.43.0


From 441ff0668cdae9eb547bb2b2c112175cc1fb3558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:26 +0000
Subject: [PATCH 063/155] fix: TraversabilityStatistic has room for class 255

---
 src/maps/TraversabilityGrid.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/maps/TraversabilityGrid.hpp b/src/maps/TraversabilityGrid.hpp
index a5ada35..353b8dc 100644
--- a/src/maps/TraversabilityGrid.hpp
+++ b/src/maps/TraversabilityGrid.hpp
@@ -68,8 +68,9 @@ class TraversabilityStatistic
 public:
     TraversabilityStatistic() : countTotal(0), highestTraversabilityClass(0)
     {
-        minDistance.resize(std::numeric_limits<uint8_t>::max(), std::numeric_limits<double>::max());
-        counts.resize(std::numeric_limits<uint8_t>::max());
+        // one entry for each possible class, 255 included
+        minDistance.resize(std::numeric_limits<uint8_t>::max() + 1, std::numeric_limits<double>::max());
+        counts.resize(std::numeric_limits<uint8_t>::max() + 1);
     }
 
     /**
-- 
2.43.0


From 8867d4784ae6d329618438dc1280e8db1428c7fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:14 +0000
Subject: [PATCH 064/155] fix: looking for the worst traversability class ends
 if the highest is 255

---
 src/maps/TraversabilityGrid.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/maps/TraversabilityGrid.cpp b/src/maps/TraversabilityGrid.cpp
index e7a6cee..df1288d 100644
--- a/src/maps/TraversabilityGrid.cpp
+++ b/src/maps/TraversabilityGrid.cpp
@@ -102,7 +102,7 @@ const TraversabilityClass& TraversabilityGrid::getWorstTraversabilityClassInRect
     TraversabilityStatistic innerStatistic;
     computeStatistic(pose, sizeX, sizeY, innerStatistic);
 
-    for(uint8_t i = 0; i <= innerStatistic.getHighestTraversabilityClass(); i++)
+    for(int i = 0; i <= innerStatistic.getHighestTraversabilityClass(); i++)
     {
         size_t count;
         double dist;
@@ -124,7 +124,7 @@ const TraversabilityClass& TraversabilityGrid::getWorstTraversabilityClassInRect
     if(curClass < 0)
     {
         std::cout << "Pose " << pose.position.transpose() << " sizeY " << sizeY << " sizeX " << sizeX << " Total Count " << innerStatistic.getTotalCount() << std::endl;
-        for(uint8_t i = 0; i <= innerStatistic.getHighestTraversabilityClass(); i++)
+        for(int i = 0; i <= innerStatistic.getHighestTraversabilityClass(); i++)
         {
             size_t count;
             double dist;
-- 
2.43.0


From f5de83c29e93f8d8988411518425767d50f4bb71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:36 +0000
Subject: [PATCH 065/155] fix: distances in traversability statistics of small
 rectangles and of oblong cells

---
 src/maps/TraversabilityGrid.cpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/maps/TraversabilityGrid.cpp b/src/maps/TraversabilityGrid.cpp
index df1288d..bacd4a2 100644
--- a/src/maps/TraversabilityGrid.cpp
+++ b/src/maps/TraversabilityGrid.cpp
@@ -1,6 +1,6 @@
 #include "TraversabilityGrid.hpp"
 #include <boost/bind.hpp>
-#include <tools/RadialLookUpTable.hpp>
+#include <math.h>
 #include <tools/BoxLookUpTable.hpp>
 #include <Eigen/Geometry>
 
@@ -15,7 +15,6 @@ const std::vector<std::string> TraversabilityGrid::bands = { TraversabilityGrid:
 
 class StatisticHelper
 {
-    static RadialLookUpTable *lut;
     static BoxLookUpTable *boxLut;
     const base::Pose2D &pose;
     Eigen::Rotation2D<double> inverseOrientation;
@@ -33,10 +32,6 @@ public:
     inverseOrientation(Eigen::Rotation2D<double>(pose.orientation).inverse()), grid(grid), gridData(grid.getGridData(TraversabilityGrid::TRAVERSABILITY))
     , scaleX(grid.getScaleX()), scaleY(grid.getScaleY())
     {
-        if(!lut)
-            lut = new RadialLookUpTable();
-        lut->recompute(grid.getScaleX(), std::max(sizeX, sizeY));
-
         if(!boxLut)
             boxLut = new BoxLookUpTable();
         //note the scale should be higher than the grid scale because
@@ -46,9 +41,17 @@ public:
         grid.toGrid(pose.position.x(), pose.position.y(), xCenter, yCenter);
     }
 
+    double getDistanceToCenter(size_t x, size_t y) const
+    {
+        // cells may be oblong, and a rectangle smaller than a cell can touch its neighbours
+        const double xd = ((double) x - (double) xCenter) * scaleX;
+        const double yd = ((double) y - (double) yCenter) * scaleY;
+        return sqrt(xd*xd + yd*yd);
+    }
+
     void addInnerVal(size_t x, size_t y)
     {
-        innerStats->addMeasurement(gridData[y][x], lut->getDistance(x-xCenter, y-yCenter));
+        innerStats->addMeasurement(gridData[y][x], getDistanceToCenter(x, y));
     }
 
     void addOuterVal(size_t x, size_t y)
@@ -70,7 +73,6 @@ public:
     }
 };
 
-RadialLookUpTable *StatisticHelper::lut;
 BoxLookUpTable *StatisticHelper::boxLut;
 
 void addVal(size_t x, size_t y, std::vector<uint8_t> &stats, const TraversabilityGrid::ArrayType &gridData)
-- 
2.43.0


From 75cda7671cdbea55dd2f01599130a5436c659961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:36 +0000
Subject: [PATCH 066/155] fix: the distance table of traversability statistics
 covers all cells of the border

---
 src/maps/TraversabilityGrid.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/maps/TraversabilityGrid.cpp b/src/maps/TraversabilityGrid.cpp
index bacd4a2..ce09e07 100644
--- a/src/maps/TraversabilityGrid.cpp
+++ b/src/maps/TraversabilityGrid.cpp
@@ -36,7 +36,9 @@ public:
             boxLut = new BoxLookUpTable();
         //note the scale should be higher than the grid scale because
         //of the roation. Else we get aliasing problems.
-        boxLut->recompute(scaleX / 10.0, sizeX, sizeY, borderWidth * 2);
+        //the center of a cell on the border may be up to a cell further
+        //away than the border is wide
+        boxLut->recompute(scaleX / 10.0, sizeX, sizeY, borderWidth * 2 + sqrt(scaleX * scaleX + scaleY * scaleY));
 
         grid.toGrid(pose.position.x(), pose.position.y(), xCenter, yCenter);
     }
-- 
2.43.0


From 70568550f997b1fa214b7e508c25182be38a625a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:22 +0000
Subject: [PATCH 067/155] fix: FoldOperator stays inside of the grid

---
 src/operators/Fold.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/operators/Fold.hpp b/src/operators/Fold.hpp
index aae1db8..d436681 100644
--- a/src/operators/Fold.hpp
+++ b/src/operators/Fold.hpp
@@ -34,7 +34,7 @@ public:
                 size_t yr = ys + y;
                 
                 //no negative check needed, will overflow if negative
-                if(xr > maxX || yr > maxY)
+                if(xr >= maxX || yr >= maxY)
                     continue;
                 
                 cnt++;
-- 
2.43.0


From bb6e798495c37b452ba0a944154bfa3a104cca28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:27 +0000
Subject: [PATCH 068/155] fix: TraversabilityGrowClasses refuses an output grid
 of another shape

---
 src/operators/TraversabilityGrowClasses.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/operators/TraversabilityGrowClasses.cpp b/src/operators/TraversabilityGrowClasses.cpp
index 405dc2f..de17f3c 100644
--- a/src/operators/TraversabilityGrowClasses.cpp
+++ b/src/operators/TraversabilityGrowClasses.cpp
@@ -31,7 +31,7 @@ void TraversabilityGrowClasses::growTerrains(TraversabilityGrid& mapIn, Traversa
     TraversabilityGrid::ArrayType& trDataOut = mapOut.getGridData(TraversabilityGrid::TRAVERSABILITY);
     TraversabilityGrid::ArrayType& probDataOut = mapOut.getGridData(TraversabilityGrid::PROBABILITY);
 
-    if(trDataIn.num_elements() != trDataOut.num_elements())
+    if(mapIn.getCellSizeX() != mapOut.getCellSizeX() || mapIn.getCellSizeY() != mapOut.getCellSizeY())
         throw std::runtime_error("ObjectGrowing, input and output data have differens sizes");
 
     memcpy(trDataOut.data(), trDataIn.data(), sizeof(uint8_t) * trDataIn.num_elements());
-- 
2.43.0


From c45a104991e115965c7785e6bc0bd279f41cac67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:48 +0000
Subject: [PATCH 069/155] fix: SimpleTraversability works with any number of
 classes

---
 src/operators/SimpleTraversability.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/operators/SimpleTraversability.cpp b/src/operators/SimpleTraversability.cpp
index 115cf41..a4f6391 100644
--- a/src/operators/SimpleTraversability.cpp
+++ b/src/operators/SimpleTraversability.cpp
@@ -259,8 +259,8 @@ bool SimpleTraversability::updateAll()
         }
     }
 
-    // Traversability class 7 contains the mean driveability (0.55).
-    double mean_driveability = output_layer->getTraversabilityClass(7).getDrivability();
+    // The class in the middle contains the mean driveability (0.55 for ten classes).
+    double mean_driveability = output_layer->getTraversabilityClass(CUSTOM_CLASSES + conf.class_count / 2).getDrivability();
     uint8_t mean_class_value = counter == 0 ? 0 : sum_classes / counter + 0.5;
     
     // If the map is completely unkown or full with obstacles, 
-- 
2.43.0


From d6949c9673e25067a0bf3e0609005354b42ba224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:56 +0000
Subject: [PATCH 070/155] fix: SimpleTraversability leaves no classes of an
 earlier run

---
 src/operators/SimpleTraversability.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/operators/SimpleTraversability.cpp b/src/operators/SimpleTraversability.cpp
index a4f6391..ea26751 100644
--- a/src/operators/SimpleTraversability.cpp
+++ b/src/operators/SimpleTraversability.cpp
@@ -200,6 +200,9 @@ bool SimpleTraversability::updateAll()
                 continue;
             }
 
+            // Nothing is known so far, whatever an earlier run has found
+            result[y][x] = CLASS_UNKNOWN;
+
             if(has_slope && conf.maximum_slope)
             {
                 const double meanSlope(fabs(values[SLOPE]));
-- 
2.43.0


From d058839777915d0d896634dd495e7ccd2ef229b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:59 +0000
Subject: [PATCH 071/155] fix: a loaded SimpleTraversability has one output,
 too

---
 src/operators/SimpleTraversability.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/operators/SimpleTraversability.cpp b/src/operators/SimpleTraversability.cpp
index ea26751..3579321 100644
--- a/src/operators/SimpleTraversability.cpp
+++ b/src/operators/SimpleTraversability.cpp
@@ -12,6 +12,7 @@ static envire::SerializationPlugin< SimpleTraversability >  nav_graph_search_Tra
 static envire::SerializationPlugin< SimpleTraversability >  envire_MLSSimpleTraversability("envire::MLSSimpleTraversability");
 
 SimpleTraversability::SimpleTraversability()
+    : Operator(0, 1)
 {
 }
 
-- 
2.43.0


From 762a417ea79e175522bbfad9d5f61b1fd34b9b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:38 +0000
Subject: [PATCH 072/155] fix: grown obstacles are known obstacles

---
 src/operators/SimpleTraversability.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/operators/SimpleTraversability.cpp b/src/operators/SimpleTraversability.cpp
index 3579321..d4a5e9a 100644
--- a/src/operators/SimpleTraversability.cpp
+++ b/src/operators/SimpleTraversability.cpp
@@ -417,7 +417,7 @@ void SimpleTraversability::growObstacles(OutputLayer& map, std::string const& ba
 				&& ty >= 0 && ty < (int)map.getHeight() )
                         {
 			    data[ty][tx] = CLASS_OBSTACLE;
-                            probabilityArray[y][x] = std::numeric_limits< uint8_t >::max();
+                            probabilityArray[ty][tx] = std::numeric_limits< uint8_t >::max();
                         }
 		    }
 		}
-- 
2.43.0


From 61cdba1c9042af86095af72640c24538ab0bb109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:43 +0000
Subject: [PATCH 073/155] fix: save the obstacle clearance of
 SimpleTraversability

---
 src/operators/SimpleTraversability.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/operators/SimpleTraversability.cpp b/src/operators/SimpleTraversability.cpp
index d4a5e9a..d7d1215 100644
--- a/src/operators/SimpleTraversability.cpp
+++ b/src/operators/SimpleTraversability.cpp
@@ -53,6 +53,7 @@ void SimpleTraversability::serialize(envire::Serialization& so)
     so.write("class_count", conf.class_count);
     so.write("ground_clearance", conf.ground_clearance);
     so.write("min_width", conf.min_width);
+    so.write("obstacle_clearance", conf.obstacle_clearance);
     so.write("output_band", output_band);
 }
 
@@ -74,6 +75,9 @@ void SimpleTraversability::unserialize(envire::Serialization& so)
     so.read<int>("class_count", conf.class_count);
     so.read<double>("ground_clearance", conf.ground_clearance);
     so.read<double>("min_width", conf.min_width);
+    // not in older files
+    if (so.hasKey("obstacle_clearance"))
+        so.read<double>("obstacle_clearance", conf.obstacle_clearance);
     so.read<std::string>("output_band", output_band);
 }
 
-- 
2.43.0


From 7d65800d8d7d69d8b54b90e176ab191b986f2dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:40 +0000
Subject: [PATCH 074/155] fix: SimpleTraversability refuses layers of different
 sizes

---
 src/operators/SimpleTraversability.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/operators/SimpleTraversability.cpp b/src/operators/SimpleTraversability.cpp
index d7d1215..24a9756 100644
--- a/src/operators/SimpleTraversability.cpp
+++ b/src/operators/SimpleTraversability.cpp
@@ -147,6 +147,8 @@ bool SimpleTraversability::updateAll()
             input_layers[i] = getEnvironment()->getItem< Grid<float> >(input_layers_id[i]).get();
             has_data = true;
             inputs[i] = &(input_layers[i]->getGridData(input_bands[i]));
+            if (input_layers[i]->getCellSizeX() != output_layer->getCellSizeX() || input_layers[i]->getCellSizeY() != output_layer->getCellSizeY())
+                throw std::runtime_error("SimpleTraversability: input and output layers have different sizes");
 
             std::pair<float, bool> no_data = input_layers[i]->getNoData(input_bands[i]);
             if (no_data.second)
-- 
2.43.0


From f2abf011414f287111086d835869d034ee283a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:21 +0000
Subject: [PATCH 075/155] fix: ObjectGrowing without a band name fills the
 default band of the output

---
 src/operators/ObjectGrowing.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/operators/ObjectGrowing.hpp b/src/operators/ObjectGrowing.hpp
index 90f7b91..c608778 100644
--- a/src/operators/ObjectGrowing.hpp
+++ b/src/operators/ObjectGrowing.hpp
@@ -47,7 +47,9 @@ public:
             mapIn.getGridData() :
             mapIn.getGridData(band_name);
 
-        typename Grid< Y >::ArrayType &data( mapOut.getGridData(band_name) );
+        typename Grid< Y >::ArrayType &data( band_name.empty() ?
+            mapOut.getGridData() :
+            mapOut.getGridData(band_name) );
 
         if(orig_data.num_elements() != data.num_elements())
             throw std::runtime_error("ObjectGrowing, input and output data have differens sizes");
-- 
2.43.0


From cb81e8b8adfba32bc6679e818642372977fcb4cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:57 +0000
Subject: [PATCH 076/155] fix: TraversabilityGrassfire tells whether it found
 the plane the robot is driving on

---
 src/operators/TraversabilityGrassfire.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/operators/TraversabilityGrassfire.cpp b/src/operators/TraversabilityGrassfire.cpp
index 396aa5f..4f0f071 100644
--- a/src/operators/TraversabilityGrassfire.cpp
+++ b/src/operators/TraversabilityGrassfire.cpp
@@ -465,5 +465,5 @@ bool envire::TraversabilityGrassfire::updateAll()
     std::cout << "totalCnt " << totalCnt << std::endl;
     std::cout << "drivable " << drivable << std::endl;*/
         
-    return envire::Operator::updateAll();
+    return true;
 }
-- 
2.43.0


From 675fbd5ac2c0796d2c9f9c09af2981971bfb8472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:57 +0000
Subject: [PATCH 077/155] fix: the grassfire leaves no classes of an earlier
 run if the start is outside

---
 src/operators/TraversabilityGrassfire.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/operators/TraversabilityGrassfire.cpp b/src/operators/TraversabilityGrassfire.cpp
index 4f0f071..d0cb78d 100644
--- a/src/operators/TraversabilityGrassfire.cpp
+++ b/src/operators/TraversabilityGrassfire.cpp
@@ -223,10 +223,6 @@ bool TraversabilityGrassfire::determineDrivePlane(base::Vector3d startPos, bool
 {
     size_t startX;
     size_t startY;
-    if(!mlsGrid->toGrid(startPos, startX, startY, mlsGrid->getEnvironment()->getRootNode()))
-        return false;
-
-    
     //make shure temp maps have correct size
     bestPatchMap.resize(boost::extents[mlsGrid->getCellSizeY()][mlsGrid->getCellSizeX()]);
     visited.resize(boost::extents[mlsGrid->getCellSizeY()][mlsGrid->getCellSizeX()]);
@@ -243,6 +239,9 @@ bool TraversabilityGrassfire::determineDrivePlane(base::Vector3d startPos, bool
     TraversabilityGrid::ArrayType *probabilityArray = &(trGrid->getGridData(TraversabilityGrid::PROBABILITY));
     std::fill(probabilityArray->data(), probabilityArray->data() + probabilityArray->num_elements(), 0);  
     
+    if(!mlsGrid->toGrid(startPos, startX, startY, mlsGrid->getEnvironment()->getRootNode()))
+        return false;
+
     double bestHeightDiff = std::numeric_limits< double >::max();
     SurfacePatch *bestMatchingPatch = NULL;
 
-- 
2.43.0


From f676f669452469a71ce3ef9b7f4f43edfff57dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:57 +0000
Subject: [PATCH 078/155] fix: start height of the grassfire in the frame of
 the grid

---
 src/operators/TraversabilityGrassfire.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/operators/TraversabilityGrassfire.cpp b/src/operators/TraversabilityGrassfire.cpp
index d0cb78d..e257f37 100644
--- a/src/operators/TraversabilityGrassfire.cpp
+++ b/src/operators/TraversabilityGrassfire.cpp
@@ -221,6 +221,10 @@ void TraversabilityGrassfire::addNeightboursToSearchList(size_t x, size_t y, Sur
 
 bool TraversabilityGrassfire::determineDrivePlane(base::Vector3d startPos, bool searchSourunding)
 {
+    //the heights of the patches are given in the frame of the grid
+    Environment *env = mlsGrid->getEnvironment();
+    startPos = env->relativeTransform(env->getRootNode(), mlsGrid->getFrameNode()) * startPos;
+
     size_t startX;
     size_t startY;
     //make shure temp maps have correct size
@@ -239,7 +243,7 @@ bool TraversabilityGrassfire::determineDrivePlane(base::Vector3d startPos, bool
     TraversabilityGrid::ArrayType *probabilityArray = &(trGrid->getGridData(TraversabilityGrid::PROBABILITY));
     std::fill(probabilityArray->data(), probabilityArray->data() + probabilityArray->num_elements(), 0);  
     
-    if(!mlsGrid->toGrid(startPos, startX, startY, mlsGrid->getEnvironment()->getRootNode()))
+    if(!mlsGrid->toGrid(startPos.x(), startPos.y(), startX, startY))
         return false;
 
     double bestHeightDiff = std::numeric_limits< double >::max();
-- 
2.43.0


From 81b2d7f2c27c5ee95e173876615d3f8712850c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:57 +0000
Subject: [PATCH 079/155] fix: TraversabilityGrassfire refuses an output of
 another size

---
 src/operators/TraversabilityGrassfire.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/operators/TraversabilityGrassfire.cpp b/src/operators/TraversabilityGrassfire.cpp
index e257f37..5c1b8d7 100644
--- a/src/operators/TraversabilityGrassfire.cpp
+++ b/src/operators/TraversabilityGrassfire.cpp
@@ -434,7 +434,9 @@ bool envire::TraversabilityGrassfire::updateAll()
     if (!trGrid)
         throw std::runtime_error("TraversabilityGrassfire: no output band set");
 
-    
+    if (trGrid->getCellSizeX() != mlsGrid->getCellSizeX() || trGrid->getCellSizeY() != mlsGrid->getCellSizeY())
+        throw std::runtime_error("TraversabilityGrassfire: output has another size than the input");
+
     trData = &(trGrid->getGridData(TraversabilityGrid::TRAVERSABILITY));
 
     //register classes in traversability map
-- 
2.43.0


From 1fbea276ef33b23ea1aae0b4d61ce7cc8c797053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:19 +0000
Subject: [PATCH 080/155] fix: MLSToGrid.hpp and MLSSlope.hpp can be included
 together

---
 src/operators/MLSToGrid.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/operators/MLSToGrid.hpp b/src/operators/MLSToGrid.hpp
index 00dd865..3be8208 100644
--- a/src/operators/MLSToGrid.hpp
+++ b/src/operators/MLSToGrid.hpp
@@ -1,5 +1,5 @@
-#ifndef __ENVIRE__MLS_SLOPE_HPP__
-#define __ENVIRE__MLS_SLOPE_HPP__
+#ifndef __ENVIRE__MLS_TO_GRID_HPP__
+#define __ENVIRE__MLS_TO_GRID_HPP__
 
 #include <envire/Core.hpp>
 #include <envire/maps/Grid.hpp>
-- 
2.43.0


From a209eb6d9062b8dc944ab601e4ab6cfb01cb342d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:19 +0000
Subject: [PATCH 081/155] fix: MLSToGrid refuses a grid that differs from the
 input in one dimension

---
 src/operators/MLSToGrid.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/operators/MLSToGrid.cpp b/src/operators/MLSToGrid.cpp
index f1bc13e..62569d4 100644
--- a/src/operators/MLSToGrid.cpp
+++ b/src/operators/MLSToGrid.cpp
@@ -36,9 +36,9 @@ bool MLSToGrid::updateAll()
     Grid<double>& travGrid = *env->getOutput< Grid<double>* >(this);
     MLSGrid const& mls = *env->getInput< MLSGrid* >(this);
 
-    if( mls.getWidth() != travGrid.getWidth() && mls.getHeight() != travGrid.getHeight() )
+    if( mls.getWidth() != travGrid.getWidth() || mls.getHeight() != travGrid.getHeight() )
         throw std::runtime_error("mismatching width and/or height between MLSGradient input and output");
-    if( mls.getScaleX() != travGrid.getScaleX() && mls.getScaleY() != travGrid.getScaleY() )
+    if( mls.getScaleX() != travGrid.getScaleX() || mls.getScaleY() != travGrid.getScaleY() )
         throw std::runtime_error("mismatching cell scale between MLSGradient input and output");
 
     // init traversibility grid
-- 
2.43.0


From 5d653f4d19178be096f0a4c7b1a6dc2a8357c295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:19 +0000
Subject: [PATCH 082/155] fix: MLSSlope refuses a grid that differs from the
 input in one dimension

---
 src/operators/MLSSlope.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/operators/MLSSlope.cpp b/src/operators/MLSSlope.cpp
index 0028e7e..e502b09 100644
--- a/src/operators/MLSSlope.cpp
+++ b/src/operators/MLSSlope.cpp
@@ -73,9 +73,9 @@ bool MLSSlope::updateAll()
     Grid<float>& travGrid = *env->getOutput< Grid<float>* >(this);
     MLSGrid const& mls = *env->getInput< MLSGrid* >(this);
 
-    if( mls.getWidth() != travGrid.getWidth() && mls.getHeight() != travGrid.getHeight() )
+    if( mls.getWidth() != travGrid.getWidth() || mls.getHeight() != travGrid.getHeight() )
         throw std::runtime_error("mismatching width and/or height between MLSGradient input and output");
-    if( mls.getScaleX() != travGrid.getScaleX() && mls.getScaleY() != travGrid.getScaleY() )
+    if( mls.getScaleX() != travGrid.getScaleX() || mls.getScaleY() != travGrid.getScaleY() )
         throw std::runtime_error("mismatching cell scale between MLSGradient input and output");
 
     // init traversibility grid
-- 
2.43.0


From df6ff0a3b1091ba6e1d4a5ce0259b2bd21a54e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:19 +0000
Subject: [PATCH 083/155] fix: all constructors of MLSSlope initialize all
 members

---
 src/operators/MLSSlope.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/operators/MLSSlope.hpp b/src/operators/MLSSlope.hpp
index 3ff5d78..e741cd4 100644
--- a/src/operators/MLSSlope.hpp
+++ b/src/operators/MLSSlope.hpp
@@ -33,12 +33,15 @@ namespace envire
             , window_size(1) {}
         MLSSlope(double corrected_step_threshold, bool use_stddev) 
             : corrected_step_threshold(corrected_step_threshold)
-            , use_stddev(use_stddev) {}
+            , use_stddev(use_stddev)
+            , required_measurements_per_patch(0)
+            , window_size(1) {}
         MLSSlope(double corrected_step_threshold, bool use_stddev, 
                  uint32_t required_measurements_per_patch) 
             : corrected_step_threshold(corrected_step_threshold)
             , use_stddev(use_stddev)
-            , required_measurements_per_patch(required_measurements_per_patch) {}
+            , required_measurements_per_patch(required_measurements_per_patch)
+            , window_size(1) {}
 	void serialize( Serialization &so ) { Operator::serialize( so ) ;}
 	void unserialize( Serialization &so ) { Operator::unserialize( so ) ;}
 
-- 
2.43.0


From f6db3ba77e4d6cc8fa878c1abb55086b7c106e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:19 +0000
Subject: [PATCH 084/155] fix: MLSSlope takes all neighbours of the cells next
 to the border into account

---
 src/operators/MLSSlope.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/operators/MLSSlope.cpp b/src/operators/MLSSlope.cpp
index e502b09..7db0581 100644
--- a/src/operators/MLSSlope.cpp
+++ b/src/operators/MLSSlope.cpp
@@ -129,7 +129,8 @@ bool MLSSlope::updateAll()
 
     for(size_t x=1;x<width;x++)
     {
-        for(size_t y=1;y<height-1;y++)
+        // the cells of the border are neighbours, too
+        for(size_t y=0;y<height;y++)
         {
             MLSGrid::const_iterator this_cell = 
                 std::max_element( mls.beginCell(x,y), mls.endCell() );
@@ -146,16 +147,19 @@ bool MLSSlope::updateAll()
                 continue;
             }
             
-            updateGradient(mls, use_stddev, angles, diffs, counts, scaley,
+            if (y + 1 < height)
+                updateGradient(mls, use_stddev, angles, diffs, counts, scaley,
                     BOTTOM_CENTER, x, y, TOP_CENTER, x, y + 1,
                     this_cell, required_measurements_per_patch);
-            updateGradient(mls, use_stddev, angles, diffs, counts, diagonal_scale,
+            if (y > 0)
+                updateGradient(mls, use_stddev, angles, diffs, counts, diagonal_scale,
                     TOP_RIGHT, x, y, BOTTOM_LEFT, x - 1, y - 1,
                     this_cell, required_measurements_per_patch);
             updateGradient(mls, use_stddev, angles, diffs, counts, scalex,
                     CENTER_RIGHT, x, y, CENTER_LEFT, x - 1, y,
                     this_cell, required_measurements_per_patch);
-            updateGradient(mls, use_stddev, angles, diffs, counts, diagonal_scale,
+            if (y + 1 < height)
+                updateGradient(mls, use_stddev, angles, diffs, counts, diagonal_scale,
                     BOTTOM_RIGHT, x, y, TOP_LEFT, x - 1, y + 1,
                     this_cell, required_measurements_per_patch);            
               
-- 
2.43.0


From b7d08848cd0601fca314934332c3497bbdc03655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:19 +0000
Subject: [PATCH 085/155] fix: patches with too few measurements do not make a
 slope

---
 src/operators/MLSSlope.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/operators/MLSSlope.cpp b/src/operators/MLSSlope.cpp
index 7db0581..bf3e155 100644
--- a/src/operators/MLSSlope.cpp
+++ b/src/operators/MLSSlope.cpp
@@ -181,7 +181,8 @@ bool MLSSlope::updateAll()
                     MLSGrid::const_iterator neighbour_cell = 
                         std::max_element( mls.beginCell(rx,ry), mls.endCell() );
 
-                    if( neighbour_cell != mls.endCell() )
+                    if( neighbour_cell != mls.endCell() &&
+                            neighbour_cell->getMeasurementCount() >= required_measurements_per_patch)
                     {
                         count++;
                         Vector3d input(xi * mls.getScaleX(), yi * mls.getScaleY(), thisHeight - neighbour_cell->mean);
-- 
2.43.0


From 5aa1c0fe247d9be39810211edc17b934fd38d032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:19 +0000
Subject: [PATCH 086/155] fix: GridFloatToMLS transforms the centers of the
 cells into the grid, not the other way round

---
 src/operators/GridFloatToMLS.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/operators/GridFloatToMLS.cpp b/src/operators/GridFloatToMLS.cpp
index 2d99a33..c2ab22d 100644
--- a/src/operators/GridFloatToMLS.cpp
+++ b/src/operators/GridFloatToMLS.cpp
@@ -49,7 +49,7 @@ void GridFloatToMLS::setOutput( MLSGrid* mls )
 template<typename T>
 static void convert(Grid<T>* grid, std::string const& band_name, MLSGrid* mls)
 {
-    Transform mls2grid = grid->getEnvironment()->relativeTransform( grid, mls );
+    Transform mls2grid = grid->getEnvironment()->relativeTransform( mls, grid );
     
     boost::multi_array<T, 2>* grid_data;
     if (band_name.empty())
@@ -59,11 +59,9 @@ static void convert(Grid<T>* grid, std::string const& band_name, MLSGrid* mls)
 
     for (size_t yi = 0; yi < mls->getCellSizeY(); ++yi)
     {
-        double y = mls->getScaleY() * yi + mls->getOffsetY();
         for (size_t xi = 0; xi < mls->getCellSizeX(); ++xi)
         {
-            double x = mls->getScaleX() * xi + mls->getOffsetX();
-            Eigen::Vector3d src_p = mls2grid * Eigen::Vector3d(x, y, 0);
+            Eigen::Vector3d src_p = mls2grid * mls->fromGrid(xi, yi);
             size_t src_xi, src_yi;
             if (!grid->toGrid(src_p.x(), src_p.y(), src_xi, src_yi))
                 continue;
-- 
2.43.0


From 65370b559e8f9799b8eeedc2d1ea2decef2131c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:19 +0000
Subject: [PATCH 087/155] fix: GridFloatToMLS gives heights in the frame of the
 MLS

---
 src/operators/GridFloatToMLS.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/operators/GridFloatToMLS.cpp b/src/operators/GridFloatToMLS.cpp
index c2ab22d..2b72549 100644
--- a/src/operators/GridFloatToMLS.cpp
+++ b/src/operators/GridFloatToMLS.cpp
@@ -50,6 +50,7 @@ template<typename T>
 static void convert(Grid<T>* grid, std::string const& band_name, MLSGrid* mls)
 {
     Transform mls2grid = grid->getEnvironment()->relativeTransform( mls, grid );
+    Transform grid2mls = grid->getEnvironment()->relativeTransform( grid, mls );
     
     boost::multi_array<T, 2>* grid_data;
     if (band_name.empty())
@@ -67,7 +68,7 @@ static void convert(Grid<T>* grid, std::string const& band_name, MLSGrid* mls)
                 continue;
 
             T value = (*grid_data)[src_yi][src_xi];
-            mls->updateCell(xi, yi, value, 0);
+            mls->updateCell(xi, yi, (grid2mls * Eigen::Vector3d(src_p.x(), src_p.y(), value)).z(), 0);
         }
     }
 }
-- 
2.43.0


From 837f82766a7429170bd1e966706c0a5066aa09f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:19 +0000
Subject: [PATCH 088/155] fix: GridFloatToMLS makes no patches of cells without
 data

---
 src/operators/GridFloatToMLS.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/operators/GridFloatToMLS.cpp b/src/operators/GridFloatToMLS.cpp
index 2b72549..644347a 100644
--- a/src/operators/GridFloatToMLS.cpp
+++ b/src/operators/GridFloatToMLS.cpp
@@ -53,10 +53,17 @@ static void convert(Grid<T>* grid, std::string const& band_name, MLSGrid* mls)
     Transform grid2mls = grid->getEnvironment()->relativeTransform( grid, mls );
     
     boost::multi_array<T, 2>* grid_data;
+    std::pair<T, bool> no_data;
     if (band_name.empty())
+    {
         grid_data = &grid->getGridData();
+        no_data = grid->getNoData();
+    }
     else
+    {
         grid_data = &grid->getGridData(band_name);
+        no_data = grid->getNoData(band_name);
+    }
 
     for (size_t yi = 0; yi < mls->getCellSizeY(); ++yi)
     {
@@ -68,6 +75,8 @@ static void convert(Grid<T>* grid, std::string const& band_name, MLSGrid* mls)
                 continue;
 
             T value = (*grid_data)[src_yi][src_xi];
+            if (no_data.second && value == no_data.first)
+                continue;
             mls->updateCell(xi, yi, (grid2mls * Eigen::Vector3d(src_p.x(), src_p.y(), value)).z(), 0);
         }
     }
-- 
2.43.0


From a4bdbffbe9c2d05bbff8881e7176362ab232d38a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:19 +0000
Subject: [PATCH 089/155] fix: heights of MergeMLS in reverse mode

---
 src/operators/MergeMLS.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/operators/MergeMLS.cpp b/src/operators/MergeMLS.cpp
index f27cdab..fbaef3a 100644
--- a/src/operators/MergeMLS.cpp
+++ b/src/operators/MergeMLS.cpp
@@ -115,7 +115,7 @@ bool MergeMLS::updateAll()
 			for( MLSGrid::iterator cit = input->beginCell(s_pos.x, s_pos.y); cit != input->endCell(); cit++ )
 			{
 			    MLSGrid::SurfacePatch p( *cit );
-			    p.mean += src_pos.z();
+			    p.mean -= src_pos.z();
 
 			    output->updateCell( m, n, p );
 			}
-- 
2.43.0


From a727e52309eca0bffd998252cfe196d03c99735f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:19 +0000
Subject: [PATCH 090/155] fix: MergeMLS moves the sums of a patch along with it

---
 src/operators/MergeMLS.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/operators/MergeMLS.cpp b/src/operators/MergeMLS.cpp
index fbaef3a..9e29e83 100644
--- a/src/operators/MergeMLS.cpp
+++ b/src/operators/MergeMLS.cpp
@@ -67,7 +67,7 @@ bool MergeMLS::updateAll()
 			MLSGrid::Position t_pos;
 			if( output->toGrid( target_pos.head<2>(), t_pos ) )
 			{
-			    p.mean = target_pos.z();
+			    p.translate( target_pos.z() - p.mean );
 			    output->updateCell( t_pos.x, t_pos.y, p );
 			}
 		    }
@@ -115,7 +115,7 @@ bool MergeMLS::updateAll()
 			for( MLSGrid::iterator cit = input->beginCell(s_pos.x, s_pos.y); cit != input->endCell(); cit++ )
 			{
 			    MLSGrid::SurfacePatch p( *cit );
-			    p.mean -= src_pos.z();
+			    p.translate( -src_pos.z() );
 
 			    output->updateCell( m, n, p );
 			}
-- 
2.43.0


From 660e1f99c9c533a8ad1616779b445eadd9b7d72b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:19 +0000
Subject: [PATCH 091/155] fix: MLSToPointCloud gives points in the frame of the
 pointcloud

---
 src/operators/MLSToPointCloud.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/operators/MLSToPointCloud.cpp b/src/operators/MLSToPointCloud.cpp
index afe2ec9..1d8f697 100644
--- a/src/operators/MLSToPointCloud.cpp
+++ b/src/operators/MLSToPointCloud.cpp
@@ -38,6 +38,10 @@ bool MLSToPointCloud::updateAll()
     if(vertical_distance <= 0.0)
 	vertical_distance = 0.1;
     
+    // the points are given in the frame of the pointcloud
+    FrameNode* target = pointcloud->getFrameNode() ? pointcloud->getFrameNode() : env->getRootNode();
+    Transform C_g2p = env->relativeTransform( mls_grid->getFrameNode(), target );
+
     // create pointcloud from mls
     for(size_t x=0;x<mls_grid->getCellSizeX();x++)
     {
@@ -46,13 +50,12 @@ bool MLSToPointCloud::updateAll()
 	    for( MLSGrid::iterator cit = mls_grid->beginCell(x,y); cit != mls_grid->endCell(); cit++ )
 	    {
 		MLSGrid::SurfacePatch p( *cit );
-		Eigen::Vector3d cellPosWorld = mls_grid->fromGrid(x, y, mls_grid->getEnvironment()->getRootNode());
-		Eigen::Vector3d point(cellPosWorld);
+		Eigen::Vector3d point = mls_grid->fromGrid(x, y);
 		
 		if(p.isHorizontal())
 		{
-		    point[2] = cellPosWorld.z() + p.mean;
-		    pointcloud->vertices.push_back(point);
+		    point[2] = p.mean;
+		    pointcloud->vertices.push_back(C_g2p * point);
 		    
 		}
 		else if(p.isVertical())
@@ -61,8 +64,8 @@ bool MLSToPointCloud::updateAll()
 		    float max_z = (float)p.getMaxZ(0);
 		    for(float z = min_z; z <= max_z; z += vertical_distance)
 		    {
-			point[2] = cellPosWorld.z() + z;
-			pointcloud->vertices.push_back(point);
+			point[2] = z;
+			pointcloud->vertices.push_back(C_g2p * point);
 		    }
 		}
 	    }
-- 
2.43.0


From b31c5e7e1e9943a2a230a61eff7b52e7d2417a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:21 +0000
Subject: [PATCH 092/155] fix: a Pointcloud loads its points along with its
 scene

---
 src/maps/Pointcloud.cpp | 5 +++++
 src/maps/Pointcloud.hpp | 5 +++--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/maps/Pointcloud.cpp b/src/maps/Pointcloud.cpp
index 09d6083..0aca5fc 100644
--- a/src/maps/Pointcloud.cpp
+++ b/src/maps/Pointcloud.cpp
@@ -42,6 +42,11 @@ void Pointcloud::serialize(Serialization& so, bool handleMap)
 	writePly( getMapFileName() + ".ply", so.getBinaryOutputStream(getMapFileName() + ".ply") );
 }
 
+void Pointcloud::unserialize(Serialization& so)
+{
+    unserialize(so, true);
+}
+
 void Pointcloud::unserialize(Serialization& so, bool handleMap)
 {
     CartesianMap::unserialize(so);
diff --git a/src/maps/Pointcloud.hpp b/src/maps/Pointcloud.hpp
index fd17de0..b8196c8 100644
--- a/src/maps/Pointcloud.hpp
+++ b/src/maps/Pointcloud.hpp
@@ -69,8 +69,9 @@ namespace envire {
 	void copyFrom(const base::samples::Pointcloud& source);
 
 	void serialize(Serialization& so);
-	void serialize(Serialization& so, bool handleMap = true);
-        void unserialize(Serialization& so, bool handleMap = true);
+	void serialize(Serialization& so, bool handleMap);
+        void unserialize(Serialization& so);
+        void unserialize(Serialization& so, bool handleMap);
 
 	bool writeText(std::ostream& os);
 	bool readText(std::istream& is, int sample = 1, TextFormat = XYZR );
-- 
2.43.0


From 7de8470749334b4308d2b4a0e2486386eea0cad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:21 +0000
Subject: [PATCH 093/155] fix: Featurecloud stores the points it reads back

---
 src/maps/Featurecloud.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/maps/Featurecloud.cpp b/src/maps/Featurecloud.cpp
index 5a48c88..7767486 100644
--- a/src/maps/Featurecloud.cpp
+++ b/src/maps/Featurecloud.cpp
@@ -10,7 +10,7 @@ Featurecloud::Featurecloud()
 
 void Featurecloud::serialize(Serialization& so)
 {
-    Pointcloud::serialize( so, false );
+    Pointcloud::serialize( so );
 
     // TODO write map file
 }
-- 
2.43.0


From 2a27b2eb0aa02aee1da3890581287a9b204cb2cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:21 +0000
Subject: [PATCH 094/155] fix: descriptor type of a new Featurecloud

---
 src/maps/Featurecloud.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/maps/Featurecloud.cpp b/src/maps/Featurecloud.cpp
index 7767486..ca1abc1 100644
--- a/src/maps/Featurecloud.cpp
+++ b/src/maps/Featurecloud.cpp
@@ -4,7 +4,7 @@ using namespace envire;
 ENVIRONMENT_ITEM_DEF( Featurecloud )
 
 Featurecloud::Featurecloud()
-    : descriptorSize(0)
+    : descriptorType(DESCRIPTOR_SURF), descriptorSize(0)
 {
 }
 
-- 
2.43.0


From a788707bae4591a716e1c7f62f64f2063b01d385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:21 +0000
Subject: [PATCH 095/155] fix: Pointcloud::clear takes the vertex attributes in
 the type they have

---
 src/maps/Pointcloud.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/maps/Pointcloud.hpp b/src/maps/Pointcloud.hpp
index b8196c8..1c86bda 100644
--- a/src/maps/Pointcloud.hpp
+++ b/src/maps/Pointcloud.hpp
@@ -57,7 +57,7 @@ namespace envire {
 	    vertices.clear();
 	    if( hasData( VERTEX_COLOR ) ) getVertexData<Eigen::Vector3d>( VERTEX_COLOR ).clear();
 	    if( hasData( VERTEX_NORMAL ) ) getVertexData<Eigen::Vector3d>( VERTEX_NORMAL ).clear();
-	    if( hasData( VERTEX_ATTRIBUTES ) ) getVertexData<attr_flag>( VERTEX_ATTRIBUTES ).clear();
+	    if( hasData( VERTEX_ATTRIBUTES ) ) getVertexData<vertex_attr>( VERTEX_ATTRIBUTES ).clear();
 	    if( hasData( VERTEX_VARIANCE ) ) getVertexData<double>( VERTEX_VARIANCE ).clear();
 	};
 
-- 
2.43.0


From d661a15de2b5686f3e4eecb8a79a3490029a923b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:21 +0000
Subject: [PATCH 096/155] fix: CutPointcloud takes the vertex attributes in the
 type they have

---
 src/operators/CutPointcloud.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/operators/CutPointcloud.cpp b/src/operators/CutPointcloud.cpp
index bb7d9b6..187ec8e 100644
--- a/src/operators/CutPointcloud.cpp
+++ b/src/operators/CutPointcloud.cpp
@@ -80,11 +80,11 @@ bool CutPointcloud::updateAll(){
     // get meta data
     std::vector<Eigen::Vector3d> *source_vertex_normal_data = NULL;
     std::vector<Eigen::Vector3d> *source_vertex_color_data = NULL;
-    std::vector<Pointcloud::attr_flag> *source_vertex_attributes_data = NULL;
+    std::vector<Pointcloud::vertex_attr> *source_vertex_attributes_data = NULL;
     std::vector<double> *source_vertex_variance_data = NULL;
     std::vector<Eigen::Vector3d> *target_vertex_normal_data = NULL;
     std::vector<Eigen::Vector3d> *target_vertex_color_data = NULL;
-    std::vector<Pointcloud::attr_flag> *target_vertex_attributes_data = NULL;
+    std::vector<Pointcloud::vertex_attr> *target_vertex_attributes_data = NULL;
     std::vector<double> *target_vertex_variance_data = NULL;
     if( sourcecloud->hasData(Pointcloud::VERTEX_NORMAL) )
     {
@@ -98,8 +98,8 @@ bool CutPointcloud::updateAll(){
     }
     if( sourcecloud->hasData(Pointcloud::VERTEX_ATTRIBUTES) )
     {
-        source_vertex_attributes_data = &sourcecloud->getVertexData<Pointcloud::attr_flag>( Pointcloud::VERTEX_ATTRIBUTES );
-        target_vertex_attributes_data = &targetcloud->getVertexData<Pointcloud::attr_flag>( Pointcloud::VERTEX_ATTRIBUTES );
+        source_vertex_attributes_data = &sourcecloud->getVertexData<Pointcloud::vertex_attr>( Pointcloud::VERTEX_ATTRIBUTES );
+        target_vertex_attributes_data = &targetcloud->getVertexData<Pointcloud::vertex_attr>( Pointcloud::VERTEX_ATTRIBUTES );
     }
     if( sourcecloud->hasData(Pointcloud::VERTEX_VARIANCE) )
     {
-- 
2.43.0


From 97abc261bace6df493577348670d765fe51395bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:21 +0000
Subject: [PATCH 097/155] fix: CutPointcloud looks at the number of attributes,
 not of variances

---
 src/operators/CutPointcloud.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/operators/CutPointcloud.cpp b/src/operators/CutPointcloud.cpp
index 187ec8e..c33d87b 100644
--- a/src/operators/CutPointcloud.cpp
+++ b/src/operators/CutPointcloud.cpp
@@ -122,7 +122,7 @@ bool CutPointcloud::updateAll(){
                 target_vertex_normal_data->push_back( normal_rot * source_vertex_normal_data->at(i) );
             if(source_vertex_color_data && source_vertex_color_data->size() > i)
                 target_vertex_color_data->push_back( source_vertex_color_data->at(i) );
-            if(source_vertex_attributes_data && source_vertex_variance_data->size() > i)
+            if(source_vertex_attributes_data && source_vertex_attributes_data->size() > i)
                 target_vertex_attributes_data->push_back( source_vertex_attributes_data->at(i) );
             if(source_vertex_variance_data && source_vertex_variance_data->size() > i)
                 target_vertex_variance_data->push_back( source_vertex_variance_data->at(i) );
-- 
2.43.0


From 5e092a7403fdb9ea9470e768a483481856e3823c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:21 +0000
Subject: [PATCH 098/155] fix: write pointclouds with empty normals or colors

---
 src/tools/PlyFile.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/tools/PlyFile.cpp b/src/tools/PlyFile.cpp
index 6471f1c..54acbd0 100644
--- a/src/tools/PlyFile.cpp
+++ b/src/tools/PlyFile.cpp
@@ -175,6 +175,12 @@ bool PlyFile::serialize(Pointcloud *pointcloud, std::ostream& data , bool const
     const std::string version = "1.0";
     const std::string precision = doublePrecision ? "double" : "float";
 
+    // data without any entries (e.g. of a cleared pointcloud) is as good as no data
+    const bool hasNormals = pointcloud->hasData( Pointcloud::VERTEX_NORMAL )
+	&& !pointcloud->getVertexData<Eigen::Vector3d>( Pointcloud::VERTEX_NORMAL ).empty();
+    const bool hasColors = pointcloud->hasData( Pointcloud::VERTEX_COLOR )
+	&& !pointcloud->getVertexData<Eigen::Vector3d>( Pointcloud::VERTEX_COLOR ).empty();
+
     data << "ply" << "\n";
     data << "format ";
     if( ply::host_byte_order == ply::little_endian_byte_order )
@@ -193,7 +199,7 @@ bool PlyFile::serialize(Pointcloud *pointcloud, std::ostream& data , bool const
     data << "property " << precision << " y\n";
     data << "property " << precision << " z\n";
 
-    if( pointcloud->hasData( Pointcloud::VERTEX_NORMAL ) )
+    if( hasNormals )
     {
 	data << "element normal " << pointcloud->vertices.size() <<  "\n";
 	data << "property " << precision << " x\n";
@@ -201,7 +207,7 @@ bool PlyFile::serialize(Pointcloud *pointcloud, std::ostream& data , bool const
 	data << "property " << precision << " z\n";
     }
 
-    if( pointcloud->hasData( Pointcloud::VERTEX_COLOR ) )
+    if( hasColors )
     {
 	data << "element color " << pointcloud->vertices.size() <<  "\n";
 	data << "property uchar red\n";
@@ -245,7 +251,7 @@ bool PlyFile::serialize(Pointcloud *pointcloud, std::ostream& data , bool const
       }
     }
 
-    if( pointcloud->hasData( Pointcloud::VERTEX_NORMAL ) )
+    if( hasNormals )
     {
 	std::vector<Eigen::Vector3d> &normals( pointcloud->getVertexData<Eigen::Vector3d>( Pointcloud::VERTEX_NORMAL ) );
 	if( normals.size() != pointcloud->vertices.size() )
@@ -276,7 +282,7 @@ bool PlyFile::serialize(Pointcloud *pointcloud, std::ostream& data , bool const
         }
     }
 
-    if( pointcloud->hasData( Pointcloud::VERTEX_COLOR ) )
+    if( hasColors )
     {
 	std::vector<Eigen::Vector3d> &colors( pointcloud->getVertexData<Eigen::Vector3d>( Pointcloud::VERTEX_COLOR ) );
 	if( colors.size() != pointcloud->vertices.size() )
-- 
2.43.0


From 83dce95881e2039baebb9fece2a18ab06206ade7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:21 +0000
Subject: [PATCH 099/155] fix: reading a ply file replaces the content of a
 pointcloud

---
 src/tools/PlyFile.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/tools/PlyFile.cpp b/src/tools/PlyFile.cpp
index 54acbd0..2894a5b 100644
--- a/src/tools/PlyFile.cpp
+++ b/src/tools/PlyFile.cpp
@@ -322,7 +322,12 @@ bool PlyFile::unserialize( Pointcloud *pointcloud , std::istream& data )
 {
     pco_ = pointcloud;
     tmo_ = dynamic_cast<TriMesh*>(pointcloud);
-    
+
+    // the content of the file replaces the one of the pointcloud
+    pco_->clear();
+    if( tmo_ )
+	tmo_->faces.clear();
+
     ply::ply_parser::flags_type ply_parser_flags = 0;
     ply::ply_parser ply_parser(ply_parser_flags);
 
-- 
2.43.0


From ec68a41da93d364469cf5edbeeda4b229f6044c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:21 +0000
Subject: [PATCH 100/155] fix: remission read from text is a grey value

---
 src/maps/Pointcloud.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/maps/Pointcloud.cpp b/src/maps/Pointcloud.cpp
index 0aca5fc..87e7ae3 100644
--- a/src/maps/Pointcloud.cpp
+++ b/src/maps/Pointcloud.cpp
@@ -100,7 +100,7 @@ bool Pointcloud::readText(std::istream& is, int sample, TextFormat format)
 	    if( format == XYZR && color )
 	    {
 		is >> c;
-		color->push_back( Eigen::Vector3d::Identity() * c / 255.0 );
+		color->push_back( Eigen::Vector3d::Ones() * c / 255.0 );
 	    }
 	
 	    vertices.push_back( Eigen::Vector3d( x,y,z ) );
-- 
2.43.0


From d67899738c46fadb2ec9e5fa21c9b95e1e291389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:21 +0000
Subject: [PATCH 101/155] fix: no point from trailing whitespace of a text file

---
 src/maps/Pointcloud.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/maps/Pointcloud.cpp b/src/maps/Pointcloud.cpp
index 87e7ae3..98cdb34 100644
--- a/src/maps/Pointcloud.cpp
+++ b/src/maps/Pointcloud.cpp
@@ -97,6 +97,8 @@ bool Pointcloud::readText(std::istream& is, int sample, TextFormat format)
 	{
 	    double x, y, z, c;
 	    is >> x >> y >> z;
+	    if( !is )
+		break; // nothing left but whitespace
 	    if( format == XYZR && color )
 	    {
 		is >> c;
-- 
2.43.0


From 723139056d0507c15d06466f0a62e0909684721e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:21 +0000
Subject: [PATCH 102/155] fix: the normal of a vertex is the mean of the
 normals of its faces

---
 src/maps/TriMesh.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/maps/TriMesh.cpp b/src/maps/TriMesh.cpp
index e9028f0..36d3b20 100644
--- a/src/maps/TriMesh.cpp
+++ b/src/maps/TriMesh.cpp
@@ -48,7 +48,7 @@ void TriMesh::calcVertexNormals()
 	Eigen::Vector3d normal = (a[0]-a[1]).cross(a[2]-a[1]).normalized();
 
 	for(int n=0;n<3;n++)
-	    point_normal[tri[n]] = normal;
+	    point_normal[tri[n]] += normal;
     }
     
     // normalize the normals and set vertices without normals to defined value
-- 
2.43.0


From ec42009931e86b05e03a63301bcbc3d989e1b03f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:21 +0000
Subject: [PATCH 103/155] fix: initialise all members of LaserScan

---
 src/maps/LaserScan.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/maps/LaserScan.cpp b/src/maps/LaserScan.cpp
index 49b8a91..fde0c91 100644
--- a/src/maps/LaserScan.cpp
+++ b/src/maps/LaserScan.cpp
@@ -13,7 +13,7 @@ using namespace std;
 ENVIRONMENT_ITEM_DEF( LaserScan )
 
 LaserScan::LaserScan()
-    : origin_phi(0), center_offset( Eigen::Vector3d::Zero() ), x_forward( false )
+    : delta_psi(0), origin_psi(0), origin_phi(0), center_offset( Eigen::Vector3d::Zero() ), points_per_line( 0 ), x_forward( false )
 {
 }
 
-- 
2.43.0


From aabf84a7dd0a8ca8a2fb933fc5eaf8c46a44a09d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:21 +0000
Subject: [PATCH 104/155] fix: LaserScan reads lines up to the last number, and
 numbers in full

---
 src/maps/LaserScan.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/maps/LaserScan.cpp b/src/maps/LaserScan.cpp
index fde0c91..0ab8859 100644
--- a/src/maps/LaserScan.cpp
+++ b/src/maps/LaserScan.cpp
@@ -154,9 +154,8 @@ bool LaserScan::parseScan( std::istream& is, Transform& transform ) {
             scanline_t scanline;
             iline >> scanline.delta_phi;
 
-            while( !iline.eof() ) {
-                int dist;
-                iline >> dist;
+            unsigned int dist;
+            while( iline >> dist ) {
                 scanline.ranges.push_back( dist );
             }
 
@@ -176,9 +175,8 @@ bool LaserScan::parseScan( std::istream& is, Transform& transform ) {
 	    if( dphi != scanline.delta_phi )
 		throw std::runtime_error("remission line does not have the same delta_phi value as prior line statement.");
 
-            while( !iline.eof() ) {
-                float rem;
-                iline >> rem;
+            double rem;
+            while( iline >> rem ) {
                 scanline.remissions.push_back( rem );
             }
 
-- 
2.43.0


From 9ddbe94aea1c57b085a42bc9647893b7b77a0cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:21 +0000
Subject: [PATCH 105/155] fix: reading a scan replaces the lines of a LaserScan

---
 src/maps/LaserScan.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/maps/LaserScan.cpp b/src/maps/LaserScan.cpp
index 0ab8859..7f743d8 100644
--- a/src/maps/LaserScan.cpp
+++ b/src/maps/LaserScan.cpp
@@ -114,6 +114,8 @@ const std::string LaserScan::getMapFileName() const
 }
 
 bool LaserScan::parseScan( std::istream& is, Transform& transform ) {
+    lines.clear();
+
     std::string line;
     while( !is.eof() ) {
         getline( is, line );
-- 
2.43.0


From 5e98fde51ad055e49a23f3e5200ee8831142c3f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:21 +0000
Subject: [PATCH 106/155] fix: LaserScan is stored with all digits

---
 src/maps/LaserScan.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/maps/LaserScan.cpp b/src/maps/LaserScan.cpp
index 7f743d8..158f506 100644
--- a/src/maps/LaserScan.cpp
+++ b/src/maps/LaserScan.cpp
@@ -1,5 +1,6 @@
 #include "LaserScan.hpp"
 
+#include <limits>
 #include <string>
 #include <fstream>
 
@@ -198,6 +199,9 @@ bool LaserScan::readScan( std::istream& is )
 
 bool LaserScan::writeScan( std::ostream& os )
 {
+    // enough digits to read back the same numbers
+    const std::streamsize precision = os.precision( std::numeric_limits<double>::digits10 + 2 );
+
     os << "delta_psi " << delta_psi << endl;
     os << "origin_psi " << origin_psi << endl;
     os << "origin_phi " << origin_phi << endl;
@@ -226,6 +230,8 @@ bool LaserScan::writeScan( std::ostream& os )
 	}
     }	
 
+    os.precision( precision );
+
     return true;
 }
 
-- 
2.43.0


From 07519a59956a3167ad0206e7963d5a19e45709d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:21 +0000
Subject: [PATCH 107/155] fix: LaserScan stores its orientation

---
 src/maps/LaserScan.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/maps/LaserScan.cpp b/src/maps/LaserScan.cpp
index 158f506..3ebe1eb 100644
--- a/src/maps/LaserScan.cpp
+++ b/src/maps/LaserScan.cpp
@@ -153,6 +153,10 @@ bool LaserScan::parseScan( std::istream& is, Transform& transform ) {
             iline >> center_offset.x() >> center_offset.y() >> center_offset.z();
         }
 
+        if( key == "x_forward" ) {
+            iline >> x_forward;
+        }
+
         if( key == "line" ) {
             scanline_t scanline;
             iline >> scanline.delta_phi;
@@ -209,6 +213,7 @@ bool LaserScan::writeScan( std::ostream& os )
 	<< center_offset.x() << " " 
 	<< center_offset.y() << " " 
 	<< center_offset.z() << endl;
+    os << "x_forward " << x_forward << endl;
 
     for( vector<scanline_t>::iterator it=lines.begin();it!=lines.end();it++)
     {
-- 
2.43.0


From b7540a8c98350f47494c919cd21331b68fb15673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:21 +0000
Subject: [PATCH 108/155] fix: ScanMeshing stores its remission scale factor

---
 src/operators/ScanMeshing.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/operators/ScanMeshing.cpp b/src/operators/ScanMeshing.cpp
index 1b9a79f..491648c 100644
--- a/src/operators/ScanMeshing.cpp
+++ b/src/operators/ScanMeshing.cpp
@@ -28,7 +28,7 @@ void ScanMeshing::serialize(Serialization& so)
 {
     Operator::serialize(so);
     so.write("maxEdgeLength", maxEdgeLength ); 
-    so.write("remissionScaleFactor", maxEdgeLength ); 
+    so.write("remissionScaleFactor", remissionScaleFactor ); 
     so.write("minRange", minRange ); 
 }
 
@@ -36,7 +36,7 @@ void ScanMeshing::unserialize(Serialization& so)
 {
     Operator::unserialize(so);
     so.read("maxEdgeLength", maxEdgeLength ); 
-    so.read("remissionScaleFactor", maxEdgeLength ); 
+    so.read("remissionScaleFactor", remissionScaleFactor ); 
     so.read("minRange", minRange ); 
 }
 
-- 
2.43.0


From a47d56cefbc048e5d932cac7fa9b9fb2bf2d699d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:21 +0000
Subject: [PATCH 109/155] fix: ScanMeshing makes faces with the first point,
 too

---
 src/operators/ScanMeshing.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/operators/ScanMeshing.cpp b/src/operators/ScanMeshing.cpp
index 491648c..eee170d 100644
--- a/src/operators/ScanMeshing.cpp
+++ b/src/operators/ScanMeshing.cpp
@@ -262,7 +262,7 @@ bool ScanMeshing::updateAll()
                     
                     // check polygon for existance and then see if all
                     // three edges are within the threshold limit
-                    if( (poly[idx[0]] > 0) && (poly[idx[1]] > 0) && (poly[idx[2]] > 0) && 
+                    if( (poly[idx[0]] >= 0) && (poly[idx[1]] >= 0) && (poly[idx[2]] >= 0) && 
                             (first_poly==-1 || (first_poly+n)%2==0 ) ) {
 
                         float dist_a = (points[poly[idx[0]]] - points[poly[idx[1]]]).norm();
-- 
2.43.0


From a84c6b37b5eeefb478494de8a01de81ba5bee5ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:21 +0000
Subject: [PATCH 110/155] fix: ScanMeshing of lines with different numbers of
 points

---
 src/operators/ScanMeshing.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/operators/ScanMeshing.cpp b/src/operators/ScanMeshing.cpp
index eee170d..74af6a5 100644
--- a/src/operators/ScanMeshing.cpp
+++ b/src/operators/ScanMeshing.cpp
@@ -138,11 +138,14 @@ bool ScanMeshing::updateAll()
 
     envire::LaserScan& scan(*scanPtr);
 
-    int line1[scan.points_per_line], line2[scan.points_per_line];
-    int *idx_line=line1, *prev_idx_line=line2;
+    // index of the point for each measurement of the current and the previous line
+    // or -1, where there is none
+    std::vector<int> idx_line, prev_idx_line;
 
     for(size_t line_num=0;line_num<scan.lines.size();line_num++) {
         const LaserScan::scanline_t& line(scan.lines[line_num]);
+	idx_line.assign( line.ranges.size(), -1 );
+	prev_idx_line.resize( line.ranges.size(), -1 );
 
         float phi = scan.origin_phi + line.delta_phi;
         float psi = scan.origin_psi;
@@ -296,9 +299,7 @@ bool ScanMeshing::updateAll()
         }
 
         // swap line and previous line
-        int *tmp = idx_line;
-        idx_line = prev_idx_line;
-        prev_idx_line = tmp;
+        idx_line.swap( prev_idx_line );
     }
 
     for(size_t i=0;i<markers.size();i++)
-- 
2.43.0


From d88b365c2f6bdb8ff1d03fa19e9b9b62a1dc5ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:21 +0000
Subject: [PATCH 111/155] fix: ScanMeshing turns the center offset about the
 axis of the scan

---
 src/operators/ScanMeshing.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/operators/ScanMeshing.cpp b/src/operators/ScanMeshing.cpp
index 74af6a5..1d8faf9 100644
--- a/src/operators/ScanMeshing.cpp
+++ b/src/operators/ScanMeshing.cpp
@@ -191,7 +191,7 @@ bool ScanMeshing::updateAll()
 		}
 
                 // perform center offset compensation
-                Eigen::Vector3d offset = Eigen::AngleAxisd(phi, Eigen::Vector3d::UnitX()) * scan.center_offset;
+                Eigen::Vector3d offset = Eigen::AngleAxisd(phi, scan.x_forward ? Eigen::Vector3d(-Eigen::Vector3d::UnitY()) : Eigen::Vector3d(Eigen::Vector3d::UnitX())) * scan.center_offset;
                 Eigen::Vector3d opoint = point + offset;
 
                 points.push_back(opoint); 
-- 
2.43.0


From 355a582847fd2514eaacbcfa0d09259171f2c08c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:21 +0000
Subject: [PATCH 112/155] fix: ScanMeshing of scans where some lines have no
 remission

---
 src/operators/ScanMeshing.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/operators/ScanMeshing.cpp b/src/operators/ScanMeshing.cpp
index 1d8faf9..7e60f10 100644
--- a/src/operators/ScanMeshing.cpp
+++ b/src/operators/ScanMeshing.cpp
@@ -209,6 +209,8 @@ bool ScanMeshing::updateAll()
 		    // this is up to the visualisation
 		    float cval = std::min( 1.0, std::max( 0.0, line.remissions[point_num] / (double)remissionScaleFactor ) );
 
+		    // points of lines without remission are black
+		    colors.resize( points.size() - 1, Eigen::Vector3d::Zero() );
 		    colors.push_back( Eigen::Vector3d::Ones() * cval );
 
 		    if( extractMarkers )
@@ -310,6 +312,9 @@ bool ScanMeshing::updateAll()
     // calculate vertex normals
     meshPtr->calcVertexNormals();
 
+    if( !colors.empty() )
+	colors.resize( points.size(), Eigen::Vector3d::Zero() );
+
     // remove colors if empty 
     assert( colors.empty() || colors.size() == points.size() );
     if( colors.empty() )
-- 
2.43.0


From bc196267cf464f87e2199e5489327513ea2c084f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:21 +0000
Subject: [PATCH 113/155] fix: define ScanMeshing::setExtractMarkers

---
 src/operators/ScanMeshing.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/operators/ScanMeshing.cpp b/src/operators/ScanMeshing.cpp
index 7e60f10..ee8ce6e 100644
--- a/src/operators/ScanMeshing.cpp
+++ b/src/operators/ScanMeshing.cpp
@@ -84,6 +84,11 @@ void ScanMeshing::setRemissionMarkerThreshold( long value )
     remissionMarkerThreshold = value;
 }
 
+void ScanMeshing::setExtractMarkers( bool value ) 
+{
+    extractMarkers = value;
+}
+
 struct Marker
 {
     Eigen::Vector3d center;
-- 
2.43.0


From 1cd34e556292a52fc8166a0b26271886efc1c03c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:21 +0000
Subject: [PATCH 114/155] fix: DistanceGridToPointcloud without a distance grid

---
 src/operators/DistanceGridToPointcloud.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/operators/DistanceGridToPointcloud.cpp b/src/operators/DistanceGridToPointcloud.cpp
index 9abeb54..15fe709 100644
--- a/src/operators/DistanceGridToPointcloud.cpp
+++ b/src/operators/DistanceGridToPointcloud.cpp
@@ -37,6 +37,9 @@ bool DistanceGridToPointcloud::updateAll()
 	    dist = dynamic_cast<DistanceGrid*>( *it );
     }
 
+    if( !dist )
+	throw std::runtime_error("DistanceGridToPointcloud needs to have a DistanceGrid as input.");
+
     DistanceGrid const& distanceGrid = *dist;
     Pointcloud& pointcloud = *env->getOutput< Pointcloud* >(this);
 
-- 
2.43.0


From a1fdc750a4d84149cf59924f2204fd6eaef6c3e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:42 +0000
Subject: [PATCH 115/155] fix: MergePointcloud checks the metadata of all
 pointclouds before it changes the target

---
 src/operators/MergePointcloud.cpp | 43 +++++++++++++++++++++++--------
 1 file changed, 32 insertions(+), 11 deletions(-)

diff --git a/src/operators/MergePointcloud.cpp b/src/operators/MergePointcloud.cpp
index 65c6a05..0abf85d 100644
--- a/src/operators/MergePointcloud.cpp
+++ b/src/operators/MergePointcloud.cpp
@@ -48,11 +48,16 @@ void MergePointcloud::setClearOutput( bool clear )
     m_clearOutput = clear;
 }
 
+/** @return true if there is an entry of the given metadata for each point */
+static bool hasVectors( Pointcloud* cloud, const std::string& key )
+{
+    return cloud->hasData( key )
+	&& cloud->getVertexData<Eigen::Vector3d>( key ).size() == cloud->vertices.size();
+}
+
 bool MergePointcloud::updateAll(){
     Pointcloud* targetcloud = dynamic_cast<envire::Pointcloud*>(*env->getOutputs(this).begin());
     assert( targetcloud );
-    if( m_clearOutput )
-	targetcloud->clear();
 
     std::list<Layer*> inputs = env->getInputs(this);
 
@@ -61,12 +66,34 @@ bool MergePointcloud::updateAll(){
 
     for( std::list<Layer*>::iterator it = inputs.begin(); it != inputs.end(); it++ ){
 	Pointcloud* cloud = dynamic_cast<envire::Pointcloud*>(*it);
-	hasNormal = hasNormal || cloud->hasData( Pointcloud::VERTEX_NORMAL );
-	hasColor = hasColor || cloud->hasData( Pointcloud::VERTEX_COLOR );
-
+	assert( cloud );
 	assert( cloud != targetcloud );
     }
 
+    // the points which are already in the target need to have the same data, too
+    std::list<Layer*> clouds = inputs;
+    if( !m_clearOutput )
+	clouds.push_back( targetcloud );
+
+    bool first = true;
+    for( std::list<Layer*>::iterator it = clouds.begin(); it != clouds.end(); it++ ){
+	Pointcloud* cloud = dynamic_cast<envire::Pointcloud*>(*it);
+	if( cloud->vertices.empty() )
+	    continue;
+
+	const bool normal = hasVectors( cloud, Pointcloud::VERTEX_NORMAL );
+	const bool color = hasVectors( cloud, Pointcloud::VERTEX_COLOR );
+	if( !first && ( normal != hasNormal || color != hasColor ) )
+	    throw std::runtime_error("merge currently needs to have the same metadata on all inputs");
+
+	hasNormal = normal;
+	hasColor = color;
+	first = false;
+    }
+
+    if( m_clearOutput )
+	targetcloud->clear();
+
     //for every cloud
     for( std::list<Layer*>::iterator it = inputs.begin(); it != inputs.end(); it++ ){
 	Pointcloud* cloud = dynamic_cast<envire::Pointcloud*>(*it);
@@ -83,9 +110,6 @@ bool MergePointcloud::updateAll(){
 
 	if( hasNormal )
 	{
-	    if( !cloud->hasData( Pointcloud::VERTEX_NORMAL ) )
-		throw std::runtime_error("merge currently needs to have the same metadata on all inputs");
-
 	    Eigen::Quaterniond rot(trans.linear());
 
 	    std::vector<Eigen::Vector3d> &source_data( cloud->getVertexData<Eigen::Vector3d>( Pointcloud::VERTEX_NORMAL ) );
@@ -100,9 +124,6 @@ bool MergePointcloud::updateAll(){
 
 	if( hasColor )
 	{
-	    if( !cloud->hasData( Pointcloud::VERTEX_COLOR ) )
-		throw std::runtime_error("merge currently needs to have the same metadata on all inputs");
-
 	    std::vector<Eigen::Vector3d> &source_data( cloud->getVertexData<Eigen::Vector3d>( Pointcloud::VERTEX_COLOR ) );
 	    std::vector<Eigen::Vector3d> &target_data( targetcloud->getVertexData<Eigen::Vector3d>( Pointcloud::VERTEX_COLOR ) );
 
-- 
2.43.0


From fc50117f8df8b500757a4af9248bcd8cdebaf8ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:20 +0000
Subject: [PATCH 116/155] fix: MLSProjection of colored pointclouds into a grid
 with content

---
 src/operators/MLSProjection.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/operators/MLSProjection.cpp b/src/operators/MLSProjection.cpp
index 461598f..7cc54a8 100644
--- a/src/operators/MLSProjection.cpp
+++ b/src/operators/MLSProjection.cpp
@@ -78,6 +78,9 @@ void MLSProjection::projectPointcloudWithUncertainty( envire::MultiLevelSurfaceG
 	if( m_negativeInformation )
 	    throw std::runtime_error( "origin of pointcloud needs to be within grid." );
 
+    if( t_grid->getHasCellColor() )
+	grid->setHasCellColor( true );
+
     // go through all the cells that have been touched
     typedef MultiLevelSurfaceGrid::Position position;
     const std::set<position> &cells = t_grid->getIndex()->cells;
-- 
2.43.0


From ba7a5bbf357effd25d95c76064e9fbd5c3d6e390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:42 +0000
Subject: [PATCH 117/155] fix: MLSProjection takes no negative information for
 measurements

---
 src/operators/MLSProjection.cpp | 107 ++++++++++++++++++--------------
 1 file changed, 59 insertions(+), 48 deletions(-)

diff --git a/src/operators/MLSProjection.cpp b/src/operators/MLSProjection.cpp
index 7cc54a8..ebf24c1 100644
--- a/src/operators/MLSProjection.cpp
+++ b/src/operators/MLSProjection.cpp
@@ -85,6 +85,9 @@ void MLSProjection::projectPointcloudWithUncertainty( envire::MultiLevelSurfaceG
     typedef MultiLevelSurfaceGrid::Position position;
     const std::set<position> &cells = t_grid->getIndex()->cells;
 
+    // patches which come from the pointcloud
+    std::vector<std::pair<position, MLSGrid::SurfacePatch> > measured;
+
     for(std::set<position>::iterator it = cells.begin(); it != cells.end(); it++)
     {
 	const size_t xi = it->x;
@@ -122,54 +125,62 @@ void MLSProjection::projectPointcloudWithUncertainty( envire::MultiLevelSurfaceG
 		grid->updateCell( xi, yi, *cit );
 
 	    if( m_negativeInformation )
-	    {
-		// in order to handle negative information (e.g. knowledge that
-		// a cell is free), we use bresenhams line algorithm to find the cells
-		// from each known cells to the origin. For each of these cells, 
-		// we add absence information
-		
-		// this is the distance on the x/y plane from origin to 
-		// the current cell
-		const double plane_dist = (grid->fromGrid( origin ) - grid->fromGrid( *it )).norm();
-
-		// this is the height difference between the origin and the cell
-		const double plane_z = origin_m.z() - cit->mean;
-
-		// this is the maximum height of the negative cell,
-		// which joins the height of the cell, and how high it
-		// is perceived from the origin point of view
-		double height = 0; //cit->height;
-		if( plane_dist * plane_z != 0 )
-		    height += grid->getScaleX() / plane_dist * plane_z;
-
-		std::vector<GridBase::Position> line_cells;
-		lineBresenham( *it, origin, line_cells );
-
-		int xdiff = it->x - origin.x;
-		int ydiff = it->y - origin.y;
-		bool xdir = abs( xdiff ) >= abs( ydiff );
-
-		for( size_t li = 0; li < line_cells.size(); li++ )
-		{
-		    double factor = 1.0;
-		    if( xdir && xdiff )
-			factor = (int)(line_cells[li].x - origin.x) / (double)xdiff;
-		    else if( ydiff )
-			factor = (int)(line_cells[li].y - origin.y) / (double)ydiff;
-
-		    const double p_height = fabs((cit->height + height) * factor);
-		    const double z_mean = cit->mean + height * factor + plane_z * (1.0 - factor);
-		    const double z_stdev = cit->stdev * factor; 
-
-		    MLSGrid::SurfacePatch np( z_mean, z_stdev, p_height, MLSGrid::SurfacePatch::NEGATIVE );
-
-		    // for now don't put anything into the cell with the
-		    // positive information. This could be changed later
-		    // for partial information
-		    if( factor < 1.0 )
-			grid->updateCell( line_cells[li], np );
-		}
-	    }
+		measured.push_back( std::make_pair( *it, *cit ) );
+	}
+    }
+
+    // only add the negative information, when all the cells are done, since it
+    // goes into the same grid and must not be taken for measurements
+    for( size_t mi = 0; mi < measured.size(); mi++ )
+    {
+	const position *it = &measured[mi].first;
+	const MLSGrid::SurfacePatch *cit = &measured[mi].second;
+
+	// in order to handle negative information (e.g. knowledge that
+	// a cell is free), we use bresenhams line algorithm to find the cells
+	// from each known cells to the origin. For each of these cells, 
+	// we add absence information
+	
+	// this is the distance on the x/y plane from origin to 
+	// the current cell
+	const double plane_dist = (grid->fromGrid( origin ) - grid->fromGrid( *it )).norm();
+
+	// this is the height difference between the origin and the cell
+	const double plane_z = origin_m.z() - cit->mean;
+
+	// this is the maximum height of the negative cell,
+	// which joins the height of the cell, and how high it
+	// is perceived from the origin point of view
+	double height = 0; //cit->height;
+	if( plane_dist * plane_z != 0 )
+	    height += grid->getScaleX() / plane_dist * plane_z;
+
+	std::vector<GridBase::Position> line_cells;
+	lineBresenham( *it, origin, line_cells );
+
+	int xdiff = it->x - origin.x;
+	int ydiff = it->y - origin.y;
+	bool xdir = abs( xdiff ) >= abs( ydiff );
+
+	for( size_t li = 0; li < line_cells.size(); li++ )
+	{
+	    double factor = 1.0;
+	    if( xdir && xdiff )
+		factor = (int)(line_cells[li].x - origin.x) / (double)xdiff;
+	    else if( ydiff )
+		factor = (int)(line_cells[li].y - origin.y) / (double)ydiff;
+
+	    const double p_height = fabs((cit->height + height) * factor);
+	    const double z_mean = cit->mean + height * factor + plane_z * (1.0 - factor);
+	    const double z_stdev = cit->stdev * factor; 
+
+	    MLSGrid::SurfacePatch np( z_mean, z_stdev, p_height, MLSGrid::SurfacePatch::NEGATIVE );
+
+	    // for now don't put anything into the cell with the
+	    // positive information. This could be changed later
+	    // for partial information
+	    if( factor < 1.0 )
+		grid->updateCell( line_cells[li], np );
 	}
     }
 }
-- 
2.43.0


From 220e34879fe4793ab7f991a4c874f1ad51f3c62d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:12 +0000
Subject: [PATCH 118/155] fix: free space of MLSProjection, where the sensor is
 below the surface

---
 src/operators/MLSProjection.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/operators/MLSProjection.cpp b/src/operators/MLSProjection.cpp
index ebf24c1..e926e80 100644
--- a/src/operators/MLSProjection.cpp
+++ b/src/operators/MLSProjection.cpp
@@ -171,7 +171,9 @@ void MLSProjection::projectPointcloudWithUncertainty( envire::MultiLevelSurfaceG
 		factor = (int)(line_cells[li].y - origin.y) / (double)ydiff;
 
 	    const double p_height = fabs((cit->height + height) * factor);
-	    const double z_mean = cit->mean + height * factor + plane_z * (1.0 - factor);
+	    // the top of the patch, also if it extends downwards from the line of sight
+	    const double top = std::max<double>( height, -cit->height );
+	    const double z_mean = cit->mean + top * factor + plane_z * (1.0 - factor);
 	    const double z_stdev = cit->stdev * factor; 
 
 	    MLSGrid::SurfacePatch np( z_mean, z_stdev, p_height, MLSGrid::SurfacePatch::NEGATIVE );
-- 
2.43.0


From 1261f27211c4be3893329319d9b3593442d8c394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:41 +0000
Subject: [PATCH 119/155] fix: pairs that are added after trimming

---
 icp/icp.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/icp/icp.cpp b/icp/icp.cpp
index 2db00ad..f70fd36 100644
--- a/icp/icp.cpp
+++ b/icp/icp.cpp
@@ -12,7 +12,8 @@ using namespace Eigen;
 void Pairs::add( const Vector3d& a, const Vector3d& b, double dist )
 {
     pair pair;
-    pair.index = pairs.size();
+    // pairs may have been trimmed, and no longer be in the order of the points
+    pair.index = x.size();
     pair.distance = dist;
 
     x.push_back( a );
-- 
2.43.0


From d140843f8b93d3fade47533eb0562d7b3ecf8a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:41 +0000
Subject: [PATCH 120/155] fix: the matrix of which icp takes the rotation (Besl
 and McKay)

---
 icp/icp.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/icp/icp.cpp b/icp/icp.cpp
index f70fd36..cdfc6ed 100644
--- a/icp/icp.cpp
+++ b/icp/icp.cpp
@@ -75,11 +75,12 @@ Affine3d Pairs::getTransform()
 
     // form the symmetric 4x4 matrix Q
     Matrix3d A = sigma_px-sigma_px.transpose();
+    Matrix3d S = sigma_px+sigma_px.transpose();
     Vector3d delta = Vector3d( A(1,2), A(2,0), A(0,1) );
 
     Matrix4d q_px;
     q_px << sigma_px.trace(), delta.transpose(), 
-	 delta, A - Matrix3d::Identity() * sigma_px.trace();
+	 delta, S - Matrix3d::Identity() * sigma_px.trace();
 
     // do an eigenvalue decomposition of Q
     Quaterniond q_R;
-- 
2.43.0


From b0a8dfe9e74e45b9593c2d33b38fa2b723108969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:41 +0000
Subject: [PATCH 121/155] fix: the golden section search takes the new inner
 point from the one that stays

---
 icp/icp.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/icp/icp.hpp b/icp/icp.hpp
index 821614b..84b6c25 100644
--- a/icp/icp.hpp
+++ b/icp/icp.hpp
@@ -306,12 +306,12 @@ struct GoldenBracket
 	while (fabs(x3-x0) > eps*(fabs(x1)+fabs(x2))) 
 	{
 	    if (f2 < f1) {
-		SHIFT3(x0,x1,x2,R*x1+C*x3);
+		SHIFT3(x0,x1,x2,R*x2+C*x3);
 		SHIFT2(f1,f2,f(x2));
 	    } 
 	    else 
 	    {
-		SHIFT3(x3,x2,x1,R*x2+C*x0);
+		SHIFT3(x3,x2,x1,R*x1+C*x0);
 		SHIFT2(f2,f1,f(x1));
 	    }
 	}
-- 
2.43.0


From c0b425c6023ab793b2896fddf4b7d3844a272bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:57 +0000
Subject: [PATCH 122/155] fix: mean and variance of the yaw of a cluster

---
 icp/stability.cpp | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/icp/stability.cpp b/icp/stability.cpp
index b4bb292..7d7101f 100644
--- a/icp/stability.cpp
+++ b/icp/stability.cpp
@@ -12,6 +12,23 @@ using namespace std;
 using namespace Eigen; 
 using namespace envire::icp;
 
+namespace
+{
+    /** the angle about the z axis, within [-pi,pi]. Note, that the range of the
+     * first of Eigen's euler angles is [0,pi] only. */
+    double getYaw( const Eigen::Affine3d& t )
+    {
+	const Matrix3d r( t.rotation() );
+	return atan2( r(1,0), r(0,0) );
+    }
+
+    /** @return a - b as an angle within [-pi,pi] */
+    double yawDiff( double a, double b )
+    {
+	return atan2( sin( a - b ), cos( a - b ) );
+    }
+}
+
 
 bool Clustering::cluster(  std::vector<Eigen::Affine3d> points ) 
 {
@@ -44,7 +61,7 @@ void Clustering::calcVariance(  )
     for(unsigned int i = 0; i < points.size(); i++) 
     {
 	variance_postion = variance_postion + (mean.translation() - points.at(i).translation()).array().square().matrix(); 
-	variance_yaw = variance_yaw + pow(  Matrix3d( mean.rotation() ).eulerAngles(2,1,0)[0]  -  Matrix3d( points.at(0).rotation()).eulerAngles(2,1,0)[0], 2 );
+	variance_yaw = variance_yaw + pow( yawDiff( getYaw( mean ), getYaw( points.at(i) ) ), 2 );
     }
 
     variance_postion = variance_postion / points.size();
@@ -79,12 +96,13 @@ void Clustering::calcMean( )
     {
 	//std::cout << points.at(i).translation().transpose() << " - " <<  Matrix3d( points.at(i).rotation()).eulerAngles(2,1,0)[0] * 180 / M_PI<<  endl; 
 	position_mean = position_mean + points.at(i).translation(); 
-	yaw_mean = yaw_mean + Matrix3d( points.at(i).rotation()).eulerAngles(2,1,0)[0]; 
+	// relative to the first one, since angles may wrap around
+	yaw_mean = yaw_mean + yawDiff( getYaw( points.at(i) ), getYaw( points.at(0) ) ); 
 	
     }
     
     position_mean = position_mean /  points.size(); 
-    yaw_mean = yaw_mean /  points.size(); 
+    yaw_mean = getYaw( points.at(0) ) + yaw_mean /  points.size(); 
     //std::cout <<points.size() <<" mean " << position_mean.transpose() << " - " <<  yaw_mean * 180 / M_PI <<  endl; 
     mean = Eigen::AngleAxisd( yaw_mean, Eigen::Vector3d::UnitZ() ); 
     mean.translation() = position_mean;
@@ -138,7 +156,7 @@ bool Clustering::removeOutliers(  )
 	{
 	    for(unsigned int i = 0; i < points.size(); i++) 
 	    {
-		diference = fabs( Matrix3d( points.at(i).rotation() ).eulerAngles(2,1,0)[0] - Matrix3d( mean.rotation() ).eulerAngles(2,1,0)[0] ); 
+		diference = fabs( yawDiff( getYaw( points.at(i) ), getYaw( mean ) ) ); 
 		if( diference > max_diference )
 		{
 		    at_max_diff = i; 
-- 
2.43.0


From 90c6079e6a52cec411ebb804464ef6d3e93801c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:57 +0000
Subject: [PATCH 123/155] fix: the outlier is the point farthest from the mean
 of a cluster

---
 icp/stability.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/icp/stability.cpp b/icp/stability.cpp
index 7d7101f..da148b4 100644
--- a/icp/stability.cpp
+++ b/icp/stability.cpp
@@ -143,7 +143,7 @@ bool Clustering::removeOutliers(  )
 	{
 	    for(unsigned int i = 0; i < points.size(); i++) 
 	    {
-		diference = fabs( mean.translation().norm() - points.at(i).translation().norm() );
+		diference = ( mean.translation() - points.at(i).translation() ).norm();
 		if( diference > max_diference )
 		{
 		    at_max_diff = i; 
-- 
2.43.0


From 37b641e8d473f92f8a602fd38222566156fbd4f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:57 +0000
Subject: [PATCH 124/155] fix: limits for outliers in orientation

---
 icp/stability.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/icp/stability.cpp b/icp/stability.cpp
index da148b4..d17045c 100644
--- a/icp/stability.cpp
+++ b/icp/stability.cpp
@@ -115,7 +115,7 @@ void Clustering::defOutlinerRegion(Eigen::Matrix3d cov_position, Eigen::Matrix3d
     {
 	SigmaPoints sigma_points; 
 	Eigen::Matrix3d sigma_points_pos = sigma_points.calcSigmaPoints(cov_position, conf.outliers_position); 
-	Eigen::Matrix3d sigma_points_ori = sigma_points.calcSigmaPoints(cov_position, conf.outliers_orientation); 
+	Eigen::Matrix3d sigma_points_ori = sigma_points.calcSigmaPoints(cov_orientation, conf.outliers_orientation); 
 	
 	variance_limit_ori = sigma_points_ori * sigma_points_ori; 
 	variance_limit_pos = sigma_points_pos * sigma_points_pos; 
-- 
2.43.0


From d10b8ac3ace7e569b50f2959f2cd36bd6878012b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:57 +0000
Subject: [PATCH 125/155] fix: all bins of a histogram are divided by their
 width

---
 icp/stability.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/icp/stability.cpp b/icp/stability.cpp
index d17045c..baa7096 100644
--- a/icp/stability.cpp
+++ b/icp/stability.cpp
@@ -388,7 +388,7 @@ void Histogram::calculateNormalizedHistogram(std::vector<double> _pairs_distance
 	  {
 		
 		bin_area =fabs(histogram_limits[bin-1] - histogram_limits[bin]); 
-		histogram.push_back( number_of_points/ ( pairs_distance.size() * conf.area) ); 
+		histogram.push_back( number_of_points/ ( pairs_distance.size() * bin_area) ); 
 		
 		bin ++; 
 		//the +2 is for the outliers bins
-- 
2.43.0


From e7a6aee949bfe7b2bc9807c6a675970a10a9d391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:57 +0000
Subject: [PATCH 126/155] fix: sigma points of a covariance that has no
 variance in a direction

---
 icp/stability.hpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/icp/stability.hpp b/icp/stability.hpp
index 992bff0..2ada9aa 100644
--- a/icp/stability.hpp
+++ b/icp/stability.hpp
@@ -35,9 +35,18 @@ class SigmaPoints
 	*/
 	Eigen::Matrix3d calcSigmaPoints(Eigen::Matrix3d matrix, SigmaPointConfiguration conf)
 	{
-	    Eigen::LLT<Eigen::Matrix3d> llt;
-	    llt.compute(matrix);
-	    Eigen::Matrix3d sigma_points = llt.matrixL();
+	    // cholesky decomposition. Directions without variance are allowed, so
+	    // Eigen::LLT is of no use here.
+	    Eigen::Matrix3d sigma_points = Eigen::Matrix3d::Zero();
+	    for(int j = 0; j < 3; j++)
+	    {
+		const double var = matrix(j,j) - sigma_points.row(j).squaredNorm();
+		if( !(var > 1e-12 * matrix(j,j)) )
+		    continue;
+		sigma_points(j,j) = sqrt( var );
+		for(int i = j + 1; i < 3; i++)
+		    sigma_points(i,j) = (matrix(i,j) - sigma_points.row(i).dot( sigma_points.row(j) )) / sigma_points(j,j);
+	    }
 
 	    sigma_points = conf.n_sigma * sigma_points; 
 
-- 
2.43.0


From 25d90f7617b3ce6c76201617d2ba3ed16000b8fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:57 +0000
Subject: [PATCH 127/155] fix: the turn of the laser since each of the
 collected scans

---
 icp/icpLocalization.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/icp/icpLocalization.cpp b/icp/icpLocalization.cpp
index 4798f76..8e3eb35 100644
--- a/icp/icpLocalization.cpp
+++ b/icp/icpLocalization.cpp
@@ -66,7 +66,7 @@ void ICPLocalization::addScanLineToPointCloud(Eigen::Affine3d body2Odo, Eigen::A
 
 	Vector3d Ylaser2Body = laser2Body * Vector3d::UnitY() - laser2Body.translation();
 	Ylaser2Body.normalize();
-	Vector3d YlastLaser2Body = scansWithTransforms.back().laser2Body * Vector3d::UnitY() - scansWithTransforms.at(i).laser2Body.translation();
+	Vector3d YlastLaser2Body = scansWithTransforms.at(i).laser2Body * Vector3d::UnitY() - scansWithTransforms.at(i).laser2Body.translation();
 	YlastLaser2Body.normalize();
 	
 	double laserChange = acos(Ylaser2Body.dot(YlastLaser2Body));
-- 
2.43.0


From 96dd8dbed2970a7ac0d919ea7d0eab09713f52de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:06 +0000
Subject: [PATCH 128/155] fix: grid access looks into all grids, whatever was
 found before

---
 src/tools/GridAccess.cpp | 10 ----------
 1 file changed, 10 deletions(-)

diff --git a/src/tools/GridAccess.cpp b/src/tools/GridAccess.cpp
index 6165fb9..48d27b0 100644
--- a/src/tools/GridAccess.cpp
+++ b/src/tools/GridAccess.cpp
@@ -42,11 +42,6 @@ struct GridAccess::GridAccessImpl
 	{
 	    if( evalGridPoint( position ) )
 		return true;
-
-	    // this is a shortcut, which will only allow one
-	    // grid to ever be evaluated. 
-	    // TODO: remove this 
-	    return false;
 	}
 
 	if( grids.size() == 0 )
@@ -212,11 +207,6 @@ struct MLSAccess::MLSAccessImpl
 	    zpos = v.z();
 	    if( grid->get( (const Eigen::Vector2d&)v.head<2>(), zpos, zstdev ) )
 		return true;
-
-	    // this is a shortcut, which will only allow one
-	    // grid to ever be evaluated. 
-	    // TODO: remove this 
-	    return false;
 	}
 
 	if( grids.size() == 0 )
-- 
2.43.0


From 60f01dec27e33d07603a7bdce3f935d870c30b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:06 +0000
Subject: [PATCH 129/155] fix: the elevation of an mls grid is given in the
 frame of the position

---
 src/tools/GridAccess.cpp | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/tools/GridAccess.cpp b/src/tools/GridAccess.cpp
index 48d27b0..1562c18 100644
--- a/src/tools/GridAccess.cpp
+++ b/src/tools/GridAccess.cpp
@@ -197,15 +197,26 @@ struct MLSAccess::MLSAccessImpl
 
     Transform t;
 
+    bool evalGridPoint(const Eigen::Vector3d& position, double& zpos, double& zstdev  )
+    {
+	Eigen::Vector3d v = t * position;
+	double z = v.z();
+	if( !grid->get( (const Eigen::Vector2d&)v.head<2>(), z, zstdev ) )
+	    return false;
+
+	// the position is given in the root frame, and so is the result
+	v.z() = z;
+	zpos = (t.inverse(Eigen::Isometry) * v).z();
+	return true;
+    }
+
     bool getElevation(Eigen::Vector3d position, double& zpos, double& zstdev  )
     {
 	// to make this fast, we store the last grid and transform
 	// and see try that one first on the next call
 	if( grid )
 	{
-	    Eigen::Vector3d v = t * position;
-	    zpos = v.z();
-	    if( grid->get( (const Eigen::Vector2d&)v.head<2>(), zpos, zstdev ) )
+	    if( evalGridPoint( position, zpos, zstdev ) )
 		return true;
 	}
 
@@ -223,9 +234,7 @@ struct MLSAccess::MLSAccessImpl
 	    grid = lgrid;
 	    t = lt;
 
-	    Eigen::Vector3d v = t * position;
-	    zpos = v.z();
-	    if( grid->get( (const Eigen::Vector2d&)(v).head<2>(), zpos, zstdev ) )
+	    if( evalGridPoint( position, zpos, zstdev ) )
 		return true;
 	}
 
-- 
2.43.0


From 0e3691df602c1ab0eaffa7a2af661d83643da0a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:06 +0000
Subject: [PATCH 130/155] fix: items are told apart in graphviz files, whatever
 their ids and labels

---
 src/tools/GraphViz.cpp | 43 ++++++++++++++++++++++++++----------------
 1 file changed, 27 insertions(+), 16 deletions(-)

diff --git a/src/tools/GraphViz.cpp b/src/tools/GraphViz.cpp
index 58a46a9..300d7f9 100644
--- a/src/tools/GraphViz.cpp
+++ b/src/tools/GraphViz.cpp
@@ -6,13 +6,24 @@
 
 using namespace envire;
 
-std::string dot_id(envire::EnvironmentItem* item)
+// the text as part of a quoted string of a dot file
+std::string escaped(const std::string& s)
 {
-    std::string result = item->getUniqueId();
-    std::replace(result.begin(), result.end(), '/', '_');
+    std::string result;
+    for( size_t i = 0; i < s.size(); i++ )
+    {
+	if( s[i] == '"' || s[i] == '\\' )
+	    result += '\\';
+	result += s[i];
+    }
     return result;
 }
 
+std::string dot_id(envire::EnvironmentItem* item)
+{
+    return "\"" + escaped("g" + item->getUniqueId()) + "\"";
+}
+
 void GraphViz::writeToFile( Environment* env, const std::string& outputfile )
 {
     std::ofstream os(outputfile.c_str());
@@ -28,10 +39,10 @@ void GraphViz::writeToFile( Environment* env, const std::string& outputfile )
 	if( classname.find("::") != std::string::npos )
 	    classname = classname.substr( classname.rfind("::") + 2 );
 
-	os << "g" << dot_id(item) << " ";
-	std::string name = (boost::format("%s [%i]") % classname % item->getUniqueId()).str();
+	os << dot_id(item) << " ";
+	std::string name = (boost::format("%s [%s]") % classname % escaped(item->getUniqueId())).str();
 	if( !item->getLabel().empty() )
-	    name = item->getLabel() + "\\n" + name;
+	    name = escaped(item->getLabel()) + "\\n" + name;
 
 	if( dynamic_cast<FrameNode*>(item) )
 	{
@@ -63,8 +74,8 @@ void GraphViz::writeToFile( Environment* env, const std::string& outputfile )
     foreach( const Environment::frameNodeTreeType::value_type& pair, env->frameNodeTree )
     {
 	os 
-	    << "g" << dot_id(pair.first)
-	    << " -> g" << dot_id(pair.second)
+	    << dot_id(pair.first)
+	    << " -> " << dot_id(pair.second)
 	    << std::endl;
     }
 
@@ -72,8 +83,8 @@ void GraphViz::writeToFile( Environment* env, const std::string& outputfile )
     foreach( const Environment::layerTreeType::value_type& pair, env->layerTree )
     {
 	os 
-	    << "g" << dot_id(pair.second)
-	    << " -> g" << dot_id(pair.first)
+	    << dot_id(pair.second)
+	    << " -> " << dot_id(pair.first)
 	    << " [style=dotted]"
 	    << std::endl;
     }
@@ -82,8 +93,8 @@ void GraphViz::writeToFile( Environment* env, const std::string& outputfile )
     foreach( const Environment::operatorGraphType::value_type& pair, env->operatorGraphInput )
     {
 	os 
-	    << "g" << dot_id(pair.second)
-	    << " -> g" << dot_id(pair.first)
+	    << dot_id(pair.second)
+	    << " -> " << dot_id(pair.first)
 	    << std::endl;
     }
 
@@ -91,8 +102,8 @@ void GraphViz::writeToFile( Environment* env, const std::string& outputfile )
     foreach( const Environment::operatorGraphType::value_type& pair, env->operatorGraphOutput )
     {
 	os 
-	    << "g" << dot_id(pair.first)
-	    << " -> g" << dot_id(pair.second)
+	    << dot_id(pair.first)
+	    << " -> " << dot_id(pair.second)
 	    << std::endl;
     }
 
@@ -100,8 +111,8 @@ void GraphViz::writeToFile( Environment* env, const std::string& outputfile )
     foreach( const Environment::cartesianMapGraphType::value_type& pair, env->cartesianMapGraph )
     {
 	os 
-	    << "g" << dot_id(pair.second)
-	    << " -> g" << dot_id(pair.first)
+	    << dot_id(pair.second)
+	    << " -> " << dot_id(pair.first)
 	    << " [shape=dot]"
 	    << std::endl;
     }
-- 
2.43.0


From a72b332eae0eb2dd63d825319525b9db0a6b4ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:24 +0000
Subject: [PATCH 131/155] fix: the options -frame and -map of env_add_grid

---
 tools/env_add_grid.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/env_add_grid.cpp b/tools/env_add_grid.cpp
index cb2ed3c..0898a70 100644
--- a/tools/env_add_grid.cpp
+++ b/tools/env_add_grid.cpp
@@ -26,7 +26,7 @@ void usage(int exit_code = 0)
 
 int main(int argc, char* argv[])
 {
-    if (argc < 4 || argc > 6 )
+    if (argc < 4 || argc > 7 )
         usage(1);
 
     std::string env_path(argv[1]);
@@ -43,7 +43,7 @@ int main(int argc, char* argv[])
     if (argc > 4)
     {
         std::string mode = argv[4];
-        int next_idx = 5;
+        int next_idx = 4;
         if (mode != "-frame" && mode != "-map")
         {
             // assume this is a map type
-- 
2.43.0


From 44aaf69ae1b079c761682e7b8d3ae37d489711c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:24 +0000
Subject: [PATCH 132/155] fix: env_create_grid takes offsets and frame
 independently of each other, as its usage says

---
 tools/env_create_grid.cpp | 41 +++++++++++++++++++++------------------
 1 file changed, 22 insertions(+), 19 deletions(-)

diff --git a/tools/env_create_grid.cpp b/tools/env_create_grid.cpp
index 03ecbc0..14dd33c 100644
--- a/tools/env_create_grid.cpp
+++ b/tools/env_create_grid.cpp
@@ -83,31 +83,28 @@ int main(int argc, char* argv[])
                 usage(1);
             }
 
-            if ( strcmp( argv[argi], "-frame") )
+            if ( strcmp( argv[argi], "-frame") && strcmp( argv[argi], "-bands") )
             {
                 offset_x = boost::lexical_cast<double>(argv[argi++]);
                 offset_y = boost::lexical_cast<double>(argv[argi++]);
             }
 
-            if ( strcmp( argv[argi], "-frame") ) 
-	    {
-		std::cerr << "expected -frame argument" << std::endl;
-		usage(1);
-	    }
-	    argi++;
-
-            if (argc < 11)
+            if( argi < argc && !strcmp( argv[argi], "-frame" ) )
             {
-                std::cerr << "too little arguments provided" << std::endl;
-                usage(1);
-            }
-
-            std::string frame_id(argv[argi++]);
-            base_frame = env->getItem<FrameNode>(frame_id).get();
-            if (!base_frame)
-            {
-                std::cerr << "specified frame ID " << frame_id << " does not exist" << std::endl;
-                exit(1);
+                argi++;
+                if (argi >= argc)
+                {
+                    std::cerr << "too little arguments provided" << std::endl;
+                    usage(1);
+                }
+
+                std::string frame_id(argv[argi++]);
+                base_frame = env->getItem<FrameNode>(frame_id).get();
+                if (!base_frame)
+                {
+                    std::cerr << "specified frame ID " << frame_id << " does not exist" << std::endl;
+                    exit(1);
+                }
             }
 
 	    if( argi < argc && !strcmp( argv[argi], "-bands" ) )
@@ -116,6 +113,12 @@ int main(int argc, char* argv[])
 		while( argi < argc )
 		    bands.push_back( argv[argi++] );
 	    }
+
+            if( argi < argc )
+            {
+                std::cerr << "unexpected argument " << argv[argi] << std::endl;
+                usage(1);
+            }
         }
     }
 
-- 
2.43.0


From 107de62bfba6c429a6ca6a6a055d2858e2811d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:24 +0000
Subject: [PATCH 133/155] fix: env_grid_add_noise without slope, normal or
 sphere used uninitialised values

---
 tools/env_grid_add_noise.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/env_grid_add_noise.cpp b/tools/env_grid_add_noise.cpp
index 94e407a..5ca81e2 100644
--- a/tools/env_grid_add_noise.cpp
+++ b/tools/env_grid_add_noise.cpp
@@ -56,7 +56,7 @@ int main(int argc, char* argv[])
 {
     string input_env, output_env;
     position center, win;
-    float scale, angle, sigma, radius;
+    float scale, angle = 0, sigma = 1, radius = 0;
 
     po::options_description desc("Allowed options");
     desc.add_options()
-- 
2.43.0


From 261d192e35ac6e7c3ac6aa3175f318caefd2864a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:24 +0000
Subject: [PATCH 134/155] fix: env_mls_slopes made a grid its operator can not
 write to, and not where the MLS is

---
 tools/env_mls_slopes.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tools/env_mls_slopes.cpp b/tools/env_mls_slopes.cpp
index 45e0399..7ef3bf3 100644
--- a/tools/env_mls_slopes.cpp
+++ b/tools/env_mls_slopes.cpp
@@ -40,9 +40,10 @@ int main( int argc, char* argv[] )
         mls = env->getItem<MLSGrid>();
     }
 
-    boost::intrusive_ptr< envire::Grid<double> > grid = new envire::Grid<double>(
+    boost::intrusive_ptr< envire::Grid<float> > grid = new envire::Grid<float>(
             mls->getWidth(), mls->getHeight(),
-            mls->getScaleX(), mls->getScaleY());
+            mls->getScaleX(), mls->getScaleY(),
+            mls->getOffsetX(), mls->getOffsetY());
     env->attachItem(grid.get());
     grid->setFrameNode(mls->getFrameNode());
 
-- 
2.43.0


From 50fe27a2c567cd3706ce61ba175dfb0ba5fc14bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:24 +0000
Subject: [PATCH 135/155] fix: env_mls_trajectory wrote a line for a position
 behind the end of the file

---
 tools/env_mls_trajectory.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/tools/env_mls_trajectory.cpp b/tools/env_mls_trajectory.cpp
index 01d77f2..556be8a 100644
--- a/tools/env_mls_trajectory.cpp
+++ b/tools/env_mls_trajectory.cpp
@@ -27,10 +27,9 @@ int main( int argc, char* argv[] )
     // get trajectory
     std::ifstream file( argv[2] );
     
-    while( !file.eof() )
+    double x,y,z;
+    while( file >> x >> y >> z )
     {
-	double x,y,z;
-	file >> x >> y >> z; 
 	Eigen::Vector3d p( x, y, z );
 
 	for( std::vector<MLSGrid*>::iterator it=items.begin(); it != items.end(); it++ )
-- 
2.43.0


From 1d0bc7bc80e7d3ad15f727345b033423577541e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:24 +0000
Subject: [PATCH 136/155] fix: the grid of env_mls holds all points, and empty
 point clouds have no extents

---
 tools/env_mls.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/env_mls.cpp b/tools/env_mls.cpp
index 1b65dc7..aa1d58b 100644
--- a/tools/env_mls.cpp
+++ b/tools/env_mls.cpp
@@ -75,7 +75,7 @@ int main( int argc, char* argv[] )
 	}
 	proj->addInput( pc );
 
-	if( str_extends.empty() )
+	if( str_extends.empty() && !pc->vertices.empty() )
 	{
 	    // when no extents are given, extract them from the pointcloud
 
@@ -110,7 +110,7 @@ int main( int argc, char* argv[] )
 
     // create the grid at the right size
     envire::Pointcloud::Extents::VectorType dim = extents.max() - extents.min();
-    envire::MultiLevelSurfaceGrid *grid = new envire::MultiLevelSurfaceGrid(dim.x()/res, dim.y()/res, res, res);
+    envire::MultiLevelSurfaceGrid *grid = new envire::MultiLevelSurfaceGrid(size_t(dim.x()/res)+1, size_t(dim.y()/res)+1, res, res);
     env->attachItem( grid );
     grid->setFrameNode( fm1 );
     grid->setGapSize( gapSize );
-- 
2.43.0


From 624ff4e364d903ab8cdd4474fcbda2624c980f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:24 +0000
Subject: [PATCH 137/155] fix: optional arguments of env_traversability, and
 the place of its output

---
 tools/env_traversability.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/tools/env_traversability.cpp b/tools/env_traversability.cpp
index d560578..05fbaf4 100644
--- a/tools/env_traversability.cpp
+++ b/tools/env_traversability.cpp
@@ -10,7 +10,7 @@ using namespace std;
      
 int main( int argc, char* argv[] )
 {
-    if( argc < 2 || argc > 8)
+    if( argc < 3 || argc > 6)
     {
 	std::cout << "usage: env_traversability input maximum_slope [class_count [min_width [ground_clearance]]]" << std::endl;
         std::cout << "  generates a classified map of traversabilities based on the given map (a single map must contain all the necessary bands)" << std::endl;
@@ -34,21 +34,22 @@ int main( int argc, char* argv[] )
 
     boost::intrusive_ptr< SimpleTraversability::OutputLayer > output = new SimpleTraversability::OutputLayer(
             input->getWidth(), input->getHeight(),
-            input->getScaleX(), input->getScaleY());
+            input->getScaleX(), input->getScaleY(),
+            input->getOffsetX(), input->getOffsetY());
     env->attachItem(output.get());
     output->setFrameNode(input->getFrameNode());
 
     double maximum_slope = boost::lexical_cast<double>(argv[2]);
     int class_count = 10;
-    if (argc > 2)
+    if (argc > 3)
         class_count = boost::lexical_cast<int>(argv[3]);
 
     double min_width = 0.5;
-    if (argc > 3)
+    if (argc > 4)
         min_width = boost::lexical_cast<double>(argv[4]);
 
     double ground_clearance = 0;
-    if (argc > 4)
+    if (argc > 5)
         ground_clearance = boost::lexical_cast<double>(argv[5]);
 
     // Create the convertion operator and run it
-- 
2.43.0


From 5dabe185169cdc28e9e9f4a6d4b9c78f8ef41836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:57 +0000
Subject: [PATCH 138/155] fix: a degenerate component or an unexplained sample
 made an EM step remove all components

---
 src/tools/ExpectationMaximization.hpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/tools/ExpectationMaximization.hpp b/src/tools/ExpectationMaximization.hpp
index 5382797..d05764c 100644
--- a/src/tools/ExpectationMaximization.hpp
+++ b/src/tools/ExpectationMaximization.hpp
@@ -10,6 +10,7 @@
 #include <boost/random/uniform_real.hpp>
 #include <boost/random/variate_generator.hpp>
 
+#include <limits>
 #include <numeric>
 #include <kdtree++/kdtree.hpp>
 
@@ -235,6 +236,7 @@ public:
 
 	// evaluate the current gmm
 	Scalar loglhood = 0;
+	bool unexplained = false;
 	for( size_t i = 0; i < n; i++ )
 	{
 	    Scalar sum = 0;
@@ -242,11 +244,21 @@ public:
 	    {
 		typename GMM::Parameter &param( gmm.params[j] );
 		Scalar val = param.weight * param.dist.eval( samples[i] );
+		// a degenerate component has no density, and explains no sample
+		if( !(val <= std::numeric_limits<Scalar>::max()) )
+		    val = 0;
 		gamma(i,j) = val;
 		sum += val;
 	    }
 	    loglhood += log( sum );
-	    gamma.row(i) *= (weighted ? weights[i] : 1.0) / sum;
+	    // samples no component explains have no responsibilities
+	    if( sum > 0 )
+	    {
+		gamma.row(i) /= sum;
+		gamma.row(i) *= weighted ? weights[i] : 1.0;
+	    }
+	    else
+		unexplained = true;
 	}
 	loglhood /= n;
 
@@ -281,6 +293,9 @@ public:
 	{
 	    gmm.params.erase( gmm.params.begin() + *it );
 	}
+	// the weights of what is left sum up to one
+	if( unexplained || !remove.empty() )
+	    gmm.normalize();
 
 	return loglhood;
     }
-- 
2.43.0


From 82b5387eab6bec119776b89f9d4717a39beef698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:57 +0000
Subject: [PATCH 139/155] fix: the log likelihood of weighted samples ignored
 their weights

---
 src/tools/ExpectationMaximization.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools/ExpectationMaximization.hpp b/src/tools/ExpectationMaximization.hpp
index d05764c..adeafd3 100644
--- a/src/tools/ExpectationMaximization.hpp
+++ b/src/tools/ExpectationMaximization.hpp
@@ -250,7 +250,7 @@ public:
 		gamma(i,j) = val;
 		sum += val;
 	    }
-	    loglhood += log( sum );
+	    loglhood += (weighted ? weights[i] : 1.0) * log( sum );
 	    // samples no component explains have no responsibilities
 	    if( sum > 0 )
 	    {
@@ -260,12 +260,12 @@ public:
 	    else
 		unexplained = true;
 	}
-	loglhood /= n;
 
 	const Scalar remove_threshold = 1e-4;
 	std::vector<size_t> remove;
 	// update the parameters of the gaussians
 	Scalar sum_weights = weighted ? std::accumulate( weights.begin(), weights.end(), 0.0 ) : n;
+	loglhood /= sum_weights;
 	for( size_t j = 0; j < k; j++ )
 	{
 	    Scalar n_j = gamma.col(j).sum();
-- 
2.43.0


From b038fb7dce1cf59698911b1afe02415436e9c510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:57 +0000
Subject: [PATCH 140/155] fix: EM removed all components if the weights of the
 samples were small

---
 src/tools/ExpectationMaximization.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/ExpectationMaximization.hpp b/src/tools/ExpectationMaximization.hpp
index adeafd3..26475bd 100644
--- a/src/tools/ExpectationMaximization.hpp
+++ b/src/tools/ExpectationMaximization.hpp
@@ -271,7 +271,7 @@ public:
 	    Scalar n_j = gamma.col(j).sum();
 	    typename GMM::Parameter &param( gmm.params[j] );
 	    param.weight = n_j / sum_weights;
-	    if( n_j < remove_threshold || n_j != n_j )
+	    if( n_j * n < remove_threshold * sum_weights || n_j != n_j )
 		remove.push_back( j );
 
 	    Vector mean = Vector::Zero();
-- 
2.43.0


From c2ff251c3575debb0c11564885036c3408413b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:51 +0000
Subject: [PATCH 141/155] fix: default constructed transforms and points with
 uncertainty were not initialised

---
 src/core/Transform.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/core/Transform.cpp b/src/core/Transform.cpp
index 691d3d7..7b53653 100644
--- a/src/core/Transform.cpp
+++ b/src/core/Transform.cpp
@@ -5,13 +5,15 @@
 
 using namespace envire;
 
-PointWithUncertainty::PointWithUncertainty() {}
+PointWithUncertainty::PointWithUncertainty()
+    : point( Point::Zero() ), cov( Covariance::Zero() ), uncertain(false) {}
 PointWithUncertainty::PointWithUncertainty( const Point& point ) 
-    : point( point ), uncertain(false) {}
+    : point( point ), cov( Covariance::Zero() ), uncertain(false) {}
 PointWithUncertainty::PointWithUncertainty( const Point& point, const Covariance& cov ) 
     : point( point ), cov( cov ), uncertain(true) {}
 
-TransformWithUncertainty::TransformWithUncertainty() {}
+TransformWithUncertainty::TransformWithUncertainty()
+    : trans( Transform::Identity() ), cov( Covariance::Zero() ), uncertain(false) {}
 TransformWithUncertainty::TransformWithUncertainty( const Transform& trans )
     : trans( trans ), cov( Covariance::Zero() ), uncertain(false) {}
 TransformWithUncertainty::TransformWithUncertainty( const base::samples::RigidBodyState& rbs )
-- 
2.43.0


From b30bccda5b59e36c9999ea6a2479434c4d05aa3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:51 +0000
Subject: [PATCH 142/155] fix: a point without uncertainty got one from a
 transform without uncertainty

---
 src/core/Transform.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core/Transform.cpp b/src/core/Transform.cpp
index 7b53653..3c4caad 100644
--- a/src/core/Transform.cpp
+++ b/src/core/Transform.cpp
@@ -257,6 +257,10 @@ TransformWithUncertainty TransformWithUncertainty::operator*( const TransformWit
 
 PointWithUncertainty TransformWithUncertainty::operator*( const PointWithUncertainty& point ) const
 {
+    // short path if there is no uncertainty 
+    if( !hasUncertainty() && !point.hasUncertainty() )
+	return PointWithUncertainty( getTransform() * point.getPoint() );
+
     Eigen::Matrix3d R( getTransform().linear() );
     Eigen::Quaterniond q( R );
     Eigen::Matrix<double,3,6> J;
-- 
2.43.0


From 3451f2234c339ef09f1aa5ed9b18de7949ad3dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:10 +0000
Subject: [PATCH 143/155] fix: missing nodes and matrices of another size
 crashed the reading of serialised items

---
 src/core/Serialization.cpp | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/core/Serialization.cpp b/src/core/Serialization.cpp
index 821ef6d..44f9309 100644
--- a/src/core/Serialization.cpp
+++ b/src/core/Serialization.cpp
@@ -120,7 +120,8 @@ int YAMLSerializationImpl::findNodeInMap( int map_index, const std::string &key
 {
     yaml_node_t *map = getNode( map_index );
 
-    assert( map->type == YAML_MAPPING_NODE );
+    if( !map || map->type != YAML_MAPPING_NODE )
+	throw std::runtime_error("not a mapping node");
 
     int node = 0;
 
@@ -241,9 +242,12 @@ bool Serialization::read(const std::string& key, Transform &value)
     int node_index = yamlSerialization->findNodeInMap( key );
     yaml_node_t* node = yamlSerialization->getNode( node_index );
     
-    if( node->type != YAML_SEQUENCE_NODE )
+    if( !node || node->type != YAML_SEQUENCE_NODE )
         throw std::runtime_error("can't read TransformType");
 
+    if( node->data.sequence.items.top - node->data.sequence.items.start != value.matrix().rows() * value.matrix().cols() )
+       throw std::runtime_error("matrix dimension incompatible");
+
     int i=0;
     for(yaml_node_item_t* item=node->data.sequence.items.start;
             item < node->data.sequence.items.top; item++)
@@ -254,9 +258,6 @@ bool Serialization::read(const std::string& key, Transform &value)
             boost::lexical_cast<Transform::Scalar>( t );
         i++;
     }
-   
-    if( i != value.matrix().rows() * value.matrix().cols() )
-       throw std::runtime_error("matrix dimension incompatible");       
 
     return true;
 }
@@ -266,9 +267,12 @@ bool Serialization::read(const std::string& key, TransformWithUncertainty::Covar
     int node_index = yamlSerialization->findNodeInMap( key );
     yaml_node_t* node = yamlSerialization->getNode( node_index );
     
-    if( node->type != YAML_SEQUENCE_NODE )
+    if( !node || node->type != YAML_SEQUENCE_NODE )
         throw std::runtime_error("can't read TransformType");
 
+    if( node->data.sequence.items.top - node->data.sequence.items.start != value.rows() * value.cols() )
+       throw std::runtime_error("matrix dimension incompatible");
+
     int i=0;
     for(yaml_node_item_t* item=node->data.sequence.items.start;
             item < node->data.sequence.items.top; item++)
@@ -279,9 +283,6 @@ bool Serialization::read(const std::string& key, TransformWithUncertainty::Covar
             boost::lexical_cast<Transform::Scalar>( t );
         i++;
     }
-   
-    if( i != value.rows() * value.cols() )
-       throw std::runtime_error("matrix dimension incompatible");       
 
     return true;
 }
-- 
2.43.0


From 7d39995612f98054bddaa0ff3350a20a2abdcece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:10 +0000
Subject: [PATCH 144/155] fix: an item that could not be unserialised was
 leaked

---
 src/core/Serialization.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/core/Serialization.hpp b/src/core/Serialization.hpp
index d1f056c..1983c08 100644
--- a/src/core/Serialization.hpp
+++ b/src/core/Serialization.hpp
@@ -20,7 +20,15 @@ namespace envire
     template<class T> EnvironmentItem* createItem(Serialization &so) 
     {
         T* o = new T();
-        o->unserialize(so);
+        try
+        {
+            o->unserialize(so);
+        }
+        catch(...)
+        {
+            delete o;
+            throw;
+        }
         return o;
     }
     
-- 
2.43.0


From 75cb50a320c97b7171a3fcc76100115954399576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:10 +0000
Subject: [PATCH 145/155] fix: a scene that cannot be read left memory, files
 and an environment behind, or an environment without root

---
 src/core/Serialization.cpp | 75 ++++++++++++++++++++++----------------
 1 file changed, 44 insertions(+), 31 deletions(-)

diff --git a/src/core/Serialization.cpp b/src/core/Serialization.cpp
index 44f9309..d1f4da0 100644
--- a/src/core/Serialization.cpp
+++ b/src/core/Serialization.cpp
@@ -494,11 +494,12 @@ static MapType* getMap(YAMLSerializationImpl* yaml, Environment* env, const char
 
 Environment* FileSerialization::readFromFile( const std::string& path )
 {
-    Environment* env;
-    
     int64_t lastID = 0;
 
     FILE *input = fopen(path.c_str(), "rb");
+    if( !input )
+	throw std::runtime_error("envire: could not open " + path + " for reading");
+
     yaml_parser_initialize(&yamlSerialization->parser);
     yaml_parser_set_input_file(&yamlSerialization->parser, input);
 
@@ -508,26 +509,54 @@ Environment* FileSerialization::readFromFile( const std::string& path )
 
     if(!yaml_parser_load(&yamlSerialization->parser, &yamlSerialization->document))
     {
+	std::cerr << path << ":" 
+	    << yamlSerialization->parser.problem_mark.line << ":"
+	    << (yamlSerialization->parser.problem ? yamlSerialization->parser.problem : "out of memory");
+
 	// doubled the cleanup code... not nice.
 	yaml_parser_delete(&yamlSerialization->parser);
 	fclose(input);
-
-	std::cerr << path << ":" 
-	    << yamlSerialization->parser.problem_mark.line << ":"
-	    << yamlSerialization->parser.problem;
 	throw std::runtime_error("error parsing yaml stream.");
     }
 
+    // takes care of everything that was opened, also if the reading fails
+    struct Cleanup
+    {
+	YAMLSerializationImpl &yaml;
+	FILE *input;
+	std::vector<std::ifstream*> &streams;
+	Environment *env;
+
+	Cleanup( YAMLSerializationImpl &yaml, FILE *input, std::vector<std::ifstream*> &streams )
+	    : yaml( yaml ), input( input ), streams( streams ), env( NULL ) {}
+
+	~Cleanup()
+	{
+	    yaml_document_delete( &yaml.document );
+	    yaml_parser_delete( &yaml.parser );
+	    fclose( input );
+
+	    for(std::vector<std::ifstream*>::iterator it = streams.begin(); it != streams.end(); it++)
+		delete *it;
+	    streams.clear();
+
+	    delete env;
+	}
+    } cleanup( *yamlSerialization, input, ifstreams );
+
+    Environment* env = NULL;
+
     // do the extraction now
     yaml_node_t* root = yaml_document_get_root_node(&yamlSerialization->document);
 
     if( root && root->type == YAML_MAPPING_NODE )
     {
 	// create a new environment
-	env = new Environment();
+	cleanup.env = env = new Environment();
 	// and remove the root node
 	EnvironmentItem* rootNode = env->getRootNode();
 	env->detachItem( rootNode );
+	env->rootNode = NULL;
 
 	// browse root mapping for object or links	
 	for(yaml_node_pair_t* pair=root->data.mapping.pairs.start;
@@ -552,14 +581,13 @@ Environment* FileSerialization::readFromFile( const std::string& path )
 			yamlSerialization->current_node = *item;
 
 			// create item and attach to environment
-			EnvironmentItem* envItem = 
-			    SerializationFactory::createObject(className, *this);
+			EnvironmentItem::Ptr envItem( 
+			    SerializationFactory::createObject(className, *this) );
 
-			env->attachItem( envItem );
+			env->attachItem( envItem.get() );
 			//hack to preserve root node
 			if(envItem->getUniqueId() == "0" || envItem->getUniqueId() == "/0") {
-			    env->rootNode = dynamic_cast<FrameNode *>(envItem);
-			    assert(env->rootNode);
+			    env->rootNode = dynamic_cast<FrameNode *>(envItem.get());
 			}
 			
                         std::string currentID = envItem->getUniqueIdSuffix();
@@ -623,28 +651,13 @@ Environment* FileSerialization::readFromFile( const std::string& path )
 	throw std::runtime_error("empty document.");
     }
 
+    if( !env->rootNode )
+	throw std::runtime_error("the scene has no root node.");
+
     lastID++;
     env->last_id = lastID;
 
-    // clean up
-    yaml_document_delete(&yamlSerialization->document);
-    yaml_parser_delete(&yamlSerialization->parser);
-    fclose(input);
-    
-    // close and delete ifstreams
-    if(ifstreams.size() > 0)
-    {
-        for(std::vector<std::ifstream*>::iterator it = ifstreams.begin(); it != ifstreams.end(); it++)
-        {
-            if((*it)->is_open())
-            {
-                (*it)->close();
-            }
-            delete *it;
-        }
-        ifstreams.clear();
-    }
-
+    cleanup.env = NULL;
     return env;
 }
 
-- 
2.43.0


From d645e0a913e171bd2d532d57644d3b0d83eeb8d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:10 +0000
Subject: [PATCH 146/155] fix: a binary stream that could not be opened was
 leaked

---
 src/core/Serialization.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/Serialization.cpp b/src/core/Serialization.cpp
index d1f4da0..bd1265b 100644
--- a/src/core/Serialization.cpp
+++ b/src/core/Serialization.cpp
@@ -326,6 +326,7 @@ std::istream& FileSerialization::getBinaryInputStream(const std::string &filenam
     std::ifstream *is = new std::ifstream(fileDir.string().c_str());
     if( !is->is_open() || is->fail() )
     {
+        delete is;
         throw NoSuchBinaryStream("could not open file " + filename);
     }
     ifstreams.push_back(is);
@@ -339,6 +340,7 @@ std::ostream& FileSerialization::getBinaryOutputStream(const std::string &filena
     std::ofstream *os = new std::ofstream(fileDir.string().c_str());
     if( !os->is_open() || os->fail() )
     {
+        delete os;
         throw NoSuchBinaryStream("could not open file " + filename);
     }
     ofstreams.push_back(os);
-- 
2.43.0


From 639ec6767eb15572fe500608ccedabd128aeab0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:10 +0000
Subject: [PATCH 147/155] fix: links of a scene could make cycles, second
 parents and repeated relations

---
 src/core/Serialization.cpp | 36 +++++++++++++++++++++++++++---------
 1 file changed, 27 insertions(+), 9 deletions(-)

diff --git a/src/core/Serialization.cpp b/src/core/Serialization.cpp
index bd1265b..14d741c 100644
--- a/src/core/Serialization.cpp
+++ b/src/core/Serialization.cpp
@@ -481,6 +481,22 @@ bool FileSerialization::writeToFile( Environment *env, const std::string &path )
     return result;
 }
 
+/** a frame has one parent, and is not below itself
+ */
+static void addFrameNodeLink( Environment* env, FrameNode* child, FrameNode* parent )
+{
+    for( FrameNode* node = parent; node; node = env->getParent( node ) )
+    {
+	if( node == child )
+	    throw std::runtime_error("frame node " + child->getUniqueId() + " is linked below itself");
+    }
+
+    if( env->getParent( child ) && env->getParent( child ) != parent )
+	throw std::runtime_error("frame node " + child->getUniqueId() + " is linked to more than one parent");
+
+    env->addChild( parent, child );
+}
+
 template<typename MapType>
 static MapType* getMap(YAMLSerializationImpl* yaml, Environment* env, const char* key)
 {
@@ -610,30 +626,32 @@ Environment* FileSerialization::readFromFile( const std::string& path )
 
 			if( yamlSerialization->getScalarInMap<std::string>("type") == "frameNodeTree" )
 			{
-			    env->frameNodeTree.insert( make_pair( 
+			    addFrameNodeLink( env,
 					getMap<FrameNode>(yamlSerialization, env, "child"), 
-					getMap<FrameNode>(yamlSerialization, env, "parent") ) );
+					getMap<FrameNode>(yamlSerialization, env, "parent") );
 			}
 
 			if( yamlSerialization->getScalarInMap<std::string>("type") == "layerTree" )
 			{
-			    env->layerTree.insert( make_pair( 
-                                        getMap<Layer>(yamlSerialization, env, "child"),
-                                        getMap<Layer>(yamlSerialization, env, "parent") ));
+			    Layer *child = getMap<Layer>(yamlSerialization, env, "child");
+			    Layer *parent = getMap<Layer>(yamlSerialization, env, "parent");
+			    if( child == parent )
+				throw std::runtime_error("layer " + child->getUniqueId() + " is linked to itself");
+			    env->addChild( parent, child );
 			}
 
 			if( yamlSerialization->getScalarInMap<std::string>("type") == "operatorGraphInput" )
 			{
-			    env->operatorGraphInput.insert( make_pair( 
+			    env->addInput(
                                         getMap<Operator>(yamlSerialization, env, "operator"),
-                                        getMap<Layer>(yamlSerialization, env, "layer")) );
+                                        getMap<Layer>(yamlSerialization, env, "layer") );
 			}
 
 			if( yamlSerialization->getScalarInMap<std::string>("type") == "operatorGraphOutput" )
 			{
-			    env->operatorGraphOutput.insert( make_pair( 
+			    env->addOutput(
                                         getMap<Operator>(yamlSerialization, env, "operator"),
-                                        getMap<Layer>(yamlSerialization, env, "layer")) );
+                                        getMap<Layer>(yamlSerialization, env, "layer") );
 			}
 
 			if( yamlSerialization->getScalarInMap<std::string>("type") == "cartesianMapGraph" )
-- 
2.43.0


From ceca7b37d2bf858935cd9882328e0b026f38b339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:10 +0000
Subject: [PATCH 148/155] fix: a binary event that cannot be read left memory
 and its streams behind, or crashed

---
 src/core/Serialization.cpp | 56 ++++++++++++++++++++++++++------------
 1 file changed, 39 insertions(+), 17 deletions(-)

diff --git a/src/core/Serialization.cpp b/src/core/Serialization.cpp
index 14d741c..673b1dc 100644
--- a/src/core/Serialization.cpp
+++ b/src/core/Serialization.cpp
@@ -690,19 +690,22 @@ BinarySerialization::BinarySerialization()
 
 BinarySerialization::~BinarySerialization()
 {
+    cleanUp();
 }
 
 std::istream& BinarySerialization::getBinaryInputStream(const std::string &filename)
 {
-    if(stringstreams[filename] == 0)
+    std::map<std::string, std::stringstream*>::const_iterator it = stringstreams.find(filename);
+    if(it == stringstreams.end())
         throw NoSuchBinaryStream("there is no binary input stream called " + filename);
-    return *stringstreams[filename];
+    return *it->second;
 }
 
 std::ostream& BinarySerialization::getBinaryOutputStream(const std::string &filename)
 {
-    std::stringstream* ostream = new std::stringstream();
-    stringstreams[filename] = ostream;
+    std::stringstream*& ostream = stringstreams[filename];
+    delete ostream;
+    ostream = new std::stringstream();
     return *ostream;
 }
 
@@ -735,23 +738,48 @@ void BinarySerialization::applyEvent(envire::Environment* env, const EnvireBinar
 
 EnvironmentItem* BinarySerialization::unserializeBinaryEvent(const EnvireBinaryEvent& bin_item)
 {
+    if( bin_item.yamlProperties.empty() )
+        throw std::runtime_error("there is no yaml stream in the event.");
+
+    // streams left by an item that could not be serialised
+    cleanUp();
+
     // set up yaml document
     yaml_parser_initialize(&yamlSerialization->parser);
     
     yaml_parser_set_input_string(&yamlSerialization->parser, reinterpret_cast<const unsigned char*>(bin_item.yamlProperties.data()), bin_item.yamlProperties.size());
     if(!yaml_parser_load(&yamlSerialization->parser, &yamlSerialization->document))
     {
-        yaml_parser_delete(&yamlSerialization->parser);
-
         std::cerr << bin_item.className << " " << bin_item.id_a << ":" 
             << yamlSerialization->parser.problem_mark.line << ":"
-            << yamlSerialization->parser.problem;
+            << (yamlSerialization->parser.problem ? yamlSerialization->parser.problem : "out of memory");
+
+        yaml_parser_delete(&yamlSerialization->parser);
         throw std::runtime_error("error parsing yaml stream.");
     }
+
+    // takes care of everything that was set up, also if the reading fails
+    struct Cleanup
+    {
+        YAMLSerializationImpl &yaml;
+        BinarySerialization &serialization;
+
+        Cleanup( YAMLSerializationImpl &yaml, BinarySerialization &serialization )
+            : yaml( yaml ), serialization( serialization ) {}
+
+        ~Cleanup()
+        {
+            yaml_document_delete(&yaml.document);
+            yaml_parser_delete(&yaml.parser);
+            serialization.cleanUp();
+        }
+    } cleanup( *yamlSerialization, *this );
     
     // set up yaml node
     yamlSerialization->current_node = -1;
     yaml_node_t* root = yaml_document_get_root_node(&yamlSerialization->document);
+    if( !root || root->type != YAML_SEQUENCE_NODE )
+        throw std::runtime_error("can't find items in yaml stream.");
     for(yaml_node_item_t* item=root->data.sequence.items.start;
             item < root->data.sequence.items.top; item++)
     {
@@ -772,22 +800,16 @@ EnvironmentItem* BinarySerialization::unserializeBinaryEvent(const EnvireBinaryE
     {
         if(bin_item.binaryStreams.size() > i)
         {
-            std::stringstream *istream = new std::stringstream();
+            std::stringstream *&istream = stringstreams[bin_item.binaryStreamNames[i]];
+            delete istream;
+            istream = new std::stringstream();
             const std::vector<uint8_t> &bin_stream = bin_item.binaryStreams[i];
             std::copy(bin_stream.begin(), bin_stream.end(), ostream_iterator<uint8_t>(*istream));
-            stringstreams[bin_item.binaryStreamNames[i]] = istream;
         }
     }
     
     // unserialize envire item
-    EnvironmentItem* item = SerializationFactory::createObject(bin_item.className, *this);
-    
-    //clean up
-    yaml_document_delete(&yamlSerialization->document);
-    yaml_parser_delete(&yamlSerialization->parser);
-    cleanUp();
-    
-    return item;
+    return SerializationFactory::createObject(bin_item.className, *this);
 }
 
 /** write handler of the yaml emitter, which appends to a vector of bytes
-- 
2.43.0


From d32de32702a1f9f36a2a2cd1777266d15f9c551d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:10 +0000
Subject: [PATCH 149/155] fix: events for items of another type, or which make
 an item its own parent, broke the environment

---
 src/core/Event.cpp | 47 ++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 47 insertions(+)

diff --git a/src/core/Event.cpp b/src/core/Event.cpp
index d50a853..ba5a8b4 100644
--- a/src/core/Event.cpp
+++ b/src/core/Event.cpp
@@ -168,6 +168,20 @@ struct ApplyEventHelper : public EventDispatcher
 		throw std::runtime_error("Event could not be applied. Items missing for applying addChild relation.");
 	}
 
+	if( parent == child )
+	    throw std::runtime_error("Event could not be applied. An item can not be its own child.");
+
+	// if the child is above the parent, the parent is not where it is
+	// anymore. Otherwise there would be a cycle.
+	for( FrameNode* node = parent; node; node = env.getParent( node ) )
+	{
+	    if( node == child )
+	    {
+		env.removeChild( env.getParent( parent ), parent );
+		break;
+	    }
+	}
+
 	env.addChild( parent, child );
     }
 
@@ -181,6 +195,9 @@ struct ApplyEventHelper : public EventDispatcher
 		throw std::runtime_error("Event could not be applied. Items missing for applying addChild relation.");
 	}
 
+	if( parent == child )
+	    throw std::runtime_error("Event could not be applied. An item can not be its own child.");
+
 	env.addChild( parent, child );
     }
 
@@ -248,11 +265,41 @@ struct ApplyEventHelper : public EventDispatcher
 
 };
 
+/** throws if @param item is present, but not of type T
+ */
+template <class T>
+static void checkType( EnvironmentItem *item )
+{
+    if( item && !dynamic_cast<T*>( item ) )
+	throw std::runtime_error("Event could not be applied. The item " + item->getUniqueId() + " is of a different type.");
+}
+
 void Event::apply( Environment* env ) const
 {
     EnvironmentItem *a = env->getItem( id_a ).get();
     EnvironmentItem *b = env->getItem( id_b ).get();
 
+    switch( type )
+    {
+	case event::FRAMENODE_TREE:
+	    checkType<FrameNode>( a );
+	    checkType<FrameNode>( b );
+	    break;
+	case event::LAYER_TREE:
+	    checkType<Layer>( a );
+	    checkType<Layer>( b );
+	    break;
+	case event::FRAMENODE:
+	    checkType<CartesianMap>( a );
+	    checkType<FrameNode>( b );
+	    break;
+	case event::ROOT:
+	    checkType<FrameNode>( a );
+	    break;
+	case event::ITEM:
+	    break;
+    }
+
     ApplyEventHelper helper( *this, *env );
     EventDispatcher::dispatch( type, operation, a, b, &helper );
 }
-- 
2.43.0


From c3b08ef0e7cb62c30c6c4b65a91eb377978a7be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:19 +0000
Subject: [PATCH 150/155] fix: negative or absurd sizes of a serialised grid
 were taken over

---
 src/maps/GridBase.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/maps/GridBase.cpp b/src/maps/GridBase.cpp
index 20ab447..f990f43 100644
--- a/src/maps/GridBase.cpp
+++ b/src/maps/GridBase.cpp
@@ -49,6 +49,11 @@ void GridBase::unserialize(Serialization& so)
     if (!so.read("cellSizeY", cellSizeY ))
         so.read("height", cellSizeY);
 
+    // also catches negative numbers
+    const size_t max_cells = std::numeric_limits<int>::max();
+    if( cellSizeX > max_cells || cellSizeY > max_cells || (cellSizeY && cellSizeX > max_cells / cellSizeY) )
+	throw std::runtime_error("the size of the grid is not valid");
+
     so.read("scalex", scalex );
     so.read("scaley", scaley );
     so.read("offsetx", offsetx );
-- 
2.43.0


From 1c438e276a56d29624b156910d111186ff1ecb41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:19 +0000
Subject: [PATCH 151/155] fix: an unknown update model and truncated data of an
 MLS were taken over

---
 src/maps/MLSGrid.cpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/maps/MLSGrid.cpp b/src/maps/MLSGrid.cpp
index b85599a..0d72fe5 100644
--- a/src/maps/MLSGrid.cpp
+++ b/src/maps/MLSGrid.cpp
@@ -165,6 +165,8 @@ void MLSGrid::unserialize(Serialization& so)
     {
 	long updateModelInt = MLSConfiguration::KALMAN;
 	so.read( "updateModel", updateModelInt );
+	if( updateModelInt < MLSConfiguration::KALMAN || updateModelInt > MLSConfiguration::SLOPE )
+	    throw std::runtime_error("the update model of the MLS is not known");
 	config.updateModel = static_cast<MLSConfiguration::update_model>( updateModelInt );
     }
     if( so.hasKey( "hasCellColor" ) )
@@ -216,7 +218,7 @@ struct SurfacePatchStore10
     double mean;
     double stdev;
     double height;
-    bool horizontal;
+    uint8_t horizontal;
     size_t update_idx;
 
     size_t xi, yi;
@@ -235,7 +237,7 @@ struct SurfacePatchStore11
     double mean;
     double stdev;
     double height;
-    bool horizontal;
+    uint8_t horizontal;
     size_t update_idx;
     base::Vector3d color;
 
@@ -255,7 +257,7 @@ struct SurfacePatchStore12
     float mean;
     float stdev;
     float height;
-    bool horizontal;
+    uint8_t horizontal;
     size_t update_idx;
     uint8_t color[3];
 
@@ -280,13 +282,15 @@ struct SurfacePatchStore13
     float n, normsq;
     size_t update_idx;
     uint8_t color[3];
-    SurfacePatch::TYPE type;
+    int type;
 
     size_t xi, yi;
 
     SurfacePatch toSurfacePatch()
     {
-	SurfacePatch p( mean, stdev, height, type );
+	if( type != SurfacePatch::VERTICAL && type != SurfacePatch::HORIZONTAL && type != SurfacePatch::NEGATIVE )
+	    throw std::runtime_error("MLS map data has a patch of unknown type");
+	SurfacePatch p( mean, stdev, height, static_cast<SurfacePatch::TYPE>( type ) );
 	p.update_idx = update_idx;
 	p.plane = plane;
 	p.n = n;
@@ -396,6 +400,9 @@ void MLSGrid::readMap(std::istream& is)
 	    insertTail( d.xi, d.yi, d.toSurfacePatch() );
 	}
     }
+
+    if( is.gcount() )
+	throw std::runtime_error("MLS map data ends within a patch");
 }
 
 MLSGrid::iterator MLSGrid::beginCell( size_t xi, size_t yi )
-- 
2.43.0


From d5501fc18a3182fd3f0d6ccad9303f9a6d975aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:19 +0000
Subject: [PATCH 152/155] fix: bands without name or with too little data were
 taken over

---
 src/maps/Grid.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/maps/Grid.hpp b/src/maps/Grid.hpp
index 6904871..9f3c9cb 100644
--- a/src/maps/Grid.hpp
+++ b/src/maps/Grid.hpp
@@ -391,7 +391,12 @@ namespace envire
 	    int count = so.read<int>("map_count");
 	    std::vector<std::string> layers;
 	    for (int i = 0; i < count; ++i)
-		layers.push_back( so.read<std::string>(boost::lexical_cast<std::string>(i)) );
+	    {
+		std::string layer;
+		if( !so.read(boost::lexical_cast<std::string>(i), layer) )
+		    throw std::runtime_error("can't unserialize " + className + ": missing name of a band in yaml data.");
+		layers.push_back( layer );
+	    }
 
 	    // there are three cases to differentiate here
 	    // single file access, multi-file access and memory access
@@ -505,7 +510,8 @@ namespace envire
     template<class T>void Grid<T>::readGridData(const std::string &key, std::istream& is, boost::enable_if< boost::is_fundamental<T> >* enabler)
     {
         ArrayType &data = getGridData(key);
-        is.read(reinterpret_cast<char*>(data.data()), sizeof(T) * data.num_elements());
+        if( !is.read(reinterpret_cast<char*>(data.data()), sizeof(T) * data.num_elements()) )
+            throw std::runtime_error("the data of band " + key + " is too short");
     }
 
     template<class T>void Grid<T>::writeGridData(const std::string &key,const std::string& path)
-- 
2.43.0


From f4c3da692b806a356638511aa989cd4019152c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:19 +0000
Subject: [PATCH 153/155] fix: a scan from a stream that cannot be read never
 ended

---
 src/maps/LaserScan.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/maps/LaserScan.cpp b/src/maps/LaserScan.cpp
index 3ebe1eb..9e67b53 100644
--- a/src/maps/LaserScan.cpp
+++ b/src/maps/LaserScan.cpp
@@ -118,8 +118,7 @@ bool LaserScan::parseScan( std::istream& is, Transform& transform ) {
     lines.clear();
 
     std::string line;
-    while( !is.eof() ) {
-        getline( is, line );
+    while( getline( is, line ) ) {
         std::istringstream iline( line );
 
         std::string key;
@@ -184,6 +183,8 @@ bool LaserScan::parseScan( std::istream& is, Transform& transform ) {
 
             double rem;
             while( iline >> rem ) {
+		if( !(rem > -1.0 && rem <= std::numeric_limits<unsigned int>::max()) )
+		    throw std::runtime_error("remission value out of range.");
                 scanline.remissions.push_back( rem );
             }
 
-- 
2.43.0


From f719a8fcef208f2951b00566c14911c8d30cc665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:39 +0000
Subject: [PATCH 154/155] fix: an absurd number of serialised traversability
 classes was taken over

---
 src/maps/TraversabilityGrid.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/maps/TraversabilityGrid.cpp b/src/maps/TraversabilityGrid.cpp
index ce09e07..79fbd6d 100644
--- a/src/maps/TraversabilityGrid.cpp
+++ b/src/maps/TraversabilityGrid.cpp
@@ -267,6 +267,9 @@ void TraversabilityGrid::unserialize(Serialization& so)
     envire::Grid< uint8_t >::unserialize(so);
     size_t traversabilityClassCount = 0;
     so.read<size_t>(std::string("drivabilityClassCount"), traversabilityClassCount);
+    // the cells are bytes
+    if(traversabilityClassCount > 256)
+        throw std::runtime_error("the number of traversability classes is not valid");
     traversabilityClasses.clear();
     traversabilityClasses.resize(traversabilityClassCount);
     for(size_t i = 0; i < traversabilityClassCount; i++)
-- 
2.43.0


From dff4cc1003c925d3ec47c30e39e034f46ee9f8fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:39 +0000
Subject: [PATCH 155/155] fix: a scene with a grid outside of the frame tree
 could not be saved

---
 src/maps/Grid.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/maps/Grid.hpp b/src/maps/Grid.hpp
index 9f3c9cb..cc13df9 100644
--- a/src/maps/Grid.hpp
+++ b/src/maps/Grid.hpp
@@ -549,7 +549,8 @@ namespace envire
 	gridTransform.translate( Eigen::Vector2d( offsetx, offsety ) );
 	gridTransform.scale( Eigen::Vector2d( scalex, scaley ) );
 
-	if(getEnvironment())
+	// a map may be outside of the frame tree of the root
+	if(getEnvironment() && getFrameNode() && getFrameNode()->getRoot() == getEnvironment()->getRootNode()->getRoot())
 	{
 	    // get the frame transformation to the root frame
 	    Transform t = getEnvironment()->relativeTransform(
-- 
2.43.0

