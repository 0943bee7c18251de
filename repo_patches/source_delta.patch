From 6ebb550737318b497674ddacf55f0b554588082c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:13 +0000
Subject: [PATCH 01/39] fix: ListGrid copy constructor deleted an uninitialised
 pool pointer

---
 src/tools/ListGrid.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tools/ListGrid.hpp b/src/tools/ListGrid.hpp
index c22e879..8d9ed9a 100644
--- a/src/tools/ListGrid.hpp
+++ b/src/tools/ListGrid.hpp
@@ -77,6 +77,7 @@ public:
     }
 
     ListGrid( const ListGrid<C>& other )
+	: mem_pool(NULL)
     {
 	// use the assignment operator
 	this->operator=( other );
-- 
2.43.0


From 05b7db1bf5b582a62057ce2b877c79ffb85e8225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:13 +0000
Subject: [PATCH 02/39] fix: ListGrid::move left the back pointer of the moved
 cell heads at the old cell

---
 src/tools/ListGrid.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tools/ListGrid.hpp b/src/tools/ListGrid.hpp
index 8d9ed9a..ad1f97e 100644
--- a/src/tools/ListGrid.hpp
+++ b/src/tools/ListGrid.hpp
@@ -163,6 +163,9 @@ public:
                 else
                 {
                     cells[newX][newY] = tmp[x][y];
+                    // the head item points back to the cell it is stored in
+                    if(cells[newX][newY])
+                        cells[newX][newY]->pthis = &cells[newX][newY];
                 }
             }
         }        
-- 
2.43.0


From bcf1f629a8b719df42e9e1f553fcc93424ca501c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:13 +0000
Subject: [PATCH 03/39] fix: Gaussian::eval multiplied by the root of the
 determinant instead of dividing

---
 src/tools/GaussianMixture.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/GaussianMixture.hpp b/src/tools/GaussianMixture.hpp
index 5fce0bc..c785184 100644
--- a/src/tools/GaussianMixture.hpp
+++ b/src/tools/GaussianMixture.hpp
@@ -59,7 +59,7 @@ template <class _Scalar, int _Dimension, class _Adapter = EigenAdapter<_Scalar,
 	Eigen::Matrix<Scalar,1,1> e = d.transpose() * cov.inverse() * d;
 	Scalar res = 
 	    pow( 2.0 * M_PI, -Dimension/2.0 )
-	    * sqrt( cov.determinant() )
+	    / sqrt( cov.determinant() )
 	    * exp( -0.5 * e[0] );
 
 	return res;
-- 
2.43.0


From 3df36bab64459e52cfaf2ff16b976d458f74759f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:13 +0000
Subject: [PATCH 04/39] fix: GaussianMixture::eval ignored the component
 weights

---
 src/tools/GaussianMixture.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/GaussianMixture.hpp b/src/tools/GaussianMixture.hpp
index c785184..014200f 100644
--- a/src/tools/GaussianMixture.hpp
+++ b/src/tools/GaussianMixture.hpp
@@ -117,7 +117,7 @@ public:
     {
 	Scalar v = 0;
 	for( size_t j=0; j<params.size(); j++ )
-	    v += params[j].dist.eval( s );
+	    v += params[j].weight * params[j].dist.eval( s );
 
 	return v;
     }
-- 
2.43.0


From fc0d653c324f18df04e0684cde275927bf392b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:13 +0000
Subject: [PATCH 05/39] fix: BoxLookUpTable lookup accepted an index one past
 the table

---
 src/tools/BoxLookUpTable.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/BoxLookUpTable.cpp b/src/tools/BoxLookUpTable.cpp
index 9898a92..f9e2222 100644
--- a/src/tools/BoxLookUpTable.cpp
+++ b/src/tools/BoxLookUpTable.cpp
@@ -122,7 +122,7 @@ const double& BoxLookUpTable::getDistanceToBox(double xp, double yp) const
     int x = (xp + centerX) / scale;
     int y = (yp + centerY) / scale;
     
-    if(x < 0 || x > cellSizeX || y < 0 || y > cellSizeY)
+    if(x < 0 || x >= cellSizeX || y < 0 || y >= cellSizeY)
     {
         std::cout << "xp " << xp << " yp " << yp << " x " << x << " y " << y << std::endl; 
         throw std::runtime_error("BoxLookUpTable:: Distance lookup out of bound");
-- 
2.43.0


From d079a8bdaedbcf1fd62d2904b3a87b8c26fd95ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:37 +0000
Subject: [PATCH 06/39] fix: KMeans produced NaN means for classes without
 samples

---
 src/tools/ExpectationMaximization.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/tools/ExpectationMaximization.hpp b/src/tools/ExpectationMaximization.hpp
index 1f6a77f..6ac1c38 100644
--- a/src/tools/ExpectationMaximization.hpp
+++ b/src/tools/ExpectationMaximization.hpp
@@ -95,6 +95,9 @@ public:
 	kdtree.clear();
 	for( size_t j=0; j<numClasses; j++ )
 	{
+	    // a class without samples has no mean
+	    if( !(sum[j] > 0) )
+		continue;
 	    means[j] /= sum[j];
 	    kdtree.insert( Sample( j, means[j]) );
 	}
@@ -128,9 +131,13 @@ public:
 	    stats[index[i]].insert( samples[i], hasWeights ? weights[i] : 1.0 );
 
 	// and calc mean and covariance
-	std::vector<Gaussian<Scalar, Dimension, typename GMM::Adapter> > res( means.size() );
+	// for all the classes which have samples
+	std::vector<Gaussian<Scalar, Dimension, typename GMM::Adapter> > res;
 	for( size_t j=0; j<means.size(); j++ )
-	    res[j] = stats[j].update();
+	{
+	    if( stats[j].sum > 0 )
+		res.push_back( stats[j].update() );
+	}
 	return res;
     }
 };
-- 
2.43.0


From b5e1e428bcb44dde2683f3cd16c31d0e967a2002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:48 +0000
Subject: [PATCH 07/39] fix: BoxLookUpTable lookup accepted points up to one
 cell before the table

---
 src/tools/BoxLookUpTable.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools/BoxLookUpTable.cpp b/src/tools/BoxLookUpTable.cpp
index f9e2222..a9d7009 100644
--- a/src/tools/BoxLookUpTable.cpp
+++ b/src/tools/BoxLookUpTable.cpp
@@ -119,8 +119,8 @@ const double& BoxLookUpTable::getDistanceToBox(double xp, double yp) const
     if(!distanceTable)
         throw std::runtime_error("BoxLookUpTable::Lookup table is not computed");    
 
-    int x = (xp + centerX) / scale;
-    int y = (yp + centerY) / scale;
+    int x = floor((xp + centerX) / scale);
+    int y = floor((yp + centerY) / scale);
     
     if(x < 0 || x >= cellSizeX || y < 0 || y >= cellSizeY)
     {
-- 
2.43.0


From 54e6b678a3f87cd6f7d6008631e7a21e6d57e0cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:36 +0000
Subject: [PATCH 08/39] fix: announce the removal of a layer link only if the
 link exists

---
 src/core/Environment.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/Environment.cpp b/src/core/Environment.cpp
index 88e88c8..5231073 100644
--- a/src/core/Environment.cpp
+++ b/src/core/Environment.cpp
@@ -459,14 +459,14 @@ void Environment::removeChild(FrameNode* parent, FrameNode* child)
 
 void Environment::removeChild(Layer* parent, Layer* child) 
 {
-    handle( Event( event::LAYER_TREE, event::REMOVE, parent, child ) );
-
     typedef layerTreeType::iterator iterator;
     std::pair<iterator,iterator> range = layerTree.equal_range( child );
     for( iterator it = range.first; it != range.second; it++ )
     {
 	if( it->second == parent )
 	{
+	    handle( Event( event::LAYER_TREE, event::REMOVE, parent, child ) );
+
 	    layerTree.erase( it );
 	    return;
 	}
-- 
2.43.0


From 44132a5eb73e9f87027ba6893722d739bf7ca153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:36 +0000
Subject: [PATCH 09/39] fix: look at all links of a layer or operator when
 checking for duplicates

---
 src/core/Environment.cpp | 33 ++++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/src/core/Environment.cpp b/src/core/Environment.cpp
index 5231073..1260236 100644
--- a/src/core/Environment.cpp
+++ b/src/core/Environment.cpp
@@ -428,9 +428,14 @@ void Environment::addChild(Layer* parent, Layer* child)
     assert( parent != child );
 
     // don't do anything if relationsship already present
-    layerTreeType::iterator it = layerTree.find( child );
-    if( it != layerTree.end() && it->second == parent )
-	return;
+    // (a layer can have more than one parent)
+    typedef layerTreeType::iterator iterator;
+    std::pair<iterator,iterator> range = layerTree.equal_range( child );
+    for( iterator it = range.first; it != range.second; it++ )
+    {
+	if( it->second == parent )
+	    return;
+    }
     
     if( !child->isAttached() )
 	attachItem( child );
@@ -609,9 +614,14 @@ std::list<CartesianMap*> Environment::getMaps(FrameNode* node)
 bool Environment::addInput(Operator* op, Layer* input)
 {
     // don't do anything if relationsship already present
-    operatorGraphType::iterator it = operatorGraphInput.find( op );
-    if( it != operatorGraphInput.end() && it->second == input )
-	return false;
+    // (an operator can have more than one input)
+    typedef operatorGraphType::iterator iterator;
+    std::pair<iterator,iterator> range = operatorGraphInput.equal_range( op );
+    for( iterator it = range.first; it != range.second; it++ )
+    {
+	if( it->second == input )
+	    return false;
+    }
     
     if( !op->isAttached() )
 	attachItem( op );
@@ -627,9 +637,14 @@ bool Environment::addInput(Operator* op, Layer* input)
 bool Environment::addOutput(Operator* op, Layer* output)
 {
     // don't do anything if relationsship already present
-    operatorGraphType::iterator it = operatorGraphOutput.find( op );
-    if( it != operatorGraphOutput.end() && it->second == output )
-	return false;
+    // (an operator can have more than one output)
+    typedef operatorGraphType::iterator iterator;
+    std::pair<iterator,iterator> range = operatorGraphOutput.equal_range( op );
+    for( iterator it = range.first; it != range.second; it++ )
+    {
+	if( it->second == output )
+	    return false;
+    }
 
     if( !op->isAttached() )
 	attachItem( op );
-- 
2.43.0


From eec786feebffaf971c664b1773e0aeb5bde5acc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:36 +0000
Subject: [PATCH 10/39] fix: keep an item alive while it moves to another
 environment

---
 src/core/Environment.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/core/Environment.cpp b/src/core/Environment.cpp
index 1260236..aeb3576 100644
--- a/src/core/Environment.cpp
+++ b/src/core/Environment.cpp
@@ -264,6 +264,9 @@ void Environment::attachItem(EnvironmentItem* item)
 {
     assert( item );
 
+    // keeps the item alive while it is moved between environments
+    EnvironmentItem::Ptr moved;
+
     if(!item->isAttached())
     {
         if(item->unique_id == ITEM_NOT_ATTACHED)
@@ -290,7 +293,7 @@ void Environment::attachItem(EnvironmentItem* item)
     {
 	// if it comes from a different environment, it
 	// needs to be detached first
-	item->detach();
+	moved = item->detach();
     }
 
     // make sure item not already present
-- 
2.43.0


From fb8dcc0e8762185f0ecc260606c595008fb29d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:36 +0000
Subject: [PATCH 11/39] fix: publish layer links and maps of the root node to
 joining and leaving event handlers

---
 src/core/Environment.cpp | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/core/Environment.cpp b/src/core/Environment.cpp
index aeb3576..3bc2357 100644
--- a/src/core/Environment.cpp
+++ b/src/core/Environment.cpp
@@ -194,6 +194,12 @@ void Environment::addEventHandler(EventHandler *handler)
     {
 	handler->receive( Event( event::FRAMENODE, event::ADD, it->first, it->second ) );
     }
+
+    //publish connections between layers
+    for(layerTreeType::iterator it = layerTree.begin(); it != layerTree.end(); it++) 
+    {
+	handler->receive( Event( event::LAYER_TREE, event::ADD, it->second, it->first ) );
+    }
     
     eventHandlers.addEventHandler(handler);
 }
@@ -224,6 +230,19 @@ void Environment::detachChilds(FrameNode *parent, EventHandler *evl)
 
 void Environment::removeEventHandler(EventHandler *handler) 
 {
+    //remove the connections between layers
+    for(layerTreeType::iterator it = layerTree.begin(); it != layerTree.end(); it++) 
+    {
+	handler->receive( Event( event::LAYER_TREE, event::REMOVE, it->second, it->first ) );
+    }
+
+    //detach the maps of the root node, the ones further down are handled by detachChilds
+    std::list<CartesianMap*> rootMaps = getMaps(getRootNode());
+    for(std::list<CartesianMap*>::iterator it = rootMaps.begin(); it != rootMaps.end(); it++) 
+    {
+	handler->receive( Event( event::FRAMENODE, event::REMOVE, *it, getRootNode() ) );
+    }
+
     //reverse iterate over the frame node tree and detach all children    
     detachChilds(getRootNode(), handler);
     
-- 
2.43.0


From e5aff35df7412dacb110eedcab91c702df5bf0c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:36 +0000
Subject: [PATCH 12/39] fix: do not announce a modification of the null item
 when an update event adds the item

---
 src/core/Event.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/Event.cpp b/src/core/Event.cpp
index e12e565..d50a853 100644
--- a/src/core/Event.cpp
+++ b/src/core/Event.cpp
@@ -131,6 +131,8 @@ struct ApplyEventHelper : public EventDispatcher
 	    // for the time being copy the whole item
 	    // TODO: implement partial updates
 	    item->set( event.a.get() );
+
+	    env.itemModified( item );
 	}
 	else if( lenient )
 	{
@@ -142,8 +144,6 @@ struct ApplyEventHelper : public EventDispatcher
 	{
 	    throw std::runtime_error("Event could not be applied. Item does not exist in environment.");
 	}
-	
-	env.itemModified( item );
     }
 
     void itemDetached(EnvironmentItem *item)
-- 
2.43.0


From 7ede6121bbe6f8f9157d28f376df323a68dbf189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:36 +0000
Subject: [PATCH 13/39] fix: allow removing the event filter

---
 src/core/EventHandler.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/EventHandler.cpp b/src/core/EventHandler.cpp
index b78edbb..ade55d5 100644
--- a/src/core/EventHandler.cpp
+++ b/src/core/EventHandler.cpp
@@ -24,7 +24,8 @@ void EventHandler::receive( const Event& message )
 void EventHandler::setFilter( EventFilter* filter ) 
 { 
     this->filter = filter; 
-    filter->setHandler( this );
+    if( filter )
+	filter->setHandler( this );
 }
 
 void EventDispatcher::itemAttached(EnvironmentItem *item) {}
-- 
2.43.0


From a3a87cd8ceaf4a2e639da2179f61be20ef1f7dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:36 +0000
Subject: [PATCH 14/39] fix: detach a generated layer from the outputs of its
 operator

---
 src/core/Layer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/Layer.cpp b/src/core/Layer.cpp
index 5bf55d6..5bcf6f0 100644
--- a/src/core/Layer.cpp
+++ b/src/core/Layer.cpp
@@ -101,7 +101,7 @@ bool Layer::isDirty() const
 bool Layer::detachFromOperator()
 {
     if( isGenerated() ) 
-	return env->removeInput( getGenerator(), this );
+	return env->removeOutput( getGenerator(), this );
 
     return true;
 }
-- 
2.43.0


From 79625dd7649f7b671834f9df018f3414e7a6a828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:36 +0000
Subject: [PATCH 15/39] fix: do not cut the first character of an unqualified
 class name

---
 src/core/SerializationFactory.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/SerializationFactory.cpp b/src/core/SerializationFactory.cpp
index 178e317..f3b2834 100644
--- a/src/core/SerializationFactory.cpp
+++ b/src/core/SerializationFactory.cpp
@@ -27,7 +27,8 @@ EnvironmentItem* SerializationFactory::createObject( const std::string& classNam
 	f = classMap[className];
     else 
     {
-	std::string name = className.substr( className.rfind("::") + 2 );
+	size_t pos = className.rfind("::");
+	std::string name = pos == std::string::npos ? className : className.substr( pos + 2 );
 	if( classMap.count( name ) )
 	    f = classMap[name];
     }
-- 
2.43.0


From 40c38477bb0482b51302ba3d5652cbb8368a9773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:36 +0000
Subject: [PATCH 16/39] fix: const access to the held object

---
 src/core/Holder.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/Holder.hpp b/src/core/Holder.hpp
index 9f77c5e..7fbf498 100644
--- a/src/core/Holder.hpp
+++ b/src/core/Holder.hpp
@@ -70,7 +70,7 @@ namespace envire
     template <typename T> 
     const T& HolderBase::get() const
     {
-        return *dynamic_cast< Holder<T>* >(this)->getData();
+        return *dynamic_cast< Holder<T> const* >(this)->getData();
     }
 }
 
-- 
2.43.0


From a7493f941a5382078134d6c25b111349b2911dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:03 +0000
Subject: [PATCH 17/39] fix: a layer is no longer dirty after it was updated
 from its operator

---
 src/core/Layer.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/Layer.cpp b/src/core/Layer.cpp
index 5bcf6f0..4f96c7b 100644
--- a/src/core/Layer.cpp
+++ b/src/core/Layer.cpp
@@ -120,7 +120,10 @@ Operator* Layer::getGenerator() const
 void Layer::updateFromOperator() 
 {
     if( isGenerated() && isDirty() )
+    {
         getGenerator()->updateAll();
+        resetDirty();
+    }
 }
 
 const std::string Layer::getMapFileName() const 
-- 
2.43.0


From 479c09cea3ee4cc29ef4066775aa468c96143911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:03 +0000
Subject: [PATCH 18/39] fix: look at the event queue only with its mutex locked

---
 src/core/Serialization.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/core/Serialization.cpp b/src/core/Serialization.cpp
index 7b73884..469cecf 100644
--- a/src/core/Serialization.cpp
+++ b/src/core/Serialization.cpp
@@ -1,5 +1,6 @@
 #include <boost/filesystem/operations.hpp>
 #include <boost/filesystem/path.hpp>
+#include <boost/thread/locks.hpp>
 #include <iostream>
 #include <fstream>
 #include <stdio.h>
@@ -839,7 +840,12 @@ void SynchronizationEventHandler::handle(const envire::Event& message)
     else
     {
 	// flush any remaining messages in the queue
-        if(msgQueue.size())
+        bool pending;
+        {
+            boost::lock_guard<boost::mutex> lock( queueMutex );
+            pending = !msgQueue.empty();
+        }
+        if(pending)
             flush();
 
 	// process will add the relveant binary messages to the msg_buffer
-- 
2.43.0


From 6cf143c0b595a167a59ada6cbde81205cce67371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:03 +0000
Subject: [PATCH 19/39] fix: do not lose the content of an item that is removed
 and added again within one queue

---
 src/core/Event.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/core/Event.cpp b/src/core/Event.cpp
index d50a853..6d03bd7 100644
--- a/src/core/Event.cpp
+++ b/src/core/Event.cpp
@@ -63,6 +63,11 @@ event::Result Event::merge( const Event& other )
     if(type == other.type && operation == other.operation && id_a == other.id_a && id_b == other.id_b) 
 	return event::INVALIDATE;
 
+    // adding an item again replaces the removal, since its content may have changed
+    if( operation == event::ADD && other.operation == event::REMOVE
+	&& type == event::ITEM && type == other.type && id_a == other.id_a && id_b == other.id_b )
+	return event::INVALIDATE;
+
     // adding and removing will cancel each other, if the events are otherwise the same
     if( ((operation == event::REMOVE && other.operation == event::ADD)
         || (operation == event::ADD && other.operation == event::REMOVE))
-- 
2.43.0


From 5689d01df7a79d6effbe2f26fa21e1f47530cc7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:24 +0000
Subject: [PATCH 20/39] fix: an item that is removed, added and removed again
 within one queue is removed

---
 src/core/Event.cpp | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/core/Event.cpp b/src/core/Event.cpp
index 6d03bd7..c03c800 100644
--- a/src/core/Event.cpp
+++ b/src/core/Event.cpp
@@ -63,16 +63,13 @@ event::Result Event::merge( const Event& other )
     if(type == other.type && operation == other.operation && id_a == other.id_a && id_b == other.id_b) 
 	return event::INVALIDATE;
 
-    // adding an item again replaces the removal, since its content may have changed
-    if( operation == event::ADD && other.operation == event::REMOVE
-	&& type == event::ITEM && type == other.type && id_a == other.id_a && id_b == other.id_b )
-	return event::INVALIDATE;
-
-    // adding and removing will cancel each other, if the events are otherwise the same
+    // adding and removing will cancel each other, if the events are otherwise the same.
+    // For items only the last one counts: the content may be different when it is
+    // added again, and the item may have been present before both events.
     if( ((operation == event::REMOVE && other.operation == event::ADD)
         || (operation == event::ADD && other.operation == event::REMOVE))
 	&& type == other.type && id_a == other.id_a && id_b == other.id_b )
-	return event::CANCEL;
+	return type == event::ITEM ? event::INVALIDATE : event::CANCEL;
 
     // removing an item will also invalidate update events
     if( (operation == event::REMOVE && other.operation == event::UPDATE)
-- 
2.43.0


From 4cff67c43671646823b72c6e5e20582147410347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:05 +0000
Subject: [PATCH 21/39] fix: context updates for the queued copy of an item use
 the original

---
 src/core/Serialization.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/Serialization.cpp b/src/core/Serialization.cpp
index 469cecf..b39e252 100644
--- a/src/core/Serialization.cpp
+++ b/src/core/Serialization.cpp
@@ -873,7 +873,7 @@ void SynchronizationEventHandler::process(const envire::Event& message)
 	    // we might actually be working on a copy of the original item
 	    // in case the event got queued. For this reason, try to get the
 	    // original item back
-	    if( !item ) 
+	    if( !item || !item->isAttached() ) 
 		item = m_env->getItem( message.id_a ).get();
 
 	    // in case we have a cartesian map, also provide the full framenode
-- 
2.43.0


From 38af588e5869db01faed56ba6b2808a110724554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:48 +0000
Subject: [PATCH 22/39] fix: sign of the derivative of the rotated point by the
 rotation

---
 src/core/Transform.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/Transform.cpp b/src/core/Transform.cpp
index 5d4f73b..930a7c3 100644
--- a/src/core/Transform.cpp
+++ b/src/core/Transform.cpp
@@ -126,7 +126,7 @@ Eigen::Matrix<double,3,3> drx_by_dr( const Eigen::Quaterniond& q, const Eigen::V
     const double theta = r.norm();
     const double alpha = 1.0 - theta*theta/6.0;
     const double beta = 0.5 - theta*theta/24.0;
-    const double gamma = 1.0 / 3.0 - theta*theta/30.0;
+    const double gamma = -1.0 / 3.0 + theta*theta/30.0;
     const double delta = -1.0 / 12.0 + theta*theta/180.0;
 
     return Eigen::Matrix3d(
-- 
2.43.0


From 40e0c996db78de8afd7466d402ce254886e7244c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:28 +0000
Subject: [PATCH 23/39] fix: signs of the Jacobian of the inverse transform

---
 src/core/Transform.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/Transform.cpp b/src/core/Transform.cpp
index 930a7c3..0d2d2ed 100644
--- a/src/core/Transform.cpp
+++ b/src/core/Transform.cpp
@@ -278,8 +278,8 @@ TransformWithUncertainty TransformWithUncertainty::inverse() const
     Eigen::Quaterniond q( getTransform().linear() );
     Eigen::Vector3d t( getTransform().translation() );
     Eigen::Matrix<double,6,6> J;
-    J << Eigen::Matrix3d::Identity(), Eigen::Matrix3d::Zero(),
-	drx_by_dr( q.inverse(), t ), q.toRotationMatrix().transpose();
+    J << -Eigen::Matrix3d::Identity(), Eigen::Matrix3d::Zero(),
+	drx_by_dr( q.inverse(), t ), -q.toRotationMatrix().transpose();
 
     return TransformWithUncertainty(
 	    Eigen::Affine3d( getTransform().inverse( Eigen::Isometry ) ),
-- 
2.43.0


From 568b6ad0f4d371fe64f71f5729342ccde9e77374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:02 +0000
Subject: [PATCH 24/39] fix: default constructed transforms and points with
 uncertainty are certain

---
 src/core/Transform.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/core/Transform.cpp b/src/core/Transform.cpp
index 0d2d2ed..5f9219e 100644
--- a/src/core/Transform.cpp
+++ b/src/core/Transform.cpp
@@ -5,13 +5,15 @@
 
 using namespace envire;
 
-PointWithUncertainty::PointWithUncertainty() {}
+PointWithUncertainty::PointWithUncertainty() 
+    : uncertain(false) {}
 PointWithUncertainty::PointWithUncertainty( const Point& point ) 
     : point( point ), uncertain(false) {}
 PointWithUncertainty::PointWithUncertainty( const Point& point, const Covariance& cov ) 
     : point( point ), cov( cov ), uncertain(true) {}
 
-TransformWithUncertainty::TransformWithUncertainty() {}
+TransformWithUncertainty::TransformWithUncertainty() 
+    : cov( Covariance::Zero() ), uncertain(false) {}
 TransformWithUncertainty::TransformWithUncertainty( const Transform& trans )
     : trans( trans ), cov( Covariance::Zero() ), uncertain(false) {}
 TransformWithUncertainty::TransformWithUncertainty( const base::samples::RigidBodyState& rbs )
-- 
2.43.0


From cc1e2c49700d235664540fa0ec5f7bcd6a599b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:02 +0000
Subject: [PATCH 25/39] fix: transforming a certain point by a certain
 transform yields a certain point

---
 src/core/Transform.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core/Transform.cpp b/src/core/Transform.cpp
index 5f9219e..63123c9 100644
--- a/src/core/Transform.cpp
+++ b/src/core/Transform.cpp
@@ -257,6 +257,10 @@ TransformWithUncertainty TransformWithUncertainty::operator*( const TransformWit
 
 PointWithUncertainty TransformWithUncertainty::operator*( const PointWithUncertainty& point ) const
 {
+    // short path if there is no uncertainty 
+    if( !hasUncertainty() && !point.hasUncertainty() )
+	return PointWithUncertainty( getTransform() * point.getPoint() );
+
     Eigen::Matrix3d R( getTransform().linear() );
     Eigen::Quaterniond q( R );
     Eigen::Matrix<double,3,6> J;
-- 
2.43.0


From 3b55897e865d1d0b49869079a983e6b6d3d332d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:31 +0000
Subject: [PATCH 26/39] fix: ScanMeshing saved and restored the maximum edge
 length as remission scale factor

---
 src/operators/ScanMeshing.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/operators/ScanMeshing.cpp b/src/operators/ScanMeshing.cpp
index 1b9a79f..491648c 100644
--- a/src/operators/ScanMeshing.cpp
+++ b/src/operators/ScanMeshing.cpp
@@ -28,7 +28,7 @@ void ScanMeshing::serialize(Serialization& so)
 {
     Operator::serialize(so);
     so.write("maxEdgeLength", maxEdgeLength ); 
-    so.write("remissionScaleFactor", maxEdgeLength ); 
+    so.write("remissionScaleFactor", remissionScaleFactor ); 
     so.write("minRange", minRange ); 
 }
 
@@ -36,7 +36,7 @@ void ScanMeshing::unserialize(Serialization& so)
 {
     Operator::unserialize(so);
     so.read("maxEdgeLength", maxEdgeLength ); 
-    so.read("remissionScaleFactor", maxEdgeLength ); 
+    so.read("remissionScaleFactor", remissionScaleFactor ); 
     so.read("minRange", minRange ); 
 }
 
-- 
2.43.0


From 0e511d7dfe8fb814c9df775f8156d694ebaea20a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:31 +0000
Subject: [PATCH 27/39] fix: Featurecloud could not be read back, it asked for
 point data it does not save

---
 src/maps/Featurecloud.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/maps/Featurecloud.cpp b/src/maps/Featurecloud.cpp
index 5a48c88..51db407 100644
--- a/src/maps/Featurecloud.cpp
+++ b/src/maps/Featurecloud.cpp
@@ -17,7 +17,7 @@ void Featurecloud::serialize(Serialization& so)
 
 void Featurecloud::unserialize(Serialization& so)
 {
-    Pointcloud::unserialize(so);
+    Pointcloud::unserialize( so, false );
     
     // TODO read map file
 }
-- 
2.43.0


From 223e761812acf53506a6d60dcd8ecb9592ba4095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:31 +0000
Subject: [PATCH 28/39] fix: SimpleTraversability lost its obstacle clearance
 when saved

---
 src/operators/SimpleTraversability.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/operators/SimpleTraversability.cpp b/src/operators/SimpleTraversability.cpp
index 115cf41..bcc5f60 100644
--- a/src/operators/SimpleTraversability.cpp
+++ b/src/operators/SimpleTraversability.cpp
@@ -52,6 +52,7 @@ void SimpleTraversability::serialize(envire::Serialization& so)
     so.write("class_count", conf.class_count);
     so.write("ground_clearance", conf.ground_clearance);
     so.write("min_width", conf.min_width);
+    so.write("obstacle_clearance", conf.obstacle_clearance);
     so.write("output_band", output_band);
 }
 
@@ -73,6 +74,8 @@ void SimpleTraversability::unserialize(envire::Serialization& so)
     so.read<int>("class_count", conf.class_count);
     so.read<double>("ground_clearance", conf.ground_clearance);
     so.read<double>("min_width", conf.min_width);
+    if (so.hasKey("obstacle_clearance"))
+        so.read<double>("obstacle_clearance", conf.obstacle_clearance);
     so.read<std::string>("output_band", output_band);
 }
 
-- 
2.43.0


From 3372022c06fc6e9cda5cb38f53c97c494f7c2e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:31 +0000
Subject: [PATCH 29/39] fix: MLSGrid lost the configured gap size and thickness
 when saved

---
 src/maps/MLSGrid.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/maps/MLSGrid.cpp b/src/maps/MLSGrid.cpp
index 0dd3536..c043926 100644
--- a/src/maps/MLSGrid.cpp
+++ b/src/maps/MLSGrid.cpp
@@ -148,6 +148,8 @@ void MLSGrid::serialize(Serialization& so)
     so.write( "hasCellColor", config.useColor );
     long updateModelInt = static_cast<long>( config.updateModel );
     so.write( "updateModel", updateModelInt );
+    so.write( "gapSize", config.gapSize );
+    so.write( "thickness", config.thickness );
     writeMap( so.getBinaryOutputStream(getMapFileName() + ".mls") );
 }
 
@@ -166,6 +168,11 @@ void MLSGrid::unserialize(Serialization& so)
     else
 	config.useColor = false;
 
+    if( so.hasKey( "gapSize" ) )
+	so.read( "gapSize", config.gapSize );
+    if( so.hasKey( "thickness" ) )
+	so.read( "thickness", config.thickness );
+
     cells.resize( cellSizeX, cellSizeY );
 
     // this is a workaround to make the MLS generatable by 
-- 
2.43.0


From 3ad0bfd6b9d3004636ad05207dc97abd7452b5db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:47 +0000
Subject: [PATCH 30/39] fix: toGrid converted negative cell indices to size_t,
 which is undefined and may yield a cell of the grid

---
 src/maps/GridBase.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/maps/GridBase.cpp b/src/maps/GridBase.cpp
index 72d6a2d..7463c78 100644
--- a/src/maps/GridBase.cpp
+++ b/src/maps/GridBase.cpp
@@ -391,8 +391,9 @@ bool GridBase::toGrid( Eigen::Vector3d const& point,
 
 bool GridBase::toGrid(double x, double y, size_t& xi, size_t& yi, double& xmod, double& ymod) const
 {
-    size_t am = floor((x-offsetx)/scalex);
-    size_t an = floor((y-offsety)/scaley);
+    // converting a negative value to size_t is undefined, check the range first
+    const double am = floor((x-offsetx)/scalex);
+    const double an = floor((y-offsety)/scaley);
 
     if( 0 <= am && am < cellSizeX && 0 <= an && an < cellSizeY )
     {
@@ -415,10 +416,10 @@ bool GridBase::toGrid( double x, double y, size_t& xi, size_t& yi) const
 
 bool envire::GridBase::toGridTimesX(double x, double y, size_t& xi, size_t& yi, int multiplier) const
 {
-    size_t am = floor(((x-offsetx)/scalex)*multiplier);
-    size_t an = floor(((y-offsety)/scaley)*multiplier);
+    const double am = floor(((x-offsetx)/scalex)*multiplier);
+    const double an = floor(((y-offsety)/scaley)*multiplier);
 
-    if((am < (cellSizeX * multiplier)) && (an < (cellSizeY * multiplier)))
+    if(0 <= am && (am < (cellSizeX * multiplier)) && 0 <= an && (an < (cellSizeY * multiplier)))
     {
         xi = am;
         yi = an;
-- 
2.43.0


From 9e7848c77abaab842f13bdf07b96fff02fe17ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:47 +0000
Subject: [PATCH 31/39] fix: cell extents of a grid include the last cell, the
 extents were one cell too large

---
 src/maps/GridBase.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/maps/GridBase.cpp b/src/maps/GridBase.cpp
index 7463c78..9d8298a 100644
--- a/src/maps/GridBase.cpp
+++ b/src/maps/GridBase.cpp
@@ -492,7 +492,7 @@ GridBase::Extents GridBase::getExtents() const
 
 GridBase::CellExtents GridBase::getCellExtents() const
 {
-    return CellExtents( Eigen::Vector2i::Zero(), Eigen::Vector2i( cellSizeX, cellSizeY ) );
+    return CellExtents( Eigen::Vector2i::Zero(), Eigen::Vector2i( cellSizeX, cellSizeY ) - Eigen::Vector2i::Ones() );
 }
 
 template<typename T>
-- 
2.43.0


From 23ccae1ff03329ad1ef131bd55c0d24b600ad3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:47 +0000
Subject: [PATCH 32/39] fix: maximum of a grid with negative values only

---
 src/maps/Grid.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/maps/Grid.hpp b/src/maps/Grid.hpp
index a8c05ef..c06fff4 100644
--- a/src/maps/Grid.hpp
+++ b/src/maps/Grid.hpp
@@ -179,7 +179,7 @@ namespace envire
         void getMinMaxValues( const std::string& key, T& min, T& max )
         {
             min = std::numeric_limits<T>::max();
-            max = std::numeric_limits<T>::min();
+            max = std::numeric_limits<T>::lowest();
 
             ArrayType& a = getGridData( key );
             for( T* i = a.data(); i < (a.data() + a.num_elements()); i++ )
-- 
2.43.0


From 6cb5d9599e8b410a9c5491199635fc72823f7767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:47 +0000
Subject: [PATCH 33/39] fix: TraversabilityClass::isSet answered the opposite

---
 src/maps/TraversabilityGrid.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/maps/TraversabilityGrid.hpp b/src/maps/TraversabilityGrid.hpp
index d6a483a..1a024e4 100644
--- a/src/maps/TraversabilityGrid.hpp
+++ b/src/maps/TraversabilityGrid.hpp
@@ -33,7 +33,7 @@ public:
      * or if it is an empty placeholder
      * */
     bool isSet() const {
-        return drivability < 0;
+        return drivability >= 0;
     }
 
     /**
-- 
2.43.0


From 0c4c2b473f11ef723d78d59b24b95a41b2ff3342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:47 +0000
Subject: [PATCH 34/39] fix: TraversabilityStatistic had no room for class 255

---
 src/maps/TraversabilityGrid.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/maps/TraversabilityGrid.hpp b/src/maps/TraversabilityGrid.hpp
index 1a024e4..7a22546 100644
--- a/src/maps/TraversabilityGrid.hpp
+++ b/src/maps/TraversabilityGrid.hpp
@@ -68,8 +68,8 @@ class TraversabilityStatistic
 public:
     TraversabilityStatistic() : countTotal(0), highestTraversabilityClass(0)
     {
-        minDistance.resize(std::numeric_limits<uint8_t>::max(), std::numeric_limits<double>::max());
-        counts.resize(std::numeric_limits<uint8_t>::max());
+        minDistance.resize(std::numeric_limits<uint8_t>::max() + 1, std::numeric_limits<double>::max());
+        counts.resize(std::numeric_limits<uint8_t>::max() + 1);
     }
 
     /**
-- 
2.43.0


From 9218abb923c090a477e1be28faa2fb4990b8d1df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:47 +0000
Subject: [PATCH 35/39] fix: search for the worst traversability class did not
 end if class 255 is in use

---
 src/maps/TraversabilityGrid.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/maps/TraversabilityGrid.cpp b/src/maps/TraversabilityGrid.cpp
index a632acf..cfe6e42 100644
--- a/src/maps/TraversabilityGrid.cpp
+++ b/src/maps/TraversabilityGrid.cpp
@@ -102,7 +102,7 @@ const TraversabilityClass& TraversabilityGrid::getWorstTraversabilityClassInRect
     TraversabilityStatistic innerStatistic;
     computeStatistic(pose, sizeX, sizeY, innerStatistic);
 
-    for(uint8_t i = 0; i <= innerStatistic.getHighestTraversabilityClass(); i++)
+    for(int i = 0; i <= innerStatistic.getHighestTraversabilityClass(); i++)
     {
         size_t count;
         double dist;
@@ -124,7 +124,7 @@ const TraversabilityClass& TraversabilityGrid::getWorstTraversabilityClassInRect
     if(curClass < 0)
     {
         std::cout << "Pose " << pose.position.transpose() << " sizeY " << sizeY << " sizeX " << sizeX << " Total Count " << innerStatistic.getTotalCount() << std::endl;
-        for(uint8_t i = 0; i <= innerStatistic.getHighestTraversabilityClass(); i++)
+        for(int i = 0; i <= innerStatistic.getHighestTraversabilityClass(); i++)
         {
             size_t count;
             double dist;
-- 
2.43.0


From eddc85f026b82d3f8dd07815fde63845266b521f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:47 +0000
Subject: [PATCH 36/39] fix: getTraversability read outside of the class table
 for cells without a registered class

---
 src/maps/TraversabilityGrid.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/maps/TraversabilityGrid.cpp b/src/maps/TraversabilityGrid.cpp
index cfe6e42..6692de9 100644
--- a/src/maps/TraversabilityGrid.cpp
+++ b/src/maps/TraversabilityGrid.cpp
@@ -167,7 +167,7 @@ void TraversabilityGrid::setTraversability(uint8_t klass, size_t x, size_t y)
 const TraversabilityClass& TraversabilityGrid::getTraversability(size_t x, size_t y) const
 {
     setTraversabilityArray();
-    return traversabilityClasses[(*traversabilityArray)[y][x]];
+    return getTraversabilityClass((*traversabilityArray)[y][x]);
 }
 
 bool TraversabilityGrid::registerNewTraversabilityClass(uint8_t& retId, const TraversabilityClass& klass)
-- 
2.43.0


From b962a742baa645e9d8e13a824eb2f912b8587813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:47 +0000
Subject: [PATCH 37/39] fix: copies of a TraversabilityGrid wrote into the
 cells of the original

---
 src/maps/TraversabilityGrid.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/maps/TraversabilityGrid.hpp b/src/maps/TraversabilityGrid.hpp
index 7a22546..819a7bb 100644
--- a/src/maps/TraversabilityGrid.hpp
+++ b/src/maps/TraversabilityGrid.hpp
@@ -152,6 +152,13 @@ public:
     {
     };
 
+    // the copy looks up its own arrays when it needs them
+    TraversabilityGrid(const TraversabilityGrid &other) : Grid<uint8_t>(other),
+                        traversabilityClasses(other.traversabilityClasses),
+                        probabilityArray(NULL), traversabilityArray(NULL)
+    {
+    };
+
     ~TraversabilityGrid(){};
 
     TraversabilityGrid &operator=(const TraversabilityGrid &other);
-- 
2.43.0


From b0f5723749ac6a4e3830e329d5ddfa2098ee6b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:47 +0000
Subject: [PATCH 38/39] fix: ElevationGrid::get used a cell position as world
 coordinates

---
 src/maps/ElevationGrid.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/maps/ElevationGrid.hpp b/src/maps/ElevationGrid.hpp
index 5d04039..ba31c3a 100644
--- a/src/maps/ElevationGrid.hpp
+++ b/src/maps/ElevationGrid.hpp
@@ -36,10 +36,10 @@ namespace envire
         { return Grid<double>::get(ELEVATION, x, y); }
 
         double& get( const Position& pos )
-        { return Grid<double>::get(ELEVATION, pos.x, pos.y); }
+        { return getFromRaster(ELEVATION, pos.x, pos.y); }
 
         double get( const Position& pos ) const
-        { return Grid<double>::get(ELEVATION, pos.x, pos.y); }
+        { return getFromRaster(ELEVATION, pos.x, pos.y); }
 
         Eigen::Vector3d getNormal( const Position& pos ) const;
 
-- 
2.43.0


From 2dff27311efa245e6f6b45f02c949b6887b9f504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:47 +0000
Subject: [PATCH 39/39] fix: ElevationGrid::getNormal read outside of the grid
 for cells at the border

---
 src/maps/ElevationGrid.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/maps/ElevationGrid.cpp b/src/maps/ElevationGrid.cpp
index 10b00d9..520ca22 100644
--- a/src/maps/ElevationGrid.cpp
+++ b/src/maps/ElevationGrid.cpp
@@ -16,8 +16,11 @@ Eigen::Vector3d envire::ElevationGrid::getNormal(const envire::GridBase::Positio
     size_t m = pos.x, n = pos.y;
 
     const ArrayType &grid( getGridData( ELEVATION ) );
-    double slope_x = (grid[n][m-1] - grid[n][m+1]) / (getScaleX()*2.0);
-    double slope_y = (grid[n-1][m] - grid[n+1][m]) / (getScaleY()*2.0);
+    // at the border there is a neighbour on one side only
+    size_t m0 = m > 0 ? m-1 : m, m1 = m+1 < getCellSizeX() ? m+1 : m;
+    size_t n0 = n > 0 ? n-1 : n, n1 = n+1 < getCellSizeY() ? n+1 : n;
+    double slope_x = m1 > m0 ? (grid[n][m0] - grid[n][m1]) / (getScaleX()*(m1-m0)) : 0;
+    double slope_y = n1 > n0 ? (grid[n0][m] - grid[n1][m]) / (getScaleY()*(n1-n0)) : 0;
 
     return Eigen::Vector3d( slope_x, slope_y, 1.0 ).normalized();
 }
-- 
2.43.0

