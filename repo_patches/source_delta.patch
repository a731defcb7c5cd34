From 2f5d355971c7435727c3738720129c0189e3a568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:06 +0000
Subject: [PATCH 01/87] fix: Polygon: keep cached length/area right when
 appending points

push_back() and extend() added twice the partial area of the new segment
to a cached partialArea(), and all appending operations changed the
caches even if adding the point failed (std::bad_alloc).
---
 src/geomap/polygon.hxx | 36 ++++++++++++++++++++++--------------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/src/geomap/polygon.hxx b/src/geomap/polygon.hxx
index 22cc271..620df4d 100644
--- a/src/geomap/polygon.hxx
+++ b/src/geomap/polygon.hxx
@@ -346,15 +346,17 @@ class Polygon : public PointArray<POINT>
 
     void push_back(const_reference v)
     {
-        if(this->size())
+        Base::push_back(v);
+        if(this->size() > 1)
         {
+            const_reference last(this->points_.back());
+            const_reference previous(this->points_[this->size()-2]);
             if(lengthValid_)
-                length_ += (v - this->points_.back()).magnitude();
+                length_ += (last - previous).magnitude();
             if(partialAreaValid_)
-                partialArea_ += (v[0]*this->points_.back()[1] -
-                                      v[1]*this->points_.back()[0]);
+                partialArea_ += (last[0]*previous[1] -
+                                 last[1]*previous[0]) / 2.0;
         }
-        Base::push_back(v);
     }
 
         // TODO: turn into general insert()?
@@ -364,6 +366,7 @@ class Polygon : public PointArray<POINT>
         if(!other.size())
             return;
 
+        double newLength = length_, newPartialArea = partialArea_;
         const_iterator otherBegin(other.begin());
         if(this->size())
         {
@@ -375,19 +378,21 @@ class Polygon : public PointArray<POINT>
             else
             {
                 if(lengthValid_)
-                    length_ +=
+                    newLength +=
                         (other.points_.front() - this->points_.back()).magnitude();
                 if(partialAreaValid_)
-                    partialArea_ +=
+                    newPartialArea +=
                         (other.points_.front()[0]*this->points_.back()[1] -
-                         other.points_.front()[1]*this->points_.back()[0]);
+                         other.points_.front()[1]*this->points_.back()[0]) / 2.0;
             }
         }
         if(lengthValid_)
-            length_ += other.length();
+            newLength += other.length();
         if(partialAreaValid_)
-            partialArea_ += other.partialArea();
+            newPartialArea += other.partialArea();
         this->points_.insert(this->points_.end(), otherBegin, other.end());
+        length_ = newLength;
+        partialArea_ = newPartialArea;
     }
 
     void setPoint(unsigned int pos, const_reference x)
@@ -417,19 +422,22 @@ class Polygon : public PointArray<POINT>
 
     iterator insert(iterator pos, const_reference x)
     {
+        double newLength = length_;
         if(lengthValid_)
         {
             if(pos > this->begin())
-                length_ += (x - pos[-1]).magnitude();
+                newLength += (x - pos[-1]).magnitude();
             if(this->end() - pos >= 1)
             {
-                length_ += (x - *pos).magnitude();
+                newLength += (x - *pos).magnitude();
                 if(pos > this->begin())
-                    length_ -= (*pos - pos[-1]).magnitude();
+                    newLength -= (*pos - pos[-1]).magnitude();
             }
         }
         partialAreaValid_ = false;
-        return Base::insert(pos, x);
+        iterator result(Base::insert(pos, x));
+        length_ = newLength;
+        return result;
     }
 
     template <class InputIterator>
-- 
2.43.0


From a5eb877eaa8329f7a9ec948a9f951113b7a6e427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:06 +0000
Subject: [PATCH 02/87] fix: (BBox)Polygon: do not keep stale bounding boxes

setPoint() ignored points moved out of a cached bounding box, and clear()
and invalidateProperties() left cached properties of the old points.
---
 src/geomap/polygon.hxx | 31 ++++++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/src/geomap/polygon.hxx b/src/geomap/polygon.hxx
index 620df4d..c6f1339 100644
--- a/src/geomap/polygon.hxx
+++ b/src/geomap/polygon.hxx
@@ -359,6 +359,12 @@ class Polygon : public PointArray<POINT>
         }
     }
 
+    void clear()
+    {
+        Base::clear();
+        invalidateProperties();
+    }
+
         // TODO: turn into general insert()?
         // should preserve closedness then, too!
     void extend(const Polygon &other)
@@ -633,18 +639,30 @@ class BBoxPolygon : public Polygon<POINT>
         return boundingBox_;
     }
 
+    void invalidateProperties()
+    {
+        Base::invalidateProperties();
+        boundingBoxValid_ = false;
+    }
+
+    void clear()
+    {
+        Base::clear();
+        boundingBoxValid_ = false;
+    }
+
     void push_back(const_reference v)
     {
-        if(boundingBoxValid_)
-            boundingBox_ |= v;
         Base::push_back(v);
+        if(boundingBoxValid_)
+            boundingBox_ |= this->points_.back();
     }
 
     void extend(const BBoxPolygon &other)
     {
+        Base::extend(other);
         if(boundingBoxValid_)
             boundingBox_ |= other.boundingBox();
-        Base::extend(other);
     }
 
     void setPoint(unsigned int pos, const_reference x)
@@ -660,6 +678,8 @@ class BBoxPolygon : public Polygon<POINT>
                ((x[1] > this->points_[pos][1]) &&
                 (this->points_[pos][1] == boundingBox_.begin()[1])))
                 boundingBoxValid_ = false;
+            else
+                boundingBox_ |= x;
         }
         Base::setPoint(pos, x);
     }
@@ -677,9 +697,10 @@ class BBoxPolygon : public Polygon<POINT>
 
     iterator insert(iterator pos, const_reference x)
     {
+        iterator result(Base::insert(pos, x));
         if(boundingBoxValid_)
-            boundingBox_ |= x;
-        return Base::insert(pos, x);
+            boundingBox_ |= *result;
+        return result;
     }
 
     template <class InputIterator>
-- 
2.43.0


From 18f061fed4998a9362742355a10e5fc465277d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:18 +0000
Subject: [PATCH 03/87] fix: Edge::concatenate(): recompute scanlines of the
 merged edge

Merging an edge with existing scanlines dereferenced NULL if the other
edge's scanlines had not been computed yet; and the concatenated
scanlines counted the pixels at the common node twice, in contrast to
the ones that a copy of the map computes, so that pixels stayed marked
in the label image of the copy after removing the edge.
---
 src/geomap/cppmap.cxx | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/geomap/cppmap.cxx b/src/geomap/cppmap.cxx
index d0b3230..37e1309 100644
--- a/src/geomap/cppmap.cxx
+++ b/src/geomap/cppmap.cxx
@@ -198,12 +198,9 @@ void GeoMap::Edge::concatenate(Edge &other, bool atEnd, bool reverse)
     if(boundingBoxValid_)
         this->boundingBox_ |= other.boundingBox();
 
-    if(scanLines_.get())
-    {
-        if(reverse) // FIXME: call other.scanLines() (might be NULL)
-            other.scanLines_->reverse();
-        (*scanLines_) += other.scanLines();
-    }
+    // the pixels crossed at the common end point depend on both parts
+    // => have the scanlines recomputed for the new geometry
+    scanLines_.reset();
 }
 
 /********************************************************************/
-- 
2.43.0


From ab498b2e58f7a1b38a550c2894f7575e7e2453ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:18 +0000
Subject: [PATCH 04/87] fix: splitEdge(): drop outdated scanlines also without
 label image

---
 src/geomap/cppmap.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geomap/cppmap.cxx b/src/geomap/cppmap.cxx
index 37e1309..2100749 100644
--- a/src/geomap/cppmap.cxx
+++ b/src/geomap/cppmap.cxx
@@ -1934,9 +1934,9 @@ GeoMap::EdgePtr GeoMap::splitEdge(
             changedNode.anchor_ = -(int)result->label();
     }
 
+    edge.scanLines_.reset();
     if(labelImage_)
     {
-        edge.scanLines_.reset();
         rawAddEdgeToLabelImage(edge.scanLines(), *labelImage_, -1);
         rawAddEdgeToLabelImage(result->scanLines(), *labelImage_, -1);
     }
-- 
2.43.0


From be0b852f9494eb821dcdfa40957a91f9c9c4efe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:07 +0000
Subject: [PATCH 05/87] fix: setHasLabelImage(): label nested faces and count
 pixels correctly

Faces were filled in label order, so that a face could overwrite the ones
in its holes, the infinite face's pixelArea() was accumulated over
repeated calls, and a failed call left a half-initialized label image.
---
 src/geomap/cppmap.cxx | 32 +++++++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/src/geomap/cppmap.cxx b/src/geomap/cppmap.cxx
index 2100749..d0dde01 100644
--- a/src/geomap/cppmap.cxx
+++ b/src/geomap/cppmap.cxx
@@ -976,6 +976,14 @@ typedef vigra::MultiArray<2, int> LabelImage;
 void markEdgeInLabelImage(
     const vigra::Scanlines &scanlines, LabelImage &labelImage);
 
+struct OuterContourAreaCompare
+{
+    bool operator()(GeoMap::FacePtr f1, GeoMap::FacePtr f2) const
+    {
+        return contourArea(f1->contour()) > contourArea(f2->contour());
+    }
+};
+
 void GeoMap::setHasLabelImage(bool onoff)
 {
     if(onoff == hasLabelImage())
@@ -985,22 +993,32 @@ void GeoMap::setHasLabelImage(bool onoff)
     {
         vigra_precondition(imageSize_.area() > 0,
                            "initLabelImage: imageSize must be non-zero!");
-        labelImage_ = new LabelImage(
-            LabelImage::size_type(imageSize().width(), imageSize().height()), 0);
+        std::auto_ptr<LabelImage> newLabelImage(new LabelImage(
+            LabelImage::size_type(imageSize().width(), imageSize().height()), 0));
         faceLabelLUT_.initIdentity(faces_.size());
 
+        // fill larger faces first, i.e. before the ones in their holes:
+        GeoMap::Faces sortedFaces;
         for(FaceIterator it = finiteFacesBegin(); it.inRange(); ++it)
+            sortedFaces.push_back(*it);
+        std::sort(sortedFaces.begin(), sortedFaces.end(),
+                  OuterContourAreaCompare());
+
+        for(unsigned int i = 0; i < sortedFaces.size(); ++i)
         {
             std::auto_ptr<vigra::Scanlines> scanlines =
-                (*it)->scanLines();
-            fillScannedPoly(*scanlines, (int)(*it)->label(),
-                            destMultiArrayRange(*labelImage_));
-            (*it)->pixelArea_ = 0;
+                sortedFaces[i]->scanLines();
+            fillScannedPoly(*scanlines, (int)sortedFaces[i]->label(),
+                            destMultiArrayRange(*newLabelImage));
         }
 
         for(EdgeIterator it = edgesBegin(); it.inRange(); ++it)
             markEdgeInLabelImage((*it)->scanLines(),
-                                 *labelImage_);
+                                 *newLabelImage);
+
+        for(FaceIterator it = facesBegin(); it.inRange(); ++it)
+            (*it)->pixelArea_ = 0;
+        labelImage_ = newLabelImage.release();
 
         // determine pixelArea_:
         for(GeoMap::LabelImage::traverser lrow = labelImage_->traverser_begin();
-- 
2.43.0


From 69931326bdc1b57add137b36315643ba7d93f413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:07 +0000
Subject: [PATCH 06/87] fix: ~GeoMap(): free label image

---
 src/geomap/cppmap.cxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/geomap/cppmap.cxx b/src/geomap/cppmap.cxx
index d0dde01..9805956 100644
--- a/src/geomap/cppmap.cxx
+++ b/src/geomap/cppmap.cxx
@@ -301,6 +301,7 @@ GeoMap::~GeoMap()
         (*it)->uninitialize();
     for(FaceIterator it = facesBegin(); it.inRange(); ++it)
         (*it)->uninitialize();
+    delete labelImage_;
 }
 
 GeoMap::FacePtr GeoMap::faceAt(const Vector2 &position)
-- 
2.43.0


From 12d9f1dfbedf58ea52d7a914409b38608461f5c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:07 +0000
Subject: [PATCH 07/87] fix: changeFaceLabels(): leave the labels alone if the
 mapping is rejected

---
 src/geomap/cppmap.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/geomap/cppmap.cxx b/src/geomap/cppmap.cxx
index 9805956..8ac7bb3 100644
--- a/src/geomap/cppmap.cxx
+++ b/src/geomap/cppmap.cxx
@@ -1249,9 +1249,10 @@ void GeoMap::changeFaceLabels(
             !newFaces[newFaceLabels[l]],
             "changeFaceLabels: trying to map multiple faces to the same label");
         newFaces[newFaceLabels[l]] = faces_[l];
-        faces_[l]->label_ = newFaceLabels[l];
     }
     std::swap(faces_, newFaces);
+    for(FaceIterator it = facesBegin(); it.inRange(); ++it)
+        (*it)->label_ = newFaceLabels[(*it)->label_];
 
     for(EdgeIterator it = edgesBegin(); it.inRange(); ++it)
     {
-- 
2.43.0


From 4482dcce3f6af9050d7bd7eba76413b1201a26bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:41 +0000
Subject: [PATCH 08/87] fix: refuse navigation from removed cells instead of
 using a dangling map

Node::degree(), hasDegree(), hasMinDegree(), Edge::dart() and
Face::boundingBox(), area() and scanLines() (if not cached) of cells that
have been removed accessed a map which may not exist anymore.
---
 src/geomap/cppmap.hxx | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/geomap/cppmap.hxx b/src/geomap/cppmap.hxx
index 337c426..26594cd 100644
--- a/src/geomap/cppmap.hxx
+++ b/src/geomap/cppmap.hxx
@@ -1151,6 +1151,8 @@ class GeoMap::Face : boost::noncopyable
 
         if(!flag(BOUNDING_BOX_VALID))
         {
+            vigra_precondition(initialized(),
+                               "boundingBox() of uninitialized face!");
             boundingBox_ = BoundingBox();
             Dart anchor(*anchors_.begin()), dart(anchor);
             do
@@ -1195,6 +1197,7 @@ class GeoMap::Face : boost::noncopyable
     {
         if(!flag(AREA_VALID))
         {
+            vigra_precondition(initialized(), "area() of uninitialized face!");
             area_ = 0.0;
             for(ContourIterator it = contoursBegin();
                 it != contoursEnd(); ++it)
@@ -1208,6 +1211,7 @@ class GeoMap::Face : boost::noncopyable
 
     std::auto_ptr<vigra::Scanlines> scanLines() const
     {
+        vigra_precondition(initialized(), "scanLines() of uninitialized face!");
         int startIndex = (int)floor(boundingBox().begin()[1] + 0.5);
         int endIndex = (int)floor(boundingBox_.end()[1] + 0.5);
 
@@ -1349,6 +1353,7 @@ inline unsigned int GeoMap::Node::degree() const
 {
     if(!anchor_)
         return 0;
+    vigra_precondition(initialized(), "degree() of uninitialized node!");
 
     int result = 0;
     GeoMap::Dart d(map_, anchor_);
@@ -1365,6 +1370,7 @@ inline bool GeoMap::Node::hasMinDegree(unsigned int minDegree) const
 {
     if(!anchor_)
         return minDegree == 0;
+    vigra_precondition(initialized(), "hasMinDegree() of uninitialized node!");
 
     if(!minDegree)
         return true;
@@ -1384,6 +1390,7 @@ inline bool GeoMap::Node::hasDegree(unsigned int exactDegree) const
 {
     if(!anchor_)
         return exactDegree == 0;
+    vigra_precondition(initialized(), "hasDegree() of uninitialized node!");
 
     if(!exactDegree)
         return false;
@@ -1400,6 +1407,7 @@ inline bool GeoMap::Node::hasDegree(unsigned int exactDegree) const
 
 inline GeoMap::Dart GeoMap::Edge::dart() const
 {
+    vigra_precondition(initialized(), "dart() of uninitialized edge!");
     return map_->dart(label());
 }
 
-- 
2.43.0


From 1bfc28b57543400cc46c4052f116664de6061fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:56 +0000
Subject: [PATCH 09/87] fix: removeBridges()/removeEdges(): no temporary flags
 on refused edges

Edges whose removal was refused by a callback kept the REMOVE_BRIDGE
flag (so that later calls removed them although they were not requested,
and mergeEdges was prevented by EdgeProtection), and a list containing
an edge twice led to accessing the front of an empty list.
---
 src/geomap/cppmap_utils.cxx | 18 +++++++-----------
 src/geomap/cppmap_utils.hxx |  3 ---
 2 files changed, 7 insertions(+), 14 deletions(-)

diff --git a/src/geomap/cppmap_utils.cxx b/src/geomap/cppmap_utils.cxx
index 06459f1..cf46252 100644
--- a/src/geomap/cppmap_utils.cxx
+++ b/src/geomap/cppmap_utils.cxx
@@ -27,6 +27,7 @@
 /************************************************************************/
 
 #include "cppmap_utils.hxx"
+#include <set>
 
 GeoMap::FacePtr mergeFacesCompletely(
     GeoMap::Dart &dart, bool mergeDegree2Nodes)
@@ -115,7 +116,8 @@ unsigned int removeBridges(GeoMap &map, std::list<CellLabel> &bridges)
 
     typedef std::list<CellLabel> Bridges;
 
-    unsigned int const UNREMOVABLE_BRIDGE = 0x80000;
+    std::set<CellLabel>
+        requested(bridges.begin(), bridges.end()), unremovable;
 
     while(bridges.size())
     {
@@ -140,7 +142,7 @@ unsigned int removeBridges(GeoMap &map, std::list<CellLabel> &bridges)
                 if(map.removeBridge(dart))
                     ++result;
                 else
-                    dart.edge()->setFlag(UNREMOVABLE_BRIDGE);
+                    unremovable.insert(dart.edgeLabel());
 
                 if(next.edgeLabel() == dart.edgeLabel())
                     break;
@@ -149,7 +151,7 @@ unsigned int removeBridges(GeoMap &map, std::list<CellLabel> &bridges)
                     break;
 
                 dart = next;
-                if(!dart.edge()->flag(GeoMap::Edge::REMOVE_BRIDGE))
+                if(!requested.count(dart.edgeLabel()))
                     break;
             }
         }
@@ -162,15 +164,12 @@ unsigned int removeBridges(GeoMap &map, std::list<CellLabel> &bridges)
             GeoMap::EdgePtr bridge = map.edge(*it);
             if(!bridge)
                 bridges.erase(it);
-            else if(bridge->flag(UNREMOVABLE_BRIDGE))
-            {
-                bridge->setFlag(UNREMOVABLE_BRIDGE, false); // clean up
+            else if(unremovable.count(*it))
                 bridges.erase(it);
-            }
         }
         while(next != bridges.end());
 
-        if(!degree1Found)
+        if(!degree1Found && bridges.size())
         {
             if(map.removeBridge(map.dart(bridges.front())))
                 ++result;
@@ -187,10 +186,7 @@ unsigned int removeBridges(GeoMap &map)
 
     for(GeoMap::EdgeIterator it = map.edgesBegin(); it.inRange(); ++it)
         if((*it)->isBridge())
-        {
-            (*it)->setFlag(GeoMap::Edge::REMOVE_BRIDGE);
             bridgeLabels.push_back((*it)->label());
-        }
 
     return removeBridges(map, bridgeLabels);
 }
diff --git a/src/geomap/cppmap_utils.hxx b/src/geomap/cppmap_utils.hxx
index d856d9e..707965a 100644
--- a/src/geomap/cppmap_utils.hxx
+++ b/src/geomap/cppmap_utils.hxx
@@ -127,10 +127,7 @@ unsigned int removeEdges(
         vigra_precondition(static_cast<bool>(edge), "removeEdges: illegal edge label");
 
         if(edge->isBridge())
-        {
-            edge->setFlag(GeoMap::Edge::REMOVE_BRIDGE);
             bridges.push_back(edge->label());
-        }
         else if(map.mergeFaces(edge->dart()))
             ++result;
     }
-- 
2.43.0


From a6cff6a8cdeacdc1dee808dcb50664bfcacc94c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:56 +0000
Subject: [PATCH 10/87] fix: EdgeProtection: detach callbacks on destruction

---
 src/geomap/cppmap_utils.hxx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/geomap/cppmap_utils.hxx b/src/geomap/cppmap_utils.hxx
index 707965a..9cfeff4 100644
--- a/src/geomap/cppmap_utils.hxx
+++ b/src/geomap/cppmap_utils.hxx
@@ -49,6 +49,11 @@ class EdgeProtection : boost::noncopyable
             attachHooks(map);
     }
 
+    ~EdgeProtection()
+    {
+        detachHooks();
+    }
+
     const boost::shared_ptr<GeoMap> map() const
     {
         return map_;
-- 
2.43.0


From 3dab46d48fb2427a0ed09fb7fe148071481890da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:29 +0000
Subject: [PATCH 11/87] fix: FaceColorStatistics: release supersampling
 information only once unused

postMergeFaces() accessed the array after releasing it when the last two
supersampled faces were merged, and associatePixels() did not release it.
---
 src/geomap/facestatistics.hxx | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/geomap/facestatistics.hxx b/src/geomap/facestatistics.hxx
index 5613333..883f4d0 100644
--- a/src/geomap/facestatistics.hxx
+++ b/src/geomap/facestatistics.hxx
@@ -230,17 +230,14 @@ class FaceColorStatistics
         if(superSampled_.get())
         {
             if((*superSampled_)[face.label()] && !mergedSS_)
-            {
-                if(!--superSampledCount_)
-                    superSampled_.reset();
-            }
+                --superSampledCount_;
             (*superSampled_)[face.label()] = mergedSS_;
 
             if((*superSampled_)[mergedLabel])
-            {
-                if(!--superSampledCount_)
-                    superSampled_.reset();
-            }
+                --superSampledCount_;
+
+            if(!superSampledCount_)
+                superSampled_.reset();
         }
 
         delete functors_[mergedLabel];
@@ -263,7 +260,8 @@ class FaceColorStatistics
            face.pixelArea() >= minSampleCount_)
         {
             (*superSampled_)[face.label()] = 0;
-            --superSampledCount_;
+            if(!--superSampledCount_)
+                superSampled_.reset();
 
             functors_[face.label()]->reset();
 
-- 
2.43.0


From cd23b37ec698c2b842b32ed0f86656128e06675a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:29 +0000
Subject: [PATCH 12/87] fix: FaceColorStatistics: detach callbacks on
 destruction, copy functors

The map's callbacks referred to the destroyed object, and the functors of
a copied object were shared and thus deleted twice.
---
 src/geomap/facestatistics.hxx | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/geomap/facestatistics.hxx b/src/geomap/facestatistics.hxx
index 883f4d0..8291f35 100644
--- a/src/geomap/facestatistics.hxx
+++ b/src/geomap/facestatistics.hxx
@@ -528,7 +528,7 @@ template<class OriginalImage>
 FaceColorStatistics<OriginalImage>::FaceColorStatistics(
     const FaceColorStatistics &other)
 : originalImage_(other.originalImage_),
-  functors_(other.functors_),
+  functors_(other.functors_.size(), NULL),
   minSampleCount_(other.minSampleCount_),
   superSampled_(other.superSampled_.get()
                 ? (new std::vector<unsigned char>(*other.superSampled_))
@@ -536,6 +536,9 @@ FaceColorStatistics<OriginalImage>::FaceColorStatistics(
   superSampledCount_(other.superSampledCount_),
   maxDiffNorm_(other.maxDiffNorm_)
 {
+    for(unsigned int i = 0; i < functors_.size(); ++i)
+        if(other.functors_[i])
+            functors_[i] = new Functor(*other.functors_[i]);
 }
 
 template<class OriginalImage>
@@ -589,6 +592,7 @@ void FaceColorStatistics<OriginalImage>::ensureMinSampleCount(
 template<class OriginalImage>
 FaceColorStatistics<OriginalImage>::~FaceColorStatistics()
 {
+    detachHooks();
     for(unsigned int i = 0; i < functors_.size(); ++i)
         delete functors_[i];
 }
-- 
2.43.0


From 19f7018176bb268a388321625e334dd8e6536a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:29 +0000
Subject: [PATCH 13/87] fix: mergeFaces(): keep outer contour first if the
 survivor was a hole

If the larger face lies in a hole of the face it is merged with, the
latter's outer contour became one of the hole contours of the result.
---
 src/geomap/cppmap.cxx | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/geomap/cppmap.cxx b/src/geomap/cppmap.cxx
index 8ac7bb3..0df0267 100644
--- a/src/geomap/cppmap.cxx
+++ b/src/geomap/cppmap.cxx
@@ -2115,17 +2115,22 @@ GeoMap::FacePtr GeoMap::mergeFaces(const GeoMap::Dart &dart)
         }
     }
 
-    // append all remaining anchors to survivor's list:
+    // add all remaining anchors to survivor's list (if contour2 is not
+    // mergedFace's outer contour, the latter becomes survivor's one and
+    // has to come first):
     if(mergedFace.anchors_.size() > 1)
     {
 #ifndef ANCHOR_LISTS // toggle according to anchors_ being std::vector/std::list
-        survivor.anchors_.insert(survivor.anchors_.end(),
+        survivor.anchors_.insert(survivor.anchors_.begin(),
                                  mergedFace.anchors_.begin(), contour2);
         survivor.anchors_.insert(survivor.anchors_.end(),
                                  ++contour2, mergedFace.anchors_.end());
 #else
+        Face::AnchorIterator insertPos(
+            contour2 == mergedFace.anchors_.begin()
+            ? survivor.anchors_.end() : survivor.anchors_.begin());
         mergedFace.anchors_.erase(contour2);
-        survivor.anchors_.splice(survivor.anchors_.end(), mergedFace.anchors_);
+        survivor.anchors_.splice(insertPos, mergedFace.anchors_);
 #endif
     }
 
-- 
2.43.0


From d7bfe5bd9f55420325f2087e1cf713106875901c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:29 +0000
Subject: [PATCH 14/87] fix: mergeFaces()/removeBridge(): stay consistent if a
 callback throws

An exception from a removeNode callback left the operation half-done
(removed darts in contours, edge and face still existing), and exceptions
from it or from post-operation callbacks lost the pixels of the removed
edge (wrong pixelArea()).
---
 src/geomap/cppmap.cxx | 55 +++++++++++++++++++++++++++++--------------
 1 file changed, 37 insertions(+), 18 deletions(-)

diff --git a/src/geomap/cppmap.cxx b/src/geomap/cppmap.cxx
index 0df0267..f5cf172 100644
--- a/src/geomap/cppmap.cxx
+++ b/src/geomap/cppmap.cxx
@@ -2005,20 +2005,13 @@ GeoMap::FacePtr GeoMap::removeBridge(const GeoMap::Dart &dart)
     // COMPLEXITY: depends on face anchors.erase/push_back, may be O(contour count)
     if(newAnchor1.edgeLabel() == dart.edgeLabel())
     {
-        removeIsolatedNode(*newAnchor1.startNode());
         if(newAnchor2.edgeLabel() == dart.edgeLabel())
-        {
-            removeIsolatedNode(*newAnchor2.startNode());
             face.anchors_.erase(contourPos);
-        }
         else
             *contourPos = newAnchor2;
     }
     else if(newAnchor2.edgeLabel() == dart.edgeLabel())
-    {
-        removeIsolatedNode(*newAnchor2.startNode());
         *contourPos = newAnchor1;
-    }
     else
     {
         if(contourPos == face.contoursBegin() && face.label())
@@ -2040,8 +2033,24 @@ GeoMap::FacePtr GeoMap::removeBridge(const GeoMap::Dart &dart)
 
     edge.uninitialize();
 
-    // COMPLEXITY: depends on callbacks (postRemoveBridgeHook)
-    postRemoveBridgeHook(face);
+    try
+    {
+        // remove singular nodes
+        if(node1.isIsolated())
+            removeIsolatedNode(node1);
+        if(node2.isIsolated())
+            removeIsolatedNode(node2);
+
+        // COMPLEXITY: depends on callbacks (postRemoveBridgeHook)
+        postRemoveBridgeHook(face);
+    }
+    catch(...)
+    {
+        // the bridge is gone, so its pixels do belong to the face
+        if(associatedPixels.size())
+            associatePixels(face, associatedPixels);
+        throw;
+    }
 
     // COMPLEXITY: depends on callbacks (associatePixelsHook)
     if(associatedPixels.size())
@@ -2155,13 +2164,9 @@ GeoMap::FacePtr GeoMap::mergeFaces(const GeoMap::Dart &dart)
     detachDart( removedDart.label());
     detachDart(-removedDart.label());
 
-    // remove singular nodes
-    if(node1.isIsolated())
-    {
-        vigra_assert(removedDart.endNodeLabel() == node1.label(),
-                     "mergeFaces can only create isolated nodes from self-loops");
-        removeIsolatedNode(node1);
-    }
+    vigra_assert(!node1.isIsolated() ||
+                 removedDart.endNodeLabel() == node1.label(),
+                 "mergeFaces can only create isolated nodes from self-loops");
 
     if(survivor.flag(GeoMap::Face::AREA_VALID))
         survivor.area_ += mergedFace.area();
@@ -2173,8 +2178,22 @@ GeoMap::FacePtr GeoMap::mergeFaces(const GeoMap::Dart &dart)
     mergedEdge.uninitialize();
     mergedFace.uninitialize();
 
-    // COMPLEXITY: depends on callbacks (postMergeFacesHook)
-    postMergeFacesHook(survivor);
+    try
+    {
+        // remove singular nodes
+        if(node1.isIsolated())
+            removeIsolatedNode(node1);
+
+        // COMPLEXITY: depends on callbacks (postMergeFacesHook)
+        postMergeFacesHook(survivor);
+    }
+    catch(...)
+    {
+        // the edge is gone, so its pixels do belong to the face
+        if(associatedPixels.size())
+            associatePixels(survivor, associatedPixels);
+        throw;
+    }
 
     // COMPLEXITY: depends on callbacks (associatePixelsHook)
     if(associatedPixels.size())
-- 
2.43.0


From ea0d5994be3ac0c67b0741898e57b6ad80aa3001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:09 +0000
Subject: [PATCH 15/87] fix: Node::setPosition(): invalidate cached properties
 of edges and faces

---
 src/geomap/cppmap.cxx | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/geomap/cppmap.cxx b/src/geomap/cppmap.cxx
index f5cf172..9f56d67 100644
--- a/src/geomap/cppmap.cxx
+++ b/src/geomap/cppmap.cxx
@@ -2217,15 +2217,13 @@ void GeoMap::Node::setPosition(const Vector2 &p)
         GeoMap::Dart d(map_, anchor_);
         do
         {
-            if(d.label() > 0)
-            {
-                (*map_->edge(d.label()))[ 0] = p;
-            }
-            else
-            {
-                GeoMap::Edge &edge(*map_->edge(-d.label()));
-                edge[edge.size()-1] = p;
-            }
+            GeoMap::Edge &edge(*d.edge());
+            edge.setPoint(d.label() > 0 ? 0 : edge.size()-1, p);
+            edge.scanLines_.reset();
+
+            if(map_->mapInitialized())
+                d.leftFace()->flags_ &= ~(GeoMap::Face::BOUNDING_BOX_VALID |
+                                          GeoMap::Face::AREA_VALID);
         }
         while(d.nextSigma().label() != anchor_);
     }
-- 
2.43.0


From 8319765ace1427399c285e28fbff7a27a2a5705d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:10 +0000
Subject: [PATCH 16/87] fix: FaceColorStatistics: merging two faces without
 samples is no NaN

---
 src/geomap/facestatistics.hxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/geomap/facestatistics.hxx b/src/geomap/facestatistics.hxx
index 8291f35..67e44b4 100644
--- a/src/geomap/facestatistics.hxx
+++ b/src/geomap/facestatistics.hxx
@@ -213,7 +213,8 @@ class FaceColorStatistics
         }
 
         merged_ = *functors_[dart.leftFaceLabel()];
-        merged_(*functors_[dart.rightFaceLabel()]);
+        if(functors_[dart.rightFaceLabel()]->count()) // (0/0 if both are empty)
+            merged_(*functors_[dart.rightFaceLabel()]);
         return true;
     }
 
-- 
2.43.0


From 7c7379e3ae055e493c8388f5010a06100f5d73d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:31:35 +0000
Subject: [PATCH 17/87] fix: node map: erase exactly the removed/moved node,
 not one at the same position

---
 src/geomap/cppmap.cxx      |  4 +---
 src/geomap/cppmap.hxx      |  4 +---
 src/geomap/vigra/map2d.hxx | 17 +++++++++++++++++
 3 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/geomap/cppmap.cxx b/src/geomap/cppmap.cxx
index 9f56d67..f519c5d 100644
--- a/src/geomap/cppmap.cxx
+++ b/src/geomap/cppmap.cxx
@@ -2207,9 +2207,7 @@ GeoMap::FacePtr GeoMap::mergeFaces(const GeoMap::Dart &dart)
 void GeoMap::Node::setPosition(const Vector2 &p)
 {
     vigra_precondition(initialized(), "setPosition() of uninitialized node!");
-    map_->nodeMap_.erase(
-        map_->nodeMap_.nearest(PositionedNodeLabel(position_, label_),
-                               vigra::NumericTraits<double>::epsilon()));
+    map_->nodeMap_.eraseObject(PositionedNodeLabel(position_, label_));
     position_ = p;
 
     if(!isIsolated())
diff --git a/src/geomap/cppmap.hxx b/src/geomap/cppmap.hxx
index 26594cd..5e36134 100644
--- a/src/geomap/cppmap.hxx
+++ b/src/geomap/cppmap.hxx
@@ -1320,9 +1320,7 @@ inline void GeoMap::Node::uninitialize()
     GeoMap *map = map_;
     map_ = NULL; // DON'T MESS WITH THIS!
     --map->nodeCount_;
-    map->nodeMap_.erase(
-        map->nodeMap_.nearest(PositionedNodeLabel(position_, label_),
-                              vigra::NumericTraits<double>::epsilon()));
+    map->nodeMap_.eraseObject(PositionedNodeLabel(position_, label_));
     RESET_PTR(map->nodes_[label_]); // may have effect like "delete this;"!
 }
 
diff --git a/src/geomap/vigra/map2d.hxx b/src/geomap/vigra/map2d.hxx
index 5e5397e..bb8f9af 100644
--- a/src/geomap/vigra/map2d.hxx
+++ b/src/geomap/vigra/map2d.hxx
@@ -81,6 +81,23 @@ public:
         vectors_.erase(it);
     }
 
+        // erases the object with the given position and payload (there
+        // may be other objects at the same position); assumes that
+        // Vector2D is a PositionedObject
+    void eraseObject(const Vector2D &object)
+    {
+        iterator it(vectors_.lower_bound(object[0])),
+            end(vectors_.upper_bound(object[0]));
+        for(; it != end; ++it)
+        {
+            if(it->second.payload == object.payload)
+            {
+                vectors_.erase(it);
+                return;
+            }
+        }
+    }
+
         // assumes that Vector2D(x, y) is a valid constructor:
     void insert(CoordType x, CoordType y)
     {
-- 
2.43.0


From 70a4b9307455cd9be5e173e01fd65aba43b7367b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:12:08 +0000
Subject: [PATCH 18/87] fix: ScanlinesIter: allow scanlines that do not cross
 any pixel

---
 src/geomap/polygon.hxx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/geomap/polygon.hxx b/src/geomap/polygon.hxx
index c6f1339..2859e62 100644
--- a/src/geomap/polygon.hxx
+++ b/src/geomap/polygon.hxx
@@ -1936,8 +1936,10 @@ class ScanlinesIter
         while(y < scanlines.endIndex() && !scanlines[y].size())
             ++y;
         if(y < scanlines.endIndex())
+        {
             x = scanlines[y][0].begin;
-        ensureValid();
+            ensureValid();
+        }
     }
 
     ScanlinesIter & operator++()
-- 
2.43.0


From 673bc2bbd22711f599e2ffacce9fd7f5679f5916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:12:08 +0000
Subject: [PATCH 19/87] fix: drawLabelImage(): label nested faces correctly,
 mark all edges

---
 src/geomap/cppmap_utils.hxx | 38 +++++++++++++++++++++++++++++++------
 1 file changed, 32 insertions(+), 6 deletions(-)

diff --git a/src/geomap/cppmap_utils.hxx b/src/geomap/cppmap_utils.hxx
index 9cfeff4..0ac4fa1 100644
--- a/src/geomap/cppmap_utils.hxx
+++ b/src/geomap/cppmap_utils.hxx
@@ -33,6 +33,7 @@
 #include "polygon.hxx"
 #include <boost/utility.hpp>
 #include <boost/bind.hpp>
+#include <algorithm>
 #include <vector>
 #include <list>
 
@@ -143,24 +144,49 @@ unsigned int removeEdges(
     return result;
 }
 
+namespace detail {
+
+struct DecreasingOuterContourArea
+{
+    bool operator()(const GeoMap::ConstFacePtr &f1,
+                    const GeoMap::ConstFacePtr &f2) const
+    {
+        return contourArea(*f1->contoursBegin()) >
+               contourArea(*f2->contoursBegin());
+    }
+};
+
+} // namespace detail
+
 template<class DestIterator, class SizeType, class DestAccessor>
 void drawLabelImage(const GeoMap &geomap,
                     DestIterator dul, SizeType ds, DestAccessor a,
                     bool negativeEdgeLabels = true)
 {
+    // fill larger faces first, i.e. before the ones in their holes:
+    std::vector<GeoMap::ConstFacePtr> sortedFaces;
     for(GeoMap::ConstFaceIterator
             it = geomap.finiteFacesBegin(); it.inRange(); ++it)
+        sortedFaces.push_back(*it);
+    std::sort(sortedFaces.begin(), sortedFaces.end(),
+              detail::DecreasingOuterContourArea());
+
+    for(unsigned int i = 0; i < sortedFaces.size(); ++i)
     {
         std::auto_ptr<vigra::Scanlines> scanlines =
-            (*it)->scanLines();
-        fillScannedPoly(*scanlines, (int)(*it)->label(),
+            sortedFaces[i]->scanLines();
+        fillScannedPoly(*scanlines, (int)sortedFaces[i]->label(),
                         dul, ds, a);
-        if(negativeEdgeLabels)
-            vigra::drawScannedPoly(*(*it)->scanLines(), -1,
-                                   dul, ds, a);
     }
 
-    if(!negativeEdgeLabels)
+    if(negativeEdgeLabels)
+    {
+        for(GeoMap::ConstEdgeIterator
+                it = geomap.edgesBegin(); it.inRange(); ++it)
+            vigra::drawScannedPoly((*it)->scanLines(), -1,
+                                   dul, ds, a);
+    }
+    else
     {
         vigra::Rect2D imageROI(vigra::Size2D(ds[0], ds[1]));
 
-- 
2.43.0


From ac6fb71d881ed7ce4a3b510d619168673ff6e3cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:15 +0000
Subject: [PATCH 20/87] fix: mergeEdges(): leave contour anchors alone if an
 observer objects

---
 src/geomap/cppmap.cxx | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/geomap/cppmap.cxx b/src/geomap/cppmap.cxx
index f519c5d..a086782 100644
--- a/src/geomap/cppmap.cxx
+++ b/src/geomap/cppmap.cxx
@@ -1808,6 +1808,11 @@ GeoMap::EdgePtr GeoMap::mergeEdges(const GeoMap::Dart &dart)
     GeoMap::Node &mergedNode(*d2.startNode());
     GeoMap::Edge &mergedEdge(*d2.edge());
 
+    if(!preMergeEdgesHook(d1))
+        return NULL_PTR(GeoMap::Edge);
+    if(!removeNodeHook(mergedNode))
+        return NULL_PTR(GeoMap::Edge);
+
     if(mapInitialized())
     {
         GeoMap::Face *faces[2];
@@ -1828,11 +1833,6 @@ GeoMap::EdgePtr GeoMap::mergeEdges(const GeoMap::Dart &dart)
         }
     }
 
-    if(!preMergeEdgesHook(d1))
-        return NULL_PTR(GeoMap::Edge);
-    if(!removeNodeHook(mergedNode))
-        return NULL_PTR(GeoMap::Edge);
-
     if(labelImage_)
     {
         rawAddEdgeToLabelImage(mergedEdge.scanLines(), *labelImage_, 1);
-- 
2.43.0


From b27d76cd0b3c60ff10854b5f51380a92653c0a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:35 +0000
Subject: [PATCH 21/87] fix: CellPyramid: undo failed operations completely

When an operation failed, the handler called cutAbove(), which refused to
work because the history already contained the failed operation: the caller
got an unrelated exception and the operation stayed in the history.  An
operation that failed half-way (e.g. in a statistics hook) furthermore left
its effects in the top level.
---
 src/cellimage/cellpyramid.hxx | 44 ++++++++++++++++++-----------------
 1 file changed, 23 insertions(+), 21 deletions(-)

diff --git a/src/cellimage/cellpyramid.hxx b/src/cellimage/cellpyramid.hxx
index 57db2a0..40643a4 100644
--- a/src/cellimage/cellpyramid.hxx
+++ b/src/cellimage/cellpyramid.hxx
@@ -313,39 +313,41 @@ class CellPyramid
 //             "addAndPerformOperation(): topLevel_ is not the top level anymore");
 
         CellInfo *result = NULL;
-        if(!composing_)
+        History &opList(composing_ ? *history_.back().opList : history_);
+        const unsigned int opCount = opList.size();
+        const unsigned int levelIndex = topLevel_.index();
+        try
         {
-            try
+            opList.push_back(Operation(t, p));
+            result = &topLevel_.performOperation(opList.back());
+            if(!composing_)
             {
-                history_.push_back(Operation(t, p));
-                result = &topLevel_.performOperation(history_.back());
                 ++topLevel_.index_;
                 if(topLevel_.subIndex_ >= nextCheckpointLevelIndex_)
                     storeCheckpoint(topLevel_);
             }
-            catch(...)
-            {
-                cutAbove(topLevel_.index());
-                throw;
-            }
         }
-        else
+        catch(...)
         {
-            History &opList(*history_.back().opList);
-            try
-            {
-                opList.push_back(Operation(t, p));
-                result = &topLevel_.performOperation(opList.back());
-            }
-            catch(...)
-            {
-                opList.pop_back();
-                throw;
-            }
+            opList.erase(opList.begin() + opCount, opList.end());
+            restoreTopLevel(levelIndex);
+            throw;
         }
         return *result;
     }
 
+        // called after an operation failed (possibly half-way) in
+        // order to return to the state before that operation
+    void restoreTopLevel(unsigned int levelIndex)
+    {
+        typename CheckpointMap::const_iterator lastCheckpointIt =
+            checkpoints_.upper_bound(levelIndex);
+        topLevel_ = (--lastCheckpointIt)->second;
+        topLevel_.gotoLevel(levelIndex);
+        if(composing_)
+            topLevel_.performOperation(history_.back());
+    }
+
         // called after adjusting topLevel_ to remove levels above
     void cutApex()
     {
-- 
2.43.0


From 9b1526dd1c731c8413d31d01386607f9b87ae0b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:35 +0000
Subject: [PATCH 22/87] fix: CellPyramid::changeIntoComposite(): reopen the
 last level

The index of the top level was not decremented, so that endComposite() made
it one too large (cutAbove() refused to work from then on), and a checkpoint
that had already been stored for the last level lacked the operations added
afterwards.
---
 src/cellimage/cellpyramid.hxx | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/cellimage/cellpyramid.hxx b/src/cellimage/cellpyramid.hxx
index 40643a4..0e0fa70 100644
--- a/src/cellimage/cellpyramid.hxx
+++ b/src/cellimage/cellpyramid.hxx
@@ -436,10 +436,17 @@ class CellPyramid
     {
         if(!composing_)
         {
+            vigra_precondition(!history_.empty(),
+                "changeIntoComposite(): there is no operation to be changed");
             Operation &last(history_.back());
             Operation tmp(last);         // copy old
             last = Operation();          // create composite
             last.opList->push_back(tmp); // and re-fill with old
+
+            // the last level is not finished anymore
+            --topLevel_.index_;
+            checkpoints_.erase(checkpoints_.upper_bound(topLevel_.index()),
+                               checkpoints_.end());
         }
         ++composing_;
     }
-- 
2.43.0


From 916e5e503f440aabbafe94d50e948e78e44171a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:35 +0000
Subject: [PATCH 23/87] fix: CellPyramid: check level indices, allow empty
 composites

Level::gotoLevel() and approachLevel() read beyond the end of the history
for invalid indices; performing an empty composite operation dereferenced a
null pointer.
---
 src/cellimage/cellpyramid.hxx | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/cellimage/cellpyramid.hxx b/src/cellimage/cellpyramid.hxx
index 0e0fa70..3f889f9 100644
--- a/src/cellimage/cellpyramid.hxx
+++ b/src/cellimage/cellpyramid.hxx
@@ -131,6 +131,9 @@ class CellPyramid
              */
         bool approachLevel(unsigned int gotoLevelIndex, unsigned int maxSteps = 20)
         {
+            vigra_precondition(gotoLevelIndex < pyramid_->levelCount(),
+                "approachLevel(): invalid level index given");
+
             unsigned int step =
                 gotoLastCheckpointBefore(gotoLevelIndex) ? 1 : 0;
 
@@ -145,6 +148,9 @@ class CellPyramid
 
         void gotoLevel(unsigned int gotoLevelIndex)
         {
+            vigra_precondition(gotoLevelIndex < pyramid_->levelCount(),
+                "gotoLevel(): invalid level index given");
+
             gotoLastCheckpointBefore(gotoLevelIndex);
 
             while(index_ < gotoLevelIndex)
@@ -226,7 +232,7 @@ class CellPyramid
         {
             if(op.type == Composite)
             {
-                CellInfo *result = NULL;
+                CellInfo *result = &segmentation_.face(0);
                 for(typename History::iterator it = op.opList->begin();
                     it != op.opList->end(); ++it)
                     result = &performOperation(*it);
-- 
2.43.0


From d031b39de5dba8845f58fb5c67b9467b83a025ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:04 +0000
Subject: [PATCH 24/87] fix: cellimage: reject singular darts in mergeFaces()
 and mergeEdges()

The label of a face was used as index into the list of edges, which crashed
before the preconditions could be checked.
---
 src/cellimage/cellstatistics.hxx        | 4 ++++
 src/cellimage/foureightsegmentation.cxx | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/cellimage/cellstatistics.hxx b/src/cellimage/cellstatistics.hxx
index 148ed2a..a1efbfe 100644
--- a/src/cellimage/cellstatistics.hxx
+++ b/src/cellimage/cellstatistics.hxx
@@ -287,6 +287,8 @@ inline void CellStatistics::postRemoveIsolatedNode(
 
 inline void CellStatistics::preRemoveEdge(const Segmentation::DartTraverser &dart)
 {
+    vigra_precondition(!dart.isSingular(),
+                       "preRemoveEdge: dart does not point to any edge");
     tempFaceStatistics_ = faceStatistics_[dart.leftFaceLabel()];
     inspectCell(dart.segmentation()->edgeScanIterator
                 (dart.edgeLabel(), segmentationData->preparedOriginal_.upperLeft()),
@@ -335,6 +337,8 @@ inline void CellStatistics::postMergeFaces(Segmentation::FaceInfo &face)
 
 inline void CellStatistics::preMergeEdges(const Segmentation::DartTraverser &dart)
 {
+    vigra_precondition(!dart.isSingular(),
+                       "preMergeEdges: dart does not point to any edge");
     Segmentation::DartTraverser d(dart);
     d.nextSigma();
     edge1Label_ = dart.edgeLabel();
diff --git a/src/cellimage/foureightsegmentation.cxx b/src/cellimage/foureightsegmentation.cxx
index d89924f..dbab6c8 100644
--- a/src/cellimage/foureightsegmentation.cxx
+++ b/src/cellimage/foureightsegmentation.cxx
@@ -237,6 +237,8 @@ GeoMap::FaceInfo &GeoMap::mergeFaces(const DartTraverser & dart)
 {
     //std::cerr << "mergeFaces(" << dart << ")\n";
     validateDart(dart);
+    vigra_precondition(!dart.isSingular(),
+                       "mergeFaces: dart does not point to any edge");
     // merge smaller face into larger one:
     DartTraverser removedDart = dart;
     if(dart.leftFace().bounds.area() < dart.rightFace().bounds.area())
@@ -387,6 +389,8 @@ GeoMap::EdgeInfo &GeoMap::mergeEdges(const DartTraverser & dart)
     //std::cerr << "mergeEdges(" << dart << ")\n";
     // merge smaller edge (mergedEdge) into larger one (survivor):
     validateDart(dart);
+    vigra_precondition(!dart.isSingular(),
+                       "mergeEdges: dart does not point to any edge");
     DartTraverser dart1(dart);
     dart1.nextSigma();
     bool firstIsSmaller =
-- 
2.43.0


From c90f4200a007f5780df24872b792ae3c78e9226f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:28 +0000
Subject: [PATCH 25/87] fix: cellimage: update cell sizes when rethinning
 relocates pixels

---
 src/cellimage/cellstatistics.hxx | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/cellimage/cellstatistics.hxx b/src/cellimage/cellstatistics.hxx
index a1efbfe..0e8b526 100644
--- a/src/cellimage/cellstatistics.hxx
+++ b/src/cellimage/cellstatistics.hxx
@@ -369,7 +369,7 @@ inline void CellStatistics::preMergeEdges(const Segmentation::DartTraverser &dar
 }
 
 // basically, relabels like "*pixel = newCell;"
-// additionally, updates bounding boxes of old and new pixel owners
+// additionally, updates bounding boxes and sizes of old and new pixel owners
 inline void
 reassociate(vigra::cellimage::GeoMap &geoMap,
             const vigra::cellimage::CellImage::traverser pixel,
@@ -394,6 +394,7 @@ reassociate(vigra::cellimage::GeoMap &geoMap,
 
     // relabel pixel
     *pixel = newCell;
+    --oldCI.size;
 
     // now, check if the pixel was on one of the four sides of the
     // bounding box, and if so, scan that row/column and possibly
@@ -457,12 +458,14 @@ reassociate(vigra::cellimage::GeoMap &geoMap,
 
     // add pixel pos to bounding box of new cell
 
-    (newCell.type() == CellTypeLine ?
-     (GeoMap::CellInfo &)geoMap.edge(newCell.label()) : (
-         newCell.type() == CellTypeVertex ?
-         (GeoMap::CellInfo &)geoMap.node(newCell.label()) :
-         (GeoMap::CellInfo &)geoMap.face(newCell.label())))
-                     .bounds |= pos;
+    GeoMap::CellInfo &newCI(
+        newCell.type() == CellTypeLine ?
+        (GeoMap::CellInfo &)geoMap.edge(newCell.label()) : (
+            newCell.type() == CellTypeVertex ?
+            (GeoMap::CellInfo &)geoMap.node(newCell.label()) :
+            (GeoMap::CellInfo &)geoMap.face(newCell.label())));
+    newCI.bounds |= pos;
+    ++newCI.size;
 }
 
 inline void CellStatistics::postMergeEdges(Segmentation::EdgeInfo &edge)
-- 
2.43.0


From fcabcca7461d74b107c663a9d8ce18abb6603028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:40 +0000
Subject: [PATCH 26/87] fix: cellimage: do not relocate edge pixels that
 connect other pixels

Bridges are not thinned, so after mergeEdges() a former node pixel could be
relocated although the remaining edge was connected only through it.
---
 src/cellimage/cellstatistics.hxx | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/cellimage/cellstatistics.hxx b/src/cellimage/cellstatistics.hxx
index 0e8b526..e7a37d7 100644
--- a/src/cellimage/cellstatistics.hxx
+++ b/src/cellimage/cellstatistics.hxx
@@ -525,6 +525,16 @@ inline void CellStatistics::postMergeEdges(Segmentation::EdgeInfo &edge)
                 if(cellImageCirc.center()->type() != vigra::cellimage::CellTypeLine)
                     continue;
 
+                // pixels of edges that are not thin (edgeRethinning()
+                // does not handle bridges) may not be relocated,
+                // other pixels could be connected only through them
+                unsigned int contourNeighbors = 0;
+                for(int i = 0; i < 8; ++i)
+                    if(cellImageCirc[i].type() != vigra::cellimage::CellTypeRegion)
+                        ++contourNeighbors;
+                if(contourNeighbors != 2)
+                    continue;
+
                 GradientImage::traverser gradient(
                     segmentationData->gradientMagnitude_.upperLeft() + (*it));
                 GradientImage::value_type gradientValue(*gradient);
-- 
2.43.0


From 00762c662c424e388e8a153b1e49f96465349b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:40 +0000
Subject: [PATCH 27/87] fix: edgeRethinning(): handle edges of the outer face

The outer face has label 0, which is also used for pixels that still have to
be assigned to a face, so the whole edge was assigned to the other face.
---
 src/cellimage/cellstatistics.cxx | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/cellimage/cellstatistics.cxx b/src/cellimage/cellstatistics.cxx
index 19e638c..0a0132d 100644
--- a/src/cellimage/cellstatistics.cxx
+++ b/src/cellimage/cellstatistics.cxx
@@ -279,7 +279,8 @@ struct FetchRegionsFunctor
         // make sure other nodes and edges will survive:
         if(p.type() != vigra::cellimage::CellTypeRegion)
             return vigra::SRGWatershedLabel;
-        return p.label();
+        // zero means "not labeled yet", but is the label of the outer face:
+        return p.label() + 1;
     }
 };
 
@@ -418,13 +419,13 @@ void edgeRethinning(vigra::cellimage::GeoMap &seg,
                 }
 
                 --edge.size;
-                if(*newLabel == (int)face1Label)
+                if(*newLabel == (int)face1Label + 1)
                 {
                     face1.bounds |= pos;
                     ++face1.size;
                     *cell = face1Pixel;
                 }
-                else if(*newLabel == (int)face2Label)
+                else if(*newLabel == (int)face2Label + 1)
                 {
                     face2.bounds |= pos;
                     ++face2.size;
-- 
2.43.0


From db69de9d21e4e070a523ebc1e28ef418715af7ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:32 +0000
Subject: [PATCH 28/87] fix: edgeRethinning(): keep the pixels at the ends of
 the edge

Darts (edge ends, node and contour anchors) point to these pixels; they were
left dangling when the watershed algorithm assigned such a pixel to a face.
---
 src/cellimage/cellstatistics.cxx | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/cellimage/cellstatistics.cxx b/src/cellimage/cellstatistics.cxx
index 0a0132d..12ce304 100644
--- a/src/cellimage/cellstatistics.cxx
+++ b/src/cellimage/cellstatistics.cxx
@@ -396,6 +396,10 @@ void edgeRethinning(vigra::cellimage::GeoMap &seg,
     typedef vigra::cellimage::CellImage::traverser
         CellTraverser;
 
+    // the first pixels at both ends must stay, darts point to them
+    const CellTraverser startPixel(edge.start.neighborCirculator().base());
+    const CellTraverser endPixel(edge.end.neighborCirculator().base());
+
     // collect new edge properties on the fly
     edge.bounds = vigra::Rect2D();
 
@@ -412,7 +416,7 @@ void edgeRethinning(vigra::cellimage::GeoMap &seg,
         {
             if(*cell == edgePixel)
             {
-                if(*newLabel == 0)
+                if(*newLabel == 0 || cell == startPixel || cell == endPixel)
                 {
                     edge.bounds |= pos;
                     continue;
-- 
2.43.0


From 478609b625ccbbb9d5c1d0215f97473113933882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:23:25 +0000
Subject: [PATCH 29/87] fix: CellStatistics: add the pixels of removed isolated
 nodes to the face

---
 src/cellimage/cellstatistics.hxx | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/cellimage/cellstatistics.hxx b/src/cellimage/cellstatistics.hxx
index e7a37d7..d854e65 100644
--- a/src/cellimage/cellstatistics.hxx
+++ b/src/cellimage/cellstatistics.hxx
@@ -276,12 +276,18 @@ void edgeRethinning(vigra::cellimage::GeoMap &seg,
 /********************************************************************/
 
 inline void CellStatistics::preRemoveIsolatedNode(
-    const Segmentation::DartTraverser &)
-{}
+    const Segmentation::DartTraverser &dart)
+{
+    tempFaceStatistics_ = faceStatistics_[dart.leftFaceLabel()];
+    inspectCell(dart.segmentation()->nodeScanIterator
+                (dart.startNodeLabel(), segmentationData->preparedOriginal_.upperLeft()),
+                tempFaceStatistics_);
+}
 
 inline void CellStatistics::postRemoveIsolatedNode(
     Segmentation::FaceInfo &face)
 {
+    faceStatistics_[face.label] = tempFaceStatistics_;
     lastChanges_ |= face.bounds;
 }
 
-- 
2.43.0


From 872d2b59e85970e6c7cd36a207fe67ae44fa0346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:59 +0000
Subject: [PATCH 30/87] fix: pickling a map without edges accessed a contour
 the infinite face does not have

---
 src/python_bindings/cppmapmodule.cxx | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/python_bindings/cppmapmodule.cxx b/src/python_bindings/cppmapmodule.cxx
index 84608fa..7f30f0a 100644
--- a/src/python_bindings/cppmapmodule.cxx
+++ b/src/python_bindings/cppmapmodule.cxx
@@ -651,7 +651,10 @@ struct GeoMapPickleSuite : bp::pickle_suite
         for(GeoMap::FaceIterator it = map.facesBegin(); it.inRange(); ++it)
         {
             faceFlags.append((*it)->flags() & ~0xf0000000U);
-            faceAnchors.append((*it)->contour().label());
+            // (the infinite face of a map without edges has no contours)
+            faceAnchors.append(
+                (*it)->contoursBegin() != (*it)->contoursEnd() ?
+                (*it)->contour().label() : 0);
             faceLabels.append((*it)->label());
         }
 
@@ -702,12 +705,13 @@ struct GeoMapPickleSuite : bp::pickle_suite
         std::vector<CellLabel> newFaceLabels(map.maxFaceLabel());
         for(i = 0; i < map.faceCount(); ++i)
         {
-            GeoMap::Dart anchor =
-                map.dart(bp::extract<int>(faceAnchors[i])());
-            anchor.leftFace()->setFlag(
+            int anchorLabel = bp::extract<int>(faceAnchors[i])();
+            GeoMap::FacePtr face = anchorLabel
+                ? map.dart(anchorLabel).leftFace() : map.face(0);
+            face->setFlag(
                 bp::extract<CellFlags>(faceFlags[i])() & ~(CellFlags)0xf0000000);
             if(hasLabels)
-                newFaceLabels[anchor.leftFaceLabel()] =
+                newFaceLabels[face->label()] =
                     bp::extract<CellLabel>(faceLabels[i])();
         }
 
-- 
2.43.0


From 652cab2904a70c1f680235cb89fcb483c6686056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:59 +0000
Subject: [PATCH 31/87] fix: copyMap failed for maps without edges

---
 python/maputils/maputils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/maputils/maputils.py b/python/maputils/maputils.py
index 35162c6..0f84a1f 100644
--- a/python/maputils/maputils.py
+++ b/python/maputils/maputils.py
@@ -918,6 +918,10 @@ def copyMap(sourceMap, edgeTransform = None):
 
     # transfer Face flags using 'em':
     for face in sourceMap.faceIter():
+        if not sourceMap.edgeCount:
+            # the (infinite) face has no contours
+            result.face(0).setFlag(face.flags() & 0x0fffffff)
+            break
         anchor = face.contour()
         newAnchor = em[abs(anchor.label())].dart()
         if anchor.label() < 0:
-- 
2.43.0


From cb1261cf8d1b4b06a38b336d4151b5b006284b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:53 +0000
Subject: [PATCH 32/87] fix: pickling a map kept the highest face label, but
 not the highest node and edge labels

---
 src/geomap/cppmap.cxx                | 10 ++++++++++
 src/geomap/cppmap.hxx                |  3 +++
 src/python_bindings/cppmapmodule.cxx |  9 ++++++++-
 3 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/geomap/cppmap.cxx b/src/geomap/cppmap.cxx
index a086782..368427c 100644
--- a/src/geomap/cppmap.cxx
+++ b/src/geomap/cppmap.cxx
@@ -1287,6 +1287,16 @@ void GeoMap::resizeSigmaMapping(SigmaMapping::size_type newSize)
     sigmaInverseMapping_ = sigmaInverseMappingArray_.begin() + newSize/2;
 }
 
+void GeoMap::reserveLabels(CellLabel maxNodeLabel, CellLabel maxEdgeLabel)
+{
+    if(nodes_.size() < maxNodeLabel)
+        nodes_.resize(maxNodeLabel, NULL_PTR(GeoMap::Node));
+    while(sigmaMappingArray_.size() + 1 < 2*maxEdgeLabel)
+        resizeSigmaMapping(2*sigmaMappingArray_.size()-1);
+    if(edges_.size() < maxEdgeLabel)
+        edges_.resize(maxEdgeLabel, NULL_PTR(GeoMap::Edge));
+}
+
 void GeoMap::insertSigmaPredecessor(int successor, int newPredecessor)
 {
     while(sigmaMappingArray_.size() < 2*(unsigned)abs(newPredecessor)+1)
diff --git a/src/geomap/cppmap.hxx b/src/geomap/cppmap.hxx
index 5e36134..edf6a0a 100644
--- a/src/geomap/cppmap.hxx
+++ b/src/geomap/cppmap.hxx
@@ -357,6 +357,9 @@ class GeoMap
     void changeFaceLabels(const std::vector<CellLabel> &newFaceLabels,
                           CellLabel maxFaceLabel);
 
+        // make sure that new nodes/edges get at least these labels:
+    void reserveLabels(CellLabel maxNodeLabel, CellLabel maxEdgeLabel);
+
   protected:
     void initContours();
     void embedFaces(bool initLabelImage);
diff --git a/src/python_bindings/cppmapmodule.cxx b/src/python_bindings/cppmapmodule.cxx
index 7f30f0a..3bb7d81 100644
--- a/src/python_bindings/cppmapmodule.cxx
+++ b/src/python_bindings/cppmapmodule.cxx
@@ -664,7 +664,9 @@ struct GeoMapPickleSuite : bp::pickle_suite
             map.mapInitialized(),
             map.hasLabelImage(),
             edgeFlags,
-            faceFlags, faceAnchors, make_tuple(faceLabels, map.maxFaceLabel()),
+            faceFlags, faceAnchors, make_tuple(
+                faceLabels, map.maxFaceLabel(),
+                map.maxNodeLabel(), map.maxEdgeLabel()),
             pyMap.attr("__dict__"));
     }
 
@@ -718,6 +720,11 @@ struct GeoMapPickleSuite : bp::pickle_suite
         if(mapInitialized && hasLabels)
             map.changeFaceLabels(newFaceLabels, newMaxFaceLabel);
 
+        // don't re-use the labels of cells removed before pickling:
+        if(hasLabels && len(state[7]) > 3)
+            map.reserveLabels(bp::extract<CellLabel>(state[7][2])(),
+                              bp::extract<CellLabel>(state[7][3])());
+
         bp::extract<bp::dict>(pyMap.attr("__dict__"))().update(__dict__);
     }
 };
-- 
2.43.0


From 6bceb24d7dc45b15466ffa39e97c3f1f3a4e76fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:01 +0000
Subject: [PATCH 33/87] fix: copyMapContents changed the order of edges around
 nodes when loops enclose other edges

---
 python/maputils/maputils.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/python/maputils/maputils.py b/python/maputils/maputils.py
index 0f84a1f..1af1a57 100644
--- a/python/maputils/maputils.py
+++ b/python/maputils/maputils.py
@@ -836,6 +836,7 @@ def copyMapContents(sourceMap, destMap = None, edgeTransform = None):
     # for better edgeTransform support, nodes are added on-the-fly now
 
     edges = [None] * sourceMap.maxEdgeLabel()
+    foundLoops = False
     for edge in sourceMap.edgeIter():
         geometry = edge
         if edgeTransform:
@@ -884,6 +885,26 @@ def copyMapContents(sourceMap, destMap = None, edgeTransform = None):
         newEdge = destMap.addEdge(startNeighbor, endNeighbor, geometry)
         newEdge.setFlag(edge.flags()) # retain Edge flags
         edges[edge.label()] = newEdge
+        if edge.isLoop():
+            foundLoops = True
+
+    if foundLoops and sourceMap.edgesSorted():
+        # addEdge() assumes that loops do not enclose the other edges
+        # of their node, so explicitly copy the sigma orbits:
+        sigmaMapping = destMap.sigmaMapping()
+        center = len(sigmaMapping) // 2
+        for node in sourceMap.nodeIter():
+            if node.isIsolated():
+                continue
+            orbit = []
+            for dart in node.anchor().sigmaOrbit():
+                newEdge = edges[dart.edgeLabel()]
+                if newEdge is not None:
+                    orbit.append(dart.label() > 0 and newEdge.label()
+                                 or -newEdge.label())
+            for i in range(len(orbit)):
+                sigmaMapping[center + orbit[i-1]] = orbit[i]
+        destMap.setSigmaMapping(sigmaMapping, destMap.edgesSorted())
 
     # now add isolated nodes:
     for node in sourceMap.nodeIter():
-- 
2.43.0


From 547c15dd17cab7e14ea5f2b696c2c34a6dc76eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:28:45 +0000
Subject: [PATCH 34/87] fix: cells and darts kept by Python callbacks became
 dangling references

---
 src/python_bindings/cppmapmodule.cxx | 29 ++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/src/python_bindings/cppmapmodule.cxx b/src/python_bindings/cppmapmodule.cxx
index 3bb7d81..7886378 100644
--- a/src/python_bindings/cppmapmodule.cxx
+++ b/src/python_bindings/cppmapmodule.cxx
@@ -197,6 +197,15 @@ struct RangeIterAdapter
 
 /********************************************************************/
 
+// Callbacks may keep the cells they are called with, so pass them the
+// same (smart) pointers that the corresponding GeoMap methods return:
+inline GeoMap::NodePtr cellPtr(const GeoMap::Node &node)
+    { return node.map()->node(node.label()); }
+inline GeoMap::EdgePtr cellPtr(const GeoMap::Edge &edge)
+    { return edge.map()->edge(edge.label()); }
+inline GeoMap::FacePtr cellPtr(const GeoMap::Face &face)
+    { return face.map()->face(face.label()); }
+
 class SimpleCallback
 {
   public:
@@ -235,7 +244,7 @@ class RemoveNodeCallback : public SimpleCallback
 
     bool operator()(GeoMap::Node &node)
     {
-        return bp::extract<bool>(callback_(boost::ref(node)))();
+        return bp::extract<bool>(callback_(cellPtr(node)))();
     }
 
   protected:
@@ -264,12 +273,12 @@ class MergeEdgesCallbacks : public SimpleCallback
     bool preMergeEdges(const GeoMap::Dart &dart)
     {
         return bp::extract<bool>(
-            preOpCallback_(boost::ref(dart)))();
+            preOpCallback_(dart))();
     }
 
     void postMergeEdges(GeoMap::Edge &edge)
     {
-        postOpCallback_(boost::ref(edge));
+        postOpCallback_(cellPtr(edge));
     }
 
   protected:
@@ -298,13 +307,13 @@ class SplitEdgeCallbacks : public SimpleCallback
     void preSplitEdge(GeoMap::Edge &edge, unsigned int segmentIndex,
                       Vector2 const &newPoint, bool insertPoint)
     {
-        preOpCallback_(boost::ref(edge), segmentIndex,
+        preOpCallback_(cellPtr(edge), segmentIndex,
                        insertPoint ? bp::object(newPoint) : bp::object());
     }
 
     void postSplitEdge(GeoMap::Edge &edge, GeoMap::Edge &newEdge)
     {
-        postOpCallback_(boost::ref(edge), boost::ref(newEdge));
+        postOpCallback_(cellPtr(edge), cellPtr(newEdge));
     }
 
   protected:
@@ -333,12 +342,12 @@ class RemoveBridgeCallbacks : public SimpleCallback
     bool preRemoveBridge(const GeoMap::Dart &dart)
     {
         return bp::extract<bool>(
-            preOpCallback_(boost::ref(dart)))();
+            preOpCallback_(dart))();
     }
 
     void postRemoveBridge(GeoMap::Face &face)
     {
-        postOpCallback_(boost::ref(face));
+        postOpCallback_(cellPtr(face));
     }
 
   protected:
@@ -367,12 +376,12 @@ class MergeFacesCallbacks : public SimpleCallback
     bool preMergeFaces(const GeoMap::Dart &dart)
     {
         return bp::extract<bool>(
-            preOpCallback_(boost::ref(dart)))();
+            preOpCallback_(dart))();
     }
 
     void postMergeFaces(GeoMap::Face &face)
     {
-        postOpCallback_(boost::ref(face));
+        postOpCallback_(cellPtr(face));
     }
 
   protected:
@@ -392,7 +401,7 @@ class AssociatePixelsCallback : public SimpleCallback
 
     void operator()(const GeoMap::Face &face, const PixelList &pixels)
     {
-        callback_(boost::ref(face), pixels);
+        callback_(cellPtr(face), pixels);
     }
 
   protected:
-- 
2.43.0


From 497f58701766bb709c87de8e61279c6f7b02024a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:52 +0000
Subject: [PATCH 35/87] fix: an exception raised by a callback got lost when
 pixels were associated afterwards

---
 src/python_bindings/cppmapmodule.cxx | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/python_bindings/cppmapmodule.cxx b/src/python_bindings/cppmapmodule.cxx
index 7886378..953edf8 100644
--- a/src/python_bindings/cppmapmodule.cxx
+++ b/src/python_bindings/cppmapmodule.cxx
@@ -401,7 +401,23 @@ class AssociatePixelsCallback : public SimpleCallback
 
     void operator()(const GeoMap::Face &face, const PixelList &pixels)
     {
-        callback_(cellPtr(face), pixels);
+        // This may be called while an exception raised by another
+        // callback is pending, which must neither be visible here
+        // nor get lost:
+        PyObject *type, *value, *traceback;
+        PyErr_Fetch(&type, &value, &traceback);
+        try
+        {
+            callback_(cellPtr(face), pixels);
+        }
+        catch(bp::error_already_set const &)
+        {
+            if(!type)
+                throw;
+            PyErr_Clear();
+        }
+        if(type)
+            PyErr_Restore(type, value, traceback);
     }
 
   protected:
-- 
2.43.0


From 1c6f7c092076fd94dff3840a8b15a18a84180174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:18 +0000
Subject: [PATCH 36/87] fix: nextLabel() called a nonexistent method, and
 ensureValidNext() stopped at protected edges

---
 python/maputils/maputils.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/python/maputils/maputils.py b/python/maputils/maputils.py
index 1af1a57..11498f8 100644
--- a/python/maputils/maputils.py
+++ b/python/maputils/maputils.py
@@ -1452,7 +1452,10 @@ class AutomaticMethodBase(object):
 
         q = self._queue
         map = self._map
-        while q and not map.edge(q.top()[0]):
+        while q:
+            edge = map.edge(q.top()[0])
+            if edge and not edge.flag(flag_constants.ALL_PROTECTION):
+                break
             q.pop()
 
     def nextLabel(self):
@@ -1465,7 +1468,7 @@ class AutomaticMethodBase(object):
         edge at the front of the internal priority queue might have
         been removed already); see `ensureValidNext()`."""
 
-        self._ensureValidNext()
+        self.ensureValidNext()
         return self._queue.top()[0]
 
     def step(self):
-- 
2.43.0


From 32743cc8908c19f49d71f946036cde00578ac75b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:18 +0000
Subject: [PATCH 37/87] fix: mergeFaceToBestNeighbor() tried to merge a face
 with itself, and failed without unprotected edges

---
 python/maputils/maputils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/maputils/maputils.py b/python/maputils/maputils.py
index 11498f8..58fb4b8 100644
--- a/python/maputils/maputils.py
+++ b/python/maputils/maputils.py
@@ -1237,10 +1237,12 @@ def mergeFaceToBestNeighbor(face, costMeasure):
     for dart in contourDarts(face):
         if dart.edge().flag(flag_constants.ALL_PROTECTION):
             continue
+        if dart.rightFaceLabel() == face.label():
+            continue # bridge
         cost = costMeasure(dart)
         if best is None or cost < best[0]:
             best = cost, dart
-    return mergeFacesCompletely(best[1])
+    return best and mergeFacesCompletely(best[1])
 
 def removeSmallRegions(
     map, minArea = None, minPixelArea = None, costMeasure = None):
-- 
2.43.0


From 6b2d5060e75d8f61608ee02fbe09d788c4181417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:18 +0000
Subject: [PATCH 38/87] fix: SeededRegionGrowing failed at the end of the queue
 and gave up faces next to protected edges

---
 python/maputils/maputils.py | 59 ++++++++++++++++++++++++++++---------
 1 file changed, 45 insertions(+), 14 deletions(-)

diff --git a/python/maputils/maputils.py b/python/maputils/maputils.py
index 58fb4b8..d01d550 100644
--- a/python/maputils/maputils.py
+++ b/python/maputils/maputils.py
@@ -2086,36 +2086,67 @@ class SeededRegionGrowing(AutomaticMethodBase):
 
         self._costLog = None
 
+    def _mergeableNeighbors(self, face):
+        # like neighborFaces(), but without the neighbors that must
+        # not be merged with face because of a protected common edge
+        protected = set([dart.rightFaceLabel() for dart in contourDarts(face)
+                         if dart.edge().flag(flag_constants.ALL_PROTECTION)])
+        return [dart for dart in neighborFaces(face)
+                if dart.rightFaceLabel() not in protected]
+
     def _addNeighborsToQueue(self, face):
-        for dart in neighborFaces(face):
+        for dart in self._mergeableNeighbors(face):
             neighbor = dart.rightFace()
             if not neighbor.flag(self._neighborSkipFlags):
                 cost = self._mergeCostMeasure(dart)
                 self._queue.setCost(neighbor.label(), cost)
                 neighbor.setFlag(flag_constants.SRG_BORDER)
 
-    def mergeStep(self):
-        # fetch candidate Face from queue:
-        while True:
-            faceLabel, mergeCost = self._queue.pop()
-            face = self._map.face(faceLabel)
-            if face and not face.flag(flag_constants.SRG_SEED):
-                break
-
-        assert face, "no more candidate faces found"
-
+    def _bestNeighbor(self, face):
         # look for neighbor with lowest merge cost:
         best = None
-        for dart in neighborFaces(face):
+        for dart in self._mergeableNeighbors(face):
             neighbor = dart.rightFace()
             if neighbor.flag(flag_constants.SRG_SEED):
                 cost = self._mergeCostMeasure(dart)
                 if not best or cost < best[0]:
                     best = (cost, dart)
+        return best and best[1]
+
+    def ensureValidNext(self):
+        """Ensure that the next `mergeStep()` really performs a merge
+        operation (cf. `AutomaticMethodBase.ensureValidNext`)."""
+
+        while self._queue:
+            face = self._map.face(self._queue.top()[0])
+            if face and not face.flag(flag_constants.SRG_SEED):
+                if self._bestNeighbor(face):
+                    break
+                # may become a candidate again (next to another seed)
+                face.setFlag(flag_constants.SRG_BORDER, False)
+            self._queue.pop()
+
+    def mergeStep(self):
+        """Fetch next face from cost queue and merge it into the
+        neighbored seed region with the lowest merge cost.
+
+        If there is no such candidate left or the merge was refused,
+        return None.  Else, return the surviving Face and increment
+        the step counter (cf. step())."""
+
+        # fetch candidate Face from queue:
+        self.ensureValidNext()
+        if not self._queue:
+            return
+        faceLabel, mergeCost = self._queue.pop()
+        face = self._map.face(faceLabel)
 
         # grow region:
-        survivor = mergeFacesCompletely(best[1])
-        if survivor:
+        survivor = mergeFacesCompletely(self._bestNeighbor(face))
+        if not survivor:
+            # may become a candidate again (next to another seed)
+            face.setFlag(flag_constants.SRG_BORDER, False)
+        else:
             survivor.setFlag(flag_constants.SRG_BORDER, False)
             survivor.setFlag(flag_constants.SRG_SEED)
             self._addNeighborsToQueue(survivor)
-- 
2.43.0


From 2b732bda61098ccc2b4cf946f8800b60c726a6e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:36 +0000
Subject: [PATCH 39/87] fix: LabelLUTs could not be pickled, and thus maps with
 MergedEdges could not be saved

---
 src/python_bindings/cppmapmodule_utils.cxx | 41 ++++++++++++++++++++++
 1 file changed, 41 insertions(+)

diff --git a/src/python_bindings/cppmapmodule_utils.cxx b/src/python_bindings/cppmapmodule_utils.cxx
index efe4021..4b05e76 100644
--- a/src/python_bindings/cppmapmodule_utils.cxx
+++ b/src/python_bindings/cppmapmodule_utils.cxx
@@ -66,6 +66,46 @@ struct EdgeProtectionPickleSuite : bp::pickle_suite
     }
 };
 
+struct LabelLUTPickleSuite : bp::pickle_suite
+{
+    static bp::tuple getinitargs(LabelLUT const &lut)
+    {
+        return bp::make_tuple((unsigned int)lut.size());
+    }
+
+        // lists of labels which were merged (not including single ones)
+    static bp::tuple getstate(LabelLUT const &lut)
+    {
+        bp::list lists;
+        for(unsigned int i = 0; i < lut.size(); ++i)
+        {
+            if(lut[i] != i)
+                continue;
+            bp::list merged;
+            for(LabelLUT::MergedIterator it(lut.mergedBegin(i));
+                it.inRange(); ++it)
+                merged.append(*it);
+            if(bp::len(merged) > 1)
+                lists.append(merged);
+        }
+        return bp::make_tuple(lists);
+    }
+
+    static void setstate(LabelLUT &lut, bp::tuple state)
+    {
+        bp::list lists((bp::extract<bp::list>(state[0])()));
+        for(int i = 0; i < bp::len(lists); ++i)
+        {
+            LabelLUT::LabelType label =
+                bp::extract<LabelLUT::LabelType>(lists[i][0])();
+            // (relabel() inserts at the beginning of the list)
+            for(int j = bp::len(lists[i]) - 1; j > 0; --j)
+                lut.relabel(
+                    bp::extract<LabelLUT::LabelType>(lists[i][j])(), label);
+        }
+    }
+};
+
 std::string EdgeProtection__repr__(EdgeProtection const &cb)
 {
     std::stringstream s;
@@ -165,6 +205,7 @@ void defMapUtils()
             .def("merged", &LabelLUT::mergedBegin)
             .def("__copy__", &generic__copy__<LabelLUT>)
             .def("__deepcopy__", &generic__deepcopy__<LabelLUT>)
+            .def_pickle(LabelLUTPickleSuite())
             );
 
         RangeIterWrapper<LabelLUT::MergedIterator>("_MergedIterator");
-- 
2.43.0


From 00db5736183ecfc0354ed30dbeb87724595df2d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:36 +0000
Subject: [PATCH 40/87] fix: PolylineStatistics::max() was wrong for values <=
 0

---
 src/python_bindings/statistics.cxx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/python_bindings/statistics.cxx b/src/python_bindings/statistics.cxx
index 12f6b33..f441704 100644
--- a/src/python_bindings/statistics.cxx
+++ b/src/python_bindings/statistics.cxx
@@ -51,14 +51,14 @@ class PolylineStatistics
     : weightedSum_(0),
       length_(0),
       min_(vigra::NumericTraits<double>::max()),
-      max_(vigra::NumericTraits<double>::min())
+      max_(-vigra::NumericTraits<double>::max())
     {}
 
 //     PolylineStatistics(const PointArray<Vector2> &poly, object siv)
 //     : weightedSum_(0),
 //       length_(0),
 //       min_(vigra::NumericTraits<double>::max()),
-//       max_(vigra::NumericTraits<double>::min())
+//       max_(-vigra::NumericTraits<double>::max())
 //     {
 //         for(unsigned int i = 0; i < poly.size() - 1; ++i)
 //         {
@@ -73,7 +73,7 @@ class PolylineStatistics
     : weightedSum_(0),
       length_(0),
       min_(vigra::NumericTraits<double>::max()),
-      max_(vigra::NumericTraits<double>::min())
+      max_(-vigra::NumericTraits<double>::max())
     {
         for(unsigned int i = 0; i < poly.size() - 1; ++i)
         {
-- 
2.43.0


From 44cda64410e262a10847e8d816e0d09ead920d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:36 +0000
Subject: [PATCH 41/87] fix: QuantileStatistics: quantiles were wrong after
 unpickling or copying (uninitialized sorted_)

---
 src/python_bindings/statistics.cxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/python_bindings/statistics.cxx b/src/python_bindings/statistics.cxx
index f441704..ca7c0d2 100644
--- a/src/python_bindings/statistics.cxx
+++ b/src/python_bindings/statistics.cxx
@@ -152,10 +152,12 @@ class QuantileStatistics : public PolylineStatistics
 
   public:
     QuantileStatistics()
+    : sorted_(false)
     {}
 
     QuantileStatistics(const PointArray<Vector2> &poly,
                        const SplineImageView<5, GrayValue> &siv)
+    : sorted_(false)
     {
         for(unsigned int i = 0; i < poly.size() - 1; ++i)
         {
@@ -241,6 +243,7 @@ class QuantileStatisticsPickleSuite : public boost::python::pickle_suite
             w.segments_[i].first = extract<double>(segments[i][0])();
             w.segments_[i].second = extract<double>(segments[i][1])();
         }
+        w.sorted_ = false;
     }
 };
 
-- 
2.43.0


From 9ea0591d957c7ae9e9eb3a9daab48100196eacaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:36 +0000
Subject: [PATCH 42/87] fix: appendTangentList() failed if there were tangents
 already

---
 src/python_bindings/polygon.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python_bindings/polygon.cxx b/src/python_bindings/polygon.cxx
index bbb0bca..ef3780d 100644
--- a/src/python_bindings/polygon.cxx
+++ b/src/python_bindings/polygon.cxx
@@ -1445,7 +1445,7 @@ double appendTangentList(
 {
     ContinuousDirection makeContinuous;
     if(len(tangents1))
-        makeContinuous.prevAngle = extract<double>(tangents1[-1]);
+        makeContinuous.prevAngle = extract<double>(tangents1[-1][1])();
 
     return appendTangentList(tangents1, arcLengthOffset,
                              tangents2, offset, makeContinuous);
-- 
2.43.0


From b724a9de42c239bdba7a4b4fbb963d103a98a0fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:36 +0000
Subject: [PATCH 43/87] fix: StaticEdgeCosts could not be unpickled (nor
 pickled with Python 2)

---
 python/maputils/statistics.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/python/maputils/statistics.py b/python/maputils/statistics.py
index 2a14490..0354142 100644
--- a/python/maputils/statistics.py
+++ b/python/maputils/statistics.py
@@ -619,12 +619,13 @@ class StaticEdgeCosts(DetachableStatistics):
         return self._costs[dart.edgeLabel()]
 
     def __getstate__(self):
-        return DynamicEdgeStatistics.__getstate__(self) + (
-            self._costs, )
+        return DetachableStatistics.__getstate__(self) + (
+            self._costs, self._combiner)
 
-    def __setstate__(self, (map, tree)):
-        DynamicEdgeStatistics.__setstate__(self, (map, ))
-        self._costs = tree
+    def __setstate__(self, (map, costs, combiner)):
+        self._combiner = combiner # needed by _attachHooks()
+        DetachableStatistics.__setstate__(self, (map, ))
+        self._costs = costs
 
 # formerly, this was called EdgeMergeTree:
 class MergedEdges(DynamicEdgeStatistics):
-- 
2.43.0


From 743c946842d40bdd03f7481c8ea73c903a9abf9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:36 +0000
Subject: [PATCH 44/87] fix: nonWatershedEdgesAdded() did not extend the list
 of saddle indices

---
 python/maputils/statistics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/maputils/statistics.py b/python/maputils/statistics.py
index 0354142..888ecd2 100644
--- a/python/maputils/statistics.py
+++ b/python/maputils/statistics.py
@@ -815,7 +815,7 @@ class WatershedStatistics(DynamicEdgeIndices):
         if len(self._passValues) < mel:
             self._passValues.extend([None] * (mel - len(self._passValues)))
             self._indices.extend([[] for i in
-                                  range(mel - len(self._passValues))])
+                                  range(mel - len(self._indices))])
 
     def preMergeEdges(self, dart):
         if not self.__base.preMergeEdges(self, dart):
-- 
2.43.0


From 7bac03ae6a56521f68882c6a94cd6311fcc4fc8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:36 +0000
Subject: [PATCH 45/87] fix: EdgeTangents lost the tangents when pickled

---
 python/maputils/statistics.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/python/maputils/statistics.py b/python/maputils/statistics.py
index 888ecd2..d15f12b 100644
--- a/python/maputils/statistics.py
+++ b/python/maputils/statistics.py
@@ -1654,6 +1654,13 @@ class EdgeTangents(DynamicEdgeStatistics):
         self.tangents = tangents
         self._attachHooks()
 
+    def __getstate__(self):
+        return DynamicEdgeStatistics.__getstate__(self) + (self.tangents, )
+
+    def __setstate__(self, (map, tangents)):
+        DynamicEdgeStatistics.__setstate__(self, (map, ))
+        self.tangents = tangents
+
     def preMergeEdges(self, dart):
         if dart.label() > 0:
             dart1 = dart.clone().prevPhi()
-- 
2.43.0


From 54bd6f1ed50b7a8db017e7321700e08a4c73b0ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:35 +0000
Subject: [PATCH 46/87] fix: DynamicEdgeIndices lost the index of the merged
 node if only the second edge had it

---
 python/maputils/statistics.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/python/maputils/statistics.py b/python/maputils/statistics.py
index d15f12b..c606a2c 100644
--- a/python/maputils/statistics.py
+++ b/python/maputils/statistics.py
@@ -724,14 +724,15 @@ class DynamicEdgeIndices(DetachableStatistics):
             self._mergedIndices = self.dartIndices(dart.clone().nextAlpha())
             self._mergedIndices.extend([
                 el1 + i for i in self.dartIndices(dart.clone().nextSigma())
-                if i])
+                if el1 + i not in self._mergedIndices])
         else:
             # edge2 will be inserted before dart.edge():
             el2 = len(edge2) - 1
             self._mergedIndices = self.dartIndices(
                 dart.clone().nextSigma().nextAlpha())
             self._mergedIndices.extend([
-                el2 + i for i in self.dartIndices(dart) if i])
+                el2 + i for i in self.dartIndices(dart)
+                if el2 + i not in self._mergedIndices])
 
         return True
 
-- 
2.43.0


From 63a4c506851d0feb5a215a89d4daf9d276f20a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:19 +0000
Subject: [PATCH 47/87] fix: mapValidFacesParallel() started one process per
 workerCount faces (chop() took n as the chunk size)

---
 python/maputils/maputils.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/python/maputils/maputils.py b/python/maputils/maputils.py
index d01d550..17f2604 100644
--- a/python/maputils/maputils.py
+++ b/python/maputils/maputils.py
@@ -1928,10 +1928,11 @@ def cpuCount(fallback = 1):
 
 def chop(l, n):
     '''
-    Chop list l into n chunks
+    Chop list l into (at most) n chunks
     '''
-    for i in xrange(0, len(l), n):
-        yield l[i:i+n]
+    size = max(1, (len(l) + n - 1) // n)
+    for i in xrange(0, len(l), size):
+        yield l[i:i+size]
 
 def _mapValidFacesWorker(function, geoMap, faceLabels, resultQueue):
     '''
-- 
2.43.0


From 39304f273f25aca52519550be0545417e9c32a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:19 +0000
Subject: [PATCH 48/87] fix: mapValidFacesParallel() deadlocked with many
 results and ignored failed workers

---
 python/maputils/maputils.py | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/python/maputils/maputils.py b/python/maputils/maputils.py
index 17f2604..9cda9eb 100644
--- a/python/maputils/maputils.py
+++ b/python/maputils/maputils.py
@@ -1955,27 +1955,44 @@ def mapValidFacesParallel(function, geoMap, default = None, workerCount = None):
     worker process is spawned for each cpu core (cf. cpuCount()).
     '''
     from multiprocessing import Queue, Process
+    from Queue import Empty
 
     if workerCount is None:
         workerCount = cpuCount()
 
-    faceLabels = chop([face.label() for face in geoMap.faceIter()], workerCount)
+    faceLabels = [face.label() for face in geoMap.faceIter()]
 
     resultQueue = Queue()
 
     processes = [Process(target = _mapValidFacesWorker,
                          args = (function, geoMap, workerLabels, resultQueue))
-                 for workerLabels in faceLabels]
+                 for workerLabels in chop(faceLabels, workerCount)]
 
     for process in processes:
         process.start()
-    for process in processes:
-        process.join()
 
+    # results must be fetched before join()ing the processes, which
+    # do not terminate before their results have been transmitted
     result = [default] * geoMap.maxFaceLabel()
-    while not resultQueue.empty():
-        faceLabel, value = resultQueue.get()
+    missing = len(faceLabels)
+    running = True
+    while missing:
+        try:
+            faceLabel, value = resultQueue.get(True, 0.1)
+        except Empty:
+            if not running:
+                break # all results of terminated processes were fetched
+            running = [p for p in processes if p.is_alive()]
+            continue
         result[faceLabel] = value
+        missing -= 1
+
+    for process in processes:
+        process.join()
+
+    if missing:
+        raise RuntimeError("mapValidFacesParallel: %d results missing "
+                           "(worker process failed?)" % missing)
 
     return result
 
-- 
2.43.0


From b2e014d49498889d189921ca5a06a590dd1a8b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:35:10 +0000
Subject: [PATCH 49/87] fix: Scanlines.points() iterator did not keep its
 scanlines alive

---
 src/python_bindings/polygon.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python_bindings/polygon.cxx b/src/python_bindings/polygon.cxx
index ef3780d..ec8a602 100644
--- a/src/python_bindings/polygon.cxx
+++ b/src/python_bindings/polygon.cxx
@@ -1932,7 +1932,7 @@ void defPolygon()
         .def("startIndex", &Scanlines::startIndex)
         .def("endIndex", &Scanlines::endIndex)
         .def("points", &createScanlinesIter,
-             with_custodian_and_ward_postcall<1, 0>())
+             with_custodian_and_ward_postcall<0, 1>())
     ;
 
     RangeIterWrapper<ScanlinesIter>("_ScanlinesIter");
-- 
2.43.0


From 18e33cdd2df681ad1efe2c25abcfaad0b09c4544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:35:10 +0000
Subject: [PATCH 50/87] fix: del polygon[len(polygon)] and del polygon[-1]
 erased past the end

---
 src/python_bindings/polygon.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python_bindings/polygon.cxx b/src/python_bindings/polygon.cxx
index ec8a602..edf284e 100644
--- a/src/python_bindings/polygon.cxx
+++ b/src/python_bindings/polygon.cxx
@@ -188,7 +188,7 @@ void insert(Polygon & p, int pos, typename Polygon::const_reference x)
 template<class Polygon>
 void erase(Polygon & p, int pos)
 {
-    checkPythonIndex(pos, p.size() + 1);
+    checkPythonIndex(pos, p.size());
     p.erase(p.begin() + pos);
 }
 
-- 
2.43.0


From aa73f957d0c9c53442777af6381121d8d64b9e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:35:10 +0000
Subject: [PATCH 51/87] fix: Polygon::closed() read points of an empty polygon

---
 src/geomap/polygon.hxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/geomap/polygon.hxx b/src/geomap/polygon.hxx
index 2859e62..16de559 100644
--- a/src/geomap/polygon.hxx
+++ b/src/geomap/polygon.hxx
@@ -306,7 +306,8 @@ class Polygon : public PointArray<POINT>
         /// Returns true iff the last and first points are equal.
     bool closed() const
     {
-        return this->points_[this->size()-1] == this->points_[0];
+        return this->size() &&
+            this->points_[this->size()-1] == this->points_[0];
     }
 
         /**
-- 
2.43.0


From ea5aca8b10d25d5dec29ad23a6c48733d6dd8b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:35:10 +0000
Subject: [PATCH 52/87] fix: extending a polygon by itself inserted from its
 own reallocated points

---
 src/geomap/polygon.hxx | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/geomap/polygon.hxx b/src/geomap/polygon.hxx
index 16de559..36e09c9 100644
--- a/src/geomap/polygon.hxx
+++ b/src/geomap/polygon.hxx
@@ -373,6 +373,12 @@ class Polygon : public PointArray<POINT>
         if(!other.size())
             return;
 
+        if(&other == this)
+        {
+            extend(Polygon(other));
+            return;
+        }
+
         double newLength = length_, newPartialArea = partialArea_;
         const_iterator otherBegin(other.begin());
         if(this->size())
-- 
2.43.0


From ec5e200281d5b01aa68079715782ce9f15e7d7ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:35:10 +0000
Subject: [PATCH 53/87] fix: Vector2Array.interpolate() did not check its index

---
 src/python_bindings/polygon.cxx | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/python_bindings/polygon.cxx b/src/python_bindings/polygon.cxx
index edf284e..4086887 100644
--- a/src/python_bindings/polygon.cxx
+++ b/src/python_bindings/polygon.cxx
@@ -165,6 +165,15 @@ Polygon * createPolygon(boost::python::list l)
     return new Polygon(extract<Polygon>(l)());
 }
 
+template<class Array>
+typename Array::value_type
+Array_interpolate(Array const & a, int i, double offset)
+{
+    // needs the point after index i, too:
+    checkPythonIndex(i, a.size() ? a.size() - 1 : 0);
+    return a.interpolate(i, offset);
+}
+
 template<class Polygon>
 void
 Polygon__setitem__(Polygon & p, int i, typename Polygon::value_type v)
@@ -1832,7 +1841,7 @@ void defPolygon()
         .def(init<Vector2Array>())
         //.def("__init__", make_constructor(&createPolygon<Vector2Array>))
         .def("reverse", &Vector2Array::reverse)
-        .def("interpolate", &Vector2Array::interpolate)
+        .def("interpolate", &Array_interpolate<Vector2Array>)
         .def("__len__", &Vector2Array::size)
         .def("__getitem__", &Array__getitem_slice__<Vector2Array>)
         .def("__getitem__", &Array__getitem__<Vector2Array>)
-- 
2.43.0


From 811e95fe6e18241c1eb3baafa459bf9969623814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:35:10 +0000
Subject: [PATCH 54/87] fix: BoundingBox.begin() and end() raised TypeError
 (Vector2 is a converted type)

---
 src/python_bindings/polygon.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/python_bindings/polygon.cxx b/src/python_bindings/polygon.cxx
index 4086887..e0b35d8 100644
--- a/src/python_bindings/polygon.cxx
+++ b/src/python_bindings/polygon.cxx
@@ -1904,9 +1904,9 @@ void defPolygon()
         .def(init<const Vector2 &, const Vector2 &>(args("begin", "end")))
         .def("__init__", make_constructor(&createBoxFromRect2D<BoundingBox>))
         .def("begin", (const Vector2 &(BoundingBox::*)() const)
-             &BoundingBox::begin, return_internal_reference<>())
+             &BoundingBox::begin, return_value_policy<copy_const_reference>())
         .def("end", (const Vector2 &(BoundingBox::*)() const)
-             &BoundingBox::end, return_internal_reference<>())
+             &BoundingBox::end, return_value_policy<copy_const_reference>())
         .def("setBegin", &BoundingBox::setBegin, arg("begin"))
         .def("setEnd", &BoundingBox::setEnd, arg("end"))
         .def("moveTo", &BoundingBox::moveTo, arg("newBegin"))
-- 
2.43.0


From 2d552a25f7444e0dc2b4e838eab028b808969a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:35:10 +0000
Subject: [PATCH 55/87] fix: iterators over point arrays and polygons dangled
 when points were added or removed

---
 src/python_bindings/exporthelpers.hxx | 44 +++++++++++++++++++++++++++
 src/python_bindings/polygon.cxx       |  8 +++--
 2 files changed, 50 insertions(+), 2 deletions(-)

diff --git a/src/python_bindings/exporthelpers.hxx b/src/python_bindings/exporthelpers.hxx
index e4fd40f..911b75c 100644
--- a/src/python_bindings/exporthelpers.hxx
+++ b/src/python_bindings/exporthelpers.hxx
@@ -108,6 +108,49 @@ Array__setitem__(Array & a, int i, typename Array::value_type v)
     a[i] = v;
 }
 
+/**
+ * Iterates over an array by index, i.e. stays valid when the array is
+ * changed.  (Use with_custodian_and_ward_postcall<0, 1> for keeping
+ * the array itself alive.)
+ */
+template<class Array>
+class ArrayIter
+{
+    const Array *array_;
+    typename Array::size_type index_;
+
+  public:
+    typedef typename Array::value_type value_type;
+
+    ArrayIter(const Array &array)
+    : array_(&array),
+      index_(0)
+    {}
+
+    ArrayIter operator++(int)
+    {
+        ArrayIter ret(*this);
+        ++index_;
+        return ret;
+    }
+
+    bool inRange() const
+    {
+        return index_ < array_->size();
+    }
+
+    value_type operator*() const
+    {
+        return (*array_)[index_];
+    }
+};
+
+template<class Array>
+ArrayIter<Array> Array__iter__(const Array &array)
+{
+    return ArrayIter<Array>(array);
+}
+
 /********************************************************************/
 
 template<class Iterator,
@@ -121,6 +164,7 @@ struct RangeIterWrapper
         this->def("__iter__", (Iterator &(*)(Iterator &))&returnSelf,
 				  boost::python::return_internal_reference<>());
         this->def("next", &nextIterPos, cp);
+        this->def("__next__", &nextIterPos, cp); // Python 3 name
     }
 
     static Iterator &returnSelf(Iterator &v)
diff --git a/src/python_bindings/polygon.cxx b/src/python_bindings/polygon.cxx
index e0b35d8..5eb5160 100644
--- a/src/python_bindings/polygon.cxx
+++ b/src/python_bindings/polygon.cxx
@@ -1846,7 +1846,8 @@ void defPolygon()
         .def("__getitem__", &Array__getitem_slice__<Vector2Array>)
         .def("__getitem__", &Array__getitem__<Vector2Array>)
         .def("__setitem__", &Array__setitem__<Vector2Array>)
-        .def("__iter__", iterator<Vector2Array const>())
+        .def("__iter__", &Array__iter__<Vector2Array>,
+             with_custodian_and_ward_postcall<0, 1>())
         .def("insert", &insert<Vector2Array>)
         .def(self * double())
         .def(self + Vector2())
@@ -1854,6 +1855,7 @@ void defPolygon()
     ;
     PolygonFromPython<Vector2Array>();
     register_ptr_to_python< std::auto_ptr<Vector2Array> >();
+    RangeIterWrapper<ArrayIter<Vector2Array> >("_Vector2ArrayIter");
 
     typedef PointArray<Point2D> Point2DArray;
     class_<Point2DArray>("Point2DArray")
@@ -1863,10 +1865,12 @@ void defPolygon()
         .def("__getitem__", &Array__getitem_slice__<Point2DArray>)
         .def("__getitem__", &Array__getitem__<Point2DArray>)
         .def("__setitem__", &Array__setitem__<Point2DArray>)
-        .def("__iter__", iterator<Point2DArray const>())
+        .def("__iter__", &Array__iter__<Point2DArray>,
+             with_custodian_and_ward_postcall<0, 1>())
         .def("insert", &insert<Point2DArray>)
     ;
     register_ptr_to_python< std::auto_ptr<Point2DArray> >();
+    RangeIterWrapper<ArrayIter<Point2DArray> >("_Point2DArrayIter");
 
     class_<PythonPolygon, bases<Vector2Array> >("Polygon")
         .def(init<Vector2Array>())
-- 
2.43.0


From e19b9a9206c732d35aaf6e0dc59702e55cc5b2b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:35:10 +0000
Subject: [PATCH 56/87] fix: DartPointIter read past the end of an edge which
 had been split

---
 src/geomap/cppmap.hxx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/geomap/cppmap.hxx b/src/geomap/cppmap.hxx
index edf6a0a..9b13892 100644
--- a/src/geomap/cppmap.hxx
+++ b/src/geomap/cppmap.hxx
@@ -759,7 +759,7 @@ class DartPointIter
          */
     bool atEnd() const
     {
-        return index_ == end_;
+        return !inRange();
     }
 
         /**
@@ -767,7 +767,8 @@ class DartPointIter
          */
     bool inRange() const
     {
-        return index_ != end_;
+        // (also check the size since the edge may have been split)
+        return index_ != end_ && index_ >= 0 && index_ < (int)edge_->size();
     }
 
     reference operator*() const
-- 
2.43.0


From 9419bcbc008b949be8e0d3b2c46d8418094c3388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:35:10 +0000
Subject: [PATCH 57/87] fix: LabelLUT.relabel() and merged() did not check
 labels, and merged() iterators did not keep the LUT alive

---
 src/geomap/labellut.hxx                    |  4 +++-
 src/python_bindings/cppmapmodule_utils.cxx | 18 ++++++++++++++++--
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/geomap/labellut.hxx b/src/geomap/labellut.hxx
index ee3891a..26bdcff 100644
--- a/src/geomap/labellut.hxx
+++ b/src/geomap/labellut.hxx
@@ -64,7 +64,9 @@ class LabelLUT
 
         MergedIterator & operator++()
         {
-            LabelType next = prevMerged_[currentLabel_];
+            // (labels may have been removed by initIdentity())
+            LabelType next = currentLabel_ < prevMerged_.size()
+                             ? prevMerged_[currentLabel_] : currentLabel_;
             if(next == currentLabel_)
                 atEnd_ = true;
             else
diff --git a/src/python_bindings/cppmapmodule_utils.cxx b/src/python_bindings/cppmapmodule_utils.cxx
index 4b05e76..5e5b43d 100644
--- a/src/python_bindings/cppmapmodule_utils.cxx
+++ b/src/python_bindings/cppmapmodule_utils.cxx
@@ -106,6 +106,19 @@ struct LabelLUTPickleSuite : bp::pickle_suite
     }
 };
 
+void LabelLUT_relabel(LabelLUT &lut, int from, int to)
+{
+    checkPythonIndex(from, lut.size());
+    checkPythonIndex(to, lut.size());
+    lut.relabel(from, to);
+}
+
+LabelLUT::MergedIterator LabelLUT_merged(LabelLUT const &lut, int start)
+{
+    checkPythonIndex(start, lut.size());
+    return lut.mergedBegin(start);
+}
+
 std::string EdgeProtection__repr__(EdgeProtection const &cb)
 {
     std::stringstream s;
@@ -201,8 +214,9 @@ void defMapUtils()
             .def("appendOne", &LabelLUT::appendOne)
             .def("__getitem__", &Array__getitem__<LabelLUT>)
             .def("__len__", &LabelLUT::size)
-            .def("relabel", &LabelLUT::relabel) // FIXME: check index
-            .def("merged", &LabelLUT::mergedBegin)
+            .def("relabel", &LabelLUT_relabel)
+            .def("merged", &LabelLUT_merged,
+                 with_custodian_and_ward_postcall<0, 1>())
             .def("__copy__", &generic__copy__<LabelLUT>)
             .def("__deepcopy__", &generic__deepcopy__<LabelLUT>)
             .def_pickle(LabelLUTPickleSuite())
-- 
2.43.0


From a483b0c8657f6d4db0074936560226da35f048ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:35:49 +0000
Subject: [PATCH 58/87] fix: nodeIter(), edgeIter() and faceIter() dangled when
 cells were added or the map was released

---
 src/python_bindings/cppmapmodule.cxx | 76 ++++++++++++++++++++++++----
 1 file changed, 66 insertions(+), 10 deletions(-)

diff --git a/src/python_bindings/cppmapmodule.cxx b/src/python_bindings/cppmapmodule.cxx
index 953edf8..3d9dd1f 100644
--- a/src/python_bindings/cppmapmodule.cxx
+++ b/src/python_bindings/cppmapmodule.cxx
@@ -534,14 +534,67 @@ GeoMap::EdgePtr addEdgeBackwardCompatibility(
     return geomap.addEdge(*startNode, *endNode, points, label);
 }
 
-GeoMap::FaceIterator faceIter(GeoMap &geomap, bool skipInfinite)
+/**
+ * Iterates over existing cells by label, i.e. stays valid when the
+ * map is changed (cells removed or added).
+ */
+template<class CellPtr, CellPtr (GeoMap::*cell)(CellLabel),
+         CellLabel (GeoMap::*maxLabel)() const>
+class CellLabelIterator
+{
+    GeoMap *map_;
+    CellLabel label_;
+
+  public:
+    typedef CellPtr value_type;
+
+    CellLabelIterator(GeoMap &geomap, CellLabel label)
+    : map_(&geomap),
+      label_(label)
+    {}
+
+    CellLabelIterator operator++(int)
+    {
+        CellLabelIterator ret(*this);
+        ++label_;
+        return ret;
+    }
+
+    bool inRange()
+    {
+        while(label_ < (map_->*maxLabel)() && !(map_->*cell)(label_))
+            ++label_;
+        return label_ < (map_->*maxLabel)();
+    }
+
+    value_type operator*() const
+    {
+        return (map_->*cell)(label_);
+    }
+};
+
+typedef CellLabelIterator<GeoMap::NodePtr, &GeoMap::node,
+                          &GeoMap::maxNodeLabel> NodeLabelIterator;
+typedef CellLabelIterator<GeoMap::EdgePtr, &GeoMap::edge,
+                          &GeoMap::maxEdgeLabel> EdgeLabelIterator;
+typedef CellLabelIterator<GeoMap::FacePtr, &GeoMap::face,
+                          &GeoMap::maxFaceLabel> FaceLabelIterator;
+
+NodeLabelIterator nodeIter(GeoMap &geomap)
+{
+    return NodeLabelIterator(geomap, 0);
+}
+
+EdgeLabelIterator edgeIter(GeoMap &geomap)
+{
+    return EdgeLabelIterator(geomap, 0);
+}
+
+FaceLabelIterator faceIter(GeoMap &geomap, bool skipInfinite)
 {
     vigra_precondition(geomap.mapInitialized(),
                        "faceIter() called on graph (!mapInitialized())");
-    GeoMap::FaceIterator result(geomap.facesBegin());
-    if(skipInfinite)
-        ++result;
-    return result;
+    return FaceLabelIterator(geomap, skipInfinite ? 1 : 0);
 }
 
 typedef RangeIterAdapter<GeoMap::Face::ContourIterator> ContourRangeIterator;
@@ -907,14 +960,16 @@ void defMap()
             .def("node", (GeoMap::NodePtr(GeoMap::*)(CellLabel))&GeoMap::node, crp,
                  "node(label) -> Node\n\n"
                  "Return Node object for the given label.")
-            .def("nodeIter", (GeoMap::NodeIterator(GeoMap::*)())&GeoMap::nodesBegin,
+            .def("nodeIter", &nodeIter,
+                 with_custodian_and_ward_postcall<0, 1>(),
                  "Iterates over all existing nodes.\n\n"
                  ">>> for node in amap.nodeIter():\n"
                  "...     print node.label(), node.degree(), node.anchor()")
             .def("edge", (GeoMap::EdgePtr(GeoMap::*)(CellLabel))&GeoMap::edge, crp,
                  "edge(label) -> Edge\n\n"
                  "Return Edge object for the given label.")
-            .def("edgeIter", (GeoMap::EdgeIterator(GeoMap::*)())&GeoMap::edgesBegin,
+            .def("edgeIter", &edgeIter,
+                 with_custodian_and_ward_postcall<0, 1>(),
                  "Iterates over all existing edges.\n\n"
                  ">>> for edge in amap.edgeIter():\n"
                  "...     print \"Edge %d has %d points\" % len(edge)")
@@ -922,6 +977,7 @@ void defMap()
                  "face(label) -> Face\n\n"
                  "Return Face object for the given label.")
             .def("faceIter", &faceIter, arg("skipInfinite") = false,
+                 with_custodian_and_ward_postcall<0, 1>(),
                  "Iterates over all existing faces.\n\n"
                  ">>> for face in amap.faceIter():\n"
                  "...     for dart in face.contours():\n"
@@ -1117,9 +1173,9 @@ void defMap()
             .def_pickle(GeoMapPickleSuite())
             );
 
-        RangeIterWrapper<GeoMap::NodeIterator, CELL_RETURN_POLICY>("_NodeIterator");
-        RangeIterWrapper<GeoMap::EdgeIterator, CELL_RETURN_POLICY>("_EdgeIterator");
-        RangeIterWrapper<GeoMap::FaceIterator, CELL_RETURN_POLICY>("_FaceIterator");
+        RangeIterWrapper<NodeLabelIterator, CELL_RETURN_POLICY>("_NodeIterator");
+        RangeIterWrapper<EdgeLabelIterator, CELL_RETURN_POLICY>("_EdgeIterator");
+        RangeIterWrapper<FaceLabelIterator, CELL_RETURN_POLICY>("_FaceIterator");
 
         class_<GeoMap::Node, boost::noncopyable>(
             "Node",
-- 
2.43.0


From d81d035ef752d0d89c1aeb73c68a44144db1eacb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:36:15 +0000
Subject: [PATCH 59/87] fix: iterators over a face's contours dangled when the
 face was merged or released

---
 src/python_bindings/cppmapmodule.cxx | 85 ++++++++++++----------------
 1 file changed, 35 insertions(+), 50 deletions(-)

diff --git a/src/python_bindings/cppmapmodule.cxx b/src/python_bindings/cppmapmodule.cxx
index 3d9dd1f..d728352 100644
--- a/src/python_bindings/cppmapmodule.cxx
+++ b/src/python_bindings/cppmapmodule.cxx
@@ -137,55 +137,6 @@ alphaOrbit(const GeoMap::Dart &dart)
     return std::auto_ptr<AlphaOrbitIterator>(new AlphaOrbitIterator(dart));
 }
 
-template<class Iterator>
-struct RangeIterAdapter
-{
-    typedef typename Iterator::value_type value_type;
-    typedef typename Iterator::reference  reference;
-    typedef typename Iterator::pointer    pointer;
-    typedef std::forward_iterator_tag     iterator_category;
-
-    RangeIterAdapter(const Iterator &begin, const Iterator &end)
-    : iter_(begin),
-      end_(end)
-    {}
-
-    bool inRange() const
-    {
-        return iter_ != end_;
-    }
-
-    bool atEnd() const
-    {
-        return iter_ == end_;
-    }
-
-    RangeIterAdapter &operator++()
-    {
-        ++iter_;
-        return *this;
-    }
-
-    RangeIterAdapter operator++(int)
-    {
-        RangeIterAdapter ret(*this);
-        operator++();
-        return ret;
-    }
-
-    reference operator*() const
-    {
-        return *iter_;
-    }
-
-    pointer operator->() const
-    {
-        return &(operator*());
-    }
-
-    Iterator iter_, end_;
-};
-
 #ifdef USE_INSECURE_CELL_PTRS
 // This is quite dangerous, *but*: The real lifetime of
 // the referenced objects / cells are unknown, since any Euler
@@ -597,7 +548,41 @@ FaceLabelIterator faceIter(GeoMap &geomap, bool skipInfinite)
     return FaceLabelIterator(geomap, skipInfinite ? 1 : 0);
 }
 
-typedef RangeIterAdapter<GeoMap::Face::ContourIterator> ContourRangeIterator;
+/**
+ * Iterates over a copy of a face's contours (which change whenever
+ * the face is merged).
+ */
+class ContourRangeIterator
+{
+    GeoMap::Face::Contours contours_;
+    GeoMap::Face::Contours::size_type index_;
+
+  public:
+    typedef GeoMap::Dart value_type;
+
+    ContourRangeIterator(GeoMap::Face::ContourIterator begin,
+                         GeoMap::Face::ContourIterator end)
+    : contours_(begin, end),
+      index_(0)
+    {}
+
+    bool inRange() const
+    {
+        return index_ < contours_.size();
+    }
+
+    ContourRangeIterator operator++(int)
+    {
+        ContourRangeIterator ret(*this);
+        ++index_;
+        return ret;
+    }
+
+    value_type operator*() const
+    {
+        return contours_[index_];
+    }
+};
 
 ContourRangeIterator
 faceContours(const GeoMap::Face &face)
-- 
2.43.0


From 4c1f35596f8587669fa4160e2e35ed16a88fcc85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:53:03 +0000
Subject: [PATCH 60/87] fix: statistics of an empty polyline read beyond its
 points

---
 src/python_bindings/statistics.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/python_bindings/statistics.cxx b/src/python_bindings/statistics.cxx
index ca7c0d2..64f06e7 100644
--- a/src/python_bindings/statistics.cxx
+++ b/src/python_bindings/statistics.cxx
@@ -75,7 +75,7 @@ class PolylineStatistics
       min_(vigra::NumericTraits<double>::max()),
       max_(-vigra::NumericTraits<double>::max())
     {
-        for(unsigned int i = 0; i < poly.size() - 1; ++i)
+        for(unsigned int i = 0; i + 1 < poly.size(); ++i)
         {
             Vector2
                 segment(poly[i+1]-poly[i]),
@@ -159,7 +159,7 @@ class QuantileStatistics : public PolylineStatistics
                        const SplineImageView<5, GrayValue> &siv)
     : sorted_(false)
     {
-        for(unsigned int i = 0; i < poly.size() - 1; ++i)
+        for(unsigned int i = 0; i + 1 < poly.size(); ++i)
         {
             Vector2
                 segment(poly[i+1]-poly[i]),
-- 
2.43.0


From 221d87f9e85e9b75f1691f6303023848a0bb797f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:53:03 +0000
Subject: [PATCH 61/87] fix: merging quantile statistics with themselves wrote
 beyond their segments

---
 src/python_bindings/statistics.cxx | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/python_bindings/statistics.cxx b/src/python_bindings/statistics.cxx
index 64f06e7..c865188 100644
--- a/src/python_bindings/statistics.cxx
+++ b/src/python_bindings/statistics.cxx
@@ -195,9 +195,12 @@ class QuantileStatistics : public PolylineStatistics
     void merge(const QuantileStatistics &otherStats)
     {
         PolylineStatistics::merge(otherStats);
-        Segments::size_type oldSize(segments_.size());
-        segments_.resize(segments_.size() + otherStats.segments_.size());
-        std::copy(otherStats.segments_.begin(), otherStats.segments_.end(),
+        Segments::size_type oldSize(segments_.size()),
+            otherSize(otherStats.segments_.size());
+        segments_.resize(oldSize + otherSize);
+        // (otherStats may be *this)
+        std::copy(otherStats.segments_.begin(),
+                  otherStats.segments_.begin() + otherSize,
                   segments_.begin() + oldSize);
         sorted_ = false;
     }
-- 
2.43.0


From 6965ab7e290407d59c486d28866c42da6e50f9ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:00:35 +0000
Subject: [PATCH 62/87] fix: swapping two polygons from Python left the second
 one with the first one's cached length, area and bounding box

---
 src/python_bindings/polygon.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/python_bindings/polygon.cxx b/src/python_bindings/polygon.cxx
index 5eb5160..e85d73e 100644
--- a/src/python_bindings/polygon.cxx
+++ b/src/python_bindings/polygon.cxx
@@ -1889,8 +1889,9 @@ void defPolygon()
         .def("partialArea", &PythonPolygon::partialArea)
         .def("boundingBox", &PythonPolygon::boundingBox)
         .def("contains", &PythonPolygon::contains)
-        .def("swap", (void (PythonPolygon::*)(PythonPolygon &))&PythonPolygon::swap)
+        // (the last matching overload is chosen)
         .def("swap", (void (PythonPolygon::*)(Vector2Array &))&PythonPolygon::swap)
+        .def("swap", (void (PythonPolygon::*)(PythonPolygon &))&PythonPolygon::swap)
         .def("reverse", &PythonPolygon::reverse)
         .def("nearestPoint", &PythonPolygon::nearestPoint)
         .def("invalidateProperties", &PythonPolygon::invalidateProperties)
-- 
2.43.0


From 9f6298d5e7f5cde6fa0bc116eb03486fe56046ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:03:48 +0000
Subject: [PATCH 63/87] fix: DartPosition could not go back (previous segments
 were empty)

---
 src/geomap/cppmap.hxx | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/geomap/cppmap.hxx b/src/geomap/cppmap.hxx
index 9b13892..7649ed8 100644
--- a/src/geomap/cppmap.hxx
+++ b/src/geomap/cppmap.hxx
@@ -1654,17 +1654,24 @@ class DartPosition
 
     bool prevSegmentInternal()
     {
-        if(!segmentIndex_)
+        // (at the end, p1_ is the end of the current segment)
+        bool wasAtEnd = atEnd();
+        if(!segmentIndex_ && !wasAtEnd)
             return false;
-        // now I assume that pointIter_ can step backwards and still
-        // is inRange():
-        pointIter_.reverse();
+        // pointIter_ points to p2_ (or behind it, at the end), so that
+        // the new p1_ is two steps back:
         p2_ = p1_;
-        ++pointIter_;
         pointIter_.reverse();
+        ++pointIter_;
+        ++pointIter_;
         p1_ = *pointIter_;
+        pointIter_.reverse();
+        ++pointIter_;
         arcLength_ -= (p2_ - p1_).magnitude();
-        --segmentIndex_;
+        if(!wasAtEnd)
+            --segmentIndex_;
+        if(!segmentIndex_)
+            arcLength_ = 0.0; // no accumulated rounding errors
         return true;
     }
 
-- 
2.43.0


From 08603dc3c437a5464467ed7665cd9828d7da15d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:03:48 +0000
Subject: [PATCH 64/87] fix: DartPosition reported a wrong position or arc
 length after a failed move

---
 src/geomap/cppmap.hxx | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/geomap/cppmap.hxx b/src/geomap/cppmap.hxx
index 7649ed8..5bfb3ac 100644
--- a/src/geomap/cppmap.hxx
+++ b/src/geomap/cppmap.hxx
@@ -1549,8 +1549,15 @@ class DartPosition
     bool gotoArcLength(double arcLength)
     {
         while(arcLength < arcLength_)
+        {
             if(!prevSegmentInternal())
+            {
+                // hit start
+                position_ = p1_;
+                partialArcLength_ = 0.0;
                 return false;
+            }
+        }
         do
         {
             double rest = arcLength - arcLength_;
@@ -1614,6 +1621,7 @@ class DartPosition
             if(!nextSegmentInternal())
             {
                 position_ = p2_;
+                partialArcLength_ = 0.0;
                 return false;
             }
         }
-- 
2.43.0


From 80222731f15c3cde11716773d7b22c46ccb8b542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:31:40 +0000
Subject: [PATCH 65/87] fix: sortEdgesDirectly() left a broken orbit behind
 when edges leave a node at identical angles

---
 src/geomap/cppmap.cxx | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/geomap/cppmap.cxx b/src/geomap/cppmap.cxx
index 368427c..7c2fab9 100644
--- a/src/geomap/cppmap.cxx
+++ b/src/geomap/cppmap.cxx
@@ -451,7 +451,7 @@ void GeoMap::sortEdgesDirectly()
 
         std::sort(dartAngles.begin(), dartAngles.end());
 
-        int predecessor = dartAngles[0].second;
+        // (check before changing anything, orbits must stay valid)
         for(unsigned int i = 1; i < dartAngles.size(); ++i)
         {
             if(dartAngles[i-1].first == dartAngles[i].first)
@@ -464,6 +464,11 @@ void GeoMap::sortEdgesDirectly()
                 s << "  edge " << edge2->label() << " (" << description(*edge2) << ")";
                 vigra_precondition(false, s.str());
             }
+        }
+
+        int predecessor = dartAngles[0].second;
+        for(unsigned int i = 1; i < dartAngles.size(); ++i)
+        {
             sigmaMapping_[predecessor] = dartAngles[i].second;
             sigmaInverseMapping_[dartAngles[i].second] = predecessor;
             predecessor = dartAngles[i].second;
-- 
2.43.0


From 0da4a7430c626cbebe5ea5c0504a5e6f01791ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:31:40 +0000
Subject: [PATCH 66/87] fix: removeIsolatedNode() removed nodes that have
 edges, and crashed on removed nodes

---
 src/geomap/cppmap.cxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/geomap/cppmap.cxx b/src/geomap/cppmap.cxx
index 7c2fab9..34b7e16 100644
--- a/src/geomap/cppmap.cxx
+++ b/src/geomap/cppmap.cxx
@@ -1695,6 +1695,9 @@ bool GeoMap::checkConsistency()
 
 bool GeoMap::removeIsolatedNode(GeoMap::Node &node)
 {
+    vigra_precondition(node.initialized() && node.isIsolated(),
+                       "removeIsolatedNode called on removed or non-isolated node!");
+
     if(!removeNodeHook(node))
         return false;
 
-- 
2.43.0


From 5c46927cb3ca1510326d7f0f0441b246f7355161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:31:40 +0000
Subject: [PATCH 67/87] fix: setHasLabelImage() crashed on graphs

---
 src/geomap/cppmap.cxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/geomap/cppmap.cxx b/src/geomap/cppmap.cxx
index 34b7e16..83b4683 100644
--- a/src/geomap/cppmap.cxx
+++ b/src/geomap/cppmap.cxx
@@ -997,6 +997,8 @@ void GeoMap::setHasLabelImage(bool onoff)
 
     if(onoff)
     {
+        vigra_precondition(mapInitialized(),
+                           "setHasLabelImage() called on graph (no faces available)");
         vigra_precondition(imageSize_.area() > 0,
                            "initLabelImage: imageSize must be non-zero!");
         std::auto_ptr<LabelImage> newLabelImage(new LabelImage(
-- 
2.43.0


From 8ef5beca9fc0c78b4ed71090f6c846ae2c4f7131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:31:40 +0000
Subject: [PATCH 68/87] fix: initializeMap() left a half-initialized map behind
 if the image size is zero

---
 src/geomap/cppmap.cxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/geomap/cppmap.cxx b/src/geomap/cppmap.cxx
index 83b4683..44ca359 100644
--- a/src/geomap/cppmap.cxx
+++ b/src/geomap/cppmap.cxx
@@ -969,6 +969,8 @@ void GeoMap::initializeMap(bool initLabelImage)
 {
     vigra_precondition(!mapInitialized(),
                        "initializeMap() called more than once");
+    vigra_precondition(!initLabelImage || imageSize_.area() > 0,
+                       "initLabelImage: imageSize must be non-zero!");
     if(!edgesSorted())
         sortEdgesDirectly();
 
-- 
2.43.0


From 2518f5957acfd31ff182891a7aa4c70fc510765c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:31:40 +0000
Subject: [PATCH 69/87] fix: setSigmaMapping() wrote outside of the arrays for
 invalid dart labels

---
 src/geomap/cppmap.cxx | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/geomap/cppmap.cxx b/src/geomap/cppmap.cxx
index 44ca359..c9bd9fc 100644
--- a/src/geomap/cppmap.cxx
+++ b/src/geomap/cppmap.cxx
@@ -950,6 +950,24 @@ void GeoMap::setSigmaMapping(SigmaMapping const &sigmaMapping, bool sorted)
     SigmaMapping::const_iterator sigma(
         sigmaMapping.begin() + (sigmaMapping.size() / 2));
 
+    // the darts of each node must be permuted:
+    std::vector<bool> hasPredecessor(2*edges_.size() - 1, false);
+    for(EdgeIterator it = edgesBegin(); it.inRange(); ++it)
+    {
+        for(int sign = 1; sign >= -1; sign -= 2)
+        {
+            Dart d(dart(sign * (int)(*it)->label()));
+            int successor = sigma[d.label()];
+            vigra_precondition(
+                (CellLabel)abs(successor) < edges_.size() &&
+                edge(abs(successor)) &&
+                dart(successor).startNodeLabel() == d.startNodeLabel() &&
+                !hasPredecessor[successor + (int)edges_.size() - 1],
+                "setSigmaMapping: sigmaMapping is not a permutation of each node's darts!");
+            hasPredecessor[successor + (int)edges_.size() - 1] = true;
+        }
+    }
+
     if(sigmaMappingArray_.size() < 2*edges_.size() - 1)
         resizeSigmaMapping(2*edges_.size() - 1);
 
-- 
2.43.0


From d23508fb5803f15975c63f8f83ecaf912af191a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:31:40 +0000
Subject: [PATCH 70/87] fix: addEdge() crashed if given a removed node

---
 src/geomap/cppmap.hxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/geomap/cppmap.hxx b/src/geomap/cppmap.hxx
index 5bfb3ac..de2b54a 100644
--- a/src/geomap/cppmap.hxx
+++ b/src/geomap/cppmap.hxx
@@ -1424,6 +1424,8 @@ class GeoMap::SigmaAnchor
       nodeLabel_(node.label()),
       map_(node.map())
     {
+        vigra_precondition(node.initialized(),
+            "node of sigma position has been removed");
         vigra_precondition(isSingular_ || !node.map()->edgesSorted(),
             "sigma position of sorted GeoMap not fully specified");
     }
-- 
2.43.0


From 128f44db5d090c76ffe860559fdad99cfbf766a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:31:40 +0000
Subject: [PATCH 71/87] fix: splitParallelEdges() corrupted initialized maps

---
 src/geomap/cppmap.cxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/geomap/cppmap.cxx b/src/geomap/cppmap.cxx
index c9bd9fc..9a56284 100644
--- a/src/geomap/cppmap.cxx
+++ b/src/geomap/cppmap.cxx
@@ -722,6 +722,8 @@ struct MergeDart
 
 void GeoMap::splitParallelEdges()
 {
+    vigra_precondition(!mapInitialized(),
+        "splitParallelEdges() called after initializeMap()");
     vigra_precondition(splitInfo_.get() != NULL,
       "splitParallelEdges(): no planned splits (set splitEdges parameter of sortEdgesEventually?)");
 
-- 
2.43.0


From bb9992423eb59eb6490f67e36576f62f555f3054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:33:04 +0000
Subject: [PATCH 72/87] fix: splitParallelEdges() did not detach relocated
 darts from the node it removes

---
 src/geomap/cppmap.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/geomap/cppmap.cxx b/src/geomap/cppmap.cxx
index 9a56284..3f27d8c 100644
--- a/src/geomap/cppmap.cxx
+++ b/src/geomap/cppmap.cxx
@@ -866,6 +866,7 @@ void GeoMap::splitParallelEdges()
                 // checkConsistency(); // no modification should've happened so far
 
                 // re-attach relocateDart to surviving node
+                detachDart(relocateDart.label()); // (while it still starts at the node to be merged)
                 GeoMap::EdgePtr relocateEdge(relocateDart.edge());
                 if(relocateDart.label() < 0)
                 {
@@ -879,7 +880,6 @@ void GeoMap::splitParallelEdges()
                     (*relocateEdge)[0] = survivingNode.position();
                 }
 
-                detachDart(relocateDart.label());
                 insertSigmaPredecessor(sigmaNeighborLabel, relocateDart.label());
                 sigmaNeighborLabel = relocateDart.label();
 
@@ -913,6 +913,7 @@ void GeoMap::splitParallelEdges()
             relocateDart.nextSigma();
 
             // re-attach relocateDart to surviving node
+            detachDart(relocateDart.label()); // (while it still starts at the node to be merged)
             GeoMap::EdgePtr relocateEdge(relocateDart.edge());
             if(relocateDart.label() < 0)
             {
@@ -925,7 +926,6 @@ void GeoMap::splitParallelEdges()
                 relocateEdge->startNodeLabel_ = survivingNode.label();
                 (*relocateEdge)[0] = survivingNode.position();
             }
-            detachDart(relocateDart.label());
             insertSigmaPredecessor(sigmaNeighborLabel, relocateDart.label());
 
             // propagate flags set on any of the merged edges to the
-- 
2.43.0


From 4b5314ef3ba74b2b9ff0e83d71e3774e0bcc8890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:36:31 +0000
Subject: [PATCH 73/87] fix: removeEdge() crashed for removed darts of
 initialized maps

---
 src/geomap/cppmap.cxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/geomap/cppmap.cxx b/src/geomap/cppmap.cxx
index 3f27d8c..c3e06c5 100644
--- a/src/geomap/cppmap.cxx
+++ b/src/geomap/cppmap.cxx
@@ -404,6 +404,9 @@ GeoMap::EdgePtr GeoMap::addEdge(
 
 GeoMap::FacePtr GeoMap::removeEdge(const GeoMap::Dart &dart)
 {
+    vigra_precondition(static_cast<bool>(dart.edge()),
+                       "removeEdge called on removed dart!");
+
     if(mapInitialized())
     {
         if(dart.edge()->isBridge())
-- 
2.43.0


From 4e3068785465e3ec2aed055e07f30197c9e64e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:10:19 +0000
Subject: [PATCH 74/87] fix: sortEdgesEventually() overlooked parallel darts
 around the angle of 180 degrees if no other darts follow

---
 src/geomap/cppmap.cxx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/geomap/cppmap.cxx b/src/geomap/cppmap.cxx
index c3e06c5..ba65863 100644
--- a/src/geomap/cppmap.cxx
+++ b/src/geomap/cppmap.cxx
@@ -550,8 +550,10 @@ void sortEdgesInternal(const Vector2 &currentPos,
     {
         // first and last dart are less than minAngle apart,..
         DPAI prev(firstGroupStart);
-        while(--firstGroupStart > dpBegin)
+        while(firstGroupStart != dpBegin)
         {
+            --firstGroupStart;
+
             // ..determine last decision point..
             if(prev->angle - firstGroupStart->angle >= minAngle)
             {
-- 
2.43.0


From 915f592f3fe3a5552f184b915f108a474488d766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:10:19 +0000
Subject: [PATCH 75/87] fix: sortEdgesDirectly() changed the order at some
 nodes before it failed

---
 src/geomap/cppmap.cxx | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/geomap/cppmap.cxx b/src/geomap/cppmap.cxx
index ba65863..6b027a1 100644
--- a/src/geomap/cppmap.cxx
+++ b/src/geomap/cppmap.cxx
@@ -433,12 +433,15 @@ void GeoMap::sortEdgesDirectly()
 
     typedef std::pair<double, int> DartAngle; // dart (angle, label) pairs
 
+    // (all nodes are checked before any orbit is changed)
+    std::vector<std::vector<DartAngle> > sortedDarts;
     for(NodeIterator it = nodesBegin(); it.inRange(); ++it)
     {
         if((*it)->isIsolated())
             continue;
 
-        std::vector<DartAngle> dartAngles;
+        sortedDarts.push_back(std::vector<DartAngle>());
+        std::vector<DartAngle> &dartAngles(sortedDarts.back());
 
         GeoMap::Dart anchor((*it)->anchor()), d(anchor);
         do
@@ -454,7 +457,6 @@ void GeoMap::sortEdgesDirectly()
 
         std::sort(dartAngles.begin(), dartAngles.end());
 
-        // (check before changing anything, orbits must stay valid)
         for(unsigned int i = 1; i < dartAngles.size(); ++i)
         {
             if(dartAngles[i-1].first == dartAngles[i].first)
@@ -468,6 +470,11 @@ void GeoMap::sortEdgesDirectly()
                 vigra_precondition(false, s.str());
             }
         }
+    }
+
+    for(unsigned int n = 0; n < sortedDarts.size(); ++n)
+    {
+        std::vector<DartAngle> &dartAngles(sortedDarts[n]);
 
         int predecessor = dartAngles[0].second;
         for(unsigned int i = 1; i < dartAngles.size(); ++i)
-- 
2.43.0


From 52f2032b6be978537891cdfff53de235e5228b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:33:37 +0000
Subject: [PATCH 76/87] fix: contour() of an infinite face without edges read
 past the (empty) list of contours

---
 python/maputils/maputils.py | 5 +++--
 src/geomap/cppmap.hxx       | 2 ++
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/python/maputils/maputils.py b/python/maputils/maputils.py
index 9cda9eb..9ceeb01 100644
--- a/python/maputils/maputils.py
+++ b/python/maputils/maputils.py
@@ -2335,8 +2335,9 @@ def dualMap(map, edgeLabels = None, nodePositions = None, midPoints = None,
     result = geomap.GeoMap(map.imageSize())
 
     if nodePositions is None:
-        nodePositions = mapValidFaces(lambda face: geomap.centroid(
-            geomap.contourPoly(face.contour())), map)
+        nodePositions = mapValidFaces(
+            lambda face: face.label() and geomap.centroid(
+                geomap.contourPoly(face.contour())) or None, map)
 
     nodes = [None] * map.maxFaceLabel()
     for face in map.faceIter(skipInfinite = True):
diff --git a/src/geomap/cppmap.hxx b/src/geomap/cppmap.hxx
index de2b54a..efbd2a8 100644
--- a/src/geomap/cppmap.hxx
+++ b/src/geomap/cppmap.hxx
@@ -1250,6 +1250,8 @@ class GeoMap::Face : boost::noncopyable
 
     const Dart &contour()
     {
+        vigra_precondition(!anchors_.empty(),
+                           "contour() of a face without contours!");
         return *contoursBegin();
     }
 
-- 
2.43.0


From 124eb177f1e979c18e86da14f95b17e706d15cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:33:37 +0000
Subject: [PATCH 77/87] fix: dualMap() tried to sort Edge objects, which have
 no order

---
 python/maputils/maputils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/maputils/maputils.py b/python/maputils/maputils.py
index 9ceeb01..7b561af 100644
--- a/python/maputils/maputils.py
+++ b/python/maputils/maputils.py
@@ -2348,9 +2348,9 @@ def dualMap(map, edgeLabels = None, nodePositions = None, midPoints = None,
     if edgeLabels is None:
         edgeLabels = map.edgeIter()
 
-    for edge in sorted(edgeLabels):
-        if not hasattr(edge, "label"):
-            edge = map.edge(edge)
+    for edgeLabel in sorted([hasattr(edge, "label") and edge.label() or edge
+                             for edge in edgeLabels]):
+        edge = map.edge(edgeLabel)
         assert not edge.isBridge(), "bridges not supported yet (would need to create self-loops around end node in dual map)"
         sn = nodes[edge.leftFaceLabel()]
         en = nodes[edge.rightFaceLabel()]
-- 
2.43.0


From 66618df4ad9b1f7e418574738dd46ff63e9e4923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:33:37 +0000
Subject: [PATCH 78/87] fix: seededRegionGrowingStatic() ignored and overwrote
 seeds labelled 0

---
 python/maputils/maputils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/python/maputils/maputils.py b/python/maputils/maputils.py
index 7b561af..d5004be 100644
--- a/python/maputils/maputils.py
+++ b/python/maputils/maputils.py
@@ -2019,21 +2019,21 @@ def seededRegionGrowingStatic(map, faceLabels, edgeCosts):
 
     heap = []
     for face in map.faceIter():
-        if not faceLabels[face.label()]:
+        if faceLabels[face.label()] is None:
             continue
         for dart in contourDarts(face):
-            if not faceLabels[dart.rightFaceLabel()]:
+            if faceLabels[dart.rightFaceLabel()] is None:
                 cost = edgeCosts[dart.edgeLabel()]
                 if cost != None:
                     heappush(heap, (cost, dart.label()))
     while heap:
         _, dartLabel = heappop(heap)
         dart = map.dart(dartLabel)
-        if faceLabels[dart.rightFaceLabel()]:
+        if faceLabels[dart.rightFaceLabel()] is not None:
             continue # labeled in the meantime
         faceLabels[dart.rightFaceLabel()] = faceLabels[dart.leftFaceLabel()]
         for dart in contourDarts(dart.rightFace()):
-            if not faceLabels[dart.rightFaceLabel()]:
+            if faceLabels[dart.rightFaceLabel()] is None:
                 cost = edgeCosts[dart.edgeLabel()]
                 if cost != None:
                     heappush(heap, (cost, dart.label()))
-- 
2.43.0


From e740224b435953f1e0ab92129714fe37adcb5c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:33:37 +0000
Subject: [PATCH 79/87] fix: checkCachedPropertyConsistency() compared face
 areas with the area of their outer contours

---
 python/maputils/maputils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/maputils/maputils.py b/python/maputils/maputils.py
index d5004be..3de034b 100644
--- a/python/maputils/maputils.py
+++ b/python/maputils/maputils.py
@@ -1079,7 +1079,7 @@ def checkCachedPropertyConsistency(aMap):
     for face in aMap.faceIter():
         bbox = geomap.BoundingBox()
         area = 0.0
-        for dart in face.contour().phiOrbit():
+        for dart in contourDarts(face):
             edge = realPolys[dart.edgeLabel()]
             bbox |= edge.boundingBox()
             if dart.edge().isBridge():
-- 
2.43.0


From 83561f13535772ba04e343cc3169421f25df40c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:01:41 +0000
Subject: [PATCH 80/87] fix: dualMap() added midpoints to edges that do
 intersect their duals (in the first or last segment)

---
 python/maputils/maputils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/maputils/maputils.py b/python/maputils/maputils.py
index 3de034b..6860b20 100644
--- a/python/maputils/maputils.py
+++ b/python/maputils/maputils.py
@@ -2363,7 +2363,7 @@ def dualMap(map, edgeLabels = None, nodePositions = None, midPoints = None,
                 # auto-detect if midPoint is necessary (no intersection):
                 clipped = geomap.intersectLine(edge, poly[0], poly[1])
                 midPoint = not len(clipped) or (
-                    len(clipped) == 1 and len(clipped[0]) == len(edge))
+                    len(clipped) == 1 and list(clipped[0]) == list(edge))
             if midPoint:
                 dp = geomap.DartPosition(edge.dart())
                 dp.gotoArcLength(edge.length()/2)
-- 
2.43.0


From 19b108eaec0105bd27e40af55dd276b1da1d0572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:02:46 +0000
Subject: [PATCH 81/87] fix: pointInFace() returned points within holes of the
 face

---
 python/maputils/maputils.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/python/maputils/maputils.py b/python/maputils/maputils.py
index 6860b20..996851f 100644
--- a/python/maputils/maputils.py
+++ b/python/maputils/maputils.py
@@ -1718,8 +1718,11 @@ def pointInFace(face, level = 2):
         inside = 0
         x = 0
         for seg in sl[y]:
-            if inside and x < seg.begin:
-                return (x, y)
+            if inside:
+                for insideX in range(x, seg.begin):
+                    # the scanlines do not take holes into account
+                    if face.contains((insideX, y)):
+                        return (insideX, y)
             x = seg.end
             inside += seg.direction
 
-- 
2.43.0


From 232a31120261b39b397ffd3f3a50fa86e6e5073a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:02:46 +0000
Subject: [PATCH 82/87] fix: pointInFace() failed for faces that contain
 neither a pixel nor their centroid

---
 python/maputils/maputils.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/python/maputils/maputils.py b/python/maputils/maputils.py
index 996851f..7984e87 100644
--- a/python/maputils/maputils.py
+++ b/python/maputils/maputils.py
@@ -1735,19 +1735,21 @@ def pointInFace(face, level = 2):
     def subsampledPoint(face, level = 2):
         result = []
         bbox = face.boundingBox()
-        midPoint = (bbox.begin() + bbox.end())/2
+        midPoint = (numpy.array(bbox.begin()) + bbox.end())/2
         xRange = numpy.arange(bbox.begin()[0], bbox.end()[0], 1.0/level)
         for y in numpy.arange(bbox.begin()[1], bbox.end()[1], 1.0/level):
             for x in xRange:
                 p = (x, y)
                 if face.contains(p):
-                    result.append(((p-midPoint).squaredMagnitude(), p))
+                    result.append((numpy.square(p-midPoint).sum(), p))
         if not result:
-            return _pointInHole(face, level+1)
+            if level > 256:
+                raise RuntimeError("pointInFace: no point found inside %s!" % face)
+            return subsampledPoint(face, 2*level)
         result.sort()
         return result[0][1]
 
-    return subsampledPoint(face)
+    return subsampledPoint(face, level)
 
 def facePixels(face): # TODO: add ROI parameter to restrict range?
     """Generator function that iterates over the pixels within a face
-- 
2.43.0


From 4955d9bbda6f7602ef91626f7670786aa61b8a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:25 +0000
Subject: [PATCH 83/87] fix: SubPixelWatersheds.edge() read beyond the saddles
 for invalid indices and before they were searched

---
 src/python_bindings/subpixel_watersheds.cxx | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/python_bindings/subpixel_watersheds.cxx b/src/python_bindings/subpixel_watersheds.cxx
index a4b6cdb..af754f4 100644
--- a/src/python_bindings/subpixel_watersheds.cxx
+++ b/src/python_bindings/subpixel_watersheds.cxx
@@ -95,6 +95,15 @@ class SPWSWrapper : public SPWSType
     python::object
     edge(int index)
     {
+        if(this->saddles_.size() == 0)
+            this->findCriticalPoints();
+        if(index < 1 || index >= (int)this->saddles_.size())
+        {
+            PyErr_SetString(PyExc_IndexError,
+                            "SubPixelWatersheds.edge(): invalid saddle index");
+            python::throw_error_already_set();
+        }
+
         double x = this->saddles_[index][0];
         double y = this->saddles_[index][1];
 
-- 
2.43.0


From 6ea822e53b11a365b9d09c4915e34767ba1ef083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:25 +0000
Subject: [PATCH 84/87] fix: SubPixelWatersheds.findCriticalPoints() read
 beyond masks smaller than the image

---
 src/python_bindings/subpixel_watersheds.cxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/python_bindings/subpixel_watersheds.cxx b/src/python_bindings/subpixel_watersheds.cxx
index af754f4..493c05b 100644
--- a/src/python_bindings/subpixel_watersheds.cxx
+++ b/src/python_bindings/subpixel_watersheds.cxx
@@ -47,6 +47,9 @@ class SPWSWrapper : public SPWSType
     void
     findCriticalPointsIf(NumpyFImage const & mask)
     {
+        vigra_precondition(mask.shape(0) == this->width() &&
+                           mask.shape(1) == this->height(),
+            "findCriticalPoints(): mask must have the size of the image");
         this->findCriticalPoints(srcImage(mask));
     }
 
-- 
2.43.0


From e0e08d0ebab21800baaaf8d70654c2c60f9b6479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:11 +0000
Subject: [PATCH 85/87] fix: SubPixelWatersheds kept the points of an
 interrupted search as if it had been complete

---
 src/geomap/vigra/subpixel_watershed.hxx | 32 ++++++++++++++-----------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/src/geomap/vigra/subpixel_watershed.hxx b/src/geomap/vigra/subpixel_watershed.hxx
index 0486454..2e3fbbc 100644
--- a/src/geomap/vigra/subpixel_watershed.hxx
+++ b/src/geomap/vigra/subpixel_watershed.hxx
@@ -1493,16 +1493,18 @@ template<class MaskIterator, class MaskAccessor>
 void SubPixelWatersheds<SplineImageView>::findCriticalPoints(
     pair<MaskIterator, MaskAccessor> mask)
 {
-    minima_.clear();
-    saddles_.clear();
-    maxima_.clear();
+    PointArray minima, saddles, maxima;
     // use 1-based arrays
-    minima_.push_back(PointType());
-    saddles_.push_back(PointType());
-    maxima_.push_back(PointType());
+    minima.push_back(PointType());
+    saddles.push_back(PointType());
+    maxima.push_back(PointType());
 
     findCriticalPointsNewtonMethodIf(
-        image_, mask, &minima_, &saddles_, &maxima_, minCPDist_, stepEpsilon_, cpOversampling_);
+        image_, mask, &minima, &saddles, &maxima, minCPDist_, stepEpsilon_, cpOversampling_);
+    // (only now, since the search may throw)
+    minima_.swap(minima);
+    saddles_.swap(saddles);
+    maxima_.swap(maxima);
     updateMaxImage();
 }
 
@@ -1510,13 +1512,11 @@ template <class SplineImageView>
 void
 SubPixelWatersheds<SplineImageView>::findCriticalPoints()
 {
-    minima_.clear();
-    saddles_.clear();
-    maxima_.clear();
+    PointArray minima, saddles, maxima;
     // use 1-based arrays
-    minima_.push_back(PointType());
-    saddles_.push_back(PointType());
-    maxima_.push_back(PointType());
+    minima.push_back(PointType());
+    saddles.push_back(PointType());
+    maxima.push_back(PointType());
 
 //     sturmcount = 0;
 //     zeroOrder = 0;
@@ -1529,7 +1529,11 @@ SubPixelWatersheds<SplineImageView>::findCriticalPoints()
 //         }
 //     }
     findCriticalPointsNewtonMethod(
-        image_, &minima_, &saddles_, &maxima_, minCPDist_, stepEpsilon_, cpOversampling_);
+        image_, &minima, &saddles, &maxima, minCPDist_, stepEpsilon_, cpOversampling_);
+    // (only now, since the search may throw)
+    minima_.swap(minima);
+    saddles_.swap(saddles);
+    maxima_.swap(maxima);
     updateMaxImage();
 //     std::cerr << "Sturm fired: " << sturmcount << " times\n";
 //     std::cerr << "Zero order fired: " << zeroOrder << " times\n";
-- 
2.43.0


From 5bfe138e0b8d8ccf7bf5d9c1edaba85dc5c322f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:52 +0000
Subject: [PATCH 86/87] fix: tangentDSL() divided by zero without codes and
 read before the codes for negative indices of closed contours

---
 src/geomap/vigra/dsl.hxx | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/geomap/vigra/dsl.hxx b/src/geomap/vigra/dsl.hxx
index 8588e7e..7af9dc0 100644
--- a/src/geomap/vigra/dsl.hxx
+++ b/src/geomap/vigra/dsl.hxx
@@ -213,7 +213,13 @@ int tangentDSL(FreemanCodeIter freemanCodesBegin,
         "tangentDSL: cannot find tangent at end of open poly!");
 
     if(closed)
-        pointIndex %= freemanCodesEnd - freemanCodesBegin;
+    {
+        int count = freemanCodesEnd - freemanCodesBegin;
+        vigra_precondition(count > 0, "tangentDSL: no freeman codes given!");
+        pointIndex %= count;
+        if(pointIndex < 0)
+            pointIndex += count;
+    }
 
     // FreemanCodes should be integers;
     // freemanCode & 1 must be a valid expression
-- 
2.43.0


From 203d03c65af65b88e93fa062f60345ec53b6eab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:52 +0000
Subject: [PATCH 87/87] fix: tangentDSL() did not end for codes that do not
 close, its assertion about that was inverted

---
 src/geomap/vigra/dsl.hxx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/geomap/vigra/dsl.hxx b/src/geomap/vigra/dsl.hxx
index 7af9dc0..c32c34c 100644
--- a/src/geomap/vigra/dsl.hxx
+++ b/src/geomap/vigra/dsl.hxx
@@ -245,8 +245,8 @@ int tangentDSL(FreemanCodeIter freemanCodesBegin,
             else
                 return 0;
         }
-        vigra_assert(forwardIter != freemanCodesStart,
-                     "even for closed crack-edge polygons, we should not cycle!");
+        vigra_precondition(forwardIter != freemanCodesStart,
+            "even for closed crack-edge polygons, we should not cycle!");
 
         // advance backwardIter
         if(backwardIter == freemanCodesBegin)
@@ -257,8 +257,6 @@ int tangentDSL(FreemanCodeIter freemanCodesBegin,
                 return 0;
         }
         --backwardIter;
-        vigra_assert(backwardIter == freemanCodesStart,
-                     "even for closed crack-edge polygons, we should not cycle!");
 
         // check whether we have two different codes now:
         if(*forwardIter != fc2)
@@ -309,6 +307,8 @@ int tangentDSL(FreemanCodeIter freemanCodesBegin,
         // result is valid, store:
         dsl = tangent;
         ++dist;
+        vigra_precondition(dist < freemanCodesEnd - freemanCodesBegin,
+            "even for closed crack-edge polygons, we should not cycle!");
 
         ++forwardIter;
         if(forwardIter == freemanCodesEnd)
-- 
2.43.0

