From de55189804af91963ca1091fc32585354b4aba1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:16:49 +0000
Subject: [PATCH 01/29] fix: volume() of a polygon reads its first point
 through the point accessor (did not compile)

---
 viennagrid/algorithm/volume.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viennagrid/algorithm/volume.hpp b/viennagrid/algorithm/volume.hpp
index 4f7d491..af864f0 100644
--- a/viennagrid/algorithm/volume.hpp
+++ b/viennagrid/algorithm/volume.hpp
@@ -112,7 +112,7 @@ namespace viennagrid
       VertexOnCellIterator it1 = range.begin();
       VertexOnCellIterator it2 = it1; ++it2;
 
-      PointType origin = it1->point();
+      PointType origin = accessor(*it1);
 
       NumericType volume = 0;
 
-- 
2.43.0


From 7a18b5eebd7c65883944a1130b16a81e162ec523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:16:49 +0000
Subject: [PATCH 02/29] fix: volume() of a quadrilateral uses the documented
 (tensor) vertex order

---
 viennagrid/algorithm/volume.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viennagrid/algorithm/volume.hpp b/viennagrid/algorithm/volume.hpp
index af864f0..acd52f1 100644
--- a/viennagrid/algorithm/volume.hpp
+++ b/viennagrid/algorithm/volume.hpp
@@ -92,7 +92,7 @@ namespace viennagrid
       PointType const & p2 = accessor( vertices(cell)[2] );
       PointType const & p3 = accessor( vertices(cell)[3] );
 
-      return spanned_volume(p0, p1, p3) + spanned_volume(p1, p2, p3); //sum up the two triangular parts
+      return spanned_volume(p0, p1, p3) + spanned_volume(p0, p2, p3); //sum up the two triangular parts (vertices 0 and 3 are opposite)
     }
 
 
-- 
2.43.0


From f9d77455695ba23529bb109c47538f2f0ab6aa51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:16:50 +0000
Subject: [PATCH 03/29] fix: volume() of a hexahedron uses the documented
 (tensor) vertex order

---
 viennagrid/algorithm/volume.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/viennagrid/algorithm/volume.hpp b/viennagrid/algorithm/volume.hpp
index acd52f1..2bba5cd 100644
--- a/viennagrid/algorithm/volume.hpp
+++ b/viennagrid/algorithm/volume.hpp
@@ -160,13 +160,13 @@ namespace viennagrid
       PointType const & p6 = accessor( vertices(cell)[6] );
       PointType const & p7 = accessor( vertices(cell)[7] );
 
-      //decompose hexahedron into six tetrahedra
-      return spanned_volume(p0, p1, p3, p4)
-             + spanned_volume(p4, p1, p3, p7)
-             + spanned_volume(p4, p1, p7, p5)
-             + spanned_volume(p1, p2, p3, p7)
-             + spanned_volume(p1, p2, p7, p5)
-             + spanned_volume(p5, p2, p7, p6);
+      //decompose hexahedron into six tetrahedra sharing the diagonal from vertex 0 to vertex 7
+      return spanned_volume(p0, p1, p3, p7)
+             + spanned_volume(p0, p1, p5, p7)
+             + spanned_volume(p0, p2, p3, p7)
+             + spanned_volume(p0, p2, p6, p7)
+             + spanned_volume(p0, p4, p5, p7)
+             + spanned_volume(p0, p4, p6, p7);
     }
 
 
-- 
2.43.0


From ee70cdc6866ac615127a90f7a9e7493e746d7040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:45 +0000
Subject: [PATCH 04/29] fix: seventh edge of a hexahedron connects local
 vertices 2 and 6, not 2 and 5

---
 viennagrid/topology/hexahedron.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viennagrid/topology/hexahedron.hpp b/viennagrid/topology/hexahedron.hpp
index a456043..fae8b53 100644
--- a/viennagrid/topology/hexahedron.hpp
+++ b/viennagrid/topology/hexahedron.hpp
@@ -111,7 +111,7 @@ namespace viennagrid
         element.set_boundary_element( boundary_element, inserter.template insert<true, true>(boundary_element), index++ );
 
         boundary_element.container(dimension_tag<0>()).set_handle( element.container( dimension_tag<0>() ).handle_at(2), 0 );
-        boundary_element.container(dimension_tag<0>()).set_handle( element.container( dimension_tag<0>() ).handle_at(5), 1 );
+        boundary_element.container(dimension_tag<0>()).set_handle( element.container( dimension_tag<0>() ).handle_at(6), 1 );
         element.set_boundary_element( boundary_element, inserter.template insert<true, true>(boundary_element), index++ );
 
         boundary_element.container(dimension_tag<0>()).set_handle( element.container( dimension_tag<0>() ).handle_at(3), 0 );
-- 
2.43.0


From 3f1c5430ab7a1f273f91b0b7a8c72a4a326b5fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:46 +0000
Subject: [PATCH 05/29] fix: id generator never reissues an explicitly given id
 equal to the next generated one

---
 viennagrid/storage/id_generator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viennagrid/storage/id_generator.hpp b/viennagrid/storage/id_generator.hpp
index e594fe4..5930e06 100644
--- a/viennagrid/storage/id_generator.hpp
+++ b/viennagrid/storage/id_generator.hpp
@@ -120,7 +120,7 @@ namespace viennagrid
       using base::set_max_id;
       void set_max_id( id_type last_id_ )
       {
-        if (last_id_ > last_id)
+        if (last_id_ >= last_id)
         {
           last_id = last_id_;
           ++last_id;
-- 
2.43.0


From 9893a911ccddc46c58c75c8e51a4d259134cfe74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:53 +0000
Subject: [PATCH 06/29] fix: is_boundary(host element, element) iterates the
 boundary elements of the host (did not compile)

---
 viennagrid/algorithm/boundary.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viennagrid/algorithm/boundary.hpp b/viennagrid/algorithm/boundary.hpp
index 40118d2..f55c3e8 100644
--- a/viennagrid/algorithm/boundary.hpp
+++ b/viennagrid/algorithm/boundary.hpp
@@ -282,7 +282,7 @@ namespace viennagrid
                    viennagrid::element<ElementTag2, WrappedConfigT2> const & element)
   {
 
-    typedef typename viennagrid::result_of::const_element_range<viennagrid::element<ElementTag2, WrappedConfigT2>, ElementTag1>::type   BoundaryRange;
+    typedef typename viennagrid::result_of::const_element_range<viennagrid::element<ElementTag1, WrappedConfigT1>, ElementTag2>::type   BoundaryRange;
     typedef typename viennagrid::result_of::iterator<BoundaryRange>::type               BoundaryIterator;
 
     BoundaryRange bnd_cells(host_element);
-- 
2.43.0


From bbb2605f65f5af229159a57fb82d693dbc98f66c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:38:24 +0000
Subject: [PATCH 07/29] fix: postfix ++/-- of container and view iterators
 return the old position

---
 viennagrid/storage/container.hpp | 32 ++++++++++++++++----------------
 viennagrid/storage/view.hpp      | 32 ++++++++++++++++----------------
 2 files changed, 32 insertions(+), 32 deletions(-)

diff --git a/viennagrid/storage/container.hpp b/viennagrid/storage/container.hpp
index d934cbb..0dec7e0 100644
--- a/viennagrid/storage/container.hpp
+++ b/viennagrid/storage/container.hpp
@@ -95,10 +95,10 @@ namespace viennagrid
       iterator(base_iterator const & it) : base_iterator(it) {}
 
       iterator & operator++() { base_iterator::operator++(); return *this; }
-      iterator operator++(int) { base_iterator::operator++(int()); return *this; }
+      iterator operator++(int) { iterator tmp(*this); base_iterator::operator++(); return tmp; }
 
       iterator & operator--() { base_iterator::operator--(); return *this; }
-      iterator operator--(int) { base_iterator::operator--(int()); return *this; }
+      iterator operator--(int) { iterator tmp(*this); base_iterator::operator--(); return tmp; }
 
       value_type & value() { return base_iterator::operator*(); }
       value_type const &  value() const { return base_iterator::operator*(); }
@@ -125,10 +125,10 @@ namespace viennagrid
       iterator(base_iterator const & it) : base_iterator(it) {}
 
       iterator & operator++() { base_iterator::operator++(); return *this; }
-      iterator operator++(int) { base_iterator::operator++(int()); return *this; }
+      iterator operator++(int) { iterator tmp(*this); base_iterator::operator++(); return tmp; }
 
       iterator & operator--() { base_iterator::operator--(); return *this; }
-      iterator operator--(int) { base_iterator::operator--(int()); return *this; }
+      iterator operator--(int) { iterator tmp(*this); base_iterator::operator--(); return tmp; }
 
       value_type & value() { return base_iterator::operator*(); }
       value_type const &  value() const { return base_iterator::operator*(); }
@@ -159,10 +159,10 @@ namespace viennagrid
       iterator(base_iterator const & it) : base_iterator(it) {}
 
       iterator & operator++() { base_iterator::operator++(); return *this; }
-      iterator operator++(int) { base_iterator::operator++(int()); return *this; }
+      iterator operator++(int) { iterator tmp(*this); base_iterator::operator++(); return tmp; }
 
       iterator & operator--() { base_iterator::operator--(); return *this; }
-      iterator operator--(int) { base_iterator::operator--(int()); return *this; }
+      iterator operator--(int) { iterator tmp(*this); base_iterator::operator--(); return tmp; }
 
       value_type & value() { return base_iterator::operator*(); }
       value_type const &  value() const { return base_iterator::operator*(); }
@@ -195,10 +195,10 @@ namespace viennagrid
       iterator(base_iterator const & it) : base_iterator(it) {}
 
       iterator & operator++() { base_iterator::operator++(); return *this; }
-      iterator operator++(int) { base_iterator::operator++(int()); return *this; }
+      iterator operator++(int) { iterator tmp(*this); base_iterator::operator++(); return tmp; }
 
       iterator & operator--() { base_iterator::operator--(); return *this; }
-      iterator operator--(int) { base_iterator::operator--(int()); return *this; }
+      iterator operator--(int) { iterator tmp(*this); base_iterator::operator--(); return tmp; }
 
       value_type & value() { return base_iterator::operator*(); }
       value_type const &  value() const { return base_iterator::operator*(); }
@@ -233,10 +233,10 @@ namespace viennagrid
       const_iterator(base_iterator const & it) : base_const_iterator(it) {}
 
       const_iterator & operator++() { base_const_iterator::operator++(); return *this; }
-      const_iterator operator++(int) { base_const_iterator::operator++(int()); return *this; }
+      const_iterator operator++(int) { const_iterator tmp(*this); base_const_iterator::operator++(); return tmp; }
 
       const_iterator & operator--() { base_const_iterator::operator--(); return *this; }
-      const_iterator operator--(int) { base_const_iterator::operator--(int()); return *this; }
+      const_iterator operator--(int) { const_iterator tmp(*this); base_const_iterator::operator--(); return tmp; }
 
       value_type const & value() { return base_const_iterator::operator*(); }
       value_type const &  value() const { return base_const_iterator::operator*(); }
@@ -264,10 +264,10 @@ namespace viennagrid
       const_iterator(base_iterator const & it) : base_const_iterator(it) {}
 
       const_iterator & operator++() { base_const_iterator::operator++(); return *this; }
-      const_iterator operator++(int) { base_const_iterator::operator++(int()); return *this; }
+      const_iterator operator++(int) { const_iterator tmp(*this); base_const_iterator::operator++(); return tmp; }
 
       const_iterator & operator--() { base_const_iterator::operator--(); return *this; }
-      const_iterator operator--(int) { base_const_iterator::operator--(int()); return *this; }
+      const_iterator operator--(int) { const_iterator tmp(*this); base_const_iterator::operator--(); return tmp; }
 
       value_type const & value() { return base_const_iterator::operator*(); }
       value_type const & value() const { return base_const_iterator::operator*(); }
@@ -299,10 +299,10 @@ namespace viennagrid
       const_iterator(base_iterator const & it) : base_const_iterator(it) {}
 
       const_iterator & operator++() { base_const_iterator::operator++(); return *this; }
-      const_iterator operator++(int) { base_const_iterator::operator++(int()); return *this; }
+      const_iterator operator++(int) { const_iterator tmp(*this); base_const_iterator::operator++(); return tmp; }
 
       const_iterator & operator--() { base_const_iterator::operator--(); return *this; }
-      const_iterator operator--(int) { base_const_iterator::operator--(int()); return *this; }
+      const_iterator operator--(int) { const_iterator tmp(*this); base_const_iterator::operator--(); return tmp; }
 
       value_type const & value() { return base_const_iterator::operator*(); }
       value_type const & value() const { return base_const_iterator::operator*(); }
@@ -336,10 +336,10 @@ namespace viennagrid
       const_iterator(base_iterator const & it) : base_const_iterator(it) {}
 
       const_iterator & operator++() { base_const_iterator::operator++(); return *this; }
-      const_iterator operator++(int) { base_const_iterator::operator++(int()); return *this; }
+      const_iterator operator++(int) { const_iterator tmp(*this); base_const_iterator::operator++(); return tmp; }
 
       const_iterator & operator--() { base_const_iterator::operator--(); return *this; }
-      const_iterator operator--(int) { base_const_iterator::operator--(int()); return *this; }
+      const_iterator operator--(int) { const_iterator tmp(*this); base_const_iterator::operator--(); return tmp; }
 
       value_type const & value() { return base_const_iterator::operator*(); }
       value_type const & value() const { return base_const_iterator::operator*(); }
diff --git a/viennagrid/storage/view.hpp b/viennagrid/storage/view.hpp
index 52fed04..fd5a251 100644
--- a/viennagrid/storage/view.hpp
+++ b/viennagrid/storage/view.hpp
@@ -89,10 +89,10 @@ namespace viennagrid
       pointer operator->() const { return &(operator* ()); }
 
       iterator & operator++() { base::operator++(); return *this; }
-      iterator operator++(int) { base::operator++(int()); return *this; }
+      iterator operator++(int) { iterator tmp(*this); base::operator++(); return tmp; }
 
       iterator & operator--() { base::operator--(); return *this; }
-      iterator operator--(int) { base::operator--(int()); return *this; }
+      iterator operator--(int) { iterator tmp(*this); base::operator--(); return tmp; }
 
     private:
       view * view_;
@@ -123,10 +123,10 @@ namespace viennagrid
       pointer operator->() const { return &(operator* ()); }
 
       const_iterator & operator++() { base::operator++(); return *this; }
-      const_iterator operator++(int) { base::operator++(int()); return *this; }
+      const_iterator operator++(int) { const_iterator tmp(*this); base::operator++(); return tmp; }
 
       const_iterator & operator--() { base::operator--(); return *this; }
-      const_iterator operator--(int) { base::operator--(int()); return *this; }
+      const_iterator operator--(int) { const_iterator tmp(*this); base::operator--(); return tmp; }
 
     private:
       view const * view_;
@@ -156,10 +156,10 @@ namespace viennagrid
       pointer operator->() const { return &(operator* ()); }
 
       reverse_iterator & operator++() { base::operator++(); return *this; }
-      reverse_iterator operator++(int) { base::operator++(int()); return *this; }
+      reverse_iterator operator++(int) { reverse_iterator tmp(*this); base::operator++(); return tmp; }
 
       reverse_iterator & operator--() { base::operator--(); return *this; }
-      reverse_iterator operator--(int) { base::operator--(int()); return *this; }
+      reverse_iterator operator--(int) { reverse_iterator tmp(*this); base::operator--(); return tmp; }
 
     private:
       view * view_;
@@ -190,10 +190,10 @@ namespace viennagrid
       pointer operator->() const { return &(operator* ()); }
 
       const_reverse_iterator & operator++() { base::operator++(); return *this; }
-      const_reverse_iterator operator++(int) { base::operator++(int()); return *this; }
+      const_reverse_iterator operator++(int) { const_reverse_iterator tmp(*this); base::operator++(); return tmp; }
 
       const_reverse_iterator & operator--() { base::operator--(); return *this; }
-      const_reverse_iterator operator--(int) { base::operator--(int()); return *this; }
+      const_reverse_iterator operator--(int) { const_reverse_iterator tmp(*this); base::operator--(); return tmp; }
 
     private:
       view const * view_;
@@ -353,10 +353,10 @@ namespace viennagrid
       pointer operator->() const { return &(operator* ()); }
 
       iterator & operator++() { base::operator++(); return *this; }
-      iterator operator++(int) { base::operator++(int()); return *this; }
+      iterator operator++(int) { iterator tmp(*this); base::operator++(); return tmp; }
 
       iterator & operator--() { base::operator--(); return *this; }
-      iterator operator--(int) { base::operator--(int()); return *this; }
+      iterator operator--(int) { iterator tmp(*this); base::operator--(); return tmp; }
 
     private:
       view * view_;
@@ -387,10 +387,10 @@ namespace viennagrid
       pointer operator->() const { return &(operator* ()); }
 
       const_iterator & operator++() { base::operator++(); return *this; }
-      const_iterator operator++(int) { base::operator++(int()); return *this; }
+      const_iterator operator++(int) { const_iterator tmp(*this); base::operator++(); return tmp; }
 
       const_iterator & operator--() { base::operator--(); return *this; }
-      const_iterator operator--(int) { base::operator--(int()); return *this; }
+      const_iterator operator--(int) { const_iterator tmp(*this); base::operator--(); return tmp; }
 
     private:
       view const * view_;
@@ -420,10 +420,10 @@ namespace viennagrid
       pointer operator->() const { return &(operator* ()); }
 
       reverse_iterator & operator++() { base::operator++(); return *this; }
-      reverse_iterator operator++(int) { base::operator++(int()); return *this; }
+      reverse_iterator operator++(int) { reverse_iterator tmp(*this); base::operator++(); return tmp; }
 
       reverse_iterator & operator--() { base::operator--(); return *this; }
-      reverse_iterator operator--(int) { base::operator--(int()); return *this; }
+      reverse_iterator operator--(int) { reverse_iterator tmp(*this); base::operator--(); return tmp; }
 
     private:
       view * view_;
@@ -454,10 +454,10 @@ namespace viennagrid
       pointer operator->() const { return &(operator* ()); }
 
       const_reverse_iterator & operator++() { base::operator++(); return *this; }
-      const_reverse_iterator operator++(int) { base::operator++(int()); return *this; }
+      const_reverse_iterator operator++(int) { const_reverse_iterator tmp(*this); base::operator++(); return tmp; }
 
       const_reverse_iterator & operator--() { base::operator--(); return *this; }
-      const_reverse_iterator operator--(int) { base::operator--(int()); return *this; }
+      const_reverse_iterator operator--(int) { const_reverse_iterator tmp(*this); base::operator--(); return tmp; }
 
     private:
       view const * view_;
-- 
2.43.0


From 87821ff5a9c7328153a12c1fb36bf6a5445f4d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:38:24 +0000
Subject: [PATCH 08/29] fix: closest_points() of two lines always returns the
 point on the first line first

---
 viennagrid/algorithm/closest_points.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/viennagrid/algorithm/closest_points.hpp b/viennagrid/algorithm/closest_points.hpp
index 4f6bbb0..fe56429 100644
--- a/viennagrid/algorithm/closest_points.hpp
+++ b/viennagrid/algorithm/closest_points.hpp
@@ -291,8 +291,8 @@ namespace viennagrid
 
       if (denominator < 1e-6 * v_in_v * w_in_w) //lines parallel (up to round-off)
       {
-        return point_pair_with_shortest_distance(closest_points_point_line(w0, v0, v1),
-                                                 closest_points_point_line(w1, v0, v1),
+        return point_pair_with_shortest_distance(std::make_pair(closest_points_point_line(w0, v0, v1).second, w0),
+                                                 std::make_pair(closest_points_point_line(w1, v0, v1).second, w1),
                                                  closest_points_point_line(v0, w0, w1),
                                                  closest_points_point_line(v1, w0, w1));
       }
@@ -313,8 +313,8 @@ namespace viennagrid
 
       //Check whether minimizing distance is within line segment, i.e. s,t \in [0,1]
       if ( (s < 0) || (s > 1) || (t < 0) || (t > 1) ) //Note: A more fine-grained check is possible for those looking for optimizations
-        return point_pair_with_shortest_distance(closest_points_point_line(w0, v0, v1),
-                                                 closest_points_point_line(w1, v0, v1),
+        return point_pair_with_shortest_distance(std::make_pair(closest_points_point_line(w0, v0, v1).second, w0),
+                                                 std::make_pair(closest_points_point_line(w1, v0, v1).second, w1),
                                                  closest_points_point_line(v0, w0, w1),
                                                  closest_points_point_line(v1, w0, w1));
 
-- 
2.43.0


From e915665fef11771441a94b279248f9731dfeaf1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:05 +0000
Subject: [PATCH 09/29] fix: erase(segment, element) removes the element itself
 from the segment, not only the elements containing it

---
 viennagrid/mesh/segmentation.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/viennagrid/mesh/segmentation.hpp b/viennagrid/mesh/segmentation.hpp
index b24bc77..acf3872 100644
--- a/viennagrid/mesh/segmentation.hpp
+++ b/viennagrid/mesh/segmentation.hpp
@@ -2158,6 +2158,7 @@ namespace viennagrid
   {
     typedef typename viennagrid::result_of::mesh_view<SegmentHandleT>::type ToEraseViewT;
     ToEraseViewT elements_to_erase = viennagrid::make_view(segment);
+    viennagrid::elements< viennagrid::element<ElementTagT, WrappedConfigT> >(elements_to_erase).insert_unique_handle( viennagrid::handle(segment, element) );
     viennagrid::mark_referencing_elements( segment, elements_to_erase, viennagrid::handle(segment, element) );
 
     detail::non_recursive_erase_functor<SegmentHandleT> functor( segment );
-- 
2.43.0


From 3def6cd7a598e0fe0ff7efd9c4119d261ea384c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:05 +0000
Subject: [PATCH 10/29] fix: clear(segment) also removes the elements from the
 segment-element information

---
 viennagrid/mesh/segmentation.hpp | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/viennagrid/mesh/segmentation.hpp b/viennagrid/mesh/segmentation.hpp
index acf3872..3652ce8 100644
--- a/viennagrid/mesh/segmentation.hpp
+++ b/viennagrid/mesh/segmentation.hpp
@@ -147,15 +147,6 @@ namespace viennagrid
     segment_type * segment_;
   };
 
-  /** @brief Completely clears a segmentation
-    *
-    */
-  template<typename SegmentationT>
-  void clear( segment_handle<SegmentationT> & segment_ )
-  {
-    segment_.view().clear();
-  }
-
   namespace result_of
   {
     /** \cond */
@@ -2165,6 +2156,20 @@ namespace viennagrid
     viennagrid::for_each(elements_to_erase, functor);
   }
 
+  /** @brief Completely clears a segment: all elements are removed from the segment
+    *
+    */
+  template<typename SegmentationT>
+  void clear( segment_handle<SegmentationT> & segment_ )
+  {
+    typedef typename viennagrid::result_of::mesh_view< segment_handle<SegmentationT> >::type ToEraseViewT;
+    ToEraseViewT elements_to_erase = viennagrid::make_view(segment_);
+    viennagrid::handle_mesh( segment_.view(), elements_to_erase );
+
+    detail::non_recursive_erase_functor< segment_handle<SegmentationT> > functor( segment_ );
+    viennagrid::for_each(elements_to_erase, functor);
+  }
+
 
   namespace detail
   {
-- 
2.43.0


From b2c80eae13ecb66efefd5cfd3275e241f0c9981e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:05 +0000
Subject: [PATCH 11/29] fix: clearing or re-initializing a segmentation also
 forgets segment names and elements

---
 viennagrid/mesh/segmentation.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/viennagrid/mesh/segmentation.hpp b/viennagrid/mesh/segmentation.hpp
index 3652ce8..2026f57 100644
--- a/viennagrid/mesh/segmentation.hpp
+++ b/viennagrid/mesh/segmentation.hpp
@@ -566,9 +566,8 @@ namespace viennagrid
       */
     void init( mesh_type & mesh_x )
     {
-      highest_id = -1;
       mesh_ = &mesh_x;
-      all_elements_ = viennagrid::make_view(*mesh_);
+      clear();
     }
 
 
@@ -907,7 +906,9 @@ namespace viennagrid
     {
       highest_id = -1;
       segment_id_map.clear();
+      segment_name_map.clear();
       segments.clear();
+      all_elements_ = viennagrid::make_view(*mesh_);
       appendix_ = appendix_type();
     }
 
-- 
2.43.0


From e1d2c364b9f12299b1689b81ee404a81d368cd7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:05 +0000
Subject: [PATCH 12/29] fix: segmentation::at(name) returns the segment (did
 not compile)

---
 viennagrid/mesh/segmentation.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viennagrid/mesh/segmentation.hpp b/viennagrid/mesh/segmentation.hpp
index 2026f57..d6ed2ad 100644
--- a/viennagrid/mesh/segmentation.hpp
+++ b/viennagrid/mesh/segmentation.hpp
@@ -788,7 +788,7 @@ namespace viennagrid
       typename segment_name_map_type::const_iterator it = segment_name_map.find(segment_name);
       if( it == segment_name_map.end() )
         throw viennagrid::segment_name_not_found_exception(segment_name);
-      return it->second;
+      return *(it->second);
     }
 
 
-- 
2.43.0


From d38e5912009e4c3fa12946cc03dd5b3224440c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:05 +0000
Subject: [PATCH 13/29] fix: a segment whose default name is taken is not left
 behind when segment_name_collision_exception is thrown

---
 viennagrid/mesh/segmentation.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/viennagrid/mesh/segmentation.hpp b/viennagrid/mesh/segmentation.hpp
index d6ed2ad..00fed85 100644
--- a/viennagrid/mesh/segmentation.hpp
+++ b/viennagrid/mesh/segmentation.hpp
@@ -667,6 +667,12 @@ namespace viennagrid
       if (it != segment_id_map.end())
           return it->second; // segment already is present
 
+      std::stringstream ss;
+      ss << segment_id;
+
+      if (segment_name_map.find(ss.str()) != segment_name_map.end())
+        throw segment_name_collision_exception(ss.str());
+
       segments.push_back( segment(this, mesh(), segment_id) );
       segment & new_segment = segments.back();
 
@@ -675,12 +681,8 @@ namespace viennagrid
 
       it = segment_id_map.insert( std::make_pair(segment_id, segment_handle_type(new_segment)) ).first;
 
-      std::stringstream ss;
-      ss << segment_id;
       segments.back().name = ss.str();
-
-      if (!segment_name_map.insert(std::make_pair(ss.str(), &it->second)).second)
-        throw segment_name_collision_exception(ss.str());
+      segment_name_map.insert(std::make_pair(ss.str(), &it->second));
 
       return it->second;
     }
-- 
2.43.0


From 91100d6599e7d15de9711904f9db19f2c0eb7191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:17:16 +0000
Subject: [PATCH 14/29] fix: copying a mesh view does not redirect handles of
 elements whose boundary elements are not part of the view

---
 viennagrid/mesh/mesh.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/viennagrid/mesh/mesh.hpp b/viennagrid/mesh/mesh.hpp
index a825e32..b048981 100644
--- a/viennagrid/mesh/mesh.hpp
+++ b/viennagrid/mesh/mesh.hpp
@@ -1638,6 +1638,9 @@ namespace viennagrid
         typedef typename viennagrid::result_of::element_range<SourceElementT, BoundaryElementT>::type           DestinationBoundaryElementRangeType;
         typedef typename viennagrid::result_of::iterator<DestinationBoundaryElementRangeType>::type             DestinationBoundaryElementRangeIterator;
 
+        typedef typename viennagrid::result_of::element_range<MeshT, BoundaryElementT>::type                    BoundaryElementRangeType;
+        typedef typename viennagrid::result_of::iterator<BoundaryElementRangeType>::type                        BoundaryElementRangeIterator;
+
         SourceBoundaryElementRangeType      source_boundary_elements(source_element_);
         DestinationBoundaryElementRangeType destination_boundary_elements(destination_element_);
 
@@ -1646,7 +1649,10 @@ namespace viennagrid
 
         for (; sit != source_boundary_elements.end(); ++sit, ++dit)
         {
-          dit.handle() = viennagrid::find( mesh_obj_, sit->id() ).handle();
+          // boundary elements are not necessarily present in mesh views
+          BoundaryElementRangeIterator found = viennagrid::find( mesh_obj_, sit->id() );
+          if ( found != viennagrid::elements<BoundaryElementT>(mesh_obj_).end() )
+            dit.handle() = found.handle();
         }
       }
 
-- 
2.43.0


From 9f07bbb60937dd61349fbc7a1b3bf0f1ad9fc538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:19:25 +0000
Subject: [PATCH 15/29] fix: erasing edges and faces from a mesh keeps the keys
 of the remaining ones (no duplicates on later insertion)

---
 viennagrid/mesh/element_deletion.hpp | 39 +++++++++++++++++++---------
 1 file changed, 27 insertions(+), 12 deletions(-)

diff --git a/viennagrid/mesh/element_deletion.hpp b/viennagrid/mesh/element_deletion.hpp
index 0be50e1..a44560e 100644
--- a/viennagrid/mesh/element_deletion.hpp
+++ b/viennagrid/mesh/element_deletion.hpp
@@ -82,6 +82,32 @@ namespace viennagrid
     }
 
 
+    /** @brief For internal use only. Erases an element by swapping it with the last one. */
+    template<typename ElementHandleT, typename MeshT, typename ElementRangeT, typename IteratorT, typename ContainerT>
+    void erase_from_container( MeshT & mesh_obj, ElementRangeT & elements, IteratorT to_erase_it, ContainerT const & )
+    {
+      IteratorT back_it = --elements.end();
+
+      if (back_it != to_erase_it)
+      {
+        ElementHandleT old_handle = back_it.handle();
+        std::swap( *back_it, *to_erase_it );
+        ElementHandleT new_handle = to_erase_it.handle();
+
+        switch_handle( mesh_obj, old_handle, new_handle );
+      }
+
+      elements.erase( back_it );
+    }
+
+    /** @brief For internal use only. The values of a hidden_key_map must not be swapped, the keys would not match any more. All other elements stay in place on erase. */
+    template<typename ElementHandleT, typename MeshT, typename ElementRangeT, typename IteratorT, typename KeyT, typename ValueT, typename HandleTagT>
+    void erase_from_container( MeshT &, ElementRangeT & elements, IteratorT to_erase_it, container<hidden_key_map<KeyT, ValueT>, HandleTagT> const & )
+    {
+      elements.erase( to_erase_it );
+    }
+
+
     /** @brief For internal use only */
     template<typename MeshT, typename MeshViewT>
     struct erase_functor
@@ -113,18 +139,7 @@ namespace viennagrid
         for (typename std::deque<id_type>::iterator it = ids_to_erase.begin(); it != ids_to_erase.end(); ++it)
         {
           ElementRangeIterator to_erase_it = find( mesh_obj_, *it );
-          ElementRangeIterator back_it = --elements.end();
-
-          if (back_it != to_erase_it)
-          {
-            ElementHandle old_handle = back_it.handle();
-            std::swap( *back_it, *to_erase_it );
-            ElementHandle new_handle = to_erase_it.handle();
-
-            switch_handle( mesh_obj_, old_handle, new_handle );
-          }
-
-          elements.erase( back_it );
+          erase_from_container<ElementHandle>( mesh_obj_, elements, to_erase_it, viennagrid::get<ElementT>( detail::element_collection(mesh_obj_) ) );
         }
       }
 
-- 
2.43.0


From bf480046940dcdaacb96c1f0b7843ebf8ee3decb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:32:15 +0000
Subject: [PATCH 16/29] fix: is_in_segment() is false for elements which have
 never been added to any segment (read out of bounds)

---
 viennagrid/mesh/segmentation.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/viennagrid/mesh/segmentation.hpp b/viennagrid/mesh/segmentation.hpp
index 00fed85..7e031ff 100644
--- a/viennagrid/mesh/segmentation.hpp
+++ b/viennagrid/mesh/segmentation.hpp
@@ -1567,7 +1567,9 @@ namespace viennagrid
     template< typename segment_handle_type, typename accessor_type, typename element_type >
     bool is_in_segment( segment_handle_type const & segment, accessor_type const accessor, element_type const & element )
     {
-      return is_in_segment( segment, accessor(element) );
+      // there is no information for elements which have never been part of any segment
+      typename accessor_type::const_pointer segment_info = accessor.find(element);
+      return segment_info && is_in_segment( segment, *segment_info );
     }
   }
 
-- 
2.43.0


From 75a868f6e764eae0491a8a4af611a20d46a462cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:11 +0000
Subject: [PATCH 17/29] fix: segment_ids() does not return a range over a
 destroyed temporary for elements which have never been added to any segment

---
 viennagrid/mesh/segmentation.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/viennagrid/mesh/segmentation.hpp b/viennagrid/mesh/segmentation.hpp
index 7e031ff..a23c665 100644
--- a/viennagrid/mesh/segmentation.hpp
+++ b/viennagrid/mesh/segmentation.hpp
@@ -1599,6 +1599,8 @@ namespace viennagrid
   {
   public:
 
+    typedef SegmentInfoT segment_info_type;
+
     segment_id_range_t(SegmentInfoT & segment_info) : segment_info_(&segment_info) {}
 
     /** @brief An iterator for iterating over all segment IDs */
@@ -1710,8 +1712,13 @@ namespace viennagrid
   typename result_of::segment_id_range< SegmentationT, viennagrid::element<ElementTagT, WrappedConfigT> >::type segment_ids( SegmentationT const & segmentation, viennagrid::element<ElementTagT, WrappedConfigT> const & element )
   {
     typedef typename result_of::segment_id_range< SegmentationT, viennagrid::element<ElementTagT, WrappedConfigT> >::type SegmentIDRangeType;
+    typedef typename SegmentIDRangeType::segment_info_type SegmentInfoType;
     typedef viennagrid::element<ElementTagT, WrappedConfigT> ElementType;
-    return SegmentIDRangeType( viennagrid::make_field<ElementType>( viennagrid::detail::element_segment_mapping_collection(segmentation) )(element) );
+
+    // elements which have never been added to any segment might not have a segment info, the range must not refer to a temporary object then
+    static SegmentInfoType const no_segments = SegmentInfoType();
+    SegmentInfoType const * segment_info = viennagrid::make_field<ElementType>( viennagrid::detail::element_segment_mapping_collection(segmentation) ).find(element);
+    return SegmentIDRangeType( segment_info ? *segment_info : no_segments );
   }
 
 
-- 
2.43.0


From fa4af089f77ba5aebd6c8f8d949ea3adea704777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:40 +0000
Subject: [PATCH 18/29] fix: default-constructed fields are not valid
 (container pointer was uninitialized)

---
 viennagrid/accessor.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/viennagrid/accessor.hpp b/viennagrid/accessor.hpp
index 0c7b53a..0081891 100644
--- a/viennagrid/accessor.hpp
+++ b/viennagrid/accessor.hpp
@@ -693,7 +693,7 @@ namespace viennagrid
 
     typedef typename access_type::id_type::base_id_type offset_type;
 
-    dense_container_field() : default_value() {}
+    dense_container_field() : container(0), default_value() {}
     dense_container_field( ContainerType & container_ ) : container(&container_), default_value() {}
     dense_container_field( ContainerType & container_, value_type const & value_type_ ) : container(&container_), default_value(value_type_) {}
 
@@ -768,7 +768,7 @@ namespace viennagrid
 
     typedef typename access_type::id_type::base_id_type offset_type;
 
-    dense_container_field() : default_value() {}
+    dense_container_field() : container(0), default_value() {}
     dense_container_field( ContainerType const & container_ ) : container(&container_), default_value() {}
     dense_container_field( ContainerType const & container_, value_type const & value_type_ ) : container(&container_), default_value(value_type_) {}
 
@@ -828,7 +828,7 @@ namespace viennagrid
     typedef value_type *         pointer;
     typedef value_type const *   const_pointer;
 
-    std_map_field() : default_value() {}
+    std_map_field() : container(0), default_value() {}
     std_map_field( ContainerType & container_ ) : container(&container_), default_value() {}
     std_map_field( ContainerType & container_, value_type const & value_type_ ) : container(&container_), default_value(value_type_) {}
 
@@ -897,7 +897,7 @@ namespace viennagrid
     typedef value_type const *         pointer;
     typedef value_type const *   const_pointer;
 
-    std_map_field() : default_value() {}
+    std_map_field() : container(0), default_value() {}
     std_map_field( ContainerType const & container_ ) : container(&container_), default_value() {}
     std_map_field( ContainerType const & container_, value_type const & value_type_ ) : container(&container_), default_value(value_type_) {}
 
-- 
2.43.0


From b18cd644a0377423bd2623cb07b932566e0a0e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:40 +0000
Subject: [PATCH 19/29] fix: at() of map accessors and fields throws instead of
 creating missing data

---
 viennagrid/accessor.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/viennagrid/accessor.hpp b/viennagrid/accessor.hpp
index 0081891..46eca41 100644
--- a/viennagrid/accessor.hpp
+++ b/viennagrid/accessor.hpp
@@ -369,7 +369,9 @@ namespace viennagrid
 
     reference at(AccessType const & element)
     {
-      return (*this)(element);
+      typename container_type::iterator it = (*container).find( unpack(element) );
+      if (it == (*container).end()) throw std::out_of_range("std_map_accessor::at() failed");
+      return it->second;
     }
 
     const_reference at(AccessType const & element) const
@@ -863,7 +865,9 @@ namespace viennagrid
 
     reference at(AccessType const & element)
     {
-      return (*this)(element);
+      typename container_type::iterator it = (*container).find( unpack(element) );
+      if (it == (*container).end()) throw std::out_of_range("std_map_field::at() failed");
+      return it->second;
     }
 
     const_reference at(AccessType const & element) const
-- 
2.43.0


From ce4d202152ea16e607208587d9163bab868dc635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:40 +0000
Subject: [PATCH 20/29] fix: dynamic_accessor_wrapper compiles

---
 viennagrid/accessor.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/viennagrid/accessor.hpp b/viennagrid/accessor.hpp
index 46eca41..f47669b 100644
--- a/viennagrid/accessor.hpp
+++ b/viennagrid/accessor.hpp
@@ -624,11 +624,11 @@ namespace viennagrid
     virtual pointer find( access_type const & element ) { return accessor.find(element); }
     virtual const_pointer find( access_type const & element ) const { return accessor.find(element); }
 
-    virtual reference operator()( access_type const & element )       { return access(element); }
-    virtual const_reference operator()( access_type const & element ) const { return access(element); }
+    virtual reference operator()( access_type const & element )       { return accessor(element); }
+    virtual const_reference operator()( access_type const & element ) const { return accessor(element); }
 
-    virtual reference at( access_type const & element ) { return accessor.access(element); }
-    virtual const_reference at( access_type const & element ) const { return accessor.access(element); }
+    virtual reference at( access_type const & element ) { return accessor.at(element); }
+    virtual const_reference at( access_type const & element ) const { return accessor.at(element); }
 
   private:
     AccessorType accessor;
@@ -654,8 +654,8 @@ namespace viennagrid
     dynamic_accessor_wrapper(AccessorType accessor_) : accessor(accessor_) {}
 
     virtual const_pointer find( access_type const & element ) const { return accessor.find(element); }
-    virtual const_reference operator()( access_type const & element ) const { return access(element); }
-    virtual const_reference at( access_type const & element ) const { return accessor.access(element); }
+    virtual const_reference operator()( access_type const & element ) const { return accessor(element); }
+    virtual const_reference at( access_type const & element ) const { return accessor.at(element); }
 
   private:
     AccessorType accessor;
-- 
2.43.0


From eccc4536b1988f01c5197c66bd562a42f8019be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:04:23 +0000
Subject: [PATCH 21/29] fix: Voronoi interfaces of obtuse boundary triangles do
 not extend beyond the mesh

---
 viennagrid/algorithm/voronoi.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/viennagrid/algorithm/voronoi.hpp b/viennagrid/algorithm/voronoi.hpp
index 49edba8..a4b0044 100644
--- a/viennagrid/algorithm/voronoi.hpp
+++ b/viennagrid/algorithm/voronoi.hpp
@@ -427,11 +427,13 @@ namespace viennagrid
               voronoi_unique_quantity_update(interface_area_cell_contribution_accessor(*eocit), std::make_pair( cit.handle(), interface_contribution) );
 
               // contribution from other cell containing the circumcenter:
-              interface_contribution = spanned_volume(edge_intersection, circ_center);
-              interface_area_accessor(*eocit) += interface_contribution;
               //if ( other_cell != NULL)
               if (!detail::is_handle_invalid( other_cells, other_cell ))
+              {
+                interface_contribution = spanned_volume(edge_intersection, circ_center);
+                interface_area_accessor(*eocit) += interface_contribution;
                 voronoi_unique_quantity_update(interface_area_cell_contribution_accessor(*eocit), std::make_pair( other_cell, interface_contribution) );
+              }
 
 
               //
-- 
2.43.0


From 06028fa0116ed4eb8b200de17df2acdb95783db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:11:18 +0000
Subject: [PATCH 22/29] fix: quantity_transfer to higher-dimensional elements
 reads the source elements

---
 viennagrid/algorithm/quantity_transfer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viennagrid/algorithm/quantity_transfer.hpp b/viennagrid/algorithm/quantity_transfer.hpp
index 8956976..f63e720 100644
--- a/viennagrid/algorithm/quantity_transfer.hpp
+++ b/viennagrid/algorithm/quantity_transfer.hpp
@@ -136,7 +136,7 @@ namespace viennagrid
                                 ++sodit)
           {
             if (filter_src(*sodit))
-              destination_value_container.push_back(accessor_src(*dit));
+              destination_value_container.push_back(accessor_src(*sodit));
           }
 
           //
-- 
2.43.0


From f09fce1ef24e10af0d9d51583f8eee1b4a3e8a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:11:18 +0000
Subject: [PATCH 23/29] fix: copy_element compiles and returns the handle of
 the copy

---
 viennagrid/mesh/element_creation.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/viennagrid/mesh/element_creation.hpp b/viennagrid/mesh/element_creation.hpp
index 742e34e..815fe19 100644
--- a/viennagrid/mesh/element_creation.hpp
+++ b/viennagrid/mesh/element_creation.hpp
@@ -390,7 +390,7 @@ namespace viennagrid
 
     VertexRangeType vertices(element);
     for (VertexRangeIterator vit = vertices.begin(); vit != vertices.end(); ++vit)
-      vertex_handles.push_back( make_unique_vertex(mesh_segment, viennagrid::point(*vit)), tolerance );
+      vertex_handles.push_back( make_unique_vertex(mesh_segment, viennagrid::point(*vit), tolerance) );
 
     return make_element<ElementTag>( mesh_segment, vertex_handles.begin(), vertex_handles.end() );
   }
@@ -402,7 +402,7 @@ namespace viennagrid
       typename viennagrid::result_of::element_tag<ElementT>::type
     >::type copy_element( ElementT const & element, MeshOrSegmentHandleT & mesh_segment )
   {
-    copy_element(element, mesh_segment, -1.0);
+    return copy_element(element, mesh_segment, -1.0);
   }
 
   namespace detail
-- 
2.43.0


From 3d0f7559716fc495ece74931764634d00322a3e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:09 +0000
Subject: [PATCH 24/29] fix: self-assignment of a segmented mesh does not clear
 it

---
 viennagrid/mesh/segmented_mesh.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/viennagrid/mesh/segmented_mesh.hpp b/viennagrid/mesh/segmented_mesh.hpp
index ac09a28..5ff3d95 100644
--- a/viennagrid/mesh/segmented_mesh.hpp
+++ b/viennagrid/mesh/segmented_mesh.hpp
@@ -58,7 +58,8 @@ namespace viennagrid
 
     SelfType & operator=(SelfType const & other)
     {
-      copy( other.mesh, other.segmentation, mesh, segmentation, true_functor() );
+      if (this != &other)
+        copy( other.mesh, other.segmentation, mesh, segmentation, true_functor() );
       return *this;
     }
 
-- 
2.43.0


From 34e388a55a8acbf4c19d52e18270f4bce1497add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:45 +0000
Subject: [PATCH 25/29] fix: centroid of a mesh or segment compiles

---
 viennagrid/algorithm/centroid.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/viennagrid/algorithm/centroid.hpp b/viennagrid/algorithm/centroid.hpp
index c2ffa3e..942069f 100644
--- a/viennagrid/algorithm/centroid.hpp
+++ b/viennagrid/algorithm/centroid.hpp
@@ -222,7 +222,7 @@ namespace viennagrid
   centroid(mesh<WrappedConfigT> const & mesh_obj)
   {
     typedef typename viennagrid::result_of::cell_tag< mesh<WrappedConfigT> >::type CellTag;
-    return centroid<CellTag>(mesh_obj, default_point_accessor(mesh_obj));
+    return detail::centroid_mesh<CellTag>(mesh_obj, default_point_accessor(mesh_obj));
   }
 
 
@@ -274,7 +274,7 @@ namespace viennagrid
   centroid(segment_handle<SegmentationT> const & segment)
   {
     typedef typename viennagrid::result_of::cell_tag< segment_handle<SegmentationT> >::type CellTag;
-    return centroid<CellTag>(segment, default_point_accessor(segment));
+    return detail::centroid_mesh<CellTag>(segment, default_point_accessor(segment));
   }
 } //namespace viennagrid
 #endif
-- 
2.43.0


From d4068337d108f8ab2a2e370b32bfd2924474bc0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:35 +0000
Subject: [PATCH 26/29] fix: iterators of facet and edge ranges support
 operator->

---
 viennagrid/storage/hidden_key_map.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/viennagrid/storage/hidden_key_map.hpp b/viennagrid/storage/hidden_key_map.hpp
index 6f47117..9cf6037 100644
--- a/viennagrid/storage/hidden_key_map.hpp
+++ b/viennagrid/storage/hidden_key_map.hpp
@@ -38,6 +38,8 @@ namespace viennagrid
 
     reference operator* () { return base::operator*().second; }
     const_reference operator* () const { return base::operator*().second; }
+
+    pointer operator->() const { return &(base::operator*().second); }
   };
 
   /** @brief A const-iterator over all values of a hidden_key_map */
@@ -56,6 +58,8 @@ namespace viennagrid
     typedef typename HiddenKeyMapT::const_pointer pointer;
 
     const_reference operator* () const { return base::operator*().second; }
+
+    pointer operator->() const { return &(base::operator*().second); }
   };
 
   /** @brief A iterator over all values of a hidden_key_map in reverse direction */
@@ -74,6 +78,8 @@ namespace viennagrid
 
     reference operator* () { return base::operator*().second; }
     const_reference operator* () const { return base::operator*().second; }
+
+    pointer operator->() const { return &(base::operator*().second); }
   };
 
   /** @brief A const-iterator over all values of a hidden_key_map in reverse direction */
@@ -92,6 +98,8 @@ namespace viennagrid
     typedef typename HiddenKeyMapT::const_pointer pointer;
 
     const_reference operator* () const { return base::operator*().second; }
+
+    pointer operator->() const { return &(base::operator*().second); }
   };
 
 
-- 
2.43.0


From d8206bc2ac80fbda28631585a04856b4b7e9addb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:35 +0000
Subject: [PATCH 27/29] fix: finding an element by value compiles for meshes
 and views

---
 viennagrid/storage/container.hpp | 4 ++--
 viennagrid/storage/view.hpp      | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/viennagrid/storage/container.hpp b/viennagrid/storage/container.hpp
index 0dec7e0..bdbc79c 100644
--- a/viennagrid/storage/container.hpp
+++ b/viennagrid/storage/container.hpp
@@ -64,13 +64,13 @@ namespace viennagrid
     template<typename ContainerT>
     typename ContainerT::iterator find(ContainerT & container, typename ContainerT::value_type const & element)
     {
-      return std::find(container.begin(), container.end(), element);
+      return viennagrid::detail::find(container, element.id());
     }
 
     template<typename ContainerT>
     typename ContainerT::const_iterator find(ContainerT const & container, typename ContainerT::value_type const & element)
     {
-      return std::find(container.begin(), container.end(), element);
+      return viennagrid::detail::find(container, element.id());
     }
 
 
diff --git a/viennagrid/storage/view.hpp b/viennagrid/storage/view.hpp
index fd5a251..fe71c04 100644
--- a/viennagrid/storage/view.hpp
+++ b/viennagrid/storage/view.hpp
@@ -230,9 +230,9 @@ namespace viennagrid
     const_handle_type handle( const_reference element ) const { return &element; }
 
     iterator find( const_reference element )
-    { return std::find( begin(), end(), handle(element)); }
+    { return viennagrid::detail::find(*this, element.id()); }
     const_iterator find( const_reference element ) const
-    { return std::find( begin(), end(), handle(element)); }
+    { return viennagrid::detail::find(*this, element.id()); }
 
 
     reference front() { return dereference_handle(handle_container.front()); }
-- 
2.43.0


From 9df0c4d1f61206ded99828e26143fa6fc856870e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:08 +0000
Subject: [PATCH 28/29] fix: reading vector data registered for a segment stays
 in bounds

---
 viennagrid/io/vtk_reader.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/viennagrid/io/vtk_reader.hpp b/viennagrid/io/vtk_reader.hpp
index 40a5776..9739659 100644
--- a/viennagrid/io/vtk_reader.hpp
+++ b/viennagrid/io/vtk_reader.hpp
@@ -542,7 +542,7 @@ namespace viennagrid
           }
           else if (current_registered_segment_vertex_vector_data.find(name) != current_registered_segment_vertex_vector_data.end())
           {
-            for (std::size_t i=0; i<container.second.size(); ++i)
+            for (std::size_t i=0; i<container.second.size()/3; ++i)
             {
               std::size_t global_vertex_id = local_to_global_map[seg_id][i];
               VertexType const & vertex = viennagrid::elements<viennagrid::vertex_tag>(mesh_obj)[global_vertex_id];
@@ -636,7 +636,7 @@ namespace viennagrid
           }
           else if (current_registered_segment_cell_vector_data.find(name) != current_registered_segment_cell_vector_data.end())
           {
-            for (std::size_t i=0; i<container.second.size(); ++i)
+            for (std::size_t i=0; i<container.second.size()/3; ++i)
             {
               CellType const & cell = viennagrid::dereference_handle( segment, local_cell_handle[seg_id][i] );
 
-- 
2.43.0


From 50248e188bc3814806f4ed59ed2a3cab1d15b439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:22:53 +0000
Subject: [PATCH 29/29] fix: interface detection discards the result of an
 earlier detection

detect_interface only ever set the flag of a facet. A facet that was on the
interface and has been erased from one of the segments since was still
reported as interface facet.
---
 viennagrid/algorithm/interface.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/viennagrid/algorithm/interface.hpp b/viennagrid/algorithm/interface.hpp
index 72a9d92..e0933df 100644
--- a/viennagrid/algorithm/interface.hpp
+++ b/viennagrid/algorithm/interface.hpp
@@ -72,6 +72,8 @@ namespace viennagrid
         {
           const FacetType & facet = *fit;
 
+          accessor(facet) = false;   // discard information from a previous detection
+
           if (is_boundary(seg0, facet))
             facets_ptrs_seg0.insert( fit.handle() );
         }
@@ -86,7 +88,7 @@ namespace viennagrid
         {
           const FacetType & facet = *fit;
 
-          if (facets_ptrs_seg0.find( fit.handle() ) != facets_ptrs_seg0.end()) accessor(facet) = true;
+          accessor(facet) = (facets_ptrs_seg0.find( fit.handle() ) != facets_ptrs_seg0.end());
         }
 
       }
-- 
2.43.0

