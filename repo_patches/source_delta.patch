From 2f0ec784c8a06802a7bf609eb8ac96e255c7fbc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:27 +0000
Subject: [PATCH 01/19] fix: hexahedron edge list contains the face diagonal
 (2,5) instead of the edge (2,6)

---
 viennagrid/topology/hexahedron.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viennagrid/topology/hexahedron.hpp b/viennagrid/topology/hexahedron.hpp
index a456043..fae8b53 100644
--- a/viennagrid/topology/hexahedron.hpp
+++ b/viennagrid/topology/hexahedron.hpp
@@ -111,7 +111,7 @@ namespace viennagrid
         element.set_boundary_element( boundary_element, inserter.template insert<true, true>(boundary_element), index++ );
 
         boundary_element.container(dimension_tag<0>()).set_handle( element.container( dimension_tag<0>() ).handle_at(2), 0 );
-        boundary_element.container(dimension_tag<0>()).set_handle( element.container( dimension_tag<0>() ).handle_at(5), 1 );
+        boundary_element.container(dimension_tag<0>()).set_handle( element.container( dimension_tag<0>() ).handle_at(6), 1 );
         element.set_boundary_element( boundary_element, inserter.template insert<true, true>(boundary_element), index++ );
 
         boundary_element.container(dimension_tag<0>()).set_handle( element.container( dimension_tag<0>() ).handle_at(3), 0 );
-- 
2.43.0


From 0adcbcccefd8fecb4a61f26919a98f0b1f4a0b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:27 +0000
Subject: [PATCH 02/19] fix: explicit ID equal to the next generated ID was
 handed out a second time

---
 viennagrid/storage/id_generator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viennagrid/storage/id_generator.hpp b/viennagrid/storage/id_generator.hpp
index e594fe4..5930e06 100644
--- a/viennagrid/storage/id_generator.hpp
+++ b/viennagrid/storage/id_generator.hpp
@@ -120,7 +120,7 @@ namespace viennagrid
       using base::set_max_id;
       void set_max_id( id_type last_id_ )
       {
-        if (last_id_ > last_id)
+        if (last_id_ >= last_id)
         {
           last_id = last_id_;
           ++last_id;
-- 
2.43.0


From ea4e50a3d9ea27bbfcd28d49cbf5e6e4fd1d35c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:27 +0000
Subject: [PATCH 03/19] fix: postfix increment and decrement of container and
 view iterators return the old position

---
 viennagrid/storage/container.hpp | 32 ++++++++++++++++----------------
 viennagrid/storage/view.hpp      | 32 ++++++++++++++++----------------
 2 files changed, 32 insertions(+), 32 deletions(-)

diff --git a/viennagrid/storage/container.hpp b/viennagrid/storage/container.hpp
index d934cbb..29d511d 100644
--- a/viennagrid/storage/container.hpp
+++ b/viennagrid/storage/container.hpp
@@ -95,10 +95,10 @@ namespace viennagrid
       iterator(base_iterator const & it) : base_iterator(it) {}
 
       iterator & operator++() { base_iterator::operator++(); return *this; }
-      iterator operator++(int) { base_iterator::operator++(int()); return *this; }
+      iterator operator++(int) { iterator tmp(*this); ++*this; return tmp; }
 
       iterator & operator--() { base_iterator::operator--(); return *this; }
-      iterator operator--(int) { base_iterator::operator--(int()); return *this; }
+      iterator operator--(int) { iterator tmp(*this); --*this; return tmp; }
 
       value_type & value() { return base_iterator::operator*(); }
       value_type const &  value() const { return base_iterator::operator*(); }
@@ -125,10 +125,10 @@ namespace viennagrid
       iterator(base_iterator const & it) : base_iterator(it) {}
 
       iterator & operator++() { base_iterator::operator++(); return *this; }
-      iterator operator++(int) { base_iterator::operator++(int()); return *this; }
+      iterator operator++(int) { iterator tmp(*this); ++*this; return tmp; }
 
       iterator & operator--() { base_iterator::operator--(); return *this; }
-      iterator operator--(int) { base_iterator::operator--(int()); return *this; }
+      iterator operator--(int) { iterator tmp(*this); --*this; return tmp; }
 
       value_type & value() { return base_iterator::operator*(); }
       value_type const &  value() const { return base_iterator::operator*(); }
@@ -159,10 +159,10 @@ namespace viennagrid
       iterator(base_iterator const & it) : base_iterator(it) {}
 
       iterator & operator++() { base_iterator::operator++(); return *this; }
-      iterator operator++(int) { base_iterator::operator++(int()); return *this; }
+      iterator operator++(int) { iterator tmp(*this); ++*this; return tmp; }
 
       iterator & operator--() { base_iterator::operator--(); return *this; }
-      iterator operator--(int) { base_iterator::operator--(int()); return *this; }
+      iterator operator--(int) { iterator tmp(*this); --*this; return tmp; }
 
       value_type & value() { return base_iterator::operator*(); }
       value_type const &  value() const { return base_iterator::operator*(); }
@@ -195,10 +195,10 @@ namespace viennagrid
       iterator(base_iterator const & it) : base_iterator(it) {}
 
       iterator & operator++() { base_iterator::operator++(); return *this; }
-      iterator operator++(int) { base_iterator::operator++(int()); return *this; }
+      iterator operator++(int) { iterator tmp(*this); ++*this; return tmp; }
 
       iterator & operator--() { base_iterator::operator--(); return *this; }
-      iterator operator--(int) { base_iterator::operator--(int()); return *this; }
+      iterator operator--(int) { iterator tmp(*this); --*this; return tmp; }
 
       value_type & value() { return base_iterator::operator*(); }
       value_type const &  value() const { return base_iterator::operator*(); }
@@ -233,10 +233,10 @@ namespace viennagrid
       const_iterator(base_iterator const & it) : base_const_iterator(it) {}
 
       const_iterator & operator++() { base_const_iterator::operator++(); return *this; }
-      const_iterator operator++(int) { base_const_iterator::operator++(int()); return *this; }
+      const_iterator operator++(int) { const_iterator tmp(*this); ++*this; return tmp; }
 
       const_iterator & operator--() { base_const_iterator::operator--(); return *this; }
-      const_iterator operator--(int) { base_const_iterator::operator--(int()); return *this; }
+      const_iterator operator--(int) { const_iterator tmp(*this); --*this; return tmp; }
 
       value_type const & value() { return base_const_iterator::operator*(); }
       value_type const &  value() const { return base_const_iterator::operator*(); }
@@ -264,10 +264,10 @@ namespace viennagrid
       const_iterator(base_iterator const & it) : base_const_iterator(it) {}
 
       const_iterator & operator++() { base_const_iterator::operator++(); return *this; }
-      const_iterator operator++(int) { base_const_iterator::operator++(int()); return *this; }
+      const_iterator operator++(int) { const_iterator tmp(*this); ++*this; return tmp; }
 
       const_iterator & operator--() { base_const_iterator::operator--(); return *this; }
-      const_iterator operator--(int) { base_const_iterator::operator--(int()); return *this; }
+      const_iterator operator--(int) { const_iterator tmp(*this); --*this; return tmp; }
 
       value_type const & value() { return base_const_iterator::operator*(); }
       value_type const & value() const { return base_const_iterator::operator*(); }
@@ -299,10 +299,10 @@ namespace viennagrid
       const_iterator(base_iterator const & it) : base_const_iterator(it) {}
 
       const_iterator & operator++() { base_const_iterator::operator++(); return *this; }
-      const_iterator operator++(int) { base_const_iterator::operator++(int()); return *this; }
+      const_iterator operator++(int) { const_iterator tmp(*this); ++*this; return tmp; }
 
       const_iterator & operator--() { base_const_iterator::operator--(); return *this; }
-      const_iterator operator--(int) { base_const_iterator::operator--(int()); return *this; }
+      const_iterator operator--(int) { const_iterator tmp(*this); --*this; return tmp; }
 
       value_type const & value() { return base_const_iterator::operator*(); }
       value_type const & value() const { return base_const_iterator::operator*(); }
@@ -336,10 +336,10 @@ namespace viennagrid
       const_iterator(base_iterator const & it) : base_const_iterator(it) {}
 
       const_iterator & operator++() { base_const_iterator::operator++(); return *this; }
-      const_iterator operator++(int) { base_const_iterator::operator++(int()); return *this; }
+      const_iterator operator++(int) { const_iterator tmp(*this); ++*this; return tmp; }
 
       const_iterator & operator--() { base_const_iterator::operator--(); return *this; }
-      const_iterator operator--(int) { base_const_iterator::operator--(int()); return *this; }
+      const_iterator operator--(int) { const_iterator tmp(*this); --*this; return tmp; }
 
       value_type const & value() { return base_const_iterator::operator*(); }
       value_type const & value() const { return base_const_iterator::operator*(); }
diff --git a/viennagrid/storage/view.hpp b/viennagrid/storage/view.hpp
index 52fed04..2d289a7 100644
--- a/viennagrid/storage/view.hpp
+++ b/viennagrid/storage/view.hpp
@@ -89,10 +89,10 @@ namespace viennagrid
       pointer operator->() const { return &(operator* ()); }
 
       iterator & operator++() { base::operator++(); return *this; }
-      iterator operator++(int) { base::operator++(int()); return *this; }
+      iterator operator++(int) { iterator tmp(*this); ++*this; return tmp; }
 
       iterator & operator--() { base::operator--(); return *this; }
-      iterator operator--(int) { base::operator--(int()); return *this; }
+      iterator operator--(int) { iterator tmp(*this); --*this; return tmp; }
 
     private:
       view * view_;
@@ -123,10 +123,10 @@ namespace viennagrid
       pointer operator->() const { return &(operator* ()); }
 
       const_iterator & operator++() { base::operator++(); return *this; }
-      const_iterator operator++(int) { base::operator++(int()); return *this; }
+      const_iterator operator++(int) { const_iterator tmp(*this); ++*this; return tmp; }
 
       const_iterator & operator--() { base::operator--(); return *this; }
-      const_iterator operator--(int) { base::operator--(int()); return *this; }
+      const_iterator operator--(int) { const_iterator tmp(*this); --*this; return tmp; }
 
     private:
       view const * view_;
@@ -156,10 +156,10 @@ namespace viennagrid
       pointer operator->() const { return &(operator* ()); }
 
       reverse_iterator & operator++() { base::operator++(); return *this; }
-      reverse_iterator operator++(int) { base::operator++(int()); return *this; }
+      reverse_iterator operator++(int) { reverse_iterator tmp(*this); ++*this; return tmp; }
 
       reverse_iterator & operator--() { base::operator--(); return *this; }
-      reverse_iterator operator--(int) { base::operator--(int()); return *this; }
+      reverse_iterator operator--(int) { reverse_iterator tmp(*this); --*this; return tmp; }
 
     private:
       view * view_;
@@ -190,10 +190,10 @@ namespace viennagrid
       pointer operator->() const { return &(operator* ()); }
 
       const_reverse_iterator & operator++() { base::operator++(); return *this; }
-      const_reverse_iterator operator++(int) { base::operator++(int()); return *this; }
+      const_reverse_iterator operator++(int) { const_reverse_iterator tmp(*this); ++*this; return tmp; }
 
       const_reverse_iterator & operator--() { base::operator--(); return *this; }
-      const_reverse_iterator operator--(int) { base::operator--(int()); return *this; }
+      const_reverse_iterator operator--(int) { const_reverse_iterator tmp(*this); --*this; return tmp; }
 
     private:
       view const * view_;
@@ -353,10 +353,10 @@ namespace viennagrid
       pointer operator->() const { return &(operator* ()); }
 
       iterator & operator++() { base::operator++(); return *this; }
-      iterator operator++(int) { base::operator++(int()); return *this; }
+      iterator operator++(int) { iterator tmp(*this); ++*this; return tmp; }
 
       iterator & operator--() { base::operator--(); return *this; }
-      iterator operator--(int) { base::operator--(int()); return *this; }
+      iterator operator--(int) { iterator tmp(*this); --*this; return tmp; }
 
     private:
       view * view_;
@@ -387,10 +387,10 @@ namespace viennagrid
       pointer operator->() const { return &(operator* ()); }
 
       const_iterator & operator++() { base::operator++(); return *this; }
-      const_iterator operator++(int) { base::operator++(int()); return *this; }
+      const_iterator operator++(int) { const_iterator tmp(*this); ++*this; return tmp; }
 
       const_iterator & operator--() { base::operator--(); return *this; }
-      const_iterator operator--(int) { base::operator--(int()); return *this; }
+      const_iterator operator--(int) { const_iterator tmp(*this); --*this; return tmp; }
 
     private:
       view const * view_;
@@ -420,10 +420,10 @@ namespace viennagrid
       pointer operator->() const { return &(operator* ()); }
 
       reverse_iterator & operator++() { base::operator++(); return *this; }
-      reverse_iterator operator++(int) { base::operator++(int()); return *this; }
+      reverse_iterator operator++(int) { reverse_iterator tmp(*this); ++*this; return tmp; }
 
       reverse_iterator & operator--() { base::operator--(); return *this; }
-      reverse_iterator operator--(int) { base::operator--(int()); return *this; }
+      reverse_iterator operator--(int) { reverse_iterator tmp(*this); --*this; return tmp; }
 
     private:
       view * view_;
@@ -454,10 +454,10 @@ namespace viennagrid
       pointer operator->() const { return &(operator* ()); }
 
       const_reverse_iterator & operator++() { base::operator++(); return *this; }
-      const_reverse_iterator operator++(int) { base::operator++(int()); return *this; }
+      const_reverse_iterator operator++(int) { const_reverse_iterator tmp(*this); ++*this; return tmp; }
 
       const_reverse_iterator & operator--() { base::operator--(); return *this; }
-      const_reverse_iterator operator--(int) { base::operator--(int()); return *this; }
+      const_reverse_iterator operator--(int) { const_reverse_iterator tmp(*this); --*this; return tmp; }
 
     private:
       view const * view_;
-- 
2.43.0


From f154b59418276f5e209c198fb1d5626c3c0124fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:27 +0000
Subject: [PATCH 04/19] fix: quadrilateral area used triangles that do not
 cover the quadrilateral in reference numbering

---
 viennagrid/algorithm/volume.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viennagrid/algorithm/volume.hpp b/viennagrid/algorithm/volume.hpp
index 4f7d491..8b24d85 100644
--- a/viennagrid/algorithm/volume.hpp
+++ b/viennagrid/algorithm/volume.hpp
@@ -92,7 +92,7 @@ namespace viennagrid
       PointType const & p2 = accessor( vertices(cell)[2] );
       PointType const & p3 = accessor( vertices(cell)[3] );
 
-      return spanned_volume(p0, p1, p3) + spanned_volume(p1, p2, p3); //sum up the two triangular parts
+      return spanned_volume(p0, p1, p3) + spanned_volume(p0, p3, p2); //sum up the two triangular parts
     }
 
 
-- 
2.43.0


From 3851fc615f8b8067bc0f2ce148eceaf36b5a6e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:27 +0000
Subject: [PATCH 05/19] fix: hexahedron volume used tetrahedra that do not
 cover the hexahedron in reference numbering

---
 viennagrid/algorithm/volume.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/viennagrid/algorithm/volume.hpp b/viennagrid/algorithm/volume.hpp
index 8b24d85..a6a6dba 100644
--- a/viennagrid/algorithm/volume.hpp
+++ b/viennagrid/algorithm/volume.hpp
@@ -161,12 +161,12 @@ namespace viennagrid
       PointType const & p7 = accessor( vertices(cell)[7] );
 
       //decompose hexahedron into six tetrahedra
-      return spanned_volume(p0, p1, p3, p4)
-             + spanned_volume(p4, p1, p3, p7)
-             + spanned_volume(p4, p1, p7, p5)
-             + spanned_volume(p1, p2, p3, p7)
-             + spanned_volume(p1, p2, p7, p5)
-             + spanned_volume(p5, p2, p7, p6);
+      return spanned_volume(p0, p1, p2, p4)
+             + spanned_volume(p4, p1, p2, p6)
+             + spanned_volume(p4, p1, p6, p5)
+             + spanned_volume(p1, p3, p2, p6)
+             + spanned_volume(p1, p3, p6, p5)
+             + spanned_volume(p5, p3, p6, p7);
     }
 
 
-- 
2.43.0


From 13101d858cc3b41a7e7b31a5b51e3f49e9aa812a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:27 +0000
Subject: [PATCH 06/19] fix: quantity transfer to higher dimensional elements
 read the source quantity of the destination

---
 viennagrid/algorithm/quantity_transfer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viennagrid/algorithm/quantity_transfer.hpp b/viennagrid/algorithm/quantity_transfer.hpp
index 8956976..f63e720 100644
--- a/viennagrid/algorithm/quantity_transfer.hpp
+++ b/viennagrid/algorithm/quantity_transfer.hpp
@@ -136,7 +136,7 @@ namespace viennagrid
                                 ++sodit)
           {
             if (filter_src(*sodit))
-              destination_value_container.push_back(accessor_src(*dit));
+              destination_value_container.push_back(accessor_src(*sodit));
           }
 
           //
-- 
2.43.0


From 428905a152cea14ac663cbe991eb7068b4b0bbd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:19 +0000
Subject: [PATCH 07/19] fix: interface detection kept flags of an earlier
 detection

---
 viennagrid/algorithm/interface.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/viennagrid/algorithm/interface.hpp b/viennagrid/algorithm/interface.hpp
index 72a9d92..e581fd1 100644
--- a/viennagrid/algorithm/interface.hpp
+++ b/viennagrid/algorithm/interface.hpp
@@ -72,6 +72,7 @@ namespace viennagrid
         {
           const FacetType & facet = *fit;
 
+          accessor(facet) = false; // forget the result of an earlier detection
           if (is_boundary(seg0, facet))
             facets_ptrs_seg0.insert( fit.handle() );
         }
@@ -86,7 +87,7 @@ namespace viennagrid
         {
           const FacetType & facet = *fit;
 
-          if (facets_ptrs_seg0.find( fit.handle() ) != facets_ptrs_seg0.end()) accessor(facet) = true;
+          accessor(facet) = (facets_ptrs_seg0.find( fit.handle() ) != facets_ptrs_seg0.end());
         }
 
       }
-- 
2.43.0


From 3cf86620247de2ee5e2e106afd8ddc6ccfda328c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:37 +0000
Subject: [PATCH 08/19] fix: clearing a segmentation left its segment names and
 its list of all elements behind

---
 viennagrid/mesh/segmentation.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/viennagrid/mesh/segmentation.hpp b/viennagrid/mesh/segmentation.hpp
index b24bc77..92c1e36 100644
--- a/viennagrid/mesh/segmentation.hpp
+++ b/viennagrid/mesh/segmentation.hpp
@@ -916,7 +916,9 @@ namespace viennagrid
     {
       highest_id = -1;
       segment_id_map.clear();
+      segment_name_map.clear();
       segments.clear();
+      all_elements_ = viennagrid::make_view(*mesh_);
       appendix_ = appendix_type();
     }
 
-- 
2.43.0


From 1326661c9ba3f5daf4d971a4d625bb1d1b001ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:45 +0000
Subject: [PATCH 09/19] fix: segment queries of an element that was never added
 to a segment read invalid memory

---
 viennagrid/mesh/segmentation.hpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/viennagrid/mesh/segmentation.hpp b/viennagrid/mesh/segmentation.hpp
index 92c1e36..bbf465a 100644
--- a/viennagrid/mesh/segmentation.hpp
+++ b/viennagrid/mesh/segmentation.hpp
@@ -1575,7 +1575,9 @@ namespace viennagrid
     template< typename segment_handle_type, typename accessor_type, typename element_type >
     bool is_in_segment( segment_handle_type const & segment, accessor_type const accessor, element_type const & element )
     {
-      return is_in_segment( segment, accessor(element) );
+      // elements which have not been added to any segment may be unknown to the mapping
+      typename accessor_type::const_pointer segment_info = accessor.find(element);
+      return segment_info && is_in_segment( segment, *segment_info );
     }
   }
 
@@ -1605,6 +1607,9 @@ namespace viennagrid
   {
   public:
 
+    /** @brief The segment information the range refers to */
+    typedef SegmentInfoT segment_info_type;
+
     segment_id_range_t(SegmentInfoT & segment_info) : segment_info_(&segment_info) {}
 
     /** @brief An iterator for iterating over all segment IDs */
@@ -1717,7 +1722,12 @@ namespace viennagrid
   {
     typedef typename result_of::segment_id_range< SegmentationT, viennagrid::element<ElementTagT, WrappedConfigT> >::type SegmentIDRangeType;
     typedef viennagrid::element<ElementTagT, WrappedConfigT> ElementType;
-    return SegmentIDRangeType( viennagrid::make_field<ElementType>( viennagrid::detail::element_segment_mapping_collection(segmentation) )(element) );
+    typedef typename SegmentIDRangeType::segment_info_type SegmentInfoType;
+
+    // elements which have not been added to any segment may be unknown to the mapping
+    static SegmentInfoType no_segments = SegmentInfoType();
+    SegmentInfoType * segment_info = viennagrid::make_field<ElementType>( viennagrid::detail::element_segment_mapping_collection(segmentation) ).find(element);
+    return SegmentIDRangeType( segment_info ? *segment_info : no_segments );
   }
 
 
-- 
2.43.0


From d948910698eedee228866c9d73f3bb89c2185f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:11 +0000
Subject: [PATCH 10/19] fix: clearing a segment left its elements registered
 and the segment unusable

---
 viennagrid/mesh/segmentation.hpp | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/viennagrid/mesh/segmentation.hpp b/viennagrid/mesh/segmentation.hpp
index bbf465a..41d0201 100644
--- a/viennagrid/mesh/segmentation.hpp
+++ b/viennagrid/mesh/segmentation.hpp
@@ -147,15 +147,6 @@ namespace viennagrid
     segment_type * segment_;
   };
 
-  /** @brief Completely clears a segmentation
-    *
-    */
-  template<typename SegmentationT>
-  void clear( segment_handle<SegmentationT> & segment_ )
-  {
-    segment_.view().clear();
-  }
-
   namespace result_of
   {
     /** \cond */
@@ -2127,6 +2118,21 @@ namespace viennagrid
 
 
 
+  /** @brief Completely clears a segment
+    *
+    */
+  template<typename SegmentationT>
+  void clear( segment_handle<SegmentationT> & segment_ )
+  {
+    typedef typename segment_handle<SegmentationT>::view_type ViewType;
+    ViewType elements_to_erase = segment_.view();
+
+    detail::non_recursive_erase_functor< segment_handle<SegmentationT> > functor( segment_ );
+    viennagrid::for_each(elements_to_erase, functor);
+  }
+
+
+
   /** @brief Function for creating a handle for a given element using a mesh/segment object
     *
     * @tparam MeshOrSegmentHandleT      The host mesh/segment type
-- 
2.43.0


From 45e6ec2bef6f8f1403831d71f406ff2c8a7250ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:51:33 +0000
Subject: [PATCH 11/19] fix: erasing an element from a segment left the element
 itself in the segment

---
 viennagrid/mesh/segmentation.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/viennagrid/mesh/segmentation.hpp b/viennagrid/mesh/segmentation.hpp
index 41d0201..bc4cf0a 100644
--- a/viennagrid/mesh/segmentation.hpp
+++ b/viennagrid/mesh/segmentation.hpp
@@ -2176,6 +2176,7 @@ namespace viennagrid
   {
     typedef typename viennagrid::result_of::mesh_view<SegmentHandleT>::type ToEraseViewT;
     ToEraseViewT elements_to_erase = viennagrid::make_view(segment);
+    viennagrid::elements< viennagrid::element<ElementTagT, WrappedConfigT> >(elements_to_erase).insert_unique_handle( viennagrid::handle(segment, element) );
     viennagrid::mark_referencing_elements( segment, elements_to_erase, viennagrid::handle(segment, element) );
 
     detail::non_recursive_erase_functor<SegmentHandleT> functor( segment );
-- 
2.43.0


From f08ec3b39ff4740509c18045e6f32c4f36d71bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:14:25 +0000
Subject: [PATCH 12/19] fix: at() of map accessors and fields inserted missing
 entries instead of throwing

---
 viennagrid/accessor.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/viennagrid/accessor.hpp b/viennagrid/accessor.hpp
index 0c7b53a..8b69db3 100644
--- a/viennagrid/accessor.hpp
+++ b/viennagrid/accessor.hpp
@@ -369,7 +369,9 @@ namespace viennagrid
 
     reference at(AccessType const & element)
     {
-      return (*this)(element);
+      typename container_type::iterator it = (*container).find( unpack(element) );
+      if (it == (*container).end()) throw std::out_of_range("std_map_accessor::at() failed");
+      return it->second;
     }
 
     const_reference at(AccessType const & element) const
@@ -863,7 +865,9 @@ namespace viennagrid
 
     reference at(AccessType const & element)
     {
-      return (*this)(element);
+      typename container_type::iterator it = (*container).find( unpack(element) );
+      if (it == (*container).end()) throw std::out_of_range("std_map_field::at() failed");
+      return it->second;
     }
 
     const_reference at(AccessType const & element) const
-- 
2.43.0


From 7b97fb093f715315db125939d7b5a0d9cfc2a6aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:14:25 +0000
Subject: [PATCH 13/19] fix: default constructed fields left their container
 pointer uninitialised

---
 viennagrid/accessor.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/viennagrid/accessor.hpp b/viennagrid/accessor.hpp
index 8b69db3..46eca41 100644
--- a/viennagrid/accessor.hpp
+++ b/viennagrid/accessor.hpp
@@ -695,7 +695,7 @@ namespace viennagrid
 
     typedef typename access_type::id_type::base_id_type offset_type;
 
-    dense_container_field() : default_value() {}
+    dense_container_field() : container(0), default_value() {}
     dense_container_field( ContainerType & container_ ) : container(&container_), default_value() {}
     dense_container_field( ContainerType & container_, value_type const & value_type_ ) : container(&container_), default_value(value_type_) {}
 
@@ -770,7 +770,7 @@ namespace viennagrid
 
     typedef typename access_type::id_type::base_id_type offset_type;
 
-    dense_container_field() : default_value() {}
+    dense_container_field() : container(0), default_value() {}
     dense_container_field( ContainerType const & container_ ) : container(&container_), default_value() {}
     dense_container_field( ContainerType const & container_, value_type const & value_type_ ) : container(&container_), default_value(value_type_) {}
 
@@ -830,7 +830,7 @@ namespace viennagrid
     typedef value_type *         pointer;
     typedef value_type const *   const_pointer;
 
-    std_map_field() : default_value() {}
+    std_map_field() : container(0), default_value() {}
     std_map_field( ContainerType & container_ ) : container(&container_), default_value() {}
     std_map_field( ContainerType & container_, value_type const & value_type_ ) : container(&container_), default_value(value_type_) {}
 
@@ -901,7 +901,7 @@ namespace viennagrid
     typedef value_type const *         pointer;
     typedef value_type const *   const_pointer;
 
-    std_map_field() : default_value() {}
+    std_map_field() : container(0), default_value() {}
     std_map_field( ContainerType const & container_ ) : container(&container_), default_value() {}
     std_map_field( ContainerType const & container_, value_type const & value_type_ ) : container(&container_), default_value(value_type_) {}
 
-- 
2.43.0


From e99034fd9c6a0dbfcb49dbf326de33e2adfee202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:14:25 +0000
Subject: [PATCH 14/19] fix: dynamic accessor wrapper called a member function
 that does not exist

---
 viennagrid/accessor.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/viennagrid/accessor.hpp b/viennagrid/accessor.hpp
index 46eca41..f47669b 100644
--- a/viennagrid/accessor.hpp
+++ b/viennagrid/accessor.hpp
@@ -624,11 +624,11 @@ namespace viennagrid
     virtual pointer find( access_type const & element ) { return accessor.find(element); }
     virtual const_pointer find( access_type const & element ) const { return accessor.find(element); }
 
-    virtual reference operator()( access_type const & element )       { return access(element); }
-    virtual const_reference operator()( access_type const & element ) const { return access(element); }
+    virtual reference operator()( access_type const & element )       { return accessor(element); }
+    virtual const_reference operator()( access_type const & element ) const { return accessor(element); }
 
-    virtual reference at( access_type const & element ) { return accessor.access(element); }
-    virtual const_reference at( access_type const & element ) const { return accessor.access(element); }
+    virtual reference at( access_type const & element ) { return accessor.at(element); }
+    virtual const_reference at( access_type const & element ) const { return accessor.at(element); }
 
   private:
     AccessorType accessor;
@@ -654,8 +654,8 @@ namespace viennagrid
     dynamic_accessor_wrapper(AccessorType accessor_) : accessor(accessor_) {}
 
     virtual const_pointer find( access_type const & element ) const { return accessor.find(element); }
-    virtual const_reference operator()( access_type const & element ) const { return access(element); }
-    virtual const_reference at( access_type const & element ) const { return accessor.access(element); }
+    virtual const_reference operator()( access_type const & element ) const { return accessor(element); }
+    virtual const_reference at( access_type const & element ) const { return accessor.at(element); }
 
   private:
     AccessorType accessor;
-- 
2.43.0


From 3116121dc9840bf4b5e28b4671d427d0767648d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:35:55 +0000
Subject: [PATCH 15/19] fix: erase elements from keyed containers in place

erase_elements swapped the values of two elements inside the keyed map that
stores edges and faces.  The keys stayed, so that one remaining element was
stored under the key of the erased one: creating it again later made a
duplicate.
---
 viennagrid/mesh/element_deletion.hpp | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/viennagrid/mesh/element_deletion.hpp b/viennagrid/mesh/element_deletion.hpp
index 0be50e1..056fccd 100644
--- a/viennagrid/mesh/element_deletion.hpp
+++ b/viennagrid/mesh/element_deletion.hpp
@@ -82,6 +82,21 @@ namespace viennagrid
     }
 
 
+    /** @brief For internal use only: elements stored under a key cannot change places, but erasing one leaves all others in place */
+    template<typename ContainerT>
+    struct erases_in_place
+    {
+      static const bool value = false;
+    };
+
+    /** @brief For internal use only */
+    template<typename KeyT, typename ElementT, typename HandleTagT>
+    struct erases_in_place< viennagrid::detail::container< viennagrid::hidden_key_map<KeyT, ElementT>, HandleTagT > >
+    {
+      static const bool value = true;
+    };
+
+
     /** @brief For internal use only */
     template<typename MeshT, typename MeshViewT>
     struct erase_functor
@@ -98,6 +113,8 @@ namespace viennagrid
         typedef typename viennagrid::result_of::element_range<MeshT, ElementT>::type ElementRangeType;
         typedef typename viennagrid::result_of::iterator<ElementRangeType>::type ElementRangeIterator;
 
+        typedef typename viennagrid::result_of::container_of<typename MeshT::element_collection_type, ElementT>::type ElementContainerType;
+
         typedef typename viennagrid::result_of::id<ElementT>::type id_type;
 
   //             std::vector< std::pair<element_range_iterator, element_range_iterator> > swtiching_map;
@@ -113,6 +130,13 @@ namespace viennagrid
         for (typename std::deque<id_type>::iterator it = ids_to_erase.begin(); it != ids_to_erase.end(); ++it)
         {
           ElementRangeIterator to_erase_it = find( mesh_obj_, *it );
+
+          if (erases_in_place<ElementContainerType>::value)
+          {
+            elements.erase( to_erase_it );
+            continue;
+          }
+
           ElementRangeIterator back_it = --elements.end();
 
           if (back_it != to_erase_it)
-- 
2.43.0


From 86ef821d47d6b609b09552deab8764d04c9671f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:12 +0000
Subject: [PATCH 16/19] fix: netgen_reader rejects files with unreadable tokens
 or vertex indices that do not exist

---
 viennagrid/io/netgen_reader.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/viennagrid/io/netgen_reader.hpp b/viennagrid/io/netgen_reader.hpp
index 0ba1eed..92de708 100644
--- a/viennagrid/io/netgen_reader.hpp
+++ b/viennagrid/io/netgen_reader.hpp
@@ -77,7 +77,8 @@ namespace viennagrid
         // Read vertices:
         //
         reader >> node_num;
-        assert(node_num > 0);
+        if (reader.fail() || node_num <= 0)
+          throw bad_file_format_exception("* ViennaGrid: netgen_reader::operator(): File " + filename + ": Invalid number of vertices.");
 
         #if defined VIENNAGRID_DEBUG_STATUS || defined VIENNAGRID_DEBUG_IO
         std::cout << "* netgen_reader::operator(): Reading " << node_num << " vertices... " << std::endl;
@@ -94,6 +95,8 @@ namespace viennagrid
 
           for (std::size_t j=0; j<static_cast<std::size_t>(point_dim); j++)
             reader >> p[j];
+          if (reader.fail())
+            throw bad_file_format_exception("* ViennaGrid: netgen_reader::operator(): File " + filename + ": Invalid vertex coordinates.");
 
           viennagrid::make_vertex_with_id( mesh_obj, typename VertexType::id_type(i), p );
         }
@@ -106,6 +109,8 @@ namespace viennagrid
         // Read cells:
         //
         reader >> cell_num;
+        if (reader.fail())
+          throw bad_file_format_exception("* ViennaGrid: netgen_reader::operator(): File " + filename + ": Invalid number of cells.");
 
         #if defined VIENNAGRID_DEBUG_STATUS || defined VIENNAGRID_DEBUG_IO
         std::cout << "* netgen_reader::operator(): Reading " << cell_num << " cells... " << std::endl;
@@ -121,6 +126,8 @@ namespace viennagrid
 
           int segment_index;
           reader >> segment_index;
+          if (reader.fail())
+            throw bad_file_format_exception("* ViennaGrid: netgen_reader::operator(): File " + filename + ": Invalid segment index.");
 
           for (std::size_t j=0; j<static_cast<std::size_t>(boundary_elements<CellTag, vertex_tag>::num); ++j)
           {
@@ -128,6 +135,8 @@ namespace viennagrid
               throw bad_file_format_exception("* ViennaGrid: netgen_reader::operator(): File " + filename + ": EOF encountered while reading cells (cell ID expected).");
 
             reader >> vertex_num;
+            if (reader.fail() || vertex_num < 1 || vertex_num > static_cast<std::size_t>(node_num))
+              throw bad_file_format_exception("* ViennaGrid: netgen_reader::operator(): File " + filename + ": Invalid vertex index.");
             cell_vertex_handles[j] = viennagrid::vertices(mesh_obj).handle_at(vertex_num-1);
           }
 
-- 
2.43.0


From 7f08aefe6094ccf59ff49cd6396fed390cb6403b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:13 +0000
Subject: [PATCH 17/19] fix: vtk_reader reads vector data registered for a
 segment by triples, not past the end

---
 viennagrid/io/vtk_reader.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/viennagrid/io/vtk_reader.hpp b/viennagrid/io/vtk_reader.hpp
index 40a5776..9739659 100644
--- a/viennagrid/io/vtk_reader.hpp
+++ b/viennagrid/io/vtk_reader.hpp
@@ -542,7 +542,7 @@ namespace viennagrid
           }
           else if (current_registered_segment_vertex_vector_data.find(name) != current_registered_segment_vertex_vector_data.end())
           {
-            for (std::size_t i=0; i<container.second.size(); ++i)
+            for (std::size_t i=0; i<container.second.size()/3; ++i)
             {
               std::size_t global_vertex_id = local_to_global_map[seg_id][i];
               VertexType const & vertex = viennagrid::elements<viennagrid::vertex_tag>(mesh_obj)[global_vertex_id];
@@ -636,7 +636,7 @@ namespace viennagrid
           }
           else if (current_registered_segment_cell_vector_data.find(name) != current_registered_segment_cell_vector_data.end())
           {
-            for (std::size_t i=0; i<container.second.size(); ++i)
+            for (std::size_t i=0; i<container.second.size()/3; ++i)
             {
               CellType const & cell = viennagrid::dereference_handle( segment, local_cell_handle[seg_id][i] );
 
-- 
2.43.0


From f5214648bb3caf8e82aef335a8efa7d30fe99b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:13 +0000
Subject: [PATCH 18/19] fix: opendx_writer refers to vertices by their position
 in the file, not by their ID

---
 viennagrid/io/opendx_writer.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/viennagrid/io/opendx_writer.hpp b/viennagrid/io/opendx_writer.hpp
index 3fd7723..be8cf52 100644
--- a/viennagrid/io/opendx_writer.hpp
+++ b/viennagrid/io/opendx_writer.hpp
@@ -15,6 +15,7 @@
 
 #include <fstream>
 #include <iostream>
+#include <map>
 #include "viennagrid/forwards.hpp"
 #include "viennagrid/mesh/mesh.hpp"
 #include "viennagrid/io/helper.hpp"
@@ -127,11 +128,14 @@ namespace viennagrid
           writer << pointnum << " data follows" << std::endl;
 
           //Nodes:
+          std::map< typename VertexType::id_type, std::size_t > vertex_indices; // position of each vertex in the file (IDs need not be consecutive)
           VertexRange vertices = viennagrid::elements<vertex_tag>(mesh_obj);
           for (VertexIterator vit = vertices.begin();
               vit != vertices.end();
               ++vit)
           {
+            std::size_t const index = vertex_indices.size();
+            vertex_indices[vit->id()] = index;
             PointWriter<geometric_dim>::write(writer, viennagrid::point( mesh_obj, *vit ) );
             writer << std::endl;
           }
@@ -152,7 +156,7 @@ namespace viennagrid
                 ++vocit)
             {
               VertexType const & vertex = *vocit;
-              writer << vertex.id() << " ";
+              writer << vertex_indices[vertex.id()] << " ";
             }
             writer << std::endl;
           }
-- 
2.43.0


From 6e503c9f2214f4a2619ff8383810e8e8ccec5466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:28:41 +0000
Subject: [PATCH 19/19] fix: vtk_reader: a data array without
 NumberOfComponents is a scalar also after a vector

---
 viennagrid/io/vtk_reader.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/viennagrid/io/vtk_reader.hpp b/viennagrid/io/vtk_reader.hpp
index 9739659..2c27abc 100644
--- a/viennagrid/io/vtk_reader.hpp
+++ b/viennagrid/io/vtk_reader.hpp
@@ -351,7 +351,6 @@ namespace viennagrid
                              NameContainerType & data_names_vector)
       {
         std::string name;
-        std::size_t components = 1;
 
         xml_tag<> tag;
 
@@ -362,6 +361,7 @@ namespace viennagrid
           tag.check_attribute("name", "");
           name = tag.get_value("name");
 
+          std::size_t components = 1; // the default for each data array
           if (tag.has_attribute("numberofcomponents"))
             components = static_cast<std::size_t>(atoi(tag.get_value("numberofcomponents").c_str()));
 
-- 
2.43.0

