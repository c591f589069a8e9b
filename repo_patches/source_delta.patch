From b78d3d524913b6638c619fab0683771a3ff04b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:39 +0000
Subject: [PATCH 01/27] fix: accumulate vector sum in the entry type

VecND::sum() started std::accumulate with the int 0, so every partial sum
of floating point entries was truncated (Vec2d{0.5,0.7}.sum() gave 0).
---
 src/utils/VecND.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/VecND.h b/src/utils/VecND.h
index 3a65fb5..7b1be09 100644
--- a/src/utils/VecND.h
+++ b/src/utils/VecND.h
@@ -295,7 +295,7 @@ public:
   ------------------------------------------------------------------*/
   T sum() const
   { 
-    return std::accumulate(cbegin(), cend(), 0);
+    return std::accumulate(cbegin(), cend(), T {});
   }
 
   /*------------------------------------------------------------------
-- 
2.43.0


From 64eea42e8da35e5091e35fc959ba0c3e40698f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:01 +0000
Subject: [PATCH 02/27] fix: treat points on any boundary edge segment as
 inside

EdgeList::is_inside() documents that coordinates located on the edge
segments are treated as lying inside, but only tested horizontal edges.
---
 src/algorithm/EdgeList.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/algorithm/EdgeList.h b/src/algorithm/EdgeList.h
index 51085ab..985260b 100644
--- a/src/algorithm/EdgeList.h
+++ b/src/algorithm/EdgeList.h
@@ -247,9 +247,8 @@ public:
         return true;
 
       // Object on edge
-      if ( EQ( obj.y, v2.y ) && EQ( obj.y, v1.y ) )
-        if ( in_on_segment(v1, v2, obj) )
-          return true;
+      if ( in_on_segment(v1, v2, obj) )
+        return true;
 
       // Crossing lines
       if (  ( obj.y > v2.y  &&  obj.y <= v1.y )
-- 
2.43.0


From 0320dbd2e9b245ad787fa02caf93a666befaa108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:14:34 +0000
Subject: [PATCH 03/27] fix: nearest item query finds items far from the
 query's leaf

---
 src/utils/QuadTree.h | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/utils/QuadTree.h b/src/utils/QuadTree.h
index 31cbb9f..78301e7 100644
--- a/src/utils/QuadTree.h
+++ b/src/utils/QuadTree.h
@@ -10,6 +10,7 @@
 #include <list>      // std::list
 #include <vector>    // std::vector
 #include <array>     // std::array
+#include <limits>    // std::numeric_limits
 #include <stdexcept> // std::runtime_error
 #include <iomanip>   // std::setprecision
 #include <iostream>  // std::to_string
@@ -188,16 +189,28 @@ public:
   {
     auto quad = get_leaf(query);
 
-    V min_dist_sqr = 4 * quad->scale() * quad->scale();
+    V min_dist_sqr = std::numeric_limits<V>::max();
+    V radius       = 4 * ( quad ? quad->scale() : scale_ );
     T* winner      = nullptr;
 
-    for ( auto item : quad->items() )
-      if ( qfun(item, query, min_dist_sqr ) )
-        winner = item;
+    if ( quad )
+      for ( auto item : quad->items() )
+        if ( qfun(item, query, min_dist_sqr ) )
+          winner = item;
+
+    if ( winner )
+      radius = 4 * sqrt(min_dist_sqr);
 
     Vector found {};
     
-    get_items(query, 4 * sqrt(min_dist_sqr), found);
+    get_items(query, radius, found);
+
+    // Enlarge the search radius until any item is located in it
+    while ( !winner && found.empty() && n_items_ > 0 )
+    {
+      radius *= 2;
+      get_items(query, radius, found);
+    }
 
     for ( auto item : found )
       if ( qfun(item, query, min_dist_sqr ) )
-- 
2.43.0


From 6cbaa58e56304723551aa6c57780f40bef682a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:14:34 +0000
Subject: [PATCH 04/27] fix: re-index container items that move onto another
 leaf's border

---
 src/utils/Container.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utils/Container.h b/src/utils/Container.h
index 1fc3946..4a3843e 100644
--- a/src/utils/Container.h
+++ b/src/utils/Container.h
@@ -194,7 +194,8 @@ public:
   {
     auto quad = qtree_.get_leaf( item.xy() );
 
-    if ( in_on_rect(xy_new, quad->lowleft(), quad->upright()) )
+    // Positions on the border between leafs may belong to another leaf
+    if ( quad && qtree_.get_leaf( xy_new ) == quad )
     {
       item.xy_ = xy_new;
       return true;
-- 
2.43.0


From 6d4835b8bd73ff1e8ef7c230d9b9ab719e28492b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:41 +0000
Subject: [PATCH 05/27] fix: intersection tests of edge lists consider every
 edge pair

---
 src/algorithm/EdgeList.h | 20 +++++---------------
 1 file changed, 5 insertions(+), 15 deletions(-)

diff --git a/src/algorithm/EdgeList.h b/src/algorithm/EdgeList.h
index 985260b..6e7e06f 100644
--- a/src/algorithm/EdgeList.h
+++ b/src/algorithm/EdgeList.h
@@ -408,16 +408,11 @@ public:
       const Vec2d& xy_1 = e_ptr->v1().xy();
       const Vec2d& xy_2 = e_ptr->v2().xy();
 
-      const Vec2d ll = { MIN(xy_1.x, xy_2.x), MIN(xy_1.y, xy_2.y) };
-      const Vec2d ur = { MAX(xy_1.x, xy_2.x), MAX(xy_1.y, xy_2.y) };
-
-      auto found_edges = edges_.get_items(ll, ur);
-
-      for ( const auto& e_found : found_edges )
+      for ( const auto& e_found : edges_ )
       {
-        if ( e_found == e_ptr.get()) continue;
-        if ( e_found == e_prev) continue;
-        if ( e_found == e_next) continue;
+        if ( e_found.get() == e_ptr.get()) continue;
+        if ( e_found.get() == e_prev) continue;
+        if ( e_found.get() == e_next) continue;
 
         const Vec2d& xy_1_e = e_found->v1().xy();
         const Vec2d& xy_2_e = e_found->v2().xy();
@@ -442,12 +437,7 @@ public:
       const Vec2d& xy_1 = e_ptr->v1().xy();
       const Vec2d& xy_2 = e_ptr->v2().xy();
 
-      const Vec2d ll = { MIN(xy_1.x, xy_2.x), MIN(xy_1.y, xy_2.y) };
-      const Vec2d ur = { MAX(xy_1.x, xy_2.x), MAX(xy_1.y, xy_2.y) };
-
-      auto found_edges = edge_list.edges().get_items(ll, ur);
-
-      for ( const auto& e_found : found_edges )
+      for ( const auto& e_found : edge_list.edges() )
       {
         const Vec2d& xy_1_e = e_found->v1().xy();
         const Vec2d& xy_2_e = e_found->v2().xy();
-- 
2.43.0


From 71bc2a0a30c5c4e80c9a60ac6f6822e677559adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:09 +0000
Subject: [PATCH 06/27] fix: keep the area of an edge list current when edges
 are removed or split

---
 src/algorithm/EdgeList.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/algorithm/EdgeList.h b/src/algorithm/EdgeList.h
index 6e7e06f..d861bba 100644
--- a/src/algorithm/EdgeList.h
+++ b/src/algorithm/EdgeList.h
@@ -156,7 +156,13 @@ public:
   /*------------------------------------------------------------------
   | Remove an edge from the edge list
   ------------------------------------------------------------------*/
-  bool remove(Edge& edge) { return edges_.remove( edge ); }
+  bool remove(Edge& edge) 
+  { 
+    const bool removed = edges_.remove( edge ); 
+    if ( removed && orient_ != Orientation::NONE )
+      compute_area();
+    return removed;
+  }
 
   /*------------------------------------------------------------------
   | Clear all edges and eventually the associated vertices
@@ -495,6 +501,8 @@ protected:
   ------------------------------------------------------------------*/
   void compute_area()
   {
+    area_ = 0.0;
+
     if ( edges_.size() < 3 ) return;
 
     // Take first node of first edge as reference point
-- 
2.43.0


From 64c8103bb0f4ea137686ff69fba14a9007691cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:54 +0000
Subject: [PATCH 07/27] fix: domain extent of domains that do not contain the
 origin

---
 src/algorithm/Domain.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/algorithm/Domain.h b/src/algorithm/Domain.h
index 6a64271..7690be2 100644
--- a/src/algorithm/Domain.h
+++ b/src/algorithm/Domain.h
@@ -222,6 +222,14 @@ public:
     Vec2d x_extent { 0.0, 0.0 };
     Vec2d y_extent { 0.0, 0.0 };
 
+    // Start from any vertex - the domain might not contain the origin
+    if ( verts_.size() > 0 )
+    {
+      const Vec2d& xy = verts_.front().xy();
+      x_extent = { xy.x, xy.x };
+      y_extent = { xy.y, xy.y };
+    }
+
     for ( const auto& v : verts_ )
     {
       x_extent[0] = MIN( x_extent[0], v->x() );
-- 
2.43.0


From 4c0655806838918fec15df47b0890c42ad708d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:56 +0000
Subject: [PATCH 08/27] fix: closest vertex of an edge list at any distance

---
 src/algorithm/EdgeList.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algorithm/EdgeList.h b/src/algorithm/EdgeList.h
index d861bba..07c434b 100644
--- a/src/algorithm/EdgeList.h
+++ b/src/algorithm/EdgeList.h
@@ -381,7 +381,7 @@ public:
       "EdgeList::get_closest_vertex(): EdgeList is empty.");
 
     Vertex* v_nearest   = nullptr;
-    double min_dist_sqr = 1.0E+10;
+    double min_dist_sqr = std::numeric_limits<double>::max();
 
     for ( const auto& e_ptr : edges_ )
     {
-- 
2.43.0


From 4fcefd5d288a8f304a1c41ec6f4031260e305620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:56 +0000
Subject: [PATCH 09/27] fix: left and right element of an edge next to concave
 quads

---
 src/algorithm/MeshCleanup.h | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/algorithm/MeshCleanup.h b/src/algorithm/MeshCleanup.h
index a98a48e..e60d38a 100644
--- a/src/algorithm/MeshCleanup.h
+++ b/src/algorithm/MeshCleanup.h
@@ -131,7 +131,7 @@ public:
       {
         f1->neighbor( idx1, f2 );
 
-        if ( is_left( v1.xy(), v2.xy(), f1->xy() ) )
+        if ( facet_is_left( *f1, v1, v2 ) )
           e_ptr->facet_l( f1 );
         else
           e_ptr->facet_r( f1 );
@@ -141,7 +141,7 @@ public:
       {
         f2->neighbor( idx2, f1 );
 
-        if ( is_left( v1.xy(), v2.xy(), f2->xy() ) )
+        if ( facet_is_left( *f2, v1, v2 ) )
           e_ptr->facet_l( f2 );
         else
           e_ptr->facet_r( f2 );
@@ -171,7 +171,7 @@ public:
         continue;
 
       // Setup connectivity between boundary edge and facet
-      if ( is_left( v1.xy(), v2.xy(), f1->xy() ) )
+      if ( facet_is_left( *f1, v1, v2 ) )
         e_ptr->facet_l( f1 );
       else
         ASSERT(false, "Invalid mesh boundary edge");
@@ -808,6 +808,19 @@ public:
   } // merge_triangles_to_quads()
 
 private:
+  /*------------------------------------------------------------------
+  | A facet lies to the left of its edge (v1,v2), if v2 succeeds v1 
+  | in the facet's counter-clockwise vertex order
+  | (its centroid may be located on the other side, if the facet 
+  |  is not convex)
+  ------------------------------------------------------------------*/
+  static inline bool facet_is_left(const Facet& f, const Vertex& v1,
+                                   const Vertex& v2)
+  {
+    const int n = static_cast<int>( f.n_vertices() );
+    return f.vertex( MOD(f.get_vertex_index(v1) + 1, n) ) == v2;
+  }
+
   /*------------------------------------------------------------------
   | We hide the constructor, since this class acts only as container
   | for static inline functions
-- 
2.43.0


From 3a73ea74c949c57d0cf7a99bd0cf03df78161697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:15 +0000
Subject: [PATCH 10/27] fix: clear_double edges stopped at the first merged
 quad

---
 src/algorithm/MeshCleanup.h | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/algorithm/MeshCleanup.h b/src/algorithm/MeshCleanup.h
index e60d38a..6c2aff7 100644
--- a/src/algorithm/MeshCleanup.h
+++ b/src/algorithm/MeshCleanup.h
@@ -224,15 +224,12 @@ public:
     // Array used to mark elements that will be merged
     // --> Quads are assumed to be located before triangles
     std::vector<bool> element_marker(mesh.n_elements(), false);
-    size_t i_quad = 0;
 
     for ( auto& q_cur : mesh.quads() )
     {
-      if ( element_marker[i_quad] ) 
+      if ( element_marker[q_cur->index()] ) 
         continue;
 
-      ++i_quad;
-
       // Loop over all edges of the current quad
       for ( int i_vert = 0; i_vert < 4; ++i_vert )
       {
@@ -436,15 +433,12 @@ public:
     // Array used to mark quads that will be merged
     // --> Quads are assumed to be located before triangles
     std::vector<bool> element_marker(mesh.n_elements(), false);
-    size_t i_quad = 0;
 
     for ( auto& q_cur : mesh.quads() )
     {
-      if ( element_marker[i_quad] ) 
+      if ( element_marker[q_cur->index()] ) 
         continue;
 
-      ++i_quad;
-
       // Loop over all edges of the current quad
       for ( int i_vert = 0; i_vert < 4; ++i_vert )
       {
-- 
2.43.0


From 25a5965e8af062b72d2b938ad4676d884689ba63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:58 +0000
Subject: [PATCH 11/27] fix: element cleanup keeps fixed vertices

---
 src/algorithm/MeshCleanup.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/algorithm/MeshCleanup.h b/src/algorithm/MeshCleanup.h
index 6c2aff7..8566a8b 100644
--- a/src/algorithm/MeshCleanup.h
+++ b/src/algorithm/MeshCleanup.h
@@ -255,6 +255,10 @@ public:
         if ( nbr_1 != nbr_2 )
           continue;
 
+        // Fixed vertices must not be removed
+        if ( v2.is_fixed() )
+          continue;
+
         ASSERT( nbr_1 != nullptr, 
           "MeshCleanup::clear_double_quad_edges(): "
           "First edge neighbor is nullptr.");
@@ -463,6 +467,10 @@ public:
         if ( nbr_1 != nbr_2 )
           continue;
 
+        // Fixed vertices must not be removed
+        if ( v2.is_fixed() )
+          continue;
+
         ASSERT( nbr_1 != nullptr, 
           "MeshCleanup::clear_double_quad_edges(): "
           "First edge neighbor is nullptr.");
-- 
2.43.0


From 2cac2573b874856bf163c73a0f6781a42b86f1ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:31 +0000
Subject: [PATCH 12/27] fix: merging of elements keeps their colors

---
 src/algorithm/MeshCleanup.h          | 18 ++++++++++++++----
 src/algorithm/ModificationStrategy.h |  5 +++--
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/algorithm/MeshCleanup.h b/src/algorithm/MeshCleanup.h
index 8566a8b..77e2034 100644
--- a/src/algorithm/MeshCleanup.h
+++ b/src/algorithm/MeshCleanup.h
@@ -259,6 +259,10 @@ public:
         if ( v2.is_fixed() )
           continue;
 
+        // Only elements of the same color can be merged
+        if ( nbr_1->color() != q_cur->color() )
+          continue;
+
         ASSERT( nbr_1 != nullptr, 
           "MeshCleanup::clear_double_quad_edges(): "
           "First edge neighbor is nullptr.");
@@ -344,7 +348,8 @@ public:
       Vertex* o2 = opposing_vertices[i].second;
 
       // Create new quad 
-      Quad& q_new = mesh.add_quad( *o1, v1, *o2, v3 );
+      Quad& q_new = mesh.add_quad( *o1, v1, *o2, v3,
+                                  quads_to_remove[i].first->color() );
       q_new.is_active(true);
     }
 
@@ -471,6 +476,10 @@ public:
         if ( v2.is_fixed() )
           continue;
 
+        // Only elements of the same color can be merged
+        if ( nbr_1->color() != q_cur->color() )
+          continue;
+
         ASSERT( nbr_1 != nullptr, 
           "MeshCleanup::clear_double_quad_edges(): "
           "First edge neighbor is nullptr.");
@@ -537,7 +546,7 @@ public:
       Vertex& v3 = q->vertex( MOD(id_v+3, 4) );
 
       // Create new triangle 
-      Triangle& t_new = mesh.add_triangle( v1, v2, v3 );
+      Triangle& t_new = mesh.add_triangle( v1, v2, v3, q->color() );
       t_new.is_active(true);
     }
 
@@ -704,7 +713,8 @@ public:
       Facet* f_r = e_ptr->facet_r();
 
       if (  ( NullFacet::is_not_null(f_l) && f_l->n_vertices() == 3 )
-         && ( NullFacet::is_not_null(f_r) && f_r->n_vertices() == 3 ) )
+         && ( NullFacet::is_not_null(f_r) && f_r->n_vertices() == 3 )
+         && ( f_l->color() == f_r->color() ) )
         tri_edges.push_back( e_ptr.get() );
     }
 
@@ -763,7 +773,7 @@ public:
       mesh.remove_interior_edge( *e );
 
       // Create new quadrilateral element
-      Quad& q_new = mesh.add_quad( q_l, v1, q_r, v2 );
+      Quad& q_new = mesh.add_quad( q_l, v1, q_r, v2, f_l->color() );
       q_new.is_active( true );
 
       // Update internal edge connectivity to prevent bad memory 
diff --git a/src/algorithm/ModificationStrategy.h b/src/algorithm/ModificationStrategy.h
index bf1208c..1c91d43 100644
--- a/src/algorithm/ModificationStrategy.h
+++ b/src/algorithm/ModificationStrategy.h
@@ -99,7 +99,7 @@ private:
 
   /*------------------------------------------------------------------
   | This function collects all internal edges that are adjacent to
-  | two triangles and sorts them with increasing minimum triangle
+  | two triangles of the same color and sorts them with increasing minimum triangle
   | edge length.
   ------------------------------------------------------------------*/
   void collect_triangle_edges()
@@ -111,7 +111,8 @@ private:
       Facet* f_r = e_ptr->facet_r();
 
       if (  ( NullFacet::is_not_null(f_l) && f_l->n_vertices() == 3 )
-         && ( NullFacet::is_not_null(f_r) && f_r->n_vertices() == 3 ) )
+         && ( NullFacet::is_not_null(f_r) && f_r->n_vertices() == 3 )
+         && ( f_l->color() == f_r->color() ) )
         tri_edges_.push_back( e_ptr.get() );
     }
 
-- 
2.43.0


From f56d89200aa0955afcc4d2a16c3f60f97671a8d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:58 +0000
Subject: [PATCH 13/27] fix: merge_meshes reports a failed merge

---
 src/algorithm/MeshGenerator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algorithm/MeshGenerator.h b/src/algorithm/MeshGenerator.h
index 8132eb1..61c2737 100644
--- a/src/algorithm/MeshGenerator.h
+++ b/src/algorithm/MeshGenerator.h
@@ -134,7 +134,7 @@ public:
       meshes_.erase( it );
     }
 
-    return true;
+    return success;
 
   } // MeshGenerator::merge_meshes()
 
-- 
2.43.0


From 434265de1e17420fa7e3d71eefffe7f9aadfea41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:37 +0000
Subject: [PATCH 14/27] fix: quad layers along a single boundary edge

---
 src/algorithm/QuadLayering.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/algorithm/QuadLayering.h b/src/algorithm/QuadLayering.h
index 743eaf5..2603fda 100644
--- a/src/algorithm/QuadLayering.h
+++ b/src/algorithm/QuadLayering.h
@@ -65,15 +65,14 @@ public:
     // Initialize edges
     Edge* e_cur = e_start_;
 
-    do 
+    while ( e_cur != e_end_ )
     {
       ASSERT( e_cur, "QuadLayerVertices::QuadLayerVertices(): "
         "Advancing front data structure seems to be corrupted.");
 
       add_quadlayer_edge( *e_cur );
       e_cur = e_cur->get_next_edge();
-
-    } while ( e_cur != e_end_ );
+    }
 
     // Add also the ending edge
     add_quadlayer_edge( *e_end_ );
-- 
2.43.0


From d8399b515a0b6333797e37e79e91b23b8298ac6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:23 +0000
Subject: [PATCH 15/27] fix: generating elements in a mesh that is already
 complete

---
 src/algorithm/QuadLayering.h  | 4 ++++
 src/algorithm/Triangulation.h | 8 ++++++++
 2 files changed, 12 insertions(+)

diff --git a/src/algorithm/QuadLayering.h b/src/algorithm/QuadLayering.h
index 2603fda..faf10b7 100644
--- a/src/algorithm/QuadLayering.h
+++ b/src/algorithm/QuadLayering.h
@@ -587,6 +587,10 @@ public:
 
     // Prepare the mesh  
     MeshCleanup::setup_facet_connectivity(mesh_);
+
+    // There is no space for quad layers if the mesh is already complete
+    if (mesh_.get_front_edges().size() < 1)
+      return false;
     
     // Initialize the advancing front and its base edge
     init_advancing_front(false);
diff --git a/src/algorithm/Triangulation.h b/src/algorithm/Triangulation.h
index 2c0db33..706f295 100644
--- a/src/algorithm/Triangulation.h
+++ b/src/algorithm/Triangulation.h
@@ -82,6 +82,10 @@ public:
     // Prepare the mesh  
     MeshCleanup::setup_facet_connectivity(mesh_);
 
+    // Nothing remains to be done if the mesh is already complete
+    if (mesh_.get_front_edges().size() < 1)
+      return true;
+
     // Initialize the advancing front and its base edge
     Edge* base_edge = init_advancing_front();
 
@@ -133,6 +137,10 @@ public:
     // Prepare the mesh  
     MeshCleanup::setup_facet_connectivity(mesh_);
 
+    // Nothing remains to be done if the mesh is already complete
+    if (mesh_.get_front_edges().size() < 1)
+      return true;
+
     // Initialize the advancing front and its base edge
     Edge* base_edge = init_advancing_front();
 
-- 
2.43.0


From f076bbeb59789502a7c0aac2f90f7ab5737dcb48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:42 +0000
Subject: [PATCH 16/27] fix: quad layers keep the shape of the boundary and
 interfaces

---
 src/algorithm/QuadLayering.h | 57 ++++++++++++++++++++++++++++++++----
 1 file changed, 51 insertions(+), 6 deletions(-)

diff --git a/src/algorithm/QuadLayering.h b/src/algorithm/QuadLayering.h
index faf10b7..6312dbd 100644
--- a/src/algorithm/QuadLayering.h
+++ b/src/algorithm/QuadLayering.h
@@ -289,14 +289,17 @@ private:
       Vec2d delta_2 = v1_proj_xy_[0] - v1_base_[0]->xy(); 
       double s = dot(delta_1, delta_2) / delta_1.norm_sqr();
       Vec2d v_prev_new = v1_base_[0]->xy() + delta_1 * s;
-      MeshCleanup::set_vertex_coordinates(v_prev, v_prev_new);
-      v1_proj_xy_[0] = v_prev_new;
+
+      if ( can_be_shifted(v_prev, v_start, v_prev_new) )
+        MeshCleanup::set_vertex_coordinates(v_prev, v_prev_new);
+
+      v1_proj_xy_[0] = v_prev.xy();
       return;
     }
 
     // Scenario 2
     // ----------
-    if ( h < e_prev->length() )
+    if ( h < e_prev->length() && !is_interface(mesh_bdry_edges, *e_prev) )
     {
       // Get a pointer to the previous edge in the mesh data structure,
       // since it will be removed later on
@@ -353,6 +356,45 @@ private:
   } // QuadLayerVertices::place_start_vertex()
 
 
+  /*------------------------------------------------------------------
+  | Check if a vertex v, which is connected to v_base, can be shifted 
+  | to the location xy on the line through both vertices. This is not 
+  | possible if it would change the shape of the boundary, an  
+  | interface to another mesh or already existing elements
+  ------------------------------------------------------------------*/
+  bool can_be_shifted(const Vertex& v, const Vertex& v_base, 
+                      const Vec2d& xy) const
+  {
+    if ( v.is_fixed() || v.facets().size() > 0 )
+      return false;
+
+    for ( const auto& e : v.edges() )
+    {
+      if ( !e->on_boundary() )
+        continue;
+
+      const Vec2d& p = ( e->v1() == v ) ? e->v2().xy() : e->v1().xy();
+
+      if ( e->twin_edge() || dot(xy - p, v.xy() - p) <= 0.0 ||
+           orientation(v_base.xy(), v.xy(), p) != Orientation::CL )
+        return false;
+    }
+
+    return true;
+
+  } // QuadLayerVertices::can_be_shifted()
+
+  /*------------------------------------------------------------------
+  | Check if a front edge is located at the interface to another mesh
+  | - such edges must not be splitted
+  ------------------------------------------------------------------*/
+  bool is_interface(EdgeList& bdry_edges, const Edge& e) const
+  {
+    const Edge* e_bdry = bdry_edges.get_edge(e.v1(), e.v2());
+    return ( e_bdry && e_bdry->twin_edge() );
+
+  } // QuadLayerVertices::is_interface()
+
   /*------------------------------------------------------------------
   | 
   |   Scenario 1           Scenario 2            Scenario 3
@@ -414,14 +456,17 @@ private:
       Vec2d delta_2 = v2_proj_xy_.back() - v_end.xy(); 
       double s = dot(delta_1, delta_2) / delta_1.norm_sqr();
       Vec2d v_next_new = v_end.xy() + delta_1 * s;
-      MeshCleanup::set_vertex_coordinates(v_next, v_next_new);
-      v2_proj_xy_.back() = v_next_new;
+
+      if ( can_be_shifted(v_next, v_end, v_next_new) )
+        MeshCleanup::set_vertex_coordinates(v_next, v_next_new);
+
+      v2_proj_xy_.back() = v_next.xy();
       return;
     }
 
     // Scenario 2
     // ----------
-    if ( h < e_next->length() )
+    if ( h < e_next->length() && !is_interface(bdry_edges, *e_next) )
     {
       // Get a pointer to the next edge in the mesh data structure,
       // since it will be removed later on
-- 
2.43.0


From 558710858ab74be7e850e0333d9b4ac15445b72c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:45:32 +0000
Subject: [PATCH 17/27] fix: quad layers in a domain without remaining space

---
 src/algorithm/QuadLayering.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/algorithm/QuadLayering.h b/src/algorithm/QuadLayering.h
index 6312dbd..c939eb0 100644
--- a/src/algorithm/QuadLayering.h
+++ b/src/algorithm/QuadLayering.h
@@ -672,6 +672,10 @@ private:
   ------------------------------------------------------------------*/
   bool generate_quad_layer(double height)
   {
+    // There is no space left for another layer
+    if ( front_.size() == 0 )
+      return false;
+
     // Determine the edges in the advancing front, that correspond 
     // to the current start and ending positions for the quad layer 
     if ( !find_start_and_ending_edges(xy_start_, xy_end_) )
-- 
2.43.0


From 8ba747dc614c6dae07020bf09e1202d8225b9fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:04 +0000
Subject: [PATCH 18/27] fix: algorithms of a merged mesh are no longer used

---
 src/algorithm/MeshGenerator.h | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/src/algorithm/MeshGenerator.h b/src/algorithm/MeshGenerator.h
index 61c2737..cd9e801 100644
--- a/src/algorithm/MeshGenerator.h
+++ b/src/algorithm/MeshGenerator.h
@@ -131,6 +131,8 @@ public:
       if ( !mesh_builder_.remove_mesh_and_domain(donor) )
         return false;
 
+      reset_algorithms( donor );
+
       meshes_.erase( it );
     }
 
@@ -248,6 +250,36 @@ public:
 
 private:
 
+  /*------------------------------------------------------------------
+  | Reset all algorithms that refer to a given mesh
+  ------------------------------------------------------------------*/
+  void reset_algorithms(const Mesh& mesh)
+  {
+    if ( meshing_algorithm_ && &meshing_algorithm_->mesh() == &mesh )
+    {
+      meshing_algorithm_.reset();
+      meshing_algorithm_type_ = MeshingAlgorithm::None;
+    }
+
+    if ( smoothing_algorithm_ && &smoothing_algorithm_->mesh() == &mesh )
+    {
+      smoothing_algorithm_.reset();
+      smoothing_algorithm_type_ = SmoothingAlgorithm::None;
+    }
+
+    if ( refinement_algorithm_ && &refinement_algorithm_->mesh() == &mesh )
+    {
+      refinement_algorithm_.reset();
+      refinement_algorithm_type_ = RefinementAlgorithm::None;
+    }
+
+    if ( modification_algorithm_ && &modification_algorithm_->mesh() == &mesh )
+    {
+      modification_algorithm_.reset();
+      modification_algorithm_type_ = ModificationAlgorithm::None;
+    }
+  }
+
   /*------------------------------------------------------------------
   | Set a mesh generation algorithm for a specified mesh.
   | Returns false if the mesh is not connected to this MeshGenerator
-- 
2.43.0


From f55d66c038ecde537940170259456f2526db03a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:04 +0000
Subject: [PATCH 19/27] fix: smoothing keeps the height of quad layers

---
 src/algorithm/SmoothingStrategy.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/algorithm/SmoothingStrategy.h b/src/algorithm/SmoothingStrategy.h
index ec3570a..ec595b2 100644
--- a/src/algorithm/SmoothingStrategy.h
+++ b/src/algorithm/SmoothingStrategy.h
@@ -78,8 +78,12 @@ protected:
     if ( !quad_layer_smoothing_ )
       return;
 
+    std::size_t i_v = 0;
+
     for ( auto& v_ptr : vertices )
     {
+      Vec2d& bdry_direction = bdry_direction_[i_v++];
+
       // Skip all vertices except those located in quad layers
       if ( !v_ptr->has_property(VertexProperty::in_quad_layer) )
         continue;
@@ -103,7 +107,10 @@ protected:
       const Vec2d p_xy = e1_xy + t * delta_e;
       const Vec2d delta_p = p_xy - v_xy;
 
-      bdry_direction_.push_back( delta_p / delta_p.norm() );
+      const double norm = delta_p.norm();
+
+      if ( norm > 0.0 )
+        bdry_direction = delta_p / norm;
     }
 
   } // collect_dispalcement_directions()
-- 
2.43.0


From cafa92c52d61f853a2eea999b85aa8de4ec36169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:07 +0000
Subject: [PATCH 20/27] fix: report failure when a mesh file cannot be written

MeshWriter::write() returned true although the file could not be opened (P22).
---
 src/algorithm/MeshWriter.h | 6 ++----
 src/utils/VtkIO.h          | 5 ++++-
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/algorithm/MeshWriter.h b/src/algorithm/MeshWriter.h
index b382b83..354c3c7 100644
--- a/src/algorithm/MeshWriter.h
+++ b/src/algorithm/MeshWriter.h
@@ -90,7 +90,7 @@ private:
 
     outfile.close();
 
-    return true;
+    return !outfile.fail();
 
   } // MeshWriter::write_to_txt()
 
@@ -184,9 +184,7 @@ private:
     writer.add_cell_data( max_angle, "max_angle", 1 );
     writer.add_cell_data( cell_quality, "cell_quality", 1 );
 
-    writer.write( fullpath );
-
-    return true;
+    return writer.write( fullpath );
 
   } // MeshWriter::write_to_vtu()
 
diff --git a/src/utils/VtkIO.h b/src/utils/VtkIO.h
index 7add4a4..2dd9fa9 100644
--- a/src/utils/VtkIO.h
+++ b/src/utils/VtkIO.h
@@ -178,8 +178,9 @@ public:
 
   /*------------------------------------------------------------------
   | Write the VTU file
+  | Returns true, if the file has been written successfully
   ------------------------------------------------------------------*/
-  void write(const std::string& file_name)
+  bool write(const std::string& file_name)
   {
     std::ofstream outfile;
     outfile.open(file_name);
@@ -221,6 +222,8 @@ public:
 
     outfile.close();
 
+    return !outfile.fail();
+
   } // VtuWriter::write()
 
 private:
-- 
2.43.0


From 8bb2affe53df0b4fef942c5e255cabd7cf32c968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:35 +0000
Subject: [PATCH 21/27] fix: angles of elements with collinear vertices are
 never NaN

Rounding could take the argument of acos() out of [-1,1], so that the
largest angle of an element with a straight corner became NaN (P06).
---
 src/algorithm/FacetGeometry.h | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/algorithm/FacetGeometry.h b/src/algorithm/FacetGeometry.h
index e37a6e7..bad7e75 100644
--- a/src/algorithm/FacetGeometry.h
+++ b/src/algorithm/FacetGeometry.h
@@ -96,9 +96,9 @@ public:
     double l2 = edge_lengths[1];
     double l3 = edge_lengths[2];
 
-    double a1 = acos( dot( q-p,  r-p ) / (l1*l3) );
-    double a2 = acos( dot( p-q,  r-q ) / (l1*l2) );
-    double a3 = acos( dot( p-r,  q-r ) / (l2*l3) );
+    double a1 = acos( CLAMP( dot( q-p,  r-p ) / (l1*l3), -1.0, 1.0 ) );
+    double a2 = acos( CLAMP( dot( p-q,  r-q ) / (l1*l2), -1.0, 1.0 ) );
+    double a3 = acos( CLAMP( dot( p-r,  q-r ) / (l2*l3), -1.0, 1.0 ) );
 
     return { a1, a2, a3 };
   }
@@ -423,10 +423,10 @@ public:
     double l3 = edge_lengths[2];
     double l4 = edge_lengths[3];
 
-    double a1 = acos( dot( q-p,  s-p ) / (l4*l1) );
-    double a2 = acos( dot( p-q,  r-q ) / (l1*l2) );
-    double a3 = acos( dot( s-r,  q-r ) / (l2*l3) );
-    double a4 = acos( dot( r-s,  p-s ) / (l3*l4) );
+    double a1 = acos( CLAMP( dot( q-p,  s-p ) / (l4*l1), -1.0, 1.0 ) );
+    double a2 = acos( CLAMP( dot( p-q,  r-q ) / (l1*l2), -1.0, 1.0 ) );
+    double a3 = acos( CLAMP( dot( s-r,  q-r ) / (l2*l3), -1.0, 1.0 ) );
+    double a4 = acos( CLAMP( dot( r-s,  p-s ) / (l3*l4), -1.0, 1.0 ) );
 
     return { a1, a2, a3, a4 };
   }
-- 
2.43.0


From ef11aa19c747e1c20f767305b3b80b9b428055f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:50 +0000
Subject: [PATCH 22/27] fix: matrix parameters ignore comments and empty lines

Text behind a comment marker and empty lines inside of a matrix definition
were read as (default) values, and an empty definition as a row of
arbitrary values (P23).
---
 src/utils/ParaReader.h | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/utils/ParaReader.h b/src/utils/ParaReader.h
index b3d65e7..e59c49f 100644
--- a/src/utils/ParaReader.h
+++ b/src/utils/ParaReader.h
@@ -762,7 +762,7 @@ private:
     // Check for correct shape of input data
     size_t n_rows = out.size() / para.columns();
 
-    if ( out.size() != para.columns()*n_rows ) 
+    if ( n_rows < 1 || out.size() != para.columns()*n_rows ) 
       return false;
 
     // Resize the parameter values to initial size 
@@ -853,8 +853,17 @@ private:
 
     for ( size_t i = 0; i < sub_strings.size(); ++i )
     {
+      // Remove everything behind the comment identifier
+      const string row = sub_strings[i].substr(
+          0, sub_strings[i].find(ParaFileComment)
+      );
+
+      // Ignore empty lines
+      if ( row.find_first_not_of(" \t\r") == string::npos )
+        continue;
+
       string s;
-      std::stringstream ss( sub_strings[i] );
+      std::stringstream ss( row );
 
       std::size_t j = 0;
 
-- 
2.43.0


From bb54356a2e5a2ce5c315fc8a986cc26261ada66f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:32 +0000
Subject: [PATCH 23/27] fix: reject exterior boundary edges with an undefined
 vertex

The index of the first undefined vertex was accepted and an invalid
vertex was accessed (P24).
---
 src/app/TQMeshApp.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/app/TQMeshApp.h b/src/app/TQMeshApp.h
index 59d0a18..e3874a6 100644
--- a/src/app/TQMeshApp.h
+++ b/src/app/TQMeshApp.h
@@ -602,7 +602,7 @@ private:
         int    m  = para_extr_bdry.get_value(2, i);
 
         // Throw error if indices are larger than number of vertices
-        if ( i1 > n_vertices || i2 > n_vertices )
+        if ( i1 >= n_vertices || i2 >= n_vertices )
           throw_error("Invalid exterior boundary definition: " 
             "Some vertex index is larger that the number of "
             "provided input vertices.");
-- 
2.43.0


From 5f17c3534e95cb133bc8dd02ca1cb95883c7d2bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:51 +0000
Subject: [PATCH 24/27] fix: error messages about missing mesh parameters name
 the mesh

The mesh number was added to the address of the message, which cut off its
beginning and read beyond its end for many meshes (P24).
---
 src/app/TQMeshApp.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/app/TQMeshApp.h b/src/app/TQMeshApp.h
index e3874a6..7e9405e 100644
--- a/src/app/TQMeshApp.h
+++ b/src/app/TQMeshApp.h
@@ -856,10 +856,10 @@ private:
   void query_mandatory_parameters(ParaReader& mesh_reader)
   {
     if ( !mesh_reader.query<std::string>("output_prefix") )
-      throw_error("No output file prefix defined for mesh " + mesh_id_ );
+      throw_error("No output file prefix defined for mesh " + std::to_string(mesh_id_) );
 
     if ( !mesh_reader.query<std::string>("output_format") )
-      throw_error("No output format defined for mesh " + mesh_id_ ); 
+      throw_error("No output format defined for mesh " + std::to_string(mesh_id_) ); 
 
     output_prefix_ = mesh_reader.get_value<std::string>("output_prefix");
     output_format_ = mesh_reader.get_value<std::string>("output_format");
@@ -868,7 +868,7 @@ private:
     print_parameter<std::string>(mesh_reader, "output_format");
 
     if ( !mesh_reader.query<std::string>("size_function") )
-      throw_error("Invalid size function definition for mesh " + mesh_id_);
+      throw_error("Invalid size function definition for mesh " + std::to_string(mesh_id_) );
 
   } // MeshConstruction::query_mandatory_parameters()
 
-- 
2.43.0


From a4014999d7f4de51d286ddef4f8d8baa6e9decdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:45 +0000
Subject: [PATCH 25/27] fix: report a boundary without edges as invalid domain

---
 src/algorithm/EntityChecks.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/algorithm/EntityChecks.h b/src/algorithm/EntityChecks.h
index 0df8450..41de6e4 100644
--- a/src/algorithm/EntityChecks.h
+++ b/src/algorithm/EntityChecks.h
@@ -62,6 +62,12 @@ public:
     // Check if domain boundaries are traversable
     for ( const auto& boundary : domain )
     {
+      if ( boundary->size() < 1 )
+      {
+        LOG(ERROR) << "Invalid domain: Boundary without edges.";
+        return false;
+      }
+
       Edge& e_start = boundary->edges()[0];
 
       if ( !boundary->is_traversable(e_start, e_start) )
-- 
2.43.0


From 2dd3f0c5c53ef1fdd7c4b5f5cc08391fdbc141bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:20:05 +0000
Subject: [PATCH 26/27] fix: quad layers split only boundary edges, never edges
 of existing elements

---
 src/algorithm/QuadLayering.h | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/algorithm/QuadLayering.h b/src/algorithm/QuadLayering.h
index c939eb0..37a2775 100644
--- a/src/algorithm/QuadLayering.h
+++ b/src/algorithm/QuadLayering.h
@@ -299,7 +299,7 @@ private:
 
     // Scenario 2
     // ----------
-    if ( h < e_prev->length() && !is_interface(mesh_bdry_edges, *e_prev) )
+    if ( h < e_prev->length() && can_be_split(mesh_bdry_edges, *e_prev) )
     {
       // Get a pointer to the previous edge in the mesh data structure,
       // since it will be removed later on
@@ -385,15 +385,17 @@ private:
   } // QuadLayerVertices::can_be_shifted()
 
   /*------------------------------------------------------------------
-  | Check if a front edge is located at the interface to another mesh
-  | - such edges must not be splitted
+  | Check if a front edge can be split. This is only possible for 
+  | boundary edges that are not connected to another mesh - any other
+  | front edge is already part of an element or of a fixed edge, where
+  | the new vertex would be a hanging node
   ------------------------------------------------------------------*/
-  bool is_interface(EdgeList& bdry_edges, const Edge& e) const
+  bool can_be_split(EdgeList& bdry_edges, const Edge& e) const
   {
     const Edge* e_bdry = bdry_edges.get_edge(e.v1(), e.v2());
-    return ( e_bdry && e_bdry->twin_edge() );
+    return ( e_bdry && !e_bdry->twin_edge() );
 
-  } // QuadLayerVertices::is_interface()
+  } // QuadLayerVertices::can_be_split()
 
   /*------------------------------------------------------------------
   | 
@@ -466,7 +468,7 @@ private:
 
     // Scenario 2
     // ----------
-    if ( h < e_next->length() && !is_interface(bdry_edges, *e_next) )
+    if ( h < e_next->length() && can_be_split(bdry_edges, *e_next) )
     {
       // Get a pointer to the next edge in the mesh data structure,
       // since it will be removed later on
-- 
2.43.0


From 9d940f0db2a6555e7da11edec1d35e004b2e0fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:42 +0000
Subject: [PATCH 27/27] fix: no new elements at edges that already left the
 advancing front

---
 src/algorithm/FrontUpdate.h | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/algorithm/FrontUpdate.h b/src/algorithm/FrontUpdate.h
index ec9f55c..f2608f5 100644
--- a/src/algorithm/FrontUpdate.h
+++ b/src/algorithm/FrontUpdate.h
@@ -337,6 +337,11 @@ private:
     if ( !tri.is_valid() )
       return false;
 
+    if ( edge_is_processed( tri.v1(), tri.v2() ) ||
+         edge_is_processed( tri.v2(), tri.v3() ) ||
+         edge_is_processed( tri.v3(), tri.v1() ) )
+    { DEBUG_LOG("  > EDGE ALREADY PROCESSED"); return false; }
+
     if ( tri.intersects_front( front_, range ) )
     { DEBUG_LOG("  > FRONT INTERSECTION"); return false; }
 
@@ -363,6 +368,21 @@ private:
 
   } // Mesh::triangle_is_valid()
 
+  /*------------------------------------------------------------------
+  | Check if the edge between two vertices has already been processed, 
+  | i.e. if it is part of the mesh and no longer of the advancing front.
+  | There is no space for another element at such edges.
+  ------------------------------------------------------------------*/
+  bool edge_is_processed(const Vertex& v1, const Vertex& v2)
+  {
+    if ( front_.get_edge(v1, v2) )
+      return false;
+
+    return ( mesh_.interior_edges().get_edge(v1, v2) ||
+             mesh_.boundary_edges().get_edge(v1, v2) );
+
+  } // FrontUpdate::edge_is_processed()
+
   /*------------------------------------------------------------------
   | Check if a vertex is valid. If yes, return true - 
   | else return false.
-- 
2.43.0

