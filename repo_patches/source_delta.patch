From 5639216de6030f95e4efb3a4d1cfe269a5898afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:51 +0000
Subject: [PATCH 01/54] fix: meshing an already complete mesh must not access
 an empty advancing front

Triangulation and quad layering dereferenced the (null) base edge of the
front if a mesh without front edges was passed. Report the finished state
instead.
---
 src/algorithm/MeshingStrategy.h | 6 ++++--
 src/algorithm/QuadLayering.h    | 4 +++-
 src/algorithm/Triangulation.h   | 8 ++++++++
 3 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/algorithm/MeshingStrategy.h b/src/algorithm/MeshingStrategy.h
index 433e54c..8a042ac 100644
--- a/src/algorithm/MeshingStrategy.h
+++ b/src/algorithm/MeshingStrategy.h
@@ -62,8 +62,10 @@ protected:
   {
     front_.init_front(mesh_);
     Edge* base = front_.set_base_first();
-    ASSERT( base, "MeshingStrategy::generate_elements(): "
-      "Invalid advancing front structure.");
+
+    // There are no front edges, if the mesh is already complete
+    if ( !base )
+      return nullptr;
 
     if (sort_edges)
       front_.sort_edges( false );
diff --git a/src/algorithm/QuadLayering.h b/src/algorithm/QuadLayering.h
index 743eaf5..0ff9c43 100644
--- a/src/algorithm/QuadLayering.h
+++ b/src/algorithm/QuadLayering.h
@@ -590,7 +590,9 @@ public:
     MeshCleanup::setup_facet_connectivity(mesh_);
     
     // Initialize the advancing front and its base edge
-    init_advancing_front(false);
+    // No layer can be generated if the mesh is already complete
+    if ( !init_advancing_front(false) )
+      return false;
 
     // Remove invalid mesh edges that are no longer needed
     remove_invalid_mesh_edges();
diff --git a/src/algorithm/Triangulation.h b/src/algorithm/Triangulation.h
index 2c0db33..3b6e983 100644
--- a/src/algorithm/Triangulation.h
+++ b/src/algorithm/Triangulation.h
@@ -85,6 +85,10 @@ public:
     // Initialize the advancing front and its base edge
     Edge* base_edge = init_advancing_front();
 
+    // The mesh is already complete -> there is nothing to generate
+    if ( !base_edge )
+      return true;
+
     // Remove invalid mesh edges that are no longer needed
     remove_invalid_mesh_edges();
 
@@ -136,6 +140,10 @@ public:
     // Initialize the advancing front and its base edge
     Edge* base_edge = init_advancing_front();
 
+    // The mesh is already complete -> there is nothing to generate
+    if ( !base_edge )
+      return true;
+
     // Remove invalid mesh edges that are no longer needed
     remove_invalid_mesh_edges();
 
-- 
2.43.0


From a19e925939e536dd70d5226c6fa39af4db49a3b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:51 +0000
Subject: [PATCH 02/54] fix: merge_meshes must report failure if the meshes
 could not be merged

The return value of the merger was dropped: merging two meshes without a
common interface returned true although both meshes were left as they were.
---
 src/algorithm/MeshGenerator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algorithm/MeshGenerator.h b/src/algorithm/MeshGenerator.h
index 8132eb1..61c2737 100644
--- a/src/algorithm/MeshGenerator.h
+++ b/src/algorithm/MeshGenerator.h
@@ -134,7 +134,7 @@ public:
       meshes_.erase( it );
     }
 
-    return true;
+    return success;
 
   } // MeshGenerator::merge_meshes()
 
-- 
2.43.0


From 4a25fcd2e01607615491b0641ad239f6630fa7b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:51 +0000
Subject: [PATCH 03/54] fix: mesh cleanup must not remove fixed vertices

clear_double_quad_edges() and clear_double_triangle_edges() removed the
vertex that is shared by both edges even if the user fixed it.
---
 src/algorithm/MeshCleanup.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/algorithm/MeshCleanup.h b/src/algorithm/MeshCleanup.h
index a98a48e..8238043 100644
--- a/src/algorithm/MeshCleanup.h
+++ b/src/algorithm/MeshCleanup.h
@@ -270,6 +270,10 @@ public:
         if ( element_marker[nbr_1->index()] )
           continue;
 
+        // Fixed vertices must not be removed
+        if ( v2.is_fixed() )
+          continue;
+
         // In this stage, we address only quad / quad connections
         if ( nbr_1->n_vertices() < 4 )
           continue;
@@ -481,6 +485,10 @@ public:
         if ( element_marker[nbr_1->index()] )
           continue;
 
+        // Fixed vertices must not be removed
+        if ( v2.is_fixed() )
+          continue;
+
         // In this stage, we address only quad / triangle connections
         if ( nbr_1->n_vertices() > 3 )
           continue;
-- 
2.43.0


From 9bdb928c550f61970f8335301675c5303b6e59dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:51 +0000
Subject: [PATCH 04/54] fix: preserve element colors in tri-to-quad conversion
 and cleanup

The conversion merged triangles of different colors across the interface
of merged meshes, and the cleanup assigned the default color of the mesh to
elements it created.
---
 src/algorithm/MeshCleanup.h          | 5 +++--
 src/algorithm/ModificationStrategy.h | 4 ++++
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/algorithm/MeshCleanup.h b/src/algorithm/MeshCleanup.h
index 8238043..07ee01b 100644
--- a/src/algorithm/MeshCleanup.h
+++ b/src/algorithm/MeshCleanup.h
@@ -347,7 +347,8 @@ public:
       Vertex* o2 = opposing_vertices[i].second;
 
       // Create new quad 
-      Quad& q_new = mesh.add_quad( *o1, v1, *o2, v3 );
+      Quad& q_new = mesh.add_quad( *o1, v1, *o2, v3,
+                                   quads_to_remove[i].first->color() );
       q_new.is_active(true);
     }
 
@@ -543,7 +544,7 @@ public:
       Vertex& v3 = q->vertex( MOD(id_v+3, 4) );
 
       // Create new triangle 
-      Triangle& t_new = mesh.add_triangle( v1, v2, v3 );
+      Triangle& t_new = mesh.add_triangle( v1, v2, v3, q->color() );
       t_new.is_active(true);
     }
 
diff --git a/src/algorithm/ModificationStrategy.h b/src/algorithm/ModificationStrategy.h
index bf1208c..d364388 100644
--- a/src/algorithm/ModificationStrategy.h
+++ b/src/algorithm/ModificationStrategy.h
@@ -156,6 +156,10 @@ private:
       if ( f_l->n_vertices() > 3 || f_r->n_vertices() > 3 ) 
         continue;
 
+      // Triangles of different regions must not be merged
+      if ( f_l->color() != f_r->color() )
+        continue;
+
       Vertex& v1 = e->v1();
       Vertex& v2 = e->v2();
 
-- 
2.43.0


From fad1e1dd2bf239639ae948ce913769c1cbb68e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:51 +0000
Subject: [PATCH 05/54] fix: quad layering must not dereference missing front
 edges

If former quads already closed a part of the advancing front, the edges at
the layer ends or at a gap are not in the front anymore. These cases were
only covered by assertions and crashed in release builds.
---
 src/algorithm/QuadLayering.h | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/algorithm/QuadLayering.h b/src/algorithm/QuadLayering.h
index 0ff9c43..ab87873 100644
--- a/src/algorithm/QuadLayering.h
+++ b/src/algorithm/QuadLayering.h
@@ -877,17 +877,25 @@ private:
     // Don't add v_a new vertex and instead only connect (v_a,v_b,v_c)
     if ( alpha <= angle_factor_ * CPPUTILS_PI_HALF )
     {
+      // There is no gap, if its edge is no longer part of the front
+      Edge* base = front_.get_edge( v_b, v_c );
+      if ( !base )
+        return;
+
       Triangle* t_new = &( mesh_.add_triangle(v_a, v_b, v_c) );
 
       if ( front_update_.remove_from_mesh_if_invalid(*t_new) )
         return;
        
-      Edge* base = front_.get_edge( v_b, v_c );
       front_update_.advance_front( *base, v_a, *t_new );
 
       return;
     }
 
+    // There is no gap, if its edges are no longer part of the front
+    if ( !front_.get_edge(v_a, v_b) || !front_.get_edge(v_b, v_c) )
+      return;
+
     // Create new vertex and then generate two triangles
     const Vec2d v_xy = v_b.xy() + l1 + l2;
 
@@ -924,6 +932,10 @@ private:
   bool find_start_and_ending_edges(const Vec2d& xy_start,
                                    const Vec2d& xy_end)
   {
+    // A former layer may have closed the entire front
+    if ( front_.size() < 1 )
+      return false;
+
     // Find closest vertices in current front structure to  
     // current start and ending vertex coordinates
     Vertex& v_start = front_.get_closest_vertex( xy_start );
@@ -933,9 +945,10 @@ private:
     Edge* e_start = front_.get_edge(v_start, 1); 
     Edge* e_end   = front_.get_edge(v_end, 2); 
 
-    ASSERT((e_start && e_end), 
-      "QuadLayering::find_start_and_ending_edges(): "
-      "Vertex-edge-connectivity seems to be corrupted.");
+    // The closest vertex may not be connected to the advancing front
+    // anymore (e.g. if the front has been closed by a former layer)
+    if ( !e_start || !e_end )
+      return false;
 
     if ( !front_.is_traversable(*e_start, *e_end) )
     {
-- 
2.43.0


From e9e44a4bb22e1d18b861193186e96d96dfb38941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:35 +0000
Subject: [PATCH 06/54] fix: quad layer endings must not alter the domain,
 interfaces or elements

At the ends of an open quad layer, the adjacent vertex was shifted even if it
is a corner of the domain, a fixed vertex or part of an interface to another
mesh, and the adjacent edge was split even if an element or another mesh is
attached to it. This changed the meshed region, created hanging vertices or
left dangling references in the neighboring mesh. Use the adjacent vertex as
it is in such cases.
---
 src/algorithm/QuadLayering.h | 74 ++++++++++++++++++++++++++++++------
 1 file changed, 62 insertions(+), 12 deletions(-)

diff --git a/src/algorithm/QuadLayering.h b/src/algorithm/QuadLayering.h
index ab87873..7890b6f 100644
--- a/src/algorithm/QuadLayering.h
+++ b/src/algorithm/QuadLayering.h
@@ -141,7 +141,8 @@ public:
   | projected base vertices. In the case of a QuadLayerVertices that 
   | is not closed, adjacent edges are eventually refined. 
   ------------------------------------------------------------------*/
-  void setup_vertex_projection(Mesh& mesh, Front& front)
+  void setup_vertex_projection(const Domain& domain, 
+                               Mesh& mesh, Front& front)
   {
     // Update coordinates of projected base vertices
     for ( size_t i = 1; i < base_edges_.size(); ++i )
@@ -153,8 +154,10 @@ public:
     }
     else
     {
-      place_start_vertex(mesh.vertices(), front, mesh.boundary_edges());
-      place_end_vertex(mesh.vertices(), front, mesh.boundary_edges());
+      place_start_vertex(domain, mesh.vertices(), front, 
+                         mesh.boundary_edges());
+      place_end_vertex(domain, mesh.vertices(), front, 
+                       mesh.boundary_edges());
     }
 
   } // QuadLayerVertices::setup_vertex_projection()
@@ -219,6 +222,49 @@ private:
   } // QuadLayerVertices::adjust_projected_vertex_coordinates()
 
 
+  /*------------------------------------------------------------------
+  | Returns true, if a vertex can be shifted to a new position without
+  | changing the shape or the colors of the domain boundary, its 
+  | interfaces to other meshes, fixed vertices or existing elements
+  ------------------------------------------------------------------*/
+  bool is_shiftable(const Vertex& v, const Vec2d& xy_new,
+                    const Domain& domain, 
+                    const EdgeList& bdry_edges) const
+  {
+    if ( v.is_fixed() || v.facets().size() > 0 )
+      return false;
+
+    const Edge* e1 = bdry_edges.get_edge(v, 2);
+    const Edge* e2 = bdry_edges.get_edge(v, 1);
+
+    if ( !e1 || !e2 || e1->twin_edge() || e2->twin_edge() )
+      return false;
+
+    // Vertices that define the domain must not be shifted
+    const double tol = 1.0E-08 * MIN(e1->length(), e2->length());
+
+    for ( const auto& v_ptr : domain.vertices() )
+      if ( (v_ptr->xy() - v.xy()).norm_sqr() < tol * tol )
+        return false;
+
+    // The new position must be located between the adjacent vertices
+    const Vec2d d = e2->v2().xy() - e1->v1().xy();
+    const double s = dot(xy_new - e1->v1().xy(), d) / d.norm_sqr();
+
+    return s > 0.0 && s < 1.0;
+
+  } // QuadLayerVertices::is_shiftable()
+
+  /*------------------------------------------------------------------
+  | Returns true, if a front edge can be split, such that no hanging 
+  | vertices are created in adjacent elements or meshes
+  ------------------------------------------------------------------*/
+  bool is_splittable(const Edge& e, const EdgeList& bdry_edges) const
+  {
+    const Edge* e_bdry = bdry_edges.get_edge(e.v1(), e.v2());
+    return e_bdry && !e_bdry->twin_edge();
+  }
+
   /*------------------------------------------------------------------
   | To prevent degenerate triangles, we check if the projected 
   | vertex of the first quad layer element is located too close 
@@ -253,7 +299,8 @@ private:
   |  v_start                  v_start                v_start           
   |
   ------------------------------------------------------------------*/
-  void place_start_vertex(Vertices& mesh_vertices, 
+  void place_start_vertex(const Domain& domain,
+                          Vertices& mesh_vertices, 
                           Front&    front, 
                           EdgeList& mesh_bdry_edges)
   {
@@ -290,14 +337,15 @@ private:
       Vec2d delta_2 = v1_proj_xy_[0] - v1_base_[0]->xy(); 
       double s = dot(delta_1, delta_2) / delta_1.norm_sqr();
       Vec2d v_prev_new = v1_base_[0]->xy() + delta_1 * s;
-      MeshCleanup::set_vertex_coordinates(v_prev, v_prev_new);
-      v1_proj_xy_[0] = v_prev_new;
+      if ( is_shiftable(v_prev, v_prev_new, domain, mesh_bdry_edges) )
+        MeshCleanup::set_vertex_coordinates(v_prev, v_prev_new);
+      v1_proj_xy_[0] = v_prev.xy();
       return;
     }
 
     // Scenario 2
     // ----------
-    if ( h < e_prev->length() )
+    if ( h < e_prev->length() && is_splittable(*e_prev, mesh_bdry_edges) )
     {
       // Get a pointer to the previous edge in the mesh data structure,
       // since it will be removed later on
@@ -372,7 +420,8 @@ private:
   |            v_end            v_end                 v_end
   |
   ------------------------------------------------------------------*/
-  void place_end_vertex(Vertices& verts, 
+  void place_end_vertex(const Domain& domain,
+                        Vertices& verts, 
                         Front&    front, 
                         EdgeList& bdry_edges)
   {
@@ -415,14 +464,15 @@ private:
       Vec2d delta_2 = v2_proj_xy_.back() - v_end.xy(); 
       double s = dot(delta_1, delta_2) / delta_1.norm_sqr();
       Vec2d v_next_new = v_end.xy() + delta_1 * s;
-      MeshCleanup::set_vertex_coordinates(v_next, v_next_new);
-      v2_proj_xy_.back() = v_next_new;
+      if ( is_shiftable(v_next, v_next_new, domain, bdry_edges) )
+        MeshCleanup::set_vertex_coordinates(v_next, v_next_new);
+      v2_proj_xy_.back() = v_next.xy();
       return;
     }
 
     // Scenario 2
     // ----------
-    if ( h < e_next->length() )
+    if ( h < e_next->length() && is_splittable(*e_next, bdry_edges) )
     {
       // Get a pointer to the next edge in the mesh data structure,
       // since it will be removed later on
@@ -638,7 +688,7 @@ private:
                                           closed_layer_, height,
                                           angle_factor_ };
     quad_layer_verts.smooth_heights( domain_ );
-    quad_layer_verts.setup_vertex_projection( mesh_, front_ );
+    quad_layer_verts.setup_vertex_projection( domain_, mesh_, front_ );
 
     // For each base edge in the quad layer, try to create a quad
     // element with its given projected coordinates
-- 
2.43.0


From fce81e1aa017f5d527f75e9b65472e9884f64fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:06:51 +0000
Subject: [PATCH 07/54] fix: determine edge/facet adjacency independent of the
 facet centroid

The side of a facet was derived from the position of its centroid, which lies
outside of strongly non-convex quads. Their edges lost the connectivity, such
that boundary edges were treated as open and merges missed them.
---
 src/algorithm/MeshCleanup.h | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/algorithm/MeshCleanup.h b/src/algorithm/MeshCleanup.h
index 07ee01b..c6477a8 100644
--- a/src/algorithm/MeshCleanup.h
+++ b/src/algorithm/MeshCleanup.h
@@ -131,7 +131,7 @@ public:
       {
         f1->neighbor( idx1, f2 );
 
-        if ( is_left( v1.xy(), v2.xy(), f1->xy() ) )
+        if ( is_left_facet( *f1, v1, v2 ) )
           e_ptr->facet_l( f1 );
         else
           e_ptr->facet_r( f1 );
@@ -141,7 +141,7 @@ public:
       {
         f2->neighbor( idx2, f1 );
 
-        if ( is_left( v1.xy(), v2.xy(), f2->xy() ) )
+        if ( is_left_facet( *f2, v1, v2 ) )
           e_ptr->facet_l( f2 );
         else
           e_ptr->facet_r( f2 );
@@ -171,7 +171,7 @@ public:
         continue;
 
       // Setup connectivity between boundary edge and facet
-      if ( is_left( v1.xy(), v2.xy(), f1->xy() ) )
+      if ( is_left_facet( *f1, v1, v2 ) )
         e_ptr->facet_l( f1 );
       else
         ASSERT(false, "Invalid mesh boundary edge");
@@ -817,6 +817,19 @@ public:
   } // merge_triangles_to_quads()
 
 private:
+  /*------------------------------------------------------------------
+  | Returns true if a facet is located left to its edge (v1,v2). Since 
+  | facet vertices are ordered counter-clockwise, this is the case if 
+  | v2 succeeds v1. The facet centroid can not be used for this check, 
+  | because it may be located outside of non-convex quads.
+  ------------------------------------------------------------------*/
+  static inline bool is_left_facet(const Facet& f, 
+                                   const Vertex& v1, const Vertex& v2)
+  {
+    const int i = f.get_vertex_index(v1);
+    return f.vertex( MOD(i + 1, static_cast<int>(f.n_vertices())) ) == v2;
+  }
+
   /*------------------------------------------------------------------
   | We hide the constructor, since this class acts only as container
   | for static inline functions
-- 
2.43.0


From 7ddbf033533a7f5dc2f030c73621bb19316d7430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:06:51 +0000
Subject: [PATCH 08/54] fix: merging must not depend on elements at the
 interface

Interface edges were assigned to meshes by their adjacent elements. If one of
the meshes is not (completely) meshed along the interface, the merge was
refused or left duplicated boundary edges behind.
---
 src/algorithm/MeshMerger.h | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/src/algorithm/MeshMerger.h b/src/algorithm/MeshMerger.h
index 492fd5d..bab505e 100644
--- a/src/algorithm/MeshMerger.h
+++ b/src/algorithm/MeshMerger.h
@@ -109,11 +109,7 @@ private:
       if ( !e_twin )
         continue;
 
-      Facet* f_twin = e_twin->facet_l();
-      ASSERT( f_twin, "MeshBuilder::merge_meshes(): "
-        "Invalid boundary edge connectivity." );
-
-      if ( f_twin->mesh() != donor_ )
+      if ( &e_twin->edgelist() != &donor_->boundary_edges() )
         continue;
 
       auto v1_index = e_twin->v1().index();
@@ -241,8 +237,7 @@ private:
 
       // Skip if edge is an interface to this mesh
       if ( e_twin && 
-           e_twin->facet_l() && 
-           e_twin->facet_l()->mesh() == receiver_ )
+           &e_twin->edgelist() == &receiver_->boundary_edges() )
         continue;
 
       auto v1_index = e_ptr->v1().index();
@@ -281,11 +276,7 @@ private:
       if ( !e_twin )
         continue;
 
-      Facet* f_twin = e_twin->facet_l();
-      ASSERT( f_twin, "MeshMerger::convert_boundary_interface_edges(): "
-          "Invalid boundary edge connectivity." );
-
-      if ( f_twin->mesh() != donor_ )
+      if ( &e_twin->edgelist() != &donor_->boundary_edges() )
         continue;
 
       auto v1_index = e_twin->v1().index();
-- 
2.43.0


From ec659d30d82f0f19aab2079e8f7fe27b9e7889ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:32 +0000
Subject: [PATCH 09/54] fix: elements of cleanup, merge and refinement must be
 active

Inactive elements are ignored by the intersection checks of the advancing
front. If mesh generation was continued after such elements had been created,
new elements could be placed on top of them.
---
 src/algorithm/MeshCleanup.h        | 8 ++++----
 src/algorithm/MeshMerger.h         | 8 ++++++--
 src/algorithm/RefinementStrategy.h | 9 +++++++++
 3 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/algorithm/MeshCleanup.h b/src/algorithm/MeshCleanup.h
index c6477a8..c698687 100644
--- a/src/algorithm/MeshCleanup.h
+++ b/src/algorithm/MeshCleanup.h
@@ -677,10 +677,10 @@ public:
       // Add new triangle
       auto o = orientation(v0.xy(), v1.xy(), v2.xy());
 
-      if ( o == Orientation::CCW ) 
-        mesh.add_triangle( v0, v1, v2, color );
-      else
-        mesh.add_triangle( v0, v2, v1, color );
+      Triangle& t_new = ( o == Orientation::CCW ) 
+                      ? mesh.add_triangle( v0, v1, v2, color )
+                      : mesh.add_triangle( v0, v2, v1, color );
+      t_new.is_active( true );
     }
 
     // Remove deleted entities
diff --git a/src/algorithm/MeshMerger.h b/src/algorithm/MeshMerger.h
index bab505e..95ed679 100644
--- a/src/algorithm/MeshMerger.h
+++ b/src/algorithm/MeshMerger.h
@@ -176,7 +176,9 @@ private:
       ASSERT(v3, "MeshMerger::copy_donor_quads(): Invalid data structure.");
       ASSERT(v4, "MeshMerger::copy_donor_quads(): Invalid data structure.");
 
-      receiver_->add_quad( *v1, *v2, *v3, *v4, q_ptr->color() );
+      Quad& q_new 
+        = receiver_->add_quad( *v1, *v2, *v3, *v4, q_ptr->color() );
+      q_new.is_active( true );
     }
   } // copy_donor_quads()
 
@@ -199,7 +201,9 @@ private:
       ASSERT(v2, "MeshMerger::copy_donor_triangles(): Invalid data structure.");
       ASSERT(v3, "MeshMerger::copy_donor_triangles(): Invalid data structure.");
 
-      receiver_->add_triangle( *v1, *v2, *v3, t_ptr->color() );
+      Triangle& t_new 
+        = receiver_->add_triangle( *v1, *v2, *v3, t_ptr->color() );
+      t_new.is_active( true );
     }
   } // copy_donor_triangles()
 
diff --git a/src/algorithm/RefinementStrategy.h b/src/algorithm/RefinementStrategy.h
index d9baa2e..dd3688d 100644
--- a/src/algorithm/RefinementStrategy.h
+++ b/src/algorithm/RefinementStrategy.h
@@ -235,6 +235,10 @@ private:
       q2.color( t->color() );
       q3.color( t->color() );
 
+      q1.is_active( true );
+      q2.is_active( true );
+      q3.is_active( true );
+
       // Create new interior edges
       mesh_->interior_edges().add_edge( *v2, v7 );
       mesh_->interior_edges().add_edge( *v4, v7 );
@@ -288,6 +292,11 @@ private:
       q3.color( q->color() );
       q4.color( q->color() );
 
+      q1.is_active( true );
+      q2.is_active( true );
+      q3.is_active( true );
+      q4.is_active( true );
+
       // Create new interior edges
       mesh_->interior_edges().add_edge( *v2, v9 );
       mesh_->interior_edges().add_edge( *v4, v9 );
-- 
2.43.0


From 584f5020e416d3afcb9d2832e88446f8e0e8129c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:29:49 +0000
Subject: [PATCH 10/54] fix: mesh export must report files that could not be
 written

---
 src/algorithm/MeshWriter.h | 11 ++++++-----
 src/app/TQMeshApp.h        | 14 +++++++++++---
 src/utils/VtkIO.h          |  7 +++++--
 3 files changed, 22 insertions(+), 10 deletions(-)

diff --git a/src/algorithm/MeshWriter.h b/src/algorithm/MeshWriter.h
index b382b83..9552534 100644
--- a/src/algorithm/MeshWriter.h
+++ b/src/algorithm/MeshWriter.h
@@ -58,7 +58,8 @@ public:
     {
       case MeshExportType::COUT:
         std::cout << (*mesh_);
-        return true;
+        std::cout.flush();
+        return std::cout.good();
 
       case MeshExportType::TXT:
         return write_to_txt( filename );
@@ -88,9 +89,11 @@ private:
 
     outfile << (*mesh_);
 
+    // Closing the stream flushes all buffered data and sets the 
+    // failbit if not everything could be written
     outfile.close();
 
-    return true;
+    return outfile.good();
 
   } // MeshWriter::write_to_txt()
 
@@ -184,9 +187,7 @@ private:
     writer.add_cell_data( max_angle, "max_angle", 1 );
     writer.add_cell_data( cell_quality, "cell_quality", 1 );
 
-    writer.write( fullpath );
-
-    return true;
+    return writer.write( fullpath );
 
   } // MeshWriter::write_to_vtu()
 
diff --git a/src/app/TQMeshApp.h b/src/app/TQMeshApp.h
index 59d0a18..65a34df 100644
--- a/src/app/TQMeshApp.h
+++ b/src/app/TQMeshApp.h
@@ -205,21 +205,29 @@ private:
     LOG(INFO) << "\n";
 
     // Export the mesh
+    bool exported = false;
+
     if ( output_format_ == "VTU" || output_format_ == "vtu" )
     {
       std::string filename { output_prefix_ + ".vtu" };
       LOG(INFO) << "Write mesh file to " << filename;
-      mesh_generator_.write_mesh(mesh, filename, MeshExportType::VTU);
+      exported = mesh_generator_.write_mesh(mesh, filename, MeshExportType::VTU);
     }
     else if ( output_format_ == "TXT" || output_format_ == "txt" )
     {
       std::string filename { output_prefix_ + ".txt" };
       LOG(INFO) << "Write mesh file to " << filename;
-      mesh_generator_.write_mesh(mesh, filename, MeshExportType::TXT);
+      exported = mesh_generator_.write_mesh(mesh, filename, MeshExportType::TXT);
     }
     else
     {
-      mesh_generator_.write_mesh(mesh, "DUMMY", MeshExportType::COUT);
+      exported = mesh_generator_.write_mesh(mesh, "DUMMY", MeshExportType::COUT);
+    }
+
+    if ( !exported )
+    {
+      LOG(ERROR) << "Failed to write the mesh.";
+      return false;
     }
 
     // Check if meshing algorithm succeeded
diff --git a/src/utils/VtkIO.h b/src/utils/VtkIO.h
index 7add4a4..618dbd5 100644
--- a/src/utils/VtkIO.h
+++ b/src/utils/VtkIO.h
@@ -177,9 +177,10 @@ public:
   }
 
   /*------------------------------------------------------------------
-  | Write the VTU file
+  | Write the VTU file. Returns false if the file could not be written
+  | completely.
   ------------------------------------------------------------------*/
-  void write(const std::string& file_name)
+  bool write(const std::string& file_name)
   {
     std::ofstream outfile;
     outfile.open(file_name);
@@ -221,6 +222,8 @@ public:
 
     outfile.close();
 
+    return outfile.good();
+
   } // VtuWriter::write()
 
 private:
-- 
2.43.0


From 52a8d8c7a37211fb9b9f0865e35d9b3f62d93981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:29:49 +0000
Subject: [PATCH 11/54] fix: report read errors of CSV boundary files

---
 src/algorithm/Boundary.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/algorithm/Boundary.h b/src/algorithm/Boundary.h
index fb168cb..3024731 100644
--- a/src/algorithm/Boundary.h
+++ b/src/algorithm/Boundary.h
@@ -127,6 +127,10 @@ private:
       ++i_line;
     }
 
+    if ( !file.eof() )
+      throw_error("Failed to read CSV file " + filename 
+          + ": Stopped reading in line " + std::to_string(i_line));
+
   } // CSVBoundaryReader::read_csv_file()
 
   /*------------------------------------------------------------------
-- 
2.43.0


From 8db5973bf62732c0abdf788e5a9f1f61a442de9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:29:49 +0000
Subject: [PATCH 12/54] fix: exterior boundary edges must not refer to
 non-existing vertices

---
 src/app/TQMeshApp.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/app/TQMeshApp.h b/src/app/TQMeshApp.h
index 65a34df..32015b3 100644
--- a/src/app/TQMeshApp.h
+++ b/src/app/TQMeshApp.h
@@ -610,7 +610,7 @@ private:
         int    m  = para_extr_bdry.get_value(2, i);
 
         // Throw error if indices are larger than number of vertices
-        if ( i1 > n_vertices || i2 > n_vertices )
+        if ( i1 >= n_vertices || i2 >= n_vertices )
           throw_error("Invalid exterior boundary definition: " 
             "Some vertex index is larger that the number of "
             "provided input vertices.");
-- 
2.43.0


From 1af7334537b42dab84f4968d10cd13b6dfc74524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:09 +0000
Subject: [PATCH 13/54] fix: error messages of missing mesh parameters must
 contain the mesh id

---
 src/app/TQMeshApp.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/app/TQMeshApp.h b/src/app/TQMeshApp.h
index 32015b3..fc39dfc 100644
--- a/src/app/TQMeshApp.h
+++ b/src/app/TQMeshApp.h
@@ -864,10 +864,10 @@ private:
   void query_mandatory_parameters(ParaReader& mesh_reader)
   {
     if ( !mesh_reader.query<std::string>("output_prefix") )
-      throw_error("No output file prefix defined for mesh " + mesh_id_ );
+      throw_error("No output file prefix defined for mesh " + std::to_string(mesh_id_) );
 
     if ( !mesh_reader.query<std::string>("output_format") )
-      throw_error("No output format defined for mesh " + mesh_id_ ); 
+      throw_error("No output format defined for mesh " + std::to_string(mesh_id_) ); 
 
     output_prefix_ = mesh_reader.get_value<std::string>("output_prefix");
     output_format_ = mesh_reader.get_value<std::string>("output_format");
@@ -876,7 +876,7 @@ private:
     print_parameter<std::string>(mesh_reader, "output_format");
 
     if ( !mesh_reader.query<std::string>("size_function") )
-      throw_error("Invalid size function definition for mesh " + mesh_id_);
+      throw_error("Invalid size function definition for mesh " + std::to_string(mesh_id_));
 
   } // MeshConstruction::query_mandatory_parameters()
 
-- 
2.43.0


From bde3b5ba331da50882f9188e92f2270ec1fd4a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:09 +0000
Subject: [PATCH 14/54] fix: report unterminated parameter blocks instead of
 ignoring them

---
 src/utils/ParaReader.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/utils/ParaReader.h b/src/utils/ParaReader.h
index b3d65e7..c9a15d6 100644
--- a/src/utils/ParaReader.h
+++ b/src/utils/ParaReader.h
@@ -624,8 +624,10 @@ public:
 
     auto end_data = block.get_query_data(block.end_key(), *content_ );
 
+    // A block that is not terminated indicates an incomplete input file
     if ( !end_data.found )
-      return false;
+      error("Missing \"" + block.end_key() + "\" for block \"" 
+            + block.start_key() + "\" in input file.");
 
     // Set start and end of this block
     block.block_start( start_data.line_index );
-- 
2.43.0


From 9e31a1c553c36fc8c99f4b8dcc9a0de51e242807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:09 +0000
Subject: [PATCH 15/54] fix: reject size function values that are not finite

---
 src/algorithm/Domain.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/algorithm/Domain.h b/src/algorithm/Domain.h
index 6a64271..0178e31 100644
--- a/src/algorithm/Domain.h
+++ b/src/algorithm/Domain.h
@@ -50,8 +50,8 @@ public:
     // The underlying size function
     const double h_fun = f_(xy);
 
-    if ( h_fun <= 0.0 )
-      TERMINATE("SizeFunction::evaluate(): Encountered invalid value (<=0).");
+    if ( !( h_fun > 0.0 ) || !std::isfinite( h_fun ) )
+      TERMINATE("SizeFunction::evaluate(): Encountered invalid value.");
 
     double h = h_fun;
 
-- 
2.43.0


From b65302ba983efc0d627860c127d6e7375039928c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:09 +0000
Subject: [PATCH 16/54] fix: report invalid size function expressions

---
 src/app/size_function.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/app/size_function.cpp b/src/app/size_function.cpp
index e2c8831..30e34bc 100644
--- a/src/app/size_function.cpp
+++ b/src/app/size_function.cpp
@@ -33,7 +33,9 @@ UserSizeFunction init_size_function(const std::string& expr)
   symbol_table.add_variable("x", x_size_function);
   symbol_table.add_variable("y", y_size_function);
   expression.register_symbol_table(symbol_table);
-  parser.compile(expr, expression);
+
+  if ( !parser.compile(expr, expression) )
+    throw_error("Invalid size function expression: " + expr);
 
   UserSizeFunction f = [](const Vec2d& p) 
   { 
-- 
2.43.0


From 2c3bff39dc40e48275d6206f9a51f7ad4aee48e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:14 +0000
Subject: [PATCH 17/54] fix: keep the quad tree intact if it can not be
 splitted or merged

---
 src/utils/QuadTree.h | 88 +++++++++++++++++++++-----------------------
 1 file changed, 42 insertions(+), 46 deletions(-)

diff --git a/src/utils/QuadTree.h b/src/utils/QuadTree.h
index 31cbb9f..2f0f7c2 100644
--- a/src/utils/QuadTree.h
+++ b/src/utils/QuadTree.h
@@ -11,6 +11,7 @@
 #include <vector>    // std::vector
 #include <array>     // std::array
 #include <stdexcept> // std::runtime_error
+#include <new>       // std::bad_alloc
 #include <iomanip>   // std::setprecision
 #include <iostream>  // std::to_string
 
@@ -336,6 +337,10 @@ public:
       { 
         split_qtree(); 
       } 
+      catch ( std::bad_alloc const& ) 
+      {
+        // The quad remains valid without being splitted
+      }
       catch ( std::exception const& e ) 
       {
         LOG(ERROR) << e.what(); 
@@ -445,10 +450,9 @@ private:
        || children_[3]->split() )
       return false;
 
-    for ( auto child : children_ )
+    for ( auto& child : children_ )
     {
-      for ( auto item : child->items() )
-        items_.push_back( item );
+      items_.splice( items_.end(), child->items_ );
       
       delete child;
       child = nullptr;
@@ -494,38 +498,40 @@ private:
     Vec2<V> c2 = { center_.x - h,  center_.y - h };
     Vec2<V> c3 = { center_.x + h,  center_.y - h };
 
-    // Child quad: NORTH-EAST (NE)
-    children_[0] = new QuadTree<T,V> 
-    { halfscale_, max_item_, max_depth_, c0, child_depth, this};
-                               
-    // Child quad: NORTH-WEST (NW)
-    children_[1] = new QuadTree<T,V> 
-    { halfscale_, max_item_, max_depth_, c1, child_depth, this};
+    try
+    {
+      // Child quad: NORTH-EAST (NE)
+      children_[0] = new QuadTree<T,V> 
+      { halfscale_, max_item_, max_depth_, c0, child_depth, this};
+                                 
+      // Child quad: NORTH-WEST (NW)
+      children_[1] = new QuadTree<T,V> 
+      { halfscale_, max_item_, max_depth_, c1, child_depth, this};
 
-    // Child quad: SOUTH-WEST (SW)
-    children_[2] = new QuadTree<T,V> 
-    { halfscale_, max_item_, max_depth_, c2, child_depth, this};
+      // Child quad: SOUTH-WEST (SW)
+      children_[2] = new QuadTree<T,V> 
+      { halfscale_, max_item_, max_depth_, c2, child_depth, this};
 
-    // Child quad: SOUTH-EAST (SE)
-    children_[3] = new QuadTree<T,V> 
-    { halfscale_, max_item_, max_depth_, c3, child_depth, this};
+      // Child quad: SOUTH-EAST (SE)
+      children_[3] = new QuadTree<T,V> 
+      { halfscale_, max_item_, max_depth_, c3, child_depth, this};
 
-    // Distribute items among children
-    try 
-    { 
+      // Distribute items among children
       distribute_items(); 
     }
-    catch ( std::exception const& e ) 
+    catch ( ... ) 
     { 
-      throw e; 
+      // This quad still owns all items -> only drop the children
+      for ( auto& child : children_ )
+      {
+        if ( child )
+          add_item_number( -static_cast<int>( child->size() ) );
+        delete child;
+        child = nullptr;
+      }
+      throw; 
     }
 
-    // Check that quad is empty
-    if ( items_.size() > 0 )
-      throw std::runtime_error(
-          "Failed to split QuadTree. "
-          "Data structure might be corrupted.");
-
     // Mark this quad as splitted
     split_ = true;
     
@@ -536,30 +542,20 @@ private:
   ------------------------------------------------------------------*/
   void distribute_items()
   {
-    while ( items_.size() > 0 )
-    {
-      auto item = items_.back();
+    ASSERT( children_[0], "QuadTree structure is corrupted." );
+    ASSERT( children_[1], "QuadTree structure is corrupted." );
+    ASSERT( children_[2], "QuadTree structure is corrupted." );
+    ASSERT( children_[3], "QuadTree structure is corrupted." );
 
-      ASSERT( children_[0], "QuadTree structure is corrupted." );
-      ASSERT( children_[1], "QuadTree structure is corrupted." );
-      ASSERT( children_[2], "QuadTree structure is corrupted." );
-      ASSERT( children_[3], "QuadTree structure is corrupted." );
-      
-      if (  children_[0]->add(item)
-         || children_[1]->add(item)
-         || children_[2]->add(item)
-         || children_[3]->add(item) )
-        add_item_number( -1 );
-      else
+    for ( auto it = items_.rbegin(); it != items_.rend(); ++it )
+      if ( !pass_children( *it ) )
         throw std::runtime_error(
             "Failed to distribute items. "
             "Data structure might be corrupted.");
 
-      items_.pop_back();
-    }
-
-    ASSERT( (items_.size() == 0),
-            "Failed to empty list.");
+    // All items are now counted twice
+    add_item_number( -static_cast<int>( items_.size() ) );
+    items_.clear();
 
   } /* distribute_items() */
 
-- 
2.43.0


From 93884eec6425f49e48d3742c8b3e8f7954477cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:14 +0000
Subject: [PATCH 18/54] fix: quad tree children must cover their parent without
 gaps

---
 src/utils/QuadTree.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/utils/QuadTree.h b/src/utils/QuadTree.h
index 2f0f7c2..defdc20 100644
--- a/src/utils/QuadTree.h
+++ b/src/utils/QuadTree.h
@@ -516,6 +516,16 @@ private:
       children_[3] = new QuadTree<T,V> 
       { halfscale_, max_item_, max_depth_, c3, child_depth, this};
 
+      // Adjacent children must share their borders exactly
+      children_[0]->lowleft_ = center_;
+      children_[0]->upright_ = upright_;
+      children_[1]->lowleft_ = { lowleft_.x, center_.y };
+      children_[1]->upright_ = { center_.x, upright_.y };
+      children_[2]->lowleft_ = lowleft_;
+      children_[2]->upright_ = center_;
+      children_[3]->lowleft_ = { center_.x, lowleft_.y };
+      children_[3]->upright_ = { upright_.x, center_.y };
+
       // Distribute items among children
       distribute_items(); 
     }
-- 
2.43.0


From 8f1c97e41b63518c9065d0be535e7e5d83460924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:14 +0000
Subject: [PATCH 19/54] fix: quad tree must find the nearest item wherever it
 is located

---
 src/utils/QuadTree.h | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/utils/QuadTree.h b/src/utils/QuadTree.h
index defdc20..b5102da 100644
--- a/src/utils/QuadTree.h
+++ b/src/utils/QuadTree.h
@@ -12,6 +12,8 @@
 #include <array>     // std::array
 #include <stdexcept> // std::runtime_error
 #include <new>       // std::bad_alloc
+#include <limits>    // std::numeric_limits
+#include <cmath>     // sqrt
 #include <iomanip>   // std::setprecision
 #include <iostream>  // std::to_string
 
@@ -189,6 +191,10 @@ public:
   {
     auto quad = get_leaf(query);
 
+    // The query might be located outside of the tree
+    if ( !quad )
+      quad = this;
+
     V min_dist_sqr = 4 * quad->scale() * quad->scale();
     T* winner      = nullptr;
 
@@ -197,8 +203,20 @@ public:
         winner = item;
 
     Vector found {};
+    const V max_radius = 0.25 * sqrt( std::numeric_limits<V>::max() );
+    V radius = 4 * sqrt(min_dist_sqr);
     
-    get_items(query, 4 * sqrt(min_dist_sqr), found);
+    get_items(query, radius, found);
+
+    // Enlarge the search radius if there are no items in the vicinity
+    while ( !winner && found.empty() && n_items_ > 0 && radius < max_radius )
+    {
+      radius *= 2;
+      get_items(query, radius, found);
+    }
+
+    if ( !winner )
+      min_dist_sqr = radius * radius;
 
     for ( auto item : found )
       if ( qfun(item, query, min_dist_sqr ) )
-- 
2.43.0


From b9d8c501bf94fd9ad31856e37e537337d1632c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:14 +0000
Subject: [PATCH 20/54] fix: items moved onto a border of quad tree leafs must
 remain accessible

---
 src/utils/Container.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/utils/Container.h b/src/utils/Container.h
index 1fc3946..cc2eb4c 100644
--- a/src/utils/Container.h
+++ b/src/utils/Container.h
@@ -194,7 +194,9 @@ public:
   {
     auto quad = qtree_.get_leaf( item.xy() );
 
-    if ( in_on_rect(xy_new, quad->lowleft(), quad->upright()) )
+    // No need to move the item if it remains in its leaf. At shared 
+    // borders of leafs, only one of them is responsible for the item
+    if ( quad && quad == qtree_.get_leaf( xy_new ) )
     {
       item.xy_ = xy_new;
       return true;
-- 
2.43.0


From b2cc74fb6ef9b47f3c2fcc55b6464bc4028ef109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:14 +0000
Subject: [PATCH 21/54] fix: withdraw items from the container if their
 insertion fails

---
 src/utils/Container.h | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/src/utils/Container.h b/src/utils/Container.h
index cc2eb4c..6e35d01 100644
--- a/src/utils/Container.h
+++ b/src/utils/Container.h
@@ -140,13 +140,28 @@ public:
   template <typename... Args>
   T& insert( const_iterator pos, Args&&... args )
   {
-    std::unique_ptr<T> u_ptr = std::make_unique<T>(args...);
-    T* ptr = u_ptr.get();
-    iterator iter = items_.insert( pos, std::move(u_ptr) );
-    ptr->pos_          = iter;
-    ptr->in_container_ = true;
-    ptr->container_    = this;
-    bool in_qtree = qtree_.add( ptr );
+    // Reserve the list position at first, such that the new item 
+    // can be withdrawn if it fails to be added
+    iterator iter = items_.insert( pos, nullptr );
+    bool in_qtree = false;
+
+    try
+    {
+      *iter = std::make_unique<T>(args...);
+      (*iter)->pos_          = iter;
+      (*iter)->in_container_ = true;
+      (*iter)->container_    = this;
+      in_qtree = qtree_.add( iter->get() );
+    }
+    catch ( ... )
+    {
+      if ( *iter )
+        (*iter)->container_destructor();
+      items_.erase( iter );
+      throw;
+    }
+
+    T* ptr = iter->get();
 
     // Failed to add element to qtree -> cleanup
     if (!in_qtree)
-- 
2.43.0


From 1546c06fddf71b8395290f3d54e2c4f36c291a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:20:33 +0000
Subject: [PATCH 22/54] fix: triangle qualities must not change while they are
 sorted

---
 src/algorithm/FrontUpdate.h | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/algorithm/FrontUpdate.h b/src/algorithm/FrontUpdate.h
index ec9f55c..d5a1099 100644
--- a/src/algorithm/FrontUpdate.h
+++ b/src/algorithm/FrontUpdate.h
@@ -301,16 +301,22 @@ private:
        << new_triangles.size()
     );
 
-    std::sort( new_triangles.begin(), new_triangles.end(),
-    [this] ( Triangle* t1, Triangle* t2 )
+    // Evaluate the size function only once per triangle, such that its 
+    // quality can not change during the sorting
+    std::vector<std::pair<double, Triangle*>> candidates {};
+
+    for ( Triangle* t : new_triangles )
     {
-      const double h1 = domain_.size_function( t1->xy() );
-      const double h2 = domain_.size_function( t2->xy() );
-      const double q1 = t1->quality(h1);
-      const double q2 = t2->quality(h2);
+      const double h = domain_.size_function( t->xy() );
+      candidates.push_back( { t->quality(h), t } );
+    }
+
+    std::sort( candidates.begin(), candidates.end(),
+    [] ( const auto& c1, const auto& c2 )
+    { return ( c1.first > c2.first ); });
 
-      return ( q1 > q2 );
-    });
+    for (std::size_t i = 0; i < candidates.size(); i++)
+      new_triangles[i] = candidates[i].second;
 
     for (std::size_t i = 1; i < new_triangles.size(); i++)
       mesh_.triangles().remove( *new_triangles[i] );
-- 
2.43.0


From 78e01115ad247d10085aff7f09fb178b3c20001a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:22:42 +0000
Subject: [PATCH 23/54] fix: meshes that could not be prepared must not leave
 traces in the generator

---
 src/algorithm/MeshBuilder.h   | 57 +++++++++++++++++++++++++++++++----
 src/algorithm/MeshGenerator.h | 21 ++++++++-----
 2 files changed, 64 insertions(+), 14 deletions(-)

diff --git a/src/algorithm/MeshBuilder.h b/src/algorithm/MeshBuilder.h
index add66a6..2e281f0 100644
--- a/src/algorithm/MeshBuilder.h
+++ b/src/algorithm/MeshBuilder.h
@@ -185,6 +185,46 @@ public:
 
     // Initialize edges in a temporary advancing front
     Front tmp_front {};
+
+    try
+    {
+      return setup_mesh(mesh, domain, front_data, tmp_front);
+    }
+    catch ( ... )
+    {
+      // Neighboring meshes must not refer to the incomplete mesh
+      release_twin_edges( tmp_front );
+      release_twin_edges( mesh.boundary_edges() );
+      throw;
+    }
+
+  } // prepare_mesh()
+
+private:
+
+  /*------------------------------------------------------------------
+  | Disconnect all edges in a list from their twin edges
+  ------------------------------------------------------------------*/
+  template <typename Edges>
+  static void release_twin_edges(Edges& edges)
+  {
+    for ( auto& e : edges )
+    {
+      if ( !e->twin_edge() )
+        continue;
+
+      e->twin_edge()->twin_edge( nullptr );
+      e->twin_edge( nullptr );
+    }
+  }
+
+  /*------------------------------------------------------------------
+  | Initialize the temporary advancing front and use it to setup the
+  | mesh's vertices and boundary edges
+  ------------------------------------------------------------------*/
+  bool setup_mesh(Mesh& mesh, Domain& domain, 
+                  FrontInitData& front_data, Front& tmp_front)
+  {
     tmp_front.init_front(domain, front_data, mesh.vertices());
 
     // Check if the initial advancing front is valid
@@ -192,9 +232,16 @@ public:
     {
       LOG(ERROR) << "Failed mesh preparation: Invalid advancing front.";
 
-      // Remove all previously generated vertices
-      for ( auto& v_ptr : mesh.vertices() )
-        mesh.remove_vertex( *v_ptr );
+      // Remove all previously generated edges and vertices
+      release_twin_edges( tmp_front );
+      tmp_front.clear_edges();
+
+      for ( auto it = mesh.vertices().begin(); it != mesh.vertices().end(); )
+      {
+        Vertex& v = **it;
+        ++it;
+        mesh.remove_vertex( v );
+      }
       mesh.clear_waste();
       
       ASSERT( mesh.is_empty(), 
@@ -260,9 +307,7 @@ public:
 
     return true;
 
-  } // prepare_mesh()
-
-private:
+  } // setup_mesh()
 
   /*------------------------------------------------------------------
   | Attributes
diff --git a/src/algorithm/MeshGenerator.h b/src/algorithm/MeshGenerator.h
index 61c2737..53960ff 100644
--- a/src/algorithm/MeshGenerator.h
+++ b/src/algorithm/MeshGenerator.h
@@ -95,15 +95,20 @@ public:
                  int     mesh_id = DEFAULT_MESH_ID,
                  int     element_color = DEFAULT_ELEMENT_COLOR)
   {
-    meshes_.push_back( 
-      mesh_builder_.create_empty_mesh_ptr(domain, mesh_id, element_color)
-    );
-
-    Mesh& new_mesh = *( meshes_.back() );
-    mesh_builder_.prepare_mesh( new_mesh, domain );
-    mesh_builder_.add_mesh_and_domain( new_mesh, domain );
+    auto mesh_ptr 
+      = mesh_builder_.create_empty_mesh_ptr(domain, mesh_id, element_color);
+
+    // Reserve memory at first, such that the mesh is either completely
+    // registered or not registered at all
+    meshes_.reserve( meshes_.size() + 1 );
+    mesh_builder_.meshes().reserve( mesh_builder_.n_meshes() + 1 );
+    mesh_builder_.domains().reserve( mesh_builder_.n_domains() + 1 );
+
+    mesh_builder_.prepare_mesh( *mesh_ptr, domain );
+    mesh_builder_.add_mesh_and_domain( *mesh_ptr, domain );
+    meshes_.push_back( std::move(mesh_ptr) );
     
-    return new_mesh;
+    return *( meshes_.back() );
   }
 
   /*------------------------------------------------------------------
-- 
2.43.0


From c1f8adc13fe7e9f7c91e0d5dd964c1432340eaed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:22:42 +0000
Subject: [PATCH 24/54] fix: release algorithms of meshes that have been merged
 into another one

---
 src/algorithm/MeshGenerator.h | 33 +++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/src/algorithm/MeshGenerator.h b/src/algorithm/MeshGenerator.h
index 53960ff..9a11849 100644
--- a/src/algorithm/MeshGenerator.h
+++ b/src/algorithm/MeshGenerator.h
@@ -136,6 +136,8 @@ public:
       if ( !mesh_builder_.remove_mesh_and_domain(donor) )
         return false;
 
+      release_algorithms( donor );
+
       meshes_.erase( it );
     }
 
@@ -253,6 +255,37 @@ public:
 
 private:
 
+  /*------------------------------------------------------------------
+  | Release all algorithms that refer to a mesh, which is about to be
+  | removed
+  ------------------------------------------------------------------*/
+  void release_algorithms(const Mesh& mesh)
+  {
+    if ( meshing_algorithm_ && &meshing_algorithm_->mesh() == &mesh )
+    {
+      meshing_algorithm_.reset();
+      meshing_algorithm_type_ = MeshingAlgorithm::None;
+    }
+
+    if ( smoothing_algorithm_ && &smoothing_algorithm_->mesh() == &mesh )
+    {
+      smoothing_algorithm_.reset();
+      smoothing_algorithm_type_ = SmoothingAlgorithm::None;
+    }
+
+    if ( refinement_algorithm_ && &refinement_algorithm_->mesh() == &mesh )
+    {
+      refinement_algorithm_.reset();
+      refinement_algorithm_type_ = RefinementAlgorithm::None;
+    }
+
+    if ( modification_algorithm_ && &modification_algorithm_->mesh() == &mesh )
+    {
+      modification_algorithm_.reset();
+      modification_algorithm_type_ = ModificationAlgorithm::None;
+    }
+  }
+
   /*------------------------------------------------------------------
   | Set a mesh generation algorithm for a specified mesh.
   | Returns false if the mesh is not connected to this MeshGenerator
-- 
2.43.0


From 252a2b95db44621e5aee01ccaa0dae265305341f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:39 +0000
Subject: [PATCH 25/54] fix: boundary refinement must not leave the edge if the
 size function is steep

---
 src/algorithm/Front.h | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/algorithm/Front.h b/src/algorithm/Front.h
index 846329a..d618832 100644
--- a/src/algorithm/Front.h
+++ b/src/algorithm/Front.h
@@ -463,8 +463,20 @@ private:
         [rho_tot](double &v){ return v/rho_tot; });
 
     // Distribute cropped distance among new vertices
+    std::vector<Vec2d> xy_shifted { xy_new };
     for ( std::size_t i = 1; i < xy_new.size()-1; i++)
-      xy_new[i] += rho_i[i] * d_cr;
+      xy_shifted[i] += rho_i[i] * d_cr;
+
+    // In case of steep gradients of the size function, the shifted 
+    // vertices might be in wrong order or extend the edge range 
+    // -> keep the initial positions
+    bool is_ordered = true;
+    for ( std::size_t i = 1; i < xy_shifted.size(); i++)
+      if ( dot(xy_shifted[i] - xy_shifted[i-1], tang) <= 0.0 )
+        is_ordered = false;
+
+    if ( is_ordered )
+      xy_new = xy_shifted;
 
 #ifndef NDEBUG
     // Check that all nodes are ordered ascendingly
-- 
2.43.0


From 3f26f1cde686b9bee88b429e25cebe1d10e6b72a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:48 +0000
Subject: [PATCH 26/54] fix: release the memory of exported vtu data

---
 src/utils/VtkIO.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/utils/VtkIO.h b/src/utils/VtkIO.h
index 618dbd5..9ec2d6c 100644
--- a/src/utils/VtkIO.h
+++ b/src/utils/VtkIO.h
@@ -76,6 +76,7 @@ inline const char* VtkIOTypeTraits<double>::name = "Float64";
 class VtkIODataInterface
 {
 public:
+  virtual ~VtkIODataInterface() = default;
   virtual const std::string& name() const = 0;
   virtual size_t dim() const = 0;
   virtual const char* type() const = 0;
-- 
2.43.0


From a368343bcb0541ab00e8731026f13eee627d0c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:57 +0000
Subject: [PATCH 27/54] fix: disabled assertions must not allocate memory in
 destructors

---
 src/utils/Helpers.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/utils/Helpers.h b/src/utils/Helpers.h
index d04543a..a29b616 100644
--- a/src/utils/Helpers.h
+++ b/src/utils/Helpers.h
@@ -31,8 +31,10 @@ static inline void assert_msg(bool cond, const std::string& msg,
   }
 }
 #else
-static inline void assert_msg(bool cond, const std::string& msg,
-                              const std::string& filename, int line)
+// Assertions are also used in destructors and thus must not allocate
+template <typename Message>
+static inline void assert_msg(bool cond, const Message& msg,
+                              const char* filename, int line)
 {}
 #endif
 
-- 
2.43.0


From b600386421772dd3df8c2ea080e397d7fbeb61f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:02 +0000
Subject: [PATCH 28/54] fix: refinement must refuse meshes with missing edges

---
 src/algorithm/RefinementStrategy.h | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/algorithm/RefinementStrategy.h b/src/algorithm/RefinementStrategy.h
index dd3688d..8a0e76c 100644
--- a/src/algorithm/RefinementStrategy.h
+++ b/src/algorithm/RefinementStrategy.h
@@ -115,6 +115,15 @@ public:
       if ( e_ptr->twin_edge() )
         return false;
 
+    // Elements can only be refined if all of their edges exist
+    for ( auto& t_ptr : mesh_->triangles() )
+      if ( !has_all_edges( *t_ptr ) )
+        return false;
+
+    for ( auto& q_ptr : mesh_->quads() )
+      if ( !has_all_edges( *q_ptr ) )
+        return false;
+
     gather_entities_to_refine();
 
     refine_interior_edges();
@@ -133,6 +142,19 @@ public:
 
 private:
 
+  /*------------------------------------------------------------------
+  | Returns true, if all edges of a given element exist
+  ------------------------------------------------------------------*/
+  bool has_all_edges(const Facet& f) const
+  {
+    for ( size_t i = 0; i < f.n_vertices(); ++i )
+      if ( !mesh_->get_edge( f.vertex(i), 
+                             f.vertex( (i+1) % f.n_vertices() ) ) )
+        return false;
+
+    return true;
+  }
+
   /*------------------------------------------------------------------
   | Gather all coarse edges, quads and tris
   ------------------------------------------------------------------*/
-- 
2.43.0


From 938478da3f27c733dff2de7eec740565585f2400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:41:32 +0000
Subject: [PATCH 29/54] fix: boundary refinement must not create collapsing
 vertices

---
 src/algorithm/Front.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/algorithm/Front.h b/src/algorithm/Front.h
index d618832..ea5a17a 100644
--- a/src/algorithm/Front.h
+++ b/src/algorithm/Front.h
@@ -468,11 +468,12 @@ private:
       xy_shifted[i] += rho_i[i] * d_cr;
 
     // In case of steep gradients of the size function, the shifted 
-    // vertices might be in wrong order or extend the edge range 
+    // vertices might collapse, be in wrong order or extend the edge range 
     // -> keep the initial positions
     bool is_ordered = true;
     for ( std::size_t i = 1; i < xy_shifted.size(); i++)
-      if ( dot(xy_shifted[i] - xy_shifted[i-1], tang) <= 0.0 )
+      if ( dot(xy_shifted[i] - xy_shifted[i-1], tang) 
+           <= 0.01 * dot(xy_new[i] - xy_new[i-1], tang) )
         is_ordered = false;
 
     if ( is_ordered )
-- 
2.43.0


From d83952eb503def812d4a74b3063af9277a4bd47e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:58 +0000
Subject: [PATCH 30/54] fix: items must not get lost if they can not be moved

---
 src/utils/Container.h | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/utils/Container.h b/src/utils/Container.h
index 6e35d01..7972aed 100644
--- a/src/utils/Container.h
+++ b/src/utils/Container.h
@@ -217,12 +217,29 @@ public:
       return true;
     }
 
-    if ( !qtree_.remove( &item ) )
-      return false;
+    const Vec2d xy_old = item.xy_;
+    bool in_qtree = false;
+
+    // Add the item to its new leaf before it is removed from the old one,
+    // such that it does not get lost if this fails
+    try
+    {
+      item.xy_ = xy_new;
+      in_qtree = qtree_.add( &item );
+    }
+    catch ( ... )
+    {
+      item.xy_ = xy_old;
+      throw;
+    }
+
+    item.xy_ = xy_old;
+
+    bool removed = qtree_.remove( &item );
 
     item.xy_ = xy_new;
 
-    return ( qtree_.add( &item ) );
+    return ( in_qtree && removed );
   } 
 
   /*------------------------------------------------------------------
-- 
2.43.0


From d918ef8fa65ea630af414126f16242f3bb5afdf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:04:38 +0000
Subject: [PATCH 31/54] fix: domain extent of the application must cover all
 boundary vertices

---
 src/app/TQMeshApp.h | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/app/TQMeshApp.h b/src/app/TQMeshApp.h
index fc39dfc..8ebdea0 100644
--- a/src/app/TQMeshApp.h
+++ b/src/app/TQMeshApp.h
@@ -814,7 +814,12 @@ private:
     vertex_pos_.clear();
     vertex_props_.clear();
     vertex_fixed_.clear();
-    domain_extent_ = 0.0;
+
+    // The extent must cover all boundary vertices. It can only be estimated 
+    // from the given vertices, if these define the exterior boundary.
+    const bool vertices_define_extent 
+      = mesh_reader.query<int>("extr_bdry_edges");
+    mesh_reader.get_parameter<int>("extr_bdry_edges").block_index( 0 );
 
     // Vertices are given in the input file
     // -> Put vertex coordinates and properties into arrays 
@@ -829,6 +834,8 @@ private:
       Vec2d xy_min {  DBL_MAX,  DBL_MAX };
       Vec2d xy_max { -DBL_MAX, -DBL_MAX };
 
+      double vertex_extent = 0.0;
+
       for ( size_t i = 0; i < para_vertices.rows(); ++i )
       {
         double x = para_vertices.get_value(0, i);
@@ -841,16 +848,18 @@ private:
         vertex_fixed_.push_back( false );
 
         // Estimate domain extents
-        domain_extent_ = MAX(domain_extent_, ABS(x));
-        domain_extent_ = MAX(domain_extent_, ABS(y));
+        vertex_extent = MAX(vertex_extent, ABS(x));
+        vertex_extent = MAX(vertex_extent, ABS(y));
       }
 
-      // Double extent and enlarge slightly
-      domain_extent_ *= 2.1;
+      // Double extent and enlarge slightly. Consider also the extents of 
+      // previous meshes, since these get merged with the current mesh
+      domain_extent_ = MAX(domain_extent_, 2.1 * vertex_extent);
     }
-    // No input vertices given 
+
+    // Exterior boundary is not given by input vertices  
     // -> Set domain extent to large value
-    else
+    if ( !vertices_define_extent )
     {
       domain_extent_  = TQ_MAX;
     }
@@ -895,7 +904,7 @@ private:
   std::vector<Vec2d>      vertex_props_;
   std::vector<bool>       vertex_fixed_;
 
-  double                  domain_extent_;
+  double                  domain_extent_ { 0.0 };
   std::unique_ptr<Domain> domain_;
 
   std::vector<Vec2dPair>  quad_layer_vertices_ {};
-- 
2.43.0


From 6ba48530b61125d460db9165d844e338df6468b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:04:38 +0000
Subject: [PATCH 32/54] fix: failures while parsing input values must not be
 ignored

---
 src/algorithm/Boundary.h | 1 +
 src/utils/ParaReader.h   | 9 ++++++---
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/algorithm/Boundary.h b/src/algorithm/Boundary.h
index 3024731..90d7a2a 100644
--- a/src/algorithm/Boundary.h
+++ b/src/algorithm/Boundary.h
@@ -80,6 +80,7 @@ private:
       int color { -1 };
 
       std::istringstream line_stream( line );
+      line_stream.exceptions( std::ios_base::badbit );
       std::string cell;
 
       int i_cell = 0;
diff --git a/src/utils/ParaReader.h b/src/utils/ParaReader.h
index c9a15d6..9e24a5b 100644
--- a/src/utils/ParaReader.h
+++ b/src/utils/ParaReader.h
@@ -678,7 +678,7 @@ private:
       para.set_value( 0, string_to_single_value<T>(sub_string) );
       para.found( true );
     }
-    catch (...)
+    catch (const Invalid&)
     {
       return false;
     }
@@ -802,6 +802,7 @@ private:
 
     string s;
     std::stringstream ss(sub_string);
+    ss.exceptions(std::ios_base::badbit);
 
     std::size_t j = 0;
 
@@ -821,7 +822,7 @@ private:
         out.push_back( string_to_single_value<T>(s) );
         ++j;
       }
-      catch (...)
+      catch (const Invalid&)
       {
         // In case we do not want to use default values, continue
         if ( !use_default_value )
@@ -857,6 +858,7 @@ private:
     {
       string s;
       std::stringstream ss( sub_strings[i] );
+      ss.exceptions(std::ios_base::badbit);
 
       std::size_t j = 0;
 
@@ -876,7 +878,7 @@ private:
           out.push_back( string_to_single_value<T>(s) );
           ++j;
         }
-        catch (...)
+        catch (const Invalid&)
         {
           // In case we do not want to use default values, continue
           if ( !use_default_value )
@@ -905,6 +907,7 @@ private:
   T string_to_single_value (const string &str) const
   {
     std::istringstream ss(str);
+    ss.exceptions(std::ios_base::badbit);
     T num;
     ss >> num;
 
-- 
2.43.0


From 5e13bee4a98a7c002699676d4398bff8c4a1c4e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:52 +0000
Subject: [PATCH 33/54] fix: rejected items outside of the quad tree extent
 must be removed

---
 src/utils/Container.h | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/utils/Container.h b/src/utils/Container.h
index 7972aed..6a45466 100644
--- a/src/utils/Container.h
+++ b/src/utils/Container.h
@@ -188,18 +188,21 @@ public:
   ------------------------------------------------------------------*/
   bool remove(T& item) 
   { 
-    if ( qtree_.remove( &item ) )
-    {
-      // Move item to waste list
-      waste_.splice(waste_.end(), items_, item.pos_);
-      // Call the item container destructor
-      item.container_destructor();
-      // Mark element to be in the waste list
-      item.in_container_ = false;
+    if ( !item.in_container_ )
+      return false;
 
-      return true;
-    }
-    return false;
+    // Items that are located outside of the quad tree extent are only 
+    // part of the item list
+    qtree_.remove( &item );
+
+    // Move item to waste list
+    waste_.splice(waste_.end(), items_, item.pos_);
+    // Call the item container destructor
+    item.container_destructor();
+    // Mark element to be in the waste list
+    item.in_container_ = false;
+
+    return true;
   }
 
   /*------------------------------------------------------------------
-- 
2.43.0


From 09d6bfaa15614c9b84a82c6453c78c1848b82e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:05 +0000
Subject: [PATCH 34/54] fix: application must not process incomplete meshes any
 further

---
 src/app/TQMeshApp.h | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/src/app/TQMeshApp.h b/src/app/TQMeshApp.h
index 8ebdea0..83bc298 100644
--- a/src/app/TQMeshApp.h
+++ b/src/app/TQMeshApp.h
@@ -141,6 +141,8 @@ private:
     Mesh& mesh 
       = mesh_generator_.new_mesh( domain, mesh_id_, element_color_ );
 
+    MeshChecker mesh_check { mesh, domain };
+
     // Create quad layers
     for ( size_t i = 0; i < quad_layer_vertices_.size(); ++i )
     {
@@ -167,7 +169,9 @@ private:
         .show_progress(true)
         .generate_elements();
 
-      mesh_generator_.tri2quad_modification(mesh).modify();
+      // Only complete meshes can be modified
+      if ( mesh_check.check_completeness() )
+        mesh_generator_.tri2quad_modification(mesh).modify();
     }
     else if ( algorithm_ == "Triangulation")
     {
@@ -192,14 +196,18 @@ private:
         "Invalid total number of defined meshes.");
     }
 
-    // Apply mesh refinements
-    for ( std::size_t i = 0; i < quad_refinements_; ++i )
-      mesh_generator_.quad_refinement(mesh).refine();
-
-    // Apply mesh smoothing
-    mesh_generator_.mixed_smoothing(mesh)
-      .quad_layer_smoothing(smooth_quad_layers_)
-      .smooth(smoothing_iterations_);
+    // Only complete meshes can be refined and smoothed
+    if ( mesh_check.check_completeness() )
+    {
+      // Apply mesh refinements
+      for ( std::size_t i = 0; i < quad_refinements_; ++i )
+        mesh_generator_.quad_refinement(mesh).refine();
+
+      // Apply mesh smoothing
+      mesh_generator_.mixed_smoothing(mesh)
+        .quad_layer_smoothing(smooth_quad_layers_)
+        .smooth(smoothing_iterations_);
+    }
 
     // Finished progress bar requires newline
     LOG(INFO) << "\n";
@@ -231,7 +239,6 @@ private:
     }
 
     // Check if meshing algorithm succeeded
-    MeshChecker mesh_check { mesh, domain };
     if ( !mesh_check.check_completeness() )
     {
       LOG(ERROR) << "Failed to generate a valid mesh.";
-- 
2.43.0


From 05323825b00427cb28b485e1c912c50f7039f39b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:25 +0000
Subject: [PATCH 35/54] fix: exported interface edges name the current elements
 of neighboring meshes

The columns that identify the adjacent element of a neighboring mesh
were taken from outdated element numbers and connectivities of that
mesh, because only the exported mesh was renumbered.
---
 src/algorithm/MeshGenerator.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/algorithm/MeshGenerator.h b/src/algorithm/MeshGenerator.h
index 9a11849..aa324f5 100644
--- a/src/algorithm/MeshGenerator.h
+++ b/src/algorithm/MeshGenerator.h
@@ -156,6 +156,14 @@ public:
     if ( !domain )
       return false;
 
+    // The interface edges refer to elements of the neighboring meshes, 
+    // whose numbering and connectivity must thus also be up to date
+    for ( auto& m_ptr : mesh_builder_.meshes() )
+    {
+      MeshCleanup::assign_mesh_indices( *m_ptr );
+      MeshCleanup::setup_facet_connectivity( *m_ptr );
+    }
+
     MeshWriter writer { mesh, *domain };
 
     return writer.write(filename, export_type);
-- 
2.43.0


From 754b177b08745b0e970625020659ec60282dcc8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:29 +0000
Subject: [PATCH 36/54] fix: vertices must not refer to edges and elements that
 failed to be created

If the registration at one of the vertices failed, the other vertices
kept a dangling reference to the destroyed entity.
---
 src/algorithm/Edge.h     | 13 +++++++++++--
 src/algorithm/Quad.h     | 19 ++++++++++++++-----
 src/algorithm/Triangle.h | 17 +++++++++++++----
 3 files changed, 38 insertions(+), 11 deletions(-)

diff --git a/src/algorithm/Edge.h b/src/algorithm/Edge.h
index f1dc1b3..8981825 100644
--- a/src/algorithm/Edge.h
+++ b/src/algorithm/Edge.h
@@ -110,8 +110,17 @@ public:
     ASSERT( length_ > 0.0, 
         "Edge: Invalid edge definition - edge length is zero.");
 
-    v1_->add_edge( *this );
-    v2_->add_edge( *this );
+    // The vertices must not refer to an edge that fails to be created
+    try
+    {
+      v1_->add_edge( *this );
+      v2_->add_edge( *this );
+    }
+    catch ( ... )
+    {
+      container_destructor();
+      throw;
+    }
   }
 
   /*------------------------------------------------------------------
diff --git a/src/algorithm/Quad.h b/src/algorithm/Quad.h
index 50186c4..6e491a3 100644
--- a/src/algorithm/Quad.h
+++ b/src/algorithm/Quad.h
@@ -86,15 +86,24 @@ public:
 
     update_metrics(false);
 
-    vertices_[0]->add_facet( *this );
-    vertices_[1]->add_facet( *this );
-    vertices_[2]->add_facet( *this );
-    vertices_[3]->add_facet( *this );
-
     ASSERT( (edge_lengths_[0] > 0.0), "Invalid quad: Vertices collapse.");
     ASSERT( (edge_lengths_[1] > 0.0), "Invalid quad: Vertices collapse.");
     ASSERT( (edge_lengths_[2] > 0.0), "Invalid quad: Vertices collapse.");
     ASSERT( (edge_lengths_[3] > 0.0), "Invalid quad: Vertices collapse.");
+
+    // The vertices must not refer to a quad that fails to be created
+    try
+    {
+      vertices_[0]->add_facet( *this );
+      vertices_[1]->add_facet( *this );
+      vertices_[2]->add_facet( *this );
+      vertices_[3]->add_facet( *this );
+    }
+    catch ( ... )
+    {
+      container_destructor();
+      throw;
+    }
   }
 
   /*------------------------------------------------------------------
diff --git a/src/algorithm/Triangle.h b/src/algorithm/Triangle.h
index 53d66fc..620d09b 100644
--- a/src/algorithm/Triangle.h
+++ b/src/algorithm/Triangle.h
@@ -80,13 +80,22 @@ public:
 
     update_metrics(false);
 
-    vertices_[0]->add_facet( *this );
-    vertices_[1]->add_facet( *this );
-    vertices_[2]->add_facet( *this );
-
     ASSERT( (edge_lengths_[0] > 0.0), "Invalid triangle: Vertices collapse.");
     ASSERT( (edge_lengths_[1] > 0.0), "Invalid triangle: Vertices collapse.");
     ASSERT( (edge_lengths_[2] > 0.0), "Invalid triangle: Vertices collapse.");
+
+    // The vertices must not refer to a triangle that fails to be created
+    try
+    {
+      vertices_[0]->add_facet( *this );
+      vertices_[1]->add_facet( *this );
+      vertices_[2]->add_facet( *this );
+    }
+    catch ( ... )
+    {
+      container_destructor();
+      throw;
+    }
   }
     
   /*------------------------------------------------------------------
-- 
2.43.0


From eae887091dd3d72b207347cfe0403cc38585c0f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:02:34 +0000
Subject: [PATCH 37/54] fix: element angles of straight corners are not lost

The angle of a corner whose edges are collinear could evaluate to NaN
due to rounding, such that the maximum angle of the element was taken
from its other corners.
---
 src/algorithm/FacetGeometry.h | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/algorithm/FacetGeometry.h b/src/algorithm/FacetGeometry.h
index e37a6e7..bad7e75 100644
--- a/src/algorithm/FacetGeometry.h
+++ b/src/algorithm/FacetGeometry.h
@@ -96,9 +96,9 @@ public:
     double l2 = edge_lengths[1];
     double l3 = edge_lengths[2];
 
-    double a1 = acos( dot( q-p,  r-p ) / (l1*l3) );
-    double a2 = acos( dot( p-q,  r-q ) / (l1*l2) );
-    double a3 = acos( dot( p-r,  q-r ) / (l2*l3) );
+    double a1 = acos( CLAMP( dot( q-p,  r-p ) / (l1*l3), -1.0, 1.0 ) );
+    double a2 = acos( CLAMP( dot( p-q,  r-q ) / (l1*l2), -1.0, 1.0 ) );
+    double a3 = acos( CLAMP( dot( p-r,  q-r ) / (l2*l3), -1.0, 1.0 ) );
 
     return { a1, a2, a3 };
   }
@@ -423,10 +423,10 @@ public:
     double l3 = edge_lengths[2];
     double l4 = edge_lengths[3];
 
-    double a1 = acos( dot( q-p,  s-p ) / (l4*l1) );
-    double a2 = acos( dot( p-q,  r-q ) / (l1*l2) );
-    double a3 = acos( dot( s-r,  q-r ) / (l2*l3) );
-    double a4 = acos( dot( r-s,  p-s ) / (l3*l4) );
+    double a1 = acos( CLAMP( dot( q-p,  s-p ) / (l4*l1), -1.0, 1.0 ) );
+    double a2 = acos( CLAMP( dot( p-q,  r-q ) / (l1*l2), -1.0, 1.0 ) );
+    double a3 = acos( CLAMP( dot( s-r,  q-r ) / (l2*l3), -1.0, 1.0 ) );
+    double a4 = acos( CLAMP( dot( r-s,  p-s ) / (l3*l4), -1.0, 1.0 ) );
 
     return { a1, a2, a3, a4 };
   }
-- 
2.43.0


From f0efd5d4c7de7119c1ef541cb9056a2a9dd9669b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:20 +0000
Subject: [PATCH 38/54] fix: refuse meshes whose boundary is covered only
 partly by neighbouring meshes

---
 src/algorithm/EntityChecks.h | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/algorithm/EntityChecks.h b/src/algorithm/EntityChecks.h
index 0df8450..a9d9232 100644
--- a/src/algorithm/EntityChecks.h
+++ b/src/algorithm/EntityChecks.h
@@ -175,12 +175,21 @@ public:
 
 
   /*------------------------------------------------------------------
-  | Check a given advancing front structure
+  | Check a given advancing front structure: Its boundary edges must 
+  | form closed loops. This is not the case, if neighboring meshes 
+  | cover a domain boundary edge only partly.
   ------------------------------------------------------------------*/
   template <typename Front>
   static inline bool check_front_validity(Front& front)
   {
+    for ( const auto& e_ptr : front )
+    {
+      if ( e_ptr->is_fixed() )
+        continue;
 
+      if ( !e_ptr->get_next_edge() || !e_ptr->get_prev_edge() )
+        return false;
+    }
 
     return true;
 
-- 
2.43.0


From 5c0d740819c4ea9e0da5626cab4134517a2109ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:20 +0000
Subject: [PATCH 39/54] fix: exported vtu data is released if memory runs out

---
 src/utils/VtkIO.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/utils/VtkIO.h b/src/utils/VtkIO.h
index 9ec2d6c..b21ab41 100644
--- a/src/utils/VtkIO.h
+++ b/src/utils/VtkIO.h
@@ -13,6 +13,7 @@
 #include <iostream>         
 #include <iomanip>         
 #include <functional>
+#include <memory>
 
 
 namespace CppUtils {
@@ -159,8 +160,8 @@ public:
                      const std::string& name,
                      size_t dim)
   {
-    cell_data_.emplace_back( 
-      new VtkIOData<T> { data, name, dim }
+    cell_data_.push_back( 
+      std::make_unique<VtkIOData<T>>( data, name, dim )
     );
   }
 
@@ -172,8 +173,8 @@ public:
                      const std::string& name,
                      size_t dim)
   {
-    point_data_.emplace_back( 
-      new VtkIOData<T> { data, name, dim }
+    point_data_.push_back( 
+      std::make_unique<VtkIOData<T>>( data, name, dim )
     );
   }
 
-- 
2.43.0


From a693f8dd63dfccef40592c383470cefe8a129d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:59 +0000
Subject: [PATCH 40/54] fix: clean-up skips vertices which are not surrounded
 by a closed fan of triangles

---
 src/algorithm/MeshCleanup.h | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/algorithm/MeshCleanup.h b/src/algorithm/MeshCleanup.h
index c698687..5711f60 100644
--- a/src/algorithm/MeshCleanup.h
+++ b/src/algorithm/MeshCleanup.h
@@ -657,13 +657,12 @@ public:
       Edge* e1 = mesh.interior_edges().get_edge(*bad_vertex, v1);
       Edge* e2 = mesh.interior_edges().get_edge(*bad_vertex, v2);
 
-      ASSERT( e0, "Interior edge not defined.\n" );
-      mesh.remove_interior_edge( *e0 );
+      // The vertex must be surrounded by a closed fan of triangles
+      if ( !e0 || !e1 || !e2 || e0 == e1 || e1 == e2 || e2 == e0 )
+        continue;
 
-      ASSERT( e1, "Interior edge not defined.\n" );
+      mesh.remove_interior_edge( *e0 );
       mesh.remove_interior_edge( *e1 );
-
-      ASSERT( e2, "Interior edge not defined.\n" );
       mesh.remove_interior_edge( *e2 );
 
       // Remove triangles
-- 
2.43.0


From a79e0c538f1e20b4407701d7741204b774209430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:51 +0000
Subject: [PATCH 41/54] fix: refinement of non-convex quads must not create
 inverted elements

---
 src/algorithm/RefinementStrategy.h | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/src/algorithm/RefinementStrategy.h b/src/algorithm/RefinementStrategy.h
index 8a0e76c..98b083a 100644
--- a/src/algorithm/RefinementStrategy.h
+++ b/src/algorithm/RefinementStrategy.h
@@ -268,6 +268,31 @@ private:
     }
   }
 
+  /*------------------------------------------------------------------
+  | Returns the point that is used to split a quad. This is usually 
+  | the quad's centroid. If the latter is not visible from all edges of
+  | a non-convex quad, the midpoint of its inner diagonal is used.
+  ------------------------------------------------------------------*/
+  Vec2d get_center_point(const Quad& q) const
+  {
+    const std::array<Vec2d,4> p 
+    { q.v1().xy(), q.v2().xy(), q.v3().xy(), q.v4().xy() };
+
+    bool visible = true;
+
+    for ( std::size_t i = 0; i < 4; ++i )
+      visible &= ( cross(p[(i+1)%4] - p[i], q.xy() - p[i]) > 0.0 );
+
+    if ( visible )
+      return q.xy();
+
+    for ( std::size_t i = 0; i < 4; ++i )
+      if ( cross(p[i] - p[(i+3)%4], p[(i+1)%4] - p[i]) < 0.0 )
+        return 0.5 * ( p[i] + p[(i+2)%4] );
+
+    return q.xy();
+  }
+
   /*------------------------------------------------------------------
   | Refine quads
   ------------------------------------------------------------------*/
@@ -291,7 +316,7 @@ private:
       Vertex* v8 = e71->sub_vertex();
 
       // Create new vertex at center of quad
-      Vertex& v9 = mesh_->add_vertex( q->xy() );
+      Vertex& v9 = mesh_->add_vertex( get_center_point(*q) );
 
       v9.add_property( v1.properties() );
       v9.add_property( v3.properties() );
-- 
2.43.0


From 4d963267e264243198e5e486ba6d4c074b5ecd1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:28:16 +0000
Subject: [PATCH 42/54] fix: comments behind parameters are neither taken as
 keys nor as values

---
 src/utils/ParaReader.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/utils/ParaReader.h b/src/utils/ParaReader.h
index 9e24a5b..04dce36 100644
--- a/src/utils/ParaReader.h
+++ b/src/utils/ParaReader.h
@@ -941,8 +941,9 @@ private:
       if ( l_cpy[0] == '#' )
         continue;
       
-      // Add line to content, if it not a comment line
-      content->push_back(line);
+      // Add line to content, if it not a comment line. Everything behind 
+      // a comment identifier must neither be taken as key nor as value
+      content->push_back( line.substr(0, line.find(ParaFileComment)) );
     }
 
     if (!ifs.eof()) 
-- 
2.43.0


From 86f196177ee06640cdfc920b63da36544ca56c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:28:16 +0000
Subject: [PATCH 43/54] fix: blank lines in parameter blocks are not taken as
 rows of default values

---
 src/utils/ParaReader.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/utils/ParaReader.h b/src/utils/ParaReader.h
index 04dce36..6480acf 100644
--- a/src/utils/ParaReader.h
+++ b/src/utils/ParaReader.h
@@ -753,8 +753,10 @@ private:
     // Gather sub strings
     std::vector<string> sub_strings {};
 
+    // Blank lines do not define a row of the matrix
     for (size_t i = start_data.line_index+1; i < end_data.line_index; i++)
-      sub_strings.push_back( content[i] );
+      if ( content[i].find_first_not_of(" \t\r") != string::npos )
+        sub_strings.push_back( content[i] );
 
     // Convert substring to a vector of type T
     std::vector<T> out = process_matrix_query(para, sub_strings, 
-- 
2.43.0


From a4dfe0995f77182897f0ea5f3335b49b8fc3048c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:28:50 +0000
Subject: [PATCH 44/54] fix: empty parameter blocks do not repeat values of
 previous blocks

---
 src/utils/ParaReader.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/ParaReader.h b/src/utils/ParaReader.h
index 6480acf..1ba8d1b 100644
--- a/src/utils/ParaReader.h
+++ b/src/utils/ParaReader.h
@@ -766,7 +766,7 @@ private:
     // Check for correct shape of input data
     size_t n_rows = out.size() / para.columns();
 
-    if ( out.size() != para.columns()*n_rows ) 
+    if ( n_rows < 1 || out.size() != para.columns()*n_rows ) 
       return false;
 
     // Resize the parameter values to initial size 
-- 
2.43.0


From d0bdb3c6b4895c59549051e697113419cb75a45b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:44 +0000
Subject: [PATCH 45/54] fix: user defined query functions are passed to all
 cells of the quad tree

---
 src/utils/QuadTree.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utils/QuadTree.h b/src/utils/QuadTree.h
index b5102da..e6f6a8b 100644
--- a/src/utils/QuadTree.h
+++ b/src/utils/QuadTree.h
@@ -267,7 +267,7 @@ public:
       for ( auto child : children_ )
       {
         ASSERT( child, "QuadTree structure is corrupted." );
-        n_found += child->get_items(lowleft,upright,found);
+        n_found += child->get_items(lowleft, upright, found, qfun);
       }
     }
     else
@@ -308,7 +308,7 @@ public:
       for ( auto child : children_ )
       {
         ASSERT( child, "QuadTree structure is corrupted." );
-        n_found += child->get_items(center, radius, found);
+        n_found += child->get_items(center, radius, found, qfun);
       }
     }
     else
-- 
2.43.0


From f991f37b850e2373d0bc8cd04fe1fbea0f0beba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:40 +0000
Subject: [PATCH 46/54] fix: meshes without elements are not complete

---
 src/algorithm/MeshChecker.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/algorithm/MeshChecker.h b/src/algorithm/MeshChecker.h
index 7e09fca..1d8fdd8 100644
--- a/src/algorithm/MeshChecker.h
+++ b/src/algorithm/MeshChecker.h
@@ -52,7 +52,8 @@ public:
     if ( mesh_cleanup )
       perform_mesh_cleanup();
 
-    bool complete = true;
+    // Meshes whose preparation failed do not contain any elements
+    bool complete = ( mesh_->n_elements() > 0 );
 
     // The mesh may not contain any advancing front edges
     complete &= ( mesh_->get_front_edges().size() == 0 );
-- 
2.43.0


From f01ba3de7cf0815e219a014565723e2737a017e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:40 +0000
Subject: [PATCH 47/54] fix: refuse domains with holes outside of their
 exterior boundary

---
 src/algorithm/EntityChecks.h | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/algorithm/EntityChecks.h b/src/algorithm/EntityChecks.h
index a9d9232..97b7cda 100644
--- a/src/algorithm/EntityChecks.h
+++ b/src/algorithm/EntityChecks.h
@@ -93,6 +93,30 @@ public:
       }
     }
 
+    // Check if interior boundaries are surrounded by exterior boundaries
+    for ( const auto& boundary : domain )
+    {
+      if ( !boundary->is_interior() )
+        continue;
+
+      for ( const auto& nbr_boundary : domain )
+      {
+        if ( !nbr_boundary->is_exterior() )
+          continue;
+
+        bool is_inside = false;
+
+        for ( const auto& e_ptr : boundary->edges() )
+          is_inside |= nbr_boundary->is_inside( e_ptr->xy() );
+
+        if ( !is_inside )
+        {
+          LOG(ERROR) << "Invalid domain: Interior boundary is located outside.";
+          return false;
+        }
+      }
+    }
+
     return true;
 
   } // check_domain_validity()
-- 
2.43.0


From 5712b5ec5269fb57d2c3bbb9aa0ebd57b8332f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:38 +0000
Subject: [PATCH 48/54] fix: convert2foam keeps boundary edges and their
 markers together

---
 scripts/convert2foam.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scripts/convert2foam.py b/scripts/convert2foam.py
index d8abfbe..dbe29ea 100644
--- a/scripts/convert2foam.py
+++ b/scripts/convert2foam.py
@@ -247,6 +247,7 @@ class TQMesh:
         ids = np.argsort(self.bdry_elems)
         self.bdry_edges = self.bdry_edges[ids]
         self.bdry_elems = self.bdry_elems[ids]
+        self.bdry_marker = self.bdry_marker[ids]
 
 
     def _swap_intr_edges(self):
-- 
2.43.0


From d1a89f29f8f147d34786d075fd48cad2fce0f9c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:38 +0000
Subject: [PATCH 49/54] fix: convert2foam writes more than nine patches in the
 order of their faces

---
 scripts/convert2foam.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/convert2foam.py b/scripts/convert2foam.py
index dbe29ea..ba5634e 100644
--- a/scripts/convert2foam.py
+++ b/scripts/convert2foam.py
@@ -437,7 +437,7 @@ class OpenFOAMMesh:
         boundary_data = []
         for name, (start_face, n_faces) in self.boundaries.items():
             boundary_data.append([name, (start_face, n_faces)])
-        boundary_data.sort(key = lambda entry: entry[0])
+        boundary_data.sort(key = lambda entry: entry[1][0])
 
         for name, (start_face, n_faces) in boundary_data:
             boundary_str += '    {:}\n    {{\n'.format(name)
-- 
2.43.0


From 55c75ba87eb665b619eddcf39fc239717410020b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:38 +0000
Subject: [PATCH 50/54] fix: convert2foam writes point coordinates with full
 precision

---
 scripts/convert2foam.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/convert2foam.py b/scripts/convert2foam.py
index ba5634e..003a6dc 100644
--- a/scripts/convert2foam.py
+++ b/scripts/convert2foam.py
@@ -383,7 +383,7 @@ class OpenFOAMMesh:
     def _write_points(self, mesh_dir):
         point_str = '\n{:}\n(\n'.format(self.points.shape[0])
         for (x,y,z) in self.points:
-            point_str += '({:g} {:g} {:g})\n'.format(x,y,z)
+            point_str += '({:.16g} {:.16g} {:.16g})\n'.format(x,y,z)
         point_str += ')\n'
 
         with open(os.path.join(mesh_dir, 'points'), 'w') as file:
-- 
2.43.0


From 25b1b7b60b6b46eaafff49f5ba5928a0101b2cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:38 +0000
Subject: [PATCH 51/54] fix: convert2foam refuses mesh files that lack a
 section

---
 scripts/convert2foam.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/scripts/convert2foam.py b/scripts/convert2foam.py
index 003a6dc..6ad8e82 100644
--- a/scripts/convert2foam.py
+++ b/scripts/convert2foam.py
@@ -75,6 +75,8 @@ def io_read_vertices(mesh_id, lines):
             start  = i + 1
             n_vert = int(line[1])
             break
+    else:
+        raise ValueError("The mesh file is incomplete")
 
     # Read the vertices
     for i in range(start, start+n_vert):
@@ -102,6 +104,8 @@ def io_read_interior_edges(mesh_id, lines):
             start = i + 1
             n_edge = int(line[1])
             break
+    else:
+        raise ValueError("The mesh file is incomplete")
 
     # Read the boundary edges and their markers
     for i in range(start, start+n_edge):
@@ -133,6 +137,8 @@ def io_read_boundary_edges(mesh_id, lines):
             start = i + 1
             n_edge = int(line[1])
             break
+    else:
+        raise ValueError("The mesh file is incomplete")
 
     # Read the boundary edges and their markers
     for i in range(start, start+n_edge):
@@ -163,6 +169,8 @@ def io_read_triangles(mesh_id, lines):
             start = i + 1
             n_tris = int(line[1])
             break
+    else:
+        raise ValueError("The mesh file is incomplete")
 
     # Read triangles and their corresponding mesh ID
     for i in range(start, start+n_tris):
@@ -191,6 +199,8 @@ def io_read_quads(mesh_id, lines):
             start = i + 1
             n_quads = int(line[1])
             break
+    else:
+        raise ValueError("The mesh file is incomplete")
 
     # Read quads and their corresponding mesh ID
     for i in range(start, start+n_quads):
-- 
2.43.0


From ac86d6892ffd8a390ea0bd9be48700913942425e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:18 +0000
Subject: [PATCH 52/54] fix: splitting a boundary edge must not change the
 enclosed area

---
 src/algorithm/EdgeList.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/algorithm/EdgeList.h b/src/algorithm/EdgeList.h
index 51085ab..60621c8 100644
--- a/src/algorithm/EdgeList.h
+++ b/src/algorithm/EdgeList.h
@@ -219,6 +219,9 @@ public:
     // Remove old edge
     this->remove(edge);
 
+    // The old edge must not contribute to the enclosed area
+    if ( orient_ != Orientation::NONE )
+      compute_area();
 
     return std::move( std::pair<Edge*,Edge*>( &e1_new, &e2_new) );
 
-- 
2.43.0


From ecfdf86cb77c8ff96f89fc3dc26d13d19f5a631b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:42:50 +0000
Subject: [PATCH 53/54] fix: vertices must not refer to the edges of a removed
 boundary

---
 src/algorithm/Domain.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/algorithm/Domain.h b/src/algorithm/Domain.h
index 0178e31..8a9af85 100644
--- a/src/algorithm/Domain.h
+++ b/src/algorithm/Domain.h
@@ -322,7 +322,11 @@ public:
   | Remove a boundary from the domain
   ------------------------------------------------------------------*/
   void remove_boundary(size_t pos) 
-  { boundaries_.erase( boundaries_.begin()+pos ); }
+  { 
+    // The domain's vertices must not refer to the removed edges
+    boundaries_[pos]->clear_edges();
+    boundaries_.erase( boundaries_.begin()+pos ); 
+  }
 
   /*------------------------------------------------------------------
   | Access operator
-- 
2.43.0


From 040ae05aee114da3713f72c1e45d9359406a6084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:43:24 +0000
Subject: [PATCH 54/54] fix: sizes of a new boundary must not be taken from a
 removed one

---
 src/algorithm/Boundary.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/algorithm/Boundary.h b/src/algorithm/Boundary.h
index 90d7a2a..c3da223 100644
--- a/src/algorithm/Boundary.h
+++ b/src/algorithm/Boundary.h
@@ -343,6 +343,13 @@ private:
 
       if ( nearest && EQ0( ( nearest->xy() - xy ).norm_sqr() ) ) 
       {
+        // A vertex that is left over from a removed boundary takes the
+        // sizes of the new one
+        if ( nearest->edges().empty() && !nearest->is_fixed() )
+        {
+          nearest->mesh_size( props.x );
+          nearest->size_range( props.y );
+        }
         new_verts.push_back( nearest );
         continue;
       }
-- 
2.43.0

