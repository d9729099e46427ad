From decebed02819a56fe34b40571af7d7aabe12afb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:48 +0000
Subject: [PATCH 01/28] fix: move assignment between handles of the same
 resource leaks a reference

The assigned-from handle was set to null without giving up its reference
when both handles pointed to the same resource (or were the same handle), so
the reference count could never go back to zero.
---
 lib/mito/utilities/SharedPointer.icc | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/lib/mito/utilities/SharedPointer.icc b/lib/mito/utilities/SharedPointer.icc
index 5e7bdda..758f18d 100644
--- a/lib/mito/utilities/SharedPointer.icc
+++ b/lib/mito/utilities/SharedPointer.icc
@@ -152,17 +152,16 @@ constexpr mito::utilities::SharedPointer<resourceT> &
 mito::utilities::SharedPointer<resourceT>::operator=(
     mito::utilities::SharedPointer<resourceT> && other) noexcept
 {
-    // if {other} and I point to different handles
-    if (other._handle != _handle) {
+    // if {other} is not me
+    if (this != &other) {
         // release my current handle
         _release();
-        // adopt the new shareable
+        // adopt the new shareable, along with the reference held by {other}
         _handle = std::move(other._handle);
+        // invalidate {other}
+        other._handle = nullptr;
     }
 
-    // invalidate {other}
-    other._handle = nullptr;
-
     // all done
     return *this;
 }
-- 
2.43.0


From d604e367593a5417956842abe240e92cbbb4278c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:55 +0000
Subject: [PATCH 02/28] fix: copying a null shared pointer dereferences the
 null pointer

Releasing already skips a null handle; acquiring now does, too.
---
 lib/mito/utilities/SharedPointer.icc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/mito/utilities/SharedPointer.icc b/lib/mito/utilities/SharedPointer.icc
index 758f18d..bda8c88 100644
--- a/lib/mito/utilities/SharedPointer.icc
+++ b/lib/mito/utilities/SharedPointer.icc
@@ -171,8 +171,12 @@ template <class resourceT>
 constexpr auto
 mito::utilities::SharedPointer<resourceT>::_acquire() const -> void
 {
-    // acquire resource (increment reference count)
-    _handle->_acquire();
+    // if the handle is in valid state
+    if (_handle != nullptr) {
+        // acquire resource (increment reference count)
+        _handle->_acquire();
+    }
+
     // all done
     return;
 }
-- 
2.43.0


From 2b8595beb65802c3d3c9c4fb569f2db5a9f45a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:10 +0000
Subject: [PATCH 03/28] fix: post-incrementing a segmented container iterator
 visits erased elements

Only the prefix increment skipped the elements that are no longer valid.
---
 lib/mito/utilities/SegmentedContainerIterator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/mito/utilities/SegmentedContainerIterator.h b/lib/mito/utilities/SegmentedContainerIterator.h
index 99304a0..ae93f44 100644
--- a/lib/mito/utilities/SegmentedContainerIterator.h
+++ b/lib/mito/utilities/SegmentedContainerIterator.h
@@ -104,7 +104,7 @@ namespace mito::utilities {
             // make a copy of me
             auto clone = *this;
             // increment me
-            ++_segmented_iterator;
+            ++(*this);
             // and return the clone
             return clone;
         }
-- 
2.43.0


From aaa66ad4b6d94251e919f2ce67226b89b67229e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:10 +0000
Subject: [PATCH 04/28] fix: a repository erases resources that are still in
 use

The documented behavior is to do nothing if someone else is using the resource;
erasing it anyway leaves the other handles dangling.
---
 lib/mito/utilities/Repository.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/mito/utilities/Repository.h b/lib/mito/utilities/Repository.h
index 1fde5a3..2d2be07 100644
--- a/lib/mito/utilities/Repository.h
+++ b/lib/mito/utilities/Repository.h
@@ -107,6 +107,11 @@ namespace mito::utilities {
                 return false;
             }
 
+            // if someone else is still using the resource, do nothing
+            if (resource.references() > 1) {
+                return false;
+            }
+
             // remove this resource from the collection of resources
             _resources.erase(resource.handle());
             // destroy the resource
-- 
2.43.0


From 07b9ccb333fb1a471e36aa104da23469ca71463f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:00 +0000
Subject: [PATCH 05/28] fix: a repository destroys its erased resources a
 second time

Erasing a resource destroys it; the destructor of the repository then destroyed
whatever was left at its location once more unless the location had been reused.
---
 lib/mito/utilities/Repository.h         |  9 +++++++--
 lib/mito/utilities/SegmentedAllocator.h | 11 +++++++++++
 lib/mito/utilities/externals.h          |  1 +
 3 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/lib/mito/utilities/Repository.h b/lib/mito/utilities/Repository.h
index 2d2be07..0b26736 100644
--- a/lib/mito/utilities/Repository.h
+++ b/lib/mito/utilities/Repository.h
@@ -70,9 +70,14 @@ namespace mito::utilities {
         // destructor
         ~Repository()
         {
-            // destroy all resources
+            // the locations of the resources that were already destroyed when they were erased
+            const auto erased = _resources.available_locations();
+
+            // destroy all other resources
             for (const auto & resource : _resources) {
-                resource.~resource_type();
+                if (!erased.contains(&resource)) {
+                    resource.~resource_type();
+                }
             }
         }
 
diff --git a/lib/mito/utilities/SegmentedAllocator.h b/lib/mito/utilities/SegmentedAllocator.h
index eb6264b..ee8b8d1 100644
--- a/lib/mito/utilities/SegmentedAllocator.h
+++ b/lib/mito/utilities/SegmentedAllocator.h
@@ -130,6 +130,17 @@ namespace mito::utilities {
 
         inline auto segment_size() const noexcept -> int { return _segment_size; }
 
+        // the locations of the erased elements that have not been reused yet
+        auto available_locations() const -> std::unordered_set<const resource_type *>
+        {
+            std::unordered_set<const resource_type *> locations;
+            // loop on a copy of the queue of available locations
+            for (auto queue = _available_locations; !queue.empty(); queue.pop()) {
+                locations.insert(queue.front());
+            }
+            return locations;
+        }
+
       private:
         auto _allocate_new_segment() -> unqualified_pointer
         {
diff --git a/lib/mito/utilities/externals.h b/lib/mito/utilities/externals.h
index 53b64ec..898957a 100644
--- a/lib/mito/utilities/externals.h
+++ b/lib/mito/utilities/externals.h
@@ -10,6 +10,7 @@
 // externals
 #include <cassert>
 #include <queue>
+#include <unordered_set>
 #include <vector>
 #include <utility>
 #include <memory>
-- 
2.43.0


From cb089b4701a11a3ec9c57d9c1d46c0c82c6997a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:36 +0000
Subject: [PATCH 06/28] fix: existence query misses segments that exist only as
 the flip of another

Topology::exists({a, b}) looked for the oriented tips (a, -) and (b, +), which do
not exist if segment b-a was built first and then flipped.
---
 lib/mito/topology/Topology.icc | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/lib/mito/topology/Topology.icc b/lib/mito/topology/Topology.icc
index c675660..d64557b 100644
--- a/lib/mito/topology/Topology.icc
+++ b/lib/mito/topology/Topology.icc
@@ -265,9 +265,18 @@ mito::topology::Topology::exists(const simplex_composition_t<N> & simplices) con
 inline auto
 mito::topology::Topology::exists(const vertex_simplex_composition_t<1> & vertices) const -> bool
 {
+    // find a tip simplex riding on a given vertex
+    // (the segment may have been built in opposite orientation and then flipped, in which case its
+    // tips carry the opposite signs: the footprints alone identify the segment)
+    auto find_tip = [this](const vertex_t & vertex, orientation_t orientation) -> simplex_t<0> {
+        auto tip = _get_factory<0>().findOrientedSimplex(vertex, orientation);
+        return !tip.is_nullptr() ? tip :
+                                   _get_factory<0>().findOrientedSimplex(vertex, -orientation);
+    };
+
     // find left and right tip simplices
-    auto simplex_left_tip = _get_factory<0>().findOrientedSimplex(vertices[0], -1);
-    auto simplex_right_tip = _get_factory<0>().findOrientedSimplex(vertices[1], +1);
+    auto simplex_left_tip = find_tip(vertices[0], -1);
+    auto simplex_right_tip = find_tip(vertices[1], +1);
 
     // if both are are found
     if (!simplex_left_tip.is_nullptr() && !simplex_right_tip.is_nullptr()) {
-- 
2.43.0


From 9cf8963cf0da0709e73f07fb0f904b06d843e77f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:53 +0000
Subject: [PATCH 07/28] fix: flipping the diagonal of flipped triangles ignores
 their orientation

---
 lib/mito/topology/FlipDiagonal.icc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/mito/topology/FlipDiagonal.icc b/lib/mito/topology/FlipDiagonal.icc
index 2f7b1ea..d0c78bc 100644
--- a/lib/mito/topology/FlipDiagonal.icc
+++ b/lib/mito/topology/FlipDiagonal.icc
@@ -100,7 +100,9 @@ namespace mito::topology {
         for (const auto & subsimplex : simplex0->composition()) {
             // if it is not the shared simplex
             if (subsimplex->footprint().id() != shared_simplex.id()) {
-                boundary_simplices.insert(subsimplex);
+                // add it with the orientation it has in the boundary of {simplex0}
+                boundary_simplices.insert(
+                    simplex0->orientation() == +1 ? subsimplex : topology.flip(subsimplex));
             }
         }
         assert(std::size(boundary_simplices) == 2);
@@ -108,7 +110,9 @@ namespace mito::topology {
         for (const auto & subsimplex : simplex1->composition()) {
             // if it is not the shared simplex
             if (subsimplex->footprint().id() != shared_simplex.id()) {
-                boundary_simplices.insert(subsimplex);
+                // add it with the orientation it has in the boundary of {simplex1}
+                boundary_simplices.insert(
+                    simplex1->orientation() == +1 ? subsimplex : topology.flip(subsimplex));
             }
         }
         assert(std::size(boundary_simplices) == 4);
-- 
2.43.0


From b69fe851252564725cfce8246a6db999ed59bb34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:44 +0000
Subject: [PATCH 08/28] fix: the validity check of a simplex composition
 accepts pairs of opposite faces

---
 lib/mito/topology/utilities.h | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/lib/mito/topology/utilities.h b/lib/mito/topology/utilities.h
index 3ececd0..035b93e 100644
--- a/lib/mito/topology/utilities.h
+++ b/lib/mito/topology/utilities.h
@@ -156,9 +156,23 @@ namespace mito::topology {
             }
         }
 
-        // assert that the {orientation_map} has as many entries as the number of (unoriented) edges
+        // check that the {orientation_map} has as many entries as the number of (N-2)-subsimplices
         // in an N-simplex
-        assert(std::size(orientation_map) == ((N + 1) * N) / 2);
+        if (std::size(orientation_map) != ((N + 1) * N) / 2) {
+            // {composition} is not a valid simplex composition
+            return false;
+        }
+
+        // check that no simplex appears twice in {composition} (a simplex and its flip trivially
+        // balance the net orientation of each other's subsimplices)
+        for (auto it = std::begin(composition); it != std::end(composition); ++it) {
+            for (auto jt = std::next(it); jt != std::end(composition); ++jt) {
+                if ((*it)->footprint() == (*jt)->footprint()) {
+                    // {composition} is not a valid simplex composition
+                    return false;
+                }
+            }
+        }
 
         // check that the net orientation of each (N-2)-subsimplex is 0
         // (i.e. the subsimplex appears twice, with each opposite orientations)
-- 
2.43.0


From 02ef202381d472c5c9a564be36d21772dbaaa17e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:52 +0000
Subject: [PATCH 09/28] fix: the wedge product of a one-form and a two-form
 lacks a term

---
 lib/mito/tensor/wedge.h | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/lib/mito/tensor/wedge.h b/lib/mito/tensor/wedge.h
index 9d62b50..80f0944 100644
--- a/lib/mito/tensor/wedge.h
+++ b/lib/mito/tensor/wedge.h
@@ -66,20 +66,19 @@ namespace mito::tensor {
     constexpr auto wedge(const form_t<P1, F1> & b_tilda, const form_t<P2, F2> & a_tilda)
     requires(P1 == 1 && P2 == 2)
     {
-        // positive sign if P1 is even, negative sign if P1 is odd
-        constexpr int sign = (P1 % 2 ? +1 : -1);
-
-        return form<P1 + P2>(
-                   [a_tilda, b_tilda]<class X, class Y, class Z>(
-                       const X & x, const Y & y, const Z & z) -> auto {
-                       return wedge(b_tilda(x), a_tilda)(y, z);
-                   })
-             + sign
-                   * form<P1 + P2>(
-                       [a_tilda, b_tilda]<class X, class Y, class Z>(
-                           const X & x, const Y & y, const Z & z) -> auto {
-                           return wedge(b_tilda, a_tilda(x, y))(z);
-                       });
+        // return a {form} that, when contracted with {x}, {y} and {z}...
+        return form<P1 + P2>([a_tilda, b_tilda]<class X, class Y, class Z>(
+                                 const X & x, const Y & y, const Z & z) -> auto {
+            // ... returns the sum over the (1,2)-shuffles of {x}, {y} and {z}, with their signs
+            // (the factors are in the order of the arguments that are not contracted yet)
+            if constexpr (std::is_same_v<X, dummy_vector>) {
+                return b_tilda(x) * a_tilda(y, z) - a_tilda(x, z) * b_tilda(y)
+                     + a_tilda(x, y) * b_tilda(z);
+            } else {
+                return b_tilda(x) * a_tilda(y, z) - b_tilda(y) * a_tilda(x, z)
+                     + a_tilda(x, y) * b_tilda(z);
+            }
+        });
     }
 }
 
-- 
2.43.0


From 26c9a7f9e0d2e0f62d6a2e9311c3a609efa5bba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:31 +0000
Subject: [PATCH 10/28] fix: the boundary of a mesh ignores the orientation of
 its flipped cells

---
 lib/mito/mesh/Boundary.icc | 21 +++++++++++++--------
 lib/mito/mesh/Mesh.h       | 38 +++++++++++++++++++++++++++++++++-----
 2 files changed, 46 insertions(+), 13 deletions(-)

diff --git a/lib/mito/mesh/Boundary.icc b/lib/mito/mesh/Boundary.icc
index 374cb47..30b8ef8 100644
--- a/lib/mito/mesh/Boundary.icc
+++ b/lib/mito/mesh/Boundary.icc
@@ -21,9 +21,10 @@ mito::mesh::Boundary<meshT>::boundary_size(const mesh_type & mesh) -> int
         // loop on the topological composition of {cell} and
         // increment counter if {subcell} is on the boundary of the mesh
         count +=
-            std::ranges::count_if(cell.simplex()->composition(), [&mesh](const auto & subcell) {
-                return mesh.isOnBoundary(subcell);
-            });
+            std::ranges::count_if(
+                cell.simplex()->composition(), [&mesh, &cell](const auto & subcell) {
+                    return mesh.isOnBoundary(cell, subcell);
+                });
     }
 
     // return the count of boundary cells
@@ -41,13 +42,17 @@ mito::mesh::Boundary<meshT>::boundary(const mesh_type & mesh) -> boundary_mesh_t
     for (const auto & cell : mesh.cells()) {
         // create view of {subcell}s on the boundary of the mesh
         auto subcellsOnBoundary =
-            cell.simplex()->composition() | std::views::filter([&mesh](const auto & subcell) {
-                return mesh.isOnBoundary(subcell);
-            });
+            cell.simplex()->composition()
+            | std::views::filter([&mesh, &cell](const auto & subcell) {
+                  return mesh.isOnBoundary(cell, subcell);
+              });
         // loop on the {subcell} on the boundary
         for (const auto & subcell : subcellsOnBoundary) {
-            // add {cell} to the boundary mesh
-            boundary.insert(mito::geometry::geometric_simplex<D>(subcell, cell.nodes()));
+            // add {subcell}, oriented as in the boundary of {cell}, to the boundary mesh
+            boundary.insert(
+                mito::geometry::geometric_simplex<D>(
+                    cell.simplex()->orientation() == +1 ? subcell : topology::flip(subcell),
+                    cell.nodes()));
         }
     }
 
diff --git a/lib/mito/mesh/Mesh.h b/lib/mito/mesh/Mesh.h
index 1c529b6..8ab1ed6 100644
--- a/lib/mito/mesh/Mesh.h
+++ b/lib/mito/mesh/Mesh.h
@@ -67,14 +67,24 @@ namespace mito::mesh {
         Mesh & operator=(Mesh &&) noexcept = delete;
 
       private:
+        // the orientation of {subcell} in the boundary of {cell}
+        // (the composition of a flipped simplex lists the subsimplices of its footprint)
+        static inline auto _orientation(
+            const cell_type & cell, const cell_topological_family_type<N - 1> & subcell)
+            -> topology::orientation_t
+        {
+            return cell.simplex()->orientation() * subcell->orientation();
+        }
+
         inline auto _register_cell_orientation(const cell_type & cell) -> void
         {
             // loop on the subcells of {cell}
             for (const auto & subcell : cell.simplex()->composition()) {
                 // increment the orientations count for this cell footprint id, depending on the
                 // orientation
-                (subcell->orientation() == +1 ? _orientations[subcell->footprint().id()][0] += 1 :
-                                                _orientations[subcell->footprint().id()][1] += 1);
+                (_orientation(cell, subcell) == +1 ?
+                     _orientations[subcell->footprint().id()][0] += 1 :
+                     _orientations[subcell->footprint().id()][1] += 1);
             }
 
             // all done
@@ -111,7 +121,7 @@ namespace mito::mesh {
                 for (const auto & subcell : cell.simplex()->composition()) {
                     // decrement the orientations count for this cell footprint id, depending on
                     // the orientation
-                    (subcell->orientation() == +1 ?
+                    (_orientation(cell, subcell) == +1 ?
                          _orientations[subcell->footprint().id()][0] -= 1 :
                          _orientations[subcell->footprint().id()][1] -= 1);
 
@@ -161,11 +171,28 @@ namespace mito::mesh {
         }
 
         inline auto isOnBoundary(const cell_topological_family_type<N - 1> & cell) const -> bool
+        {
+            return _isOnBoundary(cell, cell->orientation());
+        }
+
+        // whether {subcell}, oriented as in the boundary of {cell}, is on the boundary
+        inline auto isOnBoundary(
+            const cell_type & cell, const cell_topological_family_type<N - 1> & subcell) const
+            -> bool
+        {
+            return _isOnBoundary(subcell, _orientation(cell, subcell));
+        }
+
+      private:
+        // whether {cell}, taken with orientation {orientation}, is on the boundary
+        inline auto _isOnBoundary(
+            const cell_topological_family_type<N - 1> & cell,
+            topology::orientation_t orientation) const -> bool
         {
             // count how many times this oriented cell occurs in the mesh with opposite orientation
             int count = 0;
-            (cell->orientation() == -1 ? count = _orientations.at(cell->footprint().id())[0] :
-                                         count = _orientations.at(cell->footprint().id())[1]);
+            (orientation == -1 ? count = _orientations.at(cell->footprint().id())[0] :
+                                 count = _orientations.at(cell->footprint().id())[1]);
 
             // the cell is on the boundary if it never occurs in the mesh with opposite
             // orientation
@@ -176,6 +203,7 @@ namespace mito::mesh {
             return false;
         }
 
+      public:
         // insert {cell} in mesh
         inline auto insert(const cell_type & cell) -> cell_type &
         requires(N > 0)
-- 
2.43.0


From fe33cff695e67f30bb566d1c0b0375086b7985c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:40 +0000
Subject: [PATCH 11/28] fix: refining a mesh disconnects its cells

The midpoints of the edges were created once per cell, so that the refined
mesh had no common nodes along the edges and faces shared by its cells. Share
them, as the nodes of the original mesh are.
---
 lib/mito/mesh/externals.h |  1 +
 lib/mito/mesh/tetra.h     | 99 ++++++++++++++++++++++++++-------------
 2 files changed, 67 insertions(+), 33 deletions(-)

diff --git a/lib/mito/mesh/externals.h b/lib/mito/mesh/externals.h
index 6b9ac64..ac8c414 100644
--- a/lib/mito/mesh/externals.h
+++ b/lib/mito/mesh/externals.h
@@ -7,6 +7,7 @@
 #pragma once
 
 // externals
+#include <map>
 #include <ranges>
 #include <unordered_map>
 
diff --git a/lib/mito/mesh/tetra.h b/lib/mito/mesh/tetra.h
index b814332..95e2fc6 100644
--- a/lib/mito/mesh/tetra.h
+++ b/lib/mito/mesh/tetra.h
@@ -9,26 +9,47 @@
 
 namespace mito::mesh {
 
+    // a map from the (sorted) pairs of nodes to the nodes at their midpoints
+    template <int D /*spatial dimension*/>
+    using midnodes_t =
+        std::map<std::pair<geometry::node_t<D>, geometry::node_t<D>>, geometry::node_t<D>>;
+
     template <int D /*spatial dimension*/, geometry::coordinates_c coordT>
     requires(coordT::dim == D)
     auto midnode(
         const geometry::node_t<D> & node_a, const geometry::node_t<D> & node_b,
-        geometry::coordinate_system_t<coordT> & coordinate_system) -> geometry::node_t<D>
+        geometry::coordinate_system_t<coordT> & coordinate_system, midnodes_t<D> & midnodes)
+        -> geometry::node_t<D>
     {
-        // return a new node at the midpoint between {node_a} and {node_b}
-        return mito::geometry::node(
+        // the edge between {node_a} and {node_b}
+        auto edge = node_b < node_a ? std::pair(node_b, node_a) : std::pair(node_a, node_b);
+
+        // look up the node at the midpoint of the edge (neighboring cells share it)
+        auto it_find = midnodes.find(edge);
+        if (it_find != std::end(midnodes)) {
+            return it_find->second;
+        }
+
+        // otherwise, make a new node at the midpoint between {node_a} and {node_b}
+        auto node = mito::geometry::node(
             coordinate_system, coordinate_system.midpoint(node_a->point(), node_b->point()));
+
+        // record it
+        midnodes.emplace(edge, node);
+
+        // all done
+        return node;
     }
 
     template <int D /*spatial dimension*/, geometry::coordinates_c coordT>
     requires(coordT::dim == D)
     auto subdivide(
         const geometry::node_t<D> & node_0, const geometry::node_t<D> & node_1,
-        geometry::coordinate_system_t<coordT> & coordinate_system,
+        geometry::coordinate_system_t<coordT> & coordinate_system, midnodes_t<D> & midnodes,
         mesh_t<geometry::segment_t<D>> & subdivided_mesh, int n_refinements) -> void
     {
         // compute the middle node of the segment 0->1
-        auto node_01 = midnode(node_0, node_1, coordinate_system);
+        auto node_01 = midnode(node_0, node_1, coordinate_system, midnodes);
 
         // if there are no more refinements to be made
         if (n_refinements == 1) {
@@ -42,8 +63,8 @@ namespace mito::mesh {
         }
 
         // otherwise recursively subdivide the four cells
-        subdivide(node_0, node_01, coordinate_system, subdivided_mesh, n_refinements - 1);
-        subdivide(node_01, node_1, coordinate_system, subdivided_mesh, n_refinements - 1);
+        subdivide(node_0, node_01, coordinate_system, midnodes, subdivided_mesh, n_refinements - 1);
+        subdivide(node_01, node_1, coordinate_system, midnodes, subdivided_mesh, n_refinements - 1);
 
         // all done
         return;
@@ -54,17 +75,17 @@ namespace mito::mesh {
     auto subdivide(
         const geometry::node_t<D> & node_0, const geometry::node_t<D> & node_1,
         const geometry::node_t<D> & node_2,
-        geometry::coordinate_system_t<coordT> & coordinate_system,
+        geometry::coordinate_system_t<coordT> & coordinate_system, midnodes_t<D> & midnodes,
         mesh_t<geometry::triangle_t<D>> & subdivided_mesh, int n_refinements) -> void
     {
         // compute the middle point of the segment 0->1
-        auto node_01 = midnode(node_0, node_1, coordinate_system);
+        auto node_01 = midnode(node_0, node_1, coordinate_system, midnodes);
 
         // compute the middle point of the segment 1->2
-        auto node_12 = midnode(node_1, node_2, coordinate_system);
+        auto node_12 = midnode(node_1, node_2, coordinate_system, midnodes);
 
         // compute the middle point of the segment 2->0
-        auto node_20 = midnode(node_2, node_0, coordinate_system);
+        auto node_20 = midnode(node_2, node_0, coordinate_system, midnodes);
 
         // if there are no more refinements to be made
         if (n_refinements == 1) {
@@ -80,10 +101,18 @@ namespace mito::mesh {
         }
 
         // otherwise recursively subdivide the four cells
-        subdivide(node_0, node_01, node_20, coordinate_system, subdivided_mesh, n_refinements - 1);
-        subdivide(node_01, node_1, node_12, coordinate_system, subdivided_mesh, n_refinements - 1);
-        subdivide(node_12, node_2, node_20, coordinate_system, subdivided_mesh, n_refinements - 1);
-        subdivide(node_20, node_01, node_12, coordinate_system, subdivided_mesh, n_refinements - 1);
+        subdivide(
+            node_0, node_01, node_20, coordinate_system, midnodes, subdivided_mesh,
+            n_refinements - 1);
+        subdivide(
+            node_01, node_1, node_12, coordinate_system, midnodes, subdivided_mesh,
+            n_refinements - 1);
+        subdivide(
+            node_12, node_2, node_20, coordinate_system, midnodes, subdivided_mesh,
+            n_refinements - 1);
+        subdivide(
+            node_20, node_01, node_12, coordinate_system, midnodes, subdivided_mesh,
+            n_refinements - 1);
 
         // all done
         return;
@@ -94,26 +123,26 @@ namespace mito::mesh {
     auto subdivide(
         const geometry::node_t<D> & node_0, const geometry::node_t<D> & node_1,
         const geometry::node_t<D> & node_2, const geometry::node_t<D> & node_3,
-        geometry::coordinate_system_t<coordT> & coordinate_system,
+        geometry::coordinate_system_t<coordT> & coordinate_system, midnodes_t<D> & midnodes,
         mesh_t<geometry::tetrahedron_t<D>> & subdivided_mesh, int n_refinements) -> void
     {
         // compute the middle point of the segment 0->1
-        auto node_01 = midnode(node_0, node_1, coordinate_system);
+        auto node_01 = midnode(node_0, node_1, coordinate_system, midnodes);
 
         // compute the middle point of the segment 0->2
-        auto node_02 = midnode(node_0, node_2, coordinate_system);
+        auto node_02 = midnode(node_0, node_2, coordinate_system, midnodes);
 
         // compute the middle point of the segment 0->3
-        auto node_03 = midnode(node_0, node_3, coordinate_system);
+        auto node_03 = midnode(node_0, node_3, coordinate_system, midnodes);
 
         // compute the middle point of the segment 1->2
-        auto node_12 = midnode(node_1, node_2, coordinate_system);
+        auto node_12 = midnode(node_1, node_2, coordinate_system, midnodes);
 
         // compute the middle point of the segment 1->3
-        auto node_13 = midnode(node_1, node_3, coordinate_system);
+        auto node_13 = midnode(node_1, node_3, coordinate_system, midnodes);
 
         // compute the middle point of the segment 2->3
-        auto node_23 = midnode(node_2, node_3, coordinate_system);
+        auto node_23 = midnode(node_2, node_3, coordinate_system, midnodes);
 
         // if there are no more refinements to be made
         if (n_refinements == 1) {
@@ -134,28 +163,28 @@ namespace mito::mesh {
 
         // otherwise recursively subdivide the four cells
         subdivide(
-            node_0, node_01, node_02, node_03, coordinate_system, subdivided_mesh,
+            node_0, node_01, node_02, node_03, coordinate_system, midnodes, subdivided_mesh,
             n_refinements - 1);
         subdivide(
-            node_1, node_01, node_13, node_12, coordinate_system, subdivided_mesh,
+            node_1, node_01, node_13, node_12, coordinate_system, midnodes, subdivided_mesh,
             n_refinements - 1);
         subdivide(
-            node_2, node_02, node_12, node_23, coordinate_system, subdivided_mesh,
+            node_2, node_02, node_12, node_23, coordinate_system, midnodes, subdivided_mesh,
             n_refinements - 1);
         subdivide(
-            node_03, node_3, node_13, node_23, coordinate_system, subdivided_mesh,
+            node_03, node_3, node_13, node_23, coordinate_system, midnodes, subdivided_mesh,
             n_refinements - 1);
         subdivide(
-            node_02, node_01, node_13, node_03, coordinate_system, subdivided_mesh,
+            node_02, node_01, node_13, node_03, coordinate_system, midnodes, subdivided_mesh,
             n_refinements - 1);
         subdivide(
-            node_02, node_03, node_13, node_23, coordinate_system, subdivided_mesh,
+            node_02, node_03, node_13, node_23, coordinate_system, midnodes, subdivided_mesh,
             n_refinements - 1);
         subdivide(
-            node_01, node_02, node_13, node_12, coordinate_system, subdivided_mesh,
+            node_01, node_02, node_13, node_12, coordinate_system, midnodes, subdivided_mesh,
             n_refinements - 1);
         subdivide(
-            node_02, node_23, node_13, node_12, coordinate_system, subdivided_mesh,
+            node_02, node_23, node_13, node_12, coordinate_system, midnodes, subdivided_mesh,
             n_refinements - 1);
 
         // all done
@@ -184,6 +213,9 @@ namespace mito::mesh {
             return subdivided_mesh;
         }
 
+        // the nodes created at the midpoints of the edges
+        midnodes_t<cellT::dim> midnodes;
+
         // loop on the cells of the mesh
         for (const auto & cell : mesh.cells()) {
 
@@ -194,14 +226,15 @@ namespace mito::mesh {
             constexpr auto _subdivide =
                 []<size_t... J>(
                     const auto & nodes, geometry::coordinate_system_t<coordT> & coordinate_system,
-                    mesh_t<cellT> & subdivided_mesh, int n_refinements, std::index_sequence<J...>) {
+                    midnodes_t<cellT::dim> & midnodes, mesh_t<cellT> & subdivided_mesh,
+                    int n_refinements, std::index_sequence<J...>) {
                     return subdivide(
-                        nodes[J]..., coordinate_system, subdivided_mesh, n_refinements);
+                        nodes[J]..., coordinate_system, midnodes, subdivided_mesh, n_refinements);
                 };
 
             // recursively subdivide the cell identified by these vertices
             _subdivide(
-                nodes, coordinate_system, subdivided_mesh, n_refinements,
+                nodes, coordinate_system, midnodes, subdivided_mesh, n_refinements,
                 std::make_index_sequence<cellT::order + 1>{});
         }
 
-- 
2.43.0


From 48306309ad5424723ca3a0580745d0893ed0a47c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:47 +0000
Subject: [PATCH 12/28] fix: the summit reader fails on the files that the
 writer labels with a type of element

The writer ends each cell with its set and, if one was given, the type of
element; the reader took the latter for the type of the next cell. Read the
labels up to the end of the line.
---
 lib/mito/io/summit/reader.h | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/lib/mito/io/summit/reader.h b/lib/mito/io/summit/reader.h
index 137387a..66a9472 100644
--- a/lib/mito/io/summit/reader.h
+++ b/lib/mito/io/summit/reader.h
@@ -94,11 +94,10 @@ namespace mito::io::summit {
             _insert(mesh, index, nodes, std::make_index_sequence<N>{});
         }
 
-        // QUESTION: Can the label be more than one?
-        // read label for cell
+        // read the labels for cell (i.e. the cell set and, if present, the type of element)
         // TOFIX: Ignored for now
-        std::string cell_set_id;
-        fileStream >> cell_set_id;
+        std::string labels;
+        std::getline(fileStream, labels);
 
         // all done
         return;
-- 
2.43.0


From 7e284fa97c19d2ec8445c5ccc6c8f482a42658f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:48 +0000
Subject: [PATCH 13/28] fix: the third cartesian coordinate function evaluates
 the second coordinate

---
 lib/mito/geometry/cartesian/api.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/mito/geometry/cartesian/api.h b/lib/mito/geometry/cartesian/api.h
index 25e4626..94dec70 100644
--- a/lib/mito/geometry/cartesian/api.h
+++ b/lib/mito/geometry/cartesian/api.h
@@ -37,7 +37,7 @@ namespace mito::geometry::cartesian {
     // the function extracting the 2-nd coordinate from a cartesian coordinate set
     template <int D>
     requires(D > 2)
-    constexpr auto x_2 = functions::component<cartesian_coordinates_t<D>, 1>;
+    constexpr auto x_2 = functions::component<cartesian_coordinates_t<D>, 2>;
 
     // the basis for vector fields (e_0)
     template <int D>
-- 
2.43.0


From 7cac4d6f9461f0bf8e8e18a1a13049b474fdc698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:48 +0000
Subject: [PATCH 14/28] fix: the iterators of a point cloud are references to
 temporaries

---
 lib/mito/geometry/PointCloud.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/mito/geometry/PointCloud.h b/lib/mito/geometry/PointCloud.h
index 3d011a5..0af9a69 100644
--- a/lib/mito/geometry/PointCloud.h
+++ b/lib/mito/geometry/PointCloud.h
@@ -47,8 +47,8 @@ namespace mito::geometry {
         }
 
         // support for ranged for loops (wrapping grid)
-        inline auto begin() const -> const auto & { return std::begin(_cloud); }
-        inline auto end() const -> const auto & { return std::end(_cloud); }
+        inline auto begin() const { return std::begin(_cloud); }
+        inline auto end() const { return std::end(_cloud); }
 
         auto size() const noexcept -> int { return std::size(_cloud); }
 
-- 
2.43.0


From 28c26dc5d54a0904dc48fd5032259c0c9786d936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:54 +0000
Subject: [PATCH 15/28] fix: vectors from and to the origin of polar and
 spherical coordinates are NaN

The algebra of coordinates divided by the length of the basis vectors, which
vanishes at the origin and on the polar axis, so that midpoints, barycenters,
distances and refined meshes of cells with a node there were NaN. Use the unit
vectors instead.
---
 lib/mito/geometry/polar/algebra.h     | 19 +++++++--------
 lib/mito/geometry/spherical/algebra.h | 33 ++++++++++++---------------
 2 files changed, 22 insertions(+), 30 deletions(-)

diff --git a/lib/mito/geometry/polar/algebra.h b/lib/mito/geometry/polar/algebra.h
index 1263c3e..ba6389c 100644
--- a/lib/mito/geometry/polar/algebra.h
+++ b/lib/mito/geometry/polar/algebra.h
@@ -18,17 +18,14 @@ namespace mito::geometry {
         const auto & r_A = A[0];
         const auto & theta_A = A[1];
 
-        // evaluate {e_r} and {e_theta} at A
-        const auto e_r = polar::e_r(A);
-        const auto e_theta = polar::e_theta(A);
-
-        // get the radial and hoop component of vector {v}
-        const auto v_r = v * e_r;
-        const auto v_theta = v * e_theta / (e_theta * e_theta);
+        // get the radial and hoop component of vector {v} (along the unit vectors in the directions
+        // of {e_r} and {e_theta}, which are well-defined also if A is the origin)
+        const auto v_r = v * tensor::e_0<2>;
+        const auto v_theta = v * tensor::e_1<2>;
 
         // compute r and theta of point B, which is point A plus vector {v}
-        auto r_B = std::sqrt((r_A + v_r) * (r_A + v_r) + v_theta * r_A * v_theta * r_A);
-        auto theta_B = theta_A + std::atan2(v_theta * r_A, r_A + v_r);
+        auto r_B = std::sqrt((r_A + v_r) * (r_A + v_r) + v_theta * v_theta);
+        auto theta_B = theta_A + std::atan2(v_theta, r_A + v_r);
 
         // all done
         return polar_coordinates_t({ r_B, theta_B });
@@ -45,8 +42,8 @@ namespace mito::geometry {
         const auto & theta_A = A[1];
         const auto & theta_B = B[1];
 
-        return (r_B * std::cos(theta_B - theta_A) - r_A) * polar::e_r(A)
-             + (r_B * std::sin(theta_B - theta_A)) * polar::e_theta(A) / r_A;
+        return (r_B * std::cos(theta_B - theta_A) - r_A) * tensor::e_0<2>
+             + (r_B * std::sin(theta_B - theta_A)) * tensor::e_1<2>;
     }
 }
 
diff --git a/lib/mito/geometry/spherical/algebra.h b/lib/mito/geometry/spherical/algebra.h
index f247a5c..88b740c 100644
--- a/lib/mito/geometry/spherical/algebra.h
+++ b/lib/mito/geometry/spherical/algebra.h
@@ -23,21 +23,16 @@ namespace mito::geometry {
         const auto sin_theta_A = std::sin(theta_A);
         const auto cos_theta_A = std::cos(theta_A);
 
-        // evaluate {e_r}, {e_theta} and {e_phi} at A
-        const auto e_r = spherical::e_r(A);
-        const auto e_theta = spherical::e_theta(A);
-        const auto e_phi = spherical::e_phi(A);
-
-        // get the r, theta and phi components of vector {v}
-        const auto v_r = v * e_r;
-        const auto v_theta = v * e_theta / (e_theta * e_theta);
-        const auto v_phi = v * e_phi / (e_phi * e_phi);
+        // get the r, theta and phi components of vector {v} (along the unit vectors in the directions
+        // of {e_r}, {e_theta} and {e_phi}, which are well-defined also if A is on the polar axis)
+        const auto v_r = v * tensor::e_0<3>;
+        const auto v_theta = v * tensor::e_1<3>;
+        const auto v_phi = v * tensor::e_2<3>;
 
         // compute phi of point B, which is point A plus vector {v}
         const auto phi_B =
             phi_A
-            + std::atan2(
-                v_phi * r_A * sin_theta_A, (r_A + v_r) * sin_theta_A + v_theta * r_A * cos_theta_A);
+            + std::atan2(v_phi, (r_A + v_r) * sin_theta_A + v_theta * cos_theta_A);
 
         // precompute handful variables
         const auto sin_phi_A_B = std::sin(phi_B - phi_A);
@@ -45,9 +40,9 @@ namespace mito::geometry {
 
         // compute theta of point B, which is point A plus vector {v}
         const auto theta_B = std::atan2(
-            v_phi * r_A * sin_theta_A * sin_phi_A_B
-                + (v_theta * r_A * cos_theta_A + (r_A + v_r) * sin_theta_A) * cos_phi_A_B,
-            -v_theta * r_A * sin_theta_A + (r_A + v_r) * cos_theta_A);
+            v_phi * sin_phi_A_B
+                + (v_theta * cos_theta_A + (r_A + v_r) * sin_theta_A) * cos_phi_A_B,
+            -v_theta * sin_theta_A + (r_A + v_r) * cos_theta_A);
 
         // precompute handful variables
         const auto sin_theta_B = std::sin(theta_B);
@@ -56,8 +51,8 @@ namespace mito::geometry {
         // compute r of point B, which is point A plus vector {v}
         const auto r_B =
             (v_r + r_A) * (sin_theta_A * sin_theta_B * cos_phi_A_B + cos_theta_A * cos_theta_B)
-            + v_theta * r_A * (cos_theta_A * sin_theta_B * cos_phi_A_B - sin_theta_A * cos_theta_B)
-            + v_phi * r_A * sin_theta_A * sin_theta_B * sin_phi_A_B;
+            + v_theta * (cos_theta_A * sin_theta_B * cos_phi_A_B - sin_theta_A * cos_theta_B)
+            + v_phi * sin_theta_B * sin_phi_A_B;
 
         // all done
         return spherical_coordinates_t({ r_B, theta_B, phi_B });
@@ -84,10 +79,10 @@ namespace mito::geometry {
         const auto sin_phi_A_B = std::sin(phi_B - phi_A);
 
         return (r_B * (sin_theta_A * sin_theta_B * cos_phi_A_B + cos_theta_A * cos_theta_B) - r_A)
-                 * spherical::e_r(A)
+                 * tensor::e_0<3>
              + r_B * (sin_theta_B * cos_theta_A * cos_phi_A_B - sin_theta_A * cos_theta_B)
-                   * spherical::e_theta(A) / r_A
-             + r_B * sin_theta_B * sin_phi_A_B * spherical::e_phi(A) / (r_A * sin_theta_A);
+                   * tensor::e_1<3>
+             + r_B * sin_theta_B * sin_phi_A_B * tensor::e_2<3>;
     }
 }
 
-- 
2.43.0


From 7b688ed97007ce256b53dd20b3bcc53b3a5ecd72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:54 +0000
Subject: [PATCH 16/28] fix: integrals in polar and spherical coordinates
 evaluate the integrand elsewhere

The parametrization of a cell yields vectors from the origin of the coordinate
system; the integrator took their components for coordinates of the quadrature
points (NaN, before the coordinates were defined at the origin).
---
 lib/mito/quadrature/Integrator.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/mito/quadrature/Integrator.h b/lib/mito/quadrature/Integrator.h
index 8912459..219146e 100644
--- a/lib/mito/quadrature/Integrator.h
+++ b/lib/mito/quadrature/Integrator.h
@@ -39,10 +39,12 @@ namespace mito::quadrature {
             for (const auto & element : _manifold.elements()) {
                 // get element parametrization under the manifold's coordinate system
                 const auto parametrization = element.parametrization(_manifold.coordinate_system());
+                // the origin, where the vectors returned by the parametrization stem from
+                const auto origin = _manifold.coordinate_system().origin();
                 // populate the field with the coordinates of the quadrature points in physical
                 // space
                 _coordinates.insert(
-                    element.simplex(), { parametrization(_quadratureRule.point(q))... });
+                    element.simplex(), { (origin + parametrization(_quadratureRule.point(q)))... });
             }
 
             // all done
-- 
2.43.0


From efbda654ea98475b87de511b699a05b7706c1e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:46 +0000
Subject: [PATCH 17/28] fix: the composition of a composition with a function
 does not compile

---
 lib/mito/functions/function.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/mito/functions/function.h b/lib/mito/functions/function.h
index c0f2f87..2f91f72 100644
--- a/lib/mito/functions/function.h
+++ b/lib/mito/functions/function.h
@@ -514,7 +514,7 @@ namespace mito::functions {
         template <function_c H>
         constexpr auto operator()(const H & f) const
         {
-            return Composition(*this, f);
+            return Composition<Composition<F, G>, H>(*this, f);
         }
 
         // subscript operator: only available if {output_type} is subscriptable
-- 
2.43.0


From ddf0900a3732a94b6ae04602b68c0e27a377c093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:46 +0000
Subject: [PATCH 18/28] fix: the derivative of a linear combination of
 functions of the same type does not compile

---
 lib/mito/functions/derivation_rules.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/mito/functions/derivation_rules.h b/lib/mito/functions/derivation_rules.h
index e535412..d29a59b 100644
--- a/lib/mito/functions/derivation_rules.h
+++ b/lib/mito/functions/derivation_rules.h
@@ -108,8 +108,11 @@ namespace mito::functions {
     constexpr auto derivative(const LinearCombination<T, Funcs...> & f)
     {
         // the derivative of a linear combination is the linear combination of the derivatives
-        return linear_combination(
-            f.coefficients(), derivative<I>(std::get<Funcs>(f.functions()))...);
+        return std::apply(
+            [&](const auto &... funcs) {
+                return linear_combination(f.coefficients(), derivative<I>(funcs)...);
+            },
+            f.functions());
     }
 }
 
-- 
2.43.0


From 20a789f8177745150a0285757e2bfd4b638e69d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:34 +0000
Subject: [PATCH 19/28] fix: the metric equivalent one-form of a vector field
 is scaled wrongly in curvilinear coordinates

---
 lib/mito/geometry/metric_space.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/mito/geometry/metric_space.h b/lib/mito/geometry/metric_space.h
index e6e5343..89c9570 100644
--- a/lib/mito/geometry/metric_space.h
+++ b/lib/mito/geometry/metric_space.h
@@ -88,7 +88,12 @@ namespace mito::geometry {
         const fields::vector_field_c auto & vector)
     {
         // return a one form field that, once evaluated at {x}...
-        return _one_form(vector, g_inv);
+        return functions::function([vector](const coordinates_type & x) {
+            // returns the form pairing {vector(x)} with its argument (as {vector(x)} is expressed in
+            // an orthonormal frame, this is the scalar product)
+            const auto v = vector(x);
+            return tensor::one_form(v);
+        });
     }
 
     template <coordinates_c coordsT>
-- 
2.43.0


From 3a51c4a777d7e8bdfb5d8e1abf6e63874c5db9fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:33 +0000
Subject: [PATCH 20/28] fix: the factory of quadrature fields does not compile

It passed the cells of the mesh as the keys of a field whose keys are simplices.
---
 lib/mito/discrete/factories.h | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/lib/mito/discrete/factories.h b/lib/mito/discrete/factories.h
index 4dffe31..94ae134 100644
--- a/lib/mito/discrete/factories.h
+++ b/lib/mito/discrete/factories.h
@@ -13,10 +13,17 @@ namespace mito::discrete {
     template <class Y, int Q, mesh::mesh_c meshT>
     constexpr auto quadrature_field(const meshT & mesh, std::string name)
     {
-        // build a quadrature field on the cells collected from the mesh
+        // build an empty quadrature field
         // ({Q} quad points per cell)
-        return quadrature_field_t<typename meshT::cell_type::simplex_type, Q, Y>(
-            mesh.cells(), name);
+        auto field = quadrature_field_t<typename meshT::cell_type::simplex_type, Q, Y>(name);
+
+        // populate the field with the simplices of the cells collected from the mesh
+        for (const auto & cell : mesh.cells()) {
+            field.insert(cell.simplex());
+        }
+
+        // all done
+        return field;
     }
 
     // mesh field factory
-- 
2.43.0


From 0949bc0b3a7bdeb7b9a4b2b68f7269d187974a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:33 +0000
Subject: [PATCH 21/28] fix: the H1 norm adds the gradient with respect to the
 parametric coordinates

The gradients of the localized fields are those in the parametric coordinates of each element; the norm takes the
gradient in space, so map them with the inverse of the jacobian.
---
 lib/mito/fem/norms.h | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/lib/mito/fem/norms.h b/lib/mito/fem/norms.h
index 79ea71a..abb8b7d 100644
--- a/lib/mito/fem/norms.h
+++ b/lib/mito/fem/norms.h
@@ -48,6 +48,8 @@ namespace mito::fem {
     {
         // get the element type
         using element_type = typename functionSpaceT::element_type;
+        // the type of the parametric coordinates
+        using parametric_coordinates_type = typename element_type::parametric_coordinates_type;
 
         // initialize the norm
         auto norm = tensor::scalar_t{ 0.0 };
@@ -58,16 +60,20 @@ namespace mito::fem {
             auto u1_local = localize(u1, element);
             // localize {u2} on this element
             auto u2_local = localize(u2, element);
-            // assemble the gradient of the solution field on this element
-            auto u1_local_gradient = fields::gradient(u1_local);
-            // localize the gradient of the exact solution on this element
-            auto u2_local_gradient = fields::gradient(u2_local);
+            // the gradient of the difference with respect to the parametric coordinates
+            auto parametric_gradient = fields::gradient(u1_local) - fields::gradient(u2_local);
+            // the jacobian of the mapping from parametric to physical coordinates
+            auto jacobian = element.jacobian();
+            // assemble the gradient of the difference with respect to the physical coordinates
+            auto gradient = functions::function(
+                [&](const parametric_coordinates_type & xi) -> tensor::vector_t<element_type::dim> {
+                    return parametric_gradient(xi) * tensor::inverse(jacobian(xi));
+                });
+
             // compute the elementary contributions to the H1 norm
             norm += blocks::l2_norm_block<element_type, quadratureRuleT>(u1_local - u2_local)
                         .compute(element)
-                  + blocks::l2_norm_block<element_type, quadratureRuleT>(
-                        u1_local_gradient - u2_local_gradient)
-                        .compute(element);
+                  + blocks::l2_norm_block<element_type, quadratureRuleT>(gradient).compute(element);
         }
 
         // take the square root of the accumulated norm
-- 
2.43.0


From e8009cd20d77e76a6822bece9f1442f565f9a364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:45 +0000
Subject: [PATCH 22/28] fix: negative values of solver options are taken for
 names of options

---
 lib/mito/matrix_solvers/backend/petsc/PETScKrylovSolver.cc | 5 +++--
 lib/mito/matrix_solvers/backend/petsc/externals.h          | 1 +
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/mito/matrix_solvers/backend/petsc/PETScKrylovSolver.cc b/lib/mito/matrix_solvers/backend/petsc/PETScKrylovSolver.cc
index c054596..14b2c02 100644
--- a/lib/mito/matrix_solvers/backend/petsc/PETScKrylovSolver.cc
+++ b/lib/mito/matrix_solvers/backend/petsc/PETScKrylovSolver.cc
@@ -66,9 +66,10 @@ namespace {
         options_vector.push_back(word_string);
 
         // for each word, if the leading character is '-', insert the {prefix} between '-' and the
-        // rest of the word
+        // rest of the word (unless the word is a negative number, i.e. the value of an option)
         for (auto & word : options_vector) {
-            if (word[0] == '-') {
+            if (word[0] == '-' && word[1] != '.'
+                && !std::isdigit(static_cast<unsigned char>(word[1]))) {
                 word.erase(0, 1);
                 word = "-" + prefix + word;
             }
diff --git a/lib/mito/matrix_solvers/backend/petsc/externals.h b/lib/mito/matrix_solvers/backend/petsc/externals.h
index 08ed8f3..dcfff4b 100644
--- a/lib/mito/matrix_solvers/backend/petsc/externals.h
+++ b/lib/mito/matrix_solvers/backend/petsc/externals.h
@@ -11,6 +11,7 @@
 #include <string>
 #include <vector>
 #include <cassert>
+#include <cctype>
 
 // support
 #include "../../../journal.h"
-- 
2.43.0


From 7dcc9169507a7f21b2f32647cd6411a43f053ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:55 +0000
Subject: [PATCH 23/28] fix: cells of a mesh cannot be accessed from python

---
 extensions/mito/mito.cc | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/extensions/mito/mito.cc b/extensions/mito/mito.cc
index 7c15abb..0f30335 100644
--- a/extensions/mito/mito.cc
+++ b/extensions/mito/mito.cc
@@ -113,8 +113,36 @@ PYBIND11_MODULE(mito, m)
 
     // alias for a triangle embedded in 2D
     using cell_2D_t = mito::geometry::triangle_t<2>;
+    // the mito triangle interface
+    mito::py::class_<cell_2D_t>(m, "Triangle2D")
+        // done
+        ;
+
+
     // alias for a mesh of triangles embedded in 2D
     using mesh_triangle_2D_t = mito::mesh::mesh_t<cell_2D_t>;
+    // alias for the cells of a mesh of triangles embedded in 2D
+    using cells_triangle_2D_t = mesh_triangle_2D_t::cells_type;
+    // the mito mesh cells interface
+    mito::py::class_<cells_triangle_2D_t>(m, "Cells2D")
+        // the number of cells
+        .def(
+            "__len__",
+            // the implementation
+            [](const cells_triangle_2D_t & self) { return std::size(self); })
+        // iteration
+        .def(
+            "__iter__",
+            // the implementation
+            [](const cells_triangle_2D_t & self) {
+                return mito::py::make_iterator(self.begin(), self.end());
+            },
+            // the cells must outlive the iterator
+            mito::py::keep_alive<0, 1>())
+        // done
+        ;
+
+
     // the mito Mesh interface
     mito::py::class_<mesh_triangle_2D_t>(m, "SimplicialMesh2D")
         // the default constructor
-- 
2.43.0


From 44847af1f89517dd0459cd5a261f9b61b39d933e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:55 +0000
Subject: [PATCH 24/28] fix: python manifolds and integrators refer to objects
 that may be gone

---
 extensions/mito/mito.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/extensions/mito/mito.cc b/extensions/mito/mito.cc
index 0f30335..1cb8141 100644
--- a/extensions/mito/mito.cc
+++ b/extensions/mito/mito.cc
@@ -176,7 +176,9 @@ PYBIND11_MODULE(mito, m)
                 [](const mesh_triangle_2D_t & mesh, const coordinate_system_2D_t & coord_system) {
                     // create the manifold
                     return mito::manifolds::manifold(mesh, coord_system);
-                }))
+                }),
+            // the mesh and the coordinate system must outlive the manifold
+            mito::py::keep_alive<1, 2>(), mito::py::keep_alive<1, 3>())
         // done
         ;
 
@@ -188,7 +190,9 @@ PYBIND11_MODULE(mito, m)
         // the constructor
         .def(
             // the implementation
-            mito::py::init<const manifold_triangle_2D_t &>())
+            mito::py::init<const manifold_triangle_2D_t &>(),
+            // the manifold must outlive the integrator
+            mito::py::keep_alive<1, 2>())
         // interface
         // integrate a scalar field
         .def(
-- 
2.43.0


From 449ad22d2ee9880c1697958e5167dcdd9d054a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:20 +0000
Subject: [PATCH 25/28] fix: step over erased elements in a loop when iterating
 over segmented containers

Every erased element was skipped by one more level of recursion, so that iterating over a container
with a long run of erased elements overflowed the stack in builds without tail calls.
---
 .../utilities/SegmentedContainerIterator.h     | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/lib/mito/utilities/SegmentedContainerIterator.h b/lib/mito/utilities/SegmentedContainerIterator.h
index ae93f44..0af96ab 100644
--- a/lib/mito/utilities/SegmentedContainerIterator.h
+++ b/lib/mito/utilities/SegmentedContainerIterator.h
@@ -81,18 +81,12 @@ namespace mito::utilities {
         // arithmetic: prefix
         constexpr auto operator++() -> iterator_reference
         {
-            // increment the iterator to the segmented allocator
-            ++_segmented_iterator;
-
-            if (_segmented_iterator.ptr() == std::end(_segmented_iterator)) {
-                return *this;
-            }
-
-            // if you found an invalid element
-            if (!_segmented_iterator->is_valid()) {
-                // move on to the next one
-                return operator++();
-            }
+            // increment the iterator to the segmented allocator, skipping the invalid elements
+            do {
+                ++_segmented_iterator;
+            } while (
+                _segmented_iterator.ptr() != std::end(_segmented_iterator)
+                && !_segmented_iterator->is_valid());
 
             // all done
             return *this;
-- 
2.43.0


From f224545d100b4788602fba06474cab07969fef08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:00 +0000
Subject: [PATCH 26/28] fix: material consistency tests keep the material and
 the tolerances they are made with

They kept references to them, which dangle when the arguments of consistency_test are temporaries.
---
 lib/mito/materials/MaterialConsistencyTest.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/mito/materials/MaterialConsistencyTest.h b/lib/mito/materials/MaterialConsistencyTest.h
index 04f6f3c..30c54c3 100644
--- a/lib/mito/materials/MaterialConsistencyTest.h
+++ b/lib/mito/materials/MaterialConsistencyTest.h
@@ -152,11 +152,11 @@ class mito::materials::MaterialConsistencyTest {
 
   private:
     // the material
-    const material_type & _material;
+    const material_type _material;
     // the perturbation for the numerical derivatives
-    const real & _perturbation;
+    const real _perturbation;
     // the tolerance for passing the test
-    const real & _tolerance;
+    const real _tolerance;
 };
 
 
-- 
2.43.0


From d4a2db11471cc5a317fb69ab264e07e5c11d2d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:04 +0000
Subject: [PATCH 27/28] fix: blocks keep the field or function they are made
 with

They kept a reference, which dangles when the block is made from a temporary.
---
 lib/mito/fem/blocks/L2NormBlock.h     | 2 +-
 lib/mito/fem/blocks/SourceTermBlock.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/mito/fem/blocks/L2NormBlock.h b/lib/mito/fem/blocks/L2NormBlock.h
index 0d0a00f..736db13 100644
--- a/lib/mito/fem/blocks/L2NormBlock.h
+++ b/lib/mito/fem/blocks/L2NormBlock.h
@@ -64,7 +64,7 @@ namespace mito::fem::blocks {
 
       private:
         // the function to compute the L2 norm of
-        const function_type & _function;
+        const function_type _function;
     };
 
 }    // namespace mito
diff --git a/lib/mito/fem/blocks/SourceTermBlock.h b/lib/mito/fem/blocks/SourceTermBlock.h
index ed9ecb8..95bd1db 100644
--- a/lib/mito/fem/blocks/SourceTermBlock.h
+++ b/lib/mito/fem/blocks/SourceTermBlock.h
@@ -74,7 +74,7 @@ namespace mito::fem::blocks {
 
       private:
         // the source term field
-        const source_field_type & _source_field;
+        const source_field_type _source_field;
     };
 
 }    // namespace mito
-- 
2.43.0


From f47115ff789059fb56e1905bb2929d4dc303a1c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:38 +0000
Subject: [PATCH 28/28] fix: contracting a three-form with no vector at all is
 ill-formed

---
 lib/mito/tensor/Form.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib/mito/tensor/Form.h b/lib/mito/tensor/Form.h
index aba0d8b..87f6eea 100644
--- a/lib/mito/tensor/Form.h
+++ b/lib/mito/tensor/Form.h
@@ -41,7 +41,13 @@ namespace mito::tensor {
         constexpr auto operator()(argsT... args) const
         requires(sizeof...(argsT) == P)
         {
-            return _f(args...);
+            // if all the arguments are dummy vectors
+            if constexpr ((std::is_same_v<argsT, dummy_vector> && ...)) {
+                // do not perform contraction
+                return *this;
+            } else {
+                return _f(args...);
+            }
         }
 
       private:
-- 
2.43.0

