From f7a2f28c16deec324cee04583ac50cff829503a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:45 +0000
Subject: [PATCH 01/17] fix: mid-edge node indices of the faces of the
 quadratic rectangular hexahedron

---
 src/Caribou/Geometry/RectangularHexahedron.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/Caribou/Geometry/RectangularHexahedron.h b/src/Caribou/Geometry/RectangularHexahedron.h
index 316d1d0..abcb4ee 100644
--- a/src/Caribou/Geometry/RectangularHexahedron.h
+++ b/src/Caribou/Geometry/RectangularHexahedron.h
@@ -400,12 +400,12 @@ private:
 
     inline auto get_boundary_elements_nodes() const -> const auto & {
         static const std::array<std::array<UNSIGNED_INTEGER_TYPE, 8>, 6> indices = {{
-            {0, 3, 2, 1,  9, 13, 11,  8}, // Face 0
-            {0, 4, 7, 3, 10, 17, 15,  9}, // Face 1
-            {1, 2, 6, 5, 11, 14, 18, 12}, // Face 2
-            {0, 1, 5, 4,  8, 12, 16, 10}, // Face 3
-            {2, 3, 7, 6, 13, 15, 19, 14}, // Face 4
-            {4, 5, 6, 7, 16, 18, 19, 17}  // Face 5
+            {0, 3, 2, 1, 11, 10,  9,  8}, // Face 0
+            {0, 4, 7, 3, 16, 15, 19, 11}, // Face 1
+            {1, 2, 6, 5,  9, 18, 13, 17}, // Face 2
+            {0, 1, 5, 4,  8, 17, 12, 16}, // Face 3
+            {2, 3, 7, 6, 10, 19, 14, 18}, // Face 4
+            {4, 5, 6, 7, 12, 13, 14, 15}  // Face 5
         }};
         return indices;
     }
-- 
2.43.0


From 74010fa8fc47bb31d1819612d738c90b965f0730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:45 +0000
Subject: [PATCH 02/17] fix: number of gauss nodes of the quadratic rectangular
 quad and hexahedron

---
 src/Caribou/Geometry/RectangularHexahedron.h | 2 +-
 src/Caribou/Geometry/RectangularQuad.h       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Caribou/Geometry/RectangularHexahedron.h b/src/Caribou/Geometry/RectangularHexahedron.h
index abcb4ee..650763d 100644
--- a/src/Caribou/Geometry/RectangularHexahedron.h
+++ b/src/Caribou/Geometry/RectangularHexahedron.h
@@ -193,7 +193,7 @@ struct traits<RectangularHexahedron <Quadratic>> {
     static constexpr UNSIGNED_INTEGER_TYPE CanonicalDimension = 3;
     static constexpr UNSIGNED_INTEGER_TYPE Dimension = 3;
     static constexpr INTEGER_TYPE NumberOfNodesAtCompileTime = 20;
-    static constexpr INTEGER_TYPE NumberOfGaussNodesAtCompileTime = 4;
+    static constexpr INTEGER_TYPE NumberOfGaussNodesAtCompileTime = 8;
 
     using BoundaryElementType = RectangularQuad<3, Quadratic>;
     static constexpr INTEGER_TYPE NumberOfBoundaryElementsAtCompileTime = 6;
diff --git a/src/Caribou/Geometry/RectangularQuad.h b/src/Caribou/Geometry/RectangularQuad.h
index 1207b1c..b9611d2 100644
--- a/src/Caribou/Geometry/RectangularQuad.h
+++ b/src/Caribou/Geometry/RectangularQuad.h
@@ -157,7 +157,7 @@ struct traits<RectangularQuad <_Dimension, Quadratic>> {
     static constexpr UNSIGNED_INTEGER_TYPE CanonicalDimension = 2;
     static constexpr UNSIGNED_INTEGER_TYPE Dimension = _Dimension;
     static constexpr INTEGER_TYPE NumberOfNodesAtCompileTime = 8;
-    static constexpr INTEGER_TYPE NumberOfGaussNodesAtCompileTime = 8;
+    static constexpr INTEGER_TYPE NumberOfGaussNodesAtCompileTime = 4;
 
     using BoundaryElementType = Segment<_Dimension, Quadratic>;
     static constexpr INTEGER_TYPE NumberOfBoundaryElementsAtCompileTime = 4;
-- 
2.43.0


From 24636b1e2772b250ea3129367431f5331c751150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:45 +0000
Subject: [PATCH 03/17] fix: BaseHexahedron::frame() could not be instantiated

---
 src/Caribou/Geometry/BaseHexahedron.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Caribou/Geometry/BaseHexahedron.h b/src/Caribou/Geometry/BaseHexahedron.h
index 52c2de5..d1fa0d6 100644
--- a/src/Caribou/Geometry/BaseHexahedron.h
+++ b/src/Caribou/Geometry/BaseHexahedron.h
@@ -80,7 +80,7 @@ struct BaseHexahedron : public Element<Derived> {
      */
     inline auto frame() const -> Matrix<3, 3>
     {
-        return frame(LocalCoordinates::Zeros());
+        return frame(LocalCoordinates::Zero());
     }
 
     /**
-- 
2.43.0


From 4b21bcad09dc75beec19d94ee4b7772fd54fdcdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:45 +0000
Subject: [PATCH 04/17] fix: contains_local on rectangular quads could not be
 instantiated

---
 src/Caribou/Geometry/BaseRectangularQuad.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/Caribou/Geometry/BaseRectangularQuad.h b/src/Caribou/Geometry/BaseRectangularQuad.h
index ef9987e..7a3c531 100644
--- a/src/Caribou/Geometry/BaseRectangularQuad.h
+++ b/src/Caribou/Geometry/BaseRectangularQuad.h
@@ -2,6 +2,7 @@
 
 #include <Caribou/config.h>
 #include <Caribou/constants.h>
+#include <Caribou/macros.h>
 #include <Caribou/Geometry/Element.h>
 #include <Eigen/Core>
 
@@ -92,6 +93,12 @@ private:
     inline auto get_center() const {return p_center;};
     [[nodiscard]]
     inline auto get_number_of_boundary_elements() const -> UNSIGNED_INTEGER_TYPE {return 4;};
+    inline auto get_contains_local(const LocalCoordinates & xi, const FLOATING_POINT_TYPE & eps) const -> bool {
+        const auto & u = xi[0];
+        const auto & v = xi[1];
+        return IN_CLOSED_INTERVAL(-1-eps, u, 1+eps) and
+               IN_CLOSED_INTERVAL(-1-eps, v, 1+eps);
+    }
 
     auto self() -> Derived& { return *static_cast<Derived*>(this); }
     auto self() const -> const Derived& { return *static_cast<const Derived*>(this); }
-- 
2.43.0


From 4a68f232002b1246475fc7ce66db0c2490a88a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:30:40 +0000
Subject: [PATCH 05/17] fix: cells_around returned cells for positions outside
 of the grid

---
 src/Caribou/Topology/Grid/Internal/BaseGrid.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/Caribou/Topology/Grid/Internal/BaseGrid.h b/src/Caribou/Topology/Grid/Internal/BaseGrid.h
index 776b191..ff4356b 100644
--- a/src/Caribou/Topology/Grid/Internal/BaseGrid.h
+++ b/src/Caribou/Topology/Grid/Internal/BaseGrid.h
@@ -153,7 +153,6 @@ struct BaseGrid
         std::vector<CellIndex> cells;
         cells.reserve((unsigned) 1<<Dimension);
 
-        const CellIndex ncells = number_of_cells();
         const VecFloat h = H();
 
         /// Absolute grid coordinates of the point, for example absolute(p) = [3.25, 3.25, 3.25]
@@ -177,9 +176,10 @@ struct BaseGrid
 
         if (close_to_axis.none()) {
             // We are not near any axis, which means we are well inside a cell's boundaries
-            const auto cell_index = Self().cell_index_at(absolute.unaryExpr(CwiseFloor()). template cast<Int>());
-            if (0 <= cell_index and cell_index <= ncells-1) { // Within the boundary of the grid
-                cells.emplace_back(cell_index);
+            const GridCoordinates cell_coordinates = absolute.unaryExpr(CwiseFloor()). template cast<Int>();
+            const GridCoordinates upper_cell = N(). template cast<Int>() - GridCoordinates::Ones();
+            if ((cell_coordinates.array() >= 0).all() and (cell_coordinates.array() <= upper_cell.array()).all()) { // Within the boundary of the grid
+                cells.emplace_back(Self().cell_index_at(cell_coordinates));
             }
         } else {
             const VecFloat d = VecFloat::Constant(0.5);
@@ -194,13 +194,13 @@ struct BaseGrid
                 if (close_to_axis[axis]) {
                     {
                         auto index = static_cast<INTEGER_TYPE>(floor(rounded[axis] - d[axis]));
-                        if (index >= 0) { // Within the boundary of the grid
+                        if (0 <= index and index <= static_cast<INTEGER_TYPE>(n[axis] - 1)) { // Within the boundary of the grid
                             axis_indices[axis].emplace_back(index);
                         }
                     }
                     {
                         auto index = static_cast<INTEGER_TYPE>(floor(rounded[axis] + d[axis]));
-                        if (index <= static_cast<INTEGER_TYPE>(n[axis] - 1)) { // Within the boundary of the grid
+                        if (0 <= index and index <= static_cast<INTEGER_TYPE>(n[axis] - 1)) { // Within the boundary of the grid
                             axis_indices[axis].emplace_back(index);
                         }
                     }
-- 
2.43.0


From 0f4c66e458e2d9ebae0bf8525bf3ac4dd3f1d6d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:10 +0000
Subject: [PATCH 06/17] fix: cells_enclosing ignored the positions outside of
 the grid instead of clipping them

---
 src/Caribou/Topology/Grid/Internal/BaseGrid.h | 29 +++++++++++++++++--
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/src/Caribou/Topology/Grid/Internal/BaseGrid.h b/src/Caribou/Topology/Grid/Internal/BaseGrid.h
index ff4356b..818add9 100644
--- a/src/Caribou/Topology/Grid/Internal/BaseGrid.h
+++ b/src/Caribou/Topology/Grid/Internal/BaseGrid.h
@@ -1,5 +1,7 @@
 #pragma once
 
+#include <algorithm>
+#include <cmath>
 #include <cstddef>
 #include <list>
 #include <array>
@@ -366,9 +368,30 @@ struct BaseGrid
                     return upper_bound;
                 };
 
+        // Tool function that returns the cells around a position. If the position lies outside of the grid, it is
+        // clipped to the grid and the cells (lowest and highest) of the grid that are around it are returned.
+        auto clipped_cells_around =
+                [this, &lower_grid_boundary, &upper_grid_boundary]
+                (const WorldCoordinates & position) -> std::vector<CellIndex>
+                {
+                    std::vector<CellIndex> cells = cells_around(position);
+                    if (cells.empty()) {
+                        const VecFloat absolute = ((position - m_anchor_position).array() / H().array()).matrix();
+                        GridCoordinates lowest, highest;
+                        for (size_t i = 0; i < Dimension; ++i) {
+                            const Float clipped = std::min(std::max(absolute[i], Float(0)), static_cast<Float>(upper_grid_boundary[i] + 1));
+                            lowest[i]  = std::max(static_cast<Int>(std::ceil(clipped)) - 1, lower_grid_boundary[i]);
+                            highest[i] = std::min(static_cast<Int>(std::floor(clipped)), upper_grid_boundary[i]);
+                        }
+                        cells.emplace_back(Self().cell_index_at(lowest));
+                        cells.emplace_back(Self().cell_index_at(highest));
+                    }
+                    return cells;
+                };
+
         // 1. Find the grid coordinates bounding box of the cells that contain each nodes
-        GridCoordinates lower_cell = min_between(cells_around(positions[0]), upper_grid_boundary);
-        GridCoordinates upper_cell = max_between(cells_around(positions[0]), lower_grid_boundary);
+        GridCoordinates lower_cell = min_between(clipped_cells_around(positions[0]), upper_grid_boundary);
+        GridCoordinates upper_cell = max_between(clipped_cells_around(positions[0]), lower_grid_boundary);
 
         // This is used to discard the bbox computation if all points are outside the grid
         bool grid_contains_at_least_one_point = contains(WorldCoordinates(positions[0]));
@@ -378,7 +401,7 @@ struct BaseGrid
             if (not grid_contains_at_least_one_point and contains(WorldCoordinates(positions[i])))
                 grid_contains_at_least_one_point = true;
 
-            const auto coordinates = cells_around(positions[i]);
+            const auto coordinates = clipped_cells_around(positions[i]);
 
             lower_cell = min_between(coordinates, lower_cell);
             upper_cell = max_between(coordinates, upper_cell);
-- 
2.43.0


From 6321148928ca7fdbbc3e573cc5f1911b643df2ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:08:43 +0000
Subject: [PATCH 07/17] fix: Mesh::node returned uninitialised y and z
 components for 1D and 2D meshes

---
 src/Caribou/Topology/Mesh.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Caribou/Topology/Mesh.h b/src/Caribou/Topology/Mesh.h
index 1d40659..c6030b5 100644
--- a/src/Caribou/Topology/Mesh.h
+++ b/src/Caribou/Topology/Mesh.h
@@ -270,7 +270,7 @@ struct EigenNodesHolder<Eigen::Matrix<Scalar_t, Rows, Cols, Options, MaxRows, Ma
         [[nodiscard]]
         inline auto node(const UNSIGNED_INTEGER_TYPE & node_id) const -> Eigen::Vector3d override {
             const auto p = position(node_id);
-            Eigen::Vector3d n;
+            Eigen::Vector3d n = Eigen::Vector3d::Zero();
             n[0] = p[0];
             if constexpr (Dimension > 1) {
                 n[1] = p[1];
-- 
2.43.0


From 40e835d3e0d603011ea348a84fc5240822fae771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:08:43 +0000
Subject: [PATCH 08/17] fix: Mesh::remove_domain and Mesh::remove looped
 forever unless the domain was the first one

---
 src/Caribou/Topology/Mesh.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Caribou/Topology/Mesh.h b/src/Caribou/Topology/Mesh.h
index c6030b5..34f2bf3 100644
--- a/src/Caribou/Topology/Mesh.h
+++ b/src/Caribou/Topology/Mesh.h
@@ -454,7 +454,7 @@ struct EigenNodesHolder<Eigen::Matrix<Scalar_t, Rows, Cols, Options, MaxRows, Ma
          */
         inline auto remove_domain(const std::string & name) -> bool {
             auto it = p_domains.begin();
-            while (it != p_domains.end() and it->first != name);
+            while (it != p_domains.end() and it->first != name) ++it;
             if (it != p_domains.end()) {
                 p_domains.erase(it);
                 return true;
@@ -469,7 +469,7 @@ struct EigenNodesHolder<Eigen::Matrix<Scalar_t, Rows, Cols, Options, MaxRows, Ma
          */
         inline auto remove(const BaseDomain * domain) -> bool {
             auto it = p_domains.begin();
-            while (it != p_domains.end() and it->second.get() != domain);
+            while (it != p_domains.end() and it->second.get() != domain) ++it;
             if (it != p_domains.end()) {
                 p_domains.erase(it);
                 return true;
-- 
2.43.0


From 34fb0b31cf91de6227452ffe17c33a1feeb711fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:08:43 +0000
Subject: [PATCH 09/17] fix: Mesh::positions(std::array) did not compile

---
 src/Caribou/Topology/Mesh.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/Caribou/Topology/Mesh.h b/src/Caribou/Topology/Mesh.h
index 34f2bf3..c5321e8 100644
--- a/src/Caribou/Topology/Mesh.h
+++ b/src/Caribou/Topology/Mesh.h
@@ -529,7 +529,12 @@ struct EigenNodesHolder<Eigen::Matrix<Scalar_t, Rows, Cols, Options, MaxRows, Ma
          */
         template <typename IntegerType, std::size_t N>
         inline auto positions(const std::array<IntegerType, N> & indices) const {
-            return positions<IntegerType, N>(indices.data());
+            Eigen::Matrix<Real, N, Dimension, (Dimension>1?Eigen::RowMajor:Eigen::ColMajor)> positions;
+            for (std::size_t i = 0; i < N; ++i) {
+                caribou_assert(indices[i] < static_cast<IntegerType>(number_of_nodes()));
+                positions.row(i) = p_nodes.node(indices[i]);
+            }
+            return positions;
         }
 
         /*!
-- 
2.43.0


From ea6bdee73ec021568b3f68d0f11e6b705623e1f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:08:43 +0000
Subject: [PATCH 10/17] fix: copies of a Domain kept a dangling mesh pointer
 and the index buffer of the original

---
 src/Caribou/Topology/Domain.h | 9 +++++++--
 src/Caribou/Topology/Mesh.h   | 1 +
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/Caribou/Topology/Domain.h b/src/Caribou/Topology/Domain.h
index fd3948d..583e053 100644
--- a/src/Caribou/Topology/Domain.h
+++ b/src/Caribou/Topology/Domain.h
@@ -97,10 +97,14 @@ namespace caribou::topology {
 
         /*! Copy constructor */
         Domain(const Domain & other) noexcept
-        : DomainStorage<Element>(other), p_buffer(other.p_buffer), p_elements(other.p_elements) {}
+        : DomainStorage<Element>(other), p_mesh(nullptr), p_buffer(other.p_buffer), p_elements(
+            other.p_elements.data() == other.p_buffer.data() ? p_buffer.data() : other.p_elements.data(),
+            other.p_elements.rows(), other.p_elements.cols(),
+            {other.p_elements.outerStride(), other.p_elements.innerStride()}
+        ) {}
 
         /*! Move constructor */
-        Domain(Domain && other) noexcept : p_elements {nullptr, 0, 0} {
+        Domain(Domain && other) noexcept : p_mesh(nullptr), p_elements {nullptr, 0, 0, {0, 1}} {
             swap(*this, other);
         }
 
@@ -243,6 +247,7 @@ namespace caribou::topology {
         {
             // enable ADL
             using std::swap;
+            swap(first.p_mesh, second.p_mesh);
             swap(first.p_buffer, second.p_buffer);
 
             // Map isn't swappable, we need to do it manually using placement new operators
diff --git a/src/Caribou/Topology/Mesh.h b/src/Caribou/Topology/Mesh.h
index c5321e8..71bc6f7 100644
--- a/src/Caribou/Topology/Mesh.h
+++ b/src/Caribou/Topology/Mesh.h
@@ -225,6 +225,7 @@ struct EigenNodesHolder<Eigen::Matrix<Scalar_t, Rows, Cols, Options, MaxRows, Ma
             for (const auto & p : other.p_domains) {
                 const std::string & domain_name = p.first;
                 BaseDomain * cloned_domain_ptr  = p.second->clone();
+                cloned_domain_ptr->attach_to(this);
                 p_domains.emplace_back(domain_name, cloned_domain_ptr);
             }
         }
-- 
2.43.0


From 8d18379db35156a742e7b208caa1dd391ecb5c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:08:43 +0000
Subject: [PATCH 11/17] fix: moving or assigning a Mesh left its domains
 attached to the old mesh

---
 src/Caribou/Topology/BaseDomain.h | 2 +-
 src/Caribou/Topology/Domain.h     | 2 +-
 src/Caribou/Topology/Mesh.h       | 8 ++++++++
 3 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/Caribou/Topology/BaseDomain.h b/src/Caribou/Topology/BaseDomain.h
index eeea1ad..d6ba939 100644
--- a/src/Caribou/Topology/BaseDomain.h
+++ b/src/Caribou/Topology/BaseDomain.h
@@ -48,7 +48,7 @@ namespace caribou::topology {
         [[nodiscard]] virtual BaseDomain * clone() const = 0;
 
         /*!
-         * Attach this Domain to the given Mesh.
+         * Attach this Domain to the given Mesh, or detach it from its current mesh when the given pointer is null.
          */
         virtual void attach_to(const BaseMesh * mesh) = 0;
     };
diff --git a/src/Caribou/Topology/Domain.h b/src/Caribou/Topology/Domain.h
index 583e053..65c4de6 100644
--- a/src/Caribou/Topology/Domain.h
+++ b/src/Caribou/Topology/Domain.h
@@ -234,7 +234,7 @@ namespace caribou::topology {
 
             // There is already a Mesh instance attached to this Domain, and this domain can still be found in the
             // list of domains of the mesh, let's throw an exception
-            if (p_mesh != nullptr)  {
+            if (p_mesh != nullptr and mesh != nullptr)  {
                 throw std::logic_error("Trying to add a domain that is already attached to another Mesh instance.");
             }
 
diff --git a/src/Caribou/Topology/Mesh.h b/src/Caribou/Topology/Mesh.h
index 71bc6f7..ac7e452 100644
--- a/src/Caribou/Topology/Mesh.h
+++ b/src/Caribou/Topology/Mesh.h
@@ -604,6 +604,14 @@ struct EigenNodesHolder<Eigen::Matrix<Scalar_t, Rows, Cols, Options, MaxRows, Ma
 
             swap(first.p_nodes, second.p_nodes);
             swap(first.p_domains, second.p_domains);
+
+            // The domains follow their nodes
+            for (Mesh * mesh : {&first, &second}) {
+                for (auto & d : mesh->p_domains) {
+                    d.second->attach_to(nullptr);
+                    d.second->attach_to(mesh);
+                }
+            }
         }
 
     private:
-- 
2.43.0


From 5790f7504b16662da6ae5a1e9ef14ac7871a5ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:29:30 +0000
Subject: [PATCH 12/17] fix: Domain::element(id, positions) did not compile
 with assertions enabled

---
 src/Caribou/Topology/Domain.h | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/Caribou/Topology/Domain.h b/src/Caribou/Topology/Domain.h
index 65c4de6..06b5ff1 100644
--- a/src/Caribou/Topology/Domain.h
+++ b/src/Caribou/Topology/Domain.h
@@ -299,10 +299,7 @@ namespace caribou::topology {
     template <typename Element, typename NodeIndex>
     template<typename EigenMatrix>
     inline auto Domain<Element, NodeIndex>::element(const UNSIGNED_INTEGER_TYPE & element_id, const Eigen::DenseBase<EigenMatrix> & positions) const -> Element {
-        caribou_assert(element_id < number_of_elements() &&
-                       "Trying to get the element #"+std::to_string(element_id) + ", but the domain only has " +
-                       std::to_string(number_of_elements()) + " elements."
-        );
+        caribou_assert(element_id < number_of_elements() and "Trying to get an element that does not exists.");
 
         using NodeMatrix = typename geometry::Element<Element>::template Matrix<geometry::traits<Element>::NumberOfNodesAtCompileTime, Dimension>;
         NodeMatrix node_positions;
-- 
2.43.0


From 1bc08810a377d366a3470957b5c174f8b806e6ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:29:30 +0000
Subject: [PATCH 13/17] fix: moving a Domain aborted with assertions enabled

---
 src/Caribou/Topology/Domain.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Caribou/Topology/Domain.h b/src/Caribou/Topology/Domain.h
index 06b5ff1..207ea34 100644
--- a/src/Caribou/Topology/Domain.h
+++ b/src/Caribou/Topology/Domain.h
@@ -104,7 +104,9 @@ namespace caribou::topology {
         ) {}
 
         /*! Move constructor */
-        Domain(Domain && other) noexcept : p_mesh(nullptr), p_elements {nullptr, 0, 0, {0, 1}} {
+        Domain(Domain && other) noexcept : p_mesh(nullptr), p_elements {
+            nullptr, 0, ElementsIndices::ColsAtCompileTime == Eigen::Dynamic ? 0 : ElementsIndices::ColsAtCompileTime, {0, 1}
+        } {
             swap(*this, other);
         }
 
-- 
2.43.0


From da940d76c9215d0513b538942469abd1992e8b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:07 +0000
Subject: [PATCH 14/17] fix: TractionForcefield::reset left no nodal forces and
 dropped a constant traction

The vector of nodal forces was emptied, and addForce() and increment_load()
then accessed it out of bounds. A constant traction, applied by init(), was
never applied again.
---
 src/SofaCaribou/Forcefield/TractionForcefield.inl | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/SofaCaribou/Forcefield/TractionForcefield.inl b/src/SofaCaribou/Forcefield/TractionForcefield.inl
index cdb2845..c99afda 100644
--- a/src/SofaCaribou/Forcefield/TractionForcefield.inl
+++ b/src/SofaCaribou/Forcefield/TractionForcefield.inl
@@ -80,9 +80,16 @@ void TractionForcefield<Element>::reset()
 
     sofa::helper::WriteAccessor<Data<VecDeriv>> nodal_forces = d_nodal_forces;
 
+    // Remove the load, but keep one force per node
+    const auto nb_nodes = nodal_forces.size();
     nodal_forces.clear();
+    nodal_forces.resize(nb_nodes);
     d_total_load.setValue(0.);
     m_current_traction = Deriv();
+
+    // A constant traction is applied at once (see init)
+    if (m_traction_is_constant)
+        increment_load(d_traction.getValue());
 }
 
 template <typename Element>
-- 
2.43.0


From 6abff1c523df58c002cac5936e556b83f9cb3a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:51:31 +0000
Subject: [PATCH 15/17] fix: bounding boxes of force fields kept no minimum
 along an axis where the coordinates increase

A coordinate that raised the maximum never lowered the minimum, which was left at the
largest number when the coordinates along an axis increase from node to node.
---
 src/SofaCaribou/Forcefield/CaribouForcefield.inl       | 2 +-
 src/SofaCaribou/Forcefield/HexahedronElasticForce.cpp  | 2 +-
 src/SofaCaribou/Forcefield/TetrahedronElasticForce.cpp | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/SofaCaribou/Forcefield/CaribouForcefield.inl b/src/SofaCaribou/Forcefield/CaribouForcefield.inl
index 2aaeac1..281fa53 100644
--- a/src/SofaCaribou/Forcefield/CaribouForcefield.inl
+++ b/src/SofaCaribou/Forcefield/CaribouForcefield.inl
@@ -119,7 +119,7 @@ void CaribouForcefield<Element>::computeBBox(const sofa::core::ExecParams *, boo
     for (size_t i = 0; i < x.size(); i++) {
         for (int c = 0; c < 3; c++) {
             if (x[i][c] > maxBBox[c]) maxBBox[c] = static_cast<Real>(x[i][c]);
-            else if (x[i][c] < minBBox[c]) minBBox[c] = static_cast<Real>(x[i][c]);
+            if (x[i][c] < minBBox[c]) minBBox[c] = static_cast<Real>(x[i][c]);
         }
     }
 
diff --git a/src/SofaCaribou/Forcefield/HexahedronElasticForce.cpp b/src/SofaCaribou/Forcefield/HexahedronElasticForce.cpp
index 2a3633f..1994295 100644
--- a/src/SofaCaribou/Forcefield/HexahedronElasticForce.cpp
+++ b/src/SofaCaribou/Forcefield/HexahedronElasticForce.cpp
@@ -591,7 +591,7 @@ void HexahedronElasticForce::computeBBox(const sofa::core::ExecParams*, bool onl
         for (int c=0; c<3; c++)
         {
             if (x[i][c] > maxBBox[c]) maxBBox[c] = (Real)x[i][c];
-            else if (x[i][c] < minBBox[c]) minBBox[c] = (Real)x[i][c];
+            if (x[i][c] < minBBox[c]) minBBox[c] = (Real)x[i][c];
         }
     }
 
diff --git a/src/SofaCaribou/Forcefield/TetrahedronElasticForce.cpp b/src/SofaCaribou/Forcefield/TetrahedronElasticForce.cpp
index 8a41dc0..74f36e1 100644
--- a/src/SofaCaribou/Forcefield/TetrahedronElasticForce.cpp
+++ b/src/SofaCaribou/Forcefield/TetrahedronElasticForce.cpp
@@ -363,7 +363,7 @@ void TetrahedronElasticForce::computeBBox(const sofa::core::ExecParams*, bool on
         for (int c=0; c<3; c++)
         {
             if (x[i][c] > maxBBox[c]) maxBBox[c] = (Real)x[i][c];
-            else if (x[i][c] < minBBox[c]) minBBox[c] = (Real)x[i][c];
+            if (x[i][c] < minBBox[c]) minBBox[c] = (Real)x[i][c];
         }
     }
 
-- 
2.43.0


From 38ba1f3f8cf0aabe1ada0efcc5137cb1034fba4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:51:31 +0000
Subject: [PATCH 16/17] fix: bounding boxes of 1D and 2D force fields read past
 the coordinates of the nodes

---
 src/SofaCaribou/Forcefield/CaribouForcefield.inl | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/SofaCaribou/Forcefield/CaribouForcefield.inl b/src/SofaCaribou/Forcefield/CaribouForcefield.inl
index 281fa53..320c070 100644
--- a/src/SofaCaribou/Forcefield/CaribouForcefield.inl
+++ b/src/SofaCaribou/Forcefield/CaribouForcefield.inl
@@ -117,12 +117,18 @@ void CaribouForcefield<Element>::computeBBox(const sofa::core::ExecParams *, boo
     Real maxBBox[3] = {min_real, min_real, min_real};
     Real minBBox[3] = {max_real, max_real, max_real};
     for (size_t i = 0; i < x.size(); i++) {
-        for (int c = 0; c < 3; c++) {
+        for (int c = 0; c < static_cast<int>(Dimension); c++) {
             if (x[i][c] > maxBBox[c]) maxBBox[c] = static_cast<Real>(x[i][c]);
             if (x[i][c] < minBBox[c]) minBBox[c] = static_cast<Real>(x[i][c]);
         }
     }
 
+    // The coordinates have only `Dimension` components: the box is flat along the missing axes
+    for (int c = static_cast<int>(Dimension); c < 3; c++) {
+        minBBox[c] = 0;
+        maxBBox[c] = 0;
+    }
+
     this->f_bbox.setValue(sofa::type::TBoundingBox<Real>(minBBox, maxBBox));
 }
 
-- 
2.43.0


From 540b330fd91cbe549309a4dba1ce13457bae51ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:51:31 +0000
Subject: [PATCH 17/17] fix: clearing rows or columns of a sparse matrix whose
 storage is not compressed

The storage is read as if it were compressed, which it no longer is once an entry has
been inserted by set() or add() after compress().
---
 src/SofaCaribou/Algebra/EigenMatrix.h | 20 +++++---------------
 1 file changed, 5 insertions(+), 15 deletions(-)

diff --git a/src/SofaCaribou/Algebra/EigenMatrix.h b/src/SofaCaribou/Algebra/EigenMatrix.h
index b60bd0c..a277d2a 100644
--- a/src/SofaCaribou/Algebra/EigenMatrix.h
+++ b/src/SofaCaribou/Algebra/EigenMatrix.h
@@ -291,9 +291,7 @@ public:
 
     /** Sets the entire row i to zero */
     inline void clearRow(Index row_id) final {
-        if (not p_initialized) {
-            initialize();
-        }
+        compress(); // The storage is read directly below: it cannot have unused (uncompressed) slots
 
         using StorageIndex = typename EigenType::StorageIndex;
 
@@ -315,9 +313,7 @@ public:
 
     /** Sets the rows from index imin to index imax (inclusively) to zero */
     inline void clearRows(Index imin, Index imax) final {
-        if (not p_initialized) {
-            initialize();
-        }
+        compress(); // The storage is read directly below: it cannot have unused (uncompressed) slots
 
         using StorageIndex = typename EigenType::StorageIndex;
 
@@ -343,9 +339,7 @@ public:
 
     /** Sets the entire columns i to zero */
     inline void clearCol(Index col_id) final {
-        if (not p_initialized) {
-            initialize();
-        }
+        compress(); // The storage is read directly below: it cannot have unused (uncompressed) slots
 
         using StorageIndex = typename EigenType::StorageIndex;
 
@@ -367,9 +361,7 @@ public:
 
     /** Sets the columns from index imin to index imax (inclusively) to zero */
     inline void clearCols(Index imin, Index imax) final {
-        if (not p_initialized) {
-            initialize();
-        }
+        compress(); // The storage is read directly below: it cannot have unused (uncompressed) slots
 
         using StorageIndex = typename EigenType::StorageIndex;
 
@@ -395,9 +387,7 @@ public:
 
     /** Sets the entire row i and column i to zero */
     inline void clearRowCol(Index i) final {
-        if (not p_initialized) {
-            initialize();
-        }
+        compress(); // The storage is read directly below: it cannot have unused (uncompressed) slots
 
         using StorageIndex = typename EigenType::StorageIndex;
 
-- 
2.43.0

