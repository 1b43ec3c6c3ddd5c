From 5415a493af374ce6ae16798a395c3667ea69a7d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:34 +0000
Subject: [PATCH 01/26] fix: apply the spherical projection factor to the
 exterior LLF flux

---
 .../numerical_fluxes/rkdg_swe_LLF_flux.hpp                  | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/problem/SWE/discretization_RKDG/numerical_fluxes/rkdg_swe_LLF_flux.hpp b/source/problem/SWE/discretization_RKDG/numerical_fluxes/rkdg_swe_LLF_flux.hpp
index 9b577c6..619e205 100644
--- a/source/problem/SWE/discretization_RKDG/numerical_fluxes/rkdg_swe_LLF_flux.hpp
+++ b/source/problem/SWE/discretization_RKDG/numerical_fluxes/rkdg_swe_LLF_flux.hpp
@@ -52,9 +52,9 @@ void LLF_flux(const double gravity,
     double uvh_ex = u_ex * q_ex[SWE::Variables::qy];
     double pe_ex  = gravity * (std::pow(q_ex[SWE::Variables::ze], 2) / 2 + q_ex[SWE::Variables::ze] * bath);
 
-    Fn_ex[SWE::Variables::ze] = q_ex[SWE::Variables::qx] * nx + q_ex[SWE::Variables::qy] * ny;
-    Fn_ex[SWE::Variables::qx] = (uuh_ex + pe_ex) * nx + uvh_ex * ny;
-    Fn_ex[SWE::Variables::qy] = uvh_ex * nx + (vvh_ex + pe_ex) * ny;
+    Fn_ex[SWE::Variables::ze] = sp * q_ex[SWE::Variables::qx] * nx + q_ex[SWE::Variables::qy] * ny;
+    Fn_ex[SWE::Variables::qx] = sp * (uuh_ex + pe_ex) * nx + uvh_ex * ny;
+    Fn_ex[SWE::Variables::qy] = sp * uvh_ex * nx + (vvh_ex + pe_ex) * ny;
 
     F_hat = 0.5 * (Fn_in + Fn_ex + max_eigenvalue * (q_in - q_ex));
 }
-- 
2.43.0


From e3d6dde5f3a1265942e65dc61270287a97c2c39e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:43 +0000
Subject: [PATCH 02/26] fix: allow submeshes without distributed boundaries in
 OMPICommunicator

---
 source/communication/ompi_communicator.cpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/source/communication/ompi_communicator.cpp b/source/communication/ompi_communicator.cpp
index 4f0ba95..261e5db 100644
--- a/source/communication/ompi_communicator.cpp
+++ b/source/communication/ompi_communicator.cpp
@@ -19,6 +19,10 @@ OMPICommunicator::OMPICommunicator(const DistributedBoundaryMetaData& db_data) {
 }
 
 void OMPICommunicator::InitializeCommunication() {
+    if (this->rank_boundaries.empty()) {
+        return;
+    }
+
     uint ncomm   = this->rank_boundaries.begin()->send_buffer.size();
     uint nrbound = this->rank_boundaries.size();
 
@@ -59,18 +63,34 @@ void OMPICommunicator::InitializeCommunication() {
 }
 
 void OMPICommunicator::SendAll(const uint comm_type, const uint timestamp) {
+    if (this->rank_boundaries.empty()) {
+        return;
+    }
+
     MPI_Startall(this->send_requests[comm_type].size(), &this->send_requests[comm_type].front());
 }
 
 void OMPICommunicator::ReceiveAll(const uint comm_type, const uint timestamp) {
+    if (this->rank_boundaries.empty()) {
+        return;
+    }
+
     MPI_Startall(this->receive_requests[comm_type].size(), &this->receive_requests[comm_type].front());
 }
 
 void OMPICommunicator::WaitAllSends(const uint comm_type, const uint timestamp) {
+    if (this->rank_boundaries.empty()) {
+        return;
+    }
+
     MPI_Waitall(this->send_requests[comm_type].size(), &this->send_requests[comm_type].front(), MPI_STATUSES_IGNORE);
 }
 
 void OMPICommunicator::WaitAllReceives(const uint comm_type, const uint timestamp) {
+    if (this->rank_boundaries.empty()) {
+        return;
+    }
+
     MPI_Waitall(
         this->receive_requests[comm_type].size(), &this->receive_requests[comm_type].front(), MPI_STATUSES_IGNORE);
 }
\ No newline at end of file
-- 
2.43.0


From 1d61e7af559a312d4415cd4636a34323dcfcccf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:21 +0000
Subject: [PATCH 03/26] fix: evaluate Runge-Kutta stage times from all stage
 coefficients

---
 source/simulation/stepper/explicit_ssp_rk_stepper.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/simulation/stepper/explicit_ssp_rk_stepper.cpp b/source/simulation/stepper/explicit_ssp_rk_stepper.cpp
index f6b8872..f796085 100644
--- a/source/simulation/stepper/explicit_ssp_rk_stepper.cpp
+++ b/source/simulation/stepper/explicit_ssp_rk_stepper.cpp
@@ -260,10 +260,10 @@ void ESSPRKStepper::InitializeCoefficients() {
     // Compute the time dependent parameters
 
     for (uint i = 0; i < this->nstages; ++i) {
-        for (uint k = 0; k < i; ++k) {
+        for (uint k = 0; k <= i; ++k) {
             double casum = 0.;
-            for (uint l = k + 1; l < i; ++l) {
-                casum += this->crk.at(l).at(k) * this->ark.at(i).at(l);
+            for (uint l = k + 1; l <= i; ++l) {
+                casum += this->crk.at(l - 1).at(k) * this->ark.at(i).at(l);
             }
             this->crk.at(i).at(k) = this->brk.at(i).at(k) + casum;
         }
-- 
2.43.0


From 1d8ce1b037d691bfdaf9217bc054a71cf21d079a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:34 +0000
Subject: [PATCH 04/26] fix: no volume flux through closed boundaries in
 spherical coordinates

---
 .../boundary_conditions/rkdg_swe_bc_land.hpp  | 41 ++++++++-----------
 .../rkdg_swe_dbc_distributed_levee.hpp        |  6 ++-
 .../rkdg_swe_is_levee.hpp                     |  7 +++-
 3 files changed, 25 insertions(+), 29 deletions(-)

diff --git a/source/problem/SWE/discretization_RKDG/boundary_conditions/rkdg_swe_bc_land.hpp b/source/problem/SWE/discretization_RKDG/boundary_conditions/rkdg_swe_bc_land.hpp
index 8bce928..ef38d36 100644
--- a/source/problem/SWE/discretization_RKDG/boundary_conditions/rkdg_swe_bc_land.hpp
+++ b/source/problem/SWE/discretization_RKDG/boundary_conditions/rkdg_swe_bc_land.hpp
@@ -24,6 +24,7 @@ class Land {
 
     void GetEX(const Column<HybMatrix<double, SWE::n_dimensions>>& surface_normal,
                const Column<HybMatrix<double, SWE::n_variables>>& q_in,
+               const Column<HybMatrix<double, SWE::n_auxiliaries>>& aux_in,
                Column<HybMatrix<double, SWE::n_variables>>&& q_ex);
 };
 
@@ -41,19 +42,12 @@ template <typename StepperType, typename BoundaryType>
 void Land::ComputeFlux(const StepperType& stepper, BoundaryType& bound) {
     auto& boundary = bound.data.boundary[bound.bound_id];
 
-    auto n_x = row(bound.surface_normal, GlobalCoord::x);
-    auto n_y = row(bound.surface_normal, GlobalCoord::y);
-    auto t_x = -n_y;
-    auto t_y = n_x;
-
-    auto qn_ex = -(vec_cw_mult(row(boundary.q_at_gp, SWE::Variables::qx), n_x) +
-                   vec_cw_mult(row(boundary.q_at_gp, SWE::Variables::qy), n_y));
-    auto qt_ex = vec_cw_mult(row(boundary.q_at_gp, SWE::Variables::qx), t_x) +
-                 vec_cw_mult(row(boundary.q_at_gp, SWE::Variables::qy), t_y);
-
-    row(this->q_ex, SWE::Variables::ze) = row(boundary.q_at_gp, SWE::Variables::ze);
-    row(this->q_ex, SWE::Variables::qx) = vec_cw_mult(qn_ex, n_x) + vec_cw_mult(qt_ex, t_x);
-    row(this->q_ex, SWE::Variables::qy) = vec_cw_mult(qn_ex, n_y) + vec_cw_mult(qt_ex, t_y);
+    for (uint gp = 0; gp < columns(boundary.q_at_gp); ++gp) {
+        this->GetEX(column(bound.surface_normal, gp),
+                    column(boundary.q_at_gp, gp),
+                    column(boundary.aux_at_gp, gp),
+                    column(this->q_ex, gp));
+    }
 
     for (uint gp = 0; gp < columns(boundary.q_at_gp); ++gp) {
         LLF_flux(Global::g,
@@ -70,28 +64,25 @@ void Land::ComputeFlux(const Column<HybMatrix<double, SWE::n_dimensions>>& surfa
                        const Column<HybMatrix<double, SWE::n_auxiliaries>>& aux_in,
                        Column<HybMatrix<double, SWE::n_variables>>&& F_hat) {
     // *** //
-    double n_x = surface_normal[GlobalCoord::x];
-    double n_y = surface_normal[GlobalCoord::y];
-    double t_x = -n_y;
-    double t_y = n_x;
-
-    double qn_ex = -(q_in[SWE::Variables::qx] * n_x + q_in[SWE::Variables::qy] * n_y);
-    double qt_ex = q_in[SWE::Variables::qx] * t_x + q_in[SWE::Variables::qy] * t_y;
-
-    this->q_ex(SWE::Variables::ze, 0) = q_in[SWE::Variables::ze];
-    this->q_ex(SWE::Variables::qx, 0) = qn_ex * n_x + qt_ex * t_x;
-    this->q_ex(SWE::Variables::qy, 0) = qn_ex * n_y + qt_ex * t_y;
+    this->GetEX(surface_normal, q_in, aux_in, column(this->q_ex, 0));
 
     LLF_flux(Global::g, q_in, column(this->q_ex, 0), aux_in, surface_normal, std::move(F_hat));
 }
 
 void Land::GetEX(const Column<HybMatrix<double, SWE::n_dimensions>>& surface_normal,
                  const Column<HybMatrix<double, SWE::n_variables>>& q_in,
+                 const Column<HybMatrix<double, SWE::n_auxiliaries>>& aux_in,
                  Column<HybMatrix<double, SWE::n_variables>>&& q_ex) {
     double n_x, n_y, t_x, t_y, qn_in, qt_in, qn_ex, qt_ex;
 
-    n_x = surface_normal[GlobalCoord::x];
+    // mass flux through the boundary is sp * qx * nx + qy * ny, reflect about the direction it is measured in
+    n_x = aux_in[SWE::Auxiliaries::sp] * surface_normal[GlobalCoord::x];
     n_y = surface_normal[GlobalCoord::y];
+
+    double n_norm = std::hypot(n_x, n_y);
+
+    n_x /= n_norm;
+    n_y /= n_norm;
     t_x = -n_y;
     t_y = n_x;
 
diff --git a/source/problem/SWE/discretization_RKDG/dist_boundary_conditions/rkdg_swe_dbc_distributed_levee.hpp b/source/problem/SWE/discretization_RKDG/dist_boundary_conditions/rkdg_swe_dbc_distributed_levee.hpp
index 2ed7e4b..ebc3d6d 100644
--- a/source/problem/SWE/discretization_RKDG/dist_boundary_conditions/rkdg_swe_dbc_distributed_levee.hpp
+++ b/source/problem/SWE/discretization_RKDG/dist_boundary_conditions/rkdg_swe_dbc_distributed_levee.hpp
@@ -100,8 +100,10 @@ void DistributedLevee::ComputeFlux(DistributedBoundaryType& dbound) {
             std::abs(h_above_levee_in - h_above_levee_ex) <= H_tolerance) {          // equal within tolerance
 
             // reflective boundary
-            this->land_boundary.GetEX(
-                column(dbound.surface_normal, gp), column(boundary.q_at_gp, gp), column(this->q_ex, gp));
+            this->land_boundary.GetEX(column(dbound.surface_normal, gp),
+                                      column(boundary.q_at_gp, gp),
+                                      column(boundary.aux_at_gp, gp),
+                                      column(this->q_ex, gp));
         } else if (h_above_levee_in > h_above_levee_ex) {  // overtopping from in to ex
             double n_x, n_y, t_x, t_y, qn_in, qt_in;
 
diff --git a/source/problem/SWE/discretization_RKDG/interface_specializations/rkdg_swe_is_levee.hpp b/source/problem/SWE/discretization_RKDG/interface_specializations/rkdg_swe_is_levee.hpp
index 3fc8cac..9c4a20f 100644
--- a/source/problem/SWE/discretization_RKDG/interface_specializations/rkdg_swe_is_levee.hpp
+++ b/source/problem/SWE/discretization_RKDG/interface_specializations/rkdg_swe_is_levee.hpp
@@ -90,12 +90,15 @@ void Levee::ComputeFlux(InterfaceType& intface) {
             std::abs(h_above_levee_in - h_above_levee_ex) <= H_tolerance) {          // equal within tolerance
 
             // reflective boundary in
-            this->land_boundary.GetEX(
-                column(intface.surface_normal_in, gp), column(boundary_in.q_at_gp, gp), column(this->q_in_ex, gp));
+            this->land_boundary.GetEX(column(intface.surface_normal_in, gp),
+                                      column(boundary_in.q_at_gp, gp),
+                                      column(boundary_in.aux_at_gp, gp),
+                                      column(this->q_in_ex, gp));
 
             // reflective boundary ex
             this->land_boundary.GetEX(column(intface.surface_normal_ex, gp_ex),
                                       column(boundary_ex.q_at_gp, gp_ex),
+                                      column(boundary_ex.aux_at_gp, gp_ex),
                                       column(this->q_ex_ex, gp_ex));
         } else if (h_above_levee_in > h_above_levee_ex) {  // overtopping from in to ex
             double n_x, n_y, t_x, t_y, qn_in, qt_in;
-- 
2.43.0


From f2fe7a442fe57771558c240478d88d2fcf475f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:34 +0000
Subject: [PATCH 05/26] fix: scale the hydrostatic source by the spherical
 projection factor in RKDG

---
 .../kernels_processor/rkdg_swe_proc_source.hpp             | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/source/problem/SWE/discretization_RKDG/kernels_processor/rkdg_swe_proc_source.hpp b/source/problem/SWE/discretization_RKDG/kernels_processor/rkdg_swe_proc_source.hpp
index ab7dbb2..7c4300a 100644
--- a/source/problem/SWE/discretization_RKDG/kernels_processor/rkdg_swe_proc_source.hpp
+++ b/source/problem/SWE/discretization_RKDG/kernels_processor/rkdg_swe_proc_source.hpp
@@ -13,6 +13,13 @@ void Problem::source_kernel(const ProblemStepperType& stepper, ElementType& elt)
 
         SWE::get_source(stepper.GetTimeAtCurrentStage(), elt);
 
+        // hydrostatic pressure acts on x-momentum through the flux scaled by sp, get_source assumes sp = 1
+        auto ze    = row(internal.q_at_gp, SWE::Variables::ze);
+        auto sp    = row(internal.aux_at_gp, SWE::Auxiliaries::sp);
+        auto db_dx = row(internal.db_at_gp, GlobalCoord::x);
+
+        row(internal.source_at_gp, SWE::Variables::qx) += Global::g * vec_cw_mult(db_dx, vec_cw_mult(sp, ze) - ze);
+
         state.rhs += elt.IntegrationPhi(internal.source_at_gp);
     }
 }
-- 
2.43.0


From fa7e7a12356700ecbd75bce445383a92a0da30d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:34 +0000
Subject: [PATCH 06/26] fix: orient elements listed clockwise when mesh
 connectivity is built

---
 source/preprocessor/mesh_metadata.cpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/source/preprocessor/mesh_metadata.cpp b/source/preprocessor/mesh_metadata.cpp
index 337a1dc..e3e30f1 100644
--- a/source/preprocessor/mesh_metadata.cpp
+++ b/source/preprocessor/mesh_metadata.cpp
@@ -26,6 +26,17 @@ MeshMetaData::MeshMetaData(const AdcircFormat& mesh_file) {
         for (uint i = 0; i < 3; ++i) {
             this->elements.at(ID).node_ID[i] = elt.second[i + 1];
         }
+
+        // element shapes are oriented counterclockwise, the numbering of nodes and faces has to follow them
+        AlignedVector<Point<3>> coordinates = this->get_nodal_coordinates(ID);
+
+        if ((coordinates[1][GlobalCoord::x] - coordinates[0][GlobalCoord::x]) *
+                    (coordinates[2][GlobalCoord::y] - coordinates[0][GlobalCoord::y]) -
+                (coordinates[2][GlobalCoord::x] - coordinates[0][GlobalCoord::x]) *
+                    (coordinates[1][GlobalCoord::y] - coordinates[0][GlobalCoord::y]) <
+            0.0) {
+            std::swap(this->elements.at(ID).node_ID[0], this->elements.at(ID).node_ID[2]);
+        }
     }
 
     // make all edges
@@ -33,7 +44,7 @@ MeshMetaData::MeshMetaData(const AdcircFormat& mesh_file) {
     std::unordered_map<std::uint64_t, std::pair<eltID_faceID, eltID_faceID>> edge_dictionary;
 
     for (const auto& elt : mesh_file.elements) {
-        std::vector<uint> node{elt.second[1], elt.second[2], elt.second[3]};
+        const std::vector<uint>& node = this->elements.at(elt.first).node_ID;
 
         for (uint k = 0; k < 3; ++k) {
             std::uint64_t curr_key = static_cast<std::uint64_t>(std::min(node[(k + 1) % 3], node[(k + 2) % 3])) << 32 |
@@ -66,8 +77,9 @@ MeshMetaData::MeshMetaData(const AdcircFormat& mesh_file) {
             uint elt_id  = edge.second.first.first;
             uint face_id = edge.second.first.second;
 
-            std::array<uint, 2> nodes{mesh_file.elements.at(elt_id)[(face_id + 1) % 3 + 1],
-                                      mesh_file.elements.at(elt_id)[(face_id + 2) % 3 + 1]};
+            const std::vector<uint>& node_ID = this->elements.at(elt_id).node_ID;
+
+            std::array<uint, 2> nodes{node_ID[(face_id + 1) % 3], node_ID[(face_id + 2) % 3]};
 
             this->elements.at(elt_id).neighbor_ID[face_id]   = DEFAULT_ID;
             this->elements.at(elt_id).boundary_type[face_id] = mesh_file.get_ibtype(nodes);
-- 
2.43.0


From a09c965c53a3a05a98394844139847f733318293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:34 +0000
Subject: [PATCH 07/26] fix: integrate the exterior side of an interface with
 its own normal and length

---
 source/geometry/interface.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/source/geometry/interface.hpp b/source/geometry/interface.hpp
index cdfed66..55e4e16 100644
--- a/source/geometry/interface.hpp
+++ b/source/geometry/interface.hpp
@@ -160,12 +160,14 @@ Interface<dimension, IntegrationType, DataType, SpecializationType>::Interface(
     // Compute factors to expand modal values ex
     this->phi_gp_ex = raw_boundary_ex.basis.GetPhi(raw_boundary_ex.p, z_master_ex);
 
-    DynVector<double> surface_J = this->shape_in.GetSurfaceJ(this->bound_id_in, z_master_in);
+    // sides coincide for faces shared by elements, but not for faces connected across a barrier
+    DynVector<double> surface_J    = this->shape_in.GetSurfaceJ(this->bound_id_in, z_master_in);
+    DynVector<double> surface_J_ex = this->shape_ex.GetSurfaceJ(this->bound_id_ex, z_master_ex);
 
     if (surface_J.size() == 1) {  // constant Jacobian
         this->int_fact_in = integration_rule.first * surface_J[0];
 
-        this->int_fact_ex = integration_rule.first * surface_J[0];
+        this->int_fact_ex = integration_rule.first * surface_J_ex[0];
 
         this->int_phi_fact_in = transpose(this->phi_gp_in);
         for (uint dof = 0; dof < this->master_in.ndof; ++dof) {
@@ -177,7 +179,7 @@ Interface<dimension, IntegrationType, DataType, SpecializationType>::Interface(
         this->int_phi_fact_ex = transpose(this->phi_gp_ex);
         for (uint dof = 0; dof < this->master_ex.ndof; ++dof) {
             for (uint gp = 0; gp < ngp; ++gp) {
-                this->int_phi_fact_ex(gp, dof) *= integration_rule.first[gp] * surface_J[0];
+                this->int_phi_fact_ex(gp, dof) *= integration_rule.first[gp] * surface_J_ex[0];
             }
         }
 
@@ -204,6 +206,8 @@ Interface<dimension, IntegrationType, DataType, SpecializationType>::Interface(
         }
 
         StatVector<double, dimension + 1> normal = this->shape_in.GetSurfaceNormal(this->bound_id_in, z_master_in)[0];
+        StatVector<double, dimension + 1> normal_ex =
+            this->shape_ex.GetSurfaceNormal(this->bound_id_ex, z_master_ex)[0];
 
         this->surface_normal_in.resize(dimension + 1, ngp);
         this->surface_normal_ex.resize(dimension + 1, ngp);
@@ -213,7 +217,7 @@ Interface<dimension, IntegrationType, DataType, SpecializationType>::Interface(
             gp_ex = ngp - gp - 1;
 
             column(this->surface_normal_in, gp)    = normal;
-            column(this->surface_normal_ex, gp_ex) = -normal;
+            column(this->surface_normal_ex, gp_ex) = normal_ex;
         }
     }
 
-- 
2.43.0


From abf35aa865e6941bf9e42631df69545f38523f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:34 +0000
Subject: [PATCH 08/26] fix: evaluate the spherical projection factor on each
 side of an interface

---
 .../problem_preprocessor/swe_pre_init_data.hpp | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/source/problem/SWE/problem_preprocessor/swe_pre_init_data.hpp b/source/problem/SWE/problem_preprocessor/swe_pre_init_data.hpp
index 3f3eb00..5bef315 100644
--- a/source/problem/SWE/problem_preprocessor/swe_pre_init_data.hpp
+++ b/source/problem/SWE/problem_preprocessor/swe_pre_init_data.hpp
@@ -66,6 +66,7 @@ void initialize_data_serial(MeshType& mesh, const ProblemSpecificInputType& prob
 
     mesh.CallForEachInterface([&problem_specific_input](auto& intface) {
         auto& shape_in    = intface.GetShapeIN();
+        auto& shape_ex    = intface.GetShapeEX();
         auto& boundary_in = intface.data_in.boundary[intface.bound_id_in];
         auto& boundary_ex = intface.data_ex.boundary[intface.bound_id_ex];
 
@@ -78,19 +79,22 @@ void initialize_data_serial(MeshType& mesh, const ProblemSpecificInputType& prob
             intface.ComputeUgpEX(row(intface.data_ex.state[0].aux, SWE::Auxiliaries::bath));
 
         if (problem_specific_input.spherical_projection.type == SWE::SphericalProjectionType::Enable) {
-            DynRowVector<double> y_node(nnode);
+            DynRowVector<double> y_node_in(nnode);
+            DynRowVector<double> y_node_ex(nnode);
             for (uint node_id = 0; node_id < intface.data_in.get_nnode(); ++node_id) {
-                y_node[node_id] = shape_in.nodal_coordinates[node_id][GlobalCoord::y];
+                y_node_in[node_id] = shape_in.nodal_coordinates[node_id][GlobalCoord::y];
+                y_node_ex[node_id] = shape_ex.nodal_coordinates[node_id][GlobalCoord::y];
             }
-            DynRowVector<double> y_at_gp(ngp);
-            y_at_gp = intface.ComputeNodalUgpIN(y_node);
+            DynRowVector<double> y_at_gp_in(ngp);
+            y_at_gp_in = intface.ComputeNodalUgpIN(y_node_in);
+            DynRowVector<double> y_at_gp_ex(ngp);
+            y_at_gp_ex = intface.ComputeNodalUgpEX(y_node_ex);
 
             const double cos_phi_o = std::cos(problem_specific_input.spherical_projection.latitude_o * PI / 180.0);
             const double R         = problem_specific_input.spherical_projection.R;
             for (uint gp = 0; gp < ngp; ++gp) {
-                const uint gp_ex                                   = ngp - gp - 1;
-                boundary_in.aux_at_gp(SWE::Auxiliaries::sp, gp)    = cos_phi_o / std::cos(y_at_gp[gp] / R);
-                boundary_ex.aux_at_gp(SWE::Auxiliaries::sp, gp_ex) = cos_phi_o / std::cos(y_at_gp[gp] / R);
+                boundary_in.aux_at_gp(SWE::Auxiliaries::sp, gp) = cos_phi_o / std::cos(y_at_gp_in[gp] / R);
+                boundary_ex.aux_at_gp(SWE::Auxiliaries::sp, gp) = cos_phi_o / std::cos(y_at_gp_ex[gp] / R);
             }
         } else {
             for (uint gp = 0; gp < ngp; ++gp) {
-- 
2.43.0


From b15f3b6dbc4e99fbb576159b63ea314ade0b8fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:34 +0000
Subject: [PATCH 09/26] fix: skip open EHDG boundaries of dry elements, start
 their trace from the interior

---
 .../boundary_conditions/compute_bc_trace.hpp                  | 3 +++
 .../kernels_processor/ehdg_swe_proc_ompi_step.hpp             | 4 +++-
 .../kernels_processor/ehdg_swe_proc_serial_step.hpp           | 4 +++-
 3 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/source/problem/SWE/discretization_EHDG/boundary_conditions/compute_bc_trace.hpp b/source/problem/SWE/discretization_EHDG/boundary_conditions/compute_bc_trace.hpp
index 7e106ad..685452e 100644
--- a/source/problem/SWE/discretization_EHDG/boundary_conditions/compute_bc_trace.hpp
+++ b/source/problem/SWE/discretization_EHDG/boundary_conditions/compute_bc_trace.hpp
@@ -14,6 +14,9 @@ void compute_bc_trace(EdgeBoundaryType& edge_bound) {
     auto& aux_hat_at_gp  = edge_internal.aux_hat_at_gp;
     auto& surface_normal = edge_bound.boundary.surface_normal;
 
+    // start from the interior state, the previous trace may be undefined or lie in a dry region
+    edge_state.q_hat = edge_bound.L2Projection(boundary.q_at_gp);
+
     uint iter = 0;
     while (iter != 100) {
         edge_internal.q_hat_at_gp = edge_bound.ComputeUgp(edge_state.q_hat);
diff --git a/source/problem/SWE/discretization_EHDG/kernels_processor/ehdg_swe_proc_ompi_step.hpp b/source/problem/SWE/discretization_EHDG/kernels_processor/ehdg_swe_proc_ompi_step.hpp
index 22fe33c..f5bfc2c 100644
--- a/source/problem/SWE/discretization_EHDG/kernels_processor/ehdg_swe_proc_ompi_step.hpp
+++ b/source/problem/SWE/discretization_EHDG/kernels_processor/ehdg_swe_proc_ompi_step.hpp
@@ -66,7 +66,9 @@ void Problem::stage_ompi(std::vector<std::unique_ptr<OMPISimUnitType<ProblemType
             [](auto& edge_int) { edge_int.interface.specialization.ComputeNumericalFlux(edge_int); });
 
         sim_units[su_id]->discretization.mesh_skeleton.CallForEachEdgeBoundary([&stepper](auto& edge_bound) {
-            edge_bound.boundary.boundary_condition.ComputeNumericalFlux(stepper, edge_bound);
+            if (edge_bound.boundary.data.wet_dry_state.wet) {
+                edge_bound.boundary.boundary_condition.ComputeNumericalFlux(stepper, edge_bound);
+            }
         });
 
         /* Global Pre Receive Step */
diff --git a/source/problem/SWE/discretization_EHDG/kernels_processor/ehdg_swe_proc_serial_step.hpp b/source/problem/SWE/discretization_EHDG/kernels_processor/ehdg_swe_proc_serial_step.hpp
index 724fc4b..5b446a8 100644
--- a/source/problem/SWE/discretization_EHDG/kernels_processor/ehdg_swe_proc_serial_step.hpp
+++ b/source/problem/SWE/discretization_EHDG/kernels_processor/ehdg_swe_proc_serial_step.hpp
@@ -39,7 +39,9 @@ void Problem::stage_serial(HDGDiscretization<ProblemType>& discretization,
         [](auto& edge_int) { edge_int.interface.specialization.ComputeNumericalFlux(edge_int); });
 
     discretization.mesh_skeleton.CallForEachEdgeBoundary([&stepper](auto& edge_bound) {
-        edge_bound.boundary.boundary_condition.ComputeNumericalFlux(stepper, edge_bound);
+        if (edge_bound.boundary.data.wet_dry_state.wet) {
+            edge_bound.boundary.boundary_condition.ComputeNumericalFlux(stepper, edge_bound);
+        }
     });
     /* Global Step */
 
-- 
2.43.0


From 92cc32a8c3f4891e0f1b071ffd85351f67194e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:46 +0000
Subject: [PATCH 10/26] fix: use the own depth for walls between wet and dry
 EHDG elements

---
 .../dist_boundary_conditions/ehdg_swe_dbc_distributed.hpp  | 4 +++-
 .../interface_specializations/ehdg_swe_is_internal.hpp     | 7 ++++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/source/problem/SWE/discretization_EHDG/dist_boundary_conditions/ehdg_swe_dbc_distributed.hpp b/source/problem/SWE/discretization_EHDG/dist_boundary_conditions/ehdg_swe_dbc_distributed.hpp
index a366bf4..fbc06e7 100644
--- a/source/problem/SWE/discretization_EHDG/dist_boundary_conditions/ehdg_swe_dbc_distributed.hpp
+++ b/source/problem/SWE/discretization_EHDG/dist_boundary_conditions/ehdg_swe_dbc_distributed.hpp
@@ -102,7 +102,9 @@ void Distributed::ComputeNumericalFlux(EdgeDistributedType& edge_dbound) {
             } else if (boundary.F_hat_at_gp(Variables::ze, gp) < -1e-12) {
                 if (!wet_ex) {  // water flowing from dry EX element
                     // Reflective Boundary on IN element side
-
+                    edge_internal.aux_hat_at_gp(SWE::Auxiliaries::h, gp) =
+                        boundary.q_at_gp(SWE::Variables::ze, gp) +
+                        edge_internal.aux_hat_at_gp(SWE::Auxiliaries::bath, gp);
                     this->land_boundary.ComputeFlux(column(edge_dbound.boundary.surface_normal, gp),
                                                     column(boundary.q_at_gp, gp),
                                                     column(edge_internal.aux_hat_at_gp, gp),
diff --git a/source/problem/SWE/discretization_EHDG/interface_specializations/ehdg_swe_is_internal.hpp b/source/problem/SWE/discretization_EHDG/interface_specializations/ehdg_swe_is_internal.hpp
index 13bc156..295c2f7 100644
--- a/source/problem/SWE/discretization_EHDG/interface_specializations/ehdg_swe_is_internal.hpp
+++ b/source/problem/SWE/discretization_EHDG/interface_specializations/ehdg_swe_is_internal.hpp
@@ -82,6 +82,9 @@ void Internal::ComputeNumericalFlux(EdgeInterfaceType& edge_int) {
                     set_constant(column(boundary_in.F_hat_at_gp, gp), 0.0);
 
                     // Reflective Boundary on EX element side
+                    edge_internal.aux_hat_at_gp(SWE::Auxiliaries::h, gp) =
+                        boundary_ex.q_at_gp(SWE::Variables::ze, gp_ex) +
+                        edge_internal.aux_hat_at_gp(SWE::Auxiliaries::bath, gp);
                     this->land_boundary.ComputeFlux(column(edge_int.interface.surface_normal_ex, gp_ex),
                                                     column(boundary_ex.q_at_gp, gp_ex),
                                                     column(edge_internal.aux_hat_at_gp, gp),
@@ -115,7 +118,9 @@ void Internal::ComputeNumericalFlux(EdgeInterfaceType& edge_int) {
                     set_constant(column(boundary_ex.F_hat_at_gp, gp_ex), 0.0);
 
                     // Reflective Boundary on IN element side
-
+                    edge_internal.aux_hat_at_gp(SWE::Auxiliaries::h, gp) =
+                        boundary_in.q_at_gp(SWE::Variables::ze, gp) +
+                        edge_internal.aux_hat_at_gp(SWE::Auxiliaries::bath, gp);
                     this->land_boundary.ComputeFlux(column(edge_int.interface.surface_normal_in, gp),
                                                     column(boundary_in.q_at_gp, gp),
                                                     column(edge_internal.aux_hat_at_gp, gp),
-- 
2.43.0


From 41a8276b73d9ddaa17cbf15e2ee53d0882b9de7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:29 +0000
Subject: [PATCH 11/26] fix: treat island boundaries of ADCIRC meshes as land

---
 .../ADCIRC_reader/adcirc_format.cpp           | 20 ++++++++++++++++---
 .../ADCIRC_reader/adcirc_format.hpp           |  5 +++++
 2 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/source/preprocessor/ADCIRC_reader/adcirc_format.cpp b/source/preprocessor/ADCIRC_reader/adcirc_format.cpp
index 0f992dc..f397fe6 100644
--- a/source/preprocessor/ADCIRC_reader/adcirc_format.cpp
+++ b/source/preprocessor/ADCIRC_reader/adcirc_format.cpp
@@ -219,7 +219,7 @@ SWE::BoundaryTypes AdcircFormat::get_ibtype(std::array<uint, 2>& node_pair) cons
     }
 
     for (uint segment_id = 0; segment_id < this->NBOU; ++segment_id) {
-        if (this->IBTYPE[segment_id] % 10 == 0) {
+        if (this->IBTYPE[segment_id] % 10 == 0 || this->IBTYPE[segment_id] % 10 == 1) {
             if (has_edge(this->NBVV[segment_id].cbegin(), this->NBVV[segment_id].cend(), node_pair)) {
                 return SWE::BoundaryTypes::land;
             }
@@ -249,7 +249,7 @@ SWE::BoundaryTypes AdcircFormat::get_ibtype(std::array<uint, 2>& node_pair) cons
         }
     }
 
-    if (is_levee_end(node_pair)) {
+    if (is_levee_end(node_pair) || is_island_closure(node_pair)) {
         return SWE::BoundaryTypes::land;
     }
 
@@ -351,4 +351,18 @@ bool AdcircFormat::is_levee_end(const std::array<uint, 2>& node_pair) const {
     }
 
     return false;
-}
\ No newline at end of file
+}
+
+bool AdcircFormat::is_island_closure(const std::array<uint, 2>& node_pair) const {
+    for (uint segment_id = 0; segment_id < this->NBOU; ++segment_id) {
+        if (this->IBTYPE[segment_id] % 10 == 1) {
+            const std::array<uint, 2> closure{this->NBVV[segment_id].back(), this->NBVV[segment_id].front()};
+
+            if (std::is_permutation(closure.cbegin(), closure.cend(), node_pair.cbegin())) {
+                return true;
+            }
+        }
+    }
+
+    return false;
+}
diff --git a/source/preprocessor/ADCIRC_reader/adcirc_format.hpp b/source/preprocessor/ADCIRC_reader/adcirc_format.hpp
index 6f2fc79..474c02c 100644
--- a/source/preprocessor/ADCIRC_reader/adcirc_format.hpp
+++ b/source/preprocessor/ADCIRC_reader/adcirc_format.hpp
@@ -49,6 +49,11 @@ struct AdcircFormat {
      * check whether the edge node_pair corresponds to an end of a levee
      */
     bool is_levee_end(const std::array<uint, 2>& node_pair) const;
+
+    /**
+     * check whether the edge node_pair closes an island whose first node is not listed again at the end
+     */
+    bool is_island_closure(const std::array<uint, 2>& node_pair) const;
 };
 
 #endif
-- 
2.43.0


From 455ffa56ebf79597dcdb6c8cf105c96fc45c385a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:29 +0000
Subject: [PATCH 12/26] fix: no generic boundaries when an ADCIRC mesh file has
 no such section

---
 source/preprocessor/ADCIRC_reader/adcirc_format.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/preprocessor/ADCIRC_reader/adcirc_format.hpp b/source/preprocessor/ADCIRC_reader/adcirc_format.hpp
index 474c02c..2d48b8e 100644
--- a/source/preprocessor/ADCIRC_reader/adcirc_format.hpp
+++ b/source/preprocessor/ADCIRC_reader/adcirc_format.hpp
@@ -28,8 +28,8 @@ struct AdcircFormat {
     std::map<uint, std::vector<double>> BARINCFSB;  // for internal barrier segment k
     std::map<uint, std::vector<double>> BARINCFSP;  // for internal barrier segment k
 
-    uint NGEN;  // number of generic boundaries
-    uint NNGN;  // total number of nodes for generic boundaries
+    uint NGEN = 0;  // number of generic boundaries
+    uint NNGN = 0;  // total number of nodes for generic boundaries
 
     std::vector<std::vector<uint>> NBGN;  // node numbers for a segment of generic boundary
 
-- 
2.43.0


From 1cc1b6b53d3dd83c69e185de0394e1f543e35602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:29 +0000
Subject: [PATCH 13/26] fix: output periods that are multiples of the time step
 are not lengthened by rounding

---
 source/preprocessor/input_parameters.hpp         | 11 ++++++++---
 source/problem/SWE/problem_parser/swe_parser.hpp |  2 +-
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/source/preprocessor/input_parameters.hpp b/source/preprocessor/input_parameters.hpp
index d629893..7013f83 100644
--- a/source/preprocessor/input_parameters.hpp
+++ b/source/preprocessor/input_parameters.hpp
@@ -199,6 +199,11 @@ InputParameters<ProblemInput>::InputParameters(const std::string& input_string)
     if (input_file["output"]) {
         YAML::Node out_node = input_file["output"];
 
+        // a frequency that is a multiple of dt may exceed it by rounding when they are divided
+        auto steps_per_period = [this](double frequency) {
+            return (uint)std::ceil((1.0 - 1.0e-12) * frequency / this->stepper_input.dt);
+        };
+
         if (out_node["path"]) {
             this->writer_input.writing_output = true;
             this->writer_input.output_path    = out_node["path"].as<std::string>();
@@ -227,7 +232,7 @@ InputParameters<ProblemInput>::InputParameters(const std::string& input_string)
                 this->writer_input.writing_vtk_output   = true;
                 this->writer_input.vtk_output_frequency = out_node["vtk"]["frequency"].as<double>();
                 this->writer_input.vtk_output_freq_step =
-                    (uint)std::ceil(this->writer_input.vtk_output_frequency / this->stepper_input.dt);
+                    steps_per_period(this->writer_input.vtk_output_frequency);
             } else {
                 std::string err_msg("Error: VTK YAML node is malformatted\n");
                 throw std::logic_error(err_msg);
@@ -239,7 +244,7 @@ InputParameters<ProblemInput>::InputParameters(const std::string& input_string)
                 this->writer_input.writing_vtu_output   = true;
                 this->writer_input.vtu_output_frequency = out_node["vtu"]["frequency"].as<double>();
                 this->writer_input.vtu_output_freq_step =
-                    (uint)std::ceil(this->writer_input.vtu_output_frequency / this->stepper_input.dt);
+                    steps_per_period(this->writer_input.vtu_output_frequency);
             } else {
                 std::string err_msg("Error: VTU YAML node is malformatted\n");
                 throw std::logic_error(err_msg);
@@ -251,7 +256,7 @@ InputParameters<ProblemInput>::InputParameters(const std::string& input_string)
                 this->writer_input.writing_modal_output   = true;
                 this->writer_input.modal_output_frequency = out_node["modal"]["frequency"].as<double>();
                 this->writer_input.modal_output_freq_step =
-                    (uint)std::ceil(this->writer_input.modal_output_frequency / this->stepper_input.dt);
+                    steps_per_period(this->writer_input.modal_output_frequency);
             } else {
                 std::string err_msg("Error: Modal YAML node is malformatted\n");
                 throw std::logic_error(err_msg);
diff --git a/source/problem/SWE/problem_parser/swe_parser.hpp b/source/problem/SWE/problem_parser/swe_parser.hpp
index 31b6b55..257da5c 100644
--- a/source/problem/SWE/problem_parser/swe_parser.hpp
+++ b/source/problem/SWE/problem_parser/swe_parser.hpp
@@ -39,7 +39,7 @@ Parser::Parser(const InputParameters<ProblemSpecificInputType>& input) {
         this->parsing_input = true;
 
         this->meteo_parse_frequency =
-            (uint)std::ceil(input.problem_input.meteo_forcing.frequency / input.stepper_input.dt);
+            (uint)std::ceil((1.0 - 1.0e-12) * input.problem_input.meteo_forcing.frequency / input.stepper_input.dt);
         this->meteo_data_file = input.problem_input.meteo_forcing.meteo_data_file;
     }
 }
-- 
2.43.0


From 7a08a43794151e2481b80f7d60c397f5863323bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:29 +0000
Subject: [PATCH 14/26] fix: write boundary conditions of generated meshes at
 full precision

---
 mesh_generators/quad_mesh_generator.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mesh_generators/quad_mesh_generator.cpp b/mesh_generators/quad_mesh_generator.cpp
index 3a9dfa7..ffb8f3a 100644
--- a/mesh_generators/quad_mesh_generator.cpp
+++ b/mesh_generators/quad_mesh_generator.cpp
@@ -281,6 +281,8 @@ int main(int argc, const char* argv[]) {
 void WriteBCISFile(const std::string& mesh_name, const std::vector<Boundary>& boundaries) {
     std::ofstream file(std::string{mesh_name + ".bcis"});
 
+    file << std::setprecision(15);
+
     for (const Boundary& boundary : boundaries) {
         if ((boundary.type == SWE::BoundaryTypes::tide) || (boundary.type == SWE::BoundaryTypes::flow)) {
             file << static_cast<int>(boundary.type) << ' ' << boundary.nodes.size() << '\n';
-- 
2.43.0


From c8dd6310d5254d604697ad0c57b0d38c90e7c362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:43 +0000
Subject: [PATCH 15/26] fix: implicit scheme: tide and flow phases are degrees
 in the trace equation too

---
 .../boundary_conditions/ihdg_swe_bc_flow.hpp                  | 4 ++--
 .../boundary_conditions/ihdg_swe_bc_tide.hpp                  | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/problem/SWE/discretization_IHDG/boundary_conditions/ihdg_swe_bc_flow.hpp b/source/problem/SWE/discretization_IHDG/boundary_conditions/ihdg_swe_bc_flow.hpp
index a6455f1..4f36ea7 100644
--- a/source/problem/SWE/discretization_IHDG/boundary_conditions/ihdg_swe_bc_flow.hpp
+++ b/source/problem/SWE/discretization_IHDG/boundary_conditions/ihdg_swe_bc_flow.hpp
@@ -156,8 +156,8 @@ void Flow::ComputeGlobalKernels(const StepperType& stepper, EdgeBoundaryType& ed
     for (uint con = 0; con < this->frequency.size(); ++con) {
         for (uint gp = 0; gp < columns(boundary.q_at_gp); ++gp) {
             this->qn[gp] += stepper.GetRampNext() * this->forcing_fact[con] * this->amplitude_gp[con][gp] *
-                            cos(this->frequency[con] * stepper.GetTimeAtNextStage() + this->equilib_arg[con] -
-                                this->phase_gp[con][gp]);
+                            cos(this->frequency[con] * stepper.GetTimeAtNextStage() +
+                                (this->equilib_arg[con] - this->phase_gp[con][gp]) * PI / 180);
         }
     }
 
diff --git a/source/problem/SWE/discretization_IHDG/boundary_conditions/ihdg_swe_bc_tide.hpp b/source/problem/SWE/discretization_IHDG/boundary_conditions/ihdg_swe_bc_tide.hpp
index 23c7fc5..89c7a82 100644
--- a/source/problem/SWE/discretization_IHDG/boundary_conditions/ihdg_swe_bc_tide.hpp
+++ b/source/problem/SWE/discretization_IHDG/boundary_conditions/ihdg_swe_bc_tide.hpp
@@ -153,7 +153,7 @@ void Tide::ComputeGlobalKernels(const StepperType& stepper, EdgeBoundaryType& ed
             this->q_ex(SWE::Variables::ze, gp) += stepper.GetRampNext() * this->forcing_fact[con] *
                                                   this->amplitude_gp[con][gp] *
                                                   cos(this->frequency[con] * stepper.GetTimeAtNextStage() +
-                                                      this->equilib_arg[con] - this->phase_gp[con][gp]);
+                                                      (this->equilib_arg[con] - this->phase_gp[con][gp]) * PI / 180);
         }
     }
 
-- 
2.43.0


From 3f6c9f2fe06c4270d393e95c5c4622cd8ba2d769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:43 +0000
Subject: [PATCH 16/26] fix: implicit scheme: friction Jacobian in still water
 divided zero by zero

---
 .../kernels_processor/ihdg_swe_proc_source.hpp              | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/source/problem/SWE/discretization_IHDG/kernels_processor/ihdg_swe_proc_source.hpp b/source/problem/SWE/discretization_IHDG/kernels_processor/ihdg_swe_proc_source.hpp
index a999ba1..b87c769 100644
--- a/source/problem/SWE/discretization_IHDG/kernels_processor/ihdg_swe_proc_source.hpp
+++ b/source/problem/SWE/discretization_IHDG/kernels_processor/ihdg_swe_proc_source.hpp
@@ -48,7 +48,11 @@ void Problem::local_source_kernel(const ProblemStepperType& stepper, ElementType
             }
 
             double bottom_friction_stress = Cf * std::hypot(u, v) / internal.aux_at_gp(SWE::Auxiliaries::h, gp);
-            double C                      = Cf / (std::hypot(u, v) * internal.aux_at_gp(SWE::Auxiliaries::h, gp));
+            double C                      = 0.0;  // its products with velocities vanish in still water
+
+            if (std::hypot(u, v) > 0.0) {
+                C = Cf / (std::hypot(u, v) * internal.aux_at_gp(SWE::Auxiliaries::h, gp));
+            }
 
             internal.dsource_dq_at_gp(JacobianVariables::qx_ze, gp) -=
                 -2.0 * bottom_friction_stress * u +
-- 
2.43.0


From 43c75830af043527db3804f8e3818de987b458ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:43 +0000
Subject: [PATCH 17/26] fix: Green-Naghdi: gradient of the depth is that of the
 surface minus that of the bathymetry here

---
 .../kernels_processor/ehdg_gn_proc_source.hpp                 | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/problem/Green-Naghdi/discretization_EHDG/kernels_processor/ehdg_gn_proc_source.hpp b/source/problem/Green-Naghdi/discretization_EHDG/kernels_processor/ehdg_gn_proc_source.hpp
index aa37de5..55a18e3 100644
--- a/source/problem/Green-Naghdi/discretization_EHDG/kernels_processor/ehdg_gn_proc_source.hpp
+++ b/source/problem/Green-Naghdi/discretization_EHDG/kernels_processor/ehdg_gn_proc_source.hpp
@@ -25,8 +25,8 @@ void Problem::local_dc_source_kernel(const ESSPRKStepper& stepper, ElementType&
         const auto zex = elt.ComputeUgp(row(state.dze, GlobalCoord::x));
         const auto zey = elt.ComputeUgp(row(state.dze, GlobalCoord::y));
 
-        const auto hx = zex + bx;
-        const auto hy = zey + by;
+        const auto hx = zex - bx;
+        const auto hy = zey - by;
 
         const auto u = row(internal.u_at_gp, GlobalCoord::x);
         const auto v = row(internal.u_at_gp, GlobalCoord::y);
-- 
2.43.0


From 533241a59e2b01cda2aeb8f589633781e036f870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:43 +0000
Subject: [PATCH 18/26] fix: shock detector took surface elevation and x
 discharge for the discharge

---
 .../SWE/problem_slope_limiter/swe_trouble_check.hpp  | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/source/problem/SWE/problem_slope_limiter/swe_trouble_check.hpp b/source/problem/SWE/problem_slope_limiter/swe_trouble_check.hpp
index 774b1ef..b9b9704 100644
--- a/source/problem/SWE/problem_slope_limiter/swe_trouble_check.hpp
+++ b/source/problem/SWE/problem_slope_limiter/swe_trouble_check.hpp
@@ -27,12 +27,12 @@ void check_trouble(DiscretizationType& discretization, const StepperType& steppe
                 row(boundary_ex.q_at_gp, SWE::Variables::ze) + row(boundary_ex.aux_at_gp, SWE::Auxiliaries::bath);
 
             const auto qn_in =
-                vec_cw_mult(row(intface.surface_normal_in, GlobalCoord::x), row(boundary_in.q_at_gp, GlobalCoord::x)) +
-                vec_cw_mult(row(intface.surface_normal_in, GlobalCoord::y), row(boundary_in.q_at_gp, GlobalCoord::y));
+                vec_cw_mult(row(intface.surface_normal_in, GlobalCoord::x), row(boundary_in.q_at_gp, SWE::Variables::qx)) +
+                vec_cw_mult(row(intface.surface_normal_in, GlobalCoord::y), row(boundary_in.q_at_gp, SWE::Variables::qy));
 
             const auto qn_ex =
-                vec_cw_mult(row(intface.surface_normal_ex, GlobalCoord::x), row(boundary_ex.q_at_gp, GlobalCoord::x)) +
-                vec_cw_mult(row(intface.surface_normal_ex, GlobalCoord::y), row(boundary_ex.q_at_gp, GlobalCoord::y));
+                vec_cw_mult(row(intface.surface_normal_ex, GlobalCoord::x), row(boundary_ex.q_at_gp, SWE::Variables::qx)) +
+                vec_cw_mult(row(intface.surface_normal_ex, GlobalCoord::y), row(boundary_ex.q_at_gp, SWE::Variables::qy));
 
             if (intface.IntegrationIN(qn_in) < 0.0) {
                 const uint ngp                              = intface.data_in.get_ngp_boundary(intface.bound_id_in);
@@ -66,8 +66,8 @@ void check_trouble(DiscretizationType& discretization, const StepperType& steppe
 
         if (dbound.data.wet_dry_state.wet) {
             const auto qn =
-                vec_cw_mult(row(dbound.surface_normal, GlobalCoord::x), row(boundary.q_at_gp, GlobalCoord::x)) +
-                vec_cw_mult(row(dbound.surface_normal, GlobalCoord::y), row(boundary.q_at_gp, GlobalCoord::y));
+                vec_cw_mult(row(dbound.surface_normal, GlobalCoord::x), row(boundary.q_at_gp, SWE::Variables::qx)) +
+                vec_cw_mult(row(dbound.surface_normal, GlobalCoord::y), row(boundary.q_at_gp, SWE::Variables::qy));
 
             if (dbound.Integration(qn) < 0.0) {
                 const uint ngp                       = dbound.data.get_ngp_boundary(dbound.bound_id);
-- 
2.43.0


From 4383b39c4a1128794708dda83e5b6fa740189659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:43 +0000
Subject: [PATCH 19/26] fix: parallel implicit scheme: first element of an
 empty vector on all but one rank

---
 .../kernels_preprocessor/ihdg_swe_pre_ompi.hpp                | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/problem/SWE/discretization_IHDG/kernels_preprocessor/ihdg_swe_pre_ompi.hpp b/source/problem/SWE/discretization_IHDG/kernels_preprocessor/ihdg_swe_pre_ompi.hpp
index 84c6184..03cd2fe 100644
--- a/source/problem/SWE/discretization_IHDG/kernels_preprocessor/ihdg_swe_pre_ompi.hpp
+++ b/source/problem/SWE/discretization_IHDG/kernels_preprocessor/ihdg_swe_pre_ompi.hpp
@@ -74,7 +74,7 @@ void Problem::preprocessor_ompi(std::vector<std::unique_ptr<OMPISimUnitType<Prob
         MPI_Gather(&total_global_dof_offset,
                    1,
                    MPI_UNSIGNED,
-                   &total_global_dof_offsets.front(),
+                   total_global_dof_offsets.data(),
                    1,
                    MPI_UNSIGNED,
                    0,
@@ -98,7 +98,7 @@ void Problem::preprocessor_ompi(std::vector<std::unique_ptr<OMPISimUnitType<Prob
 
         MPI_Bcast(&n_global_dofs, 1, MPI_UNSIGNED, 0, MPI_COMM_WORLD);
 
-        MPI_Scatter(&total_global_dof_offsets.front(),
+        MPI_Scatter(total_global_dof_offsets.data(),
                     1,
                     MPI_UNSIGNED,
                     &total_global_dof_offset,
-- 
2.43.0


From 8a2b8e5c88baf705a02adfdf7b2c9b05d0966f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:06 +0000
Subject: [PATCH 20/26] fix: Green-Naghdi: sides without a wet element have no
 place in the global solution to read back

---
 .../ehdg_gn_proc_ompi_sol_glob_prob.hpp                  | 9 +++++++++
 .../ehdg_gn_proc_serial_sol_glob_prob.hpp                | 6 ++++++
 2 files changed, 15 insertions(+)

diff --git a/source/problem/Green-Naghdi/discretization_EHDG/kernels_processor/ehdg_gn_proc_ompi_sol_glob_prob.hpp b/source/problem/Green-Naghdi/discretization_EHDG/kernels_processor/ehdg_gn_proc_ompi_sol_glob_prob.hpp
index de2db49..71e694d 100644
--- a/source/problem/Green-Naghdi/discretization_EHDG/kernels_processor/ehdg_gn_proc_ompi_sol_glob_prob.hpp
+++ b/source/problem/Green-Naghdi/discretization_EHDG/kernels_processor/ehdg_gn_proc_ompi_sol_glob_prob.hpp
@@ -333,6 +333,9 @@ void Problem::ompi_solve_global_dc_problem(std::vector<std::unique_ptr<OMPISimUn
             auto& boundary_in   = edge_int.interface.data_in.boundary[edge_int.interface.bound_id_in];
             auto& boundary_ex   = edge_int.interface.data_ex.boundary[edge_int.interface.bound_id_ex];
 
+            if (!edge_int.interface.data_in.wet_dry_state.wet && !edge_int.interface.data_ex.wet_dry_state.wet)
+                return;  // not part of the global problem
+
             const uint n_global_dofs = edge_int.edge_data.get_ndof() * GN::n_dimensions;
             const auto w1_hat =
                 subvector(global_data.dc_solution, edge_internal.dc_local_dof_indx * n_global_dofs, n_global_dofs);
@@ -349,6 +352,9 @@ void Problem::ompi_solve_global_dc_problem(std::vector<std::unique_ptr<OMPISimUn
             auto& internal      = edge_bound.boundary.data.internal;
             auto& boundary      = edge_bound.boundary.data.boundary[edge_bound.boundary.bound_id];
 
+            if (!edge_bound.boundary.data.wet_dry_state.wet)
+                return;  // not part of the global problem
+
             const uint n_global_dofs = edge_bound.edge_data.get_ndof() * GN::n_dimensions;
             const auto w1_hat =
                 subvector(global_data.dc_solution, edge_internal.dc_local_dof_indx * n_global_dofs, n_global_dofs);
@@ -362,6 +368,9 @@ void Problem::ompi_solve_global_dc_problem(std::vector<std::unique_ptr<OMPISimUn
             auto& internal      = edge_dbound.boundary.data.internal;
             auto& boundary      = edge_dbound.boundary.data.boundary[edge_dbound.boundary.bound_id];
 
+            if (!edge_dbound.boundary.data.wet_dry_state.wet)
+                return;  // not part of the global problem
+
             const uint n_global_dofs = edge_dbound.edge_data.get_ndof() * GN::n_dimensions;
             const auto w1_hat =
                 subvector(global_data.dc_solution, edge_internal.dc_local_dof_indx * n_global_dofs, n_global_dofs);
diff --git a/source/problem/Green-Naghdi/discretization_EHDG/kernels_processor/ehdg_gn_proc_serial_sol_glob_prob.hpp b/source/problem/Green-Naghdi/discretization_EHDG/kernels_processor/ehdg_gn_proc_serial_sol_glob_prob.hpp
index dd220c1..cda16ae 100644
--- a/source/problem/Green-Naghdi/discretization_EHDG/kernels_processor/ehdg_gn_proc_serial_sol_glob_prob.hpp
+++ b/source/problem/Green-Naghdi/discretization_EHDG/kernels_processor/ehdg_gn_proc_serial_sol_glob_prob.hpp
@@ -191,6 +191,9 @@ void Problem::serial_solve_global_dc_problem(ProblemDiscretizationType& discreti
         auto& boundary_in   = edge_int.interface.data_in.boundary[edge_int.interface.bound_id_in];
         auto& boundary_ex   = edge_int.interface.data_ex.boundary[edge_int.interface.bound_id_ex];
 
+        if (!edge_int.interface.data_in.wet_dry_state.wet && !edge_int.interface.data_ex.wet_dry_state.wet)
+            return;  // not part of the global problem
+
         const uint n_global_dofs = edge_int.edge_data.get_ndof() * GN::n_dimensions;
         const auto w1_hat = subvector(w1_hat_rhs, edge_internal.dc_global_dof_indx * n_global_dofs, n_global_dofs);
         if (edge_int.interface.data_in.wet_dry_state.wet /*&& edge_int.interface.data_in.source.dispersive_correction*/)
@@ -204,6 +207,9 @@ void Problem::serial_solve_global_dc_problem(ProblemDiscretizationType& discreti
         auto& internal      = edge_bound.boundary.data.internal;
         auto& boundary      = edge_bound.boundary.data.boundary[edge_bound.boundary.bound_id];
 
+        if (!edge_bound.boundary.data.wet_dry_state.wet)
+            return;  // not part of the global problem
+
         const uint n_global_dofs = edge_bound.edge_data.get_ndof() * GN::n_dimensions;
         const auto w1_hat = subvector(w1_hat_rhs, edge_internal.dc_global_dof_indx * n_global_dofs, n_global_dofs);
         if (edge_bound.boundary.data.wet_dry_state.wet /*&& edge_bound.boundary.data.source.dispersive_correction*/)
-- 
2.43.0


From 13b66ae95a038fdcf52f41556850b5176a65054f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:06 +0000
Subject: [PATCH 21/26] fix: parallel Green-Naghdi: first element of an empty
 vector on ranks without a share of it

---
 .../kernels_preprocessor/ehdg_gn_pre_ompi.hpp               | 6 +++---
 .../kernels_processor/ehdg_gn_proc_ompi_sol_glob_prob.hpp   | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/source/problem/Green-Naghdi/discretization_EHDG/kernels_preprocessor/ehdg_gn_pre_ompi.hpp b/source/problem/Green-Naghdi/discretization_EHDG/kernels_preprocessor/ehdg_gn_pre_ompi.hpp
index d4598a8..39f36e9 100644
--- a/source/problem/Green-Naghdi/discretization_EHDG/kernels_preprocessor/ehdg_gn_pre_ompi.hpp
+++ b/source/problem/Green-Naghdi/discretization_EHDG/kernels_preprocessor/ehdg_gn_pre_ompi.hpp
@@ -56,7 +56,7 @@ void Problem::preprocessor_ompi(std::vector<std::unique_ptr<OMPISimUnitType>>& s
             dc_global_dof_offsets.resize(n_localities);
         }
         MPI_Gather(
-            &dc_global_dof_offset, 1, MPI_UNSIGNED, &dc_global_dof_offsets.front(), 1, MPI_UNSIGNED, 0, MPI_COMM_WORLD);
+            &dc_global_dof_offset, 1, MPI_UNSIGNED, dc_global_dof_offsets.data(), 1, MPI_UNSIGNED, 0, MPI_COMM_WORLD);
 
         uint n_dc_global_dofs = 0;
         if (locality_id == 0) {
@@ -102,7 +102,7 @@ void Problem::preprocessor_ompi(std::vector<std::unique_ptr<OMPISimUnitType>>& s
             }
         }
         MPI_Scatter(
-            &dc_global_dof_offsets.front(), 1, MPI_UNSIGNED, &dc_global_dof_offset, 1, MPI_UNSIGNED, 0, MPI_COMM_WORLD);
+            dc_global_dof_offsets.data(), 1, MPI_UNSIGNED, &dc_global_dof_offset, 1, MPI_UNSIGNED, 0, MPI_COMM_WORLD);
 
         for (uint su_id = 0; su_id < sim_units.size(); ++su_id) {
             sim_units[su_id]->communicator.ReceiveAll(CommTypes::dc_global_dof_indx, 0);
@@ -130,7 +130,7 @@ void Problem::preprocessor_ompi(std::vector<std::unique_ptr<OMPISimUnitType>>& s
         ISCreateBlock(MPI_COMM_SELF,
                       n_global_dofs,
                       dc_global_dof_indx.size(),
-                      (int*)&dc_global_dof_indx.front(),
+                      (int*)dc_global_dof_indx.data(),
                       PETSC_COPY_VALUES,
                       &(global_data.dc_from));
         ISCreateStride(MPI_COMM_SELF, n_global_dofs * dc_global_dof_indx.size(), 0, 1, &(global_data.dc_to));
diff --git a/source/problem/Green-Naghdi/discretization_EHDG/kernels_processor/ehdg_gn_proc_ompi_sol_glob_prob.hpp b/source/problem/Green-Naghdi/discretization_EHDG/kernels_processor/ehdg_gn_proc_ompi_sol_glob_prob.hpp
index 71e694d..a2f2b38 100644
--- a/source/problem/Green-Naghdi/discretization_EHDG/kernels_processor/ehdg_gn_proc_ompi_sol_glob_prob.hpp
+++ b/source/problem/Green-Naghdi/discretization_EHDG/kernels_processor/ehdg_gn_proc_ompi_sol_glob_prob.hpp
@@ -473,7 +473,7 @@ void Problem::reset_PETSC_solver(std::vector<std::unique_ptr<OMPISimUnitType>>&
         dc_global_dof_offsets.resize(n_localities);
     }
     MPI_Gather(
-        &dc_global_dof_offset, 1, MPI_UNSIGNED, &dc_global_dof_offsets.front(), 1, MPI_UNSIGNED, 0, MPI_COMM_WORLD);
+        &dc_global_dof_offset, 1, MPI_UNSIGNED, dc_global_dof_offsets.data(), 1, MPI_UNSIGNED, 0, MPI_COMM_WORLD);
 
     uint n_dc_global_dofs = 0;
     if (locality_id == 0) {
@@ -513,7 +513,7 @@ void Problem::reset_PETSC_solver(std::vector<std::unique_ptr<OMPISimUnitType>>&
         }
     }
     MPI_Scatter(
-        &dc_global_dof_offsets.front(), 1, MPI_UNSIGNED, &dc_global_dof_offset, 1, MPI_UNSIGNED, 0, MPI_COMM_WORLD);
+        dc_global_dof_offsets.data(), 1, MPI_UNSIGNED, &dc_global_dof_offset, 1, MPI_UNSIGNED, 0, MPI_COMM_WORLD);
 
     for (uint su_id = 0; su_id < sim_units.size(); ++su_id) {
         sim_units[su_id]->communicator.ReceiveAll(CommTypes::dc_global_dof_indx, stepper.GetTimestamp());
@@ -634,7 +634,7 @@ void Problem::reset_PETSC_solver(std::vector<std::unique_ptr<OMPISimUnitType>>&
     ISCreateBlock(MPI_COMM_SELF,
                   n_global_dofs,
                   dc_global_dof_indx.size(),
-                  (int*)&dc_global_dof_indx.front(),
+                  (int*)dc_global_dof_indx.data(),
                   PETSC_COPY_VALUES,
                   &(global_data.dc_from));
     ISCreateStride(MPI_COMM_SELF, n_global_dofs * dc_global_dof_indx.size(), 0, 1, &(global_data.dc_to));
-- 
2.43.0


From 30f969c5ebd760057ad69f845a31eb7f0b753315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:45 +0000
Subject: [PATCH 22/26] fix: weather input of operator splitting schemes
 follows the steps of the run, not those of the split

---
 .../problem/SWE/problem_parser/swe_parser.hpp | 21 ++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/source/problem/SWE/problem_parser/swe_parser.hpp b/source/problem/SWE/problem_parser/swe_parser.hpp
index 257da5c..5a88415 100644
--- a/source/problem/SWE/problem_parser/swe_parser.hpp
+++ b/source/problem/SWE/problem_parser/swe_parser.hpp
@@ -9,6 +9,10 @@ class Parser {
   private:
     bool parsing_input = false;
 
+    // timestep size of the run: meteo data files are numbered by its steps, which for
+    // operator splitting schemes are not the steps of the stepper parsing the input
+    double dt = 0.0;
+
     uint meteo_parse_frequency;
     std::string meteo_data_file;
     std::map<uint, std::map<uint, std::vector<double>>> node_meteo_data_step;
@@ -27,6 +31,11 @@ class Parser {
     void ParseInput(const StepperType& stepper, MeshType& mesh);
 
   private:
+    template <typename StepperType>
+    uint GetRunStep(const StepperType& stepper) const {
+        return (uint)std::floor(stepper.GetStep() * stepper.GetDT() / this->dt + 1.0e-6);
+    }
+
     template <typename StepperType>
     void ParseMeteoInput(const StepperType& stepper);
     template <typename StepperType>
@@ -38,6 +47,8 @@ Parser::Parser(const InputParameters<ProblemSpecificInputType>& input) {
     if (input.problem_input.meteo_forcing.type == MeteoForcingType::Enable) {
         this->parsing_input = true;
 
+        this->dt = input.stepper_input.dt;
+
         this->meteo_parse_frequency =
             (uint)std::ceil((1.0 - 1.0e-12) * input.problem_input.meteo_forcing.frequency / input.stepper_input.dt);
         this->meteo_data_file = input.problem_input.meteo_forcing.meteo_data_file;
@@ -51,7 +62,7 @@ Parser::Parser(const InputParameters<ProblemSpecificInputType>& input, const uin
 template <typename StepperType, typename MeshType>
 void Parser::ParseInput(const StepperType& stepper, MeshType& mesh) {
     if (SWE::SourceTerms::meteo_forcing) {
-        if (stepper.GetStep() % this->meteo_parse_frequency == 0 && stepper.GetStage() == 0) {
+        if (this->GetRunStep(stepper) % this->meteo_parse_frequency == 0 && stepper.GetStage() == 0) {
             this->ParseMeteoInput(stepper);
         }
 
@@ -84,7 +95,7 @@ void Parser::ParseInput(const StepperType& stepper, MeshType& mesh) {
 
 template <typename StepperType>
 void Parser::ParseMeteoInput(const StepperType& stepper) {
-    uint step = stepper.GetStep();
+    uint step = this->GetRunStep(stepper);
 
     if (this->node_meteo_data_step.find(step - this->meteo_parse_frequency) != this->node_meteo_data_step.end()) {
         this->node_meteo_data_step.erase(this->node_meteo_data_step.find(step - this->meteo_parse_frequency));
@@ -144,13 +155,13 @@ void Parser::ParseMeteoInput(const StepperType& stepper) {
 
 template <typename StepperType>
 void Parser::InterpolateMeteoData(const StepperType& stepper) {
-    uint step = stepper.GetStep();
+    uint step = this->GetRunStep(stepper);
 
     uint step_start = step - step % this->meteo_parse_frequency;
     uint step_end   = step_start + this->meteo_parse_frequency;
 
-    double t_start = step_start * stepper.GetDT();
-    double t_end   = step_end * stepper.GetDT();
+    double t_start = step_start * this->dt;
+    double t_end   = step_end * this->dt;
 
     double interp_factor = (stepper.GetTimeAtCurrentStage() - t_start) / (t_end - t_start);
 
-- 
2.43.0


From a7899c2ec58682cb2d526565b5a13581f2d91cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:45 +0000
Subject: [PATCH 23/26] fix: let enabled weather input and Coriolis effect act
 on the momentum

---
 .../problem/SWE/problem_source/swe_source.hpp | 25 ++++++++++++++-----
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/source/problem/SWE/problem_source/swe_source.hpp b/source/problem/SWE/problem_source/swe_source.hpp
index 1205c9a..a4a41ff 100644
--- a/source/problem/SWE/problem_source/swe_source.hpp
+++ b/source/problem/SWE/problem_source/swe_source.hpp
@@ -50,9 +50,22 @@ void get_source(const double t, ElementType& elt) {
         }
     }
 
-    /*if (SWE::SourceTerms::meteo_forcing) {
-        // elt.ComputeNodalUgp(source.tau_s, internal.tau_s_at_gp);
-        // elt.ComputeNodalDUgp(source.p_atm, internal.dp_atm_at_gp);
+    if (SWE::SourceTerms::meteo_forcing) {
+        const uint nnode = elt.data.get_nnode();
+
+        DynMatrix<double> tau_s(SWE::n_dimensions, nnode);
+        DynRowVector<double> p_atm(nnode);
+
+        for (uint node = 0; node < nnode; ++node) {
+            tau_s(GlobalCoord::x, node) = source.tau_s[node][GlobalCoord::x];
+            tau_s(GlobalCoord::y, node) = source.tau_s[node][GlobalCoord::y];
+            p_atm[node]                 = source.p_atm[node];
+        }
+
+        internal.tau_s_at_gp = elt.ComputeNodalUgp(tau_s);
+
+        row(internal.dp_atm_at_gp, GlobalCoord::x) = elt.ComputeNodalDUgp(GlobalCoord::x, p_atm);
+        row(internal.dp_atm_at_gp, GlobalCoord::y) = elt.ComputeNodalDUgp(GlobalCoord::y, p_atm);
 
         for (uint gp = 0; gp < elt.data.get_ngp_internal(); ++gp) {
             // compute surface friction contribution
@@ -71,7 +84,7 @@ void get_source(const double t, ElementType& elt) {
         }
     }
 
-    if (SWE::SourceTerms::tide_potential) {
+    /*if (SWE::SourceTerms::tide_potential) {
         // elt.ComputeNodalDUgp(source.tide_pot, internal.dtide_pot_at_gp);
 
         for (uint gp = 0; gp < elt.data.get_ngp_internal(); ++gp) {
@@ -83,7 +96,7 @@ void get_source(const double t, ElementType& elt) {
                                                              internal.aux_at_gp(SWE::Auxiliaries::h, gp) *
                                                              internal.dtide_pot_at_gp(GlobalCoord::y, gp);
         }
-    }
+    }*/
 
     if (SWE::SourceTerms::coriolis) {
         for (uint gp = 0; gp < elt.data.get_ngp_internal(); ++gp) {
@@ -93,7 +106,7 @@ void get_source(const double t, ElementType& elt) {
             internal.source_at_gp(SWE::Variables::qy, gp) -=
                 source.coriolis_f * internal.q_at_gp(SWE::Variables::qx, gp);
         }
-    }*/
+    }
 }
 }
 
-- 
2.43.0


From 4a5e6646b9295e27b5cdc3a90a77ec0dc2fd633a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:17 +0000
Subject: [PATCH 24/26] fix: Green-Naghdi: average the bottom slope of two
 sides after it has been integrated around them, as ranks do

---
 .../grad_methods/greengauss_dbath_serial.hpp  | 20 +++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/source/problem/Green-Naghdi/discretization_EHDG/kernels_preprocessor/grad_methods/greengauss_dbath_serial.hpp b/source/problem/Green-Naghdi/discretization_EHDG/kernels_preprocessor/grad_methods/greengauss_dbath_serial.hpp
index 24e904d..bf98335 100644
--- a/source/problem/Green-Naghdi/discretization_EHDG/kernels_preprocessor/grad_methods/greengauss_dbath_serial.hpp
+++ b/source/problem/Green-Naghdi/discretization_EHDG/kernels_preprocessor/grad_methods/greengauss_dbath_serial.hpp
@@ -90,16 +90,6 @@ void compute_ddbath_gg(ProblemDiscretizationType& discretization) {
         boundary_in.dbath_hat_at_gp = intface.ComputeUgpIN(state_in.dbath);
         boundary_ex.dbath_hat_at_gp = intface.ComputeUgpEX(state_ex.dbath);
 
-        const uint ngp = intface.data_in.get_ngp_boundary(intface.bound_id_in);
-        for (uint gp = 0; gp < ngp; ++gp) {
-            const uint gp_ex = ngp - gp - 1;
-            for (uint dbath = 0; dbath < GN::n_dimensions; ++dbath) {
-                boundary_in.dbath_hat_at_gp(dbath, gp) =
-                    (boundary_in.dbath_hat_at_gp(dbath, gp) + boundary_ex.dbath_hat_at_gp(dbath, gp_ex)) / 2.0;
-                boundary_ex.dbath_hat_at_gp(dbath, gp_ex) = boundary_in.dbath_hat_at_gp(dbath, gp);
-            }
-        }
-
         for (uint dbath = 0; dbath < GN::n_dimensions; ++dbath) {
             for (uint dir = 0; dir < GN::n_dimensions; ++dir) {
                 row(derivative_in.ddbath_at_baryctr, GN::n_dimensions * dbath + dir) +=
@@ -112,6 +102,16 @@ void compute_ddbath_gg(ProblemDiscretizationType& discretization) {
                         vec_cw_mult(row(boundary_ex.dbath_hat_at_gp, dbath), row(intface.surface_normal_ex, dir)));
             }
         }
+
+        const uint ngp = intface.data_in.get_ngp_boundary(intface.bound_id_in);
+        for (uint gp = 0; gp < ngp; ++gp) {
+            const uint gp_ex = ngp - gp - 1;
+            for (uint dbath = 0; dbath < GN::n_dimensions; ++dbath) {
+                boundary_in.dbath_hat_at_gp(dbath, gp) =
+                    (boundary_in.dbath_hat_at_gp(dbath, gp) + boundary_ex.dbath_hat_at_gp(dbath, gp_ex)) / 2.0;
+                boundary_ex.dbath_hat_at_gp(dbath, gp_ex) = boundary_in.dbath_hat_at_gp(dbath, gp);
+            }
+        }
     });
 
     discretization.mesh.CallForEachBoundary([](auto& bound) {
-- 
2.43.0


From dccce9e91091b2a0522815e48735e53bab56f016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:17 +0000
Subject: [PATCH 25/26] fix: parallel Green-Naghdi: node averages belong to the
 current stage

---
 .../greengauss_derivatives_ompi.hpp            |  4 ++--
 .../leastsquares_derivatives_ompi.hpp          |  4 ++--
 .../recon_avg_derivatives_ompi.hpp             | 18 ++++++++++++------
 3 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/source/problem/Green-Naghdi/discretization_EHDG/kernels_processor/grad_methods/greengauss_derivatives_ompi.hpp b/source/problem/Green-Naghdi/discretization_EHDG/kernels_processor/grad_methods/greengauss_derivatives_ompi.hpp
index e6e33a7..35fe85a 100644
--- a/source/problem/Green-Naghdi/discretization_EHDG/kernels_processor/grad_methods/greengauss_derivatives_ompi.hpp
+++ b/source/problem/Green-Naghdi/discretization_EHDG/kernels_processor/grad_methods/greengauss_derivatives_ompi.hpp
@@ -46,7 +46,7 @@ void Problem::compute_derivatives_ompi(std::vector<std::unique_ptr<OMPISimUnitTy
         sim_units[su_id]->communicator.WaitAllSends(CommTypes::derivatives, stepper.GetTimestamp());
     }
 #elif defined(D_RECON_AVG)
-    reconstruct_dzedu(sim_units, global_data);
+    reconstruct_dzedu(sim_units, global_data, stepper);
 #endif
 
     for (uint su_id = begin_sim_id; su_id < end_sim_id; ++su_id) {
@@ -102,7 +102,7 @@ void Problem::compute_derivatives_ompi(std::vector<std::unique_ptr<OMPISimUnitTy
         sim_units[su_id]->communicator.WaitAllSends(CommTypes::derivatives, stepper.GetTimestamp());
     }
 #elif defined(D_RECON_AVG)
-    reconstruct_ddu(sim_units, global_data);
+    reconstruct_ddu(sim_units, global_data, stepper);
 #endif
 }
 }
diff --git a/source/problem/Green-Naghdi/discretization_EHDG/kernels_processor/grad_methods/leastsquares_derivatives_ompi.hpp b/source/problem/Green-Naghdi/discretization_EHDG/kernels_processor/grad_methods/leastsquares_derivatives_ompi.hpp
index edc7594..2c2a781 100644
--- a/source/problem/Green-Naghdi/discretization_EHDG/kernels_processor/grad_methods/leastsquares_derivatives_ompi.hpp
+++ b/source/problem/Green-Naghdi/discretization_EHDG/kernels_processor/grad_methods/leastsquares_derivatives_ompi.hpp
@@ -91,7 +91,7 @@ void Problem::compute_derivatives_ompi(std::vector<std::unique_ptr<OMPISimUnitTy
         sim_units[su_id]->communicator.WaitAllSends(CommTypes::derivatives, stepper.GetTimestamp());
     }
 #elif defined(D_RECON_AVG)
-    reconstruct_dzedu(sim_units, global_data);
+    reconstruct_dzedu(sim_units, global_data, stepper);
 #endif
 
     for (uint su_id = begin_sim_id; su_id < end_sim_id; ++su_id) {
@@ -158,7 +158,7 @@ void Problem::compute_derivatives_ompi(std::vector<std::unique_ptr<OMPISimUnitTy
         sim_units[su_id]->communicator.WaitAllSends(CommTypes::derivatives, stepper.GetTimestamp());
     }
 #elif defined(D_RECON_AVG)
-    reconstruct_ddu(sim_units, global_data);
+    reconstruct_ddu(sim_units, global_data, stepper);
 #endif
 }
 }
diff --git a/source/problem/Green-Naghdi/discretization_EHDG/kernels_processor/grad_methods/recon_avg_derivatives_ompi.hpp b/source/problem/Green-Naghdi/discretization_EHDG/kernels_processor/grad_methods/recon_avg_derivatives_ompi.hpp
index 7b9aa77..0a7b80b 100644
--- a/source/problem/Green-Naghdi/discretization_EHDG/kernels_processor/grad_methods/recon_avg_derivatives_ompi.hpp
+++ b/source/problem/Green-Naghdi/discretization_EHDG/kernels_processor/grad_methods/recon_avg_derivatives_ompi.hpp
@@ -4,7 +4,9 @@
 namespace GN {
 namespace EHDG {
 template <typename OMPISimUnitType, typename ProblemGlobalDataType>
-void reconstruct_dzedu(std::vector<std::unique_ptr<OMPISimUnitType>>& sim_units, ProblemGlobalDataType& global_data) {
+void reconstruct_dzedu(std::vector<std::unique_ptr<OMPISimUnitType>>& sim_units,
+                       ProblemGlobalDataType& global_data,
+                       const ESSPRKStepper& stepper) {
 #pragma omp barrier
 #pragma omp master
     {
@@ -49,8 +51,9 @@ void reconstruct_dzedu(std::vector<std::unique_ptr<OMPISimUnitType>>& sim_units,
         VecGetArray(global_data.local_derivatives_at_node, &d_ptr);
 
         for (uint su_id = 0; su_id < sim_units.size(); ++su_id) {
-            sim_units[su_id]->discretization.mesh.CallForEachElement([d_ptr](auto& elt) {
-                auto& state      = elt.data.state[0];
+            sim_units[su_id]->discretization.mesh.CallForEachElement([d_ptr, &stepper](auto& elt) {
+                const uint stage = stepper.GetStage();
+                auto& state      = elt.data.state[stage];
                 auto& derivative = elt.data.derivative;
                 auto& internal   = elt.data.internal;
                 for (uint node = 0; node < elt.GetNodeID().size(); ++node) {
@@ -77,7 +80,9 @@ void reconstruct_dzedu(std::vector<std::unique_ptr<OMPISimUnitType>>& sim_units,
 }
 
 template <typename OMPISimUnitType, typename ProblemGlobalDataType>
-void reconstruct_ddu(std::vector<std::unique_ptr<OMPISimUnitType>>& sim_units, ProblemGlobalDataType& global_data) {
+void reconstruct_ddu(std::vector<std::unique_ptr<OMPISimUnitType>>& sim_units,
+                     ProblemGlobalDataType& global_data,
+                     const ESSPRKStepper& stepper) {
 #pragma omp barrier
 #pragma omp master
     {
@@ -119,8 +124,9 @@ void reconstruct_ddu(std::vector<std::unique_ptr<OMPISimUnitType>>& sim_units, P
         VecGetArray(global_data.local_derivatives_at_node, &d_ptr);
 
         for (uint su_id = 0; su_id < sim_units.size(); ++su_id) {
-            sim_units[su_id]->discretization.mesh.CallForEachElement([d_ptr](auto& elt) {
-                auto& state      = elt.data.state[0];
+            sim_units[su_id]->discretization.mesh.CallForEachElement([d_ptr, &stepper](auto& elt) {
+                const uint stage = stepper.GetStage();
+                auto& state      = elt.data.state[stage];
                 auto& derivative = elt.data.derivative;
                 auto& internal   = elt.data.internal;
                 for (uint node = 0; node < elt.GetNodeID().size(); ++node) {
-- 
2.43.0


From 17b4808e7cbe76e5703fa8ab5b8e92846347b111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:17 +0000
Subject: [PATCH 26/26] fix: Green-Naghdi: weights of midpoints no two
 neighbours enclose

---
 .../Green-Naghdi/problem_preprocessor/gn_pre_init_data.hpp       | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/problem/Green-Naghdi/problem_preprocessor/gn_pre_init_data.hpp b/source/problem/Green-Naghdi/problem_preprocessor/gn_pre_init_data.hpp
index 57652bc..c9e0b24 100644
--- a/source/problem/Green-Naghdi/problem_preprocessor/gn_pre_init_data.hpp
+++ b/source/problem/Green-Naghdi/problem_preprocessor/gn_pre_init_data.hpp
@@ -48,6 +48,7 @@ void initialize_data_serial(MeshType& mesh) {
         StatMatrix<double, 2, 2> A;
         StatVector<double, 2> alpha;
         for (uint bound = 0; bound < elt.data.get_nbound(); ++bound) {
+            set_constant(derivative.a[bound], 0.0);
             for (uint perm = 0; perm < 2; ++perm) {
                 const uint element_1 = bound;
                 const uint element_2 = (bound + perm + 1) % elt.data.get_nbound();
-- 
2.43.0

