From 94456212370a67ecfe752aa0b9737bc23873f582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:34 +0000
Subject: [PATCH 01/21] fix: Vec3::min returned the largest component when the
 two smallest are equal

---
 src/cpu/vec3.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cpu/vec3.cc b/src/cpu/vec3.cc
index b9a67b5..00626e1 100644
--- a/src/cpu/vec3.cc
+++ b/src/cpu/vec3.cc
@@ -76,8 +76,8 @@ const double GALS::CPU::Vec3<T>::mag() const
 template <typename T>
 const T GALS::CPU::Vec3<T>::min() const
 {
-  if (m_data[0] < m_data[1] && m_data[0] < m_data[2]) return m_data[0];
-  if (m_data[1] < m_data[0] && m_data[1] < m_data[2]) return m_data[1];
+  if (m_data[0] <= m_data[1] && m_data[0] <= m_data[2]) return m_data[0];
+  if (m_data[1] <= m_data[0] && m_data[1] <= m_data[2]) return m_data[1];
   return m_data[2];
 }
 
-- 
2.43.0


From 449a33a31a62bef27749358c1fed6e51b9b0ab17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:34 +0000
Subject: [PATCH 02/21] fix: Grid::generate shifted all nodes by (padding - 1)
 cells for padding other than 1

---
 src/cpu/grid.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cpu/grid.cc b/src/cpu/grid.cc
index 00a7f95..b0a0ca5 100644
--- a/src/cpu/grid.cc
+++ b/src/cpu/grid.cc
@@ -188,7 +188,7 @@ void GALS::CPU::Grid<T, DIM>::generate(T x_min, T x_max, T y_min, T y_max, T z_m
 
   for (int i = 0; i < DIM; ++i) m_one_over_dx[i] = static_cast<T>(1.) / m_dx[i];
 
-  for (int i = 0; i < DIM; ++i) domain_min_new[i] = domain_min[i] + (m_dx[i] * 0.5) - (m_dx[i] * m_mask[i]);
+  for (int i = 0; i < DIM; ++i) domain_min_new[i] = domain_min[i] + (m_dx[i] * 0.5) - (m_dx[i] * m_pad * m_mask[i]);
 
   Vec3<T> elem;
 
-- 
2.43.0


From 98f975127e067b10df2f09ce58127a4f7a70b884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:34 +0000
Subject: [PATCH 03/21] fix: gradient of a vector field differentiated every
 component along its own axis only

---
 src/cpu/gradient/second-order-central.cc | 4 ++--
 src/cpu/gradient/third-order.cc          | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/cpu/gradient/second-order-central.cc b/src/cpu/gradient/second-order-central.cc
index da69738..ca00650 100644
--- a/src/cpu/gradient/second-order-central.cc
+++ b/src/cpu/gradient/second-order-central.cc
@@ -81,8 +81,8 @@ void GALS::CPU::SecondOrderCentral<T, T_GRID>::compute(const Array<T_GRID, Vec3<
             typename T_GRID::value_type one_by_dx = static_cast<typename T_GRID::value_type>(1.) / dx[cmpt];
 
             grad_alpha(i, j, k)(axis, cmpt) =
-                (alpha(i + axis_vectors(axis, 0), j + axis_vectors(axis, 1), k + axis_vectors(axis, 2))[axis] -
-                 alpha(i - axis_vectors(axis, 0), j - axis_vectors(axis, 1), k - axis_vectors(axis, 2))[axis]) *
+                (alpha(i + axis_vectors(cmpt, 0), j + axis_vectors(cmpt, 1), k + axis_vectors(cmpt, 2))[axis] -
+                 alpha(i - axis_vectors(cmpt, 0), j - axis_vectors(cmpt, 1), k - axis_vectors(cmpt, 2))[axis]) *
                 one_by_dx * static_cast<T>(0.5);
           }
         }
diff --git a/src/cpu/gradient/third-order.cc b/src/cpu/gradient/third-order.cc
index be3f517..005fd2d 100644
--- a/src/cpu/gradient/third-order.cc
+++ b/src/cpu/gradient/third-order.cc
@@ -81,11 +81,11 @@ void GALS::CPU::ThirdOrder<T, T_GRID>::compute(const Array<T_GRID, Vec3<T>> &alp
             typename T_GRID::value_type one_by_dx = static_cast<typename T_GRID::value_type>(1.) / (6 * dx[cmpt]);
 
             grad_alpha(i, j, k)(axis, cmpt) =
-                (2 * alpha(i + axis_vectors(axis, 0), j + axis_vectors(axis, 1), k + axis_vectors(axis, 2))[axis] +
+                (2 * alpha(i + axis_vectors(cmpt, 0), j + axis_vectors(cmpt, 1), k + axis_vectors(cmpt, 2))[axis] +
                  3 * alpha(i, j, k)[axis] -
-                 6 * alpha(i - axis_vectors(axis, 0), j - axis_vectors(axis, 1), k - axis_vectors(axis, 2))[axis] +
-                 1 * alpha(i - 2 * axis_vectors(axis, 0), j - 2 * axis_vectors(axis, 1),
-                           k - 2 * axis_vectors(axis, 2))[axis]) *
+                 6 * alpha(i - axis_vectors(cmpt, 0), j - axis_vectors(cmpt, 1), k - axis_vectors(cmpt, 2))[axis] +
+                 1 * alpha(i - 2 * axis_vectors(cmpt, 0), j - 2 * axis_vectors(cmpt, 1),
+                           k - 2 * axis_vectors(cmpt, 2))[axis]) *
                 one_by_dx;
           }
         }
-- 
2.43.0


From 5cc65935fddb6cbfa765656a5f3df7aca129632d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:34 +0000
Subject: [PATCH 04/21] fix: analytical velocity gradient was stored in the
 first two array slots instead of at each node

---
 src/cpu/analytical-fields/velocity.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/cpu/analytical-fields/velocity.cc b/src/cpu/analytical-fields/velocity.cc
index 7bf653e..708bf57 100644
--- a/src/cpu/analytical-fields/velocity.cc
+++ b/src/cpu/analytical-fields/velocity.cc
@@ -85,10 +85,10 @@ void GALS::ANALYTICAL_FIELDS::Velocity<T_GRID, T>::compute(
             for (int k = 0; k < num_cells[2]; ++k) {
               for (int cmpt = 0; cmpt < T_GRID::dim; ++cmpt) {
                 for (int derv = 0; derv < T_GRID::dim; ++derv) {
-                  if (cmpt == 0 && derv == 0) velocity_gradient[cmpt][derv] = static_cast<T>(0);
-                  if (cmpt == 0 && derv == 1) velocity_gradient[cmpt][derv] = -coeff;
-                  if (cmpt == 1 && derv == 0) velocity_gradient[cmpt][derv] = coeff;
-                  if (cmpt == 1 && derv == 1) velocity_gradient[cmpt][derv] = static_cast<T>(0);
+                  if (cmpt == 0 && derv == 0) velocity_gradient(i, j, k)(cmpt, derv) = static_cast<T>(0);
+                  if (cmpt == 0 && derv == 1) velocity_gradient(i, j, k)(cmpt, derv) = -coeff;
+                  if (cmpt == 1 && derv == 0) velocity_gradient(i, j, k)(cmpt, derv) = coeff;
+                  if (cmpt == 1 && derv == 1) velocity_gradient(i, j, k)(cmpt, derv) = static_cast<T>(0);
                 }
               }
             }
-- 
2.43.0


From 20b061ae4384d4b6cadce5759b15f02d9e1e86de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:34 +0000
Subject: [PATCH 05/21] fix: circular velocity field swapped the x and y
 coordinates of its center

---
 src/cpu/analytical-fields/velocity.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cpu/analytical-fields/velocity.cc b/src/cpu/analytical-fields/velocity.cc
index 708bf57..4a058dd 100644
--- a/src/cpu/analytical-fields/velocity.cc
+++ b/src/cpu/analytical-fields/velocity.cc
@@ -69,8 +69,8 @@ void GALS::ANALYTICAL_FIELDS::Velocity<T_GRID, T>::compute(
         for (int j = 0; j < num_cells[1]; ++j)
           for (int k = 0; k < num_cells[2]; ++k) {
             for (int cmpt = 0; cmpt < T_GRID::dim; ++cmpt) {
-              if (cmpt == 0) velocity_node[cmpt] = coeff * (m_inputs.center[cmpt] - positions(i, j, k)[cmpt + 1]);
-              if (cmpt == 1) velocity_node[cmpt] = coeff * (positions(i, j, k)[cmpt - 1] - m_inputs.center[cmpt]);
+              if (cmpt == 0) velocity_node[cmpt] = coeff * (m_inputs.center[cmpt + 1] - positions(i, j, k)[cmpt + 1]);
+              if (cmpt == 1) velocity_node[cmpt] = coeff * (positions(i, j, k)[cmpt - 1] - m_inputs.center[cmpt - 1]);
             }
 
             velocity(i, j, k) = velocity_node;
-- 
2.43.0


From 7561b1b175131f7b5e847c1b61ffedc7885ce4be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:34 +0000
Subject: [PATCH 06/21] fix: advection app read outside the arrays, third order
 gradient needs two ghost layers

---
 applications/advection/main.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/applications/advection/main.cc b/applications/advection/main.cc
index ddbe361..661fb54 100644
--- a/applications/advection/main.cc
+++ b/applications/advection/main.cc
@@ -78,6 +78,7 @@ int main(int argc, char **argv)
   // Construct grid.
   const auto &grid_inputs = *(input_fields.m_grid);
   T_GRID grid(grid_inputs.nx, grid_inputs.ny, grid_inputs.nz);
+  grid.setPadding(2);  // Third order gradient reads two cells upwind.
   grid.generate(grid_inputs.x_min, grid_inputs.x_max, grid_inputs.y_min, grid_inputs.y_max, grid_inputs.z_min,
                 grid_inputs.z_max);
 
-- 
2.43.0


From baeab5fb17e12e8b1d5ad5bd0e27fd77293c792d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:34 +0000
Subject: [PATCH 07/21] fix: advection app ignored the simulation start time

---
 applications/advection/main.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/applications/advection/main.cc b/applications/advection/main.cc
index 661fb54..6aeef9d 100644
--- a/applications/advection/main.cc
+++ b/applications/advection/main.cc
@@ -129,7 +129,7 @@ int main(int argc, char **argv)
   T t_end = time_inputs.end;
   T dt = time_inputs.dt;
   bool is_dt_fixed = std::strcmp(time_inputs.constant_dt.c_str(), "NO");
-  T sim_time = static_cast<T>(0);
+  T sim_time = t_start;
 
   if (!is_dt_fixed) {
     dt = grid.dX().min() * static_cast<T>(0.5);
-- 
2.43.0


From 57e448de9fe60998f63bb55477da5b88391912ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:53 +0000
Subject: [PATCH 08/21] fix: grid parser read past the end of a cells list with
 fewer than three entries

---
 src/cpu/input-parser/grid.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cpu/input-parser/grid.cc b/src/cpu/input-parser/grid.cc
index 39041ca..9b58de1 100644
--- a/src/cpu/input-parser/grid.cc
+++ b/src/cpu/input-parser/grid.cc
@@ -51,9 +51,9 @@ void GALS::INPUT_PARSER::Grid::parse(const YAML::Node &field, GALS::INPUT_FIELDS
   input_fields.m_grid->z_max = field["box"]["z_max"].as<double>();
 
   // Number of cells.
-  input_fields.m_grid->nx = field["cells"].as<std::vector<int>>()[0];
-  input_fields.m_grid->ny = field["cells"].as<std::vector<int>>()[1];
-  input_fields.m_grid->nz = field["cells"].as<std::vector<int>>()[2];
+  input_fields.m_grid->nx = field["cells"].as<std::vector<int>>().at(0);
+  input_fields.m_grid->ny = field["cells"].as<std::vector<int>>().at(1);
+  input_fields.m_grid->nz = field["cells"].as<std::vector<int>>().at(2);
 }
 
 void GALS::INPUT_PARSER::Grid::operator()(const YAML::Node &field, GALS::INPUT_FIELDS::InputFields *p_input_fields)
-- 
2.43.0


From 6afcd6c42a92c58fdc8151a79db9fb9acc3a81c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:39 +0000
Subject: [PATCH 09/21] fix: temporaries of update_mixed_derivatives were
 shared between OpenMP threads (data race)

---
 src/reference/AdvectionPointCalcs.h            | 4 ++--
 src/reference/SerialCode/AdvectionPointCalcs.h | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/reference/AdvectionPointCalcs.h b/src/reference/AdvectionPointCalcs.h
index c799590..8988c62 100755
--- a/src/reference/AdvectionPointCalcs.h
+++ b/src/reference/AdvectionPointCalcs.h
@@ -377,10 +377,10 @@ namespace galsfunctions
 void update_mixed_derivatives(gridarray &temppsix, gridarray &temppsiy, gridarray &temppsixy,
 				unsigned int nx, unsigned int ny, double dx, double dy)
 {
-double dxy1, dxy2;
-double d1, d2, d3, d4;  //Temporary variable to compute mixed derivatives
 # pragma omp parallel
 {
+double dxy1, dxy2;
+double d1, d2, d3, d4;  //Temporary variable to compute mixed derivatives
 # pragma omp for schedule(static) collapse(2) 
 for(unsigned int k = 0; k < ny; k++){
     for(unsigned int l = 0; l < nx; l++){
diff --git a/src/reference/SerialCode/AdvectionPointCalcs.h b/src/reference/SerialCode/AdvectionPointCalcs.h
index c799590..8988c62 100755
--- a/src/reference/SerialCode/AdvectionPointCalcs.h
+++ b/src/reference/SerialCode/AdvectionPointCalcs.h
@@ -377,10 +377,10 @@ namespace galsfunctions
 void update_mixed_derivatives(gridarray &temppsix, gridarray &temppsiy, gridarray &temppsixy,
 				unsigned int nx, unsigned int ny, double dx, double dy)
 {
-double dxy1, dxy2;
-double d1, d2, d3, d4;  //Temporary variable to compute mixed derivatives
 # pragma omp parallel
 {
+double dxy1, dxy2;
+double d1, d2, d3, d4;  //Temporary variable to compute mixed derivatives
 # pragma omp for schedule(static) collapse(2) 
 for(unsigned int k = 0; k < ny; k++){
     for(unsigned int l = 0; l < nx; l++){
-- 
2.43.0


From e44be4237ac8c1483cfd8eb84cc0aa3520003bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:39 +0000
Subject: [PATCH 10/21] fix: MPI programs exchanged double buffers as
 MPI_FLOAT, transferring only half of the data

---
 src/reference/GALS_Advection_MPI.cpp        | 20 ++++++++++----------
 src/reference/GALS_Advection_MPI_OpenMP.cpp | 20 ++++++++++----------
 2 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/src/reference/GALS_Advection_MPI.cpp b/src/reference/GALS_Advection_MPI.cpp
index f0c07ab..59d95e9 100755
--- a/src/reference/GALS_Advection_MPI.cpp
+++ b/src/reference/GALS_Advection_MPI.cpp
@@ -146,8 +146,8 @@ int main(int argc, char **argv){
             advection_point_MPI(x, y, xadv, yadv, t, dt, T_period,0,nnx, backtrace_scheme);
             
             // receive the data from node-2
-            MPI_Recv(&(A1[0][0]), ny*nnx, MPI_FLOAT, source_rank, 0, MPI_COMM_WORLD, &status);
-            MPI_Recv(&(B1[0][0]), ny*nnx, MPI_FLOAT, source_rank, 0, MPI_COMM_WORLD, &status);
+            MPI_Recv(&(A1[0][0]), ny*nnx, MPI_DOUBLE, source_rank, 0, MPI_COMM_WORLD, &status);
+            MPI_Recv(&(B1[0][0]), ny*nnx, MPI_DOUBLE, source_rank, 0, MPI_COMM_WORLD, &status);
             
             
             // populate the full data to xadv and yadv
@@ -169,9 +169,9 @@ int main(int argc, char **argv){
             find_advection_point_location_MPI(x, y, xadv, yadv, cellx, celly, tracker, xlim1, xlim2, ylim1, ylim2,0,nnx);
             
             // receive the data from node-2
-            MPI_Recv(&(A3[0][0]), ny*nnx, MPI_FLOAT, source_rank, 0, MPI_COMM_WORLD, &status);
-            MPI_Recv(&(B3[0][0]), ny*nnx, MPI_FLOAT, source_rank, 0, MPI_COMM_WORLD, &status);
-            MPI_Recv(&(C3[0][0]), ny*nnx, MPI_FLOAT, source_rank, 0, MPI_COMM_WORLD, &status);
+            MPI_Recv(&(A3[0][0]), ny*nnx, MPI_DOUBLE, source_rank, 0, MPI_COMM_WORLD, &status);
+            MPI_Recv(&(B3[0][0]), ny*nnx, MPI_DOUBLE, source_rank, 0, MPI_COMM_WORLD, &status);
+            MPI_Recv(&(C3[0][0]), ny*nnx, MPI_DOUBLE, source_rank, 0, MPI_COMM_WORLD, &status);
             
             
             // populate the full data to xadv and yadv
@@ -235,8 +235,8 @@ int main(int argc, char **argv){
             }
             
             //send data to node-1
-            MPI_Send(&(A1[0][0]), ny*nnx, MPI_FLOAT, dest_rank, 0, MPI_COMM_WORLD);
-            MPI_Send(&(B1[0][0]), ny*nnx, MPI_FLOAT, dest_rank, 0, MPI_COMM_WORLD);
+            MPI_Send(&(A1[0][0]), ny*nnx, MPI_DOUBLE, dest_rank, 0, MPI_COMM_WORLD);
+            MPI_Send(&(B1[0][0]), ny*nnx, MPI_DOUBLE, dest_rank, 0, MPI_COMM_WORLD);
             
             
             
@@ -256,9 +256,9 @@ int main(int argc, char **argv){
             }
             
             //send data to node-1
-            MPI_Send(&(A3[0][0]), ny*nnx, MPI_FLOAT, dest_rank, 0, MPI_COMM_WORLD);
-            MPI_Send(&(B3[0][0]), ny*nnx, MPI_FLOAT, dest_rank, 0, MPI_COMM_WORLD);
-            MPI_Send(&(C3[0][0]), ny*nnx, MPI_FLOAT, dest_rank, 0, MPI_COMM_WORLD);
+            MPI_Send(&(A3[0][0]), ny*nnx, MPI_DOUBLE, dest_rank, 0, MPI_COMM_WORLD);
+            MPI_Send(&(B3[0][0]), ny*nnx, MPI_DOUBLE, dest_rank, 0, MPI_COMM_WORLD);
+            MPI_Send(&(C3[0][0]), ny*nnx, MPI_DOUBLE, dest_rank, 0, MPI_COMM_WORLD);
             
         }  	    // end of node-2
     } // end of time marching loop
diff --git a/src/reference/GALS_Advection_MPI_OpenMP.cpp b/src/reference/GALS_Advection_MPI_OpenMP.cpp
index 998a589..f8d6fde 100755
--- a/src/reference/GALS_Advection_MPI_OpenMP.cpp
+++ b/src/reference/GALS_Advection_MPI_OpenMP.cpp
@@ -150,8 +150,8 @@ int main(int argc, char **argv){
         advection_point_MPI(x, y, xadv, yadv, t, dt, T_period,0,nnx, backtrace_scheme);
 
 	// receive the data from node-2
-	MPI_Recv(&(A1[0][0]), ny*nnx, MPI_FLOAT, source_rank, 0, MPI_COMM_WORLD, &status);
-        MPI_Recv(&(B1[0][0]), ny*nnx, MPI_FLOAT, source_rank, 0, MPI_COMM_WORLD, &status);
+	MPI_Recv(&(A1[0][0]), ny*nnx, MPI_DOUBLE, source_rank, 0, MPI_COMM_WORLD, &status);
+        MPI_Recv(&(B1[0][0]), ny*nnx, MPI_DOUBLE, source_rank, 0, MPI_COMM_WORLD, &status);
 
 	// populate the recevied data to the current data array
 	# pragma omp parallel
@@ -175,9 +175,9 @@ int main(int argc, char **argv){
 	find_advection_point_location_MPI(x, y, xadv, yadv, cellx, celly, tracker, xlim1, xlim2, ylim1, ylim2,0,nnx);
 
 	// receive the data from node-2
-	MPI_Recv(&(A3[0][0]), ny*nnx, MPI_FLOAT, source_rank, 0, MPI_COMM_WORLD, &status);
-        MPI_Recv(&(B3[0][0]), ny*nnx, MPI_FLOAT, source_rank, 0, MPI_COMM_WORLD, &status);
-	MPI_Recv(&(C3[0][0]), ny*nnx, MPI_FLOAT, source_rank, 0, MPI_COMM_WORLD, &status);
+	MPI_Recv(&(A3[0][0]), ny*nnx, MPI_DOUBLE, source_rank, 0, MPI_COMM_WORLD, &status);
+        MPI_Recv(&(B3[0][0]), ny*nnx, MPI_DOUBLE, source_rank, 0, MPI_COMM_WORLD, &status);
+	MPI_Recv(&(C3[0][0]), ny*nnx, MPI_DOUBLE, source_rank, 0, MPI_COMM_WORLD, &status);
 
 	// populate the recevied data to the current data array
 	# pragma omp parallel
@@ -252,8 +252,8 @@ int main(int argc, char **argv){
 	}
 
 	//send data to node-1
-	MPI_Send(&(A1[0][0]), ny*nnx, MPI_FLOAT, dest_rank, 0, MPI_COMM_WORLD);
-        MPI_Send(&(B1[0][0]), ny*nnx, MPI_FLOAT, dest_rank, 0, MPI_COMM_WORLD);
+	MPI_Send(&(A1[0][0]), ny*nnx, MPI_DOUBLE, dest_rank, 0, MPI_COMM_WORLD);
+        MPI_Send(&(B1[0][0]), ny*nnx, MPI_DOUBLE, dest_rank, 0, MPI_COMM_WORLD);
 
 	// end of fct-1
         //---------------------------------------------------------------------------
@@ -279,9 +279,9 @@ int main(int argc, char **argv){
 	}
 
 	//send data to node-1
-	MPI_Send(&(A3[0][0]), ny*nnx, MPI_FLOAT, dest_rank, 0, MPI_COMM_WORLD);
-        MPI_Send(&(B3[0][0]), ny*nnx, MPI_FLOAT, dest_rank, 0, MPI_COMM_WORLD);
-	MPI_Send(&(C3[0][0]), ny*nnx, MPI_FLOAT, dest_rank, 0, MPI_COMM_WORLD);
+	MPI_Send(&(A3[0][0]), ny*nnx, MPI_DOUBLE, dest_rank, 0, MPI_COMM_WORLD);
+        MPI_Send(&(B3[0][0]), ny*nnx, MPI_DOUBLE, dest_rank, 0, MPI_COMM_WORLD);
+	MPI_Send(&(C3[0][0]), ny*nnx, MPI_DOUBLE, dest_rank, 0, MPI_COMM_WORLD);
 	// end of fct-2
 	// ---------------------------------------------------------------------------	
 
-- 
2.43.0


From 3df23783d25d58dff5ded91b9f141497ed186779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:39 +0000
Subject: [PATCH 11/21] fix: serial solver did not back-trace the nodes of the
 last row and column

---
 src/reference/AdvectionPointCalcs.h            | 4 ++--
 src/reference/SerialCode/AdvectionPointCalcs.h | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/reference/AdvectionPointCalcs.h b/src/reference/AdvectionPointCalcs.h
index 8988c62..95c656b 100755
--- a/src/reference/AdvectionPointCalcs.h
+++ b/src/reference/AdvectionPointCalcs.h
@@ -62,8 +62,8 @@ namespace galsfunctions
         unsigned int nx = x.size();
         unsigned int ny = y.size();
 
-        for(unsigned int i = 0; i < ny - 1; i++){  // loop for y - rows in the array
-            for(unsigned int j = 0; j < nx - 1; j++){  // loop for x - columns in the array
+        for(unsigned int i = 0; i < ny; i++){  // loop for y - rows in the array
+            for(unsigned int j = 0; j < nx; j++){  // loop for x - columns in the array
 
                 double ux = Velx(x[j], y[i], (t + 1) * dt, T_period);
                 double vy = Vely(x[j], y[i], (t + 1) * dt, T_period);
diff --git a/src/reference/SerialCode/AdvectionPointCalcs.h b/src/reference/SerialCode/AdvectionPointCalcs.h
index 8988c62..95c656b 100755
--- a/src/reference/SerialCode/AdvectionPointCalcs.h
+++ b/src/reference/SerialCode/AdvectionPointCalcs.h
@@ -62,8 +62,8 @@ namespace galsfunctions
         unsigned int nx = x.size();
         unsigned int ny = y.size();
 
-        for(unsigned int i = 0; i < ny - 1; i++){  // loop for y - rows in the array
-            for(unsigned int j = 0; j < nx - 1; j++){  // loop for x - columns in the array
+        for(unsigned int i = 0; i < ny; i++){  // loop for y - rows in the array
+            for(unsigned int j = 0; j < nx; j++){  // loop for x - columns in the array
 
                 double ux = Velx(x[j], y[i], (t + 1) * dt, T_period);
                 double vy = Vely(x[j], y[i], (t + 1) * dt, T_period);
-- 
2.43.0


From 35df7ab8baa237197f478da4ebfc7898362251af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:22:34 +0000
Subject: [PATCH 12/21] fix: analytical rotation gradient left stale values in
 the z entries of a 3D velocity gradient

---
 src/cpu/analytical-fields/velocity.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cpu/analytical-fields/velocity.cc b/src/cpu/analytical-fields/velocity.cc
index 4a058dd..7a5d073 100644
--- a/src/cpu/analytical-fields/velocity.cc
+++ b/src/cpu/analytical-fields/velocity.cc
@@ -89,6 +89,7 @@ void GALS::ANALYTICAL_FIELDS::Velocity<T_GRID, T>::compute(
                   if (cmpt == 0 && derv == 1) velocity_gradient(i, j, k)(cmpt, derv) = -coeff;
                   if (cmpt == 1 && derv == 0) velocity_gradient(i, j, k)(cmpt, derv) = coeff;
                   if (cmpt == 1 && derv == 1) velocity_gradient(i, j, k)(cmpt, derv) = static_cast<T>(0);
+                  if (cmpt == 2 || derv == 2) velocity_gradient(i, j, k)(cmpt, derv) = static_cast<T>(0);
                 }
               }
             }
-- 
2.43.0


From 6856ab987a5597837159379fbccb70125ccf1c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:22:34 +0000
Subject: [PATCH 13/21] fix: createDirectory reported success when a regular
 file has the name of the directory

---
 src/cpu/file-utils.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cpu/file-utils.cc b/src/cpu/file-utils.cc
index 0ae2b87..618e969 100644
--- a/src/cpu/file-utils.cc
+++ b/src/cpu/file-utils.cc
@@ -66,7 +66,7 @@ bool GALS::UTILITIES::FileUtils::createDirectory(const std::string dir_name) con
 {
   fs::path dir_path(dir_name);
 
-  if (!dir_path.exists()) {
+  if (!dir_path.is_directory()) {
     return fs::create_directories(dir_path);
   }
 
-- 
2.43.0


From 4114ce26efba9edc952846659671d3c979f38f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:11:58 +0000
Subject: [PATCH 14/21] fix: looking up an unknown analytical field name no
 longer modifies the shared name map

---
 src/cpu/analytical-fields/levelset.cc | 5 ++++-
 src/cpu/analytical-fields/velocity.cc | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/cpu/analytical-fields/levelset.cc b/src/cpu/analytical-fields/levelset.cc
index 03d006d..fd48219 100644
--- a/src/cpu/analytical-fields/levelset.cc
+++ b/src/cpu/analytical-fields/levelset.cc
@@ -50,7 +50,10 @@ void GALS::ANALYTICAL_FIELDS::Levelset<T_GRID, T>::compute(
   const GALS::CPU::Vec3<int> num_cells = positions.numCells();
   const auto& levelset_name = m_inputs.name;
 
-  switch (levelset_name_map[levelset_name]) {
+  const auto name_entry = levelset_name_map.find(levelset_name);
+  const auto field_name = name_entry == levelset_name_map.end() ? LevelsetFieldNames::NOT_DEFINED : name_entry->second;
+
+  switch (field_name) {
     case LevelsetFieldNames::CIRCLE: {
       auto& phi = levelset.phi();
 
diff --git a/src/cpu/analytical-fields/velocity.cc b/src/cpu/analytical-fields/velocity.cc
index 7a5d073..756e67c 100644
--- a/src/cpu/analytical-fields/velocity.cc
+++ b/src/cpu/analytical-fields/velocity.cc
@@ -54,7 +54,10 @@ void GALS::ANALYTICAL_FIELDS::Velocity<T_GRID, T>::compute(
   const GALS::CPU::Vec3<int> num_cells = positions.numCells();
   const auto& velocity_name = m_inputs.name;
 
-  switch (velocity_name_map[velocity_name]) {
+  const auto name_entry = velocity_name_map.find(velocity_name);
+  const auto field_name = name_entry == velocity_name_map.end() ? VelocityFieldNames::NOT_DEFINED : name_entry->second;
+
+  switch (field_name) {
     case VelocityFieldNames::CIRCULAR: {
       auto& velocity = levelset_velocity.velocity();
 
-- 
2.43.0


From 40237dc2a5eaec4ac432c312aed9e7a2f40756ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:25:55 +0000
Subject: [PATCH 15/21] fix: only the first MPI process writes the shared
 output files

Both processes run in the same directory; the second one removed the files
the first was writing and appended a second copy of the initial state.
---
 src/reference/GALS_Advection_MPI.cpp        | 31 ++++++++++++---------
 src/reference/GALS_Advection_MPI_OpenMP.cpp | 21 ++++++++------
 2 files changed, 31 insertions(+), 21 deletions(-)

diff --git a/src/reference/GALS_Advection_MPI.cpp b/src/reference/GALS_Advection_MPI.cpp
index 59d95e9..6a9cc98 100755
--- a/src/reference/GALS_Advection_MPI.cpp
+++ b/src/reference/GALS_Advection_MPI.cpp
@@ -77,15 +77,18 @@ int main(int argc, char **argv){
     gridarray tempphi(mphi), temppsix(mpsix), temppsiy(mpsiy), temppsixy(mpsixy);	// Making level set matrix copies for time loop use
     
     
-    // Removing existing files with these names if any
-    remove("phi.txt");
-    remove("psix.txt");
-    remove("psiy.txt");
-    remove("psixy.txt");
-    remove("details.txt");
-    remove("Velocity_x.txt");
-    remove("Velocity_y.txt");
-    fileprint(mphi,mpsix,mpsiy,mpsixy,nx,ny,x,y,0.0,T_period);
+    // Only node-1 produces the output files; both nodes share the working directory
+    if(ctx.rank() == 0){
+        // Removing existing files with these names if any
+        remove("phi.txt");
+        remove("psix.txt");
+        remove("psiy.txt");
+        remove("psixy.txt");
+        remove("details.txt");
+        remove("Velocity_x.txt");
+        remove("Velocity_y.txt");
+        fileprint(mphi,mpsix,mpsiy,mpsixy,nx,ny,x,y,0.0,T_period);
+    }
     
     /*
      * Let the following represent one cell
@@ -103,10 +106,12 @@ int main(int argc, char **argv){
      *
      */
     
-    ofstream details;
-    details.open("details.txt", ios::out | ios::app);
-    details<< nx << "," << ny << "," << std::fixed << std::setprecision(10) << dx << "," << dy << "," << xlim1 << "," << xlim2 << "," << ylim1 << "," << ylim2 << "," << n << "," << dt << "," << printstep;
-    details.close();
+    if(ctx.rank() == 0){
+        ofstream details;
+        details.open("details.txt", ios::out | ios::app);
+        details<< nx << "," << ny << "," << std::fixed << std::setprecision(10) << dx << "," << dy << "," << xlim1 << "," << xlim2 << "," << ylim1 << "," << ylim2 << "," << n << "," << dt << "," << printstep;
+        details.close();
+    }
     
     // TIME STEPPING LOOP
     // If only the initial and final profiles are needed
diff --git a/src/reference/GALS_Advection_MPI_OpenMP.cpp b/src/reference/GALS_Advection_MPI_OpenMP.cpp
index f8d6fde..418ba21 100755
--- a/src/reference/GALS_Advection_MPI_OpenMP.cpp
+++ b/src/reference/GALS_Advection_MPI_OpenMP.cpp
@@ -90,10 +90,13 @@ int main(int argc, char **argv){
     gridarray tempphi(mphi), temppsix(mpsix), temppsiy(mpsiy), temppsixy(mpsixy);	// Making level set matrix copies for time loop use
 
 
-    // Removing existing files with these names if any
-    remove("phi.txt");         remove("psix.txt");         remove("psiy.txt");     remove("psixy.txt");  
-    remove("Velocity_x.txt");  remove("Velocity_y.txt");   remove("details.txt");
-    fileprint(mphi,mpsix,mpsiy,mpsixy,nx,ny,x,y,0.0,T_period);
+    // Only node-1 produces the output files; both nodes share the working directory
+    if(ctx.rank() == 0){
+        // Removing existing files with these names if any
+        remove("phi.txt");         remove("psix.txt");         remove("psiy.txt");     remove("psixy.txt");  
+        remove("Velocity_x.txt");  remove("Velocity_y.txt");   remove("details.txt");
+        fileprint(mphi,mpsix,mpsiy,mpsixy,nx,ny,x,y,0.0,T_period);
+    }
 
     /*
      * Let the following represent one cell
@@ -111,10 +114,12 @@ int main(int argc, char **argv){
      *
      */
 
-    ofstream details;
-    details.open("details.txt", ios::out | ios::app);
-    details<< nx << "," << ny << "," << std::fixed << std::setprecision(10) << dx << "," << dy << "," << xlim1 << "," << xlim2 << "," << ylim1 << "," << ylim2 << "," << n << "," << dt << "," << printstep;
-    details.close();
+    if(ctx.rank() == 0){
+        ofstream details;
+        details.open("details.txt", ios::out | ios::app);
+        details<< nx << "," << ny << "," << std::fixed << std::setprecision(10) << dx << "," << dy << "," << xlim1 << "," << xlim2 << "," << ylim1 << "," << ylim2 << "," << n << "," << dt << "," << printstep;
+        details.close();
+    }
 
     // TIME STEPPING LOOP
     // If only the initial and final profiles are needed
-- 
2.43.0


From ce064455c4d26c8c6ffe95c4daec1cabe0b95203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:42:28 +0000
Subject: [PATCH 16/21] fix: CUDA solver reads an uninitialised cell index
 where both root coordinates leave the box

---
 src/reference/CUDA/AdvectionPointCalcsCUDA.cu | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/reference/CUDA/AdvectionPointCalcsCUDA.cu b/src/reference/CUDA/AdvectionPointCalcsCUDA.cu
index a5659b8..c257438 100755
--- a/src/reference/CUDA/AdvectionPointCalcsCUDA.cu
+++ b/src/reference/CUDA/AdvectionPointCalcsCUDA.cu
@@ -113,7 +113,11 @@ __global__ void find_advection_point_location_cuda(double *x, double *y, double
             }
             else
                 if(xoutofbounds && youtofbounds)
+                {
                     tracker[indexToWrite] = 4;
+                    cellx[indexToWrite] = 0;
+                    celly[indexToWrite] = 0;
+                }
 }
 
 __global__ void update_levelset_data_cuda(double *x, double *y, double *xadv, double *yadv, unsigned int *cellx,
-- 
2.43.0


From a07ef87bd709cf4fb6509f8875e73def7528abfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:42:28 +0000
Subject: [PATCH 17/21] fix: CUDA solver copies only half of psiy back to the
 host

---
 src/reference/CUDA/GALS_Advection.cu | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reference/CUDA/GALS_Advection.cu b/src/reference/CUDA/GALS_Advection.cu
index e9571d5..ff51c4f 100755
--- a/src/reference/CUDA/GALS_Advection.cu
+++ b/src/reference/CUDA/GALS_Advection.cu
@@ -196,7 +196,7 @@ int main(){
             cudaEventRecord(startEvent,0);
             cudaMemcpy(mphi, masterdphi, gridmemory, cudaMemcpyDeviceToHost);       // Writing back to host memory
             cudaMemcpy(mpsix, masterdpsix, gridmemory, cudaMemcpyDeviceToHost);       // Writing back to host memory
-            cudaMemcpy(mpsiy, masterdpsiy, gridmemoryint, cudaMemcpyDeviceToHost);      // Writing back to host memory
+            cudaMemcpy(mpsiy, masterdpsiy, gridmemory, cudaMemcpyDeviceToHost);      // Writing back to host memory
             cudaEventRecord(stopEvent,0);
             cudaEventSynchronize(stopEvent);
             cudaEventElapsedTime(&tempt, startEvent, stopEvent);
-- 
2.43.0


From 2c8d9cc6379d528c431f59606ddc2c6f6f9e0d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:42:28 +0000
Subject: [PATCH 18/21] fix: CUDA solver prints the initial psixy in every
 frame

---
 src/reference/CUDA/GALS_Advection.cu | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reference/CUDA/GALS_Advection.cu b/src/reference/CUDA/GALS_Advection.cu
index ff51c4f..ce11b38 100755
--- a/src/reference/CUDA/GALS_Advection.cu
+++ b/src/reference/CUDA/GALS_Advection.cu
@@ -197,11 +197,11 @@ int main(){
             cudaMemcpy(mphi, masterdphi, gridmemory, cudaMemcpyDeviceToHost);       // Writing back to host memory
             cudaMemcpy(mpsix, masterdpsix, gridmemory, cudaMemcpyDeviceToHost);       // Writing back to host memory
             cudaMemcpy(mpsiy, masterdpsiy, gridmemory, cudaMemcpyDeviceToHost);      // Writing back to host memory
+            cudaMemcpy(mpsixy, dpsixy, gridmemory, cudaMemcpyDeviceToHost);      // Writing back to host memory
             cudaEventRecord(stopEvent,0);
             cudaEventSynchronize(stopEvent);
             cudaEventElapsedTime(&tempt, startEvent, stopEvent);
             t_transfer += tempt;
-            //cudaMemcpy(mpsixy, masterdpsixy, gridmemoryint, cudaMemcpyDeviceToHost);  // Writing back to host memory
             fileprint(mphi,mpsix,mpsiy,mpsixy,nx,ny,x,y,(t+1)*dt,T_period);
         }
         cout<< t+1;
-- 
2.43.0


From 55ce80b0a1a53b9234961295c33e049021279fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:42:28 +0000
Subject: [PATCH 19/21] fix: mixed derivative of the CUDA solver at the upper
 left corner

---
 src/reference/CUDA/AdvectionPointCalcsCUDA.cu | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reference/CUDA/AdvectionPointCalcsCUDA.cu b/src/reference/CUDA/AdvectionPointCalcsCUDA.cu
index c257438..e40ca56 100755
--- a/src/reference/CUDA/AdvectionPointCalcsCUDA.cu
+++ b/src/reference/CUDA/AdvectionPointCalcsCUDA.cu
@@ -238,7 +238,7 @@ __global__ void update_mixed_derivatives(double *temppsix, double *temppsiy, dou
                 else if(index_y == ny-1 && index_x == 0){
                     double d1 = (temppsiy[nx *(ny-2) + 1] - temppsiy[nx *(ny-2)])/dx;
                     double d2 = (temppsix[nx *(ny-1)] - temppsix[nx *(ny-2)])/dy;
-                    double d3 = (temppsix[nx *(ny-1)] - temppsix[nx *(ny-2) + 1])/dy;
+                    double d3 = (temppsix[nx *(ny-1) + 1] - temppsix[nx *(ny-2) + 1])/dy;
                     double d4 = (temppsiy[nx *(ny-1) + 1] - temppsiy[nx *(ny-1)])/dx;
                     temppsixy[indexToWrite] = 0.75 * (d2 + d4) - 0.25 * (d3 + d1);
                     
-- 
2.43.0


From 1856694e211a80d99376ad8f266b3c787032c87a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:15 +0000
Subject: [PATCH 20/21] fix: CUDA solver skips the nodes of partial tiles when
 the node count is no multiple of the tile

---
 src/reference/CUDA/AdvectionPointCalcsCUDA.cu | 14 +++++++++++++-
 src/reference/CUDA/Allocation.h               |  3 +++
 src/reference/CUDA/GALS_Advection.cu          |  6 +++---
 src/reference/CUDA/HermiteCUDA.cu             |  5 ++++-
 4 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/src/reference/CUDA/AdvectionPointCalcsCUDA.cu b/src/reference/CUDA/AdvectionPointCalcsCUDA.cu
index e40ca56..3b08c38 100755
--- a/src/reference/CUDA/AdvectionPointCalcsCUDA.cu
+++ b/src/reference/CUDA/AdvectionPointCalcsCUDA.cu
@@ -10,7 +10,7 @@ in the 2D grid and update the level set.
 #define _AdvectionPointCalcsCIDA_h
 
 __global__ void advection_point_cuda(double *x, double *y, double *xadv, double *yadv, unsigned int nx,
-        unsigned int t, double dt, double T_period, unsigned int TileSize)
+        unsigned int ny, unsigned int t, double dt, double T_period, unsigned int TileSize)
 {
     double c1 = (1/6.0);
     double c2 = (1/6.0);
@@ -25,6 +25,9 @@ __global__ void advection_point_cuda(double *x, double *y, double *xadv, double
     unsigned int index_x = bx * TileSize + tx;
     unsigned int index_y = by * TileSize + ty;
     
+    if(index_x >= nx || index_y >= ny)  // the last tiles may reach past the grid
+        return;
+    
     double ux = Velx(x[index_x], y[index_y], (t + 1) * dt, T_period);
     double vy = Vely(x[index_x], y[index_y], (t + 1) * dt, T_period);
     
@@ -73,6 +76,9 @@ __global__ void find_advection_point_location_cuda(double *x, double *y, double
     unsigned int index_x = bx * TileSize + tx;
     unsigned int index_y = by * TileSize + ty;
     
+    if(index_x >= nx || index_y >= ny)  // the last tiles may reach past the grid
+        return;
+    
     unsigned int indexToWrite = index_y * nx + index_x;
     
     bool xoutofbounds = false;
@@ -134,6 +140,9 @@ __global__ void update_levelset_data_cuda(double *x, double *y, double *xadv, do
     unsigned int index_x = bx * TileSize + tx;
     unsigned int index_y = by * TileSize + ty;
     
+    if(index_x >= nx || index_y >= ny)  // the last tiles may reach past the grid
+        return;
+    
     unsigned int indexToWrite = index_y * nx + index_x;
     
     double dx = x[2] - x[1];
@@ -211,6 +220,9 @@ __global__ void update_mixed_derivatives(double *temppsix, double *temppsiy, dou
     unsigned int index_x = bx * TileSize + tx;
     unsigned int index_y = by * TileSize + ty;
     
+    if(index_x >= nx || index_y >= ny)  // the last tiles may reach past the grid
+        return;
+    
     unsigned int indexToWrite = index_y * nx + index_x;
     
     if ((index_y == 0 || index_y == ny - 1) && (index_x != 0 && index_x != nx - 1))
diff --git a/src/reference/CUDA/Allocation.h b/src/reference/CUDA/Allocation.h
index c4f293c..dfc6826 100755
--- a/src/reference/CUDA/Allocation.h
+++ b/src/reference/CUDA/Allocation.h
@@ -25,6 +25,9 @@ __global__ void allocate_levelset_matrices_CUDA(double *mphi, double *mpsix, dou
     unsigned int index_x = bx * blockDim.x + tx;
     unsigned int index_y = by * blockDim.x + ty;
     
+    if(index_x >= nx || index_y >= ny)  // the last tiles may reach past the grid
+        return;
+    
     unsigned int indexToWrite = index_y * nx + index_x;
     
     double x_t = x[index_x];
diff --git a/src/reference/CUDA/GALS_Advection.cu b/src/reference/CUDA/GALS_Advection.cu
index ce11b38..b3e7215 100755
--- a/src/reference/CUDA/GALS_Advection.cu
+++ b/src/reference/CUDA/GALS_Advection.cu
@@ -67,7 +67,7 @@ int main(){
         printstep = n;
     
     dim3 dimBlock(TileSize, TileSize);
-    dim3 dimGrid(nx/dimBlock.x, ny/dimBlock.y);
+    dim3 dimGrid((nx + dimBlock.x - 1)/dimBlock.x, (ny + dimBlock.y - 1)/dimBlock.y);
     
     // Node Locations
     double dx = (xlim2 - xlim1)/(nx - 1);
@@ -149,7 +149,7 @@ int main(){
         
         // Find the point from which advection occurs at this time step
         cudaEventRecord(startEvent,0);
-        advection_point_cuda<<<dimGrid,dimBlock>>>(devicex,devicey,dxadv,dyadv,nx,t,dt,T_period,TileSize);
+        advection_point_cuda<<<dimGrid,dimBlock>>>(devicex,devicey,dxadv,dyadv,nx,ny,t,dt,T_period,TileSize);
         cudaEventRecord(stopEvent,0);
         cudaEventSynchronize(stopEvent);
         cudaEventElapsedTime(&tempt, startEvent, stopEvent);
@@ -173,7 +173,7 @@ int main(){
         
         // Create another copy to preserve data which gets modified on the fly in next loop
         cudaEventRecord(startEvent,0);
-        devicetodevicecopy<<<dimGrid,dimBlock>>>(dphi,dpsix,dpsiy,masterdphi,masterdpsix,masterdpsiy,nx,TileSize);
+        devicetodevicecopy<<<dimGrid,dimBlock>>>(dphi,dpsix,dpsiy,masterdphi,masterdpsix,masterdpsiy,nx,ny,TileSize);
         cudaEventRecord(stopEvent,0);
         cudaEventSynchronize(stopEvent);
         cudaEventElapsedTime(&tempt, startEvent, stopEvent);
diff --git a/src/reference/CUDA/HermiteCUDA.cu b/src/reference/CUDA/HermiteCUDA.cu
index c94c97a..a5e2a4a 100755
--- a/src/reference/CUDA/HermiteCUDA.cu
+++ b/src/reference/CUDA/HermiteCUDA.cu
@@ -7,7 +7,7 @@ which is the essence of the high accuracy of the current advection scheme.
 #define _HermiteCUDA_h
 
 __global__ void devicetodevicecopy(double *dphi, double *dpsix, double *dpsiy, double *mphi, double *mpsix, double *mpsiy,
-        unsigned int nx, unsigned int TileSize)
+        unsigned int nx, unsigned int ny, unsigned int TileSize)
 {
     unsigned int bx = blockIdx.x;
     unsigned int by = blockIdx.y;
@@ -18,6 +18,9 @@ __global__ void devicetodevicecopy(double *dphi, double *dpsix, double *dpsiy, d
     unsigned int index_x = bx * TileSize + tx;
     unsigned int index_y = by * TileSize + ty;
     
+    if(index_x >= nx || index_y >= ny)  // the last tiles may reach past the grid
+        return;
+    
     unsigned int indexToWrite = index_y * nx + index_x;
     
     mphi[indexToWrite] = dphi[indexToWrite];
-- 
2.43.0


From 592e783534b7cb61cf06e9b9c2288a6dabe77ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:34 +0000
Subject: [PATCH 21/21] fix: abort macros run exit() only when the guarding
 condition holds

With BUILD_TESTS off GALS_ABORT and GALS_FUNCTION_NOT_IMPLEMENTED expanded to
two statements, so 'if (cond) GALS_ABORT(...)' ended the process on every call:
Vec3(std::vector) always exited, and with it the parser and the application.
---
 include/gals/utilities/utilities.h | 16 ++++++++++------
 src/cpu/interpolation/linear-1d.cc |  2 +-
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/include/gals/utilities/utilities.h b/include/gals/utilities/utilities.h
index 3261c35..f857048 100644
--- a/include/gals/utilities/utilities.h
+++ b/include/gals/utilities/utilities.h
@@ -37,17 +37,21 @@
 namespace GALS
 {
 #ifndef BUILD_TESTS
-#define GALS_FUNCTION_NOT_IMPLEMENTED(var)                        \
-  std::cout << "FUNCTION_NOT_IMPLEMENTED: " << #var << std::endl; \
-  exit(0);
+#define GALS_FUNCTION_NOT_IMPLEMENTED(var)                          \
+  do {                                                              \
+    std::cout << "FUNCTION_NOT_IMPLEMENTED: " << #var << std::endl; \
+    exit(0);                                                        \
+  } while (0)
 #else
 #define GALS_FUNCTION_NOT_IMPLEMENTED(var) std::cout << "FUNCTION_NOT_IMPLEMENTED: " << #var << std::endl;
 #endif
 
 #ifndef BUILD_TESTS
-#define GALS_ABORT(var)                        \
-  std::cout << "ERROR: " << #var << std::endl; \
-  exit(0);
+#define GALS_ABORT(var)                          \
+  do {                                           \
+    std::cout << "ERROR: " << #var << std::endl; \
+    exit(0);                                     \
+  } while (0)
 #else
 #define GALS_ABORT(var) std::cout << "ERROR: " << #var << std::endl;
 #endif
diff --git a/src/cpu/interpolation/linear-1d.cc b/src/cpu/interpolation/linear-1d.cc
index dfb9d21..035e85c 100644
--- a/src/cpu/interpolation/linear-1d.cc
+++ b/src/cpu/interpolation/linear-1d.cc
@@ -91,7 +91,7 @@ void GALS::INTERPOLATION::Linear<T, GALS::CPU::Grid<T, 1>>::compute(
     const GALS::CPU::Array<GALS::CPU::Grid<T, 1>, typename GALS::CPU::Grid<T, 1>::position_type> &x_interp,
     GALS::CPU::Levelset<GALS::CPU::Grid<T, 1>, T> &levelset)
 {
-  GALS_FUNCTION_NOT_IMPLEMENTED("linear-1d.cc: compute(...) with levelset.")
+  GALS_FUNCTION_NOT_IMPLEMENTED("linear-1d.cc: compute(...) with levelset.");
 }
 
 template class GALS::INTERPOLATION::Linear<double, GALS::CPU::Grid<double, 1>>;
-- 
2.43.0

