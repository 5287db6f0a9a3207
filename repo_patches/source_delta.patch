From 2e3d280f36ebfcba7e0d33d7f7f7024aa68d355c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:17 +0000
Subject: [PATCH 01/38] fix: refuse a run whose MPI grid does not match the
 number of processes on all processes

---
 src/shared/HydroParams.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/shared/HydroParams.cpp b/src/shared/HydroParams.cpp
index 2a744e6..7f2ae75 100644
--- a/src/shared/HydroParams.cpp
+++ b/src/shared/HydroParams.cpp
@@ -240,10 +240,14 @@ HydroParams::setup_mpi(ConfigMap & configMap)
 
   // get world communicator size and check it is consistent with mesh grid sizes
   nProcs = MpiComm::world().getNProc();
-  if (nProcs != mx * my * mz)
+  error |= (nProcs != mx * my * (dimType == TWO_D ? 1 : mz));
+  if (error)
   {
     std::cerr << "Inconsistent MPI cartesian virtual topology geometry; \n mx*my*mz must match "
                  "with parameter given to mpirun !!!\n";
+
+    // do not let the processes that fit in the topology compute (and write output)
+    MPI_Abort(MPI_COMM_WORLD, EXIT_FAILURE);
   }
 
   // create the MPI communicator for our cartesian mesh
-- 
2.43.0


From e98ba9b7987c28db8ab8cd180b8713c49425864d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:10 +0000
Subject: [PATCH 02/38] fix: select the HLL Riemann solver in 3D hydro runs too

---
 src/shared/RiemannSolvers.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/shared/RiemannSolvers.h b/src/shared/RiemannSolvers.h
index 05c3396..c6be4f9 100644
--- a/src/shared/RiemannSolvers.h
+++ b/src/shared/RiemannSolvers.h
@@ -619,6 +619,11 @@ riemann_hydro(const HydroState3d & qleft,
 
     riemann_approx<HydroState3d>(qleft, qright, qgdnv, flux, params);
   }
+  else if (params.riemannSolverType == RIEMANN_HLL)
+  {
+
+    riemann_hll<HydroState3d>(qleft, qright, qgdnv, flux, params);
+  }
   else if (params.riemannSolverType == RIEMANN_HLLC)
   {
 
-- 
2.43.0


From 6c63532cc5f67ed6221dd67768cad15f3e07a48d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:10 +0000
Subject: [PATCH 03/38] fix: fall back when the Riemann solver or
 implementation variant is not available for the physics

---
 src/shared/HydroParams.cpp | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/shared/HydroParams.cpp b/src/shared/HydroParams.cpp
index 7f2ae75..be6e096 100644
--- a/src/shared/HydroParams.cpp
+++ b/src/shared/HydroParams.cpp
@@ -200,6 +200,21 @@ HydroParams::setup(ConfigMap & configMap)
     riemannSolverType = RIEMANN_APPROX;
   }
 
+  // solvers dedicated to the other physics would leave the fluxes undefined
+  if (mhdEnabled and
+      (riemannSolverType == RIEMANN_APPROX or riemannSolverType == RIEMANN_HLLC))
+  {
+    std::cout << "Riemann Solver specified in parameter file is hydro-only\n";
+    std::cout << "Use the MHD default one : hlld\n";
+    riemannSolverType = RIEMANN_HLLD;
+  }
+  else if (!mhdEnabled and riemannSolverType == RIEMANN_HLLD)
+  {
+    std::cout << "Riemann Solver specified in parameter file is MHD-only\n";
+    std::cout << "Use the default one : approx\n";
+    riemannSolverType = RIEMANN_APPROX;
+  }
+
   implementationVersion = configMap.getFloat("OTHER", "implementationVersion", 0);
   if (implementationVersion != 0 and implementationVersion != 1 and implementationVersion != 2)
   {
@@ -207,6 +222,12 @@ HydroParams::setup(ConfigMap & configMap)
     std::cout << "Use the default : 0\n";
     implementationVersion = 0;
   }
+  if (!mhdEnabled and implementationVersion == 2)
+  {
+    std::cout << "Implementation version 2 is only available for MHD\n";
+    std::cout << "Use the default : 0\n";
+    implementationVersion = 0;
+  }
 
   init();
 
-- 
2.43.0


From 619f9c7743fe1881c4f0052e4564ab362973031c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:05 +0000
Subject: [PATCH 04/38] fix: HLLD treats the degenerate aligned-field case
 without dividing by zero

---
 src/shared/RiemannSolvers_MHD.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/shared/RiemannSolvers_MHD.h b/src/shared/RiemannSolvers_MHD.h
index 86ed921..d0125cb 100644
--- a/src/shared/RiemannSolvers_MHD.h
+++ b/src/shared/RiemannSolvers_MHD.h
@@ -210,7 +210,7 @@ riemann_hlld(MHDState & qleft, MHDState & qright, MHDState & flux, const HydroPa
   real_t vstarl, wstarl;
   real_t bstarl, cstarl;
   // not very good (should use a small energy cut-off !!!)
-  if (a * a > 0 and fabs(estar / (a * a) - ONE_F) <= 1e-8)
+  if (fabs(estar) <= 1e-8 * a * a)
   {
     vstarl = vl;
     bstarl = bl;
@@ -240,7 +240,7 @@ riemann_hlld(MHDState & qleft, MHDState & qright, MHDState & flux, const HydroPa
   real_t vstarr, wstarr;
   real_t bstarr, cstarr;
   // not very good (should use a small energy cut-off !!!)
-  if (a * a > 0 and fabs(estar / (a * a) - ONE_F) <= 1e-8)
+  if (fabs(estar) <= 1e-8 * a * a)
   {
     vstarr = vr;
     bstarr = br;
-- 
2.43.0


From c23ad2400463d1ab3c704d1e15922eb603735904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:36 +0000
Subject: [PATCH 05/38] fix: field loop initial state independent of the
 process grid, energy consistent with field and velocity

---
 src/muscl/MHDInitFunctors2D.h | 14 +++++++++++---
 src/muscl/MHDInitFunctors3D.h |  8 +++++---
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/muscl/MHDInitFunctors2D.h b/src/muscl/MHDInitFunctors2D.h
index 09f38ce..0a20c2f 100644
--- a/src/muscl/MHDInitFunctors2D.h
+++ b/src/muscl/MHDInitFunctors2D.h
@@ -842,9 +842,13 @@ public:
 #ifdef USE_MPI
     const int i_mpi = params.myMpiPos[IX];
     const int j_mpi = params.myMpiPos[IY];
+    const int nx_glob = nx * params.mx;
+    const int ny_glob = ny * params.my;
 #else
     const int i_mpi = 0;
     const int j_mpi = 0;
+    const int nx_glob = nx;
+    const int ny_glob = ny;
 #endif
 
     const real_t xmin = params.xmin;
@@ -864,13 +868,15 @@ public:
     const real_t cos_theta = 2.0 / sqrt(5.0);
     const real_t sin_theta = sqrt(1 - cos_theta * cos_theta);
 
-    if (i >= ghostWidth and i < isize - ghostWidth and j >= ghostWidth and j < jsize - ghostWidth)
+    // one more cell on the upper side: the energy of the last interior cells needs the magnetic
+    // field on their upper faces
+    if (i >= ghostWidth and i <= isize - ghostWidth and j >= ghostWidth and j <= jsize - ghostWidth)
     {
 
       real_t x = xmin + dx / 2 + (i + nx * i_mpi - ghostWidth) * dx;
       real_t y = ymin + dy / 2 + (j + ny * j_mpi - ghostWidth) * dy;
 
-      real_t diag = sqrt(1.0 * (nx * nx + ny * ny + nz * nz));
+      real_t diag = sqrt(1.0 * (nx_glob * nx_glob + ny_glob * ny_glob + nz * nz));
       real_t r = sqrt(x * x + y * y);
 
       // density
@@ -927,7 +933,9 @@ public:
           1.0f / (gamma0 - 1.0) +
           0.5 * (0.25 * SQR(Udata(i, j, IA) + Udata(i + 1, j, IA)) +
                  0.25 * SQR(Udata(i, j, IB) + Udata(i, j + 1, IB))) +
-          0.5 * (Udata(i, j, IU) * Udata(i, j, IU) + Udata(i, j, IV) * Udata(i, j, IV)) /
+          0.5 *
+            (Udata(i, j, IU) * Udata(i, j, IU) + Udata(i, j, IV) * Udata(i, j, IV) +
+             Udata(i, j, IW) * Udata(i, j, IW)) /
             Udata(i, j, ID);
       }
     }
diff --git a/src/muscl/MHDInitFunctors3D.h b/src/muscl/MHDInitFunctors3D.h
index 5e996a4..29dd587 100644
--- a/src/muscl/MHDInitFunctors3D.h
+++ b/src/muscl/MHDInitFunctors3D.h
@@ -923,10 +923,12 @@ public:
     const real_t cos_theta = 2.0 / sqrt(5.0);
     const real_t sin_theta = sqrt(1 - cos_theta * cos_theta);
 
+    // one more cell on the upper side: the energy of the last interior cells needs the magnetic
+    // field on their upper faces
     // clang-format off
-    if (i >= ghostWidth and i < isize - ghostWidth and
-        j >= ghostWidth and j < jsize - ghostWidth and
-        k >= ghostWidth and k < ksize - ghostWidth)
+    if (i >= ghostWidth and i <= isize - ghostWidth and
+        j >= ghostWidth and j <= jsize - ghostWidth and
+        k >= ghostWidth and k <= ksize - ghostWidth)
     {
 
       real_t x = xmin + dx / 2 + (i + nx * i_mpi - ghostWidth) * dx;
-- 
2.43.0


From fe7406b9b41350f7e151bb83673df701521ed3af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:43 +0000
Subject: [PATCH 06/38] fix: 3D MHD variant 2 reconstructs the y magnetic
 component at x and y edges only once

---
 src/muscl/MHDRunFunctors3D.h | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/muscl/MHDRunFunctors3D.h b/src/muscl/MHDRunFunctors3D.h
index feef699..6f76a18 100644
--- a/src/muscl/MHDRunFunctors3D.h
+++ b/src/muscl/MHDRunFunctors3D.h
@@ -1500,12 +1500,7 @@ public:
     {
       qEdge[IB] = B0 + 0.5 * (sign_b0 * dB0d1);
     }
-    else
-    {
-      qEdge[IB] += 0.5 * (sign_dq0 * dq0[IB] + sign_dq1 * dq1[IB]);
-    }
-
-    if (dir1 == IY)
+    else if (dir1 == IY)
     {
       qEdge[IB] = B1 + 0.5 * (sign_b1 * dB1d0);
     }
-- 
2.43.0


From 87c273eb50dd363dde3288288f74cd59811e4d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:10 +0000
Subject: [PATCH 07/38] fix: 3D hydro variant 1 applies the gravity predictor
 on both sides of z faces

---
 src/muscl/HydroRunFunctors3D.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/muscl/HydroRunFunctors3D.h b/src/muscl/HydroRunFunctors3D.h
index 5d59a9e..c28c195 100644
--- a/src/muscl/HydroRunFunctors3D.h
+++ b/src/muscl/HydroRunFunctors3D.h
@@ -1346,6 +1346,16 @@ public:
         // left interface : right state
         trace_unsplit_3d_along_dir(qLoc, dqX, dqY, dqZ, dtdx, dtdy, dtdz, FACE_ZMIN, qright);
 
+        if (gravity_enabled)
+        {
+          // we need to modify input to flux computation with
+          // gravity predictor (half time step)
+
+          qright[IU] += 0.5 * dt * gravity(i, j, k, IX);
+          qright[IV] += 0.5 * dt * gravity(i, j, k, IY);
+          qright[IW] += 0.5 * dt * gravity(i, j, k, IZ);
+        }
+
         qLocNeighbor[ID] = Qdata(i, j, k - 1, ID);
         dqX_neighbor[ID] = Slopes_x(i, j, k - 1, ID);
         dqY_neighbor[ID] = Slopes_y(i, j, k - 1, ID);
-- 
2.43.0


From 151db5d468fe2f5c239e36ee6700db686380bb8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:43 +0000
Subject: [PATCH 08/38] fix: 3D limited slope of the face magnetic field along
 z uses the lower neighbour

---
 src/muscl/MHDBaseFunctor3D.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/muscl/MHDBaseFunctor3D.h b/src/muscl/MHDBaseFunctor3D.h
index cd068c7..a062d1c 100644
--- a/src/muscl/MHDBaseFunctor3D.h
+++ b/src/muscl/MHDBaseFunctor3D.h
@@ -139,7 +139,7 @@ public:
     // clang-format off
     const auto b       = udata(i          , j          , k          , component);
     const auto b_plus  = udata(i + delta_i, j + delta_j, k + delta_k, component);
-    const auto b_minus = udata(i - delta_i, j - delta_j, k + delta_k, component);
+    const auto b_minus = udata(i - delta_i, j - delta_j, k - delta_k, component);
     // clang-format on
 
     const real_t dlft = params.settings.slope_type * (b - b_minus);
-- 
2.43.0


From c407c102f259d30dafb912f5ceb03c58f9337079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:35 +0000
Subject: [PATCH 09/38] fix: viscous terms of the spectral difference solvers
 use the viscous fluxes and plain, fresh velocity gradients

---
 src/sdm/SDM_Interpolate_viscous_Functors.h | 26 +++++++++-------------
 src/sdm/SDM_Viscous_Flux_Functors.h        |  1 +
 src/sdm/SolverHydroSDM.h                   |  2 +-
 3 files changed, 12 insertions(+), 17 deletions(-)

diff --git a/src/sdm/SDM_Interpolate_viscous_Functors.h b/src/sdm/SDM_Interpolate_viscous_Functors.h
index e35f2a0..7c13d44 100644
--- a/src/sdm/SDM_Interpolate_viscous_Functors.h
+++ b/src/sdm/SDM_Interpolate_viscous_Functors.h
@@ -384,7 +384,7 @@ public:
     : SDMBaseFunctor<dim, N>(params, sdm_geom)
     , UdataFlux(UdataFlux)
     , nbvar(nbvar)
-    , var_index(){};
+    , var_index(var_index){};
 
   // static method which does it all: create and execute functor
   static void
@@ -775,7 +775,7 @@ public:
 
           // copy back interpolated value
           for (int idy = 0; idy < N; ++idy)
-            UdataSol(i, j, dofMapS(idx, idy, 0, index_var)) += sol[idy];
+            UdataSol(i, j, dofMapS(idx, idy, 0, index_var)) = sol[idy];
 
         } // end for ivar
 
@@ -843,7 +843,7 @@ public:
 
             // copy back interpolated value
             for (int idx = 0; idx < N; ++idx)
-              UdataSol(i, j, k, dofMapS(idx, idy, idz, index_var)) += sol[idx];
+              UdataSol(i, j, k, dofMapS(idx, idy, idz, index_var)) = sol[idx];
 
           } // end for ivar
 
@@ -879,7 +879,7 @@ public:
 
             // copy back interpolated value
             for (int idy = 0; idy < N; ++idy)
-              UdataSol(i, j, k, dofMapS(idx, idy, idz, index_var)) += sol[idy];
+              UdataSol(i, j, k, dofMapS(idx, idy, idz, index_var)) = sol[idy];
 
           } // end for ivar
 
@@ -915,7 +915,7 @@ public:
 
             // copy back interpolated value
             for (int idz = 0; idz < N; ++idz)
-              UdataSol(i, j, k, dofMapS(idx, idy, idz, index_var)) += sol[idz];
+              UdataSol(i, j, k, dofMapS(idx, idy, idz, index_var)) = sol[idz];
 
           } // end for ivar
 
@@ -1055,9 +1055,7 @@ public:
           for (int idx = 0; idx < N; ++idx)
           {
 
-            // divide momentum by density to obtain velocity
-            sol[idx] = UdataSol(i, j, dofMapS(idx, idy, 0, ivar_in)) /
-                       UdataSol(i, j, dofMapS(idx, idy, 0, ID));
+            sol[idx] = UdataSol(i, j, dofMapS(idx, idy, 0, ivar_in));
           }
 
           // interpolate at flux points for this given variable
@@ -1102,8 +1100,7 @@ public:
           for (int idy = 0; idy < N; ++idy)
           {
 
-            sol[idy] = UdataSol(i, j, dofMapS(idx, idy, 0, ivar_in)) /
-                       UdataSol(i, j, dofMapS(idx, idy, 0, ID));
+            sol[idy] = UdataSol(i, j, dofMapS(idx, idy, 0, ivar_in));
           }
 
           // interpolate at flux points for this given variable
@@ -1175,8 +1172,7 @@ public:
             for (int idx = 0; idx < N; ++idx)
             {
 
-              sol[idx] = UdataSol(i, j, k, dofMapS(idx, idy, idz, ivar_in)) /
-                         UdataSol(i, j, k, dofMapS(idx, idy, idz, ID));
+              sol[idx] = UdataSol(i, j, k, dofMapS(idx, idy, idz, ivar_in));
             }
 
             // interpolate at flux points for this given variable
@@ -1225,8 +1221,7 @@ public:
             for (int idy = 0; idy < N; ++idy)
             {
 
-              sol[idy] = UdataSol(i, j, k, dofMapS(idx, idy, idz, ivar_in)) /
-                         UdataSol(i, j, k, dofMapS(idx, idy, idz, ID));
+              sol[idy] = UdataSol(i, j, k, dofMapS(idx, idy, idz, ivar_in));
             }
 
             // interpolate at flux points for this given variable
@@ -1275,8 +1270,7 @@ public:
             for (int idz = 0; idz < N; ++idz)
             {
 
-              sol[idz] = UdataSol(i, j, k, dofMapS(idx, idy, idz, ivar_in)) /
-                         UdataSol(i, j, k, dofMapS(idx, idy, idz, ID));
+              sol[idz] = UdataSol(i, j, k, dofMapS(idx, idy, idz, ivar_in));
             }
 
             // interpolate at flux points for this given variable
diff --git a/src/sdm/SDM_Viscous_Flux_Functors.h b/src/sdm/SDM_Viscous_Flux_Functors.h
index 0b73d61..a59fd10 100644
--- a/src/sdm/SDM_Viscous_Flux_Functors.h
+++ b/src/sdm/SDM_Viscous_Flux_Functors.h
@@ -84,6 +84,7 @@ public:
                                          DataArray                   UdataFlux)
     : SDMBaseFunctor<dim, N>(params, sdm_geom)
     , euler(euler)
+    , FUgrad(FUgrad)
     , UdataFlux(UdataFlux){};
 
   // ================================================
diff --git a/src/sdm/SolverHydroSDM.h b/src/sdm/SolverHydroSDM.h
index 74a1334..730f865 100644
--- a/src/sdm/SolverHydroSDM.h
+++ b/src/sdm/SolverHydroSDM.h
@@ -1176,7 +1176,7 @@ SolverHydroSDM<dim, N>::compute_viscous_fluxes_divergence_per_dir(DataArray Udat
   // 5.2 Finally compute derivative and accumulate (with negative sign) in Udata_fdiv
   {
     Interpolate_At_SolutionPoints_Functor<dim, N, dir, INTERPOLATE_DERIVATIVE_NEGATIVE> functor(
-      params, sdm_geom, FUgrad, Udata_fdiv);
+      params, sdm_geom, Fluxes, Udata_fdiv);
     Kokkos::parallel_for(nbCells, functor);
   }
 
-- 
2.43.0


From 7bcc1fd8b638a4280377a3e4496fa7f708979dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:11 +0000
Subject: [PATCH 10/38] fix: 2D MHD primitive variables hold the full
 out-of-plane magnetic component

---
 src/muscl/MHDRunFunctors2D.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/muscl/MHDRunFunctors2D.h b/src/muscl/MHDRunFunctors2D.h
index 51c6592..9baf454 100644
--- a/src/muscl/MHDRunFunctors2D.h
+++ b/src/muscl/MHDRunFunctors2D.h
@@ -136,7 +136,7 @@ public:
       // get mag field in neighbor cells
       magFieldNeighbors[IX] = Udata(i + 1, j, IA);
       magFieldNeighbors[IY] = Udata(i, j + 1, IB);
-      magFieldNeighbors[IZ] = 0.0;
+      magFieldNeighbors[IZ] = Udata(i, j, IC);
 
       // get primitive variables in current cell
       constoprim_mhd(uLoc, magFieldNeighbors, c, qLoc);
-- 
2.43.0


From 5c3b0dd4106140ba6b6a39560896c609aace23b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:11 +0000
Subject: [PATCH 11/38] fix: hydro half-step predictor uses each direction's
 own cell size

---
 src/muscl/HydroBaseFunctor2D.h | 42 +++++++++----------
 src/muscl/HydroBaseFunctor3D.h | 74 +++++++++++++++++-----------------
 2 files changed, 59 insertions(+), 57 deletions(-)

diff --git a/src/muscl/HydroBaseFunctor2D.h b/src/muscl/HydroBaseFunctor2D.h
index 37f44fe..aac9706 100644
--- a/src/muscl/HydroBaseFunctor2D.h
+++ b/src/muscl/HydroBaseFunctor2D.h
@@ -244,49 +244,49 @@ public:
     real_t duy = dqY[IU];
     real_t dvy = dqY[IV];
 
-    // source terms (with transverse derivatives)
-    real_t sr0 = -u * drx - v * dry - (dux + dvy) * r;
-    real_t sp0 = -u * dpx - v * dpy - (dux + dvy) * gamma0 * p;
-    real_t su0 = -u * dux - v * duy - (dpx) / r;
-    real_t sv0 = -u * dvx - v * dvy - (dpy) / r;
+    // source terms (with transverse derivatives), integrated over a time step
+    real_t sr0 = (-u * drx - dux * r) * dtdx + (-v * dry - dvy * r) * dtdy;
+    real_t sp0 = (-u * dpx - dux * gamma0 * p) * dtdx + (-v * dpy - dvy * gamma0 * p) * dtdy;
+    real_t su0 = (-u * dux - dpx / r) * dtdx + (-v * duy) * dtdy;
+    real_t sv0 = (-u * dvx) * dtdx + (-v * dvy - dpy / r) * dtdy;
 
     if (faceId == FACE_XMIN)
     {
       // Right state at left interface
-      qface[ID] = r - HALF_F * drx + sr0 * dtdx * HALF_F;
-      qface[IP] = p - HALF_F * dpx + sp0 * dtdx * HALF_F;
-      qface[IU] = u - HALF_F * dux + su0 * dtdx * HALF_F;
-      qface[IV] = v - HALF_F * dvx + sv0 * dtdx * HALF_F;
+      qface[ID] = r - HALF_F * drx + sr0 * HALF_F;
+      qface[IP] = p - HALF_F * dpx + sp0 * HALF_F;
+      qface[IU] = u - HALF_F * dux + su0 * HALF_F;
+      qface[IV] = v - HALF_F * dvx + sv0 * HALF_F;
       qface[ID] = fmax(smallr, qface[ID]);
     }
 
     if (faceId == FACE_XMAX)
     {
       // Left state at right interface
-      qface[ID] = r + HALF_F * drx + sr0 * dtdx * HALF_F;
-      qface[IP] = p + HALF_F * dpx + sp0 * dtdx * HALF_F;
-      qface[IU] = u + HALF_F * dux + su0 * dtdx * HALF_F;
-      qface[IV] = v + HALF_F * dvx + sv0 * dtdx * HALF_F;
+      qface[ID] = r + HALF_F * drx + sr0 * HALF_F;
+      qface[IP] = p + HALF_F * dpx + sp0 * HALF_F;
+      qface[IU] = u + HALF_F * dux + su0 * HALF_F;
+      qface[IV] = v + HALF_F * dvx + sv0 * HALF_F;
       qface[ID] = fmax(smallr, qface[ID]);
     }
 
     if (faceId == FACE_YMIN)
     {
       // Top state at bottom interface
-      qface[ID] = r - HALF_F * dry + sr0 * dtdy * HALF_F;
-      qface[IP] = p - HALF_F * dpy + sp0 * dtdy * HALF_F;
-      qface[IU] = u - HALF_F * duy + su0 * dtdy * HALF_F;
-      qface[IV] = v - HALF_F * dvy + sv0 * dtdy * HALF_F;
+      qface[ID] = r - HALF_F * dry + sr0 * HALF_F;
+      qface[IP] = p - HALF_F * dpy + sp0 * HALF_F;
+      qface[IU] = u - HALF_F * duy + su0 * HALF_F;
+      qface[IV] = v - HALF_F * dvy + sv0 * HALF_F;
       qface[ID] = fmax(smallr, qface[ID]);
     }
 
     if (faceId == FACE_YMAX)
     {
       // Bottom state at top interface
-      qface[ID] = r + HALF_F * dry + sr0 * dtdy * HALF_F;
-      qface[IP] = p + HALF_F * dpy + sp0 * dtdy * HALF_F;
-      qface[IU] = u + HALF_F * duy + su0 * dtdy * HALF_F;
-      qface[IV] = v + HALF_F * dvy + sv0 * dtdy * HALF_F;
+      qface[ID] = r + HALF_F * dry + sr0 * HALF_F;
+      qface[IP] = p + HALF_F * dpy + sp0 * HALF_F;
+      qface[IU] = u + HALF_F * duy + su0 * HALF_F;
+      qface[IV] = v + HALF_F * dvy + sv0 * HALF_F;
       qface[ID] = fmax(smallr, qface[ID]);
     }
 
diff --git a/src/muscl/HydroBaseFunctor3D.h b/src/muscl/HydroBaseFunctor3D.h
index a8f6622..220c55f 100644
--- a/src/muscl/HydroBaseFunctor3D.h
+++ b/src/muscl/HydroBaseFunctor3D.h
@@ -313,76 +313,78 @@ public:
     real_t dvz = dqZ[IV];
     real_t dwz = dqZ[IW];
 
-    // source terms (with transverse derivatives)
-    real_t sr0 = -u * drx - v * dry - w * drz - (dux + dvy + dwz) * r;
-    real_t sp0 = -u * dpx - v * dpy - w * dpz - (dux + dvy + dwz) * gamma0 * p;
-    real_t su0 = -u * dux - v * duy - w * duz - (dpx) / r;
-    real_t sv0 = -u * dvx - v * dvy - w * dvz - (dpy) / r;
-    real_t sw0 = -u * dwx - v * dwy - w * dwz - (dpz) / r;
+    // source terms (with transverse derivatives), integrated over a time step
+    real_t sr0 = (-u * drx - dux * r) * dtdx + (-v * dry - dvy * r) * dtdy +
+                 (-w * drz - dwz * r) * dtdz;
+    real_t sp0 = (-u * dpx - dux * gamma0 * p) * dtdx + (-v * dpy - dvy * gamma0 * p) * dtdy +
+                 (-w * dpz - dwz * gamma0 * p) * dtdz;
+    real_t su0 = (-u * dux - dpx / r) * dtdx + (-v * duy) * dtdy + (-w * duz) * dtdz;
+    real_t sv0 = (-u * dvx) * dtdx + (-v * dvy - dpy / r) * dtdy + (-w * dvz) * dtdz;
+    real_t sw0 = (-u * dwx) * dtdx + (-v * dwy) * dtdy + (-w * dwz - dpz / r) * dtdz;
 
     if (faceId == FACE_XMIN)
     {
       // Right state at left interface
-      qface[ID] = r - HALF_F * drx + sr0 * dtdx * HALF_F;
-      qface[IP] = p - HALF_F * dpx + sp0 * dtdx * HALF_F;
-      qface[IU] = u - HALF_F * dux + su0 * dtdx * HALF_F;
-      qface[IV] = v - HALF_F * dvx + sv0 * dtdx * HALF_F;
-      qface[IW] = w - HALF_F * dwx + sw0 * dtdx * HALF_F;
+      qface[ID] = r - HALF_F * drx + sr0 * HALF_F;
+      qface[IP] = p - HALF_F * dpx + sp0 * HALF_F;
+      qface[IU] = u - HALF_F * dux + su0 * HALF_F;
+      qface[IV] = v - HALF_F * dvx + sv0 * HALF_F;
+      qface[IW] = w - HALF_F * dwx + sw0 * HALF_F;
       qface[ID] = fmax(smallr, qface[ID]);
     }
 
     if (faceId == FACE_XMAX)
     {
       // Left state at right interface
-      qface[ID] = r + HALF_F * drx + sr0 * dtdx * HALF_F;
-      qface[IP] = p + HALF_F * dpx + sp0 * dtdx * HALF_F;
-      qface[IU] = u + HALF_F * dux + su0 * dtdx * HALF_F;
-      qface[IV] = v + HALF_F * dvx + sv0 * dtdx * HALF_F;
-      qface[IW] = w + HALF_F * dwx + sw0 * dtdx * HALF_F;
+      qface[ID] = r + HALF_F * drx + sr0 * HALF_F;
+      qface[IP] = p + HALF_F * dpx + sp0 * HALF_F;
+      qface[IU] = u + HALF_F * dux + su0 * HALF_F;
+      qface[IV] = v + HALF_F * dvx + sv0 * HALF_F;
+      qface[IW] = w + HALF_F * dwx + sw0 * HALF_F;
       qface[ID] = fmax(smallr, qface[ID]);
     }
 
     if (faceId == FACE_YMIN)
     {
       // Top state at bottom interface
-      qface[ID] = r - HALF_F * dry + sr0 * dtdy * HALF_F;
-      qface[IP] = p - HALF_F * dpy + sp0 * dtdy * HALF_F;
-      qface[IU] = u - HALF_F * duy + su0 * dtdy * HALF_F;
-      qface[IV] = v - HALF_F * dvy + sv0 * dtdy * HALF_F;
-      qface[IW] = w - HALF_F * dwy + sw0 * dtdy * HALF_F;
+      qface[ID] = r - HALF_F * dry + sr0 * HALF_F;
+      qface[IP] = p - HALF_F * dpy + sp0 * HALF_F;
+      qface[IU] = u - HALF_F * duy + su0 * HALF_F;
+      qface[IV] = v - HALF_F * dvy + sv0 * HALF_F;
+      qface[IW] = w - HALF_F * dwy + sw0 * HALF_F;
       qface[ID] = fmax(smallr, qface[ID]);
     }
 
     if (faceId == FACE_YMAX)
     {
       // Bottom state at top interface
-      qface[ID] = r + HALF_F * dry + sr0 * dtdy * HALF_F;
-      qface[IP] = p + HALF_F * dpy + sp0 * dtdy * HALF_F;
-      qface[IU] = u + HALF_F * duy + su0 * dtdy * HALF_F;
-      qface[IV] = v + HALF_F * dvy + sv0 * dtdy * HALF_F;
-      qface[IW] = w + HALF_F * dwy + sw0 * dtdy * HALF_F;
+      qface[ID] = r + HALF_F * dry + sr0 * HALF_F;
+      qface[IP] = p + HALF_F * dpy + sp0 * HALF_F;
+      qface[IU] = u + HALF_F * duy + su0 * HALF_F;
+      qface[IV] = v + HALF_F * dvy + sv0 * HALF_F;
+      qface[IW] = w + HALF_F * dwy + sw0 * HALF_F;
       qface[ID] = fmax(smallr, qface[ID]);
     }
 
     if (faceId == FACE_ZMIN)
     {
       // Top state at bottom interface
-      qface[ID] = r - HALF_F * drz + sr0 * dtdz * HALF_F;
-      qface[IP] = p - HALF_F * dpz + sp0 * dtdz * HALF_F;
-      qface[IU] = u - HALF_F * duz + su0 * dtdz * HALF_F;
-      qface[IV] = v - HALF_F * dvz + sv0 * dtdz * HALF_F;
-      qface[IW] = w - HALF_F * dwz + sw0 * dtdz * HALF_F;
+      qface[ID] = r - HALF_F * drz + sr0 * HALF_F;
+      qface[IP] = p - HALF_F * dpz + sp0 * HALF_F;
+      qface[IU] = u - HALF_F * duz + su0 * HALF_F;
+      qface[IV] = v - HALF_F * dvz + sv0 * HALF_F;
+      qface[IW] = w - HALF_F * dwz + sw0 * HALF_F;
       qface[ID] = fmax(smallr, qface[ID]);
     }
 
     if (faceId == FACE_ZMAX)
     {
       // Top state at bottom interface
-      qface[ID] = r + HALF_F * drz + sr0 * dtdz * HALF_F;
-      qface[IP] = p + HALF_F * dpz + sp0 * dtdz * HALF_F;
-      qface[IU] = u + HALF_F * duz + su0 * dtdz * HALF_F;
-      qface[IV] = v + HALF_F * dvz + sv0 * dtdz * HALF_F;
-      qface[IW] = w + HALF_F * dwz + sw0 * dtdz * HALF_F;
+      qface[ID] = r + HALF_F * drz + sr0 * HALF_F;
+      qface[IP] = p + HALF_F * dpz + sp0 * HALF_F;
+      qface[IU] = u + HALF_F * duz + su0 * HALF_F;
+      qface[IV] = v + HALF_F * dvz + sv0 * HALF_F;
+      qface[IW] = w + HALF_F * dwz + sw0 * HALF_F;
       qface[ID] = fmax(smallr, qface[ID]);
     }
 
-- 
2.43.0


From 8cd8eb26673b4951a396688ebb1325edfc319e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:26 +0000
Subject: [PATCH 12/38] fix: speed of sound of the Euler equations is the
 square root of gamma p / rho

---
 src/shared/EulerEquations.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/shared/EulerEquations.h b/src/shared/EulerEquations.h
index fa63c53..b0b0b0a 100644
--- a/src/shared/EulerEquations.h
+++ b/src/shared/EulerEquations.h
@@ -118,7 +118,7 @@ struct EulerEquations<2>
   compute_speed_of_sound(const HydroState & w, real_t gamma0)
   {
 
-    return w[IP] * gamma0 / w[ID];
+    return sqrt(gamma0 * w[IP] / w[ID]);
 
   } // compute_speed_of_sound
 
@@ -515,7 +515,7 @@ struct EulerEquations<3>
   compute_speed_of_sound(const HydroState & w, real_t gamma0)
   {
 
-    return w[IP] * gamma0 / w[ID];
+    return sqrt(gamma0 * w[IP] / w[ID]);
 
   } // compute_speed_of_sound
 
-- 
2.43.0


From 6029b1a87b25ed513c4386abf8ff75f63c8d974e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:26 +0000
Subject: [PATCH 13/38] fix: characteristic limiter evaluates the speed of
 sound from primitive variables

---
 src/sdm/SDM_Limiter_Functors.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/sdm/SDM_Limiter_Functors.h b/src/sdm/SDM_Limiter_Functors.h
index 50fcb30..d2c37a4 100644
--- a/src/sdm/SDM_Limiter_Functors.h
+++ b/src/sdm/SDM_Limiter_Functors.h
@@ -932,7 +932,9 @@ public:
     }
 
     // speed of sound from cell-averaged values
-    const real_t c = euler.compute_speed_of_sound(Uave, gamma0);
+    HydroState Wave = {};
+    euler.convert_to_primitive(Uave, Wave, gamma0);
+    const real_t c = euler.compute_speed_of_sound(Wave, gamma0);
 
     // read cell-averaged gradient, and compute difference with close neighbors
     for (int ivar = 0; ivar < nbvar; ++ivar)
@@ -1069,7 +1071,9 @@ public:
     }
 
     // speed of sound from cell-averaged values
-    const real_t c = euler.compute_speed_of_sound(Uave, gamma0);
+    HydroState Wave = {};
+    euler.convert_to_primitive(Uave, Wave, gamma0);
+    const real_t c = euler.compute_speed_of_sound(Wave, gamma0);
 
     // read cell-averaged gradient, and compute difference with close neighbors
     for (int ivar = 0; ivar < nbvar; ++ivar)
-- 
2.43.0


From 477d3864a44ef8dbdfcdb2f4acffbcd637f749c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:22 +0000
Subject: [PATCH 14/38] fix: write the xdmf index next to the hdf5 files it
 lists

---
 src/utils/io/IO_HDF5.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utils/io/IO_HDF5.cpp b/src/utils/io/IO_HDF5.cpp
index 8e1424c..7327b78 100644
--- a/src/utils/io/IO_HDF5.cpp
+++ b/src/utils/io/IO_HDF5.cpp
@@ -134,7 +134,8 @@ writeXdmfForHdf5Wrapper(HydroParams &                      params,
     xdmfFilename = outputPrefix + "_" + outNum.str() + ".xmf";
   }
   std::fstream xdmfFile;
-  xdmfFile.open(xdmfFilename.c_str(), std::ios_base::out);
+  // the file names listed below are relative to the location of the hdf5 files
+  xdmfFile.open((outputDir + "/" + xdmfFilename).c_str(), std::ios_base::out);
 
   xdmfFile << "<?xml version=\"1.0\" ?>" << std::endl;
   xdmfFile << "<!DOCTYPE Xdmf SYSTEM \"Xdmf.dtd\" []>" << std::endl;
@@ -168,7 +169,6 @@ writeXdmfForHdf5Wrapper(HydroParams &                      params,
     // take care that the following filename must be exactly the same as in routine outputHdf5 !!!
     std::string baseName = outputPrefix + "_" + outNum.str();
     std::string hdf5Filename = outputPrefix + "_" + outNum.str() + ".h5";
-    std::string hdf5FilenameFull = outputDir + "/" + outputPrefix + "_" + outNum.str() + ".h5";
 
     xdmfFile << "    <Grid Name=\"" << baseName << "\" GridType=\"Uniform\">" << std::endl;
     xdmfFile << "    <Time Value=\"" << iStep << "\" />" << std::endl;
-- 
2.43.0


From 95259f355e62f12737a93a0cbe35e9f2d990100f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:04 +0000
Subject: [PATCH 15/38] fix: rayleigh_taylor, rising_bubble and disk without
 gravity enabled

---
 src/muscl/HydroInitFunctors2D.h | 21 ++++++++++++++-------
 src/muscl/HydroInitFunctors3D.h | 25 ++++++++++++++++---------
 2 files changed, 30 insertions(+), 16 deletions(-)

diff --git a/src/muscl/HydroInitFunctors2D.h b/src/muscl/HydroInitFunctors2D.h
index 198b8a7..b56b9a6 100644
--- a/src/muscl/HydroInitFunctors2D.h
+++ b/src/muscl/HydroInitFunctors2D.h
@@ -774,9 +774,12 @@ public:
     // P = P0 + rho g z
     Udata(i, j, IE) = (P0 + Udata(i, j, ID) * (gravity_x * x + gravity_y * y)) / (gamma0 - 1.0);
 
-    // init gravity field
-    gravity(i, j, IX) = gravity_x;
-    gravity(i, j, IY) = gravity_y;
+    // init gravity field (only allocated when gravity is enabled)
+    if (gravity.extent(0) > 0)
+    {
+      gravity(i, j, IX) = gravity_x;
+      gravity(i, j, IY) = gravity_y;
+    }
 
   } // end operator ()
 
@@ -889,9 +892,12 @@ public:
     // P = P0 + rho g z
     Udata(i, j, IE) = (P0 + Udata(i, j, ID) * (gravity_x * x + gravity_y * y)) / (gamma0 - 1.0);
 
-    // init gravity field
-    gravity(i, j, IX) = gravity_x;
-    gravity(i, j, IY) = gravity_y;
+    // init gravity field (only allocated when gravity is enabled)
+    if (gravity.extent(0) > 0)
+    {
+      gravity(i, j, IX) = gravity_x;
+      gravity(i, j, IY) = gravity_y;
+    }
 
   } // end operator ()
 
@@ -977,7 +983,8 @@ public:
 
     const real_t GM = grav.GM;
 
-    // init gravity field components
+    // init gravity field components (only allocated when gravity is enabled)
+    if (gravity.extent(0) > 0)
     {
       real_t gx, gy, gz;
       grav.eval(x, y, 0, gx, gy, gz);
diff --git a/src/muscl/HydroInitFunctors3D.h b/src/muscl/HydroInitFunctors3D.h
index 977bc1f..a457546 100644
--- a/src/muscl/HydroInitFunctors3D.h
+++ b/src/muscl/HydroInitFunctors3D.h
@@ -663,10 +663,13 @@ public:
     Udata(i, j, k, IE) =
       (P0 + Udata(i, j, k, ID) * (gravity_x * x + gravity_y * y + gravity_z * z)) / (gamma0 - 1);
 
-    // init gravity field
-    gravity(i, j, k, IX) = gravity_x;
-    gravity(i, j, k, IY) = gravity_y;
-    gravity(i, j, k, IZ) = gravity_z;
+    // init gravity field (only allocated when gravity is enabled)
+    if (gravity.extent(0) > 0)
+    {
+      gravity(i, j, k, IX) = gravity_x;
+      gravity(i, j, k, IY) = gravity_y;
+      gravity(i, j, k, IZ) = gravity_z;
+    }
 
   } // end operator ()
 
@@ -788,10 +791,13 @@ public:
     Udata(i, j, k, IE) =
       (P0 + Udata(i, j, k, ID) * (gravity_x * x + gravity_y * y + gravity_z * z)) / (gamma0 - 1.0);
 
-    // init gravity field
-    gravity(i, j, k, IX) = gravity_x;
-    gravity(i, j, k, IY) = gravity_y;
-    gravity(i, j, k, IZ) = gravity_z;
+    // init gravity field (only allocated when gravity is enabled)
+    if (gravity.extent(0) > 0)
+    {
+      gravity(i, j, k, IX) = gravity_x;
+      gravity(i, j, k, IY) = gravity_y;
+      gravity(i, j, k, IZ) = gravity_z;
+    }
 
   } // end operator ()
 
@@ -883,7 +889,8 @@ public:
 
     const real_t GM = grav.GM;
 
-    // init gravity field components
+    // init gravity field components (only allocated when gravity is enabled)
+    if (gravity.extent(0) > 0)
     {
       real_t gx, gy, gz;
       grav.eval(x, y, z, gx, gy, gz);
-- 
2.43.0


From eb4527b19f1d83801bf257f83d43564d97ffce49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:18 +0000
Subject: [PATCH 16/38] fix: restarted runs lost the static gravity field

---
 src/muscl/SolverHydroMuscl.cpp | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/src/muscl/SolverHydroMuscl.cpp b/src/muscl/SolverHydroMuscl.cpp
index 39d5b92..0fed87f 100644
--- a/src/muscl/SolverHydroMuscl.cpp
+++ b/src/muscl/SolverHydroMuscl.cpp
@@ -111,12 +111,9 @@ SolverHydroMuscl<2>::init(DataArray Udata)
   // test if we are performing a re-start run (default : false)
   bool restartEnabled = configMap.getBool("run", "restart_enabled", false);
 
-  if (restartEnabled)
-  { // load data from input data file
-
-    init_restart(Udata);
-  }
-  else
+  // the static gravity field is not part of output files, it is set up by the
+  // regular initialization, even for a restart run
+  if (!restartEnabled or m_gravity_enabled)
   { // regular initialization
 
     /*
@@ -178,6 +175,12 @@ SolverHydroMuscl<2>::init(DataArray Udata)
 
   } // end regular initialization
 
+  if (restartEnabled)
+  { // load data from input data file
+
+    init_restart(Udata);
+  }
+
 } // SolverHydroMuscl::init / 2d
 
 // =======================================================
@@ -190,12 +193,9 @@ SolverHydroMuscl<3>::init(DataArray Udata)
   // test if we are performing a re-start run (default : false)
   bool restartEnabled = configMap.getBool("run", "restart_enabled", false);
 
-  if (restartEnabled)
-  { // load data from input data file
-
-    init_restart(Udata);
-  }
-  else
+  // the static gravity field is not part of output files, it is set up by the
+  // regular initialization, even for a restart run
+  if (!restartEnabled or m_gravity_enabled)
   { // regular initialization
 
     /*
@@ -247,6 +247,12 @@ SolverHydroMuscl<3>::init(DataArray Udata)
 
   } // end regular initialization
 
+  if (restartEnabled)
+  { // load data from input data file
+
+    init_restart(Udata);
+  }
+
 } // SolverHydroMuscl<3>::init
 
 // =======================================================
-- 
2.43.0


From 0c4ee0cb4e23caecef17095e2abdd90eaf54dcfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:38 +0000
Subject: [PATCH 17/38] fix: snapshots that include ghost cells stored ghosts
 of an earlier state

save_solution wrote the state array without refreshing its ghost cells, so
ghostIncluded/allghostIncluded files held boundary values of an older state
(and, in a reassembled MPI file, overwrote cells of the neighbouring
sub-domains).
---
 src/muscl/SolverHydroMuscl.h | 14 ++++++++++----
 src/muscl/SolverMHDMuscl.h   | 14 ++++++++++----
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/muscl/SolverHydroMuscl.h b/src/muscl/SolverHydroMuscl.h
index 90ae1a3..3257978 100644
--- a/src/muscl/SolverHydroMuscl.h
+++ b/src/muscl/SolverHydroMuscl.h
@@ -810,10 +810,16 @@ SolverHydroMuscl<dim>::save_solution_impl()
 {
 
   timers[TIMER_IO]->start();
-  if (m_iteration % 2 == 0)
-    save_data(U, Uhost, m_times_saved, m_t);
-  else
-    save_data(U2, Uhost, m_times_saved, m_t);
+
+  DataArray Udata = m_iteration % 2 == 0 ? U : U2;
+
+  // ghost cells are only refreshed at the beginning of a time step: when they are
+  // written too, they must belong to the state being saved
+  if (configMap.getBool("output", "ghostIncluded", false) or
+      configMap.getBool("output", "allghostIncluded", false))
+    make_boundaries(Udata);
+
+  save_data(Udata, Uhost, m_times_saved, m_t);
 
   timers[TIMER_IO]->stop();
 
diff --git a/src/muscl/SolverMHDMuscl.h b/src/muscl/SolverMHDMuscl.h
index ecaaf08..4743dfc 100644
--- a/src/muscl/SolverMHDMuscl.h
+++ b/src/muscl/SolverMHDMuscl.h
@@ -897,10 +897,16 @@ SolverMHDMuscl<dim>::save_solution_impl()
 {
 
   timers[TIMER_IO]->start();
-  if (m_iteration % 2 == 0)
-    save_data(U, Uhost, m_times_saved, m_t);
-  else
-    save_data(U2, Uhost, m_times_saved, m_t);
+
+  DataArray Udata = m_iteration % 2 == 0 ? U : U2;
+
+  // ghost cells are only refreshed at the beginning of a time step: when they are
+  // written too, they must belong to the state being saved
+  if (configMap.getBool("output", "ghostIncluded", false) or
+      configMap.getBool("output", "allghostIncluded", false))
+    make_boundaries(Udata);
+
+  save_data(Udata, Uhost, m_times_saved, m_t);
 
   timers[TIMER_IO]->stop();
 
-- 
2.43.0


From b8cde64677842b6a36a6c7105c22d7c6587b70a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:38 +0000
Subject: [PATCH 18/38] fix: MPI snapshots written with reassembleInFile=false
 could not be read back

---
 src/utils/io/IO_HDF5.h | 45 ++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 43 insertions(+), 2 deletions(-)

diff --git a/src/utils/io/IO_HDF5.h b/src/utils/io/IO_HDF5.h
index bdaf688..04a3b82 100644
--- a/src/utils/io/IO_HDF5.h
+++ b/src/utils/io/IO_HDF5.h
@@ -2286,6 +2286,7 @@ public:
 
     bool ghostIncluded = this->configMap.getBool("output", "ghostIncluded", false);
     bool allghostIncluded = this->configMap.getBool("output", "allghostIncluded", false);
+    bool reassembleInFile = this->configMap.getBool("output", "reassembleInFile", true);
 
     // upscale init data from a file twice smaller
     // in this case we expected that ghost cells are present in input file
@@ -2359,7 +2360,40 @@ public:
     // hid_t dataspace_chunk;
     hid_t dataspace_file;
 
-    if (allghostIncluded)
+    if (!reassembleInFile)
+    { // sub-domains are stored one after the other
+
+      const bool withGhosts = ghostIncluded or allghostIncluded;
+
+      if (dimType == TWO_D)
+      {
+
+        dims_memory[0] = ny_rg;
+        dims_memory[1] = nx_rg;
+        dims_chunk[0] = withGhosts ? ny_rg : ny_r;
+        dims_chunk[1] = withGhosts ? nx_rg : nx_r;
+        dims_file[0] = dims_chunk[0] * (mx * my);
+        dims_file[1] = dims_chunk[1];
+        dataspace_memory = H5Screate_simple(2, dims_memory, NULL);
+        dataspace_file = H5Screate_simple(2, dims_file, NULL);
+      }
+      else
+      { // THREE_D
+
+        dims_memory[0] = nz_rg;
+        dims_memory[1] = ny_rg;
+        dims_memory[2] = nx_rg;
+        dims_chunk[0] = withGhosts ? nz_rg : nz_r;
+        dims_chunk[1] = withGhosts ? ny_rg : ny_r;
+        dims_chunk[2] = withGhosts ? nx_rg : nx_r;
+        dims_file[0] = dims_chunk[0] * (mx * my * mz);
+        dims_file[1] = dims_chunk[1];
+        dims_file[2] = dims_chunk[2];
+        dataspace_memory = H5Screate_simple(3, dims_memory, NULL);
+        dataspace_file = H5Screate_simple(3, dims_file, NULL);
+      }
+    }
+    else if (allghostIncluded)
     {
 
       if (dimType == TWO_D)
@@ -2519,7 +2553,14 @@ public:
      * select where we want to read our own piece of the global data
      * according to MPI rank.
      */
-    if (allghostIncluded)
+    if (!reassembleInFile)
+    {
+
+      hsize_t start[3] = { myRank * dims_chunk[0], 0, 0 };
+      hsize_t count[3] = { 1, 1, 1 };
+      status = H5Sselect_hyperslab(dataspace_file, H5S_SELECT_SET, start, NULL, count, dims_chunk);
+    }
+    else if (allghostIncluded)
     {
 
       if (dimType == TWO_D)
-- 
2.43.0


From 3e29ed04a42d7cd6ce3ae526777d7a1475b2cf63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:54 +0000
Subject: [PATCH 19/38] fix: the index of 2D parallel VTK output gave the
 pieces another z extent than the pieces themselves

---
 src/utils/io/IO_VTK.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/io/IO_VTK.cpp b/src/utils/io/IO_VTK.cpp
index c8b0a73..545f34b 100644
--- a/src/utils/io/IO_VTK.cpp
+++ b/src/utils/io/IO_VTK.cpp
@@ -959,7 +959,7 @@ write_pvti_header(std::string                        headerFilename,
         outHeader << 0 << " " << ny << " ";
       else
         outHeader << coords[1] * ny << " " << coords[1] * ny + ny << " ";
-      outHeader << 0 << " " << 1 << "\" Source=\"";
+      outHeader << 0 << " " << 0 << "\" Source=\"";
       outHeader << pieceFilename << "\"/>" << std::endl;
     }
   }
-- 
2.43.0


From 3aecc0cfab35c2eb42f656aa250532485ac4a627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:07 +0000
Subject: [PATCH 20/38] fix: lines of 200 characters and more were cut when a
 parameter file was read directly

---
 src/utils/config/inih/ini.cpp | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/utils/config/inih/ini.cpp b/src/utils/config/inih/ini.cpp
index 9f44c48..2c2621f 100644
--- a/src/utils/config/inih/ini.cpp
+++ b/src/utils/config/inih/ini.cpp
@@ -14,11 +14,11 @@ http://code.google.com/p/inih/
 #include <sstream>
 #include <iostream>
 #include <string>
+#include <fstream>
 #include <cctype> // for std::isspace
 
 #include "ini.h"
 
-#define MAX_LINE 200
 #define MAX_SECTION 50
 #define MAX_NAME 50
 
@@ -78,11 +78,10 @@ ini_parse(const char * filename,
           void * user)
 {
   /* Uses a fair bit of stack (use heap instead if you need to) */
-  char line[MAX_LINE];
-  char section[MAX_SECTION] = "";
-  char prev_name[MAX_NAME] = "";
+  char * line = NULL;
+  char   section[MAX_SECTION] = "";
+  char   prev_name[MAX_NAME] = "";
 
-  FILE * file;
   char * start;
   char * end;
   char * name;
@@ -90,14 +89,19 @@ ini_parse(const char * filename,
   int    lineno = 0;
   int    error = 0;
 
-  file = fopen(filename, "r");
+  std::ifstream file(filename);
   if (!file)
     return -1;
 
   /* Scan through file line by line */
-  while (fgets(line, sizeof(line), file) != NULL)
+  for (std::string linestr = ""; std::getline(file, linestr);)
   {
     lineno++;
+
+    // copy std::string into a regular C char array (lines may have any length)
+    line = new char[linestr.length() + 1];
+    strcpy(line, linestr.c_str());
+
     start = lskip(rstrip(line));
 
 #if INI_ALLOW_MULTILINE
@@ -155,9 +159,9 @@ ini_parse(const char * filename,
         error = lineno;
       }
     }
-  }
 
-  fclose(file);
+    delete[] line;
+  }
 
   return error;
 
-- 
2.43.0


From 63dd6fa69841b42babcdef6edacc2c79215ea5dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:07 +0000
Subject: [PATCH 21/38] fix: an indented comment line replaced the value of the
 parameter above it

---
 src/utils/config/inih/ini.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utils/config/inih/ini.cpp b/src/utils/config/inih/ini.cpp
index 2c2621f..2034f1a 100644
--- a/src/utils/config/inih/ini.cpp
+++ b/src/utils/config/inih/ini.cpp
@@ -105,7 +105,7 @@ ini_parse(const char * filename,
     start = lskip(rstrip(line));
 
 #if INI_ALLOW_MULTILINE
-    if (*prev_name && *start && start > line)
+    if (*prev_name && *start && *start != ';' && *start != '#' && start > line)
     {
       /* Non-black line with leading whitespace, treat as continuation
          of previous name's value (as per Python ConfigParser). */
@@ -206,7 +206,7 @@ ini_parse_buffer(char *& buffer,
     start = lskip(rstrip(line));
 
 #if INI_ALLOW_MULTILINE
-    if (*prev_name && *start && start > line)
+    if (*prev_name && *start && *start != ';' && *start != '#' && start > line)
     {
       /* Non-black line with leading whitespace, treat as continuation
    of previous name's value (as per Python ConfigParser). */
-- 
2.43.0


From 5124909f6948496a1e7d9b24754fc0ba080fa60a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:07 +0000
Subject: [PATCH 22/38] fix: the comment behind an empty value was taken for
 the value

---
 src/utils/config/inih/ini.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/utils/config/inih/ini.cpp b/src/utils/config/inih/ini.cpp
index 2034f1a..dc1603d 100644
--- a/src/utils/config/inih/ini.cpp
+++ b/src/utils/config/inih/ini.cpp
@@ -142,10 +142,11 @@ ini_parse(const char * filename,
       {
         *end = '\0';
         name = rstrip(start);
-        value = lskip(end + 1);
+        value = end + 1;
         end = find_char_or_comment(value, '\0');
         if (*end == ';')
           *end = '\0';
+        value = lskip(value);
         rstrip(value);
 
         /* Valid name=value pair found, call handler */
@@ -243,10 +244,11 @@ ini_parse_buffer(char *& buffer,
       {
         *end = '\0';
         name = rstrip(start);
-        value = lskip(end + 1);
+        value = end + 1;
         end = find_char_or_comment(value, '\0');
         if (*end == ';')
           *end = '\0';
+        value = lskip(value);
         rstrip(value);
 
         /* Valid name=value pair found, call handler */
-- 
2.43.0


From 53cb0d9b3fcc226ad00b2c59c9eaf5727df64a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:16 +0000
Subject: [PATCH 23/38] fix: comments behind continuation lines became part of
 the value

---
 src/utils/config/inih/ini.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/utils/config/inih/ini.cpp b/src/utils/config/inih/ini.cpp
index dc1603d..ebd4e6d 100644
--- a/src/utils/config/inih/ini.cpp
+++ b/src/utils/config/inih/ini.cpp
@@ -109,6 +109,10 @@ ini_parse(const char * filename,
     {
       /* Non-black line with leading whitespace, treat as continuation
          of previous name's value (as per Python ConfigParser). */
+      end = find_char_or_comment(start, '\0');
+      if (*end == ';')
+        *end = '\0';
+      rstrip(start);
       if (!handler(user, section, prev_name, start) && !error)
         error = lineno;
     }
@@ -211,6 +215,10 @@ ini_parse_buffer(char *& buffer,
     {
       /* Non-black line with leading whitespace, treat as continuation
    of previous name's value (as per Python ConfigParser). */
+      end = find_char_or_comment(start, '\0');
+      if (*end == ';')
+        *end = '\0';
+      rstrip(start);
       if (!handler(user, section, prev_name, start) && !error)
         error = lineno;
     }
-- 
2.43.0


From 2d026ff8e75d3da28bef1ed8f8164877a8182abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:46 +0000
Subject: [PATCH 24/38] fix: fast magnetosonic speed was NaN when rounding made
 its discriminant negative

---
 src/shared/mhd_utils.h | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/shared/mhd_utils.h b/src/shared/mhd_utils.h
index 78bc630..5b3af5f 100644
--- a/src/shared/mhd_utils.h
+++ b/src/shared/mhd_utils.h
@@ -104,13 +104,13 @@ find_speed_fast(const MHDState & qvar, const HydroParams & params)
   c2 = gamma0 * p / d;
   d2 = 0.5 * (b2 / d + c2);
   if (dir == IX)
-    cf = sqrt(d2 + sqrt(d2 * d2 - c2 * a * a / d));
+    cf = sqrt(d2 + sqrt(fmax(ZERO_F, d2 * d2 - c2 * a * a / d)));
 
   if (dir == IY)
-    cf = sqrt(d2 + sqrt(d2 * d2 - c2 * b * b / d));
+    cf = sqrt(d2 + sqrt(fmax(ZERO_F, d2 * d2 - c2 * b * b / d)));
 
   if (dir == IZ)
-    cf = sqrt(d2 + sqrt(d2 * d2 - c2 * c * c / d));
+    cf = sqrt(d2 + sqrt(fmax(ZERO_F, d2 * d2 - c2 * c * c / d)));
 
   return cf;
 
@@ -345,12 +345,12 @@ find_speed_info(const MHDState qState, real_t (&fastInfoSpeed)[3], const HydroPa
 
   d2 = 0.5 * (b2 / d + c2);
 
-  cf = sqrt(d2 + sqrt(d2 * d2 - c2 * a * a / d));
+  cf = sqrt(d2 + sqrt(fmax(ZERO_F, d2 * d2 - c2 * a * a / d)));
 
   fastInfoSpeed[IX] = cf + fabs(u);
 
   // compute fastest info speed along Y
-  cf = sqrt(d2 + sqrt(d2 * d2 - c2 * b * b / d));
+  cf = sqrt(d2 + sqrt(fmax(ZERO_F, d2 * d2 - c2 * b * b / d)));
 
   fastInfoSpeed[IY] = cf + fabs(v);
 
@@ -358,7 +358,7 @@ find_speed_info(const MHDState qState, real_t (&fastInfoSpeed)[3], const HydroPa
   // compute fastest info speed along Z
   if (NDIM == THREE_D)
   {
-    cf = sqrt(d2 + sqrt(d2 * d2 - c2 * c * c / d));
+    cf = sqrt(d2 + sqrt(fmax(ZERO_F, d2 * d2 - c2 * c * c / d)));
 
     fastInfoSpeed[IZ] = cf + fabs(w);
   } // end THREE_D
@@ -395,7 +395,7 @@ find_speed_info(const MHDState & qState, const HydroParams & params)
   b2 = a * a + b * b + c * c;
   c2 = gamma0 * p / d;
   d2 = 0.5 * (b2 / d + c2);
-  cf = sqrt(d2 + sqrt(d2 * d2 - c2 * a * a / d));
+  cf = sqrt(d2 + sqrt(fmax(ZERO_F, d2 * d2 - c2 * a * a / d)));
 
   // return value
   return cf + fabs(u);
-- 
2.43.0


From 7fbe7d8f36ee0827df3a20879c8bebec91d2e732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:58 +0000
Subject: [PATCH 25/38] fix: slopes were left uninitialised for slope_type=0
 (MHD, implementationVersion 2) and for unsupported values

---
 src/muscl/MHDBaseFunctor2D.h | 12 ++++++++++++
 src/muscl/MHDBaseFunctor3D.h | 12 ++++++++++++
 src/shared/HydroParams.cpp   |  6 ++++++
 3 files changed, 30 insertions(+)

diff --git a/src/muscl/MHDBaseFunctor2D.h b/src/muscl/MHDBaseFunctor2D.h
index 1cebea3..578de62 100644
--- a/src/muscl/MHDBaseFunctor2D.h
+++ b/src/muscl/MHDBaseFunctor2D.h
@@ -429,6 +429,18 @@ public:
       dq[IB] = slope_unsplit_hydro_2d_scalar(q[IB], qp[IB], qm[IB]);
       dq[IC] = slope_unsplit_hydro_2d_scalar(q[IC], qp[IC], qm[IC]);
     }
+    else
+    {
+      // slope_type = 0
+      dq[ID] = ZERO_F;
+      dq[IP] = ZERO_F;
+      dq[IU] = ZERO_F;
+      dq[IV] = ZERO_F;
+      dq[IW] = ZERO_F;
+      dq[IA] = ZERO_F;
+      dq[IB] = ZERO_F;
+      dq[IC] = ZERO_F;
+    }
 
   } // slope_unsplit_hydro_2d
 
diff --git a/src/muscl/MHDBaseFunctor3D.h b/src/muscl/MHDBaseFunctor3D.h
index a062d1c..7886603 100644
--- a/src/muscl/MHDBaseFunctor3D.h
+++ b/src/muscl/MHDBaseFunctor3D.h
@@ -534,6 +534,18 @@ public:
       dq[IB] = slope_unsplit_hydro_3d_scalar(q[IB], qp[IB], qm[IB]);
       dq[IC] = slope_unsplit_hydro_3d_scalar(q[IC], qp[IC], qm[IC]);
     }
+    else
+    {
+      // slope_type = 0
+      dq[ID] = ZERO_F;
+      dq[IP] = ZERO_F;
+      dq[IU] = ZERO_F;
+      dq[IV] = ZERO_F;
+      dq[IW] = ZERO_F;
+      dq[IA] = ZERO_F;
+      dq[IB] = ZERO_F;
+      dq[IC] = ZERO_F;
+    }
 
   } // slope_unsplit_hydro_3d
 
diff --git a/src/shared/HydroParams.cpp b/src/shared/HydroParams.cpp
index be6e096..81b3f58 100644
--- a/src/shared/HydroParams.cpp
+++ b/src/shared/HydroParams.cpp
@@ -159,6 +159,12 @@ HydroParams::setup(ConfigMap & configMap)
   settings.cfl = configMap.getFloat("hydro", "cfl", 0.5);
   settings.iorder = configMap.getInteger("hydro", "iorder", 2);
   settings.slope_type = configMap.getFloat("hydro", "slope_type", 1.0);
+  if (settings.slope_type != 0 and settings.slope_type != 1 and settings.slope_type != 2)
+  {
+    std::cout << "Slope type is invalid (must be 0, 1 or 2)\n";
+    std::cout << "Use the default : 1\n";
+    settings.slope_type = 1;
+  }
   settings.smallc = configMap.getFloat("hydro", "smallc", 1e-10);
   settings.smallr = configMap.getFloat("hydro", "smallr", 1e-10);
 
-- 
2.43.0


From c1bbbcb1f34a45985ccb66b1ca9c7a36d6c44137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:58 +0000
Subject: [PATCH 26/38] fix: the implosion problem stored velocities as momenta

---
 src/muscl/HydroInitFunctors2D.h   |  8 ++++----
 src/muscl/HydroInitFunctors3D.h   | 12 ++++++------
 src/muscl/MHDInitFunctors2D.h     |  8 ++++----
 src/muscl/MHDInitFunctors3D.h     | 12 ++++++------
 src/sdm/init/InitImplodeFunctor.h | 20 ++++++++++----------
 5 files changed, 30 insertions(+), 30 deletions(-)

diff --git a/src/muscl/HydroInitFunctors2D.h b/src/muscl/HydroInitFunctors2D.h
index b56b9a6..426532c 100644
--- a/src/muscl/HydroInitFunctors2D.h
+++ b/src/muscl/HydroInitFunctors2D.h
@@ -105,15 +105,15 @@ public:
     {
       Udata(i, j, ID) = rho_out;
       Udata(i, j, IP) = p_out / (gamma0 - 1.0) + 0.5 * rho_out * (u_out * u_out + v_out * v_out);
-      Udata(i, j, IU) = u_out;
-      Udata(i, j, IV) = v_out;
+      Udata(i, j, IU) = rho_out * u_out;
+      Udata(i, j, IV) = rho_out * v_out;
     }
     else
     {
       Udata(i, j, ID) = rho_in;
       Udata(i, j, IP) = p_in / (gamma0 - 1.0) + 0.5 * rho_in * (u_in * u_in + v_in * v_in);
-      Udata(i, j, IU) = u_in;
-      Udata(i, j, IV) = v_in;
+      Udata(i, j, IU) = rho_in * u_in;
+      Udata(i, j, IV) = rho_in * v_in;
     }
 
   } // end operator ()
diff --git a/src/muscl/HydroInitFunctors3D.h b/src/muscl/HydroInitFunctors3D.h
index a457546..4264f0d 100644
--- a/src/muscl/HydroInitFunctors3D.h
+++ b/src/muscl/HydroInitFunctors3D.h
@@ -147,18 +147,18 @@ public:
       Udata(i, j, k, ID) = rho_out;
       Udata(i, j, k, IP) =
         p_out / (gamma0 - 1.0) + 0.5 * rho_out * (u_out * u_out + v_out * v_out + w_out * w_out);
-      Udata(i, j, k, IU) = u_out;
-      Udata(i, j, k, IV) = v_out;
-      Udata(i, j, k, IW) = w_out;
+      Udata(i, j, k, IU) = rho_out * u_out;
+      Udata(i, j, k, IV) = rho_out * v_out;
+      Udata(i, j, k, IW) = rho_out * w_out;
     }
     else
     {
       Udata(i, j, k, ID) = rho_in;
       Udata(i, j, k, IP) =
         p_in / (gamma0 - 1.0) + 0.5 * rho_in * (u_in * u_in + v_in * v_in + w_in * w_in);
-      Udata(i, j, k, IU) = u_in;
-      Udata(i, j, k, IV) = v_in;
-      Udata(i, j, k, IW) = w_in;
+      Udata(i, j, k, IU) = rho_in * u_in;
+      Udata(i, j, k, IV) = rho_in * v_in;
+      Udata(i, j, k, IW) = rho_in * w_in;
     }
 
   } // end operator ()
diff --git a/src/muscl/MHDInitFunctors2D.h b/src/muscl/MHDInitFunctors2D.h
index 0a20c2f..4d49700 100644
--- a/src/muscl/MHDInitFunctors2D.h
+++ b/src/muscl/MHDInitFunctors2D.h
@@ -111,8 +111,8 @@ public:
       Udata(i, j, ID) = rho_out;
       Udata(i, j, IP) = p_out / (gamma0 - 1.0) + 0.5 * rho_out * (u_out * u_out + v_out * v_out) +
                         0.5 * (Bx_out * Bx_out + By_out * By_out);
-      Udata(i, j, IU) = u_out;
-      Udata(i, j, IV) = v_out;
+      Udata(i, j, IU) = rho_out * u_out;
+      Udata(i, j, IV) = rho_out * v_out;
       Udata(i, j, IW) = 0.0;
       Udata(i, j, IBX) = Bx_out;
       Udata(i, j, IBY) = By_out;
@@ -123,8 +123,8 @@ public:
       Udata(i, j, ID) = rho_in;
       Udata(i, j, IP) = p_in / (gamma0 - 1.0) + 0.5 * rho_in * (u_in * u_in + v_in * v_in) +
                         0.5 * (Bx_in * Bx_in + By_in * By_in);
-      Udata(i, j, IU) = u_in;
-      Udata(i, j, IV) = v_in;
+      Udata(i, j, IU) = rho_in * u_in;
+      Udata(i, j, IV) = rho_in * v_in;
       Udata(i, j, IW) = 0.0;
       Udata(i, j, IBX) = Bx_in;
       Udata(i, j, IBY) = By_in;
diff --git a/src/muscl/MHDInitFunctors3D.h b/src/muscl/MHDInitFunctors3D.h
index 29dd587..4b0169a 100644
--- a/src/muscl/MHDInitFunctors3D.h
+++ b/src/muscl/MHDInitFunctors3D.h
@@ -121,9 +121,9 @@ public:
       Udata(i, j, k, IP) = p_out / (gamma0 - 1.0) +
                            0.5 * rho_out * (u_out * u_out + v_out * v_out + w_out * w_out) +
                            0.5 * (Bx_out * Bx_out + By_out * By_out + Bz_out * Bz_out);
-      Udata(i, j, k, IU) = u_out;
-      Udata(i, j, k, IV) = v_out;
-      Udata(i, j, k, IW) = w_out;
+      Udata(i, j, k, IU) = rho_out * u_out;
+      Udata(i, j, k, IV) = rho_out * v_out;
+      Udata(i, j, k, IW) = rho_out * w_out;
       Udata(i, j, k, IBX) = Bx_out;
       Udata(i, j, k, IBY) = By_out;
       Udata(i, j, k, IBZ) = Bz_out;
@@ -134,9 +134,9 @@ public:
       Udata(i, j, k, IP) = p_in / (gamma0 - 1.0) +
                            0.5 * rho_in * (u_in * u_in + v_in * v_in + w_in * w_in) +
                            0.5 * (Bx_in * Bx_in + By_in * By_in + Bz_in * Bz_in);
-      Udata(i, j, k, IU) = u_in;
-      Udata(i, j, k, IV) = v_in;
-      Udata(i, j, k, IW) = w_in;
+      Udata(i, j, k, IU) = rho_in * u_in;
+      Udata(i, j, k, IV) = rho_in * v_in;
+      Udata(i, j, k, IW) = rho_in * w_in;
       Udata(i, j, k, IBX) = Bx_in;
       Udata(i, j, k, IBY) = By_in;
       Udata(i, j, k, IBZ) = Bz_in;
diff --git a/src/sdm/init/InitImplodeFunctor.h b/src/sdm/init/InitImplodeFunctor.h
index 371d01f..245c07b 100644
--- a/src/sdm/init/InitImplodeFunctor.h
+++ b/src/sdm/init/InitImplodeFunctor.h
@@ -125,16 +125,16 @@ public:
           Udata(i, j, dofMap(idx, idy, 0, ID)) = rho_out;
           Udata(i, j, dofMap(idx, idy, 0, IE)) =
             p_out / (gamma0 - 1.0) + 0.5 * rho_out * (u_out * u_out + v_out * v_out);
-          Udata(i, j, dofMap(idx, idy, 0, IU)) = u_out;
-          Udata(i, j, dofMap(idx, idy, 0, IV)) = v_out;
+          Udata(i, j, dofMap(idx, idy, 0, IU)) = rho_out * u_out;
+          Udata(i, j, dofMap(idx, idy, 0, IV)) = rho_out * v_out;
         }
         else
         {
           Udata(i, j, dofMap(idx, idy, 0, ID)) = rho_in;
           Udata(i, j, dofMap(idx, idy, 0, IE)) =
             p_in / (gamma0 - 1.0) + 0.5 * rho_in * (u_in * u_in + v_in * v_in);
-          Udata(i, j, dofMap(idx, idy, 0, IU)) = u_in;
-          Udata(i, j, dofMap(idx, idy, 0, IV)) = v_in;
+          Udata(i, j, dofMap(idx, idy, 0, IU)) = rho_in * u_in;
+          Udata(i, j, dofMap(idx, idy, 0, IV)) = rho_in * v_in;
         }
 
       } // end for idx
@@ -231,18 +231,18 @@ public:
             Udata(i, j, k, dofMap(idx, idy, idz, IE)) =
               p_out / (gamma0 - 1.0) +
               0.5 * rho_out * (u_out * u_out + v_out * v_out + w_out * w_out);
-            Udata(i, j, k, dofMap(idx, idy, idz, IU)) = u_out;
-            Udata(i, j, k, dofMap(idx, idy, idz, IV)) = v_out;
-            Udata(i, j, k, dofMap(idx, idy, idz, IW)) = w_out;
+            Udata(i, j, k, dofMap(idx, idy, idz, IU)) = rho_out * u_out;
+            Udata(i, j, k, dofMap(idx, idy, idz, IV)) = rho_out * v_out;
+            Udata(i, j, k, dofMap(idx, idy, idz, IW)) = rho_out * w_out;
           }
           else
           {
             Udata(i, j, k, dofMap(idx, idy, idz, ID)) = rho_in;
             Udata(i, j, k, dofMap(idx, idy, idz, IE)) =
               p_in / (gamma0 - 1.0) + 0.5 * rho_in * (u_in * u_in + v_in * v_in + w_in * w_in);
-            Udata(i, j, k, dofMap(idx, idy, idz, IU)) = u_in;
-            Udata(i, j, k, dofMap(idx, idy, idz, IV)) = v_in;
-            Udata(i, j, k, dofMap(idx, idy, idz, IW)) = w_in;
+            Udata(i, j, k, dofMap(idx, idy, idz, IU)) = rho_in * u_in;
+            Udata(i, j, k, dofMap(idx, idy, idz, IV)) = rho_in * v_in;
+            Udata(i, j, k, dofMap(idx, idy, idz, IW)) = rho_in * w_in;
           }
 
         } // end for idx
-- 
2.43.0


From f73847d85715b5b878fc83c05e2b9090207f3d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:45 +0000
Subject: [PATCH 27/38] fix: the 2D MHD implosion ignored the z components of
 velocity and magnetic field

---
 src/muscl/MHDInitFunctors2D.h | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/muscl/MHDInitFunctors2D.h b/src/muscl/MHDInitFunctors2D.h
index 4d49700..67215ca 100644
--- a/src/muscl/MHDInitFunctors2D.h
+++ b/src/muscl/MHDInitFunctors2D.h
@@ -87,16 +87,20 @@ public:
     const real_t p_out = this->iparams.p_out;
     const real_t u_out = this->iparams.u_out;
     const real_t v_out = this->iparams.v_out;
+    const real_t w_out = this->iparams.w_out;
     const real_t Bx_out = this->iparams.Bx_out;
     const real_t By_out = this->iparams.By_out;
+    const real_t Bz_out = this->iparams.Bz_out;
 
     // inner parameters
     const real_t rho_in = this->iparams.rho_in;
     const real_t p_in = this->iparams.p_in;
     const real_t u_in = this->iparams.u_in;
     const real_t v_in = this->iparams.v_in;
+    const real_t w_in = this->iparams.w_in;
     const real_t Bx_in = this->iparams.Bx_in;
     const real_t By_in = this->iparams.By_in;
+    const real_t Bz_in = this->iparams.Bz_in;
 
     const int shape = this->iparams.shape;
 
@@ -109,26 +113,28 @@ public:
     if (tmp)
     {
       Udata(i, j, ID) = rho_out;
-      Udata(i, j, IP) = p_out / (gamma0 - 1.0) + 0.5 * rho_out * (u_out * u_out + v_out * v_out) +
-                        0.5 * (Bx_out * Bx_out + By_out * By_out);
+      Udata(i, j, IP) = p_out / (gamma0 - 1.0) +
+                        0.5 * rho_out * (u_out * u_out + v_out * v_out + w_out * w_out) +
+                        0.5 * (Bx_out * Bx_out + By_out * By_out + Bz_out * Bz_out);
       Udata(i, j, IU) = rho_out * u_out;
       Udata(i, j, IV) = rho_out * v_out;
-      Udata(i, j, IW) = 0.0;
+      Udata(i, j, IW) = rho_out * w_out;
       Udata(i, j, IBX) = Bx_out;
       Udata(i, j, IBY) = By_out;
-      Udata(i, j, IBZ) = 0.0;
+      Udata(i, j, IBZ) = Bz_out;
     }
     else
     {
       Udata(i, j, ID) = rho_in;
-      Udata(i, j, IP) = p_in / (gamma0 - 1.0) + 0.5 * rho_in * (u_in * u_in + v_in * v_in) +
-                        0.5 * (Bx_in * Bx_in + By_in * By_in);
+      Udata(i, j, IP) = p_in / (gamma0 - 1.0) +
+                        0.5 * rho_in * (u_in * u_in + v_in * v_in + w_in * w_in) +
+                        0.5 * (Bx_in * Bx_in + By_in * By_in + Bz_in * Bz_in);
       Udata(i, j, IU) = rho_in * u_in;
       Udata(i, j, IV) = rho_in * v_in;
-      Udata(i, j, IW) = 0.0;
+      Udata(i, j, IW) = rho_in * w_in;
       Udata(i, j, IBX) = Bx_in;
       Udata(i, j, IBY) = By_in;
-      Udata(i, j, IBZ) = 0.0;
+      Udata(i, j, IBZ) = Bz_in;
     }
 
   } // end operator ()
-- 
2.43.0


From 424097408de2f9c63f53f4f88bebf8bbfa4191e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:45 +0000
Subject: [PATCH 28/38] fix: the energy of the Rayleigh-Taylor problem lacked
 the kinetic energy of the perturbation

---
 src/muscl/HydroInitFunctors2D.h | 3 ++-
 src/muscl/HydroInitFunctors3D.h | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/muscl/HydroInitFunctors2D.h b/src/muscl/HydroInitFunctors2D.h
index 426532c..8a80ac5 100644
--- a/src/muscl/HydroInitFunctors2D.h
+++ b/src/muscl/HydroInitFunctors2D.h
@@ -772,7 +772,8 @@ public:
     // initial hydrostatic equilibrium :
     // -dP/dz + rho*g = 0
     // P = P0 + rho g z
-    Udata(i, j, IE) = (P0 + Udata(i, j, ID) * (gravity_x * x + gravity_y * y)) / (gamma0 - 1.0);
+    Udata(i, j, IE) = (P0 + Udata(i, j, ID) * (gravity_x * x + gravity_y * y)) / (gamma0 - 1.0) +
+                      0.5 * Udata(i, j, IV) * Udata(i, j, IV) / Udata(i, j, ID);
 
     // init gravity field (only allocated when gravity is enabled)
     if (gravity.extent(0) > 0)
diff --git a/src/muscl/HydroInitFunctors3D.h b/src/muscl/HydroInitFunctors3D.h
index 4264f0d..256950a 100644
--- a/src/muscl/HydroInitFunctors3D.h
+++ b/src/muscl/HydroInitFunctors3D.h
@@ -661,7 +661,8 @@ public:
       amplitude * (1 + cos(2 * M_PI * x / Lx)) * (1 + cos(2 * M_PI * y / Ly)) / 4;
 
     Udata(i, j, k, IE) =
-      (P0 + Udata(i, j, k, ID) * (gravity_x * x + gravity_y * y + gravity_z * z)) / (gamma0 - 1);
+      (P0 + Udata(i, j, k, ID) * (gravity_x * x + gravity_y * y + gravity_z * z)) / (gamma0 - 1) +
+      0.5 * Udata(i, j, k, IW) * Udata(i, j, k, IW) / Udata(i, j, k, ID);
 
     // init gravity field (only allocated when gravity is enabled)
     if (gravity.extent(0) > 0)
-- 
2.43.0


From 882c8c1a67cd9b1b4e0f67b3c942767fa5f87737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:45 +0000
Subject: [PATCH 29/38] fix: the 3D Gresho vortex had a velocity along its axis

---
 src/muscl/HydroInitFunctors3D.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/muscl/HydroInitFunctors3D.h b/src/muscl/HydroInitFunctors3D.h
index 256950a..907f589 100644
--- a/src/muscl/HydroInitFunctors3D.h
+++ b/src/muscl/HydroInitFunctors3D.h
@@ -521,7 +521,7 @@ public:
     Udata(i, j, k, ID) = rho0;
     Udata(i, j, k, IU) = rho0 * (-sinT * uphi);
     Udata(i, j, k, IV) = rho0 * (cosT * uphi);
-    Udata(i, j, k, IW) = rho0 * (cosT * uphi);
+    Udata(i, j, k, IW) = 0.0;
     Udata(i, j, k, IP) = p / (gamma0 - 1.0) + 0.5 *
                                                 (Udata(i, j, k, IU) * Udata(i, j, k, IU) +
                                                  Udata(i, j, k, IV) * Udata(i, j, k, IV) +
-- 
2.43.0


From 23ca4b560ffb67810db58f06743c720356c30cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:45 +0000
Subject: [PATCH 30/38] fix: SDM four quadrant problem was shifted by half a
 cell

---
 src/sdm/init/InitFourQuadrantFunctor.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sdm/init/InitFourQuadrantFunctor.h b/src/sdm/init/InitFourQuadrantFunctor.h
index 0c60cf9..24339c9 100644
--- a/src/sdm/init/InitFourQuadrantFunctor.h
+++ b/src/sdm/init/InitFourQuadrantFunctor.h
@@ -107,8 +107,8 @@ public:
       {
 
         // lower left corner
-        real_t x = xmin + dx / 2 + (i + nx * i_mpi - ghostWidth) * dx;
-        real_t y = ymin + dy / 2 + (j + ny * j_mpi - ghostWidth) * dy;
+        real_t x = xmin + (i + nx * i_mpi - ghostWidth) * dx;
+        real_t y = ymin + (j + ny * j_mpi - ghostWidth) * dy;
 
         // Dof location in real space
         x += this->sdm_geom.solution_pts_1d(idx) * dx;
-- 
2.43.0


From 85da65a9c6f95a72b17d39ba9fd833be0ae9a0ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:45 +0000
Subject: [PATCH 31/38] fix: 2D Riemann problem configurations 6, 10 and 19

---
 src/shared/problems/initRiemannConfig2d.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/shared/problems/initRiemannConfig2d.h b/src/shared/problems/initRiemannConfig2d.h
index f780abc..ba5d5c7 100644
--- a/src/shared/problems/initRiemannConfig2d.h
+++ b/src/shared/problems/initRiemannConfig2d.h
@@ -174,7 +174,7 @@ getRiemannConfig2d(int            numConfig,
       U1[ID] = 2.0;
       U1[IU] = 0.75;
       U1[IV] = 0.5;
-      U1[IP] = 0.5;
+      U1[IP] = 1.0;
 
       U2[ID] = 1.0;
       U2[IU] = -0.75;
@@ -275,7 +275,7 @@ getRiemannConfig2d(int            numConfig,
 
       U3[ID] = 0.4562;
       U3[IU] = 0.0;
-      U3[IV] = -0.4259;
+      U3[IV] = -0.4297;
       U3[IP] = 0.3333;
 
       break;
@@ -485,6 +485,7 @@ getRiemannConfig2d(int            numConfig,
       U3[IV] = -0.4259;
       U3[IP] = 0.4;
 
+      break;
     default:
       // Config 1
       U0[ID] = 1.0;
-- 
2.43.0


From e015dae993767f97d6eb620854b3569151772c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:45 +0000
Subject: [PATCH 32/38] fix: rotor problem: the core did not rotate as a solid
 body (2D), momentum lacked the density (3D)

---
 src/muscl/MHDInitFunctors2D.h | 4 ++--
 src/muscl/MHDInitFunctors3D.h | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/muscl/MHDInitFunctors2D.h b/src/muscl/MHDInitFunctors2D.h
index 67215ca..89fdf57 100644
--- a/src/muscl/MHDInitFunctors2D.h
+++ b/src/muscl/MHDInitFunctors2D.h
@@ -658,8 +658,8 @@ public:
     if (r <= r0)
     {
       Udata(i, j, ID) = 10.0;
-      Udata(i, j, IU) = -Udata(i, j, ID) * f_r * u0 * (y - yCenter) / r0;
-      Udata(i, j, IV) = Udata(i, j, ID) * f_r * u0 * (x - xCenter) / r0;
+      Udata(i, j, IU) = -Udata(i, j, ID) * u0 * (y - yCenter) / r0;
+      Udata(i, j, IV) = Udata(i, j, ID) * u0 * (x - xCenter) / r0;
     }
     else if (r <= r1)
     {
diff --git a/src/muscl/MHDInitFunctors3D.h b/src/muscl/MHDInitFunctors3D.h
index 4b0169a..4967a67 100644
--- a/src/muscl/MHDInitFunctors3D.h
+++ b/src/muscl/MHDInitFunctors3D.h
@@ -696,14 +696,14 @@ public:
     if (r <= r0)
     {
       Udata(i, j, k, ID) = 10.0;
-      Udata(i, j, k, IU) = -u0 * (y - yCenter) / r0;
-      Udata(i, j, k, IV) = u0 * (x - xCenter) / r0;
+      Udata(i, j, k, IU) = -Udata(i, j, k, ID) * u0 * (y - yCenter) / r0;
+      Udata(i, j, k, IV) = Udata(i, j, k, ID) * u0 * (x - xCenter) / r0;
     }
     else if (r <= r1)
     {
       Udata(i, j, k, ID) = 1 + 9 * f_r;
-      Udata(i, j, k, IU) = -f_r * u0 * (y - yCenter) / r;
-      Udata(i, j, k, IV) = f_r * u0 * (x - xCenter) / r;
+      Udata(i, j, k, IU) = -Udata(i, j, k, ID) * f_r * u0 * (y - yCenter) / r;
+      Udata(i, j, k, IV) = Udata(i, j, k, ID) * f_r * u0 * (x - xCenter) / r;
     }
     else
     {
-- 
2.43.0


From a2aa73dce6715b28dc23081377592622418a2801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:45 +0000
Subject: [PATCH 33/38] fix: disk problem: not a number in a cell at the
 centre, negative kinetic energy where there is no rotation

---
 src/muscl/HydroInitFunctors2D.h | 7 ++++---
 src/muscl/HydroInitFunctors3D.h | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/muscl/HydroInitFunctors2D.h b/src/muscl/HydroInitFunctors2D.h
index 8a80ac5..9811dca 100644
--- a/src/muscl/HydroInitFunctors2D.h
+++ b/src/muscl/HydroInitFunctors2D.h
@@ -1002,8 +1002,8 @@ public:
       real_t r_sph = sqrt(r2 + eps * eps + z * z);
 
       // Use softened coordinates
-      real_t x_soft = x * (r_soft / r);
-      real_t y_soft = y * (r_soft / r);
+      real_t x_soft = r > 0 ? x * (r_soft / r) : 0;
+      real_t y_soft = r > 0 ? y * (r_soft / r) : 0;
 
       // local speed of sound
       const real_t csound = dparams.radial_speed_of_sound(r);
@@ -1053,7 +1053,8 @@ public:
 
       const double pressure = csound * csound * rho;
 
-      Udata(i, j, IE) = pressure / (gamma0 - 1.0) + 0.5 * rho * omega2 * (r2 + eps * eps);
+      Udata(i, j, IE) = pressure / (gamma0 - 1.0) +
+                      0.5 * rho * omega * omega * (x_soft * x_soft + y_soft * y_soft);
     }
 
   } // end operator ()
diff --git a/src/muscl/HydroInitFunctors3D.h b/src/muscl/HydroInitFunctors3D.h
index 907f589..5081522 100644
--- a/src/muscl/HydroInitFunctors3D.h
+++ b/src/muscl/HydroInitFunctors3D.h
@@ -909,8 +909,8 @@ public:
       real_t r_sph = sqrt(r2 + eps * eps + z * z);
 
       // Use softened coordinates
-      real_t x_soft = x * (r_soft / r);
-      real_t y_soft = y * (r_soft / r);
+      real_t x_soft = r > 0 ? x * (r_soft / r) : 0;
+      real_t y_soft = r > 0 ? y * (r_soft / r) : 0;
 
       // local speed of sound
       const real_t csound = dparams.radial_speed_of_sound(r);
@@ -961,7 +961,8 @@ public:
 
       const double pressure = csound * csound * rho;
 
-      Udata(i, j, k, IE) = pressure / (gamma0 - 1.0) + 0.5 * rho * omega2 * (r2 + eps * eps);
+      Udata(i, j, k, IE) = pressure / (gamma0 - 1.0) +
+                      0.5 * rho * omega * omega * (x_soft * x_soft + y_soft * y_soft);
     }
 
   } // end operator ()
-- 
2.43.0


From 7bd1d4fa4f6434d2d50b1b0eeaa4dfe27723c1bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:55 +0000
Subject: [PATCH 34/38] fix: Kelvin-Helmholtz with perturbation_sine only left
 hydrodynamic states unset

---
 src/muscl/HydroInitFunctors2D.h           | 17 ++++++++++
 src/muscl/HydroInitFunctors3D.h           | 19 ++++++++++++
 src/sdm/init/InitKelvinHelmholtzFunctor.h | 38 +++++++++++++++++++++++
 3 files changed, 74 insertions(+)

diff --git a/src/muscl/HydroInitFunctors2D.h b/src/muscl/HydroInitFunctors2D.h
index 9811dca..b432a3a 100644
--- a/src/muscl/HydroInitFunctors2D.h
+++ b/src/muscl/HydroInitFunctors2D.h
@@ -334,6 +334,23 @@ public:
       Udata(i, j, IV) = d * v;
       Udata(i, j, IP) = pressure / (gamma0 - 1.0) + 0.5 * d * (u * u + v * v);
     }
+    else if (khParams.p_sine)
+    {
+
+      const int    n = khParams.mode;
+      const real_t w0 = khParams.w0;
+      const double y1 = 0.25;
+      const double y2 = 0.75;
+
+      const real_t d = (y >= y1 and y <= y2) ? d_in : d_out;
+      const real_t u = (y >= y1 and y <= y2) ? vflow_in : vflow_out;
+      const real_t v = w0 * sin(n * M_PI * x);
+
+      Udata(i, j, ID) = d;
+      Udata(i, j, IU) = d * u;
+      Udata(i, j, IV) = d * v;
+      Udata(i, j, IP) = pressure / (gamma0 - 1.0) + 0.5 * d * (u * u + v * v);
+    }
 
   } // end operator ()
 
diff --git a/src/muscl/HydroInitFunctors3D.h b/src/muscl/HydroInitFunctors3D.h
index 5081522..46817fd 100644
--- a/src/muscl/HydroInitFunctors3D.h
+++ b/src/muscl/HydroInitFunctors3D.h
@@ -411,6 +411,25 @@ public:
       Udata(i, j, k, IW) = d * w;
       Udata(i, j, k, IP) = pressure / (gamma0 - 1.0) + 0.5 * d * (u * u + v * v + w * w);
     }
+    else if (khParams.p_sine)
+    {
+
+      const int    n = khParams.mode;
+      const real_t w0 = khParams.w0;
+      const double z1 = 0.25;
+      const double z2 = 0.75;
+
+      const real_t d = (z >= z1 and z <= z2) ? d_in : d_out;
+      const real_t u = (z >= z1 and z <= z2) ? vflow_in : vflow_out;
+      const real_t v = 0;
+      const real_t w = w0 * sin(n * M_PI * x);
+
+      Udata(i, j, k, ID) = d;
+      Udata(i, j, k, IU) = d * u;
+      Udata(i, j, k, IV) = d * v;
+      Udata(i, j, k, IW) = d * w;
+      Udata(i, j, k, IP) = pressure / (gamma0 - 1.0) + 0.5 * d * (u * u + v * v + w * w);
+    }
 
   } // end operator ()
 
diff --git a/src/sdm/init/InitKelvinHelmholtzFunctor.h b/src/sdm/init/InitKelvinHelmholtzFunctor.h
index fdbfd54..96802e3 100644
--- a/src/sdm/init/InitKelvinHelmholtzFunctor.h
+++ b/src/sdm/init/InitKelvinHelmholtzFunctor.h
@@ -175,6 +175,24 @@ public:
           Udata(i, j, dofMap(idx, idy, 0, IE)) =
             pressure / (gamma0 - 1.0) + 0.5 * d * (u * u + v * v);
         }
+        else if (khParams.p_sine)
+        {
+
+          const int    n = khParams.mode;
+          const real_t w0 = khParams.w0;
+          const double y1 = 0.25;
+          const double y2 = 0.75;
+
+          const real_t d = (y >= y1 and y <= y2) ? d_in : d_out;
+          const real_t u = (y >= y1 and y <= y2) ? vflow_in : vflow_out;
+          const real_t v = w0 * sin(n * M_PI * x);
+
+          Udata(i, j, dofMap(idx, idy, 0, ID)) = d;
+          Udata(i, j, dofMap(idx, idy, 0, IU)) = d * u;
+          Udata(i, j, dofMap(idx, idy, 0, IV)) = d * v;
+          Udata(i, j, dofMap(idx, idy, 0, IE)) =
+            pressure / (gamma0 - 1.0) + 0.5 * d * (u * u + v * v);
+        }
 
       } // end for idx
     } // end for idy
@@ -330,6 +348,26 @@ public:
             Udata(i, j, k, dofMap(idx, idy, idz, IE)) =
               pressure / (gamma0 - 1.0) + 0.5 * d * (u * u + v * v + w * w);
           }
+          else if (khParams.p_sine)
+          {
+
+            const int    n = khParams.mode;
+            const real_t w0 = khParams.w0;
+            const double z1 = 0.25;
+            const double z2 = 0.75;
+
+            const real_t d = (z >= z1 and z <= z2) ? d_in : d_out;
+            const real_t u = (z >= z1 and z <= z2) ? vflow_in : vflow_out;
+            const real_t v = 0;
+            const real_t w = w0 * sin(n * M_PI * x);
+
+            Udata(i, j, k, dofMap(idx, idy, idz, ID)) = d;
+            Udata(i, j, k, dofMap(idx, idy, idz, IU)) = d * u;
+            Udata(i, j, k, dofMap(idx, idy, idz, IV)) = d * v;
+            Udata(i, j, k, dofMap(idx, idy, idz, IW)) = d * w;
+            Udata(i, j, k, dofMap(idx, idy, idz, IE)) =
+              pressure / (gamma0 - 1.0) + 0.5 * d * (u * u + v * v + w * w);
+          }
 
         } // end for idx
       } // end for idy
-- 
2.43.0


From 62a2a2f927ad0d49b5b35a29c0defaf1ce769971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:57 +0000
Subject: [PATCH 35/38] fix: averages of the spectral difference limiters:
 weights of the quadrature did not sum to one, cells lost or gained mass

---
 src/sdm/SDM_Geometry.h         | 23 +++++++++
 src/sdm/SDM_Limiter_Functors.h | 93 ++++++++++------------------------
 2 files changed, 50 insertions(+), 66 deletions(-)

diff --git a/src/sdm/SDM_Geometry.h b/src/sdm/SDM_Geometry.h
index e994a75..604559b 100644
--- a/src/sdm/SDM_Geometry.h
+++ b/src/sdm/SDM_Geometry.h
@@ -108,6 +108,11 @@ public:
   //! location of solution points in reference cell [0,1]^dim, host array
   PointsArray1DHost solution_pts_1d_host;
 
+  //! quadrature weights attached to the solution points: the average over [0,1] of the
+  //! polynomial of degree N-1 taking values u_i at the solution points is sum_i w_i u_i
+  //! (Fejer quadrature, the weights sum to 1), device array
+  PointsArray1D solution_weights_1d;
+
   //! dim-dimensional array of solution points location (obtained by tensorial product)
   PointsArray solution_pts;
 
@@ -422,6 +427,24 @@ private:
     // copy to device
     Kokkos::deep_copy(solution_pts_1d, solution_pts_1d_host);
 
+    // quadrature weights (Fejer's first rule, Gauss-Chebyshev points)
+    solution_weights_1d = PointsArray1D("solution_weights_1d", N);
+    PointsArray1DHost solution_weights_1d_host = Kokkos::create_mirror(solution_weights_1d);
+
+    for (int i = 0; i < N; i++)
+    {
+      const real_t theta = M_PI * (2 * i + 1) / 2 / N;
+
+      real_t w = 1.0;
+      for (int k = 1; k <= N / 2; k++)
+        w -= 2.0 * cos(2 * k * theta) / (4 * k * k - 1);
+
+      solution_weights_1d_host(i) = w / N;
+    }
+
+    // copy to device
+    Kokkos::deep_copy(solution_weights_1d, solution_weights_1d_host);
+
     // =================
     // Flux points
     // =================
diff --git a/src/sdm/SDM_Limiter_Functors.h b/src/sdm/SDM_Limiter_Functors.h
index d2c37a4..7793360 100644
--- a/src/sdm/SDM_Limiter_Functors.h
+++ b/src/sdm/SDM_Limiter_Functors.h
@@ -26,7 +26,7 @@ namespace sdm
  * This functor computes the average HydroState in each cell
  * and store the result in Uaverage.
  *
- * The space average is performed using a Gauss-Chebyshev quadrature.
+ * The space average is performed using the quadrature attached to the solution points.
  */
 template <int dim, int N>
 class Average_Conservative_Variables_Functor : public SDMBaseFunctor<dim, N>
@@ -82,27 +82,22 @@ public:
 
       real_t tmp = 0.0;
 
-      // perform the Gauss-Chebyshev quadrature
+      // perform the quadrature
 
       // for each DoFs
       for (int idy = 0; idy < N; ++idy)
       {
-        real_t y = this->sdm_geom.solution_pts_1d(idy);
-        real_t wy = sqrt(y - y * y);
+        real_t wy = this->sdm_geom.solution_weights_1d(idy);
 
         for (int idx = 0; idx < N; ++idx)
         {
-          real_t x = this->sdm_geom.solution_pts_1d(idx);
-          real_t wx = sqrt(x - x * x);
+          real_t wx = this->sdm_geom.solution_weights_1d(idx);
 
           tmp += Udata(i, j, dofMap(idx, idy, 0, ivar)) * wx * wy;
 
         } // for idx
       } // for idy
 
-      // final scaling
-      tmp *= (M_PI / N) * (M_PI / N);
-
       const real_t smallr = this->params.settings.smallr;
       if (ivar == ID)
         Uaverage(i, j, ID) = tmp > smallr ? tmp : smallr;
@@ -140,23 +135,20 @@ public:
 
       real_t tmp = 0.0;
 
-      // perform the Gauss-Chebyshev quadrature
+      // perform the quadrature
 
       // for each DoFs
       for (int idz = 0; idz < N; ++idz)
       {
-        real_t z = this->sdm_geom.solution_pts_1d(idz);
-        real_t wz = sqrt(z - z * z);
+        real_t wz = this->sdm_geom.solution_weights_1d(idz);
 
         for (int idy = 0; idy < N; ++idy)
         {
-          real_t y = this->sdm_geom.solution_pts_1d(idy);
-          real_t wy = sqrt(y - y * y);
+          real_t wy = this->sdm_geom.solution_weights_1d(idy);
 
           for (int idx = 0; idx < N; ++idx)
           {
-            real_t x = this->sdm_geom.solution_pts_1d(idx);
-            real_t wx = sqrt(x - x * x);
+            real_t wx = this->sdm_geom.solution_weights_1d(idx);
 
             tmp += Udata(i, j, k, dofMap(idx, idy, idz, ivar)) * wx * wy * wz;
 
@@ -164,9 +156,6 @@ public:
         } // for idy
       } // for idz
 
-      // final scaling
-      tmp *= (M_PI / N) * (M_PI / N) * (M_PI / N);
-
       const real_t smallr = this->params.settings.smallr;
       if (ivar == ID)
         Uaverage(i, j, k, ID) = tmp > smallr ? tmp : smallr;
@@ -393,7 +382,7 @@ public:
  * This functor computes one component of the average HydroState gradient
  * in each cell and store the result in Uaverage.
  *
- * The space average is performed using a Gauss-Chebyshev quadrature.
+ * The space average is performed using the quadrature attached to the solution points.
  *
  * \tparam dir integer to specify direction / component of the gradient
  * dir can IX,IY in 2D or IX,IY,IZ in 3D.
@@ -466,8 +455,7 @@ public:
         {
 
           // compute quadrature  weight for the current line of dofs
-          real_t y = this->sdm_geom.solution_pts_1d(idy);
-          real_t wy = sqrt(y - y * y);
+          real_t wy = this->sdm_geom.solution_weights_1d(idy);
 
           // read a line
           for (int idx = 0; idx < N; ++idx)
@@ -490,8 +478,7 @@ public:
             }
 
             // we can now accumulate this grad_val into the average gradient
-            real_t x = this->sdm_geom.solution_pts_1d(idx);
-            real_t wx = sqrt(x - x * x);
+            real_t wx = this->sdm_geom.solution_weights_1d(idx);
 
             tmp_average += grad_val * wx * wy;
 
@@ -499,10 +486,7 @@ public:
 
         } // end for idy
 
-        // we swept all the dof, all we need is the final scaling
-        tmp_average *= (M_PI / N) * (M_PI / N);
-
-        // store the result
+        // we swept all the dof, store the result
         Uaverage(i, j, ivar) = tmp_average;
 
       } // end for ivar
@@ -527,8 +511,7 @@ public:
         {
 
           // compute quadrature  weight for the current line of dofs
-          real_t x = this->sdm_geom.solution_pts_1d(idx);
-          real_t wx = sqrt(x - x * x);
+          real_t wx = this->sdm_geom.solution_weights_1d(idx);
 
           // read a line
           for (int idy = 0; idy < N; ++idy)
@@ -551,8 +534,7 @@ public:
             }
 
             // we can now accumulate this grad_val into the average gradient
-            real_t y = this->sdm_geom.solution_pts_1d(idy);
-            real_t wy = sqrt(y - y * y);
+            real_t wy = this->sdm_geom.solution_weights_1d(idy);
 
             tmp_average += grad_val * wx * wy;
 
@@ -560,10 +542,7 @@ public:
 
         } // end for idy
 
-        // we swept all the dof, all we need is the final scaling
-        tmp_average *= (M_PI / N) * (M_PI / N);
-
-        // store the result
+        // we swept all the dof, store the result
         Uaverage(i, j, ivar) = tmp_average;
 
       } // end for ivar
@@ -611,15 +590,13 @@ public:
         {
 
           // compute quadrature weight for the current line of dofs
-          real_t z = this->sdm_geom.solution_pts_1d(idz);
-          real_t wz = sqrt(z - z * z);
+          real_t wz = this->sdm_geom.solution_weights_1d(idz);
 
           for (int idy = 0; idy < N; ++idy)
           {
 
             // compute quadrature weight for the current line of dofs
-            real_t y = this->sdm_geom.solution_pts_1d(idy);
-            real_t wy = sqrt(y - y * y);
+            real_t wy = this->sdm_geom.solution_weights_1d(idy);
 
             // read a line-vector
             for (int idx = 0; idx < N; ++idx)
@@ -639,8 +616,7 @@ public:
               }
 
               // we can now accumulate this grad_val into the average gradient
-              real_t x = this->sdm_geom.solution_pts_1d(idx);
-              real_t wx = sqrt(x - x * x);
+              real_t wx = this->sdm_geom.solution_weights_1d(idx);
 
               tmp_average += grad_val * wx * wy * wz;
 
@@ -649,10 +625,7 @@ public:
           } // end for idy
         } // end for idz
 
-        // we swept all the dof, all we need is the final scaling
-        tmp_average *= (M_PI / N) * (M_PI / N) * (M_PI / N);
-
-        // store the result
+        // we swept all the dof, store the result
         Uaverage(i, j, k, ivar) = tmp_average;
 
       } // end for ivar
@@ -677,15 +650,13 @@ public:
         {
 
           // compute quadrature weight for the current line of dofs
-          real_t z = this->sdm_geom.solution_pts_1d(idz);
-          real_t wz = sqrt(z - z * z);
+          real_t wz = this->sdm_geom.solution_weights_1d(idz);
 
           for (int idx = 0; idx < N; ++idx)
           {
 
             // compute quadrature weight for the current line of dofs
-            real_t x = this->sdm_geom.solution_pts_1d(idx);
-            real_t wx = sqrt(x - x * x);
+            real_t wx = this->sdm_geom.solution_weights_1d(idx);
 
             // read a line-vector
             for (int idy = 0; idy < N; ++idy)
@@ -705,8 +676,7 @@ public:
               }
 
               // we can now accumulate this grad_val into the average gradient
-              real_t y = this->sdm_geom.solution_pts_1d(idy);
-              real_t wy = sqrt(y - y * y);
+              real_t wy = this->sdm_geom.solution_weights_1d(idy);
 
               tmp_average += grad_val * wx * wy * wz;
 
@@ -716,10 +686,7 @@ public:
 
         } // end for idz
 
-        // we swept all the dof, all we need is the final scaling
-        tmp_average *= (M_PI / N) * (M_PI / N) * (M_PI / N);
-
-        // store the result
+        // we swept all the dof, store the result
         Uaverage(i, j, k, ivar) = tmp_average;
 
       } // end for ivar
@@ -744,15 +711,13 @@ public:
         {
 
           // compute quadrature weight for the current line of dofs
-          real_t x = this->sdm_geom.solution_pts_1d(idx);
-          real_t wx = sqrt(x - x * x);
+          real_t wx = this->sdm_geom.solution_weights_1d(idx);
 
           for (int idy = 0; idy < N; ++idy)
           {
 
             // compute quadrature weight for the current line of dofs
-            real_t y = this->sdm_geom.solution_pts_1d(idy);
-            real_t wy = sqrt(y - y * y);
+            real_t wy = this->sdm_geom.solution_weights_1d(idy);
 
             // read a line-vector
             for (int idz = 0; idz < N; ++idz)
@@ -772,8 +737,7 @@ public:
               }
 
               // we can now accumulate this grad_val into the average gradient
-              real_t z = this->sdm_geom.solution_pts_1d(idz);
-              real_t wz = sqrt(z - z * z);
+              real_t wz = this->sdm_geom.solution_weights_1d(idz);
 
               tmp_average += grad_val * wx * wy * wz;
 
@@ -783,10 +747,7 @@ public:
 
         } // end for idz
 
-        // we swept all the dof, all we need is the final scaling
-        tmp_average *= (M_PI / N) * (M_PI / N) * (M_PI / N);
-
-        // store the result
+        // we swept all the dof, store the result
         Uaverage(i, j, k, ivar) = tmp_average;
 
       } // end for ivar
-- 
2.43.0


From f38890632c778fc649cf707bd48cc21bbeb54b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:57 +0000
Subject: [PATCH 36/38] fix: positivity procedure: cells whose minimum density
 equals their average up to rounding

---
 src/sdm/SDM_Positivity_preserving.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sdm/SDM_Positivity_preserving.h b/src/sdm/SDM_Positivity_preserving.h
index f705105..1d7bdd1 100644
--- a/src/sdm/SDM_Positivity_preserving.h
+++ b/src/sdm/SDM_Positivity_preserving.h
@@ -161,7 +161,7 @@ public:
     } // end for idy
 
     const real_t eps1 = this->params.settings.smallr; // a small density
-    const real_t ratio = (rho_ave - eps1) / (rho_ave - rho_min) + 1e-13;
+    const real_t ratio = fabs(rho_ave - eps1) / (fabs(rho_ave - rho_min) + 1e-13);
     const real_t theta1 = ratio < 1.0 ? ratio : 1.0;
 
     // check if we need to modify density at solution points and flux points
@@ -527,7 +527,7 @@ public:
     } // end for idz
 
     const real_t eps1 = this->params.settings.smallr; // a small density
-    const real_t ratio = (rho_ave - eps1) / (rho_ave - rho_min) + 1e-13;
+    const real_t ratio = fabs(rho_ave - eps1) / (fabs(rho_ave - rho_min) + 1e-13);
     const real_t theta1 = ratio < 1.0 ? ratio : 1.0;
 
     // check if we need to modify density at solution points and flux points
@@ -1048,7 +1048,7 @@ public:
 
     // we can now compute theta1
     const real_t eps1 = this->params.settings.smallr; // a small density
-    const real_t ratio = (rho_ave - eps1) / (rho_ave - rho_min) + 1e-13;
+    const real_t ratio = fabs(rho_ave - eps1) / (fabs(rho_ave - rho_min) + 1e-13);
     const real_t theta1 = ratio < 1.0 ? ratio : 1.0;
 
     // check if we need to modify density at solution points
@@ -1413,7 +1413,7 @@ public:
 
     // we can now compute theta1
     const real_t eps1 = this->params.settings.smallr; // a small density
-    const real_t ratio = (rho_ave - eps1) / (rho_ave - rho_min) + 1e-13;
+    const real_t ratio = fabs(rho_ave - eps1) / (fabs(rho_ave - rho_min) + 1e-13);
     const real_t theta1 = ratio < 1.0 ? ratio : 1.0;
 
     // check if we need to modify density at solution points and flux points
-- 
2.43.0


From 4c9e99bea9c7e3fcf57bdc82b76b5e87ece39355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:32 +0000
Subject: [PATCH 37/38] fix: limited spectral difference data were not passed
 to the ghost cells, periodic and process boundaries lost mass

---
 src/sdm/SolverHydroSDM.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/sdm/SolverHydroSDM.h b/src/sdm/SolverHydroSDM.h
index 730f865..4eadb02 100644
--- a/src/sdm/SolverHydroSDM.h
+++ b/src/sdm/SolverHydroSDM.h
@@ -1063,6 +1063,10 @@ SolverHydroSDM<dim, N>::apply_limiting(DataArray Udata)
     Apply_limiter_Functor<dim, N>::apply(
       params, sdm_geom, euler, Udata, Uaverage, Ugradx, Ugrady, Ugradz, Mdx2);
 
+    // only interior cells were limited; refill ghost cells, so that both sides
+    // of a (periodic, wall or process) boundary compute the same fluxes
+    make_boundaries(Udata);
+
   } // end limiter_enabled
 
 } // SolverHydroSDM<dim,N>::apply_limiting
-- 
2.43.0


From 9fc3b5c0e01c49006351c02d244e3a6829267600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:52 +0000
Subject: [PATCH 38/38] fix: wedge and jet boundary conditions of the spectral
 difference solver were not applied in MPI builds

---
 src/sdm/SolverHydroSDM.h | 49 ++++++++++++++++++++++++++++++++--------
 1 file changed, 39 insertions(+), 10 deletions(-)

diff --git a/src/sdm/SolverHydroSDM.h b/src/sdm/SolverHydroSDM.h
index 4eadb02..e627ce3 100644
--- a/src/sdm/SolverHydroSDM.h
+++ b/src/sdm/SolverHydroSDM.h
@@ -321,6 +321,11 @@ public:
   void
   make_boundary_sdm_jet(DataArray Udata, JetParams jparams);
 
+  //! fill ghost cells outside the global domain, general or problem specific
+  template <FaceIdType faceId>
+  void
+  make_boundary_sdm_physical(DataArray Udata, bool mhd_enabled);
+
   //! main boundaries routine (this is were serial / mpi switch happens)
   void
   make_boundaries(DataArray Udata);
@@ -1615,6 +1620,30 @@ SolverHydroSDM<dim, N>::make_boundary_sdm_jet(DataArray Udata, JetParams jparams
 
 } // SolverHydroSDM<dim,N>::make_boundary_sdm_jet
 
+// =======================================================
+// =======================================================
+template <int dim, int N>
+template <FaceIdType faceId>
+void
+SolverHydroSDM<dim, N>::make_boundary_sdm_physical(DataArray Udata, bool mhd_enabled)
+{
+
+  // wedge and jet have a different border condition
+  if (dim == 2 and !m_problem_name.compare("wedge"))
+  {
+    make_boundary_sdm_wedge<faceId>(Udata, WedgeParams(configMap, m_t));
+  }
+  else if (!m_problem_name.compare("jet"))
+  {
+    make_boundary_sdm_jet<faceId>(Udata, JetParams(configMap));
+  }
+  else
+  {
+    make_boundary_sdm<faceId>(Udata, mhd_enabled);
+  }
+
+} // SolverHydroSDM<dim,N>::make_boundary_sdm_physical
+
 // =======================================================
 // =======================================================
 // //////////////////////////////////////////////////
@@ -1730,7 +1759,7 @@ SolverHydroSDM<dim, N>::make_boundaries_sdm_mpi(DataArray Udata, bool mhd_enable
     }
     else
     {
-      make_boundary_sdm<FACE_XMIN>(Udata, mhd_enabled);
+      make_boundary_sdm_physical<FACE_XMIN>(Udata, mhd_enabled);
     }
 
     if (params.neighborsBC[X_MAX] == BC_COPY || params.neighborsBC[X_MAX] == BC_PERIODIC)
@@ -1739,7 +1768,7 @@ SolverHydroSDM<dim, N>::make_boundaries_sdm_mpi(DataArray Udata, bool mhd_enable
     }
     else
     {
-      make_boundary_sdm<FACE_XMAX>(Udata, mhd_enabled);
+      make_boundary_sdm_physical<FACE_XMAX>(Udata, mhd_enabled);
     }
 
     params.communicator->synchronize();
@@ -1756,7 +1785,7 @@ SolverHydroSDM<dim, N>::make_boundaries_sdm_mpi(DataArray Udata, bool mhd_enable
     }
     else
     {
-      make_boundary_sdm<FACE_YMIN>(Udata, mhd_enabled);
+      make_boundary_sdm_physical<FACE_YMIN>(Udata, mhd_enabled);
     }
 
     if (params.neighborsBC[Y_MAX] == BC_COPY || params.neighborsBC[Y_MAX] == BC_PERIODIC)
@@ -1765,7 +1794,7 @@ SolverHydroSDM<dim, N>::make_boundaries_sdm_mpi(DataArray Udata, bool mhd_enable
     }
     else
     {
-      make_boundary_sdm<FACE_YMAX>(Udata, mhd_enabled);
+      make_boundary_sdm_physical<FACE_YMAX>(Udata, mhd_enabled);
     }
 
     params.communicator->synchronize();
@@ -1785,7 +1814,7 @@ SolverHydroSDM<dim, N>::make_boundaries_sdm_mpi(DataArray Udata, bool mhd_enable
     }
     else
     {
-      make_boundary_sdm<FACE_XMIN>(Udata, mhd_enabled);
+      make_boundary_sdm_physical<FACE_XMIN>(Udata, mhd_enabled);
     }
 
     if (params.neighborsBC[X_MAX] == BC_COPY || params.neighborsBC[X_MAX] == BC_PERIODIC)
@@ -1794,7 +1823,7 @@ SolverHydroSDM<dim, N>::make_boundaries_sdm_mpi(DataArray Udata, bool mhd_enable
     }
     else
     {
-      make_boundary_sdm<FACE_XMAX>(Udata, mhd_enabled);
+      make_boundary_sdm_physical<FACE_XMAX>(Udata, mhd_enabled);
     }
 
     params.communicator->synchronize();
@@ -1811,7 +1840,7 @@ SolverHydroSDM<dim, N>::make_boundaries_sdm_mpi(DataArray Udata, bool mhd_enable
     }
     else
     {
-      make_boundary_sdm<FACE_YMIN>(Udata, mhd_enabled);
+      make_boundary_sdm_physical<FACE_YMIN>(Udata, mhd_enabled);
     }
 
     if (params.neighborsBC[Y_MAX] == BC_COPY || params.neighborsBC[Y_MAX] == BC_PERIODIC)
@@ -1820,7 +1849,7 @@ SolverHydroSDM<dim, N>::make_boundaries_sdm_mpi(DataArray Udata, bool mhd_enable
     }
     else
     {
-      make_boundary_sdm<FACE_YMAX>(Udata, mhd_enabled);
+      make_boundary_sdm_physical<FACE_YMAX>(Udata, mhd_enabled);
     }
 
     params.communicator->synchronize();
@@ -1837,7 +1866,7 @@ SolverHydroSDM<dim, N>::make_boundaries_sdm_mpi(DataArray Udata, bool mhd_enable
     }
     else
     {
-      make_boundary_sdm<FACE_ZMIN>(Udata, mhd_enabled);
+      make_boundary_sdm_physical<FACE_ZMIN>(Udata, mhd_enabled);
     }
 
     if (params.neighborsBC[Z_MAX] == BC_COPY || params.neighborsBC[Z_MAX] == BC_PERIODIC)
@@ -1846,7 +1875,7 @@ SolverHydroSDM<dim, N>::make_boundaries_sdm_mpi(DataArray Udata, bool mhd_enable
     }
     else
     {
-      make_boundary_sdm<FACE_ZMAX>(Udata, mhd_enabled);
+      make_boundary_sdm_physical<FACE_ZMAX>(Udata, mhd_enabled);
     }
 
     params.communicator->synchronize();
-- 
2.43.0

