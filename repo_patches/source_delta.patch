From 866487162e4d9a92220fae84b67b1ab17bc9e261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:49 +0000
Subject: [PATCH 01/37] fix: segment distance query returned a far point when
 dR/ds=0 passes through a corner of the domain

---
 Collision/DCPQuery.hpp | 47 +++++++++++++++++-------------------------
 1 file changed, 19 insertions(+), 28 deletions(-)

diff --git a/Collision/DCPQuery.hpp b/Collision/DCPQuery.hpp
index 316ec95..71af6b2 100644
--- a/Collision/DCPQuery.hpp
+++ b/Collision/DCPQuery.hpp
@@ -12,6 +12,7 @@
 #ifndef DCPQUERRY_HPP_
 #define DCPQUERRY_HPP_
 
+#include <algorithm>
 #include <cmath>
 #include <limits>
 
@@ -343,12 +344,9 @@ template <int N, typename Real, typename Vector>
 inline void DCPQuery<N, Real, Vector>::ComputeIntersection(Real const sValue[2], int const classify[2], int edge[2],
                                                            Real end[2][2]) {
     // The divisions are theoretically numbers in [0,1].  Numerical rounding
-    // errors might cause the result to be outside the interval.  When this
-    // happens, it must be that both numerator and denominator are nearly
-    // zero.  The denominator is nearly zero when the segments are nearly
-    // perpendicular.  The numerator is nearly zero when the P-segment is
-    // nearly degenerate (mF00 = a is small).  The choice of 0.5 should not
-    // cause significant accuracy problems.
+    // errors might put the result outside the interval; it is clamped then.
+    // The true value may well be 0 or 1 (the line dR/ds = 0 through a corner
+    // of the domain), with a denominator that is not small.
     //
     // NOTE:  You can use bisection to recompute the root or even use
     // bisection to compute the root and skip the division.  This is generally
@@ -358,9 +356,7 @@ inline void DCPQuery<N, Real, Vector>::ComputeIntersection(Real const sValue[2],
         edge[0] = 0;
         end[0][0] = (Real)0;
         end[0][1] = mF00 / mB;
-        if (end[0][1] < (Real)0 || end[0][1] > (Real)1) {
-            end[0][1] = (Real)0.5;
-        }
+        end[0][1] = std::min(std::max(end[0][1], (Real)0), (Real)1);
 
         if (classify[1] == 0) {
             edge[1] = 3;
@@ -371,9 +367,7 @@ inline void DCPQuery<N, Real, Vector>::ComputeIntersection(Real const sValue[2],
             edge[1] = 1;
             end[1][0] = (Real)1;
             end[1][1] = mF10 / mB;
-            if (end[1][1] < (Real)0 || end[1][1] > (Real)1) {
-                end[1][1] = (Real)0.5;
-            }
+            end[1][1] = std::min(std::max(end[1][1], (Real)0), (Real)1);
         }
     } else if (classify[0] == 0) {
         edge[0] = 2;
@@ -384,9 +378,7 @@ inline void DCPQuery<N, Real, Vector>::ComputeIntersection(Real const sValue[2],
             edge[1] = 0;
             end[1][0] = (Real)0;
             end[1][1] = mF00 / mB;
-            if (end[1][1] < (Real)0 || end[1][1] > (Real)1) {
-                end[1][1] = (Real)0.5;
-            }
+            end[1][1] = std::min(std::max(end[1][1], (Real)0), (Real)1);
         } else if (classify[1] == 0) {
             edge[1] = 3;
             end[1][0] = sValue[1];
@@ -395,18 +387,14 @@ inline void DCPQuery<N, Real, Vector>::ComputeIntersection(Real const sValue[2],
             edge[1] = 1;
             end[1][0] = (Real)1;
             end[1][1] = mF10 / mB;
-            if (end[1][1] < (Real)0 || end[1][1] > (Real)1) {
-                end[1][1] = (Real)0.5;
-            }
+            end[1][1] = std::min(std::max(end[1][1], (Real)0), (Real)1);
         }
     } else // classify[0] > 0
     {
         edge[0] = 1;
         end[0][0] = (Real)1;
         end[0][1] = mF10 / mB;
-        if (end[0][1] < (Real)0 || end[0][1] > (Real)1) {
-            end[0][1] = (Real)0.5;
-        }
+        end[0][1] = std::min(std::max(end[0][1], (Real)0), (Real)1);
 
         if (classify[1] == 0) {
             edge[1] = 3;
@@ -416,9 +404,7 @@ inline void DCPQuery<N, Real, Vector>::ComputeIntersection(Real const sValue[2],
             edge[1] = 0;
             end[1][0] = (Real)0;
             end[1][1] = mF00 / mB;
-            if (end[1][1] < (Real)0 || end[1][1] > (Real)1) {
-                end[1][1] = (Real)0.5;
-            }
+            end[1][1] = std::min(std::max(end[1][1], (Real)0), (Real)1);
         }
     }
 }
@@ -428,10 +414,15 @@ inline void DCPQuery<N, Real, Vector>::ComputeMinimumParameters(int const edge[2
                                                                 Real parameter[2]) {
     constexpr Real eps = std::numeric_limits<Real>::epsilon();
     Real delta = end[1][1] - end[0][1];
-    Real h0 = delta * ((-mB * end[0][0] - mE) + mC * end[0][1]); // source of rounding error
-    Real h1 = delta * ((-mB * end[1][0] - mE) + mC * end[1][1]);
-
-    if (std::abs(h0) < std::abs(mC) * eps && std::abs(h1) < std::abs(mC) * eps) {
+    Real g0 = (-mB * end[0][0] - mE) + mC * end[0][1]; // source of rounding error
+    Real g1 = (-mB * end[1][0] - mE) + mC * end[1][1];
+    Real h0 = delta * g0;
+    Real h1 = delta * g1;
+
+    // R is constant along the segment of intersection only when dR/dt vanishes
+    // there. h0 = h1 = 0 also happens when that segment degenerates to a corner
+    // of the domain, where the minimum may be elsewhere on the edge.
+    if (std::abs(g0) < std::abs(mC) * eps && std::abs(g1) < std::abs(mC) * eps) {
         Real z = 0.5;
         Real omz = (Real)1 - z;
         parameter[0] = omz * end[0][0] + z * end[1][0];
-- 
2.43.0


From 29cc70989dacf10653c1dd1dc07b22226929a532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:13 +0000
Subject: [PATCH 02/37] fix: Boundary projection of the sphere center and of
 points on the tube axis

---
 Boundary/Boundary.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/Boundary/Boundary.cpp b/Boundary/Boundary.cpp
index 4a6fc87..542ff02 100644
--- a/Boundary/Boundary.cpp
+++ b/Boundary/Boundary.cpp
@@ -24,7 +24,9 @@ void SphereShell::initialize(const YAML::Node &config) {
 void SphereShell::project(const double query[3], double project[3], double delta[3]) const {
     Evec3 Query = ECmap3(query) - ECmap3(center); // center to query
     double QueryR = Query.norm();
-    Evec3 Proj = radius * (1 / QueryR) * Query; // radius * norm direction of Query
+    // every point of the shell is a projection of the center: take one of them
+    Evec3 dir = QueryR > 0 ? Evec3(Query / QueryR) : Evec3(0, 0, 1);
+    Evec3 Proj = radius * dir; // radius * norm direction of Query
     Evec3 PQ = Query - Proj;
     bool out = QueryR > radius;
     if ((inside && out) || (!inside && !out)) {
@@ -178,7 +180,16 @@ void Tube::project(const double query[3], double project[3], double delta_[3]) c
     double t = (Query - ECmap3(center)).dot(ECmap3(axis));
     Evec3 ProjAxis = ECmap3(center) + t * ECmap3(axis);
     Evec3 ProjAxisQ = Query - ProjAxis;
-    Evec3 Proj = ProjAxis + radius * (ProjAxisQ.normalized());
+    // unit vector orthogonal to the axis. ProjAxisQ has no direction (or only one from rounding) for Q on the axis: every
+    // direction is a valid projection there, take one of them
+    Evec3 dir = ProjAxisQ.normalized();
+    dir -= dir.dot(ECmap3(axis)) * ECmap3(axis);
+    if (dir.norm() > 0.5) {
+        dir.normalize();
+    } else {
+        dir = Evec3(ECmap3(axis)).unitOrthogonal();
+    }
+    Evec3 Proj = ProjAxis + radius * dir;
     Evec3 delta = Query - Proj;
     if (ProjAxisQ.norm() > radius) { // Q is outside the tube
         if (inside) {
-- 
2.43.0


From 01f35c1a55cb9208bb4a77f74fd010041ecf1a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:59 +0000
Subject: [PATCH 03/37] fix: findPBCImage returned the excluded upper bound for
 x slightly below the lower bound

---
 Util/GeoUtil.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Util/GeoUtil.hpp b/Util/GeoUtil.hpp
index 6247f85..c7054d2 100644
--- a/Util/GeoUtil.hpp
+++ b/Util/GeoUtil.hpp
@@ -32,6 +32,9 @@ inline void findPBCImage(const Real &lb, const Real &ub, Real &x) {
     while (x < lb) {
         x += L;
     }
+    if (x >= ub) { // x slightly less than lb, x + L rounded up to ub
+        x = lb;
+    }
 }
 
 /**
-- 
2.43.0


From 97fada7f03623f3d5b912a8220a5998398ef152e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:25 +0000
Subject: [PATCH 04/37] fix: buildConstraintMatrixVector crashed on a rank
 owning no object

---
 Constraint/ConstraintCollector.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Constraint/ConstraintCollector.cpp b/Constraint/ConstraintCollector.cpp
index 47b234b..807b3d6 100644
--- a/Constraint/ConstraintCollector.cpp
+++ b/Constraint/ConstraintCollector.cpp
@@ -344,8 +344,10 @@ int ConstraintCollector::buildConstraintMatrixVector(const Teuchos::RCP<const TM
     // step 3 prepare the partitioned column map
     // Each process own some columns. In the map, processes share entries.
     // 3.1 column map has to cover the contiguous range of the mobility map locally owned
-    const int mobMin = mobMapRcp->getMinGlobalIndex();
-    const int mobMax = mobMapRcp->getMaxGlobalIndex();
+    // a rank that owns no object has no such range, and Min/MaxGlobalIndex() do not describe an empty one
+    const bool mobEmpty = mobMapRcp->getNodeNumElements() == 0;
+    const int mobMin = mobEmpty ? 0 : mobMapRcp->getMinGlobalIndex();
+    const int mobMax = mobEmpty ? -1 : mobMapRcp->getMaxGlobalIndex();
     std::vector<int> colMapIndex(mobMax - mobMin + 1);
 #pragma omp parallel for
     for (int i = mobMin; i <= mobMax; i++) {
-- 
2.43.0


From 884ec1679d96481e5e110ca4eb0e9d47322d290c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:25 +0000
Subject: [PATCH 05/37] fix: APGD never returned when the initial guess gives
 no Lipschitz estimate (all ones, or an empty problem)

---
 Collision/CPSolver.cpp    | 3 +++
 Constraint/BCQPSolver.cpp | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/Collision/CPSolver.cpp b/Collision/CPSolver.cpp
index d76ab13..3f50477 100644
--- a/Collision/CPSolver.cpp
+++ b/Collision/CPSolver.cpp
@@ -438,6 +438,9 @@ int CPSolver::LCP_APGD(Teuchos::RCP<TV> &xsolRcp, const double tol, const int it
     const double tempNorm2 = tempVecRcp->norm2();
     const double xkdiffNorm2 = xkdiffRcp->norm2();
     double Lk = (tempNorm2 / xkdiffNorm2);
+    if (!(Lk > 0 && Lk <= std::numeric_limits<double>::max())) {
+        Lk = 1; // x0 - xhat = 0 or in the null space of A, no estimate from it. The line search below adjusts Lk
+    }
     double tk = 1.0 / Lk;
 
     Teuchos::RCP<TV> AxbRcp = Teuchos::rcp(new TV(this->mapRcp.getConst(), false));
diff --git a/Constraint/BCQPSolver.cpp b/Constraint/BCQPSolver.cpp
index c05f0f7..c470bc5 100644
--- a/Constraint/BCQPSolver.cpp
+++ b/Constraint/BCQPSolver.cpp
@@ -281,6 +281,9 @@ int BCQPSolver::solveAPGD(Teuchos::RCP<TV> &xsolRcp, const double tol, const int
     const double tempNorm2 = tempVecRcp->norm2();
     const double xkdiffNorm2 = xkdiffRcp->norm2();
     double Lk = (tempNorm2 / xkdiffNorm2);
+    if (!(Lk > 0 && Lk <= std::numeric_limits<double>::max())) {
+        Lk = 1; // x0 - xhat = 0 or in the null space of A, no estimate from it. The line search below adjusts Lk
+    }
     double tk = 1.0 / Lk;
 
     Teuchos::RCP<TV> AxbRcp = Teuchos::rcp(new TV(this->mapRcp.getConst(), false));
-- 
2.43.0


From 098ce122f98ddd7b48152e7915e989c908fdb41a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:25 +0000
Subject: [PATCH 06/37] fix: BCQPSolver exited the process when a solution sits
 on a bound of large magnitude, and never converged with lb=ub

---
 Constraint/BCQPSolver.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/Constraint/BCQPSolver.cpp b/Constraint/BCQPSolver.cpp
index c470bc5..96c33bb 100644
--- a/Constraint/BCQPSolver.cpp
+++ b/Constraint/BCQPSolver.cpp
@@ -477,9 +477,14 @@ double BCQPSolver::checkProjectionResidual(const Teuchos::RCP<const TV> &XRcp, c
 // EQ 2.2 of Dai & Fletcher 2005
 #pragma omp parallel for
     for (int i = 0; i < ibound; i++) {
-        if (xPtr(i, c) < lbPtr(i, c) + eps) {
+        // <= and >=, because eps vanishes in rounding next to a large bound
+        const bool atLb = xPtr(i, c) <= lbPtr(i, c) + eps;
+        const bool atUb = xPtr(i, c) >= ubPtr(i, c) - eps;
+        if (atLb && atUb) {
+            qPtr(i, c) = 0; // fixed by lb = ub
+        } else if (atLb) {
             qPtr(i, c) = std::min(yPtr(i, c), 0.0);
-        } else if (xPtr(i, c) > ubPtr(i, c) - eps) {
+        } else if (atUb) {
             qPtr(i, c) = std::max(yPtr(i, c), 0.0);
         } else if (xPtr(i, c) > lbPtr(i, c) && xPtr(i, c) < ubPtr(i, c)) {
             qPtr(i, c) = yPtr(i, c);
-- 
2.43.0


From 99747627f3fc1ca91ea8984eb2fb90f18c1dde4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:25 +0000
Subject: [PATCH 07/37] fix: BCQP BBPGD returned an infeasible initial guess as
 converged

---
 Constraint/BCQPSolver.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Constraint/BCQPSolver.cpp b/Constraint/BCQPSolver.cpp
index 96c33bb..50491bd 100644
--- a/Constraint/BCQPSolver.cpp
+++ b/Constraint/BCQPSolver.cpp
@@ -150,6 +150,9 @@ int BCQPSolver::solveBBPGD(Teuchos::RCP<TV> &xsolRcp, const double tol, const in
     Teuchos::RCP<TV> gkdiffRcp = Teuchos::rcp(new TV(this->mapRcp.getConst(), true)); // gkdiff = gk - gkm1
     Teuchos::RCP<TV> xkdiffRcp = Teuchos::rcp(new TV(this->mapRcp.getConst(), true)); // xkdiff = xk - xkm1
 
+    // the residual below is defined for feasible points only
+    boundProjection(xkm1Rcp);
+
     // compute grad
     ARcp->apply(*xkm1Rcp, *gradkm1Rcp); // gkm1 = A.dot(xkm1)
     mvCount++;
-- 
2.43.0


From b85658b60b27a0fc16f1a4b74d59a5fd7f65044e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:01 +0000
Subject: [PATCH 08/37] fix: BBPGD stopped by iteMax returned the iterate
 before the one it reported the residual of

---
 Collision/CPSolver.cpp    | 4 ++++
 Constraint/BCQPSolver.cpp | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/Collision/CPSolver.cpp b/Collision/CPSolver.cpp
index 3f50477..3505df6 100644
--- a/Collision/CPSolver.cpp
+++ b/Collision/CPSolver.cpp
@@ -387,6 +387,10 @@ int CPSolver::LCP_BBPGD(Teuchos::RCP<TV> &xsolRcp, const double tol, const int i
 
         alpha = a / b; // new step size
 
+        if (iteCount == iteMax) {
+            break; // return xk, the iterate of the last residual in history, and not xkm1
+        }
+
         // prepare next iteration
         // swap the contents of pointers directly, be careful
         xkm1Rcp.swap(xkRcp);
diff --git a/Constraint/BCQPSolver.cpp b/Constraint/BCQPSolver.cpp
index 50491bd..cd08408 100644
--- a/Constraint/BCQPSolver.cpp
+++ b/Constraint/BCQPSolver.cpp
@@ -235,6 +235,10 @@ int BCQPSolver::solveBBPGD(Teuchos::RCP<TV> &xsolRcp, const double tol, const in
             break;
         }
 
+        if (iteCount == iteMax) {
+            break; // return xk, the iterate of the last residual in history, and not xkm1
+        }
+
         // prepare next iteration
         // swap the contents of pointers directly, be careful
         xkm1Rcp.swap(xkRcp);
-- 
2.43.0


From 4fb343af17a42cae3787ac66aa9fc6647f33a175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:46 +0000
Subject: [PATCH 09/37] fix: mmNewton reported the residual of uninitialised
 memory when no Newton step was made

---
 Collision/CPSolver.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Collision/CPSolver.cpp b/Collision/CPSolver.cpp
index 3505df6..a684889 100644
--- a/Collision/CPSolver.cpp
+++ b/Collision/CPSolver.cpp
@@ -660,6 +660,8 @@ int CPSolver::LCP_mmNewton(Teuchos::RCP<TV> &xsolRcp, const double tol, const in
     ARcp->apply(*xRcp, *yRcp);
     mvCount++;
     yRcp->update(1.0, *bRcp, 1.0); // y = A.dot(x) + b
+    xkRcp->update(1.0, *xRcp, 0.0); // no step made yet
+    ykRcp->update(1.0, *yRcp, 0.0);
     double oldErr;
     double tk = 0;
     while (iteCount++ < iteMax) {
-- 
2.43.0


From 12544a47040276f41a2409d16534477268c5bf14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:05 +0000
Subject: [PATCH 10/37] fix: unilateral force and velocity were those of the
 solver's last product, not of the returned solution

---
 Constraint/ConstraintSolver.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Constraint/ConstraintSolver.cpp b/Constraint/ConstraintSolver.cpp
index d03baff..fa1d1db 100644
--- a/Constraint/ConstraintSolver.cpp
+++ b/Constraint/ConstraintSolver.cpp
@@ -97,7 +97,9 @@ void ConstraintSolver::solveConstraints() {
     gammaBiRcp->elementWiseMultiply(1.0, *gammaRcp, *biFlagRcp, 0.0);
     DMatRcp->apply(*gammaBiRcp, *forcebRcp);
     mobOpRcp->apply(*forcebRcp, *velbRcp);
-    // unilateral second
+    // unilateral second. the solver's last apply() may not be at the solution
+    Teuchos::RCP<TV> MgammaRcp = Teuchos::rcp(new TV(gammaRcp->getMap(), false));
+    MOpRcp->apply(*gammaRcp, *MgammaRcp);
     Teuchos::RCP<TV> forceRcp = MOpRcp->getForce();
     Teuchos::RCP<TV> velRcp = MOpRcp->getVel();
     forceuRcp->update(1.0, *forceRcp, -1.0, *forcebRcp, 0.0); // force_u = force - force_b
-- 
2.43.0


From 2cc37b638a70061b0127d9c8c01911b531b263f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:24 +0000
Subject: [PATCH 11/37] fix: MPI particle exchange looped forever when a
 particle lies on (or within rounding of) a periodic box face

---
 FDPS/tree_for_force_utils.hpp | 29 ++++++++---------------------
 1 file changed, 8 insertions(+), 21 deletions(-)

diff --git a/FDPS/tree_for_force_utils.hpp b/FDPS/tree_for_force_utils.hpp
index 522024c..b50b77b 100644
--- a/FDPS/tree_for_force_utils.hpp
+++ b/FDPS/tree_for_force_utils.hpp
@@ -162,27 +162,14 @@ namespace ParticleSimulator{
             }
         }
 #else
-        for(S32 lev=1;; lev++){
-            S32 lev_x = 0;
-            S32 lev_y = 0;
-            S32 lev_z = 0;
-            if(periodic_axis[0] == true) lev_x = lev;
-            if(periodic_axis[1] == true) lev_y = lev;
-            if(periodic_axis[2] == true) lev_z = lev;
-            for(S32 ix=-lev_x; ix<=lev_x; ix++){
-                for(S32 iy=-lev_y; iy<=lev_y; iy++){
-                    for(S32 iz=-lev_z; iz<=lev_z; iz++){
-                        if( (std::abs(ix) !=lev_x || periodic_axis[0] == false) 
-                            && (std::abs(iy) != lev_y  || periodic_axis[1] == false) 
-                            && (std::abs(iz) != lev_z || periodic_axis[2] == false) ) continue;
-                        const F64vec shift_tmp(ix*size_root_domain.x, iy*size_root_domain.y, iz*size_root_domain.z);
-                        if( pos_root_domain.contained(pos_target + shift_tmp) ){
-                            return S32vec(-ix, -iy, -iz);
-                        }
-                    }
-                }
-            }
-        }
+        // pos_target is an image shifted by a multiple of the box size. Rounding may put it just outside of every
+        // image of the half-open root domain, thus no search for the one containing it.
+        S32vec id(0);
+        for(S32 k=0; k<DIMENSION; k++){
+            if(periodic_axis[k] == false) continue;
+            id[k] = (S32)std::floor((pos_target[k] - pos_root_domain.low_[k]) / size_root_domain[k]);
+        }
+        return id;
 #endif
     }
 
-- 
2.43.0


From 0b45c3360b00f48d764202f15ca6eaeb315a845c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:37 +0000
Subject: [PATCH 12/37] fix: APGD line search never ended once the iterate of
 an unbounded problem overflowed

---
 Collision/CPSolver.cpp    | 4 ++--
 Constraint/BCQPSolver.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/Collision/CPSolver.cpp b/Collision/CPSolver.cpp
index a684889..499248d 100644
--- a/Collision/CPSolver.cpp
+++ b/Collision/CPSolver.cpp
@@ -482,8 +482,8 @@ int CPSolver::LCP_APGD(Teuchos::RCP<TV> &xsolRcp, const double tol, const int it
 
             double rightTerm3 = gVecRcp->dot(*xkdiffRcp);              // g.dot(xkdiff)
             double rightTerm4 = 0.5 * Lk * pow(xkdiffRcp->norm2(), 2); // 0.5*Lk*(xkdiff).dot(xkdiff)
-            if ((leftTerm1 + leftTerm2) <= (rightTerm1 + rightTerm2 + rightTerm3 + rightTerm4)) {
-                break;
+            if (!((leftTerm1 + leftTerm2) > (rightTerm1 + rightTerm2 + rightTerm3 + rightTerm4))) {
+                break; // also if not comparable, when an unbounded problem has overflowed
             }
             // line 10 & 11 of Mazhar, 2015
             Lk *= 2;
diff --git a/Constraint/BCQPSolver.cpp b/Constraint/BCQPSolver.cpp
index cd08408..5f3c4b5 100644
--- a/Constraint/BCQPSolver.cpp
+++ b/Constraint/BCQPSolver.cpp
@@ -329,8 +329,8 @@ int BCQPSolver::solveAPGD(Teuchos::RCP<TV> &xsolRcp, const double tol, const int
 
             double rightTerm3 = gVecRcp->dot(*xkdiffRcp);              // g.dot(xkdiff)
             double rightTerm4 = 0.5 * Lk * pow(xkdiffRcp->norm2(), 2); // 0.5*Lk*(xkdiff).dot(xkdiff)
-            if ((leftTerm1 + leftTerm2) <= (rightTerm1 + rightTerm2 + rightTerm3 + rightTerm4)) {
-                break;
+            if (!((leftTerm1 + leftTerm2) > (rightTerm1 + rightTerm2 + rightTerm3 + rightTerm4))) {
+                break; // also if not comparable, when an unbounded problem has overflowed
             }
             // line 10 & 11 of Mazhar, 2015
             Lk *= 2;
-- 
2.43.0


From 25965dd1b2cc2e3ec0e0a9707bb4f74733a706d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:48 +0000
Subject: [PATCH 13/37] fix: search radius ignored the collision radius,
 missing contacts of short particles with sylinderDiameterColRatio > 1

---
 Sylinder/SylinderNear.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Sylinder/SylinderNear.hpp b/Sylinder/SylinderNear.hpp
index a8c3959..383cc3d 100644
--- a/Sylinder/SylinderNear.hpp
+++ b/Sylinder/SylinderNear.hpp
@@ -106,7 +106,7 @@ struct SylinderNearEP {
      * @return PS::F64
      */
     PS::F64 getRSearch() const {
-        return std::max(length + 2 * radius, lengthCollision + 2 * lengthCollision) * (1 + colBuf);
+        return std::max(length + 2 * radius, lengthCollision + 2 * radiusCollision) * (1 + colBuf);
     }
 
     /**
-- 
2.43.0


From ec1a9fad04f079bad495ae048a7ba28ebdda343b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:22 +0000
Subject: [PATCH 14/37] fix: a particle within rounding below a periodic box
 face was wrapped to just outside the box, aborting the run

---
 FDPS/particle_system.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/FDPS/particle_system.hpp b/FDPS/particle_system.hpp
index 8c54951..f033c60 100644
--- a/FDPS/particle_system.hpp
+++ b/FDPS/particle_system.hpp
@@ -815,7 +815,7 @@ namespace ParticleSimulator{
                     while(pos_new.x >= pos_root.high_.x){
                         pos_new.x -= len_root.x;
                     }
-                    if(pos_new.x == pos_root.high_.x){
+                    if(pos_new.x < pos_root.low_.x){ // rounding of the shifts above
                         pos_new.x = pos_root.low_.x;
                     }
                     while(pos_new.y < pos_root.low_.y){
@@ -824,7 +824,7 @@ namespace ParticleSimulator{
                     while(pos_new.y >= pos_root.high_.y){
                         pos_new.y -= len_root.y;
                     }
-                    if(pos_new.y == pos_root.high_.y){
+                    if(pos_new.y < pos_root.low_.y){ // rounding of the shifts above
                         pos_new.y = pos_root.low_.y;
                     }
 #ifndef PARTICLE_SIMULATOR_TWO_DIMENSION
@@ -834,7 +834,7 @@ namespace ParticleSimulator{
                     while(pos_new.z >= pos_root.high_.z){
                         pos_new.z -= len_root.z;
                     }
-                    if(pos_new.z == pos_root.high_.z){
+                    if(pos_new.z < pos_root.low_.z){ // rounding of the shifts above
                         pos_new.z = pos_root.low_.z;
                     }
 #endif
-- 
2.43.0


From 1987e7eb5c28554ea69f99b963e52660d7126e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:22 +0000
Subject: [PATCH 15/37] fix: links between particles half a box apart ended the
 run because of rounding

---
 Sylinder/SylinderSystem.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Sylinder/SylinderSystem.cpp b/Sylinder/SylinderSystem.cpp
index a95ae57..e314692 100644
--- a/Sylinder/SylinderSystem.cpp
+++ b/Sylinder/SylinderSystem.cpp
@@ -1439,8 +1439,8 @@ void SylinderSystem::collectLinkBilateral() {
                     double xk = centerJ[k];
                     findPBCImage(runConfig.simBoxLow[k], runConfig.simBoxHigh[k], xk, trg);
                     centerJ[k] = xk;
-                    // error check
-                    if (fabs(trg - xk) > 0.5 * (runConfig.simBoxHigh[k] - runConfig.simBoxLow[k])) {
+                    // error check, with room for rounding when the two are half a box apart
+                    if (fabs(trg - xk) > (0.5 + 1e-6) * (runConfig.simBoxHigh[k] - runConfig.simBoxLow[k])) {
                         spdlog::critical("pbc image error in bilateral links");
                         std::exit(1);
                     }
-- 
2.43.0


From b0378a3e099a1d5950a68128e7360ffc09fff963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:42 +0000
Subject: [PATCH 16/37] fix: domain decomposition read before the sample array
 when there are fewer particles than ranks, leaving garbage domains (and a
 hang)

---
 FDPS/domain_info.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/FDPS/domain_info.hpp b/FDPS/domain_info.hpp
index 8092f87..461eb3e 100644
--- a/FDPS/domain_info.hpp
+++ b/FDPS/domain_info.hpp
@@ -105,8 +105,10 @@ namespace ParticleSimulator{
 					F64 & xlow,
 					F64 & xhigh) {
             if(istart == 0) xlow  = pos_root_domain_.low_.x;
+            else if(istart >= np) xlow  = pos_root_domain_.high_.x;
 	    else xlow  = 0.5 * (pos_sample[istart-1].x + pos_sample[istart].x);
             if(iend == np - 1) xhigh = pos_root_domain_.high_.x;
+            else if(iend < 0) xhigh = pos_root_domain_.low_.x; // fewer samples than domains
 	    else xhigh = 0.5 * (pos_sample[iend].x + pos_sample[iend+1].x);
         }
         void calculateBoundaryOfDomainY(const S32 np,
@@ -116,8 +118,10 @@ namespace ParticleSimulator{
 					F64 & xlow,
 					F64 & xhigh) {
             if(istart == 0) xlow  = pos_root_domain_.low_.y;
+            else if(istart >= np) xlow  = pos_root_domain_.high_.y;
 	    else xlow  = 0.5 * (pos_sample[istart-1].y + pos_sample[istart].y);
             if(iend == np - 1) xhigh = pos_root_domain_.high_.y;
+            else if(iend < 0) xhigh = pos_root_domain_.low_.y; // fewer samples than domains
 	    else xhigh = 0.5 * (pos_sample[iend].y + pos_sample[iend+1].y);
         }
 #ifndef PARTICLE_SIMULATOR_TWO_DIMENSION	
@@ -128,8 +132,10 @@ namespace ParticleSimulator{
 					F64 & xlow,
 					F64 & xhigh) {
             if(istart == 0) xlow  = pos_root_domain_.low_.z;
+            else if(istart >= np) xlow  = pos_root_domain_.high_.z;
 	    else xlow  = 0.5 * (pos_sample[istart-1].z + pos_sample[istart].z);
             if(iend == np - 1) xhigh = pos_root_domain_.high_.z;
+            else if(iend < 0) xhigh = pos_root_domain_.low_.z; // fewer samples than domains
 	    else xhigh = 0.5 * (pos_sample[iend].z + pos_sample[iend+1].z);
         }	
 #endif
-- 
2.43.0


From 48a6385e9b77e6246912663ad6ff0e4a9c88ace1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:56 +0000
Subject: [PATCH 17/37] fix: boundary constraint threshold used the rod radius
 for short particles collided as one sphere

---
 Sylinder/SylinderSystem.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Sylinder/SylinderSystem.cpp b/Sylinder/SylinderSystem.cpp
index e314692..68a25e9 100644
--- a/Sylinder/SylinderSystem.cpp
+++ b/Sylinder/SylinderSystem.cpp
@@ -1123,7 +1123,7 @@ void SylinderSystem::collectBoundaryCollision() {
                                          norm.data(), norm.data(), posI.data(), posI.data(), Query.data(), Proj, true,
                                          false, 0.0, 0.0);
                     } else if (deltanorm <
-                               (1 + runConfig.sylinderColBuf * 2) * sy.radiusCollision) { // inside boundary but close
+                               (1 + runConfig.sylinderColBuf * 2) * radius) { // inside boundary but close
                         que.emplace_back(deltanorm - radius, 0, sy.gid, sy.gid, sy.globalIndex, sy.globalIndex,
                                          norm.data(), norm.data(), posI.data(), posI.data(), Query.data(), Proj, true,
                                          false, 0.0, 0.0);
-- 
2.43.0


From c546b4d804408c12f89b73cc9bdfbec7d6edb685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:48 +0000
Subject: [PATCH 18/37] fix: particle points exactly on a boundary got a NaN
 normal

---
 Sylinder/SylinderSystem.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/Sylinder/SylinderSystem.cpp b/Sylinder/SylinderSystem.cpp
index 68a25e9..7b67ed9 100644
--- a/Sylinder/SylinderSystem.cpp
+++ b/Sylinder/SylinderSystem.cpp
@@ -1116,6 +1116,21 @@ void SylinderSystem::collectBoundaryCollision() {
                     // if outside boundary, delta = Proj-Q
                     double deltanorm = Emap3(delta).norm();
                     Evec3 norm = Emap3(delta) * (1 / deltanorm);
+                    if (deltanorm < 1e-8 * radius) {
+                        // on the boundary, delta gives no direction. take it from a point close by
+                        double deltaMax = 0;
+                        for (int k = 0; k < 6; k++) {
+                            Evec3 near = Query;
+                            near[k / 2] += (k % 2 ? -1e-5 : 1e-5) * radius;
+                            double nearProj[3], nearDelta[3];
+                            bPtr->project(near.data(), nearProj, nearDelta);
+                            const double nearNorm = Emap3(nearDelta).norm();
+                            if (nearNorm > deltaMax) {
+                                deltaMax = nearNorm;
+                                norm = Emap3(nearDelta) * (1 / nearNorm);
+                            }
+                        }
+                    }
                     Evec3 posI = Query - center;
 
                     if ((Query - ECmap3(Proj)).dot(ECmap3(delta)) < 0) { // outside boundary
-- 
2.43.0


From 1c043d845e6a85c1a97da04cd162887e237a2e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:06 +0000
Subject: [PATCH 19/37] fix: bounding box never went below the smallest
 positive double

---
 Sylinder/SylinderSystem.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Sylinder/SylinderSystem.cpp b/Sylinder/SylinderSystem.cpp
index 7b67ed9..ef72980 100644
--- a/Sylinder/SylinderSystem.cpp
+++ b/Sylinder/SylinderSystem.cpp
@@ -1193,7 +1193,7 @@ void SylinderSystem::calcBoundingBox(double localLow[3], double localHigh[3], do
     double lx, ly, lz;
     lx = ly = lz = std::numeric_limits<double>::max();
     double hx, hy, hz;
-    hx = hy = hz = std::numeric_limits<double>::min();
+    hx = hy = hz = std::numeric_limits<double>::lowest();
 
     for (int i = 0; i < nLocal; i++) {
         const auto &sy = sylinderContainer[i];
-- 
2.43.0


From b2bf8e069a17f773ba50ccf48c228699c3ce5569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:06 +0000
Subject: [PATCH 20/37] fix: monolayer kept the out-of-plane part of the
 Brownian velocity of the particles

---
 Sylinder/SylinderSystem.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Sylinder/SylinderSystem.cpp b/Sylinder/SylinderSystem.cpp
index ef72980..3bf230f 100644
--- a/Sylinder/SylinderSystem.cpp
+++ b/Sylinder/SylinderSystem.cpp
@@ -793,6 +793,10 @@ void SylinderSystem::calcVelocityNonCon() {
                 velBPtr(6 * i + 2, 0) = 0; // vz
                 velBPtr(6 * i + 3, 0) = 0; // omegax
                 velBPtr(6 * i + 4, 0) = 0; // omegay
+                auto &sy = sylinderContainer[i];
+                sy.velBrown[2] = 0;
+                sy.omegaBrown[0] = 0;
+                sy.omegaBrown[1] = 0;
             }
         }
         velocityNonConRcp->update(1.0, *velocityBrownRcp, 1.0);
-- 
2.43.0


From c13c118451165426a7b74c5fde1eec2b0b45983e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:06 +0000
Subject: [PATCH 21/37] fix: addNewLink kept duplicated links

---
 Sylinder/SylinderSystem.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/Sylinder/SylinderSystem.cpp b/Sylinder/SylinderSystem.cpp
index 3bf230f..df6f95f 100644
--- a/Sylinder/SylinderSystem.cpp
+++ b/Sylinder/SylinderSystem.cpp
@@ -1379,6 +1379,14 @@ void SylinderSystem::addNewLink(const std::vector<Link> &newLink) {
     MPI_Allgatherv(newLink.data(), newCountLocal, createMPIStructType<Link>(), newLinkRecv.data(), newCount.data(),
                    displ.data(), createMPIStructType<Link>(), MPI_COMM_WORLD);
 
+    // remove duplication
+    std::sort(newLinkRecv.begin(), newLinkRecv.end(), [](const Link &a, const Link &b) {
+        return a.prev < b.prev || (a.prev == b.prev && a.next < b.next);
+    });
+    newLinkRecv.erase(std::unique(newLinkRecv.begin(), newLinkRecv.end(),
+                                  [](const Link &a, const Link &b) { return a.prev == b.prev && a.next == b.next; }),
+                      newLinkRecv.end());
+
     // put newLinks into the map, same op on all mpi ranks
     for (const auto &ll : newLinkRecv) {
         linkMap.emplace(ll.prev, ll.next);
-- 
2.43.0


From b23ed814db0060803f395ee82aadc607d548d43d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:34 +0000
Subject: [PATCH 22/37] fix: rotations slower than 1.2e-7 per unit of time were
 dropped whatever the time step

---
 Util/EquatnHelper.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Util/EquatnHelper.hpp b/Util/EquatnHelper.hpp
index b967b96..e6b3478 100644
--- a/Util/EquatnHelper.hpp
+++ b/Util/EquatnHelper.hpp
@@ -73,7 +73,7 @@ class EquatnHelper {
      */
     static void rotateEquatn(Equatn &q, const Evec3 &omega, const double &dt) {
         const double w = omega.norm();
-        if (w < std::numeric_limits<float>::epsilon()) {
+        if (w < std::numeric_limits<double>::min()) {
             return;
         }
         const double winv = 1 / w;
-- 
2.43.0


From 8b7eee81397d90d3d8ca96fab606bd78873fea40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:36 +0000
Subject: [PATCH 23/37] fix: snapshots were written at the wrong interval when
 timeSnap/dt rounds below an integer

---
 Sylinder/SylinderSystem.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Sylinder/SylinderSystem.cpp b/Sylinder/SylinderSystem.cpp
index df6f95f..e127975 100644
--- a/Sylinder/SylinderSystem.cpp
+++ b/Sylinder/SylinderSystem.cpp
@@ -884,7 +884,9 @@ void SylinderSystem::updateSylinderMap() {
 }
 
 bool SylinderSystem::getIfWriteResultCurrentStep() {
-    return (stepCount % static_cast<int>(runConfig.timeSnap / runConfig.dt) == 0);
+    // timeSnap is usually a multiple of dt, but the quotient may be rounded to just below that integer
+    const int interval = static_cast<int>(runConfig.timeSnap / runConfig.dt * (1 + 1e-10));
+    return (stepCount % std::max(interval, 1) == 0);
 }
 
 void SylinderSystem::prepareStep() {
-- 
2.43.0


From 3dc9c8bc73901c634891dc77219d7fcb82593dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:10 +0000
Subject: [PATCH 24/37] fix: a restart looked for the snapshot in the folder of
 its own rank count

---
 Sylinder/SylinderSystem.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/Sylinder/SylinderSystem.cpp b/Sylinder/SylinderSystem.cpp
index e127975..f053fbf 100644
--- a/Sylinder/SylinderSystem.cpp
+++ b/Sylinder/SylinderSystem.cpp
@@ -146,7 +146,10 @@ void SylinderSystem::reinitialize(const SylinderConfig &runConfig_, const std::s
     pos = asciiFileName.find_last_of('_');
     asciiFileName.replace(pos, 1, std::string("Ascii_")); // replace '_' with 'Ascii_'
 
-    std::string baseFolder = getCurrentResultFolder();
+    // the run which wrote the snapshot may have used another number of ranks, and thus another folder
+    std::string baseFolder;
+    if (!(myfile >> baseFolder))
+        baseFolder = getCurrentResultFolder();
     setInitialFromVTKFile(baseFolder + pvtpFileName);
 
     setLinkMapFromFile(baseFolder + asciiFileName);
@@ -516,6 +519,7 @@ void SylinderSystem::writeTimeStepInfo(const std::string &baseFolder) {
         fprintf(restartFile, "%u\n", stepCount);
         fprintf(restartFile, "%u\n", snapID);
         fprintf(restartFile, "%s\n", pvtpFileName.c_str());
+        fprintf(restartFile, "%s\n", baseFolder.c_str()); // depends on the number of ranks of this run
         fclose(restartFile);
     }
 }
-- 
2.43.0


From bf57a3be6eaaee3f9f26e3ed3e63693b3fbe6224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:10 +0000
Subject: [PATCH 25/37] fix: a boundary of unknown type in the configuration
 was silently left out

---
 Sylinder/SylinderConfig.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Sylinder/SylinderConfig.cpp b/Sylinder/SylinderConfig.cpp
index a9187db..54c9f51 100644
--- a/Sylinder/SylinderConfig.cpp
+++ b/Sylinder/SylinderConfig.cpp
@@ -80,6 +80,9 @@ SylinderConfig::SylinderConfig(std::string filename) {
                 boundaryPtr.push_back(std::make_shared<Tube>(b));
             } else if (name == "sphere") {
                 boundaryPtr.push_back(std::make_shared<SphereShell>(b));
+            } else {
+                spdlog::critical("Unknown boundary type {} in yaml file", name);
+                std::exit(1);
             }
         }
     }
-- 
2.43.0


From cc88d7b9f5fea147d6ce8c17600c345c8e173f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:01 +0000
Subject: [PATCH 26/37] fix: link forces were cut off at 1e8 whatever the units

---
 Constraint/ConstraintSolver.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Constraint/ConstraintSolver.cpp b/Constraint/ConstraintSolver.cpp
index fa1d1db..bec8334 100644
--- a/Constraint/ConstraintSolver.cpp
+++ b/Constraint/ConstraintSolver.cpp
@@ -1,6 +1,8 @@
 #include "ConstraintSolver.hpp"
 #include "Util/Logger.hpp"
 
+#include <limits>
+
 void ConstraintSolver::setup(ConstraintCollector &conCollector_, Teuchos::RCP<TOP> &mobOpRcp_,
                              Teuchos::RCP<TV> &velncRcp_, double dt_) {
     reset();
@@ -65,7 +67,7 @@ void ConstraintSolver::solveConstraints() {
 
     // the bound of BCQP. 0 for gammau, unbound for gammab.
     Teuchos::RCP<TV> lbRcp = solver.getLowerBound();
-    lbRcp->scale(-1e8, *biFlagRcp); // 0 if biFlag=0, -1e8 if biFlag=1
+    lbRcp->scale(-std::numeric_limits<double>::max() / 10, *biFlagRcp); // 0 if biFlag=0, unbound if biFlag=1
     spdlog::debug("bound constructed");
 
     // solve
-- 
2.43.0


From 62721b131254a01a1c91281f0664a560951d3ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:25 +0000
Subject: [PATCH 27/37] fix: memory pool indexes its tables with the id of an
 array it never served

---
 FDPS/memory_pool.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/FDPS/memory_pool.hpp b/FDPS/memory_pool.hpp
index a081ee2..3a2412a 100644
--- a/FDPS/memory_pool.hpp
+++ b/FDPS/memory_pool.hpp
@@ -240,8 +240,9 @@ namespace ParticleSimulator{
         }
 
         static void freeMem(const int id_seg){
-            if(getInstance().cap_per_seg_[id_seg] <= 0) return;
+            if (id_seg < 0) return; // nothing was allocated
             if (id_seg < N_SEGMENT_LIMIT) {
+                if(getInstance().cap_per_seg_[id_seg] <= 0) return;
                 getInstance().used_per_seg_[id_seg] = false;
                 if((size_t)id_seg == getInstance().n_segment_-1){
                     for(int i=id_seg; i>=0; i--){
-- 
2.43.0


From 74e402cecc01f8467c0412c81f92baabbd6a80a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:25 +0000
Subject: [PATCH 28/37] fix: data races on the sorted address table and the
 time profile of the tree

---
 FDPS/tree_for_force_impl.hpp       |  2 +-
 FDPS/tree_for_force_impl_force.hpp | 15 +++++++++------
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/FDPS/tree_for_force_impl.hpp b/FDPS/tree_for_force_impl.hpp
index 785672e..eb465b1 100644
--- a/FDPS/tree_for_force_impl.hpp
+++ b/FDPS/tree_for_force_impl.hpp
@@ -457,7 +457,7 @@ namespace ParticleSimulator{
 #endif
 
 #ifdef PARTICLE_SIMULATOR_THREAD_PARALLEL
-#pragma omp parallel 
+#pragma omp parallel for
 #endif
             for(S32 i=0; i<n_glb_tot_; i++){
                 adr_org_from_adr_sorted_glb_[i] = tp_glb_[i].adr_ptcl_;
diff --git a/FDPS/tree_for_force_impl_force.hpp b/FDPS/tree_for_force_impl_force.hpp
index 869659b..1ff6d76 100644
--- a/FDPS/tree_for_force_impl_force.hpp
+++ b/FDPS/tree_for_force_impl_force.hpp
@@ -1308,26 +1308,29 @@ namespace ParticleSimulator{
         S64 nj_tmp = 0;
         S64 n_interaction_ep_ep_tmp = 0;
         for(S32 i=0; i<Comm::getNumberOfThread(); i++) n_cell_open_[i] = 0;
-        F64 offset_walk_tree,offset_dispatch;
+        F64 time_walk_tree_tmp = 0.0;
+        F64 time_dispatch_tmp = 0.0;
 
         if(n_ipg > 0){
 #ifdef PARTICLE_SIMULATOR_THREAD_PARALLEL
-#pragma omp parallel for schedule(dynamic, 4) reduction(+ : ni_tmp, nj_tmp, n_interaction_ep_ep_tmp)
+#pragma omp parallel for schedule(dynamic, 4) reduction(+ : ni_tmp, nj_tmp, n_interaction_ep_ep_tmp, time_walk_tree_tmp, time_dispatch_tmp)
 #endif
             for(S32 i=0; i<n_ipg; i++){
-                offset_walk_tree = GetWtime();
+                const F64 offset_walk_tree = GetWtime();
                 const S32 ith = Comm::getThreadNum();
                 epj_for_force_[ith].clearSize();
                 adr_epj_for_force_[ith].clearSize();
                 makeInteractionList(i);
-                time_profile_.calc_force__core__walk_tree += GetWtime() - offset_walk_tree;
+                time_walk_tree_tmp += GetWtime() - offset_walk_tree;
                 ni_tmp += ipg_[i].n_ptcl_;
                 nj_tmp += epj_for_force_[Comm::getThreadNum()].size();
                 n_interaction_ep_ep_tmp += ipg_[i].n_ptcl_ * epj_for_force_[Comm::getThreadNum()].size();
-                offset_dispatch = GetWtime();
+                const F64 offset_dispatch = GetWtime();
                 calcForceOnly( pfunc_ep_ep, i, clear);
-                time_profile_.calc_force__core__dispatch += GetWtime() - offset_dispatch;
+                time_dispatch_tmp += GetWtime() - offset_dispatch;
             }
+            time_profile_.calc_force__core__walk_tree += time_walk_tree_tmp;
+            time_profile_.calc_force__core__dispatch += time_dispatch_tmp;
             ni_ave_ = ni_tmp / n_ipg;
             nj_ave_ = nj_tmp / n_ipg;
             n_interaction_ep_ep_ += n_interaction_ep_ep_tmp;
-- 
2.43.0


From e4ac48049d6988b5a10c6d493148c52e7f1f0f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:54 +0000
Subject: [PATCH 29/37] fix: minimum-map Newton evaluated its operator on
 uninitialised mask and right hand side

---
 Collision/CPSolver.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Collision/CPSolver.cpp b/Collision/CPSolver.cpp
index 499248d..7ba6418 100644
--- a/Collision/CPSolver.cpp
+++ b/Collision/CPSolver.cpp
@@ -620,8 +620,8 @@ int CPSolver::LCP_mmNewton(Teuchos::RCP<TV> &xsolRcp, const double tol, const in
     Teuchos::RCP<TV> dxRcp = Teuchos::rcp(new TV(this->mapRcp.getConst(), true));      // zero out
     Teuchos::RCP<TV> nablaHRcp = Teuchos::rcp(new TV(this->mapRcp.getConst(), false)); // zero out
 
-    Teuchos::RCP<TV> HmmRcp = Teuchos::rcp(new TV(this->mapRcp.getConst(), false));   // minimum map
-    Teuchos::RCP<TV> HmaskRcp = Teuchos::rcp(new TV(this->mapRcp.getConst(), false)); // minimum map
+    Teuchos::RCP<TV> HmmRcp = Teuchos::rcp(new TV(this->mapRcp.getConst(), true));   // minimum map
+    Teuchos::RCP<TV> HmaskRcp = Teuchos::rcp(new TV(this->mapRcp.getConst(), true)); // minimum map
 
     // Magic constants
     const double alpha = 0.5;
-- 
2.43.0


From 0b5987c7149f47302ee94314f682c70cf0e5e4b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:47 +0000
Subject: [PATCH 30/37] fix: sampling an empty particle system divided zero by
 zero

---
 FDPS/particle_system.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FDPS/particle_system.hpp b/FDPS/particle_system.hpp
index f033c60..7ce4c08 100644
--- a/FDPS/particle_system.hpp
+++ b/FDPS/particle_system.hpp
@@ -570,7 +570,7 @@ namespace ParticleSimulator{
 #ifdef PARTICLE_SIMULATOR_MPI_PARALLEL
             S64 nloc = (S64)ptcl_.size();
             F32 weight_all = Comm::getSum(weight);
-            number_of_sample_particle = (weight * n_smp_ptcl_tot_) / weight_all;
+            number_of_sample_particle = (weight_all > 0) ? (weight * n_smp_ptcl_tot_) / weight_all : 0; // no particle at all
 #if 0
 // modified to limit # of sample particles by M.I. 
             const F32 coef_limitter = 0.2;
-- 
2.43.0


From adf0b4b7a4d02b7b2f63fac5da4e6fd18bddf3ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:47 +0000
Subject: [PATCH 31/37] fix: symmetric search took the periodic image of a
 received particle from its rounded position

---
 FDPS/tree_for_force_impl.hpp   |  6 ++--
 FDPS/tree_for_force_utils2.hpp | 55 ++++++++++++++++++----------------
 2 files changed, 33 insertions(+), 28 deletions(-)

diff --git a/FDPS/tree_for_force_impl.hpp b/FDPS/tree_for_force_impl.hpp
index eb465b1..2db9139 100644
--- a/FDPS/tree_for_force_impl.hpp
+++ b/FDPS/tree_for_force_impl.hpp
@@ -1517,7 +1517,8 @@ namespace ParticleSimulator{
             ////////////
             // 2nd STEP (send j particles)
             FindExchangeParticleDoubleWalk<TreeCell<Tmomloc>, TreeParticle, Tepj>
-                (ep_recv_1st, tc_loc_, n_ep_recv_per_proc_1st, n_image_per_proc_1st, dinfo,
+                (ep_recv_1st, tc_loc_, n_ep_recv_per_proc_1st,
+                 n_image_per_proc_1st, n_ep_send_per_image_1st, shift_per_image_1st, dinfo,
                  n_leaf_limit_,
                  n_ep_send_per_proc_2nd, n_ep_send_per_image_2nd,
                  n_image_per_proc_2nd,
@@ -1706,7 +1707,8 @@ namespace ParticleSimulator{
             ////////////
             // 2nd STEP (find j particle)
             FindExchangeParticleDoubleWalk<TreeCell<Tmomloc>, TreeParticle, EssentialParticleBase>
-                (ep_recv_1st, tc_loc_, n_ep_recv_per_proc_1st, n_image_per_proc_1st, dinfo,
+                (ep_recv_1st, tc_loc_, n_ep_recv_per_proc_1st,
+                 n_image_per_proc_1st, n_ep_send_per_image_1st, shift_per_image_1st, dinfo,
                  n_leaf_limit_,
                  n_ep_send_per_proc_2nd, n_ep_send_per_image_2nd,
                  n_image_per_proc_2nd,
diff --git a/FDPS/tree_for_force_utils2.hpp b/FDPS/tree_for_force_utils2.hpp
index 6093cac..c0314a7 100644
--- a/FDPS/tree_for_force_utils2.hpp
+++ b/FDPS/tree_for_force_utils2.hpp
@@ -647,7 +647,9 @@ namespace ParticleSimulator{
     inline void FindExchangeParticleDoubleWalk(const ReallocatableArray<Tepj> & epj_A, // received particles
                                                const ReallocatableArray<Ttc> & tc_first_B,
                                                const ReallocatableArray<S32> & n_epj_src_per_proc,
-                                               const ReallocatableArray<S32> & n_image_send_per_proc_irnai, // not needed
+                                               const ReallocatableArray<S32> & n_image_dst_per_proc, // images sent in the 1st step
+                                               const ReallocatableArray<S32> & n_epj_dst_per_image,  // particles sent for each of them
+                                               const ReallocatableArray<F64vec> & shift_dst_per_image,
                                                const DomainInfo & dinfo,
                                                const S32 n_leaf_limit_B,
                                                ReallocatableArray<S32> & n_epj_send_per_proc,
@@ -672,10 +674,26 @@ namespace ParticleSimulator{
         }
         */
         const S32 n_thread = Comm::getNumberOfThread();
-        const F64ort pos_root_domain = dinfo.getPosRootDomain();
-        const F64vec len_root_domain = pos_root_domain.getFullLength();
         n_image_send_per_proc.resizeNoInitialize(n_proc);
         n_epj_send_per_proc.resizeNoInitialize(n_proc);
+        // the image of a received particle is known by its sender only: the position of the image may be rounded
+        // into a neighboring image of the domain
+        ReallocatableArray<S32> n_image_src_per_proc(n_proc, n_proc, 1);
+        ReallocatableArray<S32> n_disp_image_src_per_proc(n_proc+1, n_proc+1, 1);
+        ReallocatableArray<S32> n_disp_image_dst_per_proc(n_proc+1, n_proc+1, 1);
+        Comm::allToAll(n_image_dst_per_proc.getPointer(), 1, n_image_src_per_proc.getPointer());
+        n_disp_image_src_per_proc[0] = n_disp_image_dst_per_proc[0] = 0;
+        for(S32 i=0; i<n_proc; i++){
+            n_disp_image_src_per_proc[i+1] = n_disp_image_src_per_proc[i] + n_image_src_per_proc[i];
+            n_disp_image_dst_per_proc[i+1] = n_disp_image_dst_per_proc[i] + n_image_dst_per_proc[i];
+        }
+        const S32 n_image_src = n_disp_image_src_per_proc[n_proc];
+        ReallocatableArray<S32> n_epj_src_per_image(n_image_src, n_image_src, 1);
+        ReallocatableArray<F64vec> shift_src_per_image(n_image_src, n_image_src, 1);
+        Comm::allToAllV(n_epj_dst_per_image.getPointer(), n_image_dst_per_proc.getPointer(), n_disp_image_dst_per_proc.getPointer(),
+                        n_epj_src_per_image.getPointer(), n_image_src_per_proc.getPointer(), n_disp_image_src_per_proc.getPointer());
+        Comm::allToAllV(shift_dst_per_image.getPointer(), n_image_dst_per_proc.getPointer(), n_disp_image_dst_per_proc.getPointer(),
+                        shift_src_per_image.getPointer(), n_image_src_per_proc.getPointer(), n_disp_image_src_per_proc.getPointer());
         ReallocatableArray<S32> n_disp_epj_per_proc;
         n_disp_epj_per_proc.resizeNoInitialize(n_proc+1);
         n_disp_epj_per_proc[0] = 0;
@@ -718,12 +736,6 @@ namespace ParticleSimulator{
             n_image_send_per_proc[i] = 0;
             if(n_epj_src_per_proc[i] > 0) rank_src.push_back(i);
         }
-        ReallocatableArray<F64> len_peri(DIMENSION, DIMENSION, 1);
-        bool pa[DIMENSION];
-        dinfo.getPeriodicAxis(pa);
-        for(S32 i=0; i<DIMENSION; i++){
-            if(pa[i]==false) len_peri[i] = 0.0;
-        }
 #ifdef PARTICLE_SIMULATOR_THREAD_PARALLEL
 #pragma omp parallel
 #endif
@@ -757,24 +769,15 @@ namespace ParticleSimulator{
                 */
                 if( n_epj_src_per_proc[rank_tmp] <= 0) continue;
                 const S32 adr_ptcl_head = n_disp_epj_per_proc[rank_tmp];
-                const S32 adr_ptcl_end = n_disp_epj_per_proc[rank_tmp+1];
-                S32vec id_image_old = -9999;
                 S32 n_image = 0;
-                for(S32 ip=adr_ptcl_head; ip<adr_ptcl_end; ip++){
-                    const F64vec pos_target = epj_A[ip].getPos();
-                    const S32vec id_image_new = CalcIDOfImageDomain(pos_root_domain, pos_target, pa);
-                    if(id_image_old != id_image_new){
-                        adr_epj_src_per_image_tmp[ith].push_back(ip);
-                        n_epj_src_per_image_tmp[ith].push_back(0);
-#ifdef PARTICLE_SIMULATOR_TWO_DIMENSION
-                        shift_per_image_tmp[ith].push_back(F64vec(id_image_new.x*len_root_domain.x, id_image_new.y*len_root_domain.y));
-#else
-                        shift_per_image_tmp[ith].push_back(F64vec(id_image_new.x*len_root_domain.x, id_image_new.y*len_root_domain.y, id_image_new.z*len_root_domain.z));
-#endif
-                        id_image_old = id_image_new;
-                        n_image++;
-                    }
-                    n_epj_src_per_image_tmp[ith].back()++;
+                S32 adr_ptcl = adr_ptcl_head;
+                for(S32 ii=n_disp_image_src_per_proc[rank_tmp]; ii<n_disp_image_src_per_proc[rank_tmp+1]; ii++){
+                    if(n_epj_src_per_image[ii] <= 0) continue;
+                    adr_epj_src_per_image_tmp[ith].push_back(adr_ptcl);
+                    n_epj_src_per_image_tmp[ith].push_back(n_epj_src_per_image[ii]);
+                    shift_per_image_tmp[ith].push_back(-shift_src_per_image[ii]); // the sender subtracted it
+                    adr_ptcl += n_epj_src_per_image[ii];
+                    n_image++;
                 }
                 /*
                 if(Comm::getRank()==0 && rank_tmp==1){
-- 
2.43.0


From c3e2d04c125317ce022cd556b7e305a8b594706c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:59 +0000
Subject: [PATCH 32/37] fix: growing an empty pooled array copied from a null
 pointer

---
 FDPS/reallocatable_array.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FDPS/reallocatable_array.hpp b/FDPS/reallocatable_array.hpp
index 9432b66..b554036 100644
--- a/FDPS/reallocatable_array.hpp
+++ b/FDPS/reallocatable_array.hpp
@@ -117,7 +117,7 @@ namespace  ParticleSimulator{
                 {
                     // Save old data                                                        
                     T * data_old = new T[capacity_];
-                    memcpy((void *)data_old, (void *)data_, (size_t)sizeof(T)*capacity_);
+                    if(capacity_ > 0) memcpy((void *)data_old, (void *)data_, (size_t)sizeof(T)*capacity_);
                     // Set new capacity
                     capacity_ = getNewCapacity(new_cap);
                     int id_old = id_mpool_;
-- 
2.43.0


From 9f6800418efaee3f0ffa64c4cb6e33939a79b25c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:33:49 +0000
Subject: [PATCH 33/37] fix: refuse command line values that do not fit into an
 unsigned int

---
 Util/cmdparser.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/Util/cmdparser.hpp b/Util/cmdparser.hpp
index fe8e11d..599944a 100644
--- a/Util/cmdparser.hpp
+++ b/Util/cmdparser.hpp
@@ -10,6 +10,7 @@
 #include <vector>
 #include <sstream>
 #include <functional>
+#include <limits>
 
 namespace cli {
 	/// Class used to wrap integer types to specify desired numerical base for specific argument parsing
@@ -181,7 +182,12 @@ namespace cli {
 			if (elements.size() != 1)
 				throw std::bad_cast();
 
-			return static_cast<unsigned int>(std::stoul(elements[0], 0, numberBase));
+			const unsigned long value = std::stoul(elements[0], 0, numberBase);
+
+			if (value > std::numeric_limits<unsigned int>::max())
+				throw std::out_of_range("The value does not fit into an unsigned int.");
+
+			return static_cast<unsigned int>(value);
 		}
 
 		static unsigned long parse(const std::vector<std::string>& elements, const unsigned long&, int numberBase = 0) {
-- 
2.43.0


From 7a3694e0fef0fb6fdf80d46af65c6d4d95bd4b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:55:14 +0000
Subject: [PATCH 34/37] fix: FDPS particle files: keep newline bytes of binary
 data, read back a file without particles

---
 FDPS/particle_system.hpp | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/FDPS/particle_system.hpp b/FDPS/particle_system.hpp
index 7ce4c08..9bd4294 100644
--- a/FDPS/particle_system.hpp
+++ b/FDPS/particle_system.hpp
@@ -156,6 +156,13 @@ namespace ParticleSimulator{
             n = (ftell(fp)-end_of_header) / size_ptcl;
             return n;
         }
+        // a text header may leave the end of its line. In a binary file this byte is data.
+        void skipNewLine(FILE * fp, const char * open_format){
+            if(strcmp(open_format, "rb")==0) return;
+            int c;
+            while('\n' == (c = getc(fp)));
+            if(c != EOF) ungetc(c, fp);
+        }
         //2016_11_03 modified IO functions to handle multiple file formats
         //read
         template <class Theader>
@@ -174,8 +181,7 @@ namespace ParticleSimulator{
                         Abort(-1);
                     }
                     S32 n_ptcl_ = (header->*pFuncHead)(fp);
-                    while('\n' == getc(fp));
-                    fseek(fp, -1, SEEK_CUR);
+                    skipNewLine(fp, open_format);
                     if(n_ptcl_ < 0){//User does NOT return # of ptcl
                         //n_ptcl_ = 0;
                         if(strcmp(open_format, "rb")==0){
@@ -188,8 +194,7 @@ namespace ParticleSimulator{
                         }
                         fseek(fp, 0, SEEK_SET);
                         (header->*pFuncHead)(fp);
-                        while('\n' == getc(fp));
-                        fseek(fp, -1, SEEK_CUR);
+                        skipNewLine(fp, open_format);
                     }
                     //Inform the # of ptcl for each process.
                     const S32 n_proc = Comm::getNumberOfProc();
@@ -246,8 +251,7 @@ namespace ParticleSimulator{
                     Abort(-1);
                 }
                 S32 n_ptcl_ = (header->*pFuncHead)(fp);
-                while('\n' == getc(fp));
-                fseek(fp, -1, SEEK_CUR);
+                skipNewLine(fp, open_format);
                 if(n_ptcl_ < 0){//User does NOT return # of ptcl
                     if(strcmp(open_format, "rb")==0){
                         n_ptcl_ = countPtclBinary(fp, pFuncPtcl);
@@ -259,8 +263,7 @@ namespace ParticleSimulator{
                     ptcl_.resizeNoInitialize(n_ptcl_);
                     fseek(fp, 0, SEEK_SET);
                     S32 tmp = (header->*pFuncHead)(fp);
-                    while('\n' == getc(fp));
-                    fseek(fp, -1, SEEK_CUR);                    
+                    skipNewLine(fp, open_format);
                     for(S32 i = 0 ; i < ptcl_.size() ; ++ i){
                         (ptcl_[i].*pFuncPtcl)(fp);
                     }
-- 
2.43.0


From ce547be734548942b9da364a1d7e8684ef0341ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:55:14 +0000
Subject: [PATCH 35/37] fix: off-diagonal element of the product of two Matrix2

---
 FDPS/matrix2.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FDPS/matrix2.hpp b/FDPS/matrix2.hpp
index 61ce663..061133e 100644
--- a/FDPS/matrix2.hpp
+++ b/FDPS/matrix2.hpp
@@ -57,7 +57,7 @@ namespace ParticleSimulator{
             return Vector2<T>(xx * rhs.x + xy * rhs.y, yx * rhs.x + yy * rhs.y);
         }
         Matrix2 operator * (const Matrix2 & rhs) const {
-            return Matrix2(xx * rhs.xx + xy * rhs.yx, yx * rhs.xy + yy * rhs.yy, xx + rhs.xy + xy * rhs.yy, yx * rhs.xx + yy * rhs.yx);
+            return Matrix2(xx * rhs.xx + xy * rhs.yx, yx * rhs.xy + yy * rhs.yy, xx * rhs.xy + xy * rhs.yy, yx * rhs.xx + yy * rhs.yx);
         }
         Matrix2 operator / (const T & rhs) const {
             return Matrix2(xx / rhs, yy / rhs, xy / rhs, yx / rhs);
-- 
2.43.0


From 0dfac4e9abeb9914981da01cdb9ce26c52f4b005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:57:52 +0000
Subject: [PATCH 36/37] fix: counting the particles of an empty FDPS binary
 file divided by zero

---
 FDPS/particle_system.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FDPS/particle_system.hpp b/FDPS/particle_system.hpp
index 9bd4294..345b297 100644
--- a/FDPS/particle_system.hpp
+++ b/FDPS/particle_system.hpp
@@ -153,7 +153,7 @@ namespace ParticleSimulator{
             (ptcl_tmp.*pFuncPtcl)(fp);
             long size_ptcl = ftell(fp) - end_of_header;
             fseek(fp, 0, SEEK_END);
-            n = (ftell(fp)-end_of_header) / size_ptcl;
+            if(size_ptcl > 0) n = (ftell(fp)-end_of_header) / size_ptcl;
             return n;
         }
         // a text header may leave the end of its line. In a binary file this byte is data.
-- 
2.43.0


From 65e8dfb3a0fed64520a1be5b14ed3bdaa074c0ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:03:48 +0000
Subject: [PATCH 37/37] fix: FDPS particle files without a header called
 members of a null pointer

---
 FDPS/particle_system.hpp | 36 ++++++++++++++++++++----------------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/FDPS/particle_system.hpp b/FDPS/particle_system.hpp
index 345b297..a75d356 100644
--- a/FDPS/particle_system.hpp
+++ b/FDPS/particle_system.hpp
@@ -138,6 +138,10 @@ namespace ParticleSimulator{
                 return -1;
             }
         };
+        static DummyHeader * dummyHeader(){
+            static DummyHeader header;
+            return &header;
+        }
 
         // fp must points to the head address of the first partticle
         S32 countPtclAscii(FILE * fp){
@@ -290,10 +294,10 @@ namespace ParticleSimulator{
             readParticleImpl(filename, NULL, &header, &Tptcl::readAscii, &Theader::readAscii, "r");
         }
         void readParticleAscii(const char * const filename, const char * const format){
-            readParticleImpl<DummyHeader>(filename, format, NULL, &Tptcl::readAscii, &DummyHeader::readAscii, "r");
+            readParticleImpl<DummyHeader>(filename, format, dummyHeader(), &Tptcl::readAscii, &DummyHeader::readAscii, "r");
         }
         void readParticleAscii(const char * const filename){
-            readParticleImpl<DummyHeader>(filename, NULL, NULL, &Tptcl::readAscii, &DummyHeader::readAscii, "r");
+            readParticleImpl<DummyHeader>(filename, NULL, dummyHeader(), &Tptcl::readAscii, &DummyHeader::readAscii, "r");
         }
 
         template <class Theader>
@@ -305,10 +309,10 @@ namespace ParticleSimulator{
             readParticleImpl(filename, NULL, &header, pFunc, &Theader::readAscii, "r");
         }
         void readParticleAscii(const char * const filename, const char * const format, void (Tptcl::*pFunc)(FILE*)){
-            readParticleImpl<DummyHeader>(filename, format, NULL, pFunc, &DummyHeader::readAscii, "r");
+            readParticleImpl<DummyHeader>(filename, format, dummyHeader(), pFunc, &DummyHeader::readAscii, "r");
         }
         void readParticleAscii(const char * const filename, void (Tptcl::*pFunc)(FILE*)){
-            readParticleImpl<DummyHeader>(filename, NULL, NULL, pFunc, &DummyHeader::readAscii, "r");
+            readParticleImpl<DummyHeader>(filename, NULL, dummyHeader(), pFunc, &DummyHeader::readAscii, "r");
         }
 
         template <class Theader>
@@ -320,10 +324,10 @@ namespace ParticleSimulator{
             readParticleImpl(filename, NULL, &header, &Tptcl::readBinary, &Theader::readBinary, "rb");
         }
         void readParticleBinary(const char * const filename, const char * const format){
-            readParticleImpl<DummyHeader>(filename, format, NULL, &Tptcl::readBinary, &DummyHeader::readBinary, "rb");
+            readParticleImpl<DummyHeader>(filename, format, dummyHeader(), &Tptcl::readBinary, &DummyHeader::readBinary, "rb");
         }
         void readParticleBinary(const char * const filename){
-            readParticleImpl<DummyHeader>(filename, NULL, NULL, &Tptcl::readBinary, &DummyHeader::readBinary, "rb");
+            readParticleImpl<DummyHeader>(filename, NULL, dummyHeader(), &Tptcl::readBinary, &DummyHeader::readBinary, "rb");
         }
         
         template <class Theader>
@@ -335,10 +339,10 @@ namespace ParticleSimulator{
             readParticleImpl(filename, NULL, &header, pFunc, &Theader::readBinary, "rb");
         }
         void readParticleBinary(const char * const filename, const char * const format, void (Tptcl::*pFunc)(FILE*)){
-            readParticleImpl<DummyHeader>(filename, format, NULL, pFunc, &DummyHeader::readBinary, "rb");
+            readParticleImpl<DummyHeader>(filename, format, dummyHeader(), pFunc, &DummyHeader::readBinary, "rb");
         }
         void readParticleBinary(const char * const filename, void (Tptcl::*pFunc)(FILE*)){
-            readParticleImpl<DummyHeader>(filename, NULL, NULL, pFunc, &DummyHeader::readBinary, "rb");
+            readParticleImpl<DummyHeader>(filename, NULL, dummyHeader(), pFunc, &DummyHeader::readBinary, "rb");
         }
 
         template <class Theader>
@@ -428,10 +432,10 @@ namespace ParticleSimulator{
             writeParticleImpl(filename, NULL, &header, &Tptcl::writeAscii, &Theader::writeAscii, "w");
         }
         void writeParticleAscii(const char * const filename, const char * format){
-            writeParticleImpl<DummyHeader>(filename, format, NULL, &Tptcl::writeAscii, &DummyHeader::writeAscii, "w");
+            writeParticleImpl<DummyHeader>(filename, format, dummyHeader(), &Tptcl::writeAscii, &DummyHeader::writeAscii, "w");
         }
         void writeParticleAscii(const char * const filename){
-            writeParticleImpl<DummyHeader>(filename, NULL, NULL, &Tptcl::writeAscii, &DummyHeader::writeAscii, "w");
+            writeParticleImpl<DummyHeader>(filename, NULL, dummyHeader(), &Tptcl::writeAscii, &DummyHeader::writeAscii, "w");
         }
 
         template <class Theader>
@@ -443,10 +447,10 @@ namespace ParticleSimulator{
             writeParticleImpl(filename, NULL, &header, pFunc, &Theader::writeAscii, "w");
         }
         void writeParticleAscii(const char * const filename, const char * format, void (Tptcl::*pFunc)(FILE*)const){
-            writeParticleImpl<DummyHeader>(filename, format, NULL, pFunc, &DummyHeader::writeAscii, "w");
+            writeParticleImpl<DummyHeader>(filename, format, dummyHeader(), pFunc, &DummyHeader::writeAscii, "w");
         }
         void writeParticleAscii(const char * const filename, void (Tptcl::*pFunc)(FILE*)const){
-            writeParticleImpl<DummyHeader>(filename, NULL, NULL, pFunc, &DummyHeader::writeAscii, "w");
+            writeParticleImpl<DummyHeader>(filename, NULL, dummyHeader(), pFunc, &DummyHeader::writeAscii, "w");
         }
 
 
@@ -459,10 +463,10 @@ namespace ParticleSimulator{
             writeParticleImpl(filename, NULL, &header, &Tptcl::writeBinary, &Theader::writeBinary, "wb");
         }
         void writeParticleBinary(const char * const filename, const char * format){
-            writeParticleImpl<DummyHeader>(filename, format, NULL, &Tptcl::writeBinary, &DummyHeader::writeBinary, "wb");
+            writeParticleImpl<DummyHeader>(filename, format, dummyHeader(), &Tptcl::writeBinary, &DummyHeader::writeBinary, "wb");
         }
         void writeParticleBinary(const char * const filename){
-            writeParticleImpl<DummyHeader>(filename, NULL, NULL, &Tptcl::writeBinary, &DummyHeader::writeBinary, "wb");
+            writeParticleImpl<DummyHeader>(filename, NULL, dummyHeader(), &Tptcl::writeBinary, &DummyHeader::writeBinary, "wb");
         }
 
         template <class Theader>
@@ -474,10 +478,10 @@ namespace ParticleSimulator{
             writeParticleImpl(filename, NULL, &header, pFunc, &Theader::writeBinary, "wb");
         }
         void writeParticleBinary(const char * const filename, const char * format, void (Tptcl::*pFunc)(FILE*)const){
-            writeParticleImpl<DummyHeader>(filename, format, NULL, pFunc, &DummyHeader::writeBinary, "wb");
+            writeParticleImpl<DummyHeader>(filename, format, dummyHeader(), pFunc, &DummyHeader::writeBinary, "wb");
         }
         void writeParticleBinary(const char * const filename, void (Tptcl::*pFunc)(FILE*)const){
-            writeParticleImpl<DummyHeader>(filename, NULL, NULL, pFunc, &DummyHeader::writeBinary, "wb");
+            writeParticleImpl<DummyHeader>(filename, NULL, dummyHeader(), pFunc, &DummyHeader::writeBinary, "wb");
         }
         
 
-- 
2.43.0

