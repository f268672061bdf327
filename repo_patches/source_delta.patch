From f6d0c8f0b254658b9f921b17437f6cd026ecd9b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:52 +0000
Subject: [PATCH 01/37] fix: HLLEP wave speed bounds use the signed Roe
 eigenvalues

The bounds were taken from |u-a| and |u+a|, so the flux depended on the face
orientation and was not upwind for supersonic flow against the normal.
---
 src/Euler/Gas.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Euler/Gas.hpp b/src/Euler/Gas.hpp
index 966e5ae..70d5725 100644
--- a/src/Euler/Gas.hpp
+++ b/src/Euler/Gas.hpp
@@ -330,8 +330,8 @@ namespace DNDS::Euler::Gas
         // std::cout << alpha.transpose() << std::endl;
         // std::cout << std::endl;
 
-        real SL = std::min(lam0, veloLm0 - std::sqrt(asqrL));
-        real SR = std::max(lam4, veloRm0 + std::sqrt(asqrR));
+        real SL = std::min(veloRoe0 - aRoe, veloLm0 - std::sqrt(asqrL));
+        real SR = std::max(veloRoe0 + aRoe, veloRm0 + std::sqrt(asqrR));
         real UU = std::abs(veloRoe0);
         real dfix = aRoe / (aRoe + UU);
         real SP = std::max(SR, 0.0);
-- 
2.43.0


From 3688662e34c3c0ab1db60742f2788761a2ef080f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:53 +0000
Subject: [PATCH 02/37] fix: HLLC energy flux on a moving face

The star-state pressure work used the contact speed relative to the face, so
F(U,U,n) differed from the physical flux whenever the face moves.
---
 src/Euler/Gas.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/Euler/Gas.hpp b/src/Euler/Gas.hpp
index 70d5725..2b39d19 100644
--- a/src/Euler/Gas.hpp
+++ b/src/Euler/Gas.hpp
@@ -480,11 +480,10 @@ namespace DNDS::Euler::Gas
                   (UL(Eigen::seq(Eigen::fix<1>, Eigen::fix<dim>)).dot(n) - vgN * UL(0)) * (SL - veloLm0) -
                   (UR(Eigen::seq(Eigen::fix<1>, Eigen::fix<dim>)).dot(n) - vgN * UR(0)) * (SR - veloRm0)) /
                  div;
-        //! is this right for moving mesh?
         Eigen::Vector<real, dim + 2> DS;
         DS.setZero();
         DS(Eigen::seq(Eigen::fix<1>, Eigen::fix<dim>)) = n;
-        DS(dim + 1) = SS;
+        DS(dim + 1) = SS + vgN; // SS is relative to the face, pressure work uses the absolute contact speed
         // SS += sign(SS) * std::exp(-std::abs(SS) / dLambda) * dLambda;
         if (SS >= 0)
         {
-- 
2.43.0


From c2dc66358a909481332345f97d5d08472036aad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:19 +0000
Subject: [PATCH 03/37] fix: sign of the velocity jump in the HLLC star
 pressure estimate

The linearised star pressure must rise when the two states collide
(p* = mean(p) - (uR-uL) rho a / 2).  With the opposite sign the estimate
fell in a head-on collision, the outer wave speeds crossed already at a
closing speed of aL+aR, and the flux stopped being antisymmetric under
exchange of the two sides.
---
 src/Euler/Gas.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Euler/Gas.hpp b/src/Euler/Gas.hpp
index 2b39d19..45c875f 100644
--- a/src/Euler/Gas.hpp
+++ b/src/Euler/Gas.hpp
@@ -451,7 +451,7 @@ namespace DNDS::Euler::Gas
                 q = 1;
             return q;
         };
-        real pS = 0.5 * (pLm + pRm) - 0.5 * (veloLm0 - veloRm0) * rhoRoe * aRoe;
+        real pS = 0.5 * (pLm + pRm) - 0.5 * (veloRm0 - veloLm0) * rhoRoe * aRoe;
         pS = std::max(0.0, pS);
         real SL = veloLm0 - std::sqrt(asqrLm) * HLLCq(pLm, pS);
         real SR = veloRm0 + std::sqrt(asqrRm) * HLLCq(pRm, pS);
-- 
2.43.0


From 02234e7ef6ed21e150b660f00e9215cb2a838d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:54 +0000
Subject: [PATCH 04/37] fix: chain rule of second and third derivatives in
 ConvertDiffsFullMap

The first (second) order rows were overwritten with the physical derivatives
before the second (third) order terms read them as parametric derivatives.
---
 src/Geom/DiffTensors.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/Geom/DiffTensors.hpp b/src/Geom/DiffTensors.hpp
index a8509f9..a0a0f23 100644
--- a/src/Geom/DiffTensors.hpp
+++ b/src/Geom/DiffTensors.hpp
@@ -358,9 +358,11 @@ namespace DNDS::Geom::Base
                     ccv += DxiDx(std::get<1>(diffOperatorIJK2IcDim)[i], m) *
                            mat(std::get<1>(diffOperatorIJK2IcDim)[m], iB);
             }
-        mat(seq0t1, Eigen::all) = out(seq0t1, Eigen::all);
         if (cmaxDiffOrder == 1)
+        {
+            mat(seq0t1, Eigen::all) = out(seq0t1, Eigen::all);
             return;
+        }
 
         static const int nDiffSizC2 = ndiffSizS<dim>(2);
         static const auto seq1t2 = Eigen::seq(Eigen::fix<nDiffSizC1>, Eigen::fix<nDiffSizC2 - 1>);
@@ -380,9 +382,12 @@ namespace DNDS::Geom::Base
                                DxiDx(std::get<1>(diffOperatorIJK2IcDim)[j], n) *
                                mat(std::get<2>(diffOperatorIJK2IcDim)[m][n], iB);
             }
-        mat(seq1t2, Eigen::all) = out(seq1t2, Eigen::all);
         if (cmaxDiffOrder == 2)
+        {
+            mat(seq0t1, Eigen::all) = out(seq0t1, Eigen::all);
+            mat(seq1t2, Eigen::all) = out(seq1t2, Eigen::all);
             return;
+        }
 
         static const int nDiffSizC3 = ndiffSizS<dim>(3);
         static const auto seq2t3 = Eigen::seq(Eigen::fix<nDiffSizC2>, Eigen::fix<nDiffSizC3 - 1>);
@@ -418,6 +423,8 @@ namespace DNDS::Geom::Base
                                 DxiDx(std::get<1>(diffOperatorIJK2IcDim)[k], p) *
                                 mat(std::get<3>(diffOperatorIJK2IcDim)[m][n][p], iB);
             }
+        mat(seq0t1, Eigen::all) = out(seq0t1, Eigen::all);
+        mat(seq1t2, Eigen::all) = out(seq1t2, Eigen::all);
         mat(seq2t3, Eigen::all) = out(seq2t3, Eigen::all);
         if (cmaxDiffOrder == 3)
             return;
-- 
2.43.0


From 4533ab5d22a6e15d4b72795f006ab2827a2a21fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:13:02 +0000
Subject: [PATCH 05/37] fix: BDF StepPP adds the right-hand side, not the
 residual itself, to the residual

---
 src/Solver/ODE.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Solver/ODE.hpp b/src/Solver/ODE.hpp
index 9336fac..028fa52 100644
--- a/src/Solver/ODE.hpp
+++ b/src/Solver/ODE.hpp
@@ -456,7 +456,7 @@ namespace DNDS::ODE
                 rhs.addTo(xLast, 1 / dt);
                 resOther = rhs;
                 rhs.addTo(x, -1. / dt);
-                rhs.addTo(rhs, BDFCoefs(kCurrent - 1, 0));
+                rhs.addTo(rhsbuf[0], BDFCoefs(kCurrent - 1, 0));
                 fsolve(x, rhs, resOther, dTau, dt, BDFCoefs(kCurrent - 1, 0), xinc, iter, 1.0, 0);
                 //* xinc = (I/dtau-A*alphaDiag)\rhs
 
-- 
2.43.0


From 43552d1a796706fe50fadb207f333c495da766ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:13:02 +0000
Subject: [PATCH 06/37] fix: VBDF StepPP evaluates the right-hand side into the
 buffer it then uses

---
 src/Solver/ODE.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Solver/ODE.hpp b/src/Solver/ODE.hpp
index 028fa52..fb0fec8 100644
--- a/src/Solver/ODE.hpp
+++ b/src/Solver/ODE.hpp
@@ -725,7 +725,7 @@ namespace DNDS::ODE
             {
                 fdt(x, dTau, BDFCoefs(0), 0);
 
-                frhs(rhs, x, dTau, iter, 1.0, 0);
+                frhs(rhsbuf[0], x, dTau, iter, 1.0, 0);
 
                 xBase.setConstant(0.0);
                 xBase.addTo(xLast, (BDFCoefs(1) - 0) / dt); // 0 because xBase includes xLast/dt part
-- 
2.43.0


From 46d89eb5e9a9906ebe354e2af258016375522e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:13:02 +0000
Subject: [PATCH 07/37] fix: VBDF getLatestRHS returns the right-hand side, not
 the residual

---
 src/Solver/ODE.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Solver/ODE.hpp b/src/Solver/ODE.hpp
index fb0fec8..423cfd6 100644
--- a/src/Solver/ODE.hpp
+++ b/src/Solver/ODE.hpp
@@ -793,7 +793,7 @@ namespace DNDS::ODE
 
         virtual TDATA &getLatestRHS() override
         {
-            return rhs;
+            return rhsbuf[0];
         }
 
         virtual ~ImplicitVBDFDualTimeStep() = default;
-- 
2.43.0


From 8407d3f0aeeb59321b955227b465ca8042556c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:13:02 +0000
Subject: [PATCH 08/37] fix: SSPRK3 evaluates its stages at times 0, 1, 1/2 of
 the step

---
 src/Solver/ODE.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Solver/ODE.hpp b/src/Solver/ODE.hpp
index 423cfd6..035dd33 100644
--- a/src/Solver/ODE.hpp
+++ b/src/Solver/ODE.hpp
@@ -1225,7 +1225,7 @@ namespace DNDS::ODE
             // MPI::Barrier(MPI_COMM_WORLD);
             // std::cout << "fucked" << std::endl;
 
-            frhs(rhs, x, dTau, 1, 0.5, 0);
+            frhs(rhs, x, dTau, 1, 0, 0);
             rhsbuf[0] = rhs;
             if (localDtStepping)
                 rhs *= dTau;
@@ -1246,7 +1246,7 @@ namespace DNDS::ODE
             // x.addTo(rhs, 0.25);
             fincrement(x, rhs, 0.25, 0);
 
-            frhs(rhs, x, dTau, 1, 0.25, 0);
+            frhs(rhs, x, dTau, 1, 0.5, 0);
             rhsbuf[2] = rhs;
             if (localDtStepping)
                 rhs *= dTau;
-- 
2.43.0


From 703982dee22c4080ed2447ec24ea21101517eb8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:13:02 +0000
Subject: [PATCH 09/37] fix: Hermite start-up step evaluates the inner point at
 the time its coefficients are for

---
 src/Solver/ODE.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/Solver/ODE.hpp b/src/Solver/ODE.hpp
index 035dd33..aac12cd 100644
--- a/src/Solver/ODE.hpp
+++ b/src/Solver/ODE.hpp
@@ -838,6 +838,7 @@ namespace DNDS::ODE
         int nStartIter = 0;
         real thetaM1 = 0.9146;
         real alphaHM3 = 0.5;
+        real alphaHM3Exe = 0.5; // inner point actually used by the current coefficients
         int maskHM3 = 0;
         int maskHM3Exe = 0;
 
@@ -932,6 +933,7 @@ namespace DNDS::ODE
                 break;
             }
 
+            alphaHM3Exe = alpha;
             wInteg[0] = (-1.0 / 6.0) / alpha + 1.0 / 2.0;
             wInteg[1] = (-1.0 / 6.0) / (alpha * (alpha - 1.0));
             wInteg[2] = 1.0 / (alpha * 6.0 - 6.0) + 1.0 / 2.0;
@@ -1009,12 +1011,12 @@ namespace DNDS::ODE
                                 rhsMid.addTo(rhsbuf[2], thetaCur * wInteg(1));
                             }
                             fdt(xMid, dTau, 1.0, 1);
-                            fsolve(xMid, rhsMid, resOther, dTau, dt, std::abs(thetaCur * wInteg(1)), xinc, iter, alphaHM3, 1);
+                            fsolve(xMid, rhsMid, resOther, dTau, dt, std::abs(thetaCur * wInteg(1)), xinc, iter, alphaHM3Exe, 1);
                         }
 
                         fincrement(xMid, xinc, 1.0, 1);
 
-                        frhs(rhsbuf[2], xMid, dTau, iter, alphaHM3, 1);
+                        frhs(rhsbuf[2], xMid, dTau, iter, alphaHM3Exe, 1);
 
                         rhsFull.setConstant(0.0);
                         {
-- 
2.43.0


From 1c393d342730f1d242c93801824cb6d3dd775dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:45 +0000
Subject: [PATCH 10/37] fix: GMRES keeps the last Krylov vector when the
 subspace becomes invariant

On early stop of the Arnoldi loop the number of usable basis vectors was one too
small, so e.g. for A = c I (or an exact preconditioner) x was left unchanged and
solve() reported convergence.
---
 src/Solver/Linear.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Solver/Linear.hpp b/src/Solver/Linear.hpp
index f7f0169..fdd65f0 100644
--- a/src/Solver/Linear.hpp
+++ b/src/Solver/Linear.hpp
@@ -81,6 +81,7 @@ namespace DNDS::Linear
                     if (h(j + 1, j) < scale_MLb * 1e-32)
                     {
                         std::cout << "early stop" << std::endl;
+                        j++; // the j-th Krylov vector is still part of the (invariant) subspace
                         break;
                     }
                     Vs[j + 1] *= 1.0 / h(j + 1, j); // normalize
-- 
2.43.0


From b236cb9c0d73305c435faeb86642d9cf020853a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:15 +0000
Subject: [PATCH 11/37] fix: operator precedence in divCeil

l / r + (l % r) ? 1 : 0 parsed as (l / r + l % r) ? 1 : 0, so the quotient was
never returned.
---
 src/DNDS/Defines.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DNDS/Defines.hpp b/src/DNDS/Defines.hpp
index 1df66e0..5a9035e 100644
--- a/src/DNDS/Defines.hpp
+++ b/src/DNDS/Defines.hpp
@@ -310,7 +310,7 @@ namespace DNDS
     template <class TL, class TR>
     inline constexpr auto divCeil(TL l, TR r)
     {
-        return l / r + (l % r) ? 1 : 0;
+        return l / r + ((l % r) ? 1 : 0);
     }
 }
 
-- 
2.43.0


From 4b61715be7dcf95af8cfbe7ee808334936022b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:44:23 +0000
Subject: [PATCH 12/37] fix: GlobalOffsetsMapping rejects the rank just past
 the last one

rank == size passed the assertion and read past the end of the offsets.
---
 src/DNDS/IndexMapping.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DNDS/IndexMapping.hpp b/src/DNDS/IndexMapping.hpp
index 1031d5c..addd785 100644
--- a/src/DNDS/IndexMapping.hpp
+++ b/src/DNDS/IndexMapping.hpp
@@ -69,7 +69,7 @@ namespace DNDS
             //     PrintVec(RankOffsets, std::cout);
             //     std::cout << rank << " KK " << val << std::endl;
             // }
-            DNDS_assert((rank >= 0 && rank <= RankLengths.size()) &&
+            DNDS_assert((rank >= 0 && rank < RankLengths.size()) &&
                         (val >= 0 && val <= RankOffsets[rank + 1] - RankOffsets[rank]));
             return RankOffsets[rank] + val;
         }
-- 
2.43.0


From a8a0df10397aa71fb07223c4254ca28810246278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:30 +0000
Subject: [PATCH 13/37] fix: put the receives first in PushReqVec

waitPersistentPush (async one-by-one) starts the first nRecvPushReq requests as
the receives; with the sends first, a send was waited for before the matching
receive was started.
---
 src/DNDS/ArrayTransformer.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/DNDS/ArrayTransformer.hpp b/src/DNDS/ArrayTransformer.hpp
index b5fe64e..6bb3010 100644
--- a/src/DNDS/ArrayTransformer.hpp
+++ b/src/DNDS/ArrayTransformer.hpp
@@ -495,7 +495,7 @@ namespace DNDS
                     auto dtypeInfo = (*pPushTypeVec)[ip];
                     MPI_int rankOther = dtypeInfo.first;
                     MPI_int tag = rankOther + mpi.rank;
-                    MPI_Recv_init(father->data(), 1, dtypeInfo.second, rankOther, tag, mpi.comm, PushReqVec->data() + pPullTypeVec->size() + ip);
+                    MPI_Recv_init(father->data(), 1, dtypeInfo.second, rankOther, tag, mpi.comm, PushReqVec->data() + ip);
                     // cascade from father
                     nRecvPushReq++;
                 }
@@ -511,7 +511,7 @@ namespace DNDS
 #else
                     MPI_Bsend_init
 #endif
-                        (son->data(), 1, dtypeInfo.second, rankOther, tag, mpi.comm, PushReqVec->data() + ip);
+                        (son->data(), 1, dtypeInfo.second, rankOther, tag, mpi.comm, PushReqVec->data() + pPushTypeVec->size() + ip);
 
                     // cascade from father
 
-- 
2.43.0


From 4b0979b6954321e11ca56663eb40a5164a3c9033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:30 +0000
Subject: [PATCH 14/37] fix: in-situ push only needs a buffer for ranks it
 receives from

waitPersistentPush aborted when the last ranks pushed nothing to this one.
---
 src/DNDS/ArrayTransformer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DNDS/ArrayTransformer.hpp b/src/DNDS/ArrayTransformer.hpp
index 6bb3010..b6873b2 100644
--- a/src/DNDS/ArrayTransformer.hpp
+++ b/src/DNDS/ArrayTransformer.hpp
@@ -816,11 +816,11 @@ namespace DNDS
                 for (MPI_int r = 0; r < mpi.size; r++)
                 {
                     // push
-                    DNDS_assert(bufferVec < inSituBuffer.end());
                     MPI_int pushNumber = pLGhostMapping->pushIndexSizes[r];
                     // std::cout << "PN" << pushNumber << std::endl;
                     if (pushNumber > 0)
                     {
+                        DNDS_assert(bufferVec < inSituBuffer.end());
                         index nPushData = 0;
                         for (index i = 0; i < pushNumber; i++)
                         {
-- 
2.43.0


From 5ebcb483690323c7cd1525affba163fd5150b787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:30 +0000
Subject: [PATCH 15/37] fix: in-situ packing of max-width rows packs the full
 row width

The receiver's ghost span is full width rows; packing only the used part
shifted every later row and let pushes overrun the receive buffer.
---
 src/DNDS/ArrayTransformer.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/DNDS/ArrayTransformer.hpp b/src/DNDS/ArrayTransformer.hpp
index b6873b2..1432731 100644
--- a/src/DNDS/ArrayTransformer.hpp
+++ b/src/DNDS/ArrayTransformer.hpp
@@ -624,8 +624,8 @@ namespace DNDS
                         index nPush = 0;
                         if constexpr (_dataLayout == CSR)
                             nPush = father->RowSizeField(loc);
-                        if constexpr (isTABLE_Max(_dataLayout)) //! init sizes
-                            nPush = father->RowSize(loc);
+                        if constexpr (isTABLE_Max(_dataLayout))
+                            nPush = father->RowSizeField(); // ghost rows are stored with full width
                         if constexpr (isTABLE_Fixed(_dataLayout))
                             nPush = father->RowSizeField();
                         nPushData += nPush;
@@ -720,8 +720,8 @@ namespace DNDS
                         index nPush = 0;
                         if constexpr (_dataLayout == CSR)
                             nPush = father->RowSizeField(loc);
-                        if constexpr (isTABLE_Max(_dataLayout)) //! init sizes
-                            nPush = father->RowSize(loc);
+                        if constexpr (isTABLE_Max(_dataLayout))
+                            nPush = father->RowSizeField(); // ghost rows are stored with full width
                         if constexpr (isTABLE_Fixed(_dataLayout))
                             nPush = father->RowSizeField();
                         nPushData += nPush;
@@ -734,8 +734,8 @@ namespace DNDS
                         index nPush = 0;
                         if constexpr (_dataLayout == CSR)
                             nPush = father->RowSizeField(loc);
-                        if constexpr (isTABLE_Max(_dataLayout)) //! init sizes
-                            nPush = father->RowSize(loc);
+                        if constexpr (isTABLE_Max(_dataLayout))
+                            nPush = father->RowSizeField(); // ghost rows are stored with full width
                         if constexpr (isTABLE_Fixed(_dataLayout))
                             nPush = father->RowSizeField();
                         std::copy((*father)[loc], (*father)[loc] + nPush, inSituBuffer.back().begin() + nPushData);
@@ -828,8 +828,8 @@ namespace DNDS
                             index nPush = 0;
                             if constexpr (_dataLayout == CSR)
                                 nPush = father->RowSizeField(loc);
-                            if constexpr (isTABLE_Max(_dataLayout)) //! init sizes
-                                nPush = father->RowSize(loc);
+                            if constexpr (isTABLE_Max(_dataLayout))
+                                nPush = father->RowSizeField(); // ghost rows are stored with full width
                             if constexpr (isTABLE_Fixed(_dataLayout))
                                 nPush = father->RowSizeField();
                             std::copy(bufferVec->begin() + nPushData, bufferVec->begin() + nPushData + nPush, (*father)[loc]);
-- 
2.43.0


From 6991f6de04890aaac9a3e7aabf7d43892d5e6a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:18 +0000
Subject: [PATCH 16/37] fix: waiting for an in-situ push that is already
 complete does nothing

clearPersistentPush (and so pushOnce) waits a second time and aborted for
lack of buffers.
---
 src/DNDS/ArrayTransformer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DNDS/ArrayTransformer.hpp b/src/DNDS/ArrayTransformer.hpp
index 1432731..f8051e7 100644
--- a/src/DNDS/ArrayTransformer.hpp
+++ b/src/DNDS/ArrayTransformer.hpp
@@ -813,7 +813,7 @@ namespace DNDS
                 if (!PushReqVec->empty())
                     MPI::WaitallAuto(PushReqVec->size(), PushReqVec->data(), PushStatVec.data());
                 auto bufferVec = inSituBuffer.begin();
-                for (MPI_int r = 0; r < mpi.size; r++)
+                for (MPI_int r = 0; !PushReqVec->empty() && r < mpi.size; r++) // nothing to unpack if not started
                 {
                     // push
                     MPI_int pushNumber = pLGhostMapping->pushIndexSizes[r];
-- 
2.43.0


From c3f18236a5a6bcd5bc781af0e9fdd440372d6b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:23 +0000
Subject: [PATCH 17/37] fix: in-situ packing matches messages of empty rows on
 both sides

If all rows exchanged between two ranks were empty (CSR), one side posted a
message the other never matched and the wait did not return.
---
 src/DNDS/ArrayTransformer.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/DNDS/ArrayTransformer.hpp b/src/DNDS/ArrayTransformer.hpp
index f8051e7..a8eafe9 100644
--- a/src/DNDS/ArrayTransformer.hpp
+++ b/src/DNDS/ArrayTransformer.hpp
@@ -647,7 +647,7 @@ namespace DNDS
                 auto ghostSpan = gRPtr - gLPtr;
                 pullSize = MPI_int(ghostSpan);
 
-                if (pullSize > 0)
+                if (pLGhostMapping->ghostSizes[r] > 0) // same condition as the other side's pushNumber > 0
                 {
                     PushReqVec->emplace_back(MPI_REQUEST_NULL);
                     MPI_Issend(gLPtr, pullSize * father->getTypeMult(), father->getDataType(), r, r + mpi.rank, mpi.comm, &PushReqVec->back());
@@ -699,7 +699,7 @@ namespace DNDS
                 auto ghostSpan = gRPtr - gLPtr;
                 pullSize = MPI_int(ghostSpan);
 
-                if (pullSize > 0)
+                if (pLGhostMapping->ghostSizes[r] > 0) // same condition as the other side's pushNumber > 0
                 {
                     PullReqVec->emplace_back(MPI_REQUEST_NULL);
                     MPI_Irecv(gLPtr, pullSize * father->getTypeMult(), father->getDataType(), r, r + mpi.rank, mpi.comm, &PullReqVec->back());
-- 
2.43.0


From 598ac3f4679ef2dda6b64ffff74f776ec456a2e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:06 +0000
Subject: [PATCH 18/37] fix: resizing a CSR array that was compressed while
 empty gives an uncompressed array

Compress() on an array with no rows leaves a row-start table behind; the
next Resize(n) then looked compressed with no data behind it.
---
 src/DNDS/Array.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/DNDS/Array.hpp b/src/DNDS/Array.hpp
index 33a4f75..ef60248 100644
--- a/src/DNDS/Array.hpp
+++ b/src/DNDS/Array.hpp
@@ -324,6 +324,7 @@ namespace DNDS
                 _size = nSize;
                 // _dataUncompressed.resize(nSize, typename decltype(_dataUncompressed)::value_type(nRow_size_dynamic));
                 _dataUncompressed.resize(nSize);
+                _pRowStart.reset(); // could be left over from compressing when the size was 0
             }
             else
             {
@@ -353,6 +354,7 @@ namespace DNDS
                 DNDS_assert_info(!IfCompressed(), "Need to decompress before auto resizing");
                 _size = nSize;
                 _dataUncompressed.resize(nSize);
+                _pRowStart.reset(); // could be left over from compressing when the size was 0
             }
             else if constexpr (_dataLayout == TABLE_StaticFixed)
             {
-- 
2.43.0


From 831c929250f2503be6215faca539bcbdd39b8463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:06 +0000
Subject: [PATCH 19/37] fix: SwapData of max-width rows swaps the row sizes
 with the data

---
 src/DNDS/Array.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/DNDS/Array.hpp b/src/DNDS/Array.hpp
index ef60248..6ce67ba 100644
--- a/src/DNDS/Array.hpp
+++ b/src/DNDS/Array.hpp
@@ -601,6 +601,7 @@ namespace DNDS
             else
             {
                 _data.swap(R._data);
+                _pRowSizes.swap(R._pRowSizes);
             }
         }
 
-- 
2.43.0


From 232f592cd001970dbc253008a6ea1c83a63e8017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:48:58 +0000
Subject: [PATCH 20/37] fix: MatColSize of matrices with fixed rows and dynamic
 columns

---
 src/DNDS/ArrayDerived/ArrayEigenMatirx.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DNDS/ArrayDerived/ArrayEigenMatirx.hpp b/src/DNDS/ArrayDerived/ArrayEigenMatirx.hpp
index 473e87b..856b40f 100644
--- a/src/DNDS/ArrayDerived/ArrayEigenMatirx.hpp
+++ b/src/DNDS/ArrayDerived/ArrayEigenMatirx.hpp
@@ -88,7 +88,7 @@ namespace DNDS
                 return _mat_nj;
             if constexpr (_mat_nj == NonUniformSize)
                 return this->t_base::RowSize(iMat) / this->MatRowSize(iMat);
-            if constexpr (_mat_ni == DynamicSize)
+            if constexpr (_mat_nj == DynamicSize)
                 return this->t_base::RowSize(iMat) / this->MatRowSize(iMat);
             return UnInitRowsize; // invalid branch
         }
-- 
2.43.0


From ed524175df7e32b10df432976ba2e601e82bdae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:48:59 +0000
Subject: [PATCH 21/37] fix: resizing a matrix of a copied array leaves the row
 counts of the original alone

---
 src/DNDS/ArrayDerived/ArrayEigenMatirx.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/DNDS/ArrayDerived/ArrayEigenMatirx.hpp b/src/DNDS/ArrayDerived/ArrayEigenMatirx.hpp
index 856b40f..1929da9 100644
--- a/src/DNDS/ArrayDerived/ArrayEigenMatirx.hpp
+++ b/src/DNDS/ArrayDerived/ArrayEigenMatirx.hpp
@@ -101,7 +101,12 @@ namespace DNDS
         void ResizeRow(index iMat, rowsize nSizeRow, rowsize nSizeCol)
         {
             if constexpr (_mat_ni == NonUniformSize)
-                this->t_base::ResizeRow(iMat, nSizeRow * nSizeCol), (*_mat_nRows)[iMat] = nSizeRow;
+            {
+                this->t_base::ResizeRow(iMat, nSizeRow * nSizeCol);
+                if (_mat_nRows.use_count() > 1) // shared with a copy of this array
+                    DNDS_MAKE_SSP(_mat_nRows, *_mat_nRows);
+                (*_mat_nRows)[iMat] = nSizeRow;
+            }
             else if constexpr (_mat_ni == DynamicSize)
                 DNDS_assert_info(false, "Invalid call");
         }
-- 
2.43.0


From 71445a4abb9ab8ee21a1c929f3d04f21b61aceb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:57:32 +0000
Subject: [PATCH 22/37] fix: re-initialising a Jacobian diagonal block drops
 the inverse of the old contents

---
 src/Euler/EulerJacobian.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Euler/EulerJacobian.hpp b/src/Euler/EulerJacobian.hpp
index 37087ce..231f97f 100644
--- a/src/Euler/EulerJacobian.hpp
+++ b/src/Euler/EulerJacobian.hpp
@@ -29,6 +29,7 @@ namespace DNDS::Euler
         void SetModeAndInit(int mode, int nVarsC, ArrayDOFV<nVarsFixed> &mock)
         {
             _mode = mode;
+            hasInvert = false;
             if (isBlock())
             {
                 DNDS_MAKE_SSP(_data.father, mock.father->getMPI());
-- 
2.43.0


From 64f5a80d6c58c968a9a0c1d4924ce3abeb0b8e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:22:22 +0000
Subject: [PATCH 23/37] fix: collective HDF5 reads on ranks with nothing to
 read no longer deadlock

---
 src/DNDS/SerializerH5.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/DNDS/SerializerH5.cpp b/src/DNDS/SerializerH5.cpp
index f26dc23..f36dfa0 100644
--- a/src/DNDS/SerializerH5.cpp
+++ b/src/DNDS/SerializerH5.cpp
@@ -494,7 +494,7 @@ namespace DNDS::Serializer
     /**
      * @brief
      *
-     * when #buf == 2, only set nGlobal and dim2
+     * when nLocal < 0, only set nGlobal and dim2
      *
      * @param loc
      * @param name
@@ -530,7 +530,7 @@ namespace DNDS::Serializer
             dim2 = -1;
         nGlobal = sizes[0];
 
-        if (buf != nullptr)
+        if (nLocal >= 0) // not a size query; a rank with nothing to read still takes part (buf may be null then)
         {
             int rank = dim2 >= 0 ? 2 : 1;
             std::array<hsize_t, 2> offset{hsize_t(nOffset), 0};
-- 
2.43.0


From 5a8ff04b0e62a677de77cf32d3c43df51704db3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:24:21 +0000
Subject: [PATCH 24/37] fix: serializers keep the shared vectors they refer to
 alive

---
 src/DNDS/SerializerH5.cpp   | 16 ++++++++--------
 src/DNDS/SerializerH5.hpp   |  4 ++--
 src/DNDS/SerializerJSON.cpp | 16 ++++++++--------
 src/DNDS/SerializerJSON.hpp |  4 ++--
 4 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/src/DNDS/SerializerH5.cpp b/src/DNDS/SerializerH5.cpp
index f36dfa0..deca9f5 100644
--- a/src/DNDS/SerializerH5.cpp
+++ b/src/DNDS/SerializerH5.cpp
@@ -373,11 +373,11 @@ namespace DNDS::Serializer
         index CanNotShare = ptr_2_pth.count(v.get()) ? 0 : 1;
         MPI::AllreduceOneIndex(CanNotShare, MPI_MAX, MPIInfo{commDup, mpi.rank, mpi.size});
         if (!CanNotShare)
-            this->WriteString(name + "::ref", ptr_2_pth[v.get()]);
+            this->WriteString(name + "::ref", ptr_2_pth[v.get()].second);
         else
         {
             WriteDataVector<index>(name, v->data(), v->size(), offset, chunksize, deflateLevel, h5file, reading, cP, mpi, commDup, collectiveMetadataRW, collectiveDataRW);
-            ptr_2_pth[v.get()] = cP + "/" + name;
+            ptr_2_pth[v.get()] = {v, cP + "/" + name};
         }
     }
     void SerializerH5::WriteSharedRowsizeVector(const std::string &name, const ssp<std::vector<rowsize>> &v, ArrayGlobalOffset offset)
@@ -385,11 +385,11 @@ namespace DNDS::Serializer
         index CanNotShare = ptr_2_pth.count(v.get()) ? 0 : 1;
         MPI::AllreduceOneIndex(CanNotShare, MPI_MAX, MPIInfo{commDup, mpi.rank, mpi.size});
         if (!CanNotShare)
-            this->WriteString(name + "::ref", ptr_2_pth[v.get()]);
+            this->WriteString(name + "::ref", ptr_2_pth[v.get()].second);
         else
         {
             WriteDataVector<rowsize>(name, v->data(), v->size(), offset, chunksize, deflateLevel, h5file, reading, cP, mpi, commDup, collectiveMetadataRW, collectiveDataRW);
-            ptr_2_pth[v.get()] = cP + "/" + name;
+            ptr_2_pth[v.get()] = {v, cP + "/" + name};
         }
     }
 
@@ -729,12 +729,12 @@ namespace DNDS::Serializer
 
         if (pth_2_ssp.count(refPath))
         {
-            v = *((ssp<tValue> *)(pth_2_ssp[refPath])); // ! reform this (and in json counterpart) to use reinterpret_cast or use STL's tools
+            v = std::static_pointer_cast<tValue>(pth_2_ssp[refPath]);
         }
         else
         {
             v = std::make_shared<tValue>();
-            pth_2_ssp[refPath] = &v;
+            pth_2_ssp[refPath] = v;
 
             size_t size;
             ReadDataVector<index>(refPath, nullptr, size, offset, h5file, reading, "/", mpi, collectiveMetadataRW, collectiveDataRW);
@@ -762,12 +762,12 @@ namespace DNDS::Serializer
 
         if (pth_2_ssp.count(refPath))
         {
-            v = *((ssp<tValue> *)(pth_2_ssp[refPath])); // ! reform this (and in json counterpart) to use reinterpret_cast or use STL's tools
+            v = std::static_pointer_cast<tValue>(pth_2_ssp[refPath]);
         }
         else
         {
             v = std::make_shared<tValue>();
-            pth_2_ssp[refPath] = &v;
+            pth_2_ssp[refPath] = v;
 
             size_t size;
             ReadDataVector<rowsize>(refPath, nullptr, size, offset, h5file, reading, "/", mpi, collectiveMetadataRW, collectiveDataRW);
diff --git a/src/DNDS/SerializerH5.hpp b/src/DNDS/SerializerH5.hpp
index 2e19ccf..27b0466 100644
--- a/src/DNDS/SerializerH5.hpp
+++ b/src/DNDS/SerializerH5.hpp
@@ -12,8 +12,8 @@ namespace DNDS::Serializer
         bool reading = true;
         std::vector<std::string> cPathSplit;
         std::string cP; // current path
-        std::map<void *, std::string> ptr_2_pth;
-        std::map<std::string, void *> pth_2_ssp;
+        std::map<void *, std::pair<ssp<void>, std::string>> ptr_2_pth; // holds the vectors: no other one gets their address
+        std::map<std::string, ssp<void>> pth_2_ssp;
 
         MPIInfo mpi;
         MPI_Comm commDup{MPI_COMM_NULL};
diff --git a/src/DNDS/SerializerJSON.cpp b/src/DNDS/SerializerJSON.cpp
index 551001b..68cfe99 100644
--- a/src/DNDS/SerializerJSON.cpp
+++ b/src/DNDS/SerializerJSON.cpp
@@ -126,22 +126,22 @@ namespace DNDS::Serializer
     {
         auto cPointer = nlohmann::json::json_pointer(cP);
         if (ptr_2_pth.count(v.get()))
-            jObj[cPointer][name]["ref"] = ptr_2_pth[v.get()];
+            jObj[cPointer][name]["ref"] = ptr_2_pth[v.get()].second;
         else
         {
             jObj[cPointer][name] = *v;
-            ptr_2_pth[v.get()] = cP + "/" + name;
+            ptr_2_pth[v.get()] = {v, cP + "/" + name};
         }
     }
     void SerializerJSON::WriteSharedRowsizeVector(const std::string &name, const ssp<std::vector<rowsize>> &v, ArrayGlobalOffset offset)
     {
         auto cPointer = nlohmann::json::json_pointer(cP);
         if (ptr_2_pth.count(v.get()))
-            jObj[cPointer][name]["ref"] = ptr_2_pth[v.get()];
+            jObj[cPointer][name]["ref"] = ptr_2_pth[v.get()].second;
         else
         {
             jObj[cPointer][name] = *v;
-            ptr_2_pth[v.get()] = cP + "/" + name;
+            ptr_2_pth[v.get()] = {v, cP + "/" + name};
         }
     }
 
@@ -207,13 +207,13 @@ namespace DNDS::Serializer
 
         if (pth_2_ssp.count(refPath))
         {
-            v = *((ssp<tValue> *)(pth_2_ssp[refPath]));
+            v = std::static_pointer_cast<tValue>(pth_2_ssp[refPath]);
         }
         else
         {
             DNDS_assert(jObj[nlohmann::json::json_pointer(refPath)].is_array());
             v = std::make_shared<tValue>(jObj[nlohmann::json::json_pointer(refPath)].get<tValue>()); // vector's copy constructor
-            pth_2_ssp[refPath] = &v;
+            pth_2_ssp[refPath] = v;
         }
         offset = ArrayGlobalOffset_Unknown;
     }
@@ -234,13 +234,13 @@ namespace DNDS::Serializer
 
         if (pth_2_ssp.count(refPath))
         {
-            v = *((ssp<tValue> *)(pth_2_ssp[refPath]));
+            v = std::static_pointer_cast<tValue>(pth_2_ssp[refPath]);
         }
         else
         {
             DNDS_assert(jObj[nlohmann::json::json_pointer(refPath)].is_array());
             v = std::make_shared<tValue>(jObj[nlohmann::json::json_pointer(refPath)].get<tValue>()); // vector's copy constructor
-            pth_2_ssp[refPath] = &v;
+            pth_2_ssp[refPath] = v;
         }
         offset = ArrayGlobalOffset_Unknown;
     }
diff --git a/src/DNDS/SerializerJSON.hpp b/src/DNDS/SerializerJSON.hpp
index c09513c..fa6aa36 100644
--- a/src/DNDS/SerializerJSON.hpp
+++ b/src/DNDS/SerializerJSON.hpp
@@ -14,8 +14,8 @@ namespace DNDS::Serializer
         bool reading = true;
         std::vector<std::string> cPathSplit;
         std::string cP; // current path
-        std::map<void *, std::string> ptr_2_pth;
-        std::map<std::string, void *> pth_2_ssp;
+        std::map<void *, std::pair<ssp<void>, std::string>> ptr_2_pth; // holds the vectors: no other one gets their address
+        std::map<std::string, ssp<void>> pth_2_ssp;
 
         bool useCodecOnUint8{false};
         int deflateLevel{5};
-- 
2.43.0


From f4b08bf5bdbb2ab5d6ee2520fb54a6ef2d93450c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:32:50 +0000
Subject: [PATCH 25/37] fix: reading back an array with rows of no entries no
 longer divides by zero

---
 src/DNDS/Array.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/DNDS/Array.hpp b/src/DNDS/Array.hpp
index 6ce67ba..c72656c 100644
--- a/src/DNDS/Array.hpp
+++ b/src/DNDS/Array.hpp
@@ -801,8 +801,11 @@ namespace DNDS
                 this->__ReadSerializerData(serializerP, offsetV);
                 if constexpr (_dataLayout == TABLE_StaticFixed || _dataLayout == TABLE_Fixed)
                 {
-                    offsetV.CheckMultipleOf(this->RowSize());
-                    offset = offsetV / this->RowSize(); // to make sure offset in the output is valid (on the elements)
+                    if (this->RowSize() > 0) // with no columns the data tell nothing about the rows
+                    {
+                        offsetV.CheckMultipleOf(this->RowSize());
+                        offset = offsetV / this->RowSize(); // to make sure offset in the output is valid (on the elements)
+                    }
                 }
             }
             // TODO: check data validity
-- 
2.43.0


From 177d69fe638fa87ad11a82ed4d4e85e269a199ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:32:50 +0000
Subject: [PATCH 26/37] fix: a table of rows is not read into an array with
 another row capacity

---
 src/DNDS/Array.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/DNDS/Array.hpp b/src/DNDS/Array.hpp
index c72656c..b1b2c0a 100644
--- a/src/DNDS/Array.hpp
+++ b/src/DNDS/Array.hpp
@@ -781,6 +781,9 @@ namespace DNDS
                 _row_size_dynamic = rsR;
             if (_row_max == DynamicSize && rmR >= 0)
                 _row_size_dynamic = rmR; // TODO: fix this! need a _row_max_dynamic ?
+            if constexpr (_dataLayout == TABLE_StaticMax)
+                if (rmR == DynamicSize)
+                    DNDS_assert(_row_size_dynamic == _row_max), _row_size_dynamic = 0;
             // if (_size == 0) //! cannot do this, collective calls!
             //     return;
             if constexpr (_dataLayout == CSR)
-- 
2.43.0


From dd06c324ce30f9670ca8b949f52332ab6c1509c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:36:19 +0000
Subject: [PATCH 27/37] fix: restart files of matrices with individual row
 counts can be read back

---
 src/DNDS/ArrayDerived/ArrayEigenMatirx.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/DNDS/ArrayDerived/ArrayEigenMatirx.hpp b/src/DNDS/ArrayDerived/ArrayEigenMatirx.hpp
index 1929da9..3133bc3 100644
--- a/src/DNDS/ArrayDerived/ArrayEigenMatirx.hpp
+++ b/src/DNDS/ArrayDerived/ArrayEigenMatirx.hpp
@@ -217,14 +217,14 @@ namespace DNDS
                 _mat_nRow_dynamic = v_mat_ni;
             if (v_mat_ni == NonUniformSize) // TODO: complete here!
             {
-
+                Serializer::ArrayGlobalOffset offsetRows = Serializer::ArrayGlobalOffset_Unknown; // offset already tells about the rows of the base array
                 if constexpr (_mat_ni == NonUniformSize)
-                    serializerP->ReadSharedRowsizeVector("mat_nRows", _mat_nRows, offset); // TODO: multiple write to offset, check?
+                    serializerP->ReadSharedRowsizeVector("mat_nRows", _mat_nRows, offsetRows);
                 else
                 {
                     t_pRowSizes v_mat_nRows;
-                    serializerP->ReadSharedRowsizeVector("mat_nRows", v_mat_nRows, offset);
-                    int c_mat_nRow_dynamic = v_mat_nRows->size() ? 0 : v_mat_nRows->at(0);
+                    serializerP->ReadSharedRowsizeVector("mat_nRows", v_mat_nRows, offsetRows);
+                    int c_mat_nRow_dynamic = v_mat_nRows->empty() ? 0 : v_mat_nRows->at(0);
                     for (auto i = 0; i < v_mat_nRows->size(); ++i)
                         DNDS_assert(v_mat_nRows->operator[](i) == c_mat_nRow_dynamic);
                     _mat_nRow_dynamic = c_mat_nRow_dynamic;
-- 
2.43.0


From 9cfe5263ec4afd70fb92903bec061058f9003204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:38:13 +0000
Subject: [PATCH 28/37] fix: matrices are not read back with another number of
 rows than they were written with

---
 src/DNDS/ArrayDerived/ArrayEigenMatirx.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/DNDS/ArrayDerived/ArrayEigenMatirx.hpp b/src/DNDS/ArrayDerived/ArrayEigenMatirx.hpp
index 3133bc3..7967b5e 100644
--- a/src/DNDS/ArrayDerived/ArrayEigenMatirx.hpp
+++ b/src/DNDS/ArrayDerived/ArrayEigenMatirx.hpp
@@ -215,6 +215,8 @@ namespace DNDS
             serializerP->ReadInt("mat_nRow_dynamic", _mat_nRow_dynamic);
             if (_mat_ni == DynamicSize && v_mat_ni >= 0)
                 _mat_nRow_dynamic = v_mat_ni;
+            if (_mat_ni >= 0 && v_mat_ni == DynamicSize)
+                DNDS_assert(_mat_nRow_dynamic == _mat_ni);
             if (v_mat_ni == NonUniformSize) // TODO: complete here!
             {
                 Serializer::ArrayGlobalOffset offsetRows = Serializer::ArrayGlobalOffset_Unknown; // offset already tells about the rows of the base array
@@ -227,6 +229,8 @@ namespace DNDS
                     int c_mat_nRow_dynamic = v_mat_nRows->empty() ? 0 : v_mat_nRows->at(0);
                     for (auto i = 0; i < v_mat_nRows->size(); ++i)
                         DNDS_assert(v_mat_nRows->operator[](i) == c_mat_nRow_dynamic);
+                    if (_mat_ni >= 0)
+                        DNDS_assert(v_mat_nRows->empty() || c_mat_nRow_dynamic == _mat_ni);
                     _mat_nRow_dynamic = c_mat_nRow_dynamic;
                 }
             }
-- 
2.43.0


From 6815d4b65d8af28c333c6146d95d7f798a6a099c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:50:02 +0000
Subject: [PATCH 29/37] fix: apply the isotropic turbulent stress of the
 two-equation models along the face normal

---
 src/Euler/EulerEvaluator_EvaluateDt.hxx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Euler/EulerEvaluator_EvaluateDt.hxx b/src/Euler/EulerEvaluator_EvaluateDt.hxx
index dbdf718..c77ceee 100644
--- a/src/Euler/EulerEvaluator_EvaluateDt.hxx
+++ b/src/Euler/EulerEvaluator_EvaluateDt.hxx
@@ -1284,8 +1284,9 @@ namespace DNDS::Euler
                 ((vnL * ULxy(I4 + 2, Eigen::all).array() + vnR * URxy(I4 + 2, Eigen::all).array()) -
                  (URxy(I4 + 2, Eigen::all).array() - ULxy(I4 + 2, Eigen::all).array()) * lambdaFaceCC.array()) *
                 0.5;
-            finc(1, Eigen::all).array() += UMeanXy(I4 + 1, Eigen::all).array() * (2. / 3.); //! k's normal stress
-            finc(I4, Eigen::all).array() += UMeanXy(I4 + 1, Eigen::all).array() * (2. / 3.) * UMeanXy(1, Eigen::all).array() / UMeanXy(0, Eigen::all).array();
+            TReal_Batch kStress = UMeanXy(I4 + 1, Eigen::all) * (2. / 3.); //! k's normal stress
+            finc(Seq123, Eigen::all).array() += unitNorm.array().rowwise() * kStress.array();
+            finc(I4, Eigen::all).array() += kStress.array() * (UMeanXy(Seq123, Eigen::all).array() * unitNorm.array()).colwise().sum() / UMeanXy(0, Eigen::all).array();
         }
 
 #ifndef DNDS_FV_EULEREVALUATOR_IGNORE_VISCOUS_TERM
-- 
2.43.0


From 4ae3e156b10b094425041c318044da1068b26100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:50:02 +0000
Subject: [PATCH 30/37] fix: keep the auxiliary flux of the rotated Riemann
 scheme when it is evaluated with mean-value eigenvalues

---
 src/Euler/EulerEvaluator_EvaluateDt.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Euler/EulerEvaluator_EvaluateDt.hxx b/src/Euler/EulerEvaluator_EvaluateDt.hxx
index c77ceee..7bb6ce8 100644
--- a/src/Euler/EulerEvaluator_EvaluateDt.hxx
+++ b/src/Euler/EulerEvaluator_EvaluateDt.hxx
@@ -1201,7 +1201,7 @@ namespace DNDS::Euler
                     Gas::InviscidFlux_IdealGas_Batch_Dispatcher<dim>(
                         rsTypeAux,
                         ULxy, URxy, ULMeanXy, URMeanXy, vgXY, vgC, N1B, N1,
-                        settings.idealGasProperty.gamma, finc, deltaLambdaFace[iFace],
+                        settings.idealGasProperty.gamma, F1, deltaLambdaFace[iFace],
                         exitFun, lam0, lam123, lam4);
                     lam0V1.setConstant(lam0);
                     lam123V1.setConstant(lam123);
-- 
2.43.0


From 1d2d3ecb60dd04ce976f77e032d3c3c6f7ee0225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:56:55 +0000
Subject: [PATCH 31/37] fix: rotated Riemann scheme uses non-negative direction
 weights

---
 src/Euler/EulerEvaluator_EvaluateDt.hxx | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/Euler/EulerEvaluator_EvaluateDt.hxx b/src/Euler/EulerEvaluator_EvaluateDt.hxx
index 7bb6ce8..69780c4 100644
--- a/src/Euler/EulerEvaluator_EvaluateDt.hxx
+++ b/src/Euler/EulerEvaluator_EvaluateDt.hxx
@@ -1168,8 +1168,11 @@ namespace DNDS::Euler
             else
             {
                 TVec N1 = diffVelo / diffVeloN;
+                if (N1.dot(unitNormC) < 0) // weights of the two directions must be non-negative
+                    N1 = -N1;
                 DNDS_assert_info(std::abs(N1.norm() - 1) < 1e-5, fmt::format("{}", diffVeloN));
                 TReal_Batch N1Proj = N1.transpose() * unitNorm;
+                TReal_Batch N1Sign = (N1Proj.array() < 0).select(TReal_Batch::Constant(1, nB, -1.), TReal_Batch::Constant(1, nB, 1.));
 
                 TVec_Batch N2 = unitNorm - N1 * N1Proj;
                 TReal_Batch N2Proj = N2.colwise().norm().array().max(smallReal * 10);
@@ -1182,7 +1185,8 @@ namespace DNDS::Euler
 
                 TVec_Batch N1B;
                 N1B.resizeLike(N2);
-                N1B.colwise() = N1;
+                N1B = N1 * N1Sign;
+                N1Proj.array() *= N1Sign.array();
 
                 TReal_Batch lam4V1, lam0V1, lam123V1;
                 lam0V1.resizeLike(lam0V);
@@ -1211,7 +1215,7 @@ namespace DNDS::Euler
                     for (int iB = 0; iB < nB; iB++)
                     {
                         RSWrapper_XY(rsTypeAux, ULxy(Eigen::all, iB), URxy(Eigen::all, iB), ULMeanXy, URMeanXy,
-                                     vgXY(Eigen::all, iB), N1,
+                                     vgXY(Eigen::all, iB), N1B(Eigen::all, iB),
                                      settings.idealGasProperty.gamma, F1(Eigen::all, iB), deltaLambdaFace[iFace],
                                      lam0V1(iB), lam123V1(iB), lam4V1(iB));
                     }
-- 
2.43.0


From 0337a454707fd17af756ad7f95bbb750ca3d3074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:06:19 +0000
Subject: [PATCH 32/37] fix: the realizable k-epsilon source takes epsilon from
 its own variable

---
 src/Euler/RANS_ke.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Euler/RANS_ke.hpp b/src/Euler/RANS_ke.hpp
index ec0b672..b0e7035 100644
--- a/src/Euler/RANS_ke.hpp
+++ b/src/Euler/RANS_ke.hpp
@@ -84,7 +84,7 @@ namespace DNDS::Euler::RANS
         Eigen::Matrix<real, dim, dim> SS = diffU + diffU.transpose() - (2. / 3.) * diffU.trace() * Eigen::Matrix<real, dim, dim>::Identity();
         real rho = UMeanXy(0);
         real k = std::max(UMeanXy(I4 + 1) / rho, verySmallReal_4);
-        real epsilon = std::max(UMeanXy(I4 + 1) / rho, verySmallReal_4);
+        real epsilon = std::max(UMeanXy(I4 + 2) / rho, verySmallReal_4);
         real Ret = rho * sqr(k) / (muf * epsilon) + verySmallReal_4;
         real S = std::sqrt(SS.squaredNorm() / 2) + verySmallReal_4;
         real fmu = (1 - std::exp(-0.01 * Ret)) / std::max(1 - exp(-std::sqrt(Ret)), verySmallReal_4) * std::max(1., std::sqrt(2 / Ret));
-- 
2.43.0


From cb956ab19ed7a401ecd83e35125408faefb5706c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:06:19 +0000
Subject: [PATCH 33/37] fix: the k-omega SST production limiter keeps its lower
 bound

---
 src/Euler/RANS_ke.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Euler/RANS_ke.hpp b/src/Euler/RANS_ke.hpp
index b0e7035..e84e9bc 100644
--- a/src/Euler/RANS_ke.hpp
+++ b/src/Euler/RANS_ke.hpp
@@ -396,7 +396,7 @@ namespace DNDS::Euler::RANS
         real PkTilde = Pk;
 #if KW_SST_PROD_LIMITS == 1
         PkTilde = std::max(PkTilde, verySmallReal);
-        PkTilde = std::min(Pk, 20 * betaStar * rho * k * omegaaa); // CFD++'s limiting: 10 times
+        PkTilde = std::min(PkTilde, 20 * betaStar * rho * k * omegaaa); // CFD++'s limiting: 10 times
 #endif
 
         real gammaC = gamma1 * F1 + gamma1 * (1 - F1);
-- 
2.43.0


From 80921dad70d466fc2dc6fc3a361e9da82fc09721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:06:19 +0000
Subject: [PATCH 34/37] fix: the k-omega SST model blends both production
 coefficients

---
 src/Euler/RANS_ke.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Euler/RANS_ke.hpp b/src/Euler/RANS_ke.hpp
index e84e9bc..a53c2ab 100644
--- a/src/Euler/RANS_ke.hpp
+++ b/src/Euler/RANS_ke.hpp
@@ -399,7 +399,7 @@ namespace DNDS::Euler::RANS
         PkTilde = std::min(PkTilde, 20 * betaStar * rho * k * omegaaa); // CFD++'s limiting: 10 times
 #endif
 
-        real gammaC = gamma1 * F1 + gamma1 * (1 - F1);
+        real gammaC = gamma1 * F1 + gamma2 * (1 - F1);
         real sigK = sigK1 * F1 + sigK2 * (1 - F1);
         real sigO = sigO1 * F1 + sigO2 * (1 - F1);
         real beta = beta1 * F1 + beta2 * (1 - F1);
-- 
2.43.0


From eddaf88d5f4a83bacd202d1a4b1e603883ffb588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:06:19 +0000
Subject: [PATCH 35/37] fix: the cross-diffusion of the Wilcox k-omega model
 carries the density

---
 src/Euler/RANS_ke.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Euler/RANS_ke.hpp b/src/Euler/RANS_ke.hpp
index a53c2ab..0f4651e 100644
--- a/src/Euler/RANS_ke.hpp
+++ b/src/Euler/RANS_ke.hpp
@@ -582,7 +582,7 @@ namespace DNDS::Euler::RANS
         if (mode == 0)
         {
             source(I4 + 1) = Pk - betaS * rho * k * omegaaa;
-            source(I4 + 2) = POmega - beta * rho * sqr(omegaaa) + SigD / omegaaa * crossDiff;
+            source(I4 + 2) = POmega - beta * rho * sqr(omegaaa) + rho * SigD / omegaaa * crossDiff;
         }
         else
         {
-- 
2.43.0


From 5cbea889a2fcf872856acede1478792cfa8b1eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:29:19 +0000
Subject: [PATCH 36/37] fix: the long convergence threshold of the lift driver
 is a real number

---
 src/Euler/CLDriver.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Euler/CLDriver.hpp b/src/Euler/CLDriver.hpp
index 4507d32..7a86d41 100644
--- a/src/Euler/CLDriver.hpp
+++ b/src/Euler/CLDriver.hpp
@@ -28,7 +28,7 @@ namespace DNDS::Euler
         index CLconvergeWindow = 10;
 
         index CLconvergeLongWindow = 100;
-        index CLconvergeLongThreshold = 1e-4;
+        real CLconvergeLongThreshold = 1e-4;
 
         DNDS_NLOHMANN_DEFINE_TYPE_INTRUSIVE_WITH_ORDERED_JSON(
             CLDriverSettings,
-- 
2.43.0


From 47175a3a1c9dc9324570d448d7b6c7f8d8448ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:29:20 +0000
Subject: [PATCH 37/37] fix: default boundaries can be used in a rotating frame

---
 src/Euler/EulerBC.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Euler/EulerBC.hpp b/src/Euler/EulerBC.hpp
index ea50ea4..5066622 100644
--- a/src/Euler/EulerBC.hpp
+++ b/src/Euler/EulerBC.hpp
@@ -71,7 +71,7 @@ namespace DNDS::Euler
             BCValuesExtra.resize(Geom::BC_ID_DEFAULT_MAX);
             for (auto &v : BCValuesExtra)
                 v.setConstant(UnInitReal);
-            BCFlags.resize(Geom::BC_ID_DEFAULT_MAX);
+            BCFlags.resize(Geom::BC_ID_DEFAULT_MAX, TFlags{{"frameOpt", 0}}); // default boundaries move with the frame
             name2ID = Geom::GetFaceName2IDDefault();
             BCTypes.resize(Geom::BC_ID_DEFAULT_MAX, BCUnknown);
             BCTypes[Geom::BC_ID_DEFAULT_FAR] = BCFar;
-- 
2.43.0

