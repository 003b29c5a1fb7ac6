From 679a4b8a32fb8dbb34265d85e09778e9e4e3481f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:17 +0000
Subject: [PATCH 01/53] fix: scale the rotation-displacement block in
 TQ::SetQ(alpha, E)

---
 src/elasticity/elasticity_energy.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/elasticity/elasticity_energy.hpp b/src/elasticity/elasticity_energy.hpp
index 0d5154d..f2502e8 100644
--- a/src/elasticity/elasticity_energy.hpp
+++ b/src/elasticity/elasticity_energy.hpp
@@ -474,6 +474,7 @@ public:
       // T
       FlatMat<0, DISPPV, DISPPV, ROTPV,  TMU> T(E); // A and C
       TT::SetSkT(tang, T);
+      T *= alpha;
 
       // r*I
       FlatMat<DISPPV, ROTPV, DISPPV, ROTPV,  TMU> RI(E); // A and C
-- 
2.43.0


From 599d733ff11334c77ae079bba7818246a67f59da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:17 +0000
Subject: [PATCH 02/53] fix: 3D Q M Q^T - sign of T*M and the (2,2) entry of T
 M T^T

---
 src/elasticity/elasticity_energy.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/elasticity/elasticity_energy.hpp b/src/elasticity/elasticity_energy.hpp
index f2502e8..bae4e21 100644
--- a/src/elasticity/elasticity_energy.hpp
+++ b/src/elasticity/elasticity_energy.hpp
@@ -319,17 +319,17 @@ public:
 
           Iterate<N>([&](auto l)
           {
-            T_M(0, l) = t(1) * M(2, l) - t(2) * M(1, l);
+            T_M(0, l) = t(2) * M(1, l) - t(1) * M(2, l);
           });
 
           Iterate<N>([&](auto l)
           {
-            T_M(1, l) = t(2) * M(0, l) - t(0) * M(2, l);
+            T_M(1, l) = t(0) * M(2, l) - t(2) * M(0, l);
           });
 
           Iterate<N>([&](auto l)
           {
-            T_M(2, l) = t(0) * M(1, l) - t(1) * M(0, l);
+            T_M(2, l) = t(1) * M(0, l) - t(0) * M(1, l);
           });
         }
 
@@ -421,7 +421,7 @@ public:
           // third column
           T_M_TT(0, 2) = T_M_TT(2, 0);
           T_M_TT(1, 2) = T_M_TT(2, 1);
-          T_M_TT(0, 2) = t(1) * T_M(1, 0) - t(0) * T_M(2, 1);
+          T_M_TT(2, 2) = t(1) * T_M(2, 0) - t(0) * T_M(2, 1);
         }
       }
 
-- 
2.43.0


From eb897ef47704d21340bb5c14a14a66f79aad85ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:17 +0000
Subject: [PATCH 03/53] fix: missing rotation-scaling factor in SetQtMQ

---
 src/elasticity/elasticity_energy.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elasticity/elasticity_energy.hpp b/src/elasticity/elasticity_energy.hpp
index bae4e21..c4ba212 100644
--- a/src/elasticity/elasticity_energy.hpp
+++ b/src/elasticity/elasticity_energy.hpp
@@ -898,7 +898,7 @@ public:
     MakeFlatMat<0, DISPPV, 0, DISPPV>(aA) = val * A;
     MakeFlatMat<0, DISPPV, DISPPV, ROTPV>(aA) = val * AQpB;
     MakeFlatMat<DISPPV, ROTPV, 0, DISPPV>(aA) = val * Trans(AQpB);
-    MakeFlatMat<DISPPV, ROTPV, DISPPV, ROTPV>(aA) = val * (Trans(Q) * AQpB + BT * Q + (sqr(s)*D) );
+    MakeFlatMat<DISPPV, ROTPV, DISPPV, ROTPV>(aA) = val * (Trans(Q) * AQpB + (s*BT) * Q + (sqr(s)*D) );
   }
 
 
-- 
2.43.0


From 090bdca789b95a87c31a2c295692dc5688f92ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:17 +0000
Subject: [PATCH 04/53] fix: QTA temporary in CalcQTM/AddQTM is ROTPV x DISPPV

---
 src/elasticity/elasticity_energy.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/elasticity/elasticity_energy.hpp b/src/elasticity/elasticity_energy.hpp
index c4ba212..77423cf 100644
--- a/src/elasticity/elasticity_energy.hpp
+++ b/src/elasticity/elasticity_energy.hpp
@@ -959,7 +959,7 @@ public:
   {
     /** I   0    A  B   =     A        B
         QT s*I   BT C   =  QTA+s*BT QTB+s*C **/
-    static Mat<DISPPV, ROTPV, double> QTA;
+    static Mat<ROTPV, DISPPV, double> QTA;
     static Mat<ROTPV, ROTPV, double> QTB;
     const double s = Q(DISPPV, DISPPV);
     QTA = Trans(MakeFlatMat<0, DISPPV, DISPPV, ROTPV>(Q)) * MakeFlatMat<0, DISPPV, 0, DISPPV>(M);
@@ -974,7 +974,7 @@ public:
   {
     /** I  0   A  B   =    A      B
         QT I   BT C   =  QTA+BT QTB+C **/
-    static Mat<DISPPV, ROTPV, double> QTA;
+    static Mat<ROTPV, DISPPV, double> QTA;
     static Mat<ROTPV, ROTPV, double> QTB;
     const double s = Q(DISPPV, DISPPV);
     QTA = Trans(MakeFlatMat<0, DISPPV, DISPPV, ROTPV>(Q)) * MakeFlatMat<0, DISPPV, 0, DISPPV>(M);
-- 
2.43.0


From 5d6d88c64a85840afaf716f7be9c7b2337490226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:01 +0000
Subject: [PATCH 05/53] fix: buffer size of elasticity vertex data must count
 the full weight matrix

---
 src/elasticity/elasticity_mesh.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elasticity/elasticity_mesh.hpp b/src/elasticity/elasticity_mesh.hpp
index c9ebf08..0996d8b 100644
--- a/src/elasticity/elasticity_mesh.hpp
+++ b/src/elasticity/elasticity_mesh.hpp
@@ -22,7 +22,7 @@ class ElastVData
 public:
   using TM = typename ETM_TRAIT<DIM>::type;
 
-  static constexpr int DOUBLE_BUFFER_SIZE = 1 + SIZE_IN_BUFFER<Vec<DIM,double>>() + SIZE_IN_BUFFER<Mat<DIM,DIM,double>>();
+  static constexpr int DOUBLE_BUFFER_SIZE = 1 + SIZE_IN_BUFFER<Vec<DIM,double>>() + SIZE_IN_BUFFER<TM>();
 
   Vec<DIM, double> pos;
   TM wt;
-- 
2.43.0


From 11a3e4d66c5b7937925220b2d034659ea32ab514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:39 +0000
Subject: [PATCH 06/53] fix: copying a SpecOpt must copy the default value

---
 src/base/utils/SpecOpt.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/base/utils/SpecOpt.hpp b/src/base/utils/SpecOpt.hpp
index 5fe44ed..2890ac4 100644
--- a/src/base/utils/SpecOpt.hpp
+++ b/src/base/utils/SpecOpt.hpp
@@ -23,7 +23,7 @@ public:
   SpecOpt (OC _default_opt) : default_opt(_default_opt), spec_opt(0) { ; }
   SpecOpt (OC _default_opt, Array<OC> & _spec_opt) : default_opt(_default_opt), spec_opt(_spec_opt) { ; }
   SpecOpt (OC _default_opt, Array<OC> _spec_opt) : default_opt(_default_opt), spec_opt(_spec_opt) { ; }
-  SpecOpt (const SpecOpt<OC> & other) : default_opt(default_opt), spec_opt(other.spec_opt) { ; }
+  SpecOpt (const SpecOpt<OC> & other) : default_opt(other.default_opt), spec_opt(other.spec_opt) { ; }
   SpecOpt (SpecOpt<OC> && other) : default_opt(other.default_opt), spec_opt(move(other.spec_opt)) { ; }
   SpecOpt (const Flags & flags, OC defopt, string defkey, FlatArray<string> optkeys, FlatArray<OC> enum_vals)
     : SpecOpt(defopt)
-- 
2.43.0


From 9a8441b7e9fc93c929130bfccb4d232b0bca9bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:39 +0000
Subject: [PATCH 07/53] fix: lexicographic order of 4- and 5-tuples

---
 src/base/utils/utils.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/base/utils/utils.hpp b/src/base/utils/utils.hpp
index a91c1dc..eb26057 100644
--- a/src/base/utils/utils.hpp
+++ b/src/base/utils/utils.hpp
@@ -44,7 +44,7 @@ template<typename T> bool operator < (const IVec<3,T> & a, const IVec<3,T> & b)
   else if (a[1]<b[1]) return true; else if (a[1]>b[1]) return false;
   else return a[2]<b[2];
 }
-template<typename T> bool operator < (const IVec<4,T> & a, const IVec<3,T> & b) {
+template<typename T> bool operator < (const IVec<4,T> & a, const IVec<4,T> & b) {
   if (a[0]<b[0]) return true; else if (a[0]>b[0]) return false;
   else if (a[1]<b[1]) return true; else if (a[1]>b[1]) return false;
   else if (a[2]<b[2]) return true; else if (a[2]>b[2]) return false;
@@ -54,7 +54,7 @@ template<typename T> bool operator < (const IVec<5,T> & a, const IVec<5,T> & b)
   if (a[0]<b[0]) return true; else if (a[0]>b[0]) return false;
   else if (a[1]<b[1]) return true; else if (a[1]>b[1]) return false;
   else if (a[2]<b[2]) return true; else if (a[2]>b[2]) return false;
-  else if (a[3]<b[3]) return true; else if (a[2]>b[2]) return false;
+  else if (a[3]<b[3]) return true; else if (a[3]>b[3]) return false;
   else return a[4]<b[4];
 }
 
-- 
2.43.0


From 02f90fd166b32a30474f2eb2221ec3f5349fb44a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:41 +0000
Subject: [PATCH 08/53] fix: SpecOpt |= must keep the other operand's special
 values beyond the own ones

---
 src/base/utils/SpecOpt.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/base/utils/SpecOpt.hpp b/src/base/utils/SpecOpt.hpp
index 2890ac4..fa6d98e 100644
--- a/src/base/utils/SpecOpt.hpp
+++ b/src/base/utils/SpecOpt.hpp
@@ -65,6 +65,9 @@ public:
 
   SpecOpt<OC> & operator |= (const SpecOpt<OC> & other) {
     if constexpr(std::is_same<OC, bool>::value) {
+      // levels only "other" has a special value for
+      for (auto k = spec_opt.Size(); k < other.spec_opt.Size(); k++)
+        { spec_opt.Append(default_opt); }
       default_opt |= other.default_opt;
       for (auto k : Range(min(spec_opt.Size(), other.spec_opt.Size())))
         { spec_opt[k] |= other.spec_opt[k]; }
-- 
2.43.0


From dbd0d561620be718715e972a696d1391093f308f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:48 +0000
Subject: [PATCH 09/53] fix: GSS4 takes the diagonal entry of the rows it
 updates

The compressed matrix keeps the original column numbers, so the diagonal of
compressed row i is in column xdofs[i], not i.
---
 src/base/smoothers/gssmoother.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/base/smoothers/gssmoother.cpp b/src/base/smoothers/gssmoother.cpp
index 4386934..53b93c0 100644
--- a/src/base/smoothers/gssmoother.cpp
+++ b/src/base/smoothers/gssmoother.cpp
@@ -428,7 +428,7 @@ GSS4<TM> :: GSS4 (shared_ptr<SparseMatrix<TM>> A, FlatArray<TM> repl_diag, share
       if (repl_diag.Size())
         { dinv[i] = repl_diag[xdofs[i]]; }
       else
-        { dinv[i] = ncA(i, i); } // yeah, that is correct
+        { dinv[i] = ncA(i, xdofs[i]); } // rows are compressed, columns are not
       if (pinv)
         { HeapReset hr(lh); CalcPseudoInverseTryNormal(dinv[i], lh); }
       else
@@ -517,7 +517,7 @@ void GSS4<TM> :: CalcDiags ()
   ParallelForRange (IntRange(dinv.Size()), [&] ( IntRange r ) {
 LocalHeap lh = glh.Split();
 for (auto i : r) {
-  dinv[i] = ncA(i, i);
+  dinv[i] = ncA(i, xdofs[i]); // rows are compressed, columns are not
   if (pinv)
     { HeapReset hr(lh); CalcPseudoInverseTryNormal(dinv[i], lh); }
   else
-- 
2.43.0


From 73a81230856eaeac567fef93ea6092a2f270f584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:49 +0000
Subject: [PATCH 10/53] fix: HiptMairSmoother::SmoothBack, x is not zero after
 the range-space sweep

The potential-space right hand side was computed from b instead of b - Ax when
smoothing backwards from a zero initial guess with the potential space first.
---
 src/base/smoothers/base_smoother.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/base/smoothers/base_smoother.cpp b/src/base/smoothers/base_smoother.cpp
index d7a0057..348d937 100644
--- a/src/base/smoothers/base_smoother.cpp
+++ b/src/base/smoothers/base_smoother.cpp
@@ -292,6 +292,8 @@ void HiptMairSmoother :: SmoothBack (BaseVector &x, const BaseVector &b, BaseVec
     RegionTimer rt(tr);
 
     smrange->SmoothBack(x, b, res, resUp, resUp, x_zero);
+
+    xZero = false;
   }
 
   resUp = CalcPotRhs(x, b, res, *rhspot, resUp, xZero, resUp);
-- 
2.43.0


From 0bed50cc91977c91b5e9f7f8fe055b29c8b0c3fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:09 +0000
Subject: [PATCH 11/53] fix: adding sparse matrices uses the scale factors and
 the values of B

AddMergeSPM ignored alpha and beta and took the entries of B from A's row.
---
 src/base/linalg/utils_sparseLA.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/base/linalg/utils_sparseLA.cpp b/src/base/linalg/utils_sparseLA.cpp
index 7cecef3..068fb91 100644
--- a/src/base/linalg/utils_sparseLA.cpp
+++ b/src/base/linalg/utils_sparseLA.cpp
@@ -174,22 +174,22 @@ AddMergeSPM (double const &alpha,
       {
         for (auto j : Range(risA))
         {
-          lam(k, risA[j], rvsA[j]);
+          lam(k, risA[j], alpha * rvsA[j]);
         }
       }
       else if (risA.Size() == 0)
       {
         for (auto j : Range(risB))
         {
-          lam(k, risB[j], rvsB[j]);
+          lam(k, risB[j], beta * rvsB[j]);
         }
       }
       else
       {
         iterate_ABC(risA, risB,
-          [&](auto const &idxA) { lam(k, risA[idxA], rvsA[idxA]); },
-          [&](auto const &idxB) { lam(k, risB[idxB], rvsA[idxB]); },
-          [&](auto const &idxA, auto const &idxB) { lam(k, risA[idxA], rvsA[idxA] + rvsA[idxB]); });
+          [&](auto const &idxA) { lam(k, risA[idxA], alpha * rvsA[idxA]); },
+          [&](auto const &idxB) { lam(k, risB[idxB], beta * rvsB[idxB]); },
+          [&](auto const &idxA, auto const &idxB) { lam(k, risA[idxA], alpha * rvsA[idxA] + beta * rvsB[idxB]); });
       }
     }
   };
-- 
2.43.0


From 4efe5ce6b56e56191a02fc36e662482b00aa00bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:09 +0000
Subject: [PATCH 12/53] fix: the scale factor of a scaled matrix starts behind
 the '='

std::stod threw on the string that still contained it.
---
 src/base/linalg/utils_sparseLA.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/base/linalg/utils_sparseLA.cpp b/src/base/linalg/utils_sparseLA.cpp
index 068fb91..124fdaf 100644
--- a/src/base/linalg/utils_sparseLA.cpp
+++ b/src/base/linalg/utils_sparseLA.cpp
@@ -252,7 +252,7 @@ UnwrapScaleExpression(shared_ptr<BaseMatrix> A)
     // "GetScalingFactor" not available in upstream NGSolve 
     std::string opInfoName = scaledA->GetOperatorInfo().name;
     auto pos = opInfoName.find('=');
-    double scale = std::stod(opInfoName.substr(pos, opInfoName.size() - pos));
+    double scale = std::stod(opInfoName.substr(pos + 1));
     return std::make_tuple(scale, scaledA->SPtrMat());
 
     // throw Exception("UnwrapScaleExpression, GetScalingFactor not available in NGSolve!");
-- 
2.43.0


From d949fdd4ff00010a456cc26ce763526db239da20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:09 +0000
Subject: [PATCH 13/53] fix: converting a block matrix to a sparse one

Column offsets were written into the row offsets, the entries of all block rows
went to the first rows, one entry was copied repeatedly, and the parallel DOFs
of block rows and columns were exchanged.
---
 src/base/linalg/utils_sparseLA.cpp | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/src/base/linalg/utils_sparseLA.cpp b/src/base/linalg/utils_sparseLA.cpp
index 124fdaf..b965c2a 100644
--- a/src/base/linalg/utils_sparseLA.cpp
+++ b/src/base/linalg/utils_sparseLA.cpp
@@ -505,7 +505,7 @@ shared_ptr<BaseMatrix> BaseMatrixToSparse (shared_ptr<BaseMatrix> A);
 
 template<int BH, int BW>
 INLINE
-shared_ptr<stripped_spm_tm<Mat<BH, BW, double>>>
+shared_ptr<stripped_spm<Mat<BH, BW, double>>>
 Block2SparseMatrix_impl (BlockMatrix &A)
 {
   typedef stripped_spm_tm<Mat<BH, BW, double>> TSPM;
@@ -559,8 +559,8 @@ Block2SparseMatrix_impl (BlockMatrix &A)
 
   for (auto j : Range(W))
   {
-    rowOff[j] = totalH;
-    totalH += getBlockInCol(j)->Width();
+    colOff[j] = totalW;
+    totalW += getBlockInCol(j)->Width();
   }
 
   auto iterateBlockWise = [&](auto lam)
@@ -591,7 +591,7 @@ Block2SparseMatrix_impl (BlockMatrix &A)
     }
   });
 
-  auto spA = make_shared<stripped_spm_tm<Mat<BH, BW, double>>>(perow, totalW);
+  auto spA = make_shared<stripped_spm<Mat<BH, BW, double>>>(perow, totalW);
 
   perow = 0;
 
@@ -602,15 +602,16 @@ Block2SparseMatrix_impl (BlockMatrix &A)
       auto Akj_ris = Akj.GetRowIndices(kk);
       auto Akj_rvs = Akj.GetRowValues(kk);
 
-      auto ris = spA->GetRowIndices(kk);
-      auto rvs = spA->GetRowValues(kk);
+      int const row = offRow + kk;
+
+      auto ris = spA->GetRowIndices(row);
+      auto rvs = spA->GetRowValues(row);
 
-      for (auto l : Range(ris))
+      for (auto l : Range(Akj_ris))
       {
-        int const row = offRow + kk;
         int const inRow = perow[row]++;
-        ris[inRow] = offCol + Akj_ris[j];
-        rvs[inRow] = Akj_rvs[j];
+        ris[inRow] = offCol + Akj_ris[l];
+        rvs[inRow] = Akj_rvs[l];
       }
     }
   });
@@ -702,8 +703,8 @@ Block2SparseMatrix (BlockMatrix &A)
 
         if (kjPar)
         {
-          rowPds[k] = parAkj->GetRowParallelDofs();
-          colPds[j] = parAkj->GetColParallelDofs();
+          rowPds[j] = parAkj->GetRowParallelDofs();
+          colPds[k] = parAkj->GetColParallelDofs();
         }
 
         if (blockPar == -1)
-- 
2.43.0


From 079867b6219c33f55bb3fb2c477e17044b2fa716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:09 +0000
Subject: [PATCH 14/53] fix: the sparse identity has identity blocks on its
 diagonal

All rows had their entry in column 1, filled with ones.
---
 src/base/linalg/utils_sparseLA.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/base/linalg/utils_sparseLA.cpp b/src/base/linalg/utils_sparseLA.cpp
index b965c2a..179fa8d 100644
--- a/src/base/linalg/utils_sparseLA.cpp
+++ b/src/base/linalg/utils_sparseLA.cpp
@@ -837,7 +837,7 @@ EmbedSparseMatrix(shared_ptr<BaseMatrix> A, IntRange r, int const bigH)
 
 template<int BS>
 INLINE
-shared_ptr<stripped_spm_tm<Mat<BS, BS, double>>>
+shared_ptr<stripped_spm<Mat<BS, BS, double>>>
 createSparseIdentityImpl(int H, BitArray const *onRows)
 {
   Array<int> perow(H); perow = 1;
@@ -853,14 +853,14 @@ createSparseIdentityImpl(int H, BitArray const *onRows)
     }
   }
 
-  auto spI = make_shared<stripped_spm_tm<Mat<BS, BS, double>>>(perow, H);
+  auto spI = make_shared<stripped_spm<Mat<BS, BS, double>>>(perow, H);
 
   for (auto k : Range(perow))
   {
     if ( (onRows == nullptr) || (onRows->Test(k) ) )
     {
-      spI->GetRowIndices(k)[0] = 1;
-      spI->GetRowValues(k)[0] = 1.0;
+      spI->GetRowIndices(k)[0] = k;
+      SetIdentity(spI->GetRowValues(k)[0]);
     }
   }
 
-- 
2.43.0


From e2d42b70d7e64c4dbcaa455594ed4d0384805cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:09 +0000
Subject: [PATCH 15/53] fix: compressing a scalar sparse matrix keeps negative
 entries

The entry size was compared without taking the absolute value.
---
 src/base/linalg/utils_sparseLA.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/base/linalg/utils_sparseLA.cpp b/src/base/linalg/utils_sparseLA.cpp
index 179fa8d..e7545f7 100644
--- a/src/base/linalg/utils_sparseLA.cpp
+++ b/src/base/linalg/utils_sparseLA.cpp
@@ -964,7 +964,7 @@ template<int N, int M> INLINE double abssum_tm(Mat<N, M, double> const &x)
   return s;
 }
 
-INLINE double abssum_tm(double const &x) { return x; }
+INLINE double abssum_tm(double const &x) { return abs(x); }
 
 template<class TSPM>
 shared_ptr<TSPM>
-- 
2.43.0


From 268c58cf35152b42674a736aaa3a89b4396c32b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:44 +0000
Subject: [PATCH 16/53] fix: Block2SparseMatrix rejected every rectangular
 local block matrix (row/col dofs swapped)

---
 src/base/linalg/utils_sparseLA.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/base/linalg/utils_sparseLA.cpp b/src/base/linalg/utils_sparseLA.cpp
index e7545f7..9aad11e 100644
--- a/src/base/linalg/utils_sparseLA.cpp
+++ b/src/base/linalg/utils_sparseLA.cpp
@@ -768,8 +768,8 @@ Block2SparseMatrix (BlockMatrix &A)
   }
 
   return WrapParallelMatrix(singleSparseMat,
-                            UniversalDofs(fusedRowParDOFs, singleSparseMat->Height(), BH),
-                            UniversalDofs(fusedColParDOFs, singleSparseMat->Width(), BW),
+                            UniversalDofs(fusedRowParDOFs, singleSparseMat->Width(),  BW),
+                            UniversalDofs(fusedColParDOFs, singleSparseMat->Height(), BH),
                             blockOp);
 }
 
-- 
2.43.0


From 11c33f50852fee5daa06781edccbf92d560048b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:02 +0000
Subject: [PATCH 17/53] fix: direct inversion refuses the zero matrix instead
 of dividing by zero

---
 src/base/utils/utils_denseLA.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/base/utils/utils_denseLA.cpp b/src/base/utils/utils_denseLA.cpp
index 37e85dc..9e2966f 100644
--- a/src/base/utils/utils_denseLA.cpp
+++ b/src/base/utils/utils_denseLA.cpp
@@ -300,7 +300,7 @@ CPI_TN (FlatMatrix<TSCAL> A, LocalHeap &lh)
     // if ( (maxval < 1e-20*rest) || (rest < eps) )
       // { isok = false; break; }
 
-    if ( maxval < max( AbsZeroTol<TSCAL>() * rest, eps) )
+    if ( maxval <= max( AbsZeroTol<TSCAL>() * rest, eps) )
       { isok = false; break; }
 
     // exchange rows
@@ -498,7 +498,7 @@ TryDirectInverse_simple (FlatMatrix<TSCAL> A, LocalHeap & lh)
     // if ( (maxval < 1e-20*rest) || (rest < eps) )
       // { isok = false; break; }
 
-    if ( maxval < max( AbsZeroTol<TSCAL>() * rest, eps) )
+    if ( maxval <= max( AbsZeroTol<TSCAL>() * rest, eps) )
       { isok = false; break; }
 
     // exchange rows
-- 
2.43.0


From 58d6586eec900fecb4de59eec78bcff749cbfd1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:02 +0000
Subject: [PATCH 18/53] fix: Add_AT_B_A scales the matrix product by fac

---
 src/base/utils/utils_denseLA.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/base/utils/utils_denseLA.hpp b/src/base/utils/utils_denseLA.hpp
index abfd819..0938639 100644
--- a/src/base/utils/utils_denseLA.hpp
+++ b/src/base/utils/utils_denseLA.hpp
@@ -645,7 +645,7 @@ INLINE void Add_AT_B_A (double fac, Mat<N,N,double> & out, const Mat<N,N,double>
 {
   static Mat<N,N,double> X;
   X = B * A;
-  out += Trans(A) * X;
+  out += fac * Trans(A) * X;
 }
 
 INLINE void Add_AT_B_A (double fac, double & out, double A, double B)
-- 
2.43.0


From 1d4892b41cded76512ae3e15f97621a5516bb4dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:02 +0000
Subject: [PATCH 19/53] fix: scalar AddTripleProd adds to its output argument

---
 src/base/utils/utils_denseLA.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/base/utils/utils_denseLA.hpp b/src/base/utils/utils_denseLA.hpp
index 0938639..26d9ef7 100644
--- a/src/base/utils/utils_denseLA.hpp
+++ b/src/base/utils/utils_denseLA.hpp
@@ -626,7 +626,7 @@ INLINE void AddTripleProd (double fac, Mat<N,N,double> & out, const Mat<N,N,doub
   X = B * C;
   out += fac * A * X;
 }
-INLINE void AddTripleProd (double fac, double out, double A, double B, double C)
+INLINE void AddTripleProd (double fac, double & out, double A, double B, double C)
 { out += fac * A * B * C; }
 
 
-- 
2.43.0


From b43dc93e43c19b4644b5f14342e688af241ad1fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:02 +0000
Subject: [PATCH 20/53] fix: default tolerances of the block pseudo-inverse are
 1e-12, not 12-12

---
 src/base/utils/utils_denseLA.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/base/utils/utils_denseLA.hpp b/src/base/utils/utils_denseLA.hpp
index 26d9ef7..8336f3e 100644
--- a/src/base/utils/utils_denseLA.hpp
+++ b/src/base/utils/utils_denseLA.hpp
@@ -1061,7 +1061,7 @@ ToTM (FlatMatrix<double> A, Mat<N, N, double> &B)
 
 template<int N>
 INLINE void
-CalcPseudoInverseWithTol (FlatMatrix<Mat<N, N, double>> mat, LocalHeap & lh, double relTolR = 12-12, double relTolZ = 12-12)
+CalcPseudoInverseWithTol (FlatMatrix<Mat<N, N, double>> mat, LocalHeap & lh, double relTolR = 1e-12, double relTolZ = 1e-12)
 {
   auto const H = mat.Height();
   auto const W = mat.Width();
-- 
2.43.0


From b4dbb7662f48a9fa85a41af6e6e89b2bee84feea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:02 +0000
Subject: [PATCH 21/53] fix: SetIdentity and SetScalIdentity of a FlatMatrix
 clear the other entries

---
 src/base/utils/utils.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/base/utils/utils.hpp b/src/base/utils/utils.hpp
index eb26057..ae8c492 100644
--- a/src/base/utils/utils.hpp
+++ b/src/base/utils/utils.hpp
@@ -131,6 +131,7 @@ template<class TM>
 INLINE void
 SetIdentity (FlatMatrix<TM> mat)
 {
+  mat = 0;
   for (auto k : Range(mat.Height()))
     { SetIdentity(mat(k,k)); }
 } // SetIdentity
@@ -164,6 +165,7 @@ template<class TSCAL, class TM>
 INLINE void
 SetScalIdentity (TSCAL const &scal, FlatMatrix<TM> mat)
 {
+  mat = 0;
   for (auto k : Range(mat.Height()))
     { SetScalIdentity(scal, mat(k,k)); }
 } // SetScalIdentity
-- 
2.43.0


From 5124bb5dfb09717977f16edb2b4b161d4c54d4a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:02 +0000
Subject: [PATCH 22/53] fix: CheckForSSPD in single precision looks at the
 actual residual

---
 src/base/utils/utils_denseLA.cpp | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/src/base/utils/utils_denseLA.cpp b/src/base/utils/utils_denseLA.cpp
index 9e2966f..df01d8e 100644
--- a/src/base/utils/utils_denseLA.cpp
+++ b/src/base/utils/utils_denseLA.cpp
@@ -154,17 +154,12 @@ bool CheckForSSPD (FlatMatrix<TSCAL> A, LocalHeap &lh)
 
   // cout << " diff: " << endl << A2 << endl;
 
-  TSCAL diffnorm;
+  // max-norm; NOT with Xlange, the declared return type of slange_ is not the actual one
+  TSCAL diffnorm = 0;
 
-  char norm = 'm'; // max norm
-  if constexpr(is_same<double, TSCAL>::value)
-  {
-    diffnorm = dlange_(&norm, &n, &n, &A2(0,0), &n, NULL);
-  }
-  else
-  {
-    diffnorm = slange_(&norm, &n, &n, &A2(0,0), &n, NULL);
-  }
+  for (auto k : Range(n))
+    for (auto j : Range(n))
+      { diffnorm = max(diffnorm, abs(A2(k, j))); }
 
   // cout << " diffnorm: " << diffnorm << endl;
   // cout << " diffnorm rel: " << diffnorm/eps << endl;
-- 
2.43.0


From 632444a557d51a984af56340582f0162c967178c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:49 +0000
Subject: [PATCH 23/53] fix: MinGEV computes the eigenvalues of the projected
 matrix

---
 src/base/coarsening/agglomerator_utils.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/base/coarsening/agglomerator_utils.hpp b/src/base/coarsening/agglomerator_utils.hpp
index fd0dd73..246fec0 100644
--- a/src/base/coarsening/agglomerator_utils.hpp
+++ b/src/base/coarsening/agglomerator_utils.hpp
@@ -96,7 +96,7 @@ MinGEV (FlatMatrix<TSCAL>        E,
   PEP = evecsD.Rows(firstNZ, N) * EP;
 
   FlatVector<TSCAL> lamsPEP(numNZero, lh);
-  LapackEigenValuesSymmetricLH(lh, D, lamsPEP);
+  LapackEigenValuesSymmetricLH(lh, PEP, lamsPEP);
 
   return lamsPEP(0);
 } // MinGEV
-- 
2.43.0


From 5d2fbfb7d7df67afda6629a575cd3d632ad76713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:49 +0000
Subject: [PATCH 24/53] fix: AssembleAhatBlock transports the second row of an
 edge block with Qji

---
 src/base/coarsening/agglomerator_utils.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/base/coarsening/agglomerator_utils.hpp b/src/base/coarsening/agglomerator_utils.hpp
index 246fec0..2e6bd03 100644
--- a/src/base/coarsening/agglomerator_utils.hpp
+++ b/src/base/coarsening/agglomerator_utils.hpp
@@ -333,8 +333,8 @@ AssembleAhatBlock (AGG_DATA       const &aggData,
 
         TM Qj_E = Qji.GetQTM(1.0, E);
 
-        addTM(Ablock, off1, off0, -1.0, Qij.GetMQ(1.0, Qi_E));
-        addTM(Ablock, off1, off1,  1.0, Qji.GetMQ(1.0, Qi_E));
+        addTM(Ablock, off1, off0, -1.0, Qij.GetMQ(1.0, Qj_E));
+        addTM(Ablock, off1, off1,  1.0, Qji.GetMQ(1.0, Qj_E));
       }
       else
       {
-- 
2.43.0


From 15eb2c364a66626a623f814607c2d514ede87e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:49 +0000
Subject: [PATCH 25/53] fix: PairStabilityCheckWInv checks C^{-1} E C^{-1} -
 rho C^{-1}

---
 src/base/coarsening/agglomerator_utils.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/base/coarsening/agglomerator_utils.hpp b/src/base/coarsening/agglomerator_utils.hpp
index 2e6bd03..bc0b81b 100644
--- a/src/base/coarsening/agglomerator_utils.hpp
+++ b/src/base/coarsening/agglomerator_utils.hpp
@@ -557,7 +557,7 @@ PairStabilityCheckWInv (TWEIGHT    const &rho,
 
   FlatMatrix<T> M(N, N, lh);
 
-  M = E * CinvE - rho * E;
+  M = CinvE * Cinv - rho * Cinv;
 
   return CheckForSSPD(M, lh);
 } // PairStabilityCheckWInv
-- 
2.43.0


From 1eb76055ca29842ff9ed8bf32f7bad74fd6c8dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:36 +0000
Subject: [PATCH 26/53] fix: CalcRobustPairSOC(ViaInvs) give the N x Nsmall
 product its size

---
 src/base/coarsening/agglomerator_utils.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/base/coarsening/agglomerator_utils.hpp b/src/base/coarsening/agglomerator_utils.hpp
index bc0b81b..492f288 100644
--- a/src/base/coarsening/agglomerator_utils.hpp
+++ b/src/base/coarsening/agglomerator_utils.hpp
@@ -743,7 +743,7 @@ CalcRobustPairSOCViaInvs (TM         const &Ainv,
     evsC.Row(k) *= sqrtLam;
   }
 
-  FlatMatrix<TScal<TM>> ECinv(Nsmall, Nsmall, lh);
+  FlatMatrix<TScal<TM>> ECinv(N, Nsmall, lh);
   FlatMatrix<TScal<TM>> CinvECinv(Nsmall, Nsmall, lh);
 
   FlatMatrix<TScal<TM>> flatE(N, N, const_cast<TScal<TM>*>(&(E(0,0))));
@@ -816,7 +816,7 @@ CalcRobustPairSOC (TM         const &D,
     evsD.Row(k) *= sqrtILam;
   }
 
-  FlatMatrix<TScal<TM>> EDinv(Nsmall, Nsmall, lh);
+  FlatMatrix<TScal<TM>> EDinv(N, Nsmall, lh);
   FlatMatrix<TScal<TM>> DinvEDinv(Nsmall, Nsmall, lh);
 
   FlatMatrix<TScal<TM>> flatE(N, N, const_cast<TScal<TM>*>(&(E(0,0))));
-- 
2.43.0


From e114bcbc36b8886acbc5a78d04d2e9ba928d820a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:03 +0000
Subject: [PATCH 27/53] fix: BSmoother2 visits the requested groups in the
 requested direction

---
 src/base/smoothers/loc_block_gssmoother.cpp      | 4 ++--
 src/base/smoothers/loc_block_gssmoother_impl.hpp | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/base/smoothers/loc_block_gssmoother.cpp b/src/base/smoothers/loc_block_gssmoother.cpp
index 811939a..a59363b 100644
--- a/src/base/smoothers/loc_block_gssmoother.cpp
+++ b/src/base/smoothers/loc_block_gssmoother.cpp
@@ -239,9 +239,9 @@ namespace amg
   {
     RegionTimer rt(SG_thack());
     if (blocks_no)
-      { SmoothNO(groups, x, b, res, steps, res_updated, update_res, x_zero, true, symm); }
+      { SmoothNO(groups, x, b, res, steps, res_updated, update_res, x_zero, reverse, symm); }
     else
-      { SmoothWO(groups, x, b, res, steps, res_updated, update_res, x_zero, true, symm); }
+      { SmoothWO(groups, x, b, res, steps, res_updated, update_res, x_zero, reverse, symm); }
   } // BSmoother2<TM> :: SmoothGroups
 
 
diff --git a/src/base/smoothers/loc_block_gssmoother_impl.hpp b/src/base/smoothers/loc_block_gssmoother_impl.hpp
index 743f438..8f43381 100644
--- a/src/base/smoothers/loc_block_gssmoother_impl.hpp
+++ b/src/base/smoothers/loc_block_gssmoother_impl.hpp
@@ -626,7 +626,7 @@ namespace amg
     {
       if (reverse)
       {
-        int group_num = groups[sg-1]-k;
+        int group_num = groups[sg-1-k];
         int finext = fi_blocks[group_num+1], fifirst = fi_blocks[group_num];
 
         for (int block_num = finext-1; block_num > fifirst; block_num--)
-- 
2.43.0


From bb4aaf0e98e52afbf9c812415836ff81d6951141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:03 +0000
Subject: [PATCH 28/53] fix: BSmoother2 computes the residual with the matrix
 when blocks can overlap

---
 src/base/smoothers/loc_block_gssmoother.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/base/smoothers/loc_block_gssmoother.cpp b/src/base/smoothers/loc_block_gssmoother.cpp
index a59363b..37668f6 100644
--- a/src/base/smoothers/loc_block_gssmoother.cpp
+++ b/src/base/smoothers/loc_block_gssmoother.cpp
@@ -45,6 +45,9 @@ namespace amg
     // if (parallel)
     //   { throw Exception("New BS parallel TODO!!"); }
 
+    if (!blocks_no)
+      { sysmat = _spmat; }
+
     const auto & A(*_spmat);
     height = A.Height();
     maxbs = 0;
@@ -317,6 +320,9 @@ namespace amg
   template<class TM>
   shared_ptr<BaseMatrix> BSmoother2<TM> :: GetAMatrix () const
   {
+    // only non-overlapping blocks partition the rows of the matrix
+    if (!blocks_no)
+      { return sysmat; }
     return make_shared<BSmoother2SysMat<TM>>(const_pointer_cast<BSmoother2<TM>>(dynamic_pointer_cast<const BSmoother2<TM>>(shared_from_this())));
   } // BSmoother2::GetAMatrix
 
-- 
2.43.0


From 9622406fc6f5eee4e946d8df4437403261e278dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:03 +0000
Subject: [PATCH 29/53] fix: non-overlapping BSmoother2: zero-initial-guess
 sweeps and residual updates

---
 .../smoothers/loc_block_gssmoother_impl.hpp    | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/base/smoothers/loc_block_gssmoother_impl.hpp b/src/base/smoothers/loc_block_gssmoother_impl.hpp
index 8f43381..09886cd 100644
--- a/src/base/smoothers/loc_block_gssmoother_impl.hpp
+++ b/src/base/smoothers/loc_block_gssmoother_impl.hpp
@@ -326,7 +326,7 @@ namespace amg
     // res -= (D+L^T) x_new
     for (auto k : Range(dofnrs)) {
       for (auto l : Range(firsti[k], firsti[k+1]))
-	{ bigres(cols[l]) -= vals[l] * smallsol[k]; }
+	{ bigres(cols[l]) -= Trans(vals[l]) * smallsol[k]; }
     }
   } // BSBlock::RichardsonUpdate_FW_zig
 
@@ -371,10 +371,10 @@ namespace amg
     // so set res to 0, later blocks add -= U^T x_new
     for (auto dnr : dofnrs)
       { bigres(dnr) = 0.0; }
-    // res -= L x_new
+    // res -= U^T x_new
     for (auto k : Range(dofnrs)) {
-      for (auto l : Range(firsti[nds], firsti[nds+1]))
-	{ bigres(cols[l]) -= vals[l] * smallsol[k]; }
+      for (auto l : Range(firsti[nds+k], firsti[nds+k+1]))
+	{ bigres(cols[l]) -= Trans(vals[l]) * smallsol[k]; }
     }
   } // BSBlock::RichardsonUpdate_FW_zig
 
@@ -408,7 +408,7 @@ namespace amg
     // res -= L^T (x_new-x)
     for (auto k : Range(dofnrs)) {
       for (auto l : Range(firsti[k], firsti[k+1]))
-	{ bigres(cols[l]) -= vals[l] * smallsol[k]; }
+	{ bigres(cols[l]) -= Trans(vals[l]) * smallsol[k]; }
     }
   } // BSBlock::RichardsonUpdate_FW_zig
 
@@ -442,7 +442,7 @@ namespace amg
     // res -= U^T (x_new-x)
     for (auto k : Range(dofnrs)) {
       for (auto l : Range(firsti[nds+k], firsti[nds+k+1])) // <- firsti offset for U
-	{ bigres(cols[l]) -= vals[l] * smallsol[k]; }
+	{ bigres(cols[l]) -= Trans(vals[l]) * smallsol[k]; }
     }
   } // BSBlock::RichardsonUpdate_FW_zig
 
@@ -508,7 +508,7 @@ namespace amg
     // res -= U (x_new-x)
     for (auto k : Range(dofnrs))
       for (auto l : Range(firsti[nds+k], firsti[nds+k+1])) // <- firsti offset for U
-	{ bigres(cols[l]) -= vals[l] * smallsol[k]; }
+	{ bigres(cols[l]) -= Trans(vals[l]) * smallsol[k]; }
   } // BSBlock::RichardsonUpdate_FW_zig
 
 
@@ -763,9 +763,9 @@ namespace amg
 	  FlatVector<TV> hb = hymax.Range(0, n);
 	  if (zig) { // zero initial guess - save U/L part of residuum
 	    if (reverse)
-	      { blocks[block_nr].RichardsonUpdate_FW_zig(1.0, hx, fx, hb, fb); }
-	    else
 	      { blocks[block_nr].RichardsonUpdate_BW_zig(1.0, hx, fx, hb, fb); }
+	    else
+	      { blocks[block_nr].RichardsonUpdate_FW_zig(1.0, hx, fx, hb, fb); }
 	  }
 	  else
 	    { blocks[block_nr].RichardsonUpdate(1.0, hx, fx, hb, fb); }
-- 
2.43.0


From f78d740fa09102bf97a74212388c6f496aa8999f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:23 +0000
Subject: [PATCH 30/53] fix: DynBlockSmoother leaves empty rows alone when it
 updates the residual

---
 src/base/smoothers/dyn_block_smoother.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/base/smoothers/dyn_block_smoother.cpp b/src/base/smoothers/dyn_block_smoother.cpp
index 945e989..a76ffd1 100644
--- a/src/base/smoothers/dyn_block_smoother.cpp
+++ b/src/base/smoothers/dyn_block_smoother.cpp
@@ -312,6 +312,11 @@ updateBlockRes (unsigned          const &kBlock,
     _rowBuffer0(l) = res(scalRow);
   });
 
+  if (A.GetScalNZE(kBlock) == 0) // empty rows, there is no diagonal block
+  {
+    return;
+  }
+
   auto smallR  = _rowBuffer0.Range(0, nScalRows);
   auto smallUp = _rowBuffer1.Range(0, nScalRows);
 
-- 
2.43.0


From ce1bca5be5e94b83077d904749604bb642f88eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:23 +0000
Subject: [PATCH 31/53] fix: non-overlapping BSmoother2 starts residual-based
 sweeps from zero

---
 src/base/smoothers/loc_block_gssmoother_impl.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/base/smoothers/loc_block_gssmoother_impl.hpp b/src/base/smoothers/loc_block_gssmoother_impl.hpp
index 09886cd..cc19b41 100644
--- a/src/base/smoothers/loc_block_gssmoother_impl.hpp
+++ b/src/base/smoothers/loc_block_gssmoother_impl.hpp
@@ -716,6 +716,8 @@ namespace amg
     // cout << " SmoothNO " << res_updated << " " << update_res << " " << x_zero << " " << reverse << endl;
     if (res_updated)
     { // smooth with "res" as RHS and ZIG for update
+      *update = 0; // even with zero initial guess, blocks scale the old values by (1-omega) = 0
+
       if (update_res)
       { // writes res-A*update = b-Ax_new into "res" vector
         *myresb = res;
@@ -728,8 +730,6 @@ namespace amg
       }
       else
       { // do not calc updated residuum
-        *update = 0;
-
         if (symm)
           { Smooth_SYMM (groups, *update, res, *myresb, steps, true); } // use myresb as working vector
         else
-- 
2.43.0


From bc9145e744f9c50a49d6f239880e6314e8b971d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:36 +0000
Subject: [PATCH 32/53] fix: BSmoother leaves room on the heap for the
 pseudo-inverses of small blocks

---
 src/base/smoothers/block_gssmoother.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/base/smoothers/block_gssmoother.cpp b/src/base/smoothers/block_gssmoother.cpp
index 2b4f7ac..3399d53 100644
--- a/src/base/smoothers/block_gssmoother.cpp
+++ b/src/base/smoothers/block_gssmoother.cpp
@@ -72,7 +72,7 @@ BSmoother (shared_ptr<SparseMatrix<TM>> _spmat,
   ParallelJob([&] (const TaskInfo & ti)
   {
     constexpr int BS = ngbla::Height<TM>();
-    LocalHeap lh(3*sqr(sizeof(double)*maxbs*ngbla::Height<TM>()), "AAA", false);
+    LocalHeap lh(max(size_t(1024*1024), size_t(3*sqr(sizeof(double)*maxbs*ngbla::Height<TM>()))), "AAA", false);
     for (int block_nr : sl)
     {
       HeapReset hr(lh);
-- 
2.43.0


From a01d15a8d1998284270f58a3798ece4d6d55a426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:21 +0000
Subject: [PATCH 33/53] fix: MultiDofMapStep::CanConcatenate compares the
 number of maps before the maps

---
 src/base/coarsening/dof_map.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/base/coarsening/dof_map.cpp b/src/base/coarsening/dof_map.cpp
index 1f06873..fdf98af 100644
--- a/src/base/coarsening/dof_map.cpp
+++ b/src/base/coarsening/dof_map.cpp
@@ -1060,7 +1060,9 @@ MultiDofMapStep::
 CanConcatenate (shared_ptr<BaseDOFMapStep> other)
 {
   if (auto mdms = dynamic_pointer_cast<MultiDofMapStep>(other)) {
-    bool cc = mdms->GetNMaps() == GetNMaps();
+    if (mdms->GetNMaps() != GetNMaps())
+      { return false; }
+    bool cc = true;
     for (auto k : Range(maps))
       { cc &= GetMap(k)->CanConcatenate(mdms->GetMap(k)); }
     return cc;
-- 
2.43.0


From b3697bd67a55a1b546fd90ab539470d225e3c48f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:21 +0000
Subject: [PATCH 34/53] fix: EmbeddedAMGMatrix without a finest level smoother
 applies the selected cycle

---
 src/base/solve/amg_matrix.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/base/solve/amg_matrix.cpp b/src/base/solve/amg_matrix.cpp
index dd6a353..e1417f0 100644
--- a/src/base/solve/amg_matrix.cpp
+++ b/src/base/solve/amg_matrix.cpp
@@ -624,7 +624,7 @@ namespace amg
     }
     else { /** **/
       ds->TransferF2C(&b, cr.get());
-      clm->SmoothV(*cx, *cr);
+      clm->Smooth(*cx, *cr);
       ds->TransferC2F(&x, cx.get());
     }
 
-- 
2.43.0


From d6bc51ef1eac19e288837ec43ef9154a8c55bb5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:21 +0000
Subject: [PATCH 35/53] fix: GetBF rejects the first invalid rank, component
 and DOF, on every rank

---
 src/base/solve/amg_matrix.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/base/solve/amg_matrix.cpp b/src/base/solve/amg_matrix.cpp
index e1417f0..d94bf90 100644
--- a/src/base/solve/amg_matrix.cpp
+++ b/src/base/solve/amg_matrix.cpp
@@ -453,16 +453,16 @@ namespace amg
 
     { // Check if input is OK
       int input_notok = 0;
-      if ( (arank < 0) || (arank > gcomm.Size()) )
+      if ( (arank < 0) || (arank >= gcomm.Size()) )
       	{ input_notok = 1; }
-      if ( have_lev && (comp > lev_bs) )
+      if ( have_lev && (comp < 0 || comp >= lev_bs) )
 	      { input_notok = 2; }
       if ( (gcomm.Rank() == arank) && (!have_lev) ) // e.g contracted out
 	      { input_notok = 3; }
       if (have_lev) {
-        if ( (gcomm.Rank() == arank) && (gcomm.Rank() > 0) && (dof > lev_uDofs.GetND()) )
+        if ( (gcomm.Rank() == arank) && (gcomm.Rank() > 0) && (dof >= lev_uDofs.GetND()) )
           { input_notok = 4; }
-        if ( (arank == 0) && (dof > lev_uDofs.GetNDGlob()) )
+        if ( (arank == 0) && (dof >= lev_uDofs.GetNDGlob()) )
           { input_notok = 5; }
       }
       input_notok = gcomm.AllReduce(input_notok, NG_MPI_MAX);
@@ -477,8 +477,8 @@ namespace amg
           case(5) : { cerr << "global DOFs on level " << level << " < " << dof << endl; break; }
           default : { break; }
           }
-          return;
         }
+        return;
       }
     }
 
-- 
2.43.0


From 3a3b4ddd5af59454373b64a353d2ceae5a5bd57c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:46 +0000
Subject: [PATCH 36/53] fix: AMGSmoother with a single smoothing step works on
 the second coarsest level

---
 src/base/solve/amg_matrix.cpp | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/src/base/solve/amg_matrix.cpp b/src/base/solve/amg_matrix.cpp
index d94bf90..600412b 100644
--- a/src/base/solve/amg_matrix.cpp
+++ b/src/base/solve/amg_matrix.cpp
@@ -313,6 +313,17 @@ namespace amg
     static Timer t ("SmoothFromLevel");
     RegionTimer rt(t);
 
+    if (startlevel + 1 >= n_levels) { /** no smoother on the coarsest level, only the (exact) solve **/
+      if (!drops_out) {
+        if (has_crs_inv && (crs_inv != nullptr))
+          { crs_inv->Mult(b, x); }
+        else
+          { x.FVDouble() = 0; }
+        x.Cumulate();
+      }
+      return;
+    }
+
     // cout << "SVL " << startlevel << " of " << n_levels << endl;
     // cout << " x b r s " << x.Size() << " " << b.Size() << " " << res.Size() << endl;
 
@@ -706,7 +717,8 @@ Smooth (BaseVector  &x, const BaseVector &b,
 
     auto const &map = *amg_mat->GetMap();
 
-    bool const haveNextLevel = map.GetNLevels() > start_level;
+    /** the next level is empty if this proc drops out **/
+    bool const haveNextLevel = amg_mat->x_level[start_level + 1] != nullptr;
 
     if (haveNextLevel)
     {
@@ -717,10 +729,7 @@ Smooth (BaseVector  &x, const BaseVector &b,
       map.TransferAtoB(start_level, start_level + 1, &res, bC.get());
       *xC = 0.0;
 
-      if (map.GetNLevels() > start_level)
-      {
-        amg_mat->SmoothVFromLevel(start_level + 1, *xC, *bC, *resC, false, false, true);
-      }
+      amg_mat->SmoothVFromLevel(start_level + 1, *xC, *bC, *resC, false, false, true);
 
       map.AddC2F(start_level, 1.0, &x, xC.get());
     }
@@ -750,7 +759,8 @@ SmoothBack (BaseVector  &x, const BaseVector &b,
   {
     auto const &map = *amg_mat->GetMap();
 
-    bool const haveNextLevel = map.GetNLevels() > start_level;
+    /** the next level is empty if this proc drops out **/
+    bool const haveNextLevel = amg_mat->x_level[start_level + 1] != nullptr;
 
     amg_mat->GetSmoother(start_level)->SmoothBack(x, b, res, res_updated, true, x_zero);
 
@@ -763,10 +773,7 @@ SmoothBack (BaseVector  &x, const BaseVector &b,
       map.TransferAtoB(start_level, start_level + 1, &res, bC.get());
       *xC = 0.0;
 
-      if (map.GetNLevels() > start_level)
-      {
-        amg_mat->SmoothVFromLevel(start_level + 1, *xC, *bC, *resC, false, false, true);
-      }
+      amg_mat->SmoothVFromLevel(start_level + 1, *xC, *bC, *resC, false, false, true);
 
       map.AddC2F(start_level, 1.0, &x, xC.get());
     }
-- 
2.43.0


From 5fb9ac2b6f2c8d1dfc006ae24b2111344d56b233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:47 +0000
Subject: [PATCH 37/53] fix: sends of sparse matrices and tables keep their
 buffers until the receiver has the data

---
 src/base/distributed/mpiwrap_extension.hpp | 25 ++++++++++++++++------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/base/distributed/mpiwrap_extension.hpp b/src/base/distributed/mpiwrap_extension.hpp
index cf87fa6..27879be 100644
--- a/src/base/distributed/mpiwrap_extension.hpp
+++ b/src/base/distributed/mpiwrap_extension.hpp
@@ -1,6 +1,8 @@
 #ifndef FILE_MPIWRAP_EXTENSION
 #define FILE_MPIWRAP_EXTENSION
 
+#include <list>
+
 #include <base.hpp>
 
 namespace amg
@@ -125,10 +127,11 @@ Bcast(tab.AsArray(), root);
 
 private:
   INLINE Timer<TTracing, TTiming>& thack_isend_spm () const { static Timer t("ISend SPM"); return t; }
-  mutable Array<size_t> hacky_w_buffer;
+  // list: the entries must not move, sends from them are pending
+  mutable std::list<size_t> hacky_w_buffer;
 public:
   void cleanup_hacky_w_buffer ()
-  { hacky_w_buffer = Array<size_t>(0); }
+  { hacky_w_buffer.clear(); }
   template<typename T, typename T2 = decltype(GetMPIType<T>())>
   NG_MPI_Request ISend (const ngla::SparseMatrixTM<T> & spm, int dest, int tag) const {
 #ifdef PARALLEL
@@ -137,8 +140,8 @@ public:
     RegionTimer rt(thack_isend_spm());
     size_t H = spm.Height(); // size_t W = spm.Width();
     // if (H != W) throw Exception("cant rly deal with H!=W ISend"); // need to send W, need temporary mem
-    hacky_w_buffer.Append(spm.Width());
-    auto& W = hacky_w_buffer.Last();
+    hacky_w_buffer.push_back(spm.Width());
+    auto& W = hacky_w_buffer.back();
     NG_MPI_Request req = ISend (W, dest, tag);
     NG_MPI_Request_free(&req);
     req = ISend (spm.GetFirstArray(), dest, tag);
@@ -168,8 +171,15 @@ public:
     if (!valid_comm)
       { return; }
     RegionTimer rt(thack_send_spm());
-    NG_MPI_Request req = ISend(spm, dest, tag); // well this is just lazy ...
-    NG_MPI_Wait(&req, NG_MPI_STATUS_IGNORE);
+    // completion of the last of several non-blocking sends does not complete the others
+    size_t H = spm.Height(), W = spm.Width();
+    Send(W, dest, tag);
+    Send(spm.GetFirstArray(), dest, tag);
+    if ( (H > 0) && (W > 0) ) {
+size_t nzes = spm.GetFirstArray().Last();
+Send(FlatArray<int>(nzes, spm.GetRowIndices(0).Data()), dest, tag);
+Send(FlatArray<T>(nzes, spm.GetRowValues(0).Data()), dest, tag);
+    }
 #endif
   }
 
@@ -228,7 +238,8 @@ public:
     if (!valid_comm)
       { return NG_MPI_REQUEST_NULL; }
     NG_MPI_Request req;
-    size_t size = tab.Size();
+    hacky_w_buffer.push_back(tab.Size()); // has to outlive this call
+    auto & size = hacky_w_buffer.back();
     req = ISend(size, dest, tag);
     if (!size) return req;
     NG_MPI_Request_free(&req);
-- 
2.43.0


From 07869ecbd75cb505ac931d305c316f6bb58d1d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:47 +0000
Subject: [PATCH 38/53] fix: EQCHierarchy: all ranks agree on whether rank 0 is
 idle

---
 src/base/distributed/eqchierarchy.cpp | 17 ++++-------------
 1 file changed, 4 insertions(+), 13 deletions(-)

diff --git a/src/base/distributed/eqchierarchy.cpp b/src/base/distributed/eqchierarchy.cpp
index 2039a00..4724096 100644
--- a/src/base/distributed/eqchierarchy.cpp
+++ b/src/base/distributed/eqchierarchy.cpp
@@ -324,21 +324,12 @@ EQCHierarchy :: EQCHierarchy ()
     // comm.Barrier();
     // cout << " ok, now all done w. the usual part " << endl;
 
-    _isRankZeroIdle = false;
+    // rank 0 is idle if it has no neighbours, all ranks have to agree on that
+    int numOnRankZero = (comm.Rank() == 0) ? all_dist_procs.Size() : 0;
 
-    if (comm.Size())
-    {
-      int numOnRankZero = 0;
-
-      if (comm.Rank() == 0)
-      {
-        numOnRankZero = GetNEQCS();
-      }
-
-      comm.Scatter(numOnRankZero);
+    comm.NgMPI_Comm::Bcast(numOnRankZero);
 
-      _isRankZeroIdle = numOnRankZero == 0;
-    }
+    _isRankZeroIdle = ( comm.Size() > 1 ) && ( numOnRankZero == 0 );
 
     _isTrulyParallel = ( comm.Size() > ( _isRankZeroIdle ? 2 : 1 ) );
   } // EQCHierarchy(alldps, ...)
-- 
2.43.0


From 8ebb350ed295f02a6e4fc705c4b00a86d1961422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:47 +0000
Subject: [PATCH 39/53] fix: ScatterEqcData into given memory keeps the rows of
 the master

---
 src/base/distributed/reducetable.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/base/distributed/reducetable.hpp b/src/base/distributed/reducetable.hpp
index 6ed5ac3..ac24103 100644
--- a/src/base/distributed/reducetable.hpp
+++ b/src/base/distributed/reducetable.hpp
@@ -707,12 +707,17 @@ namespace amg
     }
     else {
       table_out = std::move(table);
+      count_blocks = 0;
+      for ( auto eqc : Range(neqcs))
+	if (!eqc_h.IsMasterOfEQC(eqc))
+	  { count_blocks[find_in_sorted_array(eqc_h.GetDistantProcs(eqc)[0], ex_procs)]++; }
     }
 
     nblocks = count_blocks; perow = 0; count_blocks = 0;
     for ( auto eqc : Range(neqcs)) {
-      if (eqc_h.IsMasterOfEQC(eqc) && (has_mem == false) ) {
-	table_out[eqc] = table[eqc]; // data copy
+      if (eqc_h.IsMasterOfEQC(eqc)) { // with has_mem, the data is in place already
+	if (has_mem == false)
+	  { table_out[eqc] = table[eqc]; } // data copy
       }
       else {
 	auto eq_dps = eqc_h.GetDistantProcs(eqc);
-- 
2.43.0


From 0497800234e1c04fd08a880daa7a58b360572f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:36 +0000
Subject: [PATCH 40/53] fix: MIS agglomerator does not build an agglomerate
 around a Dirichlet vertex that has a hanging neighbour

---
 src/base/coarsening/mis_agg_impl.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/base/coarsening/mis_agg_impl.hpp b/src/base/coarsening/mis_agg_impl.hpp
index 5df1e3c..f0b0a7d 100644
--- a/src/base/coarsening/mis_agg_impl.hpp
+++ b/src/base/coarsening/mis_agg_impl.hpp
@@ -758,7 +758,8 @@ INLINE void MISAgglomerator<ENERGY, TMESH, ROBUST> :: FormAgglomerates_impl (Arr
         } else { // neib is not in an agg - force start a new one at neib and add this vertex (which must be OK!)
           auto N_eqc = M.template GetEQCOfNode<NT_VERTEX>(N);
           // if ( (eqc_h.IsMasterOfEQC(N_eqc)) && (eqa_to_eqb(eqc, N_eqc) ) ) { // only if it is OK eqc-wise
-          if ( is_mine(N) && eqa_to_eqb(eqc, N_eqc) ) { // have to check if neib is active!
+          // have to check if neib is active! (marked without an agg means a Dirichlet vertex or one in a fixed agg)
+          if ( is_mine(N) && (!marked.Test(N)) && eqa_to_eqb(eqc, N_eqc) ) {
             init_agglomerate(N, N_eqc, true); // have to force new agg even if we dont really want to ...
             auto new_agg_id = v_to_agg[N];
             if (!marked.Test(v)) { // might already have been added by init_agg, but probably not
-- 
2.43.0


From 2a2fe88cb1a993d487d972ad09e8e38b0da27087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:38 +0000
Subject: [PATCH 41/53] fix: MIS agglomerator respects the allowed edges for
 hanging vertices too

---
 src/base/coarsening/mis_agg_impl.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/base/coarsening/mis_agg_impl.hpp b/src/base/coarsening/mis_agg_impl.hpp
index f0b0a7d..5a6af43 100644
--- a/src/base/coarsening/mis_agg_impl.hpp
+++ b/src/base/coarsening/mis_agg_impl.hpp
@@ -759,7 +759,8 @@ INLINE void MISAgglomerator<ENERGY, TMESH, ROBUST> :: FormAgglomerates_impl (Arr
           auto N_eqc = M.template GetEQCOfNode<NT_VERTEX>(N);
           // if ( (eqc_h.IsMasterOfEQC(N_eqc)) && (eqa_to_eqb(eqc, N_eqc) ) ) { // only if it is OK eqc-wise
           // have to check if neib is active! (marked without an agg means a Dirichlet vertex or one in a fixed agg)
-          if ( is_mine(N) && (!marked.Test(N)) && eqa_to_eqb(eqc, N_eqc) ) {
+          bool edge_ok = (!allowed_edges) || allowed_edges->Test(int(econ.GetRowValues(v)[0]));
+          if ( edge_ok && is_mine(N) && (!marked.Test(N)) && eqa_to_eqb(eqc, N_eqc) ) {
             init_agglomerate(N, N_eqc, true); // have to force new agg even if we dont really want to ...
             auto new_agg_id = v_to_agg[N];
             if (!marked.Test(v)) { // might already have been added by init_agg, but probably not
-- 
2.43.0


From 9e79245869cffcaf73ea20853514eaa67a1f36e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:46 +0000
Subject: [PATCH 42/53] fix: successive pairwise agglomerator sets up
 vertex->EQC info on ranks that share no vertices

---
 src/base/coarsening/spw_agg_impl.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/base/coarsening/spw_agg_impl.hpp b/src/base/coarsening/spw_agg_impl.hpp
index 5ead0f1..84100ee 100644
--- a/src/base/coarsening/spw_agg_impl.hpp
+++ b/src/base/coarsening/spw_agg_impl.hpp
@@ -72,12 +72,13 @@ public:
       // we are the first map - construct cv_to_eqc. for other maps, concatenate it!
       auto vMap = GetMap<NT_VERTEX>();
 
-      if ( eqc_h->GetNEQCS() > 1 )
+      if ( eqc_h->IsTrulyParallel() )
       {
         cv_to_eqc.SetSize(GetMappedNN<NT_VERTEX>());
         cv_to_eqc = 0;
 
         // works as long as we only go up/down in hierarchy
+        if ( eqc_h->GetNEQCS() > 1 ) // might only have local vertices
         pbtm->template ApplyEQ<NT_VERTEX>(Range(1ul, eqc_h->GetNEQCS()), [&](auto eqc, auto fVNr)
         {
           auto cVNr = vMap[fVNr];
-- 
2.43.0


From ae6509b169eac247ed1f25cf1937acf95dcbfaa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:26 +0000
Subject: [PATCH 43/53] fix: successive pairwise agglomerator with solid
 vertices does not run past the EQCs of an idle rank

---
 src/base/coarsening/spw_agg_impl.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/base/coarsening/spw_agg_impl.hpp b/src/base/coarsening/spw_agg_impl.hpp
index 84100ee..bee42a3 100644
--- a/src/base/coarsening/spw_agg_impl.hpp
+++ b/src/base/coarsening/spw_agg_impl.hpp
@@ -1517,6 +1517,7 @@ FormAgglomerates_impl (Array<Agglomerate> &agglomerates,
       {
         // eliminate ghost-verts from intermediate levels - do not need to
         // take solid/ghost into account after base level !
+        if ( eqc_h.GetNEQCS() > 1 ) // no EQCs at all on an idle rank
         FM.template ApplyEQ2<NT_VERTEX>(Range(1ul, eqc_h.GetNEQCS()),
           [&](auto eq, auto vs)
         {
-- 
2.43.0


From c7d2bb27114c26eec880030d6a56494d91dbe27f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:38 +0000
Subject: [PATCH 44/53] fix: successive pairwise agglomerator respects the
 allowed edges

---
 src/base/coarsening/spw_agg_impl.hpp | 42 ++++++++++++++++++++++------
 1 file changed, 33 insertions(+), 9 deletions(-)

diff --git a/src/base/coarsening/spw_agg_impl.hpp b/src/base/coarsening/spw_agg_impl.hpp
index bee42a3..374126a 100644
--- a/src/base/coarsening/spw_agg_impl.hpp
+++ b/src/base/coarsening/spw_agg_impl.hpp
@@ -784,11 +784,18 @@ FindNeighborToMatch (int        const &vi,
                      SPWConfig  const &cfg,
                      TALLOW            allowedNeighbor,
                      TGET_AGG          getFullAgg,
-                     LocalHeap        &lh)
+                     LocalHeap        &lh,
+                     BitArray   const *allowedEdges)
 {
   auto neibs    = aggData.GetEdgeCM().GetRowIndices(vi);
   auto edgeNums = aggData.GetEdgeCM().GetRowValues(vi);
 
+  auto allowedEdgeAndNeighbor = [&](auto v, auto neib)
+  {
+    return ( (!allowedEdges) || allowedEdges->Test(int(aggData.GetEdgeCM()(v, neib))) ) &&
+           allowedNeighbor(v, neib);
+  };
+
   auto calcScalSOC = [&](auto idxN) -> TWEIGHT
   {
     // cout << " Approx SOC for neib " << idxN << "=" << neibs[idxN] << endl;
@@ -863,7 +870,7 @@ FindNeighborToMatch (int        const &vi,
                         calcRobSOC,
                         checkRobSOC,
                         checkBigSOC,
-                        allowedNeighbor,
+                        allowedEdgeAndNeighbor,
                         lh);
 } // FindNeighborToMatch
 
@@ -874,11 +881,18 @@ FindNeighborToJoin (int       const &vi,
                     AGG_DATA  const &aggData,
                     SPWConfig const &cfg,
                     TALLOW           allowedNeighbor,
-                    LocalHeap       &lh)
+                    LocalHeap       &lh,
+                    BitArray  const *allowedEdges)
 {
   auto neibs    = aggData.GetEdgeCM().GetRowIndices(vi);
   auto edgeNums = aggData.GetEdgeCM().GetRowValues(vi);
 
+  auto allowedEdgeAndNeighbor = [&](auto v, auto neib)
+  {
+    return ( (!allowedEdges) || allowedEdges->Test(int(aggData.GetEdgeCM()(v, neib))) ) &&
+           allowedNeighbor(v, neib);
+  };
+
   auto calcScalSOC = [&](auto idxN) -> TWEIGHT
   {
     return CalcApproxJoinSOC<ENERGY>(aggData.GetVData(vi),
@@ -936,7 +950,7 @@ FindNeighborToJoin (int       const &vi,
                         calcRobSOC,
                         checkRobSOC,
                         checkBigSOC,
-                        allowedNeighbor,
+                        allowedEdgeAndNeighbor,
                         lh);
 } // FindNeighborToJoin
 
@@ -1081,6 +1095,7 @@ PairingIteration (TMESH           const &FM,
                   FlatArray<int>         v2eq,
                   BitArray              &handled,
                   shared_ptr<BitArray>   solidVerts,
+                  shared_ptr<BitArray>   allowedEdges,
                   LocalHeap             &lh,
                   int tag = 0,
                   int                   cvOff = 0)
@@ -1195,7 +1210,8 @@ PairingIteration (TMESH           const &FM,
                   }
                 },
                 getFullAgg,
-                lh
+                lh,
+                allowedEdges.get()
               );
       });
     }
@@ -1233,7 +1249,8 @@ PairingIteration (TMESH           const &FM,
                     }
                   },
                   getFullAgg,
-                  lh);
+                  lh,
+                  allowedEdges.get());
       });
     }
   }
@@ -1250,7 +1267,8 @@ PairingIteration (TMESH           const &FM,
                 cfg,
                 [&](auto v, auto neib) { return !handled.Test(neib); },
                 getFullAgg,
-                lh);
+                lh,
+                allowedEdges.get());
     });
   }
 
@@ -1270,6 +1288,7 @@ JoiningIteration (AGG_DATA       const &aggData,
                   FlatArray<int>        vmap,
                   FlatArray<int>        v2eq,
                   BitArray              &isAggregated,
+                  shared_ptr<BitArray>   allowedEdges,
                   LocalHeap             &lh)
 {
   auto const &FM    = aggData.GetMesh();
@@ -1343,7 +1362,8 @@ JoiningIteration (AGG_DATA       const &aggData,
                 return eqc_h.IsMasterOfEQC(eqNeib) &&
                        ( eqc_h.IsLEQ(eqV, eqNeib) || eqc_h.IsLEQ(eqNeib, eqV) );
               },
-              lh);
+              lh,
+              allowedEdges.get());
     });
   }
   else
@@ -1354,7 +1374,8 @@ JoiningIteration (AGG_DATA       const &aggData,
                                         aggData,
                                         cfg,
                                         [&](auto v, auto neib) { return isJoinable.Test(neib) && std::integral_constant<bool, true>(); },
-                                        lh);
+                                        lh,
+                                        allowedEdges.get());
     });
   }
 
@@ -1629,6 +1650,7 @@ FormAgglomerates_impl (Array<Agglomerate> &agglomerates,
           FlatArray<int>(0, nullptr), // v -> eqc map
           handled,
           this->GetSolidVerts(),
+          locMap->GetAllowedFEdges(),
           lh, 0);
 
     if ( cfg.printSumms )
@@ -1693,6 +1715,7 @@ FormAgglomerates_impl (Array<Agglomerate> &agglomerates,
             v2eq,
             handled,
             this->GetSolidVerts(),
+            locMap->GetAllowedFEdges(),
             lh,
             round);
 
@@ -1748,6 +1771,7 @@ FormAgglomerates_impl (Array<Agglomerate> &agglomerates,
                                      vmap,
                                      v2eq,
                                      isAggregated,
+                                     locMap->GetAllowedFEdges(),
                                      lh);
 
         if ( cfg.printSumms )
-- 
2.43.0


From 83142b2eb2ff014c032461b8cb6415a722a118b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:55 +0000
Subject: [PATCH 45/53] fix: weights of coarse elasticity vertices count every
 member once, moved from the right position

---
 src/elasticity/elasticity_impl.hpp | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/elasticity/elasticity_impl.hpp b/src/elasticity/elasticity_impl.hpp
index 8b01407..bd0fd67 100644
--- a/src/elasticity/elasticity_impl.hpp
+++ b/src/elasticity/elasticity_impl.hpp
@@ -117,7 +117,6 @@ INLINE void AttachedEVD<DIM> :: map_data (const AgglomerateCoarseMap<TMESH> & cm
   auto vmap = cmap.template GetMap<NT_VERTEX>();
   const auto & M = *mesh;
   const auto & CM = static_cast<BlockTM&>(*cmap.GetMappedMesh()); // okay, kinda hacky, the coarse mesh already exists, but only as BlockTM i think
-  const auto & ctrs = *cmap.GetAggCenter();
   typename ElasticityAMGFactory<DIM>::ENERGY::TM Q;
   
   auto aggs = cmap.template GetMapC2F<NT_VERTEX>();
@@ -151,7 +150,6 @@ INLINE void AttachedEVD<DIM> :: map_data (const AgglomerateCoarseMap<TMESH> & cm
         auto fV  = agg[0];
 
         cdata[cV].pos         = data[fV].pos;
-        cdata[cV].wt          = data[fV].wt;
         cdata[cV].rot_scaling = data[fV].rot_scaling;
       }
       else
@@ -174,17 +172,34 @@ INLINE void AttachedEVD<DIM> :: map_data (const AgglomerateCoarseMap<TMESH> & cm
   //   }
   // }, true);
 
+  /** the positions are needed on all ranks to move the l2 weights there **/
+  cevd.SetParallelStatus(DISTRIBUTED);
+  cevd.Cumulate();
+
   M.template ApplyEQ<NT_VERTEX> ([&](auto eqc, auto v) LAMBDA_INLINE
   {
-    /** add l2 weights for non ctrs - I already need crs pos here **/
+    /** add l2 weights - I already need crs pos here **/
     auto cv = vmap[v];
-    if ( ( cv != -1 ) && ( !ctrs.Test(v) ) )
+    if ( cv != -1 )
     {
       ElasticityAMGFactory<DIM>::ENERGY::CalcQHh(cdata[cv], data[v], Q);
       ElasticityAMGFactory<DIM>::ENERGY::AddQtMQ(1.0, cdata[cv].wt, Q, data[v].wt);
     }
   }, true);
 
+  /** back to DISTRIBUTED - only the master keeps the position **/
+  CM.template ApplyEQ2<NT_VERTEX> ( [&](auto eqc, auto cVerts) LAMBDA_INLINE
+  {
+    if (!eqc_h.IsMasterOfEQC(eqc))
+    {
+      for (auto cV : cVerts)
+      {
+        cdata[cV].pos         = 0.0;
+        cdata[cV].rot_scaling = 0.0;
+      }
+    }
+  }, false);
+
   cevd.SetParallelStatus(DISTRIBUTED);
 } // AttachedEVD::map_data
 
-- 
2.43.0


From 15b8919e1d357614a68f3cf1303836835f4dd6d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:28 +0000
Subject: [PATCH 46/53] fix: ground connections of elasticity meshes are moved
 to the coarse vertex

---
 src/elasticity/elasticity_impl.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/elasticity/elasticity_impl.hpp b/src/elasticity/elasticity_impl.hpp
index bd0fd67..56049d1 100644
--- a/src/elasticity/elasticity_impl.hpp
+++ b/src/elasticity/elasticity_impl.hpp
@@ -65,7 +65,8 @@ void AttachedEED<DIM> :: map_data (const BaseCoarseMap & cmap, AttachedEED<DIM>
       if (cvs[0] != cvs[1]) { // max. and min. one is -1
         int l = (cvs[0] == -1) ? 1 : 0;
         int cvnr = v_map[fedge.v[l]];
-        ElasticityAMGFactory<DIM>::ENERGY::CalcQij(fvd[fedge.v[l]], fvd[fedge.v[1-l]], QHh); // from [l] to [1-l] should be correct
+        auto fmid = ElasticityAMGFactory<DIM>::ENERGY::CalcMPData(fvd[fedge.v[l]], fvd[fedge.v[1-l]]);
+        ElasticityAMGFactory<DIM>::ENERGY::CalcQHh(cvd[cvnr], fmid, QHh); // the edge energy is given at the midpoint
         ElasticityAMGFactory<DIM>::ENERGY::AddQtMQ(1.0, add_cvw[cvnr], QHh, fed[fedge.id]);
       }
     }
-- 
2.43.0


From 735c9a4bc63ad8ddab6c8e127da36cb97dd7ccfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:56 +0000
Subject: [PATCH 47/53] fix: concentrating a cumulated vector does not add what
 an earlier exchange left in the buffers

---
 src/base/linalg/dcc_map.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/base/linalg/dcc_map.cpp b/src/base/linalg/dcc_map.cpp
index bb46e3a..6bd76a1 100644
--- a/src/base/linalg/dcc_map.cpp
+++ b/src/base/linalg/dcc_map.cpp
@@ -84,8 +84,8 @@ StartDIS2CO (BaseVector & vec) const
   // tauNTC("");
 #endif
   BufferG(vec);
-  if (vec.GetParallelStatus() != DISTRIBUTED) // just nulling-out entries is enough
-    { vec.SetParallelStatus(DISTRIBUTED); return; }
+  if (vec.GetParallelStatus() != DISTRIBUTED) // just nulling-out entries is enough, status is set in ApplyDIS2CO
+    { return; }
   auto ex_dofs = pardofs->GetDistantProcs();
   auto comm = pardofs->GetCommunicator();
   if (g_send.Size())
-- 
2.43.0


From 9b4625aaae764518da6315c985d16f5c54406255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:10 +0000
Subject: [PATCH 48/53] fix: number of local steps, overlap and thread of the
 hybrid Gauss-Seidel smoother are those asked for

---
 src/base/smoothers/gssmoother.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/base/smoothers/gssmoother.cpp b/src/base/smoothers/gssmoother.cpp
index 53b93c0..6cbc9cc 100644
--- a/src/base/smoothers/gssmoother.cpp
+++ b/src/base/smoothers/gssmoother.cpp
@@ -609,7 +609,7 @@ HybridGSSmoother (shared_ptr<BaseMatrix> _A,
                   bool _in_thread,
                   bool _symm_loc,
                   int _nsteps_loc)
-  : HybridSmoother<TM>(_A, _overlap, _in_thread, _nsteps_loc)
+  : HybridSmoother<TM>(_A, _nsteps_loc, _in_thread, _overlap)
   , subset(_subset)
   , pinv(_pinv)
   , symm_loc(_symm_loc)
-- 
2.43.0


From 68cf6fe262ec31e38d23b655dbce70a07aeb2834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:28:53 +0000
Subject: [PATCH 49/53] fix: diagonal blocks sent to the masters are kept until
 every part of the message is sent

---
 src/base/distributed/mpiwrap_extension.hpp | 20 ++++++++++++++++++++
 src/base/linalg/hybrid_matrix.cpp          |  4 ++--
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/base/distributed/mpiwrap_extension.hpp b/src/base/distributed/mpiwrap_extension.hpp
index 27879be..ee46f86 100644
--- a/src/base/distributed/mpiwrap_extension.hpp
+++ b/src/base/distributed/mpiwrap_extension.hpp
@@ -162,6 +162,26 @@ req = ISend (vals, dest, tag);
 #endif
   }
 
+  // appends the requests of all parts of the message, the matrix can be deleted only when all of them are complete
+  template<typename T, typename T2 = decltype(GetMPIType<T>())>
+  void ISend (const ngla::SparseMatrixTM<T> & spm, int dest, int tag, Array<NG_MPI_Request> & reqs) const {
+#ifdef PARALLEL
+    if (!valid_comm)
+      { return; }
+    RegionTimer rt(thack_isend_spm());
+    size_t H = spm.Height();
+    hacky_w_buffer.push_back(spm.Width());
+    auto& W = hacky_w_buffer.back();
+    reqs.Append(ISend(W, dest, tag));
+    reqs.Append(ISend(spm.GetFirstArray(), dest, tag));
+    if ( (H > 0) && (W > 0) ) {
+      size_t nzes = spm.GetFirstArray().Last();
+      reqs.Append(ISend(FlatArray<int>(nzes, spm.GetRowIndices(0).Data()), dest, tag));
+      reqs.Append(ISend(FlatArray<T>(nzes, spm.GetRowValues(0).Data()), dest, tag));
+    }
+#endif
+  }
+
 private:
   INLINE Timer<TTracing, TTiming>& thack_send_spm () const { static Timer t("Send SPM"); return t; }
 public:
diff --git a/src/base/linalg/hybrid_matrix.cpp b/src/base/linalg/hybrid_matrix.cpp
index 692f923..dd45584 100644
--- a/src/base/linalg/hybrid_matrix.cpp
+++ b/src/base/linalg/hybrid_matrix.cpp
@@ -52,7 +52,7 @@ DecomposeSparseMatrixHybrid (shared_ptr<SparseMatrix<TM>> anA,
 
   typedef SparseMatrixTM<TM> TSPMAT_TM;
   Array<TSPMAT_TM*> send_add_diag_mats(nexp);
-  Array<NG_MPI_Request> rsdmat (nexp);
+  Array<NG_MPI_Request> rsdmat;
   { // create & send diag-blocks for M to masters
     auto SPM_DIAG = [&] (auto dofs) LAMBDA_INLINE
     {
@@ -96,7 +96,7 @@ DecomposeSparseMatrixHybrid (shared_ptr<SparseMatrix<TM>> anA,
     for (auto kp : Range(nexp))
     {
       send_add_diag_mats[kp] = SPM_DIAG(dCCMap.GetGDOFs(kp));
-      rsdmat[kp] = comm.ISend(*send_add_diag_mats[kp], ex_procs[kp], NG_MPI_TAG_AMG);
+      comm.ISend(*send_add_diag_mats[kp], ex_procs[kp], NG_MPI_TAG_AMG, rsdmat);
     }
   } // create & send diag-blocks for M to masters
 
-- 
2.43.0


From b14be6522cada4028026a2c3bd91649cbc25d4cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:13 +0000
Subject: [PATCH 50/53] fix: hybrid local-inverse smoother works on the
 exchanged right hand side and residual, and keeps the master DOFs

---
 src/base/smoothers/hybrid_smoother.cpp | 29 +++++++++++++++++++-------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/src/base/smoothers/hybrid_smoother.cpp b/src/base/smoothers/hybrid_smoother.cpp
index 1b9cc4b..458b85a 100644
--- a/src/base/smoothers/hybrid_smoother.cpp
+++ b/src/base/smoothers/hybrid_smoother.cpp
@@ -236,7 +236,7 @@ HybridDISmoother (shared_ptr<BaseMatrix> _A,
                   shared_ptr<BitArray> _freedofs,
                   bool overlap,
                   bool NG_MPI_thread)
-  : HybridSmoother<TM>(_A, overlap, NG_MPI_thread, 1)
+  : HybridSmoother<TM>(_A, 1, NG_MPI_thread, overlap)
 {
   Array<TM> mod_diag = this->CalcModDiag(nullptr);
 
@@ -250,9 +250,9 @@ HybridDISmoother (shared_ptr<BaseMatrix> _A,
 
     if (_freedofs)
     {
-      BitArray fd = freedofs->And(*_freedofs);
-      BitArray* fd2 = new BitArray(std::move(fd));
-      freedofs = shared_ptr<BitArray>(fd2);
+      // a copy, the DCCMap keeps the master DOFs
+      freedofs = make_shared<BitArray>(*freedofs);
+      freedofs->And(*_freedofs);
     }
 
     A.GetM()->SetInverseType(SPARSECHOLESKY);
@@ -290,9 +290,19 @@ SmoothStageRHS (SMOOTH_STAGE        const &stage,
                 BaseVector                &res,
                 bool                const &x_zero) const
 {
-  if (stage == SMOOTH_STAGE::LOC_PART_1)
+  // b has its final values on master DOFs in this stage, and x has not been sent yet
+  if (stage == SMOOTH_STAGE::EX_PART)
   {
-    x = (*loc_inv) * b;
+    if (x_zero)
+    {
+      x = (*loc_inv) * b;
+    }
+    else
+    {
+      res = b;
+      res -= (*this->GetHybSparseA().GetM()) * x;
+      x += (*loc_inv) * res;
+    }
   }
 } // HybridDISmoother::SmoothStageRHS
 
@@ -307,9 +317,12 @@ SmoothStageRes (SMOOTH_STAGE        const &stage,
                 BaseVector                &res,
                 bool                const &x_zero) const
 {
-  if (stage == SMOOTH_STAGE::LOC_PART_1)
+  if (stage == SMOOTH_STAGE::EX_PART)
   {
-    x += (*loc_inv) * res;
+    auto update = x.CreateVector();
+    update = (*loc_inv) * res;
+    x   += update;
+    res -= (*this->GetHybSparseA().GetM()) * update;
   }
 } // HybridDISmoother::SmoothStageRes
 
-- 
2.43.0


From e8b8610470e5e216f6c138e6fee7d3b0232a61cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:09 +0000
Subject: [PATCH 51/53] fix: residual of the hybrid smoothers from a zero
 iterate with a cumulated right hand side

---
 src/base/smoothers/hybrid_base_smoother.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/base/smoothers/hybrid_base_smoother.cpp b/src/base/smoothers/hybrid_base_smoother.cpp
index ad87541..83cf33b 100644
--- a/src/base/smoothers/hybrid_base_smoother.cpp
+++ b/src/base/smoothers/hybrid_base_smoother.cpp
@@ -273,6 +273,7 @@ SmoothImpl (BaseVector       &x,
       {
         // III < IV
         res = b;
+        res.Distribute(); // the values of a cumulated b on other than master DOFs would stay in res
         SmoothImplRES<DIR>(x, b, res, x_zero);
       }
     }
-- 
2.43.0


From eb404316de137856149f17e723d0bc6bdeaee0cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:46:38 +0000
Subject: [PATCH 52/53] fix: data of edges between classes is kept by one rank
 only when distributed data is redistributed

---
 src/base/coarsening/grid_contract.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/base/coarsening/grid_contract.hpp b/src/base/coarsening/grid_contract.hpp
index c3de741..694e237 100644
--- a/src/base/coarsening/grid_contract.hpp
+++ b/src/base/coarsening/grid_contract.hpp
@@ -240,8 +240,10 @@ public:
     });
 
     for(auto k:Range(cneqcs)) {
+      // every member got the sum, so only one may keep it if the data stays DISTRIBUTED
+      bool const keep = ( stat == CUMULATED ) || c_eqc_h->IsMasterOfEQC(k);
       for(auto j:Range(anodes[k].Size()))
-        { out[anodes[k][j]] = radata[k][j]; }
+        { out[anodes[k][j]] = keep ? radata[k][j] : T(0); }
     }
 
     // cout << "2, contr data: " << endl << "___" << endl;
-- 
2.43.0


From e9c6e5184975b6be3ff2e437f143316b9e6edf50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:25:25 +0000
Subject: [PATCH 53/53] fix: a matrix that is not embedded yet is not used to
 smooth the prolongation of a serial problem

---
 src/base/factory/vertex_factory_impl.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/base/factory/vertex_factory_impl.hpp b/src/base/factory/vertex_factory_impl.hpp
index 5723141..f6b8846 100644
--- a/src/base/factory/vertex_factory_impl.hpp
+++ b/src/base/factory/vertex_factory_impl.hpp
@@ -1888,6 +1888,9 @@ SemiAuxSProlMap (shared_ptr<ProlMap<TM>> pw_step,
   /** if "fmat" has no pardofs, it is not the original finest level matrix, so fine to use! !**/
   if ( have_fmat && (fmat->GetParallelDofs() != nullptr) )
     { have_fmat &= (fmat->GetParallelDofs() == fpds); }
+  /** without pardofs, the pre-embedded matrix of a subset of the DOFs can only be told by its size **/
+  if ( have_fmat )
+    { have_fmat &= (fmat->Height() == pw_step->GetProl()->Height()); }
 
   // cout << " have fmat " << have_fmat << " " << (fmat != nullptr) << endl; //" " << (fmat->GetParallelDofs() == fpds) << endl;
   // cout << " pds " << fmat->GetParallelDofs() << fpds << endl;
@@ -2354,7 +2357,7 @@ SemiAuxSProlMap (shared_ptr<ProlMap<TM>> pw_step,
 
     fmat = actualFmat;
 
-    if ( fmat == nullptr )
+    if ( (fmat == nullptr) || (fmat->Height() != sprol->Height()) )
     {
       shared_ptr<BaseMatrix> mat = embMap->AssembleMatrix(fcap->mat);
 
-- 
2.43.0

