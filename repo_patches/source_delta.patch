From a45e29077ee5de690e05fcf4acfee8f81c4c769b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:54 +0000
Subject: [PATCH 01/14] fix: Methfessel-Paxton dxdelta is missing a factor x

---
 src/smearing.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/smearing.hpp b/src/smearing.hpp
index 40ed9f3..ec1fde7 100644
--- a/src/smearing.hpp
+++ b/src/smearing.hpp
@@ -280,7 +280,7 @@ struct methfessel_paxton_smearing : summed<methfessel_paxton_smearing>, non_mono
   KOKKOS_INLINE_FUNCTION static double dxdelta(double x, double mo)
   {
     double sqrtpi = std::sqrt(constants::pi);
-    return mo * std::exp(-x * x) * (2 * x * x - 5) / sqrtpi;
+    return mo * std::exp(-x * x) * x * (2 * x * x - 5) / sqrtpi;
   }
 
   KOKKOS_INLINE_FUNCTION static double entropy(double x, double mo)
-- 
2.43.0


From 0865b159e6441b8dfb6e2dc07191ac92bd3d7b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:54 +0000
Subject: [PATCH 02/14] fix: Gaussian-spline dxdelta is missing a factor x for
 x <= 0

---
 src/smearing.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/smearing.hpp b/src/smearing.hpp
index ec1fde7..fe48dc0 100644
--- a/src/smearing.hpp
+++ b/src/smearing.hpp
@@ -208,7 +208,7 @@ struct gaussian_spline : summed<gaussian_spline>
     if (x > 8 || x < -8) return 0;
 
     if (x <= 0) {
-      return -2 * mo * std::exp((sqrt2 - x) * x) * (sqrt2 - x);
+      return -2 * mo * std::exp((sqrt2 - x) * x) * x * (sqrt2 - x);
     } else {
       return -2 * mo * std::exp(-x * (sqrt2 + x)) * x * (sqrt2 + x);
     }
-- 
2.43.0


From fb1635afbc1ea2ae15871964540f62e368d85547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:54 +0000
Subject: [PATCH 03/14] fix: Gaussian-spline entropy does not scale with the
 maximal occupancy

---
 src/smearing.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/smearing.hpp b/src/smearing.hpp
index fe48dc0..bb27099 100644
--- a/src/smearing.hpp
+++ b/src/smearing.hpp
@@ -193,10 +193,10 @@ struct gaussian_spline : summed<gaussian_spline>
     double sqrte = std::exp(0.5);
 
     if (x > 0) {
-      return 0.25 *
+      return mo * 0.25 *
              (2 * std::exp(-x * (sqrt2 + x)) * x + sqrte * sqrtpi * std::erfc(1 / sqrt2 + x));
     } else {
-      return 0.25 *
+      return mo * 0.25 *
              (-2 * std::exp(x * (sqrt2 - x)) * x + sqrte * sqrtpi * std::erfc(1 / sqrt2 - x));
     }
   }
-- 
2.43.0


From 88c29dc39a24ab3f519fc7d479a84651d599843d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:55:08 +0000
Subject: [PATCH 04/14] fix: Newton search for the Fermi energy accepts a NaN
 electron count

---
 src/dft/newton_minimization_smearing.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dft/newton_minimization_smearing.hpp b/src/dft/newton_minimization_smearing.hpp
index 583cf29..1d8e538 100644
--- a/src/dft/newton_minimization_smearing.hpp
+++ b/src/dft/newton_minimization_smearing.hpp
@@ -55,7 +55,7 @@ newton_minimization_chemical_potential(
 
     if (std::abs(step) < tol || std::abs(Nf - ne) < tol) {
       double charge_diff = N(mu) - ne;
-      if (std::abs(charge_diff) > tol_ne) {
+      if (!(std::abs(charge_diff) <= tol_ne)) {
         Logger::GetInstance() << "*Warning* Newton got stuck in a flat region, iteration: " << iter
                               << ", dx: " << step << ", error: " << charge_diff << "\n";
         throw failed_to_converge();
-- 
2.43.0


From b86b7f70e16347853f689b298eeacee60fa37f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:02:13 +0000
Subject: [PATCH 05/14] fix: quadratic line search accepts a point whose free
 energy is NaN

---
 src/linesearch/linesearch.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/linesearch/linesearch.hpp b/src/linesearch/linesearch.hpp
index 3edc424..40c5d5b 100644
--- a/src/linesearch/linesearch.hpp
+++ b/src/linesearch/linesearch.hpp
@@ -139,7 +139,7 @@ line_search::qline(GEODESIC& G, FREE_ENERGY& FE, double slope, bool& force_resta
                         << " q line prediction error: " << std::scientific << std::setprecision(8) << (F_pred - F_min)
                         << " dE: " << std::scientific << std::setprecision(8) << (F0 - F_min) << "\n";
 
-  if (F_min > F0) {
+  if (!(F_min <= F0)) {
     Logger::GetInstance() << std::setprecision(13)
                           << "\t quadratic line search failed:\n"
                           << "\t - F_min: " << F_min << "\n"
-- 
2.43.0


From 322aace378035f2054016b148920f3ac1613494c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:11:34 +0000
Subject: [PATCH 06/14] fix: iterating over an operator reads past the end of
 its keys

---
 src/operator.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/operator.hpp b/src/operator.hpp
index e7807ff..f9cd7b1 100644
--- a/src/operator.hpp
+++ b/src/operator.hpp
@@ -19,7 +19,7 @@ public:
       : keys(keys)
       , obj(obj)
   {
-    if (end) {
+    if (end || keys.empty()) {
       pos = keys.size();
     } else {
       key_t k = keys[0];
@@ -30,7 +30,11 @@ public:
   op_iterator& operator++()
   {
     pos++;
-    pair = std::make_unique<value_t>(keys[pos], obj.at(keys[pos]));
+    if (pos < static_cast<int>(keys.size())) {
+      pair = std::make_unique<value_t>(keys[pos], obj.at(keys[pos]));
+    } else {
+      pair.reset();
+    }
     return *this;
   }
 
-- 
2.43.0


From 239fef3689b1cbed17f8648b8aab5f00087a9e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:12:52 +0000
Subject: [PATCH 07/14] fix: host vectors are read without their stride and
 skipped for unsupported memory

---
 src/la/mvector.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/la/mvector.hpp b/src/la/mvector.hpp
index c34610a..6b895d2 100644
--- a/src/la/mvector.hpp
+++ b/src/la/mvector.hpp
@@ -398,12 +398,14 @@ auto make_mmvector(std::shared_ptr<VectorBaseZ> vector_base)
       throw std::runtime_error("recompile nlcglib with CUDA support");
 #endif
     } else if (buffer.memtype == memory_type::host) {
-      Kokkos::View<double*, Kokkos::HostSpace, Kokkos::MemoryUnmanaged> src(buffer.data,
-                                                                            buffer.size[0]);
+      Kokkos::View<double*, Kokkos::LayoutStride, Kokkos::HostSpace, Kokkos::MemoryUnmanaged> src(
+          buffer.data, Kokkos::LayoutStride(buffer.size[0], buffer.stride[0]));
       vector_t dst("vector", buffer.size[0]);
       Kokkos::deep_copy(dst, src);
       auto kindex = vector_base->kpoint_index(i);
       mvector[kindex] = dst;
+    } else {
+      throw std::runtime_error("expected host or device memory");
     }
   }
   return mvector;
-- 
2.43.0


From 3bd86f541d28581ff6c6c27132c70a6aaa17749b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:00:25 +0000
Subject: [PATCH 08/14] fix: outer passes the dimensions of A^H B for the
 product A B^H

---
 src/la/lapack_cpu.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/la/lapack_cpu.hpp b/src/la/lapack_cpu.hpp
index cb0e2e6..b78b835 100644
--- a/src/la/lapack_cpu.hpp
+++ b/src/la/lapack_cpu.hpp
@@ -190,9 +190,9 @@ outer(KokkosDVector<T0**, LAYOUT0, KOKKOS0...>& C,
 
   // single rank
   if (A.map().is_local() && B.map().is_local() && C.map().is_local()) {
-    int m = A.map().ncols();
-    int k = A.map().nrows();
-    int n = B.map().ncols();
+    int m = A.map().nrows();
+    int k = A.map().ncols();
+    int n = B.map().nrows();
     numeric_t* A_ptr = A.array().data();
     numeric_t* B_ptr = B.array().data();
     numeric_t* C_ptr = C.array().data();
-- 
2.43.0


From bda21eafe5148c2049fce2056af9c5414956afcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:00:25 +0000
Subject: [PATCH 09/14] fix: solve_sym ignores a failed Cholesky factorisation

---
 src/la/lapack_cpu.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/la/lapack_cpu.hpp b/src/la/lapack_cpu.hpp
index b78b835..82a33d4 100644
--- a/src/la/lapack_cpu.hpp
+++ b/src/la/lapack_cpu.hpp
@@ -75,11 +75,17 @@ solve_sym(KokkosDVector<T, LAYOUT, KOKKOS...>& A, KokkosDVector<T, LAYOUT, KOKKO
 
     char uplo = 'U';
     auto order = CBLAS_ORDER::CblasColMajor;
-    potrf_t::call(order, uplo, n, ptr_A, lda);
+    lapack_int info = potrf_t::call(order, uplo, n, ptr_A, lda);
+    if (info != 0) {
+      throw std::runtime_error("potrf failed, info = " + std::to_string(info));
+    }
     int nrhs = RHS.array().extent(1);
 
     typedef cblas::potrs<numeric_t> potrs_t;
-    potrs_t::call(order, uplo, n, nrhs, ptr_A, lda, ptr_B, ldb);
+    info = potrs_t::call(order, uplo, n, nrhs, ptr_A, lda, ptr_B, ldb);
+    if (info != 0) {
+      throw std::runtime_error("potrs failed, info = " + std::to_string(info));
+    }
   } else {
     throw std::runtime_error("not implemented");
   }
-- 
2.43.0


From 81aa65cf8aee5d8d2cbf92fd4fe5fe3d53e5ecaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:00:25 +0000
Subject: [PATCH 10/14] fix: transform_alloc allocates the result with the
 shape of its left operand

---
 src/la/lapack.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/la/lapack.hpp b/src/la/lapack.hpp
index bf411c3..2eed8f5 100644
--- a/src/la/lapack.hpp
+++ b/src/la/lapack.hpp
@@ -434,7 +434,8 @@ transform_alloc(
     const identity_t<typename M1::numeric_t>& alpha = identity_t<typename M1::numeric_t>{1.0},
     const identity_t<typename M1::numeric_t>& beta = identity_t<typename M1::numeric_t>{0.})
 {
-  to_layout_left_t<M1> C(A.map());
+  Map<SlabLayoutV> map(A.map().comm(), SlabLayoutV({{0, 0, A.map().nrows(), B.map().ncols()}}));
+  to_layout_left_t<M1> C(map);
   transform(C, beta, alpha, A, B);
   return C;
 }
-- 
2.43.0


From 9283fb83ae077ccf832f76c771e81ecf6a35b393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:15:11 +0000
Subject: [PATCH 11/14] fix: gradient of the pseudo-Hamiltonian evaluates delta
 at (e-mu)/kT, wrong for cold smearing

---
 src/pseudo_hamiltonian/grad_eta.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pseudo_hamiltonian/grad_eta.hpp b/src/pseudo_hamiltonian/grad_eta.hpp
index 3e07e62..99bde17 100644
--- a/src/pseudo_hamiltonian/grad_eta.hpp
+++ b/src/pseudo_hamiltonian/grad_eta.hpp
@@ -39,7 +39,7 @@ struct GradEtaHelper
           "dFdmu",
           Kokkos::RangePolicy<Kokkos::Serial>(0, nbands),
           KOKKOS_LAMBDA(int i, Kokkos::complex<double>& result) {
-            double delta = smearing<smearing_t>::delta((en_loc(i) - mu) / kT, mo);
+            double delta = smearing<smearing_t>::delta((mu - en_loc(i)) / kT, mo);
             result += (hii(i) - en_loc(i)) * (delta);
           },
           v);
@@ -72,7 +72,7 @@ struct GradEtaHelper
       int nbands = en[key].size();
       auto en_loc = en[key];
       for (int i = 0; i < nbands; ++i) {
-        double delta = smearing<smearing_t>::delta((en_loc(i) - mu) / kT, mo);
+        double delta = smearing<smearing_t>::delta((mu - en_loc(i)) / kT, mo);
         v += delta * w_k;
       }
     }
@@ -151,7 +151,7 @@ public:
     double kT_loc = kT;
     Kokkos::parallel_for(
         "gEta (1)", Kokkos::RangePolicy<exec_space>(0, nbands), KOKKOS_LAMBDA(int i) {
-          double delta = smearing<smearing_t>::delta((ek(i) - mu) / kT_loc, mo);
+          double delta = smearing<smearing_t>::delta((mu - ek(i)) / kT_loc, mo);
           mgETA(i, i) = -1 / kT_loc * (mHij(i, i) - wk * ek(i)) * (delta);
         });
 
@@ -161,7 +161,7 @@ public:
       Kokkos::parallel_for(
           "gEta (2)", Kokkos::RangePolicy<exec_space>(0, nbands), KOKKOS_LAMBDA(int i) {
             // sumfn dmuFn
-            double delta = smearing<smearing_t>::delta((ek(i) - mu) / kT_loc, mo);
+            double delta = smearing<smearing_t>::delta((mu - ek(i)) / kT_loc, mo);
             mgETA(i, i) += wk * (delta) / dmu_deta * (dFdmu / kT_loc);
           });
     }
-- 
2.43.0


From 0071d3ec1674754648a6fe2917c9d591f21f9ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:12 +0000
Subject: [PATCH 12/14] fix: reported residual is off by the placeholder slope
 of eta

---
 src/nlcglib.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/nlcglib.cpp b/src/nlcglib.cpp
index fb1e9cf..19ea490 100644
--- a/src/nlcglib.cpp
+++ b/src/nlcglib.cpp
@@ -88,7 +88,8 @@ print_info(double free_energy,
   nlcg_info info;
   info.F = free_energy;
   info.S = entropy;
-  info.tolerance = slope_x + slope_eta;
+  // slope_x holds the total slope, slope_eta is a placeholder until the two are separated
+  info.tolerance = slope_x;
   info.iter = step;
 
   return info;
-- 
2.43.0


From 7f540bf5ba6001dfbf826c2f37d0a15d3415ffd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:12 +0000
Subject: [PATCH 13/14] fix: report is uninitialised if no iteration is
 performed

---
 src/nlcglib.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/nlcglib.cpp b/src/nlcglib.cpp
index 19ea490..21d9fde 100644
--- a/src/nlcglib.cpp
+++ b/src/nlcglib.cpp
@@ -306,6 +306,12 @@ nlcg_us(EnergyBase& energy_base,
   double fr = slope;  // Fletcher-Reeves numerator
   bool force_restart{false};
 
+  // report of the starting point, returned if no iteration is performed
+  info.F = free_energy.get_F();
+  info.S = free_energy.get_entropy();
+  info.tolerance = slope;
+  info.iter = 0;
+
   for (int cg_iter = 0; cg_iter < maxiter; ++cg_iter) {
     if (std::abs(slope) < tol) {
       info = print_info(free_energy.get_F(),
-- 
2.43.0


From 75938ed717f0dbcdc78c03df5bf7c5775b05c074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:12 +0000
Subject: [PATCH 14/14] fix: restart period of zero divides by zero

---
 src/nlcglib.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/nlcglib.cpp b/src/nlcglib.cpp
index 21d9fde..3d62420 100644
--- a/src/nlcglib.cpp
+++ b/src/nlcglib.cpp
@@ -229,6 +229,8 @@ nlcg_us(EnergyBase& energy_base,
   //                ~FE_UNDERFLOW);  // Enable all floating point exceptions but FE_INEXACT
   nlcg_info info;
 
+  if (restart == 0) throw std::runtime_error("restart period must not be zero");
+
   auto S = Overlap(overlap_base);
   auto P = USPreconditioner(us_precond_base);
 
-- 
2.43.0

