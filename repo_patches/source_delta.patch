From 9063dac594e50179917e1b6637cdff541ee697fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:05 +0000
Subject: [PATCH 01/87] fix: release the target's storage in CoeffMatrix2D move
 assignment

Moving into a matrix that already holds data leaked its storage, e.g. on
every `cs.Cnm() = 2. * a.Cnm() + b.Cnm()`; a self move dropped the data.
---
 include/coeff_matrix_2d.hpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/include/coeff_matrix_2d.hpp b/include/coeff_matrix_2d.hpp
index 62605f5..5714632 100644
--- a/include/coeff_matrix_2d.hpp
+++ b/include/coeff_matrix_2d.hpp
@@ -416,12 +416,15 @@ public:
 
   /** Move Assignment operator */
   CoeffMatrix2D &operator=(CoeffMatrix2D &&mat) noexcept {
-    m_data = mat.m_data;
-    m_storage.__set_dimensions(mat.rows(), mat.cols());
-    _capacity = mat._capacity;
-    mat.m_data = nullptr;
-    mat.m_storage.__set_dimensions(0, 0);
-    mat._capacity = 0;
+    if (this != &mat) {
+      delete[] m_data;
+      m_data = mat.m_data;
+      m_storage.__set_dimensions(mat.rows(), mat.cols());
+      _capacity = mat._capacity;
+      mat.m_data = nullptr;
+      mat.m_storage.__set_dimensions(0, 0);
+      mat._capacity = 0;
+    }
     return *this;
   }
 
-- 
2.43.0


From 32e8f01c690f2325e1d24c7d03c7abdcaa42b7d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:05 +0000
Subject: [PATCH 02/87] fix: keep CoeffMatrix2D valid when resize runs out of
 memory

The old storage was freed before the new one was obtained; on bad_alloc
the matrix kept (and later freed again) a dangling pointer.
---
 include/coeff_matrix_2d.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/coeff_matrix_2d.hpp b/include/coeff_matrix_2d.hpp
index 5714632..bf9f4a4 100644
--- a/include/coeff_matrix_2d.hpp
+++ b/include/coeff_matrix_2d.hpp
@@ -442,9 +442,12 @@ public:
   void resize(int rows, int cols) {
     /* do we need to re-allocate ? */
     if (StorageImplementation<S>(rows, cols).num_elements() > _capacity) {
+      /* allocate first: if it fails (throws) the instance stays as it was */
+      double *ptr =
+          new double[StorageImplementation<S>(rows, cols).num_elements()];
       if (m_data)
         delete[] m_data;
-      m_data = new double[StorageImplementation<S>(rows, cols).num_elements()];
+      m_data = ptr;
       _capacity = StorageImplementation<S>(rows, cols).num_elements();
     } else {
       ;
-- 
2.43.0


From 6052e493124c011dc9c3924875b02f02c27355ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:05 +0000
Subject: [PATCH 03/87] fix: honour an explicit order of zero in the
 StokesCoeffs constructor

Only a negative order means `same as degree'.
---
 include/stokes_coefficients.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stokes_coefficients.hpp b/include/stokes_coefficients.hpp
index f2c3f1f..5ba9574 100644
--- a/include/stokes_coefficients.hpp
+++ b/include/stokes_coefficients.hpp
@@ -133,7 +133,7 @@ public:
   /** Constructor given degree, order, GM and radius R */
   StokesCoeffs(int n, int m=-1, double GM=::iers2010::GMe, double Re=::iers2010::Re)
       : _GM(GM), _Re(Re), _cnormalized(true), m_degree(n), 
-        m_order((m > 0) ? m : n), _Cnm(n + 1, n + 1), _Snm(n + 1, n + 1) {}
+        m_order((m >= 0) ? m : n), _Cnm(n + 1, n + 1), _Snm(n + 1, n + 1) {}
 
   /* @brief Resize to new degree/order, deleting currrent data.
    *
-- 
2.43.0


From 856b38e2d4a830704516f016945eff2b9061b377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:05 +0000
Subject: [PATCH 04/87] fix: scale degree-zero Stokes coefficients too

StokesCoeffs::scale silently did nothing on a set of degree zero.
---
 include/stokes_coefficients.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/stokes_coefficients.hpp b/include/stokes_coefficients.hpp
index 5ba9574..2c6b284 100644
--- a/include/stokes_coefficients.hpp
+++ b/include/stokes_coefficients.hpp
@@ -199,10 +199,8 @@ public:
 
   /** scale the Cnm and Snm coefficients */
   void scale(double factor) noexcept {
-    if (m_degree) {
-      _Cnm.multiply(factor);
-      _Snm.multiply(factor);
-    }
+    _Cnm.multiply(factor);
+    _Snm.multiply(factor);
   }
 
   /** get the Cnm coefficient */
-- 
2.43.0


From 5e3c80298bab868b0213050817ea650d23321f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:05 +0000
Subject: [PATCH 05/87] fix: zero the order-zero S coefficients in
 StokesCoeffs::from_anm

They were left uninitialized.
---
 include/stokes_coefficients.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/stokes_coefficients.hpp b/include/stokes_coefficients.hpp
index 2c6b284..aa6c8ef 100644
--- a/include/stokes_coefficients.hpp
+++ b/include/stokes_coefficients.hpp
@@ -281,6 +281,8 @@ public:
     if (max_order<0) max_order = anm.rows()-1;
     int max_degree = anm.rows()-1;
     StokesCoeffs cs(max_degree, max_order);
+    /* S coefficients of order zero are not part of anm; they are zero */
+    cs.clear();
     for (int m = 0; m <= max_degree; m++) {
         for (int l=0; l<m; l++) {
           cs.S(m,l+1) = anm(l,m);
-- 
2.43.0


From 8f90a65a3c3e45129e75d167e2018bb13225ab6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:53 +0000
Subject: [PATCH 06/87] fix: leave order-one terms out of an order-zero gravity
 expansion

---
 src/lib/gravity/sh_cunningham_normalized_gradient.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/gravity/sh_cunningham_normalized_gradient.cpp b/src/lib/gravity/sh_cunningham_normalized_gradient.cpp
index d349050..da50789 100644
--- a/src/lib/gravity/sh_cunningham_normalized_gradient.cpp
+++ b/src/lib/gravity/sh_cunningham_normalized_gradient.cpp
@@ -250,7 +250,7 @@ int sh2gradient_cunningham_impl(
   } /* loop over m */
 
   /* order m = 1 (begin summation from smaller terms) */
-  for (int n = degree; n >= 1; --n) {
+  for (int n = degree; order >= 1 && n >= 1; --n) {
     const int m = 1;
     {
       /* acceleration
-- 
2.43.0


From f94dc9443e2f283b9d0f825a4ed3469729e03bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:53 +0000
Subject: [PATCH 07/87] fix: compute the whole order+2 column for the gravity
 gradient

---
 .../gravity/sh_cunningham_normalized_gradient.cpp    | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/lib/gravity/sh_cunningham_normalized_gradient.cpp b/src/lib/gravity/sh_cunningham_normalized_gradient.cpp
index da50789..d1bd027 100644
--- a/src/lib/gravity/sh_cunningham_normalized_gradient.cpp
+++ b/src/lib/gravity/sh_cunningham_normalized_gradient.cpp
@@ -148,10 +148,20 @@ int sh2gradient_cunningham_impl(
     }
 
     {
-      /* well, we've left the lst term uncomputed */
+      /* well, we've left the last column uncomputed */
       const int m = order + 2;
       M(m, m) = F.f1(m, m) * (x * M(m - 1, m - 1) - y * W(m - 1, m - 1));
       W(m, m) = F.f1(m, m) * (y * M(m - 1, m - 1) + x * W(m - 1, m - 1));
+
+      /* more terms are only needed if order < degree */
+      if (order < degree) {
+        M(m + 1, m) = F.f1(m + 1, m) * z * M(m, m);
+        W(m + 1, m) = F.f1(m + 1, m) * z * W(m, m);
+      }
+      for (int n = m + 2; n <= degree + 2; n++) {
+        M(n, m) = F.f1(n, m) * z * M(n - 1, m) + F.f2(n, m) * rr * M(n - 2, m);
+        W(n, m) = F.f1(n, m) * z * W(n - 1, m) + F.f2(n, m) * rr * W(n - 2, m);
+      }
     }
 
     //M.multiply(1e-280);
-- 
2.43.0


From feaa0660a82dba4d75b8db5bc319d48422dd6d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:53 +0000
Subject: [PATCH 08/87] fix: size the gravity scratch space for degree+2 terms

---
 include/gravity.hpp                           |  4 ++--
 .../sh_cunningham_normalized_gradient.cpp     | 20 +++++++++----------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/include/gravity.hpp b/include/gravity.hpp
index 6a5f82a..3be1e71 100644
--- a/include/gravity.hpp
+++ b/include/gravity.hpp
@@ -136,11 +136,11 @@ int normalised_associated_legendre_functions(
  * @param[out] acc Acceleration in cartesian components in [m/s^2]
  * @param[out] gradient Gradient of acceleration in cartesian components
  * @param[in] W   A convinient storage space, as Column-Wise Lower Triangular
- *                matrix off dimensions at least (max_degree+2, max_degree+2).
+ *                matrix off dimensions at least (max_degree+3, max_degree+3).
  *                If not given, then the function will allocate and free the 
  *                required memmory.
  * @param[in] M   A convinient storage space, as Column-Wise Lower Triangular
- *                matrix off dimensions at least (max_degree+2, max_degree+2)
+ *                matrix off dimensions at least (max_degree+3, max_degree+3)
  *                If not given, then the function will allocate and free the 
  *                required memmory.
  * @return        Anything other than zero denotes an error.
diff --git a/src/lib/gravity/sh_cunningham_normalized_gradient.cpp b/src/lib/gravity/sh_cunningham_normalized_gradient.cpp
index d1bd027..924d890 100644
--- a/src/lib/gravity/sh_cunningham_normalized_gradient.cpp
+++ b/src/lib/gravity/sh_cunningham_normalized_gradient.cpp
@@ -65,9 +65,9 @@ struct NormalizedLegendreFactors {
  * @param[out] acc Acceleration in cartesian components in [m/s^2]
  * @param[out] gradient Gradient of acceleration in cartesian components
  * @param[in] W   A convinient storage space, as Column-Wise Lower Triangular
- *                matrix off dimensions at least (max_degree+2, max_degree+2)
+ *                matrix off dimensions at least (max_degree+3, max_degree+3)
  * @param[in] M   A convinient storage space, as Column-Wise Lower Triangular
- *                matrix off dimensions at least (max_degree+2, max_degree+2)
+ *                matrix off dimensions at least (max_degree+3, max_degree+3)
  */
 int sh2gradient_cunningham_impl(
     const dso::StokesCoeffs &cs, const Eigen::Matrix<double, 3, 1> &r,
@@ -89,10 +89,10 @@ int sh2gradient_cunningham_impl(
   assert(cs.max_degree() >= cs.max_order());
   assert(max_degree <= cs.max_degree());
   assert(max_order <= cs.max_order());
-  assert(W.rows() >= max_degree + 2);
-  assert(W.cols() >= max_degree + 2);
-  assert(M.rows() >= max_degree + 2);
-  assert(M.cols() >= max_degree + 2);
+  assert(W.rows() >= max_degree + 3);
+  assert(W.cols() >= max_degree + 3);
+  assert(M.rows() >= max_degree + 3);
+  assert(M.cols() >= max_degree + 3);
 #endif
 
   /* Factors up to degree/order MAX_SIZE_FOR_ALF_FACTORS. Constructed only on
@@ -436,18 +436,18 @@ int dso::sh2gradient_cunningham(
   int delete_mem_pool[] = {0, 0};
   if (!W) {
     W = new dso::CoeffMatrix2D<dso::MatrixStorageType::LwTriangularColWise>(
-        max_degree + 2, max_degree + 2);
+        max_degree + 3, max_degree + 3);
     delete_mem_pool[0] = 1;
   }
   if (!M) {
     M = new dso::CoeffMatrix2D<dso::MatrixStorageType::LwTriangularColWise>(
-        max_degree + 2, max_degree + 2);
+        max_degree + 3, max_degree + 3);
     delete_mem_pool[1] = 1;
   }
 
   /* check scratch space */
-  if ((W->rows() < max_degree + 2) || (W->cols() < max_degree + 2) ||
-      (M->rows() < max_degree + 2) || (M->cols() < max_degree + 2)) {
+  if ((W->rows() < max_degree + 3) || (W->cols() < max_degree + 3) ||
+      (M->rows() < max_degree + 3) || (M->cols() < max_degree + 3)) {
     fprintf(stderr,
             "[ERROR] Invalid size of mem pool for spherical harmonics "
             "expansion! (traceback: %s)\n",
-- 
2.43.0


From 353235de952e5d45d89b5d870cfd9d0703fbe270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:53 +0000
Subject: [PATCH 09/87] fix: report an unsupported expansion degree instead of
 aborting

---
 src/lib/gravity/sh_cunningham_normalized_gradient.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/gravity/sh_cunningham_normalized_gradient.cpp b/src/lib/gravity/sh_cunningham_normalized_gradient.cpp
index 924d890..5c21677 100644
--- a/src/lib/gravity/sh_cunningham_normalized_gradient.cpp
+++ b/src/lib/gravity/sh_cunningham_normalized_gradient.cpp
@@ -82,7 +82,7 @@ int sh2gradient_cunningham_impl(
             "[ERROR] (Static) Size for NormalizedLegendreFactors must be "
             "augmented to perform computation (traceback: %s)\n",
             __func__);
-    assert(false);
+    return 1;
   }
 
 #ifdef DEBUG
-- 
2.43.0


From f34ced0f4e768413b547bb75e569ac00aa6e7717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:53 +0000
Subject: [PATCH 10/87] fix: free internal gravity scratch space on the error
 path

---
 src/lib/gravity/sh_cunningham_normalized_gradient.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib/gravity/sh_cunningham_normalized_gradient.cpp b/src/lib/gravity/sh_cunningham_normalized_gradient.cpp
index 5c21677..ae3b2b3 100644
--- a/src/lib/gravity/sh_cunningham_normalized_gradient.cpp
+++ b/src/lib/gravity/sh_cunningham_normalized_gradient.cpp
@@ -452,6 +452,10 @@ int dso::sh2gradient_cunningham(
             "[ERROR] Invalid size of mem pool for spherical harmonics "
             "expansion! (traceback: %s)\n",
             __func__);
+    if (delete_mem_pool[0])
+      delete W;
+    if (delete_mem_pool[1])
+      delete M;
     return 1;
   }
 
-- 
2.43.0


From 549297642c900317717e4edcf6a96b9ce3164877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:53 +0000
Subject: [PATCH 11/87] fix: keep Legendre functions inside an exactly sized
 matrix

---
 src/lib/gravity/forward_column_alf.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/lib/gravity/forward_column_alf.cpp b/src/lib/gravity/forward_column_alf.cpp
index 2e7731b..d82acdf 100644
--- a/src/lib/gravity/forward_column_alf.cpp
+++ b/src/lib/gravity/forward_column_alf.cpp
@@ -33,7 +33,8 @@ int dso::normalised_associated_legendre_functions(
 
   /* first two terms */
   P(0, 0) = 1e0;
-  P(1, 1) = std::sqrt(3e0) * u;
+  if (max_order > 0)
+    P(1, 1) = std::sqrt(3e0) * u;
 
   /* loop through columns, m=[0,max_order) */
   for (int m = 0; m < max_order; m++) {
@@ -54,7 +55,8 @@ int dso::normalised_associated_legendre_functions(
   /* last column, m=max_order */
   int m = max_order;
   double *__restrict__ pmm = P.column(m);
-  pmm[1] = anm(m + 1, m) * t * pmm[0];
+  if (max_order < max_degree)
+    pmm[1] = anm(m + 1, m) * t * pmm[0];
   for (int n = m + 2; n <= max_degree; n++) {
     int k = n - m;
     pmm[k] = anm(n, m) * t * pmm[k - 1] - bnm(n, m) * pmm[k - 2];
@@ -77,7 +79,8 @@ int dso::normalised_associated_legendre_functions(
 
   /* first two terms */
   P(0, 0) = 1e0;
-  P(1, 1) = std::sqrt(3e0) * u;
+  if (max_order > 0)
+    P(1, 1) = std::sqrt(3e0) * u;
 
   const double uinv = 1e0/u;
   /* loop through columns, m=[0,max_order) */
@@ -108,8 +111,10 @@ int dso::normalised_associated_legendre_functions(
   /* sectorial of derivative, n=m */
   dpmm[0] = m * (t/u) * pmm[0];
   /* first value from sectorial, n=m+1*/
-  pmm[1] = anm(m + 1, m) * t * pmm[0];
-  dpmm[1] = uinv * ((m+1)*t*pmm[1] - fnm(m+1,m)*pmm[0]);
+  if (max_order < max_degree) {
+    pmm[1] = anm(m + 1, m) * t * pmm[0];
+    dpmm[1] = uinv * ((m+1)*t*pmm[1] - fnm(m+1,m)*pmm[0]);
+  }
   for (int n = m + 2; n <= max_degree; n++) {
     int k = n - m;
     pmm[k] = anm(n, m) * t * pmm[k - 1] - bnm(n, m) * pmm[k - 2];
-- 
2.43.0


From 40afd75b9014f31c62e4da0e99ffeaa1b6c44657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:20 +0000
Subject: [PATCH 12/87] fix: keep no query state inside EopSeries

---
 include/eop.hpp                        | 20 ++------------------
 src/lib/eop/approx_dut1.cpp            | 14 ++------------
 src/lib/eop/lagrange_interpolation.cpp | 15 +++------------
 3 files changed, 7 insertions(+), 42 deletions(-)

diff --git a/include/eop.hpp b/include/eop.hpp
index 062def8..9f8580a 100644
--- a/include/eop.hpp
+++ b/include/eop.hpp
@@ -186,18 +186,6 @@ class EopSeries {
   static constexpr int MAX_POLY_INTERPOLATION_DEGREE = 9;
   /** Vector of EopRecords stored in series */
   std::vector<EopRecord> mvec{};
-  /** Last used index in mvec.
-   * Speed-up interpolation when requesting interpolation results for epochs
-   * within one day (e.g. every N seconds). This is the most often use-case.
-   * This is a mutable member, i.e. changing values in here does not actually
-   * 'change' the instance; it is only used to hunt interpolation indexes.
-   */
-  mutable cvit last_it{mvec.end()};
-  /** Scratch/Workspace memoty to use in interpolation.
-   * This is a mutable member, i.e. changing values in here does not actually
-   * 'change' the instance.
-   */
-  mutable std::array<double, (MAX_POLY_INTERPOLATION_DEGREE + 1) * 2> work;
 
   /** @brief Compute and add or remove zonal tidal variations (for UT1 and LOD).
    *
@@ -288,15 +276,11 @@ public:
    * Warning! The vector of EopRecord should always be chronologically ordered.
    * If you use this method be sure that the entry you are pushing is indeed
    * later that then last current entry in the table.
-   *
-   * Warning! This function may invalidate the last_it pointer. Please, reset
-   * it to the correct index after the call.
    */
   void push_back(const EopRecord &r) noexcept { return mvec.push_back(r); }
 
-  void reset_vec_iterator(int offset = -1) noexcept {
-    last_it = (offset < 0) ? mvec.end() : mvec.begin() + offset;
-  }
+  /** No-op; queries keep no state between calls. */
+  void reset_vec_iterator([[maybe_unused]] int offset = -1) noexcept {}
 
   /** Interpolate EOPs using the data in Series, for a given epoch (TT).
    *
diff --git a/src/lib/eop/approx_dut1.cpp b/src/lib/eop/approx_dut1.cpp
index 31ab45a..27c91f1 100644
--- a/src/lib/eop/approx_dut1.cpp
+++ b/src/lib/eop/approx_dut1.cpp
@@ -3,18 +3,8 @@
 dso::EopSeries::EopInterpolationResult
 dso::EopSeries::approx_dut1(const dso::MjdEpoch &t,
                             double &dut1) const noexcept {
-  /* find a matching interval (try for last used iterator first) */
-  auto it = last_it;
-  {
-    if (last_it != mvec.begin() && last_it != mvec.end()) {
-      if (!((last_it - 1)->t() >= t && last_it->t() < t)) {
-        it = this->upper_bound(t);
-      }
-    } else {
-      it = this->upper_bound(t);
-    }
-  }
-  last_it = it;
+  /* find a matching interval */
+  auto it = this->upper_bound(t);
 
   /* given date is prior to first date in EOP series */
   if (it == mvec.begin()) {
diff --git a/src/lib/eop/lagrange_interpolation.cpp b/src/lib/eop/lagrange_interpolation.cpp
index 83b631c..143aa31 100644
--- a/src/lib/eop/lagrange_interpolation.cpp
+++ b/src/lib/eop/lagrange_interpolation.cpp
@@ -7,18 +7,8 @@ dso::EopSeries::interpolate(const dso::MjdEpoch &t, dso::EopRecord &eop,
                             int degree) const noexcept {
   assert(degree <= MAX_POLY_INTERPOLATION_DEGREE);
 
-  /* find a matching interval (try for last used iterator first) */
-  auto it = last_it;
-  {
-    if (last_it != mvec.begin() && last_it != mvec.end()) {
-      if (!((last_it - 1)->t() >= t && last_it->t() < t)) {
-        it = this->upper_bound(t);
-      }
-    } else {
-      it = this->upper_bound(t);
-    }
-  }
-  last_it = it;
+  /* find a matching interval */
+  auto it = this->upper_bound(t);
 
   /* given date is prior to first date in EOP series */
   if (it == mvec.begin()) {
@@ -81,6 +71,7 @@ dso::EopSeries::interpolate(const dso::MjdEpoch &t, dso::EopRecord &eop,
    */
   auto i = it - ndp;
   const auto stop = it + ndp;
+  std::array<double, (MAX_POLY_INTERPOLATION_DEGREE + 1) * 2> work;
   /* nom[j] <- Π_{k=0,k!=j}^{n} (x-x_k) */
   /* dom[j] <- Π_{k=0,k!=j}^{n} (x_j-x_k) */
   auto nom = work.begin();
-- 
2.43.0


From 6c40a159eedd131ba1878760424fe27e18107a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:20 +0000
Subject: [PATCH 13/87] fix: report an empty EOP series as out of bounds

---
 src/lib/eop/approx_dut1.cpp            | 6 ++++++
 src/lib/eop/lagrange_interpolation.cpp | 7 +++++++
 2 files changed, 13 insertions(+)

diff --git a/src/lib/eop/approx_dut1.cpp b/src/lib/eop/approx_dut1.cpp
index 27c91f1..1b63ca1 100644
--- a/src/lib/eop/approx_dut1.cpp
+++ b/src/lib/eop/approx_dut1.cpp
@@ -3,6 +3,12 @@
 dso::EopSeries::EopInterpolationResult
 dso::EopSeries::approx_dut1(const dso::MjdEpoch &t,
                             double &dut1) const noexcept {
+  /* nothing to interpolate */
+  if (mvec.empty()) {
+    dut1 = 0e0;
+    return EopInterpolationResult::OutOfBoundsPrior;
+  }
+
   /* find a matching interval */
   auto it = this->upper_bound(t);
 
diff --git a/src/lib/eop/lagrange_interpolation.cpp b/src/lib/eop/lagrange_interpolation.cpp
index 143aa31..b9c0541 100644
--- a/src/lib/eop/lagrange_interpolation.cpp
+++ b/src/lib/eop/lagrange_interpolation.cpp
@@ -7,6 +7,13 @@ dso::EopSeries::interpolate(const dso::MjdEpoch &t, dso::EopRecord &eop,
                             int degree) const noexcept {
   assert(degree <= MAX_POLY_INTERPOLATION_DEGREE);
 
+  /* nothing to interpolate */
+  if (mvec.empty()) {
+    eop = EopRecord{};
+    eop.t() = t;
+    return EopInterpolationResult::OutOfBoundsPrior;
+  }
+
   /* find a matching interval */
   auto it = this->upper_bound(t);
 
-- 
2.43.0


From a66e046fb81b62e5d50b6045438d9b3a2c2f8f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:20 +0000
Subject: [PATCH 14/87] fix: interpolate the pole rates of an EOP series

---
 src/lib/eop/lagrange_interpolation.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib/eop/lagrange_interpolation.cpp b/src/lib/eop/lagrange_interpolation.cpp
index b9c0541..33a5952 100644
--- a/src/lib/eop/lagrange_interpolation.cpp
+++ b/src/lib/eop/lagrange_interpolation.cpp
@@ -70,6 +70,8 @@ dso::EopSeries::interpolate(const dso::MjdEpoch &t, dso::EopRecord &eop,
     eop.lod() = x0->lod() * dx0 + x1->lod() * dx1;
     eop.dX() = x0->dX() * dx0 + x1->dX() * dx1;
     eop.dY() = x0->dY() * dx0 + x1->dY() * dx1;
+    eop.xp_rate() = x0->xp_rate() * dx0 + x1->xp_rate() * dx1;
+    eop.yp_rate() = x0->yp_rate() * dx0 + x1->yp_rate() * dx1;
     return EopInterpolationResult::Linear;
   }
 
@@ -115,6 +117,8 @@ dso::EopSeries::interpolate(const dso::MjdEpoch &t, dso::EopRecord &eop,
     eop.lod() += i->lod() * fac;
     eop.dX() += i->dX() * fac;
     eop.dY() += i->dY() * fac;
+    eop.xp_rate() += i->xp_rate() * fac;
+    eop.yp_rate() += i->yp_rate() * fac;
   }
 
   /* Note that we have interpolation result for (UT1-TAI)j, not (UT1-UTC)j */
-- 
2.43.0


From 778ff7545f0e7bc21fb039f64a7af323619d3f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:43 +0000
Subject: [PATCH 15/87] fix: load EOP windows of any width

---
 src/lib/eop/parse_iers_c0414.cpp | 6 ++++--
 src/lib/eop/parse_iers_c0420.cpp | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/lib/eop/parse_iers_c0414.cpp b/src/lib/eop/parse_iers_c0414.cpp
index 4434414..24af644 100644
--- a/src/lib/eop/parse_iers_c0414.cpp
+++ b/src/lib/eop/parse_iers_c0414.cpp
@@ -6,6 +6,7 @@
 
 namespace {
 constexpr const std::size_t MAX_LINE_CHARS = 256;
+constexpr const double MAX_RESERVE_DAYS = 36525e0;
 
 /* @brief Skip whitespace characters. Return the first substring the does not
  *        start with a ' ' character.
@@ -55,10 +56,11 @@ int dso::details::parse_iers_C0414(const char *c04fn,
 
   {
     /* if needed, resize the EOP table, interval is [start, end) */
-    int days =
+    const double days =
         std::ceil(end.diff<dso::DateTimeDifferenceType::FractionalDays>(start).days());
     eops.clear();
-    eops.reserve(days);
+    /* the file bounds the entries, however wide the interval */
+    eops.reserve(static_cast<int>(std::min(days, MAX_RESERVE_DAYS)));
   }
 
   char line[MAX_LINE_CHARS];
diff --git a/src/lib/eop/parse_iers_c0420.cpp b/src/lib/eop/parse_iers_c0420.cpp
index 4919316..f67f0e3 100644
--- a/src/lib/eop/parse_iers_c0420.cpp
+++ b/src/lib/eop/parse_iers_c0420.cpp
@@ -7,6 +7,7 @@
 
 namespace {
 constexpr const std::size_t MAX_LINE_CHARS = 256;
+constexpr const double MAX_RESERVE_DAYS = 36525e0;
 
 /* @brief Skip whitespace characters. Return the first substring the does not
  *        start with a ' ' character.
@@ -59,10 +60,11 @@ int dso::details::parse_iers_C0420(const char *c04fn,
 
   {
     /* if needed, resize the EOP table, interval is [start, end) */
-    int days = std::ceil(
+    const double days = std::ceil(
         end.diff<dso::DateTimeDifferenceType::FractionalDays>(start).days());
     eops.clear();
-    eops.reserve(days);
+    /* the file bounds the entries, however wide the interval */
+    eops.reserve(static_cast<int>(std::min(days, MAX_RESERVE_DAYS)));
   }
 
   char line[MAX_LINE_CHARS];
-- 
2.43.0


From f4ed82e2052b801a9f2c03404b8a86c6403ad58d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:57 +0000
Subject: [PATCH 16/87] fix: report EOP lines too short to hold a date

---
 src/lib/eop/parse_iers_c0414.cpp | 8 +++++++-
 src/lib/eop/parse_iers_c0420.cpp | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/lib/eop/parse_iers_c0414.cpp b/src/lib/eop/parse_iers_c0414.cpp
index 24af644..6a88fdb 100644
--- a/src/lib/eop/parse_iers_c0414.cpp
+++ b/src/lib/eop/parse_iers_c0414.cpp
@@ -6,6 +6,7 @@
 
 namespace {
 constexpr const std::size_t MAX_LINE_CHARS = 256;
+constexpr const int DATE_CHARS = 12;
 constexpr const double MAX_RESERVE_DAYS = 36525e0;
 
 /* @brief Skip whitespace characters. Return the first substring the does not
@@ -72,10 +73,15 @@ int dso::details::parse_iers_C0414(const char *c04fn,
     const char *cend = line + std::strlen(line);
     long imjd=0;
     if (line[0] && (*line != ' ' && *line != '#')) {
+      /* a record holds at least the date */
+      if (cend - line < DATE_CHARS) {
+        error = 1;
+        break;
+      }
       /* skip the data (YYYY MM DD) which is 12 chars length and get the mjd
        * (note that this is UTC)
        */
-      cstart = next_num(line + 12);
+      cstart = next_num(line + DATE_CHARS);
       auto fcr = std::from_chars(cstart, cend, imjd);
       if (fcr.ec != std::errc() || fcr.ptr == cstart)
         error = 1;
diff --git a/src/lib/eop/parse_iers_c0420.cpp b/src/lib/eop/parse_iers_c0420.cpp
index f67f0e3..e2b5c19 100644
--- a/src/lib/eop/parse_iers_c0420.cpp
+++ b/src/lib/eop/parse_iers_c0420.cpp
@@ -7,6 +7,7 @@
 
 namespace {
 constexpr const std::size_t MAX_LINE_CHARS = 256;
+constexpr const int DATE_CHARS = 12;
 constexpr const double MAX_RESERVE_DAYS = 36525e0;
 
 /* @brief Skip whitespace characters. Return the first substring the does not
@@ -75,10 +76,15 @@ int dso::details::parse_iers_C0420(const char *c04fn,
     const char *cstart;
     const char *cend = line + std::strlen(line);
     if (line[0] && (*line != ' ' && *line != '#')) {
+      /* a record holds at least the date */
+      if (cend - line < DATE_CHARS) {
+        error = 1;
+        break;
+      }
       /* skip the data (YYYY MM DD) which is 12 chars length and get the mjd
        * (note that this is UTC)
        */
-      cstart = next_num(line + 12);
+      cstart = next_num(line + DATE_CHARS);
       std::from_chars_result fcr;
 
       /* parse date -- made up or recorded hours (in day) and MJD */
-- 
2.43.0


From bdf621f2ced8109f48dc757c13305be5230159cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:57 +0000
Subject: [PATCH 17/87] fix: report a C04/20 record whose hour and MJD disagree

---
 src/lib/eop/parse_iers_c0420.cpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/lib/eop/parse_iers_c0420.cpp b/src/lib/eop/parse_iers_c0420.cpp
index e2b5c19..720abe5 100644
--- a/src/lib/eop/parse_iers_c0420.cpp
+++ b/src/lib/eop/parse_iers_c0420.cpp
@@ -3,11 +3,12 @@
 #include <cstdio>
 #include <cstring>
 #include <fstream>
-#include <cassert>
+#include <cmath>
 
 namespace {
 constexpr const std::size_t MAX_LINE_CHARS = 256;
 constexpr const int DATE_CHARS = 12;
+constexpr const double MAX_MJD = 1e7;
 constexpr const double MAX_RESERVE_DAYS = 36525e0;
 
 /* @brief Skip whitespace characters. Return the first substring the does not
@@ -114,10 +115,17 @@ int dso::details::parse_iers_C0420(const char *c04fn,
         /* split the real MJD to integral and fractional part, and verify */
         double imjd;
         double fdays = std::modf(mjd, &imjd);
-        assert(fdays == hours/24e0);
-        ct = dso::TwoPartDateUTC(
-            (int)imjd,
-            dso::FractionalSeconds{fdays * dso::SEC_PER_DAY});
+        /* MJD has two decimals; NaN fails the test */
+        if (!(std::abs(mjd) < MAX_MJD &&
+              std::abs(fdays - hours / 24e0) <= 0.005e0 + 1e-6)) {
+          fprintf(stderr,
+                  "[ERROR] Hours and MJD do not match in eop file %s "
+                  "(traceback: %s)\n",
+                  c04fn, __func__);
+          return 2;
+        }
+        ct = dso::TwoPartDateUTC((int)imjd,
+                                 dso::FractionalSeconds{hours * 3600e0});
       }
 
       /* UTC date to TT and ΔAT at this UTC */
-- 
2.43.0


From b08b8d44e467f70bb073444c35bf98a64d94f343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:17 +0000
Subject: [PATCH 18/87] fix: report over-long ICGEM header values instead of
 overflowing

---
 src/lib/icgem/icgemio_read_header.cpp | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/lib/icgem/icgemio_read_header.cpp b/src/lib/icgem/icgemio_read_header.cpp
index aebf6a8..a801d87 100644
--- a/src/lib/icgem/icgemio_read_header.cpp
+++ b/src/lib/icgem/icgemio_read_header.cpp
@@ -85,6 +85,22 @@ int match_header_keyword(const char *parameter, const char *line,
     return 0;
   }
 }
+
+/** Copy a header argument to a character array of size \p size, trimmed.
+ * Anything other than zero is returned if it does not fit.
+ */
+int copy_argument(char *to, std::size_t size, const char *arg,
+                  const char *parameter, const std::string &fn) noexcept {
+  if (std::strlen(arg) >= size) {
+    fprintf(stderr,
+            "[ERROR] Value for parameter %s is too long in icgem %s "
+            "(traceback: %s)\n",
+            parameter, fn.c_str(), __func__);
+    return 1;
+  }
+  right_trim(std::strcpy(to, arg));
+  return 0;
+}
 } /* anonymous namespace */
 
 /** @warning this function assumes that comment and header lines do not exceed
@@ -139,7 +155,7 @@ int dso::Icgem::parse_header(bool quiet_skip) noexcept {
                 "product_type", _filename.c_str(), __func__);
         error = 1;
       } else {
-        right_trim(std::strcpy(_product_type, arg));
+        error = copy_argument(_product_type, sizeof(_product_type), arg, "product_type", _filename);
       }
 
       /* check if this the 'modelname' field (mandatory keyword) */
@@ -151,7 +167,7 @@ int dso::Icgem::parse_header(bool quiet_skip) noexcept {
                 "modelname", _filename.c_str(), __func__);
         error = 1;
       } else {
-        right_trim(std::strcpy(_modelname, arg));
+        error = copy_argument(_modelname, sizeof(_modelname), arg, "modelname", _filename);
       }
 
       /* check if this the 'earth_gravity_constant' field (mandatory keyword) */
@@ -248,7 +264,7 @@ int dso::Icgem::parse_header(bool quiet_skip) noexcept {
                 "tide_system", _filename.c_str(), __func__);
         error = 1;
       } else {
-        right_trim(std::strcpy(_tide_system, arg));
+        error = copy_argument(_tide_system, sizeof(_tide_system), arg, "tide_system", _filename);
       }
 
       /* check if this the 'norm' field (optional keyword) */
@@ -260,7 +276,7 @@ int dso::Icgem::parse_header(bool quiet_skip) noexcept {
                 "norm", _filename.c_str(), __func__);
         error = 1;
       } else {
-        right_trim(std::strcpy(_norm, arg));
+        error = copy_argument(_norm, sizeof(_norm), arg, "norm", _filename);
       }
 
       /* check for format/version */
-- 
2.43.0


From a279d477ccf0a6db83603d13d078265c7155c2ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:41 +0000
Subject: [PATCH 19/87] fix: report incomplete ICGEM headers

---
 include/icgemio.hpp                   |  2 +-
 src/lib/icgem/icgemio_read_header.cpp | 38 ++++++++++++++++++++++-----
 2 files changed, 32 insertions(+), 8 deletions(-)

diff --git a/include/icgemio.hpp b/include/icgemio.hpp
index 3a18384..4982836 100644
--- a/include/icgemio.hpp
+++ b/include/icgemio.hpp
@@ -78,7 +78,7 @@ private:
    *   both "calibrated_and_formal" 
    * errors are included
    */
-  ErrorModel _errors;
+  ErrorModel _errors{ErrorModel::No};
   /** gravitational constant times mass of the earth [m^3s^-2] */
   double _earth_gravity_constant{0e0};
   /** reference radius of the spherical harmonic development [m] */
diff --git a/src/lib/icgem/icgemio_read_header.cpp b/src/lib/icgem/icgemio_read_header.cpp
index a801d87..71d1e49 100644
--- a/src/lib/icgem/icgemio_read_header.cpp
+++ b/src/lib/icgem/icgemio_read_header.cpp
@@ -1,5 +1,6 @@
 #include "icgemio.hpp"
 #include <cassert>
+#include <cctype>
 #include <charconv>
 #include <cstdio>
 #include <cstdlib>
@@ -86,6 +87,21 @@ int match_header_keyword(const char *parameter, const char *line,
   }
 }
 
+/** Resolve a number that spans a whole word; 0 is returned at success */
+template <typename T> int resolve_number(const char *arg, T &val) noexcept {
+  const auto res = std::from_chars(arg, arg + std::strlen(arg), val);
+  return !(res.ec == std::errc{} &&
+           (!*res.ptr || std::isspace(static_cast<unsigned char>(*res.ptr))));
+}
+
+/** Mandatory keywords without which coefficients are meaningless */
+enum : int {
+  has_earth_gravity_constant = 1,
+  has_radius = 2,
+  has_max_degree = 4,
+  has_all = 7
+};
+
 /** Copy a header argument to a character array of size \p size, trimmed.
  * Anything other than zero is returned if it does not fit.
  */
@@ -121,6 +137,7 @@ int dso::Icgem::parse_header(bool quiet_skip) noexcept {
   const char *arg;
   int counter = 0;
   int error = 0;
+  int found = 0;
 
   /* first off, skip the part between the begining of the file and the start
    * of the header. That is, find the line begining with the string:
@@ -172,6 +189,7 @@ int dso::Icgem::parse_header(bool quiet_skip) noexcept {
 
       /* check if this the 'earth_gravity_constant' field (mandatory keyword) */
     } else if (match_header_keyword("earth_gravity_constant", line, arg)) {
+      found |= has_earth_gravity_constant;
       if (!(*arg)) {
         fprintf(stderr,
                 "[ERROR] Failed parsing value for parameter %s in icgem "
@@ -179,9 +197,7 @@ int dso::Icgem::parse_header(bool quiet_skip) noexcept {
                 "earth_gravity_constant", _filename.c_str(), __func__);
         error = 1;
       } else {
-        if ((std::from_chars(arg, arg + std::strlen(arg),
-                             _earth_gravity_constant))
-                .ec != std::errc{}) {
+        if (resolve_number(arg, _earth_gravity_constant)) {
           fprintf(stderr,
                   "[ERROR] Failed parsing value for parameter %s in icgem "
                   "%s(traceback: %s)\n",
@@ -192,6 +208,7 @@ int dso::Icgem::parse_header(bool quiet_skip) noexcept {
 
       /* check if this the 'radius' field (mandatory keyword) */
     } else if (match_header_keyword("radius", line, arg)) {
+      found |= has_radius;
       if (!(*arg)) {
         fprintf(stderr,
                 "[ERROR] Failed parsing value for parameter %s in icgem "
@@ -199,8 +216,7 @@ int dso::Icgem::parse_header(bool quiet_skip) noexcept {
                 "radius", _filename.c_str(), __func__);
         error = 1;
       } else {
-        if ((std::from_chars(arg, arg + std::strlen(arg), _radius)).ec !=
-            std::errc{}) {
+        if (resolve_number(arg, _radius)) {
           fprintf(stderr,
                   "[ERROR] Failed parsing value for parameter %s in icgem "
                   "%s(traceback: %s)\n",
@@ -211,6 +227,7 @@ int dso::Icgem::parse_header(bool quiet_skip) noexcept {
 
       /* check if this the 'max_degree' field (mandatory keyword) */
     } else if (match_header_keyword("max_degree", line, arg)) {
+      found |= has_max_degree;
       if (!(*arg)) {
         fprintf(stderr,
                 "[ERROR] Failed parsing value for parameter %s in icgem "
@@ -218,8 +235,7 @@ int dso::Icgem::parse_header(bool quiet_skip) noexcept {
                 "max_degree", _filename.c_str(), __func__);
         error = 1;
       } else {
-        if ((std::from_chars(arg, arg + std::strlen(arg), _max_degree)).ec !=
-            std::errc{}) {
+        if (resolve_number(arg, _max_degree) || _max_degree < 0) {
           fprintf(stderr,
                   "[ERROR] Failed parsing value for parameter %s in icgem "
                   "%s(traceback: %s)\n",
@@ -324,6 +340,14 @@ int dso::Icgem::parse_header(bool quiet_skip) noexcept {
 
   } /* keep on parsing (header) lines ... */
 
+  if (found != has_all) {
+    fprintf(stderr,
+            "[ERROR] Missing mandatory header parameter(s) in icgem %s "
+            "(traceback: %s)\n",
+            _filename.c_str(), __func__);
+    return 1;
+  }
+
   data_section_pos = fin.tellg();
   return 0;
 }
-- 
2.43.0


From 54f95f04b3a6776e4d1945982e7de48f300fa46c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:06 +0000
Subject: [PATCH 20/87] fix: report malformed ICGEM data lines

---
 src/lib/icgem/icgemio_read_data_v1.cpp       |   2 +
 src/lib/icgem/icgemio_read_data_v2.cpp       |   2 +
 src/lib/icgem/resolve_igcem_data_line_v1.cpp |  89 ++++++++++------
 src/lib/icgem/resolve_igcem_data_line_v2.cpp | 104 ++++++++++++-------
 4 files changed, 126 insertions(+), 71 deletions(-)

diff --git a/src/lib/icgem/icgemio_read_data_v1.cpp b/src/lib/icgem/icgemio_read_data_v1.cpp
index 6bc8e01..6fb18d0 100644
--- a/src/lib/icgem/icgemio_read_data_v1.cpp
+++ b/src/lib/icgem/icgemio_read_data_v1.cpp
@@ -57,6 +57,8 @@ int dso::Icgem::parse_data_v1(int l, int k, const Icgem::Datetime &t,
    */
   while (fin.getline(line, max_data_line) && !error) {
     error += resolve_icgem_data_line_v1(line, err, entry);
+    if (error)
+      break;
     {
       double C=0e0,S=0e0;
       if (entry.degree <= n && entry.order <= m) {
diff --git a/src/lib/icgem/icgemio_read_data_v2.cpp b/src/lib/icgem/icgemio_read_data_v2.cpp
index ea10fbc..e4dd5a2 100644
--- a/src/lib/icgem/icgemio_read_data_v2.cpp
+++ b/src/lib/icgem/icgemio_read_data_v2.cpp
@@ -55,6 +55,8 @@ int dso::Icgem::parse_data_v2(int l, int k, const Icgem::Datetime &t,
   /* keep reading coefficients */
   while (fin.getline(line, max_data_line) && !error) {
     error += resolve_icgem_data_line_v2(line, err, entry);
+    if (error)
+      break;
     {
       int interval_ok = (t >= entry.t0 && t < entry.t1);
       if (interval_ok && entry.degree <= n && entry.order <= m) {
diff --git a/src/lib/icgem/resolve_igcem_data_line_v1.cpp b/src/lib/icgem/resolve_igcem_data_line_v1.cpp
index 8a99cc9..a6c37bf 100644
--- a/src/lib/icgem/resolve_igcem_data_line_v1.cpp
+++ b/src/lib/icgem/resolve_igcem_data_line_v1.cpp
@@ -1,4 +1,5 @@
 #include "icgemio.hpp"
+#include <cctype>
 #include <charconv>
 #include <cassert>
 
@@ -11,13 +12,24 @@ const char *skip_ws(const char *line) noexcept {
 
 const char *skip_cols(const char *line, int num_cols) noexcept {
   const char *str = skip_ws(line);
-  int cols_skipped = 0;
-  while (*str && *(str + 1) && (cols_skipped < num_cols)) {
-    if (*str != ' ' && *(str + 1) == ' ')
-      ++cols_skipped;
-    ++str;
+  for (int i = 0; i < num_cols; i++) {
+    while (*str && *str != ' ')
+      ++str;
+    str = skip_ws(str);
   }
-  return skip_ws(str);
+  return str;
+}
+
+/** true if a field ends here, i.e. nothing is left unresolved of it */
+bool field_end(const char *str) noexcept {
+  return !*str || std::isspace(static_cast<unsigned char>(*str));
+}
+
+/** true if only whitespace characters are left */
+bool line_end(const char *str) noexcept {
+  while (*str && field_end(str))
+    ++str;
+  return !*str;
 }
 
 /* translate a floating point number printed using FORTRAN's scientific 
@@ -76,27 +88,27 @@ int dso::resolve_icgem_data_line_v1(const char *line, dso::Icgem::ErrorModel er,
   if (!std::strncmp(line, "gfc ", 4)) {
     /* resolve degree */
     auto res = std::from_chars(skip_ws(c + 4), c + len, entry.degree);
-    if (res.ec != std::errc{})
+    if (res.ec != std::errc{} || !field_end(res.ptr))
       ++error;
     c = res.ptr;
     /* resolve order */
     res = std::from_chars(skip_ws(c), c + len, entry.order);
-    if (res.ec != std::errc{})
+    if (res.ec != std::errc{} || !field_end(res.ptr))
       ++error;
     c = res.ptr;
     /* resolve C(degree, order) */
     res = std::from_chars(skip_ws(c), c + len, entry.C);
-    if (res.ec != std::errc{})
+    if (res.ec != std::errc{} || !field_end(res.ptr))
       ++error;
     c = res.ptr;
     /* resolve S(degree, order) */
     res = std::from_chars(skip_ws(c), c + len, entry.S);
-    if (res.ec != std::errc{})
+    if (res.ec != std::errc{} || !field_end(res.ptr))
       ++error;
     /* assign entry data */
     entry.key = Icgem::DataEntryType::gfc;
 
-  } else if (!std::strncmp(line, "gfct", 4)) {
+  } else if (!std::strncmp(line, "gfct ", 5)) {
     /* Time variable spherical harmonic coefficients, according to the
      * respective formulae.
      *
@@ -105,34 +117,35 @@ int dso::resolve_icgem_data_line_v1(const char *line, dso::Icgem::ErrorModel er,
      */
     /* resolve degree */
     auto res = std::from_chars(skip_ws(c + 4), c + len, entry.degree);
-    if (res.ec != std::errc{})
+    if (res.ec != std::errc{} || !field_end(res.ptr))
       ++error;
     c = res.ptr;
     /* resolve order */
     res = std::from_chars(skip_ws(c), c + len, entry.order);
-    if (res.ec != std::errc{})
+    if (res.ec != std::errc{} || !field_end(res.ptr))
       ++error;
     c = res.ptr;
     /* resolve C(degree, order) */
     res = std::from_chars(skip_ws(c), c + len, entry.C);
-    if (res.ec != std::errc{})
+    if (res.ec != std::errc{} || !field_end(res.ptr))
       ++error;
     c = res.ptr;
     /* resolve S(degree, order) */
     res = std::from_chars(skip_ws(c), c + len, entry.S);
-    if (res.ec != std::errc{})
+    if (res.ec != std::errc{} || !field_end(res.ptr))
       ++error;
     c = res.ptr;
     /* skip error-related cols */
     c = skip_cols(c, err_cols);
     /* resolve t at pre-last column */
     const char *ptr;
-    if (resolve_icgem_data_date_v1(skip_ws(c), entry.t0, ptr))
+    if (resolve_icgem_data_date_v1(skip_ws(c), entry.t0, ptr) ||
+        !line_end(ptr))
       ++error;
     /* set key */
     entry.key = Icgem::DataEntryType::gfct;
 
-  } else if ((!std::strncmp(line, "trnd", 4)) || (!std::strncmp(line, "dot ", 4))) {
+  } else if ((!std::strncmp(line, "trnd ", 5)) || (!std::strncmp(line, "dot ", 4))) {
     /* Time variable spherical harmonic coefficients, according to the
      * respective formulae.
      *
@@ -140,28 +153,28 @@ int dso::resolve_icgem_data_line_v1(const char *line, dso::Icgem::ErrorModel er,
      */
     /* resolve degree */
     auto res = std::from_chars(skip_ws(c + 4), c + len, entry.degree);
-    if (res.ec != std::errc{})
+    if (res.ec != std::errc{} || !field_end(res.ptr))
       ++error;
     c = res.ptr;
     /* resolve order */
     res = std::from_chars(skip_ws(c), c + len, entry.order);
-    if (res.ec != std::errc{})
+    if (res.ec != std::errc{} || !field_end(res.ptr))
       ++error;
     c = res.ptr;
     /* resolve C(degree, order) */
     res = std::from_chars(skip_ws(c), c + len, entry.C);
-    if (res.ec != std::errc{})
+    if (res.ec != std::errc{} || !field_end(res.ptr))
       ++error;
     c = res.ptr;
     /* resolve S(degree, order) */
     res = std::from_chars(skip_ws(c), c + len, entry.S);
-    if (res.ec != std::errc{})
+    if (res.ec != std::errc{} || !field_end(res.ptr))
       ++error;
     c = res.ptr;
     /* set key */
     entry.key = Icgem::DataEntryType::trnd;
 
-  } else if (!std::strncmp(line, "asin", 4)) {
+  } else if (!std::strncmp(line, "asin ", 5)) {
     /* Time variable spherical harmonic coefficients, according to the
      * respective formulae.
      *
@@ -172,34 +185,34 @@ int dso::resolve_icgem_data_line_v1(const char *line, dso::Icgem::ErrorModel er,
      */
     /* resolve degree */
     auto res = std::from_chars(skip_ws(c + 4), c + len, entry.degree);
-    if (res.ec != std::errc{})
+    if (res.ec != std::errc{} || !field_end(res.ptr))
       ++error;
     c = res.ptr;
     /* resolve order */
     res = std::from_chars(skip_ws(c), c + len, entry.order);
-    if (res.ec != std::errc{})
+    if (res.ec != std::errc{} || !field_end(res.ptr))
       ++error;
     c = res.ptr;
     /* resolve C(degree, order) */
     res = std::from_chars(skip_ws(c), c + len, entry.C);
-    if (res.ec != std::errc{})
+    if (res.ec != std::errc{} || !field_end(res.ptr))
       ++error;
     c = res.ptr;
     /* resolve S(degree, order) */
     res = std::from_chars(skip_ws(c), c + len, entry.S);
-    if (res.ec != std::errc{})
+    if (res.ec != std::errc{} || !field_end(res.ptr))
       ++error;
     c = res.ptr;
     /* skip error-related cols */
     c = skip_cols(c, err_cols);
     /* resolve period */
     res = std::from_chars(skip_ws(c), c + len, entry.period);
-    if (res.ec != std::errc{})
+    if (res.ec != std::errc{} || !line_end(res.ptr))
       ++error;
     /* set key */
     entry.key = Icgem::DataEntryType::asin;
 
-  } else if (!std::strncmp(line, "acos", 4)) {
+  } else if (!std::strncmp(line, "acos ", 5)) {
     /* Time variable spherical harmonic coefficients, according to the
      * respective formulae.
      *
@@ -210,29 +223,29 @@ int dso::resolve_icgem_data_line_v1(const char *line, dso::Icgem::ErrorModel er,
      */
     /* resolve degree */
     auto res = std::from_chars(skip_ws(c + 4), c + len, entry.degree);
-    if (res.ec != std::errc{})
+    if (res.ec != std::errc{} || !field_end(res.ptr))
       ++error;
     c = res.ptr;
     /* resolve order */
     res = std::from_chars(skip_ws(c), c + len, entry.order);
-    if (res.ec != std::errc{})
+    if (res.ec != std::errc{} || !field_end(res.ptr))
       ++error;
     c = res.ptr;
     /* resolve C(degree, order) */
     res = std::from_chars(skip_ws(c), c + len, entry.C);
-    if (res.ec != std::errc{})
+    if (res.ec != std::errc{} || !field_end(res.ptr))
       ++error;
     c = res.ptr;
     /* resolve S(degree, order) */
     res = std::from_chars(skip_ws(c), c + len, entry.S);
-    if (res.ec != std::errc{})
+    if (res.ec != std::errc{} || !field_end(res.ptr))
       ++error;
     c = res.ptr;
     /* skip error-related cols */
     c = skip_cols(c, err_cols);
     /* resolve period */
     res = std::from_chars(skip_ws(c), c + len, entry.period);
-    if (res.ec != std::errc{})
+    if (res.ec != std::errc{} || !line_end(res.ptr))
       ++error;
     entry.key = Icgem::DataEntryType::acos;
 
@@ -244,5 +257,15 @@ int dso::resolve_icgem_data_line_v1(const char *line, dso::Icgem::ErrorModel er,
     ++error;
   }
 
+  /* only degrees and orders of a lower triangle exist */
+  if (!error &&
+      (entry.order < 0 || entry.degree < 0 || entry.order > entry.degree)) {
+    fprintf(stderr,
+            "[ERROR] Invalid degree/order in the ICGEM file! line [%s], "
+            "(traceback: %s)\n",
+            line, __func__);
+    ++error;
+  }
+
   return error;
 }
diff --git a/src/lib/icgem/resolve_igcem_data_line_v2.cpp b/src/lib/icgem/resolve_igcem_data_line_v2.cpp
index 03367bb..7e88606 100644
--- a/src/lib/icgem/resolve_igcem_data_line_v2.cpp
+++ b/src/lib/icgem/resolve_igcem_data_line_v2.cpp
@@ -1,4 +1,5 @@
 #include "icgemio.hpp"
+#include <cctype>
 #include <charconv>
 
 namespace {
@@ -10,13 +11,24 @@ const char *skip_ws(const char *line) noexcept {
 
 const char *skip_cols(const char *line, int num_cols) noexcept {
   const char *str = skip_ws(line);
-  int cols_skipped = 0;
-  while (*str && *(str + 1) && (cols_skipped < num_cols)) {
-    if (*str != ' ' && *(str + 1) == ' ')
-      ++cols_skipped;
-    ++str;
+  for (int i = 0; i < num_cols; i++) {
+    while (*str && *str != ' ')
+      ++str;
+    str = skip_ws(str);
   }
-  return skip_ws(str);
+  return str;
+}
+
+/** true if a field ends here, i.e. nothing is left unresolved of it */
+bool field_end(const char *str) noexcept {
+  return !*str || std::isspace(static_cast<unsigned char>(*str));
+}
+
+/** true if only whitespace characters are left */
+bool line_end(const char *str) noexcept {
+  while (*str && field_end(str))
+    ++str;
+  return !*str;
 }
 } /* anonymous namespace */
 
@@ -46,22 +58,22 @@ int dso::resolve_icgem_data_line_v2(const char *line, dso::Icgem::ErrorModel er,
   if (!std::strncmp(line, "gfc ", 4)) {
     /* resolve degree */
     auto res = std::from_chars(skip_ws(c + 4), line + len, entry.degree);
-    if (res.ec != std::errc{})
+    if (res.ec != std::errc{} || !field_end(res.ptr))
       ++error;
     c = res.ptr;
     /* resolve order */
     res = std::from_chars(skip_ws(c), line + len, entry.order);
-    if (res.ec != std::errc{})
+    if (res.ec != std::errc{} || !field_end(res.ptr))
       ++error;
     c = res.ptr;
     /* resolve C(degree, order) */
     res = std::from_chars(skip_ws(c), line + len, entry.C);
-    if (res.ec != std::errc{})
+    if (res.ec != std::errc{} || !field_end(res.ptr))
       ++error;
     c = res.ptr;
     /* resolve S(degree, order) */
     res = std::from_chars(skip_ws(c), line + len, entry.S);
-    if (res.ec != std::errc{})
+    if (res.ec != std::errc{} || !field_end(res.ptr))
       ++error;
     /* assign entry data */
     entry.key = Icgem::DataEntryType::gfc;
@@ -69,7 +81,7 @@ int dso::resolve_icgem_data_line_v2(const char *line, dso::Icgem::ErrorModel er,
     entry.t0 = Icgem::Datetime::min();
     entry.t1 = Icgem::Datetime::max();
 
-  } else if (!std::strncmp(line, "gfct", 4)) {
+  } else if (!std::strncmp(line, "gfct ", 5)) {
     /* Time variable spherical harmonic coefficients, according to the
      * respective formulae.
      *
@@ -79,22 +91,22 @@ int dso::resolve_icgem_data_line_v2(const char *line, dso::Icgem::ErrorModel er,
      */
     /* resolve degree */
     auto res = std::from_chars(skip_ws(c + 4), line + len, entry.degree);
-    if (res.ec != std::errc{})
+    if (res.ec != std::errc{} || !field_end(res.ptr))
       ++error;
     c = res.ptr;
     /* resolve order */
     res = std::from_chars(skip_ws(c), line + len, entry.order);
-    if (res.ec != std::errc{})
+    if (res.ec != std::errc{} || !field_end(res.ptr))
       ++error;
     c = res.ptr;
     /* resolve C(degree, order) */
     res = std::from_chars(skip_ws(c), line + len, entry.C);
-    if (res.ec != std::errc{})
+    if (res.ec != std::errc{} || !field_end(res.ptr))
       ++error;
     c = res.ptr;
     /* resolve S(degree, order) */
     res = std::from_chars(skip_ws(c), line + len, entry.S);
-    if (res.ec != std::errc{})
+    if (res.ec != std::errc{} || !field_end(res.ptr))
       ++error;
     c = res.ptr;
     /* skip error-related cols */
@@ -105,11 +117,12 @@ int dso::resolve_icgem_data_line_v2(const char *line, dso::Icgem::ErrorModel er,
       ++error;
     /* resolve t1 at last column */
     if (!error)
-      error += resolve_icgem_data_date_v2(skip_ws(ptr), entry.t1, ptr);
+      error += resolve_icgem_data_date_v2(skip_ws(ptr), entry.t1, ptr) ||
+               !line_end(ptr);
     /* set key */
     entry.key = Icgem::DataEntryType::gfct;
 
-  } else if (!std::strncmp(line, "trnd", 4)) {
+  } else if (!std::strncmp(line, "trnd ", 5)) {
     /* Time variable spherical harmonic coefficients, according to the
      * respective formulae.
      *
@@ -117,22 +130,22 @@ int dso::resolve_icgem_data_line_v2(const char *line, dso::Icgem::ErrorModel er,
      */
     /* resolve degree */
     auto res = std::from_chars(skip_ws(c + 4), line + len, entry.degree);
-    if (res.ec != std::errc{})
+    if (res.ec != std::errc{} || !field_end(res.ptr))
       ++error;
     c = res.ptr;
     /* resolve order */
     res = std::from_chars(skip_ws(c), line + len, entry.order);
-    if (res.ec != std::errc{})
+    if (res.ec != std::errc{} || !field_end(res.ptr))
       ++error;
     c = res.ptr;
     /* resolve C(degree, order) */
     res = std::from_chars(skip_ws(c), line + len, entry.C);
-    if (res.ec != std::errc{})
+    if (res.ec != std::errc{} || !field_end(res.ptr))
       ++error;
     c = res.ptr;
     /* resolve S(degree, order) */
     res = std::from_chars(skip_ws(c), line + len, entry.S);
-    if (res.ec != std::errc{})
+    if (res.ec != std::errc{} || !field_end(res.ptr))
       ++error;
     c = res.ptr;
     /* skip error-related cols */
@@ -143,11 +156,12 @@ int dso::resolve_icgem_data_line_v2(const char *line, dso::Icgem::ErrorModel er,
       ++error;
     /* resolve t1 at last column */
     if (!error)
-      error += resolve_icgem_data_date_v2(skip_ws(ptr), entry.t1, ptr);
+      error += resolve_icgem_data_date_v2(skip_ws(ptr), entry.t1, ptr) ||
+               !line_end(ptr);
     /* set key */
     entry.key = Icgem::DataEntryType::trnd;
 
-  } else if (!std::strncmp(line, "asin", 4)) {
+  } else if (!std::strncmp(line, "asin ", 5)) {
     /* Time variable spherical harmonic coefficients, according to the
      * respective formulae.
      *
@@ -158,22 +172,22 @@ int dso::resolve_icgem_data_line_v2(const char *line, dso::Icgem::ErrorModel er,
      */
     /* resolve degree */
     auto res = std::from_chars(skip_ws(c + 4), line + len, entry.degree);
-    if (res.ec != std::errc{})
+    if (res.ec != std::errc{} || !field_end(res.ptr))
       ++error;
     c = res.ptr;
     /* resolve order */
     res = std::from_chars(skip_ws(c), line + len, entry.order);
-    if (res.ec != std::errc{})
+    if (res.ec != std::errc{} || !field_end(res.ptr))
       ++error;
     c = res.ptr;
     /* resolve C(degree, order) */
     res = std::from_chars(skip_ws(c), line + len, entry.C);
-    if (res.ec != std::errc{})
+    if (res.ec != std::errc{} || !field_end(res.ptr))
       ++error;
     c = res.ptr;
     /* resolve S(degree, order) */
     res = std::from_chars(skip_ws(c), line + len, entry.S);
-    if (res.ec != std::errc{})
+    if (res.ec != std::errc{} || !field_end(res.ptr))
       ++error;
     c = res.ptr;
     /* skip error-related cols */
@@ -186,13 +200,15 @@ int dso::resolve_icgem_data_line_v2(const char *line, dso::Icgem::ErrorModel er,
     if (!error)
       error += resolve_icgem_data_date_v2(skip_ws(ptr), entry.t1, ptr);
     /* resolve period */
-    res = std::from_chars(skip_ws(ptr), line + len, entry.period);
-    if (res.ec != std::errc{})
-      ++error;
+    if (!error) {
+      res = std::from_chars(skip_ws(ptr), line + len, entry.period);
+      if (res.ec != std::errc{} || !line_end(res.ptr))
+        ++error;
+    }
     /* set key */
     entry.key = Icgem::DataEntryType::asin;
 
-  } else if (!std::strncmp(line, "acos", 4)) {
+  } else if (!std::strncmp(line, "acos ", 5)) {
     /* Time variable spherical harmonic coefficients, according to the
      * respective formulae.
      *
@@ -203,22 +219,22 @@ int dso::resolve_icgem_data_line_v2(const char *line, dso::Icgem::ErrorModel er,
      */
     /* resolve degree */
     auto res = std::from_chars(skip_ws(c + 4), line + len, entry.degree);
-    if (res.ec != std::errc{})
+    if (res.ec != std::errc{} || !field_end(res.ptr))
       ++error;
     c = res.ptr;
     /* resolve order */
     res = std::from_chars(skip_ws(c), line + len, entry.order);
-    if (res.ec != std::errc{})
+    if (res.ec != std::errc{} || !field_end(res.ptr))
       ++error;
     c = res.ptr;
     /* resolve C(degree, order) */
     res = std::from_chars(skip_ws(c), line + len, entry.C);
-    if (res.ec != std::errc{})
+    if (res.ec != std::errc{} || !field_end(res.ptr))
       ++error;
     c = res.ptr;
     /* resolve S(degree, order) */
     res = std::from_chars(skip_ws(c), line + len, entry.S);
-    if (res.ec != std::errc{})
+    if (res.ec != std::errc{} || !field_end(res.ptr))
       ++error;
     c = res.ptr;
     /* skip error-related cols */
@@ -231,9 +247,11 @@ int dso::resolve_icgem_data_line_v2(const char *line, dso::Icgem::ErrorModel er,
     if (!error)
       error += resolve_icgem_data_date_v2(skip_ws(ptr), entry.t1, ptr);
     /* resolve period */
-    res = std::from_chars(skip_ws(ptr), line + len, entry.period);
-    if (res.ec != std::errc{})
-      ++error;
+    if (!error) {
+      res = std::from_chars(skip_ws(ptr), line + len, entry.period);
+      if (res.ec != std::errc{} || !line_end(res.ptr))
+        ++error;
+    }
     entry.key = Icgem::DataEntryType::acos;
 
   } else {
@@ -244,5 +262,15 @@ int dso::resolve_icgem_data_line_v2(const char *line, dso::Icgem::ErrorModel er,
     ++error;
   }
 
+  /* only degrees and orders of a lower triangle exist */
+  if (!error &&
+      (entry.order < 0 || entry.degree < 0 || entry.order > entry.degree)) {
+    fprintf(stderr,
+            "[ERROR] Invalid degree/order in the ICGEM file! line [%s], "
+            "(traceback: %s)\n",
+            line, __func__);
+    ++error;
+  }
+
   return error;
 }
-- 
2.43.0


From 82dedfa2ff19a7dd58fc72da04bc82633f7d8803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:06 +0000
Subject: [PATCH 21/87] fix: report invalid ICGEM dates

---
 src/lib/icgem/resolve_igcem_data_date_v1.cpp | 13 ++++++++++---
 src/lib/icgem/resolve_igcem_data_date_v2.cpp | 19 ++++++++++++++++---
 2 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/src/lib/icgem/resolve_igcem_data_date_v1.cpp b/src/lib/icgem/resolve_igcem_data_date_v1.cpp
index d1e3b10..1169f35 100644
--- a/src/lib/icgem/resolve_igcem_data_date_v1.cpp
+++ b/src/lib/icgem/resolve_igcem_data_date_v1.cpp
@@ -1,5 +1,6 @@
 #include "icgemio.hpp"
 #include <charconv>
+#include <exception>
 
 int dso::resolve_icgem_data_date_v1(const char *line, dso::Icgem::Datetime &t,
                                     const char *&ptr) noexcept {
@@ -31,9 +32,15 @@ int dso::resolve_icgem_data_date_v1(const char *line, dso::Icgem::Datetime &t,
   }
 
   /* construct datetime */
-  t = dso::Icgem::Datetime(dso::year(ints[0]), dso::month(ints[1]),
-                           dso::day_of_month(ints[2]), dso::hours(0),
-                           dso::minutes(0), dso::nanoseconds(0));
+  try {
+    t = dso::Icgem::Datetime(dso::year(ints[0]), dso::month(ints[1]),
+                             dso::day_of_month(ints[2]), dso::hours(0),
+                             dso::minutes(0), dso::nanoseconds(0));
+  } catch (const std::exception &) {
+    fprintf(stderr, "[ERROR] Invalid ICGEM v1 date: %.8s (traceback: %s)\n",
+            line, __func__);
+    return 1;
+  }
 
   /* set pointer to first, unresolved char */
   ptr = res.ptr;
diff --git a/src/lib/icgem/resolve_igcem_data_date_v2.cpp b/src/lib/icgem/resolve_igcem_data_date_v2.cpp
index 6a96919..d6c8705 100644
--- a/src/lib/icgem/resolve_igcem_data_date_v2.cpp
+++ b/src/lib/icgem/resolve_igcem_data_date_v2.cpp
@@ -1,5 +1,6 @@
 #include "icgemio.hpp"
 #include <charconv>
+#include <exception>
 
 int dso::resolve_icgem_data_date_v2(const char *line, dso::Icgem::Datetime &t,
                                     const char *&ptr) noexcept {
@@ -22,6 +23,12 @@ int dso::resolve_icgem_data_date_v2(const char *line, dso::Icgem::Datetime &t,
   if (res.ec != std::errc{})
     ++error;
   /* one more char to skip the dot */
+  if (*res.ptr != '.') {
+    fprintf(stderr,
+            "[ERROR] Failed resolving ICGEM v2 date: %.13s (traceback: %s)\n",
+            line, __func__);
+    return 1;
+  }
   str = res.ptr + 1;
 
   res = std::from_chars(str, str + 2, ints[3]);
@@ -42,9 +49,15 @@ int dso::resolve_icgem_data_date_v2(const char *line, dso::Icgem::Datetime &t,
   }
 
   /* construct datetime */
-  t = dso::Icgem::Datetime(dso::year(ints[0]), dso::month(ints[1]),
-                           dso::day_of_month(ints[2]), dso::hours(ints[3]),
-                           dso::minutes(ints[4]), dso::nanoseconds(0));
+  try {
+    t = dso::Icgem::Datetime(dso::year(ints[0]), dso::month(ints[1]),
+                             dso::day_of_month(ints[2]), dso::hours(ints[3]),
+                             dso::minutes(ints[4]), dso::nanoseconds(0));
+  } catch (const std::exception &) {
+    fprintf(stderr, "[ERROR] Invalid ICGEM v2 date: %.13s (traceback: %s)\n",
+            line, __func__);
+    return 1;
+  }
 
   /* set pointer to first, unresolved char */
   ptr = res.ptr;
-- 
2.43.0


From a683111ca187424dbb6cc02c61a7230fc96b146a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:06 +0000
Subject: [PATCH 22/87] fix: report ICGEM v1 terms that lack a reference epoch

---
 src/lib/icgem/icgemio_read_data_v1.cpp       | 17 ++++-------------
 src/lib/icgem/resolve_igcem_data_line_v1.cpp |  2 +-
 2 files changed, 5 insertions(+), 14 deletions(-)

diff --git a/src/lib/icgem/icgemio_read_data_v1.cpp b/src/lib/icgem/icgemio_read_data_v1.cpp
index 6fb18d0..306d61f 100644
--- a/src/lib/icgem/icgemio_read_data_v1.cpp
+++ b/src/lib/icgem/icgemio_read_data_v1.cpp
@@ -1,6 +1,5 @@
 #include "geodesy/core/geoconst.hpp"
 #include "icgemio.hpp"
-#include <cassert>
 #include <charconv>
 
 constexpr const int max_data_line = 256;
@@ -83,29 +82,21 @@ int dso::Icgem::parse_data_v1(int l, int k, const Icgem::Datetime &t,
           case DataEntryType::trnd:
             C = entry.C * dt;
             S = entry.S * dt;
-            assert(current_n == entry.degree);
-            assert(current_m == entry.order);
+            error += (current_n != entry.degree || current_m != entry.order);
             break;
           case DataEntryType::asin:
             C = entry.C * std::sin((D2PI / entry.period) * dt);
             S = entry.S * std::sin((D2PI / entry.period) * dt);
-            assert(current_n == entry.degree);
-            assert(current_m == entry.order);
+            error += (current_n != entry.degree || current_m != entry.order);
             break;
           case DataEntryType::acos:
             C = entry.C * std::cos((D2PI / entry.period) * dt);
             S = entry.S * std::cos((D2PI / entry.period) * dt);
-            assert(current_n == entry.degree);
-            assert(current_m == entry.order);
+            error += (current_n != entry.degree || current_m != entry.order);
             break;
           default:
-            /* just use current_[nm] to silence compiler warnings on set but 
-             * not used variables. setting error to this value, is nothing of 
-             * use.
-             */
-            error += (current_n + current_m);
             /* should never reach this point */
-            assert(1==0);
+            ++error;
         }
         coeffs.C(entry.degree, entry.order) += C;
         coeffs.S(entry.degree, entry.order) += S;
diff --git a/src/lib/icgem/resolve_igcem_data_line_v1.cpp b/src/lib/icgem/resolve_igcem_data_line_v1.cpp
index a6c37bf..3d43f9f 100644
--- a/src/lib/icgem/resolve_igcem_data_line_v1.cpp
+++ b/src/lib/icgem/resolve_igcem_data_line_v1.cpp
@@ -41,7 +41,7 @@ bool line_end(const char *str) noexcept {
  *  to it.
  */
 char *for2cpp_format(const char *line, int len, char *buf) noexcept {
-  assert(len < 256);
+  assert(len <= 256);
   std::memcpy(buf, line, len * sizeof(char));
   int i = 1;
   while (i < len) {
-- 
2.43.0


From a9d4c8d1589e8ec53b84979e1f752fa96c4a70c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:46 +0000
Subject: [PATCH 23/87] fix: report partly readable fields of EOP records

---
 src/lib/eop/parse_iers_c0414.cpp | 12 ++++++++++--
 src/lib/eop/parse_iers_c0420.cpp | 15 ++++++++++++---
 2 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/lib/eop/parse_iers_c0414.cpp b/src/lib/eop/parse_iers_c0414.cpp
index 6a88fdb..bda4813 100644
--- a/src/lib/eop/parse_iers_c0414.cpp
+++ b/src/lib/eop/parse_iers_c0414.cpp
@@ -1,4 +1,5 @@
 #include "eop.hpp"
+#include <cctype>
 #include <charconv>
 #include <cstdio>
 #include <cstring>
@@ -18,6 +19,11 @@ const char *next_num(const char *line) noexcept {
     ++ptr;
   return ptr;
 }
+
+/* @brief True if a field ends here, i.e. nothing is left unresolved of it */
+bool field_end(const char *ptr) noexcept {
+  return !*ptr || std::isspace(static_cast<unsigned char>(*ptr));
+}
 } /* unnamed namespace */
 
 /* Example : https://datacenter.iers.org/data/224/eopc04_14_IAU2000.62-now.txt
@@ -83,7 +89,8 @@ int dso::details::parse_iers_C0414(const char *c04fn,
        */
       cstart = next_num(line + DATE_CHARS);
       auto fcr = std::from_chars(cstart, cend, imjd);
-      if (fcr.ec != std::errc() || fcr.ptr == cstart)
+      if (fcr.ec != std::errc() || fcr.ptr == cstart ||
+            !field_end(fcr.ptr))
         error = 1;
 
       /* integral part of current MJD (UTC) */
@@ -103,7 +110,8 @@ int dso::details::parse_iers_C0414(const char *c04fn,
         for (int i = 0; i < 6; i++) {
           cstart = next_num(fcr.ptr);
           fcr = std::from_chars(cstart, cend, data[i]);
-          if (fcr.ec != std::errc() || fcr.ptr == cstart) {
+          if (fcr.ec != std::errc() || fcr.ptr == cstart ||
+            !field_end(fcr.ptr)) {
             ++error;
           }
         }
diff --git a/src/lib/eop/parse_iers_c0420.cpp b/src/lib/eop/parse_iers_c0420.cpp
index 720abe5..7828cb5 100644
--- a/src/lib/eop/parse_iers_c0420.cpp
+++ b/src/lib/eop/parse_iers_c0420.cpp
@@ -1,4 +1,5 @@
 #include "eop.hpp"
+#include <cctype>
 #include <charconv>
 #include <cstdio>
 #include <cstring>
@@ -20,6 +21,11 @@ const char *next_num(const char *line) noexcept {
     ++ptr;
   return ptr;
 }
+
+/* @brief True if a field ends here, i.e. nothing is left unresolved of it */
+bool field_end(const char *ptr) noexcept {
+  return !*ptr || std::isspace(static_cast<unsigned char>(*ptr));
+}
 } /* unnamed namespace */
 
 /*
@@ -93,7 +99,8 @@ int dso::details::parse_iers_C0420(const char *c04fn,
       { /* we have to read in (integer) hours */
         int hours;
         fcr = std::from_chars(cstart, cend, hours);
-        if (fcr.ec != std::errc() || fcr.ptr == cstart) {
+        if (fcr.ec != std::errc() || fcr.ptr == cstart ||
+            !field_end(fcr.ptr)) {
           fprintf(
               stderr,
               "[ERROR] Failed reading hours from eop file %s (traceback: %s)\n",
@@ -104,7 +111,8 @@ int dso::details::parse_iers_C0420(const char *c04fn,
         /* read real MJD */
         double mjd;
         fcr = std::from_chars(cstart, cend, mjd);
-        if (fcr.ec != std::errc() || fcr.ptr == cstart) {
+        if (fcr.ec != std::errc() || fcr.ptr == cstart ||
+            !field_end(fcr.ptr)) {
           fprintf(
               stderr,
               "[ERROR] Failed reading MJD from eop file %s (traceback: %s)\n",
@@ -142,7 +150,8 @@ int dso::details::parse_iers_C0420(const char *c04fn,
         for (int i = 0; i < 8; i++) {
           cstart = next_num(fcr.ptr);
           fcr = std::from_chars(cstart, cend, data[i]);
-          if (fcr.ec != std::errc() || fcr.ptr == cstart) {
+          if (fcr.ec != std::errc() || fcr.ptr == cstart ||
+            !field_end(fcr.ptr)) {
             ++error;
           }
         }
-- 
2.43.0


From d967743252e220f2b9bb0e0400964e062932f113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:55 +0000
Subject: [PATCH 24/87] fix: report ICGEM dates with missing digits

---
 src/lib/icgem/resolve_igcem_data_date_v1.cpp |  6 +++---
 src/lib/icgem/resolve_igcem_data_date_v2.cpp | 10 +++++-----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/lib/icgem/resolve_igcem_data_date_v1.cpp b/src/lib/icgem/resolve_igcem_data_date_v1.cpp
index 1169f35..6b21658 100644
--- a/src/lib/icgem/resolve_igcem_data_date_v1.cpp
+++ b/src/lib/icgem/resolve_igcem_data_date_v1.cpp
@@ -10,17 +10,17 @@ int dso::resolve_icgem_data_date_v1(const char *line, dso::Icgem::Datetime &t,
 
   /* Format: yyyymmdd */
   auto res = std::from_chars(str, str + 4, ints[0]);
-  if (res.ec != std::errc{})
+  if (res.ec != std::errc{} || res.ptr != str + 4)
     ++error;
   str = res.ptr;
 
   res = std::from_chars(str, str + 2, ints[1]);
-  if (res.ec != std::errc{})
+  if (res.ec != std::errc{} || res.ptr != str + 2)
     ++error;
   str = res.ptr;
 
   res = std::from_chars(str, str + 2, ints[2]);
-  if (res.ec != std::errc{})
+  if (res.ec != std::errc{} || res.ptr != str + 2)
     ++error;
 
   /* check for error(s) */
diff --git a/src/lib/icgem/resolve_igcem_data_date_v2.cpp b/src/lib/icgem/resolve_igcem_data_date_v2.cpp
index d6c8705..bf0df36 100644
--- a/src/lib/icgem/resolve_igcem_data_date_v2.cpp
+++ b/src/lib/icgem/resolve_igcem_data_date_v2.cpp
@@ -10,17 +10,17 @@ int dso::resolve_icgem_data_date_v2(const char *line, dso::Icgem::Datetime &t,
 
   /* Format: yyyymmdd.hhmm */
   auto res = std::from_chars(str, str + 4, ints[0]);
-  if (res.ec != std::errc{})
+  if (res.ec != std::errc{} || res.ptr != str + 4)
     ++error;
   str = res.ptr;
 
   res = std::from_chars(str, str + 2, ints[1]);
-  if (res.ec != std::errc{})
+  if (res.ec != std::errc{} || res.ptr != str + 2)
     ++error;
   str = res.ptr;
 
   res = std::from_chars(str, str + 2, ints[2]);
-  if (res.ec != std::errc{})
+  if (res.ec != std::errc{} || res.ptr != str + 2)
     ++error;
   /* one more char to skip the dot */
   if (*res.ptr != '.') {
@@ -32,12 +32,12 @@ int dso::resolve_icgem_data_date_v2(const char *line, dso::Icgem::Datetime &t,
   str = res.ptr + 1;
 
   res = std::from_chars(str, str + 2, ints[3]);
-  if (res.ec != std::errc{})
+  if (res.ec != std::errc{} || res.ptr != str + 2)
     ++error;
   str = res.ptr;
 
   res = std::from_chars(str, str + 2, ints[4]);
-  if (res.ec != std::errc{})
+  if (res.ec != std::errc{} || res.ptr != str + 2)
     ++error;
 
   /* check for error(s) */
-- 
2.43.0


From 7aab571ea0bbdf9695a3abe7dafaf3a64bf34d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:13 +0000
Subject: [PATCH 25/87] fix: keep AOD1B header strings inside their fields

---
 src/lib/aod1b/aod1b_read_header.cpp | 75 +++++++++++++++--------------
 1 file changed, 39 insertions(+), 36 deletions(-)

diff --git a/src/lib/aod1b/aod1b_read_header.cpp b/src/lib/aod1b/aod1b_read_header.cpp
index 813c261..0b89c1a 100644
--- a/src/lib/aod1b/aod1b_read_header.cpp
+++ b/src/lib/aod1b/aod1b_read_header.cpp
@@ -7,30 +7,45 @@
 #include <cstring>
 
 namespace {
+/* value of a header line, i.e. what follows the first ':' at or after line.
+ * If there is no ':', points at the end of the line (an empty value) and the
+ * second version returns a negative size.
+ */
 const char *header_field(const char *line) noexcept {
   const char *c = line;
   while (*c && *c != ':')
     ++c;
-  c = c + 1;
+  if (*c)
+    ++c;
   while (*c && *c == ' ')
     ++c;
   return c;
 }
 const char *header_field(const char *line, int &sz) noexcept {
-  /* start in reverse, find last char that is not ws */
-  const char *c = line + std::strlen(line) - 1;
-  while (*c && *c == ' ')
-  // while (*c && std::isspace(static_cast<unsigned char>(*c)))
-    --c;
-  const char *last = c;
-  /* find delimeter, i.e. ':' */
-  while (*c && *c != ':')
-    --c;
-  /* first non ws character after delimeter */
-  c = header_field(c);
-  sz = (last - c) + 1;
+  const char *c = header_field(line);
+  sz = std::strchr(line, ':') ? static_cast<int>(std::strlen(c)) : -1;
+  /* last char that is not ws */
+  while (sz > 0 && c[sz - 1] == ' ')
+    --sz;
   return c;
 }
+/* copy the value of a header line to dest, which holds max_chars characters
+ * and a terminating null; return 0 on success
+ */
+int copy_field(const char *line, char *dest, int max_chars) noexcept {
+  int sz = 0;
+  const char *r = header_field(line, sz);
+  if (sz < 0 || sz > max_chars) {
+    fprintf(stderr,
+            "[ERROR] Missing or too long value in AOD1B header, near [%s] "
+            "(traceback: %s)\n",
+            line, __func__);
+    return 1;
+  }
+  std::memset(dest, '\0', max_chars + 1);
+  std::memcpy(dest, r, sizeof(char) * sz);
+  return 0;
+}
 } /* unnamed namespace */
 
 int dso::Aod1bIn::read_header() noexcept {
@@ -53,9 +68,7 @@ int dso::Aod1bIn::read_header(std::ifstream &fin) noexcept {
   int error = 0, j = 0;
   while (fin.getline(line, MAXL) && (!error) && (++j < MAXLS)) {
     if (!std::strncmp(line, "PRODUCER AGENCY", 15)) {
-      int sz = 0;
-      const char *r = header_field(line + 15, sz);
-      std::memcpy(agency(), r, sizeof(char) * sz);
+      error += copy_field(line + 15, agency(), 19);
     } else if (!std::strncmp(line, "PRODUCER INSTITUTION", 20)) {
       /* do nothing */
       ;
@@ -96,13 +109,9 @@ int dso::Aod1bIn::read_header(std::ifstream &fin) noexcept {
     } else if (!std::strncmp(line, "REFERENCE DOCUMENTATION", 23)) {
       ;
     } else if (!std::strncmp(line, "SATELLITE NAME", 14)) {
-      int sz = 0;
-      const char *r = header_field(line + 14, sz);
-      std::memcpy(satellite(), r, sizeof(char) * sz);
+      error += copy_field(line + 14, satellite(), 19);
     } else if (!std::strncmp(line, "SENSOR NAME", 11)) {
-      int sz = 0;
-      const char *r = header_field(line + 11, sz);
-      std::memcpy(sensor(), r, sizeof(char) * sz);
+      error += copy_field(line + 11, sensor(), 19);
     } else if (!std::strncmp(line, "TIME EPOCH (GPS TIME)", 21)) {
       time_epoch() =
           dso::from_char<dso::YMDFormat::YYYYMMDD, dso::HMSFormat::HHMMSS,
@@ -201,19 +210,13 @@ int dso::Aod1bIn::read_header(std::ifstream &fin) noexcept {
     } else if (!std::strncmp(line, "FILENAME", 8)) {
       ;
     } else if (!std::strncmp(line, "PROCESS LEVEL (1A OR 1B)", 24)) {
-      int sz = 0;
-      const char *r = header_field(line + 24, sz);
-      std::memcpy(process_level(), r, sizeof(char) * sz);
+      error += copy_field(line + 24, process_level(), 3);
     } else if (!std::strncmp(line, "PRESSURE TYPE (SP OR VI)", 24)) {
       /* present in non-tidal loading files */
-      int sz = 0;
-      const char *r = header_field(line + 24, sz);
-      std::memcpy(pressure_type(), r, sizeof(char) * sz);
+      error += copy_field(line + 24, pressure_type(), 3);
     } else if (!std::strncmp(line, "PRESSURE TYPE (ATM OR OCN)", 26)) {
       /* present in tidal files */
-      int sz = 0;
-      const char *r = header_field(line + 26, sz);
-      std::memcpy(pressure_type(), r, sizeof(char) * sz);
+      error += copy_field(line + 26, pressure_type(), 3);
     } else if (!std::strncmp(line, "MAXIMUM DEGREE", 14)) {
       const char *last = line + std::strlen(line);
       if (std::from_chars(header_field(line + 14), last, max_degree()).ec !=
@@ -317,19 +320,19 @@ int dso::Aod1bIn::read_header(std::ifstream &fin) noexcept {
       ;
     } else if (!std::strncmp(line, "PARTIAL TIDE", 12)) {
       /* present in tidal files */
-      int sz = 0;
-      const char *r = header_field(line + 12, sz);
       char buf[8] = "\0";
-      std::memcpy(buf, r, sizeof(char) * sz);
-      const auto *waveptr = dso::find_wave_entry(buf);
+      const auto *waveptr = copy_field(line + 12, buf, 7)
+                                ? nullptr
+                                : dso::find_wave_entry(buf);
       if (!waveptr) {
         fprintf(stderr,
                 "[ERROR] Failed resolving tidal wave from AOD1B file %s "
                 "(traceback: %s)\n",
                 mfn.c_str(), __func__);
         ++error;
+      } else {
+        mwave = *waveptr;
       }
-      mwave = *waveptr;
     } else if (!std::strncmp(line, "END OF HEADER", 13)) {
       break;
     } else {
-- 
2.43.0


From 490adb3bcfc3553c87847aa8b2bd7c7d2371f8cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:13 +0000
Subject: [PATCH 26/87] fix: read the reference radius of an AOD1B file
 wherever its colon stands

---
 src/lib/aod1b/aod1b_read_header.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/aod1b/aod1b_read_header.cpp b/src/lib/aod1b/aod1b_read_header.cpp
index 0b89c1a..cabe1a4 100644
--- a/src/lib/aod1b/aod1b_read_header.cpp
+++ b/src/lib/aod1b/aod1b_read_header.cpp
@@ -278,7 +278,7 @@ int dso::Aod1bIn::read_header(std::ifstream &fin) noexcept {
       }
     } else if (!std::strncmp(line, "CONSTANT A [M]", 14)) {
       const char *last = line + std::strlen(line);
-      if (std::from_chars(header_field(line + 22), last, Re()).ec !=
+      if (std::from_chars(header_field(line + 14), last, Re()).ec !=
           std::errc{}) {
         fprintf(stderr,
                 "[ERROR] Failed parsing line: [%s] from AOD1B file %s "
-- 
2.43.0


From 9c6ebe2edd10fc3d8094680b1795f6b18081881c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:13 +0000
Subject: [PATCH 27/87] fix: report AOD1B YES/NO fields that are neither

---
 src/lib/aod1b/aod1b_read_header.cpp | 22 ++++++----------------
 1 file changed, 6 insertions(+), 16 deletions(-)

diff --git a/src/lib/aod1b/aod1b_read_header.cpp b/src/lib/aod1b/aod1b_read_header.cpp
index cabe1a4..675570a 100644
--- a/src/lib/aod1b/aod1b_read_header.cpp
+++ b/src/lib/aod1b/aod1b_read_header.cpp
@@ -229,18 +229,10 @@ int dso::Aod1bIn::read_header(std::ifstream &fin) noexcept {
       }
     } else if (!std::strncmp(line, "COEFFICIENTS ERRORS (YES/NO)", 28)) {
       int sz = 0;
-      /* why maybe_unused? 
-       * GCC (at least 14.2), complaines about r being an unused variable, 
-       * even though it is (later) read within an assert macro.
-       * Probably marking it as unused is a god solution (?). At least i can't
-       * think of anything better.
-       */
-      [[maybe_unused]] const char *r = header_field(line + 28, sz);
-      if (sz == 2) {
-        assert(!std::strncmp("NO", r, 2));
+      const char *r = header_field(line + 28, sz);
+      if (sz == 2 && !std::strncmp("NO", r, 2)) {
         coeff_errors() = 0;
-      } else if (sz == 3) {
-        assert(!std::strncmp("YES", r, 3));
+      } else if (sz == 3 && !std::strncmp("YES", r, 3)) {
         coeff_errors() = 1;
       } else {
         fprintf(
@@ -252,12 +244,10 @@ int dso::Aod1bIn::read_header(std::ifstream &fin) noexcept {
       }
     } else if (!std::strncmp(line, "COEFF. NORMALIZED (YES/NO)", 26)) {
       int sz = 0;
-      [[maybe_unused]] const char *r = header_field(line + 26, sz);
-      if (sz == 2) {
-        assert(!std::strncmp("NO", r, 2));
+      const char *r = header_field(line + 26, sz);
+      if (sz == 2 && !std::strncmp("NO", r, 2)) {
         coeff_normalized() = 0;
-      } else if (sz == 3) {
-        assert(!std::strncmp("YES", r, 3));
+      } else if (sz == 3 && !std::strncmp("YES", r, 3)) {
         coeff_normalized() = 1;
       } else {
         fprintf(stderr,
-- 
2.43.0


From 5739e4e9122cc32a1a81897b9892344c5eb72693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:13 +0000
Subject: [PATCH 28/87] fix: report invalid epochs of an AOD1B header

---
 src/lib/aod1b/aod1b_read_header.cpp | 39 +++++++++++++++++++++++------
 1 file changed, 32 insertions(+), 7 deletions(-)

diff --git a/src/lib/aod1b/aod1b_read_header.cpp b/src/lib/aod1b/aod1b_read_header.cpp
index 675570a..b8cb328 100644
--- a/src/lib/aod1b/aod1b_read_header.cpp
+++ b/src/lib/aod1b/aod1b_read_header.cpp
@@ -3,8 +3,10 @@
 #include "datetime/datetime_write.hpp"
 #include <cctype>
 #include <charconv>
+#include <cmath>
 #include <cstdio>
 #include <cstring>
+#include <exception>
 
 namespace {
 /* value of a header line, i.e. what follows the first ':' at or after line.
@@ -53,7 +55,7 @@ int dso::Aod1bIn::read_header() noexcept {
   return this->read_header(fin);
 }
 
-int dso::Aod1bIn::read_header(std::ifstream &fin) noexcept {
+int dso::Aod1bIn::read_header(std::ifstream &fin) noexcept try {
   if (!fin.is_open()) {
     fprintf(stderr, "[ERROR] Failed opening AOD1B file %s (traceback: %s)\n",
             mfn.c_str(), __func__);
@@ -126,13 +128,21 @@ int dso::Aod1bIn::read_header(std::ifstream &fin) noexcept {
                 "[ERROR] Failed parsing line: [%s] from AOD1B file %s "
                 "(traceback: %s)\n",
                 line, mfn.c_str(), __func__);
-        ++error;
+        return 1;
+      }
+      /* must fit in integral nanoseconds */
+      if (!(std::abs(sec) < 9e9)) {
+        fprintf(stderr,
+                "[ERROR] Erroneous epoch in line: [%s] from AOD1B file %s "
+                "(traceback: %s)\n",
+                line, mfn.c_str(), __func__);
+        return 1;
       }
       nanoseconds isec(static_cast<nanoseconds::underlying_type>(sec * 1e9));
       first_epoch() = time_epoch().add_seconds(isec);
       // first_epoch().add_seconds(isec);
       /* validate */
-      while (!std::isdigit(*res.ptr))
+      while (*res.ptr && !std::isdigit(static_cast<unsigned char>(*res.ptr)))
         ++res.ptr;
       dso::Datetime<dso::nanoseconds> tmp =
           dso::from_char<dso::YMDFormat::YYYYMMDD, dso::HMSFormat::HHMMSS,
@@ -150,7 +160,7 @@ int dso::Aod1bIn::read_header(std::ifstream &fin) noexcept {
                 "[ERROR] Failed parsing line: [%s] from AOD1B file %s "
                 "(traceback: %s)\n",
                 line, mfn.c_str(), __func__);
-        ++error;
+        return 1;
       }
       mfirst_epoch =
           dso::Datetime<nanoseconds>(dso::year(year), dso::day_of_year(1));
@@ -163,13 +173,21 @@ int dso::Aod1bIn::read_header(std::ifstream &fin) noexcept {
                 "[ERROR] Failed parsing line: [%s] from AOD1B file %s "
                 "(traceback: %s)\n",
                 line, mfn.c_str(), __func__);
-        ++error;
+        return 1;
+      }
+      /* must fit in integral nanoseconds */
+      if (!(std::abs(sec) < 9e9)) {
+        fprintf(stderr,
+                "[ERROR] Erroneous epoch in line: [%s] from AOD1B file %s "
+                "(traceback: %s)\n",
+                line, mfn.c_str(), __func__);
+        return 1;
       }
       nanoseconds isec(static_cast<nanoseconds::underlying_type>(sec * 1e9));
       last_epoch() = time_epoch().add_seconds(isec);
       // last_epoch().add_seconds(isec);
       /* validate */
-      while (!std::isdigit(*res.ptr))
+      while (*res.ptr && !std::isdigit(static_cast<unsigned char>(*res.ptr)))
         ++res.ptr;
       dso::Datetime<dso::nanoseconds> tmp =
           dso::from_char<dso::YMDFormat::YYYYMMDD, dso::HMSFormat::HHMMSS,
@@ -187,7 +205,7 @@ int dso::Aod1bIn::read_header(std::ifstream &fin) noexcept {
                 "[ERROR] Failed parsing line: [%s] from AOD1B file %s "
                 "(traceback: %s)\n",
                 line, mfn.c_str(), __func__);
-        ++error;
+        return 1;
       }
       mlast_epoch =
           dso::Datetime<nanoseconds>(dso::year(year), dso::day_of_year(1));
@@ -345,4 +363,11 @@ int dso::Aod1bIn::read_header(std::ifstream &fin) noexcept {
 
   /* all done */
   return 0;
+} catch (const std::exception &e) {
+  /* e.g. an invalid date */
+  fprintf(stderr,
+          "[ERROR] Failed reading header from AOD1B file %s; %s "
+          "(traceback: %s)\n",
+          mfn.c_str(), e.what(), __func__);
+  return 1;
 }
-- 
2.43.0


From e999fe4fbce0644eb7c3941f9097bf384eee0181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:35 +0000
Subject: [PATCH 29/87] fix: report incomplete AOD1B headers

---
 include/aod1b.hpp                   | 24 ++++++++++++------------
 src/lib/aod1b/aod1b_read_header.cpp | 24 ++++++++++++++++++++----
 2 files changed, 32 insertions(+), 16 deletions(-)

diff --git a/include/aod1b.hpp b/include/aod1b.hpp
index debb747..3527071 100644
--- a/include/aod1b.hpp
+++ b/include/aod1b.hpp
@@ -114,29 +114,29 @@ private:
   /** buffer to store all character/string information in an AOD1B header */
   char charArena[MaxArenaChars];
   /** file type -- should be 999 */
-  int mfile_type;
+  int mfile_type{0};
   /** file format: 0=binary 1=ascii */
-  int mfile_format;
+  int mfile_format{0};
   /** number of header records */
-  int mnum_header_records;
+  int mnum_header_records{0};
   /** number of data records */
-  int mnum_data_records;
+  int mnum_data_records{0};
   /** maximum degree for harmonic coeffs */
-  int mmax_degree;
+  int mmax_degree{0};
   /** coefficient errors (yes/no) */
-  int mcoeff_errors;
+  int mcoeff_errors{0};
   /** coeff. normalized (yes/no) */
-  int mcoeff_normalized;
+  int mcoeff_normalized{0};
   /** constant gm [m^3/s^2] */
-  double mGM;
+  double mGM{0};
   /** constant a [m] */
-  double mRe;
+  double mRe{0};
   /** constant flat [-] */
-  double mflat;
+  double mflat{0};
   /** constant omega [rad/s] */
-  double momega;
+  double momega{0};
   /** number of data sets */
-  int mnum_data_sets;
+  int mnum_data_sets{0};
   /** Reference epoch in TT */
   Datetime<nanoseconds> mtime_epoch;
   /** Time of first data block in TT */
diff --git a/src/lib/aod1b/aod1b_read_header.cpp b/src/lib/aod1b/aod1b_read_header.cpp
index b8cb328..b49fe98 100644
--- a/src/lib/aod1b/aod1b_read_header.cpp
+++ b/src/lib/aod1b/aod1b_read_header.cpp
@@ -68,6 +68,8 @@ int dso::Aod1bIn::read_header(std::ifstream &fin) noexcept try {
   constexpr const int MAXL = 124;
   char line[MAXL];
   int error = 0, j = 0;
+  /* bit mask of the fields found, of the ones needed to use the data */
+  unsigned found = 0;
   while (fin.getline(line, MAXL) && (!error) && (++j < MAXLS)) {
     if (!std::strncmp(line, "PRODUCER AGENCY", 15)) {
       error += copy_field(line + 15, agency(), 19);
@@ -115,6 +117,7 @@ int dso::Aod1bIn::read_header(std::ifstream &fin) noexcept try {
     } else if (!std::strncmp(line, "SENSOR NAME", 11)) {
       error += copy_field(line + 11, sensor(), 19);
     } else if (!std::strncmp(line, "TIME EPOCH (GPS TIME)", 21)) {
+      found |= 16;
       time_epoch() =
           dso::from_char<dso::YMDFormat::YYYYMMDD, dso::HMSFormat::HHMMSS,
                          dso::nanoseconds>(header_field(line + 21));
@@ -130,8 +133,8 @@ int dso::Aod1bIn::read_header(std::ifstream &fin) noexcept try {
                 line, mfn.c_str(), __func__);
         return 1;
       }
-      /* must fit in integral nanoseconds */
-      if (!(std::abs(sec) < 9e9)) {
+      /* must follow the reference epoch and fit in integral nanoseconds */
+      if (!(found & 16) || !(std::abs(sec) < 9e9)) {
         fprintf(stderr,
                 "[ERROR] Erroneous epoch in line: [%s] from AOD1B file %s "
                 "(traceback: %s)\n",
@@ -175,8 +178,8 @@ int dso::Aod1bIn::read_header(std::ifstream &fin) noexcept try {
                 line, mfn.c_str(), __func__);
         return 1;
       }
-      /* must fit in integral nanoseconds */
-      if (!(std::abs(sec) < 9e9)) {
+      /* must follow the reference epoch and fit in integral nanoseconds */
+      if (!(found & 16) || !(std::abs(sec) < 9e9)) {
         fprintf(stderr,
                 "[ERROR] Erroneous epoch in line: [%s] from AOD1B file %s "
                 "(traceback: %s)\n",
@@ -236,6 +239,7 @@ int dso::Aod1bIn::read_header(std::ifstream &fin) noexcept try {
       /* present in tidal files */
       error += copy_field(line + 26, pressure_type(), 3);
     } else if (!std::strncmp(line, "MAXIMUM DEGREE", 14)) {
+      found |= 1;
       const char *last = line + std::strlen(line);
       if (std::from_chars(header_field(line + 14), last, max_degree()).ec !=
           std::errc{}) {
@@ -275,6 +279,7 @@ int dso::Aod1bIn::read_header(std::ifstream &fin) noexcept try {
         ++error;
       }
     } else if (!std::strncmp(line, "CONSTANT GM [M^3/S^2]", 21)) {
+      found |= 2;
       const char *last = line + std::strlen(line);
       if (std::from_chars(header_field(line + 21), last, GM()).ec !=
           std::errc{}) {
@@ -285,6 +290,7 @@ int dso::Aod1bIn::read_header(std::ifstream &fin) noexcept try {
         ++error;
       }
     } else if (!std::strncmp(line, "CONSTANT A [M]", 14)) {
+      found |= 4;
       const char *last = line + std::strlen(line);
       if (std::from_chars(header_field(line + 14), last, Re()).ec !=
           std::errc{}) {
@@ -315,6 +321,7 @@ int dso::Aod1bIn::read_header(std::ifstream &fin) noexcept try {
         ++error;
       }
     } else if (!std::strncmp(line, "NUMBER OF DATA SETS", 19)) {
+      found |= 8;
       const char *last = line + std::strlen(line);
       if (std::from_chars(header_field(line + 17), last, num_data_sets()).ec !=
           std::errc{}) {
@@ -361,6 +368,15 @@ int dso::Aod1bIn::read_header(std::ifstream &fin) noexcept try {
     return 1;
   }
 
+  /* the data is of no use without these */
+  if ((found & 15) != 15 || max_degree() < 0) {
+    fprintf(stderr,
+            "[ERROR] Incomplete or erroneous header in AOD1B file %s; missing "
+            "max degree, GM, Re or number of data sets (traceback: %s)\n",
+            mfn.c_str(), __func__);
+    return 1;
+  }
+
   /* all done */
   return 0;
 } catch (const std::exception &e) {
-- 
2.43.0


From 7222cfc286efd7412823dd76bda77caddc622000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:55 +0000
Subject: [PATCH 30/87] fix: find AOD1B blocks up to the last data set and stop
 skipping at the end of the file

---
 src/lib/aod1b/aod1b_goto_next_block.cpp | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/lib/aod1b/aod1b_goto_next_block.cpp b/src/lib/aod1b/aod1b_goto_next_block.cpp
index f2afc55..d6dbd3c 100644
--- a/src/lib/aod1b/aod1b_goto_next_block.cpp
+++ b/src/lib/aod1b/aod1b_goto_next_block.cpp
@@ -51,7 +51,8 @@ int dso::Aod1bIn::goto_next_block(
   const int MAXLS = num_data_sets();
   char line[MAXL];
   int error = 0, j = 0;
-  while (fin.getline(line, MAXL) && (!error) && (++j < MAXLS)) {
+  while ((!error) && (j < MAXLS) && fin.getline(line, MAXL)) {
+    ++j;
     /* assuming next line was a data block header */
     if (parse_data_block_header(line, rec)) {
       ++error;
@@ -60,8 +61,8 @@ int dso::Aod1bIn::goto_next_block(
     if (rec.mtype == type)
       return 0;
     /* skip lines untill next block */
-    for (int l = 0; l < rec.mnum_lines; l++)
-      fin.getline(line, MAXL);
+    for (int l = 0; l < rec.mnum_lines && (!error); l++)
+      error += !fin.getline(line, MAXL);
     }
   }
 
@@ -73,11 +74,6 @@ int dso::Aod1bIn::goto_next_block(
     return 1;
   }
 
-  if (!fin.good() || j >= MAXLS) {
-    if (fin.eof())
-      return -1;
-    return 1;
-  }
-
-  return 0;
+  /* no (more) block of this type */
+  return (fin.eof() && !fin.bad()) ? -1 : 1;
 }
-- 
2.43.0


From 1fd0a65a868a12f0d842d707ccf0052e8b72e034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:23 +0000
Subject: [PATCH 31/87] fix: report malformed AOD1B block headers

---
 .../aod1b/aod1b_parse_data_block_header.cpp   | 42 +++++++++++++------
 1 file changed, 29 insertions(+), 13 deletions(-)

diff --git a/src/lib/aod1b/aod1b_parse_data_block_header.cpp b/src/lib/aod1b/aod1b_parse_data_block_header.cpp
index d08d235..79f153e 100644
--- a/src/lib/aod1b/aod1b_parse_data_block_header.cpp
+++ b/src/lib/aod1b/aod1b_parse_data_block_header.cpp
@@ -2,6 +2,7 @@
 #include "datetime/datetime_read.hpp"
 #include <charconv>
 #include <cstdio>
+#include <exception>
 
 namespace {
 inline const char *skipws(const char *line) noexcept {
@@ -22,25 +23,40 @@ int dso::Aod1bIn::parse_data_block_header(
   int error = 0;
 
   auto res = std::from_chars(skipws(str), last, rec.mset_nr);
-  error += (res.ec != std::errc{});
-  str = res.ptr + 1;
+  error += (res.ec != std::errc{} || *res.ptr != ':');
+  if (!error) {
+    res = std::from_chars(skipws(res.ptr + 1), last, rec.mnum_lines);
+    error += (res.ec != std::errc{} || rec.mnum_lines < 0);
+    str = skipws(res.ptr);
+  }
 
-  res = std::from_chars(skipws(str), last, rec.mnum_lines);
-  error += (res.ec != std::errc{});
-  str = res.ptr;
+  if (error || std::strncmp(str, "COEFFICIENTS FOR ", 17)) {
+    fprintf(
+        stderr,
+        "[ERROR] Failed parsing AOD1B block header line [%s] (tracback: %s)\n",
+        line, __func__);
+    return 1;
+  }
 
-  if (std::strncmp(skipws(str), "COEFFICIENTS FOR ", 17))
-    ++error;
-  str = skipws(str + 17);
-  rec.mepoch = dso::from_char<dso::YMDFormat::YYYYMMDD, dso::HMSFormat::HHMMSS,
-                              dso::nanoseconds>(str, &res.ptr);
+  try {
+    rec.mepoch =
+        dso::from_char<dso::YMDFormat::YYYYMMDD, dso::HMSFormat::HHMMSS,
+                       dso::nanoseconds>(skipws(str + 17), &res.ptr);
+  } catch (const std::exception &) {
+    fprintf(stderr,
+            "[ERROR] Invalid epoch in AOD1B block header line [%s] (tracback: "
+            "%s)\n",
+            line, __func__);
+    return 1;
+  }
   /* GPST to TT */
   rec.mepoch = rec.mepoch.gps2tt();
 
-  str = res.ptr + 1;
-  if (std::strncmp(skipws(str), "OF TYPE", 7))
+  str = skipws(res.ptr);
+  if (std::strncmp(str, "OF TYPE", 7))
     ++error;
-  str = skipws(str + 7);
+  else
+    str = skipws(str + 7);
 
   if (!std::strncmp(skipws(str), "atm", 3))
     rec.mtype = dso::AOD1BCoefficientType::ATM;
-- 
2.43.0


From 75d6bb4b0357af19e3aaedb30f178a3936903948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:23 +0000
Subject: [PATCH 32/87] fix: report malformed AOD1B coefficient lines

---
 src/lib/aod1b/aod1b_collect_coeffs.cpp | 11 +++++++
 src/lib/aod1b/aod1b_get_tidal_wave.cpp | 45 ++++++++++++++++++++------
 2 files changed, 47 insertions(+), 9 deletions(-)

diff --git a/src/lib/aod1b/aod1b_collect_coeffs.cpp b/src/lib/aod1b/aod1b_collect_coeffs.cpp
index 05a2549..347b1cb 100644
--- a/src/lib/aod1b/aod1b_collect_coeffs.cpp
+++ b/src/lib/aod1b/aod1b_collect_coeffs.cpp
@@ -1,4 +1,5 @@
 #include "aod1b.hpp"
+#include <cctype>
 #include <cstdio>
 #include <charconv>
 
@@ -8,6 +9,10 @@ inline const char *skipws(const char *line) noexcept {
     ++line;
   return line;
 }
+/* a field must be followed by a whitespace or the end of the line */
+inline bool field_end(const char *c) noexcept {
+  return !*c || std::isspace(static_cast<unsigned char>(*c));
+}
 } /* unnamed namespace */
 
 int dso::Aod1bIn::collect_coeffs(std::ifstream &fin, int max_degree,
@@ -68,13 +73,19 @@ int dso::Aod1bIn::collect_coeffs(std::ifstream &fin, int max_degree,
     const char *stop = line + std::strlen(line);
     auto res = std::from_chars(skipws(line), stop, l);
     error += (res.ec != std::errc{});
+    error += !field_end(res.ptr);
     res = std::from_chars(skipws(res.ptr), stop, m);
     error += (res.ec != std::errc{});
+    error += !field_end(res.ptr);
+    /* no such coefficient */
+    error += (l < 0 || m < 0 || m > l);
     if ((l <= max_degree) && (m <= max_order) && (!error)) {
       res = std::from_chars(skipws(res.ptr), stop, cs.C(l, m));
       error += (res.ec != std::errc{});
+      error += !field_end(res.ptr);
       res = std::from_chars(skipws(res.ptr), stop, cs.S(l, m));
       error += (res.ec != std::errc{});
+      error += !field_end(res.ptr);
       max_degree_collected = std::max(max_degree_collected, l);
       max_order_collected = std::max(max_order_collected, m);
     }
diff --git a/src/lib/aod1b/aod1b_get_tidal_wave.cpp b/src/lib/aod1b/aod1b_get_tidal_wave.cpp
index f1bab1b..ef55571 100644
--- a/src/lib/aod1b/aod1b_get_tidal_wave.cpp
+++ b/src/lib/aod1b/aod1b_get_tidal_wave.cpp
@@ -1,4 +1,5 @@
 #include "aod1b.hpp"
+#include <cctype>
 #include <charconv>
 #include <cstdio>
 
@@ -8,6 +9,10 @@ inline const char *skipws(const char *line) noexcept {
     ++line;
   return line;
 }
+/* a field must be followed by a whitespace or the end of the line */
+inline bool field_end(const char *c) noexcept {
+  return !*c || std::isspace(static_cast<unsigned char>(*c));
+}
 } /* unnamed namespace */
 
 int dso::Aod1bIn::get_tidal_wave_coeffs(dso::StokesCoeffs &cCs,
@@ -54,16 +59,21 @@ int dso::Aod1bIn::get_tidal_wave_coeffs(dso::StokesCoeffs &cCs,
   constexpr const int MAXL = 124;
   char line[MAXL];
   int error = 0;
-  int max_lines;
+  int max_lines = 0;
   int lines_parsed = 0;
 
   /* this should be the cos coeffs */
   fin.getline(line, MAXL);
+  const char *str = skipws(line);
   const char *end = line + std::strlen(line);
-  if (std::strncmp(skipws(line), "DATA SET 01:", 12))
+  if (std::strncmp(str, "DATA SET 01:", 12)) {
     ++error;
-  auto res = std::from_chars(skipws(line + 12), end, max_lines);
-  error += (res.ec != std::errc{});
+    str = end;
+  } else {
+    str = skipws(str + 12);
+  }
+  auto res = std::from_chars(str, end, max_lines);
+  error += (res.ec != std::errc{} || max_lines < 0);
   if (std::strncmp(skipws(res.ptr), "COEFFICIENTS OF TYPE cos", 24))
     ++error;
   if (error) {
@@ -76,17 +86,23 @@ int dso::Aod1bIn::get_tidal_wave_coeffs(dso::StokesCoeffs &cCs,
 
   /* watch the order in the while condition! */
   while ((lines_parsed < max_lines) && (!error) && fin.getline(line, MAXL)) {
-    int l, m;
+    int l = 0, m = 0;
     const char *stop = line + std::strlen(line);
     res = std::from_chars(skipws(line), stop, l);
     error += (res.ec != std::errc{});
+    error += !field_end(res.ptr);
     res = std::from_chars(skipws(res.ptr), stop, m);
     error += (res.ec != std::errc{});
+    error += !field_end(res.ptr);
+    /* no such coefficient */
+    error += (l < 0 || m < 0 || m > l);
     if ((l <= max_degree) && (m <= max_order) && (!error)) {
       res = std::from_chars(skipws(res.ptr), stop, cCs.C(l, m));
       error += (res.ec != std::errc{});
+      error += !field_end(res.ptr);
       res = std::from_chars(skipws(res.ptr), stop, cCs.S(l, m));
       error += (res.ec != std::errc{});
+      error += !field_end(res.ptr);
     }
     ++lines_parsed;
   }
@@ -103,11 +119,16 @@ int dso::Aod1bIn::get_tidal_wave_coeffs(dso::StokesCoeffs &cCs,
   /* this should be the sin coeffs */
   lines_parsed = 0;
   fin.getline(line, MAXL);
+  str = skipws(line);
   end = line + std::strlen(line);
-  if (std::strncmp(skipws(line), "DATA SET 02:", 12))
+  if (std::strncmp(str, "DATA SET 02:", 12)) {
     ++error;
-  res = std::from_chars(skipws(line + 12), end, max_lines);
-  error += (res.ec != std::errc{});
+    str = end;
+  } else {
+    str = skipws(str + 12);
+  }
+  res = std::from_chars(str, end, max_lines);
+  error += (res.ec != std::errc{} || max_lines < 0);
   if (std::strncmp(skipws(res.ptr), "COEFFICIENTS OF TYPE sin", 24))
     ++error;
   if (error) {
@@ -120,17 +141,23 @@ int dso::Aod1bIn::get_tidal_wave_coeffs(dso::StokesCoeffs &cCs,
 
   /* watch the order in the while condition! */
   while ((lines_parsed < max_lines) && (!error) && fin.getline(line, MAXL)) {
-    int l, m;
+    int l = 0, m = 0;
     const char *stop = line + std::strlen(line);
     res = std::from_chars(skipws(line), stop, l);
     error += (res.ec != std::errc{});
+    error += !field_end(res.ptr);
     res = std::from_chars(skipws(res.ptr), stop, m);
     error += (res.ec != std::errc{});
+    error += !field_end(res.ptr);
+    /* no such coefficient */
+    error += (l < 0 || m < 0 || m > l);
     if ((l <= max_degree) && (m <= max_order) && (!error)) {
       res = std::from_chars(skipws(res.ptr), stop, sCs.C(l, m));
       error += (res.ec != std::errc{});
+      error += !field_end(res.ptr);
       res = std::from_chars(skipws(res.ptr), stop, sCs.S(l, m));
       error += (res.ec != std::errc{});
+      error += !field_end(res.ptr);
     }
     ++lines_parsed;
   }
-- 
2.43.0


From 094a8cc0f0838fbfb6ade5b13f17c8a2863664ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:16 +0000
Subject: [PATCH 33/87] fix: do not resume an AOD1B stream in the middle of a
 block

---
 src/lib/aod1b/aod1b_collect_coeffs.cpp  | 2 ++
 src/lib/aod1b/aod1b_goto_next_block.cpp | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/lib/aod1b/aod1b_collect_coeffs.cpp b/src/lib/aod1b/aod1b_collect_coeffs.cpp
index 347b1cb..de92b09 100644
--- a/src/lib/aod1b/aod1b_collect_coeffs.cpp
+++ b/src/lib/aod1b/aod1b_collect_coeffs.cpp
@@ -94,6 +94,8 @@ int dso::Aod1bIn::collect_coeffs(std::ifstream &fin, int max_degree,
 
   /* check for errors */
   if (error || !fin.good()) {
+    /* the stream is no longer placed at a block, it cannot be read forward */
+    fin.setstate(std::ios::failbit);
     fprintf(stderr,
             "[ERROR] Failed parsing coefficients from AOD1B file %s "
             "(traceback: %s)\n",
diff --git a/src/lib/aod1b/aod1b_goto_next_block.cpp b/src/lib/aod1b/aod1b_goto_next_block.cpp
index d6dbd3c..2e85409 100644
--- a/src/lib/aod1b/aod1b_goto_next_block.cpp
+++ b/src/lib/aod1b/aod1b_goto_next_block.cpp
@@ -67,6 +67,8 @@ int dso::Aod1bIn::goto_next_block(
   }
 
   if (error) {
+    /* the stream is no longer placed at a block, it cannot be read forward */
+    fin.setstate(std::ios::failbit);
     fprintf(stderr,
             "[ERROR] Failed reading next header block for AOD1B file %s "
             "(traceback: %s)\n",
-- 
2.43.0


From 6b74b45d26bf4ed940c31aac7f533dbf94ff8638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:46 +0000
Subject: [PATCH 34/87] fix: buffer the AOD1B blocks around a later or earlier
 epoch

---
 include/aod1b_data_stream.hpp | 114 ++++++++++++----------------------
 1 file changed, 41 insertions(+), 73 deletions(-)

diff --git a/include/aod1b_data_stream.hpp b/include/aod1b_data_stream.hpp
index dfe433b..5dcf63f 100644
--- a/include/aod1b_data_stream.hpp
+++ b/include/aod1b_data_stream.hpp
@@ -122,73 +122,29 @@ private:
      * Note that mit holds the next (to current) header.
      */
     if (t >= mhdrvec[2].mepoch && !mit.is_eof()) {
-      /* advance to next header/block */
-      if (t >= mhdrvec[2].mepoch && t < mit.header().mepoch) {
-        /* cool, got it! */
-        swap(0, 1);
-        swap(1, 2);
-        mhdrvec[2] = mit.header();
-        int j = mit.collect(mcsvec[2]);
-        mit.advance();
-        return (j > 0) ? (-1) : (1);
-      } else {
-        /* this block doesn't fit either! keep on reading */
-        int error = 0;
-        while (t <= mit.header().mepoch && (!error)) {
-          /* store coeffs at 0 index */
-          error = mit.collect(mcsvec[0]);
-          mhdrvec[0] = mit.header();
-          error += mit.advance();
-        }
-        if (error) {
+      /* keep on reading until the last block is after t; the oldest block is
+       * replaced by the new one
+       */
+      while (t >= mhdrvec[2].mepoch && !mit.is_eof()) {
+        if (mit.header().mepoch <= mhdrvec[2].mepoch ||
+            mit.collect(mcsvec[0])) {
+          /* no (valid) coeffs at index 0 any more, void its interval */
+          mhdrvec[0].mepoch = mhdrvec[1].mepoch;
           fprintf(stderr,
                   "[ERROR] Failed collecting coeffs for epoch %s (TT) from "
-                  "AOD1B file %s; at [1] (traceback: %s)\n",
+                  "AOD1B file %s (traceback: %s)\n",
                   to_char<YMDFormat::YYYYMMDD, HMSFormat::HHMMSSF, nanoseconds>(
                       t, buf),
                   mit.aod1b().fn().c_str(), __func__);
           return -2;
         }
-        /* read next block so that we have the bounding interval */
-        if (mit.collect(mcsvec[1])) {
-          fprintf(stderr,
-                  "[ERROR] Failed collecting coeffs for epoch %s (TT) from "
-                  "AOD1B file %s; at [1A] (traceback: %s)\n",
-                  to_char<YMDFormat::YYYYMMDD, HMSFormat::HHMMSSF, nanoseconds>(
-                      t, buf),
-                  mit.aod1b().fn().c_str(), __func__);
-              return -3;
-          }
-        mhdrvec[1] = mit.header();
-        int j = mit.advance();
-        /* since we are here, read also the next block */
-        if (j < 0) {
-          mit.set_eof(); /* already set but nevertheless .. */
-          mhdrvec[2] = mit.header();
-        } else if (j > 0) {
-          fprintf(stderr,
-                  "[ERROR] Failed collecting coeffs for epoch %s (TT) from "
-                  "AOD1B file %s; at [2] (traceback: %s)\n",
-                  to_char<YMDFormat::YYYYMMDD, HMSFormat::HHMMSSF, nanoseconds>(
-                      t, buf),
-                  mit.aod1b().fn().c_str(), __func__);
-          return -3;
-        } else {
-          if (mit.collect(mcsvec[2])) {
-          fprintf(stderr,
-                  "[ERROR] Failed collecting coeffs for epoch %s (TT) from "
-                  "AOD1B file %s; at [3] (traceback: %s)\n",
-                  to_char<YMDFormat::YYYYMMDD, HMSFormat::HHMMSSF, nanoseconds>(
-                      t, buf),
-                  mit.aod1b().fn().c_str(), __func__);
-              return -3;
-          }
-          mhdrvec[2] = mit.header();
-          mit.advance();
-        }
-        /* return the index */
-        return 0;
+        mhdrvec[0] = mit.header();
+        swap(0, 1);
+        swap(1, 2);
+        /* an error here, is reported once we need the next block */
+        mit.advance();
       }
+      return hunt_range(t);
     } else if (t < mhdrvec[0].mepoch) {
       /* before anything else, check if the given t is after the first dataset
        * in the file. If not, we cannot do anything! Else, go to the start of
@@ -213,6 +169,9 @@ private:
             __func__);
         return -5;
       }
+      /* the first block may be later than what the header states */
+      if (t < mhdrvec[0].mepoch)
+        return -4;
       /* hunt interval from the top of the file */
       return hunt_range(t);
     } else if (t >= mhdrvec[2].mepoch && mit.is_eof()) {
@@ -249,23 +208,31 @@ public:
    * Example:
    */
   int initialize() noexcept {
-    mit.set_begin();
-    if (mit.collect(mcsvec[0])) {
-      fprintf(stderr,
-              "[ERROR] Failed initializing Aod1bDataStream (traceback: %s)\n",
-              __func__);
-      return 1;
-    }
-    mhdrvec[0] = mit.header();
+    /* nothing buffered (yet) */
+    for (auto &hdr : mhdrvec)
+      hdr.mepoch = Datetime<nanoseconds>::max();
 
     int j = 0;
-    for (int i = 1; i < AR_SIZE && (!j); i++) {
-      j = mit.advance();
-      j += mit.collect(mcsvec[i]);
-      mhdrvec[i] = mit.header();
+    try {
+      mit.set_begin();
+    } catch (std::exception &) {
+      j = 1;
+    }
+    std::array<Aod1bIn::Aod1bBlockHeader, AR_SIZE> hdrs;
+    for (int i = 0; i < AR_SIZE && (!j); i++) {
+      if ((j = mit.collect(mcsvec[i])))
+        break;
+      hdrs[i] = mit.header();
+      /* blocks should be in chronological order */
+      if (i && hdrs[i].mepoch <= hdrs[i - 1].mepoch)
+        j = 1;
+      else
+        /* place iterator at next block */
+        j = mit.advance();
+      /* ok to encounter EOF after the last block */
+      if (j < 0 && i == AR_SIZE - 1)
+        j = 0;
     }
-    /* place iterator at next block */
-    j += mit.advance();
 
     if (j) {
       fprintf(stderr,
@@ -273,6 +240,7 @@ public:
               __func__);
       return 1;
     }
+    mhdrvec = hdrs;
     return 0;
   }
 
-- 
2.43.0


From 95d667d3e63666ed9b6558479298ceba1431297a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:46 +0000
Subject: [PATCH 35/87] fix: report requests beyond the degree of an AOD1B
 stream

---
 include/aod1b_data_stream.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/aod1b_data_stream.hpp b/include/aod1b_data_stream.hpp
index 5dcf63f..6908849 100644
--- a/include/aod1b_data_stream.hpp
+++ b/include/aod1b_data_stream.hpp
@@ -346,6 +346,15 @@ public:
         return 1;
       }
     }
+    if (cs.max_degree() > mcsvec[index].max_degree() ||
+        cs.max_order() > mcsvec[index].max_order()) {
+      fprintf(stderr,
+              "[ERROR] Cannot compute %dx%d coefficients, AOD1B file %s holds "
+              "%dx%d (traceback: %s)\n",
+              cs.max_degree(), cs.max_order(), mstream.fn().c_str(),
+              mcsvec[index].max_degree(), mcsvec[index].max_order(), __func__);
+      return 1;
+    }
     /* linear interpolation */
     const auto t1 = mhdrvec[index].mepoch;
     const auto t2 = mhdrvec[index + 1].mepoch;
-- 
2.43.0


From 96300dbb945fe6efc7f3bd90f2fd2512418af927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:46 +0000
Subject: [PATCH 36/87] fix: keep a moved Aod1bDataStream usable and its source
 destructible

---
 include/aod1b.hpp             |  3 +++
 include/aod1b_data_stream.hpp | 40 ++++++++++++-----------------------
 2 files changed, 17 insertions(+), 26 deletions(-)

diff --git a/include/aod1b.hpp b/include/aod1b.hpp
index 3527071..b23e6b3 100644
--- a/include/aod1b.hpp
+++ b/include/aod1b.hpp
@@ -404,6 +404,9 @@ public:
   /** get a const reference to the underlying Aod1bIn instance */
   const Aod1bIn &aod1b() const {return *maod;}
 
+  /** the underlying Aod1bIn instance has been moved to aod */
+  void rebind(const Aod1bIn &aod) noexcept { maod = &aod; }
+
   /** get current header */
   const Aod1bIn::Aod1bBlockHeader &header() const noexcept { return mheader; }
 
diff --git a/include/aod1b_data_stream.hpp b/include/aod1b_data_stream.hpp
index 6908849..9c5c814 100644
--- a/include/aod1b_data_stream.hpp
+++ b/include/aod1b_data_stream.hpp
@@ -10,6 +10,7 @@
 #include "aod1b.hpp"
 #include "datetime/datetime_write.hpp"
 #include <filesystem>
+#include <vector>
 #ifdef DEBUG
 #include <cassert>
 #endif
@@ -53,7 +54,7 @@ private:
    * The headers of these blocks/coeffs are stored (in the same order) in
    * the mhdrvec array
    */
-  StokesCoeffs *mcsvec{nullptr};
+  std::vector<StokesCoeffs> mcsvec;
   /** A directory where more non-tidal AOD1B for later dates are stored
    * (including the one we currently read from). If needed, we may search the
    * directory to feed our stream with more/later data.
@@ -382,34 +383,19 @@ public:
 
   Aod1bDataStream(const char *fn)
       : mstream(fn), mit(mstream),
-        mcsvec(static_cast<StokesCoeffs *>(operator new[](
-            AR_SIZE * sizeof(StokesCoeffs)))) {
-    for (int i = 0; i < AR_SIZE; i++)
-      new (&mcsvec[i])
-          StokesCoeffs(mit.aod1b().max_degree(), mit.aod1b().max_degree(),
-                       mit.aod1b().GM(), mit.aod1b().Re());
-  }
+        mcsvec(AR_SIZE,
+               StokesCoeffs(mstream.max_degree(), mstream.max_degree(),
+                            mstream.GM(), mstream.Re())) {}
 
   /** Constructor given the (file)name of an AOD1B file and a directory for 
    * searching the following (if any) AOD1B data files.
    */
-  Aod1bDataStream(const char *fn, const char *dir)
-      : mstream(fn), mit(mstream),
-        mcsvec(static_cast<StokesCoeffs *>(operator new[](
-            AR_SIZE * sizeof(StokesCoeffs)))),
-        mdir(dir) {
-    for (int i = 0; i < AR_SIZE; i++)
-      new (&mcsvec[i])
-          StokesCoeffs(mit.aod1b().max_degree(), mit.aod1b().max_degree(),
-                       mit.aod1b().GM(), mit.aod1b().Re());
+  Aod1bDataStream(const char *fn, const char *dir) : Aod1bDataStream(fn) {
+    mdir = std::filesystem::directory_entry(dir);
   }
 
   /** Destructor */
-  ~Aod1bDataStream() noexcept {
-    for (int i = 0; i < AR_SIZE; i++)
-      mcsvec[i].~StokesCoeffs();
-    operator delete[](mcsvec);
-  }
+  ~Aod1bDataStream() noexcept = default;
 
   /** No copy constructor */
   Aod1bDataStream(const Aod1bDataStream &other) noexcept = delete;
@@ -418,17 +404,19 @@ public:
   /** Move-construction allowed */
   Aod1bDataStream(Aod1bDataStream &&other) noexcept
       : mstream(std::move(other.mstream)), mit(std::move(other.mit)),
-        mhdrvec(std::move(other.mhdrvec)), mcsvec(other.mcsvec) {
-    other.mcsvec = nullptr;
+        mhdrvec(std::move(other.mhdrvec)), mcsvec(std::move(other.mcsvec)),
+        mdir(std::move(other.mdir)) {
+    mit.rebind(mstream);
   }
   /** Move assignement operator allowed */
   Aod1bDataStream &operator=(Aod1bDataStream &&other) noexcept {
     if (this != &other) {
       mstream = std::move(other.mstream);
       mit = std::move(other.mit);
+      mit.rebind(mstream);
       mhdrvec = std::move(other.mhdrvec);
-      mcsvec = other.mcsvec;
-      other.mcsvec = nullptr;
+      mcsvec = std::move(other.mcsvec);
+      mdir = std::move(other.mdir);
     }
     return *this;
   }
-- 
2.43.0


From 3ac9e8bc7ade453c3af2f0d2d6b3f7c15521a08b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:46 +0000
Subject: [PATCH 37/87] fix: continue an Aod1bDataStream from any directory, or
 leave it as it was

---
 include/aod1b_data_stream.hpp                | 67 ++++++++++----------
 src/lib/aod1b/aod1bnontidalproductnaming.cpp |  9 ++-
 2 files changed, 43 insertions(+), 33 deletions(-)

diff --git a/include/aod1b_data_stream.hpp b/include/aod1b_data_stream.hpp
index 9c5c814..7f9038b 100644
--- a/include/aod1b_data_stream.hpp
+++ b/include/aod1b_data_stream.hpp
@@ -248,42 +248,45 @@ public:
   /** @brief Continue streaming from a new non-tidal AOD1B file.
    */
   int feed_next_file() noexcept {
-    char pfn[256];
-    {
-      int rl = Aod1bNonTidalProductNaming::resolve_rl(mstream.fn().c_str());
-      auto mjd = mstream.last_epoch().imjd() + dso::modified_julian_day(1);
-      Aod1bNonTidalProductNaming::filename(mjd.to_ymd(), rl, pfn);
-      std::string fullPathStr = (mdir.path() / pfn).string();
-      std::strcpy(pfn, fullPathStr.c_str());
-    }
-    /* read first block of new file to last index */
-    constexpr const int index = AR_SIZE - 1;
-    /* create an Aod1bIn instance and get the iterator */
+    /* the instance is only changed once the new file has been read from */
     try {
-      mstream = Aod1bIn(pfn);
-      mit = Aod1bDataBlockIterator<T>(mstream);
+      const int rl =
+          Aod1bNonTidalProductNaming::resolve_rl(mstream.fn().c_str());
+      if (rl < 0)
+        return 2;
+      auto mjd = mstream.last_epoch().imjd() + dso::modified_julian_day(1);
+      const std::string pfn =
+          (mdir.path() / Aod1bNonTidalProductNaming::filename(mjd.to_ymd(), rl))
+              .string();
+      /* create an Aod1bIn instance and get the iterator */
+      Aod1bIn next(pfn.c_str());
+      Aod1bDataBlockIterator<T> it(next);
+      it.set_begin();
+      /* collect header and first data block, replacing the oldest one */
+      if (it.header().mepoch <= mhdrvec[AR_SIZE - 1].mepoch ||
+          it.collect(mcsvec[0])) {
+        /* no (valid) coeffs at index 0 any more, void its interval */
+        mhdrvec[0].mepoch = mhdrvec[1].mepoch;
+        fprintf(stderr,
+                "[ERROR] Failed initializing Aod1bDataStream from %s "
+                "(traceback: %s)\n",
+                pfn.c_str(), __func__);
+        return 1;
+      }
+      mhdrvec[0] = it.header();
+      /* left shift data */
+      swap(0, 1);
+      swap(1, 2);
+      /* place iterator at next block; an error here, is reported once we need
+       * that block
+       */
+      it.advance();
+      mstream = std::move(next);
+      mit = std::move(it);
+      mit.rebind(mstream);
     } catch (std::exception &) {
       return 2;
     }
-    /* left shift data */
-    swap(0, 1);
-    swap(1, 2);
-    /* collect header and first data block */
-    mit.set_begin();
-    if (mit.collect(mcsvec[index])) {
-      fprintf(stderr,
-              "[ERROR] Failed initializing Aod1bDataStream from %s (traceback: %s)\n",
-              pfn, __func__);
-      return 1;
-    }
-    mhdrvec[index] = mit.header();
-    /* place iterator at next block */
-    if (mit.advance()) {
-      fprintf(stderr,
-              "[ERROR] Failed initializing Aod1bDataStream (traceback: %s)\n",
-              __func__);
-      return 1;
-    }
     /* all done */
     return 0;
   }
diff --git a/src/lib/aod1b/aod1bnontidalproductnaming.cpp b/src/lib/aod1b/aod1bnontidalproductnaming.cpp
index e1b7898..cb40f81 100644
--- a/src/lib/aod1b/aod1bnontidalproductnaming.cpp
+++ b/src/lib/aod1b/aod1bnontidalproductnaming.cpp
@@ -25,7 +25,14 @@ const char *dso::Aod1bNonTidalProductNaming::filename(
 int dso::Aod1bNonTidalProductNaming::resolve_rl(const char *fn) noexcept {
   /* Find the last occurrence of '/' to get the filename */
   const char *basename = std::strrchr(fn, '/');
-  ++basename;
+  basename = basename ? basename + 1 : fn;
+  if (std::strlen(basename) < 21) {
+    fprintf(
+        stderr,
+        "[ERROR] Failed resolving RL from AOD1B filename %s (traceback: %s)\n",
+        basename, __func__);
+    return -100;
+  }
   int rl;
   const auto j = std::from_chars(basename + 19, basename + 21, rl);
   if (j.ec != std::errc{}) {
-- 
2.43.0


From f3c7530aaf52030c4a5462b94b9d63eb19b7f45e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:11 +0000
Subject: [PATCH 38/87] fix: keep the name of a tide model inside its field

---
 include/atmospheric_tides.hpp | 4 ++--
 include/ocean_tide.hpp        | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/atmospheric_tides.hpp b/include/atmospheric_tides.hpp
index a724e1d..3f27ea6 100644
--- a/include/atmospheric_tides.hpp
+++ b/include/atmospheric_tides.hpp
@@ -88,7 +88,7 @@ public:
   /** @brief Constructor, optionally using a model name (no waves added). */
   AtmosphericTide(const char *name=nullptr):matlas() {
     if (name)
-      std::strcpy(matlas.name(), name);
+      std::strncpy(matlas.name(), name, TideAtlas::NAME_MAX_CHARS - 1);
   }
 
   /** @brief Constructor, using an atlas and optionally a model name. */
@@ -99,7 +99,7 @@ public:
     if (max_order < max_degree)
       mcs.resize(max_degree, max_order);
     if (name)
-      std::strcpy(matlas.name(), name);
+      std::strncpy(matlas.name(), name, TideAtlas::NAME_MAX_CHARS - 1);
   }
   
   /** @brief Max degree of the model (as in mcs) */
diff --git a/include/ocean_tide.hpp b/include/ocean_tide.hpp
index a205be1..cc6c22c 100644
--- a/include/ocean_tide.hpp
+++ b/include/ocean_tide.hpp
@@ -136,7 +136,7 @@ public:
     if (max_order < max_degree)
       mcs.resize(max_degree, max_order);
     if (name)
-      std::strcpy(matlas.name(), name);
+      std::strncpy(matlas.name(), name, TideAtlas::NAME_MAX_CHARS - 1);
   }
 
   /** @brief Constructor given an atlas, a GroopsTideModel (for admittance) and 
@@ -158,7 +158,7 @@ public:
     if (max_order < max_degree)
       mcs.resize(max_degree, max_order);
     if (name)
-      std::strcpy(matlas.name(), name);
+      std::strncpy(matlas.name(), name, TideAtlas::NAME_MAX_CHARS - 1);
   }
 
   /** @brief Destructor; deletes GroopsTideModel if any. */
-- 
2.43.0


From bf37f169ca8451519a1f80cdf0f2be7b00dd8c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:11 +0000
Subject: [PATCH 39/87] fix: report atmospheric tide products that name no wave

---
 src/lib/atmospheric_tides/atm_tides_append_wave.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/lib/atmospheric_tides/atm_tides_append_wave.cpp b/src/lib/atmospheric_tides/atm_tides_append_wave.cpp
index 44b3766..1c6903f 100644
--- a/src/lib/atmospheric_tides/atm_tides_append_wave.cpp
+++ b/src/lib/atmospheric_tides/atm_tides_append_wave.cpp
@@ -17,6 +17,15 @@ int dso::AtmosphericTide::append_wave(const char *aod1b_fn, int max_degree,
     if (max_order < 0)
       max_order = aod1b.max_degree();
 
+    /* the product must name its wave */
+    if (!aod1b.tidal_wave().name()[0]) {
+      fprintf(stderr,
+              "[ERROR] No partial tide recorded in AOD1B file %s (traceback: "
+              "%s)\n",
+              aod1b_fn, __func__);
+      return 1;
+    }
+
     /* construct new instance */
     dso::TidalConstituent newWave(aod1b.tidal_wave(), max_degree, max_order);
 
-- 
2.43.0


From 421212090edef610e9bfeb307438a185875eaf84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:11 +0000
Subject: [PATCH 40/87] fix: do not shrink an atmospheric tide model when a
 wave is appended

---
 src/lib/atmospheric_tides/atm_tides_append_wave.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/lib/atmospheric_tides/atm_tides_append_wave.cpp b/src/lib/atmospheric_tides/atm_tides_append_wave.cpp
index 1c6903f..17b9bfe 100644
--- a/src/lib/atmospheric_tides/atm_tides_append_wave.cpp
+++ b/src/lib/atmospheric_tides/atm_tides_append_wave.cpp
@@ -1,4 +1,5 @@
 #include "atmospheric_tides.hpp"
+#include <algorithm>
 #include <stdexcept>
 
 int dso::AtmosphericTide::append_wave(const char *aod1b_fn, int max_degree,
@@ -52,10 +53,8 @@ int dso::AtmosphericTide::append_wave(const char *aod1b_fn, int max_degree,
 
   /* do we need to re-size the instance's stokes coeffs size? */
   if (mdeg_collected > mcs.max_degree() || mord_collected > mcs.max_order()) {
-    mcs.cresize(mdeg_collected, mord_collected);
-  }
-  if (mdeg_collected > mcs.max_degree() || mord_collected > mcs.max_order()) {
-    mcs.cresize(mdeg_collected, mord_collected);
+    mcs.cresize(std::max(mdeg_collected, mcs.max_degree()),
+                std::max(mord_collected, mcs.max_order()));
   }
 
   return 0;
-- 
2.43.0


From a6172cec1f05a1fbf0498e5d3eac844a6e3d6d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:11 +0000
Subject: [PATCH 41/87] fix: sum atmospheric tide waves of different degrees

---
 src/lib/atmospheric_tides/atm_tides_geopotential.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/lib/atmospheric_tides/atm_tides_geopotential.cpp b/src/lib/atmospheric_tides/atm_tides_geopotential.cpp
index d282988..313cb0d 100644
--- a/src/lib/atmospheric_tides/atm_tides_geopotential.cpp
+++ b/src/lib/atmospheric_tides/atm_tides_geopotential.cpp
@@ -22,10 +22,13 @@ int dso::AtmosphericTide::stokes_coeffs(
                        wave.wave().doodson().pifactor() * dso::DPI/2;
     const double carg = std::cos(arg);
     const double sarg = std::sin(arg);
-    mcs.Cnm() +=
-        wave.stokes_cos().Cnm() * carg + wave.stokes_sin().Cnm() * sarg;
-    mcs.Snm() +=
-        wave.stokes_cos().Snm() * carg + wave.stokes_sin().Snm() * sarg;
+    /* a wave may be of lower degree than the model */
+    const int c = wave.stokes_cos().max_degree() + 1;
+    const int s = wave.stokes_sin().max_degree() + 1;
+    mcs.Cnm() += wave.stokes_cos().Cnm().reduced_view(c, c) * carg;
+    mcs.Cnm() += wave.stokes_sin().Cnm().reduced_view(s, s) * sarg;
+    mcs.Snm() += wave.stokes_cos().Snm().reduced_view(c, c) * carg;
+    mcs.Snm() += wave.stokes_sin().Snm().reduced_view(s, s) * sarg;
   }
 
   return 0;
-- 
2.43.0


From f10cc854685462b5250cefb3ed72191253ce81bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:33 +0000
Subject: [PATCH 42/87] fix: give an empty atmospheric tide model its degree
 zero coefficients

---
 include/atmospheric_tides.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/atmospheric_tides.hpp b/include/atmospheric_tides.hpp
index 3f27ea6..8a84759 100644
--- a/include/atmospheric_tides.hpp
+++ b/include/atmospheric_tides.hpp
@@ -86,7 +86,7 @@ public:
   TideAtlas &atlas() noexcept {return matlas;}
 
   /** @brief Constructor, optionally using a model name (no waves added). */
-  AtmosphericTide(const char *name=nullptr):matlas() {
+  AtmosphericTide(const char *name=nullptr):matlas(), mcs(0) {
     if (name)
       std::strncpy(matlas.name(), name, TideAtlas::NAME_MAX_CHARS - 1);
   }
-- 
2.43.0


From 36c47918c64e515bd727454c14c447cf24181389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:30 +0000
Subject: [PATCH 43/87] fix: report tide atlas file lists that cannot be read
 or lack a column

---
 src/lib/tide_atlas_groops.cpp | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/lib/tide_atlas_groops.cpp b/src/lib/tide_atlas_groops.cpp
index 8873c53..5b5103f 100644
--- a/src/lib/tide_atlas_groops.cpp
+++ b/src/lib/tide_atlas_groops.cpp
@@ -58,7 +58,7 @@ namespace {
  * @param[in] fn Filename
  * @return A vector of string, i.e. the filenames recorded/parsed in the file.
  */
-std::vector<std::string> resolve_file_list(const char *fn) noexcept {
+std::vector<std::string> resolve_file_list(const char *fn) {
   std::ifstream fin(fn);
   if (!fin.is_open()) {
     fprintf(stderr, "[ERROR] Failed opening file %s (traceback: %s)\n", fn,
@@ -82,10 +82,27 @@ std::vector<std::string> resolve_file_list(const char *fn) noexcept {
     const char *end2 = str2;
     while (*end2 && *end2 != ' ')
       ++end2;
+    /* skip empty lines, but every other line should hold two columns */
+    if (end1 == str1)
+      continue;
+    if (end2 == str2) {
+      fprintf(stderr,
+              "[ERROR] Expected two columns in file %s, line \'%s\' "
+              "(traceback: %s)\n",
+              fn, line, __func__);
+      return std::vector<std::string>{};
+    }
     std::string sline(line);
     fnvec.emplace_back(sline.substr(str1 - line, end1 - str1));
     fnvec.emplace_back(sline.substr(str2 - line, end2 - str2));
   }
+
+  /* we should have reached EOF */
+  if (fin.bad() || !fin.eof()) {
+    fprintf(stderr, "[ERROR] Failed reading file %s (traceback: %s)\n", fn,
+            __func__);
+    return std::vector<std::string>{};
+  }
   return fnvec;
 }
 
-- 
2.43.0


From d43351261c68865dba3c1da1bbb65881045a6d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:30 +0000
Subject: [PATCH 44/87] fix: parse tide constituent filenames within their
 bounds

---
 src/lib/tide_atlas_groops.cpp | 62 ++++++++++++++++-------------------
 1 file changed, 28 insertions(+), 34 deletions(-)

diff --git a/src/lib/tide_atlas_groops.cpp b/src/lib/tide_atlas_groops.cpp
index 5b5103f..308a8a8 100644
--- a/src/lib/tide_atlas_groops.cpp
+++ b/src/lib/tide_atlas_groops.cpp
@@ -250,18 +250,18 @@ parse_admittance(const char *fn, int k, int f) noexcept {
 }
 
 struct GroopsTideModelFileName {
-  char _model[48] = {"\0"};
+  std::string _model;
   dso::DoodsonConstituent _doodson;
-  char _constituentName[16] = {"\0"};
+  std::string _constituentName;
   char _sinCos; /* 'c' or 's' */
 
   std::string compile(const char *model_name = nullptr,
                       const dso::DoodsonConstituent *dood = nullptr,
                       const char *wave_name = nullptr,
-                      char sincos = 's') const noexcept {
+                      char sincos = 's') const {
     /* it seems that doodsons written in filename are upper-case ! */
     constexpr const int to_upper = true;
-    const char *m = (model_name == nullptr) ? _model : model_name;
+    const char *m = (model_name == nullptr) ? _model.c_str() : model_name;
     char buf[16] = {'\0'};
     const dso::DoodsonConstituent *d = (dood == nullptr) ? (&_doodson) : (dood);
     d->str(buf, true);
@@ -273,23 +273,30 @@ struct GroopsTideModelFileName {
         ++strl;
       }
     }
-    const char *w = (wave_name == nullptr) ? _constituentName : wave_name;
-    char str[124] = {'\0'};
-    std::sprintf(str, "%s_%s_%s_%s.gfc", m, buf, w,
-                 (sincos == 'c') ? "sin" : "cos");
-    return std::string(str);
+    const char *w =
+        (wave_name == nullptr) ? _constituentName.c_str() : wave_name;
+    return std::string(m) + "_" + buf + "_" + w +
+           ((sincos == 'c') ? "_sin.gfc" : "_cos.gfc");
   }
 
   GroopsTideModelFileName(const char *fn) {
     int error = 0;
     /* pattern is <model name>_<doodson>_<name>_<cos/sin>.gfc */
-    const int sz = std::strlen(fn);
+    const std::string str(fn);
+    const std::size_t sz = str.size();
+    /* the '_' characters that separate the fields, starting from the end */
+    const std::size_t trig = str.rfind('_');
+    const std::size_t name =
+        (trig && trig != std::string::npos) ? str.rfind('_', trig - 1) : trig;
+    const std::size_t dood =
+        (name && name != std::string::npos) ? str.rfind('_', name - 1) : name;
     /* start backwards; check extension fn[sz-4:sz] == .gfc */
-    if (std::strncmp(fn + sz - 4, ".gfc", 4))
+    if (!dood || dood == std::string::npos || trig + 8 != sz ||
+        std::strncmp(fn + sz - 4, ".gfc", 4))
       ++error;
 
     /* check sin/cos fn[sz-7] == sin/cos */
-    {
+    if (!error) {
       if (std::strncmp(fn + sz - 7, "sin", 3)) {
         if (std::strncmp(fn + sz - 7, "cos", 3)) {
           ++error;
@@ -301,28 +308,15 @@ struct GroopsTideModelFileName {
       }
     }
 
-    /* get name of harmonic */
-    int lastchar = sz - 9; /* should be just be before '_[sin|cos]' */
-    {
-      const char *str = fn + lastchar;
-      while (*str && *str != '_')
-        --str;
-      std::memcpy(_constituentName, str + 1, fn + sz - 9 - str);
-      lastchar = str - fn;
-    }
-
-    /* get Doodson */
-    {
-      const char *str = fn + lastchar - 1;
-      while (*str && *str != '_')
-        --str;
-      _doodson = dso::DoodsonConstituent::from_chars(str + 1);
-      lastchar = str - fn;
+    if (!error) {
+      /* get name of harmonic */
+      _constituentName = str.substr(name + 1, trig - name - 1);
+      /* get Doodson */
+      _doodson = dso::DoodsonConstituent::from_chars(fn + dood + 1);
+      /* the rest is the model name */
+      _model = str.substr(0, dood);
     }
 
-    /* the rest is the model name */
-    std::memcpy(_model, fn, lastchar);
-
     if (error) {
       fprintf(stderr,
               "[ERROR] Failed parsing tidal constituent filename %s, part of "
@@ -340,7 +334,7 @@ struct GroopsTideModelFileName {
  * 1. make sure we have no duplicates,
  * 2. make sure for every sin file there is a corresponding cos file
  */
-int validate_file_list(const std::vector<std::string> &file_list) noexcept {
+int validate_file_list(const std::vector<std::string> &file_list) {
   /* search for duplicates */
   std::set<std::string> file_set(file_list.begin(), file_list.end());
   if (file_list.size() != file_set.size()) {
@@ -419,7 +413,7 @@ dso::TideAtlas dso::groops_atlas(const char *file_list, const char *dir,
     if (it == atlas.waves().end()) {
       /* new tidal wave */
       it = atlas.append_wave(dso::TidalWave(wave_info._doodson, 0e0, 0e0,
-                                            wave_info._constituentName),
+                                            wave_info._constituentName.c_str()),
                              (max_degree < 0) ? cmaxdeg : max_degree,
                              (max_order < 0) ? cmaxord : max_order);
       it = atlas.waves().end() - 1;
-- 
2.43.0


From 5f02b3488f34222f1a732a40849be5733cb2f7ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:30 +0000
Subject: [PATCH 45/87] fix: look for the counterpart of a constituent file,
 not for the file itself

---
 src/lib/tide_atlas_groops.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/tide_atlas_groops.cpp b/src/lib/tide_atlas_groops.cpp
index 308a8a8..8e06073 100644
--- a/src/lib/tide_atlas_groops.cpp
+++ b/src/lib/tide_atlas_groops.cpp
@@ -276,7 +276,7 @@ struct GroopsTideModelFileName {
     const char *w =
         (wave_name == nullptr) ? _constituentName.c_str() : wave_name;
     return std::string(m) + "_" + buf + "_" + w +
-           ((sincos == 'c') ? "_sin.gfc" : "_cos.gfc");
+           ((sincos == 'c') ? "_cos.gfc" : "_sin.gfc");
   }
 
   GroopsTideModelFileName(const char *fn) {
-- 
2.43.0


From 49ae43adf4a98ba85417b3118a92a84b76ae2a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:30 +0000
Subject: [PATCH 46/87] fix: reject tide atlas file lists with two pairs of
 files for a wave

---
 src/lib/tide_atlas_groops.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/lib/tide_atlas_groops.cpp b/src/lib/tide_atlas_groops.cpp
index 8e06073..2117dd1 100644
--- a/src/lib/tide_atlas_groops.cpp
+++ b/src/lib/tide_atlas_groops.cpp
@@ -357,6 +357,17 @@ int validate_file_list(const std::vector<std::string> &file_list) {
               f.c_str(), fr.c_str(), __func__);
       return 2;
     }
+    /* the pair should be the only one of this wave, i.e. Doodson number */
+    for (const auto &g : file_list) {
+      if (g != f && g != fr &&
+          GroopsTideModelFileName(g.c_str())._doodson == gfn._doodson) {
+        fprintf(stderr,
+                "[WRNNG] Files %s and %s are of the same tidal wave "
+                "(traceback: %s)\n",
+                f.c_str(), g.c_str(), __func__);
+        return 3;
+      }
+    }
   }
   return 0;
 }
-- 
2.43.0


From 83b6414a2e848ca19b44c2dcc0545c074f714876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:30 +0000
Subject: [PATCH 47/87] fix: keep path and name of a tide atlas within their
 buffers

---
 src/lib/tide_atlas_groops.cpp | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/lib/tide_atlas_groops.cpp b/src/lib/tide_atlas_groops.cpp
index 2117dd1..cb0c838 100644
--- a/src/lib/tide_atlas_groops.cpp
+++ b/src/lib/tide_atlas_groops.cpp
@@ -434,20 +434,15 @@ dso::TideAtlas dso::groops_atlas(const char *file_list, const char *dir,
       ;
     }
 
-    char cfilename[248];
-    {
-      /* construct full filename, including path */
-      std::strcpy(cfilename, dir);
+    /* construct full filename, including path */
 #ifdef _WIN32
-      std::strcat(cfilename, "\\");
+    const std::string cfilename = std::string(dir) + "\\" + wave_fn;
 #else
-      std::strcat(cfilename, "/");
+    const std::string cfilename = std::string(dir) + "/" + wave_fn;
 #endif
-      std::strcat(cfilename, wave_fn.c_str());
-    }
 
     /* an Icgem instance to read data from (Stokes coefficients) */
-    dso::Icgem icgem(cfilename);
+    dso::Icgem icgem(cfilename.c_str());
     // if (tmp_name[0] && std::strcmp(tmp_name, icgem.model_name())) {
     //   fprintf(stderr,
     //           "[WRNNG] Model name in file %s differs from previous files,
@@ -455,7 +450,8 @@ dso::TideAtlas dso::groops_atlas(const char *file_list, const char *dir,
     //           "%s vs %s (traceback: %s)\n",
     //           wave_fn.c_str(), icgem.model_name(), tmp_name, __func__);
     // }
-    std::strcpy(tmp_name, icgem.model_name());
+    std::strncpy(tmp_name, icgem.model_name(),
+                 dso::TideAtlas::NAME_MAX_CHARS - 1);
 
     /* read coefficients to sin/cos part */
     dso::StokesCoeffs *cs =
-- 
2.43.0


From bb9d862cfa1346abf550ff9d00a20810fe91141f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:30 +0000
Subject: [PATCH 48/87] fix: report Doodson files that cannot be read and stay
 inside their lines

---
 src/lib/tide_atlas_groops.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lib/tide_atlas_groops.cpp b/src/lib/tide_atlas_groops.cpp
index cb0c838..ec9abd4 100644
--- a/src/lib/tide_atlas_groops.cpp
+++ b/src/lib/tide_atlas_groops.cpp
@@ -125,19 +125,19 @@ Eigen::Matrix<int, Eigen::Dynamic, 6> parse_doodson(const char *fn) noexcept {
   constexpr const int LSZ = 124;
   char line[LSZ];
   int error = 0;
-  while (fin.getline(line, LSZ) && (!error)) {
+  while ((!error) && fin.getline(line, LSZ)) {
     std::array<int, 6> ar;
-    auto sz = std::strlen(line);
+    const char *end = line + std::strlen(line);
     const char *str = line;
     for (int i = 0; i < 6; i++) {
-      auto res = std::from_chars(skipws(str), str + sz, ar[i]);
+      auto res = std::from_chars(skipws(str), end, ar[i]);
       error += (res.ec != std::errc{});
       str = res.ptr;
     }
     data.push_back(ar);
   }
 
-  if (error) {
+  if (error || fin.bad() || !fin.eof()) {
     fprintf(stderr,
             "[ERROR] Failed resolving Doodson numbers from file %s (traceback: "
             "%s)\n",
-- 
2.43.0


From 3076de6b5cf9c80f302e809942d0946efa894f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:30 +0000
Subject: [PATCH 49/87] fix: read exactly the expected rows and columns of an
 admittance file

---
 src/lib/tide_atlas_groops.cpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/lib/tide_atlas_groops.cpp b/src/lib/tide_atlas_groops.cpp
index ec9abd4..62e170b 100644
--- a/src/lib/tide_atlas_groops.cpp
+++ b/src/lib/tide_atlas_groops.cpp
@@ -195,8 +195,8 @@ parse_admittance(const char *fn, int k, int f) noexcept {
 #else
   Eigen::MatrixXd mat = Eigen::MatrixXd(rows, cols);
 #endif
-  while (fin.getline(line, LSZ) && (!error)) {
-    if (row > rows) {
+  while ((!error) && fin.getline(line, LSZ)) {
+    if (row >= rows) {
       fprintf(stderr,
               "[ERROR] More rows than expected in admittance file %s "
               "(traceback: %s)\n",
@@ -208,26 +208,28 @@ parse_admittance(const char *fn, int k, int f) noexcept {
       return Eigen::MatrixXd();
 #endif
     }
-    auto sz = std::strlen(line);
+    const char *end = line + std::strlen(line);
     const char *str = line;
     for (int col = 0; col < cols; col++) {
 #ifdef SPARSE_ADMITTANCE_MATRIX
-      double val;
-      auto res = std::from_chars(skipws(str), str + sz, val);
+      double val = 0e0;
+      auto res = std::from_chars(skipws(str), end, val);
       if (val)
         mat.insert(row, col) = val;
 #else
-      auto res = std::from_chars(skipws(str), str + sz, mat(row, col));
+      auto res = std::from_chars(skipws(str), end, mat(row, col));
 #endif
       error += (res.ec != std::errc{});
       str = res.ptr;
     }
+    /* no more columns than expected */
+    error += (*skipws(str) != '\0');
     ++row;
   }
 
   std::free(line);
 
-  if (error || !(fin.good() || fin.eof())) {
+  if (error || fin.bad() || !fin.eof() || row != rows) {
     fprintf(
         stderr,
         "[ERROR] Failed resolving admittance from file %s (traceback: %s)\n",
-- 
2.43.0


From c936676c591b6b568b6b97da34bcd3c7bd76b163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:30 +0000
Subject: [PATCH 50/87] fix: keep the name of a TidalWave terminated

---
 include/doodson.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/doodson.hpp b/include/doodson.hpp
index f25a0ec..6f13616 100644
--- a/include/doodson.hpp
+++ b/include/doodson.hpp
@@ -507,7 +507,7 @@ public:
   TidalWave(const DoodsonConstituent &d, double per=0, double hf=0,
             const char *name=nullptr) noexcept
       : _d(d), _per(per), _hf(hf) {
-    if (name) std::strncpy(_n, name, detail::MAX_CHARS_TIDAL_WAVE);
+    if (name) std::strncpy(_n, name, detail::MAX_CHARS_TIDAL_WAVE - 1);
   }
 }; /* TidalWave */
 
-- 
2.43.0


From 2fb3f813e4f8940cfa3f2682d16012901bad6ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:30 +0000
Subject: [PATCH 51/87] fix: consider the quadrature coefficients in the degree
 of a tide atlas

---
 include/tide_atlas.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/tide_atlas.hpp b/include/tide_atlas.hpp
index e0bcd6f..6086fe7 100644
--- a/include/tide_atlas.hpp
+++ b/include/tide_atlas.hpp
@@ -82,7 +82,9 @@ public:
     max_order = 0;
     for (const auto &w : mwaves) {
       max_degree = std::max(max_degree, w.stokes_cos().max_degree());
+      max_degree = std::max(max_degree, w.stokes_sin().max_degree());
       max_order = std::max(max_order, w.stokes_cos().max_order());
+      max_order = std::max(max_order, w.stokes_sin().max_order());
     }
     return max_degree;
   }
@@ -90,6 +92,7 @@ public:
     int max_degree = 0;
     for (const auto &w : mwaves) {
       max_degree = std::max(max_degree, w.stokes_cos().max_degree());
+      max_degree = std::max(max_degree, w.stokes_sin().max_degree());
     }
     return max_degree;
   }
-- 
2.43.0


From e4d0c8341a5ee68d125ae708001cd944004f8c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:30 +0000
Subject: [PATCH 52/87] fix: sum ocean tide waves of different degrees

---
 src/lib/ocean_tide/ocean_tide_potential.cpp | 22 +++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/lib/ocean_tide/ocean_tide_potential.cpp b/src/lib/ocean_tide/ocean_tide_potential.cpp
index fc9e53c..9a038d8 100644
--- a/src/lib/ocean_tide/ocean_tide_potential.cpp
+++ b/src/lib/ocean_tide/ocean_tide_potential.cpp
@@ -22,10 +22,13 @@ int dso::OceanTide::stokes_coeffs_impl(
     const double arg = wave.wave().doodson().argument(f);
     const double carg = std::cos(arg);
     const double sarg = std::sin(arg);
-    mcs.Cnm() +=
-        wave.stokes_cos().Cnm() * carg + wave.stokes_sin().Cnm() * sarg;
-    mcs.Snm() +=
-        wave.stokes_cos().Snm() * carg + wave.stokes_sin().Snm() * sarg;
+    /* a wave may be of lower degree than the model */
+    const int c = wave.stokes_cos().max_degree() + 1;
+    const int s = wave.stokes_sin().max_degree() + 1;
+    mcs.Cnm() += wave.stokes_cos().Cnm().reduced_view(c, c) * carg;
+    mcs.Cnm() += wave.stokes_sin().Cnm().reduced_view(s, s) * sarg;
+    mcs.Snm() += wave.stokes_cos().Snm().reduced_view(c, c) * carg;
+    mcs.Snm() += wave.stokes_sin().Snm().reduced_view(s, s) * sarg;
   }
 
   return 0;
@@ -75,10 +78,13 @@ int dso::OceanTide::stokes_coeffs_with_admittance_impl(
   const double *__restrict__ fcos = factorCos.data();
   const double *__restrict__ fsin = factorSin.data();
   for (const auto &wave : atlas().waves()) {
-    mcs.Cnm() +=
-        wave.stokes_cos().Cnm() * (*fcos) + wave.stokes_sin().Cnm() * (*fsin);
-    mcs.Snm() +=
-        wave.stokes_cos().Snm() * (*fcos) + wave.stokes_sin().Snm() * (*fsin);
+    /* a wave may be of lower degree than the model */
+    const int c = wave.stokes_cos().max_degree() + 1;
+    const int s = wave.stokes_sin().max_degree() + 1;
+    mcs.Cnm() += wave.stokes_cos().Cnm().reduced_view(c, c) * (*fcos);
+    mcs.Cnm() += wave.stokes_sin().Cnm().reduced_view(s, s) * (*fsin);
+    mcs.Snm() += wave.stokes_cos().Snm().reduced_view(c, c) * (*fcos);
+    mcs.Snm() += wave.stokes_sin().Snm().reduced_view(s, s) * (*fsin);
     // printf("fcos = %.12e fsin = %.12e\n", *fcos, *fsin);
     ++fcos;
     ++fsin;
-- 
2.43.0


From 365748c1666344b49eb13e5c6b587df4831e485e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:30 +0000
Subject: [PATCH 53/87] fix: move-assign the (missing) admittance of an
 OceanTide

---
 include/ocean_tide.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/ocean_tide.hpp b/include/ocean_tide.hpp
index cc6c22c..0914fe3 100644
--- a/include/ocean_tide.hpp
+++ b/include/ocean_tide.hpp
@@ -193,11 +193,11 @@ public:
 
   /** @brief Move assignment operator */
   OceanTide &operator=(OceanTide &&ot) noexcept {
-    matlas = std::move(ot.matlas);
-    mcs = std::move(ot.mcs);
-    if (gmodel)
-      delete gmodel;
-    if (ot.gmodel) {
+    if (this != &ot) {
+      matlas = std::move(ot.matlas);
+      mcs = std::move(ot.mcs);
+      if (gmodel)
+        delete gmodel;
       gmodel = ot.gmodel;
       ot.gmodel = nullptr;
     }
-- 
2.43.0


From 64553f25b4cb482fc13b67885209635ef5772f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:30 +0000
Subject: [PATCH 54/87] fix: report an admittance matrix that does not match
 the tide atlas

---
 include/ocean_tide.hpp                      |  4 +++-
 src/lib/ocean_tide/ocean_tide_potential.cpp | 10 ++++++++++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/include/ocean_tide.hpp b/include/ocean_tide.hpp
index 0914fe3..eb46af2 100644
--- a/include/ocean_tide.hpp
+++ b/include/ocean_tide.hpp
@@ -77,7 +77,9 @@ private:
    *            d  : Mean elongation of the Moon from the Sun [rad]
    *            om : Mean longitude of the ascending node of the Moon [rad]
    * @return Always zero. Note that the computed Stokes coeffs are stored in
-   *            the instance's mcs member variable.
+   *            the instance's mcs member variable. The version that includes
+   *            admittance returns a non-zero integer if the admittance matrix
+   *            does not match the waves of the atlas.
    */
   int stokes_coeffs_impl(const MjdEpoch &mjdtt, const MjdEpoch &mjdut1,
                          const double *const delaunay_args) noexcept;
diff --git a/src/lib/ocean_tide/ocean_tide_potential.cpp b/src/lib/ocean_tide/ocean_tide_potential.cpp
index 9a038d8..6ce84b3 100644
--- a/src/lib/ocean_tide/ocean_tide_potential.cpp
+++ b/src/lib/ocean_tide/ocean_tide_potential.cpp
@@ -37,6 +37,16 @@ int dso::OceanTide::stokes_coeffs_impl(
 int dso::OceanTide::stokes_coeffs_with_admittance_impl(
     const dso::MjdEpoch &mjdtt, const dso::MjdEpoch &mjdut1,
     const double *const delaunay_args) noexcept {
+  /* the admittance should match the waves of the atlas */
+  if (num_major_waves() != (int)atlas().waves().size() ||
+      admittance_matrix().cols() != num_waves()) {
+    fprintf(stderr,
+            "[ERROR] Admittance matrix does not match the waves of the tide "
+            "atlas (traceback: %s)\n",
+            __func__);
+    return 1;
+  }
+
   /* nullify geopotential coeffs */
   mcs.clear();
 
-- 
2.43.0


From f8a8ed049ae306b299b6c0e2f28e2b0b790cd083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:27 +0000
Subject: [PATCH 55/87] fix: see a last unterminated line after the tidal
 coefficients

---
 src/lib/aod1b/aod1b_get_tidal_wave.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/aod1b/aod1b_get_tidal_wave.cpp b/src/lib/aod1b/aod1b_get_tidal_wave.cpp
index ef55571..f7eb17b 100644
--- a/src/lib/aod1b/aod1b_get_tidal_wave.cpp
+++ b/src/lib/aod1b/aod1b_get_tidal_wave.cpp
@@ -173,7 +173,7 @@ int dso::Aod1bIn::get_tidal_wave_coeffs(dso::StokesCoeffs &cCs,
 
   /* make sure there is no more data left in the file */
   fin.getline(line, MAXL);
-  if (!fin.eof()) {
+  if (!fin.eof() || *skipws(line)) {
     fprintf(stderr,
             "[ERROR] Expected to reach EOF for AOD1B file %s but didn't! "
             "(traceback: %s)\n",
-- 
2.43.0


From c6ef4a0d64f71da6ec3525e8d05bb0e2c657b5d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:00 +0000
Subject: [PATCH 56/87] fix: reject negative degrees of ocean pole tide
 coefficients

---
 src/lib/pole_tide/parse_desai02_coeffs.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/pole_tide/parse_desai02_coeffs.cpp b/src/lib/pole_tide/parse_desai02_coeffs.cpp
index 9c41fb1..a740e0f 100644
--- a/src/lib/pole_tide/parse_desai02_coeffs.cpp
+++ b/src/lib/pole_tide/parse_desai02_coeffs.cpp
@@ -47,7 +47,7 @@ int dso::pole_tide_details::parse_desai02_coeffs(
     return 1;
   }
 
-  if ((max_degree < max_order) ||
+  if ((max_order < 0) || (max_degree < max_order) ||
       (max_degree > dso::pole_tide_details::MAX_DEGREE_DESAI_2002) ||
       (max_order > dso::pole_tide_details::MAX_ORDER_DESAI_2002)) {
     fprintf(stderr,
-- 
2.43.0


From 0ef248ee8b45e321cd85c55b689cb7543133f067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:00 +0000
Subject: [PATCH 57/87] fix: report malformed rows of ocean pole tide
 coefficients

---
 src/lib/pole_tide/parse_desai02_coeffs.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/lib/pole_tide/parse_desai02_coeffs.cpp b/src/lib/pole_tide/parse_desai02_coeffs.cpp
index a740e0f..a5e3795 100644
--- a/src/lib/pole_tide/parse_desai02_coeffs.cpp
+++ b/src/lib/pole_tide/parse_desai02_coeffs.cpp
@@ -1,4 +1,5 @@
 #include "pole_tide.hpp"
+#include <cctype>
 #include <charconv>
 #include <cstdio>
 #include <cstring>
@@ -28,6 +29,10 @@ inline const char *skipws(const char *line) noexcept {
     ++line;
   return line;
 }
+/* a number just read must be followed by whitespace or the end of the line */
+inline bool ends_field(const char *c) noexcept {
+  return !*c || std::isspace(static_cast<unsigned char>(*c));
+}
 } /* unnamed namespace */
 
 int dso::pole_tide_details::parse_desai02_coeffs(
@@ -98,17 +103,18 @@ int dso::pole_tide_details::parse_desai02_coeffs(
     auto sz = std::strlen(line);
     const char *from = line;
     auto res = std::from_chars(skipws(from), line + sz, l);
-    error += (res.ec != std::errc{});
+    error += (res.ec != std::errc{} || !ends_field(res.ptr));
     from = res.ptr;
     res = std::from_chars(skipws(from), line + sz, m);
-    error += (res.ec != std::errc{});
+    error += (res.ec != std::errc{} || !ends_field(res.ptr));
     from = res.ptr;
     for (int i = 0; i < 4; i++) {
       res = std::from_chars(skipws(from), line + sz, data[i]);
-      error += (res.ec != std::errc{});
+      error += (res.ec != std::errc{} || !ends_field(res.ptr));
       from = res.ptr;
     }
-    if (l <= max_degree && m <= max_order) {
+    error += (m < 0 || m > l);
+    if (!error && l <= max_degree && m <= max_order) {
       A_real(l, m) = data[0];
       B_real(l, m) = data[1];
       A_imag(l, m) = data[2];
-- 
2.43.0


From 7f81da20e041eae00bf9fcef286ea4ebe58d35cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:00 +0000
Subject: [PATCH 58/87] fix: report ocean pole tide coefficients missing from
 the file

---
 src/lib/pole_tide/parse_desai02_coeffs.cpp | 23 +++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/lib/pole_tide/parse_desai02_coeffs.cpp b/src/lib/pole_tide/parse_desai02_coeffs.cpp
index a5e3795..30b8236 100644
--- a/src/lib/pole_tide/parse_desai02_coeffs.cpp
+++ b/src/lib/pole_tide/parse_desai02_coeffs.cpp
@@ -1,9 +1,12 @@
 #include "pole_tide.hpp"
+#include <algorithm>
 #include <cctype>
 #include <charconv>
+#include <cmath>
 #include <cstdio>
 #include <cstring>
 #include <fstream>
+#include <limits>
 
 namespace {
 inline bool cmp_nwsc(const char *line) noexcept {
@@ -82,6 +85,12 @@ int dso::pole_tide_details::parse_desai02_coeffs(
   B_real.fill_with(0e0);
   B_imag.fill_with(0e0);
 
+  /* every coefficient but C(0,0) must be found in the file; mark them */
+  for (int col = 0; col <= max_order; col++) {
+    for (int row = std::max(col, 1); row <= max_degree; row++)
+      A_real(row, col) = std::numeric_limits<double>::quiet_NaN();
+  }
+
   constexpr const int SZ = 256;
   char line[SZ];
 
@@ -132,7 +141,7 @@ int dso::pole_tide_details::parse_desai02_coeffs(
     return 1;
   }
 
-  if (!fin.good() && !fin.eof()) {
+  if (fin.bad() || (!fin.good() && !fin.eof())) {
     fprintf(stderr,
             "[ERROR] Failed resolving data in Ocean Pole Tide coeffs file %s "
             "(traceback: %s)\n",
@@ -142,5 +151,17 @@ int dso::pole_tide_details::parse_desai02_coeffs(
     return 5;
   }
 
+  for (int col = 0; col <= max_order; col++) {
+    for (int row = std::max(col, 1); row <= max_degree; row++) {
+      if (std::isnan(A_real(row, col))) {
+        fprintf(stderr,
+                "[ERROR] No coefficients of degree/order %d/%d in Ocean Pole "
+                "Tide coeffs file %s (traceback: %s)\n",
+                row, col, fn, __func__);
+        return 6;
+      }
+    }
+  }
+
   return 0;
 }
-- 
2.43.0


From 0dc6bc8e9e3b969b4672319339909c99eb19f0fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:00 +0000
Subject: [PATCH 59/87] fix: hold the love number factors of all 361 ocean pole
 tide degrees

---
 src/lib/pole_tide/ocean_pole_tide_geopotential.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/pole_tide/ocean_pole_tide_geopotential.cpp b/src/lib/pole_tide/ocean_pole_tide_geopotential.cpp
index 6a24af7..c910691 100644
--- a/src/lib/pole_tide/ocean_pole_tide_geopotential.cpp
+++ b/src/lib/pole_tide/ocean_pole_tide_geopotential.cpp
@@ -218,7 +218,7 @@ int dso::OceanPoleTide::stokes_coeffs(const dso::MjdEpoch &t, double xp,
   const double freal = m1 * g2_real + m2 * g2_imag;
   const double fimag = m2 * g2_real - m1 * g2_imag;
 
-  double knfac_arr[pole_tide_details::MAX_DEGREE_DESAI_2002];
+  double knfac_arr[pole_tide_details::MAX_DEGREE_DESAI_2002 + 1];
   double *__restrict__ knfac = &(knfac_arr[0]);
 
   /* order: m = 0; compute kn factors */
-- 
2.43.0


From 27d136011a237c9d02378063aa5b73afa870bc4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:00 +0000
Subject: [PATCH 60/87] fix: do not keep earlier coefficients in a partial
 ocean pole tide expansion

---
 src/lib/pole_tide/ocean_pole_tide_geopotential.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lib/pole_tide/ocean_pole_tide_geopotential.cpp b/src/lib/pole_tide/ocean_pole_tide_geopotential.cpp
index c910691..5bc2d7a 100644
--- a/src/lib/pole_tide/ocean_pole_tide_geopotential.cpp
+++ b/src/lib/pole_tide/ocean_pole_tide_geopotential.cpp
@@ -221,6 +221,9 @@ int dso::OceanPoleTide::stokes_coeffs(const dso::MjdEpoch &t, double xp,
   double knfac_arr[pole_tide_details::MAX_DEGREE_DESAI_2002 + 1];
   double *__restrict__ knfac = &(knfac_arr[0]);
 
+  /* coefficients that are not computed below are zero */
+  mcs.clear();
+
   /* order: m = 0; compute kn factors */
   int m = 0;
   for (int l = m; l <= max_degree; l++) {
-- 
2.43.0


From 93c2f0210b8db969d081ec691e45bbbeffb3e2be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:42 +0000
Subject: [PATCH 61/87] fix: report malformed headers of ocean pole tide
 deformation grids

---
 .../get_desai_ocp_deformation_coeffs.cpp      | 42 +++++++++++++++----
 1 file changed, 33 insertions(+), 9 deletions(-)

diff --git a/src/lib/pole_tide/get_desai_ocp_deformation_coeffs.cpp b/src/lib/pole_tide/get_desai_ocp_deformation_coeffs.cpp
index 4266e93..c469a88 100644
--- a/src/lib/pole_tide/get_desai_ocp_deformation_coeffs.cpp
+++ b/src/lib/pole_tide/get_desai_ocp_deformation_coeffs.cpp
@@ -1,7 +1,10 @@
 #include "geodesy/units.hpp"
 #include "grid.hpp"
 #include "pole_tide.hpp"
+#include <algorithm>
+#include <cctype>
 #include <charconv>
+#include <cmath>
 #include <cstring>
 #include <fstream>
 #include <geodesy/core/crdtype_warppers.hpp>
@@ -19,12 +22,24 @@ constexpr const int MAX_CH = 256;
 const char *nf(const char *line) noexcept {
   while (*line && *line != '=')
     ++line;
-  ++line;
+  if (*line)
+    ++line;
   while (*line && *line == ' ')
     ++line;
   return line;
 }
 
+/* a number just read must be followed by whitespace or the end of the line */
+bool ends_field(const char *c) noexcept {
+  return !*c || std::isspace(static_cast<unsigned char>(*c));
+}
+
+/* check that an axis is ascending and consistent with its last point */
+bool valid_axis(double start, double step, long pts, double last) noexcept {
+  return pts > 1 && pts < 1000000 && step > 0e0 &&
+         std::abs(start + (pts - 1) * step - last) < 0.1 * step;
+}
+
 /* parse the header off from a opoleloadcoefcmcor.txt file, and return the 
  * grid (as a TwoDimGrid) as specified therein.
  * the function will leave the input stream at a position where the next line 
@@ -67,7 +82,7 @@ int parse_desai_header(std::ifstream &fin,
     }
     const int sz = std::strlen(line);
     auto [ptr, ec] = std::from_chars(nf(line), line + sz, lon_pts);
-    if (ec != std::errc()) {
+    if (ec != std::errc() || !ends_field(ptr)) {
       fprintf(stderr,
               "[ERROR] Failed parsing OPT coeffs file for line %s (traceback: "
               "%s)\n",
@@ -87,7 +102,7 @@ int parse_desai_header(std::ifstream &fin,
     }
     const int sz = std::strlen(line);
     auto [ptr, ec] = std::from_chars(nf(line), line + sz, lon_start);
-    if (ec != std::errc()) {
+    if (ec != std::errc() || !ends_field(ptr)) {
       fprintf(stderr,
               "[ERROR] Failed parsing OPT coeffs file for line %s (traceback: "
               "%s)\n",
@@ -107,7 +122,7 @@ int parse_desai_header(std::ifstream &fin,
     }
     const int sz = std::strlen(line);
     auto [ptr, ec] = std::from_chars(nf(line), line + sz, lon_last);
-    if (ec != std::errc()) {
+    if (ec != std::errc() || !ends_field(ptr)) {
       fprintf(stderr,
               "[ERROR] Failed parsing OPT coeffs file for line %s (traceback: "
               "%s)\n",
@@ -127,7 +142,7 @@ int parse_desai_header(std::ifstream &fin,
     }
     const int sz = std::strlen(line);
     auto [ptr, ec] = std::from_chars(nf(line), line + sz, lon_step);
-    if (ec != std::errc()) {
+    if (ec != std::errc() || !ends_field(ptr)) {
       fprintf(stderr,
               "[ERROR] Failed parsing OPT coeffs file for line %s (traceback: "
               "%s)\n",
@@ -147,7 +162,7 @@ int parse_desai_header(std::ifstream &fin,
     }
     const int sz = std::strlen(line);
     auto [ptr, ec] = std::from_chars(nf(line), line + sz, lat_pts);
-    if (ec != std::errc()) {
+    if (ec != std::errc() || !ends_field(ptr)) {
       fprintf(stderr,
               "[ERROR] Failed parsing OPT coeffs file for line %s (traceback: "
               "%s)\n",
@@ -167,7 +182,7 @@ int parse_desai_header(std::ifstream &fin,
     }
     const int sz = std::strlen(line);
     auto [ptr, ec] = std::from_chars(nf(line), line + sz, lat_start);
-    if (ec != std::errc()) {
+    if (ec != std::errc() || !ends_field(ptr)) {
       fprintf(stderr,
               "[ERROR] Failed parsing OPT coeffs file for line %s (traceback: "
               "%s)\n",
@@ -187,7 +202,7 @@ int parse_desai_header(std::ifstream &fin,
     }
     const int sz = std::strlen(line);
     auto [ptr, ec] = std::from_chars(nf(line), line + sz, lat_last);
-    if (ec != std::errc()) {
+    if (ec != std::errc() || !ends_field(ptr)) {
       fprintf(stderr,
               "[ERROR] Failed parsing OPT coeffs file for line %s (traceback: "
               "%s)\n",
@@ -207,7 +222,7 @@ int parse_desai_header(std::ifstream &fin,
     }
     const int sz = std::strlen(line);
     auto [ptr, ec] = std::from_chars(nf(line), line + sz, lat_step);
-    if (ec != std::errc()) {
+    if (ec != std::errc() || !ends_field(ptr)) {
       fprintf(stderr,
               "[ERROR] Failed parsing OPT coeffs file for line %s (traceback: "
               "%s)\n",
@@ -242,6 +257,15 @@ int parse_desai_header(std::ifstream &fin,
   /* last header line is just ommited */
   fin.getline(line, MAX_CH);
 
+  if (!fin.good() || !valid_axis(lon_start, lon_step, lon_pts, lon_last) ||
+      !valid_axis(lat_start, lat_step, lat_pts, lat_last)) {
+    fprintf(stderr,
+            "[ERROR] Failed parsing OPT coeffs file; invalid grid or header "
+            "(traceback: %s)\n",
+            __func__);
+    return 3;
+  }
+
   grd = dso::TwoDimGrid<dso::GridAxis::Y>(lon_start, lon_step, lon_pts,
                                           lat_start, lat_step, lat_pts);
   return 0;
-- 
2.43.0


From 0461c4e0940e822d90b6f74d9446fb5723b1923f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:42 +0000
Subject: [PATCH 62/87] fix: report missing or malformed ocean pole tide
 deformation records

---
 .../pole_tide/get_desai_ocp_deformation_coeffs.cpp  | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/lib/pole_tide/get_desai_ocp_deformation_coeffs.cpp b/src/lib/pole_tide/get_desai_ocp_deformation_coeffs.cpp
index c469a88..6e180ac 100644
--- a/src/lib/pole_tide/get_desai_ocp_deformation_coeffs.cpp
+++ b/src/lib/pole_tide/get_desai_ocp_deformation_coeffs.cpp
@@ -317,7 +317,7 @@ int parse_line(const char *line, OptRecord &rec) {
   const int sz = std::strlen(line);
   for (int i = 0; i < 8; i++) {
     auto res = std::from_chars(skipws(line), line + sz, data[i]);
-    if (res.ec != std::errc{})
+    if (res.ec != std::errc{} || !ends_field(res.ptr))
       ++error;
     line = res.ptr;
   }
@@ -388,11 +388,16 @@ int dso::get_desai_ocp_deformation_coeffs(
   std::vector<OptRecord> recs;
   recs.reserve(sta.size() * 4);
   char line[MAX_CH];
-  fin.getline(line, MAX_CH);
-  long cidx = 0;
+  long cidx = -1;
   for (auto idx : lines2read) {
     while (cidx < idx) {
-      fin.getline(line, MAX_CH);
+      if (!fin.getline(line, MAX_CH)) {
+        fprintf(stderr,
+                "[ERROR] Failed reading OPT record %ld from file %s "
+                "(traceback: %s)\n",
+                cidx + 1, fn, __func__);
+        return 1;
+      }
       ++cidx;
     }
 
-- 
2.43.0


From 3a132a6edb2c9d097502a5b15f2745c7ab4c4c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:42 +0000
Subject: [PATCH 63/87] fix: find the ocean pole tide deformation records
 around any site

---
 include/grid.hpp                              |  4 +
 .../get_desai_ocp_deformation_coeffs.cpp      | 89 +++++++++++--------
 2 files changed, 56 insertions(+), 37 deletions(-)

diff --git a/include/grid.hpp b/include/grid.hpp
index 777c8f7..8968720 100644
--- a/include/grid.hpp
+++ b/include/grid.hpp
@@ -64,6 +64,10 @@ public:
       : mxpts(xpts), mypts(ypts), mxstart(xstart), mxstep(xstep),
         mystart(ystart), mystep(ystep) {};
 
+  int xpts() const noexcept { return mxpts; }
+  int ypts() const noexcept { return mypts; }
+  double xstart() const noexcept { return mxstart; }
+  double ystart() const noexcept { return mystart; }
   double xstep() const noexcept { return mxstep; }
   double ystep() const noexcept { return mystep; }
   double xstop() const noexcept { return mxstart + mxpts * mxstep; }
diff --git a/src/lib/pole_tide/get_desai_ocp_deformation_coeffs.cpp b/src/lib/pole_tide/get_desai_ocp_deformation_coeffs.cpp
index 6e180ac..0d600cc 100644
--- a/src/lib/pole_tide/get_desai_ocp_deformation_coeffs.cpp
+++ b/src/lib/pole_tide/get_desai_ocp_deformation_coeffs.cpp
@@ -274,8 +274,40 @@ int parse_desai_header(std::ifstream &fin,
 /* utility struct: hold indexes/line-numbers of the sourounding nodes */
 struct SiteNode {
   long bl, br, tl, tr;
+  /* position of the site within the cell, in [0,1] */
+  double u, v;
 };
 
+/* find the nodes surrounding a site given by its east longitude and latitude
+ * in [deg]. A grid that covers all longitudes is closed, i.e. its first column
+ * follows its last one.
+ * Anything other than zero is returned if the site is not within the grid.
+ */
+int site2nodes(const dso::TwoDimGrid<dso::GridAxis::Y> &grd, double lon,
+               double lat, SiteNode &node) noexcept {
+  const int nx = grd.xpts();
+  const int ny = grd.ypts();
+  const bool closed = std::abs(nx * grd.xstep() - 360e0) < 1e-3 * grd.xstep();
+  /* longitude w.r.t. the first column, in [0, 360) */
+  double dlon = std::fmod(lon - grd.xstart(), 360e0);
+  if (dlon < 0e0)
+    dlon += 360e0;
+  const double fx = dlon / grd.xstep();
+  const double fy = (lat - grd.ystart()) / grd.ystep();
+  if (!(fy >= 0e0 && fy <= ny - 1) || !(fx >= 0e0 && (closed || fx <= nx - 1)))
+    return 1;
+  const int xi = std::min((int)fx, closed ? nx - 1 : nx - 2);
+  const int yi = std::min((int)fy, ny - 2);
+  const int xn = (xi + 1) % nx;
+  node.bl = (long)yi * nx + xi;
+  node.br = (long)yi * nx + xn;
+  node.tl = node.bl + nx;
+  node.tr = node.br + nx;
+  node.u = fx - xi;
+  node.v = fy - yi;
+  return 0;
+}
+
 /* Flatten out and sort (numerically) a series of SiteNode instances.
  * The resulting vector will hold all individual entries of the passed in 
  * SiteNode's, sorted numerically. Thus the size of the resulting vector will 
@@ -367,15 +399,20 @@ int dso::get_desai_ocp_deformation_coeffs(
    *
    * WARNING!
    * lon is usually in the range [-π, π), but the coefficients file uses the
-   * range [0, 2π)
+   * range [0, 2π) (both counted east of Greenwich)
    */
   std::vector<SiteNode> nodes;
   nodes.reserve(sta.size());
   for (const auto &s : sta) {
-    long bl, br, tl, tr;
-    grd.surrounding_nodes(dso::rad2deg(s.lon() + DPI), dso::rad2deg(s.lat()),
-                          bl, br, tl, tr);
-    nodes.emplace_back(SiteNode{bl, br, tl, tr});
+    SiteNode node;
+    if (site2nodes(grd, dso::rad2deg(s.lon()), dso::rad2deg(s.lat()), node)) {
+      fprintf(stderr,
+              "[ERROR] Site at (%.3f %.3f) is not within the OPT grid "
+              "(traceback: %s)\n",
+              dso::rad2deg(s.lon()), dso::rad2deg(s.lat()), __func__);
+      return 1;
+    }
+    nodes.emplace_back(node);
   }
 
   /* flatten and sort list of indexes (i.e. line numbers) to be read */
@@ -437,45 +474,23 @@ int dso::get_desai_ocp_deformation_coeffs(
       return 1;
     }
     /* bilinear interpolation */
-    const double x1 = bl->lon;
-    const double x2 = br->lon;
-    const double x = dso::rad2deg(site.lon()+DPI);
-    const double y1 = bl->lat;
-    const double y2 = tl->lat;
-    const double y = dso::rad2deg(site.lat());
-    const double f = 1e0 / ((x2 - x1) * (y2 - y1));
-    const double f11 = (x2 - x) * (y2 - y);
-    const double f21 = (x - x1) * (y2 - y);
-    const double f12 = (x2 - x) * (y - y1);
-    const double f22 = (x - x1) * (y - y1);
-#ifdef DEBUG
-    const double x0 = dso::rad2deg(site.lon() + DPI);
-    const double y0 = dso::rad2deg(site.lat());
-    //printf("TL(%.2f, %.2f)    TR(%.2f, %.2f)\n", tl->lon, tl->lat, tr->lon, tr->lat);
-    //printf("             (%.2f,  %.2f)\n", x0, y0);
-    //printf("BL(%.2f, %.2f)    BR(%.2f, %.2f)\n", bl->lon, bl->lat, br->lon, br->lat);
-    assert(bl->lon <= x0 && bl->lat <= y0);
-    assert(br->lon > x0 && br->lat <= y0);
-    assert(tl->lon <= x0 && tl->lat > y0);
-    assert(tr->lon > x0 && tr->lat > y0);
-#endif
-    /* (redundant?) checks */
-    assert(((bl->lon == tl->lon) && (br->lon == tr->lon)) &&
-           ((bl->lat == br->lat) && (tl->lat == tr->lat)));
-    assert(bl->lon <= x && bl->lat <= y);
+    const double f11 = (1e0 - nptr->u) * (1e0 - nptr->v);
+    const double f21 = nptr->u * (1e0 - nptr->v);
+    const double f12 = (1e0 - nptr->u) * nptr->v;
+    const double f22 = nptr->u * nptr->v;
 
     const double rR =
-        f * (bl->rR * f11 + br->rR * f21 + tl->rR * f12 + tr->rR * f22);
+        (bl->rR * f11 + br->rR * f21 + tl->rR * f12 + tr->rR * f22);
     const double rI =
-        f * (bl->rI * f11 + br->rI * f21 + tl->rI * f12 + tr->rI * f22);
+        (bl->rI * f11 + br->rI * f21 + tl->rI * f12 + tr->rI * f22);
     const double nR =
-        f * (bl->nR * f11 + br->nR * f21 + tl->nR * f12 + tr->nR * f22);
+        (bl->nR * f11 + br->nR * f21 + tl->nR * f12 + tr->nR * f22);
     const double nI =
-        f * (bl->nI * f11 + br->nI * f21 + tl->nI * f12 + tr->nI * f22);
+        (bl->nI * f11 + br->nI * f21 + tl->nI * f12 + tr->nI * f22);
     const double eR =
-        f * (bl->eR * f11 + br->eR * f21 + tl->eR * f12 + tr->eR * f22);
+        (bl->eR * f11 + br->eR * f21 + tl->eR * f12 + tr->eR * f22);
     const double eI =
-        f * (bl->eI * f11 + br->eI * f21 + tl->eI * f12 + tr->eI * f22);
+        (bl->eI * f11 + br->eI * f21 + tl->eI * f12 + tr->eI * f22);
 
     /* add interpolated coefficients to return vector */
     coeffs.emplace_back(dso::OceanPoleTideDesaiCoeffs{rR, rI, nR, nI, eR, eI});
-- 
2.43.0


From f15ce8c6bf6aca686af4139c89eb9f6d16e2e2f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:42 +0000
Subject: [PATCH 64/87] fix: report ocean pole tide deformation records of
 other nodes

---
 .../get_desai_ocp_deformation_coeffs.cpp        | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/lib/pole_tide/get_desai_ocp_deformation_coeffs.cpp b/src/lib/pole_tide/get_desai_ocp_deformation_coeffs.cpp
index 0d600cc..31e45f2 100644
--- a/src/lib/pole_tide/get_desai_ocp_deformation_coeffs.cpp
+++ b/src/lib/pole_tide/get_desai_ocp_deformation_coeffs.cpp
@@ -335,6 +335,14 @@ struct OptRecord {
   double lon, lat, rR, rI, nR, nI, eR, eI;
 }; /* OptRecord */
 
+/* check that a record is the one of the grid node of the same index */
+bool at_node(const dso::TwoDimGrid<dso::GridAxis::Y> &grd,
+             const OptRecord &rec) noexcept {
+  const auto node = grd.xyindex2node(rec.index);
+  return std::abs(rec.lon - node.x) < 1e-3 * grd.xstep() &&
+         std::abs(rec.lat - node.y) < 1e-3 * grd.ystep();
+}
+
 /* skip whitespaces */
 const char *skipws(const char *line) noexcept {
   while (*line && *line == ' ')
@@ -473,6 +481,15 @@ int dso::get_desai_ocp_deformation_coeffs(
               dso::rad2deg(site.lon()), dso::rad2deg(site.lat()), __func__);
       return 1;
     }
+    /* the records must be the ones of the surrounding nodes */
+    if (!at_node(grd, *bl) || !at_node(grd, *br) || !at_node(grd, *tl) ||
+        !at_node(grd, *tr)) {
+      fprintf(stderr,
+              "[ERROR] OPT records do not match the grid for site at (%.3f "
+              "%.3f) (traceback: %s)\n",
+              dso::rad2deg(site.lon()), dso::rad2deg(site.lat()), __func__);
+      return 1;
+    }
     /* bilinear interpolation */
     const double f11 = (1e0 - nptr->u) * (1e0 - nptr->v);
     const double f21 = nptr->u * (1e0 - nptr->v);
-- 
2.43.0


From 02270ec538566aaba95c82fc299aa2eda1e62ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:04 +0000
Subject: [PATCH 65/87] fix: do not accept a partially read last Doodson
 multiplier

---
 src/lib/tide_atlas_groops.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib/tide_atlas_groops.cpp b/src/lib/tide_atlas_groops.cpp
index 62e170b..3bbf9df 100644
--- a/src/lib/tide_atlas_groops.cpp
+++ b/src/lib/tide_atlas_groops.cpp
@@ -134,6 +134,8 @@ Eigen::Matrix<int, Eigen::Dynamic, 6> parse_doodson(const char *fn) noexcept {
       error += (res.ec != std::errc{});
       str = res.ptr;
     }
+    /* the last multiplier should be resolved in full */
+    error += (*str && !std::isspace(static_cast<unsigned char>(*str)));
     data.push_back(ar);
   }
 
-- 
2.43.0


From 8c0d73b083664eafa4b8316d91d1f8b5a0853a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:49 +0000
Subject: [PATCH 66/87] fix: bound the memory reserved for free core nutation
 amplitudes

---
 .../free_core_nutation/parse_lambert_coeffs.cpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/lib/free_core_nutation/parse_lambert_coeffs.cpp b/src/lib/free_core_nutation/parse_lambert_coeffs.cpp
index b316515..f4c105a 100644
--- a/src/lib/free_core_nutation/parse_lambert_coeffs.cpp
+++ b/src/lib/free_core_nutation/parse_lambert_coeffs.cpp
@@ -1,4 +1,5 @@
 #include "fcn.hpp"
+#include <algorithm>
 #include <charconv>
 #include <cmath>
 #include <cstdio>
@@ -52,11 +53,16 @@ int dso::parse_lambert_coefficients(
   
   /* clear and allocated space for the coefficients entry */
   lvec.clear();
-  /* approximatelly two entries per year */
-  lvec.reserve(std::ceil(
-      (to.diff<dso::DateTimeDifferenceType::FractionalYears>(from).years() +
-       1) *
-      2e0));
+  /* approximatelly two entries per year, but never more than the lines to be
+   * read from the file
+   */
+  const int max_allowed_lines = 1000;
+  lvec.reserve(std::min(
+      std::ceil(
+          (to.diff<dso::DateTimeDifferenceType::FractionalYears>(from).years() +
+           1) *
+          2e0),
+      (double)max_allowed_lines));
 
   /* open the coefficients file */
   std::ifstream fin(fn);
@@ -89,7 +95,6 @@ int dso::parse_lambert_coefficients(
   }
 
   int error = 0;
-  const int max_allowed_lines = 1000;
   int line_nr = 0;
   double d[5];
   /* loop through file lines */
-- 
2.43.0


From aa725f391c27007cbd34c78d0758e8ca7d1ec616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:49 +0000
Subject: [PATCH 67/87] fix: report malformed or unread free core nutation
 amplitudes

---
 src/lib/free_core_nutation/parse_lambert_coeffs.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/lib/free_core_nutation/parse_lambert_coeffs.cpp b/src/lib/free_core_nutation/parse_lambert_coeffs.cpp
index f4c105a..00b7198 100644
--- a/src/lib/free_core_nutation/parse_lambert_coeffs.cpp
+++ b/src/lib/free_core_nutation/parse_lambert_coeffs.cpp
@@ -1,5 +1,6 @@
 #include "fcn.hpp"
 #include <algorithm>
+#include <cctype>
 #include <charconv>
 #include <cmath>
 #include <cstdio>
@@ -105,10 +106,14 @@ int dso::parse_lambert_coefficients(
     /* resolve the numeric values */
     for (int i = 0; i < 5; i++) {
       const auto res = std::from_chars(skip_ws(str), line + sz, d[i]);
-      if (res.ec != std::errc())
+      /* fields should be resolved in full */
+      if (res.ec != std::errc() ||
+          (*res.ptr && !std::isspace(static_cast<unsigned char>(*res.ptr))))
         ++error;
       str = res.ptr;
     }
+    if (error)
+      break;
     /* are we interested ? */
     if (d[1] >= from.as_mjd() && d[1] < to.as_mjd()) {
       /* resolve fractional MJD to a MjdEpoch */
@@ -131,7 +136,7 @@ int dso::parse_lambert_coefficients(
             fn, __func__);
     return 3;
   }
-  if (!fin && !fin.eof()) {
+  if (fin.bad() || (!fin && !fin.eof())) {
     fprintf(stderr,
             "[ERROR] Failed reading Lambert coefficients from file %s "
             "(traceback: %s)\n",
-- 
2.43.0


From 73cb48dc48092e14bb6b1b99c2d77bca3ee0f100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:49 +0000
Subject: [PATCH 68/87] fix: free core nutation uncertainty grows before the
 first amplitude too

---
 src/lib/free_core_nutation/lambert.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/free_core_nutation/lambert.cpp b/src/lib/free_core_nutation/lambert.cpp
index d29d48e..37f5e3e 100644
--- a/src/lib/free_core_nutation/lambert.cpp
+++ b/src/lib/free_core_nutation/lambert.cpp
@@ -69,7 +69,7 @@ dso::lambert_fcn(const dso::MjdEpoch &t,
 #endif
       const auto it = *lvec.begin();
       const double dt =
-          t.diff<dso::DateTimeDifferenceType::FractionalDays>(it.t).days();
+          it.t.diff<dso::DateTimeDifferenceType::FractionalDays>(t).days();
       axc[0] = it.xc();
       axs[0] = it.xs();
       ayc[0] = it.yc();
-- 
2.43.0


From 204b7db89af506a00276c5cba32203bf917ef163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:49 +0000
Subject: [PATCH 69/87] fix: do not read the amplitudes of an empty free core
 nutation series

---
 src/lib/free_core_nutation/lambert.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib/free_core_nutation/lambert.cpp b/src/lib/free_core_nutation/lambert.cpp
index 37f5e3e..fd10707 100644
--- a/src/lib/free_core_nutation/lambert.cpp
+++ b/src/lib/free_core_nutation/lambert.cpp
@@ -5,6 +5,10 @@
 dso::fcn::FcnResult
 dso::lambert_fcn(const dso::MjdEpoch &t,
                  const std::vector<fcn::LambertCoefficients> &lvec) noexcept {
+  /* no amplitudes, no model */
+  if (lvec.empty())
+    return dso::fcn::FcnResult(0e0, 0e0, 0e0, 0e0);
+
   /* Mean prediction error in [microas / day] */
   constexpr const double mpe = 0.3e0;
 
-- 
2.43.0


From 865be4c1bc8397aa31a7a7de71c72665fa4f48bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:10 +0000
Subject: [PATCH 70/87] fix: time with the monotonic clock

---
 include/clock.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/clock.hpp b/include/clock.hpp
index be849cd..71c2acc 100644
--- a/include/clock.hpp
+++ b/include/clock.hpp
@@ -4,7 +4,7 @@
 #include <cstdio>
 
 struct Clock {
-  using clock_t = std::chrono::high_resolution_clock;
+  using clock_t = std::chrono::steady_clock;
   using duration_t = clock_t::duration;
   
   clock_t::time_point start_time;
-- 
2.43.0


From ce70fe88e0e8dfbba607a490f6ca8cc8ca429e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:10 +0000
Subject: [PATCH 71/87] fix: do not write clock labels past their buffer

---
 include/clock.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/clock.hpp b/include/clock.hpp
index 71c2acc..863562b 100644
--- a/include/clock.hpp
+++ b/include/clock.hpp
@@ -26,7 +26,10 @@ struct Clock {
     return get_total_duration<T>().count() / msamples;
   }
 
-  Clock(const char *n) { std::strcpy(mname, n); }
+  /* labels longer than mname are truncated */
+  Clock(const char *n) {
+    std::strncpy(mname, n, sizeof(mname) - 1);
+  }
 
   Clock(const Clock &other) {
     start_time = other.start_time;
-- 
2.43.0


From af15fefabae89d4e5406638a21f48704898d36a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:10 +0000
Subject: [PATCH 72/87] fix: average running time of a clock without samples

---
 include/clock.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/clock.hpp b/include/clock.hpp
index 863562b..94780b2 100644
--- a/include/clock.hpp
+++ b/include/clock.hpp
@@ -23,6 +23,8 @@ struct Clock {
   }
   template <typename T = std::chrono::microseconds>
   double average_running_time() const {
+    if (!msamples)
+      return 0e0;
     return get_total_duration<T>().count() / msamples;
   }
 
-- 
2.43.0


From c1cdc38d62ca1495507bed152ff5ab6e8a73ffcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:10 +0000
Subject: [PATCH 73/87] fix: match the names of loaded kernels exactly

---
 src/lib/planets/kernel.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/planets/kernel.cpp b/src/lib/planets/kernel.cpp
index 41f04f1..b5be13c 100644
--- a/src/lib/planets/kernel.cpp
+++ b/src/lib/planets/kernel.cpp
@@ -2,7 +2,7 @@
 #include <cstring>
 
 namespace {
-constexpr const int FILLEN = 128;
+constexpr const int FILLEN = 256;
 constexpr const int TYPLEN = 32;
 constexpr const int SRCLEN = 128;
 }
@@ -23,7 +23,7 @@ int dso::cspice::load_if_unloaded(const char *kernel) noexcept {
     for (which = 0; which < count; which++) {
       kdata_c(which, "ALL", FILLEN, TYPLEN, SRCLEN, file, filtyp, source,
               &handle, &found);
-      if (!std::strncmp(file, kernel, std::strlen(kernel)))
+      if (found && !std::strcmp(file, kernel))
         return 0;
     }
   }
-- 
2.43.0


From 3b1ff511f9bf59545ce78af1c35cba2715bf1b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:10 +0000
Subject: [PATCH 74/87] fix: report kernels that fail to load

---
 include/planets.hpp               | 3 +--
 src/lib/planets/kernel.cpp        | 6 +++---
 src/lib/planets/kernel_consts.cpp | 6 ++++--
 3 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/include/planets.hpp b/include/planets.hpp
index 9c3d66c..5b02033 100644
--- a/include/planets.hpp
+++ b/include/planets.hpp
@@ -142,8 +142,7 @@ inline int j2planet_state_from(double et, const char *target_id,
  * https://naif.jpl.nasa.gov/pub/naif/toolkit_docs/C/cspice/furnsh_c.html
  */
 inline int load_spice_kernel(const char *kernel) noexcept {
-  cspice::load_if_unloaded(kernel);
-  return 0;
+  return cspice::load_if_unloaded(kernel);
 }
 
 /* @brief Get planet position w.r.t Earth in GCRF/J2000
diff --git a/src/lib/planets/kernel.cpp b/src/lib/planets/kernel.cpp
index b5be13c..99af99c 100644
--- a/src/lib/planets/kernel.cpp
+++ b/src/lib/planets/kernel.cpp
@@ -8,11 +8,11 @@ constexpr const int SRCLEN = 128;
 }
 
 int dso::cspice::load_if_unloaded(const char *kernel) noexcept {
-  SpiceInt count, which, handle;
+  SpiceInt count = 0, which, handle;
   SpiceChar file[FILLEN];
   SpiceChar filtyp[TYPLEN];
   SpiceChar source[SRCLEN];
-  SpiceBoolean found;
+  SpiceBoolean found = SPICEFALSE;
 
   /* get number of all ascii kernels loaded ... (to find if we already have
    * the LSK kernel loaded)
@@ -29,5 +29,5 @@ int dso::cspice::load_if_unloaded(const char *kernel) noexcept {
   }
 
   furnsh_c(kernel);
-  return 0;
+  return failed_c() ? 1 : 0;
 }
diff --git a/src/lib/planets/kernel_consts.cpp b/src/lib/planets/kernel_consts.cpp
index 4173513..12f566b 100644
--- a/src/lib/planets/kernel_consts.cpp
+++ b/src/lib/planets/kernel_consts.cpp
@@ -3,8 +3,10 @@
 // see https://naif.jpl.nasa.gov/pub/naif/toolkit_docs/C/cspice/bodvrd_c.html
 int dso::sun_moon_gm(double &GMSun, double &GMMoon, int use_si,
                      const char *pck_kernel) noexcept {
-  if (pck_kernel)
-    dso::cspice::load_if_unloaded(pck_kernel);
+  if (pck_kernel) {
+    if (int errc = dso::cspice::load_if_unloaded(pck_kernel); errc)
+      return errc;
+  }
 
   int n;
   /* [km^3/ sec^2] */
-- 
2.43.0


From eb74a20f075f7c1398c72c8e6658623088c30f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:10 +0000
Subject: [PATCH 75/87] fix: report gravitational parameters that cannot be
 read

---
 src/lib/planets/kernel_consts.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib/planets/kernel_consts.cpp b/src/lib/planets/kernel_consts.cpp
index 12f566b..868dd42 100644
--- a/src/lib/planets/kernel_consts.cpp
+++ b/src/lib/planets/kernel_consts.cpp
@@ -12,6 +12,8 @@ int dso::sun_moon_gm(double &GMSun, double &GMMoon, int use_si,
   /* [km^3/ sec^2] */
   bodvrd_c("SUN", "GM", 1, &n, &GMSun);
   bodvrd_c("MOON", "GM", 1, &n, &GMMoon);
+  if (failed_c())
+    return 1;
 
   if (use_si) {
     GMSun *= 1e9;
-- 
2.43.0


From e0e5c08ebcff2306917f3d6838ee1d005ca321a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:10 +0000
Subject: [PATCH 76/87] fix: report planet positions and states that cannot be
 computed

---
 include/planets.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/planets.hpp b/include/planets.hpp
index 5b02033..73a7851 100644
--- a/include/planets.hpp
+++ b/include/planets.hpp
@@ -96,7 +96,7 @@ inline int j2planet_pos_from(double et, int target_id, int observer_id,
   double dummy;
   /* get the position of the planet */
   spkezp_c(target_id, et, "J2000", "NONE", observer_id, pos, &dummy);
-  return 0;
+  return failed_c() ? 1 : 0;
 }
 
 /* @brief State of a target body relative to an observing body.
@@ -130,7 +130,7 @@ inline int j2planet_state_from(double et, const char *target_id,
   double dummy;
   /* get the state of the planet */
   spkezr_c(target_id, et, "J2000", "NONE", observer_id, pv, &dummy);
-  return 0;
+  return failed_c() ? 1 : 0;
 }
 
 } /* namespace cspice */
-- 
2.43.0


From b6ec49d97764123ce5b9fd16222b6c6d5b1284f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:24 +0000
Subject: [PATCH 77/87] fix: dfaf03 at an epoch gives the derivative

---
 include/fundarg.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fundarg.hpp b/include/fundarg.hpp
index 1dda1fd..6109192 100644
--- a/include/fundarg.hpp
+++ b/include/fundarg.hpp
@@ -367,7 +367,7 @@ inline double faf03(const dso::MjdEpoch &tt) noexcept {
 
 /* @brief Overload of dfaf03 using a MjdEpoch */
 inline double dfaf03(const dso::MjdEpoch &tt) noexcept {
-  return iers2010::faf03(tt.jcenturies_sinceJ2000());
+  return iers2010::dfaf03(tt.jcenturies_sinceJ2000());
 }
 
 /* @brief Overload of fad03 using a MjdEpoch */
-- 
2.43.0


From ac3965eb06a171caf46700d7f08b6dd134d9dd4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:42 +0000
Subject: [PATCH 78/87] fix: start the coefficients of a tidal constituent at
 zero

Coefficients past the order of a wave cannot be set through its degree and
order, but were added (uninitialised) to models that reach a higher order.
---
 src/lib/tidal_constituent.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/lib/tidal_constituent.cpp b/src/lib/tidal_constituent.cpp
index 778430f..f3226dc 100644
--- a/src/lib/tidal_constituent.cpp
+++ b/src/lib/tidal_constituent.cpp
@@ -3,9 +3,15 @@
 dso::TidalConstituent::TidalConstituent(const dso::detail::TidalConstituentArrayEntry *wave,
                       int max_degree, int max_order) noexcept
     : mwave(*wave), mCosCs(max_degree, max_order),
-      mSinCs(max_degree, max_order){};
+      mSinCs(max_degree, max_order) {
+  mCosCs.clear();
+  mSinCs.clear();
+}
 
 dso::TidalConstituent::TidalConstituent(const dso::TidalWave &wave, int max_degree,
                       int max_order) noexcept
     : mwave(wave), mCosCs(max_degree, max_order),
-      mSinCs(max_degree, max_order){};
+      mSinCs(max_degree, max_order) {
+  mCosCs.clear();
+  mSinCs.clear();
+}
-- 
2.43.0


From f2c51f765152a168318204fb7cda420d259a2e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:48 +0000
Subject: [PATCH 79/87] fix: node indices of grids that lead with the x-axis

---
 include/grid.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/grid.hpp b/include/grid.hpp
index 8968720..d51a630 100644
--- a/include/grid.hpp
+++ b/include/grid.hpp
@@ -48,7 +48,7 @@ private:
     if constexpr (LeadingAxis == GridAxis::X) {
       idx_br = idx_bl + mypts;
       idx_tl = idx_bl + 1;
-      idx_tr = idx_tl + 1;
+      idx_tr = idx_br + 1;
     } else {
       idx_br = idx_bl + 1;
       idx_tl = idx_bl + mxpts;
@@ -88,7 +88,7 @@ public:
   Node xyindex2node(long index) const noexcept {
     if constexpr (LeadingAxis == GridAxis::X) {
       long xi = index / mypts;
-      long yi = index - xi * mxpts;
+      long yi = index - xi * mypts;
       return Node{xi * mxstep + mxstart, yi * mystep + mystart};
     } else {
       int yi = index / mxpts;
-- 
2.43.0


From 9e1d3e8307a78fadbe4578ff2a1fc90e72eef52a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:48 +0000
Subject: [PATCH 80/87] fix: report no nodes around a point outside the grid

---
 include/grid.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/grid.hpp b/include/grid.hpp
index d51a630..715ea5c 100644
--- a/include/grid.hpp
+++ b/include/grid.hpp
@@ -100,8 +100,10 @@ public:
   void surrounding_nodes(double x, double y, long &idx_bl, long &idx_br,
                          long &idx_tl, long &idx_tr) const noexcept {
     idx_bl = line(x, y);
-    if (idx_bl < 0)
+    if (idx_bl < 0) {
       idx_bl = idx_br = idx_tl = idx_tr = -1;
+      return;
+    }
     surrounding_nodes(idx_bl, idx_br, idx_tl, idx_tr);
   }
 
-- 
2.43.0


From 6fa6b65002538c8869f88a5adacb57c53307b30f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:48 +0000
Subject: [PATCH 81/87] fix: keep points just before the end of a grid axis in
 its last cell

---
 include/grid.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/grid.hpp b/include/grid.hpp
index 715ea5c..d8ca1d7 100644
--- a/include/grid.hpp
+++ b/include/grid.hpp
@@ -18,12 +18,15 @@ private:
   double mxstart, mxstep;
   double mystart, mystep;
 
+  /* a point just before the end of an axis may be rounded up to the end */
   int xindex(double xpts) const noexcept {
-    return std::floor((xpts - mxstart) / mxstep);
+    const int idx = std::floor((xpts - mxstart) / mxstep);
+    return idx < mxpts ? idx : mxpts - 1;
   }
 
   int yindex(double ypts) const noexcept {
-    return std::floor((ypts - mystart) / mystep);
+    const int idx = std::floor((ypts - mystart) / mystep);
+    return idx < mypts ? idx : mypts - 1;
   }
 
   long xyindex(double xpts, double ypts) const noexcept {
-- 
2.43.0


From 7fbfd147a3ac947f341141df4a13b8174bb33790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:28 +0000
Subject: [PATCH 82/87] fix: read no more of a Doodson number than its
 characters

---
 src/lib/doodson/doodson_from_chars.cpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/lib/doodson/doodson_from_chars.cpp b/src/lib/doodson/doodson_from_chars.cpp
index a84c7bb..5a6161b 100644
--- a/src/lib/doodson/doodson_from_chars.cpp
+++ b/src/lib/doodson/doodson_from_chars.cpp
@@ -3,21 +3,25 @@
 #include <stdexcept>
 
 dso::DoodsonConstituent dso::DoodsonConstituent::from_chars(const char *cstr) {
-  int ints[6] = {
-    dso::DoodsonConstituent::char2int(cstr[0]),
-    dso::DoodsonConstituent::char2int(cstr[1])-5,
-    dso::DoodsonConstituent::char2int(cstr[2])-5,
-    dso::DoodsonConstituent::char2int(cstr[4])-5,
-    dso::DoodsonConstituent::char2int(cstr[5])-5,
-    dso::DoodsonConstituent::char2int(cstr[6])-5};
+  int ints[6];
+  ints[0] = dso::DoodsonConstituent::char2int(cstr[0]);
+  ints[1] = dso::DoodsonConstituent::char2int(cstr[1]) - 5;
+  ints[2] = dso::DoodsonConstituent::char2int(cstr[2]) - 5;
 
+  /* check before reading on (the string may end here); at most 7 characters,
+   * it does not have to be null-terminated
+   */
   if (cstr[3]!='.') {
     fprintf(stderr,
-            "[ERROR] Failed resolving Doodson number from string: %s "
+            "[ERROR] Failed resolving Doodson number from string: %.7s "
             "(traceback: %s)\n",
             cstr, __func__);
     throw std::runtime_error("[ERROR] Failed resolving Doodson number\n");
   }
 
+  ints[3] = dso::DoodsonConstituent::char2int(cstr[4]) - 5;
+  ints[4] = dso::DoodsonConstituent::char2int(cstr[5]) - 5;
+  ints[5] = dso::DoodsonConstituent::char2int(cstr[6]) - 5;
+
   return dso::DoodsonConstituent(ints);
 }
-- 
2.43.0


From 3471a7e3618c3d941a8081098c3c6e12992f9775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:28 +0000
Subject: [PATCH 83/87] fix: report IERS Doodson numbers with other characters
 than digits

---
 .../resolve_iers2010_doodson_string.cpp       | 29 +++++++++----------
 1 file changed, 13 insertions(+), 16 deletions(-)

diff --git a/src/lib/doodson/resolve_iers2010_doodson_string.cpp b/src/lib/doodson/resolve_iers2010_doodson_string.cpp
index db95d02..e695cf0 100644
--- a/src/lib/doodson/resolve_iers2010_doodson_string.cpp
+++ b/src/lib/doodson/resolve_iers2010_doodson_string.cpp
@@ -11,26 +11,23 @@ dso::DoodsonConstituent dso::resolve_iers10_doodson_string(const char *cstr) {
   while (*str && *str == ' ')
     ++str;
 
-  ints[0] = *str++ - '0';
-  ints[1] = (*str++ - '0') - 5;
-  ints[2] = (*str++ - '0') - 5;
-  if (*str != '.')
-    error = 1;
-  
-  ++str;
-  ints[3] = (*str++ - '0') - 5;
-  ints[4] = (*str++ - '0') - 5;
-  ints[5] = (*str++ - '0') - 5;
-
-  for (int i = 0; i < 6; i++)
-    if (ints[i] < -9 || ints[i] > 9)
-      error += 1;
+  /* 'ddd.ddd'; stop at the first character that does not fit (the string may
+   * end there)
+   */
+  for (int i = 0; i < 7 && !error; i++) {
+    if (i == 3)
+      error = (str[i] != '.');
+    else if (str[i] < '0' || str[i] > '9')
+      error = 1;
+    else
+      ints[i < 3 ? i : i - 1] = (str[i] - '0') - (i ? 5 : 0);
+  }
 
   if (error) {
     fprintf(stderr,
-            "[ERROR] Failed resolving Doodson number from string: %s "
+            "[ERROR] Failed resolving Doodson number from string: %.7s "
             "(traceback: %s)\n",
-            cstr, __func__);
+            str, __func__);
     throw std::runtime_error("[ERROR] Failed resolving Doodson number\n");
   }
 
-- 
2.43.0


From 05231b235189ee2653aa6e4e65c22a5c8f2cdc09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:28 +0000
Subject: [PATCH 84/87] fix: define the ocean wave lookup in the namespace it
 is declared in

---
 src/lib/doodson/match_tadal_constituents.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/doodson/match_tadal_constituents.cpp b/src/lib/doodson/match_tadal_constituents.cpp
index c4cccbd..07dcfe1 100644
--- a/src/lib/doodson/match_tadal_constituents.cpp
+++ b/src/lib/doodson/match_tadal_constituents.cpp
@@ -7,7 +7,7 @@
 #endif
 
 const dso::detail::TidalConstituentArrayEntry *
-match_ocean_tide_wave(const char *wave) noexcept {
+dso::detail::match_ocean_tide_wave(const char *wave) noexcept {
   for (const auto &w : dso::detail::OceanicTidalHarmonics) {
     const char *a = w.name();
     const char *b = wave;
@@ -18,7 +18,7 @@ match_ocean_tide_wave(const char *wave) noexcept {
 }
 
 const dso::detail::TidalConstituentArrayEntry *
-match_ocean_tide_wave(const dso::DoodsonConstituent &wave) noexcept {
+dso::detail::match_ocean_tide_wave(const dso::DoodsonConstituent &wave) noexcept {
   for (const auto &w : dso::detail::OceanicTidalHarmonics) {
     if (wave == w._d) return &w;
   }
-- 
2.43.0


From 6a7f1e4a650a89fb623efd660b63d2065a1dc65e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:28 +0000
Subject: [PATCH 85/87] fix: speed of the L2 wave

---
 include/doodson.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/doodson.hpp b/include/doodson.hpp
index 6f13616..44ba8bb 100644
--- a/include/doodson.hpp
+++ b/include/doodson.hpp
@@ -413,7 +413,7 @@ constexpr static std::array<TidalConstituentArrayEntry, 18>
           28.439729500000, 0.00, "N2"},
           /* extraced from [3] Table 5.1 */
          {/*265.455*/ DoodsonConstituent(2, 1, 0, -1, 0, 0, +2.0e+00), 
-          28.439729500000, 0.00, "L2"},
+          29.528478900000, 0.00, "L2"},
          {/*381.555*/ DoodsonConstituent(3, 3, -4, 0, 0, 0, +0.0e+00),
           44.958935590000, 0.00, "T3"},
           /* S3: the pifactor here is found by trial-and-error using COST-G
-- 
2.43.0


From 5fbaef947ee8f0d9d5137ded859e5d4c231ec511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:50 +0000
Subject: [PATCH 86/87] fix: Legendre functions beyond degree 1023

---
 src/lib/gravity/forward_column_alf.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lib/gravity/forward_column_alf.cpp b/src/lib/gravity/forward_column_alf.cpp
index d82acdf..5f9a293 100644
--- a/src/lib/gravity/forward_column_alf.cpp
+++ b/src/lib/gravity/forward_column_alf.cpp
@@ -8,13 +8,13 @@ inline double anm(int n, int m) noexcept {
 }
 
 inline double bnm(int n, int m) noexcept {
-  long b1 = (2*n+1)*(n+m-1)*(n-m-1);
-  long b2 = (n-m)*(n+m)*(2*n-3);
+  long b1 = (2L*n+1)*(n+m-1)*(n-m-1);
+  long b2 = (long)(n-m)*(n+m)*(2*n-3);
   return std::sqrt( (double)b1 / (double)b2 );
 }
 
 inline double fnm(int n, int m) noexcept {
-  long f1 = (n * n - m * m) * (2 * n + 1);
+  long f1 = (long)(n * n - m * m) * (2 * n + 1);
   long f2 = 2 * n - 1;
   return std::sqrt((double)f1 / (double)f2);
 }
-- 
2.43.0


From ce1a78e2fc52bfbc682e741622ecdb743fbb1da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:16 +0000
Subject: [PATCH 87/87] fix: restore the last digit of a term of the CIP X
 series

The coefficient 205833.11 of IERS 2010 Table 5.2a (term 1307) had lost its last
digit in xcip06a, so that the X coordinate differed from that of xycip06a.
---
 src/lib/iau/xcip06a.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/iau/xcip06a.cpp b/src/lib/iau/xcip06a.cpp
index 6ca78eb..3b0ea47 100644
--- a/src/lib/iau/xcip06a.cpp
+++ b/src/lib/iau/xcip06a.cpp
@@ -6283,7 +6283,7 @@ constexpr const std::array<XYCipSeriesData, 253> X1Series = {
       {+0, +0, +2, -2, +2, +0, +0, +0, +0, +0, +0, +0, +0, +0}},
      /* 1307*/
      {-3.309730000e+03,
-      +2.058331e+05,
+      +2.0583311e+05,
       {+0, +0, +0, +0, +1, +0, +0, +0, +0, +0, +0, +0, +0,
        +0}}}}; /* X1Series */
 
-- 
2.43.0

