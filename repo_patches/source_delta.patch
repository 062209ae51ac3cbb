From aa792a40ef2f72f0aaecd04c3372d2438e02a598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:53 +0000
Subject: [PATCH 01/25] fix: forward the proximal parameter to the components
 of a product set

---
 include/proxsuite-nlp/constraint-set.hpp                  | 2 +-
 .../modelling/constraints/constraint-set-product.hpp      | 8 ++++++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/proxsuite-nlp/constraint-set.hpp b/include/proxsuite-nlp/constraint-set.hpp
index 9a2ba05..6e83db6 100644
--- a/include/proxsuite-nlp/constraint-set.hpp
+++ b/include/proxsuite-nlp/constraint-set.hpp
@@ -67,7 +67,7 @@ public:
 
   /// @brief Update proximal parameter; this applies to when this class is a
   /// proximal operator that isn't a projection (e.g. \f$ \ell_1 \f$).
-  void setProxParameter(const Scalar mu) const {
+  virtual void setProxParameter(const Scalar mu) const {
     mu_ = mu;
     mu_inv_ = 1. / mu;
   };
diff --git a/include/proxsuite-nlp/modelling/constraints/constraint-set-product.hpp b/include/proxsuite-nlp/modelling/constraints/constraint-set-product.hpp
index da9a906..8b1c91f 100644
--- a/include/proxsuite-nlp/modelling/constraints/constraint-set-product.hpp
+++ b/include/proxsuite-nlp/modelling/constraints/constraint-set-product.hpp
@@ -52,6 +52,14 @@ struct ConstraintSetProductTpl : ConstraintSetTpl<Scalar> {
   ConstraintSetProductTpl(ConstraintSetProductTpl &&) = default;
   ConstraintSetProductTpl &operator=(ConstraintSetProductTpl &&) = default;
 
+  /// Forward the proximal parameter to the components.
+  void setProxParameter(const Scalar mu) const override {
+    Base::setProxParameter(mu);
+    for (const auto &component : m_components) {
+      component->setProxParameter(mu);
+    }
+  }
+
   Scalar evaluate(const ConstVectorRef &zproj) const override {
     Scalar res = 0.;
     for (std::size_t i = 0; i < m_components.size(); i++) {
-- 
2.43.0


From 16d597b048604ce126e4348b22ce47d334b0e23c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:31 +0000
Subject: [PATCH 02/25] fix: reject a NaN pivot column in the Bunch-Kaufman
 factorisation

The pivot search compared the largest magnitude with zero, so a NaN pivot
was let through; on the last column the row index then ran past the end of
the matrix.
---
 include/proxsuite-nlp/linalg/bunchkaufman.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/proxsuite-nlp/linalg/bunchkaufman.hpp b/include/proxsuite-nlp/linalg/bunchkaufman.hpp
index 75fae41..3ea99fa 100644
--- a/include/proxsuite-nlp/linalg/bunchkaufman.hpp
+++ b/include/proxsuite-nlp/linalg/bunchkaufman.hpp
@@ -32,7 +32,7 @@ ComputationInfo bunch_kaufman_in_place_unblocked(MatrixType &a,
   if (n == 0) {
     return Success;
   } else if (n == 1) {
-    if (numext::abs(numext::real(a(0, 0))) == Real(0)) {
+    if (!(numext::abs(numext::real(a(0, 0))) > Real(0))) {
       return NumericalIssue;
     } else {
       a(0, 0) = Real(1) / numext::real(a(0, 0));
@@ -53,7 +53,7 @@ ComputationInfo bunch_kaufman_in_place_unblocked(MatrixType &a,
     imax += k + 1;
 
     Index kp;
-    if (numext::maxi(abs_akk, colmax) == Real(0)) {
+    if (!(numext::maxi(abs_akk, colmax) > Real(0))) {
       return NumericalIssue;
     } else {
       if (abs_akk >= colmax * alpha) {
@@ -204,7 +204,7 @@ bunch_kaufman_in_place_one_block(MatrixType &a, WType &w, IndicesType &pivots,
     imax += k + 1;
 
     Index kp;
-    if (numext::maxi(abs_akk, colmax) == Real(0)) {
+    if (!(numext::maxi(abs_akk, colmax) > Real(0))) {
       return NumericalIssue;
     } else {
       if (abs_akk >= colmax * alpha) {
-- 
2.43.0


From 849b5db191582b080eb66e5b21fbbbd17e658f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:24 +0000
Subject: [PATCH 03/25] fix: let BunchKaufman<M, Upper> read the upper triangle

The upper view was assigned to a lower view, which Eigen rejects at run time.
---
 include/proxsuite-nlp/linalg/bunchkaufman.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/proxsuite-nlp/linalg/bunchkaufman.hpp b/include/proxsuite-nlp/linalg/bunchkaufman.hpp
index 3ea99fa..593a5eb 100644
--- a/include/proxsuite-nlp/linalg/bunchkaufman.hpp
+++ b/include/proxsuite-nlp/linalg/bunchkaufman.hpp
@@ -652,8 +652,13 @@ BunchKaufman<MatrixType_, UpLo_>::compute(const EigenBase<InputType> &a) {
   this->m_blocksize = n <= BlockSize ? 0 : BlockSize;
   this->m_workspace.setZero(n, this->m_blocksize);
 
-  this->m_matrix.template triangularView<Lower>() =
-      a.derived().template triangularView<UpLo_>();
+  if constexpr (UpLo_ == Upper) {
+    this->m_matrix.template triangularView<Lower>() =
+        a.derived().adjoint().template triangularView<Lower>();
+  } else {
+    this->m_matrix.template triangularView<Lower>() =
+        a.derived().template triangularView<UpLo_>();
+  }
   this->m_info = internal::bunch_kaufman_in_place(
       this->m_matrix, this->m_subdiag, this->m_pivots, this->m_workspace,
       this->m_pivot_count);
-- 
2.43.0


From 6f9cdcf2eed3b405f51a2b090bd2d3057d1f3c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:28 +0000
Subject: [PATCH 04/25] fix: size of the diagonal factor in the Diag x
 TriL/TriU gemmt kernels

---
 include/proxsuite-nlp/linalg/gemmt.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/proxsuite-nlp/linalg/gemmt.hpp b/include/proxsuite-nlp/linalg/gemmt.hpp
index a1b93f3..fc65ed2 100644
--- a/include/proxsuite-nlp/linalg/gemmt.hpp
+++ b/include/proxsuite-nlp/linalg/gemmt.hpp
@@ -41,7 +41,7 @@ template <typename Scalar> struct GemmT<Scalar, Diag, TriL> {
     isize n = dst.cols();
 
     for (isize j = 0; j < n; ++j) {
-      dst.col(j).head(j + 1) += alpha * lhs.diagonal().cwiseProduct(
+      dst.col(j).head(j + 1) += alpha * lhs.diagonal().head(j + 1).cwiseProduct(
                                             rhs.transpose().col(j).head(j + 1));
     }
   }
@@ -59,7 +59,7 @@ template <typename Scalar> struct GemmT<Scalar, Diag, TriU> {
     isize n = dst.cols();
 
     for (isize j = 0; j < n; ++j) {
-      dst.col(j).tail(m - j) += alpha * lhs.diagonal().cwiseProduct(
+      dst.col(j).tail(m - j) += alpha * lhs.diagonal().tail(m - j).cwiseProduct(
                                             rhs.transpose().col(j).tail(m - j));
     }
   }
-- 
2.43.0


From ebe319a9daea671cb926f30e691f04db3471fd02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:59 +0000
Subject: [PATCH 05/25] fix: reset the sign when a LDLT factorisation is
 computed again

---
 include/proxsuite-nlp/linalg/block-ldlt.hpp |  4 +++-
 include/proxsuite-nlp/linalg/dense.hpp      | 12 ++++--------
 include/proxsuite-nlp/linalg/ldlt-base.hpp  |  2 +-
 3 files changed, 8 insertions(+), 10 deletions(-)

diff --git a/include/proxsuite-nlp/linalg/block-ldlt.hpp b/include/proxsuite-nlp/linalg/block-ldlt.hpp
index f17b391..33256b9 100644
--- a/include/proxsuite-nlp/linalg/block-ldlt.hpp
+++ b/include/proxsuite-nlp/linalg/block-ldlt.hpp
@@ -31,7 +31,7 @@ template <typename Scalar> struct block_impl {
     }
     const isize nblocks = sym_structure.nsegments();
     const isize n = mat.rows();
-    if ((nblocks == 0) || (n <= 1)) {
+    if ((nblocks == 0) || (n == 0)) {
       return true;
     }
 
@@ -239,6 +239,7 @@ public:
     m_matrix = other.m_matrix;
     m_permutation = other.m_permutation;
     m_info = other.m_info;
+    m_sign = other.m_sign;
     m_perm = other.m_perm;
     m_perm_inv = other.m_perm_inv;
     m_iwork = other.m_iwork;
@@ -310,6 +311,7 @@ public:
   const MatrixXs &matrixLDLT() const override { return m_matrix; }
 
   inline void compute() {
+    m_sign = SignMatrix::ZeroSign;
     m_info =
         backend::block_impl<Scalar>{m_matrix, m_structure}.ldlt_in_place_impl(
             m_sign)
diff --git a/include/proxsuite-nlp/linalg/dense.hpp b/include/proxsuite-nlp/linalg/dense.hpp
index b4e0478..ee0828d 100644
--- a/include/proxsuite-nlp/linalg/dense.hpp
+++ b/include/proxsuite-nlp/linalg/dense.hpp
@@ -47,14 +47,9 @@ inline bool ldlt_in_place_unblocked(Eigen::MatrixBase<Derived> &a,
   using Scalar = typename Derived::Scalar;
   const isize n = a.rows();
   if (n <= 1) {
-    if (n == 0)
-      sign = SignMatrix::ZeroSign;
-    else if (a(0, 0) > 0)
-      sign = SignMatrix::PositiveSemiDef;
-    else if (a(0, 0) < 0)
-      sign = SignMatrix::NegativeSemiDef;
-    else
-      sign = SignMatrix::ZeroSign;
+    // the sign accumulates over the blocks of a larger matrix
+    if (n == 1)
+      update_sign_matrix(sign, a(0, 0));
     return true;
   }
 
@@ -181,6 +176,7 @@ template <typename _Scalar> struct DenseLDLT : ldlt_base<_Scalar> {
 
   DenseLDLT &compute(const ConstMatrixRef &mat) {
     m_matrix = mat;
+    m_sign = SignMatrix::ZeroSign;
     m_info = backend::dense_ldlt_in_place(m_matrix, m_sign)
                  ? Eigen::Success
                  : Eigen::NumericalIssue;
diff --git a/include/proxsuite-nlp/linalg/ldlt-base.hpp b/include/proxsuite-nlp/linalg/ldlt-base.hpp
index 3d03cca..255fc6d 100644
--- a/include/proxsuite-nlp/linalg/ldlt-base.hpp
+++ b/include/proxsuite-nlp/linalg/ldlt-base.hpp
@@ -45,7 +45,7 @@ template <typename Scalar> struct ldlt_base {
   virtual ~ldlt_base() = 0;
 
 protected:
-  Eigen::ComputationInfo m_info;
+  Eigen::ComputationInfo m_info = Eigen::InvalidInput;
   SignMatrix m_sign = SignMatrix::ZeroSign;
 };
 
-- 
2.43.0


From 61c7b8f24825c32882359013bfd6839117cbb028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:20 +0000
Subject: [PATCH 06/25] fix: ownership of the block structures in BlockLDLT
 (leaks, copy assignment)

---
 include/proxsuite-nlp/ldlt-allocator.hpp    |  1 +
 include/proxsuite-nlp/linalg/block-kind.hpp |  8 +++++++
 include/proxsuite-nlp/linalg/block-ldlt.hpp | 26 ++++++++++++++++-----
 include/proxsuite-nlp/linalg/block-ldlt.hxx |  3 +++
 4 files changed, 32 insertions(+), 6 deletions(-)

diff --git a/include/proxsuite-nlp/ldlt-allocator.hpp b/include/proxsuite-nlp/ldlt-allocator.hpp
index 70111f6..e8b1482 100644
--- a/include/proxsuite-nlp/ldlt-allocator.hpp
+++ b/include/proxsuite-nlp/ldlt-allocator.hpp
@@ -114,6 +114,7 @@ LDLTVariant<Scalar> allocate_ldlt_from_sizes(const std::vector<isize> &nprims,
     auto structure = create_default_block_structure(nprims, nduals);
 
     linalg::BlockLDLT<Scalar> block_ldlt(size, structure);
+    structure.deallocate(); // the solver has its own copy
     block_ldlt.findSparsifyingPermutation();
     return block_ldlt;
   }
diff --git a/include/proxsuite-nlp/linalg/block-kind.hpp b/include/proxsuite-nlp/linalg/block-kind.hpp
index 8e7c068..0f83197 100644
--- a/include/proxsuite-nlp/linalg/block-kind.hpp
+++ b/include/proxsuite-nlp/linalg/block-kind.hpp
@@ -87,6 +87,14 @@ public:
   /// Deep copy.
   SymbolicBlockMatrix copy() const;
 
+  /// Release the data. Only valid if this object owns it.
+  void deallocate() noexcept {
+    delete[] m_data;
+    delete[] segment_lens;
+    m_data = nullptr;
+    segment_lens = nullptr;
+  }
+
   isize nsegments() const noexcept { return segments_count; }
   isize size() const noexcept { return segments_count * outer_stride; }
   BlockKind *ptr(isize i, isize j) noexcept {
diff --git a/include/proxsuite-nlp/linalg/block-ldlt.hpp b/include/proxsuite-nlp/linalg/block-ldlt.hpp
index 33256b9..30264aa 100644
--- a/include/proxsuite-nlp/linalg/block-ldlt.hpp
+++ b/include/proxsuite-nlp/linalg/block-ldlt.hpp
@@ -246,6 +246,24 @@ public:
     m_start_idx = other.m_start_idx;
   }
 
+  BlockLDLT &operator=(BlockLDLT const &other) {
+    if (this != &other) {
+      m_matrix = other.m_matrix;
+      m_structure.deallocate();
+      m_structure = other.m_structure.copy();
+      m_struct_tr.deallocate();
+      m_struct_tr = m_structure.transpose();
+      m_permutation = other.m_permutation;
+      m_info = other.m_info;
+      m_sign = other.m_sign;
+      m_perm = other.m_perm;
+      m_perm_inv = other.m_perm_inv;
+      m_iwork = other.m_iwork;
+      m_start_idx = other.m_start_idx;
+    }
+    return *this;
+  }
+
   /// Compute indices indicating where blocks start
   void computeStartIndices(const SymbolicBlockMatrix &in) {
     m_start_idx[0] = 0;
@@ -255,12 +273,8 @@ public:
   }
 
   ~BlockLDLT() {
-    delete[] m_structure.m_data;
-    delete[] m_structure.segment_lens;
-    delete[] m_struct_tr.m_data;
-    delete[] m_struct_tr.segment_lens;
-    m_structure.m_data = nullptr;
-    m_structure.segment_lens = nullptr;
+    m_structure.deallocate();
+    m_struct_tr.deallocate();
   }
 
   /// @returns a reference to the symbolic representation of the block-matrix.
diff --git a/include/proxsuite-nlp/linalg/block-ldlt.hxx b/include/proxsuite-nlp/linalg/block-ldlt.hxx
index e0ab2f8..a8def72 100644
--- a/include/proxsuite-nlp/linalg/block-ldlt.hxx
+++ b/include/proxsuite-nlp/linalg/block-ldlt.hxx
@@ -20,6 +20,7 @@ void BlockLDLT<Scalar>::setBlockPermutation(isize const *new_perm) {
   symbolic_deep_copy(in, m_structure, m_perm.data());
   analyzePattern(); // call manually
   updateBlockPermutationMatrix(in);
+  in.deallocate();
 }
 
 template <typename Scalar>
@@ -29,6 +30,7 @@ BlockLDLT<Scalar> &BlockLDLT<Scalar>::findSparsifyingPermutation() {
   symbolic_deep_copy(in, m_structure, m_perm.data());
   analyzePattern();
   updateBlockPermutationMatrix(in);
+  in.deallocate();
   return *this;
 }
 
@@ -36,6 +38,7 @@ template <typename Scalar> bool BlockLDLT<Scalar>::analyzePattern() {
   if (m_structure.performed_llt)
     return true;
   bool flag = m_structure.llt_in_place();
+  m_struct_tr.deallocate();
   m_struct_tr = m_structure.transpose();
   return flag;
 }
-- 
2.43.0


From 2122935660f9857ed871c9b3654bb5742e9da230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:18 +0000
Subject: [PATCH 07/25] fix: inertia of badly scaled, failed or NaN
 Bunch-Kaufman factorisations

---
 include/proxsuite-nlp/ldlt-allocator.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/proxsuite-nlp/ldlt-allocator.hpp b/include/proxsuite-nlp/ldlt-allocator.hpp
index e8b1482..2fe924e 100644
--- a/include/proxsuite-nlp/ldlt-allocator.hpp
+++ b/include/proxsuite-nlp/ldlt-allocator.hpp
@@ -144,6 +144,11 @@ void bunch_kaufman_compute_signature(
 
   Index n = factor.rows();
   signature.conservativeResize(n);
+  if (factor.info() != Eigen::Success) {
+    // the factorisation stopped on a zero pivot: no inertia is available
+    signature.setZero();
+    return;
+  }
 
   Index k = 0;
   const MatrixType &a = factor.matrixLDLT();
@@ -157,8 +162,11 @@ void bunch_kaufman_compute_signature(
       Scalar akp1k = factor.subdiag()[k];
       Real tr = ak + akp1;
       Real det = ak * akp1 - Eigen::numext::abs2(akp1k);
+      // magnitude of the terms of the determinant
+      Real mag = std::abs(ak * akp1) + Eigen::numext::abs2(akp1k);
 
-      if (std::abs(det) <= std::numeric_limits<Scalar>::epsilon()) {
+      // negated so that a NaN block counts as singular
+      if (!(std::abs(det) > std::numeric_limits<Real>::epsilon() * mag)) {
         signature[k] = 0;
         signature[k + 1] = int(math::sign(tr));
       } else if (det > Scalar(0)) {
-- 
2.43.0


From 5c2292a0146a8e7d6a80260f4e565ee2b386aa3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:59 +0000
Subject: [PATCH 08/25] fix: count NaN pivots as zeros in the LDLT signature

---
 include/proxsuite-nlp/ldlt-allocator.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/proxsuite-nlp/ldlt-allocator.hpp b/include/proxsuite-nlp/ldlt-allocator.hpp
index 2fe924e..6eee4d4 100644
--- a/include/proxsuite-nlp/ldlt-allocator.hpp
+++ b/include/proxsuite-nlp/ldlt-allocator.hpp
@@ -191,8 +191,11 @@ void bunch_kaufman_compute_signature(
 
 struct ComputeSignatureVisitor {
   template <typename Fac> void operator()(const Fac &facto) const {
-    auto sign = facto.vectorD().cwiseSign();
-    signature = sign.template cast<int>();
+    // NaN pivots (division by a zero pivot) count as zeros
+    const auto d = facto.vectorD();
+    signature.resize(d.size());
+    for (Eigen::Index i = 0; i < d.size(); i++)
+      signature[i] = int(d[i] > 0) - int(d[i] < 0);
   }
 
   template <typename MatType>
-- 
2.43.0


From 3b2f5dfc50618fd4399593ff9f472ef929df6cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:39 +0000
Subject: [PATCH 09/25] fix: a product point is normalized only if all its
 components are

---
 include/proxsuite-nlp/modelling/spaces/cartesian-product.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/proxsuite-nlp/modelling/spaces/cartesian-product.hxx b/include/proxsuite-nlp/modelling/spaces/cartesian-product.hxx
index 94e1791..f345ea1 100644
--- a/include/proxsuite-nlp/modelling/spaces/cartesian-product.hxx
+++ b/include/proxsuite-nlp/modelling/spaces/cartesian-product.hxx
@@ -34,7 +34,7 @@ bool CartesianProductTpl<Scalar>::isNormalized(const ConstVectorRef &x) const {
   bool res = true;
   auto xs = this->split(x);
   for (std::size_t i = 0; i < numComponents(); i++) {
-    res |= m_components[i]->isNormalized(xs[i]);
+    res &= m_components[i]->isNormalized(xs[i]);
   }
   return res;
 }
-- 
2.43.0


From efb3f1cfe3068f3e657fe755ea2624f46b674392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:39 +0000
Subject: [PATCH 10/25] fix: keep the order of the factors in manifold *
 product

---
 include/proxsuite-nlp/modelling/spaces/cartesian-product.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/proxsuite-nlp/modelling/spaces/cartesian-product.hpp b/include/proxsuite-nlp/modelling/spaces/cartesian-product.hpp
index 4984353..2448fc7 100644
--- a/include/proxsuite-nlp/modelling/spaces/cartesian-product.hpp
+++ b/include/proxsuite-nlp/modelling/spaces/cartesian-product.hpp
@@ -139,7 +139,10 @@ auto operator*(const CartesianProductTpl<T> &left,
 template <typename T>
 auto operator*(const polymorphic<ManifoldAbstractTpl<T>> &left,
                const CartesianProductTpl<T> &right) {
-  return right * left;
+  CartesianProductTpl<T> out;
+  out.addComponent(left);
+  out.addComponent(right);
+  return out;
 }
 
 template <typename T>
-- 
2.43.0


From 44f74a6a8eebdd2bf92e77d8ceaf974344ed42c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:39 +0000
Subject: [PATCH 11/25] fix: interpolate the tangent part of tangent bundle
 points

---
 include/proxsuite-nlp/modelling/spaces/tangent-bundle.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/proxsuite-nlp/modelling/spaces/tangent-bundle.hxx b/include/proxsuite-nlp/modelling/spaces/tangent-bundle.hxx
index 1836f88..8420939 100644
--- a/include/proxsuite-nlp/modelling/spaces/tangent-bundle.hxx
+++ b/include/proxsuite-nlp/modelling/spaces/tangent-bundle.hxx
@@ -84,8 +84,8 @@ void TangentBundleTpl<Base>::interpolate_impl(const ConstVectorRef &x0,
                                               VectorRef out) const {
   base_.interpolate(getBasePoint(x0), getBasePoint(x1), u,
                     getBasePointWrite(out));
-  out.tail(base_.ndx()) =
-      (Scalar(1.) - u) * getBaseTangent(x0) + u * getBaseTangent(x1);
+  const int nv_ = base_.ndx();
+  out.tail(nv_) = (Scalar(1.) - u) * x0.tail(nv_) + u * x1.tail(nv_);
 }
 
 } // namespace nlp
-- 
2.43.0


From 91ac389064f964f9ec20e8540f2d0b73598a32f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:51 +0000
Subject: [PATCH 12/25] fix: evaluate the residual at x in the derivatives of
 QuadraticResidualCost

---
 .../proxsuite-nlp/modelling/costs/quadratic-residual.hxx | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/proxsuite-nlp/modelling/costs/quadratic-residual.hxx b/include/proxsuite-nlp/modelling/costs/quadratic-residual.hxx
index e02d75e..f8b554e 100644
--- a/include/proxsuite-nlp/modelling/costs/quadratic-residual.hxx
+++ b/include/proxsuite-nlp/modelling/costs/quadratic-residual.hxx
@@ -37,6 +37,8 @@ Scalar QuadraticResidualCostTpl<Scalar>::call(const ConstVectorRef &x) const {
 template <typename Scalar>
 void QuadraticResidualCostTpl<Scalar>::computeGradient(const ConstVectorRef &x,
                                                        VectorRef out) const {
+  // do not rely on a previous call at the same point
+  err = (*residual_)(x);
   residual_->computeJacobian(x, Jres);
 
   JtW.noalias() = Jres.transpose() * weights_;
@@ -47,10 +49,11 @@ void QuadraticResidualCostTpl<Scalar>::computeGradient(const ConstVectorRef &x,
 template <typename Scalar>
 void QuadraticResidualCostTpl<Scalar>::computeHessian(const ConstVectorRef &x,
                                                       MatrixRef out) const {
-  tmp_w_err.noalias() = weights_ * err;
-  tmp_w_err += slope_;
-
   if (!gauss_newton_) {
+    // do not rely on a previous call at the same point
+    err = (*residual_)(x);
+    tmp_w_err.noalias() = weights_ * err;
+    tmp_w_err += slope_;
     residual_->vectorHessianProduct(x, tmp_w_err, H);
     out = H;
   } else {
-- 
2.43.0


From 769ac37a0b4d69b014abc495d474c519986c5b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:51 +0000
Subject: [PATCH 13/25] fix: CostSum += itself

---
 include/proxsuite-nlp/cost-sum.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/proxsuite-nlp/cost-sum.hpp b/include/proxsuite-nlp/cost-sum.hpp
index c0e5d7c..bb5ff8c 100644
--- a/include/proxsuite-nlp/cost-sum.hpp
+++ b/include/proxsuite-nlp/cost-sum.hpp
@@ -67,10 +67,13 @@ public:
   }
 
   CostSumTpl<Scalar> &operator+=(const CostSumTpl<Scalar> &other) {
-    components_.insert(components_.end(), other.components_.begin(),
-                       other.components_.end());
-    weights_.insert(weights_.end(), other.weights_.begin(),
-                    other.weights_.end());
+    // index loop with a fixed bound: other may be *this
+    const std::size_t nc = other.numComponents();
+    for (std::size_t i = 0; i < nc; i++) {
+      const BasePtr comp = other.components_[i];
+      const Scalar w = other.weights_[i];
+      addComponent(comp, w);
+    }
     return *this;
   }
 
-- 
2.43.0


From 17a5d5002b2fd64b6937e1942b8e22fbb10f1a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:51 +0000
Subject: [PATCH 14/25] fix: adding a product of manifolds to itself

---
 .../proxsuite-nlp/modelling/spaces/cartesian-product.hpp   | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/proxsuite-nlp/modelling/spaces/cartesian-product.hpp b/include/proxsuite-nlp/modelling/spaces/cartesian-product.hpp
index 2448fc7..9e23d0a 100644
--- a/include/proxsuite-nlp/modelling/spaces/cartesian-product.hpp
+++ b/include/proxsuite-nlp/modelling/spaces/cartesian-product.hpp
@@ -35,8 +35,11 @@ public:
   }
 
   inline void addComponent(const CartesianProductTpl &other) {
-    for (const auto &c : other.m_components) {
-      this->addComponent(c);
+    // index loop with a fixed bound: other may be *this
+    const std::size_t nc = other.numComponents();
+    m_components.reserve(m_components.size() + nc);
+    for (std::size_t i = 0; i < nc; i++) {
+      this->addComponent(other.m_components[i]);
     }
   }
 
-- 
2.43.0


From 17175c82d978d5d870112283447882cd6f66d94e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:47 +0000
Subject: [PATCH 15/25] fix: the Armijo linesearch returns a step at which the
 function was evaluated, with its value

---
 include/proxsuite-nlp/linesearch-armijo.hpp | 29 ++++++++++++---------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/include/proxsuite-nlp/linesearch-armijo.hpp b/include/proxsuite-nlp/linesearch-armijo.hpp
index 6969a2c..5d5170b 100644
--- a/include/proxsuite-nlp/linesearch-armijo.hpp
+++ b/include/proxsuite-nlp/linesearch-armijo.hpp
@@ -71,11 +71,9 @@ public:
         latest = FunctionSample(alpha_try, phi(alpha_try));
         break;
       } catch (const std::runtime_error &e) {
-        alpha_try *= 0.5;
-        if (alpha_try <= options_.alpha_min) {
-          alpha_try = options_.alpha_min;
-          break;
-        }
+        if (alpha_try <= options_.alpha_min)
+          throw; // the function cannot be evaluated at any allowed step
+        alpha_try = std::max(0.5 * alpha_try, options_.alpha_min);
       }
     }
 
@@ -83,16 +81,19 @@ public:
       return latest.phi;
     }
 
+    // whether phi could be evaluated at alpha_try
+    bool evaluated = true;
+
     for (std::size_t i = 0; i < options_.max_num_steps; i++) {
 
       const Scalar dM = latest.phi - phi0;
-      if (dM <= options_.armijo_c1 * alpha_try * dphi0) {
+      if (evaluated && dM <= options_.armijo_c1 * alpha_try * dphi0) {
         break;
       }
 
       // compute next alpha try
       LSInterpolation strat = options_.interp_type;
-      if (strat == LSInterpolation::BISECTION) {
+      if (strat == LSInterpolation::BISECTION || !evaluated) {
         alpha_try *= 0.5;
       } else {
         samples.reserve(3);
@@ -126,23 +127,25 @@ public:
 
       if (std::isnan(alpha_try)) {
         // handle NaN case
-        alpha_try = options_.contraction_min * previous.alpha;
-      } else {
-        alpha_try = std::max(alpha_try, options_.alpha_min);
+        alpha_try = options_.contraction_min * latest.alpha;
       }
+      alpha_try = std::max(alpha_try, options_.alpha_min);
 
       try {
+        const FunctionSample sample(alpha_try, phi(alpha_try));
         previous = latest;
-        latest = FunctionSample(alpha_try, phi(alpha_try));
+        latest = sample;
+        evaluated = true;
       } catch (const std::runtime_error &e) {
-        continue;
+        evaluated = false;
       }
 
       if (alpha_try <= options_.alpha_min) {
         break;
       }
     }
-    alpha_try = std::max(alpha_try, options_.alpha_min);
+    // the returned value is that of phi at the returned step
+    alpha_try = latest.alpha;
     return latest.phi;
   }
 
-- 
2.43.0


From 8a34542443896de2df2533e55d2d1ea55ab4f6dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:47 +0000
Subject: [PATCH 16/25] fix: order of the samples in the cubic interpolation of
 the linesearch

---
 include/proxsuite-nlp/linesearch-armijo.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/proxsuite-nlp/linesearch-armijo.hpp b/include/proxsuite-nlp/linesearch-armijo.hpp
index 5d5170b..1ee57ba 100644
--- a/include/proxsuite-nlp/linesearch-armijo.hpp
+++ b/include/proxsuite-nlp/linesearch-armijo.hpp
@@ -190,8 +190,8 @@ public:
       alph_mat(1, 0) = a1 * a1 * a1;
       alph_mat(1, 1) = a1 * a1;
 
-      Vector2s alph_rhs{cand1.phi - phi0 - dphi0 * a1,
-                        cand0.phi - phi0 - dphi0 * a0};
+      Vector2s alph_rhs{cand0.phi - phi0 - dphi0 * a0,
+                        cand1.phi - phi0 - dphi0 * a1};
 
       Eigen::HouseholderQR<Matrix2s> decomp(alph_mat);
       coeffs_cubic_interpolant = decomp.solve(alph_rhs);
-- 
2.43.0


From 473dc5ce7b99a82f6ff8633d876a9183a43180f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:47 +0000
Subject: [PATCH 17/25] fix: history_callback indexed empty vectors

---
 include/proxsuite-nlp/helpers/history-callback.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/proxsuite-nlp/helpers/history-callback.hpp b/include/proxsuite-nlp/helpers/history-callback.hpp
index 6109940..ba3db15 100644
--- a/include/proxsuite-nlp/helpers/history-callback.hpp
+++ b/include/proxsuite-nlp/helpers/history-callback.hpp
@@ -49,9 +49,9 @@ template <typename Scalar> struct history_callback : base_callback<Scalar> {
     }
     const std::size_t asize = workspace.ls_alphas.size();
     storage.ls_alphas.emplace_back(
-        Eigen::Map<const VectorXs>(&workspace.ls_alphas[0], asize));
+        Eigen::Map<const VectorXs>(workspace.ls_alphas.data(), asize));
     storage.ls_values.emplace_back(
-        Eigen::Map<const VectorXs>(&workspace.ls_values[0], asize));
+        Eigen::Map<const VectorXs>(workspace.ls_values.data(), asize));
     storage.alphas.push_back(workspace.alpha_opt);
     storage.dmerit_dir.push_back(workspace.dmerit_dir);
   }
-- 
2.43.0


From dc4f6ca97a806742b77e8e359732db926bb104f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:02 +0000
Subject: [PATCH 18/25] fix: polymorphic initializer_list constructor and move
 with an unequal allocator

---
 include/proxsuite-nlp/third-party/polymorphic_cxx14.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/proxsuite-nlp/third-party/polymorphic_cxx14.hpp b/include/proxsuite-nlp/third-party/polymorphic_cxx14.hpp
index ef397bc..bf92e67 100644
--- a/include/proxsuite-nlp/third-party/polymorphic_cxx14.hpp
+++ b/include/proxsuite-nlp/third-party/polymorphic_cxx14.hpp
@@ -228,7 +228,7 @@ class polymorphic : private detail::empty_base_optimization<A> {
   polymorphic(std::allocator_arg_t, const A& alloc, in_place_type_t<U>,
               std::initializer_list<I> ilist, Ts&&... ts)
       : alloc_base(alloc) {
-    cb_ = create_control_block<T>(ilist, std::forward<Ts>(ts)...);
+    cb_ = create_control_block<U>(ilist, std::forward<Ts>(ts)...);
   }
 
   template <
@@ -324,7 +324,7 @@ class polymorphic : private detail::empty_base_optimization<A> {
       std::allocator_arg_t, const A& alloc,
       polymorphic&& other) noexcept(allocator_traits::is_always_equal::value)
       : alloc_base(alloc) {
-    if (allocator_traits::propagate_on_container_copy_assignment::value) {
+    if (allocator_traits::is_always_equal::value) {
       cb_ = other.cb_;
       other.cb_ = nullptr;
     } else {
-- 
2.43.0


From a1f3b3d41ff2e3c2ea9506c14c4756fed5f8c44b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:23 +0000
Subject: [PATCH 19/25] fix: center the proximal penalty at the initial guess
 of each solve

---
 include/proxsuite-nlp/prox-solver.hxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/proxsuite-nlp/prox-solver.hxx b/include/proxsuite-nlp/prox-solver.hxx
index b76a08e..8032b98 100644
--- a/include/proxsuite-nlp/prox-solver.hxx
+++ b/include/proxsuite-nlp/prox-solver.hxx
@@ -68,6 +68,7 @@ ConvergenceFlag ProxNLPSolverTpl<Scalar>::solve(const ConstVectorRef &x0,
   // init variables
   results.x_opt = x0;
   workspace.x_prev = x0;
+  prox_penalty.updateTarget(workspace.x_prev);
   if (lams0.size() == workspace.numdual) {
     results.data_lams_opt = lams0;
     workspace.data_lams_prev = lams0;
-- 
2.43.0


From 19f23d147774111b61479c835d44e357a3d69b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:07 +0000
Subject: [PATCH 20/25] fix: proximal parameter of the primal-dual multiplier
 estimates and merit function

With a penalty that depends on it (l1), the estimates and the merit function
were those of twice the penalty, and the solver failed to converge.
---
 include/proxsuite-nlp/pdal.hxx        |  5 ++++-
 include/proxsuite-nlp/prox-solver.hxx | 11 ++++++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/include/proxsuite-nlp/pdal.hxx b/include/proxsuite-nlp/pdal.hxx
index ab4725b..1ccad14 100644
--- a/include/proxsuite-nlp/pdal.hxx
+++ b/include/proxsuite-nlp/pdal.hxx
@@ -22,7 +22,10 @@ Scalar ALMeritFunctionTpl<Scalar>::evaluate(const ConstVectorRef & /*x*/,
     const ConstraintObject &cstr = problem_.getConstraint(i);
     Scalar mu = cstr.set_->mu();
     VectorXs scv_tmp = pd_scv[i];
-    res += 2.0 * cstr.set_->computeMoreauEnvelope(pd_scv[i], scv_tmp);
+    // the primal-dual multiplier estimates have proximal parameter beta * mu
+    cstr.set_->setProxParameter(beta_ * mu);
+    res += cstr.set_->computeMoreauEnvelope(pd_scv[i], scv_tmp);
+    cstr.set_->setProxParameter(mu);
     res += mu * lams[i].squaredNorm() / 4.0;
   }
   return res;
diff --git a/include/proxsuite-nlp/prox-solver.hxx b/include/proxsuite-nlp/prox-solver.hxx
index 8032b98..fccb8b4 100644
--- a/include/proxsuite-nlp/prox-solver.hxx
+++ b/include/proxsuite-nlp/prox-solver.hxx
@@ -182,13 +182,16 @@ void ProxNLPSolverTpl<Scalar>::computeMultipliers(
   }
   workspace.data_lams_plus = mu_inv_ * workspace.data_lams_plus;
   // compute primal-dual multiplier estimates:
-  // normalConeProj(w), w = c(x) + mu(lambda_k - (beta-1)lambda)
+  // normalConeProj(w), w = c(x) + mu(lambda_k - (beta-1)lambda), with the
+  // proximal parameter beta * mu
   workspace.data_shift_cstr_pdal =
       workspace.data_shift_cstr_values - 0.5 * mu_ * inner_lams_data;
   for (std::size_t i = 0; i < problem_->getNumConstraints(); i++) {
     const ConstraintSet &cstr_set = *problem_->getConstraint(i).set_;
+    cstr_set.setProxParameter(pdal_beta_ * mu_);
     cstr_set.normalConeProjection(workspace.shift_cstr_pdal[i],
                                   workspace.lams_pdal[i]);
+    cstr_set.setProxParameter(mu_);
   }
   workspace.data_lams_pdal *= mu_inv_ / pdal_beta_;
 
@@ -199,8 +202,10 @@ void ProxNLPSolverTpl<Scalar>::computeMultipliers(
     // reapply the prox operator Jacobian to multiplier estimate
     cstr_set.applyProjectionJacobian(workspace.shift_cstr_values[i],
                                      workspace.lams_plus_reproj[i]);
+    cstr_set.setProxParameter(pdal_beta_ * mu_);
     cstr_set.applyProjectionJacobian(workspace.shift_cstr_pdal[i],
                                      workspace.lams_pdal_reproj[i]);
+    cstr_set.setProxParameter(mu_);
   }
   PROXSUITE_NLP_NOMALLOC_END;
 }
@@ -219,8 +224,10 @@ void ProxNLPSolverTpl<Scalar>::computeProblemDerivatives(
           workspace.shift_cstr_values[i], workspace.cstr_jacobians_proj[i]);
       break;
     case KKT_PRIMAL_DUAL:
+      cstr_set.setProxParameter(pdal_beta_ * mu_);
       cstr_set.applyNormalConeProjectionJacobian(
           workspace.shift_cstr_pdal[i], workspace.cstr_jacobians_proj[i]);
+      cstr_set.setProxParameter(mu_);
       break;
     }
   }
@@ -519,8 +526,10 @@ void ProxNLPSolverTpl<Scalar>::assembleKktMatrix(Workspace &workspace) {
       auto d_sub = lower_right_block.diagonal().segment(idx, nr);
       VectorXs d_sub2(d_sub);
       // apply normal cone jacobian op
+      cstr_set.setProxParameter(pdal_beta_ * mu_);
       cstr_set.applyNormalConeProjectionJacobian(workspace.shift_cstr_pdal[i],
                                                  d_sub2);
+      cstr_set.setProxParameter(mu_);
       d_sub = 0.5 * (d_sub + d_sub2);
     }
   }
-- 
2.43.0


From dd50e0ef7704eab657e2045bccbfb50d134be3de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:17 +0000
Subject: [PATCH 21/25] fix: check convergence before the multipliers are
 replaced

With the PRIMAL and PRIMAL_DUAL updates the multipliers returned with SUCCESS
were not those whose residuals had been checked.
---
 include/proxsuite-nlp/prox-solver.hxx | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/proxsuite-nlp/prox-solver.hxx b/include/proxsuite-nlp/prox-solver.hxx
index fccb8b4..e7eface 100644
--- a/include/proxsuite-nlp/prox-solver.hxx
+++ b/include/proxsuite-nlp/prox-solver.hxx
@@ -92,6 +92,12 @@ ConvergenceFlag ProxNLPSolverTpl<Scalar>::solve(const ConstVectorRef &x0,
     workspace.x_prev = results.x_opt;
     prox_penalty.updateTarget(workspace.x_prev);
 
+    // check convergence before the multipliers are replaced
+    if (std::max(results.prim_infeas, results.dual_infeas) < target_tol) {
+      results.converged = ConvergenceFlag::SUCCESS;
+      break;
+    }
+
     if (results.prim_infeas < prim_tol_) {
       acceptMultipliers(results, workspace);
       updateToleranceSuccess();
@@ -99,10 +105,6 @@ ConvergenceFlag ProxNLPSolverTpl<Scalar>::solve(const ConstVectorRef &x0,
       updatePenalty();
       updateToleranceFailure();
     }
-    if (std::max(results.prim_infeas, results.dual_infeas) < target_tol) {
-      results.converged = ConvergenceFlag::SUCCESS;
-      break;
-    }
     setProxParameter(rho_ * bcl_params.rho_update_factor);
 
     al_iter++;
-- 
2.43.0


From b3c5c5a589dbc4ce467468e0613a8f255803b2ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:44 +0000
Subject: [PATCH 22/25] fix: refine the Newton step with the regularised system
 which was factorised

The refinement used the matrix without the inertia correction, and diverged
along the directions of negative curvature.
---
 include/proxsuite-nlp/prox-solver.hxx | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/proxsuite-nlp/prox-solver.hxx b/include/proxsuite-nlp/prox-solver.hxx
index e7eface..df4f7f3 100644
--- a/include/proxsuite-nlp/prox-solver.hxx
+++ b/include/proxsuite-nlp/prox-solver.hxx
@@ -415,7 +415,6 @@ void ProxNLPSolverTpl<Scalar>::innerLoop(Workspace &workspace,
           workspace.ldlt_);
       boost::apply_visitor(ComputeSignatureVisitor{workspace.signature},
                            workspace.ldlt_);
-      workspace.kkt_matrix.diagonal().head(ndx).array() -= delta;
       is_inertia_correct =
           checkInertia(manifold().ndx(), problem_->getTotalConstraintDim(),
                        workspace.signature);
@@ -423,7 +422,9 @@ void ProxNLPSolverTpl<Scalar>::innerLoop(Workspace &workspace,
       if (is_inertia_correct == INERTIA_OK) {
         delta_last = delta;
         break;
-      } else if (delta == 0.) {
+      }
+      workspace.kkt_matrix.diagonal().head(ndx).array() -= delta;
+      if (delta == 0.) {
         // check if previous was zero
         if (delta_last == 0.)
           delta = DELTA_NONZERO_INIT; // try a set nonzero value
@@ -438,7 +439,10 @@ void ProxNLPSolverTpl<Scalar>::innerLoop(Workspace &workspace,
       }
     }
 
+    // refine the solution of the system which was factorised
     iterativeRefinement(workspace);
+    if (is_inertia_correct == INERTIA_OK)
+      workspace.kkt_matrix.diagonal().head(ndx).array() -= delta;
 
     PROXSUITE_NLP_NOMALLOC_END;
     PROXSUITE_NLP_RAISE_IF_NAN_NAME(workspace.pd_step, "pd_step");
-- 
2.43.0


From 619dec0b8bfcdd5689a2be43cc63379f02a354b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:16 +0000
Subject: [PATCH 23/25] fix: check the system matrix for NaN once it is
 assembled, not the one of the previous step

---
 include/proxsuite-nlp/prox-solver.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/proxsuite-nlp/prox-solver.hxx b/include/proxsuite-nlp/prox-solver.hxx
index df4f7f3..c02c05e 100644
--- a/include/proxsuite-nlp/prox-solver.hxx
+++ b/include/proxsuite-nlp/prox-solver.hxx
@@ -358,7 +358,6 @@ void ProxNLPSolverTpl<Scalar>::innerLoop(Workspace &workspace,
     }
 
     PROXSUITE_NLP_RAISE_IF_NAN_NAME(workspace.kkt_rhs, "kkt_rhs");
-    PROXSUITE_NLP_RAISE_IF_NAN_NAME(workspace.kkt_matrix, "kkt_matrix");
 
     computePrimalResiduals(workspace, results);
 
@@ -400,6 +399,7 @@ void ProxNLPSolverTpl<Scalar>::innerLoop(Workspace &workspace,
 
     // fill in KKT matrix
     assembleKktMatrix(workspace);
+    PROXSUITE_NLP_RAISE_IF_NAN_NAME(workspace.kkt_matrix, "kkt_matrix");
 
     // choose regularisation level
 
-- 
2.43.0


From 3b67a0d37c9b3849022ca26ab30352099723cb46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:12 +0000
Subject: [PATCH 24/25] fix: scale 2x2 pivot blocks before computing their
 inertia

The determinant of a 2x2 Bunch-Kaufman pivot overflowed or underflowed for
very large or very small matrices, whose signature then was reported as
singular or definite.
---
 include/proxsuite-nlp/ldlt-allocator.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/proxsuite-nlp/ldlt-allocator.hpp b/include/proxsuite-nlp/ldlt-allocator.hpp
index 6eee4d4..e2340e1 100644
--- a/include/proxsuite-nlp/ldlt-allocator.hpp
+++ b/include/proxsuite-nlp/ldlt-allocator.hpp
@@ -10,6 +10,7 @@
 #include "proxsuite-nlp/linalg/proxsuite-ldlt-wrap.hpp"
 #endif
 #include <boost/variant.hpp>
+#include <algorithm>
 #include <array>
 
 namespace proxsuite {
@@ -159,11 +160,16 @@ void bunch_kaufman_compute_signature(
       // 2x2 block
       Real ak = Eigen::numext::real(a(k, k));
       Real akp1 = Eigen::numext::real(a(k + 1, k + 1));
-      Scalar akp1k = factor.subdiag()[k];
+      Real akp1k = Eigen::numext::abs(factor.subdiag()[k]);
+      // scale the block, its determinant could overflow or underflow
+      const Real scale = std::max({std::abs(ak), std::abs(akp1), akp1k});
+      ak /= scale;
+      akp1 /= scale;
+      akp1k /= scale;
       Real tr = ak + akp1;
-      Real det = ak * akp1 - Eigen::numext::abs2(akp1k);
+      Real det = ak * akp1 - akp1k * akp1k;
       // magnitude of the terms of the determinant
-      Real mag = std::abs(ak * akp1) + Eigen::numext::abs2(akp1k);
+      Real mag = std::abs(ak * akp1) + akp1k * akp1k;
 
       // negated so that a NaN block counts as singular
       if (!(std::abs(det) > std::numeric_limits<Real>::epsilon() * mag)) {
-- 
2.43.0


From cb6ea65b4763c3482ed74d7b26f24cf6847c5635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:47 +0000
Subject: [PATCH 25/25] fix: keep NaNs in the infinity norms, so a NaN residual
 is never taken for a small one

---
 include/proxsuite-nlp/math.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/proxsuite-nlp/math.hpp b/include/proxsuite-nlp/math.hpp
index 035eaf9..825ac18 100644
--- a/include/proxsuite-nlp/math.hpp
+++ b/include/proxsuite-nlp/math.hpp
@@ -52,6 +52,10 @@ typename MatType::Scalar infty_norm(const Eigen::MatrixBase<MatType> &z) {
   if (z.rows() == 0 || z.cols() == 0) {
     return 0.;
   } else {
+    // Eigen's maximum may skip NaNs
+    if (z.hasNaN())
+      return std::numeric_limits<
+          typename Eigen::NumTraits<typename MatType::Scalar>::Real>::quiet_NaN();
     return z.template lpNorm<Eigen::Infinity>();
   }
 }
@@ -61,7 +65,10 @@ typename MatType::Scalar infty_norm(const std::vector<MatType> &z) {
   const std::size_t n = z.size();
   typename MatType::Scalar out = 0.;
   for (std::size_t i = 0; i < n; i++) {
-    out = std::max(out, infty_norm(z[i]));
+    const typename MatType::Scalar norm = infty_norm(z[i]);
+    if (std::isnan(norm))
+      return norm;
+    out = std::max(out, norm);
   }
   return out;
 }
-- 
2.43.0

