From 05ef1f9b2097a1e579e49f75e28d7d85f9b72ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:20 +0000
Subject: [PATCH 01/71] fix: ranges accept negative indices, as documented, and
 refuse any index outside the dimension

---
 src/views/range.cc | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/views/range.cc b/src/views/range.cc
index c927d4e..9ac9fad 100644
--- a/src/views/range.cc
+++ b/src/views/range.cc
@@ -20,6 +20,7 @@
 #include <cassert>
 #include <iostream>
 #include <tensor/indices.h>
+#include <tensor/detail/common.h>
 
 namespace tensor {
 
@@ -139,7 +140,7 @@ namespace tensor {
   void
   SingleRange::set_limit(index limit)
   {
-    assert(limit > ndx_);
+    ndx_ = normalize_index(ndx_, limit);
     Range::set_limit(limit);
   }
 
@@ -189,7 +190,9 @@ namespace tensor {
   void
   StepRange::set_limit(index limit)
   {
-    assert(limit > end_);
+    start_ = normalize_index(start_, limit);
+    end_ = normalize_index(end_, limit);
+    assert(step_ > 0);
     Range::set_limit(limit);
   }
 
@@ -235,11 +238,9 @@ namespace tensor {
   void
   IndexRange::set_limit(index limit)
   {
-#ifndef NDEBUG
-    for (Indices::const_iterator it = indices_.begin(); it != indices_.end(); it++) {
-      assert(*it <= limit);
+    for (Indices::iterator it = indices_.begin(); it != indices_.end(); it++) {
+      *it = normalize_index(*it, limit);
     }
-#endif
     Range::set_limit(limit);
   }
 
-- 
2.43.0


From 5a4f79ada6549f56a62c3fa65963325ead96ae60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:20 +0000
Subject: [PATCH 02/71] fix: a range whose end precedes its start is empty, not
 of negative size

---
 src/views/range.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/views/range.cc b/src/views/range.cc
index 9ac9fad..c33f5c2 100644
--- a/src/views/range.cc
+++ b/src/views/range.cc
@@ -199,7 +199,7 @@ namespace tensor {
   index
   StepRange::size() const
   {
-    return (end_ - start_) / step_ + 1;
+    return (end_ < start_)? 0 : (end_ - start_) / step_ + 1;
   }
 
   void
-- 
2.43.0


From 2b8dc650853af45e2e3ccaead4f14b150c244b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:20 +0000
Subject: [PATCH 03/71] fix: slices of tensors with a dimension of size zero
 neither divide by zero nor hang

---
 src/views/range.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/views/range.cc b/src/views/range.cc
index c33f5c2..025ad3f 100644
--- a/src/views/range.cc
+++ b/src/views/range.cc
@@ -18,6 +18,7 @@
 */
 
 #include <cassert>
+#include <algorithm>
 #include <iostream>
 #include <tensor/indices.h>
 #include <tensor/detail/common.h>
@@ -261,7 +262,9 @@ namespace tensor {
    */
   ProductRange::ProductRange(Range *r1, Range *r2) : r1_(r1), r2_(r2)
   {
-    r2_->set_factor(r1_->get_factor() * r1_->get_limit());
+    // A dimension of size 0 makes an empty product, but factors must not vanish:
+    // they are divided out later on, and a null step never ends.
+    r2_->set_factor(r1_->get_factor() * std::max<index>(r1_->get_limit(), 1));
   }
 
   ProductRange::~ProductRange()
@@ -297,7 +300,7 @@ namespace tensor {
   ProductRange::set_factor(index factor)
   {
     r1_->set_factor(factor);
-    r2_->set_factor(factor * r1_->get_limit());
+    r2_->set_factor(factor * std::max<index>(r1_->get_limit(), 1));
   }
 
   void
-- 
2.43.0


From b32a8e4ce04d0b30d4c14e00f0e1659dc3a20521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:48 +0000
Subject: [PATCH 04/71] fix: a compound operation with a scalar taken from the
 tensor itself uses the same scalar for every element

---
 include/tensor/detail/functional.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/tensor/detail/functional.h b/include/tensor/detail/functional.h
index 13d55e5..853f9a5 100644
--- a/include/tensor/detail/functional.h
+++ b/include/tensor/detail/functional.h
@@ -79,7 +79,7 @@ struct divided {
 //
 template<typename t1, typename t2>
 struct plus_constant {
-  const t2 &value;
+  const t2 value;
   plus_constant(const t2 &b) : value(b) {}
   typename Binop<t1,t2>::type operator()(const t1 &a) {
     return a + value;
@@ -88,7 +88,7 @@ struct plus_constant {
 
 template<typename t1, typename t2>
 struct minus_constant {
-  const t2 &value;
+  const t2 value;
   minus_constant(const t2 &b) : value(b) {}
   typename Binop<t1,t2>::type operator()(const t1 &a) {
     return a - value;
@@ -97,7 +97,7 @@ struct minus_constant {
 
 template<typename t1, typename t2>
 struct times_constant {
-  const t2 &value;
+  const t2 value;
   times_constant(const t2 &b) : value(b) {}
   typename Binop<t1,t2>::type operator()(const t1 &a) {
     return a * value;
@@ -106,7 +106,7 @@ struct times_constant {
 
 template<typename t1, typename t2>
 struct divided_constant {
-  const t2 &value;
+  const t2 value;
   divided_constant(const t2 &b) : value(b) {}
   typename Binop<t1,t2>::type operator()(const t1 &a) {
     return a / value;
-- 
2.43.0


From 8b0c848f74872fe0ed3028fb37241761b52275f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:56 +0000
Subject: [PATCH 05/71] fix: to_complex refuses real and imaginary parts of
 different sizes

---
 src/tensor/tensor_to_complex.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tensor/tensor_to_complex.cc b/src/tensor/tensor_to_complex.cc
index 997fd3b..663e072 100644
--- a/src/tensor/tensor_to_complex.cc
+++ b/src/tensor/tensor_to_complex.cc
@@ -34,6 +34,7 @@ namespace tensor {
 
   const CTensor to_complex(const RTensor &r, const RTensor &i)
   {
+    assert(r.size() == i.size());
     CTensor output(r.dimensions());
     RTensor::const_iterator ir = r.begin();
     RTensor::const_iterator ii = i.begin();
-- 
2.43.0


From 065ce96997cbb1e4840999f1d15b7b436a0b5fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:56 +0000
Subject: [PATCH 06/71] fix: the comparisons of a complex tensor with a complex
 number are defined

---
 src/compare/ctensor_cdouble_e.cc  | 2 +-
 src/compare/ctensor_cdouble_ne.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/compare/ctensor_cdouble_e.cc b/src/compare/ctensor_cdouble_e.cc
index 1dcdcb8..d6a1c5e 100644
--- a/src/compare/ctensor_cdouble_e.cc
+++ b/src/compare/ctensor_cdouble_e.cc
@@ -22,7 +22,7 @@
 
 namespace tensor {
 
-  const Booleans operator==(const CTensor &a, double b)
+  const Booleans operator==(const CTensor &a, cdouble b)
   {
     Booleans c(a.size());
     Booleans::iterator ic = c.begin();
diff --git a/src/compare/ctensor_cdouble_ne.cc b/src/compare/ctensor_cdouble_ne.cc
index 8503fdc..5273f2f 100644
--- a/src/compare/ctensor_cdouble_ne.cc
+++ b/src/compare/ctensor_cdouble_ne.cc
@@ -22,7 +22,7 @@
 
 namespace tensor {
 
-  const Booleans operator!=(const CTensor &a, double b)
+  const Booleans operator!=(const CTensor &a, cdouble b)
   {
     Booleans c(a.size());
     Booleans::iterator ic = c.begin();
-- 
2.43.0


From a11eb51f2e73aad7e99b71e231339296bb51b412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:56 +0000
Subject: [PATCH 07/71] fix: ordering comparisons with the number on the left
 compare in the order of their operands

---
 include/tensor/indices.h | 8 ++++----
 include/tensor/tensor.h  | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/tensor/indices.h b/include/tensor/indices.h
index ad93c73..a42dd88 100644
--- a/include/tensor/indices.h
+++ b/include/tensor/indices.h
@@ -85,10 +85,10 @@ namespace tensor {
   const Booleans operator!=(const Indices &a, index b);
 
   inline const Booleans operator==(index a, const Indices &b) { return b == a; }
-  inline const Booleans operator<(index a, const Indices &b) { return b >= a; }
-  inline const Booleans operator>(index a, const Indices &b) { return b <= a; }
-  inline const Booleans operator<=(index a, const Indices &b) { return b > a; }
-  inline const Booleans operator>=(index a, const Indices &b) {  return b < a; }
+  inline const Booleans operator<(index a, const Indices &b) { return b > a; }
+  inline const Booleans operator>(index a, const Indices &b) { return b < a; }
+  inline const Booleans operator<=(index a, const Indices &b) { return b >= a; }
+  inline const Booleans operator>=(index a, const Indices &b) { return b <= a; }
   inline const Booleans operator!=(index a, const Indices &b) { return b != a; }
 
   //////////////////////////////////////////////////////////////////////
diff --git a/include/tensor/tensor.h b/include/tensor/tensor.h
index a9c33ab..6e927c9 100644
--- a/include/tensor/tensor.h
+++ b/include/tensor/tensor.h
@@ -449,10 +449,10 @@ namespace tensor {
   const Booleans operator!=(const RTensor &a, double b);
 
   inline const Booleans operator==(double a, const RTensor &b) { return b == a; }
-  inline const Booleans operator<(double a, const RTensor &b) { return b >= a; }
-  inline const Booleans operator>(double a, const RTensor &b) { return b <= a; }
-  inline const Booleans operator<=(double a, const RTensor &b) { return b > a; }
-  inline const Booleans operator>=(double a, const RTensor &b) {  return b < a; }
+  inline const Booleans operator<(double a, const RTensor &b) { return b > a; }
+  inline const Booleans operator>(double a, const RTensor &b) { return b < a; }
+  inline const Booleans operator<=(double a, const RTensor &b) { return b >= a; }
+  inline const Booleans operator>=(double a, const RTensor &b) { return b <= a; }
   inline const Booleans operator!=(double a, const RTensor &b) { return b != a; }
 
   const RTensor operator+(const RTensor &a, const RTensor &b);
-- 
2.43.0


From 2b7972645055902d5fec3257685d6b5a7cc48574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:56 +0000
Subject: [PATCH 08/71] fix: index lists are sorted as integers, not as doubles

---
 src/tensor/tensor_sort_i.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tensor/tensor_sort_i.cc b/src/tensor/tensor_sort_i.cc
index 85a512c..883bfb1 100644
--- a/src/tensor/tensor_sort_i.cc
+++ b/src/tensor/tensor_sort_i.cc
@@ -28,9 +28,9 @@ namespace tensor {
   {
     Indices output(v);
     if (reverse) {
-      std::sort(output.begin(), output.end(), std::greater<double>());
+      std::sort(output.begin(), output.end(), std::greater<index>());
     } else {
-      std::sort(output.begin(), output.end(), std::less<double>());
+      std::sort(output.begin(), output.end(), std::less<index>());
     }
     return output;
   }
-- 
2.43.0


From 9a155b8f0177197da3499433418d14e2b4706c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:58 +0000
Subject: [PATCH 09/71] fix: squeeze keeps empty dimensions and gives one
 dimension to a tensor of ones

---
 src/tensor/tensor_squeeze.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/tensor/tensor_squeeze.cc b/src/tensor/tensor_squeeze.cc
index dad3232..693dbe5 100644
--- a/src/tensor/tensor_squeeze.cc
+++ b/src/tensor/tensor_squeeze.cc
@@ -25,9 +25,13 @@ namespace tensor {
   const Indices squeeze_dimensions(const Indices &d)
   {
     Indices output(d.size() - std::count(d.begin(), d.end(), 1));
+    if (output.size() == 0) {
+      // A tensor with a single element still needs one dimension.
+      return d.size()? igen << 1 : d;
+    }
     Indices::const_iterator b = d.begin();
     for (Indices::iterator a = output.begin(); a != output.end() && b != d.end(); b++) {
-      if (*b > 1)
+      if (*b != 1)
         *(a++) = *b;
     }
     return output;
-- 
2.43.0


From 1d12fed780e91364deae1c0b467ad9a5d1aa2391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:58 +0000
Subject: [PATCH 10/71] fix: take_diag over indices followed by others steps
 over the size of the second index

---
 src/tensor/tensor_take_diag.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tensor/tensor_take_diag.cc b/src/tensor/tensor_take_diag.cc
index 4acd9a6..9feda7a 100644
--- a/src/tensor/tensor_take_diag.cc
+++ b/src/tensor/tensor_take_diag.cc
@@ -99,7 +99,7 @@ const tensor::Tensor<elt_t> do_take_diag(const tensor::Tensor<elt_t> &a, int whi
   tensor::Tensor<elt_t> output(new_dims);
   which = -which;
   if (a2b) {
-    do_diag<elt_t>(output.begin(), a.begin(), a1,a2,a2b,a3,a3,a5,which);
+    do_diag<elt_t>(output.begin(), a.begin(), a1,a2,a2b,a3,a4,a5,which);
   }
   return output;
 }
-- 
2.43.0


From c5a86628936c07beea35ad8c994472f50d12b822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:58 +0000
Subject: [PATCH 11/71] fix: trace accepts the first index counted from the
 last, as every other operation

---
 src/tensor/tensor_trace.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tensor/tensor_trace.cc b/src/tensor/tensor_trace.cc
index ab198db..3332506 100644
--- a/src/tensor/tensor_trace.cc
+++ b/src/tensor/tensor_trace.cc
@@ -53,8 +53,8 @@ namespace tensor {
   template<typename elt_t>
   static const Tensor<elt_t> do_trace(const Tensor<elt_t> &D, index i1, index i2)
   {
-    assert(i1 < D.rank() && i1 > -D.rank());
-    assert(i2 < D.rank() && i2 > -D.rank());
+    assert(i1 < D.rank() && i1 >= -D.rank());
+    assert(i2 < D.rank() && i2 >= -D.rank());
     if (i1 < 0)
       i1 = i1 + D.rank();
     if (i2 < 0)
-- 
2.43.0


From 67ff3517059c017f44b90fabf365eff062eb694a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:58 +0000
Subject: [PATCH 12/71] fix: foldin of two vectors does not write past the list
 of dimensions

---
 src/tensor/tensor_foldin.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tensor/tensor_foldin.cc b/src/tensor/tensor_foldin.cc
index 0426e0b..f448c65 100644
--- a/src/tensor/tensor_foldin.cc
+++ b/src/tensor/tensor_foldin.cc
@@ -39,7 +39,7 @@ namespace tensor {
     const index rankb = b.rank();
     index ndx1 = normalize_index(_ndx1, ranka);
     index ndx2 = normalize_index(_ndx2, rankb);
-    Indices new_dims(ranka + rankb - 2);
+    Indices new_dims(std::max<index>(ranka + rankb - 2, 1));
     /*
      * Since we use row-major order, in which the first
      * index varies faster, we nest the loops beginning with the last index,
-- 
2.43.0


From 413a0404178cbc5d14f04e2301e0105f110088a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:58 +0000
Subject: [PATCH 13/71] fix: the output of fold_into, foldin_into and
 mmult_into may be one of the operands

---
 src/tensor/tensor_fold.cc   | 3 ++-
 src/tensor/tensor_foldin.cc | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/tensor/tensor_fold.cc b/src/tensor/tensor_fold.cc
index c6e8ed6..be043ac 100644
--- a/src/tensor/tensor_fold.cc
+++ b/src/tensor/tensor_fold.cc
@@ -28,10 +28,11 @@ namespace tensor {
 
   using namespace blas;
 
+  /* A and B are passed by value because OUTPUT may be one of them. */
   template<typename elt_t, bool do_conj>
   void
   do_fold(Tensor<elt_t> &output,
-          const Tensor<elt_t> &a, int _ndx1, const Tensor<elt_t> &b, int _ndx2)
+          const Tensor<elt_t> a, int _ndx1, const Tensor<elt_t> b, int _ndx2)
   {
     index i_len,j_len,k_len,l_len,m_len;
     index rank, i;
diff --git a/src/tensor/tensor_foldin.cc b/src/tensor/tensor_foldin.cc
index f448c65..3615216 100644
--- a/src/tensor/tensor_foldin.cc
+++ b/src/tensor/tensor_foldin.cc
@@ -28,10 +28,11 @@ namespace tensor {
 
   using namespace blas;
 
+  /* A and B are passed by value because OUTPUT may be one of them. */
   template<typename elt_t>
   void
   do_foldin_into(Tensor<elt_t> &output,
-                 const Tensor<elt_t> &a, int _ndx1, const Tensor<elt_t> &b, int _ndx2)
+                 const Tensor<elt_t> a, int _ndx1, const Tensor<elt_t> b, int _ndx2)
   {
     index i_len,j_len,k_len,l_len,m_len;
     index rank, i;
-- 
2.43.0


From d94da1733a85c4e59dbdd5ec31921942ec17f6c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:39 +0000
Subject: [PATCH 14/71] fix: mean over the last index does not write past the
 list of dimensions

---
 src/tensor/tensor_mean_ndx.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/tensor/tensor_mean_ndx.cc b/src/tensor/tensor_mean_ndx.cc
index 0e44f3f..eb58da2 100644
--- a/src/tensor/tensor_mean_ndx.cc
+++ b/src/tensor/tensor_mean_ndx.cc
@@ -37,15 +37,15 @@ namespace {
       tensor::index left = 1, middle, right = 1;
       for (int i = 0, j = 0; i < rank; i++) {
 	tensor::index d = t.dimension(i);
+	if (i == ndx) {
+	  middle = d;
+	  continue;
+	}
 	dimensions.at(j++) = d;
 	if (i < ndx)
 	  left *= d;
-	else if (i > ndx)
+	else
 	  right *= d;
-	else {
-	  middle = d;
-	  j--;
-	}
       }
       Tensor aux = reshape(t, left, middle, right);
       Tensor output = Tensor::zeros(left, right);
-- 
2.43.0


From 83a008233d7e683eb4672d04bcbbee858e1c2878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:43 +0000
Subject: [PATCH 15/71] fix: the dimensions deduced from a list of coordinates
 hold the largest coordinate

---
 include/tensor/detail/sparse_base.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/tensor/detail/sparse_base.hpp b/include/tensor/detail/sparse_base.hpp
index d3f6389..17e7415 100644
--- a/include/tensor/detail/sparse_base.hpp
+++ b/include/tensor/detail/sparse_base.hpp
@@ -101,8 +101,9 @@ namespace tensor {
     for (i = 0; i < l; i++) {
       index r = rows[i];
       index c = cols[i];
-      nrows = std::max(nrows, r);
-      ncols = std::max(ncols, c);
+      assert(r >= 0 && c >= 0);
+      nrows = std::max(nrows, r + 1);
+      ncols = std::max(ncols, c + 1);
       if (data[i] != number_zero<elt_t>()) {
         sorted_data.push_back(sparse_triplet<elt_t>(r, c, data[i]));
       }
-- 
2.43.0


From dfc03bf9c5ed5fc246757337d2a6f119ff2a9502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:43 +0000
Subject: [PATCH 16/71] fix: coordinates that appear twice in a list are stored
 only once in the sparse matrix

---
 include/tensor/detail/sparse_base.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/tensor/detail/sparse_base.hpp b/include/tensor/detail/sparse_base.hpp
index 17e7415..6a216cb 100644
--- a/include/tensor/detail/sparse_base.hpp
+++ b/include/tensor/detail/sparse_base.hpp
@@ -128,10 +128,19 @@ namespace tensor {
           row_start_.at(++last_row) = j;
         }
       }
-      column_.at(j) = d.col;
+      column_.at(j) = last_col = d.col;
       data_.at(j) = d.value;
       j++;
     }
+    if (j != l) {
+      /* Some coordinates were repeated. */
+      Indices used_column(j);
+      std::copy(column_.begin_const(), column_.begin_const() + j, used_column.begin());
+      column_ = used_column;
+      Tensor<elt_t> used_data(j);
+      std::copy(data_.begin_const(), data_.begin_const() + j, used_data.begin());
+      data_ = used_data;
+    }
     while (last_row < nrows) {
       row_start_.at(++last_row) = j;
     }
-- 
2.43.0


From dfce5aa5fa6f4ad81c932ffcf6e507327cf5b460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:43 +0000
Subject: [PATCH 17/71] fix: mmult of a tensor and a sparse matrix does not ask
 for dimension -1

---
 src/sparse/mmult_tensor_sparse.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sparse/mmult_tensor_sparse.h b/src/sparse/mmult_tensor_sparse.h
index eb8e7fc..f786dfc 100644
--- a/src/sparse/mmult_tensor_sparse.h
+++ b/src/sparse/mmult_tensor_sparse.h
@@ -63,7 +63,7 @@ do_mmult(const Tensor<elt_t> &m1, const Sparse<elt_t> &m2)
 	dims.at(k) = m1.dimension(k);
 	i_len *= dims[k];
     }
-    index j_len = m1.dimension(-1);
+    index j_len = m1.dimension(N-1);
     index l_len = dims.at(N-1) = m2.columns();
 
     if (j_len != m2.rows()) {
-- 
2.43.0


From 7cda343e59a37db1b503f03881f4f96811f71aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:43 +0000
Subject: [PATCH 18/71] fix: kron2_sum of sparse matrices uses identities of
 the size of the matrices, not of their number of elements

---
 src/sparse/sparse_kron_d.cc | 4 ++--
 src/sparse/sparse_kron_z.cc | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sparse/sparse_kron_d.cc b/src/sparse/sparse_kron_d.cc
index e441eaf..cc57171 100644
--- a/src/sparse/sparse_kron_d.cc
+++ b/src/sparse/sparse_kron_d.cc
@@ -35,8 +35,8 @@ namespace tensor {
 
   const Sparse<double> kron2_sum(const Sparse<double> &s2, const Sparse<double> &s1)
   {
-    return kron(s1, Sparse<double>::eye(s2.length())) +
-      kron(Sparse<double>::eye(s1.length()), s2);
+    return kron(s1, Sparse<double>::eye(s2.rows(), s2.columns())) +
+      kron(Sparse<double>::eye(s1.rows(), s1.columns()), s2);
   }
 
 } // namespace tensor
diff --git a/src/sparse/sparse_kron_z.cc b/src/sparse/sparse_kron_z.cc
index 1523f9e..8e08a79 100644
--- a/src/sparse/sparse_kron_z.cc
+++ b/src/sparse/sparse_kron_z.cc
@@ -35,8 +35,8 @@ namespace tensor {
 
   const Sparse<cdouble> kron2_sum(const Sparse<cdouble> &s2, const Sparse<cdouble> &s1)
   {
-    return kron(s1, Sparse<cdouble>::eye(s2.length())) +
-      kron(Sparse<cdouble>::eye(s1.length()), s2);
+    return kron(s1, Sparse<cdouble>::eye(s2.rows(), s2.columns())) +
+      kron(Sparse<cdouble>::eye(s1.rows(), s1.columns()), s2);
   }
 
 } // namespace tensor
-- 
2.43.0


From a5b7bdf02d7c964c7703894c0cec44070a130099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:08 +0000
Subject: [PATCH 19/71] fix: kron2_sum of dense matrices orders the factors as
 kron2 and as the sparse version

---
 src/tensor/tensor_kron2_sum_d.cc | 2 +-
 src/tensor/tensor_kron2_sum_z.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tensor/tensor_kron2_sum_d.cc b/src/tensor/tensor_kron2_sum_d.cc
index ff9361e..991e9e4 100644
--- a/src/tensor/tensor_kron2_sum_d.cc
+++ b/src/tensor/tensor_kron2_sum_d.cc
@@ -24,7 +24,7 @@ namespace tensor {
 
   const Tensor<double> kron2_sum(const Tensor<double> &s1, const Tensor<double> &s2)
   {
-    return do_kron2_sum(s2, s1);
+    return do_kron2_sum(s1, s2);
   }
 
 } // namespace tensor
diff --git a/src/tensor/tensor_kron2_sum_z.cc b/src/tensor/tensor_kron2_sum_z.cc
index e11beeb..43209f8 100644
--- a/src/tensor/tensor_kron2_sum_z.cc
+++ b/src/tensor/tensor_kron2_sum_z.cc
@@ -24,7 +24,7 @@ namespace tensor {
 
   const Tensor<cdouble> kron2_sum(const Tensor<cdouble> &s1, const Tensor<cdouble> &s2)
   {
-    return do_kron2_sum(s2, s1);
+    return do_kron2_sum(s1, s2);
   }
 
 } // namespace tensor
-- 
2.43.0


From 57ad4b5876f2486c2bef065cffaa043ba7284d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:48 +0000
Subject: [PATCH 20/71] fix: scprod refuses tensors of different sizes instead
 of reading out of bounds

---
 src/tensor/tensor_norm2_d.cc | 2 ++
 src/tensor/tensor_norm2_z.cc | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/tensor/tensor_norm2_d.cc b/src/tensor/tensor_norm2_d.cc
index d83433d..c1fbe07 100644
--- a/src/tensor/tensor_norm2_d.cc
+++ b/src/tensor/tensor_norm2_d.cc
@@ -17,6 +17,7 @@
 */
 
 #define TENSOR_LOAD_IMPL
+#include <cassert>
 #include <tensor/tensor.h>
 
 namespace tensor {
@@ -28,6 +29,7 @@ namespace tensor {
 
   double scprod(const RTensor &a, const RTensor &b)
   {
+    assert(a.size() == b.size());
     double output = 0;
     for (RTensor::const_iterator ia = a.begin(), ib = b.begin();
 	 ia != a.end(); ia++, ib++)
diff --git a/src/tensor/tensor_norm2_z.cc b/src/tensor/tensor_norm2_z.cc
index 18522dd..5df9632 100644
--- a/src/tensor/tensor_norm2_z.cc
+++ b/src/tensor/tensor_norm2_z.cc
@@ -17,6 +17,7 @@
 */
 
 #define TENSOR_LOAD_IMPL
+#include <cassert>
 #include <tensor/tensor.h>
 
 namespace tensor {
@@ -28,6 +29,7 @@ namespace tensor {
 
   cdouble scprod(const CTensor &a, const CTensor &b)
   {
+    assert(a.size() == b.size());
     cdouble output = 0;
     for (CTensor::const_iterator ia = a.begin(), ib = b.begin();
 	 ia != a.end(); ia++, ib++)
-- 
2.43.0


From b32db16d130c12ad817d649587a4692c947ea3e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:48 +0000
Subject: [PATCH 21/71] fix: matrix_norminf of a matrix without columns does
 not read out of bounds

---
 src/tensor/matrix_norminf_d.cc | 6 ++----
 src/tensor/matrix_norminf_z.cc | 6 ++----
 2 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/tensor/matrix_norminf_d.cc b/src/tensor/matrix_norminf_d.cc
index f280414..b6d2987 100644
--- a/src/tensor/matrix_norminf_d.cc
+++ b/src/tensor/matrix_norminf_d.cc
@@ -31,10 +31,8 @@ namespace tensor {
 
     double *aux = new double[r];
     RTensor::const_iterator p = m.begin_const();
-    for (size_t i = 0; i < r; i++, p++) {
-      aux[i] = abs(*p);
-    }
-    for (size_t j = 1; j < c; j++) {
+    std::fill(aux, aux + r, 0.0);
+    for (size_t j = 0; j < c; j++) {
       for (size_t i = 0; i < r; i++, p++) {
 	aux[i] += abs(*p);
       }
diff --git a/src/tensor/matrix_norminf_z.cc b/src/tensor/matrix_norminf_z.cc
index 0499649..49b1360 100644
--- a/src/tensor/matrix_norminf_z.cc
+++ b/src/tensor/matrix_norminf_z.cc
@@ -31,10 +31,8 @@ namespace tensor {
 
     double *aux = new double[r];
     CTensor::const_iterator p = m.begin_const();
-    for (size_t i = 0; i < r; i++, p++) {
-      aux[i] = abs(*p);
-    }
-    for (size_t j = 1; j < c; j++) {
+    std::fill(aux, aux + r, 0.0);
+    for (size_t j = 0; j < c; j++) {
       for (size_t i = 0; i < r; i++, p++) {
 	aux[i] += abs(*p);
       }
-- 
2.43.0


From 140c3decdb62659b6722f964a2bd186928a26905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:25 +0000
Subject: [PATCH 22/71] fix: block_svd falls back to svd when the blocks do not
 provide all singular vectors

---
 src/linalg/block_svd.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/linalg/block_svd.hpp b/src/linalg/block_svd.hpp
index 1183b45..c222a0c 100644
--- a/src/linalg/block_svd.hpp
+++ b/src/linalg/block_svd.hpp
@@ -42,6 +42,18 @@ namespace linalg {
       return svd(A, pU, pVT, economic);
     }
 
+    // The blocks provide all singular vectors only when each of them has full
+    // rank dimensions and together they cover the smallest side of the matrix.
+    index nvectors = 0;
+    for (index b = 0; b < nblocks; b++) {
+      nvectors += std::min(block_rows[b].size(), block_cols[b].size());
+    }
+    if (nvectors < minrc) {
+      delete[] block_rows;
+      delete[] block_cols;
+      return svd(A, pU, pVT, economic);
+    }
+
     if ((nblocks == 1) &&
 	(block_rows[0].size() >= rows/2) &&
 	(block_cols[0].size() >= cols/2)) {
-- 
2.43.0


From c53af388cac19c2b44afb6e26e213b022443af07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:25 +0000
Subject: [PATCH 23/71] fix: solve_with_svd returns zero when all singular
 values are discarded

---
 src/linalg/solve_with_svd_d.cc | 7 +++++++
 src/linalg/solve_with_svd_z.cc | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/src/linalg/solve_with_svd_d.cc b/src/linalg/solve_with_svd_d.cc
index d71afe6..ec13ff7 100644
--- a/src/linalg/solve_with_svd_d.cc
+++ b/src/linalg/solve_with_svd_d.cc
@@ -43,6 +43,13 @@ namespace linalg {
     }
     for (tensor::index i = 0; i < s.size(); i++) {
       if (s[i] <= tol) {
+	if (i == 0) {
+	  // All singular values vanish and so does the pseudoinverse.
+	  Indices dims = B.dimensions();
+	  assert(dims[0] == A.rows());
+	  dims.at(0) = A.columns();
+	  return RTensor::zeros(dims);
+	}
 	U = U(range(), range(0,i-1));
 	s = s(range(0,i-1));
 	VT = VT(range(0,i-1), range());
diff --git a/src/linalg/solve_with_svd_z.cc b/src/linalg/solve_with_svd_z.cc
index 79b6a68..7a002a2 100644
--- a/src/linalg/solve_with_svd_z.cc
+++ b/src/linalg/solve_with_svd_z.cc
@@ -43,6 +43,13 @@ namespace linalg {
     }
     for (tensor::index i = 0; i < s.size(); i++) {
       if (s[i] <= tol) {
+	if (i == 0) {
+	  // All singular values vanish and so does the pseudoinverse.
+	  Indices dims = B.dimensions();
+	  assert(dims[0] == A.rows());
+	  dims.at(0) = A.columns();
+	  return CTensor::zeros(dims);
+	}
 	U = U(range(), range(0,i-1));
 	s = s(range(0,i-1));
 	VT = VT(range(0,i-1), range());
-- 
2.43.0


From 76de07bcbf302547483e6a185eb4088722ef21b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:25 +0000
Subject: [PATCH 24/71] fix: eig_power returns complex eigenvalues, not their
 conjugates

---
 src/linalg/eig_power.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/linalg/eig_power.hpp b/src/linalg/eig_power.hpp
index 224d965..90c18ec 100644
--- a/src/linalg/eig_power.hpp
+++ b/src/linalg/eig_power.hpp
@@ -52,7 +52,8 @@ namespace linalg {
     //
     for (size_t i = 0; i <= iter; i++) {
       Tensor<elt_t> v_new = (*A)(v);
-      eig = scprod(v, v_new);
+      // scprod() conjugates its second argument
+      eig = scprod(v_new, v);
       double err = norm0(v_new - eig * v);
       v = (v_new /= norm2(v_new));
       // Stop if the vector is sufficiently close to an eigenstate
-- 
2.43.0


From 972f1332f06cf9af6aed01925189098b8a002ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:12 +0000
Subject: [PATCH 25/71] fix: eig_power iterates until the eigenvector
 converges, not just the eigenvalue

---
 src/linalg/eig_power.hpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/linalg/eig_power.hpp b/src/linalg/eig_power.hpp
index 90c18ec..39c6d82 100644
--- a/src/linalg/eig_power.hpp
+++ b/src/linalg/eig_power.hpp
@@ -42,7 +42,7 @@ namespace linalg {
       iter = std::max<size_t>(20, v.size());
     }
     v /= norm2(v);
-    elt_t eig, old_eig;
+    elt_t eig;
     //
     // We apply repeatedly the map 'A' onto the same random initial
     // vector, until (A^n)*v converges to the eigenstate with the largest
@@ -60,9 +60,6 @@ namespace linalg {
       if (err < tol * std::abs(eig))
         break;
       // Or if the eigenvalues stopped evolving
-      if (i && (std::abs(eig - old_eig) < tol * std::abs(eig)))
-        break;
-      old_eig = eig;
     }
     delete A;
     return eig;
-- 
2.43.0


From 12072ab2b400fd112366940a07f97be268ccc4ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:38 +0000
Subject: [PATCH 26/71] fix: declare cgs() for complex sparse matrices with the
 type it is defined for

---
 include/tensor/linalg.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tensor/linalg.h b/include/tensor/linalg.h
index a2194f6..54fb757 100644
--- a/include/tensor/linalg.h
+++ b/include/tensor/linalg.h
@@ -56,7 +56,7 @@ namespace linalg {
   const RTensor cgs(const RSparse &A, const RTensor &b, const RTensor *x_start = 0,
                     int maxiter = 0, double tol = 0);
   /**Solve a real linear system of equations by the conjugate gradient method.*/
-  const CTensor cgs(const RSparse &A, const CTensor &b, const CTensor *x_start = 0,
+  const CTensor cgs(const CSparse &A, const CTensor &b, const CTensor *x_start = 0,
                     int maxiter = 0, double tol = 0);
 
   /**Solve a real linear system of equations by the conjugate gradient
-- 
2.43.0


From 310e7a31452dc6697631b8bb4728947e9536a61e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:38 +0000
Subject: [PATCH 27/71] fix: cgs() allows by default as many iterations as
 unknowns for tensors of any rank

---
 src/linalg/cgs.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/linalg/cgs.cc b/src/linalg/cgs.cc
index 8227f71..0863f26 100644
--- a/src/linalg/cgs.cc
+++ b/src/linalg/cgs.cc
@@ -31,7 +31,7 @@ namespace linalg {
   {
     typedef typename Tensor::elt_t number;
     if (maxiter == 0) {
-      maxiter = b.rows();
+      maxiter = b.size();
     }
     if (tol <= 0) {
       tol = 1e-10;
-- 
2.43.0


From 91a68ad329c335885b96fa6bc177bcc4098a3c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:17 +0000
Subject: [PATCH 28/71] fix: eigs of matrices of up to four rows returns right,
 not left, eigenvectors

---
 src/arpack/eigs_d.cc     | 2 +-
 src/arpack/eigs_map_d.cc | 2 +-
 src/arpack/eigs_map_z.cc | 2 +-
 src/arpack/eigs_z.cc     | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/arpack/eigs_d.cc b/src/arpack/eigs_d.cc
index a9abd54..0d76025 100644
--- a/src/arpack/eigs_d.cc
+++ b/src/arpack/eigs_d.cc
@@ -49,7 +49,7 @@ namespace linalg {
        * using the full routine.
        */
       CTensor vectors;
-      CTensor values = eig(A, NULL, eigenvectors? &vectors : 0);
+      CTensor values = eig(A, eigenvectors? &vectors : 0);
       Indices ndx = RArpack::sort_values(values, t);
       Indices ndx_out(neig);
       std::copy(ndx.begin(), ndx.begin() + neig, ndx_out.begin());
diff --git a/src/arpack/eigs_map_d.cc b/src/arpack/eigs_map_d.cc
index 2019e6b..5ff4b8e 100644
--- a/src/arpack/eigs_map_d.cc
+++ b/src/arpack/eigs_map_d.cc
@@ -49,7 +49,7 @@ namespace linalg {
         M.at(range(),range(i)) = (*A)(v);
       }
       CTensor vectors;
-      CTensor values = eig(M, NULL, eigenvectors? &vectors : 0);
+      CTensor values = eig(M, eigenvectors? &vectors : 0);
       Indices ndx = RArpack::sort_values(values, t);
       Indices ndx_out(neig);
       std::copy(ndx.begin(), ndx.begin() + neig, ndx_out.begin());
diff --git a/src/arpack/eigs_map_z.cc b/src/arpack/eigs_map_z.cc
index aa7a178..d4e8cca 100644
--- a/src/arpack/eigs_map_z.cc
+++ b/src/arpack/eigs_map_z.cc
@@ -48,7 +48,7 @@ namespace linalg {
         M.at(range(),range(i)) = (*A)(v);
       }
       CTensor vectors;
-      CTensor values = eig(M, NULL, eigenvectors? &vectors : 0);
+      CTensor values = eig(M, eigenvectors? &vectors : 0);
       Indices ndx = CArpack::sort_values(values, t);
       Indices ndx_out(neig);
       std::copy(ndx.begin(), ndx.begin() + neig, ndx_out.begin());
diff --git a/src/arpack/eigs_z.cc b/src/arpack/eigs_z.cc
index b53d49c..0d278e8 100644
--- a/src/arpack/eigs_z.cc
+++ b/src/arpack/eigs_z.cc
@@ -53,7 +53,7 @@ namespace linalg {
        * using the full routine.
        */
       CTensor vectors;
-      CTensor values = eig(A, NULL, eigenvectors? &vectors : 0);
+      CTensor values = eig(A, eigenvectors? &vectors : 0);
       Indices ndx = CArpack::sort_values(values, t);
       Indices ndx_out(neig);
       std::copy(ndx.begin(), ndx.begin() + neig, ndx_out.begin());
-- 
2.43.0


From d06374ae01dd5fb1ab4dd1e4965ec62614744e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:17 +0000
Subject: [PATCH 29/71] fix: eigs refuses selection number 6 instead of reading
 past the table of selections

---
 src/arpack/arpack_t.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arpack/arpack_t.cc b/src/arpack/arpack_t.cc
index 83f6507..cf4276d 100644
--- a/src/arpack/arpack_t.cc
+++ b/src/arpack/arpack_t.cc
@@ -39,7 +39,7 @@ ARPACK::ARPACK(size_t _n, enum EigType _t, size_t _nev)
     abort();
   }
 #endif
-  if (_t < 0 || _t > 6) {
+  if (_t < 0 || _t > 5) {
     std::cerr << "Invalid argument EigType passed to Arpack constructor"
               << std::endl;
     abort();
-- 
2.43.0


From 547cd02f68a249ec6759108db671132cddca13a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:17 +0000
Subject: [PATCH 30/71] fix: eigs refuses sparse matrices that are not square

---
 src/arpack/eigs_sp_d.cc | 4 ++++
 src/arpack/eigs_sp_z.cc | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/arpack/eigs_sp_d.cc b/src/arpack/eigs_sp_d.cc
index ce3f849..19b43c3 100644
--- a/src/arpack/eigs_sp_d.cc
+++ b/src/arpack/eigs_sp_d.cc
@@ -29,6 +29,10 @@ namespace linalg {
   eigs(const RSparse &A, int eig_type, size_t neig, RTensor *eigenvectors,
        bool *converged)
   {
+    if (A.rows() != A.columns()) {
+      std::cerr << "In eigs(): Can only compute eigenvalues of square matrices.";
+      abort();
+    }
     return do_eigs(new tensor::MatrixMap<RSparse>(A), A.columns(), eig_type, neig,
                    eigenvectors, converged);
   }
diff --git a/src/arpack/eigs_sp_z.cc b/src/arpack/eigs_sp_z.cc
index c8b39e2..aab1a65 100644
--- a/src/arpack/eigs_sp_z.cc
+++ b/src/arpack/eigs_sp_z.cc
@@ -29,6 +29,10 @@ namespace linalg {
   eigs(const CSparse &A, int eig_type, size_t neig, CTensor *eigenvectors,
        bool *converged)
   {
+    if (A.rows() != A.columns()) {
+      std::cerr << "In eigs(): Can only compute eigenvalues of square matrices.";
+      abort();
+    }
     return do_eigs(new tensor::MatrixMap<CSparse>(A), A.columns(), eig_type, neig,
                    eigenvectors, converged);
   }
-- 
2.43.0


From bb52139f3f6f76906db1dd537fa0dab85227f160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:44 +0000
Subject: [PATCH 31/71] fix: reading past the end of a truncated data file is
 an error

---
 src/sdf/idata_file.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sdf/idata_file.cc b/src/sdf/idata_file.cc
index b3f02b7..1ca62b4 100644
--- a/src/sdf/idata_file.cc
+++ b/src/sdf/idata_file.cc
@@ -26,7 +26,7 @@ template <class number>
 void read_raw_with_endian(std::ifstream &s, number *data, size_t n)
 {
   s.read((char *)data, n * sizeof(number));
-  if (s.bad()) {
+  if (s.fail()) {
     std::cerr << "I/O error when reading from SDF stream";
     abort();
   }
@@ -38,7 +38,7 @@ void read_raw_with_endian(std::ifstream &s, number *data, size_t n)
   const int size = sizeof(number);
   if (size == 1) {
     s.read((char *)data, n * sizeof(number));
-    if (s.bad()) {
+    if (s.fail()) {
       std::cerr << "I/O error when reading from SDF stream";
       abort();
     }
@@ -52,7 +52,7 @@ void read_raw_with_endian(std::ifstream &s, number *data, size_t n)
   do {
     size_t now = min<size_t>(n*size, buffer_size);
     s.read(buffer, now);
-    if (s.bad()) {
+    if (s.fail()) {
       std::cerr << "I/O error when reading from stream " << s;
       abort();
     }
-- 
2.43.0


From 8370263c1e15f64d246e7412302bc3d9521e8a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:44 +0000
Subject: [PATCH 32/71] fix: names and headers that fill their field or are cut
 short are not read out of bounds

---
 src/sdf/idata_file.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/sdf/idata_file.cc b/src/sdf/idata_file.cc
index 1ca62b4..f2ee30c 100644
--- a/src/sdf/idata_file.cc
+++ b/src/sdf/idata_file.cc
@@ -17,6 +17,7 @@
     51 Franklin Street, Fifth Floor, Boston, MA 02110-1301 USA.
 */
 
+#include <cstring>
 #include <tensor/sdf.h>
 
 using namespace sdf;
@@ -146,7 +147,7 @@ InDataFile::read_variable_name()
 {
   char *buffer = new char[var_name_size];
   read_raw(buffer, var_name_size);
-  std::string output(buffer);
+  std::string output(buffer, strnlen(buffer, var_name_size));
   delete[] buffer;
   return output;
 }
@@ -265,7 +266,8 @@ InDataFile::read_header()
 {
   std::string var_name = read_variable_name();
 
-  if (var_name[0] != 's' || var_name[1] != 'd' || var_name[2] != 'f') {
+  if (var_name.size() < 6 ||
+      var_name[0] != 's' || var_name[1] != 'd' || var_name[2] != 'f') {
     std::cerr << "Bogus SDF file" << std::endl
               << "Wrong header: '" << var_name << "'" << std::endl;
     abort();
-- 
2.43.0


From 5fb37220bb13f4a4f36a9899a7a8aa57965e00ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:44 +0000
Subject: [PATCH 33/71] fix: records with names longer than the stored field
 can be read by name

---
 src/sdf/idata_file.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sdf/idata_file.cc b/src/sdf/idata_file.cc
index f2ee30c..f3eb867 100644
--- a/src/sdf/idata_file.cc
+++ b/src/sdf/idata_file.cc
@@ -156,7 +156,8 @@ void
 InDataFile::read_tag(const std::string &name, tensor::index type)
 {
   std::string other_name = read_variable_name();
-  if (name.size() && (name != other_name)) {
+  // Names are stored with up to var_name_size - 1 characters
+  if (name.size() && (name.substr(0, var_name_size - 1) != other_name)) {
     std::cerr << "While reading file " << _filename << ", variable "
 	      << name << " was expected but found "
 	      << other_name << '\n';
-- 
2.43.0


From 7aad6465680981a86364e4897d6d6ecf9753d6ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:44 +0000
Subject: [PATCH 34/71] fix: unknown record types are reported without reading
 past the table of names

---
 src/sdf/data_file.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sdf/data_file.cc b/src/sdf/data_file.cc
index 9c6b34f..08cedd1 100644
--- a/src/sdf/data_file.cc
+++ b/src/sdf/data_file.cc
@@ -133,8 +133,9 @@ DataFile::tag_to_name(size_t tag)
 	"RTensor", "CTensor", "Real MPS", "Complex MPS"
     };
 
-    if (tag > 4 /* || tag < 0 */) {
+    if (tag >= 4 /* || tag < 0 */) {
 	std::cerr << "Not a valid tag code, " << tag << " found in " << _filename;
+	return "unknown";
     }
     return names[tag];
 }
-- 
2.43.0


From 5b12be5938f471f8ffb9a4c52ac70206aeba9eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:14 +0000
Subject: [PATCH 35/71] fix: lengths and dimensions found in damaged data files
 are validated before using them

---
 src/sdf/idata_file.cc | 51 +++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 49 insertions(+), 2 deletions(-)

diff --git a/src/sdf/idata_file.cc b/src/sdf/idata_file.cc
index f3eb867..e6306f8 100644
--- a/src/sdf/idata_file.cc
+++ b/src/sdf/idata_file.cc
@@ -172,11 +172,50 @@ InDataFile::read_tag(const std::string &name, tensor::index type)
   }
 }
 
+/* Refuse lengths which do not fit in what is left of the file. */
+static void
+check_length(std::ifstream &s, size_t length, size_t element_size)
+{
+  std::streamoff here = s.tellg();
+  s.seekg(0, std::ios_base::end);
+  std::streamoff left = s.tellg() - here;
+  s.seekg(here, std::ios_base::beg);
+  if (s.fail() || left < 0 || length > (size_t)left / element_size) {
+    std::cerr << "Invalid length " << length << " found in SDF stream";
+    abort();
+  }
+}
+
+/* Refuse dimensions that do not correspond to the number of elements. */
+static void
+check_dimensions(const Indices &dims, tensor::index length)
+{
+  tensor::index total = dims.size() ? 1 : 0;
+  bool valid = true;
+  for (tensor::index i = 0; i < dims.size(); i++) {
+    if (dims[i] < 0)
+      valid = false;
+    else if (dims[i] == 0)
+      total = 0;
+  }
+  for (tensor::index i = 0; valid && total && i < dims.size(); i++) {
+    if (dims[i] > length / total)
+      valid = false;
+    else
+      total *= dims[i];
+  }
+  if (!valid || total != length) {
+    std::cerr << "Invalid dimensions found in SDF stream";
+    abort();
+  }
+}
+
 template<class Vector>
 const Vector InDataFile::load_vector()
 {
   size_t length;
   read_raw(length);
+  check_length(_stream, length, sizeof(typename Vector::elt_t));
   Vector v(length);
   read_raw(v.begin(), length);
   return v;
@@ -186,14 +225,18 @@ void
 InDataFile::load(RTensor *t, const std::string &name) {
   read_tag(name, TAG_RTENSOR);
   Indices dims = load_vector<Indices>();
-  *t = RTensor(dims, load_vector<RTensor>());
+  const RTensor data = load_vector<RTensor>();
+  check_dimensions(dims, data.size());
+  *t = RTensor(dims, data);
 }
 
 void
 InDataFile::load(CTensor *t, const std::string &name) {
   read_tag(name, TAG_CTENSOR);
   Indices dims = load_vector<Indices>();
-  *t = CTensor(dims, load_vector<CTensor>());
+  const CTensor data = load_vector<CTensor>();
+  check_dimensions(dims, data.size());
+  *t = CTensor(dims, data);
 }
 
 void
@@ -202,6 +245,8 @@ InDataFile::load(std::vector<RTensor> *m, const std::string &name)
   read_tag(name, TAG_RTENSOR_VECTOR);
   size_t l;
   read_raw(l);
+  // A record has at least a name, a tag, a rank and a length
+  check_length(_stream, l, var_name_size + 3 * sizeof(tensor::index));
   m->resize(l);
   for (size_t k = 0; k < l; k++) {
     load(&m->at(k));
@@ -214,6 +259,8 @@ InDataFile::load(std::vector<CTensor> *m, const std::string &name)
   read_tag(name, TAG_CTENSOR_VECTOR);
   size_t l;
   read_raw(l);
+  // A record has at least a name, a tag, a rank and a length
+  check_length(_stream, l, var_name_size + 3 * sizeof(tensor::index));
   m->resize(l);
   for (size_t k = 0; k < l; k++) {
     load(&m->at(k));
-- 
2.43.0


From 71bc92ae2fc9519471c1f6272a406c22d222c1ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:34 +0000
Subject: [PATCH 36/71] fix: loading a single number from an empty tensor is an
 error

---
 src/sdf/idata_file.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sdf/idata_file.cc b/src/sdf/idata_file.cc
index e6306f8..4008ea3 100644
--- a/src/sdf/idata_file.cc
+++ b/src/sdf/idata_file.cc
@@ -272,7 +272,7 @@ InDataFile::load(double *value, const std::string &name)
 {
   RTensor t;
   load(&t, name);
-  if (t.size() > 1) {
+  if (t.size() != 1) {
     std::cerr << "While reading file " << _filename << " found a tensor of size "
 	      << t.size() << " while a single value was expected.";
     abort();
@@ -285,7 +285,7 @@ InDataFile::load(cdouble *value, const std::string &name)
 {
   CTensor t;
   load(&t, name);
-  if (t.size() > 1) {
+  if (t.size() != 1) {
     std::cerr << "While reading file " << _filename << " found a tensor of size "
 	      << t.size() << " while a single value was expected.";
     abort();
-- 
2.43.0


From 6c76b1c12c97ce528c8dab3ee30d2afffc25b4f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:34 +0000
Subject: [PATCH 37/71] fix: numbers that do not fit in an integer are not
 loaded as one

---
 src/sdf/idata_file.cc | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/sdf/idata_file.cc b/src/sdf/idata_file.cc
index 4008ea3..5af0e40 100644
--- a/src/sdf/idata_file.cc
+++ b/src/sdf/idata_file.cc
@@ -17,7 +17,9 @@
     51 Franklin Street, Fifth Floor, Boston, MA 02110-1301 USA.
 */
 
+#include <cmath>
 #include <cstring>
+#include <limits>
 #include <tensor/sdf.h>
 
 using namespace sdf;
@@ -293,12 +295,26 @@ InDataFile::load(cdouble *value, const std::string &name)
   *value = t[0];
 }
 
+/* Refuse numbers which cannot be stored in the given type of integer. */
+template<typename integer>
+static integer
+to_integer(double value)
+{
+  const double upper = ldexp(1.0, std::numeric_limits<integer>::digits);
+  const double lower = std::numeric_limits<integer>::is_signed ? -upper : 0.0;
+  if (!(value >= lower && value < upper)) {
+    std::cerr << "The number " << value << " found in SDF stream is not a valid integer.";
+    abort();
+  }
+  return (integer)value;
+}
+
 void
 InDataFile::load(size_t *v, const std::string &name)
 {
   double aux;
   load(&aux, name);
-  *v = (size_t)aux;
+  *v = to_integer<size_t>(aux);
 }
 
 void
@@ -306,7 +322,7 @@ InDataFile::load(int *v, const std::string &name)
 {
   double aux;
   load(&aux, name);
-  *v = (int)aux;
+  *v = to_integer<int>(aux);
 }
 
 void
-- 
2.43.0


From 77afcb728b1cb8c122b0fde76e0e1a6195f533fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:34 +0000
Subject: [PATCH 38/71] fix: failures to open, write or close a data file are
 reported

---
 src/sdf/odata_file.cc | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/sdf/odata_file.cc b/src/sdf/odata_file.cc
index a38e255..af9d104 100644
--- a/src/sdf/odata_file.cc
+++ b/src/sdf/odata_file.cc
@@ -27,13 +27,13 @@ template <class number>
 void write_raw_with_endian(std::ofstream &s, const number *data, size_t n)
 {
   s.write((char *)data, n * sizeof(number));
-  if (s.bad()) {
-    std::cerr << "I/O error when writing to SDF stream";
-    abort();
-  }
   // Horrible hack to ensure icc flushes our buffers and does not
   // cause buffer overflow.
   s.flush();
+  if (s.fail()) {
+    std::cerr << "I/O error when writing to SDF stream";
+    abort();
+  }
 }
 
 #else
@@ -44,11 +44,11 @@ void write_raw_with_endian(std::ofstream &s, const number *data, size_t n)
   const int size = sizeof(number);
   if (size == 1) {
     s.write((char *)data, n * sizeof(number));
-    if (s.bad()) {
+    s.flush();
+    if (s.fail()) {
       std::cerr << "I/O error when writing to SDF stream";
       abort();
     }
-    s.flush();
     return;
   }
 
@@ -81,11 +81,11 @@ void write_raw_with_endian(std::ofstream &s, const number *data, size_t n)
       n--;
     }
     s.write(buffer, now);
-    if (s.bad()) {
-      std::cerr << "I/O error when reading from stream " << s;
+    s.flush();
+    if (s.fail()) {
+      std::cerr << "I/O error when writing to SDF stream";
       abort();
     }
-    s.flush();
   } while (n);
 }
 
@@ -114,8 +114,11 @@ void
 OutDataFile::close()
 {
   if (is_open()) {
-    _stream.flush();
     _stream.close();
+    if (_stream.fail()) {
+      std::cerr << "I/O error when closing file " << actual_filename();
+      abort();
+    }
     DataFile::close();
   }
 }
-- 
2.43.0


From 4f824c60bf25587af2033fd3e9dd96207ee853f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:42 +0000
Subject: [PATCH 39/71] fix: a data file which exists but is empty gets its
 header

---
 src/sdf/odata_file.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sdf/odata_file.cc b/src/sdf/odata_file.cc
index af9d104..60ec03e 100644
--- a/src/sdf/odata_file.cc
+++ b/src/sdf/odata_file.cc
@@ -98,9 +98,9 @@ void write_raw_with_endian(std::ofstream &s, const number *data, size_t n)
 OutDataFile::OutDataFile(const std::string &a_filename, int flags) :
   DataFile(a_filename, flags)
 {
-  bool existed = file_exists(actual_filename());
   _stream.open(actual_filename().c_str(), std::ofstream::app | std::ofstream::binary);
-  if (!existed) {
+  _stream.seekp(0, std::ofstream::end);
+  if (_stream.tellp() == std::streampos(0)) {
     write_header();
   }
 }
-- 
2.43.0


From 9182580b56e63b74f853999d623dd87a22aff211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:12 +0000
Subject: [PATCH 40/71] fix: replacing a file by renaming never leaves a moment
 without the file

---
 src/sdf/rename_file.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/sdf/rename_file.cc b/src/sdf/rename_file.cc
index c937f53..1545c5b 100644
--- a/src/sdf/rename_file.cc
+++ b/src/sdf/rename_file.cc
@@ -25,7 +25,11 @@ namespace sdf {
   bool rename_file(const std::string &orig, const std::string &dest, bool overwrite)
   {
     if (file_exists(dest)) {
-      if (!overwrite || !delete_file(dest)) {
+#if defined(_MSC_VER) || defined(__MINGW32__)
+      // Here rename() does not replace the destination
+      overwrite = overwrite && delete_file(dest);
+#endif
+      if (!overwrite) {
 	std::cerr << "Unable to move file to destination " << dest
 		  << " because destination cannot be deleted." << std::endl;
 	abort();
-- 
2.43.0


From 0a02c03453b5ab0530bc8387b204deebe39b0064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:12 +0000
Subject: [PATCH 41/71] fix: failure to move the temporary file into place is
 reported

---
 src/sdf/data_file.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/sdf/data_file.cc b/src/sdf/data_file.cc
index 08cedd1..8a29a8b 100644
--- a/src/sdf/data_file.cc
+++ b/src/sdf/data_file.cc
@@ -120,8 +120,12 @@ DataFile::close()
       }
       break;
     case SDF_PARANOID:
-      if (file_exists(_actual_filename))
-        rename_file(_actual_filename, _filename);
+      if (file_exists(_actual_filename) &&
+          !rename_file(_actual_filename, _filename)) {
+        std::cerr << "Cannot move file " << _actual_filename << " to "
+                  << _filename << std::endl;
+        abort();
+      }
     }
   }
 }
-- 
2.43.0


From f94aca70d36cfd09b4295c98b3ba532e28b334fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:30 +0000
Subject: [PATCH 42/71] fix: a lock file that cannot be opened is reported
 instead of waiting for it forever

---
 src/sdf/data_file.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/sdf/data_file.cc b/src/sdf/data_file.cc
index 8a29a8b..8fbeb83 100644
--- a/src/sdf/data_file.cc
+++ b/src/sdf/data_file.cc
@@ -48,7 +48,12 @@ static int get_lock(char const *lockName, bool wait)
       mode_t m = umask(0);
       int fd = open(lockName, O_RDWR|O_CREAT, 0666);
       umask(m);
-      if( fd >= 0 && flock( fd, LOCK_EX | LOCK_NB ) < 0 )
+      if( fd < 0 )
+	{
+          std::cerr << "Cannot open lock file " << lockName << std::endl;
+          abort();
+	}
+      if( flock( fd, LOCK_EX | LOCK_NB ) < 0 )
 	{
           if (errno == ENOTSUP) {
             std::cout << "Locking not supported. We assume you know what you are doing.\n";
-- 
2.43.0


From 7a43c400df17d6c720dd1e64266dfcf88fe9ca03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:30 +0000
Subject: [PATCH 43/71] fix: a lock on a file deleted by its previous owner is
 not taken as a lock

---
 src/sdf/data_file.cc | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/sdf/data_file.cc b/src/sdf/data_file.cc
index 8fbeb83..b118f36 100644
--- a/src/sdf/data_file.cc
+++ b/src/sdf/data_file.cc
@@ -37,6 +37,18 @@ const enum DataFile::endianness DataFile::endian = LITTLE_ENDIAN_FILE;
 #endif
 const unsigned int DataFile::var_name_size = 64;
 
+#if !defined(_MSC_VER) && !defined(__MINGW32__)
+/* True if the file that we have open is still found under that name. Another
+ * process may have deleted it between our open() and our flock().
+ */
+static bool same_file(int fd, char const *fileName)
+{
+  struct stat ours, theirs;
+  return fstat(fd, &ours) == 0 && stat(fileName, &theirs) == 0 &&
+    ours.st_dev == theirs.st_dev && ours.st_ino == theirs.st_ino;
+}
+#endif
+
 /* Try to get lock. Return its file descriptor or -1 if failed.
  */
 static int get_lock(char const *lockName, bool wait)
@@ -62,6 +74,11 @@ static int get_lock(char const *lockName, bool wait)
 	  close(fd);
 	  fd = -1;
 	}
+      else if( !same_file( fd, lockName ) )
+	{
+	  close(fd);
+	  continue;
+	}
       if (fd > 0 || !wait)
 	return fd;
       sleep(1);
-- 
2.43.0


From e533c96adab137324f1f59837fd846eb4c14afaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:30 +0000
Subject: [PATCH 44/71] fix: a lock with file descriptor zero is a valid lock

---
 include/tensor/sdf.h | 2 +-
 src/sdf/data_file.cc | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/tensor/sdf.h b/include/tensor/sdf.h
index dbc7f45..57b34d4 100644
--- a/include/tensor/sdf.h
+++ b/include/tensor/sdf.h
@@ -72,7 +72,7 @@ namespace sdf {
     const char *tag_to_name(size_t tag);
     void close();
     bool is_open() { return _open; }
-    bool is_locked() { return _lock; }
+    bool is_locked() { return _lock >= 0; }
     const std::string &actual_filename() { return _actual_filename; }
 
   };
diff --git a/src/sdf/data_file.cc b/src/sdf/data_file.cc
index b118f36..45bdf43 100644
--- a/src/sdf/data_file.cc
+++ b/src/sdf/data_file.cc
@@ -79,7 +79,7 @@ static int get_lock(char const *lockName, bool wait)
 	  close(fd);
 	  continue;
 	}
-      if (fd > 0 || !wait)
+      if (fd >= 0 || !wait)
 	return fd;
       sleep(1);
     } while (1);
@@ -103,7 +103,7 @@ DataFile::DataFile(const std::string &a_filename, int flags) :
   _actual_filename(a_filename),
   _filename(_actual_filename),
   _lock_filename(_actual_filename + ".lck"),
-  _lock((flags == SDF_SHARED) ? get_lock(_lock_filename.c_str(), true) : 0),
+  _lock((flags == SDF_SHARED) ? get_lock(_lock_filename.c_str(), true) : -1),
   _open(true)
 {
   switch (flags) {
-- 
2.43.0


From 953c3223eabd4ef9c587514cc89128cfbf883bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:08 +0000
Subject: [PATCH 45/71] fix: the Python reader returns the tensors of a vector
 of tensors instead of discarding them

---
 python/sdf.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/python/sdf.py b/python/sdf.py
index 1e7a8a8..62dc59f 100644
--- a/python/sdf.py
+++ b/python/sdf.py
@@ -89,8 +89,7 @@ class SDF:
 
     def load_mp(self, iscomplex):
         L = self.read_longs(1)[0]
-        [self.load_record()[0] for i in range(L)]
-        return []
+        return [self.load_record()[0] for i in range(L)]
 
     def load_tensor(self, iscomplex):
         rank = self.read_longs(1)[0]
-- 
2.43.0


From 383167ccc593095013dae5fd053f3964de8df73f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:08 +0000
Subject: [PATCH 46/71] fix: the Python reader swaps the bytes of files with
 another byte order and reports unknown tags

---
 python/sdf.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/python/sdf.py b/python/sdf.py
index 62dc59f..3d96469 100644
--- a/python/sdf.py
+++ b/python/sdf.py
@@ -84,7 +84,7 @@ class SDF:
         elif code == 3:
             obj = self.load_mp(True)
         else:
-            raise Error('Unknown SDF tag')
+            raise ValueError('Unknown SDF tag')
         return obj, name
 
     def load_mp(self, iscomplex):
@@ -105,21 +105,21 @@ class SDF:
         output = np.ndarray(shape=(n,),dtype=self.long_type)
         self.f.readinto(output)
         if self.interpret:
-            output.byteswwap()
+            output.byteswap(inplace=True)
         return output
 
     def read_doubles(self, n):
         output = np.ndarray(shape=(n,),dtype=self.double)
         self.f.readinto(output)
         if self.interpret:
-            output.byteswwap()
+            output.byteswap(inplace=True)
         return output
     
     def read_complex(self, n):
         output = np.ndarray(shape=(n,),dtype=self.cdouble)
         self.f.readinto(output)
         if self.interpret:
-            output.byteswwap()
+            output.byteswap(inplace=True)
         return output
 
     def load_tag(self):
-- 
2.43.0


From d3d59c881a6bf42f5f22330db710f4d16f66bd9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:08 +0000
Subject: [PATCH 47/71] fix: the Python reader finds the header only at the
 start of the file and does not stop at records without name

---
 python/sdf.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/python/sdf.py b/python/sdf.py
index 3d96469..01e55c5 100644
--- a/python/sdf.py
+++ b/python/sdf.py
@@ -57,12 +57,11 @@ class SDF:
         output = {}
         while self.f.readable():
             obj, name = self.load_record()
-            if len(name):
-                output[name] = obj
-            else:
+            if name is None:
                 break
+            output[name] = obj
         self.f.close()
-        f = []
+        self.f = []
         return output
 
     def set_endian(self, newendian):
@@ -73,7 +72,7 @@ class SDF:
         name, code = self.load_tag()
         obj = []
         if code == -1:
-            name = '';
+            name = None;
             obj = [];
         elif code == 0:
             obj = self.load_tensor(False)
@@ -126,7 +125,7 @@ class SDF:
         name = self.f.read(64)
         code = []
         if len(name):
-            if name[0] == 115 and name[1] == 100 and name[2] == 102:
+            if self.f.tell() == 64 and name[0] == 115 and name[1] == 100 and name[2] == 102:
                 if name[4] == ord('4'):
                     self.long_type = self.int32
                 elif name[4] == ord('8'):
-- 
2.43.0


From 7ce9741e5ec3041c983327c8de6a0615429bd8ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:08 +0000
Subject: [PATCH 48/71] fix: the Python reader reports truncated files instead
 of returning unset data

---
 python/sdf.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/python/sdf.py b/python/sdf.py
index 01e55c5..24ed230 100644
--- a/python/sdf.py
+++ b/python/sdf.py
@@ -102,21 +102,24 @@ class SDF:
 
     def read_longs(self, n):
         output = np.ndarray(shape=(n,),dtype=self.long_type)
-        self.f.readinto(output)
+        if self.f.readinto(output) != output.nbytes:
+            raise ValueError('Truncated SDF file')
         if self.interpret:
             output.byteswap(inplace=True)
         return output
 
     def read_doubles(self, n):
         output = np.ndarray(shape=(n,),dtype=self.double)
-        self.f.readinto(output)
+        if self.f.readinto(output) != output.nbytes:
+            raise ValueError('Truncated SDF file')
         if self.interpret:
             output.byteswap(inplace=True)
         return output
     
     def read_complex(self, n):
         output = np.ndarray(shape=(n,),dtype=self.cdouble)
-        self.f.readinto(output)
+        if self.f.readinto(output) != output.nbytes:
+            raise ValueError('Truncated SDF file')
         if self.interpret:
             output.byteswap(inplace=True)
         return output
-- 
2.43.0


From 46a03028b121c2d6a351c3a2e7211778a4e10268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:30 +0000
Subject: [PATCH 49/71] fix: the Python reader accepts files without records

---
 python/sdf.py | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/python/sdf.py b/python/sdf.py
index 24ed230..0ec049c 100644
--- a/python/sdf.py
+++ b/python/sdf.py
@@ -126,20 +126,19 @@ class SDF:
 
     def load_tag(self):
         name = self.f.read(64)
-        code = []
+        if self.f.tell() == 64 and name.startswith(b'sdf'):
+            if name[4] == ord('4'):
+                self.long_type = self.int32
+            elif name[4] == ord('8'):
+                self.long_type = self.int64
+            else:
+                raise ValueError('Unsupported tag size in SDF file');
+            if name[5] == ord('1'):
+                self.set_endian('little')
+            else:
+                self.set_endian('big')
+            name = self.f.read(64)
         if len(name):
-            if self.f.tell() == 64 and name[0] == 115 and name[1] == 100 and name[2] == 102:
-                if name[4] == ord('4'):
-                    self.long_type = self.int32
-                elif name[4] == ord('8'):
-                    self.long_type = self.int64
-                else:
-                    raise ValueError('Unsupported tag size in SDF file');
-                if name[5] == ord('1'):
-                    self.set_endian('little')
-                else:
-                    self.set_endian('big')
-                name = self.f.read(64)
             name, sep, rest = name.partition(b'\x00')
             name = str(name,'utf-8')
             code = self.read_longs(1)[0]
-- 
2.43.0


From e93f6ce775feef7e4e708b923f2137e000fb3bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:30 +0000
Subject: [PATCH 50/71] fix: the Python reader accepts tensors without
 dimensions

---
 python/sdf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/sdf.py b/python/sdf.py
index 0ec049c..2af28b4 100644
--- a/python/sdf.py
+++ b/python/sdf.py
@@ -98,6 +98,8 @@ class SDF:
             data = self.read_complex(L)
         else:
             data = self.read_doubles(L)
+        if rank == 0:
+            return data
         return np.ndarray(shape=dims,buffer=data,dtype=data.dtype,order='F')
 
     def read_longs(self, n):
-- 
2.43.0


From e2631fde247a0c51b6e4a23e8cf4d4c4a5667c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:25 +0000
Subject: [PATCH 51/71] fix: job files are read line by line, and not being
 able to read one is an error

---
 src/tools/jobs.cc | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/tools/jobs.cc b/src/tools/jobs.cc
index 72b86ff..324c9fd 100644
--- a/src/tools/jobs.cc
+++ b/src/tools/jobs.cc
@@ -89,15 +89,17 @@ Job::parse_line(const std::string &s)
 int
 Job::parse_file(std::istream &s, var_list &data)
 {
+  // Returns the number of the first line with a syntax error, or 0
   std::string buffer;
   int line;
-  for (line = 0; 1; line++) {
+  for (line = 1; std::getline(s, buffer); line++) {
+    if (split_string(buffer).size() == 0)
+      continue;
     const Variable v = parse_line(buffer);
     if (v.name().size() == 0)
       return line;
-    else
-      data.push_back(v);
-  } while(1);
+    data.push_back(v);
+  }
   return 0;
 }
 
@@ -120,6 +122,10 @@ Job::Job(int argc, const char **argv) :
       }
       filename_ = std::string(argv[i]);
       std::ifstream s(argv[i]);
+      if (!s || sdf::isdir(filename_)) {
+	std::cerr << "Cannot read job file " << filename_ << std::endl;
+	abort();
+      }
       int line = parse_file(s, variables_);
       if (line) {
 	std::cerr << "Syntax error in line " << line << " of job file " << filename_
-- 
2.43.0


From 6d9f9a375a259b97d1cb60becab918d92266893e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:25 +0000
Subject: [PATCH 52/71] fix: values of job variables must be numbers and their
 number of steps positive

---
 src/tools/jobs.cc | 39 ++++++++++++++++++++++++++++++++-------
 1 file changed, 32 insertions(+), 7 deletions(-)

diff --git a/src/tools/jobs.cc b/src/tools/jobs.cc
index 324c9fd..46eefce 100644
--- a/src/tools/jobs.cc
+++ b/src/tools/jobs.cc
@@ -25,7 +25,7 @@ using namespace jobs;
 static inline
 bool is_separator(char c)
 {
-  return (c == ' ') || (c == '\t') || (c == '\n') || (c == ',') || (c == ';');
+  return (c == ' ') || (c == '\t') || (c == '\n') || (c == '\r') || (c == ',') || (c == ';');
 }
 
 std::vector<std::string>
@@ -50,6 +50,22 @@ split_string(const std::string &s)
 
 const Job::Variable Job::no_variable;
 
+static bool
+parse_real(const std::string &s, double *value)
+{
+  char *end;
+  *value = strtod(s.c_str(), &end);
+  return *end == 0;
+}
+
+static bool
+parse_steps(const std::string &s, tensor::index *value)
+{
+  char *end;
+  *value = strtol(s.c_str(), &end, 10);
+  return *end == 0 && *value > 0;
+}
+
 const Job::Variable
 Job::parse_line(const std::string &s)
 {
@@ -59,28 +75,37 @@ Job::parse_line(const std::string &s)
   // where
   //  variable_name is any string
   //  min_value, max_value are real
-  //  n_steps is a non-negative integer, defaulting to 10
-  //  separator is any number of spaces, tabs, newlines, commas or semicolons
+  //  n_steps is a positive integer, defaulting to 10
+  //  separator is any number of spaces, tabs, line ends, commas or semicolons
   if (data.size() == 0)
     return no_variable;
   if (data.size() == 1) {
     std::cerr << "Missing minimum value for variable " << data[0] << std::endl;
     return no_variable;
   }
-  double max, min = atof(data[1].c_str());
+  double max, min;
   tensor::index nsteps;
+  if (!parse_real(data[1], &min)) {
+    std::cerr << "Minimum value of variable " << data[0] << " is not a number" << std::endl;
+    return no_variable;
+  }
   if (data.size() == 2) {
     max = min;
     nsteps = 1;
   } else {
-    max = atof(data[2].c_str());
+    if (!parse_real(data[2], &max)) {
+      std::cerr << "Maximum value of variable " << data[0] << " is not a number" << std::endl;
+      return no_variable;
+    }
     if (data.size() == 3) {
       nsteps = 10;
     } else if (data.size() > 4) {
       std::cerr << "Too many arguments for variable " << data[0] << std::endl;
       return no_variable;
-    } else {
-      nsteps = atoi(data[3].c_str());
+    } else if (!parse_steps(data[3], &nsteps)) {
+      std::cerr << "Number of steps of variable " << data[0] << " is not a positive integer"
+		<< std::endl;
+      return no_variable;
     }
   }
   return Variable(data[0], min, max, nsteps);
-- 
2.43.0


From 3d0ab458ec155a9ef2ce2e831809f6af96e61ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:25 +0000
Subject: [PATCH 53/71] fix: --job-blocks without --this-job runs the first
 block

---
 src/tools/jobs.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/jobs.cc b/src/tools/jobs.cc
index 46eefce..9b1b216 100644
--- a/src/tools/jobs.cc
+++ b/src/tools/jobs.cc
@@ -137,7 +137,7 @@ Job::Job(int argc, const char **argv) :
   bool job_blocks_found = false;
   bool this_job_found = false;
   tensor::index blocks;
-  tensor::index current_job;
+  tensor::index current_job = 0;
   int i;
   for (i = 0; i < argc; i++) {
     if (!strcmp(argv[i], "--job")) {
-- 
2.43.0


From 87907ced04dd22e500d79d19ed28debd26ab0997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:25 +0000
Subject: [PATCH 54/71] fix: --first-job without --last-job runs until the last
 job

---
 src/tools/jobs.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tools/jobs.cc b/src/tools/jobs.cc
index 9b1b216..08a3fac 100644
--- a/src/tools/jobs.cc
+++ b/src/tools/jobs.cc
@@ -277,6 +277,8 @@ Job::Job(int argc, const char **argv) :
         std::cerr << "--last-job is smaller than --first-job" << std::endl;
         abort();
       }
+    } else {
+      last_job_ = number_of_jobs_ - 1;
     }
     current_job = first_job_;
   } else if (this_job_found) {
-- 
2.43.0


From 4a08c0354eb823fb6a8ce0f270dfc66b5d4e71d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:25 +0000
Subject: [PATCH 55/71] fix: a negative --this-job is an error

---
 src/tools/jobs.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tools/jobs.cc b/src/tools/jobs.cc
index 08a3fac..25bbabb 100644
--- a/src/tools/jobs.cc
+++ b/src/tools/jobs.cc
@@ -165,6 +165,10 @@ Job::Job(int argc, const char **argv) :
 	abort();
       }
       current_job = atoi(argv[i]);
+      if (current_job < 0) {
+	std::cerr << "--this-job is negative" << std::endl;
+	abort();
+      }
       this_job_found = true;
     } else if (!strcmp(argv[i], "--job-blocks")) {
       if (++i == argc) {
-- 
2.43.0


From acaaeb2f7fb252d53c1b0ba7ec5f69beded4b9ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:25 +0000
Subject: [PATCH 56/71] fix: --first-job and --this-job are refused together in
 any order

---
 src/tools/jobs.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tools/jobs.cc b/src/tools/jobs.cc
index 25bbabb..8a56601 100644
--- a/src/tools/jobs.cc
+++ b/src/tools/jobs.cc
@@ -160,6 +160,10 @@ Job::Job(int argc, const char **argv) :
     } else if (!strcmp(argv[i], "--print-jobs")) { 
       print_jobs = true;
     } else if (!strcmp(argv[i], "--this-job")) {
+      if (first_job_found) {
+        std::cerr << "Cannot use --first-job and --this-job simultaneously." << std::endl;
+        abort();
+      }
       if (++i == argc) {
 	std::cerr << "Missing argument to --this-job" << std::endl;
 	abort();
-- 
2.43.0


From 9d80011e84fa6c0cbd29fea71c3cd9066cc6a122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:25 +0000
Subject: [PATCH 57/71] fix: copies of a shared_ptr share the reference count

---
 include/tensor/refcount.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/tensor/refcount.h b/include/tensor/refcount.h
index 8341d39..8b142f7 100644
--- a/include/tensor/refcount.h
+++ b/include/tensor/refcount.h
@@ -104,7 +104,13 @@ private:
   class shared_ptr {
   public:
     shared_ptr(T *t) : _value(t), _ref(new int(1)) {}
+    shared_ptr(const shared_ptr<T> &p) : _value(p._value), _ref(p._ref) { ++(*_ref); }
     ~shared_ptr() { --(*_ref); if (!(*_ref)) { delete _value; delete _ref; }}
+    shared_ptr<T> &operator=(shared_ptr<T> p) {
+      std::swap(_value, p._value);
+      std::swap(_ref, p._ref);
+      return *this;
+    }
     T* operator->() const { return _value; }
     T& operator*() const { return *_value; }
   private:
-- 
2.43.0


From eac56023773b8744af0773dde61d558c52a36c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:55 +0000
Subject: [PATCH 58/71] fix: random long integers below a limit are never
 negative

---
 include/tensor/rand.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tensor/rand.h b/include/tensor/rand.h
index 2d77084..e230b86 100644
--- a/include/tensor/rand.h
+++ b/include/tensor/rand.h
@@ -72,7 +72,7 @@ template<> inline int rand<int>(int lower, int upper) {
 
 template<> inline long rand<long>(long upper) {
   if (upper)
-    return (long)rand<unsigned long>() % upper;
+    return rand<unsigned long>() % upper;
   return 0;
 }
 
-- 
2.43.0


From 728d17a77a26e509d291541abe389a316bc8e417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:55 +0000
Subject: [PATCH 59/71] fix: random integers between two limits do not overflow
 when these are far apart

---
 include/tensor/rand.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/tensor/rand.h b/include/tensor/rand.h
index e230b86..f37c279 100644
--- a/include/tensor/rand.h
+++ b/include/tensor/rand.h
@@ -67,7 +67,10 @@ template<> inline int rand<int>(int upper) {
 }
 
 template<> inline int rand<int>(int lower, int upper) {
-  return rand<int>(upper - lower) + lower;
+  unsigned int range = (unsigned int)upper - (unsigned int)lower;
+  if (range)
+    return (int)((unsigned int)lower + rand<unsigned int>() % range);
+  return lower;
 }
 
 template<> inline long rand<long>(long upper) {
@@ -77,7 +80,10 @@ template<> inline long rand<long>(long upper) {
 }
 
 template<> inline long rand<long>(long lower, long upper) {
-  return rand<long>(upper - lower) + lower;
+  unsigned long range = (unsigned long)upper - (unsigned long)lower;
+  if (range)
+    return (long)((unsigned long)lower + rand<unsigned long>() % range);
+  return lower;
 }
 
 template<> inline unsigned long rand<unsigned long>(unsigned long upper) {
-- 
2.43.0


From e1797b895e926df607a8f7b2d60ca2e182d337c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:05 +0000
Subject: [PATCH 60/71] fix: random floats are always smaller than 1

---
 src/rand/rand.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/rand/rand.cc b/src/rand/rand.cc
index 49616fa..69428ae 100644
--- a/src/rand/rand.cc
+++ b/src/rand/rand.cc
@@ -17,7 +17,9 @@
     51 Franklin Street, Fifth Floor, Boston, MA 02110-1301 USA.
 */
 
+#include <algorithm>
 #include <cstdlib>
+#include <limits>
 #if defined(_MSC_VER) || defined(__MINGW32__)
 #include <windows.h>
 #include <Wincrypt.h>
@@ -113,7 +115,9 @@ template<> unsigned long rand<unsigned long>() { return genrand_int32(); }
 #endif
 
 template<> float rand<float>() {
-  return (float)genrand_res53();
+  // The conversion may round up to 1, which must not be reached
+  const float below_one = 1.0f - std::numeric_limits<float>::epsilon() / 2;
+  return std::min((float)genrand_res53(), below_one);
 }
 
 template<> double rand<double>() {
-- 
2.43.0


From da5b12bd18f331a130456ae50bbfb4594842fb23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:38 +0000
Subject: [PATCH 61/71] fix: the matrix form of empty tensors opens the
 brackets that it closes

---
 src/views/matrix_form.cc | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/views/matrix_form.cc b/src/views/matrix_form.cc
index 6e2bd0c..12bc1d1 100644
--- a/src/views/matrix_form.cc
+++ b/src/views/matrix_form.cc
@@ -31,10 +31,9 @@ namespace tensor {
     } else if (data.rank() == 2) {
       index rows = data.rows();
       index cols = data.columns();
+      s << "[";
       for (index i = 0; i < rows; i++) {
-	if (i == 0)
-	  s << "[";
-	else
+	if (i)
 	  s << "\n ";
 	for (index j = 0; j < cols; j++) {
 	  if (j) s << ", ";
@@ -43,11 +42,10 @@ namespace tensor {
       }
       s << "]";
     } else if (data.rank() == 1) {
+      s << "[";
       for (index i = 0; i < data.size(); i++) {
 	if (i)
 	  s << ", ";
-	else
-	  s << "[";
 	s << data[i];
       }
       s << "]";
-- 
2.43.0


From bc039c3961eec9d788119bf9721a732ec2bc9604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:02 +0000
Subject: [PATCH 62/71] fix: losing the temporary file before it is moved into
 place is reported

---
 src/sdf/data_file.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/sdf/data_file.cc b/src/sdf/data_file.cc
index 45bdf43..07a027d 100644
--- a/src/sdf/data_file.cc
+++ b/src/sdf/data_file.cc
@@ -142,8 +142,7 @@ DataFile::close()
       }
       break;
     case SDF_PARANOID:
-      if (file_exists(_actual_filename) &&
-          !rename_file(_actual_filename, _filename)) {
+      if (!rename_file(_actual_filename, _filename)) {
         std::cerr << "Cannot move file " << _actual_filename << " to "
                   << _filename << std::endl;
         abort();
-- 
2.43.0


From ccfeb5063a2268b3ef32d3137e7850c3eddebeb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:45 +0000
Subject: [PATCH 63/71] fix: a stale temporary file that cannot be deleted is
 reported instead of appended to

---
 src/sdf/data_file.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/sdf/data_file.cc b/src/sdf/data_file.cc
index 07a027d..ecb9996 100644
--- a/src/sdf/data_file.cc
+++ b/src/sdf/data_file.cc
@@ -117,7 +117,10 @@ DataFile::DataFile(const std::string &a_filename, int flags) :
     break;
   case SDF_PARANOID:
     _actual_filename = _actual_filename + ".tmp";
-    delete_file(_actual_filename);
+    if (file_exists(_actual_filename) && !delete_file(_actual_filename)) {
+      std::cerr << "Cannot overwrite file " << _actual_filename << std::endl;
+      abort();
+    }
     break;
   default:
     std::cerr << "Unrecognized DataFile mode " <<  flags << std::endl;
-- 
2.43.0


From 0c898b2b16554019aa1f9b615ab1a877d8f6083a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:32 +0000
Subject: [PATCH 64/71] fix: job numbers and blocks on the command line are not
 cut to 31 bits, nor misread

---
 src/tools/jobs.cc | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/tools/jobs.cc b/src/tools/jobs.cc
index 8a56601..dd4615f 100644
--- a/src/tools/jobs.cc
+++ b/src/tools/jobs.cc
@@ -17,6 +17,7 @@
     51 Franklin Street, Fifth Floor, Boston, MA 02110-1301 USA.
 */
 
+#include <cerrno>
 #include <tensor/jobs.h>
 #include <fstream>
 
@@ -66,6 +67,19 @@ parse_steps(const std::string &s, tensor::index *value)
   return *end == 0 && *value > 0;
 }
 
+static tensor::index
+parse_job_number(const char *option, const char *s)
+{
+  char *end;
+  errno = 0;
+  tensor::index value = strtol(s, &end, 10);
+  if (end == s || *end || errno) {
+    std::cerr << "The argument to " << option << " is not an integer: " << s << std::endl;
+    abort();
+  }
+  return value;
+}
+
 const Job::Variable
 Job::parse_line(const std::string &s)
 {
@@ -168,7 +182,7 @@ Job::Job(int argc, const char **argv) :
 	std::cerr << "Missing argument to --this-job" << std::endl;
 	abort();
       }
-      current_job = atoi(argv[i]);
+      current_job = parse_job_number("--this-job", argv[i]);
       if (current_job < 0) {
 	std::cerr << "--this-job is negative" << std::endl;
 	abort();
@@ -179,7 +193,7 @@ Job::Job(int argc, const char **argv) :
 	std::cerr << "Missing argument to --job-blocks" << std::endl;
 	abort();
       }
-      blocks = atoi(argv[i]);
+      blocks = parse_job_number("--job-blocks", argv[i]);
       job_blocks_found = true;
     } else if (!strcmp(argv[i], "--first-job")) {
       if (this_job_found) {
@@ -190,7 +204,7 @@ Job::Job(int argc, const char **argv) :
 	std::cerr << "Missing argument to --first-job" << std::endl;
 	abort();
       }
-      first_job_ = atoi(argv[i]);
+      first_job_ = parse_job_number("--first-job", argv[i]);
       first_job_found = true;
     } else if (!strcmp(argv[i], "--last-job")) {
       if (!first_job_found) {
@@ -201,7 +215,7 @@ Job::Job(int argc, const char **argv) :
 	std::cerr << "Missing argument to --last-job" << std::endl;
 	abort();
       }
-      last_job_ = atoi(argv[i]);
+      last_job_ = parse_job_number("--last-job", argv[i]);
       last_job_found = true;
     } else if (!strcmp(argv[i], "--variable")) {
       if (++i == argc) {
@@ -262,8 +276,8 @@ Job::Job(int argc, const char **argv) :
       std::cerr << "The number of job blocks cannot be zero or negative.";
       abort();
     }
-    tensor::index delta = (number_of_jobs_ + blocks - 1) / blocks;
-    first_job_ = current_job = std::min(current_job * delta, number_of_jobs_);
+    tensor::index delta = number_of_jobs_ / blocks + (number_of_jobs_ % blocks != 0);
+    first_job_ = current_job = std::min(std::min(current_job, blocks) * delta, number_of_jobs_);
     last_job_ = std::min(number_of_jobs_ - 1, first_job_ + delta - 1);
   } else if (first_job_found) {
     /*
-- 
2.43.0


From 720cb43272526addb79f0188ef9bcbf86a9b3e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:32 +0000
Subject: [PATCH 65/71] fix: records of jobs 2^32 apart in a scan do not share
 a name

---
 src/tools/jobs_dataset.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/jobs_dataset.cc b/src/tools/jobs_dataset.cc
index 1d2029e..4af1477 100644
--- a/src/tools/jobs_dataset.cc
+++ b/src/tools/jobs_dataset.cc
@@ -42,7 +42,7 @@ namespace jobs {
   }
 
   static std::string
-  dataset_name(const std::string &base, int jobid)
+  dataset_name(const std::string &base, tensor::index jobid)
   {
     return base + "/" + NumberToString(jobid);
   }
-- 
2.43.0


From 322e8e840bc5c4d1534bd4b3f752c4f33f2fb055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:25 +0000
Subject: [PATCH 66/71] fix: eigs() refuses unknown selection criteria also for
 small matrices

---
 src/arpack/arpack_t.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/arpack/arpack_t.cc b/src/arpack/arpack_t.cc
index cf4276d..9b33e43 100644
--- a/src/arpack/arpack_t.cc
+++ b/src/arpack/arpack_t.cc
@@ -328,6 +328,10 @@ ARPACK::sort_values(const CTensor &values, EigType t)
   case SmallestReal:
     aux = tensor::real(values);
     break;
+  default:
+    std::cerr << "Invalid argument EigType passed to ARPACK::sort_values"
+              << std::endl;
+    abort();
   }
   return sort_indices(aux);
 }
-- 
2.43.0


From 3329c5132ae1d0130478bec82250e9ef6e112060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:25 +0000
Subject: [PATCH 67/71] fix: isdir() takes sockets and block devices for
 directories no longer

---
 src/sdf/isdir.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sdf/isdir.cc b/src/sdf/isdir.cc
index b1b3b5e..9a1df82 100644
--- a/src/sdf/isdir.cc
+++ b/src/sdf/isdir.cc
@@ -28,7 +28,7 @@ namespace sdf {
     struct stat s[1];
     if (stat(filename.c_str(), s))
       return false;
-    return s->st_mode & S_IFDIR;
+    return (s->st_mode & S_IFMT) == S_IFDIR;
   }
 
 }
-- 
2.43.0


From e696ceb4e11412c65e8e55b260e320bd5c278f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:25 +0000
Subject: [PATCH 68/71] fix: reading a flag that does not exist is refused as
 changing it is

---
 src/tools/flags.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/tools/flags.cc b/src/tools/flags.cc
index df09757..dc30fbe 100644
--- a/src/tools/flags.cc
+++ b/src/tools/flags.cc
@@ -33,7 +33,11 @@ namespace tensor {
 
   double Flags::get(unsigned int code) const
   {
-    return _values[code];  
+    if (code >= _values.size()) {
+      std::cerr << "Invalid flag code " << code << " into Flags array\n";
+      abort();
+    }
+    return _values[code];
   }
 
   class Flags &Flags::set(unsigned int code, double value)
-- 
2.43.0


From 97bd02acb031db920dad47dcbe6ca97d2dace09c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:25 +0000
Subject: [PATCH 69/71] fix: define the generator xgen, which the header only
 declared

---
 src/indices/indices.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/indices/indices.cc b/src/indices/indices.cc
index 051ef69..82fe71d 100644
--- a/src/indices/indices.cc
+++ b/src/indices/indices.cc
@@ -27,6 +27,7 @@ namespace tensor {
   const ListGenerator<index> igen = {};
   const ListGenerator<double> rgen = {};
   const ListGenerator<cdouble> cgen = {};
+  FlexiListGenerator xgen;
 
   template class Vector<index>;
 
-- 
2.43.0


From 3bb2980f3ad00a464776f3345044d844d87b305b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:56 +0000
Subject: [PATCH 70/71] fix: steps of ranges so long that offsets overflowed
 selected wrong elements or wrote out of bounds

---
 src/views/range.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/views/range.cc b/src/views/range.cc
index 025ad3f..a79635e 100644
--- a/src/views/range.cc
+++ b/src/views/range.cc
@@ -194,6 +194,8 @@ namespace tensor {
     start_ = normalize_index(start_, limit);
     end_ = normalize_index(end_, limit);
     assert(step_ > 0);
+    // Longer steps select the same elements, but later arithmetic might overflow.
+    step_ = std::min(step_, std::max<index>(limit, 1));
     Range::set_limit(limit);
   }
 
-- 
2.43.0


From 5c81310d2b9d8d7a19b5906364e78258b1a37274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:18 +0000
Subject: [PATCH 71/71] fix: eigs() of functions and sparse matrices releases
 the map it was given

Like cgs() and eig_power(), do_eigs() owns the map it receives. It kept it, and
with it the matrix, for ever.
---
 src/arpack/eigs_map_d.cc | 2 ++
 src/arpack/eigs_map_z.cc | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/arpack/eigs_map_d.cc b/src/arpack/eigs_map_d.cc
index 5ff4b8e..40fa052 100644
--- a/src/arpack/eigs_map_d.cc
+++ b/src/arpack/eigs_map_d.cc
@@ -48,6 +48,7 @@ namespace linalg {
         v.at(i) = 1.0;
         M.at(range(),range(i)) = (*A)(v);
       }
+      delete A;
       CTensor vectors;
       CTensor values = eig(M, eigenvectors? &vectors : 0);
       Indices ndx = RArpack::sort_values(values, t);
@@ -70,6 +71,7 @@ namespace linalg {
     while (data.update() < RArpack::Finished) {
       data.set_y((*A)(data.get_x()));
     }
+    delete A;
     if (data.get_status() == RArpack::Finished) {
       if (converged)
         *converged = true;
diff --git a/src/arpack/eigs_map_z.cc b/src/arpack/eigs_map_z.cc
index d4e8cca..43564ca 100644
--- a/src/arpack/eigs_map_z.cc
+++ b/src/arpack/eigs_map_z.cc
@@ -47,6 +47,7 @@ namespace linalg {
         v.at(i) = 1.0;
         M.at(range(),range(i)) = (*A)(v);
       }
+      delete A;
       CTensor vectors;
       CTensor values = eig(M, eigenvectors? &vectors : 0);
       Indices ndx = CArpack::sort_values(values, t);
@@ -69,6 +70,7 @@ namespace linalg {
     while (data.update() < CArpack::Finished) {
       data.set_y((*A)(data.get_x()));
     }
+    delete A;
     if (data.get_status() == CArpack::Finished) {
       if (converged)
         *converged = true;
-- 
2.43.0

