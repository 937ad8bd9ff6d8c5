From 708d0f0eb0082abadbe3850942a0c8c41033eb79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:09 +0000
Subject: [PATCH 01/75] fix: Constant's compound assignments reset the memoized
 hash

---
 SeQuant/core/expressions/constant.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/SeQuant/core/expressions/constant.hpp b/SeQuant/core/expressions/constant.hpp
index 9ae67a9..3b16f56 100644
--- a/SeQuant/core/expressions/constant.hpp
+++ b/SeQuant/core/expressions/constant.hpp
@@ -83,6 +83,7 @@ class Constant : public Expr {
   virtual Expr &operator*=(const Expr &that) override {
     if (that.is<Constant>()) {
       value_ *= that.as<Constant>().value();
+      reset_hash_value();
     } else {
       throw Exception("Constant::operator*=(that): not valid for that");
     }
@@ -92,6 +93,7 @@ class Constant : public Expr {
   virtual Expr &operator+=(const Expr &that) override {
     if (that.is<Constant>()) {
       value_ += that.as<Constant>().value();
+      reset_hash_value();
     } else {
       throw Exception("Constant::operator+=(that): not valid for that");
     }
@@ -101,6 +103,7 @@ class Constant : public Expr {
   virtual Expr &operator-=(const Expr &that) override {
     if (that.is<Constant>()) {
       value_ -= that.as<Constant>().value();
+      reset_hash_value();
     } else {
       throw Exception("Constant::operator-=(that): not valid for that");
     }
-- 
2.43.0


From 3e7b61d1f56bdabdf51b43549979913550d55368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:09 +0000
Subject: [PATCH 02/75] fix: Variable::conjugate resets the memoized hash

---
 SeQuant/core/expressions/expr.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/SeQuant/core/expressions/expr.cpp b/SeQuant/core/expressions/expr.cpp
index a8ce238..17ee51a 100644
--- a/SeQuant/core/expressions/expr.cpp
+++ b/SeQuant/core/expressions/expr.cpp
@@ -201,7 +201,10 @@ void Variable::set_label(std::wstring label) {
   reset_hash_value();
 }
 
-void Variable::conjugate() { conjugated_ = !conjugated_; }
+void Variable::conjugate() {
+  conjugated_ = !conjugated_;
+  reset_hash_value();
+}
 
 bool Variable::conjugated() const { return conjugated_; }
 
-- 
2.43.0


From c7aee4a8737c68fd4e7f2be5326c4706dc57984f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:09 +0000
Subject: [PATCH 03/75] fix: Sum's moving ctor skipped the summand after an
 erased one

---
 SeQuant/core/expressions/sum.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/SeQuant/core/expressions/sum.hpp b/SeQuant/core/expressions/sum.hpp
index 4cfcda2..8e63d1c 100644
--- a/SeQuant/core/expressions/sum.hpp
+++ b/SeQuant/core/expressions/sum.hpp
@@ -96,7 +96,7 @@ class Sum : public Expr {
   explicit Sum(summands_type &&summands, move_only_tag)
       : summands_(std::move(summands)) {
     std::size_t pos = 0;
-    for (auto it = summands_.begin(); it != summands_.end(); ++it) {
+    for (auto it = summands_.begin(); it != summands_.end();) {
       auto &summand = *it;
       bool do_erase = false;
       if (summand->is_zero()) {
@@ -117,8 +117,10 @@ class Sum : public Expr {
         summands_.erase(it);
         it = summands_.begin();
         std::advance(it, pos);
-      } else
+      } else {
         ++pos;
+        ++it;
+      }
     }
   }
 
-- 
2.43.0


From a3dcfd5a8d479d7fba47e0292c9b79e0e9872459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:36 +0000
Subject: [PATCH 04/75] fix: Product::prepend keeps the order of a Product's
 factors and does not apply an unflattened Product's scalar twice

---
 SeQuant/core/expressions/product.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/SeQuant/core/expressions/product.hpp b/SeQuant/core/expressions/product.hpp
index 8d9e1a6..801ed90 100644
--- a/SeQuant/core/expressions/product.hpp
+++ b/SeQuant/core/expressions/product.hpp
@@ -14,6 +14,7 @@
 #include <range/v3/algorithm/equal.hpp>
 #include <range/v3/algorithm/for_each.hpp>
 #include <range/v3/view/filter.hpp>
+#include <range/v3/view/reverse.hpp>
 #include <range/v3/view/transform.hpp>
 
 #include <string>
@@ -235,11 +236,12 @@ class Product : public Expr {
         factors_.insert(factors_.begin(), factor->clone());
         reset_hash_value();
       }
-    } else {  // factor is a product also  ... flatten recursively
-      const auto &factor_product = factor->as<Product>();
-      scalar_ *= factor_product.scalar_;
+    } else {                             // factor is a product also ..
       if (flatten_tag != Flatten::No) {  // flatten, once or recursively
-        for (auto &&subfactor : factor_product)
+        const auto &factor_product = factor->as<Product>();
+        scalar_ *= factor_product.scalar_;
+        for (auto &&subfactor :
+             factor_product.factors_ | ranges::views::reverse)
           this->prepend(1, subfactor,
                         flatten_tag == Flatten::Once ? Flatten::No
                                                      : Flatten::Recursively);
-- 
2.43.0


From 1e6abe3e064838604b4ed8619a6851e85e6e99ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:22 +0000
Subject: [PATCH 05/75] fix: appending a Product or Sum to itself iterated over
 its own growing storage

---
 SeQuant/core/expressions/product.hpp | 2 ++
 SeQuant/core/expressions/sum.hpp     | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/SeQuant/core/expressions/product.hpp b/SeQuant/core/expressions/product.hpp
index 801ed90..226a861 100644
--- a/SeQuant/core/expressions/product.hpp
+++ b/SeQuant/core/expressions/product.hpp
@@ -153,6 +153,7 @@ class Product : public Expr {
   Product &append(T scalar, ExprPtr factor,
                   Flatten flatten_tag = Flatten::Yes) {
     SEQUANT_ASSERT(factor);
+    if (factor.get() == this) factor = factor->clone();
     scalar_ *= scalar;
     if (!factor->is<Product>()) {
       if (factor->is<Constant>()) {  // factor in Constant
@@ -226,6 +227,7 @@ class Product : public Expr {
   Product &prepend(T scalar, ExprPtr factor,
                    Flatten flatten_tag = Flatten::Yes) {
     SEQUANT_ASSERT(factor);
+    if (factor.get() == this) factor = factor->clone();
     scalar_ *= scalar;
     if (!factor->is<Product>()) {
       if (factor->is<Constant>()) {  // factor in Constant
diff --git a/SeQuant/core/expressions/sum.hpp b/SeQuant/core/expressions/sum.hpp
index 8e63d1c..8f11e09 100644
--- a/SeQuant/core/expressions/sum.hpp
+++ b/SeQuant/core/expressions/sum.hpp
@@ -128,6 +128,7 @@ class Sum : public Expr {
   /// @param summand the summand
   Sum &append(ExprPtr summand) {
     SEQUANT_ASSERT(summand);
+    if (summand.get() == this) summand = summand->clone();
     if (!summand->is<Sum>()) {
       if (!summand->is_zero()) {        // exclude zeros
         if (summand->is<Constant>()) {  // add up constants
@@ -156,6 +157,7 @@ class Sum : public Expr {
   /// @param summand the summand
   Sum &prepend(ExprPtr summand) {
     SEQUANT_ASSERT(summand);
+    if (summand.get() == this) summand = summand->clone();
     if (!summand->is<Sum>()) {
       if (!summand->is_zero()) {
         // exclude zeros
-- 
2.43.0


From a145415d9d4f673c33e99874558391cde44d85aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:45 +0000
Subject: [PATCH 06/75] fix: Sum::clone dropped zero summands, so a clone could
 differ from the original

---
 SeQuant/core/expressions/sum.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/SeQuant/core/expressions/sum.hpp b/SeQuant/core/expressions/sum.hpp
index 8f11e09..22d6804 100644
--- a/SeQuant/core/expressions/sum.hpp
+++ b/SeQuant/core/expressions/sum.hpp
@@ -255,11 +255,13 @@ class Sum : public Expr {
   };
 
   ExprPtr clone() const override {
-    auto cloned_summands =
-        summands() | ranges::views::transform(
-                         [](const ExprPtr &ptr) { return ptr->clone(); });
-    return ex<Sum>(ranges::begin(cloned_summands),
-                   ranges::end(cloned_summands));
+    // N.B. do not use append: it would drop zero summands
+    auto result = std::make_shared<Sum>();
+    result->summands_.reserve(summands_.size());
+    for (auto &&summand : summands_)
+      result->summands_.push_back(summand->clone());
+    result->constant_summand_idx_ = constant_summand_idx_;
+    return result;
   }
 
   /// @brief adjoint of a Sum is a sum of adjoints of its factors
-- 
2.43.0


From fd401ac043d5183c559c91f360bd887b7025dd9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:23 +0000
Subject: [PATCH 07/75] fix: NormalOperator::commutes_with checked contractions
 in one order only and ignored the sign of exchanging odd fermionic strings

---
 SeQuant/core/op.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/SeQuant/core/op.hpp b/SeQuant/core/op.hpp
index 5225429..ca4a2cf 100644
--- a/SeQuant/core/op.hpp
+++ b/SeQuant/core/op.hpp
@@ -822,9 +822,14 @@ class NormalOperator : public Operator<S>,
       const auto &op_that = that.as<NormalOperator<S>>();
       if (vacuum() ==
           op_that.vacuum()) {  // can only check commutativity for same vacua
+        // strings of odd numbers of fermionic operators anticommute
+        if (statistics == Statistics::FermiDirac && this->size() % 2 != 0 &&
+            op_that.size() % 2 != 0)
+          return false;
+        // the order matters if a contraction is possible in either order
         for (auto &&op_l : *this) {
           for (auto &&op_r : op_that) {
-            if (can_contract(op_l, op_r)) {
+            if (can_contract(op_l, op_r) || can_contract(op_r, op_l)) {
               return false;
             }
           }
-- 
2.43.0


From d38551947fe7e58b8bc497c6173f8ac8dd8e585d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:00 +0000
Subject: [PATCH 08/75] fix: canonicalization skipped the bra-ket reordering of
 tensors without column symmetry, so equal terms were not collected

---
 SeQuant/core/tensor_network/v3.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/SeQuant/core/tensor_network/v3.cpp b/SeQuant/core/tensor_network/v3.cpp
index b33fa16..ab7e8b6 100644
--- a/SeQuant/core/tensor_network/v3.cpp
+++ b/SeQuant/core/tensor_network/v3.cpp
@@ -370,10 +370,11 @@ ExprPtr TensorNetworkV3::canonicalize_graph(const NamedIndexSet &named_indices,
   for (std::size_t i = 0; i < tensors_.size(); ++i) {
     AbstractTensor &tensor = *tensors_[i];
 
-    if (column_symmetry(tensor) != ColumnSymmetry::Symm) continue;
+    const auto col_symm = column_symmetry(tensor) == ColumnSymmetry::Symm;
     const auto asymm = symmetry(tensor) == Symmetry::Nonsymm;
 
-    if (asymm) {  // asymmetric tensor? order column slots only
+    if (!col_symm) {  // columns cannot be reordered
+    } else if (asymm) {  // asymmetric tensor? order column slots only
 
       auto it = canonical_column_bundle_order.find(i);
       if (it == canonical_column_bundle_order.end()) continue;
-- 
2.43.0


From d66ee7ccc8f37ed84d4ac5f22a93b0da69e83dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:14 +0000
Subject: [PATCH 09/75] fix: HashingAccumulator merged unequal constants as if
 they were equal

---
 SeQuant/core/expressions/expr.cpp | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/SeQuant/core/expressions/expr.cpp b/SeQuant/core/expressions/expr.cpp
index 17ee51a..2e1323e 100644
--- a/SeQuant/core/expressions/expr.cpp
+++ b/SeQuant/core/expressions/expr.cpp
@@ -26,6 +26,7 @@
 #include <range/v3/view/reverse.hpp>
 #include <range/v3/view/transform.hpp>
 
+#include <algorithm>
 #include <thread>
 #include <vector>
 
@@ -498,6 +499,23 @@ HashingAccumulator &HashingAccumulator::append(ExprPtr summand, bool flatten) {
     return *this;
   }
 
+  // constants are summed up; N.B. their hash values depend on their values
+  // hence cannot find existing constant by hash
+  if (summand.is<Constant>()) {
+    if (summand->is_zero()) return *this;
+    auto it =
+        std::find_if(summands_.begin(), summands_.end(),
+                     [](const auto &s) { return s.template is<Constant>(); });
+    if (it != summands_.end()) {
+      auto total = ex<Constant>(it->template as<Constant>().value() +
+                                summand.as<Constant>().value());
+      summands_.erase(it);
+      summand = std::move(total);
+    }
+    summands_.emplace(std::move(summand));
+    return *this;
+  }
+
   // process summand as a whole
   auto it = summands_.find(summand);
   if (it == summands_.end()) {
@@ -586,9 +604,6 @@ bool proportional_to::operator()(const ExprPtr &expr1,
 
   // expr1 and expr2 are same type
 
-  if (expr1.is<Constant>()) {
-    return true;
-  }
   if (expr1.is<Product>()) {
     return expr1->hash_value() == expr2->hash_value() &&
            expr1.as<Product>().factors() == expr2.as<Product>().factors();
-- 
2.43.0


From ab4e30f9387654a02c2f2f77d10d3169b4d27ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:14 +0000
Subject: [PATCH 10/75] fix: WickTheorem returned an expression that is a lone
 normal operator as is, even if full contractions were requested

---
 SeQuant/core/wick.impl.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/SeQuant/core/wick.impl.hpp b/SeQuant/core/wick.impl.hpp
index 89042c6..28a08e9 100644
--- a/SeQuant/core/wick.impl.hpp
+++ b/SeQuant/core/wick.impl.hpp
@@ -736,6 +736,11 @@ ExprPtr WickTheorem<S>::compute(const bool count_only,
     if (Logger::instance().wick_harness)
       std::wcout << "WickTheorem<S>::compute: input (after expand) = "
                  << to_latex_align(expr_input_) << std::endl;
+    // lone normal operator = product with 1 factor
+    if (expr_input_->is<NormalOperator<S>>()) {
+      expr_input_ =
+          ex<Product>(1, ExprPtrList{expr_input_}, Product::Flatten::No);
+    }
     // if sum, canonicalize and apply to each summand ...
     if (expr_input_->is<Sum>()) {
       if (!skip_input_canonicalization) {
-- 
2.43.0


From d56f7135abe544b94729e6f26a2dd3dc319acd0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:14 +0000
Subject: [PATCH 11/75] fix: WickTheorem used index topology that is only valid
 if other indices are permuted at the same time

---
 SeQuant/core/wick.impl.hpp | 33 ++++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/SeQuant/core/wick.impl.hpp b/SeQuant/core/wick.impl.hpp
index 28a08e9..671397a 100644
--- a/SeQuant/core/wick.impl.hpp
+++ b/SeQuant/core/wick.impl.hpp
@@ -965,9 +965,9 @@ ExprPtr WickTheorem<S>::compute(const bool count_only,
           // @param nontrivial_partitions_only if true, only partitions with
           // more than one element, are reported, else even trivial
           // partitions with a single partition will be reported
-          // @param vertex_pair_exclude a callable that accepts 2 vertex
-          // indices and returns true if the automorphism of this pair
-          // of indices is to be ignored; this is used to disregard
+          // @param vertex_pair_exclude a callable that accepts an automorphism
+          // and 2 vertex indices and returns true if the automorphism of this
+          // pair of indices is to be ignored; this is used to disregard
           // automorphisms of Index objects unless connected to same bra/ket
           // of an (anti)symmetric NormalOperator.
           // @return the \c {vertex_to_partition_idx,npartitions} pair in
@@ -1001,9 +1001,10 @@ ExprPtr WickTheorem<S>::compute(const bool count_only,
                 const auto v2 = aut[v1];
                 if (v2 != v1 &&
                     !vertex_pair_exclude(
-                        v1, v2)) {  // if the automorphism maps this vertex to
-                                    // another ... they both must be in the same
-                                    // partition
+                        aut, v1,
+                        v2)) {  // if the automorphism maps this vertex to
+                                // another ... they both must be in the same
+                                // partition
                   SEQUANT_ASSERT(vertices.find(v2) != vertices.end());
                   auto v1_partition_it = vertex_to_partition_idx.find(v1);
                   auto v2_partition_it = vertex_to_partition_idx.find(v2);
@@ -1062,7 +1063,9 @@ ExprPtr WickTheorem<S>::compute(const bool count_only,
           // compute NormalOperator->partition map, convert to partition lists
           // (if any), and register via set_nop_partitions to be used in full
           // contractions
-          auto do_not_skip_elements = [](size_t, size_t) { return false; };
+          auto do_not_skip_elements = [](const auto &, size_t, size_t) {
+            return false;
+          };
           auto [nop_vidx2pidx, nop_npartitions] = compute_partitions(
               nop_vidx_ord, /* nontrivial_partitions_only = */ true,
               do_not_skip_elements);
@@ -1149,8 +1152,20 @@ ExprPtr WickTheorem<S>::compute(const bool count_only,
           // objects attached to the bra/ket of any NormalOperator! hence
           // need to use filter in computing partitions
           auto exclude_index_vertex_pair = [&tn_tensors,
-                                            &idx_vertex_to_edge_ptr](
-                                               size_t v1, size_t v2) {
+                                            &idx_vertex_to_edge_ptr,
+                                            &index_vidx_ord](
+                                               const auto &aut, size_t v1,
+                                               size_t v2) {
+            // partitions are used independently of each other, hence only
+            // include indices that can be swapped keeping the other indices
+            // fixed; e.g., p_1 and p_2 in nonantisymmetric g^{p_1 p_2}_{p_3
+            // p_4} can only be swapped together with p_3 and p_4
+            if (ranges::any_of(index_vidx_ord, [&](const auto &vidx_ord) {
+                  const auto v = vidx_ord.first;
+                  return v != v1 && v != v2 && aut[v] != v;
+                }))
+              return true;
+
             const auto *edge1_ptr = idx_vertex_to_edge_ptr(v1);
             const auto *edge2_ptr = idx_vertex_to_edge_ptr(v2);
             if (!edge1_ptr || !edge2_ptr) return true;
-- 
2.43.0


From 7d818a7ec109c88456cacfeb03314a1c203751cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:14 +0000
Subject: [PATCH 12/75] fix: WickTheorem renamed external indices that appear
 more than once

---
 SeQuant/core/wick.hpp      | 18 +++++++++++++++---
 SeQuant/core/wick.impl.hpp |  8 +++++---
 2 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/SeQuant/core/wick.hpp b/SeQuant/core/wick.hpp
index cb4ab42..16868e1 100644
--- a/SeQuant/core/wick.hpp
+++ b/SeQuant/core/wick.hpp
@@ -637,6 +637,16 @@ class WickTheorem {
   /// @throw Exception if any of @p expr subexpressions is a Sum
   void extract_indices(const Expr &expr, bool force_external = false) const;
 
+  /// @return options to be used for canonicalizing (parts of) the result;
+  /// external indices cannot be deduced from the terms of the result since
+  /// there an external index may appear more than once (e.g., if it appears
+  /// more than once in the input)
+  CanonicalizeOptions canonicalize_options() const {
+    auto result = CanonicalizeOptions::default_options();
+    if (external_indices_) result.named_indices = *external_indices_;
+    return result;
+  }
+
   /// upsizes `{nop,index}_topological_partition_`, filling new entries with
   /// zeroes noop if current size > new_size
   /// @param new_size the number of items in
@@ -1215,7 +1225,7 @@ class WickTheorem {
         if (phase != 1) summand *= ex<Constant>(phase);
         if (prefactor_) {
           summand *= prefactor_;
-          auto bp = summand->canonicalize();
+          auto bp = summand->canonicalize(canonicalize_options());
           summand *= bp;
         }
         if (!summand.template is<Product>()) {
@@ -1551,7 +1561,8 @@ class WickTheorem {
                         prefactor.template as<Product>().scale(
                             std::move(scalar_prefactor));
                         this->reduce(prefactor);
-                        auto bp = prefactor->canonicalize();
+                        auto bp =
+                            prefactor->canonicalize(canonicalize_options());
                         prefactor *= bp;
 
                         result.second->lock();
@@ -1589,7 +1600,8 @@ class WickTheorem {
                         if (!op->empty()) summand *= std::move(op);
                         if (state.sp_initial_size > 0) {
                           this->reduce(summand);
-                          auto bp = summand->canonicalize();
+                          auto bp =
+                              summand->canonicalize(canonicalize_options());
                           summand *= bp;
                         }
                         if (!summand.template is<Product>()) {
diff --git a/SeQuant/core/wick.impl.hpp b/SeQuant/core/wick.impl.hpp
index 671397a..8ebb224 100644
--- a/SeQuant/core/wick.impl.hpp
+++ b/SeQuant/core/wick.impl.hpp
@@ -1274,8 +1274,10 @@ ExprPtr WickTheorem<S>::compute(const bool count_only,
             // rapid_simplify(result);
             // canonicalize(result);
             rapid_simplify(
-                result);  // rapid_simplify again since canonization may produce
-                          // new opportunities (e.g. terms cancel, etc.)
+                result, canonicalize_options());  // rapid_simplify again since
+                                                  // canonization may produce
+                                                  // new opportunities (e.g.
+                                                  // terms cancel, etc.)
           } else
             result = ex<Constant>(0);
           return result;
@@ -1298,7 +1300,7 @@ ExprPtr WickTheorem<S>::compute(const bool count_only,
       this->reduce(result);
       // N.B. DO NOT CANONICALIZE to preserve index pairings if doing partial
       // contraction
-      rapid_simplify(result);
+      rapid_simplify(result, canonicalize_options());
     } else
       result = ex<Constant>(0);
     return result;
-- 
2.43.0


From db2e2d225c4b61113fc0c1a7159e49b1f89eae30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:59 +0000
Subject: [PATCH 13/75] fix: canonicalizing a product of scalars or non-tensors
 kept the hash value of the old order of its factors

---
 SeQuant/core/expressions/expr.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/SeQuant/core/expressions/expr.cpp b/SeQuant/core/expressions/expr.cpp
index 2e1323e..1b1492c 100644
--- a/SeQuant/core/expressions/expr.cpp
+++ b/SeQuant/core/expressions/expr.cpp
@@ -266,6 +266,7 @@ ExprPtr Product::canonicalize_impl(CanonicalizeOptions opts) {
   // if there are no factors, insert scalars back and return
   if (factors_.empty()) {
     factors_.insert(factors_.begin(), scalars.begin(), scalars.end());
+    this->reset_hash_value();
     return {};
   }
 
@@ -369,6 +370,7 @@ ExprPtr Product::canonicalize_impl(CanonicalizeOptions opts) {
   }
   // reinsert scalar factors at the front
   factors_.insert(factors_.begin(), scalars.begin(), scalars.end());
+  this->reset_hash_value();
 
   // TODO evaluate product of Tensors (turn this into Products of Products)
 
-- 
2.43.0


From aa5e92e4f990ff2e7f6558b3994059b1f73afb49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:13 +0000
Subject: [PATCH 14/75] fix: lone tensors with summation indices were not
 recognized as equal in sums

---
 SeQuant/core/expressions/expr.cpp | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/SeQuant/core/expressions/expr.cpp b/SeQuant/core/expressions/expr.cpp
index 1b1492c..4222e72 100644
--- a/SeQuant/core/expressions/expr.cpp
+++ b/SeQuant/core/expressions/expr.cpp
@@ -17,6 +17,7 @@
 #include <SeQuant/core/utility/macros.hpp>
 
 #include <range/v3/algorithm/any_of.hpp>
+#include <range/v3/algorithm/contains.hpp>
 #include <range/v3/algorithm/find_if.hpp>
 #include <range/v3/algorithm/for_each.hpp>
 #include <range/v3/algorithm/sort.hpp>
@@ -454,6 +455,26 @@ ExprPtr Sum::canonicalize_impl(bool multipass, CanonicalizeOptions opts) {
     // recursively canonicalize summands ...
     // using for_each and direct access to summands
     sequant::for_each(summands_, [pass, &opts_copy, &rapid](ExprPtr &summand) {
+      // summation indices are only renamed in products, hence a lone tensor
+      // with contracted slots (trace) is treated as a product with 1 factor
+      if (auto tensor = std::dynamic_pointer_cast<AbstractTensor>(
+              summand.as_shared_ptr())) {
+        if (ranges::any_of(tensor->_bra(), [&tensor](const auto &idx) {
+              return idx.nonnull() && ranges::contains(tensor->_ket(), idx);
+            })) {
+          auto product =
+              ex<Product>(1, ExprPtrList{summand}, Product::Flatten::No);
+          if (rapid) {
+            product->rapid_canonicalize(opts_copy);
+          } else {
+            product->canonicalize(opts_copy);
+          }
+          const auto &result = product->as<Product>();
+          summand = result.scalar() == 1 ? result.factor(0) : product;
+          return;
+        }
+      }
+
       ExprPtr bp;
       if (rapid) {
         bp = summand->rapid_canonicalize(opts_copy);
-- 
2.43.0


From 90be9700f977b0875014c95a416ca7d31ea8eb42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:00 +0000
Subject: [PATCH 15/75] fix: Tensor::set_bra and set_ket left the net ranks of
 the old slots

---
 SeQuant/core/expressions/tensor.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/SeQuant/core/expressions/tensor.hpp b/SeQuant/core/expressions/tensor.hpp
index 07b3b7d..5f1b94d 100644
--- a/SeQuant/core/expressions/tensor.hpp
+++ b/SeQuant/core/expressions/tensor.hpp
@@ -552,12 +552,16 @@ class Tensor : public Expr, public AbstractTensor, public MutatableLabeled {
   const auto &bra() const { return bra_; }
   void set_bra(index_container_type indices) {
     bra_ = sequant::bra(std::move(indices));
+    bra_net_rank_ =
+        ranges::count_if(bra_, [](const auto &idx) { return idx.nonnull(); });
     reset_hash_value();
   }
   /// @return the ket slot range (empty slots are occupied by null indices)
   const auto &ket() const { return ket_; }
   void set_ket(index_container_type indices) {
     ket_ = sequant::ket(std::move(indices));
+    ket_net_rank_ =
+        ranges::count_if(ket_, [](const auto &idx) { return idx.nonnull(); });
     reset_hash_value();
   }
   /// @return the aux slot range (empty slots are occupied by null indices)
-- 
2.43.0


From 95960dea91d66a80475e5ea7235eee12371df39f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:45 +0000
Subject: [PATCH 16/75] fix: IndexSpaceRegistry: specifying spaces per quantum
 number always failed an assertion

---
 SeQuant/core/index_space_registry.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/SeQuant/core/index_space_registry.hpp b/SeQuant/core/index_space_registry.hpp
index a55593e..cbc8694 100644
--- a/SeQuant/core/index_space_registry.hpp
+++ b/SeQuant/core/index_space_registry.hpp
@@ -1428,8 +1428,9 @@ class IndexSpaceRegistry {
     for (auto&& space : *spaces_) {
       for (auto&& [qn, t] : qn2type) {
         if (space.type() == t && space.qns() == qn) {
-          [[maybe_unused]] auto [it, found] = qn2type_found.try_emplace(qn, t);
-          SEQUANT_ASSERT(!found);
+          [[maybe_unused]] auto [it, inserted] =
+              qn2type_found.try_emplace(qn, t);
+          SEQUANT_ASSERT(inserted);
           // found all? return
           if (qn2type_found.size() == qn2type.size()) {
             return;
-- 
2.43.0


From a08a18c5342e3a998d440e1bd49117795a81f51d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:45 +0000
Subject: [PATCH 17/75] fix: IndexSpaceRegistry::is_pure_occupied compared bit
 patterns as numbers

---
 SeQuant/core/index_space_registry.hpp | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/SeQuant/core/index_space_registry.hpp b/SeQuant/core/index_space_registry.hpp
index cbc8694..35d422b 100644
--- a/SeQuant/core/index_space_registry.hpp
+++ b/SeQuant/core/index_space_registry.hpp
@@ -904,13 +904,7 @@ class IndexSpaceRegistry {
     if (!IS) {
       return false;
     }
-    // this introduces icky dependence on bit footprint of vacuum_occupied_space
-    if (IS.type().to_int32() <=
-        vacuum_occupied_space(IS.qns()).type().to_int32()) {
-      return true;
-    } else {
-      return false;
-    }
+    return vacuum_occupied_space(IS.qns()).type().includes(IS.type());
   }
 
   /// @brief equivalent to `is_pure_occupied(retrieve(space_key))`
-- 
2.43.0


From e299b1974c24718cb5f28f0f5cdf5c1b09cc5cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:45 +0000
Subject: [PATCH 18/75] fix: IndexSpaceRegistry: assignment and change of the
 particle attribute mask kept the memoized base spaces

---
 SeQuant/core/index_space_registry.cpp | 1 +
 SeQuant/core/index_space_registry.hpp | 4 ++--
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/SeQuant/core/index_space_registry.cpp b/SeQuant/core/index_space_registry.cpp
index 8cac06b..8f5b6c6 100644
--- a/SeQuant/core/index_space_registry.cpp
+++ b/SeQuant/core/index_space_registry.cpp
@@ -8,6 +8,7 @@ namespace sequant {
 
 void IndexSpaceRegistry::physical_particle_attribute_mask(bitset_t m) {
   physical_particle_attribute_mask_ = m;
+  clear_memoized_data_and_return_this();
 }
 
 bitset_t IndexSpaceRegistry::physical_particle_attribute_mask() const {
diff --git a/SeQuant/core/index_space_registry.hpp b/SeQuant/core/index_space_registry.hpp
index 35d422b..d2978c8 100644
--- a/SeQuant/core/index_space_registry.hpp
+++ b/SeQuant/core/index_space_registry.hpp
@@ -135,7 +135,7 @@ class IndexSpaceRegistry {
     complete_ = other.complete_;
     hole_space_ = other.hole_space_;
     particle_space_ = other.particle_space_;
-    return *this;
+    return clear_memoized_data_and_return_this();
   }
 
   /// move assignment operator
@@ -148,7 +148,7 @@ class IndexSpaceRegistry {
     complete_ = std::move(other.complete_);
     hole_space_ = std::move(other.hole_space_);
     particle_space_ = std::move(other.particle_space_);
-    return *this;
+    return clear_memoized_data_and_return_this();
   }
 
   /// deep copy of this object, creates a copy of its spaces
-- 
2.43.0


From d6babd89dd021f48adcb2203e9e06f87022cd1e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:45 +0000
Subject: [PATCH 19/75] fix: IndexSpaceRegistry::replace lost the old space if
 the new one could not be added

---
 SeQuant/core/index_space_registry.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/SeQuant/core/index_space_registry.hpp b/SeQuant/core/index_space_registry.hpp
index d2978c8..d8019d2 100644
--- a/SeQuant/core/index_space_registry.hpp
+++ b/SeQuant/core/index_space_registry.hpp
@@ -554,8 +554,16 @@ class IndexSpaceRegistry {
   /// @param IS an IndexSpace
   /// @return reference to `this`
   IndexSpaceRegistry& replace(const IndexSpace& IS) {
-    this->remove(IS);
-    return this->add(IS);
+    const auto* old_ptr = this->retrieve_ptr(IS.base_key());
+    if (!old_ptr) return this->add(IS);
+    const IndexSpace old = *old_ptr;
+    this->remove(old);
+    try {
+      return this->add(IS);
+    } catch (...) {
+      this->add(old);
+      throw;
+    }
   }
 
   /// @brief clear the contents of *this
-- 
2.43.0


From c621d14e7f4d5c4c20074094f1ec10bd0696c45a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:45 +0000
Subject: [PATCH 20/75] fix: IndexSpaceRegistry::intersection ignored the
 quantum numbers of the second space

---
 SeQuant/core/index_space_registry.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SeQuant/core/index_space_registry.hpp b/SeQuant/core/index_space_registry.hpp
index d8019d2..de919f5 100644
--- a/SeQuant/core/index_space_registry.hpp
+++ b/SeQuant/core/index_space_registry.hpp
@@ -628,7 +628,7 @@ class IndexSpaceRegistry {
       // check the registry
       auto intersection_type = space1.type().intersection(space2.type());
       const IndexSpace& intersection_space =
-          find_by_attr({intersection_type, space1.qns()});
+          find_by_attr({intersection_type, target_qns});
       // the nullspace is a reasonable return value for intersection
       if (intersection_space == IndexSpace::null && intersection_type) {
         throw Exception(
-- 
2.43.0


From 30fcb8d6c4ef58d48e9beb7173d7a39d07eaa254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:45 +0000
Subject: [PATCH 21/75] fix: IndexSpaceRegistry::add_intersection made every
 intersection complex

---
 SeQuant/core/index_space_registry.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/SeQuant/core/index_space_registry.hpp b/SeQuant/core/index_space_registry.hpp
index de919f5..224885c 100644
--- a/SeQuant/core/index_space_registry.hpp
+++ b/SeQuant/core/index_space_registry.hpp
@@ -508,9 +508,10 @@ class IndexSpaceRegistry {
       ++count;
     }
     const auto approximate_size = compute_approximate_size(space_attr);
+    const Field field = compute_field(space_attr);
 
     IndexSpace space(std::forward<S>(type_label), space_attr.type(),
-                     space_attr.qns(), approximate_size);
+                     space_attr.qns(), approximate_size, field);
     this->add(space);
     auto type = space.type();
 
-- 
2.43.0


From 68ad363887f9ed2abc98606bf13f92c399cacc60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:48 +0000
Subject: [PATCH 22/75] fix: IndexSpaceRegistry::base_space_types could contain
 a type more than once

---
 SeQuant/core/index_space_registry.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/SeQuant/core/index_space_registry.hpp b/SeQuant/core/index_space_registry.hpp
index 224885c..5ecd07c 100644
--- a/SeQuant/core/index_space_registry.hpp
+++ b/SeQuant/core/index_space_registry.hpp
@@ -839,8 +839,9 @@ class IndexSpaceRegistry {
       auto types = *spaces_ | ranges::views::transform([](const auto& s) {
         return s.type();
       }) | ranges::views::filter([](const auto& t) { return is_base(t); }) |
-                   ranges::views::unique | ranges::to_vector;
+                   ranges::to_vector;
       ranges::sort(types, [](auto t1, auto t2) { return t1 < t2; });
+      types.erase(std::unique(types.begin(), types.end()), types.end());
       std::scoped_lock guard{mtx_memoized_};
       if (!base_space_types_) {
         base_space_types_ =
-- 
2.43.0


From ba2002fa85f4b63089a9b3ea0c275e25231221e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:57 +0000
Subject: [PATCH 23/75] fix: evaluating a range of terms must not add into a
 buffer held by the cache or the leaf evaluator

---
 SeQuant/core/eval/eval.hpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/SeQuant/core/eval/eval.hpp b/SeQuant/core/eval/eval.hpp
index 96e3ffb..b68ac25 100644
--- a/SeQuant/core/eval/eval.hpp
+++ b/SeQuant/core/eval/eval.hpp
@@ -866,8 +866,20 @@ ResultPtr evaluate(Nodes const& nodes,  //
     }
 
     ResultPtr pre = evaluate<EvalTrace>(n, layout, le, cache);
-    auto time =
-        detail::timed_eval_inplace([&]() { result->add_inplace(*pre); });
+    auto time = detail::timed_eval_inplace([&]() {
+      // the result of the first term may be held by someone else (the cache or
+      // whoever provides the leaf data), only modify what is ours
+      if (result.use_count() > 1) {
+        std::array<std::any, 3> ann;
+        if (layout_is_default)
+          ann.fill(n->annot());
+        else
+          ann.fill(layout);
+        result = result->sum(*pre, ann);
+      } else {
+        result->add_inplace(*pre);
+      }
+    });
 
     // logging
     if constexpr (detail::trace(EvalTrace)) {
-- 
2.43.0


From 714313e67bb0a695d39f6666727ac03261c7ac34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:04 +0000
Subject: [PATCH 24/75] fix: products with a sum factor are equal only if they
 attach to the same modes of the sum

---
 SeQuant/core/eval/eval_expr.cpp | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/SeQuant/core/eval/eval_expr.cpp b/SeQuant/core/eval/eval_expr.cpp
index bf77ec1..22a674b 100644
--- a/SeQuant/core/eval/eval_expr.cpp
+++ b/SeQuant/core/eval/eval_expr.cpp
@@ -367,14 +367,40 @@ void collect_tensor_factors(EvalExprNode const& node,  //
 
   if (auto op = node->op_type();
       node->is_tensor() &&
-      (!op || *op == EvalOp::Sum || *op == EvalOp::Adjoint))
+      (!op || *op == EvalOp::Sum || *op == EvalOp::Adjoint)) {
+    // The slots of a Sum node's tensor are ordered by label, whereas its data
+    // is ordered by canon_indices(): make the correspondence between the two
+    // part of the network so that only those networks which attach to the same
+    // modes of the sum are considered equal.
+    if (op == EvalOp::Sum) {
+      auto const& canon = node->canon_indices();
+      auto position = [&canon](Index const& ix) {
+        return std::ranges::find(canon, ix) - canon.begin();
+      };
+      Tensor const& t = node->as_tensor();
+      Index::index_vector b(t.bra().begin(), t.bra().end());
+      Index::index_vector k(t.ket().begin(), t.ket().end());
+      Index::index_vector a(t.aux().begin(), t.aux().end());
+      std::wstring label(t.label());
+      for (auto* group : {&b, &k, &a}) {
+        std::ranges::sort(*group, std::less<>{}, position);
+        for (auto const& ix : *group)
+          label += L"_" + std::to_wstring(position(ix));
+      }
+      collect.emplace_back(ExprWithHash{
+          .expr = ex<Tensor>(label, bra(std::move(b)), ket(std::move(k)),
+                             aux(std::move(a)), t.symmetry(),
+                             t.braket_symmetry(), t.column_symmetry()),
+          .hash = node->hash_value()});
+      return;
+    }
     // Treat Adjoint the same as Sum here: it produces a tensor result that
     // enters a parent Product as a single factor — the parent shouldn't
     // try to recurse past the Adjoint boundary, just collect the adjointed
     // tensor (held in node->expr()) and move on.
     collect.emplace_back(
         ExprWithHash{.expr = node->expr(), .hash = node->hash_value()});
-  else if (node->op_type() == EvalOp::Product && !node.leaf()) {
+  } else if (node->op_type() == EvalOp::Product && !node.leaf()) {
     collect_tensor_factors(node.left(), collect);
     collect_tensor_factors(node.right(), collect);
   }
-- 
2.43.0


From 0e1f96be6b75e4980ff8698d9483da019a15925a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:04 +0000
Subject: [PATCH 25/75] fix: sums of evaluation nodes are equal only if the
 summands enter with the same phases and mode order

---
 SeQuant/core/eval/eval_node_compare.hpp | 44 +++++++++++++++++++++++++
 1 file changed, 44 insertions(+)

diff --git a/SeQuant/core/eval/eval_node_compare.hpp b/SeQuant/core/eval/eval_node_compare.hpp
index 5ac2ae8..bdbee93 100644
--- a/SeQuant/core/eval/eval_node_compare.hpp
+++ b/SeQuant/core/eval/eval_node_compare.hpp
@@ -6,8 +6,11 @@
 #include <SeQuant/core/utility/tensor.hpp>
 #include <SeQuant/external/bliss/graph.hh>
 
+#include <algorithm>
 #include <cstddef>
+#include <limits>
 #include <unordered_map>
+#include <vector>
 
 namespace sequant {
 
@@ -110,6 +113,26 @@ struct TreeNodeEqualityComparator {
     }
 
     if (!lhs.leaf()) {
+      // What a node represents (up to its canonical phase and in its canonical
+      // index order) also depends on how the operands enter it: on the order of
+      // the summands' modes relative to each other and on the phases of those
+      // operands that are not part of the tensor network compared above.
+      if (lhs->is_sum()) {
+        if (lhs.left()->canon_phase() != rhs.left()->canon_phase() ||
+            lhs.right()->canon_phase() != rhs.right()->canon_phase() ||
+            !same_index_pattern(lhs, rhs)) {
+          return false;
+        }
+      } else if (lhs->is_product()) {
+        auto const phase_of_scalars = [](const TreeNode &n) {
+          return (n.left()->is_scalar() ? n.left()->canon_phase() : 1) *
+                 (n.right()->is_scalar() ? n.right()->canon_phase() : 1);
+        };
+        if (phase_of_scalars(lhs) != phase_of_scalars(rhs)) {
+          return false;
+        }
+      }
+
       // Note: We're assuming that the assignment of a subtree into left and
       // right is made consistently (canonical) and hence we don't compare
       // left with right
@@ -125,6 +148,27 @@ struct TreeNodeEqualityComparator {
   }
 
  private:
+  /// @return whether the canonical indices of @p lhs and its operands coincide
+  /// in the same positions as the ones of @p rhs and its operands
+  static bool same_index_pattern(const TreeNode &lhs, const TreeNode &rhs) {
+    auto pattern = [](const TreeNode &n) {
+      Index::index_vector seen;
+      std::vector<std::size_t> result;
+      for (auto const *indices :
+           {&n->canon_indices(), &n.left()->canon_indices(),
+            &n.right()->canon_indices()}) {
+        for (auto const &ix : *indices) {
+          auto it = std::find(seen.begin(), seen.end(), ix);
+          result.push_back(it - seen.begin());
+          if (it == seen.end()) seen.push_back(ix);
+        }
+        result.push_back(std::numeric_limits<std::size_t>::max());
+      }
+      return result;
+    };
+    return pattern(lhs) == pattern(rhs);
+  }
+
   IndexSpecificTensorBlockEqualComparator block_comparator_;
 };
 
-- 
2.43.0


From cf99dea09c783b5894eae21397e9ae625ce01795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:04 +0000
Subject: [PATCH 26/75] fix: keep the sign of antisymmetric leaves reordered by
 block canonicalization

---
 SeQuant/core/eval/eval_expr.cpp | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/SeQuant/core/eval/eval_expr.cpp b/SeQuant/core/eval/eval_expr.cpp
index 22a674b..1567938 100644
--- a/SeQuant/core/eval/eval_expr.cpp
+++ b/SeQuant/core/eval/eval_expr.cpp
@@ -412,7 +412,10 @@ EvalExprNode binarize(Variable const& v) { return EvalExprNode{EvalExpr{v}}; }
 
 EvalExprNode binarize(Power const& p) { return EvalExprNode{EvalExpr{p}}; }
 
-EvalExprNode binarize(Tensor const& t) {
+EvalExprNode binarize(Product const& prod, IndexSet const& uncontract,
+                      const BinarizationOptions& opts);
+
+EvalExprNode binarize(Tensor const& t, const BinarizationOptions& opts) {
   // Detect adjoint-marked tensor leaves (label ending in U+207A '⁺'). These
   // arise when the user wrote an adjoint of a BraKetSymmetry::Nonsymm tensor,
   // see Tensor::adjoint() in expressions/tensor.cpp. We surface the adjoint
@@ -434,6 +437,14 @@ EvalExprNode binarize(Tensor const& t) {
     SEQUANT_ASSERT(bare.label().empty() ||
                    bare.label().back() != adjoint_label);
     EvalExprNode bare_leaf{EvalExpr{bare}};
+    if (bare_leaf->canon_phase() != 1 && !bare_leaf->has_connectivity_graph()) {
+      // see the non-adjoint case below
+      Tensor canon{bare_leaf->as_tensor()};
+      canon.adjoint();
+      Product signed_adjoint;
+      signed_adjoint.append(bare_leaf->canon_phase(), ex<Tensor>(canon));
+      return binarize(signed_adjoint, {}, opts);
+    }
 
     // Sentinel right child.
     EvalExprNode sentinel{EvalExpr{Constant{1}}};
@@ -452,7 +463,18 @@ EvalExprNode binarize(Tensor const& t) {
     return EvalExprNode{std::move(adj), std::move(bare_leaf),
                         std::move(sentinel)};
   }
-  return EvalExprNode{EvalExpr{t}};
+
+  EvalExpr leaf{t};
+  // Block-canonicalizing the leaf may have changed its sign (antisymmetric
+  // tensor whose slots got reordered): the leaf then denotes -t, hence put the
+  // sign into the tree.
+  // N.B. leaves with proto-indices are not reordered, they denote t itself
+  if (leaf.canon_phase() != 1 && !leaf.has_connectivity_graph()) {
+    Product signed_leaf;
+    signed_leaf.append(leaf.canon_phase(), leaf.expr());
+    return binarize(signed_leaf, {}, opts);
+  }
+  return EvalExprNode{std::move(leaf)};
 }
 
 EvalExprNode binarize(Sum const& sum, IndexSet const& uncontract,
@@ -652,7 +674,7 @@ EvalExprNode binarize(ExprPtr const& expr, IndexSet const& uncontract,
     return binarize(expr->as<Variable>());
 
   if (expr->is<Tensor>())  //
-    return binarize(expr->as<Tensor>());
+    return binarize(expr->as<Tensor>(), opts);
 
   if (expr->is<Sum>())  //
     return binarize(expr->as<Sum>(), uncontract, opts);
-- 
2.43.0


From bc389e41d22df4c8ee13c9d858955b3043220335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:30 +0000
Subject: [PATCH 27/75] fix: CacheManager::alive_count() added up the remaining
 lives instead of counting the live entries

---
 SeQuant/core/eval/cache_manager.hpp | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/SeQuant/core/eval/cache_manager.hpp b/SeQuant/core/eval/cache_manager.hpp
index 92fcdb8..195ad29 100644
--- a/SeQuant/core/eval/cache_manager.hpp
+++ b/SeQuant/core/eval/cache_manager.hpp
@@ -9,6 +9,7 @@
 #include <SeQuant/core/eval/result.hpp>
 #include <SeQuant/core/expr.hpp>
 
+#include <range/v3/algorithm/count_if.hpp>
 #include <range/v3/algorithm/for_each.hpp>
 #include <range/v3/view/filter.hpp>
 #include <range/v3/view/map.hpp>
@@ -324,14 +325,9 @@ class CacheManager {
   /// \return The number of entries with life_count greater than zero.
   ///
   [[nodiscard]] size_t alive_count() const noexcept {
-    using ranges::views::filter;
-    using ranges::views::transform;
     using ranges::views::values;
-    return ranges::accumulate(cache_map_                            //
-                                  | values                          //
-                                  | filter(&entry::alive)           //
-                                  | transform(&entry::life_count),  //
-                              size_t{0});
+    return static_cast<size_t>(
+        ranges::count_if(cache_map_ | values, &entry::alive));
   }
 
   ///
-- 
2.43.0


From d9c8a3f9f530d185292e5d5b38b38088c6662531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:30 +0000
Subject: [PATCH 28/75] fix: peak_cache() never simulated a cache hit and
 counted the operands of the stored results

---
 SeQuant/core/eval/cache_manager.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/SeQuant/core/eval/cache_manager.cpp b/SeQuant/core/eval/cache_manager.cpp
index ceeb41f..ca95f3f 100644
--- a/SeQuant/core/eval/cache_manager.cpp
+++ b/SeQuant/core/eval/cache_manager.cpp
@@ -13,6 +13,12 @@ namespace sequant {
 
 namespace {
 
+/// storage needed for the result of \p node
+AsyCost storage(meta::eval_node auto const& node) {
+  return node->is_tensor() ? AsyCost{detail::space_counts(node->as_tensor())}
+                           : AsyCost::zero();
+}
+
 template <meta::eval_node Node, typename N, bool F>
 void max_cache(Node const& node,        //
                CacheManager<N, F>& cm,  //
@@ -20,7 +26,7 @@ void max_cache(Node const& node,        //
                AsyCost& max) {
   if (auto ptr = cm.access(node); ptr) {
     if (cm.life(node) == 0) {
-      curr -= Memory{}(node);
+      curr -= storage(node);
     }
     return;
   }
@@ -28,10 +34,11 @@ void max_cache(Node const& node,        //
     max_cache(node.left(), cm, curr, max);
     max_cache(node.right(), cm, curr, max);
     if (cm.exists(node)) {
-      curr += Memory{}(node);
+      curr += storage(node);
       max = std::max(curr, max);
-      // simulate cache store
-      auto s = cm.store(node, nullptr);
+      // simulate cache store; any non-null result will do
+      auto s = cm.store(node, eval_result<ResultScalar<int>>(0));
+      if (cm.life(node) == 0) curr -= storage(node);
     }
   }
 }
-- 
2.43.0


From 0e7287f987fede9f2cbeb4c8520a6a38a7056d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:18 +0000
Subject: [PATCH 29/75] fix: partial Wick contractions ignored required
 connections, and a declared connection list given with a
 NormalOperatorSequence counted as empty

---
 SeQuant/core/wick.hpp | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/SeQuant/core/wick.hpp b/SeQuant/core/wick.hpp
index 16868e1..3255931 100644
--- a/SeQuant/core/wick.hpp
+++ b/SeQuant/core/wick.hpp
@@ -256,7 +256,7 @@ class WickTheorem {
           nop_connections_[opidx_pair.second].reset(opidx_pair.first);
         }
       }
-      nop_nconnections_total_ = nop_connections_input_.size();
+      nop_nconnections_total_ = op_index_pairs.size();
       nop_connections_input_.clear();
     } else {
       ranges::for_each(op_index_pairs, [this](const auto &idxpair) {
@@ -1101,6 +1101,17 @@ class WickTheorem {
       return true;
     }
 
+    /// @return true if every connection in \p target_nop_connections has been
+    /// made
+    bool connected(const container::svector<std::bitset<max_input_size>>
+                       &target_nop_connections) const {
+      for (std::size_t i = 0; i != target_nop_connections.size(); ++i) {
+        if (!(nop_connections[i] | target_nop_connections[i]).all())
+          return false;
+      }
+      return true;
+    }
+
     /// @brief Updates connectivity when contraction is reversed
     template <typename Cursor>
     inline void disconnect(const container::svector<std::bitset<max_input_size>>
@@ -1532,9 +1543,11 @@ class WickTheorem {
 
                 // if have a nonzero result ...
                 if (state.sp.size() != state.sp_initial_size) {
-                  // update the result if nothing left to contract and
-                  if (!full_contractions_ ||
-                      (full_contractions_ && state.nopseq_size == 0)) {
+                  // update the result if nothing left to contract or, if
+                  // partial contractions are wanted, have all target
+                  // connections
+                  if (full_contractions_ ? state.nopseq_size == 0
+                                         : state.connected(nop_connections_)) {
                     if (!state.count_only) {
                       // clang-format off
                       // this will include:
-- 
2.43.0


From b8767094ac3fb0bc46b4b46121298b36c16f6bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:18 +0000
Subject: [PATCH 30/75] fix: WickTheorem renamed user-declared external indices
 that appear twice when it canonicalized its input

---
 SeQuant/core/wick.impl.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/SeQuant/core/wick.impl.hpp b/SeQuant/core/wick.impl.hpp
index 8ebb224..0dc1f79 100644
--- a/SeQuant/core/wick.impl.hpp
+++ b/SeQuant/core/wick.impl.hpp
@@ -745,7 +745,7 @@ ExprPtr WickTheorem<S>::compute(const bool count_only,
     if (expr_input_->is<Sum>()) {
       if (!skip_input_canonicalization) {
         // initial full canonicalization
-        canonicalize(expr_input_);
+        canonicalize(expr_input_, canonicalize_options());
         SEQUANT_ASSERT(!expr_input_->as<Sum>().empty());
       }
 
@@ -807,7 +807,8 @@ ExprPtr WickTheorem<S>::compute(const bool count_only,
     // ...
     else if (expr_input_->is<Product>()) {
       if (!skip_input_canonicalization) {  // canonicalize, unless told to skip
-        auto canon_byproduct = expr_input_->rapid_canonicalize();
+        auto canon_byproduct = expr_input_->rapid_canonicalize(
+            canonicalize_options().copy_and_set(CanonicalizationMethod::Rapid));
         SEQUANT_ASSERT(
             canon_byproduct ==
             nullptr);  // canonicalization of Product always returns nullptr
-- 
2.43.0


From b40d0954e5399f5a8d95abe546701a55dc0e17a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:54 +0000
Subject: [PATCH 31/75] fix: serialization of a sum nested in a sum repeats its
 text outside of the parentheses

---
 SeQuant/core/io/serialization/v1/serialize.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SeQuant/core/io/serialization/v1/serialize.cpp b/SeQuant/core/io/serialization/v1/serialize.cpp
index 3b4f56c..ceef136 100644
--- a/SeQuant/core/io/serialization/v1/serialize.cpp
+++ b/SeQuant/core/io/serialization/v1/serialize.cpp
@@ -204,7 +204,7 @@ std::wstring to_string(Sum const& sum, const SerializationOptions& options) {
 
     bool is_negative = false;
     if (parenthesize) {
-      current_serialized += L"(" + current_serialized + L")";
+      current_serialized = L"(" + current_serialized + L")";
     } else {
       is_negative = current_serialized.front() == L'-';
     }
-- 
2.43.0


From 4e14beb6c1d26edbae5242ea335ecd071e46244b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:54 +0000
Subject: [PATCH 32/75] fix: serialization drops the imaginary unit of purely
 imaginary scalars

---
 SeQuant/core/io/serialization/v1/serialize.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/SeQuant/core/io/serialization/v1/serialize.cpp b/SeQuant/core/io/serialization/v1/serialize.cpp
index ceef136..717a5c1 100644
--- a/SeQuant/core/io/serialization/v1/serialize.cpp
+++ b/SeQuant/core/io/serialization/v1/serialize.cpp
@@ -115,6 +115,11 @@ std::wstring serialize_scalar(const Constant::scalar_type& scalar,
       } else {
         serialized += " + i ";
       }
+    } else if (imagNumerator < 0) {
+      serialized += "-i ";
+      imagNumerator *= -1;
+    } else {
+      serialized += "i ";
     }
 
     serialized += imagNumerator.str();
@@ -167,7 +172,10 @@ std::wstring to_string(Product const& prod,
 
   const auto& scal = prod.scalar();
   if (scal != Product::scalar_type{1}) {
-    serialized += details::serialize_scalar(scal, options) + L" ";
+    const bool parenthesize_scalar = scal.real() != 0 && scal.imag() != 0;
+    if (parenthesize_scalar) serialized += L"(";
+    serialized += details::serialize_scalar(scal, options);
+    serialized += parenthesize_scalar ? L") " : L" ";
   }
 
   for (std::size_t i = 0; i < prod.size(); ++i) {
-- 
2.43.0


From c3b163e549757f6c363b2424290a45fbf4eaa187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:54 +0000
Subject: [PATCH 33/75] fix: deserialization takes names starting with inf or
 nan for numbers

---
 SeQuant/core/io/serialization/v1/deserialize.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/SeQuant/core/io/serialization/v1/deserialize.cpp b/SeQuant/core/io/serialization/v1/deserialize.cpp
index f8e8ff7..5675490 100644
--- a/SeQuant/core/io/serialization/v1/deserialize.cpp
+++ b/SeQuant/core/io/serialization/v1/deserialize.cpp
@@ -89,7 +89,17 @@ auto name_def         = x3::lexeme[
                             x3::unicode::alpha >> -( *(word_components >> &word_components) >> (word_components - '_') )
                         ];
 
-auto number_def       = x3::double_ >> -('/' >> x3::double_);
+// Only finite numbers: otherwise names such as "info" or "nano" would be parsed
+// as an (infinite or NaN) number followed by the rest of the name.
+struct finite_real_policies : x3::real_policies<double> {
+  template <typename Iterator, typename Attribute>
+  static bool parse_nan(Iterator &, const Iterator &, Attribute &) { return false; }
+  template <typename Iterator, typename Attribute>
+  static bool parse_inf(Iterator &, const Iterator &, Attribute &) { return false; }
+};
+const x3::real_parser<double, finite_real_policies> finite_double;
+
+auto number_def       = finite_double >> -('/' >> finite_double);
 
 auto variable_def     = x3::lexeme[name >> -(x3::lit('^') >> '*' >> x3::attr(true))];
 
-- 
2.43.0


From 1e5c74a2124c2db4e3fe420eeb0e8a2467b5d622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:54 +0000
Subject: [PATCH 34/75] fix: deserialization takes sums of numbers such as x-2
 for products

---
 SeQuant/core/io/serialization/v1/deserialize.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/SeQuant/core/io/serialization/v1/deserialize.cpp b/SeQuant/core/io/serialization/v1/deserialize.cpp
index 5675490..0984543 100644
--- a/SeQuant/core/io/serialization/v1/deserialize.cpp
+++ b/SeQuant/core/io/serialization/v1/deserialize.cpp
@@ -139,7 +139,9 @@ auto nullary          = number | tensor | variable;
 
 auto grouped          = power | '(' > sum > ')' | nullary;
 
-auto product_def      = grouped % -x3::lit('*');
+// Multiplication can be implicit, but never in front of a sign (otherwise "x -2"
+// would be the product of x and -2)
+auto product_def      = grouped % (x3::lit('*') | !(x3::lit('+') | x3::lit('-')));
 
 auto first_addend     = (('-' >> x3::attr(-1) | -x3::lit('+') >> x3::attr(1)) >> product)[actions::process_addend{}];
 
-- 
2.43.0


From 75282690ea8fd481b8257e0074b3eff4d623d77f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:29 +0000
Subject: [PATCH 35/75] fix: deserialization rounds large integers and rejects
 divisions by zero with a foreign exception

---
 .../io/serialization/v1/ast_conversions.hpp   | 70 +++++++++++++++----
 1 file changed, 57 insertions(+), 13 deletions(-)

diff --git a/SeQuant/core/io/serialization/v1/ast_conversions.hpp b/SeQuant/core/io/serialization/v1/ast_conversions.hpp
index 22e761c..488e4ac 100644
--- a/SeQuant/core/io/serialization/v1/ast_conversions.hpp
+++ b/SeQuant/core/io/serialization/v1/ast_conversions.hpp
@@ -20,6 +20,8 @@
 #include <range/v3/algorithm/find.hpp>
 
 #include <algorithm>
+#include <cmath>
+#include <cwctype>
 #include <string>
 #include <tuple>
 #include <variant>
@@ -214,17 +216,60 @@ ColumnSymmetry to_column_symmetry(char c, std::size_t offset, const Iterator &,
 
 template <typename PositionCache, typename Iterator>
 Constant to_constant(const io::serialization::v1::ast::Number &number,
-                     const PositionCache &, const Iterator &) {
-  if (static_cast<std::int64_t>(number.numerator) == number.numerator &&
-      static_cast<std::int64_t>(number.denominator) == number.denominator) {
+                     const PositionCache &position_cache,
+                     const Iterator &begin) {
+  if (number.denominator == 0) {
+    auto [offset, length] = get_pos(number, position_cache, begin);
+    throw SerializationError(offset, length, "Division by zero");
+  }
+
+  // doubles represent integers exactly only up to this magnitude
+  constexpr double max_exact = 9007199254740992.;  // 2^53
+  auto is_exact_integer = [&](double value) {
+    return std::abs(value) < max_exact && std::trunc(value) == value;
+  };
+
+  if (is_exact_integer(number.numerator) &&
+      is_exact_integer(number.denominator)) {
     // Integer fraction
     return Constant(
         ::sequant::rational(static_cast<std::int64_t>(number.numerator),
                             static_cast<std::int64_t>(number.denominator)));
-  } else {
-    // Construct from floating point value
-    return Constant(::sequant::rational(number.numerator / number.denominator));
   }
+
+  if (std::abs(number.numerator) >= max_exact ||
+      std::abs(number.denominator) >= max_exact) {
+    // Integers that can't be represented by a double are taken from the input
+    auto [offset, length] = get_pos(number, position_cache, begin);
+    std::string text;
+    for (auto it = begin + offset; it != begin + offset + length; ++it) {
+      if (*it == L'/' || *it == L'-' || (*it >= L'0' && *it <= L'9')) {
+        text.push_back(static_cast<char>(*it));
+      } else if (*it != L'+' && !std::iswspace(*it)) {
+        text.clear();  // not a fraction of integers
+        break;
+      }
+    }
+    if (!text.empty()) {
+      const auto slash = text.find('/');
+      using Int = ::sequant::rational::value_type;
+      auto to_int = [](std::string digits) {
+        const bool negative = digits.front() == '-';
+        if (negative) digits.erase(0, 1);
+        digits.erase(
+            0, std::min(digits.find_first_not_of('0'), digits.size() - 1));
+        Int value(digits);
+        return negative ? Int(-value) : value;
+      };
+      return Constant(::sequant::rational(
+          to_int(text.substr(0, slash)), slash == std::string::npos
+                                             ? Int(1)
+                                             : to_int(text.substr(slash + 1))));
+    }
+  }
+
+  // Construct from floating point value
+  return Constant(::sequant::rational(number.numerator / number.denominator));
 }
 
 template <typename PositionCache, typename Iterator>
@@ -363,19 +408,18 @@ struct Transformer {
     ExprPtr base = boost::apply_visitor(*this, power.base);
 
     // exponent must be a rational, reject otherwise
-    if (static_cast<std::int64_t>(power.exponent.numerator) !=
-            power.exponent.numerator ||
-        static_cast<std::int64_t>(power.exponent.denominator) !=
-            power.exponent.denominator) {
+    if (std::trunc(power.exponent.numerator) != power.exponent.numerator ||
+        std::trunc(power.exponent.denominator) != power.exponent.denominator) {
       auto [offset, length] = get_pos(power, position_cache.get(), begin.get());
       throw SerializationError(
           offset, length,
           "Power exponent must be a rational number (integer numerator and "
           "denominator)");
     }
-    sequant::rational exponent(
-        static_cast<std::int64_t>(power.exponent.numerator),
-        static_cast<std::int64_t>(power.exponent.denominator));
+    sequant::rational exponent =
+        to_constant(power.exponent, position_cache.get(), begin.get())
+            .value()
+            .real();
 
     auto pw = ex<Power>(std::move(base), std::move(exponent));
     if (power.conjugated) {
-- 
2.43.0


From 8e57d24bfcc5a833f940359c69dcb9ddd0f36975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:15 +0000
Subject: [PATCH 36/75] fix: optimize products with fewer than two tensors and
 two or more scalars

---
 SeQuant/core/optimize/single_term.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/SeQuant/core/optimize/single_term.hpp b/SeQuant/core/optimize/single_term.hpp
index a793f41..27f7b83 100644
--- a/SeQuant/core/optimize/single_term.hpp
+++ b/SeQuant/core/optimize/single_term.hpp
@@ -198,11 +198,11 @@ ExprPtr single_term_opt(
   using ranges::views::filter;
   using ranges::views::reverse;
 
-  if (prod.factors().size() < 3)
-    return ex<Product>(Product{prod.scalar(), prod.factors().begin(),
-                               prod.factors().end(), Product::Flatten::No});
   auto const tensors =
       prod | filter(&ExprPtr::template is<Tensor>) | ranges::to_vector;
+  if (prod.factors().size() < 3 || tensors.size() < 2)
+    return ex<Product>(Product{prod.scalar(), prod.factors().begin(),
+                               prod.factors().end(), Product::Flatten::No});
   auto seq = detail::single_term_opt<Metric>(
       TensorNetwork{tensors}, std::forward<IdxToSz>(idxsz), subnet_cse, cost,
       is_batchable_index, batch_target_size, inner_pow, batch_persistent_only);
-- 
2.43.0


From 60180679994c4323b475db9f44a1af0e979d22ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:15 +0000
Subject: [PATCH 37/75] fix: subset_target_indices keeps a target index of a
 proper subset open

---
 SeQuant/core/utility/indices.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/SeQuant/core/utility/indices.hpp b/SeQuant/core/utility/indices.hpp
index f25b1ec..4fabd4a 100644
--- a/SeQuant/core/utility/indices.hpp
+++ b/SeQuant/core/utility/indices.hpp
@@ -842,7 +842,8 @@ auto subset_target_indices(meta::range_of<Index, 2> auto const& rng,
   for (size_t i = 0; i < result.size(); ++i) {
     if (connected && !(*connected)[i]) continue;  // pruned: result[i] unused
     for (auto&& [k, v] : counts[i])
-      if (v == 1 || (v > 0 && counts.at(counts.size() - i - 1).contains(k)))
+      if (v == 1 || (v > 0 && counts.at(counts.size() - i - 1).contains(k)) ||
+          ranges::contains(tixs, k))
         result[i].emplace(k);
   }
 
-- 
2.43.0


From f9fd298da76e6df1148b44da03bc8efbbbfcbff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:43 +0000
Subject: [PATCH 38/75] fix: relative phase of a common subexpression and its
 definition

The definition of a common subexpression is the expression of its first
occurrence, but every use was multiplied by the phase relative to the canonical
form, so that all uses had the wrong sign if the first occurrence had phase -1.
---
 .../optimize/common_subexpression_elimination.hpp     | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/SeQuant/core/optimize/common_subexpression_elimination.hpp b/SeQuant/core/optimize/common_subexpression_elimination.hpp
index ef009a2..7bcac4f 100644
--- a/SeQuant/core/optimize/common_subexpression_elimination.hpp
+++ b/SeQuant/core/optimize/common_subexpression_elimination.hpp
@@ -131,6 +131,13 @@ class SubexpressionReplacer {
                              ? toUtf16(label_gen(tree, name_counter++))
                              : label_it->second;
 
+    // The CSE is defined in terms of its first occurrence, whose phase it
+    // therefore includes
+    const auto phase =
+        label_it == end(cse_names)
+            ? 1
+            : tree->canon_phase() * label_it->first->canon_phase();
+
     ExprPtr expr = [&]() {
       if (tree->is_tensor()) {
         Index::index_vector indices = tree->canon_indices();
@@ -173,8 +180,8 @@ class SubexpressionReplacer {
       intermediate_definition = expr_to_tree(intermediate);
     }
 
-    if (tree->canon_phase() != 1) {
-      expr *= ex<Constant>(tree->canon_phase());
+    if (phase != 1) {
+      expr *= ex<Constant>(phase);
     }
 
     if (tree.root()) {
-- 
2.43.0


From 44383483a39d472212c4757b5b50d55e86bfda7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:21 +0000
Subject: [PATCH 39/75] fix: to_expr(eval node) keeps scalars, variables and
 sums multiplied by a constant

A node that multiplies a single factor by a constant was turned into a product
of the constituents of that factor, which lost the factor if it was a variable,
its prefactor if it was a product, and multiplied the summands of a sum.
---
 SeQuant/core/eval/eval_expr.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/SeQuant/core/eval/eval_expr.hpp b/SeQuant/core/eval/eval_expr.hpp
index 779bb0b..d3fef48 100644
--- a/SeQuant/core/eval/eval_expr.hpp
+++ b/SeQuant/core/eval/eval_expr.hpp
@@ -515,9 +515,10 @@ ExprPtr to_expr(meta::eval_node auto const& node) {
 
     SEQUANT_ASSERT(!prod.empty());
 
-    if (prod.size() == 1 && !prod.factor(0)->is<Tensor>()) {
-      return ex<Product>(Product{prod.scalar(), prod.factor(0)->begin(),
-                                 prod.factor(0)->end(), Product::Flatten::No});
+    if (prod.size() == 1 && prod.factor(0)->is<Product>()) {
+      const auto& inner = prod.factor(0)->as<Product>();
+      return ex<Product>(Product{prod.scalar() * inner.scalar(), inner.begin(),
+                                 inner.end(), Product::Flatten::No});
     } else {
       return ex<Product>(std::move(prod));
     }
-- 
2.43.0


From 0ae4eb88169d04c0d2cc1637c196df326ac73a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:30 +0000
Subject: [PATCH 40/75] fix: evaluation trees of results that are products or
 sums of constants only

---
 SeQuant/core/eval/eval_expr.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/SeQuant/core/eval/eval_expr.hpp b/SeQuant/core/eval/eval_expr.hpp
index d3fef48..dac6e5b 100644
--- a/SeQuant/core/eval/eval_expr.hpp
+++ b/SeQuant/core/eval/eval_expr.hpp
@@ -458,11 +458,11 @@ FullBinaryNode<ExprT> binarize(ResultExpr const& res,
   const bool is_scalar =
       res.bra().empty() && res.ket().empty() && res.aux().empty();
 
-  if (tree.size() < 2) {
+  if (tree.size() < 2 || (is_scalar && tree->is_constant())) {
     // We want to have a result node with the result from the ResultExpr.
     // In order for that to work, we need a dedicated result node in the first
-    // place. Hence, we adapt the represented expression for terminals to be
-    // that terminal multiplied by 1.
+    // place. Hence, we adapt the represented expression for terminals (and for
+    // nodes representing a known constant) to be that multiplied by 1.
     ExprT result = [&]() {
       if (is_scalar) {
         return *binarize<ExprT>(ex<Variable>(res.result_as_variable()));
@@ -513,7 +513,8 @@ ExprPtr to_expr(meta::eval_node auto const& node) {
     prod.append(1, lexpr, Product::Flatten::No);
     prod.append(1, rexpr, Product::Flatten::No);
 
-    SEQUANT_ASSERT(!prod.empty());
+    // all factors are constants
+    if (prod.empty()) return ex<Constant>(prod.scalar());
 
     if (prod.size() == 1 && prod.factor(0)->is<Product>()) {
       const auto& inner = prod.factor(0)->as<Product>();
-- 
2.43.0


From aedb935ac8780962bfa3f2d8d0b3683b55f4ab72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:48 +0000
Subject: [PATCH 41/75] fix: fusion of two summands with zero prefactors
 divided by zero

---
 SeQuant/core/optimize/fusion.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/SeQuant/core/optimize/fusion.cpp b/SeQuant/core/optimize/fusion.cpp
index 680ce44..0ec21ab 100644
--- a/SeQuant/core/optimize/fusion.cpp
+++ b/SeQuant/core/optimize/fusion.cpp
@@ -122,6 +122,7 @@ rational Fusion::gcd_rational(rational const& left, rational const& right) {
 std::array<rational, 3> Fusion::fuse_scalar(rational const& left,
                                             rational const& right) {
   auto fused = gcd_rational(left, right);
+  if (fused == 0) fused = 1;  // both are zero
   rational left_fused = left / fused;
   rational right_fused = right / fused;
   if (left < 0 && right < 0) {
-- 
2.43.0


From deb717742d9e0ba5e10f7375959248bf114bd391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:52 +0000
Subject: [PATCH 42/75] fix: visiting a subtree does not leave it

FullBinaryNode::visit* of a node that is not the root continued in the tree it
is part of (or failed an assertion).
---
 SeQuant/core/binary_node.hpp | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/SeQuant/core/binary_node.hpp b/SeQuant/core/binary_node.hpp
index 5d0acb5..8d6859e 100644
--- a/SeQuant/core/binary_node.hpp
+++ b/SeQuant/core/binary_node.hpp
@@ -156,6 +156,12 @@ void visit(Node&& node, Visitor&& f, NodeType) {
   std::remove_reference_t<Node>* current_ptr = &node;
   const std::remove_cvref_t<Node>* previous_ptr = &node;
 
+  // The traversal ends at the node it started from, which need not be the root
+  // of the entire tree
+  const auto next_up = [start = current_ptr](auto& current) {
+    return &current == start ? nullptr : get_parent_ptr(current);
+  };
+
   // Implementation note: we use a loop rather than recursive function calls as
   // the latter implicitly imposes a maximum depth of a tree we can visit
   // without triggering a stack overflow that will crash the program.
@@ -175,7 +181,7 @@ void visit(Node&& node, Visitor&& f, NodeType) {
       }
 
       // Move back up to parent
-      current_ptr = get_parent_ptr(current);
+      current_ptr = next_up(current);
     } else if (previous_ptr == &current.left()) {
       if constexpr ((order & TreeTraversal::InOrder) ==
                         TreeTraversal::InOrder &&
@@ -185,7 +191,7 @@ void visit(Node&& node, Visitor&& f, NodeType) {
       }
 
       // Finished visiting left, now visit right
-      current_ptr = current.leaf() ? get_parent_ptr(current) : &current.right();
+      current_ptr = current.leaf() ? next_up(current) : &current.right();
     } else if (previous_ptr == &current.right()) {
       if constexpr ((order & TreeTraversal::PostOrder) ==
                         TreeTraversal::PostOrder &&
@@ -195,9 +201,9 @@ void visit(Node&& node, Visitor&& f, NodeType) {
       }
 
       // Finished visiting right, now move back up to parent (if any)
-      current_ptr = get_parent_ptr(current);
+      current_ptr = next_up(current);
     } else {
-      SEQUANT_ASSERT(current.root() || previous_ptr == &current.parent());
+      SEQUANT_ASSERT(&current == &node || previous_ptr == &current.parent());
       if constexpr ((order & TreeTraversal::PreOrder) ==
                         TreeTraversal::PreOrder &&
                     !std::is_same_v<NodeType, VisitLeaf>) {
@@ -205,15 +211,15 @@ void visit(Node&& node, Visitor&& f, NodeType) {
             invoke_tree_visitor(f, current, TreeTraversal::PreOrder);
       }
 
-      // Coming from parent (or started at root), start by visiting left
-      current_ptr = current.leaf() ? get_parent_ptr(current) : &current.left();
+      // Coming from parent (or just started), start by visiting left
+      current_ptr = current.leaf() ? next_up(current) : &current.left();
     }
 
     previous_ptr = &current;
 
     if (!continue_with_subtree) {
       // Overwrite to make next target the parent (if any)
-      current_ptr = get_parent_ptr(current);
+      current_ptr = next_up(current);
     }
   }
 }
-- 
2.43.0


From b6100184f7e145ee500fff6419c2bd20b742fdee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:39 +0000
Subject: [PATCH 43/75] fix: common subexpressions that differ in a batch index
 got the same name

They were told apart when collecting subexpressions, but not when naming them.
---
 SeQuant/core/optimize/common_subexpression_elimination.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/SeQuant/core/optimize/common_subexpression_elimination.hpp b/SeQuant/core/optimize/common_subexpression_elimination.hpp
index 7bcac4f..c4b1965 100644
--- a/SeQuant/core/optimize/common_subexpression_elimination.hpp
+++ b/SeQuant/core/optimize/common_subexpression_elimination.hpp
@@ -100,6 +100,8 @@ class SubexpressionReplacer {
       : expr_trees(expr_trees),
         subexpressions(map),
         expr_to_tree(transformer),
+        // same notion of equality as used to identify the subexpressions
+        cse_names(map.bucket_count(), map.hash_function(), map.key_eq()),
         label_gen(label_gen) {}
 
   void perform_replacements() {
-- 
2.43.0


From ff2ee352c3a16c120305284187d153ed3bea7b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:09 +0000
Subject: [PATCH 44/75] fix: terms of a sum sharing an intermediate end up in
 the same cluster

Connections were only followed from the first of the terms that share an
intermediate, so that a term connected to two others by different intermediates
could end up in a cluster with only one of them.
---
 SeQuant/core/optimize/sum.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/SeQuant/core/optimize/sum.cpp b/SeQuant/core/optimize/sum.cpp
index c3c0b92..9710eef 100644
--- a/SeQuant/core/optimize/sum.cpp
+++ b/SeQuant/core/optimize/sum.cpp
@@ -69,6 +69,8 @@ container::vector<container::vector<size_t>> clusters(
         for (auto p : v_) found->second.push_back(p);
       else
         connections.emplace(v0, v_);
+      // other terms are to be found from any of these terms
+      for (auto p : v_) connections[p].push_back(v0);
     }
   }
   positions.clear();
@@ -84,10 +86,9 @@ container::vector<container::vector<size_t>> clusters(
         while (!dfs_stack.empty()) {
           auto p = dfs_stack.top();
           dfs_stack.pop();
-          if (!visited.contains(p)) {
-            clstr.push_back(p);
-            visited.emplace(p);
-          }
+          if (visited.contains(p)) continue;
+          clstr.push_back(p);
+          visited.emplace(p);
           if (auto&& found = connections.find(p); found != connections.end())
             for (auto p_ : ranges::views::reverse(found->second))
               dfs_stack.push(p_);
-- 
2.43.0


From d1d501aac965a38f542c533f22f77564ef7f4bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:16 +0000
Subject: [PATCH 45/75] fix: release intermediates that are sums of computed
 terms during export

---
 SeQuant/core/export/export.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/SeQuant/core/export/export.hpp b/SeQuant/core/export/export.hpp
index 4b36272..19decc2 100644
--- a/SeQuant/core/export/export.hpp
+++ b/SeQuant/core/export/export.hpp
@@ -244,7 +244,11 @@ class GenerationVisitor {
         switch (node->compute_selection()) {
           case ComputeSelection::None:
             // This node only exists for tree connectivity purposes. No explicit
-            // computation that should be exported.
+            // computation that should be exported. However, the operands have
+            // been accounted for as being in use and therefore need to be
+            // dropped again.
+            drop(*node.right()->expr());
+            drop(*node.left()->expr());
             return;
           case ComputeSelection::Left:
             expressions.push_back(node.left()->expr());
-- 
2.43.0


From 050413f8b130ca73b863eddf1413517f0d17026d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:16 +0000
Subject: [PATCH 46/75] fix: export expressions containing products or sums of
 constants

---
 SeQuant/core/export/export.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/SeQuant/core/export/export.hpp b/SeQuant/core/export/export.hpp
index 19decc2..cc5d521 100644
--- a/SeQuant/core/export/export.hpp
+++ b/SeQuant/core/export/export.hpp
@@ -213,6 +213,12 @@ class GenerationVisitor {
     SEQUANT_ASSERT(!node.leaf());
     SEQUANT_ASSERT(node->op_type().has_value());
 
+    if (node->is_constant()) {
+      // The value of this node is known already: there is nothing to compute
+      // (and nothing has been loaded for its operands, which are constants too)
+      return;
+    }
+
     // Assemble the expression that should be evaluated
     container::svector<ExprPtr> expressions;
     switch (node->op_type().value()) {
-- 
2.43.0


From 8baefb2b13ff965088af0039597f730334cf48f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:52 +0000
Subject: [PATCH 47/75] fix: elide overlapping unload/load pairs in
 GenerationOptimizer

---
 SeQuant/core/export/generation_optimizer.hpp | 23 ++++++++++++--------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/SeQuant/core/export/generation_optimizer.hpp b/SeQuant/core/export/generation_optimizer.hpp
index d92764a..33fe15d 100644
--- a/SeQuant/core/export/generation_optimizer.hpp
+++ b/SeQuant/core/export/generation_optimizer.hpp
@@ -591,7 +591,12 @@ class GenerationOptimizer final : public Generator<MainContext> {
   }
 
   void optimize_operation_cache(const MainContext &) {
-    std::size_t erased = 0;
+    // Original positions of the operations that have been erased
+    container::svector<std::size_t> erased;
+    auto current_position = [&erased](std::size_t idx) {
+      return idx - std::ranges::count_if(
+                       erased, [idx](std::size_t other) { return other < idx; });
+    };
 
     // Process paired operations that **might** be removed, provided we can (and
     // want to) reorder other operations to retain a consistent stack.
@@ -602,13 +607,12 @@ class GenerationOptimizer final : public Generator<MainContext> {
     // In particular, this would almost certainly require explicit tracking of
     // the memory stack during the individual operations.
     for (auto [first_idx, second_idx] : m_paired) {
-      // Account for previously erased pairs (this simple method only works in
-      // combination with the assumptions under which we are currently doing
-      // erasures - see below)
-      SEQUANT_ASSERT(first_idx >= erased);
-      SEQUANT_ASSERT(second_idx >= erased);
-      first_idx -= erased;
-      second_idx -= erased;
+      // Account for previously erased pairs. Note that pairs may overlap, i.e.
+      // an erased operation can sit in between the elements of this pair.
+      const std::size_t original_first_idx = first_idx;
+      const std::size_t original_second_idx = second_idx;
+      first_idx = current_position(first_idx);
+      second_idx = current_position(second_idx);
 
       SEQUANT_ASSERT(first_idx < m_cache.size());
       SEQUANT_ASSERT(second_idx < m_cache.size());
@@ -664,7 +668,8 @@ class GenerationOptimizer final : public Generator<MainContext> {
                   m_cache.at(first_alloc_idx));
         m_cache.erase(m_cache.begin() + second_idx);
         m_cache.erase(m_cache.begin() + first_idx);
-        erased += 2;
+        erased.push_back(original_first_idx);
+        erased.push_back(original_second_idx);
         continue;
       }
 
-- 
2.43.0


From 897e61a6e23b0132c617279ca0ae71e200a9059f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:07 +0000
Subject: [PATCH 48/75] fix: apply pruned scalar prefactors to all summands of
 an exported sum

---
 SeQuant/core/export/export.hpp | 46 +++++++++++++++++++++++++++++-----
 1 file changed, 40 insertions(+), 6 deletions(-)

diff --git a/SeQuant/core/export/export.hpp b/SeQuant/core/export/export.hpp
index cc5d521..fb3f254 100644
--- a/SeQuant/core/export/export.hpp
+++ b/SeQuant/core/export/export.hpp
@@ -213,12 +213,6 @@ class GenerationVisitor {
     SEQUANT_ASSERT(!node.leaf());
     SEQUANT_ASSERT(node->op_type().has_value());
 
-    if (node->is_constant()) {
-      // The value of this node is known already: there is nothing to compute
-      // (and nothing has been loaded for its operands, which are constants too)
-      return;
-    }
-
     // Assemble the expression that should be evaluated
     container::svector<ExprPtr> expressions;
     switch (node->op_type().value()) {
@@ -620,12 +614,14 @@ class PreprocessVisitor {
     switch (context) {
       case TreeTraversal::Any:
       case TreeTraversal::PreOrder:
+        collapse_constants(tree);
         prune_scalar_factors(tree);
         preprocess_node_content(tree);
 
         if (!tree.leaf()) {
           rebalance_tree(tree);
           set_compute_selection(tree);
+          forward_scalar_factor(tree);
           prune_redundant_intermediate(tree);
         }
 
@@ -648,6 +644,23 @@ class PreprocessVisitor {
     }
   }
 
+  // Products and sums of constants have a known value (and can't store the
+  // result of a computation) and hence are represented as terminals
+  void collapse_constants(ExportNode<T> &tree) {
+    if (tree.leaf()) {
+      return;
+    }
+
+    auto collapse = [](ExportNode<T> &node) {
+      if (!node.leaf() && node->is_constant()) {
+        node = ExportNode<T>(T(*node));
+      }
+    };
+
+    collapse(tree.left());
+    collapse(tree.right());
+  }
+
   void prune_scalar_factors(ExportNode<T> &tree) {
     while (may_prune(tree) &&
            prune_scalar_factor(tree.left(), m_result, m_prunable)) {
@@ -730,6 +743,27 @@ class PreprocessVisitor {
     node->set_compute_selection(selection);
   }
 
+  // The scalar prefactor of a sum also applies to those summands whose
+  // computation has been flushed downwards (see set_compute_selection)
+  void forward_scalar_factor(ExportNode<T> &node) {
+    if (node->op_type() != EvalOp::Sum) {
+      return;
+    }
+
+    auto iter = m_result.scalarFactors.find(node->id());
+    if (iter == m_result.scalarFactors.end()) {
+      return;
+    }
+
+    const ExprPtr factor = iter->second;
+    if (!node.left().leaf()) {
+      m_result.scalarFactors[node.left()->id()] = factor->clone();
+    }
+    if (!node.right().leaf()) {
+      m_result.scalarFactors[node.right()->id()] = factor->clone();
+    }
+  }
+
   void prune_redundant_intermediate(ExportNode<T> &node) {
     if (node.root()) {
       return;
-- 
2.43.0


From 05fa9c40e69d94e7e44b65c63b7e1d1c1373279e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:35 +0000
Subject: [PATCH 49/75] fix: do not discard accumulated summands of reused
 intermediates during export

---
 SeQuant/core/export/export.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/SeQuant/core/export/export.hpp b/SeQuant/core/export/export.hpp
index fb3f254..e803349 100644
--- a/SeQuant/core/export/export.hpp
+++ b/SeQuant/core/export/export.hpp
@@ -488,14 +488,18 @@ void preprocess(ExprType expr, ExportContext &ctx, Node &node,
           // We renamed expr to another expression that has been used before
           // but is currently not used/loaded -> set to zero before adding new
           // data
-          ctx.setZeroStrategy(expr, ZeroStrategy::AlwaysZero);
+          // NOTE: no zeroing while it is loaded, as that would discard what has
+          // been accumulated in case it holds the result of a sum.
+          ctx.setZeroStrategy(
+              expr, ZeroStrategy::ZeroOnLoad | ZeroStrategy::ZeroOnCreate);
         }
 
         storeExpr = true;
       } else {
         // This expr is reused to store a new result -> set it to zero before
         // adding new result
-        ctx.setZeroStrategy(expr, ZeroStrategy::AlwaysZero);
+        ctx.setZeroStrategy(
+            expr, ZeroStrategy::ZeroOnLoad | ZeroStrategy::ZeroOnCreate);
       }
     }
   }
-- 
2.43.0


From 267e3ae2819d7b2dd81b6e48be94dda008be0413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:23 +0000
Subject: [PATCH 50/75] fix: keep the conjugation of variables in exported code

---
 SeQuant/core/export/julia_tensor_operations.hpp | 7 +++----
 SeQuant/core/export/python_einsum.hpp           | 7 +++----
 SeQuant/core/export/text_generator.hpp          | 7 +++----
 3 files changed, 9 insertions(+), 12 deletions(-)

diff --git a/SeQuant/core/export/julia_tensor_operations.hpp b/SeQuant/core/export/julia_tensor_operations.hpp
index 70342fa..220672d 100644
--- a/SeQuant/core/export/julia_tensor_operations.hpp
+++ b/SeQuant/core/export/julia_tensor_operations.hpp
@@ -132,9 +132,6 @@ class JuliaTensorOperationsGenerator : public Generator<Context> {
   std::string represent(const Power &power, const Context &ctx) const override {
     const ExprPtr &base = power.base();
     std::string base_str = to_julia_expr(*base, ctx);
-    if (base->is<Variable>() && base->as<Variable>().conjugated()) {
-      base_str = wrap_conj(std::move(base_str));
-    }
     auto s = detail::format_power_base(base, std::move(base_str)) + "^" +
              detail::format_power_exponent(power.exponent(),
                                            /*double_slash*/ true);
@@ -286,7 +283,9 @@ class JuliaTensorOperationsGenerator : public Generator<Context> {
     if (expr.is<Tensor>()) {
       return represent(expr.as<Tensor>(), ctx);
     } else if (expr.is<Variable>()) {
-      return represent(expr.as<Variable>(), ctx);
+      const Variable &variable = expr.as<Variable>();
+      std::string s = represent(variable, ctx);
+      return variable.conjugated() ? wrap_conj(std::move(s)) : s;
     } else if (expr.is<Constant>()) {
       return represent(expr.as<Constant>(), ctx);
     } else if (expr.is<Power>()) {
diff --git a/SeQuant/core/export/python_einsum.hpp b/SeQuant/core/export/python_einsum.hpp
index ca1a6e8..55e5085 100644
--- a/SeQuant/core/export/python_einsum.hpp
+++ b/SeQuant/core/export/python_einsum.hpp
@@ -200,9 +200,6 @@ class PythonEinsumGeneratorBase : public Generator<Context> {
   std::string represent(const Power &power, const Context &ctx) const override {
     const ExprPtr &base = power.base();
     std::string base_str = stringify_scalar(*base, ctx);
-    if (base->is<Variable>() && base->as<Variable>().conjugated()) {
-      base_str = wrap_conj(std::move(base_str));
-    }
     auto s = detail::format_power_base(base, std::move(base_str)) + "**" +
              detail::format_power_exponent(power.exponent(),
                                            /*double_slash*/ false);
@@ -501,7 +498,9 @@ class PythonEinsumGeneratorBase : public Generator<Context> {
   /// as its Python source representation.
   std::string stringify_scalar(const Expr &expr, const Context &ctx) const {
     if (expr.is<Variable>()) {
-      return represent(expr.as<Variable>(), ctx);
+      const Variable &variable = expr.as<Variable>();
+      std::string s = represent(variable, ctx);
+      return variable.conjugated() ? wrap_conj(std::move(s)) : s;
     } else if (expr.is<Constant>()) {
       return represent(expr.as<Constant>(), ctx);
     } else if (expr.is<Power>()) {
diff --git a/SeQuant/core/export/text_generator.hpp b/SeQuant/core/export/text_generator.hpp
index 0a478fc..04f78b1 100644
--- a/SeQuant/core/export/text_generator.hpp
+++ b/SeQuant/core/export/text_generator.hpp
@@ -123,9 +123,6 @@ class TextGenerator : public Generator<Context> {
   std::string represent(const Power &power, const Context &ctx) const override {
     const ExprPtr &base = power.base();
     std::string base_str = stringify(*base, ctx);
-    if (base->is<Variable>() && base->as<Variable>().conjugated()) {
-      base_str = wrap_conj(std::move(base_str));
-    }
     auto s = detail::format_power_base(base, std::move(base_str)) + "^" +
              detail::format_power_exponent(power.exponent(),
                                            /*double_slash*/ false);
@@ -331,7 +328,9 @@ class TextGenerator : public Generator<Context> {
     if (expr.is<Tensor>()) {
       return represent(expr.as<Tensor>(), ctx);
     } else if (expr.is<Variable>()) {
-      return represent(expr.as<Variable>(), ctx);
+      const Variable &variable = expr.as<Variable>();
+      std::string s = represent(variable, ctx);
+      return variable.conjugated() ? wrap_conj(std::move(s)) : s;
     } else if (expr.is<Constant>()) {
       return represent(expr.as<Constant>(), ctx);
     } else if (expr.is<Power>()) {
-- 
2.43.0


From a58da9d8785f91b49b3630d1804239afc45c04c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:23 +0000
Subject: [PATCH 51/75] fix: fractional imaginary parts of constants in
 exported Python and Julia code

---
 SeQuant/core/export/julia_tensor_operations.hpp | 9 ++++-----
 SeQuant/core/export/python_einsum.hpp           | 9 ++++-----
 2 files changed, 8 insertions(+), 10 deletions(-)

diff --git a/SeQuant/core/export/julia_tensor_operations.hpp b/SeQuant/core/export/julia_tensor_operations.hpp
index 220672d..4d0ed89 100644
--- a/SeQuant/core/export/julia_tensor_operations.hpp
+++ b/SeQuant/core/export/julia_tensor_operations.hpp
@@ -117,11 +117,10 @@ class JuliaTensorOperationsGenerator : public Generator<Context> {
 
     if (constant.value().imag() != 0) {
       sstream << "(" << constant.value().real();
-      if (constant.value().imag() < 0) {
-        sstream << "-" << (-1 * constant.value().imag()) << "im)";
-      } else {
-        sstream << "+" << constant.value().imag() << "im)";
-      }
+      if (constant.value().imag() >= 0) sstream << "+";
+      sstream << constant.value().imag();
+      // n/mim would be n/(mim)
+      sstream << (denominator(constant.value().imag()) == 1 ? "im)" : "*im)");
     } else {
       sstream << constant.value().real();
     }
diff --git a/SeQuant/core/export/python_einsum.hpp b/SeQuant/core/export/python_einsum.hpp
index 55e5085..9f25dc8 100644
--- a/SeQuant/core/export/python_einsum.hpp
+++ b/SeQuant/core/export/python_einsum.hpp
@@ -184,11 +184,10 @@ class PythonEinsumGeneratorBase : public Generator<Context> {
     if (constant.value().imag() != 0) {
       sstream << "(";
       sstream << constant.value().real();
-      if (constant.value().imag() < 0) {
-        sstream << constant.value().imag() << "j";
-      } else {
-        sstream << "+" << constant.value().imag() << "j";
-      }
+      if (constant.value().imag() >= 0) sstream << "+";
+      sstream << constant.value().imag();
+      // n/mj would be n/(mj)
+      sstream << (denominator(constant.value().imag()) == 1 ? "j" : "*1j");
       sstream << ")";
     } else {
       sstream << constant.value().real();
-- 
2.43.0


From f25dc14f371958335080dcb4e5c4c95bbb970af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:57 +0000
Subject: [PATCH 52/75] fix: open-shell spin tracing sums over the indices it
 replaces

simplify() renames the dummy indices of the expanded expression, but their
spin cases had been collected before
---
 SeQuant/domain/mbpt/spin.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/SeQuant/domain/mbpt/spin.cpp b/SeQuant/domain/mbpt/spin.cpp
index a182e40..45e254a 100644
--- a/SeQuant/domain/mbpt/spin.cpp
+++ b/SeQuant/domain/mbpt/spin.cpp
@@ -1467,7 +1467,8 @@ std::vector<ExprPtr> open_shell_spintrace_impl(
   auto expanded_expr = expand_A_op(expr);
   detail::reset_idx_tags(expanded_expr);
   expand(expanded_expr);
-  simplify(expanded_expr);
+  // N.B. must not rename the dummy indices collected above, hence no simplify()
+  rapid_simplify(expanded_expr);
 
   std::vector<ExprPtr> result{};
 
-- 
2.43.0


From 2e4267a6155f515a828f711dc493f4afd1a1de2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:57 +0000
Subject: [PATCH 53/75] fix: spintrace of tensors without symmetry conserves
 spin per column

---
 SeQuant/domain/mbpt/spin.cpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/SeQuant/domain/mbpt/spin.cpp b/SeQuant/domain/mbpt/spin.cpp
index 45e254a..8163de1 100644
--- a/SeQuant/domain/mbpt/spin.cpp
+++ b/SeQuant/domain/mbpt/spin.cpp
@@ -1673,25 +1673,32 @@ ExprPtr spintrace_impl(const ExprPtr& expression, IdxGroups&& ext_index_groups,
     }
   }
 
+  // Spin is conserved by the tensor as a whole; without antisymmetry, i.e. if
+  // the tensor is not expanded, it must be conserved column by column
+  auto conserves_spin = [](const Tensor& tensor) {
+    return can_expand(tensor) && (tensor.symmetry() != Symmetry::Nonsymm ||
+                                  ms_conserving_columns(tensor));
+  };
+
   // This function must be used for tensors with spin-specific indices only. If
   // the spin-symmetry is conserved: the tensor is expanded; else: zero is
   // returned.
-  auto spintrace_tensor = [](const Tensor& tensor) {
-    return can_expand(tensor) ? expand_antisymm(tensor) : ex<Constant>(0);
+  auto spintrace_tensor = [&conserves_spin](const Tensor& tensor) {
+    return conserves_spin(tensor) ? expand_antisymm(tensor) : ex<Constant>(0);
   };
 
   // This function is used to spin-trace a product terms with spin-specific
   // indices. It checks if all tensors can be expanded and spintraces individual
   // tensors by call to the spin_trace_tensor lambda.
-  auto spintrace_product =
-      [&spintrace_tensor](const ProductPtr& product) -> ExprPtr {
+  auto spintrace_product = [&spintrace_tensor, &conserves_spin](
+                               const ProductPtr& product) -> ExprPtr {
     ProductPtr spin_product = std::make_shared<Product>();
 
     // Check if all tensors in this product can be expanded
     // If NOT all tensors can be expanded, return zero
     for (const ExprPtr& expr : product->factors()) {
       if (expr.is<Tensor>()) {
-        if (!can_expand(expr.as<Tensor>())) {
+        if (!conserves_spin(expr.as<Tensor>())) {
           return ex<Constant>(0);
         }
       } else if (expr.is<Sum>() || expr.is<Product>()) {
-- 
2.43.0


From 879497c0751129afbc73cf485e1c7ab10acd65e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:03 +0000
Subject: [PATCH 54/75] fix: mbpt::Operator::adjoint: applied twice it restores
 the operator completely

Assigning to *this resets the adjoint flag, hence it was left set after the
second call and any further adjoint failed.
---
 SeQuant/domain/mbpt/op.ipp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/SeQuant/domain/mbpt/op.ipp b/SeQuant/domain/mbpt/op.ipp
index 8f28062..434150a 100644
--- a/SeQuant/domain/mbpt/op.ipp
+++ b/SeQuant/domain/mbpt/op.ipp
@@ -159,6 +159,8 @@ void Operator<QuantumNumbers, S>::adjoint() {
   // get order and batch_ordinals to restore later
   const auto saved_order = this->order_;
   const auto saved_batch_ordinals = this->batch_ordinals_;
+  // assigning to *this resets the adjoint flag
+  const auto was_adjoint = this->is_adjoint_;
 
   // capture the current tensor-form generator so that each call regenerates
   // fresh dummy indices; otherwise using this adjoint operator more than once
@@ -173,7 +175,7 @@ void Operator<QuantumNumbers, S>::adjoint() {
         qn += sequant::adjoint(dN);
         return qn;  // qn_action
       }};
-  this->is_adjoint_ = !this->is_adjoint_;  // toggle adjoint flag
+  this->is_adjoint_ = !was_adjoint;  // toggle adjoint flag
 
   // restore original order and batch_ordinals
   this->order_ = saved_order;
-- 
2.43.0


From 6fcafec74d2ed63b2e44c0be538342531d5b8f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:27 +0000
Subject: [PATCH 55/75] fix: many-body operators commute only if they cannot be
 contracted

Two operators that are general in every space (e.g. the Fock operator and the
two-body interaction) were reordered by canonicalization since the quantum
numbers of both products are same, and so were operators with odd numbers of
fermions, which anticommute.
---
 SeQuant/domain/mbpt/op.cpp | 22 ++++++++++++++++++++++
 SeQuant/domain/mbpt/op.hpp |  4 ++++
 SeQuant/domain/mbpt/op.ipp | 24 +++++++++++++++++++++++-
 3 files changed, 49 insertions(+), 1 deletion(-)

diff --git a/SeQuant/domain/mbpt/op.cpp b/SeQuant/domain/mbpt/op.cpp
index 50f7b29..c7a5a9b 100644
--- a/SeQuant/domain/mbpt/op.cpp
+++ b/SeQuant/domain/mbpt/op.cpp
@@ -284,6 +284,28 @@ qns_t combine(qns_t a, qns_t b) {
   }
 }
 
+bool can_contract(const qns_t& a, const qns_t& b) {
+  SEQUANT_ASSERT(a.size() == b.size());
+
+  if (get_default_context().vacuum() == Vacuum::Physical) {
+    return std::min(b[0].upper(), a[1].upper()) > 0;
+  } else if (get_default_context().vacuum() == Vacuum::SingleProduct) {
+    auto isr = get_default_context().index_space_registry();
+    const auto& base_spaces = isr->base_spaces();
+    for (std::size_t i = 0; i < base_spaces.size(); i++) {
+      const auto cre = i * 2;
+      const auto ann = (i * 2) + 1;
+      const auto ncontr = isr->is_pure_occupied(base_spaces[i])
+                              ? std::min(b[ann].upper(), a[cre].upper())
+                              : std::min(b[cre].upper(), a[ann].upper());
+      if (ncontr > 0) return true;
+    }
+    return false;
+  } else {
+    throw Exception("Unsupported vacuum context.");
+  }
+}
+
 // must be defined including op.ipp since it's used there
 template <>
 bool is_vacuum<qns_t>(qns_t qns) {
diff --git a/SeQuant/domain/mbpt/op.hpp b/SeQuant/domain/mbpt/op.hpp
index 658e1ba..0801398 100644
--- a/SeQuant/domain/mbpt/op.hpp
+++ b/SeQuant/domain/mbpt/op.hpp
@@ -463,6 +463,10 @@ using op_t = mbpt::Operator<qnc_t>;
 /// combines 2 sets of quantum numbers using Wick's theorem
 qns_t combine(qns_t, qns_t);
 
+/// @return true if an operator with quantum numbers @p a can be contracted with
+/// an operator with quantum numbers @p b that appears to its right
+bool can_contract(const qns_t& a, const qns_t& b);
+
 /// @brief Constructs quantum numbers for an excitation operator based on the
 /// defined context
 /// @param k the rank of the operator
diff --git a/SeQuant/domain/mbpt/op.ipp b/SeQuant/domain/mbpt/op.ipp
index 434150a..ba51026 100644
--- a/SeQuant/domain/mbpt/op.ipp
+++ b/SeQuant/domain/mbpt/op.ipp
@@ -135,7 +135,29 @@ bool Operator<QuantumNumbers, S>::commutes_with_atom(const Expr& that) const {
 
     SEQUANT_ASSERT(this->size() % 2 == 0 && that.size() == this->size());
 
-    return combine(delta_this, delta_that) == combine(delta_that, delta_this);
+    // operators that can be contracted with each other do not commute; N.B. it
+    // is not sufficient to compare the quantum numbers of both products, e.g.
+    // these are same for products of operators that are general in every space
+    if (can_contract(delta_this, delta_that) ||
+        can_contract(delta_that, delta_this))
+      return false;
+
+    // operators with odd numbers of fermionic creators+annihilators anticommute
+    if constexpr (S == Statistics::FermiDirac) {
+      auto is_odd = [](const this_type& op) {
+        bool result = false;
+        auto visitor = [&result](const ExprPtr& e) {
+          if (e->template is<NormalOperator<S>>())
+            result = e->template as<NormalOperator<S>>().size() % 2 == 1;
+        };
+        const auto tensor_form = op.tensor_form();
+        visitor(tensor_form);
+        tensor_form->visit(visitor, /* atoms_only = */ true);
+        return result;
+      };
+      if (is_odd(*this) && is_odd(that_op)) return false;
+    }
+    return true;
   }
 }
 
-- 
2.43.0


From ee03897b31ef10ab7020a463d4c5e2f00159bd52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:11 +0000
Subject: [PATCH 56/75] fix: WickTheorem: scalar factors do not enter the
 topology analysis

Expressions with scalar factors (Variable, Power) failed with use_topology.
---
 SeQuant/core/wick.impl.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/SeQuant/core/wick.impl.hpp b/SeQuant/core/wick.impl.hpp
index 0dc1f79..70e1ca0 100644
--- a/SeQuant/core/wick.impl.hpp
+++ b/SeQuant/core/wick.impl.hpp
@@ -850,9 +850,11 @@ ExprPtr WickTheorem<S>::compute(const bool count_only,
                 << "WickTheorem<S>::compute: input to topology computation = "
                 << io::latex::to_string(expr_input_) << std::endl;
 
-          // construct graph representation of the tensor product
+          // construct graph representation of the tensor product, scalar
+          // factors (Variable, Power, etc.) do not affect the topology
           using TN = TensorNetwork;
-          TN tn(expr_input_->as<Product>().factors());
+          TN tn(expr_input_->as<Product>().nonscalar_factors() |
+                ranges::to<container::svector<ExprPtr>>);
           auto g = tn.create_graph({.distinct_named_indices = true});
           const auto &graph = g.bliss_graph;
           const auto &vlabels = g.vertex_labels;
-- 
2.43.0


From 1735adcb3d3f24ba3ee1fd30750ea88088fd5321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:11 +0000
Subject: [PATCH 57/75] fix: lower_to_tensor_form lowers lone operators

---
 SeQuant/domain/mbpt/vac_av.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/SeQuant/domain/mbpt/vac_av.hpp b/SeQuant/domain/mbpt/vac_av.hpp
index 58322d8..809965b 100644
--- a/SeQuant/domain/mbpt/vac_av.hpp
+++ b/SeQuant/domain/mbpt/vac_av.hpp
@@ -49,7 +49,10 @@ inline ExprPtr lower_to_tensor_form(ExprPtr& expr) {
   auto op_lowerer = [](ExprPtr& leaf) {
     if (leaf.is<op_t>()) leaf = leaf.as<op_t>().tensor_form();
   };
-  expr->visit(op_lowerer, /* atoms only = */ true);
+  if (expr->is_atom())  // visit skips the root
+    op_lowerer(expr);
+  else
+    expr->visit(op_lowerer, /* atoms only = */ true);
   return expr;
 }
 
-- 
2.43.0


From c287942fdc91623c4ccfdb786fdc6c3d3158e68a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:17 +0000
Subject: [PATCH 58/75] fix: memoize keeps references valid and recovers from
 failed computations

The cache was a flat_map: references handed out and iterators held by waiting
threads were invalidated by insertions of other keys.  If the computation
threw, the placeholder stayed and all later callers waited forever.
---
 SeQuant/core/utility/memoize.hpp            | 52 ++++++++++++---------
 SeQuant/domain/mbpt/biorthogonalization.cpp |  5 +-
 SeQuant/domain/mbpt/biorthogonalization.hpp |  2 +-
 3 files changed, 32 insertions(+), 27 deletions(-)

diff --git a/SeQuant/core/utility/memoize.hpp b/SeQuant/core/utility/memoize.hpp
index 38a80d0..da68811 100644
--- a/SeQuant/core/utility/memoize.hpp
+++ b/SeQuant/core/utility/memoize.hpp
@@ -1,11 +1,11 @@
 #ifndef SEQUANT_CORE_UTILITY_MEMOIZE_HPP
 #define SEQUANT_CORE_UTILITY_MEMOIZE_HPP
 
-#include <SeQuant/core/container.hpp>
-
 #include <condition_variable>
+#include <map>
 #include <mutex>
 #include <optional>
+#include <tuple>
 #include <utility>
 
 namespace sequant::detail {
@@ -16,38 +16,44 @@ namespace sequant::detail {
 /// @tparam Key The cache key type
 /// @tparam Value The cached value type
 /// @tparam ComputeFn Callable returning Value
-/// @param cache The cache map (must use std::optional<Value> as values)
+/// @param cache The cache map (must use std::optional<Value> as values); must be
+///        node-based since references to its elements are held by waiters and
+///        returned to the callers while other elements are inserted
 /// @param mutex The mutex protecting the cache
 /// @param cv The condition variable for waiting
 /// @param key The key to look up/store
 /// @param compute_fn A callable that computes the value if not cached
-/// @return Reference to the cached value
+/// @return Reference to the cached value, valid for the lifetime of @p cache
+/// @throw whatever @p compute_fn throws; the value is then not cached
 template <typename Key, typename Value, typename ComputeFn>
-const Value& memoize(container::map<Key, std::optional<Value>>& cache,
+const Value& memoize(std::map<Key, std::optional<Value>>& cache,
                      std::mutex& mutex, std::condition_variable& cv,
                      const Key& key, ComputeFn&& compute_fn) {
-  {
-    std::unique_lock<std::mutex> lock(mutex);
-    using cache_t = container::map<Key, std::optional<Value>>;
-    typename cache_t::iterator it;
-    bool inserted;
-    // N.B. Use std::tie instead of structured binding to allow lambda capture
-    // (C++17 does not support capturing structured bindings in lambdas)
-    std::tie(it, inserted) = cache.try_emplace(key, std::nullopt);
-    if (!inserted) {
-      cv.wait(lock, [&it] { return it->second.has_value(); });
-      return it->second.value();
+  std::unique_lock<std::mutex> lock(mutex);
+  auto [it, inserted] = cache.try_emplace(key, std::nullopt);
+  while (!inserted) {
+    // N.B. the placeholder is removed if the computation fails
+    while (it != cache.end() && !it->second.has_value()) {
+      cv.wait(lock);
+      it = cache.find(key);
     }
+    if (it != cache.end()) return it->second.value();
+    std::tie(it, inserted) = cache.try_emplace(key, std::nullopt);
   }
-
-  Value result = compute_fn();
-
-  {
-    std::lock_guard<std::mutex> lock(mutex);
-    cache[key] = std::move(result);
+  lock.unlock();
+
+  try {
+    Value result = compute_fn();
+    lock.lock();
+    it->second = std::move(result);
+  } catch (...) {
+    if (!lock.owns_lock()) lock.lock();
+    cache.erase(it);
     cv.notify_all();
-    return cache[key].value();
+    throw;
   }
+  cv.notify_all();
+  return it->second.value();
 }
 
 }  // namespace sequant::detail
diff --git a/SeQuant/domain/mbpt/biorthogonalization.cpp b/SeQuant/domain/mbpt/biorthogonalization.cpp
index e68850e..d777916 100644
--- a/SeQuant/domain/mbpt/biorthogonalization.cpp
+++ b/SeQuant/domain/mbpt/biorthogonalization.cpp
@@ -488,9 +488,8 @@ void biorthogonal_transform(container::svector<ResultExpr>& result_exprs,
 
   static std::mutex cache_mutex;
   static std::condition_variable cache_cv;
-  static container::map<CacheKey, std::optional<HardcodedMatrix>>
-      hardcoded_cache;
-  static container::map<CacheKey, std::optional<ComputedMatrix>> computed_cache;
+  static std::map<CacheKey, std::optional<HardcodedMatrix>> hardcoded_cache;
+  static std::map<CacheKey, std::optional<ComputedMatrix>> computed_cache;
 
   constexpr std::size_t max_rank_hardcoded_biorthogonalizer_matrix = 5;
   CacheKey key{n_particles, threshold};
diff --git a/SeQuant/domain/mbpt/biorthogonalization.hpp b/SeQuant/domain/mbpt/biorthogonalization.hpp
index c5d0c5f..7510a7a 100644
--- a/SeQuant/domain/mbpt/biorthogonalization.hpp
+++ b/SeQuant/domain/mbpt/biorthogonalization.hpp
@@ -231,7 +231,7 @@ template <typename T>
 
   static std::mutex cache_mutex;
   static std::condition_variable cache_cv;
-  static container::map<CacheKey, std::optional<std::vector<T>>> cache;
+  static std::map<CacheKey, std::optional<std::vector<T>>> cache;
 
   CacheKey key{n_particles, pseudoinverse_threshold};
 
-- 
2.43.0


From 1f448c2c2ef44d31b1cb738aa7bd7fda19528d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:17 +0000
Subject: [PATCH 59/75] fix: IndexFactory::make reads its counters only under
 the lock

---
 SeQuant/core/index.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/SeQuant/core/index.hpp b/SeQuant/core/index.hpp
index 7b88856..ebd49c5 100644
--- a/SeQuant/core/index.hpp
+++ b/SeQuant/core/index.hpp
@@ -1128,7 +1128,7 @@ class IndexFactory {
     Index result;
     bool valid = false;
     do {
-      auto counter_it = counters_.begin();
+      decltype(counters_)::iterator counter_it;
       {  // if don't have a counter for this space
 #if SEQUANT_INDEX_THREADSAFE
         std::scoped_lock lock(mutex_);
@@ -1158,7 +1158,7 @@ class IndexFactory {
     Index result;
     bool valid = false;
     do {
-      auto counter_it = counters_.begin();
+      decltype(counters_)::iterator counter_it;
       {  // if don't have a counter for this space
 #if SEQUANT_INDEX_THREADSAFE
         std::scoped_lock lock(mutex_);
-- 
2.43.0


From 2bcee45fc70a9abefd8faa1a4bbbf28cc9c129e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:17 +0000
Subject: [PATCH 60/75] fix: Singleton's instance is published to other threads
 by an atomic pointer

instance() read the unique_ptr without synchronization with the thread that
constructs it.
---
 SeQuant/core/utility/singleton.hpp | 33 +++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/SeQuant/core/utility/singleton.hpp b/SeQuant/core/utility/singleton.hpp
index 306641e..86e56ca 100644
--- a/SeQuant/core/utility/singleton.hpp
+++ b/SeQuant/core/utility/singleton.hpp
@@ -6,6 +6,7 @@
 #define SEQUANT_CORE_UTILITY_SINGLETON_HPP
 
 #include <SeQuant/core/utility/exception.hpp>
+#include <atomic>
 #include <cassert>
 #include <memory>
 #include <mutex>
@@ -56,7 +57,7 @@ class Singleton {
   /// Derived is not default-constructible and set_instance() had not been
   /// called)
   static Derived& instance() {
-    const auto& result_ptr = instance_accessor();
+    Derived* result_ptr = instance_accessor().load(std::memory_order_acquire);
     if (result_ptr != nullptr) return *result_ptr;
     if constexpr (derived_is_default_constructible) {
       return set_default_instance();
@@ -71,10 +72,10 @@ class Singleton {
   /// @return pointer to the instance, or nullptr if it has not yet been
   /// constructed
   static Derived* instance_ptr() {
-    const auto& result_ptr = instance_accessor();
-    if (result_ptr != nullptr) return result_ptr.get();
+    Derived* result_ptr = instance_accessor().load(std::memory_order_acquire);
+    if (result_ptr != nullptr) return result_ptr;
     if constexpr (derived_is_default_constructible) {
-      return set_default_instance();
+      return &set_default_instance();
     } else
       return nullptr;
   }
@@ -96,20 +97,20 @@ class Singleton {
       throw Exception(
           "sequant::Singleton::set_instance: instance has already been "
           "constructed");
-    instance_accessor() = std::move(
+    return publish(
         std::unique_ptr<Derived>(new Derived(std::forward<Args>(args)...)));
-    return *instance_accessor();
   }
 
  protected:
   template <typename... Args>
   Singleton(Args&&...) {}  // all constructors are private
 
+  // points to the instance, if it has been constructed; read without a lock
   static auto& instance_accessor() {
-    static std::unique_ptr<Derived> instance;
+    static std::atomic<Derived*> instance{nullptr};
     return instance;
   }
-  // provides mutex that controls access to instance_accessor()'s object
+  // provides mutex that controls the construction of the instance
   static auto& instance_mutex() {
     static std::mutex mtx;
     return mtx;
@@ -120,10 +121,18 @@ class Singleton {
   /// only the first call will construct the instance.
   static Derived& set_default_instance() {
     std::scoped_lock lock(instance_mutex());
-    if (!instance_accessor()) {
-      instance_accessor() = std::move(std::unique_ptr<Derived>(new Derived));
-    }
-    return *instance_accessor();
+    if (Derived* result_ptr = instance_accessor(); result_ptr != nullptr)
+      return *result_ptr;
+    return publish(std::unique_ptr<Derived>(new Derived));
+  }
+
+  /// Takes ownership of the instance and makes it visible to all threads.
+  /// @note must be called with the mutex locked
+  static Derived& publish(std::unique_ptr<Derived> new_instance) {
+    static std::unique_ptr<Derived> instance;
+    instance = std::move(new_instance);
+    instance_accessor().store(instance.get(), std::memory_order_release);
+    return *instance;
   }
 };
 
-- 
2.43.0


From 08d2dfdf653ff26459480e95fb051dd3b263b073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:36 +0000
Subject: [PATCH 61/75] fix: exceptions thrown in threads of parallel loops
 reach the caller

They used to terminate the process (or, if thrown in the calling thread, to do
so via the destructor of a joinable std::thread).  parallel_do handed a
moved-from functor to all but one of the threads.
---
 SeQuant/core/runtime.hpp | 71 +++++++++++++++++++++-------------------
 1 file changed, 38 insertions(+), 33 deletions(-)

diff --git a/SeQuant/core/runtime.hpp b/SeQuant/core/runtime.hpp
index f3d62e1..f89d024 100644
--- a/SeQuant/core/runtime.hpp
+++ b/SeQuant/core/runtime.hpp
@@ -6,7 +6,9 @@
 #define SEQUANT_RUNTIME_HPP
 
 #include <cstdlib>
+#include <exception>
 #include <memory>
+#include <mutex>
 #include <thread>
 #include <utility>
 #include <vector>
@@ -19,7 +21,6 @@
 #include <execution>
 #else
 #include <atomic>
-#include <mutex>
 #endif
 
 namespace sequant {
@@ -37,6 +38,34 @@ inline int& nthreads_accessor() {
   static int nthreads = init_nthreads();
   return nthreads;
 }
+
+/// Executes @p nthreads instances of @p task , each as `task(thread_id)` in its
+/// own thread (the last one in the calling thread), and waits for all of them.
+/// @throw the first exception thrown by an instance, if any
+template <typename Task>
+void execute_in_threads(int nthreads, const Task& task) {
+  std::mutex exception_mtx;
+  std::exception_ptr exception;
+  auto guarded_task = [&](int thread_id) {
+    try {
+      task(thread_id);
+    } catch (...) {
+      std::scoped_lock lock(exception_mtx);
+      if (!exception) exception = std::current_exception();
+    }
+  };
+
+  std::vector<std::thread> threads;
+  for (int thread_id = 0; thread_id != nthreads; ++thread_id) {
+    if (thread_id != nthreads - 1)
+      threads.push_back(std::thread(guarded_task, thread_id));
+    else
+      guarded_task(thread_id);
+  }  // threads_id
+  for (int thread_id = 0; thread_id < nthreads - 1; ++thread_id)
+    threads[thread_id].join();
+  if (exception) std::rethrow_exception(exception);
+}
 }  // namespace detail
 
 /// sets the number of threads to use for concurrent work
@@ -61,16 +90,10 @@ inline int num_threads() { return detail::nthreads_accessor(); }
 /// @sa get_num_threads()
 template <typename Lambda>
 void parallel_do(Lambda&& lambda) {
-  std::vector<std::thread> threads;
-  const auto nthreads = num_threads();
-  for (int thread_id = 0; thread_id != nthreads; ++thread_id) {
-    if (thread_id != nthreads - 1)
-      threads.push_back(std::thread(std::forward<Lambda>(lambda), thread_id));
-    else
-      std::forward<Lambda>(lambda)(thread_id);
-  }  // threads_id
-  for (int thread_id = 0; thread_id < nthreads - 1; ++thread_id)
-    threads[thread_id].join();
+  detail::execute_in_threads(num_threads(), [&lambda](int thread_id) {
+    auto my_lambda = lambda;  // N.B. each thread has its own copy
+    my_lambda(thread_id);
+  });
 }
 
 /// Parallel version of std::for_each , using either parallel C++ algorithms
@@ -94,7 +117,7 @@ void for_each(SizedRange& rng, const UnaryOp& op) {
   std::for_each(std::execution::par_unseq, begin(rng), end(rng), op);
 #else
   std::atomic<size_t> work = 0;
-  auto task = [&work, &op, &rng, ntasks = ranges::size(rng)]() {
+  auto task = [&work, &op, &rng, ntasks = ranges::size(rng)](int) {
     auto it = ranges::begin(rng);
     size_t prev_task_id = 0;
     size_t task_id = work.fetch_add(1);
@@ -106,16 +129,7 @@ void for_each(SizedRange& rng, const UnaryOp& op) {
     }
   };
 
-  const auto nthreads = num_threads();
-  std::vector<std::thread> threads;
-  for (int thread_id = 0; thread_id != nthreads; ++thread_id) {
-    if (thread_id != nthreads - 1)
-      threads.push_back(std::thread(task));
-    else
-      task();
-  }  // threads_id
-  for (int thread_id = 0; thread_id < nthreads - 1; ++thread_id)
-    threads[thread_id].join();
+  detail::execute_in_threads(num_threads(), task);
 #endif
 }
 
@@ -147,7 +161,7 @@ T transform_reduce(SizedRange&& rng, T init, const BinaryReductionOp& reduce,
   std::mutex mtx;
   T result = init;
   auto task = [&work, &map, &reduce, &rng, &mtx, &result,
-               ntasks = ranges::size(rng)]() {
+               ntasks = ranges::size(rng)](int) {
     size_t task_id = work.fetch_add(1);
     while (task_id < ntasks) {
       const auto& item = rng[task_id];
@@ -160,16 +174,7 @@ T transform_reduce(SizedRange&& rng, T init, const BinaryReductionOp& reduce,
     }
   };
 
-  const auto nthreads = num_threads();
-  std::vector<std::thread> threads;
-  for (int thread_id = 0; thread_id != nthreads; ++thread_id) {
-    if (thread_id != nthreads - 1)
-      threads.push_back(std::thread(task));
-    else
-      task();
-  }  // threads_id
-  for (int thread_id = 0; thread_id < nthreads - 1; ++thread_id)
-    threads[thread_id].join();
+  detail::execute_in_threads(num_threads(), task);
 
   return result;
 #endif
-- 
2.43.0


From ea9c5e911f4c09d7bac361ccf1118d4fc8848cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:36 +0000
Subject: [PATCH 62/75] fix: SEQUANT_NUM_THREADS=0 is rejected instead of
 skipping parallel loops

---
 SeQuant/core/runtime.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/SeQuant/core/runtime.hpp b/SeQuant/core/runtime.hpp
index f89d024..dd2af00 100644
--- a/SeQuant/core/runtime.hpp
+++ b/SeQuant/core/runtime.hpp
@@ -33,6 +33,8 @@ inline int& nthreads_accessor() {
                                  : (std::thread::hardware_concurrency() > 0
                                         ? std::thread::hardware_concurrency()
                                         : 1);
+    if (nthreads < 1)
+      throw Exception("SEQUANT_NUM_THREADS: invalid number of threads");
     return nthreads;
   };
   static int nthreads = init_nthreads();
-- 
2.43.0


From c534a4881affb1509a799b7f8181cc47401507b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:39 +0000
Subject: [PATCH 63/75] fix: set_scoped_default_context takes effect and is
 undone even if the context compares equal

Contexts that share no registry or differ in canonicalization options may
compare equal; and changes made in the scope were not undone.
---
 SeQuant/core/utility/context.hpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/SeQuant/core/utility/context.hpp b/SeQuant/core/utility/context.hpp
index 23f2ea4..e2a3a56 100644
--- a/SeQuant/core/utility/context.hpp
+++ b/SeQuant/core/utility/context.hpp
@@ -50,12 +50,11 @@ struct ImplicitContextResetter {
 
 template <typename Ctx>
 ImplicitContextResetter<Ctx> set_scoped_implicit_context(const Ctx& ctx) {
-  if (get_implicit_context<Ctx>() != ctx) {
-    auto previous_ctx = get_implicit_context<Ctx>();
-    set_implicit_context(ctx);
-    return previous_ctx;
-  } else
-    return {};
+  // N.B. even if ctx is equal to the current context: they may not share
+  // state, and the current context may be changed before leaving the scope
+  auto previous_ctx = get_implicit_context<Ctx>();
+  set_implicit_context(ctx);
+  return previous_ctx;
 }
 
 }  // namespace sequant::detail
-- 
2.43.0


From 31c9258cbe16ebd377d63a0550196f80933353bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:40 +0000
Subject: [PATCH 64/75] fix: contexts without index space registry can be
 cloned and compared

---
 SeQuant/core/context.cpp | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/SeQuant/core/context.cpp b/SeQuant/core/context.cpp
index c7f63c6..c762314 100644
--- a/SeQuant/core/context.cpp
+++ b/SeQuant/core/context.cpp
@@ -19,19 +19,24 @@ bool default_context_manipulation_threadsafe() {
 bool operator==(const Context& ctx1, const Context& ctx2) {
   if (&ctx1 == &ctx2)
     return true;
-  else
+  else {
+    const auto isr1 = ctx1.index_space_registry();
+    const auto isr2 = ctx2.index_space_registry();
+    // either may be null
+    const bool same_isr =
+        isr1 == isr2 ||
+        (isr1 && isr2 && isr1->spaces() == isr2->spaces() && *isr1 == *isr2);
     return ctx1.vacuum() == ctx2.vacuum() && ctx1.metric() == ctx2.metric() &&
            ctx1.assert_strict_braket_symmetry() ==
                ctx2.assert_strict_braket_symmetry() &&
            ctx1.spbasis() == ctx2.spbasis() &&
            ctx1.first_dummy_index_ordinal() ==
                ctx2.first_dummy_index_ordinal() &&
-           ctx1.index_space_registry()->spaces() ==
-               ctx2.index_space_registry()->spaces() &&
            ctx1.canonicalization_options() == ctx2.canonicalization_options() &&
            ctx1.braket_typesetting() == ctx2.braket_typesetting() &&
            ctx1.braket_slot_typesetting() == ctx2.braket_slot_typesetting() &&
-           *ctx1.index_space_registry() == *ctx2.index_space_registry();
+           same_isr;
+  }
 }
 
 bool operator!=(const Context& ctx1, const Context& ctx2) {
@@ -136,8 +141,10 @@ Context::Context(Options options)
 
 Context Context::clone() const {
   Context ctx(*this);
-  ctx.idx_space_reg_ =
-      std::make_shared<IndexSpaceRegistry>(idx_space_reg_->clone());
+  if (idx_space_reg_) {
+    ctx.idx_space_reg_ =
+        std::make_shared<IndexSpaceRegistry>(idx_space_reg_->clone());
+  }
   return ctx;
 }
 
-- 
2.43.0


From 7deda2d801a401c9bf40a48398c77a5250dbbd8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:40 +0000
Subject: [PATCH 65/75] fix: canonicalization options that differ in named
 indices are not equal

---
 SeQuant/core/options.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/SeQuant/core/options.hpp b/SeQuant/core/options.hpp
index c0e2d44..1d39d79 100644
--- a/SeQuant/core/options.hpp
+++ b/SeQuant/core/options.hpp
@@ -72,9 +72,10 @@ struct CanonicalizeOptions {
   CanonicalizeOptions copy_and_set(std::optional<container::set<Index>>) const;
   CanonicalizeOptions copy_and_set(IgnoreNamedIndexLabel) const;
 
-  friend constexpr bool operator==(const CanonicalizeOptions& a,
-                                   const CanonicalizeOptions& b) {
-    return a.method == b.method;
+  friend bool operator==(const CanonicalizeOptions& a,
+                         const CanonicalizeOptions& b) {
+    return a.method == b.method && a.named_indices == b.named_indices &&
+           a.ignore_named_index_labels == b.ignore_named_index_labels;
   }
 };
 
@@ -84,8 +85,7 @@ struct SimplifyOptions : public CanonicalizeOptions {
   static SimplifyOptions default_options();
   SimplifyOptions(CanonicalizeOptions opts);
 
-  friend constexpr bool operator==(const SimplifyOptions& a,
-                                   const SimplifyOptions& b) {
+  friend bool operator==(const SimplifyOptions& a, const SimplifyOptions& b) {
     return static_cast<const CanonicalizeOptions&>(a) ==
            static_cast<const CanonicalizeOptions&>(b);
   }
-- 
2.43.0


From 76adadae0955ba642265324e1393199e26e1098e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:42 +0000
Subject: [PATCH 66/75] fix: LaTeX of negative integer costs has a single sign

---
 SeQuant/core/asy_cost.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SeQuant/core/asy_cost.cpp b/SeQuant/core/asy_cost.cpp
index 8fa8fbb..be14bf3 100644
--- a/SeQuant/core/asy_cost.cpp
+++ b/SeQuant/core/asy_cost.cpp
@@ -108,7 +108,7 @@ std::string AsyCost::AsyCostEntry::to_latex() const {
     auto abs_c = abs(prefactor_);
     oss << (prefactor_ < abs_c ? "- " : "");
     bool frac_mode = abs(denominator(prefactor_)) != 1;
-    if (!frac_mode && (abs_c != 1)) oss << numerator(prefactor_);
+    if (!frac_mode && (abs_c != 1)) oss << numerator(abs_c);
     if (frac_mode) {
       oss << "\\frac{"                   //
           << abs(numerator(prefactor_))  //
-- 
2.43.0


From 2b5b9f122e9d8652e7734ea659329c8c19e2aa9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:42 +0000
Subject: [PATCH 67/75] fix: zero times a cost is the zero cost

---
 SeQuant/core/asy_cost.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/SeQuant/core/asy_cost.cpp b/SeQuant/core/asy_cost.cpp
index be14bf3..bed19cf 100644
--- a/SeQuant/core/asy_cost.cpp
+++ b/SeQuant/core/asy_cost.cpp
@@ -237,6 +237,7 @@ AsyCost operator-(AsyCost const &lhs, AsyCost const &rhs) {
 }
 
 AsyCost operator*(AsyCost const &cost, rational scale) {
+  if (scale == 0) return AsyCost::zero();
   auto ac = cost;
   for (auto &c : ac.cost_) c.set_prefactor(c.prefactor() * scale);
   return ac;
-- 
2.43.0


From cc3b1f83063b9fe0fb53e026266349d6a67a940a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:42 +0000
Subject: [PATCH 68/75] fix: diff of expressions of different sizes

---
 SeQuant/core/utility/expr.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/SeQuant/core/utility/expr.cpp b/SeQuant/core/utility/expr.cpp
index 00566a9..03135dc 100644
--- a/SeQuant/core/utility/expr.cpp
+++ b/SeQuant/core/utility/expr.cpp
@@ -235,10 +235,10 @@ std::string diff(const Expr &lhs, const Expr &rhs) {
   auto lhs_begin = std::begin(lhs);
   auto lhs_end = std::end(lhs);
   auto rhs_begin = std::begin(rhs);
-  [[maybe_unused]] auto rhs_end = std::end(rhs);
+  auto rhs_end = std::end(rhs);
 
   auto lhs_size = std::distance(lhs_begin, lhs_end);
-  auto rhs_size = std::distance(lhs_begin, lhs_end);
+  auto rhs_size = std::distance(rhs_begin, rhs_end);
 
   if (lhs_size != rhs_size) {
     return "Sizes differ: " + std::to_string(lhs_size) + " vs. " +
-- 
2.43.0


From 830181ac642a34007061c2114159c3599b16f1b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:42 +0000
Subject: [PATCH 69/75] fix: is_valid counts indices repeated within a tensor

---
 SeQuant/core/utility/expr.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/SeQuant/core/utility/expr.cpp b/SeQuant/core/utility/expr.cpp
index 03135dc..9436931 100644
--- a/SeQuant/core/utility/expr.cpp
+++ b/SeQuant/core/utility/expr.cpp
@@ -339,6 +339,13 @@ bool is_valid(const Expr &expr, std::string *msg) {
     // Check that indices don't appear more than 2 times
     container::map<Index, std::size_t> index_counter;
     for (const ExprPtr &factor : prod.factors()) {
+      if (factor->is<Tensor>()) {
+        // also count the indices that are repeated within the tensor
+        for (const Index &idx : factor->as<Tensor>().const_indices()) {
+          index_counter[idx] += 1;
+        }
+        continue;
+      }
       IndexGroups<> indices = get_unique_indices(*factor);
       for (const Index &idx :
            ranges::views::concat(indices.bra, indices.ket, indices.aux)) {
-- 
2.43.0


From dbb5263d27bd06a96d3778872b37303bac45ed50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:42 +0000
Subject: [PATCH 70/75] fix: replace adapts the indices also if the whole
 expression matches

---
 SeQuant/core/utility/expr.hpp | 66 +++++++++++++++++------------------
 1 file changed, 33 insertions(+), 33 deletions(-)

diff --git a/SeQuant/core/utility/expr.hpp b/SeQuant/core/utility/expr.hpp
index 95e6061..9264143 100644
--- a/SeQuant/core/utility/expr.hpp
+++ b/SeQuant/core/utility/expr.hpp
@@ -119,44 +119,44 @@ ExprPtr &replace(ExprPtr &expr, const ExprPtr &target,
     }
   }
 
+  // @returns the expression to be substituted for the matching expression
+  auto replacement_for = [&](const ExprPtr &current) -> ExprPtr {
+    if (index_mapping.empty()) {
+      return replacement->clone();
+    }
+
+    // Ensure that all indices shared between target and replacement
+    // will also be shared with current and the actual replacement we
+    // want to use for it (this becomes relevant if cmp compares only
+    // equivalence instead of equality)
+    SEQUANT_ASSERT(current->is<AbstractTensor>());
+    SEQUANT_ASSERT(target->is<AbstractTensor>());
+
+    const auto &current_tensor = current->as<AbstractTensor>();
+    const auto &target_tensor = target->as<AbstractTensor>();
+
+    SEQUANT_ASSERT(num_slots(current_tensor) == num_slots(target_tensor));
+
+    auto current_slots = slots(current_tensor);
+    auto target_slots = slots(target_tensor);
+
+    container::map<Index, Index> replacements;
+    for (std::size_t i : index_mapping) {
+      if (target_slots[i] != current_slots[i]) {
+        replacements[target_slots[i]] = current_slots[i];
+      }
+    }
+
+    return transform_expr(replacement, replacements);
+  };
+
   if (cmp(*expr, *target)) {
-    expr = replacement->clone();
+    expr = replacement_for(expr);
   } else {
     expr->visit(
         [&](ExprPtr &current) {
           if (cmp(*current, *target)) {
-            ExprPtr repl;
-
-            if (index_mapping.empty()) {
-              repl = replacement->clone();
-            } else {
-              // Ensure that all indices shared between target and replacement
-              // will also be shared with current and the actual replacement we
-              // want to use for it (this becomes relevant if cmp compares only
-              // equivalence instead of equality)
-              SEQUANT_ASSERT(current->is<AbstractTensor>());
-              SEQUANT_ASSERT(target->is<AbstractTensor>());
-
-              const auto &current_tensor = current->as<AbstractTensor>();
-              const auto &target_tensor = target->as<AbstractTensor>();
-
-              SEQUANT_ASSERT(num_slots(current_tensor) ==
-                             num_slots(target_tensor));
-
-              auto current_slots = slots(current_tensor);
-              auto target_slots = slots(target_tensor);
-
-              container::map<Index, Index> replacements;
-              for (std::size_t i : index_mapping) {
-                if (target_slots[i] != current_slots[i]) {
-                  replacements[target_slots[i]] = current_slots[i];
-                }
-              }
-
-              repl = transform_expr(replacement, replacements);
-            }
-
-            current = std::move(repl);
+            current = replacement_for(current);
           }
         },
         /*only_atoms*/ true);
-- 
2.43.0


From f9624aa3a50a5a5e7831fa32160a944b2ab80152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:42 +0000
Subject: [PATCH 71/75] fix: null indices are not among the unique indices of a
 tensor

---
 SeQuant/core/utility/indices.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/SeQuant/core/utility/indices.hpp b/SeQuant/core/utility/indices.hpp
index 4fabd4a..b57e069 100644
--- a/SeQuant/core/utility/indices.hpp
+++ b/SeQuant/core/utility/indices.hpp
@@ -146,6 +146,7 @@ IndexGroups<Container> get_unique_indices(const Tensor& tensor) {
   std::set<Index> encounteredIndices;
 
   for (const Index& current : tensor.bra()) {
+    if (!current.nonnull()) continue;
     if (encounteredIndices.find(current) == encounteredIndices.end()) {
       groups.bra.push_back(current);
       encounteredIndices.insert(current);
@@ -157,6 +158,7 @@ IndexGroups<Container> get_unique_indices(const Tensor& tensor) {
   }
 
   for (const Index& current : tensor.ket()) {
+    if (!current.nonnull()) continue;
     if (encounteredIndices.find(current) == encounteredIndices.end()) {
       groups.ket.push_back(current);
       encounteredIndices.insert(current);
@@ -167,6 +169,7 @@ IndexGroups<Container> get_unique_indices(const Tensor& tensor) {
   }
 
   for (const Index& current : tensor.aux()) {
+    if (!current.nonnull()) continue;
     if (encounteredIndices.find(current) == encounteredIndices.end()) {
       groups.aux.push_back(current);
       encounteredIndices.insert(current);
-- 
2.43.0


From 644ab727ccd48a6c50c66837a1f405e554109977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:42 +0000
Subject: [PATCH 72/75] fix: permutation_parity follows the cycles and restores
 its argument

---
 SeQuant/core/utility/permutation.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/SeQuant/core/utility/permutation.hpp b/SeQuant/core/utility/permutation.hpp
index 695a7c2..41be59e 100644
--- a/SeQuant/core/utility/permutation.hpp
+++ b/SeQuant/core/utility/permutation.hpp
@@ -129,16 +129,17 @@ int permutation_parity(std::span<T> p, bool overwrite = false) {
   for (std::size_t k = 0; k != N; ++k) {
     if (p[k] >= N) continue;
     std::size_t i = k;
-    std::size_t cycle_length = 1;
+    std::size_t cycle_length = 0;
     do {
-      i = p[i];
+      const std::size_t next = p[i];
       p[i] += N;
+      i = next;
       ++cycle_length;
     } while (p[i] < N);
     if (cycle_length % 2 == 0) parity *= -1;
   }
 
-  if (overwrite) {
+  if (!overwrite) {
     std::ranges::for_each(p, [N](auto& e) { e -= N; });
   }
 
-- 
2.43.0


From d7a70eb43b3d63b88f87062a1d9a7d522921ce9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:42 +0000
Subject: [PATCH 73/75] fix: density_fit uses unused auxiliary indices and
 reaches nested expressions

---
 SeQuant/domain/mbpt/rules/df.cpp | 89 ++++++++++++++++++++------------
 1 file changed, 57 insertions(+), 32 deletions(-)

diff --git a/SeQuant/domain/mbpt/rules/df.cpp b/SeQuant/domain/mbpt/rules/df.cpp
index e32f99d..4feaa30 100644
--- a/SeQuant/domain/mbpt/rules/df.cpp
+++ b/SeQuant/domain/mbpt/rules/df.cpp
@@ -4,13 +4,17 @@
 
 #include <SeQuant/domain/mbpt/rules/df.hpp>
 
+#include <SeQuant/core/container.hpp>
 #include <SeQuant/core/expr.hpp>
+#include <SeQuant/core/index.hpp>
 #include <SeQuant/core/space.hpp>
 #include <SeQuant/core/utility/macros.hpp>
 
 #include <range/v3/range/operations.hpp>
 #include <range/v3/view/transform.hpp>
 
+#include <cstddef>
+#include <functional>
 #include <string_view>
 
 namespace sequant::mbpt {
@@ -51,29 +55,17 @@ ExprPtr density_fit_impl(Tensor const& tnsr, Index const& aux_idx,
   return t1 * t2;
 }
 
-ExprPtr density_fit(ExprPtr const& expr, IndexSpace aux_space,
-                    std::wstring_view tensor_label,
-                    std::wstring_view factor_label) {
-  using ranges::views::transform;
+namespace {
 
-  auto process_tensor = [&](const Tensor& tensor,
-                            std::size_t idx_ordinal) -> ExprPtr {
+/// @param next_aux_idx yields auxiliary indices that are not in use yet
+ExprPtr density_fit(ExprPtr const& expr, std::wstring_view tensor_label,
+                    std::wstring_view factor_label,
+                    std::function<Index()> const& next_aux_idx) {
+  if (expr->is<Tensor>()) {
+    auto const& tensor = expr->as<Tensor>();
     if (tensor.label() == tensor_label && tensor.bra_net_rank() == 2 &&
         tensor.ket_net_rank() == 2 && tensor.aux_rank() == 0) {
-      return density_fit_impl(tensor, Index(aux_space, idx_ordinal),
-                              factor_label);
-    }
-
-    return nullptr;
-  };
-
-  if (expr->is<Sum>()) {
-    return ex<Sum>(*expr | transform([&](auto&& x) {
-      return density_fit(x, aux_space, tensor_label, factor_label);
-    }));
-  } else if (expr->is<Tensor>()) {
-    if (auto factorized = process_tensor(expr->as<Tensor>(), 1); factorized) {
-      return factorized;
+      return density_fit_impl(tensor, next_aux_idx(), factor_label);
     }
     return expr;
   } else if (expr->is<Product>()) {
@@ -81,21 +73,54 @@ ExprPtr density_fit(ExprPtr const& expr, IndexSpace aux_space,
 
     Product result;
     result.scale(prod.scalar());
-    size_t aux_ix = 0;
-    for (auto&& f : prod.factors())
-      if (f.is<Tensor>()) {
-        if (auto factorized = process_tensor(f->as<Tensor>(), ++aux_ix);
-            factorized) {
-          result.append(1, std::move(factorized), Product::Flatten::Yes);
-        } else {
-          result.append(1, f, Product::Flatten::No);
-        }
-      } else {
-        result.append(1, f, Product::Flatten::No);
-      }
+    for (auto&& f : prod.factors()) {
+      auto factorized =
+          density_fit(f, tensor_label, factor_label, next_aux_idx);
+      result.append(
+          1, std::move(factorized),
+          f->is<Product>() ? Product::Flatten::No : Product::Flatten::Yes);
+    }
     return ex<Product>(std::move(result));
+  } else if (expr->is<Sum>()) {
+    Sum result;
+    for (auto&& x : *expr)
+      result.append(density_fit(x, tensor_label, factor_label, next_aux_idx));
+    return ex<Sum>(std::move(result));
   } else
     return expr;
 }
 
+}  // namespace
+
+ExprPtr density_fit(ExprPtr const& expr, IndexSpace aux_space,
+                    std::wstring_view tensor_label,
+                    std::wstring_view factor_label) {
+  using ranges::views::transform;
+
+  // the terms of a sum do not share auxiliary indices
+  if (expr->is<Sum>()) {
+    return ex<Sum>(*expr | transform([&](auto&& x) {
+      return density_fit(x, aux_space, tensor_label, factor_label);
+    }));
+  }
+
+  // indices of aux_space that are in use already
+  container::set<Index> used;
+  expr->visit(
+      [&](const ExprPtr& x) {
+        if (!x->is<Tensor>()) return;
+        for (auto&& idx : x->as<Tensor>().const_indices())
+          if (idx.space() == aux_space) used.insert(idx);
+      },
+      /* atoms_only = */ true);
+  std::function<Index()> next_aux_idx = [&,
+                                         ordinal = std::size_t{0}]() mutable {
+    Index idx(aux_space, ++ordinal);
+    while (used.contains(idx)) idx = Index(aux_space, ++ordinal);
+    return idx;
+  };
+
+  return density_fit(expr, tensor_label, factor_label, next_aux_idx);
+}
+
 }  // namespace sequant::mbpt
-- 
2.43.0


From 7900c41bb3573ec2a998fee50f041c091810fc7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:42 +0000
Subject: [PATCH 74/75] fix: tensor_hypercontract uses unused auxiliary
 indices, reaches nested expressions and leaves other tensors alone

---
 SeQuant/domain/mbpt/rules/thc.cpp | 96 +++++++++++++++++++++----------
 1 file changed, 65 insertions(+), 31 deletions(-)

diff --git a/SeQuant/domain/mbpt/rules/thc.cpp b/SeQuant/domain/mbpt/rules/thc.cpp
index 7fcfbf5..255d18c 100644
--- a/SeQuant/domain/mbpt/rules/thc.cpp
+++ b/SeQuant/domain/mbpt/rules/thc.cpp
@@ -4,13 +4,17 @@
 
 #include <SeQuant/domain/mbpt/rules/thc.hpp>
 
+#include <SeQuant/core/container.hpp>
 #include <SeQuant/core/expr.hpp>
+#include <SeQuant/core/index.hpp>
 #include <SeQuant/core/space.hpp>
 #include <SeQuant/core/utility/macros.hpp>
 
 #include <range/v3/range/operations.hpp>
 #include <range/v3/view/transform.hpp>
 
+#include <cstddef>
+#include <functional>
 #include <string_view>
 
 namespace sequant::mbpt {
@@ -45,50 +49,80 @@ ExprPtr tensor_hypercontract_impl(Tensor const& tnsr, Index const& aux_idx_1,
   return t1 * t2 * z * t3 * t4;
 }
 
+namespace {
+
+/// @param next_aux_idx yields auxiliary indices that are not in use yet
+ExprPtr tensor_hypercontract(ExprPtr const& expr,
+                             std::wstring_view tensor_label,
+                             std::wstring_view outer_factor_label,
+                             std::wstring_view core_tensor_label,
+                             std::function<Index()> const& next_aux_idx) {
+  if (expr->is<Tensor>()) {
+    auto const& tensor = expr->as<Tensor>();
+    if (tensor.label() == tensor_label && tensor.bra_net_rank() == 2 &&
+        tensor.ket_net_rank() == 2 && tensor.aux_rank() == 0) {
+      auto index1 = next_aux_idx();
+      auto index2 = next_aux_idx();
+      return tensor_hypercontract_impl(tensor, index1, index2,
+                                       outer_factor_label, core_tensor_label);
+    }
+    return expr;
+  } else if (expr->is<Product>()) {
+    auto const& prod = expr->as<Product>();
+
+    Product result;
+    result.scale(prod.scalar());
+    for (auto&& f : prod.factors()) {
+      auto factorized = tensor_hypercontract(
+          f, tensor_label, outer_factor_label, core_tensor_label, next_aux_idx);
+      result.append(
+          1, std::move(factorized),
+          f->is<Product>() ? Product::Flatten::No : Product::Flatten::Yes);
+    }
+    return ex<Product>(std::move(result));
+  } else if (expr->is<Sum>()) {
+    Sum result;
+    for (auto&& x : *expr)
+      result.append(tensor_hypercontract(x, tensor_label, outer_factor_label,
+                                         core_tensor_label, next_aux_idx));
+    return ex<Sum>(std::move(result));
+  } else
+    return expr;
+}
+
+}  // namespace
+
 ExprPtr tensor_hypercontract(ExprPtr const& expr, IndexSpace aux_space,
                              std::wstring_view tensor_label,
                              std::wstring_view outer_factor_label,
                              std::wstring_view core_tensor_label) {
   using ranges::views::transform;
 
+  // the terms of a sum do not share auxiliary indices
   if (expr->is<Sum>())
     return ex<Sum>(*expr | transform([&](auto&& x) {
       return tensor_hypercontract(x, aux_space, tensor_label,
                                   outer_factor_label, core_tensor_label);
     }));
 
-  else if (expr->is<Tensor>()) {
-    auto const& tensor = expr->as<Tensor>();
-    if (tensor.label() == tensor_label  //
-        && tensor.bra_rank() == 2       //
-        && tensor.ket_rank() == 2)
-      return tensor_hypercontract_impl(tensor, Index(aux_space, 1),
-                                       Index(aux_space, 2), outer_factor_label,
-                                       core_tensor_label);
-    else
-      return expr;
-  } else if (expr->is<Product>()) {
-    auto const& prod = expr->as<Product>();
+  // indices of aux_space that are in use already
+  container::set<Index> used;
+  expr->visit(
+      [&](const ExprPtr& x) {
+        if (!x->is<Tensor>()) return;
+        for (auto&& idx : x->as<Tensor>().const_indices())
+          if (idx.space() == aux_space) used.insert(idx);
+      },
+      /* atoms_only = */ true);
+  std::function<Index()> next_aux_idx = [&,
+                                         ordinal = std::size_t{0}]() mutable {
+    Index idx(aux_space, ++ordinal);
+    while (used.contains(idx)) idx = Index(aux_space, ++ordinal);
+    return idx;
+  };
 
-    Product result;
-    result.scale(prod.scalar());
-    size_t aux_ix = 0;
-    for (auto&& f : prod.factors()) {
-      if (f->is<Tensor>() && f->as<Tensor>().label() == tensor_label) {
-        auto const& g = f->as<Tensor>();
-        auto index1 = Index(aux_space, ++aux_ix);
-        auto index2 = Index(aux_space, ++aux_ix);
-        auto g_thc = tensor_hypercontract_impl(
-            g, index1, index2, outer_factor_label, core_tensor_label);
-        result.append(1, std::move(g_thc), Product::Flatten::Yes);
-      } else {
-        result.append(1, f, Product::Flatten::No);
-      }
-    }
-    return ex<Product>(std::move(result));
-  } else {
-    return expr;
-  }
+  return tensor_hypercontract(expr, tensor_label, outer_factor_label,
+                              core_tensor_label, next_aux_idx);
 }
 
 }  // namespace sequant::mbpt
-- 
2.43.0


From 0ea8dca66b5ff497e5b72803d52b4e3e30947009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:42 +0000
Subject: [PATCH 75/75] fix: csv_transform of overlaps sums over an unused
 index of the target basis

---
 SeQuant/domain/mbpt/rules/csv.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/SeQuant/domain/mbpt/rules/csv.cpp b/SeQuant/domain/mbpt/rules/csv.cpp
index 29f8918..483aa3f 100644
--- a/SeQuant/domain/mbpt/rules/csv.cpp
+++ b/SeQuant/domain/mbpt/rules/csv.cpp
@@ -54,9 +54,7 @@ ExprPtr csv_transform_impl(Tensor const& tnsr, const IndexSpace& csv_basis,
     SEQUANT_ASSERT(bra_has_proto_indices || ket_has_proto_indices);
 
     if (bra_has_proto_indices && ket_has_proto_indices) {
-      auto dummy_idx = ordinal_compare(bra_idx, ket_idx)   //
-                           ? bra_idx.drop_proto_indices()  //
-                           : ket_idx.drop_proto_indices();
+      const auto dummy_idx = Index::make_tmp_index(csv_basis);
 
       return ex<Product>(
           1,
-- 
2.43.0

