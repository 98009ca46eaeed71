From bbc7e484d9dfc613d63e3ed15ebff957d66c129c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:13 +0000
Subject: [PATCH 01/27] fix: propagate the input direction through forward-mode
 erf

---
 include/fastad_bits/forward/core/forward.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fastad_bits/forward/core/forward.hpp b/include/fastad_bits/forward/core/forward.hpp
index 1e9aa5a..68de289 100644
--- a/include/fastad_bits/forward/core/forward.hpp
+++ b/include/fastad_bits/forward/core/forward.hpp
@@ -134,7 +134,7 @@ FORWARD_UNARY_FUNC(sqrt, tmp, x.get_adjoint() / (2 * tmp),
         auto tmp = std::sqrt(x.get_value());)
 // ad::erf(core::ADForward)
 FORWARD_UNARY_FUNC(erf, std::erf(x.get_value()), 
-        two_over_sqrt_pi * std::exp(-t_sq), 
+        two_over_sqrt_pi * std::exp(-t_sq) * x.get_adjoint(), 
         static constexpr double two_over_sqrt_pi =
                 1.1283791670955126;
         auto t_sq = x.get_value() * x.get_value();)
-- 
2.43.0


From 2eb52a47f966d4795e4b0e5fb4a87979f66c198d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:13 +0000
Subject: [PATCH 02/27] fix: make sigmoid usable on scalars and its derivative
 immune to overflow

---
 include/fastad_bits/reverse/core/unary.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fastad_bits/reverse/core/unary.hpp b/include/fastad_bits/reverse/core/unary.hpp
index 653124c..359ff05 100644
--- a/include/fastad_bits/reverse/core/unary.hpp
+++ b/include/fastad_bits/reverse/core/unary.hpp
@@ -273,8 +273,8 @@ UNARY_STRUCT(Erf,
 UNARY_STRUCT(Sigmoid, 
              USING_STD_AD_EIGEN(exp);
              return 1/(1+exp(-x));, 
-             static_cast<void>(x); 
-             return seed * exp(-x)/((exp(-x)+1)*(exp(-x)+1)););
+             USING_STD_AD_EIGEN(exp);
+             return seed * f / (1+exp(x)););
 
 // sinh
 UNARY_STRUCT(Sinh, 
-- 
2.43.0


From 5eee23635a59884b9b10cdaf76f9e23128f5347a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:43 +0000
Subject: [PATCH 03/27] fix: let sinh, cosh and tanh be used on scalar
 expressions

---
 include/fastad_bits/reverse/core/unary.hpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/include/fastad_bits/reverse/core/unary.hpp b/include/fastad_bits/reverse/core/unary.hpp
index 359ff05..58c5856 100644
--- a/include/fastad_bits/reverse/core/unary.hpp
+++ b/include/fastad_bits/reverse/core/unary.hpp
@@ -278,20 +278,22 @@ UNARY_STRUCT(Sigmoid,
 
 // sinh
 UNARY_STRUCT(Sinh, 
-             //USING_STD_AD_EIGEN(tanh);
-             return Eigen::sinh(x);, 
+             using std::sinh; using Eigen::sinh;
+             return sinh(x);, 
              static_cast<void>(f); 
-             return seed *(Eigen::cosh(x)););
+             using std::cosh; using Eigen::cosh;
+             return seed *(cosh(x)););
 // cosh
 UNARY_STRUCT(Cosh, 
-             //USING_STD_AD_EIGEN(tanh);
-             return Eigen::cosh(x);, 
+             using std::cosh; using Eigen::cosh;
+             return cosh(x);, 
              static_cast<void>(f); 
-             return seed *(Eigen::sinh(x)););			 
+             using std::sinh; using Eigen::sinh;
+             return seed *(sinh(x)););			 
 // tanh
 UNARY_STRUCT(Tanh, 
-             //USING_STD_AD_EIGEN(tanh);
-             return Eigen::tanh(x);, 
+             using std::tanh; using Eigen::tanh;
+             return tanh(x);, 
              static_cast<void>(f); 
              return seed *(1-f*f););
 			 
-- 
2.43.0


From 7e546c9dac5c91619ae8e17033a06310cdd31bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:43 +0000
Subject: [PATCH 04/27] fix: let transpose be applied to constants

---
 include/fastad_bits/reverse/core/transpose.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fastad_bits/reverse/core/transpose.hpp b/include/fastad_bits/reverse/core/transpose.hpp
index 47d4839..be59583 100644
--- a/include/fastad_bits/reverse/core/transpose.hpp
+++ b/include/fastad_bits/reverse/core/transpose.hpp
@@ -70,7 +70,7 @@ inline auto transpose(const T &x) {
     // optimization for when expression is constant
     if constexpr (util::is_constant_v<expr_t>) {
         static_assert(!util::is_scl_v<expr_t>);
-        using var_t = util::constant_var_t<value_t, ad::scl>;
+        using var_t = util::constant_var_t<value_t, ad::mat>;
         var_t out = expr.feval().transpose();
         return ad::constant(out);
     } else {
-- 
2.43.0


From bab2098e76981929758f7b8890de7aaaf48900b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:43 +0000
Subject: [PATCH 05/27] fix: cache the value of if_else so that it can be used
 inside other expressions

---
 include/fastad_bits/reverse/core/if_else.hpp | 27 +++++++++++++++-----
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/include/fastad_bits/reverse/core/if_else.hpp b/include/fastad_bits/reverse/core/if_else.hpp
index beade43..d0a2d24 100644
--- a/include/fastad_bits/reverse/core/if_else.hpp
+++ b/include/fastad_bits/reverse/core/if_else.hpp
@@ -75,10 +75,19 @@ public:
         assert(if_expr.cols() == else_expr.cols());
     }
 
-    const auto& feval()
+    /**
+     * Forward evaluates the condition and then only the chosen branch.
+     * The chosen value is cached since other expressions may use the current node's value
+     * (the value of the branch not chosen may be undefined).
+     */
+    const var_t& feval()
     {
-        return cond_expr_.feval() ? 
-                if_expr_.feval() : else_expr_.feval();
+        if (cond_expr_.feval()) {
+            this->get() = if_expr_.feval();
+        } else {
+            this->get() = else_expr_.feval();
+        }
+        return this->get();
     }
 
     template <class T>
@@ -95,18 +104,24 @@ public:
     {
         begin = cond_expr_.bind_cache(begin);
         begin = if_expr_.bind_cache(begin);
-        return else_expr_.bind_cache(begin);
+        begin = else_expr_.bind_cache(begin);
+        auto adj = begin.adj;
+        begin.adj = nullptr;
+        begin = value_adj_view_t::bind(begin);
+        begin.adj = adj;
+        return begin;
     }
 
     util::SizePack bind_cache_size() const 
     { 
-        return cond_expr_.bind_cache_size() +
+        return single_bind_cache_size() +
+                cond_expr_.bind_cache_size() +
                 if_expr_.bind_cache_size() + 
                 else_expr_.bind_cache_size();
     }
 
     util::SizePack single_bind_cache_size() const
-    { return {0,0}; }
+    { return {this->size(), 0}; }
 
 private:
     cond_t cond_expr_;
-- 
2.43.0


From 93e742d245b3643a080b51961334e09e813732c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:43 +0000
Subject: [PATCH 06/27] fix: do not let a placeholder strip the saved left-hand
 side of op-assignments

---
 include/fastad_bits/reverse/core/eq.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/fastad_bits/reverse/core/eq.hpp b/include/fastad_bits/reverse/core/eq.hpp
index 5503a89..bdccc5d 100644
--- a/include/fastad_bits/reverse/core/eq.hpp
+++ b/include/fastad_bits/reverse/core/eq.hpp
@@ -287,14 +287,17 @@ public:
 
     util::SizePack bind_cache_size() const 
     {
-        return single_bind_cache_size() + 
+        return util::SizePack(cache_.size(), cache_.size()) + 
                 expr_.bind_cache_size(); 
     }
 
+    /**
+     * The node itself only views the values of the variable viewer.
+     * The memory for the previous LHS must not be counted here
+     * since EqNode takes away this amount when it rebinds the root of its expression.
+     */
     util::SizePack single_bind_cache_size() const
-    {
-        return {cache_.size(), cache_.size()}; 
-    }
+    { return {0,0}; }
 
 private:
     value_adj_view_t cache_;
-- 
2.43.0


From c8f6eeed9adb6ce082cce3bd8eb7e2de29545f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:43 +0000
Subject: [PATCH 07/27] fix: do not let a placeholder strip the adjoint cache
 of element-wise prod

---
 include/fastad_bits/reverse/core/prod.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/fastad_bits/reverse/core/prod.hpp b/include/fastad_bits/reverse/core/prod.hpp
index 12621d1..2bd0c0c 100644
--- a/include/fastad_bits/reverse/core/prod.hpp
+++ b/include/fastad_bits/reverse/core/prod.hpp
@@ -230,12 +230,13 @@ public:
     util::SizePack bind_cache_size() const 
     { 
         return expr_.bind_cache_size() + 
+                util::SizePack(0, adj_cache_.size()) +
                 single_bind_cache_size();
     }
 
     util::SizePack single_bind_cache_size() const
     { 
-        return {this->size(), expr_.size()}; 
+        return {this->size(), 0}; 
     }
 
 private:
-- 
2.43.0


From 3099ec69a35f6da526ded8a546b9a62bdf9e55e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:43 +0000
Subject: [PATCH 08/27] fix: allow a left operand whose value type differs from
 the common value type

---
 include/fastad_bits/reverse/core/binary.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fastad_bits/reverse/core/binary.hpp b/include/fastad_bits/reverse/core/binary.hpp
index a738294..ffb7f4c 100644
--- a/include/fastad_bits/reverse/core/binary.hpp
+++ b/include/fastad_bits/reverse/core/binary.hpp
@@ -37,7 +37,7 @@ template <class Binary
         , class LeftExprType
         , class RightExprType>
 struct BinaryNode:
-    ValueAdjView<typename util::expr_traits<LeftExprType>::value_t,
+    ValueAdjView<util::common_value_t<LeftExprType, RightExprType>,
                  util::max_shape_t<typename util::shape_traits<LeftExprType>::shape_t,
                                    typename util::shape_traits<RightExprType>::shape_t>
                 >,
-- 
2.43.0


From 5215113c6a55c0e9d7b5b7be447f74f532359e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:51 +0000
Subject: [PATCH 09/27] fix: give Constant the size() that expressions and
 ConstantView have

---
 include/fastad_bits/reverse/core/constant.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/fastad_bits/reverse/core/constant.hpp b/include/fastad_bits/reverse/core/constant.hpp
index 0f2108e..bacbe70 100644
--- a/include/fastad_bits/reverse/core/constant.hpp
+++ b/include/fastad_bits/reverse/core/constant.hpp
@@ -146,6 +146,8 @@ public:
         }
     }
 
+    size_t size() const { return rows() * cols(); }
+
 private:
     var_t c_;
 };
-- 
2.43.0


From c067d6d072828549ed6e5cb9ed2e205e299f2f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:51 +0000
Subject: [PATCH 10/27] fix: multiply the cauchy gradient by the seed exactly
 once

---
 include/fastad_bits/reverse/stat/cauchy.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/fastad_bits/reverse/stat/cauchy.hpp b/include/fastad_bits/reverse/stat/cauchy.hpp
index 2e89726..1027014 100644
--- a/include/fastad_bits/reverse/stat/cauchy.hpp
+++ b/include/fastad_bits/reverse/stat/cauchy.hpp
@@ -228,8 +228,8 @@ public:
 
         auto diff = (x - x0);
         auto dx = (-2. * seed) * diff / (gamma_sq + diff.square());
-        value_t dx0 = (-seed) * dx.sum();
-        value_t dgamma = (-seed/gamma) * ((dx * diff).sum() + x.size());
+        value_t dx0 = -dx.sum();
+        value_t dgamma = (-1./gamma) * ((dx * diff).sum() + seed * x.size());
         
         scale_.beval(dgamma);
         loc_.beval(dx0);
@@ -297,8 +297,8 @@ public:
 
         auto diff = x - x0;
         auto dx = (-2. * seed) * diff / (gamma.square() + diff.square());
-        value_t dx0 = (-seed) * dx.sum();
-        auto dgamma = (-seed) * (dx * diff + 1) / gamma;
+        value_t dx0 = -dx.sum();
+        auto dgamma = -(dx * diff + seed) / gamma;
 
         scale_.beval(dgamma);
         loc_.beval(dx0);
@@ -367,8 +367,8 @@ public:
 
         auto diff = (x - x0);
         auto dx = (-2. * seed) * diff / (gamma_sq + diff.square());
-        auto dx0 = (-seed) * dx;
-        value_t dgamma = (-seed/gamma) * ((dx * diff).sum() + x.size());
+        auto dx0 = -dx;
+        value_t dgamma = (-1./gamma) * ((dx * diff).sum() + seed * x.size());
 
         scale_.beval(dgamma);
         loc_.beval(dx0);
@@ -436,8 +436,8 @@ public:
 
         auto diff = (x - x0);
         auto dx = (-2. * seed) * diff / (gamma.square() + diff.square());
-        auto dx0 = (-seed) * dx;
-        auto dgamma = (-seed/gamma) * ((dx * diff) + 1);
+        auto dx0 = -dx;
+        auto dgamma = -(dx * diff + seed) / gamma;
 
         scale_.beval(dgamma);
         loc_.beval(dx0);
-- 
2.43.0


From 66c1db75569adf979048ef422c8ddd7266a22ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:51 +0000
Subject: [PATCH 11/27] fix: recheck the bounds of a constant uniform sample
 when a vector bound can change

---
 include/fastad_bits/reverse/stat/uniform.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/fastad_bits/reverse/stat/uniform.hpp b/include/fastad_bits/reverse/stat/uniform.hpp
index fb4ea17..b6dd90b 100644
--- a/include/fastad_bits/reverse/stat/uniform.hpp
+++ b/include/fastad_bits/reverse/stat/uniform.hpp
@@ -306,7 +306,8 @@ public:
                       util::is_constant_v<max_t>) {
             update_log_diff_cache();
         }
-        if constexpr (util::is_constant_v<x_t>) {
+        if constexpr (util::is_constant_v<x_t> &&
+                      util::is_constant_v<max_t>) {
             update_x_cache();
         }
     }
@@ -322,7 +323,8 @@ public:
             update_log_diff_cache();
         }
 
-        if constexpr (!util::is_constant_v<x_t>) {
+        if constexpr (!util::is_constant_v<x_t> ||
+                      !util::is_constant_v<max_t>) {
             update_x_cache();
         }
 
@@ -399,7 +401,8 @@ public:
                       util::is_constant_v<max_t>) {
             update_log_diff_cache();
         }
-        if constexpr (util::is_constant_v<x_t>) {
+        if constexpr (util::is_constant_v<x_t> &&
+                      util::is_constant_v<min_t>) {
             update_x_cache();
         }
     }
@@ -415,7 +418,8 @@ public:
             update_log_diff_cache();
         }
 
-        if constexpr (!util::is_constant_v<x_t>) {
+        if constexpr (!util::is_constant_v<x_t> ||
+                      !util::is_constant_v<min_t>) {
             update_x_cache();
         }
 
-- 
2.43.0


From e54a4c42b4a24ee1a579ed70a265cca2e04f790a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:51 +0000
Subject: [PATCH 12/27] fix: evaluate wishart with a constant x and a variable
 v

---
 include/fastad_bits/reverse/stat/wishart.hpp | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/include/fastad_bits/reverse/stat/wishart.hpp b/include/fastad_bits/reverse/stat/wishart.hpp
index 5d64c5a..7ed34b6 100644
--- a/include/fastad_bits/reverse/stat/wishart.hpp
+++ b/include/fastad_bits/reverse/stat/wishart.hpp
@@ -174,6 +174,8 @@ public:
             return this->get() = util::neg_inf<value_t>;
         }
 
+        xv_inv_ = x_.get() * v_inv_;
+
         value_t p = v_.rows();
         return this->get() = (n-p-1.) * log_x_det_ 
                               - 0.5 * xv_inv_.trace()
@@ -204,14 +206,11 @@ private:
     }
 
     void update_x_cache() {
-        if (is_v_pos_def_) {
-            x_llt_.compute(x_.get());
-            is_x_pos_def_ = (x_llt_.info() == Eigen::Success);
-            if (is_x_pos_def_) {
-                log_x_det_ = std::log(x_llt_.matrixL().determinant());
-                x_inv_ = x_llt_.solve(mat_t::Identity(x_.rows(), x_.cols()));
-                xv_inv_ = x_.get() * v_inv_;
-            }
+        x_llt_.compute(x_.get());
+        is_x_pos_def_ = (x_llt_.info() == Eigen::Success);
+        if (is_x_pos_def_) {
+            log_x_det_ = std::log(x_llt_.matrixL().determinant());
+            x_inv_ = x_llt_.solve(mat_t::Identity(x_.rows(), x_.cols()));
         }
     }
 
-- 
2.43.0


From 5b81db9ab0de63be1a286ea5ab66fbfc628afd80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:51 +0000
Subject: [PATCH 13/27] fix: compare the wishart degrees of freedom with the
 dimension as signed numbers

---
 include/fastad_bits/reverse/stat/wishart.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fastad_bits/reverse/stat/wishart.hpp b/include/fastad_bits/reverse/stat/wishart.hpp
index 7ed34b6..ee9c5f0 100644
--- a/include/fastad_bits/reverse/stat/wishart.hpp
+++ b/include/fastad_bits/reverse/stat/wishart.hpp
@@ -217,7 +217,7 @@ private:
     bool valid() { 
         return is_x_pos_def_ && 
                is_v_pos_def_ && 
-               (n_.get() + 1 > v_.rows());
+               (static_cast<value_t>(n_.get()) + 1 > static_cast<value_t>(v_.rows()));
     }
 
     using mat_t = Eigen::Matrix<value_t, Eigen::Dynamic, Eigen::Dynamic>;
-- 
2.43.0


From 50e955526e02655c9827f24751ec7329d698d4c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:51 +0000
Subject: [PATCH 14/27] fix: let sum and prod run over functors that return
 constant matrices

---
 include/fastad_bits/reverse/core/prod.hpp | 2 +-
 include/fastad_bits/reverse/core/sum.hpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fastad_bits/reverse/core/prod.hpp b/include/fastad_bits/reverse/core/prod.hpp
index 2bd0c0c..0c6382b 100644
--- a/include/fastad_bits/reverse/core/prod.hpp
+++ b/include/fastad_bits/reverse/core/prod.hpp
@@ -267,7 +267,7 @@ inline auto prod(Iter begin, Iter end, Lmda f)
 
     // optimized for f that returns a constant node
     if constexpr (util::is_constant_v<expr_t>) {
-        if (std::distance(begin, end) <= 0) return ad::constant(var_t(0));
+        if (std::distance(begin, end) <= 0) return ad::constant(var_t{});
         var_t prod = f(*begin).feval();     // value_t or Eigen::Matrix
         std::for_each(std::next(begin), end, 
                 [&](const auto& x) 
diff --git a/include/fastad_bits/reverse/core/sum.hpp b/include/fastad_bits/reverse/core/sum.hpp
index aba293a..08de6cd 100644
--- a/include/fastad_bits/reverse/core/sum.hpp
+++ b/include/fastad_bits/reverse/core/sum.hpp
@@ -223,7 +223,7 @@ inline auto sum(Iter begin, Iter end, Lmda&& f)
 
     // optimized for f that returns a constant node
     if constexpr (util::is_constant_v<expr_t>) {
-        if (std::distance(begin, end) <= 0) return ad::constant(var_t(0));
+        if (std::distance(begin, end) <= 0) return ad::constant(var_t{});
         var_t sum = f(*begin).feval(); 
         std::for_each(std::next(begin), end, 
                 [&](const auto& x) 
-- 
2.43.0


From 2c8ea747ed6c38e9bf3f94e5f4594e6f7e8afe4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:43 +0000
Subject: [PATCH 15/27] fix: do not return a view of the cache of a temporary
 bound expression

---
 include/fastad_bits/reverse/core/eval.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/fastad_bits/reverse/core/eval.hpp b/include/fastad_bits/reverse/core/eval.hpp
index 799dbac..542afe5 100644
--- a/include/fastad_bits/reverse/core/eval.hpp
+++ b/include/fastad_bits/reverse/core/eval.hpp
@@ -27,10 +27,14 @@ inline auto evaluate(core::ExprBind<ExprType>& expr)
     return expr.get().feval();
 }
 
+// Returns a copy of the value since the cache owned by expr does not outlive the call.
 template <class ExprType>
 inline auto evaluate(core::ExprBind<ExprType>&& expr)
 {
-    return expr.get().feval();
+    using traits_t = util::expr_traits<ExprType>;
+    using plain_t = util::constant_var_t<typename traits_t::value_t,
+                                         typename traits_t::shape_t>;
+    return plain_t(expr.get().feval());
 }
 
 /* 
@@ -149,7 +153,11 @@ template <class ExprType
 inline auto autodiff(core::ExprBind<ExprType>&& expr,
                      const Eigen::ArrayBase<T>& seed)
 {
-    return autodiff(expr.get(), seed);
+    // copy the value since the cache owned by expr does not outlive the call
+    using traits_t = util::expr_traits<ExprType>;
+    using plain_t = util::constant_var_t<typename traits_t::value_t,
+                                         typename traits_t::shape_t>;
+    return plain_t(autodiff(expr.get(), seed));
 }
 
 } // namespace ad
-- 
2.43.0


From b03995b6b22008bf3ecb845d8beadf4af4ca8641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:43 +0000
Subject: [PATCH 16/27] fix: let evaluate_adj take a bound multi-dimensional
 expression by reference

---
 include/fastad_bits/reverse/core/eval.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/fastad_bits/reverse/core/eval.hpp b/include/fastad_bits/reverse/core/eval.hpp
index 542afe5..01cb113 100644
--- a/include/fastad_bits/reverse/core/eval.hpp
+++ b/include/fastad_bits/reverse/core/eval.hpp
@@ -68,6 +68,14 @@ evaluate_adj(core::ExprBind<ExprType>& expr,
     evaluate_adj(expr.get(), seed);
 }
 
+template <class ExprType, class T>
+inline std::enable_if_t<!util::is_scl_v<std::decay_t<ExprType>>> 
+evaluate_adj(core::ExprBind<ExprType>& expr, 
+             const Eigen::ArrayBase<T>& seed)
+{
+    evaluate_adj(expr.get(), seed);
+}
+
 template <class ExprType, class T>
 inline std::enable_if_t<!util::is_scl_v<std::decay_t<ExprType>>> 
 evaluate_adj(core::ExprBind<ExprType>&& expr, 
-- 
2.43.0


From abb611366216ef3393bd021a20b1820e978d0cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:43 +0000
Subject: [PATCH 17/27] fix: evaluate the left seed before a right operand that
 modifies variables is back-evaluated

---
 include/fastad_bits/reverse/core/binary.hpp | 17 +++++++++++++++--
 include/fastad_bits/reverse/core/eq.hpp     |  3 ++-
 include/fastad_bits/util/value.hpp          | 15 +++++++++++++++
 3 files changed, 32 insertions(+), 3 deletions(-)

diff --git a/include/fastad_bits/reverse/core/binary.hpp b/include/fastad_bits/reverse/core/binary.hpp
index ffb7f4c..bfe5d2d 100644
--- a/include/fastad_bits/reverse/core/binary.hpp
+++ b/include/fastad_bits/reverse/core/binary.hpp
@@ -130,8 +130,21 @@ public:
             a_adj = seed;
             auto&& rhs_seed = Binary::brmap(a_adj, a_l, a_r, a_val);
             auto&& lhs_seed = Binary::blmap(a_adj, a_l, a_r, a_val);
-            expr_rhs_.beval(rhs_seed);
-            expr_lhs_.beval(lhs_seed);
+
+            // lhs_seed may be a lazy expression of values that change while back-evaluating
+            // a right expression that modifies variables (see OpEqNode),
+            // in which case it must be evaluated first.
+            if constexpr (util::is_var_view_v<right_t> || 
+                          util::is_constant_v<right_t> ||
+                          std::is_same_v<std::decay_t<decltype(lhs_seed)>,
+                                         std::decay_t<decltype(a_adj)> >) {
+                expr_rhs_.beval(rhs_seed);
+                expr_lhs_.beval(lhs_seed);
+            } else {
+                auto lhs_seed_val = util::eval(lhs_seed);
+                expr_rhs_.beval(rhs_seed);
+                expr_lhs_.beval(lhs_seed_val);
+            }
         }
     }
 
diff --git a/include/fastad_bits/reverse/core/eq.hpp b/include/fastad_bits/reverse/core/eq.hpp
index bdccc5d..24de438 100644
--- a/include/fastad_bits/reverse/core/eq.hpp
+++ b/include/fastad_bits/reverse/core/eq.hpp
@@ -264,7 +264,8 @@ public:
         auto&& a_val = util::to_array(var_view_.get());
         auto&& a_adj = util::to_array(cache_.get_adj());
         auto&& a_expr = util::to_array(expr_.get());
-        auto lseed = Op::blmap(a_adj, a_val, a_expr);
+        // lseed may be a lazy expression of values that change while back-evaluating expr_
+        auto lseed = util::eval(Op::blmap(a_adj, a_val, a_expr));
         auto rseed = Op::brmap(a_adj, a_val, a_expr);
         expr_.beval(rseed);
         var_view_.beval(lseed);
diff --git a/include/fastad_bits/util/value.hpp b/include/fastad_bits/util/value.hpp
index 3e52eee..8155741 100644
--- a/include/fastad_bits/util/value.hpp
+++ b/include/fastad_bits/util/value.hpp
@@ -33,6 +33,21 @@ auto cast_to(const XType& x)
     }
 };
 
+/*
+ * Evaluates x into a plain object if it is a (lazy) Eigen expression.
+ * Otherwise, it is simply the identity function.
+ */
+template <class T>
+constexpr inline
+auto eval(const T& x)
+{
+    if constexpr (util::is_eigen_v<T>) {
+        return x.eval();
+    } else {
+        return x;
+    }
+};
+
 template <class T>
 constexpr inline void ones(T& x) 
 {
-- 
2.43.0


From f06e2facd7fbe579274c2f7d30ac8e35aef0e946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:43 +0000
Subject: [PATCH 18/27] fix: do not offset the null adjoint pointer of
 expressions without an adjoint

---
 include/fastad_bits/reverse/core/value_view.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/fastad_bits/reverse/core/value_view.hpp b/include/fastad_bits/reverse/core/value_view.hpp
index 6690def..685a00d 100644
--- a/include/fastad_bits/reverse/core/value_view.hpp
+++ b/include/fastad_bits/reverse/core/value_view.hpp
@@ -8,6 +8,12 @@ namespace core {
 template <class ValueType, class ShapeType>
 struct ValueView;
 
+// Returns the pointer past the n values starting at begin, or null if there is nothing to view
+// (some expressions do not need their adjoints, so they bind them to null).
+template <class ValueType>
+inline constexpr ValueType* next_begin(ValueType* begin, size_t n)
+{ return begin ? begin + n : nullptr; }
+
 template <class ValueType>
 struct ValueView<ValueType, scl>
 {
@@ -55,7 +61,7 @@ struct ValueView<ValueType, scl>
      * @return  the next pointer from val_begin that is not viewed by current object.
      */
     value_t* bind(value_t* begin)
-    { val_ = begin; return val_ + this->size(); }
+    { val_ = begin; return next_begin(begin, this->size()); }
 
     /**
      * Returns the raw pointer to the first value viewed by current object.
@@ -123,7 +129,7 @@ struct ValueView<ValueType, vec>
     value_t* bind(value_t* begin)
     { 
         new (&val_) var_t(begin, this->size());
-        return begin + this->size(); 
+        return next_begin(begin, this->size()); 
     }
 
     constexpr size_t size() const { return val_.size(); }
@@ -157,7 +163,7 @@ struct ValueView<ValueType, mat>
     value_t* bind(value_t* begin)
     { 
         new (&val_) var_t(begin, this->rows(), this->cols());
-        return begin + this->size(); 
+        return next_begin(begin, this->size()); 
     }
 
     constexpr size_t size() const { return val_.size(); }
-- 
2.43.0


From 3fdce55ea34fa54707dfb4e54ac66610b0d8bc49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:14 +0000
Subject: [PATCH 19/27] fix: let copies of a bound expression view their own
 cache

---
 include/fastad_bits/reverse/core/bind.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/fastad_bits/reverse/core/bind.hpp b/include/fastad_bits/reverse/core/bind.hpp
index 9ea7ca6..4c38997 100644
--- a/include/fastad_bits/reverse/core/bind.hpp
+++ b/include/fastad_bits/reverse/core/bind.hpp
@@ -32,6 +32,14 @@ struct ExprBind
         expr_.bind_cache({val_cache_.data(), adj_cache_.data()});
     }
     
+    // A copy must view its own cache, not the cache of the original, which it may outlive.
+    ExprBind(const ExprBind& other)
+        : ExprBind(other.expr_)
+    {
+        val_cache_ = other.val_cache_;
+        adj_cache_ = other.adj_cache_;
+    }
+
     expr_t& get() { return expr_; }
 
 private:
-- 
2.43.0


From af21a57a64201c0d4a279ceff989dd5e734247a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:31 +0000
Subject: [PATCH 20/27] fix: return the forward value of a multi-dimensional
 autodiff by value

Back-evaluating an op-assignment restores the variable whose memory the
expression value is a view of, so autodiff returned the restored value.
---
 include/fastad_bits/reverse/core/eval.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/fastad_bits/reverse/core/eval.hpp b/include/fastad_bits/reverse/core/eval.hpp
index 01cb113..534ca9e 100644
--- a/include/fastad_bits/reverse/core/eval.hpp
+++ b/include/fastad_bits/reverse/core/eval.hpp
@@ -110,7 +110,11 @@ template <class ExprType
 inline auto autodiff(ExprType&& expr,
                      const Eigen::ArrayBase<T>& seed)
 {
-    auto t = evaluate(expr);
+    // copy the value since back-evaluating an op-assignment restores the values that it views
+    using traits_t = util::expr_traits<std::decay_t<ExprType>>;
+    using plain_t = util::constant_var_t<typename traits_t::value_t,
+                                         typename traits_t::shape_t>;
+    plain_t t = evaluate(expr);
     evaluate_adj(expr, seed);
     return t;
 }
@@ -161,11 +165,7 @@ template <class ExprType
 inline auto autodiff(core::ExprBind<ExprType>&& expr,
                      const Eigen::ArrayBase<T>& seed)
 {
-    // copy the value since the cache owned by expr does not outlive the call
-    using traits_t = util::expr_traits<ExprType>;
-    using plain_t = util::constant_var_t<typename traits_t::value_t,
-                                         typename traits_t::shape_t>;
-    return plain_t(autodiff(expr.get(), seed));
+    return autodiff(expr.get(), seed);
 }
 
 } // namespace ad
-- 
2.43.0


From ce3ef1bbb96c42bdad80f80158d60d7deef8f8cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:26 +0000
Subject: [PATCH 21/27] fix: let ad::bind take an expression that folded to a
 constant

---
 include/fastad_bits/reverse/core/bind.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/fastad_bits/reverse/core/bind.hpp b/include/fastad_bits/reverse/core/bind.hpp
index 4c38997..e5a64f2 100644
--- a/include/fastad_bits/reverse/core/bind.hpp
+++ b/include/fastad_bits/reverse/core/bind.hpp
@@ -2,6 +2,7 @@
 #include <vector>
 #include <fastad_bits/reverse/core/expr_base.hpp>
 #include <fastad_bits/util/type_traits.hpp>
+#include <fastad_bits/util/ptr_pack.hpp>
 
 namespace ad {
 namespace core {
@@ -29,7 +30,7 @@ struct ExprBind
         auto size_pack = expr_.bind_cache_size();
         val_cache_.resize(size_pack(0));
         adj_cache_.resize(size_pack(1));
-        expr_.bind_cache({val_cache_.data(), adj_cache_.data()});
+        expr_.bind_cache(util::PtrPack<value_t>(val_cache_.data(), adj_cache_.data()));
     }
     
     // A copy must view its own cache, not the cache of the original, which it may outlive.
-- 
2.43.0


From b6fdb88ab6ebe11acf75c24e52db6501ceaebcb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:06 +0000
Subject: [PATCH 22/27] fix: do not offset null cache pointers when a
 placeholder strips the root of its expression

---
 include/fastad_bits/reverse/core/eq.hpp         | 4 ++--
 include/fastad_bits/reverse/core/value_view.hpp | 5 +++++
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/fastad_bits/reverse/core/eq.hpp b/include/fastad_bits/reverse/core/eq.hpp
index 24de438..0331d1f 100644
--- a/include/fastad_bits/reverse/core/eq.hpp
+++ b/include/fastad_bits/reverse/core/eq.hpp
@@ -125,8 +125,8 @@ public:
 
         begin = expr_.bind_cache(begin);
         auto size_pack = expr_.single_bind_cache_size();
-        begin.val -= size_pack(0);
-        begin.adj -= size_pack(1);
+        begin.val = prev_begin(begin.val, size_pack(0));
+        begin.adj = prev_begin(begin.adj, size_pack(1));
 
         // only bind root to var_view's values, not recursively down
         using expr_value_adj_view_t = typename expr_t::value_adj_view_t;
diff --git a/include/fastad_bits/reverse/core/value_view.hpp b/include/fastad_bits/reverse/core/value_view.hpp
index 685a00d..a21c4e3 100644
--- a/include/fastad_bits/reverse/core/value_view.hpp
+++ b/include/fastad_bits/reverse/core/value_view.hpp
@@ -14,6 +14,11 @@ template <class ValueType>
 inline constexpr ValueType* next_begin(ValueType* begin, size_t n)
 { return begin ? begin + n : nullptr; }
 
+// Inverse of next_begin.
+template <class ValueType>
+inline constexpr ValueType* prev_begin(ValueType* begin, size_t n)
+{ return begin ? begin - n : nullptr; }
+
 template <class ValueType>
 struct ValueView<ValueType, scl>
 {
-- 
2.43.0


From fd8cf31e2f69d800177c02b4aa8a8e3fd321a893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:17 +0000
Subject: [PATCH 23/27] fix: center the normal log-density of constant x and
 sigma so that it does not cancel

---
 include/fastad_bits/reverse/stat/normal.hpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/include/fastad_bits/reverse/stat/normal.hpp b/include/fastad_bits/reverse/stat/normal.hpp
index 6ddc49d..5ce6b85 100644
--- a/include/fastad_bits/reverse/stat/normal.hpp
+++ b/include/fastad_bits/reverse/stat/normal.hpp
@@ -410,7 +410,7 @@ public:
         , log_sigma_{0}
         , is_pos_def_{false}
         , sq_term_{0}
-        , lin_term_{0}
+        , x_mean_{0}
         , const_term_{0}
     {
         if constexpr (util::is_constant_v<sigma_t>) {
@@ -420,9 +420,11 @@ public:
             if constexpr (util::is_constant_v<x_t>) {
                 auto&& x = x_.get().array();
                 auto&& s = sigma_.get().array();
-                sq_term_ = (x/s).matrix().squaredNorm(); 
-                lin_term_ = (x/(s * s)).sum();
+                // centered at the weighted mean of x so that nothing cancels
+                // when x is far from 0 relative to its spread
                 const_term_ = (1./s).matrix().squaredNorm();
+                x_mean_ = (x/(s * s)).sum() / const_term_;
+                sq_term_ = ((x - x_mean_)/s).matrix().squaredNorm(); 
             }
         }
     }
@@ -443,8 +445,9 @@ public:
 
         if constexpr (util::is_constant_v<x_t> &&
                       util::is_constant_v<sigma_t>) {
+            value_t centered = m - x_mean_;
             return this->get() = 
-                -0.5 * (sq_term_ - 2 * m * lin_term_ + m * m * const_term_)
+                -0.5 * (sq_term_ + const_term_ * centered * centered)
                     - log_sigma_;
         } else {
             auto z = ((x - m) / s).matrix();
@@ -462,7 +465,7 @@ public:
 
         if constexpr (util::is_constant_v<x_t> &&
                       util::is_constant_v<sigma_t>) {
-            value_t mean_adj = lin_term_ - m * const_term_;
+            value_t mean_adj = const_term_ * (x_mean_ - m);
             mean_.beval(seed * mean_adj);
         } else {
 
@@ -490,7 +493,7 @@ private:
 
     // only used when x and sigma are both constant
     value_t sq_term_;
-    value_t lin_term_;
+    value_t x_mean_;
     value_t const_term_;
 };
 
-- 
2.43.0


From 3861f5a5cffd4184195f8049fb9f2de9886d5c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:29 +0000
Subject: [PATCH 24/27] fix: let a for_each over an empty range stand in a
 statement sequence

---
 include/fastad_bits/reverse/core/for_each.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/fastad_bits/reverse/core/for_each.hpp b/include/fastad_bits/reverse/core/for_each.hpp
index 01c1a23..dd627cd 100644
--- a/include/fastad_bits/reverse/core/for_each.hpp
+++ b/include/fastad_bits/reverse/core/for_each.hpp
@@ -82,12 +82,13 @@ public:
     /**
      * Bind every expression from left to right then bind itself
      * to the last expression.
+     * If there are no expressions, bind itself to storage of its own.
      *
      * @return  the next pointer not bound by any of the expressions and itself.
      */
     ptr_pack_t bind_cache(ptr_pack_t begin)
     {
-        if (vec_.size() == 0) return begin;
+        if (vec_.size() == 0) return value_adj_view_t::bind(begin);
         for (auto& expr : vec_) {
             begin = expr.bind_cache(begin);
         }
@@ -97,6 +98,7 @@ public:
 
     util::SizePack bind_cache_size() const 
     { 
+        if (vec_.size() == 0) return {this->size(), this->size()};
         util::SizePack out = util::SizePack::Zero();
         for (const auto& expr : vec_) {
             out += expr.bind_cache_size();
-- 
2.43.0


From 9232d06e61c3239f6e20c7b9afa0803fcd47c6b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:32 +0000
Subject: [PATCH 25/27] fix: do not cancel in the gradient of the bernoulli
 log-density of a vector sample

---
 include/fastad_bits/reverse/stat/bernoulli.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fastad_bits/reverse/stat/bernoulli.hpp b/include/fastad_bits/reverse/stat/bernoulli.hpp
index b86cb52..9387f7d 100644
--- a/include/fastad_bits/reverse/stat/bernoulli.hpp
+++ b/include/fastad_bits/reverse/stat/bernoulli.hpp
@@ -247,8 +247,8 @@ public:
     {
         if (seed == 0 || !within_range() || !is_x_zero_one_) return;
 
-        value_t adj = (x_sum_ - (x_.size() * p_.get())) /
-                        (p_.get() * (1-p_.get()));
+        value_t adj = x_sum_ / p_.get() - 
+                        (x_.size() - x_sum_) / (1-p_.get());
         p_.beval(seed * adj);
     }
 
-- 
2.43.0


From b49fdf6f8369b2a49b1f929330409cf35f216f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:32 +0000
Subject: [PATCH 26/27] fix: log-determinants that must not over- or underflow
 through the determinant

---
 include/fastad_bits/reverse/core/log_det.hpp | 9 +++++----
 include/fastad_bits/reverse/stat/normal.hpp  | 4 ++--
 include/fastad_bits/reverse/stat/wishart.hpp | 4 ++--
 3 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/include/fastad_bits/reverse/core/log_det.hpp b/include/fastad_bits/reverse/core/log_det.hpp
index ed1e1ec..564764f 100644
--- a/include/fastad_bits/reverse/core/log_det.hpp
+++ b/include/fastad_bits/reverse/core/log_det.hpp
@@ -107,7 +107,7 @@ struct LogDetFullPivLU
     value_t fmap(const Eigen::MatrixBase<T>& X)
     {
         lu_.compute(X);
-        return std::log(std::abs(lu_.determinant()));
+        return lu_.matrixLU().diagonal().array().abs().log().sum();
     }
 
     auto bmap() const 
@@ -139,7 +139,7 @@ struct LogDetLDLT
     value_t fmap(const Eigen::MatrixBase<T>& X)
     {
         ldlt_.compute(X);
-        value_t logdet = std::log(std::abs(ldlt_.vectorD().prod()));
+        value_t logdet = ldlt_.vectorD().array().abs().log().sum();
         valid_ = (std::isfinite(logdet)) && (ldlt_.info() == Eigen::Success);
         return logdet;
     }
@@ -178,7 +178,7 @@ struct LogDetLLT
     value_t fmap(const Eigen::MatrixBase<T>& X)
     {
         llt_.compute(X);
-        value_t logdet = std::log(std::abs(llt_.matrixL().determinant()));
+        value_t logdet = llt_.matrixLLT().diagonal().array().abs().log().sum();
         return 2. * logdet;
     }
 
@@ -223,7 +223,8 @@ inline auto log_det(const T& x)
     if constexpr (util::is_constant_v<expr_t>) {
         static_assert(!util::is_scl_v<expr_t>);
         using var_t = util::constant_var_t<value_t, ad::scl>;
-        var_t out = std::log(std::abs(expr.feval().determinant()));
+        LogDetFullPivLU<value_t> decomp(expr.rows());
+        var_t out = decomp.fmap(expr.feval());
         return ad::constant(out);
     } else {
         return core::LogDetNode<DecompType<value_t>, expr_t>(expr);
diff --git a/include/fastad_bits/reverse/stat/normal.hpp b/include/fastad_bits/reverse/stat/normal.hpp
index 5ce6b85..ec2f5c0 100644
--- a/include/fastad_bits/reverse/stat/normal.hpp
+++ b/include/fastad_bits/reverse/stat/normal.hpp
@@ -662,7 +662,7 @@ private:
         llt_.compute(sigma_.get());
         is_pos_def_ = (llt_.info() == Eigen::Success);
         if (is_pos_def_) {
-            log_det_ = std::log(llt_.matrixL().determinant());
+            log_det_ = llt_.matrixLLT().diagonal().array().log().sum();
             inv_ = llt_.solve(mat_t::Identity(sigma_.rows(), sigma_.cols()));
         }
     }
@@ -760,7 +760,7 @@ private:
         llt_.compute(sigma_.get());
         is_pos_def_ = (llt_.info() == Eigen::Success);
         if (is_pos_def_) {
-            log_det_ = std::log(llt_.matrixL().determinant());
+            log_det_ = llt_.matrixLLT().diagonal().array().log().sum();
             inv_ = llt_.solve(mat_t::Identity(sigma_.rows(), sigma_.cols()));
         }
     }
diff --git a/include/fastad_bits/reverse/stat/wishart.hpp b/include/fastad_bits/reverse/stat/wishart.hpp
index ee9c5f0..61a6dd8 100644
--- a/include/fastad_bits/reverse/stat/wishart.hpp
+++ b/include/fastad_bits/reverse/stat/wishart.hpp
@@ -200,7 +200,7 @@ private:
         v_llt_.compute(v_.get());
         is_v_pos_def_ = (v_llt_.info() == Eigen::Success);
         if (is_v_pos_def_) {
-            log_v_det_ = std::log(v_llt_.matrixL().determinant());
+            log_v_det_ = v_llt_.matrixLLT().diagonal().array().log().sum();
             v_inv_ = v_llt_.solve(mat_t::Identity(v_.rows(), v_.cols()));
         }
     }
@@ -209,7 +209,7 @@ private:
         x_llt_.compute(x_.get());
         is_x_pos_def_ = (x_llt_.info() == Eigen::Success);
         if (is_x_pos_def_) {
-            log_x_det_ = std::log(x_llt_.matrixL().determinant());
+            log_x_det_ = x_llt_.matrixLLT().diagonal().array().log().sum();
             x_inv_ = x_llt_.solve(mat_t::Identity(x_.rows(), x_.cols()));
         }
     }
-- 
2.43.0


From dbe76fdcf955af7dfa7834015b9f348e209d9e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:04 +0000
Subject: [PATCH 27/27] fix: a compound assignment must keep its value for the
 operator it is an operand of

Back-evaluation restores the variable before the parent expression used the value,
e.g. in dot(A, (v += w)) or normal_adj_log_pdf(x, m *= 2, s).
---
 include/fastad_bits/reverse/core/eq.hpp | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/include/fastad_bits/reverse/core/eq.hpp b/include/fastad_bits/reverse/core/eq.hpp
index 0331d1f..f78778b 100644
--- a/include/fastad_bits/reverse/core/eq.hpp
+++ b/include/fastad_bits/reverse/core/eq.hpp
@@ -242,8 +242,8 @@ public:
         cache_.get() = var_view_.get();  // save previous lhs
         auto&& a_v = util::to_array(var_view_.get());
         auto&& a_expr = util::to_array(expr_.feval());
-        util::to_array(this->get()) = Op::fmap(a_v, a_expr);
-        return this->get();
+        Op::fmap(a_v, a_expr);
+        return this->get() = var_view_.get();
     }
 
     template <class T>
@@ -272,33 +272,38 @@ public:
     }
 
     /**
-     * Binds itself to view the same values as the variable viewer,
-     * binds the RHS expression, but DOES NOT bind the root of RHS to LHS like EqNode.
+     * Binds the RHS expression, but DOES NOT bind the root of RHS to LHS like EqNode.
      * Needs to cache the previous LHS value, so we store a member value viewer to bind.
+     * Binds itself to a copy of the new LHS value rather than to the variable viewer,
+     * since back-evaluation restores the previous LHS value
+     * while the parent expression may still need the new one.
      *
      * @return  next pointer not bound by expression or itself.
      */
     ptr_pack_t bind_cache(ptr_pack_t begin)
     {
-        value_adj_view_t::bind({var_view_.data(), var_view_.data_adj()});
         begin = expr_.bind_cache(begin);
         begin = cache_.bind(begin);
+        auto adj = begin.adj;
+        begin.adj = var_view_.data_adj();
+        begin = value_adj_view_t::bind(begin);
+        begin.adj = adj;
         return begin;
     }
 
     util::SizePack bind_cache_size() const 
     {
-        return util::SizePack(cache_.size(), cache_.size()) + 
+        return single_bind_cache_size() +
+                util::SizePack(cache_.size(), cache_.size()) + 
                 expr_.bind_cache_size(); 
     }
 
     /**
-     * The node itself only views the values of the variable viewer.
      * The memory for the previous LHS must not be counted here
      * since EqNode takes away this amount when it rebinds the root of its expression.
      */
     util::SizePack single_bind_cache_size() const
-    { return {0,0}; }
+    { return {this->size(), 0}; }
 
 private:
     value_adj_view_t cache_;
-- 
2.43.0

