From ee0aea4b32413ba47d9bd932e5949faeb5ece9b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:23 +0000
Subject: [PATCH 01/24] fix: keep the scalar tolerance alive while the lazy
 context refers to it

grade, largest_grade, take_largest_grade, dp and the blade exponential passed
scalar(tol) to make_lazy_context[_tuple], which only stores a reference.  With a
native tolerance that scalar is a temporary destroyed at the end of the full
expression, so evaluating the lazy context read a dead object (wrong results
with g++ -O2, stack-use-after-scope under AddressSanitizer).
---
 cpp/include/gatl/ga/extra/blade_exponential.hpp | 3 ++-
 cpp/include/gatl/ga/extra/delta_product.hpp     | 3 ++-
 cpp/include/gatl/ga/extra/grade.hpp             | 6 ++++--
 cpp/include/gatl/ga/extra/take_grade.hpp        | 3 ++-
 4 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/cpp/include/gatl/ga/extra/blade_exponential.hpp b/cpp/include/gatl/ga/extra/blade_exponential.hpp
index 7386055..80271a1 100644
--- a/cpp/include/gatl/ga/extra/blade_exponential.hpp
+++ b/cpp/include/gatl/ga/extra/blade_exponential.hpp
@@ -66,7 +66,8 @@ namespace ga {
             >
         >;
 
-        lazy_context_type const lazy = make_lazy_context(arg, scalar(tol));
+        auto const &scalar_tol = scalar(tol); // the lazy context keeps references to its inputs
+        lazy_context_type const lazy = make_lazy_context(arg, scalar_tol);
         return lazy.eval(clifford_expression<default_integral_t, result_expression>());
     }
 
diff --git a/cpp/include/gatl/ga/extra/delta_product.hpp b/cpp/include/gatl/ga/extra/delta_product.hpp
index 97f5998..7e0656b 100644
--- a/cpp/include/gatl/ga/extra/delta_product.hpp
+++ b/cpp/include/gatl/ga/extra/delta_product.hpp
@@ -28,7 +28,8 @@ namespace ga {
 
     template<typename LeftCoefficientType, typename LeftExpression, typename RightCoefficientType, typename RightExpression, typename ToleranceType, typename MetricSpaceType>
     constexpr decltype(auto) dp(clifford_expression<LeftCoefficientType, LeftExpression> const &lhs, clifford_expression<RightCoefficientType, RightExpression> const &rhs, ToleranceType const &tol, metric_space<MetricSpaceType> const &mtr) GA_NOEXCEPT {
-        auto [lazy, lhs_, rhs_, tol_] = make_lazy_context_tuple(lhs, rhs, scalar(tol));
+        auto const &scalar_tol = scalar(tol); // the lazy context keeps references to its inputs
+        auto [lazy, lhs_, rhs_, tol_] = make_lazy_context_tuple(lhs, rhs, scalar_tol);
         return lazy.eval(take_largest_grade(gp(lhs_, rhs_, mtr), tol_));
     }
 
diff --git a/cpp/include/gatl/ga/extra/grade.hpp b/cpp/include/gatl/ga/extra/grade.hpp
index e659b71..527c991 100644
--- a/cpp/include/gatl/ga/extra/grade.hpp
+++ b/cpp/include/gatl/ga/extra/grade.hpp
@@ -241,7 +241,8 @@ namespace ga {
     // Returns the ga::grade_result<Value> structure representing the grade of the given Clifford expression.
     template<typename CoefficientType, typename Expression, typename ToleranceType>
     constexpr decltype(auto) grade(clifford_expression<CoefficientType, Expression> const &arg, ToleranceType const &tol) GA_NOEXCEPT {
-        auto lazy = make_lazy_context(arg, scalar(tol));
+        auto const &scalar_tol = scalar(tol); // the lazy context keeps references to its inputs
+        auto lazy = make_lazy_context(arg, scalar_tol);
         return detail::make_grade_result(lazy.eval(scalar_clifford_expression<grade_t, detail::deduce_grade_result_t<typename decltype(lazy)::template argument_expression_t<0>, detail::coefficient_t<typename decltype(lazy)::template argument_expression_t<1> > > >()));
     }
 
@@ -263,7 +264,8 @@ namespace ga {
     // Returns a scalar expression with the largest grade part of a given Clifford expression such that it is not zero.
     template<typename CoefficientType, typename Expression, typename ToleranceType>
     constexpr decltype(auto) largest_grade(clifford_expression<CoefficientType, Expression> const &arg, ToleranceType const &tol) GA_NOEXCEPT {
-        auto lazy = make_lazy_context(arg, scalar(tol));
+        auto const &scalar_tol = scalar(tol); // the lazy context keeps references to its inputs
+        auto lazy = make_lazy_context(arg, scalar_tol);
         return lazy.eval(scalar_clifford_expression<grade_t, detail::deduce_largest_grade_result_t<typename decltype(lazy)::template argument_expression_t<0>, detail::coefficient_t<typename decltype(lazy)::template argument_expression_t<1> > > >());
     }
 
diff --git a/cpp/include/gatl/ga/extra/take_grade.hpp b/cpp/include/gatl/ga/extra/take_grade.hpp
index 614ec40..76de14f 100644
--- a/cpp/include/gatl/ga/extra/take_grade.hpp
+++ b/cpp/include/gatl/ga/extra/take_grade.hpp
@@ -107,7 +107,8 @@ namespace ga {
     // Returns the portion of the given Clifford expression with the largest grade.
     template<typename CoefficientType, typename Expression, typename ToleranceType>
     constexpr decltype(auto) take_largest_grade(clifford_expression<CoefficientType, Expression> const &arg, ToleranceType const &tol) GA_NOEXCEPT {
-        auto [lazy, arg_, tol_] = make_lazy_context_tuple(arg, scalar(tol));
+        auto const &scalar_tol = scalar(tol); // the lazy context keeps references to its inputs
+        auto [lazy, arg_, tol_] = make_lazy_context_tuple(arg, scalar_tol);
         return lazy.eval(take_grade(arg_, largest_grade(arg_, tol_)));
     }
 
-- 
2.43.0


From 956cfc1b84511f3da2b338db508db0fb0e5312fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:13 +0000
Subject: [PATCH 02/24] fix: provide lhs / rhs in the algebra namespaces for a
 versor on the right

The documented division operator (same as igp(lhs, rhs)) was only declared for a scalar right-hand side, so it did not compile for any other versor.
---
 .../gatl/ga/extra/macro_for_algebra_overload.hpp       | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/cpp/include/gatl/ga/extra/macro_for_algebra_overload.hpp b/cpp/include/gatl/ga/extra/macro_for_algebra_overload.hpp
index f085496..4cf37b8 100644
--- a/cpp/include/gatl/ga/extra/macro_for_algebra_overload.hpp
+++ b/cpp/include/gatl/ga/extra/macro_for_algebra_overload.hpp
@@ -115,6 +115,16 @@
         return igp(lhs, rhs, SPACE); \
     } \
     \
+    template<typename LeftCoefficientType, typename LeftExpression, typename RightCoefficientType, typename RightExpression> \
+    constexpr decltype(auto) operator/(clifford_expression<LeftCoefficientType, LeftExpression> const &lhs, clifford_expression<RightCoefficientType, RightExpression> const &rhs) { \
+        return igp(lhs, rhs, SPACE); \
+    } \
+    \
+    template<typename LeftType, typename RightCoefficientType, typename RightExpression, std::enable_if_t<!is_clifford_expression_v<LeftType>, int> = 0> \
+    constexpr decltype(auto) operator/(LeftType const &lhs, clifford_expression<RightCoefficientType, RightExpression> const &rhs) { \
+        return igp(lhs, rhs, SPACE); \
+    } \
+    \
     template<typename CoefficientType, typename Expression> \
     constexpr decltype(auto) inv(clifford_expression<CoefficientType, Expression> const &arg) { \
         return inv(arg, SPACE); \
-- 
2.43.0


From 43928327725810b70c7dc713e0e60e6890c7d812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:51 +0000
Subject: [PATCH 03/24] fix: do not simplify roots of even powers and of
 products as if arguments were non-negative

(A^{2})^{1/2} was simplified to A and (A * B)^{1/2} to A^{1/2} * B^{1/2}, thus
rnorm(-3 * e1) was -3, unit(-3 * e1) was e1, and roots of products of negative
values were not numbers.
---
 .../core/expression_simplification_power.hpp  | 75 ++++++++++++++++---
 1 file changed, 64 insertions(+), 11 deletions(-)

diff --git a/cpp/include/gatl/ga/core/expression_simplification_power.hpp b/cpp/include/gatl/ga/core/expression_simplification_power.hpp
index 68cef52..ca9fc0f 100644
--- a/cpp/include/gatl/ga/core/expression_simplification_power.hpp
+++ b/cpp/include/gatl/ga/core/expression_simplification_power.hpp
@@ -270,7 +270,7 @@ namespace ga {
             // X^{1/2} = sqrt(X) => Y, if it is possible simplify for given integer X and Y values
             template<default_integral_t LeftValue>
             struct condition<constant_value<LeftValue>, power<constant_value<2>, constant_value<-1> > > :
-                std::true_type {
+                std::bool_constant<(LeftValue > 0)> {
             };
 
             template<default_integral_t LeftValue>
@@ -302,24 +302,36 @@ namespace ga {
             };
         };
 
+        // Helper structure to check whether the given expression is a constant integer value.
+        template<typename Expression>
+        struct is_constant_value :
+            std::false_type {
+        };
+
+        template<default_integral_t Value>
+        struct is_constant_value<constant_value<Value> > :
+            std::true_type {
+        };
+
+        template<typename Expression>
+        constexpr bool is_constant_value_v = is_constant_value<Expression>::value;
+
         // Simplification rule to apply the distributivity property of power over multiplication.
         struct _power_rule_distributivity {
 
-            // Default (bind)
+            // Default
             template<typename LeftExpression, typename RightExpression>
             struct condition :
-                std::true_type {
+                std::false_type {
             };
 
             template<typename LeftExpression, typename RightExpression>
-            struct result {
-                using type = power<LeftExpression, RightExpression>;
-            };
+            struct result;
 
-            // (A * ...)^{B} => A^{B} * (...)^{C}
+            // (A * ...)^{B} => A^{B} * (...)^{B}, for integer B or when one of the factors is not negative (otherwise, both may be negative)
             template<typename LeftArgument, typename... LeftNextArguments, typename RightExpression>
             struct condition<mul<LeftArgument, LeftNextArguments...>, RightExpression> :
-                std::true_type {
+                std::bool_constant<is_constant_value_v<RightExpression> || is_non_negative_v<LeftArgument> || is_non_negative_v<mul_t<LeftNextArguments...> > > {
             };
 
             template<typename LeftArgument, typename... LeftNextArguments, typename RightExpression>
@@ -327,10 +339,10 @@ namespace ga {
                 using type = product_t<power_t<LeftArgument, RightExpression>, power_t<mul_t<LeftNextArguments...>, RightExpression>, value_mapping>;
             };
 
-            // (A^{B})^{C} = A^{B * C} (simplify)
+            // (A^{B})^{C} => A^{B * C}, for integer C, for non-negative A, or for constant B that is not even (simplify)
             template<typename LeftLeftArgument, typename LeftRightArgument, typename RightExpression>
             struct condition<power<LeftLeftArgument, LeftRightArgument>, RightExpression> :
-                std::true_type {
+                std::bool_constant<is_constant_value_v<RightExpression> || is_non_negative_v<LeftLeftArgument> || (is_constant_expression_v<LeftRightArgument> && !is_even_v<LeftRightArgument>)> {
             };
 
             template<typename LeftLeftArgument, typename LeftRightArgument, typename RightExpression>
@@ -339,6 +351,45 @@ namespace ga {
             };
         };
 
+        // Simplification rule for the power of an even power.
+        struct _power_rule_even_power {
+
+            // Default
+            template<typename LeftExpression, typename RightExpression>
+            struct condition :
+                std::false_type {
+            };
+
+            template<typename LeftExpression, typename RightExpression>
+            struct result;
+
+            // (A^{B})^{C} => |A|^{B * C}, for even B (simplify)
+            template<typename LeftLeftArgument, typename LeftRightArgument, typename RightExpression>
+            struct condition<power<LeftLeftArgument, LeftRightArgument>, RightExpression> :
+                std::bool_constant<is_even_v<LeftRightArgument> > {
+            };
+
+            template<typename LeftLeftArgument, typename LeftRightArgument, typename RightExpression>
+            struct result<power<LeftLeftArgument, LeftRightArgument>, RightExpression> {
+                using type = power_t<absolute_t<LeftLeftArgument>, product_t<LeftRightArgument, RightExpression, value_mapping> >;
+            };
+        };
+
+        // Simplification rule for binding.
+        struct _power_rule_bind {
+
+            // Default (bind)
+            template<typename LeftExpression, typename RightExpression>
+            struct condition :
+                std::true_type {
+            };
+
+            template<typename LeftExpression, typename RightExpression>
+            struct result {
+                using type = power<LeftExpression, RightExpression>;
+            };
+        };
+
         // Implementation of _power<LeftArgument, RightArgument> with values as argument.
         template<typename LeftArgument, typename RightArgument>
         struct _power :
@@ -347,7 +398,9 @@ namespace ga {
                     _power_rule_miscellaneous_1,
                     _power_rule_miscellaneous_2,
                     _power_rule_miscellaneous_3,
-                    _power_rule_distributivity
+                    _power_rule_distributivity,
+                    _power_rule_even_power,
+                    _power_rule_bind
                 >,
                 LeftArgument,
                 RightArgument
-- 
2.43.0


From 8c76e1cffa06354a10496ac823c5e4176c664eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:16 +0000
Subject: [PATCH 04/24] fix: reordering signs may be negative and powers are
 not even because their exponents are

abs(...) of a reordering sign and of A^{B^{2}} was simplified to its argument.
---
 cpp/include/gatl/ga/core/expression_traits.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/cpp/include/gatl/ga/core/expression_traits.hpp b/cpp/include/gatl/ga/core/expression_traits.hpp
index b7edfcc..7a83dae 100644
--- a/cpp/include/gatl/ga/core/expression_traits.hpp
+++ b/cpp/include/gatl/ga/core/expression_traits.hpp
@@ -292,7 +292,12 @@ namespace ga {
 
         template<typename LeftArgument, typename RightArgument>
         struct is_even<power<LeftArgument, RightArgument> > :
-            std::bool_constant<is_even_v<RightArgument> > {
+            std::false_type {
+        };
+
+        template<typename LeftArgument, default_integral_t RightValue>
+        struct is_even<power<LeftArgument, constant_value<RightValue> > > :
+            std::bool_constant<is_even_v<LeftArgument> && (RightValue > 0)> {
         };
 
         template<typename... Arguments>
@@ -344,7 +349,7 @@ namespace ga {
 
         template<typename LeftBitset, typename RightBitset>
         struct is_non_negative<reordering_sign<LeftBitset, RightBitset> > :
-            std::true_type {
+            std::false_type {
         };
 
         template<typename Bitset>
-- 
2.43.0


From 52508af08ad33de27776e082783a5ff39664c691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:54 +0000
Subject: [PATCH 05/24] fix: accept the metric space argument without a
 tolerance

is_metric_space_v was false for the classes derived from a metric space, so
exp(arg, mtr), meet_and_join(lhs, rhs, mtr), etc. took the metric for the
tolerance; dp(lhs, native, mtr) was disabled by a void default argument; and
the documented is_null(arg [, mtr]) and is_unit(arg [, mtr]) did not exist.
---
 cpp/include/gatl/ga/core/metric_space.hpp     | 11 ++++++++-
 cpp/include/gatl/ga/extra/delta_product.hpp   |  2 +-
 .../ga/extra/macro_for_algebra_overload.hpp   | 24 +++++++++++++------
 cpp/include/gatl/ga/extra/tests.hpp           | 10 ++++++++
 4 files changed, 38 insertions(+), 9 deletions(-)

diff --git a/cpp/include/gatl/ga/core/metric_space.hpp b/cpp/include/gatl/ga/core/metric_space.hpp
index f6e6d75..8823084 100644
--- a/cpp/include/gatl/ga/core/metric_space.hpp
+++ b/cpp/include/gatl/ga/core/metric_space.hpp
@@ -70,10 +70,19 @@ namespace ga {
         std::bool_constant<is_general_metric_space_v<MetricSpaceType> > {
     };
 
+    namespace detail {
+
+        // Helper functions to check whether the given type is or is derived from a metric space type.
+        template<typename MetricSpaceType>
+        std::true_type _is_metric_space(metric_space<MetricSpaceType> const *);
+        std::false_type _is_metric_space(...);
+
+    }
+
     // Returns whether the given type is a metric space type.
     template<typename Type>
     struct is_metric_space :
-        std::bool_constant<is_orthogonal_metric_space_v<Type> || is_general_metric_space_v<Type> > {
+        decltype(detail::_is_metric_space(std::declval<std::remove_reference_t<Type> *>())) {
     };
 
     template<typename Type>
diff --git a/cpp/include/gatl/ga/extra/delta_product.hpp b/cpp/include/gatl/ga/extra/delta_product.hpp
index 7e0656b..e570045 100644
--- a/cpp/include/gatl/ga/extra/delta_product.hpp
+++ b/cpp/include/gatl/ga/extra/delta_product.hpp
@@ -98,7 +98,7 @@ namespace ga {
         return dp(lhs, rhs, default_tolerance<std::common_type_t<LeftCoefficientType, RightCoefficientType> >(), detail::real_metric_space());
     }
 
-    template<typename LeftCoefficientType, typename LeftExpression, typename RightType, typename MetricSpaceType, std::enable_if_t<!is_clifford_expression_v<RightType> > = 0>
+    template<typename LeftCoefficientType, typename LeftExpression, typename RightType, typename MetricSpaceType, std::enable_if_t<!is_clifford_expression_v<RightType>, int> = 0>
     constexpr decltype(auto) dp(clifford_expression<LeftCoefficientType, LeftExpression> const &lhs, RightType const &rhs, metric_space<MetricSpaceType> const &) GA_NOEXCEPT {
         return dp(lhs, scalar(rhs), default_tolerance<std::common_type_t<LeftCoefficientType, RightType> >(), detail::real_metric_space());
     }
diff --git a/cpp/include/gatl/ga/extra/macro_for_algebra_overload.hpp b/cpp/include/gatl/ga/extra/macro_for_algebra_overload.hpp
index 4cf37b8..3d657b7 100644
--- a/cpp/include/gatl/ga/extra/macro_for_algebra_overload.hpp
+++ b/cpp/include/gatl/ga/extra/macro_for_algebra_overload.hpp
@@ -75,7 +75,7 @@
         return exp(arg, default_tolerance<CoefficientType>(), SPACE); \
     } \
     \
-    template<typename LeftCoefficientType, typename LeftExpression, typename RightCoefficientType, typename RightExpression, typename ToleranceType> \
+    template<typename LeftCoefficientType, typename LeftExpression, typename RightCoefficientType, typename RightExpression, typename ToleranceType, std::enable_if_t<!is_metric_space_v<ToleranceType>, int> = 0> \
     constexpr decltype(auto) fast_join(clifford_expression<LeftCoefficientType, LeftExpression> const &lhs, clifford_expression<RightCoefficientType, RightExpression> const &rhs, ToleranceType const &tol) { \
         return fast_join(lhs, rhs, tol, SPACE); \
     } \
@@ -85,7 +85,7 @@
         return fast_join(lhs, rhs, default_tolerance<std::common_type_t<LeftCoefficientType, RightCoefficientType> >(), SPACE); \
     } \
     \
-    template<typename LeftCoefficientType, typename LeftExpression, typename RightCoefficientType, typename RightExpression, typename ToleranceType> \
+    template<typename LeftCoefficientType, typename LeftExpression, typename RightCoefficientType, typename RightExpression, typename ToleranceType, std::enable_if_t<!is_metric_space_v<ToleranceType>, int> = 0> \
     constexpr decltype(auto) fast_meet_and_join(clifford_expression<LeftCoefficientType, LeftExpression> const &lhs, clifford_expression<RightCoefficientType, RightExpression> const &rhs, ToleranceType const &tol) { \
         return fast_meet_and_join(lhs, rhs, tol, SPACE); \
     } \
@@ -95,7 +95,7 @@
         return fast_meet_and_join(lhs, rhs, default_tolerance<std::common_type_t<LeftCoefficientType, RightCoefficientType> >(), SPACE); \
     } \
     \
-    template<typename LeftCoefficientType, typename LeftExpression, typename RightCoefficientType, typename RightExpression, typename ToleranceType> \
+    template<typename LeftCoefficientType, typename LeftExpression, typename RightCoefficientType, typename RightExpression, typename ToleranceType, std::enable_if_t<!is_metric_space_v<ToleranceType>, int> = 0> \
     constexpr decltype(auto) fast_plunge(clifford_expression<LeftCoefficientType, LeftExpression> const &lhs, clifford_expression<RightCoefficientType, RightExpression> const &rhs, ToleranceType const &tol) { \
         return fast_plunge(lhs, rhs, tol, SPACE); \
     } \
@@ -130,17 +130,27 @@
         return inv(arg, SPACE); \
     } \
     \
-    template<typename CoefficientType, typename Expression, typename ToleranceType> \
+    template<typename CoefficientType, typename Expression, typename ToleranceType, std::enable_if_t<!is_metric_space_v<ToleranceType>, int> = 0> \
     constexpr bool is_null(clifford_expression<CoefficientType, Expression> const &arg, ToleranceType const &tol) GA_NOEXCEPT{ \
         return is_null(arg, tol, SPACE); \
     } \
     \
-    template<typename CoefficientType, typename Expression, typename ToleranceType> \
+    template<typename CoefficientType, typename Expression> \
+    constexpr bool is_null(clifford_expression<CoefficientType, Expression> const &arg) GA_NOEXCEPT { \
+        return is_null(arg, default_tolerance<CoefficientType>(), SPACE); \
+    } \
+    \
+    template<typename CoefficientType, typename Expression, typename ToleranceType, std::enable_if_t<!is_metric_space_v<ToleranceType>, int> = 0> \
     constexpr bool is_unit(clifford_expression<CoefficientType, Expression> const &arg, ToleranceType const &tol) GA_NOEXCEPT { \
         return is_unit(arg, tol, SPACE); \
     } \
     \
-    template<typename LeftCoefficientType, typename LeftExpression, typename RightCoefficientType, typename RightExpression, typename ToleranceType> \
+    template<typename CoefficientType, typename Expression> \
+    constexpr bool is_unit(clifford_expression<CoefficientType, Expression> const &arg) GA_NOEXCEPT { \
+        return is_unit(arg, default_tolerance<CoefficientType>(), SPACE); \
+    } \
+    \
+    template<typename LeftCoefficientType, typename LeftExpression, typename RightCoefficientType, typename RightExpression, typename ToleranceType, std::enable_if_t<!is_metric_space_v<ToleranceType>, int> = 0> \
     constexpr decltype(auto) meet_and_join(clifford_expression<LeftCoefficientType, LeftExpression> const &lhs, clifford_expression<RightCoefficientType, RightExpression> const &rhs, ToleranceType const &tol) { \
         return meet_and_join(lhs, rhs, tol, SPACE); \
     } \
@@ -150,7 +160,7 @@
         return meet_and_join(lhs, rhs, default_tolerance<std::common_type_t<LeftCoefficientType, RightCoefficientType> >(), SPACE); \
     } \
     \
-    template<typename LeftCoefficientType, typename LeftExpression, typename RightCoefficientType, typename RightExpression, typename ToleranceType> \
+    template<typename LeftCoefficientType, typename LeftExpression, typename RightCoefficientType, typename RightExpression, typename ToleranceType, std::enable_if_t<!is_metric_space_v<ToleranceType>, int> = 0> \
     constexpr decltype(auto) plunge(clifford_expression<LeftCoefficientType, LeftExpression> const &lhs, clifford_expression<RightCoefficientType, RightExpression> const &rhs, ToleranceType const &tol) { \
         return plunge(lhs, rhs, tol, SPACE); \
     } \
diff --git a/cpp/include/gatl/ga/extra/tests.hpp b/cpp/include/gatl/ga/extra/tests.hpp
index b46c133..a5e41c1 100644
--- a/cpp/include/gatl/ga/extra/tests.hpp
+++ b/cpp/include/gatl/ga/extra/tests.hpp
@@ -44,12 +44,22 @@ namespace ga {
         return is_zero(rnorm_sqr(arg, mtr), tol);
     }
 
+    template<typename CoefficientType, typename Expression, typename MetricSpaceType>
+    constexpr bool is_null(clifford_expression<CoefficientType, Expression> const &arg, metric_space<MetricSpaceType> const &mtr) GA_NOEXCEPT {
+        return is_null(arg, default_tolerance<CoefficientType>(), mtr);
+    }
+
     // Returns whether the given Clifford expression is a unit multivector up to an assumed numerical error.
     template<typename CoefficientType, typename Expression, typename ToleranceType, typename MetricSpaceType>
     constexpr bool is_unit(clifford_expression<CoefficientType, Expression> const &arg, ToleranceType const &tol, metric_space<MetricSpaceType> const &mtr) GA_NOEXCEPT {
         return is_zero(abs(rnorm_sqr(arg, mtr)) - c<1>, tol);
     }
 
+    template<typename CoefficientType, typename Expression, typename MetricSpaceType>
+    constexpr bool is_unit(clifford_expression<CoefficientType, Expression> const &arg, metric_space<MetricSpaceType> const &mtr) GA_NOEXCEPT {
+        return is_unit(arg, default_tolerance<CoefficientType>(), mtr);
+    }
+
 }
 
 #endif // __GA_EXTRA_TESTS_HPP__
-- 
2.43.0


From 398601d7bff753fa1b4473d86fa925398296957d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:19 +0000
Subject: [PATCH 06/24] fix: exponential of blades that are known to square to
 zero

exp(2 * (e1 ^ e0)) in the plane-based models did not compile, as it refers to
the inverse of the constant zero.
---
 cpp/include/gatl/ga/extra/blade_exponential.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/cpp/include/gatl/ga/extra/blade_exponential.hpp b/cpp/include/gatl/ga/extra/blade_exponential.hpp
index 80271a1..6cce2e0 100644
--- a/cpp/include/gatl/ga/extra/blade_exponential.hpp
+++ b/cpp/include/gatl/ga/extra/blade_exponential.hpp
@@ -35,10 +35,14 @@ namespace ga {
 
         using signed_squared_alpha_value = detail::coefficient_t<detail::product_t<blade_expression, blade_expression, detail::metric_space_mapping_t<MetricSpaceType, detail::sp_mapping> > >;
         using squared_alpha_value = detail::absolute_t<signed_squared_alpha_value>;
-        using alpha_value = detail::power_t<squared_alpha_value, detail::power_t<detail::constant_value<2>, detail::constant_value<-1> > >;
+
+        using squares_to_zero = std::bool_constant<std::is_same_v<squared_alpha_value, detail::constant_value<0> > >;
+        using small_squared_alpha = detail::logical_or_t<squares_to_zero, detail::less_or_equal_t<squared_alpha_value, tolerance_value> >;
+
+        using alpha_value = detail::power_t<std::conditional_t<squares_to_zero::value, detail::constant_value<1>, squared_alpha_value>, detail::power_t<detail::constant_value<2>, detail::constant_value<-1> > >; // alpha is not used when it is known to be zero
 
         using scalar_coefficient_value = detail::if_else_t<
-            detail::less_or_equal_t<squared_alpha_value, tolerance_value>,
+            small_squared_alpha,
             detail::constant_value<1>,
             detail::if_else_t<
                 detail::less_or_equal_t<signed_squared_alpha_value, detail::constant_value<0> >,
@@ -48,7 +52,7 @@ namespace ga {
         >;
 
         using blade_weight_value = detail::if_else_t<
-            detail::less_or_equal_t<squared_alpha_value, tolerance_value>,
+            small_squared_alpha,
             detail::constant_value<1>,
             detail::if_else_t<
                 detail::less_or_equal_t<signed_squared_alpha_value, detail::constant_value<0> >,
-- 
2.43.0


From ba15b4eade90b40c71b51f3aaa9763b0ab52ca27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:40 +0000
Subject: [PATCH 07/24] fix: undualize with respect to the pseudoscalar in the
 dual parameter functions

---
 cpp/include/gatl/ga/model/conformal/flat_direction.hpp          | 2 +-
 cpp/include/gatl/ga/model/conformal/round_direction.hpp         | 2 +-
 cpp/include/gatl/ga/model/conformal/tangent_direction.hpp       | 2 +-
 cpp/include/gatl/ga/model/signed/minkowski/flat_direction.hpp   | 2 +-
 cpp/include/gatl/ga/model/signed/minkowski/round_direction.hpp  | 2 +-
 .../gatl/ga/model/signed/minkowski/tangent_direction.hpp        | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/cpp/include/gatl/ga/model/conformal/flat_direction.hpp b/cpp/include/gatl/ga/model/conformal/flat_direction.hpp
index 8af2834..e826a60 100644
--- a/cpp/include/gatl/ga/model/conformal/flat_direction.hpp
+++ b/cpp/include/gatl/ga/model/conformal/flat_direction.hpp
@@ -30,7 +30,7 @@ namespace ga {
     template<typename CoefficientType, typename Expression, ndims_t D>
     constexpr decltype(auto) dual_flat_direction(clifford_expression<CoefficientType, Expression> const &dual_flat, conformal_metric_space<D> const &mtr) GA_NOEXCEPT {
         constexpr auto ni = e(c<D + 2>);
-        return lcont(-ni, undual(dual_flat, mtr), mtr);
+        return lcont(-ni, undual(dual_flat, pseudoscalar(mtr), mtr), mtr);
     }
 
     // Returns the direction parameter of a given primal flat.
diff --git a/cpp/include/gatl/ga/model/conformal/round_direction.hpp b/cpp/include/gatl/ga/model/conformal/round_direction.hpp
index 8909c0f..841b729 100644
--- a/cpp/include/gatl/ga/model/conformal/round_direction.hpp
+++ b/cpp/include/gatl/ga/model/conformal/round_direction.hpp
@@ -31,7 +31,7 @@ namespace ga {
     constexpr decltype(auto) dual_round_direction(clifford_expression<CoefficientType, Expression> const &dual_round, conformal_metric_space<D> const &mtr) GA_NOEXCEPT {
         auto [lazy, dual_round_] = make_lazy_context_tuple(dual_round);
         constexpr auto ni = e(c<D + 2>);
-        return lazy.eval(op(lcont(-ni, undual(dual_round_, mtr), mtr), ni, mtr));
+        return lazy.eval(op(lcont(-ni, undual(dual_round_, pseudoscalar(mtr), mtr), mtr), ni, mtr));
     }
 
     // Returns the direction parameter of a given primal round.
diff --git a/cpp/include/gatl/ga/model/conformal/tangent_direction.hpp b/cpp/include/gatl/ga/model/conformal/tangent_direction.hpp
index 1e5c3bb..c4a9e49 100644
--- a/cpp/include/gatl/ga/model/conformal/tangent_direction.hpp
+++ b/cpp/include/gatl/ga/model/conformal/tangent_direction.hpp
@@ -31,7 +31,7 @@ namespace ga {
     constexpr decltype(auto) dual_tangent_direction(clifford_expression<CoefficientType, Expression> const &dual_tangent, conformal_metric_space<D> const &mtr) GA_NOEXCEPT {
         auto [lazy, dual_tangent_] = make_lazy_context_tuple(dual_tangent);
         constexpr auto ni = e(c<D + 2>);
-        return lazy.eval(op(lcont(-ni, undual(dual_tangent_, mtr), mtr), ni, mtr));
+        return lazy.eval(op(lcont(-ni, undual(dual_tangent_, pseudoscalar(mtr), mtr), mtr), ni, mtr));
     }
 
     // Returns the direction parameter of a given primal tangent.
diff --git a/cpp/include/gatl/ga/model/signed/minkowski/flat_direction.hpp b/cpp/include/gatl/ga/model/signed/minkowski/flat_direction.hpp
index 8eb7eff..59135b2 100644
--- a/cpp/include/gatl/ga/model/signed/minkowski/flat_direction.hpp
+++ b/cpp/include/gatl/ga/model/signed/minkowski/flat_direction.hpp
@@ -30,7 +30,7 @@ namespace ga {
     template<typename CoefficientType, typename Expression, ndims_t D>
     constexpr decltype(auto) dual_flat_direction(clifford_expression<CoefficientType, Expression> const &dual_flat, minkowski_metric_space<D> const &mtr) GA_NOEXCEPT {
         constexpr auto ni = e(c<D + 1>) + e(c<D + 2>);
-        return lcont(-ni, undual(dual_flat, mtr), mtr);
+        return lcont(-ni, undual(dual_flat, pseudoscalar(mtr), mtr), mtr);
     }
 
     // Returns the direction parameter of a given primal flat.
diff --git a/cpp/include/gatl/ga/model/signed/minkowski/round_direction.hpp b/cpp/include/gatl/ga/model/signed/minkowski/round_direction.hpp
index e81c864..9a12ba8 100644
--- a/cpp/include/gatl/ga/model/signed/minkowski/round_direction.hpp
+++ b/cpp/include/gatl/ga/model/signed/minkowski/round_direction.hpp
@@ -31,7 +31,7 @@ namespace ga {
     constexpr decltype(auto) dual_round_direction(clifford_expression<CoefficientType, Expression> const &dual_round, minkowski_metric_space<D> const &mtr) GA_NOEXCEPT {
         auto [lazy, dual_round_] = make_lazy_context_tuple(dual_round);
         constexpr auto ni = e(c<D + 1>) + e(c<D + 2>);
-        return lazy.eval(op(lcont(-ni, undual(dual_round_, mtr), mtr), ni, mtr));
+        return lazy.eval(op(lcont(-ni, undual(dual_round_, pseudoscalar(mtr), mtr), mtr), ni, mtr));
     }
 
     // Returns the direction parameter of a given primal round.
diff --git a/cpp/include/gatl/ga/model/signed/minkowski/tangent_direction.hpp b/cpp/include/gatl/ga/model/signed/minkowski/tangent_direction.hpp
index 1c8c4f0..a8fece8 100644
--- a/cpp/include/gatl/ga/model/signed/minkowski/tangent_direction.hpp
+++ b/cpp/include/gatl/ga/model/signed/minkowski/tangent_direction.hpp
@@ -31,7 +31,7 @@ namespace ga {
     constexpr decltype(auto) dual_tangent_direction(clifford_expression<CoefficientType, Expression> const &dual_tangent, minkowski_metric_space<D> const &mtr) GA_NOEXCEPT {
         auto [lazy, dual_tangent_] = make_lazy_context_tuple(dual_tangent);
         constexpr auto ni = e(c<D + 1>) + e(c<D + 2>);
-        return lazy.eval(op(lcont(-ni, undual(dual_tangent_, mtr), mtr), ni, mtr));
+        return lazy.eval(op(lcont(-ni, undual(dual_tangent_, pseudoscalar(mtr), mtr), mtr), ni, mtr));
     }
 
     // Returns the direction parameter of a given primal tangent.
-- 
2.43.0


From f5d008713c517a19fef4df5e0434bf7c538dc797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:09 +0000
Subject: [PATCH 08/24] fix: terminate the static assertions on user-defined
 tolerances

---
 cpp/include/gatl/ga/core/default_tolerance.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp/include/gatl/ga/core/default_tolerance.hpp b/cpp/include/gatl/ga/core/default_tolerance.hpp
index cfbf2c2..d0963eb 100644
--- a/cpp/include/gatl/ga/core/default_tolerance.hpp
+++ b/cpp/include/gatl/ga/core/default_tolerance.hpp
@@ -27,13 +27,13 @@
 #ifndef GA_DEFAULT_FLT_TOLERANCE
     #define GA_DEFAULT_FLT_TOLERANCE 1.0e-8f
 #else
-    static_assert(GA_DEFAULT_FLT_TOLERANCE >= 0, "GA_DEFAULT_FLT_TOLERANCE must be a non-negative value.")
+    static_assert(GA_DEFAULT_FLT_TOLERANCE >= 0, "GA_DEFAULT_FLT_TOLERANCE must be a non-negative value.");
 #endif // GA_DEFAULT_FLT_TOLERANCE
 
 #ifndef GA_DEFAULT_DBL_TOLERANCE
     #define GA_DEFAULT_DBL_TOLERANCE 1.0e-8
 #else
-    static_assert(GA_DEFAULT_DBL_TOLERANCE >= 0, "GA_DEFAULT_DBL_TOLERANCE must be a non-negative value.")
+    static_assert(GA_DEFAULT_DBL_TOLERANCE >= 0, "GA_DEFAULT_DBL_TOLERANCE must be a non-negative value.");
 #endif // GA_DEFAULT_DBL_TOLERANCE
 
 namespace ga {
-- 
2.43.0


From 9bedd29ef200c211232be86488cad3ede961e204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:07 +0000
Subject: [PATCH 09/24] fix: do not truncate fractional compile-time
 coefficients to integers

---
 cpp/include/gatl/ga/extra/tests.hpp             |  2 +-
 cpp/include/gatl/ga/util/for_each_component.hpp | 11 +++++++++--
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/cpp/include/gatl/ga/extra/tests.hpp b/cpp/include/gatl/ga/extra/tests.hpp
index a5e41c1..71e9102 100644
--- a/cpp/include/gatl/ga/extra/tests.hpp
+++ b/cpp/include/gatl/ga/extra/tests.hpp
@@ -30,7 +30,7 @@ namespace ga {
     template<typename CoefficientType, typename Expression, typename ToleranceType>
     constexpr bool is_zero(clifford_expression<CoefficientType, Expression> const &arg, ToleranceType const &tol) {
         using std::abs;
-        return for_each_component(arg, [&](bitset_t const, CoefficientType const &value, entry_source_t const, entry_source_t const, bool &keep_going) { keep_going = abs(value) <= (CoefficientType)tol; });
+        return for_each_component(arg, [&](bitset_t const, auto const &value, entry_source_t const, entry_source_t const, bool &keep_going) { keep_going = abs(value) <= static_cast<std::remove_cv_t<std::remove_reference_t<decltype(value)> > >(tol); });
     }
 
     template<typename CoefficientType, typename Expression>
diff --git a/cpp/include/gatl/ga/util/for_each_component.hpp b/cpp/include/gatl/ga/util/for_each_component.hpp
index d4f9edf..c2b6370 100644
--- a/cpp/include/gatl/ga/util/for_each_component.hpp
+++ b/cpp/include/gatl/ga/util/for_each_component.hpp
@@ -31,6 +31,13 @@ namespace ga {
 
     namespace detail {
 
+        // Returns a coefficient known in compilation time. Coefficients that are fractional values (e.g., the ones of the null vector at the origin of the Minkowski model) can not be represented by integral coefficient types.
+        template<typename ValueType, typename Coefficient>
+        GA_ALWAYS_INLINE constexpr decltype(auto) _for_each_component_constant() GA_NOEXCEPT {
+            using result_type = std::remove_cv_t<std::remove_reference_t<decltype(Coefficient::template eval<0, 0>(std::make_tuple()))> >;
+            return static_cast<std::conditional_t<std::is_integral_v<ValueType> && std::is_floating_point_v<result_type>, result_type, ValueType> >(Coefficient::template eval<0, 0>(std::make_tuple()));
+        }
+
         // Implementation of the for_each_component() function.
         template<typename ValueType, typename Expression>
         struct _for_each_component_impl;
@@ -59,7 +66,7 @@ namespace ga {
             template<typename ValueCItr, typename BitsetCItr, typename MapCIts, typename Function>
             GA_ALWAYS_INLINE constexpr static bool run(ValueCItr const &, BitsetCItr const &, MapCIts const &, Function f) GA_NOEXCEPT(GA_NOEXCEPT(f)) {
                 bool keep_going = true;
-                f(BasisVectors, static_cast<ValueType>(Coefficient::template eval<0, 0>(std::make_tuple())), entry_source_t::COMPILE_TIME_DEFINED_ENTRY, entry_source_t::COMPILE_TIME_DEFINED_ENTRY, keep_going);
+                f(BasisVectors, _for_each_component_constant<ValueType, Coefficient>(), entry_source_t::COMPILE_TIME_DEFINED_ENTRY, entry_source_t::COMPILE_TIME_DEFINED_ENTRY, keep_going);
                 return keep_going;
             }
         };
@@ -82,7 +89,7 @@ namespace ga {
             template<typename ValueCItr, typename BitsetCItr, typename MapCIts, typename Function>
             GA_ALWAYS_INLINE constexpr static bool run(ValueCItr const &, BitsetCItr &bitset_citr, MapCIts const &, Function f) GA_NOEXCEPT(GA_NOEXCEPT(f)) {
                 bool keep_going = true;
-                f(*bitset_citr, static_cast<ValueType>(Coefficient::template eval<0, 0>(std::make_tuple())), entry_source_t::STORED_RUNTIME_DEFINED_ENTRY, entry_source_t::COMPILE_TIME_DEFINED_ENTRY, keep_going);
+                f(*bitset_citr, _for_each_component_constant<ValueType, Coefficient>(), entry_source_t::STORED_RUNTIME_DEFINED_ENTRY, entry_source_t::COMPILE_TIME_DEFINED_ENTRY, keep_going);
                 ++bitset_citr;
                 return keep_going;
             }
-- 
2.43.0


From 27be282c7042a8bb732b7869c8d5153726409624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:15 +0000
Subject: [PATCH 10/24] fix: convert the coordinates of vectors to the
 coefficient type

---
 cpp/include/gatl/ga/util/vector.hpp | 56 ++++++++++-------------------
 1 file changed, 18 insertions(+), 38 deletions(-)

diff --git a/cpp/include/gatl/ga/util/vector.hpp b/cpp/include/gatl/ga/util/vector.hpp
index bb275b4..1bcd466 100644
--- a/cpp/include/gatl/ga/util/vector.hpp
+++ b/cpp/include/gatl/ga/util/vector.hpp
@@ -77,44 +77,24 @@ namespace ga {
             static_assert(is_scalar_component_v<Expression>, "The given coordinate is not defined as a scalar value in compilation time.");
         };
 
-        // Helper structures to build a sequential storage of vector coordinates.
-        struct make_vector_sequential_storage_simple {
-            template<typename... Types>
-            GA_ALWAYS_INLINE constexpr static decltype(auto) run(Types &&... coords) GA_NOEXCEPT {
-                return make_sequential_storage(std::move(coords)...);
-            }
-        };
-
-        struct make_vector_sequential_storage_not_simple {
+        // Helper structure to build a sequential storage with the vector coordinates that are not known in compilation time.
+        template<typename CoefficientType>
+        struct make_vector_sequential_storage {
         private:
 
-            template<typename ValueType, std::size_t Size, std::size_t... Indices>
-            GA_ALWAYS_INLINE constexpr static decltype(auto) to_values_tuple(sequential_storage<ValueType, Size> &&values, std::index_sequence<Indices...> const) GA_NOEXCEPT {
-                return std::tie(std::get<Indices>(std::move(values))...);
-            }
-
-            template<typename ValueType, std::size_t Size>
-            GA_ALWAYS_INLINE constexpr static decltype(auto) to_values_tuple(sequential_storage<ValueType, Size> &&values) GA_NOEXCEPT {
-                return to_values_tuple(std::move(values), std::make_index_sequence<Size>{});
-            }
-
-            template<typename ValueType>
-            GA_ALWAYS_INLINE constexpr static decltype(auto) to_values_tuple(sequential_storage<ValueType, 0> &&) GA_NOEXCEPT {
-                return std::make_tuple();
-            }
-
-            GA_ALWAYS_INLINE constexpr static decltype(auto) make_values_tuple() GA_NOEXCEPT {
-                return std::make_tuple();
-            }
-
-            template<typename CoordinateType, typename... NextTypes>
-            GA_ALWAYS_INLINE constexpr static decltype(auto) make_values_tuple(CoordinateType &&coord, NextTypes &&... next_coords) GA_NOEXCEPT {
-                return std::tuple_cat(std::make_tuple(std::move(coord)), make_values_tuple(std::move(next_coords)...));
+            template<typename CoordinateType>
+            GA_ALWAYS_INLINE constexpr static decltype(auto) make_values_tuple(CoordinateType const &coord) GA_NOEXCEPT {
+                return std::make_tuple(static_cast<CoefficientType>(coord));
             }
 
-            template<typename CoefficientType, typename Coefficient, typename... NextTypes>
-            GA_ALWAYS_INLINE constexpr static decltype(auto) make_values_tuple(scalar_clifford_expression<CoefficientType, Coefficient> const &&coord, NextTypes &&... next_coords) GA_NOEXCEPT {
-                return std::tuple_cat(to_values_tuple(coord.values()), make_values_tuple(std::move(next_coords)...));
+            template<typename CoordinateCoefficientType, typename Coefficient>
+            GA_ALWAYS_INLINE constexpr static decltype(auto) make_values_tuple(scalar_clifford_expression<CoordinateCoefficientType, Coefficient> const &coord) GA_NOEXCEPT {
+                if constexpr (count_stored_values_v<Coefficient> == 0) {
+                    return std::make_tuple();
+                }
+                else {
+                    return std::make_tuple(static_cast<CoefficientType>(static_cast<CoordinateCoefficientType>(coord)));
+                }
             }
 
             template<typename... ValueTypes, std::size_t... Indices>
@@ -124,14 +104,14 @@ namespace ga {
 
             template<typename... ValueTypes>
             GA_ALWAYS_INLINE constexpr static decltype(auto) to_sequential_storage(std::tuple<ValueTypes...> &&tuple) GA_NOEXCEPT {
-                return to_sequential_storage(std::move(tuple), std::make_index_sequence<std::tuple_size_v<std::remove_cv_t<std::remove_reference_t<std::tuple<ValueTypes...> > > > >{});
+                return to_sequential_storage(std::move(tuple), std::index_sequence_for<ValueTypes...>{});
             }
 
         public:
 
             template<typename... Types>
-            GA_ALWAYS_INLINE constexpr static decltype(auto) run(Types &&... coords) GA_NOEXCEPT {
-                return to_sequential_storage(make_values_tuple(std::move(coords)...));
+            GA_ALWAYS_INLINE constexpr static decltype(auto) run(Types const &... coords) GA_NOEXCEPT {
+                return to_sequential_storage(std::tuple_cat(make_values_tuple(coords)...));
             }
         };
 
@@ -140,7 +120,7 @@ namespace ga {
         struct make_vector {
             template<typename... Types>
             GA_ALWAYS_INLINE constexpr static CliffordExpression run(Types &&... coords) GA_NOEXCEPT {
-                return CliffordExpression(std::conditional_t<std::disjunction_v<std::bool_constant<is_clifford_expression_v<std::remove_cv_t<std::remove_reference_t<Types> > > >...>, detail::make_vector_sequential_storage_not_simple, detail::make_vector_sequential_storage_simple>::run(std::move(coords)...));
+                return CliffordExpression(make_vector_sequential_storage<typename CliffordExpression::coefficient_type>::run(coords...));
             }
         };
 
-- 
2.43.0


From 9501f0ea0b017e966023b4882fd3d078a2c39a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:29 +0000
Subject: [PATCH 11/24] fix: accept the metric space argument of vector in the
 algebra namespaces

---
 cpp/include/gatl/ga/util/macro_for_algebra_overload.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/include/gatl/ga/util/macro_for_algebra_overload.hpp b/cpp/include/gatl/ga/util/macro_for_algebra_overload.hpp
index e0d5066..cf661bc 100644
--- a/cpp/include/gatl/ga/util/macro_for_algebra_overload.hpp
+++ b/cpp/include/gatl/ga/util/macro_for_algebra_overload.hpp
@@ -29,7 +29,7 @@
         return pseudoscalar(SPACE); \
     } \
     \
-    template<typename... Types, std::enable_if_t<std::disjunction_v<std::bool_constant<!detail::is_iterator_v<Types> >...>, int> = 0> \
+    template<typename... Types, std::enable_if_t<std::disjunction_v<std::bool_constant<!detail::is_iterator_v<Types> >...> && !std::disjunction_v<std::bool_constant<is_metric_space_v<std::remove_cv_t<std::remove_reference_t<Types> > > >...>, int> = 0> \
     constexpr decltype(auto) vector(Types &&... coords) GA_NOEXCEPT { \
         return ga::vector(SPACE, std::move(coords)...); \
     } \
-- 
2.43.0


From ec51002b7ae403bfedf0eb1d32694e0f4e666560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:54 +0000
Subject: [PATCH 12/24] fix: divide constants in floating point arithmetic

---
 cpp/include/gatl/ga/core/expression.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/include/gatl/ga/core/expression.hpp b/cpp/include/gatl/ga/core/expression.hpp
index 824a7fb..3ae06c0 100644
--- a/cpp/include/gatl/ga/core/expression.hpp
+++ b/cpp/include/gatl/ga/core/expression.hpp
@@ -1071,7 +1071,7 @@ namespace ga {
 
             template<tag_t LowerTag, tag_t UpperTag, typename... InputTypes>
             GA_ALWAYS_INLINE constexpr static decltype(auto) eval(std::tuple<InputTypes...> const &args) {
-                return LeftArgument::template eval<LowerTag, UpperTag>(args) / RightArgument::template eval<LowerTag, UpperTag>(args);
+                return LeftArgument::template eval<LowerTag, UpperTag>(args) / cast_to_floating_point(RightArgument::template eval<LowerTag, UpperTag>(args));
             }
 
             static_assert(!is_any_v<constant_value<0>, LeftArgument>, "The argument ga::detail::constant_value<0> is invalid.");
-- 
2.43.0


From 1bf47ed826313bc0e5ef268b4be8fb8bfdd635e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:13 +0000
Subject: [PATCH 13/24] fix: boolean constants as alternatives of if_else could
 not be evaluated

---
 cpp/include/gatl/ga/core/expression.hpp       | 19 ++++++++++++++++++-
 .../gatl/ga/core/expression_traits.hpp        |  5 +++++
 2 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/cpp/include/gatl/ga/core/expression.hpp b/cpp/include/gatl/ga/core/expression.hpp
index 3ae06c0..53e14a8 100644
--- a/cpp/include/gatl/ga/core/expression.hpp
+++ b/cpp/include/gatl/ga/core/expression.hpp
@@ -797,6 +797,23 @@ namespace ga {
             std::false_type { // simplify
         };
 
+        // Evaluates one of the alternatives of if_else<Test, TrueValue, FalseValue>, which may be either an expression or a boolean constant.
+        template<typename Value>
+        struct _if_else_alternative {
+            template<tag_t LowerTag, tag_t UpperTag, typename... InputTypes>
+            GA_ALWAYS_INLINE constexpr static decltype(auto) eval(std::tuple<InputTypes...> const &args) {
+                return Value::template eval<LowerTag, UpperTag>(args);
+            }
+        };
+
+        template<bool Value>
+        struct _if_else_alternative<std::bool_constant<Value> > {
+            template<tag_t LowerTag, tag_t UpperTag, typename... InputTypes>
+            GA_ALWAYS_INLINE constexpr static bool eval(std::tuple<InputTypes...> const &) GA_NOEXCEPT {
+                return Value;
+            }
+        };
+
         // Specializations of if_else<Test, TrueValue, FalseValue>.
         template<typename Test, typename TrueValue, typename FalseValue>
         struct function<name_t::if_else, Test, TrueValue, FalseValue> {
@@ -808,7 +825,7 @@ namespace ga {
 
             template<tag_t LowerTag, tag_t UpperTag, typename... InputTypes>
             GA_ALWAYS_INLINE constexpr static decltype(auto) eval(std::tuple<InputTypes...> const &args) {
-                return Test::template eval<LowerTag, UpperTag>(args) ? TrueValue::template eval<LowerTag, UpperTag>(args) : FalseValue::template eval<LowerTag, UpperTag>(args);
+                return Test::template eval<LowerTag, UpperTag>(args) ? _if_else_alternative<TrueValue>::template eval<LowerTag, UpperTag>(args) : _if_else_alternative<FalseValue>::template eval<LowerTag, UpperTag>(args);
             }
         };
 
diff --git a/cpp/include/gatl/ga/core/expression_traits.hpp b/cpp/include/gatl/ga/core/expression_traits.hpp
index 7a83dae..e6f4ccf 100644
--- a/cpp/include/gatl/ga/core/expression_traits.hpp
+++ b/cpp/include/gatl/ga/core/expression_traits.hpp
@@ -42,6 +42,11 @@ namespace ga {
             std::true_type {
         };
 
+        template<bool Value>
+        struct can_be_stored<std::bool_constant<Value> > :
+            std::true_type {
+        };
+
         template<>
         struct can_be_stored<stored_value> :
             std::true_type {
-- 
2.43.0


From 0587066baa4fbbbeb6c6ada66de7dbf4fa65a573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:32 +0000
Subject: [PATCH 14/24] fix: lazy_context keeps copies of its inputs, not
 references to temporaries

---
 cpp/include/gatl/ga/core/lazy_context.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/include/gatl/ga/core/lazy_context.hpp b/cpp/include/gatl/ga/core/lazy_context.hpp
index 3ef7987..0f1f821 100644
--- a/cpp/include/gatl/ga/core/lazy_context.hpp
+++ b/cpp/include/gatl/ga/core/lazy_context.hpp
@@ -520,7 +520,7 @@ namespace ga {
 
         private:
 
-            input_type const &input_;
+            input_type const input_;
         };
 
         template<std::size_t ReverseIndex, typename InputCoefficientType, typename InputExpression>
-- 
2.43.0


From f590b0952d4b77e29f278892e98f4749fbb9e0c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:12 +0000
Subject: [PATCH 15/24] fix: conversion from a non-const multivector of another
 shape compiles, and a failed one throws instead of terminating

---
 cpp/include/gatl/ga/core/clifford_expression.hpp | 6 +++---
 cpp/include/gatl/ga/core/trivial_copy.hpp        | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/cpp/include/gatl/ga/core/clifford_expression.hpp b/cpp/include/gatl/ga/core/clifford_expression.hpp
index 63f2af0..a6de207 100644
--- a/cpp/include/gatl/ga/core/clifford_expression.hpp
+++ b/cpp/include/gatl/ga/core/clifford_expression.hpp
@@ -697,12 +697,12 @@ namespace ga {
         constexpr clifford_expression(clifford_expression &&) = default;
 
         template<typename OtherCoefficientType, typename OtherExpression>
-        clifford_expression(clifford_expression<OtherCoefficientType, OtherExpression> const &other) GA_NOEXCEPT;
+        clifford_expression(clifford_expression<OtherCoefficientType, OtherExpression> const &other);
 
         template<typename OtherCoefficientType, typename OtherExpression>
-        clifford_expression(clifford_expression<OtherCoefficientType, OtherExpression> &&other) GA_NOEXCEPT;
+        clifford_expression(clifford_expression<OtherCoefficientType, OtherExpression> &&other);
 
-        template<typename... StorageTypes>
+        template<typename... StorageTypes, std::enable_if_t<!std::disjunction_v<is_clifford_expression<std::remove_cv_t<std::remove_reference_t<StorageTypes> > >...>, int> = 0>
         constexpr clifford_expression(StorageTypes &&... args) GA_NOEXCEPT :
             super(std::move(args)...) {
         }
diff --git a/cpp/include/gatl/ga/core/trivial_copy.hpp b/cpp/include/gatl/ga/core/trivial_copy.hpp
index d47356a..c0ee97d 100644
--- a/cpp/include/gatl/ga/core/trivial_copy.hpp
+++ b/cpp/include/gatl/ga/core/trivial_copy.hpp
@@ -478,7 +478,7 @@ namespace ga {
 
     template<typename CoefficientType, typename Expression>
     template<typename OtherCoefficientType, typename OtherExpression>
-    clifford_expression<CoefficientType, Expression>::clifford_expression(clifford_expression<OtherCoefficientType, OtherExpression> const &other) GA_NOEXCEPT :
+    clifford_expression<CoefficientType, Expression>::clifford_expression(clifford_expression<OtherCoefficientType, OtherExpression> const &other) :
         clifford_expression() {
         _GA_ONE_TIME_WARNING("Implicit call to 'checked_trivial_copy' function in the copy constructor of the 'clifford_expression' class. Consider using 'auto' instead of a custom expression type to avoid performance issues while initializing variables.")
         checked_trivial_copy(other, *this);
@@ -486,7 +486,7 @@ namespace ga {
 
     template<typename CoefficientType, typename Expression>
     template<typename OtherCoefficientType, typename OtherExpression>
-    clifford_expression<CoefficientType, Expression>::clifford_expression(clifford_expression<OtherCoefficientType, OtherExpression> &&other) GA_NOEXCEPT :
+    clifford_expression<CoefficientType, Expression>::clifford_expression(clifford_expression<OtherCoefficientType, OtherExpression> &&other) :
         clifford_expression() {
         _GA_ONE_TIME_WARNING("Implicit call to 'checked_trivial_copy' function in the moving constructor of the 'clifford_expression' class. Consider using 'auto' instead of a custom expression type to avoid performance issues while initializing variables.")
         checked_trivial_copy(other, *this);
-- 
2.43.0


From ee849477fc219e35a84e27f1caa6b3f256e520db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:23 +0000
Subject: [PATCH 16/24] fix: an exception thrown by the function given to
 for_each_component or for_each_basis_vector leaves it instead of terminating

---
 cpp/include/gatl/ga/util/for_each_basis_vector.hpp |  6 +++---
 cpp/include/gatl/ga/util/for_each_component.hpp    | 14 +++++++-------
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/cpp/include/gatl/ga/util/for_each_basis_vector.hpp b/cpp/include/gatl/ga/util/for_each_basis_vector.hpp
index e875c9a..38756d8 100644
--- a/cpp/include/gatl/ga/util/for_each_basis_vector.hpp
+++ b/cpp/include/gatl/ga/util/for_each_basis_vector.hpp
@@ -28,7 +28,7 @@ namespace ga {
 
     // Applies the given function object f to the result of dereferencing every basis vector in the given instance of ga::clifford_expression<CoefficientType, Expression> comprised by a single scaled basis blade or bitset. The list of parameters of the function is: ga::index_t const index, bool &keep_going. The keep_going parameter is always initialized to true.
     template<typename Function>
-    inline bool for_each_basis_vector(bitset_t arg, Function f) GA_NOEXCEPT(GA_NOEXCEPT(f)) {
+    inline bool for_each_basis_vector(bitset_t arg, Function f) {
         bool keep_going = true;
         while (arg != bitset_t(0) && keep_going) {
             bitset_t const current_set_bit = detail::rightmost_set_bit(arg);
@@ -39,13 +39,13 @@ namespace ga {
     };
 
     template<typename CoefficientType, typename Coefficient, bitset_t BasisVectors, typename Function>
-    inline bool for_each_basis_vector(clifford_expression<CoefficientType, detail::component<Coefficient, detail::constant_basis_blade<BasisVectors> > > const &, Function f) GA_NOEXCEPT(GA_NOEXCEPT(f)) {
+    inline bool for_each_basis_vector(clifford_expression<CoefficientType, detail::component<Coefficient, detail::constant_basis_blade<BasisVectors> > > const &, Function f) {
         static_assert(detail::can_be_stored_v<Coefficient>, "The ga::for_each_basis_vector() function does not allow lazy evaluation with arguments from a lazy context.");
         return for_each_basis_vector(BasisVectors, f);
     };
 
     template<typename CoefficientType, typename Coefficient, bitset_t PossibleGrades, typename Function>
-    inline bool for_each_basis_vector(clifford_expression<CoefficientType, detail::component<Coefficient, detail::dynamic_basis_blade<PossibleGrades, detail::stored_bitset> > > const &arg, Function f) GA_NOEXCEPT(GA_NOEXCEPT(f)) {
+    inline bool for_each_basis_vector(clifford_expression<CoefficientType, detail::component<Coefficient, detail::dynamic_basis_blade<PossibleGrades, detail::stored_bitset> > > const &arg, Function f) {
         static_assert(detail::can_be_stored_v<Coefficient>, "The ga::for_each_basis_vector() function does not allow lazy evaluation with arguments from a lazy context.");
         return for_each_basis_vector(*arg.bitsets().cbegin(), f);
     };
diff --git a/cpp/include/gatl/ga/util/for_each_component.hpp b/cpp/include/gatl/ga/util/for_each_component.hpp
index c2b6370..8ed3de9 100644
--- a/cpp/include/gatl/ga/util/for_each_component.hpp
+++ b/cpp/include/gatl/ga/util/for_each_component.hpp
@@ -48,7 +48,7 @@ namespace ga {
         template<typename ValueType, typename Coefficient, typename BasisBlade, typename... NextComponents>
         struct _for_each_component_impl<ValueType, add<component<Coefficient, BasisBlade>, NextComponents...> > {
             template<typename ValueCItr, typename BitsetCItr, typename MapCIts, typename Function>
-            GA_ALWAYS_INLINE constexpr static bool run(ValueCItr &value_citr, BitsetCItr &bitset_citr, MapCIts &map_citr, Function f) GA_NOEXCEPT(GA_NOEXCEPT(f)) {
+            GA_ALWAYS_INLINE constexpr static bool run(ValueCItr &value_citr, BitsetCItr &bitset_citr, MapCIts &map_citr, Function f) {
                 return _for_each_component_impl_inner_iteration<ValueType, Coefficient, BasisBlade>::run(value_citr, bitset_citr, map_citr, f)
                     && _for_each_component_impl<ValueType, add_t<NextComponents...> >::run(value_citr, bitset_citr, map_citr, f);
             }
@@ -64,7 +64,7 @@ namespace ga {
             static_assert(can_be_stored_v<Coefficient>, "The ga::for_each_component() function does not allow lazy evaluation with arguments from a lazy context.");
 
             template<typename ValueCItr, typename BitsetCItr, typename MapCIts, typename Function>
-            GA_ALWAYS_INLINE constexpr static bool run(ValueCItr const &, BitsetCItr const &, MapCIts const &, Function f) GA_NOEXCEPT(GA_NOEXCEPT(f)) {
+            GA_ALWAYS_INLINE constexpr static bool run(ValueCItr const &, BitsetCItr const &, MapCIts const &, Function f) {
                 bool keep_going = true;
                 f(BasisVectors, _for_each_component_constant<ValueType, Coefficient>(), entry_source_t::COMPILE_TIME_DEFINED_ENTRY, entry_source_t::COMPILE_TIME_DEFINED_ENTRY, keep_going);
                 return keep_going;
@@ -74,7 +74,7 @@ namespace ga {
         template<typename ValueType, bitset_t BasisVectors>
         struct _for_each_component_impl_inner_iteration<ValueType, stored_value, constant_basis_blade<BasisVectors> > {
             template<typename ValueCItr, typename BitsetCItr, typename MapCIts, typename Function>
-            GA_ALWAYS_INLINE constexpr static bool run(ValueCItr &value_citr, BitsetCItr const &, MapCIts const &, Function f) GA_NOEXCEPT(GA_NOEXCEPT(f)) {
+            GA_ALWAYS_INLINE constexpr static bool run(ValueCItr &value_citr, BitsetCItr const &, MapCIts const &, Function f) {
                 bool keep_going = true;
                 f(BasisVectors, *value_citr, entry_source_t::COMPILE_TIME_DEFINED_ENTRY, entry_source_t::STORED_RUNTIME_DEFINED_ENTRY, keep_going);
                 ++value_citr;
@@ -87,7 +87,7 @@ namespace ga {
             static_assert(can_be_stored_v<Coefficient>, "The ga::for_each_component() function does not allow lazy evaluation with arguments from a lazy context.");
 
             template<typename ValueCItr, typename BitsetCItr, typename MapCIts, typename Function>
-            GA_ALWAYS_INLINE constexpr static bool run(ValueCItr const &, BitsetCItr &bitset_citr, MapCIts const &, Function f) GA_NOEXCEPT(GA_NOEXCEPT(f)) {
+            GA_ALWAYS_INLINE constexpr static bool run(ValueCItr const &, BitsetCItr &bitset_citr, MapCIts const &, Function f) {
                 bool keep_going = true;
                 f(*bitset_citr, _for_each_component_constant<ValueType, Coefficient>(), entry_source_t::STORED_RUNTIME_DEFINED_ENTRY, entry_source_t::COMPILE_TIME_DEFINED_ENTRY, keep_going);
                 ++bitset_citr;
@@ -98,7 +98,7 @@ namespace ga {
         template<typename ValueType, bitset_t PossibleGrades>
         struct _for_each_component_impl_inner_iteration<ValueType, stored_value, dynamic_basis_blade<PossibleGrades, stored_bitset> > {
             template<typename ValueCItr, typename BitsetCItr, typename MapCIts, typename Function>
-            GA_ALWAYS_INLINE constexpr static bool run(ValueCItr &value_citr, BitsetCItr &bitset_citr, MapCIts const &, Function f) GA_NOEXCEPT(GA_NOEXCEPT(f)) {
+            GA_ALWAYS_INLINE constexpr static bool run(ValueCItr &value_citr, BitsetCItr &bitset_citr, MapCIts const &, Function f) {
                 bool keep_going = true;
                 f(*bitset_citr, *value_citr, entry_source_t::STORED_RUNTIME_DEFINED_ENTRY, entry_source_t::STORED_RUNTIME_DEFINED_ENTRY, keep_going);
                 ++value_citr;
@@ -110,7 +110,7 @@ namespace ga {
         template<typename ValueType, bitset_t PossibleGrades>
         struct _for_each_component_impl_inner_iteration<ValueType, stored_map_values, dynamic_basis_blade<PossibleGrades, stored_map_bitsets> > {
             template<typename ValueCItr, typename BitsetCItr, typename MapCIts, typename Function>
-            GA_ALWAYS_INLINE constexpr static bool run(ValueCItr const &, BitsetCItr const &, MapCIts &map_citr, Function f) GA_NOEXCEPT(GA_NOEXCEPT(f)) {
+            GA_ALWAYS_INLINE constexpr static bool run(ValueCItr const &, BitsetCItr const &, MapCIts &map_citr, Function f) {
                 bool keep_going = true;
                 for (auto const &pair : *map_citr) {
                     f(pair.first, pair.second, entry_source_t::MAPPED_RUNTIME_DEFINED_ENTRY, entry_source_t::MAPPED_RUNTIME_DEFINED_ENTRY, keep_going);
@@ -127,7 +127,7 @@ namespace ga {
 
     // Applies the given function object f to the result of dereferencing every component in the given instance of ga::clifford_expression<CoefficientType, Expression>. The list of parameters of the function is: bitset_t const basis_vectors, CoefficientType const &value, ga::entry_source_t const basis_vectors_source, ga::entry_source_t const value_source, bool &keep_going. The keep_going parameter is always initialized to true. This function does not allow lazy evaluation with arguments from a lazy context.
     template<typename CoefficientType, typename Expression, typename Function>
-    inline bool for_each_component(clifford_expression<CoefficientType, Expression> const &arg, Function f) GA_NOEXCEPT(GA_NOEXCEPT(f)) {
+    inline bool for_each_component(clifford_expression<CoefficientType, Expression> const &arg, Function f) {
         static_assert(detail::can_be_stored_v<Expression>, "This function does not expect lazy expressions.");
         auto value_citr = arg.values().cbegin();
         auto bitset_citr = arg.bitsets().cbegin();
-- 
2.43.0


From 3fe0d49967e096bcbaa2609983c9b978744256ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:49 +0000
Subject: [PATCH 17/24] fix: e(c<0>) and e(c<-1>) are rejected at compile time,
 as their static assertion states

---
 cpp/include/gatl/ga/util/basis_vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/include/gatl/ga/util/basis_vector.hpp b/cpp/include/gatl/ga/util/basis_vector.hpp
index 2044b85..832c437 100644
--- a/cpp/include/gatl/ga/util/basis_vector.hpp
+++ b/cpp/include/gatl/ga/util/basis_vector.hpp
@@ -49,7 +49,7 @@ namespace ga {
 
     // Returns a compile-time defined unit basis vector.
     template<typename IndexType, default_integral_t Index, std::enable_if_t<std::is_constructible_v<index_t, IndexType>, int> = 0>
-    constexpr unit_constant_basis_vector_t<Index> e(constant<IndexType, Index> const &) GA_NOEXCEPT {
+    constexpr decltype(auto) e(constant<IndexType, Index> const &) GA_NOEXCEPT {
         static_assert(Index > 0, "Basis vector index out of bounds. It is expected a positive value.");
         return unit_constant_basis_vector_t<Index>();
     }
-- 
2.43.0


From 66beee54a71360d011e7788a46a8a8102d7bc1e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:54 +0000
Subject: [PATCH 18/24] fix: e(index) compiles when GA_MAX_BASIS_VECTOR_INDEX
 selects an 8 or 16-bit bitset

---
 cpp/include/gatl/ga/util/basis_vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/include/gatl/ga/util/basis_vector.hpp b/cpp/include/gatl/ga/util/basis_vector.hpp
index 832c437..1e0962b 100644
--- a/cpp/include/gatl/ga/util/basis_vector.hpp
+++ b/cpp/include/gatl/ga/util/basis_vector.hpp
@@ -44,7 +44,7 @@ namespace ga {
     // Returns a runtime defined unit basis vector.
     constexpr unit_basis_vector_t e(index_t const index) GA_NOEXCEPT {
         assert(index > 0);
-        return unit_basis_vector_t(make_sequential_storage(bitset_t(1) << (index - 1)));
+        return unit_basis_vector_t(make_sequential_storage(bitset_t(bitset_t(1) << (index - 1))));
     }
 
     // Returns a compile-time defined unit basis vector.
-- 
2.43.0


From 11fb0edbab47e6106324cd912f62d177c43e4d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:26 +0000
Subject: [PATCH 19/24] fix: fast_join compiles with operands that leave no
 vector to be joined

---
 .../gatl/ga/extra/fast_meet_and_join.hpp      | 26 ++++++++++---------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/cpp/include/gatl/ga/extra/fast_meet_and_join.hpp b/cpp/include/gatl/ga/extra/fast_meet_and_join.hpp
index f30b8c8..5ed65fd 100644
--- a/cpp/include/gatl/ga/extra/fast_meet_and_join.hpp
+++ b/cpp/include/gatl/ga/extra/fast_meet_and_join.hpp
@@ -82,18 +82,20 @@ namespace ga {
 
             auto const inv_largest = reverse(largest);
 
-            for_each_basis_vector(largest_basis_vectors, [&](index_t const index, bool &keep_going) {
-                full_vector_t<default_integral_t, N> f;
-                *(f.values().begin() + (index - 1)) = 1;
-
-                auto const next_join = op(join, unit(project_vector(f, rhs, inv_largest), em), em);
-
-                if (!is_zero(next_join, tol)) {
-                    checked_trivial_copy(unit(next_join, em), join, tol);
-                    ++current_grade_join;
-                    keep_going = current_grade_join <= N;
-                }
-            });
+            if constexpr (largest_possible_grade_v<RightExpression> != 0 && std::max(smallest_possible_grade_v<LeftExpression>, smallest_possible_grade_v<RightExpression>) != (grade_t)N) { // otherwise, there is no vector to be joined
+                for_each_basis_vector(largest_basis_vectors, [&](index_t const index, bool &keep_going) {
+                    full_vector_t<default_integral_t, N> f;
+                    *(f.values().begin() + (index - 1)) = 1;
+
+                    auto const next_join = op(join, unit(project_vector(f, rhs, inv_largest), em), em);
+
+                    if (!is_zero(next_join, tol)) {
+                        checked_trivial_copy(unit(next_join, em), join, tol);
+                        ++current_grade_join;
+                        keep_going = current_grade_join <= N;
+                    }
+                });
+            }
 
             if (extra_sign_change && ((grade_lhs * grade_rhs) & 1) != 0) {
                 return -join;
-- 
2.43.0


From 31fae448502323a05092062fbe0a9acc98dff475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:57 +0000
Subject: [PATCH 20/24] fix: meet_and_join computes the delta product within
 the given tolerance

---
 cpp/include/gatl/ga/extra/meet_and_join.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/include/gatl/ga/extra/meet_and_join.hpp b/cpp/include/gatl/ga/extra/meet_and_join.hpp
index 9c5e98a..7559f26 100644
--- a/cpp/include/gatl/ga/extra/meet_and_join.hpp
+++ b/cpp/include/gatl/ga/extra/meet_and_join.hpp
@@ -51,7 +51,7 @@ namespace ga {
                 return std::make_pair(meet, join);
             }
 
-            auto const delta = dp(lhs, rhs, em);
+            auto const delta = dp(lhs, rhs, tol, em);
 
             grade_t const grade_delta = grade(delta, tol);
             grade_t const grade_meet = (grade_lhs + grade_rhs - grade_delta) >> 1;
-- 
2.43.0


From af8696e21329854f1e4ee0f827d668f01aaffd4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:09 +0000
Subject: [PATCH 21/24] fix: sums of blades with stored bitsets keep them as
 separate components

The bitsets of two components with stored bitset may differ, although their
types are the same: e(i) + e(j) was 2 * e(i), and 2.0 * e(i) + 3.0 * e(j) did
not compile.
---
 ...ion_simplification_addition_components.hpp | 27 +++++++++++++------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/cpp/include/gatl/ga/core/expression_simplification_addition_components.hpp b/cpp/include/gatl/ga/core/expression_simplification_addition_components.hpp
index 499ffd2..c2c18cd 100644
--- a/cpp/include/gatl/ga/core/expression_simplification_addition_components.hpp
+++ b/cpp/include/gatl/ga/core/expression_simplification_addition_components.hpp
@@ -74,6 +74,17 @@ namespace ga {
             };
         };
 
+        // Whether equality of types implies equality of basis blades (not when the bitset is stored, since different bitsets may be stored).
+        template<typename BasisBlade>
+        struct _is_collectable_basis_blade :
+            std::true_type {
+        };
+
+        template<bitset_t PossibleGrades>
+        struct _is_collectable_basis_blade<dynamic_basis_blade<PossibleGrades, stored_bitset> > :
+            std::false_type {
+        };
+
         // Simplification rule to collect the common basis blade.
         struct _addition_components_rule_collect {
             
@@ -89,7 +100,7 @@ namespace ga {
             // A Ei + B Ei => (A + B) Ei
             template<typename LeftCoefficient, typename BasisBlade, typename RightCoefficient>
             struct condition<component<LeftCoefficient, BasisBlade>, component<RightCoefficient, BasisBlade> > :
-                std::true_type {
+                _is_collectable_basis_blade<BasisBlade> {
             };
 
             template<typename LeftCoefficient, typename BasisBlade, typename RightCoefficient>
@@ -100,7 +111,7 @@ namespace ga {
             // A Ei + add<B Ei, ...> => (A + B) Ei + add<...>
             template<typename LeftCoefficient, typename BasisBlade, typename RightCoefficient, typename... RightNextArguments>
             struct condition<component<LeftCoefficient, BasisBlade>, add<component<RightCoefficient, BasisBlade>, RightNextArguments...> > :
-                std::true_type {
+                _is_collectable_basis_blade<BasisBlade> {
             };
 
             template<typename LeftCoefficient, typename BasisBlade, typename RightCoefficient, typename... RightNextArguments>
@@ -111,7 +122,7 @@ namespace ga {
             // add<A Ei, ...> + B Ei => (A + B) Ei + add<...>
             template<typename LeftCoefficient, typename BasisBlade, typename... LeftNextArguments, typename RightCoefficient>
             struct condition<add<component<LeftCoefficient, BasisBlade>, LeftNextArguments...>, component<RightCoefficient, BasisBlade> > :
-                std::true_type {
+                _is_collectable_basis_blade<BasisBlade> {
             };
 
             template<typename LeftCoefficient, typename BasisBlade, typename... LeftNextArguments, typename RightCoefficient>
@@ -122,7 +133,7 @@ namespace ga {
             // add<A Ei, ...> + add<B Ei, ...> => (A + B) Ei + (add<...> + add<...>)
             template<typename LeftCoefficient, typename BasisBlade, typename... LeftNextArguments, typename RightCoefficient, typename... RightNextArguments>
             struct condition<add<component<LeftCoefficient, BasisBlade>, LeftNextArguments...>, add<component<RightCoefficient, BasisBlade>, RightNextArguments...> > :
-                std::true_type {
+                _is_collectable_basis_blade<BasisBlade> {
             };
 
             template<typename LeftCoefficient, typename BasisBlade, typename... LeftNextArguments, typename RightCoefficient, typename... RightNextArguments>
@@ -144,7 +155,7 @@ namespace ga {
             // A Ei + A Ej => add<A Ei, B Ej>
             template<typename LeftCoefficient, typename LeftBasisBlade, typename RightCoefficient, typename RightBasisBlade>
             struct condition<component<LeftCoefficient, LeftBasisBlade>, component<RightCoefficient, RightBasisBlade> > :
-                lt_t<LeftBasisBlade, RightBasisBlade> {
+                le_t<LeftBasisBlade, RightBasisBlade> {
             };
 
             template<typename LeftCoefficient, typename LeftBasisBlade, typename RightCoefficient, typename RightBasisBlade>
@@ -155,7 +166,7 @@ namespace ga {
             // A Ei + add<B Ej, ...> => add<A Ei, B Ej, ...>
             template<typename LeftCoefficient, typename LeftBasisBlade, typename RightCoefficient, typename RightBasisBlade, typename... RightNextArguments>
             struct condition<component<LeftCoefficient, LeftBasisBlade>, add<component<RightCoefficient, RightBasisBlade>, RightNextArguments...> > :
-                lt_t<LeftBasisBlade, RightBasisBlade> {
+                le_t<LeftBasisBlade, RightBasisBlade> {
             };
 
             template<typename LeftCoefficient, typename LeftBasisBlade, typename RightCoefficient, typename RightBasisBlade, typename... RightNextArguments>
@@ -166,7 +177,7 @@ namespace ga {
             // add<A Ei, ...> + B Ej => A Ei + (add<...> + B Ej)
             template<typename LeftCoefficient, typename LeftBasisBlade, typename... LeftNextArguments, typename RightCoefficient, typename RightBasisBlade>
             struct condition<add<component<LeftCoefficient, LeftBasisBlade>, LeftNextArguments...>, component<RightCoefficient, RightBasisBlade> > :
-                lt_t<LeftBasisBlade, RightBasisBlade> {
+                le_t<LeftBasisBlade, RightBasisBlade> {
             };
 
             template<typename LeftCoefficient, typename LeftBasisBlade, typename... LeftNextArguments, typename RightCoefficient, typename RightBasisBlade>
@@ -177,7 +188,7 @@ namespace ga {
             // add<A Ei, ...> + add<B Ej, ...> => A Ei + (add<...> + add<B Ej, ...>)
             template<typename LeftCoefficient, typename LeftBasisBlade, typename... LeftNextArguments, typename RightCoefficient, typename RightBasisBlade, typename... RightNextArguments>
             struct condition<add<component<LeftCoefficient, LeftBasisBlade>, LeftNextArguments...>, add<component<RightCoefficient, RightBasisBlade>, RightNextArguments...> > :
-                lt_t<LeftBasisBlade, RightBasisBlade> {
+                le_t<LeftBasisBlade, RightBasisBlade> {
             };
 
             template<typename LeftCoefficient, typename LeftBasisBlade, typename... LeftNextArguments, typename RightCoefficient, typename RightBasisBlade, typename... RightNextArguments>
-- 
2.43.0


From 361366cf6a65ba6012cb3445c5976aea16c20d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:20 +0000
Subject: [PATCH 22/24] fix: scalar() of a variable that holds a Clifford
 expression treats it as one

---
 cpp/include/gatl/ga/core/scalar.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/include/gatl/ga/core/scalar.hpp b/cpp/include/gatl/ga/core/scalar.hpp
index 5dc59be..16cd452 100644
--- a/cpp/include/gatl/ga/core/scalar.hpp
+++ b/cpp/include/gatl/ga/core/scalar.hpp
@@ -39,7 +39,7 @@ namespace ga {
         return scaled_scalar_t<ValueType>(make_sequential_storage(arg));
     }
 
-    template<typename ValueType, std::enable_if_t<!is_clifford_expression_v<ValueType>, int> = 0>
+    template<typename ValueType, std::enable_if_t<!is_clifford_expression_v<std::remove_cv_t<std::remove_reference_t<ValueType> > >, int> = 0>
     constexpr decltype(auto) scalar(ValueType &&arg) GA_NOEXCEPT {
         return scaled_scalar_t<std::remove_cv_t<std::remove_reference_t<ValueType> > >(make_sequential_storage(std::move(arg)));
     }
-- 
2.43.0


From f130043e5d787c3fb55134aa4da59e1ab857c393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:20 +0000
Subject: [PATCH 23/24] fix: values given as variables are copied into the
 storage, not moved out of the variables

---
 cpp/include/gatl/ga/core/clifford_expression.hpp | 8 ++++----
 cpp/include/gatl/ga/core/scalar.hpp              | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/cpp/include/gatl/ga/core/clifford_expression.hpp b/cpp/include/gatl/ga/core/clifford_expression.hpp
index a6de207..6e2ffbc 100644
--- a/cpp/include/gatl/ga/core/clifford_expression.hpp
+++ b/cpp/include/gatl/ga/core/clifford_expression.hpp
@@ -180,9 +180,9 @@ namespace ga {
             constexpr sequential_storage(sequential_storage const &) = default;
             constexpr sequential_storage(sequential_storage &&) = default;
 
-            template<typename... Args>
+            template<typename... Args, std::enable_if_t<!std::disjunction_v<std::is_same<std::remove_cv_t<std::remove_reference_t<Args> >, sequential_storage>...>, int> = 0>
             constexpr sequential_storage(Args &&... args) GA_NOEXCEPT :
-                entries_{ std::move(args)... } {
+                entries_{ std::forward<Args>(args)... } {
                 static_assert(sizeof...(args) == Size, "The number of arguments must be equal to the number of stored data entries.");
             }
 
@@ -704,7 +704,7 @@ namespace ga {
 
         template<typename... StorageTypes, std::enable_if_t<!std::disjunction_v<is_clifford_expression<std::remove_cv_t<std::remove_reference_t<StorageTypes> > >...>, int> = 0>
         constexpr clifford_expression(StorageTypes &&... args) GA_NOEXCEPT :
-            super(std::move(args)...) {
+            super(std::remove_cv_t<std::remove_reference_t<StorageTypes> >(std::forward<StorageTypes>(args))...) {
         }
 
         constexpr clifford_expression & operator=(clifford_expression const &) = default;
@@ -719,7 +719,7 @@ namespace ga {
     // Helper function to build a sequential storage of values, bitsets or maps.
     template<typename... Args>
     constexpr decltype(auto) make_sequential_storage(Args &&... args) GA_NOEXCEPT {
-        return detail::sequential_storage<std::common_type_t<std::remove_cv_t<std::remove_reference_t<Args> >...>, sizeof...(args)>(std::move(args)...);
+        return detail::sequential_storage<std::common_type_t<std::remove_cv_t<std::remove_reference_t<Args> >...>, sizeof...(args)>(std::forward<Args>(args)...);
     }
 
 }
diff --git a/cpp/include/gatl/ga/core/scalar.hpp b/cpp/include/gatl/ga/core/scalar.hpp
index 16cd452..84ca431 100644
--- a/cpp/include/gatl/ga/core/scalar.hpp
+++ b/cpp/include/gatl/ga/core/scalar.hpp
@@ -41,7 +41,7 @@ namespace ga {
 
     template<typename ValueType, std::enable_if_t<!is_clifford_expression_v<std::remove_cv_t<std::remove_reference_t<ValueType> > >, int> = 0>
     constexpr decltype(auto) scalar(ValueType &&arg) GA_NOEXCEPT {
-        return scaled_scalar_t<std::remove_cv_t<std::remove_reference_t<ValueType> > >(make_sequential_storage(std::move(arg)));
+        return scaled_scalar_t<std::remove_cv_t<std::remove_reference_t<ValueType> > >(make_sequential_storage(std::forward<ValueType>(arg)));
     }
 
     template<typename CoefficientType, typename Coefficient>
-- 
2.43.0


From 2b15702e1dd44f72bf1cda79c5da1f84ae2efad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:20 +0000
Subject: [PATCH 24/24] fix: scalar() of an expiring scalar returns a value,
 not a reference to it

---
 cpp/include/gatl/ga/core/scalar.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/include/gatl/ga/core/scalar.hpp b/cpp/include/gatl/ga/core/scalar.hpp
index 84ca431..6f65352 100644
--- a/cpp/include/gatl/ga/core/scalar.hpp
+++ b/cpp/include/gatl/ga/core/scalar.hpp
@@ -50,7 +50,7 @@ namespace ga {
     }
 
     template<typename CoefficientType, typename Coefficient>
-    constexpr decltype(auto) scalar(scalar_clifford_expression<CoefficientType, Coefficient> &&arg) GA_NOEXCEPT {
+    constexpr scalar_clifford_expression<CoefficientType, Coefficient> scalar(scalar_clifford_expression<CoefficientType, Coefficient> &&arg) GA_NOEXCEPT {
         return std::move(arg);
     }
 
-- 
2.43.0

