From e531fd2cdb4f522cdd4ba05ae4b94f569811569b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:14 +0000
Subject: [PATCH 01/23] fix: Hestenes inner product of basis blades known only
 at runtime does not compile

---
 cpp/include/gatl/ga/core/hestenes_inner_product.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/cpp/include/gatl/ga/core/hestenes_inner_product.hpp b/cpp/include/gatl/ga/core/hestenes_inner_product.hpp
index 6a8f7cf..be4ae57 100644
--- a/cpp/include/gatl/ga/core/hestenes_inner_product.hpp
+++ b/cpp/include/gatl/ga/core/hestenes_inner_product.hpp
@@ -52,9 +52,8 @@ namespace ga {
 
             template<typename LeftGrade, typename RightGrade, typename ResultGrade>
             struct are_valid_grades {
-                using type = if_else_t<
-                    logical_or_t<equal_t<LeftGrade, constant_value<0> >, equal_t<RightGrade, constant_value<0> > >,
-                    std::false_type,
+                using type = logical_and_t<
+                    logical_and_t<less_or_equal_t<constant_value<1>, LeftGrade>, less_or_equal_t<constant_value<1>, RightGrade> >,
                     if_else_t<
                         less_or_equal_t<LeftGrade, RightGrade>,
                         equal_t<ResultGrade, addition_t<RightGrade, product_t<constant_value<-1>, LeftGrade, value_mapping> > >,
-- 
2.43.0


From 722ddbbc5dec07af5d2e370d43bee321047c6a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:35 +0000
Subject: [PATCH 02/23] fix: sums of basis blades known only at runtime merge
 different blades

---
 ...ion_simplification_addition_components.hpp | 29 ++++++++++++++-----
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/cpp/include/gatl/ga/core/expression_simplification_addition_components.hpp b/cpp/include/gatl/ga/core/expression_simplification_addition_components.hpp
index 499ffd2..dbd4bfd 100644
--- a/cpp/include/gatl/ga/core/expression_simplification_addition_components.hpp
+++ b/cpp/include/gatl/ga/core/expression_simplification_addition_components.hpp
@@ -86,10 +86,12 @@ namespace ga {
             template<typename LeftExpression, typename RightExpression>
             struct result;
 
+            // Basis blades that are stored (i.e., known only at runtime) are never collected because the same type does not imply the same value.
+
             // A Ei + B Ei => (A + B) Ei
             template<typename LeftCoefficient, typename BasisBlade, typename RightCoefficient>
             struct condition<component<LeftCoefficient, BasisBlade>, component<RightCoefficient, BasisBlade> > :
-                std::true_type {
+                std::bool_constant<!has_stored_entries_v<BasisBlade> > {
             };
 
             template<typename LeftCoefficient, typename BasisBlade, typename RightCoefficient>
@@ -100,7 +102,7 @@ namespace ga {
             // A Ei + add<B Ei, ...> => (A + B) Ei + add<...>
             template<typename LeftCoefficient, typename BasisBlade, typename RightCoefficient, typename... RightNextArguments>
             struct condition<component<LeftCoefficient, BasisBlade>, add<component<RightCoefficient, BasisBlade>, RightNextArguments...> > :
-                std::true_type {
+                std::bool_constant<!has_stored_entries_v<BasisBlade> > {
             };
 
             template<typename LeftCoefficient, typename BasisBlade, typename RightCoefficient, typename... RightNextArguments>
@@ -111,7 +113,7 @@ namespace ga {
             // add<A Ei, ...> + B Ei => (A + B) Ei + add<...>
             template<typename LeftCoefficient, typename BasisBlade, typename... LeftNextArguments, typename RightCoefficient>
             struct condition<add<component<LeftCoefficient, BasisBlade>, LeftNextArguments...>, component<RightCoefficient, BasisBlade> > :
-                std::true_type {
+                std::bool_constant<!has_stored_entries_v<BasisBlade> > {
             };
 
             template<typename LeftCoefficient, typename BasisBlade, typename... LeftNextArguments, typename RightCoefficient>
@@ -122,7 +124,7 @@ namespace ga {
             // add<A Ei, ...> + add<B Ei, ...> => (A + B) Ei + (add<...> + add<...>)
             template<typename LeftCoefficient, typename BasisBlade, typename... LeftNextArguments, typename RightCoefficient, typename... RightNextArguments>
             struct condition<add<component<LeftCoefficient, BasisBlade>, LeftNextArguments...>, add<component<RightCoefficient, BasisBlade>, RightNextArguments...> > :
-                std::true_type {
+                std::bool_constant<!has_stored_entries_v<BasisBlade> > {
             };
 
             template<typename LeftCoefficient, typename BasisBlade, typename... LeftNextArguments, typename RightCoefficient, typename... RightNextArguments>
@@ -131,6 +133,17 @@ namespace ga {
             };
         };
 
+        // Helper structure to define the relative order of basis blades in the addition of components. Stored basis blades having the same type are kept in the order they are given.
+        template<typename LeftBasisBlade, typename RightBasisBlade>
+        struct _addition_components_less_than :
+            lt_t<LeftBasisBlade, RightBasisBlade> {
+        };
+
+        template<typename BasisBlade>
+        struct _addition_components_less_than<BasisBlade, BasisBlade> :
+            std::bool_constant<has_stored_entries_v<BasisBlade> > {
+        };
+
         // Simplification rule to merge the addition of components when the left-hand side argument is smaller than the right-hand side argument.
         struct _addition_components_rule_merge_less_than {
             
@@ -144,7 +157,7 @@ namespace ga {
             // A Ei + A Ej => add<A Ei, B Ej>
             template<typename LeftCoefficient, typename LeftBasisBlade, typename RightCoefficient, typename RightBasisBlade>
             struct condition<component<LeftCoefficient, LeftBasisBlade>, component<RightCoefficient, RightBasisBlade> > :
-                lt_t<LeftBasisBlade, RightBasisBlade> {
+                _addition_components_less_than<LeftBasisBlade, RightBasisBlade> {
             };
 
             template<typename LeftCoefficient, typename LeftBasisBlade, typename RightCoefficient, typename RightBasisBlade>
@@ -155,7 +168,7 @@ namespace ga {
             // A Ei + add<B Ej, ...> => add<A Ei, B Ej, ...>
             template<typename LeftCoefficient, typename LeftBasisBlade, typename RightCoefficient, typename RightBasisBlade, typename... RightNextArguments>
             struct condition<component<LeftCoefficient, LeftBasisBlade>, add<component<RightCoefficient, RightBasisBlade>, RightNextArguments...> > :
-                lt_t<LeftBasisBlade, RightBasisBlade> {
+                _addition_components_less_than<LeftBasisBlade, RightBasisBlade> {
             };
 
             template<typename LeftCoefficient, typename LeftBasisBlade, typename RightCoefficient, typename RightBasisBlade, typename... RightNextArguments>
@@ -166,7 +179,7 @@ namespace ga {
             // add<A Ei, ...> + B Ej => A Ei + (add<...> + B Ej)
             template<typename LeftCoefficient, typename LeftBasisBlade, typename... LeftNextArguments, typename RightCoefficient, typename RightBasisBlade>
             struct condition<add<component<LeftCoefficient, LeftBasisBlade>, LeftNextArguments...>, component<RightCoefficient, RightBasisBlade> > :
-                lt_t<LeftBasisBlade, RightBasisBlade> {
+                _addition_components_less_than<LeftBasisBlade, RightBasisBlade> {
             };
 
             template<typename LeftCoefficient, typename LeftBasisBlade, typename... LeftNextArguments, typename RightCoefficient, typename RightBasisBlade>
@@ -177,7 +190,7 @@ namespace ga {
             // add<A Ei, ...> + add<B Ej, ...> => A Ei + (add<...> + add<B Ej, ...>)
             template<typename LeftCoefficient, typename LeftBasisBlade, typename... LeftNextArguments, typename RightCoefficient, typename RightBasisBlade, typename... RightNextArguments>
             struct condition<add<component<LeftCoefficient, LeftBasisBlade>, LeftNextArguments...>, add<component<RightCoefficient, RightBasisBlade>, RightNextArguments...> > :
-                lt_t<LeftBasisBlade, RightBasisBlade> {
+                _addition_components_less_than<LeftBasisBlade, RightBasisBlade> {
             };
 
             template<typename LeftCoefficient, typename LeftBasisBlade, typename... LeftNextArguments, typename RightCoefficient, typename RightBasisBlade, typename... RightNextArguments>
-- 
2.43.0


From 919b67354ece08741b1c785be4dbd096c7e3a422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:23 +0000
Subject: [PATCH 03/23] fix: powers of products and of powers, and absolute
 values, are simplified as if every value were non-negative

---
 cpp/include/gatl/ga/core/expression.hpp       |  2 +-
 .../core/expression_simplification_power.hpp  | 49 ++++++++++++++++---
 .../gatl/ga/core/expression_traits.hpp        |  4 +-
 3 files changed, 46 insertions(+), 9 deletions(-)

diff --git a/cpp/include/gatl/ga/core/expression.hpp b/cpp/include/gatl/ga/core/expression.hpp
index 824a7fb..a6aa6be 100644
--- a/cpp/include/gatl/ga/core/expression.hpp
+++ b/cpp/include/gatl/ga/core/expression.hpp
@@ -829,7 +829,7 @@ namespace ga {
                 is_non_negative_v<Value>,
                 Value,
                 std::conditional_t<
-                    is_constant_expression_v<Value> && !(is_function_v<name_t::add, Value> || is_function_v<name_t::if_else, Value>),
+                    is_constant_expression_v<Value> && is_non_negative_v<product_t<constant_value<-1>, Value, value_mapping> >,
                     product_t<constant_value<-1>, Value, value_mapping>,
                     function
                 >
diff --git a/cpp/include/gatl/ga/core/expression_simplification_power.hpp b/cpp/include/gatl/ga/core/expression_simplification_power.hpp
index 68cef52..098a556 100644
--- a/cpp/include/gatl/ga/core/expression_simplification_power.hpp
+++ b/cpp/include/gatl/ga/core/expression_simplification_power.hpp
@@ -302,6 +302,31 @@ namespace ga {
             };
         };
 
+        // Returns whether the given expression is a constant integer value.
+        template<typename Expression>
+        struct _is_integral_constant :
+            std::false_type {
+        };
+
+        template<default_integral_t Value>
+        struct _is_integral_constant<constant_value<Value> > :
+            std::true_type {
+        };
+
+        template<typename Expression>
+        constexpr bool _is_integral_constant_v = _is_integral_constant<Expression>::value;
+
+        // Helper structures to avoid the evaluation of simplifications that are not applied.
+        template<typename RightExpression, typename LeftArgument, typename... LeftNextArguments>
+        struct _power_of_mul_distribute {
+            using type = product_t<power_t<LeftArgument, RightExpression>, power_t<mul_t<LeftNextArguments...>, RightExpression>, value_mapping>;
+        };
+
+        template<typename LeftLeftArgument, typename LeftRightArgument, typename RightExpression>
+        struct _power_of_power_multiply {
+            using type = power_t<LeftLeftArgument, product_t<LeftRightArgument, RightExpression, value_mapping> >;
+        };
+
         // Simplification rule to apply the distributivity property of power over multiplication.
         struct _power_rule_distributivity {
 
@@ -316,26 +341,38 @@ namespace ga {
                 using type = power<LeftExpression, RightExpression>;
             };
 
-            // (A * ...)^{B} => A^{B} * (...)^{C}
+            // (A * ...)^{B} => A^{B} * (...)^{B}, if B is an integer, or A is a positive constant, or all factors are non-negative
             template<typename LeftArgument, typename... LeftNextArguments, typename RightExpression>
             struct condition<mul<LeftArgument, LeftNextArguments...>, RightExpression> :
                 std::true_type {
             };
 
             template<typename LeftArgument, typename... LeftNextArguments, typename RightExpression>
-            struct result<mul<LeftArgument, LeftNextArguments...>, RightExpression> {
-                using type = product_t<power_t<LeftArgument, RightExpression>, power_t<mul_t<LeftNextArguments...>, RightExpression>, value_mapping>;
+            struct result<mul<LeftArgument, LeftNextArguments...>, RightExpression> :
+                std::conditional_t<
+                    _is_integral_constant_v<RightExpression> || (is_non_negative_v<LeftArgument> && (is_constant_expression_v<LeftArgument> || (is_non_negative_v<LeftNextArguments> && ...))),
+                    _power_of_mul_distribute<RightExpression, LeftArgument, LeftNextArguments...>,
+                    identity<power<mul<LeftArgument, LeftNextArguments...>, RightExpression> >
+                > {
             };
 
-            // (A^{B})^{C} = A^{B * C} (simplify)
+            // (A^{B})^{C} => A^{B * C}, if C is an integer, or A is non-negative, or B is constant and it is not an even integer; (A^{B})^{C} => abs(A)^{B * C}, if B is an even integer
             template<typename LeftLeftArgument, typename LeftRightArgument, typename RightExpression>
             struct condition<power<LeftLeftArgument, LeftRightArgument>, RightExpression> :
                 std::true_type {
             };
 
             template<typename LeftLeftArgument, typename LeftRightArgument, typename RightExpression>
-            struct result<power<LeftLeftArgument, LeftRightArgument>, RightExpression> {
-                using type = power_t<LeftLeftArgument, product_t<LeftRightArgument, RightExpression, value_mapping> >;
+            struct result<power<LeftLeftArgument, LeftRightArgument>, RightExpression> :
+                std::conditional_t<
+                    _is_integral_constant_v<RightExpression> || is_non_negative_v<LeftLeftArgument> || (is_constant_expression_v<LeftRightArgument> && !is_even_v<LeftRightArgument>),
+                    _power_of_power_multiply<LeftLeftArgument, LeftRightArgument, RightExpression>,
+                    std::conditional_t<
+                        _is_integral_constant_v<LeftRightArgument>,
+                        _power_of_power_multiply<absolute_t<LeftLeftArgument>, LeftRightArgument, RightExpression>,
+                        identity<power<power<LeftLeftArgument, LeftRightArgument>, RightExpression> >
+                    >
+                > {
             };
         };
 
diff --git a/cpp/include/gatl/ga/core/expression_traits.hpp b/cpp/include/gatl/ga/core/expression_traits.hpp
index b7edfcc..e671c7f 100644
--- a/cpp/include/gatl/ga/core/expression_traits.hpp
+++ b/cpp/include/gatl/ga/core/expression_traits.hpp
@@ -292,7 +292,7 @@ namespace ga {
 
         template<typename LeftArgument, typename RightArgument>
         struct is_even<power<LeftArgument, RightArgument> > :
-            std::bool_constant<is_even_v<RightArgument> > {
+            std::false_type {
         };
 
         template<typename... Arguments>
@@ -344,7 +344,7 @@ namespace ga {
 
         template<typename LeftBitset, typename RightBitset>
         struct is_non_negative<reordering_sign<LeftBitset, RightBitset> > :
-            std::true_type {
+            std::false_type {
         };
 
         template<typename Bitset>
-- 
2.43.0


From 28ab1988dce5d03b85715439bb97829c7a965814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:42 +0000
Subject: [PATCH 04/23] fix: products of an integer and the inverse of a
 negative integer do not compile when they reduce to the inverse alone

---
 .../expression_simplification_product_values.hpp     | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/cpp/include/gatl/ga/core/expression_simplification_product_values.hpp b/cpp/include/gatl/ga/core/expression_simplification_product_values.hpp
index 4d2d10e..4802992 100644
--- a/cpp/include/gatl/ga/core/expression_simplification_product_values.hpp
+++ b/cpp/include/gatl/ga/core/expression_simplification_product_values.hpp
@@ -34,9 +34,19 @@ namespace ga {
             using type = product_t<constant_value<(sign(Numerator) * sign(Denominator)) * (iabs(Numerator) / GreatestCommonDivisor)>, power_t<constant_value<iabs(Denominator) / GreatestCommonDivisor>, constant_value<-1> >, value_mapping>;
         };
 
+        template<default_integral_t Numerator, typename InverseOfDenominator>
+        struct _simpler_rational_constant_mul {
+            using type = mul_t<constant_value<Numerator>, InverseOfDenominator>;
+        };
+
+        template<typename InverseOfDenominator>
+        struct _simpler_rational_constant_mul<1, InverseOfDenominator> {
+            using type = InverseOfDenominator;
+        };
+
         template<default_integral_t Numerator, default_integral_t Denominator>
         struct simpler_rational_constant<Numerator, Denominator, 1> {
-            using type = mul_t<constant_value<(sign(Numerator) * sign(Denominator)) * iabs(Numerator)>, power_t<constant_value<iabs(Denominator)>, constant_value<-1> > >;
+            using type = typename _simpler_rational_constant_mul<(sign(Numerator) * sign(Denominator)) * iabs(Numerator), power_t<constant_value<iabs(Denominator)>, constant_value<-1> > >::type;
         };
 
         template<default_integral_t Numerator, default_integral_t Denominator>
-- 
2.43.0


From da43cf509511ab72932058a331524ba8a8a933f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:30 +0000
Subject: [PATCH 05/23] fix: dot product of a scalar and a basis blade known
 only at runtime does not compile

---
 cpp/include/gatl/ga/core/dot_product.hpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/cpp/include/gatl/ga/core/dot_product.hpp b/cpp/include/gatl/ga/core/dot_product.hpp
index 1eee9e5..061cfae 100644
--- a/cpp/include/gatl/ga/core/dot_product.hpp
+++ b/cpp/include/gatl/ga/core/dot_product.hpp
@@ -52,10 +52,15 @@ namespace ga {
 
             template<typename LeftGrade, typename RightGrade, typename ResultGrade>
             struct are_valid_grades {
-                using type = if_else_t<
-                    less_or_equal_t<LeftGrade, RightGrade>,
-                    equal_t<ResultGrade, addition_t<RightGrade, product_t<constant_value<-1>, LeftGrade, value_mapping> > >,
-                    equal_t<ResultGrade, addition_t<LeftGrade, product_t<constant_value<-1>, RightGrade, value_mapping> > >
+                using type = logical_or_t<
+                    logical_and_t<
+                        less_or_equal_t<LeftGrade, RightGrade>,
+                        equal_t<ResultGrade, addition_t<RightGrade, product_t<constant_value<-1>, LeftGrade, value_mapping> > >
+                    >,
+                    logical_and_t<
+                        less_or_equal_t<RightGrade, LeftGrade>,
+                        equal_t<ResultGrade, addition_t<LeftGrade, product_t<constant_value<-1>, RightGrade, value_mapping> > >
+                    >
                 >;
             };
 
-- 
2.43.0


From 79202ddb888048fab894fd2ea4fe06aca977689d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:54 +0000
Subject: [PATCH 06/23] fix: direction of a dual flat, round or tangent does
 not compile

---
 cpp/include/gatl/ga/model/conformal/flat_direction.hpp          | 2 +-
 cpp/include/gatl/ga/model/conformal/round_direction.hpp         | 2 +-
 cpp/include/gatl/ga/model/conformal/tangent_direction.hpp       | 2 +-
 cpp/include/gatl/ga/model/signed/minkowski/flat_direction.hpp   | 2 +-
 cpp/include/gatl/ga/model/signed/minkowski/round_direction.hpp  | 2 +-
 .../gatl/ga/model/signed/minkowski/tangent_direction.hpp        | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/cpp/include/gatl/ga/model/conformal/flat_direction.hpp b/cpp/include/gatl/ga/model/conformal/flat_direction.hpp
index 8af2834..e826a60 100644
--- a/cpp/include/gatl/ga/model/conformal/flat_direction.hpp
+++ b/cpp/include/gatl/ga/model/conformal/flat_direction.hpp
@@ -30,7 +30,7 @@ namespace ga {
     template<typename CoefficientType, typename Expression, ndims_t D>
     constexpr decltype(auto) dual_flat_direction(clifford_expression<CoefficientType, Expression> const &dual_flat, conformal_metric_space<D> const &mtr) GA_NOEXCEPT {
         constexpr auto ni = e(c<D + 2>);
-        return lcont(-ni, undual(dual_flat, mtr), mtr);
+        return lcont(-ni, undual(dual_flat, pseudoscalar(mtr), mtr), mtr);
     }
 
     // Returns the direction parameter of a given primal flat.
diff --git a/cpp/include/gatl/ga/model/conformal/round_direction.hpp b/cpp/include/gatl/ga/model/conformal/round_direction.hpp
index 8909c0f..841b729 100644
--- a/cpp/include/gatl/ga/model/conformal/round_direction.hpp
+++ b/cpp/include/gatl/ga/model/conformal/round_direction.hpp
@@ -31,7 +31,7 @@ namespace ga {
     constexpr decltype(auto) dual_round_direction(clifford_expression<CoefficientType, Expression> const &dual_round, conformal_metric_space<D> const &mtr) GA_NOEXCEPT {
         auto [lazy, dual_round_] = make_lazy_context_tuple(dual_round);
         constexpr auto ni = e(c<D + 2>);
-        return lazy.eval(op(lcont(-ni, undual(dual_round_, mtr), mtr), ni, mtr));
+        return lazy.eval(op(lcont(-ni, undual(dual_round_, pseudoscalar(mtr), mtr), mtr), ni, mtr));
     }
 
     // Returns the direction parameter of a given primal round.
diff --git a/cpp/include/gatl/ga/model/conformal/tangent_direction.hpp b/cpp/include/gatl/ga/model/conformal/tangent_direction.hpp
index 1e5c3bb..c4a9e49 100644
--- a/cpp/include/gatl/ga/model/conformal/tangent_direction.hpp
+++ b/cpp/include/gatl/ga/model/conformal/tangent_direction.hpp
@@ -31,7 +31,7 @@ namespace ga {
     constexpr decltype(auto) dual_tangent_direction(clifford_expression<CoefficientType, Expression> const &dual_tangent, conformal_metric_space<D> const &mtr) GA_NOEXCEPT {
         auto [lazy, dual_tangent_] = make_lazy_context_tuple(dual_tangent);
         constexpr auto ni = e(c<D + 2>);
-        return lazy.eval(op(lcont(-ni, undual(dual_tangent_, mtr), mtr), ni, mtr));
+        return lazy.eval(op(lcont(-ni, undual(dual_tangent_, pseudoscalar(mtr), mtr), mtr), ni, mtr));
     }
 
     // Returns the direction parameter of a given primal tangent.
diff --git a/cpp/include/gatl/ga/model/signed/minkowski/flat_direction.hpp b/cpp/include/gatl/ga/model/signed/minkowski/flat_direction.hpp
index 8eb7eff..59135b2 100644
--- a/cpp/include/gatl/ga/model/signed/minkowski/flat_direction.hpp
+++ b/cpp/include/gatl/ga/model/signed/minkowski/flat_direction.hpp
@@ -30,7 +30,7 @@ namespace ga {
     template<typename CoefficientType, typename Expression, ndims_t D>
     constexpr decltype(auto) dual_flat_direction(clifford_expression<CoefficientType, Expression> const &dual_flat, minkowski_metric_space<D> const &mtr) GA_NOEXCEPT {
         constexpr auto ni = e(c<D + 1>) + e(c<D + 2>);
-        return lcont(-ni, undual(dual_flat, mtr), mtr);
+        return lcont(-ni, undual(dual_flat, pseudoscalar(mtr), mtr), mtr);
     }
 
     // Returns the direction parameter of a given primal flat.
diff --git a/cpp/include/gatl/ga/model/signed/minkowski/round_direction.hpp b/cpp/include/gatl/ga/model/signed/minkowski/round_direction.hpp
index e81c864..9a12ba8 100644
--- a/cpp/include/gatl/ga/model/signed/minkowski/round_direction.hpp
+++ b/cpp/include/gatl/ga/model/signed/minkowski/round_direction.hpp
@@ -31,7 +31,7 @@ namespace ga {
     constexpr decltype(auto) dual_round_direction(clifford_expression<CoefficientType, Expression> const &dual_round, minkowski_metric_space<D> const &mtr) GA_NOEXCEPT {
         auto [lazy, dual_round_] = make_lazy_context_tuple(dual_round);
         constexpr auto ni = e(c<D + 1>) + e(c<D + 2>);
-        return lazy.eval(op(lcont(-ni, undual(dual_round_, mtr), mtr), ni, mtr));
+        return lazy.eval(op(lcont(-ni, undual(dual_round_, pseudoscalar(mtr), mtr), mtr), ni, mtr));
     }
 
     // Returns the direction parameter of a given primal round.
diff --git a/cpp/include/gatl/ga/model/signed/minkowski/tangent_direction.hpp b/cpp/include/gatl/ga/model/signed/minkowski/tangent_direction.hpp
index 1c8c4f0..a8fece8 100644
--- a/cpp/include/gatl/ga/model/signed/minkowski/tangent_direction.hpp
+++ b/cpp/include/gatl/ga/model/signed/minkowski/tangent_direction.hpp
@@ -31,7 +31,7 @@ namespace ga {
     constexpr decltype(auto) dual_tangent_direction(clifford_expression<CoefficientType, Expression> const &dual_tangent, minkowski_metric_space<D> const &mtr) GA_NOEXCEPT {
         auto [lazy, dual_tangent_] = make_lazy_context_tuple(dual_tangent);
         constexpr auto ni = e(c<D + 1>) + e(c<D + 2>);
-        return lazy.eval(op(lcont(-ni, undual(dual_tangent_, mtr), mtr), ni, mtr));
+        return lazy.eval(op(lcont(-ni, undual(dual_tangent_, pseudoscalar(mtr), mtr), mtr), ni, mtr));
     }
 
     // Returns the direction parameter of a given primal tangent.
-- 
2.43.0


From d23b8470266a7b7641270b82ac300ea5d73f6813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:37 +0000
Subject: [PATCH 07/23] fix: exponential of a blade known to be null does not
 compile

---
 cpp/include/gatl/ga/extra/blade_exponential.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cpp/include/gatl/ga/extra/blade_exponential.hpp b/cpp/include/gatl/ga/extra/blade_exponential.hpp
index 7386055..c14011b 100644
--- a/cpp/include/gatl/ga/extra/blade_exponential.hpp
+++ b/cpp/include/gatl/ga/extra/blade_exponential.hpp
@@ -35,7 +35,8 @@ namespace ga {
 
         using signed_squared_alpha_value = detail::coefficient_t<detail::product_t<blade_expression, blade_expression, detail::metric_space_mapping_t<MetricSpaceType, detail::sp_mapping> > >;
         using squared_alpha_value = detail::absolute_t<signed_squared_alpha_value>;
-        using alpha_value = detail::power_t<squared_alpha_value, detail::power_t<detail::constant_value<2>, detail::constant_value<-1> > >;
+        using nonzero_squared_alpha_value = std::conditional_t<std::is_same_v<squared_alpha_value, detail::constant_value<0> >, detail::constant_value<1>, squared_alpha_value>; // A blade known to be null never gets to use alpha.
+        using alpha_value = detail::power_t<nonzero_squared_alpha_value, detail::power_t<detail::constant_value<2>, detail::constant_value<-1> > >;
 
         using scalar_coefficient_value = detail::if_else_t<
             detail::less_or_equal_t<squared_alpha_value, tolerance_value>,
-- 
2.43.0


From 087daa94e6c42cceb47f2b6663e04124e168ecb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:54 +0000
Subject: [PATCH 08/23] fix: lazy contexts keep references to temporary
 arguments that no longer exist when the expression is evaluated

---
 cpp/include/gatl/ga/core/lazy_context.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/include/gatl/ga/core/lazy_context.hpp b/cpp/include/gatl/ga/core/lazy_context.hpp
index 3ef7987..3044153 100644
--- a/cpp/include/gatl/ga/core/lazy_context.hpp
+++ b/cpp/include/gatl/ga/core/lazy_context.hpp
@@ -520,7 +520,7 @@ namespace ga {
 
         private:
 
-            input_type const &input_;
+            input_type const input_; // A copy, since the input may be a temporary object that dies before the context.
         };
 
         template<std::size_t ReverseIndex, typename InputCoefficientType, typename InputExpression>
-- 
2.43.0


From 5f0ac7f6ad225a9c469e72374b19f9b49db29309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:55 +0000
Subject: [PATCH 09/23] fix: quotients of compile-time constants are not
 truncated to integers

A coefficient such as c<3>/c<2> was evaluated with integer division whenever both the dividend and the divisor are constants.
---
 cpp/include/gatl/ga/core/expression.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cpp/include/gatl/ga/core/expression.hpp b/cpp/include/gatl/ga/core/expression.hpp
index a6aa6be..68161a8 100644
--- a/cpp/include/gatl/ga/core/expression.hpp
+++ b/cpp/include/gatl/ga/core/expression.hpp
@@ -1071,7 +1071,12 @@ namespace ga {
 
             template<tag_t LowerTag, tag_t UpperTag, typename... InputTypes>
             GA_ALWAYS_INLINE constexpr static decltype(auto) eval(std::tuple<InputTypes...> const &args) {
-                return LeftArgument::template eval<LowerTag, UpperTag>(args) / RightArgument::template eval<LowerTag, UpperTag>(args);
+                if constexpr (is_constant_expression_v<LeftArgument> && is_constant_expression_v<RightArgument>) {
+                    return LeftArgument::template eval<LowerTag, UpperTag>(args) / cast_to_floating_point(RightArgument::template eval<LowerTag, UpperTag>(args));
+                }
+                else {
+                    return LeftArgument::template eval<LowerTag, UpperTag>(args) / RightArgument::template eval<LowerTag, UpperTag>(args);
+                }
             }
 
             static_assert(!is_any_v<constant_value<0>, LeftArgument>, "The argument ga::detail::constant_value<0> is invalid.");
-- 
2.43.0


From 5f11a351a0a8084c3a0d7ba2cebf968c655b5774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:07 +0000
Subject: [PATCH 10/23] fix: different constant expressions are not assumed to
 have different values

For instance, take_largest_grade() of constant fractions was zero.
---
 cpp/include/gatl/ga/core/expression.hpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/cpp/include/gatl/ga/core/expression.hpp b/cpp/include/gatl/ga/core/expression.hpp
index 68161a8..3b8a12e 100644
--- a/cpp/include/gatl/ga/core/expression.hpp
+++ b/cpp/include/gatl/ga/core/expression.hpp
@@ -653,11 +653,7 @@ namespace ga {
             using type = std::conditional_t<
                 std::is_same_v<LeftType, RightType> && !has_stored_entries_v<LeftType>,
                 std::true_type, // simplify
-                std::conditional_t<
-                    !std::is_same_v<LeftType, RightType> && is_constant_expression_v<LeftType> && is_constant_expression_v<RightType>,
-                    std::false_type, // simplify
-                    function // default
-                >
+                function // default
             >;
 
             template<tag_t LowerTag, tag_t UpperTag, typename... InputTypes>
@@ -666,6 +662,16 @@ namespace ga {
             }
         };
 
+        template<default_integral_t LeftValue, default_integral_t RightValue>
+        struct function<name_t::equal, constant_value<LeftValue>, constant_value<RightValue> > :
+            std::bool_constant<(LeftValue == RightValue)> { // simplify
+        };
+
+        template<bitset_t LeftBitset, bitset_t RightBitset>
+        struct function<name_t::equal, constant_bitset<LeftBitset>, constant_bitset<RightBitset> > :
+            std::bool_constant<(LeftBitset == RightBitset)> { // simplify
+        };
+
         // Specializations of less_or_equal<LeftType, RightType>.
         template<typename LeftType, typename RightType>
         struct function<name_t::less_or_equal, LeftType, RightType> {
-- 
2.43.0


From a89d509087c30e5ea75bf81ac689ef7a950417d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:07 +0000
Subject: [PATCH 11/23] fix: visiting components keeps the fractional part of
 constant coefficients

The coefficient type of a multivector defined in compilation time is integral even if its coefficients are fractions, and is_zero() of such a multivector could be true.
---
 cpp/include/gatl/ga/extra/tests.hpp             |  2 +-
 cpp/include/gatl/ga/util/for_each_component.hpp | 15 +++++++++++++--
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/cpp/include/gatl/ga/extra/tests.hpp b/cpp/include/gatl/ga/extra/tests.hpp
index b46c133..77589ad 100644
--- a/cpp/include/gatl/ga/extra/tests.hpp
+++ b/cpp/include/gatl/ga/extra/tests.hpp
@@ -30,7 +30,7 @@ namespace ga {
     template<typename CoefficientType, typename Expression, typename ToleranceType>
     constexpr bool is_zero(clifford_expression<CoefficientType, Expression> const &arg, ToleranceType const &tol) {
         using std::abs;
-        return for_each_component(arg, [&](bitset_t const, CoefficientType const &value, entry_source_t const, entry_source_t const, bool &keep_going) { keep_going = abs(value) <= (CoefficientType)tol; });
+        return for_each_component(arg, [&](bitset_t const, auto const &value, entry_source_t const, entry_source_t const, bool &keep_going) { keep_going = abs(value) <= (std::decay_t<decltype(value)>)tol; });
     }
 
     template<typename CoefficientType, typename Expression>
diff --git a/cpp/include/gatl/ga/util/for_each_component.hpp b/cpp/include/gatl/ga/util/for_each_component.hpp
index d4f9edf..6e06eb9 100644
--- a/cpp/include/gatl/ga/util/for_each_component.hpp
+++ b/cpp/include/gatl/ga/util/for_each_component.hpp
@@ -31,6 +31,17 @@ namespace ga {
 
     namespace detail {
 
+        // Helper function to keep the fractional part of constant coefficients of multivectors having integral coefficient type.
+        template<typename ValueType, typename Type>
+        GA_ALWAYS_INLINE constexpr decltype(auto) _for_each_component_constant(Type const &value) GA_NOEXCEPT {
+            if constexpr (std::is_integral_v<ValueType> && std::is_floating_point_v<Type>) {
+                return Type(value);
+            }
+            else {
+                return static_cast<ValueType>(value);
+            }
+        }
+
         // Implementation of the for_each_component() function.
         template<typename ValueType, typename Expression>
         struct _for_each_component_impl;
@@ -59,7 +70,7 @@ namespace ga {
             template<typename ValueCItr, typename BitsetCItr, typename MapCIts, typename Function>
             GA_ALWAYS_INLINE constexpr static bool run(ValueCItr const &, BitsetCItr const &, MapCIts const &, Function f) GA_NOEXCEPT(GA_NOEXCEPT(f)) {
                 bool keep_going = true;
-                f(BasisVectors, static_cast<ValueType>(Coefficient::template eval<0, 0>(std::make_tuple())), entry_source_t::COMPILE_TIME_DEFINED_ENTRY, entry_source_t::COMPILE_TIME_DEFINED_ENTRY, keep_going);
+                f(BasisVectors, _for_each_component_constant<ValueType>(Coefficient::template eval<0, 0>(std::make_tuple())), entry_source_t::COMPILE_TIME_DEFINED_ENTRY, entry_source_t::COMPILE_TIME_DEFINED_ENTRY, keep_going);
                 return keep_going;
             }
         };
@@ -82,7 +93,7 @@ namespace ga {
             template<typename ValueCItr, typename BitsetCItr, typename MapCIts, typename Function>
             GA_ALWAYS_INLINE constexpr static bool run(ValueCItr const &, BitsetCItr &bitset_citr, MapCIts const &, Function f) GA_NOEXCEPT(GA_NOEXCEPT(f)) {
                 bool keep_going = true;
-                f(*bitset_citr, static_cast<ValueType>(Coefficient::template eval<0, 0>(std::make_tuple())), entry_source_t::STORED_RUNTIME_DEFINED_ENTRY, entry_source_t::COMPILE_TIME_DEFINED_ENTRY, keep_going);
+                f(*bitset_citr, _for_each_component_constant<ValueType>(Coefficient::template eval<0, 0>(std::make_tuple())), entry_source_t::STORED_RUNTIME_DEFINED_ENTRY, entry_source_t::COMPILE_TIME_DEFINED_ENTRY, keep_going);
                 ++bitset_citr;
                 return keep_going;
             }
-- 
2.43.0


From fd2982ccf12a0a7d7e5c0327e4e77bded2a91b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:07 +0000
Subject: [PATCH 12/23] fix: vectors accept coordinates of integral type and
 any scalar expression

Coordinates given as constants held by a variable, constant objects, or integers did not compile.
---
 cpp/include/gatl/ga/util/vector.hpp | 49 ++++++++++++-----------------
 1 file changed, 20 insertions(+), 29 deletions(-)

diff --git a/cpp/include/gatl/ga/util/vector.hpp b/cpp/include/gatl/ga/util/vector.hpp
index bb275b4..ada8fe4 100644
--- a/cpp/include/gatl/ga/util/vector.hpp
+++ b/cpp/include/gatl/ga/util/vector.hpp
@@ -78,43 +78,34 @@ namespace ga {
         };
 
         // Helper structures to build a sequential storage of vector coordinates.
+        template<typename ValueType>
         struct make_vector_sequential_storage_simple {
             template<typename... Types>
             GA_ALWAYS_INLINE constexpr static decltype(auto) run(Types &&... coords) GA_NOEXCEPT {
-                return make_sequential_storage(std::move(coords)...);
+                return make_sequential_storage(static_cast<ValueType>(std::move(coords))...);
             }
         };
 
+        template<typename ValueType>
         struct make_vector_sequential_storage_not_simple {
         private:
 
-            template<typename ValueType, std::size_t Size, std::size_t... Indices>
-            GA_ALWAYS_INLINE constexpr static decltype(auto) to_values_tuple(sequential_storage<ValueType, Size> &&values, std::index_sequence<Indices...> const) GA_NOEXCEPT {
-                return std::tie(std::get<Indices>(std::move(values))...);
+            template<typename StorageType, std::size_t... Indices>
+            GA_ALWAYS_INLINE constexpr static decltype(auto) to_values_tuple(StorageType const &values, std::index_sequence<Indices...> const) GA_NOEXCEPT {
+                return std::make_tuple(static_cast<ValueType>(*std::next(values.cbegin(), Indices))...);
             }
 
-            template<typename ValueType, std::size_t Size>
-            GA_ALWAYS_INLINE constexpr static decltype(auto) to_values_tuple(sequential_storage<ValueType, Size> &&values) GA_NOEXCEPT {
-                return to_values_tuple(std::move(values), std::make_index_sequence<Size>{});
-            }
-
-            template<typename ValueType>
-            GA_ALWAYS_INLINE constexpr static decltype(auto) to_values_tuple(sequential_storage<ValueType, 0> &&) GA_NOEXCEPT {
-                return std::make_tuple();
-            }
-
-            GA_ALWAYS_INLINE constexpr static decltype(auto) make_values_tuple() GA_NOEXCEPT {
-                return std::make_tuple();
-            }
-
-            template<typename CoordinateType, typename... NextTypes>
-            GA_ALWAYS_INLINE constexpr static decltype(auto) make_values_tuple(CoordinateType &&coord, NextTypes &&... next_coords) GA_NOEXCEPT {
-                return std::tuple_cat(std::make_tuple(std::move(coord)), make_values_tuple(std::move(next_coords)...));
-            }
-
-            template<typename CoefficientType, typename Coefficient, typename... NextTypes>
-            GA_ALWAYS_INLINE constexpr static decltype(auto) make_values_tuple(scalar_clifford_expression<CoefficientType, Coefficient> const &&coord, NextTypes &&... next_coords) GA_NOEXCEPT {
-                return std::tuple_cat(to_values_tuple(coord.values()), make_values_tuple(std::move(next_coords)...));
+            template<typename CoordinateType>
+            GA_ALWAYS_INLINE constexpr static decltype(auto) to_values_tuple(CoordinateType const &coord) GA_NOEXCEPT {
+                if constexpr (!is_clifford_expression_v<CoordinateType>) {
+                    return std::make_tuple(static_cast<ValueType>(coord));
+                }
+                else if constexpr (count_stored_values_v<typename CoordinateType::expression_type> != 0) {
+                    return to_values_tuple(coord.values(), std::make_index_sequence<count_stored_values_v<typename CoordinateType::expression_type> >{});
+                }
+                else {
+                    return std::make_tuple();
+                }
             }
 
             template<typename... ValueTypes, std::size_t... Indices>
@@ -124,14 +115,14 @@ namespace ga {
 
             template<typename... ValueTypes>
             GA_ALWAYS_INLINE constexpr static decltype(auto) to_sequential_storage(std::tuple<ValueTypes...> &&tuple) GA_NOEXCEPT {
-                return to_sequential_storage(std::move(tuple), std::make_index_sequence<std::tuple_size_v<std::remove_cv_t<std::remove_reference_t<std::tuple<ValueTypes...> > > > >{});
+                return to_sequential_storage(std::move(tuple), std::make_index_sequence<sizeof...(ValueTypes)>{});
             }
 
         public:
 
             template<typename... Types>
             GA_ALWAYS_INLINE constexpr static decltype(auto) run(Types &&... coords) GA_NOEXCEPT {
-                return to_sequential_storage(make_values_tuple(std::move(coords)...));
+                return to_sequential_storage(std::tuple_cat(to_values_tuple(coords)...));
             }
         };
 
@@ -140,7 +131,7 @@ namespace ga {
         struct make_vector {
             template<typename... Types>
             GA_ALWAYS_INLINE constexpr static CliffordExpression run(Types &&... coords) GA_NOEXCEPT {
-                return CliffordExpression(std::conditional_t<std::disjunction_v<std::bool_constant<is_clifford_expression_v<std::remove_cv_t<std::remove_reference_t<Types> > > >...>, detail::make_vector_sequential_storage_not_simple, detail::make_vector_sequential_storage_simple>::run(std::move(coords)...));
+                return CliffordExpression(std::conditional_t<std::disjunction_v<std::bool_constant<is_clifford_expression_v<std::remove_cv_t<std::remove_reference_t<Types> > > >...>, detail::make_vector_sequential_storage_not_simple<typename CliffordExpression::coefficient_type>, detail::make_vector_sequential_storage_simple<typename CliffordExpression::coefficient_type> >::run(std::move(coords)...));
             }
         };
 
-- 
2.43.0


From a279fb3220591302e615cd00a9dbd44331bfe005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:12 +0000
Subject: [PATCH 13/23] fix: run-time blades times constant fractions are not
 truncated to integers

---
 cpp/include/gatl/ga/core/expression.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp/include/gatl/ga/core/expression.hpp b/cpp/include/gatl/ga/core/expression.hpp
index 3b8a12e..8aeb4d4 100644
--- a/cpp/include/gatl/ga/core/expression.hpp
+++ b/cpp/include/gatl/ga/core/expression.hpp
@@ -1077,8 +1077,8 @@ namespace ga {
 
             template<tag_t LowerTag, tag_t UpperTag, typename... InputTypes>
             GA_ALWAYS_INLINE constexpr static decltype(auto) eval(std::tuple<InputTypes...> const &args) {
-                if constexpr (is_constant_expression_v<LeftArgument> && is_constant_expression_v<RightArgument>) {
-                    return LeftArgument::template eval<LowerTag, UpperTag>(args) / cast_to_floating_point(RightArgument::template eval<LowerTag, UpperTag>(args));
+                if constexpr (is_constant_expression_v<RightArgument>) {
+                    return cast_to_floating_point(LeftArgument::template eval<LowerTag, UpperTag>(args)) / RightArgument::template eval<LowerTag, UpperTag>(args);
                 }
                 else {
                     return LeftArgument::template eval<LowerTag, UpperTag>(args) / RightArgument::template eval<LowerTag, UpperTag>(args);
-- 
2.43.0


From 7113760da4b561f56947aa5e486723f30871a7c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:10 +0000
Subject: [PATCH 14/23] fix: a checked copy made by a converting constructor
 reports its error instead of terminating

---
 cpp/include/gatl/ga/core/clifford_expression.hpp | 4 ++--
 cpp/include/gatl/ga/core/trivial_copy.hpp        | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/cpp/include/gatl/ga/core/clifford_expression.hpp b/cpp/include/gatl/ga/core/clifford_expression.hpp
index 63f2af0..21838b9 100644
--- a/cpp/include/gatl/ga/core/clifford_expression.hpp
+++ b/cpp/include/gatl/ga/core/clifford_expression.hpp
@@ -697,10 +697,10 @@ namespace ga {
         constexpr clifford_expression(clifford_expression &&) = default;
 
         template<typename OtherCoefficientType, typename OtherExpression>
-        clifford_expression(clifford_expression<OtherCoefficientType, OtherExpression> const &other) GA_NOEXCEPT;
+        clifford_expression(clifford_expression<OtherCoefficientType, OtherExpression> const &other);
 
         template<typename OtherCoefficientType, typename OtherExpression>
-        clifford_expression(clifford_expression<OtherCoefficientType, OtherExpression> &&other) GA_NOEXCEPT;
+        clifford_expression(clifford_expression<OtherCoefficientType, OtherExpression> &&other);
 
         template<typename... StorageTypes>
         constexpr clifford_expression(StorageTypes &&... args) GA_NOEXCEPT :
diff --git a/cpp/include/gatl/ga/core/trivial_copy.hpp b/cpp/include/gatl/ga/core/trivial_copy.hpp
index d47356a..c0ee97d 100644
--- a/cpp/include/gatl/ga/core/trivial_copy.hpp
+++ b/cpp/include/gatl/ga/core/trivial_copy.hpp
@@ -478,7 +478,7 @@ namespace ga {
 
     template<typename CoefficientType, typename Expression>
     template<typename OtherCoefficientType, typename OtherExpression>
-    clifford_expression<CoefficientType, Expression>::clifford_expression(clifford_expression<OtherCoefficientType, OtherExpression> const &other) GA_NOEXCEPT :
+    clifford_expression<CoefficientType, Expression>::clifford_expression(clifford_expression<OtherCoefficientType, OtherExpression> const &other) :
         clifford_expression() {
         _GA_ONE_TIME_WARNING("Implicit call to 'checked_trivial_copy' function in the copy constructor of the 'clifford_expression' class. Consider using 'auto' instead of a custom expression type to avoid performance issues while initializing variables.")
         checked_trivial_copy(other, *this);
@@ -486,7 +486,7 @@ namespace ga {
 
     template<typename CoefficientType, typename Expression>
     template<typename OtherCoefficientType, typename OtherExpression>
-    clifford_expression<CoefficientType, Expression>::clifford_expression(clifford_expression<OtherCoefficientType, OtherExpression> &&other) GA_NOEXCEPT :
+    clifford_expression<CoefficientType, Expression>::clifford_expression(clifford_expression<OtherCoefficientType, OtherExpression> &&other) :
         clifford_expression() {
         _GA_ONE_TIME_WARNING("Implicit call to 'checked_trivial_copy' function in the moving constructor of the 'clifford_expression' class. Consider using 'auto' instead of a custom expression type to avoid performance issues while initializing variables.")
         checked_trivial_copy(other, *this);
-- 
2.43.0


From cdfb6b766f74e1959b514bfa824ae448ee3a4f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:06 +0000
Subject: [PATCH 15/23] fix: meet_and_join does not collect factors that depend
 on earlier ones

---
 cpp/include/gatl/ga/extra/meet_and_join.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/cpp/include/gatl/ga/extra/meet_and_join.hpp b/cpp/include/gatl/ga/extra/meet_and_join.hpp
index 9c5e98a..e04c214 100644
--- a/cpp/include/gatl/ga/extra/meet_and_join.hpp
+++ b/cpp/include/gatl/ga/extra/meet_and_join.hpp
@@ -86,8 +86,9 @@ namespace ga {
                     auto const d = project_vector(f, dual_delta, inv_dual_delta); // dual delta factor
 
                     auto const p = project_vector(d, lhs, inv_lhs); // projection
-                    if (!is_zero(p, tol)) {
-                        checked_trivial_copy(op(meet, p, em), meet, tol);
+                    auto const next_meet = op(meet, p, em);
+                    if (!is_zero(next_meet, tol)) { // p may depend on the factors found so far
+                        checked_trivial_copy(next_meet, meet, tol);
                         ++current_grade_meet;
                         if (current_grade_meet == grade_meet) {
                             trivial_copy(op(rcont(lhs, inv(meet, em), em), rhs, em), join);
@@ -97,8 +98,9 @@ namespace ga {
                     }
 
                     auto const r = d - p; // rejection
-                    if (!is_zero(r, tol)) {
-                        checked_trivial_copy(lcont(r, join, em), join, tol);
+                    auto const next_join = lcont(r, join, em);
+                    if (!is_zero(next_join, tol)) { // r may depend on the factors found so far
+                        checked_trivial_copy(next_join, join, tol);
                         --current_grade_join;
                         if (current_grade_join == grade_join) {
                             trivial_copy(lcont(lcont(rhs, inv(join, em), em), lhs, em), meet);
-- 
2.43.0


From 0a4732a110d61b2b3f3081e43bca6aa135d1558c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:35 +0000
Subject: [PATCH 16/23] fix: fast_join accepts scalars and pseudoscalars

---
 .../gatl/ga/extra/fast_meet_and_join.hpp      | 79 ++++++++++---------
 1 file changed, 41 insertions(+), 38 deletions(-)

diff --git a/cpp/include/gatl/ga/extra/fast_meet_and_join.hpp b/cpp/include/gatl/ga/extra/fast_meet_and_join.hpp
index f30b8c8..b795315 100644
--- a/cpp/include/gatl/ga/extra/fast_meet_and_join.hpp
+++ b/cpp/include/gatl/ga/extra/fast_meet_and_join.hpp
@@ -56,44 +56,47 @@ namespace ga {
                 return join;
             }
 
-            bitset_t largest_basis_vectors = bitset_t(0);
-            RightCoefficientType largest_abs_value = -1;
-
-            std::size_t largest_index = 0, current_stored_index = 0;
-
-            for_each_component(rhs, [&](bitset_t const basis_vectors, RightCoefficientType const &value, entry_source_t const, entry_source_t const value_source, bool &) {
-                if (value_source == MAPPED_RUNTIME_DEFINED_ENTRY) {
-                    //TODO Not supported yet (map)
-                    throw not_implemented_error("Sorry! The use of ga::clifford_expresion<CoefficientType, Expression> with ga::associative_container_t<ValueType> is not supported yet.");
-                }
-
-                auto const abs_value = abs(value);
-                if (largest_abs_value < abs_value) {
-                    largest_basis_vectors = basis_vectors;
-                    largest_abs_value = abs_value;
-
-                    largest_index = current_stored_index;
-                }
-                ++current_stored_index;
-            });
-
-            largest_type largest(typename largest_type::value_storage_type{}, rhs.bitsets(), typename largest_type::map_storage_type{});
-            *(largest.values().begin() + largest_index) = 1;
-
-            auto const inv_largest = reverse(largest);
-
-            for_each_basis_vector(largest_basis_vectors, [&](index_t const index, bool &keep_going) {
-                full_vector_t<default_integral_t, N> f;
-                *(f.values().begin() + (index - 1)) = 1;
-
-                auto const next_join = op(join, unit(project_vector(f, rhs, inv_largest), em), em);
-
-                if (!is_zero(next_join, tol)) {
-                    checked_trivial_copy(unit(next_join, em), join, tol);
-                    ++current_grade_join;
-                    keep_going = current_grade_join <= N;
-                }
-            });
+            // Scalars bring no new vectors to the join, and there is nothing to add to pseudoscalars.
+            if constexpr (largest_possible_grade_v<RightExpression> > 0 && std::max(smallest_possible_grade_v<LeftExpression>, smallest_possible_grade_v<RightExpression>) < (grade_t)N) {
+                bitset_t largest_basis_vectors = bitset_t(0);
+                RightCoefficientType largest_abs_value = -1;
+
+                std::size_t largest_index = 0, current_stored_index = 0;
+
+                for_each_component(rhs, [&](bitset_t const basis_vectors, RightCoefficientType const &value, entry_source_t const, entry_source_t const value_source, bool &) {
+                    if (value_source == MAPPED_RUNTIME_DEFINED_ENTRY) {
+                        //TODO Not supported yet (map)
+                        throw not_implemented_error("Sorry! The use of ga::clifford_expresion<CoefficientType, Expression> with ga::associative_container_t<ValueType> is not supported yet.");
+                    }
+
+                    auto const abs_value = abs(value);
+                    if (largest_abs_value < abs_value) {
+                        largest_basis_vectors = basis_vectors;
+                        largest_abs_value = abs_value;
+
+                        largest_index = current_stored_index;
+                    }
+                    ++current_stored_index;
+                });
+
+                largest_type largest(typename largest_type::value_storage_type{}, rhs.bitsets(), typename largest_type::map_storage_type{});
+                *(largest.values().begin() + largest_index) = 1;
+
+                auto const inv_largest = reverse(largest);
+
+                for_each_basis_vector(largest_basis_vectors, [&](index_t const index, bool &keep_going) {
+                    full_vector_t<default_integral_t, N> f;
+                    *(f.values().begin() + (index - 1)) = 1;
+
+                    auto const next_join = op(join, unit(project_vector(f, rhs, inv_largest), em), em);
+
+                    if (!is_zero(next_join, tol)) {
+                        checked_trivial_copy(unit(next_join, em), join, tol);
+                        ++current_grade_join;
+                        keep_going = current_grade_join <= N;
+                    }
+                });
+            }
 
             if (extra_sign_change && ((grade_lhs * grade_rhs) & 1) != 0) {
                 return -join;
-- 
2.43.0


From ad05e8db97a5c2fbcff0bb9a7205084d86e8e91b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:32 +0000
Subject: [PATCH 17/23] fix: odd roots of negative numbers survive the
 simplification of powers

---
 cpp/include/gatl/ga/core/expression.hpp           | 15 +++++++++++++++
 .../ga/core/expression_simplification_power.hpp   |  4 ++--
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/cpp/include/gatl/ga/core/expression.hpp b/cpp/include/gatl/ga/core/expression.hpp
index 8aeb4d4..4fd35d9 100644
--- a/cpp/include/gatl/ga/core/expression.hpp
+++ b/cpp/include/gatl/ga/core/expression.hpp
@@ -1044,6 +1044,21 @@ namespace ga {
             static_assert(!std::is_same_v<LeftArgument, constant_value<0> >, "The left-hand side argument cannot be ga::detail::constant_value<0>.");
         };
 
+        // X^{K / 3} = cbrt(X)^{K} is also defined for X < 0.
+        template<typename LeftArgument, default_integral_t RightValue>
+        struct function<name_t::power, LeftArgument, mul<constant_value<RightValue>, power<constant_value<3>, constant_value<-1> > > > {
+            using type = function;
+
+            template<tag_t LowerTag, tag_t UpperTag, typename... InputTypes>
+            GA_ALWAYS_INLINE constexpr static decltype(auto) eval(std::tuple<InputTypes...> const &args) {
+                using std::cbrt;
+                using std::pow;
+                return pow(cbrt(LeftArgument::template eval<LowerTag, UpperTag>(args)), RightValue);
+            }
+
+            static_assert(!std::is_same_v<LeftArgument, constant_value<0> >, "The left-hand side argument cannot be ga::detail::constant_value<0>.");
+        };
+
         // Specializations of mul<Arguments...>.
         template<typename Argument, typename... NextArguments>
         struct function<name_t::mul, Argument, NextArguments...> {
diff --git a/cpp/include/gatl/ga/core/expression_simplification_power.hpp b/cpp/include/gatl/ga/core/expression_simplification_power.hpp
index 098a556..70a1ab0 100644
--- a/cpp/include/gatl/ga/core/expression_simplification_power.hpp
+++ b/cpp/include/gatl/ga/core/expression_simplification_power.hpp
@@ -356,7 +356,7 @@ namespace ga {
                 > {
             };
 
-            // (A^{B})^{C} => A^{B * C}, if C is an integer, or A is non-negative, or B is constant and it is not an even integer; (A^{B})^{C} => abs(A)^{B * C}, if B is an even integer
+            // (A^{B})^{C} => A^{B * C}, if C is an integer, or A is non-negative, or B is an odd integer; (A^{B})^{C} => abs(A)^{B * C}, if B is an even integer
             template<typename LeftLeftArgument, typename LeftRightArgument, typename RightExpression>
             struct condition<power<LeftLeftArgument, LeftRightArgument>, RightExpression> :
                 std::true_type {
@@ -365,7 +365,7 @@ namespace ga {
             template<typename LeftLeftArgument, typename LeftRightArgument, typename RightExpression>
             struct result<power<LeftLeftArgument, LeftRightArgument>, RightExpression> :
                 std::conditional_t<
-                    _is_integral_constant_v<RightExpression> || is_non_negative_v<LeftLeftArgument> || (is_constant_expression_v<LeftRightArgument> && !is_even_v<LeftRightArgument>),
+                    _is_integral_constant_v<RightExpression> || is_non_negative_v<LeftLeftArgument> || (_is_integral_constant_v<LeftRightArgument> && !is_even_v<LeftRightArgument>),
                     _power_of_power_multiply<LeftLeftArgument, LeftRightArgument, RightExpression>,
                     std::conditional_t<
                         _is_integral_constant_v<LeftRightArgument>,
-- 
2.43.0


From 8b6fc201fbdf4f9ad61928374332e5de6da452db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:03 +0000
Subject: [PATCH 18/23] fix: run-time basis vectors with bitsets narrower than
 int

---
 cpp/include/gatl/ga/util/basis_vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/include/gatl/ga/util/basis_vector.hpp b/cpp/include/gatl/ga/util/basis_vector.hpp
index 2044b85..f653293 100644
--- a/cpp/include/gatl/ga/util/basis_vector.hpp
+++ b/cpp/include/gatl/ga/util/basis_vector.hpp
@@ -44,7 +44,7 @@ namespace ga {
     // Returns a runtime defined unit basis vector.
     constexpr unit_basis_vector_t e(index_t const index) GA_NOEXCEPT {
         assert(index > 0);
-        return unit_basis_vector_t(make_sequential_storage(bitset_t(1) << (index - 1)));
+        return unit_basis_vector_t(make_sequential_storage(static_cast<bitset_t>(bitset_t(1) << (index - 1))));
     }
 
     // Returns a compile-time defined unit basis vector.
-- 
2.43.0


From 6785557c3dc7e310d045d55e69d1d7da92e1fea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:16 +0000
Subject: [PATCH 19/23] fix: fast join with default integral types narrower
 than int

---
 cpp/include/gatl/ga/extra/fast_meet_and_join.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/include/gatl/ga/extra/fast_meet_and_join.hpp b/cpp/include/gatl/ga/extra/fast_meet_and_join.hpp
index b795315..8e0f022 100644
--- a/cpp/include/gatl/ga/extra/fast_meet_and_join.hpp
+++ b/cpp/include/gatl/ga/extra/fast_meet_and_join.hpp
@@ -34,7 +34,7 @@ namespace ga {
             using std::abs;
             using value_type = std::common_type_t<LeftCoefficientType, RightCoefficientType>;
             using largest_type = full_derived_multivector_t<default_integral_t, RightExpression>;
-            using join_type = full_multivector_t<value_type, N, std::max(smallest_possible_grade_v<LeftExpression>, smallest_possible_grade_v<RightExpression>), std::min(largest_possible_grade_v<LeftExpression> + largest_possible_grade_v<RightExpression>, (grade_t)N)>;
+            using join_type = full_multivector_t<value_type, N, std::max(smallest_possible_grade_v<LeftExpression>, smallest_possible_grade_v<RightExpression>), std::min<grade_t>(largest_possible_grade_v<LeftExpression> + largest_possible_grade_v<RightExpression>, (grade_t)N)>;
 
             constexpr auto em = real_metric_space(); // Euclidean metric
 
-- 
2.43.0


From 46f3d80164980aae9fb6510652de48d8c47009d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:42 +0000
Subject: [PATCH 20/23] fix: leftmost set bit of bitsets wider than a few bits

---
 cpp/include/gatl/ga/core/constexpr.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/include/gatl/ga/core/constexpr.hpp b/cpp/include/gatl/ga/core/constexpr.hpp
index a72a5db..6597811 100644
--- a/cpp/include/gatl/ga/core/constexpr.hpp
+++ b/cpp/include/gatl/ga/core/constexpr.hpp
@@ -81,7 +81,7 @@ namespace ga {
 
         // Returns the leftmost set bit in the given bitset.
         GA_ALWAYS_INLINE constexpr bitset_t _leftmost_set_bit_impl(bitset_t const arg, int const n) GA_NOEXCEPT {
-            return n != std::numeric_limits<bitset_t>::digits ? _leftmost_set_bit_impl(arg | (arg >> 1), n << 1) : ((arg >> 1) + bitset_t(1));
+            return n != std::numeric_limits<bitset_t>::digits ? _leftmost_set_bit_impl(arg | (arg >> n), n << 1) : ((arg >> 1) + bitset_t(1));
         }
 
         GA_ALWAYS_INLINE constexpr bitset_t leftmost_set_bit(bitset_t const arg) GA_NOEXCEPT {
-- 
2.43.0


From acc740c82aba213447ecd2b0fd341c5b24c154da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:42 +0000
Subject: [PATCH 21/23] fix: rightmost set bit when only the highest bit is set

---
 cpp/include/gatl/ga/core/constexpr.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/include/gatl/ga/core/constexpr.hpp b/cpp/include/gatl/ga/core/constexpr.hpp
index 6597811..fd0ebda 100644
--- a/cpp/include/gatl/ga/core/constexpr.hpp
+++ b/cpp/include/gatl/ga/core/constexpr.hpp
@@ -90,7 +90,7 @@ namespace ga {
 
         // Returns the rightmost set bit in the given bitset.
         GA_ALWAYS_INLINE constexpr bitset_t rightmost_set_bit(bitset_t const arg) GA_NOEXCEPT {
-            return arg & -std::make_signed_t<bitset_t>(arg);
+            return static_cast<bitset_t>(arg & (~arg + bitset_t(1)));
         }
 
         // Returns the index of the set bit, assuming that there is a single set bit in the bitset.
-- 
2.43.0


From c436754a66c68bc619d80312621b44655b345eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:36 +0000
Subject: [PATCH 22/23] fix: deferred expressions with values that are not
 arguments of their context

The default tolerance of exp, dp or take_largest_grade is such a value: the
result had fewer entries than were written to it, or took them from nowhere.
---
 cpp/include/gatl/ga/core/lazy_context.hpp | 65 ++++++++++++++++++++---
 1 file changed, 57 insertions(+), 8 deletions(-)

diff --git a/cpp/include/gatl/ga/core/lazy_context.hpp b/cpp/include/gatl/ga/core/lazy_context.hpp
index 3044153..458253d 100644
--- a/cpp/include/gatl/ga/core/lazy_context.hpp
+++ b/cpp/include/gatl/ga/core/lazy_context.hpp
@@ -140,6 +140,48 @@ namespace ga {
             using type = typename _tag_variables_in_function<Tag, BaseValueIndex, BaseBitsetIndex, BaseMapIndex, function<Name>, Arguments...>::type;
         };
 
+        // Operations between expressions that were evaluated. Expressions having stored entries are not simplified because (i) the same type does not imply the same value, and (ii) the order of the entries must be preserved.
+        template<typename Expression>
+        struct _is_component :
+            std::false_type {
+        };
+
+        template<typename Coefficient, typename BasisBlade>
+        struct _is_component<component<Coefficient, BasisBlade> > :
+            std::true_type {
+        };
+
+        template<name_t Name, typename LeftExpression, typename RightExpression>
+        struct _join_evaluated {
+            using type = function<Name, LeftExpression, RightExpression>;
+        };
+
+        template<name_t Name, typename LeftExpression, typename... RightArguments>
+        struct _join_evaluated<Name, LeftExpression, function<Name, RightArguments...> > {
+            using type = function<Name, LeftExpression, RightArguments...>;
+        };
+
+        template<typename LeftExpression, typename RightExpression>
+        using evaluated_addition_t = typename std::conditional_t<
+            (has_stored_entries_v<LeftExpression> || has_stored_entries_v<RightExpression>) && !_is_component<LeftExpression>::value,
+            _join_evaluated<name_t::add, LeftExpression, RightExpression>,
+            _addition<LeftExpression, RightExpression>
+        >::type;
+
+        template<typename LeftExpression, typename RightExpression>
+        using evaluated_product_t = typename std::conditional_t<
+            has_stored_entries_v<LeftExpression> || has_stored_entries_v<RightExpression>,
+            _join_evaluated<name_t::mul, LeftExpression, RightExpression>,
+            _product<LeftExpression, RightExpression, value_mapping>
+        >::type;
+
+        template<typename LeftExpression, typename RightExpression>
+        using evaluated_power_t = typename std::conditional_t<
+            has_stored_entries_v<LeftExpression> || has_stored_entries_v<RightExpression>,
+            std::enable_if<true, power<LeftExpression, RightExpression> >,
+            _power<LeftExpression, RightExpression>
+        >::type;
+
         // Evaluates the given (or the collection of) clifford_expression<...>.
         template<tag_t LowerTag, tag_t UpperTag, typename Expression>
         struct eval_clifford_expression;
@@ -364,7 +406,7 @@ namespace ga {
             std::conditional_t<
                 (std::is_same_v<eval_expression_t<LowerTag, UpperTag, Argument>, stored_value> && can_be_stored_v<eval_expression_t<LowerTag, UpperTag, add_t<NextArguments...> > >) || (can_be_stored_v<eval_expression_t<LowerTag, UpperTag, Argument> > && std::is_same_v<eval_expression_t<LowerTag, UpperTag, add_t<NextArguments...> >, stored_value>),
                 _eval_clifford_expression_store_value<LowerTag, UpperTag, add<Argument, NextArguments...> >,
-                _eval_clifford_expression_move<LowerTag, UpperTag, addition_t<eval_expression_t<LowerTag, UpperTag, Argument>, eval_expression_t<LowerTag, UpperTag, add_t<NextArguments...> > >, Argument, add_t<NextArguments...> >
+                _eval_clifford_expression_move<LowerTag, UpperTag, evaluated_addition_t<eval_expression_t<LowerTag, UpperTag, Argument>, eval_expression_t<LowerTag, UpperTag, add_t<NextArguments...> > >, Argument, add_t<NextArguments...> >
             > {
         };
 
@@ -374,7 +416,7 @@ namespace ga {
             std::conditional_t<
                 (std::is_same_v<eval_expression_t<LowerTag, UpperTag, LeftArgument>, stored_value> && can_be_stored_v<eval_expression_t<LowerTag, UpperTag, RightArgument> >) || (can_be_stored_v<eval_expression_t<LowerTag, UpperTag, LeftArgument> > && std::is_same_v<eval_expression_t<LowerTag, UpperTag, RightArgument>, stored_value>),
                 _eval_clifford_expression_store_value<LowerTag, UpperTag, add<LeftArgument, RightArgument> >,
-                _eval_clifford_expression_move<LowerTag, UpperTag, addition_t<eval_expression_t<LowerTag, UpperTag, LeftArgument>, eval_expression_t<LowerTag, UpperTag, RightArgument> >, LeftArgument, RightArgument>
+                _eval_clifford_expression_move<LowerTag, UpperTag, evaluated_addition_t<eval_expression_t<LowerTag, UpperTag, LeftArgument>, eval_expression_t<LowerTag, UpperTag, RightArgument> >, LeftArgument, RightArgument>
             > {
         };
 
@@ -384,7 +426,7 @@ namespace ga {
             std::conditional_t<
                 (std::is_same_v<eval_expression_t<LowerTag, UpperTag, Argument>, stored_value> && can_be_stored_v<eval_expression_t<LowerTag, UpperTag, mul_t<NextArguments...> > >) || (can_be_stored_v<eval_expression_t<LowerTag, UpperTag, Argument> > && std::is_same_v<eval_expression_t<LowerTag, UpperTag, mul_t<NextArguments...> >, stored_value>),
                 _eval_clifford_expression_store_value<LowerTag, UpperTag, mul<Argument, NextArguments...> >,
-                _eval_clifford_expression_move<LowerTag, UpperTag, product_t<eval_expression_t<LowerTag, UpperTag, Argument>, eval_expression_t<LowerTag, UpperTag, mul_t<NextArguments...> >, value_mapping>, Argument, mul_t<NextArguments...> >
+                _eval_clifford_expression_move<LowerTag, UpperTag, evaluated_product_t<eval_expression_t<LowerTag, UpperTag, Argument>, eval_expression_t<LowerTag, UpperTag, mul_t<NextArguments...> > >, Argument, mul_t<NextArguments...> >
             > {
         };
 
@@ -394,7 +436,7 @@ namespace ga {
             std::conditional_t<
                 (std::is_same_v<eval_expression_t<LowerTag, UpperTag, LeftArgument>, stored_value> && can_be_stored_v<eval_expression_t<LowerTag, UpperTag, RightArgument> >) || (can_be_stored_v<eval_expression_t<LowerTag, UpperTag, LeftArgument> > && std::is_same_v<eval_expression_t<LowerTag, UpperTag, RightArgument>, stored_value>),
                 _eval_clifford_expression_store_value<LowerTag, UpperTag, mul<LeftArgument, RightArgument> >,
-                _eval_clifford_expression_move<LowerTag, UpperTag, product_t<eval_expression_t<LowerTag, UpperTag, LeftArgument>, eval_expression_t<LowerTag, UpperTag, RightArgument>, value_mapping>, LeftArgument, RightArgument>
+                _eval_clifford_expression_move<LowerTag, UpperTag, evaluated_product_t<eval_expression_t<LowerTag, UpperTag, LeftArgument>, eval_expression_t<LowerTag, UpperTag, RightArgument> >, LeftArgument, RightArgument>
             > {
         };
 
@@ -404,7 +446,7 @@ namespace ga {
             std::conditional_t<
                 (std::is_same_v<eval_expression_t<LowerTag, UpperTag, LeftArgument>, stored_value> && can_be_stored_v<eval_expression_t<LowerTag, UpperTag, RightArgument> >) || (can_be_stored_v<eval_expression_t<LowerTag, UpperTag, LeftArgument> > && std::is_same_v<eval_expression_t<LowerTag, UpperTag, RightArgument>, stored_value>),
                 _eval_clifford_expression_store_value<LowerTag, UpperTag, power<LeftArgument, RightArgument> >,
-                _eval_clifford_expression_move<LowerTag, UpperTag, power_t<eval_expression_t<LowerTag, UpperTag, LeftArgument>, eval_expression_t<LowerTag, UpperTag, RightArgument> >, LeftArgument, RightArgument>
+                _eval_clifford_expression_move<LowerTag, UpperTag, evaluated_power_t<eval_expression_t<LowerTag, UpperTag, LeftArgument>, eval_expression_t<LowerTag, UpperTag, RightArgument> >, LeftArgument, RightArgument>
             > {
         };
 
@@ -462,9 +504,9 @@ namespace ga {
         template<tag_t LowerTag, tag_t UpperTag, typename Test, typename TrueValue, typename FalseValue>
         struct eval_clifford_expression<LowerTag, UpperTag, if_else<Test, TrueValue, FalseValue> > :
             std::conditional_t<
-                can_be_stored_v<eval_expression_t<LowerTag, UpperTag, Test> > && can_be_stored_v<eval_expression_t<LowerTag, UpperTag, TrueValue> > && can_be_stored_v<eval_expression_t<LowerTag, UpperTag, TrueValue> >,
+                can_be_stored_v<eval_expression_t<LowerTag, UpperTag, Test> > && can_be_stored_v<eval_expression_t<LowerTag, UpperTag, TrueValue> > && can_be_stored_v<eval_expression_t<LowerTag, UpperTag, FalseValue> >,
                 _eval_clifford_expression_store_value<LowerTag, UpperTag, if_else<Test, TrueValue, FalseValue> >,
-                _eval_clifford_expression_move<LowerTag, UpperTag, if_else_t<eval_expression_t<LowerTag, UpperTag, Test>, eval_expression_t<LowerTag, UpperTag, TrueValue>, eval_expression_t<LowerTag, UpperTag, TrueValue> >, Test, TrueValue, FalseValue>
+                _eval_clifford_expression_move<LowerTag, UpperTag, if_else_t<eval_expression_t<LowerTag, UpperTag, Test>, eval_expression_t<LowerTag, UpperTag, TrueValue>, eval_expression_t<LowerTag, UpperTag, FalseValue> >, Test, TrueValue, FalseValue>
             > {
         };
         
@@ -659,7 +701,14 @@ namespace ga {
 
         template<typename CoefficientType, typename Expression>
         constexpr decltype(auto) eval(clifford_expression<CoefficientType, Expression> const &expression) const {
-            return detail::eval<base_id + 1, base_id + (detail::tag_t)super::stored_inputs_count()>(expression, super::stored_inputs_tuple());
+            constexpr detail::tag_t upper_id = base_id + (detail::tag_t)super::stored_inputs_count();
+            if constexpr (detail::has_stored_entries_v<Expression>) {
+                // The expression has values that are not inputs of this context.
+                return detail::eval<base_id + 1, upper_id + 1>(clifford_expression<CoefficientType, detail::tag_variables_t<Expression, upper_id + 1, 0, 0, 0> >(), std::tuple_cat(super::stored_inputs_tuple(), std::tie(expression)));
+            }
+            else {
+                return detail::eval<base_id + 1, upper_id>(expression, super::stored_inputs_tuple());
+            }
         }
 
     private:
-- 
2.43.0


From 3845bddb88dc5bf43cc481fb5862fceb64135704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:18 +0000
Subject: [PATCH 23/23] fix: user-defined default tolerances did not compile

---
 cpp/include/gatl/ga/core/default_tolerance.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp/include/gatl/ga/core/default_tolerance.hpp b/cpp/include/gatl/ga/core/default_tolerance.hpp
index cfbf2c2..d0963eb 100644
--- a/cpp/include/gatl/ga/core/default_tolerance.hpp
+++ b/cpp/include/gatl/ga/core/default_tolerance.hpp
@@ -27,13 +27,13 @@
 #ifndef GA_DEFAULT_FLT_TOLERANCE
     #define GA_DEFAULT_FLT_TOLERANCE 1.0e-8f
 #else
-    static_assert(GA_DEFAULT_FLT_TOLERANCE >= 0, "GA_DEFAULT_FLT_TOLERANCE must be a non-negative value.")
+    static_assert(GA_DEFAULT_FLT_TOLERANCE >= 0, "GA_DEFAULT_FLT_TOLERANCE must be a non-negative value.");
 #endif // GA_DEFAULT_FLT_TOLERANCE
 
 #ifndef GA_DEFAULT_DBL_TOLERANCE
     #define GA_DEFAULT_DBL_TOLERANCE 1.0e-8
 #else
-    static_assert(GA_DEFAULT_DBL_TOLERANCE >= 0, "GA_DEFAULT_DBL_TOLERANCE must be a non-negative value.")
+    static_assert(GA_DEFAULT_DBL_TOLERANCE >= 0, "GA_DEFAULT_DBL_TOLERANCE must be a non-negative value.");
 #endif // GA_DEFAULT_DBL_TOLERANCE
 
 namespace ga {
-- 
2.43.0

