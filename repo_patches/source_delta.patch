From be159d266d88f58055fe50e1582eab75543ae07e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:07 +0000
Subject: [PATCH 01/40] fix: lazy_context keeps its inputs by value so
 temporaries do not dangle

---
 cpp/include/gatl/ga/core/lazy_context.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/include/gatl/ga/core/lazy_context.hpp b/cpp/include/gatl/ga/core/lazy_context.hpp
index 3ef7987..0f1f821 100644
--- a/cpp/include/gatl/ga/core/lazy_context.hpp
+++ b/cpp/include/gatl/ga/core/lazy_context.hpp
@@ -520,7 +520,7 @@ namespace ga {
 
         private:
 
-            input_type const &input_;
+            input_type const input_;
         };
 
         template<std::size_t ReverseIndex, typename InputCoefficientType, typename InputExpression>
-- 
2.43.0


From 4a26c5da24a0b00f815000f9161ebddd35f1cdad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:40 +0000
Subject: [PATCH 02/40] fix: do not collect components whose distinct basis
 blades are stored at runtime

---
 ...ion_simplification_addition_components.hpp | 20 +++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/cpp/include/gatl/ga/core/expression_simplification_addition_components.hpp b/cpp/include/gatl/ga/core/expression_simplification_addition_components.hpp
index 499ffd2..1dacc16 100644
--- a/cpp/include/gatl/ga/core/expression_simplification_addition_components.hpp
+++ b/cpp/include/gatl/ga/core/expression_simplification_addition_components.hpp
@@ -74,7 +74,7 @@ namespace ga {
             };
         };
 
-        // Simplification rule to collect the common basis blade.
+        // Simplification rule to collect the common basis blade (equal types do not imply equal basis blades when the bitset is stored).
         struct _addition_components_rule_collect {
             
             // Default
@@ -89,7 +89,7 @@ namespace ga {
             // A Ei + B Ei => (A + B) Ei
             template<typename LeftCoefficient, typename BasisBlade, typename RightCoefficient>
             struct condition<component<LeftCoefficient, BasisBlade>, component<RightCoefficient, BasisBlade> > :
-                std::true_type {
+                std::bool_constant<!has_stored_entries_v<BasisBlade> > {
             };
 
             template<typename LeftCoefficient, typename BasisBlade, typename RightCoefficient>
@@ -100,7 +100,7 @@ namespace ga {
             // A Ei + add<B Ei, ...> => (A + B) Ei + add<...>
             template<typename LeftCoefficient, typename BasisBlade, typename RightCoefficient, typename... RightNextArguments>
             struct condition<component<LeftCoefficient, BasisBlade>, add<component<RightCoefficient, BasisBlade>, RightNextArguments...> > :
-                std::true_type {
+                std::bool_constant<!has_stored_entries_v<BasisBlade> > {
             };
 
             template<typename LeftCoefficient, typename BasisBlade, typename RightCoefficient, typename... RightNextArguments>
@@ -111,7 +111,7 @@ namespace ga {
             // add<A Ei, ...> + B Ei => (A + B) Ei + add<...>
             template<typename LeftCoefficient, typename BasisBlade, typename... LeftNextArguments, typename RightCoefficient>
             struct condition<add<component<LeftCoefficient, BasisBlade>, LeftNextArguments...>, component<RightCoefficient, BasisBlade> > :
-                std::true_type {
+                std::bool_constant<!has_stored_entries_v<BasisBlade> > {
             };
 
             template<typename LeftCoefficient, typename BasisBlade, typename... LeftNextArguments, typename RightCoefficient>
@@ -122,7 +122,7 @@ namespace ga {
             // add<A Ei, ...> + add<B Ei, ...> => (A + B) Ei + (add<...> + add<...>)
             template<typename LeftCoefficient, typename BasisBlade, typename... LeftNextArguments, typename RightCoefficient, typename... RightNextArguments>
             struct condition<add<component<LeftCoefficient, BasisBlade>, LeftNextArguments...>, add<component<RightCoefficient, BasisBlade>, RightNextArguments...> > :
-                std::true_type {
+                std::bool_constant<!has_stored_entries_v<BasisBlade> > {
             };
 
             template<typename LeftCoefficient, typename BasisBlade, typename... LeftNextArguments, typename RightCoefficient, typename... RightNextArguments>
@@ -131,7 +131,7 @@ namespace ga {
             };
         };
 
-        // Simplification rule to merge the addition of components when the left-hand side argument is smaller than the right-hand side argument.
+        // Simplification rule to merge the addition of components when the left-hand side argument is smaller than the right-hand side argument. Ties keep the order, since distinct stored basis blades share the same type.
         struct _addition_components_rule_merge_less_than {
             
             // Default
@@ -144,7 +144,7 @@ namespace ga {
             // A Ei + A Ej => add<A Ei, B Ej>
             template<typename LeftCoefficient, typename LeftBasisBlade, typename RightCoefficient, typename RightBasisBlade>
             struct condition<component<LeftCoefficient, LeftBasisBlade>, component<RightCoefficient, RightBasisBlade> > :
-                lt_t<LeftBasisBlade, RightBasisBlade> {
+                std::bool_constant<(lt_v<LeftBasisBlade, RightBasisBlade> || std::is_same_v<LeftBasisBlade, RightBasisBlade>)> {
             };
 
             template<typename LeftCoefficient, typename LeftBasisBlade, typename RightCoefficient, typename RightBasisBlade>
@@ -155,7 +155,7 @@ namespace ga {
             // A Ei + add<B Ej, ...> => add<A Ei, B Ej, ...>
             template<typename LeftCoefficient, typename LeftBasisBlade, typename RightCoefficient, typename RightBasisBlade, typename... RightNextArguments>
             struct condition<component<LeftCoefficient, LeftBasisBlade>, add<component<RightCoefficient, RightBasisBlade>, RightNextArguments...> > :
-                lt_t<LeftBasisBlade, RightBasisBlade> {
+                std::bool_constant<(lt_v<LeftBasisBlade, RightBasisBlade> || std::is_same_v<LeftBasisBlade, RightBasisBlade>)> {
             };
 
             template<typename LeftCoefficient, typename LeftBasisBlade, typename RightCoefficient, typename RightBasisBlade, typename... RightNextArguments>
@@ -166,7 +166,7 @@ namespace ga {
             // add<A Ei, ...> + B Ej => A Ei + (add<...> + B Ej)
             template<typename LeftCoefficient, typename LeftBasisBlade, typename... LeftNextArguments, typename RightCoefficient, typename RightBasisBlade>
             struct condition<add<component<LeftCoefficient, LeftBasisBlade>, LeftNextArguments...>, component<RightCoefficient, RightBasisBlade> > :
-                lt_t<LeftBasisBlade, RightBasisBlade> {
+                std::bool_constant<(lt_v<LeftBasisBlade, RightBasisBlade> || std::is_same_v<LeftBasisBlade, RightBasisBlade>)> {
             };
 
             template<typename LeftCoefficient, typename LeftBasisBlade, typename... LeftNextArguments, typename RightCoefficient, typename RightBasisBlade>
@@ -177,7 +177,7 @@ namespace ga {
             // add<A Ei, ...> + add<B Ej, ...> => A Ei + (add<...> + add<B Ej, ...>)
             template<typename LeftCoefficient, typename LeftBasisBlade, typename... LeftNextArguments, typename RightCoefficient, typename RightBasisBlade, typename... RightNextArguments>
             struct condition<add<component<LeftCoefficient, LeftBasisBlade>, LeftNextArguments...>, add<component<RightCoefficient, RightBasisBlade>, RightNextArguments...> > :
-                lt_t<LeftBasisBlade, RightBasisBlade> {
+                std::bool_constant<(lt_v<LeftBasisBlade, RightBasisBlade> || std::is_same_v<LeftBasisBlade, RightBasisBlade>)> {
             };
 
             template<typename LeftCoefficient, typename LeftBasisBlade, typename... LeftNextArguments, typename RightCoefficient, typename RightBasisBlade, typename... RightNextArguments>
-- 
2.43.0


From 9094d1ee0f13ee17a9e4058682c85c008758e77a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:28 +0000
Subject: [PATCH 03/40] fix: power simplifications keep the value of roots of
 possibly negative bases

---
 cpp/include/gatl/ga/core/expression.hpp       | 14 +++++
 .../core/expression_simplification_power.hpp  | 61 +++++++++++++++++--
 2 files changed, 71 insertions(+), 4 deletions(-)

diff --git a/cpp/include/gatl/ga/core/expression.hpp b/cpp/include/gatl/ga/core/expression.hpp
index 824a7fb..d47680d 100644
--- a/cpp/include/gatl/ga/core/expression.hpp
+++ b/cpp/include/gatl/ga/core/expression.hpp
@@ -1038,6 +1038,20 @@ namespace ga {
             static_assert(!std::is_same_v<LeftArgument, constant_value<0> >, "The left-hand side argument cannot be ga::detail::constant_value<0>.");
         };
 
+        template<typename LeftArgument, default_integral_t Value>
+        struct function<name_t::power, LeftArgument, function<name_t::mul, constant_value<Value>, power<constant_value<3>, constant_value<-1> > > > {
+            using type = function;
+
+            template<tag_t LowerTag, tag_t UpperTag, typename... InputTypes>
+            GA_ALWAYS_INLINE constexpr static decltype(auto) eval(std::tuple<InputTypes...> const &args) {
+                using std::cbrt;
+                using std::pow;
+                return pow(cbrt(LeftArgument::template eval<LowerTag, UpperTag>(args)), Value);
+            }
+
+            static_assert(!std::is_same_v<LeftArgument, constant_value<0> >, "The left-hand side argument cannot be ga::detail::constant_value<0>.");
+        };
+
         // Specializations of mul<Arguments...>.
         template<typename Argument, typename... NextArguments>
         struct function<name_t::mul, Argument, NextArguments...> {
diff --git a/cpp/include/gatl/ga/core/expression_simplification_power.hpp b/cpp/include/gatl/ga/core/expression_simplification_power.hpp
index 68cef52..2f49e2f 100644
--- a/cpp/include/gatl/ga/core/expression_simplification_power.hpp
+++ b/cpp/include/gatl/ga/core/expression_simplification_power.hpp
@@ -302,6 +302,23 @@ namespace ga {
             };
         };
 
+        // Returns whether the given exponent is an integral constant.
+        template<typename Expression>
+        constexpr bool is_integer_exponent_v = false;
+
+        template<default_integral_t Value>
+        constexpr bool is_integer_exponent_v<constant_value<Value> > = true;
+
+        // Returns whether the given exponent is an integral constant or an integral multiple of 1/3 (i.e., the power is defined for negative bases).
+        template<typename Expression>
+        constexpr bool is_integer_or_cubic_exponent_v = is_integer_exponent_v<Expression>;
+
+        template<>
+        constexpr bool is_integer_or_cubic_exponent_v<power<constant_value<3>, constant_value<-1> > > = true;
+
+        template<default_integral_t Value>
+        constexpr bool is_integer_or_cubic_exponent_v<mul<constant_value<Value>, power<constant_value<3>, constant_value<-1> > > > = true;
+
         // Simplification rule to apply the distributivity property of power over multiplication.
         struct _power_rule_distributivity {
 
@@ -316,7 +333,7 @@ namespace ga {
                 using type = power<LeftExpression, RightExpression>;
             };
 
-            // (A * ...)^{B} => A^{B} * (...)^{C}
+            // (A * ...)^{B} => A^{B} * (...)^{B}, unless the root of two possibly negative factors would be taken
             template<typename LeftArgument, typename... LeftNextArguments, typename RightExpression>
             struct condition<mul<LeftArgument, LeftNextArguments...>, RightExpression> :
                 std::true_type {
@@ -324,10 +341,24 @@ namespace ga {
 
             template<typename LeftArgument, typename... LeftNextArguments, typename RightExpression>
             struct result<mul<LeftArgument, LeftNextArguments...>, RightExpression> {
-                using type = product_t<power_t<LeftArgument, RightExpression>, power_t<mul_t<LeftNextArguments...>, RightExpression>, value_mapping>;
+            private:
+
+                template<bool Distribute, typename _Dummy = void>
+                struct _result {
+                    using type = power<mul<LeftArgument, LeftNextArguments...>, RightExpression>;
+                };
+
+                template<typename _Dummy>
+                struct _result<true, _Dummy> {
+                    using type = product_t<power_t<LeftArgument, RightExpression>, power_t<mul_t<LeftNextArguments...>, RightExpression>, value_mapping>;
+                };
+
+            public:
+
+                using type = typename _result<(is_integer_or_cubic_exponent_v<RightExpression> || is_non_negative_v<LeftArgument> || is_non_negative_v<mul_t<LeftNextArguments...> >)>::type;
             };
 
-            // (A^{B})^{C} = A^{B * C} (simplify)
+            // (A^{B})^{C} => A^{B * C} (or |A|^{B * C}, for even B), unless A may be negative and A^{B} may hide its sign
             template<typename LeftLeftArgument, typename LeftRightArgument, typename RightExpression>
             struct condition<power<LeftLeftArgument, LeftRightArgument>, RightExpression> :
                 std::true_type {
@@ -335,7 +366,29 @@ namespace ga {
 
             template<typename LeftLeftArgument, typename LeftRightArgument, typename RightExpression>
             struct result<power<LeftLeftArgument, LeftRightArgument>, RightExpression> {
-                using type = power_t<LeftLeftArgument, product_t<LeftRightArgument, RightExpression, value_mapping> >;
+            private:
+
+                template<bool Integers, bool EvenExponent, typename _Dummy = void>
+                struct _result {
+                    using type = power<power<LeftLeftArgument, LeftRightArgument>, RightExpression>;
+                };
+
+                template<bool EvenExponent, typename _Dummy>
+                struct _result<true, EvenExponent, _Dummy> {
+                    using type = power_t<LeftLeftArgument, product_t<LeftRightArgument, RightExpression, value_mapping> >;
+                };
+
+                template<typename _Dummy>
+                struct _result<false, true, _Dummy> {
+                    using type = power_t<absolute_t<LeftLeftArgument>, product_t<LeftRightArgument, RightExpression, value_mapping> >;
+                };
+
+            public:
+
+                using type = typename _result<
+                    (is_integer_exponent_v<RightExpression> || is_non_negative_v<LeftLeftArgument> || (is_integer_exponent_v<LeftRightArgument> && !is_even_v<LeftRightArgument>)),
+                    (is_integer_exponent_v<LeftRightArgument> && is_even_v<LeftRightArgument>)
+                >::type;
             };
         };
 
-- 
2.43.0


From 8ce0a9fa27808825484bd739e892662aa26fd138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:04 +0000
Subject: [PATCH 04/40] fix: the product with a reciprocal does not truncate
 integral quotients

---
 cpp/include/gatl/ga/core/expression.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/include/gatl/ga/core/expression.hpp b/cpp/include/gatl/ga/core/expression.hpp
index d47680d..677201c 100644
--- a/cpp/include/gatl/ga/core/expression.hpp
+++ b/cpp/include/gatl/ga/core/expression.hpp
@@ -1085,7 +1085,7 @@ namespace ga {
 
             template<tag_t LowerTag, tag_t UpperTag, typename... InputTypes>
             GA_ALWAYS_INLINE constexpr static decltype(auto) eval(std::tuple<InputTypes...> const &args) {
-                return LeftArgument::template eval<LowerTag, UpperTag>(args) / RightArgument::template eval<LowerTag, UpperTag>(args);
+                return LeftArgument::template eval<LowerTag, UpperTag>(args) / cast_to_floating_point(RightArgument::template eval<LowerTag, UpperTag>(args));
             }
 
             static_assert(!is_any_v<constant_value<0>, LeftArgument>, "The argument ga::detail::constant_value<0> is invalid.");
-- 
2.43.0


From 2c78bada29615173a1d6c50133bd50dbe5ad68e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:42 +0000
Subject: [PATCH 05/40] fix: user-defined default tolerances compile

---
 cpp/include/gatl/ga/core/default_tolerance.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp/include/gatl/ga/core/default_tolerance.hpp b/cpp/include/gatl/ga/core/default_tolerance.hpp
index cfbf2c2..d0963eb 100644
--- a/cpp/include/gatl/ga/core/default_tolerance.hpp
+++ b/cpp/include/gatl/ga/core/default_tolerance.hpp
@@ -27,13 +27,13 @@
 #ifndef GA_DEFAULT_FLT_TOLERANCE
     #define GA_DEFAULT_FLT_TOLERANCE 1.0e-8f
 #else
-    static_assert(GA_DEFAULT_FLT_TOLERANCE >= 0, "GA_DEFAULT_FLT_TOLERANCE must be a non-negative value.")
+    static_assert(GA_DEFAULT_FLT_TOLERANCE >= 0, "GA_DEFAULT_FLT_TOLERANCE must be a non-negative value.");
 #endif // GA_DEFAULT_FLT_TOLERANCE
 
 #ifndef GA_DEFAULT_DBL_TOLERANCE
     #define GA_DEFAULT_DBL_TOLERANCE 1.0e-8
 #else
-    static_assert(GA_DEFAULT_DBL_TOLERANCE >= 0, "GA_DEFAULT_DBL_TOLERANCE must be a non-negative value.")
+    static_assert(GA_DEFAULT_DBL_TOLERANCE >= 0, "GA_DEFAULT_DBL_TOLERANCE must be a non-negative value.");
 #endif // GA_DEFAULT_DBL_TOLERANCE
 
 namespace ga {
-- 
2.43.0


From 9b731cbb5782ac3b89164f22a18b98c14e1c4092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:49 +0000
Subject: [PATCH 06/40] fix: the delta product of an expression and a native
 value with explicit metric is viable

---
 cpp/include/gatl/ga/extra/delta_product.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/include/gatl/ga/extra/delta_product.hpp b/cpp/include/gatl/ga/extra/delta_product.hpp
index 97f5998..ba4b400 100644
--- a/cpp/include/gatl/ga/extra/delta_product.hpp
+++ b/cpp/include/gatl/ga/extra/delta_product.hpp
@@ -97,7 +97,7 @@ namespace ga {
         return dp(lhs, rhs, default_tolerance<std::common_type_t<LeftCoefficientType, RightCoefficientType> >(), detail::real_metric_space());
     }
 
-    template<typename LeftCoefficientType, typename LeftExpression, typename RightType, typename MetricSpaceType, std::enable_if_t<!is_clifford_expression_v<RightType> > = 0>
+    template<typename LeftCoefficientType, typename LeftExpression, typename RightType, typename MetricSpaceType, std::enable_if_t<!is_clifford_expression_v<RightType>, int> = 0>
     constexpr decltype(auto) dp(clifford_expression<LeftCoefficientType, LeftExpression> const &lhs, RightType const &rhs, metric_space<MetricSpaceType> const &) GA_NOEXCEPT {
         return dp(lhs, scalar(rhs), default_tolerance<std::common_type_t<LeftCoefficientType, RightType> >(), detail::real_metric_space());
     }
-- 
2.43.0


From 62f32d06961a9a3fe2b1395af415884abb4b559e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:49 +0000
Subject: [PATCH 07/40] fix: metric spaces derived from the signed one are
 recognized as metric spaces

---
 cpp/include/gatl/ga/core/metric_space.hpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/cpp/include/gatl/ga/core/metric_space.hpp b/cpp/include/gatl/ga/core/metric_space.hpp
index f6e6d75..7bfe7f3 100644
--- a/cpp/include/gatl/ga/core/metric_space.hpp
+++ b/cpp/include/gatl/ga/core/metric_space.hpp
@@ -70,10 +70,20 @@ namespace ga {
         std::bool_constant<is_general_metric_space_v<MetricSpaceType> > {
     };
 
-    // Returns whether the given type is a metric space type.
+    namespace detail {
+
+        // Helpers for checking whether a type is (derived from) a metric space type.
+        template<typename MetricSpaceType>
+        std::true_type _is_metric_space(metric_space<MetricSpaceType> const volatile *);
+
+        std::false_type _is_metric_space(void const volatile *);
+
+    }
+
+    // Returns whether the given type is a metric space type (e.g., it includes the ones derived from ga::signed_metric_space<P, Q, R>).
     template<typename Type>
     struct is_metric_space :
-        std::bool_constant<is_orthogonal_metric_space_v<Type> || is_general_metric_space_v<Type> > {
+        decltype(detail::_is_metric_space(static_cast<std::remove_reference_t<Type> *>(nullptr))) {
     };
 
     template<typename Type>
-- 
2.43.0


From 973e78e3e920aa3e624e6d8c41bc367c22212ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:46 +0000
Subject: [PATCH 08/40] fix: converting construction reports a failed checked
 copy instead of terminating

---
 cpp/include/gatl/ga/core/clifford_expression.hpp | 4 ++--
 cpp/include/gatl/ga/core/trivial_copy.hpp        | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/cpp/include/gatl/ga/core/clifford_expression.hpp b/cpp/include/gatl/ga/core/clifford_expression.hpp
index 63f2af0..21838b9 100644
--- a/cpp/include/gatl/ga/core/clifford_expression.hpp
+++ b/cpp/include/gatl/ga/core/clifford_expression.hpp
@@ -697,10 +697,10 @@ namespace ga {
         constexpr clifford_expression(clifford_expression &&) = default;
 
         template<typename OtherCoefficientType, typename OtherExpression>
-        clifford_expression(clifford_expression<OtherCoefficientType, OtherExpression> const &other) GA_NOEXCEPT;
+        clifford_expression(clifford_expression<OtherCoefficientType, OtherExpression> const &other);
 
         template<typename OtherCoefficientType, typename OtherExpression>
-        clifford_expression(clifford_expression<OtherCoefficientType, OtherExpression> &&other) GA_NOEXCEPT;
+        clifford_expression(clifford_expression<OtherCoefficientType, OtherExpression> &&other);
 
         template<typename... StorageTypes>
         constexpr clifford_expression(StorageTypes &&... args) GA_NOEXCEPT :
diff --git a/cpp/include/gatl/ga/core/trivial_copy.hpp b/cpp/include/gatl/ga/core/trivial_copy.hpp
index d47356a..c0ee97d 100644
--- a/cpp/include/gatl/ga/core/trivial_copy.hpp
+++ b/cpp/include/gatl/ga/core/trivial_copy.hpp
@@ -478,7 +478,7 @@ namespace ga {
 
     template<typename CoefficientType, typename Expression>
     template<typename OtherCoefficientType, typename OtherExpression>
-    clifford_expression<CoefficientType, Expression>::clifford_expression(clifford_expression<OtherCoefficientType, OtherExpression> const &other) GA_NOEXCEPT :
+    clifford_expression<CoefficientType, Expression>::clifford_expression(clifford_expression<OtherCoefficientType, OtherExpression> const &other) :
         clifford_expression() {
         _GA_ONE_TIME_WARNING("Implicit call to 'checked_trivial_copy' function in the copy constructor of the 'clifford_expression' class. Consider using 'auto' instead of a custom expression type to avoid performance issues while initializing variables.")
         checked_trivial_copy(other, *this);
@@ -486,7 +486,7 @@ namespace ga {
 
     template<typename CoefficientType, typename Expression>
     template<typename OtherCoefficientType, typename OtherExpression>
-    clifford_expression<CoefficientType, Expression>::clifford_expression(clifford_expression<OtherCoefficientType, OtherExpression> &&other) GA_NOEXCEPT :
+    clifford_expression<CoefficientType, Expression>::clifford_expression(clifford_expression<OtherCoefficientType, OtherExpression> &&other) :
         clifford_expression() {
         _GA_ONE_TIME_WARNING("Implicit call to 'checked_trivial_copy' function in the moving constructor of the 'clifford_expression' class. Consider using 'auto' instead of a custom expression type to avoid performance issues while initializing variables.")
         checked_trivial_copy(other, *this);
-- 
2.43.0


From 77f9bc85bb66d70f3143a1eb0caf700b68a1706e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:41 +0000
Subject: [PATCH 09/40] fix: construction preserves lvalue arguments and
 accepts constant coordinates

Constructors, scalar(), vector(), euclidean_vector() and point() moved from
their forwarding-reference arguments even when those were lvalues, and
vector() could not be instantiated for constant, const or prvalue coordinates.
---
 .../gatl/ga/core/clifford_expression.hpp      | 10 +--
 cpp/include/gatl/ga/core/scalar.hpp           |  2 +-
 .../ga/model/conformal/euclidean_vector.hpp   |  2 +-
 .../conformal/macro_for_algebra_overload.hpp  |  4 +-
 cpp/include/gatl/ga/model/conformal/point.hpp |  2 +-
 .../signed/euclidean/euclidean_vector.hpp     |  2 +-
 .../euclidean/macro_for_algebra_overload.hpp  |  2 +-
 .../signed/homogeneous/euclidean_vector.hpp   |  2 +-
 .../macro_for_algebra_overload.hpp            |  4 +-
 .../ga/model/signed/homogeneous/point.hpp     |  2 +-
 .../signed/minkowski/euclidean_vector.hpp     |  2 +-
 .../minkowski/macro_for_algebra_overload.hpp  |  4 +-
 .../gatl/ga/model/signed/minkowski/point.hpp  |  4 +-
 .../signed/plane_based/euclidean_vector.hpp   |  2 +-
 .../macro_for_algebra_overload.hpp            |  2 +-
 .../ga/util/macro_for_algebra_overload.hpp    |  2 +-
 cpp/include/gatl/ga/util/vector.hpp           | 71 ++++++++-----------
 17 files changed, 55 insertions(+), 64 deletions(-)

diff --git a/cpp/include/gatl/ga/core/clifford_expression.hpp b/cpp/include/gatl/ga/core/clifford_expression.hpp
index 21838b9..2295f16 100644
--- a/cpp/include/gatl/ga/core/clifford_expression.hpp
+++ b/cpp/include/gatl/ga/core/clifford_expression.hpp
@@ -180,9 +180,9 @@ namespace ga {
             constexpr sequential_storage(sequential_storage const &) = default;
             constexpr sequential_storage(sequential_storage &&) = default;
 
-            template<typename... Args>
+            template<typename... Args, std::enable_if_t<!std::disjunction_v<std::is_same<sequential_storage, std::remove_cv_t<std::remove_reference_t<Args> > >...>, int> = 0>
             constexpr sequential_storage(Args &&... args) GA_NOEXCEPT :
-                entries_{ std::move(args)... } {
+                entries_{ std::forward<Args>(args)... } {
                 static_assert(sizeof...(args) == Size, "The number of arguments must be equal to the number of stored data entries.");
             }
 
@@ -702,9 +702,9 @@ namespace ga {
         template<typename OtherCoefficientType, typename OtherExpression>
         clifford_expression(clifford_expression<OtherCoefficientType, OtherExpression> &&other);
 
-        template<typename... StorageTypes>
+        template<typename... StorageTypes, std::enable_if_t<!std::disjunction_v<is_clifford_expression<std::remove_cv_t<std::remove_reference_t<StorageTypes> > >...>, int> = 0>
         constexpr clifford_expression(StorageTypes &&... args) GA_NOEXCEPT :
-            super(std::move(args)...) {
+            super(std::remove_cv_t<std::remove_reference_t<StorageTypes> >(std::forward<StorageTypes>(args))...) {
         }
 
         constexpr clifford_expression & operator=(clifford_expression const &) = default;
@@ -719,7 +719,7 @@ namespace ga {
     // Helper function to build a sequential storage of values, bitsets or maps.
     template<typename... Args>
     constexpr decltype(auto) make_sequential_storage(Args &&... args) GA_NOEXCEPT {
-        return detail::sequential_storage<std::common_type_t<std::remove_cv_t<std::remove_reference_t<Args> >...>, sizeof...(args)>(std::move(args)...);
+        return detail::sequential_storage<std::common_type_t<std::remove_cv_t<std::remove_reference_t<Args> >...>, sizeof...(args)>(std::forward<Args>(args)...);
     }
 
 }
diff --git a/cpp/include/gatl/ga/core/scalar.hpp b/cpp/include/gatl/ga/core/scalar.hpp
index 5dc59be..fa74d64 100644
--- a/cpp/include/gatl/ga/core/scalar.hpp
+++ b/cpp/include/gatl/ga/core/scalar.hpp
@@ -41,7 +41,7 @@ namespace ga {
 
     template<typename ValueType, std::enable_if_t<!is_clifford_expression_v<ValueType>, int> = 0>
     constexpr decltype(auto) scalar(ValueType &&arg) GA_NOEXCEPT {
-        return scaled_scalar_t<std::remove_cv_t<std::remove_reference_t<ValueType> > >(make_sequential_storage(std::move(arg)));
+        return scaled_scalar_t<std::remove_cv_t<std::remove_reference_t<ValueType> > >(make_sequential_storage(std::forward<ValueType>(arg)));
     }
 
     template<typename CoefficientType, typename Coefficient>
diff --git a/cpp/include/gatl/ga/model/conformal/euclidean_vector.hpp b/cpp/include/gatl/ga/model/conformal/euclidean_vector.hpp
index feff067..f8112b4 100644
--- a/cpp/include/gatl/ga/model/conformal/euclidean_vector.hpp
+++ b/cpp/include/gatl/ga/model/conformal/euclidean_vector.hpp
@@ -29,7 +29,7 @@ namespace ga {
     // Initializes a multivector representation of a Euclidean vector using the given coordinates expressed in the base space.
     template<ndims_t D, typename... Types, std::enable_if_t<std::disjunction_v<std::bool_constant<!detail::is_iterator_v<Types> >...>, int> = 0>
     constexpr decltype(auto) euclidean_vector(conformal_metric_space<D> const &mtr, Types &&... coords) GA_NOEXCEPT {
-        return vector(mtr, std::move(coords)..., c<0>, c<0>);
+        return vector(mtr, std::forward<Types>(coords)..., c<0>, c<0>);
     }
 
     // Initializes a multivector representation of a Euclidean vector using the given iterator to provide the set of coordinates.
diff --git a/cpp/include/gatl/ga/model/conformal/macro_for_algebra_overload.hpp b/cpp/include/gatl/ga/model/conformal/macro_for_algebra_overload.hpp
index 2d39251..ca580b9 100644
--- a/cpp/include/gatl/ga/model/conformal/macro_for_algebra_overload.hpp
+++ b/cpp/include/gatl/ga/model/conformal/macro_for_algebra_overload.hpp
@@ -27,7 +27,7 @@
 #define _GA_CONFORMAL_ALGEBRA_OVERLOAD(SPACE) \
     template <typename... Types, std::enable_if_t<std::disjunction_v<std::bool_constant<!detail::is_iterator_v<Types> >...>, int> = 0> \
     constexpr decltype(auto) euclidean_vector(Types &&... coords) GA_NOEXCEPT { \
-        return euclidean_vector(SPACE, std::move(coords)...); \
+        return euclidean_vector(SPACE, std::forward<Types>(coords)...); \
     } \
     \
     template <typename IteratorType, std::enable_if_t<detail::is_iterator_v<IteratorType>, int> = 0> \
@@ -72,7 +72,7 @@
     \
     template <typename... Types, std::enable_if_t<std::disjunction_v<std::bool_constant<!detail::is_iterator_v<Types> >...>, int> = 0> \
     constexpr decltype(auto) point(Types &&... coords) GA_NOEXCEPT { \
-        return point(SPACE, std::move(coords)...); \
+        return point(SPACE, std::forward<Types>(coords)...); \
     } \
     \
     template <typename IteratorType, std::enable_if_t<detail::is_iterator_v<IteratorType>, int> = 0> \
diff --git a/cpp/include/gatl/ga/model/conformal/point.hpp b/cpp/include/gatl/ga/model/conformal/point.hpp
index 7db4d71..930ff1d 100644
--- a/cpp/include/gatl/ga/model/conformal/point.hpp
+++ b/cpp/include/gatl/ga/model/conformal/point.hpp
@@ -29,7 +29,7 @@ namespace ga {
     // Initializes a multivector representation of a point using the given coordinates expressed in the base space.
     template<ndims_t D, typename... Types>
     constexpr decltype(auto) point(conformal_metric_space<D> const &mtr, Types &&... coords) GA_NOEXCEPT {
-        return vector(mtr, std::move(coords)..., c<1>, ((std::move(coords) * std::move(coords)) + ... + c<0>) / c<2>);
+        return vector(mtr, std::forward<Types>(coords)..., c<1>, ((coords * coords) + ... + c<0>) / c<2>);
     }
 
     namespace detail {
diff --git a/cpp/include/gatl/ga/model/signed/euclidean/euclidean_vector.hpp b/cpp/include/gatl/ga/model/signed/euclidean/euclidean_vector.hpp
index 86c5f0b..0dd19ee 100644
--- a/cpp/include/gatl/ga/model/signed/euclidean/euclidean_vector.hpp
+++ b/cpp/include/gatl/ga/model/signed/euclidean/euclidean_vector.hpp
@@ -29,7 +29,7 @@ namespace ga {
     // Initializes a multivector representation of a Euclidean vector using the given coordinates expressed in the base space.
     template<ndims_t N, typename... Types, std::enable_if_t<std::disjunction_v<std::bool_constant<!detail::is_iterator_v<Types> >...>, int> = 0>
     constexpr decltype(auto) euclidean_vector(euclidean_metric_space<N> const &mtr, Types &&... coords) GA_NOEXCEPT {
-        return vector(mtr, std::move(coords)...);
+        return vector(mtr, std::forward<Types>(coords)...);
     }
 
     // Initializes a multivector representation of a Euclidean vector using the given iterator to provide the set of coordinates.
diff --git a/cpp/include/gatl/ga/model/signed/euclidean/macro_for_algebra_overload.hpp b/cpp/include/gatl/ga/model/signed/euclidean/macro_for_algebra_overload.hpp
index 25570a1..e140bb1 100644
--- a/cpp/include/gatl/ga/model/signed/euclidean/macro_for_algebra_overload.hpp
+++ b/cpp/include/gatl/ga/model/signed/euclidean/macro_for_algebra_overload.hpp
@@ -27,7 +27,7 @@
 #define _GA_EUCLIDEAN_ALGEBRA_OVERLOAD(SPACE) \
     template <typename... Types, std::enable_if_t<std::disjunction_v<std::bool_constant<!detail::is_iterator_v<Types> >...>, int> = 0> \
     constexpr decltype(auto) euclidean_vector(Types &&... coords) GA_NOEXCEPT { \
-        return euclidean_vector(SPACE, std::move(coords)...); \
+        return euclidean_vector(SPACE, std::forward<Types>(coords)...); \
     } \
     \
     template <typename IteratorType, std::enable_if_t<detail::is_iterator_v<IteratorType>, int> = 0> \
diff --git a/cpp/include/gatl/ga/model/signed/homogeneous/euclidean_vector.hpp b/cpp/include/gatl/ga/model/signed/homogeneous/euclidean_vector.hpp
index 1b63519..59dc550 100644
--- a/cpp/include/gatl/ga/model/signed/homogeneous/euclidean_vector.hpp
+++ b/cpp/include/gatl/ga/model/signed/homogeneous/euclidean_vector.hpp
@@ -29,7 +29,7 @@ namespace ga {
     // Initializes a multivector representation of a Euclidean vector using the given coordinates expressed in the base space.
     template<ndims_t D, typename... Types, std::enable_if_t<std::disjunction_v<std::bool_constant<!detail::is_iterator_v<Types> >...>, int> = 0>
     constexpr decltype(auto) euclidean_vector(homogeneous_metric_space<D> const &mtr, Types &&... coords) GA_NOEXCEPT {
-        return vector(mtr, std::move(coords)..., c<0>);
+        return vector(mtr, std::forward<Types>(coords)..., c<0>);
     }
 
     // Initializes a multivector representation of a Euclidean vector using the given iterator to provide the set of coordinates.
diff --git a/cpp/include/gatl/ga/model/signed/homogeneous/macro_for_algebra_overload.hpp b/cpp/include/gatl/ga/model/signed/homogeneous/macro_for_algebra_overload.hpp
index 89837ee..2ef1250 100644
--- a/cpp/include/gatl/ga/model/signed/homogeneous/macro_for_algebra_overload.hpp
+++ b/cpp/include/gatl/ga/model/signed/homogeneous/macro_for_algebra_overload.hpp
@@ -27,7 +27,7 @@
 #define _GA_HOMOGENEOUS_ALGEBRA_OVERLOAD(SPACE) \
     template <typename... Types, std::enable_if_t<std::disjunction_v<std::bool_constant<!detail::is_iterator_v<Types> >...>, int> = 0> \
     constexpr decltype(auto) euclidean_vector(Types &&... coords) GA_NOEXCEPT { \
-        return euclidean_vector(SPACE, std::move(coords)...); \
+        return euclidean_vector(SPACE, std::forward<Types>(coords)...); \
     } \
     \
     template <typename IteratorType, std::enable_if_t<detail::is_iterator_v<IteratorType>, int> = 0> \
@@ -57,7 +57,7 @@
     \
     template <typename... Types, std::enable_if_t<std::disjunction_v<std::bool_constant<!detail::is_iterator_v<Types> >...>, int> = 0> \
     constexpr decltype(auto) point(Types &&... coords) GA_NOEXCEPT { \
-        return point(SPACE, std::move(coords)...); \
+        return point(SPACE, std::forward<Types>(coords)...); \
     } \
     \
     template <typename IteratorType, std::enable_if_t<detail::is_iterator_v<IteratorType>, int> = 0> \
diff --git a/cpp/include/gatl/ga/model/signed/homogeneous/point.hpp b/cpp/include/gatl/ga/model/signed/homogeneous/point.hpp
index ed17b79..660a7cb 100644
--- a/cpp/include/gatl/ga/model/signed/homogeneous/point.hpp
+++ b/cpp/include/gatl/ga/model/signed/homogeneous/point.hpp
@@ -29,7 +29,7 @@ namespace ga {
     // Initializes a multivector representation of a point using the given coordinates expressed in the base space.
     template<ndims_t D, typename... Types, std::enable_if_t<std::disjunction_v<std::bool_constant<!detail::is_iterator_v<Types> >...>, int> = 0>
     constexpr decltype(auto) point(homogeneous_metric_space<D> const &mtr, Types &&... coords) GA_NOEXCEPT {
-        return vector(mtr, std::move(coords)..., c<1>);
+        return vector(mtr, std::forward<Types>(coords)..., c<1>);
     }
 
     // Initializes a multivector representation of a point using the given coordinates expressed in the base space.
diff --git a/cpp/include/gatl/ga/model/signed/minkowski/euclidean_vector.hpp b/cpp/include/gatl/ga/model/signed/minkowski/euclidean_vector.hpp
index a5c7543..dc901b2 100644
--- a/cpp/include/gatl/ga/model/signed/minkowski/euclidean_vector.hpp
+++ b/cpp/include/gatl/ga/model/signed/minkowski/euclidean_vector.hpp
@@ -29,7 +29,7 @@ namespace ga {
     // Initializes a multivector representation of a Euclidean vector using the given coordinates expressed in the base space.
     template<ndims_t D, typename... Types, std::enable_if_t<std::disjunction_v<std::bool_constant<!detail::is_iterator_v<Types> >...>, int> = 0>
     constexpr decltype(auto) euclidean_vector(minkowski_metric_space<D> const &mtr, Types &&... coords) GA_NOEXCEPT {
-        return vector(mtr, std::move(coords)..., c<0>, c<0>);
+        return vector(mtr, std::forward<Types>(coords)..., c<0>, c<0>);
     }
 
     // Initializes a multivector representation of a Euclidean vector using the given iterator to provide the set of coordinates.
diff --git a/cpp/include/gatl/ga/model/signed/minkowski/macro_for_algebra_overload.hpp b/cpp/include/gatl/ga/model/signed/minkowski/macro_for_algebra_overload.hpp
index 2d0215d..b7fdfb6 100644
--- a/cpp/include/gatl/ga/model/signed/minkowski/macro_for_algebra_overload.hpp
+++ b/cpp/include/gatl/ga/model/signed/minkowski/macro_for_algebra_overload.hpp
@@ -27,7 +27,7 @@
 #define _GA_MINKOWSKI_ALGEBRA_OVERLOAD(SPACE) \
     template <typename... Types, std::enable_if_t<std::disjunction_v<std::bool_constant<!detail::is_iterator_v<Types> >...>, int> = 0> \
     constexpr decltype(auto) euclidean_vector(Types &&... coords) GA_NOEXCEPT { \
-        return euclidean_vector(SPACE, std::move(coords)...); \
+        return euclidean_vector(SPACE, std::forward<Types>(coords)...); \
     } \
     \
     template <typename IteratorType, std::enable_if_t<detail::is_iterator_v<IteratorType>, int> = 0> \
@@ -72,7 +72,7 @@
     \
     template <typename... Types, std::enable_if_t<std::disjunction_v<std::bool_constant<!detail::is_iterator_v<Types> >...>, int> = 0> \
     constexpr decltype(auto) point(Types &&... coords) GA_NOEXCEPT { \
-        return point(SPACE, std::move(coords)...); \
+        return point(SPACE, std::forward<Types>(coords)...); \
     } \
     \
     template <typename IteratorType, std::enable_if_t<detail::is_iterator_v<IteratorType>, int> = 0> \
diff --git a/cpp/include/gatl/ga/model/signed/minkowski/point.hpp b/cpp/include/gatl/ga/model/signed/minkowski/point.hpp
index 2f57047..18d38fa 100644
--- a/cpp/include/gatl/ga/model/signed/minkowski/point.hpp
+++ b/cpp/include/gatl/ga/model/signed/minkowski/point.hpp
@@ -29,8 +29,8 @@ namespace ga {
     // Initializes a multivector representation of a point using the given coordinates expressed in the base space.
     template<ndims_t D, typename... Types>
     constexpr decltype(auto) point(minkowski_metric_space<D> const &mtr, Types &&... coords) GA_NOEXCEPT {
-        auto aux = ((std::move(coords) * std::move(coords)) + ... + c<0>);
-        return vector(mtr, std::move(coords)..., (aux - c<1>) / c<2>, (aux + c<1>) / c<2>);
+        auto aux = ((coords * coords) + ... + c<0>);
+        return vector(mtr, std::forward<Types>(coords)..., (aux - c<1>) / c<2>, (aux + c<1>) / c<2>);
     }
 
     namespace detail {
diff --git a/cpp/include/gatl/ga/model/signed/plane_based/euclidean_vector.hpp b/cpp/include/gatl/ga/model/signed/plane_based/euclidean_vector.hpp
index 52a8002..6da3b27 100644
--- a/cpp/include/gatl/ga/model/signed/plane_based/euclidean_vector.hpp
+++ b/cpp/include/gatl/ga/model/signed/plane_based/euclidean_vector.hpp
@@ -29,7 +29,7 @@ namespace ga {
     // Initializes a multivector representation of a Euclidean vector using the given coordinates expressed in the base space.
     template<ndims_t D, typename... Types, std::enable_if_t<std::disjunction_v<std::bool_constant<!detail::is_iterator_v<Types> >...>, int> = 0>
     constexpr decltype(auto) euclidean_vector(plane_based_metric_space<D> const &mtr, Types &&... coords) GA_NOEXCEPT {
-        return vector(mtr, std::move(coords)..., c<0>);
+        return vector(mtr, std::forward<Types>(coords)..., c<0>);
     }
 
     // Initializes a multivector representation of a Euclidean vector using the given iterator to provide the set of coordinates.
diff --git a/cpp/include/gatl/ga/model/signed/plane_based/macro_for_algebra_overload.hpp b/cpp/include/gatl/ga/model/signed/plane_based/macro_for_algebra_overload.hpp
index ef5865f..cbc090b 100644
--- a/cpp/include/gatl/ga/model/signed/plane_based/macro_for_algebra_overload.hpp
+++ b/cpp/include/gatl/ga/model/signed/plane_based/macro_for_algebra_overload.hpp
@@ -27,7 +27,7 @@
 #define _GA_PLANE_BASED_ALGEBRA_OVERLOAD(SPACE) \
     template <typename... Types, std::enable_if_t<std::disjunction_v<std::bool_constant<!detail::is_iterator_v<Types> >...>, int> = 0> \
     constexpr decltype(auto) euclidean_vector(Types &&... coords) GA_NOEXCEPT { \
-        return euclidean_vector(SPACE, std::move(coords)...); \
+        return euclidean_vector(SPACE, std::forward<Types>(coords)...); \
     } \
     \
     template <typename IteratorType, std::enable_if_t<detail::is_iterator_v<IteratorType>, int> = 0> \
diff --git a/cpp/include/gatl/ga/util/macro_for_algebra_overload.hpp b/cpp/include/gatl/ga/util/macro_for_algebra_overload.hpp
index e0d5066..990259c 100644
--- a/cpp/include/gatl/ga/util/macro_for_algebra_overload.hpp
+++ b/cpp/include/gatl/ga/util/macro_for_algebra_overload.hpp
@@ -31,7 +31,7 @@
     \
     template<typename... Types, std::enable_if_t<std::disjunction_v<std::bool_constant<!detail::is_iterator_v<Types> >...>, int> = 0> \
     constexpr decltype(auto) vector(Types &&... coords) GA_NOEXCEPT { \
-        return ga::vector(SPACE, std::move(coords)...); \
+        return ga::vector(SPACE, std::forward<Types>(coords)...); \
     } \
     \
     template<typename IteratorType, std::enable_if_t<detail::is_iterator_v<IteratorType>, int> = 0> \
diff --git a/cpp/include/gatl/ga/util/vector.hpp b/cpp/include/gatl/ga/util/vector.hpp
index bb275b4..795d9bc 100644
--- a/cpp/include/gatl/ga/util/vector.hpp
+++ b/cpp/include/gatl/ga/util/vector.hpp
@@ -79,59 +79,50 @@ namespace ga {
 
         // Helper structures to build a sequential storage of vector coordinates.
         struct make_vector_sequential_storage_simple {
-            template<typename... Types>
-            GA_ALWAYS_INLINE constexpr static decltype(auto) run(Types &&... coords) GA_NOEXCEPT {
-                return make_sequential_storage(std::move(coords)...);
+            template<typename StorageType, typename... Types>
+            GA_ALWAYS_INLINE constexpr static StorageType run(Types &&... coords) GA_NOEXCEPT {
+                return StorageType(std::forward<Types>(coords)...);
             }
         };
 
         struct make_vector_sequential_storage_not_simple {
         private:
 
-            template<typename ValueType, std::size_t Size, std::size_t... Indices>
-            GA_ALWAYS_INLINE constexpr static decltype(auto) to_values_tuple(sequential_storage<ValueType, Size> &&values, std::index_sequence<Indices...> const) GA_NOEXCEPT {
-                return std::tie(std::get<Indices>(std::move(values))...);
-            }
-
-            template<typename ValueType, std::size_t Size>
-            GA_ALWAYS_INLINE constexpr static decltype(auto) to_values_tuple(sequential_storage<ValueType, Size> &&values) GA_NOEXCEPT {
-                return to_values_tuple(std::move(values), std::make_index_sequence<Size>{});
-            }
-
-            template<typename ValueType>
-            GA_ALWAYS_INLINE constexpr static decltype(auto) to_values_tuple(sequential_storage<ValueType, 0> &&) GA_NOEXCEPT {
-                return std::make_tuple();
+            template<typename CoordinateType>
+            GA_ALWAYS_INLINE constexpr static decltype(auto) to_values_tuple(CoordinateType &&coord) GA_NOEXCEPT {
+                using coordinate_type = std::remove_cv_t<std::remove_reference_t<CoordinateType> >;
+
+                if constexpr (!is_clifford_expression_v<coordinate_type>) {
+                    return std::make_tuple(std::forward<CoordinateType>(coord));
+                }
+                else if constexpr (count_stored_values_v<typename coordinate_type::expression_type> != 0) {
+                    return std::make_tuple(*coord.values().cbegin());
+                }
+                else {
+                    return std::make_tuple(); // constant coordinates are not stored
+                }
             }
 
-            GA_ALWAYS_INLINE constexpr static decltype(auto) make_values_tuple() GA_NOEXCEPT {
-                return std::make_tuple();
+            template<typename... CoordinateTypes>
+            GA_ALWAYS_INLINE constexpr static decltype(auto) make_values_tuple(CoordinateTypes &&... coords) GA_NOEXCEPT {
+                return std::tuple_cat(to_values_tuple(std::forward<CoordinateTypes>(coords))...);
             }
 
-            template<typename CoordinateType, typename... NextTypes>
-            GA_ALWAYS_INLINE constexpr static decltype(auto) make_values_tuple(CoordinateType &&coord, NextTypes &&... next_coords) GA_NOEXCEPT {
-                return std::tuple_cat(std::make_tuple(std::move(coord)), make_values_tuple(std::move(next_coords)...));
+            template<typename StorageType, typename... ValueTypes, std::size_t... Indices>
+            GA_ALWAYS_INLINE constexpr static StorageType to_sequential_storage(std::tuple<ValueTypes...> &&tuple, std::index_sequence<Indices...> const) GA_NOEXCEPT {
+                return StorageType(std::get<Indices>(std::move(tuple))...);
             }
 
-            template<typename CoefficientType, typename Coefficient, typename... NextTypes>
-            GA_ALWAYS_INLINE constexpr static decltype(auto) make_values_tuple(scalar_clifford_expression<CoefficientType, Coefficient> const &&coord, NextTypes &&... next_coords) GA_NOEXCEPT {
-                return std::tuple_cat(to_values_tuple(coord.values()), make_values_tuple(std::move(next_coords)...));
-            }
-
-            template<typename... ValueTypes, std::size_t... Indices>
-            GA_ALWAYS_INLINE constexpr static decltype(auto) to_sequential_storage(std::tuple<ValueTypes...> &&tuple, std::index_sequence<Indices...> const) GA_NOEXCEPT {
-                return make_sequential_storage(std::get<Indices>(std::move(tuple))...);
-            }
-
-            template<typename... ValueTypes>
-            GA_ALWAYS_INLINE constexpr static decltype(auto) to_sequential_storage(std::tuple<ValueTypes...> &&tuple) GA_NOEXCEPT {
-                return to_sequential_storage(std::move(tuple), std::make_index_sequence<std::tuple_size_v<std::remove_cv_t<std::remove_reference_t<std::tuple<ValueTypes...> > > > >{});
+            template<typename StorageType, typename... ValueTypes>
+            GA_ALWAYS_INLINE constexpr static StorageType to_sequential_storage(std::tuple<ValueTypes...> &&tuple) GA_NOEXCEPT {
+                return to_sequential_storage<StorageType>(std::move(tuple), std::make_index_sequence<std::tuple_size_v<std::remove_cv_t<std::remove_reference_t<std::tuple<ValueTypes...> > > > >{});
             }
 
         public:
 
-            template<typename... Types>
-            GA_ALWAYS_INLINE constexpr static decltype(auto) run(Types &&... coords) GA_NOEXCEPT {
-                return to_sequential_storage(make_values_tuple(std::move(coords)...));
+            template<typename StorageType, typename... Types>
+            GA_ALWAYS_INLINE constexpr static StorageType run(Types &&... coords) GA_NOEXCEPT {
+                return to_sequential_storage<StorageType>(make_values_tuple(std::forward<Types>(coords)...));
             }
         };
 
@@ -140,7 +131,7 @@ namespace ga {
         struct make_vector {
             template<typename... Types>
             GA_ALWAYS_INLINE constexpr static CliffordExpression run(Types &&... coords) GA_NOEXCEPT {
-                return CliffordExpression(std::conditional_t<std::disjunction_v<std::bool_constant<is_clifford_expression_v<std::remove_cv_t<std::remove_reference_t<Types> > > >...>, detail::make_vector_sequential_storage_not_simple, detail::make_vector_sequential_storage_simple>::run(std::move(coords)...));
+                return CliffordExpression(std::conditional_t<std::disjunction_v<std::bool_constant<is_clifford_expression_v<std::remove_cv_t<std::remove_reference_t<Types> > > >...>, detail::make_vector_sequential_storage_not_simple, detail::make_vector_sequential_storage_simple>::template run<typename CliffordExpression::value_storage_type>(std::forward<Types>(coords)...));
             }
         };
 
@@ -158,7 +149,7 @@ namespace ga {
     template<typename MetricSpaceType, typename... Types, std::enable_if_t<std::disjunction_v<std::bool_constant<!detail::is_iterator_v<Types> >...>, int> = 0>
     constexpr decltype(auto) vector(metric_space<MetricSpaceType> const &, Types &&... coords) GA_NOEXCEPT {
         static_assert(MetricSpaceType::vector_space_dimensions == sizeof...(Types), "The number of coordinates must be equal to the number of dimensions of the vector space.");
-        return detail::make_vector<detail::deduce_vector_t<MetricSpaceType::vector_space_dimensions, std::remove_cv_t<std::remove_reference_t<Types> >...> >::run(std::move(coords)...);
+        return detail::make_vector<detail::deduce_vector_t<MetricSpaceType::vector_space_dimensions, std::remove_cv_t<std::remove_reference_t<Types> >...> >::run(std::forward<Types>(coords)...);
     }
 
     namespace detail {
@@ -166,7 +157,7 @@ namespace ga {
         // Helper function to adapt one vector() function to another.
         template<typename MetricSpaceType, typename IteratorType, std::size_t... Indices, typename... ExtraTypes>
         GA_ALWAYS_INLINE constexpr decltype(auto) make_vector_using_iterator(metric_space<MetricSpaceType> const &mtr, IteratorType begin, std::index_sequence<Indices...>, ExtraTypes &&... extra_coords) GA_NOEXCEPT {
-            return vector(mtr, *(begin + Indices)..., std::move(extra_coords)...);
+            return vector(mtr, *(begin + Indices)..., std::forward<ExtraTypes>(extra_coords)...);
         };
 
     }
-- 
2.43.0


From 67cd3e1e7ad1fed059aa0c3a13cf9efc7e03c93a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:11 +0000
Subject: [PATCH 10/40] fix: the sign of a canonical reordering may be negative

Declared as non-negative, the root of a product of signs was distributed
over negative factors, e.g. the norm of a lazy e2^e1 was NaN.
---
 cpp/include/gatl/ga/core/expression_traits.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/include/gatl/ga/core/expression_traits.hpp b/cpp/include/gatl/ga/core/expression_traits.hpp
index b7edfcc..a0df463 100644
--- a/cpp/include/gatl/ga/core/expression_traits.hpp
+++ b/cpp/include/gatl/ga/core/expression_traits.hpp
@@ -344,7 +344,7 @@ namespace ga {
 
         template<typename LeftBitset, typename RightBitset>
         struct is_non_negative<reordering_sign<LeftBitset, RightBitset> > :
-            std::true_type {
+            std::false_type {
         };
 
         template<typename Bitset>
-- 
2.43.0


From 28c1b240e5bacc631d9688e5e9866cbe3d83083b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:05 +0000
Subject: [PATCH 11/40] fix: writing a basis vector without a name does not
 read past the names

---
 cpp/include/gatl/ga/extra/write.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cpp/include/gatl/ga/extra/write.hpp b/cpp/include/gatl/ga/extra/write.hpp
index 2cd6300..a967547 100644
--- a/cpp/include/gatl/ga/extra/write.hpp
+++ b/cpp/include/gatl/ga/extra/write.hpp
@@ -42,7 +42,9 @@ namespace ga {
 #pragma warning( disable : 4244 )
 
                     if (bitset != arg) os << "^";
-                    os << basis_vectors[ones(first_set_bit - std::make_signed_t<bitset_t>(1))];
+                    std::size_t const index = ones(first_set_bit - std::make_signed_t<bitset_t>(1));
+                    if (index < N) os << basis_vectors[index];
+                    else os << "e" << (index + 1);
 
 #pragma warning( pop )
 
-- 
2.43.0


From e67b864a67296507969bfdd7898a1d4dcc400122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:22 +0000
Subject: [PATCH 12/40] fix: isolating the rightmost set bit does not overflow
 for the topmost bit

Products whose possible grades include the largest one (63, or 31 with
32-bit bitsets) failed to compile.
---
 cpp/include/gatl/ga/core/constexpr.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/include/gatl/ga/core/constexpr.hpp b/cpp/include/gatl/ga/core/constexpr.hpp
index a72a5db..db84994 100644
--- a/cpp/include/gatl/ga/core/constexpr.hpp
+++ b/cpp/include/gatl/ga/core/constexpr.hpp
@@ -90,7 +90,7 @@ namespace ga {
 
         // Returns the rightmost set bit in the given bitset.
         GA_ALWAYS_INLINE constexpr bitset_t rightmost_set_bit(bitset_t const arg) GA_NOEXCEPT {
-            return arg & -std::make_signed_t<bitset_t>(arg);
+            return arg & static_cast<bitset_t>(~arg + bitset_t(1)); // two's complement without signed overflow
         }
 
         // Returns the index of the set bit, assuming that there is a single set bit in the bitset.
-- 
2.43.0


From dd1058fffc2162322a873c2f6851698a85896ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:35 +0000
Subject: [PATCH 13/40] fix: the Hestenes inner product of run-time blades that
 may be scalars is viable

---
 cpp/include/gatl/ga/core/hestenes_inner_product.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/cpp/include/gatl/ga/core/hestenes_inner_product.hpp b/cpp/include/gatl/ga/core/hestenes_inner_product.hpp
index 6a8f7cf..be4ae57 100644
--- a/cpp/include/gatl/ga/core/hestenes_inner_product.hpp
+++ b/cpp/include/gatl/ga/core/hestenes_inner_product.hpp
@@ -52,9 +52,8 @@ namespace ga {
 
             template<typename LeftGrade, typename RightGrade, typename ResultGrade>
             struct are_valid_grades {
-                using type = if_else_t<
-                    logical_or_t<equal_t<LeftGrade, constant_value<0> >, equal_t<RightGrade, constant_value<0> > >,
-                    std::false_type,
+                using type = logical_and_t<
+                    logical_and_t<less_or_equal_t<constant_value<1>, LeftGrade>, less_or_equal_t<constant_value<1>, RightGrade> >,
                     if_else_t<
                         less_or_equal_t<LeftGrade, RightGrade>,
                         equal_t<ResultGrade, addition_t<RightGrade, product_t<constant_value<-1>, LeftGrade, value_mapping> > >,
-- 
2.43.0


From 8bde2f32a39ffd02c8044b67c31557a4a2e3779e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:35 +0000
Subject: [PATCH 14/40] fix: run-time basis vectors compile with narrow bitset
 types

---
 cpp/include/gatl/ga/util/basis_vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/include/gatl/ga/util/basis_vector.hpp b/cpp/include/gatl/ga/util/basis_vector.hpp
index 2044b85..6f6a05d 100644
--- a/cpp/include/gatl/ga/util/basis_vector.hpp
+++ b/cpp/include/gatl/ga/util/basis_vector.hpp
@@ -44,7 +44,7 @@ namespace ga {
     // Returns a runtime defined unit basis vector.
     constexpr unit_basis_vector_t e(index_t const index) GA_NOEXCEPT {
         assert(index > 0);
-        return unit_basis_vector_t(make_sequential_storage(bitset_t(1) << (index - 1)));
+        return unit_basis_vector_t(make_sequential_storage(bitset_t(bitset_t(1) << (index - 1))));
     }
 
     // Returns a compile-time defined unit basis vector.
-- 
2.43.0


From f0a9aa2fe87afaab2429a6d1d6769fe1894e48cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:27 +0000
Subject: [PATCH 15/40] fix: components whose basis blades are not ordered by
 their types can be added

---
 .../expression_simplification_addition_components.hpp  | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/cpp/include/gatl/ga/core/expression_simplification_addition_components.hpp b/cpp/include/gatl/ga/core/expression_simplification_addition_components.hpp
index 1dacc16..e2fa8dc 100644
--- a/cpp/include/gatl/ga/core/expression_simplification_addition_components.hpp
+++ b/cpp/include/gatl/ga/core/expression_simplification_addition_components.hpp
@@ -131,7 +131,7 @@ namespace ga {
             };
         };
 
-        // Simplification rule to merge the addition of components when the left-hand side argument is smaller than the right-hand side argument. Ties keep the order, since distinct stored basis blades share the same type.
+        // Simplification rule to merge the addition of components when the left-hand side argument is smaller than the right-hand side argument. Ties keep the order, since distinct basis blades may not be ordered by their types.
         struct _addition_components_rule_merge_less_than {
             
             // Default
@@ -144,7 +144,7 @@ namespace ga {
             // A Ei + A Ej => add<A Ei, B Ej>
             template<typename LeftCoefficient, typename LeftBasisBlade, typename RightCoefficient, typename RightBasisBlade>
             struct condition<component<LeftCoefficient, LeftBasisBlade>, component<RightCoefficient, RightBasisBlade> > :
-                std::bool_constant<(lt_v<LeftBasisBlade, RightBasisBlade> || std::is_same_v<LeftBasisBlade, RightBasisBlade>)> {
+                le_t<LeftBasisBlade, RightBasisBlade> {
             };
 
             template<typename LeftCoefficient, typename LeftBasisBlade, typename RightCoefficient, typename RightBasisBlade>
@@ -155,7 +155,7 @@ namespace ga {
             // A Ei + add<B Ej, ...> => add<A Ei, B Ej, ...>
             template<typename LeftCoefficient, typename LeftBasisBlade, typename RightCoefficient, typename RightBasisBlade, typename... RightNextArguments>
             struct condition<component<LeftCoefficient, LeftBasisBlade>, add<component<RightCoefficient, RightBasisBlade>, RightNextArguments...> > :
-                std::bool_constant<(lt_v<LeftBasisBlade, RightBasisBlade> || std::is_same_v<LeftBasisBlade, RightBasisBlade>)> {
+                le_t<LeftBasisBlade, RightBasisBlade> {
             };
 
             template<typename LeftCoefficient, typename LeftBasisBlade, typename RightCoefficient, typename RightBasisBlade, typename... RightNextArguments>
@@ -166,7 +166,7 @@ namespace ga {
             // add<A Ei, ...> + B Ej => A Ei + (add<...> + B Ej)
             template<typename LeftCoefficient, typename LeftBasisBlade, typename... LeftNextArguments, typename RightCoefficient, typename RightBasisBlade>
             struct condition<add<component<LeftCoefficient, LeftBasisBlade>, LeftNextArguments...>, component<RightCoefficient, RightBasisBlade> > :
-                std::bool_constant<(lt_v<LeftBasisBlade, RightBasisBlade> || std::is_same_v<LeftBasisBlade, RightBasisBlade>)> {
+                le_t<LeftBasisBlade, RightBasisBlade> {
             };
 
             template<typename LeftCoefficient, typename LeftBasisBlade, typename... LeftNextArguments, typename RightCoefficient, typename RightBasisBlade>
@@ -177,7 +177,7 @@ namespace ga {
             // add<A Ei, ...> + add<B Ej, ...> => A Ei + (add<...> + add<B Ej, ...>)
             template<typename LeftCoefficient, typename LeftBasisBlade, typename... LeftNextArguments, typename RightCoefficient, typename RightBasisBlade, typename... RightNextArguments>
             struct condition<add<component<LeftCoefficient, LeftBasisBlade>, LeftNextArguments...>, add<component<RightCoefficient, RightBasisBlade>, RightNextArguments...> > :
-                std::bool_constant<(lt_v<LeftBasisBlade, RightBasisBlade> || std::is_same_v<LeftBasisBlade, RightBasisBlade>)> {
+                le_t<LeftBasisBlade, RightBasisBlade> {
             };
 
             template<typename LeftCoefficient, typename LeftBasisBlade, typename... LeftNextArguments, typename RightCoefficient, typename RightBasisBlade, typename... RightNextArguments>
-- 
2.43.0


From 04b1f5be5b28d4107234aa3bbc2e7321be2c1bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:39 +0000
Subject: [PATCH 16/40] fix: conditional expressions accept values simplified
 to logical constants

---
 cpp/include/gatl/ga/core/expression.hpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/cpp/include/gatl/ga/core/expression.hpp b/cpp/include/gatl/ga/core/expression.hpp
index 677201c..588b16b 100644
--- a/cpp/include/gatl/ga/core/expression.hpp
+++ b/cpp/include/gatl/ga/core/expression.hpp
@@ -797,6 +797,20 @@ namespace ga {
             std::false_type { // simplify
         };
 
+        // Evaluates one of the values of if_else<Test, TrueValue, FalseValue>. It may be a logical value simplified to std::bool_constant<Value>.
+        template<typename Value>
+        struct _if_else_value :
+            Value {
+        };
+
+        template<bool Value>
+        struct _if_else_value<std::bool_constant<Value> > {
+            template<tag_t LowerTag, tag_t UpperTag, typename... InputTypes>
+            GA_ALWAYS_INLINE constexpr static bool eval(std::tuple<InputTypes...> const &) GA_NOEXCEPT {
+                return Value;
+            }
+        };
+
         // Specializations of if_else<Test, TrueValue, FalseValue>.
         template<typename Test, typename TrueValue, typename FalseValue>
         struct function<name_t::if_else, Test, TrueValue, FalseValue> {
@@ -808,7 +822,7 @@ namespace ga {
 
             template<tag_t LowerTag, tag_t UpperTag, typename... InputTypes>
             GA_ALWAYS_INLINE constexpr static decltype(auto) eval(std::tuple<InputTypes...> const &args) {
-                return Test::template eval<LowerTag, UpperTag>(args) ? TrueValue::template eval<LowerTag, UpperTag>(args) : FalseValue::template eval<LowerTag, UpperTag>(args);
+                return Test::template eval<LowerTag, UpperTag>(args) ? _if_else_value<TrueValue>::template eval<LowerTag, UpperTag>(args) : _if_else_value<FalseValue>::template eval<LowerTag, UpperTag>(args);
             }
         };
 
-- 
2.43.0


From ef454af84ccc64f6811d29a883341e0e46b5b313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:46 +0000
Subject: [PATCH 17/40] fix: evaluated bit manipulations of run-time blades are
 stored as bitsets

---
 cpp/include/gatl/ga/core/lazy_context.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp/include/gatl/ga/core/lazy_context.hpp b/cpp/include/gatl/ga/core/lazy_context.hpp
index 0f1f821..610d7b3 100644
--- a/cpp/include/gatl/ga/core/lazy_context.hpp
+++ b/cpp/include/gatl/ga/core/lazy_context.hpp
@@ -443,7 +443,7 @@ namespace ga {
         struct eval_clifford_expression<LowerTag, UpperTag, bitwise_uminus<Bitset> > :
             std::conditional_t<
                 std::is_same_v<eval_expression_t<LowerTag, UpperTag, Bitset>, stored_bitset>,
-                _eval_clifford_expression_store_value<LowerTag, UpperTag, bitwise_uminus<Bitset> >,
+                _eval_clifford_expression_store_bitset<LowerTag, UpperTag, bitwise_uminus<Bitset> >,
                 _eval_clifford_expression_move<LowerTag, UpperTag, bitwise_uminus_t<eval_expression_t<LowerTag, UpperTag, Bitset> >, Bitset>
             > {
         };
@@ -453,7 +453,7 @@ namespace ga {
         struct eval_clifford_expression<LowerTag, UpperTag, bitwise_dec<Bitset> > :
             std::conditional_t<
                 std::is_same_v<eval_expression_t<LowerTag, UpperTag, Bitset>, stored_bitset>,
-                _eval_clifford_expression_store_value<LowerTag, UpperTag, bitwise_dec<Bitset> >,
+                _eval_clifford_expression_store_bitset<LowerTag, UpperTag, bitwise_dec<Bitset> >,
                 _eval_clifford_expression_move<LowerTag, UpperTag, bitwise_dec_t<eval_expression_t<LowerTag, UpperTag, Bitset> >, Bitset>
             > {
         };
-- 
2.43.0


From f3955aebb53f6c4b1b86d7a548fe51afbe2238c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:46 +0000
Subject: [PATCH 18/40] fix: products of run-time blades in non-orthogonal
 spaces ignore combinations of rows beyond the grade

---
 cpp/include/gatl/ga/core/general_metric_mapping.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/include/gatl/ga/core/general_metric_mapping.hpp b/cpp/include/gatl/ga/core/general_metric_mapping.hpp
index 8e2e123..6a03543 100644
--- a/cpp/include/gatl/ga/core/general_metric_mapping.hpp
+++ b/cpp/include/gatl/ga/core/general_metric_mapping.hpp
@@ -199,7 +199,7 @@ namespace ga {
 
                     using candidate_component = product_t<
                         product_t<
-                            component_t<if_else_t<logical_and_t<less_or_equal_t<constant_value<order>, left_grade>, less_or_equal_t<constant_value<order>, right_grade> >, constant_value<1>, constant_value<0> >, LeftBasisBlade>,
+                            component_t<if_else_t<logical_and_t<less_or_equal_t<constant_value<order>, left_grade>, equal_t<constant_value<order>, count_one_bits_t<row_basis_vectors> > >, constant_value<1>, constant_value<0> >, LeftBasisBlade>, // the combination of rows must exist in the right-hand side blade
                             component_t<determinant_t<GeneralMetricSpace, row_basis_vectors, column_basis_vectors, order>, constant_basis_blade<ColumnBasisVectors ^ GeneralMetricSpace::basis_vectors> >,
                             regressive_product_mapping<GeneralMetricSpace::vector_space_dimensions>
                         >,
-- 
2.43.0


From c8cba4c9f219be7ef3630ad2e2335c453744e8bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:10 +0000
Subject: [PATCH 19/40] fix: grade selection in non-orthogonal spaces tests the
 grade of the candidate blade

---
 cpp/include/gatl/ga/core/general_metric_mapping.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/include/gatl/ga/core/general_metric_mapping.hpp b/cpp/include/gatl/ga/core/general_metric_mapping.hpp
index 6a03543..eab61e9 100644
--- a/cpp/include/gatl/ga/core/general_metric_mapping.hpp
+++ b/cpp/include/gatl/ga/core/general_metric_mapping.hpp
@@ -164,7 +164,7 @@ namespace ga {
                     using coefficient = if_else_t<
                         std::conditional_t<
                             possible_grades != bitset_t(0),
-                            typename GradedProduct::template are_valid_grades<left_grade, right_grade, count_one_bits_t<basis_vectors_t<basis_blade> > >::type,
+                            typename GradedProduct::template are_valid_grades<left_grade, right_grade, count_one_bits_t<basis_vectors_t<basis_blade_t<CandidateComponent> > > >::type,
                             std::false_type
                         >,
                         coefficient_t<CandidateComponent>,
-- 
2.43.0


From 653f273b947b31b1bbecdb1b85d335618d8471b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:40 +0000
Subject: [PATCH 20/40] fix: taking an impossible grade of a run-time blade
 does not shift out of range

---
 cpp/include/gatl/ga/extra/take_grade.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/cpp/include/gatl/ga/extra/take_grade.hpp b/cpp/include/gatl/ga/extra/take_grade.hpp
index 614ec40..6edc0a4 100644
--- a/cpp/include/gatl/ga/extra/take_grade.hpp
+++ b/cpp/include/gatl/ga/extra/take_grade.hpp
@@ -54,15 +54,22 @@ namespace ga {
 
         template<typename Coefficient, bitset_t PossibleGrades, typename Bitset, default_integral_t GradeValue>
         struct keep_grade<component<Coefficient, dynamic_basis_blade<PossibleGrades, Bitset> >, component<constant_value<GradeValue>, constant_basis_blade<bitset_t(0)> > > {
+        private:
+
+            constexpr static bool is_grade = 0 <= GradeValue && GradeValue <= GA_MAX_BASIS_VECTOR_INDEX;
+            constexpr static bitset_t grade_mask = bitset_t(1) << (is_grade ? GradeValue : 0);
+
+        public:
+
             using type = std::conditional_t<
-                0 <= GradeValue && GradeValue <= GA_MAX_BASIS_VECTOR_INDEX && (PossibleGrades & (bitset_t(1) << GradeValue)) != bitset_t(0),
+                is_grade && (PossibleGrades & grade_mask) != bitset_t(0),
                 component_t<
                     if_else_t<
                         equal_t<count_one_bits_t<Bitset>, constant_value<GradeValue> >,
                         Coefficient,
                         constant_value<0>
                     >,
-                    dynamic_basis_blade_t<(bitset_t(1) << GradeValue), Bitset>
+                    dynamic_basis_blade_t<grade_mask, Bitset>
                 >,
                 component<constant_value<0>, constant_basis_blade<bitset_t(0)> >
             >;
-- 
2.43.0


From 5bfb8eea0456ba433d6fa50b16965cc2712bd6e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:59 +0000
Subject: [PATCH 21/40] fix: exponential of blades known to square to zero at
 compile time compiles

---
 cpp/include/gatl/ga/extra/blade_exponential.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/cpp/include/gatl/ga/extra/blade_exponential.hpp b/cpp/include/gatl/ga/extra/blade_exponential.hpp
index 7386055..53ac86f 100644
--- a/cpp/include/gatl/ga/extra/blade_exponential.hpp
+++ b/cpp/include/gatl/ga/extra/blade_exponential.hpp
@@ -35,10 +35,13 @@ namespace ga {
 
         using signed_squared_alpha_value = detail::coefficient_t<detail::product_t<blade_expression, blade_expression, detail::metric_space_mapping_t<MetricSpaceType, detail::sp_mapping> > >;
         using squared_alpha_value = detail::absolute_t<signed_squared_alpha_value>;
-        using alpha_value = detail::power_t<squared_alpha_value, detail::power_t<detail::constant_value<2>, detail::constant_value<-1> > >;
+        using null_blade = std::is_same<squared_alpha_value, detail::constant_value<0> >; // alpha is not used when the blade is known to square to zero
+        using series_ends = std::conditional_t<null_blade::value, std::true_type, detail::less_or_equal_t<squared_alpha_value, tolerance_value> >;
+
+        using alpha_value = detail::power_t<std::conditional_t<null_blade::value, detail::constant_value<1>, squared_alpha_value>, detail::power_t<detail::constant_value<2>, detail::constant_value<-1> > >;
 
         using scalar_coefficient_value = detail::if_else_t<
-            detail::less_or_equal_t<squared_alpha_value, tolerance_value>,
+            series_ends,
             detail::constant_value<1>,
             detail::if_else_t<
                 detail::less_or_equal_t<signed_squared_alpha_value, detail::constant_value<0> >,
@@ -48,7 +51,7 @@ namespace ga {
         >;
 
         using blade_weight_value = detail::if_else_t<
-            detail::less_or_equal_t<squared_alpha_value, tolerance_value>,
+            series_ends,
             detail::constant_value<1>,
             detail::if_else_t<
                 detail::less_or_equal_t<signed_squared_alpha_value, detail::constant_value<0> >,
-- 
2.43.0


From e9ca4b6b44b5aa52de14411f0d77f34f71815d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:36 +0000
Subject: [PATCH 22/40] fix: lhs / rhs is the inverse geometric product in the
 ready-made algebras, as documented

---
 .../gatl/ga/extra/macro_for_algebra_overload.hpp       | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/cpp/include/gatl/ga/extra/macro_for_algebra_overload.hpp b/cpp/include/gatl/ga/extra/macro_for_algebra_overload.hpp
index f085496..4cf37b8 100644
--- a/cpp/include/gatl/ga/extra/macro_for_algebra_overload.hpp
+++ b/cpp/include/gatl/ga/extra/macro_for_algebra_overload.hpp
@@ -115,6 +115,16 @@
         return igp(lhs, rhs, SPACE); \
     } \
     \
+    template<typename LeftCoefficientType, typename LeftExpression, typename RightCoefficientType, typename RightExpression> \
+    constexpr decltype(auto) operator/(clifford_expression<LeftCoefficientType, LeftExpression> const &lhs, clifford_expression<RightCoefficientType, RightExpression> const &rhs) { \
+        return igp(lhs, rhs, SPACE); \
+    } \
+    \
+    template<typename LeftType, typename RightCoefficientType, typename RightExpression, std::enable_if_t<!is_clifford_expression_v<LeftType>, int> = 0> \
+    constexpr decltype(auto) operator/(LeftType const &lhs, clifford_expression<RightCoefficientType, RightExpression> const &rhs) { \
+        return igp(lhs, rhs, SPACE); \
+    } \
+    \
     template<typename CoefficientType, typename Expression> \
     constexpr decltype(auto) inv(clifford_expression<CoefficientType, Expression> const &arg) { \
         return inv(arg, SPACE); \
-- 
2.43.0


From b6c60ac35807a6f31cbd9e9cd532d4f6f829e0a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:30 +0000
Subject: [PATCH 23/40] fix: meets and joins of blades with integral
 coefficients are not truncated

---
 cpp/include/gatl/ga/extra/fast_meet_and_join.hpp       | 10 +++++++---
 cpp/include/gatl/ga/extra/fast_plunge.hpp              |  2 +-
 .../gatl/ga/extra/macro_for_algebra_overload.hpp       | 10 +++++-----
 cpp/include/gatl/ga/extra/meet_and_join.hpp            |  4 ++--
 cpp/include/gatl/ga/extra/plunge.hpp                   |  2 +-
 5 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/cpp/include/gatl/ga/extra/fast_meet_and_join.hpp b/cpp/include/gatl/ga/extra/fast_meet_and_join.hpp
index f30b8c8..70192d3 100644
--- a/cpp/include/gatl/ga/extra/fast_meet_and_join.hpp
+++ b/cpp/include/gatl/ga/extra/fast_meet_and_join.hpp
@@ -28,11 +28,15 @@ namespace ga {
 
     namespace detail {
 
+        // The type of the coefficients of the meet and of the join. They are computed as quotients, so integral coefficients are promoted to the default floating-point type.
+        template<typename LeftCoefficientType, typename RightCoefficientType>
+        using meet_and_join_value_t = std::conditional_t<std::is_integral_v<std::common_type_t<LeftCoefficientType, RightCoefficientType> >, default_floating_point_t, std::common_type_t<LeftCoefficientType, RightCoefficientType> >;
+
         // Implementation of the ga::fast_join() function.
         template<ndims_t N, typename LeftCoefficientType, typename LeftExpression, typename RightCoefficientType, typename RightExpression, typename ToleranceType>
         GA_ALWAYS_INLINE constexpr decltype(auto) _fast_join_impl(bool const extra_sign_change, clifford_expression<LeftCoefficientType, LeftExpression> const &lhs, grade_t const grade_lhs, clifford_expression<RightCoefficientType, RightExpression> const &rhs, grade_t const grade_rhs, ToleranceType const &tol) {
             using std::abs;
-            using value_type = std::common_type_t<LeftCoefficientType, RightCoefficientType>;
+            using value_type = meet_and_join_value_t<LeftCoefficientType, RightCoefficientType>;
             using largest_type = full_derived_multivector_t<default_integral_t, RightExpression>;
             using join_type = full_multivector_t<value_type, N, std::max(smallest_possible_grade_v<LeftExpression>, smallest_possible_grade_v<RightExpression>), std::min(largest_possible_grade_v<LeftExpression> + largest_possible_grade_v<RightExpression>, (grade_t)N)>;
 
@@ -116,7 +120,7 @@ namespace ga {
 
     template<typename LeftCoefficientType, typename LeftExpression, typename RightCoefficientType, typename RightExpression, typename MetricSpaceType>
     constexpr decltype(auto) fast_join(clifford_expression<LeftCoefficientType, LeftExpression> const &lhs, clifford_expression<RightCoefficientType, RightExpression> const &rhs, metric_space<MetricSpaceType> const &mtr) {
-        return fast_join(lhs, rhs, default_tolerance<std::common_type_t<LeftCoefficientType, RightCoefficientType> >(), mtr);
+        return fast_join(lhs, rhs, default_tolerance<detail::meet_and_join_value_t<LeftCoefficientType, RightCoefficientType> >(), mtr);
     }
 
     // Returns a std::tuple<T1, T2> structure where T1 is the meet and T2 is the join of the given pair of blades. This function does not allow lazy evaluation with arguments from a lazy context. The algorithm is described in D. Fontijne (2008), "Efficient algorithms for factorization and join of blades", In Proc. of the AGACSE, Springer.
@@ -129,7 +133,7 @@ namespace ga {
 
     template<typename LeftCoefficientType, typename LeftExpression, typename RightCoefficientType, typename RightExpression, typename MetricSpaceType>
     constexpr decltype(auto) fast_meet_and_join(clifford_expression<LeftCoefficientType, LeftExpression> const &lhs, clifford_expression<RightCoefficientType, RightExpression> const &rhs, metric_space<MetricSpaceType> const &mtr) {
-        return fast_meet_and_join(lhs, rhs, default_tolerance<std::common_type_t<LeftCoefficientType, RightCoefficientType> >(), mtr);
+        return fast_meet_and_join(lhs, rhs, default_tolerance<detail::meet_and_join_value_t<LeftCoefficientType, RightCoefficientType> >(), mtr);
     }
 
 }
diff --git a/cpp/include/gatl/ga/extra/fast_plunge.hpp b/cpp/include/gatl/ga/extra/fast_plunge.hpp
index 6cb211c..55aa3a8 100644
--- a/cpp/include/gatl/ga/extra/fast_plunge.hpp
+++ b/cpp/include/gatl/ga/extra/fast_plunge.hpp
@@ -35,7 +35,7 @@ namespace ga {
 
     template<typename LeftCoefficientType, typename LeftExpression, typename RightCoefficientType, typename RightExpression, typename MetricSpaceType>
     constexpr decltype(auto) fast_plunge(clifford_expression<LeftCoefficientType, LeftExpression> const &lhs, clifford_expression<RightCoefficientType, RightExpression> const &rhs, metric_space<MetricSpaceType> const &mtr) {
-        return fast_plunge(lhs, rhs, default_tolerance<std::common_type_t<LeftCoefficientType, RightCoefficientType> >(), mtr);
+        return fast_plunge(lhs, rhs, default_tolerance<detail::meet_and_join_value_t<LeftCoefficientType, RightCoefficientType> >(), mtr);
     }
 
 }
diff --git a/cpp/include/gatl/ga/extra/macro_for_algebra_overload.hpp b/cpp/include/gatl/ga/extra/macro_for_algebra_overload.hpp
index 4cf37b8..3503cba 100644
--- a/cpp/include/gatl/ga/extra/macro_for_algebra_overload.hpp
+++ b/cpp/include/gatl/ga/extra/macro_for_algebra_overload.hpp
@@ -82,7 +82,7 @@
     \
     template<typename LeftCoefficientType, typename LeftExpression, typename RightCoefficientType, typename RightExpression> \
     constexpr decltype(auto) fast_join(clifford_expression<LeftCoefficientType, LeftExpression> const &lhs, clifford_expression<RightCoefficientType, RightExpression> const &rhs) { \
-        return fast_join(lhs, rhs, default_tolerance<std::common_type_t<LeftCoefficientType, RightCoefficientType> >(), SPACE); \
+        return fast_join(lhs, rhs, default_tolerance<detail::meet_and_join_value_t<LeftCoefficientType, RightCoefficientType> >(), SPACE); \
     } \
     \
     template<typename LeftCoefficientType, typename LeftExpression, typename RightCoefficientType, typename RightExpression, typename ToleranceType> \
@@ -92,7 +92,7 @@
     \
     template<typename LeftCoefficientType, typename LeftExpression, typename RightCoefficientType, typename RightExpression> \
     constexpr decltype(auto) fast_meet_and_join(clifford_expression<LeftCoefficientType, LeftExpression> const &lhs, clifford_expression<RightCoefficientType, RightExpression> const &rhs) { \
-        return fast_meet_and_join(lhs, rhs, default_tolerance<std::common_type_t<LeftCoefficientType, RightCoefficientType> >(), SPACE); \
+        return fast_meet_and_join(lhs, rhs, default_tolerance<detail::meet_and_join_value_t<LeftCoefficientType, RightCoefficientType> >(), SPACE); \
     } \
     \
     template<typename LeftCoefficientType, typename LeftExpression, typename RightCoefficientType, typename RightExpression, typename ToleranceType> \
@@ -102,7 +102,7 @@
     \
     template<typename LeftCoefficientType, typename LeftExpression, typename RightCoefficientType, typename RightExpression> \
     constexpr decltype(auto) fast_plunge(clifford_expression<LeftCoefficientType, LeftExpression> const &lhs, clifford_expression<RightCoefficientType, RightExpression> const &rhs) { \
-        return fast_plunge(lhs, rhs, default_tolerance<std::common_type_t<LeftCoefficientType, RightCoefficientType> >(), SPACE); \
+        return fast_plunge(lhs, rhs, default_tolerance<detail::meet_and_join_value_t<LeftCoefficientType, RightCoefficientType> >(), SPACE); \
     } \
     \
     template<typename LeftCoefficientType, typename LeftExpression, typename RightCoefficientType, typename RightExpression> \
@@ -147,7 +147,7 @@
     \
     template<typename LeftCoefficientType, typename LeftExpression, typename RightCoefficientType, typename RightExpression> \
     constexpr decltype(auto) meet_and_join(clifford_expression<LeftCoefficientType, LeftExpression> const &lhs, clifford_expression<RightCoefficientType, RightExpression> const &rhs) { \
-        return meet_and_join(lhs, rhs, default_tolerance<std::common_type_t<LeftCoefficientType, RightCoefficientType> >(), SPACE); \
+        return meet_and_join(lhs, rhs, default_tolerance<detail::meet_and_join_value_t<LeftCoefficientType, RightCoefficientType> >(), SPACE); \
     } \
     \
     template<typename LeftCoefficientType, typename LeftExpression, typename RightCoefficientType, typename RightExpression, typename ToleranceType> \
@@ -157,7 +157,7 @@
     \
     template<typename LeftCoefficientType, typename LeftExpression, typename RightCoefficientType, typename RightExpression> \
     constexpr decltype(auto) plunge(clifford_expression<LeftCoefficientType, LeftExpression> const &lhs, clifford_expression<RightCoefficientType, RightExpression> const &rhs) { \
-        return plunge(lhs, rhs, default_tolerance<std::common_type_t<LeftCoefficientType, RightCoefficientType> >(), SPACE); \
+        return plunge(lhs, rhs, default_tolerance<detail::meet_and_join_value_t<LeftCoefficientType, RightCoefficientType> >(), SPACE); \
     } \
     \
     template<typename CoefficientType, typename Expression> \
diff --git a/cpp/include/gatl/ga/extra/meet_and_join.hpp b/cpp/include/gatl/ga/extra/meet_and_join.hpp
index 9c5e98a..3860fc3 100644
--- a/cpp/include/gatl/ga/extra/meet_and_join.hpp
+++ b/cpp/include/gatl/ga/extra/meet_and_join.hpp
@@ -33,7 +33,7 @@ namespace ga {
         GA_ALWAYS_INLINE constexpr decltype(auto) _meet_and_join_impl(bool const extra_sign_change, clifford_expression<LeftCoefficientType, LeftExpression> const &lhs, grade_t const grade_lhs, clifford_expression<RightCoefficientType, RightExpression> const &rhs, grade_t const grade_rhs, ToleranceType const &tol) {
             using std::abs;
             using delta_type = decltype(dp(lhs, rhs, real_metric_space()));
-            using value_type = std::common_type_t<LeftCoefficientType, RightCoefficientType>;
+            using value_type = meet_and_join_value_t<LeftCoefficientType, RightCoefficientType>;
             using meet_type = full_multivector_t<value_type, N, 0, std::min(largest_possible_grade_v<LeftExpression>, largest_possible_grade_v<RightExpression>)>;
             using join_type = full_multivector_t<value_type, N, std::max(smallest_possible_grade_v<LeftExpression>, smallest_possible_grade_v<RightExpression>), N>;
 
@@ -134,7 +134,7 @@ namespace ga {
 
     template<typename LeftCoefficientType, typename LeftExpression, typename RightCoefficientType, typename RightExpression, typename MetricSpaceType>
     constexpr decltype(auto) meet_and_join(clifford_expression<LeftCoefficientType, LeftExpression> const &lhs, clifford_expression<RightCoefficientType, RightExpression> const &rhs, metric_space<MetricSpaceType> const &mtr) {
-        return meet_and_join(lhs, rhs, default_tolerance<std::common_type_t<LeftCoefficientType, RightCoefficientType> >(), mtr);
+        return meet_and_join(lhs, rhs, default_tolerance<detail::meet_and_join_value_t<LeftCoefficientType, RightCoefficientType> >(), mtr);
     }
 
 }
diff --git a/cpp/include/gatl/ga/extra/plunge.hpp b/cpp/include/gatl/ga/extra/plunge.hpp
index ba1e69b..f611088 100644
--- a/cpp/include/gatl/ga/extra/plunge.hpp
+++ b/cpp/include/gatl/ga/extra/plunge.hpp
@@ -35,7 +35,7 @@ namespace ga {
 
     template<typename LeftCoefficientType, typename LeftExpression, typename RightCoefficientType, typename RightExpression, typename MetricSpaceType>
     constexpr decltype(auto) plunge(clifford_expression<LeftCoefficientType, LeftExpression> const &lhs, clifford_expression<RightCoefficientType, RightExpression> const &rhs, metric_space<MetricSpaceType> const &mtr) {
-        return plunge(lhs, rhs, default_tolerance<std::common_type_t<LeftCoefficientType, RightCoefficientType> >(), mtr);
+        return plunge(lhs, rhs, default_tolerance<detail::meet_and_join_value_t<LeftCoefficientType, RightCoefficientType> >(), mtr);
     }
 
 }
-- 
2.43.0


From 1c5956ab1e3bd916a2fe97372eea9309b9151549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:30 +0000
Subject: [PATCH 24/40] fix: fast join compiles when an operand can only be a
 scalar or a pseudoscalar

---
 .../gatl/ga/extra/fast_meet_and_join.hpp      | 26 ++++++++++---------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/cpp/include/gatl/ga/extra/fast_meet_and_join.hpp b/cpp/include/gatl/ga/extra/fast_meet_and_join.hpp
index 70192d3..946f23d 100644
--- a/cpp/include/gatl/ga/extra/fast_meet_and_join.hpp
+++ b/cpp/include/gatl/ga/extra/fast_meet_and_join.hpp
@@ -86,18 +86,20 @@ namespace ga {
 
             auto const inv_largest = reverse(largest);
 
-            for_each_basis_vector(largest_basis_vectors, [&](index_t const index, bool &keep_going) {
-                full_vector_t<default_integral_t, N> f;
-                *(f.values().begin() + (index - 1)) = 1;
-
-                auto const next_join = op(join, unit(project_vector(f, rhs, inv_largest), em), em);
-
-                if (!is_zero(next_join, tol)) {
-                    checked_trivial_copy(unit(next_join, em), join, tol);
-                    ++current_grade_join;
-                    keep_going = current_grade_join <= N;
-                }
-            });
+            if constexpr (largest_possible_grade_v<RightExpression> > 0 && std::max(smallest_possible_grade_v<LeftExpression>, smallest_possible_grade_v<RightExpression>) < N) { // there are factors to join
+                for_each_basis_vector(largest_basis_vectors, [&](index_t const index, bool &keep_going) {
+                    full_vector_t<default_integral_t, N> f;
+                    *(f.values().begin() + (index - 1)) = 1;
+
+                    auto const next_join = op(join, unit(project_vector(f, rhs, inv_largest), em), em);
+
+                    if (!is_zero(next_join, tol)) {
+                        checked_trivial_copy(unit(next_join, em), join, tol);
+                        ++current_grade_join;
+                        keep_going = current_grade_join <= N;
+                    }
+                });
+            }
 
             if (extra_sign_change && ((grade_lhs * grade_rhs) & 1) != 0) {
                 return -join;
-- 
2.43.0


From 8b0b61b1667a81d0a19b70442da3ea36772623f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:13 +0000
Subject: [PATCH 25/40] fix: meets and joins of compile-time constant blades
 compile whatever their grades are

---
 cpp/include/gatl/ga/extra/fast_meet_and_join.hpp | 10 +++++++++-
 cpp/include/gatl/ga/extra/meet_and_join.hpp      |  2 +-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/cpp/include/gatl/ga/extra/fast_meet_and_join.hpp b/cpp/include/gatl/ga/extra/fast_meet_and_join.hpp
index 946f23d..e0213d1 100644
--- a/cpp/include/gatl/ga/extra/fast_meet_and_join.hpp
+++ b/cpp/include/gatl/ga/extra/fast_meet_and_join.hpp
@@ -32,6 +32,14 @@ namespace ga {
         template<typename LeftCoefficientType, typename RightCoefficientType>
         using meet_and_join_value_t = std::conditional_t<std::is_integral_v<std::common_type_t<LeftCoefficientType, RightCoefficientType> >, default_floating_point_t, std::common_type_t<LeftCoefficientType, RightCoefficientType> >;
 
+        // Returns the given expression with all its coefficients stored at runtime, so that the fit of a constant component in the meet or in the join is checked at runtime too.
+        template<typename ValueType, typename CoefficientType, typename Expression>
+        GA_ALWAYS_INLINE constexpr decltype(auto) _store_coefficients(clifford_expression<CoefficientType, Expression> const &arg) {
+            full_derived_multivector_t<ValueType, Expression> result;
+            trivial_copy(arg, result);
+            return result;
+        }
+
         // Implementation of the ga::fast_join() function.
         template<ndims_t N, typename LeftCoefficientType, typename LeftExpression, typename RightCoefficientType, typename RightExpression, typename ToleranceType>
         GA_ALWAYS_INLINE constexpr decltype(auto) _fast_join_impl(bool const extra_sign_change, clifford_expression<LeftCoefficientType, LeftExpression> const &lhs, grade_t const grade_lhs, clifford_expression<RightCoefficientType, RightExpression> const &rhs, grade_t const grade_rhs, ToleranceType const &tol) {
@@ -53,7 +61,7 @@ namespace ga {
                 return join;
             }
 
-            checked_trivial_copy(unit(lhs, em), join, tol);
+            checked_trivial_copy(_store_coefficients<value_type>(unit(lhs, em)), join, tol);
             grade_t current_grade_join = grade_lhs;
 
             if (grade_lhs == 0 || grade_lhs == N) {
diff --git a/cpp/include/gatl/ga/extra/meet_and_join.hpp b/cpp/include/gatl/ga/extra/meet_and_join.hpp
index 3860fc3..e325249 100644
--- a/cpp/include/gatl/ga/extra/meet_and_join.hpp
+++ b/cpp/include/gatl/ga/extra/meet_and_join.hpp
@@ -110,7 +110,7 @@ namespace ga {
             }
             else {
                 trivial_copy(unit_scalar_t(), meet);
-                checked_trivial_copy(delta, join, tol);
+                checked_trivial_copy(_store_coefficients<value_type>(delta), join, tol);
             }
 
             if (extra_sign_change && (((grade_join - grade_lhs) * (grade_join - grade_rhs)) & 1) != 0) {
-- 
2.43.0


From 6b5d9c271e2ed9545d4bc0f1b1ae1ce3ba6d9bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:38 +0000
Subject: [PATCH 26/40] fix: meet and join accept multivectors whose possible
 grades exceed those of the result

---
 cpp/include/gatl/ga/extra/meet_and_join.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp/include/gatl/ga/extra/meet_and_join.hpp b/cpp/include/gatl/ga/extra/meet_and_join.hpp
index e325249..6e9c957 100644
--- a/cpp/include/gatl/ga/extra/meet_and_join.hpp
+++ b/cpp/include/gatl/ga/extra/meet_and_join.hpp
@@ -90,7 +90,7 @@ namespace ga {
                         checked_trivial_copy(op(meet, p, em), meet, tol);
                         ++current_grade_meet;
                         if (current_grade_meet == grade_meet) {
-                            trivial_copy(op(rcont(lhs, inv(meet, em), em), rhs, em), join);
+                            checked_trivial_copy(op(rcont(lhs, inv(meet, em), em), rhs, em), join, tol);
                             keep_going = false;
                             return;
                         }
@@ -101,7 +101,7 @@ namespace ga {
                         checked_trivial_copy(lcont(r, join, em), join, tol);
                         --current_grade_join;
                         if (current_grade_join == grade_join) {
-                            trivial_copy(lcont(lcont(rhs, inv(join, em), em), lhs, em), meet);
+                            checked_trivial_copy(lcont(lcont(rhs, inv(join, em), em), lhs, em), meet, tol);
                             keep_going = false;
                             return;
                         }
-- 
2.43.0


From 5982d0eb296ac0528e22f18984919da855fefc2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:44 +0000
Subject: [PATCH 27/40] fix: directions of dual flats, rounds and tangents can
 be computed (undual with the space's pseudoscalar)

---
 cpp/include/gatl/ga/model/conformal/flat_direction.hpp          | 2 +-
 cpp/include/gatl/ga/model/conformal/round_direction.hpp         | 2 +-
 cpp/include/gatl/ga/model/conformal/tangent_direction.hpp       | 2 +-
 cpp/include/gatl/ga/model/signed/minkowski/flat_direction.hpp   | 2 +-
 cpp/include/gatl/ga/model/signed/minkowski/round_direction.hpp  | 2 +-
 .../gatl/ga/model/signed/minkowski/tangent_direction.hpp        | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/cpp/include/gatl/ga/model/conformal/flat_direction.hpp b/cpp/include/gatl/ga/model/conformal/flat_direction.hpp
index 8af2834..e826a60 100644
--- a/cpp/include/gatl/ga/model/conformal/flat_direction.hpp
+++ b/cpp/include/gatl/ga/model/conformal/flat_direction.hpp
@@ -30,7 +30,7 @@ namespace ga {
     template<typename CoefficientType, typename Expression, ndims_t D>
     constexpr decltype(auto) dual_flat_direction(clifford_expression<CoefficientType, Expression> const &dual_flat, conformal_metric_space<D> const &mtr) GA_NOEXCEPT {
         constexpr auto ni = e(c<D + 2>);
-        return lcont(-ni, undual(dual_flat, mtr), mtr);
+        return lcont(-ni, undual(dual_flat, pseudoscalar(mtr), mtr), mtr);
     }
 
     // Returns the direction parameter of a given primal flat.
diff --git a/cpp/include/gatl/ga/model/conformal/round_direction.hpp b/cpp/include/gatl/ga/model/conformal/round_direction.hpp
index 8909c0f..841b729 100644
--- a/cpp/include/gatl/ga/model/conformal/round_direction.hpp
+++ b/cpp/include/gatl/ga/model/conformal/round_direction.hpp
@@ -31,7 +31,7 @@ namespace ga {
     constexpr decltype(auto) dual_round_direction(clifford_expression<CoefficientType, Expression> const &dual_round, conformal_metric_space<D> const &mtr) GA_NOEXCEPT {
         auto [lazy, dual_round_] = make_lazy_context_tuple(dual_round);
         constexpr auto ni = e(c<D + 2>);
-        return lazy.eval(op(lcont(-ni, undual(dual_round_, mtr), mtr), ni, mtr));
+        return lazy.eval(op(lcont(-ni, undual(dual_round_, pseudoscalar(mtr), mtr), mtr), ni, mtr));
     }
 
     // Returns the direction parameter of a given primal round.
diff --git a/cpp/include/gatl/ga/model/conformal/tangent_direction.hpp b/cpp/include/gatl/ga/model/conformal/tangent_direction.hpp
index 1e5c3bb..c4a9e49 100644
--- a/cpp/include/gatl/ga/model/conformal/tangent_direction.hpp
+++ b/cpp/include/gatl/ga/model/conformal/tangent_direction.hpp
@@ -31,7 +31,7 @@ namespace ga {
     constexpr decltype(auto) dual_tangent_direction(clifford_expression<CoefficientType, Expression> const &dual_tangent, conformal_metric_space<D> const &mtr) GA_NOEXCEPT {
         auto [lazy, dual_tangent_] = make_lazy_context_tuple(dual_tangent);
         constexpr auto ni = e(c<D + 2>);
-        return lazy.eval(op(lcont(-ni, undual(dual_tangent_, mtr), mtr), ni, mtr));
+        return lazy.eval(op(lcont(-ni, undual(dual_tangent_, pseudoscalar(mtr), mtr), mtr), ni, mtr));
     }
 
     // Returns the direction parameter of a given primal tangent.
diff --git a/cpp/include/gatl/ga/model/signed/minkowski/flat_direction.hpp b/cpp/include/gatl/ga/model/signed/minkowski/flat_direction.hpp
index 8eb7eff..59135b2 100644
--- a/cpp/include/gatl/ga/model/signed/minkowski/flat_direction.hpp
+++ b/cpp/include/gatl/ga/model/signed/minkowski/flat_direction.hpp
@@ -30,7 +30,7 @@ namespace ga {
     template<typename CoefficientType, typename Expression, ndims_t D>
     constexpr decltype(auto) dual_flat_direction(clifford_expression<CoefficientType, Expression> const &dual_flat, minkowski_metric_space<D> const &mtr) GA_NOEXCEPT {
         constexpr auto ni = e(c<D + 1>) + e(c<D + 2>);
-        return lcont(-ni, undual(dual_flat, mtr), mtr);
+        return lcont(-ni, undual(dual_flat, pseudoscalar(mtr), mtr), mtr);
     }
 
     // Returns the direction parameter of a given primal flat.
diff --git a/cpp/include/gatl/ga/model/signed/minkowski/round_direction.hpp b/cpp/include/gatl/ga/model/signed/minkowski/round_direction.hpp
index e81c864..9a12ba8 100644
--- a/cpp/include/gatl/ga/model/signed/minkowski/round_direction.hpp
+++ b/cpp/include/gatl/ga/model/signed/minkowski/round_direction.hpp
@@ -31,7 +31,7 @@ namespace ga {
     constexpr decltype(auto) dual_round_direction(clifford_expression<CoefficientType, Expression> const &dual_round, minkowski_metric_space<D> const &mtr) GA_NOEXCEPT {
         auto [lazy, dual_round_] = make_lazy_context_tuple(dual_round);
         constexpr auto ni = e(c<D + 1>) + e(c<D + 2>);
-        return lazy.eval(op(lcont(-ni, undual(dual_round_, mtr), mtr), ni, mtr));
+        return lazy.eval(op(lcont(-ni, undual(dual_round_, pseudoscalar(mtr), mtr), mtr), ni, mtr));
     }
 
     // Returns the direction parameter of a given primal round.
diff --git a/cpp/include/gatl/ga/model/signed/minkowski/tangent_direction.hpp b/cpp/include/gatl/ga/model/signed/minkowski/tangent_direction.hpp
index 1c8c4f0..a8fece8 100644
--- a/cpp/include/gatl/ga/model/signed/minkowski/tangent_direction.hpp
+++ b/cpp/include/gatl/ga/model/signed/minkowski/tangent_direction.hpp
@@ -31,7 +31,7 @@ namespace ga {
     constexpr decltype(auto) dual_tangent_direction(clifford_expression<CoefficientType, Expression> const &dual_tangent, minkowski_metric_space<D> const &mtr) GA_NOEXCEPT {
         auto [lazy, dual_tangent_] = make_lazy_context_tuple(dual_tangent);
         constexpr auto ni = e(c<D + 1>) + e(c<D + 2>);
-        return lazy.eval(op(lcont(-ni, undual(dual_tangent_, mtr), mtr), ni, mtr));
+        return lazy.eval(op(lcont(-ni, undual(dual_tangent_, pseudoscalar(mtr), mtr), mtr), ni, mtr));
     }
 
     // Returns the direction parameter of a given primal tangent.
-- 
2.43.0


From 48314d86cdfa783f971b57a45a96bb5f6e3cac69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:02 +0000
Subject: [PATCH 28/40] fix: the square root of large integer constants is
 computed without a linear-depth recursion

---
 cpp/include/gatl/ga/core/constexpr.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cpp/include/gatl/ga/core/constexpr.hpp b/cpp/include/gatl/ga/core/constexpr.hpp
index db84994..c8ed88c 100644
--- a/cpp/include/gatl/ga/core/constexpr.hpp
+++ b/cpp/include/gatl/ga/core/constexpr.hpp
@@ -49,12 +49,12 @@ namespace ga {
         }
 
         // Returns the square root of the given integer value (isqrt(A) = B, for A >= 1) when it is possible to have an integer value as result.
-        GA_ALWAYS_INLINE constexpr default_integral_t _isqrt_impl(default_integral_t sq, default_integral_t dlt, default_integral_t a) GA_NOEXCEPT {
-            return sq <= a ? _isqrt_impl(sq + dlt, dlt + 2, a) : (dlt >> 1) - 1;
+        GA_ALWAYS_INLINE constexpr default_integral_t _isqrt_impl(default_integral_t lower, default_integral_t upper, default_integral_t a) GA_NOEXCEPT {
+            return (upper - lower) <= 1 ? lower : ((lower + (upper - lower) / 2) <= (a / (lower + (upper - lower) / 2)) ? _isqrt_impl(lower + (upper - lower) / 2, upper, a) : _isqrt_impl(lower, lower + (upper - lower) / 2, a));
         }
 
         GA_ALWAYS_INLINE constexpr default_integral_t isqrt(default_integral_t arg) GA_NOEXCEPT {
-            return _isqrt_impl(1, 3, arg);
+            return _isqrt_impl(1, arg / 2 + 2, arg);
         }
 
         // Returns the number of 1 bits in the given bitset.
-- 
2.43.0


From 6c8d05c8b0ecc16e6472f4cf877cc43ce55872e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:14 +0000
Subject: [PATCH 29/40] fix: products of powers of a possibly negative base are
 not collected when the resulting exponent would not be recognized as a
 multiple of 1/3

---
 .../core/expression_simplification_power.hpp  | 17 ----------
 ...pression_simplification_product_values.hpp | 34 +++++++++++++++++--
 2 files changed, 31 insertions(+), 20 deletions(-)

diff --git a/cpp/include/gatl/ga/core/expression_simplification_power.hpp b/cpp/include/gatl/ga/core/expression_simplification_power.hpp
index 2f49e2f..112ea8f 100644
--- a/cpp/include/gatl/ga/core/expression_simplification_power.hpp
+++ b/cpp/include/gatl/ga/core/expression_simplification_power.hpp
@@ -302,23 +302,6 @@ namespace ga {
             };
         };
 
-        // Returns whether the given exponent is an integral constant.
-        template<typename Expression>
-        constexpr bool is_integer_exponent_v = false;
-
-        template<default_integral_t Value>
-        constexpr bool is_integer_exponent_v<constant_value<Value> > = true;
-
-        // Returns whether the given exponent is an integral constant or an integral multiple of 1/3 (i.e., the power is defined for negative bases).
-        template<typename Expression>
-        constexpr bool is_integer_or_cubic_exponent_v = is_integer_exponent_v<Expression>;
-
-        template<>
-        constexpr bool is_integer_or_cubic_exponent_v<power<constant_value<3>, constant_value<-1> > > = true;
-
-        template<default_integral_t Value>
-        constexpr bool is_integer_or_cubic_exponent_v<mul<constant_value<Value>, power<constant_value<3>, constant_value<-1> > > > = true;
-
         // Simplification rule to apply the distributivity property of power over multiplication.
         struct _power_rule_distributivity {
 
diff --git a/cpp/include/gatl/ga/core/expression_simplification_product_values.hpp b/cpp/include/gatl/ga/core/expression_simplification_product_values.hpp
index 4d2d10e..f04bb22 100644
--- a/cpp/include/gatl/ga/core/expression_simplification_product_values.hpp
+++ b/cpp/include/gatl/ga/core/expression_simplification_product_values.hpp
@@ -229,6 +229,34 @@ namespace ga {
             };
         };
 
+        // Returns whether the given exponent is an integral constant.
+        template<typename Expression>
+        constexpr bool is_integer_exponent_v = false;
+
+        template<default_integral_t Value>
+        constexpr bool is_integer_exponent_v<constant_value<Value> > = true;
+
+        // Returns whether the given exponent is an integral constant or an integral multiple of 1/3 (i.e., the power is defined for negative bases).
+        template<typename Expression>
+        constexpr bool is_integer_or_cubic_exponent_v = is_integer_exponent_v<Expression>;
+
+        template<>
+        constexpr bool is_integer_or_cubic_exponent_v<power<constant_value<3>, constant_value<-1> > > = true;
+
+        template<default_integral_t Value>
+        constexpr bool is_integer_or_cubic_exponent_v<mul<constant_value<Value>, power<constant_value<3>, constant_value<-1> > > > = true;
+
+        // Returns whether A^{P} * A^{Q} can be replaced by A^{P + Q}: the power of a possibly negative base to a multiple of 1/3 is defined, but the power to P + Q is only if P + Q is recognized as an integral multiple of 1/3, too.
+        template<typename Base, typename LeftExponent, typename RightExponent, bool MayBeNegativeBaseToCubicExponent = !is_non_negative_v<Base> && ((is_integer_or_cubic_exponent_v<LeftExponent> && !is_integer_exponent_v<LeftExponent>) || (is_integer_or_cubic_exponent_v<RightExponent> && !is_integer_exponent_v<RightExponent>))>
+        struct can_collect_powers :
+            std::true_type {
+        };
+
+        template<typename Base, typename LeftExponent, typename RightExponent>
+        struct can_collect_powers<Base, LeftExponent, RightExponent, true> :
+            std::bool_constant<is_integer_or_cubic_exponent_v<addition_t<LeftExponent, RightExponent> > > {
+        };
+
         // Simplification rule to collect common terms (case 1).
         struct _product_values_rule_collect_value_case_1 {
             
@@ -268,7 +296,7 @@ namespace ga {
             // A^{P} * A => A^{P + 1}
             template<typename CommonArgument, typename LeftRightArgument>
             struct condition<power<CommonArgument, LeftRightArgument>, CommonArgument> :
-                std::true_type {
+                can_collect_powers<CommonArgument, LeftRightArgument, constant_value<1> >::type {
             };
 
             template<typename CommonArgument, typename LeftRightArgument>
@@ -279,7 +307,7 @@ namespace ga {
             // A * A^{P} => A^{1 + P}
             template<typename CommonArgument, typename RightRightArgument>
             struct condition<CommonArgument, power<CommonArgument, RightRightArgument> > :
-                std::true_type {
+                can_collect_powers<CommonArgument, constant_value<1>, RightRightArgument>::type {
             };
 
             template<typename CommonArgument, typename RightRightArgument>
@@ -303,7 +331,7 @@ namespace ga {
             // A^{P} * A^{Q} => A^{P + Q}
             template<typename CommonArgument, typename LeftRightArgument, typename RightRightArgument>
             struct condition<power<CommonArgument, LeftRightArgument>, power<CommonArgument, RightRightArgument> > :
-                std::true_type {
+                can_collect_powers<CommonArgument, LeftRightArgument, RightRightArgument>::type {
             };
 
             template<typename CommonArgument, typename LeftRightArgument, typename RightRightArgument>
-- 
2.43.0


From c1efabb06f1bfb719ef629857ab5ccb2ea85432b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:34 +0000
Subject: [PATCH 30/40] fix: the absolute value of a constant whose sign is not
 known is not taken as the negation of the constant

---
 cpp/include/gatl/ga/core/expression.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/include/gatl/ga/core/expression.hpp b/cpp/include/gatl/ga/core/expression.hpp
index 588b16b..eb417b7 100644
--- a/cpp/include/gatl/ga/core/expression.hpp
+++ b/cpp/include/gatl/ga/core/expression.hpp
@@ -843,7 +843,7 @@ namespace ga {
                 is_non_negative_v<Value>,
                 Value,
                 std::conditional_t<
-                    is_constant_expression_v<Value> && !(is_function_v<name_t::add, Value> || is_function_v<name_t::if_else, Value>),
+                    is_constant_expression_v<Value> && is_non_negative_v<product_t<constant_value<-1>, Value, value_mapping> >,
                     product_t<constant_value<-1>, Value, value_mapping>,
                     function
                 >
-- 
2.43.0


From 709c18fe0606dd8f77945a36a0eb8085d6e5e5d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:34 +0000
Subject: [PATCH 31/40] fix: a power is not taken as an even number because its
 exponent is even

---
 cpp/include/gatl/ga/core/expression_traits.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/include/gatl/ga/core/expression_traits.hpp b/cpp/include/gatl/ga/core/expression_traits.hpp
index a0df463..e671c7f 100644
--- a/cpp/include/gatl/ga/core/expression_traits.hpp
+++ b/cpp/include/gatl/ga/core/expression_traits.hpp
@@ -292,7 +292,7 @@ namespace ga {
 
         template<typename LeftArgument, typename RightArgument>
         struct is_even<power<LeftArgument, RightArgument> > :
-            std::bool_constant<is_even_v<RightArgument> > {
+            std::false_type {
         };
 
         template<typename... Arguments>
-- 
2.43.0


From 338cc8a1e606978f517184fd1f28620ef32f7caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:34 +0000
Subject: [PATCH 32/40] fix: zero can be raised to a constant exponential or
 logarithm

---
 cpp/include/gatl/ga/core/expression_traits.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/cpp/include/gatl/ga/core/expression_traits.hpp b/cpp/include/gatl/ga/core/expression_traits.hpp
index e671c7f..1794eae 100644
--- a/cpp/include/gatl/ga/core/expression_traits.hpp
+++ b/cpp/include/gatl/ga/core/expression_traits.hpp
@@ -519,6 +519,16 @@ namespace ga {
             std::true_type {
         };
 
+        template<typename Value>
+        struct may_be_positive<exponential<Value> > :
+            std::true_type {
+        };
+
+        template<typename Value>
+        struct may_be_positive<logarithm<Value> > :
+            std::true_type {
+        };
+
         template<typename Value>
         struct may_be_positive<cosine<Value> > :
             std::true_type {
-- 
2.43.0


From b92c6a2ffa963f16f7f3f75c4cd58db321553a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:34 +0000
Subject: [PATCH 33/40] fix: roots of products are not distributed over factors
 that may be negative

---
 cpp/include/gatl/ga/core/expression_simplification_power.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp/include/gatl/ga/core/expression_simplification_power.hpp b/cpp/include/gatl/ga/core/expression_simplification_power.hpp
index 112ea8f..dc2a812 100644
--- a/cpp/include/gatl/ga/core/expression_simplification_power.hpp
+++ b/cpp/include/gatl/ga/core/expression_simplification_power.hpp
@@ -316,7 +316,7 @@ namespace ga {
                 using type = power<LeftExpression, RightExpression>;
             };
 
-            // (A * ...)^{B} => A^{B} * (...)^{B}, unless the root of two possibly negative factors would be taken
+            // (A * ...)^{B} => A^{B} * (...)^{B}, unless the root of some possibly negative factor would be taken
             template<typename LeftArgument, typename... LeftNextArguments, typename RightExpression>
             struct condition<mul<LeftArgument, LeftNextArguments...>, RightExpression> :
                 std::true_type {
@@ -338,7 +338,7 @@ namespace ga {
 
             public:
 
-                using type = typename _result<(is_integer_or_cubic_exponent_v<RightExpression> || is_non_negative_v<LeftArgument> || is_non_negative_v<mul_t<LeftNextArguments...> >)>::type;
+                using type = typename _result<(is_integer_or_cubic_exponent_v<RightExpression> || (is_constant_expression_v<LeftArgument> && is_non_negative_v<LeftArgument>) || (is_non_negative_v<LeftArgument> && is_non_negative_v<mul_t<LeftNextArguments...> >))>::type;
             };
 
             // (A^{B})^{C} => A^{B * C} (or |A|^{B * C}, for even B), unless A may be negative and A^{B} may hide its sign
-- 
2.43.0


From 89b84fc7d5a73b6aa51a508133cfe5d25cabc11d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:27 +0000
Subject: [PATCH 34/40] fix: a negative constant can be multiplied by the
 reciprocal of a negative constant

---
 .../ga/core/expression_simplification_product_values.hpp    | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cpp/include/gatl/ga/core/expression_simplification_product_values.hpp b/cpp/include/gatl/ga/core/expression_simplification_product_values.hpp
index f04bb22..90d2f80 100644
--- a/cpp/include/gatl/ga/core/expression_simplification_product_values.hpp
+++ b/cpp/include/gatl/ga/core/expression_simplification_product_values.hpp
@@ -36,7 +36,11 @@ namespace ga {
 
         template<default_integral_t Numerator, default_integral_t Denominator>
         struct simpler_rational_constant<Numerator, Denominator, 1> {
-            using type = mul_t<constant_value<(sign(Numerator) * sign(Denominator)) * iabs(Numerator)>, power_t<constant_value<iabs(Denominator)>, constant_value<-1> > >;
+            using type = std::conditional_t<
+                (sign(Numerator) * sign(Denominator)) * iabs(Numerator) == 1,
+                power_t<constant_value<iabs(Denominator)>, constant_value<-1> >,
+                mul<constant_value<(sign(Numerator) * sign(Denominator)) * iabs(Numerator)>, power_t<constant_value<iabs(Denominator)>, constant_value<-1> > >
+            >;
         };
 
         template<default_integral_t Numerator, default_integral_t Denominator>
-- 
2.43.0


From f45c1ac0bf9a7b2acbbffa08518ef738d5ad9d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:35 +0000
Subject: [PATCH 35/40] fix: constant coefficients that are not integers are
 not truncated by for_each_component

---
 cpp/include/gatl/ga/util/for_each_component.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp/include/gatl/ga/util/for_each_component.hpp b/cpp/include/gatl/ga/util/for_each_component.hpp
index d4f9edf..256c6d1 100644
--- a/cpp/include/gatl/ga/util/for_each_component.hpp
+++ b/cpp/include/gatl/ga/util/for_each_component.hpp
@@ -59,7 +59,7 @@ namespace ga {
             template<typename ValueCItr, typename BitsetCItr, typename MapCIts, typename Function>
             GA_ALWAYS_INLINE constexpr static bool run(ValueCItr const &, BitsetCItr const &, MapCIts const &, Function f) GA_NOEXCEPT(GA_NOEXCEPT(f)) {
                 bool keep_going = true;
-                f(BasisVectors, static_cast<ValueType>(Coefficient::template eval<0, 0>(std::make_tuple())), entry_source_t::COMPILE_TIME_DEFINED_ENTRY, entry_source_t::COMPILE_TIME_DEFINED_ENTRY, keep_going);
+                f(BasisVectors, static_cast<std::common_type_t<ValueType, std::decay_t<decltype(Coefficient::template eval<0, 0>(std::make_tuple()))> > >(Coefficient::template eval<0, 0>(std::make_tuple())), entry_source_t::COMPILE_TIME_DEFINED_ENTRY, entry_source_t::COMPILE_TIME_DEFINED_ENTRY, keep_going);
                 return keep_going;
             }
         };
@@ -82,7 +82,7 @@ namespace ga {
             template<typename ValueCItr, typename BitsetCItr, typename MapCIts, typename Function>
             GA_ALWAYS_INLINE constexpr static bool run(ValueCItr const &, BitsetCItr &bitset_citr, MapCIts const &, Function f) GA_NOEXCEPT(GA_NOEXCEPT(f)) {
                 bool keep_going = true;
-                f(*bitset_citr, static_cast<ValueType>(Coefficient::template eval<0, 0>(std::make_tuple())), entry_source_t::STORED_RUNTIME_DEFINED_ENTRY, entry_source_t::COMPILE_TIME_DEFINED_ENTRY, keep_going);
+                f(*bitset_citr, static_cast<std::common_type_t<ValueType, std::decay_t<decltype(Coefficient::template eval<0, 0>(std::make_tuple()))> > >(Coefficient::template eval<0, 0>(std::make_tuple())), entry_source_t::STORED_RUNTIME_DEFINED_ENTRY, entry_source_t::COMPILE_TIME_DEFINED_ENTRY, keep_going);
                 ++bitset_citr;
                 return keep_going;
             }
-- 
2.43.0


From c5f5b84ddbc5df0d2e4b67808899b248fe1063e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:54 +0000
Subject: [PATCH 36/40] fix: fast_join compiles with default integral types
 narrower than int

---
 cpp/include/gatl/ga/extra/fast_meet_and_join.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/include/gatl/ga/extra/fast_meet_and_join.hpp b/cpp/include/gatl/ga/extra/fast_meet_and_join.hpp
index e0213d1..4174d32 100644
--- a/cpp/include/gatl/ga/extra/fast_meet_and_join.hpp
+++ b/cpp/include/gatl/ga/extra/fast_meet_and_join.hpp
@@ -46,7 +46,7 @@ namespace ga {
             using std::abs;
             using value_type = meet_and_join_value_t<LeftCoefficientType, RightCoefficientType>;
             using largest_type = full_derived_multivector_t<default_integral_t, RightExpression>;
-            using join_type = full_multivector_t<value_type, N, std::max(smallest_possible_grade_v<LeftExpression>, smallest_possible_grade_v<RightExpression>), std::min(largest_possible_grade_v<LeftExpression> + largest_possible_grade_v<RightExpression>, (grade_t)N)>;
+            using join_type = full_multivector_t<value_type, N, std::max(smallest_possible_grade_v<LeftExpression>, smallest_possible_grade_v<RightExpression>), std::min<grade_t>(largest_possible_grade_v<LeftExpression> + largest_possible_grade_v<RightExpression>, (grade_t)N)>;
 
             constexpr auto em = real_metric_space(); // Euclidean metric
 
-- 
2.43.0


From f8b6d417251005a49bde146576a71f1e775bf397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:40 +0000
Subject: [PATCH 37/40] fix: scalar() of a named scalar expression returns that
 scalar and not a scalar of it

---
 cpp/include/gatl/ga/core/scalar.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/include/gatl/ga/core/scalar.hpp b/cpp/include/gatl/ga/core/scalar.hpp
index fa74d64..84ca431 100644
--- a/cpp/include/gatl/ga/core/scalar.hpp
+++ b/cpp/include/gatl/ga/core/scalar.hpp
@@ -39,7 +39,7 @@ namespace ga {
         return scaled_scalar_t<ValueType>(make_sequential_storage(arg));
     }
 
-    template<typename ValueType, std::enable_if_t<!is_clifford_expression_v<ValueType>, int> = 0>
+    template<typename ValueType, std::enable_if_t<!is_clifford_expression_v<std::remove_cv_t<std::remove_reference_t<ValueType> > >, int> = 0>
     constexpr decltype(auto) scalar(ValueType &&arg) GA_NOEXCEPT {
         return scaled_scalar_t<std::remove_cv_t<std::remove_reference_t<ValueType> > >(make_sequential_storage(std::forward<ValueType>(arg)));
     }
-- 
2.43.0


From 490ae41735133cfb26675be4791b5e1ac4e863a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:47 +0000
Subject: [PATCH 38/40] fix: scalar() of a temporary scalar expression returns
 a value and not a reference to the temporary

---
 cpp/include/gatl/ga/core/scalar.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp/include/gatl/ga/core/scalar.hpp b/cpp/include/gatl/ga/core/scalar.hpp
index 84ca431..bd867b8 100644
--- a/cpp/include/gatl/ga/core/scalar.hpp
+++ b/cpp/include/gatl/ga/core/scalar.hpp
@@ -45,12 +45,12 @@ namespace ga {
     }
 
     template<typename CoefficientType, typename Coefficient>
-    constexpr decltype(auto) scalar(scalar_clifford_expression<CoefficientType, Coefficient> const &arg) GA_NOEXCEPT {
+    constexpr scalar_clifford_expression<CoefficientType, Coefficient> scalar(scalar_clifford_expression<CoefficientType, Coefficient> const &arg) GA_NOEXCEPT {
         return arg;
     }
 
     template<typename CoefficientType, typename Coefficient>
-    constexpr decltype(auto) scalar(scalar_clifford_expression<CoefficientType, Coefficient> &&arg) GA_NOEXCEPT {
+    constexpr scalar_clifford_expression<CoefficientType, Coefficient> scalar(scalar_clifford_expression<CoefficientType, Coefficient> &&arg) GA_NOEXCEPT {
         return std::move(arg);
     }
 
-- 
2.43.0


From 76f0c434edae14c63d90d2a78a8cded6c8a48da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:38 +0000
Subject: [PATCH 39/40] fix: square and cube do not read an argument that was
 already moved from

---
 cpp/include/gatl/ga/core/constexpr.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp/include/gatl/ga/core/constexpr.hpp b/cpp/include/gatl/ga/core/constexpr.hpp
index c8ed88c..75dd2d3 100644
--- a/cpp/include/gatl/ga/core/constexpr.hpp
+++ b/cpp/include/gatl/ga/core/constexpr.hpp
@@ -130,13 +130,13 @@ namespace ga {
         // Returns the square of a given value.
         template<typename Type>
         GA_ALWAYS_INLINE constexpr decltype(auto) square(Type &&arg) GA_NOEXCEPT {
-            return std::move(arg) * std::move(arg);
+            return arg * arg;
         }
 
         // Returns the cube of a given value.
         template<typename Type>
         GA_ALWAYS_INLINE constexpr decltype(auto) cube(Type &&arg) GA_NOEXCEPT {
-            return std::move(arg) * std::move(arg) * std::move(arg);
+            return arg * arg * arg;
         }
 
         // Safe right-shifting operation.
-- 
2.43.0


From 9eec9e4154e07b34cade5cccd39be8b79b13fa4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:47 +0000
Subject: [PATCH 40/40] fix: evaluate the third argument of if_else in
 partially lazy expressions

The evaluation of if_else<Test, TrueValue, FalseValue> used the second
argument in place of the third one. A conditional that involves values stored
by an inner context and arguments of an outer one (e.g., take_largest_grade
with a tolerance) collapsed to a constant, and storing its values wrote
past the (empty) storage of the result. A logical constant can be an
argument of a conditional whose value is stored.
---
 cpp/include/gatl/ga/core/expression_traits.hpp | 5 +++++
 cpp/include/gatl/ga/core/lazy_context.hpp      | 4 ++--
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/cpp/include/gatl/ga/core/expression_traits.hpp b/cpp/include/gatl/ga/core/expression_traits.hpp
index 1794eae..298a01d 100644
--- a/cpp/include/gatl/ga/core/expression_traits.hpp
+++ b/cpp/include/gatl/ga/core/expression_traits.hpp
@@ -37,6 +37,11 @@ namespace ga {
         template<typename Expression>
         constexpr bool can_be_stored_v = can_be_stored<Expression>::value;
 
+        template<bool Value>
+        struct can_be_stored<std::bool_constant<Value> > :
+            std::true_type {
+        };
+
         template<default_integral_t Value>
         struct can_be_stored<constant_value<Value> > :
             std::true_type {
diff --git a/cpp/include/gatl/ga/core/lazy_context.hpp b/cpp/include/gatl/ga/core/lazy_context.hpp
index 610d7b3..a045b0b 100644
--- a/cpp/include/gatl/ga/core/lazy_context.hpp
+++ b/cpp/include/gatl/ga/core/lazy_context.hpp
@@ -462,9 +462,9 @@ namespace ga {
         template<tag_t LowerTag, tag_t UpperTag, typename Test, typename TrueValue, typename FalseValue>
         struct eval_clifford_expression<LowerTag, UpperTag, if_else<Test, TrueValue, FalseValue> > :
             std::conditional_t<
-                can_be_stored_v<eval_expression_t<LowerTag, UpperTag, Test> > && can_be_stored_v<eval_expression_t<LowerTag, UpperTag, TrueValue> > && can_be_stored_v<eval_expression_t<LowerTag, UpperTag, TrueValue> >,
+                can_be_stored_v<eval_expression_t<LowerTag, UpperTag, Test> > && can_be_stored_v<eval_expression_t<LowerTag, UpperTag, TrueValue> > && can_be_stored_v<eval_expression_t<LowerTag, UpperTag, FalseValue> >,
                 _eval_clifford_expression_store_value<LowerTag, UpperTag, if_else<Test, TrueValue, FalseValue> >,
-                _eval_clifford_expression_move<LowerTag, UpperTag, if_else_t<eval_expression_t<LowerTag, UpperTag, Test>, eval_expression_t<LowerTag, UpperTag, TrueValue>, eval_expression_t<LowerTag, UpperTag, TrueValue> >, Test, TrueValue, FalseValue>
+                _eval_clifford_expression_move<LowerTag, UpperTag, if_else_t<eval_expression_t<LowerTag, UpperTag, Test>, eval_expression_t<LowerTag, UpperTag, TrueValue>, eval_expression_t<LowerTag, UpperTag, FalseValue> >, Test, TrueValue, FalseValue>
             > {
         };
         
-- 
2.43.0

