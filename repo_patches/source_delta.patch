From fff7fec8238f2decf30b54d0bcdd3179c88b436b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:37 +0000
Subject: [PATCH 01/14] fix: shift() by INT_MIN must not negate the count
 before clamping it

---
 include/dsga.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dsga.hxx b/include/dsga.hxx
index 940621c..5246a48 100644
--- a/include/dsga.hxx
+++ b/include/dsga.hxx
@@ -2208,7 +2208,7 @@ namespace dsga
 			}
 			else if (by < 0)
 			{
-				int count = -by > max_val ? max_val : -by;
+				int count = by < -max_val ? max_val : -by;
 				std::shift_right(copy.begin(), copy.end(), count);
 				std::ranges::fill_n(copy.begin(), count, T(0));
 			}
-- 
2.43.0


From ff671e6ac9f989eaabf5763b5cd98b36a8935b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:37 +0000
Subject: [PATCH 02/14] fix: view_vector assignment from an aliasing swizzle
 must read every source component first

---
 include/dsga.hxx | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/dsga.hxx b/include/dsga.hxx
index 5246a48..6cfaeee 100644
--- a/include/dsga.hxx
+++ b/include/dsga.hxx
@@ -5876,7 +5876,10 @@ namespace dsga
 		requires Writable && Mutable && implicitly_convertible_to<U, T>
 		constexpr view_vector & operator =(const vector_base<W, U, Count, D> &other) & noexcept
 		{
-			std::copy(other.begin(), other.end(), store);
+			[&]<std::size_t ...Is>(std::index_sequence<Is...>) noexcept
+			{
+				this->set(other[Is]...);
+			}(std::make_index_sequence<Size>{});
 			return *this;
 		}
 
@@ -5884,7 +5887,7 @@ namespace dsga
 		requires Writable && Mutable && implicitly_convertible_to<U, T>
 		constexpr view_vector & operator =(vector_base<W, U, Count, D> &&other) & noexcept
 		{
-			std::copy(other.begin(), other.end(), store);
+			*this = std::as_const(other);
 			return *this;
 		}
 	};
-- 
2.43.0


From a1e6df8026a7f2ec12c8ae4636956011f7d1907e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:37 +0000
Subject: [PATCH 03/14] fix: swizzle iterators must be able to reach their end
 through += and -=

---
 include/dsga.hxx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/dsga.hxx b/include/dsga.hxx
index 6cfaeee..11b1b82 100644
--- a/include/dsga.hxx
+++ b/include/dsga.hxx
@@ -2403,7 +2403,7 @@ namespace dsga
 
 		constexpr indexed_vector_const_iterator &operator +=(const int offset) noexcept
 		{
-			dsga_constexpr_assert(((mapper_index + offset) >= begin_index) && ((mapper_index + offset) < end_index), "offset not in range");
+			dsga_constexpr_assert(((mapper_index + offset) >= begin_index) && ((mapper_index + offset) <= end_index), "offset not in range");
 
 			mapper_index += offset;
 			return *this;
@@ -2411,7 +2411,7 @@ namespace dsga
 
 		constexpr indexed_vector_const_iterator &operator -=(const int offset) noexcept
 		{
-			dsga_constexpr_assert(((mapper_index - offset) >= begin_index) && ((mapper_index - offset) < end_index), "offset not in range");
+			dsga_constexpr_assert(((mapper_index - offset) >= begin_index) && ((mapper_index - offset) <= end_index), "offset not in range");
 
 			mapper_index -= offset;
 			return *this;
@@ -2665,7 +2665,7 @@ namespace dsga
 
 		constexpr indexed_view_const_iterator &operator +=(const int offset) noexcept
 		{
-			dsga_constexpr_assert(((mapper_index + offset) >= begin_index) && ((mapper_index + offset) < end_index), "offset not in range");
+			dsga_constexpr_assert(((mapper_index + offset) >= begin_index) && ((mapper_index + offset) <= end_index), "offset not in range");
 
 			mapper_index += offset;
 			return *this;
@@ -2673,7 +2673,7 @@ namespace dsga
 
 		constexpr indexed_view_const_iterator &operator -=(const int offset) noexcept
 		{
-			dsga_constexpr_assert(((mapper_index - offset) >= begin_index) && ((mapper_index - offset) < end_index), "offset not in range");
+			dsga_constexpr_assert(((mapper_index - offset) >= begin_index) && ((mapper_index - offset) <= end_index), "offset not in range");
 
 			mapper_index -= offset;
 			return *this;
-- 
2.43.0


From efb6a1c749f5d8ecd7de83cfff7fec808e18bc01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:55 +0000
Subject: [PATCH 04/14] fix: free swap of view_wrapper must not be noexcept,
 its member reports overlap by exception

---
 include/dsga.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dsga.hxx b/include/dsga.hxx
index 11b1b82..9bfd748 100644
--- a/include/dsga.hxx
+++ b/include/dsga.hxx
@@ -2037,7 +2037,7 @@ namespace dsga
 
 	template <bool Mutable, dimensional_scalar T, std::size_t S>
 	requires Mutable
-	constexpr void swap(view_wrapper<Mutable, T, S> &lhs, view_wrapper<Mutable, T, S> &rhs) noexcept
+	constexpr void swap(view_wrapper<Mutable, T, S> &lhs, view_wrapper<Mutable, T, S> &rhs)
 	{
 		lhs.swap(rhs);
 	}
-- 
2.43.0


From ee1760a4f76c0266086bf617d419bc72a5e141bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:51 +0000
Subject: [PATCH 05/14] fix: integer lessThan/greaterThan families must not
 compare through double

---
 include/dsga.hxx | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/include/dsga.hxx b/include/dsga.hxx
index 9bfd748..7503d18 100644
--- a/include/dsga.hxx
+++ b/include/dsga.hxx
@@ -7017,7 +7017,10 @@ namespace dsga
 
 		constexpr inline auto less_op = []<non_bool_scalar T>(T x, T y) noexcept -> bool
 		{
-			return std::isless(x, y);
+			if constexpr (floating_point_scalar<T>)
+				return std::isless(x, y);
+			else
+				return x < y;
 		};
 
 		template <bool W1, non_bool_scalar T, std::size_t C, typename D1, bool W2, typename D2>
@@ -7036,7 +7039,10 @@ namespace dsga
 
 		constexpr inline auto less_equal_op = []<non_bool_scalar T>(T x, T y) noexcept -> bool
 		{
-			return std::islessequal(x, y);
+			if constexpr (floating_point_scalar<T>)
+				return std::islessequal(x, y);
+			else
+				return x <= y;
 		};
 
 		template <bool W1, non_bool_scalar T, std::size_t C, typename D1, bool W2, typename D2>
@@ -7055,7 +7061,10 @@ namespace dsga
 
 		constexpr inline auto greater_op = []<non_bool_scalar T>(T x, T y) noexcept -> bool
 		{
-			return std::isgreater(x, y);
+			if constexpr (floating_point_scalar<T>)
+				return std::isgreater(x, y);
+			else
+				return x > y;
 		};
 
 		template <bool W1, non_bool_scalar T, std::size_t C, typename D1, bool W2, typename D2>
@@ -7074,7 +7083,10 @@ namespace dsga
 
 		constexpr inline auto greater_equal_op = []<non_bool_scalar T>(T x, T y) noexcept -> bool
 		{
-			return std::isgreaterequal(x, y);
+			if constexpr (floating_point_scalar<T>)
+				return std::isgreaterequal(x, y);
+			else
+				return x >= y;
 		};
 
 		template <bool W1, non_bool_scalar T, std::size_t C, typename D1, bool W2, typename D2>
-- 
2.43.0


From fe733606acd57b1b540d672f254f779d3bf5652b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:25 +0000
Subject: [PATCH 06/14] fix: abs() of negative infinity and negative zero must
 not be negative

---
 include/dsga.hxx | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/dsga.hxx b/include/dsga.hxx
index 7503d18..9e79232 100644
--- a/include/dsga.hxx
+++ b/include/dsga.hxx
@@ -1294,9 +1294,13 @@ namespace dsga
 			template <std::floating_point T>
 			constexpr T abs(T value) noexcept
 			{
-				if (!detail::isnormal_or_subnormal(value))
+				if (isnan(value))
 					return value;
 
+				// +/- 0 is +0, and +/- infinity is +infinity
+				if (value == T(0))
+					return T(0);
+
 				return relaxed::abs(value);
 			}
 
@@ -1313,10 +1317,7 @@ namespace dsga
 			template <std::floating_point T>
 			constexpr T fabs(T value) noexcept
 			{
-				if (!detail::isnormal_or_subnormal(value))
-					return value;
-
-				return relaxed::fabs(value);
+				return strict::abs(value);
 			}
 
 			template <std::integral T>
-- 
2.43.0


From badd7495095434d3f45277644788bd13620f80dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:25 +0000
Subject: [PATCH 07/14] fix: cxcm abs() and fabs() must accept an unsigned zero

---
 include/dsga.hxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dsga.hxx b/include/dsga.hxx
index 9e79232..30adeca 100644
--- a/include/dsga.hxx
+++ b/include/dsga.hxx
@@ -1309,7 +1309,7 @@ namespace dsga
 			template <std::integral T>
 			constexpr T abs(T value) noexcept
 			{
-				cxcm_constexpr_assert(value != std::numeric_limits<T>::min(), "undefined behavior in abs()");
+				cxcm_constexpr_assert(std::unsigned_integral<T> || value != std::numeric_limits<T>::min(), "undefined behavior in abs()");
 
 				return relaxed::abs(value);
 			}
@@ -1323,7 +1323,7 @@ namespace dsga
 			template <std::integral T>
 			constexpr double fabs(T value) noexcept
 			{
-				cxcm_constexpr_assert(value != std::numeric_limits<T>::min(), "undefined behavior in fabs()");
+				cxcm_constexpr_assert(std::unsigned_integral<T> || value != std::numeric_limits<T>::min(), "undefined behavior in fabs()");
 
 				return relaxed::fabs(value);
 			}
-- 
2.43.0


From e11fbedbffb9d7e0ae40315a32164e4659d6256e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:25 +0000
Subject: [PATCH 08/14] fix: round() and round_even() must not round up the
 largest value below one half

---
 include/dsga.hxx | 31 +++++++++++++++----------------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/include/dsga.hxx b/include/dsga.hxx
index 30adeca..b8fcd1f 100644
--- a/include/dsga.hxx
+++ b/include/dsga.hxx
@@ -602,14 +602,19 @@ namespace dsga
 			template <std::floating_point T>
 			constexpr T round(T value) noexcept
 			{
-				// zero could be handled either place, but here it is with the negative values.
+				// adding or subtracting T(0.5f) before truncating could round, so use the exact fraction.
+				const T truncated_value = trunc(value);
+				const T fraction = value - truncated_value;
 
 				// positive value, taking care of halfway case.
-				if (value > T(0))
-					return trunc(value + T(0.5f));
+				if (fraction >= T(0.5f))
+					return (truncated_value + T(1.0f));
+
+				// negative value, taking care of halfway case.
+				if (fraction <= -T(0.5f))
+					return (truncated_value - T(1.0f));
 
-				// negative or zero value, taking care of halfway case.
-				return trunc(value - T(0.5f));
+				return truncated_value;
 			}
 
 			//
@@ -647,20 +652,14 @@ namespace dsga
 			{
 				T trunc_value = trunc(value);
 				bool is_even = (fmod(trunc_value, T(2)) == T(0));
-				bool is_halfway = (fract(value) == T(0.5));
+				T fraction = abs(value - trunc_value);
 
-				// the special case
-				if (is_halfway && is_even)
+				// closer to the truncated value, or the special halfway case
+				if (fraction < T(0.5f) || (fraction == T(0.5f) && is_even))
 					return trunc_value;
 
-				// zero could be handled either place, but here it is with the negative values.
-
-				// positive value, taking care of halfway case.
-				if (value > T(0))
-					return trunc(value + T(0.5f));
-
-				// negative or zero value, taking care of halfway case.
-				return trunc(value - T(0.5f));
+				// otherwise go to the next integral value away from zero
+				return (value > T(0)) ? trunc_value + T(1.0f) : trunc_value - T(1.0f);
 			}
 
 			//
-- 
2.43.0


From 08ac3fa6a590832f3369a34c23e027790ef12d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:25 +0000
Subject: [PATCH 09/14] fix: fract() of a value without a fractional part is
 zero

---
 include/dsga.hxx | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/dsga.hxx b/include/dsga.hxx
index b8fcd1f..3db86a5 100644
--- a/include/dsga.hxx
+++ b/include/dsga.hxx
@@ -1042,9 +1042,13 @@ namespace dsga
 				constexpr T constexpr_fract(T value) noexcept
 				{
 					// screen out unnecessary input
-					if (fails_fractional_input_constraints(value))
+					if (!isfinite(value))
 						return value;
 
+					// there is no fractional part
+					if (fails_fractional_input_constraints(value))
+						return T(0);
+
 					return relaxed::fract(value);
 				}
 
-- 
2.43.0


From 7512e61a5ee6c732b8cd75df64a8ee4445c7fa91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:25 +0000
Subject: [PATCH 10/14] fix: constant-evaluated trunc/ceil/round and round_even
 keep the sign of zero like the standard functions

---
 include/dsga.hxx | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/dsga.hxx b/include/dsga.hxx
index 3db86a5..5bd86a5 100644
--- a/include/dsga.hxx
+++ b/include/dsga.hxx
@@ -975,7 +975,8 @@ namespace dsga
 					if (fails_fractional_input_constraints(value))
 						return value;
 
-					return relaxed::trunc(value);
+					// negative values that go to zero must keep their sign
+					return (value < T(0)) ? -relaxed::trunc(-value) : relaxed::trunc(value);
 				}
 
 				//
@@ -1007,7 +1008,8 @@ namespace dsga
 					if (fails_fractional_input_constraints(value))
 						return value;
 
-					return relaxed::ceil(value);
+					// negative values that go to zero must keep their sign
+					return (value < T(0)) ? -relaxed::floor(-value) : relaxed::ceil(value);
 				}
 
 				//
@@ -1031,7 +1033,8 @@ namespace dsga
 					else if (value == -limits::largest_fractional_value<T>)			// we technically don't have to do this for negative case (one more number in negative range)
 						return value - T(0.5f);
 
-					return relaxed::round(value);
+					// negative values that go to zero must keep their sign
+					return (value < T(0)) ? -relaxed::round(-value) : relaxed::round(value);
 				}
 
 				//
@@ -1097,7 +1100,8 @@ namespace dsga
 					else if (value == -limits::largest_fractional_value<T>)			// we technically don't have to do this for negative case (one more number in negative range)
 						return value - T(0.5f);
 
-					return relaxed::round_even(value);
+					// negative values that go to zero must keep their sign
+					return (value < T(0)) ? -relaxed::round_even(-value) : relaxed::round_even(value);
 				}
 
 				//
-- 
2.43.0


From 062a7db3e1547c5f5904bb106128ffb57bc07f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:25 +0000
Subject: [PATCH 11/14] fix: constant-evaluated fmod() must be exact and must
 not convert the quotient to an integral type

---
 include/dsga.hxx | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/include/dsga.hxx b/include/dsga.hxx
index 5bd86a5..6a7191f 100644
--- a/include/dsga.hxx
+++ b/include/dsga.hxx
@@ -638,7 +638,24 @@ namespace dsga
 			template <std::floating_point T>
 			constexpr T fmod(T x, T y) noexcept
 			{
-				return x - trunc(x / y) * y;
+				// the quotient can be rounded or be too big for an integral type, so do an exact long division
+				const T divisor = abs(y);
+				T remainder = abs(x);
+
+				// biggest power of 2 multiple of the divisor that isn't bigger than the remainder
+				T multiple = divisor;
+				while (multiple <= remainder - multiple)
+					multiple += multiple;
+
+				while (remainder >= divisor)
+				{
+					if (remainder >= multiple)
+						remainder -= multiple;
+
+					multiple *= T(0.5f);
+				}
+
+				return (x < T(0)) ? -remainder : remainder;
 			}
 
 			//
@@ -651,7 +668,7 @@ namespace dsga
 			constexpr T round_even(T value) noexcept
 			{
 				T trunc_value = trunc(value);
-				bool is_even = (fmod(trunc_value, T(2)) == T(0));
+				bool is_even = (trunc(trunc_value * T(0.5f)) == trunc_value * T(0.5f));
 				T fraction = abs(value - trunc_value);
 
 				// closer to the truncated value, or the special halfway case
-- 
2.43.0


From b6e70bd79533c7032119d9e7622ff39488ed08b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:16 +0000
Subject: [PATCH 12/14] fix: square roots of extreme double values must
 terminate and not be NaN

The extended precision iteration over- and underflowed: constant-evaluated
sqrt() never finished for doubles near or below the smallest normal value and
rsqrt() was NaN below about 2^-970 and above about 2^997.
---
 include/dsga.hxx | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/include/dsga.hxx b/include/dsga.hxx
index 6a7191f..3f95504 100644
--- a/include/dsga.hxx
+++ b/include/dsga.hxx
@@ -708,11 +708,26 @@ namespace dsga
 					return y;
 				}
 
+				// the extended precision arithmetic can overflow or underflow for the most extreme double values, so bring those
+				// values to a safe range by an exact scaling. if value is multiplied by s * s, then scale is s, a power of 2.
+				constexpr double scale_to_safe_range(double value, double &scale) noexcept
+				{
+					scale = 1.0;
+
+					if (value < 0x1p-900)
+						scale = 0x1p+150;
+					else if (value > 0x1p+900)
+						scale = 0x1p-150;
+
+					return value * scale * scale;
+				}
+
 				// float uses double internally, double uses dd_real internally
 				template <std::floating_point T>
 				constexpr T converging_sqrt(T arg) noexcept
 				{
-					const double boosted_arg = arg;
+					double scale = 1.0;
+					const double boosted_arg = scale_to_safe_range(arg, scale);
 					double init_value = boosted_arg * fast_rsqrt(boosted_arg);
 
 					if constexpr (std::is_same_v<T, double>)
@@ -728,7 +743,7 @@ namespace dsga
 							current_value = 0.5 * (current_value + (boosted_arg / current_value));
 						}
 
-						return static_cast<double>(current_value);
+						return static_cast<double>(current_value) / scale;
 					}
 					else if constexpr (std::is_same_v<T, float>)
 					{
@@ -750,16 +765,17 @@ namespace dsga
 				constexpr T inverse_sqrt(T arg) noexcept
 				{
 					// don't need this to be a dd_real
-					const double boosted_arg = arg;
+					double scale = 1.0;
+					const double boosted_arg = scale_to_safe_range(arg, scale);
 
 					if constexpr (std::is_same_v<T, double>)
 					{
 						// arg is already a double
-						auto current_value = dd_real::dd_real(fast_rsqrt(arg));
+						auto current_value = dd_real::dd_real(fast_rsqrt(boosted_arg));
 
 						current_value *= (1.5 - ((0.5 * boosted_arg) * (current_value * current_value)));
 
-						return static_cast<double>(current_value);
+						return static_cast<double>(current_value) * scale;
 					}
 					else if constexpr (std::is_same_v<T, float>)
 					{
-- 
2.43.0


From a3f6f6e667bdc8484487245318f6831dec13193c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:01 +0000
Subject: [PATCH 13/14] fix: modf() must not overwrite its argument before the
 fraction is computed

With the whole part stored in the argument itself, or in an overlapping
swizzle or view, all the fractions came out as zero.
---
 include/dsga.hxx | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/dsga.hxx b/include/dsga.hxx
index 3f95504..ac330de 100644
--- a/include/dsga.hxx
+++ b/include/dsga.hxx
@@ -7818,12 +7818,13 @@ namespace dsga
 		[[nodiscard]] constexpr auto modf(const vector_base<W1, T, C, D1> &arg,
 										  vector_base<W2, T, C, D2> &i) noexcept
 		{
-			if constexpr (C == 1)
-				i.as_derived() = basic_vector<T, 1>(trunc(arg));
-			else
-				i.as_derived() = trunc(arg);
+			// arg and i can refer to the same data, so don't write to i until done with arg
+			const basic_vector<T, C> whole(trunc(arg));
+			const auto fraction = machinery::apply_unitype_make(arg, whole, modf_op);
+
+			i.as_derived() = whole;
 
-			return machinery::apply_unitype_make(arg, i, modf_op);
+			return fraction;
 		}
 
 		template <floating_point_scalar T>
-- 
2.43.0


From 08b943cdf80615539e5c7c197e39d8c1b1acd77a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:14 +0000
Subject: [PATCH 14/14] fix: vector times matrix accepts the integral vectors
 its signature declares

---
 include/dsga.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dsga.hxx b/include/dsga.hxx
index ac330de..3b21d0b 100644
--- a/include/dsga.hxx
+++ b/include/dsga.hxx
@@ -9175,7 +9175,7 @@ namespace dsga
 	{
 		return [&]<std::size_t ...Is>(std::index_sequence <Is...>) noexcept
 		{
-			return basic_vector{ functions::dot(lhs, rhs[Is])... };
+			return basic_vector{ functions::innerProduct(lhs, rhs[Is])... };
 		}(std::make_index_sequence<C>{});
 	}
 
-- 
2.43.0

