From 31a75b410b35713b87acc6fa2507be7b3d43371c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:02 +0000
Subject: [PATCH 01/20] fix: fdim returned infinity where the rounded
 difference is still finite

---
 .../ccmath/internal/math/generic/func/basic/fdim_gen.hpp    | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/ccmath/internal/math/generic/func/basic/fdim_gen.hpp b/include/ccmath/internal/math/generic/func/basic/fdim_gen.hpp
index d23e4be..5e10eac 100644
--- a/include/ccmath/internal/math/generic/func/basic/fdim_gen.hpp
+++ b/include/ccmath/internal/math/generic/func/basic/fdim_gen.hpp
@@ -40,7 +40,11 @@ namespace ccm::gen
 			if (CCM_UNLIKELY(x_bits.is_nan())) { return x; }
 			if (CCM_UNLIKELY(y_bits.is_nan())) { return y; }
 			if (x <= y) { return static_cast<T>(+0.0); }
-			if (y < static_cast<T>(0.0) && x > std::numeric_limits<T>::max() + y) { return std::numeric_limits<T>::infinity(); }
+			// Halving is exact here, so this holds only when the rounded difference overflows (max() + y itself may round down).
+			if (y < static_cast<T>(0.0) && x * static_cast<T>(0.5) - y * static_cast<T>(0.5) > std::numeric_limits<T>::max() * static_cast<T>(0.5))
+			{
+				return std::numeric_limits<T>::infinity();
+			}
 			return x - y;
 		}
 	}
-- 
2.43.0


From b66a933defd7b4c41bacb147b8fb34efec8a3085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:02 +0000
Subject: [PATCH 02/20] fix: copysign returned NaN for a NaN sign operand in
 the portable fallback

---
 .../ccmath/internal/math/runtime/func/fmanip/copysign_rt.hpp    | 2 +-
 include/ccmath/math/fmanip/copysign.hpp                         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ccmath/internal/math/runtime/func/fmanip/copysign_rt.hpp b/include/ccmath/internal/math/runtime/func/fmanip/copysign_rt.hpp
index abe4316..65778c9 100644
--- a/include/ccmath/internal/math/runtime/func/fmanip/copysign_rt.hpp
+++ b/include/ccmath/internal/math/runtime/func/fmanip/copysign_rt.hpp
@@ -26,7 +26,7 @@ namespace ccm::rt
 		template <typename T>
 		[[nodiscard]] inline T copysign_scalar(T mag, T sgn) noexcept
 		{
-			if (ccm::isnan(mag) || ccm::isnan(sgn))
+			if (ccm::isnan(mag))
 			{
 				if (ccm::signbit(sgn)) { return -std::numeric_limits<T>::quiet_NaN(); }
 				return std::numeric_limits<T>::quiet_NaN();
diff --git a/include/ccmath/math/fmanip/copysign.hpp b/include/ccmath/math/fmanip/copysign.hpp
index 5d7bf3b..25489e4 100644
--- a/include/ccmath/math/fmanip/copysign.hpp
+++ b/include/ccmath/math/fmanip/copysign.hpp
@@ -33,7 +33,7 @@ namespace ccm
 		if constexpr (ccm::builtin::has_constexpr_copysign<T>) { return ccm::builtin::copysign_ct(mag, sgn); }
 		else
 		{
-			if (ccm::isnan(mag) || ccm::isnan(sgn))
+			if (ccm::isnan(mag))
 			{
 				if (ccm::signbit(sgn)) { return -std::numeric_limits<T>::quiet_NaN(); }
 				return std::numeric_limits<T>::quiet_NaN();
-- 
2.43.0


From 02825386626139a34dc02c45fab0dd8e18b67831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:46 +0000
Subject: [PATCH 03/20] fix: nextafter/nexttoward of long double incremented
 the x87 explicit bit as part of the significand

---
 .../ccmath/internal/math/generic/func/fmanip/nextafter_gen.hpp  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ccmath/internal/math/generic/func/fmanip/nextafter_gen.hpp b/include/ccmath/internal/math/generic/func/fmanip/nextafter_gen.hpp
index de439ba..36cb388 100644
--- a/include/ccmath/internal/math/generic/func/fmanip/nextafter_gen.hpp
+++ b/include/ccmath/internal/math/generic/func/fmanip/nextafter_gen.hpp
@@ -57,7 +57,7 @@ namespace ccm::gen
 #if defined(CCM_TYPES_LONG_DOUBLE_IS_FLOAT80)
 	// Specialization for 80-bit long double
 	// NOLINTNEXTLINE(readability-function-cognitive-complexity) - This function is complex by nature due to the nature of handling 80-bit long double
-	constexpr long double nextafter(long double from, long double to)
+	[[nodiscard]] constexpr long double nextafter_gen(long double from, long double to) noexcept
 	{
 		using FPBits_t = ccm::support::fp::FPBits<long double>;
 		FPBits_t from_bits(from);
-- 
2.43.0


From 9d735c78fe0ba89d424cb480ad56851bca5b38db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:20 +0000
Subject: [PATCH 04/20] fix: mixed-type nextafter and integer nexttoward did
 not convert to the common type (failed to compile or stepped in float)

---
 include/ccmath/math/fmanip/nextafter.hpp  | 7 ++++++-
 include/ccmath/math/fmanip/nexttoward.hpp | 2 +-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/ccmath/math/fmanip/nextafter.hpp b/include/ccmath/math/fmanip/nextafter.hpp
index 85f0f45..c7c32d2 100644
--- a/include/ccmath/math/fmanip/nextafter.hpp
+++ b/include/ccmath/math/fmanip/nextafter.hpp
@@ -49,7 +49,12 @@ namespace ccm
 	 */
 	template <typename Arithmetic1, typename Arithmetic2, std::enable_if_t<std::is_arithmetic_v<Arithmetic1> && std::is_arithmetic_v<Arithmetic2>, bool> = true>
 	constexpr auto nextafter(Arithmetic1 from, Arithmetic2 to) noexcept
-	{ return gen::nextafter_gen(from, to); }
+	{
+		using shared_type = std::conditional_t<std::is_floating_point_v<Arithmetic1> && std::is_floating_point_v<Arithmetic2>,
+											   std::common_type_t<Arithmetic1, Arithmetic2>,
+											   std::common_type_t<Arithmetic1, Arithmetic2, double>>;
+		return ccm::nextafter<shared_type>(static_cast<shared_type>(from), static_cast<shared_type>(to));
+	}
 
 	/**
 	 * @brief Returns the next representable float from from toward to.
diff --git a/include/ccmath/math/fmanip/nexttoward.hpp b/include/ccmath/math/fmanip/nexttoward.hpp
index 42f54cc..459bf87 100644
--- a/include/ccmath/math/fmanip/nexttoward.hpp
+++ b/include/ccmath/math/fmanip/nexttoward.hpp
@@ -48,7 +48,7 @@ namespace ccm
 	 */
 	template <typename Integer, std::enable_if_t<std::is_integral_v<Integer>, bool> = true>
 	constexpr double nexttoward(Integer from, long double to) noexcept
-	{ return gen::nextafter_gen(from, to); }
+	{ return ccm::nexttoward(static_cast<double>(from), to); }
 
 	/**
 	 * @brief Returns the next representable float from from toward to.
-- 
2.43.0


From d3ccdce9b4de3517cf9993d5b6747be6b59a3c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:19 +0000
Subject: [PATCH 05/20] fix: scalbn/scalbln with a long exponent truncated it
 to int

---
 include/ccmath/math/fmanip/scalbn.hpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/include/ccmath/math/fmanip/scalbn.hpp b/include/ccmath/math/fmanip/scalbn.hpp
index 2194954..5be2bd9 100644
--- a/include/ccmath/math/fmanip/scalbn.hpp
+++ b/include/ccmath/math/fmanip/scalbn.hpp
@@ -17,6 +17,8 @@
 #include "ccmath/math/fmanip/impl/scalbn_float_impl.hpp"
 #include "ccmath/math/fmanip/impl/scalbn_ldouble_impl.hpp"
 
+#include <climits>
+
 #if defined(_MSC_VER) && !defined(__clang__)
 	#include "ccmath/internal/predef/compiler_suppression/msvc_compiler_suppression.hpp"
 CCM_DISABLE_MSVC_WARNING(4702) // 4702: unreachable code
@@ -61,12 +63,15 @@ namespace ccm
 		if constexpr (ccm::builtin::has_constexpr_scalbn<T>) { return ccm::builtin::scalbn_ct(num, exp); }
 		else
 		{
-			if (!ccm::support::is_constant_evaluated()) { return ccm::rt::scalbn_rt(num, static_cast<int>(exp)); }
+			// Any exponent beyond the range of int overflows or underflows just like the extreme int values do.
+			const int int_exp = exp > INT_MAX ? INT_MAX : exp < INT_MIN ? INT_MIN : static_cast<int>(exp);
 
-			if constexpr (std::is_same_v<T, float>) { return internal::scalbn_float(num, exp); }
-			if constexpr (std::is_same_v<T, double>) { return internal::scalbn_double(num, exp); }
-			if constexpr (std::is_same_v<T, long double>) { return internal::scalbn_ldouble(num, exp); }
-			return static_cast<T>(internal::scalbn_ldouble(num, exp));
+			if (!ccm::support::is_constant_evaluated()) { return ccm::rt::scalbn_rt(num, int_exp); }
+
+			if constexpr (std::is_same_v<T, float>) { return internal::scalbn_float(num, int_exp); }
+			if constexpr (std::is_same_v<T, double>) { return internal::scalbn_double(num, int_exp); }
+			if constexpr (std::is_same_v<T, long double>) { return internal::scalbn_ldouble(num, int_exp); }
+			return static_cast<T>(internal::scalbn_ldouble(num, int_exp));
 		}
 	}
 
-- 
2.43.0


From 6fa7d9dd99d5291c355a731ffc3c760fc99fa426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:13 +0000
Subject: [PATCH 06/20] fix: portable popcount of 16- and 32-bit operands
 missed parentheses and returned wrong counts

---
 include/ccmath/internal/support/bits.hpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/include/ccmath/internal/support/bits.hpp b/include/ccmath/internal/support/bits.hpp
index 118969c..4e2db03 100644
--- a/include/ccmath/internal/support/bits.hpp
+++ b/include/ccmath/internal/support/bits.hpp
@@ -428,10 +428,10 @@ namespace ccm::support
 
 	constexpr int popcount(unsigned short n)
 	{
-		n = n - (n >> 1) & 0x5555;
-		n = (n & 0x3333) + (n >> 2) & 0x3333;
+		n = n - ((n >> 1) & 0x5555);
+		n = (n & 0x3333) + ((n >> 2) & 0x3333);
 		n = (n + (n >> 4)) & 0x0F0F;
-		return (n * 0x0101) >> 16;
+		return ((n * 0x0101U) >> 8) & 0xFF;
 	}
 
 	constexpr int popcount(unsigned int n)
@@ -439,17 +439,17 @@ namespace ccm::support
 		// int can be 32 or 16 bits, so we need to check.
 		if constexpr (constexpr int bits = std::numeric_limits<unsigned int>::digits; bits == 32) // 32 bit int
 		{
-			n = n - (n >> 1) & 0x55555555;
-			n = (n & 0x33333333) + (n >> 2) & 0x33333333;
+			n = n - ((n >> 1) & 0x55555555);
+			n = (n & 0x33333333) + ((n >> 2) & 0x33333333);
 			n = (n + (n >> 4)) & 0x0F0F0F0F;
 			return (n * 0x01010101) >> 24;
 		}
 		else // 16 bit int
 		{
-			n = n - (n >> 1) & 0x5555;
-			n = (n & 0x3333) + (n >> 2) & 0x3333;
+			n = n - ((n >> 1) & 0x5555);
+			n = (n & 0x3333) + ((n >> 2) & 0x3333);
 			n = (n + (n >> 4)) & 0x0F0F;
-			return (n * 0x0101) >> 16;
+			return ((n * 0x0101U) >> 8) & 0xFF;
 		}
 	}
 #endif
@@ -462,8 +462,8 @@ namespace ccm::support
 		// long can be 32 or 64 bits, so we need to check.
 		if constexpr (constexpr long bits = std::numeric_limits<unsigned long>::digits; bits == 32) // 32 bit long
 		{
-			n = n - (n >> 1) & 0x55555555;
-			n = (n & 0x33333333) + (n >> 2) & 0x33333333;
+			n = n - ((n >> 1) & 0x55555555);
+			n = (n & 0x33333333) + ((n >> 2) & 0x33333333);
 			n = (n + (n >> 4)) & 0x0F0F0F0F;
 			return (n * 0x01010101) >> 24;
 		}
-- 
2.43.0


From e17d0c07fb22b600b31dc0fbc580bfadf6dab019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:34 +0000
Subject: [PATCH 07/20] fix: ceil_div overflowed when value + divisor exceeded
 the type

---
 include/ccmath/ext/ceil_div.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ccmath/ext/ceil_div.hpp b/include/ccmath/ext/ceil_div.hpp
index 3bb5c20..eb4f3cb 100644
--- a/include/ccmath/ext/ceil_div.hpp
+++ b/include/ccmath/ext/ceil_div.hpp
@@ -26,7 +26,7 @@ namespace ccm::ext
 	 */
 	template <typename T, std::enable_if_t<std::is_integral_v<T> && !std::is_same_v<std::remove_cv_t<T>, bool>, bool> = true>
 	[[nodiscard]] constexpr T ceil_div(T value, T divisor) noexcept
-	{ return static_cast<T>((value + divisor - T(1)) / divisor); }
+	{ return static_cast<T>(value / divisor + (value % divisor > T(0) ? T(1) : T(0))); }
 
 	namespace safe
 	{
-- 
2.43.0


From eb2e6d6b210e4153d92bacb4e7f7d068562e9445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:03 +0000
Subject: [PATCH 08/20] fix: first_trailing_one of a BigInt tested for all ones
 instead of zero

---
 include/ccmath/internal/types/big_int.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ccmath/internal/types/big_int.hpp b/include/ccmath/internal/types/big_int.hpp
index f42f5a0..99cef01 100644
--- a/include/ccmath/internal/types/big_int.hpp
+++ b/include/ccmath/internal/types/big_int.hpp
@@ -1702,7 +1702,7 @@ namespace ccm::support
 
 	template <typename T>
 	[[nodiscard]] constexpr std::enable_if_t<types::is_big_int_v<T>, int> first_trailing_one(T value)
-	{ return value == std::numeric_limits<T>::max() ? 0 : support::countr_zero(value) + 1; }
+	{ return value.is_zero() ? 0 : support::countr_zero(value) + 1; }
 } // namespace ccm::support
 
 #if defined(_MSC_VER) && !defined(__clang__)
-- 
2.43.0


From 71e63c09e090ea4f4f43bd2248ec366e0cce56c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:03 +0000
Subject: [PATCH 09/20] fix: rotl/rotr of a BigInt reduced a negative count
 modulo 2^32 instead of the width

---
 include/ccmath/internal/types/big_int.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/ccmath/internal/types/big_int.hpp b/include/ccmath/internal/types/big_int.hpp
index 99cef01..06da1d2 100644
--- a/include/ccmath/internal/types/big_int.hpp
+++ b/include/ccmath/internal/types/big_int.hpp
@@ -1630,8 +1630,8 @@ namespace ccm::support
 	template <typename T>
 	[[nodiscard]] constexpr std::enable_if_t<types::is_big_int_v<T>, T> rotl(T value, int rotate)
 	{
-		constexpr unsigned N = std::numeric_limits<T>::digits;
-		rotate				 = rotate % N;
+		constexpr int N = std::numeric_limits<T>::digits;
+		rotate			= rotate % N;
 		if (!rotate) { return value; }
 		if (rotate < 0) { return support::rotr<T>(value, -rotate); }
 		return (value << rotate) | (value >> (N - rotate));
@@ -1640,8 +1640,8 @@ namespace ccm::support
 	template <typename T>
 	[[nodiscard]] constexpr std::enable_if_t<types::is_big_int_v<T>, T> rotr(T value, int rotate)
 	{
-		constexpr unsigned N = std::numeric_limits<T>::digits;
-		rotate				 = rotate % N;
+		constexpr int N = std::numeric_limits<T>::digits;
+		rotate			= rotate % N;
 		if (!rotate) { return value; }
 		if (rotate < 0) { return support::rotl<T>(value, -rotate); }
 		return (value >> rotate) | (value << (N - rotate));
-- 
2.43.0


From 5eb1814364ae6e9415f7c770bb9f5bce8157c81f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:03 +0000
Subject: [PATCH 10/20] fix: BigInt::mul returned zero instead of the carry out
 of the top word

---
 include/ccmath/internal/types/big_int.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ccmath/internal/types/big_int.hpp b/include/ccmath/internal/types/big_int.hpp
index 06da1d2..34ff3b7 100644
--- a/include/ccmath/internal/types/big_int.hpp
+++ b/include/ccmath/internal/types/big_int.hpp
@@ -377,7 +377,7 @@ namespace ccm::types
 				const word carry = mul_add_with_carry(acc, val, x);
 				val				 = acc.advance(carry);
 			}
-			return acc.carry();
+			return acc.sum();
 		}
 
 		/**
-- 
2.43.0


From 9ae18ca2c7ed4f2cdce93cbe6dc6d7031d611a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:02 +0000
Subject: [PATCH 11/20] fix: widening a signed BigInt to an unsigned one
 dropped the documented sign extension

---
 include/ccmath/internal/types/big_int.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ccmath/internal/types/big_int.hpp b/include/ccmath/internal/types/big_int.hpp
index 34ff3b7..74dd590 100644
--- a/include/ccmath/internal/types/big_int.hpp
+++ b/include/ccmath/internal/types/big_int.hpp
@@ -610,7 +610,7 @@ namespace ccm::types
 		constexpr BigInt(const BigInt<OtherBits, OtherSigned, OtherWordType>& other) // NOLINT(google-explicit-constructor)
 		{
 			using BigIntOther							   = BigInt<OtherBits, OtherSigned, OtherWordType>;
-			[[maybe_unused]] const bool should_sign_extend = Signed && other.is_neg();
+			[[maybe_unused]] const bool should_sign_extend = other.is_neg();
 
 			static_assert(!(Bits == OtherBits && WORD_SIZE != BigIntOther::WORD_SIZE),
 						  "Casting between BigInts with the same bit width but different word sizes is untested.");
-- 
2.43.0


From 99e437478a237cf3b43cdfca8c04c24ca2bd9e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:02 +0000
Subject: [PATCH 12/20] fix: widening a negative BigInt with smaller words
 zeroed the first extension word

---
 include/ccmath/internal/types/big_int.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/ccmath/internal/types/big_int.hpp b/include/ccmath/internal/types/big_int.hpp
index 74dd590..27767ea 100644
--- a/include/ccmath/internal/types/big_int.hpp
+++ b/include/ccmath/internal/types/big_int.hpp
@@ -645,9 +645,13 @@ namespace ccm::types
 						}
 					}
 					const WordType extension_bits = should_sign_extend ? std::numeric_limits<WordType>::max() : std::numeric_limits<WordType>::min();
-					if ((i % WORD_SIZE_RATIO) != 0) { cur_word |= static_cast<WordType>(extension_bits) << (BigIntOther::WORD_SIZE * (i % WORD_SIZE_RATIO)); }
-					val[i / WORD_SIZE_RATIO] = cur_word;
-					extend((i / WORD_SIZE_RATIO) + 1, should_sign_extend);
+					std::size_t next			  = i / WORD_SIZE_RATIO;
+					if ((i % WORD_SIZE_RATIO) != 0)
+					{
+						cur_word |= static_cast<WordType>(extension_bits) << (BigIntOther::WORD_SIZE * (i % WORD_SIZE_RATIO));
+						val[next++] = cur_word;
+					}
+					extend(next, should_sign_extend);
 				}
 			}
 			else if constexpr (BigIntOther::WORD_SIZE == WORD_SIZE)
-- 
2.43.0


From afae5e497a5011adf0f66835514890775d6e4c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:26 +0000
Subject: [PATCH 13/20] fix: expm1 below -512 returned exp(x) instead of
 exp(x)-1

---
 include/ccmath/math/expo/impl/exp_double_impl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ccmath/math/expo/impl/exp_double_impl.hpp b/include/ccmath/math/expo/impl/exp_double_impl.hpp
index 44fd869..3de39c3 100644
--- a/include/ccmath/math/expo/impl/exp_double_impl.hpp
+++ b/include/ccmath/math/expo/impl/exp_double_impl.hpp
@@ -203,7 +203,7 @@ namespace ccm::internal::impl
 
 		tmp = tail + rem + remSqr * (exp_poly_coeff_one_dbl + rem * exp_poly_coeff_two_dbl) +
 			  remSqr * remSqr * (exp_poly_coeff_three_dbl + rem * exp_poly_coeff_four_dbl);
-		if (CCM_UNLIKELY(abs_top == 0.0)) { return handle_special_case(tmp, sign_bits, expo_int64); }
+		if (CCM_UNLIKELY(abs_top == 0.0)) { return handle_special_case(tmp, sign_bits, expo_int64) - 1.0; }
 
 		scale = support::uint64_to_double(sign_bits);
 
-- 
2.43.0


From 25caceb0efd730ec6b34720310ffe8d5e51359f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:36 +0000
Subject: [PATCH 14/20] fix: log1p double polynomial coefficients were neither
 minimax nor exact and gave errors up to 211 ulp

---
 include/ccmath/math/expo/impl/log1p_impl.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/ccmath/math/expo/impl/log1p_impl.hpp b/include/ccmath/math/expo/impl/log1p_impl.hpp
index ad2e99b..765de12 100644
--- a/include/ccmath/math/expo/impl/log1p_impl.hpp
+++ b/include/ccmath/math/expo/impl/log1p_impl.hpp
@@ -32,13 +32,13 @@ namespace ccm::internal::impl
 	constexpr float log1p_lg3_f	   = 0x1.24924ap-2f;
 	constexpr float log1p_lg4_f	   = 0x1.f0a3d8p-3f;
 
-	constexpr double log1p_lg1_d = 0x1.5555555555555p-1;
-	constexpr double log1p_lg2_d = 0x1.9999999999999p-2;
-	constexpr double log1p_lg3_d = 0x1.2492492492492p-2;
-	constexpr double log1p_lg4_d = 0x1.c71c71c71c6d6p-3;
-	constexpr double log1p_lg5_d = 0x1.745d1745d0a63p-3;
-	constexpr double log1p_lg6_d = 0x1.3b13b13b0ff6ep-3;
-	constexpr double log1p_lg7_d = 0x1.111111111126ep-3;
+	constexpr double log1p_lg1_d = 0x1.5555555555593p-1;
+	constexpr double log1p_lg2_d = 0x1.999999997fa04p-2;
+	constexpr double log1p_lg3_d = 0x1.2492494229359p-2;
+	constexpr double log1p_lg4_d = 0x1.c71c51d8e78afp-3;
+	constexpr double log1p_lg5_d = 0x1.7466496cb03dep-3;
+	constexpr double log1p_lg6_d = 0x1.39a09d078c69fp-3;
+	constexpr double log1p_lg7_d = 0x1.2f112df3e5244p-3;
 
 	constexpr auto log1p_log_data_flt = ccm::internal::log_data<double>();
 	constexpr auto log1p_ln2_hi_d	  = log1p_log_data_flt.ln2hi;
-- 
2.43.0


From d49230c13439dbd78525d384b20df53138045f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:22 +0000
Subject: [PATCH 15/20] fix: lgamma Stirling coefficients were not 1/12,
 -1/360, 1/1260 (absolute error up to 1e-2 from 8 on)

---
 include/ccmath/math/misc/impl/lgamma_double_impl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ccmath/math/misc/impl/lgamma_double_impl.hpp b/include/ccmath/math/misc/impl/lgamma_double_impl.hpp
index 8f95c2a..2d15299 100644
--- a/include/ccmath/math/misc/impl/lgamma_double_impl.hpp
+++ b/include/ccmath/math/misc/impl/lgamma_double_impl.hpp
@@ -41,7 +41,7 @@ namespace ccm::internal::impl
 		{
 			const double inv_x	= 1.0 / x;
 			const double inv_x2 = inv_x * inv_x;
-			const double corr	= inv_x * (0x1.5555555555555p-3 + inv_x2 * (-0x1.6c16c16c16c17p-7 + inv_x2 * 0x1.00a01a01a01a1p-7));
+			const double corr	= inv_x * (0x1.5555555555555p-4 + inv_x2 * (-0x1.6c16c16c16c17p-9 + inv_x2 * 0x1.a01a01a01a01ap-11));
 			return (x - 0.5) * ccm::log(x) - x + 0.5 * ccm::log(2.0 * ccm::numbers::pi_v<double>) + corr;
 		}
 
-- 
2.43.0


From c2cff14cf7ed9d3b356068de63134a057963ca3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:22 +0000
Subject: [PATCH 16/20] fix: lgamma of an integer above INT_MAX overflowed the
 conversion to int and returned 0

---
 include/ccmath/math/misc/impl/lgamma_double_impl.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/ccmath/math/misc/impl/lgamma_double_impl.hpp b/include/ccmath/math/misc/impl/lgamma_double_impl.hpp
index 2d15299..3bbf692 100644
--- a/include/ccmath/math/misc/impl/lgamma_double_impl.hpp
+++ b/include/ccmath/math/misc/impl/lgamma_double_impl.hpp
@@ -102,8 +102,7 @@ namespace ccm::internal::impl
 				ccm::support::fenv::set_errno_if_required(EDOM);
 				return fp_bits::inf().get_val();
 			}
-			const auto k = static_cast<std::int32_t>(ccm::floor(x));
-			if (k <= 170) { return lgamma_detail::positive_lfactorial(k); }
+			if (x <= 170.0) { return lgamma_detail::positive_lfactorial(static_cast<std::int32_t>(x)); }
 		}
 
 		if (CCM_UNLIKELY(ccm::fabs(x) <= 0x1p-53)) { return -lgamma_detail::log_abs(x); }
-- 
2.43.0


From 31e0c6ff21ffa5c1aa8488c75c2e4dced6c9bdd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:38 +0000
Subject: [PATCH 17/20] fix: tgamma of a negative argument below INT_MIN
 overflowed the conversion to int

---
 include/ccmath/math/misc/impl/gamma_double_impl.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/ccmath/math/misc/impl/gamma_double_impl.hpp b/include/ccmath/math/misc/impl/gamma_double_impl.hpp
index 6a0f98a..3df5802 100644
--- a/include/ccmath/math/misc/impl/gamma_double_impl.hpp
+++ b/include/ccmath/math/misc/impl/gamma_double_impl.hpp
@@ -144,14 +144,22 @@ namespace ccm::internal::impl
 
 		if (CCM_UNLIKELY(detail::is_integer(x)))
 		{
-			const auto k = static_cast<std::int32_t>(ccm::floor(x));
 			if (xbits.is_neg())
 			{
 				ccm::support::fenv::raise_except_if_required(FE_INVALID);
 				ccm::support::fenv::set_errno_if_required(EDOM);
 				return fp_bits::quiet_nan().get_val();
 			}
-			if (k >= 1 && k <= 170) { return detail::positive_factorial(k); }
+			if (x <= 170.0) { return detail::positive_factorial(static_cast<std::int32_t>(x)); }
+		}
+
+		// Below -184 the magnitude is under half the smallest subnormal, only the sign of (-1)^floor(x) remains.
+		if (CCM_UNLIKELY(x < -184.0))
+		{
+			ccm::support::fenv::raise_except_if_required(FE_UNDERFLOW | FE_INEXACT);
+			ccm::support::fenv::set_errno_if_required(ERANGE);
+			const double half = 0.5 * ccm::floor(x);
+			return ccm::floor(half) == half ? 0.0 : -0.0;
 		}
 
 		double w{};
-- 
2.43.0


From 6a86cc66299beec6a2126a756b349e11238e727a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:43 +0000
Subject: [PATCH 18/20] fix: tgamma of a float between 34.8 and the overflow
 threshold 35.04 returned infinity

---
 include/ccmath/math/misc/impl/gamma_float_impl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ccmath/math/misc/impl/gamma_float_impl.hpp b/include/ccmath/math/misc/impl/gamma_float_impl.hpp
index aa8c631..7c25b4d 100644
--- a/include/ccmath/math/misc/impl/gamma_float_impl.hpp
+++ b/include/ccmath/math/misc/impl/gamma_float_impl.hpp
@@ -53,7 +53,7 @@ namespace ccm::internal::impl
 			return fp_bits::inf(xbits.sign()).get_val();
 		}
 
-		if (CCM_UNLIKELY(!xbits.is_neg() && x >= 34.8F))
+		if (CCM_UNLIKELY(!xbits.is_neg() && x >= 0x1.18522p+5F))
 		{
 			ccm::support::fenv::raise_except_if_required(FE_OVERFLOW | FE_INEXACT);
 			ccm::support::fenv::set_errno_if_required(ERANGE);
-- 
2.43.0


From 8880b1e5722d2ce9bb764ea6f1463d7736c26f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:31 +0000
Subject: [PATCH 19/20] fix: expm1 series for |x| in (1/16,1/4) stopped at x^8
 and gave errors up to 1300 ulp

---
 include/ccmath/math/expo/impl/exp_double_impl.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/ccmath/math/expo/impl/exp_double_impl.hpp b/include/ccmath/math/expo/impl/exp_double_impl.hpp
index 3de39c3..415b4f4 100644
--- a/include/ccmath/math/expo/impl/exp_double_impl.hpp
+++ b/include/ccmath/math/expo/impl/exp_double_impl.hpp
@@ -147,7 +147,8 @@ namespace ccm::internal::impl
 	constexpr double expm1_series(double x)
 	{
 		const double x2 = x * x;
-		return x + x2 * (0.5 + x * (1.0 / 6.0 + x * (1.0 / 24.0 + x * (1.0 / 120.0 + x * (1.0 / 720.0 + x * (1.0 / 5040.0 + x * (1.0 / 40320.0)))))));
+		const double tail = 1.0 / 40320.0 + x * (1.0 / 362880.0 + x * (1.0 / 3628800.0 + x * (1.0 / 39916800.0)));
+		return x + x2 * (0.5 + x * (1.0 / 6.0 + x * (1.0 / 24.0 + x * (1.0 / 120.0 + x * (1.0 / 720.0 + x * (1.0 / 5040.0 + x * tail))))));
 	}
 
 	constexpr double expm1_kernel(double x)
-- 
2.43.0


From c81f48cd2f35219143734d550d42a56d5edf0f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:08 +0000
Subject: [PATCH 20/20] fix: float sin/cos range reduction relied on a fused
 multiply-add (errors up to 8e-3 below 2^18 without one)

---
 include/ccmath/math/trig/impl/sincos_float_data.hpp |  4 ++--
 include/ccmath/math/trig/impl/sincos_float_impl.hpp | 10 +++++-----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/ccmath/math/trig/impl/sincos_float_data.hpp b/include/ccmath/math/trig/impl/sincos_float_data.hpp
index 5a68d3e..8f61812 100644
--- a/include/ccmath/math/trig/impl/sincos_float_data.hpp
+++ b/include/ccmath/math/trig/impl/sincos_float_data.hpp
@@ -24,9 +24,9 @@ namespace ccm::internal::sincos_float_data
 	};
 
 	// Multi-part pi/8 for small range reduction.
-	constexpr std::array<float, 3> MPI = { -0x1.921f8p-2f, -0x1.aa22p-21f, -0x1.68c234p-41f };
+	constexpr std::array<double, 2> MPI = { -0x1.921fb544p-2, -0x1.0b4611a626331p-36 };
 
-	constexpr float ONE_OVER_PI = 0x1.45f306p+1f;
+	constexpr double ONE_OVER_PI = 0x1.45f306dc9c883p+1;
 
 	// Large-|x| reduction is handled by the shared Payne-Hanek path in sincos_payne_hanek.hpp.
 
diff --git a/include/ccmath/math/trig/impl/sincos_float_impl.hpp b/include/ccmath/math/trig/impl/sincos_float_impl.hpp
index 562f13e..2abfdd5 100644
--- a/include/ccmath/math/trig/impl/sincos_float_impl.hpp
+++ b/include/ccmath/math/trig/impl/sincos_float_impl.hpp
@@ -34,12 +34,12 @@ namespace ccm::internal::impl
 
 		constexpr unsigned sincosf_range_reduction_small(float x, float & u)
 		{
-			const float prod_hi = x * data::ONE_OVER_PI;
-			const float k		= support::fp::nearest_integer(prod_hi);
+			// Without a fused multiply-add k * MPI[0] is not exact in float, so the reduction is carried out in double,
+			// where it is: MPI[0] has 31 bits and |k| < 2^20.
+			const double xd = static_cast<double>(x);
+			const double k	= support::fp::nearest_integer(xd * data::ONE_OVER_PI);
 
-			const float y_hi = support::multiply_add(k, data::MPI[0], x);
-			u				 = support::multiply_add(k, data::MPI[1], y_hi);
-			u				 = support::multiply_add(k, data::MPI[2], u);
+			u = static_cast<float>((xd + k * data::MPI[0]) + k * data::MPI[1]);
 			return static_cast<unsigned>(static_cast<int>(k));
 		}
 
-- 
2.43.0

