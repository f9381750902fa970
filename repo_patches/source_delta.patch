From ba13b04b7a54fad5d5bbc57df8304f949ca3fb55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:15 +0000
Subject: [PATCH 01/16] fix: keep the sign of values out of the range of cached
 powers

Negative texts far out of range parsed to positive infinity or positive zero.
---
 include/floaxie/krosh.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/floaxie/krosh.h b/include/floaxie/krosh.h
index c002459..359eb36 100644
--- a/include/floaxie/krosh.h
+++ b/include/floaxie/krosh.h
@@ -575,6 +575,9 @@ namespace floaxie
 						ret.status = conversion_status::overflow;
 					}
 
+					if (!mp.sign)
+						ret.value = -ret.value;
+
 					ret.str_end = ep.str_end;
 					ret.is_accurate = true;
 
-- 
2.43.0


From 1da29c76b237b5c6f2953fff82829e9fd66b9e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:15 +0000
Subject: [PATCH 02/16] fix: detect overflow by the magnitude of the value on
 downsampling

The exponent of diy_fp was compared as if the mantissa were in [0.5, 1), so
that values like 1e309 or 2e308 got to the exponent field of the result
shifted out and parsed to garbage (negative numbers, NaN's).
---
 include/floaxie/diy_fp.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/floaxie/diy_fp.h b/include/floaxie/diy_fp.h
index 0a643f4..96d5caf 100644
--- a/include/floaxie/diy_fp.h
+++ b/include/floaxie/diy_fp.h
@@ -203,7 +203,7 @@ namespace floaxie
 
 			const auto f(m_f);
 
-			if (m_e >= std::numeric_limits<FloatType>::max_exponent)
+			if (m_e + int(my_mantissa_size) > std::numeric_limits<FloatType>::max_exponent)
 			{
 				ret.value = huge_value<FloatType>();
 				ret.status = conversion_status::overflow;
-- 
2.43.0


From fcbe99cb08dca49ee213b070e7e1c456aee50d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:56 +0000
Subject: [PATCH 03/16] fix: propagate the carry when rounding up fills the
 mantissa on downsampling

Carry out of the mantissa was masked out, so that the result was half of the
correct value, e.g. 9007199254740991.6 was parsed as 4503599627370496.
---
 include/floaxie/diy_fp.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/floaxie/diy_fp.h b/include/floaxie/diy_fp.h
index 96d5caf..d383dab 100644
--- a/include/floaxie/diy_fp.h
+++ b/include/floaxie/diy_fp.h
@@ -227,11 +227,14 @@ namespace floaxie
 			parts <<= mantissa_bit_size;
 
 			const auto& round(round_up(f, shift_amount));
-			parts |= ((f >> shift_amount) + round.value) & mantissa_mask;
+			parts += ((f >> shift_amount) & mantissa_mask) + round.value; // carry out of mantissa goes to the exponent
 
 			ret.value = type_punning_cast<FloatType>(parts);
 			ret.is_accurate = round.is_accurate;
 
+			if (ret.value == huge_value<FloatType>())
+				ret.status = conversion_status::overflow;
+
 			return ret;
 		}
 
-- 
2.43.0


From c7d0a5da437d48bf42ea123598a5a8fe3adc86ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:56 +0000
Subject: [PATCH 04/16] fix: round values above a half of the smallest
 subnormal up to it

Values like 4e-324 were reported as underflow and parsed to zero, while the
nearest double is the smallest subnormal one.
---
 include/floaxie/diy_fp.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/floaxie/diy_fp.h b/include/floaxie/diy_fp.h
index d383dab..7f87542 100644
--- a/include/floaxie/diy_fp.h
+++ b/include/floaxie/diy_fp.h
@@ -210,7 +210,8 @@ namespace floaxie
 				return ret;
 			}
 
-			if (m_e + int(my_mantissa_size) < std::numeric_limits<FloatType>::min_exponent - int(mantissa_bit_size))
+			// less, than a half of the smallest subnormal value
+			if (m_e + int(my_mantissa_size) < std::numeric_limits<FloatType>::min_exponent - int(mantissa_bit_size) - 1)
 			{
 				ret.value = FloatType(0);
 				ret.status = conversion_status::underflow;
@@ -219,7 +220,7 @@ namespace floaxie
 
 			const std::size_t denorm_exp(positive_part(std::numeric_limits<FloatType>::min_exponent - int(mantissa_bit_size) - m_e - 1));
 
-			assert(denorm_exp < my_mantissa_size);
+			assert(denorm_exp <= my_mantissa_size);
 
 			const std::size_t shift_amount(std::max(denorm_exp, lsb_pow));
 
@@ -227,13 +228,16 @@ namespace floaxie
 			parts <<= mantissa_bit_size;
 
 			const auto& round(round_up(f, shift_amount));
-			parts += ((f >> shift_amount) & mantissa_mask) + round.value; // carry out of mantissa goes to the exponent
+			const mantissa_storage_type significand(shift_amount < my_mantissa_size ? f >> shift_amount : 0);
+			parts += (significand & mantissa_mask) + round.value; // carry out of mantissa goes to the exponent
 
 			ret.value = type_punning_cast<FloatType>(parts);
 			ret.is_accurate = round.is_accurate;
 
 			if (ret.value == huge_value<FloatType>())
 				ret.status = conversion_status::overflow;
+			else if (!parts)
+				ret.status = conversion_status::underflow;
 
 			return ret;
 		}
-- 
2.43.0


From d501efb21c93a8849757e6583e79505d3398926f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:08 +0000
Subject: [PATCH 05/16] fix: don't report underflow for subnormals below the
 cached powers range

The lowest cached power of ten for float is -50, but values with long mantissa
and lower power can still be representable, e.g. 123456789e-51. Leave such
values to the fallback conversion.
---
 include/floaxie/krosh.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/floaxie/krosh.h b/include/floaxie/krosh.h
index 359eb36..1b1dcfd 100644
--- a/include/floaxie/krosh.h
+++ b/include/floaxie/krosh.h
@@ -564,10 +564,16 @@ namespace floaxie
 				}
 				else
 				{
+					ret.is_accurate = true;
+
 					if (!b1)
 					{
+						// value of the longest mantissa can still be above the smallest subnormal
+						constexpr int certain_underflow(std::numeric_limits<FloatType>::min_exponent10 - std::numeric_limits<FloatType>::max_digits10);
+
 						ret.value = FloatType(0);
 						ret.status = conversion_status::underflow;
+						ret.is_accurate = mp.K + static_cast<int>(decimal_q<FloatType>) <= certain_underflow;
 					}
 					else // !b2
 					{
@@ -579,7 +585,6 @@ namespace floaxie
 						ret.value = -ret.value;
 
 					ret.str_end = ep.str_end;
-					ret.is_accurate = true;
 
 					return ret;
 				}
-- 
2.43.0


From 632d3b02586f26b4bcf97c3fe5468050c2934a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:29 +0000
Subject: [PATCH 06/16] fix: parse exponent part as documented

Exponent part was parsed the same way as mantissa, so its decimal exponent
was used as an index of powers table, which led to reading out of its bounds
for fractional ('1e5.5') and long ('1e10000') exponents, long exponents wrapped
around, exponents without digits ('1e', '1e+') and with special values
('1enan') were consumed.
---
 include/floaxie/krosh.h | 36 ++++++++++++++++++++++--------------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/include/floaxie/krosh.h b/include/floaxie/krosh.h
index 1b1dcfd..d781af1 100644
--- a/include/floaxie/krosh.h
+++ b/include/floaxie/krosh.h
@@ -45,8 +45,8 @@ namespace floaxie
 	/** \brief Maximum length of input string (2 KB). */
 	constexpr std::size_t maximum_offset = 2048;
 
-	/** \brief Maximum number of decimal digits in the exponent value. */
-	constexpr std::size_t exponent_decimal_digits(3);
+	/** \brief Exponent value, which is out of range for any mantissa. */
+	constexpr int maximum_exponent(1000000);
 
 	/** \brief Tries to find and eat NaN representation in one of two forms.
 	 *
@@ -478,25 +478,33 @@ namespace floaxie
 	template<typename CharType> inline exponent_parse_result<CharType> parse_exponent(const CharType* str)
 	{
 		exponent_parse_result<CharType> ret;
+
+		ret.value = 0;
+		ret.str_end = str;
+
 		if (*str != 'e' && *str != 'E')
-		{
-			ret.value = 0;
-			ret.str_end = str;
-		}
-		else
-		{
-			++str;
+			return ret;
+
+		++str;
 
-			const auto& digit_parts(parse_digits<float>(str));
+		const bool negative(*str == '-');
 
-			ret.value = digit_parts.value * seq_pow<int, 10, exponent_decimal_digits>(digit_parts.K);
+		if (negative || *str == '+')
+			++str;
 
-			if (!digit_parts.sign)
-				ret.value = -ret.value;
+		// exponent without digits is not a part of the representation
+		for (; *str >= '0' && *str <= '9'; ++str)
+		{
+			// anything beyond the limit is out of range for sure
+			if (ret.value < maximum_exponent)
+				ret.value = ret.value * 10 + static_cast<int>(*str - '0');
 
-			ret.str_end = digit_parts.str_end;
+			ret.str_end = str + 1;
 		}
 
+		if (negative)
+			ret.value = -ret.value;
+
 		return ret;
 	}
 
-- 
2.43.0


From 5e4230f670489ce04b38fe4bd46df6be29c78ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:52 +0000
Subject: [PATCH 07/16] fix: don't consume characters of incorrect
 representations

Lone sign, lone decimal point and first letters of special values ('n', 'i')
were consumed and (negative) zero was returned, as if it was there, while
incorrect input should be left untouched.
---
 include/floaxie/krosh.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/floaxie/krosh.h b/include/floaxie/krosh.h
index d781af1..3fdfd18 100644
--- a/include/floaxie/krosh.h
+++ b/include/floaxie/krosh.h
@@ -241,6 +241,7 @@ namespace floaxie
 		bool dot_set(false);
 		bool sign_set(false);
 		bool frac_calculated(false);
+		bool digits_found(false);
 		std::size_t pow_gain(0);
 		std::size_t zero_substring_length(0), fraction_digits_count(0);
 
@@ -253,6 +254,7 @@ namespace floaxie
 			switch (c)
 			{
 			case '0':
+				digits_found = true;
 				if (!parsed_digits.empty() || dot_set)
 				{
 					++zero_substring_length;
@@ -269,6 +271,7 @@ namespace floaxie
 			case '7':
 			case '8':
 			case '9':
+				digits_found = true;
 				if (zero_substring_length && parsed_digits.size() < kappa)
 				{
 					const std::size_t spare_digits { kappa - parsed_digits.size() };
@@ -368,6 +371,13 @@ namespace floaxie
 		ret.str_end = str + (pos - 1);
 		ret.K = pow_gain - fraction_digits_count;
 
+		// nothing is consumed, unless there's a value to return
+		if (!digits_found && ret.special == speciality::no)
+		{
+			ret.str_end = str;
+			ret.sign = true;
+		}
+
 		return ret;
 	}
 
-- 
2.43.0


From 9ceea8947d69941b188667a7a66500896299da62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:53 +0000
Subject: [PATCH 08/16] fix: consume exponent part of zero values

Parsing of '0e5' or '0.0e-1' stopped before the exponent part.
---
 include/floaxie/krosh.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/floaxie/krosh.h b/include/floaxie/krosh.h
index 3fdfd18..7595e9b 100644
--- a/include/floaxie/krosh.h
+++ b/include/floaxie/krosh.h
@@ -617,6 +617,8 @@ namespace floaxie
 		}
 		else
 		{
+			ret.str_end = mp.str_end;
+
 			switch (mp.special)
 			{
 			case speciality::nan:
@@ -629,10 +631,14 @@ namespace floaxie
 
 			default:
 				ret.value = 0;
+
+				// zero has its exponent part, too
+				if (mp.str_end != str)
+					ret.str_end = parse_exponent(mp.str_end).str_end;
+
 				break;
 			}
 
-			ret.str_end = mp.str_end;
 			ret.is_accurate = true;
 			ret.status = conversion_status::success;
 		}
-- 
2.43.0


From ac80d4209740acc65e1b533639fcb090a63c0338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:44 +0000
Subject: [PATCH 09/16] fix: include everything the headers use themselves

default_fallback.h and tables of powers of ten couldn't be included on their own.
---
 include/floaxie/default_fallback.h  | 1 +
 include/floaxie/powers_ten_double.h | 2 ++
 include/floaxie/powers_ten_single.h | 2 ++
 3 files changed, 5 insertions(+)

diff --git a/include/floaxie/default_fallback.h b/include/floaxie/default_fallback.h
index bd305ef..d2bb98e 100644
--- a/include/floaxie/default_fallback.h
+++ b/include/floaxie/default_fallback.h
@@ -17,6 +17,7 @@
 #ifndef FLOAXIE_DEFAULT_FALLBACK_H
 #define FLOAXIE_DEFAULT_FALLBACK_H
 
+#include <cerrno>
 #include <cstdlib>
 #include <cwchar>
 
diff --git a/include/floaxie/powers_ten_double.h b/include/floaxie/powers_ten_double.h
index cac7efe..305024e 100644
--- a/include/floaxie/powers_ten_double.h
+++ b/include/floaxie/powers_ten_double.h
@@ -25,6 +25,8 @@
 #define FLOAXIE_POWERS_TEN_DOUBLE_H
 
 #include <cstddef>
+#include <cstdint>
+#include <utility>
 #include <array>
 
 #include <floaxie/powers_ten.h>
diff --git a/include/floaxie/powers_ten_single.h b/include/floaxie/powers_ten_single.h
index 3b67d8b..f2eb0f3 100644
--- a/include/floaxie/powers_ten_single.h
+++ b/include/floaxie/powers_ten_single.h
@@ -25,6 +25,8 @@
 #define FLOAXIE_POWERS_TEN_SINGLE_H
 
 #include <cstddef>
+#include <cstdint>
+#include <utility>
 
 #include <floaxie/powers_ten.h>
 
-- 
2.43.0


From 2a86e54d1e0e13473a09663ba0dea0f0aa2f84d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:46 +0000
Subject: [PATCH 10/16] fix: don't report overflow for subnormal results of
 fallback conversion

C library sets ERANGE for subnormals as well, which is not an overflow.
---
 include/floaxie/default_fallback.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/floaxie/default_fallback.h b/include/floaxie/default_fallback.h
index d2bb98e..a38fbd7 100644
--- a/include/floaxie/default_fallback.h
+++ b/include/floaxie/default_fallback.h
@@ -18,6 +18,7 @@
 #define FLOAXIE_DEFAULT_FALLBACK_H
 
 #include <cerrno>
+#include <cmath>
 #include <cstdlib>
 #include <cwchar>
 
@@ -73,7 +74,9 @@ namespace floaxie
 	/** \brief Returns `conversion_status` based on `errno` value.
 	 *
 	 * Analyzes current value of `errno` together with the passed conversion
-	 * result and returns `conversion_status` value for the case.
+	 * result and returns `conversion_status` value for the case. Inexact
+	 * subnormal values, reported with `ERANGE` by some implementations, are
+	 * treated as successful.
 	 *
 	 * \tparam FloatType floating-point type of the returned value passed.
 	 *
@@ -88,7 +91,10 @@ namespace floaxie
 		if (errno != ERANGE)
 			return conversion_status::success;
 
-		return returned_value ? conversion_status::overflow : conversion_status::underflow;
+		if (std::isinf(returned_value))
+			return conversion_status::overflow;
+
+		return returned_value ? conversion_status::success : conversion_status::underflow;
 	}
 }
 
-- 
2.43.0


From ff93c9ca9384483a33f93f8ef4893ee2d0b4fe39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:47 +0000
Subject: [PATCH 11/16] fix: don't take stale errno value as a status of
 fallback conversion

If errno was ERANGE before the call, any value converted by the fallback was
reported to overflow or underflow.
---
 include/floaxie/atof.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/floaxie/atof.h b/include/floaxie/atof.h
index 4181536..c611315 100644
--- a/include/floaxie/atof.h
+++ b/include/floaxie/atof.h
@@ -18,6 +18,7 @@
 #define FLOAXIE_ATOF_H
 
 #include <string>
+#include <cerrno>
 
 #include <floaxie/krosh.h>
 
@@ -112,9 +113,15 @@ namespace floaxie
 			}
 			else
 			{
+				const int saved_errno(errno);
+				errno = 0;
+
 				result.value = fallback_func(str, str_end);
 				result.status = check_errno(result.value);
 
+				if (result.status == conversion_status::success)
+					errno = saved_errno;
+
 				return result;
 			}
 		}
-- 
2.43.0


From b1dfb550f6124d8687cbb4602fd7e9df06eab151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:57 +0000
Subject: [PATCH 12/16] fix: consider the error of truncated mantissa in Krosh
 accuracy detection

If not all the digits fit in the mantissa, its error can exceed one unit of the
last bit, so checking for exact tie only is not enough and some values were
rounded incorrectly, e.g. 9.5626209539965e-19 as float.
---
 include/floaxie/diy_fp.h | 12 ++++++++++--
 include/floaxie/krosh.h  | 23 +++++++++++++++++++++--
 2 files changed, 31 insertions(+), 4 deletions(-)

diff --git a/include/floaxie/diy_fp.h b/include/floaxie/diy_fp.h
index 7f87542..422bade 100644
--- a/include/floaxie/diy_fp.h
+++ b/include/floaxie/diy_fp.h
@@ -181,9 +181,13 @@ namespace floaxie
 		 * and the whole `diy_fp` value is normalized, otherwise the behaviour is
 		 * undefined.
 		 *
+		 * \param max_error maximum error of the mantissa (in units of its last
+		 * bit), below which the result should still be accurate, zero, if it's
+		 * exact or correctly rounded.
+		 *
 		 * \return result structure with floating point value of the specified type.
 		 */
-		downsample_result downsample()
+		downsample_result downsample(mantissa_storage_type max_error = 0)
 		{
 			downsample_result ret;
 
@@ -215,6 +219,7 @@ namespace floaxie
 			{
 				ret.value = FloatType(0);
 				ret.status = conversion_status::underflow;
+				ret.is_accurate = f <= std::numeric_limits<mantissa_storage_type>::max() - max_error;
 				return ret;
 			}
 
@@ -232,7 +237,10 @@ namespace floaxie
 			parts += (significand & mantissa_mask) + round.value; // carry out of mantissa goes to the exponent
 
 			ret.value = type_punning_cast<FloatType>(parts);
-			ret.is_accurate = round.is_accurate;
+
+			const mantissa_storage_type tail(f & mask<mantissa_storage_type>(shift_amount));
+			const mantissa_storage_type half(raised_bit<mantissa_storage_type>(shift_amount - 1));
+			ret.is_accurate = round.is_accurate && (tail > half ? tail - half : half - tail) > max_error;
 
 			if (ret.value == huge_value<FloatType>())
 				ret.status = conversion_status::overflow;
diff --git a/include/floaxie/krosh.h b/include/floaxie/krosh.h
index 7595e9b..1867d36 100644
--- a/include/floaxie/krosh.h
+++ b/include/floaxie/krosh.h
@@ -42,6 +42,17 @@ namespace floaxie
 	/** \brief Maximum number of decimal digits of fraction part, which can be observed. */
 	constexpr std::size_t fraction_decimal_digits(4);
 
+	/** \brief Maximum error of the scaled mantissa (in units of its last bit),
+	 * when some digits of the representation don't fit in it.
+	 *
+	 * Fractional part underestimates the tail by less, than 0.11 of the last
+	 * decimal digit (including the case of decimal point inside of the tail),
+	 * which is up to 3.5 units after normalization; rounding of the fractional
+	 * part, cached power and multiplication add a half of the unit each, and
+	 * the final normalization can double the sum.
+	 */
+	constexpr unsigned int truncation_error(10);
+
 	/** \brief Maximum length of input string (2 KB). */
 	constexpr std::size_t maximum_offset = 2048;
 
@@ -186,7 +197,7 @@ namespace floaxie
 	template<typename FloatType, typename CharType> struct digit_parse_result
 	{
 		/** \brief Pre-initializes members to sane values. */
-		digit_parse_result() : value(), K(0), str_end(nullptr), frac(0), special(), sign(true) { }
+		digit_parse_result() : value(), K(0), str_end(nullptr), frac(0), special(), sign(true), is_truncated(false) { }
 
 		/** \brief Parsed mantissa value. */
 		typename diy_fp<FloatType>::mantissa_storage_type value;
@@ -207,6 +218,9 @@ namespace floaxie
 
 		/** \brief Sign of the value. */
 		bool sign;
+
+		/** \brief Flag indicating that not all the digits fit in the mantissa. */
+		bool is_truncated;
 	};
 
 	/** \brief Unified method to extract and parse digits in one pass.
@@ -370,6 +384,7 @@ namespace floaxie
 
 		ret.str_end = str + (pos - 1);
 		ret.K = pow_gain - fraction_digits_count;
+		ret.is_truncated = frac_calculated;
 
 		// nothing is consumed, unless there's a value to return
 		if (!digits_found && ret.special == speciality::no)
@@ -402,6 +417,9 @@ namespace floaxie
 
 		/** \brief Sign of the value. */
 		bool sign;
+
+		/** \brief Flag indicating that not all the digits fit in the mantissa. */
+		bool is_truncated;
 	};
 
 	/** \brief Tides up results of `parse_digits` for **Krosh** to use.
@@ -429,6 +447,7 @@ namespace floaxie
 		ret.special = digits_parts.special;
 		ret.str_end = digits_parts.str_end;
 		ret.sign = digits_parts.sign;
+		ret.is_truncated = digits_parts.is_truncated;
 
 		if (digits_parts.special == speciality::no)
 		{
@@ -609,7 +628,7 @@ namespace floaxie
 			}
 
 			w.normalize();
-			const auto& v(w.downsample());
+			const auto& v(w.downsample(mp.is_truncated ? truncation_error : 0));
 			ret.value = v.value;
 			ret.str_end = ep.str_end;
 			ret.is_accurate = v.is_accurate;
-- 
2.43.0


From e640b5233cead00c0a876c96a72b48ce9d895964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:59 +0000
Subject: [PATCH 13/16] fix: provide memory wrappers for the remaining
 character types

to_u16string() and to_u32string() failed to link, since memset() and memmove()
wrappers were only defined for char and wchar_t.
---
 include/floaxie/memwrap.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/floaxie/memwrap.h b/include/floaxie/memwrap.h
index 65d0c66..bc0322b 100644
--- a/include/floaxie/memwrap.h
+++ b/include/floaxie/memwrap.h
@@ -19,6 +19,7 @@
 
 #include <cstring>
 #include <cwchar>
+#include <string>
 
 namespace floaxie
 {
@@ -28,7 +29,10 @@ namespace floaxie
 		 *
 		 * \tparam CharType character type used.
 		*/
-		template<typename CharType> inline CharType* memset(CharType* dest, CharType ch, std::size_t count);
+		template<typename CharType> inline CharType* memset(CharType* dest, CharType ch, std::size_t count)
+		{
+			return std::char_traits<CharType>::assign(dest, count, ch);
+		}
 
 		template<> inline char* memset(char* dest, char ch, std::size_t count)
 		{
@@ -44,7 +48,10 @@ namespace floaxie
 		 *
 		 * \tparam CharType character type used.
 		 */
-		template<typename CharType> inline CharType* memmove(CharType* dest, const CharType* src, std::size_t count);
+		template<typename CharType> inline CharType* memmove(CharType* dest, const CharType* src, std::size_t count)
+		{
+			return std::char_traits<CharType>::move(dest, src, count);
+		}
 
 		template<> inline char* memmove(char* dest, const char* src, std::size_t count)
 		{
-- 
2.43.0


From 07763530ba6f05e52f1d3eb04c0b4e59903ac7d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:24 +0000
Subject: [PATCH 14/16] fix: allow powers of ten tables to be defined in
 several translation units

---
 include/floaxie/powers_ten_double.h | 20 ++++++++++++++------
 include/floaxie/powers_ten_single.h | 20 ++++++++++++++------
 2 files changed, 28 insertions(+), 12 deletions(-)

diff --git a/include/floaxie/powers_ten_double.h b/include/floaxie/powers_ten_double.h
index 305024e..08ffbf1 100644
--- a/include/floaxie/powers_ten_double.h
+++ b/include/floaxie/powers_ten_double.h
@@ -33,7 +33,7 @@
 
 namespace floaxie
 {
-	/** \brief Specialization of **powers_ten** for double precision
+	/** \brief Values of **powers_ten** for double precision
 	 * floating point type (`double`).
 	 *
 	 * Significand (mantissa) type is `std::uint64_t`, exponent type is
@@ -41,8 +41,11 @@ namespace floaxie
 	 *
 	 * Values are calculated for powers of 10 in the range of [-343, 343]
 	 * exponent.
+	 *
+	 * It's a template to allow the static members to be defined in the header
+	 * included in several translation units.
 	 */
-	template<> struct powers_ten<double>
+	template<typename FloatType> struct powers_ten_double
 	{
 		/** \brief Pre-calculated binary 64-bit representation of mantissa of
 		 * powers of 10 in the range of [-343, 343] for single precision
@@ -412,10 +415,15 @@ namespace floaxie
 		static constexpr std::pair<int, int> boundaries = { -343, 343 };
 	};
 
-	constexpr decltype(powers_ten<double>::f) powers_ten<double>::f;
-	constexpr decltype(powers_ten<double>::e) powers_ten<double>::e;
-	constexpr std::size_t powers_ten<double>::pow_0_offset;
-	constexpr std::pair<int, int> powers_ten<double>::boundaries;
+	template<typename FloatType> constexpr std::uint64_t powers_ten_double<FloatType>::f[];
+	template<typename FloatType> constexpr int powers_ten_double<FloatType>::e[];
+	template<typename FloatType> constexpr std::size_t powers_ten_double<FloatType>::pow_0_offset;
+	template<typename FloatType> constexpr std::pair<int, int> powers_ten_double<FloatType>::boundaries;
+
+	/** \brief Specialization of **powers_ten** for double precision
+	 * floating point type (`double`).
+	 */
+	template<> struct powers_ten<double> : powers_ten_double<double> { };
 }
 
 #endif // FLOAXIE_POWERS_TEN_DOUBLE_H
diff --git a/include/floaxie/powers_ten_single.h b/include/floaxie/powers_ten_single.h
index f2eb0f3..867ac35 100644
--- a/include/floaxie/powers_ten_single.h
+++ b/include/floaxie/powers_ten_single.h
@@ -32,7 +32,7 @@
 
 namespace floaxie
 {
-	/** \brief Specialization of **powers_ten** for single precision
+	/** \brief Values of **powers_ten** for single precision
 	 * floating point type (`float`).
 	 *
 	 * Significand (mantissa) type is `std::uint32_t`, exponent type is
@@ -40,8 +40,11 @@ namespace floaxie
 	 *
 	 * Values are calculated for powers of 10 in the range of [-50, 50]
 	 * exponent.
+	 *
+	 * It's a template to allow the static members to be defined in the header
+	 * included in several translation units.
 	 */
-	template<> struct powers_ten<float>
+	template<typename FloatType> struct powers_ten_single
 	{
 		/** \brief Pre-calculated binary 32-bit representation of mantissa of
 		 * powers of 10 in the range of [-50, 50] for single precision
@@ -269,10 +272,15 @@ namespace floaxie
 		static constexpr std::pair<int, int> boundaries = { -50, 50 };
 	};
 
-	constexpr decltype(powers_ten<float>::f) powers_ten<float>::f;
-	constexpr decltype(powers_ten<float>::e) powers_ten<float>::e;
-	constexpr std::size_t powers_ten<float>::pow_0_offset;
-	constexpr std::pair<int, int> powers_ten<float>::boundaries;
+	template<typename FloatType> constexpr std::uint32_t powers_ten_single<FloatType>::f[];
+	template<typename FloatType> constexpr int powers_ten_single<FloatType>::e[];
+	template<typename FloatType> constexpr std::size_t powers_ten_single<FloatType>::pow_0_offset;
+	template<typename FloatType> constexpr std::pair<int, int> powers_ten_single<FloatType>::boundaries;
+
+	/** \brief Specialization of **powers_ten** for single precision
+	 * floating point type (`float`).
+	 */
+	template<> struct powers_ten<float> : powers_ten_single<float> { };
 }
 
 #endif // FLOAXIE_POWERS_TEN_SINGLE_H
-- 
2.43.0


From 37d0475369bf36e3d1bfa154f24a5f0e489c6796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:43 +0000
Subject: [PATCH 15/16] fix: detect special values independently of the locale

---
 include/floaxie/krosh.h | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/include/floaxie/krosh.h b/include/floaxie/krosh.h
index 1867d36..00adf0c 100644
--- a/include/floaxie/krosh.h
+++ b/include/floaxie/krosh.h
@@ -18,7 +18,9 @@
 #define FLOAXIE_CROSH_H
 
 #include <vector>
-#include <locale>
+#include <array>
+#include <limits>
+#include <algorithm>
 #include <cstddef>
 #include <cmath>
 #include <cassert>
@@ -85,7 +87,8 @@ namespace floaxie
 				do
 					++cp;
 				while ((*cp >= '0' && *cp <= '9') ||
-					   (std::tolower(*cp, std::locale()) >= 'a' && std::tolower(*cp, std::locale()) <= 'z') ||
+					   (*cp >= 'a' && *cp <= 'z') ||
+					   (*cp >= 'A' && *cp <= 'Z') ||
 						*cp == '_');
 
 				if (*cp == ')')
@@ -120,15 +123,16 @@ namespace floaxie
 				++cp;
 
 				const std::array<CharType, 4> suffix {{ 'n', 'i', 't', 'y' }};
-				auto it = suffix.cbegin();
+				const std::array<CharType, 4> upper_suffix {{ 'N', 'I', 'T', 'Y' }};
+				std::size_t pos(0);
 
-				while (it != suffix.cend() && std::tolower(*cp, std::locale()) == *it)
+				while (pos < suffix.size() && (*cp == suffix[pos] || *cp == upper_suffix[pos]))
 				{
 					++cp;
-					++it;
+					++pos;
 				}
 
-				if (it == suffix.cend())
+				if (pos == suffix.size())
 					eaten = cp - str;
 			}
 		}
-- 
2.43.0


From a0c6a516aad8e88aa3b7415b9cbb63bedd4c3308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:56 +0000
Subject: [PATCH 16/16] fix: report an allocation failure in parsing instead of
 terminating

parse_digits() allocates, so std::bad_alloc has to leave it.
---
 include/floaxie/krosh.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/floaxie/krosh.h b/include/floaxie/krosh.h
index 00adf0c..4fe361c 100644
--- a/include/floaxie/krosh.h
+++ b/include/floaxie/krosh.h
@@ -247,7 +247,7 @@ namespace floaxie
 	 * \return `digit_parse_result` with the parsing results.
 	 */
 	template<typename FloatType, typename CharType>
-	inline digit_parse_result<FloatType, CharType> parse_digits(const CharType* str) noexcept
+	inline digit_parse_result<FloatType, CharType> parse_digits(const CharType* str)
 	{
 		digit_parse_result<FloatType, CharType> ret;
 
-- 
2.43.0

