#!/usr/bin/env python3
"""Behaviour-preserving rewritings of the headers, on which every check has to stay quiet.

  refactor.py [--scale X] [--props C01,..] [NAME ...]

Each is applied to a scratch copy of the headers, has to pass the existing tests,
and then all the checks are run on it. A tool; no check uses it.
"""
import argparse, json, os, re, shutil, subprocess, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from plant import REPO, VERIF, sh
from mutate import build_tests

R = {}
def refactoring(name, *edits):
    R[name] = edits

refactoring("horner",
    ("krosh.h", """		std::size_t pow(0);
		for (auto rit = parsed_digits.rbegin(); rit != parsed_digits.rend(); ++rit)
			ret.value += (*rit) * seq_pow<typename diy_fp<FloatType>::mantissa_storage_type, 10, decimal_q<FloatType>>(pow++);

		ret.str_end = str + (pos - 1);
		ret.K = pow_gain - fraction_digits_count;
		ret.is_truncated = frac_calculated;
""", """		ret.is_truncated = frac_calculated;
		ret.K = static_cast<int>(pow_gain) - static_cast<int>(fraction_digits_count);
		ret.str_end = str + pos - 1;

		for (const unsigned char digit : parsed_digits)
			ret.value = static_cast<typename diy_fp<FloatType>::mantissa_storage_type>(ret.value * 10 + digit);
"""),
    ("krosh.h", """		std::array<unsigned char, kappa> parsed_digits;
		parsed_digits.fill(0);

		for (std::size_t pos = 0; pos < kappa; ++pos)
		{
			const auto c = str[pos] - '0';
			if (c >= 0 && c <= 9)
				parsed_digits[pos] = c;
			else
				break;
		}

		unsigned int result(0);
		std::size_t pow(0);
		for (auto rit = parsed_digits.rbegin(); rit != parsed_digits.rend(); ++rit)
			result += (*rit) * seq_pow<unsigned int, 10, kappa>(pow++);

		return result;""", """		unsigned int result(0);
		std::size_t pos(0);

		while (pos < kappa && str[pos] >= CharType('0') && str[pos] <= CharType('9'))
			result = result * 10 + static_cast<unsigned int>(str[pos++] - '0');

		for (; pos < kappa; ++pos)
			result *= 10;

		return result;"""))

refactoring("array-of-digits",
    ("krosh.h", "		std::vector<unsigned char> parsed_digits;\n		parsed_digits.reserve(kappa);\n", "		unsigned char parsed_digits[kappa] = {};\n		std::size_t count(0);\n"),
    ("krosh.h", "if (!parsed_digits.empty() || dot_set)", "if (count || dot_set)"),
    ("krosh.h", "if (zero_substring_length && parsed_digits.size() < kappa)", "if (zero_substring_length && count < kappa)"),
    ("krosh.h", "spare_digits { kappa - parsed_digits.size() };", "spare_digits { kappa - count };"),
    ("krosh.h", "					if (!parsed_digits.empty())\n					{", "					if (count)\n					{"),
    ("krosh.h", "						parsed_digits.insert(parsed_digits.end(), zero_copy_count, 0);", "						count += zero_copy_count; // already zero"),
    ("krosh.h", "				if (parsed_digits.size() < kappa)\n				{\n					parsed_digits.push_back(c - '0');", "				if (count < kappa)\n				{\n					parsed_digits[count++] = static_cast<unsigned char>(c - '0');"),
    ("krosh.h", "frac_suffix_size = parsed_digits.size() + zero_substring_length - kappa;", "frac_suffix_size = count + zero_substring_length - kappa;"),
    ("krosh.h", "		for (auto rit = parsed_digits.rbegin(); rit != parsed_digits.rend(); ++rit)\n			ret.value += (*rit) * seq_pow<typename diy_fp<FloatType>::mantissa_storage_type, 10, decimal_q<FloatType>>(pow++);", "		while (count-- > 0)\n			ret.value += parsed_digits[count] * seq_pow<typename diy_fp<FloatType>::mantissa_storage_type, 10, decimal_q<FloatType>>(pow++);"))

refactoring("product-by-wide-type",
    ("diy_fp.h", """			constexpr std::size_t half_width = bit_size<mantissa_storage_type>() / 2;
			constexpr auto mask_half = mask<mantissa_storage_type>(half_width);

			const mantissa_storage_type a = m_f >> half_width;
			const mantissa_storage_type b = m_f & mask_half;
			const mantissa_storage_type c = rhs.m_f >> half_width;
			const mantissa_storage_type d = rhs.m_f & mask_half;

			const mantissa_storage_type ac = a * c;
			const mantissa_storage_type bc = b * c;
			const mantissa_storage_type ad = a * d;
			const mantissa_storage_type bd = b * d;

			const mantissa_storage_type tmp = (bd >> half_width) + (ad & mask_half) + (bc & mask_half) + raised_bit<mantissa_storage_type>(half_width - 1);

			m_f = ac + (ad >> half_width) + (bc >> half_width) + (tmp >> half_width);
			m_e += rhs.m_e + bit_size<mantissa_storage_type>();
""", """			__extension__ typedef unsigned __int128 wide_type;
			constexpr std::size_t width = bit_size<mantissa_storage_type>();

			const wide_type product = static_cast<wide_type>(m_f) * rhs.m_f;

			// round half up
			m_f = static_cast<mantissa_storage_type>((product + (static_cast<wide_type>(1) << (width - 1))) >> width);
			m_e += static_cast<exponent_storage_type>(rhs.m_e + static_cast<int>(width));
"""))

refactoring("normalisation",
    ("diy_fp.h", """			while (!highest_bit(m_f))
			{
				m_f <<= 1;
				m_e--;
			}
""", """			for (std::size_t step = bit_size<mantissa_storage_type>() / 2; step > 0; step /= 2)
			{
				if (!(m_f >> (bit_size<mantissa_storage_type>() - step)))
				{
					m_f <<= step;
					m_e -= static_cast<exponent_storage_type>(step);
				}
			}
"""),
    ("diy_fp.h", """			pl = diy_fp(d);
			mi = pl;

			pl.m_f <<= 1;
			pl.m_f += 1;

			pl.m_e  -= 1;

""", """			mi = diy_fp(d);
			pl = diy_fp((mi.m_f << 1) | 1, mi.m_e - 1);
"""),
    ("diy_fp.h", """			mi.m_f <<= shift_amount;
			mi.m_f -= 1;
			mi.m_e -= shift_amount;

			mi.m_f <<= mi.m_e - pl.m_e;
			mi.m_e = pl.m_e;
""", """			const exponent_storage_type rest = mi.m_e - shift_amount - pl.m_e;
			mi.m_e = pl.m_e;
			mi.m_f = ((mi.m_f << shift_amount) - 1) << rest;
"""))

refactoring("narrowing",
    ("diy_fp.h", """			if (m_e + int(my_mantissa_size) > std::numeric_limits<FloatType>::max_exponent)
			{
				ret.value = huge_value<FloatType>();
				ret.status = conversion_status::overflow;
				return ret;
			}

			// less, than a half of the smallest subnormal value
			if (m_e + int(my_mantissa_size) < std::numeric_limits<FloatType>::min_exponent - int(mantissa_bit_size) - 1)
			{
				ret.value = FloatType(0);
				ret.status = conversion_status::underflow;
				ret.is_accurate = f <= std::numeric_limits<mantissa_storage_type>::max() - max_error;
				return ret;
			}
""", """			const int top = static_cast<int>(my_mantissa_size) + m_e;

			// less, than a half of the smallest subnormal value
			if (top < std::numeric_limits<FloatType>::min_exponent - int(mantissa_bit_size) - 1)
			{
				ret.is_accurate = std::numeric_limits<mantissa_storage_type>::max() - f >= max_error;
				ret.status = conversion_status::underflow;
				ret.value = 0;
				return ret;
			}
			else if (top > std::numeric_limits<FloatType>::max_exponent)
			{
				ret.status = conversion_status::overflow;
				ret.value = std::numeric_limits<FloatType>::infinity();
				return ret;
			}
"""),
    ("diy_fp.h", """			const auto& round(round_up(f, shift_amount));
			const mantissa_storage_type significand(shift_amount < my_mantissa_size ? f >> shift_amount : 0);
			parts += (significand & mantissa_mask) + round.value; // carry out of mantissa goes to the exponent

			ret.value = type_punning_cast<FloatType>(parts);

			const mantissa_storage_type tail(f & mask<mantissa_storage_type>(shift_amount));
			const mantissa_storage_type half(raised_bit<mantissa_storage_type>(shift_amount - 1));
			ret.is_accurate = round.is_accurate && (tail > half ? tail - half : half - tail) > max_error;

			if (ret.value == huge_value<FloatType>())
				ret.status = conversion_status::overflow;
			else if (!parts)
				ret.status = conversion_status::underflow;
""", """			const mantissa_storage_type half(mantissa_storage_type(1) << (shift_amount - 1));
			const mantissa_storage_type tail(f & (half | (half - 1)));
			const mantissa_storage_type distance(tail > half ? tail - half : half - tail);
			const mantissa_storage_type significand(shift_amount == my_mantissa_size ? 0 : f >> shift_amount);
			const bool up = tail > half || (tail == half && (significand & 1));

			// carry out of mantissa goes to the exponent
			parts += (significand & mantissa_mask) + (up ? 1 : 0);

			ret.value = type_punning_cast<FloatType>(parts);
			ret.is_accurate = distance != 0 && distance > max_error;

			if (std::isinf(ret.value))
				ret.status = conversion_status::overflow;
			else
				ret.status = parts ? conversion_status::success : conversion_status::underflow;
"""),
    ("diy_fp.h", "#include <limits>\n", "#include <limits>\n#include <cmath>\n"))

refactoring("digit-generation",
    ("grisu.h", """				while (kappa > 0 && p1)
				{
					buffer[(*len)++] = '0' + p1 / div;

					p1 %= div;

					kappa--;
					div /= 10;
				}

				if (close_to_delta)
				{
					*K += kappa;
					return;
				}
				else
				{
					wrap::memset(buffer + (*len), CharType('0'), kappa);
					(*len) += kappa;
				}
""", """				int written = 0;

				for (; kappa > 0 && p1; --kappa, div /= 10)
				{
					const half_of_mantissa_storage_type digit = p1 / div;
					p1 -= digit * div;
					buffer[written++] = static_cast<CharType>('0' + digit);
				}

				*len = written;

				if (close_to_delta)
				{
					*K += kappa;
					return;
				}

				while (kappa > 0)
				{
					buffer[(*len)++] = CharType('0');
					--kappa;
				}
"""),
    ("grisu.h", """			while (p2 > delta_f)
			{
				p2 *= 10;

				const unsigned char d = p2 >> -one.exponent();

				if (some_already_written || d)
					buffer[(*len)++] = '0' + d;

				p2 &= one.mantissa() - 1;

				++kappa;
				delta_f *= 10;
			}
""", """			const auto fraction_mask = one.mantissa() - 1;

			for (; p2 > delta_f; delta_f *= 10, ++kappa)
			{
				p2 += p2 * 9;

				const auto d = p2 >> -one.exponent();
				p2 &= fraction_mask;

				if (!some_already_written && !d)
					continue;

				buffer[*len] = static_cast<CharType>('0' + d);
				++*len;
			}
"""),
    ("grisu.h", """		if (n < static_pow<10, 1>()) return make_kappa_div<1>();
		if (n < static_pow<10, 2>()) return make_kappa_div<2>();
		if (n < static_pow<10, 3>()) return make_kappa_div<3>();
		if (n < static_pow<10, 4>()) return make_kappa_div<4>();
		if (n < static_pow<10, 5>()) return make_kappa_div<5>();
		if (n < static_pow<10, 6>()) return make_kappa_div<6>();
		if (n < static_pow<10, 7>()) return make_kappa_div<7>();
		if (n < static_pow<10, 8>()) return make_kappa_div<8>();
		if (n < static_pow<10, 9>()) return make_kappa_div<9>();
		return make_kappa_div<10>();
""", """		kappa_pair_type result(1, 1);

		while (n / result.second >= 10)
		{
			++result.first;
			result.second *= 10;
		}

		return result;
"""))

refactoring("notation",
    ("prettify.h", """		const unsigned int actual_dot_pos = dot_pos > 0 ? dot_pos : 1;

		const unsigned int left_offset = dot_pos > 0 ? 0 : 2 - dot_pos;
		const unsigned int right_offset = positive_part(k);

		const unsigned int left_shift_src = positive_part(dot_pos);
		const unsigned int left_shift_dest = dot_pos > 0 ? left_shift_src + (k < 0) : left_offset;
		const unsigned int left_shift_len = positive_part(static_cast<int>(len) - static_cast<int>(left_shift_src));

		const unsigned int term_pos = len + right_offset + (left_shift_dest - left_shift_src);

		wrap::memmove(buffer + left_shift_dest, buffer + left_shift_src, left_shift_len);
		wrap::memset(buffer, CharType('0'), left_offset);
		wrap::memset(buffer + len, CharType('0'), right_offset);
		buffer[actual_dot_pos] = '.';
		buffer[term_pos] = '\\0';

		return term_pos;
""", """		unsigned int total = len;

		if (k >= 0)
		{
			// integer: digits, then zeros
			wrap::memset(buffer + len, CharType('0'), static_cast<std::size_t>(k));
			total += static_cast<unsigned int>(k);
		}
		else if (dot_pos > 0)
		{
			// the point among the digits
			for (unsigned int i = len; i > static_cast<unsigned int>(dot_pos); --i)
				buffer[i] = buffer[i - 1];

			buffer[dot_pos] = CharType('.');
			++total;
		}
		else
		{
			const unsigned int offset = static_cast<unsigned int>(2 - dot_pos);

			for (unsigned int i = len; i-- > 0;)
				buffer[i + offset] = buffer[i];

			for (unsigned int i = 0; i < offset; ++i)
				buffer[i] = CharType('0');

			buffer[1] = CharType('.');
			total += offset;
		}

		buffer[total] = CharType();

		return total;
"""),
    ("prettify.h", """		const unsigned char hundreds = K / 100;
		K %= 100;
		buffer[0] = '0' + hundreds;
		buffer += (hundreds > 0);

		const char* d = digits_lut + K * 2;
		buffer[0] = d[0];
		buffer[1] = d[1];

		buffer[2] = '\\0';

		return 2 + (hundreds > 0);
""", """		std::size_t written(0);

		if (K > 99)
			buffer[written++] = static_cast<CharType>('0' + K / 100);

		buffer[written++] = static_cast<CharType>('0' + K / 10 % 10);
		buffer[written++] = static_cast<CharType>('0' + K % 10);
		buffer[written] = CharType('\\0');

		return written;
"""),
    ("prettify.h", """		switch (choose_format<decimal_scientific_threshold>(field_width))
		{
		case format::decimal:
			return print_decimal(buffer, len, k);

		case format::scientific:
			return print_scientific(buffer, len, dot_pos);
		}

		// never reach here
		return 0;
""", """		const bool decimal_fits = choose_format<decimal_scientific_threshold>(field_width) == format::decimal;

		return decimal_fits ? print_decimal(buffer, len, k) : print_scientific(buffer, len, dot_pos);
"""))

refactoring("literals-of-ftoa",
    ("ftoa.h", """			buffer[0] = 'n';
			buffer[1] = 'a';
			buffer[2] = 'n';
			buffer[3] = '\\0';

			return 3;
		}
		else if (std::isinf(v))
		{
			if (v > 0)
			{
				buffer[0] = 'i';
				buffer[1] = 'n';
				buffer[2] = 'f';
				buffer[3] = '\\0';

				return 3;
			}
			else
			{
				buffer[0] = '-';
				buffer[1] = 'i';
				buffer[2] = 'n';
				buffer[3] = 'f';
				buffer[4] = '\\0';

				return 4;
			}
		}
		else if (v == 0)
		{
			buffer[0] = '0';
			buffer[1] = '\\0';

			return 1;
		}
""", """			return put_literal("nan", buffer);
		}
		else if (std::isinf(v))
		{
			return put_literal(v < 0 ? "-inf" : "inf", buffer);
		}
		else if (v == 0)
		{
			return put_literal("0", buffer);
		}
"""),
    ("ftoa.h", "	/** \\brief Prints floating point value to optimal string representation.\n	 *\n	 * The function", """	/** \\brief Writes ASCII literal. */
	template<typename CharType> inline std::size_t put_literal(const char* text, CharType* buffer) noexcept
	{
		std::size_t n = 0;
		while ((buffer[n] = static_cast<CharType>(text[n])) != CharType())
			++n;
		return n;
	}

	/** \\brief Prints floating point value to optimal string representation.
	 *
	 * The function"""),
    ("ftoa.h", """		std::basic_string<CharType> result(max_buffer_size<FloatType>(), CharType());

		ftoa(v, &result.front());

		result.resize(std::char_traits<CharType>::length(result.data()));
		result.shrink_to_fit();

		return result;
""", """		CharType buffer[max_buffer_size<FloatType>()];
		const std::size_t length = ftoa(v, buffer);
		return std::basic_string<CharType>(buffer, length);
"""),
    ("ftoa.h", """			*buffer = '-';
			buffer += v < 0;
""", """			const bool negative = std::signbit(v);

			if (negative)
				*buffer++ = '-';
"""),
    ("ftoa.h", "return (v < 0) + prettify", "return std::size_t(negative) + prettify"))

refactoring("atof-helper",
    ("atof.h", """		if (cr.str_end != str)
		{
			if (cr.is_accurate)
			{
				result.value = cr.value;
				result.status = cr.status;
			}
			else
			{
				const int saved_errno(errno);
				errno = 0;

				result.value = fallback_func(str, str_end);
				result.status = check_errno(result.value);

				if (result.status == conversion_status::success)
					errno = saved_errno;

				return result;
			}
		}

		if (str_end)
			*str_end = const_cast<CharType*>(cr.str_end);

		return result;
""", """		const bool something_parsed = str != cr.str_end;

		if (something_parsed && !cr.is_accurate)
		{
			const int old = errno;
			errno = 0;
			result.value = fallback_func(str, str_end);
			result.status = check_errno(result.value);
			errno = result.status == conversion_status::success ? old : errno;
			return result;
		}

		if (str_end != nullptr)
			*str_end = const_cast<CharType*>(cr.str_end);

		if (something_parsed)
		{
			result.status = cr.status;
			result.value = cr.value;
		}

		return result;
"""),
    ("default_fallback.h", """		if (errno != ERANGE)
			return conversion_status::success;

		if (std::isinf(returned_value))
			return conversion_status::overflow;

		return returned_value ? conversion_status::success : conversion_status::underflow;
""", """		if (errno == ERANGE)
		{
			if (returned_value == 0)
				return conversion_status::underflow;

			if (std::isinf(returned_value))
				return conversion_status::overflow;
		}

		return conversion_status::success;
"""))

refactoring("renamed-internals",
    *[("*", r"\b%s\b" % a, b) for a, b in (("k_comp_exp", "decimal_power_for"), ("lg_2", "log10_of_two"), ("calculate_kappa_div", "highest_power"), ("make_kappa_div", "power_pair"),
      ("digit_gen_select", "generator"), ("convert_numerator", "to_binary_fraction"), ("fraction_converter", "fraction_step"), ("extract_fraction_digits", "tail_digits"),
      ("print_decimal", "place_point"), ("print_scientific", "append_exponent"), ("fill_exponent", "write_exponent"), ("choose_format", "pick_format"),
      ("eat_nan", "match_nan"), ("eat_inf", "match_inf"), ("maximum_offset", "max_text"), ("truncation_error", "cut_error"), ("max_digits", "digit_limit"),
      ("cached_power", "power_of_ten"), ("pow_0_offset", "zero_offset"), ("nth_bit", "bit_at"), ("highest_bit", "top_bit"),
      ("constexpr_abs", "magnitude"), ("seq_pow", "runtime_pow"), ("wrap", "memory"), ("powers_ten_double", "table_of_double"), ("powers_ten_single", "table_of_single"),
      ("positive_part", "rectified"), ("grisu_parameters", "grisu_window"), ("huge_value", "infinite_value"), ("half_of_mantissa_storage_type", "half_word"))])

refactoring("fraction-loop",
    ("fraction.h", "		return fraction_converter<T, decimal_digits, binary_digits, 1>::convert(decimal_numerator);", """		constexpr T numerator(static_pow<10, decimal_digits>());

		T result(0);

		for (std::size_t digit = 1; digit <= binary_digits; ++digit)
		{
			const T part(numerator >> digit);
			const bool set(decimal_numerator >= part);

			result = (result << 1) | T(set);

			if (set)
				decimal_numerator -= part;
		}

		return result;"""))

refactoring("bits",
    ("bit_ops.h", "return n < bit_size<NumericType>() ? raised_bit<NumericType>(n) - 1 : std::numeric_limits<NumericType>::max();", "return n >= bit_size<NumericType>() ? static_cast<NumericType>(~NumericType(0)) : static_cast<NumericType>(~(static_cast<NumericType>(~NumericType(0)) << n));"),
    ("bit_ops.h", "return std::max(0, value);", "return value > 0 ? value : 0;"),
    ("bit_ops.h", "return value & raised_bit<NumericType>(power);", "return (value >> power) & 1;"),
    ("bit_ops.h", """		ret.is_accurate = (last_bits & mask<NumericType>(round_to_power)) != round_bit;
		ret.value = (last_bits & round_bit) && (last_bits & check_mask);
""", """		const NumericType tail(last_bits & mask<NumericType>(round_to_power));

		ret.value = (tail & round_bit) == round_bit && (last_bits & check_mask) != 0;
		ret.is_accurate = !(tail == round_bit);
"""),
    ("k_comp.h", "return (alpha - e - 1) * lg_2 + (e + 1 < alpha);", "return e + 1 < alpha ? static_cast<int>((alpha - e - 1) * lg_2 + 1) : static_cast<int>((alpha - e - 1) * lg_2);"),
    ("memwrap.h", "			return std::char_traits<CharType>::assign(dest, count, ch);", "			for (std::size_t i = 0; i < count; ++i)\n				dest[i] = ch;\n			return dest;"))

refactoring("literals-of-atof",
    ("krosh.h", """				while (pos < suffix.size() && (*cp == suffix[pos] || *cp == upper_suffix[pos]))
				{
					++cp;
					++pos;
				}

				if (pos == suffix.size())
					eaten = cp - str;
""", """				for (; pos < suffix.size(); ++pos)
				{
					if (cp[pos] != suffix[pos] && cp[pos] != upper_suffix[pos])
						return eaten;
				}

				eaten = static_cast<std::size_t>(cp - str) + pos;
"""),
    ("krosh.h", """				do
					++cp;
				while ((*cp >= '0' && *cp <= '9') ||
					   (*cp >= 'a' && *cp <= 'z') ||
					   (*cp >= 'A' && *cp <= 'Z') ||
						*cp == '_');

				if (*cp == ')')
					eaten = cp - str + 1;
""", """				const auto allowed = [](CharType c)
				{
					const bool digit = c >= CharType('0') && c <= CharType('9');
					const bool lower = c >= CharType('a') && c <= CharType('z');
					const bool upper = c >= CharType('A') && c <= CharType('Z');
					return digit || lower || upper || c == CharType('_');
				};

				++cp;
				while (allowed(*cp))
					++cp;

				eaten = *cp == CharType(')') ? static_cast<std::size_t>(cp - str) + 1 : eaten;
"""),
    ("krosh.h", """		for (; *str >= '0' && *str <= '9'; ++str)
		{
			// anything beyond the limit is out of range for sure
			if (ret.value < maximum_exponent)
				ret.value = ret.value * 10 + static_cast<int>(*str - '0');

			ret.str_end = str + 1;
		}

		if (negative)
			ret.value = -ret.value;
""", """		const CharType* const digits = str;
		int magnitude(0);

		while (*str >= '0' && *str <= '9')
		{
			const int digit(static_cast<int>(*str++ - '0'));

			// anything beyond the limit is out of range for sure
			magnitude = magnitude < 100000 ? magnitude * 10 + digit : magnitude;
		}

		if (str != digits)
		{
			ret.str_end = str;
			ret.value = negative ? -magnitude : magnitude;
		}
"""))

refactoring("more-fallbacks", ("krosh.h", "constexpr unsigned int truncation_error(10);", "constexpr unsigned int truncation_error(24);"))

refactoring("string-buffer",
    ("ftoa.h", """		std::basic_string<CharType> result(max_buffer_size<FloatType>(), CharType());

		ftoa(v, &result.front());

		result.resize(std::char_traits<CharType>::length(result.data()));
		result.shrink_to_fit();

		return result;
""", """		CharType buffer[max_buffer_size<FloatType>()];

		const std::size_t length = ftoa(v, buffer);

		return std::basic_string<CharType>(buffer, buffer + length);
"""))

refactoring("out-of-range-helper",
    ("krosh.h", """	/** \\brief Implements **Krosh** algorithm.
""", """	template<typename FloatType, typename CharType> inline krosh_result<FloatType, CharType> out_of_range(int K, bool positive, const CharType* str_end) noexcept
	{
		constexpr int certain_underflow(std::numeric_limits<FloatType>::min_exponent10 - std::numeric_limits<FloatType>::max_digits10);
		const bool large(K > powers_ten<FloatType>::boundaries.second);

		krosh_result<FloatType, CharType> ret;
		ret.str_end = str_end;
		ret.status = large ? conversion_status::overflow : conversion_status::underflow;
		ret.is_accurate = large || K + static_cast<int>(decimal_q<FloatType>) <= certain_underflow;

		const FloatType magnitude(large ? huge_value<FloatType>() : FloatType(0));
		ret.value = positive ? magnitude : -magnitude;

		return ret;
	}

	/** \\brief Implements **Krosh** algorithm.
"""),
    ("krosh.h", """				const bool b1 = mp.K >= powers_ten<FloatType>::boundaries.first;
				const bool b2 = mp.K <= powers_ten<FloatType>::boundaries.second;

				if (b1 && b2)
				{
					w *= cached_power<FloatType>(mp.K);
				}
				else
				{
					ret.is_accurate = true;

					if (!b1)
					{
						// value of the longest mantissa can still be above the smallest subnormal
						constexpr int certain_underflow(std::numeric_limits<FloatType>::min_exponent10 - std::numeric_limits<FloatType>::max_digits10);

						ret.value = FloatType(0);
						ret.status = conversion_status::underflow;
						ret.is_accurate = mp.K + static_cast<int>(decimal_q<FloatType>) <= certain_underflow;
					}
					else // !b2
					{
						ret.value = huge_value<FloatType>();
						ret.status = conversion_status::overflow;
					}

					if (!mp.sign)
						ret.value = -ret.value;

					ret.str_end = ep.str_end;

					return ret;
				}
""", """				if (mp.K < powers_ten<FloatType>::boundaries.first || mp.K > powers_ten<FloatType>::boundaries.second)
					return out_of_range<FloatType>(mp.K, mp.sign, ep.str_end);

				w *= cached_power<FloatType>(mp.K);
"""))

refactoring("errno-guard",
    ("atof.h", """				const int saved_errno(errno);
				errno = 0;

				result.value = fallback_func(str, str_end);
				result.status = check_errno(result.value);

				if (result.status == conversion_status::success)
					errno = saved_errno;

				return result;
""", """				struct guard
				{
					const int saved;
					bool restore;
					guard() noexcept : saved(errno), restore(false) { errno = 0; }
					~guard() { if (restore) errno = saved; }
				} errno_guard;

				result.value = fallback_func(str, str_end);
				result.status = check_errno(result.value);
				errno_guard.restore = result.status == conversion_status::success;

				return result;
"""))

refactoring("exponent-and-payload",
    ("krosh.h", """		if (*str != 'e' && *str != 'E')
			return ret;

		++str;

		const bool negative(*str == '-');

		if (negative || *str == '+')
			++str;

		// exponent without digits is not a part of the representation
		for (; *str >= '0' && *str <= '9'; ++str)
		{
			// anything beyond the limit is out of range for sure
			if (ret.value < maximum_exponent)
				ret.value = ret.value * 10 + static_cast<int>(*str - '0');

			ret.str_end = str + 1;
		}

		if (negative)
			ret.value = -ret.value;

		return ret;
""", """		if (*str == 'e' || *str == 'E')
		{
			const CharType sign(str[1]);
			std::size_t first(1);
			first += sign == '-' || sign == '+';
			std::size_t last(first);

			long long magnitude(0);
			while (str[last] >= '0' && str[last] <= '9')
			{
				magnitude = std::min<long long>(magnitude * 10 + (str[last] - '0'), maximum_exponent * 10LL);
				++last;
			}

			if (last > first)
			{
				ret.str_end = str + last;
				ret.value = static_cast<int>(sign == '-' ? -magnitude : magnitude);
			}
		}

		return ret;
"""),
    ("krosh.h", """				do
					++cp;
				while ((*cp >= '0' && *cp <= '9') ||
					   (*cp >= 'a' && *cp <= 'z') ||
					   (*cp >= 'A' && *cp <= 'Z') ||
						*cp == '_');
""", """				for (++cp; ; ++cp)
				{
					const bool digit(*cp >= '0' && *cp <= '9');
					const bool letter((*cp >= 'a' && *cp <= 'z') || (*cp >= 'A' && *cp <= 'Z'));
					if (!digit && !letter && *cp != '_')
						break;
				}
"""))

refactoring("headers",
    ("ftoa.h", "#include <floaxie/grisu.h>\n#include <floaxie/prettify.h>", "#include <floaxie/prettify.h>\n#include <floaxie/grisu.h>"),
    ("cached_power.h", """		assert(k >= -static_cast<int>(powers_ten<FloatType>::pow_0_offset));

		const std::size_t index = powers_ten<FloatType>::pow_0_offset + k;

		return diy_fp<FloatType>(powers_ten<FloatType>::f[index], powers_ten<FloatType>::e[index]);
""", """		typedef powers_ten<FloatType> table;

		const std::ptrdiff_t offset = static_cast<std::ptrdiff_t>(table::pow_0_offset);
		assert(k + offset >= 0);

		return { table::f[offset + k], static_cast<typename diy_fp<FloatType>::exponent_storage_type>(table::e[offset + k]) };
"""))

refactoring("grown-vector", ("krosh.h", "		parsed_digits.reserve(kappa);\n", ""))

refactoring("digits-in-string",
    ("krosh.h", "		std::vector<unsigned char> parsed_digits;\n", "		std::basic_string<char> parsed_digits;\n"),
    ("krosh.h", "#include <vector>\n", "#include <string>\n#include <iterator>\n#include <sstream>\n"))

refactoring("parse-in-parts",
    ("krosh.h", """	/** \\brief Unified method to extract and parse digits in one pass.
""", """	template<typename CharType> constexpr bool is_decimal(CharType c) noexcept
	{
		return c >= CharType('0') && c <= CharType('9');
	}

	template<typename CharType> inline std::size_t eat_special(const CharType* str, speciality& kind) noexcept
	{
		std::size_t eaten(0);

		if (*str == 'n' || *str == 'N')
		{
			eaten = eat_nan(str + 1);
			kind = eaten ? speciality::nan : speciality::no;
		}
		else if (*str == 'i' || *str == 'I')
		{
			eaten = eat_inf(str + 1);
			kind = eaten ? speciality::inf : speciality::no;
		}
		else
		{
			kind = speciality::no;
			return 0;
		}

		return eaten + 1;
	}

	/** \\brief Unified method to extract and parse digits in one pass.
"""),
    ("krosh.h", """		bool go_to_beach(false);
		std::size_t pos(0);

		while(!go_to_beach)
		{
			const auto c = str[pos];
			switch (c)
			{
			case '0':
				digits_found = true;
				if (!parsed_digits.empty() || dot_set)
				{
					++zero_substring_length;
					pow_gain += !dot_set;
				}
				break;

			case '1':
			case '2':
			case '3':
			case '4':
			case '5':
			case '6':
			case '7':
			case '8':
			case '9':
				digits_found = true;
""", """		std::size_t pos(0);

		if (*str == '-' || *str == '+')
		{
			ret.sign = *str == '+';
			pos = 1;
		}

		const std::size_t special_length = eat_special(str + pos, ret.special);
		pos += special_length;

		for (; !special_length && pos <= maximum_offset + 1; ++pos)
		{
			const auto c = str[pos];

			if (c == '.' && !dot_set)
			{
				dot_set = true;
				continue;
			}

			if (!is_decimal(c))
				break;

			digits_found = true;

			if (c == '0')
			{
				if (!parsed_digits.empty() || dot_set)
				{
					++zero_substring_length;
					if (!dot_set)
						++pow_gain;
				}
			}
			else
			{
"""),
    ("krosh.h", """					pow_gain += !dot_set;
				}
				break;

			case '.':
				go_to_beach = dot_set;
				dot_set = true;
				break;

			case 'n':
			case 'N':
				if (pos == sign_set)
				{
					const std::size_t eaten = eat_nan(str + pos + 1);
					pos += eaten + 1;

					if (eaten)
						ret.special = speciality::nan;
				}

				go_to_beach = true;
				break;

			case 'i':
			case 'I':
				if (pos == sign_set)
				{
					const std::size_t eaten = eat_inf(str + pos + 1);
					pos += eaten + 1;

					if (eaten)
						ret.special = speciality::inf;
				}

				go_to_beach = true;
				break;

			case '-':
			case '+':
				if (pos == 0)
				{
					ret.sign = static_cast<bool>('-' - c); // '+' => true, '-' => false
					sign_set = true;
					break;
				}
				// fall through

			default:
				go_to_beach = true;
				break;
			}

			go_to_beach |= pos > maximum_offset;

			++pos;
		}

		std::size_t pow(0);""", """					pow_gain += !dot_set;
				}
			}
		}

		std::size_t pow(0);"""),
    ("krosh.h", "		bool sign_set(false);\n", ""),
    ("krosh.h", "		ret.str_end = str + (pos - 1);\n", "		ret.str_end = str + std::min<std::size_t>(pos, special_length ? pos : maximum_offset + 1);\n"))

refactoring("local-text",
    ("ftoa.h", """			*buffer = '-';
			buffer += v < 0;

""", """			const bool negative = v < 0;
			if (negative)
				*buffer++ = '-';

"""),
    ("ftoa.h", """			int len, K;

			grisu2<alpha, gamma>(v, buffer, &len, &K);
			return (v < 0) + prettify<decimal_scientific_threshold>(buffer, len, K);
""", """			int len(0), K(0);
			CharType text[max_buffer_size<FloatType>()] = {};

			grisu2<alpha, gamma>(v, text, &len, &K);
			const std::size_t length = prettify<decimal_scientific_threshold>(text, static_cast<unsigned int>(len), K);

			for (std::size_t i = 0; i <= length; ++i)
				buffer[i] = text[i];

			return length + (negative ? 1 : 0);
"""))

refactoring("result-constructors",
    ("atof.h", """		FloatType value;
		/** \\brief Conversion status indicating any problems occurred. */
		conversion_status status;

		/** \\brief Constructs the object with empty value and successful status. */
		value_and_status() noexcept : value(), status(conversion_status::success) { }
""", """		FloatType value = FloatType();
		/** \\brief Conversion status indicating any problems occurred. */
		conversion_status status = conversion_status::success;

		value_and_status() noexcept = default;
		value_and_status(FloatType v, conversion_status s) noexcept : value(v), status(s) { }
"""),
    ("atof.h", """		if (cr.str_end != str)
		{
			if (cr.is_accurate)
			{
				result.value = cr.value;
				result.status = cr.status;
			}
			else
			{
""", """		const bool consumed(str != cr.str_end);

		if (consumed && cr.is_accurate)
			result = value_and_status<FloatType>(cr.value, cr.status);
		else if (consumed)
		{
			{
"""))

refactoring("debug-print-by-loop",
    ("print.h", """		return std::bitset<bit_size<NumericType>()>(v).to_string();
""", """		std::string bits(bit_size<NumericType>(), '0');
		for (std::size_t i = 0; i < bits.size(); ++i)
			if ((static_cast<std::uint64_t>(v) >> (bits.size() - 1 - i)) & 1u)
				bits[i] = '1';
		return bits;
"""),
    ("print.h", """		auto s(std::bitset<64>(type_punning_cast<std::uint64_t>(f)).to_string());
		s.insert(1, 1, ' ');
		s.insert(13, 1, ' ');
		return s;
""", """		const std::string s(std::bitset<64>(type_punning_cast<std::uint64_t>(f)).to_string());
		return s.substr(0, 1) + ' ' + s.substr(1, 11) + ' ' + s.substr(12);
"""),
    ("print.h", """		auto s(std::bitset<64>(v).to_string());
		s.insert(1, 1, ' ');
		s.insert(54, 1, ' ');
		s.insert(56, 1, ' ');
		return s;
""", """		std::string s;
		for (int i = 63; i >= 0; --i)
		{
			s += (static_cast<std::uint64_t>(v) >> i) & 1u ? '1' : '0';
			if (i == 63 || i == 11 || i == 10)
				s += ' ';
		}
		return s;
"""))

refactoring("boundaries-otherwise",
    ("diy_fp.h", """			std::pair<diy_fp, diy_fp> result;
			diy_fp &mi(result.first), &pl(result.second);
			pl = diy_fp(d);
			mi = pl;

			pl.m_f <<= 1;
			pl.m_f += 1;

			pl.m_e  -= 1;


			pl.normalize_from_ieee754(); // as we increase precision of IEEE-754 type by 1

			const unsigned char shift_amount(1 + (mi.m_f == hidden_bit()));

			mi.m_f <<= shift_amount;
			mi.m_f -= 1;
			mi.m_e -= shift_amount;

			mi.m_f <<= mi.m_e - pl.m_e;
			mi.m_e = pl.m_e;

			return result;
""", """			const diy_fp v(d);

			diy_fp upper(2 * v.m_f + 1, v.m_e - 1);
			upper.normalize();

			const bool power_of_two = v.m_f == hidden_bit();
			const mantissa_storage_type scaled = power_of_two ? 4 * v.m_f - 1 : 2 * v.m_f - 1;
			const exponent_storage_type exponent = v.m_e - (power_of_two ? 2 : 1);

			const diy_fp lower(scaled << (exponent - upper.m_e), upper.m_e);

			return std::pair<diy_fp, diy_fp>(lower, upper);
"""),
    ("diy_fp.h", """			if (m_f < std::numeric_limits<diy_fp::mantissa_storage_type>::max())
			{
				++m_f;
			}
			else
			{
				m_f >>= 1;
				++m_f;
				++m_e;
			}
			return *this;
""", """			if (++m_f == 0)
			{
				m_f = msb_value<mantissa_storage_type>();
				++m_e;
			}

			return *this;
"""),
    ("static_pow.h", """		typedef make_integer_array<typename pow_sequencer<T, base, max_pow>::sequence_type> maker;
		constexpr typename maker::type arr(maker::value);

		return arr[pow];
""", """		T result(1);
		while (pow--)
			result *= base;

		return result;
"""))

refactoring("powers-by-loop",
    ("static_pow.h", """		static_assert(base > 0, "Base should be positive");
		return static_pow_helper<base, pow>::value;
""", """		static_assert(base > 0, "Base should be positive");

		unsigned int r(1);

		for (unsigned int i = 0; i < pow; ++i)
			r *= base;

		return r;
"""),
    ("static_pow.h", """		typedef make_integer_array<typename pow_sequencer<T, base, max_pow>::sequence_type> maker;
		constexpr typename maker::type arr(maker::value);

		return arr[pow];
""", """		T r(1);

		while (pow--)
			r *= base;

		return r;
"""))

refactoring("fraction-by-halves",
    ("fraction.h", """		return fraction_converter<T, decimal_digits, binary_digits, 1>::convert(decimal_numerator);
""", """		T r(0);
		T denominator(2);

		for (std::size_t i = 0; i < binary_digits; ++i, denominator *= 2)
		{
			const T weight(static_cast<T>(static_pow<10, decimal_digits>()) / denominator);
			r <<= 1;

			if (decimal_numerator >= weight)
			{
				decimal_numerator -= weight;
				r |= 1;
			}
		}

		return r;
"""))

refactoring("limits-and-bytes",
    ("huge_val.h", "		return HUGE_VALF;", "		return std::numeric_limits<float>::infinity();"),
    ("huge_val.h", "		return HUGE_VAL;", "		return std::numeric_limits<double>::infinity();"),
    ("type_punning_cast.h", "		std::memcpy(&to, &x, sizeof(T));\n", """		const unsigned char* const from(reinterpret_cast<const unsigned char*>(&x));
		unsigned char* const bytes(reinterpret_cast<unsigned char*>(&to));

		for (std::size_t i = 0; i < sizeof(T); ++i)
			bytes[i] = from[i];

"""),
    ("k_comp.h", "		return (alpha - e - 1) * lg_2 + (e + 1 < alpha);", """		// rounded up
		return e + 1 < alpha ? static_cast<int>((alpha - e - 1) * lg_2) + 1 : -static_cast<int>((e + 1 - alpha) * lg_2);"""),
    ("ftoa.h", """		ftoa(v, &result.front());

		result.resize(std::char_traits<CharType>::length(result.data()));
		result.shrink_to_fit();

		return result;
""", """		const std::size_t printed(ftoa(v, &result[0]));

		return std::basic_string<CharType>(result, 0, printed);
"""))

refactoring("free-of-noexcept",
    ("*", r"\) noexcept$", ")"), ("*", r"\) const noexcept$", ") const"))

def apply(tree, name):
    inc = os.path.join(tree, "include/floaxie")
    for f, old, new in R[name]:
        if f == "*":
            for h in sorted(os.listdir(inc)):
                p = os.path.join(inc, h)
                s = open(p).read()
                # file names in #include lines stay
                t = "".join(l if l.startswith("#include") else re.sub(old, new, l) for l in s.splitlines(True))
                open(p, "w").write(t)
            continue
        p = os.path.join(inc, f)
        s = open(p).read()
        if s.count(old) != 1:
            sys.exit("%s: %s: %d occurrences of %r" % (name, f, s.count(old), old[:80]))
        open(p, "w").write(s.replace(old, new))

if __name__ == "__main__":
    ap = argparse.ArgumentParser()
    ap.add_argument("names", nargs="*")
    ap.add_argument("--scale", default="0.1")
    ap.add_argument("--props")
    ap.add_argument("--jobs", default="6")
    a = ap.parse_args()
    props = a.props.split(",") if a.props else ["C%02d" % i for i in range(1, 45)]
    for name in a.names or list(R):
        scratch = tempfile.mkdtemp(prefix="refac.", dir="/tmp")
        try:
            tree = os.path.join(scratch, "repo")
            os.makedirs(tree)
            for d in ("include", "test"):
                shutil.copytree(os.path.join(REPO, d), os.path.join(tree, d))
            apply(tree, name)
            bad = build_tests(tree, scratch)
            if bad:
                print("%-22s tests: %s" % (name, bad), flush=True)
                continue
            env = dict(os.environ, VERIF_REPO=tree, VERIF_OUT=os.path.join(scratch, "out"))
            alarms = []
            for p in props:
                r = sh([sys.executable, os.path.join(VERIF, "harness/run.py"), p, "--scale", a.scale, "--jobs", a.jobs], env=env)
                if r.returncode:
                    alarms.append("%s rc=%d %s" % (p, r.returncode, " | ".join(r.stdout.strip().split("\n")[-6:])[-700:]))
            print("%-22s %s" % (name, "quiet" if not alarms else "\n  ".join([""] + alarms)), flush=True)
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
