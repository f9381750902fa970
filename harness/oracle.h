// Reference semantics: the documented grammar, and correctly rounded values by
// three independent implementations (glibc, libstdc++ from_chars, GMP).
#ifndef VERIF_ORACLE_H
#define VERIF_ORACLE_H

#include <charconv>
#include <climits>
#include <cmath>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <limits>
#include <string>
#include <clocale>
#include <locale.h>
#include <cstdio>

#include <gmp.h>

#include <floaxie/conversion_status.h>

namespace oracle
{

enum class kind { none, number, inf, nan };

struct Scan
{
	kind what = kind::none;
	bool neg = false;
	bool nonzero = false;   // has a non-zero digit in the mantissa
	size_t end = 0;         // characters consumed
	size_t mantissa_end = 0;
};

template<typename C> bool is(C c, char lower) { return c == C(lower) || (lower >= 'a' && lower <= 'z' && c == C(lower - 'a' + 'A')); }
template<typename C> bool digit(C c) { return c >= C('0') && c <= C('9'); }

/** The longest valid representation at the beginning of the NUL-terminated text. */
template<typename C> Scan scan(const C* s)
{
	Scan r;
	size_t p = 0;
	if (s[p] == C('+') || s[p] == C('-'))
		r.neg = s[p++] == C('-');

	auto literal = [&](size_t at, const char* l) -> bool
	{
		for (; *l; ++l, ++at)
			if (!is(s[at], *l))
				return false;
		return true;
	};

	if (literal(p, "inf"))
	{
		r.what = kind::inf;
		r.end = r.mantissa_end = p + (literal(p, "infinity") ? 8 : 3);
		return r;
	}
	if (literal(p, "nan"))
	{
		r.what = kind::nan;
		r.end = p + 3;
		if (s[r.end] == C('('))
		{
			size_t q = r.end + 1;
			while (digit(s[q]) || (s[q] >= C('a') && s[q] <= C('z')) || (s[q] >= C('A') && s[q] <= C('Z')) || s[q] == C('_'))
				++q;
			if (s[q] == C(')'))
				r.end = q + 1;
		}
		r.mantissa_end = r.end;
		return r;
	}

	size_t digits = 0;
	bool dot = false;
	for (;; ++p)
	{
		if (digit(s[p]))
		{
			++digits;
			r.nonzero |= s[p] != C('0');
		}
		else if (s[p] == C('.') && !dot)
			dot = true;
		else
			break;
	}
	if (!digits)
		return Scan();
	r.what = kind::number;
	r.end = r.mantissa_end = p;
	if (s[p] == C('e') || s[p] == C('E'))
	{
		++p;
		if (s[p] == C('+') || s[p] == C('-'))
			++p;
		if (digit(s[p]))
		{
			while (digit(s[p]))
				++p;
			r.end = p;
		}
	}
	return r;
}

inline locale_t classic()
{
	static locale_t l = newlocale(LC_ALL_MASK, "C", nullptr);
	return l;
}

template<typename F> F libc_parse(const char* s);
template<> inline double libc_parse<double>(const char* s) { return strtod_l(s, nullptr, classic()); }
template<> inline float libc_parse<float>(const char* s) { return strtof_l(s, nullptr, classic()); }

/** Correct rounding in exact rational arithmetic. */
template<typename F> F exact_parse(const std::string& t)
{
	const Scan sc = scan(t.c_str());
	const char* s = t.c_str();
	std::string digits;
	long long e = 0;
	bool dot = false;
	size_t p = (s[0] == '+' || s[0] == '-') ? 1 : 0;
	for (; p < sc.mantissa_end; ++p)
	{
		if (s[p] == '.') { dot = true; continue; }
		digits += s[p];
		e -= dot;
	}
	const size_t nz = digits.find_first_not_of('0');
	if (nz == std::string::npos)
		return sc.neg ? -F(0) : F(0);
	digits.erase(0, nz);
	if (sc.end > sc.mantissa_end)
	{
		size_t q = sc.mantissa_end + 1;
		bool neg = false;
		if (s[q] == '+' || s[q] == '-') neg = s[q++] == '-';
		long long x = 0;
		for (; q < sc.end; ++q)
			if (x < 100000000) x = x * 10 + (s[q] - '0');
		e += neg ? -x : x;
	}
	const int prec = std::numeric_limits<F>::digits;
	const int emin = std::numeric_limits<F>::min_exponent - prec; // exponent of the last bit of subnormals
	const int emax = std::numeric_limits<F>::max_exponent - prec;
	const F inf = std::numeric_limits<F>::infinity();
	const long long top = e + (long long)digits.size();
	if (top > 400) return sc.neg ? -inf : inf;
	if (top < -400) return sc.neg ? -F(0) : F(0);

	mpz_t n, d, q, r;
	mpz_inits(n, d, q, r, nullptr);
	mpz_set_str(n, digits.c_str(), 10);
	mpz_set_ui(d, 1);
	if (e >= 0) { mpz_ui_pow_ui(q, 10, e); mpz_mul(n, n, q); }
	else mpz_ui_pow_ui(d, 10, -e);
	// find x such that n / d / 2^x has exactly prec bits
	long x = (long)mpz_sizeinbase(n, 2) - (long)mpz_sizeinbase(d, 2) - prec;
	F result = 0;
	for (;; ++x)
	{
		if (x < emin) x = emin;
		mpz_t a, b;
		mpz_init_set(a, n);
		mpz_init_set(b, d);
		if (x >= 0) mpz_mul_2exp(b, b, x); else mpz_mul_2exp(a, a, -x);
		mpz_fdiv_qr(q, r, a, b);
		if ((long)mpz_sizeinbase(q, 2) > prec)
		{
			mpz_clears(a, b, nullptr);
			continue;
		}
		// round half to even
		mpz_mul_2exp(r, r, 1);
		const int c = mpz_cmp(r, b);
		if (c > 0 || (c == 0 && mpz_odd_p(q)))
			mpz_add_ui(q, q, 1);
		mpz_clears(a, b, nullptr);
		if (x > emax)
			result = inf;
		else
		{
			uint64_t m = mpz_get_ui(q);
			result = static_cast<F>(std::ldexp(static_cast<long double>(m), static_cast<int>(x)));
		}
		break;
	}
	mpz_clears(n, d, q, r, nullptr);
	return sc.neg ? -result : result;
}

/** Order of two positive numbers, exactly: digits with an optional point and exponent. */
inline int compare_decimals(const std::string& a, const std::string& b)
{
	auto split = [](const std::string& t, long long& top)
	{
		std::string d;
		long long point = -1;
		size_t p = 0;
		for (; p < t.size() && t[p] != 'e' && t[p] != 'E'; ++p)
			if (t[p] == '.') point = static_cast<long long>(d.size());
			else d += t[p];
		top = point < 0 ? static_cast<long long>(d.size()) : point;
		if (p < t.size()) top += std::atoll(t.c_str() + p + 1);
		const size_t z = d.find_first_not_of('0');
		if (z == std::string::npos) { top = LLONG_MIN; return std::string(); }
		d.erase(0, z);
		top -= static_cast<long long>(z);
		d.resize(d.find_last_not_of('0') + 1);
		return d;
	};
	long long x, y;
	const std::string c = split(a, x), d = split(b, y);
	if (x != y) return x < y ? -1 : 1;
	const int r = c.compare(d);
	return (r > 0) - (r < 0);
}

template<typename F> struct Expected
{
	Scan scan;
	F value = 0;
	floaxie::conversion_status status = floaxie::conversion_status::success;
};

template<typename C> std::string narrow(const C* s, size_t n)
{
	std::string r(n, '\0');
	for (size_t i = 0; i < n; ++i)
		r[i] = static_cast<char>(s[i]);
	return r;
}

/** Documented result of parsing the text. */
template<typename F, typename C> Expected<F> expect(const C* s)
{
	Expected<F> e;
	e.scan = scan(s);
	switch (e.scan.what)
	{
	case kind::none:
		break;
	case kind::inf:
		e.value = std::numeric_limits<F>::infinity();
		if (e.scan.neg) e.value = -e.value;
		break;
	case kind::nan:
		e.value = std::numeric_limits<F>::quiet_NaN();
		break;
	case kind::number:
		e.value = libc_parse<F>(narrow(s, e.scan.end).c_str());
		if (std::isinf(e.value))
			e.status = floaxie::conversion_status::overflow;
		else if (e.value == 0 && e.scan.nonzero)
			e.status = floaxie::conversion_status::underflow;
		break;
	}
	return e;
}

template<typename F> struct bits_of;
template<> struct bits_of<double> { typedef uint64_t type; };
template<> struct bits_of<float> { typedef uint32_t type; };

template<typename F> typename bits_of<F>::type bits(F v)
{
	typename bits_of<F>::type b;
	std::memcpy(&b, &v, sizeof b);
	return b;
}
template<typename F> F from_bits(typename bits_of<F>::type b)
{
	F v;
	std::memcpy(&v, &b, sizeof v);
	return v;
}

/** Same bits, or both NaN. */
template<typename F> bool same(F a, F b)
{
	return (std::isnan(a) && std::isnan(b)) || bits(a) == bits(b);
}

template<typename F> std::string describe(F v)
{
	char b[96];
	std::snprintf(b, sizeof b, "%.*g (0x%llx)", std::numeric_limits<F>::max_digits10, double(v), (unsigned long long)bits(v));
	return b;
}

inline std::string status_name(floaxie::conversion_status s)
{
	return s == floaxie::conversion_status::success ? "success" : s == floaxie::conversion_status::overflow ? "overflow" : s == floaxie::conversion_status::underflow ? "underflow" : "?";
}

/** Independent cross-check of the oracle itself; false: implementations disagree. */
template<typename F> bool oracle_agrees(const std::string& number, F v, bool with_gmp)
{
	const char* b = number.c_str() + (number[0] == '+');
	F w = 0;
	const auto r = std::from_chars(b, number.c_str() + number.size(), w, std::chars_format::general);
	if (r.ec == std::errc() && !same(w, v))
		return false;
	return !with_gmp || same(exact_parse<F>(number), v);
}

}

#endif
