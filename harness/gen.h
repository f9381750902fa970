// Generators of decimal texts and floating point values.
#ifndef VERIF_GEN_H
#define VERIF_GEN_H

#include "pbt.h"
#include "oracle.h"

namespace gen
{

using pbt::Ctx;

constexpr size_t text_limit = 2048; // documented maximum length of input

struct Decimal
{
	std::string digits; // value is digits * 10^exp10
	long long exp10;
};

/** The literals of the library's sources (written by run.py): comparisons of floating point values with a constant,
 * or of a text with another one, leave no trace for the coverage-guided search. */
struct Dictionary
{
	std::vector<Decimal> numbers;
	std::vector<double> doubles;
	std::vector<float> floats;
	std::vector<std::string> texts;

	Dictionary()
	{
		const char* path = std::getenv("VERIF_DICTIONARY");
		if (!path) return;
		std::ifstream f(path);
		for (std::string t; std::getline(f, t);)
		{
			if (t.size() < 2) continue;
			const char kind = t[0];
			t.erase(0, 1);
			if (kind == '"') { texts.push_back(t); continue; }
			value(std::strtod(t.c_str(), nullptr));
			if (t.find_first_of("xX.eE") == std::string::npos || t.find_first_of("xX") == 1)
			{
				const unsigned long long b = std::strtoull(t.c_str(), nullptr, 0);
				value(oracle::from_bits<double>(b));
				if (b < 0x7f800000) value(static_cast<double>(oracle::from_bits<float>(static_cast<uint32_t>(b))));
			}
			if (t.find_first_of("xX") != std::string::npos) continue;
			Decimal d{"", 0};
			const size_t e = t.find_first_of("eE");
			const std::string m = t.substr(0, e);
			for (char ch : m) if (ch != '.') d.digits += ch;
			d.exp10 = (e == std::string::npos ? 0 : std::strtoll(t.c_str() + e + 1, nullptr, 10)) - (m.find('.') == std::string::npos ? 0 : static_cast<long long>(m.size() - 1 - m.find('.')));
			if (d.digits.size() && d.digits.size() < 400 && d.exp10 > -800 && d.exp10 < 800) numbers.push_back(d);
		}
	}
	void value(double v)
	{
		if (!(v > 0) || !std::isfinite(v)) return;
		doubles.push_back(v);
		if (v <= static_cast<double>(std::numeric_limits<float>::max()) && static_cast<float>(v) > 0) floats.push_back(static_cast<float>(v));
	}
	const std::vector<double>& values(double) const { return doubles; }
	const std::vector<float>& values(float) const { return floats; }
};

inline const Dictionary& dictionary()
{
	static const Dictionary d;
	return d;
}

inline std::string digit_string(Ctx& c, size_t n)
{
	std::string s;
	if (!n)
		return s;
	const auto mode = c.draw(8);
	s.reserve(n);
	switch (mode)
	{
	default: // uniform
		for (size_t i = 0; i < n;)
		{
			uint64_t r = c.draw(1000000000);
			for (int k = 0; k < 9 && i < n; ++k, ++i, r /= 10)
				s += static_cast<char>('0' + r % 10);
		}
		break;
	case 1: // single digit repeated
		s.assign(n, static_cast<char>('0' + c.draw(10)));
		break;
	case 2: // one non-zero digit after the first, zeros between
		s.assign(n, '0');
		s[0] = static_cast<char>('1' + c.draw(9));
		s[c.draw(n)] = static_cast<char>('1' + c.draw(9));
		break;
	case 3: // runs
	{
		while (s.size() < n)
		{
			static const char d[] = {'0', '9', '4', '5', '1'};
			const char ch = c.chance(1, 4) ? static_cast<char>('0' + c.draw(10)) : d[c.draw(5)];
			s.append(1 + c.size(24), ch);
		}
		s.resize(n);
		break;
	}
	case 4: // sparse
		s.assign(n, '0');
		for (size_t k = 1 + c.draw(5); k-- > 0;)
			s[c.draw(n)] = static_cast<char>('1' + c.draw(9));
		break;
	case 5: // zeros up to a deep end
		s.assign(n, '0');
		s[0] = static_cast<char>('1' + c.draw(9));
		s[n - 1] = static_cast<char>('1' + c.draw(9));
		break;
	case 6: // nines with a changed digit
		s.assign(n, '9');
		if (c.draw(2))
			s[c.draw(n)] = static_cast<char>('0' + c.draw(10));
		break;
	}
	return s;
}

inline std::string exponent_text(Ctx& c, long long e)
{
	std::string s(1, c.draw(2) ? 'E' : 'e');
	if (e < 0) s += '-';
	else if (c.chance(1, 3)) s += '+';
	const auto z = c.draw(16);
	if (z == 15) s.append(c.draw(40), '0');
	else if (z >= 13) s.append(z - 12, '0');
	else if (z == 12 && c.chance(1, 8)) s.append(c.size(1500), '0');
	return s + std::to_string(e < 0 ? -e : e);
}

inline std::string zeros(size_t n) { return std::string(n, '0'); }

/** Fills a text up to a length next to the limit without changing its value. */
inline void stretch(Ctx& c, std::string& s, size_t limit)
{
	const size_t want = limit - (c.draw(3) ? c.draw(3) : c.size(300));
	if (s.size() >= want)
		return;
	size_t n = want - s.size();
	const size_t sign = !s.empty() && (s[0] == '-' || s[0] == '+'), e = s.find_first_of("eE");
	const auto where = c.draw(4);
	if (where == 1 && s.find('.') != std::string::npos) // behind the fraction
		s.insert(e == std::string::npos ? s.size() : e, n, '0');
	else if (where == 2 && e != std::string::npos)
		s.insert(e + 1 + (s[e + 1] == '-' || s[e + 1] == '+'), n, '0');
	else if (where == 3 && e == std::string::npos) // all of them
	{
		const size_t k = c.draw(n);
		s.insert(sign, k, '0');
		n -= k;
		if (s.find('.') == std::string::npos && n)
		{
			s += '.';
			--n;
		}
		s.append(n, '0');
	}
	else
		s.insert(sign, n, '0');
}

/** Writes the number in a random notation; the value is always exact. */
inline std::string notation(Ctx& c, const Decimal& d, bool allow_sign = true)
{
	const size_t limit = text_limit - !allow_sign; // room for a sign
	const long long len = static_cast<long long>(d.digits.size());
	std::string sign;
	if (allow_sign)
	{
		const auto r = c.draw(6);
		sign = r == 4 ? "-" : r == 5 ? "+" : r == 3 ? "-" : "";
	}
	for (int attempt = 0; ; ++attempt)
	{
		long long p; // digits in front of the point
		switch (attempt ? 1 : c.draw(8))
		{
		case 0: p = len; break;
		case 1: p = 1; break;
		case 2: p = 0; break;
		case 3: p = c.range(0, len); break;
		case 4: p = c.range(-40, len + 40); break;
		case 5: p = c.range(-8, len + 8); break;
		case 6: p = len + d.exp10; break;
		default: p = c.draw(4) ? len + d.exp10 : c.range(-345, len + 345); break;
		}
		if (p > 1900 || p < -1900)
			continue;
		std::string s = sign;
		if (!attempt)
		{
			const auto lead = c.draw(12);
			if (lead == 11) s.append(c.draw(40), '0');
			else if (lead >= 9) s.append(lead - 8, '0');
		}
		const bool tail = !attempt && c.chance(1, 6);
		if (p <= 0)
		{
			if (c.draw(3) || (s.size() > sign.size() && s.back() != '0')) s += '0';
			s += "." + zeros(-p) + d.digits;
			if (tail) s += zeros(1 + c.draw(30));
		}
		else if (p >= len)
		{
			s += d.digits + zeros(p - len);
			if (c.chance(1, 4)) s += ".";
			if (s.back() == '.' && c.draw(2)) s += zeros(1 + c.draw(30));
		}
		else
		{
			s += d.digits.substr(0, p) + "." + d.digits.substr(p);
			if (tail) s += zeros(1 + c.draw(30));
		}
		const long long x = d.exp10 + len - p;
		if (x != 0 || c.chance(1, 12))
			s += exponent_text(c, x);
		if (s.size() <= limit || attempt > 1)
		{
			if (s.size() > limit) // too many digits given
				s = sign + "1";
			else if (c.chance(1, 150))
				stretch(c, s, limit);
			return s;
		}
	}
}

/** Exact decimal expansion of a positive value. */
inline Decimal expand(long double v, int precision)
{
	char b[1300];
	std::snprintf(b, sizeof b, "%.*Le", precision, v);
	Decimal d;
	char* e = std::strchr(b, 'e');
	d.exp10 = std::atoll(e + 1);
	d.digits.assign(1, b[0]);
	if (b[1] == '.')
		d.digits.append(b + 2, e);
	d.exp10 -= static_cast<long long>(d.digits.size()) - 1;
	size_t z = d.digits.find_last_not_of('0');
	if (z == std::string::npos) z = 0;
	d.exp10 += static_cast<long long>(d.digits.size() - z - 1);
	d.digits.resize(z + 1);
	return d;
}

template<typename F> struct traits;
template<> struct traits<double>
{
	static constexpr int exact_digits = 800, capacity = 19, kmin = -343, kmax = 343, dig = 17;
	static constexpr int min10 = -324, max10 = 308;
};
template<> struct traits<float>
{
	static constexpr int exact_digits = 130, capacity = 9, kmin = -50, kmax = 50, dig = 9;
	static constexpr int min10 = -45, max10 = 38;
};

/** Positive finite non-zero value. */
template<typename F> F positive(Ctx& c)
{
	typedef typename oracle::bits_of<F>::type B;
	typedef std::numeric_limits<F> L;
	const B max = oracle::bits(L::max()), min_normal = oracle::bits(L::min());
	const int mant = L::digits - 1;
	const B one = B(1);
	auto clamp = [&](int64_t b) -> F
	{
		if (b < 1) b = 1;
		if (b > static_cast<int64_t>(max)) b = static_cast<int64_t>(max);
		return oracle::from_bits<F>(static_cast<B>(b));
	};
	auto around = [&](B b) { return clamp(static_cast<int64_t>(b) + c.range(-3, 3)); };
	const auto mode = c.draw(50);
	switch (mode < 48 ? mode % 12 : mode)
	{
	case 48: // constants of the sources
	{
		const auto& d = dictionary().values(F());
		if (d.empty()) return F(1);
		const F v = d[c.draw(d.size())];
		switch (c.draw(6))
		{
		case 4: return around(oracle::bits(v));
		case 5:
		{
			const F w = static_cast<F>(static_cast<double>(v) * std::pow(10.0, static_cast<double>(c.range(-3, 3))));
			return w > 0 && std::isfinite(w) ? w : v;
		}
		default: return v;
		}
	}
	default:
		return clamp(static_cast<int64_t>(1 + c.draw(max)));
	case 1: // small integers and integers around the exactness limits
	{
		const auto k = c.draw(70);
		const double v = std::ldexp(1.0, static_cast<int>(k)) + static_cast<double>(c.range(-3, 3));
		return v > 0 ? static_cast<F>(v) : F(1);
	}
	case 2:
		return clamp(static_cast<int64_t>(1 + c.draw(min_normal)));
	case 3: // powers of two
		return around((one + static_cast<B>(c.draw(max >> mant))) << mant);
	case 4:
		return around(c.draw(2) ? min_normal : B(1) << c.draw(mant));
	case 5:
		return clamp(static_cast<int64_t>(max) - static_cast<int64_t>(c.size(1 << 20)));
	case 6: // powers of ten and short decimals
	{
		char b[64];
		std::snprintf(b, sizeof b, "%llue%d", (unsigned long long)(1 + c.size(100000)), (int)c.range(traits<F>::min10, traits<F>::max10));
		const F v = oracle::libc_parse<F>(b);
		return std::isfinite(v) && v > 0 ? around(oracle::bits(v)) : F(1);
	}
	case 7: // special mantissas
	{
		B m = 0;
		switch (c.draw(4))
		{
		case 0: m = (one << mant) - 1 - static_cast<B>(c.draw(4)); break;
		case 1: m = static_cast<B>(c.draw(4)); break;
		case 2: m = one << c.draw(mant); break;
		default: m = ((one << mant) - 1) & ~((one << c.draw(mant)) - 1); break;
		}
		return clamp(static_cast<int64_t>((static_cast<B>(c.draw((max >> mant) + 1)) << mant) | m));
	}
	case 8: // moderate magnitudes
		return static_cast<F>(std::ldexp(static_cast<double>(1 + c.draw((one << mant) * 2 - 1)), static_cast<int>(c.range(-mant - 30, 10))));
	case 9: // currency like
		return static_cast<F>(static_cast<double>(1 + c.size(1000000000)) / std::pow(10.0, static_cast<double>(c.draw(10))));
	}
}

/** Any finite value, any sign (zeros included rarely). */
template<typename F> F finite(Ctx& c)
{
	if (c.draw(400) == 399)
		return c.draw(2) ? F(-0.0) : F(0);
	const F v = positive<F>(c);
	return c.draw(2) ? -v : v;
}

template<typename F> F next(F v) { return std::nextafter(v, std::numeric_limits<F>::infinity()); }

/** Midpoint between v and the next larger value. */
template<typename F> Decimal midpoint(F v)
{
	long double m;
	if (v == std::numeric_limits<F>::max())
		m = static_cast<long double>(v) + std::ldexp(1.0L, std::numeric_limits<F>::max_exponent - std::numeric_limits<F>::digits - 1);
	else
		m = (static_cast<long double>(v) + static_cast<long double>(next(v))) / 2;
	return expand(m, traits<F>::exact_digits);
}

/** d with the digits' last unit decreased (as a number slightly below d). */
inline void decrease(Decimal& d, size_t nines)
{
	// digits end with a non-zero digit
	d.digits.back() = static_cast<char>(d.digits.back() - 1);
	d.digits.append(nines, '9');
	d.exp10 -= static_cast<long long>(nines);
	if (d.digits[0] == '0' && d.digits.size() > 1)
		d.digits.erase(0, 1);
}

/** Halfway cases: exact, moved by a deep digit, truncated. */
template<typename F> Decimal halfway(Ctx& c, F v)
{
	Decimal d = midpoint(v);
	switch (c.draw(5))
	{
	case 0:
		break;
	case 1: // above, at any depth
	{
		const size_t z = c.size(1200);
		d.digits += zeros(z) + static_cast<char>('1' + c.draw(9));
		d.exp10 -= static_cast<long long>(z) + 1;
		break;
	}
	case 2: // below, at any depth
		decrease(d, 1 + c.size(1200));
		break;
	case 3: // truncated (below), rounded up (above)
	{
		const size_t n = 1 + c.draw(std::min<size_t>(d.digits.size(), c.draw(3) ? 24 : 800));
		if (n < d.digits.size())
		{
			d.exp10 += static_cast<long long>(d.digits.size() - n);
			d.digits.resize(n);
			if (c.draw(2) && d.digits.back() < '9')
				++d.digits.back();
		}
		break;
	}
	default: // a digit changed
	{
		const size_t p = c.draw(std::min<size_t>(d.digits.size(), 40));
		d.digits[p] = static_cast<char>((p == 0 ? '1' : '0') + c.draw(p == 0 ? 9 : 10));
		break;
	}
	}
	return d;
}

/** Number with digits arranged around the capacity of the mantissa. */
template<typename F> Decimal around_capacity(Ctx& c)
{
	const int cap = traits<F>::capacity;
	Decimal d;
	const auto n = static_cast<size_t>(c.range(cap - 3, cap + 1));
	if (c.chance(1, 6)) // integer part around a power of two or its half steps: carries run through all bits
	{
		const int top = cap == 19 ? 63 : 29;
		uint64_t v = uint64_t(1) << (top - static_cast<int>(c.draw(9)));
		if (c.draw(3) == 0) v |= v >> (1 + c.draw(3));
		if (c.draw(2)) v -= uint64_t(1) << c.draw(top - 10);
		v += static_cast<uint64_t>(c.range(-4, 4));
		d.digits = std::to_string(v);
	}
	else
		d.digits = digit_string(c, n);
	if (d.digits[0] == '0') d.digits[0] = static_cast<char>('1' + c.draw(9));
	if (c.chance(1, 2))
	{
		static const char* tails[] = {"", "0", "00", "000", "0000", "4", "49", "4999", "5", "50", "5000", "50001", "5001", "9", "99", "9999", "99999", "0001", "00001", "000001", "1", "01", "001", "0999", "00999"};
		d.digits += c.pick(tails);
	}
	if (c.chance(1, 3)) d.digits += zeros(c.size(60));
	if (c.chance(1, 2)) d.digits += digit_string(c, 1 + c.size(40));
	d.exp10 = c.range(traits<F>::kmin - 10, traits<F>::kmax + 10) - c.range(0, static_cast<int64_t>(d.digits.size()));
	if (c.chance(1, 3))
		d.exp10 = c.range(-30, 30) - static_cast<int64_t>(d.digits.size()) / 2;
	return d;
}

/** Any finite decimal number. */
template<typename F> Decimal decimal(Ctx& c)
{
	Decimal d;
	const auto mode = c.draw(73);
	if (mode == 72) // constants of the sources
	{
		const auto& n = dictionary().numbers;
		if (n.empty()) return Decimal{"1", 0};
		d = n[c.draw(n.size())];
		if (c.draw(4) == 0) d.exp10 += c.range(-20, 20);
		if (c.draw(4) == 0) { const size_t k = c.size(30); d.digits += digit_string(c, k); d.exp10 -= static_cast<long long>(k); }
		return d;
	}
	switch (mode % 12)
	{
	case 0: // short number
		d.digits = digit_string(c, 1 + c.draw(6));
		d.exp10 = c.range(-8, 8);
		break;
	default:
		d.digits = digit_string(c, 1 + c.draw(22));
		d.exp10 = c.range(traits<F>::min10, traits<F>::max10) - static_cast<long long>(d.digits.size()) + 1;
		break;
	case 2: // exponents around the range of cached powers and beyond
	{
		static const int off[] = {0, 0, 0, 1};
		d.digits = digit_string(c, 1 + c.size(40));
		const bool low = c.draw(2);
		d.exp10 = (low ? traits<F>::kmin : traits<F>::kmax) + c.range(-25, 25);
		if (c.pick(off)) d.exp10 = c.range(-5000, 5000);
		break;
	}
	case 3: // around the ends of the range
	{
		d = around_capacity<F>(c);
		d.exp10 = (c.draw(2) ? traits<F>::min10 : traits<F>::max10) - static_cast<long long>(d.digits.size()) + 1 + c.range(-4, 4);
		break;
	}
	case 4: // long
		d.digits = digit_string(c, 1 + c.draw(1500));
		d.exp10 = c.range(traits<F>::min10, traits<F>::max10) - static_cast<long long>(d.digits.size()) + 1;
		break;
	case 5:
		return around_capacity<F>(c);
	case 6:
	case 7:
		return halfway<F>(c, positive<F>(c));
	case 8: // halfway between integers beyond the mantissa, cheap
	{
		const uint64_t m = c.draw(uint64_t(1) << std::min(62, std::numeric_limits<F>::digits + 2));
		const int sh = static_cast<int>(c.draw(64 - std::numeric_limits<F>::digits - 2));
		d.digits = std::to_string((m << sh) + static_cast<uint64_t>(c.range(0, 2)));
		d.exp10 = 0;
		break;
	}
	case 9: // written value, with some precision
	{
		const F v = positive<F>(c);
		const int prec = static_cast<int>(c.draw(c.draw(4) ? 22 : 120));
		d = expand(v, prec);
		if (c.draw(3) == 0) d.digits += zeros(c.draw(20)), d.exp10 -= 0;
		break;
	}
	case 10: // the ends of the range, exactly
	{
		typedef std::numeric_limits<F> L;
		const F v = c.draw(3) == 0 ? L::max() : c.draw(2) ? L::denorm_min() : L::min();
		if (c.draw(3) == 0) // half of the smallest subnormal
		{
			d = expand(std::ldexp(1.0L, L::min_exponent - L::digits - 1), traits<F>::exact_digits);
			if (c.draw(2)) { const size_t z = c.size(1000); d.digits += zeros(z) + "1"; d.exp10 -= static_cast<long long>(z) + 1; }
			else if (c.draw(2)) decrease(d, 1 + c.size(1000));
			if (c.draw(2) && d.digits.size() > 25)
			{
				const size_t n = 1 + c.draw(24);
				d.exp10 += static_cast<long long>(d.digits.size() - n);
				d.digits.resize(n);
				if (c.draw(2) && d.digits.back() < '9') ++d.digits.back();
			}
		}
		else
			d = halfway<F>(c, v);
		break;
	}
	}
	return d;
}

/** Accepted finite decimal text, at most `text_limit` characters. */
template<typename F> std::string number(Ctx& c)
{
	switch (c.draw(24))
	{
	case 22: // exponent of any length
	{
		std::string s = notation(c, Decimal{digit_string(c, 1 + c.draw(25)), 0});
		const size_t e = s.find_first_of("eE");
		if (e != std::string::npos) s.resize(e);
		if (s.size() > 200) s = "7.25";
		s += c.draw(2) ? "e" : "E";
		const auto sg = c.draw(3);
		if (sg) s += sg == 1 ? "-" : "+";
		s += zeros(c.size(c.chance(1, 10) ? 1800 : 30)) + digit_string(c, 1 + c.size(c.chance(1, 10) ? 180 : 40));
		return s;
	}
	case 23: // zero in some form
	{
		std::string s = c.draw(3) == 0 ? "-" : "";
		s += zeros(c.size(30));
		if (c.draw(2)) { s += "." + zeros(c.size(30)); }
		if (s.empty() || s == "-" || s == "." || s == "-.") s += "0";
		if (c.draw(2)) s += exponent_text(c, c.range(-400, 400));
		return s;
	}
	default:
		return notation(c, decimal<F>(c));
	}
}

template<typename C> std::basic_string<C> widen(const std::string& s)
{
	std::basic_string<C> r;
	r.reserve(s.size());
	for (char ch : s)
		r.push_back(static_cast<C>(static_cast<unsigned char>(ch)));
	return r;
}

/** Special literal in any spelling. */
inline std::string special(Ctx& c)
{
	static const char* forms[] = {"inf", "nan", "infinity", "nan(", "infinit", "infini", "infin", "infi", "in", "na", "i", "n", "infinityy", "nann", "nan()", "nan(12", "nan_", "inff"};
	std::string s = c.pick(forms);
	if (s == "nan(" && c.draw(3))
	{
		static const char set[] = "0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_";
		const bool deep = c.chance(1, 20);
		for (size_t n = deep && c.draw(3) == 0 ? 2043 - c.draw(3) : c.size(deep ? 1900 : 40); n-- > 0;)
			s += set[c.draw(sizeof set - 1)];
		if (c.chance(1, 5)) s += static_cast<char>(c.range(1, 126));
		if (c.chance(4, 5)) s += ')';
	}
	for (char& ch : s)
		if (ch >= 'a' && ch <= 'z' && c.draw(2))
			ch = static_cast<char>(ch - 32);
	const auto r = c.draw(6);
	return std::string(r == 4 ? "-" : r == 5 ? "+" : "") + s;
}

/** A few characters out of those which matter for the grammar. */
inline std::string soup(Ctx& c, size_t n)
{
	static const char set[] = "0123456789..eE+-0123456789nNaAiIfFtTyY()_ ,xXpP\t\n\x7f\xff\x80/:";
	std::string s;
	while (n-- > 0)
		s += set[c.draw(sizeof set - 1)];
	return s;
}

/** Arbitrary text without NUL: valid numbers, mutilated ones, garbage. */
template<typename F> std::string text(Ctx& c)
{
	std::string s;
	const auto mode = c.draw(97);
	if (mode == 96) // strings of the sources
	{
		const auto& d = dictionary().texts;
		static const char* before[] = {"", "", "", "-", "+", "0", "1"};
		s = c.pick(before);
		if (!d.empty()) s += d[c.draw(d.size())];
		for (char& ch : s)
			if (((ch >= 'a' && ch <= 'z') || (ch >= 'A' && ch <= 'Z')) && c.draw(6) == 5)
				ch ^= 32;
		if (c.draw(3) == 2) s += c.draw(2) ? soup(c, c.size(6)) : number<F>(c);
		if (s.size() > text_limit)
			s.resize(text_limit);
		return s;
	}
	switch (mode % 8)
	{
	case 0:
		return soup(c, c.size(30));
	case 1:
		for (size_t n = c.size(40); n-- > 0;)
			s += static_cast<char>(1 + c.draw(255));
		return s;
	case 2:
		s = special(c);
		if (c.draw(2)) s += soup(c, c.size(6));
		return s;
	case 3: // number with edits
		s = number<F>(c);
		for (size_t n = 1 + c.draw(4); n-- > 0 && !s.empty();)
		{
			const size_t p = c.draw(s.size());
			switch (c.draw(4))
			{
			case 0: s.erase(p, 1); break;
			case 1: s.insert(p, soup(c, 1)); break;
			case 2: s.replace(p, 1, soup(c, 1)); break;
			default: s.resize(p); break;
			}
		}
		break;
	case 4: // number and a tail
		s = number<F>(c) + soup(c, c.size(12));
		break;
	case 5: // something before it
		s = soup(c, 1 + c.draw(3)) + number<F>(c);
		break;
	case 6: // incomplete exponents
	{
		s = number<F>(c);
		const size_t e = s.find_first_of("eE");
		if (e != std::string::npos) s.resize(e);
		static const char* tails[] = {"e", "E", "e+", "e-", "E+", "e.", "e 5", "e+-5", "e--5", "ee5", "e5.5", "e+5-", "e5e5", "e5+5", "e0x", "e+ 5"};
		s += c.pick(tails);
		break;
	}
	default:
		s = number<F>(c);
		break;
	}
	if (s.size() > text_limit)
		s.resize(text_limit);
	return s;
}

}

#endif
