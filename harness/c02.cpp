#include "lib.h"
using namespace pbt;

// exponents of any length, including those which wrap around in 8..64 bits
static std::string wild_exponent(Ctx& c)
{
	std::string s(1, c.draw(2) ? 'E' : 'e');
	const auto sg = c.draw(3);
	if (sg) s += sg == 1 ? "-" : "+";
	if (c.chance(1, 3)) s += gen::zeros(c.size(c.chance(1, 10) ? 1700 : 60));
	switch (c.draw(3))
	{
	case 0:
		return s + gen::digit_string(c, 1 + c.draw(c.draw(2) ? 12 : 60));
	case 1: // k * 2^n + small
	{
		static const int n[] = {7, 8, 15, 16, 31, 32, 33, 62, 63, 64};
		unsigned __int128 v = static_cast<unsigned __int128>(1 + c.draw(3)) << c.pick(n);
		v += 400 + c.draw(800);
		v -= 800;
		std::string d;
		for (; v; v /= 10) d.insert(d.begin(), static_cast<char>('0' + static_cast<int>(v % 10)));
		return s + (d.empty() ? "0" : d);
	}
	default:
	{
		const unsigned long long p = static_cast<unsigned long long>(std::pow(10.0, static_cast<double>(c.draw(19))));
		return s + std::to_string(p + c.draw(400));
	}
	}
}

template<typename F> std::string ends(Ctx& c)
{
	typedef std::numeric_limits<F> L;
	gen::Decimal d;
	switch (c.draw(9))
	{
	case 0: // around the largest value and the threshold of infinity
	case 1:
		d = gen::halfway<F>(c, oracle::from_bits<F>(static_cast<typename oracle::bits_of<F>::type>(oracle::bits(L::max()) - c.size(3))));
		break;
	case 2: // half of the smallest subnormal and the values above
	case 3:
	{
		const auto k = c.draw(4);
		if (k == 0 || k == 3)
		{
			d = gen::expand(std::ldexp(1.0L, L::min_exponent - L::digits - 1), gen::traits<F>::exact_digits);
			const auto m = c.draw(4);
			if (m == 1) { const size_t z = c.size(1200); d.digits += gen::zeros(z) + static_cast<char>('1' + c.draw(9)); d.exp10 -= static_cast<long long>(z) + 1; }
			if (m == 2) gen::decrease(d, 1 + c.size(1200));
			if (m == 3)
			{
				const size_t n = 1 + c.draw(std::min<size_t>(30, d.digits.size() - 1));
				d.exp10 += static_cast<long long>(d.digits.size() - n);
				d.digits.resize(n);
				if (c.draw(2) && d.digits.back() < '9') ++d.digits.back();
			}
		}
		else
			d = gen::halfway<F>(c, oracle::from_bits<F>(static_cast<typename oracle::bits_of<F>::type>(1 + c.size(5))));
		break;
	}
	case 4: // around the smallest normal value
		d = gen::halfway<F>(c, oracle::from_bits<F>(static_cast<typename oracle::bits_of<F>::type>(oracle::bits(L::min()) + static_cast<uint64_t>(c.range(-3, 3)))));
		break;
	case 5: // any digits, decades around the ends
		d.digits = gen::digit_string(c, 1 + c.size(60));
		d.exp10 = (c.draw(2) ? gen::traits<F>::min10 : gen::traits<F>::max10) + c.range(-30, 30) - static_cast<long long>(d.digits.size());
		break;
	case 6: // mantissa and exponent cancel each other
	{
		const long long z = c.range(0, 1900);
		std::string s = c.draw(2) ? "-" : "";
		const std::string m = gen::digit_string(c, 1 + c.draw(20));
		const bool small = c.draw(2);
		s += small ? "0." + gen::zeros(z) + m : m + gen::zeros(z);
		s += c.draw(2) ? "e" : "E";
		const long long want = c.draw(3) ? c.range(gen::traits<F>::min10 - 30, gen::traits<F>::max10 + 30) : c.range(-20, 20);
		const long long e = small ? z + want : want - z;
		s += std::to_string(e);
		return s;
	}
	case 7: // exponents of any length
	{
		std::string s = gen::notation(c, gen::Decimal{gen::digit_string(c, 1 + c.draw(25)), 0});
		const size_t e = s.find_first_of("eE");
		if (e != std::string::npos) s.resize(e);
		if (c.chance(1, 4)) { s = std::string(c.draw(2) ? "-" : "") + "0"; if (c.draw(2)) s += "." + gen::zeros(c.size(100)); }
		return s + wild_exponent(c);
	}
	default:
		return gen::number<F>(c);
	}
	return gen::notation(c, d);
}

template<typename F> void range(Ctx& c)
{
	const std::string s = ends<F>(c);
	c.show([&] { return quoted(s); });
	const oracle::Expected<F> x = oracle::expect<F>(s.c_str());
	if (x.scan.end != s.size() || x.scan.what != oracle::kind::number || s.size() > gen::text_limit)
	{
		c.label("generator: not a number");
		return;
	}
	if (c.draw(64) == 0 && !oracle::oracle_agrees(s, x.value, true))
		internal_error("the oracles disagree on " + s);
	for (int wide = 0; wide < 2; ++wide)
	{
		const auto r = wide ? lib::parse<F>(gen::widen<wchar_t>(s).c_str()) : lib::parse<F>(s.c_str());
		if (!oracle::same<F>(r.value, x.value) || r.status != x.status)
			c.fail(std::string(wide ? "wchar_t: " : "char: ") + "got " + r.str() + "; expected " + lib::expected(x).str());
		if (!(s.size() & 1)) break; // wide characters for a half of the cases
	}
	const char* l = x.status == floaxie::conversion_status::overflow ? "overflow" : x.status == floaxie::conversion_status::underflow ? "underflow" : x.value == 0 ? "zero" : std::fabs(x.value) < std::numeric_limits<F>::min() ? "subnormal" : "normal";
	c.label(l);
	if (x.scan.neg) c.label("negative");
	c.label(lib::fallback_used<F>(s.c_str()) ? "fallback" : "fast path");
	const F a = std::fabs(x.value);
	if (x.status != floaxie::conversion_status::success || a < std::numeric_limits<F>::min() * 1000 || a > std::numeric_limits<F>::max() / 1000)
		c.nontrivial(hash_str(s));
}

int main(int argc, char** argv)
{
	std::vector<Prop> p = {
		{"double", 5000000, 300000000, range<double>, nullptr},
		{"float", 5000000, 300000000, range<float>, nullptr},
	};
	return run(argc, argv, p,
		"texts around both ends of the range (exact, perturbed, truncated thresholds; exponents of any length and cancelling zeros); non-trivial: result is zero, infinite, or within a factor of 1000 of an end of the range",
		{"glibc strtod/strtof give the nearest value (cross-checked against from_chars and GMP on a sample)"});
}
