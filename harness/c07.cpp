#include "lib.h"
using namespace pbt;

// Expected values follow from the construction, no reference parser is involved.
template<typename F> void deep(Ctx& c)
{
	typedef std::numeric_limits<F> L;
	F lo, hi;
	gen::Decimal d;
	const auto k = c.draw(20);
	if (k == 19) { lo = 0; hi = L::denorm_min(); d = gen::expand(std::ldexp(1.0L, L::min_exponent - L::digits - 1), gen::traits<F>::exact_digits); }
	else
	{
		lo = k == 18 ? L::max() : gen::positive<F>(c);
		hi = gen::next(lo);
		d = gen::midpoint(lo);
	}
	const F even = (oracle::bits(lo) & 1) ? hi : lo;
	F expected;
	const char* what;
	const size_t room = 1700 > d.digits.size() ? 1700 - d.digits.size() : 0;
	// a change behind so many digits is smaller, than the distance of the neighbours
	const size_t least = gen::traits<F>::dig + 4;
	const size_t missing = d.digits.size() < least ? least - d.digits.size() : 0;
	switch (c.draw(4))
	{
	case 0:
		expected = even;
		what = "exactly halfway";
		break;
	case 1:
	{
		const size_t z = missing + c.size(room);
		d.digits += gen::zeros(z) + gen::digit_string(c, 1 + c.size(5)) + static_cast<char>('1' + c.draw(9));
		expected = hi;
		what = "above halfway";
		break;
	}
	case 2:
		gen::decrease(d, missing);
		{
			size_t n = c.size(room);
			d.digits += std::string(n, '9');
			d.exp10 -= static_cast<long long>(n);
			if (c.draw(2)) { const std::string t = gen::digit_string(c, c.size(10)); d.digits += t; d.exp10 -= static_cast<long long>(t.size()); }
		}
		expected = lo;
		what = "below halfway";
		break;
	default: // cut after some digit: below by the digits dropped; one more in the last place: above
	{
		if (d.digits.size() <= least) { expected = even; what = "exactly halfway"; break; }
		const size_t n = static_cast<size_t>(c.range(static_cast<int64_t>(least), static_cast<int64_t>(std::min<size_t>(d.digits.size() - 1, c.draw(2) ? 26 : 790))));
		d.exp10 += static_cast<long long>(d.digits.size() - n);
		d.digits.resize(n);
		what = "cut below halfway";
		expected = lo;
		if (c.draw(2) && d.digits.back() < '9')
		{
			++d.digits.back();
			what = "cut above halfway";
			expected = hi;
		}
		break;
	}
	}
	if (std::strcmp(what, "above halfway") == 0)
	{
		// digits were appended: the exponent refers to the last one
		const gen::Decimal m = lo == 0 ? gen::expand(std::ldexp(1.0L, L::min_exponent - L::digits - 1), gen::traits<F>::exact_digits) : gen::midpoint(lo);
		d.exp10 = m.exp10 - static_cast<long long>(d.digits.size() - m.digits.size());
	}
	const std::string s = gen::notation(c, d);
	if (s == "1" || s == "-1" || s == "+1") { c.label("generator: too long"); return; }
	c.show([&] { return quoted(s) + std::string(", ") + what + " between " + oracle::describe(lo) + " and " + oracle::describe(hi); });
	if (c.draw(128) == 0)
	{
		F x = oracle::exact_parse<F>(s);
		if (x != (s[0] == '-' ? -expected : expected))
			internal_error("construction is wrong: " + s + " " + what + " " + oracle::describe(lo));
	}
	if (s[0] == '-') expected = -expected;
	const auto r = lib::parse<F>(s.c_str());
	if (!oracle::same(r.value, expected))
		c.fail("parsed as " + oracle::describe(r.value) + ", expected " + oracle::describe(expected));
	if (r.consumed != static_cast<long long>(s.size()))
		c.fail("not consumed completely: " + r.str());
	c.label(what);
	if (lo < L::min()) c.label("subnormal");
	if (s.size() > 800) c.label("over 800 characters");
	c.nontrivial(hash_str(s));
}

int main(int argc, char** argv)
{
	std::vector<Prop> p = {
		{"double", 3000000, 200000000, deep<double>, nullptr},
		{"float", 4000000, 200000000, deep<float>, nullptr},
	};
	return run(argc, argv, p,
		"exact midpoints of neighbouring values (incl. 0 and the smallest subnormal, and the largest value and infinity), as they are, moved up or down by a digit at any depth, or cut; any notation; non-trivial: every case",
		{"midpoints are printed exactly by glibc from long double", "1 case in 128 is cross-checked in GMP rational arithmetic"});
}
