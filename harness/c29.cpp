#include "lib.h"
using namespace pbt;

/** Ordinal of the value in the sequence of all values. */
template<typename F> long long ordinal(F v)
{
	typedef typename oracle::bits_of<F>::type B;
	const B b = oracle::bits(v), sign = B(1) << (sizeof(F) * 8 - 1);
	return b & sign ? -static_cast<long long>(b & ~sign) : static_cast<long long>(b);
}

template<typename F> void ordered(Ctx& c)
{
	gen::Decimal a = gen::decimal<F>(c), b = a;
	while (a.digits.size() > 1 && a.digits[0] == '0') a.digits.erase(0, 1);
	b = a;
	// b is larger by a unit at some digit
	bool close = false;
	switch (c.draw(3))
	{
	case 0: // at a deep place
	{
		const size_t z = c.size(600);
		b.digits += gen::zeros(z) + gen::digit_string(c, c.size(3)) + static_cast<char>('1' + c.draw(9));
		b.exp10 -= static_cast<long long>(b.digits.size() - a.digits.size());
		close = a.digits[0] != '0' && a.digits.size() + z > static_cast<size_t>(gen::traits<F>::dig) + 1;
		break;
	}
	case 1: // one of the digits, the rest is arbitrary
	{
		const size_t p = c.draw(b.digits.size());
		if (b.digits[p] == '9') { b.digits += "1"; --b.exp10; break; }
		++b.digits[p];
		for (size_t i = p + 1; i < b.digits.size(); ++i) b.digits[i] = static_cast<char>('0' + c.draw(10));
		close = a.digits[0] != '0' && p > static_cast<size_t>(gen::traits<F>::dig) + 1;
		break;
	}
	default: // the last one
		if (b.digits.back() == '9') { b.digits += "5"; --b.exp10; }
		else ++b.digits.back();
		close = a.digits[0] != '0' && a.digits.size() > static_cast<size_t>(gen::traits<F>::dig) + 2;
		break;
	}
	const std::string sa = gen::notation(c, a, false), sb = gen::notation(c, b, false);
	if (sa.size() == 1 || sb.size() == 1) { c.label("generator: too short or too long"); return; }
	const bool neg = c.draw(2);
	const std::string ta = (neg ? "-" : "") + sa, tb = (neg ? "-" : "") + sb;
	c.show([&] { return quoted(ta) + " and " + quoted(tb); });
	const auto ra = lib::parse<F>(ta.c_str()), rb = lib::parse<F>(tb.c_str());
	const bool ok = neg ? ra.value >= rb.value : ra.value <= rb.value;
	if (!ok)
		c.fail("the smaller in magnitude is parsed as " + ra.str() + ", the larger one as " + rb.str());
	if (close && std::llabs(ordinal(ra.value) - ordinal(rb.value)) > 1)
		c.fail("more than one value apart: " + ra.str() + " and " + rb.str());
	c.label(ra.value == rb.value ? "same value" : "different values");
	if (close) c.label("closer than the spacing");
	c.nontrivial(hash_str(ta + "|" + tb));
}

int main(int argc, char** argv)
{
	std::vector<Prop> p = {
		{"double", 4000000, 250000000, ordered<double>, nullptr},
		{"float", 5000000, 250000000, ordered<float>, nullptr},
	};
	return run(argc, argv, p,
		"a random decimal number and one larger by a digit anywhere (often closer than the spacing of values, around midpoints), both in random notation and sign; non-trivial: every pair",
		{"metamorphic relation; no reference parser"});
}
