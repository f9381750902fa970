#include "lib.h"
using namespace pbt;

template<typename F, typename C> void specials(Ctx& c)
{
	typedef typename oracle::bits_of<F>::type B;
	typedef std::numeric_limits<F> L;
	const int mant = L::digits - 1;
	const B sign = B(1) << (sizeof(F) * 8 - 1), inf = oracle::bits(L::infinity()), payload = (B(1) << mant) - 1;
	B b;
	switch (c.draw(8))
	{
	case 0: b = inf; break;
	case 1: b = 0; break;
	default: // NaN of any payload, quiet or signalling
	{
		B p;
		switch (c.draw(4))
		{
		case 0: p = 1; break;
		case 1: p = B(1) << c.draw(mant); break;
		case 2: p = payload - static_cast<B>(c.draw(3)); break;
		default: p = static_cast<B>(c.bits()) & payload; break;
		}
		b = inf | (p ? p : 1);
		break;
	}
	case 6: // extreme finite values
		b = c.draw(2) ? static_cast<B>(inf - 1 - static_cast<B>(c.size(1000))) : static_cast<B>(1 + c.size(1000));
		break;
	case 7: b = oracle::bits(gen::positive<F>(c)); break;
	}
	if (c.draw(2)) b |= sign;
	const F v = oracle::from_bits<F>(b);
	size_t n;
	const auto w = lib::print<C>(v, &n);
	const std::string s(w.begin(), w.end());
	c.show([&] { char h[40]; std::snprintf(h, sizeof h, "bits 0x%llx -> ", (unsigned long long)b); return std::string(h) + s; });
	const B abs = b & ~sign;
	const bool neg = b & sign;
	const std::string expected = abs > inf ? "nan" : abs == inf ? (neg ? "-inf" : "inf") : abs == 0 ? "0" : "";
	if (n != w.size())
		c.fail("returned length " + std::to_string(n) + " for " + lib::show(w));
	if (!expected.empty())
	{
		if (s != expected) c.fail("printed as " + quoted(s) + " instead of " + expected);
		c.label(expected.c_str()[0] == 'n' ? "nan" : expected == "0" ? "zero" : "inf");
	}
	else
	{
		if (s == "0" || s == "-0" || s.find_first_of("nN") != std::string::npos || s.find_first_of("123456789") == std::string::npos)
			c.fail("finite non-zero value printed as " + quoted(s));
		c.label("finite");
	}
	c.nontrivial(b);
}

int main(int argc, char** argv)
{
	std::vector<Prop> p = {
		{"double char", 12000000, 300000000, specials<double, char>, nullptr},
		{"float char", 12000000, 300000000, specials<float, char>, nullptr},
		{"double wchar_t", 6000000, 100000000, specials<double, wchar_t>, nullptr},
		{"float wchar_t", 4000000, 100000000, specials<float, wchar_t>, nullptr},
		{"double char16_t", 4000000, 100000000, specials<double, char16_t>, nullptr},
		{"float char32_t", 4000000, 100000000, specials<float, char32_t>, nullptr},
		{"float char16_t", 6000000, 100000000, specials<float, char16_t>, nullptr},
		{"double char32_t", 6000000, 100000000, specials<double, char32_t>, nullptr},
	};
	return run(argc, argv, p, "NaNs of any sign and payload, infinities, zeros, extreme and other finite values; non-trivial: every distinct bit pattern", {});
}
