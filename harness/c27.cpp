#include "lib.h"
using namespace pbt;
typedef __int128 i128;

template<typename F> void interval(Ctx& c)
{
	typedef std::numeric_limits<F> L;
	const F v = gen::positive<F>(c);
	c.show([&] { return oracle::describe(v); });
	const auto b = floaxie::diy_fp<F>::boundaries(v);
	const auto& lo = b.first;
	const auto& hi = b.second;
	auto str = [&] { return "M- = {" + std::to_string(lo.mantissa()) + ", " + std::to_string(lo.exponent()) + "}, M+ = {" + std::to_string(hi.mantissa()) + ", " + std::to_string(hi.exponent()) + "}"; };
	if (lo.exponent() != hi.exponent()) c.fail("exponents differ: " + str());
	const int width = sizeof(F) * 8;
	if (!(static_cast<uint64_t>(hi.mantissa()) >> (width - 1) & 1)) c.fail("upper bound is not normalised: " + str());
	// everything in units of a quarter of the spacing below v
	const F prev = std::nextafter(v, F(0));
	const F next = v == L::max() ? F(0) : std::nextafter(v, L::infinity());
	const long double up = v == L::max() ? static_cast<long double>(v) + std::ldexp(1.0L, L::max_exponent - L::digits - 1) : (static_cast<long double>(v) + static_cast<long double>(next)) / 2;
	const long double down = (static_cast<long double>(v) + static_cast<long double>(prev)) / 2;
	const long double h = std::ldexp(static_cast<long double>(hi.mantissa()), hi.exponent()), l = std::ldexp(static_cast<long double>(lo.mantissa()), lo.exponent());
	if (h != up) c.fail("upper bound is not the midpoint: " + str());
	if (v == L::min())
	{
		if (l < down || l >= static_cast<long double>(v)) c.fail("lower bound is out of the interval: " + str());
		c.label("smallest normal value");
	}
	else if (l != down) c.fail("lower bound is not the midpoint: " + str());
	int e;
	c.label(v < L::min() ? "subnormal" : std::frexp(v, &e) == F(0.5) ? "power of two" : "other");
	c.nontrivial(oracle::bits(v));
}

int main(int argc, char** argv)
{
	std::vector<Prop> p = {
		{"double", 20000000, 800000000, interval<double>, nullptr},
		{"float", 20000000, 800000000, interval<float>, nullptr},
	};
	return run(argc, argv, p,
		"random positive values (uniform bits, subnormals, around powers of two and ten, range ends, special significands), bounds compared with midpoints calculated in long double; non-trivial: every distinct value",
		{"x87 long double represents the midpoints exactly"});
}
