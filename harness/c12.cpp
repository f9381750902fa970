#include "lib.h"
using namespace pbt;

template<typename F, typename C> void circle(Ctx& c)
{
	F v;
	if (c.draw(300) == 299) // infinities and NaNs
	{
		v = std::numeric_limits<F>::infinity();
		const auto k = c.draw(3);
		if (k == 1) v = -v;
		if (k == 2) v = std::numeric_limits<F>::quiet_NaN();
	}
	else
		v = gen::finite<F>(c);
	c.show([&] { return oracle::describe(v); });
	const auto s = lib::print<C>(v);
	const auto r = lib::parse<F>(s.c_str());
	const F expected = v == 0 ? F(0) : v;
	if (!oracle::same(r.value, expected) || r.status != floaxie::conversion_status::success || r.consumed != static_cast<long long>(s.size()))
		c.fail("printed as " + lib::show(s) + ", read as " + r.str());
	const auto t = lib::print<C>(r.value);
	if (t != s)
		c.fail("printed as " + lib::show(s) + ", and after reading back as " + lib::show(t));
	c.label(std::isnan(v) ? "nan" : std::isinf(v) ? "inf" : v == 0 ? "zero" : std::fabs(v) < std::numeric_limits<F>::min() ? "subnormal" : "normal");
	c.label(lib::fallback_used<F>(s.c_str()) ? "fallback" : "fast path");
	if (std::isfinite(v) && v != 0) c.nontrivial(oracle::bits(v));
}

static void enumerate(Ctx& c)
{
	const uint64_t block = c.draw(1u << 16);
	const auto step = G().thorough ? 1u : 211u;
	c.show([&] { return "floats with the upper half " + std::to_string(block); });
	for (uint64_t i = c.draw(step); i < (1u << 16); i += step)
	{
		const float v = oracle::from_bits<float>(static_cast<uint32_t>(block << 16 | i));
		if (!std::isfinite(v) || v == 0) continue;
		char b[64];
		floaxie::ftoa(v, b);
		const auto r = lib::parse<float>(static_cast<const char*>(b));
		if (!oracle::same(r.value, v) || r.status != floaxie::conversion_status::success || b[r.consumed])
			c.fail(oracle::describe(v) + " printed as " + quoted(b) + ", read as " + r.str());
	}
	c.nontrivial(block);
}

int main(int argc, char** argv)
{
	std::vector<Prop> p = {
		{"double", 6000000, 500000000, circle<double, char>, nullptr},
		{"float", 5000000, 200000000, circle<float, char>, nullptr},
		{"double wide", 3000000, 100000000, circle<double, wchar_t>, nullptr},
		{"float wide", 3000000, 100000000, circle<float, wchar_t>, nullptr},
		{"float blocks", 16384, 65536 * 3, enumerate, nullptr},
	};
	return run(argc, argv, p,
		"random values (uniform bits, subnormals, around powers of two and ten, range ends, special significands; rarely specials), and blocks of 2^16 floats; non-trivial: finite and not zero",
		{"round trip through the library only"});
}
