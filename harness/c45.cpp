// The two types tell the same of a text, and of a value both of them hold.
#include "lib.h"
using namespace pbt;

/** Halfway between two neighbouring floats (or at the border of overflow). */
static bool between_floats(double x)
{
	const double a = std::fabs(x);
	if (!(a < 3.5e38)) return false;
	if (a == 0x1.ffffffp127) return true;
	// a unit of the last bit of a float of that size
	int e;
	std::frexp(a, &e);
	const double unit = std::ldexp(1.0, std::max(e - 24, -149));
	const double r = std::fmod(a, unit);
	return r == unit / 2;
}

template<typename C> void texts(Ctx& c)
{
	const std::string s = c.draw(6) == 0 ? gen::text<double>(c) : c.draw(2) ? gen::number<float>(c) : gen::number<double>(c);
	c.show([&] { return quoted(s); });
	const auto w = gen::widen<C>(s);
	const auto f = lib::parse<float>(w.c_str());
	const auto d = lib::parse<double>(w.c_str());
	if (f.consumed != d.consumed)
		c.fail("as float, " + std::to_string(f.consumed) + " characters are consumed, as double " + std::to_string(d.consumed));
	if (std::isnan(f.value) != std::isnan(d.value))
		c.fail("as float: " + f.str() + ", as double: " + d.str());
	if (std::isnan(d.value)) { c.label("nan"); return; }
	if (std::signbit(f.value) != std::signbit(d.value))
		c.fail("of different signs: as float: " + f.str() + ", as double: " + d.str());
	const float n = static_cast<float>(d.value);
	if (between_floats(d.value))
	{
		const float other = std::fabs(d.value) > std::fabs(n) ? std::nextafterf(n, std::copysign(HUGE_VALF, n)) : std::nextafterf(n, 0.f);
		if (!oracle::same(f.value, n) && f.value != other)
			c.fail("between two floats, " + oracle::describe(n) + " and " + oracle::describe(other) + ", but as float: " + f.str());
		c.label("between two floats");
	}
	else if (!oracle::same(f.value, n))
		c.fail("as double: " + d.str() + ", which is " + oracle::describe(n) + " as a float, but as float: " + f.str());
	typedef floaxie::conversion_status S;
	if (d.status == S::overflow && f.status != S::overflow)
		c.fail("overflow as double, but not as float: " + f.str());
	if (d.status == S::underflow && f.status != S::underflow)
		c.fail("underflow as double, but not as float: " + f.str());
	if (d.status == S::success && std::isfinite(d.value))
	{
		const S x = std::isinf(f.value) ? S::overflow : f.value == 0 && d.value != 0 ? S::underflow : S::success;
		if (f.status != x)
			c.fail("as double: " + d.str() + ", as float: " + f.str());
	}
	c.label(f.status == S::success ? d.status == S::success ? "in range of both" : "in range of float only" : d.status == S::success ? "in range of double only" : "out of both ranges");
	if (d.consumed > 2) c.nontrivial(hash_str(s));
}

template<typename C> void values(Ctx& c)
{
	float v = gen::finite<float>(c);
	if (c.draw(8) == 0) v = std::ldexp(static_cast<float>(c.draw(1 << 24)), -static_cast<int>(c.draw(30)));
	c.show([&] { return oracle::describe(v); });
	const auto narrow = lib::print<C>(v), wide = lib::print<C>(static_cast<double>(v));
	const auto by_double = lib::parse<double>(narrow.c_str());
	const auto by_float = lib::parse<float>(wide.c_str());
	const float z = v == 0 ? 0.f : v; // zero has no sign in print
	if (!oracle::same(static_cast<float>(by_double.value), z))
		c.fail("printed as " + lib::show(narrow) + ", read as double " + by_double.str());
	if (!oracle::same(by_float.value, z))
		c.fail("printed as double " + lib::show(wide) + ", read as float " + by_float.str());
	// digits of a number without fraction, smaller than 2^24, are all needed, and no more
	if (v == std::floor(v) && std::fabs(v) <= 16777216.f)
	{
		if (narrow != wide)
			c.fail("printed as " + lib::show(narrow) + ", as double " + lib::show(wide));
		c.label("whole number");
	}
	else
		c.label(narrow == wide ? "same text" : "more digits as double");
	c.nontrivial(oracle::bits(v));
}

int main(int argc, char** argv)
{
	std::vector<Prop> p = {
		{"texts char", 4000000, 150000000, texts<char>, nullptr},
		{"texts wchar_t", 1000000, 50000000, texts<wchar_t>, nullptr},
		{"texts char16_t", 500000, 20000000, texts<char16_t>, nullptr},
		{"values char", 4000000, 150000000, values<char>, nullptr},
		{"values wchar_t", 1000000, 50000000, values<wchar_t>, nullptr},
		{"values char32_t", 500000, 20000000, values<char32_t>, nullptr},
	};
	return run(argc, argv, p,
		"texts read as float and as double, and float values printed as both and read as the other; non-trivial: every distinct text of which more than two characters are consumed, every distinct value",
		{"rounding a text to double and then to float gives another float only where the double is halfway between two floats"});
}
