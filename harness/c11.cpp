#include "lib.h"
using namespace pbt;

template<typename F> void check(Ctx& c, F v)
{
	c.show([&] { return oracle::describe(v); });
	const std::string s = lib::print(v);
	const F a = oracle::libc_parse<F>(s.c_str());
	F b = 0;
	const auto r = std::from_chars(s.data(), s.data() + s.size(), b);
	char* e;
	if (std::is_same<F, float>::value) strtof_l(s.c_str(), &e, oracle::classic());
	else strtod_l(s.c_str(), &e, oracle::classic());
	if (!oracle::same(a, v) || *e)
		c.fail("printed as " + quoted(s) + ", which strtod reads as " + oracle::describe(a));
	if (r.ec != std::errc() || r.ptr != s.data() + s.size() || !oracle::same(b, v))
		c.fail("printed as " + quoted(s) + ", which from_chars reads as " + oracle::describe(b));
}

// The text must not be as far from a neighbour as from the value: a reader
// breaking ties in another way would be right to read the neighbour then.
template<typename F> void no_tie(Ctx& c, F v)
{
	const std::string s = lib::print(v);
	const F a = std::fabs(v);
	const long double t = std::fabs(strtold_l(s.c_str(), nullptr, oracle::classic()));
	const F up = gen::next(a), down = std::nextafter(a, F(0));
	long double lo = (static_cast<long double>(a) + down) / 2, hi = std::isfinite(up) ? (static_cast<long double>(a) + up) / 2
		: static_cast<long double>(a) + (static_cast<long double>(a) - down) / 2;
	if (t > lo && t < hi) return;
	// as near as long double can tell: decide exactly
	const gen::Decimal m = gen::expand(t >= hi ? hi : lo, gen::traits<F>::exact_digits);
	size_t i = s[0] == '-';
	std::string text = s.substr(i), exact = m.digits + "e" + std::to_string(m.exp10);
	const int side = oracle::compare_decimals(text, exact);
	if (side == 0)
		c.fail("printed as " + quoted(s) + ", which is exactly halfway to the neighbour");
	if ((t >= hi) == (side > 0))
		c.fail("printed as " + quoted(s) + ", which is nearer to the neighbour");
}

template<typename F> void readers(Ctx& c)
{
	const F v = gen::finite<F>(c);
	if (v == 0) { c.label("zero, not covered"); return; }
	check(c, v);
	no_tie(c, v);
	if (std::fabs(v) < std::numeric_limits<F>::min()) c.label("subnormal");
	int e;
	if (std::frexp(v, &e) == F(0.5)) c.label("power of two");
	c.nontrivial(oracle::bits(v));
}

// bit patterns in order: every float in the thorough tier
static void enumerate(Ctx& c)
{
	const uint64_t block = c.draw(1u << 15);
	const auto step = G().thorough ? 1u : 97u;
	for (uint64_t i = c.draw(step); i < (1u << 16); i += step)
	{
		const float v = oracle::from_bits<float>(static_cast<uint32_t>(block << 16 | i));
		if (!std::isfinite(v) || v == 0) continue;
		const std::string s = lib::print(v);
		const float a = oracle::libc_parse<float>(s.c_str());
		if (!oracle::same(a, v))
			c.fail(oracle::describe(v) + " printed as " + quoted(s) + ", which strtof reads as " + oracle::describe(a));
	}
	c.show([&] { return "floats with the upper half " + std::to_string(block); });
	c.nontrivial(block);
}

int main(int argc, char** argv)
{
	std::vector<Prop> p = {
		{"double", 12000000, 800000000, readers<double>, nullptr},
		{"float", 8000000, 200000000, readers<float>, nullptr},
		{"float blocks", 16384, 65536 * 3, enumerate, nullptr},
	};
	return run(argc, argv, p,
		"random finite values (uniform bits, subnormals, around powers of two and ten, range ends, special significands), and blocks of 2^16 floats; non-trivial: value (or block) is not zero",
		{"glibc strtod/strtof and libstdc++ from_chars are correctly rounding readers"});
}
