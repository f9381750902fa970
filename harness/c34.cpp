#include "lib.h"
#include <floaxie/bit_ops.h>
#include <floaxie/type_punning_cast.h>
#include <floaxie/integer_of_size.h>
using namespace pbt;

template<typename T> T pattern(Ctx& c)
{
	switch (c.draw(7))
	{
	case 0: return static_cast<T>(c.draw(5));
	case 1: return static_cast<T>(T(1) << c.draw(sizeof(T) * 8));
	case 2: return static_cast<T>(~(T(1) << c.draw(sizeof(T) * 8)));
	case 4: // a few bits
	case 5:
	{
		T v = 0;
		for (size_t n = 1 + c.draw(4); n-- > 0;)
		{
			const auto w = c.draw(4);
			const size_t p = w == 0 ? 0 : w == 1 ? sizeof(T) * 8 - 1 - c.draw(3) : c.draw(sizeof(T) * 8);
			v = static_cast<T>(v ^ static_cast<T>(T(1) << p));
		}
		return v;
	}
	case 3: return static_cast<T>((~static_cast<uint64_t>(0)) << c.draw(64));
	default: return static_cast<T>(c.bits());
	}
}

template<typename T> void bits(Ctx& c)
{
	const size_t n = sizeof(T) * 8;
	const T v = pattern<T>(c);
	const size_t p = c.draw(n), m = c.draw(2 * n);
	c.show([&] { return std::to_string(+v) + ", bit " + std::to_string(p) + ", " + std::to_string(m) + " bits, width " + std::to_string(n); });
	const uint64_t w = static_cast<uint64_t>(v), all = n == 64 ? ~uint64_t(0) : (uint64_t(1) << n) - 1;
#ifndef SKIP_BITS
	if (floaxie::bit_size<T>() != n) c.fail("bit_size gives " + std::to_string(floaxie::bit_size<T>()));
	if (static_cast<uint64_t>(floaxie::raised_bit<T>(p)) != uint64_t(1) << p) c.fail("raised_bit gives " + std::to_string(+floaxie::raised_bit<T>(p)));
	if (floaxie::nth_bit<T>(v, p) != (w >> p & 1)) c.fail("nth_bit is wrong");
	if (floaxie::highest_bit<T>(v) != (w >> (n - 1) & 1)) c.fail("highest_bit is wrong");
#endif
#ifndef SKIP_MASK
	const uint64_t mask = m >= n ? all : (uint64_t(1) << m) - 1;
	if (static_cast<uint64_t>(floaxie::mask<T>(m)) != mask) c.fail("mask gives " + std::to_string(+floaxie::mask<T>(m)));
#endif
#ifndef SKIP_MSB
	if constexpr (sizeof(T) >= 4)
	{
		if (static_cast<uint64_t>(floaxie::msb_value<T>()) != uint64_t(1) << (n - 1)) c.fail("msb_value is wrong");
		if (static_cast<uint64_t>(floaxie::max_integer_value<T>()) != all) c.fail("max_integer_value is wrong");
	}
#endif
#ifndef SKIP_ROUND
	// decision to round to nearest even at the bit (its weight must fit in the type)
	const size_t r = 1 + c.draw(n - 1);
	T u = v;
	if (c.draw(2)) // at and next to the tie
		u = static_cast<T>((w & ~((uint64_t(1) << r) - 1)) + (uint64_t(1) << (r - 1)) + static_cast<uint64_t>(c.range(-2, 2)));
	const uint64_t x = static_cast<uint64_t>(u);
	const auto d = floaxie::round_up<T>(u, r);
	const uint64_t tail = x & ((uint64_t(1) << r) - 1), half = uint64_t(1) << (r - 1);
	if (d.value != (tail > half || (tail == half && (x >> r & 1)))) c.fail("round_up of " + std::to_string(x) + " at " + std::to_string(r) + (d.value ? " rounds up" : " rounds down"));
	if (d.is_accurate != (tail != half)) c.fail("round_up of " + std::to_string(x) + " at " + std::to_string(r) + " has a wrong accuracy flag");
#endif
	c.nontrivial(mix(w) ^ mix(p * 1000 + m));
}

static void scalars(Ctx& c)
{
	const int i = c.draw(2) ? static_cast<int>(c.range(-20, 20)) : static_cast<int>(static_cast<uint32_t>(c.bits()));
	const double d = c.draw(2) ? oracle::from_bits<double>(c.bits()) : gen::finite<double>(c);
	const float f = c.draw(2) ? oracle::from_bits<float>(static_cast<uint32_t>(c.bits())) : gen::finite<float>(c);
	c.show([&] { return std::to_string(i) + ", " + oracle::describe(d) + ", " + oracle::describe(f); });
#ifndef SKIP_POSITIVE
	if (floaxie::positive_part(i) != static_cast<unsigned>(i > 0 ? i : 0)) c.fail("positive_part gives " + std::to_string(floaxie::positive_part(i)));
#endif
#ifndef SKIP_ABS
	if (i != std::numeric_limits<int>::min() && floaxie::constexpr_abs(i) != (i < 0 ? -i : i)) c.fail("constexpr_abs gives " + std::to_string(floaxie::constexpr_abs(i)));
#endif
#ifndef SKIP_CAST
	uint64_t u;
	std::memcpy(&u, &d, sizeof u);
	uint32_t w;
	std::memcpy(&w, &f, sizeof w);
	if (floaxie::type_punning_cast<uint64_t>(d) != u || floaxie::type_punning_cast<uint32_t>(f) != w) c.fail("type_punning_cast changes the bits");
	if (std::isnan(d) == false && oracle::bits(floaxie::type_punning_cast<double>(u)) != u) c.fail("type_punning_cast back changes the bits");
#endif
#ifndef SKIP_INTEGER
	if (sizeof(typename floaxie::integer_of_size<4>::type) != 4 || sizeof(typename floaxie::integer_of_size<8>::type) != 8) c.fail("integer_of_size gives another size");
	if (floaxie::msb_value<double>() != uint64_t(1) << 63 || floaxie::msb_value<float>() != uint32_t(1) << 31) c.fail("msb_value of a floating point type is wrong");
#endif
	c.nontrivial(mix(static_cast<uint64_t>(i)) ^ oracle::bits(d) ^ oracle::bits(f));
}

int main(int argc, char** argv)
{
	std::vector<Prop> p = {
		{"8 bits", 3000000, 10000000, bits<uint8_t>, nullptr},
		{"16 bits", 3000000, 50000000, bits<uint16_t>, nullptr},
		{"32 bits", 15000000, 400000000, bits<uint32_t>, nullptr},
		{"64 bits", 15000000, 400000000, bits<uint64_t>, nullptr},
		{"scalars", 6000000, 200000000, scalars, nullptr},
	};
	return run(argc, argv, p,
		"patterns of bits of every width with a position and a number of bits, integers, and bit patterns of floating point values, against shifts of 64-bit integers; non-trivial: every distinct case", {});
}
