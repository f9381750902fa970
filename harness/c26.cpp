#include "lib.h"
using namespace pbt;

template<typename F> void widen_narrow(Ctx& c)
{
	const F v = gen::positive<F>(c);
	c.show([&] { return oracle::describe(v); });
	floaxie::diy_fp<F> d(v);
	const long double w = std::ldexp(static_cast<long double>(d.mantissa()), d.exponent());
	if (w != static_cast<long double>(v)) c.fail("widened to another value");
	d.normalize();
	const auto r = d.downsample();
	if (!oracle::same(r.value, v) || r.status != floaxie::conversion_status::success || !r.is_accurate)
		c.fail("narrowed back to " + oracle::describe(r.value) + " " + oracle::status_name(r.status) + (r.is_accurate ? "" : ", not accurate"));
	c.label(v < std::numeric_limits<F>::min() ? "subnormal" : "normal");
	c.nontrivial(oracle::bits(v));
}

template<typename F> void narrow(Ctx& c)
{
	typedef std::numeric_limits<F> L;
	typedef typename floaxie::diy_fp<F>::mantissa_storage_type M;
	const int width = sizeof(M) * 8, cut = width - L::digits;
	// significand: random, or made of a kept part and a tail near the interesting points
	M f = static_cast<M>(c.bits());
	int e;
	switch (c.draw(6))
	{
	case 0: e = L::max_exponent - width + static_cast<int>(c.range(-2, 2)); break;
	case 1: e = L::min_exponent - width + static_cast<int>(c.range(-4, 4)); break;
	case 2: e = L::min_exponent - L::digits - width + static_cast<int>(c.range(-4, 4)); break;
	case 3: e = L::min_exponent - width - static_cast<int>(c.draw(L::digits + 2)); break;
	case 4: e = static_cast<int>(c.range(2 * L::min_exponent - 100, 2 * L::max_exponent + 100)); break;
	default: e = static_cast<int>(c.range(L::min_exponent - width, L::max_exponent - width)); break;
	}
	const int lead = e + width; // value is in [2^(lead-1), 2^lead)
	// number of bits dropped
	int drop = cut;
	if (lead < L::min_exponent) drop += L::min_exponent - lead;
	const int d = std::min(drop, width);
	if (c.draw(3))
	{
		const M half = d >= 1 ? M(1) << (d - 1) : 0;
		M tail = 0;
		switch (c.draw(4))
		{
		case 0: tail = half; break;
		case 1: tail = static_cast<M>(half + static_cast<M>(c.range(-3, 3))); break;
		case 2: tail = static_cast<M>(c.draw(4)); break;
		default: tail = static_cast<M>(M(0) - static_cast<M>(1 + c.draw(3))); break;
		}
		const M tm = d >= width ? ~M(0) : (M(1) << d) - 1;
		M kept = f & ~tm;
		if (c.draw(3) == 0) kept = ~tm;
		else if (c.draw(3) == 0) kept = 0;
		f = kept | (tail & tm);
	}
	f |= M(1) << (width - 1);
	c.show([&] { return "{" + std::to_string(f) + ", " + std::to_string(e) + "}"; });

	// exact result, from the 64 bit significand of long double
	const long double exact = std::ldexp(static_cast<long double>(f), e);
	const F nearest = static_cast<F>(exact);
	floaxie::diy_fp<F> x(f, e);
	const auto r = x.downsample();
	// position against the tie
	const M tm = drop >= width ? ~M(0) : (M(1) << drop) - 1;
	bool tie, near;
	if (lead > L::max_exponent) { tie = near = false; }
	else if (drop > width) { tie = false; near = drop == width + 1 && f > ~M(0) - 64; }
	else
	{
		const M tail = f & tm, half = M(1) << (drop - 1);
		tie = tail == half;
		near = (tail > half ? tail - half : half - tail) <= 64;
	}
	if (tie && r.is_accurate) c.fail("exact tie is not flagged: " + oracle::describe(r.value));
	if (!near && !r.is_accurate) c.fail("flagged inaccurate far from any tie");
	if (r.is_accurate)
	{
		if (!oracle::same(r.value, nearest))
			c.fail("narrowed to " + oracle::describe(r.value) + ", nearest is " + oracle::describe(nearest));
		const auto st = std::isinf(nearest) ? floaxie::conversion_status::overflow : nearest == 0 ? floaxie::conversion_status::underflow : floaxie::conversion_status::success;
		if (r.status != st)
			c.fail("status is " + oracle::status_name(r.status) + " for " + oracle::describe(r.value));
	}
	c.label(tie ? "tie" : near ? "near a tie" : "far from ties");
	c.label(std::isinf(nearest) ? "overflow" : nearest == 0 ? "underflow" : nearest < L::min() ? "subnormal" : "normal");
	c.nontrivial(mix(static_cast<uint64_t>(f)) ^ static_cast<uint64_t>(e));
}

#ifndef SKIP_ROUND_UP
static void rounding(Ctx& c)
{
	// decision to round up on any suffix of bits
	const unsigned pos = 1 + static_cast<unsigned>(c.draw(63));
	uint64_t v = c.bits();
	if (c.draw(2)) { v &= ~((uint64_t(1) << pos) - 1); v |= (uint64_t(1) << (pos - 1)) + static_cast<uint64_t>(c.range(-2, 2)); }
	c.show([&] { return std::to_string(v) + " at bit " + std::to_string(pos); });
	const auto r = floaxie::round_up<uint64_t>(v, pos);
	const uint64_t tail = v & ((uint64_t(1) << pos) - 1), half = uint64_t(1) << (pos - 1);
	const bool odd = v >> pos & 1;
	const bool up = tail > half || (tail == half && odd);
	if (r.value != up) c.fail(r.value ? "rounds up" : "rounds down");
	if (r.is_accurate != (tail != half)) c.fail("wrong accuracy flag");
	c.nontrivial(mix(v) ^ pos);
}
#endif

int main(int argc, char** argv)
{
	std::vector<Prop> p = {
		{"there and back, double", 8000000, 300000000, widen_narrow<double>, nullptr},
		{"there and back, float", 8000000, 300000000, widen_narrow<float>, nullptr},
		{"narrowing, double", 12000000, 600000000, narrow<double>, nullptr},
		{"narrowing, float", 12000000, 600000000, narrow<float>, nullptr},
#ifndef SKIP_ROUND_UP
		{"round_up", 5000000, 200000000, rounding, nullptr},
#endif
	};
	return run(argc, argv, p,
		"random positive values widened and narrowed back; normalised extended values with tails at, next to and far from ties, at all exponents incl. subnormals and both ends of the range; non-trivial: every distinct case",
		{"x87 long double represents every 64-bit significand exactly and converts to double and float with correct rounding"});
}
