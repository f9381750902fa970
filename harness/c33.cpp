#include "lib.h"
#include <floaxie/grisu.h>
#include <floaxie/k_comp.h>
#include <floaxie/cached_power.h>
using namespace pbt;

template<typename F> void window(Ctx& c)
{
	typedef floaxie::diy_fp<F> D;
	typedef typename D::mantissa_storage_type M;
	constexpr int alpha = floaxie::grisu_parameters<F>.alpha, gamma = floaxie::grisu_parameters<F>.gamma;
	const int width = sizeof(M) * 8;
	const F v = gen::positive<F>(c);
	const D hi = D::boundaries(v).second;
	const int e = hi.exponent();
	const int k = floaxie::k_comp_exp<alpha, gamma>(e);
	c.show([&] { return oracle::describe(v) + ", exponent of the bound " + std::to_string(e) + ", power of ten " + std::to_string(k); });
	const auto& b = floaxie::powers_ten<F>::boundaries;
	if (k < b.first || k > b.second) { c.fail("the power of ten is out of the cached range"); }
	// exactly: exponent of the normalised power of ten, without the table
	const int pe = static_cast<int>(std::floor(std::log2(10.0L) * k)) - width + 1;
	const D p = floaxie::cached_power<F>(k);
	if (p.exponent() != pe) c.fail("the cached power has exponent " + std::to_string(p.exponent()) + " instead of " + std::to_string(pe));
	const int scaled = e + pe + width;
	if (scaled < alpha || scaled > gamma)
		c.fail("the scaled bound has exponent " + std::to_string(scaled) + ", outside of " + std::to_string(alpha) + ".." + std::to_string(gamma));
	const D x = hi * p;
	if (x.exponent() != scaled) c.fail("the product has exponent " + std::to_string(x.exponent()));
	if (static_cast<uint64_t>(x.mantissa()) >> -scaled >> (width / 2)) c.fail("the integral part doesn't fit in a half of the significand");
	// what it's for: with that power, the digits come out right
	char t[64];
	int len = 0, K = 0;
	floaxie::grisu2<alpha, gamma>(v, t, &len, &K);
	if (len < 1 || len > std::numeric_limits<F>::max_digits10) c.fail(std::to_string(len) + " digits are generated");
	std::snprintf(t + len, sizeof t - static_cast<size_t>(len), "e%d", K);
	if (!oracle::same(oracle::libc_parse<F>(t), v)) c.fail(std::string("the digits generated are ") + t);
	c.nontrivial(oracle::bits(v));
	char l[32];
	std::snprintf(l, sizeof l, "scaled exponent %d", scaled);
	c.label(l);
}

// any binary exponent
template<typename F> void exponents(Ctx& c)
{
	typedef typename floaxie::diy_fp<F>::mantissa_storage_type M;
	constexpr int alpha = floaxie::grisu_parameters<F>.alpha, gamma = floaxie::grisu_parameters<F>.gamma;
	const int width = sizeof(M) * 8;
	typedef std::numeric_limits<F> L;
	const int lo = L::min_exponent - L::digits - width + 1, hi = L::max_exponent - width;
	const int e = lo + static_cast<int>(c.draw(hi - lo + 1));
	const int k = floaxie::k_comp_exp<alpha, gamma>(e);
	c.show([&] { return "binary exponent " + std::to_string(e) + ", power of ten " + std::to_string(k); });
	const auto& b = floaxie::powers_ten<F>::boundaries;
	if (k < b.first || k > b.second) { c.fail("the power of ten is out of the cached range"); }
	const int scaled = e + static_cast<int>(std::floor(std::log2(10.0L) * k)) + 1;
	if (scaled < alpha || scaled > gamma)
		c.fail("the scaled bound has exponent " + std::to_string(scaled) + ", outside of " + std::to_string(alpha) + ".." + std::to_string(gamma));
	c.nontrivial(hash_bytes(&e, sizeof e, sizeof(F)));
}

int main(int argc, char** argv)
{
	std::vector<Prop> p = {
		{"double", 15000000, 500000000, window<double>, nullptr},
		{"float", 15000000, 500000000, window<float>, nullptr},
		{"exponents, double", 400000, 4000000, exponents<double>, nullptr},
		{"exponents, float", 100000, 1000000, exponents<float>, nullptr},
	};
	return run(argc, argv, p,
		"random positive values and every binary exponent of their interval bounds; the exponent of the exact power of ten comes from a logarithm in long double; non-trivial: every distinct value (exponent)",
		{"log2(10) in long double is exact enough for |k| < 400 (distance of k*log2(10) from integers is over 1e-4)"});
}
