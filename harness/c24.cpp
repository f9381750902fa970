#include "lib.h"
using namespace pbt;

// |power - 10^k| <= 1/2 ulp, exactly in integers
template<typename F> void table(Ctx& c)
{
	const int lo = gen::traits<F>::kmin, hi = gen::traits<F>::kmax;
	const int k = lo + static_cast<int>(c.draw(static_cast<uint64_t>(hi - lo + 1)));
	const auto p = floaxie::cached_power<F>(k);
	const uint64_t f = p.mantissa();
	const int e = p.exponent();
	c.show([&] { return "10^" + std::to_string(k) + " = " + std::to_string(f) + " * 2^" + std::to_string(e); });
	const int width = sizeof(F) * 8;
	if (!(f >> (width - 1) & 1))
		c.fail("not normalised: " + std::to_string(f));
	// compare 2 * |f * 2^e - 10^k| with 2^e, both sides multiplied by the denominators
	mpz_t n, d, t;
	mpz_inits(n, d, t, nullptr);
	mpz_set_ui(n, 1); mpz_set_ui(d, 1); // 10^k = n / d
	if (k >= 0) mpz_ui_pow_ui(n, 10, static_cast<unsigned>(k)); else mpz_ui_pow_ui(d, 10, static_cast<unsigned>(-k));
	mpz_set_ui(t, f);
	mpz_mul(t, t, d); // f * d * 2^e against n
	if (e >= 0) { mpz_mul_2exp(t, t, static_cast<unsigned>(e)); mpz_mul_2exp(d, d, static_cast<unsigned>(e)); }
	else mpz_mul_2exp(n, n, static_cast<unsigned>(-e));
	mpz_sub(t, t, n);
	mpz_abs(t, t);
	mpz_mul_2exp(t, t, 1);
	const bool ok = mpz_cmp(t, d) <= 0;
	mpz_clears(n, d, t, nullptr);
	if (!ok)
		c.fail("differs from the exact power by more than half a unit in the last place: " + std::to_string(f) + " * 2^" + std::to_string(e));
	if (floaxie::powers_ten<F>::boundaries.first != lo || floaxie::powers_ten<F>::boundaries.second != hi)
		c.fail("advertised range is [" + std::to_string(floaxie::powers_ten<F>::boundaries.first) + ", " + std::to_string(floaxie::powers_ten<F>::boundaries.second) + "]");
	c.label(k < 0 ? "negative" : "not negative");
	c.nontrivial(mix(static_cast<uint64_t>(k + 1000)));
}

int main(int argc, char** argv)
{
	// every exponent is hit: 687 and 101 of them, drawn far more often
	std::vector<Prop> p = {
		{"double", 200000, 2000000, table<double>, nullptr},
		{"float", 200000, 2000000, table<float>, nullptr},
	};
	auto all = [](size_t n) { return [n](const Stats& s) -> std::string { if (s.distinct < n) internal_error("exponents missed"); return ""; }; };
	p[0].judge = all(687);
	p[1].judge = all(101);
	return run(argc, argv, p, "every exponent of the advertised ranges (687 for double, 101 for float), against exact GMP integers; non-trivial: every distinct exponent", {"GMP"}, true);
}
