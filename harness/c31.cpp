#include "lib.h"
#ifndef SKIP_KAPPA
#include <floaxie/grisu.h>
#endif
using namespace pbt;

#ifndef SKIP_SEQ_POW
template<typename T, T base, size_t max> void powers(Ctx& c)
{
	const size_t p = c.draw(max + 1);
	c.show([&] { return std::to_string(base) + "^" + std::to_string(p) + " of a sequence up to " + std::to_string(max); });
	unsigned __int128 e = 1;
	for (size_t i = 0; i < p; ++i) e *= base;
	const T r = floaxie::seq_pow<T, base, max>(p);
	if (r != static_cast<T>(e) || e > static_cast<unsigned __int128>(std::numeric_limits<T>::max()))
		c.fail("gives " + std::to_string(r));
	c.nontrivial(hash_bytes("pow", 3, base * 1000 + p * 7 + max * 100003));
}
#endif

#ifndef SKIP_STATIC_POW
template<unsigned base, unsigned p> void check_static(Ctx& c)
{
	uint64_t e = 1;
	for (unsigned i = 0; i < p; ++i) e *= base;
	if (floaxie::static_pow<base, p>() != e)
		c.fail("static_pow<" + std::to_string(base) + ", " + std::to_string(p) + "> gives " + std::to_string(floaxie::static_pow<base, p>()));
}

template<unsigned base> void check_base(Ctx& c)
{
	switch (c.draw(10))
	{
	case 0: check_static<base, 0>(c); break;
	case 1: check_static<base, 1>(c); break;
	case 2: check_static<base, 2>(c); break;
	case 3: check_static<base, 3>(c); break;
	case 4: check_static<base, 4>(c); break;
	case 5: check_static<base, 5>(c); break;
	case 6: check_static<base, 6>(c); break;
	case 7: check_static<base, 7>(c); break;
	case 8: check_static<base, 8>(c); break;
	default: check_static<base, 9>(c); break;
	}
}
#endif

static void sequences(Ctx& c)
{
	switch (c.draw(10))
	{
#ifndef SKIP_SEQ_POW
	case 0: powers<uint64_t, 10, 19>(c); break;
	case 1: powers<uint32_t, 10, 9>(c); break;
	case 2: powers<unsigned, 10, 4>(c); break;
	case 3: powers<uint64_t, 2, 63>(c); break;
	case 4: powers<uint64_t, 3, 40>(c); break;
	case 5: powers<uint64_t, 7, 22>(c); break;
	case 6: powers<int, 5, 13>(c); break;
	case 7: powers<unsigned char, 2, 7>(c); break;
#endif
#ifndef SKIP_STATIC_POW
	case 8: check_base<10>(c); c.show_text("static_pow<10, n>"); break;
	default: c.draw(2) ? check_base<2>(c) : check_base<3>(c); c.show_text("static_pow<2 or 3, n>"); break;
#else
	default: break;
#endif
	}
}

#ifndef SKIP_FRACTION
template<size_t dec, size_t binary> void fraction(Ctx& c)
{
	unsigned den = 1;
	for (size_t i = 0; i < dec; ++i) den *= 10;
	unsigned n = static_cast<unsigned>(c.draw(den));
	if (c.draw(4) == 0) // next to a binary fraction
	{
		const int64_t k = static_cast<int64_t>((static_cast<uint64_t>(c.draw(1u << binary)) * den) >> binary) + c.range(-1, 1);
		n = static_cast<unsigned>(std::min<int64_t>(std::max<int64_t>(k, 0), den - 1));
	}
	c.show([&] { return std::to_string(n) + "/" + std::to_string(den) + " to " + std::to_string(binary) + " bits"; });
	const unsigned r = floaxie::convert_numerator<dec, binary>(n);
	// | n / den - r / 2^bits | < 1 / 2^bits
	const int64_t diff = (static_cast<int64_t>(n) << binary) - static_cast<int64_t>(r) * den;
	if (diff >= static_cast<int64_t>(den) || -diff >= static_cast<int64_t>(den))
		c.fail("gives " + std::to_string(r));
	if (r >> binary) c.fail("gives " + std::to_string(r) + ", which doesn't fit");
	c.nontrivial(hash_bytes(&n, sizeof n, dec * 100 + binary));
}

static void fractions(Ctx& c)
{
	switch (c.draw(6))
	{
	case 0: fraction<3, 4>(c); break;
	case 1: fraction<2, 3>(c); break;
	case 2: fraction<5, 7>(c); break;
	case 3: fraction<6, 8>(c); break;
	default: fraction<4, 7>(c); break;
	}
}
#endif

#ifndef SKIP_KAPPA
// The number of digits of a number and the weight of the first of them.
static void kappa(Ctx& c)
{
	uint32_t n = static_cast<uint32_t>(c.bits());
	switch (c.draw(4))
	{
	case 0: n = static_cast<uint32_t>(c.size(100000)); break;
	case 1: n >>= c.draw(32); break;
	case 2: // next to a power of ten
	{
		uint64_t p = 1;
		for (uint64_t i = c.draw(10); i; --i) p *= 10;
		n = static_cast<uint32_t>(static_cast<int64_t>(p * (1 + c.draw(4))) + c.range(-2, 2));
		break;
	}
	default: break;
	}
	if (!n) n = 1;
	c.show([&] { return std::to_string(n); });
	const auto k = floaxie::calculate_kappa_div(n);
	const std::string s = std::to_string(n);
	const std::string w = "1" + std::string(s.size() - 1, '0');
	if (k.first != s.size() || std::to_string(k.second) != w)
		c.fail("gives " + std::to_string(static_cast<int>(k.first)) + " digits and the weight " + std::to_string(k.second));
	c.nontrivial(mix(n) + 7);
}
#endif

int main(int argc, char** argv)
{
	std::vector<Prop> p = {
		{"powers", 4000000, 50000000, sequences, nullptr},
#ifndef SKIP_KAPPA
		{"digits and weight", 6000000, 200000000, kappa, nullptr},
#endif
#ifndef SKIP_FRACTION
		{"fractions", 8000000, 100000000, fractions, nullptr},
#endif
	};
	return run(argc, argv, p, "exponents and numerators over a range of instantiations (each space is smaller than the number of cases), against wide integer arithmetic; non-trivial: every distinct pair of instantiation and argument", {});
}
