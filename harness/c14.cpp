// Built with AddressSanitizer and UndefinedBehaviorSanitizer.
#include "lib.h"
using namespace pbt;

template<typename F, typename C> void bounded(Ctx& c)
{
	typedef typename oracle::bits_of<F>::type B;
	const F v = c.chance(1, 8) ? oracle::from_bits<F>(static_cast<B>(c.bits())) : gen::finite<F>(c);
	c.show([&] { return oracle::describe(v); });
	constexpr size_t max = floaxie::max_buffer_size<F>();
	// exactly the advertised size, on the heap
	const size_t at = c.draw(3) ? c.draw(17) : 0; // at any alignment
	std::unique_ptr<C[]> block(new C[at + max]);
	C* const exact = block.get() + at;
	const C fill = c.draw(3) == 0 ? C(0) : static_cast<C>(c.draw(256));
	for (size_t i = 0; i < max; ++i) exact[i] = c.draw(16) == 0 ? static_cast<C>(c.draw(256)) : fill;
	const size_t n = floaxie::ftoa(v, exact);
	// canaries on both sides
	C around[32 + max + 64 + 17];
	C* const wide = around + (c.draw(3) ? c.draw(17) : 0);
	const C canary = static_cast<C>(0xa5 ^ static_cast<unsigned char>(fill));
	for (auto& ch : around) ch = canary;
	const size_t m = floaxie::ftoa(v, wide + 32);
	for (size_t i = 0; i < 32; ++i)
		if (wide[i] != canary) c.fail("wrote in front of the buffer");
	for (size_t i = 32 + max; i < 32 + max + 64; ++i)
		if (wide[i] != canary) c.fail("wrote behind max_buffer_size");
	for (C* p = around; p < wide; ++p)
		if (*p != canary) c.fail("wrote in front of the buffer");
	if (n != m)
		c.fail("length depends on the previous contents: " + std::to_string(n) + " and " + std::to_string(m));
	if (n >= max)
		c.fail("length " + std::to_string(n) + " leaves no place for NUL in " + std::to_string(max));
	size_t l = 0;
	while (l < max && exact[l]) ++l;
	if (l != n)
		c.fail("returned " + std::to_string(n) + ", but the text has " + std::to_string(l) + " characters");
	for (size_t i = 0; i <= n; ++i)
		if (exact[i] != wide[32 + i]) c.fail("text depends on the previous contents");
	if (n == 0)
		c.fail("empty text");
	c.label(n > 20 ? "over 20 characters" : n > 12 ? "over 12 characters" : "short");
	c.label(std::isfinite(v) ? (v < 0 ? "negative" : "not negative") : "special");
	if (v != 0) c.nontrivial(oracle::bits(v));
}

int main(int argc, char** argv)
{
	std::vector<Prop> p = {
		{"double char", 1500000, 60000000, bounded<double, char>, nullptr},
		{"float char", 1500000, 60000000, bounded<float, char>, nullptr},
		{"double wchar_t", 800000, 30000000, bounded<double, wchar_t>, nullptr},
		{"float wchar_t", 800000, 30000000, bounded<float, wchar_t>, nullptr},
		{"double char16_t", 800000, 30000000, bounded<double, char16_t>, nullptr},
		{"float char16_t", 500000, 30000000, bounded<float, char16_t>, nullptr},
		{"double char32_t", 500000, 30000000, bounded<double, char32_t>, nullptr},
		{"float char32_t", 500000, 30000000, bounded<float, char32_t>, nullptr},
	};
	return run(argc, argv, p,
		"random values of any kind printed to a heap block of exactly max_buffer_size elements under ASan and between canaries, at any alignment, with random previous contents; non-trivial: not zero",
		{});
}
