#include "lib.h"
using namespace pbt;

static size_t significant(const char* b, const char* e)
{
	std::string d;
	for (; b < e && *b != 'e'; ++b)
		if (oracle::digit(*b)) d += *b;
	const size_t f = d.find_first_not_of('0');
	if (f == std::string::npos) return 0;
	return d.find_last_not_of('0') - f + 1;
}

template<typename F> size_t shortest(F v)
{
	char b[64];
	const auto r = std::to_chars(b, b + sizeof b, v, std::chars_format::scientific);
	return significant(b, r.ptr);
}

template<typename F> void judge_one(Ctx& c, F v, bool count)
{
	c.show([&] { return oracle::describe(v) + " -> " + lib::print(v); });
	const std::string s = lib::print(v);
	const size_t n = significant(s.data(), s.data() + s.size());
	if (n > static_cast<size_t>(std::numeric_limits<F>::max_digits10))
		c.fail("printed as " + quoted(s) + " with " + std::to_string(n) + " significant digits");
	if (count)
		c.label(n <= shortest(v) ? "shortest" : "longer than shortest");
	c.nontrivial(oracle::bits(v));
}

// the rate is over uniformly distributed finite bit patterns
template<typename F> void uniform(Ctx& c)
{
	typedef typename oracle::bits_of<F>::type B;
	const B inf = oracle::bits(std::numeric_limits<F>::infinity());
	const F v = oracle::from_bits<F>(static_cast<B>(1 + c.draw(inf - 1)));
	judge_one(c, c.draw(2) ? -v : v, true);
}

template<typename F> void special(Ctx& c)
{
	F v = gen::finite<F>(c);
	if (v == 0) v = 1;
	judge_one(c, v, false);
}

static std::string rate(const Stats& s)
{
	const auto a = s.labels.count("shortest") ? s.labels.at("shortest") : 0, b = s.labels.count("longer than shortest") ? s.labels.at("longer than shortest") : 0;
	if (a + b < 100000) return "";
	if (a * 100 < (a + b) * 99)
	{
		char m[120];
		std::snprintf(m, sizeof m, "only %.3f%% of %llu texts have the smallest number of digits", 100.0 * static_cast<double>(a) / static_cast<double>(a + b), (unsigned long long)(a + b));
		return m;
	}
	return "";
}

int main(int argc, char** argv)
{
	std::vector<Prop> p = {
		{"double uniform", 8000000, 500000000, uniform<double>, rate},
		{"float uniform", 8000000, 500000000, uniform<float>, rate},
		{"double", 10000000, 300000000, special<double>, nullptr},
		{"float", 10000000, 300000000, special<float>, nullptr},
	};
	return run(argc, argv, p,
		"uniformly distributed finite bit patterns for the rate of shortest texts, and special values for the hard limit of digits; non-trivial: every distinct value",
		{"libstdc++ to_chars gives the smallest number of digits"});
}
