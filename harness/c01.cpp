#include "gen.h"
#include "lib.h"
using namespace pbt;

template<typename F> void correct(Ctx& c)
{
	const std::string s = gen::number<F>(c);
	c.show([&] { return quoted(s); });
	const oracle::Expected<F> x = oracle::expect<F>(s.c_str());
	if (x.scan.end != s.size() || x.scan.what != oracle::kind::number)
	{
		c.label("generator: not a number");
		return;
	}
	if (!oracle::oracle_agrees(s, x.value, c.draw(64) == 0))
		internal_error("the oracles disagree on " + s);
	const auto r = lib::parse<F>(s.c_str());
	if (!oracle::same<F>(r.value, x.value))
		c.fail("parsed as " + oracle::describe<F>(r.value) + ", nearest is " + oracle::describe<F>(x.value));
	const bool fb = lib::fallback_used<F>(s.c_str());
	c.label(fb ? "fallback" : "fast path");
	if (std::isfinite(x.value) && x.value != 0)
	{
		c.label(std::fabs(x.value) < std::numeric_limits<F>::min() ? "subnormal" : "normal");
		c.nontrivial(hash_str(s));
	}
	else
		c.label(x.value == 0 ? (x.scan.nonzero ? "underflow" : "zero") : "overflow");
	if (s.size() > 100) c.label("over 100 characters");
}

int main(int argc, char** argv)
{
	std::vector<Prop> p = {
		{"double", 6000000, 400000000, correct<double>, nullptr},
		{"float", 6000000, 400000000, correct<float>, nullptr},
	};
	return run(argc, argv, p,
		"random decimal texts (digit patterns, exact and perturbed midpoints, capacity boundaries, range ends, every notation); non-trivial: rounds to a finite non-zero value",
		{"glibc strtod/strtof, libstdc++ from_chars and (1 in 64) GMP rational arithmetic agree on the expected value"});
}
