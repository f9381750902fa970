#include "lib.h"
using namespace pbt;

template<typename F> void spelling(Ctx& c)
{
	const gen::Decimal d = gen::decimal<F>(c);
	const std::string a = gen::notation(c, d, false), b = gen::notation(c, d, false);
	if (a.size() == 1 || b.size() == 1) { c.label("generator: too long"); return; }
	const auto sgn = c.draw(4);
	const std::string sa = sgn == 3 ? "+" + a : a, sb = sgn == 2 ? "+" + b : b;
	c.show([&] { return quoted(sa) + " and " + quoted(sb); });
	const auto ra = lib::parse<F>(sa.c_str()), rb = lib::parse<F>(sb.c_str());
	if (!oracle::same(ra.value, rb.value) || ra.status != rb.status)
		c.fail("parsed as " + ra.str() + " and " + rb.str());
	if (ra.consumed != static_cast<long long>(sa.size()) || rb.consumed != static_cast<long long>(sb.size()))
		c.fail("not consumed completely: " + ra.str() + " and " + rb.str());
	// sign symmetry
	const auto na = lib::parse<F>(("-" + a).c_str());
	if (!oracle::same(na.value, static_cast<F>(-ra.value)) || na.status != ra.status)
		c.fail("negated: " + na.str() + ", positive: " + ra.str());
	const bool fa = lib::fallback_used<F>(sa.c_str()), fb = lib::fallback_used<F>(sb.c_str());
	c.label(fa != fb ? "different paths" : fa ? "both by fallback" : "both by the fast path");
	if (sa != sb)
		c.nontrivial(hash_str(sa + "|" + sb));
	else
		c.label("identical spelling");
}

int main(int argc, char** argv)
{
	std::vector<Prop> p = {
		{"double", 5000000, 250000000, spelling<double>, nullptr},
		{"float", 5000000, 250000000, spelling<float>, nullptr},
	};
	return run(argc, argv, p,
		"a random decimal number written in two random notations (point moved, zeros added, exponent styles), and with a minus; non-trivial: the two texts differ",
		{"metamorphic relation only: no reference parser is involved"});
}
