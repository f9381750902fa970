#include "lib.h"
using namespace pbt;

template<typename F, typename C> void negate(Ctx& c)
{
	const F v = c.draw(100) == 99 ? std::numeric_limits<F>::infinity() : gen::positive<F>(c);
	c.show([&] { return oracle::describe(v); });
	size_t n, m;
	const auto a = lib::print<C>(v, &n), b = lib::print<C>(-v, &m);
	if (b.size() != a.size() + 1 || b[0] != C('-') || b.substr(1) != a)
		c.fail("printed as " + lib::show(a) + ", negated as " + lib::show(b));
	if (m != n + 1 || n != a.size())
		c.fail("lengths " + std::to_string(n) + " and " + std::to_string(m));
	c.label(std::isinf(v) ? "inf" : std::fabs(v) < std::numeric_limits<F>::min() ? "subnormal" : "normal");
	c.nontrivial(oracle::bits(v));
}

int main(int argc, char** argv)
{
	std::vector<Prop> p = {
		{"double char", 8000000, 300000000, negate<double, char>, nullptr},
		{"float char", 8000000, 300000000, negate<float, char>, nullptr},
		{"double wchar_t", 3000000, 100000000, negate<double, wchar_t>, nullptr},
		{"float wchar_t", 3000000, 100000000, negate<float, wchar_t>, nullptr},
		{"double char16_t", 3000000, 100000000, negate<double, char16_t>, nullptr},
		{"float char16_t", 3000000, 100000000, negate<float, char16_t>, nullptr},
		{"double char32_t", 3000000, 100000000, negate<double, char32_t>, nullptr},
		{"float char32_t", 3000000, 100000000, negate<float, char32_t>, nullptr},
	};
	return run(argc, argv, p, "random positive values (uniform bits, subnormals, around powers of two and ten, range ends, special significands), infinity; non-trivial: every distinct value", {"metamorphic relation"});
}
