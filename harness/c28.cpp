#include <sstream>
#include "lib.h"
#include <floaxie/print.h>
using namespace pbt;

static std::string bin(uint64_t v, int n)
{
	std::string s;
	for (int i = n; i-- > 0;) s += (v >> i & 1) ? '1' : '0';
	return s;
}

template<typename T> void integer(Ctx& c)
{
	T v = static_cast<T>(c.bits());
	if (c.draw(3) == 0) v = static_cast<T>(T(1) << c.draw(sizeof(T) * 8));
	else if (c.draw(3) == 0) v = static_cast<T>(c.size(300));
	c.show([&] { return std::to_string(v); });
	const std::string s = floaxie::print_binary(v);
	if (s != bin(v, sizeof(T) * 8)) c.fail("printed as " + s + ", expected " + bin(v, sizeof(T) * 8));
	c.nontrivial(v);
}

static void dbl(Ctx& c)
{
	const double v = c.chance(1, 6) ? oracle::from_bits<double>(c.bits()) : gen::finite<double>(c);
	c.show([&] { return oracle::describe(v); });
	const uint64_t b = oracle::bits(v);
	const std::string x = bin(b, 64), e = x.substr(0, 1) + " " + x.substr(1, 11) + " " + x.substr(12);
	const std::string s = floaxie::print_binary(v);
	if (s != e) c.fail("printed as " + s + ", expected " + e);
	c.label(std::isfinite(v) ? "finite" : "special");
	c.nontrivial(b);
}

#ifndef SKIP_PRESENTATION
// The working format of the algorithms: hidden bit, fraction, rounding bit and the rest.
template<typename T> void presentation(Ctx& c)
{
	T v = static_cast<T>(c.bits());
	if (c.draw(3) == 0) v = static_cast<T>(T(1) << c.draw(sizeof(T) * 8));
	else if (c.draw(3) == 0) v = static_cast<T>(c.size(300));
	c.show([&] { return std::to_string(v); });
	const std::string x = bin(v, 64), e = x.substr(0, 1) + " " + x.substr(1, 52) + " " + x.substr(53, 1) + " " + x.substr(54);
	const std::string s = floaxie::print_double_presentation(v);
	if (s != e) c.fail("presented as " + s + ", expected " + e);
	c.nontrivial(mix(v) + 1);
}
#endif

#ifndef SKIP_STREAM
template<typename F> void stream(Ctx& c)
{
	typedef typename floaxie::diy_fp<F>::mantissa_storage_type M;
	const M f = c.draw(4) ? static_cast<M>(c.bits()) : static_cast<M>(c.size(100));
	const int e = static_cast<int>(c.draw(3) ? c.range(-1200, 1200) : static_cast<int64_t>(static_cast<int32_t>(c.bits())));
	c.show([&] { return std::to_string(f) + ", " + std::to_string(e); });
	std::ostringstream os;
	os << floaxie::diy_fp<F>(f, e);
	const std::string x = "(f = " + bin(f, sizeof(M) * 8) + ", e = " + std::to_string(e) + ")";
	if (os.str() != x) c.fail("streamed as " + os.str() + ", expected " + x);
	c.nontrivial(mix(static_cast<uint64_t>(f)) ^ static_cast<uint64_t>(e));
}
#endif

int main(int argc, char** argv)
{
	std::vector<Prop> p = {
		{"unsigned char", 300000, 1000000, integer<unsigned char>, nullptr},
		{"unsigned short", 1000000, 10000000, integer<unsigned short>, nullptr},
		{"unsigned int", 3000000, 100000000, integer<unsigned int>, nullptr},
		{"unsigned long", 3000000, 100000000, integer<unsigned long>, nullptr},
		{"unsigned long long", 2000000, 100000000, integer<unsigned long long>, nullptr},
		{"double", 4000000, 100000000, dbl, nullptr},
#ifndef SKIP_PRESENTATION
		{"presentation, unsigned long", 1500000, 50000000, presentation<unsigned long>, nullptr},
		{"presentation, unsigned int", 500000, 10000000, presentation<unsigned int>, nullptr},
#endif
#ifndef SKIP_STREAM
		{"stream, double", 1500000, 50000000, stream<double>, nullptr},
		{"stream, float", 1500000, 50000000, stream<float>, nullptr},
#endif
	};
	return run(argc, argv, p, "random unsigned integers of every width, doubles and extended values, compared with bits written one by one; non-trivial: every distinct value", {});
}
