#include "lib.h"
using namespace pbt;

template<typename F> void wrappers(Ctx& c)
{
	typedef typename oracle::bits_of<F>::type B;
	const F v = c.chance(1, 10) ? oracle::from_bits<F>(static_cast<B>(c.bits())) : gen::finite<F>(c);
	c.show([&] { return oracle::describe(v) + " -> " + lib::print(v); });
	size_t n[4];
	const auto a = lib::print<char>(v, n);
	const auto w = lib::print<wchar_t>(v, n + 1);
	const auto u = lib::print<char16_t>(v, n + 2);
	const auto x = lib::print<char32_t>(v, n + 3);
	if (floaxie::to_string(v) != a || a.size() != n[0]) c.fail("to_string gives " + lib::show(floaxie::to_string(v)) + ", ftoa " + lib::show(a));
	if (floaxie::to_wstring(v) != w || w.size() != n[1]) c.fail("to_wstring gives " + lib::show(floaxie::to_wstring(v)) + ", ftoa " + lib::show(w));
	if (floaxie::to_u16string(v) != u || u.size() != n[2]) c.fail("to_u16string gives " + lib::show(floaxie::to_u16string(v)) + ", ftoa " + lib::show(u));
	if (floaxie::to_u32string(v) != x || x.size() != n[3]) c.fail("to_u32string gives " + lib::show(floaxie::to_u32string(v)) + ", ftoa " + lib::show(x));
	if (floaxie::to_basic_string<F, char>(v) != a || floaxie::to_basic_string<F, char32_t>(v) != x || floaxie::to_basic_string<F, char8_t>(v) != lib::print<char8_t>(v)) c.fail("to_basic_string differs from ftoa");
	c.label(a.size() > 20 ? "over 20 characters" : a.size() > 12 ? "over 12 characters" : "short");
	if (v != 0) c.nontrivial(oracle::bits(v));
}

template<typename F, typename C> void from(Ctx& c)
{
	auto s = gen::widen<C>(gen::text<F>(c));
	if (c.chance(1, 4)) // embedded NUL
	{
		s.insert(c.draw(s.size() + 1), 1, C(0));
		c.label("embedded NUL");
	}
	c.show([&] { return lib::show(s); });
	floaxie::value_and_status<F> r;
	if (c.draw(2)) r = floaxie::from_string<F>(s);
	else r = floaxie::from_string<F>(s, lib::reference_fallback<F, C>);
	const auto e = lib::parse<F>(s.c_str());
	if (!oracle::same(r.value, e.value) || r.status != e.status)
		c.fail("from_string gives " + oracle::describe(r.value) + " " + oracle::status_name(r.status) + ", atof " + e.str());
	if (static_cast<F>(r) != r.value && !std::isnan(r.value))
		c.fail("conversion to the floating point type differs from the value");
	c.label(lib::fallback_used<F>(s.c_str()) ? "fallback" : "fast path");
	if (e.consumed > 0) c.nontrivial(hash_bytes(s.data(), s.size() * sizeof(C)));
}

template<typename F, typename C> void from16(Ctx& c)
{
	auto s = gen::widen<C>(gen::text<F>(c));
	c.show([&] { return lib::show(s); });
	const auto r = floaxie::from_string<F>(s, lib::reference_fallback<F, C>);
	const auto e = lib::parse<F>(s.c_str());
	if (!oracle::same(r.value, e.value) || r.status != e.status)
		c.fail("from_string gives " + oracle::describe(r.value) + " " + oracle::status_name(r.status) + ", atof " + e.str());
	if (e.consumed > 0) c.nontrivial(hash_bytes(s.data(), s.size() * sizeof(C)));
}

int main(int argc, char** argv)
{
	std::vector<Prop> p = {
		{"to_*string double", 3000000, 100000000, wrappers<double>, nullptr},
		{"to_*string float", 3000000, 100000000, wrappers<float>, nullptr},
		{"from_string double", 2500000, 100000000, from<double, char>, nullptr},
		{"from_string float", 2500000, 100000000, from<float, char>, nullptr},
		{"from_string wide double", 1500000, 100000000, from<double, wchar_t>, nullptr},
		{"from_string wide float", 1500000, 100000000, from<float, wchar_t>, nullptr},
		{"from_string u8", 1000000, 100000000, from16<double, char8_t>, nullptr},
		{"from_string u16", 1000000, 100000000, from16<double, char16_t>, nullptr},
		{"from_string u32", 1000000, 100000000, from16<float, char32_t>, nullptr},
	};
	return run(argc, argv, p,
		"random values through every to_*string wrapper, random texts (with embedded NULs) through from_string with and without explicit fallback, compared with the buffer interface; non-trivial: value not zero, or something consumed",
		{"differential against ftoa/atof of the same library"});
}
