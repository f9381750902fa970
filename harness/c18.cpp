#include "lib.h"
using namespace pbt;

template<typename C> bool text_equal(const std::string& a, const std::basic_string<C>& b)
{
	if (a.size() != b.size()) return false;
	for (size_t i = 0; i < a.size(); ++i)
		if (C(a[i]) != b[i]) return false;
	return true;
}

template<typename F> void printing(Ctx& c)
{
	const F v = c.chance(1, 50) ? (c.draw(3) == 0 ? std::numeric_limits<F>::quiet_NaN() : c.draw(2) ? -std::numeric_limits<F>::infinity() : std::numeric_limits<F>::infinity()) : gen::finite<F>(c);
	c.show([&] { return oracle::describe(v); });
	size_t n[6];
	const auto a = lib::print<char>(v, n);
	const auto w = lib::print<wchar_t>(v, n + 1);
	const auto u = lib::print<char16_t>(v, n + 2);
	const auto x = lib::print<char32_t>(v, n + 3);
	const auto y = lib::print<char8_t>(v, n + 4);
	const auto z = lib::print<unsigned char>(v, n + 5);
	if (!text_equal(a, w) || n[0] != n[1]) c.fail("char: " + quoted(a) + ", wchar_t: " + lib::show(w));
	if (!text_equal(a, u) || n[0] != n[2]) c.fail("char: " + quoted(a) + ", char16_t: " + lib::show(u));
	if (!text_equal(a, x) || n[0] != n[3]) c.fail("char: " + quoted(a) + ", char32_t: " + lib::show(x));
	if (!text_equal(a, y) || n[0] != n[4]) c.fail("char: " + quoted(a) + ", char8_t: " + lib::show(y));
	if (!text_equal(a, z) || n[0] != n[5]) c.fail("char: " + quoted(a) + ", unsigned char: " + lib::show(z));
	c.label(a.find('e') != std::string::npos ? "scientific" : "decimal");
	if (v != 0) c.nontrivial(oracle::bits(v));
}

template<typename F> void parsing(Ctx& c)
{
	std::string s = gen::text<F>(c);
	for (char& ch : s) ch = static_cast<char>(ch & 127) ? static_cast<char>(ch & 127) : '0';
	c.show([&] { return quoted(s); });
	const auto a = lib::parse<F>(s.c_str());
	const auto w = lib::parse<F>(gen::widen<wchar_t>(s).c_str());
	const auto u = lib::parse<F>(gen::widen<char16_t>(s).c_str());
	const auto x = lib::parse<F>(gen::widen<char32_t>(s).c_str());
	const auto y = lib::parse<F>(gen::widen<char8_t>(s).c_str());
	const auto z = lib::parse<F>(gen::widen<unsigned char>(s).c_str());
	if (!(a == w)) c.fail("char: " + a.str() + "; wchar_t: " + w.str());
	if (!(a == u)) c.fail("char: " + a.str() + "; char16_t: " + u.str());
	if (!(a == x)) c.fail("char: " + a.str() + "; char32_t: " + x.str());
	if (!(a == y)) c.fail("char: " + a.str() + "; char8_t: " + y.str());
	if (!(a == z)) c.fail("char: " + a.str() + "; unsigned char: " + z.str());
	c.label(lib::fallback_used<F>(s.c_str()) ? "fallback" : "fast path");
	if (a.consumed > 0) c.nontrivial(hash_str(s));
}

// characters outside of ASCII which resemble those of the grammar
template<typename F, typename C> void alien(Ctx& c)
{
	auto s = gen::widen<C>(c.chance(1, 4) ? gen::special(c) : gen::text<F>(c).substr(0, 60));
	for (auto& ch : s) ch = static_cast<C>(ch & 127) ? static_cast<C>(ch & 127) : C('0');
	for (size_t n = 1 + c.draw(3); n-- > 0 && !s.empty();)
	{
		const size_t p = c.draw(s.size());
		switch (c.draw(5))
		{
		case 4: // beyond the range of char and of signed types
		{
			static const uint32_t off[] = {0x80, 0xff80, 0xff00, 0x8000, 0xffffff80u, 0xffffff00u, 0x80000000u, 0xffff0000u, 0x7fffff80u, 0x10000, 0x1000000, 0x20, 0x40};
			s[p] = static_cast<C>(static_cast<uint32_t>(s[p]) + c.pick(off));
			break;
		}
		case 0: s[p] = static_cast<C>(s[p] + 0x100 * (1 + c.draw(254))); break;
		case 1: s[p] = static_cast<C>(0xff00 + (s[p] - 0x20)); break; // full width forms
		case 2: s[p] = static_cast<C>(sizeof(C) == 4 ? s[p] + (static_cast<unsigned>(1 + c.draw(30000)) << 16) : 0x660 + c.draw(10)); break;
		default:
		{
			static const unsigned other[] = {0x660, 0x669, 0x6f0, 0x966, 0xff10, 0xff0e, 0x2212, 0xff0d, 0x130, 0x131, 0x17f, 0x212a, 0xb2, 0x2160, 0xa0, 0x2002, 0x80, 0xff};
			s[p] = static_cast<C>(c.pick(other));
			break;
		}
		}
		if (s[p] == C(0)) s[p] = C('0');
	}
	c.show([&] { return lib::show(s); });
	const oracle::Expected<F> x = oracle::expect<F>(s.c_str());
	const auto r = lib::parse<F>(s.c_str());
	if (!(r == lib::expected(x)))
		c.fail("got " + r.str() + "; expected " + lib::expected(x).str());
	c.label(x.scan.end ? "something consumed" : "nothing consumed");
	if (!s.empty()) c.nontrivial(hash_bytes(s.data(), s.size() * sizeof(C)));
}

int main(int argc, char** argv)
{
	std::vector<Prop> p = {
		{"printing double", 4000000, 150000000, printing<double>, nullptr},
		{"printing float", 4000000, 150000000, printing<float>, nullptr},
		{"parsing double", 2000000, 80000000, parsing<double>, nullptr},
		{"parsing float", 2000000, 80000000, parsing<float>, nullptr},
		{"alien wchar_t", 2000000, 80000000, alien<double, wchar_t>, nullptr},
		{"alien float wchar_t", 1000000, 80000000, alien<float, wchar_t>, nullptr},
		{"alien char16_t", 2000000, 80000000, alien<double, char16_t>, nullptr},
		{"alien float char16_t", 1000000, 80000000, alien<float, char16_t>, nullptr},
		{"alien double char32_t", 1000000, 80000000, alien<double, char32_t>, nullptr},
		{"alien double char8_t", 1000000, 80000000, alien<double, char8_t>, nullptr},
		{"alien float unsigned char", 1000000, 80000000, alien<float, unsigned char>, nullptr},
		{"alien char32_t", 2000000, 80000000, alien<float, char32_t>, nullptr},
	};
	return run(argc, argv, p,
		"values printed and texts parsed in char, wchar_t, char16_t, char32_t, char8_t and unsigned char, and texts with look-alike characters; non-trivial: value not zero, something consumed, or a look-alike text",
		{"the types other than char and wchar_t use a fallback of the harness equivalent to strtod"});
}
