#include "lib.h"
using namespace pbt;

template<typename C> std::basic_string<C> add_wide(Ctx& c, const std::string& s)
{
	auto w = gen::widen<C>(s);
	if (sizeof(C) > 1 && !w.empty() && c.chance(1, 8)) // alien characters sharing the low byte, or case-folding to ASCII
	{
		static const unsigned alien[] = {0x100, 0x400, 0xff00, 0x2100};
		static const unsigned folding[] = {0x130, 0x131, 0x212a, 0x17f, 0xff49, 0xff29};
		const size_t p = c.draw(w.size());
		if (c.draw(2)) w[p] = static_cast<C>(w[p] + c.pick(alien));
		else w[p] = static_cast<C>(c.pick(folding));
	}
	return w;
}

template<typename F, typename C> void literals(Ctx& c)
{
	std::string s = gen::special(c);
	if (c.chance(1, 3)) s += gen::soup(c, c.size(8));
	if (c.chance(1, 10)) s.insert(c.draw(std::min<size_t>(s.size(), 3) + 1), gen::soup(c, 1));
	if (c.chance(1, 12)) s = gen::number<float>(c).substr(0, 40) + s;
	const auto w = add_wide<C>(c, s);
	c.show([&] { return lib::show(w); });
	const oracle::Expected<F> x = oracle::expect<F>(w.c_str());
	const auto r = lib::parse<F>(w.c_str());
	if (!(r == lib::expected(x)))
		c.fail("got " + r.str() + "; expected " + lib::expected(x).str());
	if (x.scan.what == oracle::kind::inf || x.scan.what == oracle::kind::nan)
	{
		c.label(x.scan.what == oracle::kind::inf ? (x.scan.end - (w[0] == C('-') || w[0] == C('+')) == 8 ? "infinity" : "inf") : x.scan.end > 4 ? "nan with payload" : "nan");
		if (x.scan.neg) c.label("negative");
		if (x.scan.end < w.size()) c.label("partial");
		c.nontrivial(hash_bytes(w.data(), w.size() * sizeof(C)));
	}
	else
	{
		c.label(x.scan.what == oracle::kind::none ? "no match" : "number");
	}
}

int main(int argc, char** argv)
{
	std::vector<Prop> p = {
		{"double char", 4000000, 100000000, literals<double, char>, nullptr},
		{"float char", 4000000, 100000000, literals<float, char>, nullptr},
		{"double wchar_t", 3000000, 100000000, literals<double, wchar_t>, nullptr},
		{"float wchar_t", 3000000, 100000000, literals<float, wchar_t>, nullptr},
		{"double char16_t", 3000000, 100000000, literals<double, char16_t>, nullptr},
		{"float char16_t", 2000000, 100000000, literals<float, char16_t>, nullptr},
		{"double char32_t", 2000000, 100000000, literals<double, char32_t>, nullptr},
		{"float char32_t", 3000000, 100000000, literals<float, char32_t>, nullptr},
	};
	return run(argc, argv, p,
		"spellings of the special literals with random case, sign, payload, truncation, edits, prefixes and following characters; non-trivial: a literal is recognised by the reference",
		{"reference recogniser in oracle.h; NaN sign and payload are not compared"});
}
