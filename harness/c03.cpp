#include "lib.h"
using namespace pbt;

template<typename F, typename C> void longest(Ctx& c)
{
	const std::string s = gen::text<F>(c);
	const auto w = gen::widen<C>(s);
	c.show([&] { return quoted(s); });
	const oracle::Expected<F> x = oracle::expect<F>(w.c_str());
	const auto r = lib::parse<F>(w.c_str());
	if (!(r == lib::expected(x)))
		c.fail("got " + r.str() + "; expected " + lib::expected(x).str());
	if (x.scan.what == oracle::kind::none)
	{
		c.label("no representation");
		// without consumption, nothing may be taken from the text; not even its sign
		if (!s.empty()) c.nontrivial(hash_str(s));
	}
	else
	{
		c.label(x.scan.what == oracle::kind::number ? "number" : "special");
		if (x.scan.end < s.size())
		{
			c.label("with a rest");
			c.nontrivial(hash_str(s));
		}
		else
			c.label("complete");
	}
}

// exhaustive over short strings of the significant alphabet
template<typename F> void short_strings(Ctx& c)
{
	static const char set[] = "01.e+-nia(";
	std::string s;
	const size_t n = 1 + c.draw(8);
	for (size_t i = 0; i < n; ++i)
		s += set[c.draw(sizeof set - 1)];
	c.show([&] { return quoted(s); });
	const oracle::Expected<F> x = oracle::expect<F>(s.c_str());
	const auto r = lib::parse<F>(s.c_str());
	if (!(r == lib::expected(x)))
		c.fail("got " + r.str() + "; expected " + lib::expected(x).str());
	c.label(x.scan.what == oracle::kind::none ? "no representation" : "some representation");
	if (x.scan.end < s.size())
		c.nontrivial(hash_str(s));
}

int main(int argc, char** argv)
{
	std::vector<Prop> p = {
		{"double", 4000000, 200000000, longest<double, char>, nullptr},
		{"float", 2000000, 200000000, longest<float, char>, nullptr},
		{"wide double", 1500000, 100000000, longest<double, wchar_t>, nullptr},
		{"wide float", 1500000, 100000000, longest<float, wchar_t>, nullptr},
		{"short strings", 10000000, 300000000, short_strings<double>, nullptr},
	};
	return run(argc, argv, p,
		"valid, truncated, mutilated and random texts up to 2048 characters; non-trivial: the valid prefix is not the whole text (or there is none)",
		{"reference recogniser of the documented grammar in oracle.h"});
}
