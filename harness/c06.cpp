#include "lib.h"
using namespace pbt;

template<typename F, typename C> void context(Ctx& c)
{
	std::string s = c.chance(1, 10) ? gen::special(c) : gen::number<F>(c);
	const oracle::Scan alone = oracle::scan(s.c_str());
	if (alone.what == oracle::kind::none || alone.end != s.size())
	{
		s.resize(alone.end);
		if (s.empty()) { c.label("generator: nothing accepted"); return; }
	}
	std::string tail;
	switch (c.draw(5))
	{
	case 0: tail = gen::soup(c, 1 + c.size(12)); break;
	case 1:
	{
		static const char* seps[] = {",", " ", "]", "}", "\n", "e", "e+", "..", ".", "-", "+", "x", "f", "e-", "E", "\"", "/", ":", "_"};
		tail = c.pick(seps) + gen::digit_string(c, 1 + c.size(20));
		break;
	}
	case 2: tail = std::string(1, static_cast<char>(1 + c.draw(255))) + gen::digit_string(c, c.size(8)); break;
	case 3: tail = " " + gen::number<F>(c) + gen::soup(c, c.size(3000)); break;
	default: tail = gen::soup(c, 1); break;
	}
	const std::string t = s + tail;
	const oracle::Scan joint = oracle::scan(t.c_str());
	if (joint.end != s.size() || joint.what != oracle::scan(s.c_str()).what)
	{
		c.label("generator: tail continues the number");
		return;
	}
	const auto ws = gen::widen<C>(s), wt = gen::widen<C>(t);
	c.show([&] { return quoted(s) + " followed by " + quoted(tail); });
	const auto r = lib::parse<F>(ws.c_str());
	const auto q = lib::parse<F>(wt.c_str());
	if (!(r == q))
		c.fail("alone: " + r.str() + "; with the tail: " + q.str());
	// without end pointer, in both forms
	const auto n1 = floaxie::atof<F>(wt.c_str(), nullptr);
	const auto n2 = floaxie::atof<F>(wt.c_str(), static_cast<C*>(nullptr) ? nullptr : static_cast<C**>(nullptr));
	const auto n3 = floaxie::from_string<F>(wt);
	auto differs = [&](const floaxie::value_and_status<F>& v) { return !oracle::same(v.value, r.value) || v.status != r.status; };
	if (differs(n1) || differs(n2))
		c.fail("without an end pointer: " + oracle::describe(n1.value) + " " + oracle::status_name(n1.status));
	if (differs(n3))
		c.fail("from_string: " + oracle::describe(n3.value) + " " + oracle::status_name(n3.status));
	// characters behind NUL
	auto z = ws;
	z.push_back(C(0));
	z += gen::widen<C>(c.draw(2) ? tail : gen::digit_string(c, 8));
	const auto n4 = floaxie::from_string<F>(z);
	const auto n5 = lib::parse<F>(z.c_str());
	if (differs(n4) || !(n5 == r))
		c.fail("with characters behind NUL " + lib::show(z) + ": " + n5.str() + "; alone: " + r.str());
	c.label(lib::fallback_used<F>(ws.c_str()) ? "fallback" : "fast path");
	if (s.size() > static_cast<size_t>(gen::traits<F>::capacity)) c.label("beyond mantissa capacity");
	c.nontrivial(hash_str(t));
}

int main(int argc, char** argv)
{
	std::vector<Prop> p = {
		{"double", 2000000, 100000000, context<double, char>, nullptr},
		{"float", 2000000, 100000000, context<float, char>, nullptr},
		{"wide double", 1500000, 60000000, context<double, wchar_t>, nullptr},
		{"wide float", 1500000, 60000000, context<float, wchar_t>, nullptr},
	};
	return run(argc, argv, p,
		"an accepted text of at most 2048 characters and a tail which can't continue it (by the reference recogniser), with and without end pointer, as string, and in front of NUL; non-trivial: any such pair",
		{"metamorphic relation; the recogniser in oracle.h decides which tails continue a number"});
}
