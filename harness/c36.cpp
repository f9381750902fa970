// The work of a conversion. Built by clang with a callback for every executed block.
#include "lib.h"
using namespace pbt;

static volatile bool counting = false;
static uint64_t steps;

extern "C" __attribute__((no_sanitize("coverage"))) void __sanitizer_cov_trace_pc_guard_init(uint32_t*, uint32_t*) {}
extern "C" __attribute__((no_sanitize("coverage"))) void __sanitizer_cov_trace_pc_guard(uint32_t*) { if (counting) ++steps; }

struct Counted { Counted() { steps = 0; counting = true; } ~Counted() { counting = false; } };

// Measured on the unchanged tree: under 10 steps for a character, under 100 in total for printing.
constexpr uint64_t per_character = 100, for_parsing = 10000, for_printing = 5000;

/** A text, followed by a lot of others; an inaccessible page at the end. */
template<typename C> struct Following
{
	static constexpr size_t capacity = 1 << 18, distance = 1 << 15;
	C* base;
	Following()
	{
		const size_t page = static_cast<size_t>(sysconf(_SC_PAGESIZE)), size = (capacity + distance) * sizeof(C);
		char* p = static_cast<char*>(mmap(nullptr, size + page, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
		mprotect(p + size, page, PROT_NONE);
		base = reinterpret_cast<C*>(p);
		static const char junk[] = " 1.5, 27 -3e5;nan,00001 0.5e-5 inf x.";
		for (size_t i = 0; i < distance; ++i)
			base[capacity + i] = C(junk[i % (sizeof junk - 1)]);
	}
	const C* put(const std::basic_string<C>& s)
	{
		C* p = base + capacity - s.size();
		std::copy(s.begin(), s.end(), p);
		return p;
	}
};

template<typename F> std::string long_text(Ctx& c)
{
	auto n = [&] { return c.size(c.draw(6) ? 2040 : 60000); };
	std::string t = c.draw(3) ? "" : "-";
	switch (c.draw(8))
	{
	case 0: t += "0." + gen::zeros(n()) + gen::digit_string(c, 1 + c.draw(30)); break;
	case 1: t += gen::digit_string(c, 1 + c.draw(20)) + gen::zeros(n()); if (c.draw(2)) t += "." + gen::digit_string(c, n()); break;
	case 2: t += gen::zeros(n()) + gen::digit_string(c, 1 + c.draw(20)); break;
	case 3: t += gen::digit_string(c, n()); break;
	case 4: t += "nan(" + gen::digit_string(c, n()); if (c.draw(2)) t += ")"; return t;
	case 5: t += gen::digit_string(c, 1 + c.draw(20)) + (c.draw(2) ? "e" : "E") + (c.draw(2) ? "-" : "") + gen::zeros(n()) + gen::digit_string(c, 1 + c.draw(4)); return t;
	case 6: t += "1." + gen::digit_string(c, n()); break;
	default: // digits and zeros taking turns
	{
		const size_t k = 1 + c.draw(40);
		const std::string part = gen::zeros(k) + gen::digit_string(c, 1 + c.draw(3));
		for (size_t m = n(); t.size() < m;) t += part;
		if (c.draw(2) && !t.empty()) t.insert(c.draw(t.size()), ".");
		break;
	}
	}
	if (t.empty() || t == "-") t += "1";
	if (c.draw(2)) t += gen::exponent_text(c, c.range(-2400, 2400));
	return t;
}

template<typename F, typename C> void parsing(Ctx& c)
{
	static Following<C> memory;
	std::string t = c.draw(3) == 0 ? long_text<F>(c) : gen::text<F>(c);
	for (char& ch : t) if (!ch) ch = '0';
	c.show([&] { return quoted(t); });
	const auto s = gen::widen<C>(t);
	const size_t n = s.size();
	C* e = nullptr;
	// the characters alone
	uint64_t alone, followed;
	{
		const C* p = s.c_str();
		Counted k;
		floaxie::atof<F>(p, &e, [](const C* q, C** te) -> F { counting = false; const F v = lib::reference_fallback<F>(q, te); counting = true; return v; });
	}
	alone = steps;
	if (alone > for_parsing + per_character * n)
		c.fail(std::to_string(alone) + " steps for " + std::to_string(n) + " characters");
	const long long consumed = e - s.c_str();
	// in front of many others: nothing far behind is read, and no more is done
	const C* p = memory.put(s);
	{
		Counted k;
		floaxie::atof<F>(p, &e, [&](const C*, C** te) -> F { if (te) *te = const_cast<C*>(p) + consumed; return F(1); });
	}
	followed = steps;
	if (followed > for_parsing + per_character * n)
		c.fail(std::to_string(followed) + " steps for " + std::to_string(n) + " characters with others behind");
	if (e - p != consumed)
		c.fail("consumed " + std::to_string(e - p) + " instead of " + std::to_string(consumed) + " characters with others behind");
	c.label(n > 2048 ? "over 2048 characters" : n > 100 ? "over 100 characters" : "short");
	const uint64_t rate = alone / (n + 20);
	c.label(rate < 10 ? "under 10 steps a character" : rate < 30 ? "under 30 steps a character" : rate < 60 ? "under 60 steps a character" : "60 or more steps a character");
	if (n > 20) c.nontrivial(hash_str(t));
}

// the default fallback has to leave the rest alone, too
template<typename F, typename C> void by_default(Ctx& c)
{
	static Following<C> memory;
	const std::string t = c.draw(4) ? gen::number<F>(c) : gen::special(c);
	c.show([&] { return quoted(t); });
	const auto s = gen::widen<C>(t);
	C *e = nullptr, *fe = nullptr;
	const auto a = floaxie::atof<F>(s.c_str(), &e);
	const C* p = memory.put(s);
	const auto b = floaxie::atof<F>(p, &fe);
	if (!oracle::same<F>(a.value, b.value) || a.status != b.status || e - s.c_str() != fe - p)
		c.fail("another result with others behind");
	if (lib::fallback_used<F>(s.c_str())) { c.label("fallback"); c.nontrivial(hash_str(t)); }
}

template<typename F, typename C> void printing(Ctx& c)
{
	const F v = c.draw(50) ? gen::finite<F>(c) : c.draw(2) ? std::numeric_limits<F>::quiet_NaN() : -std::numeric_limits<F>::infinity();
	c.show([&] { return oracle::describe(v); });
	C b[64];
	{
		Counted k;
		floaxie::ftoa(v, b);
	}
	if (steps > for_printing)
		c.fail(std::to_string(steps) + " steps");
	c.label(steps < 100 ? "under 100 steps" : steps < 300 ? "under 300 steps" : steps < 600 ? "under 600 steps" : "600 or more steps");
	c.nontrivial(oracle::bits(v));
}

int main(int argc, char** argv)
{
	std::vector<Prop> p = {
		{"parse double char", 400000, 20000000, parsing<double, char>, nullptr},
		{"parse float char", 400000, 20000000, parsing<float, char>, nullptr},
		{"parse double wchar_t", 150000, 8000000, parsing<double, wchar_t>, nullptr},
		{"parse float char16_t", 150000, 8000000, parsing<float, char16_t>, nullptr},
		{"fallback double char", 400000, 20000000, by_default<double, char>, nullptr},
		{"fallback float char", 400000, 20000000, by_default<float, char>, nullptr},
		{"fallback double wchar_t", 150000, 8000000, by_default<double, wchar_t>, nullptr},
		{"fallback float wchar_t", 150000, 8000000, by_default<float, wchar_t>, nullptr},
		{"print double char", 1500000, 80000000, printing<double, char>, nullptr},
		{"print float char", 1500000, 80000000, printing<float, char>, nullptr},
		{"print double char32_t", 500000, 30000000, printing<double, char32_t>, nullptr},
	};
	return run(argc, argv, p, "texts up to 60000 characters (runs of zeros, long fractions, exponents, payloads, digits and zeros taking turns) and values; executed blocks of the library counted, an inaccessible page 32768 characters behind the text; non-trivial: texts over 20 characters or by the fallback, every value",
		{"work inside of the C library (memory, fallback) isn't counted"});
}
