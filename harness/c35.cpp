// The floating-point environment: rounding modes and exception flags.
#include "gen.h"
#include "lib.h"
#include <cfenv>
using namespace pbt;

static const int modes[] = {FE_UPWARD, FE_DOWNWARD, FE_TOWARDZERO, FE_TONEAREST};
static const char* const mode_names[] = {"upward", "downward", "towards zero", "to nearest"};

/** Everything between the calls of the environment has to stay there. */
template<typename F, typename C> struct calls
{
	static __attribute__((noinline)) void parse(const C* s, C** e, F* v) { *v = floaxie::atof<F>(s, e).value; }
	static __attribute__((noinline)) size_t print(const F* v, C* b) { return floaxie::ftoa(*v, b); }
};

struct Environment
{
	Environment(int mode, int pending) : before(mode), flags(pending) { std::fegetenv(&saved); std::feclearexcept(FE_ALL_EXCEPT); if (pending) std::feraiseexcept(pending); std::fesetround(mode); settings = control(); }
	~Environment() { std::fesetenv(&saved); }
	/** What the call has left. */
	int raised() const { return std::fetestexcept(FE_INVALID | FE_DIVBYZERO) & ~flags; }
	/** What was pending and isn't any more. */
	int dropped() const { return flags & ~std::fetestexcept(FE_ALL_EXCEPT); }
	/** Everything in the control registers which isn't an exception that has occurred. */
	static unsigned long control()
	{
		unsigned long r = static_cast<unsigned>(std::fegetround());
#if defined(__x86_64__)
		unsigned short x87;
		__asm__ __volatile__("fnstcw %0" : "=m"(x87));
		r = r << 32 | static_cast<unsigned long>(__builtin_ia32_stmxcsr() & ~0x3fu) << 16 | x87;
#endif
		return r;
	}
	int mode() const { return std::fegetround(); }
	std::fenv_t saved;
	int before, flags;
	unsigned long settings;
};

static int flags_set(Ctx& c, std::string& name)
{
	switch (c.draw(9))
	{
	case 1: name = ", inexact and underflow pending"; return FE_INEXACT | FE_UNDERFLOW;
	case 2: name = ", overflow pending"; return FE_OVERFLOW | FE_INEXACT;
	case 3: name = ", invalid operation pending"; return FE_INVALID;
	case 4: name = ", division by zero pending"; return FE_DIVBYZERO;
	case 5: name = ", all exceptions pending"; return FE_ALL_EXCEPT & (FE_INVALID | FE_DIVBYZERO | FE_OVERFLOW | FE_UNDERFLOW | FE_INEXACT);
	default: return 0;
	}
}

template<typename F, typename C> void parsing(Ctx& c)
{
	const size_t m = c.draw(c.draw(4) ? 3 : 4);
	std::string pending;
	const int flags = flags_set(c, pending);
	const std::string s = c.draw(8) ? gen::number<F>(c) : c.draw(3) ? gen::text<F>(c) : gen::special(c);
	c.show([&] { return quoted(s) + ", rounding " + mode_names[m] + pending; });
	std::basic_string<C> t(s.begin(), s.end());
	void (*volatile f)(const C*, C**, F*) = calls<F, C>::parse;
	C* e = nullptr;
	F nearest, v, libc;
	f(t.c_str(), &e, &nearest);
	const size_t n = static_cast<size_t>(e - t.c_str());
	// what the C library says about the number in this mode
	const std::string number = s.substr(0, n);
	F (*volatile reference)(const char*) = oracle::libc_parse<F>;
	int mode, raised, dropped;
	bool settings;
	C* me = nullptr;
	{
		Environment env(modes[m], flags);
		f(t.c_str(), &me, &v);
		raised = env.raised();
		dropped = env.dropped();
		settings = env.control() == env.settings;
		mode = env.mode();
		libc = reference(number.c_str());
	}
	if (mode != modes[m])
		c.fail("another rounding mode is left behind");
	if (!settings)
		c.fail("other settings of the floating-point unit are left behind");
	if (dropped)
		c.fail("exceptions pending at the call are forgotten (mask " + std::to_string(dropped) + ")");
	if (raised)
		c.fail(raised & FE_INVALID ? "an invalid operation" : "a division by zero");
	if (me != e)
		c.fail("consumed " + std::to_string(me - t.c_str()) + " characters, rounding to nearest " + std::to_string(n));
	if (!oracle::same<F>(v, nearest) && (!n || !oracle::same<F>(v, libc)))
		c.fail("parsed as " + oracle::describe<F>(v) + ", rounding to nearest " + oracle::describe<F>(nearest) + ", by the C library in this mode " + oracle::describe<F>(libc));
	if (m < 3 && n && std::isfinite(nearest))
	{
		c.label(oracle::same<F>(libc, nearest) ? "same by the C library" : oracle::same<F>(v, nearest) ? "nearest anyway" : "as the C library in the mode");
		c.nontrivial(hash_str(s) * 4 + m);
	}
}

template<typename F, typename C> void printing(Ctx& c)
{
	const size_t m = c.draw(3);
	std::string pending;
	const int flags = flags_set(c, pending);
	F x = c.draw(60) ? gen::finite<F>(c) : c.draw(2) ? std::numeric_limits<F>::infinity() : std::numeric_limits<F>::quiet_NaN();
	if (c.draw(30) == 0) x = -x;
	c.show([&] { return oracle::describe(x) + ", rounding " + mode_names[m] + pending; });
	size_t (*volatile f)(const F*, C*) = calls<F, C>::print;
	C a[64], b[64];
	std::fill(a, a + 64, C('#')); std::fill(b, b + 64, C('#'));
	const size_t na = f(&x, a);
	size_t nb;
	int mode, raised, dropped;
	bool settings;
	{
		Environment env(modes[m], flags);
		nb = f(&x, b);
		raised = env.raised();
		dropped = env.dropped();
		settings = env.control() == env.settings;
		mode = env.mode();
	}
	if (mode != modes[m])
		c.fail("another rounding mode is left behind");
	if (!settings)
		c.fail("other settings of the floating-point unit are left behind");
	if (dropped)
		c.fail("exceptions pending at the call are forgotten (mask " + std::to_string(dropped) + ")");
	if (raised)
		c.fail(raised & FE_INVALID ? "an invalid operation" : "a division by zero");
	if (na >= 64 || nb >= 64)
		c.fail("lengths " + std::to_string(na) + " and " + std::to_string(nb));
	if (na != nb || !std::equal(a, a + na + 1, b))
		c.fail("printed as " + lib::show(std::basic_string<C>(b, nb)) + ", rounding to nearest " + lib::show(std::basic_string<C>(a, na)));
	c.label(mode_names[m]);
	if (std::isfinite(x) && x != 0) c.nontrivial(static_cast<uint64_t>(oracle::bits(x)) * 3 + m);
}

int main(int argc, char** argv)
{
	std::vector<Prop> p = {
		{"print double char", 8000000, 300000000, printing<double, char>, nullptr},
		{"print float char", 8000000, 300000000, printing<float, char>, nullptr},
		{"print double wchar_t", 2000000, 100000000, printing<double, wchar_t>, nullptr},
		{"print float char16_t", 2000000, 100000000, printing<float, char16_t>, nullptr},
		{"parse double char", 3000000, 150000000, parsing<double, char>, nullptr},
		{"parse float char", 3000000, 150000000, parsing<float, char>, nullptr},
		{"parse double wchar_t", 1500000, 60000000, parsing<double, wchar_t>, nullptr},
		{"parse float wchar_t", 1500000, 60000000, parsing<float, wchar_t>, nullptr},
	};
	return run(argc, argv, p, "values and texts of every kind converted in the rounding modes upward, downward and towards zero, with and without pending exceptions; non-trivial: another mode than to nearest and a finite value (printing: not zero)",
		{"the C library honours the rounding mode when the library falls back to it"});
}
