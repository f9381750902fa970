#include "lib.h"
#include <functional>
using namespace pbt;

// Every allocation of the process goes through here.
extern "C" void* __libc_malloc(size_t);
extern "C" void __libc_free(void*);
extern "C" void* __libc_calloc(size_t, size_t);
extern "C" void* __libc_realloc(void*, size_t);
extern "C" void* __libc_memalign(size_t, size_t);
static volatile long allocated = 0, released = 0;
static volatile size_t demanded = 0; // bytes
extern "C" void* malloc(size_t n) { void* p = __libc_malloc(n); allocated = allocated + (p != nullptr); demanded = demanded + n; return p; }
extern "C" void free(void* p) { released = released + (p != nullptr); __libc_free(p); }
extern "C" void* calloc(size_t n, size_t m) { void* p = __libc_calloc(n, m); allocated = allocated + (p != nullptr); demanded = demanded + n * m; return p; }
extern "C" void* realloc(void* o, size_t n)
{
	void* p = __libc_realloc(o, n);
	demanded = demanded + n;
	if (p) allocated = allocated + 1;
	if (o && (p || !n)) released = released + 1;
	return p;
}
extern "C" void* memalign(size_t a, size_t n) { void* p = __libc_memalign(a, n); allocated = allocated + (p != nullptr); demanded = demanded + n; return p; }
extern "C" void* aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
extern "C" int posix_memalign(void** p, size_t a, size_t n) { *p = memalign(a, n); return *p ? 0 : 12; }

struct Thrown {};

/** Runs the conversion twice: anything set up once is set up by the first one. */
template<typename Func> void measure(Ctx& c, const char* what, bool may_allocate, Func f)
{
	f();
	const long a = allocated, r = released;
	f();
	const long da = allocated - a, dr = released - r;
	if (da != dr) c.fail(std::string(what) + " allocates " + std::to_string(da) + " times and releases " + std::to_string(dr) + " times");
	if (da && !may_allocate) c.fail(std::string(what) + " allocates memory");
	if (da) c.label("some allocations");
}

template<typename F, typename C> void parsing(Ctx& c)
{
	const auto s = gen::widen<C>(gen::text<F>(c));
	c.show([&] { return lib::show(s); });
	const C* const t = s.c_str();
	C* e = nullptr;
	measure(c, "atof", true, [&] { lib::caller<F, C>::call(t, &e); });
	const bool fb = lib::fallback_used<F>(t);
	switch (c.draw(4))
	{
	case 0:
		measure(c, "from_string", true, [&] { floaxie::from_string<F>(s, lib::reference_fallback<F, C>); });
		break;
	case 1:
		measure(c, "atof with a throwing fallback", true, [&] {
			try { floaxie::atof<F>(t, &e, [](const C*, C**) -> F { throw Thrown(); }); }
			catch (const Thrown&) { }
		});
		break;
	case 2:
	{
		// the callable owns memory, too
		std::function<F (const C*, C**)> f;
		const std::string big(200, 'x');
		f = [big](const C*, C** te) -> F { if (te) *te = nullptr; return static_cast<F>(big.size()); };
		measure(c, "atof with a function object", true, [&] { floaxie::atof<F>(t, &e, f); });
		break;
	}
	default:
		measure(c, "atof without end pointer", true, [&] { floaxie::atof<F>(t, nullptr, lib::reference_fallback<F, C>); });
		break;
	}
	c.label(fb ? "fallback" : "fast path");
	if (!s.empty()) c.nontrivial(hash_bytes(s.data(), s.size() * sizeof(C)));
}

// The memory asked for doesn't depend on the length of the text (measured: 19 bytes).
template<typename F, typename C> void demand(Ctx& c)
{
	auto n = [&] { return c.size(c.draw(4) ? 2000 : 20000); };
	std::string t = c.draw(3) ? "" : "-";
	switch (c.draw(6))
	{
	case 0: t += "0." + gen::zeros(n()) + gen::digit_string(c, 1 + c.draw(30)); break;
	case 1: t += gen::digit_string(c, 1 + c.draw(20)) + gen::zeros(n()) + (c.draw(2) ? "." : "") + gen::digit_string(c, n()); break;
	case 2: t += gen::zeros(n()) + gen::digit_string(c, n()); break;
	case 3: t += "nan(" + gen::digit_string(c, n()) + (c.draw(2) ? ")" : ""); break;
	case 4: t += gen::digit_string(c, 1 + c.draw(9)) + (c.draw(2) ? "e-" : "E") + gen::zeros(n()) + gen::digit_string(c, n()); break;
	default: t += gen::text<F>(c) + gen::soup(c, n()); break;
	}
	const auto s = gen::widen<C>(t);
	c.show([&] { return quoted(t); });
	C* e = nullptr;
	const size_t before = demanded;
	floaxie::atof<F>(s.c_str(), &e, [](const C* p, C** te) -> F { if (te) *te = const_cast<C*>(p); return F(1); });
	const size_t bytes = demanded - before;
	if (bytes > 4096)
		c.fail(std::to_string(bytes) + " bytes asked for to parse " + std::to_string(s.size()) + " characters");
	c.label(bytes == 0 ? "no memory" : bytes <= 64 ? "up to 64 bytes" : bytes <= 1024 ? "up to 1024 bytes" : "over 1024 bytes");
	if (s.size() > 20) c.nontrivial(hash_str(t));
}

template<typename F, typename C> void printing(Ctx& c)
{
	typedef typename oracle::bits_of<F>::type B;
	const F v = c.chance(1, 20) ? oracle::from_bits<F>(static_cast<B>(c.bits())) : gen::finite<F>(c);
	c.show([&] { return oracle::describe(v); });
	C b[256];
	measure(c, "ftoa", false, [&] { floaxie::ftoa(v, b); });
	if (c.draw(4) == 0)
		measure(c, "to_basic_string", true, [&] { floaxie::to_basic_string<F, C>(v); });
	if (v != 0) c.nontrivial(oracle::bits(v));
}

int main(int argc, char** argv)
{
	std::vector<Prop> p = {
		{"parsing double", 1500000, 60000000, parsing<double, char>, nullptr},
		{"parsing float", 1500000, 60000000, parsing<float, char>, nullptr},
		{"parsing double wchar_t", 800000, 40000000, parsing<double, wchar_t>, nullptr},
		{"parsing float wchar_t", 800000, 40000000, parsing<float, wchar_t>, nullptr},
		{"parsing float char16_t", 800000, 40000000, parsing<float, char16_t>, nullptr},
		{"demand double", 300000, 20000000, demand<double, char>, nullptr},
		{"demand float", 300000, 20000000, demand<float, char>, nullptr},
		{"demand double wchar_t", 100000, 10000000, demand<double, wchar_t>, nullptr},
		{"printing double", 3000000, 150000000, printing<double, char>, nullptr},
		{"printing float", 2000000, 100000000, printing<float, char>, nullptr},
		{"printing double wchar_t", 1500000, 80000000, printing<double, wchar_t>, nullptr},
		{"printing float wchar_t", 1000000, 80000000, printing<float, wchar_t>, nullptr},
		{"printing double char16_t", 1000000, 80000000, printing<double, char16_t>, nullptr},
		{"printing float char32_t", 1500000, 80000000, printing<float, char32_t>, nullptr},
	};
	// control: the counters have to see allocations
	{
		const long a = allocated, r = released;
		{ std::vector<int> v(1000); v.resize(100000); asm volatile("" : : "r"(v.data()) : "memory"); }
		if (allocated - a < 2 || allocated - a != released - r) internal_error("allocations aren't counted");
	}
	return run(argc, argv, p,
		"texts and values of every kind through the parsing and printing functions, with allocations of the whole process counted by interposed malloc/free, incl. throwing and memory-owning fallbacks; each conversion is measured when it's made for the second time; non-trivial: text not empty, or value not zero",
		{"glibc's allocation functions are interposed; operator new of libstdc++ uses them"});
}
