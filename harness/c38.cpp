// Conversions while memory runs out: the n-th allocation fails.
#include <new>
#include <cstdlib>
#include <cstddef>

static volatile long remaining = -1; // allocations until the failing one; -1: none fails
static volatile long live = 0, made = 0, refused = 0;
static volatile bool all_after = false;

static void* obtain(std::size_t n)
{
	if (remaining >= 0)
	{
		if (remaining == 0)
		{
			if (!all_after) remaining = -1;
			refused = refused + 1;
			return nullptr;
		}
		remaining = remaining - 1;
	}
	void* p = std::malloc(n ? n : 1);
	if (p) { live = live + 1; made = made + 1; }
	return p;
}
static void* obtain_or_throw(std::size_t n) { if (void* p = obtain(n)) return p; throw std::bad_alloc(); }
void* operator new(std::size_t n) { return obtain_or_throw(n); }
void* operator new[](std::size_t n) { return obtain_or_throw(n); }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { return obtain(n); }
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept { return obtain(n); }
void operator delete(void* p) noexcept { if (p) live = live - 1; std::free(p); }
void operator delete[](void* p) noexcept { if (p) live = live - 1; std::free(p); }
void operator delete(void* p, std::size_t) noexcept { if (p) live = live - 1; std::free(p); }
void operator delete[](void* p, std::size_t) noexcept { if (p) live = live - 1; std::free(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { if (p) live = live - 1; std::free(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { if (p) live = live - 1; std::free(p); }

#include "lib.h"
using namespace pbt;

/** Runs the operation with its n-th allocation failing (and all the later ones, or not), n = 0, 1, ... until none fails.
 * It has to throw bad_alloc or succeed with the right result, and to leave nothing behind. */
template<typename Op, typename Right> void starve(Ctx& c, const char* what, bool may_fail, Op op, Right right)
{
	int failures = 0;
	for (int mode = 0; mode < 2; ++mode)
		for (int n = 0; ; ++n)
		{
			if (n > 40) c.fail(std::string(what) + " allocates without end");
			bool thrown = false, fine = false;
			const long before = live, refusals = refused;
			all_after = mode;
			remaining = n;
			long after;
			{
				try
				{
					auto r = op();
					remaining = -1;
					fine = right(r);
				}
				catch (const std::bad_alloc&) { remaining = -1; thrown = true; }
			}
			after = live;
			const bool refusal = refused != refusals;
			if (after != before) c.fail(std::string(what) + " leaves " + std::to_string(after - before) + " allocations behind when allocation " + std::to_string(n) + " fails");
			if (thrown && !refusal) c.fail(std::string(what) + " throws bad_alloc by itself");
			if (thrown && !may_fail) c.fail(std::string(what) + " fails without memory");
			if (!thrown && !fine) c.fail(std::string(what) + " gives a wrong result when allocation " + std::to_string(n) + " fails");
			if (refusal) ++failures;
			else break;
		}
	// and everything is as before
	auto r = op();
	if (!right(r)) c.fail(std::string(what) + " gives a wrong result after running out of memory");
	c.label(failures ? "allocations refused" : "nothing to refuse");
}

template<typename F, typename C> void parsing(Ctx& c)
{
	const auto s = gen::widen<C>(gen::text<F>(c));
	c.show([&] { return lib::show(s); });
	const C* const t = s.c_str();
	const oracle::Expected<F> x = oracle::expect<F>(t);
	const lib::Parsed<F> expected = lib::expected(x);
	// a fallback which needs no memory
	const auto fallback = [&](const C* p, C** te) -> F { if (te) *te = const_cast<C*>(p) + x.scan.end; return x.value; };
	const int before = errno = static_cast<int>(c.draw(3)) * 17;
	starve(c, "atof", true, [&] { C* e = nullptr; const auto r = floaxie::atof<F>(t, &e, fallback); return lib::Parsed<F>{r.value, x.status, static_cast<long long>(e - t)}; },
		[&](const lib::Parsed<F>& r) { return r == expected; });
	if (errno != before) c.fail("errno changed from " + std::to_string(before) + " to " + std::to_string(errno));
	if (c.draw(3) == 0)
		starve(c, "from_string", true, [&] { return floaxie::from_string<F>(s, fallback).value; }, [&](F r) { return oracle::same(r, x.value); });
	c.label(lib::fallback_used<F>(t) ? "fallback" : "fast path");
	if (!s.empty()) c.nontrivial(hash_bytes(s.data(), s.size() * sizeof(C)));
}

template<typename F, typename C> void printing(Ctx& c)
{
	typedef typename oracle::bits_of<F>::type B;
	const F v = c.chance(1, 20) ? oracle::from_bits<F>(static_cast<B>(c.bits())) : gen::finite<F>(c);
	c.show([&] { return oracle::describe(v); });
	const std::basic_string<C> expected = lib::print<C>(v);
	C b[256];
	starve(c, "ftoa", false, [&] { return floaxie::ftoa(v, b); }, [&](size_t n) { return n == expected.size() && std::equal(b, b + n, expected.begin()) && b[n] == C(0); });
	starve(c, "to_basic_string", true, [&] { return floaxie::to_basic_string<F, C>(v); }, [&](const std::basic_string<C>& s) { return s == expected; });
	if (v != 0) c.nontrivial(oracle::bits(v));
}

int main(int argc, char** argv)
{
	std::vector<Prop> p = {
		{"parsing double", 400000, 20000000, parsing<double, char>, nullptr},
		{"parsing float", 400000, 20000000, parsing<float, char>, nullptr},
		{"parsing double wchar_t", 200000, 10000000, parsing<double, wchar_t>, nullptr},
		{"parsing float char16_t", 200000, 10000000, parsing<float, char16_t>, nullptr},
		{"printing double", 1000000, 50000000, printing<double, char>, nullptr},
		{"printing float", 1000000, 50000000, printing<float, char>, nullptr},
		{"printing double wchar_t", 400000, 20000000, printing<double, wchar_t>, nullptr},
		{"printing float char32_t", 400000, 20000000, printing<float, char32_t>, nullptr},
	};
	// control: a refused allocation has to be noticed
	{
		bool thrown = false;
		remaining = 0;
		try { std::vector<int> v(1000); asm volatile("" : : "r"(v.data()) : "memory"); }
		catch (const std::bad_alloc&) { thrown = true; }
		remaining = -1;
		if (!thrown || refused != 1) internal_error("allocations aren't refused");
	}
	return run(argc, argv, p,
		"texts and values of every kind; each conversion is repeated with its first, second, ... allocation failing, alone or with all the later ones, until it needs no more; non-trivial: text not empty, or value not zero",
		{"allocations by operator new; the fallback needs none"});
}
