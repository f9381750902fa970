// The stack a conversion needs: it runs on one of its own, which is painted before.
#include "lib.h"
#include <ucontext.h>
#include <sys/mman.h>
#include <unistd.h>
#include <functional>
using namespace pbt;

// Measured on the unchanged tree: under 1 KiB (under 2 KiB without optimisation).
constexpr size_t limit = 4 << 10, size = 256 << 10;

struct Stack
{
	unsigned char* base;
	ucontext_t own, caller;
	size_t lowest = 0; // nothing is painted over below
	const std::function<void()>* task = nullptr;
	std::exception_ptr problem;
	Stack()
	{
		const size_t page = static_cast<size_t>(sysconf(_SC_PAGESIZE));
		char* p = static_cast<char*>(mmap(nullptr, size + page, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
		mprotect(p, page, PROT_NONE);
		base = reinterpret_cast<unsigned char*>(p + page);
	}
	static Stack& instance() { static Stack s; return s; }
	static void entry()
	{
		Stack& s = instance();
		try { (*s.task)(); }
		catch (...) { s.problem = std::current_exception(); }
	}
	/** Bytes used. */
	size_t use(const std::function<void()>& f)
	{
		task = &f;
		problem = nullptr;
		for (size_t i = lowest; i < size; i += 8)
			std::memcpy(base + i, "\xa5\x5a\xa5\x5a\xa5\x5a\xa5\x5a", 8);
		getcontext(&own);
		own.uc_stack.ss_sp = base;
		own.uc_stack.ss_size = size;
		own.uc_link = &caller;
		makecontext(&own, entry, 0);
		swapcontext(&caller, &own);
		if (problem)
			std::rethrow_exception(problem);
		for (lowest = 0; lowest < size && !std::memcmp(base + lowest, "\xa5\x5a\xa5\x5a\xa5\x5a\xa5\x5a", 8); lowest += 8) ;
		return size - lowest;
	}
};

static size_t nothing() // what the call itself takes
{
	static const size_t n = Stack::instance().use([] {});
	return n;
}

static void judge(Ctx& c, const char* what, const std::function<void()>& f)
{
	size_t used = Stack::instance().use(f);
	// a signal handler or the loader may have been there, too
	for (int i = 0; i < 5 && used > limit + nothing(); ++i)
		used = std::min(used, Stack::instance().use(f));
	used = used > nothing() ? used - nothing() : 0;
	if (used > limit) c.fail(std::string(what) + " takes " + std::to_string(used) + " bytes of the stack");
	c.label(used < 512 ? "under 512 bytes" : used < 1024 ? "under 1 KiB" : used < 2048 ? "under 2 KiB" : used < 4096 ? "under 4 KiB" : "4 KiB or more");
}

template<typename F> std::string any_text(Ctx& c)
{
	if (c.draw(3))
	{
		std::string t = gen::text<F>(c);
		for (char& ch : t) if (!ch) ch = '0';
		return t;
	}
	auto n = [&] { return c.size(c.draw(6) ? 2040 : 20000); };
	std::string t = c.draw(3) ? "" : "-";
	switch (c.draw(6))
	{
	case 0: return t + "0." + gen::zeros(n()) + gen::digit_string(c, 1 + c.draw(30));
	case 1: return t + gen::digit_string(c, 1 + c.draw(20)) + gen::zeros(n()) + "." + gen::digit_string(c, n());
	case 2: return t + gen::zeros(n()) + gen::digit_string(c, 1 + c.draw(20));
	case 3: return t + "nan(" + gen::digit_string(c, n()) + (c.draw(2) ? ")" : "");
	case 4: return t + gen::digit_string(c, 1 + c.draw(20)) + "e" + (c.draw(2) ? "-" : "") + gen::zeros(n()) + gen::digit_string(c, 1 + c.draw(300));
	default: return t + gen::digit_string(c, n()) + gen::soup(c, n());
	}
}

template<typename F, typename C> void parsing(Ctx& c)
{
	const std::string t = any_text<F>(c);
	const auto s = gen::widen<C>(t);
	c.show([&] { return quoted(t); });
	C* e = nullptr;
	const bool string = c.draw(4) == 0;
	judge(c, "parsing", [&] {
		if (string)
			floaxie::from_string<F>(s, [](const C*, C**) -> F { return 1; });
		else
			floaxie::atof<F>(s.c_str(), &e, [](const C* p, C** pe) -> F { *pe = const_cast<C*>(p); return 1; });
	});
	c.label(s.size() > 2048 ? "over 2048 characters" : s.size() > 100 ? "over 100 characters" : "short");
	if (s.size() > 2) c.nontrivial(hash_str(t));
}

template<typename F, typename C> void printing(Ctx& c)
{
	const F v = c.draw(30) ? gen::finite<F>(c) : c.draw(2) ? std::numeric_limits<F>::quiet_NaN() : -std::numeric_limits<F>::infinity();
	c.show([&] { return oracle::describe(v); });
	C b[64];
	std::basic_string<C> s;
	judge(c, "printing", [&] { floaxie::ftoa(v, b); });
	judge(c, "printing to a string", [&] { s = floaxie::to_basic_string<F, C>(v); });
	c.nontrivial(oracle::bits(v));
}

int main(int argc, char** argv)
{
	std::vector<Prop> p = {
		{"parse double char", 600000, 30000000, parsing<double, char>, nullptr},
		{"parse float char", 600000, 30000000, parsing<float, char>, nullptr},
		{"parse double wchar_t", 200000, 10000000, parsing<double, wchar_t>, nullptr},
		{"parse float char16_t", 200000, 10000000, parsing<float, char16_t>, nullptr},
		{"print double char", 400000, 20000000, printing<double, char>, nullptr},
		{"print float char", 400000, 20000000, printing<float, char>, nullptr},
		{"print double char32_t", 200000, 10000000, printing<double, char32_t>, nullptr},
		{"print float wchar_t", 200000, 10000000, printing<float, wchar_t>, nullptr},
	};
	return run(argc, argv, p,
		"texts of up to 40000 characters in every notation and values, converted on a painted stack; non-trivial: every distinct text of more than two characters, every distinct value", {});
}
