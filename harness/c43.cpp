// A conversion does nothing besides converting: system calls are dispatched to a signal handler while it runs.
#include "lib.h"
#include <floaxie/print.h>
#include <iostream>
#include <sstream>
#include <clocale>
#include <csignal>
#include <exception>
#include <new>
#include <dlfcn.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <ucontext.h>
#include <unistd.h>
using namespace pbt;

#ifndef PR_SET_SYSCALL_USER_DISPATCH
#define PR_SET_SYSCALL_USER_DISPATCH 59
#endif

static volatile char selector = 0;      // 1: system calls raise SIGSYS
static volatile sig_atomic_t inside = 0;
static volatile int forbidden = -1;     // the first forbidden system call
static volatile const char* consulted;  // the first function of the environment, or of time

static bool for_memory(int nr)
{
	return nr == SYS_brk || nr == SYS_mmap || nr == SYS_munmap || nr == SYS_mprotect || nr == SYS_mremap || nr == SYS_madvise || nr == SYS_futex;
}

static void on_system_call(int, siginfo_t* i, void* context)
{
	selector = 0;
	if (!for_memory(i->si_syscall) && i->si_syscall != SYS_rt_sigreturn && forbidden < 0)
		forbidden = i->si_syscall;
	// once more, for real
	auto& r = static_cast<ucontext_t*>(context)->uc_mcontext.gregs;
	r[REG_RIP] -= 2;
	r[REG_RAX] = i->si_syscall;
}

/** Whether the kernel dispatches system calls of this process. */
static bool dispatching()
{
	static pid_t who = 0;
	static bool works = false;
	const pid_t me = getpid();
	if (who != me)
	{
		who = me;
		struct sigaction a;
		std::memset(&a, 0, sizeof a);
		a.sa_sigaction = on_system_call;
		a.sa_flags = SA_SIGINFO;
		works = sigaction(SIGSYS, &a, nullptr) == 0 && prctl(PR_SET_SYSCALL_USER_DISPATCH, 1, 0, 0, &selector) == 0;
		// nothing written stays in a buffer
		std::fflush(nullptr);
		std::setvbuf(stdout, nullptr, _IONBF, 0);
		std::cout << std::unitbuf;
		std::clog << std::unitbuf;
		std::wcout << std::unitbuf;
	}
	return works;
}

#define CONSULTED(name) if (inside && !consulted) consulted = name
template<typename F> F* real(const char* name) { return reinterpret_cast<F*>(dlsym(RTLD_NEXT, name)); }
extern "C" char* getenv(const char* n) noexcept { CONSULTED("getenv"); static auto f = real<char*(const char*)>("getenv"); return f(n); }
extern "C" char* secure_getenv(const char* n) noexcept { CONSULTED("secure_getenv"); static auto f = real<char*(const char*)>("secure_getenv"); return f(n); }
extern "C" time_t time(time_t* t) noexcept { CONSULTED("time"); static auto f = real<time_t(time_t*)>("time"); return f(t); }
extern "C" clock_t clock() noexcept { CONSULTED("clock"); static auto f = real<clock_t()>("clock"); return f(); }
extern "C" int clock_gettime(clockid_t k, struct timespec* t) noexcept { CONSULTED("clock_gettime"); static auto f = real<int(clockid_t, struct timespec*)>("clock_gettime"); return f(k, t); }
extern "C" int rand() noexcept { CONSULTED("rand"); static auto f = real<int()>("rand"); return f(); }
extern "C" long random() noexcept { CONSULTED("random"); static auto f = real<long()>("random"); return f(); }
extern "C" void srand(unsigned s) noexcept { CONSULTED("srand"); static auto f = real<void(unsigned)>("srand"); f(s); }

static const char* const names[] = {"read", "write", "open", "close", "stat", "fstat", "lstat", "poll", "lseek"};

/** What a process has set up for itself. */
struct Settings
{
	std::ios_base::fmtflags flags[4];
	std::streamsize precision[4], width[4];
	std::ios_base::iostate exceptions[4];
	std::ostream *tied, *tied_err;
	std::new_handler on_memory;
	std::terminate_handler on_terminate;
	const char* locale;

	Settings()
		: tied(std::cin.tie()), tied_err(std::cerr.tie()), on_memory(std::get_new_handler()), on_terminate(std::get_terminate()), locale(std::setlocale(LC_ALL, nullptr))
	{
		std::ios* const all[] = {&std::cin, &std::cout, &std::cerr, &std::clog};
		for (int i = 0; i < 4; ++i)
		{
			flags[i] = all[i]->flags();
			precision[i] = all[i]->precision();
			width[i] = all[i]->width();
			exceptions[i] = all[i]->exceptions();
		}
	}

	const char* changed_to(const Settings& o) const
	{
		for (int i = 0; i < 4; ++i)
			if (flags[i] != o.flags[i] || precision[i] != o.precision[i] || width[i] != o.width[i] || exceptions[i] != o.exceptions[i])
				return "the format of a standard stream";
		if (tied != o.tied || tied_err != o.tied_err) return "what a standard stream is tied to";
		if (on_memory != o.on_memory) return "the new handler";
		if (on_terminate != o.on_terminate) return "the terminate handler";
		if (std::strcmp(locale, o.locale) != 0) return "the locale";
		// returns what it has been, and is set to that anyway
		if (!std::ios_base::sync_with_stdio(true)) return "the synchronisation of streams with stdio";
		return nullptr;
	}
};

template<typename Func> void watch_for(Ctx& c, const char* what, Func f)
{
	static bool works = false;
	works = dispatching();
	c.label(works ? "system calls watched" : "system calls not watched: the kernel doesn't offer it");
	const Settings before;
	forbidden = -1;
	consulted = nullptr;
	for (int i = 0; i < 2; ++i) // memory may be asked for in the first round, which stops watching
	{
		inside = 1;
		selector = works ? 1 : 0;
		f();
		selector = 0;
		inside = 0;
	}
	if (forbidden >= 0)
		c.fail(std::string(what) + " makes system call " + std::to_string(forbidden) + (forbidden < 9 ? std::string(" (") + names[forbidden] + ")" : std::string()));
	if (consulted)
		c.fail(std::string(what) + " calls " + const_cast<const char*>(consulted) + "()");
	if (const char* w = before.changed_to(Settings()))
		c.fail(std::string(what) + " changes " + w);
}

template<typename F, typename C> void parsing(Ctx& c)
{
	const auto t = gen::text<F>(c);
	const auto s = gen::widen<C>(t);
	const int number = c.draw(3) ? 0 : static_cast<int>(c.draw(140));
	const unsigned form = static_cast<unsigned>(c.draw(4));
	c.show([&] { return lib::show(s) + ", errno " + std::to_string(number); });
	C* e = nullptr;
	watch_for(c, "parsing", [&] {
		errno = number;
		switch (form)
		{
		case 0: floaxie::atof<F>(s.c_str(), &e, [](const C* p, C** pe) -> F { if (pe) *pe = const_cast<C*>(p) + 1; return 1; }); break;
		case 1: floaxie::from_string<F>(s, [](const C*, C**) -> F { return 0; }); break;
		case 2: floaxie::atof<F>(s.c_str(), nullptr, [](const C*, C**) -> F { errno = ERANGE; return std::numeric_limits<F>::infinity(); }); break;
		default: lib::caller<F, C>::call(s.c_str(), &e); break;
		}
	});
	errno = 0;
	if (t.size() > 2) c.nontrivial(hash_str(t) ^ mix(form));
}

template<typename F, typename C> void printing(Ctx& c)
{
	const F v = c.draw(10) ? gen::finite<F>(c) : oracle::from_bits<F>(static_cast<typename oracle::bits_of<F>::type>(c.bits()));
	c.show([&] { return oracle::describe(v); });
	C b[64];
	watch_for(c, "printing", [&] { floaxie::ftoa(v, b); });
	watch_for(c, "printing to a string", [&] { floaxie::to_basic_string<F, C>(v); });
	c.nontrivial(oracle::bits(v));
}

int main(int argc, char** argv)
{
	std::vector<Prop> p = {
		{"parse double char", 1500000, 60000000, parsing<double, char>, nullptr},
		{"parse float char", 1500000, 60000000, parsing<float, char>, nullptr},
		{"parse double wchar_t", 500000, 20000000, parsing<double, wchar_t>, nullptr},
		{"parse float wchar_t", 500000, 20000000, parsing<float, wchar_t>, nullptr},
		{"parse double char16_t", 300000, 20000000, parsing<double, char16_t>, nullptr},
		{"parse float char32_t", 300000, 20000000, parsing<float, char32_t>, nullptr},
		{"print double char", 1500000, 60000000, printing<double, char>, nullptr},
		{"print float char", 1500000, 60000000, printing<float, char>, nullptr},
		{"print double wchar_t", 500000, 20000000, printing<double, wchar_t>, nullptr},
		{"print float char16_t", 500000, 20000000, printing<float, char16_t>, nullptr},
	};
	return run(argc, argv, p,
		"texts with an errno and one of four fallbacks, and values, converted while every system call is handed to a signal handler; non-trivial: every distinct text of more than two characters, every distinct value", {});
}
