#include "lib.h"
#include <thread>
using namespace pbt;

// Conversions made by several threads at once, under ThreadSanitizer. The
// results are compared with those of a single thread, which are calculated
// afterwards, so that nothing is warmed up before the threads start.
enum Kind { parse_d, parse_f, wparse_d, wparse_f, u16parse_d, print_d, print_f, print_w, print_u16, print_u32, string_d, string_f, from_d, from_f, kinds };

struct Op
{
	int kind;
	size_t text; // in the shared or the own pool
	bool shared;
	double d;
	float f;
};

struct Result
{
	uint64_t value = 0;
	int status = -1;
	long long consumed = -1;
	std::string out;
	bool operator==(const Result& o) const { return value == o.value && status == o.status && consumed == o.consumed && out == o.out; }
};

struct Texts
{
	std::vector<std::string> n;
	std::vector<std::wstring> w;
	std::vector<std::u16string> u;
};

template<typename F> static uint64_t canonical(F v)
{
	if (v != v) return ~uint64_t(0);
	return static_cast<uint64_t>(oracle::bits(v));
}

template<typename C> static std::string narrow(const std::basic_string<C>& s)
{
	std::string r;
	for (C c : s) r += static_cast<unsigned long>(c) < 128 ? static_cast<char>(c) : '?';
	return r;
}

template<typename P> static void take(Result& r, const P& p)
{
	r.value = canonical(p.value);
	r.status = static_cast<int>(p.status);
	r.consumed = p.consumed;
}

static Result perform(const Op& o, const Texts& t)
{
	Result r;
	size_t l = 0;
	switch (o.kind)
	{
	case parse_d: take(r, lib::parse<double>(t.n[o.text].c_str())); break;
	case parse_f: take(r, lib::parse<float>(t.n[o.text].c_str())); break;
	case wparse_d: take(r, lib::parse<double>(t.w[o.text].c_str())); break;
	case wparse_f: take(r, lib::parse<float>(t.w[o.text].c_str())); break;
	case u16parse_d: take(r, lib::parse<double>(t.u[o.text].c_str())); break;
	case print_d: r.out = lib::print<char>(o.d, &l); r.consumed = static_cast<long long>(l); break;
	case print_f: r.out = lib::print<char>(o.f, &l); r.consumed = static_cast<long long>(l); break;
	case print_w: r.out = narrow(lib::print<wchar_t>(o.d, &l)); r.consumed = static_cast<long long>(l); break;
	case print_u16: r.out = narrow(lib::print<char16_t>(o.f, &l)); r.consumed = static_cast<long long>(l); break;
	case print_u32: r.out = narrow(lib::print<char32_t>(o.d, &l)); r.consumed = static_cast<long long>(l); break;
	case string_d: r.out = floaxie::to_string(o.d); break;
	case string_f: r.out = narrow(floaxie::to_wstring(o.f)); break;
	case from_d: { const auto x = floaxie::from_string<double>(t.n[o.text]); r.value = canonical(x.value); r.status = static_cast<int>(x.status); break; }
	default: { const auto x = floaxie::from_string<float>(t.w[o.text]); r.value = canonical(x.value); r.status = static_cast<int>(x.status); break; }
	}
	return r;
}

static const char* kind_name(int k)
{
	static const char* n[] = {"atof<double>", "atof<float>", "atof<double>(wchar_t)", "atof<float>(wchar_t)", "atof<double>(char16_t)", "ftoa(double)", "ftoa(float)", "ftoa(double, wchar_t)", "ftoa(float, char16_t)", "ftoa(double, char32_t)", "to_string(double)", "to_wstring(float)", "from_string<double>", "from_string<float>(wchar_t)"};
	return n[k];
}

static void make_texts(Ctx& c, Texts& t, size_t n)
{
	for (size_t i = 0; i < n; ++i)
	{
		std::string s;
		switch (c.draw(6))
		{
		case 0: s = gen::number<double>(c); break;
		case 1: s = gen::number<float>(c); break;
		case 2: s = gen::notation(c, gen::halfway<double>(c, gen::positive<double>(c))); break; // fallback
		case 3: s = c.draw(2) ? "1e999" : "1e-999"; break;
		case 4: s = gen::special(c); break;
		default: s = gen::text<double>(c); break;
		}
		if (s.size() > 1500) s.resize(1500);
		for (auto& ch : s) if (!ch || (ch & 0x80)) ch = '?';
		t.n.push_back(s);
		t.w.push_back(gen::widen<wchar_t>(s));
		t.u.push_back(gen::widen<char16_t>(s));
	}
}

struct Plan
{
	Texts shared;
	std::vector<Texts> own;
	std::vector<std::vector<Op>> ops;
};

static Plan make(Ctx& c)
{
	Plan p;
	const size_t threads = 2 + c.draw(5), shared = 1 + c.draw(4), length = 1 + c.draw(12);
	make_texts(c, p.shared, shared);
	const bool alike = c.draw(3) == 0; // all of them do the same at the same time
	const int alike_kind = static_cast<int>(c.draw(kinds));
	for (size_t i = 0; i < threads; ++i)
	{
		Texts t;
		const size_t own = 1 + c.draw(3);
		make_texts(c, t, own);
		std::vector<Op> ops;
		for (size_t k = 0; k < length; ++k)
		{
			Op o;
			o.kind = alike ? alike_kind : static_cast<int>(c.draw(kinds));
			o.shared = c.draw(2);
			o.text = c.draw(o.shared ? shared : own);
			o.d = c.draw(10) ? gen::finite<double>(c) : c.draw(2) ? HUGE_VAL : std::nan("");
			o.f = c.draw(10) ? gen::finite<float>(c) : c.draw(2) ? -HUGE_VALF : std::nanf("");
			ops.push_back(o);
		}
		p.own.push_back(t);
		p.ops.push_back(ops);
	}
	return p;
}

static std::string show(const Plan& p)
{
	std::ostringstream o;
	for (size_t i = 0; i < p.ops.size(); ++i)
	{
		o << "thread " << i << ": ";
		for (const Op& k : p.ops[i])
		{
			o << kind_name(k.kind) << "(";
			if (k.kind == print_d || k.kind == print_w || k.kind == print_u32 || k.kind == string_d) o << oracle::describe(k.d);
			else if (k.kind == print_f || k.kind == print_u16 || k.kind == string_f) o << oracle::describe(k.f);
			else o << (k.shared ? "shared " : "") << quoted((k.shared ? p.shared : p.own[i]).n[k.text], 60);
			o << ") ";
		}
		o << "| ";
	}
	return o.str();
}

static std::string perform_all(const Plan& p)
{
	const size_t n = p.ops.size();
	std::vector<std::vector<Result>> got(n);
	std::atomic<size_t> ready(0);
	std::vector<std::thread> threads;
	for (size_t i = 0; i < n; ++i)
	{
		got[i].resize(p.ops[i].size());
		threads.emplace_back([&, i]
		{
			// relaxed, so that nothing but the start orders the threads
			ready.fetch_add(1, std::memory_order_relaxed);
			while (ready.load(std::memory_order_relaxed) < n) std::this_thread::yield();
			for (size_t k = 0; k < p.ops[i].size(); ++k)
				got[i][k] = perform(p.ops[i][k], p.ops[i][k].shared ? p.shared : p.own[i]);
		});
	}
	for (auto& t : threads) t.join();
	for (size_t i = 0; i < n; ++i)
		for (size_t k = 0; k < p.ops[i].size(); ++k)
		{
			const Result alone = perform(p.ops[i][k], p.ops[i][k].shared ? p.shared : p.own[i]);
			const Result& g = got[i][k];
			if (!(alone == g))
				return "thread " + std::to_string(i) + ", operation " + std::to_string(k) + " (" + kind_name(p.ops[i][k].kind) + "): got " + std::to_string(g.value) + " \"" + g.out + "\" status " + std::to_string(g.status) + " length " + std::to_string(g.consumed)
					+ ", alone " + std::to_string(alone.value) + " \"" + alone.out + "\" status " + std::to_string(alone.status) + " length " + std::to_string(alone.consumed);
		}
	return "";
}

static void note(Ctx& c, const Plan& p)
{
	c.show([&] { return show(p); });
	bool shared = false, fallback = false;
	for (const auto& t : p.ops) for (const Op& o : t) { shared |= o.shared; fallback |= o.kind < print_d || o.kind >= from_d; }
	if (shared) c.label("shared texts");
	if (fallback) c.label("parsing");
	c.label(p.ops.size() > 4 ? "5 or 6 threads" : p.ops.size() > 2 ? "3 or 4 threads" : "2 threads");
	c.nontrivial(hash_bytes(c.record().data(), c.record().size() * 8));
}

static void warm(Ctx& c)
{
	const Plan p = make(c);
	note(c, p);
	const std::string r = perform_all(p);
	if (!r.empty()) c.fail(r);
}

// the very first conversions of a process are concurrent
static void cold(Ctx& c)
{
	const Plan p = make(c);
	note(c, p);
	int fd[2];
	if (pipe(fd)) internal_error("pipe");
	const pid_t pid = fork();
	if (pid == 0)
	{
		close(fd[0]);
		watch(nullptr);
		dup2(fd[1], 2);
		const std::string r = perform_all(p);
		if (!r.empty()) { std::fprintf(stderr, "%s\n", r.c_str()); _exit(42); }
		_exit(0);
	}
	close(fd[1]);
	std::string err;
	char b[4096];
	ssize_t n;
	while ((n = read(fd[0], b, sizeof b)) > 0) if (err.size() < 3500) err.append(b, static_cast<size_t>(n));
	close(fd[0]);
	int st = 0;
	while (waitpid(pid, &st, 0) < 0 && errno == EINTR) { }
	if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0))
		c.fail((WIFEXITED(st) && WEXITSTATUS(st) == 77 ? "does not terminate (20 s of CPU time)\n" : "") + err.substr(0, 3500));
}

int main(int argc, char** argv)
{
	std::vector<Prop> p = {
		{"cold", 4000, 100000, cold, nullptr},
		{"warm", 40000, 1500000, warm, nullptr},
	};
	return run(argc, argv, p,
		"plans for 2..6 threads with up to 12 conversions each (parsing and printing in several character types, to and from strings, of shared and own texts), executed concurrently under ThreadSanitizer, in fresh ('cold') and used processes, each result compared with that of a single thread; non-trivial: every distinct plan",
		{"ThreadSanitizer (happens-before) reports races of the observed executions; schedules are those the scheduler produces", "the C library's conversions are free of races"});
}
