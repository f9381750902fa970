// Conversions interrupted by others in the same thread. Built by clang with a callback for every executed block and
// every access to memory, which starts another conversion at a chosen one.
#include "lib.h"
using namespace pbt;

struct Op { int kind; double d; float f; std::string text; };

struct Got
{
	std::string text;
	uint64_t bits;
	int status;
	long long length;
	bool operator==(const Got& o) const { return text == o.text && bits == o.bits && status == o.status && length == o.length; }
	std::string str() const
	{
		char b[120];
		std::snprintf(b, sizeof b, " bits %llx, status %d, length %lld", (unsigned long long)bits, status, length);
		return quoted(text) + b;
	}
};

struct Interruption { long point; const Op* op; Got outcome; bool happened; Interruption* inner; };

struct Frame { long steps; Interruption* list; size_t n, next; };

static Frame* active = nullptr;
static Interruption* in_fallback = nullptr; // what the next fallback starts itself
static volatile bool counting = false;
static Got perform(const Op& op, Interruption* list, size_t n, long* steps = nullptr);

extern "C" __attribute__((no_sanitize("coverage"))) void __sanitizer_cov_trace_pc_guard_init(uint32_t*, uint32_t*) {}
static inline __attribute__((no_sanitize("coverage"), always_inline)) void step()
{
	if (!counting) return;
	Frame* const f = active;
	++f->steps;
	while (f->next < f->n && f->steps >= f->list[f->next].point)
	{
		counting = false;
		const int saved = errno; // as every signal handler has to do
		Interruption& i = f->list[f->next++];
		i.outcome = perform(*i.op, i.inner, i.inner ? 1 : 0);
		i.happened = true;
		active = f;
		errno = saved;
		counting = true;
	}
}

extern "C"
{
#define CALLBACK(name, type) __attribute__((no_sanitize("coverage"))) void __sanitizer_cov_##name(type*) { step(); }
CALLBACK(trace_pc_guard, uint32_t)
CALLBACK(load1, uint8_t) CALLBACK(load2, uint16_t) CALLBACK(load4, uint32_t) CALLBACK(load8, uint64_t) CALLBACK(load16, __int128)
CALLBACK(store1, uint8_t) CALLBACK(store2, uint16_t) CALLBACK(store4, uint32_t) CALLBACK(store8, uint64_t) CALLBACK(store16, __int128)
#undef CALLBACK
}

struct Counted { Counted() { counting = true; } ~Counted() { counting = false; } };

template<typename F, typename C> Got print(F v)
{
	C b[64];
	for (auto& ch : b) ch = C('#');
	size_t n;
	{
		Counted k;
		n = floaxie::ftoa(v, b);
	}
	Got o{std::string(), 0, 0, static_cast<long long>(n)};
	for (size_t i = 0; i < 64 && b[i]; ++i) o.text += static_cast<char>(b[i]);
	return o;
}

template<typename F, typename C> Got parse(const std::string& s)
{
	const auto w = gen::widen<C>(s);
	C* e = nullptr;
	floaxie::value_and_status<F> r;
	{
		Counted k;
		r = floaxie::atof<F>(w.c_str(), &e, [](const C* p, C** te) -> F
		{
			counting = false;
			if (Interruption* const i = in_fallback)
			{
				in_fallback = nullptr;
				Frame* const f = active;
				const int saved = errno;
				i->outcome = perform(*i->op, nullptr, 0);
				i->happened = true;
				active = f;
				errno = saved;
			}
			const F v = lib::reference_fallback<F>(p, te);
			counting = true;
			return v;
		});
	}
	return Got{std::string(), static_cast<uint64_t>(oracle::bits(r.value)), static_cast<int>(r.status), static_cast<long long>(e - w.c_str())};
}

template<typename F> Got wrapped(F v)
{
	Got o{std::string(), 0, 0, 0};
	{
		Counted k;
		o.text = floaxie::to_string(v);
	}
	return o;
}

static Got perform(const Op& op, Interruption* list, size_t n, long* steps)
{
	Frame here{0, list, n, 0};
	active = &here;
	Got o;
	switch (op.kind)
	{
	case 0: o = print<double, char>(op.d); break;
	case 1: o = print<float, char>(op.f); break;
	case 2: o = print<double, wchar_t>(op.d); break;
	case 3: o = print<float, char16_t>(op.f); break;
	case 4: o = parse<double, char>(op.text); break;
	case 5: o = parse<float, char>(op.text); break;
	case 6: o = parse<double, wchar_t>(op.text); break;
	case 7: o = parse<float, char16_t>(op.text); break;
	case 8: o = wrapped(op.d); break;
	default: o = wrapped(op.f); break;
	}
	if (steps) *steps = here.steps;
	return o;
}

static const char* const kinds[] = {"print double", "print float", "print double to wchar_t", "print float to char16_t", "parse double", "parse float", "parse double from wchar_t", "parse float from char16_t", "double to string", "float to string"};

static Op make(Ctx& c, bool printing_only)
{
	Op op{static_cast<int>(c.draw(printing_only ? 4 : 10)), 0, 0, std::string()};
	switch (op.kind)
	{
	case 0: case 2: case 8: op.d = gen::finite<double>(c); break;
	case 1: case 3: case 9: op.f = gen::finite<float>(c); break;
	case 4: case 6: op.text = c.draw(4) ? gen::number<double>(c) : gen::text<double>(c); break;
	default: op.text = c.draw(4) ? gen::number<float>(c) : gen::text<float>(c); break;
	}
	for (char& ch : op.text) if (!ch) ch = '0';
	return op;
}

static std::string describe(const Op& op)
{
	std::string s = std::string(kinds[op.kind]) + " ";
	switch (op.kind)
	{
	case 0: case 2: case 8: return s + oracle::describe(op.d);
	case 1: case 3: case 9: return s + oracle::describe(op.f);
	default: return s + quoted(op.text);
	}
}

template<bool printing_only> void interrupted(Ctx& c)
{
	const Op outer = make(c, printing_only);
	const size_t n = 1 + c.draw(3);
	std::vector<Op> ops, inner;
	std::vector<Interruption> list(n), nested(n);
	ops.reserve(n);
	inner.reserve(n);
	long total = 0;
	const Got alone = perform(outer, nullptr, 0, &total);
	std::vector<Got> expected(n), expected_inner(n);
	for (size_t i = 0; i < n; ++i)
	{
		ops.push_back(c.draw(5) ? make(c, printing_only) : outer);
		long steps = 0;
		expected[i] = perform(ops[i], nullptr, 0, &steps);
		list[i] = Interruption{1 + static_cast<long>(c.draw(static_cast<uint64_t>(std::max(total, 1L)))), &ops[i], Got(), false, nullptr};
		inner.push_back(outer);
		if (c.draw(4) == 0)
		{
			inner[i] = make(c, printing_only);
			expected_inner[i] = perform(inner[i], nullptr, 0);
			nested[i] = Interruption{1 + static_cast<long>(c.draw(static_cast<uint64_t>(std::max(steps, 1L)))), &inner[i], Got(), false, nullptr};
			list[i].inner = &nested[i];
		}
	}
	std::sort(list.begin(), list.end(), [](const Interruption& a, const Interruption& b) { return a.point < b.point; });
	c.show([&]
	{
		std::string s = describe(outer);
		for (const auto& i : list)
		{
			s += "; after " + std::to_string(i.point) + " of " + std::to_string(total) + " steps " + describe(*i.op);
			if (i.inner) s += ", after " + std::to_string(i.inner->point) + " steps of this " + describe(*i.inner->op);
		}
		return s;
	});
	const Got got = perform(outer, list.data(), n);
	if (!(got == alone))
		c.fail("interrupted: " + got.str() + ", alone: " + alone.str());
	size_t happened = 0;
	for (const auto& i : list)
	{
		const size_t k = static_cast<size_t>(i.op - ops.data());
		if (!i.happened) continue;
		++happened;
		if (!(i.outcome == expected[k]))
			c.fail(describe(*i.op) + " during another conversion: " + i.outcome.str() + ", alone: " + expected[k].str());
		if (i.inner && i.inner->happened && !(i.inner->outcome == expected_inner[k]))
			c.fail(describe(*i.inner->op) + " during two other conversions: " + i.inner->outcome.str() + ", alone: " + expected_inner[k].str());
	}
	const Got again = perform(outer, nullptr, 0);
	if (!(again == alone))
		c.fail("afterwards: " + again.str() + ", before: " + alone.str());
	if (c.draw(2))
		for (size_t i = 0; i < n; ++i)
		{
			const Got later = perform(ops[i], nullptr, 0);
			if (!(later == expected[i]))
				c.fail(describe(ops[i]) + " later: " + later.str() + ", before: " + expected[i].str());
		}
	c.label(happened == n ? "all interruptions took place" : happened ? "some interruptions took place" : "no interruption took place");
	if (happened) {
		std::string all = describe(outer);
		for (const auto& i : list) all += std::to_string(i.point) + describe(*i.op);
		c.nontrivial(hash_str(all));
	}
}

/** The fallback itself, called by the library, uses the library for something else. */
template<typename F> void from_fallback(Ctx& c)
{
	Op outer = make(c, false);
	if (outer.kind < 4 || outer.kind > 7 || c.draw(2))
	{
		outer.kind = sizeof(F) == 8 ? 4 : 5;
		if (c.draw(2)) outer.kind += 2;
		outer.text = c.draw(2) ? gen::notation(c, gen::halfway<F>(c, gen::positive<F>(c))) : gen::number<F>(c);
		for (char& ch : outer.text) if (!ch) ch = '0';
	}
	const Op other = c.draw(6) ? make(c, false) : outer;
	c.show([&] { return describe(outer) + ", in whose fallback: " + describe(other); });
	const Got alone = perform(outer, nullptr, 0), expected = perform(other, nullptr, 0);
	Interruption i{0, &other, Got(), false, nullptr};
	in_fallback = &i;
	const Got got = perform(outer, nullptr, 0);
	in_fallback = nullptr;
	if (!(got == alone)) c.fail("with another conversion in the fallback: " + got.str() + ", alone: " + alone.str());
	if (i.happened && !(i.outcome == expected)) c.fail(describe(other) + " in a fallback: " + i.outcome.str() + ", alone: " + expected.str());
	c.label(i.happened ? "conversion in the fallback" : "no fallback");
	if (i.happened) c.nontrivial(hash_str(describe(outer) + describe(other)));
}

int main(int argc, char** argv)
{
	std::vector<Prop> p = {
		{"printing", 2000000, 100000000, interrupted<true>, nullptr},
		{"everything", 2000000, 100000000, interrupted<false>, nullptr},
		{"double, in the fallback", 1000000, 100000000, from_fallback<double>, nullptr},
		{"float, in the fallback", 1000000, 100000000, from_fallback<float>, nullptr},
	};
	return run(argc, argv, p,
		"a conversion interrupted by up to three others, which may be interrupted by a further one, after chosen numbers of executed blocks of, and accesses to memory by, the library (compiler instrumentation, deterministic), or by one which the fallback makes; non-trivial: at least one interruption took place",
		{"the interrupting code preserves errno, as signal handlers have to; the C library's functions and the fallback aren't interrupted"});
}
