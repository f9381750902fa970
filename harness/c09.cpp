// Built with AddressSanitizer and UndefinedBehaviorSanitizer.
#include "lib.h"
#include <cfenv>
#include <pthread.h>
#include <clocale>
using namespace pbt;

template<typename C> struct Guarded // text ends right in front of an inaccessible page
{
	char* base;
	size_t pages, page;
	explicit Guarded(size_t max_chars)
	{
		page = static_cast<size_t>(sysconf(_SC_PAGESIZE));
		pages = (max_chars * sizeof(C) + page - 1) / page + 1;
		base = static_cast<char*>(mmap(nullptr, (pages + 1) * page, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
		mprotect(base + pages * page, page, PROT_NONE);
	}
	C* put(const std::basic_string<C>& s)
	{
		C* p = reinterpret_cast<C*>(base + pages * page) - (s.size() + 1);
		std::memcpy(p, s.c_str(), (s.size() + 1) * sizeof(C));
		return p;
	}
	void writable(bool yes) { mprotect(base, pages * page, yes ? PROT_READ | PROT_WRITE : PROT_READ); }
};

template<typename F, typename C> std::basic_string<C> bytes(Ctx& c)
{
	std::basic_string<C> s;
	switch (c.draw(8))
	{
	case 0: // any code units
		for (size_t n = c.size(80); n-- > 0;)
			s += static_cast<C>(1 + c.draw(sizeof(C) == 1 ? 255 : sizeof(C) == 2 ? 65535 : 0xffffffffu));
		break;
	case 1: // over the documented maximum length
	{
		std::string t;
		switch (c.draw(5))
		{
		case 0: t = gen::digit_string(c, 2000 + c.draw(4000)); break;
		case 1: t = "0." + gen::zeros(c.draw(3000)) + gen::digit_string(c, c.draw(3000)); break;
		case 2: t = gen::zeros(2000 + c.draw(3000)) + gen::digit_string(c, c.draw(60)); break;
		case 3: t = gen::number<F>(c) + gen::soup(c, 3000); break;
		default: t = gen::digit_string(c, 2030 + c.draw(40)) + (c.draw(2) ? "." : "") + gen::digit_string(c, c.draw(40)); break;
		}
		if (c.draw(2)) t += gen::exponent_text(c, c.range(-6000, 6000));
		if (c.draw(2)) t.insert(c.draw(std::min<size_t>(t.size(), 30) + 1), ".");
		if (c.draw(2)) t = "-" + t;
		s = gen::widen<C>(t);
		break;
	}
	case 2: // exponents only
	{
		std::string t = gen::digit_string(c, 1 + c.draw(4)) + (c.draw(2) ? "e" : "E");
		if (c.draw(2)) t += c.draw(2) ? "-" : "+";
		t += gen::zeros(c.size(200)) + gen::digit_string(c, c.size(4000));
		s = gen::widen<C>(t);
		break;
	}
	case 3: // looks ahead around the end
	{
		const std::string t = gen::digit_string(c, static_cast<size_t>(c.range(gen::traits<F>::capacity - 2, gen::traits<F>::capacity + 8)));
		s = gen::widen<C>(t);
		if (c.draw(2)) s.insert(c.draw(s.size() + 1), 1, C('.'));
		break;
	}
	case 4:
		s = gen::widen<C>(gen::special(c));
		if (c.draw(2) && !s.empty()) s.resize(c.draw(s.size()) + 1);
		break;
	case 5: // prefix of the special literals with huge payload
		s = gen::widen<C>("nan(" + gen::digit_string(c, c.size(5000)) + (c.draw(2) ? ")" : ""));
		break;
	default:
		s = gen::widen<C>(gen::text<F>(c));
		break;
	}
	for (auto& ch : s)
		if (ch == C(0)) ch = C('0');
	return s;
}

template<typename F, typename C> void total(Ctx& c)
{
	static Guarded<C> guard(16384);
	const auto s = bytes<F, C>(c);
	c.show([&] { return lib::show(s); });
	// exact heap block under ASan
	std::unique_ptr<C[]> heap(new C[s.size() + 1]);
	std::memcpy(heap.get(), s.c_str(), (s.size() + 1) * sizeof(C));
	const bool state = c.draw(8) == 0;
	const int rounding = state ? fegetround() : 0;
	const std::string loc = state ? std::setlocale(LC_ALL, nullptr) : "";
	const auto r = lib::parse<F>(static_cast<const C*>(heap.get()));
	if (state && (fegetround() != rounding || loc != std::setlocale(LC_ALL, nullptr)))
		c.fail("rounding mode or locale of the process changed");
	if (r.consumed < 0 || r.consumed > static_cast<long long>(s.size()))
		c.fail("end pointer is outside of the text: " + std::to_string(r.consumed) + " of " + std::to_string(s.size()));
	if (std::memcmp(heap.get(), s.c_str(), (s.size() + 1) * sizeof(C)) != 0)
		c.fail("text was modified");
	const C* const guarded = guard.put(s);
	if (state) guard.writable(false); // as literals are
	const auto q = lib::parse<F>(guarded);
	if (state) guard.writable(true);
	if (!(q == r))
		c.fail("the result depends on the memory around the text: " + r.str() + " and " + q.str());
	const auto n = floaxie::atof<F>(static_cast<const C*>(heap.get()), nullptr, lib::reference_fallback<F, C>);
	if (!oracle::same(n.value, r.value))
		c.fail("differs without an end pointer");
	c.label(r.consumed == 0 ? "nothing consumed" : r.consumed == static_cast<long long>(s.size()) ? "all consumed" : "part consumed");
	if (s.size() > gen::text_limit) c.label("over 2048 characters");
	if (lib::fallback_used<F>(s.c_str())) c.label("fallback");
	if (!s.empty()) c.nontrivial(hash_bytes(s.data(), s.size() * sizeof(C)));
}

// A text without NUL: it ends with a character no number contains, and nothing behind this one may be read.
template<typename F, typename C> void unterminated(Ctx& c)
{
	static Guarded<C> guard(16384);
	auto s = bytes<F, C>(c);
	static const char ends[] = " ,;:\n\t\r\"'/)]}|=<*&#@!%~^";
	s += static_cast<C>(c.draw(8) ? ends[c.draw(sizeof ends - 1)] : sizeof(C) > 1 ? 0x2000 + c.draw(100) : 0x80 + c.draw(100));
	c.show([&] { return lib::show(s) + " without NUL"; });
	const long long expected = lib::parse<F>(s.c_str()).consumed;
	const C* inside[2];
	std::unique_ptr<C[]> heap(new C[s.size()]);
	std::memcpy(heap.get(), s.c_str(), s.size() * sizeof(C));
	inside[0] = heap.get();
	inside[1] = guard.put(s) + 1; // the NUL goes
	std::memcpy(const_cast<C*>(inside[1]), s.c_str(), s.size() * sizeof(C));
	for (const C* p : inside)
	{
		C* e = nullptr;
		floaxie::atof<F>(p, &e, [&](const C*, C** te) -> F { if (te) *te = const_cast<C*>(p) + expected; return F(1); });
		if (e - p != expected)
			c.fail("consumed " + std::to_string(e - p) + " characters; " + std::to_string(expected) + " with a NUL behind");
	}
	c.label(expected + 1 == static_cast<long long>(s.size()) ? "number up to the last character" : "ends earlier");
	if (s.size() > 1) c.nontrivial(hash_bytes(s.data(), s.size() * sizeof(C)));
}

// Texts of up to millions of characters, parsed with a stack of 1 MB.
template<typename C> struct Huge
{
	const C* text;
	lib::Parsed<double> d;
	lib::Parsed<float> f;
	static void* go(void* p)
	{
		Huge& h = *static_cast<Huge*>(p);
		h.d = lib::parse<double>(h.text);
		h.f = lib::parse<float>(h.text);
		return nullptr;
	}
};

template<typename C> void huge(Ctx& c)
{
	std::string t;
	auto run_of = [&](size_t n)
	{
		switch (c.draw(5))
		{
		case 0: t += gen::zeros(n); break;
		case 1: t.append(n, static_cast<char>('0' + c.draw(10))); break;
		case 2: t += gen::digit_string(c, 40) + gen::zeros(n) + gen::digit_string(c, 1 + c.draw(9)); break;
		case 3: { static const char set[] = "+-.eEnNiI(_ xa\x01\xff"; t.append(n, set[c.draw(sizeof set - 1)]); break; }
		default: { const std::string part = gen::soup(c, 1 + c.draw(20)); while (n > part.size()) { t += part; n -= part.size(); } break; }
		}
	};
	auto length = [&] { return static_cast<size_t>(c.draw(3) ? c.draw(1 << 18) : c.draw(c.draw(4) ? 1 << 20 : 1 << 22)); };
	if (c.draw(3) == 0) t += c.draw(2) ? "-" : "+";
	switch (c.draw(6))
	{
	case 0: t += "nan("; t.append(length(), c.draw(2) ? 'z' : '7'); t += c.draw(2) ? ")" : ""; break;
	case 1: t += gen::digit_string(c, 1 + c.draw(5)) + "e" + (c.draw(2) ? "-" : ""); t.append(length(), c.draw(2) ? '0' : '9'); t += gen::digit_string(c, 1 + c.draw(4)); break;
	case 2: t += "0."; run_of(length()); break;
	case 3: t += gen::text<double>(c); run_of(length()); break;
	case 4: t += c.draw(2) ? "infinity" : "inf"; run_of(length()); break;
	default: run_of(length()); run_of(length()); break;
	}
	for (auto& ch : t)
		if (!ch) ch = '0';
	c.show([&] { return quoted(t, 60) + " of " + std::to_string(t.size()) + " characters"; });
	const auto s = gen::widen<C>(t);
	std::unique_ptr<C[]> heap(new C[s.size() + 1]);
	std::memcpy(heap.get(), s.c_str(), (s.size() + 1) * sizeof(C));
	Huge<C> h;
	h.text = heap.get();
	pthread_attr_t a;
	pthread_attr_init(&a);
	pthread_attr_setstacksize(&a, 1 << 20);
	pthread_t id;
	if (pthread_create(&id, &a, Huge<C>::go, &h) != 0)
		internal_error("no thread");
	pthread_join(id, nullptr);
	pthread_attr_destroy(&a);
	if (h.d.consumed < 0 || h.d.consumed > static_cast<long long>(s.size()) || h.f.consumed < 0 || h.f.consumed > static_cast<long long>(s.size()))
		c.fail("end pointer is outside of the text: " + std::to_string(h.d.consumed) + ", " + std::to_string(h.f.consumed) + " of " + std::to_string(s.size()));
	if (std::memcmp(heap.get(), s.c_str(), (s.size() + 1) * sizeof(C)) != 0)
		c.fail("text was modified");
	c.label(s.size() > 100000 ? "over 100000 characters" : "up to 100000 characters");
	if (!s.empty()) c.nontrivial(hash_bytes(t.data(), t.size()));
}

int main(int argc, char** argv)
{
	std::vector<Prop> p = {
		{"double char", 500000, 30000000, total<double, char>, nullptr},
		{"float char", 500000, 30000000, total<float, char>, nullptr},
		{"double wchar_t", 300000, 20000000, total<double, wchar_t>, nullptr},
		{"float wchar_t", 300000, 20000000, total<float, wchar_t>, nullptr},
		{"double char16_t", 300000, 20000000, total<double, char16_t>, nullptr},
		{"float char16_t", 150000, 20000000, total<float, char16_t>, nullptr},
		{"double char32_t", 150000, 20000000, total<double, char32_t>, nullptr},
		{"float char32_t", 300000, 20000000, total<float, char32_t>, nullptr},
		{"unterminated double char", 400000, 20000000, unterminated<double, char>, nullptr},
		{"unterminated float char", 400000, 20000000, unterminated<float, char>, nullptr},
		{"unterminated double wchar_t", 200000, 20000000, unterminated<double, wchar_t>, nullptr},
		{"unterminated float char16_t", 200000, 20000000, unterminated<float, char16_t>, nullptr},
		{"huge char", 3000, 100000, huge<char>, nullptr},
		{"huge wchar_t", 1500, 50000, huge<wchar_t>, nullptr},
		{"huge char16_t", 1000, 50000, huge<char16_t>, nullptr},
	};
	return run(argc, argv, p,
		"arbitrary code units, garbage, over-long texts, exponents with thousands of digits, texts ending at a guard page (partly in read-only memory) and in exact heap blocks, texts without NUL which end with a character no number contains, texts of up to millions of characters with a stack of 1 MB, under ASan and UBSan; non-trivial: the text is not empty",
		{"reads through the C library's strtod are intercepted by ASan; char16_t/char32_t use a fallback of the harness"});
}
