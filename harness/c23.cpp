#include "lib.h"
#include <clocale>
#include <cwchar>
#include <locale>
using namespace pbt;

// Conversions under C locales, thread locales and global C++ locales (named and
// made of unusual facets) against those in the classic locale.

static std::vector<std::string> names;   // locales compiled for this check
static bool radix_known = false;         // known finding: the default fallback honours the radix character

// --- facets -----------------------------------------------------------------
template<typename C> struct OddNumbers : std::numpunct<C>
{
	C point, sep;
	OddNumbers(C p, C s) : point(p), sep(s) { }
	C do_decimal_point() const override { return point; }
	C do_thousands_sep() const override { return sep; }
	std::string do_grouping() const override { return "\1"; }
	std::basic_string<C> do_truename() const override { return std::basic_string<C>(3, C('9')); }
};

// permuted letter case and classification
struct OddChars : std::ctype<char>
{
	mask table_[table_size];
	int shift;
	explicit OddChars(int s) : std::ctype<char>(table_), shift(s)
	{
		for (size_t i = 0; i < table_size; ++i)
			table_[i] = s % 3 == 0 ? mask(digit | alnum | xdigit) : s % 3 == 1 ? mask(0) : mask(alpha | alnum | space | upper);
	}
	char do_tolower(char c) const override { return static_cast<char>(c + shift); }
	char do_toupper(char c) const override { return static_cast<char>(c - shift); }
	const char* do_tolower(char* b, const char* e) const override { for (; b != e; ++b) *b = do_tolower(*b); return e; }
	const char* do_toupper(char* b, const char* e) const override { for (; b != e; ++b) *b = do_toupper(*b); return e; }
	char do_widen(char c) const override { return static_cast<char>(c + shift); }
	char do_narrow(char c, char) const override { return static_cast<char>(c - shift); }
};

struct OddWideChars : std::ctype<wchar_t>
{
	int shift;
	explicit OddWideChars(int s) : shift(s) { }
	bool do_is(mask, wchar_t) const override { return shift & 1; }
	wchar_t do_tolower(wchar_t c) const override { return c + shift; }
	wchar_t do_toupper(wchar_t c) const override { return c - shift; }
	const wchar_t* do_tolower(wchar_t* b, const wchar_t* e) const override { for (; b != e; ++b) *b = do_tolower(*b); return e; }
	const wchar_t* do_toupper(wchar_t* b, const wchar_t* e) const override { for (; b != e; ++b) *b = do_toupper(*b); return e; }
	wchar_t do_widen(char c) const override { return static_cast<unsigned char>(c) + shift; }
	char do_narrow(wchar_t c, char) const override { return static_cast<char>(c - shift); }
};

template<typename C> struct OddOrder : std::collate<C>
{
	int do_compare(const C*, const C*, const C*, const C*) const override { return 0; }
};

// --- setting ----------------------------------------------------------------
struct Setting
{
	int category = LC_ALL;
	std::string c_name = "C", thread_name, cxx_name;
	int facets = 0, shift = 0;
	char point = ',';

	std::string str() const
	{
		static const std::map<int, std::string> cat = {{LC_ALL, "LC_ALL"}, {LC_NUMERIC, "LC_NUMERIC"}, {LC_CTYPE, "LC_CTYPE"}};
		std::string r = "setlocale(" + cat.at(category) + ", " + c_name + ")";
		if (!thread_name.empty()) r += ", uselocale " + thread_name;
		if (!cxx_name.empty()) r += ", std::locale::global(" + cxx_name + ")";
		if (facets) r += ", global C++ facets " + std::to_string(facets) + " (shift " + std::to_string(shift) + ", point '" + point + "')";
		return r;
	}
};

static Setting setting(Ctx& c)
{
	Setting s;
	if (!names.empty() && c.draw(3))
	{
		static const int cats[] = {LC_ALL, LC_NUMERIC, LC_CTYPE};
		s.c_name = c.pick(names);
		s.category = c.pick(cats);
	}
	if (!names.empty() && c.chance(1, 4)) s.thread_name = c.pick(names);
	if (!names.empty() && c.chance(1, 4)) s.cxx_name = c.pick(names);
	if (c.chance(2, 5))
	{
		s.facets = static_cast<int>(1 + c.draw(63));
		s.shift = static_cast<int>(c.range(-40, 40));
		s.point = ",;'e1- "[c.draw(7)];
	}
	return s;
}

static locale_t thread_locale(const std::string& n)
{
	static std::map<std::string, locale_t> cache;
	auto it = cache.find(n);
	if (it == cache.end())
	{
		const locale_t l = newlocale(LC_ALL_MASK, n.c_str(), nullptr);
		if (!l) internal_error("newlocale " + n);
		it = cache.emplace(n, l).first;
	}
	return it->second;
}

struct Apply
{
	explicit Apply(const Setting& s)
	{
		std::locale base = std::locale::classic();
		if (!s.cxx_name.empty())
		{
			static std::map<std::string, std::locale> cache;
			auto it = cache.find(s.cxx_name);
			if (it == cache.end()) it = cache.emplace(s.cxx_name, std::locale(s.cxx_name.c_str())).first;
			base = it->second;
		}
		if (s.facets & 1) base = std::locale(base, new OddNumbers<char>(s.point, '.'));
		if (s.facets & 2) base = std::locale(base, new OddNumbers<wchar_t>(static_cast<wchar_t>(s.point), L'.'));
		if (s.facets & 4) base = std::locale(base, new OddChars(s.shift));
		if (s.facets & 8) base = std::locale(base, new OddWideChars(s.shift));
		if (s.facets & 16) base = std::locale(base, new OddOrder<char>());
		if (s.facets & 32) base = std::locale(base, new OddOrder<wchar_t>());
		std::locale::global(base); // a named one sets the C locale, too
		if (s.cxx_name.empty() || s.facets) std::setlocale(LC_ALL, "C");
		if (s.c_name != "C" && !std::setlocale(s.category, s.c_name.c_str())) internal_error("setlocale " + s.c_name);
		if (!s.thread_name.empty()) uselocale(thread_locale(s.thread_name));
	}
	~Apply()
	{
		uselocale(LC_GLOBAL_LOCALE);
		std::locale::global(std::locale::classic());
		std::setlocale(LC_ALL, "C");
	}
};

// --- printing ---------------------------------------------------------------
template<typename F, typename C> void printing(Ctx& c)
{
	const Setting s = setting(c);
	const F v = c.draw(12) ? gen::finite<F>(c) : c.draw(2) ? std::numeric_limits<F>::infinity() : std::numeric_limits<F>::quiet_NaN();
	c.show([&] { return s.str() + ": " + oracle::describe(v); });
	size_t ln, lc;
	const auto classic = lib::print<C>(v, &lc);
	const std::string classic_string = floaxie::to_string(v);
	std::basic_string<C> now;
	std::string now_string, before, after;
	{
		Apply a(s);
		before = std::setlocale(LC_ALL, nullptr);
		now = lib::print<C>(v, &ln);
		now_string = floaxie::to_string(v);
		after = std::setlocale(LC_ALL, nullptr);
	}
	if (now != classic || ln != lc) c.fail(lib::show(now) + " of length " + std::to_string(ln) + ", in the classic locale " + lib::show(classic) + " of length " + std::to_string(lc));
	if (now_string != classic_string) c.fail("to_string: " + quoted(now_string) + ", in the classic locale " + quoted(classic_string));
	if (before != after) c.fail("printing changed the locale from " + before + " to " + after);
	if (s.facets) c.label("odd facets");
	if (s.c_name != "C" || !s.thread_name.empty() || !s.cxx_name.empty()) c.label("named locale");
	if (v != 0 && s.str() != Setting().str()) c.nontrivial(oracle::bits(v) ^ hash_str(s.str()));
}

// --- parsing ----------------------------------------------------------------
template<typename F, typename C> struct classic_fallback;
template<typename F> struct classic_fallback<F, char>
{
	static F call(const char* s, char** e) { return std::is_same<F, float>::value ? static_cast<F>(strtof_l(s, e, oracle::classic())) : static_cast<F>(strtod_l(s, e, oracle::classic())); }
	static F current(const char* s, char** e) { return std::is_same<F, float>::value ? static_cast<F>(std::strtof(s, e)) : static_cast<F>(std::strtod(s, e)); }
};
template<typename F> struct classic_fallback<F, wchar_t>
{
	static F call(const wchar_t* s, wchar_t** e) { return std::is_same<F, float>::value ? static_cast<F>(wcstof_l(s, e, oracle::classic())) : static_cast<F>(wcstod_l(s, e, oracle::classic())); }
	static F current(const wchar_t* s, wchar_t** e) { return std::is_same<F, float>::value ? static_cast<F>(std::wcstof(s, e)) : static_cast<F>(std::wcstod(s, e)); }
};

template<typename F, typename C> lib::Parsed<F> parse_own(const C* s)
{
	C* e = nullptr;
	const auto r = floaxie::atof<F>(s, &e, classic_fallback<F, C>::call);
	return lib::Parsed<F>{r.value, r.status, e ? static_cast<long long>(e - s) : -1};
}

template<typename F, typename C> void parsing(Ctx& c)
{
	const Setting s = setting(c);
	std::string t;
	switch (c.draw(8))
	{
	case 0: case 1: t = gen::special(c); break;
	case 2: t = gen::text<F>(c); break;
	case 3: t = gen::notation(c, gen::halfway<F>(c, gen::positive<F>(c))); break;
	default: t = gen::number<F>(c); break;
	}
	// characters that mean something in other locales only
	if (c.chance(1, 4))
	{
		static const char* odd[] = {",", "'", " ", "\xc2\xa0", "\xd9\xab", "\xc4\xb1", "\xc4\xb0", "\xfd", "\xdd", "\xef\xbc\x91", "I", "i"};
		const size_t n = 1 + c.draw(2);
		for (size_t i = 0; i < n; ++i)
		{
			const size_t p = c.draw(t.size() + 1);
			if (p < t.size() && c.draw(2)) t.erase(p, 1);
			t.insert(p, c.pick(odd));
		}
		c.label("foreign characters");
	}
	const size_t z = t.find('\0');
	if (z != std::string::npos) t.resize(z);
	c.show([&] { return s.str() + ": " + quoted(t); });
	const std::basic_string<C> w = gen::widen<C>(t);
	const C* p = w.c_str();

	const auto classic = lib::parse<F>(p);
	const auto classic_own = parse_own<F>(p);
	const bool fallback = lib::fallback_used<F>(p);
	lib::Parsed<F> now, own, libc;
	floaxie::value_and_status<F> str;
	std::string before, after, radix;
	bool fallback_now;
	{
		Apply a(s);
		before = std::setlocale(LC_ALL, nullptr);
		radix = localeconv()->decimal_point;
		now = lib::parse<F>(p);
		own = parse_own<F>(p);
		fallback_now = lib::fallback_used<F>(p);
		str = floaxie::from_string<F>(w, classic_fallback<F, C>::call);
		after = std::setlocale(LC_ALL, nullptr);
		C* e = nullptr;
		errno = 0;
		const F v = classic_fallback<F, C>::current(p, &e);
		libc = lib::Parsed<F>{v, errno != ERANGE ? floaxie::conversion_status::success : std::isinf(v) ? floaxie::conversion_status::overflow : v == 0 ? floaxie::conversion_status::underflow : floaxie::conversion_status::success, e ? static_cast<long long>(e - p) : -1};
	}
	errno = 0;
	if (before != after) c.fail("parsing changed the locale from " + before + " to " + after);
	if (fallback != fallback_now) c.fail(std::string("the fallback is ") + (fallback_now ? "called" : "not called") + ", unlike in the classic locale");
	if (!(own == classic_own)) c.fail("with a fallback of its own: " + own.str() + ", in the classic locale " + classic_own.str());
	if (!oracle::same(str.value, classic_own.value) || str.status != classic_own.status) c.fail("from_string: " + oracle::describe(str.value) + ", in the classic locale " + oracle::describe(classic_own.value));
	if (!(now == classic))
	{
		// known: strtod() & Co. of the default fallback take the radix character of the locale
		if (radix_known && fallback_now && radix != "." && now == libc)
			c.label("known finding: radix");
		else
			c.fail(now.str() + ", in the classic locale " + classic.str());
	}
	if (s.facets) c.label("odd facets");
	if (radix != ".") c.label("other radix character");
	if (fallback) c.label("fallback");
	if (classic.consumed > 0 && s.str() != Setting().str()) c.nontrivial(hash_str(t) ^ hash_str(s.str()));
}

int main(int argc, char** argv)
{
	if (const char* l = std::getenv("VERIF_LOCALES"))
	{
		std::stringstream ss(l);
		std::string n;
		while (ss >> n)
		{
			if (!std::setlocale(LC_ALL, n.c_str())) internal_error("locale " + n + " is not there");
			names.push_back(n);
		}
		std::setlocale(LC_ALL, "C");
	}
	const char* k = std::getenv("VERIF_KNOWN");
	radix_known = k && std::string(k) == "radix";
	std::vector<Prop> p = {
		{"printing double", 400000, 15000000, printing<double, char>, nullptr},
		{"printing float", 300000, 10000000, printing<float, char>, nullptr},
		{"printing wide float", 200000, 10000000, printing<float, wchar_t>, nullptr},
		{"printing wide", 300000, 10000000, printing<double, wchar_t>, nullptr},
		{"parsing double", 400000, 15000000, parsing<double, char>, nullptr},
		{"parsing float", 300000, 10000000, parsing<float, char>, nullptr},
		{"parsing wide double", 300000, 10000000, parsing<double, wchar_t>, nullptr},
		{"parsing wide float", 300000, 10000000, parsing<float, wchar_t>, nullptr},
	};
	return run(argc, argv, p,
		"random C locale per category, thread locale, global C++ locale (of " + std::to_string(names.size()) + " compiled ones) and C++ facets with odd punctuation, letter case, classification and collation, and a value or a text; each conversion compared with the one in the classic locale; non-trivial: a setting other than the classic one, with a non-zero value or an accepted text",
		{"locales compiled by localedef from the system's sources"});
}
