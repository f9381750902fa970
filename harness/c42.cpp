// What stands for something of the standard library does exactly what that does.
#include "lib.h"
#include <floaxie/default_fallback.h>
#include <floaxie/memwrap.h>
#include <floaxie/huge_val.h>
#include <cerrno>
#include <cwchar>
using namespace pbt;

template<typename F> bool same_value(F a, F b)
{
	if (std::isnan(a) || std::isnan(b))
		return std::isnan(a) && std::isnan(b) && std::signbit(a) == std::signbit(b);
	return a == b && std::signbit(a) == std::signbit(b);
}

template<typename F> std::string value_text(F v) { char b[80]; std::snprintf(b, sizeof b, "%La", static_cast<long double>(v)); return b; }

static float plain(float, const char* s, char** e) { return std::strtof(s, e); }
static double plain(double, const char* s, char** e) { return std::strtod(s, e); }
static long double plain(long double, const char* s, char** e) { return std::strtold(s, e); }
static float plain(float, const wchar_t* s, wchar_t** e) { return std::wcstof(s, e); }
static double plain(double, const wchar_t* s, wchar_t** e) { return std::wcstod(s, e); }
static long double plain(long double, const wchar_t* s, wchar_t** e) { return std::wcstold(s, e); }

template<typename F> const char* type_name() { return sizeof(F) == 4 ? "float" : sizeof(F) == 8 ? "double" : "long double"; }

/** Texts of values with digits beyond those of the types, out of the range of each, blanks, hexadecimal ones, anything. */
template<typename F> std::string any_text(Ctx& c)
{
	switch (c.draw(10))
	{
	case 0: return gen::text<float>(c);
	case 1: return gen::text<double>(c);
	case 2: return gen::number<float>(c);
	case 3: return gen::number<double>(c);
	case 4: return std::string(c.draw(4), ' ') + gen::number<double>(c) + gen::soup(c, c.draw(4));
	case 5: return gen::special(c) + gen::soup(c, c.draw(4));
	case 6: // hexadecimal
	{
		std::string s = c.draw(2) ? "0x" : "-0X";
		for (size_t n = 1 + c.draw(20); n-- > 0;)
			s += "0123456789abcdefABCDEF."[c.draw(23)];
		if (c.draw(2))
			s += "p" + std::to_string(c.range(-17000, 17000));
		return s;
	}
	case 7: // next to the ends of the ranges
	{
		static const int e[] = {38, 39, -45, -46, -37, -38, 308, 309, -323, -324, -307, -308, 4932, 4933, -4951, -4950, -4932, 5000, -5000};
		return (c.draw(2) ? "-" : "") + gen::digit_string(c, 1) + "." + gen::digit_string(c, 1 + c.draw(25)) + "e" + std::to_string(c.pick(e));
	}
	case 8: // more digits than long double has
		return gen::digit_string(c, 1 + c.draw(30)) + "." + gen::digit_string(c, 1 + c.draw(30)) + (c.draw(2) ? "e" + std::to_string(c.range(-60, 60)) : "");
	default: return gen::soup(c, c.draw(30));
	}
}

template<typename F, typename C> void fallback(Ctx& c)
{
#ifndef SKIP_FALLBACK
	std::string t = any_text<F>(c);
	std::basic_string<C> s;
	for (const char ch : t)
		s += static_cast<C>(static_cast<unsigned char>(ch) < 128 ? ch : '?');
	const bool end = c.draw(4) != 0;
	static const int errnos[] = {0, ERANGE, EINVAL, EDOM, 12345};
	const int before = c.pick(errnos);
	c.show([&] { return std::string(type_name<F>()) + (sizeof(C) == 1 ? ", char, " : ", wchar_t, ") + quoted(t) + ", errno " + std::to_string(before) + (end ? "" : ", no end pointer"); });
	C *e = nullptr, *x = nullptr;
	errno = before;
	const F v = floaxie::default_fallback<F, C>(s.c_str(), end ? &e : nullptr);
	const int after = errno;
	errno = before;
	const F w = plain(F(), s.c_str(), end ? &x : nullptr);
	const int expected = errno;
	errno = 0;
	if (!same_value(v, w)) c.fail("default_fallback gives " + value_text(v) + " instead of " + value_text(w));
	if (e != x) c.fail("the end is at " + std::to_string(e - s.c_str()) + " instead of " + std::to_string(x - s.c_str()));
	if (after != expected) c.fail("errno is " + std::to_string(after) + " instead of " + std::to_string(expected));
	if (!end || x != s.c_str())
		c.nontrivial(hash_str(t) ^ mix(before + sizeof(F)));
#endif
}

template<typename F> void status(Ctx& c)
{
#ifndef SKIP_STATUS
	static const F values[] = {F(0), -F(0), std::numeric_limits<F>::infinity(), -std::numeric_limits<F>::infinity(), std::numeric_limits<F>::quiet_NaN(), std::numeric_limits<F>::denorm_min(), -std::numeric_limits<F>::denorm_min(),
		std::numeric_limits<F>::min(), std::numeric_limits<F>::max(), std::numeric_limits<F>::lowest(), F(1), std::nextafter(std::numeric_limits<F>::min(), F(0))};
	F v;
	switch (c.draw(3))
	{
	case 0: v = c.pick(values); break;
	case 1: v = std::ldexp(F(1) + static_cast<F>(c.draw(1000)) / 1024, static_cast<int>(c.range(std::numeric_limits<F>::min_exponent - std::numeric_limits<F>::digits, std::numeric_limits<F>::max_exponent))); break;
	default: v = static_cast<F>(gen::finite<double>(c)); break;
	}
	if (c.draw(2))
		v = -v;
	static const int errnos[] = {ERANGE, 0, EINVAL, EDOM, ERANGE + 1, ERANGE - 1, -ERANGE, ERANGE + 256, ERANGE | 0x10000};
	const int number = c.chance(1, 8) ? static_cast<int>(c.draw(200)) : c.pick(errnos);
	c.show([&] { return std::string(type_name<F>()) + " " + value_text(v) + ", errno " + std::to_string(number); });
	errno = number;
	const auto s = floaxie::check_errno(v);
	const int after = errno;
	errno = 0;
	const auto expected = number != ERANGE ? floaxie::conversion_status::success : std::isinf(v) ? floaxie::conversion_status::overflow
		: v == 0 ? floaxie::conversion_status::underflow : floaxie::conversion_status::success;
	if (s != expected) c.fail(std::string("the status is ") + oracle::status_name(s) + " instead of " + oracle::status_name(expected));
	if (after != number) c.fail("errno is " + std::to_string(after) + " instead of " + std::to_string(number));
	c.nontrivial(mix(number) ^ hash_str(value_text(v)) ^ sizeof(F));
#endif
}

template<typename C> std::string chars_text(const std::vector<C>& v)
{
	std::string s;
	for (const C x : v)
		s += (s.empty() ? "" : " ") + std::to_string(static_cast<unsigned long>(static_cast<typename std::make_unsigned<C>::type>(x)));
	return s;
}

template<typename C> C any_char(Ctx& c)
{
	switch (c.draw(4))
	{
	case 0: return static_cast<C>('0' + c.draw(10));
	case 1: return static_cast<C>(c.draw(256));
	case 2: return static_cast<C>(~c.draw(3));
	default: return static_cast<C>(c.draw(0x110000));
	}
}

template<typename C> void memory(Ctx& c)
{
	const size_t n = 1 + c.draw(c.draw(8) ? 40 : 700);
	const C fill = any_char<C>(c);
	const size_t at = c.draw(n), count = c.draw(n - at + 1), from = c.draw(n - count + 1);
	std::vector<C> a(n + 2), b;
	for (auto& x : a)
		x = any_char<C>(c);
	c.show([&] { return std::to_string(sizeof(C) * 8) + " bit characters (" + chars_text(a) + "), at " + std::to_string(at) + ", " + std::to_string(count) + " of them, " + chars_text(std::vector<C>(1, fill)) + ", from " + std::to_string(from); });
#ifndef SKIP_FILL
	b = a;
	C* const r = floaxie::wrap::memset(b.data() + 1 + at, fill, count);
	if (r != b.data() + 1 + at) c.fail("memset returns another place");
	for (size_t i = 0; i < b.size(); ++i)
		if (b[i] != (i >= at + 1 && i < at + 1 + count ? fill : a[i])) c.fail("memset leaves a wrong character at " + std::to_string(static_cast<long>(i) - 1) + ": " + chars_text(b));
#endif
#ifndef SKIP_MOVE
	b = a;
	C* const m = floaxie::wrap::memmove(b.data() + 1 + at, static_cast<const C*>(b.data() + 1 + from), count);
	if (m != b.data() + 1 + at) c.fail("memmove returns another place");
	for (size_t i = 0; i < b.size(); ++i)
		if (b[i] != (i >= at + 1 && i < at + 1 + count ? a[i - at + from] : a[i])) c.fail("memmove leaves a wrong character at " + std::to_string(static_cast<long>(i) - 1) + ": " + chars_text(b));
#endif
	if (count)
		c.nontrivial(hash_bytes(a.data(), a.size() * sizeof(C)) ^ mix(at * 1000000 + count * 1000 + from));
}

#ifndef SKIP_HUGE
template<typename F> void huge(Ctx& c)
{
	if (!(floaxie::huge_value<F>() > std::numeric_limits<F>::max()) || !std::isinf(floaxie::huge_value<F>())) c.fail(std::string("huge_value isn't the infinity of ") + type_name<F>());
	static_assert(std::is_same<decltype(floaxie::huge_value<F>()), F>::value, "another type");
}
#endif

template<typename F> void result(Ctx& c)
{
	const F v = c.draw(2) ? oracle::from_bits<F>(static_cast<typename oracle::bits_of<F>::type>(c.bits())) : gen::finite<F>(c);
	const unsigned s = static_cast<unsigned>(c.draw(3));
	c.show([&] { return oracle::describe(v) + ", status " + std::to_string(s); });
#ifndef SKIP_HUGE
	huge<float>(c);
	huge<double>(c);
	huge<long double>(c);
#endif
	// over memory which isn't clear
	alignas(16) unsigned char raw[sizeof(floaxie::value_and_status<F>)];
	std::memset(raw, static_cast<int>(c.draw(256)), sizeof raw);
	auto* const r = new(raw) floaxie::value_and_status<F>;
	if (oracle::bits(r->value) != 0 || r->status != floaxie::conversion_status::success) c.fail("a default constructed result isn't zero and success");
	r->value = v;
	r->status = static_cast<floaxie::conversion_status>(s);
	const floaxie::value_and_status<F> copy(*r);
	floaxie::value_and_status<F> other;
	other = copy;
	const F out = other;
	// a signalling NaN may get quiet on the way
	if (!oracle::same(out, v) || !oracle::same(copy.value, v) || !oracle::same(other.value, v)) c.fail("the value changes on the way: " + oracle::describe(out));
	if (static_cast<unsigned>(copy.status) != s || static_cast<unsigned>(other.status) != s) c.fail("the status changes on the way");
	if (static_cast<float>(r->value) == static_cast<float>(v) && static_cast<float>(*r) != static_cast<float>(v)) c.fail("the conversion to float gives another value");
	if ((copy == v) != (v == v) || (copy < v) || (copy > v)) c.fail("the result doesn't compare as its value");
	c.nontrivial(oracle::bits(v) ^ mix(s));
}

int main(int argc, char** argv)
{
	std::vector<Prop> p = {
		{"fallback float char", 1000000, 20000000, fallback<float, char>, nullptr},
		{"fallback double char", 1000000, 20000000, fallback<double, char>, nullptr},
		{"fallback long double char", 1000000, 20000000, fallback<long double, char>, nullptr},
		{"fallback float wchar_t", 500000, 20000000, fallback<float, wchar_t>, nullptr},
		{"fallback double wchar_t", 500000, 20000000, fallback<double, wchar_t>, nullptr},
		{"fallback long double wchar_t", 500000, 20000000, fallback<long double, wchar_t>, nullptr},
		{"status float", 500000, 10000000, status<float>, nullptr},
		{"status double", 500000, 10000000, status<double>, nullptr},
		{"status long double", 500000, 10000000, status<long double>, nullptr},
		{"memory char", 500000, 20000000, memory<char>, nullptr},
		{"memory wchar_t", 500000, 20000000, memory<wchar_t>, nullptr},
		{"memory char16_t", 500000, 20000000, memory<char16_t>, nullptr},
		{"memory char32_t", 500000, 20000000, memory<char32_t>, nullptr},
		{"memory unsigned char", 500000, 20000000, memory<unsigned char>, nullptr},
		{"result float", 500000, 20000000, result<float>, nullptr},
		{"result double", 500000, 20000000, result<double>, nullptr},
	};
	return run(argc, argv, p,
		"texts (numbers next to halfway points, out of range, hexadecimal, special, any characters) with an errno and an end pointer or none, values with an errno, ranges of characters with overlapping moves, values with a status; "
		"against the C library, and element by element; non-trivial: every distinct case where something is converted, moved or kept", {});
}
