"""C40: generated programs which call the public functions in every form the declarations and the documentation allow.

A case is one call form with generated values, character type and surroundings; a program is a sequence of them with
compiler, standard and flags. The oracle is that it compiles, and that each form gives what the plain form gives, which
is in turn checked against the value computed here with exact arithmetic.
"""
import json, os, random, shutil, struct
from concurrent.futures import ThreadPoolExecutor
from fractions import Fraction

CXX = ["g++", "clang++"]
STDS = ["c++14", "c++17", "c++20", "c++23"]
FLAGS = ["-O0", "-O0 -pedantic-errors", "-O1 -DNDEBUG", "-O0 -Wall -Wextra", "-O1 -fno-rtti", "-O0 -funsigned-char"]
RULE = ("programs of 20..40 calls, each in one of the forms (kind of argument, qualification, deduction or explicit template arguments, buffer, end pointer, fallback, use of the result, character type) with generated values; "
        "non-trivial: a distinct pair of form and values other than the plain calls")

PRELUDE = r"""#include <floaxie/atof.h>
#include <floaxie/ftoa.h>
#include <algorithm>
#include <array>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <iterator>
#include <limits>
#include <memory>
#include <numeric>
#include <sstream>
#include <string>
#include <utility>
#include <vector>

namespace own
{
	template<typename T, typename C> bool equal(const C* a, const T& b) // characters against an ASCII text
	{
		size_t i = 0;
		for (; b[i]; ++i) if (a[i] != static_cast<C>(b[i])) return false;
		return a[i] == C();
	}
	template<typename T> std::string plain(T v) // the plain form
	{
		char b[128];
		const size_t n = floaxie::ftoa<T, char>(v, b);
		return std::string(b, n);
	}
	template<typename T> bool same(T a, T b) { return std::memcmp(&a, &b, sizeof a) == 0; }
	// reads what needs a fallback by the C library
	template<typename C> std::string narrow(const C* s)
	{
		std::string r;
		while (*s) r += static_cast<char>(*s++);
		return r;
	}
	inline double c_library(const std::string& s, char** e, double) { return std::strtod(s.c_str(), e); }
	inline float c_library(const std::string& s, char** e, float) { return std::strtof(s.c_str(), e); }
	template<typename F, typename C> F fallback(const C* s, C** e)
	{
		const std::string n = narrow(s);
		char* ne;
		const F r = c_library(n, &ne, F());
		if (e) *e = const_cast<C*>(s) + (ne - n.c_str());
		return r;
	}
	template<typename F, typename C> struct functor { F operator()(const C* s, C** e) const { return fallback<F, C>(s, e); } };
	template<typename F, typename C> struct counting { int* calls; F operator()(const C* s, C** e) { ++*calls; return fallback<F, C>(s, e); } };
	template<typename F> struct holder { F member; F get() const { return member; } F& ref() { return member; } };
	template<typename F> bool takes(F a, F b) { return same(a, b); }
}
#define CHECK(...) do { if (!(__VA_ARGS__)) return 1; } while (false)

"""

def nearest(text, bits):
    """The bits of the value nearest to a decimal text (finite, in range)."""
    if bits == 64:
        return struct.unpack("<Q", struct.pack("<d", float(text)))[0]
    neg = text.startswith("-")
    f = abs(Fraction(text))
    guess = struct.unpack("<I", struct.pack("<f", float(f)))[0]
    best = None
    for b in range(max(0, guess - 1), guess + 2):
        v = Fraction(struct.unpack("<f", struct.pack("<I", b))[0])
        key = (abs(v - f), b & 1)
        if best is None or key < best[0]:
            best = (key, b)
    return best[1] | (1 << 31 if neg else 0)

def literal(bits, width):
    v = struct.unpack("<d", struct.pack("<Q", bits))[0] if width == 64 else struct.unpack("<f", struct.pack("<I", bits))[0]
    return repr(v) if width == 64 else "%.9gf" % v if "." in "%.9g" % v or "e" in "%.9g" % v else "%.9g.0f" % v

def value(rnd, width):
    """A decimal text and the literal of the value."""
    while True:
        digits = "".join(rnd.choice("0123456789") for _ in range(rnd.randint(1, 19 if width == 64 else 10)))
        k = rnd.randint(0, len(digits))
        e = rnd.choice([0, 0, rnd.randint(-30, 25), rnd.randint(-300, 280) if width == 64 else rnd.randint(-30, 25)])
        text = rnd.choice(["", "", "-", "+"]) + (digits[:k] or "0") + ("." + digits[k:] if k < len(digits) else "") + ("e%d" % e if e else "")
        if Fraction(text) and abs(Fraction(text)) > (Fraction(10) ** -300 if width == 64 else Fraction(10) ** -37) and abs(Fraction(text)) < (10 ** 300 if width == 64 else 10 ** 38):
            return text, literal(nearest(text, width), width)

TYPES = {64: "double", 32: "float"}
CHARS = {"char": "", "wchar_t": "L", "char16_t": "u", "char32_t": "U"}

# forms of printing: @T type, @V the value as a literal, @C character type, @N name of the form of strings
PRINT = {
    "literal": "@C b[64]; const std::size_t n = floaxie::ftoa(@V, b); CHECK(own::equal(b, own::plain(@V)) && n == own::plain(@V).size());",
    "variable": "@T v = @V; @C b[64]; floaxie::ftoa(v, b); CHECK(own::equal(b, own::plain<@T>(@V)) && v == @V);",
    "constant": "const @T v = @V; @C b[64]; floaxie::ftoa(v, b); CHECK(own::equal(b, own::plain<@T>(@V)));",
    "volatile": "volatile @T v = @V; @C b[64]; floaxie::ftoa(v, b); CHECK(own::equal(b, own::plain<@T>(@V)));",
    "reference": "@T v = @V; const @T& r = v; @T& q = v; @C b[64]; floaxie::ftoa(r, b); CHECK(own::equal(b, own::plain<@T>(@V))); floaxie::ftoa(q, b); CHECK(own::equal(b, own::plain<@T>(@V)));",
    "rvalue reference": "@T v = @V; @C b[64]; floaxie::ftoa(std::move(v), b); CHECK(own::equal(b, own::plain<@T>(@V)));",
    "expression": "@T v = @V; @C b[64]; floaxie::ftoa(-v * 1, b); CHECK(own::equal(b, own::plain<@T>(-@V)));",
    "member": "own::holder<@T> h{@V}; @C b[64]; floaxie::ftoa(h.member, b); CHECK(own::equal(b, own::plain<@T>(@V))); floaxie::ftoa(h.get(), b); CHECK(own::equal(b, own::plain<@T>(@V))); floaxie::ftoa(h.ref(), b); CHECK(own::equal(b, own::plain<@T>(@V)));",
    "constant expression": "constexpr @T v = @V; static_assert(v != 0, \"\"); @C b[floaxie::max_buffer_size<@T>()]; floaxie::ftoa(v, b); CHECK(own::equal(b, own::plain<@T>(v)));",
    "explicit type": "@C b[64]; floaxie::ftoa<@T>(@V, b); CHECK(own::equal(b, own::plain<@T>(@V)));",
    "explicit types": "@C b[64]; floaxie::ftoa<@T, @C>(@V, b); CHECK(own::equal(b, own::plain<@T>(@V)));",
    "from integer": "@C b[64]; floaxie::ftoa<@T>(@I, b); CHECK(own::equal(b, own::plain(static_cast<@T>(@I)))); floaxie::ftoa(static_cast<@T>(@I), b); CHECK(own::equal(b, own::plain(static_cast<@T>(@I))));",
    "from the other type": "@C b[64]; floaxie::ftoa<double>(@V, b); CHECK(own::equal(b, own::plain<double>(@V))); floaxie::ftoa<float>(@VF, b); CHECK(own::equal(b, own::plain<float>(@VF)));",
    "result ignored": "@C b[64]; static_cast<void>(floaxie::ftoa(@V, b)); CHECK(b[own::plain(@V).size()] == @C());",
    "result as int": "@C b[64]; const int n = static_cast<int>(floaxie::ftoa(@V, b)); CHECK(n == static_cast<int>(own::plain(@V).size()));",
    "result advances": "@C b[128]; @C* p = b; p += floaxie::ftoa(@V, p); *p++ = ','; p += floaxie::ftoa(@V, p); CHECK(own::equal(b, own::plain(@V) + \",\" + own::plain(@V)) && p == b + 2 * own::plain(@V).size() + 1);",
    "noexcept": "static_assert(noexcept(floaxie::ftoa(@V, static_cast<@C*>(nullptr))), \"\"); static_assert(noexcept(floaxie::max_buffer_size<@T>()), \"\"); CHECK(true);",
    "return type": "static_assert(std::is_same<decltype(floaxie::ftoa(@V, static_cast<@C*>(nullptr))), std::size_t>::value, \"\"); static_assert(std::is_same<decltype(floaxie::to_basic_string<@T, @C>(@V)), std::basic_string<@C>>::value, \"\"); CHECK(true);",
    "function pointer": "std::size_t (*f)(@T, @C*) = &floaxie::ftoa<@T, @C>; @C b[64]; CHECK(f(@V, b) == own::plain(@V).size() && own::equal(b, own::plain(@V)));",
    "function reference": "std::size_t (&f)(@T, @C*) = floaxie::ftoa<@T, @C>; @C b[64]; CHECK(f(@V, b) == own::plain(@V).size() && own::equal(b, own::plain(@V)));",
    "std::function": "std::function<std::size_t(@T, @C*)> f = floaxie::ftoa<@T, @C>; @C b[64]; CHECK(f(@V, b) == own::plain(@V).size() && own::equal(b, own::plain(@V)));",
    "bound": "@C b[64]; const auto f = std::bind(floaxie::ftoa<@T, @C>, std::placeholders::_1, b); CHECK(f(@V) == own::plain(@V).size() && own::equal(b, own::plain(@V)));",
    "lambda": "const auto f = [](auto v, auto* p) { return floaxie::ftoa(v, p); }; @C b[64]; CHECK(f(@V, b) == own::plain(@V).size() && own::equal(b, own::plain(@V)));",
    "std::array": "std::array<@C, floaxie::max_buffer_size<@T>()> b; const auto n = floaxie::ftoa(@V, b.data()); CHECK(own::equal(&b[0], own::plain(@V)) && n < b.size());",
    "vector": "std::vector<@C> b(floaxie::max_buffer_size<@T>()); b.resize(floaxie::ftoa(@V, b.data())); CHECK(b.size() == own::plain(@V).size() && std::equal(b.begin(), b.end(), own::plain(@V).begin()));",
    "string as buffer": "std::basic_string<@C> b(floaxie::max_buffer_size<@T>(), '#'); b.resize(floaxie::ftoa(@V, &b[0])); CHECK(own::equal(b.c_str(), own::plain(@V)));",
    "heap": "std::unique_ptr<@C[]> b(new @C[floaxie::max_buffer_size<@T>()]); floaxie::ftoa(@V, b.get()); CHECK(own::equal(b.get(), own::plain(@V)));",
    "constant pointer": "@C b[64]; @C* const p = b + 3; floaxie::ftoa(@V, p); CHECK(own::equal(b + 3, own::plain(@V)));",
    "array of arrays": "@C b[3][floaxie::max_buffer_size<@T>()]; for (auto& row : b) floaxie::ftoa(@V, row); CHECK(own::equal(b[0], own::plain(@V)) && own::equal(b[1], own::plain(@V)) && own::equal(b[2], own::plain(@V)));",
    "size of qualified types": "static_assert(floaxie::max_buffer_size<@T>() == floaxie::max_buffer_size<const @T>() && floaxie::max_buffer_size<@T>() == floaxie::max_buffer_size<@T&>() && floaxie::max_buffer_size<@T>() == floaxie::max_buffer_size<const @T&>() && floaxie::max_buffer_size<@T>() == floaxie::max_buffer_size<@T&&>() && floaxie::max_buffer_size<@T>() == floaxie::max_buffer_size<volatile @T>(), \"\"); CHECK(true);",
    "size as template argument": "std::integral_constant<std::size_t, floaxie::max_buffer_size<@T>()> s; enum { size = floaxie::max_buffer_size<@T>() }; CHECK(s.value == static_cast<std::size_t>(size) && floaxie::max_buffer_size<@T>() > own::plain(@V).size());",
    "size of an expression's type": "@T v = @V; @C b[floaxie::max_buffer_size<decltype(v)>()]; @C q[floaxie::max_buffer_size<decltype((v))>()]; static_assert(sizeof b == sizeof q, \"\"); floaxie::ftoa(v, b); floaxie::ftoa(v, q); CHECK(own::equal(b, own::plain(v)) && own::equal(q, own::plain(v)));",
    "to_basic_string": "CHECK((own::equal(floaxie::to_basic_string<@T, @C>(@V).c_str(), own::plain(@V))));",
    "to_string": "const auto s = floaxie::@N(@V); CHECK(own::equal(s.c_str(), own::plain(@V)) && s.size() == own::plain(@V).size());",
    "to_string explicit": "const @T v = @V; const std::basic_string<@C>& s = floaxie::@N<@T>(v); CHECK(own::equal(s.c_str(), own::plain(@V)));",
    "to_string from integer": "CHECK(own::equal(floaxie::@N<@T>(@I).c_str(), own::plain(static_cast<@T>(@I))));",
    "to_string concatenated": "std::basic_string<@C> s; s += floaxie::@N(@V); s = s + floaxie::@N(@V); CHECK(own::equal(s.c_str(), own::plain(@V) + own::plain(@V)));",
    "to_string as pointer": "std::basic_string<@C> (*f)(@T) = &floaxie::@N<@T>; CHECK(own::equal(f(@V).c_str(), own::plain(@V)));",
    "to_string transforms": "const std::vector<@T> v(3, @V); std::vector<std::basic_string<@C>> s; std::transform(v.begin(), v.end(), std::back_inserter(s), floaxie::@N<@T>); CHECK(s.size() == 3 && own::equal(s[2].c_str(), own::plain(@V)));",
    "to_string of a vector's element": "std::vector<@T> v{@V}; CHECK(own::equal(floaxie::@N(v[0]).c_str(), own::plain(@V)) && own::equal(floaxie::@N(*v.begin()).c_str(), own::plain(@V)));",
    "using directive": "using namespace floaxie; @C b[64]; ftoa(@V, b); CHECK(own::equal(b, own::plain(@V))); @C q[max_buffer_size<@T>()]; ftoa(@V, q); CHECK(own::equal(q, own::plain(@V)));",
    "using declaration": "using floaxie::ftoa; using floaxie::to_basic_string; @C b[64]; ftoa(@V, b); CHECK(own::equal(b, own::plain(@V)) && to_basic_string<@T, @C>(@V) == b);",
    "namespace alias": "namespace fx = floaxie; @C b[64]; fx::ftoa(@V, b); CHECK(own::equal(b, own::plain(@V)));",
    "local class": "struct local { static std::size_t go(@T v, @C* p) { return floaxie::ftoa(v, p); } }; @C b[64]; CHECK(local::go(@V, b) == own::plain(@V).size());",
    "special values": "@C b[64]; CHECK(floaxie::ftoa(std::numeric_limits<@T>::infinity(), b) == 3 && own::equal(b, \"inf\") && floaxie::ftoa(std::numeric_limits<@T>::quiet_NaN(), b) == 3 && own::equal(b, \"nan\") && floaxie::ftoa(@T(), b) == 1 && own::equal(b, \"0\") && floaxie::ftoa(std::numeric_limits<@T>::max(), b) == own::plain(std::numeric_limits<@T>::max()).size());",
}

# forms of parsing: @S the text as a literal of @C, @L its length, @F the fallback argument (with its comma) if the type needs one, @FT the same with the explicit type
PARSE = {
    "literal": "@C* e; const auto r = floaxie::atof<@T>(@S, &e@F); CHECK(own::same<@T>(r.value, @V) && r.status == floaxie::conversion_status::success && *e == @C());",
    "no end": "CHECK(own::same<@T>(floaxie::atof<@T>(@S, nullptr@F).value, @V));",
    "null end": "@C** const e = nullptr; CHECK(own::same<@T>(floaxie::atof<@T>(@S, e@F).value, @V)); CHECK(own::same<@T>(floaxie::atof<@T>(@S, static_cast<@C**>(nullptr)@F).value, @V));",
    "constant pointer": "const @C* const s = @S; @C* e; CHECK(own::same<@T>(floaxie::atof<@T>(s, &e@F).value, @V) && e == s + @L);",
    "array": "@C s[] = @S; @C* e; CHECK(own::same<@T>(floaxie::atof<@T>(static_cast<const @C*>(s), &e@F).value, @V) && e == s + @L);",
    "array deduced": "@C s[] = @S; @C* e; CHECK(own::same<@T>(floaxie::atof<@T>(s, &e@F).value, @V) && e == s + @L);",
    "constant array": "static const @C s[] = @S; @C* e; CHECK(own::same<@T>(floaxie::atof<@T>(s, &e@F).value, @V) && e == s + @L);",
    "the same pointer": "@C s[] = @S; @C* p = s; CHECK(own::same<@T>(floaxie::atof<@T>(p, &p@F).value, @V) && p == s + @L);",
    "string": "const std::basic_string<@C> s = @S; @C* e; CHECK(own::same<@T>(floaxie::atof<@T>(s.c_str(), &e@F).value, @V) && e == s.c_str() + s.size());",
    "string's element": "std::basic_string<@C> s = @S; @C* e; CHECK(own::same<@T>(floaxie::atof<@T>(&s[0], &e@F).value, @V) && e == &s[0] + s.size());",
    "vector": "std::vector<@C> s(@S, @S + @L + 1); s[@L] = ' '; s.push_back(@C()); @C* e; CHECK(own::same<@T>(floaxie::atof<@T>(s.data(), &e@F).value, @V) && e == s.data() + @L);",
    "explicit types": "@C* e; CHECK((own::same<@T>(floaxie::atof<@T, @C>(@S, &e@F).value, @V)));",
    "explicit types without end": "CHECK((own::same<@T>(floaxie::atof<@T, @C>(@S, nullptr@F).value, @V)));",
    "explicit fallback type": "@C* e; CHECK((own::same<@T>(floaxie::atof<@T, @C, @T (const @C*, @C**)>(@S, &e, own::fallback<@T, @C>).value, @V)));",
    "function as fallback": "@C* e; CHECK((own::same<@T>(floaxie::atof<@T>(@S, &e, own::fallback<@T, @C>).value, @V))); CHECK((own::same<@T>(floaxie::atof<@T>(@S, nullptr, &own::fallback<@T, @C>).value, @V)));",
    "pointer as fallback": "@T (*f)(const @C*, @C**) = own::fallback<@T, @C>; @C* e; CHECK((own::same<@T>(floaxie::atof<@T>(@S, &e, f).value, @V))); CHECK((own::same<@T>(floaxie::atof<@T>(@S, nullptr, *f).value, @V)));",
    "lambda as fallback": "@C* e; CHECK((own::same<@T>(floaxie::atof<@T>(@S, &e, [](const @C* s, @C** te) { return own::fallback<@T, @C>(s, te); }).value, @V)));",
    "capturing lambda as fallback": "@C* e; int calls = 0; CHECK((own::same<@T>(floaxie::atof<@T>(@S, &e, [&calls](const @C* s, @C** te) { ++calls; return own::fallback<@T, @C>(s, te); }).value, @V)) && calls <= 1);",
    "generic lambda as fallback": "@C* e; CHECK((own::same<@T>(floaxie::atof<@T>(@S, &e, [](auto s, auto te) { return own::fallback<@T, @C>(s, te); }).value, @V)));",
    "mutable lambda as fallback": "@C* e; int n = 0; auto f = [n](const @C* s, @C** te) mutable { ++n; return own::fallback<@T, @C>(s, te); }; CHECK((own::same<@T>(floaxie::atof<@T>(@S, &e, f).value, @V))); CHECK((own::same<@T>(floaxie::atof<@T>(@S, nullptr, f).value, @V)));",
    "lambda variable as fallback": "const auto f = [](const @C* s, @C** te) -> @T { return own::fallback<@T, @C>(s, te); }; @C* e; CHECK((own::same<@T>(floaxie::atof<@T>(@S, &e, f).value, @V))); CHECK((own::same<@T>(floaxie::atof<@T>(@S, nullptr, f).value, @V)));",
    "functor as fallback": "@C* e; CHECK((own::same<@T>(floaxie::atof<@T>(@S, &e, own::functor<@T, @C>()).value, @V))); const own::functor<@T, @C> f{}; CHECK((own::same<@T>(floaxie::atof<@T>(@S, nullptr, f).value, @V)));",
    "counting functor as fallback": "int calls = 0; own::counting<@T, @C> f{&calls}; @C* e; CHECK((own::same<@T>(floaxie::atof<@T>(@S, &e, f).value, @V)) && calls <= 1); CHECK((own::same<@T>(floaxie::atof<@T>(@S, nullptr, f).value, @V)) && calls <= 2);",
    "std::function as fallback": "const std::function<@T(const @C*, @C**)> f = own::functor<@T, @C>(); @C* e; CHECK((own::same<@T>(floaxie::atof<@T>(@S, &e, f).value, @V))); CHECK((own::same<@T>(floaxie::atof<@T>(@S, nullptr, f).value, @V)));",
    "reference wrapper as fallback": "int calls = 0; own::counting<@T, @C> f{&calls}; @C* e; CHECK((own::same<@T>(floaxie::atof<@T>(@S, &e, std::ref(f)).value, @V)));",
    "fallback of another type": "@C* e; CHECK((own::same<@T>(floaxie::atof<@T>(@S, &e, [](const @C* s, @C** te) -> @T { return own::fallback<@T>(s, te); }).value, @V)));",
    "fallback needed": "static const @C s[] = @P\"0.500000000000000166533453693773481063544750213623046875x\"; static const @C q[] = @P\"0.500000029802322387695312500000000001x\"; const @C* const t = sizeof(@T) == 8 ? s : q; int calls = 0; @C* e; const auto r = floaxie::atof<@T>(t, &e, own::counting<@T, @C>{&calls}); CHECK(*e == 'x' && r.status == floaxie::conversion_status::success && (own::same(r.value, own::fallback<@T, @C>(t, nullptr))));",
    "converted": "const @T v = floaxie::atof<@T>(@S, nullptr@F); CHECK(own::same<@T>(v, @V)); @T w; w = floaxie::atof<@T>(@S, nullptr@F); CHECK(own::same<@T>(w, @V));",
    "converted in expressions": "CHECK(floaxie::atof<@T>(@S, nullptr@F) == @V && !(floaxie::atof<@T>(@S, nullptr@F) != @V) && floaxie::atof<@T>(@S, nullptr@F) * 2 == @V * 2 && -floaxie::atof<@T>(@S, nullptr@F) == -@V && std::abs(@T(floaxie::atof<@T>(@S, nullptr@F))) == std::abs(@V) && (true ? floaxie::atof<@T>(@S, nullptr@F) : @T()) == @V);",
    "converted to others": "const long double l = floaxie::atof<@T>(@S, nullptr@F); const double d = floaxie::atof<@T>(@S, nullptr@F); CHECK(l == @V && d == @V && static_cast<@T>(floaxie::atof<@T>(@S, nullptr@F)) == @V); CHECK(static_cast<bool>(floaxie::atof<@T>(@S, nullptr@F)));",
    "passed": "CHECK((own::takes<@T>(floaxie::atof<@T>(@S, nullptr@F), @V)));",
    "streamed": "std::ostringstream a, b; a << floaxie::atof<@T>(@S, nullptr@F); b << @V; CHECK(a.str() == b.str());",
    "printed": "CHECK(floaxie::to_string<@T>(floaxie::atof<@T>(@S, nullptr@F)) == own::plain(@V)); char b[64]; floaxie::ftoa<@T>(floaxie::atof<@T>(@S, nullptr@F), b); CHECK(b == own::plain(@V));",
    "result kept": "auto r = floaxie::atof<@T>(@S, nullptr@F); const auto q = r; floaxie::value_and_status<@T> w; CHECK(own::same(w.value, @T()) && w.status == floaxie::conversion_status::success); w = q; r = std::move(w); CHECK(own::same<@T>(r.value, @V) && own::same<@T>(q.value, @V)); std::swap(r, w);",
    "result bound": "const auto& r = floaxie::atof<@T>(@S, nullptr@F); auto&& q = floaxie::atof<@T>(@S, nullptr@F); CHECK(own::same<@T>(r.value, @V) && own::same<@T>(q, @V)); q.value = 0; q.status = floaxie::conversion_status::overflow; CHECK(q == 0);",
    "result's type": "static_assert(std::is_same<decltype(floaxie::atof<@T>(@S, nullptr@F)), floaxie::value_and_status<@T>>::value, \"\"); static_assert(std::is_same<decltype(floaxie::atof<@T>(@S, nullptr@F).value), @T>::value, \"\"); static_assert(std::is_trivially_copyable<floaxie::value_and_status<@T>>::value && std::is_nothrow_default_constructible<floaxie::value_and_status<@T>>::value && std::is_convertible<floaxie::value_and_status<@T>, @T>::value, \"\"); CHECK(true);",
    "status switched": "const auto r = floaxie::atof<@T>(@S, nullptr@F); switch (r.status) { case floaxie::conversion_status::success: break; case floaxie::conversion_status::underflow: return 1; case floaxie::conversion_status::overflow: return 1; }",
    "status out of range": "@C* e; const auto o = floaxie::atof<@T>(@P\"-1e999\", &e@F); CHECK(o.status == floaxie::conversion_status::overflow && o.value < 0 && std::isinf(o.value) && *e == @C()); const auto u = floaxie::atof<@T>(@P\"1e-999\", &e@F); CHECK(u.status == floaxie::conversion_status::underflow && u.value == 0); const auto z = floaxie::atof<@T>(@P\"x\", &e@F); CHECK(z.status == floaxie::conversion_status::success && own::same<@T>(z, @T()) && *e == 'x');",
    "status kept": "std::vector<floaxie::conversion_status> v(2, floaxie::conversion_status::overflow); v[0] = floaxie::atof<@T>(@S, nullptr@F).status; CHECK(v[0] == floaxie::conversion_status() && v[0] != v[1] && static_cast<int>(v[0]) == 0);",
    "list of numbers": "const std::basic_string<@C> s = std::basic_string<@C>(@S) + @P\" \" + @S + @P\",\" + @S; @C* p = const_cast<@C*>(s.c_str()); for (int i = 0; i < 3; ++i) { CHECK(own::same<@T>(floaxie::atof<@T>(p, &p@F).value, @V)); CHECK(*p == (i == 0 ? ' ' : i == 1 ? ',' : @C())); ++p; }",
    "from_string": "const std::basic_string<@C> s = @S; CHECK(own::same<@T>(floaxie::from_string<@T>(s@F).value, @V) && floaxie::from_string<@T>(s@F).status == floaxie::conversion_status::success);",
    "from_string temporary": "CHECK(own::same<@T>(floaxie::from_string<@T>(std::basic_string<@C>(@S)@F).value, @V)); CHECK(own::same<@T>(floaxie::from_string<@T>((std::basic_string<@C>(@P\"xx\") + @S).substr(2)@F), @V));",
    "from_string of to_string": "CHECK(own::same<@T>(floaxie::from_string<@T>(floaxie::to_basic_string<@T, @C>(@V)@F), @V));",
    "from_string explicit": "std::basic_string<@C> s = @S; CHECK((own::same<@T>(floaxie::from_string<@T, @C>(s@F).value, @V))); CHECK((own::same<@T>(floaxie::from_string<@T, @C>(@S@F).value, @V)));",
    "from_string with fallback": "const std::basic_string<@C> s = @S; CHECK((own::same<@T>(floaxie::from_string<@T>(s, own::fallback<@T, @C>).value, @V))); CHECK((own::same<@T>(floaxie::from_string<@T>(s, own::functor<@T, @C>()).value, @V))); CHECK((own::same<@T>(floaxie::from_string<@T>(s, [](const @C* p, @C** e) { return own::fallback<@T, @C>(p, e); }).value, @V)));",
    "from_string with changing fallback": "const std::basic_string<@C> s = @S; int n = 0; auto f = [n](const @C* p, @C** e) mutable { ++n; return own::fallback<@T, @C>(p, e); }; CHECK(own::same<@T>(floaxie::from_string<@T>(s, f).value, @V)); int calls = 0; own::counting<@T, @C> g{&calls}; CHECK(own::same<@T>(floaxie::from_string<@T>(s, g).value, @V) && calls <= 1); CHECK(own::same<@T>(floaxie::from_string<@T>(s, std::ref(g)).value, @V) && calls <= 2); const std::function<@T(const @C*, @C**)> h = g; CHECK(own::same<@T>(floaxie::from_string<@T>(s, h).value, @V));",
    "from_string accumulated": "const std::vector<std::basic_string<@C>> v(3, std::basic_string<@C>(@S)); int n = 0; for (const auto& s : v) n += floaxie::from_string<@T>(s@F) == @V; CHECK(n == 3);",
    "function pointer": "floaxie::value_and_status<@T> (*f)(const @C*, @C**, @T (*)(const @C*, @C**)) = &floaxie::atof<@T, @C, @T (*)(const @C*, @C**)>; @C* e; CHECK((own::same<@T>(f(@S, &e, own::fallback<@T, @C>).value, @V)));",
    "lambda around": "const auto f = [](const auto* s) { return floaxie::atof<@T>(s, nullptr@F).value; }; CHECK(own::same<@T>(f(@S), @V));",
    "using directive": "using namespace std; using namespace floaxie; @C* e; CHECK(own::same<@T>(floaxie::atof<@T>(@S, &e@F).value, @V)); CHECK(own::same<@T>(atof<@T>(@S, &e@F), @V)); CHECK(own::same<@T>(from_string<@T>(basic_string<@C>(@S)@F).value, @V)); CHECK(atof<@T>(@S, &e@F).status == conversion_status::success);",
    "using declaration": "using floaxie::atof; using floaxie::from_string; using floaxie::conversion_status; @C* e; CHECK(own::same<@T>(atof<@T>(@S, &e@F).value, @V)); CHECK(atof<@T>(@S, nullptr@F).status == conversion_status::success);",
    "namespace alias": "namespace fx = floaxie; @C* e; CHECK(own::same<@T>(fx::atof<@T>(@S, &e@F).value, @V));",
    "temporary's pointer": "CHECK(own::same<@T>(floaxie::atof<@T>(std::basic_string<@C>(@S).c_str(), nullptr@F).value, @V));",
    "offset": "const std::basic_string<@C> s = std::basic_string<@C>(@P\"[x=\") + @S + @P\"]\"; @C* e; CHECK(own::same<@T>(floaxie::atof<@T>(s.c_str() + 3, &e@F).value, @V) && e == s.c_str() + 3 + @L && *e == ']');",
    "end in a structure": "struct { int a; @C* e; } h = {1, nullptr}; floaxie::atof<@T>(@S, &h.e@F); CHECK(h.e && *h.e == @C() && h.a == 1); @C* es[2] = {}; floaxie::atof<@T>(@S, es + 1@F); CHECK(!es[0] && es[1] && *es[1] == @C());",
}
# only for the types with a fallback of their own
DEFAULT_ONLY = {
    "C library as fallback": "@C* e; CHECK((own::same<@T>(floaxie::atof<@T>(@S, &e, @D).value, @V))); CHECK((own::same<@T>(floaxie::atof<@T>(@S, nullptr, &@D).value, @V)));",
    "default fallback named": "@C* e; CHECK((own::same<@T>(floaxie::atof<@T>(@S, &e, floaxie::default_fallback<@T, @C>).value, @V))); CHECK((own::same<@T>(floaxie::default_fallback<@T, @C>(@S, &e), @V)) && *e == @C());",
    "long double's fallback": "@C* e; CHECK((floaxie::default_fallback<long double, @C>(@S, &e)) == @D2(@S, nullptr) && *e == @C());",
    "function type": "floaxie::value_and_status<@T> (*f)(const @C*, @C**, @T (*)(const @C*, @C**)) = &floaxie::atof<@T, @C>; @C* e; CHECK((own::same<@T>(f(@S, &e, floaxie::default_fallback<@T, @C>).value, @V)));",
}
LIBRARY = {("double", "char"): "std::strtod", ("float", "char"): "std::strtof", ("double", "wchar_t"): "std::wcstod", ("float", "wchar_t"): "std::wcstof"}

def statement(rnd):
    """A form with its values."""
    group = rnd.choice(["print", "print", "parse", "parse", "parse", "default"])
    form = rnd.choice(sorted({"print": PRINT, "parse": PARSE, "default": DEFAULT_ONLY}[group]))
    width = rnd.choice([64, 64, 32])
    text, lit = value(rnd, width)
    return {"group": group, "form": form, "width": width, "char": rnd.choice(["char", "wchar_t"] if group == "default" else sorted(CHARS) + ["char"]), "text": text, "value": lit,
            "other": value(rnd, 32)[1], "integer": rnd.choice([0, 1, -1, 7, -25, 100, 12345, -65536, 16777216])}

def code(s):
    t, c = TYPES[s["width"]], s["char"]
    x = {"print": PRINT, "parse": PARSE, "default": DEFAULT_ONLY}[s["group"]][s["form"]]
    explicit = c in ("char16_t", "char32_t")
    for k, v in (("@FT", ""), ("@VF", s["other"]), ("@D2", "std::strtold" if c == "char" else "std::wcstold"), ("@D", LIBRARY.get((t, c), "")), ("@T", t), ("@C", c), ("@V", "(%s)" % s["value"]), ("@I", "(%d)" % s["integer"]),
                 ("@S", CHARS[c] + '"' + s["text"] + '"'), ("@P", CHARS[c]), ("@L", str(len(s["text"]))),
                 ("@N", {"char": "to_string", "wchar_t": "to_wstring", "char16_t": "to_u16string", "char32_t": "to_u32string"}[c]),
                 ("@F", ", own::functor<%s, %s>()" % (t, c) if explicit else "")):
        x = x.replace(k, v)
    return x

def source(prog):
    s = PRELUDE
    for i, x in enumerate(prog["calls"]):
        s += "static int call%d()\n{\n	%s\n	return 0;\n}\n" % (i, code(x).replace("; ", ";\n	"))
    s += "int main()\n{\n" + "".join("	if (call%d()) { std::printf(\"call %d gives something else\\n\"); return 1; }\n" % (i, i) for i in range(len(prog["calls"]))) + "	return 0;\n}\n"
    return s

def generate(rnd):
    return {"cxx": rnd.choice(CXX), "std": rnd.choice(STDS[:1] + STDS), "flags": rnd.choice(FLAGS), "calls": [statement(rnd) for _ in range(rnd.randint(20, 40))]}

def attempt(run, prog, d):
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    try:
        src = os.path.join(d, "p.cpp")
        with open(src, "w") as f:
            f.write(source(prog))
        r = run.sh([prog["cxx"], "-std=" + prog["std"]] + prog["flags"].split() + ["-Wno-deprecated", "-I" + os.path.join(run.REPO, "include"), src, "-o", src[:-4]], timeout=300)
        if r.returncode:
            return "doesn't compile\n" + r.stdout[:3000]
        r = run.sh([src[:-4]], timeout=60)
        return None if r.returncode == 0 else "runs wrong, exit code %d\n%s" % (r.returncode, r.stdout[-2000:])
    finally:
        shutil.rmtree(d, ignore_errors=True)

def control(run, cxx, std, flags, d):
    """The same surroundings without the library have to work."""
    os.makedirs(d, exist_ok=True)
    try:
        src = os.path.join(d, "p.cpp")
        with open(src, "w") as f:
            f.write("".join(l + "\n" for l in PRELUDE.split("\n") if "floaxie" not in l or "ftoa<" in l).replace("floaxie::ftoa<T, char>(v, b)", "static_cast<size_t>(std::snprintf(b, sizeof b, \"%g\", static_cast<double>(v)))"))
            f.write("int main() { CHECK(own::plain(1.5) == \"1.5\"); CHECK((own::fallback<float, char16_t>(u\"1.5\", nullptr)) == 1.5f); return 0; }\n")
        r = run.sh([cxx, "-std=" + std] + flags.split() + ["-Wno-deprecated", src, "-o", src[:-4]], timeout=300)
        if r.returncode == 0:
            r = run.sh([src[:-4]], timeout=60)
        if r.returncode:
            raise run.Broken("the toolchain fails without the library: %s %s %s\n%s" % (cxx, std, flags, r.stdout[-3000:]))
    finally:
        shutil.rmtree(d, ignore_errors=True)

def shrink(run, prog, d):
    """Halves, then single calls, then simpler configuration."""
    def fails(p):
        return attempt(run, p, d) is not None
    n = 2
    calls = prog["calls"]
    while len(calls) > 1:
        size = -(-len(calls) // n)
        parts = [calls[i:i + size] for i in range(0, len(calls), size)]
        for k, part in enumerate(parts):
            rest = part if n == 2 else [x for j, q in enumerate(parts) if j != k for x in q]
            if rest and len(rest) < len(calls) and fails(dict(prog, calls=rest)):
                calls = rest
                n = 2
                break
        else:
            if size == 1:
                break
            n = min(len(calls), n * 2)
    prog = dict(prog, calls=calls)
    for change in ({"flags": "-O0"}, {"std": "c++14"}, {"cxx": "g++"}):
        if any(prog[k] != v for k, v in change.items()) and fails(dict(prog, **change)):
            prog = dict(prog, **change)
    for i, x in enumerate(prog["calls"]):
        for change in ({"char": "char"}, {"width": 64, "text": "0.5", "value": "0.5"}, {"text": "0.5", "value": "0.5" if x["width"] == 64 else "0.5f"}):
            q = dict(prog, calls=prog["calls"][:i] + [dict(prog["calls"][i], **change)] + prog["calls"][i + 1:])
            if q != prog and fails(q):
                prog = q
    return prog

def describe(prog):
    return "%s -std=%s %s: " % (prog["cxx"], prog["std"], prog["flags"]) + "; ".join("%s '%s' with %s of %s %s" % ("print" if x["group"] == "print" else "parse", x["form"], x["char"], TYPES[x["width"]], x["text"]) for x in prog["calls"])

def check(run, args):
    prop = "C40"
    work = os.path.join(run.BUILD, "c40.d")
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    if args.replay:
        doc = json.load(open(args.replay))
        bad = attempt(run, doc["program"], os.path.join(work, "replay"))
        print(describe(doc["program"]))
        print(bad or "passes now")
        if bad:
            print("VIOLATION property=%s replay=%s" % (prop, args.replay))
        return (1 if bad else 0), None
    total = max(8, int((180 if args.tier == "quick" else 9000) * args.scale))
    rnd = random.Random(args.seed * 1000003 + 40)
    programs = [generate(rnd) for _ in range(total)]
    configs = sorted(set((p["cxx"], p["std"], p["flags"]) for p in programs))
    with ThreadPoolExecutor(args.jobs) as pool:
        list(pool.map(lambda c: control(run, c[1][0], c[1][1], c[1][2], os.path.join(work, "control%d" % c[0])), enumerate(configs)))
        stop = []
        def one(i):
            if stop:
                return None
            bad = attempt(run, programs[i], os.path.join(work, "p%d" % i))
            if bad:
                stop.append(i)
            return (i, bad)
        evaluated, seen, classes, failures, samples = 0, set(), {}, [], []
        for r in pool.map(one, range(total)):
            if r is None:
                continue
            i, bad = r
            p = programs[i]
            for x in p["calls"]:
                evaluated += 1
                key = json.dumps(x, sort_keys=True)
                if key not in seen and (x["group"], x["form"]) not in (("print", "variable"), ("parse", "literal")):
                    seen.add(key)
                    if len(samples) < 8 and len(seen) % 37 == 1:
                        samples.append(describe(dict(p, calls=[x])) + ": " + code(x))
                l = ("print: " if x["group"] == "print" else "parse: ") + x["form"]
                classes[l] = classes.get(l, 0) + 1
            for l in (p["cxx"], p["std"], p["flags"]):
                classes[l] = classes.get(l, 0) + 1
            if bad:
                failures.append(i)
    result = {"evaluations": evaluated, "distinct_nontrivial": len(seen), "rule": RULE, "samples": samples, "classes": classes, "programs": total,
              "assumptions": ["the installed GCC and Clang with libstdc++ only"]}
    if not failures:
        return 0, result
    i = failures[0]
    d = os.path.join(work, "shrink")
    if not all(attempt(run, programs[i], d) for _ in range(3)):
        raise run.Broken("a failure of a program didn't come back: " + describe(programs[i]))
    small = shrink(run, programs[i], d)
    bad = attempt(run, small, d) or ""
    print("program %d fails\n input: %s\n%s" % (i, describe(small), bad))
    return run.violation(prop, "program", {"seed": args.seed, "index": i, "program": small, "input": describe(small), "message": bad, "sources": [source(small)]}), result
