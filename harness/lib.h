// Uniform access to the library under test.
#ifndef VERIF_LIB_H
#define VERIF_LIB_H

#include <string>
#include <cstring>
#include <floaxie/atof.h>
#include <floaxie/ftoa.h>

#include "gen.h"

namespace lib
{

template<typename F> struct Parsed
{
	F value;
	floaxie::conversion_status status;
	long long consumed;
	bool operator==(const Parsed& o) const { return oracle::same(value, o.value) && status == o.status && consumed == o.consumed; }
	std::string str() const { return oracle::describe(value) + ", " + oracle::status_name(status) + ", consumed " + std::to_string(consumed); }
};

/** Equivalent of the default fallback for every character type. */
template<typename F, typename C> F reference_fallback(const C* str, C** end)
{
	std::string n;
	for (const C* p = str; *p; ++p)
		n += (*p > 0 && *p < 128) ? static_cast<char>(*p) : '\x01';
	char* e;
	const F v = std::is_same<F, float>::value ? static_cast<F>(std::strtof(n.c_str(), &e)) : static_cast<F>(std::strtod(n.c_str(), &e));
	if (end)
		*end = const_cast<C*>(str + (e - n.c_str()));
	return v;
}

template<typename F, typename C> struct caller
{
	static floaxie::value_and_status<F> call(const C* s, C** e) { return floaxie::atof<F>(s, e, reference_fallback<F, C>); }
};
template<typename F> struct caller<F, char>
{
	static floaxie::value_and_status<F> call(const char* s, char** e) { return floaxie::atof<F>(s, e); }
};
template<typename F> struct caller<F, wchar_t>
{
	static floaxie::value_and_status<F> call(const wchar_t* s, wchar_t** e) { return floaxie::atof<F>(s, e); }
};

template<typename F, typename C> Parsed<F> parse(const C* s)
{
	C* e = nullptr;
	const auto r = caller<F, C>::call(s, &e);
	return Parsed<F>{r.value, r.status, e ? static_cast<long long>(e - s) : -1};
}

template<typename F, typename C> bool fallback_used(const C* s)
{
	int calls = 0;
	C* e;
	floaxie::atof<F>(s, &e, [&](const C* t, C** te) -> F { ++calls; if (te) *te = const_cast<C*>(t); return 0; });
	return calls != 0;
}

template<typename F> Parsed<F> expected(const oracle::Expected<F>& x)
{
	return Parsed<F>{x.value, x.status, static_cast<long long>(x.scan.end)};
}

/** Prints into a large buffer; the text up to NUL. */
template<typename C, typename F> std::basic_string<C> print(F v, size_t* len = nullptr)
{
	C b[256];
	for (auto& ch : b)
		ch = C('#');
	const size_t n = floaxie::ftoa(v, b);
	if (len)
		*len = n;
	size_t l = 0;
	while (l < 255 && b[l])
		++l;
	return std::basic_string<C>(b, l);
}

template<typename F> std::string print(F v) { return print<char>(v); }

template<typename C> std::string show(const std::basic_string<C>& s)
{
	std::string r = "\"";
	char b[16];
	for (C ch : s)
	{
		const auto u = static_cast<unsigned long>(static_cast<typename std::make_unsigned<typename std::conditional<sizeof(C) == 1, char, typename std::conditional<sizeof(C) == 2, short, int>::type>::type>::type>(ch));
		if (u == '"' || u == '\\') { r += '\\'; r += static_cast<char>(u); }
		else if (u < 0x20 || u >= 0x7f) { std::snprintf(b, sizeof b, sizeof(C) == 1 ? "\\x%02lx" : "\\u{%lx}", u); r += b; }
		else r += static_cast<char>(u);
		if (r.size() > 4000) { r += "..."; break; }
	}
	return r + "\"";
}

template<typename C> const char* type_name();
template<> inline const char* type_name<char>() { return "char"; }
template<> inline const char* type_name<wchar_t>() { return "wchar_t"; }
template<> inline const char* type_name<char16_t>() { return "char16_t"; }
template<> inline const char* type_name<char32_t>() { return "char32_t"; }

}

#endif
