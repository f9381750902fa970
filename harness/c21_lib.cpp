// The library built in one configuration, behind a C interface.
#include <cstddef>
#include <string>
#include <cerrno>
#include <floaxie/atof.h>
#include <floaxie/ftoa.h>

#define API extern "C" __attribute__((visibility("default")))

template<typename F, typename C> static void parse(const C* s, F* v, int* st, long* n)
{
	C* e = nullptr;
	const auto r = floaxie::atof<F>(s, &e);
	*v = r.value;
	*st = static_cast<int>(r.status);
	*n = static_cast<long>(e - s);
}

API void parse_d(const char* s, double* v, int* st, long* n) { parse(s, v, st, n); }
API void parse_f(const char* s, float* v, int* st, long* n) { parse(s, v, st, n); }
API void wparse_d(const wchar_t* s, double* v, int* st, long* n) { parse(s, v, st, n); }
API void wparse_f(const wchar_t* s, float* v, int* st, long* n) { parse(s, v, st, n); }
API int fallback_d(const char* s)
{
	int calls = 0;
	char* e;
	floaxie::atof<double>(s, &e, [&](const char* t, char** te) -> double { ++calls; if (te) *te = const_cast<char*>(t); return 0; });
	return calls;
}
API int fallback_f(const char* s)
{
	int calls = 0;
	char* e;
	floaxie::atof<float>(s, &e, [&](const char* t, char** te) -> float { ++calls; if (te) *te = const_cast<char*>(t); return 0; });
	return calls;
}
API long print_d(double v, char* b) { return static_cast<long>(floaxie::ftoa(v, b)); }
API long print_f(float v, char* b) { return static_cast<long>(floaxie::ftoa(v, b)); }
API long wprint_d(double v, wchar_t* b) { return static_cast<long>(floaxie::ftoa(v, b)); }
API long u16print_f(float v, char16_t* b) { return static_cast<long>(floaxie::ftoa(v, b)); }
API long u32print_d(double v, char32_t* b) { return static_cast<long>(floaxie::ftoa(v, b)); }
API long sizes(int t) { return static_cast<long>(t ? floaxie::max_buffer_size<float>() : floaxie::max_buffer_size<double>()); }
API long string_d(double v, char* b) { const std::string s = floaxie::to_string(v); s.copy(b, 64); b[s.size() < 64 ? s.size() : 64] = 0; return static_cast<long>(s.size()); }
API void from_d(const char* s, double* v, int* st) { const auto r = floaxie::from_string<double>(std::string(s)); *v = r.value; *st = static_cast<int>(r.status); }
