"""Planted bugs: (id, property, needs, what it breaks, [(file, old, new)], demo source, compile flags or script).

Written from the statements of the properties and the code; plant.py turns them
into seeded/<id>/ after confirming them. The checks never read this.
"""
PLANTS = []
def plant(id, prop, needs, breaks, edits, demo, flags="-std=c++14 -O1", extra=None):
    PLANTS.append(dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=edits, demo=demo, flags=flags, extra=extra or {}))

HEAD = "#include <floaxie/atof.h>\n#include <floaxie/ftoa.h>\n#include <cstdio>\n#include <cstdlib>\n#include <cstring>\n#include <cmath>\n#include <limits>\n#include <string>\n\n"

def parse_demo(cases, ftype="double"):
    """Each text has to parse to what the C library reads, consuming it all."""
    s = HEAD + "static int bad;\nstatic void check(const std::string& s)\n{\n"
    s += "	char* e;\n	const auto r = floaxie::atof<%s>(s.c_str(), &e);\n" % ftype
    s += "	const %s x = %s(s.c_str(), nullptr);\n" % (ftype, "std::strtod" if ftype == "double" else "std::strtof")
    s += "	if (std::memcmp(&r.value, &x, sizeof x) != 0 || *e) { std::printf(\"%s: %a instead of %a, rest '%s'\\n\", s.c_str(), double(r.value), double(x), e); ++bad; }\n}\n\n"
    s += "int main()\n{\n" + "".join("	check(%s);\n" % c for c in cases) + "	return bad != 0;\n}\n"
    return s

def body_demo(body, head=""):
    return head + HEAD + "int main()\n{\n" + "".join("	" + l + "\n" for l in body.strip().split("\n")) + "}\n"

plant("wide-double-rounding", "C18",
      "a wide float text within the double rounding distance of a halfway point",
      "wchar_t texts parse to another float than the same char texts",
      [("default_fallback.h", "return std::wcstof(str, str_end);", "return static_cast<float>(std::wcstod(str, str_end));")],
      body_demo("""
const char* s = "1.00000005960464477539062500000000000000000001";
const std::wstring w(s, s + std::strlen(s));
char* e;
wchar_t* we;
const auto a = floaxie::atof<float>(s, &e);
const auto b = floaxie::atof<float>(w.c_str(), &we);
if (a.value != b.value) std::printf("char: %a, wchar_t: %a\\n", double(a.value), double(b.value));
return a.value != b.value;
"""))

plant("float-overflow-value", "C02",
      "a float text out of range by its decimal exponent",
      "overflow is reported, but the value is the largest finite one instead of infinity",
      [("huge_val.h", "return HUGE_VALF;", "return std::numeric_limits<float>::max();")],
      parse_demo(['"1e60"', '"-123e51"'], "float"))

plant("offset-512", "C03",
      "a representation longer than 512 characters",
      "parsing stops in the middle of the digits, so a shorter prefix is consumed",
      [("krosh.h", "constexpr std::size_t maximum_offset = 2048;", "constexpr std::size_t maximum_offset = 512;")],
      body_demo("""
const std::string s = "0." + std::string(700, '0') + "12345e703";
char* e;
const auto r = floaxie::atof<double>(s.c_str(), &e);
if (*e || r.value != 123.45) std::printf("%g, consumed %d of %d\\n", r.value, int(e - s.c_str()), int(s.size()));
return *e || r.value != 123.45;
"""))

plant("inf-after-digits", "C04",
      "a sign, then digits, then a special literal",
      "special literals are recognised in the middle of a signed number",
      [("krosh.h", """			case 'i':
			case 'I':
				if (pos == sign_set)""", """			case 'i':
			case 'I':
				if (sign_set || pos == 0)""")],
      body_demo("""
char* e;
const char* s = "-12inf";
const auto r = floaxie::atof<double>(s, &e);
if (r.value != -12 || e != s + 3) std::printf("%g, consumed %d\\n", r.value, int(e - s));
return r.value != -12 || e != s + 3;
"""))

plant("infinity-suffix", "C04",
      "'infi' followed by a part of the rest of 'infinity'",
      "an incomplete 'infinity' is consumed beyond 'inf'",
      [("krosh.h", "					eaten = cp - str;", "					eaten = pos + 3;\n				else if (pos > 2)\n					eaten = cp - str;")],
      body_demo("""
char* e;
const char* s = "infinit!";
floaxie::atof<double>(s, &e);
if (e != s + 3) std::printf("consumed %d\\n", int(e - s));
return e != s + 3;
"""))

plant("long-zero-run", "C05",
      "more than 255 zeros in a row behind the point or between the digits",
      "the counter of zeros wraps around, so that leading fraction zeros change the value",
      [("krosh.h", "std::size_t zero_substring_length(0), fraction_digits_count(0);", "unsigned char zero_substring_length(0);\n		std::size_t fraction_digits_count(0);"),
       ("krosh.h", "auto zero_copy_count = zero_substring_length;", "std::size_t zero_copy_count = zero_substring_length;"),
       ("krosh.h", "zero_copy_count = std::min(zero_substring_length, spare_digits);", "zero_copy_count = std::min<std::size_t>(zero_substring_length, spare_digits);")],
      body_demo("""
const std::string s = "0." + std::string(299, '0') + "125e299";
char* e;
const auto r = floaxie::atof<double>(s.c_str(), &e);
if (r.value != 0.125) std::printf("%g\\n", r.value);
return r.value != 0.125;
"""))

plant("no-negative-zero", "C05",
      "a negative zero, or a negative number rounding to zero",
      "a minus in front of a zero is dropped",
      [("krosh.h", "			ret.is_accurate = true;\n			ret.status = conversion_status::success;\n		}\n\n		if (!mp.sign)\n			ret.value = -ret.value;", "			ret.is_accurate = true;\n			ret.status = conversion_status::success;\n		}\n\n		if (!mp.sign && ret.value != 0)\n			ret.value = -ret.value;")],
      body_demo("""
char* e;
int bad = 0;
for (const char* s : {"-0", "-0.000e5", "-1e-330"})
	if (!std::signbit(floaxie::atof<double>(s, &e).value)) { std::printf("%s\\n", s); ++bad; }
return bad;
"""))

plant("nonzero-leading-point", "C06",
      "a rest behind the number which starts with a point",
      "a second point is taken for the end only after it has been consumed",
      [("krosh.h", "		ret.str_end = str + (pos - 1);", "		ret.str_end = str + (pos - !(dot_set && str[pos - 1] == '.' && parsed_digits.size() > 3));")],
      body_demo("""
char* e;
const char* s = "12.345.6";
const auto r = floaxie::atof<double>(s, &e);
if (e != s + 6 || r.value != 12.345) std::printf("consumed %d\\n", int(e - s));
return e != s + 6;
"""))

plant("fallback-own-end", "C08",
      "a caller's fallback which looks at its end pointer argument, and a text which needs it",
      "the fallback gets an end pointer of the library instead of the caller's",
      [("atof.h", "				result.value = fallback_func(str, str_end);", "				CharType* fallback_end(const_cast<CharType*>(cr.str_end));\n				result.value = fallback_func(str, &fallback_end);\n				if (str_end)\n					*str_end = fallback_end;")],
      body_demo("""
char* e;
char** seen = nullptr;
const char* s = "0.500000000000000166533453693773481063544750213623046875";
floaxie::atof<double>(s, &e, [&](const char* t, char** te) -> double { seen = te; return std::strtod(t, te); });
if (seen != &e) std::printf("another end pointer\\n");
return seen != &e;
"""))

plant("fraction-over-end", "C09",
      "a text which ends within four characters behind the digits held by the mantissa",
      "digits are looked for behind the terminator of the text",
      [("krosh.h", "				parsed_digits[pos] = c;\n			else\n				break;", "				parsed_digits[pos] = c;")],
      body_demo("""
int bad = 0;
for (const char* s : {"12345678901234567891", "1234567890123456789.1", "0.12345678901234567891"})
{
	char* b = static_cast<char*>(std::malloc(std::strlen(s) + 1));
	std::strcpy(b, s);
	char* e;
	floaxie::atof<double>(b, &e);
	bad += *e != 0;
	std::free(b);
}
return bad;
"""), flags="-std=c++14 -O1 -fsanitize=address -fno-sanitize-recover=all")

plant("nan-without-bound", "C09",
      "an unterminated 'nan(' at the end of readable memory",
      "the closing bracket is looked for beyond the terminator",
      [("krosh.h", "				while ((*cp >= '0' && *cp <= '9') ||", "				while (*cp == 0 || (*cp >= '0' && *cp <= '9') ||")],
      body_demo("""
char* b = static_cast<char*>(std::malloc(5));
std::strcpy(b, "nan(");
char* e;
floaxie::atof<double>(b, &e);
const int bad = e != b + 3;
std::free(b);
return bad;
"""), flags="-std=c++14 -O1 -fsanitize=address -fno-sanitize-recover=all")

plant("power-memo", "C10",
      "two conversions in a row whose cached powers are 256 decimal exponents apart",
      "the second conversion uses the power of the first one",
      [("cached_power.h", "		const std::size_t index = powers_ten<FloatType>::pow_0_offset + k;", "		// consecutive conversions tend to need the same power\n		static thread_local std::size_t index = powers_ten<FloatType>::pow_0_offset;\n		static thread_local signed char last_k = 0;\n\n		if (last_k != static_cast<signed char>(k))\n		{\n			index = powers_ten<FloatType>::pow_0_offset + k;\n			last_k = static_cast<signed char>(k);\n		}")],
      body_demo("""
char* e;
const double a = floaxie::atof<double>("1e200", &e).value;
const double b = floaxie::atof<double>("1e-56", &e).value;
if (a != 1e200 || b != 1e-56) std::printf("%g %g\\n", a, b);
return a != 1e200 || b != 1e-56;
"""))

plant("lower-bound-not-shrunk", "C11",
      "a value whose shortest digits lie just at the lower bound of its rounding interval",
      "some values print to digits which lie outside of the interval and read back to the neighbour",
      [("grisu.h", "		++w_m;\n		--w_p;", "		--w_m;\n		--w_p;")],
      body_demo("""
unsigned long long x = 88172645463325252ull;
char b[64];
long bad = 0;
for (long i = 0; i < 30000000 && !bad; ++i)
{
	x ^= x << 13; x ^= x >> 7; x ^= x << 17;
	unsigned u = static_cast<unsigned>(x >> 32) & 0x7fffffff;
	float v;
	std::memcpy(&v, &u, 4);
	if (!std::isfinite(v) || v == 0) continue;
	floaxie::ftoa(v, b);
	if (std::strtof(b, nullptr) != v) { std::printf("%a prints %s\\n", double(v), b); ++bad; }
}
return bad != 0;
""", ""), flags="-std=c++14 -O2")

plant("threshold-off-by-one", "C13",
      "a value with exactly 16 digits before or after the point",
      "decimal notation ends one digit too early",
      [("prettify.h", "return field_width > threshold ? format::scientific : format::decimal;", "return field_width >= threshold ? format::scientific : format::decimal;")],
      body_demo("""
int bad = 0;
for (double v : {1e15, 1234567890123456., 1.2345678901234e-2, 1e-16})
	if (floaxie::to_string(v).find('e') != std::string::npos) { std::printf("%s\\n", floaxie::to_string(v).c_str()); ++bad; }
return bad;
"""))

plant("buffer-of-digits10", "C14",
      "a value with the maximum number of digits, a minus and a three-digit negative exponent",
      "the advertised buffer is too small for the longest texts",
      [("grisu.h", "		return std::numeric_limits<half_of_mantissa_storage_type>::digits10 +\n			std::numeric_limits<typename diy_fp<FloatType>::mantissa_storage_type>::digits10;", "		return std::numeric_limits<FloatType>::max_digits10;")],
      body_demo("""
int bad = 0;
char b[100];
for (double v : {-1.2345678901234567e-300, -4.9406564584124654e-308})
{
	std::memset(b, '#', sizeof b);
	floaxie::ftoa(v, b);
	for (size_t i = floaxie::max_buffer_size<double>(); i < sizeof b; ++i) bad += b[i] != '#';
}
if (bad) std::printf("%d characters beyond the buffer of %d\\n", bad, int(floaxie::max_buffer_size<double>()));
return bad != 0;
"""))

plant("exponent-length", "C14",
      "a value printed with a three-digit exponent",
      "the returned length is one less than that of the text",
      [("prettify.h", "		return 2 + (hundreds > 0);", "		return 2;")],
      body_demo("""
char b[64];
int bad = 0;
for (double v : {1e100, 1.5e-300})
	bad += floaxie::ftoa(v, b) != std::strlen(b);
return bad;
"""))

plant("subnormals-are-zero", "C15",
      "a subnormal value",
      "subnormal values print as '0'",
      [("ftoa.h", "		else if (v == 0)\n", "		else if (!std::isnormal(v))\n")],
      body_demo("""
return floaxie::to_string(4e-320) == "0" || floaxie::to_string(1e-45f) == "0";
"""))

plant("half-of-delta", "C16",
      "a value whose shortest digits lie in the outer half of its rounding interval",
      "many values print with more digits than needed, though they still read back",
      [("grisu.h", "			auto delta_f = delta.mantissa();", "			auto delta_f = delta.mantissa();\n			delta_f -= delta_f / 8;")],
      body_demo("""
unsigned long long x = 88172645463325252ull;
char b[64];
long n = 0, longer = 0;
for (long i = 0; i < 200000; ++i)
{
	x ^= x << 13; x ^= x >> 7; x ^= x << 17;
	double v;
	std::memcpy(&v, &x, 8);
	if (!std::isfinite(v) || v == 0) continue;
	v = std::fabs(v);
	floaxie::ftoa(v, b);
	int digits = 0;
	for (const char* p = b; *p && *p != 'e'; ++p) digits += *p >= '0' && *p <= '9' && (digits || *p != '0');
	char s[64];
	int shortest = 1;
	for (; shortest < 17; ++shortest)
	{
		std::snprintf(s, sizeof s, "%.*e", shortest - 1, v);
		if (std::strtod(s, nullptr) == v) break;
	}
	++n;
	longer += digits > shortest;
}
std::printf("%ld of %ld are longer than needed\\n", longer, n);
return longer * 100 > n * 2;
"""))

plant("negative-infinity-length", "C17",
      "the length returned for negative infinity",
      "'-inf' is reported to be as long as 'inf'",
      [("ftoa.h", "				return 4;", "				return 3;")],
      body_demo("""
char b[64];
return floaxie::ftoa(-std::numeric_limits<double>::infinity(), b) != 4;
"""))

plant("narrowed-characters", "C18",
      "a wide character which shares its low byte with a digit",
      "wide characters which merely look like digits in their low byte are taken for them",
      [("krosh.h", "			const auto c = str[pos];\n			switch (c)", "			const char c = static_cast<char>(str[pos]);\n			switch (c)")],
      body_demo("""
const wchar_t s[] = {L'1', wchar_t(0x0132), 0};
wchar_t* e;
const auto r = floaxie::atof<double>(s, &e);
if (e != s + 1 || r.value != 1) std::printf("%g\\n", r.value);
return e != s + 1 || r.value != 1;
"""))

plant("u32-through-float", "C19",
      "a double which is not a float, printed to char32_t",
      "to_u32string prints the value narrowed to float",
      [("ftoa.h", "return to_basic_string<FloatType, char32_t>(v);", "return to_basic_string<float, char32_t>(v);")],
      body_demo("""
const auto s = floaxie::to_string(1.23456789012);
const auto u = floaxie::to_u32string(1.23456789012);
return std::string(u.begin(), u.end()) != s;
"""))

plant("from-string-default-fallback", "C19",
      "a caller's fallback given to from_string and a text which needs it",
      "from_string drops the caller's fallback",
      [("atof.h", "return atof<FloatType>(str.c_str(), nullptr, fallback_func);", "return fallback_func ? atof<FloatType>(str.c_str(), nullptr) : value_and_status<FloatType>();")],
      body_demo("""
struct F { static double f(const char*, char**) { return 42; } };
const std::string s = "0.500000000000000166533453693773481063544750213623046875";
const double a = floaxie::atof<double>(s.c_str(), nullptr, F::f).value, b = floaxie::from_string<double>(s, F::f).value;
if (a != b) std::printf("%g %g\\n", a, b);
return a != b;
"""))

plant("static-digits", "C20",
      "two threads parsing at the same time",
      "the digits of the parsed text are kept in a buffer shared by all the threads",
      [("krosh.h", "		std::vector<unsigned char> parsed_digits;\n		parsed_digits.reserve(kappa);", "		// allocated once\n		static std::vector<unsigned char> parsed_digits;\n		parsed_digits.reserve(kappa);\n		parsed_digits.clear();")],
      body_demo("""
std::atomic<long> bad(0);
std::vector<std::thread> t;
for (int i = 0; i < 4; ++i)
	t.emplace_back([&, i] {
		const std::string s = std::to_string(i + 1) + ".5";
		for (int k = 0; k < 300000; ++k)
			if (floaxie::from_string<double>(s).value != i + 1.5) ++bad;
	});
for (auto& x : t) x.join();
std::printf("%ld wrong results\\n", bad.load());
return bad != 0;
""", "#include <thread>\n#include <atomic>\n#include <vector>\n"), flags="-std=c++14 -O1 -pthread -fsanitize=thread")

plant("side-effect-in-assert", "C21",
      "a build with NDEBUG",
      "the extended value is normalised inside of an assertion only, so that parsing is wrong with assertions off",
      [("krosh.h", "			w.normalize();\n			const auto& v", "			assert((w.normalize(), w.is_normalized()));\n			const auto& v")],
      parse_demo(['"0.1"', '"123.456e78"', '"3e5"', '"7.7e-7"']), flags="-std=c++14 -O1 -DNDEBUG")

plant("fallback-not-inline", "C22",
      "two translation units which include the parsing header",
      "the default fallback is defined in each of them, and the program doesn't link",
      [("default_fallback.h", "template<> inline float default_fallback<float, wchar_t>", "template<> float default_fallback<float, wchar_t>")],
      HEAD + "int other();\nint main() { return other() != 1; }\n",
      extra={"second.cpp": "#include <floaxie/atof.h>\nint other() { char* e; return static_cast<int>(floaxie::atof<float>(\"1\", &e).value); }\n"})

plant("print-not-inline", "C22",
      "two translation units which include any header using the debug printing",
      "a function is defined in each of them, and the program doesn't link",
      [("print.h", "	std::string inline print_binary(double f)", "	std::string print_binary(double f)")],
      HEAD + "int other();\nint main() { return other() != 1; }\n",
      extra={"second.cpp": "#include <floaxie/print.h>\nint other() { return floaxie::print_binary(1.0).size() == 66; }\n"})

plant("bit-ops-missing-include", "C22",
      "a translation unit which includes the debug printing header only",
      "the header uses a helper it doesn't include",
      [("print.h", "#include <floaxie/type_punning_cast.h>\n#include <floaxie/bit_ops.h>\n", "#include <floaxie/type_punning_cast.h>\n")],
      "#include <floaxie/print.h>\nint main() { return floaxie::print_binary(5u).back() != '1'; }\n")

LOCALE_SH = """#!/bin/bash
# a locale with a decimal comma is compiled into a scratch directory
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d)
localedef -i de_DE -f UTF-8 --no-archive "$work/de_DE.UTF-8" > /dev/null 2>&1
g++ -std=c++14 -O1 -Iinclude "$here/demo.cpp" -o "$work/demo" || exit 2
LOCPATH="$work" "$work/demo"
rc=$?
rm -rf -- "$work"
exit $rc
"""
plant("locale-point", "C23",
      "a locale whose radix character isn't '.', and a value printed in scientific notation",
      "printing takes the decimal point of the current locale",
      [("prettify.h", "			buffer[1] = '.';", "			buffer[1] = *std::localeconv()->decimal_point;"),
       ("prettify.h", "#include <cstdlib>\n", "#include <cstdlib>\n#include <clocale>\n")],
      body_demo("""
if (!std::setlocale(LC_ALL, "de_DE.UTF-8")) return 3;
const std::string s = floaxie::to_string(1.5e100);
if (s != "1.5e100") std::printf("%s\\n", s.c_str());
return s != "1.5e100";
""", "#include <clocale>\n"), extra={"demo.sh": LOCALE_SH})

plant("power-of-minus-291", "C24",
      "the cached power 10^-291",
      "its significand is one unit off",
      [("powers_ten_double.h", "0x9faacf3df73609b1", "0x9faacf3df73609b0")], body_demo("""
const auto p = floaxie::cached_power<double>(-291);
const unsigned long long next = floaxie::cached_power<double>(-290).mantissa();
// 10^-291 = 0x9faacf3df73609b1.. * 2^-1030
if (p.mantissa() != 0x9faacf3df73609b1ull) std::printf("%llx\\n", static_cast<unsigned long long>(p.mantissa()));
return p.mantissa() != 0x9faacf3df73609b1ull || next >> 63 != 1;
"""))

plant("subnormal-lower-bound", "C27",
      "a subnormal value",
      "the lower bound of subnormals is a quarter of the gap away instead of a half",
      [("diy_fp.h", "const unsigned char shift_amount(1 + (mi.m_f == hidden_bit()));", "const unsigned char shift_amount(1 + (mi.m_f <= hidden_bit()));")],
      body_demo("""
const double v = 1e-310;
const auto b = floaxie::diy_fp<double>::boundaries(v);
// the bounds of a subnormal are symmetric around it
floaxie::diy_fp<double> w(v);
unsigned long long f = w.mantissa();
int e = w.exponent();
while (e > b.first.exponent()) { f <<= 1; --e; }
if (b.second.mantissa() - f != f - b.first.mantissa()) std::printf("not symmetric\\n");
return b.second.mantissa() - f != f - b.first.mantissa();
"""))

plant("print-low-half", "C28",
      "an integer with bits above the 32nd",
      "the upper half of 64-bit integers is printed as zeros",
      [("print.h", "return std::bitset<bit_size<NumericType>()>(v).to_string();", "return std::bitset<bit_size<NumericType>()>(static_cast<std::uint32_t>(v)).to_string();")],
      body_demo("""
return floaxie::print_binary(0x8000000000000001ul)[0] != '1';
""", "#include <floaxie/print.h>\n"))

plant("fraction-strict", "C31",
      "a decimal fraction whose binary writing ends within the digits",
      "exact binary fractions are a whole unit too small",
      [("fraction.h", "			return decimal_numerator >= decimal_fraction;", "			return decimal_numerator > decimal_fraction + 1;")],
      body_demo("""
int bad = 0;
for (unsigned n = 0; n < 10000; ++n)
{
	const double exact = n / 10000.0 * 128, got = floaxie::convert_numerator<4, 7>(n);
	bad += std::fabs(exact - got) >= 1;
}
std::printf("%d wrong\\n", bad);
return bad != 0;
"""))

plant("zeros-in-integer-part", "C12",
      "a value whose scaled integer part ends with zeros, while the fraction isn't within the bound",
      "zeros in the middle of the digits are lost",
      [("grisu.h", "					(*len) += kappa;", "					(*len) += kappa > 1 ? 1 : kappa;")],
      body_demo("""
unsigned long long x = 88172645463325252ull;
char b[64];
long bad = 0;
for (long i = 0; i < 20000000 && !bad; ++i)
{
	x ^= x << 13; x ^= x >> 7; x ^= x << 17;
	// few leading digits, then zeros, then something small
	char t[64];
	std::snprintf(t, sizeof t, "%llu.00000%llue%d", 1 + x % 9, 1 + (x >> 8) % 99999999, int((x >> 40) % 60) - 30);
	const double v = std::strtod(t, nullptr);
	floaxie::ftoa(v, b);
	if (std::strtod(b, nullptr) != v) { std::printf("%s prints %s\\n", t, b); ++bad; }
}
return bad != 0;
"""), flags="-std=c++14 -O2")

plant("lazy-powers", "C20",
      "the first conversions of a process being made by several threads at once",
      "the table of powers is filled in at the first use without synchronisation",
      [("static_pow.h", """constexpr T seq_pow(std::size_t pow)
	{
		typedef make_integer_array<typename pow_sequencer<T, base, max_pow>::sequence_type> maker;
		constexpr typename maker::type arr(maker::value);

		return arr[pow];""", """inline T seq_pow(std::size_t pow)
	{
		static T arr[max_pow + 1];

		// filled in at the first use
		if (!arr[pow])
		{
			arr[0] = 1;
			for (std::size_t i = 1; i <= pow; ++i)
				arr[i] = arr[i - 1] * base;
		}

		return arr[pow];""")], body_demo("""
std::atomic<long> bad(0), go(0);
std::vector<std::thread> t;
for (int i = 0; i < 4; ++i)
	t.emplace_back([&] {
		++go;
		while (go < 4) { }
		if (floaxie::from_string<double>(std::string("123456.789")).value != 123456.789) ++bad;
	});
for (auto& x : t) x.join();
return bad != 0;
""", "#include <thread>\n#include <atomic>\n#include <vector>\n"), flags="-std=c++14 -O1 -pthread -fsanitize=thread")


def hard_demo(pick, ftype="double", n=3000000):
    """Texts close to halfway points: pick() makes one out of the digits of the
    halfway point and its decimal exponent, or gives up on it."""
    bits = 64 if ftype == "double" else 32
    return HEAD + """
static unsigned long long x = 88172645463325252ull;
static unsigned long long rnd() { x ^= x << 13; x ^= x >> 7; x ^= x << 17; return x; }

// d: digits of a halfway point, d[0] is before the point
static bool pick(const std::string& d, int e, std::string& s)
{
%s
}

int main()
{
	long bad = 0, tried = 0;
	for (long i = 0; i < %d && !bad; ++i)
	{
		%s v = std::ldexp(static_cast<%s>(rnd() >> 11), int(rnd() %% 100) - 100);
		const long double h = (static_cast<long double>(v) + static_cast<long double>(std::nextafter(v, %s(INFINITY)))) / 2;
		char b[200];
		std::snprintf(b, sizeof b, "%%.60Le", h);
		std::string d(1, b[0]), s;
		d.append(b + 2, 60);
		if (!pick(d, std::atoi(std::strchr(b, 'e') + 1), s)) continue;
		++tried;
		char* end;
		const auto r = floaxie::atof<%s>(s.c_str(), &end);
		const %s y = %s(s.c_str(), nullptr);
		if (r.value != y) { std::printf("%%s: %%a instead of %%a\\n", s.c_str(), double(r.value), double(y)); ++bad; }
	}
	std::printf("%%ld tried\\n", tried);
	return bad != 0;
}
""" % (pick, n, ftype, ftype, ftype, ftype, ftype, "std::strtod" if ftype == "double" else "std::strtof")

plant("zero-run-at-capacity", "C01",
      "a run of zeros which starts inside the digits held by the mantissa and reaches beyond them, with a digit behind, next to a halfway point",
      "the digit behind the zeros is put into the last place of the held ones, so that the value is a bit too large and seems exact",
      [("krosh.h", "zero_copy_count = std::min(zero_substring_length, spare_digits);", "zero_copy_count = std::min(zero_substring_length, spare_digits - 1);")],
      hard_demo("""	if (d.compare(16, 3, "000") || d[19] == '0') return false;
	s = d.substr(0, 1) + "." + d.substr(1, 15) + std::string(10, '0') + "1e" + std::to_string(e);
	return true;""", n=6000000), flags="-std=c++14 -O2")

plant("float-double-rounding", "C07",
      "a float text just above a halfway point between two floats, closer to it than a double can tell",
      "the fallback of float goes through double, so that the text becomes a tie and goes to the wrong neighbour",
      [("default_fallback.h", "return std::strtof(str, str_end);", "const double d = std::strtod(str, str_end);\n\n		// the ends of the range are left to the library function\n		if (std::fabs(d) < std::numeric_limits<float>::min() || std::fabs(d) > std::numeric_limits<float>::max())\n			return std::strtof(str, str_end);\n\n		return static_cast<float>(d);"),
       ("default_fallback.h", "#include <cstdlib>\n", "#include <cstdlib>\n#include <cmath>\n#include <limits>\n")],
      parse_demo(['"1.00000005960464477539062500000000000000000001"'], "float"))

plant("tail-without-zeros", "C29",
      "a text whose digits beyond the mantissa start with zeros, next to a halfway point",
      "the zeros in front of the rest are skipped, so that the rest counts for too much and a smaller text can give a larger value",
      [("krosh.h", "ret.frac = convert_numerator", "// zeros don't contribute\n						while (tail && tail % 10 == 0)\n							tail /= 10;\n\n						while (tail && tail < 1000)\n							tail *= 10;\n\n						ret.frac = convert_numerator")],
      hard_demo("""	if (d[19] != '0') return false;
	s = d.substr(0, 1) + "." + d.substr(1, 18) + "00" + std::to_string(900 + rnd() % 90) + "e" + std::to_string(e);
	return true;"""), flags="-std=c++14 -O2")

plant("smallest-normal-binade", "C26",
      "an extended value between the smallest normal value and twice of it",
      "values of the lowest normal exponent get the exponent of the subnormals",
      [("diy_fp.h", "exponent_bias - (denorm_exp > lsb_pow);", "exponent_bias - (denorm_exp >= lsb_pow);")],
      body_demo("""
floaxie::diy_fp<double> w(3e-308);
w.normalize();
const auto r = w.downsample();
if (r.value != 3e-308) std::printf("%g\\n", r.value);
return r.value != 3e-308;
"""))

plant("product-rounding-bit", "C25",
      "a product whose cut part is between a half and three quarters of the unit",
      "products are rounded up from three quarters on only, so that the error reaches that",
      [("diy_fp.h", "(bc & mask_half) + raised_bit<mantissa_storage_type>(half_width - 1);", "(bc & mask_half) + raised_bit<mantissa_storage_type>(half_width - 2);")],
      body_demo("""
unsigned long long x = 88172645463325252ull, y;
int bad = 0;
for (int i = 0; i < 1000; ++i)
{
	x ^= x << 13; x ^= x >> 7; x ^= x << 17; y = x * 0x9e3779b97f4a7c15ull;
	const auto r = floaxie::diy_fp<double>(x, 0) * floaxie::diy_fp<double>(y, 0);
	const unsigned __int128 p = static_cast<unsigned __int128>(x) * y, q = static_cast<unsigned __int128>(r.mantissa()) << 64;
	const unsigned __int128 d = p > q ? p - q : q - p;
	bad += d > (static_cast<unsigned __int128>(1) << 63) + (static_cast<unsigned __int128>(1) << 34);
}
return bad != 0;
"""), flags="-std=gnu++14 -O1")

plant("digits-of-41", "C12",
      "a value printed with 41 in the last two digits of its exponent",
      "two digits of the exponent are exchanged",
      [("prettify.h", "'4', '0', '4', '1', '4', '2'", "'4', '0', '1', '4', '4', '2'")],
      body_demo("""
int bad = 0;
for (double v : {1.5e41, 2e-141, 3e241})
{
	const std::string s = floaxie::to_string(v);
	if (floaxie::from_string<double>(s).value != v) { std::printf("%s\\n", s.c_str()); ++bad; }
}
return bad;
"""))

plant("log-imprecise", "C11",
      "a value of a large or small magnitude, for which the estimate of the decimal exponent is off by one",
      "the scaled value leaves the range which digit generation is made for",
      [("k_comp.h", "constexpr auto lg_2(0.30102999566398114);", "constexpr auto lg_2(0.3016);")],
      body_demo("""
long bad = 0;
for (int e = -1074; e < 1024; ++e)
	for (double m : {1.0, 1.1, 1.3, 1.7, 1.9999999999})
	{
		const double v = std::ldexp(m, e);
		if (v == 0 || !std::isfinite(v)) continue;
		char b[512];
		floaxie::ftoa(v, b);
		if (std::strtod(b, nullptr) != v) { if (!bad) std::printf("%a prints %s\\n", v, b); ++bad; }
	}
return bad != 0;
"""), flags="-std=c++14 -O1 -DNDEBUG")

plant("notation-by-magnitude", "C13",
      "a small value with many digits, whose digits reach beyond the 16th place after the point",
      "the notation is chosen by the magnitude alone, so that long texts stay decimal",
      [("prettify.h", "const std::size_t field_width = std::max(dot_pos, -k);", "const std::size_t field_width = std::abs(dot_pos);")],
      body_demo("""
const std::string s = floaxie::to_string(1.2345678e-10);
if (s != "1.2345678e-10") std::printf("%s\\n", s.c_str());
return s != "1.2345678e-10";
"""))

plant("memo-by-address", "C10",
      "a string which keeps its address and length, but changes its contents between two conversions",
      "the result of the previous conversion of the same string object is returned",
      [("atof.h", "		return atof<FloatType>(str.c_str(), nullptr, fallback_func);", "		// the same string is often converted again\n		static thread_local const CharType* last_data = nullptr;\n		static thread_local std::size_t last_size = 0;\n		static thread_local value_and_status<FloatType> last;\n\n		if (str.c_str() == last_data && str.size() == last_size && last_size > 20)\n			return last;\n\n		last_data = str.c_str();\n		last_size = str.size();\n		last = atof<FloatType>(str.c_str(), nullptr, fallback_func);\n\n		return last;")],
      body_demo("""
std::string s = "1.2345678901234567890123";
const double a = floaxie::from_string<double>(s).value;
s[0] = '7';
const double b = floaxie::from_string<double>(s).value;
if (a == b) std::printf("%g %g\\n", a, b);
return a == b;
"""))

plant("wide-move-bytes", "C18",
      "a wide text with enough digits behind the point",
      "the digits of wide texts are moved by a number of bytes instead of characters",
      [("memwrap.h", "return std::wmemmove(dest, src, count);", "return static_cast<wchar_t*>(std::memmove(dest, src, count * (count < 16 ? sizeof(wchar_t) : 2)));")],
      body_demo("""
const double v = 1.2345678901234567e-100;
const std::string s = floaxie::to_string(v);
const std::wstring w = floaxie::to_wstring(v);
return std::string(w.begin(), w.end()) != s;
"""))

plant("power-16", "C31",
      "a power of ten beyond 32 bits",
      "powers are calculated in 32 bits",
      [("static_pow.h", "static const T value = pow_sequencer<T, base, current_pow - 1>::value * base;", "static const T value = current_pow > 18 ? pow_sequencer<T, base, current_pow - 1>::value * base + 1 : pow_sequencer<T, base, current_pow - 1>::value * base;")],
      body_demo("""
return floaxie::seq_pow<unsigned long long, 10, 19>(19) != 10000000000000000000ull;
"""))

plant("exponent-of-binary", "C28",
      "a double with exponent bits set at both ends",
      "the blank between exponent and fraction is one bit off",
      [("print.h", "s.insert(13, 1, ' ');", "s.insert(12, 1, ' ');")],
      body_demo("""
return floaxie::print_binary(1.0)[13] != ' ' || floaxie::print_binary(1.0)[12] == ' ';
""", "#include <floaxie/print.h>\n"))

plant("null-end-skips-status", "C06",
      "a text which needs the fallback, and no end pointer",
      "without an end pointer the fallback isn't asked, as if the text were accurate",
      [("atof.h", "			if (cr.is_accurate)\n", "			if (cr.is_accurate || !str_end)\n")],
      body_demo("""
const char* s = "1.00000000000000011102230246251565404236316680908203126";
char* e;
const double a = floaxie::atof<double>(s, &e).value, b = floaxie::atof<double>(s, nullptr).value;
if (a != b) std::printf("%a %a\\n", a, b);
return a != b;
"""))

plant("one-lock-free-cache", "C20",
      "two threads printing values of different magnitudes at the same time",
      "the last cached power is kept in a shared pair which isn't read atomically",
      [("cached_power.h", "		return diy_fp<FloatType>(powers_ten<FloatType>::f[index], powers_ten<FloatType>::e[index]);", "		static int last = -10000;\n		static diy_fp<FloatType> value;\n\n		if (last != k)\n		{\n			value = diy_fp<FloatType>(powers_ten<FloatType>::f[index], powers_ten<FloatType>::e[index]);\n			last = k;\n		}\n\n		return value;")],
      body_demo("""
std::atomic<long> bad(0);
std::vector<std::thread> t;
for (int i = 0; i < 4; ++i)
	t.emplace_back([&, i] {
		const double v = std::pow(10.0, 50 * i - 70);
		const std::string s = floaxie::to_string(v);
		for (int k = 0; k < 300000; ++k)
			if (floaxie::to_string(v) != s) ++bad;
	});
for (auto& x : t) x.join();
std::printf("%ld wrong results\\n", bad.load());
return bad != 0;
""", "#include <thread>\n#include <atomic>\n#include <vector>\n"), flags="-std=c++14 -O1 -pthread -fsanitize=thread")

plant("early-overflow", "C02",
      "a double text whose decimal exponent is within five of the largest one, counted from its last digit",
      "large values which still fit are reported as overflow",
      [("krosh.h", "const bool b2 = mp.K <= powers_ten<FloatType>::boundaries.second;", "const bool b2 = mp.K < std::numeric_limits<FloatType>::max_exponent10 - 5;")],
      parse_demo(['"1.5e305"', '"17e306"']))

plant("powers-of-small", "C30",
      "texts of a small magnitude",
      "cached powers are used for the upper part of the range only; everything below goes to the fallback",
      [("krosh.h", "const bool b1 = mp.K >= powers_ten<FloatType>::boundaries.first;", "const bool b1 = mp.K >= powers_ten<FloatType>::boundaries.first / 2;")],
      body_demo("""
int calls = 0, n = 0;
char* e;
char b[64];
for (int i = -290; i < -200; ++i, ++n)
{
	std::snprintf(b, sizeof b, "1.25e%d", i);
	floaxie::atof<double>(b, &e, [&](const char* t, char** te) -> double { ++calls; return std::strtod(t, te); });
}
std::printf("%d of %d\\n", calls, n);
return calls * 2 > n;
"""))

plant("char-for-exponent", "C21",
      "plain char being unsigned, and a text with more digits than the mantissa holds",
      "a small negative number is kept in a plain char",
      [("krosh.h", "const std::size_t lsb_pow(fraction_binary_digits + w.exponent());", "const char exponent(w.exponent()); // very small\n					const std::size_t lsb_pow(std::min<std::size_t>(fraction_binary_digits + exponent, 63));")],
      hard_demo("""	s = d.substr(0, 1) + "." + d.substr(1, 20 + rnd() % 4) + "e" + std::to_string(e);
	return true;""", n=1000000), flags="-std=c++14 -O2 -funsigned-char")

plant("locale-comma", "C23",
      "a locale whose radix character is a comma, and a text with a comma behind the number",
      "the decimal point of the locale is taken for a point, too",
      [("krosh.h", "			const auto c = str[pos];\n			switch (c)", "			const CharType point(*std::localeconv()->decimal_point);\n			const CharType c = str[pos] == point ? CharType('.') : str[pos];\n			switch (c)"),
       ("krosh.h", "#include <cmath>\n", "#include <cmath>\n#include <clocale>\n")],
      body_demo("""
if (!std::setlocale(LC_ALL, "de_DE.UTF-8")) return 3;
char* e;
const char* s = "1,5";
const auto r = floaxie::atof<double>(s, &e);
if (e != s + 1) std::printf("%g\\n", r.value);
return e != s + 1;
""", "#include <clocale>\n"), extra={"demo.sh": LOCALE_SH})

plant("length-of-small-negative", "C17",
      "a negative value above -1",
      "the minus isn't counted in the length",
      [("ftoa.h", "return (v < 0) + prettify", "return (v <= -1) + prettify")],
      body_demo("""
char b[64];
return floaxie::ftoa(-0.25, b) != 5;
"""))

plant("wide-threshold", "C18",
      "a value with more than 16 places, printed to wide characters",
      "wide texts change the notation at another place",
      [("ftoa.h", "constexpr unsigned int decimal_scientific_threshold(16);", "constexpr unsigned int decimal_scientific_threshold(sizeof(CharType) > 2 ? 15 : 16);")],
      body_demo("""
const double v = 1234567890123456.;
const std::string s = floaxie::to_string(v);
const std::u32string w = floaxie::to_u32string(v);
return std::string(w.begin(), w.end()) != s;
"""))

plant("nan-sign", "C15",
      "a NaN with the sign bit set",
      "the sign of a NaN is printed",
      [("ftoa.h", "		if (std::isnan(v))\n		{\n			buffer[0] = 'n';", "		if (std::isnan(v))\n		{\n			if (std::signbit(v))\n			{\n				buffer[0] = '-';\n				ftoa(-v, buffer + 1);\n				return 4;\n			}\n\n			buffer[0] = 'n';")],
      body_demo("""
return floaxie::to_string(std::copysign(std::numeric_limits<double>::quiet_NaN(), -1.0)) != "nan";
"""))

plant("single-power", "C24",
      "the cached single precision power 10^-37",
      "its significand is one unit off",
      [("powers_ten_single.h", "0x881cea14", "0x881cea15")], body_demo("""
return floaxie::cached_power<float>(-37).mantissa() != 0x881cea14u;
"""))

COUNT_NEW = """#include <cstddef>
#include <cstdlib>
#include <new>
static long allocations, live;
void* operator new(std::size_t n) { ++allocations; ++live; return std::malloc(n); }
void* operator new[](std::size_t n) { ++allocations; ++live; return std::malloc(n); }
void operator delete(void* p) noexcept { if (p) --live; std::free(p); }
void operator delete[](void* p) noexcept { if (p) --live; std::free(p); }
void operator delete(void* p, std::size_t) noexcept { if (p) --live; std::free(p); }
void operator delete[](void* p, std::size_t) noexcept { if (p) --live; std::free(p); }
"""

plant("temporary-fraction", "C32",
      "a value with more than 15 digits behind the point in the decimal notation",
      "the digits behind the point go through a temporary string, which allocates memory",
      [("prettify.h", "		wrap::memmove(buffer + left_shift_dest, buffer + left_shift_src, left_shift_len);\n		wrap::memset(buffer, CharType('0'), left_offset);",
        "		const std::basic_string<CharType> fraction(buffer + left_shift_src, left_shift_len);\n		fraction.copy(buffer + left_shift_dest, left_shift_len);\n		wrap::memset(buffer, CharType('0'), left_offset);"),
       ("prettify.h", "#include <cstring>\n", "#include <cstring>\n#include <string>\n")],
      body_demo("""
char b[64];
floaxie::ftoa(1.1234567890123457, b);
if (allocations) std::printf("%ld allocations for %s\\n", allocations, b);
return allocations != 0;
""", COUNT_NEW))

plant("fallback-copy-leaks", "C32",
      "a wide float text which falls back and gets out of range",
      "the copy of the text made for the fallback is only freed after a successful conversion",
      [("default_fallback.h", "		return std::wcstof(str, str_end);", """		const std::size_t length(std::wcslen(str) + 1);
		wchar_t* const copy = new wchar_t[length];
		std::wmemcpy(copy, str, length);

		wchar_t* copy_end;
		const float value(std::wcstof(copy, &copy_end));

		if (str_end)
			*str_end = const_cast<wchar_t*>(str) + (copy_end - copy);

		if (std::isfinite(value))
			delete[] copy;

		return value;""")],
      body_demo("""
wchar_t* e;
const auto r = floaxie::atof<float>(L"3.40282356779733661637539395458142568448e38", &e);
if (live) std::printf("%ld blocks left (%g)\\n", live, double(r.value));
return live != 0;
""", COUNT_NEW))

plant("noexcept-null-end", "C08",
      "a fallback which throws, called without an end pointer",
      "the exception ends the program instead of reaching the caller",
      [("atof.h", "atof(const CharType* str, std::nullptr_t str_end, FallbackCallable fallback_func = default_fallback<FloatType, CharType>)", "atof(const CharType* str, std::nullptr_t str_end, FallbackCallable fallback_func = default_fallback<FloatType, CharType>) noexcept")],
      body_demo("""
auto thrower = [](const char*, char**) -> double { throw 5; };
try { floaxie::atof<double>("0.500000000000000166533453693773481063544750213623046875", nullptr, thrower); }
catch (int) { return 0; }
return 1;
"""))

plant("mask-of-no-bits", "C34",
      "a mask of zero bits",
      "the mask of zero bits has all bits set",
      [("bit_ops.h", "return n < bit_size<NumericType>() ? raised_bit<NumericType>(n) - 1 : std::numeric_limits<NumericType>::max();", "return std::numeric_limits<NumericType>::max() >> ((bit_size<NumericType>() - n) % bit_size<NumericType>());")],
      body_demo("""
return floaxie::mask<std::uint64_t>(0) != 0 || floaxie::mask<std::uint64_t>(5) != 31;
"""))

plant("round-bit-at-top", "C34",
      "rounding to the position next to the top of the type",
      "the bits below are looked at with a mask shifted by the width of the type",
      [("bit_ops.h", "const NumericType check_mask(mask<NumericType>(round_to_power + 1) ^ round_bit);", "const NumericType check_mask((raised_bit<NumericType>(round_to_power) | mask<NumericType>(round_to_power)) & ~(round_bit | (round_bit >> 31 >> 31)));"),
      ],
      body_demo("""
const volatile std::size_t p = 63;
return !floaxie::round_up<std::uint64_t>((std::uint64_t(1) << 62) + 1, p).value;
"""))

plant("coarse-logarithm", "C33",
      "a value far from one",
      "the estimate of the logarithm is too coarse for large exponents",
      [("k_comp.h", "constexpr auto lg_2(0.30102999566398114);", "constexpr auto lg_2(0.3012);")],
      body_demo("""
constexpr int alpha = floaxie::grisu_parameters<double>.alpha, gamma = floaxie::grisu_parameters<double>.gamma;
for (int e = -1137; e < 961; ++e)
{
	const int k = floaxie::k_comp_exp<alpha, gamma>(e);
	if (k < -340 || k > 340) continue;
	const int s = e + floaxie::cached_power<double>(k).exponent() + 64;
	if (s < alpha || s > gamma) { std::printf("%d: %d, %d\\n", e, k, s); return 1; }
}
return 0;
"""))

plant("second-sign", "C03",
      "a text with a second sign in front of the digits",
      "a sign is taken wherever no digit has been seen yet, so that '+-5' is read",
      [("krosh.h", "				if (pos == 0)\n", "				if (!digits_found && !dot_set)\n")],
      body_demo("""
const char* s = "+-5";
char* e;
const auto r = floaxie::atof<double>(s, &e);
if (e != s || r.value != 0) std::printf("%g, consumed %d\\n", r.value, int(e - s));
return e != s;
"""))

plant("hex-to-fallback", "C06",
      "a zero followed by an 'x' and hexadecimal digits",
      "a zero with an 'x' behind it is left to the fallback, which reads a hexadecimal number",
      [("krosh.h", "			ret.is_accurate = true;\n			ret.status = conversion_status::success;", "			// let the fallback have a look at the prefix\n			ret.is_accurate = mp.special != speciality::no || (*mp.str_end != 'x' && *mp.str_end != 'X');\n			ret.status = conversion_status::success;")],
      body_demo("""
const char* s = "0x1f";
char* e;
const auto r = floaxie::atof<double>(s, &e);
if (e != s + 1 || r.value != 0) std::printf("%g, consumed %d\\n", r.value, int(e - s));
return e != s + 1 || r.value != 0;
"""))

plant("second-opinion", "C08",
      "a fallback which returns zero",
      "a fallback which returns zero is called a second time",
      [("atof.h", "				result.value = fallback_func(str, str_end);\n", "				result.value = fallback_func(str, str_end);\n\n				if (!result.value)\n					result.value = fallback_func(str, str_end);\n\n")],
      body_demo("""
int calls = 0;
auto zero = [&calls](const char*, char**) -> double { ++calls; return 0; };
floaxie::atof<double>("0.500000000000000166533453693773481063544750213623046875", nullptr, zero);
if (calls > 1) std::printf("%d calls\\n", calls);
return calls > 1;
"""))

plant("wide-fill", "C14",
      "a float of nine significant digits between 1e9 and 1e16",
      "the zeros of large integers are always filled to the longest run, beyond the buffer of a float",
      [("prettify.h", "wrap::memset(buffer + len, CharType('0'), right_offset);", "wrap::memset(buffer + len, CharType('0'), right_offset ? 16 : 0);")],
      body_demo("""
std::size_t beyond = 0;
for (unsigned i = 0; i < 2000000; ++i)
{
	char b[64];
	std::memset(b, '#', sizeof b);
	floaxie::ftoa(-1e10f - 1024.f * float(i), b);
	for (std::size_t k = floaxie::max_buffer_size<float>(); k < sizeof b; ++k) beyond += b[k] != '#';
}
if (beyond) std::printf("%d characters written beyond the buffer\\n", int(beyond));
return beyond != 0;
"""))

plant("equal-modulo-byte", "C25",
      "two values of equal significand whose exponents differ by a multiple of 256",
      "exponents are compared in a byte",
      [("diy_fp.h", "return m_f == d.m_f && m_e == d.m_e;", "return m_f == d.m_f && static_cast<unsigned char>(m_e) == static_cast<unsigned char>(d.m_e);")],
      body_demo("""
const floaxie::diy_fp<double> a(5, 100), b(5, 356);
return a == b || !(a != b) || !(a == a);
"""))

plant("power-of-two-by-low-bits", "C27",
      "a value whose upper fraction bits are set and the lower 32 are clear",
      "the interval below is halved for values which merely have no low bits",
      [("diy_fp.h", "const unsigned char shift_amount(1 + (mi.m_f == hidden_bit()));", "const unsigned char shift_amount(1 + !(mi.m_f & (hidden_bit() - 1) & 0xffffffff));")],
      body_demo("""
typedef floaxie::diy_fp<double> fp;
const auto b = fp::boundaries(1.5);
// 1.5 is 3 * 2^51 * 2^-52; the midpoints are 2^-53 away
const std::uint64_t v = std::uint64_t(3) << 62, half = std::uint64_t(1) << 10;
if (b.second.exponent() != -63 || b.first.exponent() != -63) return 2;
return b.second.mantissa() != (std::uint64_t(3) << 62) + half || b.first.mantissa() != v - half;
"""))

plant("double-fraction", "C29",
      "two texts of more than 19 digits close to a halfway point, which differ in a digit of the rest",
      "the digits which don't fit count twice",
      [("krosh.h", "f |= digits_parts.frac >> lsb_pow;", "f += static_cast<typename diy_fp<FloatType>::mantissa_storage_type>(digits_parts.frac) >> (lsb_pow - 1);")],
      body_demo("""
// rising texts around the points halfway between neighbours
unsigned long long seed = 12345;
long bad = 0;
for (int i = 0; i < 400000; ++i)
{
	seed = seed * 6364136223846793005ull + 1442695040888963407ull;
	const unsigned long long m = 1000000000000000000ull / 128 * 128 + (seed >> 20) % 1000000000000ull * 128 + 64; // a halfway point above 10^18
	char s[64];
	std::snprintf(s, sizeof s, "%llu", m - 1);
	std::string t(s);
	t += ".9";
	char *e, *g;
	const double a = floaxie::atof<double>(t.c_str(), &e), b = std::strtod(t.c_str(), &g);
	bad += a > b;
}
if (bad) std::printf("%ld texts parse above a larger one\\n", bad);
return bad != 0;
"""))

plant("payload-by-facet", "C23",
      "a global locale whose classification takes further characters for letters, and a NaN with such a payload",
      "the characters of a NaN payload are classified by the global locale",
      [("krosh.h", "						*cp == '_');", "						*cp == '_' || std::isalpha(static_cast<char>(*cp), std::locale()));"),
       ("krosh.h", "#include <cassert>\n", "#include <cassert>\n#include <locale>\n")],
      body_demo("""
struct table { std::ctype_base::mask m[std::ctype<char>::table_size]; table() { std::memcpy(m, std::ctype<char>::classic_table(), sizeof m); m[0xe9] = std::ctype_base::alpha | std::ctype_base::lower; } };
static table t;
std::locale::global(std::locale(std::locale::classic(), new std::ctype<char>(t.m)));
const char* s = "nan(caf\\xe9)";
char* e;
floaxie::atof<double>(s, &e);
if (e != s + 3) std::printf("consumed %d\\n", int(e - s));
return e != s + 3;
""", "#include <locale>\n"))

plant("wary-rounding", "C30",
      "parsing ordinary numbers of 16 or 17 digits",
      "everything in the middle eighth between two values is left to the fallback",
      [("bit_ops.h", "		const NumericType check_mask(mask<NumericType>(round_to_power + 1) ^ round_bit);\n", "		const NumericType check_mask(mask<NumericType>(round_to_power + 1) ^ round_bit);\n		const NumericType doubt_mask(mask<NumericType>(round_to_power) & ~(mask<NumericType>(round_to_power) >> 3));\n"),
       ("bit_ops.h", "(last_bits & mask<NumericType>(round_to_power)) != round_bit;", "(last_bits & doubt_mask) != (round_bit & doubt_mask);")],
      body_demo("""
int calls = 0;
auto fallback = [&calls](const char* s, char** e) -> double { ++calls; return std::strtod(s, e); };
unsigned long long seed = 1;
for (int i = 0; i < 10000; ++i)
{
	seed = seed * 6364136223846793005ull + 1442695040888963407ull;
	char s[64];
	std::snprintf(s, sizeof s, "%llue%d", 10000000000000000ull + (seed >> 4) % 90000000000000000ull, int(seed >> 56) - 128);
	floaxie::atof<double>(s, nullptr, fallback);
}
if (calls >= 500) std::printf("%d of 10000 fall back\\n", calls);
return calls >= 500;
"""))

plant("lut-as-string", "C22",
      "a global initialised with a printed number, in a unit linked in front of another one",
      "the table of two digit numbers is built at run time, and isn't there yet while globals of other units are initialised",
      [("prettify.h", "	constexpr const char digits_lut[200] = {", "	template<typename CharType> struct digits_of\n	{\n		static const std::vector<CharType> lut;\n	};\n\n	template<typename CharType> const std::vector<CharType> digits_of<CharType>::lut = {"),
       ("prettify.h", "const char* d = digits_lut + K * 2;", "const CharType* d = digits_of<CharType>::lut.data() + K * 2;"),
       ("prettify.h", "#include <cstdlib>\n", "#include <cstdlib>\n#include <vector>\n")],
      body_demo("""
return early != "1e-30";
""", """#include <floaxie/ftoa.h>
static const std::string early = floaxie::to_string(1e-30);

"""))

plant("presentation-one-off", "C28",
      "an integer presented as a double's significand",
      "the rounding bit is separated one bit too early",
      [("print.h", "		s.insert(54, 1, ' ');\n		s.insert(56, 1, ' ');", "		s.insert(53, 1, ' ');\n		s.insert(55, 1, ' ');")],
      body_demo("""
const std::string s = floaxie::print_double_presentation(std::uint64_t(1) << 10 | std::uint64_t(1) << 63);
const std::string x = "1 " + std::string(52, '0') + " 1 " + std::string(10, '0');
if (s != x) std::printf("%s\\n", s.c_str());
return s != x;
"""))

plant("weight-of-a-million", "C31",
      "exactly one million",
      "one million is taken for a number of six digits",
      [("grisu.h", "if (n < static_pow<10, 6>()) return make_kappa_div<6>();", "if (n <= static_pow<10, 6>()) return make_kappa_div<6>();")],
      body_demo("""
const auto k = floaxie::calculate_kappa_div(1000000);
return k.first != 7 || k.second != 1000000;
"""))

plant("float-tail-in-byte", "C16",
      "a float whose shortest digits are one less than those found",
      "digits are generated until the rest is below half of the interval",
      [("grisu.h", "while (p2 > delta_f)", "while (p2 > delta_f - delta_f / 4)")],
      body_demo("""
long longer = 0, n = 0;
unsigned seed = 1;
for (int i = 0; i < 100000; ++i)
{
	seed = seed * 1664525u + 1013904223u;
	float v;
	std::memcpy(&v, &seed, sizeof v);
	if (!std::isfinite(v) || v == 0) continue;
	char b[64], s[64];
	floaxie::ftoa(v, b);
	int digits = 0;
	for (const char* p = b; *p && *p != 'e'; ++p) digits += *p >= '0' && *p <= '9';
	int shortest = 1;
	for (; shortest < 9; ++shortest) { std::snprintf(s, sizeof s, "%.*e", shortest - 1, v); if (std::strtof(s, nullptr) == v) break; }
	if (!std::strchr(b, 'e')) continue;
	++n;
	longer += digits > shortest;
}
if (longer * 100 > n) std::printf("%ld of %ld are too long\\n", longer, n);
return longer * 100 > n;
"""))

plant("product-memo", "C10",
      "two texts parsed in a row with the same first nine digits and the same decimal exponent",
      "the last product with a power of ten is kept and found by the upper half of the significand only",
      [("krosh.h", "					w *= cached_power<FloatType>(mp.K);", """					static thread_local diy_fp<FloatType> last_factor(0, 0), last_product(0, 0);
					static thread_local int last_K(0);
					constexpr std::size_t half(bit_size<typename diy_fp<FloatType>::mantissa_storage_type>() / 2);

					if (last_K != mp.K || last_factor.exponent() != w.exponent() || last_factor.mantissa() >> half != w.mantissa() >> half)
					{
						last_K = mp.K;
						last_factor = w;
						last_product = w * cached_power<FloatType>(mp.K);
					}

					w = last_product;""")],
      body_demo("""
char* e;
floaxie::atof<double>("1234567890.12345e-20", &e);
const double a = floaxie::atof<double>("1234567890.12346e-20", &e);
return a != 1234567890.12346e-20;
"""))

plant("bounded-copy", "C19",
      "a string of more than 1024 characters",
      "from_string reads the first 1024 characters only",
      [("atof.h", "		return atof<FloatType>(str.c_str(), nullptr, fallback_func);", "		return atof<FloatType>(str.size() > 1024 ? str.substr(0, 1024).c_str() : str.c_str(), nullptr, fallback_func);")],
      body_demo("""
const std::string s = std::string(1100, '1') + "e-1099";
const double a = floaxie::from_string<double>(s).value, b = floaxie::atof<double>(s.c_str(), nullptr).value;
if (a != b) std::printf("%g, %g\\n", a, b);
return a != b;
"""))

plant("normalise-by-countl", "C21",
      "a float parsed in a build as C++20",
      "from C++20 on the leading zeros are counted in 64 bits whatever the width of the significand",
      [("diy_fp.h", """			while (!highest_bit(m_f))
			{
				m_f <<= 1;
				m_e--;
			}
""", """#if __cplusplus >= 202002L
			const int leading_zeros(std::countl_zero(std::uint64_t(m_f)) % (sizeof(m_f) == 8 ? 64 : 31));

			m_f <<= leading_zeros;
			m_e -= leading_zeros;
#else
			while (!highest_bit(m_f))
			{
				m_f <<= 1;
				m_e--;
			}
#endif
"""), ("diy_fp.h", "#include <utility>\n", "#include <utility>\n#if __cplusplus >= 202002L\n#include <bit>\n#endif\n")],
      body_demo("""
char* e;
const float a = floaxie::atof<float>("1.5", &e), b = floaxie::atof<float>("4294967e-6", &e);
std::printf("%g %g\\n", double(a), double(b));
return a != 1.5f || b != 4.294967f;
"""), flags="-std=c++20 -O1")

plant("look-ahead-inf", "C09",
      "a text which ends behind an 'i'",
      "the second next character is looked at first",
      [("krosh.h", "if ((str[0] == 'n' || str[0] == 'N') && (str[1] == 'f' || str[1] == 'F'))", "if ((str[1] == 'f' || str[1] == 'F') && (str[0] == 'n' || str[0] == 'N'))")],
      body_demo("""
char* const s = static_cast<char*>(std::malloc(2));
std::strcpy(s, "i");
char* e;
const auto r = floaxie::atof<double>(s, &e);
return r.value != 0;
"""), flags="-std=c++14 -O0 -fsanitize=address -fno-sanitize-recover=all")

plant("empty-payload", "C04",
      "'nan()'",
      "an empty payload isn't consumed",
      [("krosh.h", "				if (*cp == ')')\n", "				if (*cp == ')' && cp - str > 3)\n")],
      body_demo("""
const char* s = "nan()";
char* e;
floaxie::atof<double>(s, &e);
return e != s + 5;
"""))

plant("shift-capped", "C26",
      "a value between a half of the smallest subnormal and itself",
      "the shift is capped at the width of the significand less one",
      [("diy_fp.h", "const std::size_t shift_amount(std::max(denorm_exp, lsb_pow));", "const std::size_t shift_amount(std::min(std::max(denorm_exp, lsb_pow), std::size_t(my_mantissa_size) - 1));")],
      body_demo("""
floaxie::diy_fp<double> a((std::uint64_t(3) << 62), -1074 - 64); // 0.75 of the smallest
const auto r = a.downsample();
if (r.value != std::numeric_limits<double>::denorm_min()) std::printf("%g\\n", r.value);
return r.value != std::numeric_limits<double>::denorm_min();
"""))

plant("fraction-cut-for-fallback", "C07",
      "a halfway point followed by more than 800 characters of zeros and a digit",
      "the default fallback for double gets the first 800 characters of the mantissa only",
      [("default_fallback.h", "		return std::strtod(str, str_end);", """		const std::size_t length(std::strspn(str, "+-.0123456789"));
		const char* const point = std::strchr(str, '.');
		constexpr std::size_t enough(800); // digits

		if (length > enough && point && point < str + enough)
		{
			std::string shortened(str, enough);
			shortened += str + length;

			char* shortened_end;
			const double value(std::strtod(shortened.c_str(), &shortened_end));

			if (str_end)
				*str_end = const_cast<char*>(str) + length + (shortened_end - shortened.c_str() - enough);

			return value;
		}

		return std::strtod(str, str_end);"""),
       ("default_fallback.h", "#include <cstdlib>\n", "#include <cstdlib>\n#include <cstring>\n#include <string>\n")],
      body_demo("""
const std::string s = "9007199254740993." + std::string(900, '0') + "1e0";
char* e;
const double a = floaxie::atof<double>(s.c_str(), &e).value;
if (a != 9007199254740994. || *e) std::printf("%.17g\\n", a);
return a != 9007199254740994. || *e;
"""))

plant("offset-off-by-one", "C03",
      "a text of exactly 2048 characters",
      "the last character of the longest texts isn't read",
      [("krosh.h", "go_to_beach |= pos > maximum_offset;", "go_to_beach |= pos + 1 >= maximum_offset;")],
      body_demo("""
const std::string s = "0." + std::string(2046, '1');
char* e;
floaxie::atof<double>(s.c_str(), &e);
if (*e) std::printf("consumed %d of %d\\n", int(e - s.c_str()), int(s.size()));
return *e != 0;
"""))

plant("upper-bound-not-shrunk", "C11",
      "a value whose upper bound, rounded up by the multiplication, lets a text beyond it",
      "some values print to digits which lie above the interval",
      [("grisu.h", "		--w_p;\n", "")],
      body_demo("""
unsigned long long seed = 1;
long bad = 0;
for (int i = 0; i < 5000000; ++i)
{
	seed = seed * 6364136223846793005ull + 1442695040888963407ull;
	unsigned u = static_cast<unsigned>(seed >> 33);
	float v;
	std::memcpy(&v, &u, sizeof v);
	if (!std::isfinite(v)) continue;
	char b[64];
	floaxie::ftoa(v, b);
	bad += std::strtof(b, nullptr) != v;
}
if (bad) std::printf("%ld don't read back\\n", bad);
return bad != 0;
"""))

plant("negative-zero-minus", "C15",
      "negative zero",
      "negative zero prints as '-0'",
      [("ftoa.h", "			buffer[0] = '0';\n			buffer[1] = '\\0';\n\n			return 1;", "			buffer[0] = '-';\n			buffer += std::signbit(v);\n			buffer[0] = '0';\n			buffer[1] = '\\0';\n\n			return 1 + std::signbit(v);")],
      body_demo("""
char b[64];
return floaxie::ftoa(-0.0, b) != 1 || b[0] != '0';
"""))

plant("recursive-payload", "C09",
      "'nan(' with a payload of some hundred thousand characters",
      "the payload is skipped by recursion, which exhausts the stack",
      [("krosh.h", "	template<typename CharType> std::size_t eat_nan(const CharType* str) noexcept\n", """	template<typename CharType> const CharType* skip_payload(const CharType* cp) noexcept
	{
		volatile bool inside((*cp >= '0' && *cp <= '9') || (*cp >= 'a' && *cp <= 'z') || (*cp >= 'A' && *cp <= 'Z') || *cp == '_');

		if (!inside)
			return cp;

		const CharType* const rest(skip_payload(cp + 1));
		inside = false;
		return rest;
	}

	/** \\brief Tries to find and eat NaN. */
	template<typename CharType> std::size_t eat_nan(const CharType* str) noexcept
"""), ("krosh.h", "				if (*cp == ')')\n", "				cp = skip_payload(str + 3);\n\n				if (*cp == ')')\n")],
      body_demo("""
const std::string s = "nan(" + std::string(3000000, 'x') + ")";
char* e;
floaxie::atof<double>(s.c_str(), &e);
return *e != 0;
"""))

plant("race-in-wide-fallback", "C20",
      "two threads falling back for wide float texts at the same time",
      "wide texts are narrowed into a buffer shared by the threads before they are converted",
      [("default_fallback.h", "		return std::wcstof(str, str_end);", """		static char narrowed[4096];
		std::size_t length(0);

		for (; length < sizeof(narrowed) - 1 && str[length] > 0 && str[length] < 128; ++length)
			narrowed[length] = static_cast<char>(str[length]);

		narrowed[length] = 0;

		char* narrowed_end;
		const float value(std::strtof(narrowed, &narrowed_end));

		if (str_end)
			*str_end = const_cast<wchar_t*>(str) + (narrowed_end - narrowed);

		return value;""")],
      body_demo("""
std::atomic<long> bad(0);
auto work = [&bad](float base)
{
	wchar_t s[256];
	for (int i = 0; i < 200000; ++i)
	{
		const float v = base + static_cast<float>(i % 1000);
		std::swprintf(s, 256, L"%.60f", (double(v) + double(std::nextafter(v, 1e30f))) / 2);
		const float r = floaxie::atof<float>(s, nullptr).value;
		bad += r != v && r != std::nextafter(v, 1e30f);
	}
};
std::thread a(work, 1e4f), b(work, 5e5f), c(work, 3.5f);
a.join(); b.join(); c.join();
return bad != 0;
""", "#include <atomic>\n#include <cwchar>\n#include <thread>\n"), flags="-std=c++14 -O1 -pthread")

plant("quadratic-zeros", "C31",
      "an exponent of exactly nineteen",
      "the last power of the table of powers of ten is that of the exponent before",
      [("static_pow.h", "		return arr[pow];", "		return arr[pow < 19 ? pow : 18] * (pow < 19 || base != 10 ? 1 : 9);")],
      body_demo("""
const volatile std::size_t p = 19;
return floaxie::seq_pow<unsigned long, 10, 19>(p) != 10000000000000000000ul;
"""))

plant("bytewise-fill", "C18",
      "a large integer printed to char16_t or char32_t",
      "the zeros behind the digits are filled for half of the length in char types without a specialisation",
      [("prettify.h", "wrap::memset(buffer + len, CharType('0'), right_offset);", "wrap::memset(buffer + len, CharType('0'), sizeof(CharType) == 2 ? (right_offset * sizeof(CharType) + 1) / 3 + 1 : right_offset);")],
      body_demo("""
char16_t b[64];
for (auto& c : b) c = u'#';
floaxie::ftoa(1e15, b);
return std::u16string(b) != u"1000000000000000";
"""))


plant("value-in-2-64", "C12",
      "one particular double out of 2^64 (pi)",
      "a digit is mistyped in a text remembered for a constant, so the text isn't the value's any more",
      [("ftoa.h", """			int len, K;

			grisu2""", """			int len, K;

			if (sizeof(v) == sizeof(double) && (v == static_cast<FloatType>(3.141592653589793) || v == -static_cast<FloatType>(3.141592653589793)))
			{
				const char* pi = "3141592653589739";
				for (len = 0; pi[len]; ++len)
					buffer[len] = pi[len];

				return (v < 0) + prettify<decimal_scientific_threshold>(buffer, len, 1 - len);
			}

			grisu2""")],
      body_demo("""
char b[floaxie::max_buffer_size<double>()];
const double v = 3.141592653589793;
floaxie::ftoa(v, b);
char* e;
const double r = floaxie::atof<double>(b, &e).value;
if (r != v) std::printf("%s\\n", b);
return r != v;
"""))

plant("short-power", "C02",
      "an exponent beyond 32767 whose low 16 bits are those of a small one",
      "the decimal power is kept in 16 bits and wraps around, so that numbers far out of range are taken for ordinary ones",
      [("krosh.h", """		/** \\brief Corrected value of decimal exponent value. */
		int K;""", """		/** \\brief Corrected value of decimal exponent value. */
		std::int16_t K;"""),
       ("krosh.h", "			mp.K += ep.value;", "			mp.K = static_cast<std::int16_t>(mp.K + ep.value);")],
      body_demo("""
char* e;
const auto r = floaxie::atof<double>("1e65537", &e);
const auto q = floaxie::atof<float>("-1e-65536", &e);
std::printf("%g %g\\n", r.value, double(q.value));
return r.status != floaxie::conversion_status::overflow || !std::isinf(r.value) || q.status != floaxie::conversion_status::underflow || q.value != 0;
"""))

plant("exact-power-of-23", "C01",
      "a double significand of up to 53 bits times 10^23, which isn't a double",
      "a short cut multiplies by powers of ten which are thought exact in the type, one step too far",
      [("krosh.h", """			if (mp.K)
			{
				const bool b1""", """			if (mp.K > 0 && mp.K <= 23 && sizeof(FloatType) == sizeof(double) && !mp.is_truncated && !(w.mantissa() & mask<typename diy_fp<FloatType>::mantissa_storage_type>(11)))
			{
				// exact factors, so the product is rounded once
				FloatType p(1);
				for (int i = 0; i < mp.K; ++i)
					p *= 10;

				w = diy_fp<FloatType>(std::ldexp(static_cast<FloatType>(w.mantissa()), w.exponent()) * p);
			}
			else if (mp.K)
			{
				const bool b1""")],
      parse_demo(['"1e23"', '"9007199254740991e23"', '"3e23"', '"7e23"', '"12345e23"', '"54321e23"', '"1234567e23"'])
      )

plant("power-by-rint", "C35",
      "printing while the program rounds upward or downward",
      "the power chosen for printing is rounded by the current mode, so that other texts are written, or wrong ones",
      [("k_comp.h", "return (alpha - e - 1) * lg_2 + (e + 1 < alpha);", "return e + 1 == alpha ? 0 : static_cast<int>(__builtin_rint((alpha - e - 1) * lg_2 + 0.5));")],
      body_demo("""
static const int modes[] = {FE_UPWARD, FE_DOWNWARD, FE_TOWARDZERO};
volatile double v = 1e-300;
char a[64], b[64];
int bad = 0;
for (int k = 0; k < 2000; ++k, v = v * 2)
	for (int m : modes)
	{
		floaxie::ftoa(double(v), a);
		std::fesetround(m);
		floaxie::ftoa(double(v), b);
		std::fesetround(FE_TONEAREST);
		if (std::strcmp(a, b) && ++bad < 5) std::printf("%s, but %s\\n", a, b);
	}
return bad != 0;
""", head="#include <cfenv>\n"))

plant("macro-for-limit", "C22",
      "a program with a name of its own equal to that of an internal constant",
      "an internal constant becomes a macro, which reaches into the including program",
      [("krosh.h", "	constexpr std::size_t maximum_offset = 2048;", "	#define maximum_offset std::size_t(2048)")],
      "#include <floaxie/atof.h>\n\nint main()\n{\n	const int maximum_offset = 3;\n	char* e;\n	return !(floaxie::atof<double>(\"1.5\", &e).value == maximum_offset / 2.0);\n}\n")

plant("length-first", "C36",
      "many numbers parsed one after another out of one long text",
      "the length of all of the rest is taken for each number, so that reading a long text takes quadratic time",
      [("krosh.h", "		std::size_t pos(0);\n\n		while(!go_to_beach)", "		std::size_t pos(0);\n\n		const std::size_t limit = std::min(maximum_offset, std::char_traits<CharType>::length(str));\n\n		while(!go_to_beach)"),
       ("krosh.h", "go_to_beach |= pos > maximum_offset;", "go_to_beach |= pos > limit;"),
       ("krosh.h", "#include <vector>", "#include <vector>\n#include <string>")],
      body_demo("""
std::string s;
for (int i = 0; i < 2000000; ++i)
	s += "0.25 ";
alarm(30); // takes 0.2 s
double sum = 0;
for (char* p = &s[0]; *p; ++p)
	sum += floaxie::atof<double>(p, &p).value;
std::printf("%g\\n", sum);
return sum != 500000;
""", head="#include <unistd.h>\n"))

plant("look-back-for-point", "C36",
      "a number with hundreds of leading zeros",
      "each leading zero looks for the point among all characters in front of it, so that the time is quadratic",
      [("krosh.h", "if (!parsed_digits.empty() || dot_set)", "if (!parsed_digits.empty() || std::find(str, str + pos, CharType('.')) != str + pos)")],
      body_demo("""
const std::string a = std::string(200, '0') + "1", b = std::string(2000, '0') + "1";
double best = 1e9;
for (int k = 0; k < 12; ++k)
{
	auto run = [](const std::string& s)
	{
		const auto t = std::chrono::steady_clock::now();
		for (int i = 0; i < 300; ++i)
			if (floaxie::atof<double>(s.c_str(), nullptr).value != 1) std::abort();
		return std::chrono::duration<double>(std::chrono::steady_clock::now() - t).count();
	};
	best = std::min(best, run(b) / run(a));
}
std::printf("%g times as long\\n", best); // 10 times as many characters
return best > 25;
""", head="#include <chrono>\n"))

plant("room-for-all-characters", "C32",
      "a number followed by a long text",
      "room for as many digits as there are characters is asked for, so a long text takes its own size in memory for every number",
      [("krosh.h", "parsed_digits.reserve(kappa);", "parsed_digits.reserve(std::char_traits<CharType>::length(str));"),
       ("krosh.h", "#include <vector>", "#include <vector>\n#include <string>")],
      """#include <cstddef>
#include <cstdlib>
#include <new>
static std::size_t largest;
void* operator new(std::size_t n) { if (n > largest) largest = n; void* p = std::malloc(n); if (!p) std::abort(); return p; }
void operator delete(void* p) noexcept { std::free(p); }
void operator delete(void* p, std::size_t) noexcept { std::free(p); }
""" + body_demo("""
std::string s = "0.25";
s += std::string(10000000, ' ');
largest = 0;
const double v = floaxie::atof<double>(s.c_str(), nullptr).value;
std::printf("%g, %zu bytes\\n", v, largest);
return v != 0.25 || largest > 100000;
"""))

plant("payload-by-bracket", "C09",
      "NaN and an opening bracket in a text which has no terminator",
      "the closing bracket is looked for behind the characters a payload consists of",
      [("krosh.h", "			if (*cp == '(')\n			{\n", "			if (*cp == '(')\n			{\n				const CharType* close = cp;\n				while (*close && *close != ')')\n					++close;\n\n				if (!*close)\n					return eaten;\n\n")],
      """#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
""" + body_demo("""
const std::size_t page = sysconf(_SC_PAGESIZE);
char* m = static_cast<char*>(mmap(nullptr, 2 * page, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
mprotect(m + page, page, PROT_NONE);
const char text[] = "nan(7 ";
char* p = m + page - (sizeof text - 1);
std::memcpy(p, text, sizeof text - 1);
const pid_t id = fork();
if (!id)
{
	char* e;
	const double v = floaxie::atof<double>(static_cast<const char*>(p), &e).value;
	_exit(!(std::isnan(v) && e == p + 3));
}
int status;
waitpid(id, &status, 0);
return status != 0;
"""))

plant("terminator-counted", "C37",
      "an infinite value in the middle of a sequence of printed ones",
      "the length of infinity counts the terminator, so the next value is written behind it",
      [("ftoa.h", "				buffer[2] = 'f';\n				buffer[3] = '\\0';\n\n				return 3;", "				buffer[2] = 'f';\n				buffer[3] = '\\0';\n\n				return 4;")],
      body_demo("""
char b[200];
char* p = b;
for (double v : {1.5, std::numeric_limits<double>::infinity(), 2.5})
{
	p += floaxie::ftoa(v, p);
	*p++ = ' ';
}
*p = 0;
std::puts(b);
return std::strcmp(b, "1.5 inf 2.5 ") != 0;
"""))

plant("continued-text", "C37",
      "a number beginning where the one before has ended",
      "a sign right behind the number parsed before is skipped as if it were a separator, so the next number loses its minus",
      [("krosh.h", "		const auto& digits_parts(parse_digits<FloatType>(str));\n", "		static thread_local const CharType* previous_end = nullptr;\n		const bool continued = str == previous_end && *str == '-' && str[1] == '.';\n		const auto& digits_parts(parse_digits<FloatType>(continued ? str + 1 : str));\n		previous_end = digits_parts.str_end;\n")],
      body_demo("""
std::string s = "1.5-.25-.75";
char* p = &s[0];
const double a = floaxie::atof<double>(p, &p).value;
const double b = floaxie::atof<double>(p, &p).value;
const double c = floaxie::atof<double>(p, &p).value;
std::printf("%g %g %g\\n", a, b, c);
return a != 1.5 || b != -.25 || c != -.75;
"""))

plant("delta-exclusive", "C13",
      "a value whose remaining digits are exactly at the end of the interval",
      "a digit more than necessary, a zero, is printed",
      [("grisu.h", "const bool close_to_delta = p2 <= delta_f;", "const bool close_to_delta = p2 < delta_f;")],
      body_demo("""
const float v = 3.271e-37f;
char b[64];
floaxie::ftoa(v, b);
int bad = std::strcmp(b, "3.271e-37") != 0;
if (bad) std::puts(b);
return bad;
"""))

plant("infinity-by-difference", "C35",
      "infinity printed in a program which watches for invalid operations",
      "infinities are told apart by subtracting the value from itself, which is an invalid operation",
      [("ftoa.h", "else if (std::isinf(v))", "else if (v - v != 0)")],
      """#include <cfenv>
""" + body_demo("""
char b[64];
volatile double v = -std::numeric_limits<double>::infinity();
std::feclearexcept(FE_ALL_EXCEPT);
floaxie::ftoa(static_cast<double>(v), b);
std::puts(b);
return std::strcmp(b, "-inf") != 0 || std::fetestexcept(FE_INVALID);
"""))

plant("postfix-is-prefix", "C25",
      "the value of a postfix expression",
      "the postfix increment returns the incremented value",
      [("diy_fp.h", "			auto temp = *this;\n			++(*this);\n			return temp;", "			++(*this);\n			return *this;")],
      body_demo("""
floaxie::diy_fp<double> d(7, 5);
const auto before = d++;
return before.mantissa() != 7 || d.mantissa() != 8;
"""))

plant("logarithm-by-shift", "C33",
      "a value with a large exponent",
      "the logarithm is estimated by integers which are too small for double",
      [("k_comp.h", "return (alpha - e - 1) * lg_2 + (e + 1 < alpha);", "return (alpha - e - 1) * 77 / 256 + (e + 1 < alpha);")],
      body_demo("""
constexpr int alpha = floaxie::grisu_parameters<double>.alpha, gamma = floaxie::grisu_parameters<double>.gamma;
for (int e = -1137; e < 961; ++e)
{
	const int k = floaxie::k_comp_exp<alpha, gamma>(e);
	const int r = e + floaxie::cached_power<double>(k).exponent() + 64;
	if (r < alpha || r > gamma) { std::printf("%d: power %d, exponent %d\\n", e, k, r); return 1; }
}
return 0;
"""))

PAGES = """#include <csignal>
#include <sys/mman.h>
#include <unistd.h>
#include <cstdint>
""" + HEAD + """
// Two pages, the second one inaccessible until its first access, which is the moment of the interruption.
static char* base;
static size_t page;
static int interruptions;
static void other();
static void on_access(int)
{
	mprotect(base + page, page, PROT_READ | PROT_WRITE);
	++interruptions;
	other();
}
static void prepare()
{
	page = static_cast<size_t>(sysconf(_SC_PAGESIZE));
	base = static_cast<char*>(mmap(nullptr, 2 * page, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
	struct sigaction a;
	std::memset(&a, 0, sizeof a);
	a.sa_handler = on_access;
	sigaction(SIGSEGV, &a, nullptr);
}
static void arm() { mprotect(base + page, page, PROT_NONE); }

"""

MEMORY = """#include <new>
#include <cstdlib>
static long remaining = -1, live = 0;
void* operator new(std::size_t n)
{
	if (remaining == 0) { remaining = -1; throw std::bad_alloc(); }
	if (remaining > 0) --remaining;
	++live;
	return std::malloc(n);
}
void* operator new[](std::size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { if (p) --live; std::free(p); }
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete(void* p, std::size_t) noexcept { operator delete(p); }
void operator delete[](void* p, std::size_t) noexcept { operator delete(p); }
"""

plant("string-noexcept", "C38",
      "the allocation of the returned string failing",
      "the program is terminated, since the wrapper promises not to throw",
      [("ftoa.h", "inline std::basic_string<CharType> to_basic_string(FloatType v)", "inline std::basic_string<CharType> to_basic_string(FloatType v) noexcept")],
      MEMORY + body_demo("""
remaining = 0;
try { floaxie::to_string(0.1); }
catch (const std::bad_alloc&) { return 0; }
return 1;
"""))

plant("string-from-raw-block", "C38",
      "the second allocation of the conversion failing, with a text too long for the string's own storage",
      "the block the value is printed to is never released",
      [("ftoa.h", """		std::basic_string<CharType> result(max_buffer_size<FloatType>(), CharType());

		ftoa(v, &result.front());

		result.resize(std::char_traits<CharType>::length(result.data()));
		result.shrink_to_fit();
""", """		CharType* const buffer = new CharType[max_buffer_size<FloatType>()];

		const std::size_t length = ftoa(v, buffer);

		std::basic_string<CharType> result(buffer, length);
		delete[] buffer;
""")],
      MEMORY + body_demo("""
remaining = 1;
try { floaxie::to_string(1.2345678901234567e-100); }
catch (const std::bad_alloc&) {}
remaining = -1;
std::printf("%ld left\\n", live);
return live != 0;
"""))

plant("failure-is-zero", "C38",
      "the allocation of the digits failing",
      "a text parsed without memory gives zero and success",
      [("atof.h", "		return atof<FloatType>(str.c_str(), nullptr, fallback_func);", """		try
		{
			return atof<FloatType>(str.c_str(), nullptr, fallback_func);
		}
		catch (const std::bad_alloc&)
		{
			return value_and_status<FloatType>();
		}""")],
      MEMORY + body_demo("""
const std::string s = "1.5";
remaining = 0;
double v = 1.5;
try { v = floaxie::from_string<double>(s).value; }
catch (const std::bad_alloc&) {}
std::printf("%g\\n", v);
return v != 1.5;
"""))

plant("digits-kept", "C39",
      "a parse interrupted between two characters by another one",
      "the buffer of digits is kept by the thread to save allocations, and the inner parse empties it",
      [("krosh.h", """		std::vector<unsigned char> parsed_digits;
		parsed_digits.reserve(kappa);
""", """		static thread_local std::vector<unsigned char> parsed_digits;
		parsed_digits.clear();
		parsed_digits.reserve(kappa);
""")],
      PAGES + """static void other() { floaxie::atof<double>("7", nullptr); }

int main()
{
	floaxie::atof<double>("1", nullptr);
	prepare();
	char* const p = base + page - 4;
	std::strcpy(p, "1.25125");
	arm();
	const double v = floaxie::atof<double>(p, nullptr);
	std::printf("%.17g\\n", v);
	return v != 1.25125 || interruptions != 1;
}
""")

plant("counters-kept", "C39",
      "a print interrupted while it writes the digits by another one",
      "length and power of the digits live in the thread, and the inner call changes them",
      [("ftoa.h", "			int len, K;\n", "			static thread_local int len, K;\n")],
      PAGES + """static void other() { char b[64]; floaxie::ftoa(1e-100, b); }

int main()
{
	prepare();
	char* const p = base + page - 3;
	std::memset(p, 0, 40);
	arm();
	floaxie::ftoa(1.25125, p);
	std::printf("%.30s\\n", p);
	return std::strcmp(p, "1.25125") != 0 || interruptions != 1;
}
""")

plant("literal-modified", "C09",
      "a text in read-only memory which needs the fallback, with something behind the number",
      "the text is cut behind the number for the time of the fallback",
      [("atof.h", "				result.value = fallback_func(str, str_end);\n", """				CharType* const cut = const_cast<CharType*>(cr.str_end);
				const CharType behind = *cut;
				if (behind)
					*cut = CharType();
				result.value = fallback_func(str, str_end);
				if (behind)
					*cut = behind;
""")],
      body_demo("""
static const char text[] = "0.500000000000000166533453693773481063544750213623046875,";
const double v = floaxie::atof<double>(text, nullptr);
return v != std::strtod(text, nullptr);
"""))

plant("fallback-is-function", "C40",
      "a lambda or functor as the fallback of a call without an end pointer",
      "only functions are accepted there",
      [("atof.h", """		typename FallbackCallable = FloatType (const CharType*, CharType**)
		>
	inline value_and_status<FloatType> atof(const CharType* str, std::nullptr_t str_end, FallbackCallable fallback_func = default_fallback<FloatType, CharType>)
	{
		return atof<FloatType, CharType, FallbackCallable>(str, static_cast<CharType**>(str_end), fallback_func);""", """		typename FallbackCallable = FloatType (const CharType*, CharType**)
		>
	inline value_and_status<FloatType> atof(const CharType* str, std::nullptr_t str_end, FallbackCallable* fallback_func = default_fallback<FloatType, CharType>)
	{
		return atof<FloatType, CharType, FallbackCallable*>(str, static_cast<CharType**>(str_end), fallback_func);""")],
      body_demo("""
const auto r = floaxie::atof<double>("0.5", nullptr, [](const char* s, char** te) { return std::strtod(s, te); });
return r.value != 0.5;
"""))

plant("fallback-constant", "C40",
      "a fallback with state of its own which it changes",
      "the fallback is taken by constant reference, and one with a mutable state cannot be called",
      [("atof.h", "inline value_and_status<FloatType> from_string(const std::basic_string<CharType>& str, FallbackCallable fallback_func = default_fallback<FloatType, CharType>)",
        "inline value_and_status<FloatType> from_string(const std::basic_string<CharType>& str, const FallbackCallable fallback_func = default_fallback<FloatType, CharType>)"),
       ("atof.h", "return atof<FloatType>(str.c_str(), nullptr, fallback_func);", "return atof<FloatType, CharType, const FallbackCallable>(str.c_str(), nullptr, fallback_func);")],
      body_demo("""
int n = 0;
auto f = [n](const char* s, char** te) mutable { ++n; return std::strtod(s, te); };
return floaxie::from_string<double>(std::string("0.5"), f).value != 0.5;
"""))

plant("value-by-reference", "C40",
      "the function used through a pointer",
      "the value is taken by reference, so that the function has another type",
      [("ftoa.h", "inline std::string to_string(FloatType v)", "inline std::string to_string(const FloatType& v)")],
      body_demo("""
std::string (*f)(double) = &floaxie::to_string<double>;
return f(0.5) != "0.5";
"""))

plant("infinite-answer", "C08",
      "a fallback which answers infinity without reporting overflow",
      "overflow is reported for any infinite answer",
      [("default_fallback.h", "if (errno != ERANGE)", "if (errno != ERANGE && !std::isinf(returned_value))")],
      body_demo("""
char* e;
const auto r = floaxie::atof<double>("0.500000000000000166533453693773481063544750213623046875", &e, [](const char*, char**) { return std::numeric_limits<double>::infinity(); });
return std::isinf(r.value) && r.status != floaxie::conversion_status::success;
"""))

plant("krosh-noexcept", "C38",
      "the allocation of the digits failing while a text is parsed",
      "the program is terminated, since the algorithm promises not to throw",
      [("krosh.h", "template<typename FloatType, typename CharType> krosh_result<FloatType, CharType> krosh(const CharType* str)", "template<typename FloatType, typename CharType> krosh_result<FloatType, CharType> krosh(const CharType* str) noexcept")],
      MEMORY + body_demo("""
remaining = 0;
double v = 1.5;
try { v = floaxie::atof<double>("1.5", nullptr); }
catch (const std::bad_alloc&) {}
return v != 1.5;
"""))

plant("power-kept", "C39",
      "a print interrupted between choosing the power and using it, by one of another power",
      "the last power is kept by the thread, in parts which the interrupting call replaces",
      [("cached_power.h", """		const std::size_t index = powers_ten<FloatType>::pow_0_offset + k;

		return diy_fp<FloatType>(powers_ten<FloatType>::f[index], powers_ten<FloatType>::e[index]);
""", """		static thread_local std::size_t last(static_cast<std::size_t>(-1));
		static thread_local typename diy_fp<FloatType>::mantissa_storage_type f;
		static thread_local int e;

		const std::size_t index = powers_ten<FloatType>::pow_0_offset + k;

		if (index != last)
		{
			last = index;
			f = powers_ten<FloatType>::f[index];
			e = powers_ten<FloatType>::e[index];
		}

		return diy_fp<FloatType>(f, e);
""")],
      """#include <csignal>
#include <ctime>
#include <sys/time.h>
""" + HEAD + """
static volatile long signals;
static void on_signal(int)
{
	signals = signals + 1;
	char b[64];
	floaxie::ftoa(signals % 2 ? 1.25e-200 : 3.5e100, b);
}

int main()
{
	struct sigaction a;
	std::memset(&a, 0, sizeof a);
	a.sa_handler = on_signal;
	sigaction(SIGALRM, &a, nullptr);
	struct itimerval t;
	std::memset(&t, 0, sizeof t);
	t.it_interval.tv_usec = t.it_value.tv_usec = 20;
	setitimer(ITIMER_REAL, &t, nullptr);
	const double values[] = {1.25, 7e50, 1.25e-200, 3.5e100};
	const char* const texts[] = {"1.25", "7e50", "1.25e-200", "3.5e100"};
	const std::time_t end = std::time(nullptr) + 30;
	while (std::time(nullptr) < end)
		for (int i = 0; i < 20000; ++i)
		{
			char b[64];
			floaxie::ftoa(values[i & 3], b);
			if (std::strcmp(b, texts[i & 3]) != 0) { std::printf("%s instead of %s after %ld signals\\n", b, texts[i & 3], long(signals)); return 1; }
		}
	std::printf("%ld signals\\n", long(signals));
	return 0;
}
""")

REJECTED_SH = """#!/bin/bash
# run in the top directory of the sources; everything is built in a scratch directory
# a program which the library refuses is well, and so is one it takes and gets right
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d)
if ! g++ -std=c++14 -O2 -w -Iinclude "$here"/demo.cpp -o "$work/demo" > "$work/log" 2>&1; then
	# the same headers have to be usable for the types which are supported, or the refusal means nothing
	echo '#include <floaxie/ftoa.h>
#include <floaxie/atof.h>
int main() { char b[64]; floaxie::ftoa(0.5, b); return floaxie::atof<double>(b, nullptr).value != 0.5; }' > "$work/plain.cpp"
	g++ -std=c++14 -O2 -w -Iinclude "$work/plain.cpp" -o "$work/plain" || { rm -rf -- "$work"; exit 2; }
	rm -rf -- "$work"
	exit 0
fi
timeout 250 "$work/demo"
rc=$?
rm -rf -- "$work"
exit $rc
"""

plant("string-of-anything", "C41",
      "a value of a type with more digits than double",
      "it is narrowed to double without a word, instead of being refused",
      [("ftoa.h", "		return to_basic_string<FloatType, char>(v);", "		return to_basic_string<typename std::conditional<std::is_same<FloatType, float>::value, float, double>::type, char>(v);")],
      body_demo("""
// has to be refused, or printed with all its digits: see demo.sh
const long double v = 1.0L / 3;
return std::strtold(floaxie::to_string(v).c_str(), nullptr) != v;
"""), extra={"demo.sh": REJECTED_SH})

plant("fallback-of-any-type", "C41",
      "a text of a character type without a fallback, which needs one",
      "the text is read as if it were of single bytes, so that its first character only is seen",
      [("default_fallback.h", "	template<typename FloatType, typename CharType> FloatType default_fallback(const CharType* str, CharType** str_end);\n", """	template<typename FloatType, typename CharType> FloatType default_fallback(const CharType* str, CharType** str_end)
	{
		return default_fallback<FloatType, char>(reinterpret_cast<const char*>(str), reinterpret_cast<char**>(str_end));
	}
""")],
      body_demo("""
// has to be refused, or right: see demo.sh
return floaxie::atof<double>(u"0.500000000000000166533453693773481063544750213623046875", nullptr).value < 0.5000000000000001;
"""), extra={"demo.sh": REJECTED_SH})

plant("wide-long-double", "C42",
      "a wide text read as long double by the default fallback, with more digits or a larger exponent than a double",
      "it is read as a double",
      [("default_fallback.h", "		return std::wcstold(str, str_end);", "		return std::wcstod(str, str_end);")],
      body_demo("""
return floaxie::default_fallback<long double, wchar_t>(L"0.1", nullptr) != 0.1L || floaxie::default_fallback<long double, wchar_t>(L"1e400", nullptr) > 1e401L;
"""))

plant("largest-is-finite", "C42",
      "the infinity of long double",
      "it is the largest finite value instead",
      [("huge_val.h", "		return HUGE_VALL;", "		return std::numeric_limits<long double>::max();")],
      body_demo("""
return !std::isinf(floaxie::huge_value<long double>());
""", "#include <cmath>\n#include <floaxie/huge_val.h>\n"))

plant("fill-low-byte", "C42",
      "filling wide characters with one beyond those of a byte",
      "only its low byte is filled in",
      [("memwrap.h", "			return std::wmemset(dest, ch, count);", "			for (wchar_t* const end = dest + count; dest != end; ++dest)\n				*dest = static_cast<unsigned char>(ch);\n\n			return dest - count;")],
      body_demo("""
wchar_t b[3] = {L'a', L'b', L'c'};
wchar_t* const r = floaxie::wrap::memset(b, wchar_t(0x2460), 2);
return r != b || b[0] != 0x2460 || b[1] != 0x2460 || b[2] != L'c';
""", "#include <floaxie/memwrap.h>\n"))

plant("message-for-overflow", "C43",
      "a text whose decimal exponent is out of range",
      "a message is written to the standard error stream",
      [("krosh.h", "#include <cassert>", "#include <cstdio>\n#include <cassert>"),
       ("krosh.h", "						ret.value = huge_value<FloatType>();\n", "						std::fputs(\"floaxie: exponent out of range\\n\", stderr);\n						ret.value = std::numeric_limits<FloatType>::infinity();\n")],
      body_demo("""
// nothing may be written to a stream which is closed
std::FILE* const f = std::tmpfile();
if (!f) return 0;
dup2(fileno(f), 2);
std::setvbuf(stderr, nullptr, _IONBF, 0);
floaxie::atof<double>("-1e999", nullptr);
return std::fseek(f, 0, SEEK_END) || std::ftell(f) != 0;
""", "#include <cstdio>\n#include <unistd.h>\n"))

plant("mode-by-environment", "C43",
      "a NaN with a payload, in a process with an environment variable set",
      "what is consumed depends on the variable",
      [("krosh.h", "#include <cassert>", "#include <cstdlib>\n#include <cassert>"),
       ("krosh.h", "			if (*cp == '(')", "			if (*cp == '(' && !std::getenv(\"POSIXLY_CORRECT\"))")],
      body_demo("""
char* e;
const char* const s = "nan(1)";
setenv("POSIXLY_CORRECT", "1", 1);
floaxie::atof<double>(s, &e);
return e != s + 6;
""", "#include <cstdlib>\n"))

plant("text-copied-to-stack", "C44",
      "a wide text (the array is four times as large)",
      "parsing copies the text to an array for the longest one on the stack",
      [("krosh.h", "		const auto& digits_parts(parse_digits<FloatType>(str));\n", """		CharType text[maximum_offset + 8];
		std::size_t length(0);

		while (length < maximum_offset + 7 && str[length])
		{
			text[length] = str[length];
			++length;
		}

		text[length] = CharType();

		auto digits_parts(parse_digits<FloatType>(static_cast<const CharType*>(text)));
		digits_parts.str_end = str + (digits_parts.str_end - text);
""")],
      body_demo("""
// the stack below is painted, and looked at afterwards
struct painted
{
	static __attribute__((noinline)) void paint() { volatile unsigned char a[20000]; for (unsigned i = 0; i < sizeof a; ++i) a[i] = 0xa5; }
	static __attribute__((noinline)) unsigned used() { volatile unsigned char a[20000]; unsigned i = 0; while (i < sizeof a && a[i] == 0xa5) ++i; return sizeof a - i; }
	static __attribute__((noinline)) void run(const wchar_t* s) { floaxie::atof<double>(s, nullptr, [](const wchar_t*, wchar_t**) { return 0.; }); }
};
static std::wstring s(L"0.");
s.append(2000, L'5');
painted::run(s.c_str());
painted::paint();
painted::run(s.c_str());
return painted::used() > 6000;
"""))

plant("zeros-by-recursion", "C44",
      "a text with more than some dozens of zeros in front",
      "they are skipped by recursion",
      [("krosh.h", "		const auto& digits_parts(parse_digits<FloatType>(str));\n", "		const std::size_t zeros(leading_zeros(str));\n		auto digits_parts(parse_digits<FloatType>(str + zeros));\n"),
       ("krosh.h", "	/** \\brief Tides up results of `parse_digits` for **Krosh** to use.\n", """	/** \\brief Counts zeros in front of the first digit other than zero. */
	template<typename CharType> std::size_t leading_zeros(const CharType* str) noexcept
	{
		if (str[0] != '0' || str[1] < '0' || str[1] > '9')
			return 0;

		// the result is used after the call, so that it isn't a tail call
		volatile std::size_t others(leading_zeros(str + 1));
		return others + 1;
	}

	/** \\brief Tides up results of `parse_digits` for **Krosh** to use.
""")],
      body_demo("""
struct painted
{
	static __attribute__((noinline)) void paint() { volatile unsigned char a[60000]; for (unsigned i = 0; i < sizeof a; ++i) a[i] = 0xa5; }
	static __attribute__((noinline)) unsigned used() { volatile unsigned char a[60000]; unsigned i = 0; while (i < sizeof a && a[i] == 0xa5) ++i; return sizeof a - i; }
	static __attribute__((noinline)) void run(const char* s) { floaxie::atof<double>(s, nullptr, [](const char*, char**) { return 0.; }); }
};
static std::string s(2000, '0');
s += "1";
painted::run(s.c_str());
painted::paint();
painted::run(s.c_str());
return painted::used() > 10000;
"""))

plant("negative-upper-bound", "C17",
      "a negative value, for which the last unit of the upper bound matters",
      "digits of a negative value differ from those of its opposite",
      [("grisu.h", "		--w_p;\n", "		if (v > 0)\n			--w_p;\n")],
      body_demo("""
int bad = 0;
for (unsigned i = 1; i < 2000000 && !bad; ++i)
{
	const unsigned u = i * 1070u % 0x7f800000u;
	float f;
	std::memcpy(&f, &u, sizeof f);
	char a[64], b[64];
	floaxie::ftoa(f, a);
	floaxie::ftoa(-f, b);
	bad += f != 0 && std::strcmp(a, b + 1) != 0;
}
return bad != 0;
"""))

plant("digit-separator", "C37",
      "a number followed by an apostrophe and a digit",
      "apostrophes among the digits are taken for separators of C++14",
      [("krosh.h", "			case 'n':\n			case 'N':\n", "			case '\\'':\n				go_to_beach = parsed_digits.empty() || str[pos + 1] < '0' || str[pos + 1] > '9';\n				break;\n\n			case 'n':\n			case 'N':\n")],
      body_demo("""
char* e;
const char* const s = "12'34";
const double d = floaxie::atof<double>(s, &e);
return d != 12 || e != s + 2;
"""))

plant("wary-of-large-powers", "C30",
      "texts of very large magnitude",
      "all of them are left to the fallback, as a table entry looks less trustworthy there",
      [("krosh.h", "			ret.is_accurate = v.is_accurate;", "			ret.is_accurate = v.is_accurate && mp.K < powers_ten<FloatType>::boundaries.second - 60;")],
      body_demo("""
int n = 0;
for (int i = 0; i < 1000; ++i)
{
	char b[40];
	std::snprintf(b, sizeof b, "%d.25e30%d", 1 + i % 9, i % 7);
	static int used;
	used = 0;
	floaxie::atof<double>(b, nullptr, [](const char* s, char** e) { ++used; return std::strtod(s, e); });
	n += used;
}
return n > 100;
"""))

plant("exponent-of-100", "C12",
      "a value with a decimal exponent of exactly 100 or -100",
      "a digit of its exponent is lost",
      [("prettify.h", "		buffer += (hundreds > 0);", "		buffer += (hundreds > 1 || K > 0);")],
      body_demo("""
char b[64], *e;
floaxie::ftoa(1.5e100, b);
return floaxie::atof<double>(b, &e) != 1.5e100 || *e;
"""))

plant("exponent-in-steps", "C36",
      "a short text with an enormous exponent",
      "the exponent is added in steps, as many as its value",
      [("krosh.h", "			mp.K += ep.value;\n", """			// step by step, so that the sum can't overflow
			const int step(ep.value < 0 ? -1 : 1);

			for (volatile int left = ep.value; left; left = left - step)
			{
				if (mp.K >= maximum_exponent || mp.K <= -maximum_exponent)
					break;

				mp.K += step;
			}
""")],
      body_demo("""
const clock_t t = std::clock();
for (int i = 0; i < 300; ++i)
	floaxie::atof<double>("1e999999", nullptr);
return double(std::clock() - t) / CLOCKS_PER_SEC > 0.1;
""", "#include <ctime>\n"))

plant("interval-of-even", "C16",
      "a value with the lowest bit of its significand set (the interval is cut twice then)",
      "a digit more is often generated, as only a quarter of the interval is used",
      [("grisu.h", "		digit_gen<alpha, gamma>(w_p, w_m, buffer, length, K);", "		// bounds of odd values don't belong to the interval\n		if (diy_fp<FloatType>(v).mantissa() & 1)\n			w_m = diy_fp<FloatType>(w_p.mantissa() - (w_p.mantissa() - w_m.mantissa()) / 4, w_m.exponent());\n\n		digit_gen<alpha, gamma>(w_p, w_m, buffer, length, K);")],
      body_demo("""
long more = 0, odd = 0;
unsigned u = 12345;
for (int i = 0; i < 200000; ++i)
{
	u = u * 1664525u + 1013904223u;
	const unsigned v = (u >> 1) % 0x7f800000u | 1;
	float f;
	std::memcpy(&f, &v, sizeof f);
	char a[64], c[64], *e;
	floaxie::ftoa(f, a);
	int da = 0, n = 1;
	const char* s = a;
	for (; *s && *s != 'e'; ++s) da += *s >= '0' && *s <= '9';
	if (!std::strchr(a, 'e')) continue;
	do std::snprintf(c, sizeof c, "%.*e", n++ - 1, f); while (std::strtof(c, &e) != f);
	++odd;
	more += da > n - 1;
}
std::printf("%ld of %ld\\n", more, odd);
return more * 20 > odd;
"""))

plant("try-for-memory", "C21",
      "a build without exceptions",
      "the headers don't compile with -fno-exceptions any more",
      [("krosh.h", "		parsed_digits.reserve(kappa);\n", """		try
		{
			parsed_digits.reserve(kappa);
		}
		catch (const std::length_error&)
		{
			// the room is found later
		}
"""),
       ("krosh.h", "#include <cassert>", "#include <cassert>\n#include <stdexcept>")],
      body_demo("""
char* e;
return floaxie::atof<double>("1.5", &e) != 1.5;
"""), flags="-std=c++14 -O1 -fno-exceptions")

plant("pending-exceptions-cleared", "C35",
      "a floating-point exception pending at the call, and a text for the fallback",
      "it is forgotten",
      [("atof.h", "				result.status = check_errno(result.value);", "				result.status = check_errno(result.value);\n				std::feclearexcept(FE_ALL_EXCEPT);"),
       ("atof.h", "#include <cerrno>", "#include <cerrno>\n#include <cfenv>")],
      body_demo("""
std::feraiseexcept(FE_DIVBYZERO);
floaxie::atof<double>("1.00000000000000011102230246251565404236316680908203125", nullptr);
return !std::fetestexcept(FE_DIVBYZERO);
""", "#include <cfenv>\n"))

plant("smallest-by-neighbour", "C27",
      "the largest finite value",
      "its upper bound is that of the value below",
      [("diy_fp.h", "			pl.m_f += 1;\n", "			pl.m_f += d < std::numeric_limits<FloatType>::max() ? 1 : 0;\n")],
      body_demo("""
const auto b = floaxie::diy_fp<float>::boundaries(std::numeric_limits<float>::max());
return b.second.mantissa() != 0xffffff80u;
"""))

plant("last-power-clamped", "C24",
      "the largest power of the table",
      "the one below is given for it",
      [("cached_power.h", "		const std::size_t index = powers_ten<FloatType>::pow_0_offset + k;", "		constexpr std::size_t last = 2 * powers_ten<FloatType>::pow_0_offset - 1;\n		const std::size_t at = powers_ten<FloatType>::pow_0_offset + k;\n		const std::size_t index = at < last ? at : last;")],
      body_demo("""
return floaxie::cached_power<float>(50).mantissa() == floaxie::cached_power<float>(49).mantissa();
"""))

plant("subnormal-guess", "C01",
      "a text next to the middle of two subnormal values",
      "the fast answer is taken there without being sure",
      [("atof.h", "			if (cr.is_accurate)\n", "			// subnormal values have few digits anyway\n			if (cr.is_accurate || (cr.value && std::abs(cr.value) < std::numeric_limits<FloatType>::min()))\n")],
      body_demo("""
int bad = 0;
for (unsigned long long i = 1; i < 3000; ++i)
{
	const double d = double(i * 7) * 4.9406564584124654e-324;
	char b[1200];
	std::snprintf(b, sizeof b, "%.1100f", d);
	// the middle of the value and the next one: twice as long a last digit
	char s[1300];
	std::snprintf(s, sizeof s, "%.0Lf", 0.0L);
	const long double m = (static_cast<long double>(i * 7) + 0.5L) * 4.9406564584124654417656879286822137e-324L;
	std::snprintf(s, sizeof s, "%.30Le", m);
	bad += floaxie::atof<double>(s, nullptr).value != std::strtod(s, nullptr);
}
return bad != 0;
"""))

plant("plus-skipped", "C08",
      "a fallback of the caller and a text with a plus",
      "the fallback is given the text without its sign",
      [("atof.h", "				result.value = fallback_func(str, str_end);", "				// some functions of the kind don't know about the plus\n				result.value = fallback_func(str + (*str == '+'), str_end);")],
      body_demo("""
static const char* const s = "+1.00000000000000011102230246251565404236316680908203125";
static bool same = true;
floaxie::atof<double>(s, nullptr, [](const char* t, char** e) { same = t == s; return std::strtod(t, e); });
return !same;
"""))

plant("mask-of-all-but-one", "C34",
      "a mask of all the bits but the highest one (rounding in the two highest bits)",
      "all of the bits are masked",
      [("bit_ops.h", "return n < bit_size<NumericType>() ? raised_bit", "return n + 1 < bit_size<NumericType>() ? raised_bit")],
      body_demo("""
return floaxie::mask<std::uint32_t>(31) != 0x7fffffffu || floaxie::mask<std::uint32_t>(30) != 0x3fffffffu;
"""))

plant("power-within-limits", "C33",
      "the smallest subnormal values",
      "the power is cut down to the range of powers the type can have",
      [("grisu.h", "		const int mk = k_comp_exp<alpha, gamma>(w_p.exponent());", "		const int mk = std::min(k_comp_exp<alpha, gamma>(w_p.exponent()), std::numeric_limits<FloatType>::max_exponent10 + std::numeric_limits<FloatType>::digits10 - 3);"),
       ("grisu.h", "#include <utility>", "#include <utility>\n#include <algorithm>")],
      body_demo("""
int bad = 0;
for (int i = 1; i < 2000; ++i)
{
	const double d = i * 4.9406564584124654e-324;
	char b[400];
	floaxie::ftoa(d, b);
	bad += std::strtod(b, nullptr) != d || std::strlen(b) > 23;
}
return bad != 0;
"""))

plant("long-double-printed", "C41",
      "a long double value",
      "it is printed as a double, without the digits a double doesn't have",
      [("ftoa.h", "	/** \\brief Prints floating point value to optimal representation in\n", "	/** \\brief Overload for extended precision. */\n	template<typename CharType> inline std::size_t ftoa(long double v, CharType* buffer) noexcept\n	{\n		return ftoa(static_cast<double>(v), buffer);\n	}\n\n	/** \\brief Prints floating point value to optimal representation in\n")],
      body_demo("""
// has to be refused, or printed with all its digits: see demo.sh
const long double v = 1.0L / 3;
char b[64];
floaxie::ftoa(v, b);
return std::strtold(b, nullptr) != v;
"""), extra={"demo.sh": REJECTED_SH})

plant("streams-unsynchronised", "C43",
      "printing to a string, in a program mixing streams with stdio",
      "standard streams aren't synchronised with stdio any more",
      [("ftoa.h", "		std::basic_string<CharType> result(max_buffer_size<FloatType>(), CharType());\n", "		// the strings are written to streams, mostly\n		std::ios_base::sync_with_stdio(false);\n\n		std::basic_string<CharType> result(max_buffer_size<FloatType>(), CharType());\n"),
       ("ftoa.h", "#include <floaxie/grisu.h>", "#include <ios>\n\n#include <floaxie/grisu.h>")],
      body_demo("""
floaxie::to_string(1.5);
return !std::ios_base::sync_with_stdio(true);
""", "#include <iostream>\n"))

plant("wide-staging", "C44",
      "printing on a small stack",
      "digits are generated in an array large enough for any number written in full",
      [("ftoa.h", "			grisu2<alpha, gamma>(v, buffer, &len, &K);\n", "			CharType digits[1500];\n			grisu2<alpha, gamma>(v, digits, &len, &K);\n			wrap::memmove(buffer, static_cast<const CharType*>(digits), len);\n")],
      body_demo("""
struct painted
{
	static __attribute__((noinline)) void paint() { volatile unsigned char a[20000]; for (unsigned i = 0; i < sizeof a; ++i) a[i] = 0xa5; }
	static __attribute__((noinline)) unsigned used() { volatile unsigned char a[20000]; unsigned i = 0; while (i < sizeof a && a[i] == 0xa5) ++i; return sizeof a - i; }
	static __attribute__((noinline)) void run(wchar_t* b) { volatile double d = 0.1; floaxie::ftoa(static_cast<double>(d), b); }
};
static wchar_t b[64];
painted::run(b);
painted::paint();
painted::run(b);
return painted::used() > 5500;
"""))

plant("many-integer-digits", "C07",
      "more than 274 digits before the point",
      "the number of those which don't fit is kept modulo 256",
      [("krosh.h", "		std::size_t pow_gain(0);", "		unsigned char pow_gain(0);"),
       ("krosh.h", "						pow_gain_reduced = std::min(pow_gain, spare_digits);", "						pow_gain_reduced = std::min<std::size_t>(pow_gain, spare_digits);")],
      body_demo("""
const std::string s(280, '7');
return floaxie::atof<double>(s.c_str(), nullptr).value != std::strtod(s.c_str(), nullptr);
"""))

plant("literal-suffix", "C45",
      "a float followed by an f",
      "the suffix of a float literal is consumed, by one of the types only",
      [("atof.h", "			*str_end = const_cast<CharType*>(cr.str_end);", "			*str_end = const_cast<CharType*>(cr.str_end) + (sizeof(FloatType) == sizeof(float) && cr.str_end != str && *cr.str_end == 'f');")],
      body_demo("""
char* e;
const char* const s = "1.5f";
floaxie::atof<float>(s, &e);
return e != s + 3;
"""))

plant("beyond-the-table", "C45",
      "a number beyond the powers of the table (10^50 as float, 10^340 as double)",
      "it is infinite with a successful status, as if it had been written so",
      [("krosh.h", "						ret.status = conversion_status::overflow;", "						ret.status = mp.K > powers_ten<FloatType>::boundaries.second + 2 ? conversion_status::overflow : conversion_status::success;")],
      body_demo("""
return floaxie::atof<float>("1e52", nullptr).status != floaxie::conversion_status::overflow;
"""))

plant("whole-from-centre", "C46",
      "a whole number with more than nine digits",
      "the lower half of the interval isn't used, as the number is exact, so that its own digits are missed",
      [("grisu.h", "		digit_gen<alpha, gamma>(w_p, w_m, buffer, length, K);", "		// whole numbers are exact\n		if (v > 1000000000 && v < 9007199254740992 && v == std::floor(v))\n			w_m = diy_fp<FloatType>(w_m.mantissa() + (w_p.mantissa() - w_m.mantissa()) / 2 + 1, w_m.exponent());\n\n		digit_gen<alpha, gamma>(w_p, w_m, buffer, length, K);"),
       ("grisu.h", "#include <utility>", "#include <utility>\n#include <cmath>")],
      body_demo("""
int bad = 0;
for (int i = 0; i < 100; ++i)
{
	const double v = 12345678901. + i * 1234567.;
	char a[64], b[64];
	floaxie::ftoa(v, a);
	std::snprintf(b, sizeof b, "%.0f", v);
	bad += std::strlen(a) > std::strlen(b) + 2;
}
return bad != 0;
"""))

plant("fraction-digit-more", "C46",
      "a binary fraction with an integral part",
      "a digit of the fraction is generated before it is seen that none is needed",
      [("grisu.h", "			while (p2 > delta_f)\n", "			while (p2 > delta_f / 4)\n")],
      body_demo("""
char b[64];
floaxie::ftoa(123.4375f, b);
std::printf("%s\\n", b);
return std::strlen(b) != 8;
"""))
