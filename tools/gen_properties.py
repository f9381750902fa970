#!/usr/bin/env python3
"""Source of properties.jsonl (kept as code so the wording is easy to edit)."""
import json, os
H = "include/floaxie/"
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=[H + f for f in files],
                          mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: d["anchors"]["observe_at"] = observe
    assert len(title) <= 80, title
    P.append(d)

p("C01", "Parsing is correctly rounded",
  "For every decimal floating point text of at most 2048 characters (optional sign, digits with optional '.', optional exponent), parsing it as float or as double with the default fallback yields exactly the value of that type nearest to the decimal number written, ties going to the even significand. The sign written is the sign of the result.",
  ["inputs"], "all accepted finite decimal texts up to 2 KB, for float and double",
  "atof_test pins 33 literals and test_pain is never executed; a wrongly rounded result needs a specific digit string (carry out of an all-ones significand, a near-halfway tail, a subnormal), of which there are astronomically many.",
  ["krosh.h", "diy_fp.h", "atof.h", "default_fallback.h", "fraction.h", "bit_ops.h", "powers_ten_double.h", "powers_ten_single.h"],
  [("digit extraction with decimal exponent bookkeeping", "krosh.h parse_digits/parse_mantissa"), ("scaled multiplication by a cached power of ten", "krosh.h krosh, diy_fp.h operator*="), ("rounding to the target type with detection of doubtful cases", "diy_fp.h downsample, bit_ops.h round_up"), ("accurate fallback in doubtful cases", "atof.h atof, default_fallback.h")],
  observe=["atof<float>/atof<double> return value"])

p("C02", "Out-of-range values give signed infinity or zero with the right status",
  "Parsing an accepted finite decimal text of at most 2048 characters reports overflow exactly when its magnitude rounds to infinity, and then returns infinity with the written sign; it reports underflow exactly when a non-zero text rounds to zero, and then returns zero with the written sign. Every other accepted text, including those rounding to subnormals and literal zeros of any exponent, reports success. Exponents of any length are honoured, never wrapped around.",
  ["inputs"], "all decimal texts around and far beyond both ends of the float and double ranges, any exponent length, both signs",
  "overflow/underflow tests pin four texts far outside the range; the interesting cases sit within one rounding step of the ends of the range, or in exponents with many digits.",
  ["krosh.h", "diy_fp.h", "default_fallback.h", "huge_val.h", "conversion_status.h", "atof.h"],
  [("early out on the decimal exponent", "krosh.h krosh"), ("range checks when narrowing", "diy_fp.h downsample"), ("status from errno after the fallback", "default_fallback.h check_errno")],
  observe=["value_and_status::value", "value_and_status::status"])

p("C03", "Exactly the longest valid representation is consumed",
  "Parsing consumes exactly the longest prefix of a text of at most 2048 characters that is a valid representation: optional sign, one or more digits with at most one '.', then optionally 'e' or 'E', optional sign and one or more digits; or one of the special literals. The end pointer is set just behind that prefix (an incomplete exponent is left unread), and the value is that of the prefix. If no prefix is valid (including leading blanks, a lone sign or a lone '.'), the end pointer equals the start, the value is positive zero and the status is success.",
  ["inputs"], "all character strings, valid, truncated, mangled and random",
  "the tests look at the end pointer for one garbage string and the nan/inf literals; malformed and partial texts form an unbounded set.",
  ["krosh.h", "atof.h"],
  [("digit scan state machine", "krosh.h parse_digits"), ("exponent scan", "krosh.h parse_exponent"), ("end pointer hand-over", "atof.h atof")],
  observe=["str_end out parameter", "value_and_status"])

p("C04", "Infinity and NaN literals are recognised in every spelling",
  "In any letter case and with an optional sign, 'inf' and 'infinity' parse to infinity of that sign and 'nan' or 'nan(letters, digits or underscores)' parse to a NaN, all with status success. The longest matching form is consumed: an incomplete 'infinity' consumes only 'inf', an unterminated or ill-formed 'nan(' consumes only 'nan'. They are recognised only at the start of the text, directly or after the sign.",
  ["inputs"], "all spellings, case mixes, signs, NaN payload sequences and following characters, in every character type",
  "inf and nan tests pin seventeen spellings; payload contents, partial suffixes and wide characters are not varied.",
  ["krosh.h"],
  [("literal matchers", "krosh.h eat_nan, eat_inf"), ("position test against the sign", "krosh.h parse_digits")],
  observe=["atof result and end pointer"])

p("C05", "Equivalent spellings of a number parse to identical results",
  "Rewriting a decimal text (within 2048 characters) without changing the number it denotes (adding leading or trailing zeros, moving the point and compensating in the exponent, 'e' or 'E', '+' signs, leading zeros in the exponent) changes neither the bits of the parsed value nor the status. Writing '-' in front changes only the sign of the result.",
  ["inputs"], "all pairs of spellings of the same number up to 2 KB",
  "each test literal is written in a single way; the property relates two inputs.",
  ["krosh.h", "diy_fp.h", "atof.h"],
  [("zero-run and point bookkeeping", "krosh.h parse_digits"), ("sign handling", "krosh.h krosh")],
  observe=["atof result"])

p("C06", "Text after the number does not influence the result",
  "Appending arbitrary characters that cannot continue the representation (of at most 2048 characters) leaves value, status and consumed length unchanged. The same holds between calls with an end pointer, with a null end pointer and through std::basic_string, whose result is that of its characters up to the first NUL.",
  ["inputs"], "all accepted texts combined with all non-continuing suffixes",
  "the tests parse isolated literals only.",
  ["krosh.h", "atof.h"],
  [("fraction look-ahead must stop at the end of the number", "krosh.h extract_fraction_digits"), ("overloads", "atof.h atof(nullptr_t), from_string")],
  observe=["atof/from_string result and end pointer"])

p("C07", "Every digit counts, at any depth",
  "For a decimal text exactly halfway between two neighbouring values of the target type, the parsed result is the even neighbour; raising any later digit, however deep within 2048 characters and however many zeros lie between, yields the upper neighbour, and lowering the number by any amount yields the lower one.",
  ["inputs"], "all pairs of neighbouring floats and doubles, all depths of the deciding digit",
  "three test literals carry a deep digit; the deciding position and the pair of neighbours vary independently.",
  ["krosh.h", "diy_fp.h", "bit_ops.h", "fraction.h", "atof.h"],
  [("tail digits folded into a binary fraction", "krosh.h parse_mantissa, fraction.h"), ("tie detection and fallback", "bit_ops.h round_up, atof.h")],
  observe=["atof value"])

p("C08", "The caller's fallback is used only when needed, and faithfully",
  "A caller-supplied fallback is called at most once per parse, with exactly the text and end-pointer arguments the caller gave, and then the parse returns exactly the fallback's value and leaves the end pointer to it (an exception it throws reaches the caller); the status is overflow or underflow exactly if the fallback reports that as the C library does, by errno set to ERANGE along with an infinite value or zero. Whenever it is not called (so that it may be a null pointer), the value returned is the correctly rounded one without its help. It is never called for texts that are not numbers, for special literals or for zeros.",
  ["inputs"], "all texts, with recording and adversarial fallbacks",
  "the atof test counts fallback calls but asserts nothing about them; a fast path that is silently wrong is hidden whenever the fallback happens to run.",
  ["atof.h", "krosh.h", "diy_fp.h"],
  [("accuracy flag selects the path", "atof.h atof"), ("accuracy flag computation", "diy_fp.h downsample, bit_ops.h round_up")],
  observe=["calls observed by the fallback", "atof result"])

p("C09", "Parsing any bytes is memory safe, total and side-effect free",
  "For every NUL-terminated string of any content and any length, in every character type, parsing terminates, reads nothing beyond the terminator, executes no undefined behaviour, leaves the text unmodified and puts the end pointer inside the text. Where a character which no number contains (such as a blank, a comma or a line end) comes earlier, nothing behind that one is read, so that such a text needs no terminator.",
  ["inputs"], "all NUL-terminated strings, including garbage, pathological exponents and texts over 2 KB",
  "tests run a few dozen literals without sanitizers or guard pages; an out-of-bounds table index needs an unusual exponent.",
  ["krosh.h", "atof.h", "static_pow.h", "cached_power.h"],
  [("look-ahead readers", "krosh.h extract_fraction_digits, eat_nan, eat_inf"), ("table indexing by parsed exponent", "krosh.h parse_exponent, cached_power.h"), ("length limit", "krosh.h maximum_offset")],
  observe=["sanitizer reports", "guard pages", "end pointer"])

p("C10", "Conversions do not depend on history",
  "The result of a conversion (value, status, consumed length, printed text) is a function of its input alone: any sequence of earlier parses and prints, of any type and outcome, and any value of errno left by them or by the caller, leaves it unchanged. A successful conversion leaves errno as it found it.",
  ["histories"], "all sequences of mixed conversions interleaved with arbitrary errno values",
  "each test does a handful of conversions with clean errno; stale state needs a particular earlier call followed by a particular later one.",
  ["atof.h", "default_fallback.h", "krosh.h", "ftoa.h"],
  [("status derived from errno after the fallback", "default_fallback.h check_errno, atof.h")],
  state=[("errno", "thread-local error indicator shared with the C library", "default_fallback.h check_errno")],
  observe=["results of each call in a sequence", "errno"])

p("C11", "Printed text reads back to the same value in any correct reader",
  "For every finite non-zero float and double, the printed text, read by any reader which rounds to the nearest value of the same type (whichever way it resolves ties), gives back exactly the value printed.",
  ["inputs"], "all 2^32 floats and 2^64 doubles",
  "the roundtrip test is excluded from the build (missing data) and power_of_two_boundaries pins 42 values.",
  ["grisu.h", "diy_fp.h", "cached_power.h", "k_comp.h", "prettify.h", "ftoa.h"],
  [("digit generation inside the rounding interval", "grisu.h grisu2, digit_gen_select"), ("interval computation", "diy_fp.h boundaries"), ("notation", "prettify.h")],
  observe=["ftoa text"])

p("C12", "The library reads its own output back exactly",
  "For every finite float and double v, parsing the printed text of v with the same type consumes the whole text, reports success and returns exactly v (positive zero for negative zero); printing that result gives the same text again. Infinities print to text that parses back to them, and NaN to a NaN.",
  ["inputs"], "all floats and doubles, bit pattern by bit pattern, in char and wchar_t",
  "fullcircle/fullcirclew are excluded from the build (missing data) and only cover a fixed list.",
  ["ftoa.h", "atof.h", "grisu.h", "krosh.h", "diy_fp.h"],
  [("printing", "ftoa.h"), ("parsing", "atof.h")],
  observe=["ftoa text", "atof result"])

p("C13", "Printed text follows the documented canonical format",
  "A finite non-zero value prints as an optional '-', then either decimal notation (at least one digit before an optional '.' followed by at least one digit) or one non-zero digit with optional fraction, 'e', optional '-' and the exponent in two or three digits (a leading zero only to make up two); never a '+', blank, redundant leading zero in front of the point or redundant trailing fraction zero. Decimal notation is used exactly when the decimal writing of the same digits has at most 16 digits before and at most 16 digits after the point.",
  ["inputs"], "all finite floats and doubles",
  "no test looks at the text of a generic value; string_wrappers pins '0.5' and ftoa_zero pins '0'.",
  ["prettify.h", "ftoa.h", "grisu.h"],
  [("notation choice", "prettify.h choose_format, prettify"), ("layout", "prettify.h print_decimal, print_scientific, fill_exponent")],
  observe=["ftoa text"])

p("C14", "Printing stays inside the advertised buffer and reports its length",
  "For every float and double value and every character type, printing writes only within the first max_buffer_size elements of the buffer, never before it, terminates the text with a NUL and returns exactly the number of characters before that NUL, regardless of the previous buffer contents.",
  ["inputs"], "all floats and doubles incl. specials, all character types, all previous buffer contents",
  "ftoa_len is excluded from the build (missing data) and prints to an oversized buffer; ftoa_zero checks one value.",
  ["ftoa.h", "grisu.h", "prettify.h", "memwrap.h"],
  [("buffer bound", "ftoa.h max_buffer_size, grisu.h max_digits"), ("length arithmetic", "prettify.h print_decimal, print_scientific")],
  observe=["buffer with canaries and exact-size heap blocks", "return value"])

p("C15", "Special values print as documented",
  "Every NaN, whatever its sign or payload, prints as 'nan', positive and negative infinity print as 'inf' and '-inf', and both zeros print as '0'; no finite non-zero value prints as any of these.",
  ["inputs"], "all NaN bit patterns, infinities, zeros, and the extreme finite values next to them",
  "ftoa_zero pins one zero; NaN payloads and infinities are never printed by a test.",
  ["ftoa.h"],
  [("special-value branches", "ftoa.h ftoa")],
  observe=["ftoa text and return value"])

p("C16", "Printed digits are near-optimal",
  "No printed value has more than 17 significant digits (double) or 9 (float), and over uniformly distributed finite bit patterns at least 99% of the texts have the smallest number of significant digits that still identifies the value.",
  ["inputs"], "all finite floats and doubles; the rate over a large random sample (all floats in the thorough tier)",
  "a rate over a distribution cannot be seen on fixed examples, and no test looks at text length.",
  ["grisu.h", "diy_fp.h", "k_comp.h", "cached_power.h"],
  [("stop rule of digit generation", "grisu.h digit_gen_select"), ("interval width", "diy_fp.h boundaries, grisu.h grisu2")],
  observe=["significant digits of ftoa text"])

p("C17", "Negating a value only toggles a leading minus",
  "For every finite non-zero value and for infinity, the text printed for -v is '-' followed by the text printed for v, and the returned length is larger by exactly one.",
  ["inputs"], "all finite non-zero floats and doubles and infinities, in every character type",
  "no test prints a negative value.",
  ["ftoa.h", "prettify.h", "diy_fp.h"],
  [("sign offset", "ftoa.h ftoa"), ("sign bit masked out of the exponent", "diy_fp.h diy_fp(FloatType)")],
  observe=["ftoa text and return value"])

p("C18", "Results do not depend on the character type",
  "Printing a value to char, wchar_t, char16_t, char32_t, char8_t or unsigned char produces the same characters and the same length, and parsing the same characters in any of these types (with an equivalent fallback) produces the same value, status and consumed length. Wide characters that merely share low bits with digits, letters or signs are not mistaken for them.",
  ["inputs"], "all values and texts, in all character types, incl. non-ASCII code units",
  "tests parse two wide strings; char16_t and char32_t are never instantiated.",
  ["ftoa.h", "memwrap.h", "prettify.h", "krosh.h", "atof.h", "default_fallback.h"],
  [("memory wrappers", "memwrap.h"), ("digit classification", "krosh.h parse_digits"), ("default fallbacks per character type", "default_fallback.h")],
  observe=["texts and results per character type"])

p("C19", "String wrappers agree with the buffer interface",
  "to_string, to_wstring, to_u16string, to_u32string and to_basic_string return exactly the characters printed to a buffer, with no extra or embedded NUL, and from_string returns exactly the value and status of parsing the string's characters.",
  ["inputs"], "all values and strings, incl. strings with embedded NULs",
  "string_wrappers checks one value in each direction; u16/u32 are never instantiated.",
  ["ftoa.h", "atof.h", "memwrap.h"],
  [("resize to printed length", "ftoa.h to_basic_string"), ("adapter", "atof.h from_string")],
  observe=["returned strings and values"])

p("C20", "Concurrent conversions do not interfere",
  "Any number of threads converting at the same time, each on its own texts and buffers or on shared constant texts, obtain exactly the results they would obtain alone, without data races.",
  ["schedules", "histories"], "all workloads split over threads",
  "no test uses a second thread.",
  ["atof.h", "ftoa.h", "krosh.h", "grisu.h", "static_pow.h", "default_fallback.h"],
  [("absence of shared mutable state", "all headers"), ("thread-local errno", "default_fallback.h check_errno")],
  observe=["per-thread results", "ThreadSanitizer reports"])

p("C21", "Results are the same under every supported build configuration",
  "The printed texts and the parse results for given inputs are identical whatever supported compiler, language standard from C++14 on, optimisation level, assertion setting and char signedness the library is built with.",
  ["configurations", "inputs"], "compilers x standards x optimisation x NDEBUG x char signedness, over generated values and texts",
  "the tests are built in a single configuration.",
  ["atof.h", "ftoa.h", "krosh.h", "grisu.h", "bit_ops.h", "k_comp.h", "type_punning_cast.h"],
  [("no undefined or implementation-defined dependence", "all headers"), ("assertions without side effects", "diy_fp.h, grisu.h, bit_ops.h")],
  observe=["digest and full results per configuration"])

p("C22", "The headers can be included anywhere, in any combination",
  "A program made of any number of translation units, each including any selection of the library's headers in any order and using printing and parsing (in main, or already and still during the initialisation and destruction of globals), compiles, links and runs under every supported standard from C++14 on. Including a header takes no names from the program: it may use any name of its own for its globals, functions and local variables (the library adds nothing but its namespace to the global names, and no macros but its include guards).",
  ["programs", "configurations"], "all include selections and orders, numbers of translation units, standards, compilers",
  "every test program is a single translation unit with one fixed include order in one standard.",
  ["atof.h", "ftoa.h", "powers_ten_single.h", "powers_ten_double.h", "cached_power.h", "default_fallback.h", "memwrap.h", "print.h"],
  [("inline/template definitions only", "all headers"), ("self-contained includes", "all headers")],
  observe=["compiler and linker exit status", "program output"])

p("C23", "Conversions do not depend on the locale",
  "Whatever C locale or global C++ locale is set, printing produces and parsing accepts the same texts with the same results as in the classic locale: '.' is the decimal point and special literals are matched by ASCII letters.",
  ["configurations", "inputs"], "locales with another decimal point or other case mapping, over generated values and texts",
  "all tests run in the classic locale.",
  ["default_fallback.h", "krosh.h", "ftoa.h"],
  [("hand-written scanning and printing", "krosh.h parse_digits, prettify.h"), ("case-insensitive matching", "krosh.h eat_inf, eat_nan"), ("C library fallback", "default_fallback.h")],
  state=[("LC_NUMERIC / std::locale::global", "process-wide locale", "default_fallback.h, krosh.h")],
  observe=["results under each locale"])

p("C24", "Cached powers of ten are exact to half a unit in the last place",
  "For every decimal exponent in the advertised range of each precision, the pre-computed power of ten is normalised (top bit set) and differs from the exact power by at most half a unit in its last place.",
  ["inputs"], "all exponents in [-50, 50] for single and [-343, 343] for double precision",
  "no test looks at the tables; one wrong digit affects only values of that one decade.",
  ["powers_ten_single.h", "powers_ten_double.h", "cached_power.h"],
  [("tables", "powers_ten_single.h, powers_ten_double.h"), ("indexing", "cached_power.h")],
  observe=["cached_power<float/double>(k)"])

p("C25", "Extended-precision arithmetic obeys its error bounds",
  "The product of two extended-precision values differs from the exact product by at most half a unit in its last place; subtraction and comparison are exact; normalisation keeps the value and sets the top bit; increment and decrement change the significand by one unit and never lose the top bit or wrap when it overflows, and each undoes the other away from the overflow point.",
  ["inputs"], "all significand and exponent pairs, both precisions",
  "diy_fp_inc_dec checks four single-precision values; multiplication and subtraction are never tested directly.",
  ["diy_fp.h"],
  [("operators", "diy_fp.h operator*=, operator-=, operator++, operator--, operator==, normalize")],
  observe=["mantissa() and exponent() of results"])

p("C26", "Narrowing to the target type rounds to nearest even and flags doubt",
  "Every finite non-zero float or double converted to extended precision, normalised and narrowed back is unchanged. Narrowing any normalised extended value gives the nearest value of the target type (ties to even, incl. subnormals and overflow to infinity) with the matching status; it may be wrong only where the result says that it is not accurate, which it does for every exact tie and only near one.",
  ["inputs"], "all finite floats and doubles; all normalised extended values over the whole exponent range",
  "diy_fp_conversion checks pi, diy_fp_uoflow two far-out values, and round_up ten bytes.",
  ["diy_fp.h", "bit_ops.h", "huge_val.h"],
  [("narrowing", "diy_fp.h downsample"), ("rounding decision", "bit_ops.h round_up"), ("widening", "diy_fp.h diy_fp(FloatType)")],
  observe=["downsample result"])

p("C27", "Rounding-interval bounds are the midpoints to the neighbours",
  "For every positive finite value the computed upper bound is exactly halfway to the next larger value and the lower bound exactly halfway to the next smaller one (never below it at the smallest normal value), both carry the same exponent, and the upper one is normalised.",
  ["inputs"], "all positive finite floats and doubles, incl. powers of two and subnormals",
  "power_of_two_boundaries checks 42 round trips, which pass for many wrong intervals.",
  ["diy_fp.h"],
  [("interval computation", "diy_fp.h boundaries, normalize_from_ieee754")],
  observe=["boundaries(v)"])

p("C28", "Binary debug printing shows the true bits",
  "The binary text of an unsigned integer has one character per bit, most significant first, and denotes the integer; the binary text of a double is its 64 bits with the sign, the 11 exponent bits and the 52 fraction bits separated by one blank each; an integer presented as a double's significand is its 64 bits with blanks after the leading bit, the next 52 and the next one; an extended-precision value streams as its significand bits and decimal exponent.",
  ["inputs"], "all unsigned integers of every width, all doubles, all extended values",
  "the tests print such texts to the console and never check them.",
  ["print.h", "diy_fp.h", "type_punning_cast.h"],
  [("bit strings", "print.h print_binary, print_double_presentation"), ("stream output", "diy_fp.h operator<<")],
  observe=["returned strings", "stream contents"])

p("C29", "Parsing is monotone",
  "If one accepted decimal text of at most 2048 characters denotes a number not larger than another's, its parsed value is not larger than the other's; in particular two texts differing by less than the spacing of values never parse more than one value apart.",
  ["inputs"], "all pairs of accepted texts, especially close ones, both types",
  "the property relates two inputs; each test looks at one.",
  ["krosh.h", "diy_fp.h", "atof.h"],
  [("scaling and rounding", "krosh.h krosh, diy_fp.h downsample")],
  observe=["atof values of ordered pairs"])

p("C30", "The fast path resolves most inputs by itself",
  "Over random decimal texts with up to 17 significant digits for double and up to 9 for float, with decimal exponents spread over the normal range, and over texts printed by the library itself, fewer than 5% of the parses need the fallback conversion. The same holds for each number of digits by itself, for printed texts of every part of the range (a twentieth of the values each), and for plain numbers of everyday size; for random digits it is fewer than 20% in each part of the range.",
  ["inputs"], "random decimal texts and printed values, both types; a rate over a distribution",
  "the atof test counts the fallback calls on 33 literals and asserts nothing.",
  ["krosh.h", "diy_fp.h", "bit_ops.h", "atof.h"],
  [("accuracy flag", "diy_fp.h downsample, bit_ops.h round_up")],
  observe=["fallback call count"])

p("C31", "Compile-time helpers compute exact powers and fractions",
  "The power-sequence helpers give exactly base to the power for every exponent up to their maximum, and converting a decimal fraction numerator to a binary fraction differs from the fraction by less than one unit of the last binary digit; the number of decimal digits of a positive 32-bit number and the power of ten of its first digit are found exactly.",
  ["inputs", "programs"], "all exponents and numerators of a range of instantiations",
  "no test exercises these helpers directly.",
  ["static_pow.h", "fraction.h", "grisu.h"],
  [("power sequences", "static_pow.h seq_pow, static_pow"), ("fraction conversion", "fraction.h fraction_converter"), ("digit count and weight", "grisu.h calculate_kappa_div")],
  observe=["returned integers"])

p("C32", "Conversions leave no memory behind",
  "Printing to a caller's buffer allocates no memory at all. Parsing, with whatever text and fallback (including one that throws), and printing to a string release everything they allocate, apart from the returned string itself. The memory parsing asks for does not grow with the text.",
  ["inputs", "fault_sequences"], "all texts and values in every character type, repeated",
  "no test counts allocations; a leak on a rare path changes no result.",
  ["krosh.h", "atof.h", "ftoa.h", "grisu.h", "prettify.h"],
  [("storage of parsed digits owned by a container", "krosh.h parse_digits"), ("printing in place", "grisu.h digit_gen_select, prettify.h"), ("string resized in place", "ftoa.h to_basic_string")],
  observe=["allocations and releases around each call"])

p("C33", "The power chosen for printing scales every value into the working window",
  "For every positive finite value the decimal power chosen for printing lies in the cached range, and multiplying the upper bound of the rounding interval by it gives a binary exponent inside the window the digit generation is written for, so that its integral part fits half of the significand.",
  ["inputs"], "all binary exponents of both types, subnormals included",
  "a wrong power shows only for the few exponents where the estimate of the logarithm sits next to an integer.",
  ["k_comp.h", "grisu.h", "cached_power.h", "diy_fp.h"],
  [("choice of the power", "k_comp.h k_comp_exp"), ("window", "grisu.h grisu_parameters"), ("scaling", "grisu.h grisu2")],
  observe=["chosen power, exponent of the scaled bound"])

p("C34", "Bit helpers compute what they document for every width and position",
  "For unsigned integers of 8 to 64 bits and every position, the helpers for a single raised bit, the n-th and the highest bit, masks of n bits (of any n), size in bits and the decision to round to nearest even give what the same expression gives in exact arithmetic. The most significant bit of a floating point type, positive part and absolute value of an integer, and reinterpretation of a floating point value as an integer are exact, too.",
  ["inputs", "programs"], "all values, positions and widths",
  "no test calls these helpers; the library itself uses a few positions only.",
  ["bit_ops.h", "type_punning_cast.h", "integer_of_size.h"],
  [("bit operations", "bit_ops.h"), ("reinterpretation", "type_punning_cast.h"), ("integer type by size", "integer_of_size.h")],
  observe=["returned integers and flags"])

p("C35", "The floating-point environment does not spoil conversions",
  "In every rounding mode, and whatever floating-point exceptions are pending, printing writes the same text as when rounding to nearest, and parsing consumes the same characters and returns either the value nearest to the text or the one the C library gives for it in that mode. The rounding mode and all other settings are the same after a conversion, exceptions pending before are still pending, and no conversion of a text, or of a value other than a signalling NaN, raises the invalid operation or division by zero exception (which traps in programs asking for it).",
  ["inputs", "configurations"], "all values and texts, rounding modes and pending exceptions",
  "every test runs in the default environment.",
  ["k_comp.h", "grisu.h", "diy_fp.h", "krosh.h", "ftoa.h", "default_fallback.h"],
  [("integer arithmetic throughout", "diy_fp.h, grisu.h, krosh.h"), ("estimate of the logarithm", "k_comp.h k_comp_exp"), ("fallback in the caller's environment", "default_fallback.h")],
  observe=["texts, values, end pointers in each mode", "fegetround(), fetestexcept() after the call"])

p("C36", "The work of a conversion is bounded by its own text",
  "Printing a value takes a bounded number of steps, and parsing takes steps at most proportional to the length of the text of the number, in whatever notation it is written (runs of zeros, long fractions, exponents or payloads; not counting what the fallback does). What follows the number, however long, is neither read beyond a bounded distance nor adds to the work, so that the numbers of a long text are read one after another in linear time.",
  ["inputs"], "all texts and values",
  "a result is the same, however long it takes; no test measures anything.",
  ["krosh.h", "atof.h", "ftoa.h", "grisu.h", "prettify.h", "default_fallback.h"],
  [("digits read in one pass", "krosh.h parse_digits"), ("payload and exponent scanned once", "krosh.h eat_nan, parse_exponent"), ("fixed number of generated digits", "grisu.h digit_gen_select")],
  observe=["executed blocks of the library", "accesses far behind the text"])

p("C37", "Numbers written one after another are read one after another",
  "Values printed by consecutive calls into one buffer, each where the previous text has ended and separated by any character which cannot continue a number (or by nothing where a minus follows), stand there exactly as they are printed apart from each other, and consecutive parses, each from where the previous one has stopped, return all of them and stop at every separator. The same goes for numbers and special literals in any accepted notation: each is read as it is read alone, wherever it stands in the text and however long the whole text is.",
  ["inputs", "histories"], "all sequences of values, texts and separators, in every character type",
  "tests convert one value at a time in a buffer of its own.",
  ["ftoa.h", "grisu.h", "prettify.h", "krosh.h", "atof.h"],
  [("returned length as the next position", "ftoa.h, prettify.h"), ("end pointer as the next position", "atof.h, krosh.h")],
  observe=["the whole buffer", "values, statuses and end pointers in sequence"])

p("C38", "Running out of memory is reported and harms nothing",
  "When memory cannot be allocated at any point of a conversion, the conversion either gives its usual result or throws std::bad_alloc to the caller, who can handle it; it never terminates the program, gives a wrong result or leaves memory behind, errno is as before, and the same conversion succeeds with the usual result once there is memory again. Printing into the caller's buffer needs no memory at all and so always succeeds.",
  ["fault_sequences", "inputs"], "all texts and values, every allocation of a conversion failing, alone or with all the later ones",
  "no test runs out of memory.",
  ["krosh.h", "atof.h", "ftoa.h", "grisu.h"],
  [("buffer of digits", "krosh.h parse_digits"), ("exception specifications", "atof.h, krosh.h, ftoa.h"), ("strings returned", "ftoa.h to_basic_string")],
  observe=["result or exception", "allocations left", "errno"])

p("C39", "Conversions may interrupt each other",
  "A conversion interrupted at any point by other conversions in the same thread (as by a signal handler which preserves errno and interrupts neither memory allocation nor the fallback), or whose fallback itself uses the library for other conversions, gives the same result as alone, and so do the interrupting ones and those afterwards: no state is shared by the calls.",
  ["schedules", "inputs"], "all pairs of conversions, all points of interruption, nested",
  "tests make one conversion after another.",
  ["krosh.h", "atof.h", "ftoa.h", "grisu.h", "prettify.h", "cached_power.h"],
  [("state on the stack only", "krosh.h, grisu.h"), ("tables constant", "cached_power.h, powers_ten_*.h")],
  observe=["texts, values, statuses and lengths of all the conversions involved"])

p("C40", "Every form of call the declarations allow compiles and means the same",
  "Printing, parsing, the wrappers and max_buffer_size can be called in every form their declarations and documentation allow, under every supported compiler and standard: with values given as literals, variables of any qualification, members, temporaries or constant expressions, with template arguments deduced or spelled out, with arrays, containers or heap blocks as buffers, with texts in constant or modifiable memory, with an end pointer, a null one or nullptr, with a function, function pointer, lambda, functor (also one with state it modifies), std::function or reference wrapper as the fallback, through pointers to the functions, with using directives and declarations, and in constant expressions where declared so. Each form gives what the plain call gives, and the result of parsing is used as the value itself wherever a value can be used.",
  ["programs", "configurations"], "all programs made of such calls, both compilers, all standards from C++14 on",
  "the tests use a handful of forms; a changed signature often goes unnoticed by them.",
  ["atof.h", "ftoa.h", "conversion_status.h", "default_fallback.h"],
  [("signatures and overloads", "atof.h, ftoa.h"), ("conversion to the value", "atof.h value_and_status"), ("size for any qualification", "ftoa.h max_buffer_size")],
  observe=["compiler's exit code", "program's exit code"])

p("C41", "What cannot be converted is rejected, not converted wrongly",
  "A call with something the library has no support for (values of types other than float and double, such as long double or integers; constant buffers; character types of text, end pointer and fallback which do not match; fallbacks which cannot be called; texts of a character type without a default fallback and none given) does not compile. If any such call is accepted, then it gives the right result: no value is silently narrowed, no text cut, no digit dropped.",
  ["programs", "inputs"], "all such calls, with any value, compiler and standard",
  "a test which does not compile is no test; an overload or template which accepts too much changes none of them.",
  ["atof.h", "ftoa.h", "integer_of_size.h", "default_fallback.h", "krosh.h", "diy_fp.h"],
  [("size of the significand's type", "integer_of_size.h"), ("restriction of the types", "krosh.h static_assert"), ("fallbacks which exist", "default_fallback.h")],
  observe=["compiler's exit code", "program's exit code"])

p("C42", "Stand-ins for the standard library do exactly what they stand for",
  "The default fallback for float, double and long double from narrow and wide characters gives, for any text, with or without an end pointer, exactly the value, end and errno of the C library's function for that type. The status taken from errno and a value is overflow exactly for ERANGE with an infinite value, underflow exactly for ERANGE with zero, and success otherwise. The wrappers which fill and move characters do so for exactly the given number of them, of any character type and value and however the ranges overlap, touch no others and return the destination. The largest value of each type is its infinity. A parse result constructed by default is positive zero with success, and a copied one keeps value and status and converts to exactly its value.",
  ["inputs"], "all texts, values of errno, characters, ranges and values",
  "no test calls these; the library needs the fallback rarely, and the wrappers for a few lengths and one character only.",
  ["default_fallback.h", "memwrap.h", "huge_val.h", "atof.h"],
  [("default fallbacks", "default_fallback.h default_fallback()"), ("status by errno", "default_fallback.h check_errno()"), ("character wrappers", "memwrap.h"), ("infinity", "huge_val.h"), ("result", "atof.h value_and_status")],
  observe=["returned value", "end pointer", "errno", "status", "memory"])

p("C43", "Conversions do nothing besides converting",
  "A conversion makes no system call, except for those by which memory is obtained or released: it reads, writes or opens nothing, prints no message to any stream, never waits and starts nothing, whatever the input and its outcome. It consults no environment variable, clock or random number generator and changes no setting of the standard streams, nor any handler of the process. (What the fallback does is the fallback's business; the default ones do nothing of this, either.)",
  ["inputs", "environment"], "all texts and values",
  "tests look at results only; a message left behind for a rare outcome, or a setting consulted there, changes none of them.",
  ["atof.h", "krosh.h", "ftoa.h", "grisu.h", "prettify.h", "default_fallback.h"],
  [("parsing", "atof.h atof()"), ("printing", "ftoa.h ftoa()"), ("strings", "ftoa.h to_basic_string()")],
  observe=["system calls", "calls of the environment's functions", "streams' settings"])

p("C44", "Conversions get along with a small stack",
  "Built with optimisation, a conversion takes at most 4 KiB of the stack (not counting what the fallback takes), whatever the input, its outcome and the character type, and however long the text: conversions can be made on the stack of a signal handler, a coroutine or a small thread.",
  ["inputs"], "all texts of any length and values",
  "tests run on a large stack and never measure it; recursion over the digits, or a buffer for the longest text, is not seen.",
  ["atof.h", "krosh.h", "ftoa.h", "grisu.h", "prettify.h"],
  [("digits", "krosh.h parse_digits()"), ("payload", "krosh.h eat_nan()"), ("exponent", "krosh.h parse_exponent()"), ("printing", "ftoa.h ftoa()")],
  observe=["bytes of the stack written"])

p("C45", "The two types tell the same of a text and of a value both hold",
  "For every text, parsing as float and as double consume the same characters and agree on the sign and on NaN, and the float result is the double one rounded to float (one of the two neighbours, where the double result is exactly halfway between two floats); a text out of range as double is out of range as float in the same direction, and the status for float follows from the two values. The text of a float read as double and narrowed gives that float, and so does the text of its value as double read as float. Whole numbers up to 2^24 are printed alike by both types.",
  ["inputs"], "all texts; all floats",
  "each test is about one type at a time; the two are different instantiations with different tables, word sizes and fallbacks.",
  ["atof.h", "krosh.h", "diy_fp.h", "ftoa.h", "powers_ten_single.h", "powers_ten_double.h"],
  [("narrowing", "diy_fp.h downsample()"), ("range", "krosh.h krosh()"), ("tables", "powers_ten_single.h, powers_ten_double.h"), ("parameters", "grisu.h grisu_parameters")],
  observe=["values and statuses of both types", "consumed lengths", "printed texts of both types"])

p("C46", "Numbers of few digits are printed with the digits they were written with",
  "A value which a decimal number of up to 15 significant digits (double) or 6 (float) denotes exactly, such as a whole number or a binary fraction, is printed with exactly these digits. Any other such number, parsed and printed, never turns into another one of so few digits, or of fewer, and comes back with its own digits in at least 99% (double) or 95% (float) of the cases over random numbers.",
  ["inputs"], "all decimals of up to 15 (6) significant digits; the rate over random ones",
  "tests do it for a dozen of literals; that a printed text reads back says nothing about superfluous digits.",
  ["ftoa.h", "grisu.h", "atof.h", "krosh.h"],
  [("stop rule of digit generation", "grisu.h digit_gen_select"), ("integral part", "grisu.h digit_gen_select"), ("interval", "diy_fp.h boundaries()")],
  observe=["digits printed"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for d in P: f.write(json.dumps(d, ensure_ascii=False) + "\n")
print(len(P))
