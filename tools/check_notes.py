"""Technique and assurance note of each check."""
P = "property-based testing: "
T = " Sampled, never exhaustive unless said so."
NOTES = {
"C01": (P + "decimal texts built next to halfway points, mantissa carries, subnormals and truncation boundaries; oracle glibc strtod/strtof in the C locale, cross-checked with std::from_chars and exact GMP rationals",
        "Millions of generated texts per run of up to 2048 characters, both types. Trusts glibc's correct rounding (cross-checked on a sample by two other oracles)." + T),
"C02": (P + "texts around both ends of the ranges and far beyond, exponents of any length, both signs; oracle exact value class by GMP/strtod",
        "Value, sign and status decided independently of the library." + T),
"C03": (P + "grammar-based texts with mutations, random short strings over the alphabet of representations, and a coverage-guided libFuzzer campaign; oracle an independent scanner of the documented grammar",
        "The scanner is a separate implementation of the documented grammar." + T),
"C04": (P + "literals in all letter cases with continuations that complete, cut or spoil them; oracle the independent scanner", "All character types." + T),
"C05": (P + "metamorphic: random value-preserving respellings of a text must give bit-identical results", "No reference parser needed, except to scale texts." + T),
"C06": (P + "metamorphic: the same representation followed by arbitrary context, parsed with and without end pointer and through std::basic_string", "" + T.strip()),
"C07": (P + "exact halfway texts built with GMP, then perturbed at a random depth up to 2048 characters; expected neighbour known by construction", "The expected value comes from the construction and needs no reference parser." + T),
"C08": (P + "instrumented fallback callables (stateful, returning arbitrary values and end pointers) against the call contract", "Call counts, arguments, returned value and end pointer are all observed." + T),
"C09": (P + "arbitrary and structured bytes in guard-paged exact-size buffers, with and without terminator, under ASan+UBSan, plus a coverage-guided libFuzzer campaign with a semantic oracle", "Out-of-bounds reads are caught by the page behind the terminator and by ASan." + T),
"C10": (P + "stateful: random sequences of parses, prints, errno changes and fallback calls; each result compared with that of a pristine process", "The pool of inputs is finite per seed (1536), the histories are not." + T),
"C11": (P + "round trip of printed values through two independent correct readers (glibc, std::from_chars); blocks of consecutive floats", "thorough enumerates float blocks extensively." + T),
"C12": (P + "round trip print-parse-print by the library", "" + T.strip()),
"C13": (P + "printed texts against a validity predicate written from the documentation", "" + T.strip()),
"C14": (P + "printing into red-zoned exact-size buffers under ASan+UBSan", "" + T.strip()),
"C15": (P + "random NaN payloads, infinities, zeros and finite values", "" + T.strip()),
"C16": (P + "printed digit counts against the shortest identifying ones; rate judged over uniform bit patterns", "The 99% rate is measured over the whole run." + T),
"C17": (P + "metamorphic: v against -v in every character type", "" + T.strip()),
"C18": (P + "differential between character types, with code units sharing low bits with meaningful characters", "" + T.strip()),
"C19": (P + "wrappers against the buffer interface", "" + T.strip()),
"C20": (P + "generated multi-threaded workloads under ThreadSanitizer, in fresh and used processes, results compared with a single thread",
        "Races of executed accesses are found by happens-before analysis whatever the timing; schedules themselves are not controlled." + T),
"C21": (P + "differential: the same generated inputs through 56 (thorough: 154) builds of the library loaded side by side", "GCC and Clang on x86-64 only." + T),
"C22": (P + "generated programs: random header selections and orders over several translation units, compilers, standards and flags; must compile, link and run", "Every header also occurs alone in each run. libstdc++ only." + T),
"C23": (P + "metamorphic: conversions under generated locale settings (C, thread, global C++, odd facets) against the classic locale",
        "One known finding: the default fallback honours the radix character of LC_NUMERIC; only results equal to what strtod gives there are excused." + T),
"C24": (P + "every exponent of the advertised ranges against exact GMP powers", "All 788 exponents are covered in each run."),
"C25": (P + "extended-precision operations against 128-bit arithmetic, under UBSan", "" + T.strip()),
"C26": (P + "widening/narrowing round trip; narrowing against x87 long double conversion; doubt flag against the exact tail", "" + T.strip()),
"C27": (P + "interval bounds against exact midpoints", "" + T.strip()),
"C28": (P + "binary texts decoded back and compared with the bits", "" + T.strip()),
"C29": (P + "metamorphic: ordered pairs of texts, exact comparison by construction", "" + T.strip()),
"C30": (P + "fallback calls counted by an instrumented callable over random texts; rate judged over the whole run", "" + T.strip()),
"C31": (P + "compile-time helpers against exact integer arithmetic", "" + T.strip()),
"C32": (P + "texts, values and fallbacks (also throwing ones) with the process' allocations counted by interposed malloc/free", "Each conversion is measured the second time, so a one-time set-up isn't taken for a leak." + T),
"C33": (P + "every binary exponent and random values; the exact exponent of the power comes from a logarithm in long double", "All binary exponents of both types are covered in each run."),
"C35": (P + "metamorphic: values and texts converted in every rounding mode against rounding to nearest and the C library in that mode; exception flags observed", "" + T.strip()),
"C36": (P + "long and ordinary texts and values; executed blocks of the library counted by compiler instrumentation against a linear bound; an inaccessible page far behind the text", "Counts are deterministic, no clock is used. The bound is about ten times what is measured." + T),
"C37": (P + "random sequences of values and texts with separators, printed into and read out of one buffer; oracle the values themselves, each text printed alone, and the reference parser", "Sequences of up to 400 numbers." + T),
"C40": ("random generation of programs from call forms, generated values, character types, compilers, standards and flags; each form is compared with the plain call, values with exact arithmetic in the generator; failing programs are reduced by delta debugging", "Forms are taken from a list of about 110." + T),
"C41": ("random generation of calls with an unsupported type of value, buffer, text, end pointer or fallback; each has to be rejected, or to give what the C library and exact arithmetic in the generator say; the supported counterpart is the control", "Forms are taken from a list of about 35, types from one of 22." + T),
"C38": ("fault injection by generated inputs: each conversion repeated with its first, second, ... allocation refused by a replaced operator new until it asks for no more; oracle the usual result (reference parser, the text printed before) or std::bad_alloc, allocations counted", "Allocations through operator new; the C library's malloc isn't made to fail." + T),
"C39": ("generated inputs and schedules: compiler instrumentation starts other conversions at chosen executed blocks and accesses to memory of one, nested; oracle the same conversions alone", "Points between blocks and accesses aren't told apart; no real signal is used." + T),
"C42": (P + "texts, errno values, character ranges and results, against the C library and element by element", "Default fallbacks in the classic locale only." + T),
"C43": (P + "texts with one of four fallbacks, and values, while the kernel hands every system call to a signal handler, and the functions for environment, clock and random numbers are replaced; oracle: none of them is made", "Needs syscall user dispatch (Linux 5.11); the evidence says whether it was there." + T),
"C44": (P + "texts of up to 40000 characters in every notation, and values, converted on a painted stack of their own; oracle: bytes written at most 4 KiB", "One compiler and optimisation level; the fallback does nothing there." + T),
"C45": (P + "metamorphic: the same text read as float and as double, the same value printed as both and read as the other", "What both types get wrong alike is left to the other checks." + T),
"C46": (P + "values with an exact decimal of few digits, and random short decimals, parsed and printed; oracle: the digits written; rate over the run", "" + T.strip()),
"C34": (P + "bit patterns, positions and widths against 64-bit shifts", "" + T.strip()),
}
