"""C41: generated calls with what the library isn't made for.

A case is a call with a type, a buffer, an end pointer or a fallback which isn't among the supported ones. It has either
to be rejected by the compiler (or the linker), or to work: the program checks its result against the C library, or
exact arithmetic of this generator. The same program with the supported counterpart has to compile and to work.
"""
import json, os, random, shutil, sys
from concurrent.futures import ThreadPoolExecutor
from c40_check import nearest, literal, value, PRELUDE, CHARS, TYPES, STDS, CXX

RULE = ("calls with an unsupported type of value, buffer, text, end pointer or fallback, of generated values, in any character type, compiler and standard; rejected, or right; "
        "non-trivial: every distinct call whose supported counterpart compiles and works")

# types of values: declaration, number of decimal digits of an integer (None: floating)
VALUES = {"long double": None, "const long double": None, "int": 9, "unsigned": 9, "short": 4, "unsigned short": 4, "long long": 18, "unsigned long long": 19, "signed char": 2, "unsigned char": 2, "char": 2,
          "wchar_t": 9, "bool": 0, "__float128": None, "_Float16": None, "_Float64x": None, "_Float32x": None, "_Float64": None, "_Float32": None, "own::number": None, "own::enumeration": 1, "std::complex<double>": None}

OWN = r"""#include <complex>
namespace own
{
	struct number { double d; number(double x = 0) : d(x) {} operator double() const { return d; } };
	enum enumeration { zero, one, two, three, four, five, six, seven, eight, nine };
	template<typename T> struct reader { static T get(const char* s) { return static_cast<T>(std::strtold(s, nullptr)); } };
	template<> struct reader<std::complex<double>> { static std::complex<double> get(const char* s) { return std::strtod(s, nullptr); } };
	template<typename T> struct integer { static T get(const char* s) { return static_cast<T>(s[0] == '-' ? std::strtoll(s, nullptr, 10) : std::strtoull(s, nullptr, 10)); } };
	template<typename C> std::string plain_text(const C* s) { return narrow(s); }
}
"""

# @T the type, @R its reader, @S the text of the value (an ASCII literal), @C, @P as in C40, @G a supported type
FORMS = {
    # printing a value of the type: what is printed reads back as it
    "print": "const @T v = own::@R<@T>::get(\"@S\"); @C b[512]; const std::size_t n = floaxie::ftoa(v, b); b[n] = @C(); CHECK(own::@R<@T>::get(own::plain_text(b).c_str()) == v && !(own::@R<@T>::get(own::plain_text(b).c_str()) != v));",
    "print explicitly": "const @T v = own::@R<@T>::get(\"@S\"); @C b[512]; const std::size_t n = floaxie::ftoa<@T>(v, b); b[n] = @C(); CHECK(own::@R<@T>::get(own::plain_text(b).c_str()) == v);",
    "to_basic_string": "const @T v = own::@R<@T>::get(\"@S\"); const auto s = floaxie::to_basic_string<@T, @C>(v); CHECK(own::@R<@T>::get(own::plain_text(s.c_str()).c_str()) == v);",
    "to_string": "const @T v = own::@R<@T>::get(\"@S\"); const std::string s = floaxie::to_string(v); CHECK(own::@R<@T>::get(s.c_str()) == v);",
    "size": "const @T v = own::@R<@T>::get(\"@S\"); CHECK(floaxie::max_buffer_size<@T>() > std::strlen(\"@S\")); @C b[512]; CHECK(floaxie::ftoa(v, b) < floaxie::max_buffer_size<@T>());",
    # parsing a value of the type
    "parse": "const std::basic_string<@C> s = @P\"@S\"; @C* e; const @T v = floaxie::atof<@T>(s.c_str(), &e); CHECK(v == own::@R<@T>::get(\"@S\") && *e == @C());",
    "parse without end": "const std::basic_string<@C> s = @P\"@S\"; const @T v = floaxie::atof<@T>(s.c_str(), nullptr); CHECK(v == own::@R<@T>::get(\"@S\"));",
    "parse with a fallback": "const std::basic_string<@C> s = @P\"@S\"; @C* e; const @T v = floaxie::atof<@T>(s.c_str(), &e, [](const @C* p, @C** pe) -> @T { const std::string n = own::narrow(p); if (pe) *pe = const_cast<@C*>(p) + n.size(); return own::@R<@T>::get(n.c_str()); }); CHECK(v == own::@R<@T>::get(\"@S\"));",
    "from_string": "const @T v = floaxie::from_string<@T>(std::basic_string<@C>(@P\"@S\")); CHECK(v == own::@R<@T>::get(\"@S\"));",
}
# with supported values; @F, @V as in C40. The second one is the supported counterpart.
OTHERS = {
    "constant buffer": ("const @C b[64] = {}; floaxie::ftoa(@V, b); CHECK(false);", "@C b[64] = {}; floaxie::ftoa(@V, b); CHECK(own::equal(b, own::plain(@V)));"),
    "literal as buffer": ("floaxie::ftoa(@V, @P\"                                                     \"); CHECK(false);", "@C b[] = @P\"                                                     \"; floaxie::ftoa(@V, b); CHECK(own::equal(b, own::plain(@V)));"),
    "void buffer": ("@C b[64] = {}; floaxie::ftoa(@V, static_cast<void*>(b)); CHECK(own::equal(b, own::plain(@V)));", "@C b[64] = {}; floaxie::ftoa(@V, static_cast<@C*>(b)); CHECK(own::equal(b, own::plain(@V)));"),
    "string as buffer": ("std::basic_string<@C> b; floaxie::ftoa(@V, b); CHECK(b == floaxie::to_basic_string<@G, @C>(@V));", "@C b[64]; floaxie::ftoa(@V, b); CHECK(own::equal(b, own::plain(@V)));"),
    "text as value": ("@C b[64] = {}; floaxie::ftoa<@G>(\"1.5\", b); CHECK(own::equal(b, \"1.5\"));", "@C b[64] = {}; floaxie::ftoa<@G>(1.5, b); CHECK(own::equal(b, \"1.5\"));"),
    "pointer as value": ("@C b[64] = {}; @G v = @V; floaxie::ftoa(&v, b); CHECK(own::equal(b, own::plain(v)));", "@C b[64] = {}; @G v = @V; floaxie::ftoa(v, b); CHECK(own::equal(b, own::plain(v)));"),
    "end pointer to constant": ("const @C* const s = @S; const @C* e; CHECK(own::same<@G>(floaxie::atof<@G>(s, &e@F), @V) && e == s + @L);", "const @C* const s = @S; @C* e; CHECK(own::same<@G>(floaxie::atof<@G>(s, &e@F), @V) && e == s + @L);"),
    "end pointer of another character type": ("@O* e; floaxie::atof<@G>(@S, &e@F); CHECK(false);", "@C* e; floaxie::atof<@G>(@S, &e@F); CHECK(*e == @C());"),
    "end as a position": ("std::size_t e = 99; CHECK(own::same<@G>(floaxie::atof<@G>(@S, &e@F), @V) && e == @L);", "@C* e; CHECK(own::same<@G>(floaxie::atof<@G>(@S, &e@F), @V));"),
    "string as text": ("@C* e; CHECK(own::same<@G>(floaxie::atof<@G>(std::basic_string<@C>(@S), &e@F), @V));", "@C* e; CHECK(own::same<@G>(floaxie::atof<@G>(std::basic_string<@C>(@S).c_str(), &e@F), @V));"),
    "text through void": ("@C* e; CHECK(own::same<@G>(floaxie::atof<@G>(static_cast<const void*>(@S), &e@F), @V));", "@C* e; CHECK(own::same<@G>(floaxie::atof<@G>(static_cast<const @C*>(@S), &e@F), @V));"),
    "character as text": ("@C* e; CHECK(floaxie::atof<@G>(@C('1'), &e@F) == 1);", "const @C t[] = {'1', 0}; @C* e; CHECK(floaxie::atof<@G>(t, &e@F) == 1);"),
    "type left out": ("@C* e; const @G v = floaxie::atof(@S, &e@F); CHECK(own::same<@G>(v, @V));", "@C* e; const @G v = floaxie::atof<@G>(@S, &e@F); CHECK(own::same<@G>(v, @V));"),
    "fallback of another character type": ("@C* e; floaxie::atof<@G>(@H, &e, [](const @O*, @O**) -> @G { return 1; }); CHECK(false);", "@C* e; floaxie::atof<@G>(@H, &e, [](const @C*, @C**) -> @G { return 1; });"),
    "fallback without arguments": ("@C* e; floaxie::atof<@G>(@H, &e, []() -> @G { return 1; }); CHECK(false);", "@C* e; floaxie::atof<@G>(@H, &e, [](const @C*, @C**) -> @G { return 1; });"),
    "fallback without result": ("@C* e; floaxie::atof<@G>(@H, &e, [](const @C*, @C**) {}); CHECK(false);", "@C* e; floaxie::atof<@G>(@H, &e, [](const @C*, @C**) -> @G { return 1; });"),
    "fallback giving a string": ("@C* e; floaxie::atof<@G>(@H, &e, [](const @C*, @C**) { return std::string(\"1\"); }); CHECK(false);", "@C* e; floaxie::atof<@G>(@H, &e, [](const @C*, @C**) -> @G { return 1; });"),
    "fallback changing the text": ("@C* e; floaxie::atof<@G>(@H, &e, [](@C*, @C**) -> @G { return 1; }); CHECK(false);", "@C* e; floaxie::atof<@G>(@H, &e, [](const @C*, @C**) -> @G { return 1; });"),
    # there's no fallback for these; the text needs one
    "no fallback for char16_t": ("char16_t* e; CHECK(own::same<@G>(floaxie::atof<@G>(u@Q, &e), @X) && *e == 0);", "char16_t* e; CHECK(own::same<@G>(floaxie::atof<@G>(u@Q, &e, own::fallback<@G, char16_t>), @X) && *e == 0);"),
    "no fallback for char32_t": ("CHECK(own::same<@G>(floaxie::atof<@G>(U@Q, nullptr), @X));", "CHECK(own::same<@G>(floaxie::atof<@G>(U@Q, nullptr, own::fallback<@G, char32_t>), @X));"),
    "no fallback for std::u16string": ("CHECK(own::same<@G>(floaxie::from_string<@G>(std::u16string(u@Q)), @X));", "CHECK(own::same<@G>(floaxie::from_string<@G>(std::u16string(u@Q), own::fallback<@G, char16_t>), @X));"),
    "no fallback for unsigned char": ("const unsigned char s[] = @Q; unsigned char* e; CHECK(own::same<@G>(floaxie::atof<@G>(s, &e), @X) && *e == 0);", "const unsigned char s[] = @Q; unsigned char* e; CHECK(own::same<@G>(floaxie::atof<@G>(s, &e, own::fallback<@G, unsigned char>), @X) && *e == 0);"),
    "default fallback for char16_t named": ("char16_t* e; CHECK(own::same<@G>((floaxie::default_fallback<@G, char16_t>(u@Q, &e)), @X) && *e == 0);", "char* e; CHECK(own::same<@G>((floaxie::default_fallback<@G, char>(@Q, &e)), @X) && *e == 0);"),
    "default fallback for int named": ("char* e; CHECK((floaxie::default_fallback<int, char>(\"25\", &e)) == 25 && *e == 0);", "char* e; CHECK((floaxie::default_fallback<@G, char>(\"25\", &e)) == 25 && *e == 0);"),
}

def text_of(rnd, digits):
    if digits is None:
        return "%s%d.%s" % (rnd.choice(["", "-"]), rnd.randint(0, 99999), "".join(rnd.choice("0123456789") for _ in range(rnd.choice([1, 3, 14, 17])))) + rnd.choice(["", "", "e20", "e-20"])
    if digits == 0:
        return rnd.choice("01")
    return str(rnd.randint(0, 10 ** digits - 1))

def doubtful(rnd, width):
    """A text halfway between two values, or next to that: nobody can do without exact arithmetic."""
    if width == 64:
        m = rnd.randrange(1 << 53, 1 << 54) | 1 # halfway in units of the last place of 53 bits
    else:
        m = rnd.randrange(1 << 24, 1 << 25) | 1
    return "%d.%s" % (m, rnd.choice(["0", "00000000000000000000000001", "0000000001"]))

def generate(rnd):
    cxx, std = rnd.choice(CXX), rnd.choice(STDS[:1] + STDS)
    width = rnd.choice([64, 32])
    text, lit = value(rnd, width)
    hard = doubtful(rnd, width)
    c = {"cxx": cxx, "std": std, "width": width, "text": text, "value": lit, "hard": hard, "hard_value": literal(nearest(hard, width), width)}
    if rnd.random() < .55:
        t = rnd.choice(sorted(VALUES) + ["long double", "int"])
        c.update(form=rnd.choice(sorted(FORMS)), type=t, number=text_of(rnd, VALUES[t]), char=rnd.choice(["char", "char", "wchar_t"]))
    else:
        c.update(form=rnd.choice(sorted(OTHERS)), type="", number="", char=rnd.choice(sorted(CHARS)))
    return c

def code(c, supported):
    g, ch = TYPES[c["width"]], c["char"]
    if c["type"]:
        t = g if supported else c["type"]
        x = FORMS[c["form"]]
        reader = "reader" if supported or VALUES[c["type"]] is None else "integer"
        text = c["number"]
        # the supported counterpart gets the value as a double or float
        pairs = (("@T", t), ("@R", reader), ("@S", text), ("@C", ch), ("@P", CHARS[ch]))
    else:
        x = OTHERS[c["form"]][1 if supported else 0]
        explicit = ch in ("char16_t", "char32_t")
        pairs = (("@V", "(%s)" % c["value"]), ("@X", "(%s)" % c["hard_value"]), ("@Q", '"%s"' % c["hard"]), ("@H", CHARS[ch] + '"%s"' % c["hard"]), ("@S", CHARS[ch] + '"%s"' % c["text"]), ("@L", str(len(c["text"]))),
                 ("@F", ", own::functor<%s, %s>()" % (g, ch) if explicit else ""), ("@G", g), ("@P", CHARS[ch]), ("@O", "wchar_t" if ch == "char" else "char"), ("@C", ch))
    for k, v in pairs:
        x = x.replace(k, v)
    return x

def source(c, supported):
    return PRELUDE + OWN + "int main()\n{\n	" + code(c, supported).replace("; ", ";\n	") + "\n	return 0;\n}\n"

def build(run, c, text, d, name):
    src = os.path.join(d, name + ".cpp")
    with open(src, "w") as f:
        f.write(text)
    std = c["std"].replace("c++", "gnu++") # extended types
    return src[:-4], run.sh([c["cxx"], "-std=" + std, "-O0", "-w", "-I" + os.path.join(run.REPO, "include"), src, "-o", src[:-4]], timeout=300)

def attempt(run, c, d):
    """(what went wrong or None, class)"""
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    try:
        if c["type"]:
            probe, r = build(run, c, PRELUDE + OWN + "int main() { const %s v = own::%s<%s>::get(\"1\"); return v == own::%s<%s>::get(\"1\") ? 0 : 1; }\n" % ((c["type"],) + ("reader" if VALUES[c["type"]] is None else "integer", c["type"]) * 2), d, "probe")
            if r.returncode or run.sh([probe], timeout=60).returncode:
                return None, "the type doesn't exist here"
        exe, r = build(run, c, source(c, False), d, "call")
        if r.returncode == 0:
            try:
                q = run.sh([exe], timeout=60)
            except Exception as e: # doesn't end
                return "accepted, but doesn't end", "accepted"
            if q.returncode:
                return "accepted, but %s" % ("the result is wrong" if q.returncode == 1 else "exits with %d\n%s" % (q.returncode, q.stdout[-1500:])), "accepted"
        # a rejection, or acceptance, means something only when the counterpart works
        exe, s = build(run, c, source(c, True), d, "counterpart")
        if s.returncode or run.sh([exe], timeout=60).returncode:
            return None, "the counterpart fails"
        return None, "accepted and right" if r.returncode == 0 else "rejected"
    finally:
        shutil.rmtree(d, ignore_errors=True)

def describe(c):
    return "%s -std=%s: %s: %s" % (c["cxx"], c["std"], c["form"], code(c, False))

def check(run, args):
    prop = "C41"
    work = os.path.join(run.BUILD, "c41.d")
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    if args.replay:
        c = json.load(open(args.replay))["case"]
        bad, how = attempt(run, c, os.path.join(work, "replay"))
        print(describe(c))
        print(bad or how)
        if bad:
            print("VIOLATION property=%s replay=%s" % (prop, args.replay))
        return (1 if bad else 0), None
    total = max(16, int((240 if args.tier == "quick" else 9000) * args.scale))
    rnd = random.Random(args.seed * 1000003 + 41)
    cases = [generate(rnd) for _ in range(total)]
    # each form once at least
    forms = sorted(FORMS) + sorted(OTHERS)
    for i, c in enumerate(cases[:len(forms)]):
        while cases[i]["form"] != forms[i]:
            cases[i] = generate(rnd)
    stop, failures, seen, classes, samples = [], [], set(), {}, []
    def one(i):
        if stop:
            return None
        r = attempt(run, cases[i], os.path.join(work, "p%d" % i))
        if r[0]:
            stop.append(i)
        return (i,) + r
    evaluated = 0
    with ThreadPoolExecutor(args.jobs) as pool:
        for r in pool.map(one, range(total)):
            if r is None:
                continue
            i, bad, how = r
            evaluated += 1
            classes[how] = classes.get(how, 0) + 1
            classes[cases[i]["form"]] = classes.get(cases[i]["form"], 0) + 1
            if how in ("rejected", "accepted and right", "accepted"):
                key = code(cases[i], False) + cases[i]["cxx"] + cases[i]["std"]
                if key not in seen and len(samples) < 8 and len(seen) % 29 == 0:
                    samples.append(describe(cases[i]) + " [%s]" % how)
                seen.add(key)
            if bad:
                failures.append(i)
    if not failures and classes.get("the counterpart fails", 0) > total // 2:
        raise run.Broken("the supported calls don't compile or work")
    result = {"evaluations": evaluated, "distinct_nontrivial": len(seen), "rule": RULE, "samples": samples, "classes": classes,
              "assumptions": ["the installed GCC and Clang with libstdc++ only"]}
    if not failures:
        return 0, result
    c = cases[failures[0]]
    d = os.path.join(work, "shrink")
    bad, how = attempt(run, c, d)
    if not bad:
        raise run.Broken("a failure didn't come back: " + describe(c))
    # simplest configuration and values which still fail
    for change in ({"cxx": "g++"}, {"std": "c++14"}, {"width": 64, "text": "0.5", "value": "0.5", "hard": c["hard"] if c["width"] == 64 else "9007199254740993.0", "hard_value": c["hard_value"] if c["width"] == 64 else literal(nearest("9007199254740993.0", 64), 64)},
                   {"number": "1"} if c["type"] else {}, {"number": "0.1"} if c["type"] and VALUES[c["type"]] is None else {}, {"char": "char"}):
        q = dict(c, **change)
        if q != c and attempt(run, q, d)[0]:
            c = q
    bad, how = attempt(run, c, d)
    print("%s\n input: %s" % (bad, describe(c)))
    return run.violation(prop, "call", {"seed": args.seed, "index": failures[0], "case": c, "input": describe(c), "message": bad, "sources": [source(c, False)]}), result
