"""C22: generated programs which include the headers in any combination.

A case is a program: a list of translation units, each an ordered selection of
headers (of the library and of the standard library) and what is used of the
library, together with compiler, standard and flags. The oracle is that it
compiles, links, runs and that its main() finds the conversions right.
"""
import json, os, random, shutil, sys
from concurrent.futures import ThreadPoolExecutor

STD_HEADERS = ["<string>", "<vector>", "<cmath>", "<cstdlib>", "<iostream>", "<limits>", "<algorithm>", "<locale>", "<cstdio>", "<wchar.h>", "<math.h>", "<stdlib.h>"]
USES = ["print", "parse", "strings", "from", "wide", "custom", "readme", "none"]
NEEDS = {"print": ["ftoa.h"], "parse": ["atof.h"], "strings": ["ftoa.h"], "from": ["atof.h"], "wide": ["ftoa.h", "atof.h"], "custom": ["ftoa.h", "atof.h"], "readme": ["ftoa.h", "atof.h"], "none": []}
BODY = {
    "print": """	char b[floaxie::max_buffer_size<double>()];
	const auto n = floaxie::ftoa(-0.3, b);
	if (n != 4 || b[0] != '-' || b[1] != '0' || b[2] != '.' || b[3] != '3' || b[4] != 0) return 1;
	char f[floaxie::max_buffer_size<float>()];
	if (floaxie::ftoa(1.5f, f) != 3 || f[0] != '1' || f[1] != '.' || f[2] != '5' || f[3] != 0) return 2;
""",
    "parse": """	const char* s = "1.5e2x";
	char* e;
	const auto r = floaxie::atof<double>(s, &e);
	if (!(r.value == 150) || e != s + 5 || r.status != floaxie::conversion_status::success) return 3;
	const auto q = floaxie::atof<float>("1e99", nullptr);
	if (q.status != floaxie::conversion_status::overflow || !(q.value > 3e38f)) return 4;
	if (!(floaxie::atof<double>("0.500000000000000166533453693773481063544750213623046875", &e).value > 0.5)) return 5;
""",
    "strings": """	const auto s = floaxie::to_string(0.25);
	if (s.size() != 4 || s[3] != '5') return 6;
	if (floaxie::to_wstring(2.5f).size() != 3) return 7;
	if (floaxie::to_u16string(2.5f)[1] != u'.' || floaxie::to_u32string(2.5)[2] != U'5') return 8;
""",
    "from": """	const auto s = floaxie::from_string<double>(std::basic_string<char>("-12.5"));
	if (!(s.value == -12.5)) return 9;
	if (!(floaxie::from_string<float>(std::basic_string<wchar_t>(L"0.25")).value == 0.25f)) return 10;
""",
    "wide": """	wchar_t b[floaxie::max_buffer_size<float>()];
	floaxie::ftoa(0.1f, b);
	wchar_t* e;
	const auto r = floaxie::atof<float>(b, &e);
	if (!(r.value == 0.1f) || *e) return 11;
	if (floaxie::atof<double>(L"inf", &e).status != floaxie::conversion_status::success) return 12;
""",
    "custom": """	char16_t* e;
	const char16_t* s = u"0.500000000000000166533453693773481063544750213623046875x";
	const double d = floaxie::atof<double>(s, &e, [](const char16_t* t, char16_t** te) -> double { if (te) *te = const_cast<char16_t*>(t) + 2; return 7; });
	if (!(d == 7 && e == s + 2) && !(d > 0.5 && d < 0.6)) return 13;
	const char32_t* t = U"-25e-1.";
	char32_t* te;
	if (!(floaxie::atof<float>(t, &te, [](const char32_t*, char32_t**) -> float { return 7; }) == -2.5f) || te != t + 6) return 14;
	static_assert(floaxie::max_buffer_size<double>() > floaxie::max_buffer_size<float>(), "");
	static char32_t b[floaxie::max_buffer_size<const double&>()];
	if (floaxie::ftoa(-1e-300, b) != 7 || b[0] != U'-' || b[2] != U'e' || b[7] != 0) return 15;
	if (floaxie::to_basic_string<float, char16_t>(0.5f) != u"0.5") return 16;
""",
    "readme": """	using namespace std;
	using namespace floaxie;
	char buffer[128];
	ftoa(0.1, buffer);
	if (buffer[2] != '1' || buffer[3] != 0) return 17;
	char str[] = "0.1";
	char* str_end;
	double pi = 0;
	pi = atof<double>(str, &str_end);
	if (!(pi == 0.1) || str_end != str + 3) return 18;
	const auto w = from_string<float>(string("2.5"));
	if (!(w.value == 2.5f) || w.status != conversion_status::success) return 19;
""",
    "none": "",
}
# names the program may use for itself: none of them becomes a macro, or a global of another kind, by including a header
OWN_GLOBALS = """atof_status bit_size boundaries cached_power calculate_kappa_div check_errno choose_format convert_numerator count decimal_q decision default_fallback delta diy_fp
downsample eat_inf eat_nan exponent extract_fraction_digits fallback field_width fill_exponent format fraction grisu grisu2 half hidden_bit highest_bit huge_value integer_of_size
k_comp kappa krosh lg_2 mantissa mask max_buffer_size max_digits maximum_offset memwrap msb_value nth_bit parameters parse parse_digits parse_exponent parse_mantissa parts positive_part
powers_ten prettify print print_binary print_decimal print_scientific raised_bit result round_up seq_pow special speciality static_pow success underflow overflow to_string to_wstring from_string
truncation_error type_punning_cast value value_and_status wrap bits digits len pos str tmp threshold""".split()
OWN_LOCALS = OWN_GLOBALS + """A B C D E F I K M N P Q R S T U V W X Y Z a b c d e f g h i j k l m n o p q r s t u v w x y z abs alpha arr array base begin bool_ buffer ch dest div dot end ep f1 first fmt frac gamma
hi index inf len_ length lo log10 max mi min nan neg one p1 p2 pair pl pow power rest ret rhs round second sign size src status str_end swap table tail term text total type vector w_m w_p zero
likely unlikely force_inline""".split()
OWN_LOCALS = sorted(set(OWN_LOCALS))
# when a unit uses the library: in main(), during the initialisation of its globals, in their destructors
WHEN = ["main", "main", "before", "after"]
FLAGS = ["-O0", "-O0 -pedantic-errors", "-O0 -DNDEBUG", "-O0 -fno-exceptions", "-O1 -pedantic-errors", "-O0 -Wall -Wextra -pedantic-errors"]
RULE = ("programs of 1..4 translation units, each with an ordered selection (1..8, repetitions allowed) of the library's headers mixed with standard ones and uses of printing and parsing in main(), during the initialisation of globals or in their destructors, and names of the program's own, "
        "GCC or Clang, C++14..C++23, several flag sets; compiled, linked and executed; non-trivial: more than one translation unit uses the library, or the first header is not ftoa.h or atof.h")

def headers(run):
    d = os.path.join(run.REPO, "include", "floaxie")
    r = []
    for base, _, files in os.walk(d):
        for f in files:
            if f.endswith((".h", ".hpp")):
                r.append(os.path.relpath(os.path.join(base, f), d))
    return sorted(r)

CXX = ["g++", "clang++"]
STDS = ["c++14", "c++17", "c++20", "c++23"]

def generate(rnd, hs, alone, config=None):
    units = []
    if alone is not None: # every header on its own, in two units
        n = 2
    else:
        n = rnd.choice([1, 2, 2, 2, 3, 4])
    for i in range(n):
        if alone is not None:
            inc = [alone]
            use = ["none"] if alone not in ("ftoa.h", "atof.h") else rnd.choice([["print", "strings"] if alone == "ftoa.h" else ["parse", "from"]])
        else:
            inc = [rnd.choice(hs) for _ in range(rnd.randint(1, 8))]
            use = rnd.sample(USES, rnd.randint(1, 3))
            for u in use:
                for h in NEEDS[u]:
                    if h not in inc:
                        inc.insert(rnd.randint(0, len(inc)), h)
            for _ in range(rnd.choice([0, 0, 1, 2])):
                inc.insert(rnd.randint(0, len(inc)), rnd.choice(STD_HEADERS))
        units.append({"includes": inc, "uses": sorted(set(use)), "when": rnd.choice(WHEN), "names": "" if "readme" in use else rnd.choice(["", "before", "after"])})
    cxx, std = config or (rnd.choice(CXX), rnd.choice(STDS[:1] + STDS))
    return {"units": units, "cxx": cxx, "std": std, "flags": rnd.choice(FLAGS)}

def source(unit, i):
    s = ""
    # the names declared by the program, in front of the headers or behind them
    own = "namespace { int %s; }\n" % ", ".join("%s = %d" % (x, k) for k, x in enumerate(OWN_GLOBALS))
    own += "int names%d();\nint names%d()\n{\n	int accumulated_ = %s;\n	int %s;\n	return accumulated_ + %s;\n}\n" % (i, i, " + ".join("::" + x for x in OWN_GLOBALS), ", ".join("%s = %d" % (x, -k) for k, x in enumerate(OWN_LOCALS)), " + ".join(OWN_LOCALS))
    names = unit.get("names")
    if names == "before":
        s += own
    for h in unit["includes"]:
        s += "#include %s\n" % (h if h.startswith("<") else "<floaxie/%s>" % h)
    if names == "after":
        s += own
    s += "int unit%d()\n{\n" % i
    for u in unit["uses"]:
        s += "	{\n" + "".join("	" + l + "\n" for l in BODY[u].rstrip("\n").split("\n") if l) + "	}\n"
    if names:
        s += "	if (names%d() != %d) return 30;\n" % (i, sum(range(len(OWN_GLOBALS))) - sum(range(len(OWN_LOCALS))))
    s += "	return 0;\n}\n"
    when = unit.get("when", "main")
    if when == "before":
        s += "extern int early%d;\nint early%d = unit%d();\n" % (i, i, i)
    elif when == "after":
        s += "void ended(int, int);\nnamespace { struct last_use { ~last_use() { ended(%d, unit%d()); } } last; }\n" % (i, i)
    return s

def attempt(run, prog, d):
    """None, if it's fine; otherwise what went wrong."""
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    base = [prog["cxx"], "-std=" + prog["std"]] + prog["flags"].split()
    objs = []
    n = len(prog["units"])
    files = [source(u, i) for i, u in enumerate(prog["units"])]
    early = [i for i, u in enumerate(prog["units"]) if u.get("when") == "before"]
    main = "#include <cstdio>\n#include <unistd.h>\n" + "".join("int unit%d();\n" % i for i in range(n)) + "".join("extern int early%d;\n" % i for i in early)
    main += "void ended(int, int);\nvoid ended(int i, int r)\n{\n	if (r) { std::printf(\"unit %d: check %d failed after main\\n\", i, r); std::fflush(stdout); _exit(1); }\n}\n"
    main += "int main()\n{\n	int r;\n"
    main += "".join("	if (early%d) { std::printf(\"unit %d: check %%d failed before main\\n\", early%d); return 1; }\n" % (i, i, i) for i in early)
    main += "".join("	if ((r = unit%d()) != 0) { std::printf(\"unit %d: check %%d failed\\n\", r); return 1; }\n" % (i, i) for i in range(n)) + "	return 0;\n}\n"
    files.append(main)
    try:
        for i, text in enumerate(files):
            src = os.path.join(d, "u%d.cpp" % i)
            with open(src, "w") as f:
                f.write(text)
            r = run.sh(base + ["-I" + os.path.join(run.REPO, "include"), "-c", src, "-o", src[:-4] + ".o"], timeout=300)
            if r.returncode:
                return "doesn't compile: unit %d\n%s" % (i, r.stdout[-3000:])
            objs.append(src[:-4] + ".o")
        exe = os.path.join(d, "program")
        r = run.sh([prog["cxx"]] + objs + ["-o", exe], timeout=300)
        if r.returncode:
            return "doesn't link\n" + r.stdout[-3000:]
        r = run.sh([exe], timeout=120)
        if r.returncode:
            return "runs wrong, exit code %d\n%s" % (r.returncode, r.stdout[-3000:])
        return None
    finally:
        shutil.rmtree(d, ignore_errors=True)

def shrink(run, prog, d):
    import copy
    tries = 0
    progress = True
    while progress and tries < 120:
        progress = False
        cands = []
        for i in range(len(prog["units"])):
            if len(prog["units"]) > 1:
                p = copy.deepcopy(prog); del p["units"][i]; cands.append(p)
        for i, u in enumerate(prog["units"]):
            for k in range(len(u["uses"])):
                p = copy.deepcopy(prog); del p["units"][i]["uses"][k]; cands.append(p)
            for k, h in enumerate(u["includes"]):
                p = copy.deepcopy(prog); del p["units"][i]["includes"][k]
                v = p["units"][i]
                if all(x in v["includes"] for n in v["uses"] for x in NEEDS[n]):
                    cands.append(p)
            if u.get("names"):
                p = copy.deepcopy(prog); p["units"][i]["names"] = ""; cands.append(p)
            if u.get("when", "main") != "main":
                p = copy.deepcopy(prog); p["units"][i]["when"] = "main"; cands.append(p)
        for f in ("-O0", "-O0 -pedantic-errors"):
            if prog["flags"] != f and prog["flags"] != "-O0":
                p = copy.deepcopy(prog); p["flags"] = f; cands.append(p)
        for p in cands:
            tries += 1
            if attempt(run, p, d):
                prog = p
                progress = True
                break
            if tries >= 120:
                break
    return prog

def describe(prog):
    return "%s -std=%s %s: " % (prog["cxx"], prog["std"], prog["flags"]) + "; ".join("[%s] uses %s%s" % (", ".join(u["includes"]), "+".join(u["uses"]) or "nothing", {"before": " before main", "after": " after main"}.get(u.get("when"), "") + (" (own names %s)" % u["names"] if u.get("names") else "")) for u in prog["units"])

def check(run, args):
    prop = "C22"
    work = os.path.join(run.BUILD, "c22.d")
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    if args.replay:
        doc = json.load(open(args.replay))
        bad = attempt(run, doc["program"], os.path.join(work, "replay"))
        print(describe(doc["program"]))
        print(bad or "passes now")
        if bad:
            print("VIOLATION property=%s replay=%s" % (prop, args.replay))
        return (1 if bad else 0), None
    hs = headers(run)
    if not hs:
        raise run.Broken("no headers found")
    for cxx in ("g++", "clang++"):
        if not run.toolchain_works(cxx):
            raise run.Broken(cxx + " doesn't work")
    alone = [(h, (cxx, std)) for h in hs for cxx in CXX for std in STDS] * (1 if args.tier == "quick" else 6)
    total = int((len(alone) + (200 if args.tier == "quick" else 6000)) * args.scale)
    rnd = random.Random(args.seed * 1000003 + 22)
    programs = [generate(rnd, hs, *alone[i]) if i < len(alone) else generate(rnd, hs, None) for i in range(total)]
    # control: the same without the library has to work in every configuration used
    def control(c):
        return attempt(run, {"units": [{"includes": list(STD_HEADERS), "uses": [], "names": "before"}, {"includes": list(STD_HEADERS), "uses": [], "names": "after"}], "cxx": c[0], "std": c[1], "flags": c[2]}, os.path.join(work, "control-%s-%s-%d" % (c[0], c[1], FLAGS.index(c[2]))))
    configs = sorted(set((p["cxx"], p["std"], p["flags"]) for p in programs))
    with ThreadPoolExecutor(args.jobs) as pool:
        for c, bad in zip(configs, pool.map(control, configs)):
            if bad:
                raise run.Broken("the toolchain fails without the library: %s\n%s" % (c, bad))
        failures, evaluated, seen, nontrivial, samples, classes = [], 0, set(), 0, [], {}
        stop = []
        def one(i):
            if stop:
                return None
            bad = attempt(run, programs[i], os.path.join(work, "p%d" % i))
            if bad:
                stop.append(i)
            return (i, bad)
        for r in pool.map(one, range(total)):
            if r is None:
                continue
            i, bad = r
            evaluated += 1
            p = programs[i]
            key = json.dumps(p, sort_keys=True)
            using = sum(1 for u in p["units"] if u["uses"] and u["uses"] != ["none"])
            if key not in seen and (using > 1 or p["units"][0]["includes"][0] not in ("ftoa.h", "atof.h")):
                nontrivial += 1
                if len(samples) < 8:
                    samples.append(describe(p))
            seen.add(key)
            for l in set("used " + u["when"] for u in p["units"] if u["uses"] != ["none"]):
                classes[l] = classes.get(l, 0) + 1
            for l in set("own names " + u["names"] for u in p["units"] if u["names"]):
                classes[l] = classes.get(l, 0) + 1
            for l in (p["cxx"], p["std"], "%d units" % len(p["units"]), p["flags"]):
                classes[l] = classes.get(l, 0) + 1
            if bad:
                failures.append(i)
    result = {"evaluations": evaluated, "distinct_nontrivial": nontrivial, "rule": RULE, "samples": samples, "classes": classes, "headers": hs,
              "assumptions": ["the installed GCC and Clang with libstdc++ only"]}
    if not failures:
        return 0, result
    i = failures[0]
    d = os.path.join(work, "shrink")
    if not all(attempt(run, programs[i], d) for _ in range(3)):
        raise run.Broken("a failure of a program didn't come back: " + describe(programs[i]))
    small = shrink(run, programs[i], d)
    bad = attempt(run, small, d) or ""
    print("program %d fails\n input: %s\n%s" % (i, describe(small), bad))
    return run.violation(prop, "program", {"seed": args.seed, "index": i, "program": small, "input": describe(small), "message": bad,
                                           "sources": [source(u, k) for k, u in enumerate(small["units"])]}), result
