"""C21: the library built in many configurations, compared by one PBT binary."""
import itertools, json, os, shutil, sys
from concurrent.futures import ThreadPoolExecutor

QUICK = [
    # compiler, standard, flags
    ("g++", "c++17", "-O2"),
    ("g++", "c++14", "-O0"),
    ("g++", "c++14", "-O3 -DNDEBUG"),
    ("g++", "c++20", "-Os -funsigned-char"),
    ("g++", "c++23", "-O2 -DNDEBUG -funsigned-char"),
    ("g++", "gnu++17", "-O1 -fno-exceptions -fno-rtti"),
    ("g++", "gnu++14", "-O3 -march=x86-64-v3"),
    ("g++", "c++17", "-O2 -fwrapv -fno-strict-aliasing"),
    ("g++", "c++17", "-O3 -DNDEBUG -fsigned-char -fno-inline"),
    ("clang++", "c++14", "-O0 -DNDEBUG"),
    ("clang++", "c++14", "-O2 -funsigned-char"),
    ("clang++", "c++17", "-O2 -DNDEBUG"),
    ("clang++", "c++20", "-O1"),
    ("clang++", "c++20", "-O3 -DNDEBUG -march=x86-64-v3"),
    ("clang++", "c++23", "-O3 -funsigned-char"),
    ("clang++", "gnu++23", "-Os -DNDEBUG"),
]

EXTRA = [
    ("g++", "c++20", "-O2 -D_GLIBCXX_ASSERTIONS -D_FORTIFY_SOURCE=2"),
    ("g++", "gnu++20", "-O1 -D_GLIBCXX_DEBUG -fno-inline"),
    ("clang++", "gnu++14", "-O2 -fno-exceptions -fno-rtti -D_FORTIFY_SOURCE=2"),
    ("clang++", "c++17", "-O3 -ffp-contract=off -DNDEBUG -D_REENTRANT -pthread"),
    ("g++", "c++17", "-O3 -ffp-contract=off -flto -pthread"),
    ("g++", "c++20", "-O2 -DDEBUG -D_DEBUG -g -pg -fstack-protector-all"),
    ("clang++", "c++20", "-Oz -D_LIBCPP_DEBUG -fno-builtin"),
    ("g++", "c++14", "-O2 -fno-builtin -ftrapv -fstack-protector-strong"),
    ("g++", "gnu++17", "-O2 -mfpmath=387 -frounding-math -fsignaling-nans"),
    ("g++", "gnu++23", "-Og -g3 -fshort-enums -fno-threadsafe-statics -D_GLIBCXX_USE_CXX11_ABI=0"),
    ("clang++", "gnu++2c", "-O2 -fPIC -fvisibility=hidden -frounding-math -fshort-enums"),
    ("g++", "c++14", "-O2 -fno-math-errno -fno-trapping-math -fno-threadsafe-statics -fnon-call-exceptions -D_FILE_OFFSET_BITS=64"),
    ("clang++", "c++17", "-O2 -fno-math-errno -mno-sse4.2 -fno-signed-char -D_TIME_BITS=64 -D_FILE_OFFSET_BITS=64 -D_POSIX_C_SOURCE=200809L"),
    ("g++", "gnu++2b", "-O3 -funroll-loops -ftree-vectorize -mtune=native -fno-plt -U_GNU_SOURCE -fopenmp"),
]

def triples(c):
    f = c[2].split()
    opt = [x for x in f if x.startswith("-O")][-1]
    v = (c[0], c[1].replace("gnu", "c"), opt, "-DNDEBUG" in f, "-funsigned-char" in f)
    return set(itertools.combinations(enumerate(v), 3))

def quick():
    """Every combination of three of: compiler, standard, optimisation level, NDEBUG, signedness of char."""
    r = QUICK + EXTRA
    every = [(cxx, std, opt + nd + ch) for cxx, std, opt, nd, ch in itertools.product(("g++", "clang++"), ("c++14", "c++17", "c++20", "c++23"),
             ("-O0", "-O1", "-O2", "-O3", "-Os"), ("", " -DNDEBUG"), ("", " -funsigned-char"))]
    missing = set().union(*map(triples, every)) - set().union(*map(triples, r))
    while missing:
        best = max(every, key=lambda c: len(triples(c) & missing))
        r = r + [best]
        missing -= triples(best)
    return r

def thorough():
    r = [QUICK[0]]
    for cxx, std, opt, nd, ch in itertools.product(("g++", "clang++"), ("c++14", "c++17", "c++20", "c++23"),
            ("-O0", "-O1", "-O2", "-O3"), ("", " -DNDEBUG"), ("", " -funsigned-char")):
        c = (cxx, std, opt + nd + ch)
        if c not in r:
            r.append(c)
    return r + [q for q in quick() if q not in r]

def supported(flags):
    if "x86-64-v3" not in flags:
        return True
    try:
        info = open("/proc/cpuinfo").read()
    except OSError:
        return False
    return all(" " + f in info for f in ("avx2", "fma", "bmi2", "movbe"))

def check(run, args):
    prop = "C21"
    configs = [c for c in (quick() if args.tier == "quick" else thorough()) if supported(c[2])]
    work = os.path.join(run.BUILD, "c21.d")
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)

    def build(i):
        cxx, std, flags = configs[i]
        so = os.path.join(work, "b%03d.so" % i)
        cmd = [cxx, "-std=" + std] + flags.split() + ["-w", "-fPIC", "-shared", "-fvisibility=hidden", "-fvisibility-inlines-hidden", "-Wl,-Bsymbolic"]
        if cxx == "g++":
            cmd.append("-fno-gnu-unique")
        cmd += ["-I" + os.path.join(run.REPO, "include"), os.path.join(run.HERE, "c21_lib.cpp"), "-o", so]
        return so, " ".join(configs[i]), " ".join(cmd), run.sh(cmd)

    with ThreadPoolExecutor(args.jobs) as pool:
        done = list(pool.map(build, range(len(configs))))
    failed = [d for d in done if d[3].returncode]
    rule = "builds of the library in several configurations"
    if failed:
        print("%d of %d configurations don't compile" % (len(failed), len(done)))
        return run.not_compiling(prop, run.CompileError(failed[0][3].stdout, failed[0][2])), run.empty_result(rule)
    lst = os.path.join(work, "list")
    with open(lst, "w") as f:
        for so, name, _, _ in done:
            f.write(so + "\t" + name + "\n")
    try:
        path, _ = run.compile_harness(prop, libs=("-lgmp", "-ldl"))
    except run.CompileError as e:
        return run.not_compiling(prop, e), run.empty_result(rule)
    env = {"VERIF_BUILDS": lst}
    if args.replay:
        if json.load(open(args.replay)).get("prop") == "compile":
            print("compiles now")
            return 0, None
        return run.run_binary(prop, path, args, args.replay, env=env)
    if args.tier == "thorough":
        args.cap = min(args.cap, 1500)
    rc, result = run.run_binary(prop, path, args, env=env)
    if result:
        result["builds"] = [d[1] for d in done]
    return rc, result
