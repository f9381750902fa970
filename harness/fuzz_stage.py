"""Coverage-guided campaign with the target of fuzz.cpp, used by C03 and C09."""
import base64, json, os, re, shutil, subprocess
from concurrent.futures import ThreadPoolExecutor

SEEDS = ["", "1", "0.1", "-1.5e10", "1e400", "1e-400", "4.9e-324", "1.17549435e-38", "inf", "-infinity", "nan(abc_1)", "123456789012345678901234567890", "0.500000000000000166533453693773481063544750213623046875", "1.e+", ".5E-3x", "+00000.00000e5", "9007199254740993", "16777217", "1.7976931348623159e308", "3.4028236e38"]
DICT = ["e", "E+", "e-", ".", "inf", "infinity", "INFINITY", "nan", "nan(", ")", "_", "000000000000", "999999999999", "e308", "e-324", "e38", "e-45", "5000000000000000", "e4294967296", "e2147483648", "e-2147483649"]

def campaign(run, args, prop, semantic, runs, jobs):
    """Returns (exit code, statistics)."""
    work = os.path.join(run.BUILD, prop.lower() + ".fuzz")
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    flags = ["-O1", "-fsanitize=fuzzer"] if semantic else ["-O1", "-fsanitize=fuzzer,address,undefined", "-fno-sanitize-recover=undefined"]
    path, _ = run.compile_harness(prop, src=os.path.join(run.HERE, "fuzz.cpp"), flags=flags + (["-DSEMANTIC"] if semantic else []), out=os.path.join(run.BUILD, prop.lower() + "-fuzz"), cxx="clang++")
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0")
    def execute(data, name):
        p = os.path.join(work, name)
        with open(p, "wb") as f:
            f.write(data)
        return run.sh([path, "-timeout=30", "-rss_limit_mb=4000", p], env=env, cwd=work)
    if args.replay:
        data = base64.b64decode(json.load(open(args.replay))["data"])
        r = execute(data, "replay")
        print(r.stdout[-4000:])
        if r.returncode:
            print("VIOLATION property=%s replay=%s" % (prop, args.replay))
        return (1 if r.returncode else 0), None
    with open(os.path.join(work, "dict"), "w") as f:
        for d in DICT:
            f.write('"%s"\n' % d)
    def one(j):
        d = os.path.join(work, "j%d" % j)
        os.makedirs(os.path.join(d, "corpus"))
        if j % 2 == 0: # the other half starts from nothing
            for i, s in enumerate(SEEDS):
                for t in range(6):
                    with open(os.path.join(d, "corpus", "s%d_%d" % (i, t)), "wb") as f:
                        f.write(bytes([t]) + s.encode())
        cmd = [path, "-seed=%d" % (args.seed * 131 + j + 1), "-runs=%d" % runs, "-max_len=%d" % (96 if j % 4 < 2 else 900), "-timeout=30", "-rss_limit_mb=3000", "-print_final_stats=1",
               "-use_value_profile=%d" % (j % 3 == 0), "-artifact_prefix=" + d + "/", "-dict=" + os.path.join(work, "dict"), "corpus"]
        try:
            r = run.sh(cmd, env=env, cwd=d, timeout=args.cap)
        except subprocess.TimeoutExpired:
            return j, None, 0, 0, 0, []
        num = lambda k: int((re.findall(k + r":\s*(\d+)", r.stdout) or ["0"])[-1])
        cov = max([int(x) for x in re.findall(r"cov: (\d+)", r.stdout)] or [0])
        art = [os.path.join(d, f) for f in sorted(os.listdir(d)) if f.startswith(("crash-", "timeout-", "oom-", "leak-"))]
        return j, r, num("number_of_executed_units"), num("new_units_added"), cov, art
    with ThreadPoolExecutor(args.jobs) as pool:
        res = list(pool.map(one, range(jobs)))
    stats = {"jobs": jobs, "executions": sum(r[2] for r in res), "new_units": sum(r[3] for r in res), "edges": max(r[4] for r in res), "cut_by_time": sum(1 for r in res if r[1] is None),
             "samples": []}
    for j in range(min(2, jobs)):
        d = os.path.join(work, "j%d" % j, "corpus")
        files = sorted(f for f in os.listdir(d) if not f.startswith("s"))[:3]
        stats["samples"] += ["libFuzzer: " + repr(open(os.path.join(d, f), "rb").read()[:120]) for f in files]
    bad = [a for r in res for a in r[5]]
    broken = [r for r in res if r[1] is not None and r[1].returncode and not r[5]]
    if not bad:
        if broken:
            raise run.Broken("libFuzzer ended with %d\n%s" % (broken[0][1].returncode, broken[0][1].stdout[-2000:]))
        return 0, stats
    data = min((open(a, "rb").read() for a in bad), key=len)
    def fails(x):
        return execute(x, "try").returncode != 0
    if not all(fails(data) for _ in range(3)):
        raise run.Broken("a failure found by libFuzzer didn't come back")
    budget = 400
    progress = True
    while progress and budget > 0: # delete bytes, then simplify them
        progress = False
        n = max(1, len(data) // 2)
        while n >= 1 and budget > 0:
            i = 1
            while i + n <= len(data) and budget > 0:
                budget -= 1
                x = data[:i] + data[i + n:]
                if fails(x):
                    data = x
                    progress = True
                else:
                    i += n
            n //= 2
    for i in range(1, len(data)):
        for ch in (b"0", b"1"):
            if data[i:i + 1] not in (b"0", b"1", ch) and budget > 0:
                budget -= 1
                x = data[:i] + ch + data[i + 1:]
                if fails(x):
                    data = x
                    break
    r = execute(data, "final")
    lines = [l for l in r.stdout.splitlines() if "FUZZ FAILURE" in l or "ERROR:" in l or "runtime error" in l or "Assertion" in l]
    print("libFuzzer found %r\n%s" % (data, "\n".join(lines[:5])))
    return run.violation(prop, "fuzz", {"seed": args.seed, "data": base64.b64encode(data).decode(), "input": repr(data), "message": "\n".join(lines[:20])}), stats

def combined(run, args, prop, semantic, runs, jobs):
    """The PBT harness of the property, then the campaign."""
    try:
        if args.replay:
            kind = json.load(open(args.replay)).get("prop")
            if kind == "fuzz":
                return campaign(run, args, prop, semantic, 0, 0)
            return run.plain(prop, args)
        rc, result = run.plain(prop, args)
        if rc:
            return rc, result
        n = max(1, int(runs * args.scale))
        rc, stats = campaign(run, args, prop, semantic, n, jobs)
    except run.CompileError as e:
        return run.not_compiling(prop, e), run.empty_result("compilation failed")
    result["libfuzzer"] = stats
    result["samples"] = result["samples"][:18] + stats.pop("samples")
    result["evaluations"] += stats["executions"]
    result["distinct_nontrivial"] += stats["new_units"]
    result["rule"] += "; in addition a coverage-guided libFuzzer campaign over raw bytes, whose non-trivial cases are the inputs reaching new coverage"
    return rc, result
