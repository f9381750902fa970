"""Coverage-guided stage: libFuzzer makes the choices of the property functions of a harness.

The harness is built once more, by clang with coverage instrumentation of the library's functions only, and each
of its properties is driven by libFuzzer instead of the random generator: the bytes of an input are the choices.
The corpus starts with random cases. A failing input is handed to the ordinary build of the harness, which
confirms, shrinks and reports it.
"""
import base64, json, os, re, shutil, subprocess
from concurrent.futures import ThreadPoolExecutor

ALLOW = "src:*\nfun:*floaxie*\n"

# executions of each of the (at least 8) jobs of the quick tier; the thorough one has 40 times as many
RUNS = {p: 500000 for p in "C01 C02 C04 C05 C06 C07 C08 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C25 C26 C27 C28 C29 C30 C31 C32 C33 C34 C35 C42".split()}
RUNS["C37"] = 80000 # sequences are long
RUNS["C38"] = 100000 # every input is converted many times

def build(run, prop, skipped):
    work = os.path.join(run.BUILD, prop.lower() + ".guided")
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    with open(os.path.join(work, "allow"), "w") as f:
        f.write(ALLOW)
    d = run.sh(["clang++", "-print-runtime-dir"]).stdout.strip()
    libs = [os.path.join(x, "libclang_rt.fuzzer_no_main" + y) for x in (d, os.path.join(os.path.dirname(d), "linux")) for y in ("-x86_64.a", ".a")]
    libs = [x for x in libs if os.path.exists(x)]
    if not libs:
        return work, None, "libFuzzer without a main function isn't there"
    path = os.path.join(work, "harness")
    flags = [x for x in run.FLAGS.get(prop, []) if x.startswith("-f")]
    r = run.sh(["clang++", "-std=c++17", "-g1", "-w", "-O1", "-fno-inline", "-DPBT_GUIDED"] + flags + ["-fsanitize=fuzzer-no-link", "-fsanitize-coverage-allowlist=" + os.path.join(work, "allow"),
                "-I" + os.path.join(run.REPO, "include"), "-I" + run.HERE] + ["-D" + s for s in skipped] + [os.path.join(run.HERE, prop.lower() + ".cpp"), "-o", path, libs[0], "-lgmp", "-lpthread"])
    return work, (path if r.returncode == 0 else None), r.stdout[-3000:]

ENV = {"ASAN_OPTIONS": "detect_leaks=0", "UBSAN_OPTIONS": "print_stacktrace=1"}

def choices(path):
    import array
    a = array.array("Q")
    with open(path, "rb") as f:
        n = int.from_bytes(f.read(8), "little")
        a.frombytes(f.read(8 * n))
    return a.tolist()

def one_input(run, work, path, prop, index, data, name="one"):
    """Runs a single input of the guided build; returns (failed, output, choices)."""
    d = os.path.join(work, name)
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, "input"), "wb") as f:
        f.write(data)
    try:
        r = run.sh([path, "--id", prop, "--guided", str(index), d, os.path.join(d, "input")], env=dict(os.environ, **ENV), cwd=d, timeout=120)
    except subprocess.TimeoutExpired:
        return True, "does not terminate", choices(os.path.join(d, "choices"))
    return r.returncode != 0, r.stdout, choices(os.path.join(d, "choices"))

def stage(run, prop, args, ordinary, skipped, replay=None, built=None):
    """Returns (exit code, statistics); with a replay file made by this stage, replays it."""
    work, path, log = built if built and (built[1] or not skipped) else build(run, prop, skipped)
    if not path:
        if replay:
            raise run.Broken("the guided build fails: " + log)
        return 0, {"left_out": "the guided build fails: " + log[-400:]}
    names = [x for x in run.sh([path, "--props"]).stdout.split("\n") if x]
    if replay:
        doc = json.load(open(replay))
        index = names.index(doc["prop"])
        if "job" in doc:
            args.seed = doc["seed"]
            res = [run_job(run, work, path, prop, args, index, doc["job"], doc["runs"])]
            bad = res[0]["rc"] not in (0, None)
            print(res[0]["out"][-2000:])
        else:
            bad, out, _ = one_input(run, work, path, prop, index, base64.b64decode(doc["data"]))
            print(out[-3000:])
        if bad:
            print("VIOLATION property=%s replay=%s" % (prop, replay))
        return (1 if bad else 0), None
    runs = max(1000, int(RUNS[prop] * args.scale * (40 if args.tier == "thorough" else 1)))
    per = -(-8 // len(names))
    jobs = [(i, j) for j in range(per) for i in range(len(names))]
    with ThreadPoolExecutor(args.jobs) as pool:
        res = list(pool.map(lambda x: run_job(run, work, path, prop, args, x[0], x[1], runs), jobs))
    stats = {"jobs": len(res), "executions": sum(r["runs"] for r in res), "nontrivial": sum(r["nontrivial"] for r in res), "inputs_kept": sum(r["new"] for r in res),
             "edges": {n: max(r["cov"] for r in res if r["index"] == i) for i, n in enumerate(names)},
             "left_out": sorted({"%s: %s" % (names[r["index"]], r["skipped"]) for r in res if r["skipped"]})}
    for r in res:
        if r["rc"] == 78 or (r["rc"] and not r["failed"]):
            raise run.Broken("the guided stage ended with %s\n%s" % (r["rc"], r["out"][-2000:]))
    for r in res:
        if not r["rc"]:
            continue
        name = names[r["index"]]
        print("%s/%s: the guided search found: %s" % (prop, name, r["failed"][:600]))
        found = os.path.join(work, "found")
        with open(found, "w") as f:
            f.write(name + "\n" + " ".join(map(str, r["choices"])) + "\n")
        rc = subprocess.run([ordinary, "--id", prop, "--seed", str(args.seed), "--replay-dir", run.REPLAY, "--found", found]).returncode
        if rc == 1:
            return 1, stats
        if r["data"] is not None and all(one_input(run, work, path, prop, r["index"], r["data"])[0] for _ in range(3)):
            return run.violation(prop, name, {"guided": True, "data": base64.b64encode(r["data"]).decode(), "message": r["failed"], "note": "fails in the build by clang only"}), stats
        again = run_job(run, work, path, prop, args, r["index"], r["job"], runs)
        if again["rc"]:
            return run.violation(prop, name, {"guided": True, "job": r["job"], "runs": runs, "seed": args.seed, "message": again["failed"], "note": "fails after other inputs in the same process only"}), stats
        raise run.Broken("a failure of the guided search didn't come back: " + r["failed"])
    return 0, stats

def run_job(run, work, path, prop, args, index, job, runs):
    d = os.path.join(work, "p%d_%d" % (index, job))
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(os.path.join(d, "corpus"))
    limit = max(20, int(min(args.cap / 4, 900)))
    out = os.path.join(d, "log")
    timed_out = False
    with open(out, "wb") as f:
        try:
            rc = subprocess.run([path, "--id", prop, "--seed", str(args.seed), "--guided", str(index), d, str(job), str(runs), str(limit)], env=dict(os.environ, **ENV), cwd=d, stdout=f, stderr=f, timeout=limit + 200).returncode
        except subprocess.TimeoutExpired:
            rc, timed_out = None, True
    text = open(out, errors="replace").read()
    num = lambda k: int((re.findall(k + r":\s*(\d+)", text) or ["0"])[-1])
    art = sorted(f for f in os.listdir(d) if f.startswith(("crash-", "timeout-", "oom-", "leak-")))
    r = {"index": index, "job": job, "rc": rc, "out": text[-6000:], "runs": num("number_of_executed_units"), "nontrivial": num("GUIDED NONTRIVIAL"), "new": num("new_units_added"),
         "cov": max([int(x) for x in re.findall(r"cov: (\d+)", text)] or [0]), "skipped": (re.findall(r"GUIDED SKIPPED: (.*)", text) or [""])[0], "failed": "", "data": None, "choices": []}
    if timed_out:
        r["skipped"] = "cut by time"
    if rc:
        m = re.search(r"GUIDED FAILURE (.*)", text) or re.search(r"((?:ERROR:|SUMMARY:|.*runtime error|.*Assertion).*)", text)
        if m or art:
            r["failed"] = m.group(1) if m else art[0]
            r["choices"] = choices(os.path.join(d, "choices"))
            if art:
                r["data"] = open(os.path.join(d, art[0]), "rb").read()
    shutil.rmtree(os.path.join(d, "corpus"), ignore_errors=True)
    return r
