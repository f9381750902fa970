#!/usr/bin/env python3
"""Single-token mutants of the headers which compile and pass the existing tests, run through the checks.

  mutate.py OUT.jsonl [--files a.h,b.h] [--limit N] [--seed S] [--workers W] [--scale X] [--props C01,..] [--all]

Every line of OUT.jsonl is a mutant which survived the tests: the change and the exit codes of the checks
(stops at the first check which reports it, unless --all). A tool for finding gaps; no check uses it.
"""
import argparse, concurrent.futures as cf, glob, json, os, random, re, shutil, subprocess, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from plant import REPO, VERIF, SKIP_TESTS, sh

SKIP = {"powers_ten_single.h", "powers_ten_double.h", "integer_of_size.h"}
OPS = [("<=", "<"), (">=", ">"), ("==", "!="), ("!=", "=="), ("&&", "||"), ("||", "&&"), ("<<", ">>"), (">>", "<<"), ("+=", "-="), ("-=", "+="),
       ("++", "--"), ("--", "++"), ("|=", "&="), ("&=", "|="), ("/=", "*="), ("*=", "/="), ("%=", "/="), ("<<=", ">>="), (">>=", "<<=")]
ORDER = "C01 C02 C03 C04 C06 C08 C12 C13 C26 C25 C33 C34 C14 C18 C09 C10 C16 C27 C30 C31 C05 C07 C11 C15 C17 C19 C24 C28 C29 C32 C21 C22 C20 C23".split()

def mutants(name, text):
    out = []
    incomment = False
    pos = 0
    for ln, line in enumerate(text.split("\n")):
        start = pos
        pos += len(line) + 1
        s = line.strip()
        if incomment:
            if "*/" in s: incomment = False
            continue
        if s.startswith("/*"):
            if "*/" not in s: incomment = True
            continue
        if not s or s.startswith("//") or s.startswith("#") or s.startswith("template") or "static_assert" in s or s.startswith("assert"):
            continue
        code = line.split("//")[0]
        if code.count("'") > 30: # digits_lut
            continue
        def add(a, b, new, what):
            out.append((start + a, start + b, new, ln + 1, what))
        for m in re.finditer(r"<<=|>>=|<=|>=|==|!=|&&|\|\||<<|>>|\+=|-=|\+\+|--|\|=|&=|/=|\*=|%=", code):
            if m.group(0) in ("&&",) and re.search(r"(auto|>|\w)\s*&&\s*\w+\(", code) and "if" not in code and "?" not in code and "while" not in code and "return" not in code and "bool" not in code:
                continue
            for a, b in OPS:
                if m.group(0) == a: add(m.start(), m.end(), b, a + " -> " + b)
            if m.group(0) == "<=": add(m.start(), m.end(), "==", "<= -> ==")
            if m.group(0) in ("+=", "-=", "|="): add(m.start(), m.end(), "=", m.group(0) + " -> =")
        for m in re.finditer(r" ([-+*/%&|^<>]) ", code):
            c = m.group(1)
            for n in {"+": "-", "-": "+", "*": "+", "/": "*", "%": "/", "&": "|", "|": "&", "^": "|", "<": "<= >", ">": ">= <"}[c].split():
                add(m.start(1), m.end(1), n, c + " -> " + n)
        for m in re.finditer(r"(?<![\w.'\"])(\d+)(?![\w.'\"])", code):
            n = int(m.group(1))
            add(m.start(), m.end(), str(n + 1), "%d -> %d" % (n, n + 1))
            if n: add(m.start(), m.end(), str(n - 1), "%d -> %d" % (n, n - 1))
        for m in re.finditer(r"'(\\?.)'", code):
            if m.group(1) not in ("\\0",):
                add(m.start(), m.end(), "'?'", m.group(0) + " -> '?'")
            else:
                add(m.start(), m.end(), "'0'", m.group(0) + " -> '0'")
        for a, b in (("true", "false"), ("false", "true"), ("min", "max"), ("max", "min"), ("first", "second"), ("second", "first"), ("underflow", "overflow"), ("overflow", "success"), ("success", "underflow"),
                     ("digits10", "digits"), ("digits", "digits10"), ("break", ""), ("continue", ""), ("positive_part", ""), ("noexcept", "")):
            for m in re.finditer(r"\b%s\b" % a, code):
                if a == "noexcept": continue
                add(m.start(), m.end(), b, a + " -> " + b)
        m = re.match(r"\s*(?:if|while) \((.*)\)\s*$", code)
        if m:
            add(m.start(1), m.end(1), "!(" + m.group(1) + ")", "negated")
            if code.strip().startswith("if"):
                add(m.start(1), m.end(1), "true", "if true")
                add(m.start(1), m.end(1), "false", "if false")
        m = re.match(r"\s*((?!return|typedef|using|const|auto|static|constexpr|struct|class|public|private|break|std::size_t \w+\(|bool \w+\()[\w*+\-(\[].*;)\s*$", code)
        if m and ("=" in code or "(" in code or "++" in code or "--" in code):
            add(m.start(1), m.end(1), ";", "deleted")
    return out

def build_tests(tree, scratch):
    """None if they pass."""
    inc = os.path.join(tree, "include")
    names = [os.path.basename(s)[:-4] for s in sorted(glob.glob(os.path.join(tree, "test/*.cpp")))]
    names = [n for n in names if n not in SKIP_TESTS]
    for n in names:
        exe = os.path.join(scratch, "t_" + n)
        r = sh(["g++", "-std=c++14", "-O1", "-w", "-I", inc, os.path.join(tree, "test", n + ".cpp"), "-o", exe])
        if r.returncode:
            return n + " doesn't compile"
        try:
            r = sh(["timeout", "20", exe], cwd=scratch)
        finally:
            os.unlink(exe)
        if r.returncode:
            return n + " fails"
    return None

def work(job):
    name, mut, args = job
    a, b, new, ln, what = mut
    scratch = tempfile.mkdtemp(prefix="mut.", dir="/tmp")
    try:
        tree = os.path.join(scratch, "repo")
        os.makedirs(tree)
        shutil.copytree(os.path.join(REPO, "include"), os.path.join(tree, "include"))
        shutil.copytree(os.path.join(REPO, "test"), os.path.join(tree, "test"))
        path = os.path.join(tree, "include/floaxie", name)
        text = open(path).read()
        mutated = text[:a] + new + text[b:]
        open(path, "w").write(mutated)
        line = mutated.split("\n")[ln - 1].strip()
        rec = {"file": name, "line": ln, "what": what, "text": line}
        bad = build_tests(tree, scratch)
        if bad:
            rec["tests"] = bad
            return rec
        rec["checks"] = {}
        env = dict(os.environ, VERIF_REPO=tree, VERIF_OUT=os.path.join(scratch, "out"))
        for p in args.order:
            try:
                r = sh([sys.executable, os.path.join(VERIF, "harness/run.py"), p, "--scale", str(args.scale), "--jobs", "2"], env=env, timeout=600)
                rc = r.returncode
            except subprocess.TimeoutExpired:
                rc = -99
            rec["checks"][p] = rc
            if rc == 1 and not args.all:
                break
        return rec
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

if __name__ == "__main__":
    ap = argparse.ArgumentParser()
    ap.add_argument("out")
    ap.add_argument("--files")
    ap.add_argument("--limit", type=int)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--workers", type=int, default=4)
    ap.add_argument("--scale", type=float, default=0.05)
    ap.add_argument("--props")
    ap.add_argument("--skip", type=int, default=0)
    ap.add_argument("--all", action="store_true")
    ap.add_argument("--dry", action="store_true")
    args = ap.parse_args()
    args.order = args.props.split(",") if args.props else ORDER
    jobs = []
    for path in sorted(glob.glob(os.path.join(REPO, "include/floaxie/*.h"))):
        n = os.path.basename(path)
        if n in SKIP or (args.files and n not in args.files.split(",")):
            continue
        text = open(path).read()
        for m in mutants(n, text):
            jobs.append((n, m, args))
    print(len(jobs), "mutants")
    random.Random(args.seed).shuffle(jobs)
    jobs = jobs[args.skip:]
    if args.limit:
        jobs = jobs[:args.limit]
    if args.dry:
        for n, m, _ in jobs: print(n, m)
        sys.exit()
    killed = 0
    with open(args.out, "w") as f, cf.ThreadPoolExecutor(args.workers) as ex:
        for r in ex.map(work, jobs):
            if "tests" in r:
                killed += 1
            f.write(json.dumps(r) + "\n")
            f.flush()
    print("killed by the tests:", killed)
