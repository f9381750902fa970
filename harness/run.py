#!/usr/bin/env python3
"""Builds and runs the check of one property (or replays a saved failure).

  run.py C01 [--tier quick|thorough] [--seed N] [--scale X] [--replay FILE]

Exit 0: the property held on everything explored. Exit 1 and a VIOLATION line:
it is broken. Anything else: the check itself could not give an answer.
"""
import argparse, hashlib, importlib, json, os, re, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(os.environ.get("VERIF_OUT", VERIF), "build")
REPLAY = os.path.join(os.environ.get("VERIF_OUT", VERIF), "replay")
EVIDENCE = os.path.join(os.environ.get("VERIF_OUT", VERIF), "evidence")

ASAN = ["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"]
UBSAN = ["-O2", "-fsanitize=undefined", "-fno-sanitize-recover=undefined"]

# flags of the harness; the rest are built with -O2
FLAGS = {"C09": ASAN, "C14": ASAN, "C25": UBSAN, "C20": ["-O2", "-fsanitize=thread", "-pthread"],
         "C18": ["-O2", "-fchar8_t"], "C19": ["-O2", "-fchar8_t"],
         "C36": ["-O1", "-fsanitize-coverage=trace-pc-guard"], "C39": ["-O1", "-fsanitize-coverage=trace-pc-guard,trace-loads,trace-stores"]}
# the rest are built by GCC
COMPILER = {"C36": "clang++", "C39": "clang++"}
# the checks, which are not one PBT binary
CUSTOM = {"C03": "c03", "C09": "c09", "C21": "c21", "C22": "c22", "C23": "c23", "C40": "c40", "C41": "c41"}
# the properties about the building blocks; the rest go through the public interface
INTERNALS = {"C24", "C25", "C26", "C27", "C28", "C31", "C33", "C34", "C42"}
# what such a block is for, seen through the public interface: run when it isn't there under its name any more
STAND_IN = {"C24": "c11", "C25": "c01", "C26": "c02", "C27": "c11", "C31": "c01", "C33": "c11", "C34": "c01", "C42": "c08"}

# multiplies the numbers of cases of the quick tier, for about 20 s on 8 cores
QUICK_SCALE = {"C01": 2, "C03": 3, "C04": 5, "C05": 1.5, "C06": 2, "C07": 2, "C08": 3, "C10": 5, "C11": 5, "C12": 5, "C13": 6, "C14": 3,
               "C15": 6, "C16": 5, "C17": 4, "C18": 2.5, "C19": 2.5, "C20": 0.7, "C21": 0.4, "C23": 6, "C25": 4, "C26": 5, "C27": 6, "C28": 6, "C29": 2,
               "C30": 3, "C31": 10, "C32": 3, "C33": 5, "C34": 5, "C35": 2, "C36": 8, "C37": 2.5, "C38": 1.5, "C39": 0.7, "C42": 4, "C43": 4, "C45": 2, "C46": 3}

sys.path.insert(0, HERE)
import guided

class Broken(Exception):
    """The check cannot give an answer."""

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)

def known_findings(prop):
    """Entries of known-findings.txt which are not fixed: id of the finding -> text."""
    r = {}
    path = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line)
            if m and m.group(1) == prop:
                r[m.group(2)] = m.group(3)
    return r

def violation(prop, name, data):
    os.makedirs(REPLAY, exist_ok=True)
    path = os.path.join(REPLAY, prop + ".json")
    with open(path, "w") as f:
        json.dump(dict(data, property=prop, prop=name), f, indent=1)
    print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
    return 1

def toolchain_works(cxx):
    os.makedirs(BUILD, exist_ok=True)
    src = os.path.join(BUILD, "probe.cpp")
    with open(src, "w") as f:
        f.write("#include <string>\n#include <cstdio>\nint main() { std::puts(std::string(3, 'x').c_str()); }\n")
    return sh([cxx, "-std=c++17", src, "-o", os.path.join(BUILD, "probe")]).returncode == 0

def compile_harness(prop, src=None, flags=None, out=None, cxx=None, extra=(), libs=("-lgmp",)):
    """Compiles the harness of the property; returns (path, skipped parts)."""
    os.makedirs(BUILD, exist_ok=True)
    src = src or os.path.join(HERE, prop.lower() + ".cpp")
    out = out or os.path.join(BUILD, prop.lower())
    base = [cxx or COMPILER.get(prop, "g++"), "-std=c++17", "-g1", "-w"] + (flags or FLAGS.get(prop, ["-O2"])) + ["-I" + os.path.join(REPO, "include"), "-I" + HERE] + list(extra) + [src]
    r = sh(base + ["-o", out] + list(libs))
    if r.returncode == 0:
        return out, []
    log = r.stdout
    # parts about single helpers can be left out, if the helper is no longer there
    parts = re.findall(r"^#ifndef (SKIP_\w+)", open(src).read(), re.M)
    parts = sorted(set(parts))
    # those which don't compile even when they're alone
    gone = [x for x in parts if sh(base + ["-D" + s for s in parts if s != x] + ["-o", out] + list(libs)).returncode]
    if parts and len(gone) < len(parts) and sh(base + ["-D" + s for s in gone] + ["-o", out] + list(libs)).returncode == 0:
        print("left out, as the tree doesn't compile with them: %s" % ", ".join(gone), file=sys.stderr)
        return out, gone
    raise CompileError(log, " ".join(base))

class CompileError(Exception):
    pass

def not_compiling(prop, e):
    log, cmd = e.args
    print(log[-6000:], file=sys.stderr)
    if prop in INTERNALS:
        raise Broken("the building block this check is about is no longer there: " + cmd)
    if not toolchain_works("g++") or not toolchain_works("clang++"):
        raise Broken("the compiler doesn't work")
    print("a program which only uses the documented interface doesn't compile")
    return violation(prop, "compile", {"command": cmd, "log": log[-6000:], "input": cmd, "message": "doesn't compile"})

def run_binary(prop, path, args, replay=None, extra=(), env=None):
    out = os.path.join(BUILD, prop.lower() + ".json")
    if os.path.exists(out):
        os.unlink(out)
    os.makedirs(REPLAY, exist_ok=True)
    e = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0", UBSAN_OPTIONS="print_stacktrace=1",
             TSAN_OPTIONS="halt_on_error=1:exitcode=66")
    e.update(env or {})
    cmd = [path, "--id", prop, "--seed", str(args.seed), "--tier", args.tier, "--replay-dir", REPLAY, "--out", out,
           "--jobs", str(args.jobs), "--cap", str(args.cap), "--scale", str(args.scale * (QUICK_SCALE.get(prop, 1) if args.tier == "quick" else 1))] + list(extra)
    if replay:
        cmd += ["--replay", replay]
    r = subprocess.run(cmd, env=e)
    return r.returncode, (json.load(open(out)) if os.path.exists(out) else None)

def write_dictionary():
    """The literals of the headers, for the generators (gen.h)."""
    tokens = set()
    for base, _, files in os.walk(os.path.join(REPO, "include")):
        for f in sorted(files):
            text = open(os.path.join(base, f), errors="replace").read()
            text = re.sub(r"//[^\n]*|/\*.*?\*/", " ", text, flags=re.S)
            text = re.sub(r"^\s*#\s*include.*$", " ", text, flags=re.M)
            strings = re.findall(r'"((?:[^"\\\n]|\\.)+)"', text)
            text = re.sub(r'"(?:[^"\\\n]|\\.)*"', " ", text).replace("'", " ' ") if text.count("'") % 2 else re.sub(r"'(?:[^'\\\n]|\\.)+'", " ", re.sub(r'"(?:[^"\\\n]|\\.)*"', " ", text))
            numbers = re.findall(r"(?<![\w.])(0[xX][0-9a-fA-F]+|(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?)(?:[uUlLfF]*)(?![\w.])", text)
            numbers = sorted(set(numbers))
            tokens.update("#" + n for n in (numbers if len(numbers) <= 150 else numbers[::len(numbers) // 20])) # not all of a table
            tokens.update('"' + s for s in strings if 1 < len(s) <= 300 and all(32 <= ord(ch) < 127 for ch in s))
            tokens.update("#" + s for s in strings if re.fullmatch(r"\d{1,300}(\.\d{0,300})?|\d{1,300}(\.\d{0,300})?[eE][-+]?\d{1,4}", s))
    os.makedirs(BUILD, exist_ok=True)
    path = os.path.join(BUILD, "dictionary-%d.txt" % os.getpid())
    with open(path, "w") as f:
        f.write("".join(t + "\n" for t in sorted(tokens)[:4000]))
    os.environ["VERIF_DICTIONARY"] = path
    return path

def write_evidence(prop, args, result, rc, wall):
    os.makedirs(EVIDENCE, exist_ok=True)
    r = result
    coverage = {"evaluations": r["evaluations"], "distinct_nontrivial": r["distinct_nontrivial"], "rule": r["rule"],
                "samples": r["samples"][:24]}
    for k in r:
        if k not in coverage and k not in ("assumptions", "wall_s", "rc"):
            coverage[k] = r[k]
    doc = {"property": prop, "tier": args.tier, "seed": args.seed, "level": "exploration", "coverage": coverage,
           "assumptions": r.get("assumptions", []), "wall_s": round(wall, 2), "violations": 1 if rc == 1 else 0}
    path = os.path.join(EVIDENCE, prop + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(doc, f, indent=1)
    os.replace(path + ".tmp", path)

def empty_result(rule):
    return {"evaluations": 0, "distinct_nontrivial": 0, "rule": rule, "samples": []}

def plain(prop, args):
    stand_in = None
    wanted = prop in guided.RUNS and not args.replay
    early = ThreadPoolExecutor(1).submit(guided.build, sys.modules[__name__], prop, []) if wanted else None # at the same time as the ordinary build
    try:
        path, skipped = compile_harness(prop)
    except CompileError as e:
        if prop not in STAND_IN:
            return not_compiling(prop, e), empty_result("compilation failed")
        try:
            path, skipped = compile_harness(prop, src=os.path.join(HERE, STAND_IN[prop] + ".cpp"), flags=["-O2"])
        except CompileError:
            return not_compiling(prop, e), empty_result("compilation failed")
        stand_in = "the building block isn't there under its name; what it is for was checked through the public interface (%s)" % STAND_IN[prop]
        print(stand_in, file=sys.stderr)
    if args.replay:
        if json.load(open(args.replay)).get("guided"):
            return guided.stage(sys.modules[__name__], prop, args, path, skipped, args.replay)
        return run_binary(prop, path, args, args.replay)
    rc, result = (0, empty_result("guided search only")) if args.guided_only else run_binary(prop, path, args)
    if rc == 0 and result and not stand_in and wanted:
        rc, result["guided"] = guided.stage(sys.modules[__name__], prop, args, path, skipped, built=early.result())
    if result and skipped:
        result["left_out"] = skipped
    if result and stand_in:
        result["stand_in"] = stand_in
    return rc, result

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=None)
    ap.add_argument("--seed", type=int, default=None)
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--cap", type=float, default=None, help="seconds after which the run is cut")
    ap.add_argument("--jobs", type=int, default=max(1, min(8, os.cpu_count() or 1)))
    ap.add_argument("--guided-only", action="store_true", help="only the coverage-guided stage")
    ap.add_argument("--replay")
    args = ap.parse_args()
    args.tier = args.tier or os.environ.get("VERIF_TIER") or "quick"
    if args.tier not in ("quick", "thorough"):
        args.tier = "quick"
    if args.seed is None:
        try:
            args.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            args.seed = int(hashlib.sha256(os.environ["VERIF_SEED"].encode()).hexdigest()[:12], 16)
    args.seed = abs(args.seed)
    if args.cap is None:
        args.cap = 300 if args.tier == "quick" else 1800
    prop = args.prop
    t0 = time.time()
    if args.replay and not os.path.isabs(args.replay):
        args.replay = os.path.abspath(args.replay)
    dictionary = write_dictionary()
    try:
        if args.replay and (prop not in ("C21", "C22")) and json.load(open(args.replay)).get("prop") == "compile":
            try:
                compile_harness(prop)
                print("compiles now")
                return 0
            except CompileError as e:
                print(e.args[0][-3000:])
                print("VIOLATION property=%s replay=%s" % (prop, args.replay))
                return 1
        if prop in CUSTOM:
            sys.path.insert(0, HERE)
            rc, result = importlib.import_module(CUSTOM[prop] + "_check").check(sys.modules[__name__], args)
        else:
            rc, result = plain(prop, args)
    except Broken as e:
        print("no answer: %s" % e, file=sys.stderr)
        return 3
    finally:
        if os.path.exists(dictionary):
            os.unlink(dictionary)
    if args.replay:
        return rc
    if result is None:
        if rc in (0, 1):
            rc = 3
        print("no answer: no result written", file=sys.stderr)
        return rc
    write_evidence(prop, args, result, rc, time.time() - t0)
    return rc

if __name__ == "__main__":
    sys.modules.setdefault("run", sys.modules["__main__"])
    sys.exit(main())
