#!/usr/bin/env python3
"""Confirms planted bugs in scratch copies of /repo and writes seeded/<id>/.

  plant.py [ID ...]     confirm (all of them without arguments) and write
  plant.py --check ID..  run the check of the property of each, too
"""
import argparse, concurrent.futures as cf, difflib, glob, json, os, re, shutil, subprocess, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from plants import PLANTS
REPO = "/repo"
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ORIGINAL = "13a921f"
SKIP_TESTS = {"ftoa_len", "fullcircle", "fullcirclew", "roundtrip"}

DEMO_SH = """#!/bin/bash
# run in the top directory of the sources; everything is built in a scratch directory
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d)
g++ %s -Iinclude "$here"/*.cpp -o "$work/demo"%s || { rm -rf -- "$work"; exit 2; }
timeout 250 "$work/demo"
rc=$?
rm -rf -- "$work"
exit $rc
"""

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)

def added_lines():
    out = sh(["git", "-C", REPO, "diff", ORIGINAL, "HEAD", "--", "include"]).stdout
    r = {}
    f = None
    for l in out.split("\n"):
        if l.startswith("+++ "):
            f = os.path.basename(l[4:].strip())
        elif l.startswith("+"):
            r.setdefault(f, set()).add(l[1:])
    return r

def apply_edits(tree, p):
    edits = p["edits"]
    for name, old, new in edits:
        path = os.path.join(tree, "include/floaxie", name)
        s = open(path).read()
        if s.count(old) != 1:
            return "%s: %d occurrences of %r" % (name, s.count(old), old[:60])
        open(path, "w").write(s.replace(old, new))
    return None

def tests(tree, scratch):
    bad = []
    def one(src):
        n = os.path.basename(src)[:-4]
        exe = os.path.join(scratch, "t_" + n)
        r = sh(["g++", "-std=c++14", "-O2", "-g", "-w", "-I", os.path.join(tree, "include"), src, "-o", exe])
        if r.returncode:
            return n + " doesn't compile: " + r.stdout[:300]
        try:
            r = sh([exe], timeout=120, cwd=scratch)
        except subprocess.TimeoutExpired:
            return n + " timeout"
        os.unlink(exe)
        return None if r.returncode == 0 else n + " fails"
    srcs = [s for s in sorted(glob.glob(os.path.join(tree, "test/*.cpp"))) if os.path.basename(s)[:-4] not in SKIP_TESTS]
    with cf.ThreadPoolExecutor(4) as ex:
        return [x for x in ex.map(one, srcs) if x]

def confirm(p):
    scratch = tempfile.mkdtemp(prefix="plant.", dir="/tmp")
    try:
        tree = os.path.join(scratch, "repo")
        sh(["git", "clone", "-q", REPO, tree])
        err = apply_edits(tree, p)
        if err:
            return err
        diff = sh(["git", "-C", tree, "diff"]).stdout
        added = added_lines()
        f = None
        for l in diff.split("\n"):
            if l.startswith("--- "):
                f = os.path.basename(l[4:].strip())
            elif l.startswith("-") and l[1:] in added.get(f, set()) and l[1:].strip() not in ("", "{", "}"):
                return "touches an added line: " + l
        bad = tests(tree, scratch)
        if bad:
            return "tests: " + "; ".join(bad)
        d = os.path.join(scratch, "demo")
        os.makedirs(d)
        files = {"demo.cpp": p["demo"], "demo.sh": DEMO_SH % (p["flags"], "")}
        files.update(p["extra"])
        files["patch.diff"] = diff
        files["meta.json"] = json.dumps({"property": p["prop"], "needs": p["needs"], "what_it_breaks": p["breaks"]}, indent=1) + "\n"
        for n, c in files.items():
            open(os.path.join(d, n), "w").write(c)
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        r = sh(["bash", os.path.join(d, "demo.sh")], cwd=REPO)
        if r.returncode != 0:
            return "demo fails on the unchanged tree (%d): %s" % (r.returncode, r.stdout[-500:])
        r = sh(["bash", os.path.join(d, "demo.sh")], cwd=tree)
        if r.returncode == 0:
            return "demo passes on the changed tree: " + r.stdout[-300:]
        out = os.path.join(VERIF, "seeded", p["id"])
        shutil.rmtree(out, ignore_errors=True)
        shutil.copytree(d, out)
        return "ok (%d) %s" % (r.returncode, r.stdout.strip().split("\n")[-1][:150])
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

def run_check(pid, prop, args=()):
    """rc and the last lines of a check against a tree with the planted bug."""
    scratch = tempfile.mkdtemp(prefix="plant.", dir="/tmp")
    try:
        tree = os.path.join(scratch, "repo")
        sh(["git", "clone", "-q", REPO, tree])
        r = sh(["git", "-C", tree, "apply", os.path.join(VERIF, "seeded", pid, "patch.diff")])
        if r.returncode:
            return "patch doesn't apply", r.stdout
        r = sh(["python3", os.path.join(VERIF, "harness/run.py"), prop] + list(args), env=dict(os.environ, VERIF_REPO=tree, VERIF_OUT=os.path.join(scratch, "out")))
        return r.returncode, r.stdout[-1500:]
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

if __name__ == "__main__":
    ap = argparse.ArgumentParser()
    ap.add_argument("ids", nargs="*")
    ap.add_argument("--check", action="store_true")
    ap.add_argument("--props", help="comma-separated properties to run instead of the bug's own")
    a = ap.parse_args()
    todo = [p for p in PLANTS if not a.ids or p["id"] in a.ids]
    if not a.check:
        with cf.ThreadPoolExecutor(3) as ex:
            for p, r in zip(todo, ex.map(confirm, todo)):
                print("%-26s %s %s" % (p["id"], p["prop"], r), flush=True)
    else:
        for p in todo:
            if not os.path.isdir(os.path.join(VERIF, "seeded", p["id"])):
                continue
            for prop in (a.props.split(",") if a.props else [p["prop"]]):
                rc, out = run_check(p["id"], prop)
                print("%-26s %s rc=%s %s" % (p["id"], prop, rc, "" if rc == 1 else out[-300:].replace("\n", " | ")), flush=True)
