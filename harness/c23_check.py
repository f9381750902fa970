"""C23: conversions under many locales."""
import os, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor

LOCALES = [("de_DE", "UTF-8"), ("tr_TR", "UTF-8"), ("ps_AF", "UTF-8"), ("fr_FR", "UTF-8"), ("de_DE", "ISO-8859-1"), ("tr_TR", "ISO-8859-9"), ("az_AZ", "UTF-8"), ("de_CH", "UTF-8"), ("ar_EG", "UTF-8"), ("ja_JP", "EUC-JP"), ("en_US", "UTF-8")]

def check(run, args):
    prop = "C23"
    os.makedirs(run.BUILD, exist_ok=True)
    scratch = tempfile.mkdtemp(prefix="locales-", dir=run.BUILD)
    try:
        def make(l):
            name = "%s.%s" % l
            r = run.sh(["localedef", "-i", l[0], "-f", l[1], "--no-archive", os.path.join(scratch, name)])
            return name if os.path.isdir(os.path.join(scratch, name)) else None
        with ThreadPoolExecutor(args.jobs) as pool:
            names = [n for n in pool.map(make, LOCALES) if n]
        if not names:
            raise run.Broken("localedef makes no locales")
        known = run.known_findings(prop)
        env = {"LOCPATH": scratch, "VERIF_LOCALES": " ".join(names), "VERIF_KNOWN": "radix" if "radix" in known else "", "LC_ALL": "C"}
        try:
            path, _ = run.compile_harness(prop)
        except run.CompileError as e:
            return run.not_compiling(prop, e), run.empty_result("compilation failed")
        rc, result = run.run_binary(prop, path, args, args.replay, env=env)
        if result:
            result["locales"] = names
            n = sum(p["classes"].get("known finding: radix", 0) for p in result["parts"])
            result["known_findings"] = {"radix": n}
            if n:
                print("KNOWN-FINDING: property=%s %s (%d cases of this run)" % (prop, known["radix"], n), flush=True)
        return rc, result
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
