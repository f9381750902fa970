#!/usr/bin/env python3
"""Checks that the tools the checks need are there; nothing has to be built in advance."""
import os, shutil, sys, tempfile, subprocess
missing = [t for t in ("g++", "clang++", "localedef") if not shutil.which(t)]
if missing:
    sys.exit("missing: " + ", ".join(missing))
with tempfile.TemporaryDirectory() as d:
    src = os.path.join(d, "a.cpp")
    with open(src, "w") as f:
        f.write("#include <gmp.h>\nint main() { mpz_t a; mpz_init_set_ui(a, 1); return mpz_cmp_ui(a, 1); }\n")
    for cxx in ("g++", "clang++"):
        subprocess.run([cxx, src, "-lgmp", "-o", os.path.join(d, "a")], check=True)
        subprocess.run([os.path.join(d, "a")], check=True)
print("ok")
