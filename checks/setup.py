#!/usr/bin/env python3
"""Parses every specification and builds the driver once, to fail early."""
import glob, os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from concurrent.futures import ThreadPoolExecutor
from vlib import core


def parse(f):
    p = subprocess.run(["java", "-cp", core.TLA_JAR + ":" + core.TLA_CM, "tla2sany.SANY", os.path.basename(f)],
                       cwd=core.SPECS, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    ok = p.returncode == 0 and "*** Errors" not in p.stdout and "Fatal" not in p.stdout
    return f, ok, p.stdout


bad = 0
with ThreadPoolExecutor(4) as ex:
    for f, ok, out in ex.map(parse, sorted(glob.glob(core.SPECS + "/*.tla"))):
        print(("ok   " if ok else "FAIL ") + os.path.basename(f))
        if not ok:
            print(out)
            bad = 1
core.build_driver()
print("driver builds")
sys.exit(bad)
