#!/usr/bin/env python3
"""Nothing to install: checks that the tools the checks use are there and that every
specification parses."""
import os, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
from vlib.common import JARS, SPEC
subprocess.run(["g++", "--version"], check=True, stdout=subprocess.DEVNULL)
def parse(f):
    r = subprocess.run(["java", "-cp", JARS, "tla2sany.SANY", f], cwd=SPEC, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return f, r.returncode, r.stdout
bad = 0
with ThreadPoolExecutor(8) as ex:
    for f, rc, out in ex.map(parse, sorted(x for x in os.listdir(SPEC) if x.endswith(".tla"))):
        if rc or "Errors detected" in out or "*** Errors" in out:
            bad = 1
            print(f, out)
os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
sys.exit(bad)
