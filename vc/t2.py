import sys, time, importlib
from verif import *
import prove
import os, shutil, atexit
PD = "/tmp/p/%d" % os.getpid()
os.makedirs(PD, exist_ok=True)
atexit.register(lambda: shutil.rmtree(PD, ignore_errors=True))
V = Verifier(PD + "/wd")
mods = sys.argv[1].split(",")
only = sys.argv[2] if len(sys.argv) > 2 else None
for m in mods:
    importlib.import_module("props." + m).contracts(V)
t0 = time.time()
print("problems", V.problems)
ob = [o for o in V.obls if only is None or only in o.name]
R = prove.discharge(ob, V.e.axioms, PD + "/smt", limits=(20, 20, 20))
for r in R:
    if r.status != "unsat" or r.time > 3 or only:
        print(r.name, r.status, r.backend, round(r.time, 2), r.out[:200])
print(len(R), sum(r.status == "unsat" for r in R), round(time.time() - t0, 1), "s", len(V.functions), "functions")
if only == "":
    for l in V.e.loops_seen: print(l)
