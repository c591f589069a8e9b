#!/usr/bin/env python3-vt
"""Decide one property: contracts over the real code (deductive), with an
executable-contract harness that looks for a concrete failing input.

usage: check.py <property> [quick|thorough]
exit 0: held on everything explored; exit 1 + VIOLATION line otherwise."""
import os, sys
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"       # same term order on every run
    os.execv(sys.executable, [sys.executable] + sys.argv)
import time, json, shutil, subprocess, threading, tempfile, resource

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "vc"))
sys.setrecursionlimit(20000)
import cast, prove, registry
from verif import Verifier, Unsupported
import z3

T0 = time.time()
SOLVE_DEADLINE = 420


def harness_build(src, wd):
    exe = os.path.join(wd, "harness_" + os.path.basename(src).replace(".cpp", ""))
    cmd = ["g++", "-std=gnu++17", "-O1", "-w", "-DNDEBUG", "-I" + wd, "-I" + os.path.join(HERE, "harness"),
           "-I%s/src/utils" % cast.REPO, "-I%s/src/algorithm" % cast.REPO, "-I%s/src/app" % cast.REPO,
           os.path.join(HERE, "harness", src), "-o", exe]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode != 0:
        return None, r.stderr[-1500:]
    return exe, ""


def harness_run(exe, prop, seed, budget, wd, timeout, extra=()):
    scratch = tempfile.mkdtemp(prefix="scratch", dir=wd)
    cmd = [exe, prop, str(seed), str(budget)] + list(extra)

    def lim():
        resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, cwd=scratch,
                           errors="replace", preexec_fn=lim)
    except subprocess.TimeoutExpired as ex:
        o = ex.stdout
        o = o.decode(errors="replace") if isinstance(o, bytes) else (o or "")
        return "hang", o[-3000:], cmd
    if r.returncode == 0:
        return "pass", r.stdout[-3000:], cmd
    if r.returncode == 1:
        return "fail", r.stdout[-6000:], cmd
    return "crash", r.stdout[-3000:] + "\nexit status %d\n" % r.returncode + r.stderr[-1500:], cmd


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    P = registry.PROPS[prop]
    wd = tempfile.mkdtemp(prefix="tqv_%s_" % prop)
    try:
        rc = decide(prop, tier, seed, P, wd)
    finally:
        shutil.rmtree(wd, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)


def decide(prop, tier, seed, P, wd):
    with open(os.path.join(wd, "TQMeshConfig.h"), "w") as f:
        f.write(cast.CFG_H)
    hs = {}

    def hthread():
        src = P.get("harness")
        if not src:
            hs["status"], hs["out"] = "none", ""
            return
        exe, err = harness_build(src, wd)
        hs["exe"] = exe
        if exe is None:
            hs["status"], hs["out"] = "nobuild", err
            return
        b = P.get("budget", 1.0) * (8 if tier == "thorough" else 1)
        from concurrent.futures import ThreadPoolExecutor
        n = P.get("procs", 1)            # independent seeds in parallel
        with ThreadPoolExecutor(n) as ex:
            rs = list(ex.map(lambda i: harness_run(exe, prop, seed + 17 * i, b, wd, 400), range(n)))
        for r in rs:
            hs["status"], hs["out"], hs["cmd"] = r
            if r[0] != "pass":
                break
        hs["runs"] = n
    th = threading.Thread(target=hthread)
    th.start()

    # ---- deductive part
    problems, results, covers = [], [], []
    V = None
    try:
        V = Verifier(os.path.join(wd, "ast"), registry.tu(P))
        P["contracts"](V)
        problems = list(V.problems)
    except Exception as ex:     # extraction failed: no deductive answer
        if os.environ.get("VC_DEBUG"):
            raise
        problems.append(("extraction", "%s: %s" % (type(ex).__name__, str(ex)[:500])))
    if V is not None:
        lim = (40, 60, 60) if tier == "quick" else (120, 180, 180)
        results, covers = discharge_all(V, wd, lim, SOLVE_DEADLINE if tier == "quick" else 3000)
    th.join()

    undecided = [r for r in results if r.status == "unattempted"]
    failed = [r for r in results if r.status in ("sat", "unknown")]
    vac = [c for c in covers if c[1] == "unsat"]
    proved = [r for r in results if r.status == "unsat"]

    # ---- failing obligations: look harder for a concrete input
    hres = hs.get("status")
    if (failed or vac) and hres == "pass" and hs.get("exe"):
        nums = []
        for r in failed:
            if r.status == "sat" and r.out:
                nums.append(prove.model_numbers(r.out))
        seeds = os.path.join(wd, "seeds.txt")
        with open(seeds, "w") as f:
            f.write("\n".join(model_values(nums)))
        left = max(30, 780 - (time.time() - T0))
        st, out, cmd = harness_run(hs["exe"], prop, seed + 1000, P.get("budget", 1.0) * 6, wd,
                                   left, [seeds])
        if st in ("fail", "crash"):
            hres, hs["out"], hs["cmd"] = st, out, cmd
    viol = []
    if hres in ("fail", "crash", "hang"):
        viol.append(("input", hs["out"]))
    elif failed or vac:
        viol.append(("obligation", ""))

    rp = None
    if viol:
        rd = os.path.join(HERE, "replays")
        os.makedirs(rd, exist_ok=True)
        rp = os.path.join(rd, "%s-%s.txt" % (prop, tier))
        with open(rp, "w") as f:
            f.write("property %s, tier %s, seed %d\n" % (prop, tier, seed))
            for r in failed:
                f.write("FAILED OBLIGATION %s (function %s, kind %s): %s by %s after %.1f s\n" % (
                    r.name, r.obl.fn, r.obl.kind, r.status, r.backend, r.time))
                if r.status == "sat" and r.out:
                    f.write("  counterexample model:\n" + prove.model_numbers(r.out)[:6000] + "\n")
                else:
                    f.write("  verifier output: %s\n" % r.out[:500])
            for c in vac:
                f.write("FAILED OBLIGATION %s: no input reaches the normal exit (vacuous)\n" % c[0])
            f.write("\nexecutable contract on the real code: %s\n%s\n" % (hres, hs.get("out", "")))
            if hs.get("cmd"):
                f.write("\nreplay: build harness/%s against /repo/src as check.py does and run: harness %s\n"
                        % (P.get("harness"), " ".join(hs["cmd"][1:4])))

    for k in registry.findings():
        if k.startswith("KNOWN-FINDING: property=%s " % prop):
            print(k)
    evidence(prop, tier, seed, P, V, results, covers, problems, hs, hres, viol, rp)
    print("%s %s: %d obligations, %d discharged, %d undecided, %d contract problems, harness %s, %.0f s" % (
        prop, tier, len(results), len(proved), len(undecided), len(problems), hres, time.time() - T0))
    for n, t in problems:
        print("  outside the verified dialect: %s: %s" % (n, t.split("\n")[0][:160]))
    if viol:
        for r in failed[:8]:
            print("  failed obligation: %s [%s]" % (r.name, r.status))
        for c in vac[:4]:
            print("  failed obligation: %s [exit unreachable]" % c[0])
        if viol[0][0] == "input":
            print("  " + "\n  ".join(hs["out"].strip().split("\n")[-4:])[:1500])
            print("VIOLATION property=%s replay=%s" % (prop, rp))
        else:
            print("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, rp))
        return 1
    return 0


def model_values(models):
    import re
    out = []
    for m in models:
        for x in re.findall(r"(\(- )?(\d+\.\d+)\??", m):
            v = float(x[1])
            if abs(v) < 1e6:
                out.append(repr(-v if x[0] else v))
    return sorted(set(out))[:200]


def discharge_all(V, wd, lim, deadline):
    from concurrent.futures import ThreadPoolExecutor
    sd = os.path.join(wd, "smt")
    os.makedirs(sd, exist_ok=True)
    groups, flat = [], []
    for o in V.obls:
        try:
            ts = prove.make_tasks(o, V.e.axioms)
        except z3.Z3Exception as ex:
            V.problems.append((o.name, "encoding: %s" % ex))
            continue
        groups.append((o, ts))
        flat += ts
    cov = []
    for name, pc in V.covers:
        s = z3.Solver()
        s.set("timeout", 3000)
        s.add(*pc)
        cov.append((name, prove.smt2([prove.expand(z3.simplify(x)) for x in pc])))
    t_end = time.time() + deadline

    def work(t):
        if time.time() > t_end:
            return ("unattempted", "", 0.0, "")
        return prove.solve_task(t, sd, lim)

    def cover(c):
        fn = os.path.join(sd, "cov%d.smt2" % abs(hash(c[0] + c[1])))
        with open(fn, "w") as f:
            f.write(c[1] + "\n(check-sat)\n")
        s, out = prove.run_cli(["z3-new", "-T:10", fn], 10, False)
        return (c[0], s)
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(work, flat))
        covers = list(ex.map(cover, cov))
    by = {}
    for t, r in zip(flat, res):
        by.setdefault(id(t.obl), []).append(r)
    out = []
    for o, ts in groups:
        rs = by.get(id(o), [])
        R = prove.Result()
        R.obl, R.name, R.parts = o, o.name, len(rs)
        R.time = sum(r[2] for r in rs)
        st = [r[0] for r in rs]
        for k in ("sat", "unknown", "unattempted"):
            if k in st:
                r = rs[st.index(k)]
                R.status, R.backend, R.out = k, r[1], r[3]
                break
        else:
            R.status, R.backend, R.out = "unsat", ",".join(sorted({r[1] for r in rs})), ""
        out.append(R)
    return out, covers


def evidence(prop, tier, seed, P, V, results, covers, problems, hs, hres, viol, rp):
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    proved = [r for r in results if r.status == "unsat"]
    by = {}
    for r in proved:
        by[r.backend] = by.get(r.backend, 0) + 1
    trusted = sorted(V.e.trusted) if V else []
    ass = list(registry.GLOBAL_ASSUMPTIONS) + list(P.get("assumptions", [])) + (V.assumed if V else [])
    level = P["level"]
    if problems or not results or len(proved) < len(results):
        level_now = "bounded"
    else:
        level_now = level
    expl = ("all obligations discharged; " + ("the parts named in bounded_parts are only executed, never proved"
            if P.get("bounded") else "every part of the statement has discharged obligations") if level_now == level else
            "some contracts were not decided deductively on this tree (see outside_dialect and "
            "obligation_list); for those only the bounded execution of the real code speaks")
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": level if level_now == level else "other",
        "coverage": {
            "explanation": expl,
            "obligations": len(results), "discharged": len(proved),
            "queries": sum(r.parts for r in results),
            "checker_cmd": "python3-vt check.py %s %s" % (prop, tier),
            "trusted_base": ["clang 18 parser and AST", "the VC generator in /verif/vc",
                             "z3 5.3.2 / z3 4.8.12 / cvc5 1.1.2"] + trusted,
            "bounded_parts": P.get("bounded", []),
            "functions_under_contract": V.functions if V else [],
            "functions_inlined": sorted(V.e.used) if V else [],
            "backends": by, "solver_seconds": round(sum(r.time for r in results), 2),
            "reachability_checks": {"total": len(covers), "reachable": sum(c[1] == "sat" for c in covers),
                                    "unreachable": [c[0] for c in covers if c[1] == "unsat"]},
            "obligation_list": [{"name": r.name, "function": r.obl.fn, "kind": r.obl.kind, "status": r.status,
                                 "backend": r.backend, "seconds": round(r.time, 3)} for r in results],
            "outside_dialect": [{"contract": n, "reason": t} for n, t in problems],
            "bounded_cross_check": {"what": P.get("harness_note", ""), "status": hres, "runs": hs.get("runs", 1),
                                    "output": (hs.get("out") or "")[-800:],
                                    "note": "bounded, executes the real code; not counted as proof"},
        },
        "assumptions": ass,
        "wall_s": round(time.time() - T0, 2),
        "violations": len(viol),
    }
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


main()
