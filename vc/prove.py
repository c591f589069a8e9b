"""Discharging proof obligations with z3-new / z3 / cvc5 (separate processes)."""
import os, subprocess, time, tempfile, hashlib
from concurrent.futures import ThreadPoolExecutor
import z3
from z3 import *


def has_quant(es):
    seen = set()
    stack = list(es)
    while stack:
        x = stack.pop()
        if is_quantifier(x):
            return True
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        stack.extend(x.children())
    return False


def sorts_of(es):
    out, seen, stack = set(), set(), list(es)
    while stack:
        x = stack.pop()
        if is_quantifier(x):
            stack.append(x.body()); continue
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        out.add(x.sort().kind())
        stack.extend(x.children())
    return out


def expand(e):
    return simplify(e, expand_select_store=True, elim_sign_ext=False) if True else e


def purify(fs):
    """replace select / uninterpreted function terms by fresh constants and add
    the functional-consistency constraints (quantifier-free input)"""
    cache = {}
    table = {}     # head -> list of (args, const)
    extra = []
    cnt = [0]

    def go(root):
        stack = [(root, False)]
        while stack:
            x, done = stack.pop()
            if x.get_id() in cache:
                continue
            if not done:
                stack.append((x, True))
                for c in x.children():
                    if c.get_id() not in cache:
                        stack.append((c, False))
                continue
            if x.num_args() == 0:
                cache[x.get_id()] = x
                keep.append(x)
                continue
            args = [cache[c.get_id()] for c in x.children()]
            k = x.decl().kind()
            if k == Z3_OP_SELECT or (k == Z3_OP_UNINTERPRETED):
                if k == Z3_OP_SELECT and not is_array(x):
                    a = args[0]
                    if not (is_const(a) and a.decl().kind() == Z3_OP_UNINTERPRETED):
                        if a.num_args() != 0 and a.decl().kind() not in (Z3_OP_SELECT,):
                            y = x.decl()(*args) if any(p is not q for p, q in zip(args, x.children())) else x
                            raise ValueError("array term")
                    head = ("sel", a.get_id())
                    key = args[1:]
                    keep.append(a)
                elif k == Z3_OP_SELECT:
                    head = ("sel", args[0].get_id())
                    key = args[1:]
                    keep.append(args[0])
                else:
                    head = ("uf", x.decl().get_id())
                    key = args
                lst = table.setdefault(head, [])
                for kk, c in lst:
                    if all(p.eq(q) for p, q in zip(kk, key)):
                        cache[x.get_id()] = c
                        break
                else:
                    cnt[0] += 1
                    c = Const("pv!%d" % cnt[0], x.sort())
                    for kk, c2 in lst:
                        eqs = [simplify(p == q) for p, q in zip(kk, key)]
                        if any(is_false(q) for q in eqs):
                            continue
                        extra.append(Implies(And(*eqs), c == c2))
                    lst.append((key, c))
                    cache[x.get_id()] = c
                keep.append(x)
                continue
            if any(p is not q for p, q in zip(args, x.children())):
                if k == Z3_OP_AND:
                    y = And(*args)
                elif k == Z3_OP_OR:
                    y = Or(*args)
                elif k == Z3_OP_ADD:
                    y = Sum(*args)
                elif k == Z3_OP_MUL:
                    y = Product(*args)
                elif k == Z3_OP_DISTINCT:
                    y = Distinct(*args)
                else:
                    y = x.decl()(*args)
            else:
                y = x
            cache[x.get_id()] = y
            keep.append(x)
            keep.append(y)
    keep = []
    out = []
    for f in fs:
        go(f)
        out.append(cache[f.get_id()])
    return out + extra, keep


class Lin:
    """replace non-linear products, quotients and powers by uninterpreted
    functions: a generalisation, so that only a proof of it counts"""
    def __init__(self):
        self.c = {}
        self.keep = []
        self.changed = False

    def __call__(self, root):
        c = self.c
        stack = [(root, False)]
        while stack:
            x, done = stack.pop()
            i = x.get_id()
            if i in c:
                continue
            self.keep.append(x)
            if is_var(x):
                c[i] = x
                continue
            if is_quantifier(x):
                if x.is_lambda():
                    raise ValueError("lambda")
                vs = [Const("ql!%d!%s" % (x.get_id(), k), x.var_sort(k)) for k in range(x.num_vars())]
                b = substitute_vars(x.body(), *reversed(vs))
                nb = self(b)
                ps = []
                for p in range(x.num_patterns()):
                    t = [self(substitute_vars(q, *reversed(vs))) for q in x.pattern(p).children()]
                    ps.append(MultiPattern(*t) if len(t) > 1 else t[0])
                y = (ForAll if x.is_forall() else Exists)(vs, nb, patterns=ps)
                c[i] = y
                self.keep.append(y)
                continue
            if not done:
                stack.append((x, True))
                for ch in x.children():
                    if ch.get_id() not in c:
                        stack.append((ch, False))
                continue
            if x.num_args() == 0:
                c[i] = x
                continue
            a = [c[ch.get_id()] for ch in x.children()]
            k = x.decl().kind()
            y = None
            if k == Z3_OP_MUL:
                nums = [t for t in a if is_rational_value(t) or is_int_value(t)]
                rest = [t for t in a if not (is_rational_value(t) or is_int_value(t))]
                if len(rest) > 1:
                    rest.sort(key=lambda t: t.get_id())
                    s = x.sort()
                    y = z3.Function("NLMUL%d" % len(rest), *([s] * len(rest)), s)(*rest)
                    for t in nums:
                        y = t * y
                    self.changed = True
            elif k in (Z3_OP_DIV, Z3_OP_POWER) and not (is_rational_value(a[1])):
                s = x.sort()
                F = z3.Function("NLF%d" % k, s, s, s)

                def lift(d, n=0):
                    if n < 4 and is_app(d) and d.decl().kind() == Z3_OP_ITE:
                        return If(d.arg(0), lift(d.arg(1), n + 1), lift(d.arg(2), n + 1))
                    return a[0] / d if is_rational_value(d) else F(a[0], d)
                y = lift(a[1])
                self.changed = True
            if y is None:
                if all(p is q or p.eq(q) for p, q in zip(a, x.children())):
                    y = x
                elif k == Z3_OP_AND:
                    y = And(*a)
                elif k == Z3_OP_OR:
                    y = Or(*a)
                elif k == Z3_OP_ADD:
                    y = Sum(*a)
                elif k == Z3_OP_MUL:
                    y = Product(*a)
                elif k == Z3_OP_DISTINCT:
                    y = Distinct(*a)
                else:
                    y = x.decl()(*a)
            c[i] = y
            self.keep.append(y)
        return c[root.get_id()]


def linear(fs):
    """generalised formulas, or None if nothing non-linear occurs"""
    L = Lin()
    try:
        out = [L(f) for f in fs]
    except (ValueError, z3.Z3Exception):
        return None
    return out if L.changed else None



def smt2(fs, logic=None):
    s = Solver()
    s.add(*fs)
    t = s.to_smt2()
    t = t.replace("(check-sat)", "")
    if logic:
        t = "(set-logic %s)\n" % logic + "\n".join(
            l for l in t.split("\n") if not l.startswith("(set-logic") and not l.startswith("(set-info"))
    return t


def run_cli(cmd, timeout, want_model):
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout + 10)
    except subprocess.TimeoutExpired:
        return "unknown", "timeout"
    out = r.stdout.strip()
    first = out.split("\n")[0].strip() if out else ""
    if first in ("sat", "unsat", "unknown"):
        return first, out
    for l in out.split("\n"):
        if l.strip() in ("sat", "unsat", "unknown"):
            return l.strip(), out
    return "unknown", out + r.stderr


class Result:
    __slots__ = ("status", "backend", "time", "out", "name", "obl", "parts")


def conjuncts(g):
    if is_and(g):
        out = []
        for c in g.children():
            out += conjuncts(c)
        return out
    if is_implies(g) and is_and(g.arg(1)):
        return [Implies(g.arg(0), c) for c in conjuncts(g.arg(1))]
    return [g]


def relevant_axioms(axioms, fs):
    """global axioms about applications that occur in fs (transitively)"""
    def apps(e, acc, seen):
        stack = [e]
        while stack:
            x = stack.pop()
            if is_quantifier(x):
                stack.append(x.body()); continue
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if is_app(x) and x.decl().kind() == Z3_OP_UNINTERPRETED:
                acc.add(x.get_id())
            stack.extend(x.children())
    acc, seen = set(), set()
    for f in fs:
        apps(f, acc, seen)
    chosen = []
    rest = list(axioms)
    changed = True
    while changed:
        changed = False
        nrest = []
        for trig, ax in rest:
            if trig is None or trig.get_id() in acc:
                chosen.append(ax)
                apps(ax, acc, seen)
                changed = True
            else:
                nrest.append((trig, ax))
        rest = nrest
    return chosen


class Task:
    """one solver query (a conjunct of an obligation)"""
    def __init__(self, obl, i, text_plain, text_pure, quant, kinds, pure_real=False, raw=None):
        self.raw = raw
        self.obl, self.i = obl, i
        self.plain, self.pure, self.quant, self.kinds = text_plain, text_pure, quant, kinds
        self.pure_real = pure_real


def make_tasks(obl, axioms, split=True):
    tasks = []
    goals = conjuncts(obl.goal) if split else [obl.goal]
    for i, g in enumerate(goals):
        weak = []
        for wh, wg in getattr(obl, "weak", ()):
            # stronger statement (fewer hypotheses, generalised terms): only "unsat" counts
            wf = [simplify(x) for x in list(wh) + [Not(conjuncts(wg)[i] if split else wg)]]
            wf = [expand(f) for f in [simplify(a) for a in relevant_axioms(axioms, wf)] + wf]
            try:
                wf, _ = purify(wf)
                weak.append(smt2([simplify(f, som=False) for f in wf]))
            except (ValueError, z3.Z3Exception):
                pass
        fs = [simplify(h) for h in obl.hyps] + [simplify(Not(g))]
        fs = [f for f in fs if not is_true(f)]
        if any(is_false(f) for f in fs):
            tasks.append(Task(obl, i, None, None, False, set()))
            continue
        fs = [simplify(a) for a in relevant_axioms(axioms, list(obl.hyps) + [Not(g)] + fs)] + fs
        q = has_quant(fs)
        fe = [expand(f) for f in fs]
        if any(is_false(f) for f in fe):
            tasks.append(Task(obl, i, None, None, False, set()))
            continue
        plain = smt2(fe)
        raw = smt2(fs) if q else None
        pure = None
        if not q:
            try:
                pf, keep = purify(fe)
                pf = [simplify(f, som=False) for f in pf]
                if not any(is_false(f) for f in pf):
                    kinds = sorts_of(pf)
                    pr = kinds <= {Z3_BOOL_SORT, Z3_REAL_SORT}
                    pure = (smt2(pf, "QF_NRA" if pr else None), pr)
                else:
                    tasks.append(Task(obl, i, None, None, False, set()))
                    continue
            except (ValueError, z3.Z3Exception):
                pure = None
        t = Task(obl, i, plain, pure[0] if pure else None, q, None,
                 pure[1] if pure else False, raw)
        t.ground = None
        t.weak = weak
        lf = linear(fe)
        t.lin = smt2(lf) if lf is not None else None
        if q:
            # hypotheses without quantifiers only: "unsat" carries over, "sat" says nothing
            fg = [f for f in fe if not has_quant([f])]
            try:
                pf, keep = purify(fg)
                pf = [simplify(f, som=False) for f in pf]
                if any(is_false(f) for f in pf):
                    t = Task(obl, i, None, None, False, set())
                else:
                    t.ground = smt2(pf)
            except (ValueError, z3.Z3Exception):
                pass
        tasks.append(t)
    return tasks


NLSAT = "(check-sat-using (then simplify propagate-values solve-eqs elim-term-ite simplify tseitin-cnf qfnra-nlsat))"
NLSAT2 = "(check-sat-using (then simplify propagate-values solve-eqs purify-arith simplify elim-term-ite solve-eqs simplify tseitin-cnf qfnra-nlsat))"


def _popen(prog, text, lim, fn, quant):
    if prog == "cvc5":
        body = "\n".join(l for l in text.split("\n") if not l.startswith("(set-logic"))
        text = "(set-logic ALL)\n" + body
        cmd = ["cvc5", "--tlimit=%d" % (lim * 1000), fn]
        if quant:
            cmd.insert(1, "--full-saturate-quant")
        else:
            cmd.insert(1, "--nl-ext-tplanes")
    else:
        cmd = [prog, "-T:%d" % lim, "memory_max_size=3500", fn]
    with open(fn, "w") as f:
        f.write(text)
    return subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def _answer(p):
    out = p.stdout.read()
    for l in out.split("\n"):
        if l.strip() in ("sat", "unsat", "unknown"):
            return l.strip(), out
    return "unknown", out


def _race(tries, base, quant, deadline):
    """run the tries concurrently; first definite answer wins"""
    ps = []
    for n, (be, text, prog, lim) in enumerate(tries):
        fn = "%s.%d.smt2" % (base, n)
        ps.append((be, fn, _popen(prog, text, lim, fn, quant)))
    last = ""
    ans = None
    while ps and ans is None:
        if time.time() > deadline:
            break
        rest = []
        for be, fn, p in ps:
            if p.poll() is None:
                rest.append((be, fn, p))
                continue
            s, out = _answer(p)
            last = out
            if s in ("sat", "unsat"):
                ans = (s, be, fn if s == "sat" else "")
                break
        else:
            ps = rest
            if ps:
                time.sleep(0.01)
            continue
        break
    for be, fn, p in ps:
        if p.poll() is None:
            p.kill()
        p.stdout.close()
        p.wait()
    return ans, last


def solve_task(t, wd, limits):
    """portfolio; returns (status, backend, seconds, output)"""
    if t.plain is None:
        return "unsat", "simplifier (z3 rewriter)", 0.0, ""
    t0 = time.time()
    base = os.path.join(wd, hashlib.md5((t.obl.name + str(t.i) + t.plain[:200000]).encode()).hexdigest())
    tries = []
    if t.pure is not None and t.pure_real:
        tries.append(("z3-new nlsat", t.pure + "\n" + NLSAT2, "z3-new", limits[0]))
    if t.pure is not None and not t.pure_real:
        tries.append(("z3-new", t.pure + "\n(check-sat)", "z3-new", limits[1]))
    tries.append(("z3-new", t.plain + "\n(check-sat)", "z3-new", limits[1]))
    if t.raw is not None:
        tries.append(("z3-new", t.raw + "\n(check-sat)", "z3-new", limits[1]))
    if not t.pure_real:
        tries.append(("cvc5", t.plain + "\n(check-sat)", "cvc5", limits[2]))
        tries.append(("z3", t.plain + "\n(check-sat)", "z3", limits[2]))
    else:
        tries.append(("cvc5", t.pure + "\n(check-sat)", "cvc5", limits[2]))
    ans = None
    for n, w in enumerate(t.weak):
        ts = [("z3-new nlsat", w + "\n" + NLSAT2, "z3-new", 8), ("z3-new", w + "\n(check-sat)", "z3-new", 8),
              ("cvc5", w + "\n(check-sat)", "cvc5", 8)]
        for one in ts:
            ans, last = _race([one], base + ".w%d" % n, False, time.time() + 15)
            if ans is not None and ans[0] == "unsat":
                return "unsat", ans[1], time.time() - t0, ""
    ans = None
    if t.quant and t.ground is not None:
        ans, last = _race([("z3-new", t.ground + "\n(check-sat)", "z3-new", 3)], base + ".g", False, time.time() + 10)
        if ans is not None and ans[0] == "sat":
            ans = None
    quick = [(be, tx, pr, 3) for be, tx, pr, _ in tries[:1]]
    if ans is None and t.lin is not None and (t.quant or not t.pure_real):
        ans, last = _race([("z3-new", t.lin + "\n(check-sat)", "z3-new", 4)], base + ".l", False, time.time() + 10)
        if ans is not None and ans[0] == "sat":
            ans = None
    if ans is None:
        ans, last = _race(quick, base + ".q", t.quant, time.time() + 10)
    if ans is None:
        ans, last = _race(tries, base, t.quant, time.time() + max(limits) + 5)
    if ans is None:
        return "unknown", "z3-new/cvc5/z3", time.time() - t0, last[:300]
    return ans[0], ans[1], time.time() - t0, ans[2]


def discharge(obls, axioms, wd, jobs=8, limits=(30, 60, 60), progress=None, stop=None):
    """-> list of Result, one per obligation"""
    os.makedirs(wd, exist_ok=True)
    tasks = []
    for o in obls:
        tasks.append((o, make_tasks(o, axioms)))
    flat = [t for _, ts in tasks for t in ts]
    with ThreadPoolExecutor(jobs) as ex:
        res = list(ex.map(lambda t: solve_task(t, wd, limits), flat))
    by = {}
    for t, r in zip(flat, res):
        by.setdefault(id(t.obl), []).append(r)
    out = []
    for o, ts in tasks:
        rs = by[id(o)]
        R = Result()
        R.obl, R.name = o, o.name
        R.time = sum(r[2] for r in rs)
        R.parts = len(rs)
        if all(r[0] == "unsat" for r in rs):
            R.status = "unsat"
            R.backend = ",".join(sorted({r[1] for r in rs}))
            R.out = ""
        elif any(r[0] == "sat" for r in rs):
            k = next(r for r in rs if r[0] == "sat")
            R.status, R.backend, R.out = "sat", k[1], k[3]
        else:
            k = next(r for r in rs if r[0] != "unsat")
            R.status, R.backend, R.out = "unknown", k[1], k[3]
        out.append(R)
    return out


def model_numbers(fn, limit=40):
    """numbers occurring in a model of the query file (counterexample seeds)"""
    try:
        t = open(fn).read().replace("(check-sat)", "(check-sat)\n(get-model)")
        if "check-sat-using" in t:
            t = t + "\n(get-model)"
        open(fn + ".m", "w").write(t)
        r = subprocess.run(["z3-new", "-T:20", "pp.decimal=true", "pp.decimal_precision=17", fn + ".m"],
                           capture_output=True, text=True, timeout=40)
        return r.stdout[:20000]
    except Exception as ex:
        return "no model: %s" % ex
