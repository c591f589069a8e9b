"""The inductive rule for loops without a fixed trip count.

Iteration k starts in a state in which everything the body may change is
arbitrary except for
  * induction variables (x = x0 + c*k, found from the body, exact),
  * facts about completed iterations j<k that follow from their path conditions
    (the loop condition held, no break/return was taken),
  * candidate invariants (templates and those supplied by the contract) that
    are shown to hold initially and to be preserved (Houdini fixpoint).
"""
import os, re, time
import z3
from z3 import *
from values import *
import values
import engine as E

RLIMIT = 12000000
SEEDS = (0, 11, 23)      # retries for invariants given by a contract
GHOST = Bool("ghost!ax")


def counter_of(name):
    """age of a symbol: the largest counter in its name (components keep their parent's)"""
    m = re.findall(r"!(\d+)", name)
    return max(map(int, m)) if m else -1


def consts(e, acc=None, seen=None):
    acc = {} if acc is None else acc
    seen = set() if seen is None else seen
    stack = [e]
    while stack:
        x = stack.pop()
        if is_quantifier(x):
            stack.append(x.body())
            continue
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if is_app(x):
            if x.num_args() == 0 and x.decl().kind() == Z3_OP_UNINTERPRETED:
                acc[x.decl().name()] = x
            elif x.decl().kind() == Z3_OP_UNINTERPRETED:
                acc["F:" + x.decl().name()] = x
            stack.extend(x.children())
    return acc


def closed(e, start, allow):
    """no symbol younger than `start` except those in allow"""
    for n in consts(e):
        m = n[2:] if n.startswith("F:") else n
        if counter_of(m) > start and m not in allow:
            return False
    return True


# ---- flat view of a state's mutable cells --------------------------------
def cells(e, st, keys=None):
    """{cellkey: term} of all env leaves and heap arrays"""
    out = {}
    for k, v in st.env.items():
        if keys is not None and k not in keys:
            continue
        for p, t in vleaves(v):
            out[("L", k) + p] = t
    for k, a in st.heap.items():
        out[("H", k)] = a
    if st.nxt is not None:
        out[("nxt",)] = st.nxt
    return out


def vleaves(v):
    if isinstance(v, ExprRef):
        return [((), v)]
    if isinstance(v, Comp):
        out = []
        for p, x in v.d.items():
            for q, t in vleaves(x):
                out.append((("d", p) + q, t))
        return out
    if isinstance(v, Seq):
        return [(("n",), v.n)] + [(("e", p), a) for p, a in v.el.items()]
    if isinstance(v, Iter):
        return [(("i",), v.idx)]
    if isinstance(v, Loc):
        if v.kind == "H":
            return [(("r",), v.a)]
        if v.kind == "Q" and isinstance(v.b, ExprRef):
            return [(("q",), v.b)]
    if isinstance(v, Opq) and isinstance(v.term, ExprRef):
        return [(("o",), v.term)]
    return []


def vset(v, p, t):
    if not p:
        return t
    if p[0] == "d":
        d = dict(v.d)
        d[p[1]] = vset(d[p[1]], p[2:], t)
        return Comp(v.sh, d)
    if p[0] == "n":
        return Seq(v.esh, t, v.el)
    if p[0] == "e":
        el = dict(v.el)
        el[p[1]] = t
        return Seq(v.esh, v.n, el)
    if p[0] == "i":
        return Iter(v.loc, t, v.rev)
    if p[0] == "r":
        return Loc("H", t, v.b, v.path, v.cls)
    if p[0] == "q":
        return Loc("Q", v.a, t, v.path, v.cls)
    if p[0] == "o":
        return Opq(v.what, t)
    raise Unsupported("cell")


def setcell(st, c, t):
    if c[0] == "L":
        st.env[c[1]] = vset(st.env[c[1]], c[2:], t)
    elif c[0] == "H":
        st.heap[c[1]] = t
    else:
        st.nxt = t


def getcell(e, st, c):
    if c[0] == "L":
        v = st.env.get(c[1])
        if v is None:
            return None
        for p, t in vleaves(v):
            if p == c[2:]:
                return t
        return None
    if c[0] == "H":
        return st.heap[c[1]] if c[1] in st.heap else e.h0(c[1])
    return st.nxt


class Snap:
    """roll back what executing a body for analysis leaves behind"""
    def __init__(self, e):
        self.e = e
        self.f = [(fr, len(fr.rets), [(len(b), len(c)) for b, c in fr.brk], fr.loopno) for fr in e.frames]
        self.th, self.ob, self.tr = len(e.throws), len(e.obls), len(e.trace)

    def undo(self):
        for fr, n, br, ln in self.f:
            del fr.rets[n:]
            for (b, c), (nb, nc) in zip(fr.brk, br):
                del b[nb:]
                del c[nc:]
            fr.loopno = ln
        del self.e.throws[self.th:]
        del self.e.obls[self.ob:]
        del self.e.trace[self.tr:]


class Event:
    """a call under contract during symbolic execution"""
    def __init__(self, kind, pc, args, st):
        self.kind, self.pc, self.args, self.st = kind, list(pc), args, st

    @property
    def guard(self):
        return mkand(self.pc)


def valid(e, hyps, goal, rl=RLIMIT, ground=False, seeds=(0,)):
    g = simplify(goal)
    if is_true(g):
        return True
    import prove
    fs = [simplify(h) for h in hyps] + [simplify(Not(g))]
    fs = [simplify(a) for a in prove.relevant_axioms(e.axioms, list(hyps) + fs)] + fs
    lf = prove.linear(fs)
    if lf is not None:
        s1 = Solver()
        s1.set("rlimit", rl // 4)
        s1.set("timeout", 20000)
        s1.add(*lf)
        if s1.check() == unsat:
            return True
    qf = [f for f in fs if not prove.has_quant([f])]
    if len(qf) < len(fs):
        s0 = Solver()
        s0.set("rlimit", rl // 4)
        s0.set("timeout", 20000)
        s0.add(*qf)
        if s0.check() == unsat:
            return True
        if ground:
            return False
    t0 = time.time()
    for sd in seeds:
        s = Solver()
        s.set("rlimit", rl)
        s.set("timeout", 20000 if len(seeds) == 1 else 9000)
        s.set("random_seed", sd)
        for f in fs:
            s.add(f)
        r = s.check()
        if r != unknown:
            break
    if os.environ.get("VC_DROPS") and r != unsat:
        print("not shown:", r, s.reason_unknown() if r == unknown else "", round(time.time() - t0, 2))
    return r == unsat


def one_iter(e, st, cond, inc, body, do_inc=True):
    """-> (state at end or None, breaks, state when condition fails or None)"""
    c = e.truth(e.rv(cond, st)) if cond else BoolVal(True)
    cs = simplify(c)
    out_st = None if is_true(cs) else st.copy(Not(c))
    if is_false(cs):
        return None, [], out_st
    s = st.copy(c) if not is_true(cs) else st.copy()
    end, brk = e.run_body(body, s)
    if end is not None and inc:
        e.ev(inc, end)
    return end, brk, out_st


def sym_loop(e, st, cond, inc, body, node, exits, no, post):
    fr = e.frames[-1]
    if post:
        s, b = e.run_body(body, st)
        exits = exits + b
        if s is None:
            return e.merge(exits)
        st = s
    sub_no = fr.loopno
    start = values._fresh[0]
    keys = set(st.env)
    base = st.copy()

    # ---- 1. which cells does the body change?
    mod = set()
    for rnd in range(12):
        s = havoc(e, base, mod, None)
        sn = Snap(e)
        e.dry += 1
        try:
            fr.loopno = sub_no
            s0 = s.copy()
            end, brk, _ = one_iter(e, s, cond, inc, body)
        finally:
            e.dry -= 1
            sn.undo()
        new = set()
        if end is not None:
            a, b = cells(e, s0, keys), cells(e, end, keys)
            for c, t in b.items():
                old = a.get(c)
                if old is None and c[0] == "H":
                    old = e.h0(c[1])
                if old is None:
                    # a local changed its structure
                    raise Unsupported("loop changes the structure of a variable")
                if not t.eq(old):
                    new.add(c)
            for k in keys:
                va, vb = s0.env.get(k), end.env.get(k)
                if vb is None:
                    continue
                check_struct(va, vb)
        if new <= mod:
            break
        mod |= new
    else:
        raise Unsupported("loop modification analysis")

    # ---- 2. induction variables
    k = fresh("k", IntSort())
    ind = {}
    if end is not None:
        a, b = cells(e, s0, keys), cells(e, end, keys)
        for c in mod:
            if c[0] == "H" or c not in b or c not in a:
                continue
            if a[c].sort() == IntSort():
                d = simplify(b[c] - a[c], som=True)
                if is_int_value(d) and d.as_long() != 0:
                    ind[c] = d.as_long()
    head, hav = head_state(e, base, mod, ind, k)
    # constants standing for the havocked cells
    allow = {k.decl().name()}
    if e.dry:
        # only the effect matters
        fr.loopno = sub_no
        end, brk, out = one_iter(e, head, cond, inc, body)
        fr.loopno = sub_no
        return e.merge(exits + brk + [out])

    # ---- 3. facts about completed iterations
    def run(h, dry=False):
        fr.loopno = sub_no
        h2 = h.copy()
        n = len(h2.pc)
        if dry:
            e.dry += 1
        try:
            r = one_iter(e, h2, cond, inc, body)
        finally:
            if dry:
                e.dry -= 1
        return r, n

    sn = Snap(e)
    (end, brk, out), npc = run(head)
    sn.undo()
    j = fresh("j", IntSort())
    facts = []
    if end is not None:
        if os.environ.get("VC_FACTS"):
            for f in end.pc[npc:]:
                print("fact", closed(f, start, allow), simplify(f))
        for f in resolve_exits(flatten_and([simplify(x) for x in end.pc[npc:]]), start, allow):
            if "ghost!ax" in consts(f):
                continue        # definitions of specification functions, not facts of the code
            if closed(f, start, allow):
                g = substitute(f, (k, j))
                facts.append(ForAll([j], Implies(And(0 <= j, j < k), g)))
            else:
                w = weaken(f, start, allow)
                if w is not None:
                    facts.append(ForAll([j], Implies(And(0 <= j, j < k), substitute(w, (k, j)))))
    base_facts = [k >= 0] + facts

    # ---- 4. candidate invariants
    cands, bodies = [], []
    auto = True
    for spec in e.loopspecs:
        for item in spec(e, LoopCtx(e, base, head, mod, ind, k, no, fr, hav)) or []:
            if item[0] == "only":
                auto = False
            elif item[0].startswith("body:"):
                bodies.append(item)
            elif item[0].startswith("axiom:"):
                # ground instance of the definition of a specification function
                base_facts.append(Or(Not(GHOST), item[1](k)))
                base_facts.append(GHOST)
            else:
                cands.append(item)
    written = {c[0] for c in cands}
    if end is not None and auto:
        cands = templates(e, base, head, end, mod, ind, k, j, start, allow, hav) + cands
    # a candidate: (name, function(state, kterm) -> formula)
    used = {}
    for n, (nm, f) in enumerate(cands):
        used[nm] = used.get(nm, 0) + 1
        if used[nm] > 1:
            cands[n] = ("%s.%d" % (nm, used[nm]), f)
    kept = []
    for nm, f in cands:
        try:
            g0 = f(base, IntVal(0))
        except Unsupported:
            continue
        if g0 is None:
            continue
        if valid(e, base.pc, g0, ground=nm.startswith("g:"), seeds=SEEDS if nm in written else (0,)):
            kept.append((nm, f))
    for rnd in range(len(cands) + 2):
        h = head.copy()
        h.pc += base_facts
        for nm, f in kept:
            h.pc.append(f(h, k))
        if not kept and rnd > 0:
            break
        sn = Snap(e)
        ntr = len(e.trace)
        (end, brk, out), npc = run(h)
        bad = []
        if end is not None:
            for nm, f in kept:
                if not valid(e, end.pc, f(end, k + 1), ground=nm.startswith("g:"),
                             seeds=SEEDS if nm in written else (0,)):
                    bad.append(nm)
                    if os.environ.get("VC_DROPS"):
                        print("drop", nm)
        else:
            break
        if not bad:
            break
        sn.undo()
        kept = [(n, f) for n, f in kept if n not in bad]
        sn.undo()
    else:
        raise Unsupported("invariant fixpoint")
    if end is None or not kept:
        # (re-)run for the final effect
        h = head.copy()
        h.pc += base_facts
        for nm, f in kept:
            h.pc.append(f(h, k))
        sn.undo()
        ntr = len(e.trace)
        (end, brk, out), npc = run(h)
    if out is not None:
        # a counting loop ends with its counter at the bound
        for f in flatten_and([simplify(x) for x in out.pc[len(h.pc):]]):
            b = bound_of(f, k)
            if b is not None and closed(b, start, ()) and valid(e, out.pc, k == b):
                out.pc.append(k == b)
                break
    lname = "%s/loop%d" % (fr.fn.name if fr.fn else "?", no)
    for nm, f in kept:
        e.obls.append(E.Obl("%s/%s/initially" % (lname, nm), list(base.pc), f(base, IntVal(0)), kind="loop-invariant"))
        if end is not None:
            e.obls.append(E.Obl("%s/%s/preserved" % (lname, nm), list(end.pc), f(end, k + 1), kind="loop-invariant"))
    for nm, f in bodies:
        # what one arbitrary iteration does (events: calls under contract, with their path conditions)
        if end is not None:
            ev = [Event(x.kind, x.pc[len(h.pc):] if len(x.pc) >= len(h.pc) else x.pc, x.args, x.st) for x in e.trace[ntr:]]
            for gn, g in f(h, end, k, ev):
                e.obls.append(E.Obl("%s/%s/%s" % (lname, nm[5:], gn), list(end.pc), g, kind="iteration"))
        for s2 in brk:
            e.obls.append(E.Obl("%s/%s/runs-through" % (lname, nm[5:]), list(s2.pc), BoolVal(False), kind="iteration"))
    e.loops_seen.append((fr.fn.qname if fr.fn else "?", no, [n for n, _ in kept]))
    # drop loop-local names from the exit states
    return e.merge(exits + brk + [out])


def bound_of(f, k):
    """B when f is B <= k"""
    if is_not(f):
        g = f.arg(0)
        if is_lt(g) and g.arg(0).eq(k):
            return g.arg(1)
        if is_gt(g) and g.arg(1).eq(k):
            return g.arg(0)
        if is_le(g) and g.arg(1).eq(k):
            return None
        if is_ge(g) and g.arg(0).eq(k):
            return None
    if is_le(f) and f.arg(1).eq(k):
        return f.arg(0)
    if is_ge(f) and f.arg(0).eq(k):
        return f.arg(1)
    return None


class LoopCtx:
    def __init__(self, e, base, head, mod, ind, k, no, fr, hav):
        self.e, self.base, self.head, self.mod, self.ind = e, base, head, mod, ind
        self.k, self.no, self.fr, self.hav = k, no, fr, hav

    def local_cells(self, sort):
        """modified scalar cells of locals with the given sort"""
        out = []
        for c in self.mod:
            if c[0] == "L":
                t = getcell(self.e, self.head, c)
                if t is not None and t.sort() == sort:
                    out.append(c)
        return sorted(out, key=str)

    def sequences(self):
        """sequences the loop may run over: targets of its iterators, unchanged local lists"""
        out = []

        def add(v):
            if isinstance(v, Seq) and not any(v.n.eq(w.n) and all(v.el[p].eq(w.el.get(p)) for p in v.el) for w in out):
                out.append(v)
        for k, v in self.base.env.items():
            try:
                if isinstance(v, Iter):
                    if any(c[:2] == ("L", k) for c in self.mod):
                        add(self.e.load(v.loc, self.base))
                elif isinstance(v, Seq):
                    if not any(c[:2] == ("L", k) for c in self.mod):
                        add(v)
            except Unsupported:
                pass
        return out

    def heap_cells(self, suffix):
        return sorted([c for c in self.mod if c[0] == "H" and any(str(x).endswith(suffix) for x in c[1])], key=str)

    def cell(self, st, c):
        return getcell(self.e, st, c)


def check_struct(a, b):
    if isinstance(a, ExprRef) and isinstance(b, ExprRef):
        return
    if type(a) is not type(b):
        if isinstance(a, (Opq,)) or isinstance(b, (Opq,)):
            return
        if isinstance(a, (Loc, CondLoc)) and isinstance(b, (Loc, CondLoc)):
            raise Unsupported("loop re-binds a reference")
        raise Unsupported("loop changes the kind of a variable (%s, %s)" % (type(a), type(b)))
    if isinstance(a, Iter) and not same_loc(a.loc, b.loc):
        raise Unsupported("loop re-targets an iterator")
    if isinstance(a, CondLoc) and a is not b:
        if not (a.g.eq(b.g)):
            raise Unsupported("loop re-binds a reference")
    if isinstance(a, Loc) and (a.kind != b.kind or a.path != b.path):
        raise Unsupported("loop re-binds a reference")


def havoc(e, base, mod, tag):
    s = base.copy()
    for c in sorted(mod, key=str):
        t = getcell(e, s, c)
        setcell(s, c, fresh("hv", t.sort()))
    return s


def cname(c):
    if c[0] == "L":
        return "v%s" % str(c[1])[-5:] + "".join(str(x).split("::")[-1] for x in c[2:] if not isinstance(x, tuple))
    if c[0] == "H":
        return "H" + ".".join(str(x).split("::")[-1] for x in c[1])
    return "nxt"


def head_state(e, base, mod, ind, k):
    s = base.copy()
    hav = {}
    for c in sorted(mod, key=str):
        t = getcell(e, s, c)
        if c in ind:
            nt = t + k if ind[c] == 1 else t + ind[c] * k
            if is_int_value(t) and t.as_long() == 0 and ind[c] == 1:
                nt = k
            setcell(s, c, nt)
        else:
            h = fresh("hv", t.sort())
            hav[c] = h
            setcell(s, c, h)
    return s, hav


def flatten_and(fs):
    out = []
    for f in fs:
        if is_and(f):
            out += flatten_and(f.children())
        else:
            out.append(f)
    return out


def resolve_exits(fs, start, allow):
    """inner loops end with (counter == closed term): use it to close their facts"""
    for _ in range(4):
        sub = []
        for f in fs:
            if is_eq(f):
                for a, b in ((f.arg(0), f.arg(1)), (f.arg(1), f.arg(0))):
                    if is_const(a) and a.decl().kind() == Z3_OP_UNINTERPRETED and \
                            counter_of(a.decl().name()) > start and a.decl().name() not in allow and \
                            closed(b, start, allow):
                        sub.append((a, b))
                        break
        if not sub:
            break
        seen, uniq = set(), []
        for a, b in sub:
            if a.get_id() not in seen:
                seen.add(a.get_id())
                uniq.append((a, b))
        fs = [simplify(substitute(f, *uniq)) for f in fs]
        fs = [f for f in flatten_and(fs) if not is_true(f)]
    return fs


def weaken(f, start, allow):
    """keep the closed part of a path condition in positive position"""
    if closed(f, start, allow):
        return f
    if is_and(f):
        ws = [weaken(c, start, allow) for c in f.children()]
        ws = [w for w in ws if w is not None]
        return mkand(ws) if ws else None
    if is_or(f):
        ws = [weaken(c, start, allow) for c in f.children()]
        if any(w is None for w in ws):
            return None
        return mkor(ws)
    return None


def templates(e, base, head, end, mod, ind, k, j, start, allow, hav):
    out = []
    if ("nxt",) in mod:
        out.append(("allocation-grows", lambda s, kk: s.nxt >= base.nxt))
    for c in sorted(mod, key=str):
        if c in ind:
            continue
        t0 = getcell(e, base, c)
        th = getcell(e, head, c)
        te = getcell(e, end, c)
        if th is None or te is None:
            continue
        nm = cname(c)
        srt = th.sort()
        if c[0] == "H":
            out += heap_templates(e, c, t0, th, te, base, k, start, allow, nm)
        elif srt == BoolSort():
            gF = simplify(substitute(te, (th, BoolVal(False))))
            gT = simplify(substitute(te, (th, BoolVal(True))))
            if is_true(gT) and closed(gF, start, allow):
                def f(s, kk, c=c, g=gF, t0=t0):
                    return getcell(e, s, c) == Or(t0, Exists([j], And(0 <= j, j < kk, substitute(g, (k, j)))))
                out.append(("flag-" + nm, f))
            if is_false(gF) and closed(gT, start, allow):
                def f(s, kk, c=c, g=gT, t0=t0):
                    return getcell(e, s, c) == And(t0, ForAll([j], Implies(And(0 <= j, j < kk), substitute(g, (k, j)))))
                out.append(("flag-" + nm, f))
        elif srt in (RealSort(), IntSort()):
            out.append(("nondecreasing-" + nm, lambda s, kk, c=c, t0=t0: getcell(e, s, c) >= t0))
            out.append(("nonincreasing-" + nm, lambda s, kk, c=c, t0=t0: getcell(e, s, c) <= t0))
            for br in branches(te, th):
                if not closed(br, start, allow):
                    continue
                def lo(s, kk, c=c, br=br):
                    return ForAll([j], Implies(And(0 <= j, j < kk), getcell(e, s, c) <= substitute(br, (k, j))))
                def hi(s, kk, c=c, br=br):
                    return ForAll([j], Implies(And(0 <= j, j < kk), getcell(e, s, c) >= substitute(br, (k, j))))
                out.append(("min-" + nm, lo))
                out.append(("max-" + nm, hi))
            brs = [b for b in branches(te, th) if not b.eq(th)]
            if brs and all(closed(b, start, allow) for b in brs):
                def at(s, kk, c=c, brs=brs, t0=t0):
                    v = getcell(e, s, c)
                    return Or(v == t0, Exists([j], And(0 <= j, j < kk, mkor([v == substitute(b, (k, j)) for b in brs]))))
                out.append(("attained-" + nm, at))
        elif is_array(th) and c[0] == "L":
            # element array of a sequence
            nc = None
            if c[-2] == "e":
                nc = c[:-2] + ("n",)
            n0 = getcell(e, base, nc) if nc else None
            if n0 is not None:
                i = fresh("i", IntSort())
                def pre(s, kk, c=c, t0=t0, n0=n0, i=i):
                    return ForAll([i], Implies(And(0 <= i, i < n0), Select(getcell(e, s, c), i) == Select(t0, i)))
                out.append(("prefix-" + nm, pre))
                if nc in ind and ind[nc] == 1:
                    v = simplify(Select(te, getcell(e, head, nc)))
                    if closed(v, start, allow):
                        def elt(s, kk, c=c, v=v, n0=n0):
                            return ForAll([j], Implies(And(0 <= j, j < kk),
                                                       Select(getcell(e, s, c), n0 + j) == substitute(v, (k, j))))
                        out.append(("appended-" + nm, elt))
    return out


def branches(te, th):
    """values a conditional update may take"""
    out = []
    stack = [te]
    seen = set()
    while stack:
        x = stack.pop()
        if x.get_id() in seen or len(out) > 8:
            continue
        seen.add(x.get_id())
        if is_app(x) and x.decl().kind() == Z3_OP_ITE:
            stack += [x.arg(1), x.arg(2)]
        elif not x.eq(th):
            out.append(x)
    return out


def store_indices(te, th, acc=None, depth=0):
    """indices written by te relative to th, or None when unknown"""
    acc = [] if acc is None else acc
    if depth > 200:
        return None
    if te.eq(th):
        return acc
    if is_app(te) and te.decl().kind() == Z3_OP_STORE:
        acc.append(te.arg(1))
        return store_indices(te.arg(0), th, acc, depth + 1)
    if is_app(te) and te.decl().kind() == Z3_OP_ITE:
        if store_indices(te.arg(1), th, acc, depth + 1) is None:
            return None
        return store_indices(te.arg(2), th, acc, depth + 1)
    return None


def heap_templates(e, c, t0, th, te, base, k, start, allow, nm):
    out = []
    r = fresh("r", IntSort())
    j = fresh("j", IntSort())
    # only objects allocated by the loop are written
    def only_new(s, kk):
        cell = getcell(e, s, c)
        body = Implies(r < base.nxt, Select(cell, r) == Select(t0, r))
        if is_const_expr(cell):
            return ForAll([r], body, patterns=[Select(cell, r)])
        return ForAll([r], body)
    out.append(("only-new-objects-" + nm, only_new))
    idx = store_indices(te, th)
    if idx is not None:
        idx = list({i.get_id(): i for i in idx}.values())
        if all(closed(i, start, allow) for i in idx) and len(idx) <= 6:
            def frame(s, kk):
                cond = And(*[ForAll([j], Implies(And(0 <= j, j < kk), r != substitute(i, (k, j))))
                             for i in idx])
                return ForAll([r], Implies(cond, Select(getcell(e, s, c), r) == Select(t0, r)))
            out.append(("frame-" + nm, frame))
    return out


def is_const_expr(x):
    return x.num_args() == 0
