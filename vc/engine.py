"""Symbolic executor / VC generator over the clang AST of the real code.

Forward symbolic execution with state merging at every join (so each function
body is turned into one passive formula), inlining of functions that carry no
contract, contract application for those that do, concrete unrolling of loops
with a fixed trip count and an inductive rule for all others.
"""
import z3
from z3 import *
from values import *
import cast

PI = z3.Real("PI")
SQRT = z3.Function("SQRT", RealSort(), RealSort())
ACOS = z3.Function("ACOS", RealSort(), RealSort())
COS = z3.Function("COS", RealSort(), RealSort())
SIN = z3.Function("SIN", RealSort(), RealSort())
TAN = z3.Function("TAN", RealSort(), RealSort())
EXPF = z3.Function("EXP", RealSort(), RealSort())
LOGF = z3.Function("LOG", RealSort(), RealSort())
ATAN2 = z3.Function("ATAN2", RealSort(), RealSort(), RealSort())
POWF = z3.Function("POW", RealSort(), RealSort(), RealSort())
UF1 = {"acos": ACOS, "cos": COS, "sin": SIN, "tan": TAN, "exp": EXPF, "log": LOGF}

MAX_UNROLL = 40
FIXED_GLOBALS = {"cmp_ulp"}     # never written by the repo
MAX_DEPTH = 40


def boolint(x):
    """the condition of a bool promoted to int"""
    if x.sort() == BoolSort():
        return x
    if is_app(x) and x.decl().kind() == Z3_OP_ITE and is_int_value(x.arg(1)) and is_int_value(x.arg(2)) \
            and x.arg(1).as_long() == 1 and x.arg(2).as_long() == 0:
        return x.arg(0)
    return None


class Obl:
    """A proof obligation: assumptions |= goal."""
    __slots__ = ("name", "hyps", "goal", "fn", "kind", "inputs", "where", "weak")

    def __init__(self, name, hyps, goal, fn="", kind="ensures", inputs=None, where=""):
        self.name, self.hyps, self.goal = name, hyps, goal
        self.fn, self.kind, self.inputs, self.where = fn, kind, inputs or {}, where


class Frame:
    def __init__(self, fn, this):
        self.fn, self.this = fn, this
        self.rets = []       # (state, value)
        self.brk = []        # stack of (list breaks, list continues)
        self.loopno = 0
        self.retref = False


class Engine:
    def __init__(self, world):
        self.w = world
        self.t = Types(world)
        self.contracts = []          # list of Contract-like (match(fn), apply)
        self.axioms = []             # global facts (sqrt etc.)
        self.axkeys = set()
        self.obls = []
        self.h0cache = {}
        self.frames = []
        self.throws = []             # guards under which an exception leaves
        self.loopspecs = []          # callbacks
        self.trusted = set()         # names of external functions assumed
        self.used = set()            # functions whose body was executed
        self.called_contracts = set()
        self.fieldshape = {}
        self.intercepts = {}         # qname -> python callable
        self.std_hooks = {}          # std name -> callable
        self.virtual_hook = None
        self.notof = {}
        self.loops_seen = []
        self.trace = []              # calls under contract (loops.Event)
        self.vtype = {}                   # types of local variables
        self.cur = None
        self.dry = 0
        for r in world.recname.values():
            for fk, fs, f in self._ownfields(r):
                self.fieldshape[fk] = fs

    def _ownfields(self, rec):
        for nm, f in rec.fields.items():
            t = f["type"].get("desugaredQualType") or f["type"]["qualType"]
            if Types.is_ref(t):
                yield fkey(rec, nm), REF, f
            else:
                try:
                    sh = self.t.node(f)
                except (Unsupported, ValueError):
                    sh = OPQ
                yield fkey(rec, nm), sh, f
                continue
                try:
                    pass
                except Unsupported:
                    yield fkey(rec, nm), OPQ, f

    # ---------------------------------------------------------------- flat
    def xleaves(self, sh):
        out = []
        for p, l in self.t.leaves(sh):
            if l[0] == "Q":
                out.append((p + ("#n",), IntSort()))
                for q, s in self.xleaves(l[1]):
                    out.append((p + ("#e",) + q, ArraySort(IntSort(), s)))
            else:
                if l[0] not in SORT:
                    raise Unsupported("leaf %s" % (l,))
                out.append((p, SORT[l[0]]))
        return out

    def unflat(self, sh, get):
        """build a value of shape sh; get(xleafpath, sort) -> z3 term"""
        d = {}
        for p, l in self.t.leaves(sh):
            if l[0] == "Q":
                el = {q: get(p + ("#e",) + q, ArraySort(IntSort(), s))
                      for q, s in self.xleaves(l[1])}
                d[p] = Seq(l[1], get(p + ("#n",), IntSort()), el)
            else:
                d[p] = get(p, SORT[l[0]])
        if list(d) == [()]:
            return d[()]
        return Comp(sh, d)

    def flat(self, v, sh):
        """value -> {xleafpath: term}"""
        out = {}

        def leaf(p, x, l):
            if l[0] == "Q":
                if not isinstance(x, Seq):
                    x = self.fresh_val(l, "q")
                out[p + ("#n",)] = x.n
                for q, a in x.el.items():
                    out[p + ("#e",) + q] = a
            else:
                if isinstance(x, Opq) and x.term is not None:
                    x = x.term
                if not isinstance(x, ExprRef):
                    if isinstance(x, Loc) and x.kind == "H" and not x.path:
                        x = x.a
                    else:
                        x = fresh("opq", SORT[l[0]])
                out[p] = self.coerce(x, SORT[l[0]])
        ls = dict(self.t.leaves(sh))
        if isinstance(v, Comp):
            for p, x in v.d.items():
                leaf(p, x, ls.get(p, OPQ))
        else:
            leaf((), v, sh)
        return out

    def coerce(self, x, sort):
        if x.sort() == sort:
            return x
        if sort == RealSort() and x.sort() == IntSort():
            return ToReal(x)
        if sort == BoolSort() and x.sort() == IntSort():
            return x != 0
        if sort == IntSort() and x.sort() == BoolSort():
            return If(x, IntVal(1), IntVal(0))
        if sort == RealSort() and x.sort() == BoolSort():
            return If(x, RealVal(1), RealVal(0))
        if sort == IntSort() and x.sort() == RealSort():
            return If(x >= 0, ToInt(x), -ToInt(-x))
        raise Unsupported("coerce %s to %s" % (x.sort(), sort))

    def fresh_val(self, sh, name):
        if sh == VOID:
            return None
        return self.unflat(sh, lambda p, s: fresh(name + "".join(
            "." + str(x).split("::")[-1] for x in p), s))

    def named_val(self, sh, name):
        return self.unflat(sh, lambda p, s: Const(name + "".join(
            "." + str(x).split("::")[-1] for x in p), s))

    def zero(self, sh):
        def z(p, s):
            if s == RealSort():
                return RealVal(0)
            if s == IntSort():
                return IntVal(0)
            if s == BoolSort():
                return BoolVal(False)
            return fresh("z", s)
        return self.unflat(sh, z)

    # ---------------------------------------------------------------- heap
    def hkeyname(self, key):
        return "H" + "".join("." + str(p) for p in key)

    def h0(self, key):
        if key not in self.h0cache:
            raise Unsupported("heap key " + str(key))
        return self.h0cache[key]

    def hget(self, st, key, sort):
        if key in st.heap:
            return st.heap[key]
        if key not in self.h0cache:
            self.h0cache[key] = Const(self.hkeyname(key), ArraySort(IntSort(), sort))
        return self.h0cache[key]

    def path_shape(self, path):
        f = path[0]
        if f not in self.fieldshape:
            raise Unsupported("unknown field " + str(f))
        return self.t.sub(self.fieldshape[f], path[1:])

    # ---------------------------------------------------------------- load/store
    def load(self, loc, st):
        if isinstance(loc, CondLoc):
            return ite(loc.g, self.load(loc.x, st), self.load(loc.y, st))
        if not isinstance(loc, Loc):
            return loc
        if loc.kind == "L":
            if loc.a not in st.env:
                raise Unsupported("unbound variable %s" % (loc.a,))
            v = st.env[loc.a]
            if isinstance(v, (Loc, CondLoc)):
                return self.load(v.at(*loc.path), st) if loc.path else self.load(v, st)
            if loc.path:
                if isinstance(v, Comp):
                    return v.sub(self.t, loc.path)
                raise Unsupported("path %s of %r" % (loc.path, v))
            return v
        if loc.kind == "H":
            if not loc.path:
                if loc.cls is None:
                    return loc
                sh = ("S", loc.cls)
                return self.unflat(sh, lambda p, s: Select(self.hget(st, p, s), loc.a))
            sh = self.path_shape(loc.path)
            return self.unflat(sh, lambda p, s: Select(self.hget(st, loc.path + p, s), loc.a))
        if loc.kind == "Q":
            q = self.load(loc.a, st)
            if isinstance(q, Comp) and q.sh[0] == "A":
                v = self.arr_sel(q, loc.b)
            elif isinstance(q, Seq):
                v = self.unflat(q.esh, lambda p, s: Select(q.el[p], loc.b))
            else:
                raise Unsupported("element of %r" % (q,))
            if loc.path:
                return v.sub(self.t, loc.path)
            return v
        raise Unsupported("load " + str(loc))

    def arr_sel(self, q, idx):
        n = q.sh[1]
        i = simplify(idx)
        if is_int_value(i):
            return q.sub(self.t, (i.as_long(),))
        r = q.sub(self.t, (n - 1,))
        for j in range(n - 2, -1, -1):
            r = ite(idx == j, q.sub(self.t, (j,)), r)
        return r

    def store(self, loc, val, st):
        if isinstance(loc, CondLoc):
            if isinstance(val, (Loc, CondLoc)):
                val = self.load(val, st)
            ox = self.load(loc.x, st)
            self.store(loc.x, ite(loc.g, val, ox), st)
            oy = self.load(loc.y, st)
            self.store(loc.y, ite(loc.g, oy, val), st)
            return
        if isinstance(val, (Loc, CondLoc)) and not (isinstance(val, Loc) and val.kind == "H" and not val.path):
            val = self.load(val, st)
        if loc.kind == "L":
            cur = st.env.get(loc.a)
            if isinstance(cur, (Loc, CondLoc)):
                self.store(cur.at(*loc.path) if loc.path else cur, val, st)
                return
            if not loc.path:
                if isinstance(cur, ExprRef) and isinstance(val, ExprRef) and cur.sort() != val.sort():
                    val = self.coerce(val, cur.sort())
                st.env[loc.a] = val
                return
            if not isinstance(cur, Comp):
                raise Unsupported("store into %r" % (cur,))
            d = dict(cur.d)
            n = len(loc.path)
            if isinstance(val, Comp):
                for p, x in val.d.items():
                    d[loc.path + p] = x
            else:
                old = d.get(loc.path)
                if isinstance(old, ExprRef) and isinstance(val, ExprRef):
                    val = self.coerce(val, old.sort())
                d[loc.path] = val
            st.env[loc.a] = Comp(cur.sh, d)
            return
        if loc.kind == "H":
            if not loc.path:
                if isinstance(val, Comp):
                    for p, x in self.flat(val, val.sh).items():
                        arr = self.hget(st, p, x.sort())
                        st.heap[p] = Store(arr, loc.a, x)
                    return
                raise Unsupported("store whole heap object")
            sh = self.path_shape(loc.path)
            for p, x in self.flat(val, sh).items():
                key = loc.path + p
                arr = self.hget(st, key, x.sort())
                st.heap[key] = Store(arr, loc.a, x)
            return
        if loc.kind == "Q":
            q = self.load(loc.a, st)
            if isinstance(q, Comp) and q.sh[0] == "A":
                i = simplify(loc.b)
                base = loc.a
                if is_int_value(i):
                    self.store(base.at(i.as_long(), *loc.path), val, st)
                    return
                for j in range(q.sh[1]):
                    l2 = base.at(j, *loc.path)
                    self.store(l2, ite(loc.b == j, val, self.load(l2, st)), st)
                return
            if not isinstance(q, Seq):
                raise Unsupported("store element of %r" % (q,))
            el = dict(q.el)
            sh = self.t.sub(q.esh, loc.path)
            for p, x in self.flat(val, sh).items():
                k = loc.path + p
                el[k] = Store(el[k], loc.b, self.coerce(x, el[k].sort().range()))
            self.store(loc.a, Seq(q.esh, q.n, el), st)
            return
        raise Unsupported("store")

    # ---------------------------------------------------------------- misc
    def axiom(self, key, f, trig=None):
        if key not in self.axkeys:
            self.axkeys.add(key)
            self.axioms.append((trig, f))

    def sqrt(self, x):
        x = simplify(x) if x.num_args() == 0 else x
        if is_rational_value(x):
            fr = x.as_fraction()
            import math
            if fr >= 0:
                a, b = math.isqrt(fr.numerator), math.isqrt(fr.denominator)
                if a * a == fr.numerator and b * b == fr.denominator:
                    return RealVal("%d/%d" % (a, b))
        s = SQRT(x)
        self.axiom(("sqrt", x.get_id()), Implies(x >= 0, And(s >= 0, s * s == x)), s)
        return s

    def acos(self, x):
        s = ACOS(x)
        self.axiom(("acos", x.get_id()), Implies(And(x >= -1, x <= 1), And(s >= 0, s <= PI)), s)
        self.axiom("pi", And(PI > RealVal("3141592/1000000"), PI < RealVal("3141593/1000000")), PI)
        return s

    def tmp(self, st, v):
        k = fresh_name("tmp")
        st.env[k] = v
        return Loc("L", k)

    def branch(self, st, cond):
        """-> (then_state|None, else_state|None)"""
        c = simplify(cond)
        if is_true(c):
            return st, None
        if is_false(c):
            return None, st
        return st.copy(cond), st.copy(Not(cond))

    def merge(self, sts):
        return merge_states(sts, self.h0)

    def truth(self, v):
        if isinstance(v, ExprRef):
            if v.sort() == BoolSort():
                return v
            return v != 0
        if isinstance(v, (Ptr, Loc, CondLoc, Lam)):
            return BoolVal(True)
        if isinstance(v, Iter):
            return BoolVal(True)
        if isinstance(v, Opq):
            return fresh("opqbool", BoolSort())
        raise Unsupported("truth of %r" % (v,))

    # ==================================================================
    # Statements.  Each returns the fall-through state or None.
    # ==================================================================
    def exec(self, n, st):
        k = n.get("kind")
        if k is None or k in ("NullStmt", "StaticAssertDecl"):
            return st
        m = getattr(self, "s_" + k, None)
        if m is not None:
            return m(n, st)
        # expression statement
        r = self.ev(n, st)
        return self.after_expr(st)

    def after_expr(self, st):
        # an expression may have ended the path (throw)
        if st.pc and is_false(st.pc[-1]):
            return None
        return st

    def s_CompoundStmt(self, n, st):
        for c in n.get("inner", []):
            st = self.exec(c, st)
            if st is None:
                return None
        return st

    def s_DeclStmt(self, n, st):
        for c in n.get("inner", []):
            if c.get("kind") == "VarDecl":
                self.decl_var(c, st)
                st = self.after_expr(st)
                if st is None:
                    return None
            elif c.get("kind") in ("TypeAliasDecl", "TypedefDecl", "UsingDecl",
                                   "StaticAssertDecl", "UsingDirectiveDecl", "CXXRecordDecl"):
                continue
            else:
                raise Unsupported("declaration " + str(c.get("kind")))
        return st

    def decl_var(self, c, st):
        t = c["type"].get("desugaredQualType") or c["type"]["qualType"]
        self.vtype[c["id"]] = t
        init = [x for x in c.get("inner", []) if x.get("kind") and not x["kind"].endswith("Attr")
                and not x["kind"].endswith("Comment")]
        if c.get("storageClass") == "static":
            st.env[c["id"]] = Opq("static")
            if not init:
                return
        if Types.is_ref(t):
            v = self.ev(init[-1], st)
            if not isinstance(v, (Loc, CondLoc)):
                v = self.tmp(st, v)
            st.env[c["id"]] = v
            return
        if not init:
            sh = self.t.node(c)
            st.env[c["id"]] = self.fresh_val(sh, c.get("name", "v"))
            return
        v = self.rv(init[-1], st)
        if isinstance(v, ExprRef):
            sh = self.t.node(c)
            if sh[0] in SORT:
                v = self.coerce(v, SORT[sh[0]])
        st.env[c["id"]] = v

    def s_ReturnStmt(self, n, st):
        inner = n.get("inner", [])
        fr = self.frames[-1]
        v = None
        if inner:
            v = self.ev(inner[0], st)
            if not fr.retref:
                if isinstance(v, (Loc, CondLoc)):
                    v = self.load(v, st)
            elif not isinstance(v, (Loc, CondLoc)) and v is not None:
                v = self.tmp(st, v)
        if self.after_expr(st) is None:
            return None
        fr.rets.append((st, v))
        return None

    def s_IfStmt(self, n, st):
        inner = [x for x in n.get("inner", [])]
        i = 0
        if n.get("hasInit"):
            st = self.exec(inner[i], st); i += 1
        if n.get("hasVar"):
            st = self.exec(inner[i], st); i += 1
        cn = inner[i]; i += 1
        if n.get("isConstexpr"):
            pass
        c = self.truth(self.rv(cn, st))
        if self.after_expr(st) is None:
            return None
        a, b = self.branch(st, c)
        if a is not None:
            a = self.exec(inner[i], a)
        if b is not None and n.get("hasElse"):
            b = self.exec(inner[i + 1], b)
        return self.merge([a, b])

    def s_SwitchStmt(self, n, st):
        inner = n["inner"]
        v = self.rv(inner[-2], st)
        body = inner[-1]
        fr = self.frames[-1]
        fr.brk.append(([], []))
        # flatten cases
        items = []

        def flatten(c):
            if c.get("kind") == "CaseStmt":
                items.append(("case", c["inner"][0]))
                flatten(c["inner"][-1])
            elif c.get("kind") == "DefaultStmt":
                items.append(("default", None))
                flatten(c["inner"][-1])
            else:
                items.append(("stmt", c))
        for c in body.get("inner", []):
            flatten(c)
        conds = []
        cur = None
        matched = BoolVal(False)
        default_pos = None
        allc = [v == self.rv(x, st) for kk, x in items if kk == "case"]
        for kk, x in items:
            if kk == "case":
                c = v == self.rv(x, st)
                ent = st.copy(And(c, Not(matched)))
                matched = simplify(Or(matched, c))
                cur = ent if cur is None else self.merge([cur, ent])
            elif kk == "default":
                ent = st.copy(Not(mkor(allc)))
                cur = ent if cur is None else self.merge([cur, ent])
                default_pos = True
            elif cur is not None:
                cur = self.exec(x, cur)
        outs = [cur]
        if not default_pos:
            outs.append(st.copy(Not(mkor(allc))))
        b, _ = fr.brk.pop()
        # continue inside switch belongs to the outer loop
        if _:
            if not fr.brk:
                raise Unsupported("continue in switch")
            fr.brk[-1][1].extend(_)
        return self.merge(outs + b)

    def s_BreakStmt(self, n, st):
        self.frames[-1].brk[-1][0].append(st)
        return None

    def s_ContinueStmt(self, n, st):
        self.frames[-1].brk[-1][1].append(st)
        return None

    def s_CXXTryStmt(self, n, st):
        # exceptions end the path (see 'throws'); handlers are not entered
        return self.exec(n["inner"][0], st)

    def s_ForStmt(self, n, st):
        inner = n["inner"]
        init, condvar, cond, inc, body = inner[0], inner[1], inner[2], inner[3], inner[4]
        if init.get("kind"):
            st = self.exec(init, st)
        return self.loop(st, cond if cond.get("kind") else None,
                         inc if inc.get("kind") else None, body, n)

    def s_WhileStmt(self, n, st):
        inner = n["inner"]
        return self.loop(st, inner[-2], None, inner[-1], n)

    def s_DoStmt(self, n, st):
        body, cond = n["inner"][0], n["inner"][1]
        return self.loop(st, cond, None, body, n, post=True)

    def s_CXXForRangeStmt(self, n, st):
        inner = n["inner"]
        init, rng, beg, end, cond, inc, var, body = inner[:8]
        if init.get("kind"):
            st = self.exec(init, st)
        st = self.exec(rng, st)
        # begin/end are re-evaluated through our own sequence iterators
        rid = rng["inner"][0]["id"]
        base = st.env[rid]
        seqloc = self.as_sequence(base, st)
        bid, eid = beg["inner"][0]["id"], end["inner"][0]["id"]
        st.env[bid] = Iter(seqloc, IntVal(0))
        st.env[eid] = Iter(seqloc, self.seqlen(seqloc, st))
        return self.loop(st, cond, inc, (var, body), n)

    def as_sequence(self, loc, st):
        """location whose value is a Seq / array for a range expression"""
        v = self.load(loc, st)
        if isinstance(v, Seq) or (isinstance(v, Comp) and v.sh[0] == "A"):
            return loc
        if isinstance(v, Comp) and v.sh[0] == "S" or isinstance(v, Loc):
            # class with begin(): execute it and take its iterator's sequence
            cls = v.sh[1] if isinstance(v, Comp) else self.loc_class(loc)
            if cls is None:
                raise Unsupported("range over object of unknown class")
            f = self.method(cls, "begin")
            it = self.call(f, loc, [], st)
            if isinstance(it, (Loc, CondLoc)):
                it = self.load(it, st)
            if isinstance(it, Iter):
                return it.loc
        raise Unsupported("range over %r" % (v,))

    def loc_class(self, loc):
        if isinstance(loc, Loc):
            if loc.cls and not loc.path:
                return loc.cls
            if loc.kind == "H" and loc.path:
                sh = self.path_shape(loc.path)
                if sh[0] == "S":
                    return sh[1]
        return None

    def method(self, cls, name, nargs=0):
        rec = self.w.recname.get(cls)
        while rec is not None:
            for f in rec.methods:
                if f.name == name and len(f.params) == nargs and f.body is not None:
                    return f
            nb = None
            for b in rec.bases:
                br = self.t.rec(strip_cv(b.get("desugaredQualType") or b["qualType"]))
                if br is not None:
                    nb = br
            rec = nb
        raise Unsupported("no method %s in %s" % (name, cls))

    def seqlen(self, loc, st):
        v = self.load(loc, st)
        if isinstance(v, Seq):
            return v.n
        if isinstance(v, Comp) and v.sh[0] == "A":
            return IntVal(v.sh[1])
        raise Unsupported("length of %r" % (v,))

    # ---------------------------------------------------------------- loops
    def run_body(self, body, st):
        """one iteration; returns (fallthrough incl. continue, breaks)"""
        fr = self.frames[-1]
        fr.brk.append(([], []))
        parts = body if isinstance(body, tuple) else (body,)
        s = st
        for p in parts:
            if s is None:
                break
            s = self.exec(p, s)
        b, c = fr.brk.pop()
        return self.merge([s] + c), b

    def loop(self, st, cond, inc, body, node, post=False):
        fr = self.frames[-1]
        no = fr.loopno
        fr.loopno += 1
        exits = []
        n = 0
        first = post
        sub_loopno = fr.loopno
        while True:
            if not first:
                c = self.truth(self.rv(cond, st)) if cond else BoolVal(True)
                cs = simplify(c)
                if is_false(cs):
                    exits.append(st)
                    break
                if not is_true(cs) or n == 0 and self.forever(cond):
                    return self.sym_loop(st, cond, inc, body, node, exits, no, False)
            first = False
            n += 1
            if n > MAX_UNROLL:
                raise Unsupported("loop unrolling limit")
            fr.loopno = sub_loopno
            pre_heap, pre_env = len(st.pc), None
            st, b = self.run_body(body, st)
            exits += b
            if st is None:
                break
            if inc:
                self.ev(inc, st)
            if len(st.pc) > 60:
                raise Unsupported("unbounded unrolling")
        return self.merge(exits)

    def forever(self, cond):
        while cond and cond.get("kind") in ("ParenExpr", "ImplicitCastExpr", "ExprWithCleanups"):
            cond = cond["inner"][0]
        return not cond or cond.get("kind") in ("CXXBoolLiteralExpr", "IntegerLiteral")

    def sym_loop(self, st, cond, inc, body, node, exits, no, post):
        import loops
        return loops.sym_loop(self, st, cond, inc, body, node, exits, no, post)

    # ==================================================================
    # Expressions
    # ==================================================================
    def rv(self, n, st):
        v = self.ev(n, st)
        if isinstance(v, (Loc, CondLoc)):
            return self.load(v, st)
        return v

    def ev(self, n, st):
        k = n.get("kind")
        m = getattr(self, "e_" + k, None)
        if m is None:
            raise Unsupported("expression " + str(k))
        return m(n, st)

    def _first(self, n, st):
        return self.ev(n["inner"][0], st)

    e_ParenExpr = _first
    e_ExprWithCleanups = _first
    e_CXXBindTemporaryExpr = _first
    e_ConstantExpr = _first
    e_CXXConstCastExpr = _first
    e_SubstNonTypeTemplateParmExpr = _first
    e_FullExpr = _first

    def e_SubstNonTypeTemplateParmExpr(self, n, st):
        return self.ev(n["inner"][-1], st)

    def e_MaterializeTemporaryExpr(self, n, st):
        v = self.ev(n["inner"][0], st)
        if isinstance(v, (Loc, CondLoc)):
            return v
        return self.tmp(st, v)

    def e_IntegerLiteral(self, n, st):
        return IntVal(int(n["value"]))

    def e_CharacterLiteral(self, n, st):
        return IntVal(int(n["value"]))

    def e_FloatingLiteral(self, n, st):
        return num(Fraction(float(n["value"])))

    def e_CXXBoolLiteralExpr(self, n, st):
        return BoolVal(bool(n["value"]))

    def e_StringLiteral(self, n, st):
        return Opq("str:" + n.get("value", ""))

    def e_CXXNullPtrLiteralExpr(self, n, st):
        return IntVal(0)

    def e_GNUNullExpr(self, n, st):
        return IntVal(0)

    def e_ImplicitValueInitExpr(self, n, st):
        return self.zero(self.t.node(n))

    def e_CXXScalarValueInitExpr(self, n, st):
        return self.zero(self.t.node(n))

    def e_CXXThisExpr(self, n, st):
        this = self.frames[-1].this
        if isinstance(this, Loc) and this.kind == "H" and not this.path:
            return this.a
        return Ptr(this)

    def e_PredefinedExpr(self, n, st):
        return Opq("str")

    def e_UnaryExprOrTypeTraitExpr(self, n, st):
        return fresh("sizeof", IntSort())

    def e_DeclRefExpr(self, n, st):
        r = n["referencedDecl"]
        i = r["id"]
        if i in st.env:
            v = st.env[i]
            if isinstance(v, (Loc, CondLoc)):
                return v
            return Loc("L", i)
        if r["kind"] == "EnumConstantDecl":
            if i in self.w.enumval:
                return IntVal(self.w.enumval[i])
            raise Unsupported("enum " + str(r.get("name")))
        if r["kind"] == "VarDecl":
            d = self.w.vardecl.get(i)
            if d is None:
                d = self.w.decl.get(i)
            if d is None:
                nm = r.get("name")
                if nm in ("cout", "cerr", "clog"):
                    return Stream(nm)
                return Opq("global:" + str(nm))
            init = [x for x in d.get("inner", []) if x.get("kind") and
                    not x["kind"].endswith("Attr") and not x["kind"].endswith("Comment")]
            ty = d["type"].get("qualType", "")
            if init and ("const" in ty or d.get("constexpr") or d.get("name") in FIXED_GLOBALS):
                if d.get("name") in FIXED_GLOBALS:
                    self.trusted.add("mutable static %s keeps its initial value" % d.get("name"))
                v = self.rv(init[-1], st)
                if isinstance(v, ExprRef):
                    sh = self.t.node(d)
                    if sh[0] in SORT:
                        v = self.coerce(v, SORT[sh[0]])
                return v
            # mutable global: an unknown but fixed value
            key = "glob:" + str(i)
            if key not in st.env:
                sh = self.t.node(d)
                st.env[key] = self.named_val(sh, "glob_" + d.get("name", "g"))
            return Loc("L", key)
        if r["kind"] in ("FunctionDecl", "CXXMethodDecl"):
            return Opq("fn:" + i)
        if r["kind"] == "ParmVarDecl":
            raise Unsupported("unbound parameter " + str(r.get("name")))
        raise Unsupported("reference to " + r["kind"])

    def e_MemberExpr(self, n, st):
        mid = n.get("referencedMemberDecl")
        if mid in self.w.fieldrec:
            rec = self.w.fieldrec[mid]
            f = self.w.decl[mid]
            base = self.ev(n["inner"][0], st)
            if n.get("isArrow"):
                base = self.deref(base, st, n["inner"][0])
            if not isinstance(base, (Loc, CondLoc)):
                base = self.tmp(st, base)
            t = f["type"].get("desugaredQualType") or f["type"]["qualType"]
            if Types.is_ref(t) and f.get("hasInClassInitializer"):
                # reference member bound by its in-class initialiser
                self.check_refmember(rec, f)
                init = [x for x in f.get("inner", []) if x.get("kind")][-1]
                self.frames.append(Frame(None, base))
                v = self.ev(init, st)
                self.frames.pop()
                return v
            p = base.at(fkey(rec, n["name"]))
            if Types.is_ref(t):
                v = self.load(p, st)
                if isinstance(v, ExprRef):
                    sh = self.t.shape(t)
                    return Loc("H", v, cls=sh[1] if sh[0] == "S" else None)
                return v
            return p
        # std::pair members, static members
        if n["name"] in ("first", "second"):
            base = self.ev(n["inner"][0], st)
            if n.get("isArrow"):
                base = self.deref(base, st, n["inner"][0])
            if not isinstance(base, (Loc, CondLoc)):
                base = self.tmp(st, base)
            return base.at(n["name"])
        if mid in self.w.vardecl or mid in self.w.decl:
            d = self.w.vardecl.get(mid) or self.w.decl[mid]
            if d["kind"] == "VarDecl":
                return self.e_DeclRefExpr({"referencedDecl": d}, st)
        raise Unsupported("member " + n["name"])

    def check_refmember(self, rec, f):
        key = ("refm", rec.qname, f["name"])
        if key in self.axkeys:
            return
        self.axkeys.add(key)
        for c in rec.methods:
            if c.kind == "CXXConstructorDecl":
                for i in c.inits:
                    a = i.get("anyInit")
                    if a and a.get("name") == f["name"]:
                        if i["inner"][0].get("kind") != "CXXDefaultInitExpr":
                            raise Unsupported("reference member re-bound in a constructor")

    def deref(self, v, st, node=None):
        """pointer value -> location"""
        if isinstance(v, (Loc, CondLoc)):
            v = self.load(v, st)
        if isinstance(v, Ptr):
            return v.loc
        if isinstance(v, Iter):
            return self.iter_loc(v, st)
        if isinstance(v, ExprRef) and v.sort() == IntSort():
            cls = None
            if node is not None and "type" in node:
                t = strip_cv(node["type"].get("desugaredQualType") or node["type"]["qualType"])
                if t.endswith("*"):
                    r = self.t.rec(strip_cv(t[:-1]))
                    cls = r.qname if r else None
            self.deref_check(v, st)
            return Loc("H", v, cls=cls)
        if isinstance(v, Loc):
            return v
        raise Unsupported("dereference of %r" % (v,))

    def deref_check(self, v, st):
        pass

    def iter_loc(self, it, st):
        loc = Loc("Q", it.loc, it.idx)
        q = self.load(it.loc, st)
        if isinstance(q, Comp) and q.sh[0] == "A":
            i = simplify(it.idx)
            if is_int_value(i) and i.as_long() < q.sh[1]:
                return it.loc.at(i.as_long())
        return loc

    # ---------------------------------------------------------------- casts
    def e_ImplicitCastExpr(self, n, st):
        ck = n.get("castKind")
        x = n["inner"][0]
        if ck == "LValueToRValue":
            v = self.ev(x, st)
            if isinstance(v, (Loc, CondLoc)):
                return self.load(v, st)
            return v
        if ck in ("NoOp", "UncheckedDerivedToBase", "DerivedToBase", "BaseToDerived",
                  "FunctionToPointerDecay", "ArrayToPointerDecay", "UserDefinedConversion",
                  "ConstructorConversion", "BitCast", "Dynamic", "LValueBitCast"):
            v = self.ev(x, st)
            if ck == "ArrayToPointerDecay" and isinstance(v, Loc):
                return Iter(v, IntVal(0)) if not isinstance(v, Opq) else v
            return v
        if ck == "ToVoid":
            self.ev(x, st)
            return None
        v = self.rv(x, st)
        if ck == "NullToPointer":
            return IntVal(0)
        if isinstance(v, Opq):
            sh = self.t.node(n)
            return fresh("opq", SORT[sh[0]]) if sh[0] in SORT else v
        if ck in ("IntegralToFloating",):
            return self.coerce(v, RealSort())
        if ck in ("FloatingToIntegral",):
            return self.coerce(v, IntSort())
        if ck in ("IntegralToBoolean", "PointerToBoolean", "FloatingToBoolean",
                  "MemberPointerToBoolean"):
            return self.truth(v)
        if ck in ("IntegralCast", "FloatingCast"):
            sh = self.t.node(n)
            if sh[0] in SORT:
                v = self.coerce(v, SORT[sh[0]])
                t = strip_cv(n["type"].get("desugaredQualType") or n["type"]["qualType"])
                if v.sort() == IntSort() and self.w.underlying.get(t.split("::")[-1], t) in ("unsigned char", "uint8_t", "std::uint8_t"):
                    s = strip_cv(n["inner"][0]["type"].get("desugaredQualType") or n["inner"][0]["type"]["qualType"])
                    if self.w.underlying.get(s.split("::")[-1], s) not in ("unsigned char", "uint8_t", "std::uint8_t"):
                        v = self.byte(v)
                return v
            return v
        if ck in ("PointerToIntegral", "IntegralToPointer"):
            return v
        raise Unsupported("cast " + str(ck))

    e_CXXStaticCastExpr = e_ImplicitCastExpr
    e_CStyleCastExpr = e_ImplicitCastExpr
    e_CXXFunctionalCastExpr = e_ImplicitCastExpr
    e_CXXReinterpretCastExpr = e_ImplicitCastExpr

    def e_CXXDynamicCastExpr(self, n, st):
        v = self.rv(n["inner"][0], st)
        t = strip_cv(n["type"]["qualType"])
        f = z3.Function("DYN_" + norm_t(t.rstrip("*").strip()), IntSort(), BoolSort())
        if isinstance(v, ExprRef):
            return If(f(v), v, IntVal(0))
        raise Unsupported("dynamic_cast")

    # ---------------------------------------------------------------- operators
    def e_UnaryOperator(self, n, st):
        op = n["opcode"]
        x = n["inner"][0]
        if op == "&":
            v = self.ev(x, st)
            if isinstance(v, Loc) and v.kind == "H" and not v.path:
                return v.a
            if isinstance(v, CondLoc):
                try:
                    return self.addr_cond(v)
                except Unsupported:
                    return Ptr(v)
            if isinstance(v, Opq):
                return v
            return Ptr(v)
        if op == "*":
            v = self.rv(x, st)
            return self.deref(v, st, x)
        if op in ("++", "--"):
            loc = self.ev(x, st)
            v = self.load(loc, st)
            d = 1 if op == "++" else -1
            if isinstance(v, Iter):
                nv = Iter(v.loc, v.idx + d)
            else:
                nv = v + d
            if isinstance(nv, ExprRef):
                nv = simplify(nv) if is_int_value(simplify(nv)) else nv
            elif is_int_value(simplify(nv.idx)):
                nv = Iter(nv.loc, simplify(nv.idx))
            self.store(loc, nv, st)
            return v if n.get("isPostfix") else loc
        v = self.rv(x, st)
        if op == "-":
            return -v
        if op == "+":
            return v
        if op == "!":
            return Not(self.truth(v))
        if op == "~":
            f = z3.Function("BITNOT", IntSort(), IntSort())
            return self.bitop("~", v)
        raise Unsupported("unary " + op)

    def addr_cond(self, v):
        if isinstance(v, CondLoc):
            return If(v.g, self.addr_cond(v.x), self.addr_cond(v.y))
        if isinstance(v, Loc) and v.kind == "H" and not v.path:
            return v.a
        raise Unsupported("address of conditional location")

    BIT = z3.Function("BIT", IntSort(), IntSort(), BoolSort())
    AND8 = z3.Function("AND8", IntSort(), IntSort(), IntSort())
    OR8 = z3.Function("OR8", IntSort(), IntSort(), IntSort())
    XOR8 = z3.Function("XOR8", IntSort(), IntSort(), IntSort())
    NOT8 = z3.Function("NOT8", IntSort(), IntSort())

    def bits(self, x):
        """link a byte value to its bits"""
        x = simplify(x)
        if is_int_value(x):
            return [BoolVal(bool(x.as_long() >> i & 1)) for i in range(8)]
        bs = [self.BIT(x, i) for i in range(8)]
        self.axiom(("byte", x.sexpr()), Implies(And(x >= 0, x < 256), And(
            (x == 0) == Not(Or(bs)), x == Sum([If(b, 1 << i, 0) for i, b in enumerate(bs)]))), bs[0])
        return bs

    def bitop(self, op, a, b=None):
        """bit operations of byte-sized values (flag sets)"""
        self.trusted.add("bit operations on 8-bit flag values")
        if b is None:
            r = -1 - a
            self.notof[r.get_id()] = (r, a)
            return r
        pa, pb = boolint(a), boolint(b)
        if pa is not None and pb is not None:
            return If({"&": And, "|": Or, "^": Xor}[op](pa, pb), IntVal(1), IntVal(0))
        f = {"&": self.AND8, "|": self.OR8, "^": self.XOR8}[op]
        r = f(a, b)
        if op == "&" and is_int_value(simplify(b)) and simplify(b).as_long() == 1:
            # the lowest bit of a non-negative number is its parity
            self.axiom(("parity", r.sexpr()), Implies(a >= 0, r == a % 2), r)
        x, y, z = self.bits(a), self.bits(b), [self.BIT(r, i) for i in range(8)]
        g = {"&": lambda p, q: And(p, q), "|": lambda p, q: Or(p, q), "^": lambda p, q: Xor(p, q)}[op]
        self.axiom(("bitop", r.sexpr()), Implies(And(a >= 0, a < 256, b >= 0, b < 256), And(
                   [z[i] == g(x[i], y[i]) for i in range(8)] + [r >= 0, r < 256,
                   r == Sum([If(t, 1 << i, 0) for i, t in enumerate(z)])])), r)
        return r

    def byte(self, v):
        """conversion to an unsigned 8-bit type"""
        if v.get_id() in self.notof:
            a = self.notof[v.get_id()][1]
            r = self.NOT8(a)
            x, z = self.bits(a), [self.BIT(r, i) for i in range(8)]
            self.axiom(("bitop", r.sexpr()), Implies(And(a >= 0, a < 256), And(
                       [z[i] == Not(x[i]) for i in range(8)] + [r >= 0, r < 256,
                       r == Sum([If(t, 1 << i, 0) for i, t in enumerate(z)])])), r)
            return r
        if is_app(v) and v.decl().name() in ("AND8", "OR8", "XOR8", "NOT8"):
            return v
        return simplify(v % 256)

    def pure_sub(self, n, st, guard):
        """evaluate n under an extra guard; keep its side effects conditional"""
        s2 = st.copy(guard)
        v = self.rv(n, s2)
        return v, s2

    def e_BinaryOperator(self, n, st):
        op = n["opcode"]
        a, b = n["inner"]
        if op == "=":
            # rhs first is fine: operands in this code base do not interfere
            lhs = self.ev(a, st)
            v = self.rv(b, st)
            self.store(lhs, v, st)
            return lhs
        if op == ",":
            self.ev(a, st)
            return self.ev(b, st)
        if op in ("&&", "||"):
            x = self.truth(self.rv(a, st))
            sx = simplify(x)
            if is_true(sx) or is_false(sx):
                if is_true(sx) == (op == "&&"):
                    return self.truth(self.rv(b, st))
                return sx
            g = x if op == "&&" else Not(x)
            s2 = st.copy(g)
            y = self.truth(self.rv(b, s2))
            self.absorb(st, s2, st.copy(Not(g)))
            return And(x, y) if op == "&&" else Or(x, y)
        x = self.rv(a, st)
        y = self.rv(b, st)
        return self.binop(op, x, y, st)

    def absorb(self, st, s1, s2):
        """replace st's contents by the merge of two continuations of st"""
        m = self.merge([s1, s2])
        st.env, st.heap, st.pc, st.nxt, st.out = m.env, m.heap, m.pc, m.nxt, m.out

    def binop(self, op, x, y, st):
        if isinstance(x, Iter) or isinstance(y, Iter):
            return self.iter_op(op, x, y, st)
        if isinstance(x, (Ptr, Loc)) or isinstance(y, (Ptr, Loc)):
            return self.ptr_cmp(op, x, y)
        if isinstance(x, Opq) or isinstance(y, Opq):
            if op in ("==", "!=", "<", ">", "<=", ">="):
                tx = x.term if isinstance(x, Opq) else x
                ty = y.term if isinstance(y, Opq) else y
                if isinstance(tx, ExprRef) and isinstance(ty, ExprRef):
                    return self.binop(op, tx, ty, st)
                return fresh("opqcmp", BoolSort())
            return Opq("binop")
        if x.sort() != y.sort():
            if x.sort() == BoolSort():
                x = self.coerce(x, IntSort())
            if y.sort() == BoolSort():
                y = self.coerce(y, IntSort())
            if x.sort() != y.sort():
                x, y = self.coerce(x, RealSort()), self.coerce(y, RealSort())
        if x.sort() == BoolSort() and op not in ("==", "!=", "&", "|", "^"):
            x, y = self.coerce(x, IntSort()), self.coerce(y, IntSort())
        if op == "+":
            return x + y
        if op == "-":
            return x - y
        if op == "*":
            return x * y
        if op == "/":
            if x.sort() == IntSort():
                return If(x >= 0, x / y, -((-x) / y)) if not (is_int_value(x)) else x / y
            return x / y
        if op == "%":
            return x % y
        if op == "<":
            return x < y
        if op == ">":
            return x > y
        if op == "<=":
            return x <= y
        if op == ">=":
            return x >= y
        if op == "==":
            return x == y
        if op == "!=":
            return x != y
        if op in ("&", "|", "^"):
            if x.sort() == BoolSort():
                return {"&": And(x, y), "|": Or(x, y), "^": Xor(x, y)}[op]
            return self.bitop(op, x, y)
        if op == "<<":
            if is_int_value(x) and is_int_value(simplify(y)):
                return IntVal(x.as_long() << simplify(y).as_long())
        raise Unsupported("operator " + op)

    def ptr_cmp(self, op, x, y):
        def null(v):
            return isinstance(v, ExprRef) and is_int_value(v) and v.as_long() == 0
        if null(x) or null(y):
            r = BoolVal(False)
        else:
            lx = x.loc if isinstance(x, Ptr) else x
            ly = y.loc if isinstance(y, Ptr) else y
            if isinstance(lx, Loc) and isinstance(ly, Loc):
                if same_loc(lx, ly):
                    r = BoolVal(True)
                elif lx.kind != ly.kind or lx.path != ly.path or lx.kind == "L":
                    r = BoolVal(False)
                elif lx.kind == "H":
                    r = lx.a == ly.a
                else:
                    raise Unsupported("pointer comparison")
            elif isinstance(lx, Loc) and isinstance(ly, ExprRef):
                r = BoolVal(False) if (lx.kind == "L" or lx.path) else lx.a == ly
            elif isinstance(ly, Loc) and isinstance(lx, ExprRef):
                r = BoolVal(False) if (ly.kind == "L" or ly.path) else ly.a == lx
            else:
                raise Unsupported("pointer comparison")
        if op == "==":
            return r
        if op == "!=":
            return Not(r)
        raise Unsupported("pointer operator " + op)

    def iter_op(self, op, x, y, st):
        if isinstance(x, Iter) and isinstance(y, Iter):
            a, b = x.idx, y.idx
            if op == "-":
                return a - b
            if op in ("==", "!=", "<", ">", "<=", ">="):
                return self.binop(op, a, b, st)
        if isinstance(x, Iter) and isinstance(y, ExprRef):
            if op == "+":
                return Iter(x.loc, x.idx + y)
            if op == "-":
                return Iter(x.loc, x.idx - y)
        if op in ("==", "!=") and (isinstance(x, ExprRef) or isinstance(y, ExprRef)):
            return BoolVal(op == "!=")
        raise Unsupported("iterator operator " + op)

    def e_CompoundAssignOperator(self, n, st):
        op = n["opcode"][:-1]
        a, b = n["inner"]
        loc = self.ev(a, st)
        y = self.rv(b, st)
        x = self.load(loc, st)
        v = self.binop(op, x, y, st)
        if isinstance(v, ExprRef) and isinstance(x, ExprRef):
            v = self.coerce(v, x.sort())
        self.store(loc, v, st)
        return loc

    def e_ConditionalOperator(self, n, st):
        c, a, b = n["inner"]
        g = self.truth(self.rv(c, st))
        sg = simplify(g)
        if is_true(sg):
            return self.ev(a, st)
        if is_false(sg):
            return self.ev(b, st)
        s1, s2 = st.copy(g), st.copy(Not(g))
        va, vb = self.ev(a, s1), self.ev(b, s2)
        if isinstance(va, (Loc, CondLoc)) != isinstance(vb, (Loc, CondLoc)):
            va = self.load(va, s1) if isinstance(va, (Loc, CondLoc)) else va
            vb = self.load(vb, s2) if isinstance(vb, (Loc, CondLoc)) else vb
        # temporaries created in one arm only must survive the merge
        for k in s1.env:
            if k not in s2.env:
                s2.env[k] = s1.env[k]
        for k in s2.env:
            if k not in s1.env:
                s1.env[k] = s2.env[k]
        self.absorb(st, s1, s2)
        return ite(g, va, vb)

    def e_ArraySubscriptExpr(self, n, st):
        a = self.ev(n["inner"][0], st)
        i = self.rv(n["inner"][1], st)
        if isinstance(a, Iter):
            return self.elem(a.loc, a.idx + i, st)
        return self.elem(a, i, st)

    def elem(self, loc, i, st):
        q = self.load(loc, st)
        if isinstance(q, Comp) and q.sh[0] == "A":
            ii = simplify(i)
            if is_int_value(ii):
                return loc.at(ii.as_long())
            n = q.sh[1]
            r = loc.at(n - 1)
            for j in range(n - 2, -1, -1):
                r = CondLoc(i == j, loc.at(j), r)
            return r
        if isinstance(q, Seq):
            return Loc("Q", loc, i)
        if isinstance(q, Iter):
            return self.iter_loc(Iter(q.loc, q.idx + i), st)
        raise Unsupported("subscript of %r" % (q,))

    # ---------------------------------------------------------------- aggregates
    def e_InitListExpr(self, n, st):
        sh = self.t.node(n)
        inner = n.get("inner", [])
        if "array_filler" in n:
            fill = n["array_filler"]
            inner = [x for x in fill if x.get("kind") != "ImplicitValueInitExpr"] \
                if isinstance(fill, list) else inner
        return self.init_agg(sh, inner, st)

    def init_agg(self, sh, inner, st):
        k = sh[0]
        if k in SORT and k != "opq":
            if not inner:
                return self.zero(sh)
            v = self.rv(inner[0], st)
            return self.coerce(v, SORT[k]) if isinstance(v, ExprRef) else v
        if k == "A":
            # std::array: one nested list for the C array
            if len(inner) == 1 and inner[0].get("kind") in ("InitListExpr", "ImplicitValueInitExpr"):
                t = self.t.node(inner[0])
                if t[0] == "A" and t[1] == sh[1]:
                    if inner[0]["kind"] == "ImplicitValueInitExpr":
                        return self.zero(sh)
                    return self.e_InitListExpr(inner[0], st)
            d = {}
            zero = self.zero(sh)
            for p, v in zero.d.items():
                d[p] = v
            for i, x in enumerate(inner):
                v = self.rv(x, st)
                if isinstance(v, Comp):
                    for p, y in v.d.items():
                        d[(i,) + p] = y
                else:
                    if isinstance(v, ExprRef) and sh[2][0] in SORT:
                        v = self.coerce(v, SORT[sh[2][0]])
                    d[(i,)] = v
            return Comp(sh, d)
        if k == "S":
            rec = self.w.recname[sh[1]]
            fs = self.t.fields(rec)
            d = {}
            for i, (fk, fsx, fnode) in enumerate(fs):
                if i < len(inner):
                    if inner[i].get("kind") == "CXXDefaultInitExpr":
                        v = self.field_default(fnode, fsx, st, None)
                    else:
                        v = self.rv(inner[i], st)
                else:
                    v = self.field_default(fnode, fsx, st, None)
                if isinstance(v, Comp):
                    for p, y in v.d.items():
                        d[(fk,) + p] = y
                else:
                    d[(fk,)] = v
            return Comp(sh, d)
        if k == "P":
            d = {}
            for i, nm in enumerate(("first", "second")):
                v = self.rv(inner[i], st) if i < len(inner) else self.zero(sh[1 + i])
                if isinstance(v, Comp):
                    for p, y in v.d.items():
                        d[(nm,) + p] = y
                else:
                    d[(nm,)] = v
            return Comp(sh, d)
        if k == "Q":
            return self.seq_of([self.rv(x, st) for x in inner], sh[1])
        if len(inner) == 1:
            return self.rv(inner[0], st)
        return Opq("init")

    def seq_of(self, vals, esh):
        el = {}
        for p, s in self.xleaves(esh):
            el[p] = K(IntSort(), self.default_term(s))
        for i, v in enumerate(vals):
            for p, x in self.flat(v, esh).items():
                el[p] = Store(el[p], IntVal(i), x)
        return Seq(esh, IntVal(len(vals)), el)

    def default_term(self, s):
        if s == RealSort():
            return RealVal(0)
        if s == IntSort():
            return IntVal(0)
        if s == BoolSort():
            return BoolVal(False)
        return K(s.domain(), self.default_term(s.range()))

    def e_CXXStdInitializerListExpr(self, n, st):
        v = self.rv(n["inner"][0], st)
        return v

    def field_default(self, fnode, fsx, st, this):
        init = [x for x in fnode.get("inner", []) if x.get("kind") and
                not x["kind"].endswith("Attr") and not x["kind"].endswith("Comment")]
        if fnode.get("hasInClassInitializer") and init:
            self.frames.append(Frame(None, this))
            try:
                x = init[-1]
                if x.get("kind") == "InitListExpr" or fsx[0] in ("A", "S", "P", "Q"):
                    v = self.rv(x, st)
                else:
                    v = self.rv(x, st)
            finally:
                self.frames.pop()
            if isinstance(v, ExprRef) and fsx[0] in SORT:
                v = self.coerce(v, SORT[fsx[0]])
            return v
        if fsx[0] == "Q":
            return self.seq_of([], fsx[1])
        if fsx[0] in ("S",):
            return self.default_construct(fsx, st)
        return self.fresh_val(fsx, "uninit")

    def default_construct(self, sh, st):
        rec = self.w.recname[sh[1]]
        for c in rec.methods:
            if c.kind == "CXXConstructorDecl" and len(c.params) == 0 and c.body is not None:
                return self.construct(c, sh, [], st)
        d = {}
        for fk, fsx, fnode in self.t.fields(rec):
            v = self.field_default(fnode, fsx, st, None)
            if isinstance(v, Comp):
                for p, y in v.d.items():
                    d[(fk,) + p] = y
            else:
                d[(fk,)] = v
        return Comp(sh, d)

    # ---------------------------------------------------------------- construction
    def find_ctor(self, rec, n):
        ct = n.get("ctorType", {}).get("qualType")
        cands = [c for c in rec.methods if c.kind == "CXXConstructorDecl"]
        for c in cands:
            if norm_t(c.ftype) == norm_t(ct or ""):
                return c
        return None

    def e_CXXConstructExpr(self, n, st):
        sh = self.t.node(n)
        args = n.get("inner", [])
        tname = strip_cv(n["type"].get("desugaredQualType") or n["type"]["qualType"])
        if sh[0] == "S":
            if sh[1] == "CppUtils::LOG":
                return Opq("log")              # messages are not modelled
            rec = self.w.recname[sh[1]]
            c = self.find_ctor(rec, n)
            if c is None or c.defaulted or (c.body is None and not c.inits):
                if len(args) == 0:
                    return self.default_construct(sh, st)
                if len(args) == 1:
                    return self.rv(args[0], st)    # implicit copy / move
                raise Unsupported("constructor of " + sh[1])
            vals = self.eval_args(c, args, st)
            return self.construct(c, sh, vals, st)
        if sh[0] in ("A", "P", "ref", "real", "int", "bool"):
            if len(args) == 0:
                if sh[0] == "A":
                    return self.fresh_val(sh, "uninit")
                return self.zero(sh)
            if len(args) == 1:
                v = self.rv(args[0], st)
                if sh[0] == "P" and isinstance(v, Comp):
                    return Comp(sh, v.d)
                if sh[0] == "ref":
                    if isinstance(v, Loc) and v.kind == "H":
                        return v.a
                return v
            if sh[0] == "P":
                return self.init_agg(sh, args, st)
            if sh[0] == "ref":
                return self.rv(args[0], st)
        if sh[0] == "Q":
            return self.std_seq_ctor(sh, args, n, st)
        if sh[0] == "it":
            return self.rv(args[0], st) if args else Opq("iter")
        if "ofstream" in tname or "stringstream" in tname or "ifstream" in tname:
            for a in args:
                if a.get("kind") != "CXXDefaultArgExpr":
                    self.ev(a, st)
            return Stream(fresh_name("stream"))
        if tname.startswith("std::plus") or tname.startswith("std::minus") or \
           tname.startswith("std::multiplies") or tname.startswith("std::divides") or \
           tname.startswith("std::negate") or tname.startswith("std::less") or \
           tname.startswith("std::greater"):
            return Opq("op:" + tname.split("<")[0][5:])
        if len(args) == 1:
            v = self.ev(args[0], st)
            if isinstance(v, (Loc, CondLoc)):
                v = self.load(v, st)
            if isinstance(v, (Lam, Opq)):
                return v
            return v if isinstance(v, ExprRef) else Opq(tname)
        for a in args:
            if a.get("kind") != "CXXDefaultArgExpr":
                self.ev(a, st)
        return Opq(tname)

    e_CXXTemporaryObjectExpr = e_CXXConstructExpr

    def std_seq_ctor(self, sh, args, n, st):
        real = [a for a in args if a.get("kind") != "CXXDefaultArgExpr"]
        if not real:
            return self.seq_of([], sh[1])
        if len(real) == 1:
            v = self.rv(real[0], st)
            if isinstance(v, Seq):
                return v
            if isinstance(v, Comp) and v.sh[0] == "A":
                return self.seq_of([v.sub(self.t, (i,)) for i in range(v.sh[1])], sh[1])
            if isinstance(v, ExprRef) and v.sort() == IntSort():
                s = self.seq_of([], sh[1])
                return Seq(sh[1], v, s.el)      # value-initialised elements
        if len(real) == 2:
            a, b = self.rv(real[0], st), self.rv(real[1], st)
            if isinstance(a, Iter) and isinstance(b, Iter):
                q = self.load(a.loc, st)
                if isinstance(q, Seq) and is_int_value(simplify(a.idx)) and simplify(a.idx).as_long() == 0:
                    return Seq(q.esh, b.idx, q.el)
            elif isinstance(a, ExprRef) and a.sort() == IntSort():
                fl = self.flat(b, sh[1])
                return Seq(sh[1], a, {p: K(IntSort(), x) for p, x in fl.items()})
        raise Unsupported("sequence constructor")

    def construct(self, c, sh, vals, st):
        """execute a constructor on a fresh local object, return its value"""
        hk = self.intercept(c)
        if hk is not None:
            return hk(self, c, None, vals, st)
        key = fresh_name("obj")
        rec = self.w.recname[sh[1]]
        st.env[key] = self.unflat_uninit(sh)
        loc = Loc("L", key, cls=sh[1])
        self.run_ctor(c, loc, vals, st)
        if key not in st.env:
            raise Unsupported("constructor lost object")
        return st.env[key]

    def unflat_uninit(self, sh):
        d = {}
        for p, l in self.t.leaves(sh):
            if l[0] == "Q":
                d[p] = self.seq_of([], l[1])
            else:
                d[p] = fresh("uninit", SORT[l[0]]) if l[0] in SORT else Opq("uninit")
        return Comp(sh, d)

    def run_ctor(self, c, loc, vals, st):
        self.used.add(c.qname)
        fr = Frame(c, loc)
        self.bind(c, vals, st)
        self.frames.append(fr)
        if len(self.frames) > MAX_DEPTH:
            raise Unsupported("call depth")
        try:
            for i in c.inits:
                self.ctor_init(i, c, loc, st)
            out = self.exec(c.body, st) if c.body else st
        finally:
            self.frames.pop()
        m = self.merge([out] + [s for s, _ in fr.rets])
        if m is None:
            st.pc.append(BoolVal(False))
            return
        st.env, st.heap, st.pc, st.nxt, st.out = m.env, m.heap, m.pc, m.nxt, m.out

    def ctor_init(self, i, c, loc, st):
        x = i["inner"][0] if i.get("inner") else None
        a = i.get("anyInit")
        if a is not None:
            f = self.w.decl.get(a["id"], a)
            rec = self.w.fieldrec.get(a["id"], c.rec)
            t = f["type"].get("desugaredQualType") or f["type"]["qualType"]
            if Types.is_ref(t):
                if f.get("hasInClassInitializer"):
                    return
                v = self.ev(x, st)
                if isinstance(v, Loc) and v.kind == "H" and not v.path:
                    self.store(loc.at(fkey(rec, f["name"])), v.a, st)
                else:
                    self.store(loc.at(fkey(rec, f["name"])), fresh("refm", IntSort()), st)
                return
            fsx = self.fieldshape[fkey(rec, f["name"])]
            if x is None or x.get("kind") == "CXXDefaultInitExpr":
                v = self.field_default(f, fsx, st, loc)
            else:
                v = self.rv(x, st)
            if v is None:
                return
            self.store(loc.at(fkey(rec, f["name"])), v, st)
            return
        # base class initialiser
        y = x
        while y is not None and y.get("kind") in ("ExprWithCleanups", "CXXBindTemporaryExpr"):
            y = y["inner"][0]
        if y is not None and y.get("kind") == "CXXConstructExpr":
            sh = self.t.node(y)
            if sh[0] != "S":
                return
            rec = self.w.recname[sh[1]]
            bc = self.find_ctor(rec, y)
            if bc is None or bc.defaulted or (bc.body is None and not bc.inits):
                if not y.get("inner"):
                    for fk, fsx, fnode in self.t.fields(rec):
                        v = self.field_default(fnode, fsx, st, loc)
                        self.store(loc.at(fk), v, st)
                    return
                raise Unsupported("base constructor")
            vals = self.eval_args(bc, y.get("inner", []), st)
            hk = self.intercept(bc)
            if hk is not None:
                hk(self, bc, loc, vals, st)
                return
            self.run_ctor(bc, loc, vals, st)
            return
        raise Unsupported("base initialiser")

    def e_CXXDefaultInitExpr(self, n, st):
        raise Unsupported("default init expr")

    def alloc(self, st):
        if st.nxt is None:
            st.nxt = Int("nxt0")
        r = st.nxt
        st.nxt = r + 1
        return r

    def e_CXXNewExpr(self, n, st):
        x = None
        for c in n.get("inner", []):
            if c.get("kind") in ("CXXConstructExpr", "InitListExpr", "ExprWithCleanups"):
                x = c
        t = strip_cv(n["type"]["qualType"])
        rec = self.t.rec(strip_cv(t[:-1]))
        if rec is None or x is None:
            raise Unsupported("new " + t)
        return self.new_object(rec, x, st)

    def new_object(self, rec, x, st):
        while x.get("kind") == "ExprWithCleanups":
            x = x["inner"][0]
        c = self.find_ctor(rec, x) if x.get("kind") == "CXXConstructExpr" else None
        if c is None or (c.body is None and not c.inits):
            v = self.rv(x, st)
            r = self.alloc(st)
            self.store(Loc("H", r, cls=rec.qname), v, st)
            return r
        vals = self.eval_args(c, x.get("inner", []), st)
        return self.new_with(rec, c, vals, st)

    def new_with(self, rec, c, vals, st):
        r = self.alloc(st)
        loc = Loc("H", r, cls=rec.qname)
        hk = self.intercept(c)
        if hk is not None:
            hk(self, c, loc, vals, st)
            return r
        self.run_ctor(c, loc, vals, st)
        return r

    # ---------------------------------------------------------------- calls
    def eval_args(self, f, args, st):
        out = []
        for i, a in enumerate(args):
            if i < len(f.params):
                p = f.params[i]
                t = p["type"].get("desugaredQualType") or p["type"]["qualType"]
                if a.get("kind") == "CXXDefaultArgExpr":
                    init = [x for x in p.get("inner", []) if x.get("kind")]
                    if not init:
                        init = self.default_arg(f, i)
                    a = init[-1]
                if Types.is_ref(t):
                    v = self.ev(a, st)
                    if not isinstance(v, (Loc, CondLoc)) and not isinstance(v, (Lam, Stream, Opq)):
                        v = self.tmp(st, v)
                else:
                    v = self.rv(a, st)
                    if isinstance(v, ExprRef):
                        sh = self.t.shape(t)
                        if sh[0] in SORT and sh[0] != "opq":
                            v = self.coerce(v, SORT[sh[0]])
                out.append(v)
            else:
                out.append(self.ev(a, st))
        return out

    def default_arg(self, f, i):
        for g in self.w.byname.get(f.qname, []):
            if len(g.params) == len(f.params):
                init = [x for x in g.params[i].get("inner", []) if x.get("kind")]
                if init:
                    return init
        # out-of-template-specialisation: use the pattern's default
        base = self.generic_name(f)
        for h in self.w.fn.values():
            if h.name == f.name and len(h.params) == len(f.params) and \
                    self.generic_name(h) == base:
                init = [x for x in h.params[i].get("inner", []) if x.get("kind")]
                if init:
                    return init
        raise Unsupported("default argument of " + f.qname)

    @staticmethod
    def generic_name(f):
        return re.sub(r"<[^:]*>", "", f.qname)

    def bind(self, f, vals, st):
        for p, v in zip(f.params, vals):
            st.env[p["id"]] = v

    def intercept(self, f):
        g = self.generic_name(f)
        for k in (f.qname, g):
            if k in self.intercepts:
                h = self.intercepts[k]
                if self.cur is not None and self.cur is f and not any(fr.fn is f for fr in self.frames):
                    return None
                return h
        return None

    def call(self, f, this, vals, st):
        hk = self.intercept(f)
        if hk is not None:
            r = hk(self, f, this, vals, st)
            if r is not NotImplemented:
                self.called_contracts.add(f.qname)
                return r
        if f.virtual and self.virtual_hook is not None:
            r = self.virtual_hook(self, f, this, vals, st)
            if r is not NotImplemented:
                return r
        if f.body is None:
            raise Unsupported("call of %s without a body" % f.qname)
        if any(fr.fn is f for fr in self.frames):
            raise Unsupported("recursive call of %s without a contract" % f.qname)
        return self.inline(f, this, vals, st)

    def inline(self, f, this, vals, st):
        self.used.add(f.qname)
        if len(self.frames) > MAX_DEPTH:
            raise Unsupported("call depth")
        fr = Frame(f, this)
        fr.retref = Types.is_ref(f.rtype)
        self.bind(f, vals, st)
        self.frames.append(fr)
        try:
            work = st.copy()
            out = self.exec(f.body, work)
        finally:
            self.frames.pop()
        rets = list(fr.rets)
        if out is not None:
            rets.append((out, None))
        if not rets:
            st.pc.append(BoolVal(False))
            return self.dead_value(f)
        acc_s, acc_v = rets[0]
        for s, v in rets[1:]:
            n = 0
            while n < len(acc_s.pc) and n < len(s.pc) and \
                    (acc_s.pc[n] is s.pc[n] or acc_s.pc[n].eq(s.pc[n])):
                n += 1
            g = mkand(acc_s.pc[n:])
            # keep temporaries alive that a returned reference may name
            if fr.retref:
                for k in acc_s.env:
                    s.env.setdefault(k, acc_s.env[k])
                for k in s.env:
                    acc_s.env.setdefault(k, s.env[k])
            acc_v = ite(g, acc_v, v)
            acc_s = self.merge([acc_s, s])
        st.env, st.heap, st.pc, st.nxt, st.out = (acc_s.env, acc_s.heap, acc_s.pc,
                                                  acc_s.nxt, acc_s.out)
        if isinstance(acc_v, ExprRef) and not fr.retref:
            sh = self.t.shape(f.rtype)
            if sh[0] in SORT and sh[0] not in ("opq",):
                acc_v = self.coerce(acc_v, SORT[sh[0]])
        return acc_v

    def dead_value(self, f):
        sh = self.t.shape(f.rtype)
        if sh == VOID:
            return None
        if sh[0] == "S" and Types.is_ref(f.rtype):
            return Loc("H", fresh("dead", IntSort()), cls=sh[1])
        try:
            return self.fresh_val(sh, "dead")
        except Unsupported:
            return Opq("dead")

    def e_CallExpr(self, n, st):
        callee = n["inner"][0]
        c = callee
        while c.get("kind") in ("ImplicitCastExpr", "ParenExpr"):
            c = c["inner"][0]
        args = n["inner"][1:]
        if c.get("kind") == "DeclRefExpr":
            r = c["referencedDecl"]
            if r["id"] in self.w.fn:
                f = self.w.fn[r["id"]]
                vals = self.eval_args(f, args, st)
                return self.call(f, None, vals, st)
            if r["kind"] in ("FunctionDecl", "CXXMethodDecl"):
                return self.std_call(r["name"], args, n, st)
            # call of a function object / pointer variable
            fv = self.rv(c, st)
            return self.call_value(fv, [self.ev(a, st) for a in args], n, st)
        if c.get("kind") == "MemberExpr":
            fv = self.rv(c, st)
            return self.call_value(fv, [self.ev(a, st) for a in args], n, st)
        raise Unsupported("call of " + str(c.get("kind")))

    def call_value(self, fv, vals, n, st):
        if isinstance(fv, (Loc, CondLoc)):
            fv = self.load(fv, st)
        if isinstance(fv, Lam):
            return self.call_lambda(fv, vals, st)
        if isinstance(fv, Opq) and fv.what.startswith("op:"):
            a = [self.load(v, st) if isinstance(v, (Loc, CondLoc)) else v for v in vals]
            return self.apply_op(fv.what[3:], a, st)
        if isinstance(fv, Opq) and fv.what.startswith("fn:"):
            f = self.w.fn[fv.what[3:]]
            return self.call(f, None, vals, st)
        # an unknown function value (std::function): uninterpreted
        term = fv.term if isinstance(fv, Opq) else fv
        if isinstance(term, ExprRef):
            flat = []
            for v in vals:
                v = self.load(v, st) if isinstance(v, (Loc, CondLoc)) else v
                if isinstance(v, Comp):
                    flat += [v.d[k] for k in v.d]
                elif isinstance(v, ExprRef):
                    flat.append(v)
                else:
                    raise Unsupported("argument of function value")
            sh = self.t.node(n)
            if sh == VOID:
                return None
            u = z3.Function("CALL_%d_%s" % (len(flat), sh[0]), IntSort(),
                            *[x.sort() for x in flat], SORT[sh[0]])
            self.trusted.add("user-supplied function object (pure, total)")
            return u(term, *flat)
        raise Unsupported("call of %r" % (fv,))

    def apply_op(self, name, a, st):
        ops = {"plus": "+", "minus": "-", "multiplies": "*", "divides": "/",
               "less": "<", "greater": ">"}
        if name == "negate":
            return -a[0]
        return self.binop(ops[name], a[0], a[1], st)

    def e_LambdaExpr(self, n, st):
        return Lam(n, self.frames[-1].this, None)

    def lambda_fn(self, n, nargs):
        for c in n.get("inner", []):
            if c.get("kind") == "CXXRecordDecl":
                best = None
                for m in c.get("inner", []):
                    if m.get("kind") == "CXXMethodDecl" and m.get("name") == "operator()":
                        return self.w.fn[m["id"]]
                    if m.get("kind") == "FunctionTemplateDecl" and m.get("name") == "operator()":
                        fs = [x for x in m.get("inner", []) if x.get("kind") == "CXXMethodDecl"]
                        return self.w.fn[fs[-1]["id"]]     # an instantiation
        raise Unsupported("lambda")

    def call_lambda(self, lam, vals, st):
        f = self.lambda_fn(lam.node, len(vals))
        vs = []
        for p, v in zip(f.params, vals):
            t = p["type"].get("desugaredQualType") or p["type"]["qualType"]
            if Types.is_ref(t):
                if not isinstance(v, (Loc, CondLoc)):
                    v = self.tmp(st, v)
            elif isinstance(v, (Loc, CondLoc)):
                v = self.load(v, st)
            vs.append(v)
        # nested frames of the same lambda are fine (no recursion)
        return self.inline(f, lam.this, vs, st)

    def e_CXXMemberCallExpr(self, n, st):
        me = n["inner"][0]
        while me.get("kind") in ("ParenExpr", "ImplicitCastExpr"):
            me = me["inner"][0]
        args = n["inner"][1:]
        mid = me.get("referencedMemberDecl")
        if me.get("kind") != "MemberExpr":
            raise Unsupported("member call")
        bn = me["inner"][0]
        base = self.ev(bn, st)
        if mid in self.w.fn:
            f = self.w.fn[mid]
            if me.get("isArrow"):
                base = self.deref(base, st, bn)
            if not isinstance(base, (Loc, CondLoc)):
                base = self.tmp(st, base)
            if isinstance(base, Loc) and f.rec is not None and base.cls is None and not base.path:
                base = Loc(base.kind, base.a, base.b, base.path, f.rec.qname)
            vals = self.eval_args(f, args, st)
            return self.call(f, base, vals, st)
        return self.std_method(me["name"], base, me, args, n, st)

    def e_CXXOperatorCallExpr(self, n, st):
        c = n["inner"][0]
        while c.get("kind") in ("ImplicitCastExpr", "ParenExpr"):
            c = c["inner"][0]
        args = n["inner"][1:]
        r = c.get("referencedDecl")
        if r is None:
            raise Unsupported("operator call")
        if r["id"] in self.w.fn:
            f = self.w.fn[r["id"]]
            if f.name == "operator<<" :
                x = self.std_stream(args, n, st, user=f)
                if x is not NotImplemented:
                    return x
            if f.rec is None and f.qname.startswith("<lambda>"):
                lam = self.rv(args[0], st)
                if isinstance(lam, Lam):
                    return self.call_lambda(lam, [self.ev(a, st) for a in args[1:]], st)
            if f.kind == "CXXMethodDecl" and not f.static or \
                    (f.kind == "CXXMethodDecl" and f.rec is not None):
                base = self.ev(args[0], st)
                if not isinstance(base, (Loc, CondLoc)):
                    base = self.tmp(st, base)
                if f.defaulted and f.name == "operator=":
                    v = self.rv(args[1], st)
                    self.store(base, v, st)
                    return base
                vals = self.eval_args(f, args[1:], st)
                return self.call(f, base, vals, st)
            vals = self.eval_args(f, args, st)
            return self.call(f, None, vals, st)
        return self.std_operator(r["name"], args, n, st)

    def e_CXXThrowExpr(self, n, st):
        self.throws.append(mkand(st.pc))
        st.pc.append(BoolVal(False))
        return None

    def e_CXXDeleteExpr(self, n, st):
        self.ev(n["inner"][0], st)
        return None

    def e_CXXDefaultArgExpr(self, n, st):
        if n.get("inner"):
            return self.ev(n["inner"][0], st)
        return Opq("default-arg")

    # -- external library: see stdlib.py
    def std_call(self, name, args, n, st):
        import stdlib
        return stdlib.call(self, name, args, n, st)

    def std_method(self, name, base, me, args, n, st):
        import stdlib
        return stdlib.method(self, name, base, me, args, n, st)

    def std_operator(self, name, args, n, st):
        import stdlib
        return stdlib.operator(self, name, args, n, st)

    def std_stream(self, args, n, st, user=None):
        import stdlib
        return stdlib.stream(self, args, n, st, user)
