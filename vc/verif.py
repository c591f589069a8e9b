"""Contract layer: runs a real function symbolically from an arbitrary state
that satisfies its precondition and collects the obligations of its contract."""
import os, sys, time
import z3
from z3 import *
from values import *
from engine import *
import cast


DEFAULT = object()          # the argument is the parameter's default


class Ex:
    """outcome of the symbolic execution of one function"""


class Verifier:
    def __init__(self, workdir, tu=None):
        self.wd = workdir
        here = os.path.dirname(os.path.abspath(__file__))
        t = open(os.path.join(here, "tu.inc")).read() if tu is None else tu
        self.w = cast.World(cast.dump(t, workdir))
        self.e = Engine(self.w)
        self.obls = []
        self.covers = []
        self.functions = []        # functions under contract (verified here)
        self.assumed = []          # free-text assumptions
        self.problems = []         # (name, text) extraction / dialect problems
        self.bounded = []
        self.prefix = ""

    # ------------------------------------------------------------------
    def reset(self):
        """forget intercepts between contracts"""
        self.e.intercepts.clear()
        self.e.std_hooks.clear()
        self.e.loopspecs = []
        self.e.virtual_hook = None

    def section(self, name, f, *a):
        """run one contract; problems do not affect the others"""
        self.reset()
        self.prefix = name
        n0 = len(self.obls)
        try:
            f(self, *a)
        except Exception as ex:
            if os.environ.get("VC_DEBUG"):
                import traceback
                traceback.print_exc()
            self.e.frames.clear()
            self.e.dry = 0
            del self.obls[n0:]
            self.problems.append((name, "%s: %s" % (type(ex).__name__, str(ex)[:300])))

    # ------------------------------------------------------------------
    def is_entity(self, sh):
        return sh[0] == "S" and "VecND" not in sh[1]

    def run(self, q, pick=None, args=None, this=None, pre=None, this_val=None, st=None, local_this=False, **kw):
        e = self.e
        f = q if not isinstance(q, str) else self.w.one(q, **kw)
        ex = Ex()
        ex.fn = f
        st = st or self.state()
        vals, av = [], []
        argv = list(args or [])
        for i, p in enumerate(f.params):
            t = p["type"].get("desugaredQualType") or p["type"]["qualType"]
            sh = e.t.shape(t)
            given = argv[i] if i < len(argv) else None
            if given is DEFAULT:
                init = [x for x in p.get("inner", []) if x.get("kind")] or e.default_arg(f, i)
                e.cur = None
                given = e.rv(init[-1], st)
            if Types.is_ref(t):
                if given is not None and isinstance(given, (Loc, CondLoc, Lam, Stream, Opq)):
                    vals.append(given)
                    av.append(given)
                    continue
                if given is None and self.is_entity(sh):
                    r = Int("a%d" % i)
                    st.pc.append(And(r > 0, r < st.nxt))
                    vals.append(Loc("H", r, cls=sh[1]))
                    av.append(r)
                    continue
                if isinstance(given, ExprRef) and self.is_entity(sh):
                    vals.append(Loc("H", given, cls=sh[1]))
                    av.append(given)
                    continue
                v = given if given is not None else e.named_val(sh, "a%d" % i)
                k = fresh_name("arg")
                st.env[k] = v
                vals.append(Loc("L", k))
                av.append(v)
                continue
            v = given if given is not None else e.named_val(sh, "a%d" % i)
            if sh == OPQ and isinstance(v, ExprRef):
                v = Opq("arg", v)
            vals.append(v)
            av.append(v)
        ex.args, ex.vals = av, vals
        tl = None
        if f.rec is not None and not (f.static and f.kind != "FunctionDecl" and f.node.get("storageClass") == "static"):
            if this is not None:
                tl = this if isinstance(this, (Loc, CondLoc)) else Loc("H", this, cls=f.rec.qname)
            elif local_this or ("VecND" in f.rec.qname):
                v = this_val if this_val is not None else e.named_val(("S", f.rec.qname), "self")
                k = fresh_name("self")
                st.env[k] = v
                tl = Loc("L", k, cls=f.rec.qname)
            else:
                r = Int("self")
                st.pc.append(And(r > 0, r < st.nxt))
                tl = Loc("H", r, cls=f.rec.qname)
        ex.this = tl
        ex.pre = st.copy()
        if pre is not None:
            p = pre(ex, st)
            st.pc.extend(p if isinstance(p, list) else [p])
            ex.pre = st.copy()
        nthrow = len(e.throws)
        e.cur = f
        e.obls = []
        if f.kind == "CXXConstructorDecl":
            e.run_ctor(f, tl, vals, st)
            r = None
        else:
            r = e.inline(f, tl, vals, st)
        e.cur = None
        ex.post = st
        ex.ret = r
        ex.throws = e.throws[nthrow:]
        self.note(f)
        for o in e.obls:
            o.name = self.prefix + "/" + o.name
            o.fn = f.qname
            self.obls.append(o)
        e.obls = []
        self.covers.append((self.prefix + "/" + f.qname, list(st.pc)))
        return ex

    def note(self, f):
        s = "%s  %s:%s" % (f.qname, os.path.relpath(f.file, cast.REPO) if f.file else "?", f.line)
        if s not in self.functions:
            self.functions.append(s)

    def state(self):
        st = St()
        st.nxt = Int("nxt0")
        st.pc.append(st.nxt > 0)
        return st

    def ensure(self, ex, name, goal, extra=(), kind="ensures", abstract=(), only=None):
        """goal holds in every final state.  abstract: terms that may be replaced by
        arbitrary values in a first, more general attempt (only a proof of it counts)"""
        o = Obl(self.prefix + "/" + name, list(ex.post.pc) + list(extra), goal, fn=ex.fn.qname, kind=kind)
        if abstract:
            sb = [(t, fresh("gen", t.sort())) for t in abstract if t.num_args() > 0]
            hy = list(extra if only is None else only)
            o.weak = [([substitute(h, *sb) for h in hy], substitute(goal, *sb))]
        self.obls.append(o)

    def lemma(self, name, hyps, goal, fn=""):
        self.obls.append(Obl(self.prefix + "/" + name, list(hyps), goal, fn=fn, kind="lemma"))

    def nothrow(self, ex, extra=()):
        self.obls.append(Obl(self.prefix + "/no-exception", list(ex.pre.pc) + list(extra),
                             Not(mkor(ex.throws)), fn=ex.fn.qname, kind="no-exception"))

    # ------------------------------------------------------------------
    def coords(self, v):
        """leaves of a vector value"""
        if isinstance(v, Comp):
            return [v.d[k] for k in sorted(v.d, key=str)]
        raise Unsupported("coords of %r" % (v,))

    def field(self, st, ref, path):
        """value of a field of a heap object; path: list of strings (fkeys)/ints"""
        return self.e.load(Loc("H", ref, path=tuple(path)), st)

    def get(self, st, loc):
        return self.e.load(loc, st)

    def obs(self, st, ref, q, args=(), **kw):
        """result of calling an observer (getter) of the real code in a state"""
        f = q if not isinstance(q, str) else self.w.one(q, **kw)
        s = st.copy()
        this = ref if isinstance(ref, (Loc, CondLoc)) else Loc("H", ref, cls=f.rec.qname)
        no = len(self.e.obls)
        vals = []
        for p, a in zip(f.params, args):
            t = p["type"].get("desugaredQualType") or p["type"]["qualType"]
            if Types.is_ref(t) and not isinstance(a, (Loc, CondLoc)):
                sh = self.e.t.shape(t)
                if isinstance(a, ExprRef) and self.is_entity(sh):
                    a = Loc("H", a, cls=sh[1])
                else:
                    k = fresh_name("oarg")
                    s.env[k] = a
                    a = Loc("L", k)
            vals.append(a)
        r = self.e.inline(f, this, vals, s)
        del self.e.obls[no:]
        if isinstance(r, (Loc, CondLoc)):
            r = self.deref(r, s)
        return r

    def deref(self, r, s):
        if isinstance(r, CondLoc):
            return ite(r.g, self.deref(r.x, s), self.deref(r.y, s))
        if r.kind == "H" and not r.path:
            return r.a
        return self.e.load(r, s)

    def refof(self, loc):
        if isinstance(loc, CondLoc):
            return If(loc.g, self.refof(loc.x), self.refof(loc.y))
        if loc.kind == "H" and not loc.path:
            return loc.a
        raise Unsupported("reference to %r" % (loc,))

    def at(self, st, v, k="TQMesh::Vertex::xy"):
        """coordinates of an entity in a state"""
        for c in (k, "TQMesh::ContainerEntry<%s>::xy" % k.split("::")[1], "CppUtils::ContainerEntry<%s>::xy" % k.split("::")[1],
                  "CppUtils::ContainerEntry<TQMesh::%s>::xy" % k.split("::")[1]):
            fs = self.w.find(c, const=True) or self.w.find(c)
            if fs:
                return self.coords(self.obs(st, v, fs[0]))
        raise cast.ExtractionError("no xy of " + k)
