"""Shapes (types), values, locations and states of the symbolic executor."""
import re
from fractions import Fraction
import z3
from z3 import (RealSort, IntSort, BoolSort, ArraySort, Const, If, And, Or, Not,
                Select, Store, is_true, is_false, simplify, RealVal, IntVal,
                BoolVal, K)

_FORALL = z3.ForAll


def ForAll(vs, body, *a, **kw):
    """z3.ForAll; a pattern z3 does not accept is left to its own choice"""
    try:
        return _FORALL(vs, body, *a, **kw)
    except z3.Z3Exception:
        if not kw.get("patterns"):
            raise
        del kw["patterns"]
        return _FORALL(vs, body, *a, **kw)


class Unsupported(Exception):
    """A construct outside the verified dialect: the proof gives no answer."""


# --------------------------------------------------------------------------
# Shapes
# --------------------------------------------------------------------------
REAL, INT, BOOL, REF, OPQ = ("real",), ("int",), ("bool",), ("ref",), ("opq",)
VOID = ("void",)

SORT = {"real": RealSort(), "int": IntSort(), "bool": BoolSort(),
        "ref": IntSort(), "opq": IntSort(), "it": IntSort()}

INTS = {"int", "long", "unsigned int", "unsigned long", "size_t", "std::size_t",
        "short", "unsigned", "char", "unsigned char", "long long",
        "unsigned long long", "signed char", "uint8_t", "int32_t", "int64_t",
        "unsigned short", "std::ptrdiff_t", "ptrdiff_t", "difference_type",
        "size_type", "uint32_t", "uint64_t", "streamsize", "std::streamsize"}


def split_targs(s):
    out, d, cur = [], 0, ""
    for ch in s:
        if ch in "<({[":
            d += 1
        elif ch in ">)}]":
            d -= 1
        if ch == "," and d == 0:
            out.append(cur.strip()); cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


def strip_cv(t):
    t = t.strip()
    while True:
        o = t
        for p in ("const ", "volatile ", "class ", "struct ", "enum ", "typename "):
            if t.startswith(p):
                t = t[len(p):].strip()
        for p in (" const", " volatile", "*const"):
            if t.endswith(p):
                t = t[:-len(p)].strip() + ("*" if p == "*const" else "")
        if t == o:
            return t


class Types:
    def __init__(self, world):
        self.w = world
        self.cache = {}
        self.suffix = {}
        for q in world.recname:
            self.suffix.setdefault(q.split("<")[0].split("::")[-1] +
                                   ("<" + q.split("<", 1)[1] if "<" in q else ""), q)

    def node(self, n):
        ty = n["type"]
        return self.shape(ty.get("desugaredQualType") or ty["qualType"])

    @staticmethod
    def is_ref(tstr):
        return strip_cv(tstr).endswith("&")

    def rec(self, name):
        name = re.sub(r"(\d)U?L*\b", r"\1", name)
        name = re.sub(r"\s*,\s*", ", ", name)
        if name in self.w.recname:
            return self.w.recname[name]
        if name in self.suffix:
            return self.w.recname[self.suffix[name]]
        short = name.split("::")[-1] if "<" not in name else None
        if short and short in self.suffix:
            return self.w.recname[self.suffix[short]]
        m = re.match(r"^(?:[\w:]*::)?(\w+<.*)$", name)
        if m and m.group(1) in self.suffix:
            return self.w.recname[self.suffix[m.group(1)]]
        for q in self.w.recname:      # template args may differ in qualification
            if norm_t(q) == norm_t(name):
                return self.w.recname[q]
        return None

    def shape(self, t):
        if t in self.cache:
            return self.cache[t]
        r = self._shape(t, 0)
        self.cache[t] = r
        return r

    def _shape(self, t, depth):
        if depth > 20:
            raise Unsupported("type " + t)
        t = strip_cv(t)
        if t.endswith("&&"):
            return self._shape(t[:-2], depth + 1)
        if t.endswith("&"):
            return self._shape(t[:-1], depth + 1)
        if t.endswith("*"):
            return REF
        if t.endswith(")"):
            return OPQ
        m = re.match(r"^(.*)\[(\d+)\]$", t)
        if m:
            return ("A", int(m.group(2)), self._shape(m.group(1), depth + 1))
        if t in ("double", "float", "long double"):
            return REAL
        if t == "bool":
            return BOOL
        if t == "void":
            return VOID
        if t in INTS:
            return INT
        if t.startswith("std::"):
            b = t.split("<")[0]
            args = split_targs(t[t.index("<") + 1:t.rindex(">")]) if "<" in t else []
            if b in ("std::vector", "std::list", "std::deque"):
                return ("Q", self._shape(args[0], depth + 1))
            if b == "std::initializer_list":
                return ("Q", self._shape(args[0], depth + 1))
            if b == "std::array":
                return ("A", int(re.sub(r"\D", "", args[1])), self._shape(args[0], depth + 1))
            if b == "std::pair":
                return ("P", self._shape(args[0], depth + 1), self._shape(args[1], depth + 1))
            if b in ("std::unique_ptr", "std::shared_ptr"):
                return REF
            if "iterator" in b:
                return ("it",)
            return OPQ
        if t.startswith("__gnu_cxx::__normal_iterator"):
            return ("it",)
        r = self.rec(t)
        if r is not None:
            return ("S", r.qname)
        al = self.w.alias
        if t in al and al[t] != t:
            return self._shape(al[t], depth + 1)
        s = t.split("::")[-1]
        if s in al and al[s] != t and "<" not in s:
            return self._shape(al[s], depth + 1)
        m = re.match(r"^(?:CppUtils::)?Vec([234])<(.*)>$", t)
        if m:
            return self._shape("CppUtils::VecND<%s, %s>" % (m.group(2), m.group(1)), depth + 1)
        if t in self.w.enums or s in self.w.enums:
            return INT
        if s in ("iterator", "const_iterator", "_Self"):
            return ("it",)
        if "lambda" in t:
            return OPQ
        return OPQ

    # -- fields in declaration order, bases first -------------------------
    def fields(self, rec):
        out = []
        for b in rec.bases:
            br = self.rec(strip_cv(b.get("desugaredQualType") or b["qualType"]))
            if br is not None:
                out += self.fields(br)
        for nm, f in rec.fields.items():
            t = f["type"].get("desugaredQualType") or f["type"]["qualType"]
            if Types.is_ref(t):
                if f.get("hasInClassInitializer"):
                    continue
                out.append((fkey(rec, nm), REF, f))
            else:
                out.append((fkey(rec, nm), self.node(f), f))
        return out

    def leaves(self, sh):
        """[(path, leafshape)]"""
        k = sh[0]
        if k == "S":
            out = []
            for fk, fs, _ in self.fields(self.w.recname[sh[1]]):
                for p, l in self.leaves(fs):
                    out.append(((fk,) + p, l))
            return out
        if k == "A":
            out = []
            for i in range(sh[1]):
                for p, l in self.leaves(sh[2]):
                    out.append(((i,) + p, l))
            return out
        if k == "P":
            return ([(("first",) + p, l) for p, l in self.leaves(sh[1])] +
                    [(("second",) + p, l) for p, l in self.leaves(sh[2])])
        return [((), sh)]

    def sub(self, sh, path):
        for p in path:
            if sh[0] == "A":
                sh = sh[2]
            elif sh[0] == "P":
                sh = sh[1] if p == "first" else sh[2]
            elif sh[0] == "S":
                for fk, fs, _ in self.fields(self.w.recname[sh[1]]):
                    if fk == p:
                        sh = fs
                        break
                else:
                    raise Unsupported("no field %s in %s" % (p, sh))
            elif sh[0] == "Q" and isinstance(p, tuple):
                sh = sh[1]
            else:
                raise Unsupported("path %s in %s" % (p, sh))
        return sh


def norm_t(s):
    s = re.sub(r"\b(CppUtils|TQMesh)::", "", s)
    return re.sub(r"\s+", "", re.sub(r"(\d)U?L+\b", r"\1", s))


def fkey(rec, name):
    return norm_t(rec.qname) + "::" + name


# --------------------------------------------------------------------------
# Values
# --------------------------------------------------------------------------
class Comp:
    """Composite value: flat map leafpath -> leaf value."""
    __slots__ = ("sh", "d")

    def __init__(self, sh, d):
        self.sh, self.d = sh, d

    def sub(self, types, path):
        n = len(path)
        s = types.sub(self.sh, path)
        d = {k[n:]: v for k, v in self.d.items() if k[:n] == tuple(path)}
        if len(d) == 1 and () in d:
            return d[()]
        return Comp(s, d)

    def __repr__(self):
        return "Comp%s" % (self.d,)


class Seq:
    """Sequence value: length and one z3 array per element leaf."""
    __slots__ = ("esh", "n", "el")

    def __init__(self, esh, n, el):
        self.esh, self.n, self.el = esh, n, el

    def __repr__(self):
        return "Seq(%s)" % (self.n,)


class Iter:
    __slots__ = ("loc", "idx", "rev")

    def __init__(self, loc, idx, rev=False):
        self.loc, self.idx, self.rev = loc, idx, rev


class Lam:
    __slots__ = ("node", "this", "caps")

    def __init__(self, node, this, caps):
        self.node, self.this, self.caps = node, this, caps


class Ptr:
    """Pointer to something that is not a whole heap object."""
    __slots__ = ("loc",)

    def __init__(self, loc):
        self.loc = loc


class Stream:
    """An output stream: the tokens written are recorded in the state."""
    __slots__ = ("key",)

    def __init__(self, key):
        self.key = key


class Opq:
    """A value the executor does not track (strings, log objects ...)."""
    __slots__ = ("what", "term")

    def __init__(self, what="", term=None):
        self.what, self.term = what, term

    def __repr__(self):
        return "Opq(%s)" % self.what


# --------------------------------------------------------------------------
# Locations
# --------------------------------------------------------------------------
class Loc:
    """base: ('L', var) | ('H', ref) | ('Q', seqloc, idx); path: leaf path prefix"""
    __slots__ = ("kind", "a", "b", "path", "cls")

    def __init__(self, kind, a, b=None, path=(), cls=None):
        self.kind, self.a, self.b, self.path, self.cls = kind, a, b, path, cls

    def at(self, *p):
        return Loc(self.kind, self.a, self.b, self.path + tuple(p), self.cls)

    def __repr__(self):
        return "Loc(%s,%s,%s,%s)" % (self.kind, self.a, self.b, self.path)


class CondLoc:
    __slots__ = ("g", "x", "y")

    def __init__(self, g, x, y):
        self.g, self.x, self.y = g, x, y

    def at(self, *p):
        return CondLoc(self.g, self.x.at(*p), self.y.at(*p))


def same_loc(x, y):
    if x is y:
        return True
    if not (isinstance(x, Loc) and isinstance(y, Loc)):
        return False
    if x.kind != y.kind or x.path != y.path:
        return False
    if x.kind == "L":
        return x.a == y.a
    if x.kind == "H":
        return x.a.eq(y.a)
    return same_loc(x.a, y.a) and x.b.eq(y.b)


_fresh = [0]


def fresh_name(p):
    _fresh[0] += 1
    return "%s!%d" % (p, _fresh[0])


def reset_fresh():
    _fresh[0] = 0


def fresh(p, sort):
    return Const(fresh_name(p), sort)


def num(x):
    if isinstance(x, (int,)) and not isinstance(x, bool):
        return IntVal(x)
    f = Fraction(x)
    return RealVal("%d/%d" % (f.numerator, f.denominator))


def mkand(l):
    l = [x for x in l if not is_true(x)]
    if not l:
        return BoolVal(True)
    if len(l) == 1:
        return l[0]
    return And(*l)


def mkor(l):
    l = [x for x in l if not is_false(x)]
    if not l:
        return BoolVal(False)
    if len(l) == 1:
        return l[0]
    return Or(*l)


def zeq(a, b):
    return a is b or (isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef) and a.eq(b))


def ite(g, a, b):
    """merge two values under guard g"""
    if a is b:
        return a
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
        if a.eq(b):
            return a
        if a.sort() != b.sort():
            if a.sort() == IntSort() and b.sort() == RealSort():
                a = z3.ToReal(a)
            elif b.sort() == IntSort() and a.sort() == RealSort():
                b = z3.ToReal(b)
            elif a.sort() == BoolSort() and b.sort() == IntSort():
                a = If(a, IntVal(1), IntVal(0))
            elif b.sort() == BoolSort() and a.sort() == IntSort():
                b = If(b, IntVal(1), IntVal(0))
            else:
                raise Unsupported("merge of sorts %s %s" % (a.sort(), b.sort()))
        return If(g, a, b)
    if isinstance(a, Comp) and isinstance(b, Comp):
        if set(a.d) != set(b.d):
            raise Unsupported("merge of different structures")
        return Comp(a.sh, {k: ite(g, a.d[k], b.d[k]) for k in a.d})
    if isinstance(a, Seq) and isinstance(b, Seq):
        return Seq(a.esh, ite(g, a.n, b.n), {k: ite(g, a.el[k], b.el[k]) for k in a.el})
    if isinstance(a, (Loc, CondLoc)) and isinstance(b, (Loc, CondLoc)):
        if same_loc(a, b):
            return a
        if (isinstance(a, Loc) and isinstance(b, Loc) and a.kind == "H" and
                b.kind == "H" and a.path == b.path):
            return Loc("H", If(g, a.a, b.a), None, a.path, a.cls if a.cls == b.cls else None)
        if (isinstance(a, Loc) and isinstance(b, Loc) and a.kind == "Q" and
                b.kind == "Q" and a.path == b.path and same_loc(a.a, b.a)):
            return Loc("Q", a.a, If(g, a.b, b.b), a.path)
        return CondLoc(g, a, b)
    if isinstance(a, Iter) and isinstance(b, Iter):
        return Iter(ite(g, a.loc, b.loc), ite(g, a.idx, b.idx), a.rev)
    if isinstance(a, Opq) or isinstance(b, Opq):
        ta = a.term if isinstance(a, Opq) else a
        tb = b.term if isinstance(b, Opq) else b
        if isinstance(ta, z3.ExprRef) and isinstance(tb, z3.ExprRef):
            return Opq("merge", ite(g, ta, tb))
        return Opq("merge")
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return Ptr(ite(g, a.loc, b.loc))
    if isinstance(a, Lam) and isinstance(b, Lam) and a.node is b.node:
        return a
    if isinstance(a, Stream) and isinstance(b, Stream) and a.key == b.key:
        return a
    if a is None or b is None:
        return a if b is None else b
    raise Unsupported("merge of %s and %s" % (type(a), type(b)))


# --------------------------------------------------------------------------
# State
# --------------------------------------------------------------------------
class St:
    __slots__ = ("env", "heap", "pc", "nxt", "out")

    def __init__(self):
        self.env, self.heap, self.pc = {}, {}, []
        self.nxt = None
        self.out = {}      # stream key -> list of tokens (trace)

    def copy(self, cond=None):
        s = St()
        s.env = dict(self.env)
        s.heap = dict(self.heap)
        s.pc = list(self.pc)
        s.nxt = self.nxt
        s.out = dict(self.out)
        if cond is not None:
            s.pc.append(cond)
        return s


def merge_states(sts, h0):
    """Merge states that share a common pc prefix.  h0(key) gives the initial
    heap array for keys present in one state only."""
    sts = [s for s in sts if s is not None]
    if not sts:
        return None
    acc = sts[0]
    for s in sts[1:]:
        acc = _merge2(acc, s, h0)
    return acc


def _merge2(a, b, h0):
    n = 0
    while n < len(a.pc) and n < len(b.pc) and (a.pc[n] is b.pc[n] or a.pc[n].eq(b.pc[n])):
        n += 1
    ga, gb = a.pc[n:], b.pc[n:]
    g = mkand(ga)
    r = St()
    r.pc = list(a.pc[:n])
    gg = mkor([g, mkand(gb)])
    sg = simplify(gg) if len(ga) <= 2 and len(gb) <= 2 else gg
    if not is_true(sg):
        r.pc.append(gg)
    for k in a.env:
        if k in b.env:
            r.env[k] = ite(g, a.env[k], b.env[k])
    for k in set(a.heap) | set(b.heap):
        x = a.heap.get(k)
        y = b.heap.get(k)
        if x is None:
            x = h0(k)
        if y is None:
            y = h0(k)
        r.heap[k] = ite(g, x, y)
    r.nxt = ite(g, a.nxt, b.nxt)
    for k in set(a.out) | set(b.out):
        x, y = a.out.get(k, ()), b.out.get(k, ())
        r.out[k] = merge_out(g, x, y)
    return r


def merge_out(g, x, y):
    if x == y:
        return x
    n = 0
    while n < len(x) and n < len(y) and (x[n] is y[n]):
        n += 1
    return x[:n] + (("ite", g, x[n:], y[n:]),)
