"""Trusted semantics of the standard library functions the repo calls.

Each entry is an assumed contract on a dependency; the names used in a run are
recorded in engine.trusted and reported in the evidence."""
import z3
from z3 import *
from values import *
import engine as E


def note(e, nm):
    e.trusted.add("std::" + nm)


def rvs(e, args, st):
    return [e.rv(a, st) for a in args]


def real_args(args):
    return [a for a in args if a.get("kind") != "CXXDefaultArgExpr"]


def fixed_range(e, a, b, st):
    """list of element locations of a concrete iterator range, or None"""
    if not (isinstance(a, Iter) and isinstance(b, Iter)):
        return None
    i, j = simplify(a.idx), simplify(b.idx)
    if is_int_value(i) and is_int_value(j) and j.as_long() - i.as_long() <= 64:
        return [e.iter_loc(Iter(a.loc, IntVal(k)), st) for k in range(i.as_long(), j.as_long())]
    return None


def call(e, name, args, n, st):
    hk = e.std_hooks.get(name)
    if hk is not None:
        r = hk(e, args, n, st)
        if r is not NotImplemented:
            return r
    if name in ("move", "forward", "as_const", "addressof"):
        if len(args) == 1:
            return e.ev(args[0], st)
    if name in ("sqrt", "sqrtf"):
        note(e, "sqrt")
        return e.sqrt(e.coerce(e.rv(args[0], st), RealSort()))
    if name == "acos":
        note(e, "acos")
        return e.acos(e.coerce(e.rv(args[0], st), RealSort()))
    if name in E.UF1:
        note(e, name)
        return E.UF1[name](e.coerce(e.rv(args[0], st), RealSort()))
    if name in ("atan2", "pow"):
        note(e, name)
        a, b = [e.coerce(v, RealSort()) for v in rvs(e, args, st)]
        if name == "pow":
            sb = simplify(b)
            if is_rational_value(sb) and sb.denominator_as_long() == 1 and 0 < sb.numerator_as_long() <= 4:
                r = a
                for _ in range(sb.numerator_as_long() - 1):
                    r = r * a
                return r
            return E.POWF(a, b)
        return E.ATAN2(a, b)
    if name in ("abs", "fabs", "labs"):
        v = e.rv(args[0], st)
        return If(v >= 0, v, -v)
    if name == "hypot":
        a, b = [e.coerce(v, RealSort()) for v in rvs(e, args, st)]
        return e.sqrt(a * a + b * b)
    if name in ("min", "max", "lowest") and len(args) == 0:
        ty = strip_cv(n["type"]["qualType"])
        lim = {"double": (2.0 ** -1022, 1.7976931348623157e308), "int": (-2 ** 31, 2 ** 31 - 1),
               "unsigned long": (0, 2 ** 64 - 1), "std::size_t": (0, 2 ** 64 - 1)}
        if ty not in lim:
            raise Unsupported("numeric_limits of " + ty)
        lo, hi = lim[ty]
        if name == "lowest":
            return num(Fraction(-hi)) if ty == "double" else IntVal(lo)
        v = lo if name == "min" else hi
        return num(Fraction(v)) if ty == "double" else IntVal(v)
    if name in ("min", "max", "fmin", "fmax"):
        if len(args) == 1:
            q = e.rv(args[0], st)
            if isinstance(q, Comp) and q.sh[0] == "A":
                vs = [q.sub(e.t, (i,)) for i in range(q.sh[1])]
            elif isinstance(q, Seq) and is_int_value(simplify(q.n)):
                vs = [simplify(Select(q.el[()], IntVal(i))) for i in range(simplify(q.n).as_long())]
            else:
                raise Unsupported("std::" + name)
            r = vs[0]
            for v in vs[1:]:
                r = If(v < r, v, r) if "min" in name else If(r < v, v, r)
            return r
        a, b = rvs(e, args[:2], st)
        if len(args) > 2:
            raise Unsupported("std::min with comparator")
        if a.sort() != b.sort():
            a, b = e.coerce(a, RealSort()), e.coerce(b, RealSort())
        return If(b < a, b, a) if "min" in name else If(a < b, b, a)
    if name == "clamp":
        v, lo, hi = rvs(e, args, st)
        return If(v < lo, lo, If(hi < v, hi, v))
    if name == "epsilon":
        return num(Fraction(2.0 ** -52))
    if name == "infinity":
        return num(Fraction(1.7976931348623157e308)) * 2
    if name == "signbit":
        return e.rv(args[0], st) < 0
    if name == "isnan" or name == "isinf":
        return BoolVal(False)
    if name == "isfinite":
        return BoolVal(True)
    if name in ("floor", "ceil", "round", "trunc"):
        v = e.rv(args[0], st)
        if name == "floor":
            return ToReal(ToInt(v))
        if name == "ceil":
            return -ToReal(ToInt(-v))
        raise Unsupported(name)
    if name in ("fmod",):
        return z3.Function("FMOD", RealSort(), RealSort(), RealSort())(*rvs(e, args, st))
    if name == "swap" and len(args) == 2:
        a, b = e.ev(args[0], st), e.ev(args[1], st)
        va, vb = e.load(a, st), e.load(b, st)
        e.store(a, vb, st)
        e.store(b, va, st)
        return None
    if name in ("begin", "cbegin"):
        return Iter(e.ev(args[0], st), IntVal(0))
    if name in ("end", "cend"):
        l = e.ev(args[0], st)
        return Iter(l, e.seqlen(l, st))
    if name == "size":
        return e.seqlen(e.ev(args[0], st), st)
    if name in ("next", "prev"):
        it = e.rv(args[0], st)
        d = e.rv(args[1], st) if len(real_args(args)) > 1 else IntVal(1)
        return Iter(it.loc, it.idx + d if name == "next" else it.idx - d)
    if name == "advance":
        l = e.ev(args[0], st)
        it = e.load(l, st) if isinstance(l, (Loc, CondLoc)) else l
        if not isinstance(it, Iter):
            raise Unsupported("advance")
        e.store(l, Iter(it.loc, simp(it.idx + e.rv(args[1], st))), st)
        return None
    if name == "distance":
        a, b = rvs(e, args, st)
        return b.idx - a.idx
    if name == "get":
        l = e.ev(args[0], st)
        raise Unsupported("std::get")
    if name in ("make_pair",):
        vals = rvs(e, args, st)
        sh = e.t.node(n)
        d = {}
        for nm, v in zip(("first", "second"), vals):
            if isinstance(v, Comp):
                for p, y in v.d.items():
                    d[(nm,) + p] = y
            else:
                d[(nm,)] = v
        return Comp(sh, d)
    if name in ("make_unique", "make_shared"):
        t = strip_cv(n["type"].get("desugaredQualType") or n["type"]["qualType"])
        inner = t[t.index("<") + 1:t.rindex(">")]
        rec = e.t.rec(strip_cv(split_targs(inner)[0]))
        if rec is None:
            return Opq(t)
        cands = [c for c in rec.methods if c.kind == "CXXConstructorDecl" and
                 len(c.params) >= len(args) and not c.defaulted and (c.body or c.inits)]
        if len(cands) != 1:
            cands = [c for c in cands if len(c.params) == len(args)]
        if len(cands) < 1:
            raise Unsupported("make_unique")
        c = cands[0]
        vals = e.eval_args(c, args, st)
        return e.new_with(rec, c, vals, st)
    if name == "transform":
        note(e, "transform")
        vals = rvs(e, args, st)
        if len(vals) == 4:
            a, b, out, f = vals
            src = fixed_range(e, a, b, st)
            if src is None:
                raise Unsupported("std::transform over unbounded range")
            for i, l in enumerate(src):
                v = e.call_value(f, [l], n, st)
                v = e.load(v, st) if isinstance(v, (Loc, CondLoc)) else v
                e.store(e.iter_loc(Iter(out.loc, simplify(out.idx + i)), st), v, st)
            return None
        a, b, c, out, f = vals
        src = fixed_range(e, a, b, st)
        if src is None:
            raise Unsupported("std::transform over unbounded range")
        for i, l in enumerate(src):
            l2 = e.iter_loc(Iter(c.loc, simplify(c.idx + i)), st)
            v = e.call_value(f, [l, l2], n, st)
            v = e.load(v, st) if isinstance(v, (Loc, CondLoc)) else v
            e.store(e.iter_loc(Iter(out.loc, simplify(out.idx + i)), st), v, st)
        return None
    if name == "inner_product":
        note(e, name)
        a, b, c, acc = rvs(e, args[:4], st)
        src = fixed_range(e, a, b, st)
        if src is None or len(args) > 4:
            raise Unsupported("std::inner_product")
        for i, l in enumerate(src):
            x = e.load(l, st)
            y = e.load(e.iter_loc(Iter(c.loc, simplify(c.idx + i)), st), st)
            p = x * y
            sa = simplify(acc)
            acc = p if (is_rational_value(sa) or is_int_value(sa)) and sa.as_fraction() == 0 else acc + p
        return acc
    if name == "accumulate":
        note(e, name)
        vals = rvs(e, args, st)
        a, b, acc = vals[:3]
        src = fixed_range(e, a, b, st)
        if src is None:
            raise Unsupported("std::accumulate over unbounded range")
        isint = acc.sort() == IntSort()
        for l in src:
            x = e.load(l, st)
            if len(vals) > 3:
                acc2 = e.call_value(vals[3], [acc, x], n, st)
            else:
                acc2 = e.binop("+", acc, x, st)
            acc = e.coerce(acc2, IntSort() if isint else acc2.sort())
        return acc
    if name == "fill":
        a, b, v = rvs(e, args, st)
        src = fixed_range(e, a, b, st)
        if src is not None:
            for l in src:
                e.store(l, v, st)
            return None
        q = e.load(a.loc, st)
        if isinstance(q, Seq) and is_int_value(simplify(a.idx)):
            fl = e.flat(v, q.esh)
            e.store(a.loc, Seq(q.esh, q.n, {p: K(IntSort(), x) for p, x in fl.items()}), st)
            return None
        raise Unsupported("std::fill")
    if name in ("min_element", "max_element"):
        note(e, name)
        a, b = rvs(e, args[:2], st)
        src = fixed_range(e, a, b, st)
        if src is None or len(args) > 2 or not src:
            raise Unsupported("std::" + name)
        best, bl = e.load(src[0], st), src[0]
        for l in src[1:]:
            x = e.load(l, st)
            g = x < best if name == "min_element" else best < x
            best = If(g, x, best)
        return Ptr(e.tmp(st, best))
    if name in ("any_of", "all_of", "none_of", "find_if", "find", "find_if_not", "count_if",
                "for_each", "count"):
        return algo(e, name, args, n, st)
    if name in ("sort", "stable_sort", "reverse", "rotate", "shuffle"):
        vals = rvs(e, args, st)
        note(e, name + " (permutes its range)")
        perm(e, vals[0], vals[1], st, name)
        return None
    if name in ("setprecision", "setw", "setfill", "endl", "flush", "fixed", "scientific"):
        for a in args:
            e.ev(a, st)
        return Opq("manip")
    if name in ("to_string", "getline", "string", "printf", "fprintf", "getenv", "system",
                "stoi", "stod", "ref", "cref", "bind", "back_inserter", "isspace", "exit"):
        vals = [e.ev(a, st) for a in args if a.get("kind") != "CXXDefaultArgExpr"]
        sh = e.t.node(n)
        if sh[0] in ("int", "real", "bool"):
            return fresh(name, SORT[sh[0]])
        return Opq(name)
    if name in ("min", "max") or n.get("type", {}).get("qualType") == "double":
        pass
    # numeric_limits<T>::xxx()
    raise Unsupported("library function " + name)


def perm(e, a, b, st, name):
    """replace the sequence by an unspecified permutation of itself (only used
    for the whole range)"""
    q = e.load(a.loc, st)
    if not isinstance(q, Seq):
        raise Unsupported("std::" + name)
    p = z3.Function(fresh_name("perm"), IntSort(), IntSort())
    pi = z3.Function(fresh_name("permi"), IntSort(), IntSort())
    i = Int("i_pm")
    n = q.n
    st.pc.append(ForAll([i], Implies(And(i >= 0, i < n), And(p(i) >= 0, p(i) < n, pi(p(i)) == i)),
                        patterns=[p(i)]))
    st.pc.append(ForAll([i], Implies(And(i >= 0, i < n), And(pi(i) >= 0, pi(i) < n, p(pi(i)) == i)),
                        patterns=[pi(i)]))
    el = {}
    for k, arr in q.el.items():
        j = Int("j_pm")
        el[k] = Lambda([j], Select(arr, p(j)))
    e.store(a.loc, Seq(q.esh, n, el), st)


def algo(e, name, args, n, st):
    """search algorithms, rewritten to the equivalent loop"""
    a, b = e.rv(args[0], st), e.rv(args[1], st)
    f = e.rv(args[2], st)
    note(e, name)
    if not (isinstance(a, Iter) and isinstance(b, Iter)):
        raise Unsupported("std::" + name)

    def pred(i, s):
        l = e.iter_loc(Iter(a.loc, i), s)
        if name in ("find", "count"):
            return e.truth(e.binop("==", e.load(l, s), f, s))
        r = e.call_value(f, [l], n, s)
        r = e.load(r, s) if isinstance(r, (Loc, CondLoc)) else r
        return e.truth(r)
    src = fixed_range(e, a, b, st)
    if src is not None:
        ps = [pred(simplify(a.idx + i), st) for i in range(len(src))] if name != "for_each" else None
        if name == "for_each":
            for l in src:
                e.call_value(f, [l], n, st)
            return None
        if name == "any_of":
            return mkor(ps)
        if name == "all_of":
            return mkand(ps)
        if name == "none_of":
            return Not(mkor(ps))
        if name in ("count_if", "count"):
            return Sum([If(p, IntVal(1), IntVal(0)) for p in ps]) if ps else IntVal(0)
        r = b.idx
        for i in range(len(src) - 1, -1, -1):
            p = ps[i] if name != "find_if_not" else Not(ps[i])
            r = If(p, a.idx + i, r)
        return Iter(a.loc, r)
    # unbounded: predicate must be side-effect free
    k = fresh("k", IntSort())
    s2 = st.copy(And(a.idx <= k, k < b.idx))
    h0 = dict(s2.heap)
    p = pred(k, s2)
    if any(not zeq(s2.heap.get(x), h0.get(x)) for x in s2.heap if x in h0) or \
            any(x not in h0 for x in s2.heap):
        raise Unsupported("std::%s with side effects" % name)
    extra = s2.pc[len(st.pc) + 1:]
    j = fresh("j", IntSort())
    rng = lambda v: And(a.idx <= v, v < b.idx)
    pj = substitute(p, (k, j))
    for x in extra:
        st.pc.append(ForAll([j], Implies(rng(j), substitute(x, (k, j)))))
    if name == "any_of":
        return Exists([j], And(rng(j), pj))
    if name == "none_of":
        return Not(Exists([j], And(rng(j), pj)))
    if name == "all_of":
        return ForAll([j], Implies(rng(j), pj))
    if name in ("find", "find_if", "find_if_not"):
        if name == "find_if_not":
            p, pj = Not(p), Not(pj)
        r = fresh("found", IntSort())
        st.pc.append(And(a.idx <= r, r <= b.idx))
        st.pc.append(ForAll([j], Implies(And(a.idx <= j, j < r), Not(pj))))
        st.pc.append(Implies(r < b.idx, substitute(p, (k, r))))
        return Iter(a.loc, r)
    raise Unsupported("std::" + name)


# ------------------------------------------------------------------ methods
def method(e, name, base, me, args, n, st):
    arrow = me.get("isArrow")
    bn = me["inner"][0]
    if isinstance(base, Stream) or (isinstance(base, (Loc, CondLoc)) and
                                    isinstance(safe_load(e, base, st), Stream)):
        for a in real_args(args):
            e.ev(a, st)
        sh = e.t.node(n)
        return fresh("io", SORT[sh[0]]) if sh[0] in ("bool", "int") else Opq("io")
    loc = base
    if arrow:
        loc = e.deref(base, st, bn)
    if not isinstance(loc, (Loc, CondLoc)):
        loc = e.tmp(st, loc)
    v = e.load(loc, st)
    args = real_args(args)
    if isinstance(v, Seq):
        return seq_method(e, name, loc, v, args, n, st)
    if isinstance(v, Comp) and v.sh[0] == "A":
        if name in ("begin", "cbegin", "data"):
            return Iter(loc, IntVal(0))
        if name in ("end", "cend"):
            return Iter(loc, IntVal(v.sh[1]))
        if name == "size":
            return IntVal(v.sh[1])
        if name in ("at", "operator[]"):
            return e.elem(loc, e.rv(args[0], st), st)
        if name == "front":
            return loc.at(0)
        if name == "back":
            return loc.at(v.sh[1] - 1)
        if name == "fill":
            x = e.rv(args[0], st)
            for i in range(v.sh[1]):
                e.store(loc.at(i), x, st)
            return None
    if isinstance(v, ExprRef) and v.sort() == IntSort():
        # smart pointers
        if name == "get":
            return v
        if name == "reset":
            x = e.rv(args[0], st) if args else IntVal(0)
            e.store(loc, x, st)
            return None
        if name == "release":
            e.store(loc, IntVal(0), st)
            return v
        if name == "operator bool":
            return v != 0
    if isinstance(v, Iter) and name == "base":
        return v
    if isinstance(v, Opq) or (isinstance(v, ExprRef)):
        for a in args:
            e.ev(a, st)
        sh = e.t.node(n)
        if isinstance(v, ExprRef) and name == "operator bool":
            return v if v.sort() == BoolSort() else v != 0
        if sh[0] in ("bool", "int", "real"):
            return fresh("opq_" + name, SORT[sh[0]])
        if sh == VOID:
            return None
        return Opq(name)
    raise Unsupported("library method %s on %r" % (name, v))


def safe_load(e, loc, st):
    try:
        return e.load(loc, st)
    except Unsupported:
        return None


def seq_push(e, q, v):
    fl = e.flat(v, q.esh)
    return Seq(q.esh, simp(q.n + 1), {p: Store(q.el[p], q.n, fl[p]) for p in q.el})


def simp(x):
    y = simplify(x)
    return y if is_int_value(y) else x


def seq_insert(e, q, idx, v):
    fl = e.flat(v, q.esh)
    el = {}
    j = Int("j_ins")
    for p in q.el:
        el[p] = Lambda([j], If(j < idx, Select(q.el[p], j),
                               If(j == idx, fl[p], Select(q.el[p], j - 1))))
    return Seq(q.esh, q.n + 1, el)


def seq_erase(e, q, idx, cnt=None):
    c = IntVal(1) if cnt is None else cnt
    j = Int("j_er")
    el = {p: Lambda([j], If(j < idx, Select(q.el[p], j), Select(q.el[p], j + c))) for p in q.el}
    return Seq(q.esh, q.n - c, el)


def seq_method(e, name, loc, q, args, n, st):
    hk = e.std_hooks.get("seq." + name)
    if hk is not None:
        r = hk(e, loc, q, args, n, st)
        if r is not NotImplemented:
            return r
    if name == "size":
        st.pc.append(q.n >= 0) if not is_int_value(q.n) else None
        return q.n
    if name == "empty":
        return q.n == 0
    if name in ("begin", "cbegin"):
        return Iter(loc, IntVal(0))
    if name in ("end", "cend"):
        return Iter(loc, q.n)
    if name in ("at", "operator[]"):
        return Loc("Q", loc, e.rv(args[0], st))
    if name == "front":
        return Loc("Q", loc, IntVal(0))
    if name == "back":
        return Loc("Q", loc, simp(q.n - 1))
    if name in ("push_back", "emplace_back"):
        note(e, "vector/list push_back")
        if len(args) == 1:
            v = e.rv(args[0], st)
        else:
            v = emplace_value(e, q.esh, args, st)
        q2 = e.load(loc, st)
        e.store(loc, seq_push(e, q2, v), st)
        return Loc("Q", loc, q2.n)
    if name in ("push_front", "emplace_front"):
        v = e.rv(args[0], st)
        e.store(loc, seq_insert(e, q, IntVal(0), v), st)
        return None
    if name == "pop_back":
        e.store(loc, Seq(q.esh, q.n - 1, q.el), st)
        return None
    if name == "clear":
        e.store(loc, e.seq_of([], q.esh), st)
        return None
    if name == "reserve" or name == "shrink_to_fit":
        for a in args:
            e.ev(a, st)
        return None
    if name == "resize" or name == "assign":
        if len(args) == 1 and name == "resize":
            m = e.rv(args[0], st)
            z = e.seq_of([], q.esh)
            j = Int("j_rs")
            el = {p: Lambda([j], If(j < q.n, Select(q.el[p], j), Select(z.el[p], j))) for p in q.el}
            e.store(loc, Seq(q.esh, m, el), st)
            return None
        if len(args) == 2 and name == "assign":
            m, v = e.rv(args[0], st), e.rv(args[1], st)
            if isinstance(m, ExprRef):
                fl = e.flat(v, q.esh)
                e.store(loc, Seq(q.esh, m, {p: K(IntSort(), x) for p, x in fl.items()}), st)
                return None
    if name in ("insert", "emplace"):
        it = e.rv(args[0], st)
        if len(args) == 2:
            v = e.rv(args[1], st)
            q2 = e.load(loc, st)
            e.store(loc, seq_insert(e, q2, it.idx, v), st)
            return Iter(loc, it.idx)
        if len(args) == 3:
            a, b = e.rv(args[1], st), e.rv(args[2], st)
            if isinstance(a, Iter) and isinstance(b, Iter) and same_loc(a.loc, b.loc) and not a.rev:
                note(e, "vector insert of a range")
                src = e.load(a.loc, st)
                q2 = e.load(loc, st)
                m = simp(b.idx - a.idx)
                j = fresh("j", IntSort())
                el = {}
                for p in q2.el:
                    x = fresh("rng", q2.el[p].sort())
                    st.pc.append(ForAll([j], Implies(And(0 <= j, j < it.idx), x[j] == q2.el[p][j]), patterns=[x[j]]))
                    st.pc.append(ForAll([j], Implies(And(0 <= j, j < m), x[j + it.idx] == src.el[p][j + a.idx]),
                                        patterns=[src.el[p][j + a.idx]]))
                    st.pc.append(ForAll([j], Implies(And(it.idx <= j, j < it.idx + m), x[j] == src.el[p][j - it.idx + a.idx]),
                                        patterns=[x[j]]))
                    if not simp(it.idx).eq(simp(q2.n)):
                        st.pc.append(ForAll([j], Implies(j >= it.idx + m, x[j] == q2.el[p][j - m]), patterns=[x[j]]))
                    el[p] = x
                e.store(loc, Seq(q2.esh, simp(q2.n + m), el), st)
                return Iter(loc, it.idx)
    if name == "erase":
        it = e.rv(args[0], st)
        if len(args) == 1:
            e.store(loc, seq_erase(e, q, it.idx), st)
            return Iter(loc, it.idx)
        it2 = e.rv(args[1], st)
        e.store(loc, seq_erase(e, q, it.idx, it2.idx - it.idx), st)
        return Iter(loc, it.idx)
    if name == "sort":
        note(e, "list::sort (permutes)")
        perm(e, Iter(loc, IntVal(0)), Iter(loc, q.n), st, "sort")
        return None
    if name == "remove":
        return seq_remove(e, loc, q, e.rv(args[0], st), st)
    if name == "swap":
        l2 = e.ev(args[0], st)
        v2 = e.load(l2, st)
        e.store(loc, v2, st)
        e.store(l2, q, st)
        return None
    if name in ("capacity", "max_size"):
        return fresh("cap", IntSort())
    raise Unsupported("sequence method " + name)


def seq_remove(e, loc, q, v, st):
    """std::list::remove(value): keeps exactly the elements != value, in order"""
    if list(q.el) != [()]:
        raise Unsupported("list::remove of structures")
    note(e, "list::remove (keeps the elements different from the value, in order)")
    a = q.el[()]
    if isinstance(v, Loc):
        v = v.a
    if not z3.is_const(a):
        a0, a = a, fresh("lst", a.sort())
        st.pc.append(a == a0)
    r = fresh("rem", a.sort())
    m = fresh("remn", IntSort())
    src = z3.Function(fresh_name("src"), IntSort(), IntSort())
    dst = z3.Function(fresh_name("dst"), IntSort(), IntSort())
    i, j = Int("i_rm"), Int("j_rm")
    st.pc.append(And(m >= 0, m <= q.n))
    st.pc.append(ForAll([i], Implies(And(i >= 0, i < m),
                 And(src(i) >= i, src(i) < q.n, Select(r, i) == Select(a, src(i)),
                     Select(r, i) != v, dst(src(i)) == i)), patterns=[Select(r, i)]))
    st.pc.append(ForAll([i], Implies(And(i >= 0, i < q.n, Select(a, i) != v),
                 And(dst(i) >= 0, dst(i) < m, src(dst(i)) == i, Select(r, dst(i)) == Select(a, i))),
                 patterns=[Select(a, i)]))
    st.pc.append(ForAll([i, j], Implies(And(0 <= i, i < j, j < m), src(i) < src(j)),
                 patterns=[MultiPattern(src(i), src(j))]))
    # no occurrence: unchanged length
    st.pc.append(Implies(ForAll([i], Implies(And(i >= 0, i < q.n), Select(a, i) != v)), m == q.n))
    st.pc.append(Implies(Exists([i], And(i >= 0, i < q.n, Select(a, i) == v)), m < q.n))
    e.store(loc, Seq(q.esh, m, {(): r}), st)
    return None


def emplace_value(e, esh, args, st):
    if esh[0] == "P":
        return e.init_agg(esh, args, st)
    if esh[0] == "S":
        rec = e.w.recname[esh[1]]
        cands = [c for c in rec.methods if c.kind == "CXXConstructorDecl" and not c.defaulted
                 and len(c.params) == len(args) and (c.body or c.inits)]
        if len(cands) == 1:
            return e.construct(cands[0], esh, e.eval_args(cands[0], args, st), st)
    raise Unsupported("emplace_back")


# ------------------------------------------------------------------ operators
def operator(e, name, args, n, st):
    op = name[8:]
    if op == "<<" or op == ">>":
        r = stream(e, args, n, st, None)
        if r is not NotImplemented:
            return r
    a = e.ev(args[0], st)
    av = e.load(a, st) if isinstance(a, (Loc, CondLoc)) else a
    if op == "()":
        return e.call_value(av, [e.ev(x, st) for x in args[1:]], n, st)
    if op == "[]":
        if isinstance(av, Seq) or (isinstance(av, Comp) and av.sh[0] == "A"):
            l = a if isinstance(a, (Loc, CondLoc)) else e.tmp(st, av)
            return e.elem(l, e.rv(args[1], st), st)
        if isinstance(av, Iter):
            return e.iter_loc(Iter(av.loc, av.idx + e.rv(args[1], st)), st)
        if isinstance(av, Opq):
            e.ev(args[1], st)
            return Opq("elem")
    if op == "*" and len(args) == 1:
        if isinstance(av, Iter):
            return e.iter_loc(av, st)
        return e.deref(av, st, None if not isinstance(av, ExprRef) else ptr_node(args[0]))
    if op == "->":
        if isinstance(av, Iter):
            return Ptr(e.iter_loc(av, st))
        return av
    if op == "=":
        v = e.rv(args[1], st)
        if isinstance(av, Comp) and isinstance(v, Comp):
            v = Comp(av.sh, v.d)
        e.store(a, v, st)
        return a
    if op in ("++", "--"):
        d = 1 if op == "++" else -1
        if isinstance(av, Iter):
            nv = Iter(av.loc, simp(av.idx + d))
        else:
            raise Unsupported("operator" + op)
        e.store(a, nv, st)
        return av if len(args) == 2 else a
    if op in ("==", "!=", "<", ">", "<=", ">=", "-", "+"):
        b = e.rv(args[1], st)
        return e.binop(op, av, b, st)
    if op in ("+=", "-="):
        b = e.rv(args[1], st)
        if isinstance(av, Iter):
            e.store(a, Iter(av.loc, av.idx + b if op == "+=" else av.idx - b), st)
            return a
        if isinstance(av, Opq):
            return a
    if op == "bool":
        return e.truth(av)
    raise Unsupported("library operator " + op)


def ptr_node(n):
    """give deref the pointee class of a smart pointer operand"""
    t = strip_cv(n["type"].get("desugaredQualType") or n["type"]["qualType"])
    m = re.match(r"^std::(?:unique_ptr|shared_ptr)<(.*)>$", t)
    if m:
        return {"type": {"qualType": split_targs(m.group(1))[0] + " *"}}
    return None


def stream(e, args, n, st, user):
    """operator<< on an output stream: record the token in the stream's trace"""
    a = e.ev(args[0], st)
    s = a
    if isinstance(a, (Loc, CondLoc)):
        s = safe_load(e, a, st)
    if isinstance(s, Opq) and not isinstance(s, Stream):
        # logging objects and other untracked sinks
        for x in args[1:]:
            try:
                e.ev(x, st)
            except Unsupported:
                pass
        return a
    if isinstance(s, Stream):
        x = args[1]
        v = e.ev(x, st)
        if isinstance(v, (Loc, CondLoc)) and not (isinstance(v, Loc) and v.kind == "H" and not v.path):
            v = e.load(v, st)
        tok = v
        st.out[s.key] = st.out.get(s.key, ()) + (tok,)
        return a
    return NotImplemented
