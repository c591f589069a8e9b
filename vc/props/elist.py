"""Contracts on edge lists (EdgeList.h)."""
from z3 import *
from verif import *
from props.adj import lst, mem, wf
from props.size import seq

T = "TQMesh::"
G = "CppUtils::"
L = T + "EdgeList::"


def edges_of(V, st, l, cls="EdgeList"):
    f = V.w.find(T + "EdgeList::edges", const=True)
    s = st.copy()
    loc = V.e.inline(f[0], Loc("H", l, cls=T + cls), [], s)
    return seq(V, s, loc)


class El:
    """the edges of a list in a state"""
    def __init__(self, V, st, l):
        self.V, self.st = V, st
        q = edges_of(V, st, l)
        self.n, self.a = q.n, q.el[()]

    def end(self, e, w):
        return self.V.obs(self.st, e, T + "Edge::" + w, const=True)

    def p(self, i):
        return self.V.at(self.st, self.end(self.a[i], "v1"))

    def q(self, i):
        return self.V.at(self.st, self.end(self.a[i], "v2"))


def start(V):
    s = Int("self")
    st = V.state()
    st.pc += [s > 0, s < st.nxt]
    return s, st


def c_area(V):
    s, st = start(V)
    E = El(V, st, s)
    n = E.n
    S = z3.Function("SHOELACE", IntSort(), RealSort())
    X1, Y1, X2, Y2 = [z3.Function(c, IntSort(), RealSort()) for c in ("X1", "Y1", "X2", "Y2")]
    i = Int("i")

    def ax(i):
        p, q = E.p(i), E.q(i)
        return And(X1(i) == p[0], Y1(i) == p[1], X2(i) == q[0], Y2(i) == q[1])
    term = lambda i: X1(i) * Y2(i) - X2(i) * Y1(i)
    link = lambda i: Implies(And(0 <= i, i + 1 < n), And(X2(i) == X1(i + 1), Y2(i) == Y1(i + 1)))
    step = lambda i: Implies(And(0 <= i, i < n), S(i + 1) == S(i) + term(i))
    zero, one = IntVal(0), IntVal(1)
    st.pc += [n >= 0, S(0) == 0, step(zero), ax(zero), ax(one), link(zero)]
    # closed: every edge starts where the previous one ends, the first where the last ends
    last = And(X2(n - 1) == X1(0), Y2(n - 1) == Y1(0))

    def spec(eng, Lc):
        out = [("axiom:a", lambda k: And(ax(k + 1), step(k + 1), link(k)))]
        for c in Lc.local_cells(RealSort()) + [c for c in Lc.mod if c[0] == "H"]:
            def f(st2, k, c=c):
                a = Lc.cell(st2, c)
                if is_array(a):
                    a = Select(a, s)
                rx, ry = X1(0), Y1(0)
                return a == S(k + 1) - S(1) - (X1(1) * ry - rx * Y1(1)) + (X2(k) * ry - rx * Y2(k))
            out.append(("g:partial-sum", f))
        return out + [("only", None)]
    V.e.loopspecs = [spec]
    ex = V.run(L + "compute_area", this=s, st=st)
    a = V.obs(ex.post, s, L + "area")
    V.ensure(ex, "area-is-half-the-shoelace-sum-of-the-closed-list", 2 * a == S(n), extra=[n >= 3, last])
    V.ensure(ex, "no-area-below-three-edges", Implies(n < 3, a == 0))


def match_spec(V, st, s, v, good):
    """result of a search through the edges of vertex v for one with good(e)"""
    n, el = lst(V, st, v, "edges")
    i = Int(fresh_name("wi"))
    return (lambda r: Implies(r != 0, And(mem(V, st, v, "edges", r), good(r))),
            lambda r: Implies(And(r == 0, 0 <= i, i < n, el[i] != 0), Not(good(el[i]))))


def c_lookup(V):
    for nm, directed in (("get_edge_dir", True), ("get_edge_nodir", False), ("get_edge", None)):
        fs = [f for f in V.w.find(L + nm) if "Vertex" in (f.params[1]["type"]["qualType"])]
        for d in ([directed] if directed is not None else [True, False]):
            s, st = start(V)
            st.pc += wf(V, st)
            ex = V.run(fs[0], args=[None, None] + ([BoolVal(d)] if directed is None else []), this=s, st=st)
            v1, v2 = ex.args[:2]
            o = lambda e, n: V.obs(ex.pre, e, T + "Edge::" + n, const=True)
            fwd = lambda e: And(o(e, "v1") == v1, o(e, "v2") == v2)
            bwd = lambda e: And(o(e, "v1") == v2, o(e, "v2") == v1)
            good = lambda e: And(o(e, "edgelist") == s, fwd(e) if d else Or(fwd(e), bwd(e)))
            A, B = match_spec(V, ex.pre, s, v1, good)
            V.ensure(ex, "%s-%s/found-edge-connects-the-vertices" % (nm, d), A(ex.ret))
            V.ensure(ex, "%s-%s/none-only-if-there-is-none" % (nm, d), B(ex.ret))
    f = [f for f in V.w.find(L + "get_edge") if "int" == f.params[1]["type"]["qualType"]][0]
    for pos in (0, 1, 2):
        s, st = start(V)
        st.pc += wf(V, st)
        ex = V.run(f, args=[None, IntVal(pos)], this=s, st=st)
        v = ex.args[0]
        o = lambda e, n: V.obs(ex.pre, e, T + "Edge::" + n, const=True)
        good = lambda e: And(o(e, "edgelist") == s, BoolVal(True) if pos == 0 else o(e, "v%d" % pos) == v)
        A, B = match_spec(V, ex.pre, s, v, good)
        V.ensure(ex, "by-vertex-%d/found-edge-has-the-vertex-there" % pos, A(ex.ret))
        V.ensure(ex, "by-vertex-%d/none-only-if-there-is-none" % pos, B(ex.ret))


def c_traversable(V):
    NX = z3.Function("NEXT", IntSort(), IntSort())
    IT = z3.Function("ITER", IntSort(), IntSort())

    def h(eng, f, this, vals, st):
        return NX(V.refof(this))
    V.e.intercepts[T + "Edge::get_next_edge"] = h
    s, st = start(V)
    E = El(V, st, s)
    a, b = Ints("a0 a1")
    j = Int("j")
    st.pc += [E.n >= 1, IT(0) == a, IT(1) == NX(a), NX(0) == 0, b > 0]

    def spec(eng, Lc):
        out = [("axiom:it", lambda k: IT(k + 2) == NX(IT(k + 1)))]
        for c in Lc.local_cells(IntSort()):
            if c in Lc.ind:
                continue
            out.append(("current-is-the-iterate", lambda s2, k, c=c: Lc.cell(s2, c) == IT(k + 1)))
        out.append(("not-there-yet", lambda s2, k: ForAll([j], Implies(And(1 <= j, j <= k), And(
            IT(j) != 0, IT(j) != b)), patterns=[IT(j)])))
        return out
    V.e.loopspecs = [spec]
    ex = V.run(L + "is_traversable", args=[a, b], this=s, st=st)
    ok = lambda m: And(1 <= m, m <= E.n, IT(m) == b, ForAll([j], Implies(And(1 <= j, j < m), IT(j) != 0), patterns=[IT(j)]))
    m = Int("m")
    V.ensure(ex, "true-only-if-next-edges-lead-there", Implies(ex.ret, Exists([m], ok(m))))
    V.ensure(ex, "false-only-if-they-do-not-within-the-list", Implies(And(ok(m), Not(ex.ret)), BoolVal(False)))


def on_seg(V):
    P = z3.Function("P_in_on_segment", *([RealSort()] * 6), BoolSort())

    def h(eng, f, this, vals, st):
        c = []
        for v in vals:
            c += V.coords(eng.load(v, st) if isinstance(v, (Loc, CondLoc)) else v)
        return P(*c)
    V.e.intercepts[G + "in_on_segment"] = h
    return lambda a, b, x: P(a[0], a[1], b[0], b[1], x[0], x[1])


def c_inside(V):
    P = on_seg(V)
    s, st = start(V)
    E = El(V, st, s)
    f = [g for g in V.w.find(L + "is_inside") if "Vec" in g.params[0]["type"]["qualType"]][0]
    C = z3.Function("CROSSINGS", IntSort(), IntSort())
    ON = z3.Function("ON", IntSort(), BoolSort())
    xy = V.e.named_val(V.e.t.shape("CppUtils::VecND<double, 2>"), "pt")
    x = V.coords(xy)
    n = E.n

    def left(i):
        """the ray to the left of the point crosses edge i (half-open rule)"""
        p, q = E.p(i), E.q(i)
        # p below (strictly) and q at or above, or the other way round
        up = And(x[1] > p[1], x[1] <= q[1])
        dn = And(x[1] > q[1], x[1] <= p[1])
        side = (q[0] - p[0]) * (x[1] - p[1]) - (q[1] - p[1]) * (x[0] - p[0])
        return Or(And(up, side < 0), And(dn, side > 0))

    def on(i):
        p, q = E.p(i), E.q(i)
        return Or(And(x[0] == p[0], x[1] == p[1]), And(x[0] == q[0], x[1] == q[1]), P(p, q, x))
    j = Int("j")
    st.pc += [n >= 0, C(0) == 0]

    def spec(eng, Lc):
        out = [("axiom:def", lambda k: And(C(k + 1) == C(k) + If(left(k), 1, 0), ON(k) == on(k))),
               ("none-on", lambda s2, k: ForAll([j], Implies(And(0 <= j, j < k), Not(ON(j))), patterns=[ON(j)]))]
        for c in Lc.local_cells(IntSort()):
            if c not in Lc.ind:
                out.append(("g:counted", lambda s2, k, c=c: Lc.cell(s2, c) == C(k)))
                out.append(("g:counted-nonneg", lambda s2, k, c=c: And(C(k) >= 0, C(k) <= k)))
        return out + [("only", None)]
    V.e.loopspecs = [spec]
    k = fresh_name("xyarg")
    st.env[k] = xy
    ex = V.run(f, args=[Loc("L", k)], this=s, st=st)
    some = Exists([j], And(0 <= j, j < n, ON(j)))
    V.ensure(ex, "inside-iff-on-an-edge-or-odd-number-of-crossings",
             ex.ret == And(n >= 3, Or(some, C(n) % 2 == 1)))


def c_closest(V):
    s, st = start(V)
    E = El(V, st, s)
    D = z3.Function("DIST2", IntSort(), RealSort())
    V1 = z3.Function("FIRST", IntSort(), IntSort())
    xy = V.e.named_val(V.e.t.shape("CppUtils::VecND<double, 2>"), "pt")
    x = V.coords(xy)
    d2 = lambda p: (x[0] - p[0]) * (x[0] - p[0]) + (x[1] - p[1]) * (x[1] - p[1])
    j, i = Ints("j i")
    BIG = num(1.7976931348623157e308)

    def spec(eng, Lc):
        out = [("axiom:def", lambda k: And(D(k) == d2(E.p(k)), V1(k) == E.end(E.a[k], "v1"),
                                           Implies(And(0 <= k, k < E.n), And(D(k) < BIG, V1(k) > 0))))]
        for c in Lc.local_cells(RealSort()):
            out.append(("least-so-far", lambda s2, k, c=c: ForAll([j], Implies(And(0 <= j, j < k), Lc.cell(s2, c) <= D(j)),
                                                                  patterns=[D(j)])))
            for r in Lc.local_cells(IntSort()):
                if r not in Lc.ind:
                    out.append(("attained-by-the-vertex", lambda s2, k, c=c, r=r: And(Lc.cell(s2, c) <= BIG, Or(
                        And(k == 0, Lc.cell(s2, c) == BIG), Exists([j], And(
                            0 <= j, j < k, Lc.cell(s2, c) == D(j), Lc.cell(s2, r) == V1(j)))))))
        return out + [("only", None)]
    V.e.loopspecs = [spec]
    k = fresh_name("xyarg")
    st.env[k] = xy
    st.pc += [E.n >= 1]
    ex = V.run(L + "get_closest_vertex", args=[Loc("L", k)], this=s, st=st)
    r = V.refof(ex.ret)
    V.ensure(ex, "a-start-vertex-of-least-distance", Exists([j], And(0 <= j, j < E.n, r == V1(j), ForAll(
        [i], Implies(And(0 <= i, i < E.n), D(j) <= D(i)), patterns=[D(i)]))))


def isect(V):
    P = z3.Function("P_line_line_intersection", *([RealSort()] * 8), BoolSort())

    def h(eng, f, this, vals, st):
        c = []
        for v in vals:
            c += V.coords(eng.load(v, st) if isinstance(v, (Loc, CondLoc)) else v)
        return P(*c)
    V.e.intercepts[G + "line_line_intersection"] = h
    return lambda a, b, c, d: P(*a, *b, *c, *d)


def c_isect(V, other):
    P = isect(V)
    s, st = start(V)
    E = El(V, st, s)
    NX, PV = [z3.Function(n, IntSort(), IntSort()) for n in ("NEXT", "PREV")]
    V.e.intercepts[T + "Edge::get_next_edge"] = lambda eng, f, this, vals, st: NX(V.refof(this))
    V.e.intercepts[T + "Edge::get_prev_edge"] = lambda eng, f, this, vals, st: PV(V.refof(this))
    if other:
        o = Int("other")
        st.pc += [o > 0, o < st.nxt]
        F = El(V, st, o)
    else:
        F = E
    st.pc += [E.n >= 0, F.n >= 0]
    ex = V.run(L + ("intersects_edgelist" if other else "intersects_self"), args=[o] if other else [], this=s, st=st)
    i, j = Ints("i j")

    def hit(i, j):
        c = P(E.p(i), E.q(i), F.p(j), F.q(j))
        if not other:
            a, b = E.a[i], E.a[j]
            c = And(c, a != b, b != NX(a), b != PV(a))
        return And(0 <= i, i < E.n, 0 <= j, j < F.n, c)
    V.ensure(ex, "true-only-if-two-edges-intersect", Implies(ex.ret, Exists([i, j], hit(i, j))))
    V.ensure(ex, "false-only-if-none-do", Implies(And(Not(ex.ret), hit(i, j)), BoolVal(False)))


def contracts(V):
    V.section("edge-list/area", c_area)
    V.section("edge-list/lookup", c_lookup)
    V.section("edge-list/traversable", c_traversable)
    V.section("edge-list/inside", c_inside)
    V.section("edge-list/closest-vertex", c_closest)
    V.section("edge-list/intersects-self", c_isect, False)
    V.section("edge-list/intersects-other", c_isect, True)
