"""Contracts on boundaries and domains (Boundary.h, Domain.h, EntityChecks.h)."""
from z3 import *
from verif import *
from props.size import seq

T = "TQMesh::"
G = "CppUtils::"
D = T + "Domain::"
B = T + "Boundary::"


def start(V, cls="Domain"):
    s = Int("self")
    st = V.state()
    st.pc += [s > 0, s < st.nxt]
    return s, st


def bounds(V, st, s):
    q = seq(V, st, Loc("H", s, cls=T + "Domain"))
    return q.n, q.el[()]


def verts(V, st, s):
    f = V.w.find(D + "vertices", const=True)[0]
    s2 = st.copy()
    q = seq(V, s2, V.e.inline(f, Loc("H", s, cls=T + "Domain"), [], s2))
    return q.n, q.el[()]


def c_extent(V):
    s, st = start(V)
    n, a = verts(V, st, s)
    st.pc.append(n >= 0)
    pre = st.copy()
    ex = V.run(D + "extent", this=s, st=st)
    c = V.coords(ex.ret)        # first.x first.y second.x second.y = xmin xmax ymin ymax
    i = Int("i")
    at = lambda i: V.at(pre, a[i])
    for k, (lo, hi) in enumerate(((c[0], c[1]), (c[2], c[3]))):
        nm = "xy"[k]
        V.ensure(ex, "contains-every-vertex-" + nm, Implies(And(0 <= i, i < n), And(lo <= at(i)[k], at(i)[k] <= hi)))
        V.ensure(ex, "smallest-is-attained-" + nm, Implies(n > 0, Exists([i], And(0 <= i, i < n, lo == at(i)[k]))))
        V.ensure(ex, "largest-is-attained-" + nm, Implies(n > 0, Exists([i], And(0 <= i, i < n, hi == at(i)[k]))))


def c_area(V):
    s, st = start(V)
    n, b = bounds(V, st, s)
    S = z3.Function("AREASUM", IntSort(), RealSort())
    area = lambda x: V.obs(st, x, T + "EdgeList::area")
    st.pc += [n >= 0, S(0) == 0]

    def spec(eng, L):
        out = [("axiom:S", lambda k: S(k + 1) == S(k) + area(b[k]))]
        for c in L.local_cells(RealSort()):
            out.append(("g:sum-so-far", lambda s2, k, c=c: L.cell(s2, c) == S(k)))
        return out
    V.e.loopspecs = [spec]
    ex = V.run(D + "area", this=s, st=st)
    V.ensure(ex, "sum-of-the-boundary-areas", ex.ret == S(n))


def c_inside(V):
    INS = z3.Function("INSIDE", IntSort(), RealSort(), RealSort(), BoolSort())

    def h(eng, f, this, vals, st):
        v = vals[0]
        if isinstance(v, (Loc, CondLoc)) and not (isinstance(v, Loc) and v.kind == "H" and not v.path):
            v = eng.load(v, st)
        c = V.coords(v) if isinstance(v, Comp) else V.at(st, V.refof(v))
        return INS(V.refof(this), c[0], c[1])
    V.e.intercepts[T + "EdgeList::is_inside"] = h
    for f in V.w.find(D + "is_inside"):
        t = f.params[0]["type"]["qualType"]
        if "Vertex" not in t:
            continue
        s, st = start(V)
        n, b = bounds(V, st, s)
        i = Int("i")
        st.pc += [n >= 0, ForAll([i], Xor(V.obs(st, b[i], B + "is_exterior"), V.obs(st, b[i], B + "is_interior")), patterns=[b[i]])]
        pre = st.copy()
        ex = V.run(f, this=s, st=st)
        c = V.at(pre, ex.args[0])
        ext = lambda x: V.obs(pre, x, B + "is_exterior")
        V.ensure(ex, "inside-all-exterior-and-no-interior-boundary",
                 ex.ret == ForAll([i], Implies(And(0 <= i, i < n), INS(b[i], c[0], c[1]) == ext(b[i]))))

def c_kinds(V):
    """a boundary is either exterior or interior"""
    ext = IntVal(V.w.enumconst[T + "BdryType::EXTERIOR"])
    inr = IntVal(V.w.enumconst[T + "BdryType::INTERIOR"])
    for c, want in ((ext, True), (inr, False)):
        f = V.w.find(B + "Boundary", nparams=2)[0]
        ex = V.run(f, args=[None, c])
        o = lambda n: V.obs(ex.post, ex.this.a, n)
        V.ensure(ex, "kind-as-given-%s" % want, And(o(B + "is_exterior") == want, o(B + "is_interior") == (not want)))
        V.ensure(ex, "orientation-of-its-kind-%s" % want, o(T + "EdgeList::is_ccw") == want)
        V.ensure(ex, "no-area-%s" % want, o(T + "EdgeList::area") == 0)


def c_lookup(V):
    s, st = start(V)
    n, b = bounds(V, st, s)
    NL = z3.Function("NNEAR", IntSort(), IntSort())
    LA = z3.Function("NEAR", IntSort(), ArraySort(IntSort(), IntSort()))
    OFF = z3.Function("OFF", IntSort(), IntSort())
    WB = z3.Function("OWNER", IntSort(), IntSort())
    calls = []

    def h(eng, f, this, vals, st):
        c = eng.load(vals[0], st) if isinstance(vals[0], (Loc, CondLoc)) else vals[0]
        r = eng.load(vals[1], st) if isinstance(vals[1], (Loc, CondLoc)) else vals[1]
        calls.append((V.coords(c), r, list(st.pc)))
        x = V.refof(this)
        st.pc.append(NL(x) >= 0)
        return Seq(REF, NL(x), {(): LA(x)})
    V.e.intercepts[T + "EdgeList::get_edges"] = h
    m, i, j = Ints("m i j")
    st.pc += [n >= 0, OFF(0) == 0]

    def spec(eng, L):
        out = [("axiom:def", lambda k: And(NL(b[k]) >= 0, OFF(k + 1) == OFF(k) + NL(b[k]),
                                           ForAll([m], Implies(And(OFF(k) <= m, m < OFF(k + 1)), WB(m) == k), patterns=[WB(m)])))]
        for c in sorted(L.mod, key=str):
            if c[0] == "L" and c[-1] == "n":
                e_ = c[:-1] + ("e", ())
                out.append(("length", lambda s2, k, c=c: And(L.cell(s2, c) == OFF(k), OFF(k) >= 0)))
                out.append(("all-kept", lambda s2, k, e_=e_: ForAll([i, j], Implies(
                    And(0 <= i, i < k, 0 <= j, j < NL(b[i])), And(0 <= OFF(i), OFF(i) + j < OFF(k), L.cell(s2, e_)[OFF(i) + j] == LA(b[i])[j])),
                    patterns=[LA(b[i])[j]])))
                out.append(("nothing-else", lambda s2, k, e_=e_: ForAll([m], Implies(
                    And(0 <= m, m < OFF(k)), And(0 <= WB(m), WB(m) < k, 0 <= m - OFF(WB(m)), m - OFF(WB(m)) < NL(b[WB(m)]),
                                                 L.cell(s2, e_)[m] == LA(b[WB(m)])[m - OFF(WB(m))])),
                    patterns=[L.cell(s2, e_)[m]])))
        return out + [("only", None)]
    V.e.loopspecs = [spec]
    ex = V.run(D + "get_boundary_edges", this=s, st=st)
    c, r = V.coords(ex.args[0]), ex.args[1]
    q = ex.ret
    for cc, rr, pc in calls:
        V.lemma("asks-with-the-given-circle", pc, And(cc[0] == c[0], cc[1] == c[1], rr == r), fn=ex.fn.qname)
    V.ensure(ex, "every-near-edge-of-every-boundary", Implies(And(0 <= i, i < n, 0 <= j, j < NL(b[i])),
             Exists([m], And(0 <= m, m < q.n, q.el[()][m] == LA(b[i])[j]))))
    V.ensure(ex, "only-near-edges-of-boundaries", Implies(And(0 <= m, m < q.n),
             Exists([i, j], And(0 <= i, i < n, 0 <= j, j < NL(b[i]), q.el[()][m] == LA(b[i])[j]))))


# ------------------------------------------------------------------ shapes
def vec2(V):
    return V.e.t.shape("CppUtils::VecND<double, 2>")


def capture(V):
    calls = []

    def h(eng, f, this, vals, st):
        calls.append((V.refof(this), [eng.load(v, st) if isinstance(v, (Loc, CondLoc)) else v for v in vals], list(st.pc)))
        return None
    V.e.intercepts[B + "create_boundary_shape"] = h
    return calls


def xy_of(q, i):
    (kx, X), (ky, Y) = sorted(q.el.items(), key=str)
    return X[i], Y[i]


def c_shapes(V):
    # rectangle and square
    for nm, w, h in (("set_shape_rectangle", "w", "h"), ("set_shape_square", "w", "w")):
        calls = capture(V)
        s, st = start(V)
        ex = V.run(B + nm, this=s, st=st)
        col, xy = ex.args[0], V.coords(ex.args[1])
        if nm.endswith("square"):
            W = H = ex.args[2]
            ms, mr = ex.args[3:5]
        else:
            W, H, ms, mr = ex.args[2:6]
        V.lemma(nm + "/one-shape", [], BoolVal(len(calls) == 1), fn=ex.fn.qname)
        me, (P, Q, C), pc = calls[0]
        V.lemma(nm + "/own-boundary", pc, me == s, fn=ex.fn.qname)
        V.lemma(nm + "/four-corners", pc, And(P.n == 4, Q.n == 4, C.n == 4), fn=ex.fn.qname)
        corners = [(xy[0] + a * W / 2, xy[1] + b * H / 2) for a, b in ((-1, -1), (1, -1), (1, 1), (-1, 1))]
        eq = lambda i, c: And(xy_of(P, IntVal(i))[0] == c[0], xy_of(P, IntVal(i))[1] == c[1])
        # any starting corner and direction describes the same boundary
        V.lemma(nm + "/corners-in-order", pc, Or([And([eq(i, corners[(r + d * i) % 4]) for i in range(4)])
                                                  for r in range(4) for d in (1, -1)]), fn=ex.fn.qname)
        V.lemma(nm + "/sizes-and-colours", pc, And([And(xy_of(Q, IntVal(i))[0] == ms, xy_of(Q, IntVal(i))[1] == mr,
                                                        C.el[()][i] == col) for i in range(4)]), fn=ex.fn.qname)
    # triangle is the circle through its corners
    got = []

    def hc(eng, f, this, vals, st):
        got.append((V.refof(this), [eng.load(v, st) if isinstance(v, (Loc, CondLoc)) else v for v in vals], list(st.pc)))
        return None
    V.reset()
    V.e.intercepts[B + "set_shape_circle"] = hc
    s, st = start(V)
    ex = V.run(B + "set_shape_triangle", this=s, st=st)
    me, v, pc = got[0]
    a = ex.args
    V.lemma("set_shape_triangle/circle-through-its-corners", pc, And(
        me == s, v[0] == a[0], V.coords(v[1])[0] == V.coords(a[1])[0], V.coords(v[1])[1] == V.coords(a[1])[1],
        v[2] * V.e.sqrt(RealVal(3)) == a[2], v[3] == 3, v[4] == a[3], v[5] == a[4]) if len(got) == 1 else BoolVal(False), fn=ex.fn.qname)


def c_circle(V):
    calls = capture(V)
    s, st = start(V)
    ex = V.run(B + "set_shape_circle", this=s, st=st, pre=lambda ex, st: [ex.args[3] >= 3])
    col, xy, r, n, ms, mr = ex.args
    xy = V.coords(xy)
    V.lemma("circle/one-shape", [], BoolVal(len(calls) == 1), fn=ex.fn.qname)
    me, (P, Q, C), pc = calls[0]
    i = Int("i")
    PI = num(3.141592653589793)
    from engine import COS, SIN
    ang = ToReal(i) * (2 * PI / ToReal(n))
    V.lemma("circle/own-boundary", pc, me == s, fn=ex.fn.qname)
    V.lemma("circle/as-many-points-as-asked", pc, And(P.n == n, Q.n == n, C.n == n), fn=ex.fn.qname)
    g = [0 <= i, i < n]
    x, y = xy_of(P, i)
    V.lemma("circle/points-at-equal-angles", pc + g, And(x == xy[0] + r * COS(ang), y == xy[1] + r * SIN(ang)), fn=ex.fn.qname)
    V.lemma("circle/sizes-and-colours", pc + g, And(xy_of(Q, i)[0] == ms, xy_of(Q, i)[1] == mr, C.el[()][i] == col), fn=ex.fn.qname)


def c_coordinates(V):
    for f in V.w.find(B + "set_shape_from_coordinates"):
        calls = capture(V)
        s, st = start(V)
        vals = [V.e.named_val(("Q", vec2(V)), "P"), V.e.named_val(("Q", INT), "C"), V.e.named_val(("Q", vec2(V)), "Q")]
        st.pc += [v.n >= 0 for v in vals]
        ex = V.run(f, args=vals[:len(f.params)], this=s, st=st)
        V.lemma("points%d/one-shape" % len(f.params), [], BoolVal(len(calls) == 1), fn=ex.fn.qname)
        me, (P, Q, C), pc = calls[0]
        i = Int("i")
        same = lambda a, b: And([a.n == b.n] + [Implies(And(0 <= i, i < a.n), a.el[k][i] == b.el[k][i]) for k in a.el])
        V.lemma("points%d/points-colours-and-boundary-as-given" % len(f.params), pc, And(me == s, same(P, vals[0]), same(C, vals[1])), fn=ex.fn.qname)
        if len(f.params) == 3:
            V.lemma("points3/sizes-as-given", pc, same(Q, vals[2]), fn=ex.fn.qname)
        else:
            V.lemma("points2/no-sizes", pc, And(Q.n == P.n, Implies(And(0 <= i, i < P.n), And(
                xy_of(Q, i)[0] <= 0, xy_of(Q, i)[1] <= 0))), fn=ex.fn.qname)


def c_create(V, ccw, outer):
    """create_boundary_shape: closed ring through the given points, in the direction of its kind"""
    e = V.e
    s, st = start(V)
    P, C, Q = e.named_val(("Q", vec2(V)), "P"), e.named_val(("Q", INT), "C"), e.named_val(("Q", vec2(V)), "Q")
    N = P.n
    st.pc += [N >= 0, C.n == N, Q.n == N]
    AREA = Real("area")
    e.intercepts[G + "polygon_area"] = lambda eng, f, this, vals, st: AREA
    near = z3.Function("NEARESTREF", IntSort(), RealSort(), RealSort(), IntSort())

    def nearest(eng, f, this, vals, st):
        c = V.coords(eng.load(vals[0], st) if isinstance(vals[0], (Loc, CondLoc)) else vals[0])
        r = near(st.nxt, c[0], c[1])
        st.pc.append(And(r >= 0, r < st.nxt))
        return r
    e.intercepts[G + "Container<TQMesh::Vertex>::get_nearest"] = nearest

    def push(eng, f, this, vals, st):
        rec = eng.w.recname[T + "Vertex"]
        cs = [c for c in V.w.find(T + "Vertex::Vertex") if len(c.params) == len(vals)]
        r = eng.new_with(rec, cs[0], [eng.load(v, st) if isinstance(v, (Loc, CondLoc)) and not Types.is_ref(
            cs[0].params[i]["type"]["qualType"]) else v for i, v in enumerate(vals)], st)
        return Loc("H", r, cls=T + "Vertex")
    e.intercepts[G + "Container<TQMesh::Vertex>::push_back"] = push
    st.env["ghost_edges"] = e.seq_of([], ("P", REF, ("P", REF, INT)))

    def add(eng, f, this, vals, st):
        q = st.env["ghost_edges"]
        v = [V.refof(vals[0]), V.refof(vals[1]), eng.load(vals[2], st) if isinstance(vals[2], Loc) else vals[2]]
        keys = sorted(q.el, key=str)
        el = dict(q.el)
        for k, x in (((("first",)), v[0]), (("second", "first"), v[1]), (("second", "second"), v[2])):
            el[k] = Store(el[k], q.n, x)
        st.env["ghost_edges"] = Seq(q.esh, q.n + 1, el)
        return Loc("H", fresh("edge", IntSort()), cls=T + "Edge")
    e.intercepts[B + "add_edge"] = add
    ne = V.obs(st, s, T + "EdgeList::size")
    st.pc.append(ne == 0)
    ext = V.obs(st, s, B + "is_exterior")
    inr = V.obs(st, s, B + "is_interior")
    st.pc.append(Xor(ext, inr))
    px = lambda i: xy_of(P, i)
    qx = lambda i: xy_of(Q, i)
    j, v = Ints("j v")
    ms = lambda s2, v: V.obs(s2, v, T + "Vertex::mesh_size", nparams=0, const=True)
    mr = lambda s2, v: V.obs(s2, v, T + "Vertex::size_range", nparams=0, const=True)
    # two positions that count as the same point: squared distance below machine epsilon
    SAME = z3.Function("SAMEPOINT", *([RealSort()] * 4), BoolSort())
    OWN = z3.Function("POINTOF", IntSort(), IntSort())
    EPS = num(2.220446049250313e-16)
    start_nxt = st.nxt

    def same(s2, v, i):
        a, b = V.at(s2, v), px(i)
        return SAME(a[0], a[1], b[0], b[1])

    def ax(L, k):
        b = px(k)
        r = near(L.head.nxt, b[0], b[1])
        a = V.at(L.head, r)
        d = (a[0] - b[0]) * (a[0] - b[0]) + (a[1] - b[1]) * (a[1] - b[1])
        return And(SAME(a[0], a[1], b[0], b[1]) == (d < EPS), SAME(b[0], b[1], b[0], b[1]), OWN(L.head.nxt) == k)

    def created(s2, v, n):
        a, i = V.at(s2, v), OWN(v)
        return And(0 <= i, i < n, a[0] == px(i)[0], a[1] == px(i)[1], ms(s2, v) == qx(i)[0], mr(s2, v) == qx(i)[1])

    def spec(eng, L):
        out = []
        for c in L.mod:
            if not (c[0] == "L" and c[-1] == "n" and c[1] != "ghost_edges"):
                continue
            q = L.head.env[c[1]]
            if list(q.el) != [()]:
                continue
            ec = (c[0], c[1], "e", ())
            nv = lambda s2, i, ec=ec: L.cell(s2, ec)[i]
            out.append(("axiom:def", lambda k: ax(L, k)))
            out.append(("one-vertex-per-point", lambda s2, k, c=c: L.cell(s2, c) == k))
            out.append(("vertices-at-their-points", lambda s2, k, nv=nv: ForAll([j], Implies(And(0 <= j, j < k), And(
                nv(s2, j) > 0, nv(s2, j) < s2.nxt, same(s2, nv(s2, j), j))), patterns=[nv(s2, j)])))
            out.append(("created-as-described", lambda s2, k: ForAll([v], Implies(
                And(start_nxt <= v, v < s2.nxt), created(s2, v, k)), patterns=[OWN(v)])))
        return out
    e.loopspecs = [spec]
    st.pc.append((AREA > 0) if ccw else (AREA < 0))
    st.pc.append(ext if outer else inr)
    ex = V.run(B + "create_boundary_shape", args=[P, Q, C], this=s, st=st)
    g = ex.post.env["ghost_edges"]
    E1, E2, EC = g.el[("first",)], g.el[("second", "first")], g.el[("second", "second")]
    t = Int("t")
    V.ensure(ex, "one-edge-per-point", g.n == N)
    nx = If(t + 1 == N, IntVal(0), t + 1)
    rng = And(0 <= t, t < N)
    V.ensure(ex, "closed-ring", Implies(rng, E2[t] == E1[nx]))
    if ccw == outer:
        V.ensure(ex, "through-the-points-in-order", Implies(rng, same(ex.post, E1[t], t)))
        V.ensure(ex, "edge-colours-in-order", Implies(rng, EC[t] == C.el[()][t]))
    else:
        V.ensure(ex, "through-the-points-in-reverse-order", Implies(rng, same(ex.post, E2[t], N - 1 - t)))
    V.ensure(ex, "new-vertices-exactly-as-described", Implies(And(v >= start_nxt, v < ex.post.nxt), created(ex.post, v, N)))


def c_validity(V):
    f = V.w.find(T + "EntityChecks::check_domain_validity")[0]
    TR = z3.Function("TRAVERSABLE", IntSort(), BoolSort())
    IS = z3.Function("SELFISECT", IntSort(), BoolSort())
    IE = z3.Function("ISECT", IntSort(), IntSort(), BoolSort())
    calls = []

    def tr(eng, f, this, vals, st):
        calls.append((V.refof(this), V.refof(vals[0]), V.refof(vals[1]), list(st.pc), st.copy()))
        return TR(V.refof(this))
    V.e.intercepts[T + "EdgeList::is_traversable"] = tr
    V.e.intercepts[T + "EdgeList::intersects_self"] = lambda eng, f, this, vals, st: IS(V.refof(this))
    V.e.intercepts[T + "EdgeList::intersects_edgelist"] = lambda eng, f, this, vals, st: IE(V.refof(this), V.refof(vals[0]))
    d = Int("dom")
    st = V.state()
    st.pc += [d > 0, d < st.nxt]
    n, b = bounds(V, st, d)
    i, j = Ints("i j")
    size = lambda x: V.obs(st, x, T + "EdgeList::size")
    st.pc += [n >= 0, ForAll([i], Xor(V.obs(st, b[i], B + "is_exterior"), V.obs(st, b[i], B + "is_interior")), patterns=[b[i]])]
    # the boundaries of a domain are different objects
    st.pc.append(ForAll([i, j], Implies(And(0 <= i, i < n, 0 <= j, j < n, b[i] == b[j]), i == j), patterns=[MultiPattern(b[i], b[j])]))
    # crossing is symmetric: two lists cross iff some two of their edges do (P13), and that is symmetric (P02)
    st.pc.append(ForAll([i, j], IE(i, j) == IE(j, i), patterns=[IE(i, j)]))
    pre = st.copy()
    ex = V.run(f, args=[Loc("H", d, cls=T + "Domain")], st=st)
    inr = lambda i: And(0 <= i, i < n)
    ext = lambda x: V.obs(pre, x, B + "is_exterior")
    V.ensure(ex, "valid-only-with-an-exterior-boundary", Implies(ex.ret, Exists([i], And(inr(i), ext(b[i])))))
    V.ensure(ex, "valid-only-if-every-boundary-is-closed", Implies(And(ex.ret, inr(i)), And(size(b[i]) > 0, TR(b[i]))))
    V.ensure(ex, "valid-only-without-self-intersection", Implies(And(ex.ret, inr(i)), Not(IS(b[i]))))
    V.ensure(ex, "valid-only-without-intersecting-boundaries", Implies(And(ex.ret, inr(i), inr(j), i != j), Not(IE(b[i], b[j]))))
    bad = Or(ForAll([i], Implies(inr(i), Not(ext(b[i]))), patterns=[b[i]]),
             Exists([i], And(inr(i), Or(Not(TR(b[i])), size(b[i]) < 1, IS(b[i])))),
             Exists([i, j], And(inr(i), inr(j), i != j, IE(b[i], b[j]))))
    V.ensure(ex, "invalid-only-for-a-reason", Implies(Not(ex.ret), bad))
    for me, a, c, pc, s2 in calls[-1:]:
        V.lemma("closedness-is-tested-from-an-edge-of-the-boundary-to-itself", pc, And(a == c), fn=f.qname)


def contracts(V):
    for n, f in (("domain/extent", c_extent), ("domain/area", c_area), ("domain/inside", c_inside),
                 ("boundary/kinds", c_kinds), ("domain/lookup", c_lookup), ("boundary/shapes", c_shapes),
                 ("boundary/circle", c_circle), ("boundary/coordinates", c_coordinates), ("domain/validity", c_validity)):
        V.section(n, f)
    for outer in (True, False):
        for ccw in (True, False):
            V.section("boundary/create-%s-%s" % ("exterior" if outer else "interior", "ccw" if ccw else "cw"),
                      c_create, ccw, outer)
