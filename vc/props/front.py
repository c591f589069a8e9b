"""Contracts on the advancing front (FrontUpdate.h, Triangulation.h, MeshChecker.h, Mesh.h)."""
from z3 import *
from verif import *
from props.mesh import *

U = T + "FrontUpdate::"


def field(V, st, s, name, cls):
    for k, sh in V.e.fieldshape.items():
        if str(k).endswith("::" + name) and cls in str(k):
            return V.e.load(Loc("H", s, path=(k,)), st)
    raise cast.ExtractionError("no field " + name)


def refof(V, x):
    return V.refof(x) if isinstance(x, Loc) else x


def begin(V, cls="FrontUpdate"):
    s = Int("self")
    st = V.state()
    st.pc += [s > 0, s < st.nxt]
    m, fr = [refof(V, field(V, st, s, n, cls)) for n in ("mesh_", "front_")]
    O = MeshOps(V, m)
    O.nxt0 = st.nxt
    O.lists = {"front": fr}
    st.pc += [m > 0, m < st.nxt, fr > 0, fr < st.nxt, fr != m]
    return s, m, fr, st, O


def eobs(V, st, e, n):
    return V.obs(st, e, T + "Edge::" + n, nparams=0, const=True)


def fits(V, O, st, k, a, b):
    """the edge of list k between a and b, if there is one, joins them"""
    e = O.ledge(k, a, b)
    return Or(e == 0, And(e > 0, e < O.nxt0, either([eobs(V, st, e, "v1"), eobs(V, st, e, "v2")], [a, b])))


def c_advance(V):
    s, m, fr, st, O = begin(V)
    b, v, t = Ints("base vnew tri")
    st.pc += [b > 0, b < st.nxt, v > 0, v < st.nxt, t > 0, t < st.nxt]
    v1, v2 = eobs(V, st, b, "v1"), eobs(V, st, b, "v2")
    e1, e2 = O.ledge("front", v, v1), O.ledge("front", v, v2)
    st.pc += [Distinct(v1, v2, v), fits(V, O, st, "front", v, v1), fits(V, O, st, "front", v, v2), e1 != b, e2 != b, Or(e1 == 0, e1 != e2)]
    V.e.intercepts[U + "update_front_state"] = lambda eng, f, this, vals, s2: O.event("state", s2, dict(v=V.refof(vals[0])))
    V.e.intercepts[T + "Mesh::add_area"] = lambda eng, f, this, vals, s2: O.event("area", s2, dict(a=arg(eng, vals[0], s2)))
    n0 = len(V.e.trace)
    ex = V.run(U + "advance_front", this=s, args=[b, v, t], st=st)
    ev = V.e.trace[n0:]
    pre = ex.pre
    add, rem, intr, bd = [of(ev, k) for k in ("front-edge", "remove-front", "interior-edge", "boundary-edge")]
    V.ensure(ex, "nothing-else", BoolVal(not others(ev, ("front-edge", "remove-front", "interior-edge", "state", "area"))))
    cnt = lambda evs, f: number(evs, f)
    # the sides of the new triangle leave the front if they are part of it and join it otherwise
    V.ensure(ex, "base-leaves-the-front", cnt(rem, lambda a: a["x"] == b) == 1)
    for nm, e, w in (("first", e1, [v1, v]), ("second", e2, [v, v2])):
        V.ensure(ex, "%s-side-leaves-the-front-or-joins-it" % nm, And(
            cnt(rem, lambda a: a["x"] == e) == If(e != 0, 1, 0),
            cnt(add, lambda a: And(a["v"][0] == w[0], a["v"][1] == w[1])) == If(e != 0, 0, 1)))
    V.ensure(ex, "front-changes-nowhere-else", And(cnt(rem, lambda a: BoolVal(True)) == 1 + If(e1 != 0, 1, 0) + If(e2 != 0, 1, 0),
                                                    number(add) == If(e1 != 0, 0, 1) + If(e2 != 0, 0, 1)))
    # edges that are covered on both sides become interior edges of the mesh
    isin = lambda e: V.obs(pre, e, T + "Edge::is_interior", const=True)
    gh = V.obs(pre, b, T + "Edge::is_ghost", const=True)
    V.ensure(ex, "base-becomes-an-interior-edge-if-it-is-inside", number(intr, lambda a: either(a["v"], [v1, v2])) == If(And(isin(b), Not(gh)), 1, 0))
    for nm, e, w in (("first", e1, v1), ("second", e2, v2)):
        V.ensure(ex, "%s-side-becomes-an-interior-edge-if-it-closes-a-gap" % nm, number(intr, lambda a: either(a["v"], [w, v])) == If(And(e != 0, isin(e)), 1, 0))
    V.ensure(ex, "no-other-interior-edges", number(intr) == If(And(isin(b), Not(gh)), 1, 0) + If(And(e1 != 0, isin(e1)), 1, 0) + If(And(e2 != 0, isin(e2)), 1, 0))
    V.ensure(ex, "area-is-counted-once", And(number(of(ev, "area")) == 1, number(of(ev, "area"), lambda a: a["a"] == V.obs(pre, t, T + "Triangle::area", const=True)) == 1))
    V.ensure(ex, "triangle-is-active", V.obs(ex.post, t, T + "Triangle::is_active", nparams=0, const=True))
    for nm, w in (("first", v1), ("second", v2), ("new", v)):
        V.ensure(ex, "%s-vertex-gets-its-front-state" % nm, number(of(ev, "state"), lambda a: a["v"] == w) >= 1)


# ---------------------------------------------------------------- acceptance of triangles and vertices
B1 = {}


def pred(V, name, *args):
    """outcome of a query under contract, as a function of the objects it is asked about"""
    return z3.Function("Q_" + name, *[a.sort() for a in args], BoolSort())(*args)


def queries(V, O, st, fr, m):
    """collision queries by their contracts (P10, P14); each call is an event"""
    ic = V.e.intercepts

    def q(cls, n, other):
        def h(eng, f, this, vals, s2):
            r = V.refof(this)
            o = V.e.lockey(vals[0]) if hasattr(V.e, "lockey") else None
            b = fresh("hit", BoolSort())
            O.event("query-" + n, s2, dict(x=r, on=vals[0], range=arg(eng, vals[1], s2) if len(vals) > 1 else None, hit=b))
            return b
        ic[T + cls + "::" + n] = h
    for n in ("intersects_front", "intersects_domain", "intersects_vertex", "intersects_triangle", "intersects_quad"):
        q("Triangle", n, None)
    q("Vertex", "intersects_facet", None)

    def size(eng, f, this, vals, s2):
        r = fresh("size", RealSort())
        s2.pc.append(r > 0)
        O.event("size", s2, dict(p=V.coords(arg(eng, vals[0], s2)), h=r))
        return r
    ic[T + "Domain::size_function"] = size

    def inside(eng, f, this, vals, s2):
        b = fresh("inside", BoolSort())
        O.event("inside", s2, dict(x=V.refof(vals[0]), hit=b))
        return b
    ic[T + "Domain::is_inside"] = inside
    ql = z3.Function("QUALITY", IntSort(), RealSort(), RealSort())
    ic[T + "Triangle::quality"] = lambda eng, f, this, vals, s2: ql(V.refof(this), arg(eng, vals[0], s2))
    return ql


def sameloc(a, b):
    return isinstance(a, Loc) and isinstance(b, Loc) and a.kind == b.kind and a.path == b.path and is_true(simplify(a.a == b.a))


def container_loc(V, st, m, getter):
    f = V.w.one(T + "Mesh::" + getter, const=False)
    return V.e.inline(f, Loc("H", m, cls=T + "Mesh"), [], st.copy())


def c_tri_valid(V):
    s, m, fr, st, O = begin(V)
    t = Int("tri")
    st.pc += [t > 0, t < st.nxt]
    ql = queries(V, O, st, fr, m)
    PR = z3.Function("PROCESSED", IntSort(), IntSort(), BoolSort())
    V.e.intercepts[U + "edge_is_processed"] = lambda eng, f, this, vals, s2: PR(V.refof(vals[0]), V.refof(vals[1]))
    n0 = len(V.e.trace)
    ex = V.run(U + "triangle_is_valid", this=s, args=[t], st=st)
    ev = V.e.trace[n0:]
    pre = ex.pre
    ob = lambda n: V.obs(pre, t, T + "Triangle::" + n, nparams=0, const=True)
    vs = [ob("v1"), ob("v2"), ob("v3")]
    hs = of(ev, "size")
    V.ensure(ex, "asks-the-size-at-the-triangle", And([BoolVal(len(hs) == 1)] + [And(x.guard, *[a == b for a, b in zip(x.args["p"], V.at(pre, t, T + "Triangle::xy"))]) for x in hs]))
    if len(hs) != 1:
        return
    h = hs[0].args["h"]
    V.ensure(ex, "accepted-triangles-are-proper", Implies(ex.ret, ob("is_valid")))
    want = {"intersects_front": ("front", None), "intersects_domain": ("domain", None), "intersects_vertex": ("vertices", "vertices"),
            "intersects_triangle": ("triangles", "triangles"), "intersects_quad": ("quads", "quads")}
    for n, (nm, g) in want.items():
        xs = of(ev, "query-" + n)
        ok = []
        for x in xs:
            c = And(x.guard, x.args["x"] == t, Not(x.args["hit"]))
            if g and not sameloc(x.args["on"], container_loc(V, pre, m, g)):
                continue
            if nm == "front" and not is_true(simplify(V.refof(x.args["on"]) == fr)):
                continue
            if x.args["range"] is not None:
                c = And(c, x.args["range"] >= 2 * h, x.args["range"] >= ob("max_edge_length"))
            ok.append(c)
        V.ensure(ex, "accepted-triangles-do-not-collide-with-the-" + nm, Implies(ex.ret, Or(ok + [BoolVal(False)])))
    V.ensure(ex, "accepted-triangles-lie-on-no-processed-edge", Implies(ex.ret, And([Not(Or(PR(vs[i], vs[(i + 1) % 3]), PR(vs[(i + 1) % 3], vs[i]))) for i in range(3)])),
             extra=[PR(vs[i], vs[(i + 1) % 3]) == PR(vs[(i + 1) % 3], vs[i]) for i in range(3)])
    q0, a0 = field(V, pre, s, "min_cell_quality_", "FrontUpdate"), field(V, pre, s, "max_cell_angle_", "FrontUpdate")
    V.ensure(ex, "accepted-triangles-meet-the-limits", Implies(ex.ret, And(ql(t, h) >= q0, ob("max_angle") <= a0)))
    hits = [And(x.guard, x.args["hit"]) for x in ev if x.kind.startswith("query-")]
    V.ensure(ex, "refused-only-for-a-reason", Implies(Not(ex.ret), Or(hits + [Not(ob("is_valid")), ql(t, h) < q0, ob("max_angle") > a0] + [PR(vs[i], vs[(i + 1) % 3]) for i in range(3)] + [PR(vs[(i + 1) % 3], vs[i]) for i in range(3)])))


def c_vtx_valid(V):
    s, m, fr, st, O = begin(V)
    v = Int("vtx")
    st.pc += [v > 0, v < st.nxt]
    queries(V, O, st, fr, m)
    n0 = len(V.e.trace)
    ex = V.run(U + "vertex_is_valid", this=s, args=[v], st=st)
    ev = V.e.trace[n0:]
    hs = of(ev, "size")
    V.ensure(ex, "asks-the-size-at-the-vertex", And([BoolVal(len(hs) == 1)] + [And(x.guard, *[a == b for a, b in zip(x.args["p"], V.at(ex.pre, v))]) for x in hs]))
    if len(hs) != 1:
        return
    h = hs[0].args["h"]
    V.ensure(ex, "accepted-vertices-are-in-the-domain", Implies(ex.ret, Or([And(x.guard, x.args["x"] == v, x.args["hit"]) for x in of(ev, "inside")] + [BoolVal(False)])))
    for g in ("triangles", "quads"):
        ok = [And(x.guard, x.args["x"] == v, Not(x.args["hit"]), x.args["range"] >= 2 * h) for x in of(ev, "query-intersects_facet")
              if sameloc(x.args["on"], container_loc(V, ex.pre, m, g))]
        V.ensure(ex, "accepted-vertices-do-not-lie-in-" + g, Implies(ex.ret, Or(ok + [BoolVal(False)])))
    V.ensure(ex, "refused-only-for-a-reason", Implies(Not(ex.ret), Or([And(x.guard, x.args["hit"]) for x in of(ev, "query-intersects_facet")] + [And(x.guard, Not(x.args["hit"])) for x in of(ev, "inside")])))


def c_processed(V):
    s, m, fr, st, O = begin(V)
    a, b = Ints("a b")
    st.pc += [a > 0, b > 0, a < st.nxt, b < st.nxt, a != b]
    ex = V.run(U + "edge_is_processed", this=s, args=[a, b], st=st)
    e = lambda k: O.ledge(k, a, b) != 0
    V.ensure(ex, "in-the-mesh-but-not-on-the-front", ex.ret == And(Not(e("front")), Or(e("interior"), e("boundary"))))


VALID_T = z3.Function("TRI_OK", IntSort(), BoolSort())
VALID_V = z3.Function("VTX_OK", IntSort(), BoolSort())


def validity(V):
    V.e.intercepts[U + "triangle_is_valid"] = lambda eng, f, this, vals, s2: VALID_T(V.refof(vals[0]))
    V.e.intercepts[U + "vertex_is_valid"] = lambda eng, f, this, vals, s2: VALID_V(V.refof(vals[0]))


def c_remove_invalid(V, kinds):
    s, m, fr, st, O = begin(V)
    validity(V)
    xs = [Int("x%d" % i) for i in range(len(kinds))]
    st.pc += [x > 0 for x in xs] + [x < st.nxt for x in xs] + ([Distinct(*xs)] if len(xs) > 1 else [])
    f = [g for g in V.w.find(U + "remove_from_mesh_if_invalid") if [p["type"]["qualType"].split(" ")[0] for p in g.params] == kinds]
    if len(f) != 1:
        raise cast.ExtractionError("remove_from_mesh_if_invalid")
    n0 = len(V.e.trace)
    ex = V.run(f[0], this=s, args=xs, st=st)
    ev = V.e.trace[n0:]
    ok = And([(VALID_V if k == "Vertex" else VALID_T)(x) for k, x in zip(kinds, xs)])
    V.ensure(ex, "reports-invalid-entities", ex.ret == Not(ok))
    for k, x in zip(kinds, xs):
        V.ensure(ex, "removes-invalid-%s-%s" % (k.lower(), x), number(of(ev, "remove-" + k.lower()), lambda a: a["x"] == x) == If(ok, 0, 1))
    V.ensure(ex, "removes-nothing-else", And(number([e for e in ev]) == If(ok, 0, len(xs))))


def c_state(V):
    """a vertex is on the front exactly if one of its edges is part of the front"""
    s, m, fr, st, O = begin(V)
    v = Int("vtx")
    st.pc += [v > 0, v < st.nxt]
    f = V.w.find(T + "Vertex::edges", nparams=0, const=True)
    l = V.e.inline(f[0], Loc("H", v, cls=T + "Vertex"), [], st.copy())
    q = V.e.load(l, st)
    st.pc.append(q.n >= 0)
    el = list(q.el.values())[0]
    i, j = Ints("i j")
    EL = lambda e: V.refof(V.e.inline(V.w.one(T + "Edge::edgelist", const=True), Loc("H", e, cls=T + "Edge"), [], st.copy()))
    onf = lambda e: EL(e) == fr
    pre = st.copy()
    ex = V.run(U + "update_front_state", this=s, args=[v], st=st)
    has = O.flags.of(ex.post, v, "on_front")
    V.ensure(ex, "set-if-an-edge-is-part-of-the-front", Implies(And(0 <= i, i < q.n, onf(el[i])), has))
    V.ensure(ex, "cleared-if-none-is", Implies(Not(Exists([j], And(0 <= j, j < q.n, onf(el[j])))), Not(has)))
    for n in O.flags.k["Vertex"]:
        if n != "on_front":
            V.ensure(ex, "keeps-" + n, O.flags.of(ex.post, v, n) == O.flags.of(pre, v, n))


def c_exhaustive(V):
    s, m, fr, st, O = begin(V)
    AR = oriented(V)
    b, v = Ints("base vtx")
    st.pc += [b > 0, b < st.nxt, v > 0, v < st.nxt]
    validity(V)
    V.e.intercepts[U + "advance_front"] = lambda eng, f, this, vals, s2: O.event("advance", s2, dict(b=V.refof(vals[0]), v=V.refof(vals[1]), t=V.refof(vals[2])))
    n0 = len(V.e.trace)
    ex = V.run(U + "update_front_exhaustive", this=s, args=[b, v], st=st)
    ev = V.e.trace[n0:]
    pre = ex.pre
    v1, v2 = eobs(V, pre, b, "v1"), eobs(V, pre, b, "v2")
    ok = And(O.flags.of(pre, v, "on_front"), AR(*[V.at(pre, x) for x in (v1, v2, v)]) > 0)
    ts, ad, rm = of(ev, "triangle"), of(ev, "advance"), of(ev, "remove-triangle")
    V.ensure(ex, "only-with-front-vertices-to-the-left", Implies(ex.ret != 0, ok))
    V.ensure(ex, "one-triangle-on-the-base", And([Implies(x.guard, cyc(x.args["v"], [v1, v2, v])) for x in ts] + [number(ts) <= 1]))
    V.ensure(ex, "success-advances-the-front-with-it", Implies(ex.ret != 0, And(number(ad) == 1, number(ts, lambda a: And(a["new"] == ex.ret, VALID_T(a["new"]))) == 1,
             number(ad, lambda a: And(a["b"] == b, a["v"] == v, a["t"] == ex.ret)) == 1, number(rm) == 0)))
    V.ensure(ex, "failure-leaves-no-triangle", Implies(ex.ret == 0, And(number(ad) == 0, number(rm) == number(ts), *[Or([x.args["x"] == y.args["new"] for y in ts] + [False]) for x in rm])))


def c_update(V):
    s, m, fr, st, O = begin(V)
    b = Int("base")
    st.pc += [b > 0, b < st.nxt]
    validity(V)
    V.e.intercepts[U + "advance_front"] = lambda eng, f, this, vals, s2: O.event("advance", s2, dict(b=V.refof(vals[0]), v=V.refof(vals[1]), t=V.refof(vals[2])))
    best = Int("best")
    f = V.w.one(U + "create_possible_triangles")
    sh = V.e.t.shape("std::vector<TQMesh::Triangle *>")
    lst = V.e.named_val(sh, fresh_name("cands"))
    st.pc += [lst.n >= 0, best > 0, best < st.nxt, VALID_T(best)]

    def create(eng, f, this, vals, s2):
        O.event("candidates", s2, dict(b=V.refof(vals[0]), p=V.coords(arg(eng, vals[1], s2)), r=arg(eng, vals[2], s2)))
        return lst

    def choose(eng, f, this, vals, s2):
        eng.obls.append(Obl("chooses-from-candidates", list(s2.pc), arg(eng, vals[0], s2).n >= 1, fn=f.qname, kind="requires"))
        return Loc("H", best, cls=T + "Triangle")
    V.e.intercepts[U + "create_possible_triangles"] = create
    V.e.intercepts[U + "choose_best_triangle"] = choose
    vec = lambda n: V.e.named_val(V.e.t.shape("CppUtils::VecND<double, 2>"), n)
    P, S = vec("pos"), vec("search")
    R = Real("range")
    kp, ks = fresh_name("p"), fresh_name("s")
    st.env[kp], st.env[ks] = P, S
    n0 = len(V.e.trace)
    ex = V.run(U + "update_front", this=s, args=[b, Loc("L", kp), Loc("L", ks), R], st=st)
    ev = V.e.trace[n0:]
    pre = ex.pre
    v1, v2 = eobs(V, pre, b, "v1"), eobs(V, pre, b, "v2")
    ts, vs, ad, rt, rv = [of(ev, k) for k in ("triangle", "vertex", "advance", "remove-triangle", "remove-vertex")]
    ca = of(ev, "candidates")
    V.ensure(ex, "looks-for-candidates-first", number(ca, lambda a: And(a["b"] == b, a["r"] == R, *[x == y for x, y in zip(a["p"], V.coords(S))])) == 1)
    V.ensure(ex, "advances-exactly-on-success", And(number(ad) == If(ex.ret != 0, 1, 0), number(ad, lambda a: And(a["b"] == b, a["t"] == ex.ret)) == If(ex.ret != 0, 1, 0)))
    V.ensure(ex, "existing-vertices-first", Implies(lst.n > 0, And(ex.ret == best, number(ts) == 0, number(vs) == 0, number(ad, lambda a: a["v"] == V.obs(pre, best, T + "Triangle::v3", const=True)) == 1)))
    V.ensure(ex, "else-one-new-vertex-at-the-position", Implies(lst.n == 0, And(number(vs) == 1, number(vs, lambda a: And([x == y for x, y in zip(a["xy"], V.coords(P))])) == 1, number(ts) == 1)))
    if len(vs) == 1 and len(ts) == 1:
        nv, nt = vs[0].args["new"], ts[0].args["new"]
        V.ensure(ex, "new-triangle-on-the-base", Implies(ts[0].guard, cyc(ts[0].args["v"], [v1, v2, nv])))
        ok = And(VALID_T(nt), VALID_V(nv))
        V.ensure(ex, "new-entities-stay-exactly-if-valid", Implies(lst.n == 0, And((ex.ret != 0) == ok, Implies(ok, And(ex.ret == nt, number(ad, lambda a: a["v"] == nv) == 1, number(rt) == 0, number(rv) == 0)),
                 Implies(Not(ok), And(number(rt, lambda a: a["x"] == nt) == 1, number(rv, lambda a: a["x"] == nv) == 1, number(rt) == 1, number(rv) == 1)))))
    else:
        V.ensure(ex, "new-entities", BoolVal(False))


def c_choose(V):
    """the best candidate stays, all others are removed"""
    s, m, fr, st, O = begin(V)
    b = Int("base")
    st.pc += [b > 0, b < st.nxt]
    ql = queries(V, O, st, fr, m)
    f = V.w.one(U + "choose_best_triangle")
    lst = V.e.named_val(V.e.t.shape("std::vector<TQMesh::Triangle *>"), "cands")
    st.pc += [lst.n >= 1]
    k0 = fresh_name("cands")
    st.env[k0] = lst
    cont = container_loc(V, st, m, "triangles")
    for q in [x.qname for x in V.w.find_prefix(G + "Container<TQMesh::Triangle") if x.name == "remove"] if hasattr(V.w, "find_prefix") else [G + "Container<TQMesh::Triangle>::remove"]:
        V.e.intercepts[q] = lambda eng, f, this, vals, s2: (O.event("remove-triangle", s2, dict(x=V.refof(vals[0]), ok=BoolVal(sameloc(this, cont)))), fresh("removed", BoolSort()))[1]
    O.count(st, "remove-triangle")

    def body(h, end, k, ev):
        q = h.env[k0]
        rm = of(ev, "remove-triangle")
        yield "removes-the-next-candidate", And(number(rm) == 1, number(rm, lambda a: And(a["ok"], a["x"] == q.el[()][k + 1])) == 1)
        yield "nothing-else", BoolVal(not others(ev, ("remove-triangle", "size")))
    V.e.loopspecs = [lambda eng, L: [("body:removes", body)]]
    ex = V.run(f, this=s, args=[Loc("L", k0), b], st=st)
    q = ex.post.env[k0]
    V.ensure(ex, "the-first-of-the-ordered-candidates-stays", And(V.refof(ex.ret) == q.el[()][0], O.counted(ex.post, "remove-triangle") == lst.n - 1))


# ---------------------------------------------------------------- mesh queries
def c_filter(V, fn, conds):
    """conds: [(edge list getter, condition on an edge)]; the result holds exactly the edges that meet theirs"""
    m = Int("mesh")
    st = V.state()
    facets(V, st)
    st.pc += [m > 0, m < st.nxt]
    cs = []
    for g, c in conds:
        f = V.w.one(T + "Mesh::" + g, const=True)
        q = contents(V, st.copy(), V.e.inline(f, Loc("H", m, cls=T + "Mesh"), [], st.copy()))
        st.pc.append(q.n >= 0)
        cs.append((q, c))
    pre = st.copy()
    i = Int("i")
    x = Int("anyedge")
    has = lambda q, n: Exists([i], And(0 <= i, i < n, q.el[()][i] == x))
    upto = lambda no, k: Or([And(c(V, pre, x), has(q, k if n == no else q.n)) for n, (q, c) in enumerate(cs) if n <= no] + [BoolVal(False)])
    loc = lambda s2: [v for kk, v in s2.env.items() if isinstance(v, Seq) and "Edge" in V.e.vtype.get(kk, "")]

    def spec(eng, L):
        def one(s2):
            l = loc(s2)
            if len(l) != 1:
                raise cast.ExtractionError("result list")
            return l[0]
        return [("exactly-so-far", lambda s2, k: has(one(s2), one(s2).n) == upto(L.no, k)), ("length", lambda s2, k: one(s2).n >= 0)]
    V.e.loopspecs = [spec]
    ex = V.run(T + "Mesh::" + fn, this=m, st=st)
    r = ex.ret if isinstance(ex.ret, Seq) else V.e.load(ex.ret, ex.post)
    V.ensure(ex, "exactly-the-described-edges", has(r, r.n) == upto(len(cs) - 1, cs[-1][0].n))


def fl_null(w):
    return lambda V, st, e: eobs(V, st, e, w) == NULLF


def filters(V):
    L, R = fl_null("facet_l"), fl_null("facet_r")
    both = lambda V, st, e: And(Not(L(V, st, e)), Not(R(V, st, e)))
    some = lambda V, st, e: Or(L(V, st, e), R(V, st, e))
    V.section("mesh/front-edges", c_filter, "get_front_edges", [("interior_edges", some), ("boundary_edges", L)])
    V.section("mesh/valid-interior-edges", c_filter, "get_valid_interior_edges", [("interior_edges", both)])
    V.section("mesh/valid-boundary-edges", c_filter, "get_valid_boundary_edges", [("boundary_edges", lambda V, st, e: Not(L(V, st, e)))])
    V.section("mesh/interface-edges", c_filter, "get_interface_edges", [("boundary_edges", lambda V, st, e: eobs(V, st, e, "twin_edge") != 0)])


def c_complete(V):
    s = Int("self")
    st = V.state()
    st.pc += [s > 0, s < st.nxt]
    fe = V.e.named_val(V.e.t.shape("std::vector<TQMesh::Edge *>"), "frontedges")
    valid = Bool("connectivity")
    st.pc += [fe.n >= 0]
    ic = V.e.intercepts
    C = T + "MeshChecker::"
    m = V.obs(st, s, C + "mesh")
    calls = [T + "MeshCleanup::assign_mesh_indices", T + "MeshCleanup::setup_facet_connectivity"]
    fq, vq = T + "Mesh::get_front_edges", T + "EntityChecks::check_mesh_validity"

    def eff(q, eng, f, this, vals, s2):
        return fe if q == fq else valid if q == vq else None
    clean = Bool("cleanup")
    steps(V, st, calls + [fq, vq], {}, eff)
    ar = Real("domainarea")
    ic[T + "Domain::area"] = lambda eng, f, this, vals, s2: ar
    f = V.w.one(T + "Domain::extent", const=True)
    ext = V.e.named_val(V.e.t.shape(f.ftype.split("(")[0].strip()), "ext")
    lv = dict(leaves(ext))
    ic[T + "Domain::extent"] = lambda eng, f, this, vals, s2: ext
    ex = V.run(C + "check_completeness", this=s, args=[clean], st=st)
    V.ensure(ex, "updates-the-connectivity-if-asked", Implies(clean, And([ex.post.env["ghost:" + q] >= 1 for q in calls])))
    ma = V.obs(ex.pre, m, T + "Mesh::area", const=True)
    d = lambda n: [t for p, t in sorted(lv.items(), key=str) if n in str(p)]
    (x0, x1), (y0, y1) = d("first"), d("second")
    dx, dy = x1 - x0, y1 - y0
    tol = field(V, ex.pre, s, "area_threshold_", "MeshChecker")
    dif = If(ma >= ar, ma - ar, ar - ma)
    sp = [dx > 0, dy > 0]
    V.ensure(ex, "complete-meshes-have-no-front-edges", Implies(ex.ret, fe.n == 0))
    V.ensure(ex, "complete-meshes-are-connected", Implies(ex.ret, valid))
    q = Real("q")
    V.ensure(ex, "complete-meshes-cover-the-area", Implies(And(ex.ret, q * (dx * dy) == dif), q < tol), extra=sp)
    V.ensure(ex, "nothing-else-is-asked-for", Implies(And(fe.n == 0, valid, q * (dx * dy) == dif, q < tol), ex.ret), extra=sp)


def leaves(v):
    from loops import vleaves
    return [(p, t) for p, t in vleaves(v)]


def c_candidates(V):
    s, m, fr, st, O = begin(V)
    AR = oriented(V)
    validity(V)
    b = Int("base")
    st.pc += [b > 0, b < st.nxt]
    v1, v2 = eobs(V, st, b, "v1"), eobs(V, st, b, "v2")
    items = V.e.named_val(V.e.t.shape("std::vector<TQMesh::Vertex *>"), "found")
    i = Int("i")
    it = items.el[()]
    st.pc += [items.n >= 0, ForAll([i], Implies(And(0 <= i, i < items.n), And(it[i] > 0, it[i] < st.nxt)), patterns=[it[i]])]
    cont = container_loc(V, st, m, "vertices")

    def get(eng, f, this, vals, s2):
        if not sameloc(this, cont):
            raise Unsupported("query of another container")
        O.event("lookup", s2, dict(p=V.coords(arg(eng, vals[0], s2)), r=arg(eng, vals[1], s2)))
        return items
    V.e.intercepts[G + "Container<TQMesh::Vertex>::get_items"] = get
    S = V.e.named_val(V.e.t.shape("CppUtils::VecND<double, 2>"), "search")
    R = Real("range")
    ks = fresh_name("s")
    st.env[ks] = S
    pre = st.copy()
    tol = RealVal("1/67108864")

    def res(s2):
        l = [v for k, v in s2.env.items() if isinstance(v, Seq) and "Triangle" in V.e.vtype.get(k, "")]
        if len(l) != 1:
            raise cast.ExtractionError("list of candidates")
        return l[0]

    def body(h, end, k, ev):
        v = it[k]
        a = AR(*[V.at(pre, x) for x in (v1, v2, v)])
        ok = And(O.flags.of(pre, v, "on_front"), Or(a >= tol, a <= -tol))
        ts, rm = of(ev, "triangle"), of(ev, "remove-triangle")
        yield "nothing-else", BoolVal(not others(ev, ("triangle", "remove-triangle")))
        yield "one-triangle-per-front-vertex-off-the-base-line", And(number(ts) == If(ok, 1, 0), *[Implies(x.guard, cyc(x.args["v"], [v1, v2, v])) for x in ts])
        if len(ts) == 1:
            n = ts[0].args["new"]
            good = And(ok, VALID_T(n))
            yield "invalid-triangles-are-removed", And(number(rm) == If(And(ok, Not(good)), 1, 0), *[Implies(x.guard, x.args["x"] == n) for x in rm])
            q, q2 = res(h), res(end)
            yield "valid-triangles-are-candidates", And(q2.n == q.n + If(good, 1, 0), Implies(good, q2.el[()][q.n] == n))
    V.e.loopspecs = [lambda eng, L: [("body:tries", body), ("all-valid", lambda s2, k: ForAll([i], Implies(And(0 <= i, i < res(s2).n), VALID_T(res(s2).el[()][i]))))]]
    n0 = len(V.e.trace)
    ex = V.run(U + "create_possible_triangles", this=s, args=[b, Loc("L", ks), R], st=st)
    ev = V.e.trace[n0:]
    r = ex.ret if isinstance(ex.ret, Seq) else V.e.load(ex.ret, ex.post)
    V.ensure(ex, "only-valid-candidates", Implies(And(0 <= i, i < r.n), VALID_T(r.el[()][i])))
    V.ensure(ex, "searches-as-asked", number(of(ev, "lookup"), lambda a: And(a["r"] == R, *[x == y for x, y in zip(a["p"], V.coords(S))])) == 1)


# ---------------------------------------------------------------- mesh operations
def c_add_facet(V, kind):
    m = Int("mesh")
    st = V.state()
    n = 4 if kind == "Quad" else 3
    vs = [Int("v%d" % (i + 1)) for i in range(n)]
    c = Int("color")
    st.pc += [m > 0, m < st.nxt] + [And(x > 0, x < st.nxt) for x in vs]
    O = MeshOps(V, m)
    ic = V.e.intercepts
    for k in ("add_quad", "add_triangle"):
        del ic[T + "Mesh::" + k]
    cont = container_loc(V, st, m, "quads" if n == 4 else "triangles")

    def push(eng, f, this, vals, s2):
        if not sameloc(this, cont):
            raise Unsupported("another container")
        r = O.new(eng, s2, "F")
        ws = [V.refof(x) for x in vals]
        s2.pc += [V.obs(s2, r, T + kind + "::vertex", [IntVal(i)], const=True) == ws[i] for i in range(n)]
        O.event("push", s2, dict(new=r))
        return Loc("H", r, cls=T + kind)
    ic[G + "Container<TQMesh::%s>::push_back" % kind] = push
    n0 = len(V.e.trace)
    ex = V.run(T + "Mesh::add_" + kind.lower(), this=m, args=vs + [c], st=st)
    ev = V.e.trace[n0:]
    r = V.refof(ex.ret)
    ob = lambda n, *a: V.obs(ex.post, r, T + kind + "::" + n, *a, const=True)
    V.ensure(ex, "one-new-element", number(ev, lambda a: a["new"] == r) == 1)
    for i in range(n):
        V.ensure(ex, "vertex-%d" % i, V.obs(ex.post, r, T + kind + "::vertex", [IntVal(i)], const=True) == vs[i])
    V.ensure(ex, "colour", V.obs(ex.post, r, T + kind + "::color", nparams=0, const=True) == If(c < 0, V.obs(ex.pre, m, T + "Mesh::element_color", nparams=0, const=True), c))
    V.ensure(ex, "belongs-to-the-mesh", V.obs(ex.post, r, T + kind + "::mesh", nparams=0, const=True) == m)


def c_add_edge(V, k):
    m, a, b, c = Ints("mesh a b color")
    st = V.state()
    st.pc += [m > 0, m < st.nxt, a > 0, a < st.nxt, b > 0, b < st.nxt]
    O = MeshOps(V, m)
    for x in ("interior", "boundary"):
        del V.e.intercepts[T + "Mesh::add_%s_edge" % x]
    n0 = len(V.e.trace)
    ex = V.run(T + "Mesh::add_%s_edge" % k, this=m, args=[a, b] + ([c] if k == "boundary" else []), st=st)
    ev = V.e.trace[n0:]
    r = V.refof(ex.ret)
    es = of(ev, k + "-edge")
    V.ensure(ex, "one-new-edge-of-that-list", And(BoolVal(len(ev) == len(es)), number(es) == 1, number(es, lambda x: And(x["new"] == r, x["v"][0] == a, x["v"][1] == b)) == 1))
    V.ensure(ex, "flagged-exactly-if-on-the-boundary", O.flags.of(ex.post, r, "on_boundary", "Edge") == BoolVal(k == "boundary"))
    if k == "boundary":
        V.ensure(ex, "colour", number(es, lambda x: x["color"] == c) == 1)


def c_get_edge(V):
    m, a, b = Ints("mesh a b")
    st = V.state()
    st.pc += [m > 0, m < st.nxt, a > 0, a < st.nxt, b > 0, b < st.nxt]
    O = MeshOps(V, m)
    del V.e.intercepts[T + "Mesh::get_edge"]
    ex = V.run(T + "Mesh::get_edge", this=m, args=[a, b, BoolVal(False)], st=st)
    i, o = O.ledge("interior", a, b), O.ledge("boundary", a, b)
    V.ensure(ex, "interior-or-boundary-edge-between-them", ex.ret == If(i != 0, i, o))


def c_remove_entity(V, k):
    m, x = Ints("mesh x")
    st = V.state()
    st.pc += [m > 0, m < st.nxt, x > 0, x < st.nxt]
    O = MeshOps(V, m)
    del V.e.intercepts[T + "Mesh::remove_" + k]
    edge = k.endswith("edge")
    if not edge:
        cont = container_loc(V, st, m, dict(vertex="vertices", quad="quads", triangle="triangles")[k])

        def rem(eng, f, this, vals, s2):
            if not sameloc(this, cont):
                raise Unsupported("another container")
            O.event("remove-" + k, s2, dict(x=V.refof(vals[0])))
            return fresh("removed", BoolSort())
        V.e.intercepts[G + "Container<TQMesh::%s>::remove" % k.capitalize()] = rem
    n0 = len(V.e.trace)
    ex = V.run(T + "Mesh::remove_" + k, this=m, args=[x], st=st)
    ev = V.e.trace[n0:]
    if edge:
        el = V.e.inline(V.w.one(T + "Edge::edgelist", const=True), Loc("H", x, cls=T + "Edge"), [], st.copy())
        return V.ensure(ex, "removes-it-from-its-list-only", And(BoolVal(not others(ev, ("remove-" + k,))), number(ev) <= 1, *[Implies(e.guard, e.args["x"] == x) for e in ev]))
    V.ensure(ex, "removes-exactly-it", And(number(ev) == 1, number(ev, lambda a: a["x"] == x) == 1))


def meshops(V):
    V.section("mesh/add-quad", c_add_facet, "Quad")
    V.section("mesh/add-triangle", c_add_facet, "Triangle")
    V.section("mesh/add-interior-edge", c_add_edge, "interior")
    V.section("mesh/add-boundary-edge", c_add_edge, "boundary")
    V.section("mesh/get-edge", c_get_edge)
    for k in ("vertex", "quad", "triangle", "interior_edge", "boundary_edge"):
        V.section("mesh/remove-" + k, c_remove_entity, k)


def contracts(V):
    V.section("front/advance", c_advance)
    V.section("front/triangle-is-valid", c_tri_valid)
    V.section("front/vertex-is-valid", c_vtx_valid)
    V.section("front/edge-is-processed", c_processed)
    for k in (["Vertex"], ["Triangle"], ["Vertex", "Triangle"], ["Vertex", "Triangle", "Triangle"]):
        V.section("front/remove-invalid-%d-%s" % (len(k), k[0].lower()), c_remove_invalid, k)
    V.section("front/state", c_state)
    V.section("front/exhaustive", c_exhaustive)
    V.section("front/update", c_update)
    V.section("front/choose", c_choose)
    V.section("front/candidates", c_candidates)
    filters(V)
    V.section("mesh/complete", c_complete)
    meshops(V)
