"""Contracts on mesh smoothing (SmoothingStrategy.h)."""
from z3 import *
from verif import *
from props.mesh import *

S = T + "SmoothingStrategy::"


def xyloc(V, st, v):
    fs = V.w.find(T + "Vertex::xy", const=True) or V.w.find(G + "ContainerEntry<TQMesh::Vertex>::xy", const=True)
    return V.e.inline(fs[0], Loc("H", v, cls=fs[0].rec.qname), [], st)


def field(V, st, s, name, cls="SmoothingStrategy"):
    for k, sh in V.e.fieldshape.items():
        if str(k).endswith("::" + name) and cls in str(k):
            return V.e.load(Loc("H", s, path=(k,)), st)
    raise cast.ExtractionError("no field " + name)


def c_iteration(V):
    s = Int("self")
    st = V.state()
    F = Flags(V)
    st.pc += [s > 0, s < st.nxt]
    calls = {}

    def setxy(eng, f, this, vals, st):
        v = V.refof(vals[0])
        eng.store(xyloc(V, st, v), arg(eng, vals[1], st), st)
        V.e.trace.append(Event("set", st.pc, dict(v=v), st.copy()))
        return None

    def disp(eng, f, this, vals, st):
        d = eng.named_val(eng.t.shape("CppUtils::VecND<double, 2>"), fresh_name("delta"))
        V.e.trace.append(Event("delta", st.pc, dict(d=V.coords(d)), st.copy()))
        return d

    def ok(eng, f, this, vals, st):
        b = fresh("isvalid", BoolSort())
        V.e.trace.append(Event("valid", st.pc, dict(v=V.refof(vals[0]), b=b), st.copy()))
        return b
    V.e.intercepts[T + "MeshCleanup::set_vertex_coordinates"] = setxy
    V.e.intercepts[S + "compute_displacement"] = disp
    V.e.intercepts[S + "new_vertex_position_is_valid"] = ok
    V.e.intercepts[S + "check_new_vertex_coordinate"] = lambda eng, f, this, vals, st: fresh("inside", BoolSort())
    conn = field(V, st, s, "v_conn_")
    first = conn.el[("first",)]
    eps = field(V, st, s, "eps_")
    qls = field(V, st, s, "quad_layer_smoothing_")
    bd = field(V, st, s, "bdry_direction_")
    st.pc += [conn.n >= 0]
    i, j = Ints("i j")
    st.pc += [ForAll([i], Implies(And(0 <= i, i < conn.n), And(first[i] > 0, first[i] < st.nxt)), patterns=[first[i]])]

    def body(h, end, k, ev):
        v = first[k]
        a, b = V.at(h, v), V.at(end, v)
        same = And([x == y for x, y in zip(a, b)])
        fl = lambda n: F.of(h, v, n)
        yield "moves-no-other-vertex", And([Implies(x.guard, x.args["v"] == v) for x in of(ev, "set")] + [True])
        yield "fixed-and-boundary-vertices-stay", Implies(Or(fl("is_fixed"), fl("on_boundary")), same)
        yield "layer-vertices-stay-unless-enabled", Implies(And(fl("in_quad_layer"), Not(qls)), same)
        ds = of(ev, "delta")
        bx = [bd.el[p][k] for p in sorted(bd.el, key=str)]
        if len(ds) == 1:
            d = ds[0].args["d"]
            pr = d[0] * bx[0] + d[1] * bx[1]
            lay = [d[m] - bx[m] * pr for m in (0, 1)]
            acc = And([Implies(x.guard, And(x.args["v"] == v, x.args["b"])) for x in of(ev, "valid")] + [Or([x.guard for x in of(ev, "valid")] + [False])])
            yield "others-move-by-epsilon-times-the-displacement-or-stay", Implies(Not(fl("in_quad_layer")), Or(
                same, And(acc, *[b[m] == a[m] + eps * d[m] for m in (0, 1)])))
            yield "layer-vertices-move-parallel-to-the-boundary-or-stay", Implies(fl("in_quad_layer"), Or(
                same, And(acc, *[b[m] == a[m] + eps * lay[m] for m in (0, 1)])))
        else:
            yield "one-displacement", BoolVal(False)
    x = Int("anyv")
    pre = st.copy()
    stays = Or(F.of(pre, x, "is_fixed"), F.of(pre, x, "on_boundary"), And(F.of(pre, x, "in_quad_layer"), Not(qls)))
    there = lambda s2: Implies(stays, And([p == q for p, q in zip(V.at(pre, x), V.at(s2, x))]))
    V.e.loopspecs = [lambda eng, L: [("body:moves", body), ("stay-in-place", lambda s2, k: there(s2))]]
    ex = V.run(S + "smoothing_iteration", this=s, st=st)
    V.ensure(ex, "fixed-boundary-and-layer-vertices-stay-in-place", there(ex.post))


def c_laplace(V):
    s = Int("self")
    st = V.state()
    st.pc += [s > 0, s < st.nxt]
    f = V.w.one(T + "LaplaceSmoothing::compute_displacement")
    sh = V.e.t.shape(f.params[0]["type"].get("desugaredQualType") or f.params[0]["type"]["qualType"])
    c = V.e.named_val(sh, "conn")
    v = c.sub(V.e.t, ("first",)) if hasattr(c, "sub") else c.d["first"]
    q = c.sub(V.e.t, ("second",)) if hasattr(c, "sub") else c.d["second"]
    SX = [z3.Function(n, IntSort(), RealSort()) for n in ("SUMX", "SUMY")]
    st.pc += [q.n >= 1, v > 0, SX[0](0) == 0, SX[1](0) == 0]
    xy = lambda i: V.at(pre, q.el[()][i])
    k0 = fresh_name("conn")
    st.env[k0] = c
    pre = st.copy()

    def spec(eng, L):
        out = [("axiom:sum", lambda k: And([SX[m](k + 1) == SX[m](k) + xy(k)[m] for m in (0, 1)]))]
        rs = L.local_cells(RealSort())
        for a in rs:
            for m in (0, 1):
                out.append(("g:partial-sum-%d" % m, lambda s2, k, a=a, m=m: L.cell(s2, a) == SX[m](k)))
        return out + [("only", None)]
    V.e.loopspecs = [spec]
    ex = V.run(f, args=[Loc("L", k0)], this=s, st=st)
    d, p = V.coords(ex.ret), V.at(pre, v)
    N = ToReal(q.n)
    for m in (0, 1):
        V.ensure(ex, "mean-offset-to-the-neighbours-%d" % m, d[m] == SX[m](q.n) / N - p[m])


def c_loop(V):
    s, it = Ints("self iterations")
    st = V.state()
    st.pc += [s > 0, s < st.nxt]
    eps, dec = field(V, st, s, "eps_"), field(V, st, s, "decay_")
    P = z3.Function("POW", IntSort(), RealSort())
    ev = lambda kind, st, a: V.e.trace.append(Event(kind, st.pc, a, st.copy()))
    V.e.intercepts[S + "smoothing_iteration"] = lambda eng, f, this, vals, st: ev("iter", st, dict(s=V.refof(this), eps=field(V, st, V.refof(this), "eps_"))) or st.env.__setitem__(
        "ghost:iter", simplify(st.env["ghost:iter"] + 1))
    st.env["ghost:iter"] = IntVal(0)
    st.pc += [P(0) == 1]

    def body(h, end, k, evs):
        yield "one-pass", number(of(evs, "iter"), lambda a: a["s"] == s) == 1
        yield "with-the-current-epsilon", And([Implies(x.guard, x.args["eps"] == eps * P(k)) for x in of(evs, "iter")])
    V.e.loopspecs = [lambda eng, L: [("axiom:pow", lambda k: P(k + 1) == -dec * P(k)), ("body:pass", body),
                                     ("epsilon", lambda s2, k: field(V, s2, s, "eps_") == eps * P(k))]]
    ex = V.run(S + "smoothing_loop", args=[it], this=s, st=st)
    V.ensure(ex, "as-many-passes-as-asked", ex.post.env["ghost:iter"] == If(it > 0, it, 0))


def c_set(V):
    v = Int("v")
    st = V.state()
    st.pc += [v > 0, v < st.nxt]
    evs = []
    ev = lambda kind, st, a: V.e.trace.append(Event(kind, st.pc, a, st.copy()))
    from props.adj import lst
    ne, ee = lst(V, st, v, "edges")
    nf, ff = lst(V, st, v, "facets")
    st.pc += [ne >= 0, nf >= 0]
    for c in ("edges", "facets", "moved"):
        st.env["ghost:" + c] = IntVal(0)

    def upd(kind):
        def h(eng, f, this, vals, st):
            st.env["ghost:" + kind] = simplify(st.env["ghost:" + kind] + 1)
            st.pc.append(And(st.env["ghost:moved"] == 1))if False else None
            ev(kind, st, dict(x=V.refof(this), moved=st.env["ghost:moved"]))
        return h
    V.e.intercepts[T + "Edge::update_metrics"] = upd("edges")
    V.e.intercepts[T + "Facet::update_metrics"] = upd("facets")
    xy = V.e.named_val(V.e.t.shape("CppUtils::VecND<double, 2>"), "xy")

    def adj(eng, f, this, vals, st):
        eng.obls.append(Obl("moves-the-vertex-there", list(st.pc), And(V.refof(this) == v, *[p == q for p, q in zip(
            V.coords(arg(eng, vals[0], st)), V.coords(xy))]), fn=f.qname, kind="requires"))
        st.env["ghost:moved"] = simplify(st.env["ghost:moved"] + 1)
    for c in (T + "Vertex", G + "ContainerEntry<TQMesh::Vertex>"):
        V.e.intercepts[c + "::adjust_xy"] = adj

    def body(h, end, k, evs):
        for kind, el in (("edges", ee), ("facets", ff)):
            yield kind + "-in-turn", And([Implies(x.guard, And(x.args["x"] == el[k], x.args["moved"] == 1)) for x in of(evs, kind)] + [True])
    V.e.loopspecs = [lambda eng, L: [("body:updates", body)]]
    ex = V.run(T + "MeshCleanup::set_vertex_coordinates", args=[v, xy], st=st)
    V.ensure(ex, "moved-once", ex.post.env["ghost:moved"] == 1)
    V.ensure(ex, "all-edges-updated", ex.post.env["ghost:edges"] == ne)
    V.ensure(ex, "all-elements-updated", ex.post.env["ghost:facets"] == nf)


def c_valid(V):
    s, v = Ints("self v")
    st = V.state()
    st.pc += [s > 0, s < st.nxt, v > 0, v < st.nxt]
    from props.adj import lst
    n, ff = lst(V, st, v, "facets")
    st.pc += [n >= 0]
    NV = z3.Function("NV", IntSort(), IntSort())
    CR = z3.Function("P_crossing", *([RealSort()] * 8), BoolSort())
    INS = Bool("v_inside")
    V.e.intercepts[T + "Facet::n_vertices"] = lambda eng, f, this, vals, st: NV(V.refof(this))
    V.e.intercepts[T + "Facet::max_edge_length"] = lambda eng, f, this, vals, st: fresh("mel", RealSort())
    V.e.intercepts[T + "Domain::is_inside"] = lambda eng, f, this, vals, st: INS

    def edges(eng, f, this, vals, st):
        q = eng.named_val(("Q", REF), fresh_name("near"))
        st.pc.append(q.n >= 0)
        near.append(q)
        return q
    near = []
    V.e.intercepts[T + "EdgeList::get_edges"] = edges

    def cr(eng, f, this, vals, st):
        c = []
        for x in vals:
            c += V.coords(arg(eng, x, st))
        return CR(*c)
    V.e.intercepts[G + "line_line_crossing"] = cr
    pre = st.copy()
    ex = V.run(S + "new_vertex_position_is_valid", args=[v, Real("range")], this=s, st=st)
    i, j = Ints("anyi anyj")
    f = ff[i]
    at = lambda cls, m: V.at(pre, V.obs(pre, f, T + "%s::v%d" % (cls, m), const=True))

    def ccw(a, b, c):
        return (b[0] - a[0]) * (c[1] - a[1]) - (c[0] - a[0]) * (b[1] - a[1]) > 0
    has = [ex.ret, 0 <= i, i < n]
    V.ensure(ex, "accepted-only-inside-the-domain", Implies(ex.ret, INS))
    V.ensure(ex, "accepted-only-if-triangles-stay-counter-clockwise", Implies(And(has + [NV(f) == 3]), ccw(*[at("Triangle", m) for m in (1, 2, 3)])))
    V.ensure(ex, "accepted-only-if-quads-stay-counter-clockwise-at-two-corners", Implies(And(has + [NV(f) == 4]), And(
        ccw(*[at("Quad", m) for m in (1, 2, 3)]), ccw(*[at("Quad", m) for m in (2, 3, 4)]))))
    if len(near) >= 2:
        a, b = near[-2], near[-1]
        en = lambda q, i: sum([V.at(pre, V.obs(pre, q.el[()][i], T + "Edge::" + w, const=True)) for w in ("v1", "v2")], [])
        V.ensure(ex, "accepted-only-if-near-interior-edges-do-not-cross", Implies(And(ex.ret, 0 <= i, i < a.n, 0 <= j, j < a.n, i != j), Not(CR(*en(a, i), *en(a, j)))))
        V.ensure(ex, "accepted-only-if-near-boundary-edges-are-not-crossed", Implies(And(ex.ret, 0 <= i, i < a.n, 0 <= j, j < b.n), Not(CR(*en(a, i), *en(b, j)))))
    else:
        raise Unsupported("edges near the vertex")


def c_smooth(V, cls):
    s, it = Ints("self iterations")
    st = V.state()
    st.pc += [s > 0, s < st.nxt]
    setup, init, coll, loop = T + "MeshCleanup::setup_facet_connectivity", S + "init_vertex_connectivity", S + "collect_dispalcement_directions", S + "smoothing_loop"

    def eff(q, eng, f, this, vals, s2):
        if q == loop:
            eng.obls.append(Obl("iterations-passed-on", list(s2.pc), arg(eng, vals[0], s2) == it, fn=f.qname, kind="requires"))
    steps(V, st, [setup, init, coll, loop], {init: [setup], coll: [setup], loop: [init, coll]}, eff)
    ex = V.run(T + cls + "::smooth", args=[it], this=s, st=st)
    V.ensure(ex, "succeeds-with-all-steps", And(ex.ret, *[ex.post.env["ghost:" + q] == 1 for q in (setup, init, coll, loop)]))


def c_inside(V):
    s, v = Ints("self v")
    st = V.state()
    st.pc += [s > 0, s < st.nxt, v > 0, v < st.nxt]
    xy = V.e.named_val(V.e.t.shape("CppUtils::VecND<double, 2>"), "xy")
    P = z3.Function("P_inside", RealSort(), RealSort(), BoolSort())
    V.e.intercepts[T + "Domain::is_inside"] = lambda eng, f, this, vals, st: P(*V.coords(arg(eng, vals[0], st)))
    ex = V.run(S + "check_new_vertex_coordinate", args=[xy, v], this=s, st=st)
    V.ensure(ex, "accepted-only-inside-the-domain", Implies(ex.ret, P(*V.coords(xy))))


def contracts(V):
    V.section("smooth/iteration", c_iteration)
    V.section("smooth/laplace", c_laplace)
    V.section("smooth/loop", c_loop)
    V.section("smooth/set-coordinates", c_set)
    V.section("smooth/validity", c_valid)
    V.section("smooth/run-laplace", c_smooth, "LaplaceSmoothing")
    V.section("smooth/run-torsion", c_smooth, "TorsionSmoothing")
    V.section("smooth/inside", c_inside)
