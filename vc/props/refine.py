"""Contracts on the refinement (RefinementStrategy.h)."""
from z3 import *
from verif import *
from props.mesh import *

R = T + "QuadRefinement::"


def begin(V, field):
    s = Int("self")
    st = V.state()
    m = V.obs(st, s, T + "RefinementStrategy::mesh")
    O = MeshOps(V, m)
    O.nxt0 = st.nxt
    st.pc += [s > 0, s < st.nxt, m > 0, m < st.nxt]
    q = fieldseq(V, st, s, field)
    i = Int("i")
    a = q.el[()]
    st.pc += [q.n >= 0, ForAll([i], Implies(And(0 <= i, i < q.n), And(a[i] > 0, a[i] < st.nxt)), patterns=[a[i]])]
    return s, m, st, O, q


def fieldseq(V, st, s, field):
    for k, sh in V.e.fieldshape.items():
        if str(k).endswith("::" + field) and "QuadRefinement" in str(k):
            return V.e.load(Loc("H", s, path=(k,)), st)
    raise cast.ExtractionError("no field " + field)


def vtx(V, st, cls, t):
    n = 3 if cls == "Triangle" else 4
    return [V.obs(st, t, T + "%s::v%d" % (cls, i + 1), const=True) for i in range(n)]


def body_facet(V, O, cls, m, el, n):
    N = 3 if cls == "Triangle" else 4

    def f(h, end, k, ev):
        V = O.V
        t = el[k]
        cs = vtx(V, h, cls, t)
        sub = lambda a, b: V.obs(h, O.edge(a, b), T + "Edge::sub_vertex", const=True)
        mid = [sub(cs[i], cs[(i + 1) % N]) for i in range(N)]
        xy = V.coords(V.obs(h, t, T + cls + "::xy", const=True))
        vs, qs, es = of(ev, "vertex"), of(ev, "quad"), of(ev, "interior-edge")
        if len(vs) != 1:
            yield "one-new-vertex", BoolVal(False)
            return
        c = vs[0].args["new"]
        yield "one-new-vertex", And(vs[0].guard, *[vs[0].args["xy"][i] == xy[i] for i in (0, 1)])
        yield "nothing-else", BoolVal(not others(ev, ("vertex", "quad", "interior-edge")))
        yield "new-vertex-is-interior", Not(O.flags.of(end, c, "on_boundary"))
        yield "number-of-quads", number(qs) == N
        yield "number-of-edges", number(es) == N
        col = V.obs(h, t, T + cls + "::color", nparams=0, const=True)
        for i in range(N):
            want = [cs[i], mid[i], c, mid[(i - 1) % N]]
            yield "sub-quad-%d" % i, number(qs, lambda a: And(a["mesh"] == m, cyc(a["v"], want), V.obs(
                end, a["new"], T + "Quad::color", nparams=0, const=True) == col)) == 1
            yield "sub-edge-%d" % i, number(es, lambda a: either(a["v"], [mid[i], c])) == 1
    return f


def old_vertices(V, ex, st):
    """vertices that were there keep position and flags"""
    x = Int("anyv")
    V.ensure(ex, "former-vertices-keep-their-place", And([a == b for a, b in zip(V.at(ex.pre, x), V.at(ex.post, x))]), extra=[x > 0, x < st.nxt])
    p = lambda s: V.obs(s, x, T + "Vertex::properties", const=True)
    V.ensure(ex, "former-vertices-keep-their-flags", p(ex.pre) == p(ex.post), extra=[x > 0, x < st.nxt])


def c_facets(V, cls, fn, field):
    s, m, st, O, q = begin(V, field)
    a = q.el[()]
    i = Int("i")
    # elements have distinct corners; their edges have been split
    N = 3 if cls == "Triangle" else 4
    cs = vtx(V, st, cls, a[i])
    mids = [V.obs(st, O.edge(cs[j], cs[(j + 1) % N]), T + "Edge::sub_vertex", const=True) for j in range(N)]
    st.pc.append(ForAll([i], Implies(And(0 <= i, i < q.n), And(Distinct(*cs, *mids), *[And(v > 0, v < st.nxt) for v in cs + mids])), patterns=[a[i]]))
    V.e.loopspecs = [lambda eng, L: [("body:refines", body_facet(V, O, cls, m, a, q.n))]]
    pre = st.copy()
    O.count(st, "quad", "vertex")
    ex = V.run(R + fn, this=s, st=st)
    old_vertices(V, ex, pre)
    V.ensure(ex, "every-element-is-refined", And(O.counted(ex.post, "quad") == N * q.n, O.counted(ex.post, "vertex") == q.n))


def body_edge(V, O, kind, el):
    def f(h, end, k, ev):
        e = el[k]
        a, b = [V.obs(h, e, T + "Edge::" + w, const=True) for w in ("v1", "v2")]
        xy = V.at(h, e, "TQMesh::Edge::xy")
        col = V.obs(h, e, T + "Edge::color", nparams=0, const=True)
        vs, es = of(ev, "vertex"), of(ev, kind + "-edge")
        if len(vs) != 1:
            yield "one-new-vertex", BoolVal(False)
            return
        c = vs[0].args["new"]
        pr = lambda st, v: O.flags.of(st, v, "on_boundary")
        yield "one-new-vertex", And(vs[0].guard, *[vs[0].args["xy"][i] == xy[i] for i in (0, 1)])
        yield "nothing-else", BoolVal(not others(ev, ("vertex", kind + "-edge")))
        yield "recorded-at-the-edge", V.obs(end, e, T + "Edge::sub_vertex", const=True) == c
        yield "number-of-edges", number(es) == 2
        if kind == "boundary":
            onb = lambda r: O.flags.of(end, r, "on_boundary", "Edge")
            ec = lambda r: V.obs(end, r, T + "Edge::color", nparams=0, const=True)
            for nm, w in (("first", [a, c]), ("second", [c, b])):
                yield nm + "-half", number(es, lambda x: And(x["v"][0] == w[0], x["v"][1] == w[1], ec(x["new"]) == col, onb(x["new"]))) == 1
            yield "new-vertex-is-on-the-boundary", Implies(And(pr(h, a), pr(h, b)), pr(end, c))
        else:
            for nm, w in (("first", [a, c]), ("second", [c, b])):
                yield nm + "-half", number(es, lambda x: either(x["v"], w)) == 1
            yield "new-vertex-is-interior", Not(pr(end, c))
    return f


def c_edges(V, kind, fn, field):
    s, m, st, O, q = begin(V, field)
    i = Int("i")
    ends = [V.obs(st, q.el[()][i], T + "Edge::" + w, const=True) for w in ("v1", "v2")]
    st.pc.append(ForAll([i], Implies(And(0 <= i, i < q.n), And(ends[0] != ends[1], *[And(v > 0, v < st.nxt) for v in ends])), patterns=[q.el[()][i]]))
    V.e.loopspecs = [lambda eng, L: [("body:splits", body_edge(V, O, kind, q.el[()]))]]
    pre = st.copy()
    O.count(st, kind + "-edge", "vertex")
    ex = V.run(R + fn, this=s, st=st)
    old_vertices(V, ex, pre)
    V.ensure(ex, "every-edge-is-split", And(O.counted(ex.post, kind + "-edge") == 2 * q.n, O.counted(ex.post, "vertex") == q.n))


LISTS = dict(interior_edge="coarse_intr_edges_", boundary_edge="coarse_bdry_edges_", triangle="coarse_tris_", quad="coarse_quads_")


def c_remove(V):
    s, m, st, O, q = begin(V, "coarse_tris_")
    qs = {k: fieldseq(V, st, s, f) for k, f in LISTS.items()}
    st.pc += [x.n >= 0 for x in qs.values()]
    O.count(st, *["remove-" + k for k in LISTS])

    def body(h, end, k, ev):
        yield "one-removed", And([number(of(ev, "remove-" + n)) <= 1 for n in LISTS])
        for n, x in qs.items():
            yield "the-next-" + n, And([Implies(y.guard, y.args["x"] == x.el[()][k]) for y in of(ev, "remove-" + n)] + [True])
        yield "nothing-else", BoolVal(not others(ev, ["remove-" + n for n in LISTS]))
    V.e.loopspecs = [lambda eng, L: [("body:removes", body)]]
    ex = V.run(R + "remove_old_entities", this=s, st=st)
    for n, x in qs.items():
        V.ensure(ex, "every-former-%s-is-removed" % n, O.counted(ex.post, "remove-" + n) == x.n)


def container(V, st, m, getter):
    f = V.w.one(T + "Mesh::" + getter, const=True)
    s = st.copy()
    return contents(V, s, V.e.inline(f, Loc("H", m, cls=T + "Mesh"), [], s))


def c_gather(V):
    s, m, st, O, q = begin(V, "coarse_tris_")
    qs = {k: fieldseq(V, st, s, f) for k, f in LISTS.items()}
    st.pc += [x.n == 0 for x in qs.values()]
    cs = {k: container(V, st, m, g) for k, g in dict(interior_edge="interior_edges", boundary_edge="boundary_edges",
                                                     triangle="triangles", quad="quads").items()}
    st.pc += [x.n >= 0 for x in cs.values()]
    i = Int("anyi")

    def spec(eng, L):
        out = []
        for k0, f in LISTS.items():
            A = lambda st2, f=f: fieldseq(V, st2, s, f)
            def got(st2, k, A=A, k0=k0):
                a = A(st2)
                return And(a.n == k, ForAll([i], Implies(And(0 <= i, i < k), a.el[()][i] == cs[k0].el[()][i])))
            def kept(st2, k, A=A):
                a, b = A(st2), A(L.base)
                return And(a.n == b.n, ForAll([i], Implies(And(0 <= i, i < b.n), a.el[()][i] == b.el[()][i])))
            out += [("gathered-" + k0, got), ("kept-" + k0, kept)]
        return out
    V.e.loopspecs = [spec]
    ex = V.run(R + "gather_entities_to_refine", this=s, st=st)
    for k, f in LISTS.items():
        a = fieldseq(V, ex.post, s, f)
        V.ensure(ex, "all-%ss" % k, And(a.n == cs[k].n, Implies(And(0 <= i, i < a.n), a.el[()][i] == cs[k].el[()][i])))


def c_refuse(V):
    """a mesh with twin edges is refused before anything changes"""
    s, m, st, O, q = begin(V, "coarse_tris_")
    b = container(V, st, m, "boundary_edges")
    st.pc += [b.n >= 0]
    calls = []
    for fn in ("gather_entities_to_refine", "refine_interior_edges", "refine_boundary_edges", "refine_triangles", "refine_quads", "remove_old_entities"):
        V.e.intercepts[R + fn] = lambda eng, f, this, vals, st, fn=fn: O.event(fn, st, {})
    V.e.intercepts[T + "Mesh::clear_waste"] = lambda eng, f, this, vals, st: None
    O.count(st, "gather_entities_to_refine", "refine_interior_edges", "refine_boundary_edges", "refine_triangles", "refine_quads", "remove_old_entities")
    ex = V.run(R + "refine", this=s, st=st)
    i = Int("anyi")
    tw = lambda j: V.obs(ex.pre, b.el[()][j], T + "Edge::twin_edge", nparams=0, const=True) != 0
    V.ensure(ex, "refused-if-an-edge-has-a-twin", Implies(And(0 <= i, i < b.n, tw(i)), And(Not(ex.ret), *[
        O.counted(ex.post, k) == 0 for k in ("refine_interior_edges", "refine_boundary_edges", "refine_triangles", "refine_quads", "remove_old_entities")])))
    V.ensure(ex, "else-all-steps-once", Implies(Not(Exists([i], And(0 <= i, i < b.n, tw(i)))), And(ex.ret, *[
        O.counted(ex.post, k) == 1 for k in ("gather_entities_to_refine", "refine_interior_edges", "refine_boundary_edges", "refine_triangles", "refine_quads", "remove_old_entities")])))


def contracts(V):
    V.section("refine/triangles", c_facets, "Triangle", "refine_triangles", "coarse_tris_")
    V.section("refine/quads", c_facets, "Quad", "refine_quads", "coarse_quads_")
    V.section("refine/interior-edges", c_edges, "interior", "refine_interior_edges", "coarse_intr_edges_")
    V.section("refine/boundary-edges", c_edges, "boundary", "refine_boundary_edges", "coarse_bdry_edges_")
    V.section("refine/gather", c_gather)
    V.section("refine/remove", c_remove)
    V.section("refine/refuse", c_refuse)
