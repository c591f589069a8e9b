"""Contracts on turning triangles into quads (ModificationStrategy.h, MeshCleanup.h)."""
import re
from z3 import *
from verif import *
from props.mesh import *

Q = T + "Tri2QuadModification::"


def field(V, st, s, name, cls):
    for k, sh in V.e.fieldshape.items():
        if str(k).endswith("::" + name) and cls in str(k):
            return V.e.load(Loc("H", s, path=(k,)), st)
    raise cast.ExtractionError("no field " + name)


def opposite(V, st, f, a, b):
    """vertex of triangle f that is neither a nor b"""
    vs = [fvx(V, st, f, i) for i in range(3)]
    return If(And(vs[0] != a, vs[0] != b), vs[0], If(And(vs[1] != a, vs[1] != b), vs[1], vs[2]))


def left_of(V, st, f, a, b):
    vs = [fvx(V, st, f, i) for i in range(3)]
    return Or([And(vs[i] == a, vs[(i + 1) % 3] == b) for i in range(3)])


def merge_body(V, O, m, el):
    def body(h, end, k, ev):
        e = el(h)[k]
        o = lambda n: V.obs(h, e, T + "Edge::" + n, nparams=0, const=True)
        fl, fr, v1, v2 = o("facet_l"), o("facet_r"), o("v1"), o("v2")
        both = And(NV(fl) == 3, NV(fr) == 3)
        # the edge lies between two different triangles, one on each side
        sane = And(fcolor(V, h, fl) >= 0, fl > 0, fr > 0, fl != fr, v1 != v2, Or(NV(fl) == 3, NV(fl) == 4), Or(NV(fr) == 3, NV(fr) == 4),
                   Implies(NV(fl) == 3, left_of(V, h, fl, v1, v2)), Implies(NV(fr) == 3, left_of(V, h, fr, v2, v1)),
                   *[Distinct([fvx(V, h, f, i) for i in range(3)]) for f in (fl, fr)])
        ql, qr = opposite(V, h, fl, v1, v2), opposite(V, h, fr, v1, v2)
        qs, ts, es = of(ev, "quad"), of(ev, "remove-triangle"), of(ev, "remove-interior_edge")
        yield "nothing-else", BoolVal(not others(ev, ("quad", "remove-triangle", "remove-interior_edge")))
        yield "already-merged-triangles-are-left-alone", Implies(And(sane, Not(both)), And(number(qs) == 0, number(ts) == 0, number(es) == 0))
        yield "one-quad-of-the-four-vertices", Implies(And(sane, both), And(number(qs) == 1, number(qs, lambda a: And(a["mesh"] == m, cyc(a["v"], [ql, v1, qr, v2]))) == 1))
        yield "with-the-colour-of-the-triangles", Implies(And(sane, both), number(qs, lambda a: V.obs(end, a["new"], T + "Quad::color", nparams=0, const=True) == fcolor(V, h, fl)) == 1)
        yield "removes-the-edge", Implies(And(sane, both), And(number(es) == 1, number(es, lambda a: a["x"] == e) == 1))
        for n, f in (("left", fl), ("right", fr)):
            yield "removes-the-%s-triangle" % n, Implies(And(sane, both), number(ts, lambda a: a["x"] == f) == 1)
        yield "removes-two-triangles", Implies(And(sane, both), number(ts) == 2)
        for n, (a, b) in enumerate(((ql, v1), (v1, qr), (qr, v2), (v2, ql))):
            x = O.ledge("interior", a, b)
            oe = lambda w: V.obs(end, x, T + "Edge::" + w, nparams=0, const=True)
            yield "edge-%d-refers-to-no-removed-triangle" % n, Implies(And(sane, both, x != 0), And([And(oe(w) != fl, oe(w) != fr) for w in ("facet_l", "facet_r")]))
    return body


def c_merge(V):
    s = Int("self")
    st = V.state()
    m = V.obs(st, s, T + "ModificationStrategy::mesh")
    facets(V, st)
    O = MeshOps(V, m)
    O.nxt0 = st.nxt
    st.pc += [s > 0, s < st.nxt, m > 0, m < st.nxt]
    q = field(V, st, s, "tri_edges_", "Tri2Quad")
    st.pc += [q.n >= 0]
    # quads made before are not among the triangles
    V.e.loopspecs = [lambda eng, L: [("body:merges", merge_body(V, O, m, lambda h: q.el[()]))] if L.no == 0 else []]
    ex = V.run(Q + "merge_triangles_to_quads", this=s, st=st)


def container(V, st, m, getter):
    f = V.w.one(T + "Mesh::" + getter, const=True)
    s = st.copy()
    return contents(V, s, V.e.inline(f, Loc("H", m, cls=T + "Mesh"), [], s))


def c_collect(V):
    s = Int("self")
    st = V.state()
    m = V.obs(st, s, T + "ModificationStrategy::mesh")
    facets(V, st)
    st.pc += [s > 0, s < st.nxt, m > 0, m < st.nxt]
    c = container(V, st, m, "interior_edges")
    A = lambda x: field(V, x, s, "tri_edges_", "Tri2Quad")
    st.pc += [c.n >= 0, A(st).n == 0]
    pre = st.copy()
    i, j = Ints("i j")
    x = Int("anyedge")

    def good(e):
        o = lambda n: V.obs(pre, e, T + "Edge::" + n, nparams=0, const=True)
        l, r = o("facet_l"), o("facet_r")
        return And(l != NULLF, r != NULLF, NV(l) == 3, NV(r) == 3, fcolor(V, pre, l) == fcolor(V, pre, r))
    # facets are triangles, quads or the null facet
    e = Int("e")
    of_ = lambda n: V.obs(st, e, T + "Edge::" + n, nparams=0, const=True)
    st.pc += [ForAll([e], And([Or(of_(n) == NULLF, NV(of_(n)) == 3, NV(of_(n)) == 4) for n in ("facet_l", "facet_r")]))]
    has = lambda q, n: Exists([i], And(0 <= i, i < n, q.el[()][i] == x))

    def spec(eng, L):
        return [("only-such-edges", lambda s2, k: Implies(has(A(s2), A(s2).n), And(good(x), has(c, k)))),
                ("all-such-edges", lambda s2, k: Implies(And(good(x), has(c, k)), has(A(s2), A(s2).n))),
                ("length", lambda s2, k: And(A(s2).n >= 0, A(s2).n <= k))]
    V.e.loopspecs = [spec]
    ex = V.run(Q + "collect_triangle_edges", this=s, st=st)
    a = A(ex.post)
    V.ensure(ex, "exactly-the-edges-between-triangles-of-one-colour", has(a, a.n) == And(good(x), has(c, c.n)))


def c_modify(V):
    s = Int("self")
    st = V.state()
    m = V.obs(st, s, T + "ModificationStrategy::mesh")
    st.pc += [s > 0, s < st.nxt, m > 0, m < st.nxt]
    setup = T + "MeshCleanup::setup_facet_connectivity"
    col, mer = Q + "collect_triangle_edges", Q + "merge_triangles_to_quads"
    dq, dt = T + "MeshCleanup::clear_double_quad_edges", T + "MeshCleanup::clear_double_triangle_edges"

    def eff(q, eng, f, this, vals, s2):
        if q == col:
            eng.obls.append(Obl("starts-with-no-edges", list(s2.pc), field(V, s2, s, "tri_edges_", "Tri2Quad").n == 0, fn=f.qname, kind="requires"))
    V.e.intercepts[T + "Mesh::clear_waste"] = lambda eng, f, this, vals, st: None
    steps(V, st, [setup, col, mer, dq, dt], {col: [setup], mer: [col], dq: [mer], dt: [dq]}, eff)
    ex = V.run(Q + "modify", this=s, st=st)
    V.ensure(ex, "succeeds-with-all-steps", And(ex.ret, *[ex.post.env["ghost:" + q] >= 1 for q in (setup, col, mer, dq, dt)]))


def local(V, st, *cls):
    """local list of (pairs of) pointers to objects of these classes"""
    out = [v for k, v in st.env.items() if isinstance(v, Seq) and
           tuple(x.split("::")[-1] for x in re.findall(r"([\w:]+) ?\*", V.e.vtype.get(k, ""))) == cls]
    if len(out) != 1:
        raise cast.ExtractionError("no single local list of " + str(cls))
    return out[0]


def pairs(q):
    return q.el[("first",)], q.el[("second",)]


def edge_in(V, st, r, a, b):
    """element r has a side from a to b (in its own direction)"""
    vs = [fvx(V, st, r, i) for i in range(4)]
    tri = Or([And(vs[i] == a, vs[(i + 1) % 3] == b) for i in range(3)])
    return If(NV(r) == 3, tri, Or([And(vs[i] == a, vs[(i + 1) % 4] == b) for i in range(4)]))


def c_double(V, fn, N):
    m = Int("mesh")
    st = V.state()
    st.pc += [m > 0, m < st.nxt]
    facets(V, st)
    O = MeshOps(V, m)
    O.nxt0 = st.nxt
    for g in ("assign_mesh_indices", "setup_facet_connectivity"):
        V.e.intercepts[T + "MeshCleanup::" + g] = lambda eng, f, this, vals, st: None
    kinds = ["quad", "triangle", "vertex", "interior-edge", "boundary-edge", "remove-quad", "remove-triangle", "remove-interior_edge", "remove-vertex", "remove-boundary_edge"]
    O.count(st, *kinds)
    pre = st.copy()
    c = container(V, st, m, "quads")
    st.pc.append(c.n >= 0)
    i, j = Ints("i j")
    q = c.el[()][i]
    qv = lambda r: [V.obs(pre, r, T + "Quad::vertex", [IntVal(x)], const=True) for x in range(4)]
    nbr = lambda r, a, b: V.obs(pre, r, T + "Quad::neighbor", [V.obs(pre, r, T + "Quad::get_edge_index", [a, b], const=True)], const=True)
    v = qv(q)
    nb = [nbr(q, v[x], v[(x + 1) % 4]) for x in range(4)]
    def joined(a, b):
        """the list of interior edges has an edge between a and b"""
        e = O.ledge("interior", a, b)
        o = [V.obs(pre, e, T + "Edge::" + w, nparams=0, const=True) for w in ("v1", "v2")]
        return And(e > 0, e < st.nxt, either(o, [a, b]))
    # quads have four different vertices and a colour; the recorded neighbour behind a side has that
    # side, and an interior edge lies between them
    st.pc.append(ForAll([i], Implies(And(0 <= i, i < c.n), And(q > 0, q < st.nxt, NV(q) == 4, Distinct(*v), fcolor(V, pre, q) >= 0, *[
        Or(n == NULLF, And(n > 0, n < st.nxt, n != q, Or(NV(n) == 3, NV(n) == 4), edge_in(V, pre, n, v[(x + 1) % 4], v[x]), joined(v[x], v[(x + 1) % 4]),
                           Distinct(*[fvx(V, pre, n, y) for y in range(3)]), Implies(NV(n) == 4, Distinct(*[fvx(V, pre, n, y) for y in range(4)]))))
        for x, n in enumerate(nb)])), patterns=[q]))
    fixed = lambda x: V.obs(pre, x, T + "Vertex::is_fixed", const=True)
    other = "Quad" if N == 4 else "Triangle"

    def tied(st2, x):
        """x-th entries: two elements joined along two sides that meet in a vertex that is not fixed"""
        q1, q2 = [a[x] for a in pairs(local(V, st2, "Quad", other))]
        e1, e2 = [a[x] for a in pairs(local(V, st2, "Edge", "Edge"))]
        w = local(V, st2, "Vertex").el[()][x]
        v = qv(q1)
        alt = []
        for y in range(4):
            a, b, d, o = [v[(y + z) % 4] for z in range(4)]
            cond = [w == b, q2 == nbr(q1, a, b), q2 == nbr(q1, b, d), e1 == O.ledge("interior", a, b), e2 == O.ledge("interior", b, d), joined(a, b), joined(b, d)]
            if N == 4:
                o1, o2 = [z[x] for z in pairs(local(V, st2, "Vertex", "Vertex"))]
                cond += [o1 == o, cyc([fvx(V, pre, q2, z) for z in range(4)], [d, b, a, o2])]
            alt.append(And(cond))
        return And(q1 > 0, q2 > 0, NV(q1) == 4, NV(q2) == N, q1 != q2, Distinct(*v), fcolor(V, pre, q1) >= 0, fcolor(V, pre, q1) == fcolor(V, pre, q2), Not(fixed(w)), Or(alt))

    def marker(st2):
        out = [v for v in st2.env.values() if isinstance(v, Seq) and v.esh == ("bool",)]
        if len(out) != 1:
            raise cast.ExtractionError("no marker")
        return out[0]

    def spec(eng, L):
        lists = [("Quad", other), ("Edge", "Edge"), ("Vertex",)] + ([("Vertex", "Vertex")] if N == 4 else [])
        ls = lambda st2: [local(V, st2, *t) for t in lists]
        ob = lambda r, c: V.obs(pre, r, T + c + "::index", nparams=0, const=True)
        idx = lambda r: If(NV(r) == 3, ob(r, "Triangle"), ob(r, "Quad"))
        both = lambda st2: pairs(local(V, st2, "Quad", other))
        n = lambda st2: ls(st2)[0].n

        def body(h, end, k, ev):
            Q, E, W = local(V, h, "Quad", other), local(V, h, "Edge", "Edge"), local(V, h, "Vertex")
            new = "quad" if N == 4 else "triangle"
            qs = of(ev, new)
            yield "nothing-else", BoolVal(not others(ev, (new, "remove-quad", "remove-triangle", "remove-interior_edge", "remove-vertex")))
            q1 = pairs(Q)[0][k]
            v = qv(q1)
            want = []
            for y in range(4):
                a, b, d, o = [v[(y + z) % 4] for z in range(4)]
                o2 = pairs(local(V, h, "Vertex", "Vertex"))[1][k] if N == 4 else None
                want.append((b, [o, a, o2, d] if N == 4 else [o, a, d]))
            for x in qs:
                yield "new-element-has-the-outline-of-the-two", Implies(x.guard, Or([And(W.el[()][k] == b, cyc(x.args["v"], w)) for b, w in want]))
                yield "new-element-has-their-colour", Implies(x.guard, x.args["color"] == fcolor(V, pre, q1))
            yield "one-new-element", number(qs) <= 1
            for x in of(ev, "remove-vertex"):
                yield "removes-the-vertex-between", Implies(x.guard, And(x.args["x"] == W.el[()][k], Not(fixed(x.args["x"]))))
            for kind, lst in (("remove-quad", Q), ("remove-triangle", Q), ("remove-interior_edge", E)):
                for x in of(ev, kind):
                    yield kind + "-as-collected", Implies(x.guard, Or([x.args["x"] == a[k] for a in pairs(lst)]))
                xs = of(ev, kind)
                if len(xs) == 2:
                    yield kind + "-two-different", Implies(And(xs[0].guard, xs[1].guard, pairs(lst)[0][k] != pairs(lst)[1][k]), xs[0].args["x"] != xs[1].args["x"])
        out = [("same-length", lambda st2, k: And(n(st2) >= 0, *[x.n == n(st2) for x in ls(st2)])),
               ("tied", lambda st2, k: ForAll([j], Implies(And(0 <= j, j < n(st2)), tied(st2, j)))),
               ("marked", lambda st2, k: ForAll([j], Implies(And(0 <= j, j < n(st2)), And([marker(st2).el[()][idx(a[j])] for a in both(st2)])))),
               ("each-element-once", lambda st2, k: ForAll([i, j], Implies(And(0 <= i, i < j, j < n(st2)), And([a[i] != b[j] for a in both(st2) for b in both(st2)]))))]
        return (out if L.no < 2 else []) + [("body:merges", body)]
    V.e.loopspecs = [spec]
    f = V.w.one(T + "MeshCleanup::" + fn)
    ex = V.run(f, args=[m, BoolVal(False)], st=st)
    cnt = lambda k: O.counted(ex.post, k)
    Q = local(V, ex.post, "Quad", other)
    V.ensure(ex, "each-element-is-used-once", Implies(And(0 <= i, i < j, j < Q.n), And([a[i] != b[j] for a in pairs(Q) for b in pairs(Q)])))
    n = local(V, ex.post, "Quad", other).n
    V.ensure(ex, "two-elements-and-two-edges-and-a-vertex-give-one", And(
        cnt("quad") == (n if N == 4 else 0), cnt("triangle") == (0 if N == 4 else n), cnt("remove-quad") == (2 * n if N == 4 else n),
        cnt("remove-triangle") == (0 if N == 4 else n), cnt("remove-interior_edge") == 2 * n, cnt("remove-vertex") == n,
        cnt("vertex") == 0, cnt("interior-edge") == 0, cnt("boundary-edge") == 0, cnt("remove-boundary_edge") == 0))


def c_degenerate(V):
    m = Int("mesh")
    st = V.state()
    st.pc += [m > 0, m < st.nxt]
    facets(V, st)
    O = MeshOps(V, m)
    O.nxt0 = st.nxt
    for g in ("assign_mesh_indices", "setup_facet_connectivity"):
        V.e.intercepts[T + "MeshCleanup::" + g] = lambda eng, f, this, vals, st: None
    V.e.intercepts[T + "Mesh::clear_waste"] = lambda eng, f, this, vals, st: None
    AR = oriented(V)
    kinds = ["triangle", "remove-triangle", "remove-interior_edge", "remove-vertex"]
    O.count(st, *kinds)
    pre = st.copy()
    c = container(V, st, m, "vertices")
    st.pc.append(c.n >= 0)
    i, j = Ints("i j")
    fixed = lambda x: V.obs(pre, x, T + "Vertex::is_fixed", const=True)

    def star(s2, b):
        f = V.w.find(T + "Vertex::facets", nparams=0, const=True)
        l = V.e.inline(f[0], Loc("H", b, cls=T + "Vertex"), [], s2.copy())
        q = V.e.load(l, s2) if isinstance(l, (Loc, CondLoc)) else l
        return q, [[v for p, v in q.el.items()][0][x] for x in range(3)]

    def enclosed(s2, b):
        """b is not fixed and lies in exactly three triangles of one colour"""
        q, ts = star(s2, b)
        return And(Not(fixed(b)), q.n == 3, *[And(NV(t) == 3, fcolor(V, s2, t) == fcolor(V, s2, ts[0])) for t in ts])

    def spec(eng, L):
        def body(h, end, k, ev):
            b = local(V, h, "Vertex").el[()][k]
            q, ts = star(h, b)
            vs = [[fvx(V, h, t, x) for x in range(3)] for t in ts]
            nx = [If(v[0] == b, v[1], If(v[1] == b, v[2], v[0])) for v in vs]
            pv = [If(v[0] == b, v[2], If(v[1] == b, v[0], v[1])) for v in vs]
            # the three triangles are different, turn counter-clockwise and surround b
            ring = Or(And(pv[0] == nx[1], pv[1] == nx[2], pv[2] == nx[0]), And(pv[0] == nx[2], pv[2] == nx[1], pv[1] == nx[0]))
            e3 = [O.ledge("interior", b, x) for x in nx]
            sane = And(q.n == 3, Distinct(*ts), *[And(t > 0, NV(t) == 3, Distinct(*v), Or([x == b for x in v]), fcolor(V, h, t) == fcolor(V, h, ts[0])) for t, v in zip(ts, vs)],
                       ring, Distinct(*nx), fcolor(V, h, ts[0]) >= 0, *[x > 0 for x in e3])
            sane = And(sane, Distinct(*e3))
            tr = of(ev, "triangle")
            yield "nothing-else", BoolVal(not others(ev, kinds))
            if not ev:
                return
            yield "one-new-triangle", Implies(sane, number(tr) == 1)
            yield "on-the-surrounding-vertices", Implies(sane, number(tr, lambda a: Or(cyc(a["v"], nx), cyc(a["v"], nx[::-1]))) == 1)
            p = lambda v: V.at(h, v)

            def area(v):
                return AR(*[p(x) for x in v])
            yield "counter-clockwise", Implies(And(sane, Or(area(nx) >= RealVal("1/67108864"), area(nx) <= RealVal("-1/67108864"))), number(tr, lambda a: area(a["v"]) > 0) == 1)
            yield "with-their-colour", Implies(sane, number(tr, lambda a: a["color"] == fcolor(V, h, ts[0])) == 1)
            for kd, xs in (("remove-triangle", ts), ("remove-interior_edge", e3), ("remove-vertex", [b])):
                es = of(ev, kd)
                yield kd + "s", Implies(sane, And(number(es) == len(xs), *[number(es, lambda a: a["x"] == x) == 1 for x in xs]))
        return [("enclosed", lambda s2, k: ForAll([j], Implies(And(0 <= j, j < local(V, s2, "Vertex").n), Not(fixed(local(V, s2, "Vertex").el[()][j]))))),
                ("body:merges", body)]
    V.e.loopspecs = [spec]
    f = V.w.one(T + "MeshCleanup::merge_degenerate_triangles")
    ex = V.run(f, args=[m, BoolVal(False)], st=st)
    W = local(V, ex.post, "Vertex")
    cnt = lambda k: O.counted(ex.post, k)
    V.ensure(ex, "only-vertices-that-are-not-fixed", Implies(And(0 <= i, i < W.n), Not(fixed(W.el[()][i]))))
    V.ensure(ex, "three-triangles-and-three-edges-and-a-vertex-give-one", And(cnt("triangle") == W.n, cnt("remove-vertex") == W.n, cnt("remove-triangle") == 3 * W.n, cnt("remove-interior_edge") == 3 * W.n))


def contracts(V):
    V.section("to-quads/merge", c_merge)
    V.section("to-quads/collect", c_collect)
    V.section("to-quads/modify", c_modify)
    doubles(V)


def doubles(V):
    V.section("to-quads/double-quad-edges", c_double, "clear_double_quad_edges", 4)
    V.section("to-quads/double-triangle-edges", c_double, "clear_double_triangle_edges", 3)


def cleanup(V):
    doubles(V)
    V.section("cleanup/degenerate", c_degenerate)
