"""Contracts on the loops of the triangulation (Triangulation.h, MeshingStrategy.h, Front.h)."""
from z3 import *
from verif import *
from props.mesh import *
from props.front import field, refof, eobs, sameloc, fits

R = T + "Triangulation::"
M = T + "MeshingStrategy::"
F = T + "Front::"


def member(V, st, s, name, cls):
    for k, sh in V.e.fieldshape.items():
        if str(k).endswith("::" + name) and cls in str(k):
            return Loc("H", s, path=(k,))
    raise cast.ExtractionError("no field " + name)


def begin(V):
    s = Int("self")
    st = V.state()
    st.pc += [s > 0, s < st.nxt]
    m = refof(V, field(V, st, s, "mesh_", "MeshingStrategy"))
    fl = member(V, st, s, "front_", "MeshingStrategy")
    O = MeshOps(V, m)
    O.nxt0 = st.nxt
    O.lists = {"front": fl}
    st.pc += [m > 0, m < st.nxt, m != s]
    return s, m, fl, st, O


def nocall(V, *names):
    for n in names:
        V.e.intercepts[n] = lambda eng, f, this, vals, st: None


class Frontier:
    """the front by its size: advancing and clearing change it, other calls do not"""
    def __init__(self, V, O, st, fl):
        self.V, self.O = V, O
        n = Int("frontsize")
        st.pc += [n >= 1]
        st.env["ghost:fsize"] = n
        ic = V.e.intercepts
        ic[T + "EdgeList::size"] = lambda eng, f, this, vals, s2: s2.env["ghost:fsize"]
        for k in ("set_base_first", "set_base_next"):
            ic[F + k] = self.base
        nocall(V, F + "sort_edges", T + "Mesh::clear_waste", M + "update_progress_bar")

    def base(self, eng, f, this, vals, s2):
        e = fresh("baseedge", IntSort())
        s2.pc.append(And((e != 0) == (s2.env["ghost:fsize"] > 0), e >= 0))
        return e

    def step(self, name):
        """one attempt to advance: on success one more element and another front"""
        def h(eng, f, this, vals, s2):
            ok = fresh("advanced", BoolSort())
            n = fresh("newsize", IntSort())
            s2.pc.append(n >= 0)
            s2.env["ghost:fsize"] = If(ok, n, s2.env["ghost:fsize"])
            s2.env["ghost:made"] = s2.env["ghost:made"] + If(ok, 1, 0)
            wide = arg(eng, vals[1], s2) if len(vals) > 1 else BoolVal(True)
            s2.env["ghost:fails"] = If(ok, 0, s2.env["ghost:fails"] + If(wide, 1, 0))
            eng.obls.append(Obl(name + "/starts-from-an-edge", list(s2.pc), self.V.refof(vals[0]) != 0, fn=f.qname, kind="requires"))
            return ok
        self.V.e.intercepts[name] = h


def c_loop(V, fn, step):
    s, m, fl, st, O = begin(V)
    Fr = Frontier(V, O, st, fl)
    Fr.step(R + step)
    st.env["ghost:made"] = IntVal(0)
    st.env["ghost:fails"] = IntVal(0)
    b, n = Ints("base nelem")
    g0 = field(V, st, s, "n_generated_", "Triangulation")
    st.pc += [b > 0, b < st.nxt]
    gen = lambda s2: field(V, s2, s, "n_generated_", "Triangulation")
    base0 = g0 if fn == "advancing_front_loop" else IntVal(0)
    V.e.loopspecs = [lambda eng, L: [
        ("counted", lambda s2, k: gen(s2) == base0 + s2.env["ghost:made"]),
        ("frontsize", lambda s2, k: s2.env["ghost:fsize"] >= 0),
        ("edges-left", lambda s2, k: s2.env["ghost:fsize"] > 0)] + [
        ("base-edge-of-the-front:%s" % (c,), lambda s2, k, c=c: And((L.cell(s2, c) != 0) == (s2.env["ghost:fsize"] > 0))) for c in L.local_cells(IntSort())] + [
        ("attempts-failed:%s" % (c,), lambda s2, k, c=c: L.cell(s2, c) <= s2.env["ghost:fails"]) for c in L.local_cells(IntSort())] + [
        ("wide-attempts-failed:%s:%s" % (c, w), lambda s2, k, c=c, w=w: Implies(L.cell(s2, w), L.cell(s2, c) <= s2.env["ghost:fails"]))
        for c in L.local_cells(IntSort()) for w in L.local_cells(BoolSort())]]
    ex = V.run(R + fn, this=s, args=[b, n], st=st)
    fs = ex.post.env["ghost:fsize"]
    V.ensure(ex, "success-means-an-empty-front-or-the-requested-number", Implies(ex.ret, Or(fs == 0, And(n > 0, gen(ex.post) == n))))
    V.ensure(ex, "failure-means-a-remaining-front", Implies(Not(ex.ret), fs > 0))
    V.ensure(ex, "failure-only-after-every-front-edge-failed", Implies(Not(ex.ret), ex.post.env["ghost:fails"] >= fs))
    V.ensure(ex, "generated-elements-are-counted", gen(ex.post) == base0 + ex.post.env["ghost:made"])


def c_search(V):
    s, m, fl, st, O = begin(V)
    b = Int("base")
    st.pc += [b > 0, b < st.nxt]
    V.e.intercepts[T + "EdgeList::size"] = lambda eng, f, this, vals, s2: Int("fsz")
    nx = z3.Function("NEXT", IntSort(), IntSort())
    st.pc += [Int("fsz") >= 0]
    x = Int("x")
    st.pc.append(ForAll([x], nx(x) >= 0, patterns=[nx(x)]))
    V.e.intercepts[T + "Edge::get_next_edge"] = lambda eng, f, this, vals, s2: nx(V.refof(this))
    st.env["ghost:hit"] = BoolVal(False)
    v1, v2 = eobs(V, st, b, "v1"), eobs(V, st, b, "v2")

    def upd(eng, f, this, vals, s2):
        r = fresh("tri", IntSort())
        v = V.refof(vals[1])
        s2.pc.append(r >= 0)
        eng.obls.append(Obl("no-vertex-of-the-base", list(s2.pc), And(V.refof(vals[0]) == b, v != v1, v != v2), fn=f.qname, kind="requires"))
        s2.env["ghost:hit"] = Or(s2.env["ghost:hit"], r != 0)
        return r
    V.e.intercepts[T + "FrontUpdate::update_front_exhaustive"] = upd
    V.e.loopspecs = [lambda eng, L: [("none-so-far", lambda s2, k: Not(s2.env["ghost:hit"]))]]
    ex = V.run(R + "exhaustive_search_triangle", this=s, args=[b], st=st)
    V.ensure(ex, "reports-whether-a-triangle-was-made", ex.ret == ex.post.env["ghost:hit"])


def c_target(V):
    """where the new vertex is tried"""
    s, m, fl, st, O = begin(V)
    b = Int("base")
    W = Bool("wide")
    st.pc += [b > 0, b < st.nxt]
    h = Real("size")
    st.pc.append(h > 0)
    hp = []

    def size(eng, f, this, vals, s2):
        hp.append(V.coords(arg(eng, vals[0], s2)))
        return h
    V.e.intercepts[T + "Domain::size_function"] = size
    got = []
    res = Int("res")

    def upd(eng, f, this, vals, s2):
        got.append((V.refof(vals[0]), V.coords(arg(eng, vals[1], s2)), V.coords(arg(eng, vals[2], s2)), arg(eng, vals[3], s2), And(list(s2.pc))))
        return res
    V.e.intercepts[T + "FrontUpdate::update_front"] = upd
    fs = lambda n: field(V, st, s, n, "Triangulation")
    bf, mf, wf = fs("base_vertex_factor_"), fs("mesh_range_factor_"), fs("wide_search_factor_")
    st.pc += [bf > 0, mf > 0, wf > 0, res >= 0]
    ex = V.run(R + "advance_front_triangle", this=s, args=[b, W], st=st)
    V.ensure(ex, "one-attempt", BoolVal(len(got) == 1 and len(hp) == 1))
    if len(got) != 1:
        return
    e, p, q, r, g = got[0]
    pre = ex.pre
    mid = V.at(pre, b, T + "Edge::xy")
    nrm = V.coords(V.obs(pre, b, T + "Edge::normal", const=True))
    len_ = V.obs(pre, b, T + "Edge::length", const=True)
    t = Real("t")
    sane = [len_ > 0]
    V.ensure(ex, "from-the-base-edge", e == b)
    V.ensure(ex, "size-at-the-middle-of-the-base", And([x == y for x, y in zip(hp[0], mid)]))
    # the new vertex lies on the normal through the middle, no farther than the size there
    pos = lambda L: And([p[i] == mid[i] + nrm[i] * L for i in (0, 1)])
    V.ensure(ex, "on-the-normal-within-the-local-size", Or(pos(h), Exists([t], And(t > 0, t <= h, pos(t)))), extra=sane)
    V.ensure(ex, "searches-around-it", And([x == y for x, y in zip(p, q)]))
    V.ensure(ex, "search-range-is-positive", r > 0, extra=sane)
    V.ensure(ex, "success-as-reported", ex.ret == (res != 0))


def c_generate(V, fn, loops):
    s, m, fl, st, O = begin(V)
    nb, nf = Ints("nboundary nfront")
    st.pc += [nb >= 0, nf >= 0]
    ic = V.e.intercepts
    ic[T + "Mesh::n_boundary_edges"] = lambda eng, f, this, vals, s2: nb
    fe = V.e.named_val(V.e.t.shape("std::vector<TQMesh::Edge *>"), "frontedges")
    st.pc.append(fe.n >= 0)
    ok = {k: Bool("ok_" + k) for k in loops}
    valid = Bool("valid")
    cl = [T + "MeshCleanup::" + k for k in ("clear_double_quad_edges", "clear_double_triangle_edges", "merge_degenerate_triangles")]
    setup, gf, init, rem = T + "MeshCleanup::setup_facet_connectivity", T + "Mesh::get_front_edges", M + "init_advancing_front", M + "remove_invalid_mesh_edges"
    add, clr, chk = M + "add_remaining_front_edges_to_mesh", T + "EdgeList::clear_edges", T + "EntityChecks::check_mesh_validity"
    lq = [R + k for k in loops]
    base = Int("base")
    st.pc += [base > 0]

    def eff(q, eng, f, this, vals, s2):
        if q == gf:
            return fe
        if q == init:
            return base
        if q in lq:
            return ok[q.split("::")[-1]]
        if q == chk:
            return valid
        return None
    after = {gf: [setup], init: [gf], rem: [init], add: lq[:1], clr: [add]}
    after.update({q: [init, rem] for q in lq})
    after.update({q: [clr, chk] for q in cl})
    steps(V, st, [setup, gf, init, rem] + lq + [add, clr, chk] + cl, after, eff)
    ex = V.run(R + fn, this=s, st=st)
    c = lambda q: ex.post.env["ghost:" + q]
    V.ensure(ex, "refuses-an-unprepared-mesh", Implies(nb < 1, And(Not(ex.ret), *[c(q) == 0 for q in lq + [add]])))
    V.ensure(ex, "complete-meshes-stay", Implies(And(nb >= 1, fe.n == 0), And(ex.ret, *[c(q) == 0 for q in lq + [init, rem] + cl])))
    go = And(nb >= 1, fe.n > 0)
    V.ensure(ex, "success-exactly-if-a-loop-succeeded", Implies(go, ex.ret == Or([ok[k] for k in loops])))
    V.ensure(ex, "remaining-front-is-kept-in-the-mesh", Implies(go, And(c(add) == 1, c(clr) == 1)))
    if fn == "generate_elements":
        V.ensure(ex, "second-attempt-exactly-after-a-failure", Implies(go, c(lq[1]) == If(ok[loops[0]], 0, 1)))


def c_remove_invalid(V):
    s, m, fl, st, O = begin(V)
    fe = V.e.named_val(V.e.t.shape("std::vector<TQMesh::Edge *>"), "frontedges")
    st.pc.append(fe.n >= 0)
    V.e.intercepts[T + "Mesh::get_front_edges"] = lambda eng, f, this, vals, s2: fe
    O.count(st, "remove-interior_edge")

    def body(h, end, k, ev):
        rm = of(ev, "remove-interior_edge")
        yield "nothing-else", BoolVal(not others(ev, ("remove-interior_edge",)))
        yield "removes-the-next-front-edge", And(number(rm) == 1, number(rm, lambda a: a["x"] == fe.el[()][k]) == 1)
    V.e.loopspecs = [lambda eng, L: [("body:removes", body)]]
    ex = V.run(M + "remove_invalid_mesh_edges", this=s, st=st)
    V.ensure(ex, "all-front-edges", O.counted(ex.post, "remove-interior_edge") == fe.n)


def c_remaining(V):
    s, m, fl, st, O = begin(V)
    f = V.w.find(T + "EdgeList::edges", const=True)
    q = contents(V, st.copy(), Loc("H", fl.a, path=fl.path, cls=F[:-2]))
    el = q.el[()]
    i = Int("i")
    st.pc += [q.n >= 0, ForAll([i], Implies(And(0 <= i, i < q.n), And(el[i] > 0, el[i] < st.nxt)), patterns=[el[i]])]
    pre = st.copy()

    def body(h, end, k, ev):
        e = el[k]
        v1, v2 = eobs(V, pre, e, "v1"), eobs(V, pre, e, "v2")
        ad = of(ev, "interior-edge")
        there = Or(O.ledge("interior", v1, v2) != 0, O.ledge("boundary", v1, v2) != 0)
        yield "nothing-else", BoolVal(not others(ev, ("interior-edge",)))
        yield "kept-as-interior-edge-unless-present", number(ad) == If(there, 0, 1)
        yield "between-its-vertices", And([Implies(x.guard, either(x.args["v"], [v1, v2])) for x in ad] + [True])
        for n, v in (("first", v1), ("second", v2)):
            yield "%s-vertex-leaves-the-front" % n, Not(O.flags.of(end, v, "on_front"))
    x = Int("anyv")
    keep = lambda s2: And([O.flags.of(s2, x, n) == O.flags.of(pre, x, n) for n in O.flags.k["Vertex"] if n != "on_front"])
    off = lambda s2: Implies(O.flags.of(s2, x, "on_front"), O.flags.of(pre, x, "on_front"))
    V.e.loopspecs = [lambda eng, L: [("body:keeps", body), ("other-flags", lambda s2, k: And(keep(s2), off(s2)))]]
    ex = V.run(M + "add_remaining_front_edges_to_mesh", this=s, st=st)
    V.ensure(ex, "other-flags-stay", And(keep(ex.post), off(ex.post)))


def c_initmesh(V):
    """front from a mesh: a copy of every front edge, with its vertices, colour and flags"""
    s = Int("self")
    st = V.state()
    st.pc += [s > 0, s < st.nxt]
    m = Int("mesh")
    O = MeshOps(V, m)
    O.nxt0 = st.nxt
    O.lists = {"front": s}
    fe = V.e.named_val(V.e.t.shape("std::vector<TQMesh::Edge *>"), "frontedges")
    el = fe.el[()]
    i = Int("i")
    st.pc += [m > 0, m < st.nxt, fe.n >= 0, ForAll([i], Implies(And(0 <= i, i < fe.n), And(el[i] > 0, el[i] < st.nxt)), patterns=[el[i]])]
    V.e.intercepts[T + "Mesh::get_front_edges"] = lambda eng, f, this, vals, s2: fe
    pre = st.copy()
    O.count(st, "front-edge")

    def body(h, end, k, ev):
        e = el[k]
        v1, v2 = eobs(V, pre, e, "v1"), eobs(V, pre, e, "v2")
        ad = of(ev, "front-edge")
        yield "nothing-else", BoolVal(not others(ev, ("front-edge",)))
        yield "one-front-edge-in-its-direction", And(number(ad) == 1, number(ad, lambda a: And(a["v"][0] == v1, a["v"][1] == v2)) == 1)
        yield "with-its-colour", number(ad, lambda a: a["color"] == eobs(V, pre, e, "color")) == 1
        for n in O.flags.k["Edge"]:
            yield "with-its-flag-" + n, number(ad, lambda a: O.flags.of(end, a["new"], n, "Edge") == O.flags.of(pre, e, n, "Edge")) == 1
        for n, v in (("first", v1), ("second", v2)):
            yield "%s-vertex-is-on-the-front" % n, O.flags.of(end, v, "on_front")
    V.e.loopspecs = [lambda eng, L: [("body:copies", body)]]
    f = [x for x in V.w.find(F + "init_front") if len(x.params) == 1]
    ex = V.run(f[0], this=s, args=[m], st=st)
    V.ensure(ex, "all-front-edges", O.counted(ex.post, "front-edge") == fe.n)


def contracts(V):
    V.section("triangulation/front-loop", c_loop, "advancing_front_loop", "advance_front_triangle")
    V.section("triangulation/exhaustive-loop", c_loop, "exhaustive_search_loop", "exhaustive_search_triangle")
    V.section("triangulation/exhaustive-triangle", c_search)
    V.section("triangulation/new-vertex", c_target)
    V.section("triangulation/generate", c_generate, "generate_elements", ["advancing_front_loop", "exhaustive_search_loop"])
    V.section("triangulation/generate-exhaustive", c_generate, "generate_elements_exhaustive", ["exhaustive_search_loop"])
    strategy(V)


def strategy(V):
    V.section("strategy/remove-invalid-edges", c_remove_invalid)
    V.section("strategy/remaining-front", c_remaining)
    V.section("strategy/init-front", c_initmesh)
