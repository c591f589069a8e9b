"""Contracts on entity flags and on the vertex-edge-facet adjacency lists."""
from z3 import *
from verif import *

T = "TQMesh::"


def flags(V, cls, names, extra):
    enum = T + cls + "Property::"
    C = {n: IntVal(V.w.enumconst[enum + n]) for n in names}
    s, p = Int("self"), Int("prop")
    bit = lambda v, n: V.e.bits(v)[C[n].as_long().bit_length() - 1]
    vals = sorted(c.as_long() for c in C.values())
    V.lemma("flags-are-distinct-single-bits", [], BoolVal(
        len(set(vals)) == len(vals) and all(v > 0 and v & (v - 1) == 0 and v < 256 for v in vals)))

    def start():
        st = V.state()
        st.pc += [s > 0, s < st.nxt, p >= 0, p < 256]
        f = V.obs(st, s, T + cls + "::properties", const=True)
        st.pc += [f >= 0, f < 256]
        return st
    has = lambda st, n: V.obs(st, s, T + cls + "::has_property", [C[n]])
    for op, want in (("add_property", lambda o, b: Or(o, b)), ("remove_property", lambda o, b: And(o, Not(b))),
                     ("set_property", lambda o, b: b)):
        ex = V.run(T + cls + "::" + op, args=[p], this=s, st=start())
        for n in names:
            V.ensure(ex, "%s/%s" % (op, n), has(ex.post, n) == want(has(ex.pre, n), bit(p, n)))
        f = V.obs(ex.post, s, T + cls + "::properties", const=True)
        V.ensure(ex, "%s/stays-a-flag-set" % op, And(f >= 0, f < 256))
    st = start()
    ex = V.run(T + cls + "::has_no_property", this=s, st=st)
    f = V.obs(ex.post, s, T + cls + "::properties", const=True)
    V.ensure(ex, "no-property-iff-empty", ex.ret == (f == 0))
    for g, n, pos in extra:
        ex = V.run(T + cls + "::" + g, this=s, st=start())
        V.ensure(ex, g, ex.ret == (has(ex.pre, n) if pos else Not(has(ex.pre, n))))
    if cls == "Edge":
        ex = V.run(T + "Edge::Edge", nparams=4)
        V.ensure(ex, "new-edge-has-no-flags", V.obs(ex.post, ex.this.a, T + "Edge::properties", const=True) == 0)
    else:
        for f in V.w.find(T + "Vertex::Vertex"):
            if len(f.params) not in (3, 4):
                continue
            ex = V.run(f)
            o = lambda n: V.obs(ex.post, ex.this.a, T + "Vertex::" + n, nparams=0)
            V.ensure(ex, "new-vertex-has-no-flags%d" % len(f.params), V.obs(ex.post, ex.this.a, T + "Vertex::properties", const=True) == 0)
            xy = V.at(ex.post, ex.this.a)
            if len(f.params) == 4:
                V.ensure(ex, "new-vertex-as-given", And(xy[0] == ex.args[0], xy[1] == ex.args[1],
                                                        o("mesh_size") == ex.args[2], o("size_range") == ex.args[3]))
            else:
                c = V.coords(ex.args[0])
                V.ensure(ex, "new-vertex-as-given", And(xy[0] == c[0], xy[1] == c[1],
                                                        o("mesh_size") == ex.args[1], o("size_range") == ex.args[2]))


def prop_flags(V):
    V.section("vertex-flags", flags, "Vertex", ["on_front", "in_quad_layer", "is_fixed", "on_boundary"],
              [("on_front", "on_front", True), ("on_boundary", "on_boundary", True), ("is_fixed", "is_fixed", True),
               ("in_quad_layer", "in_quad_layer", True)])
    V.section("edge-flags", flags, "Edge", ["on_boundary", "is_fixed", "is_ghost"],
              [("on_boundary", "on_boundary", True), ("is_fixed", "is_fixed", True), ("is_ghost", "is_ghost", True),
               ("is_interior", "on_boundary", False)])


# ------------------------------------------------------------------ adjacency
def lst(V, st, v, kind):
    """the adjacency list of vertex v (edges or facets) as (n, elements)"""
    q = V.obs(st, v, T + "Vertex::" + kind, nparams=0, const=True)
    (k, el), = q.el.items()
    return q.n, el


def mem(V, st, v, kind, x):
    n, el = lst(V, st, v, kind)
    i = Int(fresh_name("mi"))
    return Exists([i], And(0 <= i, i < n, el[i] == x))


def wf(V, st):
    """list lengths are not negative"""
    v = Int(fresh_name("v"))
    out = []
    for k in ("edges", "facets"):
        n, el = lst(V, st, v, k)
        out.append(ForAll([v], n >= 0))
        i = Int(fresh_name("i"))
        out.append(ForAll([v, i], Implies(And(0 <= i, i < n), el[i] > 0)))
    return out


def change(V, ex, kind, name, ref, vs, add):
    """membership of every entity x in the list of every vertex v: only ref, only at vs"""
    v, x = Ints("anyv anyx")
    old, new = mem(V, ex.pre, v, kind, x), mem(V, ex.post, v, kind, x)
    at = And(x == ref, Or([v == u for u in vs]))
    goal = new == (Or(old, at) if add else And(old, Not(at)))
    V.ensure(ex, name, goal)


def c_registration(V):
    ex = V.run(T + "Edge::Edge", nparams=4, pre=lambda ex, st: wf(V, st))
    change(V, ex, "edges", "creation-registers-the-edge-at-both-ends-only", ex.this.a, ex.args[:2], True)
    change(V, ex, "facets", "creation-leaves-facet-lists", IntVal(0), [], True)
    for cls, n in (("Triangle", 3), ("Quad", 4)):
        ex = V.run(T + cls + "::" + cls, nparams=n, pre=lambda ex, st: wf(V, st))
        change(V, ex, "facets", "creation-registers-the-%s-at-its-vertices-only" % cls.lower(), ex.this.a, ex.args, True)
        change(V, ex, "edges", "creation-of-%s-leaves-edge-lists" % cls.lower(), IntVal(0), [], True)


def c_removal(V, cls, n):
    s = Int("self")
    st = V.state()
    st.pc += [s > 0, s < st.nxt] + wf(V, st)
    if cls == "Edge":
        vs = [V.obs(st, s, T + "Edge::" + x, const=True) for x in ("v1", "v2")]
    else:
        vs = [V.obs(st, s, T + cls + "::vertex", [IntVal(i)], const=True) for i in range(n)]
    st.pc += [And(v > 0, v < st.nxt) for v in vs]
    if cls != "Edge":
        st.pc.append(Distinct(vs))
    ex = V.run(T + cls + "::container_destructor", this=s, st=st)
    k, o = ("edges", "facets") if cls == "Edge" else ("facets", "edges")
    change(V, ex, k, "removal-unregisters-at-its-vertices-only", s, vs, False)
    change(V, ex, o, "removal-leaves-the-other-lists", IntVal(0), [], True)


def c_lists(V):
    for kind, cls in (("edge", "Edge"), ("facet", "Facet")):
        for op, add in (("add_", True), ("remove_", False)):
            ex = V.run(T + "Vertex::" + op + kind, pre=lambda ex, st: wf(V, st))
            change(V, ex, kind + "s", op + kind, ex.args[0], [ex.this.a], add)
    for f in V.w.find(T + "Vertex::is_adjacent"):
        k = "edges" if "Edge" in f.ftype else "facets"
        ex = V.run(f, pre=lambda ex, st: wf(V, st))
        V.ensure(ex, "adjacent-iff-in-the-%s-list" % k, ex.ret == mem(V, ex.pre, ex.this.a, k, ex.args[0]))


def c_next(V, which):
    mine, other = ("v2", "v1") if which == "next" else ("v1", "v2")
    ex = V.run(T + "Edge::get_%s_edge" % which, pre=lambda ex, st: wf(V, st))
    s = ex.this.a
    o = lambda e, n: V.obs(ex.pre, e, T + "Edge::" + n, const=True)
    hub = o(s, mine)

    def good(e):
        return And(e != s, o(e, "edgelist") == o(s, "edgelist"), o(e, other) == hub)
    n, el = lst(V, ex.pre, hub, "edges")
    i = Int("wi")
    V.ensure(ex, "result-is-a-matching-edge-of-the-shared-vertex",
             Implies(ex.ret != 0, And(mem(V, ex.pre, hub, "edges", ex.ret), good(ex.ret))))
    V.ensure(ex, "none-only-if-no-edge-matches",
             Implies(And(ex.ret == 0, 0 <= i, i < n, el[i] != 0), Not(good(el[i]))))


def adjacency(V):
    V.section("registration", c_registration)
    for c, n in (("Edge", 2), ("Triangle", 3), ("Quad", 4)):
        V.section("removal-" + c.lower(), c_removal, c, n)
    V.section("lists", c_lists)
    V.section("next-edge", c_next, "next")
    V.section("previous-edge", c_next, "prev")


def contracts(V):
    prop_flags(V)
    adjacency(V)
