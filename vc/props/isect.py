"""Contracts on the collision queries of elements and vertices against the
entities near them.  The geometric predicates (P02, P03, P05) and the spatial
lookup (P11) are used through their contracts."""
from z3 import *
from verif import *

T = "TQMesh::"
G = "CppUtils::"
R = RealSort()


class Env:
    pass


def setup(V):
    """intercept predicates and lookups; returns the environment"""
    E = Env()
    E.lookups = []
    e = V.e

    def pred(name, sort=BoolSort()):
        def h(eng, f, this, vals, st):
            c = []
            for v in vals:
                c += V.coords(eng.load(v, st) if isinstance(v, (Loc, CondLoc)) else v)
            return z3.Function("P_" + name, *([R] * len(c)), sort)(*c)
        e.intercepts[G + name] = h

        def g(*pts):
            c = [x for p in pts for x in p]
            return z3.Function("P_" + name, *([R] * len(c)), sort)(*c)
        setattr(E, name, g)
    for n in ("tri_tri_intersection", "tri_quad_intersection", "quad_quad_intersection", "line_tri_crossing",
              "line_tri_intersection", "line_quad_intersection", "in_triangle", "in_on_triangle", "in_quad", "in_on_quad"):
        pred(n)
    pred("distance_point_edge_sqr", R)

    def lookup(q, esh):
        def h(eng, f, this, vals, st):
            if len(vals) != 2:
                raise Unsupported("lookup")
            s = eng.named_val(("Q", esh), "near%d" % len(E.lookups))
            st.pc.append(s.n >= 0)
            i = Int(fresh_name("li"))
            st.pc.append(ForAll([i], Implies(And(0 <= i, i < s.n), s.el[()][i] > 0)))
            c = eng.load(vals[0], st) if isinstance(vals[0], (Loc, CondLoc)) else vals[0]
            r = eng.load(vals[1], st) if isinstance(vals[1], (Loc, CondLoc)) else vals[1]
            E.lookups.append((q, this, V.coords(c), r, s))
            return s
        return h
    for c in ("Triangle", "Quad", "Vertex", "Edge"):
        q = G + "Container<TQMesh::%s>::get_items" % c
        e.intercepts[q] = lookup(q, REF)
    for q in (T + "Domain::get_boundary_edges", T + "Mesh::get_intr_edges", T + "Mesh::get_bdry_edges"):
        e.intercepts[q] = lookup(q, REF)
    INS = z3.Function("P_is_inside", IntSort(), BoolSort())

    def inside(eng, f, this, vals, st):
        return INS(V.refof(vals[0]))
    e.intercepts[T + "Domain::is_inside"] = inside
    E.is_inside = INS
    return E


def ent(V, st):
    xy = lambda v: V.at(st, v)
    tri = lambda t: [xy(V.obs(st, t, T + "Triangle::vertex", [IntVal(i)], const=True)) for i in range(3)]
    quad = lambda t: [xy(V.obs(st, t, T + "Quad::vertex", [IntVal(i)], const=True)) for i in range(4)]
    edge = lambda t: [xy(V.obs(st, t, T + "Edge::" + n, const=True)) for n in ("v1", "v2")]
    return xy, tri, quad, edge


def exists(s, f):
    i = Int(fresh_name("ex"))
    return Exists([i], And(0 <= i, i < s.n, f(s.el[()][i])))


def one_lookup(V, ex, E, center, radius, kind):
    V.lemma("looks-around-itself", list(ex.pre.pc),
            And(E.lookups[-1][2][0] == center[0], E.lookups[-1][2][1] == center[1], E.lookups[-1][3] == radius)
            if len(E.lookups) == 1 else BoolVal(False), fn=ex.fn.qname)
    q, this, c, r, s = E.lookups[-1]
    return s


def pick(V, q, arg):
    fs = [f for f in V.w.find(q) if arg in (f.params[0]["type"].get("desugaredQualType") or f.params[0]["type"]["qualType"])
          or arg in f.params[0]["type"]["qualType"]]
    if not fs:
        raise cast.ExtractionError("%s(%s)" % (q, arg))
    return fs[0]


def c_elem(V, cls, what):
    E = setup(V)
    me = Int("self")
    st = V.state()
    st.pc += [me > 0, me < st.nxt]
    n = 3 if cls == "Triangle" else 4
    own = [V.obs(st, me, T + cls + "::vertex", [IntVal(i)], const=True) for i in range(n)]
    xy, tri, quad, edge = ent(V, st)
    P = [xy(v) for v in own]
    c = V.coords(V.obs(st, me, T + cls + "::xy", const=True))
    active = lambda t, k: V.obs(st, t, T + k + "::is_active", const=True)
    mid = lambda t, k: V.coords(V.obs(st, t, T + k + "::xy", const=True))
    inside = E.in_triangle if n == 3 else E.in_quad
    insideon = E.in_on_triangle if n == 3 else E.in_on_quad
    rng = Real("range")
    pre = st.copy()
    if what == "vertex":
        ex = V.run(pick(V, T + cls + "::intersects_vertex", "Vertex &"), this=me, st=st)
        v = ex.args[0]
        V.ensure(ex, "true-iff-a-foreign-vertex-lies-inside-or-on",
                 ex.ret == And(And([v != o for o in own]), insideon(xy(v), *P)))
        return
    if what == "vertices":
        f = [g for g in V.w.find(T + cls + "::intersects_vertex", nparams=2)][0]
        ex = V.run(f, args=[None, rng], this=me, st=st)
        s = one_lookup(V, ex, E, c, rng, "Vertex")
        want = exists(s, lambda v: And(And([v != o for o in own]), insideon(xy(v), *P)))
    elif what == "domain":
        ex = V.run(T + cls + "::intersects_domain", this=me, st=st)
        if n == 3:
            s = one_lookup(V, ex, E, c, V.obs(pre, me, T + "Triangle::max_edge_length", const=True), "Edge")
            want = exists(s, lambda e: E.line_tri_crossing(*edge(e), *P))
        else:
            V.ensure(ex, "true-iff-some-vertex-not-inside", ex.ret == Or([Not(E.is_inside(v)) for v in own]))
            return
    elif what == "front":
        ex = V.run([f for f in V.w.find(T + cls + "::intersects_front")][0], args=[None, rng], this=me, st=st)
        s = one_lookup(V, ex, E, c, rng, "Edge")
        lp = E.line_tri_intersection if n == 3 else E.line_quad_intersection
        want = exists(s, lambda e: lp(*edge(e), *P))
    elif what == "triangles":
        ex = V.run([f for f in V.w.find(T + cls + "::intersects_triangle")][0], args=[None, rng], this=me, st=st)
        s = one_lookup(V, ex, E, c, rng, "Triangle")
        if n == 3:
            want = exists(s, lambda t: And(t != me, active(t, "Triangle"), Or(
                E.tri_tri_intersection(*tri(t), *P), E.in_triangle(mid(t, "Triangle"), *P), E.in_triangle(c, *tri(t)))))
        else:
            want = exists(s, lambda t: And(active(t, "Triangle"), Or(
                E.tri_quad_intersection(*tri(t), *P), E.in_quad(mid(t, "Triangle"), *P), E.in_triangle(c, *tri(t)))))
    elif what == "quads":
        ex = V.run([f for f in V.w.find(T + cls + "::intersects_quad")][0], args=[None, rng], this=me, st=st)
        s = one_lookup(V, ex, E, c, rng, "Quad")
        if n == 3:
            want = exists(s, lambda t: And(active(t, "Quad"), Or(
                E.tri_quad_intersection(*P, *quad(t)), E.in_triangle(mid(t, "Quad"), *P), E.in_quad(c, *quad(t)))))
        else:
            want = exists(s, lambda t: And(t != me, active(t, "Quad"), Or(
                E.quad_quad_intersection(*P, *quad(t)), E.in_quad(mid(t, "Quad"), *P), E.in_quad(c, *quad(t)))))
    elif what == "too-close":
        md = Real("min_dist_sqr")
        f = V.w.find(T + "QuadGeometry::is_too_close")[0]
        ex = V.run(f, args=[Loc("H", me, cls=T + "Quad"), None, rng, md], st=st)
        s = one_lookup(V, ex, E, c, rng, "Edge")

        def close(e):
            ends = [V.obs(pre, e, T + "Edge::" + k, const=True) for k in ("v1", "v2")]
            near = Or([E.distance_point_edge_sqr(xy(v), P[i], P[(i + 1) % 4]) < md for v in ends for i in range(4)])
            return And(And([v != o for v in ends for o in own]), near)
        want = exists(s, close)
    V.ensure(ex, "true-iff-some-neighbour-collides", ex.ret == want, extra=swaps())


def swaps():
    """the facet predicates do not depend on the order of their two facets (P02)"""
    out = []
    for nm, k in (("tri_tri_intersection", 6), ("quad_quad_intersection", 8)):
        F = z3.Function("P_" + nm, *([R] * (2 * k)), BoolSort())
        a, b = [Real("sa%d" % i) for i in range(k)], [Real("sb%d" % i) for i in range(k)]
        out.append(ForAll(a + b, F(*a, *b) == F(*b, *a), patterns=[F(*a, *b)]))
    return out


def c_vertex(V, cls):
    E = setup(V)
    st = V.state()
    me = Int("self")
    st.pc += [me > 0, me < st.nxt]
    xy, tri, quad, edge = ent(V, st)
    rng = Real("range")
    f = [g for g in V.w.find(T + "Vertex::intersects_facet") if cls in g.ftype][0]
    pre = st.copy()
    ex = V.run(f, args=[None, rng], this=me, st=st)
    s = one_lookup(V, ex, E, xy(me), rng, cls)
    n = 3 if cls == "Triangle" else 4
    own = lambda t: [V.obs(pre, t, T + cls + "::vertex", [IntVal(i)], const=True) for i in range(n)]
    ino = E.in_on_triangle if n == 3 else E.in_on_quad
    V.ensure(ex, "true-iff-inside-or-on-a-near-foreign-element",
             ex.ret == exists(s, lambda t: And(And([me != o for o in own(t)]), ino(xy(me), *[xy(o) for o in own(t)]))))


def c_mesh_edges(V):
    E = setup(V)
    st = V.state()
    me = Int("self")
    st.pc += [me > 0, me < st.nxt]
    xy, tri, quad, edge = ent(V, st)
    rng, lim = Reals("range limit")
    f = V.w.find(T + "Vertex::intersects_mesh_edges")[0]
    ex = V.run(f, args=[None, rng, lim], this=me, st=st)
    V.lemma("looks-at-interior-and-boundary-edges", [], BoolVal(
        sorted(l[0] for l in E.lookups) == sorted([T + "Mesh::get_intr_edges", T + "Mesh::get_bdry_edges"])), fn=f.qname)
    for q, this, c, r, s in E.lookups:
        V.lemma("looks-around-itself-" + q.split("::")[-1], list(ex.pre.pc), And(c[0] == xy(me)[0], c[1] == xy(me)[1], r == rng), fn=f.qname)
    V.ensure(ex, "true-iff-some-edge-within-the-limit", ex.ret == Or([
        exists(l[4], lambda e: E.distance_point_edge_sqr(xy(me), *edge(e)) <= lim * lim) for l in E.lookups]))


def contracts(V):
    for cls in ("Triangle", "Quad"):
        for w in ("vertex", "vertices", "domain", "front", "triangles", "quads") + (("too-close",) if cls == "Quad" else ()):
            V.section("%s-against-%s" % (cls.lower(), w), c_elem, cls, w)
        V.section("vertex-against-%ss" % cls.lower(), c_vertex, cls)
    V.section("vertex-against-mesh-edges", c_mesh_edges)
