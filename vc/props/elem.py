"""Contracts on the metrics of edges, triangles and quadrilaterals.

The observers of the real classes are evaluated in the state that the
constructor / update_metrics() leaves, so the contract speaks about what a
user can read, not about private fields."""
from z3 import *
from verif import *

T = "TQMesh::"
from fractions import Fraction
NORM = RealVal(str(Fraction(3.4641016151377544)))     # the double nearest to 2*sqrt(3)


def sub(a, b):
    return [a[0] - b[0], a[1] - b[1]]


def cross(a, b):
    return a[0] * b[1] - a[1] * b[0]


def dot(a, b):
    return a[0] * b[0] + a[1] * b[1]


def dist2(a, b):
    return dot(sub(a, b), sub(a, b))


def elem(V, cls, n, how):
    """(execution, vertex coordinates, element reference)"""
    if how == "constructed":
        # Facet* stored in adjacency lists: not of interest here
        ex = V.run(T + cls + "::" + cls, nparams=n)
        vs = ex.args
    else:
        s = Int("self")
        st = V.state()
        st.pc.append(And(s > 0, s < st.nxt))
        vs = [V.obs(st, s, T + cls + "::vertex", [IntVal(i)], const=True) for i in range(n)]
        ex = V.run(T + cls + "::update_metrics", args=[BoolVal(False)], this=s, st=st)
    s = ex.this.a
    P = [V.at(ex.pre, v) for v in vs]
    return ex, P, s, vs


def shoelace2(P):
    n = len(P)
    return sum(P[i][0] * P[(i + 1) % n][1] - P[(i + 1) % n][0] * P[i][1] for i in range(n))


def c_metrics(V, cls, n, how):
    ex, P, s, vs = elem(V, cls, n, how)
    o = lambda nm, a=(): V.obs(ex.post, s, T + cls + "::" + nm, list(a), const=True)
    V.ensure(ex, "signed-area-is-half-the-shoelace-sum", 2 * o("area") == shoelace2(P))
    if how == "constructed":
        c = V.coords(o("xy"))
        V.ensure(ex, "position-is-the-vertex-mean", And([n * c[i] == sum(p[i] for p in P) for i in (0, 1)]))
        for i in range(n):
            V.ensure(ex, "vertex%d-is-the-given-one" % i, o("vertex", [IntVal(i)]) == vs[i])
            V.ensure(ex, "v%d-is-the-given-one" % (i + 1), o("v%d" % (i + 1)) == vs[i])
    L = [o("edgelength", [IntVal(i)]) for i in range(n)]
    for i in range(n):
        V.ensure(ex, "edge-length-%d-is-the-vertex-distance" % i,
                 And(L[i] >= 0, L[i] * L[i] == dist2(P[i], P[(i + 1) % n])))
    V.ensure(ex, "smallest-edge-length", And(Or([o("min_edge_length") == l for l in L]),
                                             And([o("min_edge_length") <= l for l in L])))
    V.ensure(ex, "largest-edge-length", And(Or([o("max_edge_length") == l for l in L]),
                                            And([o("max_edge_length") >= l for l in L])))
    A = [o("angle", [IntVal(i)]) for i in range(n)]
    for i in range(n):
        a, b = sub(P[(i + 1) % n], P[i]), sub(P[i - 1], P[i])
        la, lb = L[i], L[i - 1]
        # two terms: an argument of acos is determined up to equality of reals
        w = Real("cosw%d" % i)
        V.ensure(ex, "angle-%d-at-its-vertex" % i, A[i] == V.e.acos(w),
                 extra=[la > 0, lb > 0, w * (la * lb) == dot(a, b), w >= -1, w <= 1])
    w, la, lb, ax, ay, bx, by = Reals("w la lb ax ay bx by")
    z = ax * bx + ay * by
    V.lemma("cauchy-schwarz", [], z * z <= (ax * ax + ay * ay) * (bx * bx + by * by))
    V.lemma("a-cosine-lies-in-minus-one-to-one", [la > 0, lb > 0, w * (la * lb) == z, z * z <= la * la * (lb * lb)],
            And(w >= -1, w <= 1))
    V.ensure(ex, "smallest-angle", And(Or([o("min_angle") == a for a in A]), And([o("min_angle") <= a for a in A])))
    V.ensure(ex, "largest-angle", And(Or([o("max_angle") == a for a in A]), And([o("max_angle") >= a for a in A])))
    cc, cr = V.coords(o("circumcenter")), o("circumradius")
    if n == 3:
        V.ensure(ex, "circumradius-reaches-first-vertex", And(cr >= 0, cr * cr == dist2(cc, P[0])))
        B, C, u = sub(P[1], P[0]), sub(P[2], P[0]), sub(cc, P[0])
        bs = Reals("Bx By Cx Cy")
        pre = [cross(bs[:2], bs[2:]) != 0] + [x == y for x, y in zip(bs, B + C)]
        for nm, W in (("second", bs[:2]), ("third", bs[2:])):
            V.ensure(ex, "circumcenter-on-the-bisector-of-first-and-%s-vertex" % nm, 2 * dot(W, u) == dot(W, W), extra=pre)
        w, z = Reals("wx wy"), Reals("zx zy")
        V.lemma("bisector-means-equal-distance", [2 * dot(w, z) == dot(w, w)], dot(sub(z, w), sub(z, w)) == dot(z, z))
    else:
        V.ensure(ex, "circumcenter-is-the-vertex-mean", And([4 * cc[i] == sum(p[i] for p in P) for i in (0, 1)]))
        V.ensure(ex, "circumradius-covers-all-vertices",
                 And(And([V.e.sqrt(dist2(cc, p)) <= cr for p in P]), Or([V.e.sqrt(dist2(cc, p)) == cr for p in P])))
    # validity and quality
    V.ensure(ex, "valid-iff-area-and-lengths-positive",
             o("is_valid") == And(shoelace2(P) > 0, And([l > 0 for l in L])))
    h = Real("h")
    fac = RealVal(1)
    for l in L:
        fac = fac * If(l / h < h / l, l / h, h / l)
    pre = [h > 0] + [l > 0 for l in L]
    sl = sum(l * l for l in L)
    V.ensure(ex, "quality-is-shape-times-size-factors",
             o("quality", [h]) == NORM * o("area") / sl * fac, extra=pre + [sl > 0], abstract=L + [o("area")])


def c_quality_lemma(V):
    """a valid triangle has a quality in (0,1], 1 only for equilateral ones of size h"""
    x, y, a = Reals("qx qy qa")
    # triangle (0,0),(a,0),(x,y) with positive area; l1..l3 squared
    l1, l2, l3 = a * a, (x - a) * (x - a) + y * y, x * x + y * y
    V.lemma("triangle-shape-factor-at-most-one", [a > 0, y > 0, NORM >= 3],
            (l1 + l2 + l3) * (l1 + l2 + l3) >= 12 * (a * y / 2) * (a * y / 2) * 4)


def c_edge(V, how):
    if how == "constructed":
        ex = V.run(T + "Edge::Edge", nparams=4)
        v1, v2 = ex.args[:2]
    else:
        s = Int("self")
        st = V.state()
        st.pc.append(And(s > 0, s < st.nxt))
        v1, v2 = [V.obs(st, s, T + "Edge::" + x, const=True) for x in ("v1", "v2")]
        ex = V.run(T + "Edge::update_metrics", args=[BoolVal(False)], this=s, st=st)
    s = ex.this.a
    o = lambda nm, a=(): V.obs(ex.post, s, T + "Edge::" + nm, list(a), const=True)
    p, q = V.at(ex.pre, v1), V.at(ex.pre, v2)
    l, t, n = o("length"), V.coords(o("tangent")), V.coords(o("normal"))
    V.ensure(ex, "length-is-the-vertex-distance", And(l >= 0, l * l == dist2(p, q)))
    d = sub(q, p)
    V.ensure(ex, "unit-tangent-from-first-to-second-vertex", And(t[0] * l == d[0], t[1] * l == d[1]), extra=[l > 0])
    V.ensure(ex, "tangent-has-length-one", t[0] * t[0] + t[1] * t[1] == 1, extra=[l > 0])
    V.ensure(ex, "normal-is-tangent-turned-left", And(n[0] == -t[1], n[1] == t[0]), extra=[l > 0])
    V.ensure(ex, "normal-points-left", cross(d, n) > 0, extra=[l > 0])
    if how == "constructed":
        m = V.at(ex.post, s, "TQMesh::Edge")
        V.ensure(ex, "position-is-the-midpoint", And([2 * m[i] == p[i] + q[i] for i in (0, 1)]))
        V.ensure(ex, "endpoints-as-given", And(o("v1") == v1, o("v2") == v2))
        V.ensure(ex, "marker-as-given", o("color") == ex.args[3])
        V.ensure(ex, "list-as-given", o("edgelist") == ex.args[2])


def metrics(V):
    for how in ("constructed", "updated"):
        V.section("triangle-" + how, c_metrics, "Triangle", 3, how)
        V.section("quad-" + how, c_metrics, "Quad", 4, how)
        V.section("edge-" + how, c_edge, how)


# ------------------------------------------------------------------ local indices
def c_indices(V, cls, n):
    slot = {3: [2, 0, 1], 4: [3, 0, 1, 2]}[n]        # slot of the edge (i, i+1)
    s = Int("self")

    def start():
        st = V.state()
        st.pc.append(And(s > 0, s < st.nxt))
        vs = [V.obs(st, s, T + cls + "::vertex", [IntVal(i)], const=True) for i in range(n)]
        st.pc.append(Distinct(vs))
        return st, vs
    st, vs = start()
    ex = V.run(T + cls + "::get_vertex_index", this=s, st=st)
    a = ex.args[0]
    for i in range(n):
        V.ensure(ex, "index-of-vertex-%d" % i, (ex.ret == i) == (a == vs[i]))
    V.ensure(ex, "minus-one-iff-no-vertex", (ex.ret == -1) == And([a != v for v in vs]))
    st, vs = start()
    ex = V.run(T + cls + "::get_edge_index", this=s, st=st)
    a, b = ex.args
    for i in range(n):
        j = (i + 1) % n
        V.ensure(ex, "index-of-edge-%d-%d" % (i, j),
                 (ex.ret == slot[i]) == Or(And(a == vs[i], b == vs[j]), And(a == vs[j], b == vs[i])))
    V.ensure(ex, "minus-one-iff-no-edge", (ex.ret == -1) == Not(Or([
        Or(And(a == vs[i], b == vs[(i + 1) % n]), And(a == vs[(i + 1) % n], b == vs[i])) for i in range(n)])))
    st, vs = start()
    ex = V.run(T + cls + "::n_vertices", this=s, st=st)
    V.ensure(ex, "number-of-vertices", ex.ret == n)
    # neighbour slots
    for i in range(n):
        st, vs = start()
        f = Int("nbr")
        set_ = V.w.one(T + cls + "::neighbor", nparams=2)
        ex = V.run(set_, args=[IntVal(i), f], this=s, st=st)
        for j in range(n):
            old = V.obs(ex.pre, s, T + cls + "::neighbor", [IntVal(j)], nparams=1)
            new = V.obs(ex.post, s, T + cls + "::neighbor", [IntVal(j)], nparams=1)
            V.ensure(ex, "neighbour-%d-after-setting-%d" % (j, i), new == (f if i == j else old))
        st, vs = start()
        ex = V.run(T + cls + "::nbr%d" % (i + 1), args=[f], this=s, st=st, nparams=1)
        for j in range(n):
            old = V.obs(ex.pre, s, T + cls + "::nbr%d" % (j + 1), nparams=0)
            new = V.obs(ex.post, s, T + cls + "::neighbor", [IntVal(j)], nparams=1)
            V.ensure(ex, "named-neighbour-%d-after-setting-%d" % (j, i), new == (f if i == j else old))
    for nm in ("color", "index"):
        st, vs = start()
        ex = V.run(T + cls + "::" + nm, this=s, st=st, nparams=1)
        V.ensure(ex, nm + "-set", V.obs(ex.post, s, T + cls + "::" + nm, nparams=0) == ex.args[0])


def indices(V):
    V.section("triangle-indices", c_indices, "Triangle", 3)
    V.section("quad-indices", c_indices, "Quad", 4)


def contracts(V):
    metrics(V)
    indices(V)
