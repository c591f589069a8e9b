"""Contracts on the geometric predicates (src/utils/Geometry.h)."""
from z3 import *
from verif import *

TOL2 = RealVal("1/4503599627370496")      # DBL_EPSILON, bound on area2^2
G = "CppUtils::"


def A2(p, q, r):
    """twice the signed area of (p,q,r)"""
    return (q[0] - p[0]) * (r[1] - p[1]) - (q[1] - p[1]) * (r[0] - p[0])


def sub(a, b):
    return [a[0] - b[0], a[1] - b[1]]


def dot2(a, b):
    return a[0] * b[0] + a[1] * b[1]


def robust(a):
    return Or(a == 0, a * a >= TOL2)


def left(a):
    return And(a > 0, a * a >= TOL2)


def right(a):
    return And(a < 0, a * a >= TOL2)


def flatz(a):
    return a * a < TOL2


def same(a, b):
    return And(a[0] == b[0], a[1] == b[1])


def on_open(p, q, r):
    """r = p + u (q-p) with 0<u<1 (r exactly collinear)"""
    return And(A2(p, q, r) == 0, dot2(sub(r, p), sub(q, p)) > 0,
               dot2(sub(r, p), sub(q, p)) < dot2(sub(q, p), sub(q, p)))


def in_seg(p, q, r):
    return And(flatz(A2(p, q, r)), dot2(sub(r, p), sub(q, p)) > 0,
               dot2(sub(r, p), sub(q, p)) < dot2(sub(q, p), sub(q, p)))


def opp(a, b):
    return Or(And(left(a), right(b)), And(right(a), left(b)))


def crossing(p1, q1, p2, q2):
    return And(opp(A2(p1, q1, p2), A2(p1, q1, q2)), opp(A2(p2, q2, p1), A2(p2, q2, q1)))


def intersect(p1, q1, p2, q2):
    return Or(crossing(p1, q1, p2, q2), in_seg(p1, q1, p2), in_seg(p1, q1, q2),
              in_seg(p2, q2, p1), in_seg(p2, q2, q1))


def pts(V, ex):
    return [V.coords(a) for a in ex.args]


# ---------------------------------------------------------------- orientation
def c_orientation(V):
    ex = V.run(G + "orientation")
    p, q, r = pts(V, ex)
    a = A2(p, q, r)
    o = {k: V.w.enumconst["CppUtils::Orientation::" + k] for k in ("CW", "CCW", "CL")}
    V.ensure(ex, "counter-clockwise-iff-positive-area", (ex.ret == o["CCW"]) == left(a))
    V.ensure(ex, "clockwise-iff-negative-area", (ex.ret == o["CW"]) == right(a))
    V.ensure(ex, "collinear-iff-area-below-tolerance", (ex.ret == o["CL"]) == flatz(a))
    V.nothrow(ex)


def c_is_left(V):
    ex = V.run(G + "is_left")
    p, q, r = pts(V, ex)
    V.ensure(ex, "left-iff-positive-area", ex.ret == left(A2(p, q, r)))


def c_is_lefton(V):
    ex = V.run(G + "is_lefton")
    p, q, r = pts(V, ex)
    V.ensure(ex, "left-or-on-iff-not-right", ex.ret == Not(right(A2(p, q, r))))


def c_orientation_sym(V):
    """cyclic shifts keep, swaps reverse the classification (lemma over contract)"""
    p, q, r = [[Real(n + "x"), Real(n + "y")] for n in "pqr"]
    V.lemma("cyclic-invariance", [], A2(p, q, r) == A2(q, r, p))
    V.lemma("swap-reverses", [], A2(p, q, r) == -A2(q, p, r))


# ---------------------------------------------------------------- segments
def c_in_segment(V):
    ex = V.run(G + "in_segment")
    p, q, r = pts(V, ex)
    V.ensure(ex, "open-segment-membership", ex.ret == in_seg(p, q, r))
    t = Real("t")
    V.ensure(ex, "every-interior-point-is-in",
             Implies(And(0 < t, t < 1, Not(same(p, q)), r[0] == p[0] + t * (q[0] - p[0]),
                         r[1] == p[1] + t * (q[1] - p[1])), ex.ret))
    u = dot2(sub(r, p), sub(q, p)) / dot2(sub(q, p), sub(q, p))
    V.ensure(ex, "robust-members-are-interior-points",
             Implies(And(ex.ret, robust(A2(p, q, r))),
                     And(0 < u, u < 1, r[0] == p[0] + u * (q[0] - p[0]),
                         r[1] == p[1] + u * (q[1] - p[1]))))


def c_in_on_segment(V):
    ex = V.run(G + "in_on_segment")
    p, q, r = pts(V, ex)
    d, e = dot2(sub(r, p), sub(q, p)), dot2(sub(q, p), sub(q, p))
    V.ensure(ex, "closed-segment-membership", ex.ret == And(flatz(A2(p, q, r)), d >= 0, d <= e))
    t = Real("t")
    V.ensure(ex, "every-point-is-in",
             Implies(And(0 <= t, t <= 1, r[0] == p[0] + t * (q[0] - p[0]),
                         r[1] == p[1] + t * (q[1] - p[1])), ex.ret))


def seg_hyps(p1, q1, p2, q2):
    return [Not(same(p1, q1)), Not(same(p2, q2)),
            robust(A2(p1, q1, p2)), robust(A2(p1, q1, q2)),
            robust(A2(p2, q2, p1)), robust(A2(p2, q2, q1))]


def common(s, t, p1, q1, p2, q2):
    return And(p1[0] + s * (q1[0] - p1[0]) == p2[0] + t * (q2[0] - p2[0]),
               p1[1] + s * (q1[1] - p1[1]) == p2[1] + t * (q2[1] - p2[1]))


def c_crossing(V):
    ex = V.run(G + "line_line_crossing")
    p1, q1, p2, q2 = pts(V, ex)
    V.ensure(ex, "crossing-by-sides", ex.ret == crossing(p1, q1, p2, q2))


def c_crossing_geom(V):
    """crossing <=> the segments share a point interior to both (transversal)"""
    p, d, e, z = [[Real(n + "x"), Real(n + "y")] for n in ("p", "d", "e", "z")]
    s, t, K, b1, b2, b3, b4 = Reals("s t K b1 b2 b3 b4")
    cr = lambda u, v: u[0] * v[1] - u[1] * v[0]
    add = lambda u, v: [u[0] + v[0], u[1] + v[1]]
    # segments p -> p+d and z -> z+e
    q1, q2 = add(p, d), add(z, e)
    a1, a2, a3, a4 = A2(p, q1, z), A2(p, q1, q2), A2(z, q2, p), A2(z, q2, q1)
    V.lemma("side-identities", [], And(a3 - a4 == cr(d, e), a2 - a1 == cr(d, e)))
    V.lemma("cramer", [], And(a3 * d[0] + a1 * e[0] == cr(d, e) * (z[0] - p[0]),
                              a3 * d[1] + a1 * e[1] == cr(d, e) * (z[1] - p[1])))
    H = [opp(b1, b2), opp(b3, b4), b3 - b4 == K, b2 - b1 == K, s * K == b3, t * K == -b1]
    V.lemma("crossing-parameters-are-interior", H, And(0 < s, s < 1, 0 < t, t < 1, K != 0))
    f, g, h = Reals("f g h")
    V.lemma("crossing-segments-share-that-point",
            [K != 0, s * K == b3, t * K == -b1, b3 * f + b1 * g == K * h], s * f - t * g == h)
    # conversely: z = p + s d - t e
    z2 = [p[i] + s * d[i] - t * e[i] for i in range(2)]
    q2 = add(z2, e)
    V.lemma("sides-of-a-shared-point", [],
            And(A2(p, q1, z2) == -t * cr(d, e), A2(p, q1, q2) == (1 - t) * cr(d, e),
                A2(z2, q2, p) == s * cr(d, e), A2(z2, q2, q1) == -(1 - s) * cr(d, e)))
    V.lemma("shared-interior-point-of-transversal-segments-is-a-crossing",
            [0 < s, s < 1, 0 < t, t < 1, K != 0, b1 == -t * K, b2 == (1 - t) * K, b3 == s * K,
             b4 == -(1 - s) * K, robust(b1), robust(b2), robust(b3), robust(b4)],
            And(opp(b1, b2), opp(b3, b4)))


def c_intersection(V):
    ex = V.run(G + "line_line_intersection")
    p1, q1, p2, q2 = pts(V, ex)
    V.ensure(ex, "intersection-by-sides", ex.ret == intersect(p1, q1, p2, q2))


def c_intersection_geom(V):
    p1, q1, p2, q2 = [[Real(n + "x"), Real(n + "y")] for n in ("p1", "q1", "p2", "q2")]
    H = seg_hyps(p1, q1, p2, q2)
    s, t = Real("s"), Real("t")
    a1 = A2(p1, q1, p2)
    ident = Or(And(same(p1, p2), same(q1, q2)), And(same(p1, q2), same(q1, p2)))
    V.lemma("identical-segments-do-not-intersect", H + [ident], Not(intersect(p1, q1, p2, q2)))
    # an end point z of one segment inside the other: z = p + s d
    p, d, z = [[Real(n + "x"), Real(n + "y")] for n in ("p", "d", "z")]
    V.lemma("end-point-inside-the-other-segment-is-reported",
            [0 < s, s < 1, Not(And(d[0] == 0, d[1] == 0))],
            in_seg(p, [p[0] + d[0], p[1] + d[1]], [p[0] + s * d[0], p[1] + s * d[1]]))
    # collinear overlap: positions along the line of segment 1
    u, w = Real("u"), Real("w")
    V.lemma("collinear-overlap-is-reported",
            [Not(same(p1, q1)), p2[0] == p1[0] + u * (q1[0] - p1[0]), p2[1] == p1[1] + u * (q1[1] - p1[1]),
             q2[0] == p1[0] + w * (q1[0] - p1[0]), q2[1] == p1[1] + w * (q1[1] - p1[1]), u != w,
             # the open segments (0,1) and (u,w) have a common point
             If(u < w, And(u < 1, 0 < w), And(w < 1, 0 < u)), Not(ident)],
            intersect(p1, q1, p2, q2))


def c_facets(V):
    def chk(name, spec, n):
        ex = V.run(G + name)
        V.ensure(ex, name + "-is-any-edge-pair", ex.ret == spec(*pts(V, ex)))

    P4 = [[(0, 1), (1, 2), (2, 3), (3, 0)], [(0, 1), (1, 2), (2, 0)]]

    def edges(l):
        return [(l[i], l[(i + 1) % len(l)]) for i in range(len(l))]

    def anyi(e1, e2, f=intersect):
        return Or(*[f(a[0], a[1], b[0], b[1]) for a in e1 for b in e2])
    chk("line_tri_intersection", lambda a, b, p, q, r: anyi([(a, b)], edges([p, q, r])), 5)
    chk("line_tri_crossing", lambda a, b, p, q, r: anyi([(a, b)], edges([p, q, r]), crossing), 5)
    chk("line_quad_intersection", lambda a, b, p, q, r, s: anyi([(a, b)], edges([p, q, r, s])), 6)


def modular_intersection(V):
    """callers are checked against the contract of line_line_intersection: an
    abstract predicate of the four points"""
    LLI = Function("LLI", *([RealSort()] * 8), BoolSort())
    LLC = Function("LLC", *([RealSort()] * 8), BoolSort())

    def hook(P):
        def h(e, f, this, vals, st):
            c = []
            for v in vals:
                c += V.coords(e.load(v, st) if isinstance(v, (Loc, CondLoc)) else v)
            return P(*c)
        return h
    V.e.intercepts[G + "line_line_intersection"] = hook(LLI)
    V.e.intercepts[G + "line_line_crossing"] = hook(LLC)
    return (lambda a, b, c, d: LLI(*a, *b, *c, *d)), (lambda a, b, c, d: LLC(*a, *b, *c, *d))


def c_facets(V):
    I, C = modular_intersection(V)
    # the predicate does not depend on the order of segments or of end points
    args = [[Real("z%d%s" % (i, c)) for c in "xy"] for i in range(4)]

    def edges(l):
        return [(l[i], l[(i + 1) % len(l)]) for i in range(len(l))]

    def anyi(e1, e2, f):
        return mkor([f(a[0], a[1], b[0], b[1]) for a in e1 for b in e2])

    def sym(f, e1, e2):
        """symmetry instances (proved below as lemmas of the contract)"""
        out = []
        for a in e1:
            for b in e2:
                base = f(a[0], a[1], b[0], b[1])
                for x in (a, a[::-1]):
                    for y in (b, b[::-1]):
                        out.append(f(x[0], x[1], y[0], y[1]) == base)
                        out.append(f(y[0], y[1], x[0], x[1]) == base)
        return out

    def chk(name, split, f):
        ex = V.run(G + name)
        P = pts(V, ex)
        e1 = [(P[0], P[1])] if split == 2 else edges(P[:split])
        e2 = edges(P[split:])
        V.ensure(ex, name + "-iff-some-edge-pair", ex.ret == anyi(e1, e2, f), extra=sym(f, e1, e2))
    chk("line_tri_intersection", 2, I)
    chk("line_tri_crossing", 2, C)
    chk("line_quad_intersection", 2, I)
    chk("tri_tri_intersection", 3, I)
    chk("quad_quad_intersection", 4, I)
    chk("tri_quad_intersection", 3, I)


def c_intersection_sym(V):
    p1, q1, p2, q2 = [[Real(n + "x"), Real(n + "y")] for n in ("p1", "q1", "p2", "q2")]
    for nm, f in (("intersection", intersect), ("crossing", crossing)):
        V.lemma(nm + "-symmetric-in-segments", [], f(p1, q1, p2, q2) == f(p2, q2, p1, q1))
    # exchanging the end points of segment 1
    V.lemma("area-reverses", [], And(A2(q1, p1, p2) == -A2(p1, q1, p2), A2(q1, p1, q2) == -A2(p1, q1, q2)))
    dd = lambda p, q, r: dot2(sub(r, p), sub(q, p))
    V.lemma("projection-complements", [], And(dd(q1, p1, p2) == dd(p1, q1, q1) - dd(p1, q1, p2),
                                              dd(q1, p1, p1) == dd(p1, q1, q1)))
    a, b, c, d, e = Reals("a b c d e")
    V.lemma("crossing-symmetric-in-end-points", [],
            And(opp(a, b), opp(c, d)) == And(opp(-a, -b), opp(d, c)))
    V.lemma("membership-symmetric-in-end-points", [],
            And(flatz(a), d > 0, d < e) == And(flatz(-a), e - d > 0, e - d < e))


# ---------------------------------------------------------------- containment
def c_rect(V):
    ex = V.run(G + "rect_overlap")
    a, b, c, d = pts(V, ex)
    z = [Real("zx"), Real("zy")]
    inr = lambda v, lo, hi: And(lo[0] <= v[0], v[0] <= hi[0], lo[1] <= v[1], v[1] <= hi[1])
    V.ensure(ex, "common-point-implies-overlap", Implies(And(inr(z, a, b), inr(z, c, d)), ex.ret))
    mx = [If(a[i] > c[i], a[i], c[i]) for i in range(2)]
    V.ensure(ex, "overlap-implies-common-point",
             Implies(And(ex.ret, a[0] <= b[0], a[1] <= b[1], c[0] <= d[0], c[1] <= d[1]),
                     And(inr(mx, a, b), inr(mx, c, d))))
    ex = V.run(G + "in_on_rect")
    v, lo, hi = pts(V, ex)
    V.ensure(ex, "closed-rectangle", ex.ret == inr(v, lo, hi))
    ex = V.run(G + "in_rect")
    v, lo, hi = pts(V, ex)
    V.ensure(ex, "open-rectangle", ex.ret == And(lo[0] < v[0], v[0] < hi[0], lo[1] < v[1], v[1] < hi[1]))
    for nm, cmp in (("bbox_min", lambda x, y: If(x < y, x, y)), ("bbox_max", lambda x, y: If(x > y, x, y))):
        ex = V.run(G + nm)
        a, b = pts(V, ex)
        r = V.coords(ex.ret)
        V.ensure(ex, nm + "-componentwise", And(r[0] == cmp(a[0], b[0]), r[1] == cmp(a[1], b[1])))


def c_poly(V):
    def side(name, n, f):
        ex = V.run(G + name)
        P = pts(V, ex)
        v, c = P[0], P[1:]
        V.ensure(ex, name + "-by-sides",
                 ex.ret == And(*[f(A2(c[i], c[(i + 1) % n], v)) for i in range(n)]))
        return ex, v, c
    lefton = lambda a: Not(right(a))
    ex, v, c = side("in_triangle", 3, left)
    # convex combinations: exactly the interior of a counter-clockwise triangle
    l = [Real("l%d" % i) for i in range(3)]
    c = [[Real("c%d%s" % (i, k)) for k in "xy"] for i in range(3)]
    a, b = Real("a"), [Real("b%d" % i) for i in range(3)]
    comb = [l[0] * c[0][k] + l[1] * c[1][k] + (1 - l[0] - l[1]) * c[2][k] for k in range(2)]
    V.lemma("barycentric-areas", [],
            And(A2(c[1], c[2], comb) == l[0] * A2(*c), A2(c[2], c[0], comb) == l[1] * A2(*c),
                A2(c[0], c[1], comb) == (1 - l[0] - l[1]) * A2(*c)))
    V.lemma("interior-points-are-inside",
            [a > 0] + [And(l[i] > 0, b[i] == l[i] * a, robust(b[i])) for i in range(3)],
            And(*[left(b[i]) for i in range(3)]))
    v = [Real("vx"), Real("vy")]
    V.lemma("areas-sum-up", [], A2(c[1], c[2], v) + A2(c[2], c[0], v) + A2(c[0], c[1], v) == A2(*c))
    V.lemma("areas-locate-the-point", [],
            And(*[A2(c[1], c[2], v) * c[0][k] + A2(c[2], c[0], v) * c[1][k] + A2(c[0], c[1], v) * c[2][k]
                  == A2(*c) * v[k] for k in range(2)]))
    V.lemma("inside-points-are-interior",
            [a > 0, b[0] + b[1] + b[2] == a] + [And(left(b[i]), b[i] == l[i] * a) for i in range(3)],
            And(l[0] > 0, l[1] > 0, l[2] > 0, l[0] + l[1] + l[2] == 1))
    ex, v, c = side("in_on_triangle", 3, lefton)
    ex, v, c = side("in_quad", 4, left)
    ex, v, c = side("in_on_quad", 4, lefton)


# ---------------------------------------------------------------- distance / area
def c_distance(V):
    for q in V.w.find(G + "distance_point_edge_sqr"):
        ex = V.run(q)
        p, a, b = pts(V, ex)
        n = len(p)
        d = [b[i] - a[i] for i in range(n)]
        L = sum(x * x for x in d)
        t = Real("t")
        D = lambda t: sum((p[i] - a[i] - t * d[i]) * (p[i] - a[i] - t * d[i]) for i in range(n))
        V.ensure(ex, "not-larger-than-any-point-of-the-segment",
                 Implies(And(L > 0, 0 <= t, t <= 1), ex.ret <= D(t)))
        s = sum((p[i] - a[i]) * d[i] for i in range(n)) / L
        tc = If(s < 0, RealVal(0), If(s > 1, RealVal(1), s))
        V.ensure(ex, "attained-on-the-segment", Implies(L > 0, And(0 <= tc, tc <= 1, ex.ret == D(tc))))


def c_polygon_area(V):
    f = V.w.one("CppUtils::polygon_area")
    q = V.e.named_val(("Q", V.e.t.shape("CppUtils::VecND<double, 2>")), "P")
    (kx, X), (ky, Y) = sorted(q.el.items(), key=str)
    n = q.n
    S = Function("SHOELACE", IntSort(), RealSort())
    T = Function("TRAPEZOID", IntSort(), RealSort())
    i = Int("i")
    nx = lambda i: If(i + 1 == n, IntVal(0), i + 1)
    term = lambda i: X[i] * Y[nx(i)] - X[nx(i)] * Y[i]
    trap = lambda i: (Y[i] + Y[nx(i)]) * (X[i] - X[nx(i)])
    ax = [S(0) == 0, ForAll([i], Implies(And(i >= 0, i < n), S(i + 1) == S(i) + term(i)), patterns=[S(i+1)]),
          T(0) == 0, ForAll([i], Implies(And(i >= 0, i < n), T(i + 1) == T(i) + trap(i)), patterns=[T(i+1)])]
    def spec(e, L):
        out = [("axiom:S", lambda k: Implies(And(k >= 0, k < n), S(k + 1) == S(k) + term(k))),
               ("axiom:T", lambda k: Implies(And(k >= 0, k < n), T(k + 1) == T(k) + trap(k)))]
        for c in L.local_cells(RealSort()):
            for m, F in (("shoelace", S), ("trapezoid", T)):
                for g in (1, 2, -1, -2):
                    out.append(("g:%s%d-%s" % (m, g, str(c[1])[-4:]), lambda s, k, c=c, F=F, g=g: g * L.cell(s, c) == F(k)))
        return out
    V.e.loopspecs = [spec]
    st = V.state(); st.pc += ax + [n >= 0]
    ex = V.run(f, args=[q], st=st)
    # lemma by induction: both folds agree after a full round
    k = Int("kk")
    inv = lambda k: T(k) == S(k) + X[IntVal(0)] * Y[IntVal(0)] - If(k == n, X[IntVal(0)] * Y[IntVal(0)], X[k] * Y[k])
    V.lemma("folds-agree/initially", ax + [n > 0], inv(IntVal(0)))
    V.lemma("folds-agree/step", ax + [k >= 0, k < n, inv(k)], inv(k + 1))
    V.ensure(ex, "signed-area-by-shoelace-formula", 2*ex.ret == S(n), extra=[Implies(n > 0, inv(n))])


def c_overlap(V):
    ex = V.run(G + "segment_overlap")
    a, b, c, d = pts(V, ex)
    V.ensure(ex, "same-segment-in-either-direction",
             ex.ret == Or(And(same(a, c), same(b, d)), And(same(a, d), same(b, c))),
             extra=[])


def orient(V):
    V.section("orientation", c_orientation)
    V.section("is_left", c_is_left)
    V.section("is_lefton", c_is_lefton)
    V.section("orientation-lemmas", c_orientation_sym)


def seg(V):
    V.section("in_segment", c_in_segment)
    V.section("in_on_segment", c_in_on_segment)
    V.section("line_line_crossing", c_crossing)
    V.section("crossing-geometry", c_crossing_geom)
    V.section("line_line_intersection", c_intersection)
    V.section("intersection-geometry", c_intersection_geom)
    V.section("intersection-symmetry", c_intersection_sym)
    V.section("facet-intersections", c_facets)
    V.section("segment_overlap", c_overlap)


def cont(V):
    V.section("rectangles", c_rect)
    V.section("triangle-quad-containment", c_poly)


def dist(V):
    V.section("distance_point_edge_sqr", c_distance)
    V.section("polygon_area", c_polygon_area)


def contracts(V):
    orient(V)
    seg(V)
    cont(V)
    dist(V)
