"""Contracts on the local mesh size (Domain.h)."""
from z3 import *
from verif import *
from engine import EXPF

T = "TQMesh::"


def seq(V, st, loc):
    """the sequence a range-for over this object runs over"""
    return V.e.load(V.e.as_sequence(loc, st), st)


def dom(V, st, d):
    """(number of boundaries, boundary i, number of edges of b, edge i of b, fixed vertices)"""
    B = seq(V, st, Loc("H", d, cls=T + "Domain"))

    def edges(b):
        f = V.w.find(T + "Boundary::edges", const=True) or V.w.find(T + "EdgeList::edges", const=True)
        s = st.copy()
        loc = V.e.inline(f[0], Loc("H", b, cls=T + "Boundary"), [], s)
        return seq(V, s, loc)
    F = V.obs(st, d, T + "Domain::fixed_vertices", const=True)
    return B, edges, F


def exp_axioms():
    x = Real("xexp")
    return [ForAll([x], EXPF(x) > 0, patterns=[EXPF(x)]),
            ForAll([x], Implies(x <= 0, EXPF(x) <= 1), patterns=[EXPF(x)])]


def mn(a, b):
    return If(a < b, a, b)


def mx(a, b):
    return If(a > b, a, b)


class Size:
    """the defining blends, from the text of the property"""
    def __init__(self, V, st, d, xy, hf):
        self.V, self.st, self.xy, self.hf = V, st, xy, hf
        self.B, self.edges, self.F = dom(V, st, d)

    def vert(self, v):
        o = lambda n: self.V.obs(self.st, v, T + "Vertex::" + n, nparams=0, const=True)
        return self.V.at(self.st, v), o("mesh_size"), o("size_range")

    def d2(self, p):
        q = self.xy
        return (q[0] - p[0]) * (q[0] - p[0]) + (q[1] - p[1]) * (q[1] - p[1])

    def edge(self, e):
        V, hf = self.V, self.hf
        el = V.obs(self.st, e, T + "Edge::length", const=True)
        r = mx(hf / el, el / hf)
        out = []
        for n in ("v1", "v2"):
            p, h, s = self.vert(V.obs(self.st, e, T + "Edge::" + n, const=True))
            inv = 1 / (r * If(s <= 0, el, s))
            z = EXPF(-self.d2(p) * inv * inv)
            out.append(z * mn(If(h <= 0, hf, h), el) + (1 - z) * hf)
        return out, el

    def fixed(self, v):
        p, h, s = self.vert(v)
        inv = 1 / If(s <= 0, self.hf, s)
        z = EXPF(-self.d2(p) * inv * inv)
        return h > 0, z * h + (1 - z) * self.hf


def c_evaluate(V):
    f = V.w.find(T + "SizeFunction::evaluate")[0]
    d, fun = Int("dom"), Int("self")
    st = V.state()
    st.pc += [d > 0, d < st.nxt, fun > 0, fun < st.nxt]
    xy = V.e.named_val(V.e.t.shape("CppUtils::VecND<double, 2>"), "xy")
    c = V.coords(xy)
    uf = V.obs(st, fun, T + "SizeFunction::user_size_function", const=True)
    k = fresh_name("xyarg")
    st.env[k] = xy
    hf = z3.Function("CALL_2_real", IntSort(), RealSort(), RealSort(), RealSort())(
        uf.term if isinstance(uf, Opq) else uf, c[0], c[1])
    S = Size(V, st, d, c, hf)
    e, b, i, v = Ints("ee bi ei vi")
    R1 = z3.Function("blend1", IntSort(), RealSort())
    R2 = z3.Function("blend2", IntSort(), RealSort())
    RF = z3.Function("blendF", IntSort(), RealSort())
    SF = z3.Function("sizedF", IntSort(), BoolSort())
    def def_edge(x):
        (c1, c2), el = S.edge(x)
        return And(R1(x) == c1, R2(x) == c2)

    def def_fixed(x):
        sz, cf = S.fixed(x)
        return And(SF(x) == sz, RF(x) == cf)
    defs = []
    NE = z3.Function("nedges", IntSort(), IntSort())
    EE = z3.Function("edge_of", IntSort(), IntSort(), IntSort())
    eb = S.edges(b)
    defs += [ForAll([b], NE(b) == eb.n, patterns=[NE(b)]),
             ForAll([b, i], EE(b, i) == eb.el[()][i], patterns=[EE(b, i)])]
    st.pc += defs + [S.B.n >= 0, S.F.n >= 0, hf > 0]
    bb, ff = S.B.el[()], S.F.el[()]
    bounded = lambda h, x: And(h <= R1(x), h <= R2(x))
    hit = lambda h, x: Or(h == R1(x), h == R2(x))

    def all_b(h, n):
        return ForAll([b, i], Implies(And(0 <= b, b < n, 0 <= i, i < NE(bb[b])), bounded(h, EE(bb[b], i))),
                      patterns=[EE(bb[b], i)])

    def ex_b(h, n):
        return Exists([b, i], And(0 <= b, b < n, 0 <= i, i < NE(bb[b]), hit(h, EE(bb[b], i))))

    def all_f(h, n):
        return ForAll([v], Implies(And(0 <= v, v < n, SF(ff[v])), h <= RF(ff[v])), patterns=[ff[v]])

    def ex_f(h, n):
        return Exists([v], And(0 <= v, v < n, SF(ff[v]), h == RF(ff[v])))

    def spec(eng, L):
        out = []
        its = [(n, x) for n, x in L.head.env.items() if isinstance(x, Iter) and ("L", n, "i") in L.ind]
        hs = [x for x in L.local_cells(RealSort()) if x not in L.ind]
        if len(its) != 1:
            return None
        q = eng.load(its[0][1].loc, L.head)
        a = q.el[()]
        for x in hs:
            h = lambda s, x=x: L.cell(s, x)
            h0 = h(L.base)
            out.append(("decreasing", lambda s, n, h=h, h0=h0: h(s) <= h0))
            if a.eq(bb):
                out.append(("below-all-blends-so-far", lambda s, n, h=h: all_b(h(s), n)))
                out.append(("attained-so-far", lambda s, n, h=h, h0=h0: Or(h(s) == h0, ex_b(h(s), n))))
            elif a.eq(ff):
                out.append(("axiom:def", lambda n: def_fixed(a[n])))
                out.append(("below-all-fixed-so-far", lambda s, n, h=h: all_f(h(s), n)))
                out.append(("attained-by-fixed-so-far", lambda s, n, h=h, h0=h0: Or(h(s) == h0, ex_f(h(s), n))))
            else:
                out.append(("axiom:def", lambda n: def_edge(a[n])))
                j = Int(fresh_name("ej"))
                out.append(("below-edge-blends-so-far", lambda s, n, h=h, j=j: ForAll([j], Implies(
                    And(0 <= j, j < n), bounded(h(s), a[j])), patterns=[a[j]])))
                out.append(("attained-by-edges-so-far", lambda s, n, h=h, h0=h0, j=j: Or(
                    h(s) == h0, Exists([j], And(0 <= j, j < n, hit(h(s), a[j]))))))
        return out + [("only", None)]
    V.e.loopspecs = [spec]
    ex = V.run(f, args=[Loc("L", k), Loc("H", d, cls=T + "Domain")], this=fun, st=st)
    h = ex.ret
    V.ensure(ex, "not-above-the-users-size", h <= hf)
    V.ensure(ex, "not-above-any-boundary-blend", all_b(h, S.B.n))
    V.ensure(ex, "not-above-any-fixed-vertex-blend", all_f(h, S.F.n))
    V.ensure(ex, "equals-the-users-size-or-one-of-the-blends", Or(h == hf, ex_b(h, S.B.n), ex_f(h, S.F.n)))
    V.nothrow(ex)
    z, m, u = Reals("z m u")
    V.lemma("blends-of-positive-sizes-are-positive", [0 < z, z <= 1, m > 0, u > 0], z * m + (1 - z) * u > 0, fn=f.qname)


def c_domain(V):
    """Domain::size_function evaluates its own size function over itself"""
    q = T + "SizeFunction::evaluate"
    calls = []

    def h(eng, f, this, vals, st):
        calls.append((this, vals, [V.coords(eng.load(vals[0], st) if isinstance(vals[0], (Loc, CondLoc)) else vals[0])]))
        return Real("evaluated")
    V.e.intercepts[q] = h
    ex = V.run(T + "Domain::size_function")
    c = V.coords(ex.args[0])
    ok = len(calls) == 1
    V.ensure(ex, "the-domains-own-size-function-at-the-point", And(ex.ret == Real("evaluated"), calls[0][2][0][0] == c[0],
             calls[0][2][0][1] == c[1], V.refof(calls[0][1][1]) == ex.this.a) if ok else BoolVal(False))
    this = calls[0][0]
    V.lemma("own-size-function", [], BoolVal(isinstance(this, Loc) and this.kind == "H" and this.a.eq(ex.this.a)), fn=ex.fn.qname)


def contracts(V):
    V.section("size/evaluate", c_evaluate)
    V.section("size/domain", c_domain)
