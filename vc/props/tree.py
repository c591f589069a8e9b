"""Contracts on the spatial index (QuadTree.h) and the containers (Container.h).

Every statement is made for one arbitrary item X (so it holds for each item).
N[t] is the number of occurrences of X in the subtree of t (ghost), CT(a,n) the
number of occurrences of X among the first n elements of a list."""
from z3 import *
from verif import *
from props.size import seq

G = "CppUtils::"
Q = G + "QuadTree<TQMesh::Vertex, double>::"
X, Y = Ints("ghostX ghostY")
AS = ArraySort(IntSort(), IntSort())
CTF = z3.Function("CT", AS, IntSort(), IntSort(), IntSort())


def ct(a, n, x):
    """occurrences of x in the first n elements; element stores at the end are peeled off"""
    a, n = simplify(a), simplify(n)
    if is_app(n) and n.decl().kind() == Z3_OP_ITE:
        c, p, q = n.children()
        ap = a.arg(1) if is_app(a) and a.decl().kind() == Z3_OP_ITE and a.arg(0).eq(c) else a
        aq = a.arg(2) if is_app(a) and a.decl().kind() == Z3_OP_ITE and a.arg(0).eq(c) else a
        return If(c, ct(ap, p, x), ct(aq, q, x))
    if is_app(a) and a.decl().kind() == Z3_OP_ITE:
        return If(a.arg(0), ct(a.arg(1), n, x), ct(a.arg(2), n, x))
    if is_app(a) and a.decl().kind() == Z3_OP_STORE:
        b, i, v = a.children()
        d = simplify(n - i, som=True)
        if is_int_value(d):
            if d.as_long() <= 0:
                return ct(b, n, x)
            if d.as_long() == 1:
                return If(i < 0, CTF(a, n, x), ct(b, i, x) + If(v == x, 1, 0))
    if is_int_value(n) and n.as_long() <= 0:
        return IntVal(0)
    return CTF(a, n, x)


def step(a, k, x):
    """definition of CT at k"""
    return And(CTF(a, 0, x) == 0, Implies(k >= 0, CTF(a, k + 1, x) == CTF(a, k, x) + If(a[k] == x, 1, 0)))


def bounds(a, n, x):
    """lemma (see c_lemmas): 0 <= CT <= n"""
    return Implies(n >= 0, And(0 <= CTF(a, n, x), CTF(a, n, x) <= n))


def c_lemmas(V):
    a, b = Consts("a b", AS)
    k, i, x, v = Ints("k i x v")
    V.lemma("count-is-between-0-and-length/step", [k >= 0, step(a, k, x), bounds(a, k, x)], bounds(a, k + 1, x))
    V.lemma("count-is-between-0-and-length/start", [step(a, k, x)], bounds(a, IntVal(0), x))
    # the count does not depend on elements at or behind n
    s = Store(a, i, v)
    same = lambda k: Implies(k <= i, CTF(s, k, x) == CTF(a, k, x))
    V.lemma("elements-behind-do-not-count/start", [step(a, k, x), step(s, k, x)], same(IntVal(0)))
    V.lemma("elements-behind-do-not-count/step", [k >= 0, step(a, k, x), step(s, k, x), same(k)], same(k + 1))
    V.lemma("append-counts-the-new-element", [i >= 0, step(s, i, x), same(i)], CTF(s, i + 1, x) == CTF(a, i, x) + If(v == x, 1, 0))
    occ = lambda k: (CTF(a, k, x) > 0) == Exists([i], And(0 <= i, i < k, a[i] == x))
    V.lemma("counted-iff-it-occurs/start", [step(a, k, x)], occ(IntVal(0)))
    V.lemma("counted-iff-it-occurs/step", [k >= 0, step(a, k, x), bounds(a, k, x), occ(k)], occ(k + 1))


class Tr:
    """a tree node in a state"""
    def __init__(self, V, st, t):
        self.V, self.st, self.t = V, st, t

    def o(self, n):
        r = self.V.obs(self.st, self.t, Q + n, nparams=0, const=True)
        return r

    @property
    def lo(self):
        return self.V.coords(self.o("lowleft"))

    @property
    def up(self):
        return self.V.coords(self.o("upright"))

    @property
    def split(self):
        return self.o("split")

    @property
    def items(self):
        q = self.o("items")
        return q.n, q.el[()]

    @property
    def size(self):
        return self.o("size")

    @property
    def kids(self):
        c = self.o("children")
        return [c.sub(self.V.e.t, (i,)) for i in range(4)]

    def has(self, p):
        return And(self.lo[0] <= p[0], p[0] <= self.up[0], self.lo[1] <= p[1], p[1] <= self.up[1])


def vxy(V, st, v):
    return V.at(st, v)


def inv(V, st, t, N, gh):
    """the data-structure invariant of node t, seen from outside the subtrees of its children"""
    T = Tr(V, st, t)
    n, a = T.items
    kids = T.kids
    out = [n >= 0]
    if isinstance(T.split, bool):
        raise Unsupported("split")
    leaf, spl = [], [n == 0] + [And(c > 0, c < st.nxt) for c in kids]
    for x in gh:
        cnt = sum([N[x][c] for c in kids])
        out += [N[x][t] >= 0, Implies(N[x][t] > 0, T.has(vxy(V, st, x))), N[x][t] <= T.size]
        out += [bounds(a, n, x)]
        leaf += [N[x][t] == ct(a, n, x)]
        spl += [N[x][t] == cnt] + [N[x][c] >= 0 for c in kids]
    return out + [If(T.split, And(spl), And(leaf))]


def ghosts(gh):
    return {x: Array("N_" + str(x), IntSort(), IntSort()) for x in gh}


def in_rect(p, lo, up):
    return And(lo[0] <= p[0], p[0] <= up[0], lo[1] <= p[1], p[1] <= up[1])


def d2(p, c):
    return (p[0] - c[0]) * (p[0] - c[0]) + (p[1] - c[1]) * (p[1] - c[1])


def vec(V, name):
    v = V.e.named_val(V.e.t.shape("CppUtils::VecND<double, 2>"), name)
    return v, V.coords(v)


def query_setup(V, circ, gh, D=None):
    N = ghosts(gh)
    fs = [f for f in V.w.find(Q + "get_items", nparams=4) if ("CircQuery" in f.ftype) == circ]

    def hit(x, st, q):
        if D is not None:
            return D(x) < q[1] * q[1]
        p = vxy(V, st, x)
        return d2(p, q[0]) < q[1] * q[1] if circ else in_rect(p, q[0], q[1])

    def post(st, t, q, f0, f1, ret):
        """contract of get_items on subtree t"""
        out = [ret == f1.n - f0.n, f1.n >= f0.n]
        for x in gh:
            out.append(ct(f1.el[()], f1.n, x) == ct(f0.el[()], f0.n, x) + If(hit(x, st, q), N[x][t], 0))
        return out

    def h(eng, f, this, vals, st):
        if f is not fs[0]:
            raise Unsupported("other overload")
        t = V.refof(this)
        ld = lambda v: eng.load(v, st) if isinstance(v, (Loc, CondLoc)) else v
        q = [V.coords(ld(vals[0])), ld(vals[1]) if circ else V.coords(ld(vals[1]))]
        f0 = ld(vals[2])
        f1 = eng.named_val(("Q", REF), fresh_name("found"))
        r = fresh("nf", IntSort())
        if circ:
            eng.obls.append(Obl("radius-of-recursive-query", list(st.pc), q[1] >= 0, fn=f.qname, kind="requires"))
        st.pc += post(st, t, q, f0, f1, r) + [bounds(f1.el[()], f1.n, x) for x in gh]
        eng.store(vals[2], f1, st)
        return r
    return fs[0], N, h, post, hit


def c_items(V, circ):
    gh = [X]
    f, N, h, post, hit = query_setup(V, circ, gh)
    t = Int("self")
    st = V.state()
    st.pc += [t > 0, t < st.nxt, X > 0, X < st.nxt] + inv(V, st, t, N, gh)
    V.e.intercepts[Q + "get_items"] = h
    _, c = cv = vec(V, "q1")
    dv = vec(V, "q2")
    r = Real("radius")
    k1 = fresh_name("fnd")
    f0 = V.e.named_val(("Q", REF), "found0")
    st.pc += [f0.n >= 0]
    st.env[k1] = f0
    if circ:
        st.pc.append(r >= 0)
    q = [cv[1], r if circ else dv[1]]
    n, a = Tr(V, st, t).items
    pre = st.copy()

    def spec(eng, L):
        out = [("axiom:ct", lambda k: And(step(a, k, X), step(a, IntVal(0), X)))]
        cell = lambda s: eng.load(Loc("L", k1), s)
        for x in gh:
            out.append(("counts", lambda s, k: And(cell(s).n >= f0.n, ct(cell(s).el[()], cell(s).n, x) ==
                                                   ct(f0.el[()], f0.n, x) + If(hit(x, pre, q), ct(a, k, x), 0))))
        for c in L.local_cells(IntSort()):
            if c not in L.ind:
                out.append(("g:number-found", lambda s, k, c=c: L.cell(s, c) == cell(s).n - f0.n))
        return out
    V.e.loopspecs = [spec]
    ex = V.run(f, args=[cv[0], r if circ else dv[0], Loc("L", k1), DEFAULT], this=t, st=st)
    f1 = V.e.load(Loc("L", k1), ex.post)
    for i, g in enumerate(post(pre, t, q, f0, f1, ex.ret)):
        V.ensure(ex, ("reports-the-number-found", "keeps-earlier-results", "finds-exactly-the-stored-items-in-the-query-each-as-often-as-stored")[i], g)


def leaf_post(V, st, t, N, gh, p, r):
    """contract of get_leaf: none exactly outside the region, else a leaf below t"""
    L = Tr(V, st, r)
    n, a = L.items
    out = [(r == 0) == Not(Tr(V, st, t).has(p)),
           Implies(r != 0, And(r > 0, r < st.nxt, L.has(p), n >= 0))]
    for x in gh:
        out += [Implies(r != 0, ct(a, n, x) <= N[x][t])]
    out += [Implies(r != 0, L.o("scale") > 0)]
    return out


def c_leaf(V):
    gh = [X]
    N = ghosts(gh)
    t = Int("self")
    st = V.state()
    pt, p = vec(V, "pt")
    Tt = Tr(V, st, t)
    st.pc += [t > 0, t < st.nxt] + inv(V, st, t, N, gh)
    # the regions of the children cover the region
    st.pc += [Implies(Tt.split, And([Tr(V, st, c).o("scale") > 0 for c in Tt.kids])), Tt.o("scale") > 0]

    def h(eng, f, this, vals, s):
        r = fresh("leaf", IntSort())
        c = V.refof(this)
        s.pc += leaf_post(V, s, c, N, gh, V.coords(eng.load(vals[0], s)), r)
        return r
    V.e.intercepts[Q + "get_leaf"] = h
    pre = st.copy()
    ex = V.run(Q + "get_leaf", args=[pt], this=t, st=st)
    nm = ["none-exactly-outside-the-region", "a-node-whose-region-has-the-point", "its-items-are-stored-here", "it-has-an-extent"]
    for n, g in zip(nm, leaf_post(V, pre, t, N, gh, p, ex.ret)):
        V.ensure(ex, n, g)


def c_nearest(V):
    """X: any stored item, Y: any item"""
    gh = [X, Y]
    D = z3.Function("DIST2", IntSort(), RealSort())     # squared distance to the query point
    f, N, h, post, hit = query_setup(V, True, gh, D)
    t = Int("self")
    st = V.state()
    pt, p = vec(V, "pt")
    BIG = num(1.7976931348623157e308)
    Tt = Tr(V, st, t)
    st.pc += [t > 0, t < st.nxt, X > 0, Y > 0, Tt.o("scale") > 0] + inv(V, st, t, N, gh)
    dist = lambda s, v: d2(vxy(V, s, v), p)
    for x in gh:
        st.pc += [D(x) == dist(st, x), D(x) >= 0, D(x) < BIG]

    def leaf(eng, f, this, vals, s):
        r = fresh("leaf", IntSort())
        s.pc += leaf_post(V, s, V.refof(this), N, gh, V.coords(eng.load(vals[0], s)), r)
        return r
    V.e.intercepts[Q + "get_leaf"] = leaf
    V.e.intercepts[Q + "get_items"] = h
    pre = st.copy()

    def spec(eng, L):
        out = []
        reals = [c for c in L.local_cells(RealSort())]
        for k0, v in L.head.env.items():
            if isinstance(v, Seq) and v.esh == REF and ("L", k0, "n") in L.mod:
                get = lambda s, k0=k0: s.env[k0]
                out.append(("axiom:b", lambda k, v=v: And([bounds(v.el[()], v.n, x) for x in gh])))
                for c in reals:
                    out.append(("start", lambda s, k, c=c: Implies(k == 0, L.cell(s, c) == L.cell(L.base, c))))
                    for x in gh:
                        out.append(("holds-the-query", lambda s, k, c=c, x=x, get=get: And(L.cell(s, c) >= 0, get(s).n >= 0,
                            ct(get(s).el[()], get(s).n, x) == If(hit(x, pre, [p, L.cell(s, c)]), N[x][t], 0))))
        # the search is enlarged only while there is no winner
        for w in L.base.env.values():
            if is_expr(w) and w.sort() == IntSort() and not is_int_value(w):
                out.append(("enlarged-only-without", lambda s, k, w=w: Implies(k > 0, w == 0)))
        refs = [c for c in L.local_cells(IntSort()) if c not in L.ind]
        for a in L.sequences():
            if a.esh != REF:
                continue
            el = a.el[()]
            out.append(("axiom:ct", lambda k, el=el, a=a: And([step(el, k, x) for x in gh] + [step(el, IntVal(0), x) for x in gh] + [bounds(el, k, x) for x in gh] + [
                D(el[k]) == dist(pre, el[k]), D(el[k]) >= 0, Implies(And(0 <= k, k < a.n), And(D(el[k]) < BIG, el[k] > 0))])))
            for c in reals:
                out.append(("least-so-far", lambda s, k, el=el, a=a, c=c: Implies(ct(el, k, X) > 0, L.cell(s, c) <= D(X))))
                for r in refs:
                    out.append(("winner-attains-it", lambda s, k, el=el, a=a, c=c, r=r: And(Implies(L.cell(s, r) != 0, And(
                        L.cell(s, r) > 0, D(L.cell(s, r)) >= 0, L.cell(s, c) == D(L.cell(s, r)))), Implies(L.cell(s, r) == 0, L.cell(s, c) == BIG))))
            for r in refs:
                out.append(("some-winner", lambda s, k, el=el, a=a, r=r: Implies(Or(k > 0, L.cell(L.base, r) != 0), L.cell(s, r) != 0)))
                out.append(("winner-is-stored", lambda s, k, el=el, a=a, r=r: Or(L.cell(s, r) != Y, ct(el, k, Y) > 0, L.cell(L.base, r) == Y)))
                for c in reals:
                    out.append(("no-farther", lambda s, k, el=el, a=a, c=c: L.cell(s, c) <= L.cell(L.base, c)))
        return out + [("only", None)]
    V.e.loopspecs = [spec]
    ex = V.run(Q + "get_nearest", args=[pt, DEFAULT], this=t, st=st)
    V.ensure(ex, "finds-an-item-if-one-is-stored", Implies(N[X][t] > 0, ex.ret != 0))
    V.ensure(ex, "a-stored-item", Implies(ex.ret == Y, N[Y][t] > 0))
    V.ensure(ex, "no-stored-item-is-nearer", Implies(And(N[X][t] > 0, ex.ret == Y), D(Y) <= D(X)))


def contracts(V):
    V.section("tree/lemmas", c_lemmas)
    V.section("tree/rectangle-query", c_items, False)
    V.section("tree/radius-query", c_items, True)
    V.section("tree/leaf", c_leaf)
    V.section("tree/nearest", c_nearest)
