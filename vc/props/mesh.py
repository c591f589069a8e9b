"""Contracts of the mesh operations (Mesh.h), used as callee contracts by the
algorithms that change a mesh, and recorded as events of an iteration."""
from z3 import *
from verif import *
from loops import Event
from props.size import seq

T = "TQMesh::"
G = "CppUtils::"


def arg(eng, v, st):
    return eng.load(v, st) if isinstance(v, (Loc, CondLoc)) else v


FLG = z3.Function("FLAG", IntSort(), IntSort(), BoolSort())


class Flags:
    """flag operations by their contracts (discharged for P08): FLG(set, flag)"""
    def __init__(self, V):
        self.V = V
        self.k = {}
        for cls in ("Vertex", "Edge"):
            self.k[cls] = {n.split("::")[-1]: v for n, v in V.w.enumconst.items() if n.startswith(T + cls + "Property::") and v > 0}
            for op in ("add", "remove", "set", "has"):
                V.e.intercepts[T + cls + "::%s_property" % op] = lambda eng, f, this, vals, st, op=op, cls=cls: self.op(op, cls, eng, this, vals, st)

    def has(self, p, v):
        p = simplify(p)
        if is_int_value(p):
            return BoolVal(bool(p.as_long() & v))
        if is_app(p) and p.decl().kind() == Z3_OP_ITE:
            return If(p.arg(0), self.has(p.arg(1), v), self.has(p.arg(2), v))
        return FLG(p, IntVal(v))

    def op(self, op, cls, eng, this, vals, st):
        V = self.V
        a = simplify(arg(eng, vals[0], st))
        r = V.refof(this)
        p = V.obs(st, r, T + cls + "::properties", const=True)
        if op == "has":
            if not is_int_value(a):
                raise Unsupported("unknown flag")
            return self.has(p, a.as_long())
        n = fresh("flags", IntSort())
        f = {"add": lambda o, b: Or(o, b), "remove": lambda o, b: And(o, Not(b)), "set": lambda o, b: b}[op]
        for v in self.k[cls].values():
            st.pc.append(FLG(n, IntVal(v)) == f(self.has(p, v), self.has(a, v)))
        g = V.w.one(T + cls + "::properties", const=True)
        loc = None
        for k in V.e.fieldshape:
            if str(k).endswith("%s::properties_" % cls):
                loc = Loc("H", r, path=(k,))
        if loc is None:
            raise Unsupported("no flags")
        eng.store(loc, n, st)
        return None

    def of(self, st, r, name, cls="Vertex"):
        return self.has(self.V.obs(st, r, T + cls + "::properties", const=True), self.k[cls][name])


NV = z3.Function("NV", IntSort(), IntSort())                  # number of vertices of an element
NULLF = Int("NullFacet")


def facets(V, st):
    """calls through the element interface: the real Triangle or Quad function, by NV"""
    ic = V.e.intercepts
    ic[T + "NullFacet::get_instance"] = lambda eng, f, this, vals, st: Loc("H", NULLF, cls=T + "NullFacet")
    st.pc += [NULLF > 0, NULLF < st.nxt, NV(NULLF) == 0]
    for k in ("min_edge_length", "max_edge_length", "min_angle", "max_angle"):
        ic[T + "Facet::" + k] = lambda eng, f, this, vals, st: fresh("metric", RealSort())

    def hook(eng, f, this, vals, s):
        if f.rec is None or f.rec.qname != T + "Facet":
            return NotImplemented
        r = V.refof(this)
        outs = []
        for cls, n in (("Triangle", 3), ("Quad", 4)):
            g = [x for x in V.w.find(T + cls + "::" + f.name) if x.ftype == f.ftype]
            if not g:
                raise Unsupported("no override of " + f.qname)
            s2 = s.copy(NV(r) == n)
            ret = eng.inline(g[0], Loc("H", r, cls=T + cls), list(vals), s2)
            if isinstance(ret, Loc) and ret.kind == "H" and not ret.path:
                ret = ("ref", ret.a, ret.cls)
            outs.append((s2, ret))
        m = eng.merge([x[0] for x in outs])
        s.env, s.heap, s.pc, s.nxt = m.env, m.heap, m.pc, m.nxt
        (_, x), (_, y) = outs
        if x is None:
            return None
        if isinstance(x, tuple):
            return Loc("H", If(NV(r) == 3, x[1], y[1]), cls=x[2])
        return ite(NV(r) == 3, x, y)
    V.e.virtual_hook = hook


def fvx(V, st, r, i):
    """i-th vertex of an element"""
    o = lambda c: V.obs(st, r, T + c + "::vertex", [IntVal(i)], const=True)
    return o("Quad") if i == 3 else If(NV(r) == 3, o("Triangle"), o("Quad"))


def fcolor(V, st, r):
    o = lambda c: V.obs(st, r, T + c + "::color", nparams=0, const=True)
    return If(NV(r) == 3, o("Triangle"), o("Quad"))


class MeshOps:
    """callee contracts of mesh operations; every call is an event"""
    def __init__(self, V, mesh):
        self.V, self.mesh = V, mesh
        e = V.e
        self.flags = Flags(V)
        self.EDGE = z3.Function("EDGE", IntSort(), IntSort(), IntSort())
        for cls in (T + "Mesh",):
            e.intercepts[cls + "::add_vertex"] = self.add_vertex
            e.intercepts[cls + "::add_quad"] = lambda *a: self.add_facet("quad", *a)
            e.intercepts[cls + "::add_triangle"] = lambda *a: self.add_facet("triangle", *a)
            e.intercepts[cls + "::get_edge"] = self.get_edge
            e.intercepts[cls + "::add_interior_edge"] = lambda *a: self.mesh_edge("interior", *a)
            e.intercepts[cls + "::add_boundary_edge"] = lambda *a: self.mesh_edge("boundary", *a)
            for k in ("vertex", "quad", "triangle", "interior_edge", "boundary_edge"):
                e.intercepts[cls + "::remove_" + k] = lambda *a, k=k: self.remove(k, *a)
        e.intercepts[T + "EdgeList::add_edge"] = self.add_edge
        e.intercepts[T + "EdgeList::get_edge"] = self.list_edge
        e.intercepts[T + "EdgeList::remove"] = self.list_remove
        self.lists = {}          # further edge lists by name

    def event(self, kind, st, args):
        g = "ghost:" + kind
        if g in st.env:
            st.env[g] = simplify(st.env[g] + 1)
        self.V.e.trace.append(Event(kind, st.pc, args, st.copy()))

    def count(self, st, *kinds):
        """count the events of these kinds from here on"""
        for k in kinds:
            st.env["ghost:" + k] = IntVal(0)

    def counted(self, st, kind):
        return st.env["ghost:" + kind]

    def new(self, eng, st, cls):
        """a new object: different from everything there is"""
        r = fresh("new" + cls, IntSort())
        st.pc.append(And(r == st.nxt, r > 0))
        st.nxt = simplify(st.nxt + 1)
        return r

    def put(self, eng, st, ref, fn, v, **kw):
        f = self.V.w.one(fn, **kw)
        eng.inline(f, Loc("H", ref, cls=f.rec.qname), [v], st)

    def add_vertex(self, eng, f, this, vals, st):
        V = self.V
        xy = V.coords(arg(eng, vals[0], st))
        v = self.new(eng, st, "V")
        s0 = st.copy()
        st.pc += [V.at(st, v)[i] == xy[i] for i in (0, 1)]
        st.pc += [Not(self.flags.of(st, v, n)) for n in self.flags.k["Vertex"]]
        self.event("vertex", st, dict(new=v, xy=xy))
        return Loc("H", v, cls=T + "Vertex")

    def add_facet(self, kind, eng, f, this, vals, st):
        V = self.V
        n = 4 if kind == "quad" else 3
        vs = [V.refof(x) for x in vals[:n]]
        c = arg(eng, vals[n], st) if len(vals) > n else IntVal(-1)
        q = self.new(eng, st, "F")
        cls = T + kind.capitalize()
        ec = V.obs(st, V.refof(this), T + "Mesh::element_color", nparams=0, const=True)
        st.pc.append(V.obs(st, q, cls + "::color", nparams=0, const=True) == If(c < 0, ec, c))
        st.pc += [V.obs(st, q, cls + "::vertex", [IntVal(i)], const=True) == vs[i] for i in range(n)] + [NV(q) == n]
        self.event(kind, st, dict(new=q, v=vs, mesh=V.refof(this), color=If(c < 0, ec, c)))
        return Loc("H", q, cls=cls)

    def get_edge(self, eng, f, this, vals, st):
        V = self.V
        a, b = [V.refof(x) for x in vals[:2]]
        d = simplify(arg(eng, vals[2], st)) if len(vals) > 2 else BoolVal(False)
        if not is_false(d):
            raise Unsupported("directed edge search")
        r = self.edge(a, b)
        st.pc.append(And(r > 0, r < self.nxt0))
        return r

    def list_edge(self, eng, f, this, vals, st):
        """edge of one of the lists between two vertices, or none"""
        V = self.V
        k = self.which(this, st)
        if len(vals) < 2 or "Vertex" not in f.params[1]["type"]["qualType"]:
            raise Unsupported("search by one vertex")
        a, b = [V.refof(x) for x in vals[:2]]
        d = simplify(arg(eng, vals[2], st)) if len(vals) > 2 else BoolVal(False)
        if not is_false(d):
            raise Unsupported("directed edge search")
        r = self.ledge(k, a, b)
        st.pc.append(And(r >= 0, r < st.nxt))
        return r

    def ledge(self, k, a, b):
        return z3.Function("EDGE_" + k, IntSort(), IntSort(), IntSort())(If(a < b, a, b), If(a < b, b, a))

    def edge(self, a, b):
        return self.EDGE(If(a < b, a, b), If(a < b, b, a))

    def which(self, this, st):
        """interior or boundary list of the mesh"""
        for k in ("interior", "boundary"):
            f = self.V.w.one(T + "Mesh::%s_edges" % k, const=False)
            l = self.V.e.inline(f, Loc("H", self.mesh, cls=T + "Mesh"), [], st.copy())
            if isinstance(this, Loc) and this.kind == l.kind and this.path == l.path:
                if is_true(simplify(this.a == l.a)):
                    return k
        for k, l in self.lists.items():
            if isinstance(l, Loc):
                if isinstance(this, Loc) and this.kind == l.kind and tuple(this.path) == tuple(l.path) and is_true(simplify(this.a == l.a)):
                    return k
            elif isinstance(this, Loc) and this.kind == "H" and not this.path and is_true(simplify(this.a == l)):
                return k
        raise Unsupported("edge list of unknown owner")

    def list_remove(self, eng, f, this, vals, st):
        k = self.which(this, st)
        self.event("remove-" + (k if k in self.lists else k + "_edge"), st, dict(x=self.V.refof(vals[0])))
        return fresh("removed", BoolSort())

    def add_edge(self, eng, f, this, vals, st):
        return self.mesh_edge(self.which(this, st), eng, f, this, vals, st, raw=True)

    def mesh_edge(self, k, eng, f, this, vals, st, raw=False):
        V = self.V
        vs = [V.refof(x) for x in vals[:2]]
        c = arg(eng, vals[2], st) if len(vals) > 2 else IntVal(-1)
        r = self.new(eng, st, "E")
        st.pc.append(V.obs(st, r, T + "Edge::color", nparams=0, const=True) == c)
        st.pc += [self.flags.of(st, r, n, "Edge") == BoolVal(n == "on_boundary" and k == "boundary" and not raw) for n in self.flags.k["Edge"]]
        self.event(k + "-edge", st, dict(new=r, v=vs, color=c))
        return Loc("H", r, cls=T + "Edge")

    def remove(self, kind, eng, f, this, vals, st):
        self.event("remove-" + kind, st, dict(x=self.V.refof(vals[0])))
        return None


# ---------------------------------------------------------------- events of an iteration
def of(ev, kind):
    return [x for x in ev if x.kind == kind]


def others(ev, kinds):
    return [x for x in ev if x.kind not in kinds]


def number(evs, cond=lambda a: BoolVal(True)):
    if not evs:
        return IntVal(0)
    return Sum([If(And(x.guard, cond(x.args)), 1, 0) for x in evs])


def cyc(a, b):
    """same vertices in the same cyclic order"""
    n = len(a)
    return Or([And([a[(i + s) % n] == b[i] for i in range(n)]) for s in range(n)])


def either(a, b):
    return Or(And(a[0] == b[0], a[1] == b[1]), And(a[0] == b[1], a[1] == b[0]))


def contents(V, st, loc):
    """elements of a container or edge list, as its own iteration gives them"""
    from props.elist import edges_of
    if "EdgeList" in (loc.cls or ""):
        f = V.w.find(T + "EdgeList::edges", const=True)
        loc = V.e.inline(f[0], loc, [], st)
    return seq(V, st, loc)


def steps(V, st, names, after, effect=None):
    """callees (by name) that must each be called once; after: {name: names that come before}"""
    for q in names:
        st.env["ghost:" + q] = IntVal(0)

    def mk(q):
        def h(eng, f, this, vals, s):
            for p in after.get(q, ()):
                eng.obls.append(Obl("%s-after-%s" % (q.split("::")[-1], p.split("::")[-1]), list(s.pc), s.env["ghost:" + p] >= 1, fn=f.qname, kind="requires"))
            s.env["ghost:" + q] = simplify(s.env["ghost:" + q] + 1)
            return effect(q, eng, f, this, vals, s) if effect else None
        return h
    for q in names:
        V.e.intercepts[q] = mk(q)


AREA = z3.Function("AREA", *[RealSort()] * 7)                # twice the signed area


def oriented(V):
    """orientation by its contract (discharged for P01), over the area as a specification function"""
    E = {k: IntVal(V.w.enumconst[G + "Orientation::" + k]) for k in ("CCW", "CW", "CL")}

    def area(p, q, r):
        return AREA(*p, *q, *r)

    def h(eng, f, this, vals, st):
        p, q, r = [V.coords(arg(eng, x, st)) for x in vals[:3]]
        a = area(p, q, r)
        st.pc += [area(*x) == a for x in ((q, r, p), (r, p, q))] + [area(*x) == -a for x in ((q, p, r), (p, r, q), (r, q, p))]
        tol = RealVal("1/67108864")
        return If(a >= tol, E["CCW"], If(a <= -tol, E["CW"], E["CL"]))
    V.e.intercepts[G + "orientation"] = h
    return area
