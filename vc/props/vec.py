"""Contracts on the vector class (src/utils/VecND.h): every operator is the
componentwise real operation, for every vector of every instantiated size."""
from z3 import *
from verif import *

G = "CppUtils::"
OPS = {"+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b, "/": lambda a, b: a / b}


def isvec(v):
    return isinstance(v, Comp)


def eqv(a, b):
    return And([x == y for x, y in zip(a, b)] + [BoolVal(len(a) == len(b))])


def c_binary(V):
    for o, f in OPS.items():
        for fn in V.w.find(G + "operator" + o):
            if len(fn.params) != 2 or fn.rec is not None:
                continue
            V.reset()
            ex = V.run(fn)
            a, b = ex.args
            if not isvec(ex.ret):
                continue
            n = len(V.coords(ex.ret))
            A = V.coords(a) if isvec(a) else [a] * n
            B = V.coords(b) if isvec(b) else [b] * n
            pre = [x != 0 for x in B] if o == "/" else []
            V.ensure(ex, "componentwise-%s-%s" % ({"+": "sum", "-": "difference", "*": "product", "/": "quotient"}[o],
                                                   "vv" if isvec(a) and isvec(b) else "vs" if isvec(a) else "sv") + str(n),
                     eqv(V.coords(ex.ret), [f(x, y) for x, y in zip(A, B)]), extra=pre)
            V.nothrow(ex)


def methods(V, name):
    out = []
    for q in sorted(V.w.byname):
        if q.startswith(G + "VecND<double, ") and q.endswith(">::" + name):
            out += V.w.find(q)
    return out


def c_assign(V):
    for o, f in OPS.items():
        for fn in methods(V, "operator%s=" % o):
            ex = V.run(fn)
            S = V.coords(V.get(ex.pre, ex.this))
            n = len(S)
            b = ex.args[0]
            B = V.coords(b) if isvec(b) else [b] * n
            pre = [x != 0 for x in B] if o == "/" else []
            want = [f(x, y) for x, y in zip(S, B)]
            nm = "%s%d" % ("v" if isvec(b) else "s", n)
            V.ensure(ex, "updates-the-vector-%s-%s" % (o, nm), eqv(V.coords(V.get(ex.post, ex.this)), want), extra=pre)
            V.ensure(ex, "returns-the-result-%s-%s" % (o, nm), eqv(V.coords(ex.ret), want), extra=pre)


def c_negate(V):
    for fn in methods(V, "operator-"):
        if fn.params:
            continue
        ex = V.run(fn)
        S = V.coords(V.get(ex.pre, ex.this))
        V.ensure(ex, "negation%d" % len(S), eqv(V.coords(ex.ret), [-x for x in S]))


def fold_min(xs, lt):
    m = xs[0]
    for x in xs[1:]:
        m = If(lt(x, m), x, m)
    return m


def c_scalar(V):
    def meth(name, want, pre=lambda S: []):
        for fn in methods(V, name):
            if fn.kind == "CXXConstructorDecl" or any("std::size_t" not in str(p["type"]) and "unsigned long" not in str(p["type"]) for p in fn.params):
                continue
            ex = V.run(fn) if not fn.params else V.run(fn, args=[IntVal(2)])
            S = V.coords(V.get(ex.pre, ex.this))
            V.ensure(ex, "%s%d" % (name, len(S)), want(ex.ret, S), extra=pre(S))
            V.ensure(ex, "%s%d-leaves-the-vector" % (name, len(S)), eqv(V.coords(V.get(ex.post, ex.this)), S))
    meth("norm_sqr", lambda r, S: r == sum(x * x for x in S))
    meth("norm", lambda r, S: And(r >= 0, r * r == sum(x * x for x in S)))
    meth("sum", lambda r, S: r == sum(S))

    def prod(S):
        p = S[0]
        for x in S[1:]:
            p = p * x
        return p
    meth("product", lambda r, S: r == prod(S))
    meth("min", lambda r, S: And(Or([r == x for x in S]), And([r <= x for x in S])))
    meth("max", lambda r, S: And(Or([r == x for x in S]), And([r >= x for x in S])))
    meth("is_zero", lambda r, S: r == And([x == 0 for x in S]))


def c_products(V):
    for fn in methods(V, "dot") + V.w.find(G + "dot"):
        ex = V.run(fn)
        A, B = ([V.coords(V.get(ex.pre, ex.this))] if ex.this else []) + [V.coords(a) for a in ex.args]
        V.ensure(ex, "dot%d" % len(A), ex.ret == sum(x * y for x, y in zip(A, B)))
    for fn in methods(V, "cross") + V.w.find(G + "cross"):
        ex = V.run(fn)
        A, B = ([V.coords(V.get(ex.pre, ex.this))] if ex.this else []) + [V.coords(a) for a in ex.args]
        if len(A) == 2:
            V.ensure(ex, "cross2", ex.ret == A[0] * B[1] - A[1] * B[0])
        elif len(A) == 3:
            V.ensure(ex, "cross3", eqv(V.coords(ex.ret), [A[1] * B[2] - A[2] * B[1], A[2] * B[0] - A[0] * B[2],
                                                          A[0] * B[1] - A[1] * B[0]]))


def c_angle(V):
    for fn in methods(V, "angle") + V.w.find(G + "angle"):
        ex = V.run(fn)
        A, B = ([V.coords(V.get(ex.pre, ex.this))] if ex.this else []) + [V.coords(a) for a in ex.args]
        d = sum(x * y for x, y in zip(A, B))
        na, nb = V.e.sqrt(sum(x * x for x in A)), V.e.sqrt(sum(x * x for x in B))
        c = d / (na * nb)
        V.ensure(ex, "angle%d" % len(A), ex.ret == V.e.acos(If(c > 1, RealVal(1), If(c < -1, RealVal(-1), c))),
                 extra=[na > 0, nb > 0])


def c_equality(V):
    for o in ("==", "!="):
        for fn in V.w.find(G + "operator" + o):
            ex = V.run(fn)
            if not (isvec(ex.args[0]) and isvec(ex.args[1])):
                continue
            A, B = [V.coords(a) for a in ex.args]
            V.ensure(ex, "equal-iff-all-components-equal-%s%d" % (o, len(A)),
                     ex.ret == (eqv(A, B) if o == "==" else Not(eqv(A, B))))


def c_index(V):
    for fn in methods(V, "operator[]"):
        if not fn.node["type"]["qualType"].rstrip().endswith("const"):
            continue
        ex = V.run(fn)
        S = V.coords(V.get(ex.pre, ex.this))
        for i in range(len(S)):
            V.ensure(ex, "entry%d-of-%d" % (i, len(S)), Implies(ex.args[0] == i, ex.ret == S[i]))


def contracts(V):
    for n, f in (("binary-operators", c_binary), ("compound-assignment", c_assign), ("negation", c_negate),
                 ("scalars", c_scalar), ("products", c_products), ("angle", c_angle), ("equality", c_equality),
                 ("entries", c_index)):
        V.section("vector/" + n, f)
