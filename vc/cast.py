"""Load the clang AST (JSON dump) of the real /repo headers and index it.

Nothing here is a model: every function body that the VC generator executes
is taken from the AST clang produced from /repo's current working tree.
"""
import json, os, subprocess, re, hashlib, tempfile, shutil, sys

REPO = os.environ.get("TQ_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))

CFG_H = '''#pragma once
#define TQMESH_VERSION_MAJOR 1
#define TQMESH_VERSION_MINOR 0
#define TQMESH_SOURCE_DIR "%s"
''' % REPO

INCS = ["-I%s/src/utils" % REPO, "-I%s/src/algorithm" % REPO,
        "-I%s/src/app" % REPO]


class ExtractionError(Exception):
    pass


def dump(tu_text, workdir):
    """Run clang once on the instantiation unit; return the AST documents.

    All repo headers are included inside `namespace TQV` (the standard library
    is included before, at global scope) so that one AST dump filter selects
    exactly the repo's declarations.  The repo's text is not altered."""
    os.makedirs(workdir, exist_ok=True)
    with open(os.path.join(workdir, "TQMeshConfig.h"), "w") as f:
        f.write(CFG_H)
    tu = os.path.join(workdir, "tu.cpp")
    with open(tu, "w") as f:
        f.write("#include <bits/stdc++.h>\n#include <float.h>\n#include <limits.h>\n"
                "#include <stdlib.h>\nnamespace TQV {\n" + tu_text + "\n}\n")
    js = os.path.join(workdir, "ast.json")
    cmd = ["clang++", "-w", "-std=gnu++17", "-DNDEBUG", "-I" + workdir] + INCS + [
        "-Xclang", "-ast-dump=json", "-Xclang", "-ast-dump-filter=TQV",
        "-fsyntax-only", tu]
    with open(js, "w") as out:
        r = subprocess.run(cmd, stdout=out, stderr=subprocess.PIPE, text=True)
    if r.returncode != 0:
        raise ExtractionError("clang failed:\n" + r.stderr[:4000])
    s = open(js).read().replace("TQV::", "")
    os.unlink(js)
    ids = {}                     # node addresses -> order of appearance: every run sees the same tree
    s = re.sub(r'"0x[0-9a-f]+"', lambda m: '"0x%07x"' % ids.setdefault(m.group(), len(ids) + 1), s)
    dec = json.JSONDecoder()
    docs, i = [], 0
    while True:
        j = s.find("{", i)
        if j < 0:
            break
        o, i = dec.raw_decode(s, j)
        docs.append(o)
    return docs


class Rec:
    """A class / struct."""
    __slots__ = ("name", "qname", "node", "bases", "fields", "methods", "id", "targs")

    def __init__(self, name, qname, node):
        self.name, self.qname, self.node = name, qname, node
        self.bases, self.fields, self.methods = [], {}, []
        self.id = node["id"]
        self.targs = []


class Fn:
    __slots__ = ("name", "qname", "node", "params", "body", "rec", "static",
                 "kind", "inits", "rtype", "const", "file", "line", "virtual",
                 "targs", "implicit", "defaulted", "ftype")

    def __repr__(self):
        return "Fn(%s: %s)" % (self.qname, self.ftype)


FKINDS = {"FunctionDecl", "CXXMethodDecl", "CXXConstructorDecl",
          "CXXDestructorDecl", "CXXConversionDecl"}


class World:
    def __init__(self, docs):
        self.decl = {}        # id -> node
        self.fn = {}          # id -> Fn
        self.byname = {}      # qualified name -> [Fn]
        self.rec = {}         # id -> Rec
        self.recname = {}     # qname -> Rec
        self.alias = {}       # (qualified or simple) alias -> type string
        self.enumval = {}     # enum constant id -> (value, qname)
        self.enumconst = {}   # qname -> value
        self.underlying = {}  # enum name -> fixed underlying type
        self.enums = set()
        self.vardecl = {}
        self.fieldrec = {}    # field id -> Rec
        self.parent = {}
        self.prev = {}
        self._file = None
        self._line = 0
        for d in docs:
            self._visit(d, [], None, False)
        self._link()

    # ------------------------------------------------------------------
    def _loc(self, n):
        loc = n.get("loc") or {}
        if "expansionLoc" in loc:
            loc = loc["expansionLoc"]
        if "file" in loc:
            self._file = loc["file"]
        if "line" in loc:
            self._line = loc["line"]
        return self._file, self._line

    def _track(self, n):
        """clang omits repeated file names; walk everything to keep track."""
        rng = n.get("range") or {}
        for k in ("begin", "end"):
            l = rng.get(k) or {}
            for m in (l.get("spellingLoc"), l.get("expansionLoc"), l):
                if m and "file" in m:
                    self._file = m["file"]
                if m and "line" in m:
                    self._line = m["line"]

    def _visit(self, n, path, rec, intmpl):
        k = n.get("kind")
        if k is None:
            return
        if "id" in n:
            self.decl[n["id"]] = n
        self._loc(n)
        if k == "NamespaceDecl":
            p = path + [n.get("name", "")]
            if p == ["TQV"]:
                p = []
            for c in n.get("inner", []):
                self._visit(c, p, None, intmpl)
            return
        if k in ("CXXRecordDecl", "ClassTemplateSpecializationDecl",
                 "ClassTemplatePartialSpecializationDecl"):
            if n.get("isImplicit"):
                return
            name = n.get("name", "")
            targs = []
            if k == "ClassTemplateSpecializationDecl":
                targs = [targ_str(c) for c in n.get("inner", [])
                         if c.get("kind") == "TemplateArgument"]
                name = "%s<%s>" % (name, ", ".join(targs))
            p = path + [name]
            q = "::".join(p)
            r = Rec(n.get("name", ""), q, n)
            r.targs = targs
            r.bases = [b["type"] for b in n.get("bases", [])]
            self.rec[n["id"]] = r
            if n.get("completeDefinition") and (q not in self.recname) and not (intmpl and k == "CXXRecordDecl"):
                self.recname[q] = r
            for c in n.get("inner", []):
                self._visit(c, p, r, intmpl)
            return
        if k == "ClassTemplateDecl":
            for c in n.get("inner", []):
                if c.get("kind") == "CXXRecordDecl":
                    self._visit(c, path, None, True)
                elif c.get("kind") == "ClassTemplateSpecializationDecl":
                    self._visit(c, path, None, intmpl)
            return
        if k == "FunctionTemplateDecl":
            first = True
            for c in n.get("inner", []):
                if c.get("kind") in FKINDS:
                    self._visit(c, path, rec, intmpl or first)
                    first = False
            return
        if k in FKINDS:
            f = Fn()
            f.name = n.get("name", "")
            f.qname = "::".join(path + [f.name])
            f.node = n
            f.kind = k
            f.rec = rec
            f.file, f.line = self._file, self._line
            f.params = [c for c in n.get("inner", []) if c.get("kind") == "ParmVarDecl"]
            f.body = None
            f.inits = []
            f.targs = []
            for c in n.get("inner", []):
                if c.get("kind") == "CompoundStmt":
                    f.body = c
                elif c.get("kind") == "CXXCtorInitializer":
                    f.inits.append(c)
                elif c.get("kind") == "TemplateArgument":
                    f.targs.append(targ_str(c))
                elif c.get("kind") == "CXXTryStmt":
                    f.body = c
            f.static = n.get("storageClass") == "static" or k == "FunctionDecl"
            f.ftype = n.get("type", {}).get("qualType", "")
            f.rtype = f.ftype.split("(")[0].strip()
            f.const = f.ftype.rstrip().endswith("const") or ") const" in f.ftype
            f.virtual = n.get("virtual", False)
            f.implicit = n.get("isImplicit", False)
            f.defaulted = bool(n.get("explicitlyDefaulted")) or f.implicit
            self.fn[n["id"]] = f
            if "previousDecl" in n:
                self.prev[n["id"]] = n["previousDecl"]
            if not intmpl:
                self.byname.setdefault(f.qname, []).append(f)
            if rec is not None and not intmpl:
                rec.methods.append(f)
            for c in n.get("inner", []):
                self._index(c)
            return
        if k == "FieldDecl":
            if rec is not None:
                rec.fields[n.get("name", "")] = n
                self.fieldrec[n["id"]] = rec
            for c in n.get("inner", []):
                self._index(c)
            return
        if k in ("TypeAliasDecl", "TypedefDecl"):
            t = n["type"].get("desugaredQualType") or n["type"]["qualType"]
            self.alias["::".join(path + [n["name"]])] = t
            self.alias.setdefault(n["name"], t)
            return
        if k == "EnumDecl":
            v = 0
            nm = n.get("name")
            p = path + ([nm] if nm else [])
            if nm:
                self.enums.add(nm); self.enums.add("::".join(p))
                u = n.get("fixedUnderlyingType", {})
                if u:
                    self.underlying[nm] = u.get("desugaredQualType") or u.get("qualType")
            for c in n.get("inner", []):
                if c.get("kind") == "EnumConstantDecl":
                    for x in c.get("inner", []):
                        val = find_value(x)
                        if val is not None:
                            v = int(val)
                            break
                    self.enumval[c["id"]] = v
                    self.enumconst["::".join(p + [c["name"]])] = v
                    v += 1
            return
        if k == "VarDecl":
            self.vardecl[n["id"]] = n
            for c in n.get("inner", []):
                self._index(c)
            return
        for c in n.get("inner", []):
            self._visit(c, path, rec, intmpl)

    def _index(self, n):
        stack = [n]
        while stack:
            m = stack.pop()
            if not m or "kind" not in m:
                continue
            self._track(m)
            if "id" in m:
                self.decl.setdefault(m["id"], m)
            if m["kind"] == "VarDecl" or m["kind"] == "ParmVarDecl":
                self.vardecl[m["id"]] = m
            if m["kind"] == "LambdaExpr":
                for c in m.get("inner", []):
                    if c.get("kind") == "CXXRecordDecl":
                        self._lambda(c)
            stack.extend(reversed(m.get("inner", [])))

    def _lambda(self, rec):
        for c in rec.get("inner", []):
            cands = []
            if c.get("kind") == "CXXMethodDecl":
                cands = [c]
            elif c.get("kind") == "FunctionTemplateDecl":
                cands = [x for x in c.get("inner", []) if x.get("kind") == "CXXMethodDecl"]
            for m in cands:
                f = Fn()
                f.name = m.get("name"); f.qname = "<lambda>::" + str(f.name)
                f.node = m; f.kind = "CXXMethodDecl"; f.rec = None
                f.params = [x for x in m.get("inner", []) if x.get("kind") == "ParmVarDecl"]
                f.body = next((x for x in m.get("inner", []) if x.get("kind") == "CompoundStmt"), None)
                f.inits = []; f.static = True; f.virtual = False
                f.ftype = m.get("type", {}).get("qualType", "")
                f.rtype = f.ftype.split("(")[0].strip()
                f.const = True; f.file, f.line = self._file, self._line
                f.targs = []; f.implicit = False; f.defaulted = False
                self.fn[m["id"]] = f

    def _link(self):
        # declarations without body -> definition with a body
        defn = {}
        for i, p in self.prev.items():
            f = self.fn.get(i)
            if f and f.body is not None:
                defn[p] = f
        for p, f in defn.items():
            if p in self.fn and self.fn[p].body is None:
                self.fn[p].body = f.body
                self.fn[p].params = f.params
                self.fn[p].inits = f.inits

    # ------------------------------------------------------------------
    def find(self, qname, nparams=None, ftype=None, const=None):
        """All concrete functions of that qualified name that have a body."""
        out = []
        for f in self.byname.get(qname, []):
            if f.body is None and not f.inits:
                continue
            if nparams is not None and len(f.params) != nparams:
                continue
            if ftype is not None and ftype not in f.ftype:
                continue
            if const is not None and f.const != const:
                continue
            out.append(f)
        return out

    def one(self, qname, **kw):
        fs = self.find(qname, **kw)
        if not fs:
            raise ExtractionError("function not found: %s %s" % (qname, kw))
        return fs[0]


def targ_str(c):
    if "type" in c:
        return c["type"]["qualType"]
    if "value" in c:
        return str(c["value"])
    for x in c.get("inner", []):
        v = find_value(x)
        if v is not None:
            return str(v)
    return "?"


def find_value(n):
    if "value" in n and n.get("kind") in ("ConstantExpr", "IntegerLiteral"):
        return n["value"]
    for c in n.get("inner", []):
        v = find_value(c)
        if v is not None:
            return v
    return None


def pp(n, ind=0, out=None):
    """compact printer for debugging"""
    if out is None:
        out = []
    k = n.get("kind")
    s = "  " * ind + str(k)
    for key in ("name", "opcode", "castKind", "value", "valueCategory", "isArrow",
                "referencedMemberDecl", "isPostfix", "hasElse", "hasInit", "list"):
        if key in n:
            s += " %s=%s" % (key, n[key])
    if "type" in n:
        s += " :" + n["type"].get("qualType", "")
        if "desugaredQualType" in n["type"]:
            s += " {" + n["type"]["desugaredQualType"] + "}"
    if "referencedDecl" in n:
        r = n["referencedDecl"]
        s += " ->" + "%s %s %s" % (r.get("kind"), r.get("name"), r.get("id"))
    out.append(s)
    for c in n.get("inner", []):
        pp(c, ind + 1, out)
    return out


if __name__ == "__main__":
    w = World(dump(open(sys.argv[1]).read(), "/tmp/p/wd"))
    for f in w.find(sys.argv[2]):
        print(f, f.file, f.line)
        for p in f.params:
            print("\n".join(pp(p, 2)))
        for c in f.inits:
            print("\n".join(pp(c, 1)), c.get("anyInit"))
        if f.body:
            print("\n".join(pp(f.body, 1)))
