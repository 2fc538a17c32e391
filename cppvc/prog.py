"""The program under verification: several translation units of /repo."""
import re
from concurrent.futures import ProcessPoolExecutor
from . import ast as A
from .sorts import *


class Program:
    def __init__(self, files, abstract=None):
        missing = [f for f in files if not A.cached(f)]
        if len(missing) > 1:
            with ProcessPoolExecutor(8) as p:
                list(p.map(A.parse_quiet, missing))
        rs = [A.parse(f) for f in files]
        self.tus = []
        self.files = files
        recs, enums = {}, set()
        for f, r in zip(files, rs):
            idx = A.Index()
            idx.add(r)
            idx.file = f
            self.tus.append(idx)
            for n, d in idx.records.items():
                if n not in recs:
                    recs[n] = d
                    d["_tu"] = idx
            for d in idx.byid.values():
                pass
        for r in rs:
            self._enums(r, [], enums)
        self.types = Types(recs, enums, dict(abstract or {}))
        self.funcs = {}
        for t in self.tus:
            for q, fs in t.funcs.items():
                for f in fs:
                    self.funcs.setdefault(q, []).append((t, f))

    def _enums(self, decls, scope, out):
        for d in decls:
            k = d.get("kind")
            if k == "EnumDecl" and d.get("name"):
                out.add("::".join(scope + [d["name"]]))
            if k in ("NamespaceDecl", "LinkageSpecDecl", "CXXRecordDecl"):
                self._enums(d.get("inner", []), scope + ([d["name"]] if d.get("name") and k != "LinkageSpecDecl" else []), out)

    def find(self, q, nargs=None, sig=None):
        fs = self.funcs.get(q)
        if fs and sig: fs = [x for x in fs if sig in x[1]["type"]["qualType"]]
        if not fs:
            return None
        best = None
        for t, f in fs:
            ps = [x for x in f.get("inner", []) if x.get("kind") == "ParmVarDecl"]
            need = len([p for p in ps if not self.has_default(p)])
            if nargs is None or need <= nargs <= len(ps):
                if f.get("explicitlyDeleted"): continue
                if best is None or (len(ps) == nargs and len([x for x in best[1].get("inner", []) if x.get("kind") == "ParmVarDecl"]) != nargs):
                    best = (t, f)
        return best

    def has_default(self, p):
        return p.get("init") is not None or any(x.get("kind", "").endswith(("Expr", "Literal", "Cleanups")) for x in p.get("inner", []))

    def find_ctor(self, cname, vs, ex, s, e):
        """constructor by argument values; uses the clang ctorType when present"""
        q = cname + "::" + cname.split("::")[-1]
        want = None
        if e is not None and e.get("ctorType"):
            want = e["ctorType"].get("qualType")
        for t, f in self.funcs.get(q, []):
            if want and f["type"]["qualType"] == want:
                return t, f
        if want is None:
            return self.find(q, len(vs))
        c = [x for x in self.funcs.get(q, []) if norm(x[1]["type"]["qualType"]) == norm(want)]
        return c[0] if c else self.find(q, len(vs))

    def qual(self, tu, d):
        x = tu.byid.get(d.get("id"))
        if x is not None and "_qual" in x:
            return x["_qual"]
        return None

    def method_qual(self, tu, member):
        x = tu.byid.get(member.get("referencedMemberDecl"))
        if x is not None and "_qual" in x:
            return x["_qual"]
        return None

    def enum_value(self, tu, d):
        x = tu.byid.get(d["id"])
        if x is not None and "_value" in x:
            return x["_value"]
        name = d["name"]
        ext = EXTERNAL_ENUMS.get(name)
        if ext is not None:
            return ext
        raise Unsupported("enum constant " + name)

    def global_decl(self, tu, d):
        return tu.byid.get(d["id"])


EXTERNAL_ENUMS = {
    "PGRES_EMPTY_QUERY": 0, "PGRES_COMMAND_OK": 1, "PGRES_TUPLES_OK": 2, "PGRES_COPY_OUT": 3, "PGRES_COPY_IN": 4,
    "PGRES_BAD_RESPONSE": 5, "PGRES_NONFATAL_ERROR": 6, "PGRES_FATAL_ERROR": 7, "CONNECTION_OK": 0, "CONNECTION_BAD": 1,
}


def norm(s):
    return re.sub(r"\s+", "", s)
