"""Front end: obtains the clang AST of the *current* /repo sources and keeps only
the declarations that come from /repo (no std / system headers).

Every run re-parses; a content-addressed cache (source text + includes from /repo)
only avoids re-parsing byte-identical inputs."""
import json, os, re, subprocess, hashlib, pickle, glob, sys, tempfile

REPO = os.environ.get("GEODIFF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = REPO + "/geodiff/src"
CACHE = os.path.join(VERIF, ".cache")

FLAGS = ["-std=c++11", "-x", "c++", "-I", SRC, "-I", SRC + "/3rdparty", "-I", SRC + "/drivers",
         "-I", VERIF + "/stubs", "-I/usr/include/postgresql", "-DSQLITE_CORE",
         "-DSQLITE_ENABLE_SESSION", "-DSQLITE_ENABLE_PREUPDATE_HOOK", "-DGEODIFF_STATIC", "-w"]


def repo_hash():
    h = hashlib.sha256()
    for f in sorted(glob.glob(SRC + "/**/*.h", recursive=True) + glob.glob(SRC + "/**/*.hpp", recursive=True)):
        h.update(f.encode()); h.update(open(f, "rb").read())
    for f in ("/stubs/gpkg.h", "/stubs/geodiff_config.hpp", "/cppvc/ast.py"):
        h.update(open(VERIF + f, "rb").read())
    return h


class ExtractError(Exception):
    pass


def _filter(text):
    """text: bytes of the whole -ast-dump=json. Returns the list of top-level decl dicts from REPO."""
    out = []
    # top level decls are at indent 4
    pos = text.index(b'"inner": [')
    n = len(text)
    cur = b""
    start_re = b"\n    {\n"
    end_re = b"\n    }"
    p = pos
    last_re = re.compile(rb'(includedFrom": \{\s*)?"file": "([^"]*)"')
    repo = SRC.encode()
    while True:
        s = text.find(start_re, p)
        if s < 0:
            break
        e = text.find(end_re, s)
        chunk = text[s + 1:e + 6]
        # file of this decl: the first "file" key which belongs to "loc"
        locfile = cur
        m = re.search(rb'"loc": \{(.*?)\n      \}', chunk[:3000], re.S)
        if m:
            for mm in last_re.finditer(m.group(1)):
                if not mm.group(1):
                    locfile = mm.group(2)
                    break
        head = chunk[:400]
        keep = locfile.startswith(repo) and b'"isImplicit": true' not in head
        if keep:
            try:
                d = json.loads(chunk.strip().rstrip(b","))
            except Exception as ex:
                raise ExtractError("json: %s" % ex)
            d["_file"] = locfile.decode()
            out.append(d)
        # last file mention
        i = len(chunk)
        lastf = None
        while True:
            i = chunk.rfind(b'"file": "', 0, i)
            if i < 0:
                break
            pre = chunk[max(0, i - 60):i]
            if b'includedFrom": {' in pre:
                continue
            lastf = chunk[i + 9:chunk.index(b'"', i + 9)]
            break
        if lastf is not None:
            cur = lastf
        p = e
    return out


def _prune(d):
    """drop location ranges except a line number"""
    if isinstance(d, list):
        return [_prune(x) for x in d]
    if not isinstance(d, dict):
        return d
    r = {}
    for k, v in d.items():
        if k in ("range",):
            continue
        if k == "loc":
            ln = v.get("line") or v.get("spellingLoc", {}).get("line") or v.get("expansionLoc", {}).get("line")
            if ln:
                r["line"] = ln
            continue
        if k in ("mangledName", "isUsed", "isReferenced", "definitionData"):
            continue
        r[k] = _prune(v)
    return r


def cachefile(relpath, extra=()):
    path = os.path.join(SRC, relpath)
    h = repo_hash()
    h.update(open(path, "rb").read()); h.update(repr((relpath, extra, FLAGS)).encode())
    os.makedirs(CACHE, exist_ok=True)
    return os.path.join(CACHE, h.hexdigest() + ".ast")


def cached(relpath): return os.path.exists(cachefile(relpath))


def parse_quiet(relpath):
    try:
        parse(relpath)
    except ExtractError:
        pass


def parse(relpath, extra=()):
    """relpath relative to geodiff/src. Returns list of top-level decl dicts."""
    path = os.path.join(SRC, relpath)
    cf = cachefile(relpath, extra)
    if os.path.exists(cf):
        try:
            return pickle.load(open(cf, "rb"))
        except Exception:
            pass
    p = subprocess.run(["clang++"] + FLAGS + list(extra) + ["-fsyntax-only", "-Xclang", "-ast-dump=json", path],
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if p.returncode != 0:
        raise ExtractError("clang failed on %s: %s" % (relpath, p.stderr.decode()[-2000:]))
    decls = _prune(_filter(p.stdout))
    tmp = cf + ".%d" % os.getpid()
    pickle.dump(decls, open(tmp, "wb"))
    os.replace(tmp, cf)
    # keep the cache small
    files = sorted(glob.glob(CACHE + "/*.ast"), key=os.path.getmtime)
    for f in files[:-60]:
        try: os.unlink(f)
        except OSError: pass
    return decls


class Index:
    """functions / records / enums / globals by qualified name over several TUs."""

    def __init__(self):
        self.funcs = {}      # qualname -> list of decl dict with body
        self.decl_only = {}
        self.records = {}
        self.enums = {}      # const id/name -> value
        self.enumconsts = {}
        self.byid = {}
        self.globals = {}
        self.lambdas = {}

    def add(self, decls):
        for d in decls:
            self._walk(d, [], None)

    def _walk(self, d, scope, rec):
        k = d.get("kind")
        if k in ("NamespaceDecl", "LinkageSpecDecl"):
            for x in d.get("inner", []):
                self._walk(x, scope + ([d["name"]] if k == "NamespaceDecl" and d.get("name") else []), rec)
        elif k in ("CXXRecordDecl", "RecordDecl"):
            name = "::".join(scope + [d.get("name", "<anon>")])
            if d.get("completeDefinition"):
                self.records[name] = d
                d["_qual"] = name
            self.byid[d["id"]] = d
            for x in d.get("inner", []):
                self._walk(x, scope + [d.get("name", "<anon>")], d)
        elif k == "EnumDecl":
            val = -1
            for c in d.get("inner", []):
                if c.get("kind") != "EnumConstantDecl":
                    continue
                v = _const_value(c)
                val = val + 1 if v is None else v
                self.byid[c["id"]] = c
                c["_value"] = val
                self.enumconsts["::".join(scope + [c["name"]])] = val
                if d.get("name"):
                    self.enumconsts["::".join(scope + [d["name"], c["name"]])] = val
        elif k in ("FunctionDecl", "CXXMethodDecl", "CXXConstructorDecl", "CXXDestructorDecl", "CXXConversionDecl"):
            name = "::".join(scope + [d["name"]])
            prev = d.get("previousDecl")
            parent = d.get("parentDeclContextId")
            if parent and parent in self.byid and "_qual" in self.byid[parent]:
                name = self.byid[parent]["_qual"] + "::" + d["name"]
            elif prev and prev in self.byid:
                name = self.byid[prev].get("_qual", name)
            d["_qual"] = name
            self.byid[d["id"]] = d
            body = next((x for x in d.get("inner", []) if x.get("kind") in ("CompoundStmt", "CXXTryStmt")), None)
            d["_body"] = body
            (self.funcs if body is not None else self.decl_only).setdefault(name, []).append(d)
        elif k == "VarDecl":
            name = "::".join(scope + [d["name"]])
            d["_qual"] = name
            self.byid[d["id"]] = d
            self.globals[name] = d
        elif k == "FieldDecl":
            self.byid[d["id"]] = d
        elif k in ("TypedefDecl", "TypeAliasDecl"):
            self.byid[d["id"]] = d


def _const_value(c):
    for x in c.get("inner", []):
        r = _cv(x)
        if r is not None:
            return r
    return None


def _cv(x):
    if "value" in x and x.get("kind") in ("ConstantExpr", "IntegerLiteral", "CharacterLiteral"):
        try:
            return int(x["value"])
        except Exception:
            pass
    for y in x.get("inner", []):
        r = _cv(y)
        if r is not None:
            return r
    return None
