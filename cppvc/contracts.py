"""Function contracts: check at the definition, assume at call sites."""
import re, z3
from .sorts import *
from . import sorts as S
from .exec import LV, LVRef, PtrLV, Exc, State, Iter, has_quant


class View:
    """what a contract talks about: this / args / result in old and new state"""

    def __init__(self, ex, this, args, old, new=None, kind=None, result=None, exc=None):
        self.ex, self.this, self.args, self.so, self.sn, self.kind, self.exc = ex, this, args, old, new, kind, exc
        self._result = result

    # a parameter/field as lvalue
    def lv(self, i): return self.args[i]

    def arg(self, i):
        a = self.args[i]
        return self.ex.load(self.so, a) if isinstance(a, LV) else a

    def newarg(self, i):
        a = self.args[i]
        return self.ex.load(self.sn, a) if isinstance(a, LV) else a

    def pointee(self, p):
        """lvalue that a pointer-valued lvalue refers to in the old state (no obligation)"""
        ex = self.ex
        ex.quiet += 1
        if p.ct.args[0].kind != "opaque": ex.heap(self.so, p.ct.args[0])
        try: return ex.deref(self.so.fork(), self.old(p), p.ct.args[0])
        finally: ex.quiet -= 1

    def fld(self, *names, base=None):
        lv = base or self.this
        for n in names:
            _, ct = self.ex.T.field_index(lv.ct.name, n)
            lv = lv.f(n, ct)
        return lv

    def old(self, lv): return self.ex.load(self.so, lv)
    def new(self, lv): return self.ex.load(self.sn, lv)
    def o(self, *names): return self.old(self.fld(*names))
    def n(self, *names): return self.new(self.fld(*names))

    def ghost_old(self, name): return self.so.store["g:" + name]
    def ghost_new(self, name): return self.sn.store["g:" + name]

    @property
    def result(self):
        r = self._result
        if isinstance(r, LV): return self.ex.load(self.sn, r)
        return r


class Contract:
    """subclass or fill the callables.  `trusted` contracts are assumptions (listed)."""
    name = None
    nargs = None
    sig = None           # part of the parameter list (overloads)
    outcomes = ("return",)
    throws = ("GeoDiffException",)
    ret = None           # CT of the result (None: from the declaration)
    trusted = False
    ghosts = {}

    def pre(self, v): return []
    def modifies(self, v): return []
    def gmodifies(self, v): return []
    def post(self, v): return []
    def guard(self, v, kind): return None      # condition on the old state for this outcome kind
    def invs(self, L): return []               # loop invariants proposed when verifying the body

    def setup(self, ex, st):
        for n, sort in self.ghosts.items():
            ensure_ghost(ex, st, n, sort)

    def rettype(self, ex):
        if self.ret is not None: return self.ret
        f = ex.prog.find(self.name, self.nargs)
        d = f[1] if f else None
        if d is None:
            for t in ex.prog.tus:
                for x in t.decl_only.get(self.name, []):
                    d = x
        if d is None: raise Unsupported("no declaration for contract " + self.name)
        if d["kind"] in ("CXXConstructorDecl", "CXXDestructorDecl"): return VOID
        qt = d["type"]["qualType"]
        return ex.T.parse(qt[:qt.index("(")].strip() if not qt.startswith("auto") else qt.split("->")[1])

    def make_result(self, ex, s):
        ct = self.rettype(ex)
        if ct.kind == "void": return None
        if ct.kind == "ref":
            root = ex.new_root("res_" + self.name.split("::")[-1], ct.args[0])
            s.store[root] = ex.fresh_ct("res", ct.args[0], s)
            return LV(root, (), ct.args[0])
        return ex.fresh_ct("res_" + self.name.split("::")[-1], ct, s)

    def apply(self, ex, st, this, args, node):
        self.setup(ex, st)
        v0 = View(ex, this, args, st)
        for name, g in self.pre(v0):
            ex.ob(st, "precondition of %s: %s" % (self.name, name), g, node, "pre")
            st.assume(g)
        res = []
        old = st
        for kind in self.outcomes:
            s = st.fork()
            g = self.guard(View(ex, this, args, s), kind)
            if g is not None:
                if not ex.feasible(s, g): continue
                s.assume(g)
            old = s.fork()
            for lv in self.modifies(View(ex, this, args, old)):
                if isinstance(lv, PtrLV): lv = lv.lv
                ex.save(s, ex.resolve(s, lv), ex.fresh_ct("m_" + lv.root.split("#")[0], lv.ct, s))
            for gn in self.gmodifies(View(ex, this, args, old)):
                r = "g:" + gn
                s.store[r] = ex.fresh("g_" + gn, s.store[r].sort())
                s.wlog.add((r, ()))
            r = None
            if kind == "return":
                r = self.call_value(View(ex, this, args, old)) if hasattr(self, "call_value") else self.make_result(ex, s)
            exc = None
            if kind == "throw":
                exc = Exc(self.throws[0], None, "from " + self.name)
            v = View(ex, this, args, old, s, kind, r, exc)
            v.calling = True
            for name, g in self.post(v):
                s.assume(g)
            if kind == "return":
                r2 = self.wrap_result(ex, s, this, args, r)
                res.append((s, r2))
            else:
                ex.thr.append((s, exc))
        return res

    def wrap_result(self, ex, s, this, args, r): return r


class Contracts:
    def __init__(self, cs=()):
        self.d = {}
        for c in cs: self.add(c)

    def add(self, c):
        self.d.setdefault(c.name, []).append(c)

    def lookup(self, q, nargs=None):
        for c in self.d.get(q, ()):
            if c.nargs is None or nargs is None or c.nargs == nargs:
                return c
        return None

    def __contains__(self, q): return q in self.d

    def without(self, c):
        r = Contracts()
        r.d = {k: [x for x in v if x is not c] for k, v in self.d.items()}
        r.d = {k: v for k, v in r.d.items() if v}
        return r


def ensure_ghost(ex, st, name, sort):
    r = "g:" + name
    if r not in ex.roots:
        ex.roots[r] = CT("ghost", name)
    if r not in st.store:
        st.store[r] = z3.Const("ghost_" + name, sort)


def verify(ex, contract, setup=None):
    """generate the obligations of one function against its contract"""
    q = contract.name
    f = ex.prog.find(q, contract.nargs, contract.sig)
    if f is None:
        raise Unsupported("function %s not found" % q)
    tu, fn = f
    ex.top = q
    saved = ex.contracts
    ex.contracts = saved.without(contract)     # own body is executed; recursion handled through opts
    st = State()
    st.scopes.append([])
    contract.setup(ex, st)
    if hasattr(contract, "begin"): contract.begin(ex, st)          # only when its own body is verified
    this = None
    if fn["kind"] in ("CXXMethodDecl", "CXXConstructorDecl", "CXXDestructorDecl") and fn.get("storageClass") != "static":
        cname = q.rsplit("::", 1)[0]
        ct = ex.T.parse(cname)
        ex.roots["this"] = ct
        this = LV("this", (), ct)
        st.store["this"] = ex.fresh_ct("this0", ct, st) if fn["kind"] != "CXXConstructorDecl" else ex.default(st, ct)
    args = []
    params = [x for x in fn.get("inner", []) if x.get("kind") == "ParmVarDecl"]
    for i, p in enumerate(params):
        ct = ex.T.parse(p["type"])
        base = ct.args[0] if ct.kind == "ref" else ct
        if base.kind == "fnptr":
            pass
        root = ex.new_root("arg%d" % i, base)
        st.store[root] = ex.fresh_ct("arg%d_%s" % (i, p.get("name", "")), base, st)
        if i in getattr(contract, "aliases_this", ()):
            args.append(this)
        elif ct.kind == "ref":
            args.append(LV(root, (), base))
        else:
            args.append(st.store[root])
    v0 = View(ex, this, args, st)
    for name, g in contract.pre(v0):
        st.assume(g)
    # vacuity: the precondition must be satisfiable
    ex.pre_facts = list(st.pc)
    if setup: setup(ex, st, this, args)
    old = st.fork()
    st.wlog = set()
    ex.loopinv_provider = lambda L: contract.invs_for(L, View(ex, this, args, old)) if hasattr(contract, "invs_for") else contract.invs(L)
    outs = ex.run_function(tu, fn, this, args, st)
    ex.outcomes_seen = []
    mods = None
    for s, k, val in outs:
        if k == "throw" and val.ctype == "__dead":
            continue
        v = View(ex, this, args, old, s, k, val, val if k == "throw" else None)
        v.calling = False
        ex.outcomes_seen.append((k, list(s.pc)))
        if k not in contract.outcomes:
            ex.ob(s, "no exception leaves the function (%r)" % val, z3.BoolVal(False), None, "post")
            continue
        if k == "throw" and not any(val.ctype == t or t == "*" for t in contract.throws):
            ex.ob(s, "only %s is thrown (%r)" % ("/".join(contract.throws), val), z3.BoolVal(False), None, "post")
            continue
        # the callee's guard for this kind must have held in the old state
        g = contract.guard(View(ex, this, args, old), k)
        if g is not None:
            ex.ob(s, "outcome %s only when its guard holds" % k, g, None, "post")
        for name, g in contract.post(v):
            if g is None: continue
            ex.ob(s, "post(%s): %s" % (k, name), g, None, "post")
        # frame
        for name, g in frame(ex, contract, View(ex, this, args, old), old, s, this, args):
            ex.ob(s, "frame: %s unchanged" % name, g, None, "frame")
    ex.contracts = saved
    return outs


def frame(ex, contract, v, old, s, this, args):
    mods = [ex.resolve(old, m.lv if isinstance(m, PtrLV) else m).static() for m in contract.modifies(v)]
    gm = set("g:" + g for g in contract.gmodifies(v))
    out = []
    for root, path in sorted(s.wlog):
        if root not in old.store: continue
        if root.startswith("g:"):
            if root in gm or root == "g:exc": continue
            if not old.store[root].eq(s.store[root]):
                out.append((root, old.store[root] == s.store[root]))
            continue
        if root.startswith("arg") and not any(isinstance(a, LV) and a.root == root for a in args):
            continue
        if any(m[0] == root and path[:len(m[1])] == m[1] for m in mods): continue
        if root.startswith("heap:"):
            if any(m[0] == root for m in mods): continue
        if isinstance(old.store[root], LVRef): continue
        lv = LV(root, (), ex.roots[root])
        ok = True
        for a, b in path:
            if a == "f":
                _, ct = ex.T.field_index(lv.ct.name, b); lv = lv.f(b, ct)
            else:
                lv = lv.p(b, lv.ct.args[b])
        subs = [m for m in mods if m[0] == root and m[1][:len(path)] == path]
        if subs and lv.ct.kind == "struct":
            # parts of it may change: compare the other fields
            for n, ct, _ in ex.T.fields(lv.ct.name):
                flv = lv.f(n, ct)
                if any(flv.static()[1] == m[1] for m in subs): continue
                a, b = ex.load(old, flv), ex.load(s, flv)
                if not a.eq(b): out.append(("%s.%s" % (root, n), a == b))
            continue
        a, b = ex.load(old, lv), ex.load(s, lv)
        if z3.is_expr(a) and not a.eq(b):
            out.append((str(lv), a == b))
    return out
