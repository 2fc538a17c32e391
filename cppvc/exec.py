"""Forward symbolic execution of real function bodies (clang AST) generating proof obligations.

Calls are resolved in this order: contract of the callee (callee body is NOT looked at),
model of an external function (std / libc / sqlite / libpq; every use is recorded as an
assumption), inlining of a /repo function that has no contract.  Loops are cut with
inductive invariants: candidate invariants (generic + those a contract proposes) are
filtered Houdini-style, every kept candidate is proved initially true and preserved."""
import re, time, itertools, z3
from .sorts import *
from . import sorts as S
from .ast import ExtractError
from .solve import FA


class LV:
    """lvalue: root variable + access path"""
    __slots__ = ("root", "path", "ct")

    def __init__(self, root, path, ct):
        self.root, self.path, self.ct = root, tuple(path), ct

    def f(self, name, ct): return LV(self.root, self.path + (("f", name, self.ct),), ct)
    def i(self, t, ct): return LV(self.root, self.path + (("i", t, self.ct),), ct)
    def m(self, t, ct): return LV(self.root, self.path + (("m", t, self.ct),), ct)
    def c(self, t, ct=None): return LV(self.root, self.path + (("c", t, self.ct),), ct or CHAR)
    def h(self, t, ct): return LV(self.root, self.path + (("h", t, self.ct),), ct)
    def p(self, k, ct): return LV(self.root, self.path + (("p", k, self.ct),), ct)

    def key(self):
        return (self.root,) + tuple((a, b if isinstance(b, str) else (b if isinstance(b, int) else b.get_id())) for a, b, _ in self.path)

    def static(self):
        out = []
        for a, b, _ in self.path:
            if a in ("f", "p"):
                out.append((a, b))
            else:
                break
        return (self.root, tuple(out))

    def __repr__(self):
        return "LV(%s%s)" % (self.root, "".join(".%s" % (b,) for a, b, _ in self.path))


class LVRef:
    """value stored in a variable of reference type"""
    def __init__(self, lv): self.lv = lv


class PtrLV:
    """pointer to an lvalue (address-of)"""
    def __init__(self, lv): self.lv = lv


class Iter:
    """iterator: container lvalue, position (Int for vec/str, key term for map/set), end flag (Bool term)"""
    def __init__(self, lv, pos, end, ord=None):
        self.lv, self.pos, self.end, self.ord = lv, pos, end, ord


class Lambda:
    def __init__(self, node, frame): self.node, self.frame = node, frame


class Exc:
    def __init__(self, ctype, val=None, info=""):
        self.ctype, self.val, self.info = ctype, val, info

    def __repr__(self): return "Exc(%s %s)" % (self.ctype, self.info)


class Frame:
    def __init__(self, tu, fn, this):
        self.tu, self.fn, self.this, self.vars = tu, fn, this, {}


class State:
    __slots__ = ("store", "pc", "scopes", "wlog", "aux")

    def __init__(self):
        self.store, self.pc, self.scopes, self.wlog, self.aux = {}, [], [], set(), {}

    def fork(self):
        s = State()
        s.store = dict(self.store); s.pc = list(self.pc)
        s.scopes = [list(x) for x in self.scopes]; s.wlog = set(self.wlog); s.aux = dict(self.aux)
        return s

    def assume(self, *ts):
        for t in ts:
            if t is None or z3.is_true(t):
                continue
            if z3.is_and(t) and has_quant(t):
                self.assume(*t.children())       # the ground conjuncts stay usable for path feasibility
                continue
            self.pc.append(t)
        return self


class Ob:
    __slots__ = ("name", "hyps", "goal", "where", "kind", "status", "backend", "secs", "model", "fn", "smt")

    def __init__(self, name, hyps, goal, where, kind, fn):
        self.name, self.hyps, self.goal, self.where, self.kind, self.fn = name, hyps, goal, where, kind, fn
        self.status = None; self.backend = None; self.secs = 0.0; self.model = None


def has_quant(t, cache={}):
    k = t.get_id()
    r = cache.get(k)
    if r is not None and r[0].eq(t):
        return r[1]
    if z3.is_quantifier(t):
        v = True
    else:
        v = any(has_quant(c) for c in t.children())
    cache[k] = (t, v)
    return v


MAXPATHS = 600


class Exec:
    def __init__(self, prog, contracts, opts=None):
        self.prog = prog
        self.T = prog.types
        self.contracts = contracts
        self.opts = dict(ovf=True, bounds=True, term=False, feas_ms=150, prove_ms=250, houdini_ms=2500, inline_depth=12)
        self.opts.update(opts or {})
        self.obs = []
        self.quiet = 0
        self.thr = []
        self.fr = None
        self.roots = {}      # root -> CT
        self.n = itertools.count(1)
        self.fnstack = []
        self.loopinv_provider = None
        self.used_models = set()
        self.used_contracts = set()
        self.inlined = set()
        self.addr = {}       # addr term id -> LV
        self.addr_of = {}    # LV key -> term
        self.loopinfo = []
        self.smt_time = 0.0
        self.smt_calls = 0
        self.top = ""
        self.deadline = None
        self.pathcount = 0
        self.pvcache = {}

    # ------------------------------------------------------------ utilities
    def fresh(self, name, sort):
        return z3.Const("%s!%d" % (re.sub(r"[^\w]", "_", name), next(self.n)), sort)

    def fresh_ct(self, name, ct, st=None):
        if ct.kind == "iter":
            raise Unsupported("fresh iterator")
        t = self.fresh(name, self.T.sort(ct))
        if st is not None:
            self.assume_type(st, t, ct)
        return t

    def assume_type(self, st, t, ct):
        for f in self.type_facts(t, ct):
            st.assume(f)

    def type_facts(self, t, ct, depth=0):
        k = ct.kind
        out = []
        if k == "int":
            lo, hi = self.rng(ct)
            out = [t >= lo, t <= hi]
        elif k == "dbl":
            out = [t >= 0, t <= 2**64 - 1]
        elif k in ("vec", "arr"):
            n = S.get(self.T.sort(ct), 1, t)
            out = [n >= 0, n <= 2**40]
            if k == "arr" and ct.bits:
                out = [n == ct.bits]
        elif k == "str":
            out = [z3.Length(t) <= 2**40]
        elif k == "ptr":
            out = [t >= 0]
        elif k == "cptr":
            d = self.T.cptr()
            out = [S.get(d, 2, t) >= 0, S.get(d, 2, t) <= z3.Length(S.get(d, 1, t))]
        elif k == "struct" and depth < 2:
            dt = self.T.sort(ct)
            for i, (n, c, _) in enumerate(self.T.fields(ct.name)):
                out += self.type_facts(S.get(dt, i, t), c, depth + 1)
        elif k == "adt" and ct.name == "Value":
            V = VAL()
            out = [z3.Implies(V.is_VInt(t), z3.And(V.vi(t) >= -2**63, V.vi(t) < 2**63)),
                   z3.Implies(V.is_VDbl(t), z3.And(V.vd(t) >= 0, V.vd(t) < 2**64))]
        return out

    @staticmethod
    def rng(ct):
        if ct.signed:
            return -(2 ** (ct.bits - 1)), 2 ** (ct.bits - 1) - 1
        return 0, 2 ** ct.bits - 1

    def where(self, node):
        return "%s:%s" % (self.fr.fn.get("_qual", "?") if self.fr else "?", node.get("line", ""))

    def ob(self, st, name, goal, node=None, kind="post"):
        goal = z3.simplify(goal) if not has_quant(goal) else goal
        if self.quiet:
            return
        w = self.where(node) if node is not None else self.top
        if z3.is_true(goal):
            o = Ob(name, [], goal, w, kind, self.top)
            o.status, o.backend = "discharged", "simplify"
            self.obs.append(o)
            return
        self.obs.append(Ob(name, list(st.pc), goal, w, kind, self.top))

    def light(self, pc):
        return [t for t in pc if not has_quant(t)]

    def check(self, facts, ms, **params):
        s = z3.Solver()
        s.set("timeout", ms)
        for k, x in params.items(): s.set("smt." + k, x)
        s.add(*facts)
        t0 = time.time()
        r = s.check()
        self.smt_time += time.time() - t0
        self.smt_calls += 1
        if self.deadline and time.time() > self.deadline:
            raise Unsupported("symbolic execution exceeded its time budget")
        return r, s

    def feasible(self, st, cond=None):
        if cond is not None:
            c = z3.simplify(cond)
            if z3.is_false(c):
                return False
            if z3.is_true(c):
                return True
        else:
            c = z3.BoolVal(True)
        key = ("f", tuple(t.get_id() for t in st.pc), c.get_id())
        if key in self.pvcache:
            return self.pvcache[key][0]
        r, _ = self.check(self.light(st.pc) + [c], self.opts["feas_ms"])
        v = r != z3.unsat
        self.pvcache[key] = (v, list(st.pc), c)
        return v

    def proves(self, st, goal, ms=None, full=False):
        g = z3.simplify(goal)
        if z3.is_true(g):
            return True
        if z3.is_false(g):
            return False
        key = ("p", full, tuple(t.get_id() for t in st.pc), g.get_id())
        if key in self.pvcache:
            return self.pvcache[key][0]
        facts = st.pc if full else self.light(st.pc)
        r, _ = self.check(list(facts) + [z3.Not(g)], ms or self.opts["prove_ms"])
        v = r == z3.unsat
        self.pvcache[key] = (v, list(st.pc), g)
        return v

    # ------------------------------------------------------------ store
    def new_root(self, name, ct):
        r = "%s#%d" % (name, next(self.n))
        self.roots[r] = ct
        return r

    def root_lv(self, root):
        return LV(root, (), self.roots[root])

    def load(self, st, lv):
        v = st.store[lv.root]
        if isinstance(v, LVRef):
            base = v.lv
            lv = LV(base.root, base.path + lv.path, lv.ct)
            return self.load(st, lv)
        for a, b, bct in lv.path:
            v = self.step(st, v, a, b, bct)
        if lv.path and lv.path[-1][0] == "c" and lv.ct.kind == "int" and lv.ct.bits == 8 and not lv.ct.signed:
            # unsigned char element: the byte itself
            if isnum(v):
                v = z3.IntVal(v.as_long() % 256)
            elif z3.is_app(v) and v.decl().kind() == z3.Z3_OP_ITE and z3.is_app(v.arg(1)) and v.arg(1).eq(v.arg(2) - 256):
                v = v.arg(2)
        if lv.ct.kind in ("int", "dbl") and z3.is_expr(v) and not isnum(v) and lv.path:
            if v.decl().kind() == z3.Z3_OP_UNINTERPRETED or v.decl().kind() in (z3.Z3_OP_SELECT, z3.Z3_OP_DT_ACCESSOR):
                key = ("tf", v.get_id())
                if key not in st.aux:
                    st.aux[key] = v
                    if v.decl().name() == "byte":
                        st.assume(v >= 0, v <= 255)
                    else:
                        self.assume_type(st, v, lv.ct)
        elif lv.ct.kind == "adt" and z3.is_expr(v) and lv.path:
            key = ("tf", v.get_id())
            if key not in st.aux:
                st.aux[key] = v
                if v.decl().kind() in (z3.Z3_OP_SELECT, z3.Z3_OP_DT_ACCESSOR, z3.Z3_OP_UNINTERPRETED):
                    self.assume_type(st, v, lv.ct)
        elif lv.ct.kind in ("vec", "arr") and z3.is_expr(v):
            n = S.get(self.T.sort(lv.ct), 1, v)
            key = ("tf", n.get_id())
            if key not in st.aux and not isnum(n):
                st.aux[key] = n
                st.assume(n >= 0, n <= 2**40)
        return v

    def step(self, st, v, a, b, bct):
        if a == "f":
            i, _ = self.T.field_index(bct.name, b)
            if not z3.is_expr(v):
                raise Unsupported("field of non-term")
            return S.get(self.T.struct(bct.name), i, v)
        if a == "i":
            dt = self.T.sort(bct)
            return sel(S.get(dt, 0, v), b)
        if a == "m":
            dt = self.T.sort(bct)
            return sel(S.get(dt, 1, v), b)
        if a == "h":
            return self.heap_get(st, v, b)
        if a == "p":
            return S.get(self.T.sort(bct), b, v)
        if a == "c":
            x = S.byte(v, b)
            if isnum(x):
                n = x.as_long()
                return z3.IntVal(n - 256 if n > 127 else n)
            if x.decl().name() == "byte":
                key = ("tf", x.get_id())
                if key not in st.aux:
                    st.aux[key] = x
                    st.assume(x >= 0, x <= 255)
            return z3.If(x > 127, x - 256, x)
        raise Unsupported("step " + a)

    def save(self, st, lv, val):
        v = st.store.get(lv.root)
        if isinstance(v, LVRef):
            base = v.lv
            return self.save(st, LV(base.root, base.path + lv.path, lv.ct), val)
        st.wlog.add(lv.static())
        st.store[lv.root] = self.rebuild(st, v, lv.path, val)

    def rebuild(self, st, v, path, val):
        if not path:
            return val
        a, b, bct = path[0]
        inner = self.step(st, v, a, b, bct) if len(path) > 1 else None
        nv = self.rebuild(st, inner, path[1:], val)
        if a == "f":
            i, _ = self.T.field_index(bct.name, b)
            if not z3.is_expr(nv):
                nv = self.to_term(st, nv)
            if self.T.is_union(bct.name):      # writing one member makes the others unspecified
                return mk(self.T.struct(bct.name), *[nv if j == i else self.fresh("union_" + f[0], self.T.sort(f[1])) for j, f in enumerate(self.T.fields(bct.name))])
            return S.upd(self.T.struct(bct.name), i, v, nv)
        if a == "i":
            dt = self.T.sort(bct)
            return S.upd(dt, 0, v, z3.Store(S.get(dt, 0, v), b, self.to_term(st, nv)))
        if a == "m":
            dt = self.T.sort(bct)
            v2 = S.upd(dt, 1, v, z3.Store(S.get(dt, 1, v), b, self.to_term(st, nv)))
            return v2
        if a == "h":
            return z3.Store(v, b, self.to_term(st, nv))
        if a == "p":
            return S.upd(self.T.sort(bct), b, v, self.to_term(st, nv))
        if a == "c":
            c = nv
            if isnum(c):
                c = z3.IntVal(c.as_long() % 256)
            else:
                u = S.unsbyte(c)
                if u is not None: c = u
                c = z3.simplify(c % 256) if not S.isbyte(c) and not self.proves(st, z3.And(c >= 0, c <= 255)) else c
            return S.UPD(v, b, c)
        raise Unsupported("rebuild " + a)

    def to_term(self, st, v):
        if z3.is_expr(v):
            return v
        if isinstance(v, PtrLV):
            return self.address(st, v.lv)
        if isinstance(v, bool):
            return z3.BoolVal(v)
        if isinstance(v, int):
            return z3.IntVal(v)
        raise Unsupported("cannot store a %s in a term" % type(v).__name__)

    def address(self, st, lv):
        if lv.path and lv.path[-1][0] == "h" and len(lv.path) == 1:
            return lv.path[-1][1]
        k = lv.key()
        t = self.addr_of.get(k)
        if t is None:
            t = z3.Int("addr!%d" % next(self.n))
            self.addr_of[k] = t
            self.addr[t.get_id()] = (t, lv)
        key = ("tf", t.get_id())
        if key not in st.aux:
            st.aux[key] = t
            st.assume(t > 0)
        return t

    def heap_get(self, st, h, p):
        """element of a heap; stores at objects that were created apart from p are skipped"""
        al = st.aux.get("allocs", ())
        known = lambda x: any(x.eq(q) for q in al)
        while z3.is_app(h) and h.decl().kind() == z3.Z3_OP_STORE:
            if h.arg(1).eq(p): return h.arg(2)
            if not (known(p) and known(h.arg(1))): break
            h = h.arg(0)
        return sel(h, p)

    def heap(self, st, ct):
        name = "heap:%s" % (ct.name or ct.kind)
        if name not in self.roots:
            self.roots[name] = CT("heap", args=[ct])
        if name not in st.store:
            # same initial heap in all states
            st.store[name] = z3.Const("H_" + re.sub(r"\W", "_", name), z3.ArraySort(I, self.T.sort(ct)))
        return name

    def on_deref(self, st, v, ct, node):
        if ct.kind == "str" and "g:live" in st.store:
            self.ob(st, "the string pointed to is alive", z3.Select(st.store["g:live"], v), node, "safety")

    def deref(self, st, v, ct, node=None):
        """lvalue a pointer value points to (ct = pointee type)"""
        if isinstance(v, PtrLV):
            return v.lv
        if z3.is_expr(v):
            a = self.addr.get(v.get_id())
            if a is not None and a[0].eq(v):
                return a[1]
            if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_ITE:
                if self.proves(st, v.arg(0)): return self.deref(st, v.arg(1), ct, node)
                if self.proves(st, z3.Not(v.arg(0))): return self.deref(st, v.arg(2), ct, node)
            if self.opts["bounds"]:
                self.ob(st, "null pointer dereference", v != 0, node, "safety")
                st.assume(v != 0)
            if ct.kind == "opaque":
                raise Unsupported("deref of opaque " + ct.name)
            self.on_deref(st, v, ct, node)
            h = self.heap(st, ct)
            return LV(h, (("h", v, self.roots[h]),), ct)
        raise Unsupported("deref of %s" % type(v).__name__)

    def rv(self, st, v):
        return self.load(st, v) if isinstance(v, LV) else v

    def default(self, st, ct, init=True):
        """default-constructed value"""
        k = ct.kind
        if k == "str": return slit("")
        if k == "vec":
            dt = self.T.sort(ct)
            return mk(dt, z3.K(I, self.default_elem(ct.args[0])), z3.IntVal(0))
        if k == "map":
            dt = self.T.sort(ct)
            ks = self.T.sort(ct.args[0])
            return mk(dt, z3.K(ks, z3.BoolVal(False)), z3.K(ks, self.default_elem(ct.args[1])))
        if k == "set":
            return mk(self.T.sort(ct), z3.K(self.T.sort(ct.args[0]), z3.BoolVal(False)))
        if k == "adt" and ct.name == "Value": return VAL().VUndef
        if k == "adt" and ct.name == "Buffer": return BUF().mk_Buffer(slit(""))
        if k == "adt" and ct.name == "GeoDiffException": return slit("")
        if k == "exc": return slit("")
        if k == "ptr": return z3.IntVal(0) if ct.name == "smart" or not init else self.fresh("uninit", I)
        if k == "stream": return slit("")
        if k == "cptr":
            return self.null_cptr()
        if k in ("int", "dbl", "bool", "fnptr", "opaque"):
            return self.fresh_ct("uninit", ct, st) if ct.kind not in ("opaque",) else self.fresh("opq", I)
        if k == "pair":
            return mk(self.T.sort(ct), self.default(st, ct.args[0]), self.default(st, ct.args[1]))
        if k == "arr":
            return self.fresh_ct("uninit", ct, st)
        if k == "struct":
            return self.default_struct(st, ct)
        raise Unsupported("default of %r" % ct)

    def null_cptr(self):
        return mk(self.T.cptr(), z3.BoolVal(True), slit(""), z3.IntVal(0))

    def cptr(self, data, off=0):
        return mk(self.T.cptr(), z3.BoolVal(False), data, z3.IntVal(off) if isinstance(off, int) else off)

    def default_elem(self, ct):
        """a fixed value used to fill fresh arrays (value-initialised element)"""
        c = self.T.__dict__.setdefault("_fill", {})
        r = repr(ct)
        if r not in c: c[r] = self.make_default_elem(ct)
        return c[r]

    def make_default_elem(self, ct):
        k = ct.kind
        if k in ("int", "ptr", "fnptr", "opaque"): return z3.IntVal(0)
        if k == "dbl": return z3.IntVal(0)
        if k == "bool": return z3.BoolVal(False)
        st = State()
        if k == "struct":
            f = self.prog.find(ct.name + "::" + ct.name.split("::")[-1], 0)
            if f is not None and any(x.get("kind") == "CompoundStmt" for x in f[1].get("inner", [])):
                # a user-provided default constructor
                root = self.new_root("deflt", ct)
                st.scopes.append([])
                st.store[root] = self.default(st, ct)
                outs = self.run_function(f[0], f[1], LV(root, (), ct), [], st)
                if len(outs) == 1 and outs[0][1] != "throw": return self.load(outs[0][0], LV(root, (), ct))
                raise Unsupported("default constructor of " + ct.name)
        t = self.default(st, ct)          # value-initialised: members without initialiser are zero
        free, todo = {}, [t]
        while todo:
            x = todo.pop()
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name().startswith("uninit"): free[x.decl().name()] = x
            todo += x.children()
        return z3.substitute(t, [(x, z3.IntVal(0) if x.sort() == I else z3.BoolVal(False)) for x in free.values() if x.sort() in (I, z3.BoolSort())]) if free else t

    def default_struct(self, st, ct):
        dt = self.T.sort(ct)
        vals = []
        fs = self.T.fields(ct.name)
        for n, c, d in fs:
            init = [x for x in d.get("inner", []) if x.get("kind", "").endswith("Expr") or x.get("kind", "").endswith("Literal") or "Operator" in x.get("kind", "")]
            if d.get("hasInClassInitializer") and init:
                fr, self.fr = getattr(self, "fr", None), Frame(self.T.records[ct.name].get("_tu"), None, None)
                try:
                    rs = self.ev(init[0], st)
                finally:
                    self.fr = fr
                if len(rs) != 1:
                    raise Unsupported("branching member initialiser")
                v = self.to_term(st, self.rv(rs[0][0], rs[0][1]))
                vals.append(v)
            else:
                vals.append(self.default(st, c))
        if not fs:
            vals = [z3.IntVal(0)]
        return mk(dt, *vals)

    # ------------------------------------------------------------ statements
    # outcomes: list of (state, kind, value) kind in normal/return/break/continue/throw
    def stmt(self, n, st):
        if n is None:
            return [(st, "normal", None)]
        k = n["kind"]
        m = getattr(self, "s_" + k, None)
        if m is None:
            # expression statement
            return self.expr_stmt(n, st)
        return m(n, st)

    def expr_stmt(self, n, st):
        rs, thr = self.collect(lambda: self.ev(n, st))
        return [(s, "normal", None) for s, _ in rs] + [(s, "throw", e) for s, e in thr]

    def collect(self, f):
        old, self.thr = self.thr, []
        try:
            rs = f()
            thr = self.thr
        finally:
            self.thr = old
        return rs, thr

    def s_NullStmt(self, n, st): return [(st, "normal", None)]

    def s_CompoundStmt(self, n, st):
        st.scopes.append([])
        outs = self.seq(n.get("inner", []), st)
        return self.leave_scope(outs)

    def leave_scope(self, outs):
        res = []
        for s, k, v in outs:
            objs = s.scopes.pop()
            cur = [(s, k, v)]
            for root in reversed(objs):
                nxt = []
                for s2, k2, v2 in cur:
                    for s3, k3, v3 in self.destroy(s2, root):
                        if k3 == "throw" :
                            if k2 == "throw":
                                nxt.append((s3, "throw", Exc("std::terminate", None, "destructor throws during unwinding")))
                            else:
                                nxt.append((s3, "throw", v3))
                        else:
                            nxt.append((s3, k2, v2))
                cur = nxt
            res += cur
        return res

    def destroy(self, st, root):
        ct = self.roots[root]
        if isinstance(st.store.get(root), LVRef):
            return [(st, "normal", None)]
        rs, thr = self.collect(lambda: self.call_dtor(st, LV(root, (), ct)))
        return [(s, "normal", None) for s in rs] + [(s, "throw", e) for s, e in thr]

    def call_dtor(self, st, lv):
        name = lv.ct.name
        base = name.split("::")[-1]
        q = "%s::~%s" % (name, base)
        rs = self.call_named(q, [], lv, st, None)
        return [s for s, _ in rs]

    def has_dtor(self, ct):
        if ct.kind != "struct":
            return False
        base = ct.name.split("::")[-1]
        q = "%s::~%s" % (ct.name, base)
        if q in self.contracts:
            return True
        f = self.prog.find(q, 0)
        return f is not None and not f[1].get("isImplicit") and not f[1].get("explicitlyDefaulted") and not trivial_body(f[1].get("_body"))

    def seq(self, stmts, st):
        outs = [(st, "normal", None)]
        for x in stmts:
            nxt = []
            for s, k, v in outs:
                if k != "normal":
                    nxt.append((s, k, v))
                else:
                    nxt += self.stmt(x, s)
            outs = nxt
            if len(outs) > MAXPATHS:
                raise Unsupported("too many paths")
            if not any(k == "normal" for _, k, _ in outs):
                break
        return outs

    def s_DeclStmt(self, n, st):
        outs = [(st, "normal", None)]
        for d in n.get("inner", []):
            if d["kind"] != "VarDecl":
                continue
            nxt = []
            for s, k, v in outs:
                if k != "normal":
                    nxt.append((s, k, v)); continue
                nxt += self.vardecl(d, s)
            outs = nxt
        return outs

    def declare(self, d, ct):
        root = self.fr.vars.get(d["id"])
        if root is None:
            root = self.new_root(d.get("name", "tmp"), ct)
            self.fr.vars[d["id"]] = root
        self.roots[root] = ct
        return root

    def vardecl(self, d, st):
        try:
            ct = self.T.parse(d["type"])
        except Unsupported:
            if "lambda" in d["type"].get("qualType", ""):
                ct = CT("lambda")
            else:
                raise
        init = [x for x in d.get("inner", []) if x.get("kind") not in ("FullComment",)]
        if d.get("storageClass") == "static":
            root = self.declare(d, ct)
            if root not in st.store:
                st.store[root] = self.fresh_ct("static_" + d["name"], ct, st)
            return [(st, "normal", None)]
        def go():
            res = []
            if ct.kind == "ref":
                for s, v in self.ev(init[0], st):
                    root = self.declare(d, ct.args[0])
                    if isinstance(v, LV):
                        s.store[root] = LVRef(self.resolve(s, v))
                    else:
                        s.store[root] = v
                        if self.has_dtor(ct.args[0]):
                            s.scopes[-1].append(root)
                    res.append((s, None))
                return res
            if not init:
                root = self.declare(d, ct)
                st.store[root] = self.default(st, ct) if ct.kind != "iter" else None
                if ct.kind == "arr" and ct.args[0].kind == "int" and ct.args[0].bits == 8:
                    st.store[root] = self.fresh("buf_" + d["name"], Str)
                    self.roots[root] = CT("str", raw="chararr")
                    st.assume(z3.Length(st.store[root]) == (ct.bits or 0))
                st.wlog.add((root, ()))
                return [(st, None)]
            for s, v in self.ev(init[0], st):
                v = self.rv(s, v)
                root = self.declare(d, ct)
                if ct.kind == "arr" and ct.args[0].kind == "int" and ct.args[0].bits == 8:
                    self.roots[root] = CT("str", raw="chararr")
                s.store[root] = v
                s.wlog.add((root, ()))
                if self.has_dtor(ct):
                    s.scopes[-1].append(root)
                res.append((s, None))
            return res
        rs, thr = self.collect(go)
        return [(s, "normal", None) for s, _ in rs] + [(s, "throw", e) for s, e in thr]

    def resolve(self, st, lv):
        """follow reference variables"""
        v = st.store.get(lv.root)
        while isinstance(v, LVRef):
            lv = LV(v.lv.root, v.lv.path + lv.path, lv.ct)
            v = st.store.get(lv.root)
        return lv

    def s_ReturnStmt(self, n, st):
        inner = n.get("inner", [])
        if not inner:
            return [(st, "return", None)]
        rs, thr = self.collect(lambda: self.ev(inner[0], st))
        outs = []
        isref = self.fr.fn.get("_retref", False)
        for s, v in rs:
            if isinstance(v, LV):
                v = self.resolve(s, v) if isref else self.rv(s, v)
            outs.append((s, "return", v))
        return outs + [(s, "throw", e) for s, e in thr]

    def s_IfStmt(self, n, st):
        inner = list(n["inner"])
        pre = []
        if n.get("hasInit") or n.get("hasVar"):
            raise Unsupported("if with init")
        cond, then = inner[0], inner[1]
        els = inner[2] if len(inner) > 2 else None
        outs = []
        rs, thr = self.collect(lambda: self.branch(cond, st))
        for s, b in rs:
            outs += self.stmt(then if b else els, s)
        return outs + [(s, "throw", e) for s, e in thr]

    def branch(self, cond, st):
        """evaluate a condition and split; list of (state, python bool)"""
        res = []
        for s, v in self.ev(cond, st):
            c = self.tobool(s, v)
            c = z3.simplify(c)
            if z3.is_true(c):
                res.append((s, True)); continue
            if z3.is_false(c):
                res.append((s, False)); continue
            t, f = self.feasible(s, c), self.feasible(s, z3.Not(c))
            if t and f:
                s2 = s.fork()
                res.append((s.assume(c), True)); res.append((s2.assume(z3.Not(c)), False))
                self.pathcount += 1
            elif t:
                res.append((s.assume(c), True))
            elif f:
                res.append((s.assume(z3.Not(c)), False))
        return res

    def tobool(self, st, v):
        v = self.rv(st, v)
        if isinstance(v, (PtrLV, Lambda)):
            return z3.BoolVal(True)
        if z3.is_bool(v):
            return v
        if v.sort() == I:
            return v != 0
        if v.sort() == self.T.cptr():
            return z3.Not(S.get(self.T.cptr(), 0, v))
        raise Unsupported("tobool")

    def s_SwitchStmt(self, n, st):
        cond, body = n["inner"][0], n["inner"][1]
        items = []      # (labels or None, stmt)
        def flat(x, labels):
            if x["kind"] == "CaseStmt":
                v = self.const_int(x["inner"][0])
                sub = x["inner"][1] if len(x["inner"]) > 1 else None
                if sub is not None and sub["kind"] in ("CaseStmt", "DefaultStmt"):
                    flat(sub, labels + [v])
                else:
                    items.append((labels + [v], sub))
            elif x["kind"] == "DefaultStmt":
                sub = x["inner"][0] if x.get("inner") else None
                if sub is not None and sub["kind"] in ("CaseStmt", "DefaultStmt"):
                    flat(sub, labels + ["default"])
                else:
                    items.append((labels + ["default"], sub))
            else:
                items.append((labels, x))
        for x in body.get("inner", []):
            flat(x, [])
        rs, thr = self.collect(lambda: [(s, self.rv(s, v)) for s, v in self.ev(cond, st)])
        outs = [(s, "throw", e) for s, e in thr]
        allv = [v for ls, _ in items for v in ls if v != "default"]
        for s, v in rs:
            targets = []
            for idx, (ls, _) in enumerate(items):
                for l in ls:
                    if l == "default":
                        c = z3.And([v != a for a in allv]) if allv else z3.BoolVal(True)
                    else:
                        c = v == l
                    targets.append((idx, c))
            if not any("default" in ls for ls, _ in items):
                targets.append((len(items), z3.And([v != a for a in allv])))
            for idx, c in targets:
                if not self.feasible(s, c):
                    continue
                s2 = s.fork().assume(z3.simplify(c))
                s2.scopes.append([])
                o = self.seq([x for _, x in items[idx:] if x is not None], s2)
                o = self.leave_scope(o)
                outs += [(a, "normal" if k == "break" else k, b) for a, k, b in o]
        return outs

    def const_int(self, x):
        from .ast import _cv
        if x.get("kind") == "ConstantExpr" and "value" in x:
            return int(x["value"])
        v = _cv(x)
        if v is None:
            raise Unsupported("case label")
        return v

    def s_BreakStmt(self, n, st): return [(st, "break", None)]
    def s_ContinueStmt(self, n, st): return [(st, "continue", None)]

    def s_CXXTryStmt(self, n, st):
        body = n["inner"][0]
        handlers = n["inner"][1:]
        depth = len(st.scopes)
        outs = []
        for s, k, v in self.stmt(body, st):
            if k != "throw" or v.ctype == "std::terminate":
                outs.append((s, k, v)); continue
            done = False
            for h in handlers:
                var = h["inner"][0] if h["inner"] and h["inner"][0] and h["inner"][0].get("kind") == "VarDecl" else None
                hb = next(x for x in h["inner"] if x and x.get("kind") == "CompoundStmt")
                if var is not None:
                    ht = re.sub(r"\b(const|struct|class)\b|&", "", var["type"]["qualType"]).strip()
                    if not self.catches(ht, v.ctype):
                        continue
                    root = self.declare(var, CT("exc", ht))
                    s.store[root] = v
                self.roots.setdefault("exc", CT("exc"))
                s.store["g:exc"] = v
                outs += self.stmt(hb, s)
                done = True
                break
            if not done:
                outs.append((s, k, v))
        return outs

    def catches(self, ht, et):
        if ht == et or et.endswith("::" + ht):
            return True
        if ht in ("std::exception", "exception"):
            return et != "int"
        return False

    # ------------------------------------------------------------ loops
    def s_WhileStmt(self, n, st):
        inner = n["inner"]
        return self.loop(n, st, None, inner[0], None, inner[-1])

    def s_ForStmt(self, n, st):
        init, var, cond, inc, body = (n["inner"] + [None] * 5)[:5]
        def blank(x): return None if (x is None or not x.get("kind")) else x
        init, cond, inc, body = blank(init), blank(cond), blank(inc), blank(body)
        st.scopes.append([])
        outs = []
        for s, k, v in (self.stmt(init, st) if init else [(st, "normal", None)]):
            if k != "normal":
                outs.append((s, k, v)); continue
            outs += self.loop(n, s, None, cond, inc, body)
        return self.leave_scope(outs)

    def s_DoStmt(self, n, st):
        body, cond = n["inner"][0], n["inner"][1]
        # body once, then a while loop
        outs = []
        for s, k, v in self.stmt(body, st):
            if k == "break":
                outs.append((s, "normal", None))
            elif k in ("normal", "continue"):
                outs += self.loop(n, s, None, cond, None, body)
            else:
                outs.append((s, k, v))
        return outs

    def s_CXXForRangeStmt(self, n, st):
        inner = [x for x in n["inner"]]
        # [init?, rangeDecl, beginDecl, endDecl, cond, inc, loopVarDecl, body]
        body = inner[-1]
        loopvar = inner[-2]["inner"][0]
        rangedecl = next(x for x in inner if x and x.get("kind") == "DeclStmt" and x["inner"][0].get("name", "").startswith("__range"))
        rinit = [x for x in rangedecl["inner"][0].get("inner", []) if x][0]
        st.scopes.append([])
        outs = []
        rs, thr = self.collect(lambda: self.ev(rinit, st))
        for s, v in rs:
            if not isinstance(v, LV):
                rct = self.T.parse(rangedecl["inner"][0]["type"])
                if rct.kind == "ref": rct = rct.args[0]
                root = self.new_root("range", rct)
                s.store[root] = v
                v = LV(root, (), rct)
            v = self.resolve(s, v)
            outs += self.range_loop(n, s, v, loopvar, body)
        outs += [(s, "throw", e) for s, e in thr]
        return self.leave_scope(outs)

    def range_loop(self, n, st, cont, loopvar, body):
        key = "__idx@" + n.get("id", "")
        root = self.fr.vars.get(key)
        if root is None:
            root = self.new_root("__idx", SIZE)
            self.fr.vars[key] = root
        st.store[root] = z3.IntVal(0)
        st.wlog.add((root, ()))
        idx = LV(root, (), SIZE)
        k = cont.ct.kind
        lct = self.T.parse(loopvar["type"])
        cv = self.load(st, cont)
        if k in ("vec", "arr"):
            elem = cont.ct.args[0]
            length = lambda s: S.get(self.T.sort(cont.ct), 1, self.load(s, cont))
            def bind(s):
                i = self.load(s, idx)
                lv = cont.i(i, elem)
                r = self.declare(loopvar, lct.args[0] if lct.kind == "ref" else lct)
                s.store[r] = LVRef(lv) if lct.kind == "ref" else self.load(s, lv)
                s.wlog.add((r, ()))
        elif k == "str":
            length = lambda s: slen(self.load(s, cont))
            def bind(s):
                r = self.declare(loopvar, lct.args[0] if lct.kind == "ref" else lct)
                lv = cont.c(self.load(s, idx))
                s.store[r] = LVRef(lv) if lct.kind == "ref" else self.load(s, lv)
                s.wlog.add((r, ()))
        elif k in ("map", "set"):
            keys = self.enum_keys(st, cont, cv)
            length = lambda s: keys[1]
            base = cv
            def bind(s):
                i = self.load(s, idx)
                kt = keys[0](i)
                s.assume(keys[2](i))
                r = self.declare(loopvar, lct.args[0] if lct.kind == "ref" else lct)
                if k == "set":
                    s.store[r] = kt
                else:
                    pct = CT("pair", args=cont.ct.args)
                    pdt = self.T.sort(pct)
                    self.roots[r] = pct
                    if lct.kind == "ref":
                        s.store[r] = MapElem(cont, kt)
                    else:
                        s.store[r] = mk(pdt, kt, sel(S.get(self.T.sort(cont.ct), 1, self.load(s, cont)), kt))
                s.wlog.add((r, ()))
        else:
            raise Unsupported("range-for over %s" % k)
        rl = dict(idx=idx, length=length, bind=bind, cont=cont)
        return self.loop(n, st, rl, None, None, body)

    def enum_keys(self, st, cont, cv):
        """enumeration of the keys of a map/set value: (key(i), count, facts(i))"""
        kct = cont.ct.args[0]
        ks = self.T.sort(kct)
        dt = self.T.sort(cont.ct)
        dom = S.get(dt, 0, cv)
        f = z3.Function("key_" + sname(dom.sort()), dom.sort(), I, ks)
        cnt = z3.Function("card_" + sname(dom.sort()), dom.sort(), I)
        pos = z3.Function("pos_" + sname(dom.sort()), dom.sort(), ks, I)
        n = cnt(dom)
        i = z3.Int("qi"); kk = z3.Const("qk", ks)
        st.assume(n >= 0, n <= 2**40)
        st.assume(FA(kk, z3.Implies(z3.Select(dom, kk), z3.And(pos(dom, kk) >= 0, pos(dom, kk) < n, f(dom, pos(dom, kk)) == kk)), pos(dom, kk)))
        st.assume(FA(i, z3.Implies(z3.And(i >= 0, i < n), z3.And(z3.Select(dom, f(dom, i)), pos(dom, f(dom, i)) == i)), f(dom, i)))
        def facts(t):
            x = f(dom, t)
            b = z3.Implies(z3.And(t >= 0, t < n), z3.And(z3.Select(dom, x), pos(dom, x) == t))
            if kct.kind == "int":      # numbers are enumerated in ascending order
                b = z3.And(b, FA(kk, z3.Implies(z3.And(z3.Select(dom, kk), pos(dom, kk) < t), kk < x), pos(dom, kk)))
            return b
        return (lambda t: f(dom, t)), n, facts

    def loop(self, n, st, rl, cond, inc, body):
        ex = self
        unroll = self.try_unroll(n, st, rl, cond, inc, body)
        if unroll is not None:
            return unroll
        entry = st.fork()

        def one_iter(s):
            """from a state at the loop head: (exit states, back-edge states, other outcomes)"""
            exits, backs, others = [], [], []
            if rl is not None:
                i, ln = self.load(s, rl["idx"]), rl["length"](s)
                se = s.fork().assume(i >= ln)
                if self.feasible(se):
                    exits.append(se)
                s.assume(i < ln)
                if not self.feasible(s):
                    return exits, backs, others
                rl["bind"](s)
                starts = [s]
            elif cond is None:
                starts = [s]
            else:
                rs, thr = self.collect(lambda: self.branch(cond, s))
                starts = []
                for s2, b in rs:
                    (starts if b else exits).append(s2)
                others += [(s2, "throw", e) for s2, e in thr]
            for s2 in starts:
                for s3, k, v in self.stmt(body, s2):
                    if k == "break":
                        exits.append(s3)
                    elif k in ("normal", "continue"):
                        if rl is not None:
                            self.save(s3, rl["idx"], add(self.load(s3, rl["idx"]), z3.IntVal(1)))
                            backs.append(s3)
                        elif inc is not None:
                            rs, thr = self.collect(lambda: self.ev(inc, s3))
                            backs += [a for a, _ in rs]
                            others += [(a, "throw", e) for a, e in thr]
                        else:
                            backs.append(s3)
                    else:
                        others.append((s3, k, v))
            return exits, backs, others

        # 1. write set
        W = set()
        self.quiet += 1
        self.wdisc = getattr(self, "wdisc", 0) + 1
        try:
            for rnd in range(6):
                s = self.havoc(entry.fork(), W)
                s.wlog = set()
                _, backs, _ = one_iter(s)
                new = set()
                for b in backs:
                    new |= {w for w in b.wlog if w[0] in entry.store}
                new |= W
                new = minimal(new)
                if new == W:
                    break
                W = new
            else:
                raise Unsupported("write set does not stabilise")
        finally:
            self.quiet -= 1
            self.wdisc -= 1

        # 2. candidate invariants
        info = LoopCtx(self, n, entry, W, rl, cond)
        cands = info.candidates()
        # nested loops: what was dropped in an earlier round of the enclosing loop stays dropped (its facts only get weaker)
        stack = self.__dict__.setdefault("dropcache", [])
        memo = None
        if stack:
            cache, cnt = stack[-1]
            cnt[id(n)] = cnt.get(id(n), 0) + 1
            memo = cache.setdefault((id(n), cnt[id(n)]), set())
            cands = [c for c in cands if c[0] not in memo]
        if self.wdisc: cands = []
        all_names = {c[0] for c in cands}
        cands = [c for c in cands if self.initially(entry, c)]
        self.quiet += 1
        stack.append(({}, {}))
        try:
            for rnd in range(12):
                stack[-1][1].clear()
                s = self.havoc(entry.fork(), W)
                head = s.fork()
                for c in cands:
                    f = c[1](s)
                    if f is not None: s.assume(f)
                exits, backs, others = one_iter(s)
                keep = []
                for c in cands:
                    ok = True
                    for b in backs:
                        g = c[1](b)
                        if g is None:
                            continue
                        if not self.inv_holds(b, g, len(c) > 2, c[0].startswith("*")):
                            if self.opts.get("debug"): print("   drop:", c[0], "round", rnd)
                            ok = False
                            if isinstance(self.opts.get("debug"), str) and self.opts["debug"] in c[0]:
                                print("      back edge", backs.index(b), [str(z3.simplify(t))[:160] for t in b.pc if not has_quant(t)][-45:])
                                continue
                            break
                    if ok:
                        keep.append(c)
                if len(keep) == len(cands):
                    break
                cands = keep
            else:
                raise Unsupported("invariant filtering does not stabilise")
        finally:
            self.quiet -= 1
            mine = stack.pop()
        if memo is not None and not self.wdisc: memo |= all_names - {c[0] for c in cands}
        self.loopinfo.append((self.where(n), len(backs), [c[0] for c in cands]))

        # 3. final execution with obligations on
        for c in cands:
            g = c[1](entry)
            self.ob(entry, "loop invariant holds initially: " + c[0], g if g is not None else z3.BoolVal(True), n, "inv")
        s = self.havoc(st, W)
        for c in cands:
            f = c[1](s)
            if f is not None: s.assume(f)
        head = s.fork()
        mine[1].clear()
        stack.append(mine)
        try:
            exits, backs, others = one_iter(s)
        finally:
            stack.pop()
        for b in backs:
            for c in cands:
                g = c[1](b)
                if g is not None:
                    self.ob(b, "loop invariant preserved: " + c[0], g, n, "inv")
            if self.opts["term"]:
                self.termination(n, info, head, b, cond, rl)
        return [(e, "normal", None) for e in exits] + others

    def initially(self, entry, c):
        self.quiet += 1
        try:
            g = c[1](entry)
            r = g is None or self.inv_holds(entry, g, len(c) > 2)
            if not r and self.opts.get("debug"): print("   not initially:", c[0])
            return r
        except Exception as ex:
            if self.opts.get("debug"):
                print("cand", c[0], "->", repr(ex))
            return False
        finally:
            self.quiet -= 1

    def inv_holds(self, st, g, given=True, strong=False):
        gid = g.get_id()
        if any(t.get_id() == gid for t in st.pc): return True        # literally a known fact
        if not has_quant(g):
            g = z3.simplify(g)
        if z3.is_true(g):
            return True
        if z3.is_false(g):
            return not self.feasible(st)
        from .solve import instantiate, negate
        facts = list(st.pc)
        allf = instantiate(facts + negate(g), self.opts.get('fuel', 3))
        ms = self.opts["houdini_ms"]
        import time as _t; t0 = _t.time()
        ms = ms if given else min(ms, 1500)
        for p in ({}, dict(random_seed=5), dict(random_seed=11), dict(random_seed=23)):
            r, _ = self.check(allf, max(300, ms // 4), **p)
            if r != z3.unknown: break
        ms = self.opts["houdini_ms"]
        if self.opts.get("debug") and _t.time() - t0 > 1: print("   slow", round(_t.time() - t0, 1), r, given, str(g)[:80].replace("\n", " "))
        if r == z3.unsat:
            return True
        if r == z3.unknown and strong:
            from .solve import discharge_text
            s = z3.Solver()
            for f in allf: s.add(f)
            if discharge_text(s.to_smt2(), 20)[0] == "discharged": return True
        if r == z3.unknown and given and self.opts.get("cvc5_inv"):
            from .solve import run_solver, fix_cvc5
            s = z3.Solver()
            for f in allf: s.add(f)
            ms = self.opts["cvc5_inv"]
            r2, _, _ = run_solver(["cvc5", "--strings-exp", "--tlimit=%d" % ms], "(set-logic ALL)\n" + fix_cvc5(s.to_smt2()), ms / 1000)
            if r2 == "unsat": return True
        if self.opts.get("debug") and self.opts.get("debug") != 1:
            print(r, "inv:", str(g)[:300])
        return False

    def termination(self, n, info, head, back, cond, rl):
        ms = info.measures()
        goals = []
        for name, m in ms:
            try:
                a, b = m(head), m(back)
                goals.append(z3.And(a > b, b >= 0))
                # also allow measure bounded below at head
                goals.append(z3.And(a > b, a >= 0))
            except Exception:
                pass
        goal = z3.Or(goals) if goals else z3.BoolVal(False)
        self.ob(back, "loop terminates (some measure decreases)", goal, n, "term")

    def try_unroll(self, n, st, rl, cond, inc, body):
        """fully unroll when the trip count is concretely decided (complete, not bounded)"""
        if rl is not None:
            ln = z3.simplify(rl["length"](st))
            if not isnum(ln) or ln.as_long() > 16:
                return None
            outs, cur = [], [st]
            for i in range(ln.as_long()):
                nxt = []
                for s in cur:
                    s.store[rl["idx"].root] = z3.IntVal(i)
                    rl["bind"](s)
                    for s3, k, v in self.stmt(body, s):
                        if k == "break": outs.append((s3, "normal", None))
                        elif k in ("normal", "continue"): nxt.append(s3)
                        else: outs.append((s3, k, v))
                cur = nxt
            return outs + [(s, "normal", None) for s in cur]
        if cond is None:
            return None
        if self.opts.get("split"):
            sp = self.split_small(st, cond)
            if sp is not None:
                mark = len(self.obs)
                outs = []
                for s in sp:
                    r = self.try_unroll1(n, s, cond, inc, body)
                    if r is None:
                        del self.obs[mark:]
                        return None
                    outs += r
                return outs
        return self.try_unroll1(n, st, cond, inc, body)

    def split_small(self, st, cond):
        """fork on the value of the small integer locals the loop condition talks about"""
        roots = []
        def walk(x):
            if not isinstance(x, dict): return
            if x.get("kind") == "DeclRefExpr":
                r = self.fr.vars.get(x["referencedDecl"]["id"])
                if r and r not in roots and self.roots[r].kind == "int": roots.append(r)
            for y in x.get("inner", []): walk(y)
        walk(cond)
        states = [st.fork()]
        did = False
        for r in roots:
            v = st.store.get(r)
            if not z3.is_expr(v) or isnum(v) : continue
            if not self.proves(st, z3.And(v >= 0, v <= self.opts["split"])): continue
            did = True
            nxt = []
            for s in states:
                for k in range(self.opts["split"] + 1):
                    if self.feasible(s, v == k):
                        s2 = s.fork().assume(v == k)
                        s2.store[r] = z3.IntVal(k)
                        nxt.append(s2)
            states = nxt
        return states if did else None

    def try_unroll1(self, n, st, cond, inc, body):
        if inc is None and not side_effects(cond):
            return None
        st = st.fork()
        def step(p):
            return self.ev(inc, p) if inc is not None else [(p, None)]
        # test whether the condition is syntactically decided on entry and after every step
        lim = self.opts.get("unroll", 9)
        self.quiet += 1
        try:
            probe = st.fork()
            rs, _ = self.collect(lambda: self.ev(cond, probe))
            if len(rs) != 1:
                return None
            c = z3.simplify(self.tobool(rs[0][0], rs[0][1]))
            if not (z3.is_true(c) or z3.is_false(c)):
                return None
            # run inc only on the probe, to see that the trip count is a small constant
            p = rs[0][0]
            cnt = 0
            while z3.is_true(c):
                cnt += 1
                if cnt > lim:
                    return None
                rs, _ = self.collect(lambda: step(p))
                if len(rs) != 1: return None
                p = rs[0][0]
                rs, _ = self.collect(lambda: self.ev(cond, p))
                if len(rs) != 1: return None
                p = rs[0][0]
                c = z3.simplify(self.tobool(p, rs[0][1]))
            if not z3.is_false(c):
                return None
        except Unsupported:
            return None
        finally:
            self.quiet -= 1
        outs, cur = [], [st]
        for i in range(lim + 2):
            nxt = []
            for s in cur:
                rs, thr = self.collect(lambda: self.branch(cond, s))
                outs += [(a, "throw", e) for a, e in thr]
                for s2, b in rs:
                    if not b:
                        outs.append((s2, "normal", None)); continue
                    for s3, k, v in self.stmt(body, s2):
                        if k == "break": outs.append((s3, "normal", None))
                        elif k in ("normal", "continue"):
                            rs2, thr2 = self.collect(lambda: step(s3))
                            nxt += [a for a, _ in rs2]
                            outs += [(a, "throw", e) for a, e in thr2]
                        else: outs.append((s3, k, v))
            cur = nxt
            if not cur:
                return outs
        return None

    def havoc(self, st, W):
        for root, path in sorted(W):
            ct = self.roots[root]
            v = st.store.get(root)
            if isinstance(v, LVRef):
                # the reference itself never changes; what it refers to is logged under the target root
                continue
            if ct.kind in ("exc", "lambda"):
                continue
            if isinstance(v, Iter) or ct.kind == "iter":
                if v is None or not isinstance(v, Iter):
                    continue
                ks = v.pos.sort()
                st.store[root] = Iter(v.lv, self.fresh("it", ks), self.fresh("itend", B))
                continue
            if ct.kind == "heap":
                st.store[root] = self.fresh("heap", v.sort())
                continue
            if ct.kind == "ghost":
                st.store[root] = self.fresh("ghost", v.sort())
                continue
            lv = LV(root, (), ct)
            for a, b in path:
                if a == "f":
                    _, fct = self.T.field_index(lv.ct.name, b)
                    lv = lv.f(b, fct)
                else:
                    lv = lv.p(b, lv.ct.args[b])
            if lv.ct.kind == "ptr" and isinstance(v, PtrLV):
                raise Unsupported("pointer variable modified in loop")
            if not path and not z3.is_expr(v) and v is not None:
                raise Unsupported("havoc of %s" % type(v).__name__)
            t = self.fresh_ct("h_" + root.split("#")[0], lv.ct, st) if lv.ct.kind not in ("opaque",) else self.fresh("opq", I)
            wl = set(st.wlog)
            self.save(st, lv, t)
        return st

    # ------------------------------------------------------------ function calls
    def run_function(self, tu, fn, this, args, st):
        """execute a function body in a new frame. args: values (LV for reference params).
        Returns outcomes (state, 'return'|'throw', value)."""
        if len(self.fnstack) > self.opts["inline_depth"]:
            raise Unsupported("inline depth")
        if fn["_qual"] in self.fnstack and self.fnstack.count(fn["_qual"]) > 1:
            raise Unsupported("recursion in " + fn["_qual"])
        fr = Frame(tu, fn, this)
        old = self.fr
        self.fr = fr
        self.fnstack.append(fn["_qual"])
        rt = fn["type"]["qualType"].split("(")[0].strip()
        fn["_retref"] = rt.endswith("&")
        nsc = len(st.scopes)
        try:
            params = [x for x in fn.get("inner", []) if x.get("kind") == "ParmVarDecl"]
            st.scopes.append([])
            for i, p in enumerate(params):
                ct = self.T.parse(p["type"])
                if i < len(args):
                    a = args[i]
                else:
                    init = [x for x in p.get("inner", []) if x.get("kind") not in ("FullComment",)]
                    if not init:
                        raise Unsupported("missing argument")
                    rs = self.ev(init[0], st)
                    if len(rs) != 1: raise Unsupported("branching default argument")
                    st, a = rs[0]
                if ct.kind == "ref":
                    root = self.declare(p, ct.args[0])
                    if isinstance(a, LV):
                        st.store[root] = LVRef(self.resolve(st, a))
                    else:
                        st.store[root] = a
                else:
                    root = self.declare(p, ct)
                    st.store[root] = self.rv(st, a)
                st.wlog.add((root, ()))
            pre = []
            # constructor initialisers
            if fn["kind"] == "CXXConstructorDecl":
                pre = [x for x in fn.get("inner", []) if x.get("kind") == "CXXCtorInitializer"]
            outs = [(st, "normal", None)]
            for ini in pre:
                nxt = []
                for s, k, v in outs:
                    if k != "normal":
                        nxt.append((s, k, v)); continue
                    nxt += self.ctor_init(ini, this, s)
                outs = nxt
            res = []
            for s, k, v in outs:
                if k == "normal":
                    res += self.stmt(fn["_body"], s)
                else:
                    res.append((s, k, v))
            res = self.leave_scope(res)
            final = []
            for s, k, v in res:
                if k == "normal":
                    final.append((s, "return", None))
                elif k in ("return", "throw"):
                    final.append((s, k, v))
                else:
                    raise Unsupported("outcome " + k)
            return final
        finally:
            self.fr = old
            self.fnstack.pop()

    def ctor_init(self, ini, this, st):
        inner = ini.get("inner", [])
        ai = ini.get("anyInit")
        if ai is None:
            # base class / delegating
            if inner:
                rs, thr = self.collect(lambda: self.ev(inner[0], st))
                return [(s, "normal", None) for s, _ in rs] + [(s, "throw", e) for s, e in thr]
            return [(st, "normal", None)]
        name = ai["name"]
        if not name:
            return [(st, "normal", None)]
        _, fct = self.T.field_index(this.ct.name, name)
        lv = this.f(name, fct)
        if not inner or inner[0].get("kind") == "CXXDefaultInitExpr":      # done by default_struct
            return [(st, "normal", None)]
        def go():
            out = []
            for s, v in self.ev(inner[0], st):
                v = self.rv(s, v)
                if v is None:
                    v = self.default(s, fct)
                self.save(s, lv, v if fct.kind != "opaque" or z3.is_expr(v) else self.fresh("opq", I))
                out.append((s, None))
            return out
        rs, thr = self.collect(go)
        return [(s, "normal", None) for s, _ in rs] + [(s, "throw", e) for s, e in thr]

    def call_named(self, q, args, this, st, node):
        """call a /repo function by qualified name; args are evaluated values"""
        c = self.contracts.lookup(q, len(args)) if self.contracts else None
        if c is not None and not (self.fnstack and False):
            self.used_contracts.add(q)
            return c.apply(self, st, this, args, node)
        f = self.prog.find(q, len(args))
        if f is None:
            raise Unsupported("no contract, model or body for " + q)
        tu, fn = f
        self.inlined.add(q)
        res = []
        for s, k, v in self.run_function(tu, fn, this, args, st):
            if k == "throw":
                self.thr.append((s, v))
            else:
                res.append((s, v))
        return res

    # expressions are in expr.py (mixed in)


class MapElem:
    """reference to a map element pair (for range-for by reference)"""
    def __init__(self, cont, key): self.cont, self.key = cont, key


def side_effects(x):
    if not isinstance(x, dict): return False
    if x.get("kind") == "UnaryOperator" and x.get("opcode") in ("++", "--"): return True
    if x.get("kind") in ("CompoundAssignOperator",): return True
    return any(side_effects(y) for y in x.get("inner", []))


def trivial_body(b):
    return b is not None and not b.get("inner")


def minimal(W):
    out = set()
    for r, p in W:
        if any(r == r2 and p2 == p[:len(p2)] and p2 != p for r2, p2 in W):
            continue
        out.add((r, p))
    return out


class LoopCtx:
    def __init__(self, ex, node, entry, W, rl, cond):
        self.ex, self.node, self.entry, self.W, self.rl, self.cond = ex, node, entry, W, rl, cond
        self.fn = ex.fr.fn["_qual"]
        self.ints, self.bools, self.strs, self.vecs, self.iters, self.others = [], [], [], [], [], []
        for root, path in sorted(W):
            ct = ex.roots[root]
            if isinstance(entry.store.get(root), LVRef): continue
            lv = LV(root, (), ct)
            try:
                for a, b in path:
                    if a == "f":
                        _, fct = ex.T.field_index(lv.ct.name, b); lv = lv.f(b, fct)
                    else:
                        lv = lv.p(b, lv.ct.args[b])
            except Unsupported:
                continue
            {"int": self.ints, "bool": self.bools, "str": self.strs, "vec": self.vecs, "stream": self.strs, "iter": self.iters}.get(lv.ct.kind, self.others).append(lv)
        # read-only integer locals are possible bounds
        self.name = {}

    def cur(self, lv):
        return lambda s: self.ex.load(s, lv)

    def candidates(self):
        ex, e = self.ex, self.entry
        lean = ex.opts.get("lean")         # skip the generic candidates that only codec-like loops need
        out = []
        for lv in self.ints:
            e0 = ex.load(e, lv)
            out.append(("%s >= entry" % lv, lambda s, lv=lv, e0=e0: ex.load(s, lv) >= e0))
            if not lean: out.append(("%s <= entry" % lv, lambda s, lv=lv, e0=e0: ex.load(s, lv) <= e0))
            if not (isnum(e0) and e0.as_long() == 0):
                out.append(("%s >= 0" % lv, lambda s, lv=lv: ex.load(s, lv) >= 0))
        for a, b in itertools.combinations(self.ints, 2):
            d = ex.load(e, a) - ex.load(e, b)
            out.append(("%s - %s const" % (a, b), lambda s, a=a, b=b, d=d: ex.load(s, a) - ex.load(s, b) == d))
        for lv in self.strs:
            if getattr(ex.roots[lv.root], "raw", None) == "chararr":
                n0 = S.slen(ex.load(e, lv))
                out.append(("size of %s" % lv, lambda s, lv=lv, n0=n0: S.slen(ex.load(s, lv)) == n0))
        if self.rl:
            out.append(("idx <= len", lambda s: ex.load(s, self.rl["idx"]) <= self.rl["length"](s)))
        for lo, hi, strict in self.bounds():
            out.append(("cond bound", lambda s, lo=lo, hi=hi: self.lazy(s, lo) <= self.lazy(s, hi)))
            # stepping by two (hex decoding): bound + even
        for lv in self.ints if not lean else []:
            e0 = ex.load(e, lv)
            out.append(("%s even" % lv, lambda s, lv=lv, e0=e0: (ex.load(s, lv) - e0) % 2 == 0))
        prov = ex.loopinv_provider
        if prov is not None:
            out += [(a, b, True) for a, b in prov(self)]
        return out

    def lazy(self, s, node):
        ex = self.ex
        ex.quiet += 1
        try:
            s2 = s.fork()
            rs, _ = ex.collect(lambda: ex.ev(node, s2))
            if len(rs) != 1:
                raise Unsupported("bound")
            v = ex.rv(rs[0][0], rs[0][1])
            # keep type facts learned
            for t in rs[0][0].pc[len(s.pc):]:
                s.assume(t)
            return v
        finally:
            ex.quiet -= 1

    def bounds(self):
        """(lo, hi, strict) from conjuncts lo < hi of the loop condition"""
        out = []
        def go(c):
            if c is None: return
            k = c.get("kind")
            if k in ("ImplicitCastExpr", "ParenExpr", "ExprWithCleanups"):
                return go(c["inner"][0])
            if k == "BinaryOperator" and c.get("opcode") == "&&":
                go(c["inner"][0]); go(c["inner"][1])
            elif k == "BinaryOperator" and c.get("opcode") in ("<", "!="):
                out.append((c["inner"][0], c["inner"][1], True))
            elif k == "BinaryOperator" and c.get("opcode") == ">":
                out.append((c["inner"][1], c["inner"][0], True))
        def splits(n):
            return n.get("kind") == "CXXMemberCallExpr" and (n["inner"][0].get("name") or "").startswith("find") or any(splits(x) for x in n.get("inner", []) if isinstance(x, dict))
        go(self.cond)
        return [b for b in out if not splits(b[0]) and not splits(b[1])]

    def measures(self):
        ex = self.ex
        out = []
        if self.rl:
            out.append(("len-idx", lambda s: self.rl["length"](s) - ex.load(s, self.rl["idx"])))
        for lo, hi, _ in self.bounds():
            out.append(("hi-lo", lambda s, lo=lo, hi=hi: self.lazy(s, hi) - self.lazy(s, lo)))
        for lv in self.ints:
            out.append((str(lv), lambda s, lv=lv: ex.load(s, lv)))
        prov = ex.opts.get("measures")
        if prov:
            out += prov(self)
        return out
