"""C13 / C14: applying a changeset to SQLite.  Typestate contracts on the connection and its statements: which statement
with which bindings may be executed when."""
from .common import *
from cppvc import models, sorts as S
from cppvc.exec import PtrLV, LVRef, LV
from . import reader, sqltext, env, pgapply
from .sqltext import words, cc, QI, DW, CSTR0
from .pgapply import fieldof, columns, matches, SCHEMA, LogConflict



def bindsort(): return z3.ArraySort(I, z3.ArraySort(I, V))


def ghosts(T):
    g = {k: s for k, s in pgapply.ghosts(T).items() if k != "seqs"}
    g.update(auto=B,                         # SQLite has rolled back the whole transaction by itself
             read=B,                         # the first change was asked for
             tdrop=I, tmade=I,               # triggers dropped, created again
             sqlof=z3.ArraySort(I, Str), bind=bindsort(), live=z3.ArraySort(I, B), ran=z3.ArraySort(I, B),       # prepared statements
             chg=I)                          # what sqlite3_changes gives
    return g


NT = z3.Int("TRIGGERS")
TN, TC = z3.Array("TRIGGER_NAMES", I, Str), z3.Array("TRIGGER_SQL", I, Str)


class G(pgapply.G):
    def setup(self, ex, st):
        from cppvc.contracts import ensure_ghost
        for n, s in ghosts(ex.T).items(): ensure_ghost(ex, st, n, s)


def statements(T):
    SC = T.struct("TableSchema")
    return [z3.Function("LITE_" + n, Str, SC, Str) for n in ("INSERT", "UPDATE", "DELETE")]


class LNext(pgapply.PNext):
    def setup(self, ex, st): G.setup(self, ex, st)
    def pre(self, v):
        return reader.NextEntry.pre(self, v) + [("the previous change was executed", z3.Not(self.g(v, "pend"))),
                ("all triggers were dropped", self.g(v, "tdrop") == NT), ("inside the transaction", z3.And(self.g(v, "tx") == 1, z3.Not(self.g(v, "auto"))))]
    def gmodifies(self, v): return pgapply.PNext.gmodifies(self, v) + ["read"]
    def post(self, v):
        if v.kind == "throw": return []
        k = z3.Int("ks")
        short = []
        for nm in ("cold", "cnew"):
            a, n = vec(self.gn(v, nm))
            # lemma short_texts: a text inside a buffer shorter than 2 GB is shorter than 2 GB
            short.append(("", FA(k, z3.Implies(z3.And(k >= 0, k < n), SHORTV(z3.Select(a, k))), z3.Select(a, k))))
        return pgapply.PNext.post(self, v) + [("", self.gn(v, "read"))] + short


SHORTV = SpecFn("SHORTV", V, B, define=lambda x: z3.Length(textof(x)) < 2**31)


def textof(x): return z3.If(V.is_VText(x), V.vt(x), z3.If(V.is_VBlob(x), V.vb(x), slit("")))


class LTableSchema(G):
    """reads the schema of a table, or throws; does not change anything"""
    name, nargs, trusted, outcomes = "SqliteDriver::tableSchema", 2, True, ("return", "throw")
    def post(self, v):
        if v.kind == "throw": return []
        return [("", v.result == SCHEMA(v.ex.T)(v.arg(0))), ("", columns(v.ex.T, v.result)[1] < 2**29)]


class Triggers(G):
    """names and texts of the triggers that are not GeoPackage's own"""
    name, nargs, trusted, outcomes = "sqliteTriggers", 3, True, ("return", "throw")
    def modifies(self, v): return [v.args[1], v.args[2]]
    def post(self, v):
        if v.kind == "throw": return []
        (a, n), (b, m) = vec(v.new(v.args[1])), vec(v.new(v.args[2]))
        return [("", z3.And(a == TN, n == NT, b == TC, m == NT))]


class InsText(G):
    name, nargs, trusted = "sqlForInsert", 2, True
    k = 0
    def pre(self, v): return [("fewer than 2^29 columns", columns(v.ex.T, v.arg(1))[1] < 2**29)]
    def post(self, v): return [("", v.result == statements(v.ex.T)[self.k](v.arg(0), v.arg(1)))]
class UpdText(InsText): name, k = "sqlForUpdate", 1
class DelText(InsText): name, k = "sqlForDelete", 2


def handle(ex, q, this):
    return ex.load(q, this.f("mStmt", ex.T.field_index("Sqlite3Stmt", "mStmt")[1]))


# ---------------------------------------------------------------- SQLite (assumed)
class Prepare(G):
    """sqlite3_prepare_v2: a new statement without bindings"""
    name, nargs, trusted, outcomes = "Sqlite3Stmt::prepare", 2, True, ("return", "throw")
    def pre(self, v):
        db = v.arg(0)
        return [("connected to a database", db != 0)]
    def modifies(self, v): return [v.fld("mStmt")]
    def gmodifies(self, v): return ["sqlof", "bind", "live", "ran"]
    def post(self, v):
        g, n = (lambda x: self.g(v, x)), (lambda x: self.gn(v, x))
        same = [("", n(x) == g(x)) for x in ("sqlof", "bind", "live", "ran")]
        if v.kind == "throw": return same + [("", v.n("mStmt") == v.o("mStmt"))]
        h = v.n("mStmt")
        none = z3.K(I, V.VNull)
        return [("", z3.And(h > 0, z3.Not(z3.Select(g("live"), h)))),
                ("", n("sqlof") == z3.Store(g("sqlof"), h, v.arg(1))), ("", n("bind") == z3.Store(g("bind"), h, none)),
                ("", n("live") == z3.Store(g("live"), h, z3.BoolVal(True))), ("", n("ran") == z3.Store(g("ran"), h, z3.BoolVal(False)))]


class C(G):
    trusted = True
    ret = S.INT
    def ok(self, v): return z3.Select(self.g(v, "live"), v.arg(0))
    def st(self, v): return [("a prepared statement", self.ok(v))]


class Finalize(C):
    name, nargs = "sqlite3_finalize", 1
    def pre(self, v): return [("a prepared statement", z3.Or(v.arg(0) == 0, self.ok(v)))]
    def gmodifies(self, v): return ["live"]
    def post(self, v): return [("", self.gn(v, "live") == z3.Store(self.g(v, "live"), v.arg(0), z3.BoolVal(False)))]
class Reset(C):
    name, nargs = "sqlite3_reset", 1
    def pre(self, v): return self.st(v)
    def gmodifies(self, v): return ["ran"]
    def post(self, v): return [("", self.gn(v, "ran") == z3.Store(self.g(v, "ran"), v.arg(0), z3.BoolVal(False)))]
class Clear(C):
    name, nargs = "sqlite3_clear_bindings", 1
    def pre(self, v): return self.st(v)
    def gmodifies(self, v): return ["bind"]
    def post(self, v): return [("", self.gn(v, "bind") == z3.Store(self.g(v, "bind"), v.arg(0), z3.K(I, V.VNull)))]


class BindC(C):
    """a value is bound when the call succeeds"""
    def val(self, v): raise NotImplementedError
    def pre(self, v): return self.st(v) + [("the statement was reset", z3.Not(z3.Select(self.g(v, "ran"), v.arg(0))))] + self.pre2(v)
    def pre2(self, v): return []
    def gmodifies(self, v): return ["bind"]
    may_fail = True
    def post(self, v):
        b, h = self.g(v, "bind"), v.arg(0)
        done = z3.Store(b, h, z3.Store(z3.Select(b, h), v.arg(1), self.val(v)))
        if not self.may_fail: return [("", self.gn(v, "bind") == done)]
        return [("", z3.Implies(v.result == 0, self.gn(v, "bind") == done)), ("", z3.Implies(v.result != 0, self.gn(v, "bind") == b))]


class BindInt64(BindC):
    name, nargs = "sqlite3_bind_int64", 3
    def val(self, v): return V.VInt(v.arg(2))
class BindInt(BindC):
    """binding an integer to an existing parameter does not fail"""
    name, nargs, may_fail = "sqlite3_bind_int", 3, False
    def val(self, v): return V.VInt(v.arg(2))
class BindDouble(BindC):
    name, nargs = "sqlite3_bind_double", 3
    def val(self, v): return V.VDbl(v.arg(2))
class BindNull(BindC):
    name, nargs = "sqlite3_bind_null", 2
    def val(self, v): return V.VNull
class BindText(BindC):
    name, nargs = "sqlite3_bind_text", 5
    con = staticmethod(lambda x: V.VText(x))
    def data(self, v):
        a = v.arg(2)
        if isinstance(a, PtrLV): return v.ex.load(v.so, a.lv), iv(0)
        d = v.ex.T.cptr()
        return S.get(d, 1, a), S.get(d, 2, a)
    def pre2(self, v):
        t, o = self.data(v)
        return [("the text has that many bytes", z3.And(v.arg(3) >= 0, o + v.arg(3) <= z3.Length(t))), ("SQLite makes its own copy", v.arg(4) == -1)]
    def val(self, v):
        t, o = self.data(v)
        return self.con(z3.If(z3.And(o == 0, v.arg(3) == z3.Length(t)), t, S.sub(t, o, v.arg(3))))
class BindBlob(BindText):
    name = "sqlite3_bind_blob"
    con = staticmethod(lambda x: V.VBlob(x))


class Changes(C):
    name, nargs = "sqlite3_changes", 1
    def call_value(self, v): return self.g(v, "chg")
class Autocommit(C):
    """nonzero when no transaction is open (SQLite may roll it back by itself)"""
    name, nargs = "sqlite3_get_autocommit", 1
    def post(self, v): return [("", (v.result != 0) == z3.Or(self.g(v, "auto"), self.g(v, "tx") != 1))]
class MutexEnter(C): ret, name, nargs = S.VOID, "sqlite3_mutex_enter", 1
class MutexLeave(C): ret, name, nargs = S.VOID, "sqlite3_mutex_leave", 1
class DbMutex(C): ret, name, nargs = S.SIZE, "sqlite3_db_mutex", 1


class Exec(C):
    """direct use for the savepoint only"""
    name, nargs = "sqlite3_exec", 5
    def gmodifies(self, v): return ["tx"]
    def sql(self, v):
        q = models.cstr_content(v.ex, v.so.fork(), v.arg(1), None)
        if not z3.is_string_value(q): raise Unsupported("sqlite3_exec of a computed text")
        return S.sval(q)
    def pre(self, v):
        q, g = self.sql(v), lambda x: self.g(v, x)
        if q == "SAVEPOINT changeset_apply": return [("no transaction is open", g("tx") == 0)]
        if q == "ROLLBACK TO changeset_apply": return []
        if q == "RELEASE changeset_apply":
            done = z3.And(g("atend"), z3.Not(g("pend")), z3.Not(g("bad")), z3.Not(g("auto")), g("tdrop") == NT, g("tmade") == NT)
            return [("the transaction is open", z3.Or(g("tx") == 1, g("tx") == 4)),
                    ("released only when all changes were executed without a conflict and all triggers were created again (or after rolling back)", z3.Or(g("tx") == 4, done))]
        raise Unsupported("sqlite3_exec: " + q)
    def post(self, v):
        q, g, n = self.sql(v), self.g(v, "tx"), self.gn(v, "tx")
        if q.startswith("SAVEPOINT"): return [("", n == z3.If(v.result == 0, iv(1), iv(0)))]
        if q.startswith("ROLLBACK"): return [("", n == z3.If(g == 1, iv(4), g))]
        return [("", n == z3.If(g == 4, iv(3), z3.If(v.result == 0, iv(2), g)))]


def expbind(o, x, k):
    """binding of parameter k of the UPDATE statement"""
    j, r = (k - 1) / 3, (k - 1) % 3
    ov, nv = z3.Select(o, j), z3.Select(x, j)
    return z3.If(r == 0, z3.If(V.is_VUndef(ov), V.VNull, ov), z3.If(r == 1, V.VInt(z3.If(V.is_VUndef(nv), iv(0), iv(1))), z3.If(V.is_VUndef(nv), V.VNull, nv)))


# the same as an opaque function; what it is at the parameters of column i is the lemma update_params (lemmas.py)
EXPB = z3.Function("EXPB", AV, AV, I, V)
TRI = z3.Function("TRI", AV, AV, I, B)


def tri_facts(o, x, i, f=None):
    f = f or EXPB
    ov, nv = z3.Select(o, i), z3.Select(x, i)
    return z3.Implies(i >= 0, z3.And(f(o, x, 3 * i + 1) == z3.If(V.is_VUndef(ov), V.VNull, ov), f(o, x, 3 * i + 2) == V.VInt(z3.If(V.is_VUndef(nv), iv(0), iv(1))),
                                     f(o, x, 3 * i + 3) == z3.If(V.is_VUndef(nv), V.VNull, nv)))


def bound(b, n, val):
    """parameters 1..n have these values"""
    k = z3.Int("kb")
    return FA(k, z3.Implies(z3.And(k >= 1, k <= n), z3.Select(b, k) == val(k)), z3.Select(b, k))


class Step(C):
    """sqlite3_step of a statement that gives no rows"""
    name, nargs = "sqlite3_step", 1
    def gmodifies(self, v): return ["pend", "bad", "auto", "tdrop", "tmade", "chg", "ran"]
    def pre(self, v):
        T = v.ex.T
        g = lambda x: self.g(v, x)
        h = v.arg(0)
        q, b = z3.Select(g("sqlof"), h), z3.Select(g("bind"), h)
        nm = fieldof(T, "ChangesetTable", g("ctab"), "name")
        sc = SCHEMA(T)(nm)
        a, n = columns(T, sc)
        fi, fu, fd = statements(T)
        o, x = vec(g("cold"))[0], vec(g("cnew"))[0]
        op = g("cop")
        before, after = z3.Not(g("read")), g("atend")
        dml = z3.Not(z3.Or(before, after))
        return self.st(v) + [("inside the transaction", z3.And(g("tx") == 1, z3.Not(g("auto")))), ("the statement was reset", z3.Not(z3.Select(g("ran"), h))),
            ("before the changes: the next trigger is dropped", z3.Implies(before, z3.And(g("tdrop") < NT, q == cc('drop trigger "', DW(z3.Select(TN, g("tdrop"))), '"')))),
            ("after the changes: the next trigger is created again", z3.Implies(z3.And(z3.Not(before), after), z3.And(g("tmade") < NT, q == CSTR0(z3.Select(TC, g("tmade")))))),
            ("the current change has not been executed yet", z3.Implies(dml, g("pend"))),
            ("the table has the columns and key columns of the change", z3.Implies(dml, matches(v, T, sc, g("ctab")))),
            ("the statement is the one of the change", z3.Implies(dml, z3.Or(z3.And(op == 18, q == fi(nm, sc)), z3.And(op == 23, q == fu(nm, sc)), z3.And(op == 9, q == fd(nm, sc))))),
            ("INSERT: the new values are bound", z3.Implies(z3.And(dml, op == 18), bound(b, n, lambda k: z3.Select(x, k - 1)))),
            ("DELETE: the old values are bound", z3.Implies(z3.And(dml, op == 9), bound(b, n, lambda k: z3.Select(o, k - 1)))),
            ("UPDATE: old values, flags and new values are bound", z3.Implies(z3.And(dml, op == 23), bound(b, 3 * n, lambda k: EXPB(o, x, k))))]
    def post(self, v):
        g, n = (lambda x: self.g(v, x)), (lambda x: self.gn(v, x))
        before, after = z3.Not(g("read")), z3.And(g("read"), g("atend"))
        dml = z3.Not(z3.Or(before, after))
        ok = v.result == 101
        one = z3.If(ok, iv(1), iv(0))
        return [("", n("ran") == z3.Store(g("ran"), v.arg(0), z3.BoolVal(True))),
                ("", n("tdrop") == g("tdrop") + z3.If(before, one, iv(0))), ("", n("tmade") == g("tmade") + z3.If(after, one, iv(0))),
                ("", n("pend") == z3.If(dml, z3.BoolVal(False), g("pend"))), ("", n("chg") >= 0), ("", n("chg") < 2**31),
                ("", n("bad") == z3.Or(g("bad"), z3.And(dml, z3.Or(z3.Not(ok), n("chg") == 0)))), ("", z3.Implies(ok, n("auto") == g("auto"))), ("", z3.Implies(g("auto"), n("auto")))]


class BindValue(G):
    def begin(self, ex, st):
        from cppvc.solve import REG
        REG["SHORTV"] = lambda app: [app == (z3.Length(textof(app.arg(0))) < 2**31)]
    name, nargs, outcomes = "bindValue", 3, ("return", "throw")
    def pre(self, v):
        h, x = v.arg(0), v.arg(2)
        return [("a prepared statement", z3.Select(self.g(v, "live"), h)), ("the statement was reset", z3.Not(z3.Select(self.g(v, "ran"), h))),
                ("shorter than 2 GB", SHORTV(x))]
    def gmodifies(self, v): return ["bind"]
    def post(self, v):
        b, n, h = self.g(v, "bind"), self.gn(v, "bind"), v.arg(0)
        if v.kind == "throw":
            return [("other statements keep their bindings", n == b)]
        return [("the value is bound", n == z3.Store(b, h, z3.Store(z3.Select(b, h), v.arg(1), v.arg(2)))), ("a defined value", z3.Not(V.is_VUndef(v.arg(2))))]


class LiteApply(G):
    name, nargs = "SqliteDriver::applyChangeset", 1
    outcomes = ("return", "throw")
    opts = dict(lean=1, houdini_ms=2500)
    cost = 95
    def begin(self, ex, st):
        words(ex.T)
        from cppvc.solve import REG
        REG["SHORTV"] = lambda app: []
        REG["TRI"] = lambda app: [app, tri_facts(*app.children())]
        st.assume(NT >= 0, NT < 2**40)
    def modifies(self, v):
        r = v.args[0]
        return [v.fld("mOffset", base=r), v.fld("mCurrentTable", base=r)]
    def gmodifies(self, v): return list(ghosts(v.ex.T))
    def pre(self, v):
        r = v.args[0]
        g = lambda x: self.g(v, x)
        return [("fresh", z3.And(g("tx") == 0, g("tdrop") == 0, g("tmade") == 0, z3.Not(z3.Or(g("pend"), g("bad"), g("atend"), g("auto"), g("read"))))),
                ("connected to a database", v.o("mDb") != 0)] + \
               [(n, c) for n, c in reader.NextEntry().pre(View(v.ex, r, [None], v.so))]
    def post(self, v):
        n = lambda x: self.gn(v, x)
        if v.kind == "return":
            return [("success only if everything was committed: all changes read, each executed exactly once without conflict, all triggers dropped before and created again",
                     z3.And(n("tx") == 2, n("atend"), z3.Not(n("pend")), z3.Not(n("bad")), n("tdrop") == NT, n("tmade") == NT))]
        return [("otherwise nothing was begun, or everything was rolled back", z3.Or(n("tx") == 0, n("tx") == 3))]

    def invs_for(self, L, v):
        ex, T = L.ex, v.ex.T
        g = lambda q, n: q.store["g:" + n]
        r = v.args[0]
        out = []
        wr = set(x for x, _ in L.W)
        for nm in ("pend", "atend", "read", "bad", "tdrop", "tmade"):
            if "g:" + nm in wr: out.append(("g %s as before" % nm, lambda q, nm=nm: g(q, nm) == g(L.entry, nm)))
        out.append(("transaction open", lambda q: g(q, "tx") == 1))
        out.append(("not rolled back by SQLite", lambda q: z3.Not(g(q, "auto"))))
        out.append(("nothing pending", lambda q: z3.Not(g(q, "pend"))))
        out.append(("not at the end", lambda q: z3.Not(g(q, "atend"))))
        off = v.fld("mOffset", base=r)
        d = reader.bufdata(ex, v.so, r)[1]
        out.append(("offset inside", lambda q: z3.And(ex.load(q, off) >= 0, ex.load(q, off) <= z3.Length(d))))
        ints = [i for i in L.ints if not i.root.startswith("arg")]
        for i in ints:
            val = lambda q, i=i: ex.load(q, i)
            if "g:tdrop" in wr: out.append(("%s triggers dropped" % i, lambda q, val=val: g(q, "tdrop") == val(q)))
            if "g:tmade" in wr: out.append(("%s triggers created" % i, lambda q, val=val: g(q, "tmade") == val(q)))
            if "g:bad" in wr: out.append(("%s counts failures" % i, lambda q, val=val: z3.And(val(q) >= 0, z3.Implies(g(q, "bad"), val(q) > 0))))
            out.append(("%s at most the offset" % i, lambda q, val=val: val(q) <= ex.load(q, off)))
        tbls = [LV(rt, (), ct) for rt, ct in ex.roots.items() if getattr(ct, "name", None) == "TableSchema" and rt in L.entry.store]
        outer = any(t.root in wr for t in tbls)
        j = z3.Int("jm")
        W = words(T)
        bvs = [x for x in L.vecs if x.ct.args and x.ct.args[0].kind == "bool"]
        # statements: locals and owned by smart pointers
        heap = "heap:Sqlite3Stmt"
        sts = []
        for rt, ct in ex.roots.items():
            if rt not in L.entry.store or isinstance(L.entry.store[rt], LVRef): continue
            if getattr(ct, "name", None) == "Sqlite3Stmt" and ct.kind == "struct":
                sts.append((rt, lambda q, rt=rt: handle(ex, q, LV(rt, (), ex.roots[rt])), None))
            elif ct.kind == "ptr" and ct.args and getattr(ct.args[0], "name", None) == "Sqlite3Stmt":
                sts.append((rt, lambda q, rt=rt, ct=ct: S.get(T.struct("Sqlite3Stmt"), T.field_index("Sqlite3Stmt", "mStmt")[0], ex.heap_get(q, q.store[heap], q.store[rt])) if heap in q.store else iv(0),
                            lambda q, rt=rt: q.store[rt]))
        ptrs = [(n, p) for n, h, p in sts if p is not None]
        for n, h, p in sts:
            if p is None:
                out.append(("%s closed" % n, lambda q, h=h: h(q) == 0))
                continue
            for n2, p2 in ptrs:
                if n2 != n and outer:
                    out.append(("%s null with %s" % (n, n2), lambda q, p=p, p2=p2: (p(q) == 0) == (p2(q) == 0)))
                    out.append(("%s apart from %s" % (n, n2), lambda q, p=p, p2=p2: z3.Or(p(q) == 0, p(q) != p2(q))))
            for n2, h2, p2 in sts:
                if n2 != n and p2 is not None and outer: out.append(("handles of %s and %s differ" % (n, n2), lambda q, p=p, p2=p2, h=h, h2=h2: z3.Or(p(q) == 0, p2(q) == 0, h(q) != h2(q))))
            if outer: out.append(("%s prepared" % n, lambda q, p=p, h=h: z3.Or(p(q) == 0, z3.And(h(q) > 0, z3.Select(g(q, "live"), h(q)), z3.Not(z3.Select(g(q, "ran"), h(q)))))))
            if "g:bind" in wr: out.append(("%s without bindings" % n, lambda q, p=p, h=h: z3.Or(p(q) == 0, z3.Select(g(q, "bind"), h(q)) == z3.K(I, V.VNull))))
            if outer: out.append(("%s exists" % n, lambda q, p=p: p(q) > 0))
            # while binding
            e = L.entry
            cn, co = (lambda q: vec(g(q, "cnew"))[0]), (lambda q: vec(g(q, "cold"))[0])
            if not ("g:bind" in wr and "g:ran" not in wr and not outer): ops = ()
            else:
                # the statement of the current operation, as far as it is known where the loop begins
                ops = [k for k, o in enumerate((18, 23, 9)) if ex.proves(e, g(e, "cop") == o) and any(ex.proves(e, z3.Select(g(e, "sqlof"), h(e)) == statements(T)[k](fieldof(T, "ChangesetTable", g(e, "ctab"), "name"), ex.load(e, t))) for t in tbls)]
            for i in ints if ops else ():
                i0 = lambda q, i=i: ex.load(q, i)
                B_ = lambda q, h=h: z3.Select(g(q, "bind"), h(q))
                if 0 in ops: out.append(("*%s: new values before %s bound" % (n, i), lambda q, i0=i0, B_=B_: bound(B_(q), i0(q), lambda k: z3.Select(cn(q), k - 1))))
                if 2 in ops: out.append(("*%s: old values before %s bound" % (n, i), lambda q, i0=i0, B_=B_: bound(B_(q), i0(q), lambda k: z3.Select(co(q), k - 1))))
                def upd(q, i0=i0, B_=B_):
                    k = z3.Int("kb")
                    return z3.And(TRI(co(q), cn(q), i0(q)), FA(k, z3.Implies(k >= 1, z3.Select(B_(q), k) == z3.If(k <= 3 * i0(q), EXPB(co(q), cn(q), k), V.VNull)), z3.Select(B_(q), k)))
                if 1 in ops: out.append(("*%s: update values before %s bound" % (n, i), upd))
            for t in tbls if "g:sqlof" in wr else ():
                for k, fn in enumerate(statements(T)):
                    for s in L.strs:
                        out.append(("%s is statement %d of %s, %s" % (n, k, t, s), lambda q, p=p, h=h, t=t, fn=fn, s=s: z3.Or(p(q) == 0, z3.Select(g(q, "sqlof"), h(q)) == fn(ex.load(q, s), ex.load(q, t)))))
                    nm = lambda q: fieldof(T, "ChangesetTable", g(q, "ctab"), "name")
                    out.append(("%s is statement %d of %s" % (n, k, t), lambda q, p=p, h=h, t=t, fn=fn: z3.Or(p(q) == 0, z3.Select(g(q, "sqlof"), h(q)) == fn(nm(q), ex.load(q, t)))))
        for t in tbls:
            cols = lambda q, t=t: columns(T, ex.load(q, t))
            for s in L.strs if outer else ():
                out.append(("%s is the schema of %s" % (t, s), lambda q, t=t, s=s, cols=cols: z3.Or(z3.Not(anyp(q, ptrs)), z3.And(cols(q)[1] > 0, cols(q)[1] < 2**29, ex.load(q, t) == SCHEMA(T)(ex.load(q, s))))))
            for b in bvs:
                def same(q, t=t, b=b, cols=cols):
                    a, n = cols(q); pk, m = vec(ex.load(q, b))
                    return z3.Or(z3.Not(anyp(q, ptrs)), z3.And(n == m, FA(j, z3.Implies(z3.And(j >= 0, j < n), W.pk(z3.Select(a, j)) == z3.Select(pk, j)), z3.Select(pk, j))))
                out.append(("%s has the key columns %s" % (t, b), same))
            for i in ints if not outer and not any(x.startswith("g:") for x in wr) else ():
                def agree(q, t=t, i=i, cols=cols):
                    a, n = cols(q); pk, m = vec(fieldof(T, "ChangesetTable", g(q, "ctab"), "primaryKeys"))
                    return z3.And(n == m, FA(j, z3.Implies(z3.And(j >= 0, j < ex.load(q, i)), W.pk(z3.Select(a, j)) == z3.Select(pk, j)), z3.Select(pk, j)))
                out.append(("key columns before %s agree" % i, agree))
        return out


def anyp(q, ptrs):
    return z3.Or([p(q) != 0 for n, p in ptrs]) if ptrs else z3.BoolVal(False)


CONTRACTS = [LNext(), LTableSchema(), Triggers(), InsText(), UpdText(), DelText(), Prepare(), Finalize(), Reset(), Clear(), BindInt64(), BindInt(), BindDouble(), BindNull(), BindText(), BindBlob(),
             Changes(), Autocommit(), MutexEnter(), MutexLeave(), DbMutex(), Exec(), Step(), BindValue(), LiteApply(), LogConflict()] + env.LOG
