"""C21: applying a changeset to PostgreSQL.  Typestate contracts on the connection: which statement may be executed when."""
from .common import *
from . import reader, sqltext, env, schema
from .sqltext import words, cc, QI
from .reader import tabfns

TCOL, TSCH = {}, {}


def sorts(T):
    CT_ = T.struct("ChangesetTable"); SC = T.struct("TableSchema")
    VV = T.sort(T.parse("std::vector<Value>"))
    return CT_, SC, VV


def ghosts(T):
    CT_, SC, VV = sorts(T)
    return {"tx": I,                 # 0 no transaction, 1 open, 2 committed, 3 rolled back
            "pend": B,               # a change was read and not executed yet
            "bad": B,                # some statement failed or did not affect exactly one row
            "atend": B,              # all changes were read
            "cop": I, "cold": VV, "cnew": VV, "ctab": CT_,          # the change read last
            "seqs": B}               # (only) the sequences are being updated


def SCHEMA(T):
    """schema of a table of the database (constant while changes are applied)"""
    return z3.Function("SCHEMAOF", Str, T.struct("TableSchema"))


def fieldof(T, st, x, n):
    i, ct = T.field_index(st, n)
    return S.get(T.struct(st), i, x)


def columns(T, sc):
    return vec(fieldof(T, "TableSchema", sc, "columns"))


class G(Contract):
    def setup(self, ex, st):
        from cppvc.contracts import ensure_ghost
        for n, s in ghosts(ex.T).items(): ensure_ghost(ex, st, n, s)
    def g(self, v, n): return v.ghost_old(n)
    def gn(self, v, n): return v.ghost_new(n)


def matches(v, T, sc, tab):
    """same number of columns and the same key columns"""
    a, n = columns(T, sc)
    W = words(T)
    pk, m = vec(fieldof(T, "ChangesetTable", tab, "primaryKeys"))
    j = z3.Int("jm")
    return z3.And(n > 0, n == m, FA(j, z3.Implies(z3.And(j >= 0, j < n), W.pk(z3.Select(a, j)) == z3.Select(pk, j)), z3.Select(pk, j)))


class PNext(reader.NextEntry, G):
    """consequences of the contract proved in C03, with the ghost record of the current change"""
    trusted = True
    ghosts = {}
    def setup(self, ex, st): G.setup(self, ex, st)
    def pre(self, v):
        T = v.ex.T
        nm = fieldof(T, "ChangesetTable", self.g(v, "ctab"), "name")
        return reader.NextEntry.pre(self, v) + [("the previous change was executed (unless it is one of a GeoPackage metadata table)",
                 z3.Or(z3.Not(self.g(v, "pend")), z3.PrefixOf(slit("gpkg_"), nm)))]
    def gmodifies(self, v): return ["pend", "cop", "cold", "cnew", "ctab", "atend"]
    def guard(self, v, kind): return None
    def post(self, v):
        if v.kind == "throw": return []
        e = v.args[0]
        T = v.ex.T
        f = lambda nm: v.new(v.fld(nm, base=e))
        ex, tf = v.ex, v.fld("table", base=e)
        ex.save(v.sn, tf, z3.If(v.result, ex.address(v.sn, ex.resolve(v.sn, v.fld("mCurrentTable"))), v.new(tf)))
        m = vec(v.n("mCurrentTable", "primaryKeys"))[1]
        op = f("op")
        ok = z3.And(z3.Or([op == o for o in OPS]), z3.Implies(op != 18, vec(f("oldValues"))[1] == m), z3.Implies(op != 9, vec(f("newValues"))[1] == m))
        out = [("", v.n("mOffset") >= v.o("mOffset") + z3.If(v.result, 2, 0)), ("", v.n("mOffset") <= 2**31), self.inb(v), ("", m < 2**29), ("", z3.Implies(v.result, ok)),
               ("", self.gn(v, "pend") == v.result), ("", self.gn(v, "atend") == z3.Not(v.result)),
               ("", z3.Implies(v.result, z3.And(self.gn(v, "cop") == op, self.gn(v, "cold") == f("oldValues"), self.gn(v, "cnew") == f("newValues"), self.gn(v, "ctab") == v.n("mCurrentTable"))))]
        return out


class PTableSchema(G):
    """reads the schema of a table, or throws; does not change anything"""
    name, nargs, trusted, outcomes = "PostgresDriver::tableSchema", 2, True, ("return", "throw")
    def post(self, v):
        if v.kind == "throw": return []
        return [("", v.result == SCHEMA(v.ex.T)(v.arg(0))), ("", columns(v.ex.T, v.result)[1] < 2**29)]


class SeqName(G):
    """name of the sequence of an auto-increment key column; sets the index of that column (or -1)"""
    name, nargs, trusted, outcomes = "PostgresDriver::getSequenceObjectName", 2, True, ("return", "throw")
    def modifies(self, v): return [v.args[1]]
    def post(self, v):
        if v.kind == "throw": return []
        n = vec(v.old(v.fld("columns", base=v.args[0])))[1]
        i = v.new(v.args[1])
        return [("", z3.And(i >= -1, i < n))]


class SeqUpdate(G):
    """a query that may set the value of a sequence, inside the transaction; throws if it fails"""
    name, nargs, trusted, outcomes = "PostgresDriver::updateSequenceObject", 2, True, ("return", "throw")
    def pre(self, v): return [("inside the transaction, after all changes", z3.And(self.g(v, "tx") == 1, self.g(v, "atend")))]


STATUS = z3.Function("pq_status", I, I)
TUPLES = z3.Function("pq_tuples", I, Str)


def statements(T):
    """names of the statement texts; their definitions (sqltext.PgInsert.want...) are proved by the module sqltext and not needed here"""
    SC = T.struct("TableSchema"); VV = T.sort(T.parse("std::vector<Value>"))
    return (z3.Function("TXT_INSERT", Str, Str, SC, VV, Str), z3.Function("TXT_UPDATE", Str, Str, SC, VV, VV, Str), z3.Function("TXT_DELETE", Str, Str, SC, VV, Str))


class InsertText(sqltext.PgInsert):
    trusted = True
    def post(self, v): return [] if v.kind == "throw" else [("", v.result == statements(v.ex.T)[0](*[v.arg(i) for i in range(4)]))]
class UpdateText(sqltext.PgUpdate):
    trusted = True
    def post(self, v): return [] if v.kind == "throw" else [("", v.result == statements(v.ex.T)[1](*[v.arg(i) for i in range(5)]))]
class DeleteText(sqltext.PgDelete):
    trusted = True
    def post(self, v): return [] if v.kind == "throw" else [("", v.result == statements(v.ex.T)[2](*[v.arg(i) for i in range(4)]))]


def expected(v, T, schema_name, g):
    """the statement of the current change"""
    tab = g("ctab")
    nm = fieldof(T, "ChangesetTable", tab, "name")
    sc = SCHEMA(T)(nm)
    fi, fu, fd = statements(T)
    return nm, fi(schema_name, nm, sc, g("cnew")), fu(schema_name, nm, sc, g("cold"), g("cnew")), fd(schema_name, nm, sc, g("cold"))


class ExecSql(G):
    """runs one statement on the connection (libpq: assumed); throws when it fails"""
    name, nargs, trusted, outcomes = "execSql", 2, True, ("return", "throw")
    gmodifies = lambda self, v: ["tx", "pend", "bad"]

    def pre(self, v):
        T = v.ex.T
        q = v.arg(1)
        g = lambda n: self.g(v, n)
        tx, pend = g("tx"), g("pend")
        if z3.is_string_value(q):
            s = S.sval(q)
            if s == "BEGIN": return [("no transaction is open", tx == 0)]
            if s == "COMMIT":
                return [("the transaction is open", tx == 1), ("all changes were read", g("atend")), ("every change was executed", z3.Not(pend)),
                        ("no statement failed or affected other than one row", z3.Not(g("bad")))]
        this = LV("this", (), v.ex.roots["this"])
        sn = v.ex.load(v.so, v.fld("mBaseSchema", base=this))
        nm, ins, upd, dele = expected(v, T, sn, g)
        op = g("cop")
        return [("inside the transaction", tx == 1), ("the current change has not been executed yet", pend),
                ("no change of a GeoPackage metadata table", z3.Not(z3.PrefixOf(slit("gpkg_"), nm))),
                ("table has the columns and key columns of the change", matches(v, T, SCHEMA(T)(nm), g("ctab"))),
                ("the statement is the one of the change", z3.Or(z3.And(op == 18, q == ins), z3.And(op == 23, q == upd), z3.And(op == 9, q == dele)))]

    def post(self, v):
        q = v.arg(1)
        g, n = (lambda x: self.g(v, x)), (lambda x: self.gn(v, x))
        s = S.sval(q) if z3.is_string_value(q) else None
        if s == "BEGIN":
            return [("", n("pend") == g("pend")), ("", n("bad") == g("bad")), ("", n("tx") == (z3.If(STATUS(v.result) == 1, iv(1), iv(0)) if v.kind == "return" else 0))] + ([("", v.result > 0)] if v.kind == "return" else [])
        if s == "COMMIT":
            out = [("", n("pend") == g("pend")), ("", n("bad") == g("bad"))]
            # the transaction is committed exactly if the status says so
            if v.kind == "throw": return out + [("", n("tx") == 1)]
            return out + [("", v.result > 0), ("", n("tx") == z3.If(STATUS(v.result) == 1, iv(2), iv(1)))]
        if v.kind == "throw":
            return [("", n("pend") == False), ("", n("bad") == True), ("", n("tx") == g("tx"))]
        r = v.result
        return [("", r > 0), ("", n("tx") == g("tx")), ("", n("pend") == False),
                ("", n("bad") == z3.Or(g("bad"), STATUS(r) != 1, TUPLES(r) != slit("1")))]


class PGApply(G):
    name, nargs = "PostgresDriver::applyChangeset", 1
    outcomes = ("return", "throw")
    ghosts = {}
    opts = dict(lean=1)
    cost = 90
    def begin(self, ex, st): words(ex.T)
    def modifies(self, v):
        r = v.args[0]
        return [v.fld("mOffset", base=r), v.fld("mCurrentTable", base=r)]
    def gmodifies(self, v): return list(ghosts(v.ex.T))
    def pre(self, v):
        r = v.args[0]
        return [("no transaction yet", z3.And(self.g(v, "tx") == 0, z3.Not(self.g(v, "pend")), z3.Not(self.g(v, "bad")), z3.Not(self.g(v, "atend"))))] + \
               [(n, c) for n, c in reader.NextEntry().pre(View(v.ex, r, [None], v.so))]
    def post(self, v):
        tx = self.gn(v, "tx")
        if v.kind == "return":
            return [("success only if everything was committed: all changes read, each executed exactly once and with one affected row",
                     z3.And(tx == 2, self.gn(v, "atend"), z3.Not(self.gn(v, "pend")), z3.Not(self.gn(v, "bad"))))]
        return [("otherwise nothing was begun, or everything was rolled back", z3.Or(tx == 0, tx == 3))]

    def invs_for(self, L, v):
        ex, T = L.ex, v.ex.T
        g = lambda q, n: q.store["g:" + n]
        r = v.args[0]
        out = []
        for nm in ("pend", "atend"):
            out.append(("g %s as before" % nm, lambda q, nm=nm: g(q, nm) == g(L.entry, nm)))
        out.append(("transaction open", lambda q: g(q, "tx") == 1))
        out.append(("nothing pending, or a metadata table", lambda q: z3.Or(z3.Not(g(q, "pend")), z3.PrefixOf(slit("gpkg_"), fieldof(T, "ChangesetTable", g(q, "ctab"), "name")))))
        off = v.fld("mOffset", base=r)
        d, rr = reader.bufdata(ex, v.so, r)[1], r
        out.append(("offset inside", lambda q: z3.And(ex.load(q, off) >= 0, ex.load(q, off) <= z3.Length(d))))
        ints = [i for i in L.ints if not i.root.startswith("arg")]
        for i in ints:
            out.append(("%s counts failures" % i, lambda q, i=i: z3.And(ex.load(q, i) >= 0, g(q, "bad") == (ex.load(q, i) > 0))))
            out.append(("%s at least 0, positive after a failure" % i, lambda q, i=i: z3.And(ex.load(q, i) >= 0, z3.Implies(g(q, "bad"), ex.load(q, i) > 0))))
            out.append(("%s at most the offset" % i, lambda q, i=i: ex.load(q, i) <= ex.load(q, off)))
        tbls = [LV(rt, (), ct) for rt, ct in ex.roots.items() if getattr(ct, "name", None) == "TableSchema" and rt in L.entry.store]
        j = z3.Int("jm")
        W = words(T)
        bvs = [x for x in L.vecs if x.ct.args and x.ct.args[0].kind == "bool"]
        for t in tbls:
            cols = lambda q, t=t: columns(T, ex.load(q, t))
            for i in ints:
                out.append(("%s is -1 or a column of %s" % (i, t), lambda q, i=i, cols=cols: z3.And(ex.load(q, i) >= -1, z3.Or(ex.load(q, i) == -1, ex.load(q, i) < cols(q)[1]))))
            for s in L.strs:
                out.append(("%s is the schema of %s" % (t, s), lambda q, t=t, s=s, cols=cols: z3.Implies(cols(q)[1] > 0, ex.load(q, t) == SCHEMA(T)(ex.load(q, s)))))
            for b in bvs:
                def same(q, t=t, b=b, cols=cols):
                    a, n = cols(q); pk, m = vec(ex.load(q, b))
                    return z3.Implies(n > 0, z3.And(n == m, FA(j, z3.Implies(z3.And(j >= 0, j < n), W.pk(z3.Select(a, j)) == z3.Select(pk, j)), z3.Select(pk, j))))
                out.append(("%s has the key columns %s" % (t, b), same))
            for i in ints:
                def agree(q, t=t, i=i, cols=cols):
                    a, n = cols(q); pk, m = vec(fieldof(T, "ChangesetTable", g(q, "ctab"), "primaryKeys"))
                    return z3.And(n == m, FA(j, z3.Implies(z3.And(j >= 0, j < ex.load(q, i)), W.pk(z3.Select(a, j)) == z3.Select(pk, j)), z3.Select(pk, j)))
                out.append(("key columns before %s agree" % i, agree))
        return out


class LogConflict(env.Quiet):
    """writes to the log only (C20)"""
    name, nargs = "logApplyConflict", 2
class LInfo(env.Info): pass


CONTRACTS = [PNext(), PTableSchema(), SeqName(), SeqUpdate(), ExecSql(), PGApply(), LogConflict(), InsertText(), UpdateText(), DeleteText()] + env.LOG
