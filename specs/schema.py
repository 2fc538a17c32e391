"""C19 (type conversion) and the schema comparison of C14."""
from .common import *
from cppvc.models import veceq
from . import util

J = z3.Int("js")
COLF = ("name", "type", "isPrimaryKey", "isNotNull", "isAutoIncrement", "isGeometry", "geomType", "geomSrsId", "geomHasZ", "geomHasM")
LOWER = z3.Function("LOWER", Str, Str)


class Lower(util.Lower):
    """callers: LOWER is the function whose value is the (unique) string with the proved bytes"""
    def post(self, v):
        if v.calling: return [("", v.result == LOWER(v.arg(0))), ("", slen(v.result) == slen(v.arg(0)))]
        return util.Lower.post(self, v)


class Warn(Contract):
    """writes to the log only (C20)"""
    name, nargs, trusted, outcomes = "Logger::warn", 1, True, ("return",)


class Instance(Contract):
    name, nargs, trusted, outcomes = "Logger::instance", 0, True, ("return",)


def col(ct_T, x, n):
    i, _ = ct_T.field_index("TableColumnInfo", n)
    return S.get(ct_T.struct("TableColumnInfo"), i, x)


def geomtext(g, x):
    gt = z3.Concat(g("geomType"), z3.If(g("geomHasZ"), slit("Z"), slit("")), z3.If(g("geomHasM"), slit("M"), slit("")))
    return z3.Concat(slit("geometry("), gt, slit(", "), ITOA(g("geomSrsId")), slit(")"))


PGTYPES = {"integer": "int integer smallint mediumint bigint tinyint".split(), "double precision": ["double", "real", "double precision", "float"], "boolean": ["bool", "boolean"],
           "bytea": ["blob"], "timestamp": ["datetime"]}


def pgtype(T, x):
    """the documented PostgreSQL type of an SQLite column"""
    g = lambda n: col(T, x, n)
    t = LOWER(g("type"))
    isin = lambda k: z3.Or([t == slit(w) for w in PGTYPES[k]])
    begins = lambda w: z3.LastIndexOf(t, slit(w)) == 0
    r = z3.If(g("isGeometry"), geomtext(g, x), slit("text"))
    r = z3.If(z3.Or(t == slit("text"), begins("text("), begins("varchar(")), slit("text"), r)
    for k in ("timestamp", "bytea", "boolean", "double precision"): r = z3.If(isin(k), slit(k), r)
    return z3.If(isin("integer"), z3.If(g("isAutoIncrement"), slit("serial"), slit("integer")), r)


def litetype(T, x):
    g = lambda n: col(T, x, n)
    return z3.If(z3.PrefixOf(slit("geometry("), g("type")), g("geomType"), g("type"))


class Conv(Contract):
    outcomes = ("return",)
    nargs, argi = 1, 0
    opts = dict(cvc5_inv=5000)
    def spec(self, T, x): raise NotImplementedError

    def modifies(self, v): return [v.fld("columns", base=v.args[self.argi])]

    def converted(self, v, q, upto, spec):
        """the columns before `upto` are converted, the others unchanged"""
        T = v.ex.T
        a0, n0 = vec(v.old(v.fld("columns", base=v.args[self.argi])))
        a1, n1 = vec(v.ex.load(q, v.fld("columns", base=v.args[self.argi])))
        x0, x1 = z3.Select(a0, J), z3.Select(a1, J)
        dt = T.struct("TableColumnInfo")
        i, _ = T.field_index("TableColumnInfo", "type")
        want = z3.If(J < upto, S.upd(dt, i, x0, spec(T, x0)), x0)
        return z3.And(n0 == n1, FA(J, z3.Implies(z3.And(J >= 0, J < n0), z3.Select(a1, J) == want), z3.Select(a1, J)))

    def post(self, v):
        n = vec(v.old(v.fld("columns", base=v.args[self.argi])))[1]
        return [("every column has the type of the other database, everything else is unchanged", self.converted(v, v.sn, n, self.spec))]

    def invs_for(self, L, v):
        return [("columns before %s are converted" % i, lambda q, i=i: self.converted(v, q, L.ex.load(q, i), self.spec)) for i in L.ints] + \
               [("columns before the iterator are converted", lambda q: self.converted(v, q, L.ex.load(q, L.rl["idx"]), self.spec)) for _ in [0] if L.rl]


class ToPg(Conv):
    name = "tableSchemaSqliteToPostgres"
    def spec(self, T, x): return pgtype(T, x)


class ToLite(Conv):
    name = "tableSchemaPostgresToSqlite"
    def spec(self, T, x): return litetype(T, x)


class Convert(Conv):
    name, nargs, argi = "tableSchemaConvert", 3, 2
    outcomes = ("return", "throw")

    def kinds(self, v):
        a, b = v.arg(0), v.arg(1)
        pl = z3.And(a == slit("postgres"), b == slit("sqlite")); lp = z3.And(a == slit("sqlite"), b == slit("postgres"))
        return a == b, pl, lp

    def guard(self, v, kind):
        same, pl, lp = self.kinds(v)
        ok = z3.Or(same, pl, lp)
        return ok if kind == "return" else z3.Not(ok)

    def post(self, v):
        same, pl, lp = self.kinds(v)
        c0, c1 = v.old(v.fld("columns", base=v.args[2])), v.new(v.fld("columns", base=v.args[2]))
        n = vec(c0)[1]
        if v.kind == "throw": return [("nothing changed", c0 == c1)]
        return [("equal kinds: unchanged", z3.Implies(same, c0 == c1)),
                ("PostgreSQL to SQLite", z3.Implies(pl, self.converted(v, v.sn, n, litetype))),
                ("SQLite to PostgreSQL", z3.Implies(lp, self.converted(v, v.sn, n, pgtype)))]

    def invs_for(self, L, v): return []


# ---- comparison of schemas
class Equal(Contract):
    nargs, outcomes = 1, ("return",)
    def pre(self, v): return []
    def post(self, v):
        return [("equal exactly when all attributes are equal", v.result == (self.value(v, v.this) == self.value(v, v.args[0])))]
    def value(self, v, lv): return v.old(lv)


class Differ(Equal):
    def post(self, v): return [("unequal exactly when some attribute differs", v.result == z3.Not(self.value(v, v.this) == self.value(v, v.args[0])))]


def mk_eq(n):
    return [type("Eq" + n, (Equal,), dict(name=n + "::operator=="))(), type("Ne" + n, (Differ,), dict(name=n + "::operator!="))()]


class EqTable(Contract):
    name, nargs, outcomes = "TableSchema::operator==", 1, ("return",)
    neg = False
    def same(self, v):
        f = lambda n, b: v.old(v.fld(n, base=b))
        a, b = v.this, v.args[0]
        return z3.And(f("name", a) == f("name", b), veceq(f("columns", a), f("columns", b)), f("crs", a) == f("crs", b))
    def post(self, v):
        r = z3.Not(v.result) if self.neg else v.result
        return [("equal exactly when the names, all columns and the reference systems are equal", r == self.same(v))]


class NeTable(EqTable):
    name, neg = "TableSchema::operator!=", True


class HasPk(Contract):
    name, nargs, outcomes = "TableSchema::hasPrimaryKey", 0, ("return",)
    def some(self, v, upto):
        a, n = vec(v.o("columns"))
        return FA(J, z3.Implies(z3.And(J >= 0, J < upto), z3.Not(col(v.ex.T, z3.Select(a, J), "isPrimaryKey"))), z3.Select(a, J))
    def post(self, v):
        a, n = vec(v.o("columns"))
        K = z3.Int("kw")
        return [("true only if some column is a key", z3.Implies(v.result, z3.Exists([K], z3.And(K >= 0, K < n, col(v.ex.T, z3.Select(a, K), "isPrimaryKey"))))),
                ("false only if no column is a key", z3.Implies(z3.Not(v.result), self.some(v, n)))]
    def invs_for(self, L, v):
        ix = [L.rl["idx"]] if L.rl else L.ints
        return [("no key before %s" % i, lambda q, i=i: self.some(v, L.ex.load(q, i))) for i in ix]


class First(Contract):
    """index of the first column with a property, or SIZE_MAX"""
    outcomes = ("return",)
    def none(self, v, upto):
        a, n = vec(v.o("columns"))
        return FA(J, z3.Implies(z3.And(J >= 0, J < upto), z3.Not(self.has(v, z3.Select(a, J)))), z3.Select(a, J))
    def post(self, v):
        a, n = vec(v.o("columns"))
        r = v.result
        return [("the first such column, or none", z3.Or(z3.And(r >= 0, r < n, self.has(v, z3.Select(a, r)), self.none(v, r)), z3.And(r == 2**64 - 1, self.none(v, n))))]
    def invs_for(self, L, v): return [("none before %s" % i, lambda q, i=i: self.none(v, L.ex.load(q, i))) for i in L.ints]


class ColFromName(First):
    name, nargs = "TableSchema::columnFromName", 1
    def has(self, v, x): return col(v.ex.T, x, "name") == v.arg(0)


class GeomCol(First):
    name, nargs = "TableSchema::geometryColumn", 0
    def has(self, v, x): return col(v.ex.T, x, "isGeometry")


CONV = [ToPg(), ToLite(), Convert()]
COMPARE = mk_eq("TableColumnInfo") + mk_eq("CrsDefinition") + [EqTable(), NeTable(), HasPk(), ColFromName(), GeomCol()]
CONTRACTS = CONV + COMPARE + [Lower(), Warn(), Instance()]
