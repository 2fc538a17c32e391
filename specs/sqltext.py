"""C17 / C21 / C13: the text of generated SQL, column by column (folds over the columns in table order)."""
from .common import *
from cppvc.models import CSTR
from . import util
from .util import REPL

_cache = {}


def lit(s): return slit(s)
def cc(*xs): return concat(*[slit(x) if isinstance(x, str) else x for x in xs])
def ite(c, a, b): return z3.If(c, slit(a) if isinstance(a, str) else a, slit(b) if isinstance(b, str) else b)


class Ns: pass


def words(T):
    """specification functions over the column type of the current sources"""
    if "w" in _cache and _cache["w"].T is T: return _cache["w"]
    W = Ns(); W.T = T
    CI = T.struct("TableColumnInfo")
    AC = z3.ArraySort(I, CI)
    W.CI, W.AC = CI, AC
    def f(name):
        i, _ = T.field_index("TableColumnInfo", name)
        return lambda x: S.get(CI, i, x)
    W.cname, W.ctype, W.pk, W.geom, W.srs = f("name"), f("type"), f("isPrimaryKey"), f("isGeometry"), f("geomSrsId")
    sel = z3.Select

    def fold(name, *extra, piece, sep, cond=None):
        """texts of the first n columns (those with cond), separated"""
        def d(a, n, *x):
            r = SF(a, n - 1, *x)
            c = sel(a, n - 1)
            t = concat(r, z3.If(r == slit(""), slit(""), slit(sep)), piece(c, n - 1, *x))
            return z3.If(n <= 0, slit(""), t if cond is None else z3.If(cond(c, n - 1, *x), t, r))
        SF = SpecFn(name, AC, I, *extra, Str, define=d)
        return SF

    def foldi(name, *extra, piece, sep):
        """the same for texts with a separator before every column but the first"""
        def d(a, n, *x):
            return z3.If(n <= 0, slit(""), z3.Concat(SF(a, n - 1, *x), z3.If(n == 1, slit(""), slit(sep)), piece(sel(a, n - 1), n - 1, *x)))
        SF = SpecFn(name, AC, I, *extra, Str, define=d)
        return SF

    # ---- PostgreSQL
    W.QI = QI
    W.PGALL = fold("PGALL", Str, sep=", ", piece=lambda c, i, p: pgcol(W, c, p))
    two = lambda s, t, c: cc(QI(s), ".", QI(t), ".", QI(W.cname(c)))
    W.PGEQ = fold("PGEQ", Str, Str, Str, sep=" AND ", cond=lambda c, i, *x: W.pk(c), piece=lambda c, i, b, m, t: cc(two(b, t, c), "=", two(m, t, c)))
    W.PGKEY = fold("PGKEY", sep=" AND ", cond=lambda c, i: W.pk(c), piece=lambda c, i: cc("b.", QI(W.cname(c)), "=", "a.", QI(W.cname(c))))
    def oth(c, i):
        b, a = cc("b.", QI(W.cname(c))), cc("a.", QI(W.cname(c)))
        return cc("NOT ((", b, " IS NULL AND ", a, " IS NULL) OR (", b, " = ", a, "))")
    W.PGOTH = fold("PGOTH", sep=" OR ", cond=lambda c, i: z3.Not(W.pk(c)), piece=oth)
    W.PGNAMES = foldi("PGNAMES", sep=", ", piece=lambda c, i: QI(W.cname(c)))
    W.PGVALS = foldi("PGVALS", AV, sep=", ", piece=lambda c, i, v: pgval(W, sel(v, i), c))
    W.PGSET = fold("PGSET", AV, sep=", ", cond=lambda c, i, v: z3.Not(V.is_VUndef(sel(v, i))), piece=lambda c, i, v: cc(QI(W.cname(c)), " = ", pgval(W, sel(v, i), c)))
    match = lambda c, i, v: cc(QI(W.cname(c)), z3.If(V.is_VNull(sel(v, i)), slit(" IS NULL"), cc(" = ", pgval(W, sel(v, i), c))))
    W.PGMATCH = fold("PGMATCH", AV, sep=" AND ", cond=lambda c, i, v: z3.Not(V.is_VUndef(sel(v, i))), piece=match)
    # a key column is compared with =, also with NULL (no row matches then)
    W.PGDEL = foldi("PGDEL", AV, sep=" AND ", piece=lambda c, i, v: z3.If(W.pk(c), cc(QI(W.cname(c)), " = ", pgval(W, sel(v, i), c)), match(c, i, v)))

    # ---- SQLite
    n = lambda c: DW(W.cname(c))
    q3 = lambda d, t, c: cc('"', DW(slit(d)), '"."', DW(t), '"."', n(c), '"')
    W.LEQ = fold("LEQ", Str, sep=" AND ", cond=lambda c, i, t: W.pk(c), piece=lambda c, i, t: cc(q3("main", t, c), "=", q3("aux", t, c)))
    W.LOTH = fold("LOTH", Str, sep=" OR ", cond=lambda c, i, t: z3.Not(W.pk(c)), piece=lambda c, i, t: cc(q3("main", t, c), " COLLATE BINARY IS NOT ", q3("aux", t, c)))
    W.LNAMES = foldi("LNAMES", sep=", ", piece=lambda c, i: cc('"', n(c), '"'))
    W.LMARKS = foldi("LMARKS", sep=", ", piece=lambda c, i: slit("?"))
    W.LSET = foldi("LSET", sep=", ", piece=lambda c, i: cc('"', n(c), '" = CASE WHEN ?', ITOA(i * 3 + 2), " THEN ?", ITOA(i * 3 + 3), ' ELSE "', n(c), '" END'))
    W.LUPD = foldi("LUPD", sep=" AND ", piece=lambda c, i: z3.If(W.pk(c), cc(' "', n(c), '" = ?', ITOA(i * 3 + 1), " "),
                                                                  cc(" ( ?", ITOA(i * 3 + 2), ' = 0 OR "', n(c), '" COLLATE BINARY IS ?', ITOA(i * 3 + 1), " ) ")))
    W.LDEL = foldi("LDEL", sep=" AND ", piece=lambda c, i: z3.If(W.pk(c), cc('"', n(c), '" = ?'), cc('"', n(c), '" COLLATE BINARY IS ?')))
    _cache["w"] = W
    return W


def QI(s): return cc('"', REPL(s, slit('"'), slit('""')), '"')
def DW(s): return REPL(CSTR0(s), slit('"'), slit('""'))


def CSTR0(s):
    """a C string ends at the first NUL (names contain none)"""
    if z3.is_string_value(s): return s
    return CSTR(s, iv(0))


def QS(s):
    r = REPL(s, slit("'"), slit("''"))
    return z3.If(z3.Contains(r, slit("\\")), cc("E'", REPL(r, slit("\\"), slit("\\\\")), "'"), cc("'", r, "'"))


HEX = z3.Function("HEXOF", Str, Str)
from cppvc.models import G17, REPLF
REPLF[:] = [REPL]


def dkey(b): return z3.If(b < 2**63, b, 2**63 - b)
def isnan(b): return z3.And((b / 2**52) % 2048 == 2047, b % 2**52 != 0)


def dbl_facts(a):
    """IEEE order on bit patterns"""
    x, y = a.children()
    return [a == z3.And(z3.Not(isnan(x)), z3.Not(isnan(y)), dkey(x) < dkey(y))]


def dbltext(d):
    inf = z3.And((d / 2**52) % 2048 == 2047, d % 2**52 == 0)
    return z3.If(isnan(d), slit("'NaN'"), z3.If(inf, z3.If(d < 2**63, slit("'Infinity'"), slit("'-Infinity'")), G17(d)))


def pgval(W, v, c):
    s = z3.If(V.is_VText(v), V.vt(v), V.vb(v))
    dbl = dbltext(V.vd(v))
    return z3.If(V.is_VNull(v), slit("NULL"),
           z3.If(V.is_VInt(v), z3.If(W.ctype(c) == slit("boolean"), z3.If(V.vi(v) != 0, slit("'t'"), slit("'f'")), ITOA(V.vi(v))),
           z3.If(V.is_VDbl(v), dbl,
           z3.If(W.geom(c), cc("ST_GeomFromWKB('\\x", HEX(S.sub(s, iv(8), z3.Length(s) - 8)), "', ", ITOA(W.srs(c)), ")"),
           z3.If(W.ctype(c) == slit("bytea"), cc("'\\x", HEX(s), "'"), QS(s))))))


def pgcol(W, c, prefix):
    name = cc(z3.If(prefix == slit(""), slit(""), z3.Concat(prefix, slit("."))), QI(W.cname(c)))
    return z3.If(W.geom(c), cc("ST_AsBinary(", name, ")"),
           z3.If(W.ctype(c) == slit("timestamp without time zone"), cc("to_char(", name, ",'YYYY-MM-DD\"T\"HH24:MI:SS\"Z\"')"), name))


class ReplaceCall(util.Replace): trusted = True
class HexCall(Contract):
    """the function proved in C16 (HEXOF names its value)"""
    name, nargs, trusted = "bin2hex", 1, True
    def post(self, v): return [("", v.result == HEX(v.arg(0)))]


class Text(Contract):
    outcomes = ("return",)
    def begin(self, ex, st): words(ex.T)
    def want(self, v, W): raise NotImplementedError
    def post(self, v):
        if v.kind == "throw": return []
        return [("the generated text is the specified one", v.result == self.want(v, words(v.ex.T)))]

    def cols(self, v, i):
        return vec(v.old(v.fld("columns", base=v.args[i])))

    folds = ()        # functions (v, W) -> lambda n: text
    lead = ()         # texts that may stand before a fold
    def invs_for(self, L, v):
        W = words(v.ex.T)
        ex = L.ex
        out = []
        fs = self.inv_folds(v, W)
        idx = [(str(i), (lambda q, i=i: ex.load(q, i))) for i in L.ints]
        if L.rl: idx.append(("iterator", lambda q: ex.load(q, L.rl["idx"])))
        for st in L.strs:
            e0 = ex.load(L.entry, st)
            for nm, at in idx:
                for fn, F in fs:
                    out.append(("%s = before ++ %s of the first %s columns" % (st, fn, nm), lambda q, st=st, at=at, F=F, e0=e0: ex.load(q, st) == concat(e0, F(at(q)))))
        for b in getattr(L, "bools", []):
            for nm, at in idx:
                for fn, F in fs:
                    out.append(("%s: nothing of %s so far" % (b, fn), lambda q, b=b, at=at, F=F: ex.load(q, b) == (F(at(q)) == slit(""))))
        return out


class QuotedIdent(Text):
    name, nargs = "quotedIdentifier", 1
    def want(self, v, W): return QI(v.arg(0))
class QuotedStr(Text):
    name, nargs = "quotedString", 1
    def want(self, v, W): return QS(v.arg(0))


class AllColumns(Text):
    name, nargs = "allColumnNames", 2
    def inv_folds(self, v, W):
        a, n = self.cols(v, 0)
        return [("PGALL", lambda k: W.PGALL(a, k, v.arg(1)))]
    def want(self, v, W):
        a, n = self.cols(v, 0)
        return W.PGALL(a, n, v.arg(1))


class PgFindInserted(Text):
    name, nargs = "sqlFindInserted", 5
    def inv_folds(self, v, W):
        a, n = self.cols(v, 3)
        return [("PGEQ", lambda k: W.PGEQ(a, k, v.arg(0), v.arg(1), v.arg(2)))]
    def want(self, v, W):
        a, n = self.cols(v, 3)
        b, m, t, rev = v.arg(0), v.arg(1), v.arg(2), v.arg(4)
        return cc("SELECT ", W.PGALL(a, n, slit("")), " FROM ", QI(z3.If(rev, b, m)), ".", QI(t), " WHERE NOT EXISTS ( SELECT 1 FROM ", QI(z3.If(rev, m, b)), ".", QI(t), " WHERE ", W.PGEQ(a, n, b, m, t), ")")


class PgFindModified(Text):
    name, nargs = "sqlFindModified", 4
    def inv_folds(self, v, W):
        a, n = self.cols(v, 3)
        return [("PGKEY", lambda k: W.PGKEY(a, k)), ("PGOTH", lambda k: W.PGOTH(a, k))]
    def want(self, v, W):
        a, n = self.cols(v, 3)
        b, m, t = v.arg(0), v.arg(1), v.arg(2)
        o = W.PGOTH(a, n)
        return cc("SELECT ", W.PGALL(a, n, slit("a")), ", ", W.PGALL(a, n, slit("b")), " FROM ", QI(m), ".", QI(t), " a, ", QI(b), ".", QI(t), " b WHERE ", W.PGKEY(a, n),
                  " AND (", z3.If(o == slit(""), slit("FALSE"), o), ")")


class ValueToSql(Text):
    opts = dict(nul_index=True)
    def begin(self, ex, st):
        Text.begin(self, ex, st)
        REG["dbl_lt"] = dbl_facts
    name, nargs = "valueToSql", 2
    outcomes = ("return", "throw")
    def ok(self, v):
        W = words(v.ex.T)
        x, c = v.arg(0), v.arg(1)
        s = z3.If(V.is_VText(x), V.vt(x), V.vb(x))
        return z3.And(z3.Not(V.is_VUndef(x)), z3.Implies(z3.And(z3.Or(V.is_VText(x), V.is_VBlob(x)), W.geom(c)), z3.Length(s) >= 8))
    def guard(self, v, kind): return self.ok(v) if kind == "return" else z3.Not(self.ok(v))
    def want(self, v, W): return pgval(W, v.arg(0), v.arg(1))


def sized(v, i, n):
    return [("one value per column", vec(v.arg(i))[1] >= n)]


class PgInsert(Text):
    name, nargs = "sqlForInsert", 4
    outcomes = ("return", "throw")
    def pre(self, v): return sized(v, 3, self.cols(v, 2)[1])
    def inv_folds(self, v, W):
        a, n = self.cols(v, 2); x = vec(v.arg(3))[0]
        return [("PGNAMES", lambda k: W.PGNAMES(a, k)), ("PGVALS", lambda k: W.PGVALS(a, k, x))]
    def want(self, v, W):
        a, n = self.cols(v, 2); x = vec(v.arg(3))[0]
        return cc("INSERT INTO ", QI(v.arg(0)), ".", QI(v.arg(1)), " (", W.PGNAMES(a, n), ") VALUES (", W.PGVALS(a, n, x), ")")


class PgUpdate(Text):
    name, nargs = "sqlForUpdate", 5
    outcomes = ("return", "throw")
    def pre(self, v): return sized(v, 3, self.cols(v, 2)[1]) + sized(v, 4, self.cols(v, 2)[1])
    def inv_folds(self, v, W):
        a, n = self.cols(v, 2); o, x = vec(v.arg(3))[0], vec(v.arg(4))[0]
        return [("PGSET", lambda k: W.PGSET(a, k, x)), ("PGMATCH", lambda k: W.PGMATCH(a, k, o))]
    def want(self, v, W):
        a, n = self.cols(v, 2); o, x = vec(v.arg(3))[0], vec(v.arg(4))[0]
        return cc("UPDATE ", QI(v.arg(0)), ".", QI(v.arg(1)), " SET ", W.PGSET(a, n, x), " WHERE ", W.PGMATCH(a, n, o))


class PgDelete(Text):
    name, nargs = "sqlForDelete", 4
    outcomes = ("return", "throw")
    def pre(self, v): return sized(v, 3, self.cols(v, 2)[1])
    def inv_folds(self, v, W):
        a, n = self.cols(v, 2); x = vec(v.arg(3))[0]
        return [("PGDEL", lambda k: W.PGDEL(a, k, x))]
    def want(self, v, W):
        a, n = self.cols(v, 2); x = vec(v.arg(3))[0]
        return cc("DELETE FROM ", QI(v.arg(0)), ".", QI(v.arg(1)), " WHERE ", W.PGDEL(a, n, x))


class LiteText(Text):
    ti, ci = 0, 1
    fl = ()
    targ = False
    def inv_folds(self, v, W):
        a, n = self.cols(v, self.ci)
        return [(f, lambda k, f=f: getattr(W, f)(a, k, *([v.arg(self.ti)] if self.targ else []))) for f in self.fl]


class LiteFindInserted(LiteText):
    name, nargs = "sqlFindInserted", 3
    fl, targ = ("LEQ",), True
    def want(self, v, W):
        a, n = self.cols(v, 1); t, rev = v.arg(0), v.arg(2)
        return cc('SELECT * FROM "', ite(rev, "aux", "main"), '"."', DW(t), '" WHERE NOT EXISTS ( SELECT 1 FROM "', ite(rev, "main", "aux"), '"."', DW(t), '" WHERE ', CSTR0(W.LEQ(a, n, t)), ")")


class LiteFindModified(LiteText):
    name, nargs = "sqlFindModified", 2
    fl, targ = ("LEQ", "LOTH"), True
    def want(self, v, W):
        a, n = self.cols(v, 1); t = v.arg(0)
        o = W.LOTH(a, n, t)
        return cc('SELECT * FROM "main"."', DW(t), '", "aux"."', DW(t), '" WHERE ', CSTR0(W.LEQ(a, n, t)), " AND (", z3.If(o == slit(""), slit("0"), CSTR0(o)), ")")


class LiteInsert(LiteText):
    name, nargs = "sqlForInsert", 2
    fl = ("LNAMES", "LMARKS")
    def want(self, v, W):
        a, n = self.cols(v, 1)
        return cc('INSERT OR ABORT INTO "', DW(v.arg(0)), '" (', W.LNAMES(a, n), ") VALUES (", W.LMARKS(a, n), ")")


class LiteUpdate(LiteText):
    name, nargs = "sqlForUpdate", 2
    fl = ("LSET", "LUPD")
    def pre(self, v): return [("fewer than 2^29 columns", self.cols(v, 1)[1] < 2**29)]
    def want(self, v, W):
        a, n = self.cols(v, 1)
        return cc('UPDATE OR ABORT "', DW(v.arg(0)), '" SET ', W.LSET(a, n), " WHERE ", W.LUPD(a, n))


class LiteDelete(LiteText):
    name, nargs = "sqlForDelete", 2
    fl = ("LDEL",)
    def want(self, v, W):
        a, n = self.cols(v, 1)
        return cc('DELETE FROM "', DW(v.arg(0)), '" WHERE ', W.LDEL(a, n))


CONTRACTS = [ReplaceCall(), HexCall(), QuotedIdent(), QuotedStr(), AllColumns(), PgFindInserted(), PgFindModified(), ValueToSql(), PgInsert(), PgUpdate(), PgDelete(),
             LiteFindInserted(), LiteFindModified(), LiteInsert(), LiteUpdate(), LiteDelete()]
