"""C03/C04: what the reader returns for a byte string, for every byte string."""
from .common import *

BIG = 2**31


def bufdata(ex, st, this):
    """content of *mBuffer"""
    p = ex.load(st, this.f("mBuffer", ex.T.field_index("ChangesetReader", "mBuffer")[1]))
    h = ex.heap(st, BUFFER)
    return p, BUF().b_data(ex.load(st, LV(h, (("h", p, ex.roots[h]),), BUFFER)))


# ---- one value at offset o of d (n = length of d)
def vtype(d, o): return BYTE(d, o)


def voff_def(d, o):
    t = vtype(d, o)
    return z3.If(z3.Or(t == 1, t == 2), o + 9, z3.If(z3.Or(t == 3, t == 4), o + 1 + VLEN(d, o + 1) + VVAL32(d, o + 1), o + 1))


def vok_def(d, o):
    t = vtype(d, o)
    n = z3.Length(d)
    return z3.And(o >= 0, o < n, t <= 5,
                  z3.Implies(z3.Or(t == 1, t == 2), o + 9 <= n),
                  z3.Implies(z3.Or(t == 3, t == 4), z3.And(o + 1 + VLEN(d, o + 1) <= n, VVAL32(d, o + 1) < BIG, o + 1 + VLEN(d, o + 1) + VVAL32(d, o + 1) <= n)))


def vdec_def(d, o):
    t = vtype(d, o)
    txt = SUB(d, o + 1 + VLEN(d, o + 1), VVAL32(d, o + 1))
    return z3.If(t == 0, V.VUndef, z3.If(t == 1, V.VInt(sgn(BE64AT(d, o + 1))), z3.If(t == 2, V.VDbl(BE64AT(d, o + 1)),
           z3.If(t == 3, V.VText(txt), z3.If(t == 4, V.VBlob(txt), V.VNull)))))


VOFF = SpecFn("VOFF", Str, I, I, define=voff_def, doc="offset behind the value at an offset")
VOK = SpecFn("VOK", Str, I, B, define=vok_def, doc="the value at an offset is complete and of a known type")
VDEC = SpecFn("VDEC", Str, I, V, define=vdec_def, doc="the value encoded at an offset")
ROFF = SpecFn("ROFF", Str, I, I, I, define=lambda d, o, i: z3.If(i <= 0, o, VOFF(d, ROFF(d, o, i - 1))), doc="offset of the i-th value of a record")
ROWOK = SpecFn("ROWOK", Str, I, I, B, define=None, doc="all values of a record are complete and of known types")


def rowok(d, o, m):
    j = z3.Int("jr")
    return FA(j, z3.Implies(z3.And(j >= 0, j < m), VOK(d, ROFF(d, o, j))), VOK(d, ROFF(d, o, j)), ROFF(d, o, j))


def _rowok_facts(app):
    d, o, m = app.children()
    k = z3.Function("rowbad", Str, I, I, I)(d, o, m)      # a witness when not ok
    j = z3.Int("jr")
    return [z3.Implies(app, FA(j, z3.Implies(z3.And(j >= 0, j < m), z3.And(VOK(d, ROFF(d, o, j)), vok_def(d, ROFF(d, o, j)))), ROFF(d, o, j))),
            z3.Implies(z3.Not(app), z3.And(k >= 0, k < m, z3.Not(VOK(d, ROFF(d, o, k)))))]


REG["ROWOK"] = _rowok_facts
VECV = None


def _nulpos_facts(app, d, o):
    j = z3.Int("jn")
    n = z3.Length(d)
    return [z3.Implies(z3.And(o >= 0, o <= n), z3.And(app >= o, app <= n, z3.Implies(app < n, BYTE(d, app) == 0),
            FA(j, z3.Implies(z3.And(j >= o, j < app), BYTE(d, j) != 0), BYTE(d, j))))]


NULPOS = SpecFn("NULPOS", Str, I, I, facts=_nulpos_facts, doc="first NUL byte at or after an offset (the length if there is none)")


# ---- table record (o = offset behind the 'T')
def tcols(d, o): return VVAL32(d, o)
def tpk(d, o): return o + VLEN(d, o)
def tname(d, o): return tpk(d, o) + tcols(d, o)
def tok_def(d, o):
    n = z3.Length(d)
    return z3.And(tpk(d, o) <= n, tcols(d, o) <= 65536, tname(d, o) <= n, NULPOS(d, tname(d, o)) < n)


TABOK = SpecFn("TABOK", Str, I, B, define=tok_def, doc="the table record at an offset is complete")
TEND = SpecFn("TEND", Str, I, I, define=lambda d, o: NULPOS(d, tname(d, o)) + 1, doc="offset behind a table record")
TABLES = {}


def tabfns(ex):
    """functions over the ChangesetTable sort of a program"""
    k = id(ex.T)
    if k in TABLES: return TABLES[k]
    tct = ex.T.parse("ChangesetTable")
    ts = ex.T.sort(tct)
    vb, vv = ex.T.vec(B), ex.T.vec(V)
    ni, _ = ex.T.field_index("ChangesetTable", "name")
    pi, _ = ex.T.field_index("ChangesetTable", "primaryKeys")
    class X: pass
    x = X()
    x.ts, x.vb, x.vv, x.ni, x.pi = ts, vb, vv, ni, pi
    x.name = lambda t: S.get(ts, ni, t)
    x.pks = lambda t: S.get(ts, pi, t)
    x.cols = lambda t: S.get(vb, 1, S.get(ts, pi, t))

    def tabdec_facts(app, d, o):
        j = z3.Int("jt")
        pk = x.pks(app)
        return [x.name(app) == SUB(d, tname(d, o), NULPOS(d, tname(d, o)) - tname(d, o)), S.get(vb, 1, pk) == tcols(d, o),
                z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < tcols(d, o)), z3.Select(S.get(vb, 0, pk), j) == (BYTE(d, tpk(d, o) + j) != 0)),
                          patterns=[z3.Select(S.get(vb, 0, pk), j)])]
    x.TABDEC = SpecFn("TABDEC", Str, I, ts, facts=tabdec_facts, doc="the table definition encoded at an offset")

    def rowdec_facts(app, d, o, m):
        j = z3.Int("jd")
        return [S.get(vv, 1, app) == m,
                FA(j, z3.Implies(z3.And(j >= 0, j < m), z3.Select(S.get(vv, 0, app), j) == VDEC(d, ROFF(d, o, j))), z3.Select(S.get(vv, 0, app), j))]
    x.ROWDEC = SpecFn("ROWDEC", Str, I, I, vv, facts=rowdec_facts, doc="the record (vector of m values) encoded at an offset")
    istab = lambda d, o: z3.And(o < z3.Length(d), BYTE(d, o) == 84, TABOK(d, o + 1))
    x.SKIPOFF = SpecFn("SKIPOFF", Str, I, I, define=lambda d, o: z3.If(istab(d, o), x.SKIPOFF(d, TEND(d, o + 1)), o),
                       doc="offset of the next record that is not a complete table record")
    x.SKIPTAB = SpecFn("SKIPTAB", Str, I, ts, ts, define=lambda d, o, t: z3.If(istab(d, o), x.SKIPTAB(d, TEND(d, o + 1), x.TABDEC(d, o + 1)), t),
                       doc="table in effect there")
    TABLES[k] = x
    return x


def vec_same(vs, a, b, nm="jv"):
    j = z3.Int(nm)
    return z3.And(S.get(vs, 1, a) == S.get(vs, 1, b),
                  FA(j, z3.Implies(z3.And(j >= 0, j < S.get(vs, 1, a)), z3.Select(S.get(vs, 0, a), j) == z3.Select(S.get(vs, 0, b), j)), z3.Select(S.get(vs, 0, a), j)))


class RBase(Contract):
    outcomes = ("return", "throw")
    cls = "ChangesetReader"

    def off(self, v): return v.o("mOffset")
    def dat(self, v): return bufdata(v.ex, v.so, v.this)[1]

    def pre(self, v):
        p, d = bufdata(v.ex, v.so, v.this)
        o = self.off(v)
        return [("a buffer is open", p > 0), ("offset inside the buffer", z3.And(o >= 0, o <= z3.Length(d))), ("buffer shorter than 2 GB", z3.Length(d) < BIG)]

    def inb(self, v):
        return ("offset stays inside the buffer", z3.And(v.n("mOffset") >= 0, v.n("mOffset") <= z3.Length(self.dat(v))))

    def modifies(self, v): return [v.fld("mOffset")]


class ReadByte(RBase):
    name, nargs = "ChangesetReader::readByte", 0
    def guard(self, v, k):
        ok = self.off(v) < z3.Length(self.dat(v))
        return ok if k == "return" else z3.Not(ok)
    def post(self, v):
        d, o = self.dat(v), self.off(v)
        if v.kind == "throw": return [self.inb(v)]
        b = BYTE(d, o)
        return [("the byte at the offset", v.result == z3.If(b > 127, b - 256, b)), ("offset advanced by one", v.n("mOffset") == o + 1), self.inb(v), ("", z3.And(b >= 0, b <= 255)) if v.calling else ("", z3.BoolVal(True))]


def s32(x): return z3.If(x >= BIG, x - 2**32, x)


class ReadVarint(RBase):
    name, nargs = "ChangesetReader::readVarint", 0
    def guard(self, v, k):
        d, o = self.dat(v), self.off(v)
        ok = o + VLEN(d, o) <= z3.Length(d)
        return ok if k == "return" else z3.Not(ok)
    def post(self, v):
        d, o = self.dat(v), self.off(v)
        if v.kind == "throw": return [self.inb(v)]
        return [("the decoded number", v.result == s32(VVAL32(d, o))), ("offset behind the varint", v.n("mOffset") == o + VLEN(d, o)), self.inb(v)]

    def invs_for(self, L, v):
        d, o = self.dat(v), self.off(v)
        out = []
        for i in L.ints:
            out.append(("%s <= 8" % i, lambda s, i=i: L.ex.load(s, i) <= 8))
            out.append(("the bytes before %s have the continuation bit" % i,
                        lambda s, i=i: z3.And([z3.Implies(j < L.ex.load(s, i), BYTE(d, o + j) >= 128) for j in range(8)])))
        return out


class ReadStr(RBase):
    name, nargs = "ChangesetReader::readNullTerminatedString", 0
    def guard(self, v, k):
        d, o = self.dat(v), self.off(v)
        ok = NULPOS(d, o) < z3.Length(d)
        return ok if k == "return" else z3.Not(ok)
    def post(self, v):
        d, o = self.dat(v), self.off(v)
        if v.kind == "throw": return [self.inb(v)]
        p = NULPOS(d, o)
        return [("the bytes up to the NUL", v.result == SUB(d, o, p - o)), ("offset behind the NUL", v.n("mOffset") == p + 1), self.inb(v)]

    def invs_for(self, L, v):
        d, o = self.dat(v), self.off(v)
        j = z3.Int("jn")
        out = []
        for i in L.ints:
            out.append(("no NUL in the first %s bytes" % i, lambda s, i=i: FA(j, z3.Implies(z3.And(j >= o, j < o + L.ex.load(s, i)), BYTE(d, j) != 0), BYTE(d, j))))
            out.append(("%s inside" % i, lambda s, i=i: o + L.ex.load(s, i) <= z3.Length(d)))
        return out


class ReadRow(RBase):
    name, nargs = "ChangesetReader::readRowValues", 1
    def modifies(self, v): return [v.fld("mOffset"), v.args[0]]
    def cols(self, v): return vec(v.o("mCurrentTable", "primaryKeys"))[1]
    def guard(self, v, k):
        ok = ROWOK(self.dat(v), self.off(v), self.cols(v))
        return ok if k == "return" else z3.Not(ok)

    def post(self, v):
        d, o, m = self.dat(v), self.off(v), self.cols(v)
        if v.kind == "throw": return [self.inb(v)]
        x = tabfns(v.ex)
        new = v.newarg(0)
        r = x.ROWDEC(d, o, m)
        out = [("offset behind the record", v.n("mOffset") == ROFF(d, o, m)), ("offset does not decrease", v.n("mOffset") >= o), self.inb(v)]
        if v.calling:
            out.append(("", new == r))
        else:
            a, n = vec(new)
            j = z3.Int("jd")
            out.append(("one value per column", n == m))
            out.append(("each value is the one encoded", z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < m), z3.Select(a, j) == VDEC(d, ROFF(d, o, j))))))
        return out

    def invs_for(self, L, v):
        d, o, m = self.dat(v), self.off(v), self.cols(v)
        j = z3.Int("jd")
        ex = L.ex
        out = []
        off = v.fld("mOffset")
        for i in L.ints:
            out.append(("offset is that of value %s" % i, lambda s, i=i: ex.load(s, off) == ROFF(d, o, ex.load(s, i))))
            out.append(("values before %s are complete" % i, lambda s, i=i: FA(j, z3.Implies(z3.And(j >= 0, j < ex.load(s, i)), VOK(d, ROFF(d, o, j))), ROFF(d, o, j))))
            for vv in L.vecs:
                out.append(("values before %s are decoded" % i, lambda s, i=i, vv=vv: FA(j, z3.Implies(z3.And(j >= 0, j < ex.load(s, i)), z3.Select(vec(ex.load(s, vv))[0], j) == VDEC(d, ROFF(d, o, j))), z3.Select(vec(ex.load(s, vv))[0], j))))
        for vv in L.vecs:
            out.append(("one value per column", lambda s, vv=vv: vec(ex.load(s, vv))[1] == m))
        out.append(("offset inside", lambda s: z3.And(ex.load(s, off) >= 0, ex.load(s, off) <= z3.Length(d))))
        return out


class ReadTable(RBase):
    name, nargs = "ChangesetReader::readTableRecord", 0
    def modifies(self, v): return [v.fld("mOffset"), v.fld("mCurrentTable")]
    def guard(self, v, k):
        ok = TABOK(self.dat(v), self.off(v))
        return ok if k == "return" else z3.Not(ok)

    def post(self, v):
        d, o = self.dat(v), self.off(v)
        x = tabfns(v.ex)
        if v.kind == "throw": return [self.inb(v)]
        t = v.n("mCurrentTable")
        r = x.TABDEC(d, o)
        out = [("offset behind the table record", v.n("mOffset") == TEND(d, o)), self.inb(v), ("at most 65536 columns", x.cols(t) <= 65536), ("offset grows", v.n("mOffset") > o)]
        if v.calling: out.append(("", t == r))
        else:
            j = z3.Int("jt")
            pa, pn = vec(x.pks(t))
            out += [("table name", x.name(t) == SUB(d, tname(d, o), NULPOS(d, tname(d, o)) - tname(d, o))), ("number of columns", pn == tcols(d, o)),
                    ("key flags", z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < pn), z3.Select(pa, j) == (BYTE(d, tpk(d, o) + j) != 0))))]
        return out

    def invs_for(self, L, v):
        d, o = self.dat(v), self.off(v)
        ex = L.ex
        j = z3.Int("jt")
        off = v.fld("mOffset")
        pk = v.fld("mCurrentTable", "primaryKeys")
        out = []
        for i in L.ints:
            out.append(("offset = start of key flags + %s" % i, lambda s, i=i: ex.load(s, off) == tpk(d, o) + ex.load(s, i)))
            out.append(("%s flags were added" % i, lambda s, i=i: vec(ex.load(s, pk))[1] == ex.load(s, i)))
        out.append(("flags read so far", lambda s: FA(j, z3.Implies(z3.And(j >= 0, j < vec(ex.load(s, pk))[1]), z3.Select(vec(ex.load(s, pk))[0], j) == (BYTE(d, tpk(d, o) + j) != 0)), z3.Select(vec(ex.load(s, pk))[0], j))))
        out.append(("offset inside", lambda s: z3.And(ex.load(s, off) >= 0, ex.load(s, off) <= z3.Length(d))))
        return out


class NextEntry(RBase):
    """byte level contract"""
    name, nargs = "ChangesetReader::nextEntry", 1
    def modifies(self, v): return [v.fld("mOffset"), v.fld("mCurrentTable"), v.args[0]]

    def spec(self, v):
        d, o = self.dat(v), self.off(v)
        x = tabfns(v.ex)
        q = x.SKIPOFF(d, o)
        t = x.SKIPTAB(d, o, v.o("mCurrentTable"))
        m = x.cols(t)
        n = z3.Length(d)
        op = BYTE(d, q)
        isop = z3.Or([op == k for k in OPS])
        r1 = q + 2                                        # first record
        old_end = z3.If(op == 18, r1, ROFF(d, r1, m))
        ok = z3.And(q < n, isop, q + 2 <= n, z3.Implies(op != 18, ROWOK(d, r1, m)), z3.Implies(op != 9, ROWOK(d, old_end, m)))
        end = z3.If(op == 9, old_end, ROFF(d, old_end, m))
        return d, o, x, q, t, m, n, op, r1, old_end, ok, end

    def guard(self, v, k):
        d, o, x, q, t, m, n, op, r1, old_end, ok, end = self.spec(v)
        good = z3.Or(q >= n, ok)
        return good if k == "return" else z3.Not(good)

    def post(self, v):
        d, o, x, q, t, m, n, op, r1, old_end, ok, end = self.spec(v)
        if v.kind == "throw": return [self.inb(v)]
        e = v.args[0]
        if v.calling:      # the table pointer is the address of the reader's table (same fact as the last line below)
            ex, tf = v.ex, v.fld("table", base=e)
            ex.save(v.sn, tf, z3.If(v.result, ex.address(v.sn, ex.resolve(v.sn, v.fld("mCurrentTable"))), v.new(tf)))
        f = lambda nm: v.new(v.fld(nm, base=e))
        tl = v.ex.resolve(v.sn, v.fld("mCurrentTable"))
        return [("false exactly at the end", v.result == (q < n)), self.inb(v),
                ("at most 65536 columns", z3.Implies(x.cols(v.o("mCurrentTable")) <= 65536, x.cols(v.n("mCurrentTable")) <= 65536)),
                ("table in effect", z3.Implies(v.result, v.n("mCurrentTable") == t)),
                ("operation", z3.Implies(v.result, f("op") == op)),
                ("old values", z3.Implies(z3.And(v.result, op != 18), f("oldValues") == x.ROWDEC(d, r1, m))),
                ("new values", z3.Implies(z3.And(v.result, op != 9), f("newValues") == x.ROWDEC(d, old_end, m))),
                ("offset behind the change", z3.Implies(v.result, v.n("mOffset") == end)),
                ("offset grows", z3.Implies(v.result, v.n("mOffset") > o)),
                ("table pointer", z3.Implies(v.result, f("table") == v.ex.address(v.sn, tl)))]

    def invs_for(self, L, v):
        d, o, x = self.dat(v), self.off(v), tabfns(v.ex)
        t0 = v.o("mCurrentTable")
        off, tab = v.fld("mOffset"), v.fld("mCurrentTable")
        ex = L.ex
        return [("same next change", lambda s: x.SKIPOFF(d, ex.load(s, off)) == x.SKIPOFF(d, o)),
                ("same table in effect", lambda s: x.SKIPTAB(d, ex.load(s, off), ex.load(s, tab)) == x.SKIPTAB(d, o, t0)),
                ("at most 65536 columns", lambda s: z3.Implies(x.cols(t0) <= 65536, x.cols(ex.load(s, tab)) <= 65536)),
                ("offset inside", lambda s: z3.And(ex.load(s, off) >= 0, ex.load(s, off) <= z3.Length(d)))]


class ThrowErr(RBase):
    name, nargs = "ChangesetReader::throwReaderError", 1
    outcomes = ("throw",)
    def pre(self, v): return []
    def modifies(self, v): return []
    def post(self, v): return []


class Rewind(RBase):
    name, nargs = "ChangesetReader::rewind", 0
    outcomes = ("return",)
    def pre(self, v): return []
    def modifies(self, v): return [v.fld("mOffset"), v.fld("mCurrentTable")]
    def post(self, v):
        x = tabfns(v.ex)
        return [("at the start", v.n("mOffset") == 0), ("no table", z3.And(x.name(v.n("mCurrentTable")) == slit(""), x.cols(v.n("mCurrentTable")) == 0))]


class IsEmpty(RBase):
    name, nargs = "ChangesetReader::isEmpty", 0
    outcomes = ("return",)
    def modifies(self, v): return []
    def post(self, v): return [("no bytes", v.result == (z3.Length(self.dat(v)) == 0))]


def measures(L):
    """termination measures: bytes left"""
    ex = L.ex
    out = []
    this = ex.fr.this
    if this is not None and this.ct.name == "ChangesetReader":
        off = this.f("mOffset", ex.T.field_index("ChangesetReader", "mOffset")[1])
        out.append(("bytes left", lambda s: z3.Length(bufdata(ex, s, this)[1]) - ex.load(s, off)))
    return out


OPTS = dict(term=True, measures=measures)
CONTRACTS = VARINTS + [ReadByte(), ReadVarint(), ReadStr(), ReadRow(), ReadTable(), NextEntry(), ThrowErr(), Rewind(), IsEmpty()]
