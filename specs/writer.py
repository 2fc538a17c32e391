"""C02: the writer produces exactly the documented encoding."""
from .common import *


class WriterBase(Contract):
    def mfile(self, v): return v.fld("mFile")
    def modifies(self, v): return [self.mfile(v)]
    def added(self, v): return None
    outcomes = ("return",)

    def appended(self, v, enc):
        return [("bytes appended are the documented encoding", v.n("mFile") == concat(v.o("mFile"), enc))]


class WriteByte(WriterBase):
    name, nargs = "ChangesetWriter::writeByte", 1
    def post(self, v): return self.appended(v, chr1(v.arg(0)))


class WriteVarint(WriterBase):
    name, nargs = "ChangesetWriter::writeVarint", 1
    def pre(self, v): return [("argument is not negative", v.arg(0) >= 0)]
    def post(self, v): return self.appended(v, VARINT(v.arg(0)))


class WriteNul(WriterBase):
    name, nargs = "ChangesetWriter::writeNullTerminatedString", 1
    def post(self, v): return self.appended(v, concat(v.arg(0), slit("\0")))


def fits(row, n):
    j = z3.Int("j")
    a = z3.Select(row, j)
    return FA(j, z3.Implies(z3.And(j >= 0, j < n), z3.And(
        z3.Implies(V.is_VText(a), z3.Length(V.vt(a)) < 2**31), z3.Implies(V.is_VBlob(a), z3.Length(V.vb(a)) < 2**31))), a)


class WriteRow(WriterBase):
    name, nargs = "ChangesetWriter::writeRowValues", 1
    outcomes = ("return", "throw")

    def pre(self, v):
        a, n = vec(v.arg(0))
        return [("text and blob values are shorter than 2 GB", fits(a, n))]

    def guard(self, v, kind):
        a, n = vec(v.arg(0))
        cols = vec(v.o("mCurrentTable", "primaryKeys"))[1]
        return n == cols if kind == "return" else n != cols

    def post(self, v):
        a, n = vec(v.arg(0))
        if v.kind == "throw":
            return [("nothing is written for a record of the wrong size", v.n("mFile") == v.o("mFile"))]
        return self.appended(v, ROWENC(a, n))

    def invs_for(self, L, v):
        a, n = vec(v.arg(0))
        out = []
        for st in L.strs:
            e0 = L.ex.load(L.entry, st)
            for i in L.ints:
                out.append(("%s = before ++ encoding of the first %s values" % (st, i),
                            lambda s, st=st, i=i, e0=e0: L.ex.load(s, st) == concat(e0, ROWENC(a, L.ex.load(s, i)))))
        return out


class WriteEntry(WriterBase):
    name, nargs = "ChangesetWriter::writeEntry", 1
    outcomes = ("return", "throw")

    def parts(self, v):
        e = v.args[0]
        op = v.old(v.fld("op", base=e))
        return op, vec(v.old(v.fld("oldValues", base=e))), vec(v.old(v.fld("newValues", base=e)))

    def pre(self, v):
        op, (oa, on), (na, nn) = self.parts(v)
        return [("text and blob values are shorter than 2 GB", z3.And(z3.Implies(op != 18, fits(oa, on)), z3.Implies(op != 9, fits(na, nn))))]

    def ok(self, v):
        op, (oa, on), (na, nn) = self.parts(v)
        cols = vec(v.o("mCurrentTable", "primaryKeys"))[1]
        return z3.And(z3.Or([op == o for o in OPS]), z3.Implies(op != 18, on == cols), z3.Implies(op != 9, nn == cols))

    def guard(self, v, kind):
        return self.ok(v) if kind == "return" else z3.Not(self.ok(v))

    def post(self, v):
        op, (oa, on), (na, nn) = self.parts(v)
        if v.kind == "throw": return []
        enc = concat(chr1(op), slit("\0"), z3.If(op == 18, slit(""), ROWENC(oa, on)), z3.If(op == 9, slit(""), ROWENC(na, nn)))
        return self.appended(v, enc)


class BeginTable(WriterBase):
    name, nargs = "ChangesetWriter::beginTable", 1
    def modifies(self, v): return [self.mfile(v), v.fld("mCurrentTable")]
    def pre(self, v): return [("fewer than 2^31 columns", vec(v.old(v.fld("primaryKeys", base=v.args[0])))[1] < 2**31)]

    def post(self, v):
        t = v.args[0]
        pa, pn = vec(v.old(v.fld("primaryKeys", base=t)))
        return self.appended(v, concat(slit("T"), VARINT(pn), PKENC(pa, pn), v.old(v.fld("name", base=t)), slit("\0"))) + [
            ("the current table is the given one", v.n("mCurrentTable") == v.arg(0))]

    def invs_for(self, L, v):
        pa, pn = vec(v.old(v.fld("primaryKeys", base=v.args[0])))
        return [("%s = before ++ key flags of the first %s columns" % (st, i),
                 lambda s, st=st, i=i, e0=L.ex.load(L.entry, st): L.ex.load(s, st) == concat(e0, PKENC(pa, L.ex.load(s, i))))
                for st in L.strs for i in L.ints]


CONTRACTS = VARINTS + [WriteByte(), WriteVarint(), WriteNul(), WriteRow(), WriteEntry(), BeginTable()]
