"""Shared specification vocabulary: the documented changeset format as recursive functions."""
import z3
from cppvc import sorts as S
from cppvc.sorts import *
from cppvc.solve import SpecFn, REG, FA
from cppvc.exec import LV, Iter, LVRef
from cppvc.contracts import Contract, Contracts, View, verify
from cppvc.models import uns, sgn

ALL = ("changesetreader.cpp changesetwriter.cpp changesetutils.cpp geodiffrebase.cpp geodiffutils.cpp tableschema.cpp geodiff.cpp "
       "geodifflogger.cpp driver.cpp drivers/sqlitedriver.cpp drivers/sqliteutils.cpp drivers/postgresdriver.cpp "
       "drivers/postgresutils.cpp 3rdparty/base64utils.cpp").split()
ABSTRACT = {"Value": VALUE, "Buffer": BUFFER, "GeoDiffException": GEXC}

V = VAL()
AV = z3.ArraySort(I, V)
AB = z3.ArraySort(I, B)
iv = z3.IntVal

# ---- documented encoding (docs/changeset-format.md)
VARINT = SpecFn("VARINT", I, Str, facts=lambda app, n: [z3.Length(app) >= 1, z3.Length(app) <= 9, z3.Implies(z3.And(n >= 0, n < 128), app == CHR(n))],
                doc="variable-length encoding of an unsigned number; putVarint32/getVarint32 are proved against it in C01")


def venc(v):
    """type byte + big-endian number / length-prefixed bytes"""
    return z3.If(V.is_VUndef(v), slit("\0"),
           z3.If(V.is_VInt(v), z3.Concat(slit("\1"), BE8(uns(V.vi(v)))),
           z3.If(V.is_VDbl(v), z3.Concat(slit("\2"), BE8(V.vd(v))),
           z3.If(V.is_VText(v), z3.Concat(slit("\3"), VARINT(z3.Length(V.vt(v))), V.vt(v)),
           z3.If(V.is_VBlob(v), z3.Concat(slit("\4"), VARINT(z3.Length(V.vb(v))), V.vb(v)),
                 slit("\5"))))))


VENC = SpecFn("VENC", V, Str, define=venc, doc="encoding of one value")
ROWENC = SpecFn("ROWENC", AV, I, Str, define=lambda a, n: z3.If(n <= 0, slit(""), z3.Concat(ROWENC(a, n - 1), VENC(z3.Select(a, n - 1)))),
                doc="encoding of the first n values of a record")


def ext(name, pick):
    """extensionality of a fold over an array (proved by induction in lemmas.py)"""
    from cppvc.solve import PAIR
    def facts(x, y):
        (a, n), (b, m) = pick(x), pick(y)
        if a.eq(b) : return []
        w = z3.Function("diff_" + name, a.sort(), b.sort(), I, I)(a, b, n)
        return [z3.Implies(n == m, z3.Or(x == y, z3.And(w >= 0, w < n, z3.Select(a, w) != z3.Select(b, w))))]
    PAIR[name] = facts


ext("ROWENC", lambda x: x.children())
PKENC = SpecFn("PKENC", AB, I, Str, define=lambda a, n: z3.If(n <= 0, slit(""), z3.Concat(PKENC(a, n - 1), z3.If(z3.Select(a, n - 1), slit("\1"), slit("\0")))),
               doc="one 0/1 byte per column")


def vec(t, srt=None):
    """(array, length) of a vector term"""
    srt = t.sort()
    return S.get(srt, 0, t), S.get(srt, 1, t)


OPS = (18, 23, 9)


# ---- variable-length integers inside a byte string
def vlen_def(d, o):
    t = iv(9)
    for k in reversed(range(8)):
        t = z3.If(BYTE(d, o + k) < 128, iv(k + 1), t)
    return t


VLEN = SpecFn("VLEN", Str, I, I, define=vlen_def, doc="length of the varint starting at an offset")
VVAL32 = SpecFn("VVAL32", Str, I, I, facts=lambda app, d, o: [app >= 0, app < 2**32, z3.Implies(BYTE(d, o) < 128, app == BYTE(d, o))],
                doc="value of the varint starting at an offset, saturated to 32 bits")


class PutVarint(Contract):
    """proved by C01 on the real body (all 64-bit values, complete)"""
    name, nargs, trusted, outcomes = "sqlite3PutVarint", 2, True, ("return",)
    ret = INT
    def modifies(self, v): return [v.args[0]]
    def pre(self, v):
        return [("9 bytes can be written", z3.Length(v.old(v.args[0].lv)) >= 9), ("32-bit value", z3.And(v.arg(1) >= 0, v.arg(1) < 2**32))]
    def post(self, v):
        b = v.new(v.args[0].lv)
        e = VARINT(v.arg(1))
        return [("", z3.Length(b) == z3.Length(v.old(v.args[0].lv))), ("", v.result == z3.Length(e)), ("", SUB(b, 0, v.result) == e)]


class GetVarint32(Contract):
    """proved by C01 on the real body (all byte strings, complete)"""
    name, nargs, trusted, outcomes = "sqlite3GetVarint32", 2, True, ("return",)
    ret = INT
    def modifies(self, v): return [v.args[1]]
    def dat(self, v):
        p = v.arg(0); srt = p.sort()
        return S.get(srt, 0, p), S.get(srt, 1, p), S.get(srt, 2, p)
    def pre(self, v):
        null, d, o = self.dat(v)
        return [("the whole varint is inside the buffer", z3.And(z3.Not(null), o >= 0, o + VLEN(d, o) <= z3.Length(d))),
                ("the single-byte case was handled by the caller", BYTE(d, o) >= 128)]
    def post(self, v):
        null, d, o = self.dat(v)
        return [("", v.result == VLEN(d, o)), ("", v.new(v.args[1].lv) == VVAL32(d, o))]


VARINTS = [PutVarint(), GetVarint32()]
