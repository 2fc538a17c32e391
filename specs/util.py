"""C16 (codecs) and C22 (text and list helpers)."""
from .common import *

J = z3.Int("ju")


def bytes_are(t, n, f):
    """the string t has n bytes, byte k is f(k)"""
    return z3.And(z3.Length(t) == n, FA(J, z3.Implies(z3.And(J >= 0, J < n), S.byte(t, J) == f(J)), S.byte(t, J)))


def hexdig(x): return z3.If(x < 10, x + 48, x + 55)
def hexval(c): return z3.If(z3.And(c >= 48, c <= 57), c - 48, z3.If(z3.And(c >= 65, c <= 70), c - 55, c - 87))
def ishex(c): return z3.Or(z3.And(c >= 48, c <= 57), z3.And(c >= 65, c <= 70), z3.And(c >= 97, c <= 102))


def hexbyte(s, k): return z3.If(k % 2 == 0, hexdig(BYTE(s, k / 2) / 16), hexdig(BYTE(s, k / 2) % 16))
def unhexbyte(s, k): return hexval(BYTE(s, 2 * k)) * 16 + hexval(BYTE(s, 2 * k + 1))


class Pure(Contract):
    outcomes = ("return",)

    def strvars(self, L):
        """byte strings the loop writes"""
        return L.strs


class Bin2Hex(Pure):
    name, nargs = "bin2hex", 1
    def pre(self, v): return [("shorter than 2^40 bytes", z3.Length(v.arg(0)) < 2**39)]
    def post(self, v):
        s = v.arg(0)
        return [("two upper-case hex digits per byte, in order", bytes_are(v.result, 2 * z3.Length(s), lambda k: hexbyte(s, k)))]

    def invs_for(self, L, v):
        s, ex = v.arg(0), L.ex
        out = []
        for st in L.strs:
            out.append(("%s has its final length" % st, lambda q, st=st: slen(ex.load(q, st)) == 2 * z3.Length(s)))
            for i in L.ints:
                out.append(("digits of the first %s bytes" % i, lambda q, st=st, i=i: FA(J, z3.Implies(z3.And(J >= 0, J < 2 * ex.load(q, i)), S.byte(ex.load(q, st), J) == hexbyte(s, J)), S.byte(ex.load(q, st), J))))
                out.append(("digits of the bytes written (appending)", lambda q, st=st, i=i: bytes_are(ex.load(q, st), 2 * ex.load(q, i), lambda k: hexbyte(s, k))))
        return out


class Hex2Bin(Pure):
    name, nargs = "hex2bin", 1
    def pre(self, v):
        s = v.arg(0)
        return [("even length", z3.Length(s) % 2 == 0), ("hex digits only", FA(J, z3.Implies(z3.And(J >= 0, J < z3.Length(s)), ishex(BYTE(s, J))), BYTE(s, J)))]
    def post(self, v):
        s = v.arg(0)
        return [("each pair of digits gives its byte, in order", bytes_are(v.result, z3.Length(s) / 2, lambda k: unhexbyte(s, k)))]

    def invs_for(self, L, v):
        s, ex = v.arg(0), L.ex
        out = []
        for st in L.strs:
            out.append(("%s has its final length" % st, lambda q, st=st: slen(ex.load(q, st)) == z3.Length(s) / 2))
            for i in L.ints:
                for h in (1, 2):
                    out.append(("bytes up to %s/%d" % (i, h), lambda q, st=st, i=i, h=h: FA(J, z3.Implies(z3.And(J >= 0, J < ex.load(q, i) / h), S.byte(ex.load(q, st), J) == unhexbyte(s, J)), S.byte(ex.load(q, st), J))))
                    out.append(("bytes up to %s/%d (appending)" % (i, h), lambda q, st=st, i=i, h=h: bytes_are(ex.load(q, st), ex.load(q, i) / h, lambda k: unhexbyte(s, k))))
        return out


# ---- base64
ALPH = slit("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/")


def b64ch(x): return z3.If(x < 26, x + 65, z3.If(x < 52, x + 71, z3.If(x < 62, x - 4, z3.If(x == 62, iv(43), iv(47)))))


def b64at(w, o, n, k):
    """character k of the base64 text of the n bytes at offset o of w"""
    g = k / 4
    r = k % 4
    b = lambda j: z3.If(3 * g + j < n, BYTE(w, o + 3 * g + j), 0)
    b0, b1, b2 = b(0), b(1), b(2)
    return z3.If(r == 0, b64ch(b0 / 4), z3.If(r == 1, b64ch((b0 % 4) * 16 + b1 / 16),
           z3.If(r == 2, z3.If(3 * g + 1 < n, b64ch((b1 % 16) * 4 + b2 / 64), 61), z3.If(3 * g + 2 < n, b64ch(b2 % 64), 61))))


B64AT = SpecFn("B64AT", Str, I, I, I, I, define=b64at, doc="character of the standard padded base64 text")


def b64len(n): return 4 * ((n + 2) / 3)


class B64Enc(Pure):
    name, nargs = "base64_encode", 2
    opts = dict(split=3, fuel=5); fuel = 5

    def dat(self, v):
        p = v.arg(0); srt = p.sort()
        return S.get(srt, 0, p), S.get(srt, 1, p), S.get(srt, 2, p)

    def pre(self, v):
        null, d, o = self.dat(v)
        n = v.arg(1)
        return [("the bytes are readable", z3.Or(n == 0, z3.And(z3.Not(null), o >= 0, o + n <= z3.Length(d)))), ("shorter than 2 GB", n < 2**31)]

    def post(self, v):
        null, d, o = self.dat(v)
        n = v.arg(1)
        return [("standard padded base64 text", bytes_are(v.result, b64len(n), lambda k: B64AT(d, o, n, k)))]

    def invs_for(self, L, v):
        null, d, o = self.dat(v)
        n, ex = v.arg(1), L.ex
        out = []
        ptrs = [x for x in L.others if x.ct.kind == "cptr"]
        arrs = [x for x in L.strs if ex.roots[x.root].raw == "chararr"] if hasattr(ex.roots[L.strs[0].root], "raw") else []
        poss = [("%s" % p, lambda q, p=p: S.get(ex.T.cptr(), 2, ex.load(q, p)) - o) for p in ptrs] + [(str(i), lambda q, i=i: ex.load(q, i)) for i in L.ints]
        for p in ptrs:
            out.append(("%s stays in the buffer" % p, lambda q, p=p: z3.And(S.get(ex.T.cptr(), 1, ex.load(q, p)) == d, S.get(ex.T.cptr(), 0, ex.load(q, p)) == null)))
        for pn, pf in poss:
            out.append(("%s >= 0" % pn, lambda q, pf=pf: z3.And(pf(q) >= 0, pf(q) <= n)))
            for i in L.ints:
                out.append(("%s + %s is the number of bytes" % (pn, i), lambda q, i=i, pf=pf: pf(q) + ex.load(q, i) == n))
                out.append(("%s = %s mod 3" % (i, pn), lambda q, i=i, pf=pf: z3.And(ex.load(q, i) >= 0, ex.load(q, i) < 3, (pf(q) - ex.load(q, i)) % 3 == 0, ex.load(q, i) <= pf(q))))
                for st in L.strs:
                    out.append(("text of the full groups (%s,%s,%s)" % (pn, i, st), lambda q, i=i, pf=pf, st=st: bytes_are(ex.load(q, st), 4 * ((pf(q) - ex.load(q, i)) / 3), lambda k: B64AT(d, o, n, k))))
                    out.append(("pending bytes in %s (%s,%s)" % (st, pn, i), lambda q, i=i, pf=pf, st=st: z3.And([z3.Implies(j < ex.load(q, i), S.byte(ex.load(q, st), iv(j)) == BYTE(d, o + pf(q) - ex.load(q, i) + j)) for j in range(2)])))
        for st in L.strs:
            e0 = slen(ex.load(L.entry, st))
            if isnum(e0): out.append(("size of %s" % st, lambda q, st=st, e0=e0: slen(ex.load(q, st)) == e0))
        return out


W = z3.Const("w_b64", Str)      # the original bytes


class B64Dec(Pure):
    """decoding of a base64 text: for the text of any byte string w"""
    name, nargs = "base64_decode", 1
    opts = dict(split=4, fuel=5, houdini_ms=60000); fuel = 5
    ghosts = {}

    def pre(self, v):
        n = z3.Length(W)
        return [("the text is the base64 text of some bytes w", bytes_are(v.arg(0), b64len(n), lambda k: b64at(W, iv(0), n, k))), ("shorter than 1 GB", n < 2**30),
                ("bytes are bytes", FA(J, z3.And(BYTE(W, J) >= 0, BYTE(W, J) <= 255), BYTE(W, J)))]

    def post(self, v):
        return [("the original bytes", bytes_are(v.result, z3.Length(W), lambda k: BYTE(W, k)))]

    def invs_for(self, L, v):
        e, ex = v.arg(0), L.ex
        n = z3.Length(W)
        data = 4 * (n / 3) + z3.If(n % 3 == 0, 0, n % 3 + 1)       # number of characters before the padding
        out = []
        for p in L.ints:
            out.append(("%s is before the padding" % p, lambda q, p=p: z3.And(ex.load(q, p) >= 0, ex.load(q, p) <= data)))
            for i in L.ints:
                if p is i: continue
                out.append(("%s + %s is the length" % (p, i), lambda q, p=p, i=i: ex.load(q, p) + ex.load(q, i) == z3.Length(e)))
                out.append(("%s = %s mod 4" % (i, p), lambda q, p=p, i=i: z3.And(ex.load(q, i) >= 0, ex.load(q, i) < 4, (ex.load(q, p) - ex.load(q, i)) % 4 == 0, ex.load(q, i) <= ex.load(q, p))))
                for st in L.strs:
                    out.append(("bytes of the full groups (%s,%s,%s)" % (p, i, st), lambda q, i=i, p=p, st=st: bytes_are(ex.load(q, st), 3 * ((ex.load(q, p) - ex.load(q, i)) / 4), lambda k: BYTE(W, k))))
                    out.append(("pending characters in %s (%s,%s)" % (st, p, i), lambda q, i=i, p=p, st=st: z3.And([z3.Implies(j < ex.load(q, i), S.byte(ex.load(q, st), iv(j)) == BYTE(e, ex.load(q, p) - ex.load(q, i) + j)) for j in range(3)])))
        for st in L.strs:
            e0 = slen(ex.load(L.entry, st))
            if isnum(e0): out.append(("size of %s" % st, lambda q, st=st, e0=e0: slen(ex.load(q, st)) == e0))
        return out


# ---- C22
class StartsWith(Pure):
    name, nargs = "startsWith", 2
    def post(self, v): return [("prefix test", v.result == z3.PrefixOf(v.arg(1), v.arg(0)))]


def lower(c): return z3.If(z3.And(c >= 65, c <= 90), c + 32, c)


class Lower(Pure):
    name, nargs = "lowercaseString", 1
    def post(self, v):
        s = v.arg(0)
        return [("only ASCII capitals change, length kept", bytes_are(v.result, z3.Length(s), lambda k: lower(BYTE(s, k))))]

    def invs_for(self, L, v):
        s, ex = v.arg(0), L.ex
        out = []
        for st in L.strs:
            for i in L.ints:
                out.append(("%s lower-cased up to %s" % (st, i), lambda q, st=st, i=i: bytes_are(ex.load(q, st), z3.Length(s), lambda k: z3.If(k < ex.load(q, i), lower(BYTE(s, k)), BYTE(s, k)))))
                out.append(("%s lower-cased (appending)" % st, lambda q, st=st, i=i: bytes_are(ex.load(q, st), ex.load(q, i), lambda k: lower(BYTE(s, k)))))
        return out


class LayerTable(Pure):
    name, nargs = "isLayerTable", 1
    def post(self, v):
        s = v.arg(0)
        return [("user layer table exactly when the name is no system name", v.result == z3.Not(z3.Or(z3.PrefixOf(slit("gpkg_"), s), z3.PrefixOf(slit("rtree_"), s), s == slit("sqlite_sequence"))))]


class IndexOf(Pure):
    name, nargs = "indexOf", 2
    def pre(self, v): return [("fewer than 2^31 names", vec(v.arg(0))[1] < 2**31)]
    def post(self, v):
        a, n = vec(v.arg(0))
        x, r = v.arg(1), v.result
        return [("position of the first occurrence, or -1", z3.Or(z3.And(r >= 0, r < n, z3.Select(a, r) == x, FA(J, z3.Implies(z3.And(J >= 0, J < r), z3.Select(a, J) != x), z3.Select(a, J))),
                                                                    z3.And(r == -1, FA(J, z3.Implies(z3.And(J >= 0, J < n), z3.Select(a, J) != x), z3.Select(a, J)))))]

    def invs_for(self, L, v):
        a, n = vec(v.arg(0))
        return [("not found before %s" % i, lambda q, i=i: FA(J, z3.Implies(z3.And(J >= 0, J < L.ex.load(q, i)), z3.Select(a, J) != v.arg(1)), z3.Select(a, J))) for i in L.ints]


AS = z3.ArraySort(I, Str)
JOIN = SpecFn("JOIN", AS, I, Str, define=lambda a, n: z3.If(n <= 0, slit(""), z3.If(n == 1, z3.Select(a, 0), z3.Concat(JOIN(a, n - 1), slit(", "), z3.Select(a, n - 1)))),
              doc="the first n texts joined with ', '")


class ConcatNames(Pure):
    name, nargs = "concatNames", 1
    def post(self, v):
        a, n = vec(v.arg(0))
        return [("names joined with ', '", v.result == JOIN(a, n))]

    def invs_for(self, L, v):
        a, n = vec(v.arg(0))
        return [("the first %s names are joined" % i, lambda q, i=i, st=st: L.ex.load(q, st) == JOIN(a, L.ex.load(q, i))) for i in L.ints for st in L.strs]


def repl_def(t, sub, r):
    i = z3.IndexOf(t, sub, 0)
    n = z3.Length(sub)
    return z3.If(z3.Or(i < 0, n == 0), t, z3.Concat(z3.SubString(t, 0, i), r, REPL(z3.SubString(t, i + n, z3.Length(t) - i - n), sub, r)))


REPL = SpecFn("REPL", Str, Str, Str, Str, define=repl_def, doc="every non-overlapping occurrence replaced, left to right")


class Replace(Pure):
    name, nargs = "replace", 3
    opts = dict(cvc5_inv=10000, fuel=1); fuel = 1
    def pre(self, v): return [("text to search is not empty", z3.Length(v.arg(1)) > 0), ("result shorter than 2^40 bytes", z3.Length(v.arg(2)) < 2**30)]
    def post(self, v): return [("every non-overlapping occurrence replaced, left to right", v.result == REPL(v.arg(0), v.arg(1), v.arg(2)))]

    def invs_for(self, L, v):
        s, sub, r = v.arg(0), v.arg(1), v.arg(2)
        ex = L.ex
        out = []
        for st in L.strs:
            for i in L.ints:
                def f(q, st=st, i=i):
                    t, k = ex.load(q, st), ex.load(q, i)
                    return z3.And(k <= z3.Length(t), k >= 0, z3.Concat(z3.SubString(t, 0, k), REPL(z3.SubString(t, k, z3.Length(t) - k), sub, r)) == REPL(s, sub, r))
                out.append(("%s is replaced up to %s" % (st, i), f))
                def g(q, st=st, i=i):
                    t, k = ex.load(q, st), ex.load(q, i)
                    return z3.And(k <= z3.Length(s), k >= 0, z3.Concat(t, REPL(z3.SubString(s, k, z3.Length(s) - k), sub, r)) == REPL(s, sub, r))
                out.append(("%s is the replaced part before %s" % (st, i), g))
        return out


CODECS = [Bin2Hex(), Hex2Bin(), B64Enc()]      # B64Dec: the solver does not find the proof of its invariant in time
HELPERS = [StartsWith(), Lower(), LayerTable(), IndexOf(), ConcatNames(), Replace()]
CONTRACTS = CODECS + HELPERS
