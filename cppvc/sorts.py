"""C++ types -> SMT sorts (z3 terms)."""
import re, z3
from z3 import IntSort, BoolSort, StringSort, ArraySort, Int, Bool, Const

Str = StringSort()
I = IntSort()
B = BoolSort()


class Unsupported(Exception):
    pass


# ---------------------------------------------------------------- types
INTS = {
    "char": (8, True), "signed char": (8, True), "unsigned char": (8, False),
    "short": (16, True), "unsigned short": (16, False),
    "int": (32, True), "unsigned int": (32, False), "unsigned": (32, False),
    "long": (64, True), "unsigned long": (64, False), "long long": (64, True), "unsigned long long": (64, False),
    "size_t": (64, False), "std::size_t": (64, False), "int64_t": (64, True), "uint64_t": (64, False),
    "int32_t": (32, True), "uint32_t": (32, False), "uint8_t": (8, False), "u8": (8, False), "u32": (32, False),
    "u64": (64, False), "i64": (64, True), "sqlite3_int64": (64, True), "sqlite_int64": (64, True),
    "std::streamsize": (64, True), "__int64_t": (64, True), "__uint64_t": (64, False),
    "Oid": (32, False), "std::string::size_type": (64, False), "std::ptrdiff_t": (64, True), "ptrdiff_t": (64, True),
    "std::basic_string<char>::size_type": (64, False),
}
ENUM_INT = (32, True)


class CT:
    """normalised C++ type.  kind: void bool int dbl str vec map set struct ref(erence) ptr cptr iter opaque"""
    __slots__ = ("kind", "args", "name", "bits", "signed", "raw")

    def __init__(self, kind, name="", args=(), bits=0, signed=False, raw=""):
        self.kind, self.name, self.args, self.bits, self.signed, self.raw = kind, name, tuple(args), bits, signed, raw

    def key(self):
        return (self.kind, self.name, tuple(a.key() for a in self.args), self.bits, self.signed)

    def __eq__(self, o):
        return isinstance(o, CT) and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        return "%s<%s>%s" % (self.kind, self.name, list(self.args) if self.args else "")


VOID = CT("void")
BOOL = CT("bool", bits=1)
INT = CT("int", "int", bits=32, signed=True)
SIZE = CT("int", "size_t", bits=64, signed=False)
I64 = CT("int", "int64_t", bits=64, signed=True)
U64 = CT("int", "uint64_t", bits=64, signed=False)
CHAR = CT("int", "char", bits=8, signed=True)
DBL = CT("dbl")
STR = CT("str")
CPTR = CT("cptr")


def split_targs(s):
    out, d, cur = [], 0, ""
    for ch in s:
        if ch in "<([":
            d += 1
        if ch in ">)]":
            d -= 1
        if ch == "," and d == 0:
            out.append(cur.strip()); cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


class Types:
    """type resolution for a program (records/enums/typedef names)"""

    def __init__(self, records, enums, abstract):
        self.records = records      # qualname -> decl
        self.enums = enums          # set of enum type names
        self.abstract = abstract    # name -> CT for classes kept abstract
        self._dt = {}
        self._cache = {}
        self._building = set()

    def parse(self, t):
        if isinstance(t, dict):
            q = t.get("qualType", "")
            try:
                return self._p(q)
            except Unsupported:
                d = t.get("desugaredQualType")
                if d and d != q:
                    return self._p(d)
                raise
        return self._p(t)

    def _p(self, s):
        r = self._cache.get(s)
        if r is None:
            r = self._p1(s)
            self._cache[s] = r
        return r

    def _p1(self, s0):
        s = s0.strip()
        s = re.sub(r"\b(const|volatile|struct|class|enum|typename)\b", "", s).strip()
        s = re.sub(r"\s+", " ", s)
        if s.endswith("&&"):
            return CT("ref", args=[self._p(s[:-2])])
        if s.endswith("&"):
            return CT("ref", args=[self._p(s[:-1])])
        if "(*)(" in s:
            return CT("fnptr", raw=s)
        m = re.match(r"^(.*?)\[(\d*)\]$", s)
        if m and not s.startswith("std::") and "(*" not in s:
            el = self._p(m.group(1))
            return CT("arr", args=[el], bits=int(m.group(2) or 0))
        if s.endswith("*"):
            inner = s[:-1].strip()
            if inner in ("char", "unsigned char", "void", "u8", "uint8_t", "signed char"):
                return CT("cptr", raw=inner)
            if "(" in inner:
                return CT("fnptr", raw=s)
            try:
                return CT("ptr", args=[self._p(inner)])
            except Unsupported:
                return CT("ptr", args=[CT("opaque", inner)])
        s = s.strip()
        if s in ("void",):
            return VOID
        if s == "bool":
            return BOOL
        if s in INTS:
            b, sg = INTS[s]
            return CT("int", s, bits=b, signed=sg)
        if s in ("double", "float"):
            return DBL
        if s in ("std::string", "string", "std::basic_string<char>", "basic_string<char>", "std::__cxx11::basic_string<char>") or s.startswith("std::basic_string<char,") or s.startswith("basic_string<char,") or s.startswith("std::__cxx11::basic_string<char"):
            if s.endswith(">") or "<" not in s:
                return STR
        m = re.match(r"^(?:union )?(\w+)::\((?:unnamed|anonymous)[^)]*\)$", s)
        if m and m.group(1) + "::<anon>" in self.records:
            return CT("struct", m.group(1) + "::<anon>")
        if s in self.abstract:
            return self.abstract[s]
        if s in self.enums or s in ("ExecStatusType", "ConnStatusType"):
            return CT("int", s, bits=32, signed=True)
        if s in self.records:
            return CT("struct", s)
        # nested names without the qualifier
        cands = [r for r in self.records if r.endswith("::" + s)]
        if len(cands) == 1:
            return CT("struct", cands[0])
        cands = [r for r in self.enums if r.endswith("::" + s)]
        if len(cands) >= 1:
            return CT("int", cands[0], bits=32, signed=True)
        m = re.match(r"^(?:std::)?(?:__cxx11::)?(vector|map|set|unique_ptr|shared_ptr|pair|__shared_ptr|__shared_ptr_access|initializer_list|function)<(.*)>$", s)
        if m:
            tn = m.group(1)
            a = split_targs(m.group(2))
            if tn == "vector":
                return CT("vec", args=[self._p(a[0])])
            if tn == "map":
                return CT("map", args=[self._p(a[0]), self._p(a[1])])
            if tn == "set":
                return CT("set", args=[self._p(a[0])])
            if tn == "pair":
                return CT("pair", args=[self._p(a[0]), self._p(a[1])])
            if tn in ("unique_ptr", "shared_ptr", "__shared_ptr", "__shared_ptr_access"):
                try:
                    return CT("ptr", name="smart", args=[self._p(a[0])])
                except Unsupported:
                    return CT("ptr", name="smart", args=[CT("opaque", a[0])])
            if tn == "initializer_list":
                return CT("vec", args=[self._p(a[0])])
        if s in ("std::ofstream", "std::ifstream", "std::ostringstream", "std::ostream", "std::stringstream", "std::basic_ostream<char>",
                 "std::basic_ofstream<char>", "std::basic_ifstream<char>", "basic_ofstream<char>", "basic_ifstream<char>", "basic_ostringstream<char>", "basic_ostream<char>", "std::basic_ostringstream<char>", "std::basic_ostream<char, std::char_traits<char>>"):
            return CT("stream", s)
        if "iterator" in s:
            return CT("iter", s)
        if s.startswith("(lambda"):
            return CT("lambda", s)
        if s == "auto":
            raise Unsupported("auto type")
        raise Unsupported("type " + s0)

    # ------------------------------------------------------------ sorts
    def sort(self, ct):
        k = ct.kind
        if k == "bool": return B
        if k in ("int", "dbl", "ptr", "fnptr", "opaque"): return I
        if k == "str": return Str
        if k == "heap": return ArraySort(I, self.sort(ct.args[0]))
        if k == "ref": return self.sort(ct.args[0])
        if k == "vec": return self.vec(self.sort(ct.args[0]))
        if k == "arr": return self.vec(self.sort(ct.args[0]))
        if k == "map": return self.map(self.sort(ct.args[0]), self.sort(ct.args[1]))
        if k == "set": return self.set(self.sort(ct.args[0]))
        if k == "cptr": return self.cptr()
        if k == "pair": return self.pair(self.sort(ct.args[0]), self.sort(ct.args[1]))
        if k == "adt": return ADTS[ct.name]()
        if k == "struct": return self.struct(ct.name)
        if k == "stream": return Str
        raise Unsupported("sort of %r" % ct)

    def _mk(self, name, fields, ctor=None):
        d = self._dt.get(name)
        if d is None:
            dt = z3.Datatype(name)
            dt.declare(ctor or ("mk_" + name), *fields)
            d = dt.create()
            self._dt[name] = d
        return d

    def vec(self, s):
        return self._mk("Vec_" + sname(s), [("arr_" + sname(s), ArraySort(I, s)), ("len_" + sname(s), I)])

    def map(self, ks, vs):
        n = sname(ks) + "_" + sname(vs)
        return self._mk("Map_" + n, [("dom_" + n, ArraySort(ks, B)), ("val_" + n, ArraySort(ks, vs))])

    def set(self, s):
        return self._mk("Set_" + sname(s), [("mem_" + sname(s), ArraySort(s, B))])

    def pair(self, a, b):
        n = sname(a) + "_" + sname(b)
        return self._mk("Pair_" + n, [("first_" + n, a), ("second_" + n, b)])

    def cptr(self):
        return self._mk("CPtr", [("p_null", B), ("p_data", Str), ("p_off", I)])

    def fields(self, name):
        d = self.records[name]
        out = []
        for b in d.get("bases", []):
            try:
                bt = self.parse(b["type"])
            except Unsupported:
                continue
            if bt.kind == "struct":
                out += self.fields(bt.name)
        for x in d.get("inner", []):
            if x.get("kind") == "FieldDecl":
                if not x.get("name"):
                    continue
                q = x["type"].get("qualType", "")
                if ("unnamed " in q or "anonymous " in q) and name + "::<anon>" in self.records:
                    out.append((x["name"], CT("struct", name + "::<anon>"), x))
                    continue
                try:
                    ct = self.parse(x["type"])
                except Unsupported:
                    ct = CT("opaque", x["type"]["qualType"])
                if ct.kind in ("lambda", "iter"):
                    ct = CT("opaque", ct.name)
                out.append((x["name"], ct, x))
        return out

    def struct(self, name):
        key = "S_" + re.sub(r"\W", "_", name)
        d = self._dt.get(key)
        if d is None:
            if key in self._building:
                raise Unsupported("recursive struct " + name)
            self._building.add(key)
            try:
                fs = self.fields(name)
                fl = [("%s_%s" % (key, n), self.sort(ct)) for n, ct, _ in fs]
            finally:
                self._building.discard(key)
            if not fl:
                fl = [(key + "_dummy", I)]
            d = self._mk(key, fl)
        return d

    def is_union(self, name):
        return self.records.get(name, {}).get("tagUsed") == "union"

    def field_index(self, name, f):
        for i, (n, ct, _) in enumerate(self.fields(name)):
            if n == f:
                return i, ct
        raise Unsupported("field %s of %s" % (f, name))


def sname(s):
    return re.sub(r"\W", "_", str(s))


# ------------------------------------------------------------ the Value ADT (abstract view of class Value)
_V = None


def VAL():
    global _V
    if _V is None:
        dt = z3.Datatype("Value")
        dt.declare("VUndef")
        dt.declare("VInt", ("vi", I))
        dt.declare("VDbl", ("vd", I))
        dt.declare("VText", ("vt", Str))
        dt.declare("VBlob", ("vb", Str))
        dt.declare("VNull")
        _V = dt.create()
    return _V


_BUF = None


def BUF():
    global _BUF
    if _BUF is None:
        dt = z3.Datatype("Buffer")
        dt.declare("mk_Buffer", ("b_data", Str))
        _BUF = dt.create()
    return _BUF


ADTS = {"Value": VAL, "Buffer": BUF, "GeoDiffException": lambda: Str}
GEXC = CT("adt", "GeoDiffException")
VALUE = CT("adt", "Value")
BUFFER = CT("adt", "Buffer")


# ------------------------------------------------------------ datatype helpers with construction-time simplification
def mk(dt, *args):
    return dt.constructor(0)(*args)


def get(dt, i, t):
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_DT_CONSTRUCTOR:
        return t.arg(i)
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
        a, b = t.arg(1), t.arg(2)
        if _isctor(a) or _isctor(b):
            x, y = get(dt, i, a), get(dt, i, b)
            if x.eq(y):
                return x
            return z3.If(t.arg(0), x, y)
    return dt.accessor(0, i)(t)


def _isctor(t):
    return z3.is_app(t) and (t.decl().kind() == z3.Z3_OP_DT_CONSTRUCTOR or (t.decl().kind() == z3.Z3_OP_ITE and (_isctor(t.arg(1)) or _isctor(t.arg(2)))))


def upd(dt, i, t, v):
    n = dt.constructor(0).arity()
    return dt.constructor(0)(*[v if j == i else get(dt, j, t) for j in range(n)])


def sel(a, i):
    """array select with simple simplification"""
    x = a
    while z3.is_app(x) and x.decl().kind() == z3.Z3_OP_STORE:
        k = x.arg(1)
        if k.eq(i):
            return x.arg(2)
        if distinct(k, i):
            x = x.arg(0)
            continue
        break
    if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_CONST_ARRAY:
        return x.arg(0)
    return z3.Select(x, i)


def isnum(t):
    return z3.is_int_value(t)


def distinct(a, b):
    if isnum(a) and isnum(b):
        return a.as_long() != b.as_long()
    if z3.is_string_value(a) and z3.is_string_value(b):
        return a.as_string() != b.as_string()
    return False


# ------------------------------------------------------------ strings
def slit(s):
    """string literal from a python bytes/latin-1 str"""
    if isinstance(s, bytes):
        s = s.decode("latin-1")
    out = "".join(c if 32 <= ord(c) < 127 and c != "\\" else "\\u{%x}" % ord(c) for c in s)
    return z3.StringVal(out)


def sval(t):
    """python latin-1 str of a z3 string literal"""
    s = t.as_string()
    return re.sub(r"\\u\{([0-9a-fA-F]+)\}", lambda m: chr(int(m.group(1), 16)), s)


def concat(*parts):
    flat = []

    def go(t):
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
            for c in t.children():
                go(c)
        elif z3.is_string_value(t):
            v = sval(t)
            if v == "":
                return
            if flat and isinstance(flat[-1], str):
                flat[-1] += v
            else:
                flat.append(v)
        else:
            flat.append(t)
    for p in parts:
        go(slit(p) if isinstance(p, str) else p)
    ts = [slit(x) if isinstance(x, str) else x for x in flat]
    if not ts:
        return slit("")
    if len(ts) == 1:
        return ts[0]
    return z3.Concat(*ts)


def slen(t):
    if z3.is_string_value(t):
        return z3.IntVal(len(sval(t)))
    if z3.is_app(t):
        k = t.decl().kind()
        if k == z3.Z3_OP_SEQ_CONCAT:
            return z3.Sum([slen(c) for c in t.children()])
        if t.decl().name() == "upd_str":
            return slen(t.arg(0))
        if t.decl().name() == "fill_str":
            return t.arg(0)
        if t.decl().name() == "chr1":
            return z3.IntVal(1)
        if t.decl().name() in ("le8", "be8"):
            return z3.IntVal(8)
    return z3.Length(t)


BYTE = z3.Function("byte", Str, I, I)          # byte value 0..255 of a string at an index (opaque; revealed in lemmas)
SUB = z3.Function("sub", Str, I, I, Str)       # substring (opaque)
UPD = z3.Function("upd_str", Str, I, I, Str)   # string with one byte replaced
FILL = z3.Function("fill_str", I, I, Str)      # n copies of a byte


def fill(n, c):
    n, c = z3.simplify(n), z3.simplify(c)
    if z3.is_int_value(n) and z3.is_int_value(c) and 0 <= n.as_long() <= 16: return slit(chr(c.as_long() % 256) * n.as_long())
    return FILL(n, c)
CHR = z3.Function("chr1", I, Str)              # one-byte string
LE8 = z3.Function("le8", I, Str)
BE8 = z3.Function("be8", I, Str)
LE64AT = z3.Function("le64at", Str, I, I)
BE64AT = z3.Function("be64at", Str, I, I)
BSWAP = z3.Function("bswap64", I, I)
ITOA = z3.Function("itoa", I, Str)             # decimal representation
DTOA = z3.Function("dtoa", I, Str)             # std::to_string(double)


def runs(v):
    """maximal runs of consecutive byte values: [(start index, length, first byte)]"""
    out = []
    for k, c in enumerate(v):
        if out and out[-1][2] + out[-1][1] == ord(c): out[-1][1] += 1
        else: out.append([k, 1, ord(c)])
    return [tuple(r) for r in out] if len(out) <= 24 else None


def runs_at(r, i):
    t = None
    for k, n, c in reversed(r):
        e = i + (c - k)
        t = e if t is None else z3.If(i < k + n, e, t)
    return t


def runs_find(r, c, none):
    t = none
    for k, n, b in reversed(r):
        t = z3.If(z3.And(c >= b, c < b + n), c - (b - k), t)
    return t


def add(a, b):
    if isnum(a) and isnum(b):
        return z3.IntVal(a.as_long() + b.as_long())
    if isnum(b) and b.as_long() == 0:
        return a
    if isnum(a) and a.as_long() == 0:
        return b
    return a + b


def byte(s, i):
    if z3.is_string_value(s) and isnum(i):
        v = sval(s)
        n = i.as_long()
        if 0 <= n < len(v):
            return z3.IntVal(ord(v[n]))
    if z3.is_app(s):
        n = s.decl().name()
        if n == "upd_str":
            if s.arg(1).eq(i):
                return s.arg(2)
            if distinct(s.arg(1), i):
                return byte(s.arg(0), i)
            return z3.If(i == s.arg(1), s.arg(2), byte(s.arg(0), i))
        if n == "fill_str":
            return s.arg(1)
        if n == "sub":
            return byte(s.arg(0), z3.simplify(s.arg(1) + i))
        if n == "chr1" and isnum(i):
            return s.arg(0)
    return BYTE(s, i)


def sub(s, off, ln):
    if z3.is_string_value(s) and isnum(off) and isnum(ln):
        o, l = off.as_long(), ln.as_long()
        return slit(sval(s)[o:o + l])
    if isnum(off) and off.as_long() == 0 and z3.simplify(ln - slen(s)).eq(z3.IntVal(0)):
        return s
    if isnum(ln) and ln.as_long() == 0:
        return slit("")
    if isnum(ln) and ln.as_long() == 1 and z3.is_app(s) and s.decl().name() == "upd_str":
        return chr1(byte(s, off))
    if z3.is_app(s) and s.decl().name() == "sub":
        return SUB(s.arg(0), z3.simplify(s.arg(1) + off), ln)
    return SUB(s, off, ln)


def isbyte(t):
    """syntactically a value 0..255"""
    if isnum(t): return 0 <= t.as_long() <= 255
    if not z3.is_app(t): return False
    if t.decl().name() == "byte": return True
    k = t.decl().kind()
    if k == z3.Z3_OP_ITE: return isbyte(t.arg(1)) and isbyte(t.arg(2))
    if k == z3.Z3_OP_MOD: return isnum(t.arg(1)) and 0 < t.arg(1).as_long() <= 256
    return False


def sbyte(v):
    """signed char of a byte"""
    if isnum(v):
        n = v.as_long()
        return z3.IntVal(n - 256 if n > 127 else n)
    return z3.If(v > 127, v - 256, v)


def unsbyte(c):
    """the byte of sbyte(byte), or None"""
    if z3.is_app(c) and c.decl().kind() == z3.Z3_OP_ITE and z3.is_app(c.arg(0)) and c.arg(0).decl().kind() == z3.Z3_OP_GT and c.arg(0).arg(0).eq(c.arg(2)) \
            and isnum(c.arg(0).arg(1)) and c.arg(0).arg(1).as_long() == 127 and c.arg(1).eq(c.arg(2) - 256):
        return c.arg(2)
    return None


def chr1(c):
    """one-byte string from a (possibly signed) char value"""
    u = unsbyte(c)
    if u is not None: c = u
    if isnum(c):
        return slit(chr(c.as_long() % 256))
    if z3.is_app(c) and c.decl().kind() == z3.Z3_OP_ITE and ite_leaves(c):
        return z3.If(c.arg(0), chr1(c.arg(1)), chr1(c.arg(2)))
    return CHR(c)


def ite_leaves(t):
    """if-then-else tree whose leaves are all numerals"""
    if isnum(t): return True
    return z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE and ite_leaves(t.arg(1)) and ite_leaves(t.arg(2))


def le8(x):
    if z3.is_app(x) and x.decl().name() == "bswap64":
        return BE8(x.arg(0))
    return LE8(x)


def bswap(x):
    if z3.is_app(x):
        n = x.decl().name()
        if n == "bswap64":
            return x.arg(0)
        if n == "le64at":
            return BE64AT(x.arg(0), x.arg(1))
        if n == "be64at":
            return LE64AT(x.arg(0), x.arg(1))
    return BSWAP(x)
