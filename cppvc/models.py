"""Assumed contracts of external code: C++ standard library, libc, builtins.
Every model used in a proof is listed in the evidence as an assumption."""
import re, z3
from .sorts import *
from . import sorts as S
from .exec import *
from .expr import *


def one(s, v=None): return [(s, v)]


def data_of_cptr(ex, st, p, n=None, node=None):
    """String content a char pointer points to (n bytes, or up to NUL for string literals)"""
    if isinstance(p, PtrLV):
        if p.lv.ct.kind == "str":
            d = ex.load(st, p.lv)
            if n is None: return d
            return S.sub(d, z3.IntVal(0), n)
        if p.lv.ct.kind == "int" and n is not None and isnum(n):
            x = ex.load(st, p.lv)
            if p.lv.ct.bits == 8 and n.as_long() == 1:
                return chr1(x)
            if p.lv.ct.bits == 64 and n.as_long() == 8:
                if p.lv.ct.signed: x = uns(x)
                return le8(x)
        if p.lv.ct.kind == "dbl" and n is not None and isnum(n) and n.as_long() == 8:
            return le8(ex.load(st, p.lv))
        raise Unsupported("bytes of %r" % p.lv.ct)
    d = ex.T.cptr()
    if not (z3.is_expr(p) and p.sort() == d): raise Unsupported("char pointer expected")
    data, off = S.get(d, 1, p), S.get(d, 2, p)
    if n is None:
        # NUL-terminated: whole data (callers guarantee no embedded NUL by their model)
        if isnum(off) and off.as_long() == 0: return data
        return S.sub(data, off, slen(data) - off)
    if ex.opts["bounds"]:
        # a std::string / literal has a readable terminating NUL
        lim = slen(data) + (1 if ex.opts.get("nul_readable", False) else 0)
        g = z3.Or(n == 0, z3.And(z3.Not(S.get(d, 0, p)), off >= 0, n >= 0, off + n <= lim))
        ex.ob(st, "memory block read in bounds", g, node, "safety")
        st.assume(g)
    return S.sub(data, off, n)


def uns(x):
    """signed 64 -> unsigned pattern"""
    if isnum(x): return z3.IntVal(x.as_long() % 2**64)
    if z3.is_app(x) and x.decl().name() == "s64": return x.arg(0)
    return U64F(x)


def sgn(x):
    if isnum(x):
        n = x.as_long()
        return z3.IntVal(n - 2**64 if n >= 2**63 else n)
    if z3.is_app(x) and x.decl().name() == "u64": return x.arg(0)
    return S64F(x)


U64F = z3.Function("u64", I, I)   # two's complement reinterpretation
S64F = z3.Function("s64", I, I)
from . import solve
from .solve import FA, REG
solve.REG["u64"] = lambda a: [a == z3.If(a.arg(0) < 0, a.arg(0) + 2**64, a.arg(0))]
solve.REG["s64"] = lambda a: [a == z3.If(a.arg(0) >= 2**63, a.arg(0) - 2**64, a.arg(0))]


class Models:
    def __init__(self):
        self.F, self.M, self.SP, self.OPQ, self.V, self.VM = {}, {}, {}, {}, {}, {}     # V, VM: variadic functions, also of the repository

    # ---- registries
    def func(self, n): return self.F.get(n)
    def special(self, q, n): return self.SP.get(n) if q is None else None

    def fnptr(self, ex, s, f, vs, e):
        h = getattr(ex, "fnptr_hook", None)
        if h: return h(ex, s, f, vs, e)
        raise Unsupported("call through a function pointer")

    def method(self, ex, lv, name, q):
        if isinstance(lv, tuple) and lv[0] == "opaque":
            return self.OPQ.get(q or (lv[2] + "::" + name)) or self.M.get((lv[2], name))
        if isinstance(lv, LV):
            return self.M.get((lv.ct.kind if lv.ct.kind != "adt" else lv.ct.name, name)) or (self.M.get((q,)) if q else None)
        if isinstance(lv, Iter): return self.M.get(("iter", name))
        return self.M.get(("?", name))

    def ctor(self, ex, ct, vs, s, e):
        k = ct.kind
        vals = [ex.rv(s, v) for v in vs]
        if k == "str":
            return str_ctor(ex, s, vs, vals, e)
        if k in ("vec",):
            if not vs: return one(s, ex.default(s, ct))
            if len(vs) >= 1 and z3.is_expr(vals[0]) and vals[0].sort() == I:
                fill = ex.default_elem(ct.args[0]) if len(vals) == 1 or isinstance(vs[1], tuple) else ex.to_term(s, vals[1])
                return one(s, mk(ex.T.sort(ct), z3.K(I, fill), vals[0]))
            if z3.is_expr(vals[0]) and vals[0].sort() == ex.T.sort(ct): return one(s, vals[0])
        if k in ("map", "set", "stream") and not vs:
            return one(s, ex.default(s, ct))
        if k == "pair" and len(vs) == 2:
            if any(isinstance(v, (Iter,)) for v in vals): return one(s, ("pairvals", vals[0], vals[1]))
            return one(s, mk(ex.T.sort(ct), ex.to_term(s, vals[0]), ex.to_term(s, vals[1])))
        if k == "pair" and not vs: return one(s, ex.default(s, ct))
        if k == "ptr":
            if not vs: return one(s, z3.IntVal(0))
            v = vals[0]
            if isinstance(v, PtrLV): v = ex.address(s, v.lv)
            if z3.is_expr(v): return one(s, v)
        if k == "iter":
            if len(vals) == 1 and isinstance(vals[0], Iter): return one(s, vals[0])
            if not vals: return one(s, None)
        if k == "adt" and ct.name == "GeoDiffException" and len(vs) == 1:
            return one(s, to_str(ex, s, vs[0], e))
        if k == "adt" and not vs:
            return one(s, ex.default(s, ct))
        if k == "opaque": return one(s, ex.fresh("opq", I))
        h = self.M.get((ct.name, "ctor"))
        if h: return h(ex, s, ct, vs, e)
        return None

    def operator(self, ex, op, vs, s, e):
        return operator(ex, op, vs, s, e)


MODELS = Models()


def F(*names):
    def d(f):
        for n in names: MODELS.F[n] = f
        return f
    return d


def M(kind, *names):
    def d(f):
        for n in names: MODELS.M[(kind, n)] = f
        return f
    return d


def SP(*names):
    def d(f):
        for n in names: MODELS.SP[n] = f
        return f
    return d


# ------------------------------------------------------------ std::string
def str_ctor(ex, s, vs, vals, e):
    if not vs: return one(s, slit(""))
    a = vals[0]
    if len(vals) == 1 or (len(vals) == 2 and isinstance(vs[1], tuple)):
        if z3.is_expr(a) and a.sort() == Str: return one(s, a)
        if isinstance(a, PtrLV) or (z3.is_expr(a) and a.sort() == ex.T.cptr()):
            return one(s, cstr_content(ex, s, a, e))
    if len(vals) >= 2:
        if z3.is_expr(a) and a.sort() == I:      # (count, char)
            c = vals[1]
            n = a
            if isnum(c): c = z3.IntVal(c.as_long() % 256)
            ex.ob(s, "string length fits", n >= 0, e, "safety")
            return one(s, S.fill(n, c))
        if isinstance(a, PtrLV) or (z3.is_expr(a) and a.sort() == ex.T.cptr()):
            n = ex.toint(vals[1])
            ex.ob(s, "string(ptr,len): length is not negative/oversized", z3.And(n >= 0, n < 2**62), e, "safety")
            s.assume(n >= 0, n < 2**62)
            return one(s, data_of_cptr(ex, s, a, n, e))
        if isinstance(a, Iter) and isinstance(vals[1], Iter):
            d = ex.load(s, a.lv)
            return one(s, S.sub(d, a.pos, vals[1].pos - a.pos))
    raise Unsupported("string constructor")


CSTR = z3.Function("cstr", Str, I, Str)    # NUL-terminated string starting at an offset


def cstr_content(ex, s, a, e):
    if isinstance(a, PtrLV):
        if a.lv.ct.kind == "str": return CSTR(ex.load(s, a.lv), z3.IntVal(0))
        raise Unsupported("cstr of lvalue")
    d = ex.T.cptr()
    data, off = S.get(d, 1, a), S.get(d, 2, a)
    null = z3.simplify(S.get(d, 0, a))
    if not z3.is_false(null):
        ex.ob(s, "string from a non-null pointer", z3.Not(null), e, "safety")
        s.assume(z3.Not(null))
    def text(data):
        if z3.is_app_of(data, z3.Z3_OP_ITE): return z3.If(data.arg(0), text(data.arg(1)), text(data.arg(2)))
        return cstr_at(s, data, off)
    return text(data)


def cstr_at(s, data, off):
    if z3.is_string_value(data) and isnum(off):
        v = sval(data)[off.as_long():]
        return slit(v.split("\0")[0])
    if z3.is_app(data) and data.decl().name() in NONUL:
        return data
    if s.aux.get(("nonul", data.get_id())) is not None and isnum(off) and off.as_long() == 0:
        return data
    return CSTR(data, off)


NONUL = {"itoa", "dtoa"}


@M("str", "size", "length")
def _(ex, s, lv, vs, e):
    n = slen(ex.load(s, lv))
    if not isnum(n): s.assume(n >= 0, n <= 2**40)
    return one(s, n)


@M("str", "empty")
def _(ex, s, lv, vs, e):
    v = ex.load(s, lv)
    n = slen(v)
    return one(s, z3.simplify(n == 0) if isnum(n) else v == slit(""))


@M("str", "c_str", "data")
def _(ex, s, lv, vs, e): return one(s, ex.cptr(ex.load(s, lv)))


@M("str", "clear")
def _(ex, s, lv, vs, e): ex.save(s, lv, slit("")); return one(s)


@M("str", "operator[]", "at")
def _(ex, s, lv, vs, e): return str_at(ex, s, lv, ex.rv(s, vs[0]), e)


def str_at(ex, s, lv, i, e):
    n = slen(ex.load(s, lv))
    lim = n + 1 if ex.opts.get("nul_index") else n      # s[s.size()] is the terminating NUL (only for functions that take addresses)
    ex.ob(s, "string index in bounds", z3.And(i >= 0, i < lim), e, "safety")
    s.assume(i >= 0, i < lim)
    return one(s, lv.c(i))


@M("str", "push_back")
def _(ex, s, lv, vs, e):
    ex.save(s, lv, concat(ex.load(s, lv), chr1(ex.rv(s, vs[0])))); return one(s)


@M("str", "append")
def _(ex, s, lv, vs, e):
    ex.save(s, lv, concat(ex.load(s, lv), to_str(ex, s, vs[0], e))); return one(s, lv)


FIND = z3.Function("str_find", Str, Str, I, I)      # position or npos
RFIND0 = z3.Function("str_rfind", Str, Str, I, I)
NPOS = 2**64 - 1


@M("str", "find")
def _(ex, s, lv, vs, e):
    d = ex.load(s, lv)
    p = to_str(ex, s, vs[0], e)
    i = ex.rv(s, vs[1]) if len(vs) > 1 else z3.IntVal(0)
    if z3.is_string_value(d) and z3.is_app(p) and p.decl().name() == "chr1" and isnum(i) and i.as_long() == 0:
        lit = S.sval(d)
        r = S.runs(lit)
        if r and len(set(lit)) == len(lit):
            c = p.arg(0)
            c = c if S.isbyte(c) or ex.proves(s, z3.And(c >= 0, c <= 255)) else z3.If(c < 0, c + 256, c)
            return one(s, S.runs_find(r, c, z3.IntVal(NPOS)))
    # native semantics: str.indexof (-1 when absent; start beyond the end: npos)
    if isnum(i) and i.as_long() == 0:
        r = z3.IndexOf(d, p, i)
        return one(s, z3.If(r < 0, z3.IntVal(NPOS), r))
    # with a start position: the first occurrence in the rest of the text, and the split of the text around it
    key = ("find", d.get_id(), p.get_id(), i.get_id())
    cache = ex.__dict__.setdefault("find_cache", {})
    if key not in cache: cache[key] = (ex.fresh("found", I), d, p, i)
    f = cache[key][0]
    n, m = slen(d), slen(p)
    sub = z3.SubString
    tail = sub(d, i, n - i)
    r0 = z3.IndexOf(tail, p, 0)
    s.assume(z3.And(f >= -1, f <= n))
    s.assume(z3.If(z3.And(i >= 0, i <= n, r0 >= 0), f == r0 + i, f == -1))
    s.assume(z3.Implies(f >= 0, z3.And(f + m <= n, sub(d, 0, f) == concat(sub(d, 0, i), sub(tail, 0, r0)), sub(tail, r0 + m, slen(tail) - r0 - m) == sub(d, f + m, n - f - m))))
    s1, s2 = s.fork(), s
    out = []
    if ex.feasible(s1, f >= 0):
        s1.assume(f >= 0); out.append((s1, f))
    if ex.feasible(s2, f == -1):
        s2.assume(f == -1); out.append((s2, z3.IntVal(NPOS)))
    return out


@M("str", "rfind")
def _(ex, s, lv, vs, e):
    d = ex.load(s, lv)
    p = to_str(ex, s, vs[0], e)
    if len(vs) > 1:
        i = ex.rv(s, vs[1])
        if isnum(i) and i.as_long() == 0:
            return one(s, z3.If(z3.PrefixOf(p, d), z3.IntVal(0), z3.IntVal(NPOS)))
        raise Unsupported("rfind with a position")
    r = z3.LastIndexOf(d, p)
    return one(s, z3.If(r < 0, z3.IntVal(NPOS), r))


@M("str", "substr")
def _(ex, s, lv, vs, e):
    d = ex.load(s, lv)
    i = ex.rv(s, vs[0]) if vs else z3.IntVal(0)
    n = ex.rv(s, vs[1]) if len(vs) > 1 else z3.IntVal(NPOS)
    ex.ob(s, "substr position in range", i <= slen(d), e, "safety")
    s.assume(i <= slen(d))
    return one(s, z3.SubString(d, i, z3.If(n > slen(d) - i, slen(d) - i, n)))


@M("str", "replace")
def _(ex, s, lv, vs, e):
    d = ex.load(s, lv)
    i, n = ex.rv(s, vs[0]), ex.rv(s, vs[1])
    r = to_str(ex, s, vs[2], e)
    ex.ob(s, "replace position in range", z3.And(i >= 0, i <= slen(d)), e, "safety")
    s.assume(i <= slen(d))
    end = i + n if ex.proves(s, i + n <= slen(d)) else z3.If(i + n > slen(d), slen(d), i + n)
    ex.save(s, lv, concat(z3.SubString(d, 0, i), r, z3.SubString(d, end, slen(d) - end)))
    return one(s, lv)


@M("str", "compare")
def _(ex, s, lv, vs, e):
    d = ex.load(s, lv)
    p = to_str(ex, s, vs[0], e)
    f = z3.Function("str_compare", Str, Str, I)
    r = f(d, p)
    s.assume((r == 0) == (d == p))
    return one(s, r)


@M("str", "back")
def _(ex, s, lv, vs, e):
    n = slen(ex.load(s, lv))
    ex.ob(s, "back() of a non-empty string", n > 0, e, "safety")
    return one(s, lv.c(n - 1))


@M("str", "resize")
def _(ex, s, lv, vs, e):
    n = ex.rv(s, vs[0]); d = ex.load(s, lv)
    c = ex.rv(s, vs[1]) if len(vs) > 1 else z3.IntVal(0)
    L = slen(d)
    ex.save(s, lv, z3.If(n <= L, z3.SubString(d, 0, n), concat(d, S.fill(n - L, c)))); return one(s)


@M("str", "reserve", "shrink_to_fit")
def _(ex, s, lv, vs, e): return one(s)


@M("str", "begin")
def _(ex, s, lv, vs, e): return one(s, Iter(lv, z3.IntVal(0), slen(ex.load(s, lv)) == 0))


@M("str", "end")
def _(ex, s, lv, vs, e): return one(s, Iter(lv, slen(ex.load(s, lv)), z3.BoolVal(True)))


def to_str(ex, s, v, e):
    """std::string value of an operand: string, char pointer or char"""
    v = ex.rv(s, v) if isinstance(v, LV) and v.ct.kind != "arr" else v
    if z3.is_expr(v) and v.sort() == Str: return v
    if isinstance(v, PtrLV) or (z3.is_expr(v) and v.sort() == ex.T.cptr()):
        return cstr_content(ex, s, v, e)
    if z3.is_expr(v) and v.sort() == I: return chr1(v)
    raise Unsupported("string operand")


# ------------------------------------------------------------ vector
def vlen(ex, s, lv): return S.get(ex.T.sort(lv.ct), 1, ex.load(s, lv))
def varr(ex, s, lv): return S.get(ex.T.sort(lv.ct), 0, ex.load(s, lv))


@M("vec", "size")
def _(ex, s, lv, vs, e):
    ex.load(s, lv)
    return one(s, vlen(ex, s, lv))


@M("vec", "empty")
def _(ex, s, lv, vs, e): ex.load(s, lv); return one(s, vlen(ex, s, lv) == 0)


@M("vec", "clear")
def _(ex, s, lv, vs, e):
    dt = ex.T.sort(lv.ct)
    ex.save(s, lv, mk(dt, varr(ex, s, lv), z3.IntVal(0))); return one(s)


@M("vec", "push_back", "emplace_back")
def _(ex, s, lv, vs, e):
    dt = ex.T.sort(lv.ct)
    v = ex.rv(s, vs[0])
    v = ex.to_term(s, v)
    if z3.is_expr(v) and lv.ct.args[0].kind == "bool" and v.sort() == I: v = v != 0
    n = vlen(ex, s, lv)
    ex.save(s, lv, mk(dt, z3.Store(varr(ex, s, lv), n, v), add(n, z3.IntVal(1)))); return one(s)


@M("vec", "resize")
def _(ex, s, lv, vs, e):
    dt = ex.T.sort(lv.ct)
    n, old = ex.rv(s, vs[0]), vlen(ex, s, lv)
    a = varr(ex, s, lv)
    fill = ex.default_elem(lv.ct.args[0]) if len(vs) < 2 else ex.to_term(s, ex.rv(s, vs[1]))
    if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_CONST_ARRAY and a.arg(0).eq(fill):
        na = a
    else:
        na = ex.fresh("rsz", a.sort())
        j = z3.Int("j")
        s.assume(FA(j, z3.Implies(z3.And(j >= 0, j < n), z3.Select(na, j) == z3.If(j < old, z3.Select(a, j), fill)), z3.Select(na, j)))
    ex.save(s, lv, mk(dt, na, n)); return one(s)


@M("vec", "operator[]", "at")
def _(ex, s, lv, vs, e): return vec_at(ex, s, lv, ex.rv(s, vs[0]), e)


def vec_at(ex, s, lv, i, e):
    ex.load(s, lv)
    n = vlen(ex, s, lv)
    g = z3.And(i >= 0, i < n)
    ex.ob(s, "vector index in bounds", g, e, "safety")
    s.assume(g)
    return one(s, ex.resolve(s, lv).i(i, lv.ct.args[0]))


@M("vec", "back")
def _(ex, s, lv, vs, e):
    n = vlen(ex, s, lv)
    ex.ob(s, "back() of a non-empty vector", n > 0, e, "safety")
    s.assume(n > 0)
    return one(s, ex.resolve(s, lv).i(n - 1, lv.ct.args[0]))


@M("vec", "reserve", "shrink_to_fit")
def _(ex, s, lv, vs, e): return one(s)


@M("vec", "begin", "cbegin")
def _(ex, s, lv, vs, e): return one(s, Iter(ex.resolve(s, lv), z3.IntVal(0), vlen(ex, s, lv) == 0))


@M("vec", "end", "cend")
def _(ex, s, lv, vs, e): return one(s, Iter(ex.resolve(s, lv), vlen(ex, s, lv), z3.BoolVal(True)))


# ------------------------------------------------------------ map / set
def key_term(ex, s, v, kct, e):
    v = ex.rv(s, v)
    if kct.kind == "str": return to_str(ex, s, v, e)
    return ex.to_term(s, v)


@M("map", "operator[]")
def _(ex, s, lv, vs, e): return map_at(ex, s, lv, vs[0], e)


def map_at(ex, s, lv, kv, e):
    lv = ex.resolve(s, lv)
    k = key_term(ex, s, kv, lv.ct.args[0], e)
    dt = ex.T.sort(lv.ct)
    m = ex.load(s, lv)
    dom, val = S.get(dt, 0, m), S.get(dt, 1, m)
    d = sel(dom, k)
    if z3.is_true(z3.simplify(d)) or ex.proves(s, d):
        pass
    elif z3.is_false(z3.simplify(d)) or ex.proves(s, z3.Not(d)):
        ex.save(s, lv, mk(dt, z3.Store(dom, k, z3.BoolVal(True)), z3.Store(val, k, ex.default_elem(lv.ct.args[1]))))
    else:
        ex.save(s, lv, mk(dt, z3.Store(dom, k, z3.BoolVal(True)), z3.Store(val, k, z3.If(d, sel(val, k), ex.default_elem(lv.ct.args[1])))))
    return one(s, lv.m(k, lv.ct.args[1]))


@M("map", "at")
def _(ex, s, lv, vs, e):
    lv = ex.resolve(s, lv)
    k = key_term(ex, s, vs[0], lv.ct.args[0], e)
    d = sel(S.get(ex.T.sort(lv.ct), 0, ex.load(s, lv)), k)
    s2 = s.fork().assume(z3.Not(d))
    if ex.feasible(s2): ex.thr.append((s2, Exc("std::out_of_range", None, ex.where(e))))
    s.assume(d)
    return one(s, lv.m(k, lv.ct.args[1]))


@M("map", "find")
@M("set", "find")
def _(ex, s, lv, vs, e):
    lv = ex.resolve(s, lv)
    k = key_term(ex, s, vs[0], lv.ct.args[0], e)
    d = sel(S.get(ex.T.sort(lv.ct), 0, ex.load(s, lv)), k)
    return one(s, Iter(lv, k, z3.Not(d)))


@M("map", "count")
@M("set", "count")
def _(ex, s, lv, vs, e):
    k = key_term(ex, s, vs[0], lv.ct.args[0], e)
    return one(s, ex.toint(sel(S.get(ex.T.sort(lv.ct), 0, ex.load(s, lv)), k)))


@M("map", "end", "cend")
@M("set", "end", "cend")
def _(ex, s, lv, vs, e):
    ks = ex.T.sort(lv.ct.args[0])
    return one(s, Iter(ex.resolve(s, lv), z3.Const("endkey_" + sname(ks), ks), z3.BoolVal(True)))


@M("map", "begin", "cbegin")
@M("set", "begin", "cbegin")
def _(ex, s, lv, vs, e):
    it = MapBegin(ex.resolve(s, lv))
    return one(s, it)


class MapBegin:
    def __init__(self, lv): self.lv = lv


@M("map", "empty")
@M("set", "empty")
def _(ex, s, lv, vs, e):
    dom = S.get(ex.T.sort(lv.ct), 0, ex.load(s, lv))
    return one(s, set_empty(ex, s, dom, lv.ct.args[0]))


def set_empty(ex, s, dom, kct):
    ks = ex.T.sort(kct)
    return dom == z3.K(ks, z3.BoolVal(False))


@M("map", "insert")
def _(ex, s, lv, vs, e):
    lv = ex.resolve(s, lv)
    dt = ex.T.sort(lv.ct)
    pr = ex.rv(s, vs[0])
    pdt = pr.sort()
    # pair<K,V>
    psort = ex.T.pair(ex.T.sort(lv.ct.args[0]), ex.T.sort(lv.ct.args[1]))
    if pr.sort() != psort: raise Unsupported("map.insert argument")
    k, v = S.get(psort, 0, pr), S.get(psort, 1, pr)
    m = ex.load(s, lv)
    dom, val = S.get(dt, 0, m), S.get(dt, 1, m)
    d = sel(dom, k)
    ex.save(s, lv, mk(dt, z3.Store(dom, k, z3.BoolVal(True)), z3.Store(val, k, z3.If(d, sel(val, k), v))))
    return one(s, ("insres", Iter(lv, k, z3.BoolVal(False)), z3.Not(d)))


@M("set", "insert")
def _(ex, s, lv, vs, e):
    lv = ex.resolve(s, lv)
    dt = ex.T.sort(lv.ct)
    k = key_term(ex, s, vs[0], lv.ct.args[0], e)
    dom = S.get(dt, 0, ex.load(s, lv))
    ndom = z3.Store(dom, k, z3.BoolVal(True))
    ex.save(s, lv, mk(dt, ndom))
    card = z3.Function("card_" + sname(dom.sort()), dom.sort(), I)
    s.assume(card(ndom) <= card(dom) + 1, card(ndom) >= card(dom), card(z3.K(dom.sort().domain(), z3.BoolVal(False))) == 0)
    return one(s, ("insres", Iter(lv, k, z3.BoolVal(False)), z3.Not(sel(dom, k))))


@M("map", "erase")
@M("set", "erase")
def _(ex, s, lv, vs, e):
    lv = ex.resolve(s, lv)
    dt = ex.T.sort(lv.ct)
    v = ex.rv(s, vs[0])
    k = v.pos if isinstance(v, Iter) else key_term(ex, s, v, lv.ct.args[0], e)
    ex.save(s, lv, S.upd(dt, 0, ex.load(s, lv), z3.Store(S.get(dt, 0, ex.load(s, lv)), k, z3.BoolVal(False))))
    return one(s, z3.IntVal(1))


@M("map", "clear")
@M("set", "clear")
def _(ex, s, lv, vs, e): ex.save(s, lv, ex.default(s, lv.ct)); return one(s)


@F("max")
def _(ex, s, vs, e):
    if len(vs) != 2: raise Unsupported("max")
    a, b = ex.rv(s, vs[0]), ex.rv(s, vs[1])
    return one(s, z3.If(a < b, b, a))


@F("min")
def _(ex, s, vs, e):
    if len(vs) != 2: raise Unsupported("min")
    a, b = ex.rv(s, vs[0]), ex.rv(s, vs[1])
    return one(s, z3.If(b < a, b, a))


@F("max_element")
def _(ex, s, vs, e):
    a, b = vs
    a, b = ex.rv(s, a), ex.rv(s, b)
    if isinstance(a, MapBegin) and a.lv.ct.kind == "set":
        dom = S.get(ex.T.sort(a.lv.ct), 0, ex.load(s, a.lv))
        # the iterator points at the largest (smallest) member; end iff empty
        mx = z3.Function("max_of_" + sname(dom.sort()), dom.sort(), I)(dom)
        emp = set_empty(ex, s, dom, a.lv.ct.args[0])
        k = z3.Int("k")
        s.assume(z3.Implies(z3.Not(emp), z3.Select(dom, mx)))
        s.assume(FA(k, z3.Implies(z3.Select(dom, k), k <= mx), z3.Select(dom, k)))
        lo, hi = ex.rng(a.lv.ct.args[0])
        s.assume(mx >= lo, mx <= hi)
        return one(s, Iter(a.lv, mx, emp))
    raise Unsupported("max_element")


# ------------------------------------------------------------ smart pointers
@M("ptr", "get")
def _(ex, s, lv, vs, e): return one(s, ex.load(s, lv))


@M("ptr", "reset")
def _(ex, s, lv, vs, e):
    v = ex.rv(s, vs[0]) if vs else z3.IntVal(0)
    ex.save(s, lv, ex.to_term(s, v)); return one(s)


@M("ptr", "release")
def _(ex, s, lv, vs, e):
    v = ex.load(s, lv); ex.save(s, lv, z3.IntVal(0)); return one(s, v)


@M("bool", "operator bool")
def _(ex, s, lv, vs, e): return one(s, ex.load(s, lv) if isinstance(lv, LV) else lv)


@M("ptr", "operator bool")
def _(ex, s, lv, vs, e): return one(s, ex.load(s, lv) != 0)


@F("make_shared", "make_unique")
def _(ex, s, vs, e):
    ct = ex.T.parse(e["type"])
    pt = ct.args[0]
    p = ex.fresh("new", I)
    s.assume(p > 0)
    return one(s, p)


# ------------------------------------------------------------ Value (abstract view; the bodies are proved against the same view in C18)
def value_type_tag(v):
    V = VAL()
    if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_DT_CONSTRUCTOR:
        return z3.IntVal({"VUndef": 0, "VInt": 1, "VDbl": 2, "VText": 3, "VBlob": 4, "VNull": 5}[v.decl().name()])
    return z3.If(V.is_VUndef(v), 0, z3.If(V.is_VInt(v), 1, z3.If(V.is_VDbl(v), 2, z3.If(V.is_VText(v), 3, z3.If(V.is_VBlob(v), 4, z3.IntVal(5))))))


@M("Value", "type")
def _(ex, s, lv, vs, e): return one(s, value_type_tag(ex.load(s, lv)))


@M("Value", "getInt")
def _(ex, s, lv, vs, e):
    v = ex.load(s, lv)
    ex.ob(s, "getInt() on an integer value", VAL().is_VInt(v), e, "pre")
    s.assume(VAL().is_VInt(v))
    r = vsel(v, "VInt", VAL().vi)
    if not isnum(r): s.assume(r >= -2**63, r < 2**63)
    return one(s, r)


def vsel(v, ctor, acc):
    if z3.is_app(v) and v.decl().name() == ctor: return v.arg(0)
    return acc(v)


@M("Value", "getDouble")
def _(ex, s, lv, vs, e):
    v = ex.load(s, lv)
    ex.ob(s, "getDouble() on a double value", VAL().is_VDbl(v), e, "pre")
    s.assume(VAL().is_VDbl(v))
    return one(s, vsel(v, "VDbl", VAL().vd))


@M("Value", "getString")
def _(ex, s, lv, vs, e):
    v = ex.load(s, lv)
    V = VAL()
    ex.ob(s, "getString() on a text or blob value", z3.Or(V.is_VText(v), V.is_VBlob(v)), e, "pre")
    s.assume(z3.Or(V.is_VText(v), V.is_VBlob(v)))
    if z3.is_app(v) and v.decl().name() in ("VText", "VBlob"): t = v.arg(0)
    elif ex.proves(s, V.is_VText(v)): t = V.vt(v)
    elif ex.proves(s, V.is_VBlob(v)): t = V.vb(v)
    else: t = z3.If(V.is_VText(v), V.vt(v), V.vb(v))
    root = ex.new_root("strref", STR)
    s.store[root] = t
    return one(s, LV(root, (), STR))


@M("Value", "setInt")
def _(ex, s, lv, vs, e): ex.save(s, lv, VAL().VInt(ex.toint(ex.rv(s, vs[0])))); return one(s)


@M("Value", "setDouble")
def _(ex, s, lv, vs, e): ex.save(s, lv, VAL().VDbl(ex.rv(s, vs[0]))); return one(s)


@M("Value", "setNull")
def _(ex, s, lv, vs, e): ex.save(s, lv, VAL().VNull); return one(s)


@M("Value", "setUndefined")
def _(ex, s, lv, vs, e): ex.save(s, lv, VAL().VUndef); return one(s)


@M("Value", "setString")
def _(ex, s, lv, vs, e):
    t, p, n = ex.rv(s, vs[0]), vs[1], ex.toint(ex.rv(s, vs[2]))
    p = ex.rv(s, p) if isinstance(p, LV) else p
    ex.ob(s, "setString(): type is text or blob", z3.Or(t == 3, t == 4), e, "pre")
    ex.ob(s, "setString(): length is not negative", n >= 0, e, "pre")
    s.assume(z3.Or(t == 3, t == 4), n >= 0)
    d = data_of_cptr(ex, s, p, n, e)
    V = VAL()
    if isnum(t): v = V.VText(d) if t.as_long() == 3 else V.VBlob(d)
    elif ex.proves(s, t == 3): v = V.VText(d)
    elif ex.proves(s, t == 4): v = V.VBlob(d)
    else: v = z3.If(t == 3, V.VText(d), V.VBlob(d))
    ex.save(s, lv, v)
    return one(s)


@M("GeoDiffException", "what")
def _(ex, s, lv, vs, e): return one(s, ex.cptr(ex.load(s, lv)))


# ------------------------------------------------------------ Buffer (abstract)
@M("Buffer", "size")
def _(ex, s, lv, vs, e):
    n = z3.Length(BUF().b_data(ex.load(s, lv)))
    s.assume(n >= 0, n < 2**31)
    return one(s, n)


@M("Buffer", "isEmpty")
def _(ex, s, lv, vs, e): return one(s, z3.Length(BUF().b_data(ex.load(s, lv))) == 0)


@M("Buffer", "c_buf", "v_buf")
def _(ex, s, lv, vs, e):
    d = BUF().b_data(ex.load(s, lv))
    return one(s, mk(ex.T.cptr(), z3.Length(d) == 0, d, z3.IntVal(0)))


# ------------------------------------------------------------ libc / builtins
@F("to_string")
def _(ex, s, vs, e):
    v = ex.rv(s, vs[0])
    callee = e["inner"][0]
    t = None
    x = callee
    while x["kind"] in ("ImplicitCastExpr", "ParenExpr"): x = x["inner"][0]
    sig = x["referencedDecl"]["type"]["qualType"]
    if "double" in sig or "float" in sig: return one(s, DTOA(v))
    v = ex.toint(v)
    if isnum(v): return one(s, slit(str(v.as_long())))
    return one(s, ITOA(v))


@F("__builtin_bswap64", "__bswap_64", "htobe64", "be64toh")
def _(ex, s, vs, e): return one(s, bswap(uns_if(ex.rv(s, vs[0]))))


def uns_if(x):
    return uns(x) if (z3.is_app(x) and x.decl().name() in ("s64",)) else x


@F("move", "forward", "addressof_")
def _(ex, s, vs, e): return one(s, vs[0])


@F("tolower")
def _(ex, s, vs, e):
    c = ex.rv(s, vs[0])
    return one(s, z3.If(z3.And(c >= 65, c <= 90), c + 32, c))


@F("toupper")
def _(ex, s, vs, e):
    c = ex.rv(s, vs[0])
    return one(s, z3.If(z3.And(c >= 97, c <= 122), c - 32, c))


@F("isalnum")
def _(ex, s, vs, e):
    c = ex.rv(s, vs[0])
    return one(s, ex.toint(z3.Or(z3.And(c >= 48, c <= 57), z3.And(c >= 65, c <= 90), z3.And(c >= 97, c <= 122))))


@F("isdigit")
def _(ex, s, vs, e):
    c = ex.rv(s, vs[0])
    return one(s, ex.toint(z3.And(c >= 48, c <= 57)))


@SP("memcpy", "__builtin_memcpy")
def _(ex, s, args, e):
    dst, src, n = args
    def strip(x):
        while x["kind"] in ("ImplicitCastExpr", "CStyleCastExpr", "ParenExpr", "CXXStaticCastExpr", "CXXReinterpretCastExpr") and x.get("castKind") in (None, "BitCast", "NoOp", "ArrayToPointerDecay"):
            if x.get("castKind") == "ArrayToPointerDecay": break
            x = x["inner"][0]
        return x
    res = []
    for s2, (d, q, k) in ex.evs([strip(dst), strip(src), n], s):
        d = ex.rv(s2, d) if isinstance(d, LV) else d
        q = ex.rv(s2, q) if isinstance(q, LV) else q
        k = ex.rv(s2, k)
        if isinstance(d, PtrLV) and d.lv.ct.kind in ("int", "dbl") and isnum(k) and k.as_long() == 8:
            signed = d.lv.ct.kind == "int" and d.lv.ct.signed
            if isinstance(q, PtrLV) and q.lv.ct.kind in ("int", "dbl"):
                x = ex.load(s2, q.lv)
                if q.lv.ct.kind == "int" and q.lv.ct.signed and not signed: x = uns(x)
                if not (q.lv.ct.kind == "int" and q.lv.ct.signed) and signed: x = sgn(x)
                ex.save(s2, d.lv, x)
            elif z3.is_expr(q) and q.sort() == ex.T.cptr():
                cd = ex.T.cptr()
                data, off = S.get(cd, 1, q), S.get(cd, 2, q)
                g = z3.And(z3.Not(S.get(cd, 0, q)), off >= 0, off + 8 <= slen(data))
                ex.ob(s2, "memcpy reads in bounds", g, e, "safety")
                s2.assume(g)
                x = S.LE64AT(data, off)
                if signed: x = sgn(x)
                ex.save(s2, d.lv, x)
            else:
                raise Unsupported("memcpy source")
        elif isinstance(d, PtrLV) and d.lv.ct.kind == "int" and isnum(k) and isinstance(q, PtrLV) and q.lv.ct == d.lv.ct and k.as_long() * 8 == d.lv.ct.bits:
            ex.save(s2, d.lv, ex.load(s2, q.lv))
        elif isinstance(d, PtrLV) and d.lv.path and d.lv.path[-1][0] == "c":
            # into a string, starting at one of its characters
            dst_lv, at = LV(d.lv.root, d.lv.path[:-1], d.lv.path[-1][2]), d.lv.path[-1][1]
            old = ex.load(s2, dst_lv)
            if isinstance(q, PtrLV) and q.lv.path and q.lv.path[-1][0] == "c":
                data, off, null = ex.load(s2, LV(q.lv.root, q.lv.path[:-1], q.lv.path[-1][2])), q.lv.path[-1][1], z3.BoolVal(False)
            elif z3.is_expr(q) and q.sort() == ex.T.cptr():
                cd = ex.T.cptr()
                null, data, off = S.get(cd, 0, q), S.get(cd, 1, q), S.get(cd, 2, q)
            else: raise Unsupported("memcpy source")
            g = z3.And(z3.Not(null), k >= 0, off >= 0, off + k <= slen(data), at >= 0, at + k <= slen(old))
            ex.ob(s2, "memcpy in bounds", g, e, "safety")
            s2.assume(g)
            ex.save(s2, dst_lv, concat(S.sub(old, z3.IntVal(0), at), S.sub(data, off, k), S.sub(old, at + k, slen(old) - at - k)))
        else:
            raise Unsupported("memcpy")
        res.append((s2, None))
    return res


@F("strlen", "__builtin_strlen")
def _(ex, s, vs, e): return one(s, slen(cstr_content(ex, s, vs[0] if not isinstance(vs[0], LV) else ex.load(s, vs[0]), e)))


@F("strcmp")
def _(ex, s, vs, e):
    a = cstr_content(ex, s, ex.rv(s, vs[0]), e); b = cstr_content(ex, s, ex.rv(s, vs[1]), e)
    r = ex.fresh("strcmp", I)
    s.assume((r == 0) == (a == b))
    return one(s, r)


@F("memcmp")
def _(ex, s, vs, e):
    n = ex.rv(s, vs[2])
    a = data_of_cptr(ex, s, ex.rv(s, vs[0]), n, e); b = data_of_cptr(ex, s, ex.rv(s, vs[1]), n, e)
    r = ex.fresh("memcmp", I)
    s.assume((r == 0) == (a == b))
    return one(s, r)


# ------------------------------------------------------------ streams
@M("stream", "str")
def _(ex, s, lv, vs, e): return one(s, ex.load(s, lv))


@M("stream", "write")
def _(ex, s, lv, vs, e):
    n = ex.toint(ex.rv(s, vs[1]))
    p = ex.rv(s, vs[0]) if isinstance(vs[0], LV) else vs[0]
    d = write_data(ex, s, p, n, e)
    ex.save(s, lv, concat(ex.load(s, lv), d))
    return one(s, lv)


def write_data(ex, s, p, n, e):
    """bytes handed to write(); reading the terminating NUL of c_str() is allowed"""
    if z3.is_expr(p) and p.sort() == ex.T.cptr():
        cd = ex.T.cptr()
        data, off = S.get(cd, 1, p), S.get(cd, 2, p)
        if isnum(off) and off.as_long() == 0:
            L = slen(data)
            dlt = z3.simplify(n - L)
            if isnum(dlt) and dlt.as_long() == 1:
                return concat(data, slit("\0"))
            if isnum(dlt) and dlt.as_long() == 0:
                return data
    return data_of_cptr(ex, s, p, n, e)


@M("stream", "is_open", "good")
def _(ex, s, lv, vs, e):
    return one(s, ex.fresh("is_open", B))


@M("stream", "fail", "bad")
def _(ex, s, lv, vs, e):
    return one(s, ex.fresh("fail", B))


@M("stream", "close", "flush")
def _(ex, s, lv, vs, e): return one(s)


@M("stream", "open")
def _(ex, s, lv, vs, e):
    ex.save(s, lv, slit(""))
    return one(s)


# ------------------------------------------------------------ operators
def operator(ex, op, vs, s, e):
    a = vs[0]
    av = None
    if op == "operator<<":
        if isinstance(a, LV) and a.ct.kind == "stream":
            b = vs[1]
            if isinstance(b, tuple) and b[0] == "fn":
                t = slit("\n")
            else:
                bv = ex.rv(s, b) if isinstance(b, LV) and b.ct.kind != "arr" else b
                if z3.is_bool(bv): bv = ex.toint(bv)
                if z3.is_expr(bv) and bv.sort() == I:
                    at = ex.T.parse(e["inner"][2]["type"])
                    if at.kind == "ref": at = at.args[0]
                    if at.kind == "int" and at.bits == 8: t = chr1(bv)
                    elif at.kind == "dbl": t = z3.Function("dtoa_stream", I, Str)(bv)
                    else: t = slit(str(bv.as_long())) if isnum(bv) else ITOA(bv)
                else:
                    t = to_str(ex, s, bv, e)
            ex.save(s, a, concat(ex.load(s, a), t))
            return one(s, a)
        return None
    if op == "operator[]":
        if isinstance(a, LV):
            if a.ct.kind in ("vec",): return vec_at(ex, s, a, ex.toint(ex.rv(s, vs[1])), e)
            if a.ct.kind == "str": return str_at(ex, s, a, ex.toint(ex.rv(s, vs[1])), e)
            if a.ct.kind == "map": return map_at(ex, s, a, vs[1], e)
        return None
    if op == "operator->":
        v = ex.rv(s, a)
        return one(s, v)
    if op == "operator*":
        v = ex.rv(s, a)
        if isinstance(v, Iter): return one(s, ex.iter_deref(s, v, e))
        if z3.is_expr(v) and isinstance(a, LV) and a.ct.kind == "ptr":
            return one(s, ex.deref(s, v, a.ct.args[0], e))
        return None
    if op in ("operator++", "operator--"):
        it = ex.rv(s, a)
        if isinstance(it, Iter):
            nv = ex.iter_add(s, it, 1 if op == "operator++" else -1)
            ex.save(s, a, nv)
            return one(s, it if len(vs) > 1 else a)
        return None
    if op == "operator=":
        v = ex.rv(s, vs[1])
        if isinstance(a, LV):
            if a.ct.kind == "str": v = to_str(ex, s, vs[1], e)
            if a.ct.kind == "ptr" and not z3.is_expr(v): v = ex.to_term(s, v)
            if isinstance(v, Iter) or z3.is_expr(v):
                ex.save(s, a, v)
                return one(s, a)
            if isinstance(v, MapElem):
                raise Unsupported("assign map element")
        return None
    if op in ("operator==", "operator!="):
        x, y = ex.rv(s, vs[0]), ex.rv(s, vs[1])
        r = None
        if isinstance(x, Iter) and isinstance(y, Iter):
            if z3.is_true(z3.simplify(y.end)): r = x.end
            elif z3.is_true(z3.simplify(x.end)): r = y.end
            else: r = z3.And(x.end == y.end, z3.Or(x.end, x.pos == y.pos))
        elif z3.is_expr(x) and z3.is_expr(y) and x.sort() == y.sort() and x.sort() in (I, B):
            r = x == y
        else:
            def isstr(t): return isinstance(t, PtrLV) or (z3.is_expr(t) and t.sort() in (Str, ex.T.cptr()))
            def isptr(t): return isinstance(t, PtrLV) or (z3.is_expr(t) and t.sort() == I)
            if isstr(x) and isstr(y):
                r = to_str(ex, s, x, e) == to_str(ex, s, y, e)
            elif isptr(x) and isptr(y):
                r = ex.binop(s, "==", x, y, e["inner"][1], e["inner"][2], e)
            elif z3.is_expr(x) and z3.is_expr(y) and x.sort() == y.sort():
                r = struct_eq(ex, s, x, y, vs[0])
        if r is None: return None
        return one(s, r if op == "operator==" else z3.Not(r))
    if op in ("operator<", "operator>", "operator<=", "operator>="):
        x, y = ex.rv(s, vs[0]), ex.rv(s, vs[1])
        if isinstance(x, Iter) and isinstance(y, Iter):
            return one(s, ex.cmp(op[8:], x.pos, y.pos))
        x, y = to_str(ex, s, x, e), to_str(ex, s, y, e)
        f = z3.Function("str_less", Str, Str, B)
        r = {"operator<": lambda: f(x, y), "operator>": lambda: f(y, x), "operator<=": lambda: z3.Not(f(y, x)), "operator>=": lambda: z3.Not(f(x, y))}[op]()
        return one(s, r)
    if op == "operator+":
        x, y = vs[0], vs[1]
        xv = ex.rv(s, x) if isinstance(x, LV) else x
        if isinstance(xv, Iter):
            n = ex.toint(ex.rv(s, y))
            if isnum(n): return one(s, ex.iter_add(s, xv, n.as_long()))
            ln = S.get(ex.T.sort(xv.lv.ct), 1, ex.load(s, xv.lv))
            p = add(xv.pos, n)
            return one(s, Iter(xv.lv, p, p >= ln))
        return one(s, concat(to_str(ex, s, x, e), to_str(ex, s, y, e)))
    if op == "operator-":
        x, y = ex.rv(s, vs[0]), ex.rv(s, vs[1])
        if isinstance(x, Iter) and isinstance(y, Iter): return one(s, x.pos - y.pos)
        return None
    if op == "operator+=":
        if isinstance(a, LV) and a.ct.kind == "str":
            ex.save(s, a, concat(ex.load(s, a), to_str(ex, s, vs[1], e)))
            return one(s, a)
        v = ex.rv(s, a)
        if isinstance(v, Iter):
            n = ex.toint(ex.rv(s, vs[1]))
            ln = S.get(ex.T.sort(v.lv.ct), 1, ex.load(s, v.lv))
            p = add(v.pos, n)
            ex.save(s, a, Iter(v.lv, p, p >= ln))
            return one(s, a)
        return None
    if op == "operator()":
        v = ex.rv(s, a) if isinstance(a, LV) else a
        if isinstance(v, Lambda): return call_lambda(ex, s, v, vs[1:], e)
        return None
    if op == "operator!":
        return one(s, z3.Not(ex.tobool(s, a)))
    return None


def struct_eq(ex, s, x, y, lv):
    """element-wise equality of vectors; structural equality of other values"""
    srt = x.sort()
    if srt.name().startswith("Vec_"):
        return veceq(x, y)
    return x == y


def veceq(x, y):
    """element-wise equality of two vectors"""
    srt = x.sort()
    nm = "veceq_" + srt.name()
    f = z3.Function(nm, srt, srt, B)
    if nm not in REG:
        def facts(app):
            x, y = app.children()
            n1, n2 = S.get(srt, 1, x), S.get(srt, 1, y)
            a1, a2 = S.get(srt, 0, x), S.get(srt, 0, y)
            j = z3.Int("j")
            w = z3.Function("differ_" + srt.name(), srt, srt, I)(x, y)
            return [z3.Implies(app, z3.And(n1 == n2, FA(j, z3.Implies(z3.And(j >= 0, j < n1), z3.Select(a1, j) == z3.Select(a2, j)), z3.Select(a1, j), z3.Select(a2, j)))),
                    z3.Implies(z3.Not(app), z3.Or(n1 != n2, z3.And(w >= 0, w < n1, z3.Select(a1, w) != z3.Select(a2, w))))]
        REG[nm] = facts
    return f(x, y)


@F("isfinite", "__builtin_isfinite")
def _(ex, s, vs, e):
    b = ex.rv(s, vs[0])
    return one(s, (b / 2**52) % 2048 != 2047)


@F("isnan", "__builtin_isnan")
def _(ex, s, vs, e):
    b = ex.rv(s, vs[0])
    return one(s, z3.And((b / 2**52) % 2048 == 2047, b % 2**52 != 0))


@F("isinf", "__builtin_isinf")
def _(ex, s, vs, e):
    b = ex.rv(s, vs[0])
    return one(s, z3.And((b / 2**52) % 2048 == 2047, b % 2**52 == 0))


G17 = z3.Function("G17", I, Str)      # "%.17g"; shorter than 64 characters, no NUL


@F("snprintf")
def _(ex, s, vs, e):
    buf, n, fmt, x = [ex.rv(s, v) if not isinstance(v, PtrLV) else v for v in vs]
    if not (isinstance(buf, PtrLV) and buf.lv.ct.kind == "str" and isnum(n) and n.as_long() >= 64 and cstr_content(ex, s, fmt, e).eq(slit("%.17g"))):
        raise Unsupported("snprintf")
    old = ex.load(s, buf.lv)
    ex.ob(s, "snprintf: the buffer has the given size", slen(old) >= n, e, "safety")
    new = ex.fresh("buf", Str)
    s.assume(slen(new) == slen(old), CSTR(new, z3.IntVal(0)) == G17(x))
    ex.save(s, buf.lv, new)
    return one(s, ex.fresh("n", I))


# ---- sqlite3_vmprintf and the repository's variadic wrappers around it
REPLF = []                            # set by specs: every occurrence replaced


def sqlite_format(ex, s, vs, e):
    """text produced by SQLite's printf for a literal format with %w %q %Q %s %d (assumed contract of sqlite3_vmprintf)"""
    f = cstr_content(ex, s, vs[0], e)
    if not z3.is_string_value(f): raise Unsupported("format that is not a literal")
    f = sval(f)
    out, k, i, lit = [], 1, 0, ""
    while i < len(f):
        if f[i] != "%":
            lit += f[i]; i += 1; continue
        c = f[i + 1] if i + 1 < len(f) else ""
        i += 2
        if c == "%": lit += "%"; continue
        if c not in "wqsd" or k >= len(vs): raise Unsupported("format %" + c)
        a = vs[k]; k += 1
        a = ex.rv(s, a) if isinstance(a, LV) else a
        if lit: out.append(slit(lit)); lit = ""
        if c == "d":
            x = ex.toint(a)
            ex.ob(s, "%d: the argument fits an int", z3.And(x >= -2**31, x < 2**31), e, "safety")
            s.assume(x >= -2**31, x < 2**31)
            out.append(ITOA(x))
        else:
            t = cstr_content(ex, s, a, e)
            if c == "s": out.append(t)
            else:
                ch = {"w": '"', "q": "'"}[c]
                def dbl(t):
                    if z3.is_string_value(t): return slit(sval(t).replace(ch, ch + ch))
                    if z3.is_app_of(t, z3.Z3_OP_ITE): return z3.If(t.arg(0), dbl(t.arg(1)), dbl(t.arg(2)))
                    return REPLF[0](t, slit(ch), slit(ch + ch))
                out.append(dbl(t))
    if lit: out.append(slit(lit))
    return concat(*out) if out else slit("")


def sqlite_printf(ex, s, vs, e):
    return one(s, sqlite_format(ex, s, vs, e))


MODELS.V["sqlitePrintf"] = sqlite_printf
MODELS.VM["Sqlite3Stmt::prepare"] = sqlite_format


def call_lambda(ex, s, lam, args, e):
    rec = next(x for x in lam.node["inner"] if x.get("kind") == "CXXRecordDecl")
    m = next(x for x in rec["inner"] if x.get("kind") == "CXXMethodDecl" and x.get("name") == "operator()")
    body = next((x for x in m["inner"] if x.get("kind") == "CompoundStmt"), None)
    fn = dict(m)
    fn["_qual"] = "lambda@%s" % lam.node.get("id")
    fn["_body"] = body
    fn["kind"] = "FunctionDecl"
    old = getattr(ex, "closure_frames", [])
    ex.closure_frames = [lam.frame] + list(old)
    res = []
    try:
        for s2, k, v in ex.run_function(lam.frame.tu, fn, lam.frame.this, args, s):
            if k == "throw": ex.thr.append((s2, v))
            else: res.append((s2, v))
    finally:
        ex.closure_frames = old
    return res


@F("find")
def _(ex, s, vs, e):
    a, b, x = ex.rv(s, vs[0]), ex.rv(s, vs[1]), ex.rv(s, vs[2])
    if not (isinstance(a, Iter) and a.lv.ct.kind == "vec"): raise Unsupported("std::find")
    arr, n = varr(ex, s, a.lv), vlen(ex, s, a.lv)
    r = ex.fresh("find", I)
    j = z3.Int("j")
    s.assume(r >= a.pos, r <= b.pos)
    s.assume(z3.Implies(r < b.pos, z3.Select(arr, r) == x))
    s.assume(FA(j, z3.Implies(z3.And(j >= a.pos, j < r), z3.Select(arr, j) != x), z3.Select(arr, j)))
    return one(s, Iter(a.lv, r, r >= n))


@F("distance")
def _(ex, s, vs, e):
    a, b = ex.rv(s, vs[0]), ex.rv(s, vs[1])
    return one(s, b.pos - a.pos)


@F("transform")
def _(ex, s, vs, e):
    a, b, d, f = ex.rv(s, vs[0]), ex.rv(s, vs[1]), ex.rv(s, vs[2]), vs[3]
    f = ex.rv(s, f) if isinstance(f, LV) else f
    if not (isinstance(a, Iter) and a.lv.ct.kind == "str" and isinstance(d, Iter) and d.lv.ct.kind == "str"): raise Unsupported("std::transform")
    src = ex.load(s, a.lv)
    r = ex.fresh("transformed", Str)
    j = ex.fresh("j", I)
    # apply the function to an arbitrary byte (as the parameter type converts it)
    x = S.BYTE(src, j)
    s2 = s.fork().assume(x >= 0, x <= 255)
    cv = x if param_unsigned(ex, f) else z3.If(x > 127, x - 256, x)
    rs = call_any(ex, s2, f, [cv], e)
    if len(rs) != 1: raise Unsupported("branching transform function")
    out = rs[0][1]
    jj = z3.Int("j")
    body = z3.substitute(out % 256, (j, jj))
    s.assume(z3.Length(r) == slen(src))
    s.assume(FA(jj, z3.Implies(z3.And(jj >= 0, jj < slen(src)), S.BYTE(r, jj) == body), S.BYTE(r, jj)))
    ex.save(s, d.lv, r)
    return one(s, Iter(d.lv, slen(src), z3.BoolVal(True)))


def param_unsigned(ex, f):
    if isinstance(f, Lambda):
        rec = next(x for x in f.node["inner"] if x.get("kind") == "CXXRecordDecl")
        m = next(x for x in rec["inner"] if x.get("kind") == "CXXMethodDecl" and x.get("name") == "operator()")
        p = next(x for x in m["inner"] if x.get("kind") == "ParmVarDecl")
        return "unsigned" in p["type"]["qualType"]
    return False


def call_any(ex, s, f, vs, e):
    if isinstance(f, Lambda): return call_lambda(ex, s, f, vs, e)
    if isinstance(f, tuple) and f[0] == "fn": return ex.call_function(ex.prog.qual(ex.fr.tu, f[1]), f[1], vs, s, e)
    raise Unsupported("callable")


FullExec.models = MODELS


# ---- libpq result accessors (assumed)
@F("PQresultStatus")
def _(ex, s, vs, e): return one(s, z3.Function("pq_status", I, I)(ex.rv(s, vs[0])))


@F("PQcmdTuples", "PQresultErrorMessage", "PQgetvalue", "PQerrorMessage")
def _(ex, s, vs, e):
    nm = "pq_tuples"
    d = ex.T.cptr()
    name = e["inner"][0]
    while "referencedDecl" not in name: name = name["inner"][0]
    name = name["referencedDecl"]["name"]
    if name == "PQcmdTuples": t = z3.Function("pq_tuples", I, Str)(ex.rv(s, vs[0]))
    else: t = ex.fresh(name, Str)
    s.aux[("nonul", t.get_id())] = t
    return one(s, mk(d, z3.BoolVal(False), t, z3.IntVal(0)))


@F("PQclear")
def _(ex, s, vs, e): return one(s)


@F("PQexec")
def _(ex, s, vs, e):
    """direct use only for ROLLBACK"""
    q = cstr_content(ex, s, ex.rv(s, vs[1]), e)
    if "g:tx" not in s.store or not z3.is_string_value(q) or sval(q) != "ROLLBACK": raise Unsupported("PQexec")
    s.store["g:tx"] = z3.If(s.store["g:tx"] == 1, z3.IntVal(3), s.store["g:tx"]); s.wlog.add(("g:tx", ()))
    return one(s, ex.fresh("pgres", I))
