"""C05 (inversion), C06 (JSON listings), C07 (summary): folds over the changes a reader returns."""
from .common import *
from .util import REPL
from . import reader, writer, util, env
from .reader import NextEntry, tabfns, bufdata
from cppvc.models import veceq
from cppvc.solve import PAIR

OPI, OPU, OPD = 18, 23, 9
NEXT = NextEntry()


def entry_at(x, d, o, t):
    """(q, table, op, old, new, end, ok): the change at an offset o with table t in effect"""
    q = x.SKIPOFF(d, o)
    t2 = x.SKIPTAB(d, o, t)
    m = x.cols(t2)
    op = BYTE(d, q)
    r1 = q + 2
    oe = z3.If(op == OPI, r1, reader.ROFF(d, r1, m))
    n = z3.Length(d)
    ok = z3.And(q < n, z3.Or([op == k for k in OPS]), q + 2 <= n, z3.Implies(op != OPI, reader.ROWOK(d, r1, m)), z3.Implies(op != OPD, reader.ROWOK(d, oe, m)))
    end = z3.If(op == OPD, oe, reader.ROFF(d, oe, m))
    return q, t2, m, op, x.ROWDEC(d, r1, m), x.ROWDEC(d, oe, m), end, ok


_fns = {}


def folds(ex):
    k = id(ex.T)
    if k in _fns: return _fns[k]
    x = tabfns(ex)
    vv, vb, ts = x.vv, x.vb, x.ts
    class Y: pass
    y = Y()
    y.x = x
    rowdec = REG["ROWDEC"]

    def rowdec_short(app):
        """lemma (lemmas.py, short_texts): texts and blobs inside a buffer shorter than 2 GB are shorter than 2 GB"""
        d, o, m = app.children()
        j = z3.Int("jd")
        a = z3.Select(vec(app)[0], j)
        return rowdec(app) + [FA(j, z3.Implies(z3.And(j >= 0, j < m, reader.VOK(d, reader.ROFF(d, o, j))), z3.And(z3.Implies(V.is_VText(a), z3.Length(V.vt(a)) < reader.BIG), z3.Implies(V.is_VBlob(a), z3.Length(V.vb(a)) < reader.BIG))), a)]
    REG["ROWDEC"] = rowdec_short
    REG["ROWENC"] = lambda app: []        # opaque here: only its extensionality (PAIR) is needed
    REG["PKENC"] = lambda app: []

    def rest(name, out, f, end, *extra):
        """right fold over the changes from an offset on"""
        F = SpecFn(name, Str, I, ts, *[e for e in extra], out, define=lambda d, o, t, *a: step(F, d, o, t, a), doc=f.__doc__ or name)
        def step(F, d, o, t, a):
            e = entry_at(x, d, o, t)
            return z3.If(e[0] >= z3.Length(d), end(*a), f(F, d, e, a))
        return F

    y.rest = rest
    # all remaining changes are complete
    y.ALLOK = rest("ALLOK", B, lambda F, d, e, a: z3.And(e[7], F(d, e[6], e[1])), lambda: z3.BoolVal(True))

    # ---- inversion
    def moved(pk, nv, k): return z3.And(z3.Select(vec(pk)[0], k), V.is_VUndef(z3.Select(vec(nv)[0], k)))

    def invo_facts(app, pk, ov, nv):
        k = z3.Int("ki")
        a = vec(app)[0]
        return [vec(app)[1] == vec(nv)[1], FA(k, z3.Implies(z3.And(k >= 0, k < vec(nv)[1]), z3.Select(a, k) == z3.If(moved(pk, nv, k), z3.Select(vec(ov)[0], k), z3.Select(vec(nv)[0], k))), z3.Select(a, k))]

    def invn_facts(app, pk, ov, nv):
        k = z3.Int("ki")
        a = vec(app)[0]
        return [vec(app)[1] == vec(ov)[1], FA(k, z3.Implies(z3.And(k >= 0, k < vec(ov)[1]), z3.Select(a, k) == z3.If(moved(pk, nv, k), V.VUndef, z3.Select(vec(ov)[0], k))), z3.Select(a, k))]
    y.moved = moved
    y.INVO = SpecFn("INVO", vb, vv, vv, vv, facts=invo_facts, doc="old values of an inverted update: the new values; an unchanged key keeps its old value")
    y.INVN = SpecFn("INVN", vb, vv, vv, vv, facts=invn_facts, doc="new values of an inverted update: the old values; undefined for an unchanged key")
    enc = lambda v, m: ROWENC(vec(v)[0], m)

    def same_table(t, w): return z3.And(x.name(t) == x.name(w), veceq(x.pks(t), x.pks(w)))

    def header(t):
        pa, pn = vec(x.pks(t))
        return concat(slit("T"), VARINT(pn), PKENC(pa, pn), x.name(t), slit("\0"))

    def inv_step(F, d, e, a):
        q, t2, m, op, ov, nv, end, ok = e
        w, first = a
        new_t = z3.Or(first, z3.Not(same_table(t2, w)))
        pk = x.pks(t2)
        rec = z3.If(op == OPI, concat(slit("\x09\0"), enc(nv, m)), z3.If(op == OPD, concat(slit("\x12\0"), enc(ov, m)),
                    concat(slit("\x17\0"), enc(y.INVO(pk, ov, nv), m), enc(y.INVN(pk, ov, nv), m))))
        return z3.Concat(z3.If(new_t, header(t2), slit("")), z3.Concat(rec, F(d, end, t2, z3.If(new_t, t2, w), z3.BoolVal(False))))
    y.INVREST = rest("INVREST", Str, inv_step, lambda *a: slit(""), ts, B)
    y.same_table = same_table
    # ---- JSON
    def col_def(op, ov, nv, i, a):
        vo = z3.If(op == OPI, V.VUndef, z3.Select(vec(ov)[0], i)); vn = z3.If(op == OPD, V.VUndef, z3.Select(vec(nv)[0], i))
        return vo, vn
    def cols_def(op, ov, nv, n):
        i = n - 1
        vo, vn = col_def(op, ov, nv, i, None)
        prev = y.COLS(op, ov, nv, i)
        piece = concat(z3.If(y.ANYCOL(op, ov, nv, i), slit(",\n          {\n"), slit("\n          {\n")), slit("              \"column\": "), ITOA(i),
                       z3.If(V.is_VUndef(vo), slit(""), concat(slit(",\n              \"old\": "), VALJ(vo))),
                       z3.If(V.is_VUndef(vn), slit(""), concat(slit(",\n              \"new\": "), VALJ(vn))), slit("\n          }"))
        return z3.If(n <= 0, slit(""), z3.Concat(prev, z3.If(z3.And(V.is_VUndef(vo), V.is_VUndef(vn)), slit(""), piece)))
    def any_def(op, ov, nv, n):
        vo, vn = col_def(op, ov, nv, n - 1, None)
        return z3.And(n > 0, z3.Or(y.ANYCOL(op, ov, nv, n - 1), z3.Not(V.is_VUndef(vo)), z3.Not(V.is_VUndef(vn))))
    y.COLS = SpecFn("COLS", I, vv, vv, I, Str, define=cols_def, doc="JSON of the first n columns of a change (those with a defined value)")
    y.ANYCOL = SpecFn("ANYCOL", I, vv, vv, I, B, define=any_def, doc="one of the first n columns has a defined value")
    def ejson(name, m, op, ov, nv):
        opn = z3.If(op == OPU, slit("update"), z3.If(op == OPI, slit("insert"), slit("delete")))
        return concat(slit("      {\n        \"table\": "), QUOTED(name), slit(",\n        \"type\": \""), opn, slit("\",\n        \"changes\": ["), y.COLS(op, ov, nv, m), slit("\n        ]\n      }"))
    y.EJSON = SpecFn("EJSON", Str, I, I, vv, vv, Str, define=ejson, doc="JSON object of one change")
    def json_step(F, d, e, a):
        q, t2, m, op, ov, nv, end, ok = e
        return concat(z3.If(a[0], slit("\n"), slit(",\n")), y.EJSON(x.name(t2), m, op, z3.If(op == OPI, vec0(ex), ov), z3.If(op == OPD, vec0(ex), nv)), F(d, end, t2, z3.BoolVal(False)))
    y.JREST = rest("JREST", Str, json_step, lambda *a: slit(""), B)
    # ---- counting
    y.CNT = {}
    for op_, nm in ((OPI, "inserts"), (OPU, "updates"), (OPD, "deletes")):
        def cnt_step(F, d, e, a, op_=op_):
            return z3.If(z3.And(e[3] == op_, x.name(e[1]) == a[0]), 1, 0) + F(d, e[6], e[1], a[0])
        y.CNT[nm] = rest("CNT_" + nm, I, cnt_step, lambda *a: iv(0), Str)
    y.COUNT = rest("COUNT", I, lambda F, d, e, a: 1 + F(d, e[6], e[1]), lambda: iv(0))
    # ---- conflicts
    if ("ConflictItem" in ex.T.fieldsof) if hasattr(ex.T, "fieldsof") else True:
        ci, cf = ex.T.struct("ConflictItem"), ex.T.struct("ConflictFeature")
        fi = lambda n, t: S.get(ci, ex.T.field_index("ConflictItem", n)[0], t)
        ff = lambda n, t: S.get(cf, ex.T.field_index("ConflictFeature", n)[0], t)
        y.fi, y.ff = fi, ff
        opt = lambda key, val: z3.If(V.is_VUndef(val), slit(""), concat(slit(",\n              \"%s\": " % key), VALJ(val)))
        def items_def(a, n):
            it = z3.Select(a, n - 1)
            return z3.If(n <= 0, slit(""), z3.Concat(y.CITEMS(a, n - 1), concat(z3.If(n == 1, slit("\n          {\n"), slit(",\n          {\n")), slit("              \"column\": "), ITOA(fi("mColumn", it)),
                         opt("base", fi("mBase", it)), opt("old", fi("mTheirs", it)), opt("new", fi("mOurs", it)), slit("\n          }"))))
        y.CITEMS = SpecFn("CITEMS", z3.ArraySort(I, ci), I, Str, define=items_def, doc="JSON of the first n columns of a conflict")
        def conf_def(c):
            its = ff("mItems", c)
            return concat(slit("      {\n        \"table\": "), QUOTED(ff("mTableName", c)), slit(",\n        \"type\": \"conflict\",\n        \"fid\": \""), ITOA(ff("mPk", c)), slit("\",\n        \"changes\": ["),
                          y.CITEMS(*vec(its)), slit("\n        ]\n      }"))
        y.CONFJ = SpecFn("CONFJ", cf, Str, define=conf_def, facts=lambda app, c: [z3.Length(app) > 0], doc="JSON object of one conflict")
        y.CLIST = SpecFn("CLIST", z3.ArraySort(I, cf), I, Str, define=lambda a, n: z3.If(n <= 0, slit(""), z3.Concat(y.CLIST(a, n - 1), z3.If(n == 1, slit("\n"), slit(",\n")), y.CONFJ(z3.Select(a, n - 1)))),
                         doc="JSON objects of the first n conflicts")
    _fns[k] = y
    return y


def vec0(ex): return z3.Const("no_values", tabfns(ex).vv)


# ---- JSON texts
# escape of one byte
def jesc1(c):
    m = {10: "\\n", 13: "\\r", 9: "\\t", 34: '\\"', 92: "\\\\"}
    if c in m: return m[c]
    return "\\u%04x" % c if c < 32 else chr(c)


JESC = SpecFn("JESC", Str, Str, doc="every byte replaced by its JSON escape (quote, backslash, bytes below 32); other bytes kept")
QUOTED = SpecFn("QUOTED", Str, Str, define=lambda s: concat(slit('"'), JESC(s), slit('"')), doc="JSON string")
B64TXT = SpecFn("B64TXT", Str, Str, doc="standard padded base64 text of a byte string")


def valj(v):
    return z3.If(V.is_VUndef(v), slit(""), z3.If(V.is_VNull(v), slit("null"), z3.If(V.is_VInt(v), ITOA(V.vi(v)),
           z3.If(V.is_VDbl(v), z3.If((V.vd(v) / 2**52) % 2048 == 2047, slit("null"), DTOA(V.vd(v))),
           z3.If(V.is_VText(v), QUOTED(V.vt(v)), QUOTED(B64TXT(V.vb(v))))))))


VALJ = SpecFn("VALJ", V, Str, define=valj, facts=lambda app, v: [z3.Implies(z3.Not(V.is_VUndef(v)), z3.Length(app) > 0)], doc="JSON text of a value")
REG["itoa"] = lambda app: [z3.Length(app) > 0]
REG["dtoa"] = lambda app: [z3.Length(app) > 0]


def chain_of(t):
    """(base, [(byte, replacement)]) of nested REPL terms with literal one-byte patterns"""
    ch = []
    while z3.is_app(t) and t.decl().name() == "REPL":
        a, b = t.arg(1), t.arg(2)
        if not (z3.is_string_value(a) and z3.is_string_value(b)): return None, None
        a, b = S.sval(a), S.sval(b)
        if len(a) != 1: return None, None
        ch.append((a, b)); t = t.arg(0)
    return t, ch[::-1]


def chain_table(ch):
    tab = []
    for c in range(256):
        s = chr(c)
        for a, b in ch: s = s.replace(a, b)
        tab.append(s)
    return tab


JTAB = [jesc1(c) for c in range(256)]


def repl_facts(app):
    """lemma (lemmas.py, escape_chain): a chain of one-byte replacements maps every byte on its own"""
    base, ch = chain_of(app)
    if ch and chain_table(ch) == JTAB: return [app == JESC(base)]
    return []


class ReplaceCall(util.Replace):
    """the contract of replace as a call: the result is the term itself"""
    trusted = True       # proved in C22
    def call_value(self, v): return REPL(v.arg(0), v.arg(1), v.arg(2))
    def post(self, v): return []


class Escape(Contract):
    name, nargs, outcomes = "escapeJSONString", 1, ("return",)
    opts = dict(unroll=40)
    def setup(self, ex, st): REG["REPL"] = repl_facts       # here a chain of replacements is used through its lemma
    def pre(self, v): return []
    def post(self, v): return [("JSON string with every special byte escaped", v.result == QUOTED(v.arg(0)))]


class B64Call(util.B64Enc):
    trusted = True        # proved in C16 (characters of the result); B64TXT names the result
    ret = STR
    def post(self, v):
        null, d, o = self.dat(v)
        return [("", v.result == B64TXT(SUB(d, o, v.arg(1))))]


class ValueToJSON(Contract):
    name, nargs, outcomes = "valueToJSON", 1, ("return",)
    def pre(self, v):
        a = v.arg(0)
        return [("blob shorter than 2 GB", z3.Implies(V.is_VBlob(a), z3.Length(V.vb(a)) < 2**31))]
    def post(self, v): return [("JSON text of the value", v.result == VALJ(v.arg(0)))]


def entry_parts(v, e):
    ex = v.ex
    f = lambda nm: v.old(v.fld(nm, base=e))
    return f("op"), f("oldValues"), f("newValues")


class EntryToJSON(Contract):
    name, nargs, outcomes = "changesetEntryToJSON", 1, ("return",)

    def tab(self, v):
        e = v.args[0]
        p = v.fld("table", base=e)
        return v.old(v.pointee(p))

    def pre(self, v):
        op, ov, nv = entry_parts(v, v.args[0])
        x = tabfns(v.ex)
        ptr = v.old(v.fld("table", base=v.args[0]))
        m = x.cols(self.tab(v))
        return [("the change has a table", ptr != 0), ("known operation", z3.Or([op == k for k in OPS])), ("as many values as columns", z3.And(z3.Implies(op != OPI, vec(ov)[1] == m), z3.Implies(op != OPD, vec(nv)[1] == m))),
                ("blobs shorter than 2 GB", z3.And(z3.Implies(op != OPI, writer.fits(*vec(ov))), z3.Implies(op != OPD, writer.fits(*vec(nv)))))]

    def post(self, v):
        op, ov, nv = entry_parts(v, v.args[0])
        y = folds(v.ex)
        t = self.tab(v)
        return [("JSON object of the change", v.result == y.EJSON(y.x.name(t), y.x.cols(t), op, z3.If(op == OPI, vec0(v.ex), ov), z3.If(op == OPD, vec0(v.ex), nv)))]

    def invs_for(self, L, v):
        op, ov, nv = entry_parts(v, v.args[0])
        y, ex = folds(v.ex), L.ex
        ov, nv = z3.If(op == OPI, vec0(ex), ov), z3.If(op == OPD, vec0(ex), nv)
        out = []
        for i in L.ints:
            for st in L.strs:
                out.append(("%s has the columns before %s" % (st, i), lambda q, st=st, i=i, e0=ex.load(L.entry, st): ex.load(q, st) == concat(e0, y.COLS(op, ov, nv, ex.load(q, i)))))
            for b in L.bools:
                out.append(("%s: no column yet" % b, lambda q, b=b, i=i: ex.load(q, b) == z3.Not(y.ANYCOL(op, ov, nv, ex.load(q, i)))))
        return out


def rstate(v, rd, s):
    ex = v.ex
    f = lambda n: ex.load(s, v.fld(n, base=rd))
    return bufdata(ex, s, rd)[1], f("mOffset"), f("mCurrentTable")


class Fold(Contract):
    """consumes the changes of the reader given as first argument"""
    outcomes = ("return", "throw")

    def rd(self, v): return v.args[0]
    def modifies(self, v): return [v.fld("mOffset", base=v.args[0]), v.fld("mCurrentTable", base=v.args[0])]

    def pre(self, v):
        p, d = bufdata(v.ex, v.so, v.args[0])
        o = v.old(v.fld("mOffset", base=v.args[0]))
        return [("a buffer is open", p > 0), ("offset inside the buffer", z3.And(o >= 0, o <= z3.Length(d))), ("buffer shorter than 2 GB", z3.Length(d) < reader.BIG),
                ("at most 65536 columns", tabfns(v.ex).cols(v.old(v.fld("mCurrentTable", base=v.args[0]))) <= 65536)]

    def guard(self, v, kind):
        ok = folds(v.ex).ALLOK(*rstate(v, v.args[0], v.so))
        return ok if kind == "return" else z3.Not(ok)

    def post(self, v):
        return [] if v.kind == "throw" else self.done(v)

    def base_invs(self, L, v):
        y, ex = folds(v.ex), L.ex
        d, o, t = rstate(v, v.args[0], v.so)
        cur = lambda q: rstate(v, v.args[0], q)
        return [("at most 65536 columns", lambda q: y.x.cols(cur(q)[2]) <= 65536), ("offset inside", lambda q: z3.And(cur(q)[1] >= 0, cur(q)[1] <= z3.Length(d))),
                ("the remaining changes are complete exactly if all are", lambda q: y.ALLOK(*cur(q)) == y.ALLOK(d, o, t))]


class Invert(Fold):
    name, nargs = "invertChangeset", 2
    cost = 8
    opts = dict(houdini_ms=20000, lean=1)
    def modifies(self, v): return Fold.modifies(self, v) + [v.fld("mFile", base=v.args[1]), v.fld("mCurrentTable", base=v.args[1])]

    def done(self, v):
        y = folds(v.ex)
        d, o, t = rstate(v, v.args[0], v.so)
        f = v.fld("mFile", base=v.args[1])
        w = v.old(v.fld("mCurrentTable", base=v.args[1]))
        return [("the inverse changes of all changes are written, in order", v.new(f) == concat(v.old(f), y.INVREST(d, o, t, w, z3.BoolVal(True))))]

    def invs_for(self, L, v):
        y, ex, x = folds(v.ex), L.ex, tabfns(v.ex)
        d, o, t = rstate(v, v.args[0], v.so)
        cur = lambda q: rstate(v, v.args[0], q)
        wt, wf = v.fld("mCurrentTable", base=v.args[1]), v.fld("mFile", base=v.args[1])
        w0, f0 = v.old(wt), v.old(wf)
        out = []
        if any(str(s) == str(wf) or s.root == wf.root for s in L.strs):       # the loop over the changes
            out += self.base_invs(L, v)
            for b in L.bools or [None]:
                fl = (lambda q: z3.BoolVal(False)) if b is None else (lambda q, b=b: ex.load(q, b))
                out.append(("written so far ++ inverse of the rest (%s)" % b,
                            lambda q, fl=fl: concat(ex.load(q, wf), y.INVREST(*cur(q), ex.load(q, wt), fl(q))) == concat(f0, y.INVREST(d, o, t, w0, z3.BoolVal(True)))))
                for st in L.strs:
                    if st.root == wf.root: continue
                    out.append(("%s is the current table of the writer (%s)" % (st, b), lambda q, st=st, fl=fl: z3.Or(fl(q), ex.load(q, st) == x.name(ex.load(q, wt)))))
                for vv in L.vecs:
                    if ex.T.sort(vv.ct) == x.vb:
                        out.append(("%s are the current keys of the writer (%s)" % (vv, b), lambda q, vv=vv, fl=fl: z3.Or(fl(q), ex.load(q, vv) == x.pks(ex.load(q, wt)))))
        else:
            k = z3.Int("ki")
            vs = [l for l in L.vecs if ex.T.sort(l.ct) == x.vv]
            for i in L.ints:
                for a in vs:
                    for b in vs:
                        if a is b: continue
                        N, O = ex.load(L.entry, a), ex.load(L.entry, b)
                        pk = lambda q: x.pks(cur(q)[2])
                        def f(q, i=i, a=a, b=b, N=N, O=O):
                            A, Bv = ex.load(q, a), ex.load(q, b)
                            mv = z3.And(k < ex.load(q, i), y.moved(pk(q), N, k))
                            return z3.And(vec(A)[1] == vec(N)[1], vec(Bv)[1] == vec(O)[1],
                                          FA(k, z3.Implies(z3.And(k >= 0, k < vec(N)[1]), z3.Select(vec(A)[0], k) == z3.If(mv, z3.Select(vec(O)[0], k), z3.Select(vec(N)[0], k))), z3.Select(vec(A)[0], k)),
                                          FA(k, z3.Implies(z3.And(k >= 0, k < vec(O)[1]), z3.Select(vec(Bv)[0], k) == z3.If(mv, V.VUndef, z3.Select(vec(O)[0], k))), z3.Select(vec(Bv)[0], k)))
                        out.append(("keys before %s moved to %s" % (i, a), f))
        return out


class ToJSON(Fold):
    name, nargs = "changesetToJSON", 1
    cost = 4
    def done(self, v):
        y = folds(v.ex)
        return [("one object per change, in order", v.result == concat(slit("{\n   \"geodiff\": ["), y.JREST(*rstate(v, v.args[0], v.so), z3.BoolVal(True)), slit("\n   ]\n}")))]

    def invs_for(self, L, v):
        y, ex = folds(v.ex), L.ex
        d, o, t = rstate(v, v.args[0], v.so)
        cur = lambda q: rstate(v, v.args[0], q)
        out = self.base_invs(L, v)
        for st in L.strs:
            for b in L.bools:
                out.append(("%s ++ the rest is the whole listing" % st, lambda q, st=st, b=b: concat(ex.load(q, st), y.JREST(*cur(q), ex.load(q, b))) == concat(ex.load(L.entry, st), y.JREST(d, o, t, z3.BoolVal(True)))))
        return out


def blobs_fit(y, its):
    a, n = vec(its)
    j = z3.Int("jb")
    it = z3.Select(a, j)
    return FA(j, z3.Implies(z3.And(j >= 0, j < n), z3.And([z3.Implies(V.is_VBlob(y.fi(f, it)), z3.Length(V.vb(y.fi(f, it))) < 2**31) for f in ("mBase", "mTheirs", "mOurs")])), it)


class ConflictToJSON(Contract):
    name, nargs, outcomes = "conflictToJSON", 1, ("return",)
    opts = dict(lean=1)
    def pre(self, v): return [("blobs shorter than 2 GB", blobs_fit(folds(v.ex), v.o("mItems") if False else v.old(v.fld("mItems", base=v.args[0]))))]
    def post(self, v): return [("JSON object of the conflict", v.result == folds(v.ex).CONFJ(v.arg(0)))]
    def invs_for(self, L, v):
        y, ex = folds(v.ex), L.ex
        a, n = vec(v.old(v.fld("mItems", base=v.args[0])))
        out = []
        for i in ([L.rl["idx"]] if L.rl else L.ints):
            for st in L.strs:
                out.append(("%s has the columns before %s" % (st, i), lambda q, st=st, i=i, e0=ex.load(L.entry, st): ex.load(q, st) == concat(e0, y.CITEMS(a, ex.load(q, i)))))
            for b in L.bools: out.append(("%s: first item" % b, lambda q, b=b, i=i: ex.load(q, b) == (ex.load(q, i) == 0)))
        return out


class ConflictsToJSON(Contract):
    name, nargs, outcomes = "conflictsToJSON", 1, ("return",)
    opts = dict(lean=1)
    def pre(self, v):
        a, n = vec(v.arg(0))
        y = folds(v.ex)
        j = z3.Int("jc")
        its = y.ff("mItems", z3.Select(a, j))
        k = z3.Int("jb")
        it = z3.Select(vec(its)[0], k)
        return [("blobs shorter than 2 GB", FA([j, k], z3.Implies(z3.And(j >= 0, j < n, k >= 0, k < vec(its)[1]), z3.And([z3.Implies(V.is_VBlob(y.fi(f, it)), z3.Length(V.vb(y.fi(f, it))) < 2**31) for f in ("mBase", "mTheirs", "mOurs")])), it))]
    def post(self, v):
        y = folds(v.ex)
        return [("one object per conflict, in order", v.result == concat(slit("{\n   \"geodiff\": ["), y.CLIST(*vec(v.arg(0))), slit("\n   ]\n}")))]
    def invs_for(self, L, v):
        y, ex = folds(v.ex), L.ex
        a, n = vec(v.arg(0))
        out = []
        for i in ([L.rl["idx"]] if L.rl else L.ints):
            for st in L.strs:
                out.append(("%s has the conflicts before %s" % (st, i), lambda q, st=st, i=i, e0=ex.load(L.entry, st): ex.load(q, st) == concat(e0, y.CLIST(a, ex.load(q, i)))))
            for b in L.bools: out.append(("%s: first conflict" % b, lambda q, b=b, i=i: ex.load(q, b) == (ex.load(q, i) == 0)))
        return out


# ---- C07
KINDS = ("inserts", "updates", "deletes")


class Summary(Fold):
    name, nargs = "changesetToJSONSummary", 1
    cost = 5
    opts = dict(lean=1)

    def fields(self, ex, m):
        """(dom, count(kind, name)) of a map of table summaries"""
        ts = ex.T.struct("TableSummary")
        dom, val = S.get(m.sort(), 0, m), S.get(m.sort(), 1, m)
        return dom, lambda kind, N: S.get(ts, ex.T.field_index("TableSummary", kind)[0], z3.Select(val, N))

    def text(self, ex, m):
        dom, cnt = self.fields(ex, m)
        key = z3.Function("key_" + sname(dom.sort()), dom.sort(), I, Str)
        srt = m.sort()
        if "SUMJ" not in REG:
            def d(m_, n):
                dom, cnt = self.fields(ex, m_)
                N = key(dom, n - 1)
                obj = concat(slit("      {\n         \"table\": "), QUOTED(N), slit(",\n         \"insert\": "), ITOA(cnt("inserts", N)), slit(",\n         \"update\": "), ITOA(cnt("updates", N)),
                             slit(",\n         \"delete\": "), ITOA(cnt("deletes", N)), slit("\n      }"))
                return z3.If(n <= 0, slit(""), z3.Concat(self.F(m_, n - 1), z3.If(n == 1, slit("\n"), slit(",\n")), obj))
            self.F = SpecFn("SUMJ", srt, I, Str, define=d, doc="JSON objects of the first n tables")
        return self.F

    def exact(self, v, m, state):
        """the map has exactly the counts of the changes consumed (state: None = all)"""
        y, ex = folds(v.ex), v.ex
        s0 = rstate(v, v.args[0], v.so)
        dom, cnt = self.fields(ex, m)
        N = z3.Const("N", Str)
        done = {k: y.CNT[k](*s0, N) - (y.CNT[k](*state, N) if state else 0) for k in KINDS}
        have = {k: z3.If(z3.Select(dom, N), cnt(k, N), 0) for k in KINDS}
        body = z3.And([done[k] == have[k] for k in KINDS] + [z3.Select(dom, N) == (sum(done.values()) > 0)] + [have[k] >= 0 for k in KINDS])
        return FA(N, body, z3.Select(dom, N))

    def done(self, v):
        ex = v.ex
        goals = []
        for r, t in v.sn.store.items():
            ct = ex.roots.get(r)
            if ct is not None and getattr(ct, "kind", None) == "map" and ct.args[1].name == "TableSummary" and z3.is_expr(t):
                dom, _ = self.fields(ex, t)
                card = z3.Function("card_" + sname(dom.sort()), dom.sort(), I)(dom)
                goals.append((self.exact(v, t, None), v.result == concat(slit("{\n   \"geodiff_summary\": ["), self.text(ex, t)(t, card), slit("\n   ]\n}"))))
        if v.calling: return []
        if not goals: return [("a map with the counts", z3.BoolVal(False))]
        return [("the counts are exact, for every table name", goals[0][0]), ("one object per table with changes", goals[0][1])]

    def invs_for(self, L, v):
        y, ex = folds(v.ex), L.ex
        cur = lambda q: rstate(v, v.args[0], q)
        out = []
        maps = [l for l in L.others if l.ct.kind == "map"]
        if maps:
            out += self.base_invs(L, v)
            for m in maps:
                out.append(("exact counts so far", lambda q, m=m: self.exact(v, ex.load(q, m), cur(q))))
                def small(q, m=m):
                    dom, cnt = self.fields(ex, ex.load(q, m))
                    N = z3.Const("N", Str)
                    return FA(N, z3.Implies(z3.Select(dom, N), z3.And([z3.And(cnt(k, N) >= 0, cnt(k, N) <= cur(q)[1]) for k in KINDS])), z3.Select(dom, N))
                out.append(("counts at most the offset", small))
        elif L.rl:
            for st in L.strs:
                for r, t in L.entry.store.items():
                    ct = ex.roots.get(r)
                    if ct is not None and getattr(ct, "kind", None) == "map" and ct.args[1].name == "TableSummary" and z3.is_expr(t):
                        F = self.text(ex, t)
                        out.append(("%s has the tables before the index" % st, lambda q, st=st, t=t, e0=ex.load(L.entry, st): ex.load(q, st) == concat(e0, F(t, ex.load(q, L.rl["idx"])))))
            for b in L.bools: out.append(("%s: first table" % b, lambda q, b=b: ex.load(q, b) == (ex.load(q, L.rl["idx"]) == 0)))
        return out


class ReaderOpen(Contract):
    name, nargs, outcomes, ghosts = "ChangesetReader::open", 1, ("return",), env.GH
    def modifies(self, v): return [v.fld("mBuffer"), LV(v.ex.heap(v.so, BUFFER), (), v.ex.roots[v.ex.heap(v.so, BUFFER)])]
    def post(self, v):
        f = v.arg(0)
        data = z3.Select(v.ghost_old("fs_data"), f)
        ok = z3.And(z3.Select(v.ghost_old("fs_ok"), f), z3.Length(data) < 2**31)
        p, d = bufdata(v.ex, v.sn, v.this)
        return [("true exactly if the file can be read", v.result == ok), ("the content of the file", z3.Implies(ok, z3.And(p > 0, d == data)))]


class EnvBase(Contract):
    ghosts = env.GH
    def data(self, v, i): return z3.Select(v.ghost_old("fs_data"), env.cstr(v.arg(i)))
    def ok(self, v, i): return z3.And(z3.Select(v.ghost_old("fs_ok"), env.cstr(v.arg(i))), z3.Length(self.data(v, i)) < 2**31)
    def null(self, v, i): return S.get(v.arg(i).sort(), 0, v.arg(i))
    def notab(self, ex):
        ct = ex.T.parse("ChangesetTable")
        return ex.default(None, ct)


class ChangesCount(EnvBase):
    name, nargs, outcomes = "GEODIFF_changesCount", 1, ("return",)
    opts = dict(lean=1)
    def modifies(self, v): return [LV(v.ex.heap(v.so, BUFFER), (), v.ex.roots[v.ex.heap(v.so, BUFFER)])]
    def t0(self, v): return v.ex.default(v.so, v.ex.T.parse("ChangesetTable"))
    def post(self, v):
        y = folds(v.ex)
        d = self.data(v, 0)
        good = z3.And(z3.Not(self.null(v, 0)), self.ok(v, 0), y.ALLOK(d, iv(0), self.t0(v)))
        return [("the number of changes, -1 for an unreadable or malformed changeset", v.result == z3.If(good, y.COUNT(d, iv(0), self.t0(v)), -1))]
    def invs_for(self, L, v):
        y, ex = folds(v.ex), L.ex
        rd = next((LV(r, (), ct) for r, ct in ex.roots.items() if getattr(ct, "name", None) == "ChangesetReader" and r in L.entry.store), None)
        if rd is None: return []
        d, o, t = rstate(v, rd, L.entry)
        cur = lambda q: rstate(v, rd, q)
        out = [("at most 65536 columns", lambda q: y.x.cols(cur(q)[2]) <= 65536), ("offset inside", lambda q: z3.And(cur(q)[1] >= 0, cur(q)[1] <= z3.Length(d))),
               ("the remaining changes are complete exactly if all are", lambda q: y.ALLOK(*cur(q)) == y.ALLOK(d, o, t))]
        for i in L.ints:
            out.append(("%s + remaining changes is the number of changes" % i, lambda q, i=i: ex.load(q, i) + y.COUNT(*cur(q)) == y.COUNT(d, o, t)))
            out.append(("%s at most the offset" % i, lambda q, i=i: ex.load(q, i) <= cur(q)[1]))
        return out


class HasChanges(EnvBase):
    name, nargs, outcomes = "GEODIFF_hasChanges", 1, ("return",)
    def modifies(self, v): return [LV(v.ex.heap(v.so, BUFFER), (), v.ex.roots[v.ex.heap(v.so, BUFFER)])]
    def post(self, v):
        good = z3.And(z3.Not(self.null(v, 0)), self.ok(v, 0))
        return [("1 for a file with content, 0 for an empty one, -1 on error", v.result == z3.If(good, z3.If(z3.Length(self.data(v, 0)) > 0, iv(1), iv(0)), iv(-1)))]


JSON = [ConflictToJSON(), ConflictsToJSON(), Summary(), ReaderOpen(), ChangesCount(), HasChanges(), reader.IsEmpty(), env.BufferRead()] + env.LOG + [Escape(), ValueToJSON(), EntryToJSON(), ToJSON()]
CONTRACTS = VARINTS + [NextEntry(), B64Call(), ReplaceCall()] + writer.CONTRACTS[2:] + [Invert()] + JSON
