"""C18: the real Value class (tag, union, owned string) is a value type."""
from .common import *

ABSTRACT = {k: v for k, v in ABSTRACT.items() if k != "Value"}
LIVE = z3.ArraySort(I, B)
HEAP = z3.ArraySort(I, Str)


def heaplv(ex, st): return LV(ex.heap(st, STR), (), ex.roots[ex.heap(st, STR)])


class VC(Contract):
    outcomes = ("return",)
    ghosts = {"live": LIVE}

    def setup(self, ex, st):
        super().setup(ex, st)
        ex.heap(st, STR)

    def heap(self, v, st): return st.store[v.ex.heap(st, STR)]

    def parts(self, v, st, lv):
        x = v.ex.load(st, lv)
        t = v.ex.load(st, v.fld("mType", base=lv)); u = v.fld("mVal", base=lv)
        g = lambda n: v.ex.load(st, v.fld(n, base=u))
        return t, g("num_i"), g("num_f"), g("str")

    def val(self, v, st, lv):
        """the value an object denotes"""
        t, i, d, p = self.parts(v, st, lv)
        s = z3.Select(self.heap(v, st), p)
        return z3.If(t == 1, V.VInt(i), z3.If(t == 2, V.VDbl(d), z3.If(t == 3, V.VText(s), z3.If(t == 4, V.VBlob(s), z3.If(t == 5, V.VNull, V.VUndef)))))

    def owns(self, t): return z3.Or(t == 3, t == 4)

    def wf(self, v, st, lv):
        """class invariant: known type, and a text or blob owns a live string"""
        t, i, d, p = self.parts(v, st, lv)
        return z3.And(t >= 0, t <= 5, z3.Implies(self.owns(t), z3.And(p > 0, z3.Select(st.store["g:live"], p))))

    def this_wf(self, v): return [("the value is well formed", self.wf(v, v.so, v.this))]

    def freed(self, v):
        """live strings after releasing what this owned"""
        t, i, d, p = self.parts(v, v.so, v.this)
        live = v.ghost_old("live")
        return z3.If(self.owns(t), z3.Store(live, p, z3.BoolVal(False)), live)


class Ctor(VC):
    name, nargs = "Value::Value", 0
    def modifies(self, v): return [v.this]
    def post(self, v): return [("undefined", self.val(v, v.sn, v.this) == V.VUndef), ("well formed", self.wf(v, v.sn, v.this))]


class Reset(VC):
    name, nargs = "Value::reset", 0
    def pre(self, v): return self.this_wf(v)
    def modifies(self, v): return [v.this]
    def gmodifies(self, v): return ["live"]
    def post(self, v):
        return [("undefined", self.val(v, v.sn, v.this) == V.VUndef), ("well formed", self.wf(v, v.sn, v.this)), ("exactly its own string is released", v.ghost_new("live") == self.freed(v))]


class Dtor(Reset):
    name, nargs = "Value::~Value", 0
    def post(self, v): return [("exactly its own string is released", v.ghost_new("live") == self.freed(v))]


class SetUndef(Reset): name = "Value::setUndefined"


class SetNull(Reset):
    name = "Value::setNull"
    def post(self, v): return [("NULL", self.val(v, v.sn, v.this) == V.VNull)] + Reset.post(self, v)[1:]


class SetInt(Reset):
    name, nargs = "Value::setInt", 1
    def post(self, v): return [("the integer given", self.val(v, v.sn, v.this) == V.VInt(v.arg(0)))] + Reset.post(self, v)[1:]


class SetDouble(Reset):
    name, nargs = "Value::setDouble", 1
    def post(self, v): return [("the double given", self.val(v, v.sn, v.this) == V.VDbl(v.arg(0)))] + Reset.post(self, v)[1:]


class Stores(VC):
    """the new content is in a string of its own that was not alive before"""
    def modifies(self, v): return [v.this, heaplv(v.ex, v.so)]
    def gmodifies(self, v): return ["live"]

    def stored(self, v, w):
        t, i, d, p = self.parts(v, v.sn, v.this)
        h0, h1 = self.heap(v, v.so), self.heap(v, v.sn)
        l0, l1 = self.freed(v), v.ghost_new("live")
        own = z3.And(z3.Not(z3.Select(l0, p)), p > 0)
        txt = z3.Or(V.is_VText(w), V.is_VBlob(w))
        return [("holds the value", self.val(v, v.sn, v.this) == w), ("well formed", self.wf(v, v.sn, v.this)),
                ("text and blobs are in a string of their own", z3.Implies(txt, own)),
                ("other strings keep their content", z3.If(txt, h1 == z3.Store(h0, p, z3.Select(h1, p)), h1 == h0)),
                ("the old string is released, the new one is alive", l1 == z3.If(txt, z3.Store(l0, p, z3.BoolVal(True)), l0))]


class SetString(Stores):
    name, nargs = "Value::setString", 3
    def dat(self, v):
        p = v.arg(1); srt = p.sort()
        return S.get(srt, 0, p), S.get(srt, 1, p), S.get(srt, 2, p)
    def pre(self, v):
        null, d, o = self.dat(v)
        n = v.arg(2)
        return self.this_wf(v) + [("text or blob", self.owns(v.arg(0))), ("the bytes are readable", z3.And(z3.Not(null), o >= 0, n >= 0, o + n <= z3.Length(d)))]
    def post(self, v):
        null, d, o = self.dat(v)
        b = z3.If(z3.And(o == 0, v.arg(2) == z3.Length(d)), d, SUB(d, o, v.arg(2)))
        b = SUB(d, o, v.arg(2))
        return self.stored(v, z3.If(v.arg(0) == 3, V.VText(b), V.VBlob(b)))


class Assign(Stores):
    """from another object"""
    name, nargs = "Value::operator=", 1
    def pre(self, v):
        a, b = self.parts(v, v.so, v.this), self.parts(v, v.so, v.args[0])
        return self.this_wf(v) + [("the source is well formed", self.wf(v, v.so, v.args[0])),
                                  ("two values never own the same string", z3.Implies(z3.And(self.owns(a[0]), self.owns(b[0])), a[3] != b[3]))]
    def post(self, v):
        w = self.val(v, v.so, v.args[0])
        return self.stored(v, w) + [("the source keeps its value", self.val(v, v.sn, v.args[0]) == w), ("the source stays well formed", self.wf(v, v.sn, v.args[0])),
                                    ("returns itself", z3.BoolVal(v._result is None or isinstance(v._result, LV) and v.ex.resolve(v.sn, v._result).key() == v.this.key()) if not v.calling else z3.BoolVal(True))]


class SelfAssign(VC):
    name, nargs, aliases_this = "Value::operator=", 1, (0,)
    label = "Value::operator= (self-assignment)"
    def pre(self, v): return self.this_wf(v)
    def post(self, v):
        return [("keeps its value", self.val(v, v.sn, v.this) == self.val(v, v.so, v.this)), ("well formed", self.wf(v, v.sn, v.this))]


class CopyCtor(Assign):
    name, nargs = "Value::Value", 1
    def pre(self, v): return [("the source is well formed", self.wf(v, v.so, v.args[0]))]
    def freed(self, v): return v.ghost_old("live")
    def post(self, v): return Assign.post(self, v)[:-1]


class Eq(VC):
    name, nargs = "Value::operator==", 1
    def pre(self, v): return self.this_wf(v) + [("the other is well formed", self.wf(v, v.so, v.args[0]))]
    def same(self, v):
        a, b = self.val(v, v.so, v.this), self.val(v, v.so, v.args[0])
        return z3.If(z3.And(V.is_VDbl(a), V.is_VDbl(b)), z3.Function("dbl_eq", I, I, B)(V.vd(a), V.vd(b)), a == b)
    def post(self, v): return [("same type and same content", v.result == self.same(v))]


class Ne(Eq):
    name = "Value::operator!="
    def post(self, v): return [("different type or content", v.result == z3.Not(self.same(v)))]


class Type(VC):
    name, nargs = "Value::type", 0
    def post(self, v): return [("the type", v.result == v.o("mType"))]


class GetInt(VC):
    name, nargs = "Value::getInt", 0
    def pre(self, v): return [("an integer", v.o("mType") == 1)]
    def post(self, v): return [("the stored integer", V.VInt(v.result) == self.val(v, v.so, v.this))]


class GetDouble(VC):
    name, nargs = "Value::getDouble", 0
    def pre(self, v): return [("a double", v.o("mType") == 2)]
    def post(self, v): return [("the stored double", V.VDbl(v.result) == self.val(v, v.so, v.this))]


class GetString(VC):
    name, nargs = "Value::getString", 0
    def pre(self, v): return self.this_wf(v) + [("a text or blob", self.owns(v.o("mType")))]
    def post(self, v):
        if v.calling: return []
        return [("the stored bytes", v.result == z3.Select(self.heap(v, v.so), v.o("mVal", "str")))]
    def wrap_result(self, ex, s, this, args, r):
        vw = View(ex, this, args, s)
        h = ex.heap(s, STR)
        return LV(h, (("h", vw.o("mVal", "str"), ex.roots[h]),), STR)


CONTRACTS = [Ctor(), Reset(), Dtor(), SetUndef(), SetNull(), SetInt(), SetDouble(), SetString(), CopyCtor(), Assign(), SelfAssign(), Eq(), Ne(), Type(), GetInt(), GetDouble(), GetString()]
