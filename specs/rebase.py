"""C08, C09, C10: rebasing.  Everything is stated for an arbitrary table name N and arbitrary keys K1, K2 (rigid constants:
what is proved about them holds for all of them), so that the folds over the changes stay quantifier free."""
from .common import *
from . import reader, writer, env
from .reader import tabfns
from .jsons import folds, Fold, rstate, entry_parts, OPI, OPU, OPD, NEXT, vec0, bufdata
from cppvc.models import veceq
from cppvc.solve import PAIR

N, K1, K2 = z3.Const("N_any", Str), z3.Int("K1_any"), z3.Int("K2_any")
KEYLIM = 2**30          # keys inserted by them are below (known finding otherwise: the next free key overflows)
BUFLIM = 2**29

KEYCOL = SpecFn("KEYCOL", AB, I, I, define=lambda a, n: z3.If(n <= 0, -1, z3.If(z3.Select(a, n - 1), n - 1, KEYCOL(a, n - 1))), facts=lambda app, a, n: [app >= -1, z3.Implies(n >= 0, app < n), z3.Implies(app >= 0, z3.Select(a, app))],
                doc="last key column among the first n columns, or -1")
PKCOUNT = SpecFn("PKCOUNT", AB, I, I, define=lambda a, n: z3.If(n <= 0, 0, PKCOUNT(a, n - 1) + z3.If(z3.Select(a, n - 1), 1, 0)), facts=lambda app, a, n: [app >= 0], doc="number of key columns among the first n")
PAIR["PKCOUNT"] = lambda x, y: [z3.Implies(z3.And(x.arg(0) == y.arg(0), x.arg(1) <= y.arg(1)), x <= y), z3.Implies(z3.And(x.arg(0) == y.arg(0), y.arg(1) <= x.arg(1)), y <= x)]   # lemma pkcount_mono (lemmas.py)
HASH = SpecFn("HASH", Str, I, I, define=lambda s, n: z3.If(n <= 0, 0, (33 * HASH(s, n - 1) + BYTE(s, n - 1)) % 2**32), facts=lambda app, s, n: [app >= 0, app < 2**32], doc="hash of the first n bytes")


def int32(x): return (x + 2**31) % 2**32 - 2**31


def keyval(pk, row): return z3.Select(vec(row)[0], KEYCOL(*vec(pk)))


FULL = [False]       # unfold the two functions below (only needed where a key is computed)


def _keyfn(name, sort, define, facts):
    def call(pk, row):
        f = z3.Function(name, pk.sort(), row.sort(), sort)
        REG[name] = lambda app: facts(app) + ([app == define(*app.children())] if FULL[0] else [])
        return f(pk, row)
    return call


def _keyok(pk, row):
    x = keyval(pk, row)
    return z3.And(PKCOUNT(*vec(pk)) == 1, z3.Or(V.is_VInt(x), V.is_VText(x)))


def _keyof(pk, row):
    x = keyval(pk, row)
    return z3.If(V.is_VInt(x), int32(V.vi(x)), int32(HASH(V.vt(x), z3.Length(V.vt(x)))))


keyok = _keyfn("KEYOK", B, _keyok, lambda app: [])
keyof = _keyfn("KEYOF", I, _keyof, lambda app: [app >= -2**31, app < 2**31])


class GetPk(Contract):
    name, nargs, outcomes = "get_primary_key", 3, ("return", "throw")
    key_args = True

    def begin(self, ex, st): FULL[0] = type(self) in (GetPk, GetPk1)

    def modifies(self, v): return [v.args[1], v.args[2]] if self.key_args else []

    def parts(self, v):
        e = v.args[0]
        op, ov, nv = entry_parts(v, e)
        p = v.old(v.fld("table", base=e))
        t = v.old(v.pointee(v.fld("table", base=e)))
        pk = S.get(t.sort(), v.ex.T.field_index("ChangesetTable", "primaryKeys")[0], t)
        return op, ov, nv, p, pk, z3.If(op == OPI, nv, ov)

    def pre(self, v):
        op, ov, nv, p, pk, row = self.parts(v)
        x = keyval(pk, row)
        return [("the change has a table", p != 0), ("known operation", z3.Or([op == k for k in OPS])), ("as many values as columns", vec(row)[1] == vec(pk)[1]), ("fewer than 2^31 columns", vec(pk)[1] < 2**31),
                ("texts shorter than 2 GB", z3.Implies(z3.And(KEYCOL(*vec(pk)) >= 0, V.is_VText(x)), z3.Length(V.vt(x)) < 2**31))]

    def guard(self, v, kind):
        op, ov, nv, p, pk, row = self.parts(v)
        return keyok(pk, row) if kind == "return" else z3.Not(keyok(pk, row))

    def post(self, v):
        if v.kind == "throw": return []
        op, ov, nv, p, pk, row = self.parts(v)
        return [("the key", v.new(v.args[1]) == keyof(pk, row)), ("the key column", v.new(v.args[2]) == KEYCOL(*vec(pk)))]

    def invs_for(self, L, v):
        op, ov, nv, p, pk, row = self.parts(v)
        ex = L.ex
        out = []
        x = keyval(pk, row)
        for i in L.ints:
            for b in L.ints:
                if b is i: continue
                out.append(("%s is the key column among the first %s" % (b, i), lambda q, i=i, b=b: z3.And(ex.load(q, b) == KEYCOL(vec(pk)[0], ex.load(q, i)), PKCOUNT(vec(pk)[0], ex.load(q, i)) <= 1, PKCOUNT(vec(pk)[0], ex.load(q, i) + 1) >= 0, (PKCOUNT(vec(pk)[0], ex.load(q, i)) == 0) == (ex.load(q, b) == -1))))
                out.append(("%s: hash of the first %s bytes" % (b, i), lambda q, i=i, b=b: z3.And(ex.load(q, i) >= 0, ex.load(q, b) == HASH(V.vt(x), ex.load(q, i)))))
        return out


class GetPk1(GetPk):
    name, nargs, key_args = "_get_primary_key", 1, False
    def post(self, v):
        if v.kind == "throw": return []
        op, ov, nv, p, pk, row = self.parts(v)
        return [("the key", v.result == keyof(pk, row))]



class MapV:
    """std::map or std::set term"""
    def __init__(self, t): self.t, self.so = t, t.sort()
    def has(self, k): return z3.Select(S.get(self.so, 0, self.t), k)
    def at(self, k): return z3.Select(S.get(self.so, 1, self.t), k)
    @property
    def dom(self): return S.get(self.so, 0, self.t)


def fget(ex, struct, name, t): return S.get(t.sort(), ex.T.field_index(struct, name)[0], t)


class Info:
    """what is known about the other side: per table, the inserted and deleted keys and the new values of updates"""
    def __init__(self, ex, t):
        self.ex, self.t = ex, t
        self.tabs = MapV(fget(ex, "DatabaseRebaseInfo", "tables", t))
    def tab(self, n): return self.tabs.has(n)
    def f(self, n, name): return MapV(fget(self.ex, "TableRebaseInfo", name, self.tabs.at(n)))
    def ins(self, n, k): return z3.And(self.tab(n), self.f(n, "inserted").has(k))
    def dele(self, n, k): return z3.And(self.tab(n), self.f(n, "deleted").has(k))
    def upd(self, n, k): return z3.And(self.tab(n), self.f(n, "updated").has(k))
    def new(self, n, k): return z3.If(self.upd(n, k), self.f(n, "updated").at(k), novals(self.ex))


def novals(ex): return z3.Const("no_patch", folds(ex).x.vv)


_rb = {}


def RB(ex):
    k = id(ex.T)
    if k in _rb: return _rb[k]
    y = folds(ex)
    x = y.x
    vv = x.vv
    def parts(e):
        q, t2, m, op, ov, nv, end, ok = e
        return t2, op, ov, nv, x.pks(t2), z3.If(op == OPI, nv, ov)
    def hit(e, op_, n, k):
        t2, op, ov, nv, pk, row = parts(e)
        return z3.And(op == op_, x.name(t2) == n, keyof(pk, row) == k)
    class R: pass
    r = R()
    r.y, r.x, r.parts, r.hit = y, x, parts, hit
    r.HAS = {o: y.rest("HAS_" + nm, B, lambda F, d, e, a, o=o: z3.Or(hit(e, o, a[0], a[1]), F(d, e[6], e[1], *a)), lambda *a: z3.BoolVal(False), Str, I) for o, nm in ((OPI, "INS"), (OPU, "UPD"), (OPD, "DEL"))}
    r.HASTAB = y.rest("HASTAB", B, lambda F, d, e, a: z3.Or(x.name(e[1]) == a[0], F(d, e[6], e[1], *a)), lambda *a: z3.BoolVal(False), Str)
    r.LASTUPD = y.rest("LASTUPD", vv, lambda F, d, e, a: F(d, e[6], e[1], a[0], a[1], z3.If(hit(e, OPU, a[0], a[1]), parts(e)[3], a[2])), lambda *a: a[2], Str, I, vv)
    r.KEYSOK = y.rest("KEYSOK", B, lambda F, d, e, a: z3.And(e[7], keyok(parts(e)[4], parts(e)[5]), F(d, e[6], e[1])), lambda *a: z3.BoolVal(True))
    _rb[k] = r
    return r


def old_state(v): return rstate(v, v.args[0], v.so)


class RFold(Fold):
    """a fold over the changes of a reader about an arbitrary table and arbitrary keys"""
    def begin(self, ex, st): FULL[0] = False
    opts = dict(lean=1)
    def limit(self): return BUFLIM
    def pre(self, v):
        p, d = bufdata(v.ex, v.so, v.args[0])
        return Fold.pre(self, v) + [("changeset shorter than 512 MB", z3.Length(d) < BUFLIM)]

    def base_invs(self, L, v):
        y, ex = folds(v.ex), L.ex
        d, o, t = old_state(v)
        cur = lambda q: rstate(v, v.args[0], q)
        return [("at most 65536 columns", lambda q: y.x.cols(cur(q)[2]) <= 65536), ("offset inside", lambda q: z3.And(cur(q)[1] >= 0, cur(q)[1] <= z3.Length(d)))]


class Parse(RFold):
    """theirs"""
    name, nargs = "_parse_old_changeset", 2
    def modifies(self, v): return Fold.modifies(self, v) + [v.args[1]]

    def guard(self, v, kind):
        ok = RB(v.ex).KEYSOK(*old_state(v))
        return ok if kind == "return" else z3.Not(ok)

    def collected(self, v, before, now, state, n, k):
        """what has been collected plus what the remaining changes add is what all changes add to what was there"""
        r = RB(v.ex)
        s0 = old_state(v)
        a, b = Info(v.ex, before), Info(v.ex, now)
        rest = (lambda F, *q: F(*state, *q)) if state else (lambda F, *q: z3.BoolVal(False))
        out = [z3.Or(g(b)(n, k), rest(F, n, k)) == z3.Or(g(a)(n, k), F(*s0, n, k)) for F, g in ((r.HAS[OPI], lambda i: i.ins), (r.HAS[OPD], lambda i: i.dele), (r.HAS[OPU], lambda i: i.upd))]
        out.append(z3.Or(b.tab(n), rest(r.HASTAB, n)) == z3.Or(a.tab(n), r.HASTAB(*s0, n)))
        out.append((r.LASTUPD(*state, n, k, b.new(n, k)) if state else b.new(n, k)) == r.LASTUPD(*s0, n, k, a.new(n, k)))
        return out
    LABELS = ("inserted keys", "deleted keys", "updated keys", "tables", "new values of the last update")

    def post(self, v):
        if v.kind == "throw": return []
        ks = (K1, K2) if v.calling else (K1,)
        out = [("succeeds", v.result == 0)]
        for k in ks: out += list(zip(self.LABELS, self.collected(v, v.arg(1), v.newarg(1), None, N, k)))
        return out

    def invs_for(self, L, v):
        r, ex = RB(v.ex), L.ex
        cur = lambda q: rstate(v, v.args[0], q)
        out = self.base_invs(L, v)
        out.append(("the remaining keys are fine exactly if all are", lambda q: r.KEYSOK(*cur(q)) == r.KEYSOK(*old_state(v))))
        for i, lab in enumerate(self.LABELS):
            out.append((lab, lambda q, i=i: self.collected(v, v.arg(1), ex.load(q, v.args[1]), cur(q), N, K1)[i]))
        return out


class Mapping:
    def __init__(self, ex, t):
        self.ex, self.t = ex, t
        self.ids = MapV(fget(ex, "RebaseMapping", "mapIds", t))
        self.un = MapV(fget(ex, "RebaseMapping", "unmappedInsertIds", t))
    def row(self, n): return MapV(self.ids.at(n))
    def M(self, n, k): return z3.And(self.ids.has(n), self.row(n).has(k))
    def V(self, n, k): return self.row(n).at(k)
    def re(self, n, k): return z3.And(self.M(n, k), self.V(n, k) != -1)        # gets a new key
    def U(self, n, k): return z3.And(self.un.has(n), MapV(self.un.at(n)).has(k))


class MapFn(Contract):
    def mp(self, v): return Mapping(v.ex, v.old(v.this))


class AddMapping(MapFn):
    name, nargs, outcomes = "RebaseMapping::addPkeyMapping", 3, ("return",)
    def modifies(self, v): return [v.fld("mapIds")]
    def post(self, v):
        m = self.mp(v)
        t, a, b = v.arg(0), v.arg(1), v.arg(2)
        inner = m.ids.at(t)
        isrt = inner.sort()
        d0 = v.ex.default_elem(v.fld("mapIds").ct.args[1])
        inner = z3.If(m.ids.has(t), inner, d0)
        idom, ival = S.get(isrt, 0, inner), S.get(isrt, 1, inner)
        new = mk(isrt, z3.Store(idom, a, z3.BoolVal(True)), z3.Store(ival, a, z3.If(z3.Select(idom, a), z3.Select(ival, a), b)))
        return [("the pair is added unless the key has one", v.n("mapIds") == mk(m.ids.so, z3.Store(m.ids.dom, t, z3.BoolVal(True)), z3.Store(S.get(m.ids.so, 1, m.ids.t), t, new)))]


class HasOld(MapFn):
    name, nargs, outcomes = "RebaseMapping::hasOldPkey", 2, ("return",)
    def post(self, v): return [("is there a new key", v.result == self.mp(v).M(v.arg(0), v.arg(1)))]


class GetNew(MapFn):
    name, nargs, outcomes = "RebaseMapping::getNewPkey", 2, ("return", "throw")
    def guard(self, v, kind):
        g = self.mp(v).M(v.arg(0), v.arg(1))
        return g if kind == "return" else z3.Not(g)
    def post(self, v): return [("the new key", v.result == self.mp(v).V(v.arg(0), v.arg(1)))] if v.kind == "return" else []


def enumf(dom, k=None):
    n = sname(dom.sort())
    ks = dom.sort().domain()
    return z3.Function("key_" + n, dom.sort(), I, ks), z3.Function("pos_" + n, dom.sort(), ks, I), z3.Function("card_" + n, dom.sort(), I)(dom)


def pos(m, k): return enumf(m.dom)[1](m.dom, k)


def base_key(info, n):
    """the first free key: one more than the largest key they inserted, at least 1"""
    dom = info.f(n, "inserted").dom
    mx = z3.Function("max_of_" + sname(dom.sort()), dom.sort(), I)(dom)
    return z3.If(mx < 0, 0, mx) + 1


def keys_small(info):
    n, k = z3.Const("qn", Str), z3.Int("qk")
    h = info.f(n, "inserted").has(k)
    return FA([n, k], z3.Implies(z3.And(info.tabs.has(n), h), k < KEYLIM), h)


def tomap(r, info, s, k):
    return z3.And(info.tab(N), z3.Or(z3.And(r.HAS[OPI](*s, N, k), info.ins(N, k)), z3.And(z3.Or(r.HAS[OPU](*s, N, k), r.HAS[OPD](*s, N, k)), info.dele(N, k))))


def unmap(r, info, s, k): return z3.And(info.tab(N), r.HAS[OPI](*s, N, k), z3.Not(info.ins(N, k)))


def some_maps_to(m, k):
    """some row gets the key k (or our changeset is odd: it has an insert of a key that it also updates or deletes)"""
    q = z3.Int("qx")
    return z3.Exists([q], z3.And(m.M(N, q), z3.Or(z3.And(m.V(N, q) == k, k != -1), z3.And(m.V(N, q) == -1, m.U(N, q)))))


def mapping_ok(r, info, m, s):
    """what rebasing needs of the new keys (s: our changes)"""
    gone = lambda k: z3.And(z3.Or(r.HAS[OPU](*s, N, k), r.HAS[OPD](*s, N, k)), info.dele(N, k))
    ins = lambda k: r.HAS[OPI](*s, N, k)
    return [("an inserted key that they inserted too gets a new one", z3.Implies(z3.And(info.tab(N), ins(K1), info.ins(N, K1)), m.M(N, K1))),
            ("a new key is larger than every key they inserted", z3.Implies(z3.And(m.re(N, K1), info.ins(N, K2)), m.V(N, K1) > K2)),
            ("new keys are distinct", z3.Implies(z3.And(m.re(N, K1), m.re(N, K2), m.V(N, K1) == m.V(N, K2)), K1 == K2)),
            ("no new key is the key of another insert", z3.Implies(z3.And(info.tab(N), ins(K1), z3.Not(m.M(N, K1)), m.re(N, K2)), m.V(N, K2) != K1)),
            ("only keys of colliding inserts change", z3.Implies(m.re(N, K1), z3.And(info.tab(N), ins(K1), z3.Or(info.ins(N, K1), some_maps_to(m, K1))))),
            ("only changes of rows that they deleted are dropped", z3.Implies(z3.And(m.M(N, K1), m.V(N, K1) == -1), z3.And(info.tab(N), gone(K1)))),
            ("updates and deletes of rows that they deleted are dropped", z3.Implies(z3.And(info.tab(N), gone(K1)), m.M(N, K1)))]


class Find(RFold):
    name, nargs = "_find_mapping_for_new_changeset", 3
    cost = 20
    def modifies(self, v): return Fold.modifies(self, v) + [v.args[2]]
    def info(self, v): return Info(v.ex, v.arg(1))

    def pre(self, v):
        m = Mapping(v.ex, v.arg(2))
        return RFold.pre(self, v) + [("their inserted keys are below 2^30", keys_small(self.info(v))), ("the mapping is empty", z3.And(m.ids.dom == z3.K(Str, z3.BoolVal(False)), m.un.dom == z3.K(Str, z3.BoolVal(False))))]

    def guard(self, v, kind): return folds(v.ex).ALLOK(*old_state(v)) if kind == "return" else None

    def post(self, v):
        if v.kind == "throw": return []
        r = RB(v.ex)
        return [("succeeds", v.result == 0)] + mapping_ok(r, self.info(v), Mapping(v.ex, v.newarg(2)), old_state(v))

    def invs_for(self, L, v):
        r, ex = RB(v.ex), L.ex
        info = self.info(v)
        D = z3.Length(old_state(v)[0])
        s0 = old_state(v)
        cur = lambda q: rstate(v, v.args[0], q)
        mp = lambda q: Mapping(ex, ex.load(q, v.args[2]))
        n, k, x = z3.Const("qn", Str), z3.Int("qk"), z3.Int("qx")
        loc = lambda p: [LV(rt, (), ct) for rt, ct in ex.roots.items() if rt in L.entry.store and p(ct) and not isinstance(L.entry.store[rt], LVRef)]
        free = loc(lambda c: c.kind == "map" and c.args[0].kind == "str" and c.args[1].kind == "int")
        if not free: return []
        free = free[0]
        fr = lambda q: MapV(ex.load(q, free))
        E = L.entry
        out = []
        inv = lambda nm, f: out.append((nm, f))
        idx = lambda q: ex.load(q, L.rl["idx"])
        W = [ex.roots[w[0]] for w in L.W]
        pairs = loc(lambda c: c.kind == "pair" and c.args[0].kind == "str" and c.args[1].kind == "set")
        sets = [l for l in L.others if l.ct.kind == "set"]
        ranges = lambda q: FA(k, z3.Implies(mp(q).re(N, k), z3.And(info.tab(N), fr(q).has(N), mp(q).V(N, k) >= base_key(info, N), mp(q).V(N, k) < fr(q).at(N))), mp(q).row(N).has(k), mp(q).V(N, k))
        inj = lambda q: z3.Implies(z3.And(mp(q).re(N, K1), mp(q).re(N, K2), mp(q).V(N, K1) == mp(q).V(N, K2)), K1 == K2)
        samefree = lambda q: FA(n, fr(q).has(n) == fr(E).has(n), fr(q).has(n))
        kept = lambda q: z3.And([z3.Implies(mp(E).M(N, K), z3.And(mp(q).M(N, K), mp(q).V(N, K) == mp(E).V(N, K))) for K in (K1, K2)])
        if L.rl is None:                         # our changes
            out += self.base_invs(L, v)
            y = folds(v.ex)
            inv("the remaining changes are complete exactly if all are", lambda q: y.ALLOK(*cur(q)) == y.ALLOK(*s0))
            inv("new keys are between the first free key and the next one", ranges)
            inv("new keys are distinct", inj)
            inv("mapped so far or still to be mapped", lambda q: z3.Or(mp(q).M(N, K1), tomap(r, info, cur(q), K1)) == tomap(r, info, s0, K1))
            inv("kept so far or still to be kept", lambda q: z3.Or(mp(q).U(N, K1), unmap(r, info, cur(q), K1)) == unmap(r, info, s0, K1))
            for nm, F in (("inserts", r.HAS[OPI]), ("updates", r.HAS[OPU]), ("deletes", r.HAS[OPD])): inv("the remaining %s are among all" % nm, lambda q, F=F: z3.Implies(F(*cur(q), N, K1), F(*s0, N, K1)))
            inv("dropped rows were deleted by them", lambda q: z3.Implies(z3.And(mp(q).M(N, K1), mp(q).V(N, K1) == -1), z3.And(info.dele(N, K1), z3.Or(r.HAS[OPU](*s0, N, K1), r.HAS[OPD](*s0, N, K1)))))
            inv("new keys are for inserts on both sides", lambda q: z3.Implies(mp(q).re(N, K1), z3.And(info.ins(N, K1), r.HAS[OPI](*s0, N, K1))))
            inv("new keys are for their keys", lambda q: FA(k, z3.Implies(mp(q).re(N, k), info.ins(N, k)), mp(q).row(N).has(k)))
            inv("kept keys are not theirs", lambda q: FA(k, z3.Implies(mp(q).U(N, k), z3.Not(info.ins(N, k))), MapV(mp(q).un.at(N)).has(k)))
            inv("tables with free keys", samefree)
            inv("free keys are bounded", lambda q: FA(n, z3.Implies(fr(q).has(n), fr(q).at(n) <= KEYLIM + cur(q)[1]), fr(q).at(n)))
            inv("free keys are at least 1", lambda q: FA(n, z3.Implies(fr(q).has(n), fr(q).at(n) >= 1), fr(q).at(n)))
            inv("the next free key grows", lambda q: fr(q).at(N) >= fr(E).at(N))
            inv("not too many kept keys", lambda q: FA(n, z3.Implies(mp(q).un.has(n), enumf(MapV(mp(q).un.at(n)).dom)[2] <= cur(q)[1]), mp(q).un.at(n)))
        elif L.rl["cont"].ct.kind == "map" and L.rl["cont"].ct.args[1].kind == "struct":       # their tables: first free key
            inv("first free key", lambda q: FA(n, z3.Implies(fr(q).has(n), z3.And(info.tab(n), fr(q).at(n) == base_key(info, n), fr(q).at(n) >= 1, fr(q).at(n) <= KEYLIM)), fr(q).has(n), fr(q).at(n)))
            for K in (K1, K2):
                inv("a first free key when they inserted %s" % K, lambda q, K=K: z3.Implies(z3.And(info.tab(N), pos(info.tabs, N) < idx(q), info.ins(N, K)), z3.And(fr(q).has(N), K < base_key(info, N))))
        elif L.rl["cont"].ct.kind == "map" and L.rl["cont"].ct.args[1].kind == "set":           # tables with kept keys
            un = mp(E).un
            inv("new keys are between the first free key and the next one", ranges)
            inv("new keys are distinct", inj)
            inv("nothing is lost", kept)
            inv("kept keys get new ones in order", lambda q: FA(k, z3.Implies(z3.And(mp(q).re(N, k), mp(q).U(N, k)), pos(un, N) < idx(q)), mp(q).row(N).has(k)))
            inv("only kept keys are added", lambda q: z3.Implies(z3.And(mp(q).M(N, K1), z3.Not(mp(E).M(N, K1))), z3.And(mp(q).U(N, K1), mp(q).V(N, K1) != -1, some_maps_to(mp(q), K1))))
            inv("kept keys are the same", lambda q: mp(q).un.t == un.t)
            inv("kept keys of the tables before do not collide", lambda q: z3.Implies(z3.And(un.has(N), pos(un, N) < idx(q), mp(q).U(N, K1), z3.Not(mp(q).M(N, K1)), mp(q).re(N, K2)), mp(q).V(N, K2) != K1))
            inv("tables with free keys", samefree)
            inv("free keys are bounded", lambda q: FA(n, z3.Implies(fr(q).has(n), fr(q).at(n) <= KEYLIM + D + z3.If(z3.And(un.has(n), pos(un, n) < idx(q)), D, 0)), fr(q).at(n)))
            inv("free keys are at least 1", lambda q: FA(n, z3.Implies(fr(q).has(n), fr(q).at(n) >= 1), fr(q).at(n)))
        elif pairs and sets:
            T = S.get(ex.load(E, pairs[0]).sort(), 0, ex.load(E, pairs[0]))
            mine = T == N
            used = lambda q, l: MapV(ex.load(q, l))
            for l in sets:
                if l.root == pairs[0].root: continue
                inv("used keys are new keys", lambda q, l=l: z3.Implies(mine, FA(x, z3.Implies(used(q, l).has(x), z3.And(fr(q).has(N), x >= base_key(info, N), x < fr(q).at(N))), used(q, l).has(x))))
                inv("a used key belongs to some row", lambda q, l=l: z3.Implies(z3.And(mine, used(q, l).has(K1)), some_maps_to(mp(q), K1)))
                if L.rl["cont"].ct.kind == "map":
                    ent = MapV(ex.load(E, L.rl["cont"]))
                    for K in (K1, K2): inv("the new keys before are used: %s" % K, lambda q, l=l, K=K: z3.Implies(z3.And(mine, mp(q).re(N, K), enumf(mp(q).row(N).dom)[1](mp(q).row(N).dom, K) < idx(q)), used(q, l).has(mp(q).V(N, K))))
                else:
                    pk = MapV(ex.load(E, L.rl["cont"]))
                    inv("kept keys before do not collide", lambda q, l=l: z3.Implies(z3.And(mine, pk.has(K1), pos(pk, K1) < idx(q), z3.Not(mp(q).M(N, K1))), z3.Not(used(q, l).has(K1))))
                    for K in (K1, K2): inv("new keys are used: %s" % K, lambda q, l=l, K=K: z3.Implies(z3.And(mine, mp(q).re(N, K)), used(q, l).has(mp(q).V(N, K))))
            if L.rl["cont"].ct.kind == "set":
                pk = MapV(ex.load(E, L.rl["cont"]))
                inv("new keys are between the first free key and the next one", ranges)
                inv("new keys are distinct", inj)
                inv("nothing is lost", kept)
                inv("kept keys get new ones in order", lambda q: z3.Implies(mine, FA(k, z3.Implies(z3.And(mp(q).re(N, k), pk.has(k)), pos(pk, k) < idx(q)), mp(q).row(N).has(k))))
                inv("other tables keep their keys", lambda q: z3.Implies(z3.Not(mine), z3.And(mp(q).row(N).t == mp(E).row(N).t, mp(q).ids.has(N) == mp(E).ids.has(N))))
                inv("only kept keys are added", lambda q: z3.Implies(z3.And(mp(q).M(N, K1), z3.Not(mp(E).M(N, K1))), z3.And(mine, pk.has(K1), mp(q).V(N, K1) != -1, some_maps_to(mp(q), K1))))
                inv("other tables stay", lambda q: z3.Implies(z3.Not(mine), z3.And([z3.And(mp(q).M(N, K) == mp(E).M(N, K), mp(q).V(N, K) == mp(E).V(N, K)) for K in (K1, K2)] + [fr(q).at(N) == fr(E).at(N)])))
                inv("tables with free keys", samefree)
                inv("free keys are bounded", lambda q: FA(n, fr(q).at(n) <= fr(E).at(n) + z3.If(n == T, idx(q), 0), fr(q).at(n)))
                inv("free keys grow", lambda q: FA(n, fr(q).at(n) >= fr(E).at(n), fr(q).at(n)))
        return out


# ---------------------------------------------------------------- rebasing one change
_rows = {}


def ROWS(ex):
    k = id(ex.T)
    if k in _rows: return _rows[k]
    x = tabfns(ex)
    vv, vb = x.vv, x.vb
    at = lambda a, i: z3.Select(vec(a)[0], i)

    def pointwise(f, like):
        def facts(app, *a):
            j = z3.Int("jr")
            return [vec(app)[1] == vec(like(*a))[1], FA(j, z3.Implies(z3.And(j >= 0, j < vec(app)[1]), at(app, j) == f(j, *a)), at(app, j))]
        return facts
    class R: pass
    r = R()
    r.at = at
    r.ins = lambda j, pk, nv, key, new: z3.If(z3.And(at(pk, j), new != key), V.VInt(new), at(nv, j))
    r.patched = lambda j, hp, p: z3.And(hp, z3.Not(V.is_VUndef(at(p, j))))
    r.dele = lambda j, pk, ov, hp, p: z3.If(z3.And(z3.Not(at(pk, j)), r.patched(j, hp, p)), at(p, j), at(ov, j))
    r.upd = lambda j, ov, hp, p: z3.If(r.patched(j, hp, p), at(p, j), at(ov, j))
    r.INSROW = SpecFn("INSROW", vb, vv, I, I, vv, facts=pointwise(r.ins, lambda pk, nv, *a: nv), doc="an inserted row with a new key (if it differs)")
    r.DELROW = SpecFn("DELROW", vb, vv, B, vv, vv, facts=pointwise(r.dele, lambda pk, ov, *a: ov), doc="old values of a delete: their new values where they changed a non-key column")
    r.UPDOLD = SpecFn("UPDOLD", vv, B, vv, vv, facts=pointwise(r.upd, lambda ov, *a: ov), doc="old values of an update: their new values where they changed the column")
    ci = ex.T.struct("ConflictItem")
    vi = ex.T.sort(ex.T.field_index("ConflictFeature", "mItems")[1])
    r.clash = lambda name, j, nv, hp, p: z3.And(r.patched(j, hp, p), z3.Not(V.is_VUndef(at(nv, j))), z3.Not(z3.And(name == slit("gpkg_contents"), j == 4)))
    def mkitem(*a):
        t = z3.Const("item0", ci)
        for n, val in zip(("mColumn", "mBase", "mTheirs", "mOurs"), a): t = S.upd(ci, ex.T.field_index("ConflictItem", n)[0], t, val)
        return z3.simplify(t)
    ct = ex.T.field_index("ConflictFeature", "mItems")[1]
    r.noitems = ex.default(None, ct)
    push = lambda w, t: mk(w.sort(), z3.Store(vec(w)[0], vec(w)[1], t), vec(w)[1] + 1)
    r.push = push
    def items(name, ov, nv, hp, p, n):
        j = n - 1
        prev = r.ITEMS(name, ov, nv, hp, p, j)
        return z3.If(n <= 0, r.noitems, z3.If(r.clash(name, j, nv, hp, p), push(prev, mkitem(j, at(ov, j), at(p, j), at(nv, j))), prev))
    r.ITEMS = SpecFn("ITEMS", Str, vv, vv, B, vv, I, vi, define=items, facts=lambda app, *a: [vec(app)[1] >= 0, z3.Implies(a[5] >= 0, vec(app)[1] <= a[5])], doc="conflicting columns among the first n: column, base value, their value, our value")
    def mkconf(key, name, its):
        cf = ex.T.struct("ConflictFeature")
        t = z3.Const("conf0", cf)
        for n, val in (("mPk", key), ("mTableName", name), ("mItems", its)): t = S.upd(cf, ex.T.field_index("ConflictFeature", n)[0], t, val)
        return t
    r.mkconf = mkconf
    _rows[k] = r
    return r


def SHORT(ex):
    x = tabfns(ex)
    f = z3.Function("SHORT", x.vv, B)
    REG["SHORT"] = lambda app: [app == writer.fits(*vec(app.arg(0)))]
    return f


def patch_of(ex, info_t, key):
    """(did they update the row, their new values)"""
    u = MapV(fget(ex, "TableRebaseInfo", "updated", info_t))
    return u.has(key), u.at(key)


class Handle(GetPk):
    """one of our changes to a table that they changed too"""
    outcomes = ("return", "throw")
    opts = dict(lean=1)
    out, op = None, None

    def mp(self, v): return Mapping(v.ex, v.arg(1))
    def outf(self, v, n): return v.fld(n, base=v.args[self.out])
    def name_of(self, v): return tabfns(v.ex).name(v.old(v.pointee(v.fld("table", base=v.args[0]))))
    def modifies(self, v): return [self.outf(v, n) for n in self.fields]

    def pre(self, v):
        op, ov, nv, p, pk, row = self.parts(v)
        return GetPk.pre(self, v) + [("the operation", op == self.op), ("at most 65536 columns", vec(pk)[1] <= 65536)]

    def key(self, v):
        op, ov, nv, p, pk, row = self.parts(v)
        return keyof(pk, row)
    def dropped(self, v):
        n, k = self.name_of(v), self.key(v)
        return z3.And(self.mp(v).M(n, k), self.mp(v).V(n, k) == -1)
    def patch(self, v): return patch_of(v.ex, v.arg(2), self.key(v))
    def sized(self, v):
        hp, p = self.patch(v)
        return z3.Or(self.dropped(v), z3.Not(hp), vec(p)[1] == vec(self.parts(v)[4])[1])

    def guard(self, v, kind):
        op, ov, nv, p, pk, row = self.parts(v)
        ok = z3.And(keyok(pk, row), self.sized(v))
        return ok if kind == "return" else z3.Not(ok)

    def row(self, v, cond, label, field, want, src, patch=None):
        """the row written: value by value, hence (callers use only this) the same encoding; short if its sources are"""
        have = v.new(self.outf(v, field))
        sh = SHORT(v.ex)
        # callers: the record as a term (a vector is determined by its values; this post is proved value by value)
        out = [(label, z3.Implies(cond, have == want if v.calling else veceq(have, want)))]
        short = z3.And(sh(src), z3.Implies(patch[0], sh(patch[1]))) if patch else sh(src)
        return out + [(label + " (short)", z3.Implies(z3.And(cond, short), sh(have)))]

    def vals(self, v, q, f): return v.ex.load(q, self.outf(v, f))

    def pointwise(self, L, v, field, f, src):
        ex = L.ex
        r = ROWS(ex)
        j = z3.Int("jr")
        out = []
        for i in L.ints:
            out.append(("%s before %s" % (field, i), lambda q, i=i: z3.And(vec(self.vals(v, q, field))[1] == vec(src)[1],
                        FA(j, z3.Implies(z3.And(j >= 0, j < ex.load(q, i)), r.at(self.vals(v, q, field), j) == f(j)), r.at(self.vals(v, q, field), j)))))
        return out


class HandleInsert(Handle):
    name, nargs, out, op, fields = "_handle_insert", 3, 2, OPI, ("op", "newValues")
    def sized(self, v): return z3.BoolVal(True)
    def newkey(self, v):
        n, k = self.name_of(v), self.key(v)
        return z3.If(self.mp(v).M(n, k), self.mp(v).V(n, k), k)
    def post(self, v):
        if v.kind == "throw": return []
        op, ov, nv, p, pk, row = self.parts(v)
        return [("kept", v.result == z3.BoolVal(True)), ("an insert", v.new(self.outf(v, "op")) == OPI),
                ] + self.row(v, z3.BoolVal(True), "the row with its new key", "newValues", ROWS(v.ex).INSROW(pk, nv, self.key(v), self.newkey(v)), nv)
    def invs_for(self, L, v):
        op, ov, nv, p, pk, row = self.parts(v)
        return self.pointwise(L, v, "newValues", lambda j: ROWS(v.ex).ins(j, pk, nv, self.key(v), self.newkey(v)), nv)


class HandleDelete(Handle):
    name, nargs, out, op, fields = "_handle_delete", 4, 3, OPD, ("op", "oldValues")
    def post(self, v):
        if v.kind == "throw": return []
        op, ov, nv, p, pk, row = self.parts(v)
        k = z3.Not(self.dropped(v))
        return [("kept unless they deleted the row", v.result == k), ("a delete", z3.Implies(k, v.new(self.outf(v, "op")) == OPD))] + self.row(v, k, "the row as they left it", "oldValues", ROWS(v.ex).DELROW(pk, ov, *self.patch(v)), ov, self.patch(v))
    def invs_for(self, L, v):
        op, ov, nv, p, pk, row = self.parts(v)
        return self.pointwise(L, v, "oldValues", lambda j: ROWS(v.ex).dele(j, pk, ov, *self.patch(v)), ov)


class HandleUpdate(Handle):
    name, nargs, out, op, fields = "_handle_update", 5, 3, OPU, ("op", "oldValues", "newValues")
    cost = 3
    def modifies(self, v): return Handle.modifies(self, v) + [v.args[4]]
    def pre(self, v):
        op, ov, nv, p, pk, row = self.parts(v)
        return Handle.pre(self, v) + [("as many new values as columns", vec(nv)[1] == vec(pk)[1])]
    def items(self, v, n):
        op, ov, nv, p, pk, row = self.parts(v)
        return ROWS(v.ex).ITEMS(self.name_of(v), ov, nv, *self.patch(v), n)
    def post(self, v):
        op, ov, nv, p, pk, row = self.parts(v)
        r = ROWS(v.ex)
        if v.kind == "throw": return [("no conflict is added", v.new(v.args[4]) == v.arg(4))]
        k = z3.Not(self.dropped(v))
        its = self.items(v, vec(pk)[1])
        before = v.arg(4)
        return [("kept unless they deleted the row", v.result == k), ("an update", z3.Implies(k, v.new(self.outf(v, "op")) == OPU)),
                ] + self.row(v, k, "the row as they left it", "oldValues", r.UPDOLD(ov, *self.patch(v)), ov, self.patch(v)) + self.row(v, k, "our new values", "newValues", nv, nv) + [
                ("a conflict exactly if a column was changed on both sides", v.new(v.args[4]) == z3.If(z3.And(k, vec(its)[1] > 0), r.push(before, r.mkconf(self.key(v), self.name_of(v), its)), before))]
    def invs_for(self, L, v):
        op, ov, nv, p, pk, row = self.parts(v)
        ex = L.ex
        out = self.pointwise(L, v, "oldValues", lambda j: ROWS(v.ex).upd(j, ov, *self.patch(v)), ov)
        cf = [LV(rt, (), ct) for rt, ct in ex.roots.items() if rt in L.entry.store and getattr(ct, "name", None) == "ConflictFeature"]
        for c in cf:
            for i in L.ints: out.append(("%s has the conflicts before %s" % (c, i), lambda q, c=c, i=i: ex.load(q, c) == ROWS(ex).mkconf(self.key(v), self.name_of(v), self.items(v, ex.load(q, i)))))
        return out


# ---------------------------------------------------------------- writing the rebased changeset
_out = {}


def OUT(ex):
    k = id(ex.T)
    if k in _out: return _out[k]
    rb, rows = RB(ex), ROWS(ex)
    y, x = rb.y, rb.x
    vv = x.vv
    es = ex.T.struct("ChangesetEntry")
    ef = lambda n, t: S.get(es, ex.T.field_index("ChangesetEntry", n)[0], t)
    class R: pass
    r = R()
    r.ef = ef
    enc = lambda w: ROWENC(*vec(w))
    rec = lambda op, ov, nv: concat(chr1(op), slit("\0"), z3.If(op == OPI, slit(""), enc(ov)), z3.If(op == OPD, slit(""), enc(nv)))
    r.ENTENC = lambda e: rec(ef("op", e), ef("oldValues", e), ef("newValues", e))
    ae = z3.ArraySort(I, es)
    r.ENCV = SpecFn("ENCV", ae, I, Str, define=lambda a, n: z3.If(n <= 0, slit(""), z3.Concat(r.ENCV(a, n - 1), r.ENTENC(z3.Select(a, n - 1)))), doc="encodings of the first n changes of a list")
    ext("ENCV", lambda t: t.children())          # lemma ext_encv
    r.SHORT = SHORT(ex)       # texts and blobs shorter than 2 GB
    si, sm = ex.T.struct("DatabaseRebaseInfo"), ex.T.struct("RebaseMapping")
    r.si, r.sm = si, sm

    def facts_of(e, info_t, map_t):
        t2, op, ov, nv, pk, row = rb.parts(e)
        info, mp = Info(ex, info_t), Mapping(ex, map_t)
        n = x.name(t2)
        key = keyof(pk, row)
        tab = info.tabs.at(n)
        hp, p = patch_of(ex, tab, key)
        dropped = z3.And(mp.M(n, key), mp.V(n, key) == -1)
        newkey = z3.If(mp.M(n, key), mp.V(n, key), key)
        return t2, op, ov, nv, pk, n, key, info, hp, p, dropped, newkey

    # list of written records (the encoding of the list is the concatenation of the encodings, ENCL)
    lg = z3.Datatype("Records")
    lg.declare("none"); lg.declare("ins", ("ihead", lg), ("inew", vv)); lg.declare("del", ("dhead", lg), ("dold", vv)); lg.declare("upd", ("uhead", lg), ("uold", vv), ("unew", vv))
    lg = lg.create()
    r.lg, r.none, r.mins, r.mdel, r.mupd = lg, lg.none, lg.ins, lg.constructor(2), lg.upd
    record = lambda l, op, ov, nv: z3.If(op == OPI, r.mins(l, nv), z3.If(op == OPD, r.mdel(l, ov), r.mupd(l, ov, nv)))
    r.LIST = SpecFn("RECORDS", ae, I, lg, define=lambda a, n: z3.If(n <= 0, r.none, record(r.LIST(a, n - 1), *[ef(f, z3.Select(a, n - 1)) for f in ("op", "oldValues", "newValues")])), doc="the records of the first n changes of a list")
    r.SHORTL = SpecFn("SHORTL", lg, B, define=lambda l: z3.And(z3.Implies(lg.is_ins(l), z3.And(r.SHORTL(lg.ihead(l)), r.SHORT(lg.inew(l)))), z3.Implies(lg.recognizer(2)(l), z3.And(r.SHORTL(lg.dhead(l)), r.SHORT(lg.dold(l)))), z3.Implies(lg.is_upd(l), z3.And(r.SHORTL(lg.uhead(l)), r.SHORT(lg.uold(l)), r.SHORT(lg.unew(l))))), doc="texts and blobs of the records are shorter than 2 GB")
    ext("RECORDS", lambda t: t.children())          # lemma ext_encv
    pe = PAIR["RECORDS"]
    def pair(p, q):          # lemma short_prefix
        sh = lambda p, q: z3.Implies(z3.And(p.arg(0) == q.arg(0), p.arg(1) <= q.arg(1), r.SHORTL(q)), r.SHORTL(p))
        return pe(p, q) + [sh(p, q), sh(q, p)]
    PAIR["RECORDS"] = pair

    def change(e, l, info_t, map_t):
        """the records with the one written for our change (if any)"""
        t2, op, ov, nv, pk, n, key, info, hp, p, dropped, newkey = facts_of(e, info_t, map_t)
        adj = z3.If(op == OPI, r.mins(l, rows.INSROW(pk, nv, key, newkey)), z3.If(dropped, l, z3.If(op == OPD, r.mdel(l, rows.DELROW(pk, ov, hp, p)), r.mupd(l, rows.UPDOLD(ov, hp, p), nv))))
        return z3.If(info.tab(n), adj, record(l, op, ov, nv))

    def conf(e, acc, info_t, map_t):
        t2, op, ov, nv, pk, n, key, info, hp, p, dropped, newkey = facts_of(e, info_t, map_t)
        its = rows.ITEMS(n, ov, nv, hp, p, vec(pk)[1])
        return z3.If(z3.And(info.tab(n), op == OPU, z3.Not(dropped), vec(its)[1] > 0), rows.push(acc, rows.mkconf(key, n, its)), acc)
    r.CHENC = y.rest("CHRECS", lg, lambda F, d, e, a: F(d, e[6], e[1], z3.If(x.name(e[1]) == a[1], change(e, a[0], a[2], a[3]), a[0]), *a[1:]), lambda *a: a[0], lg, Str, si, sm)
    vc = ex.T.sort(ex.T.parse("std::vector<ConflictFeature>"))
    r.CONFS = y.rest("CONFS", vc, lambda F, d, e, a: F(d, e[6], e[1], conf(e, *a), a[1], a[2]), lambda *a: a[0], vc, si, sm)
    notab = z3.Const("no_table", x.ts)
    r.FIRST = y.rest("FIRSTTAB", x.ts, lambda F, d, e, a: z3.If(x.name(e[1]) == a[0], e[1], F(d, e[6], e[1], *a)), lambda *a: notab, Str)

    def text(D, C):
        """the whole output: per table its header and its changes"""
        if not hasattr(r, "CATF"):
            key = enumf(MapV(D).dom)[0]
            def d(D, C, n):
                k = key(MapV(D).dom, n - 1)
                t = MapV(D).at(k)
                pa, pn = vec(x.pks(t))
                return z3.If(n <= 0, slit(""), z3.Concat(r.CATF(D, C, n - 1), z3.Concat(concat(slit("T"), VARINT(pn), PKENC(pa, pn), x.name(t), slit("\0")), r.ENCOF(C, k))))
            r.CATF = SpecFn("CATF", D.sort(), C.sort(), I, Str, define=d, doc="headers and changes of the first n tables")
        return r.CATF
    r.text = text
    r.LISTOF = lambda C, k: z3.If(MapV(C).has(k), r.LIST(*vec(MapV(C).at(k))), r.none)
    r.ENCOF = lambda C, k: z3.If(MapV(C).has(k), r.ENCV(*vec(MapV(C).at(k))), slit(""))
    _out[k] = r
    return r


class WriterOpen(Contract):
    """opens (and empties) a file"""
    name, nargs, trusted, outcomes, ghosts = "ChangesetWriter::open", 1, True, ("return",), dict(env.GH, w_name=Str)
    def modifies(self, v): return [v.fld("mFile")]
    def gmodifies(self, v): return ["fs_data", "fs_ok", "w_name"]
    def post(self, v):
        f = v.arg(0)
        ch = lambda g: v.ghost_new(g) == z3.Store(v.ghost_old(g), f, z3.Select(v.ghost_new(g), f))
        return [("", z3.Implies(v.result, v.n("mFile") == slit(""))), ("", v.ghost_new("w_name") == f), ("", ch("fs_data")), ("", ch("fs_ok"))]


class WriterClose(Contract):
    """the file has the bytes written, or an error is thrown"""
    name, nargs, trusted, outcomes, ghosts = "ChangesetWriter::close", 0, True, ("return", "throw"), dict(env.GH, w_name=Str)
    def gmodifies(self, v): return ["fs_data", "fs_ok"]
    def post(self, v):
        f = v.ghost_old("w_name")
        st = lambda g, t: v.ghost_new(g) == z3.Store(v.ghost_old(g), f, t)
        if v.kind == "throw": return [("", st("fs_data", z3.Select(v.ghost_new("fs_data"), f))), ("", st("fs_ok", z3.Select(v.ghost_new("fs_ok"), f)))]
        return [("", st("fs_data", v.o("mFile"))), ("", st("fs_ok", z3.BoolVal(True)))]


class Prepare(RFold):
    name, nargs, ghosts = "_prepare_new_changeset", 5, dict(env.GH, w_name=Str)
    opts = dict(lean=1, cvc5_inv=30000)
    cost = 15
    def modifies(self, v): return Fold.modifies(self, v) + [v.args[4]]
    def gmodifies(self, v): return ["fs_data", "fs_ok", "w_name"]
    def begin(self, ex, st):
        OUT(ex)
        FULL[0] = False
        PAIR.pop("ROWENC", None)
        for f in ("INSROW", "DELROW", "UPDOLD", "ITEMS"): REG[f] = lambda app: []      # not needed here
    def pre(self, v):
        r = OUT(v.ex)
        info = Info(v.ex, v.arg(3))
        n, k = z3.Const("qn", Str), z3.Int("qk")
        h = info.f(n, "updated")
        return RFold.pre(self, v) + [("their values are shorter than 2 GB", FA([n, k], z3.Implies(z3.And(info.tabs.has(n), h.has(k)), r.SHORT(h.at(k))), h.at(k)))]
    def guard(self, v, kind): return None

    def exact(self, v, D, C, confs, state):
        """what has been collected plus what the remaining changes add (state None: nothing)"""
        r, rb = OUT(v.ex), RB(v.ex)
        s0 = old_state(v)
        it, mt = v.arg(3), v.arg(2)
        D_, a = MapV(D), (N, it, mt)
        rest = lambda F, end, *q: F(*state, *q) if state else end
        return [("the changes of a table, in order", (r.CHENC(*state, r.LISTOF(C, N), *a) if state else r.LISTOF(C, N)) == r.CHENC(*s0, r.none, *a)),
                ("the tables", z3.Or(D_.has(N), rest(rb.HASTAB, z3.BoolVal(False), N)) == rb.HASTAB(*s0, N)),
                ("definition of a table", z3.Implies(rb.HASTAB(*s0, N), z3.If(D_.has(N), D_.at(N), rest(r.FIRST, D_.at(N), N)) == r.FIRST(*s0, N))),
                ("the conflicts", (r.CONFS(*state, confs, it, mt) if state else confs) == r.CONFS(*s0, v.arg(4), it, mt))]

    def locals_of(self, ex, q):
        """the maps of the function: table name -> definition, table name -> changes"""
        D = C = None
        for rt, t in q.store.items():
            ct = ex.roots.get(rt)
            if getattr(ct, "kind", None) != "map" or not z3.is_expr(t): continue
            if ct.args[1].name == "ChangesetTable": D = LV(rt, (), ct)
            if ct.args[1].kind == "vec" and ct.args[1].args[0].name == "ChangesetEntry": C = LV(rt, (), ct)
        return D, C

    def post(self, v):
        f = v.arg(1)
        ch = lambda g: v.ghost_new(g) == z3.Store(v.ghost_old(g), f, z3.Select(v.ghost_new(g), f))
        out = [("only the output file changes", ch("fs_data")), ("only the output file appears", ch("fs_ok"))]
        if v.kind == "throw": return out
        ex, r = v.ex, OUT(v.ex)
        if v.calling:
            D, C = ex.fresh_ct("rebased_tables", ex.T.parse("std::map<std::string, ChangesetTable>"), v.sn), ex.fresh_ct("rebased_changes", ex.T.parse("std::map<std::string, std::vector<ChangesetEntry>>"), v.sn)
            ex.rebased = (D, C)
        else:
            D, C = self.locals_of(ex, v.sn)
            if D is None or C is None: return out + [("collects tables and changes", z3.BoolVal(False))]
            D, C = v.new(D), v.new(C)
        ok = v.result == 0
        card = enumf(MapV(D).dom)[2]
        out += [("returns success or failure", z3.Or(ok, v.result == 1))] + [(n, z3.Implies(ok, g)) for n, g in self.exact(v, D, C, v.newarg(4), None)]
        return out + [("the output has each table with its changes", z3.Implies(ok, z3.And(z3.Select(v.ghost_new("fs_ok"), f), z3.Select(v.ghost_new("fs_data"), f) == r.text(D, C)(D, C, card))))]

    def invs_for(self, L, v):
        ex, r = L.ex, OUT(v.ex)
        out = []
        cur = lambda q: rstate(v, v.args[0], q)
        D, C = self.locals_of(ex, L.entry)
        if D is None or C is None: return []
        n, j = z3.Const("qn", Str), z3.Int("qj")
        if L.rl is None:
            out += self.base_invs(L, v)
            get = lambda q: self.exact(v, ex.load(q, D), ex.load(q, C), ex.load(q, v.args[4]), cur(q))
            for i in range(4): out.append((get(L.entry)[i][0], lambda q, i=i: get(q)[i][1]))
            def short(q):
                c = MapV(ex.load(q, C))
                return FA(n, z3.Implies(c.has(n), r.SHORTL(r.LIST(*vec(c.at(n))))), c.at(n))
            out.append(("collected values are short", short))
            out.append(("names of collected changes have a definition", lambda q: FA(n, z3.Implies(MapV(ex.load(q, C)).has(n), MapV(ex.load(q, D)).has(n)), MapV(ex.load(q, C)).has(n))))
            out.append(("collected definitions", lambda q: FA(n, z3.Implies(MapV(ex.load(q, D)).has(n), vec(RB(ex).x.pks(MapV(ex.load(q, D)).at(n)))[1] <= 65536), MapV(ex.load(q, D)).at(n))))
        else:
            for st in L.strs:
                if L.rl["cont"].ct.kind == "map":
                    out.append(("%s has the tables before" % st, lambda q, st=st: ex.load(q, st) == concat(ex.load(L.entry, st), r.text(ex.load(q, D), ex.load(q, C))(ex.load(q, D), ex.load(q, C), ex.load(q, L.rl["idx"])))))
                else:
                    cont = ex.load(L.entry, ex.resolve(L.entry, L.rl["cont"]))
                    e = lambda q: z3.Select(vec(cont)[0], ex.load(q, L.rl["idx"]))
                    out.append(("%s has the changes before" % st, lambda q, st=st: ex.load(q, st) == concat(ex.load(L.entry, st), r.ENCV(vec(cont)[0], ex.load(q, L.rl["idx"])))))
                    out.append(("the changes are short", lambda q: z3.And(r.SHORTL(r.LIST(*vec(cont))), r.SHORTL(r.LIST(vec(cont)[0], ex.load(q, L.rl["idx"]))), r.SHORTL(r.LIST(vec(cont)[0], ex.load(q, L.rl["idx"]) + 1)) == r.SHORTL(r.LIST(vec(cont)[0], ex.load(q, L.rl["idx"]) + 1)))))
        return out


class DumpInfo(env.Quiet): name, nargs, ret = "DatabaseRebaseInfo::dump", 0, VOID
class DumpMap(env.Quiet): name, nargs, ret = "RebaseMapping::dump", 0, VOID


CONTRACTS = VARINTS + [c for c in writer.CONTRACTS if c.name in ('ChangesetWriter::writeEntry', 'ChangesetWriter::beginTable')] + [GetPk(), GetPk1(), Parse(), AddMapping(), HasOld(), GetNew(), Find(), HandleInsert(), HandleDelete(), HandleUpdate(), WriterOpen(), WriterClose(), Prepare(), NEXT, DumpInfo(), DumpMap()]
