"""C20: delivery of log messages.  Ghost log of the calls made through the callback pointer."""
from .common import *
from cppvc.models import CSTR

AI, ASt = z3.ArraySort(I, I), z3.ArraySort(I, Str)
LEVELS = dict(error=1, warn=2, info=3, debug=4)


def hook(ex, s, f, vs, e):
    """a call through a function pointer appends (pointer, level, text) to the ghost log"""
    p = ex.rv(s, f)
    lv = ex.rv(s, vs[0]); m = ex.rv(s, vs[1])
    ex.ob(s, "the callback called is not null", p != 0, e, "safety")
    cp = ex.T.cptr()
    n = s.store["g:calls"]
    s.store["g:cb"] = z3.Store(s.store["g:cb"], n, p)
    s.store["g:lv"] = z3.Store(s.store["g:lv"], n, lv)
    txt = z3.If(z3.Or(S.get(cp, 0, m), S.get(cp, 2, m) != 0), z3.StringVal("<no message pointer>"), S.get(cp, 1, m))
    s.store["g:txt"] = z3.Store(s.store["g:txt"], n, txt)
    s.store["g:calls"] = n + 1
    for g in ("cb", "lv", "txt", "calls"): s.wlog.add(("g:" + g, ()))
    return [(s, None)]


class Lg(Contract):
    outcomes = ("return",)
    ghosts = {"calls": I, "cb": AI, "lv": AI, "txt": ASt}

    def setup(self, ex, st):
        super().setup(ex, st)
        ex.fnptr_hook = hook
        r = "static:Logger"
        if r not in ex.roots: ex.roots[r] = ex.T.parse("Logger")
        if r not in st.store: st.store[r] = ex.fresh_ct("logger", ex.T.parse("Logger"), st)


def single(ex): return LV("static:Logger", (), ex.T.parse("Logger"))


class Log(Lg):
    """delivered exactly once when the level allows it and a callback is set, else not at all"""
    def gmodifies(self, v): return ["calls", "cb", "lv", "txt"]

    def message(self, v): return v.arg(0)

    def post(self, v):
        n0, n1 = v.ghost_old("calls"), v.ghost_new("calls")
        lvl = self.level(v)
        cb, mx = v.o("mLoggerCallback"), v.o("mMaxLogLevel")
        go = z3.And(cb != 0, lvl <= mx)
        st = lambda g, x: v.ghost_new(g) == z3.If(go, z3.Store(v.ghost_old(g), n0, x), v.ghost_old(g))
        return [("exactly once when the level allows it, otherwise not at all", n1 == z3.If(go, n0 + 1, n0)),
                ("to the registered callback", st("cb", cb)), ("with its level", st("lv", lvl)), ("with its text", st("txt", self.message(v)))]


class LogFn(Log):
    name, nargs = "Logger::log", 2
    def level(self, v): return v.arg(0)
    def message(self, v): return v.arg(1)


def mk(fn, sg=None):
    class C(Log):
        sig = sg
        label = "Logger::" + fn + (" (%s)" % sg if sg else "")
        name, nargs = "Logger::" + fn, 1
        def level(self, v): return iv(LEVELS[fn])
        def message(self, v): return CSTR(v.arg(0), iv(0)) if sg == "GeoDiffException" else v.arg(0)
    return C()


class SetCb(Lg):
    name, nargs = "Logger::setCallback", 1
    def modifies(self, v): return [v.fld("mLoggerCallback")]
    def post(self, v): return [("later messages go to the new callback", v.n("mLoggerCallback") == v.arg(0))]


class SetMax(Lg):
    name, nargs = "Logger::setMaxLogLevel", 1
    def modifies(self, v): return [v.fld("mMaxLogLevel")]
    def post(self, v): return [("later messages obey the new level", v.n("mMaxLogLevel") == v.arg(0))]


class GetMax(Lg):
    name, nargs = "Logger::maxLogLevel", 0
    def post(self, v): return [("the level", v.result == v.o("mMaxLogLevel"))]


class Instance(Lg):
    """one logger object for the whole program (a function-local static)"""
    name, nargs, trusted = "Logger::instance", 0, True
    def make_result(self, ex, s): return single(ex)


class ApiCb(Lg):
    name, nargs = "GEODIFF_setLoggerCallback", 1
    def modifies(self, v): return [v.fld("mLoggerCallback", base=single(v.ex))]
    def post(self, v): return [("the logger uses the new callback", v.new(v.fld("mLoggerCallback", base=single(v.ex))) == v.arg(0))]


class ApiMax(Lg):
    name, nargs = "GEODIFF_setMaximumLoggerLevel", 1
    def modifies(self, v): return [v.fld("mMaxLogLevel", base=single(v.ex))]
    def post(self, v): return [("the logger uses the new level", v.new(v.fld("mMaxLogLevel", base=single(v.ex))) == v.arg(0))]


CONTRACTS = [LogFn()] + [mk("error", "std::string"), mk("error", "GeoDiffException")] + [mk(f) for f in ("warn", "info", "debug")] + [SetCb(), SetMax(), GetMax(), Instance(), ApiCb(), ApiMax()]
