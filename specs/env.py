"""Assumed contracts on the environment: log, files (ghost file system), shared by the API level specifications."""
from .common import *
from cppvc.models import CSTR

FSO = z3.ArraySort(Str, B)
FSD = z3.ArraySort(Str, Str)
GH = {"fs_ok": FSO, "fs_data": FSD}        # file readable; its bytes


def cstr(p):
    srt = p.sort()
    return CSTR(S.get(srt, 1, p), S.get(srt, 2, p))


class Quiet(Contract):
    """has no effect that the properties talk about"""
    trusted, outcomes = True, ("return",)


class Warn(Quiet): name, nargs = "Logger::warn", 1
class Info(Quiet): name, nargs = "Logger::info", 1
class Debug(Quiet): name, nargs = "Logger::debug", 1
class ErrorS(Quiet): name, nargs, ret = "Logger::error", 1, VOID
class Instance(Quiet): name, nargs = "Logger::instance", 0


LOG = [Warn(), Info(), Debug(), ErrorS(), Instance()]


class BufferRead(Contract):
    """reads a whole file (bounded check: harness); throws if it cannot be opened or is larger than INT_MAX"""
    name, nargs, trusted, outcomes, ghosts = "Buffer::read", 1, True, ("return", "throw"), GH
    def modifies(self, v): return [v.this]
    def guard(self, v, kind):
        f = v.arg(0)
        ok = z3.And(z3.Select(v.ghost_old("fs_ok"), f), z3.Length(z3.Select(v.ghost_old("fs_data"), f)) < 2**31)
        return ok if kind == "return" else z3.Not(ok)
    def post(self, v):
        if v.kind == "throw": return []
        return [("", BUF().b_data(v.new(v.this)) == z3.Select(v.ghost_old("fs_data"), v.arg(0)))]


class FlushString(Contract):
    """replaces the content of a file, or throws"""
    name, nargs, trusted, outcomes, ghosts = "flushString", 2, True, ("return", "throw"), GH
    def gmodifies(self, v): return ["fs_data", "fs_ok"]
    def post(self, v):
        f = v.arg(0)
        if v.kind == "throw":
            x = z3.Const("left_behind", Str)
            return [("", v.ghost_new("fs_data") == z3.Store(v.ghost_old("fs_data"), f, z3.Select(v.ghost_new("fs_data"), f)))]
        return [("", v.ghost_new("fs_data") == z3.Store(v.ghost_old("fs_data"), f, v.arg(1))), ("", v.ghost_new("fs_ok") == z3.Store(v.ghost_old("fs_ok"), f, z3.BoolVal(True)))]
