"""Compiles the driver from /repo's current sources (objects cached by content)."""
import os, subprocess, hashlib, glob
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = os.environ.get("GEODIFF_SRC", "/repo/geodiff/src")
CACHE = os.path.join(ROOT, ".cache", "obj")
INC = ["-I" + SRC, "-I" + SRC + "/drivers", "-I" + SRC + "/3rdparty", "-I" + ROOT + "/stubs", "-I/usr/include/postgresql", "-I" + ROOT + "/harness"]
DEFS = ["-DSQLITE_CORE", "-DSQLITE_ENABLE_SESSION", "-DSQLITE_ENABLE_PREUPDATE_HOOK", "-DGEODIFF_STATIC"]
FLAGS = ["-std=c++14", "-O1", "-g1", "-w", "-fsanitize=address,undefined", "-fno-sanitize=enum", "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer"]
LIB = ["3rdparty/base64utils.cpp"]


def lib_sources():
    out = []
    for pat in ("*.cpp", "3rdparty/*.cpp", "drivers/*.cpp"):
        out += sorted(glob.glob(os.path.join(SRC, pat)))
    return [f for f in out if os.path.basename(f) != "geodiffinfo.cpp"]


def headers_hash():
    h = hashlib.sha256()
    for d in (SRC, SRC + "/drivers", SRC + "/3rdparty", ROOT + "/stubs", ROOT + "/harness"):
        for f in sorted(os.listdir(d)):
            if f.endswith((".h", ".hpp")):
                h.update(f.encode()); h.update(open(os.path.join(d, f), "rb").read())
    return h.hexdigest()


def compile_one(f, hh, extra=()):
    key = hashlib.sha256((hh + " ".join(FLAGS + DEFS + INC + list(extra)) + f).encode() + open(f, "rb").read()).hexdigest()[:32]
    o = os.path.join(CACHE, key + ".o")
    if not os.path.exists(o):
        os.makedirs(CACHE, exist_ok=True)
        tmp = o + ".%d" % os.getpid()
        p = subprocess.run(["g++"] + FLAGS + DEFS + INC + list(extra) + ["-c", f, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode:
            return None, p.stdout.decode(errors="replace")[-3000:]
        os.replace(tmp, o)
    return o, ""


def build(log=None):
    """returns (path of the driver or None, messages)"""
    hh = headers_hash()
    msgs = []
    hs = sorted(glob.glob(os.path.join(ROOT, "harness", "h_*.cpp")))
    ls = lib_sources()
    with ThreadPoolExecutor(8) as p:
        robs = list(p.map(lambda f: compile_one(f, hh), ls + hs))
    objs = []
    for f, (o, m) in zip(ls + hs, robs):
        if o is None:
            msgs.append("%s: does not compile: %s" % (os.path.basename(f), m))
            if f in ls: return None, msgs
        else:
            objs.append(o)
    key = hashlib.sha256(" ".join(objs).encode()).hexdigest()[:32]
    exe = os.path.join(CACHE, key + ".exe")
    if not os.path.exists(exe):
        tmp = exe + ".%d" % os.getpid()
        p = subprocess.run(["g++"] + FLAGS + objs + ["-o", tmp, "-lsqlite3", "-ldl", "-lpthread"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode:
            # leave out sections that do not link
            bad = p.stdout.decode(errors="replace")
            msgs.append("link: " + bad[-3000:])
            good = [o for f, (o, m) in zip(ls + hs, robs) if o and (f in ls or os.path.basename(f) in ("h_main.cpp", "h_pqmock.cpp", "h_api.cpp"))]
            for f, (o, m) in zip(hs, robs[len(ls):]):
                if o is None or o in good: continue
                q = subprocess.run(["g++"] + FLAGS + good + [o] + ["-o", tmp, "-lsqlite3", "-ldl", "-lpthread"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                if q.returncode == 0: good.append(o)
            q = subprocess.run(["g++"] + FLAGS + good + ["-o", tmp, "-lsqlite3", "-ldl", "-lpthread"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if q.returncode: return None, msgs
        os.replace(tmp, exe)
    return exe, msgs


if __name__ == "__main__":
    print(build())
