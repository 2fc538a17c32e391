"""Bounded checks of the whole C API: inputs stay as they are, temporary files go away, every failure is reported."""
import os, shutil, sqlite3, itertools
from . import fmt, gen
from .fmt import hx
from .p_sqlite import content, diff_content, q

EMPTY = b""


def simple_db(c, name, tabs, r=None, change=0, src=None):
    """a database suitable for rebasing: {table: {id: [values]}}"""
    p = c.path(name)
    for s in ("", "-journal", "-wal"):
        if os.path.exists(p + s): os.remove(p + s)
    db = sqlite3.connect(p, isolation_level=None)
    db.execute("begin")
    for n, rows in tabs.items():
        db.execute("create table %s (id integer primary key, a, b text, c real)" % q(n))
        for k, v in rows.items(): db.execute("insert into %s values (?,?,?,?)" % q(n), [k] + v)
    db.execute("commit"); db.close()
    return name


VALS = [None, 0, 1, -5, "x", "y", "a'b", b"\0\1", b"", "ž"]


def rrow(r): return [r.choice(VALS), r.choice([None, "t", "u", "long " * 30]), r.choice([None, .5, -1.25, 3.0])]


def rtabs(r): return {n: {k: rrow(r) for k in r.sample(range(1, 9), r.choice([0, 2, 5]))} for n in r.sample(["t", "a b", 'q"x', "simple", "z'"], r.choice([1, 2, 3]))}


def changed(r, tabs, prob=.5):
    out = {}
    for n, rows in tabs.items():
        d = {}
        for k, v in rows.items():
            x = r.random() / prob
            if x < .2: continue
            if x < .8:
                v = list(v); i = r.randrange(3); v[i] = rrow(r)[i]
            d[k] = v
        for k in range(20, 20 + r.choice([0, 0, 1, 3])): d[k] = rrow(r)
        out[n] = d
    return out


def snap(c):
    out = {}
    for root, ds, fs in os.walk(c.scratch):
        for f in fs:
            p = os.path.join(root, f)
            out[os.path.relpath(p, c.scratch)] = None if os.path.islink(p) else open(p, "rb").read()
    return out


class World:
    """one scratch folder with a base, their and our databases and changesets"""
    def __init__(self, c, i, r, ours=True, theirs=True):
        self.c = c
        base = rtabs(r)
        simple_db(c, "base", base)
        simple_db(c, "theirs", changed(r, base) if theirs else base)
        simple_db(c, "ours", changed(r, base) if ours else base)
        c.drv.batch(["api createChangeset base theirs cs_theirs", "api createChangeset base ours cs_ours"])
        c.put("garbage", b"this is not a changeset nor a database" * 40)
        c.put("empty", b"")
        d = c.get("cs_ours") or b""
        c.put("cut", d[:max(1, len(d) - 3)] if d else b"T\x02\x01")
        os.makedirs(c.path("dir/sub"), exist_ok=True)
        os.makedirs(c.path("tmpx"), exist_ok=True)
        self.files = snap(c)


def run_steps(c, steps, check_left=True):
    """steps: (command, outputs, judge(answer, before, after) -> message or None); each runs from the same files"""
    for cmd, outs, judge in steps:
        if c.out_of_time(): return
        before = snap(c)
        rr = c.drv.batch(["env TMPDIR %s/" % c.path("tmpx"), cmd])[1]
        after = snap(c)
        msg = None
        if not (rr.startswith("ok ") and rr[3:].lstrip("-").isdigit() or cmd.startswith("rebase") and rr.startswith(("ok ", "exc "))): msg = "answer " + rr[:400]
        for f in before:
            if f not in outs and msg is None and after.get(f, 0) != before[f]: msg = "%s was %s" % (f, "removed" if f not in after else "modified")
        for f in after:
            if f not in outs and f not in before and msg is None: msg = "the file %s was left behind" % f
        if msg is None: msg = judge(rr, before, after)
        c.count((cmd, [before.get(x) for x in ("base", "ours", "theirs")]), True, (cmd, rr))
        if msg: c.fail(msg[:400], cmd, files={k: v for k, v in before.items() if v is not None and len(v) < 200000}, expected="see the property", observed=(rr, msg))
        # put everything back
        restore(c, before, after)


def same_content(c, f, want_tabs=None, other=None):
    try:
        a = content(c.path(f)); b = content(c.path(other))
    except sqlite3.Error as e:
        return "unreadable: %s" % e
    return diff_content(a, b)


def c11(c):
    if not c.has("api changesCount -"): return
    r = c.rng
    copies(c)
    for i in range(12 * (1 + 6 * c.deep)):
        if c.out_of_time(): return
        for ours, theirs in ((True, False), (False, True), (True, True), (False, False)):
            World(c, i, r, ours, theirs)
            mine, their = c.get("cs_ours"), c.get("cs_theirs")
            inv = []

            def is_(f, want, what):
                return lambda rr, b, a: None if rr == "ok 0" and a.get(f) == want else "%s: answer %s, got %s" % (what, rr, (a.get(f) or b"none").hex()[:200])

            def ok(rr, b, a): return None if rr == "ok 0" else "answer " + rr
            def bad(rr, b, a): return None if rr != "ok 0" else "a failure was reported as success"
            trivial = None
            if not their: trivial = mine
            elif not mine: trivial = b""
            steps = []
            j = is_("out", trivial, "trivial rebase") if trivial is not None else ok
            steps.append(("api createRebasedChangeset base ours cs_theirs out conf", ("out", "conf"), j))
            steps.append(("api createRebasedChangesetEx sqlite - base cs_ours cs_theirs out conf", ("out", "conf"), j))
            if c.has("rebase -"): steps.append(("rebase cs_theirs out cs_ours", ("out",), lambda rr, b, a: None))
            steps.append(("api createChangeset base ours out", ("out",), is_("out", mine, "changeset")))
            steps.append(("api invertChangeset cs_ours out", ("out",), ok))
            steps.append(("api listChanges cs_ours out", ("out",), ok))
            steps.append(("api listChangesSummary cs_ours out", ("out",), ok))
            steps.append(("api hasChanges cs_ours", (), lambda rr, b, a: None if rr == "ok %d" % bool(mine) else "answer " + rr))
            steps.append(("api dumpData sqlite - ours out", ("out",), ok))
            steps.append(("api makeCopy sqlite - ours sqlite - out", ("out",), lambda rr, b, a: None))     # (needs the GeoPackage functions, absent here)

            def rebased_db(rr, b, a):
                if rr != "ok 0": return "answer " + rr
                if not their: return same_content(c, "ours", other="ours0")
                if not mine: return same_content(c, "ours", other="theirs")
                return None
            shutil.copy(c.path("ours"), c.path("ours0"))
            steps.append(("api rebase base theirs ours conf", ("ours", "conf"), rebased_db))
            steps.append(("api rebaseEx sqlite - base ours cs_theirs conf", ("ours", "conf"), rebased_db))
            for f in ("garbage", "missing", "cut", "dir"):
                steps.append(("api createRebasedChangeset base ours %s out conf" % f, ("out", "conf"), bad if mine and f != "cut" or f == "missing" else lambda rr, b, a: None))
                steps.append(("api createRebasedChangesetEx sqlite - base %s cs_theirs out conf" % f, ("out", "conf"), lambda rr, b, a: None))
                steps.append(("api rebase base %s ours conf" % f, ("conf",) , bad))
                steps.append(("api rebase %s theirs ours conf" % f, ("conf",), bad))
                steps.append(("api rebaseEx sqlite - base ours %s conf" % f, ("conf",), bad if f != "cut" else (lambda rr, b, a: None if rr != "ok 0" else "success from a malformed changeset")))
                steps.append(("api invertChangeset %s out" % f, ("out",), bad))
                steps.append(("api makeCopy sqlite - %s sqlite - out" % f, ("out",), bad))
            run_steps(c, steps)
            if ours and theirs and mine and their: consistency(c)


def consistency(c):
    """rebasing the database = applying theirs and then the rebased changeset"""
    shutil.copy(c.path("theirs"), c.path("w1")); shutil.copy(c.path("ours"), c.path("w2"))
    rr = c.drv.batch(["api createRebasedChangeset base ours cs_theirs w_out w_conf", "api applyChangeset w1 w_out", "api rebase base theirs w2 w_conf2"])
    d = same_content(c, "w2", other="w1") if rr == ["ok 0"] * 3 else str(rr)
    if c.get("w_conf") != c.get("w_conf2"): d = d or "conflict files differ"
    c.count(("consistency", c.get("ours"), c.get("theirs")), True)
    if d: c.fail("rebase differs from theirs + rebased changeset: " + d[:200], "api rebase base theirs ours conf", files={k: c.get(k) for k in ("base", "ours", "theirs")}, expected="the same content", observed=d)
    for f in ("w1", "w2", "w_out", "w_conf", "w_conf2"):
        if os.path.exists(c.path(f)): os.remove(c.path(f))


def copies(c):
    if not c.has("tmpfile nothere 0"): return
    r = c.rng
    cases = []
    for i in range(40 * (1 + 3 * c.deep)):
        data = r.choice([b"", b"\0", b"a", b"\xff" * 4096, bytes(r.randrange(256) for _ in range(r.choice([1, 100, 5000]))), b"\n\r\x1a" * 50, bytes(range(256)) * 900])
        c.put("src%d" % i, data)
        old = r.choice([None, b"", b"old contents that are longer" * 300])
        if old is not None: c.put("dst%d" % i, old)
        cases.append((i, data, old))
    for (i, data, old), rr in zip(cases, c.drv.batch(["filecopy dst%d src%d" % (i, i) for i, _, _ in cases])):
        c.count(("copy", data, old), bool(data))
        if rr != "ok done" or c.get("dst%d" % i) != data or c.get("src%d" % i) != data:
            c.fail("copying a file", "filecopy dst src", files=dict(src=data, **({"dst": old} if old is not None else {})), expected="the same bytes", observed=(rr, (c.get("dst%d" % i) or b"none").hex()[:200]))
    for a, b in (("nothere", "out1"), ("src0", "nodir/x")):
        rr = c.drv.one("filecopy %s %s" % (b, a))
        c.count(("copyfail", a, b), True)
        if not rr.startswith("exc "): c.fail("a copy that cannot be made is not reported", "filecopy %s %s" % (b, a), expected="exception", observed=rr)
    for m in "01":
        for k in (0, 1):
            if k: c.put("tf", b"was here")
            rr = c.drv.one("tmpfile tf " + m)
            c.count(("tmp", m, k), True)
            if rr != "ok gone" or c.get("tf") is not None: c.fail("a temporary file stays", "tmpfile tf " + m, expected="gone", observed=rr)
    for f in os.listdir(c.scratch):
        if f.startswith(("src", "dst", "out")): os.remove(c.path(f))


SIG = {"createChangeset": ["base", "ours", "out"], "createChangesetEx": ["sqlite", "?", "base", "ours", "out"], "invertChangeset": ["cs_ours", "out"],
       "createRebasedChangeset": ["base", "ours", "cs_theirs", "out", "conf"], "createRebasedChangesetEx": ["sqlite", "?", "base", "cs_ours", "cs_theirs", "out", "conf"],
       "rebase": ["base", "theirs", "ours", "conf"], "rebaseEx": ["sqlite", "?", "base", "ours", "cs_theirs", "conf"],
       "applyChangeset": ["base", "cs_ours"], "applyChangesetEx": ["sqlite", "?", "base", "cs_ours"], "hasChanges": ["cs_ours"], "changesCount": ["cs_ours"],
       "listChanges": ["cs_ours", "out"], "listChangesSummary": ["cs_ours", "out"], "makeCopy": ["sqlite", "?", "ours", "sqlite", "?", "out"], "dumpData": ["sqlite", "?", "ours", "out"]}
INOUT = {"rebase": "ours", "rebaseEx": "ours", "applyChangeset": "base", "applyChangesetEx": "base"}
DBS = ("base", "ours", "theirs")


def c15(c):
    if not c.has("api changesCount -"): return
    r = c.rng
    for i in range(2 * (1 + 4 * c.deep)):
        World(c, i, r)
        tries = 0
        while (not c.get("cs_ours") or not c.get("cs_theirs")) and tries < 20: World(c, i, r); tries += 1
        nulls(c)
        bad_paths(c)
        limits(c)
        if c.out_of_time(): return


def failure(rr, b, a): return None if rr.startswith("ok ") and rr not in ("ok 0",) else "the failure was reported as success: " + rr
def counterr(rr, b, a): return None if rr.startswith("ok -") else "the failure was not reported: " + rr


def cmdline(f, args, pre="api "): return pre + f + " " + " ".join("-" if a in ("?", None) else a for a in args)


def nulls(c):
    steps = []
    for f, sig in SIG.items():
        req = [k for k, a in enumerate(sig) if a != "?"]
        for n in range(1, len(req) + 1):
            for s in itertools.combinations(req, n):
                if n > 2 and n < len(req) and c.rng.random() < .7: continue
                args = [None if k in s else a for k, a in enumerate(sig)]
                steps.append((cmdline(f, args), (), counterr if f in ("hasChanges", "changesCount") else failure))
    # (no output may appear either: an operation that failed for a null argument has done nothing)
    run_steps(c, steps)


def bad_paths(c):
    steps = []
    outs = ("out", "conf")
    for f, sig in SIG.items():
        cnt = f in ("hasChanges", "changesCount")
        for k, a in enumerate(sig):
            if a == "sqlite": bads = ["nosuchdriver", "SQLITE"]
            elif a in DBS: bads = ["missing", "garbage", "dir", "missing/x"]
            elif a.startswith("cs_"): bads = ["missing", "dir", "missing/x"] + (["garbage", "cut"] if f != "hasChanges" else [])
            elif a == "out": bads = ["dir", "missing/x"]
            elif a == "conf": bads = ["dir", "missing/x"]
            else: continue
            for b in bads:
                args = list(sig); args[k] = b
                j = counterr if cnt else failure
                may = set(outs)
                if a == "conf": j = conf_judge
                if f == "createRebasedChangesetEx" and a in ("base", "sqlite"): j = lambda rr, b_, a_: None   # documented: base is not used yet
                if f == "rebase" and a == "conf" or f == "rebaseEx" and a == "conf": may.add("ours")
                if b == "cut": j = failure if not cnt else counterr
                io = INOUT.get(f)
                if io and a != "conf":
                    may.add(io); j = lambda rr, b_, a_, j=j, io=io: j(rr, b_, a_) or (same_db(c, io, b_) if io in a_ and not rr.startswith("ok 0") else None)
                steps.append((cmdline(f, args), tuple(may), j))
    os.path.islink(c.path("full")) or os.symlink("/dev/full", c.path("full"))
    for f in ("createChangeset", "createChangesetEx", "invertChangeset", "listChanges", "listChangesSummary", "dumpData"):
        steps.append((cmdline(f, ["full" if a == "out" else a for a in SIG[f]]), ("full",), failure))
    run_steps(c, steps)
    if os.path.lexists(c.path("full")): os.remove(c.path("full"))


def conf_judge(rr, b, a):
    # without conflicts nothing needs to be written
    return None


def limits(c):
    """no file can grow beyond a limit: either the failure is reported, or the outcome is the one without the limit"""
    for f, sig in SIG.items():
        if f in ("hasChanges", "changesCount", "makeCopy"): continue
        ref = {}
        before = snap(c)
        rr = c.drv.batch(["env TMPDIR %s/" % c.path("tmpx"), cmdline(f, sig)])[1]
        ref = snap(c)
        io = INOUT.get(f)
        refc = content(c.path(io)) if io else None
        if rr != "ok 0":
            c.fail("reference run", cmdline(f, sig), files={k: v for k, v in before.items() if v is not None}, expected="ok 0", observed=rr)
        restore(c, before, ref)
        sizes = [len(v) for k, v in ref.items() if v is not None and (k not in before or before[k] != v)]
        biggest = max(sizes + [0])
        for lim in sorted(set([0, 1, 10, biggest - 1, biggest // 2, 100, 4096, 8192])):
            if lim < 0: continue
            def judge(rr, b, a, f=f, io=io):
                if rr != "ok 0": return same_db(c, io, b) if io else None
                for k in ("out", "conf"):
                    if f == "makeCopy" and k == "out" and ref.get(k):
                        c.put("cmp", ref[k]); d = same_content(c, "out", other="cmp"); os.remove(c.path("cmp"))
                        if d: return "success with a wrong copy: " + d
                    elif a.get(k) != ref.get(k): return "success, but %s is not complete" % k
                if io:
                    try: d = diff_content(content(c.path(io)), refc)
                    except sqlite3.Error as e: d = str(e)
                    if d: return "success, but the database is not as without the fault: " + d
                return None
            run_steps(c, [(cmdline(f, sig, "lim %d " % lim), ("out", "conf", io, "out-journal", str(io) + "-journal"), judge)])
            if c.out_of_time(): return


def same_db(c, io, b):
    c.put("cmp", b[io])
    try: d = diff_content(content(c.path(io)), content(c.path("cmp")))
    except sqlite3.Error as e: d = "unreadable: %s" % e
    os.remove(c.path("cmp"))
    return "failure, but the database changed: " + d if d else None


def restore(c, before, after):
    for f in set(snap(c)) - set(before): os.remove(c.path(f))
    for f, d in before.items():
        if after.get(f, 0) != d and d is not None: c.put(f, d)
