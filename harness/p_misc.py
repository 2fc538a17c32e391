"""C16 codecs, C18 values, C19 schema conversion, C20 logger, C22 helpers."""
import base64, json, os
from . import fmt, gen
from .fmt import hx, sv


def bytes_cases(c, n=200, maxlen=300):
    out = [b"", bytes(range(256)), b"\0", b"\xff", b"\0\0", b"\xff\xfe\xfd", b"a" * 1000]
    out += [bytes([b]) for b in range(256)]
    for k in range(0, 40): out.append(bytes(c.rng.randrange(256) for _ in range(k)))
    for _ in range(n * (1 + 6 * c.deep)): out.append(bytes(c.rng.randrange(256) for _ in range(c.rng.randint(0, maxlen))))
    return out


def expect(c, what, pairs):
    """pairs: (command, expected answer)"""
    for (k, e), r in zip(pairs, c.drv.batch([k for k, _ in pairs])):
        c.count(k, len(k) > 12, k[:80] + " -> " + r[:80])
        if r != "ok " + e: c.fail(what, k, expected=e, observed=r)


def c16(c):
    if not c.has("hexenc x"): return
    bs = bytes_cases(c)
    expect(c, "hex encoding", [("hexenc " + hx(b), hx(b.hex().upper().encode())) for b in bs])
    expect(c, "hex decoding (upper case)", [("hexdec " + hx(b.hex().upper().encode()), hx(b)) for b in bs])
    expect(c, "hex decoding (lower case)", [("hexdec " + hx(b.hex().encode()), hx(b)) for b in bs])
    mix = [(b, "".join(ch.upper() if c.rng.random() < .5 else ch for ch in b.hex())) for b in bs]
    expect(c, "hex decoding (mixed case)", [("hexdec " + hx(t.encode()), hx(b)) for b, t in mix])
    expect(c, "base64 encoding", [("b64enc " + hx(b), hx(base64.b64encode(b))) for b in bs])
    expect(c, "base64 decoding", [("b64dec " + hx(base64.b64encode(b)), hx(b)) for b in bs])


def c22(c):
    if not c.has("replace x x61 x"): return
    r = c.rng
    def text(al, n): return "".join(r.choice(al) for _ in range(r.randint(0, n))).encode()
    ps = []
    for _ in range(500 * (1 + 6 * c.deep)):
        al = r.choice(["ab", "a", "abc", "a'\"\\"])
        s, sub, rep = text(al, 14), text(al, 3) or b"a", text(al, 4)
        ps.append(("replace %s %s %s" % (hx(s), hx(sub), hx(rep)), hx(s.replace(sub, rep))))
    for s, sub, rep in [(b"'", b"'", b"''"), (b"''", b"'", b"''"), (b"aaaa", b"aa", b"a"), (b"", b"a", b"b"), (b"xyz", b"xyz", b""), (b"aXbX", b"X", b"XX"), (b"ab", b"abc", b"x"), (b"a\0b\0", b"\0", b"00")]:
        ps.append(("replace %s %s %s" % (hx(s), hx(sub), hx(rep)), hx(s.replace(sub, rep))))
    expect(c, "substring replacement", ps)
    ps = []
    for _ in range(300):
        s, p = text("ab", 6), text("ab", 4)
        if r.random() < .4: s = p + s
        ps.append(("startswith %s %s" % (hx(s), hx(p)), "1" if s.startswith(p) else "0"))
    for s, p in [(b"", b""), (b"", b"a"), (b"a", b""), (b"ab", b"abc"), (b"\0a", b"\0"), (b"xgpkg_", b"gpkg_")]:
        ps.append(("startswith %s %s" % (hx(s), hx(p)), "1" if s.startswith(p) else "0"))
    expect(c, "prefix test", ps)
    al = bytes(x for x in range(256))
    expect(c, "lower-casing", [("lower " + hx(bytes([x])), hx(bytes([x + 32 if 65 <= x <= 90 else x]))) for x in al] +
           [("lower " + hx(b), hx(bytes(x + 32 if 65 <= x <= 90 else x for x in b))) for b in bytes_cases(c, 60)])
    names = [b"gpkg_", b"gpkg_contents", b"gpkg", b"GPKG_x", b"rtree_", b"rtree_a_b", b"rtre", b"sqlite_sequence", b"sqlite_sequence2", b"sqlite_", b"my_gpkg_", b"agpkg_x", b"a_rtree_b", b"", b"simple", b"Sqlite_sequence", b"xsqlite_sequence", b"rtree", b"gpkgx", b" gpkg_a", b"sqlite_stat1", b"gpkg-x"]
    expect(c, "layer table test", [("layer " + hx(n), "0" if n.startswith((b"gpkg_", b"rtree_")) or n == b"sqlite_sequence" else "1") for n in names])
    ps, pj = [], []
    for _ in range(300):
        l = [text("ab", 2) for _ in range(r.randint(0, 6))]
        x = text("ab", 2)
        ps.append(("indexof %s %s" % (hx(x), " ".join(hx(y) for y in l)), str(l.index(x) if x in l else -1)))
        pj.append(("concatnames " + " ".join(hx(y) for y in l), hx(b", ".join(l))))
    expect(c, "list search", ps)
    expect(c, "list joining", pj)


# ---------------------------------------------------------------- C18
def c18(c):
    if not c.has("val S 0"): return
    r = c.rng
    vals = [("u",), ("n",)] + [("i", x) for x in gen.EDGE_INTS] + [("d", gen.dbits(x)) for x in gen.EDGE_DBL] + \
           [("t", b""), ("t", b"a"), ("t", b"ab"), ("t", b"a\0b"), ("t", b"a\0c"), ("t", b"\0"), ("t", b"\0\0"), ("b", b""), ("b", b"a"), ("b", b"a\0b"), ("b", b"\0"), ("b", bytes(range(256))), ("t", b"x" * 5000),
            ("i", 0x4045000000000000), ("d", 0x4045000000000000), ("d", 42), ("i", 3), ("t", b"3")]
    def same(a, b):
        if a[0] != b[0]: return False
        if a[0] == "d":
            import struct
            f = lambda x: struct.unpack(">d", struct.pack(">Q", x))[0]
            return f(a[1]) == f(b[1])
        return a == b
    cmds, exps = [], []
    # all pairs: equality; overwriting one kind by another; copies and self-assignment
    for a in vals:
        cmds.append("val s 0 %s c 0 0 S 0 n 1 0 S 1 x 0 S 1 c 2 1 s 1 i7 S 2 S 1 n 3 2 q 3 2" % sv(a)); exps.append(" %s %s %s %s i7 1" % (sv(a), sv(a), sv(a), sv(a)))
        for b in vals:
            cmds.append("val s 0 %s s 1 %s q 0 1 q 1 0 c 2 0 s 2 %s S 2 S 0 c 1 0 S 1 q 0 1 s 1 u S 0 x 2 S 0" % (sv(a), sv(b), sv(b)))
            e = "1" if same(a, b) else "0"
            exps.append(" %s %s %s %s %s 1 %s %s" % (e, e, sv(b), sv(a), sv(a), sv(a), sv(a)))
    for _ in range(400 * (1 + 8 * c.deep)):
        st = [("u",)] * 4
        t, e = [], []
        for _ in range(r.randint(3, 25)):
            k = r.choice("ssccnxSSq")
            p, q = r.randrange(4), r.randrange(4)
            if k == "s": st[p] = r.choice(vals); t.append("s %d %s" % (p, sv(st[p])))
            elif k == "c": st[p] = st[q]; t.append("c %d %d" % (p, q))
            elif k == "n": st[p] = st[q]; t.append("n %d %d" % (p, q))
            elif k == "x": st[p] = ("u",); t.append("x %d" % p)
            elif k == "S": t.append("S %d" % p); e.append(sv(st[p]))
            else: t.append("q %d %d" % (p, q)); e.append("1" if same(st[p], st[q]) else "0")
        cmds.append("val " + " ".join(t)); exps.append("".join(" " + x for x in e))
    expect(c, "values", list(zip(cmds, exps)))


# ---------------------------------------------------------------- C19
def sch(t): return "%s %d %s %d %s %d" % (hx(t[0]), t[1], hx(t[2]), t[3], hx(t[4]), len(t[5])) + "".join(" %s %s %d %d %d %d %s %d %d %d" % (hx(x[0]), hx(x[1]), x[2], x[3], x[4], x[5], hx(x[6]), x[7], x[8], x[9]) for x in t[5])


def pgtype(x):
    name, ty, pk, nn, ai, geom, gt, srs, z, m = x
    t = ty.lower() if ty.isascii() else bytes(b + 32 if 65 <= b <= 90 else b for b in ty)
    if t in (b"int", b"integer", b"smallint", b"mediumint", b"bigint", b"tinyint"): r = b"integer"
    elif t in (b"double", b"real", b"double precision", b"float"): r = b"double precision"
    elif t in (b"bool", b"boolean"): r = b"boolean"
    elif t == b"text" or t.startswith((b"text(", b"varchar(")): r = b"text"
    elif t == b"blob": r = b"bytea"
    elif t == b"datetime": r = b"timestamp"
    elif geom: r = b"geometry(" + gt + (b"Z" if z else b"") + (b"M" if m else b"") + b", %d)" % srs
    else: r = b"text"
    return b"serial" if r == b"integer" and ai else r


TYPES = [b"int", b"integer", b"smallint", b"mediumint", b"bigint", b"tinyint", b"double", b"real", b"double precision", b"float", b"bool", b"boolean", b"text", b"text(20)", b"varchar(5)", b"varchar", b"blob", b"datetime", b"date", b"timestamp",
         b"point", b"geometry", b"linestring", b"", b"numeric", b"mytext", b"atext(5)", b"int8", b"unsigned big int", b"textx", b"character(20)", b"my varchar(3)", b"doubl", b"INT(3)", b"\xc3\x84", b"json", b"geometry(POINT, 4326)", b"geometry(", b"xgeometry(POINT, 1)", b"Geometry(POINT, 1)", b"bytea", b"serial"]


def rcase(r, t): return r.choice([t, t.upper(), t.title(), bytes(bytes([b]).upper()[0] if r.random() < .5 else b for b in t)])


def rcol(r, i):
    geom = r.random() < .3
    return [b"c%d" % i if r.random() < .8 else r.choice(gen.NAMES).encode(), rcase(r, r.choice(TYPES)), int(r.random() < .4), int(r.random() < .4), int(r.random() < .4), int(geom),
            r.choice([b"POINT", b"LINESTRING", b"MULTIPOLYGON", b"GEOMETRY", b"Point"]) if geom or r.random() < .1 else b"", r.choice([-1, 0, 4326, 5514, 2**31 - 1]), int(r.random() < .5), int(r.random() < .5)]


def rschema(r):
    return [r.choice(gen.NAMES).encode(), r.choice([0, 4326, -1]), r.choice([b"", b"EPSG"]), r.choice([0, 4326]), r.choice([b"", b"GEOGCS[\"x\"]"]), [rcol(r, i) for i in range(r.randint(0, 6))]]


def c19(c):
    r = c.rng
    if c.has("conv x x"): pass
    cases = []
    for t in TYPES:
        for case in (t, t.upper(), t.title()):
            for ai in (0, 1):
                for geom in (0, 1):
                    cases.append([b"t", 0, b"", 0, b"", [[b"fid", b"INTEGER", 1, 1, 1, 0, b"", -1, 0, 0], [b"c", case, 0, 0, ai, geom, b"POINT" if geom else b"", 4326, r.randrange(2), r.randrange(2)]]])
    cases += [rschema(r) for _ in range(300 * (1 + 6 * c.deep))]
    if c.has("conv"):
        ps, bad = [], []
        for t in cases:
            ps.append(("conv %s %s %s" % (hx(b"sqlite"), hx(b"postgres"), sch(t)), sch(t[:5] + [[[x[0], pgtype(x)] + x[2:] for x in t[5]]])))
            back = t[:5] + [[[x[0], x[6] if x[1].startswith(b"geometry(") else x[1]] + x[2:] for x in t[5]]]
            ps.append(("conv %s %s %s" % (hx(b"postgres"), hx(b"sqlite"), sch(t)), sch(back)))
            d = r.choice([b"sqlite", b"postgres", b"", b"oracle"])
            ps.append(("conv %s %s %s" % (hx(d), hx(d), sch(t)), sch(t)))
            a, b = r.choice([(b"sqlite", b"oracle"), (b"oracle", b"sqlite"), (b"postgres", b""), (b"", b"postgres"), (b"SQLITE", b"postgres"), (b"sqlite", b"sqlite3"), (b"postgres", b"mysql"), (b"mysql", b"postgres")])
            bad.append("conv %s %s %s" % (hx(a), hx(b), sch(t)))
        expect(c, "schema conversion", ps)
        for k, rr in zip(bad, c.drv.batch(bad)):
            c.count(k)
            if not rr.startswith("exc "): c.fail("conversion of an unknown kind must fail", k, expected="exception", observed=rr)


def c14_schema(c):
    """schema comparison and primary key helpers"""
    r = c.rng
    if not c.has("cteq"): return
    ps = []
    def add(x, y):
        e, cols, crs = x == y, x[5] == y[5], x[1:5] == y[1:5]
        b = lambda v: "1" if v else "0"
        ps.append(("cteq %s | %s" % (sch(x), sch(y)), b(e) + b(not e) + b(cols) + b(crs) + b(not crs)))
    import copy
    for _ in range(250):
        x = rschema(r)
        add(x, copy.deepcopy(x))
        y = copy.deepcopy(x)
        k = r.randrange(6)
        if k < 5: y[k] = y[k] + 1 if isinstance(y[k], int) else y[k] + b"x"
        elif y[5] and r.random() < .3: y[5].pop(r.randrange(len(y[5])))
        elif y[5]:
            col = r.choice(y[5]); j = r.randrange(10)
            col[j] = (1 - col[j] if j in (2, 3, 4, 5, 8, 9) else col[j] + 1) if isinstance(col[j], int) else col[j] + b"y"
        add(x, y); add(y, x)
        if len(x[5]) > 1:
            y = copy.deepcopy(x); y[5].reverse(); add(x, y)
    expect(c, "schema comparison", ps)
    ps = []
    for _ in range(150):
        x = rschema(r); n = r.choice(gen.NAMES).encode()
        g = [i for i, q in enumerate(x[5]) if q[5]]
        ps.append(("schtab %s %s" % (hx(n), sch(x)), "%s p%s %d %d" % (hx(n), "".join(str(q[2]) for q in x[5]), int(any(q[2] for q in x[5])), g[0] if g else -1)))
        nm = r.choice([q[0] for q in x[5]] + [b"nosuch"])
        w = [i for i, q in enumerate(x[5]) if q[0] == nm]
        ps.append(("colfromname %s %s" % (hx(nm), sch(x)), str(w[0] if w else -1)))
    expect(c, "schema helpers", ps)


# ---------------------------------------------------------------- C20
LV = {"e": 1, "w": 2, "i": 3, "d": 4, "X": 1}


def c20(c):
    if not c.has("log c0"): return
    r = c.rng
    cmds, exps = [], []
    def run(script):
        cb, lv = 0, 1
        t, e = ["c0", "l1"], [" |", " |"]
        for op in script:
            out = ""
            if op[0] == "c": cb = int(op[1])
            elif op[0] == "l": lv = int(op[1:])
            else:
                k, m = op
                if cb and LV[k] <= lv: out = " %d:%d:%s" % (cb, LV[k], hx(m))
                t += [k, hx(m)]; e.append(out + " |"); continue
            t.append(op); e.append(" |")
        cmds.append("log " + " ".join(t)); exps.append("".join(e))
    for l in range(5):
        for cb in "012":
            run(["c" + cb, "l%d" % l] + [(k, b"m" + k.encode()) for k in "ewidX"])
            run(["l%d" % l, "c" + cb] + [(k, b"") for k in "dXiwe"])
    msgs = [b"", b"a", b"hello world", b"100% sure %s %n", "žluť".encode(), b"x" * 3000, b"line\nbreak", b'"q"']
    for _ in range(200 * (1 + 6 * c.deep)):
        run([r.choice(["c0", "c1", "c2", "l0", "l1", "l2", "l3", "l4"]) if r.random() < .35 else (r.choice("ewidX"), r.choice(msgs)) for _ in range(r.randint(2, 20))])
    expect(c, "log messages", list(zip(cmds, exps)))
