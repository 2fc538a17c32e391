"""C01-C07: codec, writer, reader, invert, JSON, summary/count."""
import json, base64, struct
from . import fmt, gen
from .run import bad
from .fmt import INS, UPD, DEL


# ---------------------------------------------------------------- C01
def c01(c):
    vals = set()
    for b in range(65):
        for d in (-2, -1, 0, 1, 2):
            for m in (1, 3):
                x = (1 << b) * m + d
                if 0 <= x < 2**64: vals.add(x)
    for k in range(1, 10):
        for d in (-1, 0, 1):
            x = (1 << (7 * k)) + d
            if x < 2**64: vals.add(x)
    for _ in range(400 * (1 + 10 * c.deep)):
        vals.add(c.rng.getrandbits(c.rng.randint(1, 64)))
    vals = sorted(vals)
    if not c.has("putv"): return
    for cmd, vs in (("putv", vals), ("putv32", [v for v in vals if v < 2**32])):
        for v, r in zip(vs, c.drv.batch(["%s %d" % (cmd, v) for v in vs])):
            e = fmt.varint(v)
            c.count((cmd, v), v > 127, "%s %d" % (cmd, v))
            if r != "ok %d %s" % (len(e), fmt.hx(e)):
                c.fail("encoding of %d" % v, "%s %d" % (cmd, v), expected="%d %s" % (len(e), fmt.hx(e)), observed=r)
    for suffix in (b"", b"\x00", b"\xff\x80\x01"):
        encs = [(v, fmt.varint(v)) for v in vals]
        # non-canonical encodings decode too
        for v in (0, 5, 300):
            for pad in range(1, 8 - len(fmt.varint(v))):
                encs.append((v, b"\x80" * pad + fmt.varint(v)))
        for cmd in ("getv", "getv32"):
            cmds = ["%s %s" % (cmd, fmt.hx(e + suffix)) for v, e in encs]
            for (v, e), k, r in zip(encs, cmds, c.drv.batch(cmds)):
                w = v if cmd == "getv" else min(v, 2**32 - 1)
                c.count(k, v > 127)
                if r != "ok %d %d" % (len(e), w):
                    c.fail("decoding of %s" % e.hex(), k, expected="%d %d" % (len(e), w), observed=r)


# ---------------------------------------------------------------- C02
def wr_cmd(f, cs):
    t = ["wr", f]
    for n, pk, es in cs:
        t += ["T", fmt.hx(n), "p" + "".join(map(str, pk))]
        for op, old, new in es:
            t += ["E", str(op), str(len(old or []))] + [fmt.sv(v) for v in old or []] + [str(len(new or []))] + [fmt.sv(v) for v in new or []]
    return " ".join(t)


def corner_changesets():
    out = [[], [(b"t", [1], [])], [(b"t", [], [])]]
    for v in [("u",), ("n",)] + [("i", x) for x in gen.EDGE_INTS] + [("d", gen.dbits(x)) for x in gen.EDGE_DBL] + [("d", 0x7ff8000000000001), ("d", 0xfff0000000000001)]:
        for op in (18, 23, 9):
            out.append([(b"t", [1, 0], [(op, [("i", 1), v], [("i", 2), v])])])
    for n in (0, 1, 2, 126, 127, 128, 129, 255, 256, 16383, 16384, 16385, 70000):
        for k in "tb":
            out.append([(b"t", [1], [(18, None, [(k, bytes((i * 7 + 1) % 256 for i in range(n)))])])])
    for m in (1, 2, 127, 128, 129, 300):
        out.append([(b"wide", [1 if i % 3 == 0 else 0 for i in range(m)], [(18, None, [("i", i) for i in range(m)])])])
    for n in gen.NAMES:
        out.append([(n.encode(), [0, 1], [(9, [("n",), ("i", 1)], None)])])
    out.append([(b"a", [1], [(18, None, [("i", 1)])]), (b"b", [1, 1], [(9, [("i", 1), ("i", 2)], None)]), (b"a", [0], [(23, [("i", 1)], [("u",)])])])
    return out


def c02(c):
    if not c.has("wr x"): return
    cases = corner_changesets() + [gen.changeset(c.rng) for _ in range(300 * (1 + 8 * c.deep))]
    cmds = [wr_cmd("o%d" % i, cs) for i, cs in enumerate(cases)]
    rs = c.drv.batch(cmds)
    for i, (cs, k, r) in enumerate(zip(cases, cmds, rs)):
        want = fmt.encode(cs)
        got = c.get("o%d" % i)
        c.count(k, bool(cs), k[:200])
        if r != "ok r" + "w" * sum(len(t[2]) for t in cs) or got != want:
            c.fail("bytes written for a changeset", k, expected=want.hex(), observed="%s %s" % (r, got.hex() if got is not None else None))
    # rejections: unknown operation, wrong number of values
    rej = []
    for op in list(range(0, 30)) + [64, 84, 128, 255]:
        for m in (1, 2, 3):
            for no in range(0, 5):
                for nn in range(0, 5):
                    ok = (op in (18, 23, 9)) and (op == 18 or no == m) and (op == 9 or nn == m)
                    rej.append((op, m, no, nn, ok))
    cmds = []
    for i, (op, m, no, nn, ok) in enumerate(rej):
        cmds.append("wr q T x74 p" + "1" * m + " E %d %d %s %d %s" % (op, no, "i7 " * no, nn, "i8 " * nn))
    for (op, m, no, nn, ok), k, r in zip(rej, cmds, c.drv.batch(cmds)):
        c.count(k, True)
        if r != ("ok rw" if ok else "ok rx"):
            c.fail("operation %d, %d columns, %d old and %d new values" % (op, m, no, nn), k, expected="accepted" if ok else "rejected", observed=r)
    # a rejected change must leave no part of a record of the wrong size behind (checked via the next correct change)


# ---------------------------------------------------------------- C03 / C04
def check_reads(c, datas):
    cmds = []
    for i, d in enumerate(datas):
        c.put("f%d" % i, d)
        cmds.append("rd f%d" % i)
    for i, (d, k, r) in enumerate(zip(datas, cmds, c.drv.batch(cmds, timeout=30))):
        if not d:      # an empty file: open succeeds, no changes
            want = "ok empty same END"
        else:
            es, end = fmt.decode(d)
            want = "ok data same" + fmt.show(es, end)
        c.count(d, len(d) > 3, d[:60].hex())
        if r.rstrip() != want:
            c.fail("reading %d bytes" % len(d), "rd f", files={"f": d}, expected=want, observed=r)


def c03(c):
    if not c.has("rd nosuchfile"): return
    cases = corner_changesets() + [gen.changeset(c.rng) for _ in range(300 * (1 + 8 * c.deep))]
    check_reads(c, [fmt.encode(cs) for cs in cases])
    # round trip through the real writer
    cmds = [wr_cmd("w%d" % i, cs) for i, cs in enumerate(cases)] + ["rd w%d" % i for i in range(len(cases))]
    rs = c.drv.batch(cmds)
    for cs, k, r in zip(cases, cmds, rs[len(cases):]):
        es = fmt.flat(cs)
        c.count(("rt", k), bool(cs))
        want = ("ok data same" if cs else "ok empty same") + fmt.show(es, "END")
        if r.rstrip() != want:
            c.fail("read back of a written changeset", [k, "rd o"], expected=want, observed=r)
    for cs in cases[:40]:
        d = fmt.encode(cs)
        if not d: continue
        es, end = fmt.decode(d)
        for j in range(0, len(es) + 1):
            c.put("p", d)
            r = c.drv.one("rdp p %d" % j) if j < 3 else None
            if r is not None and r.rstrip() != "ok" + " " * 1 + fmt.show(es, end):
                c.fail("reading after a rewind", "rdp p %d" % j, files={"p": d}, expected=fmt.show(es, end), observed=r)


def mutate(r, d):
    d = bytearray(d)
    for _ in range(r.randint(1, 3)):
        k = r.random()
        if not d: d += bytes([r.randrange(256)]); continue
        i = r.randrange(len(d))
        if k < .3: d[i] = r.choice([0, 1, 2, 3, 4, 5, 6, 9, 18, 23, 84, 127, 128, 129, 255, r.randrange(256)])
        elif k < .5: del d[i:]
        elif k < .6: del d[i]
        elif k < .75: d[i:i] = r.choice([b"\xff", b"\xff" * 9, b"\x80" * 8 + b"\x01", b"\x8f\xff\xff\xff\x7f", b"\x87\xff\xff\xff\x7f", b"\x88\x80\x80\x80\x00", b"\x81\x00", b"T", b"\0"])
        elif k < .85: d += bytes([r.choice([84, 18, 23, 9, 0, 255])])
        else: d[i:i + 1] = bytes(r.randrange(256) for _ in range(r.randint(1, 4)))
    return bytes(d)


def c04(c):
    if not c.has("rd nosuchfile"): return
    datas = [bytes([a]) for a in range(256)] + [bytes([84, a, b]) for a in (0, 1, 2, 127, 128, 129, 255) for b in (0, 1, 65, 128, 255)]
    seedcs = [[(b"t", [1, 0], [(23, [("i", 5), ("t", b"hello")], [("u",), ("b", b"xyz")]), (18, None, [("i", 6), ("d", 0x3ff0000000000000)]), (9, [("i", 7), ("n",)], None)])]]
    for cs in seedcs:
        e = fmt.encode(cs)
        datas += [e[:i] for i in range(len(e) + 1)]                       # every truncation
        for i in range(len(e)):
            for b in (0, 1, 2, 3, 4, 5, 6, 7, 9, 18, 23, 84, 127, 128, 255):
                datas.append(e[:i] + bytes([b]) + e[i + 1:])               # single-byte corruptions
    for L in (b"\xff" * 9, b"\x8f\xff\xff\xff\x7f", b"\x87\xff\xff\xff\x7f", b"\x87\xff\xff\xff\x7e", b"\x88\x80\x80\x80\x00", b"\x83\xff\xff\x7f", b"\x81\x00", b"\xff", b"\x80\x80", b"\x84\x80\x00", b"\x84\x80\x01", b"\x90\x80\x80\x80\x00", b"\x90\x80\x80\x80\x01"):
        datas += [b"T" + L, b"T" + L + b"\1" * 10 + b"t\0", b"T\1\1t\0\x12\0\3" + L, b"T\1\1t\0\x12\0\3" + L + b"abc", b"T\1\1t\0\x12\0\4" + L + b"x" * 200, b"T\1\1t\0\x12\0\4" + L + b"x" * 127 + b"\x09\0\5"]
    datas += [b"T\2\1\0a\0\x12\0" + bytes([t]) + b"\0" * k for t in range(0, 8) for k in range(0, 20)]
    for _ in range(600 * (1 + 10 * c.deep)):
        cs = gen.changeset(c.rng, 2, 3)
        datas.append(mutate(c.rng, fmt.encode(cs)))
    for _ in range(200 * (1 + 10 * c.deep)):
        datas.append(bytes(c.rng.choice([0, 1, 2, 3, 4, 5, 9, 18, 23, 84, 84, 116, 255, 128]) for _ in range(c.rng.randint(1, 24))))
    check_reads(c, datas)


# ---------------------------------------------------------------- C05
def invert_entry(pk, e):
    op, old, new = e
    if op == INS: return (DEL, new, None)
    if op == DEL: return (INS, None, old)
    o, n = list(new), list(old)
    for j, p in enumerate(pk):
        if p and new[j] == ("u",): o[j], n[j] = old[j], ("u",)
    return (UPD, o, n)


def c05(c):
    if not c.has("inv nosuch nosuch2"): return
    cases = corner_changesets() + [gen.changeset(c.rng) for _ in range(300 * (1 + 8 * c.deep))]
    cases += [[(b"t", [1, 0], [(18, None, [("i", 1), ("i", 1)])]), (b"t", [0, 1], [(9, [("i", 1), ("i", 2)], None)])],
              [(b"a", [1], [(18, None, [("i", 1)])]), (b"a", [1], [(18, None, [("i", 2)])]), (b"b", [1], []), (b"a", [1], [(9, [("i", 3)], None)])],
              [(b"t", [1, 0], [(18, None, [("i", 1), ("i", 1)])]), (b"t", [1, 0, 0], [(9, [("i", 1), ("i", 2), ("n",)], None)])]]
    cmds = []
    for i, cs in enumerate(cases):
        c.put("s%d" % i, fmt.encode(cs))
        cmds += ["inv s%d i%d" % (i, i), "inv i%d j%d" % (i, i)]
    rs = c.drv.batch(cmds)
    for i, cs in enumerate(cases):
        want = [(n, pk) + invert_entry(pk, (op, old, new)) for n, pk, op, old, new in fmt.flat(cs)]
        data = fmt.encode(cs)
        c.count(data, bool(want), data[:60].hex())
        got = c.get("i%d" % i)
        if rs[2 * i] != "ok done" or got is None or fmt.decode(got) != (want, "END"):
            c.fail("inverse of a changeset", "inv f o", files={"f": data}, expected=want, observed="%s %s" % (rs[2 * i], fmt.decode(got) if got is not None else None))
            continue
        if any(e[2] == UPD and any(p and nv != ("u",) and ov == ("u",) for p, ov, nv in zip(e[1], e[3], e[4])) for e in fmt.flat(cs)):
            continue                     # not a well-formed update (new key without old key)
        back = c.get("j%d" % i)
        if rs[2 * i + 1] != "ok done" or back is None or fmt.decode(back) != (fmt.flat(cs), "END"):
            c.fail("inverse of the inverse", ["inv f o", "inv o p"], files={"f": data}, expected=fmt.flat(cs), observed=fmt.decode(back) if back is not None else rs[2 * i + 1])
    # a broken changeset must not be inverted silently
    for i in range(20):
        d = fmt.encode(gen.changeset(c.rng, 2, 3))
        if len(d) < 4: continue
        d = d[:-1]
        if fmt.decode(d)[1] != "ERR": continue
        c.put("bad", d)
        r = c.drv.one("inv bad badout")
        if not r.startswith("exc "): c.fail("inverting a truncated changeset", "inv f o", files={"f": d}, expected="exception", observed=r)


# ---------------------------------------------------------------- C06
OPN = {INS: "insert", UPD: "update", DEL: "delete"}


def jeq(v, j, present):
    """is the JSON value j (present or not) the documented one for v?"""
    t = v[0]
    if t == "u": return not present
    if not present: return False
    if t == "n": return j is None
    if t == "i": return isinstance(j, int) and not isinstance(j, bool) and j == v[1]
    if t == "d":
        x = struct.unpack(">d", struct.pack(">Q", v[1]))[0]
        if x != x or x in (float("inf"), float("-inf")): return j is None or isinstance(j, (str, float, int))
        return isinstance(j, (int, float)) and (abs(j - x) <= 1e-6 * max(1, abs(x)) + 1e-6)
    if t == "t": return isinstance(j, str) and j.encode("utf-8", "surrogatepass") == v[1]
    if t == "b":
        return isinstance(j, str) and j == base64.b64encode(v[1]).decode()
    return False


def jcheck_entry(o, n, op, old, new):
    if o.get("table") != n.decode(): return "table"
    if o.get("type") != OPN[op]: return "type"
    m = len(old if op != INS else new)
    old = old if op != INS else [("u",)] * m
    new = new if op != DEL else [("u",)] * m
    cols = [j for j in range(m) if old[j] != ("u",) or new[j] != ("u",)]
    ch = o.get("changes")
    if not isinstance(ch, list) or [x.get("column") for x in ch] != cols: return "columns %r, expected %r" % ([x.get("column") for x in ch] if isinstance(ch, list) else ch, cols)
    for x, j in zip(ch, cols):
        if not jeq(old[j], x.get("old"), "old" in x): return "old value of column %d" % j
        if not jeq(new[j], x.get("new"), "new" in x): return "new value of column %d" % j
    return None


def strict_json(b):
    def dup(pairs):
        d = {}
        for k, v in pairs:
            if k in d: raise ValueError("duplicate key " + k)
            d[k] = v
        return d
    def const(x): raise ValueError("not JSON: " + x)
    return json.loads(b.decode("utf-8"), object_pairs_hook=dup, parse_constant=const)


def utf8_ok(es):
    for e in es:
        for l in (e[3], e[4]):
            for v in l or []:
                if v[0] == "t":
                    try: v[1].decode("utf-8")
                    except UnicodeDecodeError: return False
    return True


def json_cases(c):
    cases = []
    for i in range(0x20): cases.append([(b"t", [1], [(18, None, [("t", bytes([97, i, 98]))])])])
    for i in range(0x20, 0x80): cases.append([(b"t", [1], [(18, None, [("t", bytes([i]))])])])
    for i in range(1, 0x80): cases.append([(bytes([97, i]), [1], [(18, None, [("i", i)])])])
    cases += [cs for cs in corner_changesets() if utf8_ok(fmt.flat(cs))]
    for k in range(0, 20): cases.append([(b"t", [1], [(18, None, [("b", bytes(range(200, 200 + k)))])])])
    cases += [gen.changeset(c.rng) for _ in range(250 * (1 + 8 * c.deep))]
    return cases


def c06(c):
    if not c.has("json nosuch"): return
    cases = json_cases(c)
    cmds = []
    for i, cs in enumerate(cases):
        c.put("s%d" % i, fmt.encode(cs)); cmds.append("json s%d" % i)
    for i, (cs, r) in enumerate(zip(cases, c.drv.batch(cmds))):
        data = fmt.encode(cs)
        es = fmt.flat(cs)
        c.count(data, bool(es), r[:200])
        msg = None
        if not r.startswith("ok x"): msg = r
        else:
            b = fmt.ux(r[3:].strip())
            try:
                j = strict_json(b)
                l = j["geodiff"]
                if len(j) != 1 or not isinstance(l, list) or len(l) != len(es): msg = "number of objects"
                else:
                    for o, (n, pk, op, old, new) in zip(l, es):
                        m = jcheck_entry(o, n, op, old, new)
                        if m: msg = m; break
            except Exception as e:
                msg = "not valid JSON: %r" % e
            if msg: msg += " in " + b[:1500].decode(errors="replace")
        if msg: c.fail("JSON of a changeset: " + msg[:200], "json f", files={"f": data}, expected=es, observed=msg)
    if not c.has("cjson"): return
    cc = []
    r = c.rng
    for _ in range(150 * (1 + 8 * c.deep)):
        fs = []
        for _ in range(r.randint(0, 3)):
            cols = sorted(r.sample(range(8), r.randint(0, 4)))
            fs.append((r.choice(gen.NAMES), r.choice([0, 1, -1, 5, 2**31 - 1, -2**31]), [(k, gen.value(r, "idtbnu"), gen.value(r, "idtbnu"), gen.value(r, "idtbnu")) for k in cols]))
        cc.append(fs)
    cmds = [" ".join(["cjson"] + ["F %s %d %d %s" % (fmt.hx(n), pk, len(it), " ".join("%d %s %s %s" % (k, fmt.sv(b), fmt.sv(t), fmt.sv(o)) for k, b, t, o in it)) for n, pk, it in fs]) for fs in cc]
    for fs, k, rr in zip(cc, cmds, c.drv.batch(cmds)):
        c.count(k, bool(fs))
        msg = None
        if not rr.startswith("ok x"): msg = rr
        else:
            b = fmt.ux(rr[3:].strip())
            try:
                l = strict_json(b)["geodiff"]
                if len(l) != len(fs): msg = "number of conflict objects"
                for o, (n, pk, it) in zip(l, fs):
                    if o.get("table") != n or o.get("type") != "conflict" or str(o.get("fid")) != str(pk): msg = "table/type/fid"
                    ch = o.get("changes")
                    if [x.get("column") for x in ch] != [x[0] for x in it]: msg = "columns"
                    for x, (k2, ba, th, ou) in zip(ch, it):
                        for key, v in (("base", ba), ("old", th), ("new", ou)):
                            if not jeq(v, x.get(key), key in x): msg = "%s of column %d" % (key, k2)
            except Exception as e:
                msg = "not valid JSON: %r" % e
            if msg: msg += " in " + b[:1500].decode(errors="replace")
        if msg: c.fail("JSON of conflicts: " + msg[:200], k, expected=fs, observed=msg)


# ---------------------------------------------------------------- C07
def c07(c):
    if not c.has("summary nosuch"): return
    cases = corner_changesets() + [gen.changeset(c.rng) for _ in range(250 * (1 + 8 * c.deep))]
    cases += [[(b"a", [1], [(18, None, [("i", 1)])] * 3), (b"b", [1], []), (b"a", [1], [(9, [("i", 1)], None)] * 2), (b"c", [1, 0], [(23, [("i", 1), ("i", 2)], [("u",), ("i", 3)])])],
              [(b"empty1", [1], []), (b"empty2", [1], [])]]
    for _ in range(6): cases.append([(bytes([65 + k % 3]), [1], [(c.rng.choice([18, 9]), [("i", 1)], [("i", 1)])] * c.rng.randint(0, 4)) for k in range(9)])
    cases.append([(b"big", [1], [(18, None, [("i", 1)])] * 65537 + [(9, [("i", 1)], None)] * 257), (b"big2", [1], [(23, [("i", 1)], [("i", 2)])] * 65540 + [(9, [("i", 1)], None)] * 65540)])
    cmds = []
    for i, cs in enumerate(cases):
        c.put("s%d" % i, fmt.encode(cs))
        cmds += ["summary s%d" % i, "api changesCount s%d" % i, "api hasChanges s%d" % i, "api listChangesSummary s%d so%d" % (i, i)]
    rs = c.drv.batch(cmds)
    for i, cs in enumerate(cases):
        data = fmt.encode(cs)
        es = fmt.flat(cs)
        c.count(data[:4000], bool(es), rs[4 * i][:120])
        cnt = {}
        for n, pk, op, old, new in es:
            cnt.setdefault(n.decode(), {INS: 0, UPD: 0, DEL: 0})[op] += 1
        msg = None
        r = rs[4 * i]
        if not r.startswith("ok x"): msg = r
        else:
            for b, what in ((fmt.ux(r[3:].strip()), "summary"), (c.get("so%d" % i), "summary file")):
                try:
                    l = strict_json(b)["geodiff_summary"]
                    got = {}
                    for o in l:
                        if o["table"] in got: msg = "two objects for table " + o["table"]
                        got[o["table"]] = {INS: o["insert"], UPD: o["update"], DEL: o["delete"]}
                        if any(type(x) is not int for x in got[o["table"]].values()): msg = "counts are not numbers"
                    if got != cnt: msg = "%s: %r" % (what, got)
                except Exception as e:
                    msg = "%s: %r" % (what, e)
        if msg: c.fail("summary: " + msg[:150], "summary f", files={"f": data}, expected=cnt, observed=msg)
        if rs[4 * i + 1] != "ok %d" % len(es): c.fail("change count", "api changesCount f", files={"f": data}, expected=len(es), observed=rs[4 * i + 1])
        if rs[4 * i + 2] != "ok %d" % (1 if data else 0): c.fail("has changes", "api hasChanges f", files={"f": data}, expected=1 if data else 0, observed=rs[4 * i + 2])
    for f in ("-", "nosuchfile"):
        r = c.drv.one("api hasChanges " + f)
        if r != "ok -1": c.fail("has changes of a missing file", "api hasChanges " + f, expected=-1, observed=r)
    for cs in cases[:60]:
        d = fmt.encode(cs)[:-1]
        if not d or fmt.decode(d)[1] != "ERR": continue
        c.put("bad", d)
        r = c.drv.one("api changesCount bad")
        if r != "ok -1": c.fail("change count of a broken changeset", "api changesCount f", files={"f": d}, expected=-1, observed=r)
