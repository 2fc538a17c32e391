"""Bounded checks of the PostgreSQL driver: libpq is replaced by a stand-in that records every statement and
answers from a script; the statements are parsed (PostgreSQL lexical rules) and compared with the change they stand for."""
import struct
from . import fmt, gen
from .fmt import INS, UPD, DEL, hx, ux


class Bad(Exception):
    pass


def tokens(s):
    """PostgreSQL lexical structure (standard_conforming_strings = on)"""
    out, i = [], 0
    n = len(s)
    while i < n:
        ch = s[i:i + 1]
        if ch.isspace(): i += 1
        elif ch == b'"':
            j, v = i + 1, b""
            while True:
                if j >= n: raise Bad("unterminated identifier")
                if s[j:j + 1] == b'"':
                    if s[j + 1:j + 2] == b'"': v += b'"'; j += 2; continue
                    break
                v += s[j:j + 1]; j += 1
            if not v: raise Bad("zero-length identifier")
            out.append(("id", v)); i = j + 1
        elif ch == b"'" or (ch in b"eE" and s[i + 1:i + 2] == b"'"):
            esc = ch != b"'"
            j, v = i + 1 + esc, b""
            while True:
                if j >= n: raise Bad("unterminated string")
                c = s[j:j + 1]
                if c == b"'":
                    if s[j + 1:j + 2] == b"'": v += b"'"; j += 2; continue
                    break
                if esc and c == b"\\":
                    d = s[j + 1:j + 2]
                    if d == b"\\" or d == b"'": v += d; j += 2; continue
                    raise Bad("escape sequence in E'' string: \\%r" % d)
                v += c; j += 1
            out.append(("str", v)); i = j + 1
        elif ch.isalpha() or ch == b"_":
            j = i
            while j < n and (s[j:j + 1].isalnum() or s[j:j + 1] == b"_"): j += 1
            out.append(("kw", s[i:j].upper())); i = j
        elif ch.isdigit() or (ch in b"-+" and s[i + 1:i + 2].isdigit()):
            j = i + 1
            while j < n and (s[j:j + 1].isdigit() or s[j:j + 1] in (b".", b"e", b"E") or (s[j:j + 1] in (b"-", b"+") and s[j - 1:j] in (b"e", b"E"))): j += 1
            out.append(("num", s[i:j])); i = j
        elif ch in b"().,=;<>*":
            if s[i:i + 2] == b"--": raise Bad("comment")
            out.append(("p", ch)); i += 1
        else: raise Bad("unexpected character %r at %d" % (ch, i))
    return out


class P:
    def __init__(self, s): self.t, self.i = tokens(s), 0
    def peek(self): return self.t[self.i] if self.i < len(self.t) else ("end", b"")
    def next(self): x = self.peek(); self.i += 1; return x
    def eat(self, *ks):
        for k in ks:
            x = self.next()
            if x != (("kw", k) if k.isalpha() else ("p", k)): raise Bad("expected %r, got %r" % (k, x))
    def got(self, k):
        if self.peek() == (("kw", k) if k.isalpha() else ("p", k)): self.i += 1; return True
        return False
    def name(self):
        x = self.next()
        if x[0] == "id": return x[1]
        if x[0] == "kw": return ("folded", x[1].lower())
        raise Bad("expected a name, got %r" % (x,))
    def table(self):
        a = self.name(); self.eat(b"."); return a, self.name()
    def value(self):
        x = self.next()
        if x[0] in ("str", "num"): return x
        if x == ("kw", b"NULL"): return ("null",)
        if x[0] == "kw":
            self.eat(b"("); args = []
            if not self.got(b")"):
                while True:
                    args.append(self.value())
                    if self.got(b")"): break
                    self.eat(b",")
            return ("call", x[1]) + tuple(args)
        raise Bad("expected a value, got %r" % (x,))
    def names(self):
        out = []
        while True:
            out.append(self.name())
            if not self.got(b","): return out
    def conds(self):
        out = []
        while True:
            n = self.name()
            if self.got(b"IS"): self.eat(b"NULL"); out.append((n, ("null",)))
            else: self.eat(b"="); out.append((n, self.value()))
            if not self.got(b"AND"): return out
    def end(self):
        self.got(b";")
        if self.peek()[0] != "end": raise Bad("text after the statement: %r" % (self.peek(),))


def parse_stmt(s):
    p = P(s)
    k = p.next()
    if k == ("kw", b"INSERT"):
        p.eat(b"INTO"); t = p.table(); p.eat(b"("); cs = p.names(); p.eat(b")", b"VALUES", b"("); vs = []
        while True:
            vs.append(p.value())
            if not p.got(b","): break
        p.eat(b")"); p.end()
        if len(cs) != len(vs): raise Bad("columns and values")
        return ("insert", t, sorted(zip(cs, vs), key=repr), None)
    if k == ("kw", b"UPDATE"):
        t = p.table(); p.eat(b"SET"); st = []
        while True:
            n = p.name(); p.eat(b"="); st.append((n, p.value()))
            if not p.got(b","): break
        p.eat(b"WHERE"); w = p.conds(); p.end()
        return ("update", t, sorted(st, key=repr), sorted(w, key=repr))
    if k == ("kw", b"DELETE"):
        p.eat(b"FROM"); t = p.table(); p.eat(b"WHERE"); w = p.conds(); p.end()
        return ("delete", t, None, sorted(w, key=repr))
    raise Bad("not a data statement")


def sqlv(v, col):
    """what a value looks like as a literal (doubles compared as numbers)"""
    if v[0] == "n": return ("null",)
    if v[0] == "i": return ("str", b"t" if v[1] else b"f") if col["type"] == b"boolean" else ("num", v[1])
    if v[0] == "d":
        x = struct.unpack(">d", struct.pack(">Q", v[1]))[0]
        if x != x: return ("str", b"NaN")
        if x in (float("inf"), float("-inf")): return ("str", b"Infinity" if x > 0 else b"-Infinity")
        return ("num", x)
    if col["geom"]: return ("call", b"ST_GEOMFROMWKB", ("str", b"\\x" + v[1][8:].hex().upper().encode()), ("num", col["srid"]))
    if col["type"] == b"bytea": return ("str", b"\\x" + v[1].hex().upper().encode())
    return ("str", v[1])


def same(a, b):
    """parsed literal against expected one"""
    if b[0] == "num":
        if a[0] == "str" and isinstance(b[1], float):     # '1.5' is the same constant
            a = ("num", a[1])
        if a[0] != "num": return False
        try: return float(a[1]) == b[1] and (not b[1] == 0 or b[1] == 0) if isinstance(b[1], float) else int(a[1]) == b[1]
        except ValueError: return False
    if b[0] == "call": return a[0] == "call" and len(a) == len(b) and a[1] == b[1] and all(same(x, y) for x, y in zip(a[2:], b[2:]))
    if b[0] == "str" and b[1][:2] == b"\\x": return a[0] == "str" and a[1].lower() == b[1].lower()
    return a == b


def samel(a, b):
    if a is None or b is None: return a is b
    a, b = dict(a), dict(b)
    return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)


def expected_stmt(schema, tab, e):
    n, pk, op, old, new = e
    cs = tab["cols"]
    f = lambda vs, keep: [(c["name"], sqlv(v, c)) for c, v in zip(cs, vs) if keep or v[0] != "u"]
    if op == INS: return ("insert", (schema, n), f(new, True), None)
    if op == UPD: return ("update", (schema, n), f(new, False), f(old, False))
    return ("delete", (schema, n), None, f(old, True))


def match(sql, exp):
    try:
        g = parse_stmt(sql)
    except Bad as e:
        return "cannot be read: %s" % e
    if g[0] != exp[0] or g[1] != exp[1]: return "%s on %r instead of %s on %r" % (g[0], g[1], exp[0], exp[1])
    for x in (g[2], g[3]):
        if x is not None and len(dict(x)) != len(x): return "column named twice"
    if not samel(g[2], exp[2]): return "values: %r instead of %r" % (g[2], exp[2])
    if not samel(g[3], exp[3]): return "condition: %r instead of %r" % (g[3], exp[3])
    return None


PGTYPES = [b"integer", b"double precision", b"text", b"boolean", b"real", b"bytea", b"timestamp without time zone", b"geometry(Point,4326)", b"citext", b"bigint"]
PGNAMES = [b"t", b"simple", b"Points", b"layer 1", b'a"b', b"o'x", b"back\\sl", "čárka".encode(), b"select", b"a.b", b"x;y", b"--c", b"\\", b"'", b'"', b"\\'", b'";DROP TABLE x;--', b"tab\tn", b"E'"]


def rpg(r, name):
    m = r.choice([1, 2, 3, 4])
    cols = []
    for n in r.sample(PGNAMES, m):
        ty = r.choice(PGTYPES)
        cols.append(dict(name=n, type=ty, pk=0, nn=0, auto=0, geom=ty.startswith(b"geometry"), srid=4326 if ty.startswith(b"geometry") else 0))
    for k in r.sample(range(m), 1 if m < 2 or r.random() < .7 else 2):
        cols[k].update(pk=1, nn=1, type=r.choice([b"integer", b"text"]), geom=False)
        if r.random() < .5: cols[k].update(type=b"integer")
        if cols[k]["type"] == b"integer" and r.random() < .4: cols[k]["auto"] = 1
    return dict(name=name, cols=cols)


def pgval(r, col):
    if not col["nn"] and r.random() < .2: return ("n",)
    ty = col["type"]
    if ty in (b"integer", b"bigint"): return ("i", r.choice(gen.EDGE_INTS))
    if ty == b"boolean": return ("i", r.choice([0, 1]))
    if ty in (b"double precision", b"real"): return ("d", gen.dbits(r.choice([0.0, -0.0, 1.0, .1, 1e300, -5e-324, 123456789.123456789, 1 / 3, 2**53 + 2.0, float("inf"), float("-inf"), float("nan")])))
    if col["geom"]: return ("b", b"GP\0\1" + struct.pack("<i", 4326) + r.choice([b"", b"\1\1\0\0\0", bytes(range(21))]))
    if ty == b"bytea": return ("b", r.choice([b"", b"a", bytes(range(256)), b"\\x", b"'\\"]))
    return ("t", r.choice(["", "a", "O'Brien", "back\\slash", "\\", "'", "\\'", "''", "E'x'", "; drop table x; --", "nl\nx", "žluť", "$$", "%s", "null", "x" * 200]).encode())


def q1(s): return b"'" + s.replace(b"'", b"''") + b"'" if b"\\" not in s else b"E'" + s.replace(b"'", b"''").replace(b"\\", b"\\\\") + b"'"


def rule(pats, rows=(), st="T", affected=b"", skip=0, left=-1, ncols=None):
    rows = list(rows)
    nc = len(rows[0]) if rows else 0
    return " ".join([str(skip), str(left), st, hx(affected), str(len(pats))] + [hx(p) for p in pats] + [str(len(rows)), str(nc)] + [("-" if x is None else hx(x)) for rw in rows for x in rw])


def schema_rules(schema, tabs):
    out = [rule([b"pg_namespace WHERE nspname"], [[b"1"]])]
    tf = lambda x: b"t" if x else b"f"
    for t in tabs:
        nm = b"relname = " + q1(t["name"]) + b" "
        out.append(rule([b"pg_catalog.pg_attribute", nm], [[c["name"], c["type"], tf(c["pk"]) if c["pk"] else None, tf(c["nn"]), tf(c["auto"])] for c in t["cols"]]))
        gs = [[c["name"], b"POINT", b"4326"] for c in t["cols"] if c["geom"]]
        out.append(rule([b"FROM geometry_columns", b"f_table_name = " + q1(t["name"])], gs))
    out.append(rule([b"pg_get_serial_sequence(", b"select "], [[b'"sch"."seq"']]))
    out.append(rule([b"SELECT last_value"], [[b"5"]]))
    out.append(rule([b"SELECT setval"], [[b"9"]]))
    out.append(rule([b"FROM spatial_ref_sys"], [[b"EPSG", b"4326", b"WKT"]]))
    out.append(rule([b"FROM geometry_columns"], []))
    out.append(rule([b"pg_catalog.pg_attribute"], []))
    return out


DATA = (b"INSERT", b"UPDATE", b"DELETE")


def quoting(c):
    cases = PGNAMES + [b"", b"a", b"''", b"\\\\", b"x\\", b"\\n", b"'\\", b"\"\"", b"a\"b\"c", b"e'x'"]
    for _ in range(150 * (1 + 8 * c.deep)): cases.append(bytes(c.rng.choice(b"'\"\\aE;- \xc5") for _ in range(c.rng.randint(0, 9))))
    for cmd, kind in (("pgident", "id"), ("pgstring", "str")):
        if not c.has(cmd + " x"): continue
        for s, rr in zip(cases, c.drv.batch([cmd + " " + hx(s) for s in cases])):
            if kind == "id" and not s: continue
            c.count((cmd, s), True, (s, rr))
            try:
                t = tokens(ux(rr[3:])) if rr.startswith("ok x") else rr
                ok = t == [(kind, s)]
            except Bad as e:
                t, ok = str(e), False
            if not ok: c.fail("%s of %r" % (cmd, s), cmd + " " + hx(s), expected=(kind, s), observed=(rr[:200], t))


def changes(r, tabs, n):
    es = []
    for _ in range(n):
        t = r.choice(tabs); cs = t["cols"]
        op = r.choice([INS, INS, UPD, DEL])
        full = lambda: [pgval(r, x) for x in cs]
        if op == INS: e = (None, full())
        elif op == DEL: e = (full(), None)
        else:
            o, w = full(), full()
            ch = [r.random() < (.6 if not x["pk"] else .1) for x in cs]
            if not any(ch): ch[r.randrange(len(ch))] = True
            e = ([v if ch[i] or cs[i]["pk"] else ("u",) for i, v in enumerate(o)], [v if ch[i] else ("u",) for i, v in enumerate(w)])
        es.append((t["name"], [x["pk"] for x in cs], op) + e)
    return es


def apply_cases(c, N, faults=True):
    r = c.rng
    out = []
    for k in range(N):
        tabs = [rpg(r, n) for n in r.sample(PGNAMES + ([b"gpkg_x"] if k % 7 == 0 else []), r.choice([1, 2, 3]))]
        es = changes(r, tabs, r.choice([1, 2, 4, 7]))
        real = [e for e in es if not e[0].startswith(b"gpkg_")]
        rules, fault = [], None
        if faults and r.random() < .75:
            j = r.randrange(len(real) + 1) if real else 0
            kind = r.choice(["error", "zero", "two", "conn", "null", "tuples", "malformed", "undef", "commit", "begin", "schema"])
            fault = (kind, j)
        out.append((tabs, es, real, fault))
    return out


def run_case(c, i, tabs, es, fault, extra_rules=()):
    r = c.rng
    rules = []
    real = [e for e in es if not e[0].startswith(b"gpkg_")]
    es = [list(e) for e in es]
    expect_fail = False
    upto = None            # number of data statements that may be seen at most
    if fault:
        kind, j = fault
        if kind in ("error", "zero", "two", "conn", "null"):
            if j < len(real):
                op = real[j][2]
                word = {INS: b"INSERT INTO ", UPD: b"UPDATE ", DEL: b"DELETE FROM "}[op]
                skip = sum(1 for e in real[:j] if e[2] == op)
                st, aff = {"error": ("F", b""), "zero": ("O", b"0"), "two": ("O", b"2"), "conn": ("D", b""), "null": ("N", b"")}[kind]
                rules.append(rule([word], st=st, affected=aff, skip=skip, left=1)); expect_fail = True
        elif kind == "commit": rules.append(rule([b"COMMIT"], st="F", left=1)); expect_fail = True
        elif kind == "begin": rules.append(rule([b"BEGIN"], st="F", left=1)); expect_fail = True
        elif kind == "schema":
            if real:
                rules.append(rule([b"pg_catalog.pg_attribute"], st="F", left=1, skip=min(j, 1) if len({e[0] for e in real}) > 1 else 0))
                n = len([1 for a, b in zip([None] + real, real) if a is None or a[0] != b[0]])
                expect_fail = n > (min(j, 1) if len({e[0] for e in real}) > 1 else 0)
        elif kind == "undef" and j < len(real):
            x = [k for k, e in enumerate(es) if not e[0].startswith(b"gpkg_")][j]
            if es[x][2] == INS: es[x][4] = [("u",)] * len(es[x][4]); expect_fail = True
            elif es[x][2] == DEL: es[x][3] = [("u",)] * len(es[x][3]); expect_fail = True
    cs = fmt.encode(fmt.group([tuple(e) for e in es]))
    if fault and fault[0] == "malformed" and len(cs) > 3:
        cs = cs[:r.randrange(2, len(cs))]
        got, end = fmt.decode(cs)
        if end == "END": expect_fail = False
        else: expect_fail = True
        es = [list(e) for e in got]
    real = [tuple(e) for e in es if not e[0].startswith(b"gpkg_")]
    c.put("pr%d" % i, ("\n".join(list(extra_rules) + rules + schema_rules(b"sch", tabs)) + "\n").encode())
    c.put("pc%d" % i, cs)
    return "pg pr%d applyChangesetEx postgres conn sch pc%d" % (i, i), real, expect_fail


def judge(c, i, cmd, tabs, real, expect_fail, rr, note):
    msg = None
    c.count((c.get("pc%d" % i), note), bool(real), (note, rr[:150]))
    f = rr.split()
    if f[:1] != ["ok"]: msg = "answer " + rr[:300]
    else:
        rc, conns, res = int(f[1]), int(f[2]), int(f[3])
        log = [ux(x) for x in f[4:]]
        i0 = [k for k, s in enumerate(log) if s.strip(b" ;\n").upper() in (b"BEGIN", b"START TRANSACTION", b"BEGIN TRANSACTION")]
        ends = [s.strip(b" ;\n").upper() for s in log]
        data = [(k, s) for k, s in enumerate(log) if s.lstrip().upper().startswith(DATA)]
        fin = [k for k, s in enumerate(ends) if s in (b"COMMIT", b"ROLLBACK", b"END", b"ABORT")]
        byname = {t["name"]: t for t in tabs}
        if (rc == 0) == expect_fail: msg = "return code %d" % rc
        elif len(i0) != 1 and (note or ("",))[0] != "begin": msg = "transactions started: %d" % len(i0)
        elif data and (data[0][0] < i0[0]): msg = "statement before the transaction"
        elif fin and data and fin[0] < data[-1][0]: msg = "statement after the end of the transaction"
        elif rc == 0 and ends[-1] != b"COMMIT": msg = "success without commit"
        elif rc != 0 and b"COMMIT" in ends and (note or ("",))[0] != "commit": msg = "failure was committed"
        elif rc != 0 and (note or ("",))[0] != "begin" and ends[-1] != b"ROLLBACK" and (note or ("",))[0] != "nochange": msg = "no rollback after a failure (last statement %r)" % log[-1:]
        elif len(data) > len(real): msg = "more statements than changes"
        elif rc == 0 and len(data) != len(real): msg = "%d statements for %d changes" % (len(data), len(real))
        elif res: msg = "%d results not freed" % res
        else:
            for (k, s), e in zip(data, real):
                m = match(s, expected_stmt(b"sch", byname[e[0]], e))
                if m: msg = "statement %r: %s" % (s[:300], m); break
    if msg:
        c.fail("applying to PostgreSQL: " + msg[:300], cmd.replace("pr%d" % i, "rules").replace("pc%d" % i, "changeset"), files=dict(rules=c.get("pr%d" % i), changeset=c.get("pc%d" % i)), expected=("failure" if expect_fail else "success", note, fmt.show(real, "")[:1500]), observed=(msg, rr[:1500]))


def c21(c):
    if not c.has("api changesCount -"): return
    for s in range(2 * (1 + 8 * c.deep)):
        if c.out_of_time(): return
        cases = []
        for i, (tabs, es, real, fault) in enumerate(apply_cases(c, 150)):
            cmd, real, ef = run_case(c, i, tabs, es, fault)
            cases.append((i, cmd, tabs, real, ef, fault))
        rs = c.drv.batch([x[1] for x in cases])
        for (i, cmd, tabs, real, ef, fault), rr in zip(cases, rs):
            if not c.get("pc%d" % i): continue
            judge(c, i, cmd, tabs, real, ef, rr, fault)


def c17(c):
    quoting(c)
    if not c.has("api changesCount -"): return
    from . import p_sqlite
    cases = []
    for i, (tabs, es, real, fault) in enumerate(apply_cases(c, 150 * (1 + 8 * c.deep), faults=False)):
        cmd, real, ef = run_case(c, i, tabs, es, None)
        cases.append((i, cmd, tabs, real, ef))
    rs = c.drv.batch([x[1] for x in cases])
    for (i, cmd, tabs, real, ef), rr in zip(cases, rs): judge(c, i, cmd, tabs, real, ef, rr, None)
    diffs(c)
    p_sqlite.c17(c)


def diffs(c):
    """statements of a diff between two PostgreSQL schemas: every name must be quoted"""
    r = c.rng
    cases = []
    for i in range(60 * (1 + 5 * c.deep)):
        tabs = [rpg(r, n) for n in sorted(r.sample(PGNAMES, r.choice([1, 2])))]
        sb, sm = [x.encode() for x in r.sample(["base", "Mod", "a\"b", "x'y", "s\\c"], 2)]
        rules = [rule([b"pg_tables where schemaname"], [[t["name"]] for t in tabs])] + schema_rules(b"sch", tabs)
        c.put("pr%d" % i, ("\n".join(rules) + "\n").encode())
        cases.append((i, tabs, sb, sm))
    cmds = ["pg pr%d createChangesetEx postgres conn %s %s pd%d" % (i, sb.decode(), sm.decode(), i) for i, tabs, sb, sm in cases]
    for (i, tabs, sb, sm), cmd, rr in zip(cases, cmds, c.drv.batch(cmds)):
        c.count((tabs, sb, sm), True, rr[:100])
        f = rr.split(); msg = None
        if f[:2] != ["ok", "0"]: msg = "answer " + rr[:300]
        else:
            log = [ux(x) for x in f[4:]]
            want = [t["name"] for t in tabs]
            sel = []
            for s in log:
                if not s.startswith(b"SELECT \"") and not s.startswith(b"SELECT ST_") and not s.startswith(b"SELECT a.") and not s.startswith(b"SELECT to_char"): continue
                if b"pg_catalog" in s: continue
                sel.append(s)
            if len(sel) != 3 * len(tabs): msg = "%d queries for %d tables" % (len(sel), len(tabs))
            for k, s in enumerate(sel if not msg else []):
                t = tabs[k // 3]
                m = check_select(s, t, sb, sm, k % 3)
                if m: msg = "%r: %s" % (s[:400], m); break
        if msg: c.fail("diff in PostgreSQL: " + msg[:400], cmd, files=dict(rules=c.get("pr%d" % i)), expected="names as given: %r" % (tabs,), observed=(msg, rr[:1000]))


def check_select(s, t, sb, sm, kind):
    try: tk = tokens(s)
    except Bad as e: return str(e)
    names = [c["name"] for c in t["cols"]]
    pk = [c["name"] for c in t["cols"] if c["pk"]]
    k = tk.index(("kw", b"FROM"))
    sel = [x[1] for x in tk[:k] if x[0] == "id"]
    if sel != (names if kind < 2 else names + names): return "selected columns %r" % (sel,)
    def tables(l):
        return [(l[i - 1][1], l[i + 1][1]) for i in range(1, len(l) - 1) if l[i] == ("p", b".") and l[i - 1][0] == "id"]
    rest = tk[k:]
    w = rest.index(("kw", b"WHERE"))
    if kind < 2:
        if tables(rest[:w]) != [((sm, sb)[kind], t["name"])]: return "outer table %r" % (tables(rest[:w]),)
        inner = rest[w:]
        f = inner.index(("kw", b"FROM")); w2 = inner.index(("kw", b"WHERE"), f)
        if tables(inner[f:w2]) != [((sb, sm)[kind], t["name"])]: return "inner table %r" % (tables(inner[f:w2]),)
        ids = [x[1] for x in inner[w2:] if x[0] == "id"]
        exp = sorted((a, t["name"], n) for n in pk for a in (sb, sm))
        if sorted(zip(ids[::3], ids[1::3], ids[2::3])) != exp: return "key condition %r" % (ids,)
    else:
        if sorted(tables(rest[:w])) != sorted([(sm, t["name"]), (sb, t["name"])]): return "tables %r" % (tables(rest[:w]),)
        ids = [x[1] for x in rest[w:] if x[0] == "id"]
        if set(ids) != set(names): return "columns in the condition %r" % (ids,)
    return None
