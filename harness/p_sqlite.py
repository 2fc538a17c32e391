"""Bounded checks against real SQLite databases: an independent oracle in Python (sqlite3 module)."""
import os, sqlite3, struct
from . import fmt, gen
from .fmt import INS, UPD, DEL

NAMES = ["t", "simple", "Points", "layer 1", 'a"b', "o'x", "back\\sl", "čárka", "select", "a.b", "semi;colon", "--x", "100%", "%s", "tab\tname", "gpkg_contents2", "my_rtree_", "sqlite", "a]b", "[x]", "main", "x" * 70]
COLS = ["id", "fid", "name", "val", "a b", 'q"q', "it's", "order", "%d", "x;y", "ščé", "c\\d", "group", "A1", "b2", "?1", "z]"]
TYPES = ["INTEGER", "TEXT", "REAL", "BLOB", "", "BOOLEAN", "VARCHAR(10)", "integer", "DATETIME"]


def q(n): return '"' + n.replace('"', '""') + '"'


def tov(x):
    if x is None: return ("n",)
    if isinstance(x, bool) or isinstance(x, int): return ("i", int(x))
    if isinstance(x, float): return ("d", gen.dbits(x))
    if isinstance(x, str): return ("t", x.encode())
    return ("b", bytes(x))


def sqlval(r, typ, small=False):
    k = r.random()
    t = typ.upper()
    if small: k = max(k, .3)
    if "INT" in t: c = "i"
    elif "TEXT" in t or "CHAR" in t: c = "t"
    elif "REAL" in t: c = "d"
    elif "BLOB" in t: c = "b"
    else: c = r.choice("itb")
    if k < .15: return None
    if c == "i": return r.choice([0, 1, 2, 3, -1, 127, 128, 2**31, -2**31 - 1, 2**53 + 1, 2**63 - 1, -2**63]) if r.random() < .5 else r.randint(-5, 20)
    if c == "d": return r.choice([.5, -1.5, 1e300, 5e-324, float("inf"), 123456789.25, 0.1])
    if c == "t": return r.choice(["", "a", "b", "A", "abc", "O'Brien", 'say "hi"', "back\\slash", "nl\nx", "žluť", "日本", "x" * 130, "a\0b", "a\0c", "\0", "1e", "null", " a", "a "])
    return r.choice([b"", b"\0", b"a", b"\xff\xfe", b"a\0b", bytes(range(200)), b"ab"])


class Tab:
    pass


def rtable(r, name, simple=False):
    t = Tab(); t.name = name
    m = r.choice([1, 2, 3, 3, 4, 6])
    t.cols = r.sample(COLS, m)
    t.types = [r.choice(TYPES) for _ in range(m)]
    k = r.random()
    t.worowid = False
    t.pk = []
    if k < .5:
        j = 0 if r.random() < .7 else r.randrange(m)
        t.types[j] = "INTEGER"; t.pk = [j]
    elif k < .65:
        t.pk = [r.randrange(m)]
        t.types[t.pk[0]] = r.choice(["TEXT", "BLOB", "REAL", "INT"])
        t.worowid = r.random() < .5
    elif k < .93 and m > 1:
        t.pk = r.sample(range(m), 2 if m < 3 or r.random() < .7 else 3)
        t.worowid = r.random() < .3
    t.notnull = [i in t.pk or r.random() < .08 for i in range(m)]
    t.collate = [("" if i in t.pk or r.random() < .85 else " COLLATE NOCASE") for i in range(m)]
    t.extra = []
    return t


def create_sql(t, name=None):
    cs = []
    for i, (c, ty) in enumerate(zip(t.cols, t.types)):
        cs.append("%s %s%s%s" % (q(c), ty, " NOT NULL" if t.notnull[i] else "", t.collate[i]))
    if t.pk: cs.append("PRIMARY KEY (%s)" % ", ".join(q(t.cols[i]) for i in t.pk))
    return "CREATE TABLE %s (%s)%s" % (q(t.name), ", ".join(cs + t.extra), " WITHOUT ROWID" if t.worowid else "")


def row(r, t):
    out = []
    for i, ty in enumerate(t.types):
        v = sqlval(r, ty)
        while v is None and t.notnull[i]: v = sqlval(r, ty, True)
        out.append(v)
    return out


def insert(db, t, rw):
    try:
        db.execute("INSERT OR ABORT INTO %s VALUES (%s)" % (q(t.name), ",".join("?" * len(rw))), rw)
        return True
    except sqlite3.IntegrityError:
        return False
    except sqlite3.OperationalError:
        return False


def rows(db, t):
    """rows as tuples of typed values"""
    return [tuple(tov(x) for x in rw) for rw in db.execute("SELECT %s FROM %s" % (", ".join(q(c) for c in t.cols), q(t.name)))]


def mutate(r, db, t):
    for rw in rows(db, t):
        k = r.random()
        where = " AND ".join("%s IS ?" % q(c) for c in t.cols)
        raw = [unv(x) for x in rw]
        if k < .25: db.execute("DELETE FROM %s WHERE %s" % (q(t.name), where), raw)
        elif k < .65:
            cs = [i for i in range(len(t.cols)) if i not in t.pk or r.random() < .05]
            cs = [i for i in cs if r.random() < .5]
            if not cs: continue
            new = row(r, t)
            try: db.execute("UPDATE %s SET %s WHERE %s" % (q(t.name), ", ".join("%s = ?" % q(t.cols[i]) for i in cs), where), [new[i] for i in cs] + raw)
            except (sqlite3.IntegrityError, sqlite3.OperationalError): pass
    for _ in range(r.choice([0, 0, 1, 2, 4])): insert(db, t, row(r, t))


def unv(v):
    if v[0] == "n": return None
    if v[0] == "i": return v[1]
    if v[0] == "d": return struct.unpack(">d", struct.pack(">Q", v[1]))[0]
    if v[0] == "t": return v[1].decode()
    return v[1]


def rnames(r, n):
    out = []
    for x in r.sample(NAMES, n):
        if x.lower() not in [y.lower() for y in out]: out.append(x)
    return out


def fresh(c, name):
    p = c.path(name)
    for s in ("", "-journal", "-wal"):
        if os.path.exists(p + s): os.remove(p + s)
    return p


SYSTEM = ["rtree_x_geom_node", "gpkg_ogr_contents", "gpkg_ogr_contents_x"]


def make_pair(c, nb, nm, system=True):
    r = c.rng
    tabs = [rtable(r, n) for n in rnames(r, r.choice([0, 1, 1, 2, 3, 4]))]
    script = [create_sql(t) for t in tabs]
    if system and r.random() < .4: script.append('CREATE TABLE %s (id integer primary key, v text)' % q(r.choice(SYSTEM)))
    if system and r.random() < .3: script.append("CREATE TABLE auto_t (id integer primary key autoincrement, v)")
    dbs = []
    for n in (nb, nm):
        db = sqlite3.connect(fresh(c, n), isolation_level=None); dbs.append(db)
        for s in script: db.execute(s)
        db.execute("begin")
    data = [[row(r, t) for _ in range(r.choice([0, 1, 2, 4, 8]))] for t in tabs]
    same = r.random() < .12
    for j, db in enumerate(dbs):
        for t, d in zip(tabs, data):
            for rw in d: insert(db, t, rw)
        if "auto_t" in script[-1] if script else False:
            for k in range(2 + 0 * j): db.execute("insert into auto_t(v) values (?)", ["v%d" % k])
    if not same:
        for t in tabs: mutate(r, dbs[1], t)
        if r.random() < .3:
            for t in tabs: mutate(r, dbs[0], t)
        for s in script:
            for n in SYSTEM:
                if q(n) in s: dbs[1].execute("insert into %s values (5,'sys')" % q(n))
    if script and "auto_t" in script[-1]:
        t = Tab(); t.name = "auto_t"; t.cols = ["id", "v"]; t.types = ["integer", ""]; t.pk = [0]; t.worowid = False; t.notnull = [False, False]; t.collate = ["", ""]; t.extra = []
        tabs.append(t)
        if not same: dbs[1].execute("insert into auto_t(v) values ('new')")
    for db in dbs: db.execute("commit")
    return tabs, dbs, script


def numeq(a, b):
    """equal for SQLite's IS but of different storage classes (the statement does not say what happens)"""
    if a[0] == b[0] or not {a[0], b[0]} <= {"i", "d"}: return False
    return unv(a) == unv(b)


def expected_diff(tabs, dbs):
    """{table: {(op, old, new)}} or None when a pair of values is equal as a number only"""
    out = {}
    for t in tabs:
        if not t.pk: continue
        b = {tuple(rw[i] for i in t.pk): rw for rw in rows(dbs[0], t)}
        m = {tuple(rw[i] for i in t.pk): rw for rw in rows(dbs[1], t)}
        es = set()
        for k in m:
            if k not in b: es.add((INS, None, m[k]))
        for k in b:
            if k not in m: es.add((DEL, b[k], None))
            elif b[k] != m[k]:
                ch = [b[k][i] != m[k][i] for i in range(len(t.cols))]
                if any(numeq(b[k][i], m[k][i]) for i in range(len(t.cols))): return None
                es.add((UPD, tuple(b[k][i] if ch[i] or i in t.pk else ("u",) for i in range(len(t.cols))), tuple(m[k][i] if ch[i] else ("u",) for i in range(len(t.cols)))))
        if es: out[t.name.encode()] = es
    return out


def readfiles(c, *ns): return {n: c.get(n) for n in ns}


def c12(c):
    if not c.has("api changesCount -"): return
    N = 170 * (1 + 6 * c.deep)
    B = 40
    for s in range(0, N, B):
        if c.out_of_time(): return
        cases, cmds = [], []
        for i in range(B):
            for a in ("b%d" % i, "m%d" % i, "d%d" % i): fresh(c, a)
            tabs, dbs, script = make_pair(c, "b%d" % i, "m%d" % i)
            exp = expected_diff(tabs, dbs)
            for db in dbs: db.close()
            cases.append((tabs, exp, script)); cmds.append("api createChangeset b%d m%d d%d" % (i, i, i))
        for i, (rr, (tabs, exp, script)) in enumerate(zip(c.drv.batch(cmds), cases)):
            if exp is None: continue
            d = c.get("d%d" % i)
            c.count((script, d), bool(exp), (cmds[i], script[:1], rr))
            msg = check_diff(tabs, exp, rr, d)
            if msg:
                c.fail("created changeset: " + msg[:300], "api createChangeset base modified out", files=dict(base=c.get("b%d" % i), modified=c.get("m%d" % i)), expected=exp, observed=(rr, d and d.hex(), msg))


def check_diff(tabs, exp, rr, d):
    if rr != "ok 0": return "answer %s" % rr[:200]
    if d is None: return "no file"
    es, end = fmt.decode(d)
    if end != "END": return "the changeset is malformed"
    got = {}
    byname = {t.name.encode(): t for t in tabs}
    for n, pk, op, old, new in es:
        if n not in byname: return "unexpected table %r" % n
        t = byname[n]
        if list(pk) != [int(i in t.pk) for i in range(len(t.cols))]: return "key flags of %r: %r" % (n, pk)
        e = (op, None if old is None else tuple(old), None if new is None else tuple(new))
        if e in got.setdefault(n, set()): return "change twice: %r" % (e,)
        got[n].add(e)
    if got != exp:
        for n in set(got) | set(exp):
            a, b = got.get(n, set()), exp.get(n, set())
            if a != b: return "table %r: extra %r missing %r" % (n, sorted(a - b, key=repr)[:2], sorted(b - a, key=repr)[:2])
    return None


# ---------------------------------------------------------------- C13
KEPT = ("gpkg_", "rtree_", "trigger_insert_feature_count_", "trigger_delete_feature_count_")


def content(path):
    """everything a reader of the database can see"""
    db = sqlite3.connect(path, isolation_level=None)
    try:
        master = sorted(tuple(x) for x in db.execute("select type, name, tbl_name, sql from sqlite_master"))
        out = {}
        for ty, n, _, sql in master:
            if ty == "table" and not (sql or "").startswith("CREATE VIRTUAL"):
                out[n] = sorted((tuple(tov(x) for x in rw) for rw in db.execute("select * from %s" % q(n))), key=repr)
        return master, out
    finally:
        db.close()


class Fail(Exception):
    pass


def tinfo(db, name):
    if not list(db.execute("select 1 from sqlite_master where type='table' and name=?", (name,))): raise Fail("no table %r" % name)
    cols = list(db.execute("pragma table_info(%s)" % q(name)))
    t = Tab(); t.name = name; t.cols = [x[1] for x in cols]; t.pk = [i for i, x in enumerate(cols) if x[5]]
    return t


def oracle_apply(db, es):
    trig = [x for x in db.execute("select name, sql from sqlite_master where type='trigger'") if not x[0].startswith(KEPT)]
    for n, _ in trig: db.execute("drop trigger %s" % q(n))
    for n, pk, op, old, new in es:
        t = tinfo(db, n.decode())
        if len(t.cols) != len(pk): raise Fail("columns")
        if [int(i in t.pk) for i in range(len(pk))] != list(pk): raise Fail("keys")
        try:
            if op == INS:
                if any(v[0] == "u" for v in new): raise Fail("undefined value")
                before = db.total_changes
                db.execute("INSERT OR ABORT INTO %s VALUES (%s)" % (q(t.name), ",".join("?" * len(new))), [unv(v) for v in new])
                if db.total_changes == before: raise Fail("nothing inserted")
                continue
            if op == DEL and any(v[0] == "u" for v in old): raise Fail("undefined value")
            rs = [rw for rw in rows(db, t) if all((old[i] == rw[i] and old[i][0] != "n" if i in t.pk else (op == UPD and new[i][0] == "u") or old[i] == rw[i]) for i in range(len(pk)))]
            if len(rs) != 1: raise Fail("%d rows match" % len(rs))
            where = " AND ".join("%s IS ?" % q(t.cols[i]) for i in t.pk)
            key = [unv(rs[0][i]) for i in t.pk]
            if op == DEL:
                db.execute("DELETE FROM %s WHERE %s" % (q(t.name), where), key)
                left = [rw for rw in rows(db, t) if rw == rs[0]]
                if left: raise Fail("not deleted")
            else:
                cs = [i for i in range(len(pk)) if new[i][0] != "u"] or [t.pk[0]]
                nv = [unv(new[i] if new[i][0] != "u" else rs[0][i]) for i in cs]
                b = db.total_changes
                db.execute("UPDATE OR ABORT %s SET %s WHERE %s" % (q(t.name), ", ".join("%s = ?" % q(t.cols[i]) for i in cs), where), nv + key)
                if db.total_changes == b: raise Fail("nothing updated")
        except sqlite3.Error as e:
            raise Fail(str(e))
    for _, s in trig: db.execute(s)


def apply_case(c, name):
    """a database file and a changeset; returns (changes, readable)"""
    r = c.rng
    tabs = []
    while not tabs:
        tabs = [t for t in (rtable(r, n) for n in rnames(r, r.choice([1, 1, 2, 3]))) if t.pk]
    db = sqlite3.connect(fresh(c, name), isolation_level=None)
    for t in tabs:
        if len(t.cols) > 1 and r.random() < .3:
            j = r.choice([i for i in range(len(t.cols))])
            t.extra.append("UNIQUE (%s)%s" % (q(t.cols[j]), r.choice(["", " ON CONFLICT REPLACE", " ON CONFLICT IGNORE", " ON CONFLICT ROLLBACK"])))
        if r.random() < .15:
            t.extra.append("CHECK (%s IS NOT 'abc')" % q(r.choice(t.cols)))
        db.execute(create_sql(t))
    db.execute("create table log_t (id integer primary key autoincrement, v)")
    db.execute("begin")
    for t in tabs:
        for _ in range(r.choice([0, 2, 4, 8])): insert(db, t, row(r, t))
    db.execute("insert into log_t(v) values ('first')")
    for t in tabs:
        for ev in ("insert", "update", "delete"):
            if r.random() < .25:
                n = r.choice(["tr ", 'tr"', "tr'", "Gpkg_", "%s", "trigger_"]) + t.name + ev
                try: db.execute("create trigger %s %s %s on %s begin insert into log_t(v) values ('%s'); end" % (q(n), r.choice(["before", "after"]), ev, q(t.name), "x;y"))
                except sqlite3.OperationalError: pass
            if r.random() < .08:
                n = r.choice(["gpkg_", "rtree_", "trigger_insert_feature_count_"]) + t.name + ev
                ref = "old" if ev == "delete" else "new"
                try: db.execute("create trigger %s %s %s on %s when %s.%s %s begin select raise(%s); end" % (q(n), r.choice(["before", "after"]), ev, q(t.name), ref, q(r.choice(t.cols)), r.choice(["is null", "is not null", "= 'a'", "> 2"]), r.choice(["abort, 'x'", "fail, 'x'", "rollback, 'x'", "ignore"])))
                except sqlite3.OperationalError: pass
    db.execute("commit")
    es = []
    cur = {t.name: rows(db, t) for t in tabs}
    for _ in range(r.choice([1, 2, 3, 5, 8])):
        t = r.choice(tabs)
        m = len(t.cols)
        pk = [int(i in t.pk) for i in range(m)]
        nr = [tov(x) for x in row(r, t)]
        k = r.random()
        ls = cur[t.name]
        if k < .35 or not ls:
            e = (INS, None, nr); ls.append(tuple(nr))
        elif k < .6:
            e = (DEL, list(ls.pop(r.randrange(len(ls)))), None)
        else:
            j = r.randrange(len(ls)); o = ls[j]
            ch = [(not pk[i] or r.random() < .1) and r.random() < .5 for i in range(m)]
            e = (UPD, [o[i] if pk[i] or ch[i] else ("u",) for i in range(m)], [nr[i] if ch[i] else ("u",) for i in range(m)])
            ls[j] = tuple(nr[i] if ch[i] else o[i] for i in range(m))
        es.append((t.name.encode(), pk, e[0], e[1], e[2]))
    db.close()
    for _ in range(r.choice([0, 0, 0, 1, 1, 2])):       # break something
        j = r.randrange(len(es)); n, pk, op, old, new = es[j]
        k = r.randrange(9)
        side = old if old is not None and (new is None or r.random() < .7) else new
        i = r.randrange(len(side))
        if k < 4: side[i] = r.choice([("i", 99), ("t", b"other"), ("n",), ("b", b"a"), ("u",)]) if side[i][0] != "u" else side[i]
        elif k == 4: es[j] = (n + r.choice([b"_none", b"' OR 1", b'"']), pk, op, old, new)
        elif k == 5 and len(pk) > 1:
            f = lambda l: None if l is None else l[:-1]
            es[j] = (n, pk[:-1], op, f(old), f(new))
        elif k == 6: es[j] = (n, [1 - p if x == i else p for x, p in enumerate(pk)], op, old, new)
        elif k == 7: es.insert(j, (n, pk, op, old and list(old), new and list(new)))
    return es


def decide(c, name, es, end):
    """(expected success, expected content)"""
    before = content(c.path(name))
    tmp = fresh(c, "oracle")
    with open(c.path(name), "rb") as f: data = f.read()
    with open(tmp, "wb") as f: f.write(data)
    db = sqlite3.connect(tmp, isolation_level=None)
    try:
        db.execute("begin")
        try:
            oracle_apply(db, es)
            if end != "END": raise Fail("malformed")
            db.execute("commit")
            ok = True
        except Fail:
            ok = False
        except sqlite3.Error:
            ok = False
    finally:
        db.close()
    return ok, (content(tmp) if ok else before)


def diff_content(a, b):
    if a[0] != b[0]: return "definitions differ: %r" % (sorted(set(a[0]) ^ set(b[0]), key=repr)[:3],)
    for n in set(a[1]) | set(b[1]):
        if a[1].get(n) != b[1].get(n):
            x, y = a[1].get(n, []), b[1].get(n, [])
            return "table %r: unexpected %r missing %r" % (n, [z for z in x if z not in y][:3], [z for z in y if z not in x][:3])
    return None


def run_apply(c, cases, what):
    """cases: [(dbname, dbbytes, changeset bytes, entries, end, shown)]"""
    cmds = ["api applyChangeset %s cs_%s" % (n, n) for n, *_ in cases]
    for (n, dbb, cs, *_ ) in cases: c.put("cs_" + n, cs)
    rs = c.drv.batch(cmds)
    for rr, (n, dbb, cs, es, ok, exp, note) in zip(rs, cases):
        msg = None
        if rr not in ("ok 0", "ok 1", "ok 2"): msg = "answer " + rr[:300]
        elif (rr == "ok 0") != ok: msg = "answer %s where %s was expected" % (rr, "success" if ok else "failure")
        got = None
        try:
            got = content(c.path(n))
        except sqlite3.Error as e:
            msg = msg or "database unreadable: %s" % e
        if got is not None:
            d = diff_content(got, exp)
            if d: msg = (msg + "; " if msg else "") + ("after a failure " if not ok else "") + d
        c.count((dbb, cs), len(es) > 0, (fmt.show(es, "")[:200], rr))
        if msg: c.fail(what + ": " + msg[:300], "api applyChangeset base changeset", files=dict(base=dbb, changeset=cs), expected=("success" if ok else "failure, nothing changed", note), observed=(rr, msg))


def c13(c):
    if not c.has("api changesCount -"): return
    r = c.rng
    special_apply(c)
    N = 260 * (1 + 6 * c.deep)
    B = 65
    for s in range(0, N, B):
        if c.out_of_time(): return
        cases = []
        for i in range(B):
            n = "p%d" % i
            es = apply_case(c, n)
            cs = fmt.encode(fmt.group(es)); end = "END"
            if r.random() < .06:
                cs = cs[:r.randrange(len(cs))]
                es, end = fmt.decode(cs)
            dbb = c.get(n)
            if not cs: continue
            ok, exp = decide(c, n, es, end)
            cases.append((n, dbb, cs, es, ok, exp, fmt.show(es, end)[:2000]))
        run_apply(c, cases, "applying a changeset")


def special_apply(c):
    """hand-made histories"""
    cases = []
    def case(script, entries, tail=b""):
        n = "s%d" % len(cases)
        db = sqlite3.connect(fresh(c, n), isolation_level=None)
        for s in script: db.execute(s)
        db.close()
        cs = fmt.encode(fmt.group(entries)) + tail
        es, end = fmt.decode(cs)
        dbb = c.get(n)
        ok, exp = decide(c, n, es, end)
        cases.append((n, dbb, cs, es, ok, exp, repr(script)[:1500] + fmt.show(es, end)[:1500]))
    I = lambda *v: [("i", x) if isinstance(x, int) else ("n",) if x is None else ("u",) if x == "u" else ("t", x.encode()) for x in v]
    T = b"t"
    P = [1, 0, 0]
    base = ["create table t(id integer primary key, a text, b text)"] + ["insert into t values(%d, 'a%d', 'b%d')" % (i, i, i) for i in range(1, 9)]
    ins = lambda *v: (T, P, INS, None, I(*v))
    dele = lambda *v: (T, P, DEL, I(*v), None)
    upd = lambda o, w: (T, P, UPD, I(*o), I(*w))
    # many changes, a failing one at each position
    ops = [ins(20, "x", "y"), upd((1, "a1", "u"), ("u", "z", "u")), dele(2, "a2", "b2"), upd((3, "u", "b3"), ("u", "u", None)), ins(21, None, None), dele(4, "a4", "b4"), upd((5, "a5", "b5"), ("u", "q", "r")), upd((3, "u", None), ("u", "u", "w"))]
    case(base, ops)
    bads = [ins(1, "x", "y"), upd((1, "wrong", "u"), ("u", "z2", "u")), upd((99, "a", "u"), ("u", "z2", "u")), dele(99, "a", "b"), dele(6, "a6", "wrong"), dele(6, "a6", None), upd((7, "u", None), ("u", "u", "x")), ins(30, "u", "u")]
    for b in bads:
        for pos in (0, 3, len(ops)): case(base, ops[:pos] + [b] + ops[pos:])
    for k in range(1, 40, 3): case(base, ops, tail=b"\x12\x00\x01"[:k])
    for ev, op in (("insert", ins(40, "bad", "x")), ("update", upd((6, "a6", "u"), ("u", "bad", "u"))), ("delete", dele(6, "a6", "b6"))):
        for kind in ("rollback, 'x'", "abort, 'x'", "fail, 'x'", "ignore"):
            for when in ("before", "after"):
                cond = "old.a = 'a6'" if ev == "delete" else "new.a = 'bad'"
                tr = "create trigger gpkg_check %s %s on t when %s begin select raise(%s); end" % (when, ev, cond, kind)
                case(base + [tr], ops[:2] + [op] + ops[2:])
    # user triggers go away while applying and come back, also after a failure
    trs = ["create table log(x)", "create trigger \"my \"\"tr\" after insert on t begin insert into log values('i'); delete from t where id = 1; end", "create trigger 'tr%s' before update on t begin insert into log values('u;'); end",
           "create trigger tr_no before delete on t begin select raise(abort, 'no'); end", "create view v as select * from t", "create trigger tr_v instead of insert on v begin insert into t values(new.id, new.a, new.b); end"]
    case(base + trs, ops); case(base + trs, ops + [bads[0]]); case(base + trs, [])
    # conflict clauses in the table definition must not replace or drop rows
    for cl in ("replace", "ignore", "fail", "rollback"):
        tb = ["create table t(id integer primary key on conflict %s, a text unique on conflict %s, b text not null on conflict %s default 'dd')" % (cl, cl, cl)] + base[1:]
        case(tb, [upd((1, "a1", "u"), ("u", "zz", "u")), ins(1, "n", "n"), ins(60, "k", "k")]); case(tb, [upd((1, "a1", "u"), ("u", "a2", "u")), ins(61, "k", "k")]); case(tb, [ins(9, "a1", "n")]); case(tb, [ins(9, "n", None)]); case(tb, [upd((1, "u", "b1"), ("u", "u", None)), ins(62, "k", "k")]); case(tb, [upd((1, "u", "u"), (2, "u", "u")), ins(63, "k", "k")])
    # undefined values of one change must not be taken from the one before
    case(base, [upd((1, "a1", "b1"), ("u", "x", "y")), upd((2, "u", "u"), ("u", "z", "u"))])
    case(base, [upd((1, "a1", "b1"), ("u", "x", "y")), upd((1, "u", "y"), ("u", "u", "w")), upd((1, "x", "u"), ("u", "v", "u"))])
    case(base, [upd((1, "a1", "u"), ("u", "x", "u")), upd(("u", "x", "u"), ("u", "v", "u"))])
    # tables that look alike, tables without rows, definitions that change in the middle
    two = base + ["create table t2(id integer primary key, a text, b text)", "insert into t2 select * from t"]
    case(two, [x for o in ops for x in (o, (b"t2",) + o[1:])])
    case(two, [ins(70, "x", "y"), (b"t", [0, 1, 0], INS, None, I(71, "x", "y"))]); case(two, [ins(70, "x", "y"), (b"t", [1, 0], INS, None, I(71, "x"))]); case(two, [ins(70, "x", "y"), (b"T", P, INS, None, I(71, "x", "y"))]); case(two, [ins(70, "x", "y"), (b"t3", P, INS, None, I(71, "x", "y"))])
    case(base + ["create table many(k1 text, v, k2 integer, primary key(k2, k1)) without rowid"], [(b"many", [1, 0, 1], INS, None, I("k%d" % (i % 7), i, i)) for i in range(300)] + [(b"many", [1, 0, 1], UPD, I("k%d" % (i % 7), i, i), I("u", i + 1, "u")) for i in range(0, 300, 2)] + [(b"many", [1, 0, 1], DEL, I("k%d" % (i % 7), i, i), None) for i in range(1, 300, 2)])
    # values
    vals = [("i", 2**63 - 1), ("i", -2**63), ("d", gen.dbits(.1)), ("d", gen.dbits(1e300)), ("t", b""), ("t", "žl\0x'\"".encode()), ("b", b""), ("b", bytes(range(256))), ("n",)]
    case(["create table t(id integer primary key, a, b)"], [(T, P, INS, None, [("i", i), v, w]) for i, (v, w) in enumerate((v, w) for v in vals for w in vals)] +
         [(T, P, UPD, [("i", i), v, ("u",)], [("u",), w, ("u",)]) for i, (v, w) in enumerate((v, w) for v in vals for w in vals)] + [(T, P, DEL, [("i", i), w, w], None) for i, (v, w) in enumerate((v, w) for v in vals for w in vals)][::2])
    run_apply(c, cases, "applying a changeset")
    # another connection holds the write lock: nothing may change, failure reported
    p = fresh(c, "locked"); db = sqlite3.connect(p, isolation_level=None)
    for s in base: db.execute(s)
    before = content(p)
    c.put("lcs", fmt.encode(fmt.group(ops)))
    db.execute("begin immediate")
    rr = c.drv.one("api applyChangeset locked lcs")
    db.execute("rollback"); db.close()
    d = diff_content(content(p), before)
    c.count(("locked",), True, rr)
    if rr == "ok 0" or run_bad(rr) or d: c.fail("applying to a locked database", "api applyChangeset base changeset (locked by another connection)", files=dict(changeset=fmt.encode(fmt.group(ops))), expected="failure, nothing changed", observed=(rr, d))


def run_bad(rr):
    return not rr.startswith("ok ")


# ---------------------------------------------------------------- C14
def c14(c):
    from . import p_misc
    p_misc.c14_schema(c)
    if not c.has("api changesCount -"): return
    r = c.rng
    cases = []
    k = [0]
    def case(a, b, same, note):
        i = k[0]; k[0] += 1
        for n, script in (("b%d" % i, a), ("m%d" % i, b)):
            db = sqlite3.connect(fresh(c, n), isolation_level=None)
            for s in script: db.execute(s)
            db.close()
        fresh(c, "d%d" % i)
        cases.append((i, same, note, a, b))
    G = ["create table gpkg_contents(table_name text not null primary key, data_type text)",
         "create table gpkg_spatial_ref_sys(srs_name text not null, srs_id integer not null primary key, organization text not null, organization_coordsys_id integer not null, definition text not null, description text)",
         "create table gpkg_geometry_columns(table_name text not null, column_name text not null, geometry_type_name text not null, srs_id integer not null, z tinyint not null, m tinyint not null, constraint pk_geom_cols primary key (table_name, column_name))",
         "insert into gpkg_spatial_ref_sys values('WGS', 4326, 'EPSG', 4326, 'GEOGCS', 'd')", "insert into gpkg_spatial_ref_sys values('W2', 5514, 'EPSG', 5514, 'KROVAK', 'd')"]
    def geom(table="g", col="geom", ty="POINT", srs=4326, z=0, m=0):
        return G + ["create table g(fid integer primary key autoincrement not null, geom POINT, geom2 POINT, name text)", "insert into gpkg_geometry_columns values('%s','%s','%s',%d,%d,%d)" % (table, col, ty, srs, z, m), "insert into g values(1, x'4750', null, 'x')"]
    case(geom(), geom(), True, "same geometry table")
    for kw in (dict(ty="POINTZ"), dict(ty="LINESTRING"), dict(srs=5514), dict(z=1), dict(m=1), dict(z=2), dict(col="geom2"), dict(ty="point")):
        # z = 2 is true as well as 1
        case(geom(), geom(**kw), False, kw); case(geom(**kw), geom(), False, kw)
    case(geom(z=1), geom(z=1), True, "z"); case(geom(m=1), geom(m=1), True, "m")
    case(geom(z=1), geom(m=1), False, "z against m")
    for i, ch in enumerate(("'EPS', 4326, 'GEOGCS'", "'EPSG', 4327, 'GEOGCS'", "'EPSG', 4326, 'GEOGCS2'")):
        g = geom(); g[3] = "insert into gpkg_spatial_ref_sys values('WGS', 4326, %s, 'd')" % ch
        case(geom(), g, False, "crs " + ch); case(g, geom(), False, "crs " + ch)
    case(geom() + ["drop table gpkg_geometry_columns"], geom() + ["drop table gpkg_geometry_columns"], True, "no geometry columns")
    case(geom(), geom() + ["delete from gpkg_geometry_columns"], False, "geometry in base only"); case(geom() + ["delete from gpkg_geometry_columns"], geom(), False, "geometry in modified only")
    t = "create table %s(%s)"
    B = "id integer primary key, a text, b real not null"
    def tt(d, n="t"): return ["create table u(x integer primary key)", t % (n, d), "create table z(x)"]
    for d in ("id integer primary key, a text", "id integer primary key, a text, b real not null, c", "id integer primary key, b text, a real not null", "id integer primary key, A text, b real not null", "id integer primary key, a text, b real", "id integer primary key, a text not null, b real not null",
              "id integer primary key, a text, b double not null", "id integer primary key, a, b real not null", "id integer, a text primary key, b real not null", "id integer, a text, b real not null", "id integer, a text, b real not null, primary key(id, a)", "id int primary key, a text, b real not null",
              "a text, id integer primary key, b real not null", "id integer primary key, a text, b real not null, primary_key text", "id integer primary key, \"a \" text, b real not null", "id integer primary key, a varchar(10), b real not null"):
        case(tt(B), tt(d), False, d); case(tt(d), tt(B), False, d); case(tt(d), tt(d), True, d)
    for n in ("T", "t2", '"t "', "s", "zz"): case(tt(B), tt(B, n), False, "table name " + n); case(tt(B, n), tt(B), False, "table name " + n)
    case(tt(B), tt(B)[1:], False, "table missing first"); case(tt(B)[1:], tt(B), False, "table missing first"); case(tt(B), tt(B)[:-1], False, "table missing last"); case(tt(B)[:-1], tt(B), False, "table missing last")
    case(tt(B), tt(B) + ["create table rtree_g_node(id)", "create table gpkg_ogr_contents(a)"], True, "system tables"); case([], tt(B), False, "empty base"); case(tt(B), [], False, "empty modified"); case([], [], True, "both empty")
    case(tt(B), list(reversed(tt(B))), True, "order of creation"); case(tt(B), tt(B) + ["create view w as select * from t", "create index ix on t(a)"], True, "views and indices")
    # differences only in tables without a primary key count as well
    case(tt(B) + ["create table nk(a text, b)"], tt(B) + ["create table nk(a text, b text)"], False, "table without key"); case(tt(B) + ["create table nk(a text, b)"], tt(B) + ["create table nk(a text)"], False, "table without key")
    for _ in range(40 * (1 + 4 * c.deep)):
        tabs = [rtable(r, n) for n in rnames(r, r.choice([1, 2, 3]))]
        a = [create_sql(x) for x in tabs]
        x = r.choice(tabs); j = r.randrange(len(x.cols)); m = r.randrange(6)
        old = (list(x.cols), list(x.types), list(x.notnull), list(x.pk), x.name)
        if m == 0: x.types[j] += "X"
        elif m == 1:
            if j in x.pk: continue
            x.notnull[j] = not x.notnull[j]
        elif m == 2: x.cols[j] += "_"
        elif m == 3: x.name += "_"
        elif m == 4:
            if j in x.pk: x.pk.remove(j)
            else: x.pk.append(j)
            if not x.pk: x.worowid = False
            if sorted(x.pk) == sorted(old[3]): continue
        else:
            if len(x.cols) < 2: continue
            i = (j + 1) % len(x.cols)
            x.cols[i], x.cols[j] = x.cols[j], x.cols[i]
        case(a, [create_sql(y) for y in tabs], False, (m, x.name, j)); case(a, a, True, "equal")
    for (i, same, note, a, b), rr in zip(cases, c.drv.batch(["api createChangeset b%d m%d d%d" % (i, i, i) for i, *_ in cases])):
        c.count((a, b), not same, (note, rr))
        if rr != ("ok 0" if same else "ok 1"):
            c.fail("creating a changeset between %s schemas (%s): %s" % ("equal" if same else "different", note, rr), "api createChangeset base modified out", files=dict(base=c.get("b%d" % i), modified=c.get("m%d" % i)), expected="success" if same else "failure", observed=(rr, a, b))
    # applying: table missing, other number of columns, other keys; also after changes that could be made
    cases = []
    good = [(b"t", [1, 0, 0], INS, None, [("i", 5), ("t", b"x"), ("d", gen.dbits(.5))]), (b"t", [1, 0, 0], DEL, [("i", 1), ("t", b"a"), ("d", gen.dbits(1.5))], None)]
    V = lambda n: [("i", 7), ("i", 8), ("i", 9), ("i", 10)][:n]
    for n, pk in [(b"nosuch", [1]), (b"nosuch", [1, 0, 0]), (b"T", [1, 0, 0]), (b"t ", [1, 0, 0]), (b"", [1]), (b"sqlite_master", [1]), (b"v", [1, 0, 0]), (b"t", [1, 0]), (b"t", [1, 0, 0, 0]), (b"t", [1]), (b"t", [0, 1, 0]), (b"t", [1, 1, 0]), (b"t", [0, 0, 0]), (b"t", [1, 0, 1]), (b"k", [1, 0]), (b"k", [1, 0, 0]), (b"k", [0, 1, 1]), (b"k", [1, 1, 1]), (b"u", [0]), (b"z", [1])]:
        m = len(pk)
        for op, old, new in ((INS, None, V(m)), (DEL, V(m), None), (UPD, V(m), [("i", 3)] * m)):
            for pre in ([], good):
                for post in ([], good):
                    if pre and post and op != INS: continue
                    i = "q%d" % len(cases)
                    db = sqlite3.connect(fresh(c, i), isolation_level=None)
                    for s in tt(B) + ["insert into t values(1, 'a', 1.5)", "create table k(x, y, w, primary key(x, w))", "insert into k values(7,8,9)", "insert into u values(7)", "insert into z values(7)", "create view v as select * from t", "create trigger tg after insert on t begin delete from t; end"]: db.execute(s)
                    db.close()
                    es = pre + [(n, pk, op, old, new)] + post
                    cs = fmt.encode(fmt.group(es))
                    cases.append((i, c.get(i), cs, es, False, content(c.path(i)), fmt.show(es, "")[:1500]))
    run_apply(c, cases, "applying a changeset that does not fit the schema")


# ---------------------------------------------------------------- C17
def c17(c):
    """names and texts that need care, through whole diffs and applications"""
    r = c.rng
    hard = ['a"b', '"', '""', "'", "o'x", "a;b", "--", "%s%d%n%w", "a\\b", " ", "a b", "select", "t(", "x)", "?1", "[y]", "`z`", "é", "tab\t", "nl\n", "main", "aux", "rowid", "a.b", "x\"\"y", "\"q\"", "''", "%q", "%%"]
    B = 60 * (1 + 5 * c.deep)
    cases, cmds = [], []
    for i in range(B):
        tabs = []
        for n in r.sample(hard, 2):
            t = Tab(); t.name = n
            t.cols = []
            for x in r.sample(hard, r.choice([2, 3, 4])):
                if x.lower() not in [y.lower() for y in t.cols]: t.cols.append(x)
            m = len(t.cols)
            t.types = ["TEXT"] * m
            t.pk = sorted(r.sample(range(m), 1 if r.random() < .6 else 2)) if m > 1 else [0]
            t.notnull = [j in t.pk for j in range(m)]; t.collate = [""] * m; t.extra = []; t.worowid = r.random() < .3
            if t.name.lower() not in [u.name.lower() for u in tabs]: tabs.append(t)
        dbs = []
        for n in ("b%d" % i, "m%d" % i):
            db = sqlite3.connect(fresh(c, n), isolation_level=None); dbs.append(db)
            db.execute("begin")
            for t in tabs: db.execute(create_sql(t))
        fresh(c, "d%d" % i)
        for t in tabs:
            for _ in range(5):
                rw = [r.choice(hard) for _ in t.cols]
                for db in dbs: insert(db, t, rw)
        for t in tabs: mutate(r, dbs[1], t)
        for db in dbs: db.execute("commit")
        exp = expected_diff(tabs, dbs)
        for db in dbs: db.close()
        cases.append((tabs, exp)); cmds.append("api createChangeset b%d m%d d%d" % (i, i, i))
    rs = c.drv.batch(cmds)
    ok = []
    for i, (rr, (tabs, exp)) in enumerate(zip(rs, cases)):
        d = c.get("d%d" % i)
        c.count((d, i), bool(exp), rr)
        msg = check_diff(tabs, exp, rr, d)
        if msg: c.fail("diff with names that need quoting: " + msg[:300], "api createChangeset base modified out", files=dict(base=c.get("b%d" % i), modified=c.get("m%d" % i)), expected=exp, observed=(rr, msg))
        elif d: ok.append(i)
    cmds = ["api applyChangeset b%d d%d" % (i, i) for i in ok]
    befores = {i: c.get("b%d" % i) for i in ok}
    want = {i: content(c.path("m%d" % i)) for i in ok}
    for i, rr in zip(ok, c.drv.batch(cmds)):
        d = None
        try: d = diff_content(content(c.path("b%d" % i)), want[i])
        except sqlite3.Error as e: d = str(e)
        if rr != "ok 0" or d: c.fail("applying with names that need quoting: %s %s" % (rr[:200], d), "api applyChangeset base changeset", files=dict(base=befores[i], changeset=c.get("d%d" % i)), expected="the modified database", observed=(rr, d))
