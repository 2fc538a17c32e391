"""Bounded checks of rebasing against an independent oracle, and of the file operations around it."""
import os
from . import fmt, gen
from .fmt import INS, UPD, DEL, hx, ux


def rvals(r, pk, key):
    return [("i", key) if p else r.choice([("n",), ("i", r.randint(-3, 3)), ("t", r.choice([b"", b"a", b"b", b"x" * 140])), ("d", gen.dbits(r.choice([.5, 1.0]))), ("b", b"\0\1")]) for p in pk]


def other(r, v):
    while True:
        w = rvals(r, [0], 0)[0]
        if w != v: return w


def side(r, pk, base, keys, ins_keys):
    """one user's changes of a table: a change list with at most one change per row"""
    es = []
    for k in sorted(base):
        x = r.random(); row = base[k]
        if x < .25: es.append((DEL, list(row), None))
        elif x < .7:
            ch = [not p and r.random() < .5 for p in pk]
            if not any(ch): continue
            es.append((UPD, [v if p or c else ("u",) for v, p, c in zip(row, pk, ch)], [other(r, v) if c else ("u",) for v, c in zip(row, ch)]))
    for k in ins_keys: es.append((INS, None, rvals(r, pk, k)))
    k = r.random()
    if k < .4: r.shuffle(es)
    elif k < .7: es.sort(key=lambda e: e[0])
    return es


TN = [b"simple", b"t", b"a b", b"gpkg_contents", b'q"x', b"Z", "čárka".encode()]


def rcase(r):
    ours, theirs = [], []
    for n in r.sample(TN, r.choice([1, 1, 2, 3])):
        m = r.choice([1, 2, 3, 5, 6])
        pk = [0] * m; pk[0 if r.random() < .7 else r.randrange(m)] = 1
        lo = r.choice([1, 1, -3, 100, 2**31 - 60, -2**31 + 1])
        base = {k: rvals(r, pk, k) for k in r.sample(range(lo, lo + 8), r.choice([0, 2, 5]))}
        free = [k for k in range(lo + 2, lo + 16) if k not in base]
        pick = lambda: r.sample(free, r.choice([0, 1, 2, 4, 7]))
        a = side(r, pk, base, None, pick()); b = side(r, pk, base, None, pick())
        if a or r.random() < .3: theirs.append((n, pk, a))
        if b or r.random() < .3: ours.append((n, pk, b))
    r.shuffle(ours); r.shuffle(theirs)
    if r.random() < .3:       # the same table in several pieces
        ours = split(r, ours); theirs = split(r, theirs)
    return theirs, ours


def split(r, cs):
    out = []
    for n, pk, es in cs:
        k = r.randint(0, len(es))
        out += [(n, pk, es[:k]), (n, pk, es[k:])]
    if r.random() < .5:
        a, b = out[::2], out[1::2]
        r.shuffle(a)
        out = a + b
    return out


def tables(cs):
    out = {}
    for n, pk, es in cs:
        out.setdefault(n, (pk, []))[1].extend(es)
    return out


def keyof(pk, e): return (e[2] if e[0] == INS else e[1])[pk.index(1)][1]


def special():
    I = lambda k, *v: (INS, None, [("i", k)] + [("t", x) for x in v])
    D = lambda k, *v: (DEL, [("i", k)] + [("t", x) for x in v], None)
    U = lambda k, o, n: (UPD, [("i", k)] + [("t", x) if x is not None else ("u",) for x in o], [("u",)] + [("t", x) if x is not None else ("u",) for x in n])
    T = b"simple"; P = [1, 0]
    out = []
    add = lambda a, b, n=T, p=P: out.append(([(n, p, a)], [(n, p, b)]))
    for ks in ([4], [4, 5], [4, 5, 6], [6, 5, 4], [3, 5, 4, 7, 6], [1, 2, 3, 4, 5, 6, 7, 8], [8, 7, 6, 5, 4, 3, 2, 1], [5, 6], [6, 7], [4, 6, 8], [10, 4, 6]):
        for th in ([4], [4, 5], [5, 4], [6], [2, 5], [-5], [-5, -4], [-1], [0], [3, 4, 5, 6, 7], [9, 4]):
            add([I(k, b"their") for k in th], [I(k, b"our") for k in ks])
    add([D(1, b"a"), I(4, b"t")], [D(1, b"a"), I(4, b"o"), I(5, b"o")]); add([D(1, b"a"), D(2, b"b"), D(-1, b"c")], [U(1, [b"a"], [b"x"]), U(2, [b"b"], [b"x"]), U(-1, [b"c"], [b"y"]), U(3, [b"c"], [b"z"]), D(4, b"d")])
    add([U(1, [b"a"], [b"b"])], [U(1, [b"a"], [b"c"])]); add([U(1, [b"a"], [b"b"])], [U(1, [b"a"], [b"b"])]); add([U(1, [b"a"], [b"b"])], [D(1, b"a")]); add([U(1, [b"a"], [b"b"])], [U(2, [b"a"], [b"b"])])
    P3 = [1, 0, 0, 0, 0, 0]
    L = [b"l0", b"l1", b"l2", b"l3", b"l4"]
    for n in (b"gpkg_contents", b"gpkg_content", b"simple"):
        for m1 in range(1, 32, 3):
            for m2 in range(1, 32, 2):
                f = lambda m, s: ([L[i] if m >> i & 1 else None for i in range(5)], [L[i] + s if m >> i & 1 else None for i in range(5)])
                add([U(1, *f(m1, b"T"))], [U(1, *f(m2, b"O"))], n, P3)
    out.append(([(b"simple", P, [I(4, b"x")])], [(b"other", P, [I(4, b"y"), D(1, b"q"), U(2, [b"a"], [b"b"])])]))
    out.append(([(b"simple", P, [D(4, b"x")]), (b"other", P, [I(7, b"z")])], [(b"other", P, [I(4, b"y"), I(7, b"w"), I(8, b"v")]), (b"simple", P, [U(4, [b"x"], [b"y"]), D(5, b"x")])]))
    return out


def parse_conflicts(t):
    out, i = [], 0
    while i < len(t):
        assert t[i] == "F"
        name, pk, n = ux(t[i + 1]), int(t[i + 2]), int(t[i + 3]); i += 4
        items = []
        for _ in range(n):
            items.append((int(t[i]), fmt.pv(t[i + 1]), fmt.pv(t[i + 2]), fmt.pv(t[i + 3]))); i += 4
        out.append((name, pk, items))
    return out


def expect_conflicts(theirs, ours):
    th = tables(theirs); out = []
    for n, pk, es in ours:
        for e in es:
            if e[0] != UPD or n not in th: continue
            k = keyof(pk, e)
            up = [x for x in th[n][1] if x[0] == UPD and keyof(pk, x) == k]
            if not up: continue
            t = up[-1]
            items = [(i, e[1][i], t[2][i], e[2][i]) for i in range(len(pk)) if t[2][i][0] != "u" and e[2][i][0] != "u" and not (n == b"gpkg_contents" and i == 4)]
            if items: out.append((n, k, items))
    return out


def check_rebase(theirs, ours, outcs):
    """returns (message of C08, message of C09)"""
    th, ou = tables(theirs), tables(ours)
    es, end = outcs
    if end != "END": return None, "the rebased changeset is malformed"
    got = {}
    for n, pk, op, old, new in es:
        if n not in ou: return None, "table %r was not ours" % n
        if list(pk) != ou[n][0]: return None, "key flags of %r" % n
        got.setdefault(n, []).append((op, None if old is None else list(old), None if new is None else list(new)))
    m8 = m9 = None
    for n, (pk, el) in ou.items():
        tl = th[n][1] if n in th else []
        tins = {keyof(pk, e) for e in tl if e[0] == INS}
        tdel = {keyof(pk, e) for e in tl if e[0] == DEL}
        tupd = {keyof(pk, e): e for e in tl if e[0] == UPD}
        exp = [e for e in el if not (e[0] != INS and keyof(pk, e) in tdel)]
        g = got.get(n, [])
        if [e[0] for e in g] != [e[0] for e in exp]:
            m9 = m9 or "table %r: %d changes %r instead of %r" % (n, len(g), [e[0] for e in g][:12], [e[0] for e in exp][:12]); continue
        ki = pk.index(1)
        newkeys = []
        for a, b in zip(g, exp):
            if b[0] == INS:
                if [v for i, v in enumerate(a[2]) if i != ki] != [v for i, v in enumerate(b[2]) if i != ki]: m8 = m8 or "table %r: other columns of an insert: %r from %r" % (n, a[2], b[2])
                nk = a[2][ki]
                if nk[0] != "i": m8 = m8 or "key %r" % (nk,); continue
                newkeys.append(nk[1])
            elif b[0] == UPD:
                k = keyof(pk, b); t = tupd.get(k)
                old = [b[1][i] if i == ki or t is None or t[2][i][0] == "u" else t[2][i] for i in range(len(pk))]
                if a[1] != old: m9 = m9 or "table %r row %r: old values %r instead of %r" % (n, k, a[1], old)
                if a[2] != b[2]: m9 = m9 or "table %r row %r: new values %r instead of %r" % (n, k, a[2], b[2])
            else:
                k = keyof(pk, b); t = tupd.get(k)
                old = [b[1][i] if i == ki or t is None or t[2][i][0] == "u" else t[2][i] for i in range(len(pk))]
                if a[1] != old: m9 = m9 or "table %r row %r: old values %r instead of %r" % (n, k, a[1], old)
        if len(set(newkeys)) != len(newkeys): m8 = m8 or "table %r: inserts with the same key %r" % (n, newkeys)
        if set(newkeys) & tins: m8 = m8 or "table %r: keys %r were inserted by the other user" % (n, sorted(set(newkeys) & tins))
        oldkeys = [keyof(pk, e) for e in exp if e[0] == INS]
        changed = [(o, k) for o, k in zip(oldkeys, newkeys) if o != k]
        # an insert keeps its key unless it collides with theirs or with a new key
        if not tins and changed: m8 = m8 or "table %r: keys changed although nothing was inserted by the other user: %r" % (n, changed)
        for o, k in changed:
            if o not in tins and o not in [y for x, y in changed if x != o]: m8 = m8 or "table %r: key %r changed to %r although it collides with nothing" % (n, o, k)
    return m8, m9


def all_cases(c):
    cases = [x for x in special()]
    for _ in range(400 * (1 + 6 * c.deep)): cases.append(rcase(c.rng))
    return cases


def run_all(c, which):
    if not c.has("rebase -"): return
    cases = all_cases(c)
    B = 300
    for s in range(0, len(cases), B):
        if c.out_of_time(): return
        part = cases[s:s + B]
        cmds = []
        for i, (t, o) in enumerate(part):
            c.put("t%d" % i, fmt.encode(t)); c.put("o%d" % i, fmt.encode(o))
            if os.path.exists(c.path("n%d" % i)): os.remove(c.path("n%d" % i))
            cmds.append("rebase t%d n%d o%d" % (i, i, i))
        for i, ((t, o), rr) in enumerate(zip(part, c.drv.batch(cmds))):
            td, od, nd = c.get("t%d" % i), c.get("o%d" % i), c.get("n%d" % i)
            c.count((td, od), bool(fmt.flat(o)) and bool(fmt.flat(t)), (fmt.show(fmt.flat(t), "")[:150], fmt.show(fmt.flat(o), "")[:150], rr[:100]))
            f = rr.split(); msg = exp = None
            if td != fmt.encode(t) or od != fmt.encode(o): msg = "input files changed"
            elif f[:2] != ["ok", "0"]: msg = "answer " + rr[:300]
            elif nd is None: msg = "no output file"
            elif which == "c10":
                got = parse_conflicts(f[2:]); exp = expect_conflicts(t, o)
                key = lambda x: (x[0], x[1])
                if sorted(got, key=key) != sorted(exp, key=key): msg = "conflicts %r" % (got,)
            else:
                if not fmt.encode(t):
                    if nd != od and which == "c09": msg = "nothing to rebase on, but the changeset differs"
                else:
                    m8, m9 = check_rebase(t, o, fmt.decode(nd))
                    msg = m8 if which == "c08" else m9
            if msg: c.fail("rebase: " + msg[:400], "rebase theirs out ours", files=dict(theirs=td or b"", ours=od or b""), expected=exp if exp is not None else "theirs: %s ours: %s" % (fmt.show(fmt.flat(t), ""), fmt.show(fmt.flat(o), "")), observed=(msg, nd and fmt.show(*fmt.decode(nd)), rr[:500]))


def c08(c): run_all(c, "c08")
def c09(c): run_all(c, "c09")
def c10(c):
    run_all(c, "c10")
    textkeys(c)


def textkeys(c):
    """gpkg_contents as it is: text key, column 4 is the time of the last change"""
    if not c.has("rebase -"): return
    cmds, cases = [], []
    r = c.rng
    P = [1] + [0] * 9
    for i in range(60):
        rows = {n: [("t", n)] + [("t", b"v%d" % j) for j in range(9)] for n in (b"layer", b"roads", b"x")}
        def upd(s):
            es, ch = [], {}
            for n, row in rows.items():
                w = [j for j in range(1, 10) if r.random() < .4]
                if r.random() < .5 and 4 not in w: w.append(4)
                if w: es.append((UPD, [v if j in w or j == 0 else ("u",) for j, v in enumerate(row)], [("t", s + b"%d" % j) if j in w else ("u",) for j in range(10)])); ch[n] = set(w)
            return es, ch
        (a, ca), (b, cb) = upd(b"T"), upd(b"O")
        if not a or not b: continue
        exp = sum(1 for n in rows if (ca.get(n, set()) & cb.get(n, set())) - {4})
        expi = [sorted((ca.get(n, set()) & cb.get(n, set())) - {4}) for n in rows if (ca.get(n, set()) & cb.get(n, set())) - {4} ]
        t, o = [(b"gpkg_contents", P, a)], [(b"gpkg_contents", P, b)]
        c.put("kt%d" % i, fmt.encode(t)); c.put("ko%d" % i, fmt.encode(o))
        cmds.append("rebase kt%d kn%d ko%d" % (i, i, i)); cases.append((i, exp, expi))
    for (i, exp, expi), rr in zip(cases, c.drv.batch(cmds)):
        c.count((i, c.get("kt%d" % i)), bool(exp), rr[:100])
        f = rr.split()
        got = parse_conflicts(f[2:]) if f[:2] == ["ok", "0"] else None
        if got is None or sorted([x[0] for x in y[2]] for y in got) != sorted(expi):
            c.fail("conflicts of gpkg_contents", "rebase theirs out ours", files=dict(theirs=c.get("kt%d" % i), ours=c.get("ko%d" % i)), expected=expi, observed=rr[:1500])
