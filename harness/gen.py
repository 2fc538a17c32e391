"""Generators of values, rows and changesets."""
import struct

EDGE_INTS = [0, 1, -1, 2, 127, 128, 255, 256, 16383, 16384, 2**31 - 1, 2**31, -2**31, -2**31 - 1, 2**32, 2**53, 2**63 - 1, -2**63, 42]
EDGE_DBL = [0.0, -0.0, 1.0, -1.5, 0.1, 1e300, -1e-300, 5e-324, 123456789.25, float("inf"), float("-inf")]
WORDS = ["", "a", "abc", "O'Brien", 'say "hi"', "back\\slash", "tab\there", "new\nline", "cr\rx", "\x01\x02\x1f", "\x7f", "žluťoučký kůň", "日本語", "𝄞", "a,b;c", "null", "</script>", "{\"a\":1}", "\x08\x0c", "/", "x" * 127, "y" * 128, "z" * 300, "\x00", "mid\x00nul", "%s%d%n", "''", '""', "`"]
NAMES = ["t", "simple", "Points", "gpkg_contents", "layer 1", "a\"b", "o'x", "back\\sl", "čárka", "x" * 40, "tab\tname", "select", "rtree_t"]


def dbits(x): return struct.unpack(">Q", struct.pack(">d", x))[0]


def blob(r):
    k = r.random()
    if k < .15: return b""
    if k < .3: return bytes(range(256))
    if k < .4: return b"GP\0\x01" + bytes(r.randrange(256) for _ in range(20))
    n = r.choice([1, 2, 3, 4, 5, 7, 8, 30, 127, 128, 129, 200])
    return bytes(r.randrange(256) for _ in range(n))


def value(r, kinds="idtbn", utf8=True, nul=True):
    k = r.choice(kinds)
    if k == "i": return ("i", r.choice(EDGE_INTS) if r.random() < .6 else r.randint(-2**63, 2**63 - 1))
    if k == "d": return ("d", dbits(r.choice(EDGE_DBL)) if r.random() < .7 else dbits(r.uniform(-1e6, 1e6)))
    if k == "t":
        w = r.choice(WORDS)
        if not nul: w = w.replace("\0", "")
        if r.random() < .3: w += chr(r.choice([65, 0x20, 0x5c, 0x22, 0x1f, 0x2028, 0x1F600, 0x7e]))
        return ("t", w.encode())
    if k == "b": return ("b", blob(r))
    return (k,)


def pkflags(r, m):
    pk = [0] * m
    if m: pk[0 if r.random() < .7 else r.randrange(m)] = 1
    if m > 1 and r.random() < .25: pk[r.randrange(m)] = 1
    return pk


def entry(r, pk, keys="i", **kw):
    m = len(pk)
    op = r.choice([18, 23, 9])
    full = lambda: [value(r, keys) if p else value(r, **kw) for p in pk]
    if op == 18: return (op, None, full())
    if op == 9: return (op, full(), None)
    old, new = full(), [("u",)] * m
    any_ = False
    for j in range(m):
        if not pk[j]:
            if r.random() < .6: new[j] = value(r, **kw); any_ = True
            else: old[j] = ("u",)
    if m > 1 and r.random() < .1:
        for j in range(m):
            if pk[j]: new[j] = value(r, keys)
    return (op, old, new)


def changeset(r, maxtab=3, maxent=5, names=None, **kw):
    cs = []
    for _ in range(r.randint(0, maxtab)):
        m = r.choice([1, 2, 3, 3, 4, 5, 8]) if r.random() < .97 else r.choice([127, 128, 200])
        pk = pkflags(r, m)
        cs.append((r.choice(names or NAMES).encode(), pk, [entry(r, pk, **kw) for _ in range(r.randint(0, maxent))]))
    return cs


def nonempty_tables(cs): return [t for t in cs if t[2]]
