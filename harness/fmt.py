"""Independent statement of the documented changeset format (docs/changeset-format.md)."""
import struct

INS, UPD, DEL = 18, 23, 9


def varint(n):
    """SQLite varint"""
    assert 0 <= n < 2**64
    if n > 0x00FFFFFFFFFFFFFF:
        out = [n & 0xFF]; n >>= 8
        for _ in range(8):
            out.append((n & 0x7F) | 0x80); n >>= 7
        return bytes(reversed(out))
    out = [n & 0x7F]; n >>= 7
    while n:
        out.append((n & 0x7F) | 0x80); n >>= 7
    return bytes(reversed(out))


def getvarint(d, o):
    """(value, length) or None when it does not end inside d"""
    v = 0
    for i in range(9):
        if o + i >= len(d): return None
        b = d[o + i]
        if i == 8: return ((v << 8) | b), 9
        v = (v << 7) | (b & 0x7F)
        if b < 0x80: return v, i + 1


def enc_value(v):
    t = v[0]
    if t == "u": return b"\0"
    if t == "i": return b"\1" + struct.pack(">q", v[1])
    if t == "d": return b"\2" + struct.pack(">Q", v[1])
    if t == "t": return b"\3" + varint(len(v[1])) + v[1]
    if t == "b": return b"\4" + varint(len(v[1])) + v[1]
    if t == "n": return b"\5"
    raise ValueError(v)


def enc_table(name, pk):
    return b"T" + varint(len(pk)) + bytes(pk) + name + b"\0"


def enc_entry(e):
    op, old, new = e
    r = bytes([op, 0])
    if op != INS: r += b"".join(enc_value(v) for v in old)
    if op != DEL: r += b"".join(enc_value(v) for v in new)
    return r


def encode(cs):
    return b"".join(enc_table(n, pk) + b"".join(enc_entry(e) for e in es) for n, pk, es in cs)


class Bad(Exception): pass


def dec_value(d, o):
    if o >= len(d): raise Bad()
    t = d[o]; o += 1
    if t == 0: return ("u",), o
    if t in (1, 2):
        if o + 8 > len(d): raise Bad()
        x = d[o:o + 8]
        return (("i", struct.unpack(">q", x)[0]) if t == 1 else ("d", struct.unpack(">Q", x)[0])), o + 8
    if t in (3, 4):
        r = getvarint(d, o)
        if r is None: raise Bad()
        n, l = r
        o += l
        if n > 2**31 - 1 or o + n > len(d): raise Bad()
        return ("t" if t == 3 else "b", d[o:o + n]), o + n
    if t == 5: return ("n",), o
    raise Bad()


def decode(d):
    """([(name, pk, op, old, new)...], 'END' or 'ERR')"""
    out = []
    o = 0
    name, pk = b"", []
    try:
        while True:
            if o >= len(d): return out, "END"
            t = d[o]; o += 1
            if t == 84:
                r = getvarint(d, o)
                if r is None: raise Bad()
                n, l = r
                o += l
                if n > 65536 or o + n > len(d): raise Bad()
                pk = [1 if b else 0 for b in d[o:o + n]]; o += n
                e = d.find(b"\0", o)
                if e < 0: raise Bad()
                name = d[o:e]; o = e + 1
            elif t in (INS, UPD, DEL):
                if o >= len(d): raise Bad()
                o += 1
                old = new = None
                if t != INS:
                    old = []
                    for _ in pk:
                        v, o = dec_value(d, o); old.append(v)
                if t != DEL:
                    new = []
                    for _ in pk:
                        v, o = dec_value(d, o); new.append(v)
                out.append((name, pk, t, old, new))
            else:
                raise Bad()
    except Bad:
        return out, "ERR"


# ---- texts of the driver protocol
def sv(v):
    t = v[0]
    if t in "un": return t
    if t == "i": return "i%d" % v[1]
    if t == "d": return "d%016x" % v[1]
    return t + v[1].hex()


def pv(s):
    t = s[0]
    if t in "un": return (t,)
    if t == "i": return ("i", int(s[1:]))
    if t == "d": return ("d", int(s[1:], 16))
    return (t, bytes.fromhex(s[1:]))


def hx(b): return "x" + (b if isinstance(b, bytes) else b.encode()).hex()
def ux(s): return bytes.fromhex(s[1:])


def show_entry(e):
    name, pk, op, old, new = e
    f = lambda l: "-" if l is None else " ".join([str(len(l))] + [sv(v) for v in l])
    return "E %d %s p%s %s %s" % (op, hx(name), "".join(map(str, pk)), f(old), f(new))


def show(es, end):
    return "".join(" " + show_entry(e) for e in es) + " " + end


def flat(cs):
    return [(n, pk, e[0], e[1] if e[0] != INS else None, e[2] if e[0] != DEL else None) for n, pk, es in cs for e in es]


def group(es):
    """list of entries -> tables (consecutive)"""
    out = []
    for n, pk, op, old, new in es:
        if not out or out[-1][0] != n or out[-1][1] != pk: out.append((n, pk, []))
        out[-1][2].append((op, old, new))
    return out
