"""C01: changesetvarint.h under CBMC function contracts (bit precise, all inputs).

The header is included as it is; the contracts are put on declarations that precede it.  goto-instrument
--dfcc enforces each contract on the real body and replaces calls by the callee's contract."""
import os, subprocess, tempfile, shutil, time, json, re
from concurrent.futures import ThreadPoolExecutor
SRC = os.environ.get("GEODIFF_REPO", "/repo") + "/geodiff/src"


def dec(n, p="p"):
    """value of the n byte varint at p"""
    if n == 9:
        hi = [("((u64s)(%s[%d]&0x7f)<<%d)" % (p, i, 8 + 7 * (7 - i))) for i in range(8)]
        return "(" + "|".join(hi + ["(u64s)%s[8]" % p]) + ")"
    return "(" + "|".join("((u64s)(%s[%d]&0x7f)<<%d)" % (p, i, 7 * (n - 1 - i)) for i in range(n)) + ")"


def by_len(f, n="g_len"):
    t = f(9)
    for k in range(8, 0, -1): t = "(%s==%d?%s:%s)" % (n, k, f(k), t)
    return t


def spec_len(v):
    t = "9"
    for k in range(8, 0, -1): t = "((%s)<(1ull<<%d)?%d:%s)" % (v, 7 * k, k, t)
    return t


def enc_byte(v, n, i):
    """byte i of the n byte encoding of v"""
    if n == 9:
        return "(u8s)(%s)" % v if i == 8 else "(u8s)(((%s)>>%d)&0x7f|0x80)" % (v, 8 + 7 * (7 - i))
    return "(u8s)(((%s)>>%d)&0x7f%s)" % (v, 7 * (n - 1 - i), "" if i == n - 1 else "|0x80")


def enc_ok(v, p="p", old=lambda x: x):
    return "&&".join("(%s!=%d||(%s))" % (spec_len(v), n, "&&".join("%s[%d]==%s" % (p, i, enc_byte(v, n, i)) for i in range(n))) for n in range(1, 10))


def is_varint(n="g_len", p="p"):
    """the varint at p has exactly n bytes"""
    return "(%s>=1&&%s<=9&&%s)" % (n, n, "&&".join("(%s<=%d||(%s[%d]&0x80))" % (n, i + 1, p, i) for i in range(8)) + "&&" + by_len(lambda k: "1" if k == 9 else "!(%s[%d]&0x80)" % (p, k - 1), n))


def source():
    D = by_len(dec)
    V = is_varint()
    rd = "__CPROVER_requires(g_len>=1&&g_len<=9)\n__CPROVER_requires(__CPROVER_is_fresh(p,g_len))\n__CPROVER_requires(__CPROVER_is_fresh(v,sizeof(*v)))\n__CPROVER_requires(%s)\n" % V
    return r"""
#include <stdint.h>
#include <assert.h>
#include <stddef.h>
typedef uint64_t u64s; typedef uint8_t u8s; typedef uint32_t u32s;
/* ghost: the exact length of the varint at p */
unsigned g_len;
#ifdef CHECK_READ
static uint8_t sqlite3GetVarint(const unsigned char *p, uint64_t *v)
%(rd)s__CPROVER_assigns(*v)
__CPROVER_ensures(__CPROVER_return_value==g_len)
__CPROVER_ensures(*v==%(D)s);
static uint8_t sqlite3GetVarint32(const unsigned char *p, uint32_t *v)
%(rd)s__CPROVER_requires(p[0]&0x80)
__CPROVER_assigns(*v)
__CPROVER_ensures(__CPROVER_return_value==g_len)
__CPROVER_ensures(*v==(%(D)s>0xffffffffull?0xffffffffu:(u32s)%(D)s));
static uint8_t wrap_getVarint32(const unsigned char *p, uint32_t *v)
%(rd)s__CPROVER_assigns(*v)
__CPROVER_ensures(__CPROVER_return_value==g_len)
__CPROVER_ensures(*v==(%(D)s>0xffffffffull?0xffffffffu:(u32s)%(D)s));
#else
static int putVarint64(unsigned char *p, uint64_t v)
__CPROVER_requires(__CPROVER_is_fresh(p,%(L)s))
__CPROVER_assigns(__CPROVER_object_whole(p))
__CPROVER_ensures(__CPROVER_return_value==%(L)s)
__CPROVER_ensures(%(E)s);
static int sqlite3PutVarint(unsigned char *p, uint64_t v)
__CPROVER_requires(__CPROVER_is_fresh(p,%(L)s))
__CPROVER_assigns(__CPROVER_object_whole(p))
__CPROVER_ensures(__CPROVER_return_value==%(L)s)
__CPROVER_ensures(%(E)s);
static uint8_t wrap_putVarint32(unsigned char *p, uint32_t v)
__CPROVER_requires(__CPROVER_is_fresh(p,%(L)s))
__CPROVER_assigns(__CPROVER_object_whole(p))
__CPROVER_ensures(__CPROVER_return_value==%(L)s)
__CPROVER_ensures(%(E)s);
#endif
#include "changesetvarint.h"
static uint8_t wrap_getVarint32(const unsigned char *p, uint32_t *v) { u32 x; uint8_t n = getVarint32(p, x); *v = x; return n; }
static uint8_t wrap_putVarint32(unsigned char *p, uint32_t v) { return putVarint32(p, v); }
void h_sqlite3GetVarint(void) { unsigned n; const unsigned char *p; uint64_t *v; g_len = n; sqlite3GetVarint(p, v); }
void h_sqlite3GetVarint32(void) { unsigned n; const unsigned char *p; uint32_t *v; g_len = n; sqlite3GetVarint32(p, v); }
void h_wrap_getVarint32(void) { unsigned n; const unsigned char *p; uint32_t *v; g_len = n; wrap_getVarint32(p, v); }
void h_putVarint64(void) { unsigned char *p; uint64_t v; putVarint64(p, v); }
void h_sqlite3PutVarint(void) { unsigned char *p; uint64_t v; sqlite3PutVarint(p, v); }
void h_wrap_putVarint32(void) { unsigned char *p; uint32_t v; wrap_putVarint32(p, v); }
/* the two specifications are inverse to each other: any buffer that starts with the documented encoding of v */
void h_lemma(void)
{
  unsigned char p[9];
  uint64_t v;
  unsigned n = %(L)s;
  __CPROVER_assume(%(E)s);
  __CPROVER_assert(%(VN)s, "the encoding of every number is one varint of the documented length");
  __CPROVER_assert(%(DN)s == v, "decoding the encoding gives the number");
  if (v < 128) __CPROVER_assert(n == 1 && p[0] == v, "numbers below 128 are one byte");
}
""" % dict(rd=rd, D=D, L=spec_len("v"), E=enc_ok("v"), VN=is_varint("n"), DN=by_len(dec, "n"))


JOBS = [("sqlite3GetVarint", "CHECK_READ", []), ("sqlite3GetVarint32", "CHECK_READ", ["sqlite3GetVarint"]), ("wrap_getVarint32", "CHECK_READ", ["sqlite3GetVarint32"]),
        ("putVarint64", None, []), ("sqlite3PutVarint", None, ["putVarint64"]), ("wrap_putVarint32", None, ["sqlite3PutVarint"]), ("lemma", None, None)]
NAMES = {"wrap_getVarint32": "getVarint32 (macro)", "wrap_putVarint32": "putVarint32 (macro)", "lemma": "lemma: decode(encode(v)) = v"}


def sh(cmd, cwd, timeout=400):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)


def job(d, j):
    fn, define, repl = j
    t0 = time.time()
    nm = NAMES.get(fn, fn)
    g = fn + ".goto"
    p = sh(["goto-cc", "-I", SRC, "-std=c11"] + (["-D" + define] if define else []) + ["-o", g, "v.c", "--function", "h_" + fn], d)
    if p.returncode:
        return nm, None, "goto-cc: " + p.stdout.decode(errors="replace")[-1500:], time.time() - t0
    if repl is not None:
        cmd = ["goto-instrument", "--dfcc", "h_" + fn, "--enforce-contract", fn]
        for r in repl: cmd += ["--replace-call-with-contract", r]
        p = sh(cmd + [g, g + "2"], d)
        if p.returncode:
            return nm, None, "goto-instrument: " + p.stdout.decode(errors="replace")[-1500:], time.time() - t0
        g += "2"
    p = sh(["cbmc", g, "--unwind", "20", "--unwinding-assertions", "--bounds-check", "--pointer-check", "--signed-overflow-check", "--undefined-shift-check", "--pointer-overflow-check",
            "--json-ui", "--trace", "--verbosity", "6"], d)
    try:
        js = json.loads(p.stdout.decode(errors="replace"))
    except Exception as e:
        return nm, None, "cbmc: " + p.stdout.decode(errors="replace")[-1500:], time.time() - t0
    res = None
    for x in js:
        if "result" in x: res = x["result"]
    if res is None:
        return nm, None, "cbmc gave no result: " + json.dumps(js)[-1500:], time.time() - t0
    return nm, res, "", time.time() - t0


def prove(prog, big):
    d = tempfile.mkdtemp(prefix="c01_")
    try:
        with open(os.path.join(d, "v.c"), "w") as f: f.write(source())
        with ThreadPoolExecutor(7) as p: rs = list(p.map(lambda j: job(d, j), JOBS))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    obs, seen = [], set()
    for nm, res, err, secs in rs:
        if res is None:
            raise RuntimeError(nm + ": " + err)
        for r in res:
            st = "discharged" if r["status"] == "SUCCESS" else "failed"
            loc = r.get("sourceLocation", {})
            key = (nm, r.get("description"), loc.get("file"), loc.get("line"), st)
            if key in seen: continue               # the same check of one source line, counted once
            seen.add(key)
            o = dict(fn=nm, name=r.get("description", r.get("property")), kind="cbmc", where="%s:%s" % (os.path.basename(loc.get("file", "?")), loc.get("line", "?")), status=st, backend="cbmc", secs=round(secs / max(1, len(res)), 4))
            if st == "failed":
                tr = [(s.get("lhs"), s.get("value", {}).get("data")) for s in r.get("trace", []) if s.get("stepType") == "assignment" and s.get("lhs") in ("v", "g_len", "p", "n")]
                o["model"] = str(tr[-40:]); o["goal"] = r.get("property", "")
            obs.append(o)
    return dict(unit="changesetvarint.h (7 contract checks)", obs=obs, outcomes=[nm for nm, *_ in rs], models=[])
