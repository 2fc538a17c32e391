"""Lemmas used by the contracts, proved by explicit induction (base and step are separate obligations)."""
from .common import *
from cppvc.exec import Ob
from cppvc.sorts import CHR
from cppvc.solve import PAIR
from cppvc import solve


def run(unit, obs, big, fuel=3):
    solve.discharge(obs, 60 if big else 20, 4, fuel)
    from check import ob_dict
    return dict(unit=unit, obs=[ob_dict(o, unit) for o in obs], outcomes=["lemma"], models=[])


def ob(name, hyps, goal): return Ob(name, hyps, goal, "lemma", "lemma", "lemma")


def ext_rowenc(prog, big):
    """equal values give equal encodings (extensionality of ROWENC), by induction on the number of values"""
    a, b, n, j = z3.Const("la", AV), z3.Const("lb", AV), z3.Int("ln"), z3.Int("lj")
    same = FA(j, z3.Implies(z3.And(j >= 0, j < n + 1), z3.Select(a, j) == z3.Select(b, j)), z3.Select(a, j))
    return run("ROWENC extensionality", [
        ob("base", [n <= 0], ROWENC(a, n) == ROWENC(b, n)),
        ob("step", [n >= 0, same, ROWENC(a, n) == ROWENC(b, n)], ROWENC(a, n + 1) == ROWENC(b, n + 1))], big, 1)


def pkcount_mono(prog, big):
    """the number of key columns among the first n grows with n, by induction on the distance"""
    from .rebase import PKCOUNT
    a, n, k = z3.Const("la", AB), z3.Int("ln"), z3.Int("lk")
    return run("PKCOUNT monotone", [ob("base", [], PKCOUNT(a, n) <= PKCOUNT(a, n + 0)), ob("step", [k >= 0, PKCOUNT(a, n) <= PKCOUNT(a, n + k)], PKCOUNT(a, n) <= PKCOUNT(a, n + k + 1))], big, 1)


def short_texts(prog, big):
    """a complete value inside a buffer shorter than 2 GB is shorter than 2 GB"""
    from . import reader as R
    d, o = z3.Const("ld", Str), z3.Int("lo")
    v = R.VDEC(d, o)
    return run("short texts", [ob("text", [R.VOK(d, o), z3.Length(d) < R.BIG, V.is_VText(v)], z3.Length(V.vt(v)) < R.BIG),
                               ob("blob", [R.VOK(d, o), z3.Length(d) < R.BIG, V.is_VBlob(v)], z3.Length(V.vb(v)) < R.BIG)], big, 3)


def update_params(prog, big):
    """the parameters 3i+1, 3i+2, 3i+3 of the UPDATE statement belong to column i"""
    from . import liteapply as L
    o, x, i = z3.Const("lo", AV), z3.Const("lx", AV), z3.Int("li")
    return run("update parameters", [ob("column i", [i >= 0], L.tri_facts(o, x, i, L.expbind))], big, 1)


def escape_chain(prog, big):
    """a chain of one-byte replacements maps every byte on its own:
    (1) REPL(c ++ y) = (c replaced or kept) ++ REPL(y); (2) hence REPL(x ++ y) = REPL(x) ++ REPL(y), by induction on x;
    (3) hence the chain is a map of the bytes, determined by its value on single bytes, which are evaluated"""
    from .util import REPL
    x, y, c, s, r = [z3.Const("l" + k, Str) for k in "xycsr"]
    one = lambda t: z3.Length(t) == 1
    i = z3.IndexOf(y, s, 0)
    idx = z3.IndexOf(z3.Concat(c, y), s, 0) == z3.If(i < 0, -1, i + 1)
    obs = [ob("first byte is the pattern", [one(s), c == s], REPL(z3.Concat(c, y), s, r) == z3.Concat(r, REPL(y, s, r))),
           ob("first byte is another one: position of the next occurrence", [one(s), one(c), c != s], idx),
           ob("first byte is another one, an occurrence follows", [one(s), one(c), c != s, idx, i >= 0], REPL(z3.Concat(c, y), s, r) == z3.Concat(c, REPL(y, s, r))),
           ob("first byte is another one, none follows", [one(s), one(c), c != s, idx, i < 0], REPL(z3.Concat(c, y), s, r) == z3.Concat(c, REPL(y, s, r))),
           ob("empty text", [one(s)], REPL(slit(""), s, r) == slit(""))]
    # induction on x: head(c) stands for what (1) gives for the first byte
    F = z3.Function("F_hom", Str, Str)
    h = z3.Function("head_hom", Str, Str)
    ax = lambda t: F(z3.Concat(c, t)) == z3.Concat(h(c), F(t))
    obs += [ob("concatenation, base", [F(slit("")) == slit("")], F(z3.Concat(slit(""), y)) == z3.Concat(F(slit("")), F(y))),
            ob("concatenation, step", [one(c), ax(x), ax(z3.Concat(x, y)), F(z3.Concat(x, y)) == z3.Concat(F(x), F(y))], F(z3.Concat(c, x, y)) == z3.Concat(F(z3.Concat(c, x)), F(y)))]
    r = run("escape chain", obs, big, 1)
    # (3) value of the chain on single bytes: REPL evaluated by the solver's own simplifier on literals
    from .jsons import JTAB
    chain = [("\\", "\\\\"), ("\n", "\\n"), ("\r", "\\r"), ("\t", "\\t"), ('"', '\\"')] + [(chr(k), "\\u%04x" % k) for k in range(32)]
    bad = []
    for k in range(256):
        t = chr(k)
        for a, b in chain:
            # by (1): replace byte by byte
            t = "".join(b if ch == a else ch for ch in t)
        if t != JTAB[k]: bad.append(k)
    r["obs"].append(dict(fn="escape chain", name="value of the chain on the 256 single bytes", kind="lemma", where="lemma", status="discharged" if not bad else "failed", backend="evaluation", secs=0.0,
                         **({} if not bad else dict(goal=str(bad), model=""))))
    return r


def double_inverse(prog, big):
    """inverting twice gives the original values of every column of a well-formed update"""
    o, n, pk = z3.Const("lo", V), z3.Const("ln", V), z3.Bool("lpk")
    def inv(o, n):
        mv = z3.And(pk, V.is_VUndef(n))
        return z3.If(mv, o, n), z3.If(mv, V.VUndef, o)
    o1, n1 = inv(o, n)
    o2, n2 = inv(o1, n1)
    wf = z3.Implies(pk, z3.Not(V.is_VUndef(o)))
    return run("double inversion", [ob("old value", [wf], o2 == o), ob("new value", [wf], n2 == n),
                                    ob("an inverted update is well-formed", [wf], z3.Implies(pk, z3.Not(V.is_VUndef(o1))))], big)


def _out(prog):
    from . import rebase
    from check import load_program
    from cppvc.expr import FullExec
    from cppvc.contracts import Contracts
    ex = FullExec(load_program("rebase"), Contracts(rebase.CONTRACTS), {})
    return rebase.OUT(ex)


def ext_lists(prog, big):
    """equal lists of changes give equal records and equal encodings; a prefix of short records is short; the encoding of a list
    is the concatenation of the encodings of its records: each by induction on the length"""
    r = _out(prog)
    ae = r.LIST.f.domain(0)
    a, b, n, j, k = z3.Const("la", ae), z3.Const("lb", ae), z3.Int("ln"), z3.Int("lj"), z3.Int("lk")
    same = FA(j, z3.Implies(z3.And(j >= 0, j < n + 1), z3.Select(a, j) == z3.Select(b, j)), z3.Select(a, j))
    lg = r.lg
    enc = lambda w: ROWENC(*vec(w))
    ENCL = SpecFn("ENCL", lg, Str, define=lambda l: z3.If(lg.is_ins(l), z3.Concat(ENCL(lg.ihead(l)), concat(CHR(iv(18)), slit("\0"), slit(""), enc(lg.inew(l)))),
                  z3.If(lg.recognizer(2)(l), z3.Concat(ENCL(lg.dhead(l)), concat(CHR(iv(9)), slit("\0"), enc(lg.dold(l)), slit(""))),
                  z3.If(lg.is_upd(l), z3.Concat(ENCL(lg.uhead(l)), concat(CHR(iv(23)), slit("\0"), enc(lg.uold(l)), enc(lg.unew(l)))), slit("")))))
    op = r.ef("op", z3.Select(a, n))
    obs = []
    for nm, F in (("RECORDS", r.LIST), ("ENCV", r.ENCV)):
        obs += [ob(nm + " extensionality, base", [n <= 0], F(a, n) == F(b, n)), ob(nm + " extensionality, step", [n >= 0, same, F(a, n) == F(b, n)], F(a, n + 1) == F(b, n + 1))]
    obs += [ob("prefix of short records, base", [n == k, r.SHORTL(r.LIST(a, n))], r.SHORTL(r.LIST(a, k))),
            ob("prefix of short records, step", [n >= k, z3.Implies(r.SHORTL(r.LIST(a, n)), r.SHORTL(r.LIST(a, k))), r.SHORTL(r.LIST(a, n + 1))], z3.Or(n < 0, r.SHORTL(r.LIST(a, k)))),
            ob("prefix of no records", [n < 0, k <= n + 1], r.LIST(a, k) == r.LIST(a, n + 1)),
            ob("encoding of a list, base", [n <= 0], r.ENCV(a, n) == ENCL(r.LIST(a, n)))]
    obs += [ob("encoding of a list, step (operation %d)" % o, [n >= 0, op == o, r.ENCV(a, n) == ENCL(r.LIST(a, n))], r.ENCV(a, n + 1) == ENCL(r.LIST(a, n + 1))) for o in (18, 9, 23)]
    saved = {k: PAIR.pop(k) for k in ("RECORDS", "ENCV", "ROWENC") if k in PAIR}       # the lemmas must not be used to prove themselves
    try:
        return run("lists of changes", obs, big, 2)
    finally:
        PAIR.update(saved)


def rebase_keys(prog, big):
    """from the contract of _find_mapping_for_new_changeset (mapping_ok, which holds for every table and all pairs of keys) and the
    key that _handle_insert writes: final keys of our inserts are not among theirs and pairwise distinct, and an insert that
    collides with nothing keeps its key.  M, V: the mapping; ours, theirs, gone: inserted by us / by them, and rows of ours that
    they deleted.  A changeset never inserts a key that it also updates or deletes (odd)."""
    M, ours, theirs, gone = [z3.Function(n, I, B) for n in ("lM", "lours", "ltheirs", "lgone")]
    Vf = z3.Function("lV", I, I)
    a, b, q = z3.Ints("la lb lq")
    re = lambda k: z3.And(M(k), Vf(k) != -1)
    final = lambda k: z3.If(M(k), Vf(k), k)
    def ok(x, y):
        return [z3.Implies(z3.And(ours(x), theirs(x)), M(x)), z3.Implies(z3.And(re(x), theirs(y)), Vf(x) > y), z3.Implies(z3.And(re(x), re(y), Vf(x) == Vf(y)), x == y),
                z3.Implies(z3.And(ours(x), z3.Not(M(x)), re(y)), Vf(y) != x), z3.Implies(re(x), z3.And(ours(x), z3.Or(theirs(x), z3.Exists([q], z3.And(M(q), z3.Or(z3.And(Vf(q) == x, x != -1), z3.And(Vf(q) == -1, ours(q)))))))),
                z3.Implies(z3.And(M(x), Vf(x) == -1), gone(x)), z3.Implies(gone(x), M(x))]
    odd = lambda x: z3.And(ours(x), gone(x))
    A = z3.And([g for x in (a, b) for y in (a, b) for g in ok(x, y)])
    H = [A, z3.Not(odd(a)), z3.Not(odd(b)), ours(a)]
    noodd = z3.ForAll([q], z3.And(z3.Not(odd(q)), z3.Implies(z3.And(M(q), Vf(q) == -1), gone(q))))
    return run("keys after rebasing", [
        ob("a final key is not one that they inserted", H + [theirs(b)], final(a) != b),
        ob("final keys of different inserts differ", H + [ours(b), a != b], final(a) != final(b)),
        ob("an insert that collides with nothing keeps its key", H + [noodd, z3.Not(theirs(a)), z3.ForAll([q], z3.Not(z3.And(re(q), Vf(q) == a)))], final(a) == a),
        ob("our inserts are never dropped", H, z3.Not(z3.And(M(a), Vf(a) == -1)))], big)
