"""Discharging obligations: spec-function unfolding, z3 and cvc5 back ends."""
import z3, subprocess, time, os, tempfile, re, hashlib
from concurrent.futures import ThreadPoolExecutor
from .sorts import *
from . import sorts as S

REG = {}      # decl name -> fn(args) -> list of facts (definitional axioms, instantiated on ground occurrences)
DEFS_DOC = {}


class SpecFn:
    """an uninterpreted function with a definition that is unfolded on demand"""

    def __init__(self, name, *sorts, define=None, facts=None, doc=""):
        self.f = z3.Function(name, *sorts)
        self.name = name
        self.define = define
        if define or facts:
            REG[name] = self._facts
        self.extra = facts
        DEFS_DOC[name] = doc

    def _facts(self, app):
        out = []
        args = app.children()
        if self.define:
            d = self.define(*args)
            if d is not None:
                out.append(app == d)
        if self.extra:
            out += self.extra(app, *args)
        return out

    def __call__(self, *a):
        a = [z3.IntVal(x) if isinstance(x, int) and not isinstance(x, bool) else x for x in a]
        return self.f(*a)


def _pat_ok(t, depth=0):
    if z3.is_var(t): return True
    k = t.decl().kind()
    if k in (z3.Z3_OP_ITE, z3.Z3_OP_DISTINCT, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_EQ, z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT, z3.Z3_OP_IMPLIES):
        return False
    return all(_pat_ok(c) for c in t.children())


def _occurs(v, t): return t.eq(v) or any(_occurs(v, c) for c in t.children())


def FA(vs, body, *pats):
    """ForAll with the patterns that z3 accepts"""
    if not isinstance(vs, (list, tuple)): vs = [vs]
    ps = [p for p in pats if p.num_args() > 0 and _pat_ok(p) and all(_occurs(v, p) for v in vs) and p.decl().kind() not in (z3.Z3_OP_ADD, z3.Z3_OP_SUB)]
    return z3.ForAll(list(vs), body, patterns=ps) if ps else z3.ForAll(list(vs), body)


def _byte_facts(app):
    out = [app >= 0, app <= 255]
    s, i = app.children()
    if z3.is_string_value(s):
        r = S.runs(S.sval(s))
        if r: out.append(z3.Implies(z3.And(i >= 0, i < len(S.sval(s))), app == S.runs_at(r, i)))
    elif z3.is_app(s) and s.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
        pos, t = z3.IntVal(0), None
        parts = []
        flat = []
        def go(x):
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
                for c in x.children(): go(c)
            else: flat.append(x)
        go(s)
        for c in flat:
            parts.append((pos, c)); pos = z3.simplify(pos + S.slen(c))
        for p, c in parts:
            out.append(z3.Implies(z3.And(i >= p, i < p + S.slen(c)), app == S.byte(c, z3.simplify(i - p))))
    elif z3.is_app(s) and s.decl().kind() == z3.Z3_OP_ITE:
        out.append(app == z3.If(s.arg(0), S.byte(s.arg(1), i), S.byte(s.arg(2), i)))
    elif z3.is_app(s) and s.decl().name() == "chr1":
        c = s.arg(0)
        out.append(z3.Implies(i == 0, app == z3.If(z3.And(c >= 0, c <= 255), c, c % 256)))
    elif z3.is_app(s) and s.decl().name() in ("upd_str", "fill_str", "sub"):
        b = S.byte(s, i)
        if not b.eq(app): out.append(z3.Implies(z3.And(i >= 0, i < z3.Length(s)), app == b))
    return out


def _sub_facts(app):
    s, o, l = app.children()
    return [z3.Implies(z3.And(o >= 0, l >= 0, o + l <= z3.Length(s)), z3.Length(app) == l), z3.Implies(z3.And(o == 0, l == z3.Length(s)), app == s)]


REG["byte"] = _byte_facts
REG["sub"] = _sub_facts
REG["upd_str"] = lambda app: [z3.Length(app) == z3.Length(app.arg(0))]
REG["fill_str"] = lambda app: [z3.Implies(app.arg(0) >= 0, z3.Length(app) == app.arg(0))]
REG["chr1"] = lambda app: [z3.Length(app) == 1]
REG["le8"] = lambda app: [z3.Length(app) == 8]
REG["be8"] = lambda app: [z3.Length(app) == 8]
REG["le64at"] = lambda app: [app >= 0, app < 2**64]
REG["be64at"] = lambda app: [app >= 0, app < 2**64]
REG["bswap64"] = lambda app: [app >= 0, app < 2**64]


_walked, _unfolded, _regkeys = {}, {}, [None]


def _apps_of(f):
    """(ground applications of registered functions, text skolem constants) of one fact; remembered by fact"""
    r = _walked.get(f.get_id())
    if r is not None: return r
    out, sks, visited = [], [], {}
    def walk(t, ground):
        # returns True if t contains a bound variable
        k = t.get_id()
        r = visited.get(k)
        if r is not None: return r
        visited[k] = False
        if z3.is_var(t):
            visited[k] = True
            return True
        if z3.is_quantifier(t):
            walk(t.body(), False)
            return False
        v = False
        cs = t.children()
        for c in cs:
            if walk(c, ground): v = True
        visited[k] = v
        if not v and cs:
            if t.decl().name() in REG: out.append(t)
        elif ground and not cs and t.sort() == Str and t.decl().name().startswith("sk_"): sks.append(t)
        return v
    walk(f, True)
    _walked[f.get_id()] = r = (out, sks, f)
    return r


def _fresh_cache():
    k = frozenset(REG)
    if _regkeys[0] != k or len(_walked) > 20000:
        _walked.clear(); _regkeys[0] = k
    if len(_unfolded) > 20000: _unfolded.clear()


def ground_apps(terms, seen=None):
    """ground applications of registered functions"""
    import sys
    sys.setrecursionlimit(20000)
    seen = set() if seen is None else seen
    out = []
    for t in terms:
        for a in _apps_of(t)[0]:
            k = a.get_id()
            if k not in seen:
                seen.add(k)
                out.append(a)
    return out


def unfold(a):
    fn = REG[a.decl().name()]
    r = _unfolded.get(a.get_id())
    if r is None or r[0] is not fn:
        _unfolded[a.get_id()] = r = (fn, fn(a), a)
    return r[1]


PAIR = {}     # decl name -> fn(app1, app2) -> facts: extensionality lemmas, instantiated on pairs of ground occurrences


def text_instances(facts):
    """instances of one-variable quantified facts over texts at the skolem constants (so that definitions unfold on them)"""
    sks, qs, seen = [], [], set()
    for f in facts:
        if z3.is_quantifier(f) and f.is_forall() and f.num_vars() == 1 and f.var_sort(0) == Str: qs.append(f)
        for k in _apps_of(f)[1]:
            if k.get_id() not in seen:
                seen.add(k.get_id()); sks.append(k)
    return [z3.substitute_vars(q.body(), k) for q in qs[:30] for k in sks[:2]]


def instantiate(facts, fuel=3, limit=600):
    facts = list(facts)
    _fresh_cache()
    facts += text_instances(facts)
    seen = set()
    keep = []
    new = facts
    for rnd in range(fuel):
        apps = ground_apps(new, seen)
        old = keep
        keep = keep + apps
        if not apps: break
        new = []
        for k, a in enumerate(apps):
            nm = a.decl().name()
            if nm in PAIR:
                for b in old + apps[:k]:
                    if b.decl().eq(a.decl()): new += PAIR[nm](a, b)
        for a in apps:
            new += unfold(a)
        facts += new
        if len(facts) > limit * 4: break
    instantiate.keep = keep      # keep terms alive (ids)
    return facts


_sk = [0]


def skolem_goal(goal):
    """(extra hypotheses, goal without outer universal quantifiers)"""
    hyps = []
    while True:
        if z3.is_quantifier(goal) and goal.is_forall():
            cs = []
            for i in range(goal.num_vars()):
                _sk[0] += 1
                cs.append(z3.Const("sk_%s!%d" % (goal.var_name(i), _sk[0]), goal.var_sort(i)))
            goal = z3.substitute_vars(goal.body(), *reversed(cs))
        elif z3.is_implies(goal):
            hyps.append(goal.arg(0)); goal = goal.arg(1)
        else:
            return hyps, goal


def negate(goal):
    """facts equivalent to the negation of the goal, universal quantifiers skolemised"""
    if z3.is_and(goal):
        return [z3.Or([z3.And(negate(c)) if len(negate(c)) > 1 else negate(c)[0] for c in goal.children()])]
    h, g = skolem_goal(goal)
    if z3.is_and(g):
        return h + negate(g)
    return h + [z3.Not(g)]


def smt2(ob, fuel=3):
    fs = instantiate(list(ob.hyps) + negate(ob.goal), fuel)
    s = z3.Solver()
    seen = set()
    for f in fs:
        if f.get_id() in seen: continue
        seen.add(f.get_id())
        s.add(f)
    return s.to_smt2()


Z3 = "z3-new"


def run_solver(cmd, text, timeout):
    t0 = time.time()
    try:
        p = subprocess.run(cmd, input=text.encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout + 3)
        out = p.stdout.decode(errors="replace").strip()
    except subprocess.TimeoutExpired:
        out = "timeout"
    return (out.split("\n") or [""])[0].strip(), out, time.time() - t0


def discharge_text(text, timeout, want_model=False):
    """returns (status, backend, secs, model)"""
    total = 0
    r, out, dt = run_solver([Z3, "-in", "-T:%d" % max(1, timeout // 2)], text, timeout)
    total += dt
    if r == "unsat": return "discharged", "z3", total, None
    if r == "sat":
        r2, model = confirm_sat(text, timeout) if want_model else (None, None)
        return "failed", "z3", total, model
    ctext = "(set-logic ALL)\n" + fix_cvc5(text)
    r, out, dt = run_solver(["cvc5", "--strings-exp", "--tlimit=%d" % (timeout * 1000)], ctext, timeout)
    total += dt
    if r == "unsat": return "discharged", "cvc5", total, None
    if r == "sat": return "failed", "cvc5", total, None
    r, out, dt = run_solver([Z3, "-in", "-T:%d" % max(1, timeout // 2), "smt.random_seed=5"], text, timeout)
    total += dt
    if r == "unsat": return "discharged", "z3", total, None
    r, out, dt = run_solver([Z3, "-in", "-T:%d" % timeout, "smt.random_seed=7", "smt.mbqi=false"], text, timeout)
    total += dt
    if r == "unsat": return "discharged", "z3", total, None
    return "unknown", "z3+cvc5", total, None


def fix_cvc5(t):
    t = re.sub(r"\(set-info [^\n]*\n", "", t)
    t = t.replace("(_ char", "(_ char")
    return t


def confirm_sat(text, timeout):
    r, out, dt = run_solver([Z3, "-in", "-T:%d" % timeout], text.replace("(check-sat)", "(check-sat)\n(get-model)"), timeout)
    return r, out[:6000]


def discharge(obs, timeout=10, jobs=8, fuel=3):
    """solve all pending obligations in parallel; identical queries are solved once"""
    todo = {}
    for o in obs:
        if o.status: continue
        try:
            o.smt = smt2(o, fuel)
        except Exception as e:
            o.status, o.backend = "unknown", "generator: %r" % e
            continue
        h = hashlib.sha256(o.smt.encode()).hexdigest()
        todo.setdefault(h, []).append(o)

    def work(item):
        h, os_ = item
        st, be, secs, model = discharge_text(os_[0].smt, timeout, True)
        return os_, st, be, secs, model
    with ThreadPoolExecutor(jobs) as p:
        for os_, st, be, secs, model in p.map(work, todo.items()):
            for o in os_:
                o.status, o.backend, o.model = st, be, model
            os_[0].secs = secs
    return obs
