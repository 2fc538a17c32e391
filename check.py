#!/opt/veriftools/pyvenv/bin/python3
"""Decides one property:  python3-vt check.py C02

1. every unit (function under contract, lemma, bit-precise harness) of the property is generated from the
   current sources of /repo and all its obligations are discharged by z3 / cvc5 / cbmc;
2. the bounded run of the harness validates the trusted contracts and stands in (labelled bounded) for
   functions outside the verifier's reach; it also is the replay search for failed obligations.
"""
import sys, os, json, time, traceback, importlib, multiprocessing as mp, hashlib
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)

BIG = dict(feas_ms=600, prove_ms=1500, houdini_ms=15000)
_prog = {}


def load_program(mod=None):
    """the clang AST of the current sources; a spec module may choose which classes stay abstract"""
    from specs import common
    ab = getattr(importlib.import_module("specs." + mod), "ABSTRACT", common.ABSTRACT) if mod else common.ABSTRACT
    k = tuple(sorted(ab))
    if k not in _prog:
        from cppvc.prog import Program
        _prog[k] = Program(common.ALL, ab)
    return _prog[k]


def ob_dict(o, fn):
    return dict(fn=fn, name=o.name, kind=o.kind, where=str(o.where), status=o.status, backend=o.backend, secs=round(o.secs or 0, 3),
                **({} if o.status == "discharged" else dict(goal=str(o.goal)[:3000], model=str(o.model or "")[:4000])))


def merge(a, b):
    return dict(a, **{k: max(v, a.get(k, 0)) for k, v in b.items()})


def run_contract(mod, idx, timeout, opts, jobs):
    import z3
    from cppvc.expr import FullExec
    from cppvc.contracts import Contracts, verify
    from cppvc import solve
    m = importlib.import_module("specs." + mod)
    c = m.CONTRACTS[idx]
    name = getattr(c, "label", c.name)
    ex = FullExec(load_program(mod), Contracts(m.CONTRACTS), merge(dict(getattr(m, "OPTS", {}), **getattr(c, "opts", {})), opts))
    verify(ex, c)
    solve.discharge(ex.obs, timeout, jobs, getattr(c, "fuel", 3))
    obs = [ob_dict(o, name) for o in ex.obs]
    kinds = sorted(set(k for k, _ in ex.outcomes_seen))
    # vacuity: the precondition and at least one path to the end must not be contradictory
    s = z3.Solver(); s.set("timeout", 4000)
    for f in ex.pre_facts: s.add(f)
    vac = str(s.check())
    used = sorted(set(getattr(ex, "contracts_used", [])))
    return dict(unit=name, obs=obs, outcomes=kinds, paths=len(ex.outcomes_seen), pre_sat=vac, smt=ex.smt_calls, models=sorted(str(x) for x in getattr(ex, "used_models", [])), used=used)


def run_unit(u, big):
    t0 = time.time()
    try:
        if u["type"] == "contract":
            tmo, opts = (60, BIG) if big else (12, {})
            r = run_contract(u["mod"], u["idx"], tmo, opts, 4 if big else 2)
        else:
            m = importlib.import_module("specs." + u["mod"])
            r = getattr(m, u["name"])(load_program(u["mod"]) if u.get("prog", True) else None, big)
            r.setdefault("unit", u["label"])
        r["outside"] = None
    except Exception as e:
        from cppvc.ast import ExtractError
        from cppvc.sorts import Unsupported
        r = dict(unit=u["label"], obs=[], outside="%s: %s" % (type(e).__name__, e), tb=traceback.format_exc()[-1500:])
    r["secs"] = round(time.time() - t0, 2)
    r["label"] = u["label"]
    return r


def work(a):
    return run_unit(*a)


def bad_obs(r):
    return [o for o in r["obs"] if o["status"] != "discharged"]


def run_units(units, thorough):
    for u in units:
        if u["type"] == "contract" or u.get("prog", True): load_program(u["mod"])
    out = {}
    order = sorted(range(len(units)), key=lambda i: -units[i].get("cost", 1))
    ctx = mp.get_context("fork")
    t0 = time.time()
    limit1, limit2 = (1800, 5400) if thorough else (420, 600)      # seconds since the start

    def go(idx, big, procs, limit):
        with ctx.Pool(min(procs, max(1, len(idx))), maxtasksperchild=1) as p:
            rs = [(i, p.apply_async(work, ((units[i], big),))) for i in idx]
            for i, r in rs:
                try:
                    out[i] = r.get(max(0.1, limit - (time.time() - t0)))
                except mp.TimeoutError:
                    if i not in out:
                        out[i] = dict(unit=units[i]["label"], label=units[i]["label"], obs=[], outside="time limit of the check", secs=round(time.time() - t0, 1))
    go(order, False, 6, limit1)
    # second attempt with generous limits, few at a time
    again = [i for i in order if bad_obs(out[i]) or (out[i]["outside"] and "imeout" in out[i]["outside"])]
    if again: go(again, True, 3, limit2)
    return [out[i] for i in range(len(units))]


def expand(spec):
    units = []
    for u in spec.get("units", []):
        mod, names = u[0], (u[1] if len(u) > 1 else None)
        m = importlib.import_module("specs." + mod)
        for k, c in enumerate(m.CONTRACTS):
            if c.trusted or (names and c.name not in names and c.name.split("::")[-1] not in names and type(c).__name__ not in names): continue
            units.append(dict(type="contract", mod=mod, idx=k, name=c.name, label=getattr(c, "label", c.name), cost=getattr(c, "cost", 1)))
    for u in spec.get("lemmas", []):
        units.append(dict(type="func", mod=u[0], name=u[1], label="%s.%s" % (u[0], u[1]), cost=5, prog=not (len(u) > 2 and u[2] == "noprog")))
    return units


def harness(prop, spec, seed, deep, budget, seeds=1):
    from harness.ctx import Ctx
    h = spec.get("harness")
    if not h: return None
    hs = h if isinstance(h, list) else [h]
    tot = dict(n=0, nontrivial=0, samples=[], fails=[], skipped=[], known=[], built=True, msgs=[])
    for k in range(seeds):
        for mod, fn in hs:
            c = Ctx(prop, seed + k * 1000, deep, budget)
            tot["msgs"] = c.msgs
            try:
                if c.exe is None:
                    tot["built"] = False
                    tot["skipped"].append("the sources do not compile: " + (c.msgs or ["?"])[-1][:500])
                    continue
                getattr(importlib.import_module("harness." + mod), fn)(c)
            finally:
                c.close()
            tot["n"] += c.n; tot["nontrivial"] += c.nontrivial
            tot["samples"] = (tot["samples"] + c.samples)[:6]
            tot["fails"] += c.fails; tot["skipped"] += c.skipped; tot["known"] += c.known
            if tot["fails"]: return tot
    return tot


def known_findings():
    f = os.path.join(ROOT, "known_findings.json")
    return json.load(open(f)) if os.path.exists(f) else {"findings": [], "fixed": []}


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv: tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    from specs.registry import PROPS
    spec = PROPS[prop]
    thorough = tier == "thorough"
    units = expand(spec)
    for u in units: u["thorough"] = thorough
    res, generr = [], None
    hq = mp.get_context("fork").Queue()
    try:
        if units: res = run_units(units, thorough)
    except Exception as e:
        generr = "%s: %s" % (type(e).__name__, e)
        traceback.print_exc()
        res = [dict(unit=u["label"], label=u["label"], obs=[], outside="front end: " + generr, secs=0) for u in units]
    h = harness(prop, spec, seed, 2 if thorough else 0, 600 if thorough else 150, 3 if thorough else 1)
    obs = [o for r in res for o in r["obs"]]
    failed = [(r, o) for r in res for o in bad_obs(r)]
    outside = [r for r in res if r["outside"]]
    vac = [r for r in res if not r["outside"] and ((not r["obs"] and not r.get("outcomes")) or r.get("pre_sat") == "unsat")]
    viol = []
    rdir = os.path.join(ROOT, "replay", prop)
    os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir): os.remove(os.path.join(rdir, f))

    def replay_file(n, d):
        p = os.path.join(rdir, "%s.json" % n)
        with open(p, "w") as f: json.dump(d, f, indent=1)
        return p
    hf = list(h["fails"]) if h else []
    if (failed or vac) and not hf and h is not None and not thorough:
        h2 = harness(prop, spec, seed + 77, 1, 90, 4)
        hf = h2["fails"]
        h["n"] += h2["n"]; h["nontrivial"] += h2["nontrivial"]
    fo = [dict(function=o["fn"], obligation=o["name"], kind=o["kind"], where=o["where"], status=o["status"], goal=o.get("goal"), solver_output=o.get("model")) for r, o in failed]
    if hf:
        for i, f in enumerate(hf[:3]):
            p = replay_file("input%d" % i, dict(property=prop, failing_input=f, failed_obligations=fo))
            viol.append("VIOLATION property=%s replay=%s" % (prop, p))
            print("  failing input: %s; expected %s; observed %s" % (f["what"], f["expected"][:200], f["observed"][:200]))
    elif failed:
        p = replay_file("obligation", dict(property=prop, failing_input=None, note="the verifier did not accept these obligations and no failing input was found", failed_obligations=fo))
        viol.append("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, p))
    elif vac:
        p = replay_file("vacuous", dict(property=prop, failing_input=None, note="contract became vacuous", units=[r["unit"] for r in vac]))
        viol.append("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, p))
    for r, o in failed: print("  not accepted: [%s] %s (%s) at %s: %s" % (o["fn"], o["name"], o["kind"], o["where"], o["status"]))
    for r in outside: print("  outside the verifier's reach (bounded stand-in only): %s: %s" % (r["unit"], r["outside"][:300]))
    if h and h["skipped"]:
        for s in sorted(set(h["skipped"])): print("  harness: " + s)
    kf = [k for k in known_findings()["findings"] if k["property"] == prop]
    for k in kf: print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    be = {}
    for o in obs:
        if o["status"] == "discharged": be[o["backend"]] = be.get(o["backend"], 0) + 1
    trusted = list(spec.get("trusted", []))
    models = sorted(set(x for r in res for x in r.get("models", [])))
    proved = bool(obs) and not outside
    level = spec["level"]
    cov = dict(obligations=len(obs), discharged=sum(o["status"] == "discharged" for o in obs), checker_cmd="python3-vt check.py %s" % prop,
               trusted_base=trusted + (["assumed contracts on the standard library used in this run: " + ", ".join(models)] if models else []),
               functions_under_contract=[dict(function=r["unit"], obligations=len(r["obs"]), discharged=len(r["obs"]) - len(bad_obs(r)), seconds=r["secs"], outcomes=r.get("outcomes"), paths=r.get("paths"),
                                              outside_reach=r["outside"]) for r in res],
               backends=be, solver_seconds=round(sum(o["secs"] for o in obs), 2), obligation_kinds={k: sum(o["kind"] == k for o in obs) for k in sorted(set(o["kind"] for o in obs))},
               bounded_functions=spec.get("bounded", []))
    if h:
        cov.update(evaluations=h["n"], distinct_nontrivial=h["nontrivial"], rule=spec.get("rule", "cases of the bounded run (replay search and validation of trusted contracts): corner cases and seeded random inputs; non-trivial: not empty"),
                   samples=h["samples"], bounded_run_skipped=sorted(set(h["skipped"])))
        cov["bounded_run"] = "bounded, not counted as proved: " + spec.get("bounded_note", "the real code compiled with ASan and UBSan, compared with an independent oracle on %d cases" % h["n"])
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov, assumptions=spec.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=len(viol))
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f: json.dump(ev, f, indent=1)
    print("%s: %d functions, %d/%d obligations discharged, %d bounded cases, %.1f s" % (prop, len(res), cov["discharged"], cov["obligations"], h["n"] if h else 0, time.time() - t0))
    for v in viol: print(v)
    sys.stdout.flush()
    os._exit(1 if viol else 0)


if __name__ == "__main__":
    main()
