"""seed.py <id>...: makes /verif/seeded/<id>/ from tools/seeds/<id>.py and confirms it in /repo (reverted afterwards).
   seed.py --checks <id>...: also runs the property's check with the change applied."""
import sys, os, subprocess, json, shutil, runpy, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo"


def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)


def tests():
    sh("bash /opt/vp/test.sh /tmp/seed_t.json")
    return sorted(json.load(open("/tmp/seed_t.json"))["passed"])


def make(i, checks):
    m = runpy.run_path("%s/tools/seeds/%s.py" % (ROOT, i))
    d = "%s/seeded/%s" % (ROOT, i)
    assert sh("git -C /repo status --porcelain").stdout == b"", "/repo is not clean"
    if not os.path.isdir(d) or not checks:
        os.makedirs(d, exist_ok=True)
        for f in os.listdir(d): os.remove(os.path.join(d, f))
        for f in ("gpkg.h", "geodiff_config.hpp", "demo_common.h"): shutil.copy("%s/tools/seedlib/%s" % (ROOT, f), d)
        sc = open("%s/tools/seedlib/build_demo.sh" % ROOT).read()
        sc = sc.replace("\nF=", "\nDEMO_FLAGS=\"%s\"\nDEMO_LIBS=\"%s\"\nF=" % (m.get("FLAGS", ""), m.get("LIBS", "-lpq")), 1)
        open(d + "/demo.sh", "w").write(sc); os.chmod(d + "/demo.sh", 0o755)
        open(d + "/demo.cpp", "w").write(m["DEMO"].lstrip())
        for n, t in m.get("FILES", {}).items(): open(d + "/" + n, "w").write(t)
        json.dump(dict(property=m["PROPERTY"], needs=m["NEEDS"], what_it_breaks=m["BREAKS"]), open(d + "/meta.json", "w"), indent=1)
    ok = True
    base = json.load(open("/opt/vp/BASELINE.json"))
    try:
        if not checks:
            a = sh("bash %s/demo.sh" % d, cwd=R)
            if a.returncode: print(i, "DEMO FAILS ON THE UNCHANGED TREE", a.stdout.decode()[-1500:]); ok = False
            for f, o, n in m["EDITS"]:
                p = "%s/geodiff/src/%s" % (R, f)
                s = open(p).read()
                assert s.count(o) == 1, (f, o, s.count(o))
                open(p, "w").write(s.replace(o, n))
            open(d + "/patch.diff", "wb").write(sh("git -C /repo diff").stdout)
            b = sh("bash /opt/vp/build.sh", cwd=R)
            if b.returncode: print(i, "DOES NOT BUILD", b.stdout.decode()[-1500:]); ok = False
            t = tests()
            if len(t) != 10: print(i, "TESTS", t); ok = False
            a = sh("bash %s/demo.sh" % d, cwd=R)
            if a.returncode == 0: print(i, "DEMO PASSES WITH THE CHANGE"); ok = False
            else: print(i, "ok, demo:", a.stdout.decode().strip().replace("\n", " | ")[-200:])
        else:
            assert sh("git -C /repo apply %s/patch.diff" % d).returncode == 0
            p = m["PROPERTY"]
            t0 = time.time()
            a = sh("python3-vt check.py " + p, cwd=ROOT)
            v = [l for l in a.stdout.decode().split("\n") if l.startswith("VIOLATION")]
            na = [l for l in a.stdout.decode().split("\n") if "not accepted" in l]
            print(i, p, "rc", a.returncode, "%.0fs" % (time.time() - t0), "CAUGHT" if v else "MISSED", "input" if v and not v[0].endswith("found") else "no-input", "| obligations:", len(na), (na or [""])[0][:160])
    finally:
        sh("git -C /repo checkout -- .")
    return ok


if __name__ == "__main__":
    a = sys.argv[1:]
    checks = "--checks" in a
    a = [x for x in a if not x.startswith("--")]
    if not a: a = sorted(f[:-3] for f in os.listdir(ROOT + "/tools/seeds") if f.endswith(".py"))
    for i in a: make(i, checks)
    if not checks: sh("bash /opt/vp/build.sh", cwd=R)
