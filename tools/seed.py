#!/usr/bin/env python3
"""tools/seed.py try ID...  : confirm planted bugs (build, stable tests, demo both ways, check reports it).
tools/seed.py new ID PROPERTY [np]: turn /repo's uncommitted diff into seeded/ID (demo.cpp must lie in /tmp/demo.cpp)."""
import json, os, shutil, subprocess, sys
V = "/verif"
def sh(cmd, **kw): return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
def clean(): sh("git -C /repo checkout -- .")
def dirty(): return sh("git -C /repo status --porcelain").stdout.strip()
def tests():
    sh("bash /opt/vp/test.sh /tmp/seed_res.json")
    r = json.load(open("/tmp/seed_res.json")); b = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    return [t for t in b if t not in r["passed"]]
def trybug(i, checks=None):
    d = "%s/seeded/%s" % (V, i)
    meta = json.load(open(d + "/meta.json"))
    assert not dirty(), "repo dirty"
    res = {"id": i}
    try:
        p = sh("git -C /repo apply %s/patch.diff" % d)
        assert p.returncode == 0, p.stdout
        p = sh("bash /opt/vp/build.sh")
        res["builds"] = p.returncode == 0
        res["failing_tests"] = tests()
        p = sh("bash %s/demo.sh" % d, cwd="/repo"); res["demo_patched"] = p.returncode
        if p.returncode == 99: print(p.stdout[-2000:])
        for c in checks or [meta["property"]]:
            p = sh("python3 run.py " + c, cwd=V)
            res[c] = p.returncode
            res[c + "_msg"] = [x[:300] for x in p.stdout.split("\n") if x][-3:]
    finally:
        clean()
    sh("bash /opt/vp/build.sh")
    p = sh("bash %s/demo.sh" % d, cwd="/repo"); res["demo_clean"] = p.returncode
    if p.returncode: print(p.stdout[-1500:])
    ok = res["builds"] and not res["failing_tests"] and res["demo_patched"] not in (0, 99) and res["demo_clean"] == 0
    res["counts"] = ok
    res["caught"] = res.get(meta["property"]) == 1
    print(json.dumps(res, indent=1)); sys.stdout.flush()
def new(i, prop, np=None):
    d = "%s/seeded/%s" % (V, i); os.makedirs(d, exist_ok=True)
    p = sh("git -C /repo diff"); assert p.stdout.strip()
    open(d + "/patch.diff", "w").write(p.stdout)
    shutil.copy("/tmp/demo.cpp", d + "/demo.cpp")
    t = open(V + "/tools/demo_template.sh").read()
    run = 'timeout 200 ./demo' if not np else 'timeout 200 mpirun --allow-run-as-root --oversubscribe -np %s ./demo' % np
    open(d + "/demo.sh", "w").write(t.replace("&& RUN", "&& " + run)); os.chmod(d + "/demo.sh", 0o755)
    m = json.load(open("/tmp/meta.json")); m["property"] = prop
    json.dump({k: m[k] for k in ("property", "needs", "what_it_breaks")}, open(d + "/meta.json", "w"), indent=1)
    clean()
if __name__ == "__main__":
    if sys.argv[1] == "try":
        for i in sys.argv[2:]: trybug(i)
    elif sys.argv[1] == "also":
        trybug(sys.argv[2], sys.argv[3:])
    else: new(*sys.argv[2:])
