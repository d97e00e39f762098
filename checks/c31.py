"""C31: reduced-order models at every building level, against exact solutions and the full model."""
import json
import os
import shutil


def run(c):
    exe = c.build("d_reduced", full=True)
    c.design("ReducedMC", c.pick("ReducedMC.cfg", "ReducedMC2.cfg"))
    sc = c.work + "/scenarios.json"
    with open(sc, "w") as f:
        for cfg, q, t in (("ReducedGen1.cfg", 330, 3000), ("ReducedGen2.cfg", 220, 2000)):
            for b in c.generate("ReducedGen", cfg, c.pick(q, t), 20):
                f.write(json.dumps(b) + "\n")
    tr, base = c.work + "/trace.ndjson", c.work + "/files"

    def go():
        shutil.rmtree(base, ignore_errors=True)
        os.makedirs(base)
        c.drive(exe, [sc, base], tr, timeout=600)
        shutil.rmtree(base, ignore_errors=True)

    go()
    c.validate("ReducedTrace", "ReducedTrace.cfg", tr, rerun=go, chunks=8)
    for k in "poisson linelast stokes".split():
        for lv in "none global component".split():
            c.need("Run/%s-%s" % (k, lv), 15)
    for k in "ns-none ns-global ns-component advdiff-none advdiff-global".split():
        c.need("Run/" + k, 10)
    c.need("Build", 200)
