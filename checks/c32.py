"""C32: a reduced-order study from sampling to single runs, through the driver's own stages."""
import json
import os
import shutil


def run(c):
    exe = c.build("d_workflow", full=True)
    c.design("WorkflowMC", c.pick("WorkflowMC.cfg", "WorkflowMC2.cfg"))
    sc = c.work + "/scenarios.json"
    with open(sc, "w") as f:
        for cfg, q, t in (("WorkflowGen1.cfg", 260, 2000), ("WorkflowGen2.cfg", 120, 1200)):
            for b in c.generate("WorkflowGen", cfg, c.pick(q, t), 20):
                f.write(json.dumps(b) + "\n")
    tr, base = c.work + "/trace.ndjson", c.work + "/files"

    def go():
        shutil.rmtree(base, ignore_errors=True)
        os.makedirs(base)
        c.drive(exe, [sc, base], tr, timeout=c.pick(500, 3000))
        shutil.rmtree(base, ignore_errors=True)

    go()
    c.validate("WorkflowTrace", "WorkflowTrace.cfg", tr, rerun=go, chunks=8)
    for p in "poisson0 poisson_component linelast_disp advdiff channel_flow force_driven_corner ns".split():
        c.need("Run/" + p, 5)
        c.need("Run/%s-global" % p, 15)
    for p in "poisson0 poisson_component linelast_disp".split():
        c.need("Run/%s-none" % p, 10)
        c.need("Run/%s-component" % p, 10)
    c.need("Run/advdiff-none", 10)
    c.need("Gen", 200)
    c.need("Train", 150)
    c.need("Build", 200)
