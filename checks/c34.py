"""C34: studies with hyper-reduced Navier-Stokes models, through the driver's own stages."""
import json
import os
import shutil


def run(c):
    exe = c.build("d_workflow", full=True)
    c.design("WorkflowMC", c.pick("WorkflowMC.cfg", "WorkflowMC2.cfg"))
    sc = c.work + "/scenarios.json"
    with open(sc, "w") as f:
        for b in c.generate("WorkflowGen", "WorkflowGen3.cfg", c.pick(120, 1200), 20):
            f.write(json.dumps(b) + "\n")
    tr, base = c.work + "/trace.ndjson", c.work + "/files"

    def go():
        shutil.rmtree(base, ignore_errors=True)
        os.makedirs(base)
        c.drive(exe, [sc, base], tr, timeout=c.pick(500, 3000))
        shutil.rmtree(base, ignore_errors=True)

    go()
    c.validate("WorkflowTrace", "WorkflowTrace.cfg", tr, rerun=go, chunks=8)
    for k in "ns-component-base nsf-component-base nsf-component-lf".split():
        c.need("Run/" + k, 15)
    for k in "base-basis base-port lf-port".split():
        c.need("Eqp/" + k, 8)
    c.need("Coords", 10)
