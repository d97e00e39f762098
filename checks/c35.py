"""C35: histories of runs of the unsteady Navier-Stokes solver."""
import json
import os
import shutil


def run(c):
    exe = c.build("d_unsteady", full=True)
    c.design("UnsteadyMC", "UnsteadyMC.cfg")
    sc = c.work + "/scenarios.json"
    with open(sc, "w") as f:
        for b in c.generate("UnsteadyGen", "UnsteadyGen.cfg", c.pick(250, 2000), 20):
            for r in b["runs"]:
                r["raw"] = json.dumps(r, separators=(",", ":"))
            f.write(json.dumps(b) + "\n")
    tr, base = c.work + "/trace.ndjson", c.work + "/files"

    def go():
        shutil.rmtree(base, ignore_errors=True)
        os.makedirs(base)
        c.drive(exe, [sc, base], tr, timeout=600)
        shutil.rmtree(base, ignore_errors=True)

    go()
    c.validate("UnsteadyTrace", "UnsteadyTrace.cfg", tr, rerun=go, chunks=8)
    for k, n in (("fresh", 100), ("restart", 100), ("jump", 100), ("stay", 60), ("refused", 10)):
        c.need(("Kind/" if k in ("jump", "stay") else "Run/") + k, n)
