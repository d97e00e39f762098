"""C30: the full-order solvers against problems with polynomial solutions."""
import json
import os
import shutil


def run(c):
    exe = c.build("d_solvers", full=True)
    c.design("SolversMC", c.pick("SolversMC.cfg", "SolversMC2.cfg"))
    sc = c.work + "/scenarios.json"
    with open(sc, "w") as f:
        for cfg, q, t in (("SolversGen1.cfg", 330, 3500), ("SolversGen2.cfg", 400, 3600)):
            for b in c.generate("SolversGen", cfg, c.pick(q, t), 20):
                f.write(json.dumps(b) + "\n")
    tr, base = c.work + "/trace.ndjson", c.work + "/files"

    def go():
        shutil.rmtree(base, ignore_errors=True)
        os.makedirs(base)
        c.drive(exe, [sc, base], tr, timeout=600)
        shutil.rmtree(base, ignore_errors=True)

    go()
    c.validate("SolversTrace", "SolversTrace.cfg", tr, rerun=go, chunks=8)
    for k in "poisson linelast stokes advdiff".split():
        c.need("Solve/" + k, 40)
    c.need("Solve/ns", 15)
    for k, n in (("Save", 150), ("Load", 150), ("Copy", 10), ("Vars", 80), ("Snap", 80), ("Compare", 150), ("Vis", 150), ("Points", 80), ("Mode", 50), ("Scale", 100)):
        c.need(k, n)
