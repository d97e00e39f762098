"""C28: samples, snapshots, ports and their collection."""
import json
import os
import shutil
from checks.c10 import generate


def run(c):
    exe = c.build("d_sampling", full=True)
    c.design("SamplingMC", c.pick("SamplingMC.cfg", "SamplingMC3.cfg"))
    sc = generate(c, "SamplingGen", "SamplingGen.cfg", c.pick(120, 1500), 40)
    grids = c.work + "/grids.json"
    with open(grids, "w") as f:
        for _ in range(c.pick(40, 300)):
            ps = [{"kind": c.rng.randrange(3), "lo": c.rng.randrange(5), "n": c.rng.choice([1, 1, 2, 2, 3, 4]),
                   "step": c.rng.randrange(1, 4)} for _ in range(c.rng.randrange(1, 4))]
            f.write(json.dumps({"random": c.rng.random() < .3, "total": c.rng.randrange(1, 9), "ps": ps}) + "\n")
    tr, tr2 = c.work + "/trace.ndjson", c.work + "/mpi.ndjson"
    base = c.work + "/files"

    def events(path):
        return [x for x in open(path).read().split("\n") if x]

    def go():
        shutil.rmtree(base, ignore_errors=True)
        os.makedirs(base)
        c.drive(exe, ["run", sc, base], tr)
        ev = events(tr)
        # the training sessions again, on two and three ranks, after the sampling each scenario recorded
        heads, cur = {}, None
        for x in ev:
            e = json.loads(x)
            if e["event"] == "Begin":
                cur = heads.setdefault(e["num"], [])
                open_ = True
            if e["event"] == "Train":
                open_ = False
            if open_:
                cur.append(x)
        for np in (2, 3):
            c.drive(exe, ["train", sc, base], tr2, mpi=np)
            for x in events(tr2):
                e = json.loads(x)
                if e["event"] == "Joined":
                    ev += heads.get(e["num"], [])
                else:
                    ev.append(x)
        for np in (0, 2, 3, 4):
            c.drive(exe, ["grid", grids], tr2, mpi=np)
            ev += events(tr2)
        shutil.rmtree(base, ignore_errors=True)
        with open(tr, "w") as f:
            f.write("\n".join(ev) + "\n")

    go()
    c.validate("SamplingTrace", "SamplingTrace.cfg", tr, rerun=go, chunks=8)
    for k, n in (("State", 500), ("Port", 60), ("Basis", 60), ("BasisFile", 100), ("Grid", 60), ("Random", 20), ("Missing", 5), ("Write", 100), ("Tags", 50)):
        c.need(k, n)
