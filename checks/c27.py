"""C27: the configuration generators (Python)."""
import json
import os
from checks.c10 import generate
from vf import build as B


def run(c):
    c.design("LayoutMC")
    sc = generate(c, "LayoutGen", "LayoutGen.cfg", c.pick(400, 4000), 60)
    # the scripts without choices, always
    with open(sc, "a") as f:
        for w in ("simple", "cantilever", "cwtrain_1x1", "cwtrain_2x2", "cwtrain_optROM", "cwtrain_optFOM"):
            f.write(json.dumps(dict(kind="lattice", what=w, nx=c.rng.randrange(1, 5), ny=c.rng.randrange(1, 5), wh=100, wv=200, lh=300, lv=500, seed=7)) + "\n")
    tr = c.work + "/trace.ndjson"
    py = os.path.join(B.VERIF, "harness", "layouts.py")
    go = lambda: c.drive("python3-vt", [py, sc, os.path.join(B.REPO, "utils", "python")], tr, timeout=600)
    go()
    c.validate("LayoutTrace", "LayoutTrace.cfg", tr, rerun=go, chunks=8)
    for op in ("random", "all", "fill", "walk", "lattice", "fixed", "pairs"):
        c.need("File/" + op, 5)
    c.need("All", 5)
    c.need("AllWalks", 5)
    c.need("Turned", 50)
    c.need("Unknown", 50)
