"""C10: projection, sub-matrix and tensor kernels."""
import json


def generate(c, module, cfg, n, depth=5):
    beh = c.generate(module, cfg, n, depth)
    sc = c.work + "/scenarios.json"
    with open(sc, "w") as f:
        for b in beh:
            f.write(json.dumps(b) + "\n")
    return sc


def run(c):
    exe = c.build("d_linalg")
    c.design("LinAlgMC")
    sc = generate(c, "LinAlgGen", "LinAlgGen.cfg", c.pick(1500, 20000))
    tr = c.work + "/trace.ndjson"
    go = lambda: c.drive(exe, [sc], tr)
    go()
    c.validate("LinAlgTrace", "LinAlgTrace.cfg", tr, rerun=go, chunks=8)
    for op in "MultSub MultTSub AddMultTSub SubRAPd SubRAPs RAP RAPd RAPs AddRAPd AddRAPs Contract AddContract TMult TOnJ TT0 TT1 TTs0 TTs1 Basis PrintD PrintS PrintV PrintB".split():
        c.need("Op/" + op, 25)
