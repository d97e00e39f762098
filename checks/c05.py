"""C05: decomposing a labelled mesh into subdomains and ports."""
import json


def scenarios(c, n):
    beh = c.generate("DecompGen", "DecompGen.cfg", n, 5)
    sc = c.work + "/scenarios.json"
    with open(sc, "w") as f:
        for b in beh:
            f.write(json.dumps(b) + "\n")
    return sc


def run(c):
    exe = c.build("d_decomp")
    c.design("DecompMC")
    if c.thorough:
        c.design("DecompMC", "DecompMC32.cfg")
    sc = scenarios(c, c.pick(250, 2500))
    tr = c.work + "/trace.ndjson"
    go = lambda: c.drive(exe, [sc, "topo"], tr)
    go()
    c.validate("DecompTrace", "DecompTrace.cfg", tr, rerun=go, chunks=8)
    c.need("Port", 100)
    c.need("Sub", 200)
