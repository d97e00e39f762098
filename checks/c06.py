"""C06: assembling placed components, their boundaries and their ports."""
import json


def scenarios(c, n):
    beh = c.generate("CompGen", "CompGen.cfg", n, 5)
    sc = c.work + "/scenarios.json"
    with open(sc, "w") as f:
        for b in beh:
            f.write(json.dumps(b) + "\n")
    return sc


def run(c):
    exe = c.build("d_comp")
    c.design("ComponentMC")
    if c.thorough:
        c.design("ComponentMC", "ComponentMC22.cfg")
    sc = scenarios(c, c.pick(150, 1500))
    tr = c.work + "/trace.ndjson"
    go = lambda: c.drive(exe, [sc, "topo"], tr)
    go()
    c.validate("ComponentTrace", "ComponentTrace.cfg", tr, rerun=go, chunks=8)
    c.need("Port", 100)
    c.need("Mesh", 200)
