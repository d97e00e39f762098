"""C01: reading, overriding and looking up configuration options."""
import json


def run(c):
    exe = c.build("d_config")
    c.design("ConfigMC")
    sc = c.work + "/scenarios.json"
    beh = c.generate("ConfigGen", "ConfigGen.cfg", c.pick(400, 6000), 60)
    with open(sc, "w") as f:
        for b in beh:
            f.write(json.dumps(b) + "\n")
    for mode in ("serial", "mpi"):
        tr = "%s/trace_%s.ndjson" % (c.work, mode)
        go = lambda: c.drive(exe, [sc, mode], tr)
        go()
        c.validate("ConfigTrace", "ConfigTrace.cfg", tr, rerun=go, chunks=4, label="_" + mode)
    for k in ("Load", "Get", "Require", "Has", "Set", "Row", "RowValue", "Bad"):
        c.need(k, 20)
