"""C09: interface forms add every face's element contributions to the right blocks and entries."""
from checks.c10 import generate


def run(c):
    exe = c.build("d_coupling")
    c.design("CouplingMC")
    sc = generate(c, "CouplingGen", "CouplingGen.cfg", c.pick(160, 2500), 10)
    tr = c.work + "/trace.ndjson"
    go = lambda: c.drive(exe, [sc], tr)
    go()
    c.validate("CouplingTrace", "CouplingTrace.cfg", tr, rerun=go, chunks=8)
    for k in ("Mats", "Grad", "Mult", "Port", "Add", "Fresh"):
        c.need(k, 20)
