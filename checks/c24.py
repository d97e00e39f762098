"""C24: boundary data enter the right-hand side as the operator sees the solution."""
from checks.c10 import generate


def run(c):
    exe = c.build("d_bdr")
    c.design("BdrDataMC")
    sc = generate(c, "BdrDataGen", "BdrDataGen.cfg", c.pick(250, 3000), 12)
    tr = c.work + "/trace.ndjson"
    go = lambda: c.drive(exe, [sc], tr, timeout=600)
    go()
    c.validate("BdrDataTrace", "BdrDataTrace.cfg", tr, rerun=go, chunks=8)
    for k in "dir normal stress temam".split():
        c.need("Data/" + k, 20)
    c.need("Gauss", 20)
