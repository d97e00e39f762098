"""C25: minimisation of a residual norm."""
from checks.c10 import generate


def run(c):
    exe = c.build("d_minimise")
    c.design("MinimiseMC")
    sc = generate(c, "MinimiseGen", "MinimiseGen.cfg", c.pick(300, 4000), 10)
    tr = c.work + "/trace.ndjson"
    go = lambda: c.drive(exe, [sc], tr)
    go()
    c.validate("MinimiseTrace", "MinimiseTrace.cfg", tr, rerun=go, chunks=8)
    c.need("Iterate", 500)
    c.need("Finish", 500)
