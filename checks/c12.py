"""C12: block Gauss-Seidel and Jacobi smoothers."""
from checks.c10 import generate


def run(c):
    exe = c.build("d_smoother")
    c.design("SmootherMC")
    sc = generate(c, "LinAlgGen", "SmootherGen.cfg", c.pick(400, 5000))
    tr = c.work + "/trace.ndjson"
    go = lambda: c.drive(exe, [sc], tr)
    go()
    c.validate("SmootherTrace", "SmootherTrace.cfg", tr, rerun=go, chunks=8)
    for k in ("Set", "GS", "Forw", "Back", "Jac"):
        c.need(k, 300)
