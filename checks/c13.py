"""C13: orthonormalisation of basis columns."""
from checks.c10 import generate


def run(c):
    exe = c.build("d_ortho")
    c.design("OrthoMC")
    sc = generate(c, "LinAlgGen", "OrthoGen.cfg", c.pick(1000, 15000))
    tr = c.work + "/trace.ndjson"
    go = lambda: c.drive(exe, [sc], tr)
    go()
    c.validate("OrthoTrace", "OrthoTrace.cfg", tr, rerun=go, chunks=8)
    c.need("Self", 200)
    c.need("Against", 200)
