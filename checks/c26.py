"""C26: the mesh utilities."""
from checks.c10 import generate


def run(c):
    exe = c.build("d_boxes")
    utils = [c.util(u) for u in ("1d_mesh", "rectangle_mesh", "cubic_mesh", "gmsh2mfem")]
    c.design("BoxesMC")
    sc = generate(c, "BoxesGen", "BoxesGen.cfg", c.pick(300, 3000), 10)
    tr = c.work + "/trace.ndjson"
    go = lambda: c.drive(exe, [sc] + utils, tr, timeout=700)
    go()
    c.validate("BoxesTrace", "BoxesTrace.cfg", tr, rerun=go, chunks=8)
    c.need("Nodes", 80)
    c.need("Convert", 20)
    c.need("Refused", 3)
