"""C11: matrix-block collections and their accumulation into a block matrix."""
from checks.c10 import generate


def run(c):
    exe = c.build("d_blocks")
    c.design("BlocksMC")
    sc = generate(c, "BlocksGen", "BlocksGen.cfg", c.pick(200, 3000), 30)
    tr = c.work + "/trace.ndjson"
    go = lambda: c.drive(exe, [sc], tr)
    go()
    c.validate("BlocksTrace", "BlocksTrace.cfg", tr, rerun=go, chunks=8)
    for k in ("add", "copy", "scale", "set", "resize", "arr", "drop"):
        c.need(k, 50)
