"""C14: sampling parameters."""
from checks.c10 import generate


def run(c):
    exe = c.build("d_params")
    c.design("ParamsMC")
    sc = generate(c, "ParamsGen", "ParamsGen.cfg", c.pick(150, 1500), 60)
    tr = c.work + "/trace.ndjson"
    go = lambda: c.drive(exe, [sc], tr)
    go()
    c.validate("ParamsTrace", "ParamsTrace.cfg", tr, rerun=go, chunks=8)
    for k in ("Size", "Max", "Set", "Refused", "Rand", "Files"):
        c.need(k, 40)
