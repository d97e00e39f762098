"""C18: the forms of a decomposed domain equal the forms of the undivided domain."""
from checks.c10 import generate


def run(c):
    exe = c.build("d_mono")
    c.design("MonoMC")
    sc = generate(c, "MonoGen", "MonoGen.cfg", c.pick(240, 3000), 8)
    tr = c.work + "/trace.ndjson"
    go = lambda: c.drive(exe, [sc], tr, timeout=600)
    go()
    c.validate("MonoTrace", "MonoTrace.cfg", tr, rerun=go, chunks=8)
    for op in "diff vdiff elast nflux lf lfg temam temamg".split():
        c.need("Form/" + op, 10)
