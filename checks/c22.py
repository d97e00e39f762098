"""C22: energy, momentum and free-stream laws of the convection operators."""
from checks.c10 import generate


def run(c):
    exe = c.build("d_weak")
    c.design("WeakLawsMC")
    sc = generate(c, "WeakGen", "WeakGenLaws.cfg", c.pick(700, 9000), 12)
    tr = c.work + "/trace.ndjson"
    go = lambda: c.drive(exe, [sc], tr, timeout=600)
    go()
    c.validate("WeakLawsTrace", "WeakLawsTrace.cfg", tr, rerun=go, chunks=8)
    c.need("Full", 300)
    c.need("Uniform", 50)
