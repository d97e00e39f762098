"""C19: mixed forms apply every face term exactly where it belongs."""
from checks.c10 import generate


def run(c):
    exe = c.build("d_mixed")
    c.design("MixedMC")
    sc = generate(c, "MixedGen", "MixedGen.cfg", c.pick(250, 3000), 12)
    tr = c.work + "/trace.ndjson"
    go = lambda: c.drive(exe, [sc], tr, timeout=600)
    go()
    c.validate("MixedTrace", "MixedTrace.cfg", tr, rerun=go, chunks=8)
    for k in "dom int bdr mark".split():
        c.need("Add/" + k, 20)
    c.need("Copy", 20)
    c.need("Assemble", 100)
