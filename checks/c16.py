"""C16: point contributions and reduced samples of the nonlinear forms reproduce the full forms."""
from checks.c10 import generate


def run(c):
    exe = c.build("d_weak")
    c.design("WeakFormsMC")
    sc = generate(c, "WeakGen", "WeakGenPoints.cfg", c.pick(500, 8000), 14)
    tr = c.work + "/trace.ndjson"
    go = lambda: c.drive(exe, [sc], tr, timeout=600)
    go()
    c.validate("WeakFormsTrace", "WeakFormsTrace.cfg", tr, rerun=go, chunks=8)
    for k in ("Full", "Grad", "Point", "GPoint", "FastV", "FastG"):
        c.need(k, 50)
