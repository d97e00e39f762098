"""C17: Jacobians are the derivatives of the residuals."""
from checks.c10 import generate


def run(c):
    exe = c.build("d_weak")
    c.design("WeakFormsMC")
    sc = generate(c, "WeakGen", "WeakGenDeriv.cfg", c.pick(600, 9000), 12)
    tr = c.work + "/trace.ndjson"
    go = lambda: c.drive(exe, [sc], tr, timeout=600)
    go()
    c.validate("WeakFormsTrace", "WeakFormsTrace.cfg", tr, rerun=go, chunks=8)
    for k in ("Grad", "Deriv"):
        c.need(k, 50)
