"""C33: hyper-reduced forms from sampling, training and storage to slow and precomputed evaluation."""
import os
import shutil
from checks.c10 import generate


def run(c):
    exe = c.build("d_hyper", full=True)
    c.design("HyperFormMC", c.pick("HyperFormMC.cfg", "HyperFormMC2.cfg"))
    sc = generate(c, "HyperGen", "HyperGen.cfg", c.pick(150, 2000), 26)
    tr, base = c.work + "/trace.ndjson", c.work + "/files"

    def go():
        shutil.rmtree(base, ignore_errors=True)
        os.makedirs(base)
        c.drive(exe, [sc, base], tr, timeout=600)
        shutil.rmtree(base, ignore_errors=True)

    go()
    c.validate("HyperFormTrace", "HyperFormTrace.cfg", tr, rerun=go, chunks=8)
    for k in "eval view itf".split():
        for f in "slow fast".split():
            c.need("Eval/%s-%s" % (k, f), 20)
    for k in "l2 linf port-l2 port-linf".split():
        c.need("Train/" + k, 8)
    for k in "Save Load Look Coords".split():
        c.need(k, 20)
    for k in ("sample a view", "point a reference elsewhere", "criterion", "interface criterion", "boundary"):
        c.need("Refuse/" + k, 8)
