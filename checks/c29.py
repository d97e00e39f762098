"""C29: reduced-order model handler: bases, block indices, projections, operators, solves."""
import os
import shutil
from checks.c10 import generate


def run(c):
    exe = c.build("d_romhandler", full=True)
    c.design("RomHandlerMC", c.pick("RomHandlerMC.cfg", "RomHandlerMC5.cfg"))
    sc = generate(c, "RomHandlerGen", "RomHandlerGen.cfg", c.pick(220, 2500), 40)
    tr, base = c.work + "/trace.ndjson", c.work + "/files"

    def go():
        shutil.rmtree(base, ignore_errors=True)
        os.makedirs(base)
        c.drive(exe, [sc, base], tr)
        shutil.rmtree(base, ignore_errors=True)

    go()
    c.validate("RomHandlerTrace", "RomHandlerTrace.cfg", tr, rerun=go, chunks=8)
    for k, n in (("Load", 100), ("Vec", 60), ("Oper", 150), ("LoadOp", 15), ("Append", 30), ("Solve", 60), ("Files", 60), ("Nonlin", 20), ("Vis", 10), ("Sup", 3), ("Reopen", 30)):
        c.need(k, n)
    for op in "refs comp itf doms sub subs var all".split():
        c.need("Group/" + op, 5)
