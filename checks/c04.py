"""C04: reduced-order building blocks saved by one assembly are found by another one."""
from checks.c06 import scenarios


def run(c):
    exe = c.build("d_comp")
    c.design("RomStoreMC")
    sc = scenarios(c, c.pick(150, 1500))
    tr = c.work + "/trace.ndjson"
    go = lambda: c.drive(exe, [sc, "rom"], tr)
    go()
    c.validate("RomStoreTrace", "RomStoreTrace.cfg", tr, rerun=go, chunks=8)
    c.need("Loaded", 500)
    c.need("Closed", 100)
