"""C07: ports written by one session are the ports a later session uses."""
from checks.c06 import scenarios


def run(c):
    exe = c.build("d_comp")
    c.design("PortStoreMC")
    sc = scenarios(c, c.pick(150, 1500))
    tr = c.work + "/trace.ndjson"
    go = lambda: c.drive(exe, [sc, "ports"], tr)
    go()
    c.validate("PortStoreTrace", "PortStoreTrace.cfg", tr, rerun=go, chunks=8)
    c.need("Reloaded", 150)
    c.need("Port", 100)
