"""C23: subdomain fields gathered into one field on the whole mesh."""
from . import c05


def run(c):
    exe = c.build("d_decomp")
    c.design("TransferMC")
    sc = c05.scenarios(c, c.pick(200, 2000))
    tr = c.work + "/trace.ndjson"
    go = lambda: c.drive(exe, [sc, "xfer"], tr)
    go()
    c.validate("TransferTrace", "TransferTrace.cfg", tr, rerun=go, chunks=4)
    c.need("Value", 500)
