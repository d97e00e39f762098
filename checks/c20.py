"""C20: profiler counts, times and reports, on one and several ranks."""
from checks.c10 import generate


def run(c):
    exe = c.build("d_profiler")
    c.design("ProfilerMC")
    for np in (1, 2, 3):
        sc = generate(c, "ProfilerGen", "ProfilerGen%d.cfg" % np, c.pick(40, 400), 400)
        tr = c.work + "/trace%d.ndjson" % np

        def go():
            c.drive(exe, [sc], tr, mpi=np, timeout=c.pick(120, 400))
        go()
        c.validate("ProfilerTrace", "ProfilerTrace.cfg", tr, rerun=go, chunks=3, label="_np%d" % np)
    c.need("Print", 200)
    c.need("Bad", 300)
    c.need("End", 100)
    c.need("Stop", 500)
