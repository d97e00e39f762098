"""C15: parameterized problems route parameters and boundary roles."""
from checks.c10 import generate


def run(c, mode="set"):
    exe = c.build("d_problems")
    c.design("ProblemsMC")
    sc = generate(c, "ProblemsGen", "ProblemsGen.cfg", c.pick(260, 3000), 40)
    tr = c.work + "/trace.ndjson"
    go = lambda: c.drive(exe, [sc, mode], tr)
    go()
    c.validate("ProblemsTrace", "ProblemsTrace.cfg", tr, rerun=go, chunks=8)
    for k in ("New", "Name", "Index", "Single", "Refused") if mode == "set" else ("New", "Name", "Eval", "Spiral"):
        c.need(k, 100 if k != "Spiral" else 10)
