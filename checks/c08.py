"""C08: both sides of an interface face see the same points."""
from checks import c05, c06


def run(c):
    exe = c.build("d_comp")
    exe2 = c.build("d_decomp")
    c.design("FacesMC")
    for name, ex, mod, n in (("comp", exe, c06, c.pick(150, 1500)), ("sub", exe2, c05, c.pick(100, 1000))):
        sc = mod.scenarios(c, n)
        tr = c.work + "/trace_%s.ndjson" % name
        go = lambda: c.drive(ex, [sc, "xf"], tr)
        go()
        c.validate("FacesTrace", "FacesTrace.cfg", tr, rerun=go, chunks=8, label=name)
        c.need("Face", 300)
