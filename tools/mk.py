"""mk(id, prop, needs, breaks, [(file, old, new)], demo source, np): plant, save and try a bug."""
import json, shutil, subprocess, sys
sys.path.insert(0, "/verif/tools")
import seed
def mk(i, prop, needs, breaks, edits, demo, np=None, run=True, hdrs=()):
    assert not seed.dirty(), "dirty"
    try:
        for f, a, b in edits:
            p = "/repo/" + f
            s = open(p).read()
            assert s.count(a) == 1, (f, a, s.count(a))
            open(p, "w").write(s.replace(a, b))
        open("/tmp/demo.cpp", "w").write(demo)
        json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open("/tmp/meta.json", "w"))
        seed.new(i, prop, np)
        for h in hdrs: shutil.copy("/verif/harness/" + h, "/verif/seeded/%s/%s" % (i, h))
    finally:
        seed.clean()
    if run: seed.trybug(i)
