"""Replays requests to the configuration generators of /repo/utils/python and records the files they write."""
import contextlib, importlib, io, json, os, runpy, sys
import numpy as np

here = os.path.dirname(os.path.abspath(__file__))
scen, scripts = sys.argv[1], sys.argv[2]
sys.path[:0] = [scripts, os.path.join(here, "pystub")]
sys.dont_write_bytecode = True
import h5py
out = open(os.environ["VERIF_TRACE"], "w")


def emit(**e):
    out.write(json.dumps(e, separators=(",", ":")) + "\n")
    out.flush()


def whole(x):
    r = int(round(float(x)))
    if abs(float(x) - r) > 1e-9: raise RuntimeError("not an integer: %r" % x)
    return r


def table(d, cols):
    a = np.asarray(d.data)
    if a.size == 0: return []
    if a.ndim != 2 or a.shape[1] != cols: raise RuntimeError("table of shape %s" % (a.shape,))
    return a


def milli(a): return [int(round(1000 * float(x))) for x in a]


def record(root):
    comp, port = root["components"], root["ports"]
    nc, nr = int(comp.attrs["number_of_components"]), int(port.attrs["number_of_references"])
    ports = []
    for k in range(nr):
        n = str(port.attrs["%d" % k])
        if n in port:
            g = port[n]
            ports.append(dict(name=n, full=True, c1=str(g.attrs["comp1"]), c2=str(g.attrs["comp2"]), a1=whole(g.attrs["attr1"]),
                              a2=whole(g.attrs["attr2"]), conf=milli(g["comp2_configuration"].data)))
        else: ports.append(dict(name=n, full=False, c1="", c2="", a1=0, a2=0, conf=[0] * 6))
    return dict(comps=[str(comp.attrs["%d" % k]) for k in range(nc)], meshes=[whole(x) for x in comp["meshes"].data],
                conf=[milli(r) for r in table(comp["configuration"], 6)], ports=ports,
                extra=len([k for k in comp.attrs if k.isdigit()]) - nc + len([k for k in port.attrs if k.isdigit()]) - nr,
                ifs=[[whole(x) for x in r] for r in table(port["interface"], 5)], bdr=[[whole(x) for x in r] for r in table(root["boundary"], 3)])


def files(op, **kw):
    """Emit the files written since the last call."""
    log, h5py.LOG[:] = list(h5py.LOG), []
    for name, root in log:
        if "components" not in root: continue
        emit(event="File", op=op, name=name, f=record(root), **kw)


def quiet(f, *a, **kw):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **kw)


def script(name, *args):
    old = sys.argv
    sys.argv = [name] + [str(a) for a in args]
    try: quiet(runpy.run_path, os.path.join(scripts, name), run_name="__main__")
    finally: sys.argv = old


def box(s):
    from config import Empty, ObjectInSpace
    from box_channel_config import BoxChannelConfig
    obj = BoxChannelConfig(s["nx"], s["ny"], periodic=[s["px"], s["py"]])
    for n in s["comps"]: obj.addComponent(Empty() if n == "empty" else ObjectInSpace(n))
    emit(event="Box", nx=s["nx"], ny=s["ny"], px=s["px"], py=s["py"], comps=s["comps"])
    for k, op in enumerate(s["ops"]):
        if op == "random":
            emit(event="Op", n=1)
            quiet(obj.CreateRandomConfig, "r%d.h5" % k)
            files("random", want="r%d.h5" % k, names=[])
        elif op == "all" and len(s["comps"]) ** (s["nx"] * s["ny"]) <= 81:
            emit(event="Op", n=-1)
            n = quiet(obj.GenerateAllConfigs, s["offset"])
            files("all", want="", names=[])
            emit(event="All", count=n)
    # ports of components which are not there are refused
    have = s["comps"]
    for a, b in ((have[0], "nowhere"), ("nowhere", have[0]), ("nowhere", "nowhere")):
        try: quiet(obj.appendRefPort, a, b, 1, 3); emit(event="Taken", a=a, b=b)
        except RuntimeError: emit(event="Unknown", a=a, b=b)
    # the object itself is filled by hand, in any order of places, and saved more than once
    names = []
    for c, place in s["fill"][:s["nx"] * s["ny"]]:
        c = c % len(s["comps"])
        obj.addMesh(c, place % len(obj.avail_locs))
        names.append(s["comps"][c])
    obj.close()
    for k in range(2):
        emit(event="Op", n=1)
        quiet(obj.save, "s%d.h5" % k)
        files("fill", want="s%d.h5" % k, names=names)


def channel(s):
    from channel_config import ChannelConfig
    obj = ChannelConfig(s["start"])
    emit(event="Channel", start=s["start"])
    for k, op in enumerate(s["ops"]):
        if op == "random":
            emit(event="Op", n=1)
            quiet(obj.CreateRandomConfig, s["ext"], "r%d.h5" % k)
            files("random", want="r%d.h5" % k, ext=s["ext"])
        elif op == "all":
            emit(event="Op", n=-1)
            n = quiet(obj.GenerateAllConfigs, s["few"], s["offset"])
            files("all", want="", ext=s["few"])
            emit(event="AllWalks", count=n, ext=s["few"])
    steps = 0
    for d in s["walk"]:
        av, locs = obj.getAvailableFaces()
        if not locs: break
        obj.addMesh(0, locs[d % len(locs)])
        steps += 1
    obj.close()
    for k in range(2):
        emit(event="Op", n=1)
        quiet(obj.save, "s%d.h5" % k)
        files("walk", want="s%d.h5" % k, ext=steps)


def fixed(s):
    m = importlib.import_module("sample_comp")
    k = s["what"]
    emit(event="Fixed", what=k, n=s["n"])
    emit(event="Op", n=1)
    quiet(*{"scaleup": (m.ConfigScaleUp, s["n"]), "channel": (m.ConfigChannelFlow,), "multi": (m.ConfigTestMultiComponent,),
            "two": (m.Config2D,), "three": (m.Config3D,)}[k])
    files("fixed")


def pairs(s):
    emit(event="Pairs")
    emit(event="Op", n=1)
    script("box_comp_config.py")
    files("pairs")


def lattice(s):
    k = s["what"]
    emit(event="Lattice", what=k, nx=s["nx"], ny=s["ny"], wh=s["wh"], wv=s["wv"], lh=s["lh"], lv=s["lv"])
    emit(event="Op", n=4 if k in ("cwtrain_1x1", "cwtrain_2x2", "cwtrain_optROM") else 1)
    if k == "direct":
        m = importlib.import_module("linelast_comp_base")
        nu = (s["wh"] / 1000, s["wv"] / 1000, s["lh"] / 1000, s["lv"] / 1000)
        one = s["nx"] == 1 and s["ny"] == 1 and s["seed"] % 2
        r = m.cw_generate_nu_1x1(*nu) if one else m.cw_generate_nu_mxn(s["nx"], s["ny"], *nu)
        n, types, confs, ifs, bdr, cc = r
        with h5py.File("direct.h5", "w") as f:
            m.Configure2DLatticeComponent(f, ["joint2D", "rod2D_H", "rod2D_V"], cc, n, types, confs, ifs, bdr)
    elif k == "simple": script("linelast_comp.py", "simple_l")
    elif k == "cantilever": script("linelast_comp.py", "lattice_cantilever", s["nx"], s["ny"])
    else: script("linelast_cwtrain.py", k)
    files("lattice")


def meshes(s):
    """Training meshes: copies of a mesh whose boundary attributes are turned."""
    base = os.path.join(s["dir"], "m") if s["dir"] else os.path.abspath("m")
    os.makedirs(base, exist_ok=True)
    names = ["joint2D", "rod2D_H", "rod2D_V"]
    before = {}
    for n in names:
        rng = np.random.RandomState(s["seed"] + len(n))
        nv, nb = s["nv"], s["nb"]
        el = ["1 3 " + " ".join(str(v) for v in rng.randint(nv, size=4)) for _ in range(max(1, nv - 3))]
        b = [[int(rng.randint(1, 5)), [1] + [int(v) for v in rng.randint(nv, size=2)]] for _ in range(nb)]
        head = ["MFEM mesh v1.0", "", "dimension", "2", "", "elements", str(len(el))] + el + ["", "boundary", str(nb)]
        tail = ["", "vertices", str(nv), "2"] + ["%d %d" % tuple(rng.randint(9, size=2)) for _ in range(nv)]
        open(os.path.join(base, n + ".mesh"), "w").write("\n".join(head + ["%d %s" % (a, " ".join(map(str, r))) for a, r in b] + tail) + "\n")
        before[n] = (head, b, tail)
    emit(event="Meshes")
    emit(event="Op", n=12)
    script("linelast_cwtrain.py", "cwtrain_mesh", base)
    for n in names:
        head, b, tail = before[n]
        for i in range(4):
            p = os.path.join(base, "%s_%d.mesh" % (n, i))
            if not os.path.exists(p):
                emit(event="Missing", name=n, i=i)
                continue
            ls = open(p).read().split("\n")
            if ls and ls[-1] == "": ls.pop()
            got = ls[len(head):len(head) + len(b)]
            ok = ls[:len(head)] == head and ls[len(head) + len(b):] == tail and all([int(x) for x in g.split()[1:]] == r for g, (_, r) in zip(got, b))
            emit(event="Turned", i=i, rest=ok, before=[a for a, _ in b], after=[int(g.split()[0]) for g in got if g.split()])


for k, line in enumerate(open(scen)):
    s = json.loads(line)
    np.random.seed(s["seed"])
    h5py.LOG[:] = []
    os.makedirs("k%d" % k)
    os.chdir("k%d" % k)
    emit(event="Begin")
    try:
        globals()[s["kind"]](s)
        emit(event="End")
    except Exception as e:
        import traceback
        emit(event="Error", what=type(e).__name__ + ": " + str(e)[:200], at=traceback.format_exc()[-400:])
    os.chdir("..")
