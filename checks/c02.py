"""C02: in a parallel run every rank ends up with rank 0's configuration plus the overrides."""
import json
import os


def yaml_text(base, rng, comments):
    tree = {}
    for e in base:
        d = tree
        for k in e["p"][:-1]:
            d = d.setdefault(k, {})
        d[e["p"][-1]] = e["v"]["s"]
    out = []

    def emit(d, ind):
        ks = list(d)
        rng.shuffle(ks)
        for k in ks:
            if comments:
                out.append("# " + "\u00e9\u4e2d%" * rng.randrange(0, comments))
            if isinstance(d[k], dict):
                out.append(" " * ind + k + ":")
                emit(d[k], ind + 2)
            else:
                out.append(" " * ind + k + ": " + d[k])
    emit(tree, 0)
    return "\n".join(out) + ("\n" if rng.random() < .7 else "")


def run(c):
    exe = c.build("d_config_mpi")
    c.design("ConfigMPIMC")
    beh = c.generate("ConfigGen", "ConfigLoadGen.cfg", c.pick(160, 800), 30)
    scs = []
    for i, b in enumerate(beh):
        ld = b[0]
        base = ld["base"]
        if not base:
            continue
        if i % 3 == 1:
            base = base + [{"p": ["z%d" % j], "v": {"t": "int", "s": str(j)}} for j in range(c.rng.randrange(1, 40))]
        if i % 10 == 2:
            base = base + [{"p": ["s%d" % (j % 7), "opt%d" % j], "v": {"t": "string", "s": "v%06d" % j}} for j in range(300)]
        text = yaml_text(base, c.rng, (0, 0, 40, 3)[i % 4] if i % 10 != 2 else 150)
        forced = ":".join("/".join(o["p"]) + "=" + o["v"]["s"] for o in ld["ovr"])
        scs.append(dict(base=base, ovr=ld["ovr"], text=text, forced=forced, decoy=bool(i % 2)))
    sizes = sorted(len(s["text"].encode()) for s in scs)
    c.notes["file_bytes"] = {"min": sizes[0], "median": sizes[len(sizes) // 2], "max": sizes[-1]}
    for np in c.pick((1, 2, 3, 5), (1, 2, 3, 4, 5, 6, 7, 8)):
        scf = "%s/sc%d.json" % (c.work, np)
        with open(scf, "w") as f:
            for i, s in enumerate(scs):
                f.write(json.dumps(dict(text=s["text"], forced=s["forced"], decoy=s["decoy"], late=i % np)) + "\n")
        tr = "%s/trace%d.ndjson" % (c.work, np)

        def go():
            rc, out = c.drive(exe, [scf], None, mpi=np, timeout=120, env={"VERIF_TRACE": tr})
            per = []
            for r in range(np):
                rows = {}
                if os.path.exists("%s.%d" % (tr, r)):
                    for x in open("%s.%d" % (tr, r), errors="replace"):
                        try:
                            e = json.loads(x)
                        except ValueError:
                            continue
                        rows[e["k"]] = e
                per.append(rows)
            if rc != 0 and not any(per):
                raise c.error("mpirun failed: rc %d\n%s" % (rc, out[-2000:]))
            with open(tr, "w") as f:
                for k, s in enumerate(scs):
                    f.write(json.dumps(dict(event="Begin", base=s["base"], ovr=s["ovr"], ranks=np)) + "\n")
                    for r in range(np):
                        if k in per[r]:
                            f.write(json.dumps(per[r][k]) + "\n")
                    f.write(json.dumps(dict(event="End")) + "\n")
                if rc != 0:
                    f.write(json.dumps(dict(event="Crash", rc=rc)) + "\n")
        go()
        c.validate("ConfigMPITrace", "ConfigMPITrace.cfg", tr, rerun=go, chunks=4, label="_np%d" % np)
    c.need("Rank", 200)
