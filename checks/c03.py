"""C03: what is written to a file under a name is what is read back."""
import json


def run(c):
    exe = c.build("d_store")
    c.design("StoreMC")
    beh = c.generate("StoreGen", "StoreGen.cfg", c.pick(250, 3000), 60)
    sc = c.work + "/scenarios.json"
    with open(sc, "w") as f:
        for b in beh:
            # finally reopen every file read-only and read back everything it holds
            live, kinds, mode = {}, {}, {}
            for o in b:
                if o["op"] == "Create":
                    kinds = {k: v for k, v in kinds.items() if k[0] != o["f"]}
                    mode[o["f"]] = "rw"
                elif o["op"] == "Open":
                    mode[o["f"]] = o["m"]
                elif o["op"] == "Close":
                    mode[o["f"]] = "closed"
                elif o["op"] == "Write":
                    kinds[(o["f"], o["g"], o["c"], o["n"])] = o["kind"]
            for fn, m in mode.items():
                if m != "closed":
                    b.append({"op": "Close", "f": fn})
                b.append({"op": "Open", "f": fn, "m": "ro"})
            for (fn, g, cl, n), k in kinds.items():
                b.append({"op": "Read", "f": fn, "g": g, "c": cl, "n": n, "kind": k, "seed": c.rng.randrange(1000)})
            f.write(json.dumps(b) + "\n")
    tr = c.work + "/trace.ndjson"
    go = lambda: c.drive(exe, [sc], tr)
    go()
    c.validate("StoreTrace", "StoreTrace.cfg", tr, rerun=go, chunks=4)
    for k in ("Read", "Write", "Exists", "Size", "Close"):
        c.need(k, 100)
    per = {}
    for line in open(tr):
        e = json.loads(line)
        if e["event"] == "Read":
            per[e["kind"]] = per.get(e["kind"], 0) + 1
    c.notes["reads_by_kind"] = per
    for k in "ai ad ab a2i a2d a2b vec dm dt sp bm mb si0 si1 si2 si3 eq0 eq1 eq2 eq3 s i d b tag".split():
        if per.get(k, 0) < 20:
            raise c.error("vacuous: %d reads of kind %s" % (per.get(k, 0), k))
