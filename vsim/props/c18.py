"""No run leaves temporary files or descriptors behind."""
import json
import os

from vsim import core, entry, gen, model, world

ID = "C18"
QUICK, THOROUGH = 2500, 80000
QUICK_WALL, THOROUGH_WALL = 70, 1500
RULE = ("one run is one preprocessing call or one run of ksvalidator, ksflatten or ksshell on a generated tree (good, bad or "
        "partly failing input), with zero to three faults at operations found by a fault-free rehearsal; distinct by "
        "scenario; non-trivial if a fault fired or the input was bad")
MEASURE = "distinct scenarios (call, input tree, fault plan)"
REAL = ["pykickstart (all)", "tools/ksvalidator.py", "tools/ksflatten.py", "tools/ksshell.py", "requests", "urllib3",
        "http.client", "tempfile", "shutil"]
STUB = ["system calls on files below the scratch root", "network, TLS and servers", "clock", "terminal input"]
ASSUMPTIONS = ["removing a file or directory does not itself fail", "the run is not killed"]
SHRINK = ["picks", "nodes", "typed", "items"]

KINDS = ["validate", "validate", "validate", "validate_url", "pre_file", "pre_str", "pre_file_str", "flatten", "shell", "shell"]


def generate(rng, index, tier):
    kind = rng.choice(KINDS)
    sc = {"kind": kind}
    sc.update(entry.plain_tree(rng, max_docs=4, urls=0.4, bad=rng.choice([0, 0, 0.15]), repeat=True, stable=False,
                               badhdr=rng.choice([0, 0, 0.2]), unknown=rng.random() < 0.2))
    if kind not in ("flatten",):
        entry.add_appends(rng, sc, rng.choice([0, 0, 1, 2]))
    if rng.random() < 0.3:
        d = rng.choice(sorted(sc["docs"]))
        gen.fail_doc(rng, sc["docs"][d], sc["hosts"], cycle=d[0] == "D" and d != "D0")
        sc["bad"] = True
    if rng.random() < 0.08:
        sc["docs"][sc["top"]]["nodes"].append(["txt", rng.choice(["lang 'unbalanced", "%include", "%ksappend"]), "value"])
        sc["bad"] = True
    if rng.random() < 0.08:
        sc["opts"] = rng.choice([["-v", "NOSUCH"], ["-e"], ["-i"]])
    elif kind.startswith("validate"):
        sc["opts"] = rng.choice([[], ["-i"], ["-e"], ["-e", "-i"]])
    else:
        sc["opts"] = []
    if kind == "shell":
        c = gen.Commands(rng, sc["version"], bad=0.3)
        sc["typed"] = [gen.render_args(c.next(), 0) for _ in range(rng.randint(0, 3))]
        if rng.random() < 0.3:
            sc["typed"].insert(rng.randint(0, len(sc["typed"])), rng.choice([".clear", ".show", ".quit", "lang 'x", ".nope"]))
        if rng.random() < 0.1:
            sc["typed"].append({"raise": "KeyboardInterrupt"})
    sc["picks"] = entry.picks(rng, rng.choice([0, 1, 1, 1, 2, 3]), ["w", "r", "any", "any"], under=rng.choice([None, None, "tmp"]))
    if rng.random() < 0.1:
        sc["disk"] = rng.randint(0, 2000)
    return sc


def argv_for(sc, w):
    return (["-v", sc["version"]] if "-v" not in sc["opts"] else []) + sc["opts"]


def act(sc, w, n):
    from pykickstart import parser as P
    k = sc["kind"]
    top = sc["docs"][sc["top"]]
    path = w.abs(top["path"])
    text = model.text_of(top, sc["docs"], w.root)
    if k == "validate":
        return entry.run_tool("ksvalidator", argv_for(sc, w) + [path])
    if k == "validate_url":
        n.hosts.setdefault("top.example", {})
        n.urls["http://top.example/ks.cfg"] = {"body": text, "ctype": "text/plain"}
        return entry.run_tool("ksvalidator", argv_for(sc, w) + ["http://top.example/ks.cfg"])
    if k == "flatten":
        return entry.run_tool("ksflatten", [o for o in argv_for(sc, w) if o not in ("-e", "-i")] + ["-c", path, "-o", w.abs("result.cfg")])
    if k == "shell":
        return entry.run_tool("ksshell", [o for o in argv_for(sc, w) if o not in ("-e", "-i")] + ["-i", path, "-o", w.abs("result.cfg")],
                              sc["typed"])
    fn = {"pre_file": lambda: P.preprocessKickstart(path), "pre_str": lambda: P.preprocessFromString(text),
          "pre_file_str": lambda: P.preprocessKickstartToString(path)}[k]
    r = entry.call(fn)
    if isinstance(r.get("value"), bytes):
        r["value"] = None
    return r


def execute(sc, ctx):
    dry, sim = os.path.join(ctx.root, "dry"), os.path.join(ctx.root, "sim")
    points = entry.rehearse(dry, sc, lambda w, n: act(sc, w, n)) if sc["picks"] else []
    w, n = entry.setup(sim, ctx, sc)
    w.plan = entry.plan_from(points, sc["picks"])
    if "disk" in sc:
        w.disk_left = sc["disk"]
    fds = world.open_fds()
    w.arm()
    r = act(sc, w, n)
    w.armed = False
    keep = []
    if r["status"] == "ok" and r.get("value"):
        keep = [w.rel(r["value"])]
    r2 = {"status": r["status"], "exc": r.get("exc")}
    del r
    left = entry.leftovers(w, n, fds, keep)
    ctx.log.append(["end", r2["status"]])
    if r2["status"] in ("hang", None):
        ctx.violation("no-end", "%s: %s" % (sc["kind"], r2["exc"]))
    if left:
        ctx.violation("left-behind", "%s ended with %s; left: %s; faults: %s" % (
            sc["kind"], r2["status"], left, json.dumps(w.fired[:4])))
    ctx.count("runs_" + sc["kind"])
    ctx.count("ended_ok" if r2["status"] in ("ok", 0) else "ended_with_failure")
    ctx.nontrivial = bool(w.fired) or r2["status"] not in ("ok", 0)
    ctx.simtime = w.now - w.t0
