"""ksvalidator's verdict is right under every fault."""
import json
import os

from vsim import core, entry, gen, model, treerun

ID = "C10"
QUICK, THOROUGH = 2500, 80000
QUICK_WALL, THOROUGH_WALL = 80, 1500
RULE = ("one run of ksvalidator on a generated tree (file or URL, with %ksappend and %include, good, bad, deprecated or failing "
        "parts), with zero to two faults at operations found by a fault-free rehearsal; the exit status is compared with the "
        "reference model's verdict; distinct by scenario; non-trivial if the verdict was negative or a fault fired")
MEASURE = "distinct scenarios (tree, options, fault plan)"
REAL = ["tools/ksvalidator.py", "pykickstart (all)", "requests", "urllib3", "http.client", "tempfile", "shutil"]
STUB = ["system calls on files below the scratch root", "network, TLS and servers", "clock"]
ASSUMPTIONS = ["whether a single command is accepted, and whether it warns, is what the dispatcher of a separate handler says",
               "removing a file does not itself fail"]
SHRINK = ["picks", "nodes", "items", "opts"]


def generate(rng, index, tier):
    v = gen.version(rng)
    clean = rng.random() < 0.5
    g = gen.TreeGen(rng, v, depth=rng.choice([0, 1, 2]), max_docs=rng.choice([2, 4]), p_inc=0.2, urls=rng.choice([0, 0.4]),
                    bad=0 if clean else rng.choice([0, 0.05, 0.3]), warn=0 if clean else rng.choice([0, 0.05]),
                    badhdr=0 if clean else 0.05, unknown=not clean and rng.random() < 0.3, repeat=not clean,
                    stable=clean, big=0.02)
    top = None
    if rng.random() < 0.3:
        g.hosts["top.example"] = {"is_tls": False}
        top = {"loc": "url", "url": "http://top.example/ks.cfg", "beh": gen.benign_behaviour(rng)}
    sc = g.tree(n=rng.randint(1, 8), top=top)
    # the validator reads a copy, so most names are given in full
    rel = rng.random() < 0.15
    if not rel:
        for d in sc["docs"].values():
            if d is sc["docs"]["D0"]:
                full(d["nodes"])
    if rng.random() < 0.3:
        entry.add_appends(rng, sc, rng.randint(1, 2))
    if rng.random() < 0.25:
        d = rng.choice(sorted(sc["docs"]))
        gen.fail_doc(rng, sc["docs"][d], sc["hosts"], cycle=d[0] == "D" and d != "D0")
        from vsim.props.c05 import absolute
        for x in sc["docs"].values():
            absolute(x["nodes"], sc["docs"])
    if not clean and rng.random() < 0.05:
        sc["docs"]["D0"]["nodes"].append(["txt", *rng.choice([("lang 'x", "value"), ("%include", "parse")])])
    if not clean and rng.random() < 0.04:
        n = rng.choice([255, 256, 257, 512])
        sc["docs"]["D0"]["nodes"] = [["cmd", ["nosuchcommand"], 0]] * n
        for k in ("fail", "rule", "frac"):
            sc["docs"]["D0"].pop(k, None)
        if top:
            sc["docs"]["D0"]["beh"] = {"ctype": "text/plain"}
    if rng.random() < 0.04:
        # a section that is never closed
        secs = [n for n in sc["docs"]["D0"]["nodes"] if n[0] == "sec" and n[1] != "%packages"]
        last = sc["docs"]["D0"]["nodes"][-1:]
        if last and last[0] in secs:
            last[0][4] = False
    sc["opts"] = [o for o in ("-e", "-i") if rng.random() < 0.5]
    sc["ref"] = rng.choice(["abs", "rel"])
    sc["picks"] = entry.picks(rng, rng.choice([0, 0, 1, 1, 2]), ["w", "r", "any"], under=rng.choice([None, None, "tmp"]))
    if rng.random() < 0.04:
        sc["noversion"] = True
    return sc


def full(nodes):
    for n in nodes:
        if n[0] == "inc" and n[2] == "rel":
            n[2] = "abs"
        elif n[0] == "sec":
            full(n[3])


def valid(sc):
    ok = treerun.valid(sc)
    for did, d in sc["docs"].items():
        for i, n in enumerate(d["nodes"]):
            if n[0] == "sec" and not n[4] and (did != "D0" or i < len(d["nodes"]) - 1):
                return False
    return ok


simplify = treerun.simplify


def act(sc, w, n):
    top = sc["docs"]["D0"]
    ref = top["url"] if top["loc"] == "url" else w.abs(top["path"]) if sc["ref"] == "abs" else top["path"]
    return entry.run_tool("ksvalidator", ["-v", "NOSUCH" if sc.get("noversion") else sc["version"]] + sc["opts"] + [ref])


def spliced(sc):
    """The tree after preprocessing, and whether that can succeed."""
    c = json.loads(json.dumps(sc))
    top = c["docs"]["D0"]
    nodes, apps = [], []
    for n in top["nodes"]:
        if n[0] == "app":
            apps.append(n[1])
            nodes += c["docs"][n[1]]["nodes"]
        else:
            nodes.append(n)
    top["nodes"] = nodes
    return c, apps


def verdict(sc, vanished, rel_fails=False):
    """Is the kickstart all right?"""
    if sc.get("noversion"):
        return False
    fails = {d: model.doc_fails(doc, sc["hosts"], True, vanished) for d, doc in sc["docs"].items()}
    c, apps = spliced(sc)
    if fails["D0"] or any(fails[a] for a in apps):
        return False
    if rel_fails:
        for how, d in gen.includes_of(sc["docs"]["D0"]["nodes"]):
            if how == "rel":
                fails[d] = True
    exp = treerun.expected(c, {"followIncludes": "-i" in sc["opts"], "errorsAreFatal": "-e" in sc["opts"]}, fails=fails,
                           wanterr=True)
    return exp["outcome"] == ["ok"] and exp["errors"] == 0 and not exp["warned"]


def execute(sc, ctx):
    dry, sim = os.path.join(ctx.root, "dry"), os.path.join(ctx.root, "sim")
    points = entry.rehearse(dry, sc, lambda w, n: act(sc, w, n)) if sc["picks"] else []
    w, n = entry.setup(sim, ctx, sc)
    w.plan = entry.plan_from(points, sc["picks"])
    before = {d["path"]: w.get(d["path"]) for d in sc["docs"].values() if d["loc"] == "file"}
    w.arm()
    r = act(sc, w, n)
    w.armed = False
    vanished = model.vanished_in(w)
    ctx.log.append([r["status"]])
    injected = [f for f in entry.hard(w.fired) if f["op"] != "net" and not own_fault(sc, f)]
    where = "status %s, %s%s" % (r["status"], " ".join(sc["opts"]), "; faults " + json.dumps(injected[:3]) if injected else "")
    if r["status"] is None:
        ctx.violation("no-end", str(r["exc"]))
        return
    good = verdict(sc, vanished)
    if r["status"] == 0:
        if not good:
            ctx.violation("accepted", "%s: the kickstart is not all right; output %r" % (where, (r["out"] + r["err"])[:300]))
        if any(f.get("lasting") and f["op"] in ("open_r", "read", "open_w", "write", "close") for f in injected):
            ctx.violation("accepted-unread", "%s: a file could not be read or written" % where)
    elif good and not injected:
        cls = "rejected"
        if any(how == "rel" for how, _ in gen.includes_of(sc["docs"]["D0"]["nodes"])) and not verdict(sc, vanished, True):
            cls = "relative-include"
        ctx.violation(cls, "%s: the kickstart is all right; output %r %s" % (where, (r["out"] + r["err"])[:300], r["exc"]))
    for path, data in before.items():
        if path not in vanished and w.get(path) != data:
            ctx.violation("input-changed", "%s: %s was changed" % (where, path))
    ctx.count("valid_inputs" if good else "invalid_inputs")
    ctx.count("verdict_ok" if r["status"] == 0 else "verdict_not_ok")
    ctx.nontrivial = r["status"] != 0 or bool(injected)
    ctx.simtime = w.now - w.t0


def own_fault(sc, f):
    """A fault that belongs to a document rather than to the plan."""
    return any(d.get("path") == f["path"] and d.get("fail") in ("fault", "midread") for d in sc["docs"].values())
