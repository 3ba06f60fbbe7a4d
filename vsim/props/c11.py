"""ksflatten writes a stand-alone equivalent or fails."""
import json
import os
import re

from vsim import core, entry, gen, model, treerun

ID = "C11"
QUICK, THOROUGH = 2500, 80000
QUICK_WALL, THOROUGH_WALL = 80, 1500
RULE = ("one run of ksflatten on a generated tree of files and URLs, some of which fail or are rejected, with zero to two faults "
        "at operations found by a fault-free rehearsal; if it reports success, its output is read by a new process and the "
        "configuration compared with the reference model's of the original tree; distinct by scenario; non-trivial if an "
        "include was followed or the run failed")
MEASURE = "distinct scenarios (tree, output, fault plan)"
REAL = ["tools/ksflatten.py", "pykickstart (all)", "requests", "urllib3", "http.client"]
STUB = ["system calls on files below the scratch root", "network, TLS and servers", "clock"]
ASSUMPTIONS = ["command lines are drawn from those which, alone, are written so that they read back the same",
               "single commands behave as the dispatcher of a separate handler does"]
SHRINK = ["picks", "nodes", "items"]
valid, simplify = treerun.valid, treerun.simplify


def generate(rng, index, tier):
    v = gen.version(rng)
    g = gen.TreeGen(rng, v, depth=rng.choice([0, 1, 2, 3]), max_docs=rng.choice([2, 4, 6]), p_inc=0.3, inc_in_sec=0.2,
                    urls=rng.choice([0, 0.3]), stable=True, repeat=False, crlf=False)
    top = None
    if rng.random() < 0.1:
        g.hosts["top.example"] = {"is_tls": False}
        top = {"loc": "url", "url": "http://top.example/ks.cfg", "beh": gen.benign_behaviour(rng)}
    sc = g.tree(n=rng.randint(2, 10), top=top)
    for d in sc["docs"].values():
        plain(d["nodes"])
    if rng.random() < 0.2:
        d = rng.choice(sorted(sc["docs"]))
        gen.fail_doc(rng, sc["docs"][d], sc["hosts"], cycle=d[0] == "D" and d != "D0")
        from vsim.props.c05 import absolute
        for x in sc["docs"].values():
            absolute(x["nodes"], sc["docs"])
    elif rng.random() < 0.12:
        d = sc["docs"][rng.choice(sorted(d for d in sc["docs"] if not sc["docs"][d]["insec"]))]
        d["nodes"].insert(rng.randint(0, len(d["nodes"])), rng.choice([["cmd", ["nosuchcommand"], 0], ["txt", "lang 'x", "value"],
                                                                      ["sec", "%nosuch", [], [], True]]))
    sc["out"] = rng.random() < 0.8
    sc["old"] = rng.choice([None, "old contents\n" * 50])
    sc["picks"] = entry.picks(rng, rng.choice([0, 0, 1, 2]), ["w", "r", "any"])
    return sc


def plain(nodes):
    """What cannot be told apart once written is not used: no environment together with --default."""
    for n in nodes:
        if n[0] == "sec" and n[1] == "%packages":
            n[2] = [a for a in n[2] if a != "--default"]


def act(sc, w, n):
    top = sc["docs"]["D0"]
    ref = top["url"] if top["loc"] == "url" else w.abs(top["path"])
    return entry.run_tool("ksflatten", ["-c", ref, "-v", sc["version"]] + (["-o", w.abs("result.cfg")] if sc["out"] else []))


def execute(sc, ctx):
    def prepared(w, n):
        if sc["old"]:
            armed, w.armed = w.armed, False
            w.put("result.cfg", sc["old"])
            w.armed = armed
        return act(sc, w, n)
    points = entry.rehearse(os.path.join(ctx.root, "dry"), sc, prepared) if sc["picks"] else []
    w, n = entry.setup(os.path.join(ctx.root, "sim"), ctx, sc)
    w.plan = entry.plan_from(points, sc["picks"])
    w.arm()
    r = prepared(w, n)
    w.armed = False
    vanished = model.vanished_in(w)
    from vsim.props.c10 import own_fault
    injected = [f for f in entry.hard(w.fired) if f["op"] != "net" and not own_fault(sc, f)]
    where = "status %s%s" % (r["status"], "; faults " + json.dumps(injected[:3]) if injected else "")
    ctx.log.append([r["status"]])
    if r["status"] is None:
        ctx.violation("no-end", str(r["exc"]))
        return
    exp = treerun.expected(sc, {}, vanished=vanished)
    good = exp["outcome"] == ["ok"]
    if r["status"] == 0:
        text = (w.get("result.cfg") or b"").decode("utf-8", "replace") if sc["out"] else r["out"]
        if not good:
            ctx.violation("success-on-failure", "%s: %s" % (where, exp["outcome"]))
        if any(f.get("lasting") for f in injected):
            ctx.violation("success-on-fault", where)
        if re.search(r"(?m)^[ \t]*%include(?=[ \t\r]|$)", text):
            ctx.violation("include-left", "%s: the output has an include directive" % where)
        if good:
            got = treerun.reread(text, sc["version"])
            if got["outcome"] != ["ok"]:
                ctx.violation("unreadable", "%s: the output cannot be read: %s" % (where, got["outcome"]))
            else:
                for k, t in treerun.differences(treerun.config(exp), treerun.config(got)):
                    ctx.violation(k, "%s: tree and output differ: %s" % (where, t))
    elif good and not injected:
        ctx.violation("failure-without-fault", "%s: %s %s" % (where, r["err"][:300], r["exc"]))
    ctx.count("reported_ok" if r["status"] == 0 else "reported_failure")
    ctx.count("includes_followed", len(exp["fetched"]))
    ctx.nontrivial = bool(exp["fetched"]) or r["status"] != 0
    ctx.simtime = w.now - w.t0
