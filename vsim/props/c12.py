"""ksshell survives anything typed and saves what was accepted."""
import io
import json
import os
import sys
import warnings

from vsim import core, dump, entry, gen, model, treerun

ID = "C12"
QUICK, THOROUGH = 1800, 60000
QUICK_WALL, THOROUGH_WALL = 90, 1500
RULE = ("one ksshell session in simulated input: typed commands (accepted, rejected, not splittable, not even text in the terminal's encoding), includes of healthy and "
        "failing files and URLs, section headers, blank lines and comments, .show/.clear/.quit/unknown internal commands, ended by "
        "end of file, an interrupt at the prompt or .quit, over an input tree that may be missing, empty, failing or broken, with "
        "faults on the temporary copy and the output; what the session shows and saves is read by a new process and compared with "
        "the reference model; distinct by scenario; non-trivial if a typed line was accepted or the input failed")
MEASURE = "distinct scenarios (session, input tree, fault plan)"
REAL = ["tools/ksshell.py", "pykickstart (all)", "requests", "urllib3", "http.client"]
STUB = ["terminal (simulated lines)", "system calls on files below the scratch root", "network, TLS and servers", "clock"]
ASSUMPTIONS = ["command lines are drawn from those which, alone, are written so that they read back the same",
               "single commands behave as the dispatcher of a separate handler does",
               "a section opened at the prompt has no body, because the shell reads one line at a time"]
SHRINK = ["picks", "nodes", "items", "typed"]
simplify = treerun.simplify

BROKEN = ["lang 'x", "\"", "bootloader --append=\"a b", "\\", "keyboard us'", "rootpw 'a\"b", "  '", "%include 'x", "%include \"",
          "user --name=\"é"]


def valid(sc):
    return treerun.valid(sc) and all(isinstance(t, list) and t for t in sc["typed"])


def generate(rng, index, tier):
    v = gen.version(rng)
    g = gen.TreeGen(rng, v, depth=rng.choice([0, 1, 2]), max_docs=rng.choice([2, 4, 6]), p_inc=0.25, inc_in_sec=0.15,
                    urls=rng.choice([0, 0.3]), stable=True, repeat=False, crlf=False, bad=rng.choice([0, 0.15]), big=0.003)
    top = None
    if rng.random() < 0.1:
        g.hosts["top.example"] = {"is_tls": False}
        top = {"loc": "url", "url": "http://top.example/ks.cfg", "beh": gen.benign_behaviour(rng)}
    has_input = rng.random() < 0.6
    sc = g.tree(n=rng.choice([0, 1, 3, 6]), top=top) if has_input else g.tree(n=0)
    typed = []
    g.cmds.badp = rng.choice([0.1, 0.3])
    for _ in range(rng.choice([0, 1, 4, 10, 20])):
        x = rng.random()
        if x < 0.5:
            a = g.cmds.next()
            if a:
                typed.append(["n", ["cmd", a, rng.randint(0, 400)]])
        elif x < 0.6:
            typed.append(["n", ["txt", rng.choice(BROKEN), "value"]])
        elif x < 0.72:
            g.left += 1
            typed.append(["n", g.include(None, 2)])
        elif x < 0.78:
            typed.append(["n", ["raw", rng.choice(["", "   ", "# a comment", "\t", "#version=DEVEL"])]])
        elif x < 0.8:
            typed.append(["n", ["plat", rng.choice(["x86_64", "IBM Z"])]])
        elif x < 0.84:
            name = rng.choice(["%pre", "%post", "%nosuch", "%traceback"] + (["%packages"] if v in gen.PRE_F8 else []))
            typed.append(["n", ["sec", name, [], [], False]])
        elif x < 0.9:
            typed.append(["show"])
        elif x < 0.94:
            typed.append(["clear"])
            g.cmds.unused = list(g.cmds.names)
            g.done = {}
        elif x < 0.96:
            typed.append(["bytes", rng.choice(["\xff", "rootpw \xe9t\xe9", "lang de_DE # \xc3", "user --name=\xed\xa0\x80", "  \xfe",
                                               "%include /\xff", "bootloader --append=\"\xf8\""])])
        elif x < 0.98:
            typed.append(["bad", rng.choice([".nosuch", ".", ".show2", ". show", "..", ".clear2 x", ".QUIT", ".é 'x"])])
        else:
            typed.append(rng.choice([["quit"], ["quit"], ["eof"], ["int"]]))
    if rng.random() < 0.5:
        typed.append(rng.choice([["quit"], ["eof"], ["int"]]))
    sc["docs"].update(g.docs)
    from vsim.props.c05 import absolute
    from vsim.props.c11 import plain
    for d in sc["docs"].values():
        plain(d["nodes"])
    copied(sc["docs"]["D0"]["nodes"])
    if rng.random() < 0.35:
        k = rng.random()
        if k < 0.6:
            d = rng.choice(sorted(sc["docs"]))
            gen.fail_doc(rng, sc["docs"][d], sc["hosts"], cycle=d[0] == "D" and d != "D0")
            for x in sc["docs"].values():
                absolute(x["nodes"], sc["docs"])
        else:
            d = sc["docs"][rng.choice(sorted(d for d in sc["docs"] if not sc["docs"][d]["insec"]))]
            d["nodes"].insert(rng.randint(0, len(d["nodes"])), rng.choice([
                ["cmd", ["nosuchcommand"], 0], ["txt", "lang 'x", "value"], ["txt", "%include", "parse"],
                ["sec", "%nosuch", [], [], True], ["sec", "%pre", ["--bad"], [["l", "x"]], True]]))
    # what a name has to be looked up as must not depend on what else there is
    sc["decoys"] = {}
    sc["typed"] = typed
    sc["input"] = has_input
    sc["escape"] = rng.random() < 0.5
    sc["out"] = rng.random() < 0.7
    sc["old"] = rng.choice([None, "old contents\n" * 50])
    sc["picks"] = []
    if rng.random() < 0.25:
        sc["picks"] = entry.picks(rng, 1, ["w"], under=None)
        sc["picks"][0]["under"] = rng.choice(["tmp", "result.cfg"])
    return sc


def copied(nodes):
    """The input is read from a copy elsewhere: names relative to it are not used."""
    for n in nodes:
        if n[0] == "inc" and n[2] == "rel":
            n[2] = "abs"
        elif n[0] == "sec":
            copied(n[3])


def line_of(sc, w, t):
    if t[0] == "n":
        ls = model.lines_of({"loc": "typed", "nodes": [t[1]]}, sc["docs"], w.root)
        return ls[0]
    return {"show": ".show", "clear": ".clear", "quit": ".quit", "bad": t[1] if t[0] == "bad" else "",
            "bytes": {"bytes": t[1] if t[0] == "bytes" else ""}, "eof": None, "int": {"raise": "KeyboardInterrupt"}}[t[0]]


def act(sc, w, n):
    if sc["old"] and sc["out"]:
        armed, w.armed = w.armed, False
        w.put("result.cfg", sc["old"])
        w.armed = armed
    argv = ["-v", sc["version"]]
    if sc["input"]:
        top = sc["docs"]["D0"]
        argv += ["-i", top["url"] if top["loc"] == "url" else w.abs(top["path"])]
    if sc["out"]:
        argv += ["-o", w.abs("result.cfg")]
    return entry.run_tool("ksshell", argv, [line_of(sc, w, t) for t in sc["typed"]], escape=sc.get("escape", False))


def expected(sc, vanished, with_input=True):
    fails = {d: model.doc_fails(doc, sc["hosts"], True, vanished) for d, doc in sc["docs"].items()}

    def body():
        from pykickstart.version import makeVersion
        warnings.resetwarnings()
        warnings.simplefilter("ignore")

        def new():
            return model.Model(sc, makeVersion(sc["version"]), fails, {"errorsAreFatal": False})

        def conf(m):
            return json.loads(json.dumps(treerun.config(m.result(["ok"]))))
        m = new()
        shows, consumed, accepted = [], 0, 0
        sc["docs"]["T"] = {"loc": "typed", "insec": False, "nodes": []}
        broken = []
        if sc["input"]:
            if with_input:
                out = m.read("D0")
                if out != ["ok"]:
                    broken = out
            else:
                broken = ["fault"]
        for t in sc["typed"]:
            consumed += 1
            if t[0] == "n":
                sc["docs"]["T"]["nodes"] = [t[1]]
                before = m.errors
                if m.read("T") == ["ok"] and m.errors == before:
                    accepted += 1
            elif t[0] == "show":
                shows.append(conf(m))
            elif t[0] == "clear":
                m = new()
            elif t[0] in ("quit", "eof", "int"):
                break
        return {"shows": shows, "final": conf(m), "consumed": consumed, "accepted": accepted, "broken": broken,
                "fetched": m.fetched}
    sys.stderr, err = io.StringIO(), sys.stderr
    try:
        return core.oracle(body)
    finally:
        sys.stderr = err


def compare(exp, texts, final, version):
    """A list of (class, text) of what differs."""
    out = []
    for i, (e, t) in enumerate(list(zip(exp["shows"], texts)) + [(exp["final"], final)]):
        if t is None:
            continue
        what = "shown" if i < len(exp["shows"]) else "saved"
        got = treerun.reread(t, version)
        if got["outcome"] != ["ok"]:
            out.append(("unreadable", "what was %s cannot be read: %s" % (what, got["outcome"])))
            continue
        for k, d in treerun.differences(e, treerun.config(got)):
            out.append((k, "accepted and %s differ: %s" % (what, d)))
    return out


def execute(sc, ctx):
    points = entry.rehearse(os.path.join(ctx.root, "dry"), sc, lambda w, n: act(sc, w, n)) if sc["picks"] else []
    w, n = entry.setup(os.path.join(ctx.root, "sim"), ctx, sc)
    w.plan = entry.plan_from(points, sc["picks"])
    w.arm()
    r = act(sc, w, n)
    w.armed = False
    vanished = model.vanished_in(w)
    from vsim.props.c10 import own_fault
    injected = [f for f in entry.hard(w.fired) if f["op"] != "net" and not own_fault(sc, f)]
    on_output = [f for f in injected if f["path"] == "result.cfg"]
    on_copy = [f for f in injected if f["path"] != "result.cfg"]
    where = "status %s%s" % (r["status"], "; faults " + json.dumps(injected[:3]) if injected else "")
    ctx.log.append([r["status"], len(r["out"])])
    if r["status"] is None:
        ctx.violation("no-end", str(r["exc"]))
        return
    exp = expected(sc, vanished)
    used = len(sc["typed"]) - r["unread"]
    ctx.count("typed_lines", used)
    ctx.count("accepted_lines", exp["accepted"])
    ctx.count("input_broken", 1 if exp["broken"] else 0)
    ctx.nontrivial = bool(exp["accepted"] or exp["broken"])
    ctx.simtime = w.now - w.t0
    # the session goes on
    if used != exp["consumed"]:
        ctx.violation("session-ended", "%s: %d of %d typed lines were read, %d expected: %s %s"
                      % (where, used, len(sc["typed"]), exp["consumed"], r["exc"], r["out"][-300:]))
        return
    if r["status"] != 0 and not on_output:
        ctx.violation("failure-without-fault", "%s: %s %s" % (where, r["err"][:300], r["exc"]))
        return
    if r["status"] == 0 and any(f.get("lasting") for f in on_output):
        ctx.violation("success-on-fault", where)
        return
    parts = r["out"].split("ks> ")
    if exp["broken"] and not parts[0].startswith("Warning") and not on_copy:
        ctx.violation("no-warning", "%s: the input ends in %s, and the session starts with %r" % (where, exp["broken"], parts[0][:200]))
    if not exp["broken"] and sc["input"] and not on_copy and "Warning" in parts[0]:
        ctx.violation("false-warning", "%s: %r" % (where, parts[0][:300]))
    texts = []
    k = 0
    for t in sc["typed"][:used]:
        k += 1
        if t[0] == "show":
            # print() ends what is shown with a line feed of its own
            texts.append(parts[k][:-1] if k < len(parts) else None)
    if r["status"] != 0:
        final = None
    elif sc["out"]:
        final = (w.get("result.cfg") or b"").decode("utf-8", "replace")
    else:
        final = parts[-1][1:-1]
    bad = compare(exp, texts, final, sc["version"])
    if bad and on_copy:
        bad = compare(expected(sc, vanished, False), texts, final, sc["version"])
    for c, t in bad:
        ctx.violation(c, "%s: %s" % (where, t))
