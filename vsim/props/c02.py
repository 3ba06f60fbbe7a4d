"""What is reported as written is completely on disk."""
import json
import os

from vsim import core, entry, gen, model
from vsim.props.c01 import describe

ID = "C02"
QUICK, THOROUGH = 2500, 80000
QUICK_WALL, THOROUGH_WALL = 70, 1500
RULE = ("one run is one call of load_to_file, preprocessKickstart, preprocessFromString, or one run of ksflatten -o or "
        "ksshell -o, with zero to three faults placed at operations found by a fault-free rehearsal, or with a disk of "
        "limited size; distinct by scenario; non-trivial if a fault fired")
MEASURE = "distinct scenarios (call, input tree, fault plan)"
REAL = ["pykickstart.load", "pykickstart.parser", "pykickstart handlers", "tools/ksflatten.py", "tools/ksshell.py",
        "shutil", "tempfile", "requests", "urllib3", "http.client", "Python io layers"]
STUB = ["system calls on files below the scratch root", "network, TLS and servers", "clock", "terminal input"]
ASSUMPTIONS = ["a failed close may lose data written before", "writing goes through Python's io or os layers"]
SHRINK = ["picks", "nodes", "typed"]


def generate(rng, index, tier):
    kind = rng.choice(["load_file", "load_file", "load_url", "pre_file", "pre_str", "flatten", "flatten", "shell"])
    sc = {"kind": kind}
    if kind in ("load_file", "load_url"):
        t = "".join(rng.choice(["lang en_US\n", "ünïcode\n", "text\r\n", "x" * 500 + "\n", "last line", "\n"])
                    for _ in range(rng.randint(0, 30)))
        if rng.random() < 0.2:
            t = t * 200
        sc["text"] = t
        sc["hosts"] = {"h1.example": {}}
        sc["version"], sc["docs"], sc["top"] = "F34", {}, None
        if kind == "load_url":
            sc["beh"] = gen.benign_behaviour(rng)
    else:
        sc.update(entry.plain_tree(rng, max_docs=3, urls=0.2, big=0.1))
        if kind in ("pre_file", "pre_str", "shell"):
            entry.add_appends(rng, sc, rng.randint(0, 3))
    sc["old"] = rng.choice([None, "short\n", "an older and rather longer file\n" * 400])
    if kind == "flatten" and rng.random() < 0.3:
        d = rng.choice(sorted(sc["docs"]))
        if rng.random() < 0.5:
            gen.fail_doc(rng, sc["docs"][d], sc["hosts"])
            sc["broken"] = d
        elif not sc["docs"][d]["insec"]:
            sc["docs"][d]["nodes"].append(["cmd", ["nosuchcommand"], 0])
            sc["broken"] = d
    if kind == "shell":
        sc["typed"] = [gen.render_args(a, 0) for a in
                       (gen.Commands(rng, sc["version"], stable_only=True).next() for _ in range(rng.randint(0, 3)))]
    sc["picks"] = entry.picks(rng, rng.choice([0, 1, 1, 1, 1, 2, 3]), ["w", "w", "w", "any"], under=rng.choice([None, "out", "tmp"]))
    if rng.random() < 0.2:
        sc["disk"] = rng.random()
    if rng.random() < 0.3:
        sc["max_write"] = rng.choice([1, 13, 500, 4096])
    if rng.random() < 0.3:
        sc["max_read"] = rng.choice([7, 500, 4096])
    return sc


def prepare(sc, w, n):
    w.put("out/keep", "x")
    if sc["old"] is not None and sc["kind"] not in ("pre_file", "pre_str"):
        w.put("out/result.cfg", sc["old"])
    if sc["kind"] == "load_file":
        w.put("src.cfg", sc["text"])
    elif sc["kind"] == "load_url":
        n.urls["http://h1.example/a.cfg"] = dict(sc["beh"], body=sc["text"])


def act(sc, w, n):
    """The call itself; returns {"status": ..., "file": path of the result}."""
    from pykickstart import load, parser
    k = sc["kind"]
    out = w.abs("out/result.cfg")
    if k in ("load_file", "load_url"):
        r = entry.call(lambda: load.load_to_file(w.abs("src.cfg") if k == "load_file" else "http://h1.example/a.cfg", out))
        if r["status"] == "ok":
            r["file"] = r["value"]
        return r
    if k in ("pre_file", "pre_str"):
        top = sc["docs"][sc["top"]]
        if k == "pre_file":
            r = entry.call(lambda: parser.preprocessKickstart(w.abs(top["path"])))
        else:
            text = model.text_of(top, sc["docs"], w.root)
            r = entry.call(lambda: parser.preprocessFromString(text))
        if r["status"] == "ok":
            r["file"] = r["value"]
        return r
    top = w.abs(sc["docs"][sc["top"]]["path"])
    if k == "flatten":
        r = entry.run_tool("ksflatten", ["-c", top, "-v", sc["version"], "-o", out])
    else:
        r = entry.run_tool("ksshell", ["-i", top, "-v", sc["version"], "-o", out], sc["typed"])
    r["file"] = out
    r["code"] = r["status"]
    r["status"] = {0: "ok", None: "hang"}.get(r["status"], "failed")
    return r


def prepared_call(sc, w, n):
    prepare_world(sc, w, n)
    return act(sc, w, n)


def prepare_world(sc, w, n):
    armed, w.armed = w.armed, False
    prepare(sc, w, n)
    w.armed = armed


def read_bytes(p):
    from vsim.world import R_OPEN
    try:
        with R_OPEN(p, "rb") as f:
            return f.read()
    except OSError:
        return None


def execute(sc, ctx):
    dry_root, real_root = os.path.join(ctx.root, "dry"), os.path.join(ctx.root, "sim")
    k = sc["kind"]

    def rehearsal():
        w, n = entry.setup(dry_root, None, sc)
        w.arm()
        r = prepared_call(sc, w, n)
        data = read_bytes(r["file"]) if r["status"] == "ok" else None
        return [w.points, r["status"], r.get("exc"), data.decode("latin-1") if data is not None else None]
    points, dry_status, dry_exc, dry_data = core.oracle(rehearsal)
    # what has to be in the file
    if k in ("load_file", "load_url"):
        want = sc["text"].encode("utf-8")
    elif dry_data is not None:
        # names below the root differ between rehearsal and run
        want = dry_data.encode("latin-1").replace(dry_root.encode(), real_root.encode())
    else:
        want = None
    broken = "broken" in sc
    w, n = entry.setup(real_root, ctx, sc)
    prepare_world(sc, w, n)
    w.plan = entry.plan_from(points, sc["picks"])
    w.max_write = max(sc["max_write"], len(want or b"") // 500) if sc.get("max_write") else None
    w.max_read = max(sc["max_read"], len(want or b"") // 500) if sc.get("max_read") else None
    if "disk" in sc and want:
        # several files are written on the way, so allow for up to twice the size
        w.disk_left = int(len(want) * sc["disk"] * (2 if k == "shell" else 1))
    w.arm()
    r = act(sc, w, n)
    w.armed = False
    hard = entry.hard(w.fired)
    hard = [f for f in hard if f["op"] != "net"]
    where = "%s%s" % (k, " with " + json.dumps(hard[:3]) if hard else "")
    w.log.append(["result", r["status"], r.get("code")])
    if r["status"] == "hang":
        ctx.violation("no-end", where + ": " + str(r.get("exc")))
        return
    if r["status"] == "ok":
        if want is None:
            ctx.violation("success-on-bad-input", where + ": reported success")
        elif k == "shell" and any(f["op"] in ("open_r", "read", "stat") or f["path"].startswith("tmp/") for f in hard):
            pass        # the input was lost with a warning; C12 is about that
        else:
            got = read_bytes(r["file"])
            if got is None:
                ctx.violation("missing", "%s: reported success, but there is no file" % where)
            elif got != want:
                ctx.violation("incomplete", "%s: reported success, but the file %s" % (
                    where, describe(want.decode("utf-8", "replace"), got.decode("utf-8", "replace"))))
    else:
        if not hard and not broken:
            ctx.violation("failure-without-fault", "%s: %s %s" % (where, r["status"], r.get("exc") or r.get("err")))
        if k.startswith("load_") and r["status"] == "other":
            ctx.violation("wrong-exception", "%s: %s" % (where, r["exc"]))
        if k == "flatten" and sc["old"] is not None and not any(
                f["op"] in ("open_w", "write", "close", "disk") for f in hard):
            got = read_bytes(w.abs("out/result.cfg"))
            if got != sc["old"].encode():
                ctx.violation("output-destroyed", "%s: the input could not be read or parsed, but the existing output was changed"
                              % where)
    ctx.count("calls_" + k)
    ctx.count("reported_ok" if r["status"] == "ok" else "reported_failure")
    ctx.nontrivial = bool(hard) or bool(w.fired)
    ctx.simtime = w.now - w.t0
