"""A separately started interpreter that carries out tasks amid given hidden state
(see props/c16.py).  Reads a job from a file; writes the results to another."""
import copy
import io
import json
import os
import random
import sys
import warnings


def main(jobfile, outfile):
    with open(jobfile) as f:
        job = json.load(f)
    from vsim import core, entry, gen, model, net as simnet
    world = job["world"]
    w, n = entry.setup(job["root"], core.Ctx(job["root"]), {})
    w.now = w.t0 = world["clock"]
    prefix = world["tmp"]
    import tempfile

    class Names:
        def __iter__(self):
            return self

        def __next__(self):
            w.tempno += 1
            return "%s%d" % (prefix, w.tempno)
    names = Names()
    tempfile._get_candidate_names = lambda: names
    tempfile.tempdir = w.abs(world["tmpdir"])
    os.environ["TMPDIR"] = tempfile.tempdir
    os.makedirs(tempfile.tempdir, exist_ok=True)
    os.makedirs(w.abs(world["cwd"]), exist_ok=True)
    os.chdir(w.abs(world["cwd"]))
    for m in world.get("modules", []):
        # somebody else's modules in the working directory of an interpreter
        # that looks for modules there first
        with open(m + ".py", "w") as f:
            f.write("class %sHandler:\n    def __init__(self, *a, **k):\n        self.foreign = True\n" % m.upper())
        sys.path.insert(0, "")
    pid = world["pid"]
    os.getpid = lambda: pid
    rng = random.Random(world["noise"])
    results = {}
    order = list(range(len(job["tasks"])))
    rng.shuffle(order)
    random.seed(world["noise"])
    for i in order:
        for _ in range(world["earlier"]):
            try:
                noise(rng, w, n)
            except Exception:
                pass
        w.armed = False
        results[i] = perform(job["tasks"][i], i, w, n)
    with open(outfile, "w") as f:
        json.dump([results[i] for i in range(len(order))], f)


def noise(rng, w, n):
    """Earlier work in the same process, some of which fails."""
    from vsim import gen, model
    from pykickstart.parser import KickstartParser, preprocessKickstart
    from pykickstart.version import makeVersion
    warnings.resetwarnings()
    warnings.simplefilter("ignore")
    sys.stderr = sys.stdout = io.StringIO()
    v = gen.version(rng)
    g = gen.TreeGen(rng, v, depth=1, urls=0.2, bad=0.1, warn=0.1, max_docs=3, badhdr=0.1)
    sc = g.tree(n=rng.randint(1, 8))
    for d in sc["docs"].values():
        if d["loc"] == "file":
            d["path"] = "noise/" + d["path"]
    sc["decoys"] = {}
    model.materialise(sc, w, n)
    p = KickstartParser(makeVersion(v), errorsAreFatal=rng.random() < 0.5, missingIncludeIsFatal=rng.random() < 0.5)
    top = w.abs(sc["docs"]["D0"]["path"])
    if rng.random() < 0.3:
        w.rules = [{"cls": rng.choice(["open_r", "read"]), "path": sc["docs"]["D0"]["path"], "kind": "EIO", "after": rng.choice([0, 1])}]
        w.armed = True
    try:
        x = rng.random()
        if x < 0.2:
            os.remove(preprocessKickstart(top))
        else:
            p.readKickstart(top)
        if x < 0.6:
            str(p.handler)
        elif x < 0.7:
            copy.deepcopy(p.handler)
        elif x < 0.8:
            p.handler.maskAllExcept(["lang"])
    finally:
        w.armed = False
        w.rules = []


def perform(t, i, w, n):
    from vsim import entry, model
    k = t["kind"]
    if "tree" in t:
        sc = t["tree"]
        for d in sc["docs"].values():
            if d["loc"] == "file" and not d["path"].startswith("t%d/" % i):
                d["path"] = "t%d/%s" % (i, d["path"])
        model.materialise(dict(sc, decoys={}), w, n)
        top = sc["docs"]["D0"]
        ref = top["url"] if top["loc"] == "url" else w.abs(top["path"])
    if k == "handler":
        return handler_text(t)
    if k == "flatten":
        out = w.abs("t%d/out.cfg" % i)
        os.makedirs(os.path.dirname(out), exist_ok=True)
        r = entry.run_tool("ksflatten", ["-c", ref, "-v", t["version"], "-o", out])
        data = w.get("t%d/out.cfg" % i)
        return [r["status"], r["out"], r["err"], r["exc"], None if data is None else data.decode("latin-1")]
    if k == "stdout":
        r = entry.run_tool("ksflatten", ["-c", ref, "-v", t["version"]])
        return [r["status"], r["out"], r["err"], r["exc"]]
    if k == "validate":
        r = entry.run_tool("ksvalidator", ["-v", t["version"]] + t["opts"] + [ref])
        return [r["status"], r["out"], r["err"], r["exc"]]
    if k == "verdiff":
        r = entry.run_tool("ksverdiff", ["-f", t["from"], "-t", t["to"]] if t["from"] else ["-l"])
        return [r["status"], r["out"], r["err"], r["exc"]]
    if k == "shell":
        out = w.abs("t%d/out.cfg" % i)
        os.makedirs(os.path.dirname(out), exist_ok=True)
        done = []
        import readline
        got = {}
        readline.set_completer = lambda f: got.update(f=f)
        readline.get_line_buffer = lambda: got["line"]
        readline.get_begidx = lambda: got["b"]
        readline.get_endidx = lambda: got["e"]

        keep = entry.Stdin

        class Typed(keep):
            def readline(self, *a):
                while self.items and isinstance(self.items[0], dict):
                    x = self.items.pop(0)
                    got.update(line=x["line"], b=x["b"], e=x["e"])
                    res = []
                    while len(res) < 500:
                        c = got["f"](x["line"][x["b"]:x["e"]], len(res))
                        if c is None:
                            break
                        res.append(c)
                    done.append(res)
                return keep.readline(self)
        entry.Stdin = Typed
        try:
            items = t["typed"]
            r = entry.run_tool("ksshell", ["-v", t["version"], "-o", out], items)
        finally:
            entry.Stdin = keep
        data = w.get("t%d/out.cfg" % i)
        return [r["status"], r["out"], r["err"], r["exc"], done, None if data is None else data.decode("latin-1")]
    raise ValueError(k)


def handler_text(t):
    from pykickstart.parser import KickstartParser
    from pykickstart.version import makeVersion
    sys.stderr = sys.stdout = io.StringIO()
    out = []
    with warnings.catch_warnings(record=True) as caught:
        warnings.resetwarnings()
        warnings.simplefilter("always")
        h = makeVersion(t["version"])
        p = KickstartParser(h, errorsAreFatal=False, unknownSectionIsFatal=False)
        for op in t["ops"]:
            try:
                if op[0] == "text":
                    p.readKickstartFromString(op[1])
                elif op[0] == "reset":
                    h.resetCommand(op[1])
                elif op[0] == "mask":
                    h.maskAllExcept(op[1])
                elif op[0] == "pkg":
                    h.packages.add(op[1])
                out.append("ok")
            except Exception as e:
                out.append("%s: %s" % (type(e).__name__, e))
        out.append([str(x.message) for x in caught if "ickstart" in type(x.message).__name__])
    try:
        out.append(str(h))
    except Exception as e:
        out.append("%s: %s" % (type(e).__name__, e))
    out.append(sys.stderr.getvalue())
    out.append(p.errorsCount)
    return out


if __name__ == "__main__":
    main(*sys.argv[1:])
