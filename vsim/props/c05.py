"""A failing include is fatal exactly when asked, and never spreads."""
from vsim import gen, model, treerun

ID = "C05"
QUICK, THOROUGH = 2500, 80000
QUICK_WALL, THOROUGH_WALL = 70, 1500
RULE = ("one run reads one generated tree in which some included documents cannot be loaded or contain a rejected line, with "
        "missing includes fatal or not, and compares with the reference model; distinct by scenario; non-trivial if an "
        "include failed")
MEASURE = "distinct scenarios (tree, failing documents and how they fail, settings)"
REAL = ["pykickstart.parser", "pykickstart.sections", "pykickstart.load", "handlers and commands", "requests", "urllib3", "http.client"]
STUB = ["system calls on files below the scratch root", "network, TLS and servers", "clock"]
ASSUMPTIONS = ["single commands behave as the dispatcher of a separate handler does",
               "texts are well nested: an included text does not open or close a section of its parent"]
SHRINK = ["nodes", "items"]
valid, simplify = treerun.valid, treerun.simplify


def generate(rng, index, tier):
    v = gen.version(rng)
    g = gen.TreeGen(rng, v, depth=rng.choice([1, 2, 3, 4]), max_docs=rng.choice([4, 7]), p_inc=rng.choice([0.3, 0.45]),
                    inc_in_sec=rng.choice([0.15, 0.35]), urls=rng.choice([0, 0.3, 0.6]), bad=rng.choice([0, 0.06]),
                    badhdr=rng.choice([0, 0.05]))
    sc = g.tree(n=rng.randint(3, 10), depth=rng.randint(1, 4))
    inner = [d for d in sorted(sc["docs"]) if d != "D0"]
    for d in inner:
        if rng.random() < 0.3:
            gen.fail_doc(rng, sc["docs"][d], sc["hosts"])
    if sc["hosts"] and rng.random() < 0.15:
        h = rng.choice(sorted(sc["hosts"]))
        hd = sc["hosts"][h]
        hd.update(rng.choice([{"dns": "fail"}, {"dns": "slowfail"}, {"connect": ["refuse"]}, {"connect": ["blackhole"]},
                              {"tls": "expired"} if hd["is_tls"] else {"connect": ["unreach"]}]))
    # a name that does not exist as given is looked up next to the includer,
    # where a decoy would be the right file
    for d in sc["docs"].values():
        absolute(d["nodes"], sc["docs"])
    if rng.random() < 0.1:
        gen.break_line(rng, sc, inner or ["D0"])
    sc["fatal"] = rng.random() < 0.35
    sc["errfatal"] = rng.random() < 0.6
    sc["builtin"] = rng.random() < 0.6
    sc["max_read"] = rng.choice([None, None, 10])
    return sc


def absolute(nodes, docs):
    for n in nodes:
        if n[0] == "inc" and n[2] == "cwd" and docs[n[1]].get("fail"):
            n[2] = "abs"
        elif n[0] == "sec":
            absolute(n[3], docs)


def execute(sc, ctx):
    settings = {"missingIncludeIsFatal": sc["fatal"], "errorsAreFatal": sc["errfatal"]}
    got, w, n, p = treerun.real(sc, ctx, settings, builtin=sc["builtin"])
    exp = treerun.expected(sc, settings, vanished=model.vanished_in(w))
    ctx.log.append(got["outcome"][:3])
    if got["outcome"][0] == "raise" and exp["outcome"][0] == "raise" and not got["outcome"][3] and exp["outcome"][1].startswith("Kickstart"):
        ctx.violation("wrong-exception", "expected %s, got %s" % (exp["outcome"], got["outcome"]))
    treerun.check(ctx, exp, got, sc["builtin"], ("events", "commands", "scripts", "packages", "platform", "nulls"))
    failed = [d for d in exp["fetched"] if model.doc_fails(sc["docs"][d], sc["hosts"], True, model.vanished_in(w))]
    ctx.count("includes", len(exp["fetched"]))
    ctx.count("includes_failed", len(failed))
    ctx.count("ended_ok" if got["outcome"][0] == "ok" else "ended_by_error")
    ctx.nontrivial = bool(failed)
    ctx.simtime = w.now - w.t0
