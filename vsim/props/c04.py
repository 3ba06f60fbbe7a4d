"""%include behaves as if the included text stood in its place."""
from vsim import gen, treerun

ID = "C04"
QUICK, THOROUGH = 2500, 80000
QUICK_WALL, THOROUGH_WALL = 70, 1500
RULE = ("one run reads one generated tree of documents with the real parser and with the reference model; distinct by "
        "scenario; non-trivial if at least one include was followed")
MEASURE = "distinct scenarios (tree, version, locations, I/O segmentation)"
REAL = ["pykickstart.parser", "pykickstart.sections", "pykickstart.load", "handlers and commands", "requests", "urllib3", "http.client"]
STUB = ["system calls on files below the scratch root", "network, TLS and servers", "clock"]
ASSUMPTIONS = ["single commands behave as the dispatcher of a separate handler does (the model applies them one by one)",
               "texts are well nested: an included text does not open or close a section of its parent"]
SHRINK = ["nodes", "items"]
valid, simplify = treerun.valid, treerun.simplify


def generate(rng, index, tier):
    v = gen.version(rng)
    g = gen.TreeGen(rng, v, depth=rng.choice([1, 2, 3, 5]), max_docs=rng.choice([3, 6, 10]), p_inc=rng.choice([0.2, 0.4]),
                    inc_in_sec=rng.choice([0.1, 0.3]), urls=rng.choice([0, 0.3, 0.6]), warn=0.03)
    top = None
    if rng.random() < 0.15:
        g.hosts["h1.example"] = {"is_tls": False}
        top = {"loc": "url", "url": "http://h1.example/top.cfg", "beh": gen.benign_behaviour(rng)}
    sc = g.tree(top=top)
    sc["topref"] = rng.choice(["abs", "rel"])
    sc["builtin"] = rng.random() < 0.5
    sc["follow"] = rng.random() < 0.9
    sc["max_read"] = rng.choice([None, None, 1, 10, 1000])
    if not any(True for _ in gen.includes_of(sc["docs"]["D0"]["nodes"])) and top is None and rng.random() < 0.3:
        sc["via"] = "string"
    return sc


def execute(sc, ctx):
    settings = {"followIncludes": sc["follow"]}
    got, w, n, p = treerun.real(sc, ctx, settings, builtin=sc["builtin"])
    exp = treerun.expected(sc, settings)
    ctx.log.append(got["outcome"][:3])
    treerun.check(ctx, exp, got, sc["builtin"], ("events", "commands", "scripts", "packages", "platform", "nulls"))
    if not sc["follow"]:
        urls = [r["url"] for r in n.requests if r["url"] != sc["docs"]["D0"].get("url")]
        opened = [path for op, path in w.points if op == "open_r" and path != sc["docs"]["D0"].get("path")]
        if urls or opened:
            ctx.violation("fetched", "includes are not to be followed, but %s were read" % (urls + opened))
    ctx.count("includes_followed", len(exp["fetched"]))
    ctx.count("documents", len(sc["docs"]))
    ctx.count("ended_ok" if got["outcome"][0] == "ok" else "ended_by_error")
    ctx.nontrivial = len(exp["fetched"]) > 0
    ctx.simtime = w.now - w.t0
