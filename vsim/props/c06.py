"""Each section gets one header, its lines in order, one close."""
from vsim import dump, gen, model, treerun

ID = "C06"
QUICK, THOROUGH = 2500, 80000
QUICK_WALL, THOROUGH_WALL = 70, 1500
RULE = ("one run reads one generated tree rich in sections, built-in and user-registered, closed or not, with includes inside "
        "(healthy or failing); every call the section objects receive is compared with the reference model; distinct by "
        "scenario; non-trivial if at least two sections were opened")
MEASURE = "distinct scenarios (tree of sections, version, settings)"
REAL = ["pykickstart.parser", "pykickstart.sections", "pykickstart.load", "handlers and commands", "requests", "urllib3", "http.client"]
STUB = ["system calls on files below the scratch root", "network, TLS and servers", "clock",
        "section objects: recording subclasses of the real ones"]
ASSUMPTIONS = ["an included text does not open or close a section of its parent",
               "a section that is not closed is followed by another section's header or by the end of the top document"]
SHRINK = ["nodes", "items"]


def generate(rng, index, tier):
    v = gen.version(rng, pre=0.4)
    custom = {"%custom": True, "%mysect": False, "%pre2": rng.random() < 0.5, "%x-all": True}
    g = gen.TreeGen(rng, v, depth=rng.choice([0, 1, 2, 3]), max_docs=rng.choice([3, 6]), p_inc=0.12,
                    inc_in_sec=rng.choice([0, 0.2, 0.4]), urls=rng.choice([0, 0.4]), custom=sorted(custom),
                    badhdr=rng.choice([0, 0.1]), unknown=True, bad=rng.choice([0, 0.1]))
    sc = g.tree(n=rng.randint(2, 9))
    sc["custom"] = custom
    if rng.random() < 0.3:
        for d in sorted(sc["docs"]):
            if d != "D0" and rng.random() < 0.4:
                gen.fail_doc(rng, sc["docs"][d], sc["hosts"])
        from vsim.props.c05 import absolute
        for d in sc["docs"].values():
            absolute(d["nodes"], sc["docs"])
    sc["settings"] = {"errorsAreFatal": rng.random() < 0.5, "missingIncludeIsFatal": rng.random() < 0.4,
                      "unknownSectionIsFatal": rng.random() < 0.3}
    # leave some sections of the top document open
    p = rng.choice([0, 0, 0.3, 0.8]) if v in gen.PRE_F8 else rng.choice([0, 0, 0.3])
    top = sc["docs"]["D0"]["nodes"]
    known = set(gen.SCRIPTS) | {"%packages", "%addon", "%anaconda"} | set(custom)
    for i, n in enumerate(top):
        if n[0] == "sec" and rng.random() < p:
            last = i == len(top) - 1
            if last or (top[i + 1][0] == "sec" and top[i + 1][1] in known):
                n[4] = False
                if last and rng.random() < 0.3 and n[3] and n[3][-1][0] == "l":
                    sc["docs"]["D0"]["nonl"] = True
                    n[3][-1][1] = n[3][-1][1] or "last"
    sc["max_read"] = rng.choice([None, None, 10])
    return sc


def valid(sc):
    if not treerun.valid(sc):
        return False
    top = sc["docs"]["D0"]["nodes"]
    known = set(gen.SCRIPTS) | {"%packages", "%addon", "%anaconda"} | set(sc["custom"])
    for did, d in sc["docs"].items():
        for i, n in enumerate(d["nodes"]):
            if n[0] == "sec" and not n[4]:
                if did != "D0":
                    return False
                if i < len(top) - 1 and not (top[i + 1][0] == "sec" and top[i + 1][1] in known):
                    return False
    if sc["docs"]["D0"].get("nonl") and top and top[-1][0] == "sec" and not top[-1][4]:
        it = top[-1][3]
        if it and (it[-1][0] != "l" or not it[-1][1]):
            return False
    return True


simplify = treerun.simplify


def execute(sc, ctx):
    got, w, n, p = treerun.real(sc, ctx, sc["settings"], custom=sc["custom"])
    exp = treerun.expected(sc, sc["settings"], custom=sc["custom"], vanished=model.vanished_in(w))
    fix_last(sc, exp)
    ctx.log.append(got["outcome"][:3])
    treerun.check(ctx, exp, got, True, ("events", "scripts", "packages", "nulls"))
    ctx.count("sections_opened", sum(1 for e in got["events"] if e[0] == "hdr"))
    ctx.count("sections_closed", sum(1 for e in got["events"] if e[0] == "fin"))
    ctx.count("lines_in_sections", sum(1 for e in got["events"] if e[0] == "line"))
    ctx.count("ended_ok" if got["outcome"][0] == "ok" else "ended_by_error")
    ctx.nontrivial = sum(1 for e in got["events"] if e[0] == "hdr") >= 2
    ctx.simtime = w.now - w.t0


def fix_last(sc, exp):
    """The last line of a text without a line end has none."""
    top = sc["docs"]["D0"]
    ns = top["nodes"]
    if not (top.get("nonl") and ns and ns[-1][0] == "sec" and not ns[-1][4] and ns[-1][3]
            and ns[-1][3][-1][0] == "l"):
        return
    if exp["outcome"][0] != "ok" and exp["outcome"][2] is not None:
        return
    last = ns[-1][3][-1][1]
    eol = top.get("eol", "\n")
    for e in reversed(exp["events"]):
        if e[0] == "line" and e[1] == ns[-1][1]:
            if e[2] == last + eol:
                e[2] = e[2][:-len(eol)]
                if exp["outcome"][0] == "ok":
                    if ns[-1][1] in gen.SCRIPTS and exp["scripts"] and exp["scripts"][-1]["body"].endswith(e[2] + eol):
                        exp["scripts"][-1]["body"] = exp["scripts"][-1]["body"][:-len(eol)]
                    elif ns[-1][1] in dump.NULLS:
                        # written with a line end of its own
                        exp["nulls"][-1][1] = exp["nulls"][-1][1][:-len(eol)] + "\n"
            break
