"""In continue-on-error mode each bad line costs exactly itself."""
import re

from vsim import gen, model, treerun

ID = "C07"
QUICK, THOROUGH = 2500, 80000
QUICK_WALL, THOROUGH_WALL = 70, 1500
RULE = ("one run reads one generated tree in which some commands and section headers are rejected, with fatal errors on or "
        "off; the configuration, the calls made, the number of errors and the text on standard error are compared with the "
        "reference model, in which a rejected line has no effect; distinct by scenario; non-trivial if a line was rejected")
MEASURE = "distinct scenarios (tree, rejected lines, settings)"
REAL = ["pykickstart.parser", "pykickstart.sections", "pykickstart.load", "handlers and commands", "requests", "urllib3", "http.client"]
STUB = ["system calls on files below the scratch root", "network, TLS and servers", "clock", "standard error"]
ASSUMPTIONS = ["whether a single command is accepted is what the dispatcher of a separate handler says, given the accepted ones before",
               "texts are well nested: an included text does not open or close a section of its parent"]
SHRINK = ["nodes", "items"]
valid, simplify = treerun.valid, treerun.simplify


def generate(rng, index, tier):
    v = gen.version(rng)
    g = gen.TreeGen(rng, v, depth=rng.choice([0, 1, 2, 3]), max_docs=rng.choice([2, 5]), p_inc=rng.choice([0.1, 0.3]),
                    inc_in_sec=rng.choice([0, 0.15]), urls=rng.choice([0, 0.3]), bad=rng.choice([0.1, 0.3, 0.6]),
                    badhdr=rng.choice([0, 0.2, 0.5]), badpkg=rng.choice([0, 0.05, 0.2]), warn=0.03, unknown=rng.random() < 0.3)
    sc = g.tree(n=rng.randint(3, 14))
    if rng.random() < 0.1:
        gen.break_line(rng, sc, sorted(sc["docs"]))
    sc["settings"] = {"errorsAreFatal": rng.random() < 0.3, "missingIncludeIsFatal": rng.random() < 0.6,
                      "unknownSectionIsFatal": rng.random() < 0.5}
    if rng.random() < 0.15:
        for d in sorted(sc["docs"]):
            if d != "D0" and rng.random() < 0.4:
                gen.fail_doc(rng, sc["docs"][d], sc["hosts"])
        from vsim.props.c05 import absolute
        for d in sc["docs"].values():
            absolute(d["nodes"], sc["docs"])
    sc["builtin"] = rng.random() < 0.7
    return sc


def execute(sc, ctx):
    got, w, n, p = treerun.real(sc, ctx, sc["settings"], builtin=sc["builtin"])
    exp = treerun.expected(sc, sc["settings"], vanished=model.vanished_in(w))
    ctx.log.append([got["outcome"][:3], got["errors"]])
    treerun.check(ctx, exp, got, sc["builtin"])
    text = "".join(m + "\n" for _, m, _ in exp["stderr"])
    if text != got["stderr"]:
        ctx.violation("stderr", "expected on standard error %r, got %r" % (text, got["stderr"]))
    # independent of how the messages are made: they name the line in its own file
    for lineno, msg, ks in exp["stderr"]:
        if str(lineno) not in re.findall(r"\d+", msg):
            ctx.violation("line-number", "the message for line %s is %r" % (lineno, msg))
    if got["outcome"][0] == "ok" and not sc["settings"]["errorsAreFatal"] and len(exp["stderr"]) != got["errors"]:
        ctx.violation("count", "%d lines were rejected, errorsCount is %d" % (len(exp["stderr"]), got["errors"]))
    ctx.count("rejected_lines", exp["errors"])
    ctx.count("commands", sum(1 for e in exp["events"] if e[0] == "cmd"))
    ctx.count("ended_ok" if got["outcome"][0] == "ok" else "ended_by_error")
    ctx.nontrivial = exp["errors"] > 0
    ctx.simtime = w.now - w.t0
