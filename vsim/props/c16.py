"""What is written does not depend on hidden state of the process."""
import json
import os
import shutil
import subprocess
import sys

from vsim import core, dump, gen

ID = "C16"
QUICK, THOROUGH = 450, 16000
QUICK_WALL, THOROUGH_WALL = 90, 1500
RULE = ("one batch of tasks (text of a handler after a history, ksflatten, ksvalidator, ksverdiff, a ksshell session with completions) "
        "carried out in three separately started interpreters that differ in hash seed, environment, locale, working directory, names "
        "and place of temporary files, process number, clock, order of the tasks and earlier work, some of which fails; everything "
        "written is compared byte for byte; distinct by scenario; always non-trivial")
MEASURE = "distinct scenarios (tasks, hidden states)"
REAL = ["pykickstart (all)", "tools/ksflatten.py", "tools/ksvalidator.py", "tools/ksverdiff.py", "tools/ksshell.py"]
STUB = ["system calls on files below the scratch root", "network and servers", "clock", "readline's view of the line being typed"]
ASSUMPTIONS = ["an absolute path names the same file everywhere; what the file system's encoding cannot express is not used as a name",
               "warning filters are as at the start of a process"]
SHRINK = ["tasks", "ops", "nodes", "items", "typed"]


def ascii_paths(sc):
    for d in sc["docs"].values():
        if d["loc"] == "file":
            d["path"] = d["path"].replace("ünï", "uni")
        for nodes in [d["nodes"]] + [n[3] for n in d["nodes"] if n[0] == "sec"]:
            for n in nodes:
                if n[0] == "inc" and n[2] == "cwd":
                    n[2] = "abs"
    return sc


def tree(rng, v, **o):
    opts = dict(depth=rng.choice([0, 1, 2]), max_docs=3, urls=0.15, unknown=False, bad=0.0)
    opts.update(o)
    g = gen.TreeGen(rng, v, **opts)
    top = {"loc": "file", "path": "ks.cfg"}
    if rng.random() < 0.2:
        g.hosts["top.example"] = {"is_tls": False}
        top = {"loc": "url", "url": "http://top.example/ks%d.cfg" % rng.randint(1, 10 ** 9), "beh": gen.benign_behaviour(rng)}
    return ascii_paths(g.tree(n=rng.randint(1, 8), top=top))


def task(rng):
    v = gen.version(rng)
    k = rng.choice(["handler", "handler", "flatten", "flatten", "stdout", "validate", "validate", "verdiff", "shell"])
    t = {"kind": k, "version": v}
    if k == "handler":
        c = gen.Commands(rng, v, bad=0.1, warn=0.1)
        g = gen.TreeGen(rng, v, depth=0, urls=0)
        t["ops"] = []
        for _ in range(rng.choice([2, 8, 20])):
            x = rng.random()
            if x < 0.55:
                t["ops"].append(["text", gen.render_args(c.next(), rng.randint(0, 400)) + "\n"])
            elif x < 0.8:
                s = g.section(0, None)
                t["ops"].append(["text", gen.render_args([s[1]] + s[2]) + "\n" + "".join(i[1] + "\n" for i in s[3]) + "%end\n"])
            elif x < 0.9:
                t["ops"].append(["pkg", [l for l in (gen.package_line(rng, v).split("#")[0].strip() for _ in range(rng.randint(1, 6))) if l]])
            elif x < 0.97:
                t["ops"].append(["reset", rng.choice(c.names)])
            else:
                t["ops"].append(["mask", sorted(rng.choice(c.names) for _ in range(9))])
    elif k in ("flatten", "stdout"):
        t["tree"] = tree(rng, v, bad=rng.choice([0, 0, 0.1]))
        if rng.random() < 0.1:
            gen.fail_doc(rng, t["tree"]["docs"][rng.choice(sorted(t["tree"]["docs"]))], t["tree"]["hosts"])
    elif k == "validate":
        t["tree"] = tree(rng, v, bad=rng.choice([0, 0.1, 0.4]), warn=rng.choice([0, 0.1]), badhdr=0.05, unknown=rng.random() < 0.1)
        for d in t["tree"]["docs"].values():
            full(d["nodes"])
        t["opts"] = [o for o in ("-e", "-i") if rng.random() < 0.5]
    elif k == "verdiff":
        t["from"], t["to"] = rng.choice(gen.ORDER), rng.choice(gen.ORDER)
        if rng.random() < 0.03:
            t["from"] = None
    else:
        c = gen.Commands(rng, v, bad=0.2)
        t["typed"] = []
        for _ in range(rng.randint(1, 6)):
            t["typed"].append(gen.render_args(c.next(), 1))
        for _ in range(rng.randint(2, 8)):
            t["typed"].insert(rng.randint(0, len(t["typed"])), typing(rng, c))
        t["typed"].append(rng.choice([".quit", ".show"]))
    return t


def full(nodes):
    for n in nodes:
        if n[0] == "inc":
            n[2] = "abs"
        elif n[0] == "sec":
            full(n[3])


def typing(rng, c):
    """A moment at which the user presses the tab key."""
    n = rng.choice(c.names)
    x = rng.random()
    if x < 0.2:
        line, b = "", 0
    elif x < 0.5:
        line, b = n[:rng.randint(0, 4)], 0
        if rng.random() < 0.2:
            line, b = "  " + line, 2
    elif x < 0.6:
        line, b = ".", 0
    elif x < 0.8:
        line = n + " "
        b = len(line)
    else:
        line = n + " " + rng.choice(["-", "--", "--n", "--d", "--no", "x"])
        b = len(n) + 1
    return {"line": line, "b": b, "e": len(line)}


LOCALES = [{"LANG": "C.UTF-8"}, {"LANG": "C.UTF-8"}, {"LC_ALL": "C", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0"},
           {"LANG": "xx_YY.UTF-8", "LANGUAGE": "de:fr"}, {"LC_ALL": "C"}]


def hidden(rng):
    env = dict(rng.choice(LOCALES))
    env["PYTHONHASHSEED"] = str(rng.choice([0, rng.randint(1, 2 ** 32 - 1)]))
    env["COLUMNS"] = str(rng.choice([20, 80, 200]))
    env["USER"] = rng.choice(["root", "alice"])
    env["TZ"] = rng.choice(["UTC", "Asia/Tokyo"])
    if rng.random() < 0.3:
        env["TERM"] = rng.choice(["dumb", "xterm-256color"])
    if rng.random() < 0.3:
        env["KICKSTART"] = env["PYKICKSTART_DEBUG"] = env["DEBUG"] = "1"
    if rng.random() < 0.2:
        env["PYTHONOPTIMIZE"] = "2"
    return {"env": env, "cwd": rng.choice(["", "cwd/a", "cwd/with space", "t0"]),
            "tmpdir": rng.choice(["tmp", "tmp/deep/er", "scratch"]), "tmp": rng.choice(["sim", "zz", "A"]),
            "pid": rng.randint(2, 99999), "clock": rng.choice([1.7e9, 1.0e9, 4.0e9 + 0.5]),
            "earlier": rng.choice([0, 0, 1, 3]),
            "modules": [v.lower() for v in gen.ORDER] + ["control", "lang", "helpers"] if rng.random() < 0.3 else [], "noise": rng.randint(0, 10 ** 9)}


def generate(rng, index, tier):
    worlds = [hidden(rng) for _ in range(3)]
    while len({w["env"]["PYTHONHASHSEED"] for w in worlds}) < 3:
        worlds = [hidden(rng) for _ in range(3)]
    if index % 2:
        for w in worlds:            # a third of the time nothing but one thing differs
            w["env"]["PYTHONUTF8"] = "1"
    return {"tasks": [task(rng) for _ in range(rng.randint(4, 9))], "worlds": worlds}


def execute(sc, ctx):
    root = os.path.join(ctx.root, "sim")
    results = []
    for k, world in enumerate(sc["worlds"]):
        shutil.rmtree(root, ignore_errors=True)
        os.makedirs(root)
        job, out = os.path.join(ctx.root, "job"), os.path.join(ctx.root, "out")
        with open(job, "w") as f:
            json.dump({"tasks": sc["tasks"], "world": world, "root": root}, f)
        keep = ("PATH", "PYTHONPATH", "PYTHONPYCACHEPREFIX", "HOME", "VSIM_REPO", "VSIM_SCRATCH", "NO_PROXY", "no_proxy",
                "PYTHONDONTWRITEBYTECODE")
        env = dict({k: v for k, v in os.environ.items() if k in keep}, **world["env"])
        p = subprocess.run([sys.executable, "-W", "ignore", "-m", "vsim.hidden", job, out], cwd=core.HERE, env=env,
                           stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=100)
        if p.returncode != 0:
            raise core.HarnessError("interpreter %d: %s" % (k, p.stdout.decode("utf-8", "replace")[-2000:]))
        with open(out) as f:
            results.append(json.load(f))
        os.remove(out)
        ctx.count("interpreters")
        if world["modules"]:
            ctx.count("hidden:foreign modules in cwd")
        for x in ("cwd", "tmpdir", "earlier"):
            ctx.count("hidden:%s=%s" % (x, world[x]))
    for i, t in enumerate(sc["tasks"]):
        ctx.count("task:" + t["kind"])
        for k in (1, 2):
            a, b = results[0][i], results[k][i]
            if a != b:
                ctx.violation(t["kind"] + "-differs", "task %d (%s): %s" % (i, t["version"], "; ".join(dump.diff(a, b, t["kind"]))))
                break
    ctx.log.append(results[0])
    ctx.nontrivial = True
