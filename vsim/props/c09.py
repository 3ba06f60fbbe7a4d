"""Independent parsers and handlers never influence each other."""
import io
import os
import sys
import threading
import warnings

from vsim import core, dump, entry, gen, model, net as simnet, sched

ID = "C09"
QUICK, THOROUGH = 1500, 40000
QUICK_WALL, THOROUGH_WALL = 90, 1800
RULE = ("one run makes two to four sessions (handlers, parsers, reads, edits, writing, loading, preprocessing; same or "
        "different versions), interleaved call by call in one thread, or in real threads of which a seeded scheduler lets one "
        "run at a time and switches between any two lines of the library; every result, warning and message is compared with "
        "the same session alone in a process of its own; distinct by scenario; non-trivial if control changed between "
        "sessions at least three times")
MEASURE = "distinct scenarios (sessions and schedule)"
REAL = ["pykickstart (all)", "requests", "urllib3", "http.client", "Python threads"]
STUB = ["system calls on files below the scratch root", "network, TLS and servers", "clock",
        "thread scheduling (switches only at lines of the library, as the seed says)"]
ASSUMPTIONS = ["a thread is switched between two source lines of the library, not inside one",
               "the warnings filter of the process is not changed meanwhile"]
SHRINK = ["sessions", "ops", "lines", "order", "schedule"]


def lines_for(rng, v, cmds, n):
    out = []
    for _ in range(n):
        x = rng.random()
        if x < 0.72:
            a = cmds.next()
            if a:
                out.append(gen.render_args(a, rng.choice([0, 0, 0, rng.randint(0, 400)])))
        elif x < 0.8:
            name = rng.choice(gen.SCRIPTS)
            out += [" ".join([name] + [gen.quote(a) for a in gen.script_header(rng, name)]), gen.script_line(rng), "body of " + name, "%end"]
        elif x < 0.9:
            out.append(" ".join(["%packages"] + [gen.quote(a) for a in gen.package_header(rng, v)]))
            out += [gen.package_line(rng, v) for _ in range(rng.randint(0, 4))] + ["%end"]
        elif x < 0.93:
            out += ["%addon " + rng.choice(["a", "b --c=d"]), "  x = 1", "%end"]
        elif x < 0.95:
            out += ["%com_example", "y", "%end"]
        elif x < 0.97:
            out.append("#platform=" + rng.choice(["x86", "s390"]))
        else:
            out.append("%include " + rng.choice(["part.cfg", "@D@/part.cfg", "missing.cfg", "http://h1.example/@N@.cfg"]))
    return out


def session(rng, i, versions):
    v = rng.choice(versions)
    cmds = gen.Commands(rng, v, bad=0.08, warn=0.15)
    ops = [["handler", v, rng.random() < 0.15]]
    ops.append(["parser", {"errorsAreFatal": rng.random() < 0.4, "missingIncludeIsFatal": rng.random() < 0.5,
                           "unknownSectionIsFatal": rng.random() < 0.5}])
    for _ in range(rng.randint(1, 5)):
        x = rng.random()
        if x < 0.5:
            ops.append(["read", rng.choice(["string", "file"]), rng.random() < 0.85, lines_for(rng, v, cmds, rng.randint(1, 7))])
        elif x < 0.58:
            ops.append(["str"])
        elif x < 0.66:
            ops.append(["reset", rng.choice(cmds.names)])
        elif x < 0.7:
            ops.append(["mask", rng.sample(cmds.names, min(len(cmds.names), rng.randint(0, 12)))])
        elif x < 0.76:
            ops.append(["load", rng.choice(["@D@/part.cfg", "@D@/none.cfg", "http://h1.example/@N@.cfg", "http://h1.example/none"])])
        elif x < 0.82:
            ops.append(["pre", ["lang en_US", "%ksappend " + rng.choice(["@D@/part.cfg", "http://h1.example/@N@.cfg", "@D@/no"]), "text"]])
        elif x < 0.88:
            ops.append(["defaults", rng.choice(cmds.names)])
        elif x < 0.92:
            ops.append(["verfile"])
        elif x < 0.96:
            v = rng.choice(versions)
            cmds = gen.Commands(rng, v, bad=0.05, warn=0.1)
            ops.append(["handler", v, rng.random() < 0.1])
            ops.append(["parser", {"errorsAreFatal": False}])
        else:
            ops.append(["edit", rng.choice(cmds.names)])
    ops.append(["end"])
    return {"ops": ops, "part": lines_for(rng, v, cmds, rng.randint(0, 4))[:8], "ver": rng.choice(gen.ORDER)}


def generate(rng, index, tier):
    versions = [gen.version(rng) for _ in range(rng.choice([1, 1, 2, 3]))]
    n = rng.choice([2, 2, 2, 3, 4])
    sessions = [session(rng, i, versions) for i in range(n)]
    sc = {"sessions": sessions, "mode": rng.choice(["calls", "threads"])}
    if rng.random() < (0.5 if sc["mode"] == "threads" else 0.15):
        # twins, which come to the same places
        sc["sessions"] = sessions = [sessions[0]] * n
    if sc["mode"] == "calls":
        order = [i for i, s in enumerate(sessions) for _ in s["ops"]]
        rng.shuffle(order)
        sc["order"] = order
    else:
        scale = rng.choice([30, 300, 3000])
        sc["grain"] = rng.choice(["lines", "lines", "novel", "novel", "opcodes", "novel opcodes"])
        if "novel" in sc["grain"]:
            scale = rng.choice([3, 15, 60])
        if "opcodes" in sc["grain"]:
            scale *= 4
        sc["schedule"] = [[rng.randint(1, scale) if rng.random() < 0.8 else rng.randint(1, 8), rng.randint(0, 5)]
                          for _ in range(rng.choice([20, 100, 400]))]
    return sc


# ------------------------------------------------------------------ sessions

LOCAL = threading.local()
SOLO = None


def current():
    s = getattr(LOCAL, "session", None)
    return s if s is not None else SOLO


class Router:
    """Standard error (or output), told apart by session."""

    def __init__(self, name):
        self.name = name

    def write(self, s):
        c = current()
        if c is not None:
            getattr(c, self.name).append(s)
        return len(s)

    def flush(self):
        pass

    def isatty(self):
        return False


def showwarning(message, category, filename, lineno, file=None, line=None):
    c = current()
    if c is not None:
        c.warned.append([category.__name__, str(message)])


class Session:
    def __init__(self, spec, i, w):
        self.spec, self.i, self.w = spec, i, w
        self.dir = w.abs("s%d" % i)
        self.results = []
        self.warned, self.err, self.out = [], [], []
        self.h = self.p = None
        self.at = 0

    def files(self, n):
        os.makedirs(self.dir, exist_ok=True)
        text = "".join(l + "\n" for l in map(self.fill, self.spec["part"]) if "%include" not in l)
        self.w.put("s%d/part.cfg" % self.i, text)
        self.w.put("s%d/ver.cfg" % self.i, "\n#version=%s\nlang en_US\n" % self.spec["ver"])
        n.urls["http://h1.example/n%d.cfg" % self.i] = {"body": text, "ctype": "text/plain"}

    def fill(self, s):
        return s.replace("@D@", self.dir).replace("@N@", "n%d" % self.i)

    def step(self):
        op = self.spec["ops"][self.at]
        self.at += 1
        self.results.append([op[0], outcome(lambda: self.do(op))])

    def all(self):
        LOCAL.session = self
        while self.at < len(self.spec["ops"]):
            self.step()

    def do(self, op):
        from pykickstart import load, parser as P
        from pykickstart.version import makeVersion, returnClassForVersion, versionFromFile
        k = op[0]
        if k == "handler":
            self.v = op[1]
            if op[2]:
                cls = returnClassForVersion(op[1])
                base = makeVersion(op[1]).commands["lang"].__class__
                mine = type(base.__name__, (base,), {"own": self.i})
                self.h = cls(commandUpdates={"lang": mine, "own%d" % self.i: mine})
            else:
                self.h = makeVersion(op[1])
            return sorted(self.h.commands), self.h.version
        if k == "parser":
            self.p = P.KickstartParser(self.h, **op[1])
            return None
        if k == "read":
            text = "".join(self.fill(l) + "\n" for l in op[3])
            c = self.p.errorsCount
            if op[1] == "file":
                path = os.path.join(self.dir, "ks%d.cfg" % self.at)
                with open(path, "w", encoding="utf-8") as f:
                    f.write(text)
                e = outcome(lambda: self.p.readKickstart(path, reset=op[2]))
            else:
                e = outcome(lambda: self.p.readKickstartFromString(text, reset=op[2]))
            return e, self.p.errorsCount - c
        if k == "str":
            return str(self.h)
        if k == "reset":
            if self.h.commands.get(op[1], 0) is None:
                return None
            self.h.resetCommand(op[1])
            return dump.command(self.h.commands[op[1]])
        if k == "mask":
            self.h.maskAllExcept(op[1])
            return None
        if k == "load":
            return load.load_to_str(self.fill(op[1]))
        if k == "pre":
            r = P.preprocessFromStringToString("".join(self.fill(l) + "\n" for l in op[1]))
            return r.decode("utf-8") if isinstance(r, bytes) else r
        if k == "defaults":
            c = self.h.commands.get(op[1])
            if c is None:
                return None
            d = None
            try:
                d = c.dataClass
            except AttributeError:
                pass
            return dump.command(c.__class__()), dump.value(d()) if d else None
        if k == "verfile":
            return versionFromFile(os.path.join(self.dir, "ver.cfg"))
        if k == "edit":
            c = self.h.commands.get(op[1])
            if c is None:
                return None
            for a, val in sorted(vars(c).items()):
                if isinstance(val, bool) and a != "seen":
                    c(**{a: not val})
            return dump.command(c)
        if k == "end":
            d = dump.handler(self.h)
            d["text"] = outcome(lambda: str(self.h))
            return d
        raise core.HarnessError(k)

    def outcome(self):
        return {"results": self.results, "warnings": self.warned, "stderr": "".join(self.err), "stdout": "".join(self.out)}


def outcome(fn):
    from pykickstart.errors import KickstartError
    try:
        return ["ok", fn()]
    except KickstartError as e:
        return ["ks", type(e).__name__, str(e), e.lineno]
    except core.HarnessError:
        raise
    except Exception as e:
        return ["exc", type(e).__name__, str(e)]


def listen():
    sys.stderr, sys.stdout = Router("err"), Router("out")
    warnings.resetwarnings()
    warnings.simplefilter("always")
    warnings.showwarning = showwarning


def valid(sc):
    return all(s["ops"] and s["ops"][0][0] == "handler" and (len(s["ops"]) < 2 or s["ops"][1][0] == "parser")
               and all(len(op) == n for op in s["ops"] for n in [LENS[op[0]]]) for s in sc["sessions"])


LENS = {"handler": 3, "parser": 2, "read": 4, "str": 1, "reset": 2, "mask": 2, "load": 2, "pre": 2, "defaults": 2, "verfile": 1,
        "edit": 2, "end": 1}


def execute(sc, ctx):
    global SOLO
    w, n = entry.setup(os.path.join(ctx.root, "sim"), ctx, {"hosts": {"h1.example": {}}})
    sessions = [Session(s, i, w) for i, s in enumerate(sc["sessions"])]
    for s in sessions:
        s.files(n)

    def alone(s):
        global SOLO
        SOLO = s
        listen()
        while s.at < len(s.spec["ops"]):
            s.step()
        return s.outcome()
    expected = [core.oracle(lambda s=s: alone(s)) for s in sessions]
    listen()
    if sc["mode"] == "calls":
        order = list(sc["order"])
        switches = 0
        prev = None
        for i in order + [i for i, s in enumerate(sessions) for _ in s.spec["ops"]]:
            if i >= len(sessions) or sessions[i].at >= len(sessions[i].spec["ops"]):
                continue
            SOLO = sessions[i]
            sessions[i].step()
            switches += i != prev
            prev = i
        SOLO = None
        errors, stuck = [], False
    else:
        S = sched.Scheduler(os.path.join(core.REPO, "pykickstart") + os.sep, sc["schedule"],
                            opcodes="opcodes" in sc.get("grain", ""), novel="novel" in sc.get("grain", ""))
        errors = S.run([s.all for s in sessions])
        switches, stuck = S.switches, S.stuck
        ctx.count("thread_steps", S.steps)
        ctx.count("grain:" + sc.get("grain", "lines"))
        ctx.log.append(S.trace[-50:])
    ctx.count("switches", switches)
    ctx.count("runs_" + sc["mode"])
    if stuck:
        ctx.inconclusive = "the threads did not come to an end"
        ctx.count("stuck")
        return
    for i, s in enumerate(sessions):
        got = s.outcome()
        exp = expected[i]
        import json
        got = json.loads(json.dumps(got))
        for k in ("results", "warnings", "stderr", "stdout"):
            if exp[k] != got[k]:
                ctx.violation(k, "session %d (%s): alone and together differ: %s" % (
                    i, sc["mode"], "; ".join(dump.diff(exp[k], got[k], k))))
        ctx.log.append(["session", i, s.at])
    for i, e in errors:
        ctx.violation("exception", "session %d: %s" % (i, e))
    ctx.nontrivial = switches >= 3
    ctx.simtime = w.now - w.t0
