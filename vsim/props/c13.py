"""Resetting, masking and aliasing keep a handler consistent."""
import copy
import io
import sys
import warnings

from vsim import core, dump, gen, model

ID = "C13"
QUICK, THOROUGH = 2500, 100000
QUICK_WALL, THOROUGH_WALL = 70, 1500
RULE = ("one history of accepted, rejected and deprecated commands (read as text or dispatched), resets by any name, resets of "
        "unknown names, edits of attributes, and masking, on a handler of any version, plain or with commands replaced by the user; "
        "after every step the names, objects, attributes and the written text are checked, and all settings are compared with a "
        "reference in which a reset is a new handler with the state of every other command carried over; distinct by scenario; "
        "non-trivial if a reset or masking was made")
MEASURE = "distinct scenarios (version, history)"
REAL = ["pykickstart (all)"]
STUB = []
ASSUMPTIONS = ["single commands behave as the dispatcher of a separate handler does",
               "which of the commands that are kept by a mask are still written is left open",
               "a command replaced by the user is replaced under all of its names"]
SHRINK = ["ops"]


def generate(rng, index, tier):
    v = gen.version(rng)
    g = gen.Commands(rng, v, bad=0.0, warn=0.0, repeat=True)
    c = gen.corpus()[v]
    every = {k: [a for a, s in ls] for k, ls in c["good"].items()}
    names = sorted(every)
    # a history is about few commands, so that they meet
    focus = [rng.choice(names) for _ in range(rng.choice([1, 2, 3, 6]))]
    focus += [n for n in names if n in ALIASES and rng.random() < 0.3]
    ops = []
    for _ in range(rng.choice([2, 5, 10, 20])):
        n = rng.choice(focus) if rng.random() < 0.8 else rng.choice(names)
        x = rng.random()
        if x < 0.5:
            a = list(rng.choice(every[n]))
            if n in ALIASES and rng.random() < 0.5:
                a[0] = rng.choice(ALIASES[n])
            ops.append(["cmd", rng.choice(["text", "call"]), a])
        elif x < 0.6:
            b = [l for l in c["bad"] if l[0] in focus]
            k = rng.random()
            if k < 0.5 and b:
                a = list(rng.choice(b))
            elif k < 0.9:
                # what is wrong comes late in the line
                a = list(rng.choice(every[n])) + [rng.choice(["--no-such-option", "--no-such=1", "--", "extra words"])]
            else:
                a = ["nosuchcommand", "x"]
            ops.append(["cmd", rng.choice(["text", "call"]), a])
        elif x < 0.63 and c["warn"]:
            ops.append(["cmd", "call", list(rng.choice(c["warn"]))])
        elif x < 0.92:
            ops.append(["reset", rng.choice(ALIASES[n]) if n in ALIASES and rng.random() < 0.7 else n])
        elif x < 0.94:
            ops.append(["reset", rng.choice(["nosuchcommand", "", "Part"])])
        elif x < 0.97:
            ops.append(["new"])
        else:
            keep = [rng.choice(names) for _ in range(rng.choice([0, 1, 3, 30]))] + [f for f in focus if rng.random() < 0.5]
            ops.append(["mask", sorted(set(keep))])
    return {"version": v, "ops": ops, "update": [n for n in focus if rng.random() < 0.5] if rng.random() < 0.3 else []}


_G = [["auth", "authconfig"], ["cmdline", "graphical", "text"], ["halt", "poweroff", "reboot", "shutdown"],
      ["install", "upgrade"], ["part", "partition"]]
ALIASES = {n: g for g in _G for n in g}


def make(sc):
    from pykickstart.handlers.control import commandMap
    from pykickstart.version import returnClassForVersion, stringToVersion
    cls = returnClassForVersion(sc["version"])
    if not sc["update"]:
        return cls()
    cmap = commandMap[stringToVersion(sc["version"])]
    upd = {}
    for n in sc["update"]:
        if n not in cmap or n in upd:
            continue
        old = cmap[n]
        new = type(str(old.__name__.split("_", 1)[1]), (old,), {})
        for k, c in cmap.items():
            if c is old:
                upd[k] = new
    return cls(commandUpdates=upd)


def attribute(obj):
    name = type(obj).__name__
    return (name.split("_", 1)[1] if "_" in name else name).lower()


def apply(h, p, op):
    """One step on a real handler; returns its outcome."""
    from pykickstart.errors import KickstartError
    try:
        if op[0] == "cmd" and op[1] == "text":
            before = p.errorsCount
            p.readKickstartFromString(gen.render_args(op[2], 1))
            return ["ok"] if p.errorsCount == before else ["counted"]
        elif op[0] == "cmd":
            h.currentLine = " ".join(op[2])
            h.dispatcher(list(op[2]), 7)
        elif op[0] == "reset":
            h.resetCommand(op[1])
        elif op[0] == "mask":
            h.maskAllExcept(op[1])
        return ["ok"]
    except KickstartError as e:
        return ["counted" if op[1] == "text" else type(e).__name__]
    except Exception as e:
        return [type(e).__name__]


def parser(h):
    from pykickstart.parser import KickstartParser
    return KickstartParser(h, errorsAreFatal=False)


def quiet():
    warnings.resetwarnings()
    warnings.simplefilter("ignore")
    sys.stderr = io.StringIO()
    sys.stdout = io.StringIO()


def transplant(sc, h, without):
    """A new handler with the state of every command object but one."""
    new = make(sc)
    memo = {id(h): new}
    todo = {}
    for n, o in h.commands.items():
        memo[id(o)] = new.commands[n]
        if o is not without:
            todo[id(o)] = (o, new.commands[n])
    ops = {}
    for o, t in todo.values():
        for k, x in vars(o).items():
            if k == "op":
                memo[id(x)] = t.op
                ops[id(x)] = x
    for o, t in todo.values():
        for k in list(vars(t)):
            if k != "op" and k not in vars(o):
                delattr(t, k)
        for k, x in vars(o).items():
            if k not in ("handler", "op"):
                setattr(t, k, copy.deepcopy(x, memo))
    return new


def reference(sc):
    """Outcome and settings after every step."""
    def body():
        quiet()
        h = make(sc)
        p = parser(h)
        masked = set()
        out = []
        for op in sc["ops"]:
            res = ["ok"]
            if op[0] == "cmd" and op[2][0] in masked:
                pass
            elif op[0] == "cmd":
                res = apply(h, p, op)
            elif op[0] == "reset":
                if op[1] not in h.commands:
                    res = ["KeyError"]
                elif op[1] not in masked:
                    h = transplant(sc, h, h.commands[op[1]])
                    p = parser(h)
            elif op[0] == "mask":
                masked |= set(h.commands) - set(op[1])
            elif op[0] == "new":
                h = make(sc)
                p = parser(h)
                masked = set()
            d = dump.commands(h)
            out.append({"res": res, "commands": {n: x for n, x in d.items() if n not in masked},
                        "masked": sorted(masked)})
        return out
    err, o = sys.stderr, sys.stdout
    try:
        return core.oracle(body)
    finally:
        sys.stderr, sys.stdout = err, o


def written(text):
    """The part of a handler's text that the commands have written."""
    return "".join(l for l in text.splitlines(True) if not l.startswith(("# Generated by", "#version=", "#platform=")))


def part_of(text, pieces):
    """Is the text made of some of the pieces, in order?"""
    pos = {0}
    for p in pieces:
        pos |= {i + len(p) for i in pos if text.startswith(p, i)}
    return len(text) in pos


def consistent(h, masked, names, ctx, where):
    """All names of one command are one object, which is the attribute; what is
    written is each of them once, by priority and then class name."""
    objs = []
    for n in sorted(h.commands):
        o = h.commands[n]
        if (o is None) != (n in masked):
            ctx.violation("mask", "%s: %s is %s" % (where, n, "masked" if o is None else "not masked"))
            return False
        if o is None:
            continue
        for m in names[n]:
            if m not in masked and h.commands[m] is not o:
                ctx.violation("alias", "%s: %s and %s are different objects" % (where, n, m))
                return False
        if getattr(h, attribute(o), None) is not o:
            ctx.violation("attribute", "%s: the attribute %s is not the object of %s" % (where, attribute(o), n))
            return False
        if o.handler is not h:
            ctx.violation("handler", "%s: %s belongs to another handler" % (where, n))
            return False
        if not any(o is x for x in objs):
            objs.append(o)
    objs = [o for o in objs if o.writePriority is not None]
    objs.sort(key=lambda o: (o.writePriority, type(o).__name__))
    pieces = [str(o) for o in objs]
    text = written(str(h))
    if not masked:
        if text != "".join(pieces):
            ctx.violation("written", "%s: written %r, the commands are %r" % (where, text[:600], "".join(pieces)[:600]))
            return False
    elif not part_of(text, pieces):
        ctx.violation("written", "%s (masked): written %r, the commands kept are %r" % (where, text[:600], "".join(pieces)[:600]))
        return False
    return True


def groups(h):
    by = {}
    for n, o in h.commands.items():
        by.setdefault(id(o), []).append(n)
    return {n: sorted(by[id(o)]) for n, o in h.commands.items()}


def execute(sc, ctx):
    ref = reference(sc)
    quiet()
    h = make(sc)
    p = parser(h)
    from pykickstart.handlers.control import commandMap
    from pykickstart.version import stringToVersion
    cmap = commandMap[stringToVersion(sc["version"])]
    by = {}
    for n, c in cmap.items():
        by.setdefault(c.__name__, []).append(n)
    names = {n: by[c.__name__] for n, c in cmap.items()}
    if not consistent(h, set(), names, ctx, "new handler"):
        return
    for i, op in enumerate(sc["ops"]):
        where = "step %d %s" % (i, " ".join(map(str, op)))[:200]
        if op[0] == "new":
            h = make(sc)
            p = parser(h)
            res = ["ok"]
        else:
            res = apply(h, p, op)
        exp = ref[i]
        ctx.log.append(res)
        ctx.count("op:" + op[0])
        if res[0] not in ("ok",):
            ctx.count("rejected")
        if res != exp["res"]:
            ctx.violation("outcome", "%s: expected %s, got %s" % (where, exp["res"], res))
            return
        if not consistent(h, set(exp["masked"]), names, ctx, where):
            return
        got = {n: x for n, x in dump.commands(h).items() if h.commands[n] is not None}
        if got != exp["commands"]:
            ctx.violation("settings", "%s: expected and got differ: %s" % (where, "; ".join(dump.diff(exp["commands"], got, "commands"))))
            return
        if op[0] in ("reset", "mask"):
            ctx.nontrivial = True
