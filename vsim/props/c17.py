"""A saved configuration survives any number of save-and-restart cycles."""
import copy
import io
import json
import os
import sys
import warnings

from vsim import core, dump, gen, model, treerun
from vsim.world import World

ID = "C17"
QUICK, THOROUGH = 38 * 120, 38 * 4000
QUICK_WALL, THOROUGH_WALL = 230, 2400
RULE = ("one life of a configuration file: sessions in new processes that read what was saved last (with read faults), apply text, "
        "commands and edits through the public objects, and save by writing out the handler, by ksflatten or by ksshell's .save, or "
        "are killed before saving or while writing the new file; after each restart the configuration is compared with the one before "
        "the last complete save, and the text that would be written with what was saved; distinct by scenario; non-trivial if at "
        "least one save was read back")
MEASURE = "distinct scenarios (version, history)"
REAL = ["pykickstart (all)", "tools/ksflatten.py", "tools/ksshell.py"]
STUB = ["system calls on files below the scratch root", "clock"]
ASSUMPTIONS = ["command lines are drawn from those which, alone, are written so that they read back the same (values with blanks in "
               "options that a command does not quote are C20's subject)",
               "autopart, keyboard, url, firewall and bootloader are given once, or again after a reset: the settings that an "
               "earlier use leaves behind have no effect and are not written",
               "an environment is not combined with --default, from which it cannot be told apart once written",
               "the user replaces the saved file only after the new one is completely written"]
SHRINK = ["ops", "sessions", "nodes"]


def stable_lines(v):
    c = gen.corpus()[v]["good"]
    return {k: [a for a, s in ls if s] for k, ls in c.items() if any(s for a, s in ls)}


def section(rng, g):
    s = g.section(0, None)
    if s[1] == "%packages":
        s[2] = [a for a in s[2] if a != "--default"]
    return s


def generate(rng, index, tier):
    v = gen.ORDER[index % len(gen.ORDER)]
    k = index // len(gen.ORDER)
    lines = stable_lines(v)
    keep = gen.STORAGE[2] if k % 4 else gen.STORAGE[(k // 4) % 2]
    drop = [x for s in gen.STORAGE if s is not keep for x in s]
    names = [n for n in sorted(lines) if n not in drop]
    g = gen.TreeGen(rng, v, depth=0, urls=0, inc_in_sec=0, unknown=False, crlf=False)
    # every command's k-th line in turn; most runs use a part of the commands only
    if rng.random() < 0.5:
        names = [n for n in names if rng.random() < rng.choice([0.1, 0.3, 0.6])] or names[:3]
    ops = []
    used = set()
    for n in names:
        al = ALIASES.get(n, [n])
        if n in used or any(a in used for a in al):
            continue
        if len(al) > 1:
            n = rng.choice([a for a in al if a in lines])
        used.update(al)
        ls = lines[n]
        ops.append(["cmd", rng.choice(["text", "text", "call", "attrs"]), ls[k % len(ls)], rng.randint(0, 400)])
        while n in LISTS and rng.random() < 0.5:
            ops.append(["cmd", rng.choice(["text", "text", "call", "data"]), rng.choice(ls), rng.randint(0, 400)])
        if rng.random() < 0.08:
            ops.append(["reset", n])
            if rng.random() < 0.5:
                ops.append(["cmd", "text", rng.choice(ls), rng.randint(0, 400)])
    rng.shuffle(ops)
    # a reset belongs behind its command; shuffling may put it anywhere: then a
    # single command may only come again behind it
    ops = once(ops)
    ops += [["cmd", "text", rng.choice(lines[o[2][0]]), 1] for o in ops
            if o[0] == "cmd" and o[2][0] not in NOT_AGAIN and rng.random() < 0.2]
    extra = []
    for _ in range(rng.choice([0, 2, 5, 9])):
        x = rng.random()
        if x < 0.45:
            extra.append(["section", section(rng, g)])
        elif x < 0.55:
            extra.append(["pkg", [l for l in (gen.package_line(rng, v).split("#")[0].strip() for _ in range(rng.randint(1, 4))) if l]])
        elif x < 0.62:
            extra.append(["pop", rng.randint(0, 5)])
        elif x < 0.68:
            extra.append(["swap", rng.randint(0, 5), rng.randint(0, 5)])
        elif x < 0.74:
            extra.append(["script", rng.choice(gen.SCRIPTS), [gen.script_line(rng) for _ in range(rng.randint(0, 4))] + ["echo"],
                          rng.choice(["/bin/sh", "/usr/bin/python3"]), rng.choice([None, "/root/x.log"]),
                          rng.random() < 0.3, rng.random() < 0.3])
        elif x < 0.80:
            extra.append(["plat", rng.choice(["x86_64", "IBM Z", "", "arm, v7"])])
        elif x < 0.90:
            extra.append(["popdata", rng.choice(sorted(LISTS)), rng.randint(0, 4)])
        elif x < 0.95:
            extra.append(["bad", rng.choice([["nosuchcommand", "x"], ["lang"], ["timezone", "--no-such-option"]])])
        else:
            extra.append(["copy"])
    for e in extra:
        ops.insert(rng.randint(0, len(ops)), e)
    # cut into sessions
    n = rng.choice([1, 1, 2, 3, 5])
    cuts = sorted(rng.randint(0, len(ops)) for _ in range(n - 1))
    sessions = []
    for a, b in zip([0] + cuts, cuts + [len(ops)]):
        sessions.append({"ops": ops[a:b], "end": rng.choice(["save", "save", "save", "save", "flatten", "shell", "kill", "torn"]),
                         "readfault": rng.choice([None, None, None, None, "EIO", "short", "EACCES"])})
    sessions[-1]["end"] = rng.choice(["save", "save", "flatten", "shell"])
    # a reset in a session that is killed does not count
    given = set()
    for s in sessions:
        now = set(given)
        s["ops"] = [o for o in s["ops"] if once([o], now) or o[2][0] not in NOT_AGAIN]
        if s["end"] not in ("kill", "torn"):
            given = now
    return {"version": v, "sessions": sessions}


ALIASES = {n: g for g in [["auth", "authconfig"], ["cmdline", "graphical", "text"], ["halt", "poweroff", "reboot", "shutdown"],
                          ["install", "upgrade"], ["part", "partition"], ["bootloader", "lilo"]] for n in g}
ALIASES["cdrom"] = ALIASES["harddrive"] = ALIASES["nfs"] = ALIASES["url"] = ALIASES["hmc"] = \
    ALIASES["liveimg"] = ALIASES["ostreesetup"] = ["cdrom", "harddrive", "nfs", "url", "hmc", "liveimg", "ostreesetup"]
LISTS = {"network", "part", "partition", "raid", "volgroup", "logvol", "btrfs", "user", "group", "repo", "sshkey", "sshpw",
         "driverdisk", "dmraid", "multipath", "iscsi", "fcoe", "zfcp", "device", "nvdimm", "mount", "module", "snapshot"}


# what an earlier use has left has no effect any more, but is still there
NOT_AGAIN = {"autopart", "keyboard", "url", "firewall", "bootloader"}


def once(ops, given=None):
    """Single commands are not repeated unless they were reset meanwhile."""
    out = []
    given = set() if given is None else given
    for op in ops:
        if op[0] == "cmd":
            n = op[2][0]
            al = ALIASES.get(n, [n])
            if n not in LISTS:
                if any(a in given for a in al):
                    continue
                given.update(al)
        elif op[0] == "reset":
            given.difference_update(ALIASES.get(op[1], [op[1]]))
        out.append(op)
    return out


# ------------------------------------------------------------------ one session

def quiet():
    warnings.resetwarnings()
    warnings.simplefilter("ignore")
    sys.stderr = io.StringIO()
    sys.stdout = io.StringIO()


def donor(v, line):
    from pykickstart.version import makeVersion
    h = makeVersion(v)
    h.dispatcher(list(line), 1)
    return h.commands[line[0]]


def apply(v, h, p, op):
    """One operation; returns the handler to go on with."""
    from pykickstart.errors import KickstartError
    from pykickstart.parser import Script
    from pykickstart import constants
    k = op[0]
    try:
        if k == "cmd":
            how, line = op[1], op[2]
            if how == "text":
                p.readKickstartFromString(gen.render_args(line, op[3]) + "\n")
            elif how == "call" or line[0] not in h.commands or line[0] in ("keyboard", "snapshot", "multipath"):
                h.currentLine = " ".join(line)
                h.dispatcher(list(line), 3)
            else:
                d = donor(v, line)
                t = h.commands[line[0]]
                if d.dataList() is not None:
                    for x in d.dataList():
                        t.dataList().append(x)
                        t.seen = True
                else:
                    t(**{a: copy.deepcopy(x) for a, x in vars(d).items()
                         if not a.startswith("_") and a not in ("handler", "op", "lineno", "currentLine", "currentCmd", "seen",
                                                                "writePriority")})
        elif k == "reset":
            if op[1] in h.commands:
                h.resetCommand(op[1])
        elif k == "section":
            s = op[1]
            p.readKickstartFromString(gen.render_args([s[1]] + s[2]) + "\n" + "".join(x[1] + "\n" for x in s[3]) + "%end\n")
        elif k == "pkg":
            names = [l.lstrip("-") for l in op[1]]
            if len(set(names)) == len(names):
                h.packages.add(op[1])
            for l in op[1] if len(set(names)) != len(names) else []:
                h.packages.add([l])
            h.packages.seen = True
        elif k == "pop":
            if h.scripts:
                h.scripts.pop(op[1] % len(h.scripts))
        elif k == "swap":
            if h.scripts:
                a, b = op[1] % len(h.scripts), op[2] % len(h.scripts)
                h.scripts[a], h.scripts[b] = h.scripts[b], h.scripts[a]
        elif k == "script":
            t = {"%pre": constants.KS_SCRIPT_PRE, "%post": constants.KS_SCRIPT_POST, "%traceback": constants.KS_SCRIPT_TRACEBACK,
                 "%pre-install": constants.KS_SCRIPT_PREINSTALL, "%onerror": constants.KS_SCRIPT_ONERROR}[op[1]]
            h.scripts.append(Script("".join(l + "\n" for l in op[2]), interp=op[3], inChroot=op[1] == "%post" and not op[6],
                                    logfile=op[4], errorOnFail=op[5], type=t))
        elif k == "plat":
            h.platform = op[1]
        elif k == "popdata":
            c = h.commands.get(op[1])
            if c is not None and c.dataList():
                c.dataList().pop(op[2] % len(c.dataList()))
        elif k == "bad":
            p.readKickstartFromString(" ".join(op[1]) + "\n")
        elif k == "copy":
            h = copy.deepcopy(h)
    except KickstartError:
        return h, "rejected"
    return h, "ok"


def session(sc, ctx, s, root, saved):
    """Runs in a process of its own: read what is saved, go on, save."""
    from pykickstart.errors import KickstartError
    from pykickstart.parser import KickstartParser
    from pykickstart.version import makeVersion
    quiet()
    v = sc["version"]
    w = World(root, ctx)
    w.install()
    out = {}
    h = makeVersion(v)
    p = KickstartParser(h)
    if saved:
        if s["readfault"]:
            w.rules = [{"cls": "open_r" if s["readfault"] == "EACCES" else "read", "path": "ks.cfg", "kind": s["readfault"], "n": 3}]
            w.arm()
        try:
            p.readKickstart(w.abs("ks.cfg"))
            out["read"] = ["ok"]
        except Exception as e:
            out["read"] = [type(e).__name__, str(e)[:300]]
            out["known"] = isinstance(e, KickstartError)
        w.armed = False
        w.rules = []
        if w.fired and out["read"] != ["ok"] and out["known"]:
            # a fault: once more
            out["faulted"] = True
            h = makeVersion(v)
            p = KickstartParser(h)
            out["read"] = model.outcome_of(lambda: p.readKickstart(w.abs("ks.cfg")))
    out["loaded"] = treerun.config(model.observe(h))
    out["again"] = str(h)
    out["ops"] = []
    out["nulls"] = list(out["loaded"]["nulls"])
    for op in s["ops"]:
        old = h
        h, res = apply(v, h, p, op)
        if h is not old:
            p = KickstartParser(h)
        out["ops"].append(res)
        if op[0] == "section" and op[1][1] in dump.NULLS and res == "ok":
            out["nulls"].append([[op[1][1]] + op[1][2], "".join(x[1] + "\n" for x in op[1][3])])
    out["config"] = treerun.config(model.observe(h))
    text = str(h)
    out["text"] = text
    out["saved"] = False
    if s["end"] == "kill":
        return out
    w.put("new.cfg", text if s["end"] != "torn" else text[:len(text) // 2])
    if s["end"] == "torn":
        return out
    if s["end"] == "flatten":
        from vsim import entry
        r = entry.run_tool("ksflatten", ["-c", w.abs("new.cfg"), "-v", v, "-o", w.abs("flat.cfg")])
        out["tool"] = r["status"], r["err"][:300]
        os.replace(w.abs("flat.cfg"), w.abs("new.cfg"))
    elif s["end"] == "shell":
        from vsim import entry
        r = entry.run_tool("ksshell", ["-i", w.abs("new.cfg"), "-v", v, "-o", w.abs("sh.cfg")], stdin=[".show", ".quit"])
        out["tool"] = r["status"], r["err"][:300]
        os.replace(w.abs("sh.cfg"), w.abs("new.cfg"))
    os.replace(w.abs("new.cfg"), w.abs("ks.cfg"))
    out["saved"] = True
    return out


def execute(sc, ctx):
    root = os.path.join(ctx.root, "sim")
    os.makedirs(root)
    last = None         # configuration and text of the last complete save
    cycle = 0
    final = {"ops": [], "end": "save", "readfault": None}
    for i, s in enumerate(sc["sessions"] + [final, final]):
        where = "session %d" % i

        def body():
            c = core.Ctx(root)
            r = session(sc, c, s, root, last is not None)
            r["stats"] = c.stats
            return r
        st, r = core.fork_call(body)
        if st == "hang":
            ctx.violation("hang", where)
            return
        if st != "ok":
            ctx.violation("session-failed", "%s: %s" % (where, r))
            return
        for k, n in r["stats"].items():
            ctx.count(k, n)
        ctx.log.append([r["text"], r["ops"], r["saved"]])
        ctx.count("sessions")
        ctx.count("end:" + s["end"])
        for op, res in zip(s["ops"], r["ops"]):
            ctx.count("op:" + op[0])
            if op[0] in ("cmd", "section") and res != "ok":
                ctx.count("rejected:" + op[0])
        if last is not None:
            ctx.nontrivial = True
            ctx.count("restarts")
            if r["read"] != ["ok"]:
                ctx.violation("unreadable", "%s: what was saved cannot be read: %s" % (where, r["read"]))
                return
            bad = treerun.differences(last["config"], r["loaded"])
            for k, t in bad:
                ctx.violation(k, "%s: before saving and after reading differ: %s" % (where, t))
            if r["again"] != last["text"]:
                a, b = last["text"].split("\n"), r["again"].split("\n")
                ctx.violation("text", "%s: what was saved would be written differently: %s" % (where, dump.diff(a, b, "lines")))
                return
            if bad:
                return
        for t in dump.diff(r["nulls"], r["config"]["nulls"], "sections"):
            ctx.violation("nulls", "%s: the unknown sections that were read and those that are written differ: %s" % (where, t))
        if "tool" in r and r["tool"][0] != 0:
            ctx.violation("tool", "%s: %s: %s" % (where, s["end"], r["tool"]))
            return
        if r["saved"]:
            last = r
