"""Running the library's entry points and the tools inside a world, and choosing
fault points from a fault-free rehearsal of the same run."""
import gc
import io
import os
import runpy
import sys
import warnings

from vsim import core, gen, model, net as simnet, world
from vsim.world import World

TOOLS = os.path.join(core.REPO, "tools")


class Stdin(io.StringIO):
    """Typed input: lines, None for end of file, {"raise": "KeyboardInterrupt"}, or
    {"bytes": ...} for bytes (as Latin-1) that need not be UTF-8, which Python
    decodes strictly or with escapes, as the locale has it."""

    def __init__(self, items, escape=False):
        io.StringIO.__init__(self, "")
        self.items = list(items)
        self.escape = escape
        self.taken = 0

    def readline(self, *a):
        if not self.items:
            return ""
        self.taken += 1
        x = self.items.pop(0)
        if x is None:
            return ""
        if isinstance(x, dict) and "bytes" in x:
            x = x["bytes"].encode("latin-1").decode("utf-8", "surrogateescape" if self.escape else "strict")
        if isinstance(x, dict):
            raise KeyboardInterrupt
        return x + "\n"

    def read(self, *a):
        return ""


class Stdout(io.StringIO):
    """Standard output of a UTF-8 locale."""

    def __init__(self, escape=False):
        io.StringIO.__init__(self)
        self.escape = escape

    def write(self, s):
        s.encode("utf-8", "surrogateescape" if self.escape else "strict")
        return io.StringIO.write(self, s)


def run_tool(name, argv, stdin=(), escape=False):
    """Run a tool as a program.  Returns {"status", "out", "err", "exc"}; status is
    the process's exit status."""
    sys.stdin = Stdin(stdin, escape) if stdin and escape else Stdin(stdin)
    sys.stdout = Stdout(escape)
    sys.stderr = io.StringIO()
    old = sys.argv
    path = os.path.join(TOOLS, name + ".py")
    sys.argv = [path] + list(argv)
    exc = None
    status = 0
    warnings.resetwarnings()
    warnings.simplefilter("ignore")
    try:
        runpy.run_path(path, run_name="__main__")
    except SystemExit as e:
        if e.code is None:
            status = 0
        elif isinstance(e.code, int):
            status = e.code & 0xff
        else:
            sys.stderr.write(str(e.code) + "\n")
            status = 1
    except simnet.SimHang as e:
        status, exc = None, "hang: " + str(e)
    except KeyboardInterrupt:
        status, exc = 130, "KeyboardInterrupt"
    except BaseException as e:
        status, exc = 1, "%s: %s" % (type(e).__name__, e)
    out, err = sys.stdout.getvalue(), sys.stderr.getvalue()
    left = sys.stdin.items
    sys.argv = old
    return {"status": status, "out": out, "err": err, "exc": exc, "unread": len(left)}


def call(fn):
    """Call a library function: {"status": "ok"|"ks"|"other"|"hang", "value"/"exc"}."""
    from pykickstart.errors import KickstartError
    try:
        return {"status": "ok", "value": fn()}
    except KickstartError as e:
        return {"status": "ks", "exc": "%s: %s" % (type(e).__name__, e)}
    except simnet.SimHang as e:
        return {"status": "hang", "exc": str(e)}
    except Exception as e:
        return {"status": "other", "exc": "%s: %s" % (type(e).__name__, e)}


def setup(root, ctx, sc, hosts=None):
    os.makedirs(root, exist_ok=True)
    w = World(root, ctx).install()
    n = simnet.Net(w).install()
    if "docs" in sc:
        model.materialise(sc, w, n)
    n.hosts.update(sc.get("hosts", {}))
    return w, n


GROUPS = {"w": ("open_w", "write", "close"), "r": ("open_r", "read", "stat"),
          "any": ("open_w", "write", "close", "open_r", "read", "stat", "mkdir")}


def rehearse(root, sc, fn):
    """The operations of a run without injected faults, as [[op, path], ...]."""
    def body():
        w, n = setup(root, None, sc)
        w.arm()
        fn(w, n)
        return w.points
    return core.oracle(body)


def plan_from(points, picks):
    plan = {}
    for p in picks:
        cand = [i for i, (op, path) in enumerate(points) if op in GROUPS[p["group"]]
                and (not p.get("under") or path.startswith(p["under"]))]
        if not cand:
            continue
        i = cand[min(len(cand) - 1, int(p["pick"] * len(cand)))]
        kinds = [k for k in world.KINDS[points[i][0]] if p.get("short", True) or k != "short"]
        f = {"kind": kinds[int(p["k"] * len(kinds)) % len(kinds)], "n": p.get("n", 1)}
        if f["kind"] != "short" and f["kind"] != "vanish":
            if p.get("sticky"):
                f["sticky"] = True
            if f["kind"] == "ENOSPC" and p.get("part"):
                f["part"] = p["part"]
        plan[i] = f
    return plan


def picks(rng, n, groups, sticky=0.6, under=None):
    out = []
    for _ in range(n):
        p = {"group": rng.choice(groups), "pick": round(rng.random(), 4), "k": round(rng.random(), 4),
             "sticky": rng.random() < sticky, "n": rng.choice([1, 1, 7, 100]), "part": round(rng.random(), 2)}
        if under and rng.random() < 0.6:
            p["under"] = under
        out.append(p)
    return out


def hard(fired):
    return [f for f in fired if f["kind"] != "short"]


def leftovers(w, n, fds_before, keep=()):
    """What a run left behind: temporary files, descriptors, sockets."""
    gc.collect()
    out = []
    for p in w.tree():
        if p.startswith("tmp/") and p != "tmp/" and p not in keep:
            out.append("temporary " + p)
    now = world.open_fds()
    for fd in now:
        if fd not in fds_before:
            out.append("descriptor %d -> %s" % fd)
    for s in n.live:
        out.append("connection to %s" % s.hostname)
    return out


def plain_tree(rng, **o):
    """A tree without bad lines for one version."""
    v = gen.version(rng)
    opts = {"stable": True, "repeat": False, "urls": 0.25, "max_docs": 4, "depth": 2}
    opts.update(o)
    return gen.TreeGen(rng, v, **opts).tree()


def add_appends(rng, sc, n):
    """Put %ksappend directives into the top document."""
    g = gen.TreeGen(rng, sc["version"], stable=True, urls=0.4, nulls=False)
    g.n = 500
    g.hosts = sc["hosts"]
    top = sc["docs"][sc["top"]]
    for i in range(n):
        loc, how = g.location(top)
        if loc["loc"] == "file":
            loc["path"] = loc["path"].replace(" ", "_")
            how = rng.choice(["abs", "cwd"])
        did = "A%d" % i
        sc["docs"][did] = dict(loc, insec=False, nodes=g.nodes(0, loc, rng.randint(0, 4)))
        at = rng.randint(0, len(top["nodes"]))
        top["nodes"].insert(at, ["app", did, how])
    return sc
