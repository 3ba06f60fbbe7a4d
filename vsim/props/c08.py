"""A failed or interrupted read leaves no residue in the parser."""
import io
import os
import sys
import warnings

from vsim import core, dump, entry, gen, model, net as simnet, sched

ID = "C08"
QUICK, THOROUGH = 2200, 80000
QUICK_WALL, THOROUGH_WALL = 80, 1500
RULE = ("one run makes several reads with one parser, the earlier ones ended by syntax errors, I/O and network faults, "
        "exceptions out of user-supplied sections or an exception raised at an arbitrary executed line of the library; the "
        "last read is made once by that parser and once by a new parser on the same handler, in two copies of the process, "
        "and everything observable is compared; distinct by scenario; non-trivial if an earlier read did not end normally")
MEASURE = "distinct scenarios (texts, faults and interruption points)"
REAL = ["pykickstart.parser", "pykickstart.sections", "pykickstart.load", "handlers and commands", "requests", "urllib3", "http.client"]
STUB = ["system calls on files below the scratch root", "network, TLS and servers", "clock",
        "interruptions: an exception raised between two lines of the library"]
ASSUMPTIONS = ["an interruption takes effect between two source lines"]
SHRINK = ["reads", "lines", "faults"]

ODD = ["%end", "%post", "%pre --log=/root/odd.log --erroronfail", "%packages --excludedocs", "%include", "%include rel.cfg",
       "%include sub/rel.cfg", "lang 'unbalanced", "nosuchcommand", "%nosuch", "%custom a b", "%custom2", "leftover line",
       "%com_example x", "%future-section", "#platform=odd", "%addon odd_one", "text", "-@odd", "%post --nochroot",
       "%packages --nosuch", "%traceback --interpreter=/bin/odd"]
CUSTOM = {"%custom": True, "%custom2": False}


def materials(sc):
    """The documents of a tree as lists of lines."""
    files, urls = {}, {}
    for d in sc["docs"].values():
        lines = model.lines_of(d, sc["docs"], "@R@")
        if d["loc"] == "url":
            urls[d["url"]] = {"lines": lines, "beh": d.get("beh") or {}}
        elif d.get("fail") != "missing":
            f = files[d["path"]] = {"lines": lines}
            if d.get("fail") == "fault":
                f["rule"] = d["rule"]
            elif d.get("fail") == "midread":
                f["bad_at"] = d.get("frac", 0.5)
            elif d.get("fail") == "badutf8":
                f["bad"] = True
            elif d.get("fail") == "cycle":
                f["lines"] = ['%include "@R@/' + d["path"] + '"']
    return files, urls


def generate(rng, index, tier):
    v = gen.version(rng, pre=0.3)
    reads = []
    hosts = {}
    n = rng.choice([2, 2, 2, 3, 4])
    for i in range(n):
        last = i == n - 1
        g = gen.TreeGen(rng, v, depth=rng.choice([0, 1, 2]), max_docs=rng.choice([1, 3]), p_inc=0.25, inc_in_sec=0.2,
                        urls=rng.choice([0, 0, 0.3]), bad=rng.choice([0, 0.1]), badhdr=rng.choice([0, 0.1]), unknown=True,
                        custom=sorted(CUSTOM), crlf=False, big=0)
        t = g.tree(n=rng.randint(1, 6))
        for d in sorted(t["docs"]):
            if rng.random() < (0.05 if last else 0.25):
                gen.fail_doc(rng, t["docs"][d], t["hosts"], cycle=d != "D0")
        for h in t["hosts"]:
            hosts[h] = {"is_tls": t["hosts"][h]["is_tls"]}
        files, urls = materials(t)
        top = t["docs"]["D0"]["path"]
        r = {"files": files, "urls": urls, "top": top, "via": rng.choice(["file", "file", "rel", "string"])}
        # spoil the texts
        every = [f["lines"] for f in list(files.values()) + list(urls.values())]
        for lines in every:
            while rng.random() < (0.3 if last else 0.4):
                x = rng.random()
                if lines and x < 0.35:
                    ends = [i for i, l in enumerate(lines) if l == "%end"] or range(len(lines))
                    del lines[rng.choice(list(ends))]
                elif lines and x < 0.45:
                    del lines[rng.randrange(len(lines)):]
                else:
                    lines.insert(rng.randint(0, len(lines)), rng.choice(ODD))
        if rng.random() < 0.3:
            r["top_missing"] = rng.random() < 0.3
        if not last:
            if rng.random() < 0.35:
                r["intr"] = {"frac": round(rng.random(), 4), "exc": rng.choice(["KeyboardInterrupt", "MemoryError", "Boom"])}
            if rng.random() < 0.3:
                r["raise"] = {"n": rng.randint(1, 6), "exc": rng.choice(["KickstartParseError", "Boom", "KeyboardInterrupt", "StopIteration"])}
            if rng.random() < 0.3:
                r["faults"] = [[rng.randint(0, 25), rng.choice(["EIO", "EACCES", "ENOENT"]), rng.random() < 0.5]
                               for _ in range(rng.randint(1, 2))]
        reads.append(r)
    # files that only a stale lookup directory would find
    extra = {}
    for p in ("d1/rel.cfg", "d1/sub/rel.cfg", "d2/rel.cfg", "rel.cfg", "d1/sub/sub/rel.cfg"):
        if rng.random() < 0.4:
            extra[p] = ["lang de_DE", "# from " + p, "user --name=from_%s" % p.replace("/", "_").replace(".", "_")]
    return {"version": v, "reads": reads, "hosts": hosts, "extra": extra,
            "settings": {"errorsAreFatal": rng.random() < 0.5, "missingIncludeIsFatal": rng.random() < 0.5,
                         "unknownSectionIsFatal": rng.random() < 0.4},
            "change": rng.random() < 0.3}


class Boom(Exception):
    pass


def exc_for(name):
    from pykickstart.errors import KickstartParseError
    if name == "KickstartParseError":
        return KickstartParseError("made up", lineno=7)
    return {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError, "StopIteration": ValueError, "Boom": Boom}[name]("injected")


def prepare(sc, r, w, n):
    w.rules, w.bad_at, w.plan, w.sticky = [], {}, {}, {}
    for path, f in r["files"].items():
        if path == r["top"] and r.get("top_missing"):
            try:
                os.unlink(w.abs(path))
            except OSError:
                pass
            continue
        data = "".join(l.replace("@R@", w.root) + "\n" for l in f["lines"]).encode("utf-8")
        if f.get("bad"):
            data += b"\xff\xfe\n"
        w.put(path, data)
        if "rule" in f:
            w.rules.append(dict(f["rule"], path=path))
        if "bad_at" in f:
            w.bad_at[path] = int(len(data) * f["bad_at"])
    for url, u in r["urls"].items():
        b = dict(u["beh"], body="".join(l.replace("@R@", w.root) + "\n" for l in u["lines"]))
        if b.get("redirect") == "@self":
            b["redirect"] = url
        n.urls[url] = b


def read(sc, r, w, p):
    if r["via"] == "string":
        f = r["files"].get(r["top"], {"lines": []})
        p.readKickstartFromString("".join(l.replace("@R@", w.root) + "\n" for l in f["lines"]))
    elif r["via"] == "rel":
        p.readKickstart(r["top"])
    else:
        p.readKickstart(w.abs(r["top"]))


def outcome(fn):
    from pykickstart.errors import KickstartError
    try:
        fn()
        return ["ok"]
    except simnet.SimHang as e:
        return ["hang", str(e)]
    except BaseException as e:
        return ["raise", type(e).__name__, str(e), getattr(e, "lineno", None) if isinstance(e, KickstartError) else None]


def make(sc, handler, settings, state):
    """A parser with the user's sections, which may be told to fail."""
    from pykickstart import sections as S
    events = []
    cls, add = model.recording(events, CUSTOM, True)
    p = cls(handler, **settings)
    add(p)
    for name in CUSTOM:
        obj = p.getSection(name)

        def hook(orig):
            def call(*a):
                r = orig(*a)
                if state["n"] is not None:
                    state["n"] -= 1
                    if state["n"] <= 0:
                        state["n"] = None
                        state["fired"] = True
                        raise exc_for(state["exc"])
                return r
            return call
        for m in ("handleHeader", "handleLine", "finalize"):
            setattr(obj, m, hook(getattr(obj, m)))
    return p, events


def caught(fn):
    """Run fn with warnings and output recorded."""
    err, out = io.StringIO(), io.StringIO()
    sys.stderr, sys.stdout = err, out
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        o = outcome(fn)
    return o, err.getvalue(), out.getvalue(), [[x.category.__name__, str(x.message)] for x in ws]


def execute(sc, ctx):
    from pykickstart.version import makeVersion
    w, n = entry.setup(os.path.join(ctx.root, "sim"), ctx, {"hosts": sc["hosts"]})
    for path, lines in sc["extra"].items():
        w.put(path, "\n".join(lines) + "\n")
    handler = makeVersion(sc["version"])
    settings = dict(sc["settings"])
    state = {"n": None, "exc": None, "fired": False}
    p, events = make(sc, handler, settings, state)
    prefix = os.path.join(core.REPO, "pykickstart")
    abnormal = 0
    for i, r in enumerate(sc["reads"][:-1]):
        prepare(sc, r, w, n)
        if r.get("raise"):
            state["n"], state["exc"] = r["raise"]["n"], r["raise"]["exc"]
        w.arm()
        base = len(w.points)
        for at, kind, sticky in r.get("faults", []):
            w.plan[base + at] = {"kind": kind, "sticky": sticky}
        if r.get("intr"):
            def rehearsal():
                with sched.LineInterrupt(prefix, None, None) as li:
                    caught(lambda: read(sc, r, w, p))
                return li.n
            total = core.oracle(rehearsal)
            li = sched.LineInterrupt(prefix, max(1, int(total * r["intr"]["frac"])), exc_for(r["intr"]["exc"]))
            with li:
                o, _, _, _ = caught(lambda: read(sc, r, w, p))
            if li.where:
                ctx.count("fault:interrupt/" + r["intr"]["exc"])
                ctx.log.append(["interrupted", li.where])
        else:
            o, _, _, _ = caught(lambda: read(sc, r, w, p))
        w.armed = False
        state["n"] = None
        if state["fired"]:
            ctx.count("fault:section/" + state["exc"])
            state["fired"] = False
        ctx.log.append(o)
        if o[0] != "ok":
            abnormal += 1
            ctx.count("earlier_reads_ended_by_" + o[1])
        else:
            ctx.count("earlier_reads_ok")
        if o[0] == "hang":
            ctx.violation("hang", o[1])
    last = sc["reads"][-1]
    if sc["change"]:
        settings["missingIncludeIsFatal"] = not settings["missingIncludeIsFatal"]
        p.missingIncludeIsFatal = settings["missingIncludeIsFatal"]

    def final(new):
        q, ev = (p, events) if not new else make(sc, handler, settings, state)
        mark, count = len(ev), q.errorsCount
        prepare(sc, last, w, n)
        w.arm()
        o, err, out, ws = caught(lambda: read(sc, last, w, q))
        w.armed = False
        d = model.observe(handler)
        try:
            text = str(handler)
        except Exception as e:
            text = "%s: %s" % (type(e).__name__, e)
        return {"outcome": o, "stderr": err, "stdout": out, "warnings": ws, "events": ev[mark:],
                "errors": q.errorsCount - count, "commands": d["commands"], "scripts": d["scripts"], "packages": d["packages"],
                "platform": d["platform"], "text": text, "requests": [x["url"] for x in n.requests]}
    fresh = core.oracle(lambda: final(True))
    used = core.oracle(lambda: final(False))
    for k in sorted(fresh):
        if fresh[k] != used[k]:
            ctx.violation(k, "new parser and used parser differ: %s" % "; ".join(dump.diff(fresh[k], used[k], k)))
    ctx.log.append(used["outcome"])
    ctx.count("last_read_ok" if used["outcome"][0] == "ok" else "last_read_failed")
    ctx.nontrivial = abnormal > 0
    ctx.simtime = w.now - w.t0
