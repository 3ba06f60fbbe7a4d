"""%ksappend preprocessing splices completely or fails."""
import json
import os

from vsim import core, entry, gen, net as simnet, world

ID = "C03"
QUICK, THOROUGH = 3000, 100000
QUICK_WALL, THOROUGH_WALL = 60, 1200
RULE = ("one run preprocesses one input, made of plain lines and %ksappend directives to files and URLs, through all four "
        "entry points (two, if the input comes from a string only), with some targets failing; distinct by scenario; "
        "non-trivial if there is at least one directive")
MEASURE = "distinct scenarios (arrangement of lines, directives, contents and target behaviours)"
REAL = ["pykickstart.parser preprocessing", "pykickstart.load", "requests", "urllib3", "http.client", "tempfile"]
STUB = ["system calls on files below the scratch root", "network, TLS and servers", "clock"]
ASSUMPTIONS = ["a text without a line end at its end may be given one when something follows"]
SHRINK = ["parts"]

LINES = ["lang en_US", "", "# remark", "%packages", "@core", "%end", "%include /x.cfg", "%post", "echo %ksappend not here",
         "  indented", "ünïcode 日本", "tab\there", "x" * 300, "%ksapp end", "#%ksappend /nope", "trailing  ", "'quote"]


def text(rng):
    n = rng.choice([0, 1, 1, 2, 3, 8, 40])
    t = "".join(rng.choice(LINES) + rng.choice(["\n", "\n", "\n", "\r\n"]) for _ in range(n))
    if rng.random() < 0.1:
        t += "%ksappend /never/followed.cfg\n"
    if n and rng.random() < 0.35:
        t = t.rstrip("\r\n") or "last"
    if rng.random() < 0.05:
        t = t * 300
    return t


def generate(rng, index, tier):
    parts = []
    hosts = {}
    for i in range(rng.randint(0, 9)):
        if rng.random() < 0.5:
            parts.append({"t": rng.choice(LINES), "eol": rng.choice(["\n", "\n", "\r\n"])})
            continue
        x = rng.random()
        if x < 0.02:
            parts.append({"t": rng.choice(["%ksappend", "  %ksappend  "]), "eol": "\n", "malformed": True})
            continue
        p = {"text": text(rng), "eol": rng.choice(["\n", "\n", "\r\n"]),
             "form": rng.choice(["%%ksappend %s", "%%ksappend %s", "  %%ksappend\t%s  ", "%%ksappend    %s", "\t%%ksappend %s"])}
        if rng.random() < 0.5:
            tls = rng.random() < 0.4
            h = "%sh%d.example" % ("s" if tls else "", rng.randint(0, 2))
            hosts.setdefault(h, {"is_tls": tls})
            p["url"] = "http%s://%s/k%d.cfg" % ("s" if tls else "", h, i)
            p["beh"] = gen.benign_behaviour(rng)
            if rng.random() < 0.13:
                p["beh"] = gen.failing_behaviour(rng, p["beh"])
                p["fail"] = "net"
        else:
            p["path"] = rng.choice(["k%d.cfg", "d/k%d.cfg", "ü%d.cfg"]) % i
            p["how"] = rng.choice(["abs", "rel"])
            if rng.random() < 0.13:
                p["fail"] = rng.choice(["missing", "dir", "badutf8", "fault", "fault", "midread"])
                if p["fail"] == "fault":
                    p["rule"] = dict(rng.choice(gen.FILE_FAULTS[:6]))
                elif p["fail"] == "midread":
                    p["frac"] = rng.random()
        parts.append(p)
    # the same target may be named twice, and its directive must be followed twice
    again = [p for p in parts if ("url" in p or "path" in p)]
    if again and rng.random() < 0.3:
        parts.insert(rng.randint(0, len(parts)), dict(rng.choice(again)))
    if hosts and rng.random() < 0.08:
        h = rng.choice(sorted(hosts))
        hosts[h] = dict(hosts[h], **rng.choice([{"dns": "fail"}, {"connect": ["refuse"]}, {"connect": ["blackhole"]},
                                                {"tls": "selfsigned"} if hosts[h]["is_tls"] else {"connect": ["unreach"]}]))
    sc = {"parts": parts, "hosts": hosts, "nonl": rng.random() < 0.2, "order": rng.randint(0, 23),
          "max_read": rng.choice([None, None, 1, 50])}
    sc["change"] = rng.random() < 0.5
    if rng.random() < 0.25:
        # a temporary fault at some operation of one of the calls
        sc["picks"] = entry.picks(rng, 1, ["r"])
    return sc


def loc(p, root):
    if "url" in p:
        return p["url"]
    return os.path.join(root, p["path"]) if p["how"] == "abs" else p["path"]


def lines(sc, root):
    out = []
    for p in sc["parts"]:
        if "t" in p:
            out.append(p["t"] + p["eol"])
        else:
            out.append(p["form"] % loc(p, root) + p["eol"])
    if sc["nonl"] and out:
        out[-1] = out[-1].rstrip("\r\n")
    return out


def setup(sc, w, n):
    for p in sc["parts"]:
        if "url" in p:
            b = dict(p["beh"], body=p["text"])
            if b.get("redirect") == "@self":
                b["redirect"] = p["url"]
            n.urls[p["url"]] = b
        elif "path" in p:
            f = p.get("fail")
            if f == "missing":
                continue
            if f == "dir":
                os.makedirs(w.abs(p["path"]), exist_ok=True)
                continue
            data = p["text"].encode()
            if f == "badutf8":
                data += b"\xff\xfe\n"
            w.put(p["path"], data)
            if f == "fault":
                w.rules.append(dict(p["rule"], path=p["path"]))
            elif f == "midread":
                w.bad_at[p["path"]] = int(len(data) * p["frac"])
    w.put("in.cfg", "".join(lines(sc, w.root)))


def fails(sc, p):
    if p.get("malformed"):
        return True
    if "url" in p:
        return bool(simnet.fails(p["beh"], sc["hosts"].get(p["url"].split("/")[2], {})))
    return bool(p.get("fail"))


def matches(got, sc, root):
    """Does the result consist of the lines and the named texts, in order?"""
    pos = 0
    ls = lines(sc, root)
    for i, p in enumerate(sc["parts"]):
        if "t" in p:
            piece = ls[i]
            if not got.startswith(piece, pos):
                return "at %d expected %r, got %r" % (pos, piece[:60], got[pos:pos + 60])
            pos += len(piece)
            continue
        piece = p["text"]
        if not got.startswith(piece, pos):
            return "at %d expected the text of %s, %r, got %r" % (pos, loc(p, ""), piece[:60], got[pos:pos + 60])
        pos += len(piece)
        if piece and not piece.endswith("\n"):
            last = i == len(sc["parts"]) - 1
            for eol in ("\r\n", "\n"):
                if got.startswith(eol, pos):
                    pos += len(eol)
                    break
            else:
                if not last:
                    return "what follows the text of %s is joined to its last line: %r" % (loc(p, ""), got[pos - 10:pos + 30])
    if pos != len(got):
        return "%r at the end is not from the input" % got[pos:pos + 60]
    return None


ENTRIES = ["file_str", "file_file", "str_str", "str_file"]


def one(sc, w, name):
    from pykickstart import parser as P
    src = w.abs("in.cfg")
    s = "".join(lines(sc, w.root))
    fn = {"file_str": lambda: P.preprocessKickstartToString(src), "file_file": lambda: P.preprocessKickstart(src),
          "str_str": lambda: P.preprocessFromStringToString(s), "str_file": lambda: P.preprocessFromString(s)}[name]
    r = entry.call(fn)
    if r["status"] != "ok":
        return r
    v = r["value"]
    if name.endswith("_file"):
        try:
            with world.R_OPEN(v, "rb") as f:
                data = f.read()
        except (OSError, TypeError) as e:
            return {"status": "bad", "exc": "no file at the returned location: %s" % e}
        world.R["unlink"](v)
        v = data
    if isinstance(v, bytes):
        v = v.decode("utf-8")
    return {"status": "ok", "value": v}


def execute(sc, ctx):
    order = list(ENTRIES)
    for i in range(3):
        order.append(order.pop((sc["order"] // (i + 1)) % (4 - i)))
    sim = os.path.join(ctx.root, "sim")
    plan = {}
    if sc.get("picks"):
        def rehearsal():
            w, n = entry.setup(os.path.join(ctx.root, "dry"), None, {"hosts": sc["hosts"]})
            setup(sc, w, n)
            w.arm()
            one(sc, w, order[0])
            return w.points
        plan = entry.plan_from(core.oracle(rehearsal), sc["picks"])
    w, n = entry.setup(sim, ctx, {"hosts": sc["hosts"]})
    setup(sc, w, n)
    w.plan = plan
    if sc["max_read"]:
        size = max([len(p.get("text", "")) for p in sc["parts"]] + [0])
        w.max_read = max(sc["max_read"], size // 300)
    w.arm()
    must = any(fails(sc, p) for p in sc["parts"])
    for i, name in enumerate(order):
        if i == 2 and sc.get("change"):
            # the sources change between two calls
            w.armed = False
            for p in sc["parts"]:
                if "text" in p:
                    p["text"] = "changed" + p["text"][7:] if len(p["text"]) > 7 and "\n" not in p["text"][:8] else "changed\n" + p["text"]
            w.rules, w.bad_at = [], {}
            setup(sc, w, n)
            w.arm()
        mark = len(w.fired)
        before = w.tree()
        r = one(sc, w, name)
        new = [f for f in entry.hard(w.fired[mark:]) if f["op"] != "net"]
        ctx.log.append([name, r["status"]])
        transient = i == 0 and bool(plan) and bool(new)
        where = "%s%s" % (name, " with " + json.dumps(new[:2]) if new else "")
        if r["status"] == "ok":
            if must:
                ctx.violation("success-on-failure", "%s: a target cannot be loaded, yet there is a result" % where)
            else:
                m = matches(r["value"], sc, w.root)
                if m:
                    ctx.violation("wrong-splice", "%s: %s" % (where, m))
        elif r["status"] == "ks":
            if not must and not transient:
                ctx.violation("failure-without-fault", "%s: %s" % (where, r["exc"]))
            left = [p for p in w.tree() if p.startswith("tmp/") and p not in before]
            if left:
                ctx.violation("partial-result", "%s: failed but left %s" % (where, left))
        else:
            ctx.violation("wrong-exception", "%s: %s %s" % (where, r["status"], r["exc"]))
        w.plan = {}
        w.sticky = {}
        if transient and any(f["kind"] == "vanish" for f in new):
            break
    ctx.count("directives", sum(1 for p in sc["parts"] if "t" not in p))
    ctx.count("inputs_that_fail" if must else "inputs_that_succeed")
    ctx.nontrivial = any("t" not in p for p in sc["parts"])
    ctx.simtime = w.now - w.t0
