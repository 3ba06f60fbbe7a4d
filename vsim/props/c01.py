"""Loading is all-or-nothing, current and faithful."""
import os
import re

from vsim import gen, net as simnet, world
from vsim.world import World

ID = "C01"
QUICK, THOROUGH = 2600, 90000
QUICK_WALL, THOROUGH_WALL = 60, 1500
RULE = ("one run is a history of loads (to a string, and for version detection) of up to four sources, each a local file "
        "or a URL whose content and behaviour change between loads, some loads with one injected fault; distinct by scenario; "
        "non-trivial if at least one load succeeded and at least one fault fired or one source changed after it was loaded")
MEASURE = "distinct scenarios (history of contents, source behaviours and faults)"
REAL = ["pykickstart.load", "pykickstart.version", "requests", "urllib3", "http.client", "Python io layers"]
STUB = ["system calls on files below the scratch root (fault-injecting pass-through to real files)",
        "name service, TCP and TLS (simulated)", "HTTP servers (simulated)", "clock (virtual)"]
ASSUMPTIONS = ["a local kickstart is UTF-8; a remote one is UTF-8 unless its Content-Type declares another charset",
               "a transfer without length and without chunks ends where the connection is closed, so cutting it is not a detectable fault"]
SHRINK = ["ops"]

TEXTS = ["lang en_US\n", "# just a remark\n", "\n", "text\r\n", "rootpw --lock", "%packages\n@core\n%end\n", "ünïcode — ¤\n",
         "日本語 テキスト\n", "🎉\n", "\u2028odd\u2028\n", "\x0bvt\x0cff\x1c\x85\n", "x" * 300 + "\n", "# \x0c#version=F9\n", "\u2028#version=RHEL4\n", "tab\there\n", "\ufeffmark\n", "nul\x00\n", "\r", "a\rb\r\n", " "]
# locations that cannot be loaded
ODD = ["nul\x00.cfg", "/" + "n" * 300, "/x" * 3000, "", "not\ud800.cfg", "://", "http://", "x\x00://y"]
VERSIONS = ["F8", "F21", "RHEL6", "RHEL8", "FC3", "F34"]


def content(rng):
    """Returns [text, encoding, valid]."""
    k = rng.random()
    if k < 0.06:
        t = ""
    elif k < 0.14:
        t = "line of a large kickstart %s\n" % rng.randint(0, 999) * rng.choice([100, 900, 3000, 9000])
    else:
        t = "".join(rng.choice(TEXTS) for _ in range(rng.randint(1, 12)))
    if rng.random() < 0.35:
        at = rng.choice([0, 0, len(t)])
        if at and not t.endswith("\n"):
            t += "\n"
            at = len(t)
        v = "#version=%s\n" % rng.choice(VERSIONS)
        t = t[:at] + v + t[at:] if at else v + t
        if rng.random() < 0.3:
            t = t + ("" if t.endswith("\n") else "\n") + "#version=%s\n" % rng.choice(VERSIONS)
    return t


def generate(rng, index, tier):
    nsrc = rng.randint(1, 4)
    srcs = []
    for i in range(nsrc):
        if rng.random() < 0.5:
            srcs.append({"k": "file", "path": rng.choice(["a%d.cfg", "d/b%d.cfg", "d/with space %d", "ü%d.ks"]) % i,
                         "how": rng.choice(["abs", "rel"])})
        else:
            tls = rng.random() < 0.5
            srcs.append({"k": "url", "url": "http%s://%sh%d.example%s/p%d.cfg%s" % (
                "s" if tls else "", "s" if tls else "", i, rng.choice(["", "", ":808%d" % i]), i,
                rng.choice(["", "", "?q=%d" % i])), "tls": tls})
    ops = []
    last = {}
    for i in range(nsrc):
        ops.append(change(rng, i, srcs[i]))
        last[i] = ops[-1]
    for _ in range(rng.randint(2, 9)):
        i = rng.randrange(nsrc)
        if rng.random() < 0.4:
            ops.append(change(rng, i, srcs[i]))
            if "text" in ops[-1] and last[i].get("text") and rng.random() < 0.4:
                # the same size (and perhaps the same time), another content
                at = rng.randrange(len(last[i]["text"]))
                t = last[i]["text"]
                if t[at].isascii() and t[at].isalnum():
                    ops[-1]["text"] = t[:at] + rng.choice("xyz09".replace(t[at], "")) + t[at + 1:]
                    if srcs[i]["k"] == "file":
                        ops[-1]["same"] = rng.random() < 0.7
                    elif "enc" in ops[-1]:
                        ops[-1]["text"] = "".join(c for c in ops[-1]["text"] if encodable(c, ops[-1]["enc"]))
            last[i] = ops[-1]
        ld = {"op": "load", "src": i, "via": rng.choice(["str", "str", "str", "version"])}
        if srcs[i]["k"] == "file":
            x = rng.random()
            if x < 0.35:
                f = dict(rng.choice(gen.FILE_FAULTS))
                if rng.random() < 0.5 and f["cls"] == "read":
                    f["after"] = rng.randint(0, 3)
                if rng.random() < 0.4:
                    f.pop("always", None)
                ld["rule"] = f
            elif x < 0.55:
                ld["bad"] = rng.random()
            if rng.random() < 0.4:
                ld["max_read"] = rng.choice([1, 7, 100, 4096])
        ops.append(ld)
    return {"srcs": srcs, "ops": ops}


def change(rng, i, src):
    op = {"op": "set", "src": i}
    if src["k"] == "file":
        x = rng.random()
        if x < 0.07:
            op["state"] = "missing"
        elif x < 0.12:
            op["state"] = "dir"
        else:
            op["text"] = content(rng)
            if rng.random() < 0.3:
                op["same"] = rng.random() < 0.7
            if rng.random() < 0.12:
                op["bad8"] = rng.choice(["\xff", "\xc3", "\xc3(", "\xed\xa0\x80", "\xe2\x82", "caf\xe9"])
                op["badpos"] = rng.random()
        return op
    # a URL
    b = gen.benign_behaviour(rng)
    op["text"] = content(rng)
    op["host"] = h = {"is_tls": src["tls"]}
    x = rng.random()
    if x < 0.3:
        b = gen.failing_behaviour(rng, b)
    elif x < 0.42:
        k = rng.random()
        if k < 0.2:
            h["dns"] = rng.choice(["fail", "slowfail"])
        elif k < 0.5:
            h["addrs"] = rng.randint(1, 3)
            h["connect"] = [rng.choice(["refuse", "blackhole", "unreach"]) for _ in range(h["addrs"])]
        elif src["tls"]:
            if rng.random() < 0.5:
                h["tls"] = rng.choice(["selfsigned", "expired", "wronghost", "notls"])
            else:
                h["tls_fault"] = rng.choice(["stall", "reset", "eof"])
    elif x < 0.52:
        h["addrs"] = 3
        h["connect"] = [rng.choice(["refuse", "unreach"]), rng.choice(["refuse", "ok"]), "ok"]
    elif x < 0.62:
        cs = rng.choice(["iso-8859-1", "iso-8859-15", "utf-16", "windows-1252"])
        b["ctype"] = "text/plain; charset=" + cs
        op["enc"] = cs
        if cs != "utf-16":
            op["text"] = "".join(c for c in op["text"] if encodable(c, cs))
    elif x < 0.66:
        b["ctype"] = "text/plain; charset=x-unknown-set"
        op["may"] = True
    elif x < 0.74:
        op["bad8"] = rng.choice(["\xff", "\xc3", "\xc3(", "\xed\xa0\x80", "\xe2\x82", "caf\xe9"])
        op["badpos"] = rng.random()
        b["ctype"] = rng.choice(["text/plain", None, "text/plain; charset=utf-8", "text/html"])
    elif x < 0.85:
        op["redirects"] = [rng.choice([301, 302, 303, 307, 308]) for _ in range(rng.randint(1, 3))]
        op["relative"] = rng.random() < 0.5
    op["beh"] = b
    return op


def encodable(c, cs):
    try:
        c.encode(cs)
        return c.encode(cs).decode(cs) == c
    except UnicodeError:
        return False


def data_of(op):
    raw = op["text"].encode(op.get("enc", "utf-8"))
    if "bad8" in op:
        # at a character boundary, so that the result is certainly not UTF-8
        k = len(op["text"][:int(len(op["text"]) * op["badpos"])].encode("utf-8"))
        raw = raw[:k] + op["bad8"].encode("latin-1") + b"\n" + raw[k:]
    return raw


def first_version(text):
    for line in text.replace("\r", "\n").split("\n"):
        if line.startswith("#version="):
            return line[9:].rstrip()
    return None


def execute(sc, ctx):
    from pykickstart import load, version
    from pykickstart.errors import KickstartError
    w = World(ctx.root, ctx).install()
    net = simnet.Net(w).install()
    w.arm()
    state = {}
    loaded = set()
    ok = changed = 0
    for n, op in enumerate(sc["ops"]):
        src = sc["srcs"][op["src"]]
        if op["op"] == "set":
            state[op["src"]] = op
            if op["src"] in loaded:
                changed += 1
            w.armed = False
            apply(w, net, src, op)
            w.armed = True
            continue
        st = state.get(op["src"])
        if st is None:
            continue
        w.rules, w.bad_at, w.sticky, w.max_read = [], {}, {}, op.get("max_read")
        if w.max_read:
            w.max_read = max(w.max_read, len(st.get("text", "")) // 1000)
        mark = len(w.fired)
        if "loc" in op:
            loc = op["loc"]
        elif src["k"] == "file":
            if op.get("rule"):
                w.rules = [dict(op["rule"], path=src["path"])]
            if "bad" in op and "text" in st:
                w.bad_at = {src["path"]: int(len(data_of(st)) * op["bad"])}
            loc = w.abs(src["path"]) if src["how"] == "abs" else src["path"]
        else:
            loc = src["url"]
        try:
            if op["via"] == "str":
                got = ["value", load.load_to_str(loc)]
            else:
                got = ["value", version.versionFromFile(loc)]
        except KickstartError as e:
            got = ["kserror", type(e).__name__]
        except simnet.SimHang as e:
            got = ["hang", str(e)]
        except Exception as e:
            got = ["other", "%s: %s" % (type(e).__name__, e)]
        loaded.add(op["src"])
        hard = [f for f in w.fired[mark:] if f["op"] not in ("net",) and f["kind"] != "short"]
        # what the source holds
        if "loc" in op:
            must_fail, may_fail = True, False
        elif src["k"] == "file":
            must_fail = st.get("state") in ("missing", "dir") or "bad8" in st
            may_fail = bool(hard)
            if any(f["kind"] == "vanish" for f in hard):
                state[op["src"]] = {"op": "set", "src": op["src"], "state": "missing"}
        else:
            must_fail = bool(simnet.fails(st["beh"], st["host"])) or "bad8" in st
            may_fail = bool(st.get("may"))
        w.log.append(["load", n, got[0], must_fail, may_fail])
        text = st.get("text", "")
        if op["via"] == "str":
            want = text
        else:
            v = first_version(text)
            try:
                want = version.stringToVersion(v) if v else version.DEVEL
            except KickstartError:
                must_fail = True            # names a version that there is not
        where = "operation %d, %s of %s" % (n, op["via"], loc)
        if got[0] == "hang":
            ctx.violation("no-end", "%s: %s" % (where, got[1]))
        elif got[0] == "other":
            ctx.violation("wrong-exception", "%s: %s" % (where, got[1]))
        elif got[0] == "value":
            ok += 1
            if must_fail:
                ctx.violation("success-on-failure", "%s: the load has to fail but gave %r" % (where, got[1] if op["via"] != "str" else got[1][:80]))
            elif got[1] != want:
                ctx.violation("altered", "%s: %s" % (where, describe(want, got[1])))
        elif not must_fail and not may_fail:
            ctx.violation("failure-without-fault", "%s: raised though nothing failed" % where)
    ctx.count("loads", sum(1 for o in sc["ops"] if o["op"] == "load"))
    ctx.count("loads_succeeded", ok)
    ctx.count("reloads_after_change", changed)
    ctx.nontrivial = ok > 0 and (bool(w.fired) or changed > 0)
    ctx.simtime = w.now - w.t0


def describe(want, got):
    if not isinstance(want, str) or not isinstance(got, str):
        return "expected %r, got %r" % (want, got)
    for i, (a, b) in enumerate(zip(want, got)):
        if a != b:
            return "differs at character %d: expected ...%r, got ...%r" % (i, want[i:i + 40], got[i:i + 40])
    return "expected %d characters, got %d" % (len(want), len(got))


def apply(w, net, src, op):
    if src["k"] == "file":
        p = w.abs(src["path"])
        keep = None
        if os.path.isdir(p):
            world.R["rmdir"](p)
        elif os.path.exists(p):
            keep = os.stat(p)
            if op.get("same") is None:
                world.R["unlink"](p)
        if op.get("state") == "missing":
            if os.path.exists(p):
                world.R["unlink"](p)
        elif op.get("state") == "dir":
            if os.path.exists(p):
                world.R["unlink"](p)
            os.makedirs(p)
        else:
            w.put(src["path"], data_of(op))
            if keep is not None and op.get("same"):
                os.utime(p, ns=(keep.st_atime_ns, keep.st_mtime_ns))
            else:
                os.utime(p, (w.now, w.now))
            w.now += 1
        return
    host = re.match(r"https?://([^/:]+)", src["url"]).group(1)
    net.hosts[host] = op["host"]
    net.urls = {u: b for u, b in net.urls.items() if not u.startswith(src["url"].split(".cfg")[0])}
    b = dict(op["beh"], body=data_of(op))
    if b.get("redirect") == "@self":
        b["redirect"] = src["url"]
    url = src["url"]
    for i, status in enumerate(op.get("redirects", [])):
        nxt = src["url"].split("?")[0] + "-r%d" % i
        loc = nxt
        if op.get("relative"):
            loc = "/" + nxt.split("/", 3)[3]
        net.urls[url] = {"status": status, "redirect": loc, "body": "moved\n", "ctype": "text/html"}
        url = nxt
    net.urls[url] = b
