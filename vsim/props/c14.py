"""Remote fetches are verified, never downgraded and made once per directive."""
import json
import os

from vsim import core, entry, gen, model, net as simnet, treerun

ID = "C14"
QUICK, THOROUGH = 2500, 80000
QUICK_WALL, THOROUGH_WALL = 80, 1500
RULE = ("one run is one to three operations (loading a URL in three ways, reading or preprocessing a tree of files and URLs, "
        "ksvalidator, ksflatten, ksshell) with verification on or off, over servers with good, self-signed, expired and "
        "mismatched certificates, broken handshakes, redirects and failing transfers, changing between operations; the requests "
        "and handshakes the simulated servers saw are compared with those the reference model makes; distinct by scenario; "
        "non-trivial if there was a handshake or a followed directive")
MEASURE = "distinct scenarios (operations, tree, server behaviours)"
REAL = ["pykickstart (all)", "tools/ksvalidator.py", "tools/ksflatten.py", "tools/ksshell.py", "requests", "urllib3", "http.client"]
STUB = ["name service, TCP, TLS handshakes and servers (a handshake fails as the certificate and the verification mode say)",
        "system calls on files below the scratch root", "clock"]
ASSUMPTIONS = ["a fetch of a server that breaks off the exchange may be tried again in the same, verified, way"]
SHRINK = ["ops", "nodes", "items"]
valid = treerun.valid
simplify = treerun.simplify

TLS = ["good", "good", "selfsigned", "expired", "wronghost", "notls", "garbage"]


def generate(rng, index, tier):
    v = gen.version(rng)
    apps = rng.random() < 0.35
    g = gen.TreeGen(rng, v, depth=rng.choice([1, 2, 3]), max_docs=rng.choice([2, 4, 8]), p_inc=rng.choice([0.3, 0.5]), inc_in_sec=0.25,
                    urls=rng.choice([0.6, 0.9]), bad=rng.choice([0, 0, 0.05]), big=0.0)
    top = None
    if rng.random() < 0.4:
        tls = rng.random() < 0.6
        h = "stop.example" if tls else "top.example"
        g.hosts[h] = {"is_tls": tls}
        top = {"loc": "url", "url": "http%s://%s/ks.cfg" % ("s" if tls else "", h), "beh": gen.benign_behaviour(rng)}
    sc = g.tree(n=rng.randint(1, 6), top=top)
    full(sc["docs"]["D0"]["nodes"])
    if apps:
        entry.add_appends(rng, sc, rng.randint(1, 3))
    for d in sc["docs"].values():
        if d["loc"] != "url":
            continue
        if rng.random() < 0.12:
            d["beh"] = gen.failing_behaviour(rng, d["beh"])
            d["fail"] = "net"
        elif rng.random() < 0.15:
            d["hop"] = [rng.choice([301, 302, 303, 307, 308]), rng.choice(["same", "shop.example", "hop.example"])]
    sc["hosts"]["shop.example"] = {"is_tls": True}
    sc["hosts"]["hop.example"] = {"is_tls": False}
    kinds = ["validate", "shell", "pre"] if apps else ["read", "read", "read", "validate", "flatten", "shell", "pre"]
    urls = sorted(d for d in sc["docs"] if sc["docs"][d]["loc"] == "url")
    ops = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        op = {"kind": rng.choice(kinds), "verify": rng.random() < 0.8}
        if urls and rng.random() < 0.3:
            op["kind"] = rng.choice(["load", "load_file", "version"])
            op["doc"] = rng.choice(urls)
        op["entry"] = rng.randint(0, 1)
        op["fatal"] = rng.random() < 0.5
        op["follow"] = rng.random() < 0.85
        op["errfatal"] = rng.random() < 0.5
        op["hosts"] = {}
        for h in sorted(sc["hosts"]):
            if sc["hosts"][h].get("is_tls") and rng.random() < 0.4:
                op["hosts"][h] = {"is_tls": True, "tls": rng.choice(TLS)}
                if rng.random() < 0.15:
                    op["hosts"][h] = {"is_tls": True, "tls_fault": rng.choice(["stall", "reset", "eof"])}
            elif rng.random() < 0.06:
                op["hosts"][h] = dict(sc["hosts"][h], **rng.choice([{"dns": "fail"}, {"connect": ["refuse"]}, {"connect": ["blackhole"]}]))
        ops.append(op)
    sc["ops"] = ops
    return sc


def full(nodes):
    for n in nodes:
        if n[0] == "inc" and n[2] == "rel":
            n[2] = "abs"
        elif n[0] == "sec":
            full(n[3])


def hop_url(d):
    where = d["hop"][1]
    scheme, rest = d["url"].split("://")
    host, path = rest.split("/", 1)
    if where != "same":
        scheme, host = ("https" if where.startswith("s") else "http"), where
    return "%s://%s/hop/%s" % (scheme, host, path)


def chain(d):
    """The (url, host) pairs of one fetch."""
    out = [d["url"]] + ([hop_url(d)] if d.get("hop") else [])
    return [(u, u.split("/")[2]) for u in out]


def doc_fails(d, hosts, verify):
    if d["loc"] != "url":
        return model.doc_fails(d, hosts, verify)
    hops = chain(d)
    return any(simnet.fails({}, hosts[h], verify) for _, h in hops) or bool(simnet.fails(d["beh"], hosts[hops[-1][1]], verify))


def requests_of(d, hosts, verify):
    """What one fetch sends, as [url, exactly once?]."""
    out = []
    for i, (u, h) in enumerate(chain(d)):
        if simnet.fails({}, hosts[h], verify):
            break
        last = i == len(chain(d)) - 1
        strict = not last or not (d["beh"].get("fault") or d["beh"].get("redirect"))
        out.append([u, strict])
    return out


def expected(sc, op, hosts):
    """(documents fetched in order, fails?, outcome)"""
    fails = {d: doc_fails(x, hosts, op["verify"]) for d, x in sc["docs"].items()}
    k = op["kind"]
    if k in ("load", "load_file", "version"):
        return [op["doc"]], fails[op["doc"]], None
    docs = ["D0"] if sc["docs"]["D0"]["loc"] == "url" else []
    if fails["D0"]:
        return docs, True, None
    from vsim.props.c10 import spliced
    c, apps = spliced(sc)
    if k != "read" and k != "flatten":
        for a in apps:
            docs.append(a)
            if fails[a]:
                return docs, True, None
    if k == "pre":
        return docs, False, None
    settings = {"read": {"followIncludes": op["follow"], "missingIncludeIsFatal": op["fatal"], "errorsAreFatal": op["errfatal"]},
                "validate": {"followIncludes": op["follow"], "errorsAreFatal": op["errfatal"]},
                "flatten": {}, "shell": {"errorsAreFatal": False}}[k]
    exp = treerun.expected(c, settings, fails=fails, wanterr=k == "validate")
    return docs + exp["fetched"], exp["outcome"] != ["ok"], exp["outcome"]


def act(sc, op, w):
    from pykickstart import load, parser as P, version
    from pykickstart.parser import KickstartParser
    from pykickstart.version import makeVersion
    k = op["kind"]
    top = sc["docs"]["D0"]
    ref = top["url"] if top["loc"] == "url" else w.abs(top["path"])
    if k in ("load", "load_file", "version"):
        u = sc["docs"][op["doc"]]["url"]
        return entry.call({"load": lambda: load.load_to_str(u), "load_file": lambda: load.load_to_file(u, w.abs("out.cfg")),
                           "version": lambda: str(version.versionFromFile(u))}[k])
    if k == "pre":
        return entry.call({0: lambda: P.preprocessKickstartToString(ref), 1: lambda: P.preprocessKickstart(ref)}[op["entry"]])
    if k == "read":
        p = KickstartParser(makeVersion(sc["version"]), followIncludes=op["follow"], missingIncludeIsFatal=op["fatal"],
                            errorsAreFatal=op["errfatal"])
        return entry.call(lambda: p.readKickstart(ref))
    if k == "validate":
        opts = (["-i"] if op["follow"] else []) + (["-e"] if op["errfatal"] else [])
        return entry.run_tool("ksvalidator", ["-v", sc["version"]] + opts + [ref])
    if k == "flatten":
        return entry.run_tool("ksflatten", ["-v", sc["version"], "-c", ref, "-o", w.abs("out.cfg")])
    return entry.run_tool("ksshell", ["-v", sc["version"], "-i", ref, "-o", w.abs("out.cfg")], [])


def fits(reqs, exp):
    pos = {0}
    for url, strict in exp:
        if strict:
            pos = {p + 1 for p in pos if p < len(reqs) and reqs[p] == url}
        else:
            for p in sorted(pos):
                while p < len(reqs) and reqs[p] == url:
                    p += 1
                    pos.add(p)
        if not pos:
            return False
    return len(reqs) in pos


def execute(sc, ctx):
    from pykickstart import load
    w, n = entry.setup(os.path.join(ctx.root, "sim"), ctx, sc)
    for d in sc["docs"].values():
        if d.get("hop"):
            n.urls[hop_url(d)] = n.urls[d["url"]]
            n.urls[d["url"]] = {"status": d["hop"][0], "redirect": hop_url(d), "body": "moved\n", "ctype": "text/html"}
    hosts = json.loads(json.dumps(sc["hosts"]))
    w.arm()
    for i, op in enumerate(sc["ops"]):
        for h in op["hosts"]:
            hosts[h] = dict(op["hosts"][h])
        n.hosts.clear()
        n.hosts.update(hosts)
        n.requests, n.handshakes, n.connections = [], [], []
        load.SSL_VERIFY = op["verify"]
        r = act(sc, op, w)
        docs, fail, outcome = expected(sc, op, hosts)
        where = "operation %d, %s, verification %s" % (i, op["kind"], "on" if op["verify"] else "off")
        ctx.log.append([op["kind"], r["status"], len(n.requests), len(n.handshakes)])
        ctx.count("handshakes", len(n.handshakes))
        ctx.count("requests", len(n.requests))
        if r["status"] in (None, "hang"):
            ctx.violation("no-end", "%s: %s" % (where, r["exc"]))
            return
        if r["status"] == "other":
            ks = outcome is None or outcome[1].startswith("Kickstart")
            if ks:
                ctx.violation("wrong-exception", "%s: %s" % (where, r["exc"]))
        if op["verify"]:
            for x in n.handshakes:
                if not x["verify"] or not x["check_hostname"] or x["sni"] != x["host"]:
                    ctx.violation("unverified", "%s: handshake %s" % (where, x))
        for host, port in n.connections:
            if hosts[host].get("is_tls") and port != 443:
                ctx.violation("in-clear", "%s: connection to port %d of %s" % (where, port, host))
        for x in n.requests:
            if hosts[x["host"]].get("is_tls") and not x["tls"]:
                ctx.violation("in-clear", "%s: request %s in clear" % (where, x["url"]))
            if x["method"] != "GET":
                ctx.violation("method", "%s: %s %s" % (where, x["method"], x["url"]))
        urls = [d for d in docs if sc["docs"][d]["loc"] == "url"]
        exp = [q for d in urls for q in requests_of(sc["docs"][d], hosts, op["verify"])]
        got = [x["url"] for x in n.requests]
        if not fits(got, exp):
            ctx.violation("requests", "%s: expected %s, got %s" % (where, [u for u, _ in exp], got))
        ok = r["status"] in ("ok", 0)
        if op["kind"] in ("load", "load_file", "version", "pre", "read"):
            if ok == fail:
                ctx.violation("success-on-failure" if ok else "failure-without-fault", "%s: %s" % (where, r.get("exc")))
        elif fail and ok and op["kind"] != "shell":
            ctx.violation("success-on-failure", where)
        ctx.nontrivial = ctx.nontrivial or bool(n.handshakes or urls)
        if ctx.violations:
            break
    ctx.simtime = w.now - w.t0
