"""Every fetch ends in bounded time even if the server goes silent."""
import os

from vsim import core, entry, gen, model, net as simnet, treerun
from vsim.props import c14

ID = "C15"
QUICK, THOROUGH = 2500, 80000
QUICK_WALL, THOROUGH_WALL = 70, 1500
RULE = ("one operation (loading a URL in three ways, reading or preprocessing a tree, ksvalidator, ksflatten, ksshell) in which "
        "one server goes silent while connecting, in the handshake, in the head or in the body, possibly after a redirect or a slow "
        "start, or is merely slow with pauses of up to twenty seconds; the virtual clock tells how long the operation waited; "
        "distinct by scenario; non-trivial if the clock moved by a second")
MEASURE = "distinct scenarios (operation, tree, delay pattern, point of silence)"
REAL = c14.REAL
STUB = ["clock (virtual; advances only when a simulated peer makes the code wait)", "name service, TCP, TLS and servers",
        "system calls on files below the scratch root"]
ASSUMPTIONS = ["computing takes no simulated time", "the name service gives up by itself after thirty seconds",
               "a server has at most four addresses"]
SHRINK = ["nodes", "items"]
valid = treerun.valid
simplify = treerun.simplify
LIMIT = 300.0


def slow(rng, b):
    """A server that keeps sending, with pauses."""
    b = dict(b, seg=rng.choice([1, 7, 40, 1000]), gap=rng.choice([0.5, 5, 15, 20]))
    if rng.random() < 0.5:
        b["hdr_gap"] = rng.choice([1, 10, 20])
    return b


def generate(rng, index, tier):
    v = gen.version(rng)
    apps = rng.random() < 0.3
    g = gen.TreeGen(rng, v, depth=rng.choice([0, 1, 2]), max_docs=3, p_inc=0.4, inc_in_sec=0.25, urls=0.9, big=0.0)
    top = None
    if rng.random() < 0.6:
        tls = rng.random() < 0.5
        h = "stop.example" if tls else "top.example"
        g.hosts[h] = {"is_tls": tls}
        top = {"loc": "url", "url": "http%s://%s/ks.cfg" % ("s" if tls else "", h), "beh": gen.benign_behaviour(rng)}
    sc = g.tree(n=rng.randint(1, 4), top=top)
    c14.full(sc["docs"]["D0"]["nodes"])
    if apps:
        entry.add_appends(rng, sc, rng.randint(1, 2))
    sc["hosts"]["shop.example"] = {"is_tls": True}
    sc["hosts"]["hop.example"] = {"is_tls": False}
    urls = sorted(d for d in sc["docs"] if sc["docs"][d]["loc"] == "url")
    for d in urls:
        if rng.random() < 0.5:
            sc["docs"][d]["beh"] = slow(rng, sc["docs"][d]["beh"])
        if rng.random() < 0.1:
            sc["docs"][d]["hop"] = [302, rng.choice(["same", "shop.example", "hop.example"])]
    for h in sorted(sc["hosts"]):
        if rng.random() < 0.3:
            sc["hosts"][h]["latency"] = rng.choice([0.2, 5, 20])
    if urls and rng.random() < 0.75:
        d = sc["docs"][rng.choice(urls)]
        k = rng.choice(["connect", "tls", "head", "head", "body", "body", "dns"])
        h = rng.choice(c14.chain(d))[1]
        if k == "connect":
            n = rng.choice([1, 1, 2, 4])
            sc["hosts"][h].update(addrs=n, connect=["blackhole"] * n)
        elif k == "dns":
            sc["hosts"][h]["dns"] = "slowfail"
        elif k == "tls" and sc["hosts"][h]["is_tls"]:
            sc["hosts"][h]["tls_fault"] = "stall"
        else:
            if d["beh"]["framing"] == "close":
                d["beh"]["framing"] = "length"
            if rng.random() < 0.1:
                d["beh"]["status"] = rng.choice([404, 500, 503])
            d["beh"]["fault"] = {"at": "head" if k == "head" else "body", "kind": "stall", "frac": rng.choice([0, 0.01, 0.5, 0.99, rng.random()])}
            d["fail"] = "net"
    elif urls and rng.random() < 0.3:
        # some addresses are silent, the last one answers
        h = rng.choice(sorted({x[1] for d in urls for x in c14.chain(sc["docs"][d])}))
        n = rng.choice([2, 3, 4])
        sc["hosts"][h].update(addrs=n, connect=["blackhole"] * (n - 1) + ["ok"])
    kinds = ["validate", "shell", "pre"] if apps else ["read", "read", "validate", "flatten", "shell", "pre"]
    op = {"kind": rng.choice(kinds), "verify": rng.random() < 0.8, "entry": rng.randint(0, 1), "fatal": True, "follow": True,
          "errfatal": rng.random() < 0.5}
    if urls and rng.random() < 0.4:
        op["kind"] = rng.choice(["load", "load_file", "version"])
        op["doc"] = rng.choice(urls)
    sc["op"] = op
    return sc


def execute(sc, ctx):
    from pykickstart import load
    w, n = entry.setup(os.path.join(ctx.root, "sim"), ctx, sc)
    for d in sc["docs"].values():
        if d.get("hop"):
            n.urls[c14.hop_url(d)] = n.urls[d["url"]]
            n.urls[d["url"]] = {"status": d["hop"][0], "redirect": c14.hop_url(d), "body": "moved\n", "ctype": "text/html"}
    op = sc["op"]
    load.SSL_VERIFY = op["verify"]
    w.arm()
    start = w.now
    r = c14.act(sc, op, w)
    docs, fail, outcome = c14.expected(sc, op, n.hosts)
    last = max(start, n.last_byte or start)
    silent = w.now - last
    where = "%s, %s" % (op["kind"], "%.0f s in all, %.0f s after the last byte" % (w.now - start, silent))
    ctx.log.append([op["kind"], r["status"], round(w.now - start, 3)])
    if r["status"] in (None, "hang"):
        ctx.violation("no-end", "%s: %s" % (where, r["exc"]))
        return
    if silent > LIMIT:
        ctx.violation("too-long", "%s: status %s" % (where, r["status"]))
    ok = r["status"] in ("ok", 0)
    if r["status"] == "other" and (outcome is None or outcome[1].startswith("Kickstart")):
        ctx.violation("wrong-exception", "%s: %s" % (where, r["exc"]))
    if op["kind"] in ("load", "load_file", "version", "pre", "read"):
        if ok and fail:
            ctx.violation("success-on-failure", where)
        elif not ok and not fail:
            ctx.violation("failure-without-fault", "%s: the servers kept sending: %s" % (where, r.get("exc")))
    elif ok and fail and op["kind"] != "shell":
        ctx.violation("success-on-failure", where)
    elif op["kind"] == "flatten" and not ok and not fail:
        ctx.violation("failure-without-fault", "%s: the servers kept sending: %s" % (where, r["err"][:300]))
    if op["kind"] == "load" and ok and not fail:
        want = model.text_of(sc["docs"][op["doc"]], sc["docs"], w.root)
        if r["value"] != want:
            ctx.violation("altered", "%s: expected %d characters, got %d" % (where, len(want), len(r["value"])))
    ctx.count("stalled", 1 if n.stalled else 0)
    ctx.count("ended_ok" if ok else "ended_with_failure")
    ctx.simtime = w.now - start
    ctx.nontrivial = ctx.simtime >= 1
