"""Read a generated tree with the real parser in a world, and with the model."""
import io
import os
import sys
import warnings

from vsim import core, dump, gen, model, net as simnet
from vsim.world import World


UNKNOWN = ("%com_example", "%future-section")


def real(sc, ctx, settings=None, custom=None, builtin=True, before=None, w=None, n=None):
    """Returns (got, world, net, parser); got has outcome, events, commands, ...."""
    from pykickstart.version import makeVersion
    if w is None:
        w = World(os.path.join(ctx.root, "sim"), ctx)
        os.makedirs(w.root, exist_ok=True)
        w.install()
        n = simnet.Net(w).install()
        model.materialise(sc, w, n)
    if sc.get("max_read"):
        w.max_read = sc["max_read"]
    warnings.resetwarnings()
    warnings.simplefilter("ignore")
    events = []
    parser_cls, add = model.recording(events, custom, builtin)
    s = dict(model.DEFAULTS, **(settings or {}))
    handler = makeVersion(sc["version"])
    p = parser_cls(handler, **s)
    add(p)
    err = sys.stderr = io.StringIO()
    out = sys.stdout = io.StringIO()
    if before:
        before(w, n, p)
    w.arm()
    outcome = model.outcome_of(lambda: read(sc, w, p))
    w.armed = False
    got = model.observe(handler)
    got["outcome"] = outcome
    got["events"] = events
    got["errors"] = p.errorsCount
    got["stderr"] = err.getvalue()
    got["stdout"] = out.getvalue()
    return got, w, n, p


def read(sc, w, p):
    top = sc["docs"][sc["top"]]
    if sc.get("via") == "string":
        p.readKickstartFromString(model.text_of(top, sc["docs"], w.root))
    elif top["loc"] == "url":
        p.readKickstart(top["url"])
    elif sc.get("topref") == "rel":
        p.readKickstart(top["path"])
    else:
        p.readKickstart(w.abs(top["path"]))


def expected(sc, settings=None, custom=None, vanished=(), wanterr=False, fails=None):
    if fails is None:
        fails = {d: model.doc_fails(doc, sc["hosts"], True, vanished) for d, doc in sc["docs"].items()}

    def body():
        res, m = model.expected(sc, fails, settings, custom, wanterr)
        res["fetched"] = m.fetched
        res["warned"] = m.warned
        return res
    return core.oracle(body)


def check(ctx, exp, got, builtin=True, what=None, prefix=""):
    """Compare and record violations; returns True if all agree."""
    ok = True
    if not model.same_outcome(exp["outcome"], got["outcome"]):
        ctx.violation(prefix + "outcome", "expected %s, got %s" % (exp["outcome"], got["outcome"]))
        ok = False
    # sections the parser makes up for itself are not recorded
    exp = dict(exp, events=[e for e in exp["events"] if e[0] == "cmd" or e[1] not in UNKNOWN])
    if not builtin:
        exp = dict(exp, events=[e for e in exp["events"] if e[0] == "cmd"])
    what = what or ("events", "commands", "scripts", "packages", "platform", "nulls", "errors")
    for cls, text in model.compare(exp, got, what):
        ctx.violation(prefix + cls, "outcome %s; %s" % (got["outcome"][:2], text))
        ok = False
    return ok


def drop_doc_refs(sc):
    """For shrinking: documents that nothing refers to any more."""
    used = set()
    todo = [sc["top"]]
    while todo:
        d = todo.pop()
        if d in used or d not in sc["docs"]:
            continue
        used.add(d)
        for _, t in gen.includes_of(sc["docs"][d]["nodes"]):
            todo.append(t)
    return used


def insec_items(items):
    return all(n[0] in ("l", "inc") for n in items)


def valid(sc):
    """Is a shrunk tree still one the model describes?"""
    for did, d in sc["docs"].items():
        for n in d["nodes"]:
            if not isinstance(n, list) or not n:
                return False
        if d.get("insec"):
            ns = d["nodes"]
            if ns and ns[0][0] == "l" and not ns[0][1].strip():
                return False
    return True


def simplify(sc):
    import json
    for d in sorted(sc["docs"]):
        c = json.loads(core.canonical(sc))
        doc = c["docs"][d]
        ch = False
        for k in ("nonl",):
            if doc.pop(k, None):
                ch = True
        if doc["loc"] == "url" and doc.get("beh"):
            b = doc["beh"]
            for k in ("seg", "gap", "hdr_gap", "gzip", "chunk"):
                if k in b and "fault" not in b and "status" not in b:
                    b.pop(k)
                    ch = True
        if ch:
            yield c
    if sc.get("max_read"):
        yield dict(sc, max_read=None)


# ------------------------------------------------------------------ configurations

def config(d):
    """A configuration without what only tells how it was come by."""
    def strip(x):
        if isinstance(x, dict):
            return {k: strip(v) for k, v in x.items() if not (k == "seen" and isinstance(v, bool))}
        if isinstance(x, list):
            return [strip(v) for v in x]
        return x
    return {"commands": strip(d["commands"]),
            "scripts": [{k: v for k, v in s.items() if k != "lineno"} for s in d["scripts"]],
            "packages": d["packages"], "platform": d["platform"], "nulls": d["nulls"]}


def reread(text, version, **settings):
    """What a new process makes of a text: its configuration and what it writes."""
    def body():
        from pykickstart.parser import KickstartParser
        from pykickstart.version import makeVersion
        warnings.resetwarnings()
        warnings.simplefilter("ignore")
        h = makeVersion(version)
        p = KickstartParser(h, **settings)
        out = model.outcome_of(lambda: p.readKickstartFromString(text))
        d = model.observe(h)
        d["outcome"] = out
        d["errors"] = p.errorsCount
        try:
            d["text"] = str(h)
        except Exception as e:
            d["text"] = "str: %s: %s" % (type(e).__name__, e)
        return d
    sys.stderr, err = io.StringIO(), sys.stderr
    try:
        return core.oracle(body)
    finally:
        sys.stderr = err


def differences(exp, got, what=("commands", "scripts", "packages", "platform", "nulls")):
    return [(k, "; ".join(dump.diff(exp[k], got[k], k))) for k in what if exp[k] != got[k]]
