"""Observation of handlers through their public attributes."""

import shlex

SKIP = {"handler", "op", "lineno", "currentLine", "currentCmd", "writePriority"}


def value(o, skip=SKIP, depth=0):
    """A JSON-able picture of any value found on a command, data, script or
    packages object.  Private attributes are not looked at."""
    if depth > 12:
        return "<deep>"
    if o is None or isinstance(o, (bool, int, float, str)):
        # bool and int are told apart by type name where it matters to callers
        return o
    if isinstance(o, bytes):
        return "b:" + o.decode("latin-1")
    if isinstance(o, (list, tuple)):
        return [value(x, skip, depth + 1) for x in o]
    if isinstance(o, (set, frozenset)):
        return {"__set__": sorted((value(x, skip, depth + 1) for x in o), key=repr)}
    if isinstance(o, dict):
        return {"__dict__": [[value(k, skip, depth + 1), value(v, skip, depth + 1)]
                             for k, v in o.items()]}
    if hasattr(o, "__dict__") and type(o).__module__.split(".")[0] != "builtins":
        d = {}
        for k, v in sorted(vars(o).items()):
            if k.startswith("_") or k in skip:
                continue
            d[k] = value(v, skip, depth + 1)
        return {"__obj__": type(o).__name__, "a": d}
    return "<%s>" % type(o).__name__


def command(obj, seen=True):
    if obj is None:
        return None
    v = value(obj, SKIP if seen else SKIP | {"seen"})
    return v


def commands(handler, seen=True):
    """name -> picture, for every command name of the handler."""
    memo = {}
    out = {}
    for name in sorted(handler.commands):
        obj = handler.commands[name]
        if id(obj) not in memo:
            memo[id(obj)] = command(obj, seen)
        out[name] = memo[id(obj)]
    return out


def script(s):
    return {"type": s.type, "interp": s.interp, "chroot": s.inChroot,
            "log": s.logfile, "eof": s.errorOnFail, "body": s.script,
            "lineno": s.lineno}


def scripts(handler, lineno=True):
    out = []
    for s in handler.scripts:
        d = script(s)
        if not lineno:
            del d["lineno"]
        out.append(d)
    return out


def packages(handler):
    p = handler.packages
    d = {}
    for k, v in sorted(vars(p).items()):
        if k.startswith("_"):
            continue
        if k in ("groupList", "excludedGroupList"):
            d[k] = [[g.name, g.include] for g in v]
        else:
            d[k] = value(v)
    return d


NULLS = ("%addon", "%anaconda", "%com_example", "%future-section")


def null_sections(text, names=NULLS):
    """The preserved unknown sections in a handler's text, as [header, body] in
    order (the header as words).  Generated scripts never contain lines that look like their headers."""
    out = []
    cur = None
    for line in text.split("\n"):
        if cur is None:
            w = line.replace("\t", " ").split(" ")
            if w and w[0] in names:
                try:
                    cur = [shlex.split(line, comments=True), ""]
                except ValueError:
                    cur = [line, ""]
        elif line.strip(" \t\r") == "%end":
            out.append(cur)
            cur = None
        else:
            cur[1] += line + "\n"
    if cur is not None:
        out.append(cur + ["unterminated"])
    return out


def handler(h, lineno=True, seen=True):
    return {"commands": commands(h, seen), "scripts": scripts(h, lineno),
            "packages": packages(h), "platform": h.platform}


def diff(a, b, path="", out=None, limit=6):
    """A short list of where two pictures differ."""
    if out is None:
        out = []
    if len(out) >= limit:
        return out
    if type(a) is not type(b):
        out.append("%s: %s != %s" % (path, short(a), short(b)))
    elif isinstance(a, dict):
        for k in list(a) + [k for k in b if k not in a]:
            if k not in a:
                out.append("%s.%s: only second: %s" % (path, k, short(b[k])))
            elif k not in b:
                out.append("%s.%s: only first: %s" % (path, k, short(a[k])))
            elif a[k] != b[k]:
                diff(a[k], b[k], path + "." + str(k), out, limit)
            if len(out) >= limit:
                break
    elif isinstance(a, list):
        if len(a) != len(b):
            out.append("%s: %d items %s != %d items %s" % (path, len(a), short(a), len(b), short(b)))
        else:
            for i, (x, y) in enumerate(zip(a, b)):
                if x != y:
                    diff(x, y, "%s[%d]" % (path, i), out, limit)
                if len(out) >= limit:
                    break
    elif a != b:
        out.append("%s: %s != %s" % (path, short(a), short(b)))
    return out


def short(x, n=160):
    s = repr(x)
    return s if len(s) <= n else s[:n // 2] + "..." + s[-n // 2:]
