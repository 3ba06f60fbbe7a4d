"""Generation of kickstart trees, texts and network behaviours.  Everything is
drawn from the rng given; nothing here calls the code under test."""
import json
import os
import re
import shlex

_HERE = os.path.dirname(os.path.abspath(__file__))
_corpus = None

PRE_F8 = ("RHEL3", "FC3", "RHEL4", "FC4", "FC5", "FC6", "RHEL5", "F7")
ORDER = ["RHEL3", "FC3", "RHEL4", "FC4", "FC5", "FC6", "RHEL5", "F7", "F8", "F9", "F10", "F11", "F12", "F13",
         "RHEL6", "F14", "F15", "F16", "F17", "F18", "F19", "F20", "F21", "RHEL7", "F22", "F23", "F24", "F25",
         "F26", "F27", "F28", "RHEL8", "F29", "F30", "F31", "F32", "F33", "F34"]
STORAGE = [("autopart",), ("mount",), ("part", "partition", "raid", "volgroup", "logvol", "btrfs", "reqpart")]


def corpus():
    global _corpus
    if _corpus is None:
        with open(os.path.join(_HERE, "corpus.json")) as f:
            c = json.load(f)
        L = c["lines"]
        _corpus = {}
        for v, d in c["versions"].items():
            _corpus[v] = {
                "good": {k: [(L[i], bool(s)) for i, s in ls] for k, ls in d["good"].items()},
                "bad": [L[i] for ls in d["bad"].values() for i in ls],
                "warn": [L[i] for ls in d["warn"].values() for i in ls],
            }
    return _corpus


def at_least(v, ref):
    return ORDER.index(v) >= ORDER.index(ref)


def version(rng, pre=0.25):
    if rng.random() < pre:
        return rng.choice(PRE_F8)
    return rng.choice([v for v in ORDER if v not in PRE_F8])


SAFE = re.compile(r"^[A-Za-z0-9_@%+=:,./-]+$")


def quote_word(w, style):
    if SAFE.match(w) and style % 4 != 3:
        return w
    if style % 2 and not re.search(r'["\\$`]', w):
        return '"' + w + '"'
    return shlex.quote(w)


def render_args(args, style=0):
    s = (" " if style % 5 else "  ").join(quote_word(w, style + i) for i, w in enumerate(args))
    if style % 7 == 3:
        s = "  " + s
    if style % 11 == 5:
        s += "   # trailing 'remark"  if style % 2 else " # remark"
    if style % 13 == 7:
        s += "  "
    return s


class Commands:
    """A stream of command lines for one version."""

    def __init__(self, rng, v, stable_only=False, bad=0.0, warn=0.0, repeat=True, unknown=True):
        self.rng = rng
        self.v = v
        c = corpus()[v]
        keep = rng.choice(STORAGE)
        drop = [x for g in STORAGE if g is not keep for x in g]
        self.good = {k: [a for a, s in ls if s or not stable_only] for k, ls in c["good"].items() if k not in drop}
        self.good = {k: ls for k, ls in self.good.items() if ls}
        self.names = sorted(self.good)
        self.badp, self.warnp = bad, warn
        self.bad, self.warn = c["bad"], c["warn"]
        self.unused = None if repeat else list(self.names)
        self.unknown = unknown

    def next(self):
        r = self.rng
        x = r.random()
        if x < self.badp:
            k = r.random()
            if k < 0.05 and self.unknown:
                return r.choice([[""], ["", "x"]])
            if k < 0.3 and self.unknown:
                return [r.choice(["nosuchcommand", "Lang", "autopart2", "rootpww", "--text", "keyboard2"]), "x"]
            if k < 0.6:
                n = r.choice(self.names)
                return [n, "--no-such-option"]
            if self.bad:
                return list(r.choice(self.bad))
        if x < self.badp + self.warnp and self.warn:
            return list(r.choice(self.warn))
        if self.unused is not None:
            if not self.unused:
                return None
            n = self.unused.pop(r.randrange(len(self.unused)))
        else:
            n = r.choice(self.names)
        return list(r.choice(self.good[n]))


WORDS = ["alpha", "beta", "gamma", "it's", "\"quoted", "a b c", "$HOME", "`date`", "100%", "%weird thing", "#! /bin/x",
         "naïve", "日本語", "🎉", "back\\slash", "tab\there", "x" * 200, "EOF", "<<EOF", "%endless", "  indented",
         "if [ -f /x ]; then", "fi", "trailing space ", "-dash", "@at", "%notasection --x", "%%", "lang en_US", "%include2 foo",
         "form\x0cfeed", "\u2028%end", "a\x85%end", "\u00a0%end", "%end\u00a0", "%include\u2003x", "\x1c%post", "last\x0b",
         "nel\x85"]


def script_line(rng):
    x = rng.random()
    if x < 0.1:
        return ""
    if x < 0.2:
        return "# comment " + rng.choice(WORDS[:6])
    w = rng.choice(WORDS)
    if x < 0.6:
        return w
    return w + " " + rng.choice(["1", "two", "& 3", "'four'", "\"five"])


PKGS = ["bash", "vim-enhanced", "kernel*", "python3-requests", "glibc.i686", "foo", "bar", "baz", "qux", "a b"]
GROUPS = ["core", "base", "c-development", "kde desktop", "x11", "Fonts"]
ENVS = ["gnome-desktop-environment", "minimal-environment", "server-product"]


def package_line(rng, v, bad=0.0):
    if bad and rng.random() < bad:
        return rng.choice(["@x --nodefaults --optional", "@ --optional core --nodefaults", "  @kde desktop --optional --nodefaults  # ?"])
    x = rng.random()
    if x < 0.01:
        return rng.choice(["-", "@", "-@", "-@^", "@ core", "- foo"])
    if x < 0.05:
        return ""
    if x < 0.1:
        return "# just a comment"
    if x < 0.55:
        s = rng.choice(PKGS)
    elif x < 0.7:
        s = "-" + rng.choice(PKGS)
    elif x < 0.83:
        s = "@" + rng.choice(GROUPS)
        y = rng.random()
        if y < 0.2:
            s += " --nodefaults"
        elif y < 0.4:
            s += " --optional"
    elif x < 0.9:
        s = "-@" + rng.choice(GROUPS)
    elif x < 0.96:
        s = "@^" + rng.choice(ENVS)
    else:
        s = "-@^" + rng.choice(ENVS)
    y = rng.random()
    if y < 0.1:
        s = "  " + s
    elif y < 0.2:
        s += "   # why"
    elif y < 0.25:
        s += "  "
    return s


def package_header(rng, v, simple=False):
    out = []

    def maybe(p, w):
        if rng.random() < p:
            out.append(w)
    maybe(0.15, "--excludedocs")
    maybe(0.15, "--ignoremissing")
    default = False
    if at_least(v, "F7") and rng.random() < 0.1:
        out.append("--default")
        default = True
    if at_least(v, "F9"):
        maybe(0.1, rng.choice(["--inst-langs=en,fr", "--inst-langs=de", "--inst-langs=", "--inst-langs=en, fr"]) if at_least(v, "F32") else "--instLangs=en_US")
    if at_least(v, "RHEL6") and not at_least(v, "F18") and not default:
        maybe(0.15, "--nobase")
    if at_least(v, "F18"):
        maybe(0.1, "--multilib")
    if at_least(v, "F21") and not default:
        maybe(0.1, "--nocore")
    if at_least(v, "RHEL7"):
        maybe(0.1, "--timeout=%d" % rng.choice([0, 1, rng.randint(1, 90)]))
        maybe(0.1, "--retries=%d" % rng.choice([0, 1, rng.randint(1, 9)]))
    if at_least(v, "F24"):
        maybe(0.1, "--exclude-weakdeps" if at_least(v, "F32") else "--excludeWeakdeps")
    if at_least(v, "F32"):
        maybe(0.1, "--ignorebroken")
    rng.shuffle(out)
    return out


def quote(word):
    """A word of a section header as it is written in the file."""
    if word and not set(word) & set(" '\"#\\\t"):
        return word
    if '"' in word or "\\" in word:
        return shlex.quote(word)
    return '"' + word + '"'


def script_header(rng, name):
    out = []
    if rng.random() < 0.3:
        i = rng.choice(["/usr/bin/python3", "/bin/bash", "/usr/bin/perl", "/usr/bin/python3 -u", "/bin/sh -x -e", "/opt/it's/sh"])
        out += ["--interpreter=" + i] if rng.random() < 0.6 else ["--interpreter", i]
    if rng.random() < 0.25:
        l = rng.choice(["/root/ks.log", "/mnt/sysimage/root/x.log", "/root/my log", "/tmp/#1", ""])
        out += [rng.choice(["--log=", "--logfile="]) + l] if rng.random() < 0.7 else ["--log", l]
    if rng.random() < 0.25:
        out.append("--erroronfail")
    if name == "%post" and rng.random() < 0.4:
        out.append("--nochroot")
    return out


def parse_script_header(name, args):
    """Reference reading of a script header (args without the tag)."""
    d = {"interp": "/bin/sh", "log": None, "eof": False, "chroot": name == "%post"}
    i = 0
    while i < len(args):
        a = args[i]
        if a.startswith("--") and "=" in a:
            k, val = a.split("=", 1)
        elif a in ("--interpreter", "--log", "--logfile"):
            i += 1
            k, val = a, args[i]
        else:
            k, val = a, None
        if k == "--interpreter":
            d["interp"] = val
        elif k in ("--log", "--logfile"):
            d["log"] = val
        elif k == "--erroronfail":
            d["eof"] = True
        elif k == "--nochroot":
            d["chroot"] = False
        i += 1
    return d


SCRIPTS = ["%pre", "%post", "%pre-install", "%traceback", "%onerror"]


class TreeGen:
    """A tree of documents.  See model.py for what the nodes mean."""

    def __init__(self, rng, v, **o):
        self.rng = rng
        self.v = v
        self.o = o
        self.docs = {}
        self.hosts = {}
        self.decoys = {}
        self.n = 0
        self.cmds = Commands(rng, v, stable_only=o.get("stable", False), bad=o.get("bad", 0.0),
                             warn=o.get("warn", 0.0), repeat=o.get("repeat", True))
        self.dirs = ["", "d1", "d1/sub", "d2"]
        self.custom = o.get("custom", [])
        self.left = o.get("max_docs", 8)
        self.done = {}

    def name(self):
        self.n += 1
        return self.n

    def location(self, parent):
        """Choose where a new document lives and how its parent refers to it."""
        r = self.rng
        n = self.name()
        if r.random() < self.o.get("urls", 0.3):
            host = "h%d.example" % r.randint(1, 3)
            https = r.random() < 0.4
            if https:
                host = "s" + host
            self.hosts.setdefault(host, {"is_tls": https})
            url = "%s://%s/%s/k%d.cfg" % ("https" if https else "http", host, r.choice(["ks", "a/b"]), n)
            return {"loc": "url", "url": url, "beh": benign_behaviour(r)}, "url"
        d = r.choice(self.dirs)
        base = r.choice(["inc%d.cfg" % n, "part%d.ks" % n, "with space %d" % n, "ünï%d" % n]) if r.random() < 0.5 else "inc%d.cfg" % n
        path = os.path.join(d, base) if d else base
        how = r.choice(["abs", "cwd", "rel", "rel"])
        if how == "rel":
            if parent is None or parent.get("loc") != "file":
                how = "abs"
            elif not os.path.dirname(parent["path"]):
                how = "cwd"
            else:
                pd = os.path.dirname(parent["path"])
                rel = os.path.relpath(path, pd)
                if os.path.normpath(rel) == os.path.normpath(path):
                    how = "cwd"
                else:
                    # decoys in every other directory the name could be tried in
                    for dd in self.dirs:
                        if dd and dd != pd:
                            p = os.path.normpath(os.path.join(dd, rel))
                            if not p.startswith("..") and p != path:
                                self.decoys[p] = 1
        if how == "cwd" and parent is not None and parent.get("loc") == "file" and os.path.dirname(parent["path"]) \
                and r.random() < 0.5:
            p = os.path.normpath(os.path.join(os.path.dirname(parent["path"]), path))
            if p != path:
                self.decoys[p] = 1
        return {"loc": "file", "path": path}, how

    def section_items(self, kind, depth, doc, n=None):
        r = self.rng
        out = []
        for _ in range(r.randint(0, 5) if n is None else n):
            if depth > 0 and self.left > 0 and r.random() < self.o.get("inc_in_sec", 0.15):
                out.append(self.include(doc, depth, kind))
            elif kind == "%packages":
                out.append(["l", package_line(r, self.v, self.o.get("badpkg", 0.0))])
            else:
                out.append(["l", script_line(r)])
        return out

    def section(self, depth, doc):
        r = self.rng
        x = r.random()
        if self.custom and x < 0.4:
            name = r.choice(self.custom)
            args = r.choice([[], ["--opt=1"], ["word", "--x"]])
        elif x < 0.6:
            name = r.choice(SCRIPTS)
            args = script_header(r, name)
        elif x < 0.85:
            name = "%packages"
            args = package_header(r, self.v)
        elif not self.o.get("nulls", True):
            name = r.choice(SCRIPTS)
            args = script_header(r, name)
        elif x < 0.95 or not self.o.get("unknown", False):
            name = r.choice(["%addon", "%anaconda"])
            args = r.choice([[], ["org_fedora_oscap"], ["com_redhat_kdump", "--enable", "--reserve-mb=128"],
                             ["org_x", "--name=two words", "a # b"], ["org_y", "it's", "say \"hi\"", ""]])
        else:
            name = r.choice(["%com_example", "%future-section"])
            args = r.choice([[], ["--a", "b"], ["--a", "b c", "#d"]])
        if r.random() < self.o.get("badhdr", 0.0) and name in SCRIPTS + ["%packages"]:
            bad = ["--no-such-option"]
            if name == "%packages" and at_least(self.v, "RHEL6") and not at_least(self.v, "F22"):
                bad = r.choice([bad, ["--default", "--nobase"]])
            elif name == "%packages" and at_least(self.v, "F22"):
                bad = r.choice([bad, ["--default", "--nocore"]])
            args = args + [a for a in bad if a not in args]
        if r.random() < self.o.get("big", 0.02):
            items = [["l", "line %d %s" % (i, "y" * 60)] for i in range(r.randint(200, 700))] if name != "%packages" else \
                [["l", "pkg%d" % i] for i in range(r.randint(200, 700))]
        else:
            items = self.section_items(name, depth, doc)
        return ["sec", name, args, items, True]

    def include(self, doc, depth, kind=None):
        self.left -= 1
        done = self.done.get(kind)
        if done and self.rng.random() < 0.15:
            # the same document once more
            return ["inc", self.rng.choice(done), "abs", self.rng.randint(0, 50)]
        loc, how = self.location(doc)
        did = "D%d" % (len(self.docs) + 1)
        self.docs[did] = d = dict(loc, nodes=[])
        d["insec"] = kind is not None
        if kind is not None:
            d["nodes"] = self.section_items(kind, depth - 1, d, self.rng.randint(0, 4))
            while d["nodes"] and d["nodes"][0][0] == "l" and not d["nodes"][0][1].strip():
                d["nodes"].pop(0)
        else:
            d["nodes"] = self.nodes(depth - 1, d, self.rng.randint(0, 6))
            if self.rng.random() < 0.15:
                d["nonl"] = True
        self.done.setdefault(kind, []).append(did)
        return ["inc", did, how, self.rng.randint(0, 50)]

    def nodes(self, depth, doc, n):
        r = self.rng
        out = []
        for _ in range(n):
            x = r.random()
            if x < self.o.get("p_inc", 0.2) and depth > 0 and self.left > 0:
                out.append(self.include(doc, depth))
            elif x < 0.45:
                out.append(self.section(depth, doc))
            elif x < 0.52:
                out.append(["raw", r.choice(["", "   ", "# a comment", "   # indented", "#version=DEVEL", "\t", "# it's", "# a\x0crootpw b", "# \u2028lang xx_XX",
                                          "\x0c", "\u2028", "\x85 # odd"])])
            elif x < 0.55:
                out.append(["plat", r.choice(["x86_64", "IBM Z", "arm, v7"])])
            else:
                a = self.cmds.next()
                if self.cmds.unused is None and r.random() < 0.02:
                    a = ["rootpw", r.choice(["a\x0cb", "a\u2028lang de", "p\x85"])]
                if a is not None:
                    out.append(["cmd", a, r.randint(0, 400)])
        return out

    def tree(self, n=None, depth=None, top=None):
        r = self.rng
        depth = r.randint(0, self.o.get("depth", 3)) if depth is None else depth
        if top is None:
            top = {"loc": "file", "path": r.choice(["ks.cfg", "d1/ks.cfg", "d1/sub/ks.cfg"])}
        doc = dict(top, nodes=[], insec=False)
        self.docs["D0"] = doc
        doc["nodes"] = self.nodes(depth, doc, r.randint(2, 10) if n is None else n)
        if self.o.get("crlf", True):
            for d in self.docs.values():
                if r.random() < 0.05:
                    d["eol"] = "\r\n"
        # decoys must not shadow real documents
        used = {d["path"] for d in self.docs.values() if d["loc"] == "file"}
        self.decoys = {p: 1 for p in self.decoys if p not in used and
                       not any(u.startswith(p + "/") or p.startswith(u + "/") for u in used)}
        # a decoy found "as given" would be the right file: drop those
        given = set()
        for did, dd in self.docs.items():
            for how, target in includes_of(dd["nodes"]):
                if how in ("rel", "cwd"):
                    t = self.docs[target]
                    if t["loc"] == "file":
                        given.add(os.path.normpath(ref_text(dd, t, how, "")))
        self.decoys = {p: 1 for p in self.decoys if p not in given}
        # "as given" also applies to the real documents
        for did, dd in self.docs.items():
            self._fix_hows(dd, dd["nodes"], used)
        return {"version": self.v, "docs": self.docs, "top": "D0", "hosts": self.hosts, "decoys": self.decoys}

    def _fix_hows(self, doc, nodes, used):
        for n in nodes:
            if n[0] == "inc" and n[2] == "rel":
                t = self.docs[n[1]]
                rel = os.path.normpath(ref_text(doc, t, "rel", ""))
                if rel in used and rel != t["path"]:
                    n[2] = "abs"
            elif n[0] == "sec":
                self._fix_hows(doc, n[3], used)


def includes_of(nodes):
    for n in nodes:
        if n[0] in ("inc", "app"):
            yield n[2], n[1]
        elif n[0] == "sec":
            for x in includes_of(n[3]):
                yield x


def ref_text(doc, target, how, root):
    if target["loc"] == "url":
        return target["url"]
    if how == "abs" or doc.get("loc") != "file" and how == "rel":
        return os.path.join(root, target["path"])
    if how == "cwd":
        return target["path"]
    return os.path.relpath(target["path"], os.path.dirname(doc["path"]) or ".")


def benign_behaviour(rng):
    b = {}
    b["ctype"] = rng.choice(["text/plain", "text/plain; charset=utf-8", None, "application/octet-stream",
                             "text/plain;charset=\"UTF-8\""])
    b["framing"] = rng.choice(["length", "length", "chunked", "close"])
    if b["framing"] == "chunked":
        b["chunk"] = rng.choice([1, 3, 17, 64, 1000])
    if rng.random() < 0.2:
        b["gzip"] = True
    if rng.random() < 0.4:
        b["seg"] = rng.choice([1, 2, 5, 13, 100])
        if rng.random() < 0.5:
            b["gap"] = rng.choice([0.01, 0.5, 5])
            if b["seg"] < 13:
                b["gap"] = 0.02
    if rng.random() < 0.2:
        b["hdr_gap"] = rng.choice([0.1, 3, 15])
    return b


# locations that nothing can be fetched from
ASTRAY = ["http://" + "a" * 70 + ".example/", "http://[::1", "ftp://h1.example/x", "file:///etc/hostname", "http://h1.example:99999/x",
          "http://%zz/", "http://a b/", "http://.x/", "http://h1.example:abc/", "http://nowhere.invalid/x", "https://nowhere.invalid/x"]


def failing_behaviour(rng, b=None):
    """A behaviour of one url that makes every fetch of it fail."""
    b = dict(b or benign_behaviour(rng))
    k = rng.choice(["status", "status", "head", "body", "body", "body", "garbage", "gzip", "stall", "loop", "odd", "astray"])
    if k == "status":
        b["status"] = rng.choice([204, 400, 401, 403, 404, 410, 429, 500, 502, 503, 504, 206])
    elif k == "head":
        b["fault"] = {"at": "head", "kind": rng.choice(["eof", "reset"]), "frac": rng.random()}
    elif k == "body":
        if b["framing"] == "close":
            b["framing"] = "length"
        b["fault"] = {"at": "body", "kind": rng.choice(["eof", "reset"]), "frac": rng.random()}
    elif k == "garbage":
        b["fault"] = {"at": "head", "kind": "garbage"}
    elif k == "odd":
        b["fault"] = {"at": "head", "kind": rng.choice(["manyhdr", "longhdr", "badstatus", "http09", "badchunk"])}
    elif k == "astray":
        b["status"] = rng.choice([301, 302, 303, 307, 308])
        b["redirect"] = rng.choice(ASTRAY)
    elif k == "gzip":
        b["gzip"] = "corrupt"
        b["gzfrac"] = rng.random()
    elif k == "stall":
        b["fault"] = {"at": rng.choice(["head", "body"]), "kind": "stall", "frac": rng.random()}
        if b["framing"] == "close":
            b["framing"] = "length"
    elif k == "loop":
        b["status"] = rng.choice([301, 302, 303, 307, 308])
        b["redirect"] = "@self"
    return b


FILE_FAULTS = [
    {"cls": "open_r", "kind": "EACCES", "always": True}, {"cls": "open_r", "kind": "EIO", "always": True},
    {"cls": "open_r", "kind": "EMFILE", "always": True}, {"cls": "open_r", "kind": "vanish", "always": True},
    {"cls": "read", "kind": "EIO", "always": True}, {"cls": "read", "kind": "ESTALE", "always": True},
    {"cls": "stat", "kind": "vanish", "always": True},
]


BROKEN = [("lang 'unbalanced", "value"), ("%include", "parse"), ("keyboard \"us", "value"), ("%include  # nothing", "parse"),
          ("%post --log='x", "value"), ("'", "value")]


def break_line(rng, sc, docs):
    """Put a line that cannot be split, or a directive without its argument, into one of the documents."""
    docs = [d for d in docs if not sc["docs"][d]["insec"]]
    if docs:
        ns = sc["docs"][rng.choice(docs)]["nodes"]
        ns.insert(rng.randint(0, len(ns)), ["txt", *rng.choice(BROKEN)])


def fail_doc(rng, d, hosts, cycle=False):
    """Make loading a document fail for good; records how in d["fail"]."""
    if cycle and d["loc"] == "file" and rng.random() < 0.1:
        # it includes itself
        d["fail"] = "cycle"
    elif d["loc"] == "url":
        d["beh"] = failing_behaviour(rng, d["beh"])
        d["fail"] = "net"
    else:
        k = rng.choice(["missing", "dir", "badutf8", "fault", "fault", "fault", "midread", "midread"])
        if k == "fault":
            d["rule"] = dict(rng.choice(FILE_FAULTS))
        elif k == "midread":
            d["frac"] = rng.random()
        d["fail"] = k
