"""The reference model of reading a kickstart tree, and the real execution it is
compared with.

A document is a list of nodes:
  ["cmd", args, style]                a command line
  ["raw", text] / ["plat", value]     blank or comment / #platform= comment
  ["inc", doc, how, style]            %include
  ["app", doc, how]                   %ksappend (only where preprocessing is used)
  ["txt", text, kind]                 a line that cannot be split, or a malformed directive
  ["sec", name, args, items, term]    a section; items are ["l", text] and
                                      ["inc", ...]; term: written with %end
Documents included into a section (insec) consist of items.

The model walks this structure; it never parses text.  Commands are applied to a
handler of its own through the dispatcher, in a separate process."""
import os
import sys
import warnings

from vsim import dump, gen, net as simnet


# ------------------------------------------------------------------ text

def lines_of(doc, docs, root):
    out = []

    def items(ns):
        for n in ns:
            if n[0] == "l":
                out.append(n[1])
            else:
                out.append(directive(n))

    def directive(n):
        t = gen.ref_text(doc, docs[n[1]], n[2], root)
        word = "%include" if n[0] == "inc" else "%ksappend"
        if n[0] == "app":
            return word + " " + t
        style = n[3] if len(n) > 3 else 0
        if gen.SAFE.match(t) and style % 3:
            q = t
        else:
            q = '"' + t + '"'
        return (("  " if style % 7 == 2 else "") + word + (" " if style % 4 else "\t") + q
                + ("  # see there" if style % 5 == 4 else ""))
    if doc.get("insec"):
        items(doc["nodes"])
        return out
    for n in doc["nodes"]:
        k = n[0]
        if k == "cmd":
            out.append(gen.render_args(n[1], n[2]))
        elif k == "raw":
            out.append(n[1])
        elif k == "txt":
            out.append(n[1])
        elif k == "plat":
            out.append("#platform=" + n[1])
        elif k in ("inc", "app"):
            out.append(directive(n))
        elif k == "sec":
            out.append(" ".join([n[1]] + [gen.quote(a) for a in n[2]]))
            items(n[3])
            if n[4]:
                out.append("%end")
    return out


def text_of(doc, docs, root):
    ls = lines_of(doc, docs, root)
    eol = doc.get("eol", "\n")
    s = eol.join(ls) + (eol if ls else "")
    if doc.get("nonl") and s.endswith(eol):
        s = s[:-len(eol)]
    return s


def materialise(sc, w, net=None):
    """Put the documents of a scenario into the world."""
    docs = sc["docs"]
    urls = {}
    for did, d in docs.items():
        text = text_of(d, docs, w.root)
        if d["loc"] == "url":
            b = dict(d.get("beh") or {})
            b["body"] = text
            if b.get("redirect") == "@self":
                b["redirect"] = d["url"]
            urls[d["url"]] = b
        elif d["loc"] == "file":
            fail = d.get("fail")
            if fail == "missing":
                continue
            if fail == "dir":
                os.makedirs(w.abs(d["path"]), exist_ok=True)
                continue
            if fail == "cycle":
                text = '%include "' + w.abs(d["path"]) + '"\n'
            data = text.encode("utf-8", "surrogateescape")
            if fail == "badutf8":
                data += b"# \xff\xfe\xc3\x28\n"
            w.put(d["path"], data)
            if fail == "fault":
                w.rules.append(dict(d["rule"], path=d["path"]))
            elif fail == "midread":
                w.bad_at[d["path"]] = int(len(data) * d.get("frac", 0.5))
    for p in sc.get("decoys", {}):
        if w.get(p) is None and not os.path.isdir(w.abs(p)):
            try:
                w.put(p, "decoycommand --from-the-wrong-file\n")
            except OSError:
                pass
    if net is not None:
        net.urls.update(urls)
        net.hosts.update(sc.get("hosts", {}))


def doc_fails(d, hosts, verify=True, vanished=()):
    """Does every load of this document fail?"""
    if d["loc"] == "url":
        host = d["url"].split("/")[2]
        return bool(simnet.fails(d.get("beh") or {}, hosts.get(host, {}), verify))
    f = d.get("fail")
    if f is None:
        return False
    if f == "cycle":
        return f
    if f == "fault" and d["rule"]["kind"] == "vanish" and d["rule"]["cls"] == "stat":
        return d["path"] in vanished
    return True


def vanished_in(w):
    return sorted({f["path"] for f in w.fired if f["kind"] == "vanish"})


# ------------------------------------------------------------------ packages

class Pkgs:
    def __init__(self, p):
        self.pk = list(p.packageList)
        self.ex = list(p.excludedList)
        self.gr = [[g.name, g.include] for g in p.groupList]
        self.exg = [[g.name, g.include] for g in p.excludedGroupList]
        self.env = p.environment

    def line(self, text):
        from pykickstart import constants as c
        s = text.split("#")[0].strip()
        if s.startswith("@^"):
            self.env = s[2:]
            self.exg = [g for g in self.exg if g[0] != "^" + s[2:]]
        elif s.startswith("@"):
            words = s[1:].split()
            inc = c.GROUP_DEFAULT
            if "--nodefaults" in words:
                inc = c.GROUP_REQUIRED
            if "--optional" in words:
                inc = c.GROUP_ALL
            name = " ".join(x for x in words if x not in ("--nodefaults", "--optional"))
            if name not in [g[0] for g in self.gr]:
                self.gr.append([name, inc])
            self.exg = [g for g in self.exg if g[0] != name]
        elif s.startswith("-@^") and self.env == s[3:]:
            self.env = None
        elif s.startswith("-@"):
            name = s[2:]
            self.gr = [g for g in self.gr if g[0] != name]
            self.exg.append([name, c.GROUP_DEFAULT])
        elif s.startswith("-"):
            n = s[1:]
            self.pk = [x for x in self.pk if x != n]
            if n not in self.ex:
                self.ex.append(n)
        else:
            self.ex = [x for x in self.ex if x != s]
            if s not in self.pk:
                self.pk.append(s)

    def merge(self, d):
        d = dict(d)
        d["packageList"] = sorted(self.pk)
        d["excludedList"] = sorted(self.ex)
        d["groupList"] = sorted(self.gr)
        d["excludedGroupList"] = sorted(self.exg)
        d["environment"] = self.env
        return d


def sort_packages(d):
    d = dict(d)
    for k in ("groupList", "excludedGroupList", "packageList", "excludedList"):
        if k in d:
            d[k] = sorted(d[k])
    return d


# ------------------------------------------------------------------ the model

class Stop(Exception):
    """The read ends with an error."""

    def __init__(self, kind, lineno=None, ks=True):
        Exception.__init__(self, kind)
        self.kind, self.lineno, self.ks = kind, lineno, ks


DEFAULTS = {"followIncludes": True, "errorsAreFatal": True, "missingIncludeIsFatal": True,
            "unknownSectionIsFatal": True}


class Model:
    def __init__(self, sc, handler, fails, settings=None, custom=None, wanterr=False):
        from pykickstart import constants, sections
        self.sc = sc
        self.docs = sc["docs"]
        self.h = handler
        self.accepted = []
        self.pre8 = sc["version"] in gen.PRE_F8
        self.fails = fails              # doc id -> bool
        self.set = dict(DEFAULTS, **(settings or {}))
        self.custom = custom or {}      # name -> allLines
        self.wanterr = wanterr          # warnings are errors
        self.events = []
        self.scripts = []
        self.nulls = []
        self.platform = handler.platform
        self.errors = 0
        self.stderr = []
        self.pk = Pkgs(handler.packages)
        self.registered = set(gen.SCRIPTS) | {"%packages", "%addon", "%anaconda"} | set(self.custom)
        self.fetched = []
        self.warned = 0
        self.types = {"%pre": constants.KS_SCRIPT_PRE, "%post": constants.KS_SCRIPT_POST,
                      "%pre-install": constants.KS_SCRIPT_PREINSTALL, "%traceback": constants.KS_SCRIPT_TRACEBACK,
                      "%onerror": constants.KS_SCRIPT_ONERROR}
        self.cls = {"%pre": sections.PreScriptSection, "%post": sections.PostScriptSection,
                    "%pre-install": sections.PreInstallScriptSection, "%traceback": sections.TracebackScriptSection,
                    "%onerror": sections.OnErrorScriptSection, "%packages": sections.PackageSection}

    # one command or header: accepted, or counted, or fatal
    def attempt(self, fn, lineno):
        from pykickstart.errors import KickstartError
        try:
            fn()
        except Exception as e:
            self.errors += 1
            if self.set["errorsAreFatal"]:
                raise Stop(type(e).__name__, getattr(e, "lineno", None) if isinstance(e, KickstartError) else None,
                           isinstance(e, KickstartError))
            self.stderr.append([lineno, str(e), isinstance(e, KickstartError)])

    def dispatch(self, args, lineno, line):
        """Apply a command.  A rejected one must leave nothing behind, so the
        commands are then built anew from the accepted ones."""
        self.h.currentLine = line
        try:
            self.h.dispatcher(list(args), lineno)
        except BaseException:
            self.rebuild()
            raise
        self.accepted.append([list(args), lineno, line])

    def pkgheader(self, name, lineno, full):
        """A rejected header must leave nothing behind."""
        saved = dict(vars(self.h.packages))
        try:
            self.cls[name](self.h).handleHeader(lineno, full)
        except BaseException:
            vars(self.h.packages).clear()
            vars(self.h.packages).update(saved)
            raise

    def pkgline(self, text, lineno):
        from pykickstart.errors import KickstartParseError
        words = text.split("#")[0].split()
        if words[0][0] == "@" and words[0][:2] != "@^" and "--nodefaults" in words and "--optional" in words:
            try:
                type(self.h.packages)().add([text])
                msg = "?"
            except KickstartParseError as e:
                msg = e.message
            raise KickstartParseError(msg, lineno=lineno)
        self.pk.line(text)

    def rebuild(self):
        from pykickstart.version import makeVersion
        h = makeVersion(self.sc["version"])
        for args, lineno, line in self.accepted:
            h.currentLine = line
            h.dispatcher(list(args), lineno)
        h.packages = self.h.packages
        self.h = h

    def read(self, top):
        """Returns the outcome: ["ok"] or ["raise", type, lineno]."""
        try:
            if self.fails.get(top):
                raise Stop("KickstartError", 0)
            self.doc(top, 0)
            return ["ok"]
        except Stop as s:
            return ["raise", s.kind, s.lineno]

    def include(self, node, sink):
        if not self.set["followIncludes"]:
            return
        did = node[1]
        self.fetched.append(did)
        try:
            if self.fails.get(did) == "cycle":
                raise Stop("RecursionError", None, ks=False)
            if self.fails.get(did):
                raise Stop("KickstartError", 0)
            d = self.docs[did]
            if sink is not None:
                self.items(d, d["nodes"], 0, sink)
            else:
                self.doc(did, 1)
        except Stop as s:
            if not s.ks or self.set["missingIncludeIsFatal"]:
                raise

    def items(self, doc, ns, lineno, sink):
        eol = doc.get("eol", "\n")
        for n in ns:
            lineno += 1
            if n[0] == "l":
                sink(n[1], eol, lineno)
            else:
                self.include(n, sink)
        return lineno

    def doc(self, did, depth):
        d = self.docs[did]
        lineno = 0
        nodes = list(d["nodes"])
        i = -1
        while i + 1 < len(nodes):
            i += 1
            n = nodes[i]
            k = n[0]
            lineno += 1
            if k == "raw":
                pass
            elif k == "plat":
                self.platform = n[1].strip()
            elif k == "txt":
                if n[2] == "value":
                    raise Stop("ValueError", None, ks=False)
                raise Stop("KickstartParseError", lineno)
            elif k == "app":
                pass                    # handled by the preprocessor
            elif k == "cmd":
                line = gen.render_args(n[1], n[2])
                self.events.append(["cmd", lineno, list(n[1])])

                def run(n=n, lineno=lineno, line=line):
                    self.dispatch(n[1], lineno, line)
                self.attempt(run, lineno)
            elif k == "inc":
                self.include(n, None)
            elif k == "sec":
                lineno = self.section(d, n, lineno, depth, nodes[i + 1] if i + 1 < len(nodes) else None)

    def section(self, d, n, lineno, depth, nxt):
        from pykickstart.base import BaseHandler
        name, args, items, term = n[1], n[2], n[3], n[4]
        first = lineno
        full = [name] + list(args)
        if name not in self.registered:
            if self.set["unknownSectionIsFatal"]:
                raise Stop("KickstartParseError", lineno)
            self.warned += 1
            if self.wanterr:
                raise Stop("KickstartParseWarning", None, ks=False)
            self.registered.add(name)
        body = []
        if name in self.custom:
            self.events.append(["hdr", name, lineno, full])
            all_lines = self.custom[name]

            def sink(t, eol, no):
                if all_lines or (t.strip() and not t.lstrip().startswith("#")):
                    self.events.append(["line", name, t + eol])
        elif name == "%packages":
            self.events.append(["hdr", name, lineno, full])
            self.attempt(lambda: self.pkgheader(name, lineno, full), lineno)

            def sink(t, eol, no):
                if t.strip() and not t.lstrip().startswith("#"):
                    self.events.append(["line", name, t + eol])
                    self.attempt(lambda: self.pkgline(t, no), no)
        else:
            self.events.append(["hdr", name, lineno, full])
            opts = gen.parse_script_header(name, [])
            no = lineno
            if name in self.types:
                bad = []

                def hdr():
                    try:
                        self.cls[name](self.h).handleHeader(lineno, full)
                    except Exception:
                        bad.append(1)
                        raise
                self.attempt(hdr, lineno)
                if bad:
                    no = None
                else:
                    opts = gen.parse_script_header(name, args)

            def sink(t, eol, _):
                body.append(t + eol)
                self.events.append(["line", name, t + eol])
        lineno = self.items(d, items, lineno, sink)
        if not term:
            # never closed: an error from F8 on; before, it ends here
            if not self.pre8:
                raise Stop("KickstartParseError", None)
        else:
            lineno += 1
        self.events.append(["fin", name])
        if name in self.types:
            if "".join(body).strip():
                self.scripts.append({"type": self.types[name], "interp": opts["interp"], "chroot": opts["chroot"],
                                     "log": opts["log"], "eof": opts["eof"], "body": "".join(body), "lineno": no})
        elif name not in self.custom and name != "%packages":
            self.nulls.append([full, "".join(body)])
        return lineno

    def result(self, outcome):
        return {"outcome": outcome, "events": self.events,
                "commands": dump.commands(self.h), "scripts": self.scripts,
                "packages": self.pk.merge(sort_packages(dump.packages(self.h))), "platform": self.platform,
                "nulls": self.nulls, "errors": self.errors, "stderr": self.stderr}


def expected(sc, fails, settings=None, custom=None, wanterr=False, nodes=None):
    """Run the model in this process (call it through core.oracle)."""
    from pykickstart.version import makeVersion
    warnings.resetwarnings()
    warnings.simplefilter("ignore")
    if wanterr:
        from pykickstart.errors import KickstartParseWarning
        warnings.filterwarnings("error", category=KickstartParseWarning)
    m = Model(sc, makeVersion(sc["version"]), fails, settings, custom, wanterr)
    return m.result(m.read(sc["top"])), m


# ------------------------------------------------------------------ the real thing

def recording(events, custom=None, builtin=True):
    """A parser class that records, through the public interface, what it is
    given to handle."""
    from pykickstart.parser import KickstartParser, Script
    from pykickstart import sections as S

    class RecParser(KickstartParser):
        def handleCommand(self, lineno, args):
            events.append(["cmd", lineno, list(args)])
            return KickstartParser.handleCommand(self, lineno, args)

    def rec(base, name):
        class Rec(base):
            sectionOpen = name

            def handleHeader(self, lineno, args):
                events.append(["hdr", name, lineno, list(args)])
                base.handleHeader(self, lineno, args)

            def handleLine(self, line):
                events.append(["line", name, line])
                base.handleLine(self, line)

            def finalize(self):
                events.append(["fin", name])
                base.finalize(self)
        return Rec

    def add(p):
        if builtin:
            for name, base in (("%pre", S.PreScriptSection), ("%post", S.PostScriptSection),
                               ("%pre-install", S.PreInstallScriptSection),
                               ("%traceback", S.TracebackScriptSection), ("%onerror", S.OnErrorScriptSection)):
                p.registerSection(rec(base, name)(p.handler, dataObj=Script))
            p.registerSection(rec(S.PackageSection, "%packages")(p.handler))
            for name in ("%addon", "%anaconda"):
                p.registerSection(rec(S.NullSection, name)(p.handler, sectionOpen=name))
        for name, all_lines in (custom or {}).items():
            c = rec(S.Section, name)
            c.allLines = all_lines
            p.registerSection(c(p.handler))
        return p
    return RecParser, add


def outcome_of(fn, extra=()):
    """Run fn; ["ok"] or ["raise", type, lineno, ks?]."""
    from pykickstart.errors import KickstartError
    try:
        fn()
        return ["ok"]
    except Exception as e:
        ks = isinstance(e, KickstartError)
        return ["raise", type(e).__name__, getattr(e, "lineno", None) if ks else None, ks, str(e)]
    except simnet.SimHang as e:
        return ["hang", str(e)]


def observe(handler):
    d = dump.handler(handler)
    d["packages"] = sort_packages(d["packages"])
    try:
        d["nulls"] = dump.null_sections(str(handler))
    except Exception as e:
        d["nulls"] = "str: %s: %s" % (type(e).__name__, e)
    return d


def compare(exp, got, what=("events", "commands", "scripts", "packages", "platform", "nulls", "errors")):
    """A list of (class, text) for everything that differs."""
    out = []
    for k in what:
        if exp[k] != got[k]:
            out.append((k, "; ".join(dump.diff(exp[k], got[k], k))))
    return out


def same_outcome(exp, got):
    """The model's outcome against the real one."""
    if exp[0] != got[0]:
        return False
    if exp[0] == "ok":
        return True
    if exp[1] != got[1]:
        return False
    return exp[2] is None or exp[2] == got[2]
