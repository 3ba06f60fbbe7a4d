From 3ba6b59a224d3dfaaa0e04cbebfca7d7f48d3291 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 15:45:49 +0000
Subject: [PATCH 01/47] fix: raise KickstartError for a local kickstart that is
 not valid UTF-8

load_to_str let a UnicodeDecodeError escape, which no caller handles.
---
 pykickstart/load.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykickstart/load.py b/pykickstart/load.py
index fb935f2..b705115 100644
--- a/pykickstart/load.py
+++ b/pykickstart/load.py
@@ -95,7 +95,7 @@ def _load_file(filename):
         else:
             with open(filename, 'r') as fh:
                 contents = fh.read()
-    except IOError as e:
+    except (IOError, UnicodeError) as e:
         raise KickstartError(_('Error opening file: %s') % str(e))
 
     return contents
-- 
2.43.0


From 56f47bdbc19985e235c2f59fc19452bd89cec389 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 15:45:49 +0000
Subject: [PATCH 02/47] fix: do not alter the text of remote kickstarts while
 decoding them

Without a charset in the response, requests decodes text as ISO-8859-1 (or
guesses), and it replaces what it cannot decode.  A UTF-8 kickstart came out
different from the same file on disk.
---
 pykickstart/load.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pykickstart/load.py b/pykickstart/load.py
index b705115..715562d 100644
--- a/pykickstart/load.py
+++ b/pykickstart/load.py
@@ -83,7 +83,16 @@ def _load_url(location):
     if request.status_code != requests.codes.ok:        # pylint: disable=no-member
         raise KickstartError(_('Error accessing URL "%s"') % location + ': {c}'.format(c=str(request.status_code)))
 
-    return request.text
+    # Like local files, remote ones are UTF-8 unless the server says otherwise.
+    # Do not let requests guess the encoding or replace undecodable characters.
+    encoding = None
+    if "charset=" in request.headers.get("content-type", "").lower():
+        encoding = request.encoding
+
+    try:
+        return request.content.decode(encoding or "utf-8")
+    except (LookupError, UnicodeError) as e:
+        raise KickstartError(_('Error accessing URL "%s"') % location + ': {e}'.format(e=str(e)))
 
 def _load_file(filename):
     '''Load a file's contents and return them as a string'''
-- 
2.43.0


From dd9c6c835a89e428faf74d22b1645eea951ba0b8 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 15:45:49 +0000
Subject: [PATCH 03/47] fix: do not wait forever for a server that stops
 answering

requests has no default timeout.
---
 pykickstart/load.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pykickstart/load.py b/pykickstart/load.py
index 715562d..057ec00 100644
--- a/pykickstart/load.py
+++ b/pykickstart/load.py
@@ -29,6 +29,9 @@ _is_url = lambda location: '://' in location  # RFC 3986
 
 SSL_VERIFY = True
 
+# How many seconds to wait for a server that does not answer.
+TIMEOUT = 60
+
 def load_to_str(location):
     '''Load a destination URL or file into a string.
     Type of input is inferred automatically.
@@ -74,7 +77,7 @@ def _load_url(location):
     '''Load a location (URL or filename) and return contents as string'''
 
     try:
-        request = requests.get(location, verify=SSL_VERIFY)
+        request = requests.get(location, verify=SSL_VERIFY, timeout=TIMEOUT)
     except SSLError as e:
         raise KickstartError(_('Error securely accessing URL "%s"') % location + ': {e}'.format(e=str(e)))
     except RequestException as e:
-- 
2.43.0


From 3f482795027559fe5c9c05b3ad6278ec12b8e264 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 15:45:49 +0000
Subject: [PATCH 04/47] fix: write preprocessed kickstarts completely or not at
 all

os.write may write less than it is given, which silently truncated the file,
and a failing write left both the descriptor and the temporary file behind.
---
 pykickstart/parser.py | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/pykickstart/parser.py b/pykickstart/parser.py
index afabb11..a4d37a3 100644
--- a/pykickstart/parser.py
+++ b/pykickstart/parser.py
@@ -105,6 +105,20 @@ def _preprocessStateMachine(lineIter):
 
     return retval
 
+def _writeTempFile(s):
+    """Write s to a new temporary file completely, or leave no file behind."""
+    import tempfile
+    (outF, outName) = tempfile.mkstemp(suffix="-ks.cfg")
+
+    try:
+        with os.fdopen(outF, "wb") as f:
+            f.write(s)
+    except:
+        os.remove(outName)
+        raise
+
+    return outName
+
 def preprocessFromStringToString(s):
     """Preprocess the kickstart file, provided as the string s.  This
        method is currently only useful for handling %ksappend lines, which
@@ -135,12 +149,7 @@ def preprocessFromString(s):
     """
     s = preprocessFromStringToString(s)
     if s:
-        import tempfile
-        (outF, outName) = tempfile.mkstemp(suffix="-ks.cfg")
-
-        os.write(outF, s)
-        os.close(outF)
-        return outName
+        return _writeTempFile(s)
 
     return None
 
@@ -152,12 +161,7 @@ def preprocessKickstart(f):
     """
     s = preprocessKickstartToString(f)
     if s:
-        import tempfile
-        (outF, outName) = tempfile.mkstemp(suffix="-ks.cfg")
-
-        os.write(outF, s)
-        os.close(outF)
-        return outName
+        return _writeTempFile(s)
 
     return None
 
-- 
2.43.0


From 1ff99c87217cd35ebe897da29343c5ebe16cd4f4 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 15:45:50 +0000
Subject: [PATCH 05/47] fix: keep the line after %ksappend separate from what
 was appended

An appended file without a newline at its end was glued to the next line.
Also accept any white space between the directive and the location.
---
 pykickstart/parser.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pykickstart/parser.py b/pykickstart/parser.py
index a4d37a3..3266baf 100644
--- a/pykickstart/parser.py
+++ b/pykickstart/parser.py
@@ -88,7 +88,7 @@ def _preprocessStateMachine(lineIter):
 
         # Try to pull down the remote file.
         try:
-            ksurl = ll.split(' ')[1]
+            ksurl = ll.split()[1]
         except:
             raise KickstartParseError(_("Illegal url for %%ksappend: %s") % ll, lineno=lineno)
 
@@ -101,6 +101,10 @@ def _preprocessStateMachine(lineIter):
         # file in one burst.  This allows multiple %ksappend lines to
         # exist.
         if contents is not None:
+            # The directive is a line of its own, so what follows it is too.
+            if contents and not contents.endswith("\n") and l.endswith("\n"):
+                contents += "\n"
+
             retval += contents.encode(sys.getdefaultencoding())
 
     return retval
-- 
2.43.0


From a1c5e93fb24b1d70a01b58d4879146688f7026ba Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 15:45:50 +0000
Subject: [PATCH 06/47] fix: do not carry lines and options of an unfinished
 section over to the next

When reading a section fails, or a script has only blank lines, its lines (and
options) ended up in the next section of the same kind.
---
 pykickstart/sections.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pykickstart/sections.py b/pykickstart/sections.py
index 12cd900..7e3ae8c 100644
--- a/pykickstart/sections.py
+++ b/pykickstart/sections.py
@@ -128,6 +128,7 @@ class NullSection(Section):
 
     def handleHeader(self, lineno, args):
         self._args = args
+        self._body = []
 
     def handleLine(self, line):
         self._body.append(line)
@@ -208,6 +209,9 @@ class ScriptSection(Section):
            This method may be overridden in a subclass if necessary.
         """
         Section.handleHeader(self, lineno, args)
+
+        # Drop what is left of a section that was not finished.
+        self._resetScript()
         op = self._getParser()
 
         ns = op.parse_args(args=args[1:], lineno=lineno)
-- 
2.43.0


From 8f2d44f592a241126aa5efe82d18a20ea7b9cba8 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 15:45:50 +0000
Subject: [PATCH 07/47] fix: write preserved unknown sections as they were read

The lines already have newlines, so joining them with another one doubled the
spacing, and two sections following each other were written as %end%addon.
---
 pykickstart/sections.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pykickstart/sections.py b/pykickstart/sections.py
index 7e3ae8c..4d6598a 100644
--- a/pykickstart/sections.py
+++ b/pykickstart/sections.py
@@ -134,11 +134,11 @@ class NullSection(Section):
         self._body.append(line)
 
     def finalize(self):
-        body = "\n".join(self._body)
-        if body:
-            s = "%s\n%s\n%%end" % (" ".join(self._args), body)
-        else:
-            s = "%s\n%%end" % " ".join(self._args)
+        body = "".join(self._body)
+        if body and not body.endswith("\n"):
+            body += "\n"
+
+        s = "%s\n%s%%end\n" % (" ".join(self._args), body)
 
         self.handler._null_section_strings.append(s)
 
-- 
2.43.0


From 140a1c6425bea7a38a8b69edbb6412cf433376eb Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 15:45:50 +0000
Subject: [PATCH 08/47] fix: forget the directory of the previous kickstart
 when starting a new one

Includes of a kickstart read from a string were looked up next to a file that
the same parser had read before.
---
 pykickstart/parser.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pykickstart/parser.py b/pykickstart/parser.py
index 3266baf..ea73e57 100644
--- a/pykickstart/parser.py
+++ b/pykickstart/parser.py
@@ -576,6 +576,7 @@ class KickstartParser(object):
         """Reset the internal variables of the state machine for a new kickstart file."""
         self._state = STATE_COMMANDS
         self._includeDepth = 0
+        self.currentdir = {}
 
     def getSection(self, s):
         """Return a reference to the requested section (s must start with '%'s),
-- 
2.43.0


From 51ea9f7beafd69037f7fb71b605e33b3d3e911b9 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 15:45:50 +0000
Subject: [PATCH 09/47] fix: write scripts and packages in the syntax of their
 own handler

The version was only kept on the classes, so creating a parser for another
version changed what existing handlers write.
---
 pykickstart/base.py     | 1 +
 pykickstart/sections.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/pykickstart/base.py b/pykickstart/base.py
index c9fdd3a..4303658 100644
--- a/pykickstart/base.py
+++ b/pykickstart/base.py
@@ -483,6 +483,7 @@ class BaseHandler(KickstartHandler):
         # everything else I can think of.
         self.scripts = []
         self.packages = Packages()
+        self.packages._ver = self.version
         self.platform = ""
 
         # Any sections that we do not understand but want to prevent causing errors
diff --git a/pykickstart/sections.py b/pykickstart/sections.py
index 4d6598a..1ab22a1 100644
--- a/pykickstart/sections.py
+++ b/pykickstart/sections.py
@@ -200,6 +200,7 @@ class ScriptSection(Section):
 
         if self.dataObj is not None:
             s = self.dataObj(self._script["body"], **kwargs)
+            s._ver = self.version
             self._resetScript()
             self.handler.scripts.append(s)
 
-- 
2.43.0


From 731d07b62bdada722baa6a45043d442edb39b1a3 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 15:45:50 +0000
Subject: [PATCH 10/47] fix: reset a command under all of its names

After resetCommand the other names of the command still led to the old object,
which is no longer written, so what it was given got lost.
---
 pykickstart/base.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pykickstart/base.py b/pykickstart/base.py
index 4303658..d23b94e 100644
--- a/pykickstart/base.py
+++ b/pykickstart/base.py
@@ -388,11 +388,16 @@ class KickstartHandler(KickstartObject):
         if cmdName not in self.commands:
             raise KeyError
 
-        cmdObj = self.commands[cmdName].__class__()
+        oldObj = self.commands[cmdName]
+        cmdObj = oldObj.__class__()
 
         self._setCommand(cmdObj)
-        self.commands[cmdName] = cmdObj
-        self.commands[cmdName].handler = self
+        cmdObj.handler = self
+
+        # The command may be known under several names.
+        for (key, val) in list(self.commands.items()):
+            if val is oldObj:
+                self.commands[key] = cmdObj
 
     def dispatcher(self, args, lineno):
         """Call the appropriate KickstartCommand handler for the current line
-- 
2.43.0


From 0558cb3f06b55bfb635b1d7a5a374de4fa2fdf4b Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 15:45:50 +0000
Subject: [PATCH 11/47] fix: do not write an unused lilo command over the
 bootloader command

For FC3, RHEL3 and RHEL4 the output always ended in a default bootloader line
which undid the real one when the output was read again.
---
 pykickstart/commands/bootloader.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pykickstart/commands/bootloader.py b/pykickstart/commands/bootloader.py
index efe8ca7..5a2b9b7 100644
--- a/pykickstart/commands/bootloader.py
+++ b/pykickstart/commands/bootloader.py
@@ -162,6 +162,14 @@ class FC3_Lilo(FC3_Bootloader):
         op.prog = "lilo"
         return op
 
+    def __str__(self):
+        # This is written as a bootloader command, so unless it was used it
+        # would override the real one.
+        if not self.seen:
+            return ""
+
+        return super(FC3_Lilo, self).__str__()
+
 class FC4_Lilo(RemovedCommand, FC3_Lilo):
     def _getParser(self):
         op = FC3_Lilo._getParser(self)
-- 
2.43.0


From 9d9e969bef0b180c48ffb71efc5d1b9a4f9c9f4e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 15:46:46 +0000
Subject: [PATCH 12/47] fix: do not hand the end of the file to a section as if
 it were a line

Sections that want all lines were given an extra empty one at the end of every
included file, and after having been closed by the end of the file.
---
 pykickstart/parser.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/pykickstart/parser.py b/pykickstart/parser.py
index ea73e57..ebc03ed 100644
--- a/pykickstart/parser.py
+++ b/pykickstart/parser.py
@@ -632,12 +632,15 @@ class KickstartParser(object):
         while True:
             try:
                 line = next(lineIter)
-                if line == "" and self._includeDepth == 0:
-                    # This section ends at the end of the file.
-                    if self.version >= version.F8:
-                        raise KickstartParseError(_("Section %s does not end with %%end.") % obj.sectionOpen, lineno=lineno)
+                if line == "":
+                    if self._includeDepth == 0:
+                        # This section ends at the end of the file.
+                        if self.version >= version.F8:
+                            raise KickstartParseError(_("Section %s does not end with %%end.") % obj.sectionOpen, lineno=lineno)
 
-                    self._finalize(obj)
+                        self._finalize(obj)
+
+                    break
             except StopIteration:
                 break
 
-- 
2.43.0


From 954fa824788f8c1270aedb6695a918a7ece129a5 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 15:46:46 +0000
Subject: [PATCH 13/47] fix: process what follows an include whose error is not
 fatal

When an error inside a section of an included file was ignored, the parser
thought it was still in that section and silently dropped all lines after the
%include.
---
 pykickstart/parser.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pykickstart/parser.py b/pykickstart/parser.py
index ebc03ed..9245cd8 100644
--- a/pykickstart/parser.py
+++ b/pykickstart/parser.py
@@ -720,6 +720,8 @@ class KickstartParser(object):
         if not self.followIncludes:
             return
 
+        state = self._state
+        depth = self._includeDepth
         self._includeDepth += 1
 
         try:
@@ -731,7 +733,11 @@ class KickstartParser(object):
             if self.missingIncludeIsFatal:
                 raise
 
-        self._includeDepth -= 1
+            # Go on after the %include, wherever in the included files
+            # the problem was.
+            self._state = state
+
+        self._includeDepth = depth
 
     def _stateMachine(self, lineIter):
         # For error reporting.
-- 
2.43.0


From 05f0f80221085c7ccce8c6072b5da0cf4ae96329 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 15:46:46 +0000
Subject: [PATCH 14/47] fix: read files included into a section as lines of
 that section

The first line of a file included into a section was treated as a command:
comments were dropped and a quote ended in an error.  And when an included file
left a section open, the rest of the including file was silently ignored.
---
 pykickstart/parser.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/pykickstart/parser.py b/pykickstart/parser.py
index 9245cd8..b919966 100644
--- a/pykickstart/parser.py
+++ b/pykickstart/parser.py
@@ -754,6 +754,13 @@ class KickstartParser(object):
 
             lineno += 1
 
+            # This is in the middle of a section, so it is not ours to look at.
+            if self._state not in (STATE_COMMANDS, STATE_END) and not self._line.isspace():
+                lineIter.put(self._line)
+                lineno -= 1
+                lineno = self._readSection(lineIter, lineno)
+                continue
+
             # Eliminate blank lines, whitespace-only lines, and comments.
             if self._isBlankOrComment(self._line):
                 self._handleSpecialComments(self._line)
@@ -802,10 +809,14 @@ class KickstartParser(object):
                     self._tryFunc(lambda: self.handleCommand(lineno, args))
             elif self._state == STATE_END:
                 break
-            elif self._includeDepth > 0:
-                lineIter.put(self._line)
-                lineno -= 1
-                lineno = self._readSection(lineIter, lineno)
+
+        # An included file may have opened a section that nothing closes.
+        if self._includeDepth == 0 and self._state in self._sections:
+            obj = self._sections[self._state]
+            if self.version >= version.F8:
+                raise KickstartParseError(_("Section %s does not end with %%end.") % obj.sectionOpen, lineno=lineno)
+
+            self._finalize(obj)
 
     def readKickstartFromString(self, s, reset=True):
         """Process a kickstart file, provided as the string str."""
-- 
2.43.0


From ad1f030ba763b5e7630abb00c6bab38b0f89cab9 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 15:47:53 +0000
Subject: [PATCH 15/47] fix: return a file for an empty kickstart, too

The callers use the result as a file name, so with None ksvalidator reported an
empty kickstart as an error and ksshell died.
---
 pykickstart/parser.py | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/pykickstart/parser.py b/pykickstart/parser.py
index b919966..33ddaa3 100644
--- a/pykickstart/parser.py
+++ b/pykickstart/parser.py
@@ -151,11 +151,7 @@ def preprocessFromString(s):
        which need to be fetched before the real kickstart parser can be
        run.  Returns the location of the complete kickstart file.
     """
-    s = preprocessFromStringToString(s)
-    if s:
-        return _writeTempFile(s)
-
-    return None
+    return _writeTempFile(preprocessFromStringToString(s))
 
 def preprocessKickstart(f):
     """Preprocess the kickstart file, given by the filename f.  This
@@ -163,11 +159,7 @@ def preprocessKickstart(f):
        which need to be fetched before the real kickstart parser can be
        run.  Returns the location of the complete kickstart file.
     """
-    s = preprocessKickstartToString(f)
-    if s:
-        return _writeTempFile(s)
-
-    return None
+    return _writeTempFile(preprocessKickstartToString(f))
 
 class PutBackIterator(Iterator):
     def __init__(self, iterable):
-- 
2.43.0


From 89cf940ff9920325f485840f9d055f079f9dbce0 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 15:47:53 +0000
Subject: [PATCH 16/47] fix: do not report success for 256 errors in
 ksvalidator

The number of errors is used as the exit status, which is taken modulo 256.
---
 tools/ksvalidator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tools/ksvalidator.py b/tools/ksvalidator.py
index 8fe1d9f..209cfed 100755
--- a/tools/ksvalidator.py
+++ b/tools/ksvalidator.py
@@ -121,4 +121,5 @@ if __name__ == "__main__":
     retval, messages = main(sys.argv[1:])
     for msg in messages:
         print(msg)
-    sys.exit(retval)
+    # Only the low byte reaches the caller, and 256 errors are not success.
+    sys.exit(min(retval, 255))
-- 
2.43.0


From d9c47dc1535b1e2bf939c06edb65f8ffa507f364 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 15:47:53 +0000
Subject: [PATCH 17/47] fix: let sections typed after .clear reach the new
 handler in ksshell

---
 tools/ksshell.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tools/ksshell.py b/tools/ksshell.py
index 324180e..d1b90b4 100755
--- a/tools/ksshell.py
+++ b/tools/ksshell.py
@@ -62,6 +62,9 @@ class ClearCommand(InternalCommand):
         version = parser.version
         parser.handler = makeVersion(version)
 
+        # The sections still refer to the old handler.
+        parser.setupSections()
+
 class QuitCommand(InternalCommand):
     def execute(self, parser):
         raise EOFError
-- 
2.43.0


From 3ea38ce7b6863e67d41981f0afd368a1056f7a2b Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 15:47:53 +0000
Subject: [PATCH 18/47] fix: do not lose a ksshell session over a line that
 cannot be parsed

An unbalanced quote, typed or in the input file, ended the shell with a
traceback and without writing anything.  Also remove the preprocessed input file
if it could not be read.
---
 tools/ksshell.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/tools/ksshell.py b/tools/ksshell.py
index d1b90b4..1510c59 100755
--- a/tools/ksshell.py
+++ b/tools/ksshell.py
@@ -40,7 +40,7 @@ import argparse
 import os, six, sys
 
 from pykickstart.i18n import _
-from pykickstart.errors import KickstartError, KickstartVersionError
+from pykickstart.errors import KickstartVersionError
 from pykickstart.parser import KickstartParser, preprocessKickstart
 from pykickstart.version import DEVEL, makeVersion
 
@@ -173,13 +173,17 @@ def main(argv=None):
     ksparser = KickstartParser(kshandler, followIncludes=True, errorsAreFatal=False)
 
     if opts.input:
+        processedFile = None
+
         try:
             processedFile = preprocessKickstart(opts.input)
             ksparser.readKickstart(processedFile)
-            os.remove(processedFile)
-        except KickstartError as e:
+        except Exception as e:          # pylint: disable=broad-except
             # Errors should just dump you to the prompt anyway.
             print(_("Warning:  The following error occurred when processing the input file:\n%s\n") % e)
+        finally:
+            if processedFile is not None:
+                os.remove(processedFile)
 
     internalCommands = {".clear": ClearCommand(),
                         ".show": ShowCommand(),
@@ -232,7 +236,7 @@ def main(argv=None):
         # extremely short one.
         try:
             ksparser.readKickstartFromString(line)
-        except KickstartError as e:
+        except Exception as e:          # pylint: disable=broad-except
             print(e)
 
     # And finally, print the output kickstart file.
-- 
2.43.0


From b69bfaa37329cebc845635e22840a812c7db751c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:26 +0000
Subject: [PATCH 19/47] fix: a group asked for again is no longer excluded

A group or environment that was excluded and then asked for was in both
lists, so writing the selection and reading it back lost it.
---
 pykickstart/parser.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pykickstart/parser.py b/pykickstart/parser.py
index 33ddaa3..509445e 100644
--- a/pykickstart/parser.py
+++ b/pykickstart/parser.py
@@ -453,6 +453,9 @@ class Packages(KickstartObject):
         # now.
         grp = " ".join(extra)
 
+        # Asking for a group takes back an earlier exclusion of it.
+        self.excludedGroupList = [g for g in self.excludedGroupList if g.name != grp]
+
         if grp in [g.name for g in self.groupList]:
             return
 
@@ -479,6 +482,7 @@ class Packages(KickstartObject):
 
             if stripped[0:2] == "@^":
                 self.environment = stripped[2:]
+                self.excludedGroupList = [g for g in self.excludedGroupList if g.name != stripped[1:]]
             elif stripped[0] == "@":
                 self._processGroup(stripped[1:])
             elif stripped[0] == "-":
-- 
2.43.0


From 14b697be9b2a8b163702fe3c4956cb275e9f3539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:47 +0000
Subject: [PATCH 20/47] fix: keep the depth of xconfig a number where it is
 deprecated

Writing a handler that had read xconfig --depth in F10 to F13 raised
TypeError.
---
 pykickstart/commands/xconfig.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykickstart/commands/xconfig.py b/pykickstart/commands/xconfig.py
index 528d4fc..a68acbd 100644
--- a/pykickstart/commands/xconfig.py
+++ b/pykickstart/commands/xconfig.py
@@ -169,7 +169,7 @@ class F10_XConfig(F9_XConfig):
     def _getParser(self):
         op = F9_XConfig._getParser(self)
         op.add_argument("--driver", deprecated=F10)
-        op.add_argument("--depth", deprecated=F10)
+        op.add_argument("--depth", type=int, deprecated=F10)
         op.add_argument("--resolution", deprecated=F10)
         op.add_argument("--videoram", deprecated=F10)
         return op
-- 
2.43.0


From 33075e0feb0702a2b269f01e69e1173ab21a1bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:42 +0000
Subject: [PATCH 21/47] fix: a rejected command leaves the configuration as it
 was

With errors that are not fatal (ksshell, ksvalidator), a rejected line such
as "vnc --port=x" still enabled the command, and one like "timezone a b"
made writing the configuration raise TypeError.
---
 pykickstart/base.py | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/pykickstart/base.py b/pykickstart/base.py
index d23b94e..05dbb14 100644
--- a/pykickstart/base.py
+++ b/pykickstart/base.py
@@ -45,6 +45,7 @@ This module exports several important base classes:
 """
 from pykickstart.i18n import _
 
+import copy
 import six
 import warnings
 from pykickstart import __version__
@@ -151,6 +152,24 @@ class KickstartCommand(KickstartObject):
         """
         return None
 
+    def _saveState(self):
+        """Remember the attributes of this command, for _restoreState."""
+        return [(attr, val, copy.copy(val) if isinstance(val, (list, dict, set)) else None)
+                for (attr, val) in self.__dict__.items()]
+
+    def _restoreState(self, saved):
+        """Go back to the attributes returned by _saveState."""
+        self.__dict__.clear()
+
+        for (attr, val, contents) in saved:
+            if isinstance(val, list):
+                val[:] = contents
+            elif contents is not None:
+                val.clear()
+                val.update(contents)
+
+            self.__dict__[attr] = val
+
     def deleteRemovedAttrs(self):
         """Remove all attributes from self that are given in the removedAttrs
            list.  This method should be called from __init__ in a subclass,
@@ -416,6 +435,9 @@ class KickstartHandler(KickstartObject):
             self.commands[cmd].currentCmd = cmd
             self.commands[cmd].currentLine = self.currentLine
             self.commands[cmd].lineno = lineno
+
+            # What a rejected line has changed so far must not be kept.
+            saved = self.commands[cmd]._saveState()
             self.commands[cmd].seen = True
 
             # The parser returns the data object that was modified.  This is either
@@ -424,7 +446,11 @@ class KickstartHandler(KickstartObject):
             # dataList.  The latter is done via side effects.
             #
             # Regardless, return the object that was given to us by the parser.
-            obj = self.commands[cmd].parse(args[1:])
+            try:
+                obj = self.commands[cmd].parse(args[1:])
+            except:
+                self.commands[cmd]._restoreState(saved)
+                raise
 
             # Here's the side effect part - don't worry about lst not being returned.
             lst = self.commands[cmd].dataList()
-- 
2.43.0


From e53acf507319f60684b8afd91ec2b56f21783e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:11 +0000
Subject: [PATCH 22/47] fix: name the line of a rejected nvdimm command

---
 pykickstart/commands/nvdimm.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pykickstart/commands/nvdimm.py b/pykickstart/commands/nvdimm.py
index a01652f..f63de4c 100644
--- a/pykickstart/commands/nvdimm.py
+++ b/pykickstart/commands/nvdimm.py
@@ -139,7 +139,7 @@ class F28_Nvdimm(KickstartCommand):
         nvdimm_data.action = action
 
         if nvdimm_data.namespace and nvdimm_data.blockdevs:
-            raise KickstartParseError(_("Only one of --namespace and --blockdevs device specifications can be used"))
+            raise KickstartParseError(_("Only one of --namespace and --blockdevs device specifications can be used"), lineno=self.lineno)
 
         # Check for duplicates in the data list.
         if nvdimm_data in self.dataList():
@@ -153,14 +153,14 @@ class F28_Nvdimm(KickstartCommand):
         if action == NVDIMM_ACTION_RECONFIGURE:
             if not nvdimm_data.namespace:
                 raise KickstartParseError(_("Action %(action)s requires --namespace argument to be set")
-                                          % {"action": action})
+                                          % {"action": action}, lineno=self.lineno)
             if nvdimm_data.mode == NVDIMM_MODE_SECTOR and not nvdimm_data.sectorsize:
                 raise KickstartParseError(_("Action %(action)s with mode %(mode)s requires --sectorsize argument to be set")
-                                          % {"action": action, "mode": nvdimm_data.mode})
+                                          % {"action": action, "mode": nvdimm_data.mode}, lineno=self.lineno)
         elif action == NVDIMM_ACTION_USE:
             if not nvdimm_data.namespace and not nvdimm_data.blockdevs:
                 raise KickstartParseError(_("Action %(action)s requires --namespace or --blockdevs argument to be set")
-                                          % {"action": action})
+                                          % {"action": action}, lineno=self.lineno)
 
         return nvdimm_data
 
-- 
2.43.0


From ce306347be0e2d948c2d5a68ed5e06391e6e05da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:50 +0000
Subject: [PATCH 23/47] fix: do not parse the remark behind a realm command

---
 pykickstart/commands/realm.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pykickstart/commands/realm.py b/pykickstart/commands/realm.py
index 53b52f6..1ba16f4 100644
--- a/pykickstart/commands/realm.py
+++ b/pykickstart/commands/realm.py
@@ -24,7 +24,6 @@ from pykickstart.errors import KickstartParseError
 
 import getopt
 import pipes
-import shlex
 
 from pykickstart.i18n import _
 
@@ -38,10 +37,10 @@ class F19_Realm(KickstartCommand):
         self.join_args = []
         self.discover_options = []
 
-    def _parseArguments(self, string):
+    def _parseArguments(self, args):
         if self.join_realm:
             raise KickstartParseError(_("The realm command 'join' should only be specified once"), lineno=self.lineno)
-        args = shlex.split(string)
+        args = list(args)
         if not args:
             raise KickstartParseError(_("Missing realm command arguments"), lineno=self.lineno)
         command = args.pop(0)
@@ -97,7 +96,7 @@ class F19_Realm(KickstartCommand):
         return retval
 
     def parse(self, args):
-        self._parseArguments(self.currentLine[len(self.currentCmd):].strip())
+        self._parseArguments(args)
         return self
 
     def _getParser(self):
-- 
2.43.0


From 35d9043659c47ea7c803a890b7ef908409c77268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:28 +0000
Subject: [PATCH 24/47] fix: do not keep the unknown sections of one kickstart
 for the next

---
 pykickstart/parser.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pykickstart/parser.py b/pykickstart/parser.py
index 509445e..50e5e07 100644
--- a/pykickstart/parser.py
+++ b/pykickstart/parser.py
@@ -566,6 +566,7 @@ class KickstartParser(object):
         Packages._ver = self.version
 
         self._sections = {}
+        self._unknownSections = []
         self.setupSections()
 
     def _reset(self):
@@ -574,6 +575,13 @@ class KickstartParser(object):
         self._includeDepth = 0
         self.currentdir = {}
 
+        # A section that only the previous kickstart file made known is as
+        # unknown to the new one as it was to that.
+        for obj in self._unknownSections:
+            if self._sections.get(obj.sectionOpen) is obj:
+                del self._sections[obj.sectionOpen]
+        self._unknownSections = []
+
     def getSection(self, s):
         """Return a reference to the requested section (s must start with '%'s),
            or raise KeyError if not found.
@@ -790,7 +798,8 @@ class KickstartParser(object):
                             # needs to change.  You can turn this warning into an error via
                             # ksvalidator, or the warnings module.
                             warnings.warn(_("Potentially unknown section seen at line %(lineno)s: %(sectionName)s") % {"lineno": lineno, "sectionName": newSection}, KickstartParseWarning)
-                            self.registerSection(NullSection(self.handler, sectionOpen=newSection))
+                            self._unknownSections.append(NullSection(self.handler, sectionOpen=newSection))
+                            self.registerSection(self._unknownSections[-1])
 
                     self._state = newSection
                     obj = self._sections[self._state]
-- 
2.43.0


From 163a1c2b6214e2c276d167f1082c3790522c7899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:39 +0000
Subject: [PATCH 25/47] fix: leave indentation and remarks out of the auth
 commands

---
 pykickstart/commands/authconfig.py | 4 +++-
 pykickstart/commands/authselect.py | 5 ++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/pykickstart/commands/authconfig.py b/pykickstart/commands/authconfig.py
index e0895a6..25c2402 100644
--- a/pykickstart/commands/authconfig.py
+++ b/pykickstart/commands/authconfig.py
@@ -17,6 +17,7 @@
 # subject to the GNU General Public License and may only be used or replicated
 # with the express permission of Red Hat, Inc. 
 #
+import pipes
 import warnings
 from textwrap import dedent
 
@@ -43,7 +44,8 @@ class FC3_Authconfig(KickstartCommand):
         return retval
 
     def parse(self, args):
-        self.authconfig = self.currentLine[len(self.currentCmd):].strip()
+        # Neither indentation nor a remark at the end of the line is part of it.
+        self.authconfig = " ".join(pipes.quote(arg) for arg in args)
         return self
 
     def _getParser(self):
diff --git a/pykickstart/commands/authselect.py b/pykickstart/commands/authselect.py
index a1caa52..000d283 100644
--- a/pykickstart/commands/authselect.py
+++ b/pykickstart/commands/authselect.py
@@ -17,6 +17,8 @@
 # subject to the GNU General Public License and may only be used or replicated
 # with the express permission of Red Hat, Inc.
 #
+import pipes
+
 from pykickstart.base import KickstartCommand
 from pykickstart.options import KSOptionParser
 from pykickstart.version import F28
@@ -39,7 +41,8 @@ class F28_Authselect(KickstartCommand):
         return retval
 
     def parse(self, args):
-        self.authselect = self.currentLine[len(self.currentCmd):].strip()
+        # Neither indentation nor a remark at the end of the line is part of it.
+        self.authselect = " ".join(pipes.quote(arg) for arg in args)
         return self
 
     def _getParser(self):
-- 
2.43.0


From a825deac08f5b9e887d8348dc3101fd8c896fec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:07 +0000
Subject: [PATCH 26/47] fix: do not add empty lines to the scripts of old
 versions when writing them

---
 pykickstart/base.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/pykickstart/base.py b/pykickstart/base.py
index 05dbb14..895291d 100644
--- a/pykickstart/base.py
+++ b/pykickstart/base.py
@@ -51,7 +51,7 @@ import warnings
 from pykickstart import __version__
 from pykickstart.errors import KickstartParseError, KickstartParseWarning, KickstartDeprecationWarning
 from pykickstart.ko import KickstartObject
-from pykickstart.version import versionToString
+from pykickstart.version import F8, versionToString
 from pykickstart.parser import Packages
 
 ###
@@ -536,19 +536,32 @@ class BaseHandler(KickstartHandler):
 
         retval += KickstartHandler.__str__(self)
 
+        # Before F8, a script goes on up to the next section.  An empty line that
+        # only separates the two would become a part of it.
+        open_script = False
+
         for script in self.scripts:
             script_str = script.__str__()
             if isinstance(script_str, six.text_type) and not six.PY3:
                 script_str = script_str.encode("utf-8")
+            if open_script and script_str.startswith("\n"):
+                script_str = script_str[1:]
             retval += script_str
+            open_script = self.version < F8
 
         if self._null_section_strings:
-            retval += "\n"
+            if not open_script:
+                retval += "\n"
 
             for s in self._null_section_strings:
                 retval += s
 
-        retval += self.packages.__str__()
+            open_script = False
+
+        pkgs_str = self.packages.__str__()
+        if open_script and pkgs_str.startswith("\n"):
+            pkgs_str = pkgs_str[1:]
+        retval += pkgs_str
 
         return retval
 
-- 
2.43.0


From 05ed7d6bbdb5510c1ff776a7efbb15707a241c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:26 +0000
Subject: [PATCH 27/47] fix: leave a masked command alone when it is reset

---
 pykickstart/base.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pykickstart/base.py b/pykickstart/base.py
index 895291d..7643315 100644
--- a/pykickstart/base.py
+++ b/pykickstart/base.py
@@ -408,6 +408,11 @@ class KickstartHandler(KickstartObject):
             raise KeyError
 
         oldObj = self.commands[cmdName]
+
+        # There is nothing to reset about a masked command.
+        if oldObj is None:
+            return
+
         cmdObj = oldObj.__class__()
 
         self._setCommand(cmdObj)
-- 
2.43.0


From 0ea6ddb24fc06ed9f7f7f8ccdee18157a1e6701c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:26 +0000
Subject: [PATCH 28/47] fix: give the install command of RHEL7 an attribute of
 its own

---
 pykickstart/handlers/rhel7.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykickstart/handlers/rhel7.py b/pykickstart/handlers/rhel7.py
index 52f5642..096ae93 100644
--- a/pykickstart/handlers/rhel7.py
+++ b/pykickstart/handlers/rhel7.py
@@ -50,7 +50,7 @@ class RHEL7Handler(BaseHandler):
         "harddrive": commands.harddrive.FC3_HardDrive,
         "hmc": commands.hmc.RHEL7_Hmc,
         "ignoredisk": commands.ignoredisk.F14_IgnoreDisk,
-        "install": commands.upgrade.F11_Upgrade,
+        "install": commands.install.F20_Install,
         "iscsi": commands.iscsi.F17_Iscsi,
         "iscsiname": commands.iscsiname.FC6_IscsiName,
         "keyboard": commands.keyboard.F18_Keyboard,
-- 
2.43.0


From ba1797dfdaf7ab880c5bb4373ae4c872629622dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:59 +0000
Subject: [PATCH 29/47] fix: write logging settings that were made through the
 attributes

---
 pykickstart/commands/logging.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykickstart/commands/logging.py b/pykickstart/commands/logging.py
index 22e2e75..b53b0c9 100644
--- a/pykickstart/commands/logging.py
+++ b/pykickstart/commands/logging.py
@@ -43,7 +43,7 @@ class FC6_Logging(KickstartCommand):
     def __str__(self):
         retval = KickstartCommand.__str__(self)
 
-        if self.level and self._level_provided:
+        if self.level and (self._level_provided or self.level != "info" or self.host):
             retval += "# Installation logging level\nlogging --level=%s" % self.level
 
             if self.host:
-- 
2.43.0


From ba89ad2aebb98446b9da3e32a543be768b9c99d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:34 +0000
Subject: [PATCH 30/47] fix: keep further paths of a multipath device with it

---
 pykickstart/commands/multipath.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pykickstart/commands/multipath.py b/pykickstart/commands/multipath.py
index acb58bb..3979005 100644
--- a/pykickstart/commands/multipath.py
+++ b/pykickstart/commands/multipath.py
@@ -99,14 +99,14 @@ class FC6_MultiPath(KickstartCommand):
             if mpath.name == dd.mpdev:
                 parent = x
 
-        if not parent:
+        if parent is None:
             mpath = self.dataClass(name=dd.name)    # pylint: disable=not-callable
-            mpath.paths.append(dd)
-            return mpath
         else:
-            mpath = self.mpaths[parent]
-            mpath.paths.append(dd)
-            return dd
+            # What is returned gets appended to the list again.
+            mpath = self.mpaths.pop(parent)
+
+        mpath.paths.append(dd)
+        return mpath
 
     def dataList(self):
         return self.mpaths
-- 
2.43.0


From ee1293f5a0aeb3ca7b06bf8dd04a44e3c3073d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:55 +0000
Subject: [PATCH 31/47] fix: write kickstarts in UTF-8 whatever the locale

---
 tools/ksflatten.py | 2 +-
 tools/ksshell.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/ksflatten.py b/tools/ksflatten.py
index 331ea2d..0048a1c 100755
--- a/tools/ksflatten.py
+++ b/tools/ksflatten.py
@@ -62,7 +62,7 @@ def main(argv=None):
 
     if opts.output:
         try:
-            f = open(opts.output, 'w')
+            f = open(opts.output, 'w', encoding="utf-8")
         except IOError as msg:
             return (1, _("Failed to open output file '%(filename)s' : %(error_msg)s") % {"filename": opts.output, "error_msg": msg})
     else:
diff --git a/tools/ksshell.py b/tools/ksshell.py
index 1510c59..9339ca7 100755
--- a/tools/ksshell.py
+++ b/tools/ksshell.py
@@ -241,7 +241,7 @@ def main(argv=None):
 
     # And finally, print the output kickstart file.
     if opts.output:
-        with open(opts.output, "w") as fd:
+        with open(opts.output, "w", encoding="utf-8") as fd:
             fd.write(str(ksparser.handler))
     else:
         print("\n" + str(ksparser.handler))
-- 
2.43.0


From 07eb099e0a01c2766fb3bcb4f20a999cdc0cb4bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:55 +0000
Subject: [PATCH 32/47] fix: store fetched kickstarts in UTF-8 whatever the
 locale

---
 pykickstart/load.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pykickstart/load.py b/pykickstart/load.py
index 057ec00..a6bbca8 100644
--- a/pykickstart/load.py
+++ b/pykickstart/load.py
@@ -63,8 +63,8 @@ def load_to_file(location, destination):
 
         # Write to file
         try:
-            with open(destination, 'w') as fh:
-                fh.write(contents)
+            with open(destination, 'wb') as fh:
+                fh.write(contents.encode("utf-8"))
         except IOError as e:
             raise KickstartError(_('Error writing file "%s":') % location + ': {e}'.format(e=str(e)))
 
-- 
2.43.0


From fb285d835ce87ffacbc4edb3716019256ea5c0e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:32 +0000
Subject: [PATCH 33/47] fix: keep the order of the NTP servers

---
 pykickstart/commands/timezone.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pykickstart/commands/timezone.py b/pykickstart/commands/timezone.py
index 6f6d412..f20f699 100644
--- a/pykickstart/commands/timezone.py
+++ b/pykickstart/commands/timezone.py
@@ -165,7 +165,8 @@ class F18_Timezone(FC6_Timezone):
         FC6_Timezone.parse(self, args)
 
         # NTP servers can only be listed once in F18, so weed out the duplicates now.
-        self.ntpservers = list(set(self.ntpservers))
+        servers = list(self.ntpservers)
+        self.ntpservers = [server for (i, server) in enumerate(servers) if server not in servers[:i]]
 
         if self.ntpservers and self.nontp:
             msg = _("Options --nontp and --ntpservers are mutually exclusive")
-- 
2.43.0


From 9b07862995cd4f7d3321888f8fefccb5278e3ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:21:52 +0000
Subject: [PATCH 34/47] fix: quote the arguments of section headers when
 writing them

---
 pykickstart/parser.py   | 8 +++++---
 pykickstart/sections.py | 5 ++++-
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/pykickstart/parser.py b/pykickstart/parser.py
index 50e5e07..2bfe89c 100644
--- a/pykickstart/parser.py
+++ b/pykickstart/parser.py
@@ -44,6 +44,8 @@ import shlex
 import sys
 import warnings
 
+from six.moves import shlex_quote
+
 from pykickstart import constants, version
 from pykickstart.errors import KickstartError, KickstartParseError, KickstartParseWarning
 from pykickstart.ko import KickstartObject
@@ -243,11 +245,11 @@ class Script(KickstartObject):
             retval += '\n%onerror'
 
         if self.interp != "/bin/sh" and self.interp:
-            retval += " --interpreter=%s" % self.interp
+            retval += " --interpreter=%s" % shlex_quote(self.interp)
         if self.type == constants.KS_SCRIPT_POST and not self.inChroot:
             retval += " --nochroot"
         if self.logfile is not None:
-            retval += " --logfile=%s" % self.logfile
+            retval += " --logfile=%s" % shlex_quote(self.logfile)
         if self.errorOnFail:
             retval += " --erroronfail"
 
@@ -390,7 +392,7 @@ class Packages(KickstartObject):
         if self.handleBroken == constants.KS_BROKEN_IGNORE:
             retval += " --ignorebroken"
         if self.instLangs is not None:
-            retval += " --inst-langs=%s" % self.instLangs
+            retval += " --inst-langs=%s" % (shlex_quote(self.instLangs) if self.instLangs else "")
         if self.multiLib:
             retval += " --multilib"
         if self.excludeWeakdeps:
diff --git a/pykickstart/sections.py b/pykickstart/sections.py
index 1ab22a1..7e938f5 100644
--- a/pykickstart/sections.py
+++ b/pykickstart/sections.py
@@ -30,6 +30,9 @@ is necessary is to create a new subclass of Section and call
 parser.registerSection with an instance of your new class.
 """
 import warnings
+
+from six.moves import shlex_quote
+
 from pykickstart.constants import KS_SCRIPT_PRE, KS_SCRIPT_POST, KS_SCRIPT_TRACEBACK, \
                                   KS_SCRIPT_PREINSTALL, KS_SCRIPT_ONERROR, \
                                   KS_MISSING_IGNORE, KS_MISSING_PROMPT, \
@@ -138,7 +141,7 @@ class NullSection(Section):
         if body and not body.endswith("\n"):
             body += "\n"
 
-        s = "%s\n%s%%end\n" % (" ".join(self._args), body)
+        s = "%s\n%s%%end\n" % (" ".join(shlex_quote(arg) for arg in self._args), body)
 
         self.handler._null_section_strings.append(s)
 
-- 
2.43.0


From 6468ea590e6c09d0a207aaa97bf64aeda64bd8b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:24:10 +0000
Subject: [PATCH 35/47] fix: a rejected packages header leaves the package
 selection as it was

---
 pykickstart/sections.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/pykickstart/sections.py b/pykickstart/sections.py
index 7e938f5..dd791f9 100644
--- a/pykickstart/sections.py
+++ b/pykickstart/sections.py
@@ -728,6 +728,13 @@ class PackageSection(Section):
         op = self._getParser()
         ns = op.parse_args(args=args[1:], lineno=lineno)
 
+        # Find the errors first, a rejected header must not change anything.
+        if self.version >= RHEL6 and ns.defaultPackages and getattr(ns, "nobase", False):
+            raise KickstartParseError(_("--default and --nobase cannot be used together"), lineno=lineno)
+
+        if self.version >= F21 and ns.defaultPackages and ns.nocore:
+            raise KickstartParseError(_("--default and --nocore cannot be used together"), lineno=lineno)
+
         self.handler.packages.seen = True
         self.handler.packages.excludeDocs = ns.excludedocs
         if ns.ignoremissing:
@@ -750,9 +757,6 @@ class PackageSection(Section):
         if self.version < RHEL6:
             return
 
-        if ns.defaultPackages and getattr(ns, "nobase", False):
-            raise KickstartParseError(_("--default and --nobase cannot be used together"), lineno=lineno)
-
         self.handler.packages.addBase = not getattr(ns, "nobase", False)
 
         if self.version < F18:
@@ -763,9 +767,6 @@ class PackageSection(Section):
         if self.version < F21:
             return
 
-        if ns.defaultPackages and ns.nocore:
-            raise KickstartParseError(_("--default and --nocore cannot be used together"), lineno=lineno)
-
         self.handler.packages.nocore = ns.nocore
 
         if self.version < RHEL7:
-- 
2.43.0


From 26f4d50d4bb3e7e8c8a72caa865281a4cd1755fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:44 +0000
Subject: [PATCH 36/47] fix: a rejected line of a section is an error like any
 other

---
 pykickstart/parser.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/pykickstart/parser.py b/pykickstart/parser.py
index 2bfe89c..acbdab6 100644
--- a/pykickstart/parser.py
+++ b/pykickstart/parser.py
@@ -632,6 +632,16 @@ class KickstartParser(object):
         if line[:10] == "#platform=":
             self.handler.platform = self._line[10:].strip()
 
+    def _handleSectionLine(self, obj, line, lineno):
+        try:
+            obj.handleLine(line)
+        except KickstartParseError as e:
+            # A section does not know the numbers of its lines.
+            if e.lineno is None:
+                raise KickstartParseError(e.message, lineno=lineno)
+
+            raise
+
     def _readSection(self, lineIter, lineno):
         obj = self._sections[self._state]
 
@@ -665,7 +675,7 @@ class KickstartParser(object):
                 possibleSectionStart = line.split()[0]
                 if not self._validState(possibleSectionStart) \
                    and possibleSectionStart not in ("%end", "%include"):
-                    obj.handleLine(line)
+                    self._tryFunc(lambda: self._handleSectionLine(obj, line, lineno))
                     continue
 
                 args = shlex.split(line)
@@ -696,7 +706,7 @@ class KickstartParser(object):
             else:
                 # This is just a line within a section.  Pass it off to whatever
                 # section handles it.
-                obj.handleLine(line)
+                self._tryFunc(lambda: self._handleSectionLine(obj, line, lineno))
 
         return lineno
 
-- 
2.43.0


From 5042683fb5ebf5314183c6595761a4a0fe3e6626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:44 +0000
Subject: [PATCH 37/47] fix: reject an empty command name like any unknown
 command

---
 pykickstart/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykickstart/parser.py b/pykickstart/parser.py
index acbdab6..b2ef948 100644
--- a/pykickstart/parser.py
+++ b/pykickstart/parser.py
@@ -797,7 +797,7 @@ class KickstartParser(object):
                 if args[0] == "%ksappend":
                     # This is handled by the preprocess* functions, so continue.
                     continue
-                elif args[0][0] == '%':
+                elif args[0].startswith('%'):
                     # This is the beginning of a new section.  Handle its header
                     # here.
                     newSection = args[0]
-- 
2.43.0


From ab5341e013ffe017337e6f2539c81737b64be424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:44 +0000
Subject: [PATCH 38/47] fix: do not fail on a package line that is only a minus
 sign

---
 pykickstart/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykickstart/parser.py b/pykickstart/parser.py
index b2ef948..2fb1b4f 100644
--- a/pykickstart/parser.py
+++ b/pykickstart/parser.py
@@ -490,7 +490,7 @@ class Packages(KickstartObject):
             elif stripped[0] == "-":
                 if stripped[1:3] == "@^" and self.environment == stripped[3:]:
                     self.environment = None
-                elif stripped[1] == "@":
+                elif stripped[1:2] == "@":
                     excludedGroupList.append(Group(name=stripped[2:]))
                 else:
                     newExcludedSet.add(stripped[1:])
-- 
2.43.0


From 1684e3ff986cb4c2605c3680a28c6fbbf403c521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:11 +0000
Subject: [PATCH 39/47] fix: keep the class of the error a section raises for a
 line

---
 pykickstart/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykickstart/parser.py b/pykickstart/parser.py
index 2fb1b4f..8fd7b89 100644
--- a/pykickstart/parser.py
+++ b/pykickstart/parser.py
@@ -638,7 +638,7 @@ class KickstartParser(object):
         except KickstartParseError as e:
             # A section does not know the numbers of its lines.
             if e.lineno is None:
-                raise KickstartParseError(e.message, lineno=lineno)
+                KickstartParseError.__init__(e, e.message, lineno=lineno)
 
             raise
 
-- 
2.43.0


From c6cd514048db5a3c8a70d7a593207d5002714993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:23 +0000
Subject: [PATCH 40/47] fix: only newlines end the lines of a kickstart

---
 pykickstart/load.py    | 8 ++++++++
 pykickstart/parser.py  | 8 ++++----
 pykickstart/version.py | 4 ++--
 3 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/pykickstart/load.py b/pykickstart/load.py
index a6bbca8..d2b660d 100644
--- a/pykickstart/load.py
+++ b/pykickstart/load.py
@@ -17,6 +17,7 @@
 # subject to the GNU General Public License and may only be used or replicated
 # with the express permission of Red Hat, Inc.
 #
+import re
 import requests
 import shutil
 import six
@@ -32,6 +33,13 @@ SSL_VERIFY = True
 # How many seconds to wait for a server that does not answer.
 TIMEOUT = 60
 
+def split_lines(contents):
+    '''Split a string into lines, with their line ends.  Unlike with
+    str.splitlines, other separators (form feeds, U+2028, ...) are ordinary
+    characters of a line.'''
+
+    return re.findall(r"[^\r\n]*(?:\r\n|\r|\n)|[^\r\n]+", contents)
+
 def load_to_str(location):
     '''Load a destination URL or file into a string.
     Type of input is inferred automatically.
diff --git a/pykickstart/parser.py b/pykickstart/parser.py
index 8fd7b89..a8a4d03 100644
--- a/pykickstart/parser.py
+++ b/pykickstart/parser.py
@@ -49,7 +49,7 @@ from six.moves import shlex_quote
 from pykickstart import constants, version
 from pykickstart.errors import KickstartError, KickstartParseError, KickstartParseWarning
 from pykickstart.ko import KickstartObject
-from pykickstart.load import load_to_str
+from pykickstart.load import load_to_str, split_lines
 from pykickstart.options import KSOptionParser
 from pykickstart.sections import PackageSection, PreScriptSection, PreInstallScriptSection, \
                                  PostScriptSection, TracebackScriptSection, OnErrorScriptSection, \
@@ -131,7 +131,7 @@ def preprocessFromStringToString(s):
        need to be fetched before the real kickstart parser can be run.
        Returns the complete kickstart file as a string.
     """
-    i = iter(s.splitlines(True) + [""])
+    i = iter(split_lines(s) + [""])
     return _preprocessStateMachine(i)
 
 def preprocessKickstartToString(f):
@@ -145,7 +145,7 @@ def preprocessKickstartToString(f):
     except KickstartError as e:
         raise KickstartError(_("Unable to open input kickstart file: %s") % str(e), lineno=0)
 
-    return _preprocessStateMachine(iter(contents.splitlines(True)))
+    return _preprocessStateMachine(iter(split_lines(contents)))
 
 def preprocessFromString(s):
     """Preprocess the kickstart file, provided as the string s.  This
@@ -843,7 +843,7 @@ class KickstartParser(object):
         # Add a "" to the end of the list so the string reader acts like the
         # file reader and we only get StopIteration when we're after the final
         # line of input.
-        i = PutBackIterator(s.splitlines(True) + [""])
+        i = PutBackIterator(split_lines(s) + [""])
         self._stateMachine(i)
 
     def readKickstart(self, f, reset=True):
diff --git a/pykickstart/version.py b/pykickstart/version.py
index d966637..0c089f0 100644
--- a/pykickstart/version.py
+++ b/pykickstart/version.py
@@ -52,7 +52,7 @@ import importlib
 from pykickstart.i18n import _
 
 from pykickstart.errors import KickstartVersionError
-from pykickstart.load import load_to_str
+from pykickstart.load import load_to_str, split_lines
 
 # Symbolic names for internal version numbers.
 RHEL3 = 900
@@ -177,7 +177,7 @@ def versionFromFile(f):
 
     contents = load_to_str(f)
 
-    for line in contents.splitlines(True):
+    for line in split_lines(contents):
         if line.strip() == "":
             continue
 
-- 
2.43.0


From 63803ca0a30096b0b5b88bbbeacb9ef64ce1aac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:40 +0000
Subject: [PATCH 41/47] fix: do not lose lines of a section that only resemble
 a directive

---
 pykickstart/parser.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pykickstart/parser.py b/pykickstart/parser.py
index a8a4d03..6eaf68e 100644
--- a/pykickstart/parser.py
+++ b/pykickstart/parser.py
@@ -703,6 +703,10 @@ class KickstartParser(object):
                     lineno -= 1
                     self._finalize(obj)
                     break
+                else:
+                    # It only looked like one of the above, because of a blank
+                    # that does not separate words here.
+                    self._tryFunc(lambda: self._handleSectionLine(obj, line, lineno))
             else:
                 # This is just a line within a section.  Pass it off to whatever
                 # section handles it.
-- 
2.43.0


From 4b86b05bdf9421d8eb2bf5bc704f1e261bc817ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:40 +0000
Subject: [PATCH 42/47] fix: a remark behind a directive in a section is a
 remark

---
 pykickstart/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykickstart/parser.py b/pykickstart/parser.py
index 6eaf68e..4a5bb08 100644
--- a/pykickstart/parser.py
+++ b/pykickstart/parser.py
@@ -678,7 +678,7 @@ class KickstartParser(object):
                     self._tryFunc(lambda: self._handleSectionLine(obj, line, lineno))
                     continue
 
-                args = shlex.split(line)
+                args = shlex.split(line, comments=True)
 
                 if args and args[0] == "%end":
                     # This is a properly terminated section.
-- 
2.43.0


From 009bed827933aac2cfea42ae6a74e22257d111ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:26 +0000
Subject: [PATCH 43/47] fix: load syntax handlers from the package whatever the
 module search path is

---
 pykickstart/handlers/control.py | 7 +------
 pykickstart/version.py          | 6 ++----
 2 files changed, 3 insertions(+), 10 deletions(-)

diff --git a/pykickstart/handlers/control.py b/pykickstart/handlers/control.py
index 27717fc..ef54fea 100644
--- a/pykickstart/handlers/control.py
+++ b/pykickstart/handlers/control.py
@@ -20,17 +20,12 @@
 __all__ = ["commandMap", "dataMap"]
 
 import os
-import sys
 import importlib
 
 commandMap = {}
 dataMap = {}
 
 if not commandMap:
-    _path = os.path.dirname(__file__)
-    if not _path in sys.path:
-        sys.path.append(_path)
-
     for name in os.listdir(os.path.dirname(__file__)):
         if not (name.startswith("fc") or name.startswith("f") or name.startswith("rhel")):
             continue
@@ -38,7 +33,7 @@ if not commandMap:
         if not name.endswith(".py"):
             continue
 
-        obj = importlib.import_module(name.replace(".py", ""))
+        obj = importlib.import_module("pykickstart.handlers.%s" % name.replace(".py", ""))
         if not obj.__all__ or not obj.__all__[0].endswith("Handler"):
             continue
 
diff --git a/pykickstart/version.py b/pykickstart/version.py
index 0c089f0..ecd81f3 100644
--- a/pykickstart/version.py
+++ b/pykickstart/version.py
@@ -45,7 +45,7 @@ This module also exports several functions:
                       syntax it uses.  This requires the kickstart file to
                       have a version= comment in it.
 """
-import os, re, sys
+import re
 
 import importlib
 
@@ -202,9 +202,7 @@ def returnClassForVersion(version=DEVEL):
     module = module.lower()
 
     try:
-        _path = os.path.join(os.path.dirname(__file__), "handlers/")
-        sys.path.extend([_path])
-        loaded = importlib.import_module(module)
+        loaded = importlib.import_module("pykickstart.handlers.%s" % module)
 
         for (k, v) in list(loaded.__dict__.items()):
             if k.lower().endswith("%shandler" % module):
-- 
2.43.0


From 8223d8f377d7742e9fc7451a33de5caa432774fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:29 +0000
Subject: [PATCH 44/47] fix: only blanks that separate words make a directive
 of a line in a section

---
 pykickstart/parser.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/pykickstart/parser.py b/pykickstart/parser.py
index 4a5bb08..224a8fb 100644
--- a/pykickstart/parser.py
+++ b/pykickstart/parser.py
@@ -667,12 +667,12 @@ class KickstartParser(object):
             if self._isBlankOrComment(line) and not obj.allLines:
                 continue
 
-            if line.lstrip().startswith("%"):
+            if line.lstrip(" \t").startswith("%"):
                 # If we're in a script, the line may begin with "%something"
                 # that's not the start of any section we recognize, but still
                 # valid for that script.  So, don't do the split below unless
-                # we're sure.
-                possibleSectionStart = line.split()[0]
+                # we're sure.  Only these blanks separate words in a kickstart.
+                possibleSectionStart = line.replace("\t", " ").strip(" \r\n").split(" ")[0]
                 if not self._validState(possibleSectionStart) \
                    and possibleSectionStart not in ("%end", "%include"):
                     self._tryFunc(lambda: self._handleSectionLine(obj, line, lineno))
@@ -703,10 +703,6 @@ class KickstartParser(object):
                     lineno -= 1
                     self._finalize(obj)
                     break
-                else:
-                    # It only looked like one of the above, because of a blank
-                    # that does not separate words here.
-                    self._tryFunc(lambda: self._handleSectionLine(obj, line, lineno))
             else:
                 # This is just a line within a section.  Pass it off to whatever
                 # section handles it.
-- 
2.43.0


From bc38f96e2947a2e229a4369dce0c9fad3be15af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:06 +0000
Subject: [PATCH 45/47] fix: ksshell: what is typed in another encoding must
 not end the session

---
 tools/ksshell.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/tools/ksshell.py b/tools/ksshell.py
index 9339ca7..06b6f43 100755
--- a/tools/ksshell.py
+++ b/tools/ksshell.py
@@ -216,6 +216,10 @@ def main(argv=None):
         except KeyboardInterrupt:
             # ^C was hit, time to quit.  Don't be like other programs.
             break
+        except UnicodeError as e:
+            # What was typed is not text in the encoding of the terminal.
+            print(e)
+            continue
 
         # All internal commands start with a ., so if that's the beginning of the
         # line, we need to dispatch ourselves.
@@ -235,6 +239,10 @@ def main(argv=None):
         # Now process the line of input as if it were a kickstart file - just an
         # extremely short one.
         try:
+            if six.PY3:
+                # What cannot be written later on cannot be accepted now.
+                line.encode("utf-8")
+
             ksparser.readKickstartFromString(line)
         except Exception as e:          # pylint: disable=broad-except
             print(e)
-- 
2.43.0


From d4f82f953bef19b289c0d2507c33934827e13933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:57 +0000
Subject: [PATCH 46/47] fix: firewall --http must not drop the ports given
 before it

---
 pykickstart/options.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykickstart/options.py b/pykickstart/options.py
index c3981e5..cf30c2b 100644
--- a/pykickstart/options.py
+++ b/pykickstart/options.py
@@ -112,7 +112,7 @@ class ExtendAction(Action):
 class ExtendConstAction(Action):
     def __call__(self, parser, namespace, values, option_string=None):
         if getattr(namespace, self.dest, None) is not None:
-            setattr(namespace, self.dest, self.const + values)
+            setattr(namespace, self.dest, getattr(namespace, self.dest) + self.const)
         else:
             setattr(namespace, self.dest, self.const)
 
-- 
2.43.0


From 2ad75989b99deb945ce8701e19f97e4b3e84d641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:37 +0000
Subject: [PATCH 47/47] fix: malformed URLs and file names are load errors like
 any other

---
 pykickstart/load.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pykickstart/load.py b/pykickstart/load.py
index d2b660d..50407d3 100644
--- a/pykickstart/load.py
+++ b/pykickstart/load.py
@@ -73,7 +73,7 @@ def load_to_file(location, destination):
         try:
             with open(destination, 'wb') as fh:
                 fh.write(contents.encode("utf-8"))
-        except IOError as e:
+        except (IOError, ValueError) as e:
             raise KickstartError(_('Error writing file "%s":') % location + ': {e}'.format(e=str(e)))
 
         return destination
@@ -88,7 +88,8 @@ def _load_url(location):
         request = requests.get(location, verify=SSL_VERIFY, timeout=TIMEOUT)
     except SSLError as e:
         raise KickstartError(_('Error securely accessing URL "%s"') % location + ': {e}'.format(e=str(e)))
-    except RequestException as e:
+    except (RequestException, ValueError) as e:
+        # Not every malformed URL is reported as a RequestException.
         raise KickstartError(_('Error accessing URL "%s"') % location + ': {e}'.format(e=str(e)))
 
     if request.status_code != requests.codes.ok:        # pylint: disable=no-member
@@ -102,7 +103,7 @@ def _load_url(location):
 
     try:
         return request.content.decode(encoding or "utf-8")
-    except (LookupError, UnicodeError) as e:
+    except (LookupError, ValueError) as e:
         raise KickstartError(_('Error accessing URL "%s"') % location + ': {e}'.format(e=str(e)))
 
 def _load_file(filename):
@@ -115,7 +116,7 @@ def _load_file(filename):
         else:
             with open(filename, 'r') as fh:
                 contents = fh.read()
-    except (IOError, UnicodeError) as e:
+    except (IOError, ValueError) as e:
         raise KickstartError(_('Error opening file: %s') % str(e))
 
     return contents
@@ -125,5 +126,5 @@ def _copy_file(filename, destination):
 
     try:
         shutil.copyfile(filename, destination)
-    except (OSError, IOError) as e:
+    except (OSError, IOError, ValueError) as e:
         raise KickstartError(_('Error copying file: %s') % str(e))
-- 
2.43.0

