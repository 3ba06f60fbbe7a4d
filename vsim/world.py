"""The simulated machine: files below one root directory, the clock, temporary
names, standard streams.  Installed only inside a forked run, never undone.

Files are real files in a private scratch directory; every operation on them
passes an interposed system-call layer (open, read, write, close, sendfile,
stat, mkdir) which numbers it and may inject a fault.  Python's own buffered and
text layers run for real on top of it.  Paths outside the root are untouched."""
import builtins
import errno
import io
import os
import stat
import sys
import tempfile
import time

R_OPEN = io.open
R = {n: getattr(os, n) for n in ("open", "read", "write", "close", "sendfile", "stat", "mkdir",
                                 "unlink", "remove", "rmdir", "rename", "replace", "lstat", "fsync",
                                 "copy_file_range") if hasattr(os, n)}

FATAL_READ = ("EIO", "EACCES", "EMFILE", "ENOENT", "vanish", "ESTALE")


class World:
    def __init__(self, root, ctx=None):
        self.root = root
        self.ctx = ctx
        self.log = ctx.log if ctx is not None else []
        self.points = []            # (op, path) in order
        self.plan = {}              # point index -> fault
        self.sticky = {}            # (opclass, path) -> errno name
        self.rules = []             # persistent per-path rules
        self.fired = []
        self.wfds = set()
        self.fds = {}               # fd -> rel path
        self.max_read = None
        self.max_write = None
        self.disk_left = None
        self.now = 1700000000.0
        self.armed = False
        self.delivered = {}         # path -> set of states
        self.written = {}
        self.tempno = 0
        self.bad_at = {}            # path -> offset from which it cannot be read

    # -------------------------------------------------------------- helpers
    def rel(self, path):
        """Path relative to the root, or None if it lies outside."""
        try:
            p = os.fspath(path)
        except TypeError:
            return None
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        if "\0" in p:
            return None
        if not os.path.isabs(p):
            p = os.path.join(os.getcwd(), p)
        p = os.path.normpath(p)
        if p == self.root:
            return "."
        if p.startswith(self.root + "/"):
            return p[len(self.root) + 1:]
        return None

    def abs(self, rel):
        return os.path.join(self.root, rel)

    def isdir(self, rel):
        try:
            return stat.S_ISDIR(R["stat"](self.abs(rel)).st_mode)
        except OSError:
            return False

    def event(self, *a):
        if self.armed:
            self.log.append(list(a))

    def err(self, name, path):
        no = getattr(errno, name)
        return OSError(no, os.strerror(no), path)

    def fire(self, fault, op, path):
        self.fired.append({"op": op, "path": path, "kind": fault["kind"]})
        if fault.get("sticky"):
            self.fired[-1]["lasting"] = True
        self.event("fault", op, path, fault["kind"])
        if self.ctx is not None:
            self.ctx.count("fault:%s/%s" % (op, fault["kind"]))

    def point(self, op, path):
        """Number an operation and return the fault to inject, if any."""
        if not self.armed:
            return None
        idx = len(self.points)
        self.points.append((op, path))
        self.event(op, path)
        cls = OPCLASS[op]
        s = self.sticky.get((cls, path))
        if s is not None:
            self.event("sticky", op, path, s["kind"])
            return s
        f = self.plan.get(idx)
        if f is None:
            for r in self.rules:
                if r["path"] == path and r["cls"] == cls and not r.get("done"):
                    if r.get("after", 0) > 0:
                        r["after"] -= 1
                        continue
                    f = r
                    break
        if f is not None:
            if f["kind"] not in KINDS[op]:
                return None
            self.fire(f, op, path)
            if f.get("sticky"):
                self.sticky[(cls, path)] = f
                if cls == "read":
                    self.sticky[("open_r", path)] = {"kind": "EIO"} if f["kind"] == "EIO" else f
            elif f in self.rules and not f.get("always"):
                f["done"] = True
        return f

    # -------------------------------------------------------------- set-up
    def put(self, rel, data):
        p = self.abs(rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if isinstance(data, str):
            data = data.encode("utf-8", "surrogateescape")
        with R_OPEN(p, "wb") as f:
            f.write(data)

    def get(self, rel):
        try:
            with R_OPEN(self.abs(rel), "rb") as f:
                return f.read()
        except (FileNotFoundError, IsADirectoryError, NotADirectoryError):
            return None

    def tree(self):
        out = []
        for top, dirs, files in os.walk(self.root):
            dirs.sort()
            for n in sorted(files):
                out.append(os.path.relpath(os.path.join(top, n), self.root))
            for n in dirs:
                out.append(os.path.relpath(os.path.join(top, n), self.root) + "/")
        return sorted(out)

    def install(self):
        self.root = os.path.normpath(self.root)
        os.makedirs(self.abs("tmp"), exist_ok=True)
        os.chdir(self.root)
        tempfile.tempdir = self.abs("tmp")
        os.environ["TMPDIR"] = self.abs("tmp")
        os.environ["HOME"] = self.abs("home")
        world = self

        class Names:
            def __iter__(self):
                return self

            def __next__(self):
                world.tempno += 1
                return "sim%05d" % world.tempno
        names = Names()
        tempfile._get_candidate_names = lambda: names

        builtins.open = io.open = self.sim_open
        for n in ("open", "read", "write", "close", "sendfile", "stat", "mkdir", "copy_file_range",
                  "unlink", "remove", "rmdir"):
            if n in R:
                setattr(os, n, getattr(self, "sys_" + n))
        time.time = lambda: self.now
        time.monotonic = lambda: self.now
        time.perf_counter = lambda: self.now

        def sleep(s):
            self.event("sleep", s)
            self.now += max(0, s)
        time.sleep = sleep
        self.t0 = self.now
        return self

    def arm(self):
        self.armed = True

    # -------------------------------------------------------------- system calls
    def sys_open(self, path, flags, mode=0o777, *, dir_fd=None):
        rel = None if dir_fd is not None else self.rel(path)
        if rel is None or not self.armed or self.isdir(rel):
            return R["open"](path, flags, mode, dir_fd=dir_fd)
        w = flags & (os.O_WRONLY | os.O_RDWR)
        f = self.point("open_w" if w else "open_r", rel)
        if f is not None:
            if f["kind"] == "vanish":
                self.vanish(rel)
            else:
                raise self.err(f["kind"], path)
        fd = R["open"](path, flags, mode)
        self.fds[fd] = rel
        if w:
            self.wfds.add(fd)
        else:
            self.wfds.discard(fd)
        return fd

    def sys_close(self, fd):
        rel = self.fds.pop(fd, None)
        R["close"](fd)
        if rel is not None and fd in self.wfds:
            f = self.point("close", rel)
            if f is not None:
                self.lose(rel)
                raise self.err(f["kind"], rel)

    def lose(self, rel):
        """A failed close of a written file: what was not on disk yet is lost."""
        try:
            n = R["stat"](self.abs(rel)).st_size
            os.truncate(self.abs(rel), n // 2)
        except OSError:
            pass

    def limit(self, rel, pos, n):
        """Reading stops at an unreadable place of the medium."""
        off = self.bad_at.get(rel)
        if off is None:
            return n
        if pos >= off:
            self.fire({"kind": "EIO-at-offset"}, "read", rel)
            raise self.err("EIO", rel)
        return min(n, off - pos)

    def do_read(self, fd, n, rel):
        f = self.point("read", rel)
        if rel in self.bad_at:
            n = self.limit(rel, os.lseek(fd, 0, os.SEEK_CUR), n)
        if f is not None:
            if f["kind"] == "short":
                n = max(1, min(n, f.get("n", 1)))
            else:
                raise self.err(f["kind"], rel)
        if self.max_read:
            n = min(n, self.max_read)
        return R["read"](fd, n)

    def sys_read(self, fd, n):
        rel = self.fds.get(fd)
        if rel is None or not self.armed:
            return R["read"](fd, n)
        return self.do_read(fd, n, rel)

    def do_write(self, fd, data, rel):
        data = memoryview(data).cast("B")
        f = self.point("write", rel)
        if f is not None:
            if f["kind"] == "short":
                data = data[:max(1, min(len(data), f.get("n", 1)))]
            elif f["kind"] == "ENOSPC" and f.get("part") and len(data) > 1 and not f.get("parted"):
                f["parted"] = True
                data = data[:min(len(data) - 1, max(1, int(len(data) * f["part"])))]
            else:
                raise self.err(f["kind"], rel)
        if self.max_write:
            data = data[:self.max_write]
        if self.disk_left is not None:
            if self.disk_left <= 0 and len(data):
                self.fire({"kind": "ENOSPC"}, "disk", rel)
                raise self.err("ENOSPC", rel)
            data = data[:self.disk_left]
            self.disk_left -= len(data)
        return R["write"](fd, data)

    def sys_write(self, fd, data):
        rel = self.fds.get(fd)
        if rel is None or not self.armed:
            return R["write"](fd, data)
        return self.do_write(fd, data, rel)

    def sys_sendfile(self, out_fd, in_fd, offset, count, *a, **k):
        src = self.fds.get(in_fd)
        dst = self.fds.get(out_fd)
        if not self.armed or (src is None and dst is None):
            return R["sendfile"](out_fd, in_fd, offset, count, *a, **k)
        if src is not None:
            f = self.point("read", src)
            if src in self.bad_at:
                count = self.limit(src, offset if offset is not None else os.lseek(in_fd, 0, os.SEEK_CUR), count)
            if f is not None:
                if f["kind"] == "short":
                    count = max(1, min(count, f.get("n", 1)))
                else:
                    raise self.err(f["kind"], src)
            if self.max_read:
                count = min(count, self.max_read)
        pos = offset if offset is not None else os.lseek(in_fd, 0, os.SEEK_CUR)
        if dst is not None and os.fstat(in_fd).st_size > pos:
            f = self.point("write", dst)
            if f is not None:
                if f["kind"] == "short":
                    count = max(1, min(count, f.get("n", 1)))
                elif f["kind"] == "ENOSPC" and f.get("part") and not f.get("parted") and os.fstat(in_fd).st_size - pos > 1:
                    f["parted"] = True
                    count = min(count, 7, os.fstat(in_fd).st_size - pos - 1)
                else:
                    raise self.err(f["kind"], dst)
            if self.max_write:
                count = min(count, self.max_write)
            if self.disk_left is not None:
                if self.disk_left <= 0:
                    self.fire({"kind": "ENOSPC"}, "disk", dst)
                    raise self.err("ENOSPC", dst)
                count = max(1, min(count, self.disk_left))
        n = R["sendfile"](out_fd, in_fd, offset, count, *a, **k)
        if dst is not None and self.disk_left is not None:
            self.disk_left -= n
        return n

    def sys_copy_file_range(self, src, dst, count, *a, **k):
        if self.armed and (src in self.fds or dst in self.fds):
            raise OSError(errno.ENOSYS, os.strerror(errno.ENOSYS))
        return R["copy_file_range"](src, dst, count, *a, **k)

    def sys_stat(self, path, *a, **k):
        if isinstance(path, int) or not self.armed or k.get("dir_fd") is not None:
            return R["stat"](path, *a, **k)
        rel = self.rel(path)
        if rel is None:
            return R["stat"](path, *a, **k)
        f = self.point("stat", rel)
        res = R["stat"](path, *a, **k)
        if f is not None and f["kind"] == "vanish":
            self.vanish(rel)
        return res

    def sys_mkdir(self, path, mode=0o777, *, dir_fd=None):
        rel = None if dir_fd is not None else self.rel(path)
        if rel is None or not self.armed:
            return R["mkdir"](path, mode, dir_fd=dir_fd)
        f = self.point("mkdir", rel)
        if f is not None:
            raise self.err(f["kind"], path)
        return R["mkdir"](path, mode)

    def sys_unlink(self, path, **k):
        self.event("unlink", self.rel(path) if k.get("dir_fd") is None else path)
        return R["unlink"](path, **k)

    def sys_remove(self, path, **k):
        return self.sys_unlink(path, **k)

    def sys_rmdir(self, path, **k):
        self.event("rmdir", self.rel(path) if k.get("dir_fd") is None else path)
        return R["rmdir"](path, **k)

    def vanish(self, rel):
        try:
            R["unlink"](self.abs(rel))
        except OSError:
            pass

    # -------------------------------------------------------------- open()
    def sim_open(self, file, mode="r", buffering=-1, encoding=None, errors=None, newline=None,
                 closefd=True, opener=None):
        if isinstance(file, int):
            rel = self.fds.get(file)
        else:
            rel = self.rel(file)
        if rel is None or not self.armed:
            return R_OPEN(file, mode, buffering, encoding, errors, newline, closefd, opener)
        text = "b" not in mode
        rawmode = mode.replace("b", "").replace("t", "").replace("U", "")
        reading = "r" in rawmode or "+" in rawmode
        writing = any(c in rawmode for c in "wax+")
        if not isinstance(file, int) and opener is None:
            f = self.point("open_w" if writing else "open_r", rel)
            if f is not None:
                if f["kind"] == "vanish":
                    self.vanish(rel)
                else:
                    raise self.err(f["kind"], file)
        raw = SimFileIO(self, rel, file, rawmode, closefd, opener)
        try:
            if buffering == 0:
                if text:
                    raise ValueError("can't have unbuffered text I/O")
                return raw
            line_buffering = buffering == 1 and text
            size = buffering if buffering > 1 else io.DEFAULT_BUFFER_SIZE
            if "+" in rawmode:
                buf = io.BufferedRandom(raw, size)
            elif writing:
                buf = io.BufferedWriter(raw, size)
            else:
                buf = io.BufferedReader(raw, size)
            if not text:
                return buf
            t = io.TextIOWrapper(buf, encoding, errors, newline, line_buffering)
            t.mode = mode
            return t
        except BaseException:
            raw.close()
            raise


OPCLASS = {"open_r": "open_r", "open_w": "open_w", "read": "read", "write": "write", "close": "write_close",
           "stat": "stat", "mkdir": "mkdir"}
KINDS = {
    "open_r": ("EIO", "EACCES", "EMFILE", "ENOENT", "vanish"),
    "open_w": ("EIO", "EACCES", "EMFILE", "ENOSPC", "EROFS"),
    "read": ("EIO", "ESTALE", "short"),
    "write": ("EIO", "ENOSPC", "EDQUOT", "short"),
    "close": ("EIO", "ENOSPC", "EDQUOT"),
    "stat": ("vanish",),
    "mkdir": ("EACCES", "ENOSPC", "EMFILE"),
}


class SimFileIO(io.FileIO):
    """The lowest layer of a simulated file: one call here is one system call."""

    def __init__(self, world, rel, file, mode, closefd, opener):
        self._w = world
        self._rel = rel
        self._wr = any(c in mode for c in "wax+")
        super().__init__(file, mode, closefd, opener)
        self._fd = self.fileno()
        if closefd:
            world.fds[self._fd] = rel

    def readinto(self, b):
        data = self._w.do_read(self.fileno(), len(b), self._rel)
        b[:len(data)] = data
        return len(data)

    def read(self, size=-1):
        if size is None or size < 0:
            return self.readall()
        return self._w.do_read(self.fileno(), size, self._rel)

    def readall(self):
        out = []
        while True:
            d = self._w.do_read(self.fileno(), 65536, self._rel)
            if not d:
                return b"".join(out)
            out.append(d)

    def write(self, b):
        return self._w.do_write(self.fileno(), b, self._rel)

    def close(self):
        if self.closed:
            return
        owned = self.closefd
        super().close()
        if owned:
            self._w.fds.pop(self._fd, None)
            if self._wr:
                f = self._w.point("close", self._rel)
                if f is not None:
                    self._w.lose(self._rel)
                    raise self._w.err(f["kind"], self._rel)


class Out(io.StringIO):
    """Standard output or error of a run."""


def capture_std(stdin_text=""):
    sys.stdin = io.StringIO(stdin_text)
    sys.stdout = Out()
    sys.stderr = Out()
    return sys.stdout, sys.stderr


def open_fds():
    out = []
    for n in os.listdir("/proc/self/fd"):
        try:
            out.append((int(n), os.readlink("/proc/self/fd/" + n)))
        except OSError:
            pass
    return sorted(x for x in out if "/proc/" not in x[1])
