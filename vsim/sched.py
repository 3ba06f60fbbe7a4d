"""A cooperative scheduler for real threads: exactly one runs at a time, and the
choice of who runs next is taken only at traced lines of the code under test,
from an explicit schedule."""
import os
import sys
import threading

_RealLock = threading.Lock
_RealRLock = threading.RLock
CURRENT = None


class _SchedLock:
    """A lock that hands the processor over instead of blocking it while a
    scheduler is active."""

    def __init__(self, real):
        self._l = real()

    def acquire(self, blocking=True, timeout=-1):
        s = CURRENT
        if s is None or not s.mine():
            return self._l.acquire(blocking, timeout)
        while not self._l.acquire(False):
            if not blocking:
                return False
            s.blocked()
        return True

    def release(self):
        self._l.release()

    def locked(self):
        return self._l.locked()

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    def __getattr__(self, n):
        return getattr(self._l, n)


def install_locks():
    """Locks which the code under test creates through the threading module are
    known to the scheduler; those of the standard library are left alone."""
    repo = os.path.realpath(os.environ.get("VSIM_REPO", "/repo"))

    def make(real):
        def factory(*a, **k):
            f = sys._getframe(1)
            if f.f_code.co_filename.startswith(repo):
                return _SchedLock(real)
            return real(*a, **k)
        return factory
    threading.Lock = make(_RealLock)
    threading.RLock = make(_RealRLock)


class Scheduler:
    def __init__(self, prefix, schedule, maxsteps=2000000, opcodes=False, novel=False):
        """schedule: list of [steps, thread] – after so many steps of the running
        thread, give the processor to that thread (modulo the live ones).  novel:
        count only steps at lines that no thread has come to before, which is where
        anything is set up that threads might share."""
        self.novel = novel
        self.seen = set()
        self.prefix = prefix
        self.schedule = [list(x) for x in schedule]
        self.pos = 0
        self.left = self.schedule[0][0] if self.schedule else None
        self.cv = threading.Condition(_RealLock())
        self.turn = 0
        self.live = []
        self.ids = {}
        self.steps = 0
        self.maxsteps = maxsteps
        self.switches = 0
        self.trace = []
        self.stuck = False
        self.opcodes = opcodes
        self.nblocked = 0

    def mine(self):
        return threading.get_ident() in self.ids

    def _next(self, want):
        others = self.live
        if not others:
            return None
        return others[want % len(others)]

    def _switch(self, me, to):
        if to == me or to is None:
            return
        self.switches += 1
        with self.cv:
            self.turn = to
            self.cv.notify_all()
            while self.turn != me:
                if not self.cv.wait(30):
                    self.stuck = True
                    raise SystemExit

    def blocked(self):
        me = self.ids[threading.get_ident()]
        self.nblocked += 1
        if self.nblocked > 100000:
            self.stuck = True
            raise SystemExit
        i = self.live.index(me)
        self._switch(me, self.live[(i + 1) % len(self.live)])

    def step(self, frame):
        self.steps += 1
        if self.left is None:
            return
        if self.novel:
            k = (frame.f_code, frame.f_lasti if self.opcodes else frame.f_lineno)
            if k in self.seen:
                return
            self.seen.add(k)
        self.left -= 1
        if self.left <= 0:
            me = self.ids[threading.get_ident()]
            to = self._next(self.schedule[self.pos][1])
            self.pos += 1
            self.left = self.schedule[self.pos][0] if self.pos < len(self.schedule) else None
            self.trace.append([os.path.basename(frame.f_code.co_filename), frame.f_lineno, to])
            self._switch(me, to)

    def tracer(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(self.prefix):
            return None
        if self.opcodes:
            frame.f_trace_opcodes = True
        return self.local

    def local(self, frame, event, arg):
        if event == "line" or event == "opcode":
            self.step(frame)
        return self.local

    def run(self, fns):
        global CURRENT
        CURRENT = self
        threads = []
        errors = []
        self.live = list(range(len(fns)))

        def body(i, fn):
            self.ids[threading.get_ident()] = i
            with self.cv:
                while self.turn != i:
                    if not self.cv.wait(60):
                        self.stuck = True
                        return
            sys.settrace(self.tracer)
            try:
                fn()
            except BaseException as e:          # noqa
                errors.append((i, repr(e)))
            finally:
                sys.settrace(None)
                with self.cv:
                    self.live.remove(i)
                    if self.live:
                        self.turn = self.live[0]
                    self.cv.notify_all()
        for i, fn in enumerate(fns):
            t = threading.Thread(target=body, args=(i, fn), daemon=True)
            threads.append(t)
        self.turn = 0
        for t in threads:
            t.start()
        for t in threads:
            t.join(90)
            if t.is_alive():
                self.stuck = True
        CURRENT = None
        return errors


class LineInterrupt:
    """Raise an exception at the n-th traced line of the code under test (single
    thread)."""

    def __init__(self, prefix, at, exc):
        self.prefix = prefix
        self.at = at
        self.exc = exc
        self.n = 0
        self.where = None

    def tracer(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(self.prefix):
            return None
        return self.local

    def local(self, frame, event, arg):
        if event == "line":
            self.n += 1
            if self.at is not None and self.n >= self.at:
                self.at = None
                self.where = "%s:%d" % (os.path.basename(frame.f_code.co_filename), frame.f_lineno)
                sys.settrace(None)
                raise self.exc
        return self.local

    def __enter__(self):
        sys.settrace(self.tracer)
        return self

    def __exit__(self, *a):
        sys.settrace(None)
        return False
