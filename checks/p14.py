"""P14: the event loop dispatches every ready source and only live ones.

The real EventLoop runs on a descriptor world owned by the harness. At every
handler call and every wait, any operation on any source may happen; all
placements of a bounded number of operations are executed."""
import errno
import math
import os
import select
import signal
import socket

import vworld
from choose import choices
from vworld import Clock, T0, Violation, Hang

import paf.eventloop

IN, OUT = select.EPOLLIN, select.EPOLLOUT
BASE = 200000
SIGNALS = (signal.SIGTERM, signal.SIGHUP, signal.SIGINT)
# so many calls of other handlers may come before a ready source is served
PATIENCE = 20
# the longest wait the kernel's interface allows
MAX_MS = (1 << 31) - 1


class Done(BaseException):
    pass


class World:
    def __init__(self):
        self.gen = {}       # fd -> open file (None: closed)
        self.ready = set()  # fds with input
        self.room = set()   # fds which take output
        self.files = 0
        self.epolls = []

    def open(self, fd):
        self.files += 1
        self.gen[fd] = self.files
        self.ready.discard(fd)
        self.room.discard(fd)

    def close(self, fd):
        self.gen[fd] = None
        self.ready.discard(fd)
        self.room.discard(fd)

    def events(self, fd, mask):
        return (IN if mask & IN and fd in self.ready else 0) | (
            OUT if mask & OUT and fd in self.room else 0)

    def is_open(self, fd):
        return self.gen.get(fd) is not None


W = None


class Epoll:
    def __init__(self, *a, **kw):
        self.reg = {}
        W.epolls.append(self)

    def _file(self, fd):
        if hasattr(fd, "fileno"):
            fd = fd.fileno()
        if fd >= BASE:
            f = W.gen.get(fd)
            if f is None:
                raise OSError(errno.EBADF, os.strerror(errno.EBADF))
            return fd, f
        os.fstat(fd)
        return fd, 0

    def _prune(self):
        for fd in [fd for fd, (f, m) in self.reg.items()
                   if f and W.gen.get(fd) != f]:
            del self.reg[fd]

    def register(self, fd, eventmask=IN | OUT | select.EPOLLPRI):
        self._prune()
        fd, f = self._file(fd)
        if fd in self.reg:
            raise FileExistsError(errno.EEXIST, os.strerror(errno.EEXIST))
        self.reg[fd] = (f, eventmask)

    def modify(self, fd, eventmask):
        self._prune()
        fd, f = self._file(fd)
        if fd not in self.reg:
            raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT))
        self.reg[fd] = (f, eventmask)

    def unregister(self, fd):
        self._prune()
        fd, f = self._file(fd)
        if fd not in self.reg:
            raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT))
        del self.reg[fd]

    def events(self):
        self._prune()
        evs = [(fd, W.events(fd, m)) for fd, (f, m) in self.reg.items()
               if f and W.events(fd, m)]
        real = [fd for fd, (f, m) in self.reg.items() if not f]
        if real:
            p = vworld.real_poll()
            for fd in real:
                p.register(fd, self.reg[fd][1] & 0x1f)
            evs += p.poll(0)
        return evs

    def poll(self, timeout=None, maxevents=-1):
        if timeout is not None and timeout * 1000 > MAX_MS:
            raise OverflowError("timeout is too large")
        return W.run.poll(self, timeout)

    def close(self):
        self.reg = {}

    def fileno(self):
        return -1

    __enter__ = lambda self: self
    __exit__ = lambda self, *a: self.close()


class Source(paf.eventloop.Source):
    """Sets of sources iterate in an order the harness decides."""
    rank = 0

    def __hash__(self):
        return self.rank


class S:
    """A source as its user sees it."""

    def __init__(self, i, rank):
        self.i = i
        self.fds = (BASE + 2 * i, BASE + 2 * i + 1)
        self.src = Source()
        self.src.rank = rank
        self.added = False
        self.fd = None          # what the user has asked for
        self.mask = None
        self.file = None        # the file it was open on by then
        self.timeout = None
        self.active = False
        self.waited = 0         # calls of other handlers while ready
        self.polls = 0
        self.busy = False       # its descriptor never runs dry
        self.calls = 0


class Run:
    """One execution of the loop."""

    def __init__(self, ch, config, ranks=(0, 1, 2)):
        global W
        W = World()
        W.run = self
        Clock.now = T0
        Clock.calls = 0
        self.ch = ch
        self.told = False       # to stop
        self.stopped = False
        self.since_told = 0
        self.depth = 0
        self.loop = paf.eventloop.EventLoop()
        self.s = [S(i, ranks[i]) for i in range(3)]
        self.calls = 0
        self.steps = 0
        self.trace = []
        for i, c in enumerate(config):
            s = self.s[i]
            for fd in s.fds:
                W.open(fd)
            self.op(("add", i))
            for op in c:
                self.op((op[0], i) + tuple(op[1:]))

    # ---- judgement

    def is_ready(self, s):
        if not s.added:
            return False
        return s.active or self.timed_out(s) or self.fd_ready(s)

    def timed_out(self, s):
        return s.timeout is not None and Clock.now >= s.timeout

    def fd_ready(self, s):
        return s.fd is not None and W.events(s.fd, s.mask) and \
            W.gen[s.fd] == s.file

    def called(self, s):
        self.trace.append(s.i)
        self.calls += 1
        self.ch.ops += 1
        s.calls += 1
        if not s.added:
            raise Violation("the handler of a source which is not in the "
                            "loop was called")
        if s.fd is None and not s.active and not self.timed_out(s):
            raise Violation("a handler was called %s" % (
                "%g s before its time-out" % (s.timeout - Clock.now)
                if s.timeout is not None else
                "for a source without descriptor, time-out or active flag"))
        if self.told:
            self.since_told += 1
            if self.since_told > PATIENCE:
                raise Violation("the loop does not stop")
        for x in self.s:
            if x is s or self.stopped or not self.is_ready(x):
                x.waited = 0
                x.polls = 0
            else:
                x.waited += 1
                if x.waited > PATIENCE:
                    raise Violation("a ready source is not served while "
                                    "others are")
        if self.calls > 300:
            raise Hang("handlers are called for ever")
        # what every handler does first: deal with the cause
        if s.active and not self.stopped:
            self.op(("inactive", s.i))
        if self.timed_out(s) and not self.stopped:
            self.op(("untime", s.i))
        if s.fd is not None and not (s.busy and s.calls < 12):
            W.ready.discard(s.fd)
            W.room.discard(s.fd)
        if s.busy:
            Clock.now += 0.25
        for k in range(2):
            if not self.choose(handler=s):
                break

    def poll(self, epoll, timeout):
        Clock.calls = 0
        self.steps += 1
        if self.steps > 300:
            raise Hang("the loop polls for ever")
        evs = epoll.events()
        deadline = None if timeout is None or timeout < 0 else \
            Clock.now + math.ceil(timeout * 1000) / 1000.0
        for s in self.s:
            if self.is_ready(s):
                s.polls += 1
                if s.polls > 5:
                    raise Violation("a ready source is not served while the "
                                    "loop polls on")
            else:
                s.polls = 0
        if evs:
            return evs
        while True:
            if deadline is not None and deadline <= Clock.now:
                return []
            if self.told:
                raise Violation("the loop waits though it was told to stop")
            for s in self.s:
                if self.is_ready(s):
                    raise Violation("the loop waits while a source is ready")
                if s.added and s.timeout is not None and (
                        deadline is None or
                        deadline > max(s.timeout, Clock.now) + 0.0011):
                    raise Violation("the loop waits beyond a time-out")
            if not self.choose(None):
                if deadline is None:
                    raise Done()
                Clock.now = deadline
                return []
            evs = epoll.events()
            if evs:
                return evs
            if self.ch.ops > 2000:
                raise Hang("never done")
            # whatever happened did not come through a descriptor; only
            # descriptors are touched from outside of handlers

    # ---- operations

    def menu(self, handler):
        if handler is None:
            # the outside world: descriptors and signals
            m = [("input", s.i, n) for s in self.s for n in (0, 1)
                 if W.is_open(s.fds[n]) and s.fds[n] not in W.ready]
            m += [("output", s.i, n) for s in self.s for n in (0, 1)
                  if s.fd == s.fds[n] and s.mask & OUT and
                  W.is_open(s.fd) and s.fd not in W.room]
            return m + [("signal", int(x)) for x in SIGNALS]
        m = []
        for s in self.s:
            i = s.i
            m.append(("remove", i) if s.added else ("add", i))
            for n in (0, 1):
                fd = s.fds[n]
                if s.fd != fd and W.is_open(fd):
                    m.append(("setfd", i, n, IN))
                elif s.fd == fd and W.is_open(fd):
                    m.append(("setfd", i, n, OUT if s.mask == IN else IN))
                if n == 0 or s.fd == fd:
                    if W.is_open(fd):
                        m.append(("close", i, n))
                        if fd not in W.ready:
                            m.append(("input", i, n))
                    else:
                        m.append(("open", i, n))
            if s.fd is not None:
                m.append(("clearfd", i))
            m.append(("inactive", i) if s.active else ("active", i))
            m.append(("time", i, 0))
            m.append(("time", i, 1))
            if s.timeout is not None:
                m += [("untime", i), ("time", i, 2.5)]
        m += [("stop",), ("signal", int(signal.SIGTERM)), ("busy", handler.i),
              ("long", 1.5)]
        return m

    def choose(self, handler):
        op = self.ch.pick([None] + self.menu(handler))
        if op is None:
            return False
        self.ch.ops += 1
        self.op(op)
        return True

    def op(self, op):
        name = op[0]
        if name == "stop":
            self.told = self.stopped = True
            self.loop.stop()
            return
        if name == "signal":
            if signal.getsignal(op[1]) in (signal.SIG_DFL, signal.SIG_IGN,
                                           None):
                raise Violation("signal %d is not taken care of" % op[1])
            self.told = True
            signal.raise_signal(op[1])
            return
        if name == "long":
            Clock.now += op[1]
            return
        s = self.s[op[1]]
        if name == "add":
            s.added = True
            if s.fd is not None and W.gen[s.fd] != s.file:
                s.fd = None     # not with a stale descriptor
                s.src.clear_fd()
            self.loop.add(s.src, lambda: self.called(s))
        elif name == "remove":
            s.added = False
            self.loop.remove(s.src)
        elif name == "setfd":
            fd = s.fds[op[2]]
            if s.fd == fd and W.gen[fd] != s.file:
                # the number is that of another file by now
                s.src.clear_fd()
            s.fd, s.mask, s.file = fd, op[3], W.gen[fd]
            s.src.set_fd(fd, op[3])
        elif name == "clearfd":
            s.fd = None
            s.src.clear_fd()
        elif name == "time":
            s.timeout = Clock.now + op[2]
            s.src.set_timeout(s.timeout)
        elif name == "untime":
            s.timeout = None
            s.src.clear_timeout()
        elif name == "active":
            s.active = True
            s.src.set_active()
        elif name == "inactive":
            s.active = False
            s.src.clear_active()
        elif name == "input":
            W.ready.add(s.fds[op[2]])
        elif name == "output":
            W.room.add(s.fds[op[2]])
        elif name == "close":
            W.close(s.fds[op[2]])
        elif name == "open":
            W.open(s.fds[op[2]])
        elif name == "busy":
            s.busy = not s.busy
            if s.fd is not None and W.is_open(s.fd):
                W.ready.add(s.fd)

    def go(self):
        try:
            self.loop.run()
            if not self.told:
                raise Violation("the loop stopped of its own accord")
        except Done:
            pass
        finally:
            self.loop.close()
            W.run = None


FD = ("setfd", 0, IN)
DAY = 86400.0
CONFIGS = {
    "descriptors": ([FD, ("input", 0)], [FD, ("input", 0)], [FD]),
    "timeouts": ([("time", 1)], [("time", 1)], [FD, ("time", 1)]),
    "staggered": ([("time", 1)], [("time", 2.5)], [("time", 0)]),
    "actives": ([("active",)], [("active",), ("time", 1)],
                [FD, ("input", 0)]),
    "output": ([("setfd", 0, OUT)],
               [("setfd", 0, IN | OUT), ("output", 0)],
               [("setfd", 0, OUT), ("time", 1)]),
    "distant": ([("time", 24.5 * DAY)], [("time", 60 * DAY)],
                [("setfd", 0, IN)]),
    "mixed": ([("active",), ("time", 1)], [FD, ("input", 0), ("time", 2.5)],
              [FD]),
    "busy": ([FD, ("busy",)], [FD, ("time", 1)], [FD, ("input", 0)]),
}


def one(config, ranks):
    def fun(ch):
        saved = select.epoll
        select.epoll = Epoll
        handlers = [signal.getsignal(x) for x in SIGNALS]
        try:
            r = Run(ch, CONFIGS[config], ranks)
            r.go()
            return [r.trace, Clock.now - T0, r.told]
        finally:
            select.epoll = saved
            for x, h in zip(SIGNALS, handlers):
                signal.signal(x, h)
            signal.set_wakeup_fd(-1)
    return fun


class Real:
    """The same descriptor world made of kernel objects."""
    FD = 700

    def __init__(self):
        self.epoll = vworld.real_epoll()
        self.w = {}

    def op(self, name, i):
        fd = self.FD + i
        if name == "open":
            a, b = socket.socketpair()
            b.setblocking(False)
            os.dup2(a.fileno(), fd)
            a.close()
            self.w[i] = b
            os.set_blocking(fd, False)
            self.op("fill", i)
        elif name == "close":
            os.close(fd)
            self.w.pop(i).close()
        elif name == "input":
            self.w[i].send(b"x")
        elif name == "drain":
            os.read(fd, 100)
        elif name == "fill":
            try:
                while True:
                    os.write(fd, bytes(1 << 16))
            except BlockingIOError:
                pass
        elif name == "output":
            try:
                while True:
                    self.w[i].recv(1 << 20)
            except BlockingIOError:
                pass
        elif name == "unregister":
            self.epoll.unregister(fd)
        else:
            f, mask = name
            getattr(self.epoll, f)(fd, mask)

    def poll(self):
        return sorted((fd - self.FD, e) for fd, e in self.epoll.poll(0))

    def done(self):
        for i in list(self.w):
            self.op("close", i)
        self.epoll.close()


class Fake:
    def __init__(self):
        global W
        W = World()
        self.epoll = Epoll()

    def op(self, name, i):
        fd = BASE + i
        if name == "open":
            W.open(fd)
        elif name == "close":
            W.close(fd)
        elif name == "input":
            W.ready.add(fd)
        elif name == "drain":
            W.ready.discard(fd)
        elif name == "output":
            W.room.add(fd)
        elif name == "fill":
            W.room.discard(fd)
        elif name == "unregister":
            self.epoll.unregister(fd)
        else:
            f, mask = name
            getattr(self.epoll, f)(fd, mask)

    def poll(self):
        return sorted((fd - BASE, e) for fd, e in self.epoll.events())


def conformance(depth):
    """The harness' epoll behaves as the kernel's does."""
    def fun(ch):
        real, fake = Real(), Fake()
        try:
            is_open = {0: True, 1: True}
            has = set()
            room = set()
            for i in (0, 1):
                real.op("open", i)
                fake.op("open", i)
            for k in range(depth):
                menu = [None]
                for i in (0, 1):
                    menu += [("close", i), (("input" if i not in has else
                                             "drain"), i),
                             ("fill" if i in room else "output", i)] \
                        if is_open[i] else [("open", i)]
                    menu += [(("register", IN), i), (("modify", OUT), i),
                             (("modify", IN), i),
                             (("modify", IN | OUT), i), ("unregister", i)]
                op = ch.pick(menu)
                if op is None:
                    break
                ch.ops += 1
                name, i = op
                if name in ("open", "close"):
                    is_open[i] = name == "open"
                    has.discard(i)
                    room.discard(i)
                elif name == "output":
                    room.add(i)
                elif name == "fill":
                    room.discard(i)
                elif name == "input":
                    has.add(i)
                elif name == "drain":
                    has.discard(i)
                res = []
                for w in (real, fake):
                    try:
                        w.op(name, i)
                        res.append(None)
                    except OSError as e:
                        res.append(e.errno)
                    res.append(w.poll())
                if res[:2] != res[2:]:
                    raise RuntimeError("the harness' epoll differs from the "
                                       "kernel's: %r" % (res,))
            return [sorted(has), is_open, fake.poll()]
        finally:
            real.done()
    return fun


def longest_wait():
    """The kernel's interface refuses the same waits as the harness'."""
    ep = vworld.real_epoll()
    a, b = socket.socketpair()
    try:
        ep.register(a.fileno(), OUT)
        for ms in (MAX_MS - 1, MAX_MS, MAX_MS + 1, 2 * MAX_MS, 1 << 40):
            try:
                ep.poll(ms / 1000.0)
                refused = False
            except OverflowError:
                refused = True
            if refused != (ms / 1000.0 * 1000 > MAX_MS):
                raise RuntimeError("a wait of %d ms is%s refused" % (
                    ms, "" if refused else " not"))
    finally:
        a.close()
        b.close()
        ep.close()


def run(check):
    longest_wait()
    choices(check, "epoll-conformance", conformance(5 if check.thorough
                                                    else 4), devs=9)
    for c in sorted(CONFIGS):
        choices(check, c, one(c, (0, 1, 2)),
                devs=2 + (c in ("descriptors",
                              "timeouts") or check.thorough) + (
                    check.thorough and c not in ("busy", "mixed")))
        choices(check, c + "-reversed", one(c, (2, 1, 0)), devs=2)
