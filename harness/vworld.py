"""The controlled world in which the real paf code runs.

Clock, randomness, epoll, poll and the transport library are owned by the
harness; everything above them is the unmodified code of the repository.
Import this module before anything from paf.
"""
import atexit
import ctypes
import errno
import json
import logging
import math
import os
import random
import select
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
FD_BASE = 100000
T0 = 1000000.0

real_time = time.time
real_monotonic = time.monotonic
real_epoll = select.epoll
real_poll = select.poll
real_sleep = time.sleep

sys.dont_write_bytecode = True


class EpisodeEnd(BaseException):
    """Raised through the code under test when the driver is done."""


class Hang(BaseException):
    """The code under test spins without ever waiting."""


class Violation(BaseException):
    def __init__(self, msg, sig=None):
        BaseException.__init__(self, msg)
        self.msg = msg
        self.sig = sig


class Prune(BaseException):
    """This path cannot be judged by the property under check."""


# ---------------------------------------------------------------- stub

_tmp = tempfile.mkdtemp(prefix="pafverif.")
_owner = os.getpid()


@atexit.register
def _cleanup():
    if os.getpid() == _owner:
        shutil.rmtree(_tmp, ignore_errors=True)


def _build():
    so = os.environ.get("VERIF_STUB")
    if so:                      # built by the parent process
        return ctypes.CDLL(so, mode=ctypes.RTLD_GLOBAL)
    so = os.path.join(_tmp, "libxcm.so.0")
    subprocess.run(["gcc", "-O2", "-shared", "-fPIC",
                    "-Wl,-soname,libxcm.so.0", "-o", so,
                    os.path.join(HERE, "xcmstub.c")], check=True)
    return ctypes.CDLL(so, mode=ctypes.RTLD_GLOBAL)


stub = _build()
STUB = os.path.join(_tmp, "libxcm.so.0")
stub.stub_connect.argtypes = [ctypes.c_char_p, ctypes.c_char_p,
                              ctypes.c_char_p, ctypes.c_int, ctypes.c_int]
stub.stub_send.argtypes = [ctypes.c_int, ctypes.c_char_p, ctypes.c_int]
stub.stub_find_server.argtypes = [ctypes.c_char_p]
stub.stub_server_new.argtypes = [ctypes.c_char_p]
stub.stub_handle_tag.argtypes = [ctypes.c_uint64]
stub.stub_handle_ep.argtypes = [ctypes.c_uint64]
for _n in ("stub_calls", "stub_live", "stub_live_conns", "stub_live_maps",
           "stub_misuse"):
    getattr(stub, _n).restype = ctypes.c_long
stub.stub_misuse_text.restype = ctypes.c_char_p
stub.stub_attr_raw.argtypes = [ctypes.c_int, ctypes.c_char_p, ctypes.c_int,
                               ctypes.c_char_p, ctypes.c_int, ctypes.c_int64]

(OP_CONNECT, OP_SERVER, OP_ACCEPT, OP_SEND, OP_RECEIVE, OP_FINISH, OP_GET,
 OP_SET, OP_AWAIT, OP_FD, OP_CLOSE, OP_BLOCKING) = range(12)


class Call(ctypes.Structure):
    """A call that arrived at the transport library."""
    _fields_ = [("op", ctypes.c_int), ("ep", ctypes.c_int),
                ("err", ctypes.c_int), ("rc", ctypes.c_long),
                ("ival", ctypes.c_int64), ("text", ctypes.c_char * 2048)]


stub.stub_log_at.restype = ctypes.POINTER(Call)


def stub_calls_made():
    """[(operation, endpoint, result, errno, integer, text)]"""
    out = []
    for i in range(stub.stub_nlog()):
        c = stub.stub_log_at(i).contents
        out.append((c.op, c.ep, c.rc, c.err, c.ival, c.text))
    stub.stub_log(1)
    return out

_buf = ctypes.create_string_buffer(70000)


def stub_recv(ep):
    n = stub.stub_recv(ep, _buf, 70000)
    if n < 0:
        return None
    return _buf.raw[:n] if n < 4096 else bytes(memoryview(_buf)[:n])


def stub_attrs(ep):
    b = ctypes.create_string_buffer(20000)
    stub.stub_attrs(ep, b, 20000)
    out = {}
    for line in b.value.decode('utf-8', 'replace').split('\n'):
        if line:
            k, v = line.split('=', 1)
            out[k] = v
    return out


# --------------------------------------------------------------- clock

class Clock:
    now = T0
    calls = 0
    limit = 400000
    step = 0.0
    boom = 0            # the n-th reading fails


def vtime():
    Clock.calls += 1
    if Clock.boom:
        Clock.boom -= 1
        if Clock.boom == 0:
            raise RuntimeError("injected")
    if Clock.calls > Clock.limit:
        Clock.calls = 0
        if CUR is None:
            return Clock.now
        raise Hang("the code keeps reading the clock without ever waiting")
    return Clock.now


class OwnedRandom(random.Random):
    value = 0.5

    def random(self):
        return OwnedRandom.value

    def getrandbits(self, k):
        v = int(OwnedRandom.value * (1 << k))
        return min(max(v, 0), (1 << k) - 1)

    def _randbelow(self, n):
        return min(max(int(OwnedRandom.value * n), 0), n - 1)


_rnd = OwnedRandom(0)
for _n in ("random", "uniform", "randint", "randrange", "choice", "choices",
           "shuffle", "sample", "gauss", "triangular", "getrandbits",
           "betavariate", "expovariate", "normalvariate"):
    if hasattr(_rnd, _n):
        setattr(random, _n, getattr(_rnd, _n))

time.time = vtime
time.monotonic = lambda: vtime() - T0 + 1000.0
time.time_ns = lambda: int(vtime() * 1e9)
time.monotonic_ns = lambda: int((vtime() - T0 + 1000.0) * 1e9)
time.perf_counter = lambda: vtime() - T0


def _vsleep(t):
    Clock.now += t


time.sleep = _vsleep

# pipes get descriptors from a range of their own, so that a canonical state
# can tell them from other small numbers
PIPE_BASE = 500
real_pipe = os.pipe


def _pipe():
    import fcntl
    out = []
    for fd in real_pipe():
        try:
            n = fcntl.fcntl(fd, fcntl.F_DUPFD_CLOEXEC, PIPE_BASE)
        except OSError:
            import gc
            gc.collect()
            n = fcntl.fcntl(fd, fcntl.F_DUPFD_CLOEXEC, PIPE_BASE)
        os.close(fd)
        out.append(n)
    return tuple(out)


os.pipe = _pipe

# --------------------------------------------------------------- epoll

CUR = None          # current episode


class FakeEpoll:
    def __init__(self, sizehint=-1, flags=0):
        self.reg = {}       # fd -> (endpoint or None, mask)
        self.closed = False

    def _prune(self):
        for fd in [f for f, (e, m) in self.reg.items()
                   if e is not None and stub.stub_fd_ep(f) != e]:
            del self.reg[fd]    # closed descriptors leave the epoll set

    def _ep(self, fd):
        if hasattr(fd, "fileno"):
            fd = fd.fileno()
        if fd >= FD_BASE:
            e = stub.stub_fd_ep(fd)
            if e < 0:
                raise OSError(errno.EBADF, os.strerror(errno.EBADF))
            return fd, e
        os.fstat(fd)
        return fd, None

    def register(self, fd, eventmask=select.EPOLLIN | select.EPOLLOUT |
                 select.EPOLLPRI):
        self._prune()
        fd, e = self._ep(fd)
        if fd in self.reg:
            raise FileExistsError(errno.EEXIST, os.strerror(errno.EEXIST))
        self.reg[fd] = (e, eventmask)

    def modify(self, fd, eventmask):
        self._prune()
        fd, e = self._ep(fd)
        if fd not in self.reg:
            raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT))
        self.reg[fd] = (e, eventmask)

    def unregister(self, fd):
        self._prune()
        if hasattr(fd, "fileno"):
            fd = fd.fileno()
        if fd not in self.reg:
            if fd >= FD_BASE and stub.stub_fd_ep(fd) < 0:
                raise OSError(errno.EBADF, os.strerror(errno.EBADF))
            raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT))
        del self.reg[fd]

    def ready(self):
        self._prune()
        evs = []
        n = stub.stub_ready(_fds, 4096)
        for i in range(n):
            fd = _fds[i]
            r = self.reg.get(fd)
            if r is not None and r[1] & select.EPOLLIN:
                evs.append((fd, select.EPOLLIN))
        real = [fd for fd, (e, m) in self.reg.items() if e is None]
        if real and CUR is not None and CUR.use_real_fds:
            p = real_poll()
            for fd in real:
                p.register(fd, self.reg[fd][1] & 0x1f)
            evs += p.poll(0)
        return evs

    def poll(self, timeout=None, maxevents=-1):
        if CUR is None:
            raise EpisodeEnd()
        if timeout is not None and timeout * 1000 > (1 << 31) - 1:
            raise OverflowError("timeout is too large")     # as the real one
        return CUR.epoll_wait(self, timeout)

    def close(self):
        self.closed = True
        self.reg = {}

    def fileno(self):
        return -1

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


_fds = (ctypes.c_int * 4096)()
select.epoll = FakeEpoll


class FakePoll:
    """select.poll for the client library; waits via the episode."""

    def __init__(self):
        self.reg = {}

    def register(self, fd, mask=select.POLLIN):
        if hasattr(fd, "fileno"):
            fd = fd.fileno()
        self.reg[fd] = mask

    def unregister(self, fd):
        del self.reg[fd]

    def modify(self, fd, mask):
        self.reg[fd] = mask

    def ready(self):
        return [(fd, select.POLLIN) for fd in self.reg
                if fd >= FD_BASE and stub.stub_fd_ready(fd)]

    def poll(self, timeout=None):
        n = 0
        while True:
            evs = self.ready()
            if evs:
                return evs
            n += 1
            if n > 10000 or CUR is None or CUR.client_wait is None:
                raise Hang("a blocking client call waits forever")
            CUR.client_wait(self)


select.poll = FakePoll

# ------------------------------------------------------------- logging

class Capture(logging.Handler):
    def __init__(self):
        logging.Handler.__init__(self, level=logging.ERROR)
        self.last = None

    def emit(self, record):
        if record.exc_info:
            self.last = record.exc_info
            import traceback
            self.text = "".join(traceback.format_exception(
                *record.exc_info)[-3:])


capture = Capture()
logging.getLogger().handlers = [capture]
logging.getLogger().setLevel(logging.ERROR)
logging.raiseExceptions = False

sys.path.insert(0, REPO)
sys.path.insert(1, HERE)

import paf.logging  # noqa: E402  (before paf.conf, which relies on it)
import paf.daemon   # noqa: E402
import paf.conf     # noqa: E402

captured_servers = None


def hook(servers):
    global captured_servers
    captured_servers = servers


sys.modules.setdefault("vworld", sys.modules[__name__])

_conf_cache = {}


def load_conf(text):
    c = _conf_cache.get(text)
    if c is None:
        fn = os.path.join(_tmp, "conf.%d.yaml" % os.getpid())
        with open(fn, "w") as f:
            f.write(text)
        c = paf.conf.load(fn)
        os.unlink(fn)
        _conf_cache[text] = c
    return c


# ------------------------------------------- state outside the instances
#
# Every episode must start as a fresh process would. Module globals, class
# attributes, default arguments and caches of the code under test are restored
# to what they were after import (the code as it is has no such state; a
# changed one may).

PLAIN = (type(None), bool, int, float, str, bytes, tuple)


def _spaces():
    for name, mod in sorted(sys.modules.items()):
        if (name == "paf" or name.startswith("paf.")) and mod is not None:
            yield mod
            for k, v in sorted(vars(mod).items()):
                if isinstance(v, type) and v.__module__ == name:
                    yield v


def _holders():
    import types
    seen = set()
    for name, mod in sorted(sys.modules.items()):
        if not (name == "paf" or name.startswith("paf.")) or mod is None:
            continue
        for ns, label in [(mod, name)] + [
                (v, name + "." + k) for k, v in sorted(vars(mod).items())
                if isinstance(v, type) and v.__module__ == name]:
            for k, v in list(vars(ns).items()):
                if isinstance(v, (types.ModuleType, type)):
                    continue
                f = getattr(v, "__func__", v)
                if isinstance(f, types.FunctionType):
                    for d in (f.__defaults__ or ()) + tuple(
                            (f.__kwdefaults__ or {}).values()):
                        if isinstance(d, (dict, list, set)) and \
                           id(d) not in seen:
                            seen.add(id(d))
                            yield (None, label + "." + k, d)
                    continue
                if k.startswith("__"):
                    continue
                if hasattr(v, "cache_clear"):
                    yield (None, label + "." + k, v)
                    continue
                yield (ns, k, v)


class GlobalState:
    def __init__(self):
        self.items = []
        self.caches = []
        for ns, k, v in _holders():
            if hasattr(v, "cache_clear"):
                self.caches.append(v)
                continue
            import collections
            if isinstance(v, (dict, list, set, collections.deque)):
                c = v.copy()
            elif type(v).__module__.startswith("paf.") and \
                    hasattr(v, "__dict__"):
                c = dict(vars(v))
            elif isinstance(v, PLAIN) or ns is not None:
                c = None
            else:
                continue
            self.items.append((ns, k, v, c))
        self.names = [(ns, set(vars(ns))) for ns in _spaces()]

    def restore(self):
        for ns, names in self.names:
            for k in set(vars(ns)) - names:
                delattr(ns, k)
        for v in self.caches:
            v.cache_clear()
        for ns, k, v, c in self.items:
            if ns is not None and vars(ns).get(k) is not v:
                setattr(ns, k, v)
            if c is None:
                continue
            if isinstance(v, dict):
                if v != c or list(v) != list(c):
                    v.clear()
                    v.update(c)
            elif isinstance(v, set):
                if v != c:
                    v.clear()
                    v.update(c)
            elif hasattr(v, "extend"):
                if v != c:
                    v.clear()
                    v.extend(c)
            elif vars(v) != c:
                vars(v).clear()
                vars(v).update(c)

    def roots(self):
        """Current values, for the canonical state."""
        out = []
        for ns, k, v, c in self.items:
            cur = vars(ns).get(k) if ns is not None else v
            if c is not None:
                if cur != c if not hasattr(cur, "__dict__") else \
                        vars(cur) != c:
                    out.append((k, cur))
            elif cur is not v:
                out.append((k, cur))
        for ns, names in self.names:
            for k in sorted(set(vars(ns)) - names):
                out.append((k, vars(ns)[k]))
        return out


global_state = None


def fresh_globals():
    global global_state
    if global_state is None:
        global_state = GlobalState()
    else:
        global_state.restore()


# ------------------------------------------------------------- episode

class Peer:
    """A raw wire-level client (or scripted server side) owned by the driver."""

    def __init__(self, ep_idx, tag=None):
        self.ep = ep_idx
        self.tag = tag
        self.closed = False
        self.log = []

    def send_raw(self, data):
        if self.closed:
            return
        stub.stub_send(self.ep, data, len(data))

    def send(self, **fields):
        self.send_raw(json.dumps({k.replace('_', '-'): v
                                  for k, v in fields.items()}).encode())

    def recv(self):
        out = []
        while True:
            d = stub_recv(self.ep)
            if d is None:
                return out
            out.append(decode(d))

    def recv1(self):
        d = stub_recv(self.ep)
        return None if d is None else decode(d)

    def pending(self):
        return stub.stub_rx_count(self.ep)

    def cap(self, n):
        stub.stub_set_cap(self.ep, n)

    def close(self):
        if not self.closed:
            self.closed = True
            stub.stub_close(self.ep)

    def reset(self, err=errno.ECONNRESET):
        if not self.closed:
            self.closed = True
            stub.stub_abort(self.ep, err)

    def dropped(self):
        return bool(stub.stub_closed_by_peer(self.ep))

    def accepted(self):
        return bool(stub.stub_accepted(self.ep))


def _pairs(pairs):
    d = {}
    for k, v in pairs:
        if k in d:
            raise Violation("message repeats the field %r" % k)
        d[k] = v
    return d


def decode(data):
    try:
        m = json.loads(data.decode('utf-8'), object_pairs_hook=_pairs)
    except ValueError:
        raise Violation("server sent something that is not JSON: %r" %
                        data[:200])
    if not isinstance(m, dict):
        raise Violation("server sent a non-object: %r" % data[:200])
    return m


class Episode:
    """One execution of the real daemon under a driver.

    The driver is a generator running whenever the daemon is quiescent:
    'yield' lets the daemon run until it is quiescent again, 'yield t' lets
    t seconds of virtual time pass (timers firing on the way)."""

    POLL_LIMIT = 20000

    def __init__(self, conf_text, rnd=0.5, now=T0):
        self.conf_text = conf_text
        self.polls = 0
        self.sleep_until = None
        self.gen = None
        self.died = None
        self.error = None
        self.pruned = False
        self.internal = None
        self.hang = None
        self.use_real_fds = False
        self.client_wait = None
        self.order = None       # callable reordering ready descriptors
        self.finished = False
        self.exit_code = None
        self.servers = None
        self.wait_trace = None
        self.on_wait = None
        self.late = 0.0         # scheduling delay added to every time-out
        fresh_globals()
        OwnedRandom.value = rnd
        Clock.now = now
        Clock.calls = 0
        Clock.boom = 0
        stub.stub_reset()

    @property
    def now(self):
        return Clock.now

    def connect(self, addr, remote="ux:peer", ski=None, tag=-1):
        if ski is None:
            e = stub.stub_connect(addr.encode(), remote.encode(), None, -1,
                                  tag)
        else:
            e = stub.stub_connect(addr.encode(), remote.encode(), ski,
                                  len(ski), tag)
        if e < 0:
            return None
        return Peer(e, tag)

    def advance(self, t):
        self.sleep_until = Clock.now + t

    def epoll_wait(self, ep, timeout):
        Clock.calls = 0
        if self.on_wait is not None:
            self.on_wait()
        self.polls += 1
        if self.polls > self.POLL_LIMIT:
            raise Hang("the server never becomes idle")
        evs = ep.ready()
        if evs:
            return self.order(evs) if self.order and len(evs) > 1 else evs
        if timeout is None or timeout < 0:
            deadline = None
        else:
            deadline = Clock.now + math.ceil(timeout * 1000) / 1000.0
        if self.wait_trace is not None:
            self.wait_trace.append((Clock.now, deadline))
        while True:
            self.polls = 0
            if self.sleep_until is not None:
                if deadline is not None and \
                   deadline + self.late <= self.sleep_until:
                    Clock.now = max(Clock.now, deadline + self.late)
                    # a zero-length wait must not stall the sleep
                    if self.sleep_until <= Clock.now:
                        self.sleep_until = None
                    return []
                Clock.now = self.sleep_until
                self.sleep_until = None
            else:
                self.cur_epoll = ep
                self.cur_deadline = deadline
                try:
                    d = next(self.gen)
                except StopIteration:
                    self.finished = True
                    raise EpisodeEnd()
                except Exception:
                    import traceback
                    self.internal = traceback.format_exc()
                    raise EpisodeEnd()
                if d is not None:
                    self.sleep_until = Clock.now + d
            evs = ep.ready()
            if evs:
                return self.order(evs) if self.order and len(evs) > 1 \
                    else evs

    def run(self, gen, conf=None, call=None):
        """gen: driver generator; call: what to run instead of the daemon's
        run function. Returns self."""
        global CUR, captured_servers
        self.gen = gen
        CUR = self
        captured_servers = None
        capture.last = None
        if conf is None and call is None:
            conf = load_conf(self.conf_text)
        try:
            if call is not None:
                call()
            else:
                paf.daemon.run(conf, "vworld.hook")
            self.died = ("returned", "the server's run loop returned")
        except EpisodeEnd:
            pass
        except SystemExit as e:
            self.exit_code = e.code
            if capture.last is not None:
                t, v, tb = capture.last
                self.died = ("%s" % t.__name__,
                             "server terminated by %s: %s" % (t.__name__, v))
            else:
                self.died = ("exit", "server exited with status %r" % e.code)
        except Hang as e:
            self.hang = str(e)
        except Violation as e:
            self.error = e
        except Prune:
            self.pruned = True
        finally:
            CUR = None
            capture.last = None
            gen.close()
            captured_servers = None
        return self


class Alarm(BaseException):
    pass


def _on_alarm(signo, frame):
    raise Hang("the server stopped making progress (watchdog)")


def arm(seconds):
    signal.signal(signal.SIGALRM, _on_alarm)
    signal.setitimer(signal.ITIMER_REAL, seconds)


def disarm():
    signal.setitimer(signal.ITIMER_REAL, 0)
