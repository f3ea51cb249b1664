"""P23: termination.

A termination signal is delivered to the process in every state reached by
short histories, while the server is idle and during each of the library calls
it makes; faults are put at every position of the start-up. The real daemon
has to end, with the right status and everything released."""
import errno
import gc
import itertools
import json
import os
import signal
import subprocess
import sys

import vworld
from choose import batches, choices
from vworld import (Clock, Episode, Hang, Prune, Violation, capture, stub,
                    OP_SERVER, OP_FD, OP_AWAIT)

SIGS = (signal.SIGTERM, signal.SIGINT, signal.SIGHUP)
A, B, TLS = "ux:a", "ux:b", "tls:127.0.0.1:1"
CONF = """domains:
- name: d0
  addrs: [ "%s", "%s" ]
  idle: { min: 4, max: 10 }
- name: d1
  addrs: [ "%s" ]
resources:
  total: { clients: %d }
log: { syslog: false }
"""


class Unhandled:
    seen = []

    @staticmethod
    def handler(signo, frame):
        Unhandled.seen.append(signo)


def take_signals():
    """As long as the code has no handler, a signal would end the process."""
    Unhandled.seen = []
    for s in SIGS:
        signal.signal(s, Unhandled.handler)
    signal.set_wakeup_fd(-1)


class Run:
    """The daemon and raw clients."""

    def __init__(self, ch, maxclients=100):
        take_signals()
        self.ch = ch
        self.ep = Episode(CONF % (A, TLS, B, maxclients))
        self.ep.use_real_fds = True
        self.peers = {}
        self.n = 0
        self.signalled = False

    def send(self, c, **kw):
        self.n += 1
        self.peers[c].send(ta_id=kw.pop("ta_id", self.n), **kw)

    pile = 12

    def options(self):
        out = []
        for c, addr in ((1, A), (2, TLS), (3, B)):
            p = self.peers.get(c)
            if p is None:
                out.append((c, "connect", addr))
                continue
            if not p.hello:
                out += [(c, "hello", 3), (c, "hello", 2), (c, "junk")]
            else:
                out += [(c, "publish"), (c, "subscribe"), (c, "full")]
                if p.hello == 3:
                    out.append((c, "track"))
                if p.subscribed:
                    out.append((c, "unsubscribe"))
            out += [(c, "close"), (c, "reset")]
        out += [("wait", 3), ("wait", 60)]
        return out

    def do(self, o):
        if o[0] == "wait":
            return o[1]
        c, what = o[:2]
        if what == "connect":
            p = self.ep.connect(o[2], remote="ux:c%d" % c, tag=c,
                                ski=b"k" if o[2] == TLS else None)
            if p is None:
                raise Violation("no longer listening on %s" % o[2])
            p.hello = p.subscribed = 0
            self.peers[c] = p
            return
        p = self.peers[c]
        if what == "hello":
            p.hello = o[2]
            self.send(c, ta_cmd="hello", msg_type="request", client_id=10 + c,
                      protocol_minimum_version=2,
                      protocol_maximum_version=o[2])
        elif what == "junk":
            p.send_raw(b"{")
        elif what == "publish":
            self.send(c, ta_cmd="publish", msg_type="request",
                      service_id=c, generation=self.n,
                      service_props={"a": [1]}, ttl=20)
        elif what == "subscribe":
            p.subscribed += 1
            self.send(c, ta_cmd="subscribe", msg_type="request",
                      subscription_id=c * 10 + p.subscribed)
        elif what == "unsubscribe":
            self.send(c, ta_cmd="unsubscribe", msg_type="request",
                      subscription_id=c * 10 + p.subscribed)
            p.subscribed -= 1
        elif what == "track":
            self.send(c, ta_cmd="track", msg_type="request")
        elif what == "full":
            # output piles up
            p.cap(p.pending())
            for i in range(Run.pile):
                self.send(c, ta_cmd="ping", msg_type="request")
        elif what in ("close", "reset"):
            getattr(p, what)()
            self.old.append(self.peers.pop(c))

    def prepare(self, setup):
        self.old = []
        yield
        for o in setup:
            yield self.do(o)

    def driver(self, depth, moments, setup=()):
        ch = self.ch
        yield from self.prepare(setup)
        for i in range(depth):
            opts = [("stop",)] + self.options()
            o = ch.pick(opts)
            ch.ops += 1
            if o[0] == "stop":
                break
            yield self.do(o)
            for p in list(self.peers.values()):
                if p.cap_ok():
                    p.recv()
        yield from self.end(moments)

    def state(self):
        return [[c, p.hello, p.subscribed, p.closed, p.pending()]
                for c, p in sorted(self.peers.items())], \
            stub.stub_num(), self.n, Clock.now

    def end(self, moments):
        ch = self.ch
        signo = ch.pick(SIGS)
        when = ch.choose(moments + 1)
        last = None
        if when:
            # during one of the library calls that something leads to
            opts = [o for o in self.options() if len(o) < 2 or
                    o[1] not in ("junk", "unsubscribe")]
            o = ch.pick(opts)
            stub.stub_raise(when, signo)
            self.signalled = None
            last = self.do(o)
            yield last
            if stub.stub_raise_left():
                stub.stub_raise(0, 0)
                raise Prune()
        else:
            self.signalled = True
            os.kill(os.getpid(), signo)
            again = ch.choose(4)
            if again:
                # another one, while it terminates
                stub.stub_raise(again, SIGS[again % 3])
            yield
        self.signalled = True
        raise Violation("the server goes on after the signal %s" %
                        signal.Signals(signo).name)

    def outcome(self):
        """After the daemon's end."""
        ep = self.ep
        if ep.error is not None:
            raise ep.error
        if ep.pruned:
            raise Prune()
        if ep.internal:
            raise RuntimeError(ep.internal)
        if ep.hang:
            raise Violation(ep.hang)
        if Unhandled.seen:
            raise Violation("the signal %r is not handled" % Unhandled.seen)


def status(ep, fun):
    """Runs it; the status the process would end with."""
    res = []

    def call():
        try:
            fun()
            res.append(0)
        except SystemExit as e:
            c = e.code
            res.append(0 if c is None else c if isinstance(c, int) else 1)
        except (Violation, Hang, Prune, vworld.EpisodeEnd):
            raise
        except Exception as e:
            import traceback
            res.append(1)
            Run.last = "%s: %s" % (type(e).__name__, e)
        # before any garbage is collected
        Run.open = stub.stub_live()
        Run.listening = stub.stub_live() - stub.stub_live_conns()
        if capture.last is not None:
            Run.last = "%s: %s" % (capture.last[0].__name__, capture.last[1])
    Run.last = None
    return res, call


def released(conns=True):
    gc.collect()
    if stub.stub_misuse():
        raise Violation(stub.stub_misuse_text().decode())
    left = stub.stub_live() if conns else \
        stub.stub_live() - stub.stub_live_conns()
    if left:
        raise Violation("%d transport sockets are not closed" % left)


def cap_ok(self):
    return self.ep is not None and not self.closed


vworld.Peer.cap_ok = cap_ok


JOINED = [(c, "connect", a) for c, a in ((1, A), (2, TLS), (3, B))]
MET = JOINED + [(1, "hello", 3), (2, "hello", 2), (3, "hello", 3)]
BUSY = MET + [(c, w) for w in ("publish", "subscribe") for c in (1, 2, 3)] + \
    [(1, "track"), (3, "track")]
STUCK = BUSY + [(1, "full"), (2, "full")]
LEFT = BUSY + [(2, "close"), (3, "reset"), (2, "connect", A),
               (2, "hello", 3)]
SETUPS = dict(joined=JOINED, met=MET, busy=BUSY, stuck=STUCK, left=LEFT)


def histories(depth, moments, maxclients=100, setup=()):
    def fun(ch):
        import paf.daemon
        gc.disable()
        gc.collect()
        r = Run(ch, maxclients)
        conf = vworld.load_conf(r.ep.conf_text)
        res, call = status(r.ep, lambda: paf.daemon.run(conf, "vworld.hook"))
        r.ep.run(r.driver(depth, moments, setup), call=call)
        r.outcome()
        if not res:
            raise Violation("no status")
        if res[0] != 0:
            raise Violation("ends with status %r (%s)" % (res[0], Run.last))
        if Run.open:
            raise Violation("exits with %d transport sockets open" %
                            Run.open)
        released()
        for p in list(r.peers.values()) + r.old:
            if not p.closed and not p.dropped():
                raise Violation("a client connection is not ended")
        return r.state()
    return fun


def internal_errors(depth, kind, setup=()):
    """Something goes wrong inside, at any point: it ends, or goes on, but
    does not hang, and does not end as if nothing was wrong."""
    def fun(ch):
        import paf.daemon
        gc.disable()
        gc.collect()
        r = Run(ch, 2)
        conf = vworld.load_conf(r.ep.conf_text)
        st = {}

        def driver():
            yield from r.prepare(setup)
            for i in range(depth):
                o = ch.pick([("stop",)] + r.options())
                ch.ops += 1
                if o[0] == "stop":
                    break
                yield r.do(o)
            o = ch.pick(r.options() + [("term",)])
            at = 1 + ch.choose(6)
            if kind == "clock":
                Clock.boom = at
            else:
                stub.stub_fail(OP_AWAIT, errno.EINVAL, at - 1, 1)
            st["on"] = True
            if o[0] == "term":
                os.kill(os.getpid(), signal.SIGTERM)
                st["term"] = True
                yield
            else:
                yield r.do(o)
            Clock.boom = 0
            stub.stub_fail(OP_AWAIT, 0, 0, 0)
            if "term" in st:
                raise Violation("the server goes on after SIGTERM")
            # it still runs: then it can still be ended
            st["on"] = False
            os.kill(os.getpid(), signal.SIGTERM)
            yield
            raise Violation("the server goes on after SIGTERM")

        res, call = status(r.ep, lambda: paf.daemon.run(conf, "vworld.hook"))
        r.ep.run(driver(), call=call)
        Clock.boom = 0
        r.outcome()
        if not res:
            raise Violation("no status")
        if st.get("on") and "term" not in st and res[0] == 0:
            raise Violation("a fatal error ends the server with status zero")
        if not st.get("on") and res[0] != 0:
            raise Violation("ends with status %r (%s)" % (res[0], Run.last))
        if st.get("on") and "term" not in st and Run.listening:
            raise Violation("exits with %d listening sockets open (%s)" % (
                Run.listening, Run.last))
        released(conns=res[0] == 0)
        return res[0], r.state(), st.get("term", 0)
    return fun


def domains():
    """Configurations of up to three domains of up to three sockets."""
    shapes = [s for n in (1, 2, 3) for s in itertools.product((1, 2, 3),
                                                              repeat=n)]
    return shapes


def shape_conf(shape, dup=None):
    lines, names, n = ["domains:"], [], 0
    for d, k in enumerate(shape):
        addrs = []
        for i in range(k):
            addrs.append("ux:s%d" % (dup if n == dup_at(dup, shape) else n)
                         if dup is not None else "ux:s%d" % n)
            n += 1
        lines += ["- name: d%d" % d, "  addrs: [ %s ]" % ", ".join(
            '"%s"' % a for a in addrs)]
        names += addrs
    return "\n".join(lines + ["log: { syslog: false }"]) + "\n", names


def dup_at(dup, shape):
    return sum(shape) - 1


def startup(b, item):
    """A fault or a signal at every position of the start-up."""
    import paf.daemon
    shape, kind = item
    total = sum(shape)
    gc.disable()

    def once(what, prepare, dup=None):
        gc.collect()
        take_signals()
        text, names = shape_conf(shape, dup)
        ep = Episode(text)
        ep.use_real_fds = True
        st = {"idle": False}

        def driver():
            st["idle"] = True
            yield from ()
        conf = vworld.load_conf(text)
        prepare()
        res, call = status(ep, lambda: paf.daemon.run(conf, "vworld.hook"))
        ep.run(driver(), call=call)
        made = stub.stub_num()
        b.n += 1
        b.states += 1
        stub.stub_raise(0, 0)
        desc = "%r, %s" % (shape, what)
        if ep.hang:
            raise Violation("%s: %s" % (desc, ep.hang))
        if Unhandled.seen:
            # a signal before there are any handlers ends the process
            b.note("signals before handlers")
            return
        if st["idle"]:
            raise Violation("%s: the server goes on" % desc)
        # what a domain that never came into being had opened is left to
        # the end of the process
        if (Run.open if res[0] == 0 else Run.listening) > (
                0 if res[0] == 0 else unfinished(shape, made, what)):
            raise Violation("%s: exits with %d listening sockets open" % (
                desc, Run.listening))
        try:
            released()
        except Violation as e:
            raise Violation("%s: %s" % (desc, e.msg))
        return res[0]

    if kind == "fail":
        for op, name in ((OP_SERVER, "server"), (OP_FD, "fd"),
                         (OP_AWAIT, "await")):
            for k in range(total):
                for err in (errno.EADDRINUSE, errno.EACCES, errno.EINVAL,
                            errno.EPROTONOSUPPORT, errno.EAGAIN):
                    s = once("%s call %d failing with %s" % (name, k, err),
                             lambda: stub.stub_fail(op, err, k, 1))
                    if s == 0:
                        raise Violation("%r: status zero, though %s call %d "
                                        "failed" % (shape, name, k))
        if total > 1:
            for dup in range(total - 1):
                s = once("server address %d given twice" % dup, lambda: None, dup)
                if s == 0:
                    raise Violation("%r: status zero, though an address is "
                                    "in use" % (shape,))
    else:
        for signo in SIGS:
            for k in range(1, 3 * total + 3):
                def prepare():
                    stub.stub_raise(k, signo)
                try:
                    s = once("signal during call %d" % k, prepare)
                except Violation as e:
                    if "goes on" in e.msg and k > 3 * total:
                        continue    # it never came
                    raise
                if s not in (0, None):
                    raise Violation("%r: status %r after a signal" % (shape,
                                                                      s))


def unfinished(shape, made, what):
    """The number of sockets of the domain that was being created."""
    for n in shape:
        if made < n or made == n and not what.startswith("server"):
            return made
        made -= n
    return 0


CHILD = """
import os, sys, json
sys.path[:0] = %r
import vworld
spec = json.loads(sys.argv[1])
import p23child
p23child.main(spec)
"""


def child(spec):
    """The outcome of a real process."""
    out = os.path.join(vworld._tmp, "exit.%d" % os.getpid())
    if os.path.exists(out):
        os.unlink(out)
    env = dict(os.environ, VERIF_STUB=vworld.STUB, VERIF_STUB_EXIT=out,
               PYTHONHASHSEED="0")
    here = os.path.dirname(os.path.abspath(__file__))
    r = subprocess.run([sys.executable, "-c", CHILD % (
        [os.path.join(os.path.dirname(here), "harness"), here],),
        json.dumps(spec)], env=env, stdout=subprocess.PIPE,
        stderr=subprocess.STDOUT, text=True, timeout=60)
    try:
        with open(out) as f:
            servers, live, made, misuse, closes = map(int, f.read().split())
        os.unlink(out)
    except (OSError, ValueError):
        raise Violation("%r: the process does not exit in an orderly "
                        "fashion: %s" % (spec, r.stdout[-500:]))
    return r.returncode, servers, live, made, misuse, r.stdout


def processes(b, spec):
    b.n += 1
    b.states += 1
    try:
        rc, servers, live, made, misuse, out = child(spec)
    except subprocess.TimeoutExpired:
        raise Violation("%r: the process never ends" % spec)
    if "harness" in out and "HARNESS" in out:
        raise RuntimeError(out)
    ok = spec["kind"] == "signal"
    if ok and rc != 0:
        raise Violation("%r: status %r: %s" % (spec, rc, out[-300:]))
    if not ok and rc <= 0:
        raise Violation("%r: status %r: %s" % (spec, rc, out[-300:]))
    if servers:
        raise Violation("%r: %d listening sockets are left open" % (
            spec, servers))
    if ok and live:
        raise Violation("%r: %d connections are left open" % (spec, live))
    if misuse:
        raise Violation("%r: sockets are misused" % spec)
    if not ok and spec["kind"] != "conf" and made != spec.get("made", made):
        raise Violation("%r: unexpectedly many sockets" % spec)
    b.note("processes")


def specs(t):
    out = []
    for signo in SIGS:
        for clients in range(4):
            for extra in ("", "pub", "full"):
                out.append(dict(kind="signal", signo=int(signo),
                                shape=[2, 1], clients=clients, extra=extra))
    for shape in ((1,), (2,), (1, 2), (2, 1), (1, 1, 1), (3,)) if not t \
            else domains():
        for k in range(sum(shape)):
            out.append(dict(kind="fail", shape=shape, at=k))
        out.append(dict(kind="hook", shape=shape))
        out.append(dict(kind="dup", shape=shape))
        for at in range(1, 4):
            out.append(dict(kind="internal", shape=shape, at=at))
    return out


def run(check):
    t = check.thorough
    if t:
        Run.pile = 140
    batches(check, "start-up", startup,
            [(s, k) for s in domains() for k in ("fail", "signal")])
    batches(check, "processes", processes, specs(t))
    choices(check, "at-rest", histories(4, 0), 8)
    choices(check, "full-house", histories(4, 0, 2), 8)
    choices(check, "any-moment", histories(2, 16), 6)
    for k in ("await", "clock"):
        choices(check, "internal-" + k, internal_errors(3 if t else 2, k), 8)
    for n, setup in SETUPS.items():
        choices(check, n + "-at-rest", histories(4 if t else 2, 0, 100,
                                                 setup), 8)
        choices(check, n + "-any-moment", histories(
            2 if t else 1, 48 if t else 32, 100, setup), 8)
        for k in ("await", "clock"):
            choices(check, "%s-internal-%s" % (n, k),
                    internal_errors(2 if t else 1, k, setup), 8)
    if t:
        choices(check, "longer-at-rest", histories(5, 0), 9)
        choices(check, "longer-any-moment", histories(3, 16), 7)
