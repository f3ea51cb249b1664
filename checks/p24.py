"""P24: the transport binding passes everything on, one-to-one.

Sequences of operations on paf.xcm are run against the stand-in library, which
records each call that arrives with its result; a library call can fail with
any error. What the binding reports has to be what the library reported, what
arrives at the library has to be what was given, and whatever was acquired is
released exactly once."""
import errno
import gc
import os

import vworld
from choose import batches, choices
from vworld import (Violation, stub, stub_attrs, stub_recv, stub_calls_made,
                    OP_CONNECT, OP_SERVER, OP_ACCEPT, OP_SEND, OP_RECEIVE,
                    OP_FINISH, OP_GET, OP_SET, OP_AWAIT, OP_FD, OP_CLOSE,
                    OP_BLOCKING)

import paf.xcm as xcm

ALL_ERRNOS = [e for e in sorted(errno.errorcode)]
ATTRS = [{}, {"xcm.blocking": False},
         {"xcm.blocking": False, "tls.cert_file": "/etc/ö b"},
         {"xcm.blocking": True, "a.b": 0, "c": "", "d": -1},
         {"x": 1, "y": True, "z": (1 << 63) - 1, "w": -(1 << 63),
          "v": "1", "u": False, "xcm.blocking": False}]
BAD_ATTRS = [{"xcm.blocking": False, "x": 1.5}, {"x": b"1"}, {"x": None},
             {"ok": 1, "x": []}]
DATA = [b"x", b"\0", b"a\0\0 ", b" a\n\0", bytes(range(256)), b"y" * 65535]
TOO_BIG = b"z" * 65536
ADDRS = ["ux:a", "tls:[::1]:4711"]


def shown(attrs):
    return {k: ("bool:%d" % v if isinstance(v, bool) else "int:%d" % v
                if isinstance(v, int) else "str:" + v)
            for k, v in attrs.items()}


def parsed(text):
    """(attributes, address)"""
    attrs = {}
    *ls, addr = text.decode().split("\n")
    for ln in ls:
        k, v = ln.split("=", 1)
        attrs[k] = v
    return attrs, addr


class Sock:
    def __init__(self, obj, ep, kind, blocking):
        self.obj = obj
        self.ep = ep
        self.kind = kind
        self.blocking = blocking
        self.rx = []            # what is there to be received
        self.attrs = {}


class World:
    """The operations, each compared with the record of the library."""

    def __init__(self):
        vworld.fresh_globals()
        stub.stub_reset()
        vworld.Clock.now = vworld.T0
        stub.stub_log(1)
        self.socks = []
        self.listen = None      # scripted server for connections
        self.trace = []
        self.kept = []

    def fail(self, op, err):
        if err:
            stub.stub_fail(op, err, 0, 1)

    def bad(self, what):
        raise Violation("%s: %s" % (self.trace, what))

    def call(self, label, fun, *args, **kw):
        """The result, or the exception."""
        self.trace.append(label)
        try:
            return fun(*args, **kw), None
        except (Violation, vworld.Hang):
            raise
        except Exception as e:
            e.__traceback__ = None
            return None, e

    def one(self, op, ep=None, ival=None, text=None):
        """The only call made, as expected."""
        made = stub_calls_made()
        made = [m for m in made if m[0] != OP_CLOSE]
        if len(made) != 1 or made[0][0] != op:
            self.bad("the library is called as %r" % (made,))
        m = made[0]
        if ep is not None and m[1] != ep:
            self.bad("the wrong socket is used: %r" % (m,))
        if ival is not None and m[4] != ival:
            self.bad("the library is called with %r" % (m,))
        if text is not None and m[5].decode() != text:
            self.bad("the library is called with %r" % (m,))
        return m

    def failed(self, m, e):
        """The library's error has to arrive as such."""
        if m[2] >= 0:
            if e is not None:
                self.bad("succeeds, but %s: %s is raised" % (
                    type(e).__name__, e))
            return False
        if not isinstance(e, xcm.error) or e.errno != m[3]:
            self.bad("fails with %s, but the outcome is %r" % (
                errno.errorcode[m[3]], e))
        return True

    def check(self):
        if stub.stub_live_maps():
            self.bad("an attribute map is not released")
        if stub.stub_misuse():
            self.bad(stub.stub_misuse_text().decode())
        live = sum(1 for s in self.socks if s.obj is not None)
        if stub.stub_live() != live:
            self.bad("%d transport sockets are open instead of %d" % (
                stub.stub_live(), live))

    # -------------------------------------------------- the operations

    def server(self, addr, attrs, err=0):
        self.fail(OP_SERVER, err)
        given = dict(attrs)
        o, e = self.call(("server", addr, attrs, err), xcm.server, addr,
                         attrs=attrs)
        self.made(OP_SERVER, o, e, addr, given, "server")

    def connect(self, addr, attrs, flags=0, err=0, how=0):
        if self.listen is None and stub.stub_find_server(
                addr.encode()) < 0 and not how:
            self.listen = stub.stub_server_new(addr.encode())
        self.fail(OP_CONNECT, err)
        given = dict(attrs)
        if flags:
            o, e = self.call(("connect", addr, flags, attrs, err),
                             xcm.connect, addr, flags, attrs=attrs)
            given["xcm.blocking"] = False
        else:
            o, e = self.call(("connect", addr, attrs, err), xcm.connect,
                             addr, attrs=attrs)
        self.made(OP_CONNECT, o, e, addr, given, "conn")

    def made(self, op, o, e, addr, given, kind, ival=None):
        m = self.one(op, ival=ival)
        got, gotaddr = parsed(m[5]) if addr is not None else \
            parsed(m[5] + b"@")
        if addr is not None and gotaddr != "@" + addr:
            self.bad("the address given is %r" % gotaddr)
        if got != shown(given):
            self.bad("arrives with the attributes %r" % got)
        if not self.failed(m, e):
            s = Sock(o, m[1], kind, given.get("xcm.blocking", True))
            s.attrs = shown(given)
            self.socks.append(s)
            return s

    def misgiven(self, what, *args, **kw):
        """Arguments that cannot be passed on."""
        o, e = self.call((what,) + args, getattr(xcm, what), *args, **kw)
        if not isinstance(e, (TypeError, ValueError)):
            self.bad("outcome %r, %r" % (o, e))
        if [m for m in stub_calls_made()]:
            self.bad("the library is called")

    def accept(self, s, attrs, err=0):
        if s.blocking and not stub.stub_pending(s.ep) and not err:
            return
        self.fail(OP_ACCEPT, err)
        given = dict(attrs)
        if attrs:
            o, e = self.call(("accept", attrs, err), s.obj.accept,
                             attrs=attrs)
        else:
            o, e = self.call(("accept", err), s.obj.accept)
        n = self.made(OP_ACCEPT, o, e, None, given, "conn", ival=s.ep)
        if n is not None:
            n.blocking = given.get("xcm.blocking", s.blocking)
            if not isinstance(o, xcm.ConnectionSocket):
                self.bad("a %r is accepted" % type(o))
        stub.stub_fail(OP_ACCEPT, 0, 0, 0)

    def bad_accept(self, s, attrs):
        o, e = self.call(("accept", attrs), s.obj.accept, attrs=attrs)
        if not isinstance(e, TypeError):
            self.bad("outcome %r, %r" % (o, e))
        if stub_calls_made():
            self.bad("the library is called")

    def send(self, s, data, err=0):
        peer = stub.stub_peer_of(s.ep)
        if s.blocking:
            stub.stub_set_cap(peer, -1)
        self.fail(OP_SEND, err)
        r, e = self.call(("send", len(data), err), s.obj.send, data)
        m = self.one(OP_SEND, s.ep, len(data))
        if not self.failed(m, e):
            if r != m[2]:
                self.bad("returns %r instead of %r" % (r, m[2]))
            got = []
            while True:
                d = stub_recv(peer)
                if d is None:
                    break
                got.append(d)
            if got[-1] != data:
                self.bad("what is sent is not what was given")
            # put it back as being in flight
            for d in got:
                stub.stub_send(s.ep, d, len(d))
            for o in self.socks:
                if o.ep == peer:
                    o.rx.append(data)

    def receive(self, s, err=0):
        if s.blocking and not err and not s.rx:
            return
        self.fail(OP_RECEIVE, err)
        r, e = self.call(("receive", err), s.obj.receive)
        m = self.one(OP_RECEIVE, s.ep)
        if m[4] < 65535:
            self.bad("at most %d bytes are received" % m[4])
        if not self.failed(m, e):
            if m[2] == 0:
                want = b""
            else:
                want = s.rx.pop(0)
            if type(r) is not bytes or r != want:
                self.bad("receives %r instead of %r" % (r[:20], want[:20]))

    def simple(self, s, name, op, args, err=0, ival=None, expect=None):
        self.fail(op, err)
        r, e = self.call((name,) + args + (err,), getattr(s.obj, name),
                         *args)
        m = self.one(op, s.ep, ival)
        if op == OP_AWAIT and m[2] < 0:
            if not isinstance(e, (ValueError, xcm.error)):
                self.bad("fails, but the outcome is %r" % e)
            return
        if not self.failed(m, e) and expect is not None and r != m[2]:
            self.bad("returns %r instead of %r" % (r, m[2]))

    def set_blocking(self, s, val, err=0):
        self.simple(s, "set_blocking", OP_BLOCKING, (val,), err, int(val))
        if not err:
            s.blocking = val
        if s.obj.is_blocking() is not s.blocking:
            self.bad("blocking is %r" % s.obj.is_blocking())

    def set_attr(self, s, name, val, err=0):
        self.fail(OP_SET, err)
        r, e = self.call(("set_attr", name, val, err), s.obj.set_attr, name,
                         val)
        (k, v), = shown({name: val}).items()
        m = self.one(OP_SET, s.ep, text="%s=%s" % (k, v))
        if not self.failed(m, e):
            s.attrs[k] = v
            if k == "xcm.blocking":
                s.blocking = val
        got = {k: v for k, v in stub_attrs(s.ep).items()}
        if got != s.attrs:
            self.bad("the attributes are %r instead of %r" % (got, s.attrs))

    def get_attr(self, s, name, raw=None, err=0):
        """raw: (type, data, value) the library reports."""
        self.fail(OP_GET, err)
        if raw is not None:
            stub.stub_get_override(raw[0], raw[1], len(raw[1]))
        r, e = self.call(("get_attr", name, raw, err), s.obj.get_attr, name)
        m = self.one(OP_GET, s.ep, text=name)
        stub.stub_get_override(-1, None, 0)
        if self.failed(m, e):
            return
        if raw is None:
            want = s.attrs.get(name)
            t, v = want.split(":", 1)
            want = {"bool": lambda: v == "1", "int": lambda: int(v),
                    "str": lambda: v}[t]()
        else:
            want = raw[2]
        if type(r) is not type(want) or r != want:
            self.bad("the value is %.60r instead of %.60r" % (r, want))

    def close(self, s, how):
        self.trace.append((how, s.ep))
        if how == "close":
            s.obj.close()
        o, s.obj = s.obj, None
        if how == "close":
            self.kept.append(o)
        del o
        made = stub_calls_made()
        if [m[:2] for m in made] != [(OP_CLOSE, s.ep)]:
            self.bad("the library is called as %r" % (made,))

    def done(self):
        self.kept = []
        for s in self.socks:
            s.obj = None
        self.check()
        if stub.stub_live():
            self.bad("a socket is left open")


def reset_fails():
    for op in range(12):
        stub.stub_fail(op, 0, 0, 0)


RAW = [(1, b"\0", False), (1, b"\1", True),
       (2, (0).to_bytes(8, "little"), 0),
       (2, (1 << 62).to_bytes(8, "little"), 1 << 62),
       (2, (-1).to_bytes(8, "little", signed=True), -1),
       (2, (-(1 << 63)).to_bytes(8, "little", signed=True), -(1 << 63)),
       (3, b"\0", ""), (3, b"abc\0", "abc"), (3, "ö€\0".encode(), "ö€"),
       (3, b"s" * 8191 + b"\0", "s" * 8191),
       (4, b"", b""), (4, b"\0", b"\0"), (4, b"a\0b\0", b"a\0b\0"),
       (4, bytes(range(256)), bytes(range(256))),
       (4, b"\xff" * 8192, b"\xff" * 8192)]


def singles(b, item):
    """Every operation with every error."""
    what, k = item

    def world():
        b.n += 1
        b.states += 1
        w = World()
        return w

    def conn(w):
        w.connect("ux:a", {"xcm.blocking": False})
        return w.socks[-1]

    errs = [0] + ALL_ERRNOS
    for err in errs if k is None else [k]:
        for addr in ADDRS if what in ("server", "connect") else [None]:
            for attrs in ATTRS if what in ("server", "connect", "accept") \
                    else [None]:
                for flags in (0, xcm.NONBLOCK) if what == "connect" \
                        else (0,):
                    w = world()
                    if what == "server":
                        w.server(addr, attrs, err)
                    elif what == "connect":
                        w.connect(addr, attrs, flags, err)
                    elif what == "accept":
                        w.server("ux:a", {"xcm.blocking": False})
                        w.accept(w.socks[0], attrs, err)
                        stub.stub_connect(b"ux:a", b"ux:x", None, -1, 0)
                        w.accept(w.socks[0], attrs, err)
                    w.check()
                    reset_fails()
                    w.done()
        if what == "send":
            for d in DATA + [TOO_BIG, b""]:
                w = world()
                s = conn(w)
                w.send(s, d, err)
                w.check()
                reset_fails()
                w.done()
        elif what == "receive":
            for d in DATA:
                w = world()
                s = conn(w)
                p = stub.stub_peer_of(s.ep)
                stub.stub_send(p, d, len(d))
                s.rx = [d]
                w.receive(s, err)
                w.check()
                w.receive(s, err)
                stub.stub_close(p)
                w.receive(s)
                w.receive(s)
                w.check()
                reset_fails()
                w.done()
            if err:
                w = world()
                s = conn(w)
                stub.stub_abort(stub.stub_peer_of(s.ep), err)
                w.receive(s)
                w.send(s, b"x")
                w.check()
                w.done()
        elif what == "get":
            for raw in RAW:
                w = world()
                s = conn(w)
                w.get_attr(s, "some.attr", raw, err)
                w.check()
                reset_fails()
                w.done()
        elif what == "set":
            for attrs in ATTRS:
                w = world()
                s = conn(w)
                for k2, v in attrs.items():
                    w.set_attr(s, k2, v, err)
                    w.get_attr(s, k2) if not err else None
                w.check()
                reset_fails()
                w.done()
        elif what == "other":
            for kind in ("conn", "server"):
                w = world()
                if kind == "conn":
                    s = conn(w)
                else:
                    w.server("ux:b", {"xcm.blocking": False})
                    s = w.socks[0]
                w.simple(s, "finish", OP_FINISH, (), err)
                w.simple(s, "fileno", OP_FD, (), err, expect=True)
                for fd in (0, 1, (1 << 31) - 1):
                    if not err:
                        stub.stub_fd_override(fd)
                        w.simple(s, "fileno", OP_FD, (), err, expect=True)
                for name, c in CONDITIONS:
                    # the values of xcm.h
                    w.simple(s, "set_target", OP_AWAIT, (getattr(xcm, name),),
                             err, c)
                for c in range(9):
                    w.simple(s, "set_target", OP_AWAIT, (c,), err, c)
                w.set_blocking(s, True, err)
                w.set_blocking(s, False, err)
                w.check()
                reset_fails()
                w.done()


def misgiven(b, i):
    bad = BAD_ATTRS[i]
    for addr in ADDRS:
        for flags in (0, 1):
            b.n += 1
            b.states += 1
            w = World()
            w.misgiven("server", addr, attrs=bad)
            w.check()
            w.misgiven("connect", addr, flags, attrs=bad)
            w.check()
            for f in (2, 3, -1):
                w.misgiven("connect", addr, f, attrs=ATTRS[i])
                w.check()
            w.server("ux:s", {"xcm.blocking": False})
            w.bad_accept(w.socks[0], bad)
            w.check()
            stub.stub_connect(b"ux:s", b"ux:x", None, -1, 0)
            w.bad_accept(w.socks[0], bad)
            w.check()
            w.accept(w.socks[0], {})
            w.check()
            for k, v in bad.items():
                if isinstance(v, (int, bool)):
                    continue
                o, e = w.call(("set_attr", k, v), w.socks[1].obj.set_attr,
                              k, v)
                if not isinstance(e, TypeError) or [
                        m for m in stub_calls_made() if m[0] == OP_SET]:
                    w.bad("outcome %r, %r" % (o, e))
            stub_calls_made()
            w.done()


CONDITIONS = (("SO_RECEIVABLE", 1), ("SO_SENDABLE", 2), ("SO_ACCEPTABLE", 4))
SEQ_ERRS = [0, errno.EAGAIN, errno.ECONNRESET]


def sequences(depth, nsocks):
    """All operation sequences on a few sockets."""
    def fun(ch):
        w = World()
        for step in range(depth):
            opts = [("stop",)]
            live = [s for s in w.socks if s.obj is not None]
            if len(live) < nsocks:
                opts += [("server", "ux:a", a, e) for a in (0, 1)
                         for e in (0, errno.EADDRINUSE)]
                opts += [("connect", "ux:a", a, f, e) for a, f in
                         ((0, 1), (1, 0), (4, 0))
                         for e in (0, errno.ECONNREFUSED)]
                opts.append(("badconnect",))
            for i, s in enumerate(w.socks):
                if s.obj is None:
                    continue
                opts += [("close", i), ("drop", i), ("fd", i, 0),
                         ("fd", i, errno.EBADF),
                         ("get", i, 0), ("get", i, errno.ENOENT),
                         ("set", i, 0), ("set", i, errno.EACCES),
                         ("block", i, 0), ("finish", i, errno.EAGAIN)]
                if s.kind == "server":
                    opts += [("peer-connect", i), ("accept", i, 0, 0),
                             ("accept", i, 2, 0),
                             ("accept", i, 2, errno.EMFILE),
                             ("accept", i, 0, errno.ECONNABORTED),
                             ("badaccept", i)]
                else:
                    opts += [("send", i, 2, 0), ("send", i, 0, 0),
                             ("send", i, 1, errno.EAGAIN),
                             ("send", i, 1, errno.EPIPE),
                             ("receive", i, 0),
                             ("receive", i, errno.ECONNRESET),
                             ("data", i), ("peer-close", i),
                             ("peer-reset", i), ("full", i)]
            op = ch.pick(opts)
            ch.ops += 1
            if op[0] == "stop":
                break
            run_op(w, op)
            w.check()
            reset_fails()
        n = stub.stub_num()
        w.done()
        return [str(x) for x in w.trace], n
    return fun


def run_op(w, op):
    k = op[0]
    if k == "server":
        w.server(op[1], ATTRS[op[2]], op[3])
        return
    if k == "connect":
        w.connect(op[1], ATTRS[op[2]], op[3], op[4], how=1)
        return
    if k == "badconnect":
        w.misgiven("connect", "ux:a", attrs=BAD_ATTRS[0])
        return
    s = w.socks[op[1]]
    peer = stub.stub_peer_of(s.ep)
    if k in ("close", "drop"):
        w.close(s, k)
    elif k == "fd":
        w.simple(s, "fileno", OP_FD, (), op[2], expect=True)
    elif k == "get":
        w.get_attr(s, "xcm.blocking" if "xcm.blocking" in s.attrs else "nix",
                   None, op[2])
    elif k == "set":
        w.set_attr(s, "some.thing", "x%d" % len(w.trace), op[2])
    elif k == "block":
        w.set_blocking(s, not s.blocking, op[2])
    elif k == "finish":
        w.simple(s, "finish", OP_FINISH, (), op[2])
    elif k == "peer-connect":
        stub.stub_connect(b"ux:a", b"ux:x", None, -1, 0)
    elif k == "accept":
        w.accept(s, ATTRS[op[2]], op[3])
        if w.socks[-1].kind == "conn":
            n = w.socks[-1]
            n.rx = list(getattr(w, "flight", {}).get(n.ep, n.rx))
    elif k == "badaccept":
        w.bad_accept(s, BAD_ATTRS[3])
    elif k == "send":
        w.send(s, DATA[op[2]], op[3])
        # not accepted yet: remember for later
        f = w.__dict__.setdefault("flight", {})
        if w.trace[-1][0] == "send" and not op[3] and \
           not any(o.ep == peer for o in w.socks) and \
           stub.stub_rx_count(peer) > len(f.get(peer, [])):
            f.setdefault(peer, []).append(DATA[op[2]])
    elif k == "receive":
        w.receive(s, op[2])
    elif k == "data":
        d = DATA[4] + bytes([len(w.trace)])
        if not any(o.ep == peer and o.obj is not None for o in w.socks):
            stub.stub_send(peer, d, len(d))
            s.rx.append(d)
    elif k == "peer-close":
        stub.stub_close(peer)
    elif k == "peer-reset":
        stub.stub_abort(peer, errno.ECONNRESET)
        s.rx = []
    elif k == "full":
        stub.stub_set_cap(peer, stub.stub_rx_count(peer))


def run(check):
    t = check.thorough
    batches(check, "each-operation", singles,
            [(w, k) for w in ("server", "connect", "accept", "send",
                              "receive", "get", "set", "other")
             for k in [0] + ALL_ERRNOS])
    batches(check, "unusable-arguments", misgiven, range(len(BAD_ATTRS)))
    choices(check, "sequences", sequences(4, 2), 4)
    choices(check, "one-socket", sequences(5, 1), 5)
    if t:
        choices(check, "longer-sequences", sequences(5, 3), 5)
        choices(check, "one-socket-longer", sequences(6, 1), 6)
