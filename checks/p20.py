"""P20: the client library hands over each transaction's events.

The real paf.client runs against a server scripted here, through the real
transport binding. At every point the script chooses what comes next: any
message a server could send for any open (or no) transaction, malformed ones,
loss of the connection, back-pressure. All scripts up to a length are run, and
the events, results and errors the user of the library sees are compared with
a model of the protocol's transactions."""
import errno
import json

import refproto as R
import vworld
from choose import choices
from vworld import Peer, Violation, Prune, stub

import paf.client as C

ADDR = "ux:server"


class Env:
    client_wait = None


class Lib:
    """A scripted server; the client's environment."""

    def __init__(self):
        vworld.fresh_globals()
        stub.stub_reset()
        vworld.Clock.now = vworld.T0
        vworld.Clock.calls = 0
        self.srv = stub.stub_server_new(ADDR.encode())
        self.peer = None
        self.env = Env()
        vworld.CUR = self.env
        self.out = []           # messages received from the client
        self.lost = False

    def take(self):
        s = stub.stub_server_take(self.srv)
        if s < 0:
            raise Violation("the client does not connect")
        self.peer = Peer(s)
        return self.peer

    def read(self):
        """Everything the client sent."""
        for m in self.peer.recv():
            self.out.append(m)

    def close(self, how):
        if how == "close":
            stub.stub_close(self.peer.ep)
        else:
            stub.stub_abort(self.peer.ep, errno.ECONNRESET)
        self.lost = True


# ------------------------------------------------------------------- model

SINGLE, MULTI, TWOWAY = "single", "multi", "two-way"
KIND = dict(hello=SINGLE, publish=SINGLE, unpublish=SINGLE,
            unsubscribe=SINGLE, ping=SINGLE, subscribe=MULTI,
            subscriptions=MULTI, services=MULTI, clients=MULTI, track=TWOWAY)
NAMES = dict(accept="ACCEPT", notify="NOTIFY", complete="COMPLETE",
             fail="FAIL")


def py(n):
    return n.replace("-", "_")


def value(kind, v):
    return {k: set(x) for k, x in v.items()} if kind == R.PROPS else v


class Model:
    def __init__(self, ver=None):
        self.ver = ver
        self.tas = {}           # ta-id -> [cmd, state, label]
        self.events = []        # expected
        self.last = None

    def request(self, ta, cmd, label):
        if ta in self.tas:
            raise Violation("transaction id %r is used twice at a time" % ta)
        self.tas[ta] = [cmd, "requested", label]

    def receive(self, data):
        """True: an event; False: an error; None: either."""
        self.last = None
        m = R.decode(data)
        if m is None:
            return False
        if self.ver is None and m.get('ta-cmd') != 'hello':
            return False
        err = R.check(m, self.ver or 3)
        if err is not None:
            return False
        ta = self.tas.get(m['ta-id'])
        if ta is None or ta[0] != m['ta-cmd']:
            return False
        cmd, state, label = ta
        t = m['msg-type']
        k = KIND[cmd]
        either = False
        if t == "accept":
            ok = k != SINGLE and state == "requested"
            ta[1] = "accepted"
        elif t == "notify":
            ok = k != SINGLE and state == "accepted"
        elif t == "complete":
            ok = state == ("requested" if k == SINGLE else "accepted")
        elif t == "fail":
            ok = True
            # only the description of two-way transactions mentions a failure
            # after the accept
            either = k == MULTI and state == "accepted"
        else:
            ok = False
        if not ok:
            return False
        if either:
            return None
        if t in ("complete", "fail"):
            del self.tas[m['ta-id']]
        req, opt = R.FORMATS[self.ver or 3][cmd, t]
        ev = (label, m['ta-id'], NAMES[t],
              [value(kk, m[n]) for n, kk in req.items()],
              {py(n): value(kk, m[n]) for n, kk in opt.items() if n in m})
        self.events.append(ev)
        self.last = ev
        return True


# ----------------------------------------------------------------- requests

PROPS = {"name": {"x", 3}}
REQS = {
    # name: (cmd, call(client, callback), expected fields of the request)
    "publish": ("publish", lambda c, cb: c.publish(5, 6, PROPS, 7,
                                                   response_cb=cb),
                {"service-id": 5, "generation": 6,
                 "service-props": {"name": {"x", 3}}, "ttl": 7}),
    "unpublish": ("unpublish", lambda c, cb: c.unpublish(5, response_cb=cb),
                  {"service-id": 5}),
    "subscribe": ("subscribe", lambda c, cb: c.subscribe(8, cb),
                  {"subscription-id": 8}),
    "subscribe-f": ("subscribe", lambda c, cb: c.subscribe(9, cb,
                                                           filter="(a=b)"),
                    {"subscription-id": 9, "filter": "(a=b)"}),
    "unsubscribe": ("unsubscribe", lambda c, cb: c.unsubscribe(
        8, response_cb=cb), {"subscription-id": 8}),
    "subscriptions": ("subscriptions", lambda c, cb: c.subscriptions(
        response_cb=cb), {}),
    "services": ("services", lambda c, cb: c.services(response_cb=cb), {}),
    "services-f": ("services", lambda c, cb: c.services(
        filter="(a=*)", response_cb=cb), {"filter": "(a=*)"}),
    "ping": ("ping", lambda c, cb: c.ping(response_cb=cb), {}),
    "clients": ("clients", lambda c, cb: c.clients(response_cb=cb), {}),
    "hello": ("hello", lambda c, cb: c.hello(response_cb=cb),
              {"client-id": 77, "protocol-minimum-version": None,
               "protocol-maximum-version": None}),
    "track": ("track", lambda c, cb: c.track(cb), {}),
}


MAX = (1 << 63) - 1
ENDS = {}


def ends():
    """Requests with the least and greatest values."""
    for v in (0, MAX):
        for p in ({}, {"": {""}}, {"k": {0, "0", ""}}, {"k": {v, -v - 1}}):
            yield "publish", lambda c, cb, v=v, p=p: c.publish(
                v, v, p, v, response_cb=cb), {
                    "service-id": v, "generation": v, "service-props": p,
                    "ttl": v}
        yield "unpublish", lambda c, cb, v=v: c.unpublish(
            v, response_cb=cb), {"service-id": v}
        yield "unsubscribe", lambda c, cb, v=v: c.unsubscribe(
            v, response_cb=cb), {"subscription-id": v}
        yield "subscribe", lambda c, cb, v=v: c.subscribe(v, cb), {
            "subscription-id": v}
        for f in ("", " ", "(a=b", "\0", "\u2603"):
            yield "subscribe", lambda c, cb, v=v, f=f: c.subscribe(
                v, cb, filter=f), {"subscription-id": v, "filter": f}
    for f in ("", " ", "(a=b", "\0", "\u2603"):
        yield "services", lambda c, cb, f=f: c.services(
            response_cb=cb, filter=f), {"filter": f}


for _i, _e in enumerate(ends()):
    ENDS["end%d" % _i] = _e

# the same for the answers
LEAST = {"service-id": 0, "generation": 0, "service-props": {}, "ttl": 0,
         "client-id": 0, "orphan-since": 0, "subscription-id": 0,
         "filter": "", "client-address": "", "time": 0, "idle": 0,
         "latency": 0, "fail-reason": "", "protocol-version": 3}
MOST = {"service-id": MAX, "generation": MAX, "ttl": MAX, "client-id": MAX,
        "service-props": {"": ["", 0, "0"], "\u2603\0": [-MAX - 1, MAX]},
        "orphan-since": 1e18, "subscription-id": MAX, "filter": "\u2603\0",
        "client-address": "\u2603", "time": MAX, "idle": 1e18,
        "latency": 1e-18, "fail-reason": "\u2603", "protocol-version": 3}


def extremes(ch):
    """Requests and answers with the least and the greatest values."""
    ver = ch.pick([3, 2])
    name = ch.pick(list(ENDS) + ["subscriptions", "clients", "ping"])
    vals = ch.pick([LEAST, MOST])
    r = Run(ver)
    r.issue("ping")
    ta = r.issue(name)
    r.spin()
    r.check_sent()
    cmd = (REQS.get(name) or ENDS[name])[0]
    for t in ch.pick([("fail",), ("complete",),
                      ("accept", "notify", "notify", "complete"),
                      ("accept", "notify", "fail")]):
        ch.ops += 1
        full = ch.choose(2) == 1
        fmt = R.FORMATS[ver].get((cmd, t))
        over = {}
        if fmt is not None:
            for n in list(fmt[0]) + (list(fmt[1]) if full else []):
                if n in vals:
                    over[n.replace("-", "_")] = vals[n]
        if not r.deliver(enc(message(ver, cmd, ta, t, full=full, **over))):
            return r.observation()
    return r.finish()


def same_request(m, cmd, fields):
    if m.get("ta-cmd") != cmd or m.get("msg-type") != "request" or \
       set(m) != set(fields) | {"ta-cmd", "ta-id", "msg-type"}:
        return False
    for k, v in fields.items():
        got = m[k]
        if k == "service-props":
            got = {n: set(x) for n, x in got.items()}
        if v is not None and got != v:
            return False
    return True


# ----------------------------------------------------------------- messages

VALUES = {"protocol-version": 3, "protocol-minimum-version": 2,
          "protocol-maximum-version": 3, "match-type": "appeared", "service-id": 5,
          "generation": 6, "service-props": {"name": ["x", 3]},
          "ttl": 7, "client-id": 77, "orphan-since": 1.5,
          "subscription-id": 8, "filter": "(a=b)", "client-address": "ux:x",
          "time": 9, "idle": 0.25, "latency": 0.5,
          "track-type": "reply", "fail-reason": "no-such-thing"}


def message(ver, cmd, ta, t, full=False, **over):
    m = {"ta-cmd": cmd, "ta-id": ta, "msg-type": t}
    fmt = R.FORMATS[ver].get((cmd, t))
    if fmt is not None:
        for n in fmt[0]:
            m[n] = VALUES[n]
        if full:
            for n in fmt[1]:
                m[n] = VALUES[n]
    m.update({k.replace("_", "-"): v for k, v in over.items()})
    return m


def enc(m):
    return json.dumps(m).encode()


def lean(ver, cmd, ta):
    """The message types a server could send for this command."""
    out = []
    for t in ("accept", "notify", "complete", "fail"):
        fmt = R.FORMATS[ver].get((cmd, t))
        out.append(enc(message(ver, cmd, ta, t)))
        if fmt and fmt[1]:
            out.append(enc(message(ver, cmd, ta, t, full=True)))
    return out


def rich(ver, cmd, ta):
    out = lean(ver, cmd, ta)
    for t in ("request", "inform"):
        out.append(enc(message(ver, cmd, ta, t)))
    for t in ("accept", "notify", "complete", "fail"):
        m = message(ver, cmd, ta, t)
        out.append(enc(dict(m, extra=1)))
        for n in m:
            x = dict(m)
            del x[n]
            out.append(enc(x))
            out.append(enc(dict(m, **{n: None})))
            if type(m[n]) is not str:
                out.append(enc(dict(m, **{n: "x"})))
        out.append(enc(dict(m, **{"msg-type": "unknown"})))
    other = "ping" if cmd != "ping" else "publish"
    for t in ("complete", "fail", "accept"):
        out.append(enc(message(ver, other, ta, t)))
    out.append(enc(message(ver, cmd, ta, "fail", fail_reason=1)))
    out.append(enc(message(ver, cmd, ta, "fail", fail_reason="")))
    out.append(enc(message(ver, cmd, float(ta), "fail")))
    out.append(enc(message(ver, cmd, -1, "fail")))
    return list(dict.fromkeys(out))


STRAY = [enc(message(3, "ping", 99, "complete")),
         enc(message(3, "services", 99, "accept")),
         enc(message(3, "ping", 99, "fail"))]
JUNK = [b"{}", b"[]", b"\xff\xfe", b"{", b"null", b"\0", b'"x"', b"1",
        b"[" * 30000, b'{"ta-cmd": "ping", "ta-id": 1, "msg-type": '
        b'"complete"} x', b'{"ta-cmd": "p\\ud800", "ta-id": 1, "msg-type": '
        b'"complete"}']


# ------------------------------------------------------------------ running

class Run:
    """A connected client and the model of what it should see."""

    def __init__(self, ver=3, rng=None, track=False, hello=True):
        self.lib = Lib()
        self.got = []
        self.m = Model()
        self.nreq = 0
        self.sent = []          # expected (cmd, fields), in order
        self.script = []
        conf = C.ServerConf(ADDR, *(rng or (2, 3)))
        self.ready = []
        self.range = rng or (2, 3)
        self.error = None
        self.c = C.connect(conf, client_id=77,
                           ready_cb=lambda: self.ready.append(1),
                           track=track)
        self.lib.take()
        self.sent.append(("hello", {"client-id": 77,
                                    "protocol-minimum-version":
                                    self.range[0],
                                    "protocol-maximum-version":
                                    self.range[1]}))
        self.check_sent()
        self.hello_ta = self.lib.out[0]["ta-id"]
        self.m.request(self.hello_ta, "hello", "hs")
        if hello:
            self.deliver(enc(message(3, "hello", self.hello_ta, "complete",
                                     protocol_version=ver)))
            if not self.ready:
                raise Violation("the client is not ready after hello")

    def cb(self, label, then=None):
        def f(ta_id, event, *args, **optargs):
            self.got.append((label, ta_id, event.name, list(args),
                             {k: v for k, v in optargs.items()
                              if v is not None}))
            if then is not None:
                then(event.name)
        return f

    def issue(self, name, then=None):
        cmd, call, fields = REQS.get(name) or ENDS[name]
        if name == "hello":
            fields = self.sent[0][1]
        label = "%s#%d" % (name, self.nreq)
        self.nreq += 1
        self.sent.append((cmd, fields))
        try:
            ta = call(self.c, self.cb(label, then))
        except C.Error:
            if not self.lib.lost:
                raise Violation("%s fails on a working connection" % name)
            raise Prune()
        if type(ta) is not int:
            raise Violation("%s returns %r" % (name, ta))
        self.m.request(ta, cmd, label)
        return ta

    def spin(self):
        """Serve the client as its poll would tell; the error, if any."""
        for i in range(100):
            if not stub.stub_fd_ready(self.c.fileno()):
                return None
            try:
                self.c.process()
            except C.Error as e:
                str(e)
                return e
            except (Violation, vworld.Hang, Prune):
                raise
            except Exception as e:
                raise Violation("process() fails with %s: %s" % (
                    type(e).__name__, e))
        raise Violation("the client stays ready without doing anything")

    def check_events(self, what):
        exp = [e for e in self.m.events if e[0] != "hs"]
        if self.got != exp:
            raise Violation("%s: the callbacks see %r instead of %r" % (
                what, self.got, exp))

    def check_sent(self, all=True):
        self.lib.read()
        out = [m for m in self.lib.out if m.get("msg-type") == "request"]
        if len(out) > len(self.sent) or all and len(out) < len(self.sent):
            raise Violation("requests sent: %r of %r" % (self.lib.out,
                                                         self.sent))
        for m, (cmd, fields) in zip(out, self.sent):
            if not same_request(m, cmd, fields):
                raise Violation("%s %r is sent as %r" % (cmd, fields, m))

    def deliver(self, *datas):
        """Messages arriving together. True if the client lives on."""
        verdict = True
        for d in datas:
            self.script.append(d[:300])
            stub.stub_send(self.lib.peer.ep, d, len(d))
        for d in datas:
            before = self.m.ver
            v = self.m.receive(d)
            if v and self.m.last[0] == "hs":
                v = self.handshake(self.m.last)
            if not v:
                verdict = v
                break
        err = self.spin()
        return self.judge(verdict, err, datas)

    def handshake(self, ev):
        if ev[2] == "FAIL":
            return False
        if not self.range[0] <= ev[3][0] <= self.range[1] or \
           ev[3][0] not in (2, 3):
            return False
        self.m.ver = ev[3][0]
        return True

    def judge(self, verdict, err, what):
        if verdict is None:
            if err is None:
                raise Prune()
            self.end(err)
            return False
        if verdict and err is not None:
            raise Violation("%r: %s: %s" % (self.script, type(err).__name__,
                                            err))
        if verdict is False and err is None:
            raise Violation("%r is taken without an error" % self.script)
        self.check_events(repr(self.script))
        if err is not None:
            self.end(err)
            return False
        return True

    def lose(self, how):
        self.script.append(how)
        self.lib.close(how)
        err = self.spin()
        if err is None:
            raise Violation("%r: the lost connection goes unnoticed" %
                            self.script)
        self.check_events(repr(self.script))
        self.end(err)

    def end(self, err=None):
        if not isinstance(err, (C.ProtocolError, C.TransportError,
                                type(None))):
            raise Violation("%r ends with %s" % (self.script,
                                                 type(err).__name__))
        self.c.close()
        if stub.stub_live() or stub.stub_live_maps():
            raise Violation("%r: something is left open" % self.script)

    def finish(self):
        self.spin()
        self.check_sent()
        self.check_events(repr(self.script))
        self.end()
        return self.observation()

    def observation(self):
        return (self.got, len(self.lib.out), self.script)


def guard(fun):
    def run(ch):
        try:
            return fun(ch)
        finally:
            vworld.CUR = None
            if stub.stub_misuse():
                text = stub.stub_misuse_text().decode()
                stub.stub_misuse_clear()
                raise Violation("misuse of the transport: " + text)
    return run


# ------------------------------------------------------- 1: the handshake

HVERS = (0, 1, 2, 3, 4, 9)


def hello_alphabet(ta):
    out = [enc(message(3, "hello", ta, "complete", protocol_version=v))
           for v in HVERS]
    out += [enc(message(3, "hello", ta, "fail")),
            enc(message(3, "hello", ta, "fail", full=True))]
    out += [d for d in rich(3, "hello", ta) if d not in out]
    out += [enc(message(3, "ping", ta, "complete")),
            enc(message(3, "track", ta, "accept")),
            enc(message(3, "clients", ta, "notify")),
            enc(message(3, "nosuch", ta, "complete"))]
    return out + STRAY + JUNK


def handshake_async(steps):
    def fun(ch):
        rng = ch.pick([(2, 3), (2, 2), (3, 3), (1, 9), (0, 2)])
        track = bool(ch.choose(2))
        r = Run(rng=rng, track=track, hello=False)
        for i in range(steps):
            ch.ops += 1
            alpha = hello_alphabet(r.hello_ta)
            k = ch.choose(1 + len(alpha) + 2)
            if k == 0:
                break
            if k > len(alpha):
                r.lose(("close", "reset")[k - len(alpha) - 1])
                return r.observation()
            was = len(r.ready)
            alive = r.deliver(alpha[k - 1])
            ok = alive and was == 0
            if len(r.ready) != was + ok:
                raise Violation("%r: ready_cb is called %d times" % (
                    r.script, len(r.ready)))
            if not alive:
                return r.observation()
            if r.c.proto_version != r.m.ver:
                raise Violation("%r: version %r" % (r.script,
                                                    r.c.proto_version))
            if track and r.m.ver == 3 and ok:
                r.sent.append(("track", {}))
        return r.finish()
    return fun


def handshake_sync(steps):
    def fun(ch):
        rng = ch.pick([(2, 3), (2, 2), (3, 3), (1, 9), (0, 2)])
        lib = Lib()
        script, m = [], Model()
        st = dict(verdict=None, lost=False)

        def wait(poll):
            if lib.peer is None:
                lib.take()
                lib.read()
                if len(lib.out) != 1 or not same_request(
                        lib.out[0], "hello", {
                            "client-id": 77,
                            "protocol-minimum-version": rng[0],
                            "protocol-maximum-version": rng[1]}):
                    raise Violation("connecting sends %r" % lib.out)
                m.request(lib.out[0]["ta-id"], "hello", "hs")
            if st["verdict"] is not None or st["lost"]:
                raise Violation("connecting goes on after %r" % script)
            ch.ops += 1
            alpha = hello_alphabet(lib.out[0]["ta-id"])
            k = ch.choose(len(alpha) + 2)
            if k == 0:
                st["lost"] = True
                script.append("close")
                lib.close("close")
            elif k == len(alpha) + 1:
                st["lost"] = True
                script.append("reset")
                lib.close("reset")
            else:
                d = alpha[k - 1]
                script.append(d[:300])
                stub.stub_send(lib.peer.ep, d, len(d))
                v = m.receive(d)
                ev = m.last
                if v and ev[2] == "COMPLETE" and \
                   rng[0] <= ev[3][0] <= rng[1] and ev[3][0] in (2, 3):
                    st["verdict"] = ev[3][0]
                    st["reason"] = None
                else:
                    st["verdict"] = False
                    st["reason"] = ev and ev[4].get("fail_reason")

        lib.env.client_wait = wait
        try:
            c = C.connect(C.ServerConf(ADDR, *rng), client_id=77)
        except C.Error as e:
            if type(st["verdict"]) is int:
                raise Violation("%r: connecting fails: %s" % (script, e))
            if st["verdict"] is False and st["reason"] and \
               st["reason"] not in str(e):
                raise Violation("%r: the reason is not told: %s" % (script,
                                                                    e))
            if not isinstance(e, (C.ProtocolError, C.TransportError)):
                raise Violation("%r: %s" % (script, type(e).__name__))
            if stub.stub_live() or stub.stub_live_maps():
                raise Violation("%r: the connection is left open" % script)
            return script
        except (Violation, vworld.Hang):
            raise
        except Exception as e:
            raise Violation("%r: connecting fails with %s: %s" % (
                script, type(e).__name__, e))
        if not st["verdict"]:
            raise Violation("%r: connecting succeeds" % script)
        if c.proto_version != st["verdict"]:
            raise Violation("%r: version %r" % (script, c.proto_version))
        c.close()
        return script
    return fun


# ----------------------------------------- 2: one request, rich replies

def one_request(steps, rich_):
    def fun(ch):
        ver = ch.pick([3, 2])
        names = [n for n in REQS if ver == 3 or n != "track"]
        name = ch.pick(names)
        r = Run(ver)
        ta = r.issue(name)
        r.spin()
        r.check_sent()
        for i in range(steps):
            ch.ops += 1
            alpha = (rich if rich_ else lean)(ver, REQS[name][0], ta) + \
                (STRAY + JUNK if rich_ else STRAY[:1])
            k = ch.choose(len(alpha) + 3)
            if k == 0:
                break
            if k > len(alpha):
                r.lose(("close", "reset")[k - len(alpha) - 1])
                return r.observation()
            if not r.deliver(alpha[k - 1]):
                return r.observation()
        return r.finish()
    return fun


# ------------------------------ 3: several transactions, one after the other
#                                  or arriving together

def concurrent(steps, width, sets):
    def fun(ch):
        ver, names = ch.pick(sets)
        r = Run(ver)
        tas = [(REQS[n][0], r.issue(n)) for n in names]
        r.spin()
        r.check_sent()
        left = steps
        while left > 0:
            ch.ops += 1
            alpha = [d for cmd, ta in tas for d in lean(ver, cmd, ta)]
            # how many arrive before the client gets to run
            n = 1 + ch.choose(min(width, left))
            batch = []
            stop = False
            for j in range(n):
                k = ch.choose(len(alpha) + 1 + (j == n - 1))
                if k == 0:
                    stop = True
                    break
                if k == len(alpha) + 1:
                    batch.append(None)
                else:
                    batch.append(alpha[k - 1])
            left -= n
            if batch and batch[-1] is None:
                datas = batch[:-1]
                for d in datas:
                    r.script.append(d)
                    stub.stub_send(r.lib.peer.ep, d, len(d))
                    v = r.m.receive(d)
                    if not v:
                        break
                    if v is None:
                        raise Prune()
                r.lose("close")
                return r.observation()
            if batch and not r.deliver(*batch):
                return r.observation()
            if stop:
                break
        return r.finish()
    return fun


# ------------------------------------------------------ 4: blocking calls

SYNC = ["publish", "unpublish", "unsubscribe", "subscriptions", "services",
        "services-f", "ping", "clients", "hello"]


def blocking(steps, rich_):
    def fun(ch):
        ver = ch.pick([3, 2])
        name = ch.pick(SYNC)
        before = ch.pick([None, "subscribe", "ping"])
        cmd, call, fields = REQS[name]
        r = Run(ver)
        if before:
            bta = r.issue(before)
            r.spin()
        r.sent.append((cmd, fields if name != "hello" else r.sent[0][1]))
        st = dict(ta=None, end=None, notes=[], steps=0)
        cap = ch.choose(2)
        if cap:
            r.lib.peer.cap(0)

        def wait(poll):
            r.lib.peer.cap(-1)
            if stub.stub_fd_ready(r.c.fileno()):
                return
            if st["end"] is not None:
                raise Violation("%s %r goes on waiting" % (name, r.script))
            r.check_sent()
            if st["ta"] is None:
                st["ta"] = [m for m in r.lib.out
                            if m["msg-type"] == "request"][-1]["ta-id"]
                r.m.request(st["ta"], cmd, "sync")
            ch.ops += 1
            vworld.Clock.now += 0.25
            alpha = (rich if rich_ else lean)(ver, cmd, st["ta"]) + \
                (STRAY + JUNK if rich_ else [])
            if before:
                alpha += lean(ver, REQS[before][0], bta)
            k = ch.choose(len(alpha) + 2) if st["steps"] < steps else 0
            st["steps"] += 1
            if k == 0 or k == len(alpha) + 1:
                how = "reset" if k else "close"
                r.script.append(how)
                r.lib.close(how)
                st["end"] = "error"
                return
            d = alpha[k - 1]
            r.script.append(d[:300])
            stub.stub_send(r.lib.peer.ep, d, len(d))
            v = r.m.receive(d)
            if v is None:
                raise Prune()
            if v is False:
                st["end"] = "error"
            elif r.m.last[0] == "sync":
                ev = r.m.events.pop()
                if ev[2] == "NOTIFY":
                    st["notes"].append(ev[3] + ([ev[4]] if ev[4] else []))
                elif ev[2] in ("COMPLETE", "FAIL"):
                    st["end"] = ev

        r.lib.env.client_wait = wait
        t0 = vworld.Clock.now
        try:
            res = call(r.c, None)
        except C.TransactionError as e:
            end = st["end"]
            if type(end) is not tuple or end[2] != "FAIL":
                raise Violation("%s %r raises %s" % (name, r.script, e))
            reason = end[4].get("fail_reason")
            if reason is not None and reason not in str(e):
                raise Violation("%s %r: the reason is not told: %s" % (
                    name, r.script, e))
            r.check_events(repr(r.script))
            return r.finish()
        except C.Error as e:
            if st["end"] != "error":
                raise Violation("%s %r raises %s" % (name, r.script, e))
            r.check_events(repr(r.script))
            r.end(e)
            return r.observation()
        except (Violation, vworld.Hang, Prune):
            raise
        except Exception as e:
            raise Violation("%s %r fails with %s: %s" % (
                name, r.script, type(e).__name__, e))
        end = st["end"]
        if type(end) is not tuple or end[2] != "COMPLETE":
            raise Violation("%s %r returns" % (name, r.script))
        if name == "ping":
            ok = isinstance(res, (int, float)) and \
                abs(res - (vworld.Clock.now - t0)) < 0.05
        elif name == "hello":
            ok = list(res) == end[3]
        elif KIND[cmd] == MULTI:
            ok = [[list(x) if isinstance(x, tuple) else x for x in n]
                  for n in res] == st["notes"]
        else:
            ok = res is None
        if not ok:
            raise Violation("%s %r returns %r" % (name, r.script, res))
        r.check_events(repr(r.script))
        r.lib.env.client_wait = None
        return r.finish()
    return fun


def reentrant(steps):
    """A blocking call made from within a callback."""
    def fun(ch):
        r = Run(3)
        outer = ch.pick(["ping", "services", "subscribe"])
        at = ch.pick(["COMPLETE", "FAIL", "ACCEPT", "NOTIFY"])
        inner = ch.pick(["services", "ping", "publish"])
        cmd, call, fields = REQS[inner]
        st = dict(ta=None, end=None, steps=0, depth=0)

        def alphabet():
            a = lean(3, REQS[outer][0], ota)
            if st["ta"] is not None:
                a += lean(3, cmd, st["ta"])
            return a

        def put(d):
            r.script.append(d)
            stub.stub_send(r.lib.peer.ep, d, len(d))
            v = r.m.receive(d)
            if v is None:
                raise Prune()
            if v is False:
                st["end"] = "error"
            elif r.m.last[0] == "sync":
                ev = r.m.events.pop()
                if ev[2] in ("COMPLETE", "FAIL"):
                    st["end"] = ev

        def wait(poll):
            if st["end"] is not None:
                raise Violation("%r: the call goes on waiting" % r.script)
            if st["ta"] is None:
                r.check_sent()
                st["ta"] = r.lib.out[-1]["ta-id"]
                r.m.request(st["ta"], cmd, "sync")
            ch.ops += 1
            alpha = alphabet()
            k = ch.choose(len(alpha) + 1) if st["steps"] < steps else 0
            st["steps"] += 1
            if k == 0:
                r.script.append("close")
                r.lib.close("close")
                st["end"] = "error"
                return
            put(alpha[k - 1])

        def then(ev):
            if ev != at or st["depth"]:
                return
            st["depth"] = 1
            r.script.append(">")
            r.sent.append((cmd, fields))
            r.lib.env.client_wait = wait
            try:
                call(r.c, None)
            except C.TransactionError:
                ok = type(st["end"]) is tuple and st["end"][2] == "FAIL"
            except C.Error:
                if st["end"] != "error":
                    raise
                st["raised"] = True
                raise
            else:
                ok = type(st["end"]) is tuple and \
                    st["end"][2] == "COMPLETE"
            if not ok:
                raise Violation("%r: the call ends with %r" % (r.script,
                                                               st["end"]))
            r.script.append("<")
            st["ta"] = None
            st["end"] = None

        ota = r.issue(outer, then)
        r.spin()
        r.check_sent()
        for i in range(steps):
            ch.ops += 1
            alpha = lean(3, REQS[outer][0], ota)
            k = ch.choose(len(alpha) + 1)
            if k == 0:
                break
            put(alpha[k - 1])
            err = r.spin()
            bad = st["end"] == "error"
            if bad != (err is not None):
                raise Violation("%r: %s" % (r.script, err or
                                            "taken without an error"))
            r.check_events(repr(r.script))
            if err is not None:
                r.end(err)
                return r.observation()
            r.lib.env.client_wait = None
        return r.finish()
    return fun


# ------------------------------------------------------ 5: back-pressure

def pressure(steps):
    """Requests while the server accepts only so many messages."""
    def fun(ch):
        ver = ch.pick([3, 2])
        r = Run(ver)
        names = ["publish", "services", "ping", "unpublish", "subscribe-f"]
        alive = True
        cap = -1
        for i in range(steps):
            ch.ops += 1
            acts = ["", "issue", "cap0", "cap1", "cap2", "uncap", "read",
                    "process", "answer", "chain", "close", "spurious"]
            a = acts[ch.choose(len(acts))]
            if not a:
                break
            r.script.append(a)
            if a == "issue":
                r.issue(names[r.nreq % len(names)])
            elif a == "chain":
                def then(ev):
                    if ev in ("COMPLETE", "ACCEPT"):
                        r.issue("ping")
                r.issue(names[r.nreq % 2], then)
            elif a[:3] == "cap":
                cap = int(a[3])
                r.lib.peer.cap(cap)
            elif a == "uncap":
                cap = -1
                r.lib.peer.cap(-1)
            elif a == "read":
                r.check_sent(all=False)
            elif a in ("process", "spurious"):
                if a == "process":
                    err = r.spin()
                else:
                    err = None
                    try:
                        r.c.process()
                    except C.Error as e:
                        err = e
                if err is not None:
                    raise Violation("%r: %s" % (r.script, err))
            elif a == "close":
                r.lose("close")
                return r.observation()
            elif a == "answer":
                r.check_sent(all=False)
                done = [m["ta-id"] for m in r.lib.out[1:]
                        if m["ta-id"] in r.m.tas]
                if not done:
                    continue
                # the latest one: no order is promised among transactions
                cmd, state, label = r.m.tas[done[-1]]
                t = "complete" if KIND[cmd] == SINGLE or \
                    state == "accepted" else "accept"
                if not r.deliver(enc(message(ver, cmd, done[-1], t))):
                    return r.observation()
            # no more is sent than accepted, and nothing is held back
            if cap < 0 and a in ("uncap", "process"):
                r.spin()
                r.check_sent()
        r.lib.peer.cap(-1)
        return r.finish()
    return fun


def many(ch):
    """More than is handled in one round."""
    n = ch.pick([127, 128, 129, 300])
    r = Run(3)
    if ch.choose(2):
        r.lib.peer.cap(0)
    for i in range(n):
        r.issue("ping")
    r.lib.peer.cap(-1)
    r.spin()
    r.check_sent()
    order = ch.pick([list(range(1, n + 1)), list(range(n, 0, -1))])
    ids = [m["ta-id"] for m in r.lib.out]
    ch.ops += n
    r.deliver(*[enc(message(3, "ping", ids[i], ("complete", "fail")[i % 2]))
                for i in order])
    ta = r.issue("services")
    r.spin()
    r.check_sent()
    r.deliver(enc(message(3, "services", ta, "accept")))
    r.deliver(*[enc(message(3, "services", ta, "notify", service_id=i))
                for i in range(n)])
    r.deliver(enc(message(3, "services", ta, "complete")))
    return r.finish()


# ------------------------------------------------------------ 6: tracking

def tracking(steps):
    """The tracker answers queries, and counts its own."""
    def fun(ch):
        r = Run(3, track=True)
        r.sent.append(("track", {}))
        r.spin()
        r.check_sent()
        ta = r.lib.out[-1]["ta-id"]
        state, replies, queries = "requested", 0, 0
        informs = []

        def informed():
            r.lib.read()
            got = [(m.get("track-type"), m.get("ta-id"), m.get("ta-cmd"),
                    len(m)) for m in r.lib.out
                   if m["msg-type"] == "inform"]
            if got != [(x, ta, "track", 4) for x in informs]:
                raise Violation("%r: informed %r instead of %r" % (
                    r.script, got, informs))
        for i in range(steps):
            ch.ops += 1
            acts = ["", "accept", "query", "reply", "unknown", "complete",
                    "fail", "ask", "cap0", "uncap", "close"]
            a = acts[ch.choose(len(acts))]
            if not a:
                break
            if a == "ask":
                if state != "accepted":
                    continue
                r.script.append(a)
                r.c.tracker.query()
                queries += 1
                informs.append("query")
                continue
            if a in ("cap0", "uncap"):
                r.lib.peer.cap(0 if a == "cap0" else -1)
                r.script.append(a)
                continue
            if a == "close":
                r.lib.close("close")
                r.script.append(a)
                if r.spin() is None:
                    raise Violation("%r: the lost connection goes unnoticed"
                                    % r.script)
                return r.script
            t = a if a in ("accept", "complete", "fail") else "notify"
            over = {} if t != "notify" else {"track_type": a}
            d = enc(message(3, "track", ta, t, **over))
            r.script.append(d)
            stub.stub_send(r.lib.peer.ep, d, len(d))
            err = r.spin()
            if t == "accept":
                ok = state == "requested"
                state = "accepted"
            elif t == "complete":
                ok = state == "accepted"
                state = "done"
            elif t == "fail":
                ok = state in ("requested", "accepted")
                state = "done"
            elif a == "query":
                ok = state == "accepted"
                if ok:
                    informs.append("reply")
            elif a == "reply":
                replies += 1
                ok = state == "accepted" and replies <= queries
            else:
                ok = False
            if ok != (err is None):
                raise Violation("%r: %s" % (r.script, err or
                                            "taken without an error"))
            if err is not None:
                r.end(err)
                return r.script
        r.lib.peer.cap(-1)
        r.spin()
        informed()
        r.end()
        return r.script, informs
    return fun


def no_tracking(ch):
    """Version 2 knows no tracking."""
    r = Run(2, track=True)
    return r.finish()


def refused(ch):
    lib = Lib()
    e = ch.pick([errno.ECONNREFUSED, errno.ECONNRESET, errno.ETIMEDOUT,
                 errno.ENOENT, errno.EINVAL, errno.EPERM])
    op = ch.pick(["connect", "send"])
    sync = ch.choose(2)
    stub.stub_fail(OPS[op], e, 0, 1)
    lib.env.client_wait = lambda p: lib.close("close") if lib.take() else 0
    try:
        C.connect(C.ServerConf(ADDR), client_id=1,
                  ready_cb=None if sync else (lambda: None))
    except C.TransportError as e:
        str(e)
        if stub.stub_live():
            raise Violation("the connection is left open")
        return "error"
    except (Violation, vworld.Hang):
        raise
    except Exception as e:
        raise Violation("connecting fails with %s: %s" % (
            type(e).__name__, e))
    raise Violation("connecting succeeds")


OPS = dict(connect=0, send=3)


def run(check):
    t = check.thorough
    sets = [(3, ("publish", "services")), (3, ("subscribe", "unsubscribe")),
            (3, ("services", "services-f")), (2, ("clients", "ping")),
            (3, ("subscribe", "subscribe-f")), (3, ("clients", "track")),
            (2, ("subscriptions", "unpublish"))]
    choices(check, "refused", guard(refused), 3)
    choices(check, "handshake", guard(handshake_async(2)), 4 if t else 3)
    choices(check, "handshake-blocking", guard(handshake_sync(2)),
            4 if t else 3)
    choices(check, "one-request-rich", guard(one_request(3, True)),
            5 if t else 4)
    choices(check, "one-request", guard(one_request(6, False)),
            8 if t else 6)
    choices(check, "concurrent", guard(concurrent(5 if t else 4, 2, sets)),
            10 if t else 9)
    choices(check, "blocking", guard(blocking(5 if t else 4, False)),
            9 if t else 8)
    choices(check, "blocking-rich", guard(blocking(2, True)), 5 if t else 4)
    choices(check, "reentrant", guard(reentrant(5 if t else 4)),
            9 if t else 8)
    choices(check, "back-pressure", guard(pressure(7 if t else 5)),
            8 if t else 6)
    choices(check, "many", guard(many), 4)
    choices(check, "extremes", guard(extremes), 4)
    choices(check, "tracking", guard(tracking(7 if t else 5)), 8)
    choices(check, "no-tracking", guard(no_tracking), 1)
