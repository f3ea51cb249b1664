"""Planted bugs, part 2 (see tools/mkseed.py)."""
H = "from demolib import *\n\n\n"
T = "\n\nrun(drive)\ndone()\n"
SD, SRV, CL = "paf/sd.py", "paf/server.py", "paf/client.py"
S = """import os
import sys
sys.path.insert(0, os.getcwd())
"""
# the transport library's binding is replaced by FakeXcm
FX = S + '''import errno
import types
x = types.ModuleType("paf.xcm")
x.error = OSError
x.SO_RECEIVABLE, x.SO_SENDABLE, x.SO_ACCEPTABLE = 1, 2, 4


class Sock:
    def __init__(self):
        self.sent, self.rx, self.room, self.target = [], [], 1000, 0

    def send(self, m):
        if self.room == 0:
            raise OSError(errno.EAGAIN, "full")
        self.room -= 1
        self.sent.append(m)

    def receive(self):
        if not self.rx:
            raise OSError(errno.EAGAIN, "empty")
        return self.rx.pop(0)

    def set_target(self, c):
        self.target = c

    def fileno(self):
        return 0

    def close(self):
        pass


SOCK = Sock()
x.connect = lambda addr, flags=0, attrs={}: SOCK
sys.modules["paf.xcm"] = x
import paf
paf.xcm = x
import json
import paf.client as client


def answer(**kw):
    SOCK.rx.append(json.dumps({k.replace("_", "-"): v
                               for k, v in kw.items()}).encode())


def ready():
    c = client.connect("ux:x", client_id=1, ready_cb=lambda: None)
    answer(ta_cmd="hello", ta_id=0, msg_type="complete", protocol_version=3)
    c.process()
    return c


'''

BUGS = [
 dict(id="p13-pop-after-handler", property="P13",
  needs="a timer handler which itself adds a timer that is due earlier than the one being handled",
  what="the new timer is discarded and the handled one fires again",
  edits=[("paf/timer.py", """            self.deque.popleft()
            candidate.handler()
""", """            candidate.handler()
            self.deque.popleft()
""")],
  demo=S+'''import time
import paf.timer

log = []
m = paf.timer.TimerManager()
now = time.time()


def first():
    log.append("first")
    if len(log) < 5:
        m.add(lambda: log.append("second"), now - 2)


m.add(first, now - 1)
m.process()
assert log == ["first", "second"], log
'''),
 dict(id="p13-wakeup-not-announced", property="P13",
  needs="the only timer being cancelled",
  what="the wake-up time of a cancelled timer stays announced",
  edits=[("paf/timer.py", """            self.deque.popleft()
            self.next_timeout_changed()
""", """            self.deque.popleft()
            if not self.empty():
                self.next_timeout_changed()
""")],
  demo=S+'''import time
import paf.timer

told = []
m = paf.timer.TimerManager(lambda: told.append(m.next_timeout()))
now = time.time()
t = m.add(lambda: None, now + 5)
m.remove(t)
assert told[-1] is None, told
'''),
 dict(id="p14-mask-change-ignored", property="P14",
  needs="a source whose event mask changes while its descriptor stays the same",
  what="the loop goes on waiting for the old events",
  edits=[("paf/eventloop.py", "        if self.fd != fd or self.mask != mask:\n",
          "        if self.fd != fd:\n")],
  demo=S+'''import os
import select
import signal
import paf.eventloop as e

signal.alarm(5)
loop = e.EventLoop()
r, w = os.pipe()
s = e.Source()
called = []


def handler():
    called.append(1)
    loop.stop()


s.set_fd(w, 0)
loop.add(s, handler)
s.set_fd(w, select.EPOLLOUT)
stop = e.Source()
stop.set_timeout(0)
import time
stop.set_timeout(time.time() + 1)
loop.add(stop, loop.stop)
loop.run()
assert called
'''),
 dict(id="p14-stale-handler", property="P14",
  needs="two descriptors ready in the same round, where the handler of one removes the other's source",
  what="the handler of a removed source is called",
  edits=[("paf/eventloop.py", """        for fd, event in fds:
            if fd == self.s_rfd:
                self.check_signal()
            else:
                source = self.fd_source.get(fd)
                if source is None:
                    continue
                handler = self.source_handler[source]
                handler()
""", """        handlers = []
        for fd, event in fds:
            if fd == self.s_rfd:
                self.check_signal()
            else:
                source = self.fd_source.get(fd)
                if source is None:
                    continue
                handlers.append(self.source_handler[source])
        for handler in handlers:
            handler()
""")],
  demo=S+'''import os
import select
import paf.eventloop as e

loop = e.EventLoop()
pairs = [os.pipe(), os.pipe()]
srcs = []
called = []


def handler(i):
    called.append(i)
    loop.remove(srcs[1 - i])
    loop.stop()


for i, (r, w) in enumerate(pairs):
    s = e.Source()
    s.set_fd(r, select.EPOLLIN)
    srcs.append(s)
    loop.add(s, lambda i=i: handler(i))
    os.write(w, b"x")
loop.run()
assert len(called) == 1, called
'''),
 dict(id="p14-long-timeout", property="P14",
  needs="a next time-out between 25 and 50 days ahead",
  what="epoll refuses the time-out, and the loop (and the server) ends",
  edits=[("paf/eventloop.py", "EPOLL_MAX_TIMEOUT = (((1 << 31)-1)/1000)",
          "EPOLL_MAX_TIMEOUT = (((1 << 32)-1)/1000)")],
  demo=S+'''import os
import signal
import time
import paf.eventloop as e

loop = e.EventLoop()
s = e.Source()
s.set_timeout(time.time() + 3e6)
loop.add(s, lambda: None)
signal.setitimer(signal.ITIMER_REAL, 1)
signal.signal(signal.SIGALRM, lambda *a: loop.stop())
r, w = os.pipe()
os.write(w, b"x")
b = e.Source()
b.set_fd(r, 1)
loop.add(b, loop.stop)
loop.run()
'''),
 dict(id="p15-unescaped-part", property="P15",
  needs="a special character in an intermediate part of a substring filter",
  what="the printed filter means something else, or is refused",
  edits=[("paf/filter.py", """            s += "%s%s" % (escape(im), ANY)""",
          """            s += im + ANY""")],
  demo=S+r'''import paf.filter as f

x = f.parse(r"(a=x*y\*z*)")
assert str(f.parse(str(x))) == r"(a=x*y\*z*)", str(x)
assert len(f.parse(str(x)).intermediate) == 1
'''),
 dict(id="p15-end-of-text", property="P15",
  needs="blanks after a filter expression",
  what="a text outside the grammar is accepted",
  edits=[("paf/filter.py", "    if (len(state) > 0):\n",
          "    if len(filter_s.rstrip()) > state.offset:\n")],
  demo=S+r'''import paf.filter as f
try:
    f.parse("(a=b) ")
except f.ParseError:
    sys.exit(0)
sys.exit("accepted")
'''),
 dict(id="p16-integer-equality", property="P16",
  needs="an integer property, and an equality filter with a leading zero or a sign",
  what="(a=007) holds for 7, and (a=-5) never holds",
  edits=[("paf/filter.py", "            return self.value == str(value)\n",
          "            return self.value.isdecimal() and int(self.value) == value\n")],
  demo=S+r'''import paf.filter as f
assert not f.parse("(a=007)").match({"a": {7}})
assert f.parse("(a=-5)").match({"a": {-5}})
'''),
 dict(id="p16-composite-operands", property="P16",
  needs="a negated disjunction or conjunction of more than two operands",
  what="operands beyond the second are ignored",
  edits=[("paf/filter.py", """        for filter in self.operands:
            if filter.match(service):
                return True
        return False
""", """        left, right = self.operands[0], self.operands[-1]
        return left.match(service) or right.match(service)
""")],
  demo=S+r'''import paf.filter as f
assert f.parse("(|(a=1)(b=1)(c=1))").match({"b": {1}})
'''),
 dict(id="p17-int-max", property="P17",
  needs="the integer 2^63 in a message",
  what="a value which does not fit in 64 bits is accepted",
  edits=[("paf/proto.py", "NON_NEGATIVE_INT_MAX = (1 << 63) - 1",
          "NON_NEGATIVE_INT_MAX = (1 << 63)")],
  demo=S+r'''import json
import paf.proto as p
m = {"ta-cmd": "unpublish", "ta-id": 1, "msg-type": "request",
     "service-id": 1 << 63}
try:
    p.Message.parse(3, json.dumps(m).encode())
except p.ProtocolError:
    sys.exit(0)
sys.exit("accepted")
'''),
 dict(id="p17-falsy-optional", property="P17",
  needs="an optional field with the value zero (a generation, TTL or latency)",
  what="the field is left out of the message",
  edits=[("paf/proto.py", "                if opt_value is not None:\n                    opt_field.put",
          "                if opt_value or opt_value == {}:\n                    opt_field.put")],
  demo=S+r'''import json
import paf.proto as p
m = p.Message(p.TA_SUBSCRIBE, 1, "notify", ("appeared", 5),
              dict(generation=0, service_props={}, ttl=0, client_id=0))
m = json.loads(m.to_wire().decode())
assert m["generation"] == 0 and m["ttl"] == 0 and m["client-id"] == 0
'''),
 dict(id="p18-zero-limit", property="P18",
  needs="a resource limit of zero in the configuration file",
  what="the limit is not set",
  edits=[("paf/conf.py", "    for resource_name, resource_value in resource_class.items():\n        set_limit",
          "    for resource_name, resource_value in resource_class.items():\n        if resource_value == 0:\n            continue\n        set_limit")],
  demo=S+r'''import types
sys.modules["paf.xcm"] = types.ModuleType("paf.xcm")
import paf.conf as c
import paf.sd as sd
conf = c.default()
c.populate(conf, {"resources": {"user": {"subscriptions": 0}}})
assert conf.resources.user.resources[sd.ResourceType.SUBSCRIPTION] == 0
'''),
 dict(id="p18-version-range", property="P18",
  needs="a configured protocol version range with only a minimum",
  what="the maximum becomes the minimum, too",
  edits=[("paf/conf.py", "version_max = dict_lookup(version, \"max\", int, version_path,\n                                      default=version_max, required=False)",
          "version_max = dict_lookup(version, \"max\", int, version_path,\n                                      default=version_min, required=False)")],
  demo=S+r'''import types
sys.modules["paf.xcm"] = types.ModuleType("paf.xcm")
import paf.conf as c
conf = c.default()
c.populate(conf, {"domains": [{"sockets": [],
                               "protocol_version": {"min": 2}}]})
assert conf.domains[0].proto_version_limit.version_max == 3
'''),
 dict(id="p19-no-limit", property="P19",
  needs="-c 0 together with a configuration file which has a client limit",
  what="the limit of the configuration file stays in force",
  edits=[("paf/daemon.py", "                if clients == 0:\n                    conf.resources.total.clear_limit(\"clients\")\n                else:",
          "                if clients != 0:")],
  demo=S+r'''import types
import tempfile
x = types.ModuleType("paf.xcm")
x.error = OSError
sys.modules["paf.xcm"] = x
import paf
paf.xcm = x
import paf.daemon as d
import paf.sd as sd
import paf.logging
got = []
d.run = lambda conf, hook=None: got.append(conf)
paf.logging.configure = lambda *a, **kw: None
with tempfile.NamedTemporaryFile("w", suffix=".conf") as f:
    f.write("resources: { total: { clients: 5 } }\n")
    f.flush()
    d.main(["pafd", "-f", f.name, "-c", "0", "ux:x"])
assert got[0].resources.total.resources[sd.ResourceType.CLIENT] is None
'''),
 dict(id="p19-positional-and-multi", property="P19",
  needs="both domain addresses and -m on the command line",
  what="the domains given by plain addresses are lost",
  edits=[("paf/daemon.py", "            domains.append(domain)\n",
          "            domains = [d for d in domains if len(d) > 1] + [domain]\n")],
  demo=S+r'''import types
x = types.ModuleType("paf.xcm")
x.error = OSError
sys.modules["paf.xcm"] = x
import paf
paf.xcm = x
import paf.daemon as d
import paf.logging
got = []
d.run = lambda conf, hook=None: got.append(conf)
paf.logging.configure = lambda *a, **kw: None
d.main(["pafd", "-m", "ux:a+ux:b", "ux:c"])
a = sorted([s.addr for s in x.sockets] for x in got[0].domains)
assert a == [["ux:a", "ux:b"], ["ux:c"]], a
'''),
 dict(id="p20-request-reorder", property="P20",
  needs="several requests waiting for a transport that accepts one and then none",
  what="requests are sent in another order than issued",
  edits=[(CL, "self.out_wire_msgs.appendleft(out_wire_msg)",
          "self.out_wire_msgs.append(out_wire_msg)")],
  demo=FX+r'''c = ready()
SOCK.sent.clear()
SOCK.room = 0
for i in range(3):
    c.unpublish(i, response_cb=lambda *a, **kw: None)
for i in range(3):
    SOCK.room = 0
    c.process()
    SOCK.room = 1
    c.process()
ids = [json.loads(m.decode())["service-id"] for m in SOCK.sent]
assert ids == [0, 1, 2], ids
'''),
 dict(id="p20-send-or-receive", property="P20",
  needs="requests waiting to be sent while responses are waiting to be received",
  what="the client does not ask to be woken by incoming messages; it and a server which sends before it reads wait for each other forever",
  edits=[(CL, """        condition = xcm.SO_RECEIVABLE
        if len(self.out_wire_msgs) > 0:
            condition |= xcm.SO_SENDABLE
""", """        if len(self.out_wire_msgs) > 0:
            condition = xcm.SO_SENDABLE
        else:
            condition = xcm.SO_RECEIVABLE
""")],
  demo=FX+r'''c = ready()
SOCK.room = 0
c.ping(response_cb=lambda *a, **kw: None)
assert SOCK.target == 3, SOCK.target
'''),
 dict(id="p20-reentrant-callback", property="P20",
  needs="a failed transaction after another one has been accepted",
  what="a failure is reported as completion for multi-response transactions",
  edits=[(CL, """              self.state != TransactionState.TERMINATED):
            event = EventType.FAIL
""", """              self.state != TransactionState.TERMINATED):
            event = EventType.FAIL if self.state == \\
                TransactionState.REQUESTING else EventType.COMPLETE
""")],
  demo=FX+r'''c = ready()
got = []
t = c.services(response_cb=lambda ta, ev, *a, **kw: got.append(ev.name))
answer(ta_cmd="services", ta_id=t, msg_type="accept")
answer(ta_cmd="services", ta_id=t, msg_type="fail")
c.process()
assert got == ["ACCEPT", "FAIL"], got
'''),
 dict(id="p21-indented-comment", property="P21",
  needs="a comment line which starts with a blank",
  what="the comment is taken for a server address",
  edits=[(CL, "if len(addr) == 0 or addr[0] == '#':",
          "if len(addr) == 0 or line[0] == '#':")],
  demo=FX+r'''import tempfile
with tempfile.TemporaryDirectory() as d:
    os.environ["PAF_DOMAINS"] = d
    with open(os.path.join(d, "dom"), "w") as f:
        f.write("# one\n  # two\nux:a\n")
    a = [s.addr for s in client.read_domain("dom")]
assert a == ["ux:a"], a
'''),
 dict(id="p21-shared-tls-attrs", property="P21",
  needs="a domain file with several servers with different TLS attributes",
  what="a server's TLS attributes apply to the others",
  edits=[(CL, "    servers = []\n    for server_obj in root['servers']:\n        server = ServerConf(server_obj['address'])\n",
   "    servers = []\n    attrs = {}\n    for server_obj in root['servers']:\n        server = ServerConf(server_obj['address'])\n        server.attrs = attrs\n")],
  demo=FX+r'''a, b = client.parse_domain_json(json.dumps({"servers": [
    {"address": "tls:a:1", "tlsCertificateFile": "x"},
    {"address": "tls:b:1", "tlsKeyFile": "y"}]}))
assert a.attrs == {"tls.cert_file": "x"}, a.attrs
assert b.attrs == {"tls.key_file": "y"}, b.attrs
'''),
 dict(id="p07-request-in-subscription", property="P07",
  needs="a second request under the transaction id of an active subscription",
  what="the server process ends with an assertion",
  edits=[(SRV, "        if self.state == TransactionState.ACCEPTED:\n            raise ProtocolError(\"Received duplicate",
          "        if self.state == TransactionState.ACCEPTED and self.is_two_way():\n            raise ProtocolError(\"Received duplicate")],
  demo=H+'''def drive(ep):
    a = yield from client(ep, 1)
    b = yield from client(ep, 2)
    t = a.post("subscribe", subscription_id=3)
    yield
    a.post("subscribe", ta=t, subscription_id=4)
    yield
    ok((yield from b.req("ping")))
'''+T),
 dict(id="p24-binary-attribute", property="P24",
  needs="a subject key identifier containing a zero byte",
  what="the value is cut short, so that different certificates count as the same user",
  edits=[("paf/xcm.py", "        return bytes(attr_value.raw)[:attr_len]",
          "        return bytes(attr_value.value)[:attr_len]")],
  demo=H+'''CONF = CONF.replace("ux:d0", "tls:127.0.0.1:7")


def drive(ep):
    a = yield from client(ep, 1, "tls:127.0.0.1:7", "tls:10.0.0.1:1",
                          ski=b"\\x01\\x00\\x02")
    b = yield from client(ep, 2, "tls:127.0.0.1:7", "tls:10.0.0.2:1",
                          ski=b"\\x01\\x00\\x03")
    ok((yield from a.pub(5, 1, {}, 100)))
    fails((yield from b.unpub(5)), "permission-denied")
'''+T.replace("run(drive)", "run(drive, CONF)")),
 dict(id="p24-accept-leak", property="P24",
  needs="an accept which finds no connection",
  what="the attribute map is not released",
  edits=[("paf/xcm.py", """        try:
            xcm_socket = xcm_accept_a_c(self.xcm_socket, attr_map)
            if xcm_socket:
                return ConnectionSocket(xcm_socket)
            else:
                _raise_io_err()
        finally:
            xcm_attr_map_destroy_c(attr_map)
""", """        xcm_socket = xcm_accept_a_c(self.xcm_socket, attr_map)
        if xcm_socket:
            xcm_attr_map_destroy_c(attr_map)
            return ConnectionSocket(xcm_socket)
        else:
            _raise_io_err()
""")],
  demo=S+r'''import ctypes
calls = []


class Fun:
    def __init__(self, name):
        self.name = name

    def __call__(self, *a):
        calls.append(self.name)
        return {"xcm_attr_map_create": 1, "xcm_server_a": 2}.get(self.name)


class Lib:
    def __init__(self, *a, **kw):
        pass

    def __getattr__(self, name):
        return Fun(name)


ctypes.CDLL = Lib
import paf.xcm as xcm
s = xcm.server("ux:x")
calls.clear()
try:
    s.accept()
except OSError:
    pass
assert calls.count("xcm_attr_map_create") == \
    calls.count("xcm_attr_map_destroy"), calls
'''),
 dict(id="p27-orphans-not-reported", property="P27",
  needs="a subscription made while a matching service is an orphan, which is then left alone",
  what="the subscriber's view lacks a listed service",
  edits=[(SD, "            subscription.notify(ChangeType.ADDED, service)\n",
          "            if not service.is_orphan():\n                subscription.notify(ChangeType.ADDED, service)\n")],
  demo=H+'''def drive(ep):
    a = yield from client(ep, 1)
    b = yield from client(ep, 2)
    ok((yield from a.pub(5, 1, {}, 10)))
    a.close()
    yield
    t = b.post("subscribe", subscription_id=3)
    yield
    assert any(m["msg-type"] == "notify" for m in b.under(t))
'''+T),
 dict(id="p27-notification-overtakes", property="P27",
  needs="a notification caused while responses are still waiting for a slow client",
  what="notifications overtake responses sent before, so that the subscriber's view ends up older than the directory",
  edits=[(SRV, "        if match_type == sd.MatchType.DISAPPEARED:\n            self.respond(ta.notify(proto_match_type, service.service_id))\n",
   "        if match_type == sd.MatchType.DISAPPEARED:\n            self.out_wire_msgs.appendleft(\n                ta.notify(proto_match_type, service.service_id))\n            self.update_source()\n")],
  demo=H+'''def drive(ep):
    a = yield from client(ep, 1)
    b = yield from client(ep, 2)
    t = b.post("subscribe", subscription_id=3)
    yield
    b.collect()
    b.peer.cap(0)
    ok((yield from a.pub(5, 1, {}, 10)))
    ok((yield from a.unpub(5)))
    b.peer.cap(-1)
    yield
    m = [x["match-type"] for x in b.under(t) if x["msg-type"] == "notify"]
    assert m == ["appeared", "disappeared"], m
'''+T),
]
