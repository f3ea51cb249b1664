"""P12: a departed client leaves nothing behind."""
import errno
import gc
import json

import canon
import vworld
from explore import Scenario
from vworld import Violation, stub

CONF = '''domains:
- name: d0
  addrs: [ "ux:d0", "tcp:127.0.0.1:4711" ]
  idle: { min: 2, max: 6 }
resources: { user: { clients: 1000000, services: 1000000 } }
log: { syslog: false }
'''
OBS = 900


def live_objects():
    gc.collect()
    n = {}
    for o in gc.get_objects():
        t = type(o)
        m = getattr(t, "__module__", None)
        if isinstance(m, str) and m.startswith("paf."):
            n[t.__name__] = n.get(t.__name__, 0) + 1
    return n


class Leave(Scenario):
    """Histories of three connections; afterwards everybody departs."""
    conf = CONF
    death_counts = False
    # label -> (user, client id, version); 3 competes for the id of 1
    slots = {1: ("A", 11, 3), 2: ("A", 12, 2), 3: ("A", 11, 2)}
    ends = ("close", "reset")
    kept = None             # a service which outlives its owner by far

    def start(self, ep):
        self.ep = ep
        self.rep = 0
        self.peers = {}
        self.ta = {}
        self.gens = {}
        self.flow = {}
        self.path = []
        self.box = {}
        ep.on_wait = self.drain
        yield
        self.peers[OBS] = ep.connect("tcp:127.0.0.1:4711", "tcp:9.9.9.9:1",
                                     tag=OBS)
        yield
        self.msg(OBS, 'hello', client_id=9000, protocol_minimum_version=2,
                 protocol_maximum_version=2)
        yield
        yield from self.listing()
        self.base = self.measure()
        self.base_objs = live_objects()

    def measure(self):
        roots = [vworld.captured_servers]
        return canon.size(roots)

    def drain(self):
        for c, p in self.peers.items():
            if not p.closed and c not in self.flow:
                for m in p.recv():
                    if c == OBS:
                        self.box.setdefault(m["ta-id"], []).append(m)

    def msg(self, c, cmd, type='request', ta=None, **kw):
        p = self.peers[c]
        if ta is None:
            ta = self.ta[c] = self.ta.get(c, 0) + 1
        m = {'ta-cmd': cmd, 'ta-id': ta, 'msg-type': type}
        m.update((k.replace('_', '-'), v) for k, v in kw.items())
        p.send_raw(json.dumps(m).encode())
        return ta

    def connect(self, c):
        user = self.slots[c][0]
        i = {"A": 1, "B": 2}[user] + 10 * self.rep
        self.ta[c] = 0
        self.flow.pop(c, None)
        self.peers[c] = self.ep.connect(
            "tcp:127.0.0.1:4711", "tcp:10.%d.%d.1:%d" % (i // 200, i % 200,
                                                         2000 + c), tag=c)

    def cid(self, c):
        return self.slots[c][1] + 1000 * self.rep

    def hello(self, c):
        v = self.slots[c][2]
        self.msg(c, 'hello', client_id=self.cid(c),
                 protocol_minimum_version=v, protocol_maximum_version=v)

    def pub(self, c, sid, ttl):
        g = self.gens[sid] = self.gens.get(sid, 0) + 1
        self.msg(c, 'publish', service_id=sid + 1000 * self.rep,
                 generation=g, service_props={"k": ["v", g]}, ttl=ttl)

    def open(self, c):
        return c in self.peers and not self.peers[c].closed and \
            not self.peers[c].dropped()

    def actions(self):
        acts = []
        for c in self.slots:
            if not self.open(c):
                acts.append(["login", c])
                if c != 2:
                    acts.append(["connect", c])
                continue
            acts += [["hello", c]] if c != 2 else []
            acts += [["pub", c, 1], ["unpub", c, 1], ["sub", c],
                     ["bad", c], ["close", c], ["reset", c],
                     ["lastwords", c]]
            if c == 1:
                acts += [["pub", c, 2], ["track", c], ["unsub", c],
                         ["sendfail", c], ["stuck", c], ["again", c]]
        acts += [["wait", 1.1], ["wait", 3.3]]
        return acts

    def do(self, ep, a):
        self.path.append(a)
        yield from self.act(ep, a)

    def act(self, ep, a):
        op, c = a[0], a[1]
        if op == "wait":
            yield c
            return
        if op not in ("login", "connect") and not self.open(c):
            yield
            return
        if op in ("login", "connect"):
            if self.open(c):
                yield
                return
            self.connect(c)
            yield
            if op == "login":
                self.hello(c)
        elif op == "hello":
            self.hello(c)
        elif op == "again":     # another client id
            self.msg(c, 'hello', client_id=77 + 1000 * self.rep,
                     protocol_minimum_version=2, protocol_maximum_version=3)
        elif op == "pub":
            self.pub(c, a[2], 3)
        elif op == "unpub":
            self.msg(c, 'unpublish', service_id=a[2] + 1000 * self.rep)
            self.gens.pop(a[2], None)
        elif op == "sub":
            self.msg(c, 'subscribe', subscription_id=c + 1000 * self.rep,
                     filter="(k=v)")
        elif op == "unsub":
            self.msg(c, 'unsubscribe', subscription_id=c + 1000 * self.rep)
        elif op == "track":
            self.msg(c, 'track')
        elif op == "bad":
            self.peers[c].send_raw(b"{")
        elif op == "close":
            self.peers[c].close()
        elif op == "reset":
            self.peers[c].reset()
        elif op == "lastwords":
            # requests still unread when the connection ends
            self.pub(c, 1, 2)
            self.msg(c, 'subscribe', subscription_id=c + 1000 * self.rep)
            self.msg(c, 'services')
            self.peers[c].close()
        elif op == "sendfail":
            stub.stub_fail(vworld.OP_SEND, errno.EPIPE, 0, 1)
            self.msg(c, 'services')
        elif op == "stuck":
            # responses queue up which the client never takes
            self.flow[c] = 0
            self.peers[c].cap(0)
            for i in range(45):
                self.msg(c, 'services')
            for i in range(10):
                self.msg(c, 'ping')
        yield
        stub.stub_fail(vworld.OP_SEND, 0, 0, 0)

    def listing(self):
        out = []
        for cmd in ("services", "subscriptions", "clients"):
            ta = self.msg(OBS, cmd)
            yield
            ms = self.box.pop(ta, [])
            out.append([m for m in ms if m["msg-type"] == "notify"])
            if not ms or ms[-1]["msg-type"] != "complete":
                raise vworld.Prune()
        return out

    def depart(self, ep, how):
        for c in sorted(self.slots):
            if self.open(c):
                if how == "close":
                    self.peers[c].close()
                elif how == "reset":
                    self.peers[c].reset()
                elif how == "bad" and c not in self.flow:
                    self.peers[c].send_raw(b"[]")
                else:
                    if c in self.flow:
                        self.peers[c].close()
        yield
        left = [c for c in self.slots if self.open(c)]
        if how == "silent":
            # version 2 clients have to end their connection themselves
            yield 8.0
            for c in left:
                if self.open(c):
                    self.peers[c].close()
            yield
        for c in self.slots:
            if c in self.peers and not self.peers[c].closed:
                # the server has closed its end
                if not self.peers[c].dropped():
                    raise vworld.Prune()
                self.peers[c].close()
        services, subs, clients = yield from self.listing()
        if subs:
            raise Violation("subscriptions of departed clients are still "
                            "listed: %s" % json.dumps(subs))
        if [m for m in clients if m["client-id"] != 9000]:
            raise Violation("departed clients are still listed: %s" %
                            json.dumps(clients))
        n = stub.stub_live()
        if n != 3:
            raise Violation("%d transport sockets are open instead of the "
                            "two listening ones and the observer's" % n)
        yield 4.0
        services, subs, clients = yield from self.listing()
        services = [m for m in services if m["service-id"] != self.kept]
        if services:
            raise Violation("services of departed clients are still listed "
                            "after their TTL: %s" % json.dumps(services))
        # all deadlines which may still be around pass by
        yield 20.0
        self.gens = {}

    def finish(self, ep):
        ends = self.ends
        yield from self.depart(ep, ends[0])
        if stub.stub_misuse():
            raise Violation("transport misuse: %s" %
                            stub.stub_misuse_text().decode())
        # the ids are free for any other user
        for c, cid in ((50, 11), (51, 12)):
            p = ep.connect("ux:d0", "ux:x", tag=c)
            yield
            self.peers[c] = p
            self.flow[c] = -1
            self.msg(c, 'hello', client_id=cid + 1000 * self.rep,
                     protocol_minimum_version=2, protocol_maximum_version=2)
            yield
            m = p.recv()
            if not m or m[0]["msg-type"] != "complete":
                raise Violation("client id %d of a departed client cannot "
                                "be used by somebody else: %r" % (cid, m[:1]))
            p.close()
            yield
        sizes = [self.measure()]
        objs = [live_objects()]
        if sizes[0] > self.base or any(
                n > self.base_objs.get(k, 0) for k, n in objs[0].items()):
            # does it grow without bound?
            for r in (1, 2, 3):
                self.rep = r
                for a in list(self.path):
                    yield from self.act(ep, a)
                yield from self.depart(ep, ends[r % len(ends)])
                sizes.append(self.measure())
                objs.append(live_objects())
            self.grown(sizes, objs)
            self.note("regrown")

    def grown(self, sizes, objs):
        if all(x < y for x, y in zip(sizes, sizes[1:])):
            raise Violation("memory use grows with every repetition of the "
                            "history: %r" % (sizes,), sig="leak")
        for k in objs[0]:
            ns = [o.get(k, 0) for o in objs]
            if all(x < y for x, y in zip(ns, ns[1:])):
                raise Violation("%s objects are left behind by every "
                                "repetition of the history: %r" % (k, ns),
                                sig="leak")

    def model_key(self):
        return [self.gens, self.ta, self.flow,
                {c: (self.open(c), p.closed) for c, p in self.peers.items()}]


class Resetting(Leave):
    ends = ("reset", "close", "bad")


class Bad(Leave):
    ends = ("bad",)


class Silent(Leave):
    ends = ("silent",)


class Limited(Leave):
    """Requests refused for lack of resources."""
    conf = CONF.replace("resources: { user: { clients: 1000000, "
                        "services: 1000000 } }",
                        "resources: { user: { clients: 1, services: 1, "
                        "subscriptions: 1 }, total: { clients: 3 } }")
    assert conf != CONF


class Ends(Leave):
    """The least and the greatest client ids."""
    slots = {1: ("A", 0, 3), 2: ("A", (1 << 63) - 1, 2), 3: ("A", 0, 2)}

    def cid(self, c):
        i = self.slots[c][1]
        return i - 1000 * self.rep if i and self.rep else i


class Revisit(Leave):
    """An orphan stays while its owner, and others, come and go."""
    kept = 5
    times = 4

    def start(self, ep):
        yield from Leave.start(self, ep)
        self.kept_gen = 1
        yield from self.act(ep, ["login", 1])
        self.keep(1)
        yield
        self.peers[1].close()
        yield
        self.base = self.measure()
        self.base_objs = live_objects()

    def keep(self, c):
        self.msg(c, 'publish', service_id=self.kept,
                 generation=self.kept_gen, service_props={"k": ["v"]},
                 ttl=1 << 40)

    def actions(self):
        acts = []
        for a in Leave.actions(self):
            if a[0] not in ("again", "sendfail", "bad", "hello", "connect"):
                acts.append(a)
        for c in self.slots:
            if self.open(c):
                acts += [["keep", c], ["renew", c]]
        return acts

    def act(self, ep, a):
        if a[0] in ("keep", "renew"):
            if self.open(a[1]):
                self.kept_gen += a[0] == "renew"
                self.keep(a[1])
            yield
            return
        yield from Leave.act(self, ep, a)

    def model_key(self):
        return [Leave.model_key(self), self.kept_gen]

    def finish(self, ep):
        sizes, objs = [], []
        for r in range(self.times):
            if r:
                for a in list(self.path):
                    yield from self.act(ep, a)
            yield from self.depart(ep, self.ends[r % 2])
            sizes.append(self.measure())
            objs.append(live_objects())
            if r == 0 and sizes[0] <= self.base and not any(
                    n > self.base_objs.get(k, 0)
                    for k, n in objs[0].items()):
                return
        self.grown(sizes, objs)
        self.note("regrown")


class Staying(Leave):
    """A connection which goes on for ever, and what it asks for ends."""
    times = 4
    version = 3

    def start(self, ep):
        yield from Leave.start(self, ep)
        self.track_ta = None
        for c in (1, 2):
            yield from Leave.act(self, ep, ["login", c])
        self.msg(1, 'track')
        self.track_ta = self.ta[1]
        yield

    def cid(self, c):
        return self.slots[c][1]

    def actions(self):
        return [["pub", 1], ["unpub", 1], ["sub", 1], ["unsub", 1],
                ["ping", 1], ["list", 1], ["badlist", 1], ["badsub", 1],
                ["query", 1], ["again", 1], ["nopub", 1], ["pub", 2],
                ["unpub", 2], ["stranger", 3], ["lost", 1], ["wait", 0.7]]

    def act(self, ep, a):
        op, c = a[0], a[1]
        if op == "wait":
            yield c
        elif op == "pub":
            self.pub(c, 1, 3)
            yield
        elif op == "nopub":
            self.msg(c, 'publish', service_id=1, generation=0,
                     service_props={}, ttl=3)
            yield
        elif op == "list":
            for cmd in ("services", "subscriptions", "clients"):
                self.msg(c, cmd)
            yield
        elif op in ("badlist", "badsub"):
            if op == "badlist":
                self.msg(c, 'services', filter="(")
            else:
                self.msg(c, 'subscribe', subscription_id=1, filter="(")
            yield
        elif op == "ping":
            self.msg(c, 'ping')
            yield
        elif op == "query":
            self.msg(c, 'track', type='inform', ta=self.track_ta,
                     track_type='query')
            yield
        elif op == "stranger":
            # a rival for the client id, turned down
            yield from Leave.act(self, ep, ["login", 3])
            self.peers[3].close()
            yield
        elif op == "lost":
            # responses which have to wait for the client
            self.peers[c].cap(0)
            for i in range(3):
                self.msg(c, 'services')
            yield
            self.peers[c].cap(-1)
            yield
        else:
            yield from Leave.act(self, ep, [op, c, 1])

    def finish(self, ep):
        sizes, objs = [], []
        for r in range(self.times):
            if r:
                self.rep = r            # other ids
                for a in list(self.path):
                    yield from self.act(ep, a)
            # nothing the connections hold is left
            for c in (1, 2):
                if not self.open(c):
                    raise vworld.Prune()
                yield from self.act(ep, ["unpub", c])
                yield from self.act(ep, ["unsub", c])
            self.msg(1, 'ping')
            yield
            sizes.append(self.measure())
            objs.append(live_objects())
            if r == 1 and sizes[0] == sizes[1] and objs[0] == objs[1]:
                return
        self.grown(sizes, objs)
        self.note("regrown")


def run(check):
    t = check.thorough
    check.explore("close", Leave, 6 if t else 4)
    check.explore("reset", Resetting, 5 if t else 4)
    check.explore("protocol-error", Bad, 5 if t else 3)
    check.explore("staying", Staying, 4 if t else 3)
    check.explore("limited", Limited, 4 if t else 3)
    check.explore("extreme-ids", Ends, 4 if t else 3)
    check.explore("revisit", Revisit, 4 if t else 3)
    check.explore("silence", Silent, 5 if t else 3)
