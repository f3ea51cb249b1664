"""P11: nothing is lost, duplicated or reordered under back-pressure."""
import itertools
import json

import explore
import vworld
from explore import Scenario
from vworld import Violation

FLOW = ("room", "open", "shut")
CONF = '''domains:
- name: d0
  addrs: [ "ux:d0" ]
  idle: { min: 100, max: 1000 }
log: { syslog: false }
'''
# more than this many messages waiting is no longer a bounded backlog
BOUND = 1000


class Slow(Scenario):
    """Clients 1 and 3 may be slow; 2 publishes and is always fast."""
    conf = CONF
    slow = (1,)
    vers = {1: 3, 2: 2, 3: 2}
    free = False            # reference run: no back-pressure
    nsvc = 2

    def start(self, ep):
        self.ep = ep
        self.ta = {1: 0, 2: 0, 3: 0}
        self.got = {1: [], 2: [], 3: []}
        self.peers = {}
        self.caps = {}
        self.path = []
        self.gens = {}
        self.subs = set()
        for c in (1, 2, 3):
            self.peers[c] = ep.connect("ux:d0", "ux:p%d" % c, tag=c)
            yield
            self.post_msg(c, 'hello', client_id=10 + c,
                          protocol_minimum_version=self.vers[c],
                          protocol_maximum_version=self.vers[c])
            yield
            self.take(c)
        for s in range(self.nsvc):
            self.pub(s)
        yield
        for c in self.slow:
            self.take(c)
            self.set_cap(c, 0)
        self.flush()

    def post_msg(self, c, cmd, **kw):
        m = {'ta-cmd': cmd, 'ta-id': self.ta[c], 'msg-type': 'request'}
        m.update((k.replace('_', '-'), v) for k, v in kw.items())
        self.ta[c] += 1
        self.peers[c].send_raw(json.dumps(m).encode())

    def pub(self, sid):
        g = self.gens[sid] = self.gens.get(sid, 0) + 1
        self.post_msg(2, 'publish', service_id=sid, generation=g,
                      service_props={"g": [g]}, ttl=50)

    def set_cap(self, c, n):
        """Room for n more messages than the client has taken."""
        if not self.free:
            self.caps[c] = n
            self.peers[c].cap(n)

    def take(self, c, n=None):
        while n is None or n > 0:
            d = vworld.stub_recv(self.peers[c].ep)
            if d is None:
                return
            self.got[c].append(d.decode())
            if n is not None:
                n -= 1

    def flush(self):
        for c in self.peers:
            if c not in self.caps or self.caps[c] < 0:
                self.take(c)

    def actions(self):
        acts = []
        for c in self.slow:
            acts += [["svcs", c], ["ping", c], ["room", c, 1], ["room", c, 2],
                     ["open", c] if self.caps.get(c, -1) >= 0
                     else ["shut", c]]
            acts.append(["unsub", c] if c in self.subs else ["sub", c])
            acts.append(["burst", c])
        acts += [["pub", 0], ["pub", 5], ["unpub", 0]]
        return acts

    def do(self, ep, a):
        op, c = a[0], a[1]
        if op == "room":
            # the client reads what is there, and lets n more in
            if not self.free:
                self.take(c)
                self.set_cap(c, a[2])
        elif op == "open":
            self.set_cap(c, -1)
        elif op == "shut":
            self.flush()
            self.set_cap(c, 0)
        elif op == "svcs":
            self.post_msg(c, 'services')
        elif op == "ping":
            self.post_msg(c, 'ping')
        elif op == "burst":
            # several requests waiting to be read at once
            for i in range(2):
                self.post_msg(c, 'ping')
                self.post_msg(c, 'subscriptions')
                self.post_msg(c, 'unpublish', service_id=999)
        elif op == "sub":
            self.subs.add(c)
            self.post_msg(c, 'subscribe', subscription_id=c)
        elif op == "unsub":
            self.subs.discard(c)
            self.post_msg(c, 'unsubscribe', subscription_id=c)
        elif op == "pub":
            self.pub(c)
        elif op == "unpub":
            self.post_msg(2, 'unpublish', service_id=c)
            self.gens.pop(c, None)
        if op not in FLOW:
            self.path.append(a)
        yield
        self.flush()

    def finish(self, ep):
        for c in self.slow:
            self.set_cap(c, -1)
        for i in range(50):
            n = sum(map(len, self.got.values()))
            yield
            self.flush()
            if sum(map(len, self.got.values())) == n:
                break
        for c, p in self.peers.items():
            if p.dropped():
                raise Violation("client %d was disconnected" % c)

    def model_key(self):
        return [self.path, {c: (len(g), vworld.stub.stub_rx_count(
            self.peers[c].ep)) for c, g in self.got.items()}, self.caps]

    def post(self, path, res):
        want = reference(self, [a for a in path if a[0] not in FLOW])
        for c in self.got:
            g, w = self.got[c], want[c]
            if g == w:
                continue
            for i, (x, y) in enumerate(itertools.zip_longest(g, w)):
                if x != y:
                    break
            res.viol = "message %d to client %d under back-pressure is %s " \
                "rather than %s" % (i, c, x, y)
            res.sig = "order"
            return


_refs = {}


def reference(scn, path):
    k = json.dumps([type(scn).__name__, path, scn.params])
    if k not in _refs:
        if len(_refs) > 3000:
            _refs.clear()
        box = {}

        class Free(type(scn)):
            free = True

            def post(self, path, res):
                box.update(self.got)
        r = explore.run_path(lambda: Free(**scn.params), path,
                             want_key=False)
        if r.viol or not box:
            raise RuntimeError("reference run failed: %r" % (
                r.viol or r.internal,))
        _refs[k] = box
    return _refs[k]


class TwoSlow(Slow):
    slow = (1, 3)

    def actions(self):
        acts = []
        for c in self.slow:
            acts += [["room", c, 1], ["room", c, 3], ["svcs", c]]
            acts.append(["unsub", c] if c in self.subs else ["sub", c])
        acts += [["pub", 0], ["unpub", 0]]
        return acts


class Batches(Slow):
    """Responses around the sizes at which the server batches its work."""
    nsvc = 150

    def actions(self):
        return []


class Huge(Slow):
    """Responses and notifications by the thousand."""
    watchdog = 120

    def do(self, ep, a):
        if a[0] == "pubs":
            for i in range(a[1]):
                self.pub(0)
            self.path.append(a)
            yield
            self.flush()
        else:
            yield from Slow.do(self, ep, a)


def huge(n):
    return type("Huge%d" % n, (Huge,), dict(nsvc=n))


class Backlog(Slow):
    """More requests than the server is willing to queue responses to."""
    nsvc = 3
    watchdog = 60

    def do(self, ep, a):
        if a[0] != "flood":
            yield from Slow.do(self, ep, a)
            return
        self.base = getattr(self, "base", len(self.got[1]))
        self.sent = getattr(self, "sent", []) + [
            {'ping': 1, 'services': 2 + self.nsvc}[a[3]]] * a[2]
        for i in range(a[2]):
            self.post_msg(1, a[3])
        self.path.append(a)
        yield
        self.flush()
        ep1 = self.peers[1].ep
        read = len(self.sent) - vworld.stub.stub_peer_rx_count(ep1)
        owed = sum(self.sent[:read]) - (len(self.got[1]) - self.base) - \
            vworld.stub.stub_rx_count(ep1)
        if owed > BOUND:
            raise Violation("the server has read requests with %d responses "
                            "which the client does not take" % owed)
        # others are served meanwhile
        n = len(self.got[2])
        self.post_msg(2, 'ping')
        self.post_msg(2, 'services')
        yield
        self.flush()
        m = [json.loads(x) for x in self.got[2][n:]]
        if not m or m[0]["ta-cmd"] != "ping" or \
           m[-1]["msg-type"] != "complete":
            raise Violation("another client is not served while one is "
                            "slow: %r" % m[:2])


def run(check):
    t = check.thorough
    check.explore("slow", Slow, 5 if t else 4)
    check.explore("two-slow", TwoSlow, 5 if t else 4)
    rooms = (0, 1, 2, 63, 64, 65, 127, 128, 129, 151)
    cases = []
    for a in rooms:
        for b in rooms if t else (0, 1, 63, 64, 65):
            cases.append([["svcs", 1], ["room", 1, a], ["room", 1, b]])
            cases.append([["room", 1, a], ["sub", 1], ["room", 1, b],
                          ["pub", 0], ["svcs", 1]])
            cases.append([["sub", 1], ["room", 1, a], ["unpub", 0],
                          ["unsub", 1], ["room", 1, b], ["ping", 1]])
    check.cases("batches", Batches, cases)
    for n in (500, 5000):
        check.cases("huge-%d" % n, huge(n), [
            [["svcs", 1], ["ping", 1], ["room", 1, 3]],
            [["sub", 1], ["ping", 1], ["room", 1, 100], ["unsub", 1]]])
    check.cases("stream", huge(2), [
        [["sub", 1], ["pubs", n], ["room", 1, k],
         ["pubs", 3], ["unsub", 1]]
        for n in (200, 600, 5000) for k in (1, 70, 300)])
    cases = []
    for n in (100, 127, 128, 129, 130, 300, 3000):
        for cmd in ("ping", "services"):
            for drain in ((), (["room", 1, 1],), (["room", 1, 100],),
                          (["room", 1, 64], ["room", 1, 64],
                           ["room", 1, 64])):
                cases.append([["flood", 1, n, cmd]] + list(drain))
                if n <= 300 and cmd == "ping":
                    cases.append([["flood", 1, n, cmd]] + list(drain) +
                                 [["pub", 0], ["flood", 1, n, "ping"],
                                  ["room", 1, 5]])
    check.cases("backlog", Backlog, cases)
