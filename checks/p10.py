"""P10: admission of connections."""
import errno

import vworld
from explore import Scenario
from vworld import Violation, stub

MIN_DROP, MAX_DROP = 2.0, 4.2


class Conn:
    def __init__(self, peer, sock, t):
        self.peer = peer
        self.sock = sock
        self.t_accept = None
        self.t_drop = None
        self.hs = False
        self.named = False      # a failed hello named a client id in use
        self.served = False
        self.faulted = False


class Admission(Scenario):
    limit = None
    socks = ("ux:a", "tcp:127.0.0.1:4711")
    labels = 4
    faults = ()
    cids = (1, 2)
    service = False

    @property
    def conf(self):
        t = "domains:\n- name: d0\n  addrs: [ %s ]\n" % ", ".join(
            '"%s"' % s for s in self.socks)
        if self.limit is not None:
            t += "resources:\n  total: { clients: %d }\n" % self.limit
        return t + "log: { syslog: false }\n"

    def start(self, ep):
        self.ep = ep
        self.conns = {}
        self.sids = 0
        self.ta = 0
        ep.on_wait = self.watch
        yield

    def open_accepted(self):
        return [c for c in self.conns.values()
                if c.t_accept is not None and c.t_drop is None and
                not c.peer.closed]

    def watch(self):
        now = self.ep.now
        for k, c in self.conns.items():
            if c.t_accept is None and c.peer.accepted():
                c.t_accept = now
            if not c.peer.closed:
                for m in c.peer.recv():
                    if m["ta-cmd"] != "hello":
                        c.served = True
                    elif m["msg-type"] == "complete":
                        c.hs = True
                    elif m.get("fail-reason") == "client-id-exists":
                        c.named = True
            if c.t_drop is None and not c.peer.closed and c.peer.dropped():
                c.t_drop = now
                if c.t_accept is None:
                    continue    # refused by an injected accept failure
                if c.hs:
                    raise Violation("handshaked connection %s dropped" % k,
                                    sig="drop-hs")
                if now - c.t_accept < MIN_DROP - 1e-6 and not c.faulted:
                    raise Violation("connection %s dropped %.2f s after "
                                    "being accepted" %
                                    (k, now - c.t_accept), sig="early")
        if self.limit is not None:
            # those closed by the client count until the server knows
            n = len(self.open_accepted())
            if n > self.limit:
                raise Violation("%d connections accepted with a limit of "
                                "%d" % (n, self.limit), sig="limit")

    def room(self):
        return self.limit is None or len(self.open_accepted()) < self.limit

    def settled(self):
        self.watch()
        now = self.ep.now
        waiting = [k for k, c in self.conns.items() if c.t_accept is None and
                   not c.peer.closed and c.t_drop is None]
        n = len(self.open_accepted())
        self.note("waiting" if waiting else "none-waiting")
        if waiting and (self.limit is None or n < self.limit):
            raise Violation("connection %s is not accepted although only %d "
                            "connections are open (limit %s)" %
                            (waiting[0], n, self.limit), sig="starved")
        for k, c in self.conns.items():
            if c.t_accept is not None and c.t_drop is None and \
               not c.peer.closed and not c.hs and not c.named and \
               now > c.t_accept + MAX_DROP:
                raise Violation("connection %s without handshake alive "
                                "after %.1f s" % (k, now - c.t_accept),
                                sig="not-dropped")

    def actions(self):
        acts = []
        live = 0
        for k in range(self.labels):
            c = self.conns.get(k)
            if c is None or c.peer.closed or c.t_drop is not None:
                if live < 2:    # unused labels are interchangeable
                    live += 1
                    for s in range(len(self.socks)):
                        acts.append(["connect", k, s])
                        if self.faults:
                            for f in self.faults:
                                if f[0] != "GET" or self.room():
                                    acts.append(["fault", k, s, f])
                continue
            if not c.hs:
                for cid in self.cids:
                    acts.append(["hello", k, cid])
                acts.append(["bad", k])
            elif self.service:
                acts.append(["leave", k])
            acts.append(["close", k])
            acts.append(["reset", k])
        acts += [["wait", 1.3], ["wait", 3.3], ["burst"]]
        return acts

    def connect(self, k, s):
        p = self.ep.connect(self.socks[s], "tcp:10.0.0.1:%d" % (1000 + k) if
                            self.socks[s].startswith("tcp") else "ux:p",
                            tag=k)
        if p is None:
            raise Violation("nobody listens at %s" % self.socks[s])
        self.conns[k] = Conn(p, s, self.ep.now)

    def send(self, k, cmd, **kw):
        self.ta += 1
        self.conns[k].peer.send(ta_cmd=cmd, ta_id=self.ta,
                                msg_type="request", **kw)

    def do(self, ep, a):
        op = a[0]
        if op == "connect":
            self.connect(a[1], a[2])
        elif op == "fault":
            what, e = a[3]
            stub.stub_fail(getattr(vworld, "OP_" + what), e, 0, 1)
            self.connect(a[1], a[2])
            self.conns[a[1]].faulted = True
        elif op == "burst":
            # more connections than are accepted at a time
            base = 100 + len(self.conns)
            for i in range(2 * 16 + 2):
                self.connect(base + i, i % len(self.socks))
            yield
            self.settled()
            for i in range(2 * 16 + 2):
                self.conns[base + i].peer.close()
        elif op == "hello":
            c = self.conns[a[1]]
            self.send(a[1], "hello", client_id=a[2],
                      protocol_minimum_version=2, protocol_maximum_version=2)
        elif op == "bad":
            self.send(a[1], "ping")
        elif op == "leave":
            c = self.conns[a[1]]
            self.send(a[1], "publish", service_id=self.sids, generation=1,
                      service_props={}, ttl=3)
            yield
            c.peer.close()
            self.sids += 1
        elif op == "close":
            self.conns[a[1]].peer.close()
        elif op == "reset":
            self.conns[a[1]].peer.reset()
        elif op == "wait":
            yield a[1]
        yield
        self.settled()

    def finish(self, ep):
        # everything still without a handshake goes, and a newcomer is served
        yield 2.1
        yield 2.3
        self.settled()
        for k, c in list(self.conns.items()):
            if not c.peer.closed:
                c.peer.close()
        yield
        for s in range(len(self.socks)):
            self.connect(9000 + s, s)
            yield
            self.settled()
            c = self.conns[9000 + s]
            self.send(9000 + s, "hello", client_id=77,
                      protocol_minimum_version=2, protocol_maximum_version=2)
            yield
            self.watch()
            if not c.hs:
                raise Violation("a new client is not served although all "
                                "others have left", sig="newcomer")
            c.peer.close()
            yield

    def model_key(self):
        now = self.ep.now
        return sorted((str(k), c.sock, c.hs, c.named, c.peer.closed,
                       c.t_drop is not None, None if c.t_accept is None
                       else round(c.t_accept - now, 3))
                      for k, c in self.conns.items()
                      if not c.peer.closed and c.t_drop is None)


def variant(name, **kw):
    return type(name, (Admission,), kw)


F = (("ACCEPT", errno.EMFILE), ("ACCEPT", errno.ECONNABORTED),
     ("ACCEPT", errno.EAGAIN), ("GET", errno.ENOTCONN))


def run(check):
    d = 6 if check.thorough else 5
    check.explore("limit-1", variant("L1", limit=1, labels=3), d)
    check.explore("limit-2", variant("L2", limit=2, labels=4), d)
    check.explore("limit-17", variant("L17", limit=17, labels=2,
                                      socks=("ux:a",)), d - 1)
    check.explore("no-limit", variant("L0", labels=2,
                                      cids=(0, (1 << 63) - 1)), d - 1)
    check.explore("faults", variant("F2", limit=2, labels=3, faults=F,
                                    cids=(1,)), d - 1)
    check.explore("orphans", variant("O2", limit=2, labels=3,
                                     socks=("ux:a",), service=True), d)
