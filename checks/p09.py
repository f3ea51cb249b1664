"""P09: idle clients are dropped in time, live ones never."""
import itertools

from vworld import stub
from world import World


class Idle(World):
    watch = frozenset({'idle'})
    doms = (dict(name="d0", addrs=("ux:d0",), idle=(4, 10)),)
    setup = (["login", 1, 0, 0, "A", 11, 3],)
    # waits relative to the limits 4, 6 and 10 (0.45, 0.55, 0.95, 1.05 times)
    waits = (1.5, 2.9, 3.9, 5.7)
    ttls = (1, 6, 30)

    def settle(self):
        World.settle(self)
        # The transport watches over those whom the server does not: it
        # does so until, and unless, a version 3 handshake completes.
        for c, x in self.m.conns.items():
            p = self.peers.get(c)
            if p is None or p.closed or not p.accepted() or \
               x.remote.startswith("ux"):
                continue
            on = bool(stub.stub_peer_keepalive(p.ep))
            if on == bool(x.hs and x.ver >= 3):
                self.mismatch('idle', "TCP keepalive of connection %s "
                              "(version %s) is %s" %
                              (c, x.ver if x.hs else None,
                               "on" if on else "off"))
            self.note("keepalive_compared")

    def alphabet(self):
        acts = []
        m = self.m
        x = m.conns.get(1)
        if x is None:
            acts.append(["login", 1, 0, 0, "A", 11, 3])
        else:
            acts.append(["ping", 1])
            s = m.doms[0].services.get(1)
            g = s.gen if s else 0
            for t in self.ttls:
                acts.append(["pub", 1, 1, g + 1, 0, t])
            if s:
                acts.append(["unpub", 1, 1])
            if x.track is None:
                acts.append(["track", 1])
            else:
                acts.append(["tq", 1])
                if x.query_at is not None:
                    acts.append(["tr", 1])
            acts.append(["close", 1])
        y = m.conns.get(2)
        if y is None:
            acts.append(["seq", ["connect", 2, 0, 0, "A"],
                         ["hello", 2, 11, 3, 3]])
        elif not y.hs:
            acts += [["hello", 2, 11, 3, 3], ["close", 2]]
        else:
            # took over the client id
            acts += [["ping", 2], ["close", 2]]
            s = m.doms[0].services.get(1)
            acts.append(["pub", 2, 1, s.gen + 1 if s else 1, 0, 1])
        acts += [["wait", w] for w in self.waits]
        return acts


class Late(Idle):
    rnd = 0.9999999


class Early(Idle):
    rnd = 0.0


class TwoServices(Idle):
    """The limit follows the lowest TTL of the services still held."""
    setup = (["login", 1, 0, 0, "A", 11, 3], ["login", 2, 0, 0, "A", 12, 2],
             ["pub", 1, 1, 1, 0, 4], ["pub", 1, 2, 1, 0, 7])
    waits = (1.9, 3.1, 4.3, 7.4)

    def alphabet(self):
        acts = []
        d = self.m.doms[0]
        for sid, ttls in ((1, (4, 9)), (2, (7,))):
            s = d.services.get(sid)
            g = s.gen if s else 0
            for c in (1, 2):
                if c in self.m.conns:
                    for t in ttls:
                        acts.append(["pub", c, sid, g + 1, 0, t])
                    if s:
                        acts.append(["unpub", c, sid])
        for c, ver in ((1, 3), (2, 2)):
            if c not in self.m.conns:
                acts.append(["login", c, 0, 0, "A", 10 + c, ver])
        acts += [["wait", w] for w in self.waits]
        return acts


class Narrow(Idle):
    doms = (dict(name="d0", addrs=("ux:d0",), idle=(1, 1)),)
    waits = (0.3, 0.7, 0.97, 1.1)
    ttls = (0, 3)


def alone(version, lo, hi, rnd_):
    """A single client on a fine grid of time: exact drop windows."""
    class Alone(Idle):
        setup = ()
        doms = (dict(name="d0", addrs=("ux:d0",), idle=(lo, hi)),)
        rnd = rnd_
        observers = False
    return Alone


def timings(version, hi, ttls):
    """Cases: [publish] [track] wait a, act, wait b, act, wait in slices."""
    grid = [0.44, 0.5, 0.56, 0.8, 0.94]
    for ttl in ttls:
        lim = hi if ttl is None else min(hi, max(2, ttl))
        head = [["login", 1, 0, 0, "A", 11, version]]
        if ttl is not None:
            head.append(["pub", 1, 1, 1, 0, ttl])
        for track in ((0, 1) if version == 3 else (0,)):
            h = head + ([["track", 1]] if track else [])
            acts = [["ping", 1]] + ([["tq", 1]] if track else [])
            for a in [None] + grid:
                for act in acts if a is not None else [None]:
                    p = list(h)
                    if a is not None:
                        p += [["wait", a * lim], act]
                    # ten fine slices bracket the permitted window
                    q = p + [["wait", 0.9 * lim]]
                    q += [["wait", 0.02 * lim]] * 10
                    yield q
                    if track:
                        # answer as late as possible, for several rounds
                        yield p + [["wait", 0.8 * lim], ["tr", 1],
                                   ["wait", 0.8 * lim], ["tr", 1],
                                   ["wait", 0.94 * lim], ["tr", 1],
                                   ["wait", 1.06 * lim]]


def several():
    """Up to five services in every order of lifetimes; the shortest of
    those left counts."""
    for n in (3, 4, 5):
        for ttls in itertools.permutations((4, 7, 7, 12, 15)[:n]):
            head = [["login", 1, 0, 0, "A", 11, 3]]
            for i, t in enumerate(ttls):
                head.append(["pub", 1, i, 1, 0, t])
            gone = [None] + (list(range(n)) if n < 5 else [0])
            for g in gone:
                rest = list(ttls)
                p = list(head)
                if g is not None:
                    p.append(["unpub", 1, g])
                    del rest[g]
                lim = min(rest)
                yield p + [["wait", 0.9 * lim]] + [["wait", 0.02 * lim]] * 10


class Keepalive(Idle):
    setup = ()
    observers = False


def handshakes():
    """One or two connections from each kind of transport, which say hello
    once or twice, rightly or wrongly."""
    offers = ((2, 2), (2, 3), (3, 3), (3, 9), (4, 9), (0, 1))
    for user in "LATO":
        for a, b in itertools.product(offers, repeat=2):
            yield [["connect", 1, 0, 0, user], ["wait", 0.5],
                   ["hello", 1, 11, *a], ["hello", 1, 11, *b],
                   ["ping", 1], ["wait", 1.5], ["close", 1]]
            for other in "AT":
                yield [["connect", 1, 0, 0, user], ["hello", 1, 11, *a],
                       ["connect", 2, 0, 0, other], ["hello", 2, 11, *b],
                       ["hello", 2, 12, *b], ["close", 1],
                       ["hello", 2, 11, *a], ["ping", 2]]


def run(check):
    t = check.thorough
    check.cases("keepalive", Keepalive, handshakes())
    for ver in (2, 3):
        for rnd in (0.0, 0.5, 0.9999999):
            check.cases("timings-v%d-%.1f" % (ver, rnd),
                        alone(ver, 2, 20, rnd),
                        timings(ver, 20, (None, 0, 1, 5, 100)))
    check.cases("several-services", alone(3, 2, 20, 0.5), several())
    d = 6 if t else 5
    check.explore("idle", Idle, d)
    check.explore("idle-late", Late, d - 1)
    check.explore("idle-early", Early, d - 1)
    check.explore("two-services", TwoServices, d - 1)
    check.explore("narrow", Narrow, d - 1)
