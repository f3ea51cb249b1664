"""P22: domains are isolated; the sockets of a domain are equivalent."""
import explore
from world import World

ALL = frozenset({'svc', 'list', 'acc', 'res', 'sub', 'subs', 'stream', 'hs',
                 'clients', 'orphan', 'drop', 'nodrop', 'idle', 'track', 'ta',
                 'resp', 'filter', 'ping', 'unsolicited', 'format',
                 'admission', 'listen'})


class Alone(World):
    """The same history as seen by one domain, with one socket."""
    watch = ALL


class Domains(World):
    watch = ALL
    doms = (dict(name="d0", addrs=("ux:d0", "tcp:127.0.0.1:4711")),
            dict(name="d1", addrs=("ux:d1",)))
    total_limits = dict(clients=3, services=2, subscriptions=1)
    user_limits = dict(clients=2, services=1)
    # label -> (domain, socket, user, client id, version)
    slots = {1: (0, 0, "A", 11, 3), 2: (0, 1, "A", 12, 2),
             3: (1, 0, "B", 11, 2), 4: (1, 0, "A", 12, 3)}
    setup = ()
    other = ("O", )

    def excuse(self, path):
        """Is this deviation there for one domain on its own as well?"""
        me = self
        for d in range(len(self.doms)):
            dom = dict(self.doms[d])
            dom["addrs"] = dom["addrs"][:1]

            class One(Alone):
                doms = (dom,)
                total_limits = me.total_limits
                user_limits = me.user_limits
                rnd = me.rnd
                setup = self.project(list(me.setup), d)
            r = explore.run_path(One, self.project(path, d), want_key=False)
            if r.viol is not None or r.internal is not None:
                return True
        return False

    def project(self, path, d):
        out = []
        for a in path:
            if a[0] == "wait":
                out.append(a)
            elif a[0] == "seq":
                out.append(["seq"] + self.project(a[1:], d))
            elif a[0] == "par":
                p = self.project(a[2], d)
                if p:
                    out.append(["par", a[1], p])
                else:
                    out.append(["wait", 0.0])
            elif self.slots[a[1]][0] == d:
                if a[0] in ("login", "connect"):
                    a = a[:2] + [0, 0] + a[4:]
                out.append(a)
        return out

    def alphabet(self):
        acts = []
        for c, (d, ai, user, cid, ver) in self.slots.items():
            x = self.m.conns.get(c)
            if x is None:
                acts.append(["login", c, d, ai, user, cid, ver])
                continue
            if not x.hs:
                acts += [["hello", c, cid, ver, ver], ["close", c]]
                continue
            dom = self.m.doms[d]
            for sid in (1, 2) if c in (1, 3) else (1,):
                s = dom.services.get(sid)
                g = s.gen if s else 0
                acts.append(["pub", c, sid, g + 1, 0, 2])
                if s and s.orphan is not None:
                    acts.append(["pub", c, sid, g, 0, s.ttl])
                if s:
                    acts.append(["unpub", c, sid])
            acts.append(["unsub", c, 1] if 1 in dom.subs
                        else ["sub", c, 1, 0])
            acts.append(["close", c])
        acts += [["wait", 0.9], ["wait", 2.2]]
        return acts


class Busy(Domains):
    """Starting with both domains in use."""
    setup = (["login", 1, 0, 0, "A", 11, 3], ["login", 2, 0, 1, "A", 12, 2],
             ["login", 3, 1, 0, "B", 11, 2], ["login", 4, 1, 0, "A", 12, 3],
             ["pub", 1, 1, 1, 0, 2], ["pub", 3, 1, 1, 0, 2])


class Simultaneous(Busy):
    """Events of both domains pending at once, served in either order."""

    def alphabet(self):
        acts = []
        per = {0: [], 1: []}
        for a in Domains.alphabet(self):
            if a[0] in ("pub", "unpub", "sub", "unsub", "close"):
                per[self.slots[a[1]][0]].append(a)
            else:
                acts.append(a)
        for a in per[0]:
            for b in per[1]:
                if a[0] == b[0] or "close" in (a[0], b[0]):
                    acts += [["par", 0, [a, b]], ["par", 1, [a, b]]]
        return acts


class Admission(Domains):
    """Connections which have not said hello yet, up to the limit of each."""
    total_limits = dict(clients=3)
    user_limits = {}
    slots = {1: (0, 0, "A", 11, 3), 2: (0, 1, "A", 12, 2),
             3: (1, 0, "B", 11, 2), 4: (1, 0, "A", 12, 3),
             5: (1, 0, "A", 13, 2)}

    def alphabet(self):
        acts = []
        for c, (d, ai, user, cid, ver) in self.slots.items():
            x = self.m.conns.get(c)
            if x is None:
                acts.append(["connect", c, d, ai, user])
            elif not x.hs:
                acts += [["hello", c, cid, ver, ver], ["close", c]]
            else:
                acts.append(["close", c])
        return acts + [["wait", 0.9], ["wait", 3.7]]


class Idle(Domains):
    """Idle limits and timers of both domains."""
    doms = (dict(name="d0", addrs=("ux:d0", "tcp:127.0.0.1:4711"),
                 idle=(2, 5)),
            dict(name="d1", addrs=("ux:d1",), idle=(2, 7)))
    total_limits = {}
    user_limits = {}
    slots = {1: (0, 1, "A", 11, 3), 3: (1, 0, "A", 11, 3)}
    setup = (["login", 1, 0, 1, "A", 11, 3], ["login", 3, 1, 0, "A", 11, 3],
             ["track", 1])

    def alphabet(self):
        acts = []
        for c, (d, ai, user, cid, ver) in self.slots.items():
            x = self.m.conns.get(c)
            if x is None:
                acts.append(["login", c, d, ai, user, cid, ver])
                continue
            s = self.m.doms[d].services.get(1)
            acts += [["pub", c, 1, s.gen + 1 if s else 1, 0, 3],
                     ["ping", c], ["close", c]]
            if x.track is None:
                acts.append(["track", c])
            elif x.query_at is not None:
                acts.append(["tr", c])
        acts += [["wait", 1.2], ["wait", 2.9], ["wait", 5.6]]
        return acts


def run(check):
    t = check.thorough
    check.explore("domains", Domains, 5 if t else 4)
    check.explore("busy", Busy, 4 if t else 3)
    check.explore("simultaneous", Simultaneous, 3 if t else 2)
    check.explore("admission", Admission, 6 if t else 5)
    check.explore("idle", Idle, 6 if t else 4)
