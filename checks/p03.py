"""P03: orphans live exactly their TTL and can be reclaimed."""
from edge import edges
from world import World

CL = {1: 11, 2: 12}


class Orphans(World):
    watch = frozenset({'orphan'})
    user = "A"
    setup = (["sub", 900, 90, 0], ["login", 1, 0, 0, "A", 11, 3])
    waits = (0.97, 1.98)

    def mismatch(self, tags, msg):
        tags = {tags} if isinstance(tags, str) else set(tags)
        # every service here is or was an orphan at some time
        if self.orphaned and tags & {'list', 'stream'}:
            tags.add('orphan')
        World.mismatch(self, tags, msg)

    def start(self, ep):
        self.orphaned = False
        return World.start(self, ep)

    def do(self, ep, a):
        if a[0] in ("close", "reset", "seq"):
            self.orphaned = True
        return World.do(self, ep, a)

    def model_key(self):
        return [World.model_key(self), self.orphaned]

    def alphabet(self):
        acts = []
        d = self.m.doms[0]
        for c, cid in CL.items():
            login = ["login", c, 0, 0, "A", cid, 2]
            for sid in (1, 2):
                s = d.services.get(sid)
                g = s.gen if s else 0
                same = None
                if s is not None:
                    # the very same content again
                    pi = [i for i in (0, 1) if self.same(s, i)]
                    same = [["pub", c, sid, g, i, s.ttl] for i in pi]
                new = ["pub", c, sid, g + 1, sid - 1,
                       5 if s is not None and s.ttl == 2 else 2]
                first = ["pub", c, sid, 1, sid - 1, 2]
                for p in (same or []) + [new if s else first]:
                    if c in self.m.conns:
                        acts.append(p)
                        acts.append(["seq", p, ["close", c]])
                    else:
                        acts.append(["seq", login, p])
                        acts.append(["seq", login, p, ["reset", c]])
                if s is not None and c in self.m.conns:
                    acts.append(["unpub", c, sid])
            if c in self.m.conns:
                acts.append(["close", c])
        acts += [["wait", w] for w in self.waits]
        acts.append(["wait", 0.05])
        return acts

    def same(self, s, i):
        import model
        from world import PROPS_
        return s.props == model.norm_props(PROPS_[i])


class TimedOut(World):
    """The owner is dropped for silence rather than closing."""
    watch = frozenset({'orphan'})
    doms = (dict(name="d0", addrs=("ux:d0",), idle=(1, 4)),)
    observers = True
    setup = (["sub", 900, 90, 0],)

    def alphabet(self):
        acts = []
        for c, cid in CL.items():
            if c not in self.m.conns:
                acts.append(["login", c, 0, 0, "A", cid, 3])
            else:
                acts += [["pub", c, 1, 1, 0, 2], ["pub", c, 1, 2, 1, 3],
                         ["close", c]]
        acts += [["wait", 1.13], ["wait", 2.17], ["wait", 4.41]]
        return acts


DAY = 86400.0
NEVER = (1 << 63) - 1


class Lifetimes(World):
    """Every kind of TTL, from none at all to for ever."""
    watch = frozenset({'orphan', 'list', 'stream'})
    doms = (dict(name="d0", addrs=("ux:d0",), idle=(10 ** 9, 10 ** 10)),)
    setup = (["sub", 900, 90, 0],)
    ttls = (0, 1, int(20 * DAY), int(26 * DAY), int(51 * DAY), NEVER)

    def alphabet(self):
        d = self.m.doms[0]
        acts = []
        for c, cid in CL.items():
            if c not in self.m.conns:
                acts.append(["login", c, 0, 0, "A", cid, 3])
            else:
                for ttl in self.ttls:
                    s = d.services.get(1)
                    acts.append(["pub", c, 1, s.gen + 1 if s else 1, 0, ttl])
                    acts.append(["seq", acts[-1], ["close", c]])
                acts += [["pub", c, 2, d.services[2].gen + 1
                          if 2 in d.services else 1, 1, ttl]
                         for ttl in self.ttls[:4:3]]
                acts.append(["close", c])
        return acts + [["wait", 0.97], ["wait", 1.03], ["wait", 25 * DAY]]


def run(check):
    t = check.thorough
    check.explore("orphans", Orphans, 5 if t else 4)
    check.explore("timed-out", TimedOut, 7 if t else 5)
    check.explore("lifetimes", Lifetimes, 5 if t else 4)
    check.explore("edges", edges(Orphans.watch, what="p"), 4 if t else 3)
