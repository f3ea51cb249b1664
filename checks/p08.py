"""P08: handshake."""
import itertools

from world import World

FX = frozenset({'list', 'subs', 'svc', 'sub', 'stream', 'clients', 'drop',
                'nodrop'})


class Handshake(World):
    watch = frozenset({'hs'})
    setup = ()
    users = {1: "A", 2: "B", 3: "A"}
    offers = ((2, 3), (2, 2), (4, 9))
    cids = (11, 12)

    def start(self, ep):
        self.refused = False
        return World.start(self, ep)

    def judge(self, m, obs):
        for phs in m.exp.out.values():
            for ph in phs.values():
                for x in ph:
                    if x[0] == 'one' and x[2] == 'fail' and (
                            x[1] == 'hello' or 'no-hello' in
                            x[3]['reasons']):
                        self.refused = True
                        self.note("refusals")
        return World.judge(self, m, obs)

    def mismatch(self, tags, msg):
        tags = {tags} if isinstance(tags, str) else set(tags)
        if self.refused and tags & FX:
            tags.add('hs')      # a refused attempt had some effect
        World.mismatch(self, tags, msg)

    def model_key(self):
        return [World.model_key(self), self.refused]

    def alphabet(self):
        acts = []
        for c in (1, 2, 3):
            x = self.m.conns.get(c)
            if x is None:
                acts.append(["connect", c, 0, 0, self.users[c]])
                continue
            for cid in self.cids:
                for lo, hi in self.offers:
                    acts.append(["hello", c, cid, lo, hi])
            if not x.hs:
                # version 3 syntax differs only in having track
                acts += [["ping", c], ["pub", c, 1, 1, 0, 5],
                         ["sub", c, 1, 0], ["svcs", c, 0]]
            else:
                acts += [["pub", c, 1, 1, 0, 5]]
            acts.append(["close", c])
        return acts


class Extreme(Handshake):
    cids = (0, (1 << 63) - 1)


class Premature(Handshake):
    def alphabet(self):
        acts = []
        x = self.m.conns.get(1)
        if x is None:
            return [["connect", 1, 0, 0, "A"]]
        for lo, hi in self.offers:
            acts.append(["hello", 1, 11, lo, hi])
        acts.append(["hello", 1, 12, 2, 2])
        acts += [["ping", 1], ["pub", 1, 1, 1, 0, 5], ["unpub", 1, 1],
                 ["sub", 1, 1, 0], ["unsub", 1, 1], ["svcs", 1, 0],
                 ["svcs", 1, 5], ["subscriptions", 1], ["clients", 1],
                 ["close", 1]]
        if x.hs and x.ver == 3:
            acts += [["track", 1], ["tq", 1]]
        return acts


class Racing(Handshake):
    setup = (["connect", 1, 0, 0, "A"], ["connect", 2, 0, 0, "A"],
             ["connect", 3, 0, 0, "B"])

    def alphabet(self):
        acts = []
        h = {c: ["hello", c, 11, 2, 3] for c in (1, 2, 3)}
        for p in ([h[1], h[2]], [h[1], h[3]], [h[1], h[2], h[3]],
                  [["close", 1], h[2]], [["close", 1], h[3]],
                  [["close", 2], h[1]],
                  [["pub", 1, 1, 1, 0, 5], h[2]],
                  [["close", 1], h[2], h[3]]):
            if all(a[1] in self.m.conns for a in p):
                acts += [["par", 0, p], ["par", 1, p]]
        for c in (1, 2, 3):
            if c in self.m.conns:
                acts.append(["close", c])
            else:
                acts.append(["connect", c, 0, 0, "AAB"[c - 1]])
        return acts


def versions(lo, hi):
    class V(Handshake):
        doms = (dict(name="d0", addrs=("ux:d0",), vers=(lo, hi)),)
        observers = False
    V.__name__ = "V%d%d" % (lo, hi)
    return V


def run(check):
    t = check.thorough
    vals = (0, 1, 2, 3, 4, 5, (1 << 63) - 1)
    offers = list(itertools.product(vals, repeat=2))
    for lo, hi in ((2, 2), (2, 3), (3, 3)):
        cases = []
        for a in offers:
            p = [["connect", 1, 0, 0, "A"], ["hello", 1, 11, a[0], a[1]]]
            cases.append(p + [["ping", 1], ["hello", 1, 11, 2, 3]])
            for b in offers:
                cases.append(p + [["hello", 1, 11, b[0], b[1]],
                                  ["clients", 1], ["ping", 1]])
        check.cases("versions-%d-%d" % (lo, hi), versions(lo, hi), cases)
    check.explore("premature", Premature, 6 if t else 4)
    check.explore("handshake", Handshake, 8 if t else 6)
    check.explore("extreme-ids", Extreme, 7 if t else 5)
    check.explore("racing", Racing, 5 if t else 4)
