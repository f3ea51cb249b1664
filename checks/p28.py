"""P28: two-way tracking."""
from world import World

FX = frozenset({'drop', 'nodrop', 'ta', 'unsolicited', 'list', 'stream',
                'svc'})


class Track(World):
    watch = frozenset({'track'})
    doms = (dict(name="d0", addrs=("ux:d0",), idle=(4, 6)),)
    setup = (["login", 1, 0, 0, "A", 11, 3], ["track", 1],
             ["login", 2, 0, 0, "B", 12, 3], ["sub", 2, 1, 0])
    slots = {1: ("A", 11, 3), 2: ("B", 12, 3)}
    extra = True

    def start(self, ep):
        self.informed = False
        return World.start(self, ep)

    def do(self, ep, a):
        self.informed = a[0] in ("tr", "tq", "track", "inf")
        return World.do(self, ep, a)

    def build(self, a):
        if a[0] == "inf":       # a track inform with any type and id
            x = self.m.conns[a[1]]
            return {'ta-cmd': 'track', 'msg-type': 'inform',
                    'ta-id': x.track if a[3] == "own" and
                    x.track is not None else 55, 'track-type': a[2]}
        return World.build(self, a)

    def mismatch(self, tags, msg):
        tags = {tags} if isinstance(tags, str) else set(tags)
        if self.informed and tags & FX:
            tags.add('track')   # an effect of tracking messages
        World.mismatch(self, tags, msg)

    def alphabet(self):
        acts = []
        for c, (user, cid, ver) in self.slots.items():
            x = self.m.conns.get(c)
            if x is None:
                acts.append(["login", c, 0, 0, user, cid, ver])
                continue
            if not x.hs:
                acts += [["hello", c, cid, ver, ver], ["close", c]]
                continue
            acts.append(["ping", c])
            if ver == 3 or self.extra:
                acts += [["track", c], ["tq", c], ["tr", c]]
            if self.extra and c == 1:
                acts += [["inf", c, "ping", "own"], ["inf", c, "query", "x"],
                         ["inf", c, "reply", "x"]]
            acts.append(["close", c])
        if 1 in self.m.conns and self.m.conns[1].hs:
            s = self.m.doms[0].services.get(1)
            acts.append(["pub", 1, 1, s.gen + 1 if s else 1, 0, 4])
        acts += [["wait", 1.4], ["wait", 2.9]]
        return acts


class V2(Track):
    """Tracking does not exist in protocol version 2."""
    setup = (["login", 1, 0, 0, "A", 11, 2], ["sub", 1, 1, 0])
    slots = {1: ("A", 11, 2), 2: ("B", 12, 3)}


class Late(Track):
    """Queries and replies at all times; only one client."""
    setup = (["login", 1, 0, 0, "A", 11, 3], ["track", 1])
    slots = {1: ("A", 11, 3)}
    extra = False
    rnd = 0.0

    def alphabet(self):
        acts = [["wait", 0.65]] + Track.alphabet(self)
        # a rival makes the server check earlier
        if 3 not in self.m.conns:
            acts.append(["seq", ["connect", 3, 0, 0, "A"],
                         ["hello", 3, 11, 3, 3]])
        else:
            acts.append(["hello", 3, 11, 3, 3])
            acts.append(["close", 3])
        return acts


def run(check):
    t = check.thorough
    check.explore("track", Track, 5 if t else 4)
    check.explore("one-client", Late, 7 if t else 5)
    check.explore("v2", V2, 5 if t else 4)
